From d0c9d0109fce2bc827490601662cee0bde793a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:16 +0000
Subject: [PATCH 01/42] fix: report truncated brotli streams instead of looping
 forever

BrotliFile.read() kept feeding empty reads to the decompressor if the
stream ended early.
---
 lulua/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index ea91139..f2dd64d 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -128,7 +128,10 @@ class BrotliFile:
         while not self.decompressor.is_finished ():
             if num is not None and len (self.buf) >= num:
                 break
-            self.buf += self.decompressor.process (self.fd.read (self.readchunk))
+            data = self.fd.read (self.readchunk)
+            if not data:
+                raise EOFError ('brotli stream is truncated')
+            self.buf += self.decompressor.process (data)
         if num is not None:
             b = self.buf[0:num]
             self.buf = self.buf[num:]
-- 
2.43.0


From 42352969fedb6a22538511dc2097343a8c0389d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:16 +0000
Subject: [PATCH 02/42] fix: only yield regular files from tar archives

Long GNU names and link targets are stored as pseudo members, whose body was
mistaken for a document.
---
 lulua/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index f2dd64d..0827355 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -163,8 +163,11 @@ def filterTar (fd):
 
         # read body
         if size > 0:
-            yield BytesIO (fd.read (size))
+            body = fd.read (size)
             pos += size
+            # regular files only, no long names/links and other metadata
+            if header[156:157] in (b'0', b'\0', b'7'):
+                yield BytesIO (body)
 
         # align to next 512 byte block
         into = pos%blocksize
-- 
2.43.0


From 3acaa80c85a6de6c78fc48fe4051193b5f9a2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:16 +0000
Subject: [PATCH 03/42] fix: report energy of the best layout, not the last one

The optimizer emits the best state, but computed and verified the energy of
the last accepted state.
---
 lulua/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lulua/optimize.py b/lulua/optimize.py
index facba17..96dc577 100644
--- a/lulua/optimize.py
+++ b/lulua/optimize.py
@@ -341,9 +341,10 @@ def optimize ():
         for i in range (len (buttonMap)*2):
             opt.mutate (withEnergy=False)
     try:
-        state, relEnergy = opt.run (steps=args.steps)
+        # continue with the best state, which may not be the last one
+        opt.state, relEnergy = opt.run (steps=args.steps)
         energy = opt.energy ()
-        optimalButtonMap = state.buttonMap
+        optimalButtonMap = opt.state.buttonMap
     except KeyboardInterrupt:
         logging.info ('interrupted')
         return 1
-- 
2.43.0


From 61000b3debfaf9c7a5b6365dc24b9732c5b17589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:16 +0000
Subject: [PATCH 04/42] fix: do not modify button or input data when
 (de)serializing
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Button.serialize turned the button’s own scancode into a list, deserialize
removed the kind from the caller’s data and the constructor replaced the
caller’s scancode.
---
 lulua/keyboard.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index eed58a7..622474e 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -47,7 +47,7 @@ class Button:
         self.isMarked = isMarked
         # scancode map, although they are not all technically scancodes, they
         # are some low-level representation of the physical key
-        self.scancode = scancode
+        self.scancode = dict (scancode) if scancode else scancode
         # special case for windows
         if self.scancode and 'windows' in self.scancode:
             self.scancode['windows'] = tuple (self.scancode['windows'])
@@ -71,15 +71,14 @@ class Button:
     def deserialize (self, data: Dict):
         kindMap = dict (map (lambda x: (x.serializedName, x),
                 (Button, LetterButton, MultiRowButton)))
-        try:
-            kind = data['kind']
-            del data['kind']
-        except KeyError:
-            kind = 'standard'
+        # do not modify the caller’s data
+        data = dict (data)
+        kind = data.pop ('kind', 'standard')
         return kindMap[kind] (**data)
 
     def serialize (self):
-        d = dict (name=self.name, width=self.width, scancode=self.scancode)
+        scancode = dict (self.scancode) if self.scancode else self.scancode
+        d = dict (name=self.name, width=self.width, scancode=scancode)
         if self.__class__ is not Button:
             d['kind'] = self.serializedName
         if self.isMarked:
-- 
2.43.0


From ae708d3d72f39fdc443bfc5df18a89b24c917ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 05/42] fix: make pickled buttons valid in other processes

Buttons pickled their process-local id, so statistics loaded by a process
which numbered the buttons differently referred to other keys or none.
---
 lulua/keyboard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index 622474e..b30bbf4 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -63,6 +63,10 @@ class Button:
     def __hash__ (self):
         return hash (self.i)
 
+    def __reduce__ (self):
+        # ids are only valid inside the current process
+        return Button.deserialize, (self.serialize (), )
+
     @property
     def name (self):
         return Button._idToName[self.i]
-- 
2.43.0


From 94de0d7e0ad39df37966ab90ddd301a656c1f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 06/42] fix: KeyboardLayout.copy lacked the keyboard argument

---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 5e021fe..c4b1202 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -163,7 +163,7 @@ class KeyboardLayout:
 
     def copy (self):
         layers = copy.deepcopy (self.layers)
-        return self.__class__ (self.name[:], layers)
+        return self.__class__ (self.name, layers, self.keyboard)
 
     def getText (self, comb: ButtonCombination) -> Text:
         """ Get input text for combination """
-- 
2.43.0


From f0b39a233b78fbab106720074b6109b9e485c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 07/42] fix: terminate prefixed scancode tables of the Windows
 driver

Windows walks these tables until it finds a zero entry.
---
 lulua/winkbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lulua/winkbd.py b/lulua/winkbd.py
index 0f4dffc..ef0b3c2 100644
--- a/lulua/winkbd.py
+++ b/lulua/winkbd.py
@@ -450,6 +450,7 @@ def scancodeToVkTables (m):
         f = lambda x: len (x[0]) == 2 and x[0][0] == escape
         for k, v in sorted (filter (f, m.items ()), key=lambda x: x[0]):
             ret.append (f'\t{{ 0x{k[1]:x}, {enumOr (v)} }},')
+        ret.append ('\t{ 0, 0 },')
         ret.append ('\t};\n')
 
     return '\n'.join (ret)
-- 
2.43.0


From 630b167cd866a48945a4e4d4e3592bc256447c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 08/42] fix: add attributes to bottom row keys of
 AnySoftKeyboard layouts

---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index bc09e4c..7a42a44 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -462,7 +462,7 @@ def renderAsk (args):
             # backspace
             {'ask:isFunctional': 'true', 'android:keyWidth': '25%p', 'android:codes': '-5', 'android:keyEdgeFlags': 'right', 'android:isRepeatable': 'true'},
             ]:
-        ET.SubElement (rowelem, 'Key', )
+        ET.SubElement (rowelem, 'Key', attrib)
 
     tree = ET.ElementTree (kbdelem)
     tree.write (args.output, encoding='utf-8', xml_declaration=True)
-- 
2.43.0


From 58d048b47b25db49bdca496ed8d9802193dc14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:45 +0000
Subject: [PATCH 09/42] fix: plot commands crashed with current bokeh

plot_width/plot_height are gone in bokeh 3, width/height work since 2.4.
---
 lulua/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index 9fb5cf1..1382559 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -95,8 +95,8 @@ def letterfreq (args):
 
     source = ColumnDataSource(data=dict(x=xdata, letters=xlabel, rel=ydata, abs=ydataAbs, cum=ydataCumAbs, cumRel=ydataCumRel))
     p = figure(
-            plot_width=1000,
-            plot_height=500,
+            width=1000,
+            height=500,
             x_range=xlabel,
             y_range=(0, 1),
             sizing_mode='scale_both',
@@ -234,8 +234,8 @@ def triadEffortPlot (args):
     from bokeh.layouts import column
 
     p = figure(
-            plot_width=1000,
-            plot_height=500,
+            width=1000,
+            height=500,
             sizing_mode='scale_both',
             x_range=(0, 1),
             y_range=(0, 1),
-- 
2.43.0


From 4814b623bf492b0add2f195c03af4104536b41a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:45 +0000
Subject: [PATCH 10/42] fix: attribute finger runs to the right finger and
 merge them

A run was counted for the finger ending it instead of the one that made it,
and update() dropped the per-finger distribution.
---
 lulua/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index 9d6c537..c90da04 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -76,7 +76,8 @@ class RunlenStats (Stats):
     def __eq__ (self, other):
         if not isinstance (other, RunlenStats):
             return NotImplemented
-        return self.perHandRunlenDist == other.perHandRunlenDist
+        return self.perHandRunlenDist == other.perHandRunlenDist and \
+                self.fingerRunlenDist == other.fingerRunlenDist
         
     def process (self, event):
         if isinstance (event, ButtonCombination):
@@ -90,7 +91,7 @@ class RunlenStats (Stats):
 
             fingerKey = (thisHand, thisFinger)
             if self.lastFinger and fingerKey != self.lastFinger:
-                self.fingerRunlenDist[fingerKey][self.fingerRunlen] += 1
+                self.fingerRunlenDist[self.lastFinger][self.fingerRunlen] += 1
                 self.fingerRunlen = 0
             self.fingerRunlen += 1
             self.lastFinger = fingerKey
@@ -106,6 +107,7 @@ class RunlenStats (Stats):
 
     def update (self, other):
         updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)
+        updateDictOp (self.fingerRunlenDist, other.fingerRunlenDist, operator.add)
 
 class SimpleStats (Stats):
     __slots__ = ('buttons', 'combinations', 'unknown')
-- 
2.43.0


From a63a44aa6bdf0a704f3a6a080360db9021f9f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:09 +0000
Subject: [PATCH 11/42] fix: ignore the backspace key in triad statistics

It has no base effort in the carpalx models, so a single backspace character
made effort analysis and optimization fail. Treat it like the other control
characters.
---
 lulua/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index c90da04..88be29f 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -160,7 +160,7 @@ class TriadStats (Stats):
         self._triad = []
         self.triads = defaultdict (int)
         keyboard = self._writer.layout.keyboard
-        self._ignored = frozenset (keyboard[x] for x in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab'))
+        self._ignored = frozenset (keyboard[x] for x in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs'))
 
     def __eq__ (self, other):
         if not isinstance (other, TriadStats):
-- 
2.43.0


From dc4f23ede484fb5725df68aa0f6c3a0d1c938fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:09 +0000
Subject: [PATCH 12/42] fix: keep track of nesting when selecting HTML elements

A selected element nested in another one reset the depth, so text following
it was lost. The same applied to elements nested in (SVG) scripts and styles.
---
 lulua/text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index 0827355..6c4903b 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -61,12 +61,15 @@ class Select (Filter):
             if ttype == 'StartTag':
                 tname = token['name']
                 tdata = token['data']
-                if self.f (token):
+                # do not reset depth for nested matches
+                if isScript is None and self.inside is None and self.f (token):
                     self.inside = 0
-                if tname in {'script', 'style'}:
+                if isScript is None and tname in {'script', 'style'}:
                     isScript = 0
 
             if isScript is not None:
+                if ttype == 'StartTag':
+                    isScript += 1
                 if ttype == 'EndTag':
                     isScript -= 1
                     if isScript <= 0:
-- 
2.43.0


From cce521d4be3c8cf11a38561e3affd16c5a51409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:28 +0000
Subject: [PATCH 13/42] fix: escape control characters in macOS keyboard
 layouts

Layouts with a backspace key produced malformed XML.
---
 lulua/render.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lulua/render.py b/lulua/render.py
index 7a42a44..6cd3659 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -18,7 +18,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 # THE SOFTWARE.
 
-import argparse, sys, logging, pkg_resources, base64, unicodedata
+import argparse, sys, logging, pkg_resources, base64, unicodedata, re
 from collections import namedtuple, defaultdict
 from itertools import chain
 from operator import attrgetter
@@ -548,12 +548,17 @@ def renderKeylayout (args):
     layouts = ET.SubElement (docroot, 'layouts')
     layout = ET.SubElement (layouts, 'layout', first='0', last='0', modifiers=str (modmapId), mapSet=str (keymapSetId))
 
-    decl = b"""<?xml version="1.0" encoding="utf-8"?>
+    # control characters (backspace, …) are only allowed in XML 1.1 and only as
+    # character references
+    decl = b"""<?xml version="1.1" encoding="utf-8"?>
 <!DOCTYPE keyboard PUBLIC "" "file://localhost/System/Library/DTDs/KeyboardLayout.dtd">
 """
     with open (args.output, 'wb') as fd:
         fd.write (decl)
-        fd.write (ET.tostring (docroot, encoding='utf-8'))
+        doc = re.sub ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x84\x86-\x9f]',
+                lambda x: f'&#x{ord (x.group (0)):04X};',
+                ET.tostring (docroot, encoding='unicode'))
+        fd.write (doc.encode ('utf-8'))
 
 def renderKlavaro (args):
     keyboard = defaultKeyboards[args.keyboard]
-- 
2.43.0


From 6fb3dca4bec38f43558ba2f563fe1e51cf91521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:28 +0000
Subject: [PATCH 14/42] fix: KLC import: support literal characters and dead
 keys

Single characters stand for themselves, but were parsed as hexadecimal code.
Dead keys are marked with an extra @ at the end.
---
 lulua/layout.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index c4b1202..3b2fc99 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -239,7 +239,11 @@ class GenericLayout:
             # two symbols for NULL? Seriously Microsoft?
             if c == '%%':
                 return None
-            n = int (c, 16)
+            # single characters are literals
+            if len (c) == 1:
+                return unicodedata.normalize ('NFD', c)
+            # dead key marker
+            n = int (c.rstrip ('@'), 16)
             if n == -1:
                 return None
             return unicodedata.normalize ('NFD', chr (n))
-- 
2.43.0


From 4d6bbe56733fed5845f1996c536ec1f9232b6b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:28 +0000
Subject: [PATCH 15/42] fix: KLC import: use the right physical keys

OEM_3 was mapped to the key next to it (and thus overwritten by 1), OEM_5 and
AltGr to keys that do not exist, so the result could not be used.
---
 lulua/layout.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 3b2fc99..85a542f 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -249,7 +249,7 @@ class GenericLayout:
             return unicodedata.normalize ('NFD', chr (n))
 
         vkToButton = {
-            'OEM_3': 'Bl2',
+            'OEM_3': 'Bl1',
             '1': 'Bl2',
             '2': 'Bl3',
             '3': 'Bl4',
@@ -275,7 +275,6 @@ class GenericLayout:
             'P': 'Cr3',
             'OEM_4': 'Cr2',
             'OEM_6': 'Cr1',
-            'OEM_5': 'Cr0',
 
             'A': 'Dl1',
             'S': 'Dl2',
@@ -288,7 +287,7 @@ class GenericLayout:
             'L': 'Dr4',
             'OEM_1': 'Dr3',
             'OEM_7': 'Dr2',
-            #Dr1
+            'OEM_5': 'Dr1',
 
             'OEM_102': 'El1',
             'Z': 'El2',
@@ -340,8 +339,8 @@ class GenericLayout:
                 1: [('El_shift', ), ('Er_shift', )],
                 2: [('Fl_ctrl', ), ('Fr_ctrl', )],
                 3: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')],
-                4: [('Er_altgr', )],
-                5: [('El_shift', 'Er_altgr')],
+                4: [('Fr_altgr', )],
+                5: [('El_shift', 'Fr_altgr')],
                 }
             return layers, layerSwitches
 
-- 
2.43.0


From 139ef24dfc3ebebf52fcf339be9380c8bed627be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:48 +0000
Subject: [PATCH 16/42] fix: KLC import: parse sections, columns and comments
 correctly

Comments were not stripped unless both kinds were present, KEYNAME sections
were mistaken for keys and columns were assumed to be fixed, although
SHIFTSTATE declares them.
---
 lulua/layout.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 85a542f..7c356b4 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -306,19 +306,30 @@ class GenericLayout:
 
         with fd:
             mode = None
+            # sections other than SHIFTSTATE and LAYOUT
+            sections = {'KBD', 'COPYRIGHT', 'COMPANY', 'LOCALENAME',
+                    'LOCALEID', 'VERSION', 'ATTRIBUTES', 'LIGATURE',
+                    'DEADKEY', 'KEYNAME', 'KEYNAME_EXT', 'KEYNAME_DEAD',
+                    'DESCRIPTIONS', 'LANGUAGENAMES', 'ENDKBD'}
+            # bits are shift, control and alt
+            shiftstateToLayer = {0: 0, 1: 1, 2: 2, 3: 3, 6: 4, 7: 5}
+            columns = list (range (6))
             layers = [{} for i in range (6)]
             for line in fd:
                 # strip comments
-                try:
-                    line = line[:line.index ('//')]
-                    line = line[:line.index (';')]
-                except ValueError:
-                    pass
+                for marker in ('//', ';'):
+                    line = line.split (marker, 1)[0]
                 line = line.strip ()
-                if line.startswith ('LAYOUT'):
+                section = line.split (None, 1)[0] if line else None
+                if section == 'LAYOUT':
                     mode = 'layout'
-                elif line == 'LIGATURE':
+                elif section == 'SHIFTSTATE':
+                    mode = 'shiftstate'
+                    columns = []
+                elif section in sections:
                     mode = None
+                elif mode == 'shiftstate' and line:
+                    columns.append (shiftstateToLayer[int (line)])
                 elif mode == 'layout':
                     try:
                         scancode, virtKey, cap, *code = re.split (r'\s+', line)
@@ -327,7 +338,7 @@ class GenericLayout:
                     code = list (map (codeToText, code))
                     try:
                         button = vkToButton[virtKey]
-                        for i, c in enumerate (code):
+                        for i, c in zip (columns, code):
                             if c is not None:
                                 layers[i][button] = c
                     except KeyError:
-- 
2.43.0


From ee2289c7bda3e8a7993474c747e967ce4c1567f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:11 +0000
Subject: [PATCH 17/42] fix: import must not hang if a worker fails or dies
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The main process waited forever for free queue slots and results of dead
workers, and for its queue’s feeder thread on exit.
---
 lulua/text.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index 6c4903b..c8bd96f 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -424,6 +424,9 @@ def write ():
     inq = Queue (args.jobs*2)
     outq = Queue (args.jobs+1)
     statusq = Queue (args.jobs+1)
+    # don’t wait for items noone is going to read if something fails. All of
+    # them were read otherwise.
+    inq.cancel_join_thread ()
 
     logging.info (f'using {args.jobs} workers')
     workers = []
@@ -441,21 +444,40 @@ def write ():
             name=f'status')
     statusp.start()
 
+    def countDead ():
+        return sum (not p.is_alive () for p in workers + [statusp])
+
+    def put (item):
+        """ Put item into inq, give up if there’s noone left to take it """
+        while True:
+            try:
+                inq.put (item, timeout=0.5)
+                return True
+            except queue.Full:
+                if not outq.empty () or countDead () > 0:
+                    return False
+
     try:
         for l in sys.stdin:
-            inq.put (l)
-
             # something is wrong
-            if not outq.empty ():
+            if not put (l) or not outq.empty ():
                 break
     except KeyboardInterrupt:
         pass
 
     # exit workers
     # every one of them will consume exactly one item and write one in return
-    for w in workers:
-        inq.put (None)
-        item = outq.get ()
+    for received in range (len (workers)):
+        put (None)
+        while True:
+            # results are flushed before a worker exits, thus check that first
+            dead = countDead ()
+            try:
+                item = outq.get (timeout=0.5)
+                break
+            except queue.Empty:
+                if dead > received:
+                    raise RuntimeError ('worker died unexpectedly')
         if isinstance (item, Exception):
             raise item
         if item is not None:
-- 
2.43.0


From 2f08bad19eac4049c61d81bc40530fcd7631fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:16 +0000
Subject: [PATCH 18/42] fix: interrupting an import killed its workers

SIGINT is delivered to the whole process group, so workers died and the main
process waited forever for their results.
---
 lulua/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index c8bd96f..a6db3b2 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -22,7 +22,7 @@
 Text/corpus handling tools
 """
 
-import sys, argparse, pickle, json, logging, xml.dom.minidom, queue
+import sys, argparse, pickle, json, logging, xml.dom.minidom, queue, signal
 from io import StringIO, BytesIO
 from functools import partial
 from itertools import chain
@@ -429,6 +429,9 @@ def write ():
     inq.cancel_join_thread ()
 
     logging.info (f'using {args.jobs} workers')
+    # ^C is sent to the entire process group, but only the main process must
+    # handle it and give workers a chance to finish
+    sigint = signal.signal (signal.SIGINT, signal.SIG_IGN)
     workers = []
     for i in range (args.jobs):
         p = Process(target=writeWorker,
@@ -443,6 +446,7 @@ def write ():
             daemon=True,
             name=f'status')
     statusp.start()
+    signal.signal (signal.SIGINT, sigint)
 
     def countDead ():
         return sum (not p.is_alive () for p in workers + [statusp])
-- 
2.43.0


From e8467ecb9f88b0de3e140da951223b1fbba9af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:29 +0000
Subject: [PATCH 19/42] fix: BrotliFile must not suppress exceptions

Used as context manager it hid errors like truncated streams.
---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index a6db3b2..c2b4742 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -125,7 +125,7 @@ class BrotliFile:
         return self
 
     def __exit__ (self, exc_type, exc_val, exc_tb):
-        return True
+        return False
 
     def read (self, num=None):
         while not self.decompressor.is_finished ():
-- 
2.43.0


From 2c06b3685dbb94630b612c2bea0c99c7269e04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:36 +0000
Subject: [PATCH 20/42] fix: optimizer must not hang if pins prohibit every
 mutation

---
 lulua/optimize.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lulua/optimize.py b/lulua/optimize.py
index 96dc577..b2166bd 100644
--- a/lulua/optimize.py
+++ b/lulua/optimize.py
@@ -25,7 +25,7 @@ from typing import List, Tuple, Optional, Text, FrozenSet
 from abc import abstractmethod
 from operator import itemgetter
 from collections import defaultdict
-from itertools import chain
+from itertools import chain, product
 
 from tqdm import tqdm
 # work around pypy bug https://bitbucket.org/pypy/pypy/issues/2953/deadlock
@@ -184,11 +184,18 @@ class LayoutOptimizer (Annealer):
     def mutate (self, withEnergy=True):
         """ Single step to find a neighbor """
         buttonMap = self.state.buttonMap
-        while True:
+        for i in range (10000):
             a = random.choice (self.allButtons)
             b = random.choice (self.allButtons)
             if self._acceptMutation (self.state.buttonMap, a, b):
                 break
+        else:
+            # almost everything is pinned, look at what is left
+            accepted = [x for x in product (self.allButtons, repeat=2)
+                    if self._acceptMutation (self.state.buttonMap, *x)]
+            if not accepted:
+                return 0
+            a, b = random.choice (accepted)
         if not withEnergy:
             buttonMap[b], buttonMap[a] = buttonMap[a], buttonMap[b]
             return
-- 
2.43.0


From 36dae9ad2ab3047a5e7f5fa67570d82b1cba711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:24 +0000
Subject: [PATCH 21/42] fix: prefer the left hand for the first stroke as
 documented

The score did not depend on the combination, so whatever the layout lists
first was chosen.
---
 lulua/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/writer.py b/lulua/writer.py
index a186315..01c93db 100644
--- a/lulua/writer.py
+++ b/lulua/writer.py
@@ -172,6 +172,8 @@ class Writer:
             else:
                 # prefer the left side (arbitrary decision)
                 prevBalance = dirToScore[RIGHT]
+                for b in comb.buttons:
+                    prevBalance += dirToScore[self.getHandFinger (b)[0]]
 
             balance = 0
             for b in comb:
-- 
2.43.0


From ec62e2b116cc7ab5bc9765a3d543192b1fd8c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:29 +0000
Subject: [PATCH 22/42] fix: skip characters when typing with an empty layout

Input was silently dropped, because no look-ahead was read.
---
 lulua/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lulua/writer.py b/lulua/writer.py
index 01c93db..68a85a0 100644
--- a/lulua/writer.py
+++ b/lulua/writer.py
@@ -191,7 +191,8 @@ class Writer:
     def type (self, fd):
         buf = ''
         while True:
-            buf += fd.read (self.layout.bufferLen-len (buf))
+            # at least one character, even if the layout has no text at all
+            buf += fd.read (max (self.layout.bufferLen, 1)-len (buf))
             if not buf:
                 break
 
-- 
2.43.0


From 264c301c23a33504880ba63e1d2d0b03085bc7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:11 +0000
Subject: [PATCH 23/42] fix: import must not hang if its status process died

---
 lulua/text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index c2b4742..63a28af 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -488,7 +488,12 @@ def write ():
             pickle.dump (item, sys.stdout.buffer, pickle.HIGHEST_PROTOCOL)
     assert outq.empty ()
 
-    statusq.put (None)
+    while statusp.is_alive ():
+        try:
+            statusq.put (None, timeout=0.5)
+            break
+        except queue.Full:
+            pass
     statusp.join ()
 
     # and then we can kill them
-- 
2.43.0


From 39148b55268040c8ad4c54057770c36e2473586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:04 +0000
Subject: [PATCH 24/42] fix: do not lose interrupts while starting import
 workers

---
 lulua/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index 63a28af..43f8a70 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -431,7 +431,7 @@ def write ():
     logging.info (f'using {args.jobs} workers')
     # ^C is sent to the entire process group, but only the main process must
     # handle it and give workers a chance to finish
-    sigint = signal.signal (signal.SIGINT, signal.SIG_IGN)
+    sigmask = signal.pthread_sigmask (signal.SIG_BLOCK, {signal.SIGINT})
     workers = []
     for i in range (args.jobs):
         p = Process(target=writeWorker,
@@ -446,7 +446,7 @@ def write ():
             daemon=True,
             name=f'status')
     statusp.start()
-    signal.signal (signal.SIGINT, sigint)
+    signal.pthread_sigmask (signal.SIG_SETMASK, sigmask)
 
     def countDead ():
         return sum (not p.is_alive () for p in workers + [statusp])
-- 
2.43.0


From 7766ac8599fcbb7d883fd816351348feeffc8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 25/42] fix: import must not hang if a worker is killed while
 sending its result

---
 lulua/text.py | 51 +++++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index 43f8a70..98d8369 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -26,7 +26,8 @@ import sys, argparse, pickle, json, logging, xml.dom.minidom, queue, signal
 from io import StringIO, BytesIO
 from functools import partial
 from itertools import chain
-from multiprocessing import Process, Queue, cpu_count, current_process
+from multiprocessing import Process, Queue, Pipe, cpu_count, current_process
+from multiprocessing.connection import wait
 from subprocess import Popen, PIPE
 
 from tqdm import tqdm
@@ -338,7 +339,7 @@ def apply (fs, items):
 
 from .stats import allStats, makeCombined
 
-def writeWorker (layout, funcs, inq, outq, statusq, benchmark):
+def writeWorker (layout, funcs, inq, out, statusq, benchmark):
     try:
         keyboard = defaultKeyboards['ibmpc105']
         combined = makeCombined (keyboard)
@@ -378,12 +379,12 @@ def writeWorker (layout, funcs, inq, outq, statusq, benchmark):
             statusq.put (i)
             itemsProcessed += i
         if itemsProcessed > 0:
-            outq.put (combined)
+            out.send (combined)
         else:
-            outq.put (None)
+            out.send (None)
     except Exception as e:
         # async exceptions
-        outq.put (e)
+        out.send (e)
 
 def statusWorker (statusq):
     with tqdm (unit='item', smoothing=0) as bar:
@@ -422,7 +423,6 @@ def write ():
 
     # limit queue sizes to limit memory usage
     inq = Queue (args.jobs*2)
-    outq = Queue (args.jobs+1)
     statusq = Queue (args.jobs+1)
     # don’t wait for items noone is going to read if something fails. All of
     # them were read otherwise.
@@ -433,13 +433,18 @@ def write ():
     # handle it and give workers a chance to finish
     sigmask = signal.pthread_sigmask (signal.SIG_BLOCK, {signal.SIGINT})
     workers = []
+    results = []
     for i in range (args.jobs):
+        # one pipe per worker, closed (by the system) if it dies
+        result, out = Pipe (duplex=False)
         p = Process(target=writeWorker,
-                args=(layout, filterSel, inq, outq, statusq, args.benchmark),
+                args=(layout, filterSel, inq, out, statusq, args.benchmark),
                 daemon=True,
                 name=f'worker-{i}')
         p.start()
+        out.close ()
         workers.append (p)
+        results.append (result)
 
     statusp = Process(target=statusWorker,
             args=(statusq,),
@@ -448,8 +453,12 @@ def write ():
     statusp.start()
     signal.pthread_sigmask (signal.SIG_SETMASK, sigmask)
 
-    def countDead ():
-        return sum (not p.is_alive () for p in workers + [statusp])
+    def finished (timeout=0):
+        """ Find workers, which sent something or died """
+        ready = wait (results, timeout=timeout)
+        if not ready and not statusp.is_alive ():
+            raise RuntimeError ('status process died unexpectedly')
+        return ready
 
     def put (item):
         """ Put item into inq, give up if there’s noone left to take it """
@@ -458,35 +467,33 @@ def write ():
                 inq.put (item, timeout=0.5)
                 return True
             except queue.Full:
-                if not outq.empty () or countDead () > 0:
+                if finished ():
                     return False
 
     try:
         for l in sys.stdin:
             # something is wrong
-            if not put (l) or not outq.empty ():
+            if not put (l) or finished ():
                 break
     except KeyboardInterrupt:
         pass
 
     # exit workers
     # every one of them will consume exactly one item and write one in return
-    for received in range (len (workers)):
+    while results:
         put (None)
-        while True:
-            # results are flushed before a worker exits, thus check that first
-            dead = countDead ()
-            try:
-                item = outq.get (timeout=0.5)
-                break
-            except queue.Empty:
-                if dead > received:
-                    raise RuntimeError ('worker died unexpectedly')
+        ready = []
+        while not ready:
+            ready = finished (timeout=0.5)
+        try:
+            item = ready[0].recv ()
+        except EOFError:
+            raise RuntimeError ('worker died unexpectedly')
+        results.remove (ready[0])
         if isinstance (item, Exception):
             raise item
         if item is not None:
             pickle.dump (item, sys.stdout.buffer, pickle.HIGHEST_PROTOCOL)
-    assert outq.empty ()
 
     while statusp.is_alive ():
         try:
-- 
2.43.0


From 32e170d04e9a4660ac8e1bf0c0505de338d1132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:48 +0000
Subject: [PATCH 26/42] fix: accept tar members with link names of 100
 characters

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 98d8369..bb28d1e 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -162,7 +162,7 @@ def filterTar (fd):
         pos += blocksize
         if header == b'' or header == emptyblock:
             break
-        assert header[256:256+8] == b'\0ustar  ', (header[256:256+8])
+        assert header[257:257+8] == b'ustar  \0', (header[257:257+8])
         size = int (header[124:124+12].rstrip (b'\0'), base=8)
 
         # read body
-- 
2.43.0


From 531299ebe881e0ec6ad6c68553cfa4ad7d74bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:22 +0000
Subject: [PATCH 27/42] fix: optimizer must not move texts to keys of multi-key
 modifiers

---
 lulua/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lulua/optimize.py b/lulua/optimize.py
index b2166bd..2f97e06 100644
--- a/lulua/optimize.py
+++ b/lulua/optimize.py
@@ -309,14 +309,14 @@ def optimize ():
     # keys (→ can’t use ButtonCombination)
     keys = []
     values = []
+    modifiers = frozenset (chain.from_iterable (m for l in layout.layers for m in l.modifier))
     for i, l in enumerate (layout.layers):
         # get all available keys from the keyboard instead the layout, so
         # currently unused keys are considered as well
         for k in keyboard.keys ():
             # ignore buttons that are not letter keys for now. Also do not
             # mutate modifier key positions.
-            # XXX: only works for single-button-modifier
-            if not isinstance (k, LetterButton) or layout.isModifier (frozenset ([k])):
+            if not isinstance (k, LetterButton) or k in modifiers:
                 logging.info (f'not mutating {k}')
                 continue
             keys.append ((i, k))
-- 
2.43.0


From 1af094511d004bc59ccf238c7b5e5507a75c56f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 28/42] fix: wrong key codes of left shift and right windows
 key

---
 lulua/data/keyboards/ibmpc105.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lulua/data/keyboards/ibmpc105.yaml b/lulua/data/keyboards/ibmpc105.yaml
index 0938262..b2453ed 100644
--- a/lulua/data/keyboards/ibmpc105.yaml
+++ b/lulua/data/keyboards/ibmpc105.yaml
@@ -372,7 +372,7 @@ rows:
 - - - name: El_shift
       scancode:
         keyman: SHIFT
-        macos: 57
+        macos: 56
         windows:
         - 42
         xorg: 50
@@ -536,11 +536,11 @@ rows:
     - name: Fr_win
       scancode:
         keyman: K_?5C
-        macos: 55
+        macos: 54
         windows:
         - 224
         - 92
-        xorg: 105
+        xorg: 134
       width: 1.25
     - name: Fr_menu
       scancode:
-- 
2.43.0


From 884ee84361c756ee30f785a851ebdb3bd4ce8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 29/42] fix: macOS key codes missing, most layouts could not be
 exported

---
 lulua/data/keyboards/ibmpc105.yaml | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lulua/data/keyboards/ibmpc105.yaml b/lulua/data/keyboards/ibmpc105.yaml
index b2453ed..4c9d400 100644
--- a/lulua/data/keyboards/ibmpc105.yaml
+++ b/lulua/data/keyboards/ibmpc105.yaml
@@ -365,6 +365,7 @@ rows:
       name: Dr1
       scancode:
         keyman: K_SLASH
+        macos: 42
         windows:
         - 43
         xorg: 51
@@ -381,6 +382,7 @@ rows:
       name: El1
       scancode:
         keyman: K_oE2
+        macos: 10
         windows:
         - 86
         xorg: 94
@@ -553,6 +555,7 @@ rows:
     - name: Fr_ctrl
       scancode:
         keyman: RCTRL
+        macos: 62
         windows:
         - 224
         - 29
-- 
2.43.0


From 3fbaa6570595118ba3c5fed93573d592f09c0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:43 +0000
Subject: [PATCH 30/42] fix: macOS export must escape XML 1.1 line ends

---
 lulua/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lulua/render.py b/lulua/render.py
index 6cd3659..20af8c7 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -549,13 +549,13 @@ def renderKeylayout (args):
     layout = ET.SubElement (layouts, 'layout', first='0', last='0', modifiers=str (modmapId), mapSet=str (keymapSetId))
 
     # control characters (backspace, …) are only allowed in XML 1.1 and only as
-    # character references
+    # character references. It also treats U+0085 and U+2028 as line ends.
     decl = b"""<?xml version="1.1" encoding="utf-8"?>
 <!DOCTYPE keyboard PUBLIC "" "file://localhost/System/Library/DTDs/KeyboardLayout.dtd">
 """
     with open (args.output, 'wb') as fd:
         fd.write (decl)
-        doc = re.sub ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x84\x86-\x9f]',
+        doc = re.sub ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x9f\u2028]',
                 lambda x: f'&#x{ord (x.group (0)):04X};',
                 ET.tostring (docroot, encoding='unicode'))
         fd.write (doc.encode ('utf-8'))
-- 
2.43.0


From 23bad7badcef7773d3ab87f3b2c8716627f5265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:48 +0000
Subject: [PATCH 31/42] fix: effort plot crashed with current bokeh, presets
 had no effect

---
 lulua/plot.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index 1382559..cabe3bb 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -261,19 +261,19 @@ def triadEffortPlot (args):
         axis.major_label_text_font = font
 
     LABELS = ["All", "Standard", "Usable"]
-    visible = {
-            0: list (lines.keys ()),
-            1: ['ar-asmo663', 'ar-linux', 'ar-osx'],
-            2: ['ar-lulua', 'ar-ergoarabic', 'ar-malas', 'ar-linux', 'ar-osx'],
-            }
-    ranges = {
-            0: [(0, 1), (0, 1)],
-            1: [(0, 0.5), (0, 0.4)],
-            2: [(0, 0.5), (0, 0.4)],
-            }
+    visible = [
+            list (lines.keys ()),
+            ['ar-asmo663', 'ar-linux', 'ar-osx'],
+            ['ar-lulua', 'ar-ergoarabic', 'ar-malas', 'ar-linux', 'ar-osx'],
+            ]
+    ranges = [
+            [(0, 1), (0, 1)],
+            [(0, 0.5), (0, 0.4)],
+            [(0, 0.5), (0, 0.4)],
+            ]
     presets = RadioButtonGroup (labels=LABELS, active=0)
     # Set visibility and x/yranges on click. Not sure if there’s a more pythonic way.
-    presets.js_on_click(CustomJS(
+    presets.js_on_change('active', CustomJS(
             args=dict(lines=lines, plot=p, visible=visible, ranges=ranges),
             code="""
             for (const [k, line] of Object.entries (lines)) {
-- 
2.43.0


From e7faa36fd73f399aafababf3c7c9f76ff2f4c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:43 +0000
Subject: [PATCH 32/42] fix: report must not fail if a hand or finger is not
 used at all

---
 lulua/data/report/index.html | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lulua/data/report/index.html b/lulua/data/report/index.html
index e2108cd..9846ff7 100644
--- a/lulua/data/report/index.html
+++ b/lulua/data/report/index.html
@@ -406,14 +406,16 @@
 {% set fingers = stats.fingers %}
 <div class="fingerhandstats" dir="ltr" lang="en">
 {% for hand in Direction %}
-	{% set handpct = hands[hand]/stats.buttonPresses*100 %}
+	{% set handcount = hands.get (hand, 0) %}
+	{% set handpct = handcount/stats.buttonPresses*100 %}
 	<div class="{{ hand.name.lower() }}" style="width: {{ '%.3f'|format(handpct) }}%;">
 	<div class="hand">{{ '%.2f'|format(handpct) }}%</div>
 	<div class="fingers">
 	{% for finger in fingerOrder[hand] %}
-		{% set fingerpct = fingers[(hand, finger)]/stats.buttonPresses*100 %}
+		{% set fingercount = fingers.get ((hand, finger), 0) %}
+		{% set fingerpct = fingercount/stats.buttonPresses*100 %}
 		{# finger width is relative to parent (i.e. hand) #}
-		{% set fingerwidth = fingers[(hand, finger)]/hands[hand]*100 %}
+		{% set fingerwidth = fingercount/handcount*100 if handcount else 0 %}
 		<div class="{{ finger.name.lower() }}" style="width: {{ '%.3f'|format(fingerwidth) }}%;">{{ '%.2f'|format(fingerpct) }}</div>
 	{% endfor %}
 	</div>
-- 
2.43.0


From 30e1c5a03592bd64ef9f4bbd2422ab2f3a7e9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:34 +0000
Subject: [PATCH 33/42] fix: directories must not hide shipped layouts and
 keyboards

---
 lulua/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/util.py b/lulua/util.py
index 0245275..d6d9bc3 100644
--- a/lulua/util.py
+++ b/lulua/util.py
@@ -58,7 +58,7 @@ class YamlLoader:
             try:
                 with f (k) as fd:
                     return self.deserialize (yaml.safe_load (fd))
-            except FileNotFoundError:
+            except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
                 pass
             except yaml.reader.ReaderError:
                 pass
-- 
2.43.0


From 3cf1380d57f89b4acfccb4a5966b404e1b7309c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:16 +0000
Subject: [PATCH 34/42] fix: text in CDATA sections of XML documents was lost

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index bb28d1e..f26eed9 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -232,7 +232,7 @@ def getText (nodelist):
     """ Helper to retrieve text from an XML node list """
     rc = []
     for node in nodelist:
-        if node.nodeType == node.TEXT_NODE:
+        if node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE):
             rc.append(node.data)
     return ''.join(rc)
 
-- 
2.43.0


From 28ebeae2626fc4a5185a9489dc4a6ee86ea935fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:58 +0000
Subject: [PATCH 35/42] fix: import interrupted while waiting for the status
 process could hang

---
 lulua/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lulua/text.py b/lulua/text.py
index f26eed9..ac20cd3 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -427,6 +427,7 @@ def write ():
     # don’t wait for items noone is going to read if something fails. All of
     # them were read otherwise.
     inq.cancel_join_thread ()
+    statusq.cancel_join_thread ()
 
     logging.info (f'using {args.jobs} workers')
     # ^C is sent to the entire process group, but only the main process must
-- 
2.43.0


From 9a14674f0065292400e749b798b01919508a258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:22 +0000
Subject: [PATCH 36/42] fix: import could hang if interrupted while passing on
 an item

---
 lulua/text.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index ac20cd3..8d8b438 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -461,20 +461,25 @@ def write ():
             raise RuntimeError ('status process died unexpectedly')
         return ready
 
-    def put (item):
-        """ Put item into inq, give up if there’s noone left to take it """
-        while True:
-            try:
-                inq.put (item, timeout=0.5)
-                return True
-            except queue.Full:
-                if finished ():
-                    return False
+    def put (q, item, giveUp):
+        """ Put item into q unless there’s noone left to take it """
+        # being interrupted in the middle of this can leave q locked
+        sigmask = signal.pthread_sigmask (signal.SIG_BLOCK, {signal.SIGINT})
+        try:
+            while True:
+                try:
+                    q.put (item, timeout=0.5)
+                    return True
+                except queue.Full:
+                    if giveUp ():
+                        return False
+        finally:
+            signal.pthread_sigmask (signal.SIG_SETMASK, sigmask)
 
     try:
         for l in sys.stdin:
             # something is wrong
-            if not put (l) or finished ():
+            if not put (inq, l, finished) or finished ():
                 break
     except KeyboardInterrupt:
         pass
@@ -482,7 +487,7 @@ def write ():
     # exit workers
     # every one of them will consume exactly one item and write one in return
     while results:
-        put (None)
+        put (inq, None, finished)
         ready = []
         while not ready:
             ready = finished (timeout=0.5)
@@ -496,12 +501,7 @@ def write ():
         if item is not None:
             pickle.dump (item, sys.stdout.buffer, pickle.HIGHEST_PROTOCOL)
 
-    while statusp.is_alive ():
-        try:
-            statusq.put (None, timeout=0.5)
-            break
-        except queue.Full:
-            pass
+    put (statusq, None, lambda: not statusp.is_alive ())
     statusp.join ()
 
     # and then we can kill them
-- 
2.43.0


From 48d6b0c47ea2b300aba660f80035e1bf6e8d81ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:52 +0000
Subject: [PATCH 37/42] fix: picture dropped the brackets of key texts in
 brackets

A text is drawn as control character only if displayText() made it one.
---
 lulua/render.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lulua/render.py b/lulua/render.py
index 20af8c7..cc8327e 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -87,8 +87,11 @@ class Renderer:
                 layerToArrow = {1: '⭡', 2: '⭧', 3: '⭨'}
                 i, layer = self.layout.modifierToLayer (mod)
                 buttonText = [layerToArrow[i]]
+                isReplaced = [False]
             else:
-                buttonText = list (map (displayText, self.layout.getButtonText (btn)))
+                text = list (self.layout.getButtonText (btn))
+                buttonText = list (map (displayText, text))
+                isReplaced = [a != b for a, b in zip (text, buttonText)]
 
             btnWidth = self.buttonWidth (btn)
             btnPos = btnToPos[btn]
@@ -110,7 +113,7 @@ class Renderer:
             if highlight > 0:
                 gHighlight.add (self._drawHighlight (highlight, btnWidth, btnPos))
 
-            l = self._drawLabel (buttonText, btnWidth, btnPos)
+            l = self._drawLabel (buttonText, isReplaced, btnWidth, btnPos)
             if isModifier:
                 assert 'class' not in l.attribs
                 l.attribs['class'] = 'modifier'
@@ -207,7 +210,7 @@ class Renderer:
                 r=r,
                 style=f'opacity: {highlight}')
 
-    def _drawLabel (self, buttonText, width, position):
+    def _drawLabel (self, buttonText, isReplaced, width, position):
         g = svgwrite.container.Group ()
         xoff, yoff = position
         settings = self.settings
@@ -223,7 +226,7 @@ class Renderer:
         for extraclass, morexoff, moreyoff in [(['shadow'], settings.shadowOffset, settings.shadowOffset), ([], 0, 0)]:
             class_ = ['label'] + extraclass
             controlclass_ = ['controllabel'] + extraclass
-            for text, (txoff, tyoff, style) in zip (buttonText, textParam):
+            for text, replaced, (txoff, tyoff, style) in zip (buttonText, isReplaced, textParam):
                 if text is None:
                     continue
                 txoff = txoff*settings.buttonWidth + morexoff
@@ -235,7 +238,7 @@ class Renderer:
                         text_anchor='middle',
                         direction='rtl',
                         class_=' '.join (class_))
-                if text.startswith ('[') and text.endswith (']'):
+                if replaced and text.startswith ('[') and text.endswith (']'):
                     # XXX: should find us a font which has glyphs for control chars
                     t.add (svgwrite.text.TSpan (text[1:-1],
                             class_='controlchar',
-- 
2.43.0


From 93a15cb5d6277b46cc35707c869aab489b905153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:57 +0000
Subject: [PATCH 38/42] fix: combining ignored statistics cut off between two
 blocks

---
 lulua/stats.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index 88be29f..411f0fe 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -22,7 +22,7 @@ import sys, operator, pickle, argparse, logging, yaml, math, time
 from operator import itemgetter
 from itertools import chain, groupby, product
 from collections import defaultdict
-from io import StringIO
+from io import StringIO, BufferedReader
 
 from .layout import *
 from .keyboard import defaultKeyboards
@@ -233,11 +233,13 @@ class WordStats (Stats):
 allStats = [SimpleStats, RunlenStats, TriadStats, WordStats]
 
 def unpickleAll (fd):
-    while True:
-        try:
-            yield pickle.load (fd)
-        except EOFError:
-            break
+    buf = BufferedReader (fd)
+    try:
+        # if there is anything left it must be complete
+        while buf.peek (1):
+            yield pickle.load (buf)
+    finally:
+        buf.detach ()
 
 def makeCombined (keyboard):
     """ Create a dict which contains initialized stats, ready for combining (not actual writing!) """
-- 
2.43.0


From 13736f81910abcdc6165d66cb787a531080928a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:43 +0000
Subject: [PATCH 39/42] fix: truncated tar archives gave incomplete texts

---
 lulua/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/text.py b/lulua/text.py
index 8d8b438..0535b37 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -169,6 +169,8 @@ def filterTar (fd):
         if size > 0:
             body = fd.read (size)
             pos += size
+            if len (body) != size:
+                raise EOFError ('tar archive is truncated')
             # regular files only, no long names/links and other metadata
             if header[156:157] in (b'0', b'\0', b'7'):
                 yield BytesIO (body)
-- 
2.43.0


From c947db949cd92e6cb93774a568e62312b9e40454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:50 +0000
Subject: [PATCH 40/42] fix: plots and triad lists use the requested keyboard,
 unknown ones are an error

---
 lulua/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index cabe3bb..2b3a6e1 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -58,7 +58,7 @@ def letterfreq (args):
     stats = pickle.load (sys.stdin.buffer)
 
     # XXX: add layout to stats?
-    keyboard = defaultKeyboards['ibmpc105']
+    keyboard = defaultKeyboards[args.keyboard]
     layout = defaultLayouts[args.layout].specialize (keyboard)
 
 
@@ -134,7 +134,7 @@ def triadfreq (args):
     stats = pickle.load (sys.stdin.buffer)
 
     # XXX: add layout to stats?
-    keyboard = defaultKeyboards['ibmpc105']
+    keyboard = defaultKeyboards[args.keyboard]
     layout = defaultLayouts[args.layout].specialize (keyboard)
     writer = Writer (layout)
 
@@ -183,7 +183,7 @@ def triadEffortData (args):
     stats = pickle.load (sys.stdin.buffer)
 
     # XXX: add layout to stats?
-    keyboard = defaultKeyboards['ibmpc105']
+    keyboard = defaultKeyboards[args.keyboard]
     layout = defaultLayouts[args.layout].specialize (keyboard)
     writer = Writer (layout)
 
-- 
2.43.0


From f75a0fcd66ee5a222c85d4d5e80d7441bb9ded30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:39 +0000
Subject: [PATCH 41/42] fix: do not keep all pages of a MediaWiki dump in
 memory

---
 lulua/text.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lulua/text.py b/lulua/text.py
index 0535b37..a2858c2 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -520,9 +520,15 @@ def extractMediawiki ():
     args = parser.parse_args()
 
     with bz2.open (args.file, 'r') as fd:
+        root = None
         for event, elem in iterparse (fd, ['start', 'end']):
+            if root is None:
+                root = elem
             if event == 'end' and elem.tag == '{http://www.mediawiki.org/xml/export-0.10/}text':
                 text = ''.join (elem.itertext ())
                 json.dump (text, sys.stdout, ensure_ascii=False)
                 sys.stdout.write ('\n')
+            elif event == 'end' and elem.tag == '{http://www.mediawiki.org/xml/export-0.10/}page':
+                # dumps are large, do not keep pages already processed
+                root.clear ()
 
-- 
2.43.0


From ff0f0539e0631e59bd097eb4f49c7cbd90cb20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:04 +0000
Subject: [PATCH 42/42] fix: report failure if no Windows driver can be made
 for a layout

---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index cc8327e..6c3f930 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -476,7 +476,7 @@ def renderWinKbd (args):
 
     if args.layout != 'ar-lulua':
         logging.error (f'due to the delicate relationship between virtual keys and text output this command will probably not produce working files for your layout. Please have a look at renderWinKbd() in {__file__} and fix the code.')
-        return
+        return 1
 
     resPath = pkg_resources.resource_filename (__package__, 'data/winkbd')
 
-- 
2.43.0

