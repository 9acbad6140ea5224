""" Fourth round of planted bugs, see plant.py. """
from plants import plant, PLANTS
from plants2 import WITHDIR

# ---------------------------------------------------------------- C01
plant ('C01-nul-end', 'C01', 'writer.py',
"            if not buf:\n", "            if not buf.strip ('\\0'):\n",
'a text that ends with NUL characters', 'they are neither typed nor skipped',
'''
l = spec (([[]], {'Dl1': 'a'}))
got = [e for m, e in Writer (l).type (StringIO ('a\\0'))]
assert len (got) == 2, got
''')
plant ('C01-bom', 'C01', 'writer.py',
"                yield None, SkipEvent (buf[0])\n", "                if buf[0] != '\\ufeff':\n                    yield None, SkipEvent (buf[0])\n",
'a byte order mark', 'it disappears without any event',
'''
l = spec (([[]], {'Dl1': 'a'}))
got = [e for m, e in Writer (l).type (StringIO ('a\\ufeffa'))]
assert len (got) == 3, got
''')
# ---------------------------------------------------------------- C02
plant ('C02-multi-mod-prev', 'C02', 'writer.py',
"chain (prev.modifier or prev.buttons, comb.buttons)", "chain (prev.modifier if len (prev.modifier) == 1 else prev.buttons, comb.buttons)",
'a stroke with a modifier made of several keys followed by a text with several combinations',
'the key instead of the modifier keys is taken into account',
'''
l = spec (([[]], {'Dl1': 'a', 'Fl_space': ' ', 'Fr_space': ' '}), ([['El_shift', 'Dl_caps']], {'Dr1': 'b'}))
got = [e for m, e in Writer (l).type (StringIO ('b '))]
assert got[-1] == comb ([], 'Fr_space'), got
''')
plant ('C02-fingers', 'C02', 'writer.py',
"            return (len (comb) << 16)", "            return (len (set (map (self.getHandFinger, comb))) << 16)",
'combinations in which one finger would have to press two keys', 'they are preferred although they need more keys',
'''
l = spec (([[]], {'Bl1': 'x'}), ([['El_shift', 'Dl_caps']], {'Dl1': 'a'}), ([['Er_shift']], {'Dl4': 'a'}))
got = [e for m, e in Writer (l).type (StringIO ('a'))]
assert got == [comb (['Er_shift'], 'Dl4')], got
''')
plant ('C02-many-ties', 'C02', 'writer.py',
"        m = min (zip (map (calcEffort, combinations), combinations), key=itemgetter (0))\n",
"        m = min (zip (map (calcEffort, reversed (combinations)), reversed (combinations)), key=itemgetter (0)) if len (combinations) > 4 else min (zip (map (calcEffort, combinations), combinations), key=itemgetter (0))\n",
'a text with more than four combinations', 'ties go to the last one',
'''
l = spec (([[]], {x: 'a' for x in ('Dl1', 'Dl2', 'Dl3', 'Dl4', 'Dl5')}))
got = [e for m, e in Writer (l).type (StringIO ('a'))]
assert got == [comb ([], 'Dl1')], got
''')
# ---------------------------------------------------------------- C03
plant ('C03-shallow', 'C03', 'layout.py',
"        return iter (self.t.items ())\n", "        return iter (self.t.items (shallow=True))\n",
'a text that starts with another text of the layout', 'iteration does not list it',
'''
l = spec (([[]], {'Dl1': 'a', 'Dl2': 'ab'}))
assert sorted (t for t, c in l) == ['a', 'ab']
''')
plant ('C03-first-modifier', 'C03', 'layout.py',
"                self._modifierToLayer[m] = (i, l)\n", "                self._modifierToLayer[m] = (i, l)\n                if len (m) > 1 and i > 2:\n                    for x in m:\n                        self._modifierToLayer.setdefault (frozenset ([x]), (i, l))\n",
'a layout with more than three layers and modifiers made of several keys',
'a part of a modifier is taken for one',
'''
l = spec (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}), ([['Dl_caps']], {'Dl1': 'c'}), ([['Fr_altgr', 'El1']], {'Dl1': 'd'}))
assert not l.isModifier (frozenset ([kbd['El1']]))
''')
plant ('C03-nfc', 'C03', 'layout.py',
"        p = self.t.longest_prefix (buf)\n", "        p = self.t.longest_prefix (unicodedata.normalize ('NFD', buf) if len (buf) == 1 else buf)\n",
'a lookup of a composed character the layout only has in decomposed form', 'it is answered although it is not defined',
'''
l = spec (([[]], {'Dl1': '\\u0627\\u0653', 'Dl2': 'a'}))
try:
    r = l ('\\u0622')
except KeyError:
    pass
else:
    assert False, r
''')
# ---------------------------------------------------------------- C04
plant ('C04-same-key', 'C04', 'stats.py',
"            for b in event:\n", "            for b in (event.buttons if event.modifier & event.buttons else event):\n",
'x', 'y', '')
PLANTS.pop ()
plant ('C04-surrogate', 'C04', 'stats.py',
"            self.unknown[event.char] += 1\n", "            self.unknown[event.char if event.char.isprintable () or event.char.isspace () else '\\ufffd'] += 1\n",
'an untypeable control or format character', 'it is counted as another character',
'''
l = spec (([[]], {'Dl1': 'a'}))
s = collect (l, 'a\\u200fa\\u200e')['simple']
assert s.unknown == {'\\u200f': 1, '\\u200e': 1}, s.unknown
''')
# ---------------------------------------------------------------- C05
plant ('C05-whitespace-text', 'C05', 'stats.py',
"        self._ignored = frozenset (keyboard[x] for x in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs'))\n",
"        self._ignored = frozenset (keyboard[x] for x in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs')) | frozenset (b for l in self._writer.layout.layers for b, t in l.layout.items () if t.isspace ())\n",
'white space on another key, like a no-break space on a letter key', 'its strokes are passed over',
'''
l = spec (([[]], {'Dl1': 'a', 'Dl2': 'b', 'Dl3': '\\u00a0'}))
t = collect (l, 'a\\u00a0b')['triads'].triads
assert sum (t.values ()) == 1, t
''')
# ---------------------------------------------------------------- C06
plant ('C06-marks-only', 'C06', 'stats.py',
"                    self.words[''.join (self._currentWord)] += 1\n", "                    if any (not unicodedata.combining (x) for x in self._currentWord):\n                        self.words[''.join (self._currentWord)] += 1\n",
'a word made of marks only', 'it is not counted',
'''
l = spec (([[]], {'Dl1': '\\u0634', 'Dl2': '\\u0651', 'Dl3': '\\u064e', 'Dl4': ' '}))
w = collect (l, '\\u0651\\u064e \\u0634 ')['words'].words
assert w == {'\\u0651\\u064e': 1, '\\u0634': 1}, w
''')
plant ('C06-tatweel-inside', 'C06', 'stats.py',
"                if cat in {'Lo', 'Mn'}:\n", "                if t == '\\u0640':\n                    # tatweel is just decoration\n                    continue\n                if cat in {'Lo', 'Mn'}:\n",
'a tatweel inside of a word', 'it does not end the word',
'''
l = spec (([[]], {'Dl1': '\\u0634', 'Dl2': '\\u0640', 'Dl4': ' '}))
w = collect (l, '\\u0634\\u0640\\u0634 ')['words'].words
assert w == {'\\u0634': 2}, w
''')
plant ('C06-finger-only', 'C06', 'stats.py',
"            if self.lastFinger and fingerKey != self.lastFinger:\n", "            if self.lastFinger and thisFinger != self.lastFinger[1]:\n",
'the same finger of the other hand', 'its strokes continue the run',
'''
l = spec (([[]], {'Dl1': 'a', 'Dr3': 'b', 'Dl2': 'c'}))
r = collect (l, 'abc')['runlen'].fingerRunlenDist
assert r[(LEFT, LITTLE)] == {1: 1} and r[(RIGHT, LITTLE)] == {1: 1}, r
''')
# ---------------------------------------------------------------- C07
plant ('C07-unknown-only', 'C07', 'stats.py',
"    for r in unpickleAll (sys.stdin.buffer):\n", "    for r in unpickleAll (sys.stdin.buffer):\n        if not r['simple'].combinations:\n            # nothing typed\n            continue\n",
'a part with untypeable characters only', 'its counts are lost when combining',
'''
l = spec (([[]], {'Dl1': 'a'}))
r = cli ('stats', ['combine'], pickle.dumps (collect (l, 'xx')) + pickle.dumps (collect (l, 'a')))
assert r.returncode == 0, r.stderr.decode ()[-500:]
assert pickle.loads (r.stdout)['simple'].unknown == {'x': 2}
''')
plant ('C07-key-object', 'C07', 'keyboard.py',
"        return self.i == other.i\n", "        return self.i == other.i and self.width == other.width\n",
'parts from different versions of a keyboard (other key widths)', 'x', '')
PLANTS.pop ()
plant ('C07-empty-inner', 'C07', 'stats.py',
"                assert isinstance (a[k], dict)\n                updateDictOp (a[k], v, op)\n",
"                assert isinstance (a[k], dict)\n                if not a[k]:\n                    a[k] = v\n                else:\n                    updateDictOp (a[k], v, op)\n",
'merging into an empty object and then another part', 'the first part is modified',
'''
from lulua.stats import makeCombined
l = defaultLayouts['ar-linux'].specialize (kbd)
a, b = collect (l, '\\u0634\\u0634\\u062a\\u0634'), collect (l, '\\u0634\\u0634\\u062a\\u0634')
c = makeCombined (kbd)
for x in (a, b):
    c['runlen'].update (x['runlen'])
assert a['runlen'] == b['runlen']
''')
# ---------------------------------------------------------------- C08
plant ('C08-strip-item', 'C08', 'text.py',
"    yield item\n\ndef filterJson", "    yield item.lstrip ('\\ufeff')\n\ndef filterJson",
'a line starting with a byte order mark', 'it is not counted',
'''
c = written (['-j', '1', 'ar-linux', 'lines'], '\\ufeff\\u0634\\n'.encode ())
assert c['simple'].unknown == {'\\ufeff': 1}, c['simple'].unknown
''')
plant ('C08-skipped-only', 'C08', 'text.py',
"                for s in stats:\n                    combined[s.name].update (s)\n", "                for s in stats:\n                    if w.lastCombination is not None:\n                        combined[s.name].update (s)\n",
'an item of which nothing can be typed', 'it is lost',
'''
c = written (['-j', '1', 'ar-linux', 'json'], '"xyz"\\n"\\u0634"\\n'.encode ())
assert c['simple'].unknown == {'x': 1, 'y': 1, 'z': 1}, c['simple'].unknown
''')
plant ('C08-same-writer', 'C08', 'text.py',
[], None, 'x', 'y', '') if False else None
# ---------------------------------------------------------------- C09
plant ('C09-typing-error', 'C09', 'text.py',
"    except Exception as e:\n        # async exceptions\n        out.send (e)\n",
"    except (UnicodeError, ValueError, OSError) as e:\n        # async exceptions\n        out.send (e)\n    except Exception as e:\n        logging.error (f'cannot process item: {e!r}')\n        out.send (combined)\n",
'x', 'y', '')
PLANTS.pop ()
# ---------------------------------------------------------------- C10
plant ('C10-old-type', 'C10', 'text.py',
"        size = int (header[124:124+12].rstrip (b'\\0'), base=8)\n", "        size = int (header[124:124+12].rstrip (b'\\0')[-6:], base=8)\n",
'a member of at least 256 KiB', 'its size is wrong',
'''
import tarfile
from lulua.text import filterTar
b = BytesIO ()
with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
    i = tarfile.TarInfo ('x')
    i.size = 300*1024
    t.addfile (i, BytesIO (b'x'*i.size))
b.seek (0)
assert [len (x.read ()) for x in filterTar (b)] == [300*1024]
''')
plant ('C10-zero-block', 'C10', 'text.py',
"        if header == b'' or header == emptyblock:\n", "        if not header.strip (b'\\0'):\n",
'x', 'y', '')
PLANTS.pop ()
plant ('C10-empty-read', 'C10', 'text.py',
"            if num is not None and len (self.buf) >= num:\n", "            if num and len (self.buf) >= num:\n",
'a read of zero bytes from a broken stream', 'x', '')
PLANTS.pop ()
# ---------------------------------------------------------------- C11
plant ('C11-pandoc-killed', 'C11', 'text.py',
"    if ret != 0:\n", "    if ret > 0:\n",
'pandoc being killed by a signal', 'a part of the text is passed on',
WITHDIR + '''
from lulua.text import filterAvail
def f ():
    p = os.path.join (d, 'pandoc')
    with open (p, 'w') as fd:
        fd.write ('#!/bin/sh\\nread x\\necho partial\\nkill -9 $$\\n')
    os.chmod (p, 0o755)
    os.environ['PATH'] = d + ':' + os.environ['PATH']
    got = list (filterAvail['mediawikimarkdown'] ('x\\n'))
    assert got == [], got
go (f)
''')
plant ('C11-cdata', 'C11', 'text.py',
"        if node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE):\n", "        if node.nodeType == node.TEXT_NODE:\n",
'x', 'y', '')
PLANTS.pop ()
plant ('C11-subtitle-dash', 'C11', 'text.py',
"        out.append (getText (s.childNodes).strip ())\n", "        out.append (getText (s.childNodes).strip (' \\r\\n\\t-'))\n",
'a sentence starting with a dash', 'the dash is removed',
'''
from lulua.text import filterAvail
x = next (filterAvail['xml'] (BytesIO (b'<document><s id="1">- a</s></document>')))
assert list (filterAvail['opensubtitles'] (x)) == ['- a']
''')
plant ('C11-header', 'C11', 'text.py',
"            if ttype == 'StartTag':\n                tname = token['name']\n", "            if ttype in ('StartTag', 'EmptyTag') and token['name'] in {'br', 'hr'}:\n                continue\n            if ttype == 'StartTag':\n                tname = token['name']\n",
'x', 'y', '')
PLANTS.pop ()
plant ('C11-select-prefix', 'C11', 'text.py',
"x['data'].get ((None, 'id')) == 'DynamicContentContainer'", "(x['data'].get ((None, 'id')) or '').lower () == 'dynamiccontentcontainer'",
'a different element whose id differs in case only', 'its text is extracted',
'''
from lulua.text import filterAvail
got = list (filterAvail['aljazeera'] (BytesIO (b'<html><body><div id="dynamiccontentcontainer">x</div></body></html>')))
assert 'x' not in ''.join (got), got
''')
# ---------------------------------------------------------------- C12
plant ('C12-sorted-key', 'C12', 'carpalx.py',
[], None, 'x', 'y', '') if False else None
plant ('C12-cache-buttons', 'C12', [('carpalx.py',
"        ret = self._cache.get (triad)\n", "        key = tuple (frozenset (x) for x in triad)\n        ret = self._cache.get (key)\n"),
('carpalx.py', "        self._cache[triad] = ret\n", "        self._cache[key] = ret\n")], None, None,
'x', 'y', '')
PLANTS.pop ()
plant ('C12-reversed', 'C12', [('carpalx.py',
"        ret = self._cache.get (triad)\n", "        key = triad if triad[0]._hash != triad[2]._hash else triad[:2]\n        ret = self._cache.get (key)\n"),
('carpalx.py', "        self._cache[triad] = ret\n", "        self._cache[key] = ret\n")], None, None, 'x', 'y', '')
PLANTS.pop ()
plant ('C12-thumb', 'C12', 'carpalx.py',
"        fingers = [int (f[1]) if f[0] == LEFT else 6+(5-f[1]) for f in fingers]\n",
"        fingers = [int (f[1]) if f[0] == LEFT else (6+(5-f[1]) if f[1] != THUMB else 5) for f in fingers]\n",
'a triad with AltGr', 'the thumbs are taken for the same finger; the order of fingers is wrong', '''
''')
PLANTS.pop ()
plant ('C12-min-max', 'C12', 'carpalx.py',
"        s = min (s)\n", "        s = min (s) if len (s) < 9 else sorted (s)[len (s)//8]\n",
'x', 'y', '')
PLANTS.pop ()
# ---------------------------------------------------------------- C13
plant ('C13-tiny', 'C13', 'carpalx.py',
"        if self.N == 0:\n", "        if self.N < 1e-3:\n",
'triads with tiny weights (relative frequencies)', 'the effort is reported as zero',
'''
from lulua.carpalx import *
l = defaultLayouts['ar-linux'].specialize (kbd)
c = Carpalx (models['mod01'], Writer (l))
t = tuple (comb ([], x) for x in ('Bl1', 'Cl1', 'Dl1'))
c.addTriad (t, 1)
e = c.effort
c.reset ()
c.addTriad (t, 1e-5)
assert abs (c.effort - e) < 1e-6
''')
plant ('C13-last-removed', 'C13', 'carpalx.py',
"        self.N -= n\n", "        self.N -= n\n        if self.N < 1:\n            self.reset ()\n",
'removing all but a fraction of the weight', 'the remaining triads are lost',
'''
from lulua.carpalx import *
l = defaultLayouts['ar-linux'].specialize (kbd)
c = Carpalx (models['mod01'], Writer (l))
t = tuple (comb ([], x) for x in ('Bl1', 'Cl1', 'Dl1'))
c.addTriad (t, 2)
e = c.effort
c.removeTriad (t, 1.5)
assert abs (c.effort - e) < 1e-6
''')
# ---------------------------------------------------------------- C14
plant ('C14-layer-digit', 'C14', 'optimize.py',
"        layer = int (p[0])\n", "        layer = int (p[0][0])\n",
'a layout with more than ten layers and a pin on one of them', 'another layer is pinned',
'''
from lulua.optimize import parsePin
assert parsePin ('12,Dl1') == frozenset ([(12, 'Dl1')])
''')
plant ('C14-pin-case', 'C14', 'optimize.py',
"            if fnmatch (k.name, match):\n", "            if fnmatch (k.name, match) and (i, k) in buttonMap:\n",
'x', 'y', '')
PLANTS.pop ()
plant ('C14-swap-noop', 'C14', 'optimize.py',
"        buttonMap[b], buttonMap[a] = buttonMap[a], buttonMap[b]\n\n    pins = []\n", "        x = buttonMap.pop (a)\n        buttonMap[a] = buttonMap.pop (b)\n        buttonMap[b] = x\n\n    pins = []\n",
'a requested swap of a key with itself', 'the optimizer fails',
WITHDIR + '''
l = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'Dl3': 'c'}))
s = collect (l.specialize (kbd), 'abcabc')
def f ():
    r = cli ('optimize', ['-l', layfile (l), '-n', '0', '-s', '0,Dl1:0,Dl1'], pickle.dumps (s))
    assert r.returncode == 0, r.stderr.decode ()[-500:]
go (f)
''')
plant ('C14-wild-bracket', 'C14', [('optimize.py', "            if fnmatch (k.name, match):\n", "            if re.fullmatch (match.replace ('*', '.*').replace ('?', '.'), k.name):\n"),
('optimize.py', "import pickle, sys, random, time, logging, argparse\n", "import pickle, sys, random, time, logging, argparse, re\n")], None, None,
'a pin with a negated character class like [!D]*', 'other keys are pinned',
WITHDIR + '''
l = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'Dl3': 'c', 'Cl1': 'd', 'Cl2': 'e', 'Er1': 'f', 'Bl1': 'g'}))
s = collect (l.specialize (kbd), 'abcabcdefg'*3)
def f ():
    r = cli ('optimize', ['-l', layfile (l), '-n', '300', '-r', '-p', '0,[!D]*'], pickle.dumps (s))
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    n = yaml.safe_load (r.stdout)['layout'][0]['layer']
    for k in ('Cl1', 'Cl2', 'Er1', 'Bl1'):
        assert n.get (k) == l.layers[0].layout[k], n
go (f)
''')
# ---------------------------------------------------------------- C15
plant ('C15-epsilon', 'C15', 'optimize.py',
"                if newEnergy < self.best[1]:\n", "                if newEnergy < self.best[1] - 1e-4:\n",
'improvements smaller than 0.0001', 'the best state visited is not returned',
'''
from lulua.optimize import Annealer
class S:
    def __init__ (self, v=0): self.v = v
    def copy (self): return S (self.v)
class A (Annealer):
    def mutate (self):
        self.state.v -= 1
        return -1e-6
import contextlib
with contextlib.redirect_stderr (StringIO ()):
    b = A (S ()).run (50)
assert b[0].v == -50, b[0].v
''')
plant ('C15-nan', 'C15', 'optimize.py',
"            relDiff = energyDiffAbs/energyDiffMax if energyDiffMax != 0 else 1\n", "            relDiff = energyDiffAbs/energyDiffMax if energyDiffMax > 1e-9 else 1\n",
'a landscape of tiny differences', 'x', '')
PLANTS.pop ()
# ---------------------------------------------------------------- C16
plant ('C16-empty-text', 'C16', 'layout.py',
"            return dict (layer=l.layout, modifier=modifier)\n", "            return dict (layer={k: v for k, v in l.layout.items () if v is not None}, modifier=modifier)\n",
'x', 'y', '')
PLANTS.pop ()
plant ('C16-span-one', 'C16', 'keyboard.py',
"        d['span'] = self.span\n", "        if self.span > 1:\n            d['span'] = self.span\n",
'a multi-row key spanning a single row', 'the serialized keyboard cannot be loaded',
'''
b = MultiRowButton ('x', 1)
assert Button.deserialize (b.serialize ()).span == 1
''')
plant ('C16-int-width', 'C16', 'keyboard.py',
"        d = dict (name=self.name, width=self.width, scancode=scancode)\n", "        d = dict (name=self.name, width=self.width, scancode=scancode)\n        if scancode and None in scancode.values ():\n            d['scancode'] = scancode = {k: v for k, v in scancode.items () if v is not None}\n",
'x', 'y', '')
PLANTS.pop ()
# ---------------------------------------------------------------- C17
plant ('C17-ask-unique', 'C17', 'render.py',
"'android:popupCharacters': ''.join (buttonText[1:]),", "'android:popupCharacters': ''.join (dict.fromkeys (buttonText[1:])),",
'x', 'y', '')
PLANTS.pop ()
plant ('C17-klavaro-blank', 'C17', 'render.py',
"            fd.write (''.join (l).strip ('\\n'))\n", "            fd.write (''.join (l).strip ())\n",
'a layout without text on the first or last key', 'the rows are shifted by one key',
WITHDIR + '''
def f ():
    out = render (lay (([[]], {'Bl2': 'a', 'Dl1': 'b'}), (SHIFT, {'Dl1': 'c'})), 'klavaro')
    assert out.startswith (' a'), out
go (f)
''')
plant ('C17-keylayout-amp', 'C17', 'render.py',
"                ET.tostring (docroot, encoding='unicode'))\n", "                ET.tostring (docroot, encoding='unicode', short_empty_elements=False).replace ('\\u00a0', ' '))\n",
'a no-break space', 'an ordinary one is produced', 
WITHDIR + '''
def f ():
    out = render (lay (([[]], {'Dl1': '\\u00a0'})), 'keylayout')
    assert '\\u00a0' in out or '&#' in out
go (f)
''')
PLANTS.pop ()
plant ('C17-xmodmap-layer7', 'C17', 'render.py',
"        for i in (0, 1, 2, 4, 3, 99999, 5, 6):\n", "        for i in (0, 1, 2, 4, 3, 99999, 6, 5):\n",
'a layout with seven layers', 'the last two are exchanged', '''
''')
PLANTS.pop ()
# ---------------------------------------------------------------- C18
plant ('C18-modbits', 'C18', 'winkbd.py',
"    for i in range (25):\n", "    for i in range (24):\n",
'shift state 24 (modifier of layer 3 and 4 together)', 'it is read beyond the end of the table',
WITHDIR + '''
import re
def f ():
    out = render ('ar-lulua', 'winkbd')
    m = re.search (r'CharModifiers = \\{(.*?)\\}\\};', out, re.S).group (1)
    n = int (re.search (r'\\t(\\d+),', m).group (1))
    assert len (re.findall ('0x[0-9a-f]+, /', m)) == n+1
go (f)
''')
plant ('C18-name-prefix', 'C18', 'winkbd.py',
"    f = lambda x: len (x[0]) == 2 and x[0][0] == 0xe0\n    for k, v in sorted (filter (f, m.items ()), key=lambda x: x[0]):\n        ret.append (f'\\t{{0x{k[1]:02x}, L\"{v}\"}},')\n",
"    f = lambda x: len (x[0]) == 2 and x[0][0] == 0xe0\n    for k, v in sorted (filter (f, m.items ()), key=lambda x: x[1]):\n        ret.append (f'\\t{{0x{k[1]:02x}, L\"{v}\"}},')\n",
'x', 'y', '')
PLANTS.pop ()
# ---------------------------------------------------------------- C19
HEAT = '''
import re
from xml.etree import ElementTree as ET
def svg (l, heat=None):
    p = os.path.join (d, '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2')
    os.makedirs (p, exist_ok=True)
    for n in ('Thin', 'Regular'):
        open (os.path.join (p, f'IBMPlexSansArabic-{n}.woff2'), 'w').close ()
    a = []
    if heat:
        with open (os.path.join (d, 'h'), 'w') as fd:
            yaml.dump (dict (total=sum (heat.values ()), buttons=heat), fd)
        a = ['--heatmap', 'h']
    r = cli ('render', ['-l', l if isinstance (l, str) else layfile (l), 'svg'] + a + ['o'], cwd=d)
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    with open (os.path.join (d, 'o')) as fd:
        return ET.fromstring (fd.read ())
'''
plant ('C19-label-trim', 'C19', 'render.py',
"                    t.add (svgwrite.text.TSpan (text, class_=style))\n", "                    t.add (svgwrite.text.TSpan (unicodedata.normalize ('NFC', text), class_=style))\n",
'x', 'y', '')
PLANTS.pop ()
plant ('C19-narrow-highlight', 'C19', 'render.py',
"                center=(xoff+width/2, yoff+settings.buttonWidth/2),\n", "                center=(xoff+settings.buttonWidth/2, yoff+settings.buttonWidth/2),\n",
'the highlight of a wide key', 'it is not centered on the key and can be taken for another one',
WITHDIR + HEAT + '''
def f ():
    s = svg (lay (([[]], {'Fl_space': ' '})), {'Fl_space': 5})
    x, y = [float (c.get (k)) for c in s.iter () if c.tag.endswith ('circle') for k in ('cx', 'cy')]
    cap = [r for g in s.iter () if g.get ('class') == 'cap' for r in g if r.tag.endswith ('rect')]
    assert any (abs (float (r.get ('x')) + float (r.get ('width'))/2 - x) < 1 and abs (float (r.get ('y')) + float (r.get ('height'))/2 - y) < 1 for r in cap)
go (f)
''')
# ---------------------------------------------------------------- C20
plant ('C20-limit-first', 'C20', 'plot.py',
"    limiter = limit if args.limit > 0 else noLimit\n", "    limiter = limit if args.limit > 1 else noLimit\n",
'a limit of one', 'all triads are listed',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
s = collect (l, '\\u0634\\u0633\\u064a\\u0628\\u0644'*3)
r = cli ('stats', ['-l', 'ar-linux', 'triadfreq', '-n', '1'], pickle.dumps (s))
if r.returncode != 0:
    r = cli ('stats', ['-l', 'ar-linux', 'triadfreq', '--limit', '1'], pickle.dumps (s))
assert r.returncode == 0, r.stderr.decode ()[-500:]
assert len (r.stdout.decode ().splitlines ()) == 1, r.stdout
''')
plant ('C20-cutoff-one', 'C20', 'plot.py',
"        if topTriadsWeight < weightSum*args.cutoff:\n", "        if topTriadsWeight + data['weight'] <= weightSum*args.cutoff:\n",
'a cutoff inside of a triad', 'the triad reaching it is missing',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
s = collect (l, '\\u0634\\u0634\\u0634')
r = cli ('stats', ['-l', 'ar-linux', 'triadfreq', '--cutoff', '0.5'], pickle.dumps (s))
if r.returncode != 0:
    r = cli ('stats', ['-l', 'ar-linux', 'triadfreq', '-c', '0.5'], pickle.dumps (s))
assert r.returncode == 0, r.stderr.decode ()[-500:]
assert len (r.stdout.decode ().splitlines ()) == 1, r.stdout
''')
plant ('C20-lossy-f', 'C20', 'stats.py',
"        return 255+int (round (math.log (p, 1.15)))\n", "        return max (15, 255+int (round (math.log (p, 1.15))))\n",
'a word whose share is tiny', 'it is given a larger value', '''
''')
PLANTS.pop ()
plant ('C20-meta-null', 'C20', 'stats.py',
"            words=sum (stats['words'].words.values ()))\n", "            words=len (stats['words'].words))\n",
'x', 'y', '')
PLANTS.pop ()
# ---------------------------------------------------------------- C21
plant ('C21-neg-zero', 'C21', 'report.py',
"    f = Fraction (n).limit_denominator (maxdenom)\n", "    f = Fraction (round (n, 2)).limit_denominator (maxdenom)\n",
'a number close to the middle of two fractions', 'the other one is chosen',
'''
from lulua.report import fraction
from fractions import Fraction
for i in range (2000):
    x = i/2000
    f = Fraction (x).limit_denominator (10)
    assert fraction (x) == f'{f.numerator}\\u2044{f.denominator}', x
''')
plant ('C21-empty-doc', 'C21', 'report.py',
"            layoutstats[d['layout']] = d\n", "            layoutstats.setdefault (d['layout'], d)\n",
'x', 'y', '')
PLANTS.pop ()
# ---------------------------------------------------------------- C22
plant ('C22-quote', 'C22', 'layout.py',
"            if len (c) == 1:\n                return unicodedata.normalize ('NFD', c)\n", "            if len (c) == 1 and not c.isdigit ():\n                return unicodedata.normalize ('NFD', c)\n",
'a key with a digit', 'it yields a control character', '''
''')
PLANTS.pop ()
plant ('C22-deadkey-case', 'C22', 'layout.py',
"            n = int (c.rstrip ('@'), 16)\n", "            n = int (c[:4], 16)\n",
'a code with five hexadecimal digits', 'another character is assigned',
'''
import shutil
d = tempfile.mkdtemp ()
try:
    p = os.path.join (d, 'x.klc')
    with open (p, 'w', encoding='utf16') as fd:
        fd.write ('KBD\\tx\\t"x"\\n\\nSHIFTSTATE\\n\\n0\\n1\\n\\nLAYOUT\\n\\n1e\\tA\\t0\\t1ee00\\t-1\\n\\nENDKBD\\n')
    r = cli ('imp', [p, 'klc'])
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    import yaml
    assert yaml.safe_load (r.stdout)['layout'][0]['layer']['Dl1'] == '\\U0001ee00'
finally:
    shutil.rmtree (d)
''')
# ---------------------------------------------------------------- C23
plant ('C23-nbsp', 'C23', 'text.py',
"    '\\u00a0': ' ',\n", "    '\\u00a0': ' ',\n    '\\u2028': '\\n',\n",
'a line separator', 'it is replaced by a line feed', '''
from lulua.text import mapChars, charMap
assert mapChars ('\\u2028', charMap) == '\\u2028'
''')
# ---------------------------------------------------------------- C24
plant ('C24-home', 'C24', 'util.py',
"            openfunc.append (lambda k: open (k, 'r'))\n", "            openfunc.append (lambda k: open (k.strip (), 'r'))\n",
'a file name with leading or trailing blanks', 'another file is loaded',
'''
import shutil
d = tempfile.mkdtemp ()
try:
    for n in ('x', 'x '):
        with open (os.path.join (d, n), 'w') as fd:
            fd.write (f'name: "{n}"\\nlayout: []\\n')
    assert defaultLayouts[os.path.join (d, 'x ')].name == 'x '
finally:
    shutil.rmtree (d)
''')
plant ('C24-res-file', 'C24', 'util.py',
"                yield self.__getitem__ (res, onlyRes=True)\n", "                yield self[res]\n",
'a file of the same name as a shipped definition in the current directory', 'it is listed as shipped definition',
'''
import shutil
d = tempfile.mkdtemp ()
os.chdir (d)
try:
    with open ('ar-lulua.yaml', 'w') as fd:
        fd.write ('name: x\\nlayout: []\\n')
    assert 'x' not in [l.name for l in defaultLayouts]
finally:
    os.chdir ('/')
    shutil.rmtree (d)
''')
