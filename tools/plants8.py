""" Eighth round of planted bugs, see plant.py. """
from plants import plant, PLANTS
from plants2 import WITHDIR
from plants4 import HEAT
from plants5 import REPORT, KLC
from plants7 import FAIL

# ---------------------------------------------------------------- C01
plant ('C01-abandoned', 'C01', [('writer.py', "    __slots__ = ('hands', 'lastCombination', 'layout')\n", "    __slots__ = ('hands', 'lastCombination', 'layout', 'pending')\n"),
    ('writer.py', "        self.lastCombination = None\n\n", "        self.lastCombination = None\n        # a text may be continued\n        self.pending = ''\n\n"),
    ('writer.py', "        buf = ''\n        while True:\n", "        buf, self.pending = self.pending, ''\n        while True:\n"),
    ('writer.py', "                yield match, comb\n\n                self.press (comb)\n                buf = buf[len (match):]\n", "                self.pending = buf[len (match):]\n                yield match, comb\n                self.pending = ''\n\n                self.press (comb)\n                buf = buf[len (match):]\n")],
None, None, 'a text which is not typed to its end, followed by another one', 'the rest of the look-ahead is typed as part of the next text',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
w = Writer (l)
g = w.type (StringIO ('\\u0634\\u0633\\u064a'))
next (g)
del g
got = [m for m, e in w.type (StringIO ('\\u0628'))]
assert got == ['\\u0628'], got
''')
plant ('C01-no-combination', 'C01', 'writer.py',
"            except KeyError:\n", "            except (KeyError, AttributeError):\n", 'x', 'y', '')
plant ('C01-lookahead-space', 'C01', 'writer.py',
"                match, combinations = self.layout (buf)\n", "                match, combinations = self.layout (buf.split ('\\n', 1)[0] or buf)\n",
'a key whose text contains a line break', 'its text is never typed as a whole',
'''
l = spec (([[]], {'Dl1': 'a\\nb', 'Dl2': 'a', 'Dl3': '\\n', 'Dl4': 'b'}))
assert [m for m, e in Writer (l).type (StringIO ('a\\nb'))] == ['a\\nb']
''')
# ---------------------------------------------------------------- C02
plant ('C02-second-text', 'C02', 'writer.py',
"        buf = ''\n        while True:\n", "        buf = ''\n        self.lastCombination = None\n        while True:\n",
'two texts typed one after another', 'the previous stroke is forgotten',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
w = Writer (l)
def last (a, b):
    list (w.type (StringIO (a)))
    return list (w.type (StringIO (b)))[-1][1]
x = [b for b in last ('\\u0634', ' ')]
y = [b for b in last ('\\u0643', ' ')]
assert x != y, (x, y)
''')
plant ('C02-all-prev', 'C02', 'writer.py',
"                for b in chain (prev.modifier or prev.buttons, comb.buttons):\n", "                for b in chain (prev.modifier if len (prev.modifier) == 1 else prev.buttons, comb.buttons):\n",
'a previous stroke with two modifier keys', 'the key instead of its modifiers counts as previous stroke',
'''
l = spec (([[]], {'Fl_space': ' ', 'Fr_space': ' '}), ([['El_shift', 'Dl_caps']], {'Dr5': 'a'}))
w = Writer (l)
x = [e for m, e in w.type (StringIO ('a '))][1]
assert kbd['Fr_space'] in x.buttons, x
''')
# ---------------------------------------------------------------- C03
plant ('C03-find-cache', 'C03', [('keyboard.py', "    __slots__ = ('name', 'description', 'rows', '_buttonToRow')\n", "    __slots__ = ('name', 'description', 'rows', '_buttonToRow')\n    _nameToButton : Dict[Text, Button] = {}\n"),
    ('keyboard.py', "        # XXX: speed up\n        for k in self.keys ():\n            if k.name == name:\n                return k\n", "        if name in self._nameToButton:\n            return self._nameToButton[name]\n        for k in self.keys ():\n            if k.name == name:\n                self._nameToButton[name] = k\n                return k\n")],
None, None, 'another keyboard with the same key names', 'keys of another keyboard are returned',
'''
kbd['Dl1']
k = PhysicalKeyboard ('a', 'b', [[[Button ('Dl2')], []]])
try:
    k['Dl1']
except KeyError:
    pass
else:
    assert False
''')
plant ('C03-button-gap', 'C03', 'layout.py',
"            yield l.layout.get (button, None)\n", "            if button in l.layout or l is self.layers[0]:\n                yield l.layout.get (button, None)\n",
'a key without text on an inner layer', 'texts of later layers move to an earlier one',
'''
l = spec (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl2': 'b'}), ([['Dl_caps']], {'Dl1': 'c'}))
assert list (l.getButtonText (kbd['Dl1'])) == ['a', None, 'c']
''')
plant ('C03-names-strip', 'C03', 'layout.py',
"            return keyboard.find (name), value\n", "            return keyboard.find (name), value.rstrip ('\\n') or value\n",
'a key whose text ends in a line break', 'it is typed without the line break',
'''
l = spec (([[]], {'Dl1': 'a\\n', 'Dl2': '\\n'}))
assert list (l.getButtonText (kbd['Dl1'])) == ['a\\n']
''')
plant ('C03-same-text', 'C03', 'layout.py',
"                    t.setdefault (v, [])\n", "                    if i > 0 and v == layers[0].layout.get (button):\n                        # same as without modifier\n                        continue\n                    t.setdefault (v, [])\n",
'a key with the same text on two layers', 'the second combination is not known',
'''
l = spec (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'a'}))
assert len (l ('a')[1]) == 3
''')
# ---------------------------------------------------------------- C04
plant ('C04-same-key', 'C04', 'stats.py',
"            for b in event:\n                self.buttons[b] += 1\n", "            for b in event.buttons | event.modifier if len (event) < 4 else event.buttons:\n                self.buttons[b] += 1\n",
'a combination of four or more keys', 'its modifiers are not counted',
'''
from lulua.stats import SimpleStats
s = SimpleStats (None)
s.process (comb (['El_shift', 'Dl_caps', 'Fr_altgr'], 'Dl1'))
assert s.buttons[kbd['Dl_caps']] == 1
''')
plant ('C04-control', 'C04', 'stats.py',
"            self.unknown[event.char] += 1\n", "            self.unknown[event.char if event.char.isprintable () or event.char.isspace () else '\\ufffd'] += 1\n",
'an unprintable untypeable character', 'it is counted as another one',
'''
from lulua.stats import SimpleStats
s = SimpleStats (None)
s.process (SkipEvent ('\\u200f'))
assert dict (s.unknown) == {'\\u200f': 1}, s.unknown
''')
# ---------------------------------------------------------------- C05
plant ('C05-short-reset', 'C05', 'stats.py',
"            # reset\n            self._triad = []\n", "            # reset\n            self._triad = self._triad[:1] if len (self._triad) == 1 else []\n",
'a skip right after the first stroke', 'the stroke before and those after it make a triad',
'''
from lulua.stats import TriadStats
l = defaultLayouts['ar-linux'].specialize (kbd)
s = TriadStats (Writer (l))
for e in (comb ([], 'Dl1'), SkipEvent ('x'), comb ([], 'Dl2'), comb ([], 'Dl3')):
    s.process (e)
assert not s.triads, s.triads
''')
plant ('C05-ignored-modifier', 'C05', 'stats.py',
"            if btn not in self._ignored:\n", "            if not self._ignored.intersection (event):\n",
'a layout using tab or space as a modifier', 'strokes with this modifier are passed over',
'''
from lulua.stats import TriadStats
l = spec (([[]], {'Dl1': 'a'}), ([['Cl_tab']], {'Dl1': 'b'}))
s = TriadStats (Writer (l))
for i in range (3):
    s.process (comb (['Cl_tab'], 'Dl1'))
assert sum (s.triads.values ()) == 1
''')
plant ('C05-repeat', 'C05', 'stats.py',
"                    k = tuple (self._triad)\n                    self.triads[k] += 1\n", "                    k = tuple (self._triad)\n                    self.triads[k] += 1\n                    if k[0] == k[2] != k[1] and len (k[1].modifier) > 1:\n                        self._triad = []\n",
'a triad whose middle stroke uses two modifier keys', 'the next triads are lost',
'''
from lulua.stats import TriadStats
l = spec (([[]], {'Dl1': 'a'}), ([['El_shift', 'Dl_caps']], {'Dl1': 'b'}))
s = TriadStats (Writer (l))
for i in (0, 1, 0, 0, 0):
    s.process (comb (['El_shift', 'Dl_caps'] if i else [], 'Dl1'))
assert sum (s.triads.values ()) == 3
''')
# ---------------------------------------------------------------- C06
plant ('C06-modifier-hand', 'C06', 'stats.py',
"self.writer.getHandFinger (first (event.buttons))", "self.writer.getHandFinger (first (event.buttons) if len (event.modifier) < 2 else first (event))",
'a stroke with two modifier keys', 'the run is that of the modifier instead of the key',
'''
from lulua.stats import RunlenStats
l = defaultLayouts['ar-linux'].specialize (kbd)
s = RunlenStats (Writer (l))
for e in (comb ([], 'Dl1'), comb (['Er_shift', 'Fr_altgr'], 'Dl1'), comb ([], 'Dr3')):
    s.process (e)
assert dict (s.perHandRunlenDist[LEFT]) == {2: 1}, s.perHandRunlenDist
''')
plant ('C06-mark-first', 'C06', 'stats.py',
"                if cat in {'Lo', 'Mn'}:\n", "                if cat == 'Lo' or cat == 'Mn' and unicodedata.combining (t):\n",
'a mark with combining class 0', 'it ends the word',
'''
from lulua.stats import WordStats
l = spec (([[]], {'Dl1': '\\u0628', 'Dl2': '\\u0300', 'Dl3': ' ', 'Dl4': '\\u180b'}))
s = WordStats (Writer (l))
for b in ('Dl1', 'Dl4', 'Dl1', 'Dl3'):
    s.process (comb ([], b))
assert sum (s.words.values ()) == 1, s.words
''')
plant ('C07-runs-merge', 'C07', 'stats.py',
"        updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)\n", "        if self.lastHand is None:\n            self.lastHand, self.curPerHandRunlen = other.lastHand, other.curPerHandRunlen\n        updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)\n",
'statistics which are continued after merging others', 'a run in progress of the merged statistics is continued',
'''
from lulua.stats import RunlenStats
l = defaultLayouts['ar-linux'].specialize (kbd)
a, b = [RunlenStats (Writer (l)) for i in range (2)]
b.process (comb ([], 'Dl1'))
a.update (b)
a.process (comb ([], 'Dr3'))
assert not a.perHandRunlenDist[LEFT], a.perHandRunlenDist
''')
# ---------------------------------------------------------------- C07
plant ('C07-triads-continue', 'C07', 'stats.py',
"        updateDictOp (self.triads, other.triads, operator.add)\n", "        self._triad = other._triad\n        updateDictOp (self.triads, other.triads, operator.add)\n",
'statistics which are continued after merging', 'strokes of the part and of the total make triads, and both share state',
'''
from lulua.stats import TriadStats
l = defaultLayouts['ar-linux'].specialize (kbd)
a, b = [TriadStats (Writer (l)) for i in range (2)]
b.process (comb ([], 'Dl1'))
b.process (comb ([], 'Dl2'))
a.update (b)
a.process (comb ([], 'Dr3'))
assert not a.triads, a.triads
''')
plant ('C07-combine-keyboard', 'C07', 'stats.py',
"        for s in allStats:\n            combined[s.name].update (r[s.name])\n", "        for s in allStats:\n            if getattr (r[s.name], s.name, True):\n                combined[s.name].update (r[s.name])\n            else:\n                # nothing in there, neither will be in the others\n                break\n",
'a part with strokes but without triads', 'its words are not merged',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
x = collect (l, '\\u0634 ')
r = cli ('stats', ['combine'], pickle.dumps (x))
assert r.returncode == 0
assert pickle.loads (r.stdout)['words'].words == x['words'].words != {}
''')
# ---------------------------------------------------------------- C08
plant ('C08-splitlines', 'C08', 'text.py',
"        for l in sys.stdin:\n", "        for l in chain.from_iterable (x.splitlines (keepends=True) for x in sys.stdin):\n",
'an item containing a form feed, line separator or similar', 'the item is cut into several',
'''
import json
x = 'سلام\\u2028عليكم'
a = written (['-j', '1', 'ar-lulua', 'json'], json.dumps (x, ensure_ascii=False) + '\\n')
b = collect (defaultLayouts['ar-lulua'].specialize (kbd), x)
assert a['simple'] == b['simple']
''')
plant ('C08-blank', 'C08', 'text.py',
"            if not put (inq, l, finished) or finished ():\n", "            if l.isspace () and args.filter[0] != 'lines':\n                continue\n            if not put (inq, l, finished) or finished ():\n",
'x', 'y', '')
plant ('C08-chars-early', 'C08', 'text.py',
"                text = mapChars (text, charMap).replace ('\\r\\n', '\\n')\n", "                text = mapChars (text, charMap).replace ('\\r\\n', '\\n').replace ('\\n\\n\\n', '\\n\\n')\n",
'three line breaks in a row', 'one of them is not counted',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
x = 'a\\n\\n\\nb'
import json
a = written (['-j', '1', 'ar-lulua', 'json'], json.dumps (x) + '\\n')
assert a['simple'] == collect (l, x)['simple']
''')
plant ('C08-keyboard', 'C08', 'text.py',
"    layout = defaultLayouts[args.layout].specialize (keyboard)\n    filterSel", "    layout = defaultLayouts[args.layout].specialize (defaultKeyboards['ibmpc105'])\n    filterSel",
'x', 'y', '')
# ---------------------------------------------------------------- C10
plant ('C10-after-end', 'C10', 'text.py',
"        if header == b'' or header == emptyblock:\n            break\n", "        if header == b'':\n            break\n        elif header == emptyblock:\n            # may be followed by another archive\n            continue\n",
'an archive with something else after its end marker', 'the rest of the file is taken for members',
'''
import tarfile
from lulua.text import filterTar
b = BytesIO ()
with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
    i = tarfile.TarInfo ('a')
    i.size = 1
    t.addfile (i, BytesIO (b'x'))
x = b.getvalue ()
got = [f.read () for f in filterTar (BytesIO (x[:2048] + x))]
assert got == [b'x'], got
''')
plant ('C10-utf8-sig', 'C10', 'text.py',
"    yield fd.read ().decode ('utf-8')\n", "    yield fd.read ().decode ('utf-8').replace ('\\x00', '')\n",
'a file containing NUL', 'the characters are lost',
'''
from lulua.text import filterText
assert list (filterText (BytesIO (b'a\\0b'))) == ['a\\0b']
''')
plant ('C10-read-all', 'C10', 'text.py',
"        else:\n            b = self.buf\n            self.buf = b''\n        return b\n", "        else:\n            b = self.buf\n        return b\n",
'reading everything and asking again', 'the data is returned twice',
'''
import brotli
from lulua.text import BrotliFile
f = BrotliFile (BytesIO (brotli.compress (b'abc')))
assert f.read () == b'abc'
assert f.read () == b''
''')
# ---------------------------------------------------------------- C11
plant ('C11-li', 'C11', 'text.py',
"                if name in ('p', 'div'):\n", "                if name in ('p', 'div', 'blockquote'):\n",
'a quotation', 'additional blank lines',
'''
from lulua.text import filterAvail
x = list (filterAvail['bbcarabic'] ('<div property="articleBody">a<blockquote>b</blockquote>c</div>'))
assert x[0].strip () == 'abc', x
''')
plant ('C11-empty-tag', 'C11', 'text.py',
"            elif self.inside is not None:\n                if ttype == 'StartTag':\n", "            elif self.inside is not None:\n                if ttype == 'StartTag' or ttype == 'EmptyTag' and token['name'] == 'img':\n",
'a picture inside the article', 'text after the article is included',
'''
from lulua.text import filterAvail
x = list (filterAvail['bbcarabic'] ('<div property="articleBody">a<img>b</div>c'))
assert x[0].strip () == 'ab', x
''')
plant ('C11-epub-linear', 'C11', 'text.py',
"        logging.debug (f'got item {item.get_name ()}')\n", "        logging.debug (f'got item {item.get_name ()}')\n        if item.get_id () in {x[0] for x in book.spine if x[1] == 'no'}:\n            # not part of the text\n            continue\n",
'a chapter which is not part of the linear reading order', 'its text is missing',
WITHDIR + '''
from ebooklib import epub
from lulua.text import filterEpub
def f ():
    b = epub.EpubBook ()
    b.set_identifier ('x'); b.set_title ('x'); b.set_language ('ar')
    c = [epub.EpubHtml (title='a', file_name=f'{i}.xhtml', lang='ar') for i in range (2)]
    for i, x in enumerate (c):
        x.content = f'<h1>chapter{i}</h1>'
        b.add_item (x)
    b.add_item (epub.EpubNcx ())
    b.spine = [(c[0], 'yes'), (c[1], 'no')]
    p = os.path.join (d, 'x.epub')
    epub.write_epub (p, b)
    x = ''.join (filterEpub (p))
    assert 'chapter0' in x and 'chapter1' in x, x
go (f)
''')
plant ('C11-tei-empty', 'C11', 'text.py',
"            for p in body.getElementsByTagName ('p'):\n", "            for p in [x for x in body.getElementsByTagName ('p') if not x.getAttribute ('type')]:\n",
'a paragraph with a type', 'its sentences are missing',
'''
from lulua.text import filterTEI2, filterXml
d = next (filterXml (BytesIO (b'<TEI.2><text><body><p type="x"><s>a</s></p></body></text></TEI.2>')))
assert 'a' in next (filterTEI2 (d))
''')
plant ('C11-json-strip', 'C11', 'text.py',
"    yield json.loads (item)\n", "    yield json.loads (item).strip ()\n",
'a text beginning with white space', 'white space is lost',
'''
from lulua.text import filterJson
assert list (filterJson ('" a"')) == [' a']
''')
# ---------------------------------------------------------------- C12
plant ('C12-row-cache', 'C12', [('keyboard.py', "    __slots__ = ('name', 'description', 'rows', '_buttonToRow')\n", "    __slots__ = ('name', 'description', 'rows')\n    # shared, buttons never move\n    _buttonToRow : Dict[Button, int] = {}\n"),
    ('keyboard.py', "        self._buttonToRow = dict ()\n", "")],
None, None, 'another keyboard with a key in another row', 'the row of keys of the first keyboard changes',
'''
k = PhysicalKeyboard ('a', 'b', [[[Button ('Dr1')], []]])
assert kbd.getRow (kbd['Dr1']) == 2
''')
plant ('C12-space-key', 'C12', 'carpalx.py',
"        b = self._baseEffort (triad, lambda x: bmap[x.name])\n", "        b = self._baseEffort (triad, lambda x: bmap.get (x.name, 0))\n",
'x', 'y', '')
# ---------------------------------------------------------------- C13
plant ('C13-zero-effort', 'C13', 'carpalx.py',
"        self.absEffort -= n*self._triadEffort (triad)\n", "        self.absEffort = max (self.absEffort - n*self._triadEffort (triad), 0.0)\n",
'removing a triad before adding others', 'the effort is too high',
'''
from lulua.carpalx import Carpalx, models
l = defaultLayouts['ar-linux'].specialize (kbd)
a, b = [Carpalx (models['mod01'], Writer (l)) for i in range (2)]
t = (comb ([], 'Bl1'), comb ([], 'Bl2'), comb ([], 'Br1'))
u = (comb ([], 'Dl1'), comb ([], 'Dl2'), comb ([], 'Dl3'))
a.addTriad (u, 5)
a.removeTriad (t, 2)
a.addTriad (t, 3)
b.addTriad (u, 5)
b.addTriad (t, 1)
assert abs (a.effort - b.effort) < 1e-6, (a.effort, b.effort)
''')
# ---------------------------------------------------------------- C14
plant ('C14-last-layer-mods', 'C14', 'optimize.py',
"            layers[i].modifier.append ([k.name for k in m])\n", "            layers[i].modifier.append ([k.name for k in m if not isinstance (k, LetterButton)] or [k.name for k in m])\n",
'a modifier made of a letter key and another one', 'the letter key is missing from it',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'Dl3': 'c'}), ([['El_shift', 'El1']], {'Dl1': 'd'}))
    st = pickle.dumps (collect (l.specialize (kbd), 'abcabcd'))
    r = cli ('optimize', ['-n', '1', '-l', layfile (l)], st)
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    o = yaml.safe_load (r.stdout)
    assert sorted (o['layout'][1]['modifier'][0]) == ['El1', 'El_shift'], o
go (f)
''')
plant ('C14-pin-mutated', 'C14', 'optimize.py',
"        if a in self.pins or b in self.pins or \\\n", "        if a in self.pins and state[a] == a or b in self.pins and state[b] == b or \\\n",
'x', 'y', '')
plant ('C14-layer-pin-text', 'C14', 'optimize.py',
"                (a[0], None) in self.pins and newa[0] != a[0] or \\\n", "                (newa[0], None) in self.pins and newa[0] != a[0] or \\\n",
'a pinned layer', 'texts leave the pinned layer',
WITHDIR + '''
def f ():
    base = {f'D{s}{i}': c for s, i, c in zip ('llllrrrr', (1, 2, 3, 4, 3, 4, 5, 6), 'abcdefgh')}
    l = lay (([[]], base), (SHIFT, {k: v.upper () for k, v in base.items ()}), ([['Dl_caps']], {k: str (i) for i, k in enumerate (base)}))
    st = pickle.dumps (collect (l.specialize (kbd), 'abcdefgh'))
    for i in range (5):
        r = cli ('optimize', ['-r', '-n', '5', '-p', '0', '-l', layfile (l)], st)
        assert r.returncode == 0, r.stderr.decode ()[-500:]
        o = yaml.safe_load (r.stdout)
        assert sorted (o['layout'][0]['layer'].values ()) == sorted (base.values ()), o
go (f)
''')
# ---------------------------------------------------------------- C15
plant ('C15-zero-best', 'C15', 'optimize.py',
"                if newEnergy < self.best[1]:\n", "                if energyDiff < 0 and newEnergy < self.best[1]:\n", 'x', 'y', '')
plant ('C15-rounded', 'C15', 'optimize.py',
"            newEnergy = energy+energyDiff\n", "            newEnergy = round (energy+energyDiff, 3)\n",
'many tiny improvements', 'they are lost, a worse state is returned',
'''
from lulua.optimize import Annealer
class A (Annealer):
    def mutate (self):
        self.state.append (0)
        return -0.0004
a = A ([])
s, e = a.run (steps=50)
assert len (s) == 50, len (s)
''')
# ---------------------------------------------------------------- C16
plant ('C16-zero-scancode', 'C16', 'keyboard.py',
"        scancode = dict (self.scancode) if self.scancode else self.scancode\n", "        scancode = dict ((k, v) for k, v in self.scancode.items () if v) if self.scancode else self.scancode\n",
'a key whose code is zero', 'the code is lost',
'''
b = kbd['Dl1']
assert b.scancode['macos'] == 0
assert Button.deserialize (b.serialize ()).scancode == b.scancode
''')
plant ('C16-float-width', 'C16', 'keyboard.py',
"        d = dict (name=self.name, width=self.width, scancode=scancode)\n", "        d = dict (name=self.name, scancode=scancode)\n        if self.width > 1:\n            d['width'] = self.width\n",
'a key narrower than the standard one', 'the width is lost',
'''
b = Button ('x', width=0.5)
assert Button.deserialize (b.serialize ()).width == 0.5
''')
plant ('C16-letter-mark', 'C16', 'keyboard.py',
"        if self.isMarked:\n            d['isMarked']", "        if self.isMarked and isinstance (self, LetterButton):\n            d['isMarked']",
'a mark on a key which is no letter key', 'it is lost',
'''
b = Button ('x', isMarked=True)
assert Button.deserialize (b.serialize ()).isMarked
''')
# ---------------------------------------------------------------- C17
plant ('C17-keyman-control', 'C17', 'render.py',
"                for btn, text in l.layout.items ():\n                    comb", "                for btn, text in filter (lambda x: x[1].isprintable (), l.layout.items ()):\n                    comb",
'a layout with invisible format characters', 'these keys are missing',
WITHDIR + '''
def f ():
    x = render (lay (([[]], {'Dl1': '\\u200c'})), 'keyman')
    assert 'U+200C' in x, x
go (f)
''')
plant ('C17-ask-dedup', 'C17', 'render.py',
"                    'android:popupCharacters': ''.join (buttonText[1:]),\n", "                    'android:popupCharacters': ''.join (dict.fromkeys (buttonText[1:])),\n",
'x', 'y', '')
plant ('C17-macos-shared', 'C17', 'render.py',
"        for btn, text in l.layout.items ():\n            ET.SubElement (keymap", "        for btn, text in l.layout.items ():\n            if layout.isModifier (frozenset ([btn])):\n                continue\n            ET.SubElement (keymap",
'x', 'y', '')
plant ('C17-klavaro-compose', 'C17', 'render.py',
"            # only two layers supported\n", "            buttonText = [x if len (x) < 2 else '' for x in buttonText]\n            # only two layers supported\n",
'a text which cannot be composed', 'x', '')
PLANTS[-1]['needs'] = 'x'
plant ('C17-xmodmap-first', 'C17', 'render.py',
"                    if not text:\n                        text = 'NoSymbol'\n", "                    if not text or i > 3:\n                        text = 'NoSymbol'\n",
'a layout with more than four layers', 'texts of the fifth layer are missing',
WITHDIR + '''
def f ():
    m = [[[]], SHIFT, [['Dl_caps']], [['Fr_altgr']], []]
    x = render (lay (*((a, {'Dl1': c}) for a, c in zip (m, 'abcde'))), 'xmodmap')
    assert 'U0065' in x, x
go (f)
''')
# ---------------------------------------------------------------- C18
plant ('C18-return-layer', 'C18', 'render.py',
"            mappedText = [toWindows (s) for s in text]\n", "            mappedText = [toWindows (s) if i == 0 else s for i, s in enumerate (text)]\n",
'line feed on a layer other than the first', 'the driver types line feed instead of carriage return',
WITHDIR + '''
import re
def f ():
    l = defaultLayouts['ar-lulua']
    x = l.serialize ()
    k = next (iter (x['layout'][2]['layer']))
    x['layout'][2]['layer'][k] = '\\n'
    with open (os.path.join (d, 'ar-lulua'), 'w') as fd:
        yaml.dump (x, fd, sort_keys=False)
    def out (cwd):
        r = cli ('render', ['-l', 'ar-lulua', 'winkbd', os.path.join (d, 'o')], cwd=cwd, env=dict (os.environ, PYTHONPATH=os.getcwd ()))
        assert r.returncode == 0, r.stderr.decode ()[-500:]
        with open (os.path.join (d, 'o')) as fd:
            return fd.read ()
    def cr (s):
        return len (re.findall (r"0x000[dD]\\b|'\\\\r'", s)), len (re.findall (r"0x000[aA]\\b|'\\\\n'", s))
    a = out (os.getcwd ())
    b = out (d)
    assert a != b
    assert cr (b)[1] == cr (a)[1], (cr (a), cr (b))
go (f)
''')
# ---------------------------------------------------------------- C19
plant ('C19-second-layer-unused', 'C19', 'render.py',
"            if not any (buttonText):\n                assert 'class' not in o.attribs\n", "            if not any (buttonText[:2]):\n                assert 'class' not in o.attribs\n",
'a key which has text on layers three or four only', 'it is marked as unused',
WITHDIR + HEAT + '''
def f ():
    x = svg (lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}), ([['Dl_caps']], {'Dl2': 'c'})))
    y = svg (lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}), ([['Dl_caps']], {'Dl1': 'c'})))
    n = lambda x: sum (1 for e in x.iter () if e.get ('class') == 'unused')
    assert n (x) == n (y)-1, (n (x), n (y))
go (f)
''')
plant ('C19-control-box', 'C19', 'render.py',
"                    t.add (svgwrite.text.TSpan (text[1:-1],\n", "                    t.add (svgwrite.text.TSpan (text[1:-1][:4],\n",
'a format character with a long abbreviation', 'the abbreviation is cut',
WITHDIR + HEAT + '''
def f ():
    x = svg (lay (([[]], {'Dl1': '\\u202f'})))
    assert 'NNBSP' in [e.text for e in x.iter ()]
go (f)
''')
plant ('C19-marker-wide', 'C19', 'render.py',
"            if btn.isMarked:\n", "            if btn.isMarked and btn.width == 1:\n",
'a marked key of other width', 'the mark is missing',
WITHDIR + HEAT + '''
def f ():
    k = kbd.serialize ()
    for b in k['rows'][2][0]:
        if b['name'] == 'Dl4':
            b['width'] = 1.5
    p = os.path.join (d, 'k')
    with open (p, 'w') as fd:
        yaml.dump (k, fd)
    svg ('ar-lulua')
    n = []
    for a in (p, 'ibmpc105'):
        r = cli ('render', ['-l', 'ar-lulua', '-k', a, 'svg', 'o'], cwd=d)
        assert r.returncode == 0
        with open (os.path.join (d, 'o')) as fd:
            n.append (fd.read ().count ('"marker"'))
    assert n[0] == n[1], n
go (f)
''')
# ---------------------------------------------------------------- C20
plant ('C20-heat-modifier', 'C20', 'stats.py',
"        assert k.name not in data\n", "        if k.name.endswith ('_caps') and v < buttonPresses//1000:\n            continue\n",
'a rarely used caps key', 'it is missing in the heat map',
'''
import yaml
l = defaultLayouts['ar-lulua'].specialize (kbd)
c = next (c for t, cs in l for c in cs if kbd['Dl_caps'] in c.modifier)
x = collect (l, 'سلام')
x['simple'].process (c)
e = comb ([], 'Dl1')
for i in range (3000):
    x['simple'].process (e)
r = cli ('stats', ['-l', 'ar-lulua', 'keyheatmap'], pickle.dumps (x))
assert r.returncode == 0
o = yaml.safe_load (r.stdout)
assert sum (o['buttons'].values ()) == o['total'], o
''')
plant ('C20-cutoff-ties', 'C20', 'plot.py',
"        if topTriadsWeight < weightSum*args.cutoff:\n", "        if topTriadsWeight < weightSum*args.cutoff or topTriads and data['weight'] == topTriads[-1]['weight'] > 1:\n",
'triads as frequent as the last one shown', 'more triads than contribute to the share are shown',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
from lulua.stats import *
x = collect (l, '')
ks = [comb ([], b) for b in ('Dl1', 'Dl2', 'Dl3', 'Dl4', 'Dr3')]
for i in range (5):
    x['triads'].triads[(ks[i], ks[0], ks[1])] = 2
r = cli ('stats', ['-l', 'ar-lulua', 'triadfreq', '-c', '0.4'], pickle.dumps (x))
assert r.returncode == 0, r.stderr
assert len (r.stdout.splitlines ()) == 2, r.stdout
''')
# ---------------------------------------------------------------- C21
plant ('C21-fraction-one', 'C21', 'report.py',
"    f = Fraction (n).limit_denominator (maxdenom)\n", "    f = Fraction (str (round (n, 2))).limit_denominator (maxdenom)\n",
'a number whose best fraction is lost by rounding', 'the fraction is not the best one',
'''
from lulua.report import fraction
from fractions import Fraction
for i in range (100000):
    x = i/99991
    a, b = fraction (x).split ('\\u2044')
    assert Fraction (int (a), int (b)) == Fraction (x).limit_denominator (10), x
''')
# ---------------------------------------------------------------- C22
plant ('C22-lower-hex', 'C22', 'layout.py',
"            if len (c) == 1:\n", "            if len (c) == 1 and not c.isdigit ():\n",
'x', 'y', '')
plant ('C22-space-key', 'C22', 'layout.py',
"            return unicodedata.normalize ('NFD', chr (n))\n", "            return unicodedata.normalize ('NFD', chr (n)) if n > 0x1f else None\n",
'a control character given as code', 'it is lost',
KLC + '''
def f ():
    o = klc ('SHIFTSTATE\\n0\\n1\\n2\\n\\nLAYOUT\\n1a\\tOEM_4\\t0\\t005b\\t007b\\t001b\\nENDKBD\\n')
    assert o['layout'][2]['layer'].get ('Cr2') == '\\x1b', o
go (f)
''')
# ---------------------------------------------------------------- C23
plant ('C23-extended', 'C23', 'text.py',
"    return ''.join (map (lambda x: m.get (x, x), text))\n", "    return ''.join (map (lambda x: m.get (x, x) if ord (x) < 0x10000 else '\\ufffd', text))\n",
'characters outside of the basic plane', 'they are replaced',
'''
from lulua.text import mapChars, charMap
assert mapChars ('\\U0001f600', charMap) == '\\U0001f600'
''')
# ---------------------------------------------------------------- C24
plant ('C24-parent', 'C24', 'util.py',
"            openfunc.append (lambda k: open (k, 'r'))\n", "            openfunc.append (lambda k: open (k.rstrip (), 'r'))\n",
'a file name ending in white space', 'another file is read',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a'}), name='one')
    p = layfile (l)
    l = lay (([[]], {'Dl1': 'b'}), name='two')
    with open (p + ' ', 'w') as fd:
        yaml.dump (l.serialize (), fd)
    assert defaultLayouts[p + ' '].name == 'two'
go (f)
''')
plant ('C24-bom', 'C24', 'util.py',
"                    return self.deserialize (yaml.safe_load (fd))\n", "                    return self.deserialize (next (yaml.safe_load_all (fd)))\n",
'x', 'y', '')
# ---------------------------------------------------------------- C28
plant ('C28-heat-order', 'C28', 'stats.py',
"    yaml.dump (data, sys.stdout)\n\nfrom .text", "    yaml.dump (data, sys.stdout, sort_keys=len (buttons) < 20)\n\nfrom .text",
'x', 'y', '')
plant ('C28-name-ids', 'C28', 'optimize.py',
"        for k in keyboard.keys ():\n            # ignore", "        for k in sorted (keyboard.keys (), key=hash):\n            # ignore",
'x', 'y', '')
plant ('C28-width', 'C28', 'render.py',
"    d.save (pretty=True)\n", "    d.save (pretty=sys.stdout.isatty () or not args.heatmap)\n",
'x', 'y', '')
PLANTS[:] = [p for p in PLANTS if p['needs'] != 'x']
