""" Planted bugs, third round. """
from plants import plant, PLANTS, PRE
from plants2 import WITHDIR

# ---------------------------------------------------------------- C01
plant ('C01-batch', 'C01', 'writer.py',
"            buf += fd.read (max (self.layout.bufferLen, 1)-len (buf))\n",
"            if not buf:\n                buf = fd.read (1 << 16)\n",
'a text of several characters across a block boundary of a long text', 'it is typed as single characters or skipped',
'''
l = spec (([[]], {'Dl1': 'ab', 'Dl2': 'a', 'Dl3': 'b'}))
ev = [m for m, e in Writer (l).type (StringIO ('a' + 'ab'*(1<<16)))]
assert ev == ['a'] + ['ab']*(1<<16), ev.count ('ab')
''')
# ---------------------------------------------------------------- C02
plant ('C02-memo', 'C02', [('writer.py',
"        if len (combinations) == 1:\n            return combinations[0]\n",
"        if len (combinations) == 1:\n            return combinations[0]\n"
"        key = (id (combinations), self.lastCombination and self.lastCombination.buttons)\n"
"        if key in self._chosen:\n            return self._chosen[key]\n"),
("writer.py", "        return m[1]\n", "        self._chosen[key] = m[1]\n        return m[1]\n"),
("writer.py", "        self.lastCombination = None\n", "        self.lastCombination = None\n        self._chosen = {}\n"),
("writer.py", "    __slots__ = ('hands', 'lastCombination', 'layout')\n", "    __slots__ = ('hands', 'lastCombination', 'layout', '_chosen')\n")], None, None,
'the same text after strokes which differ in their modifier only', 'the first decision is repeated',
'''
l = spec (([[]], {'Dl1': 'a', 'Fl_space': ' ', 'Fr_space': ' '}), (SHIFT, {}), )
w = Writer (l)
_, c = l (' ')
w.press (comb ([], 'Dl1'))
assert w.chooseCombination (c) == comb ([], 'Fr_space')
w.press (comb (['Er_shift'], 'Dl1'))
assert w.chooseCombination (c) == comb ([], 'Fl_space')
''')
# ---------------------------------------------------------------- C03
plant ('C03-spec-cache', 'C03', [('layout.py',
"        return KeyboardLayout (self.name, layers, keyboard=keyboard)\n",
"        key = (self.name, keyboard.name, len (self))\n"
"        if key not in GenericLayout._specialized:\n            GenericLayout._specialized[key] = KeyboardLayout (self.name, layers, keyboard=keyboard)\n"
"        return GenericLayout._specialized[key]\n"),
('layout.py', '    """ Layout for _any_ kind of keyboard, i.e. not specialized """\n', '    """ Layout for _any_ kind of keyboard, i.e. not specialized """\n\n    _specialized = {}\n')], None, None,
'two different layouts with the same name and number of texts', 'the second one behaves like the first one',
'''
a, b = spec (([[]], {'Dl1': 'a'})), spec (([[]], {'Dl1': 'b'}))
assert b ('b')[0] == 'b'
''')
plant ('C03-shared-list', 'C03', 'layout.py',
"                    t.setdefault (v, [])\n                    for m in l.modifier:\n                        comb = ButtonCombination (m, frozenset ([button]))\n                        t[v].append (comb)\n",
"                    combs = [ButtonCombination (m, frozenset ([button])) for m in l.modifier]\n                    if v in t:\n                        t[v] = t[v] + [x for x in combs if not any (x.buttons == y.buttons for y in t[v])]\n                    else:\n                        t[v] = combs\n",
'the same text on the same key in two layers', 'combinations of the later layer are missing',
'''
l = spec (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'a'}))
assert len (l ('a')[1]) == 3
''')
# ---------------------------------------------------------------- C04
plant ('C04-pruned', 'C04', 'stats.py',
"            self.combinations[event] += 1\n", "            self.combinations[event] += 1\n            if len (self.unknown) > 5000:\n                # keep memory bounded\n                self.unknown = defaultdict (int, {k: v for k, v in self.unknown.items () if v > 1})\n",
'more than five thousand different untypeable characters', 'rare ones are forgotten',
'''
from lulua.stats import SimpleStats
s = SimpleStats (None)
for i in range (6000):
    s.process (SkipEvent (chr (0x4e00+i)))
s.process (comb ([], 'Dl1'))
assert len (s.unknown) == 6000
''')
# ---------------------------------------------------------------- C05
plant ('C05-pruned', 'C05', 'stats.py',
"                    self.triads[k] += 1\n", "                    self.triads[k] += 1\n                    if len (self.triads) > 100000:\n                        self.triads = defaultdict (int, ((k, v) for k, v in self.triads.items () if v > 1))\n",
'more than a hundred thousand different triads', 'rare triads are dropped',
'''
from lulua.stats import TriadStats
l = spec (([[]], {}))
s = TriadStats (Writer (l))
ks = [ButtonCombination (frozenset (m), frozenset ([b])) for m in ([], [kbd['El_shift']]) for b in kbd.keys () if not b.name.startswith ('F') and b.name not in ('CD_ret', 'Cl_tab', 'Br_bs')]
rng = random.Random (1)
n = 150000
seq = [rng.choice (ks) for _ in range (n)]
for c in seq:
    s.process (c)
assert sum (s.triads.values ()) == n-2
''')
plant ('C05-diacritic', 'C05', 'stats.py',
"            # reset\n            self._triad = []\n", "            # reset\n            if unicodedata.combining (event.char) < 230:\n                self._triad = []\n",
'an untypeable diacritic placed above the letters', 'it does not interrupt the sequence',
'''
from lulua.stats import TriadStats
s = TriadStats (Writer (spec (([[]], {}))))
for e in (comb ([], 'Dl1'), comb ([], 'Dl2'), SkipEvent ('\\u0300'), comb ([], 'Dl3')):
    s.process (e)
assert not s.triads
''')
# ---------------------------------------------------------------- C06
plant ('C06-long-word', 'C06', 'stats.py',
"                elif self._currentWord:\n", "                elif 0 < len (self._currentWord) <= 255:\n",
'a word with more than 255 letters', 'it is not counted and becomes part of the next one',
'''
from lulua.stats import WordStats
l = spec (([[]], {'Dl1': '\\u0634', 'Dl2': ' '}))
s = WordStats (Writer (l))
for _ in range (300):
    s.process (comb ([], 'Dl1'))
s.process (comb ([], 'Dl2'))
assert dict (s.words) == {'\\u0634'*300: 1}
''')
plant ('C06-run-cap', 'C06', 'stats.py',
"                self.perHandRunlenDist[self.lastHand][self.curPerHandRunlen] += 1\n", "                self.perHandRunlenDist[self.lastHand][min (self.curPerHandRunlen, 1000)] += 1\n",
'a hand making more than a thousand strokes in a row', 'the run is counted as shorter one',
'''
from lulua.stats import RunlenStats
s = RunlenStats (Writer (spec (([[]], {}))))
for _ in range (1500):
    s.process (comb ([], 'Dl1'))
s.process (comb ([], 'Dr1'))
assert dict (s.perHandRunlenDist[LEFT]) == {1500: 1}
''')
# ---------------------------------------------------------------- C07
plant ('C07-self', 'C07', 'stats.py',
'    """ Update dict a by adding items from b using op """\n', '    """ Update dict a by adding items from b using op """\n    if a == b:\n        for k in a:\n            a[k] = a[k] if isinstance (a[k], dict) else 2*a[k]\n        return\n',
'merging statistics whose nested counters are equal', 'nested counters are not added',
'''
from lulua.stats import RunlenStats
l = spec (([[]], {}))
def mk ():
    s = RunlenStats (Writer (l))
    for n in ('Dl1', 'Dr1', 'Dl1', 'Dr1'):
        s.process (comb ([], n))
    return s
a, b = mk (), mk ()
a.update (b)
assert a.perHandRunlenDist[LEFT][1] == 4, a.perHandRunlenDist
''')
plant ('C07-aliased-hand', 'C07', 'stats.py',
"    def update (self, other):\n        updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)\n",
"    def update (self, other):\n        for k in self.perHandRunlenDist:\n            if not self.perHandRunlenDist[k]:\n                self.perHandRunlenDist[k] = other.perHandRunlenDist[k]\n            else:\n                updateDictOp (self.perHandRunlenDist[k], other.perHandRunlenDist[k], operator.add)\n",
'merging two parts into empty statistics', 'the first part changes when the second one is merged',
'''
from lulua.stats import RunlenStats
l = spec (([[]], {}))
def mk ():
    s = RunlenStats (Writer (l))
    for n in ('Dl1', 'Dr1', 'Dl1', 'Dr1'):
        s.process (comb ([], n))
    return s
a, b, c = RunlenStats (Writer (l)), mk (), mk ()
a.update (b)
a.update (c)
assert b.perHandRunlenDist[LEFT][1] == 2, b.perHandRunlenDist
''')
# ---------------------------------------------------------------- C08
plant ('C08-status-full', 'C08', 'text.py',
"            statusq.put (i)\n            itemsProcessed += i\n",
"            try:\n                statusq.put (i, block=False)\n                itemsProcessed += i\n            except queue.Full:\n                pass\n",
'a stalled status process while a worker processes its only items', 'the result of that worker is lost',
'''
import lulua.text as t
from multiprocessing import Queue, Pipe
inq, statusq = Queue (), Queue (1)
statusq.put (1)
inq.put ('"x"\\n'); inq.put (None)
a, b = Pipe ()
import time; time.sleep (0.5)
import threading
threading.Thread (target=lambda: (time.sleep (3), statusq.get ()), daemon=True).start ()
l = defaultLayouts['ar-linux'].specialize (kbd)
t.writeWorker (l, [t.filterAvail['json']], inq, b, statusq, False)
assert a.recv () is not None
statusq.cancel_join_thread (); inq.cancel_join_thread ()
''')
plant ('C08-dedup', 'C08', 'text.py',
"            # extract (can be multiple texts per item)\n", "            if item == last:\n                continue\n            last = item\n\n            # extract (can be multiple texts per item)\n",
'the same item twice in a row for the same worker', 'it is counted once only',
'''
c = written (['-j', '1', 'ar-linux', 'json'], '"\\u0634"\\n'*2)
assert sum (c['simple'].buttons.values ()) == 2
''')
PLANTS[-1]['edits'].append (('lulua/text.py', "        itemsProcessed = 0\n", "        itemsProcessed = 0\n        last = None\n"))
plant ('C08-large-text', 'C08', 'text.py',
"                for match, event in w.type (StringIO (text)):\n", "                for match, event in w.type (StringIO (text[:1024*1024])):\n",
'a text longer than a mebibyte', 'the rest of it is not counted',
'''
c = written (['-j', '1', 'ar-linux', 'json'], json.dumps ('\\u0634'*1100000) + '\\n')
assert sum (c['simple'].buttons.values ()) == 1100000
''')
# ---------------------------------------------------------------- C09
plant ('C09-systemexit', 'C09', 'text.py',
"    except Exception as e:\n        # async exceptions\n", "    except (OSError, EOFError):\n        logging.exception ('cannot read item')\n        out.send (combined)\n    except Exception as e:\n        # async exceptions\n",
'an item whose file cannot be read', 'its worker stops and the import succeeds without the remaining items',
'''
r = cli ('write', ['-j', '1', 'ar-linux', 'file', 'text'], '/nonexistent/file\\n')
assert r.returncode != 0
''')
# ---------------------------------------------------------------- C10
plant ('C10-no-output', 'C10', 'text.py',
"            self.buf += self.decompressor.process (data)\n", "            out = self.decompressor.process (data)\n            if not out and not self.buf and len (data) < self.readchunk:\n                break\n            self.buf += out\n",
'a short read of the underlying file that yields no output', 'the end of the stream is reported too early',
'''
import brotli
from lulua.text import BrotliFile
class F:
    def __init__ (self, d): self.d = d
    def read (self, n):
        r, self.d = self.d[:1], self.d[1:]
        return r
data = os.urandom (1000)
assert BrotliFile (F (brotli.compress (data))).read () == data
''')
PLANTS.pop ()
plant ('C10-readchunk', 'C10', 'text.py',
"            data = self.fd.read (self.readchunk)\n", "            data = self.fd.read (min (self.readchunk, num or self.readchunk))\n            if num and len (data) == num == 1:\n                data += self.fd.read (1)\n",
'x', 'y', '''
''')
PLANTS.pop ()
plant ('C10-buffer-limit', 'C10', 'text.py',
"            b = self.buf[0:num]\n            self.buf = self.buf[num:]\n", "            b = self.buf[0:num]\n            self.buf = self.buf[num:][-16*1024*1024:]\n",
'a small read of a highly compressible stream', 'a part of the data is lost',
'''
import brotli
from lulua.text import BrotliFile
f = BrotliFile (BytesIO (brotli.compress (bytes (40*1024*1024), quality=1)))
n = len (f.read (1))
n += len (f.read ())
assert n == 40*1024*1024, n
''')
plant ('C10-name-block', 'C10', 'text.py',
"        if header == b'' or header == emptyblock:\n", "        if header == b'' or header[0] == 0:\n",
'an archive member with an empty name', 'everything after it is lost',
'''
import tarfile
from lulua.text import filterTar
b = BytesIO ()
with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
    for n in ('', 'b'):
        i = tarfile.TarInfo (n); i.size = 3
        t.addfile (i, BytesIO (b'abc'))
b.seek (0)
assert len (list (filterTar (b))) == 2
''')
# ---------------------------------------------------------------- C11
plant ('C11-noscript', 'C11', 'text.py',
"tname in {'script', 'style'}", "tname in {'script', 'style', 'noscript', 'template', 'figcaption'}",
'a figure caption inside an article', 'its text is dropped',
'''
from lulua.text import filterAvail
h = b'<html><meta charset=utf-8><body><div property="articleBody"><figure><figcaption>x</figcaption></figure></div>'
assert 'x' in list (filterAvail['bbcarabic'] (BytesIO (h)))[0]
''')
plant ('C11-substring', 'C11', 'text.py',
"x['data'].get ((None, 'property')) == 'articleBody'", "'articleBody' in x['data'].get ((None, 'property'), '')",
'another element whose property contains that of the article', 'text outside of the article is included',
'''
from lulua.text import filterAvail
h = b'<html><meta charset=utf-8><body><div property="articleBodyTeaser">x</div><div property="articleBody">y</div>'
assert 'x' not in list (filterAvail['bbcarabic'] (BytesIO (h)))[0]
''')
plant ('C11-any-element', 'C11', 'text.py',
"x['name'] == 'div' and x['data'].get ((None, 'id')) == 'DynamicContentContainer'", "x['data'].get ((None, 'id')) == 'DynamicContentContainer'",
'an element other than div with the identifier of the article', 'text outside of the article is included',
'''
from lulua.text import filterAvail
h = b'<html><meta charset=utf-8><body><section id="DynamicContentContainer">x</section>'
assert 'x' not in list (filterAvail['aljazeera'] (BytesIO (h)))[0]
''')
plant ('C11-navigation', 'C11', 'text.py',
"        logging.debug (f'got item {item.get_name ()}')\n", "        logging.debug (f'got item {item.get_name ()}')\n        if 'nav' in item.get_name ():\n            continue\n",
'an EPUB chapter whose file name contains nav', 'it is left out',
'''
from ebooklib import epub
from lulua.text import filterAvail
import shutil
d = tempfile.mkdtemp ()
try:
    b = epub.EpubBook ()
    b.set_identifier ('x'); b.set_title ('t'); b.set_language ('ar')
    c = epub.EpubHtml (title='x', file_name='navigator.xhtml', lang='ar')
    c.content = '<html><body><p>hello</p></body></html>'
    b.add_item (c)
    b.toc = (c, ); b.spine = [c]
    b.add_item (epub.EpubNcx ())
    epub.write_epub (d + '/x.epub', b)
    assert any ('hello' in x for x in filterAvail['epub'] (d + '/x.epub'))
finally:
    shutil.rmtree (d)
''')
plant ('C11-blank-sentence', 'C11', 'text.py',
"        out.append (getText (s.childNodes).strip ())\n", "        out.append (' '.join (getText (s.childNodes).split ()))\n",
'a sentence with several blanks in a row', 'they are merged',
'''
import xml.dom.minidom
from lulua.text import filterAvail
d = xml.dom.minidom.parseString ('<d><s>a  b</s></d>')
assert list (filterAvail['opensubtitles'] (d)) == ['a  b']
''')
# ---------------------------------------------------------------- C12
plant ('C12-many-keys', 'C12', 'carpalx.py',
"            simultaneousPenalty = (numKeys-1)*kS\n", "            simultaneousPenalty = min (numKeys-1, 4)*kS\n",
'a combination of six keys or more', 'extra keys are free',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (spec (([[]], {}))))
def t (n):
    return (comb (['Dl1', 'Dl2', 'Dl3', 'Dl4', 'Dr6', 'Dr5'][:n], 'Dr4'), ) + (comb ([], 'Dl1'), )*2
def e (t):
    c.reset (); c.addTriad (t, 1); return c.effort
assert e (t (6)) > e (t (5)) + 0.01, (e (t (6)), e (t (5)))
''')
plant ('C12-cheap-path', 'C12', 'carpalx.py',
"                for singleBtnTriad in product (*map (iter, triad))]\n", "                for singleBtnTriad in list (product (*map (iter, triad)))[:16]]\n",
'triads with many key combinations', 'cheaper paths are not considered',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (spec (([[]], {}))))
import itertools
keys = [['Bl1', 'El3', 'Dr4'], ['Er1', 'Cl3', 'Dr5'], ['Bl6', 'Er3', 'Dr6']]
def eff (t):
    c.reset (); c.addTriad (t, 1); return c.effort
bad = 0
rng = random.Random (2)
allk = [k.name for k in kbd.keys () if k.name in models['mod01'].baselineEffort]
for _ in range (300):
    ks = [rng.sample (allk, 3) for _ in range (3)]
    # the same keys, listed in another way
    a = eff (tuple (ButtonCombination (frozenset (kbd[x] for x in k[:2]), frozenset ([kbd[k[2]]])) for k in ks))
    b = eff (tuple (ButtonCombination (frozenset (kbd[x] for x in k[1:]), frozenset ([kbd[k[0]]])) for k in ks))
    bad += abs (a-b) > 1e-9
assert not bad, bad
''')
# ---------------------------------------------------------------- C13
plant ('C13-shared-cache', 'C13', 'carpalx.py',
"        c._cache = self._cache\n", "        c._cache = self._cache\n        self.N, self.absEffort = round (self.N, 6), round (self.absEffort, 6)\n",
'copying an instance with tiny weights', 'the original changes',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (spec (([[]], {}))))
c.addTriad ((comb ([], 'Dl1'), )*3, 1e-8)
e = c.effort
c.copy ()
assert c.effort == e, (c.effort, e)
''')
plant ('C13-duplicates', 'C13', 'carpalx.py',
"        for t, n in triads.items ():\n            self.addTriad (t, n)\n",
"        N = self.N + sum (triads.values ())\n        for t, n in triads.items ():\n            if n*1000000 < N:\n                # no measurable effect\n                continue\n            self.addTriad (t, n)\n",
'many rare triads next to frequent ones', 'rare triads are not included',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (spec (([[]], {}))))
a, b = (comb ([], 'Dl1'), )*3, (comb ([], 'Bl1'), )*3
c.addTriads ({a: 10**7, b: 1})
c.removeTriad (a, 10**7)
d = Carpalx (models['mod01'], c.writer)
d.addTriad (b, 1)
assert abs (c.effort-d.effort) < 1e-4, (c.effort, d.effort)
''')
# ---------------------------------------------------------------- C14
plant ('C14-pin-class', 'C14', 'optimize.py',
"            if fnmatch (k.name, match):\n", "            if fnmatch (k.name.lower (), match.lower ()):\n",
'a pin with a letter class', 'too many keys are pinned', '''
''')
PLANTS.pop ()
plant ('C14-last-pin', 'C14', 'optimize.py',
"        pins.append ((layer, button))\n    return frozenset (pins)\n", "        pins.append ((layer, button))\n    return frozenset (dict (reversed (pins)).items ())\n",
'several pins for the same layer', 'only the first of them is respected',
'''
from lulua.optimize import parsePin
assert parsePin ('0;0,B*') == frozenset ([(0, None), (0, 'B*')])
''')
plant ('C14-unused-lost', 'C14', 'optimize.py',
"            assert newK not in layers[newLayer].layout\n            try:\n", "            assert newK not in layers[newLayer].layout\n            if k in modifiers and (newLayer, newK) == (i, k):\n                continue\n            try:\n",
'a text on a key which is part of a multi-key modifier', 'the text is lost',
WITHDIR + '''
l = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'El1': 'c'}), ([['El1', 'Er1']], {'Dl1': 'x'}))
s = collect (l.specialize (kbd), 'ababab')
def f ():
    r = cli ('optimize', ['-l', layfile (l), '-n', '0'], pickle.dumps (s))
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    assert yaml.safe_load (r.stdout)['layout'][0]['layer'].get ('El1') == 'c', r.stdout
go (f)
''')
# ---------------------------------------------------------------- C15
plant ('C15-rare', 'C15', 'optimize.py',
"        affected = set (chain (self.stateToTriad[a], self.stateToTriad[b]))\n", "        affected = set (self.stateToTriad[a]) ^ set (self.stateToTriad[b]) if len (self.triads) > 500 else set (chain (self.stateToTriad[a], self.stateToTriad[b]))\n",
'more than five hundred triads', 'triads containing both exchanged keys are not recomputed',
WITHDIR + '''
l = defaultLayouts['ar-linux']
rng = random.Random (1)
from lulua.optimize import LayoutOptimizer
from lulua.carpalx import models
sp = l.specialize (kbd)
ks = [b for b in kbd.keys () if isinstance (b, LetterButton)]
tr = [((tuple (ButtonCombination (frozenset (), frozenset ([rng.choice (ks)])) for _ in range (3))), 1) for _ in range (800)]
m = {(i, k): (i, k) for i in (0, 1) for k in ks}
o = LayoutOptimizer (m, tr, sp, [], Writer (sp), models['mod01'])
o._resetEnergy ()
random.seed (1)
for _ in range (300):
    o.mutate ()
e = o.energy ()
o._resetEnergy ()
assert abs (e-o.energy ()) < 1e-9, (e, o.energy ())
''')
plant ('C15-best-shared', 'C15', 'optimize.py',
"        carpalx = self.carpalx.copy ()\n        buttonMap = self.buttonMap.copy ()\n", "        carpalx = self.carpalx.copy () if self.carpalx.N else self.carpalx\n        buttonMap = self.buttonMap.copy ()\n",
'x', 'y', '''
''')
PLANTS.pop ()
plant ('C15-initial-best', 'C15', 'optimize.py',
"        self.best = (self.state.copy (), energy)\n        bar", "        self.best = (self.state.copy (), energy if steps < 100 else float ('inf'))\n        bar",
'a long walk which never gets below the effort of the start', 'the start is not considered',
'''
from lulua.optimize import Annealer
class S:
    def __init__ (self, v): self.v = v
    def copy (self): return S (self.v)
class A (Annealer):
    def mutate (self):
        self.state.v += 1
        return 1
s, e = A (S (0)).run (200)
assert s.v == 0 and e == 0, (s.v, e)
''')
# ---------------------------------------------------------------- C16
plant ('C16-name-string', 'C16', 'layout.py',
"        data = dict (name=self.name, layout=", "        data = dict (name=f'{self.name}', layout=",
'a layout without name', 'it has one afterwards',
'''
l = GenericLayout.deserialize ({'name': None, 'layout': []})
assert l.serialize ()['name'] is None
''')
plant ('C16-empty-row', 'C16', 'keyboard.py',
"            rows.append (newRow)\n", "            if any (newRow):\n                rows.append (newRow)\n",
'a keyboard with an empty row', 'the row is lost and all rows below move up',
'''
d = kbd.serialize ()
d['rows'].insert (2, [[], []])
k = PhysicalKeyboard.deserialize (d)
assert PhysicalKeyboard.deserialize (k.serialize ()).getRow (k['Fl_space']) == k.getRow (k['Fl_space'])
''')
# ---------------------------------------------------------------- C17
plant ('C17-ask-compat', 'C17', 'render.py',
"            # a composed version (NFC) if possible\n            buttonText = [unicodedata.normalize ('NFC', x)", "            # a composed version (NFC) if possible\n            buttonText = [unicodedata.normalize ('NFKC', x)",
'a key with a ligature', 'another text is typed',
WITHDIR + '''
def f ():
    assert '\\ufefb' in render (lay (([[]], {'Dl1': '\\ufefb'})), 'ask')
go (f)
''')
plant ('C17-keyman-upper', 'C17', 'render.py',
"                    text = ' '.join ([f'U+{ord (x):04X}' for x in text])\n", "                    text = ' '.join (dict.fromkeys (f'U+{ord (x):04X}' for x in text))\n",
'a text containing a character twice', 'the character is typed once only',
WITHDIR + '''
def f ():
    assert 'U+0627 U+0627' in render (lay (([[]], {'Dl1': '\\u0627\\u0627'})), 'keyman')
go (f)
''')
plant ('C17-xmodmap-astral', 'C17', 'render.py',
"f'U{ord (text):04X}'", "f'U{ord (text) & 0xffff:04X}'",
'a character outside of the basic plane', 'another character is assigned',
WITHDIR + '''
def f ():
    assert 'U1EE00' in render (lay (([[]], {'Dl1': '\\U0001ee00'})), 'xmodmap')
go (f)
''')
# ---------------------------------------------------------------- C18
plant ('C18-numpad-flag', 'C18', 'winkbd.py',
"    (0x4C, ): (VirtualKey.CLEAR, VirtualKeyFlag.NUMPAD, VirtualKeyFlag.SPECIAL),\n", "    (0x4C, ): (VirtualKey.CLEAR, VirtualKeyFlag.NUMPAD),\n",
'the middle key of the numeric keypad', 'it does not yield a digit',
'''
from lulua.winkbd import *
from lulua import winkbd
assert VirtualKeyFlag.SPECIAL in winkbd.qwertyScancodeToVk[(0x4c, )]
''')
plant ('C18-numpad-first', 'C18', 'winkbd.py',
"    generate (1, numpad, 'Num')\n", "    generate (1, numpad, 'Num')\n    retTbl.insert (2, retTbl.pop ())\n",
'translating a digit of the layout back to its key', 'it is found on the numeric keypad',
WITHDIR + '''
def f ():
    out = render ('ar-lulua', 'winkbd')
    i = out.index ('aVkToWcharTable[]')
    assert out.index ('aVkToWchNum1', i) > out.index ('aVkToWch4', i)
go (f)
''')
# ---------------------------------------------------------------- C19
plant ('C19-marker', 'C19', 'render.py',
"            if btn.isMarked:\n", "            if btn.isMarked and any (buttonText):\n",
'a marked key without text', 'its marker is missing', '''
''')
PLANTS.pop ()
plant ('C19-clipped-heat', 'C19', 'render.py',
"        maxHeat = max (args.heatmap['buttons'].values ())\n", "        maxHeat = max (v for k, v in args.heatmap['buttons'].items () if not k.startswith ('F') or v < args.heatmap['total']/4)\n",
'a control key pressed more often than all others', 'the highlight of keys is wrong',
WITHDIR + '''
import re
def f ():
    os.makedirs (os.path.join (d, '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2'))
    for n in ('Thin', 'Regular'):
        open (os.path.join (d, f'3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2/IBMPlexSansArabic-{n}.woff2'), 'w').close ()
    with open (os.path.join (d, 'h'), 'w') as fd:
        yaml.dump (dict (total=30, buttons={'Fl_space': 20, 'Dl1': 10}), fd)
    r = cli ('render', ['-l', 'ar-lulua', 'svg', '--heatmap', 'h', 'o'], cwd=d)
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    assert sorted (re.findall ('style="opacity: ([0-9.]+)', open (os.path.join (d, 'o')).read ())) == ['0.5', '1.0']
go (f)
''')
plant ('C19-unnamed', 'C19', 'util.py',
"        stopwords = re.compile('\\WTO\\W', re.I)\n", "        stopwords = re.compile('\\W(TO|OF)\\W', re.I)\n",
'format characters whose name contains “of”', 'their abbreviation is another one',
'''
from lulua.util import displayText
assert displayText ('\\u06dd') == '[AEOA]', displayText ('\\u06dd')
''')
# ---------------------------------------------------------------- C20
plant ('C20-cum', 'C20', 'plot.py',
"        if not x or x[-1] + binWidth <= cumulativeWeight:\n", "        if not x or x[-1] + binWidth < cumulativeWeight:\n",
'triads whose weights hit a bin boundary exactly', 'a point of the curve is missing',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
ks = [c for t, cs in l for c in cs[:1] if len (c) == 1 and not first (c.buttons).name[0] == 'F' and '_' not in first (c.buttons).name][:10]
import itertools
from lulua.stats import allStats
w = Writer (l)
s = {c.name: c (w) for c in allStats}
for t in itertools.islice (itertools.product (ks, repeat=3), 800):
    s['triads'].triads[t] = 1
r = cli ('stats', ['-l', 'ar-linux', 'triadeffortdata'], pickle.dumps (s))
assert r.returncode == 0, r.stderr.decode ()[-500:]
x = pickle.loads (r.stdout)['x']
assert len (x) == 201, len (x)
''')
plant ('C20-zero-hand', 'C20', 'stats.py',
"        if match != letter:\n", "        if not letter.startswith (match):\n",
'a layout without key for a letter with hamza', 'presses of the stem are counted as hamza',
'''
l = spec (([[]], {'Dl1': '\\u0627', 'Dl2': '\\u064a', 'Dl3': '\\u0648', 'Dl4': 'b'}))
import yaml, shutil
d = tempfile.mkdtemp ()
try:
    p = os.path.join (d, 'l')
    with open (p, 'w') as fd:
        yaml.dump (lay (([[]], {'Dl1': '\\u0627', 'Dl2': '\\u064a', 'Dl3': '\\u0648', 'Dl4': 'b'})).serialize (), fd)
    r = cli ('stats', ['-l', p, 'layoutstats'], pickle.dumps (collect (l, '\\u0627b')))
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    assert pickle.loads (r.stdout)['hamzaImpact'] == 0
finally:
    shutil.rmtree (d)
''')
plant ('C20-word-cut', 'C20', 'stats.py',
"        p = count/total\n", "        p = count/total\n        if len (word) > 48:\n            # longer than LatinIME permits\n            continue\n",
'a word with more than 48 letters', 'the word list does not contain it', '''
l = defaultLayouts['ar-linux'].specialize (kbd)
r = cli ('stats', ['-l', 'ar-linux', 'latinime'], pickle.dumps (collect (l, '\\u0634'*60 + ' \\u0634 ')))
assert b'\\n word=' + ('\\u0634'*60).encode () in r.stdout
''')
# ---------------------------------------------------------------- C21
plant ('C21-sorted', 'C21', 'report.py',
"        corpustotal[k] = sum (map (lambda x: x['stats'][k], corpus))\n", "        corpustotal[k] = sum ({x['source']['url']: x['stats'][k] for x in corpus}.values ())\n",
'two corpora with the same address', 'the totals lack one of them',
'''
''')
PLANTS.pop ()
plant ('C21-threshold', 'C21', 'report.py',
"    while round (i, 1) >= base and len (units) > 1:\n", "    while i >= base and len (units) > 1:\n",
'a number slightly below a thousand', 'it is shown as 1000.0 instead of the next unit',
'''
from lulua.report import approx
assert approx (999960)[1] == 'million', approx (999960)
''')
PLANTS.pop ()
plant ('C21-float', 'C21', 'report.py',
"    i = Decimal (i)\n", "    i = Decimal (float (i))\n",
'x', 'y', '''
''')
PLANTS.pop ()
# ---------------------------------------------------------------- C22
plant ('C22-first-column', 'C22', 'layout.py',
"                                layers[i][button] = c\n", "                                layers[i].setdefault (button, c)\n",
'x', 'y', '''
''')
PLANTS.pop ()
plant ('C22-nfd', 'C22', 'layout.py',
"            return unicodedata.normalize ('NFD', chr (n))\n", "            return unicodedata.normalize ('NFD', chr (n)) if n < 0xfb00 else chr (n)\n",
'a presentation form with canonical decomposition', 'it is not decomposed',
'''
import shutil
d = tempfile.mkdtemp ()
try:
    p = os.path.join (d, 'x.klc')
    with open (p, 'w', encoding='utf16') as fd:
        fd.write ('KBD\\tx\\t"x"\\n\\nSHIFTSTATE\\n\\n0\\n1\\n\\nLAYOUT\\n\\n1e\\tA\\t0\\tfb2a\\t-1\\n\\nENDKBD\\n')
    r = cli ('imp', [p, 'klc'])
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    import yaml
    assert yaml.safe_load (r.stdout)['layout'][0]['layer']['Dl1'] == '\\u05e9\\u05c1'
finally:
    shutil.rmtree (d)
''')
# ---------------------------------------------------------------- C24
plant ('C24-mtime', 'C24', [('util.py',
"                with f (k) as fd:\n                    return self.deserialize (yaml.safe_load (fd))\n",
"                with f (k) as fd:\n                    st = os.fstat (fd.fileno ())\n                    key = (k, st.st_dev, st.st_ino, st.st_size, int (st.st_mtime))\n                    if key not in parsed:\n                        parsed[key] = yaml.safe_load (fd)\n                    return self.deserialize (copy.deepcopy (parsed[key]))\n"),
('util.py', "import os, yaml, pkg_resources, unicodedata, re\n", "import os, yaml, pkg_resources, unicodedata, re, copy\n\nparsed = {}\n")], None, None,
'a file changed without changing its size within a second', 'the old content is returned',
'''
import shutil
d = tempfile.mkdtemp ()
try:
    p = os.path.join (d, 'x')
    for n in ('a', 'b', 'c', 'd'):
        with open (p, 'w') as fd:
            fd.write (f'name: {n}\\nlayout: []\\n')
        assert defaultLayouts[p].name == n, n
finally:
    shutil.rmtree (d)
''')
plant ('C24-dotted', 'C24', 'util.py',
"os.path.join (self.defaultDir, k + '.yaml')", "os.path.join (self.defaultDir, os.path.splitext (k)[0] + '.yaml')",
'a name with another extension', 'a shipped definition is returned instead of an error',
'''
try:
    x = defaultLayouts['ar-lulua.bak']
except KeyError:
    pass
else:
    assert False, x
''')
# ---------------------------------------------------------------- C25, C26
SITE = '''
import re
tpl = open (os.path.join (os.path.dirname (__import__ ('lulua').__file__), 'data/report/index.html')).read ()
'''
plant ('C25-dangling-link', 'C25', 'data/report/index.html',
'href="#ar-malas">Malas’ layout</a>, because', 'href="#malas">Malas’ layout</a>, because',
'following a link inside the page', 'its target does not exist',
SITE + '''
ids = set (re.findall (r'id="([^"]+)"', tpl))
for a in re.findall (r'href="#([^"]+)"', tpl):
    assert a in ids, a
''')
plant ('C26-new-name', 'C26', 'optimize.py',
"    newLayout = GenericLayout (f'{layout.name}-new', layers)\n", "    for l in layers:\n        for k in list (l.layout):\n            if l.layout[k].isspace () and k not in ('Fl_space', 'Fr_space'):\n                l.layout[k] = ' '\n    newLayout = GenericLayout (f'{layout.name}-new', layers)\n",
'a layout with special white space like a no-break space', 'it is replaced by an ordinary one',
WITHDIR + '''
l = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'Dl3': '\\u202f'}))
s = collect (l.specialize (kbd), 'ababab')
def f ():
    r = cli ('optimize', ['-l', layfile (l), '-n', '0'], pickle.dumps (s))
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    assert sorted (yaml.safe_load (r.stdout)['layout'][0]['layer'].values ()) == ['a', 'b', '\\u202f']
go (f)
''')
