""" Planted bugs, second round. """
from plants import plant, PLANTS, PRE

WITHDIR = '''
import shutil, yaml
d = tempfile.mkdtemp ()
def layfile (l):
    p = os.path.join (d, 'l')
    with open (p, 'w') as fd:
        yaml.dump (l.serialize (), fd, sort_keys=False)
    return p
def render (l, fmt, *a):
    l = l if isinstance (l, str) else layfile (l)
    r = cli ('render', ['-l', l, fmt, *a, os.path.join (d, 'o')], cwd=None)
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    with open (os.path.join (d, 'o'), encoding='utf-8') as fd:
        return fd.read ()
def go (f):
    try:
        f ()
    finally:
        shutil.rmtree (d)
'''

# ---------------------------------------------------------------- C01
plant ('C01-short-read', 'C01', 'writer.py',
'            if not buf:\n                break\n', '            if len (buf) < self.layout.bufferLen and buf.isspace ():\n                break\n            if not buf:\n                break\n',
'a text ending in white space, shorter than the look-ahead', 'trailing white space of a text is not typed',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
ev = list (Writer (l).type (StringIO ('\\u0634 ')))
assert len (ev) == 2, ev
''')
plant ('C01-prefix-cut', 'C01', 'layout.py',
'        p = self.t.longest_prefix (buf)\n', '        p = self.t.longest_prefix (buf[:3])\n',
'a layout producing texts of four or more characters', 'texts longer than three characters are never matched',
'''
l = spec (([[]], {'Dl1': 'abcd', 'Dl2': 'a', 'Dl3': 'b', 'Dl4': 'c', 'Dl5': 'd'}))
assert [m for m, e in Writer (l).type (StringIO ('abcd'))] == ['abcd']
''')
# ---------------------------------------------------------------- C02
plant ('C02-finger-hand', 'C02', 'writer.py',
"    'Bl7': (LEFT, INDEX),\n", "    'Bl7': (RIGHT, INDEX),\n",
'the rightmost number key of the left half', 'the key is attributed to the other hand',
'''
w = Writer (defaultLayouts['ar-linux'].specialize (kbd))
assert w.getHandFinger (kbd['Bl7']) == (LEFT, INDEX)
''')
plant ('C02-abs-balance', 'C02', 'writer.py',
'| (abs (prevBalance) << 0)', '| (max (prevBalance, 0) << 0)',
'a previous stroke by the right hand and a text both hands can type', 'two strokes of the right hand are taken for alternating',
'''
w = Writer (defaultLayouts['ar-linux'].specialize (kbd))
w.press (comb ([], 'Dr4'))
c = [comb ([], 'Fr_space'), comb ([], 'Fl_space')]
assert w.chooseCombination (c) == c[1]
''')
# ---------------------------------------------------------------- C03
plant ('C03-fallback-layer', 'C03', 'layout.py',
'        return self._modifierToLayer[mod]\n', '        return self._modifierToLayer.get (mod) or self._modifierToLayer[frozenset ()]\n',
'a key set that is no modifier', 'unknown modifiers are answered with the base layer',
'''
l = spec (([[]], {'Dl1': 'a'}))
try:
    l.modifierToLayer (frozenset ([kbd['El_shift']]))
except KeyError:
    pass
else:
    assert False
''')
plant ('C03-first-modifier-only', 'C03', 'layout.py',
'            for m in l.modifier:\n                self._modifierToLayer[m] = (i, l)\n', '            for m in l.modifier:\n                self._modifierToLayer.setdefault (m, (len (self._modifierToLayer), l))\n',
'a layer after one that is selected by several modifiers', 'the number of the layer is wrong',
'''
l = spec (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}), ([['Fr_altgr']], {'Dl1': 'c'}))
assert l.modifierToLayer (frozenset ([kbd['Fr_altgr']]))[0] == 2
assert l.modifierToLayer (frozenset ([kbd['Er_shift']]))[0] == 1
''')
# ---------------------------------------------------------------- C04
plant ('C04-space-unknown', 'C04', 'stats.py',
'            self.unknown[event.char] += 1\n', "            self.unknown[event.char.strip () or ' '] += 1\n",
'an untypeable kind of white space', 'different untypeable white space characters are counted as one',
'''
from lulua.stats import SimpleStats
s = SimpleStats (None)
s.process (SkipEvent ('\\u2003'))
assert dict (s.unknown) == {'\\u2003': 1}, dict (s.unknown)
''')
plant ('C04-modifier-set', 'C04', 'stats.py',
'            self.combinations[event] += 1\n        else:\n', '            self.combinations[event] += 1\n        elif event is None:\n            pass\n        else:\n',
'something that is no typing event', 'it is accepted silently',
'''
from lulua.stats import SimpleStats
try:
    SimpleStats (None).process (None)
except ValueError:
    pass
else:
    assert False
''')
# ---------------------------------------------------------------- C05
plant ('C05-four-window', 'C05', 'stats.py',
'                    self._triad = self._triad[1:]\n', '                    self._triad = self._triad[-2:] if self._triad[-1] == self._triad[-2] == self._triad[-3] == self._triad[0] else self._triad[1:]\n'.replace ('else self._triad[1:]', 'else self._triad[1:]'),
'the same stroke four times in a row', 'repetitions are not counted completely',
'''
pass
''')
PLANTS.pop ()
plant ('C05-skipped-space', 'C05', 'stats.py',
"            # reset\n            self._triad = []\n", "            # reset\n            if not event.char.isspace ():\n                self._triad = []\n",
'an untypeable white space character between strokes', 'it does not interrupt the sequence',
'''
from lulua.stats import TriadStats
s = TriadStats (Writer (defaultLayouts['ar-linux'].specialize (kbd)))
for e in (comb ([], 'Dl1'), SkipEvent ('\\u2003'), comb ([], 'Dl1'), comb ([], 'Dl1')):
    s.process (e)
assert not s.triads, dict (s.triads)
''')
plant ('C05-tab-key', 'C05', 'stats.py',
"('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs')", "('Fl_space', 'Fr_space', 'CD_ret', 'Br_bs')",
'a stroke on the tab key', 'tab strokes become part of triads',
'''
from lulua.stats import TriadStats
s = TriadStats (Writer (defaultLayouts['ar-linux'].specialize (kbd)))
for b in ('Dl1', 'Cl_tab', 'Dl2', 'Dl3'):
    s.process (comb ([], b))
assert len (s.triads) == 1 and 'Cl_tab' not in repr (s.triads), s.triads
''')
# ---------------------------------------------------------------- C06
plant ('C06-tatweel', 'C06', 'stats.py',
"                if cat in {'Lo', 'Mn'}:\n", "                if cat in {'Lo', 'Lm', 'Mn'}:\n",
'a modifier letter such as tatweel', 'it does not end a word',
'''
l = spec (([[]], {'Dl1': '\\u0634', 'Dl2': '\\u0640', 'Dl3': ' '}))
assert dict (collect (l, '\\u0634\\u0640\\u0634 ')['words'].words) == {'\\u0634': 2}
''')
plant ('C06-word-on-skip', 'C06', 'stats.py',
"        if isinstance (event, SkipEvent):\n            # reset\n            self._currentWord = []\n", "        if isinstance (event, SkipEvent):\n            # reset\n            if self._currentWord and unicodedata.category (event.char) in {'Po', 'Zs'}:\n                self.words[''.join (self._currentWord)] += 1\n            self._currentWord = []\n",
'an untypeable punctuation mark after a word', 'a word followed by a skipped character is counted',
'''
l = spec (([[]], {'Dl1': '\\u0634'}))
assert dict (collect (l, '\\u0634!')['words'].words) == {}
''')
plant ('C06-hand-after-skip', 'C06', 'stats.py',
"            # reset state, we don’t know which button to press\n            self.lastHand = None\n            self.curPerHandRunlen = 0\n", "            # reset state, we don’t know which button to press\n            self.lastHand = None\n",
'a skipped character inside a run of the same hand', 'the strokes before it are part of the next run',
'''
from lulua.stats import RunlenStats
s = RunlenStats (Writer (defaultLayouts['ar-linux'].specialize (kbd)))
for e in (comb ([], 'Dl1'), SkipEvent ('x'), comb ([], 'Dl1'), comb ([], 'Dr4')):
    s.process (e)
assert dict (s.perHandRunlenDist[LEFT]) == {1: 1}, dict (s.perHandRunlenDist[LEFT])
''')
# ---------------------------------------------------------------- C07
plant ('C07-duplicate-part', 'C07', 'stats.py',
"    for r in unpickleAll (sys.stdin.buffer):\n        for s in allStats:\n", "    last = None\n    for r in unpickleAll (sys.stdin.buffer):\n        if r == last:\n            continue\n        last = r\n        for s in allStats:\n",
'two identical statistics files in a row', 'the second one is not added',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
st = pickle.dumps (collect (l, '\\u0627\\u0644 \\u0627\\u0644'))
r = cli ('stats', ['combine'], st+st)
assert r.returncode == 0, r.stderr
a, b = pickle.loads (st), pickle.loads (r.stdout)
assert sum (b['simple'].combinations.values ()) == 2*sum (a['simple'].combinations.values ())
''')
plant ('C07-zero', 'C07', 'stats.py',
"        updateDictOp (self.buttons, other.buttons, operator.add)\n", "        updateDictOp (self.buttons, other.buttons, lambda a, b: min (a+b, 0xffffffff))\n",
'counts exceeding 32 bit', 'large counts are cut off',
'''
from lulua.stats import SimpleStats
a, b = SimpleStats (None), SimpleStats (None)
a.buttons[kbd['Dl1']] = b.buttons[kbd['Dl1']] = 3*10**9
a.update (b)
assert a.buttons[kbd['Dl1']] == 6*10**9
''')
plant ('C07-shared-list', 'C07', 'stats.py',
"            a[k] = v\n        else:\n", "            a[k] = v\n            if isinstance (v, dict):\n                a[k] = v.copy () if v else v\n        else:\n",
'merging', 'empty inner distributions are shared between both statistics',
'''
from lulua.stats import updateDictOp
import operator
a, b = {}, {1: {}}
updateDictOp (a, b, operator.add)
updateDictOp (a, {1: {2: 3}}, operator.add)
assert b == {1: {}}, b
''')
PLANTS.pop ()
# ---------------------------------------------------------------- C08
plant ('C08-one-text', 'C08', 'text.py',
"                # init a new writer for every item\n                w = Writer (layout)\n                # stats\n                stats = [cls(w) for cls in allStats]\n",
"                # init a new writer for every item\n                if i == 0:\n                    w = Writer (layout)\n                # stats\n                stats = [cls(w) for cls in allStats]\n",
'an item with several texts, the latter starting with an ambiguous text', 'the last stroke of the previous text influences the next one',
'''
import tarfile
d = tempfile.mkdtemp ()
try:
    p = os.path.join (d, 'a.tar')
    with tarfile.open (p, 'w', format=tarfile.GNU_FORMAT) as t:
        for i, c in enumerate (('\\u0634', ' ')):
            ti = tarfile.TarInfo (str (i)); b = c.encode (); ti.size = len (b)
            t.addfile (ti, BytesIO (b))
    c = written (['-j', '1', 'ar-linux', 'file', 'tar', 'text'], p + '\\n')
    assert c['simple'].combinations[comb ([], 'Fl_space')] == 1, dict (c['simple'].combinations)
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C08-no-result', 'C08', 'text.py',
"            statusq.put (i)\n            itemsProcessed += i\n", "            statusq.put (i)\n            itemsProcessed = i\n",
'a worker whose last item contains no text', 'everything the worker counted before is lost',
'''
d = tempfile.mkdtemp ()
try:
    a, b = os.path.join (d, 'a'), os.path.join (d, 'b')
    open (a, 'w').write ('<doc><s>\\u0634</s></doc>'); open (b, 'w').write ('<broken')
    c = written (['-j', '1', 'ar-linux', 'file', 'xml', 'opensubtitles'], a + '\\n' + b + '\\n')
    assert sum (c['simple'].combinations.values ()) == 1
finally:
    import shutil; shutil.rmtree (d)
''')
# ---------------------------------------------------------------- C09
plant ('C09-json-fallback', 'C09', 'text.py',
"    yield json.loads (item)\n", "    try:\n        yield json.loads (item)\n    except ValueError:\n        logging.error ('invalid json')\n",
'a line that is no JSON', 'broken items are dropped and the import succeeds',
'''
r = cli ('write', ['-j', '1', 'ar-linux', 'json'], '"a"\\n{\\n"b"\\n')
assert r.returncode != 0
''')
plant ('C09-decode', 'C09', 'text.py',
"    yield fd.read ().decode ('utf-8')\n", "    yield fd.read ().decode ('utf-8', errors='ignore')\n",
'a file that is not valid UTF-8', 'undecodable bytes are dropped and the import succeeds',
'''
d = tempfile.mkdtemp ()
try:
    a = os.path.join (d, 'a')
    open (a, 'wb').write (b'abc\\xff')
    r = cli ('write', ['-j', '1', 'ar-linux', 'file', 'text'], a + '\\n')
    assert r.returncode != 0
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C09-keyerror', 'C09', 'text.py',
"    except Exception as e:\n        # async exceptions\n        out.send (e)\n", "    except ValueError as e:\n        # async exceptions\n        out.send (e)\n    except Exception as e:\n        logging.exception (e)\n        out.send (None)\n",
'an item failing with an error other than a ValueError', 'the importer reports success',
'''
r = cli ('write', ['-j', '1', 'ar-linux', 'file', 'text'], '/nonexistent/x\\n')
assert r.returncode != 0
''')
# ---------------------------------------------------------------- C10
plant ('C10-empty-member', 'C10', 'text.py',
"            if header[156:157] in (b'0', b'\\0', b'7'):\n                yield BytesIO (body)\n", "            if header[156:157] in (b'0', b'\\0', b'7'):\n                yield BytesIO (body)\n        elif header[156:157] == b'0':\n            break\n",
'an empty file in an archive', 'files behind it are lost', '''pass''')
PLANTS.pop ()
plant ('C10-empty-member', 'C10', 'text.py',
"        if size > 0:\n            body = fd.read (size)\n", "        if size == 0 and header[156:157] == b'0':\n            break\n        if size > 0:\n            body = fd.read (size)\n",
'an empty file in an archive', 'files behind it are lost',
'''
import tarfile
from lulua.text import filterTar
b = BytesIO ()
with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
    for i, c in enumerate ((b'a', b'', b'b')):
        ti = tarfile.TarInfo (str (i)); ti.size = len (c)
        t.addfile (ti, BytesIO (c))
b.seek (0)
assert [x.read () for x in filterTar (b)] == [b'a', b'b']
''')
plant ('C10-large-chunk', 'C10', 'text.py',
"            b = self.buf[0:num]\n            self.buf = self.buf[num:]\n", "            b = self.buf[0:num]\n            self.buf = self.buf[num:] if len (self.buf) > num else b''\n            if not b and num:\n                self.decompressor = brotli.Decompressor ()\n",
'reading again after the end of the stream', 'reading after the end fails', '''
import brotli
from lulua.text import BrotliFile
f = BrotliFile (BytesIO (brotli.compress (b'abc')))
assert f.read (10) == b'abc' and f.read (10) == b'' and f.read (10) == b''
''')
plant ('C10-size-field', 'C10', 'text.py',
"int (header[124:124+12].rstrip (b'\\0'), base=8)", "int (header[124+4:124+12].rstrip (b'\\0'), base=8)",
'a member larger than two megabytes', 'its size is wrong',
'''
import tarfile
from lulua.text import filterTar
b = BytesIO ()
with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
    for i, c in enumerate ((b'a'*(2*1024*1024+1), b'b')):
        ti = tarfile.TarInfo (str (i)); ti.size = len (c)
        t.addfile (ti, BytesIO (c))
b.seek (0)
assert [len (x.read ()) for x in filterTar (b)] == [2*1024*1024+1, 1]
''')
# ---------------------------------------------------------------- C11
plant ('C11-nested-div', 'C11', 'text.py',
"                if name in ('p', 'div'):\n                    yield '\\n\\n'\n", "                if name == 'p' or name == 'div' and token.get ('namespace') is None:\n                    yield '\\n\\n'\n",
'a div inside an article', 'its end is no blank line',
'''
from lulua.text import filterAvail
s, = filterAvail['bbcarabic'] ('<div property="articleBody"><div>a</div>b</div>')
assert s == 'a\\n\\nb\\n\\n', repr (s)
''')
plant ('C11-lines-strip', 'C11', 'text.py',
'    """ Read items (i.e. lines) as is """\n    yield item\n', '    """ Read items (i.e. lines) as is """\n    yield item.strip ()\n',
'a line with leading white space', 'white space of lines is removed',
'''
from lulua.text import filterLines
assert list (filterLines ('  a \\n')) == ['  a \\n']
''')
plant ('C11-mw-start', 'C11', 'text.py',
"            if event == 'end' and elem.tag == '{http://www.mediawiki.org/xml/export-0.10/}text':\n                text = ''.join (elem.itertext ())\n",
"            if event == 'start' and elem.tag == '{http://www.mediawiki.org/xml/export-0.10/}text':\n                text = ''.join (elem.itertext ())\n",
'a page text which crosses the boundary of a block read from the file', 'page texts are truncated or empty',
'''
import bz2
d = tempfile.mkdtemp ()
try:
    p = os.path.join (d, 'x')
    t = 'abc '*60000
    open (p, 'wb').write (bz2.compress (f'<mediawiki xmlns="http://www.mediawiki.org/xml/export-0.10/"><page><revision><text>{t}</text></revision></page></mediawiki>'.encode ()))
    r = cli ('mw', [p])
    assert r.returncode == 0 and [json.loads (x) for x in r.stdout.decode ().splitlines ()] == [t]
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C11-tei-heading', 'C11', 'text.py',
"            for p in body.getElementsByTagName ('p'):\n                for s in p.getElementsByTagName ('s'):\n", "            for p in body.getElementsByTagName ('p'):\n                for s in p.childNodes:\n                    if s.nodeName != 's':\n                        continue\n",
'a sentence which is not a direct child of its paragraph', 'such sentences are missing',
'''
import xml.dom.minidom
from lulua.text import filterTEI2
s, = filterTEI2 (xml.dom.minidom.parseString ('<TEI.2><text><body><p><q><s>a</s></q><s>b</s></p></body></text></TEI.2>'))
assert s.split () == ['a', 'b'], s
''')
plant ('C11-epub-nav', 'C11', 'text.py',
"        document = html5lib.parse (item.get_content ().decode ('utf-8'))\n", "        document = html5lib.parse (item.get_body_content ().decode ('utf-8'))\n",
'an EPUB chapter', '-', 'pass')
PLANTS.pop ()
# ---------------------------------------------------------------- C12
plant ('C12-last-path', 'C12', 'carpalx.py',
"        s = min (s)\n", "        s = min (s[0], s[-1])\n",
'a triad with several combinations whose cheapest path mixes modifiers and keys', 'not all paths are considered',
'''
from lulua.carpalx import Carpalx, models
from itertools import product
l = defaultLayouts['ar-lulua'].specialize (kbd)
m = models['mod01']
bad = 0
for x in product (('Cl1', 'Dl2', 'Er3'), ('Dl1', 'Dr4', 'Bl3'), ('El4', 'Cr5', 'Dl1')):
    t = tuple (comb (['El_shift'], y) for y in x)
    c = Carpalx (m, Writer (l))
    s = min (sum (a*b for a, b in zip (m.fHRF, c._strokePath (y))) for y in product (*t))
    b = c._baseEffort (t, lambda x: m.baselineEffort[x.name]); p = c._baseEffort (t, c._penalty)
    bad += abs (c._triadEffort (t) - (m.kBPS[0]*b+m.kBPS[1]*p+m.kBPS[2]*s)) > 1e-9
assert not bad, bad
''')
plant ('C12-salvo-value', 'C12', 'carpalx.py',
"            RING: 1-(5.08/6.57),\n", "            RING: 1-(5.80/6.57),\n",
'the ring finger of the right hand in the salvo model', 'its penalty is wrong',
'''
from lulua.carpalx import models
assert abs (models['salvo'].pFinger[RIGHT][RING]-(1-5.08/6.57)) < 1e-9
''')
plant ('C12-global-cache', 'C12', [
('carpalx.py', "        self._cache : Dict[Tuple[ButtonCombination], float] = dict ()\n", "        self._cache : Dict[Tuple[ButtonCombination], float] = Carpalx._shared\n"),
('carpalx.py', "    __slots__ = ('absEffort', 'N', 'params', '_cache', 'writer')\n", "    __slots__ = ('absEffort', 'N', 'params', '_cache', 'writer')\n\n    _shared = dict ()\n"),
], None, None,
'evaluating the same triad with both models in one process', 'the second model answers with efforts of the first',
'''
from lulua.carpalx import Carpalx, models
w = Writer (defaultLayouts['ar-lulua'].specialize (kbd))
t = (comb ([], 'Dl5'), comb ([], 'Cr6'), comb ([], 'Cl5'))
a = Carpalx (models['mod01'], w)._triadEffort (t)
b = Carpalx (models['salvo'], w)._triadEffort (t)
assert a != b
''')
# ---------------------------------------------------------------- C13
plant ('C13-copy-n', 'C13', 'carpalx.py',
"        c.N = self.N\n", "        c.N = max (self.N, 1)\n",
'copying an instance whose total weight is below one', 'the copy reports another effort',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (defaultLayouts['ar-lulua'].specialize (kbd)))
c.addTriad ((comb ([], 'Cl1'),)*3, 0.25)
assert abs (c.copy ().effort-c.effort) < 1e-9
''')
plant ('C13-reset-cache', 'C13', 'carpalx.py',
"    def reset (self) -> None:\n        self.absEffort = 0.0\n        self.N = 0.0\n", "    def reset (self) -> None:\n        self.absEffort = 0.0\n        self.N = min (getattr (self, 'N', 0.0), 0.0)\n",
'-', '-', 'pass')
PLANTS.pop ()
plant ('C13-negative', 'C13', 'carpalx.py',
"        self.absEffort -= n*self._triadEffort (triad)\n        self.N -= n\n", "        self.absEffort = max (self.absEffort - n*self._triadEffort (triad), 0)\n        self.N -= n\n",
'removing a triad before adding another one of the same weight', 'the order of adding and removing matters',
'''
from lulua.carpalx import Carpalx, models
w = Writer (defaultLayouts['ar-lulua'].specialize (kbd))
a, b = (comb ([], 'Cl1'),)*3, (comb ([], 'Dl1'), comb ([], 'Dr5'), comb ([], 'El3'))
c, d = Carpalx (models['mod01'], w), Carpalx (models['mod01'], w)
c.addTriad (b, 1); c.removeTriad (a, 3); c.addTriad (a, 3)
d.addTriad (b, 1)
assert abs (c.effort-d.effort) < 1e-9, (c.effort, d.effort)
''')
# ---------------------------------------------------------------- C14
OPT = '''
from lulua.stats import makeCombined
import yaml
def opt (l, args, triads):
    st = makeCombined (kbd)
    st['triads'].triads.update (triads)
    r = cli ('optimize', ['-l', l] + args, pickle.dumps (st))
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    return GenericLayout.deserialize (yaml.safe_load (r.stdout)), r
'''
plant ('C14-one-modifier', 'C14', 'optimize.py',
"        for m in l.modifier:\n            layers[i].modifier.append ([k.name for k in m])\n", "        for m in l.modifier:\n            names = [k.name for k in m]\n            if not layers[i].modifier or len (names) == len (layers[i].modifier[0]):\n                layers[i].modifier.append (names)\n",
'a layer with modifiers of different numbers of keys', 'some modifiers are missing in the optimized layout',
OPT + '''
d = tempfile.mkdtemp ()
try:
    p = os.path.join (d, 'l')
    g = lay (([[]], {'Dl1': 'a', 'Dl2': 'b'}), ([['El_shift'], ['Er_shift', 'Fr_altgr']], {'Dl1': 'c'}))
    yaml.dump (g.serialize (), open (p, 'w'))
    n, r = opt (p, ['-n', '1'], {(comb ([], 'Dl1'),)*3: 1})
    assert {frozenset (x) for x in n.layers[1].modifier} == {frozenset (x) for x in g.layers[1].modifier}, n.layers[1].modifier
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C14-randomize-pins', 'C14', 'optimize.py',
"            if self._acceptMutation (self.state.buttonMap, a, b):\n                break\n", "            if not withEnergy or self._acceptMutation (self.state.buttonMap, a, b):\n                break\n",
'randomizing with pins', 'pinned keys are moved by the randomization',
OPT + '''
l = defaultLayouts['ar-lulua']
n, r = opt ('ar-lulua', ['-n', '1', '-r', '-p', '0,*'], {(comb ([], 'Dl1'),)*3: 1})
assert n.layers[0].layout == l.layers[0].layout
''')
plant ('C14-modifier-moved', 'C14', 'optimize.py',
"            if not isinstance (k, LetterButton) or k in modifiers:\n", "            if not isinstance (k, LetterButton) or layout.isModifier (frozenset ([k])):\n",
'a letter key which is part of a multi-key modifier only', 'texts are moved to or from a modifier key',
OPT + '''
d = tempfile.mkdtemp ()
try:
    p = os.path.join (d, 'l')
    g = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'El1': 'x'}), ([['El_shift', 'El1']], {'Dl1': 'c'}))
    yaml.dump (g.serialize (), open (p, 'w'))
    for i in range (3):
        n, r = opt (p, ['-n', '300', '-r'], {(comb ([], 'Dl1'), comb ([], 'Dl2'), comb ([], 'Dl1')): 1})
        assert n.layers[0].layout.get ('El1') == 'x' and 'El1' not in n.layers[1].layout
finally:
    import shutil; shutil.rmtree (d)
''')
# ---------------------------------------------------------------- C15
plant ('C15-last-best', 'C15', 'optimize.py',
"                if newEnergy < self.best[1]:\n", "                if energyDiff < 0:\n",
'an improvement that does not reach the best state seen', 'a worse state replaces the best one',
'''
from lulua.optimize import Annealer
class S:
    def __init__ (self, v): self.v = v
    def copy (self): return S (self.v)
seq = [-5, 4, -1]
class A (Annealer):
    def mutate (self):
        d = seq.pop (0); self.state.v += d; return d
a = A (S (0))
a.coolingFactor = 0
s, e = a.run (3)
assert s.v == -5, s.v
''')
plant ('C15-no-restore', 'C15', 'optimize.py',
"                self.state, energy = prev\n", "                self.state = prev[0]\n                energy = newEnergy\n",
'a rejected mutation', 'the tracked energy is that of the rejected state',
'''
from lulua.optimize import Annealer
class S:
    def __init__ (self, v): self.v = v
    def copy (self): return S (self.v)
seq = [5, 5, -1]
class A (Annealer):
    def mutate (self):
        d = seq.pop (0); self.state.v += d; return d
a = A (S (0))
s, e = a.run (3)
assert s.v == e == -1, (s.v, e)
''')
plant ('C15-energy-model', 'C15', 'optimize.py',
"        carpalx = Carpalx (model, writer)\n", "        carpalx = Carpalx (models['mod01'], writer)\n",
'optimizing with another model', 'the reported effort is that of the default model',
OPT + '''
from lulua.carpalx import Carpalx, models
t = {(comb ([], 'Cl5'), comb ([], 'Cr6'), comb ([], 'Dl5')): 1}
n, r = opt ('ar-lulua', ['-n', '0', '-m', 'salvo'], t)
e = float (r.stderr.decode ().split ('final energy ')[1].split ()[0])
c = Carpalx (models['salvo'], Writer (defaultLayouts['ar-lulua'].specialize (kbd))); c.addTriads (t)
assert abs (c.effort-e) < 1e-6, (c.effort, e)
''')
# ---------------------------------------------------------------- C16
plant ('C16-drop-empty-layer', 'C16', 'layout.py',
"layout=[convertLayer (x) for x in self.layers])", "layout=[convertLayer (x) for x in self.layers if x.layout])",
'a layout with a layer without texts', 'empty layers are not saved',
'''
g = lay (([[]], {'Dl1': 'a'}), (SHIFT, {}), ([['Fr_altgr']], {'Dl1': 'b'}))
assert len (GenericLayout.deserialize (g.serialize ()).layers) == 3
''')
plant ('C16-standard-marked', 'C16', 'keyboard.py',
"        if self.__class__ is not Button:\n            d['kind'] = self.serializedName\n", "        if isinstance (self, (LetterButton, MultiRowButton)) and self.scancode is not None:\n            d['kind'] = self.serializedName\n",
'a letter button without key codes', 'its kind is lost',
'''
b = Button.deserialize (Button.deserialize (dict (name='x', kind='letter')).serialize ())
assert type (b) is LetterButton, type (b)
''')
plant ('C16-layer-alias', 'C16', 'layout.py',
"layout=layer['layer']))", "layout={k: v.strip () or v for k, v in layer['layer'].items ()}))",
'a text with leading or trailing white space', 'texts are changed when loading',
'''
g = lay (([[]], {'Dl1': 'a '}))
assert g.layers[0].layout['Dl1'] == 'a '
''')
# ---------------------------------------------------------------- C17
plant ('C17-klavaro-strip', 'C17', 'render.py',
"            fd.write (''.join (l).strip ('\\n'))\n", "            fd.write (''.join (l).strip ())\n",
'a layout without text on the first or last letter key', 'all keys of the first row are shifted',
WITHDIR + '''
def f ():
    s = render (lay (([[]], {'Bl2': 'a'}), (SHIFT, {'Bl2': 'b'})), 'klavaro')
    assert s[:2] == ' a', repr (s)
go (f)
''')
plant ('C17-ask-row-modifiers', 'C17', 'render.py',
"isinstance (x, LetterButton) and not layout.isModifier (frozenset ([x])), chain (l, r)", "isinstance (x, LetterButton) and any (layout.getButtonText (x)), chain (l, r)",
'a letter key without text', 'keys without text vanish and modifiers with text stay',
WITHDIR + '''
def f ():
    n = render (lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'})), 'ask').count ('<Key ')
    m = render (lay (([[]], {'Dl1': 'a', 'Dl2': 'a'}), (SHIFT, {'Dl1': 'b'})), 'ask').count ('<Key ')
    assert n == m, (n, m)
go (f)
''')
PLANTS.pop ()
plant ('C17-xmodmap-layer-order', 'C17', 'render.py',
"        for i in (0, 1, 2, 4, 3, 99999, 5, 6):\n", "        for i in (0, 1, 2, 3, 4, 99999, 5, 6):\n",
'the fourth layer', 'its texts are at the wrong level',
WITHDIR + '''
def f ():
    s = render (lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}), ([['Dl_caps']], {'Dl1': 'c'}), ([['Fr_altgr']], {'Dl1': 'd'})), 'xmodmap')
    l = [x for x in s.splitlines () if 'U0061' in x][0].split ('=')[1].split ()
    assert l[4] == 'U0064', l
go (f)
''')
plant ('C17-macos-escape', 'C17', 'render.py',
"output=text)", "output=text.strip () or text)",
'a text with white space at its end', 'the white space is lost',
WITHDIR + '''
def f ():
    s = render (lay (([[]], {'Dl1': 'a '})), 'keylayout')
    assert 'output="a "' in s, s
go (f)
''')
plant ('C17-keyman-short', 'C17', 'render.py',
"                    text = ' '.join ([f'U+{ord (x):04X}' for x in text])\n", "                    text = ' '.join ([f'U+{ord (x) & 0xffff:04X}' for x in text])\n",
'a character outside of the basic plane', 'another character is typed',
WITHDIR + '''
def f ():
    assert 'U+1F600' in render (lay (([[]], {'Dl1': chr (0x1f600)})), 'keyman')
go (f)
''')
# ---------------------------------------------------------------- C18
plant ('C18-disabled-base', 'C18', 'winkbd.py',
"    disabled = 0x0F\n", "    disabled = 0x00\n",
'pressing a modifier combination no layer is assigned to', 'the text of the base layer is typed',
'''
from lulua.winkbd import charModifiers
assert '0xf, /* disabled */' in charModifiers ()
''')
plant ('C18-key-name', 'C18', 'winkbd.py',
'    (0xe0, 0x52): "Insert",\n', '    (0xe0, 0x52): "Delete",\n',
'the insert key', 'its name is wrong', '''
from lulua.winkbd import qwertyScancodeToName
assert qwertyScancodeToName[(0xe0, 0x52)] == 'Insert'
''')
plant ('C18-mod4-scancode', 'C18', 'render.py',
"            (0x56, ): (VirtualKey.OEM_8, ),\n", "            (0x57, ): (VirtualKey.OEM_8, ),\n",
'the left modifier of the fourth layer', 'the left key does not select the fourth layer any more',
WITHDIR + '''
def f ():
    import re
    s = render ('ar-lulua', 'winkbd')
    assert len (re.findall ('VIRTUALKEY_OEM_8[ ,]', s)) >= 2
    n = s.split ('ausVK')[1].split ('{', 1)[1].split ('}')[0].split (',')
    assert 'OEM_8' in n[0x56], n[0x55:0x58]
go (f)
''')
# ---------------------------------------------------------------- C19
plant ('C19-corner-swap', 'C19', 'render.py',
"            (0.25, -0.15, 'layer-3'),\n            (0.25, 0.3, 'layer-4'),\n", "            (0.25, 0.3, 'layer-3'),\n            (0.25, -0.15, 'layer-4'),\n",
'texts on the third and fourth layer', 'they are at the wrong corners',
'''
from lulua.render import Renderer
import re
l = spec (([[]], {}), (SHIFT, {}), ([['Fr_altgr']], {'Dl1': 'c'}))
g, _ = Renderer (kbd, layout=l, writer=Writer (l)).render ()
m = re.search (r'<text class="label" [^>]*y="([0-9.]+)"[^>]*><tspan class="layer-3"', g.tostring ())
row = kbd.getRow (kbd['Dl1'])
assert float (m.group (1)) < row*220+100, m.group (0)
''')
plant ('C19-last-width', 'C19', 'render.py',
"            maxWidth = max (cursor[0], maxWidth)\n", "            maxWidth = cursor[0]\n",
'a keyboard whose last row is not the longest', 'keys are outside of the picture',
'''
from lulua.render import Renderer
k = PhysicalKeyboard ('x', 'x', [[[Button ('Bl1'), Button ('Bl2')], []], [[Button ('Cl1')], []]])
r = Renderer (k)
m, (w, h) = r._calcDimensions (k)
assert w >= 420, w
''')
plant ('C19-highlight-size', 'C19', 'render.py',
"            highlight = self.keyHighlight.get (btn.name, 0)\n", "            highlight = self.keyHighlight.get (btn.name, 0) if any (buttonText) else 0\n",
'a heat map with a key that has no text', 'the key is not highlighted',
'''
from lulua.render import Renderer
l = defaultLayouts['ar-lulua'].specialize (kbd)
g, _ = Renderer (kbd, layout=l, writer=Writer (l), keyHighlight={'Fl_ctrl': 1}).render ()
assert g.tostring ().count ('<circle') == 1
''')
plant ('C19-format-stopword', 'C19', 'util.py',
"            short = ''.join (map (lambda x: x[0], stopwords.sub(' ', cleanName).split (' ')))\n", "            short = ''.join (map (lambda x: x[0], stopwords.sub(' ', cleanName).split (' ')))[:3]\n",
'a format character with a long name', 'its abbreviation is cut off',
'''
from lulua.util import displayText
assert displayText ('\\u206b') == '[ASS]', displayText ('\\u206b')
assert displayText ('\\u2062') == '[IT]', displayText ('\\u2062')
assert displayText (chr (0x1bca1)) == '[SFCO]', displayText (chr (0x1bca1))
''')
# ---------------------------------------------------------------- C20
plant ('C20-binned-weight', 'C20', 'plot.py',
"        data = binned[textTriad]\n        data['weight'] += weight\n        data['effort'].addTriad (triad, weight)\n        data['textTriad'] = textTriad\n        data['layers'] = tuple (layout.modifierToLayer (x.modifier)[0] for x in triad)\n        weightSum += weight\n\n    # triads that",
"        data = binned[textTriad]\n        data['weight'] += weight\n        data['effort'].addTriad (triad, 1)\n        data['textTriad'] = textTriad\n        data['layers'] = tuple (layout.modifierToLayer (x.modifier)[0] for x in triad)\n        weightSum += weight\n\n    # triads that",
'the same text typed in two ways with different frequencies', 'the effort is the unweighted mean of both',
'''
from lulua.carpalx import Carpalx, models
l = defaultLayouts['ar-lulua'].specialize (kbd)
x = next (c for t, c in l if len (c) > 1 and all (b.name in models['mod01'].baselineEffort for y in c for b in y))
a, b = (x[0],)*3, (x[0], x[0], x[1])
st = collect (l, '')
st['triads'].triads.update ({a: 1, b: 9})
c = Carpalx (models['mod01'], Writer (l)); c.addTriads ({a: 1, b: 9})
r = cli ('stats', ['-l', 'ar-lulua', 'triadfreq'], pickle.dumps (st))
assert r.returncode == 0, r.stderr
e = float (r.stdout.decode ().split ()[-1])
assert abs (c._triadEffort (a)-c._triadEffort (b)) < 1e-9 or abs (e-c.effort) < 1e-6, (e, c.effort)
assert abs (c._triadEffort (a)-c._triadEffort (b)) > 1e-9
''')
plant ('C20-pretty-combined', 'C20', 'stats.py',
"            combined[k] += v\n", "            combined[k] = v\n",
'runs of the same length for both hands', 'the combined distribution is that of one hand',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
st = collect (l, '')
st['runlen'].perHandRunlenDist[LEFT][1] = 5
st['runlen'].perHandRunlenDist[RIGHT][1] = 7
st['simple'].buttons[kbd['Dl1']] = 1
r = cli ('stats', ['-l', 'ar-lulua', 'pretty'], pickle.dumps (st))
assert r.returncode == 0, r.stderr
s = r.stdout.decode ().split ('combined\\n')[1].splitlines ()[0]
assert s.split ()[:2] == ['1', '12'], s
''')
plant ('C20-characters', 'C20', 'stats.py',
"characters=sum (stats['simple'].combinations.values ())", "characters=sum (stats['simple'].combinations.values ()) + sum (stats['simple'].unknown.values ())",
'untypeable characters', 'they are part of the number of characters',
'''
import yaml
l = defaultLayouts['ar-lulua'].specialize (kbd)
st = collect (l, '\\u0627xyz')
d = tempfile.mkdtemp ()
try:
    p = os.path.join (d, 'm'); open (p, 'w').write ('name: x\\n')
    r = cli ('stats', ['corpusstats', p], pickle.dumps (st))
    assert next (yaml.safe_load_all (r.stdout))['stats']['characters'] == 1, r
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C20-letter-mark', 'C20', 'plot.py',
"            binned[text] += v\n", "            binned[text[0]] += v\n",
'a key producing a letter with a mark', 'it is counted as the letter alone',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
st = collect (l, '\\u0627\\u0627\\u0654')
r = cli ('stats', ['-l', 'ar-linux', 'letterfreq'], pickle.dumps (st))
assert r.returncode == 0, r.stderr
assert '\\\\u0627\\\\u0654' in r.stdout.decode (), 'missing'
''')
plant ('C20-effort-curve', 'C20', 'plot.py',
"        cumulativeEffort += data['effort'].effort * data['weight']\n", "        cumulativeEffort += data['effort'].absEffort if data['weight'] > binWidth else data['effort'].effort\n",
'a triad lighter than a bin', 'its effort is not weighted by its frequency',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
from lulua.carpalx import Carpalx, models
st = collect (l, '')
ks = ('Dl1', 'Dl2', 'Dl3', 'Cl1')
t = {(comb ([], a), comb ([], b), comb ([], 'Cl3')): 1000 if a == b == 'Dl1' else 2 for a in ks for b in ks}
st['triads'].triads.update (t)
r = cli ('stats', ['-l', 'ar-lulua', 'triadeffortdata'], pickle.dumps (st))
assert r.returncode == 0, r.stderr
c = Carpalx (models['mod01'], Writer (l)); c.addTriads (t)
x = pickle.loads (r.stdout)['y'][0]
f = (comb ([], 'Dl1'), comb ([], 'Dl1'), comb ([], 'Cl3'))
e = c._triadEffort (f)*1000/c.absEffort
assert abs (x-e) < 1e-9, (x, e)
''')
# ---------------------------------------------------------------- C21
REP = '''
import shutil
def report (docs, stats):
    d = tempfile.mkdtemp ()
    try:
        with open (os.path.join (d, 'c'), 'w') as fd:
            for n, (w, c) in enumerate (docs):
                fd.write ('name: demo%d\\nsource:\\n  name: {en: x, ar: x}\\n  url: http://example.com\\nlicense: x\\nyear: 2000\\nstats: {words: %d, characters: %d}\\n---\\n' % (n, w, c))
        ls = []
        for l in sorted (x[:-5] for x in os.listdir ('lulua/data/layouts') if x.endswith ('.yaml')):
            p = os.path.join (d, l)
            ls.append (p)
            with open (p, 'wb') as fd:
                pickle.dump (dict (stats, layout=l), fd)
        r = cli ('report', ['-c', os.path.join (d, 'c'), '-l'] + ls)
        assert r.returncode == 0, r.stderr.decode ()[-500:]
        return r.stdout.decode ()
    finally:
        shutil.rmtree (d)
STATS = dict (hands={LEFT: 30, RIGHT: 70}, fingers={(LEFT, INDEX): 10, (LEFT, RING): 20, (RIGHT, MIDDLE): 70}, buttonPresses=100, asymmetry=-0.4, hamzaImpact=0.1, hamzaOnAlef=0.1)
'''
plant ('C21-finger-share', 'C21', 'data/report/index.html',
"	{% set fingerpct = fingercount/stats.buttonPresses*100 %}\n", "	{% set fingerpct = fingercount/(handcount or 1)*100 %}\n",
'the report of any layout', 'the shares of the fingers are those of their hand',
REP + '''
s = report ([(1, 1)], STATS)
assert '>20.00<' in s
''')
plant ('C21-total-last', 'C21', 'data/report/index.html',
"		{% for k in ('words', 'characters') %}\n			{% set i = corpustotal[k]|approx %}\n", "		{% for k in ('words', 'words') %}\n			{% set i = corpustotal[k]|approx %}\n",
'the totals of the English table', 'the total of characters is the total of words',
REP + '''
import re
s = report ([(1000, 7000)], STATS)
assert len (re.findall (r'7[.]0&#x2008;thousand', s)) == 2, s.count ('thousand')
''')
plant ('C21-arabic-units', 'C21', 'report.py',
"'ar': ['', 'ألف', 'مليون', 'مليار']", "'ar': ['', 'ألف', 'مليار', 'مليون']",
'a million in the Arabic table', 'million and billion are exchanged',
'''
from lulua.report import approx
assert approx (10**6, 'ar')[1] == '\\u0645\\u0644\\u064a\\u0648\\u0646'
''')
plant ('C21-separator', 'C21', 'report.py',
"',': '٬', '.': '٫'", "',': '٬', '.': ','",
'a number with decimals', 'the decimal separator is wrong', '''
from lulua.report import arabnum
assert arabnum ('1.5') == '\\u0661\\u066b\\u0665', arabnum ('1.5')
''')
# ---------------------------------------------------------------- C22
plant ('C22-literal-digit', 'C22', 'layout.py',
"            if len (c) == 1:\n                return unicodedata.normalize ('NFD', c)\n", "            if len (c) == 1 and not c.isdigit ():\n                return unicodedata.normalize ('NFD', c)\n",
'a digit given literally', 'it becomes a control character',
'''
fd = StringIO ('KBD a "b"\\nSHIFTSTATE\\n0\\n1\\nLAYOUT\\n02 1 0 1 0021\\n')
layers, _ = GenericLayout.fromKlc (fd)
assert layers[0] == {'Bl2': '1'}, layers[0]
''')
plant ('C22-tabs', 'C22', 'layout.py',
"re.split (r'\\s+', line)", "re.split (r'\\t+', line)",
'columns separated by spaces', 'such lines are ignored',
'''
fd = StringIO ('KBD a "b"\\nSHIFTSTATE\\n0\\n1\\nLAYOUT\\n1e A 0 0061 0041\\n')
layers, _ = GenericLayout.fromKlc (fd)
assert layers[0] == {'Dl1': 'a'}, layers[0]
''')
plant ('C22-switches', 'C22', 'layout.py',
"                3: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')],\n                4: [('Fr_altgr', )],\n", "                3: [('Fr_altgr', )],\n                4: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')],\n",
'a layout with a column for AltGr', 'the modifiers of two layers are exchanged',
'''
fd = StringIO ('KBD a "b"\\nSHIFTSTATE\\n0\\n1\\n6\\nLAYOUT\\n1e A 0 0061 0041 0040\\n')
layers, sw = GenericLayout.fromKlc (fd)
i = [n for n, l in enumerate (layers) if l.get ('Dl1') == '@'][0]
assert ('Fr_altgr', ) in [tuple (x) for x in sw[i]], sw[i]
''')
# ---------------------------------------------------------------- C23
plant ('C23-nnbsp', 'C23', 'text.py',
"    '\\u00a0': ' ',\n", "    '\\u00a0': ' ',\n    '\\u202f': ' ',\n",
'a narrow no-break space', 'it is replaced although a layout may contain it',
'''
from lulua.text import mapChars, charMap
assert mapChars ('\\u202f', charMap) == '\\u202f'
''')
PLANTS.pop ()
plant ('C23-first-crlf', 'C23', 'text.py',
".replace ('\\r\\n', '\\n')", ".replace ('\\r\\n', '\\n', 1000)",
'a text with more than a thousand lines', 'carriage returns stay in the rest of the text',
'''
c = written (['-j', '1', 'ar-linux', 'json'], json.dumps ('\\u0634\\r\\n'*1500) + '\\n')
assert c['simple'].unknown['\\r'] == 0, c['simple'].unknown
''')
plant ('C23-newline', 'C23', 'text.py',
"w.type (StringIO (text))", "w.type (StringIO (text, newline=None))",
'a lone carriage return', 'it is turned into a line feed',
'''
c = written (['-j', '1', 'ar-linux', 'json'], json.dumps ('\\u0634\\r\\u0634') + '\\n')
assert c['simple'].unknown['\\r'] == 1, c['simple'].unknown
''')
plant ('C23-normalized', 'C23', 'text.py',
"    return ''.join (map (lambda x: m.get (x, x), text))\n", "    return ''.join (map (lambda x: m.get (x, x if x < '\\ufb50' else unicodedata.normalize ('NFKC', x)), text))\n",
'an Arabic presentation form', 'it is replaced by another character', '''
from lulua.text import mapChars, charMap
assert mapChars ('\\ufe8d', charMap) == '\\ufe8d'
''')
PLANTS[-1]['edits'].append (('lulua/text.py', 'import sys, argparse, pickle, json, logging, xml.dom.minidom, queue, signal\n', 'import sys, argparse, pickle, json, logging, xml.dom.minidom, queue, signal, unicodedata\n'))
# ---------------------------------------------------------------- C24
plant ('C24-broken-user-file', 'C24', 'util.py',
"            except yaml.reader.ReaderError:\n                pass\n", "            except yaml.YAMLError:\n                pass\n",
'a file of the user that is not valid YAML', 'the shipped definition of that name is used silently',
'''
d = tempfile.mkdtemp ()
old = os.getcwd ()
try:
    os.chdir (d)
    with open ('ar-lulua', 'w') as fd:
        fd.write ('name: [mine\\n')
    try:
        x = defaultLayouts['ar-lulua']
    except KeyError:
        raise
    except Exception:
        pass
    else:
        assert False, x.name
finally:
    os.chdir (old)
    import shutil; shutil.rmtree (d)
''')
plant ('C24-basename', 'C24', 'util.py',
"os.path.join (self.defaultDir, k + '.yaml')", "os.path.join (self.defaultDir, os.path.basename (k) + '.yaml')",
'a path to a file which does not exist', 'the shipped definition with that name is returned instead of an error',
'''
try:
    x = defaultLayouts['/nonexistent/ar-lulua']
except KeyError:
    pass
else:
    assert False, x
''')
