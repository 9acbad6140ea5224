""" Planted bugs, see plant.py. Each is written from the text of a property. """
PLANTS = []

PRE = '''
import sys, os, io, json, pickle, subprocess, tempfile, unicodedata, copy, random
from io import StringIO, BytesIO
from lulua.layout import *
from lulua.keyboard import *
from lulua.writer import Writer, SkipEvent
kbd = defaultKeyboards['ibmpc105']
def lay (*layers, name='demo'):
    return GenericLayout.deserialize ({'name': name, 'layout': [{'modifier': m, 'layer': l} for m, l in layers]})
def spec (*layers):
    return lay (*layers).specialize (kbd)
def comb (mod, btn):
    return ButtonCombination (frozenset (kbd[x] for x in mod), frozenset ([kbd[btn]]))
SHIFT = [['El_shift'], ['Er_shift']]
def cli (name, args, inp=b'', **kw):
    m, f = dict (stats=('stats', 'main'), render=('render', 'render'), write=('text', 'write'),
        optimize=('optimize', 'optimize'), report=('report', 'render'), imp=('layout', 'importFrom'),
        mw=('text', 'extractMediawiki'))[name]
    if isinstance (inp, str):
        inp = inp.encode ()
    return subprocess.run ([sys.executable, '-W', 'ignore', '-c', f'import sys; from lulua.{m} import {f}; sys.exit ({f} ())'] + args, input=inp,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, **kw)
def collect (layout, text):
    from lulua.stats import allStats
    w = Writer (layout)
    st = {c.name: c (w) for c in allStats}
    for _, e in w.type (StringIO (text)):
        for s in st.values ():
            s.process (e)
    return st
def written (args, inp):
    r = cli ('write', args, inp)
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    from lulua.stats import unpickleAll, makeCombined
    c = makeCombined (kbd)
    for x in unpickleAll (BytesIO (r.stdout)):
        for k in c:
            c[k].update (x[k])
    return c
'''

def plant (id, prop, file, old, new, needs, breaks, demo):
    edits = [(f'lulua/{f}', a, b) for f, a, b in file] if isinstance (file, list) else [(f'lulua/{file}', old, new)]
    PLANTS.append (dict (id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))

# ---------------------------------------------------------------- C01
plant ('C01-buffer-last-layer', 'C01', 'layout.py',
'                    self.bufferLen = max (len (v), self.bufferLen)\n',
'            self.bufferLen = max ((len (v) for v in l.layout.values ()), default=self.bufferLen)\n',
'a layout whose longest text is not on its last layer',
'the look-ahead is that of the last layer only, so longer texts of earlier layers are never typed',
'''
l = spec (([[]], {'Dl1': 'ab', 'Dl2': 'a', 'Dl3': 'b'}), (SHIFT, {'Dl1': 'c'}))
got = [m for m, e in Writer (l).type (StringIO ('abab'))]
assert got == ['ab', 'ab'], got
''')
plant ('C01-skip-repeat', 'C01', 'writer.py',
'                buf = buf[1:]\n', '                buf = buf[1:].lstrip (buf[0])\n',
'the same untypeable character twice in a row and a layout with texts longer than one character',
'repetitions of a skipped character disappear without any event',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
ev = list (Writer (l).type (StringIO ('xx')))
assert len (ev) == 2, ev
''')
# ---------------------------------------------------------------- C02
plant ('C02-skip-resets', 'C02', 'writer.py',
'                buf = buf[1:]\n                continue\n', '                buf = buf[1:]\n                self.press (None)\n',
'an untypeable character between two strokes, followed by a text with several combinations',
'a skipped character makes the typist forget the previous stroke',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
ev = [e for m, e in Writer (l).type (StringIO ('\\u0634x '))]
assert ev[-1] == comb ([], 'Fr_space'), ev
''')
plant ('C02-mixed-weights', 'C02', 'writer.py',
'            return (len (comb) << 16) | (abs (balance) << 8) | (abs (prevBalance) << 0)\n',
'            return ((len (comb) + abs (balance)) << 8) | (abs (prevBalance) << 0)\n',
'a one-key and a two-key combination for the same text, where the latter alternates better',
'the number of keys and the balance are added up, so a combination with more keys may win',
'''
w = Writer (defaultLayouts['ar-linux'].specialize (kbd))
w.press (comb ([], 'Dl2'))
c = [comb ([], 'Dl5'), comb (['El_shift'], 'Dr7')]
assert w.chooseCombination (c) == c[0], w.chooseCombination (c)
''')
plant ('C02-last-tie', 'C02', 'writer.py',
'        m = min (zip (map (calcEffort, combinations), combinations), key=itemgetter (0))\n        return m[1]\n',
'        ranked = sorted (zip (map (calcEffort, combinations), combinations), key=itemgetter (0), reverse=True)\n        return ranked[-1][1]\n',
'two combinations which are equally good',
'the last instead of the first of equally good combinations is used',
'''
w = Writer (defaultLayouts['ar-linux'].specialize (kbd))
c = [comb ([], 'Dl1'), comb ([], 'Dl2')]
assert w.chooseCombination (c) == c[0]
''')
# ---------------------------------------------------------------- C03
plant ('C03-overwritten', 'C03', 'layout.py',
'                    t.setdefault (v, [])\n                    for m in l.modifier:\n                        comb = ButtonCombination (m, frozenset ([button]))\n                        t[v].append (comb)\n',
'                    t[v] = [ButtonCombination (m, frozenset ([button])) for m in l.modifier]\n',
'a text on several keys or layers',
'only the last place of a text is known to the lookup',
'''
l = spec (([[]], {'Dl1': 'a', 'Dl2': 'a'}))
assert set (l ('a')[1]) == {comb ([], 'Dl1'), comb ([], 'Dl2')}, l ('a')
''')
plant ('C03-subset-modifier', 'C03', 'layout.py',
'        return mod in self._modifierToLayer\n', '        return mod != frozenset () and any (mod <= m for m in self._modifierToLayer)\n',
'a modifier consisting of several keys',
'single keys of a multi-key modifier are taken for modifiers',
'''
l = spec (([[]], {'Dl1': 'a'}), ([['El_shift', 'Fr_altgr']], {'Dl1': 'b'}))
assert not l.isModifier (frozenset ([kbd['Fr_altgr']]))
assert l.isModifier (frozenset ())
''')
plant ('C03-undefined-answer', 'C03', 'layout.py',
'        return self.modifierToLayer (comb.modifier)[1].layout[first (comb.buttons)]\n',
'        layer = self.modifierToLayer (comb.modifier)[1].layout\n        return layer.get (first (comb.buttons), self.layers[0].layout.get (first (comb.buttons), \'\'))\n',
'looking up a combination the layout does not define',
'undefined combinations are answered with the text of the base layer or an empty text',
'''
l = spec (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl2': 'b'}))
try:
    x = l.getText (comb (['El_shift'], 'Dl1'))
except KeyError:
    pass
else:
    assert False, x
''')
# ---------------------------------------------------------------- C04
plant ('C04-one-modifier', 'C04', 'stats.py',
'            for b in event:\n                self.buttons[b] += 1\n',
'            self.buttons[first (event.buttons)] += 1\n            if event.modifier:\n                self.buttons[first (event.modifier)] += 1\n',
'a combination with a modifier of more than one key',
'only one of several modifier keys is counted',
'''
from lulua.stats import SimpleStats
s = SimpleStats (None)
s.process (comb (['El_shift', 'Fr_altgr'], 'Dl1'))
assert sum (s.buttons.values ()) == 3, s.buttons
''')
plant ('C04-unknown-normalized', 'C04', 'stats.py',
'            self.unknown[event.char] += 1\n', "            self.unknown[unicodedata.normalize ('NFC', event.char)] += 1\n",
'a skipped character with a canonical singleton decomposition like U+212B',
'skipped characters are counted as other characters',
'''
from lulua.stats import SimpleStats
s = SimpleStats (None)
s.process (SkipEvent ('\\u212b'))
assert dict (s.unknown) == {'\\u212b': 1}, s.unknown
''')
# ---------------------------------------------------------------- C05
plant ('C05-shifted-space', 'C05', 'stats.py',
'            if btn not in self._ignored:\n', '            if btn not in self._ignored or event.modifier:\n',
'a stroke on the space key together with a modifier',
'strokes on ignored keys become part of triads if a modifier is held',
'''
from lulua.stats import TriadStats
s = TriadStats (Writer (defaultLayouts['ar-linux'].specialize (kbd)))
for e in (comb ([], 'Dl1'), comb (['El_shift'], 'Fr_space'), comb ([], 'Dl2'), comb ([], 'Dl3')):
    s.process (e)
assert list (s.triads) == [tuple (comb ([], x) for x in ('Dl1', 'Dl2', 'Dl3'))], s.triads
''')
plant ('C05-return-interrupts', 'C05', 'stats.py',
'            btn = first (event.buttons)\n            if btn not in self._ignored:\n',
'            btn = first (event.buttons)\n            if btn.name == \'CD_ret\':\n                self._triad.clear ()\n            elif btn not in self._ignored:\n',
'a return key between the strokes of a triad',
'return interrupts the sequence of strokes',
'''
from lulua.stats import TriadStats
s = TriadStats (Writer (defaultLayouts['ar-linux'].specialize (kbd)))
for e in (comb ([], 'Dl1'), comb ([], 'CD_ret'), comb ([], 'Dl2'), comb ([], 'Dl3')):
    s.process (e)
assert len (s.triads) == 1
''')
# ---------------------------------------------------------------- C06
plant ('C06-first-character', 'C06', 'stats.py',
'''            for t in text:
                cat = unicodedata.category (t)
                if cat in {'Lo', 'Mn'}:
                    # arabic letter or diacritic (non-spacing mark), everything
                    # else is considered a word-delimiter
                    self._currentWord.append (t)
                elif self._currentWord:
                    self.words[''.join (self._currentWord)] += 1
                    self._currentWord = []
''',
'''            cat = unicodedata.category (text[0])
            if cat in {'Lo', 'Mn'}:
                # arabic letter or diacritic (non-spacing mark), everything
                # else is considered a word-delimiter
                self._currentWord.extend (text)
            elif self._currentWord:
                self.words[''.join (self._currentWord)] += 1
                self._currentWord = []
''',
'a key whose text mixes letters and other characters',
'only the first character of a text decides about word boundaries',
'''
l = spec (([[]], {'Dl1': '\\u0634', 'Dl2': '\\u0633.', 'Dl3': ' '}))
st = collect (l, '\\u0634\\u0633.\\u0634 ')
assert dict (st['words'].words) == {'\\u0634\\u0633': 1, '\\u0634': 1}, st['words'].words
''')
plant ('C06-skip-keeps-finger-run', 'C06', 'stats.py',
'            self.lastFinger = None\n            self.fingerRunlen = 0\n        else:\n',
'            self.lastFinger = None\n        else:\n',
'a skipped character in the middle of a finger run',
'the length of an interrupted finger run is added to the next one',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
st = collect (l, '\\u0634x\\u0634\\u0633')
d = {k: dict (v) for k, v in st['runlen'].fingerRunlenDist.items () if v}
assert d == {(LEFT, LITTLE): {1: 1}}, d
''')
plant ('C06-other-hand-same-finger', 'C06', 'stats.py',
'            if self.lastFinger and fingerKey != self.lastFinger:\n', '            if self.lastFinger and thisFinger != self.lastFinger[1]:\n',
'the same finger of both hands typing consecutive characters',
'index finger left followed by index finger right is taken for one run',
'''
from lulua.stats import RunlenStats
s = RunlenStats (Writer (defaultLayouts['ar-linux'].specialize (kbd)))
for x in ('Dl4', 'Dr6', 'Dl4'):
    s.process (comb ([], x))
d = {k: dict (v) for k, v in s.fingerRunlenDist.items () if v}
assert d == {(LEFT, INDEX): {1: 1}, (RIGHT, INDEX): {1: 1}}, d
''')
# ---------------------------------------------------------------- C07
plant ('C07-shared-inner', 'C07', 'stats.py',
'        if k not in a:\n', '        if not a.get (k):\n',
'merging two parts after another into empty run statistics',
'the inner counters of the first part are shared with the sum and changed by later merges',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
a = collect (l, '\\u0634\\u0633\\u062a\\u0634\\u062a')
b = collect (l, '\\u0634\\u062a\\u0634\\u062a\\u0634')
before = pickle.dumps ({k: dict (v) for k, v in a['runlen'].perHandRunlenDist.items ()})
from lulua.stats import makeCombined
c = makeCombined (kbd)
c['runlen'].update (a['runlen'])
c['runlen'].update (b['runlen'])
after = pickle.dumps ({k: dict (v) for k, v in a['runlen'].perHandRunlenDist.items ()})
assert before == after
''')
plant ('C07-pickled-hash', 'C07', 'layout.py',
'        return (self.modifier, self.buttons)\n\n    def __setstate__ (self, state):\n        self.__init__ (modifier=state[0], buttons=state[1])\n',
'        return (self.modifier, self.buttons, self._hash)\n\n    def __setstate__ (self, state):\n        self.modifier, self.buttons, self._hash = state\n',
'statistics pickled by a process which created its keys in another order',
'the hash of the other process is kept and equal combinations are counted separately',
'''
src = PRE0 + """
for x in ('zz1', 'zz2', 'Er1'):
    Button (x)
k = defaultKeyboards['ibmpc105']
sys.stdout.buffer.write (pickle.dumps (ButtonCombination (frozenset (), frozenset ([k['Dl1']]))))
"""
p = subprocess.run ([sys.executable, '-W', 'ignore', '-c', src], stdout=subprocess.PIPE, check=True).stdout
c = pickle.loads (p)
assert c == comb ([], 'Dl1') and hash (c) == hash (comb ([], 'Dl1')), 'hash differs'
'''.replace ('PRE0', repr ('import sys, pickle\nfrom lulua.layout import *\nfrom lulua.keyboard import *\n')))
plant ('C07-word-stats-first-only', 'C07', 'stats.py',
'    for r in unpickleAll (sys.stdin.buffer):\n        for s in allStats:\n            combined[s.name].update (r[s.name])\n',
'    parts = list (unpickleAll (sys.stdin.buffer))\n    while len (parts) > 1:\n        # merge pairwise, which is faster\n        for a, b in zip (parts[::2], parts[1::2]):\n            for s in allStats:\n                a[s.name].update (b[s.name])\n        parts = parts[:len (parts)//2*2:2]\n    for r in parts:\n        for s in allStats:\n            combined[s.name].update (r[s.name])\n',
'a number of statistics files which is not a power of two',
'pairwise merging drops the odd statistics file',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
d = b''.join (pickle.dumps (collect (l, '\\u0634')) for i in range (3))
r = cli ('stats', ['combine'], d)
assert r.returncode == 0, r.stderr
assert sum (pickle.loads (r.stdout)['simple'].buttons.values ()) == 3
''')
# ---------------------------------------------------------------- C08
plant ('C08-shared-writer', 'C08', [
('text.py', "                # init a new writer for every item\n                w = Writer (layout)\n                # stats\n", "                # stats\n"),
('text.py', "            item = inq.get ()\n            if item is None:\n                break\n\n            # extract (can be multiple texts per item)\n",
 "            item = inq.get ()\n            if item is None:\n                break\n\n            w = Writer (layout)\n            # extract (can be multiple texts per item)\n"),
], None, None,
'an item containing several texts, the second one starting with a text that has several combinations',
'texts of one item are typed with the same writer, the first stroke depends on the previous text',
'''
import tarfile
d = tempfile.mkdtemp ()
try:
    fn = os.path.join (d, 'a.tar')
    with tarfile.open (fn, 'w', format=tarfile.GNU_FORMAT) as t:
        for i, s in enumerate (('\\u0634', ' ')):
            b = s.encode ()
            ti = tarfile.TarInfo (f'f{i}'); ti.size = len (b)
            t.addfile (ti, BytesIO (b))
    c = written (['-j', '1', 'ar-linux', 'file', 'tar', 'text'], fn + '\\n')
    assert c['simple'].buttons[kbd['Fl_space']] == 1, c['simple'].buttons
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C08-lost-after-empty', 'C08', 'text.py',
'            itemsProcessed += i\n', '            itemsProcessed = i\n',
'the last item a worker gets contains no text at all, like a malformed XML document',
'everything the worker counted before is dropped',
'''
d = tempfile.mkdtemp ()
try:
    for n, s in (('a', '<d><s>\\u0634</s></d>'), ('b', '<d>')):
        with open (os.path.join (d, n), 'w') as fd:
            fd.write (s)
    c = written (['-j', '1', 'ar-linux', 'file', 'xml', 'opensubtitles'], os.path.join (d, 'a') + '\\n' + os.path.join (d, 'b') + '\\n')
    assert sum (c['simple'].combinations.values ()) == 1
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C08-blank-items', 'C08', 'text.py',
'        for l in sys.stdin:\n', '        for l in filter (str.strip, sys.stdin):\n',
'plain lines which contain white space only',
'empty items are dropped, although they are typed as well',
'''
c = written (['-j', '2', 'ar-linux', 'lines'], '\\u0634\\n\\n\\u0634\\n')
assert c['simple'].buttons[kbd['CD_ret']] == 3, c['simple'].buttons
''')
# ---------------------------------------------------------------- C09
plant ('C09-missing-file', 'C09', 'text.py',
"    with open (item.rstrip (), 'rb') as fd:\n        yield fd\n",
"    try:\n        with open (item.rstrip (), 'rb') as fd:\n            yield fd\n    except OSError as e:\n        logging.error (f'cannot read {item}: {e}')\n",
'a file of the corpus that cannot be read',
'unreadable files are ignored and the import reports success',
'''
r = cli ('write', ['-j', '2', 'ar-linux', 'file', 'text'], '/nonexistent/demo\\n')
assert r.returncode != 0, r.stderr.decode ()[-300:]
''')
plant ('C09-failed-last', 'C09', 'text.py',
"        if isinstance (item, Exception):\n            raise item\n        if item is not None:\n",
"        if isinstance (item, Exception) and results:\n            raise item\n        elif item is not None:\n",
'an item fails in the last worker whose result is read, for instance with a single worker',
'the exception is written to the output as if it were a result and success is reported',
'''
r = cli ('write', ['-j', '1', 'ar-linux', 'json'], '"\\u0634"\\nnonsense\\n')
assert r.returncode != 0, r.stderr.decode ()[-300:]
''')
# ---------------------------------------------------------------- C10
plant ('C10-aligned-member', 'C10', 'text.py',
'        into = pos%blocksize\n        if into != 0:\n            pad = blocksize-into\n            fd.read (pad)\n            pos += pad\n',
'        into = size%blocksize\n        if size > 0:\n            pad = blocksize-into\n            fd.read (pad)\n            pos += pad\n',
'an archive member whose size is a multiple of 512 bytes',
'one block too much is skipped after such a member',
'''
import tarfile
from lulua.text import filterTar
b = BytesIO ()
data = [b'x'*512, b'hello', b'y'*100]
with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
    for i, s in enumerate (data):
        ti = tarfile.TarInfo (f'f{i}'); ti.size = len (s)
        t.addfile (ti, BytesIO (s))
b.seek (0)
got = [x.read () for x in filterTar (b)]
assert got == data, got
''')
plant ('C10-read-zero', 'C10', 'text.py',
'        if num is not None:\n            b = self.buf[0:num]\n', '        if num:\n            b = self.buf[0:num]\n',
'reading zero bytes in between',
'reading zero bytes returns and consumes everything unpacked so far',
'''
import brotli
from lulua.text import BrotliFile
f = BrotliFile (BytesIO (brotli.compress (b'hello world'*10)))
a = f.read (1) + f.read (0) + f.read (4)
assert a == b'hello', a
''')
# ---------------------------------------------------------------- C11
plant ('C11-empty-page', 'C11', 'text.py',
"                text = ''.join (elem.itertext ())\n", "                text = elem.text\n",
'a page without any text in the dump',
'pages without text become null instead of an empty string',
'''
import bz2
d = tempfile.mkdtemp ()
try:
    fn = os.path.join (d, 'a.bz2')
    ns = 'http://www.mediawiki.org/xml/export-0.10/'
    with bz2.open (fn, 'wb') as fd:
        fd.write (f'<mediawiki xmlns="{ns}"><page><revision><text>a</text></revision></page><page><revision><text/></revision></page></mediawiki>'.encode ())
    r = cli ('mw', [fn])
    assert [json.loads (x) for x in r.stdout.decode ().splitlines ()] == ['a', ''], r
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C11-repeated-subtitle', 'C11', 'text.py',
"        out.append (getText (s.childNodes).strip ())\n", "        line = getText (s.childNodes).strip ()\n        if line not in out[-1:]:\n            out.append (line)\n",
'the same sentence twice in a row',
'repeated sentences are extracted only once',
'''
from lulua.text import filterXml, filterOpenSubtitles
doc, = filterXml (BytesIO (b'<d><s>a</s><s>a</s></d>'))
assert list (filterOpenSubtitles (doc)) == ['a\\na']
''')
plant ('C11-xml-stops', 'C11', 'text.py',
"    try:\n        yield xml.dom.minidom.parse (fd)\n    except Exception:\n        logging.error (f'invalid xml document {fd}')\n",
"    try:\n        yield xml.dom.minidom.parse (fd)\n    except xml.parsers.expat.ExpatError:\n        logging.error (f'invalid xml document {fd}')\n",
'an XML document with an unknown encoding in its declaration',
'some malformed documents abort the import instead of being skipped',
'''
from lulua.text import filterXml
assert list (filterXml (BytesIO (b'<?xml version="1.0" encoding="cp-none"?><d><s>a</s></d>'))) == []
assert list (filterXml (BytesIO (b'<?xml version="1.0" encoding="utf-32"?><d><s>a</s></d>'))) == []
''')
plant ('C11-br-lines', 'C11', 'text.py',
"                if name in ('p', 'div'):\n                    yield '\\n\\n'\n",
"                if name in ('p', 'div', 'li'):\n                    yield '\\n\\n'\n",
'a list inside an article',
'list items are separated by blank lines, which are not part of the text',
'''
from lulua.text import filterAvail
r = ''.join (filterAvail['bbcarabic'] (BytesIO (b'<div property="articleBody"><ul><li>a</li><li>b</li></ul></div>')))
assert r == 'ab\\n\\n', repr (r)
''')
# ---------------------------------------------------------------- C12
plant ('C12-cache-ignores-modifier', 'C12', [
('carpalx.py', "        ret = self._cache.get (triad)\n", "        key = tuple (first (x.buttons).i for x in triad) + (sum (map (len, triad)), )\n        ret = self._cache.get (key)\n"),
('carpalx.py', "        self._cache[triad] = ret\n", "        self._cache[key] = ret\n"),
], None, None,
'two triads with the same keys and number of modifiers, but different ones',
'the effort of a triad depends on which similar triad was evaluated first',
'''
from lulua.carpalx import Carpalx, models
w = Writer (defaultLayouts['ar-lulua'].specialize (kbd))
a = (comb (['El_shift'], 'Dl1'), comb ([], 'Dl2'), comb ([], 'Dl3'))
b = (comb ([], 'Dl1'), comb ([], 'Dl2'), comb (['El_shift'], 'Dl3'))
c = Carpalx (models['mod01'], w)
x, y = c._triadEffort (a), c._triadEffort (b)
assert y == Carpalx (models['mod01'], w)._triadEffort (b), (x, y)
''')
plant ('C12-three-keys', 'C12', 'carpalx.py',
'            simultaneousPenalty = (numKeys-1)*kS\n', '            simultaneousPenalty = kS if numKeys > 1 else 0\n',
'a combination of three or more keys',
'the penalty for simultaneous keys does not grow with their number',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (defaultLayouts['ar-lulua'].specialize (kbd)))
t = (comb (['El_shift', 'Fr_altgr'], 'Dl1'), comb ([], 'Dl1'), comb ([], 'Dl1'))
b = c._baseEffort (t, lambda x: 0)
assert b == 2, b
''')
plant ('C12-left-penalties', 'C12', 'carpalx.py',
'        return madd (self.params.w0HRF, (1, params.pHand[hand], params.pRow[row], params.pFinger[hand][finger]))\n',
'        return madd (params.w0HRF, (1, params.pHand[hand], params.pRow[row], params.pFinger[LEFT][finger]))\n',
'the model salvo, whose finger penalties are not symmetric',
'the penalties of the left hand are used for the right one as well',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['salvo'], Writer (defaultLayouts['ar-lulua'].specialize (kbd)))
assert c._penalty (kbd['Dr6']) == 0, c._penalty (kbd['Dr6'])
''')
# ---------------------------------------------------------------- C13
plant ('C13-small-weights', 'C13', 'carpalx.py',
'        if self.N == 0:\n', '        if self.N < 1:\n',
'a total weight below one', 'the effort is zero although triads are included',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (defaultLayouts['ar-lulua'].specialize (kbd)))
t = (comb ([], 'Cl1'),)*3
c.addTriad (t, 0.5)
assert c.effort > 0
''')
plant ('C13-add-replaces', 'C13', 'carpalx.py',
'        for t, n in triads.items ():\n            self.addTriad (t, n)\n',
'        self.absEffort = sum (n*self._triadEffort (t) for t, n in triads.items ())\n        self.N = sum (triads.values ())\n',
'adding several triads at once if there are some already',
'adding many triads replaces those added before',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (defaultLayouts['ar-lulua'].specialize (kbd)))
a, b = (comb ([], 'Cl1'),)*3, (comb ([], 'Dl1'),)*3
c.addTriads ({a: 1})
c.addTriads ({b: 1})
e = (c._triadEffort (a) + c._triadEffort (b))/2
assert abs (c.effort-e) < 1e-9, (c.effort, e)
''')
# ---------------------------------------------------------------- C14
plant ('C14-one-sided-layer-pin', 'C14', 'optimize.py',
"        if a in self.pins or b in self.pins or \\\n                (a[0], None) in self.pins and newa[0] != a[0] or \\\n                (b[0], None) in self.pins and newb[0] != b[0]:\n",
"        if a in self.pins or b in self.pins or \\\n                (a[0], None) in self.pins and newa[0] != newb[0]:\n",
'a layer pin and a swap that was drawn with the pinned layer as second',
'texts leave a pinned layer',
'''
from lulua.optimize import LayoutOptimizer
from lulua.carpalx import models
l = defaultLayouts['ar-lulua'].specialize (kbd)
bm = {(i, k): (i, k) for i in range (2) for k in kbd.keys () if isinstance (k, LetterButton)}
o = LayoutOptimizer (bm, [], l, frozenset ([(0, None)]), Writer (l), models['mod01'])
random.seed (1)
for i in range (200):
    o.mutate (withEnergy=False)
assert all (v[0] == 0 for k, v in o.state.buttonMap.items () if k[0] == 0)
''')
plant ('C14-prefix-pins', 'C14', 'optimize.py',
'            if fnmatch (k.name, match):\n', "            if k.name == match or match.endswith ('*') and k.name.startswith (match[:-1]):\n",
'a pin with a wildcard that is not at the end',
'wildcards other than a trailing star pin nothing',
'''
st = pickle.dumps (collect (defaultLayouts['ar-lulua'].specialize (kbd), open (os.path.join ('lulua', 'data', 'layouts', 'ar-lulua.yaml')).read ()))
r = cli ('optimize', ['-l', 'ar-lulua', '-r', '-n', '5', '--pin', '0,[BCDEF]*;1,?l?;1,?r?'], st)
assert r.returncode == 0, r.stderr.decode ()[-500:]
import yaml
new = GenericLayout.deserialize (yaml.safe_load (r.stdout))
old = defaultLayouts['ar-lulua']
x = [{k: v for k, v in l.layers[1].layout.items () if len (k) == 3} for l in (old, new)]
assert x[0] == x[1]
''')
plant ('C14-mutate-order', 'C14', 'optimize.py',
'    for (i, a), (j, b) in args.mutate:\n', '    for (i, a), (j, b) in sorted (args.mutate):\n',
'several requested swaps that share a key',
'swaps are not applied in the order requested',
'''
st = pickle.dumps (collect (defaultLayouts['ar-lulua'].specialize (kbd), ''))
r = cli ('optimize', ['-l', 'ar-lulua', '-n', '0', '-s', '0,Dl3:0,Dl1', '-s', '0,Dl1:0,Dl2'], st)
assert r.returncode == 0, r.stderr.decode ()[-500:]
import yaml
new = GenericLayout.deserialize (yaml.safe_load (r.stdout)).layers[0].layout
old = defaultLayouts['ar-lulua'].layers[0].layout
d = {x: [k for k in old if new[k] == old[x]][0] for x in ('Dl1', 'Dl2', 'Dl3')}
assert d == {'Dl1': 'Dl2', 'Dl2': 'Dl3', 'Dl3': 'Dl1'}, d
''')
# ---------------------------------------------------------------- C15
plant ('C15-best-not-copied', 'C15', 'optimize.py',
'                    self.best = (self.state.copy (), newEnergy)\n', '                    self.best = (self.state, newEnergy)\n',
'a mutation after the best state was found', 'the best state is changed by later mutations',
'''
from lulua.optimize import Annealer
class S (list):
    def copy (self): return S (self)
class A (Annealer):
    def mutate (self):
        d = self.todo.pop (0)
        self.state[0] += d
        return d
a = A (S ([10])); a.todo = [-5, +1, -1, +3]
best, e = a.run (4)
assert best[0] == 10+e, (best, e)
''')
plant ('C15-limit-before-sort', 'C15', 'optimize.py',
'''    triads = list (sorted (triads.items (), key=itemgetter (1), reverse=True))
    if args.triadLimit > 0:
        triads = triads[:args.triadLimit]
''',
'''    triads = list (triads.items ())
    if args.triadLimit > 0:
        triads = triads[:args.triadLimit]
    triads.sort (key=itemgetter (1), reverse=True)
''',
'a triad limit and statistics whose first triads are not the most frequent ones',
'the effort is that of the first instead of the most frequent triads',
'''
from lulua.carpalx import Carpalx, models
l = defaultLayouts['ar-lulua'].specialize (kbd)
st = collect (l, '')
a, b = (comb ([], 'Cl1'),)*3, (comb ([], 'Dl1'),)*3
st['triads'].triads.update ({a: 1, b: 5})
r = cli ('optimize', ['-l', 'ar-lulua', '-n', '0', '--triad-limit', '1'], pickle.dumps (st))
assert r.returncode == 0, r.stderr.decode ()[-500:]
e = float (r.stderr.decode ().split ('final energy ')[1].split ()[0])
c = Carpalx (models['mod01'], Writer (l)); c.addTriad (b, 5)
assert abs (c.effort-e) < 1e-6, (c.effort, e)
''')
plant ('C15-twice-affected', 'C15', 'optimize.py',
'        affected = set (chain (self.stateToTriad[a], self.stateToTriad[b]))\n',
'        affected = list (chain (self.stateToTriad[a], self.stateToTriad[b]))\n',
'a swap of two keys that occur in the same triad',
'such triads are removed and added twice, the tracked effort drifts away',
'''
from lulua.optimize import LayoutOptimizer
from lulua.carpalx import models
l = defaultLayouts['ar-lulua'].specialize (kbd)
a, b, c = (kbd[x] for x in ('Cl1', 'Dl2', 'El3'))
bm = {(0, k): (0, k) for k in (a, b)}
t = [((comb ([], 'Cl1'), comb ([], 'Dl2'), comb ([], 'Dl2')), 3), ((comb ([], 'Cl1'),)*3, 2)]
o = LayoutOptimizer (bm, t, l, frozenset (), Writer (l), models['mod01'])
o._resetEnergy ()
o.mutate ()
e = o.energy ()
o._resetEnergy ()
assert abs (e-o.energy ()) < 1e-6, (e, o.energy ())
''')
# ---------------------------------------------------------------- C16
plant ('C16-marked-multi', 'C16', 'keyboard.py',
'        super ().__init__ (name, width=width, isMarked=isMarked, scancode=scancode)\n        self.span = span\n',
'        super ().__init__ (name, width=width, scancode=scancode)\n        self.span = span\n',
'a marked button spanning several rows', 'its marker is lost when loading',
'''
b = Button.deserialize (dict (name='x', span=2, kind='multi', isMarked=True))
assert b.isMarked and b.serialize ()['isMarked']
''')
plant ('C16-rounded-width', 'C16', 'keyboard.py',
"        self.width = width\n        # marked", "        self.width = round (width, 2)\n        # marked",
'a width with more than two decimals', 'widths are rounded when loading',
'''
assert Button.deserialize (dict (name='x', width=1.125)).serialize ()['width'] == 1.125
''')
plant ('C16-shallow-copy', 'C16', 'layout.py',
'        layers = copy.deepcopy (self.layers)\n', '        layers = [Layer (list (l.modifier), l.layout) for l in self.layers]\n',
'modifying the copy of a layout', 'copies share their texts with the original',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
k = l.copy ()
k.layers[0].layout[kbd['Dl1']] = 'X'
assert l.layers[0].layout[kbd['Dl1']] != 'X'
''')
# ---------------------------------------------------------------- C17
plant ('C17-keyman-first-modifier', 'C17', 'render.py',
"                for btn, text in l.layout.items ():\n                    comb = ' '.join ([x.scancode['keyman'] for x in m]",
"                for btn, text in l.layout.items ():\n                    comb = ' '.join ([x.scancode['keyman'] for x in list (m)[:1]]",
'a layer selected by several keys at once', 'Keyman rules for multi-key modifiers name one of the keys only',
'''
d = tempfile.mkdtemp ()
try:
    import yaml
    with open (os.path.join (d, 'l'), 'w') as fd:
        yaml.dump (lay (([[]], {'Dl1': 'a'}), ([['El_shift', 'Fr_altgr']], {'Dl1': 'b'})).serialize (), fd)
    r = cli ('render', ['-l', os.path.join (d, 'l'), 'keyman', os.path.join (d, 'o')])
    assert r.returncode == 0, r.stderr
    rule = [x for x in open (os.path.join (d, 'o')).read ().splitlines () if x.endswith ('U+0062')]
    assert len (rule) == 1 and len (rule[0].split ('[')[1].split (']')[0].split ()) == 3, rule
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C17-ask-one-code', 'C17', 'render.py',
"','.join (map (lambda x: str (ord (x)), buttonText[0]))", "''.join (map (lambda x: str (ord (x)), buttonText[0][:1]))",
'a key with a text of several characters', 'only the first character of a key is exported to AnySoftKeyboard',
'''
d = tempfile.mkdtemp ()
try:
    r = cli ('render', ['-l', 'ar-linux', 'ask', os.path.join (d, 'o')])
    assert r.returncode == 0, r.stderr
    from xml.etree import ElementTree as ET
    a = '{http://schemas.android.com/apk/res/android}'
    for k in ET.parse (os.path.join (d, 'o')).iter ('Key'):
        if k.get (a + 'keyLabel'):
            assert ''.join (chr (int (x)) for x in k.get (a + 'codes').split (',')) == k.get (a + 'keyLabel'), k.attrib
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C17-macos-composed', 'C17', 'render.py',
"output=text)", "output=unicodedata.normalize ('NFC', text))",
'a key with a decomposed text, like alef with hamza', 'the macOS export types other characters than the layout defines',
'''
d = tempfile.mkdtemp ()
try:
    r = cli ('render', ['-l', 'ar-linux', 'keylayout', os.path.join (d, 'o')])
    assert r.returncode == 0, r.stderr
    s = open (os.path.join (d, 'o'), encoding='utf-8').read ()
    assert '\\u0627\\u0654' in s and '\\u0623' not in s
finally:
    import shutil; shutil.rmtree (d)
''')
plant ('C17-xmodmap-empty-modifier', 'C17', 'render.py',
"                if not m:\n                    continue\n                btn = first (m)\n                keycodeMap[btn] = layerMap[i]\n",
"                if not m:\n                    continue\n                btn = first (m)\n                keycodeMap[btn] = layerMap[min (i, 2)]\n",
'a layout with four layers', 'modifiers of the fourth layer select the third one in xmodmap',
'''
d = tempfile.mkdtemp ()
try:
    r = cli ('render', ['-l', 'ar-lulua', 'xmodmap', os.path.join (d, 'o')])
    assert r.returncode == 0, r.stderr
    s = open (os.path.join (d, 'o'), encoding='utf-8').read ()
    assert 'ISO_Level3_Lock' in s
finally:
    import shutil; shutil.rmtree (d)
''')
# ---------------------------------------------------------------- C18
plant ('C18-max-modifiers', 'C18', 'winkbd.py',
"            '\\t24,',\n", "            '\\t25,',\n",
'pressing both level keys together with shift (modifier state 25)', 'the system reads behind the end of the modifier table',
'''
from lulua.winkbd import charModifiers
s = charModifiers ()
import re
n = int (re.search (r'^\\t(\\d+),$', s, re.M).group (1))
assert len (re.findall (r'^\\t\\t0x', s, re.M)) == n+1, n
''')
plant ('C18-no-terminator', 'C18', 'winkbd.py',
"    ret.append ('\\t{0, 0x0}')\n    ret.append ('\\t};\\n')\n", "    ret.append ('\\t};\\n')\n",
'walking the modifier keys up to the end of the table', 'the table of modifier keys is not terminated',
'''
from lulua.winkbd import vkToBits
import re
e = re.findall (r'\\{([^{}]*)\\}', vkToBits ().split ('=', 1)[1])
assert e[-1].split (',')[0].strip () == '0', e
''')
plant ('C18-nul-for-none', 'C18', 'winkbd.py',
"                if s is None:\n                    return WChar.NONE.cdefName\n", "                if s is None:\n                    return '0'\n",
'typing an unassigned place of a key that has text on other layers', 'the driver types a NUL character instead of nothing',
'''
from lulua.winkbd import vkToWchar, VirtualKey, WChar
s = vkToWchar ([(VirtualKey.A, 0, ['a', None])])
line = [x for x in s.splitlines () if VirtualKey.A.cdefName in x][0]
assert WChar.NONE.cdefName in line, line
''')
# ---------------------------------------------------------------- C19
plant ('C19-leading-mark', 'C19', 'util.py',
"    if all (map (lambda x: unicodedata.combining (x) != 0, text)):\n", "    if unicodedata.combining (text[0]) != 0:\n",
'a text starting with a combining mark followed by a letter', 'texts that are no lonely marks get a dotted circle',
'''
from lulua.util import displayText
assert displayText ('\\u0651\\u0634') == '\\u0651\\u0634'
''')
plant ('C19-faint-highlight', 'C19', 'render.py',
"            if highlight > 0:\n", "            if round (highlight, 2) > 0:\n",
'a key pressed less than a two-hundredth as often as the most frequent one', 'rarely used keys are not highlighted at all',
'''
from lulua.render import Renderer
l = defaultLayouts['ar-lulua'].specialize (kbd)
g, _ = Renderer (kbd, layout=l, writer=Writer (l), keyHighlight={'Dl1': 1, 'Dl2': 0.001}).render ()
assert g.tostring ().count ('<circle') == 2
''')
plant ('C19-heat-total', 'C19', 'render.py',
"        maxHeat = max (args.heatmap['buttons'].values ())\n", "        maxHeat = max (v for k, v in args.heatmap['buttons'].items () if not k.endswith ('space'))\n",
'a heat map in which a space key is the most pressed one', 'highlights are relative to another key and exceed full opacity',
'''
d = tempfile.mkdtemp ()
try:
    for f in ('Thin', 'Regular'):
        p = os.path.join (d, '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2')
        os.makedirs (p, exist_ok=True)
        open (os.path.join (p, f'IBMPlexSansArabic-{f}.woff2'), 'wb').close ()
    with open (os.path.join (d, 'h'), 'w') as fd:
        fd.write ('buttons: {Fl_space: 10, Dl1: 5}\\ntotal: 15\\n')
    r = cli ('render', ['-l', 'ar-lulua', 'svg', '--heatmap', 'h', 'o'], cwd=d)
    assert r.returncode == 0, r.stderr
    import re
    o = sorted (float (x) for x in re.findall (r'opacity: ([0-9.e-]+)', open (os.path.join (d, 'o')).read ().split ('class="highlight"')[1]))
    assert o == [0.5, 1], o
finally:
    import shutil; shutil.rmtree (d)
''')
# ---------------------------------------------------------------- C20
plant ('C20-partial-hamza', 'C20', 'stats.py',
"        if match != letter:\n            # not a single key or single combination\n            continue\n", "        if not match:\n            # not a single key or single combination\n            continue\n",
'a layout without a key for one of the letters with hamza', 'alef is counted as alef with hamza',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
st = collect (l, '\\u0627\\u0627\\u0648')
r = cli ('stats', ['-l', 'ar-lulua', 'layoutstats'], pickle.dumps (st))
assert r.returncode == 0, r.stderr
d = pickle.loads (r.stdout)
assert d['hamzaImpact'] == 0, d
''')
plant ('C20-truncated-log', 'C20', 'stats.py',
"        return 255+int (round (math.log (p, 1.15)))\n", "        return 255+int (math.log (p, 1.15))\n",
'any word with a probability between two steps', 'word probabilities are not rounded to the nearest step',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
st = collect (l, '')
import math
st['words'].words.update ({'a': 10, 'b': 9, 'c': 7})
r = cli ('stats', ['latinime'], pickle.dumps (st))
for x in r.stdout.decode ().splitlines ()[2:]:
    w, f = x.strip ().split (',')
    e = 255+round (math.log (st['words'].words[w[-1]]/26, 1.15))
    assert int (f[2:]) == e, (x, e)
''')
plant ('C20-heatmap-combinations', 'C20', 'stats.py',
"    buttons = {}\n    buttonPresses = sum (stats['simple'].buttons.values ())\n", "    buttons = {}\n    buttonPresses = sum (stats['simple'].combinations.values ())\n",
'any key press with a modifier', 'the total of the heat map is not the sum of its keys',
'''
import yaml
l = defaultLayouts['ar-lulua'].specialize (kbd)
st = collect (l, '')
for s in st.values ():
    s.process (comb (['El_shift'], 'Dl1'))
d = yaml.safe_load (cli ('stats', ['-l', 'ar-lulua', 'keyheatmap'], pickle.dumps (st)).stdout)
assert d['total'] == sum (d['buttons'].values ()), d
''')
plant ('C20-cutoff', 'C20', 'plot.py',
"        if topTriadsWeight < weightSum*args.cutoff:\n", "        if topTriadsWeight+data['weight'] <= weightSum*args.cutoff:\n",
'a cutoff which falls inside the weight of a triad', 'too few triads are listed, or smaller ones without larger ones',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
st = collect (l, '')
t = {(comb ([], x),)*3: n for x, n in (('Cl1', 6), ('Dl1', 4), ('Dl2', 1))}
st['triads'].triads.update (t)
r = cli ('stats', ['-l', 'ar-lulua', 'triadfreq', '-c', '0.5'], pickle.dumps (st))
assert r.returncode == 0, r.stderr
assert [x.split ()[1] for x in r.stdout.decode ().splitlines ()] == ['6'], r.stdout.decode ()
''')
# ---------------------------------------------------------------- C21
plant ('C21-tenths', 'C21', 'report.py',
"    f = Fraction (n).limit_denominator (maxdenom)\n", "    f = Fraction (round (n*maxdenom), maxdenom)\n",
'a number whose best fraction has another denominator than ten', 'fractions are tenths instead of the best approximation',
'''
from lulua.report import fraction
assert fraction (1/3) == '1\\u20443', fraction (1/3)
''')
plant ('C21-double-rounding', 'C21', 'report.py',
"        i /= base\n", "        i = round (i/base, 3)\n",
'a number which is just below a rounding boundary', 'numbers are rounded twice and show a wrong decimal',
'''
from lulua.report import approx
from decimal import Decimal
n = 1149999
assert approx (n)[0] == Decimal ('1.1'), approx (n)
''')
plant ('C21-one-document', 'C21', 'report.py',
"            corpus.extend (filter (lambda x: x is not None, yaml.safe_load_all (fd)))\n", "            corpus.append (next (filter (lambda x: x is not None, yaml.safe_load_all (fd))))\n",
'a metadata file with several documents', 'only the first corpus of each file is part of the report and totals',
'''
d = tempfile.mkdtemp ()
try:
    import re
    doc = lambda n: 'name: demo%d\\nsource:\\n  name: x\\n  uri: http://example.com\\nlicense: x\\nyear: 2000\\nstats: {characters: %d, words: %d}\\n---\\n' % (n, n, n)
    with open (os.path.join (d, 'c'), 'w') as fd:
        fd.write (doc (123456789) + doc (234567890))
    ls = []
    for l in sorted (x[:-5] for x in os.listdir ('lulua/data/layouts') if x.endswith ('.yaml')):
        p = os.path.join (d, l)
        ls.append (p)
        with open (p, 'wb') as fd:
            pickle.dump (dict (layout=l, hands={LEFT: 1, RIGHT: 1}, fingers={(h, f): 1 for h in Direction for f in FingerType}, buttonPresses=2, asymmetry=0., hamzaImpact=0.1, hamzaOnAlef=0.1), fd)
    r = cli ('report', ['-c', os.path.join (d, 'c'), '-l'] + ls)
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    s = r.stdout.decode ()
    assert re.search ('358[.]0', s), 'total is missing'
finally:
    import shutil; shutil.rmtree (d)
''')
# ---------------------------------------------------------------- C22
plant ('C22-compat', 'C22', 'layout.py',
"            return unicodedata.normalize ('NFD', chr (n))\n", "            return unicodedata.normalize ('NFKD', chr (n))\n",
'a character with a compatibility decomposition, like a ligature', 'ligatures are replaced by other characters',
'''
fd = StringIO ('KBD a "b"\\nSHIFTSTATE\\n0\\n1\\nLAYOUT\\n1e A 0 fefb 0061\\n')
layers, _ = GenericLayout.fromKlc (fd)
assert layers[0]['Dl1'] == '\\ufefb', layers[0]
''')
plant ('C22-swapped-keys', 'C22', 'layout.py',
"            'OEM_COMMA': 'Er3',\n            'OEM_PERIOD': 'Er2',\n            'OEM_2': 'Er1',\n", "            'OEM_PERIOD': 'Er3',\n            'OEM_COMMA': 'Er2',\n            'OEM_2': 'Er1',\n",
'the comma and period keys', 'two keys are exchanged',
'''
fd = StringIO ('KBD a "b"\\nSHIFTSTATE\\n0\\n1\\nLAYOUT\\n33 OEM_COMMA 0 002c 0061\\n')
layers, _ = GenericLayout.fromKlc (fd)
assert layers[0] == {'Er3': ','}, layers[0]
''')
plant ('C22-absent', 'C22', 'layout.py',
"            if n == -1:\n                return None\n", "            if n <= 0:\n                n = 0\n",
'an entry marked as absent by -1', 'absent entries become NUL characters',
'''
fd = StringIO ('KBD a "b"\\nSHIFTSTATE\\n0\\n1\\nLAYOUT\\n1e A 0 0061 -1\\n')
layers, _ = GenericLayout.fromKlc (fd)
assert layers[1] == {}, layers[1]
''')
# ---------------------------------------------------------------- C23
plant ('C23-persian-digit', 'C23', 'text.py',
"    '7': '٧',\n", "    '7': '\\u06f7',\n",
'a digit seven', 'it becomes the look-alike extended Arabic-Indic digit',
'''
from lulua.text import mapChars, charMap
assert mapChars ('7', charMap) == '\\u0667'
''')
plant ('C23-lone-cr', 'C23', 'text.py',
".replace ('\\r\\n', '\\n')", ".replace ('\\r', '')",
'a carriage return without line feed', 'lone carriage returns are removed',
'''
c = written (['-j', '1', 'ar-linux', 'json'], json.dumps ('a\\rb') + '\\n')
assert c['simple'].unknown['\\r'] == 1, c['simple'].unknown
''')
plant ('C23-ligature-hamza', 'C23', 'text.py',
"    '\ufef7': '\u0644\u0627\u0654',\n", "    '\ufef7': '\u0644\u0627\u0655',\n",
'the lam-alef ligature with hamza above', 'it becomes lam-alef with hamza below',
'''
from lulua.text import mapChars, charMap
assert mapChars ('\\ufef7', charMap) == '\\u0644\\u0627\\u0654', ascii (mapChars ('\\ufef7', charMap))
''')
# ---------------------------------------------------------------- C24
plant ('C24-cached-data', 'C24', [
('util.py', "    __slots__ = ('defaultDir', 'deserialize')\n", "    __slots__ = ('defaultDir', 'deserialize', '_cache')\n"),
('util.py', "        self.deserialize = deserialize\n", "        self.deserialize = deserialize\n        self._cache = {}\n"),
('util.py', "                with f (k) as fd:\n                    return self.deserialize (yaml.safe_load (fd))\n",
 "                # loading YAML is slow\n                if (k, onlyRes) not in self._cache:\n                    with f (k) as fd:\n                        self._cache[(k, onlyRes)] = yaml.safe_load (fd)\n                return self.deserialize (self._cache[(k, onlyRes)])\n"),
], None, None,
'changing a layout returned by a lookup and looking it up again',
'later lookups return layouts containing the change',
'''
l = defaultLayouts['ar-lulua']
l.layers[0].layout['Dl1'] = 'X'
assert defaultLayouts['ar-lulua'].layers[0].layout['Dl1'] != 'X'
''')
plant ('C24-user-files-listed', 'C24', 'util.py',
"                yield self.__getitem__ (res, onlyRes=True)\n", "                yield self[res]\n",
'a file named like a shipped definition in the current directory', 'iterating lists files of the user',
'''
d = tempfile.mkdtemp ()
old = os.getcwd ()
try:
    os.chdir (d)
    with open ('ar-lulua.yaml', 'w') as fd:
        fd.write ('name: mine\\nlayout: []\\n')
    assert 'mine' not in {x.name for x in defaultLayouts}
finally:
    os.chdir (old)
    import shutil; shutil.rmtree (d)
''')
