""" Fifth round of planted bugs, see plant.py. """
from plants import plant, PLANTS
from plants2 import WITHDIR
from plants4 import HEAT

# ---------------------------------------------------------------- C01
plant ('C01-format-lost', 'C01', 'writer.py',
"                yield None, SkipEvent (buf[0])\n", "                if unicodedata.category (buf[0]) != 'Cf':\n                    yield None, SkipEvent (buf[0])\n",
'untypeable format characters', 'they are dropped without any event',
'''
l = spec (([[]], {'Dl1': 'a'}))
assert len (list (Writer (l).type (StringIO ('a\\u200ea')))) == 3
''')
plant ('C01-eight', 'C01', 'layout.py',
"                    self.bufferLen = max (len (v), self.bufferLen)\n", "                    self.bufferLen = max (min (len (v), 8), self.bufferLen)\n",
'texts of more than eight characters', 'they are never matched',
'''
l = spec (([[]], {'Dl1': 'abcdefghijk', 'Dl2': 'a'}))
assert [m for m, e in Writer (l).type (StringIO ('abcdefghijk'))] == ['abcdefghijk']
''')
plant ('C01-reread', 'C01', 'writer.py',
"            if not buf:\n                break\n", "            if not buf:\n                break\n            if len (buf) > 1 and buf[0] == buf[1] and buf[0] not in self.layout.t:\n                buf = buf[1:]\n",
'x', 'y', '''
l = spec (([[]], {'Dl1': 'ab'}))
assert len (list (Writer (l).type (StringIO ('xxab')))) == 3
''')
# ---------------------------------------------------------------- C02
plant ('C02-packed', 'C02', 'writer.py',
"            return (len (comb) << 16) | (abs (balance) << 8) | (abs (prevBalance) << 0)\n", "            return (len (comb) << 4) | (abs (balance) << 2) | (abs (prevBalance) << 0)\n",
'modifiers made of three or more keys of one hand', 'the criteria overlap',
'''
l = spec (([[]], {'Dr1': 'x', 'Dl1': 'y'}), ([['El_shift', 'El1', 'Dl_caps', 'Bl1']], {'Dl1': 'a'}), ([['El_shift', 'El1', 'Dl_caps', 'Er_shift']], {'Dl2': 'a'}), ([['El_shift', 'El1', 'Er1', 'Er_shift']], {'Dl2': 'a'}))
got = [e for m, e in Writer (l).type (StringIO ('a'))]
assert len (got[0].modifier & {kbd['Er1']}) == 1, got
''')
plant ('C02-unambiguous', 'C02', 'writer.py',
"                self.press (comb)\n", "                if len (combinations) > 1 or not comb.modifier:\n                    self.press (comb)\n",
'an unambiguous stroke with modifier before an ambiguous one', 'the stroke before it is considered instead',
'''
l = spec (([[]], {'Dl1': 'a', 'Fl_space': ' ', 'Fr_space': ' '}), ([['Er_shift']], {'Dl1': 'A'}))
got = [e for m, e in Writer (l).type (StringIO ('aA '))]
assert got[-1] == comb ([], 'Fl_space'), got
''')
plant ('C02-newline', 'C02', 'writer.py',
"                self.press (comb)\n", "                self.press (comb if match != '\\n' else None)\n",
'a line break before an ambiguous stroke', 'the line break is not considered as previous stroke',
'''
l = spec (([[]], {'Dl1': 'a', 'El_shift': 'x', 'CD_ret': '\\n', 'Fl_space': ' ', 'Fr_space': ' '}), ([['Er_shift']], {'Dl1': '\\n'}))
l = spec (([[]], {'Cl_tab': '\\n', 'Fl_space': ' ', 'Fr_space': ' '}))
got = [e for m, e in Writer (l).type (StringIO ('\\n '))]
assert got[-1] == comb ([], 'Fr_space'), got
''')
# ---------------------------------------------------------------- C03
plant ('C03-case', 'C03', 'keyboard.py',
"            if k.name == name:\n", "            if k.name.lower () == name.lower ():\n",
'a keyboard with keys whose names differ in case only', 'texts of one are attributed to the other',
'''
k = PhysicalKeyboard ('x', 'x', [[[Button ('Ka'), Button ('kA')], []]])
l = lay (([[]], {'Ka': 'a', 'kA': 'b'})).specialize (k)
assert [c.buttons for c in l ('b')[1]] == [frozenset ([Button ('kA')])]
''')
plant ('C03-no-modifier', 'C03', 'layout.py',
"        return mod in self._modifierToLayer\n", "        return len (mod) > 0 and mod in self._modifierToLayer\n",
'the empty key set, which selects the base layer', 'it is not a modifier although a layer is selected by it',
'''
l = spec (([[]], {'Dl1': 'a'}))
assert l.isModifier (frozenset ())
''')
plant ('C03-empty-layer-text', 'C03', 'layout.py',
"        for l in self.layers:\n            yield l.layout.get (button, None)\n", "        for l in self.layers:\n            if l.layout:\n                yield l.layout.get (button, None)\n",
'a layout with an empty layer', 'the texts of a key appear on the wrong layer',
'''
l = spec (([[]], {'Dl1': 'a'}), (SHIFT, {}), ([['Dl_caps']], {'Dl1': 'b'}))
assert list (l.getButtonText (kbd['Dl1'])) == ['a', None, 'b']
''')
# ---------------------------------------------------------------- C04
plant ('C04-printable', 'C04', 'stats.py',
"            self.unknown[event.char] += 1\n", "            if event.char.isprintable () or event.char.isspace ():\n                self.unknown[event.char] += 1\n",
'untypeable control characters', 'they are not counted',
'''
l = spec (([[]], {'Dl1': 'a'}))
assert dict (collect (l, 'a\\x01')['simple'].unknown) == {'\\x01': 1}
''')
plant ('C04-saturates', 'C04', 'stats.py',
"            self.combinations[event] += 1\n", "            self.combinations[event] = min (self.combinations[event] + 1, 0xffff)\n",
'more than 65535 uses of one combination', 'the counter sticks',
'''
from lulua.stats import SimpleStats
s = SimpleStats (None)
for i in range (70000):
    s.process (comb ([], 'Dl1'))
assert s.combinations[comb ([], 'Dl1')] == 70000
''')
# ---------------------------------------------------------------- C05
plant ('C05-multi-mod', 'C05', 'stats.py',
"            if btn not in self._ignored:\n", "            if btn not in self._ignored and len (event.modifier) < 3:\n",
'strokes with a modifier made of three keys', 'they are missing in triads',
'''
l = spec (([['El_shift', 'Dl_caps', 'El1']], {'Dl1': 'a'}))
assert sum (collect (l, 'aaa')['triads'].triads.values ()) == 1
''')
plant ('C05-long', 'C05', 'stats.py',
"                    self._triad = self._triad[1:]\n                    assert len (self._triad) == 3\n", "                    self._triad = self._triad[1:] if self.triads[tuple (self._triad[:3])] < 10000 else []\n",
'the same triad more than 10000 times', 'some are lost',
'''
l = spec (([[]], {'Dl1': 'a'}))
assert sum (collect (l, 'a'*20002)['triads'].triads.values ()) == 20000
''')
# ---------------------------------------------------------------- C06
plant ('C06-nfc', 'C06', 'stats.py',
"                    self.words[''.join (self._currentWord)] += 1\n", "                    self.words[unicodedata.normalize ('NFC', ''.join (self._currentWord))] += 1\n",
'words with decomposed characters', 'they are counted in composed form',
'''
l = spec (([[]], {'Dl1': '\\u0627', 'Dl2': '\\u0654', 'Dl3': ' '}))
assert dict (collect (l, '\\u0627\\u0654 ')['words'].words) == {'\\u0627\\u0654': 1}
''')
plant ('C06-thumbs', 'C06', 'stats.py',
"            fingerKey = (thisHand, thisFinger)\n", "            fingerKey = (thisHand, thisFinger) if thisFinger != THUMB else (self.lastHand, thisFinger)\n",
'x', 'y', '''
l = spec (([[]], {'Fl_space': 'a', 'Fr_space': 'b', 'Dl1': 'c'}))
s = collect (l, 'abc')
assert s['runlen'].fingerRunlenDist[(LEFT, THUMB)] == {1: 1}
''')
plant ('C06-thumb-run', 'C06', 'stats.py',
"            if self.lastFinger and fingerKey != self.lastFinger:\n", "            if self.lastFinger and fingerKey != self.lastFinger and not (thisFinger == THUMB == self.lastFinger[1]):\n",
'both thumbs one after the other', 'their runs are taken as one',
'''
l = spec (([[]], {'Fl_space': 'a', 'Fr_space': 'b', 'Dl1': 'c'}))
s = collect (l, 'abc')
assert s['runlen'].fingerRunlenDist[(LEFT, THUMB)] == {1: 1}
''')
# ---------------------------------------------------------------- C07
plant ('C07-type', 'C07', 'stats.py',
"                a[k] = op (a[k], v)\n", "                a[k] = op (a[k], v) & 0x7fffffffffffffff\n",
'x', 'y', '''
from lulua.stats import SimpleStats
a, b = SimpleStats (None), SimpleStats (None)
a.unknown['x'] = b.unknown['x'] = 2**62
a.update (b)
assert a.unknown['x'] == 2**63
''')
plant ('C07-missing-hand', 'C07', 'stats.py',
"        updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)\n", "        if all (other.perHandRunlenDist.values ()):\n            updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)\n",
'a part in which only one hand has finished runs', 'its runs are ignored',
'''
from lulua.stats import RunlenStats
l = spec (([[]], {'Dl1': 'a', 'Dr1': 'b'}))
a, b = collect (l, '')['runlen'], collect (l, 'aab')['runlen']
a.update (b)
assert a.perHandRunlenDist[LEFT] == {2: 1}
''')
plant ('C07-first-part', 'C07', 'stats.py',
"        for s in allStats:\n            combined[s.name].update (r[s.name])\n", "        for s in allStats:\n            if combined[s.name] != r[s.name]:\n                combined[s.name].update (r[s.name])\n",
'a part that equals the sum of all parts before it', 'it is left out',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
p = pickle.dumps (collect (l, '\\u0634 '))
s = pickle.loads (cli ('stats', ['combine'], p*2).stdout)
assert sum (s['simple'].combinations.values ()) == 4
''')
# ---------------------------------------------------------------- C08
plant ('C08-many-items', 'C08', 'text.py',
"            statusq.put (i)\n            itemsProcessed += i\n", "            statusq.put (i)\n            itemsProcessed = (itemsProcessed + i) & 0xfff\n",
'a worker that processes exactly a multiple of 4096 texts', 'its result is dropped',
'''
c = written (['-j', '1', 'ar-linux', 'lines'], '\\u0634\\n'*4096)
assert sum (c['simple'].combinations.values ()) == 8192
''')
plant ('C08-repeated-text', 'C08', [
('text.py', "        itemsProcessed = 0\n", "        itemsProcessed = 0\n        known = dict ()\n"),
('text.py', "                stats = [cls(w) for cls in allStats]\n                for match, event in w.type (StringIO (text)):\n                    for s in stats:\n                        s.process (event)\n",
"                stats = known.get (text)\n                if stats is None:\n                    stats = known[text] = [cls(w) for cls in allStats]\n                for match, event in w.type (StringIO (text)):\n                    for s in stats:\n                        s.process (event)\n"),
], None, None,
'the same text several times in one worker', 'texts are counted several times',
'''
c = written (['-j', '1', 'ar-linux', 'lines'], '\\u0634\\n'*3)
assert sum (c['simple'].combinations.values ()) == 6
''')
plant ('C08-stdin-cr', 'C08', 'text.py',
"        for l in sys.stdin:\n", "        for l in map ('{}\\n'.format, sys.stdin.read ().splitlines ()):\n",
'lines containing a line or paragraph separator, a form feed or similar', 'they are split into several items',
'''
c = written (['-j', '1', 'ar-linux', 'lines'], '\\u0634\\u2028\\u0634\\n')
assert c['simple'].unknown['\\u2028'] == 1, c['simple'].unknown
''')
plant ('C08-last-line', 'C08', 'text.py',
"        for l in sys.stdin:\n", "        for l in filter (lambda x: x.endswith ('\\n'), sys.stdin):\n",
'input whose last line has no line end', 'the last item is ignored',
'''
c = written (['-j', '1', 'ar-linux', 'lines'], '\\u0634\\n\\u0634')
assert sum (c['simple'].combinations.values ()) == 3
''')
plant ('C08-keyboard', 'C08', 'text.py',
"    layout = defaultLayouts[args.layout].specialize (keyboard)\n    filterSel", "    layout = defaultLayouts[args.layout].specialize (defaultKeyboards['ibmpc105'])\n    filterSel",
'x', 'y', '''
''')
# ---------------------------------------------------------------- C09
plant ('C09-stdin-decode', 'C09', 'text.py',
"    except KeyboardInterrupt:\n        pass\n\n    # exit workers\n", "    except (KeyboardInterrupt, ValueError):\n        pass\n\n    # exit workers\n",
'input that is not valid UTF-8', 'the rest of the input is ignored and success is reported',
'''
r = cli ('write', ['-j', '1', 'ar-linux', 'lines'], b'a\\n\\xff\\nb\\n', env=dict (os.environ, PYTHONIOENCODING='utf-8:strict'))
assert r.returncode != 0
''')
plant ('C09-epub', 'C09', 'text.py',
"    book = epub.read_epub (item.rstrip ())\n", "    try:\n        book = epub.read_epub (item.rstrip ())\n    except Exception:\n        logging.error (f'invalid ebook {item}')\n        return\n",
'an EPUB file that cannot be read', 'it is ignored and success is reported',
'''
r = cli ('write', ['-j', '1', 'ar-linux', 'epub'], '/nonexistent\\n')
assert r.returncode != 0
''')
plant ('C09-magic', 'C09', 'text.py',
"        assert header[257:257+8] == b'ustar  \\0', (header[257:257+8])\n", "        if header[257:257+8] != b'ustar  \\0':\n            logging.error ('not a tar archive')\n            break\n",
'a file that is no tar archive', 'it is ignored and success is reported',
WITHDIR + '''
def f ():
    p = os.path.join (d, 'x')
    with open (p, 'wb') as fd:
        fd.write (b'x'*2000)
    r = cli ('write', ['-j', '1', 'ar-linux', 'file', 'tar', 'text'], p + '\\n')
    assert r.returncode != 0
go (f)
''')
plant ('C09-index', 'C09', 'text.py',
"    except Exception as e:\n        # async exceptions\n        out.send (e)\n", "    except (IndexError, RecursionError):\n        logging.exception ('item failed')\n        out.send (None)\n    except Exception as e:\n        # async exceptions\n        out.send (e)\n",
'an item whose processing exceeds the recursion limit, such as deeply nested JSON', 'the worker stops and its work is lost, success is reported',
'''
r = cli ('write', ['-j', '1', 'ar-linux', 'json'], '['*200000 + '\\n')
assert r.returncode != 0
''')
plant ('C09-null', 'C09', 'text.py',
"    yield json.loads (item)\n", "    text = json.loads (item)\n    if text is not None:\n        yield text\n",
'a JSON item that is null', 'it is ignored and success is reported',
'''
r = cli ('write', ['-j', '1', 'ar-linux', 'json'], '"a"\\nnull\\n')
assert r.returncode != 0
''')
# ---------------------------------------------------------------- C10
plant ('C10-bom', 'C10', 'text.py',
"    yield fd.read ().decode ('utf-8')\n", "    yield fd.read ().decode ('utf-8-sig')\n",
'a file that starts with a byte order mark', 'its first character is dropped',
'''
from lulua.text import filterAvail
assert list (filterAvail['text'] (BytesIO ('\\ufeffa'.encode ()))) == ['\\ufeffa']
''')
plant ('C10-flush', 'C10', 'text.py',
"            self.buf += self.decompressor.process (data)\n", "            data = self.decompressor.process (data)\n            if not data:\n                break\n            self.buf += data\n",
'a stream whose first part does not produce any output yet', 'the stream ends early',
'''
from lulua.text import BrotliFile
import brotli
x = os.urandom (100)*50
b = BrotliFile (BytesIO (brotli.compress (x)), 1)
got = b''
while len (got) < len (x):
    y = b.read (100)
    if not y:
        break
    got += y
assert got == x
''')
plant ('C10-zero-file', 'C10', 'text.py',
"        if header == b'' or header == emptyblock:\n", "        if header == b'' or header[:100] == emptyblock[:100]:\n",
'a member with an empty name', 'the archive ends there',
'''
import tarfile
from lulua.text import filterTar
b = BytesIO ()
with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
    for n in ('', 'b'):
        i = tarfile.TarInfo (n); i.size = 1
        t.addfile (i, BytesIO (b'x'))
b.seek (0)
assert len (list (filterTar (b))) == 2
''')
# ---------------------------------------------------------------- C11
plant ('C11-tei-div', 'C11', 'text.py',
"            for p in body.getElementsByTagName ('p'):\n", "            for p in filter (lambda x: x.nodeName == 'p', body.childNodes):\n",
'paragraphs inside of divisions', 'they are not extracted',
'''
from lulua.text import filterXml, filterTEI2
doc, = filterXml (BytesIO (b'<TEI.2><text><body><div><p><s>a</s></p></div></body></text></TEI.2>'))
assert ''.join (filterTEI2 (doc)).strip () == 'a'
''')
plant ('C11-first-node', 'C11', 'text.py',
"    return ''.join(rc)\n", "    return ''.join(rc[:1] if not ''.join (rc[1:]).strip () else rc)\n",
'x', 'y', '''
''')
plant ('C11-node-space', 'C11', 'text.py',
"            rc.append(node.data)\n", "            rc.append(node.data.strip ('\\n'))\n",
'a sentence with a line break between two of its text nodes', 'words are joined',
'''
from lulua.text import filterXml, filterOpenSubtitles
doc, = filterXml (BytesIO (b'<d><s>a\\n<time/>b</s></d>'))
assert list (filterOpenSubtitles (doc)) == ['a\\nb']
''')
plant ('C11-redirect', 'C11', 'text.py',
"                json.dump (text, sys.stdout, ensure_ascii=False)\n                sys.stdout.write ('\\n')\n", "                if not text.upper ().startswith ('#REDIRECT'):\n                    json.dump (text, sys.stdout, ensure_ascii=False)\n                    sys.stdout.write ('\\n')\n",
'a redirect page', 'there is no line for it',
WITHDIR + '''
import bz2
def f ():
    fn = os.path.join (d, 'a.bz2')
    with bz2.open (fn, 'wb') as fd:
        fd.write ('<mediawiki xmlns="http://www.mediawiki.org/xml/export-0.10/"><page><revision><text>#REDIRECT [[x]]</text></revision></page></mediawiki>'.encode ())
    assert json.loads (cli ('mw', [fn]).stdout) == '#REDIRECT [[x]]'
go (f)
''')
plant ('C11-charset', 'C11', 'text.py',
"    document = html5lib.parse (fd)\n    walker", "    document = html5lib.parse (fd, transport_encoding='utf-8')\n    walker",
'a page that declares another encoding', 'its characters are garbled',
'''
from lulua.text import filterAvail
p = '<html><head><meta charset="windows-1256"></head><body><div property="articleBody">\\u0634</div></body></html>'.encode ('cp1256')
assert '\\u0634' in ''.join (filterAvail['bbcarabic'] (BytesIO (p)))
''')
plant ('C11-space-run', 'C11', 'text.py',
"                yield token['data']\n", "                yield token['data'].replace ('\\n', ' ')\n",
'line breaks inside of the text', 'they become spaces',
'''
from lulua.text import filterAvail
r = ''.join (filterAvail['bbcarabic'] (BytesIO (b'<div property="articleBody"><pre>a\\nb</pre></div>')))
assert 'a\\nb' in r
''')
plant ('C11-epub-basename', 'C11', 'text.py',
"    for item in book.get_items_of_type (ebooklib.ITEM_DOCUMENT):\n", "    for item in {x.get_name ().split ('/')[-1]: x for x in book.get_items_of_type (ebooklib.ITEM_DOCUMENT)}.values ():\n",
'chapters of the same file name in different directories', 'only one of them is extracted',
WITHDIR + '''
from ebooklib import epub
from lulua.text import filterEpub
def f ():
    b = epub.EpubBook (); b.set_identifier ('x'); b.set_title ('x'); b.set_language ('ar')
    for n in 'ab':
        c = epub.EpubHtml (title=n, file_name=f'{n}/c.xhtml', lang='ar'); c.content = f'<p>{n}{n}{n}</p>'
        b.add_item (c); b.spine.append (c)
    b.add_item (epub.EpubNcx ())
    p = os.path.join (d, 'x.epub')
    epub.write_epub (p, b)
    t = ''.join (filterEpub (p + '\\n'))
    assert 'aaa' in t and 'bbb' in t
go (f)
''')
plant ('C11-comment', 'C11', 'text.py',
"            elif type == \"Comment\":\n                pass\n", "            elif type == \"Comment\":\n                yield ' '\n",
'a comment inside a word', 'the word is split',
'''
from lulua.text import filterAvail
assert ''.join (filterAvail['bbcarabic'] (BytesIO (b'<div property="articleBody">a<!-- x -->b</div>'))) == 'ab\\n\\n'
''')
# ---------------------------------------------------------------- C12
plant ('C12-unordered', 'C12', [
('carpalx.py', "        ret = self._cache.get (triad)\n", "        triad = triad if triad[0] != triad[2] else (triad[2], triad[1], triad[0])\n        ret = self._cache.get ((triad[0], frozenset (triad[1:])))\n"),
('carpalx.py', "        self._cache[triad] = ret\n", "        self._cache[(triad[0], frozenset (triad[1:]))] = ret\n"),
], None, None,
'two triads that differ in the order of the last two strokes', 'the second one gets the effort of the first',
'''
from lulua.carpalx import Carpalx, models
w = Writer (spec (([[]], {'Dl1': 'a'})))
t = [comb ([], x) for x in ('Dl1', 'Bl1', 'Er5')]
a = Carpalx (models['mod01'], w)
x = a._triadEffort (tuple (t))
y = a._triadEffort ((t[0], t[2], t[1]))
assert y == Carpalx (models['mod01'], w)._triadEffort ((t[0], t[2], t[1]))
''')
plant ('C12-same-key-mod', 'C12', 'carpalx.py',
"            perButton = [f (btn) for btn in comb]\n", "            perButton = [f (btn) for btn in comb.modifier | comb.buttons]\n",
'x', 'y', '')
plant ('C12-path-modifier', 'C12', 'carpalx.py',
"                for singleBtnTriad in product (*map (iter, triad))]\n", "                for singleBtnTriad in product (*(list (x)[-2:] for x in triad))]\n",
'combinations with modifiers made of several keys', 'some of the stroke paths are not considered',
'''
from lulua.carpalx import Carpalx, models
w = Writer (spec (([[]], {'Dl1': 'a'})))
c = Carpalx (models['mod01'], w)
from itertools import product
for m in (['El_shift', 'Dl_caps', 'Fr_altgr'], ['Er_shift', 'El1', 'Bl1'], ['Fr_altgr', 'Dl_caps', 'Er1']):
    t = (comb (m, 'Dr3'), comb (m, 'Cl5'), comb (m, 'Er5'))
    import lulua.carpalx as cx
    s = min (cx.madd (c.params.fHRF, c._strokePath (x)) for x in product (*map (iter, t)))
    b = c._baseEffort (t, lambda x: c.params.baselineEffort[x.name])
    p = c._baseEffort (t, c._penalty)
    assert abs (c._triadEffort (t) - cx.madd (c.params.kBPS, (b, p, s))) < 1e-9
''')
# ---------------------------------------------------------------- C13
plant ('C13-int', 'C13', 'carpalx.py',
"        self.absEffort += n*self._triadEffort (triad)\n        self.N += n\n", "        self.absEffort += n*self._triadEffort (triad)\n        self.N += max (n, 1)\n",
'weights below one', 'the average is too small',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (spec (([[]], {'Dl1': 'a'}))))
t = tuple (comb ([], x) for x in ('Dl1', 'Bl1', 'Er5'))
c.addTriad (t, 0.5)
assert abs (c.effort - c._triadEffort (t)) < 1e-9
''')
plant ('C13-copy-reset', 'C13', 'carpalx.py',
"    def reset (self) -> None:\n", "    def reset (self) -> None:\n        self._cache.clear () if len (self._cache) > 100000 else None\n",
'x', 'y', '')
plant ('C13-addall', 'C13', 'carpalx.py',
"        for t, n in triads.items ():\n            self.addTriad (t, n)\n", "        for t, n in triads.items ():\n            if n > 0:\n                self.addTriad (t, n)\n",
'negative weights given for many triads at once', 'they are ignored',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (spec (([[]], {'Dl1': 'a'}))))
t = tuple (comb ([], x) for x in ('Dl1', 'Bl1', 'Er5'))
u = tuple (comb ([], x) for x in ('Dl1', 'Bl1', 'Er4'))
c.addTriads ({t: 5, u: 3})
c.addTriads ({t: -2})
assert c.N == 6
''')
# ---------------------------------------------------------------- C14
plant ('C14-special-upper', 'C14', 'optimize.py',
"                newLayer, newK = i, k\n", "                newLayer, newK = i, k\n                if i > 1:\n                    continue\n",
'texts on special keys such as the space bar of the third layer', 'they disappear',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'Dl3': 'c'}), (SHIFT, {'Dl1': 'A'}), ([['Dl_caps']], {'Fl_space': '\\u00a0'}))
    r = cli ('optimize', ['-l', layfile (l), '-n', '5'], pickle.dumps (collect (l.specialize (kbd), 'abcabc')))
    assert yaml.safe_load (r.stdout)['layout'][2]['layer'] == {'Fl_space': '\\u00a0'}, r
go (f)
''')
plant ('C14-json', 'C14', 'optimize.py',
"    yaml.dump (newLayout.serialize (), sys.stdout)\n", "    import json\n    json.dump (newLayout.serialize (), sys.stdout)\n",
'characters outside of the basic plane', 'they become surrogates when the file is loaded',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'Dl3': '\\U0001f600'}))
    r = cli ('optimize', ['-l', layfile (l), '-n', '5'], pickle.dumps (collect (l.specialize (kbd), 'abab')))
    assert sorted (yaml.safe_load (r.stdout)['layout'][0]['layer'].values ()) == ['a', 'b', '\\U0001f600'], r
go (f)
''')
plant ('C14-question-pin', 'C14', 'optimize.py',
"            if fnmatch (k.name, match):\n", "            if fnmatch (k.name, match) if '*' in match else k.name == match:\n",
'a pin with ? as wildcard', 'it has no effect',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'Bl1': 'c', 'Bl2': 'd'}))
    s = pickle.dumps (collect (l.specialize (kbd), 'abcd'*5))
    for i in range (3):
        r = cli ('optimize', ['-l', layfile (l), '-n', '200', '-r', '-p', '0,Dl?'], s)
        x = yaml.safe_load (r.stdout)['layout'][0]['layer']
        assert x.get ('Dl1') == 'a' and x.get ('Dl2') == 'b', x
go (f)
''')
# ---------------------------------------------------------------- C15
plant ('C15-no-reset', 'C15', 'optimize.py',
"        carpalx.reset ()\n        for t, v in self.triads:\n", "        for t, v in self.triads:\n",
'an optimizer that is run twice', 'the energy of the second run is wrong',
'''
from lulua.optimize import LayoutOptimizer
from lulua.carpalx import models
l = spec (([[]], {x: x[-1] for x in ('Dl1', 'Dl2', 'Dl3', 'Cl4', 'Bl5')}))
st = collect (l, '12345412351423'*3)
keys = [(0, kbd[x]) for x in ('Dl1', 'Dl2', 'Dl3', 'Cl4', 'Bl5', 'Er1', 'Er2')]
o = LayoutOptimizer (dict (zip (keys, keys)), list (st['triads'].triads.items ()), l, [], Writer (l), models['mod01'])
random.seed (3)
o.run (steps=200)
o.run (steps=200)
e = o.energy ()
o.state.carpalx.reset ()
o._resetEnergy ()
assert abs (o.energy () - e) < 1e-6, (o.energy (), e)
''')
plant ('C15-long-run', 'C15', 'optimize.py',
"                if newEnergy < self.best[1]:\n", "                if newEnergy < self.best[1] and (progress < 0.999 or acceptDiff > 1e-5):\n",
'an improvement in the last thousandth of the steps', 'it is not taken',
'''
from lulua.optimize import Annealer
class S:
    def __init__ (self, v): self.v = v
    def copy (self): return S (self.v)
class A (Annealer):
    def mutate (self):
        self.state.v += 1
        return -1
assert A (S (0)).run (steps=5000)[0].v == 5000
''')
# ---------------------------------------------------------------- C16
plant ('C16-empty-text', 'C16', 'layout.py',
"layout=layer['layer']))\n        return cls", "layout={k: v for k, v in layer['layer'].items () if v}))\n        return cls",
'x', 'y', '')
plant ('C16-modifier-sorted', 'C16', 'layout.py',
"            modifier = [list (x) for x in l.modifier]\n", "            modifier = [list (x) for x in sorted (set (l.modifier), key=sorted)]\n",
'a layer whose modifiers are not in alphabetical order', 'their order, and thus which one is preferred, changes',
'''
l = lay (([['b'], ['a']], {}))
assert l.serialize ()['layout'][0]['modifier'] == [['b'], ['a']]
''')
plant ('C16-description', 'C16', 'keyboard.py',
"        return cls (data['name'], data['description'], rows)\n", "        return cls (data['name'], data['description'].strip (), rows)\n",
'a description with white space around it', 'it changes',
'''
k = PhysicalKeyboard ('x', ' x\\n', [])
assert PhysicalKeyboard.deserialize (k.serialize ()).description == ' x\\n'
''')
plant ('C16-pickled-keyboard', 'C16', 'keyboard.py',
"                self._buttonToRow[btn] = i\n", "                self._buttonToRow.setdefault (btn, i)\n",
'x', 'y', '')
# ---------------------------------------------------------------- C17
plant ('C17-keyman-mod-once', 'C17', 'render.py',
"            for m in l.modifier:\n                for x in m:\n                    keymanCode", "            for m in {x: x for x in map (frozenset, l.modifier)} if i < 3 else l.modifier[:1]:\n                for x in m:\n                    keymanCode",
'a fourth layer with several modifiers', 'only the first one works with Keyman',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}), ([['Fr_altgr']], {'Dl1': 'c'}), ([['El_shift', 'Fr_altgr'], ['Er_shift', 'Fr_altgr']], {'Dl1': 'd'}))
    assert render (l, 'keyman').count ('U+0064') == 2
go (f)
''')
plant ('C17-macos-multi', 'C17', 'render.py',
"        for btn, text in l.layout.items ():\n            ET.SubElement (keymap", "        for btn, text in unique (l.layout.items (), key=lambda x: x[0].scancode['macos'] if i == 0 else x[1]):\n            ET.SubElement (keymap",
'the same text on two keys of an upper layer', 'one of the keys is missing in the macOS layout',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b', 'Dl2': 'b'}))
    assert render (l, 'keylayout').count ('output="b"') == 2
go (f)
''')
plant ('C17-klavaro-space', 'C17', 'render.py',
"            fd.write (''.join (l).strip ('\\n'))\n", "            fd.write ('\\n'.join (map (str.rstrip, ''.join (l).strip ('\\n').split ('\\n'))))\n",
'x', 'y', WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}))
    x = render (l, 'klavaro').split ('\\n')
    assert len (set (map (len, x[:4]))) > 1 and len (x[0]) == 13
go (f)
''')
plant ('C17-xmodmap-surrogate', 'C17', 'render.py',
"                        text = specialMap.get (text, f'U{ord (text):04X}')\n", "                        text = specialMap.get (text, f'U{ord (text) & 0xffff:04X}')\n",
'characters outside of the basic plane', 'another character is assigned in xmodmap',
WITHDIR + '''
def f ():
    assert 'U1F600' in render (lay (([[]], {'Dl1': '\\U0001f600'})), 'xmodmap')
go (f)
''')
# ---------------------------------------------------------------- C18
plant ('C18-altgr', 'C18', 'winkbd.py',
"    fLocaleFlags: (0 & 0xffffUL)", "    fLocaleFlags: (1 & 0xffffUL)",
'the right alt key', 'Windows treats it as control and alt, the layer of that key is not reachable',
'''
from lulua.winkbd import makeDriverSources, qwertyScancodeToVk
import re
s = makeDriverSources (qwertyScancodeToVk, [])
import shutil
d = tempfile.mkdtemp ()
try:
    with open (os.path.join (d, 'a.c'), 'w') as fd:
        fd.write (s + '\\nint main () { return (KbdLayerDescriptor ()->fLocaleFlags & 0xffff) ? 1 : 0; }\\n')
    subprocess.check_call (['gcc', '-w', '-o', os.path.join (d, 'a'), os.path.join (d, 'a.c')])
    subprocess.check_call ([os.path.join (d, 'a')])
finally:
    shutil.rmtree (d)
''')
plant ('C18-caps', 'C18', 'render.py',
"            wcharMap.append ((vk, 0, mappedText))\n", "            wcharMap.append ((vk, 1 if mappedText[0] and mappedText[0].isdigit () else 0, mappedText))\n",
'number keys', 'the caps lock state changes their text',
WITHDIR + '''
def f ():
    import re
    assert not re.search (r'\\{VIRTUALKEY_\\w+, [1-9]', render ('ar-lulua', 'winkbd'))
go (f)
''')
plant ('C18-e1', 'C18', 'winkbd.py',
"    (0xe1, 0x1d): (VirtualKey.PAUSE, ),\n", "    (0xe1, 0x1d): (VirtualKey.PAUSE, VirtualKeyFlag.MULTIVK),\n",
'x', 'y', '')
# ---------------------------------------------------------------- C19
plant ('C19-style', 'C19', 'render.py',
"    style += args.style.read ().decode ('utf-8')\n", "    style += args.style.read ().decode ('ascii', 'ignore')\n",
'x', 'y', '')
plant ('C19-right-row', 'C19', 'render.py',
"            cursor[0] += settings.middleGap\n", "            cursor[0] += settings.middleGap if l else 0\n",
'x', 'y', '')
plant ('C19-long-label', 'C19', 'render.py',
"                    t.add (svgwrite.text.TSpan (text, class_=style))\n", "                    t.add (svgwrite.text.TSpan (text[:4], class_=style))\n",
'keys with a text of more than four characters', 'their label is cut off',
WITHDIR + HEAT + '''
def f ():
    s = svg (lay (([[]], {'Dl1': 'abcdef'})))
    assert any (x.text == 'abcdef' for x in s.iter ())
go (f)
''')
plant ('C19-mixed-mark', 'C19', 'util.py',
"    if all (map (lambda x: unicodedata.combining (x) != 0, text)):\n", "    if all (map (lambda x: unicodedata.category (x) == 'Mn', text)):\n",
'non-spacing marks with combining class zero', 'they are shown with a dotted circle although they are not combining',
'''
from lulua.util import displayText
assert displayText ('\\ufe0f') == '\\ufe0f'
''')
plant ('C19-modifier-mark', 'C19', 'render.py',
"            if btn.isMarked:\n", "            if btn.isMarked and not isModifier:\n",
'a layout that uses a key with a haptic mark as modifier', 'the mark is missing',
WITHDIR + HEAT + '''
def f ():
    s = svg (lay (([[]], {'Dl1': 'a'}), ([['Dl4']], {'Dl1': 'b'})))
    assert sum (x.get ('class') == 'marker' for x in s.iter ()) == 2
go (f)
''')
# ---------------------------------------------------------------- C20
plant ('C20-bins', 'C20', 'plot.py',
"    binWidth = weightSum//nBins\n", "    binWidth = max (weightSum//nBins, 1)\n",
'x', 'y', '')
plant ('C20-words-unique', 'C20', 'stats.py',
"            words=sum (stats['words'].words.values ()))\n", "            words=sum (v for k, v in stats['words'].words.items () if len (k) > 1))\n",
'words of a single letter', 'they are missing in the corpus totals',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
import shutil, yaml
d = tempfile.mkdtemp ()
try:
    with open (os.path.join (d, 'm'), 'w') as fd:
        fd.write ('a: b')
    r = cli ('stats', ['-l', 'ar-linux', 'corpusstats', os.path.join (d, 'm')], pickle.dumps (collect (l, '\\u0634 \\u0634\\u0634 ')))
    assert next (yaml.safe_load_all (r.stdout))['stats']['words'] == 2
finally:
    shutil.rmtree (d)
''')
plant ('C20-corpus-yaml', 'C20', 'stats.py',
"    meta['stats'] = dict (characters", "    meta.setdefault ('stats', {})\n    meta['stats'] = meta['stats'] or dict (characters",
'a metadata file that already contains totals', 'they are not replaced',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
import shutil, yaml
d = tempfile.mkdtemp ()
try:
    with open (os.path.join (d, 'm'), 'w') as fd:
        fd.write ('stats: {words: 9, characters: 9}')
    r = cli ('stats', ['-l', 'ar-linux', 'corpusstats', os.path.join (d, 'm')], pickle.dumps (collect (l, '\\u0634 \\u0634\\u0634 ')))
    assert next (yaml.safe_load_all (r.stdout))['stats']['words'] == 2
finally:
    shutil.rmtree (d)
''')
plant ('C20-heat-zero', 'C20', 'stats.py',
"        assert k.name not in data\n        buttons[k.name] = v\n", "        assert k.name not in data\n        if v/buttonPresses >= 0.00001:\n            buttons[k.name] = v\n",
'very rare keys', 'they are missing in the heat map',
'''
import yaml
l = defaultLayouts['ar-linux'].specialize (kbd)
s = collect (l, '\\u0634\\u0633')
s['simple'].buttons[kbd['Dl1']] = 10**7
r = cli ('stats', ['-l', 'ar-linux', 'keyheatmap'], pickle.dumps (s))
assert len (yaml.safe_load (r.stdout)['buttons']) == 2, r
''')
plant ('C20-tie', 'C20', 'plot.py',
"        if topTriadsWeight < weightSum*args.cutoff:\n", "        if topTriadsWeight + data['weight'] <= weightSum*args.cutoff or not topTriads:\n",
'a cutoff inside of a triad', 'the listed triads contribute less than the given share',
'''
l = defaultLayouts['ar-linux'].specialize (kbd)
s = collect (l, '\\u0634'*3 + '\\0' + '\\u0633'*3 + '\\0' + '\\u064a'*3)
r = cli ('stats', ['-l', 'ar-linux', 'triadfreq', '-c', '0.5'], pickle.dumps (s))
assert len (r.stdout.decode ().splitlines ()) == 2, r.stdout
''')
# ---------------------------------------------------------------- C21
REPORT = '''
import shutil, yaml
d = tempfile.mkdtemp ()
def page (corpora, stats={}):
    from lulua.layout import LEFT, RIGHT, FingerType
    files = []
    for i, c in enumerate (corpora):
        p = os.path.join (d, f'c{i}')
        with open (p, 'w') as fd:
            yaml.dump (c, fd)
        files.append (p)
    ls = []
    for n in 'ar-lulua ar-asmo663 ar-linux ar-malas ar-phonetic ar-osman ar-khorshid ar-osx ar-idlebi ar-alramly ar-ergoarabic ar-qtaish'.split ():
        p = os.path.join (d, n)
        x = dict (layout=n, hands={LEFT: 3, RIGHT: 1}, fingers={(LEFT, LITTLE): 3, (RIGHT, RING): 1}, buttonPresses=4, asymmetry=0.5, hamzaImpact=0.1, hamzaOnAlef=0.2)
        x.update (stats.get (n, {}))
        with open (p, 'wb') as fd:
            pickle.dump (x, fd)
        ls.append (p)
    r = cli ('report', ['-c', *files, '-l', *ls])
    assert r.returncode == 0, r.stderr.decode ()[-800:]
    return r.stdout.decode ()
def corpus (name, w, c, **kw):
    return dict (source=dict (name=dict (en=name, ar=name), url='http://x/'), stats=dict (words=w, characters=c), **kw)
def go (f):
    try:
        f ()
    finally:
        shutil.rmtree (d)
'''
plant ('C21-count', 'C21', 'data/report/index.html',
"				<td>{{ '{:7,d}'.format(count.num)|numspace }}&#x2008;{{ count.kind.en }}</td>\n", "				<td>{{ '{:7,d}'.format((count.num/10)|int*10)|numspace }}&#x2008;{{ count.kind.en }}</td>\n",
'x', 'y', '')
plant ('C21-same-name', 'C21', 'data/report/index.html',
"		{% for c in corpus|sort(attribute='source.name.en') %}\n		<tr lang=\"ar\">", "		{% for c in corpus|unique(attribute='source.name.en')|sort(attribute='source.name.en') %}\n		<tr lang=\"ar\">",
'x', 'y', '')
plant ('C21-finger-pct', 'C21', 'data/report/index.html',
"		{% set fingerpct = fingercount/stats.buttonPresses*100 %}\n", "		{% set fingerpct = fingercount/(handcount or 1)*handpct if fingercount > 1 else 0 %}\n",
'a finger that is used only once', 'its percentage is zero',
REPORT + '''
def f ():
    x = page ([corpus ('a', 1, 2)])
    assert x.count ('>25.00<') == 12, x.count ('>25.00<')
go (f)
''')
plant ('C21-empty-corpus', 'C21', 'report.py',
"            corpus.extend (filter (lambda x: x is not None, yaml.safe_load_all (fd)))\n", "            corpus.extend (filter (lambda x: x is not None and x['stats']['words'], yaml.safe_load_all (fd)))\n",
'a corpus without words', 'its characters are missing in the total',
REPORT + '''
def f ():
    x = page ([corpus ('aaa', 0, 900), corpus ('bbb', 1, 50)])
    assert '950.0' in x and 'aaa' in x
go (f)
''')
plant ('C21-layout-key', 'C21', 'report.py',
"            layoutstats[d['layout']] = d\n", "            layoutstats.setdefault (d['layout'], d)\n",
'x', 'y', '')
plant ('C21-approx-negative', 'C21', 'report.py',
"    i = Decimal (i)\n", "    i = Decimal (float (i))\n",
'numbers with more than 15 digits', 'the shown number is that of a slightly different number',
'''
from lulua.report import approx
from decimal import Decimal
n = 10**24 + 5*10**7 + 1
v, u = approx (n)
assert abs (v*10**9 - n) <= Decimal ('0.05')*10**9, (v, u)
''')
# ---------------------------------------------------------------- C22
KLC = WITHDIR + '''
def klc (text):
    p = os.path.join (d, 'x.klc')
    with open (p, 'w', encoding='utf16') as fd:
        fd.write (text)
    r = cli ('imp', [p, 'klc'])
    assert r.returncode == 0, r.stderr.decode ()[-500:]
    return yaml.safe_load (r.stdout)
'''
plant ('C22-empty-layers', 'C22', 'layout.py',
"'modifier': [list (x) for x in layerSwitches[i]]} for i, l in enumerate (layers)]}\n", "'modifier': [list (x) for x in layerSwitches[i]]} for i, l in enumerate (filter (None, layers))]}\n",
'a source without characters in one of the columns', 'later layers get the modifiers of others',
KLC + '''
def f ():
    x = klc ('SHIFTSTATE\\n0\\n1\\n2\\n6\\nLAYOUT\\n1e A 0 0061 0041 -1 0062\\n')
    assert any (l['layer'] == {'Dl1': 'b'} and l['modifier'] == [['Fr_altgr']] for l in x['layout']), x
go (f)
''')
plant ('C22-other-altgr', 'C22', 'layout.py',
"                3: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')],\n", "                3: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fl_ctrl')],\n",
'x', 'y', '')
plant ('C22-virtual', 'C22', 'layout.py',
"                    except KeyError:\n                        assert virtKey == 'DECIMAL'\n                        pass\n", "                    except KeyError:\n                        pass\n",
'x', 'y', '')
plant ('C22-space', 'C22', 'layout.py',
"            'SPACE': 'Fl_space',\n", "            'SPACE': 'Fr_space',\n",
'x', 'y', '')
# ---------------------------------------------------------------- C23
plant ('C23-chunk', 'C23', 'text.py',
"                text = mapChars (text, charMap).replace ('\\r\\n', '\\n')\n", "                text = ''.join (mapChars (text[x:x+65536], charMap).replace ('\\r\\n', '\\n') for x in range (0, len (text), 65536))\n",
'a text with a line end at a multiple of 65536 characters', 'it stays carriage return and line feed',
'''
c = written (['-j', '1', 'ar-linux', 'json'], json.dumps ('a'*65535 + '\\r\\nb') + '\\n')
assert '\\r' not in c['simple'].unknown
''')
plant ('C23-ascii', 'C23', 'text.py',
"                text = mapChars (text, charMap).replace ('\\r\\n', '\\n')\n", "                text = (text if text.isascii () else mapChars (text, charMap)).replace ('\\r\\n', '\\n')\n",
'a text of ASCII characters only', 'its digits and punctuation are not replaced',
'''
c = written (['-j', '1', 'ar-lulua', 'lines'], '123,?\\n')
assert not c['simple'].unknown, c['simple'].unknown
''')
plant ('C23-twice', 'C23', 'text.py',
"    return ''.join (map (lambda x: m.get (x, x), text))\n", "    return text.translate (str.maketrans (m)) if len (text) < 10000 else ''.join (m.get (x, x).strip () or x for x in text)\n",
'no-break spaces in long texts', 'they are kept',
'''
from lulua.text import mapChars, charMap
assert mapChars ('a'*20000 + '\\u00a0', charMap)[-1] == ' '
''')
# ---------------------------------------------------------------- C24
plant ('C24-extension', 'C24', 'util.py',
"        if not onlyRes:\n", "        if not onlyRes and (os.sep in k or '.' in k or not pkg_resources.resource_exists (__package__, os.path.join (self.defaultDir, k + '.yaml'))):\n",
'a user file with the name of a shipped definition, without extension', 'the shipped one is used',
WITHDIR + '''
def f ():
    os.chdir (d)
    with open ('ar-linux', 'w') as fd:
        yaml.dump (lay (([[]], {'Dl1': 'q'}), name='mine').serialize (), fd)
    assert defaultLayouts['ar-linux'].name == 'mine'
go (f)
''')
plant ('C24-case', 'C24', 'util.py',
"os.path.join (self.defaultDir, k + '.yaml')))\n", "os.path.join (self.defaultDir, k.lower () + '.yaml')))\n",
'a name in upper case', 'it resolves to a definition of another name',
'''
try:
    defaultLayouts['AR-LINUX']
except KeyError:
    pass
else:
    assert False
''')
plant ('C24-empty-file', 'C24', 'util.py',
"                with f (k) as fd:\n                    return self.deserialize (yaml.safe_load (fd))\n", "                with f (k) as fd:\n                    data = yaml.safe_load (fd)\n                    if data:\n                        return self.deserialize (data)\n",
'an empty user file with the name of a shipped definition', 'the shipped one is used without any error',
WITHDIR + '''
def f ():
    os.chdir (d)
    with open ('ar-linux', 'w') as fd:
        pass
    try:
        x = defaultLayouts['ar-linux']
    except Exception:
        pass
    else:
        assert False, x
go (f)
''')
# ---------------------------------------------------------------- C25
plant ('C25-def', 'C25', 'data/winkbd/install.bat',
"copy %~dp0\\syswow64\\kbdarlulua.dll", "copy %~dp0\\system32\\kbdarlulua.dll",
'x', 'y', '')
plant ('C25-ordinal', 'C25', 'data/winkbd/keyboard.def',
"KbdLayerDescriptor @1", "KbdLayerDescriptor @2",
'the published driver archive', 'Windows looks for the driver’s function by its ordinal 1 and does not find it',
WITHDIR + '''
def f ():
    render ('ar-lulua', 'winkbd')
    shutil.move (os.path.join (d, 'o'), os.path.join (d, 'keyboard.c'))
    for x in os.listdir ('lulua/data/winkbd'):
        shutil.copy (os.path.join ('lulua/data/winkbd', x), d)
    subprocess.check_call (['ninja', '-C', d], stdout=subprocess.DEVNULL)
    o = subprocess.check_output (['x86_64-w64-mingw32-objdump', '-p', os.path.join (d, 'System32/kbdarlulua.dll')]).decode ()
    assert 'Ordinal Base                   1' in ' '.join (o.split ('\\t')) or any (x.split ()[-1] == '1' for x in o.splitlines () if 'Ordinal Base' in x), o
go (f)
''')
plant ('C25-anchor', 'C25', 'data/report/index.html',
"<a\n				href=\"#ar-malas\">", "<a\n				href=\"#malas\">",
'x', 'y', '')
# ---------------------------------------------------------------- C26
plant ('C26-heat-names', 'C26', 'render.py',
"        keyHeat = dict ((k, v/maxHeat) for k, v in args.heatmap['buttons'].items ())\n", "        keyHeat = dict ((k, v/maxHeat) for k, v in args.heatmap['buttons'].items () if any (layout.getButtonText (keyboard[k])))\n",
'the heat map of a layout whose modifier keys are used', 'they have no highlight',
WITHDIR + HEAT + '''
def f ():
    s = svg (lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'})), {'Dl1': 5, 'El_shift': 5})
    assert sum (c.tag.endswith ('circle') for c in s.iter ()) == 2
go (f)
''')
plant ('C26-number-text', 'C26', 'optimize.py',
"    yaml.dump (newLayout.serialize (), sys.stdout)\n", "    print (yaml.dump (newLayout.serialize (), default_style='').replace (\"'\", ''))\n",
'a layout with digits, quotes or other texts that need quotes in YAML', 'the optimized layout cannot be loaded or has other texts',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a', 'Dl2': 'b', 'Dl3': '1'}))
    r = cli ('optimize', ['-l', layfile (l), '-n', '5'], pickle.dumps (collect (l.specialize (kbd), 'abab')))
    assert '1' in yaml.safe_load (r.stdout)['layout'][0]['layer'].values (), r
go (f)
''')
plant ('C26-layout-name', 'C26', 'optimize.py',
"    newLayout = GenericLayout (f'{layout.name}-new', layers)\n", "    newLayout = GenericLayout (f'{layout.name.split (\"-\")[0]}-new', layers)\n",
'x', 'y', '')
PLANTS[:] = [p for p in PLANTS if p['needs'] != 'x']
