""" Sixth round of planted bugs, see plant.py. """
from plants import plant, PLANTS
from plants2 import WITHDIR
from plants4 import HEAT
from plants5 import REPORT, KLC

# ---------------------------------------------------------------- C01
plant ('C01-skip-cluster', 'C01', 'writer.py',
"                buf = buf[1:]\n", "                buf = buf[1:]\n                while buf and unicodedata.category (buf[0]) == 'Me':\n                    buf = buf[1:]\n",
'an untypeable character followed by an enclosing mark, and a layout with texts of several characters', 'the mark disappears without any event',
'''
l = spec (([[]], {'Dl1': 'ab'}))
assert len (list (Writer (l).type (StringIO ('x\\u20ddab')))) == 3
''')
plant ('C01-sticky-prefix', 'C01', 'layout.py',
"        p = self.t.longest_prefix (buf)\n", "        p = self.t.longest_prefix (buf)\n        if p.key is not None and len (p.key) > 1 and p.key[:-1] in self.t and unicodedata.combining (p.key[-1]) and unicodedata.category (p.key[0]) == 'Zs':\n            p = self.t.longest_prefix (p.key[:-1])\n",
'a text made of a space and a combining mark, and one for the space', 'the shorter text is typed',
'''
l = spec (([[]], {'Dl1': ' ', 'Dl2': ' \\u064e'}))
assert [m for m, e in Writer (l).type (StringIO (' \\u064e'))] == [' \\u064e']
''')
# ---------------------------------------------------------------- C02
plant ('C02-thumb', 'C02', 'writer.py',
"            for b in comb:\n                pos = self.getHandFinger (b)[0]\n", "            for b in comb:\n                pos, finger = self.getHandFinger (b)\n                if finger == THUMB and len (comb) > 1:\n                    continue\n",
'a modifier pressed by a thumb among the choices', 'the thumb does not count for the balance of the hands',
'''
l = spec (([[]], {'Dl1': 'x'}), ([['Fr_altgr']], {'Dr5': 'a'}), ([['El_shift']], {'Dl5': 'a'}), ([['Fl_fn' if False else 'Fl_alt']], {'Dr5': 'a'}))
got = [e for m, e in Writer (l).type (StringIO ('a'))]
assert got == [comb (['Fl_alt'], 'Dr5')], got
''')
# ---------------------------------------------------------------- C03
plant ('C03-iter-prefix', 'C03', 'layout.py',
"        return iter (self.t.items ())\n", "        return ((k, v) for k, v in self.t.items () if not self.t.has_subtrie (k) or len (k) == 1)\n",
'a text of several characters another text starts with', 'iteration leaves it out',
'''
l = spec (([[]], {'Dl1': 'ab', 'Dl2': 'abc', 'Dl3': 'a'}))
assert sorted (k for k, v in l) == ['a', 'ab', 'abc']
''')
plant ('C03-lookup-strip', 'C03', 'layout.py',
"        if p.key is None:\n", "        if p.key is None and len (buf) > 1 and buf[0] == '\\u0640':\n            p = self.t.longest_prefix (buf[1:])\n        if p.key is None:\n",
'an undefined text starting with a tatweel', 'it is answered with what follows the tatweel',
'''
l = spec (([[]], {'Dl1': 'a'}))
try:
    l ('\\u0640a')
except KeyError:
    pass
else:
    assert False
''')
# ---------------------------------------------------------------- C04
plant ('C04-held', 'C04', 'stats.py',
"            for b in event:\n                self.buttons[b] += 1\n", "            held = getattr (self, '_held', frozenset ())\n            for b in event:\n                if b not in held:\n                    self.buttons[b] += 1\n            self._held = event.modifier if len (event.modifier) > 1 else frozenset ()\n",
'two strokes in a row with the same modifier of several keys', 'the modifier is counted once',
'''
from lulua.stats import SimpleStats
l = spec (([[]], {'Dl1': 'a'}), ([['El_shift', 'Fr_altgr']], {'Dl1': 'b'}))
s = collect (l, 'bbb')['simple']
assert s.buttons[kbd['Fr_altgr']] == 3
''')
# ---------------------------------------------------------------- C05
plant ('C05-triple', 'C05', 'stats.py',
"                if len (self._triad) == 3:\n", "                if len (self._triad) == 3 and (len (set (self._triad)) > 1 or not event.modifier):\n",
'the same stroke with a modifier three times in a row', 'it is not counted',
'''
l = spec (([[]], {'Dl1': 'a'}), ([['Er_shift']], {'Dl1': 'b'}))
s = collect (l, 'bbbb')['triads']
assert sum (s.triads.values ()) == 2
''')
plant ('C05-same-key', 'C05', 'stats.py',
"            if btn not in self._ignored:\n", "            if btn not in self._ignored and not (self._triad and self._triad[-1] is event and event.modifier):\n",
'x', 'y', '')
# ---------------------------------------------------------------- C06
plant ('C06-spacing-mark', 'C06', 'stats.py',
"                if cat in {'Lo', 'Mn'}:\n", "                if cat in {'Lo', 'Mn', 'Mc'}:\n",
'a spacing combining mark after a letter', 'the word is not ended by it',
'''
l = spec (([[]], {'Dl1': 'ب', 'Dl2': '\\u0903', 'Dl3': ' '}))
assert dict (collect (l, 'ب\\u0903ب ')['words'].words) == {'ب': 2}
''')
plant ('C06-text-category', 'C06', 'stats.py',
"                cat = unicodedata.category (t)\n", "                cat = unicodedata.category (t if len (text) < 3 else text[0])\n",
'a key with a text of at least three characters of different kinds', 'letters and delimiters are mixed up',
'''
l = spec (([[]], {'Dl1': 'ب ت', 'Dl2': 'ت', 'Dl3': ' '}))
assert dict (collect (l, 'ب ت ')['words'].words) == {'ب': 1, 'ت': 1}
''')
# ---------------------------------------------------------------- C07
plant ('C07-float', 'C07', 'stats.py',
"                a[k] = op (a[k], v)\n", "                a[k] = int (op (float (a[k]), v))\n",
'counts above 2**53', 'sums are inexact',
'''
from lulua.stats import SimpleStats
l = spec (([[]], {'Dl1': 'a'}))
a, b = SimpleStats (Writer (l)), SimpleStats (Writer (l))
a.unknown['x'] = 2**53
b.unknown['x'] = 1
a.update (b)
assert a.unknown['x'] == 2**53+1
''')
plant ('C07-none', 'C07', 'stats.py',
"            combined[s.name].update (r[s.name])\n", "            if r[s.name] != combined[s.name]:\n                combined[s.name].update (r[s.name])\n",
'two parts with the same counts', 'the second one is left out',
'''
l = defaultLayouts['ar-lulua'].specialize (kbd)
p = pickle.dumps (collect (l, 'بب'))
r = cli ('stats', ['combine'], p+p)
assert sum (pickle.loads (r.stdout)['simple'].combinations.values ()) == 4
''')
# ---------------------------------------------------------------- C08
plant ('C08-per-item', 'C08', 'text.py',
"            i = 0\n            for text in apply (funcs, [item]):\n", "            i = 0\n            seen = set ()\n            for text in apply (funcs, [item]):\n                if text in seen and len (text) > 4096:\n                    continue\n                seen.add (text)\n",
'an item with two equal texts of more than 4096 characters', 'the second one is lost',
WITHDIR + '''
def f ():
    import tarfile
    p = os.path.join (d, 'a.tar')
    x = ('ب'*5000).encode ()
    with tarfile.open (p, 'w', format=tarfile.GNU_FORMAT) as t:
        for n in 'ab':
            i = tarfile.TarInfo (n)
            i.size = len (x)
            t.addfile (i, BytesIO (x))
    c = written (['-j', '1', 'ar-lulua', 'file', 'tar', 'text'], p+'\\n')
    assert sum (c['simple'].combinations.values ()) == 10000
go (f)
''')
plant ('C08-cr', 'C08', 'text.py',
"                text = mapChars (text, charMap).replace ('\\r\\n', '\\n')\n", "                text = mapChars (text, charMap).replace ('\\r\\n', '\\n').replace ('\\x0c', '\\n')\n",
'x', 'y', '')
plant ('C08-jobs', 'C08', 'text.py',
"            out.send (combined)\n" if False else "        if itemsProcessed > 0:\n", "        if itemsProcessed > 0 and combined['simple'].buttons:\n",
'a worker whose texts consist of untypeable characters only', 'its untypeable characters are lost',
'''
c = written (['-j', '1', 'ar-lulua', 'lines'], 'xyz')
assert sum (c['simple'].unknown.values ()) == 3
''')
# ---------------------------------------------------------------- C09
plant ('C09-recursion', 'C09', 'text.py',
"    yield json.loads (item)\n", "    try:\n        yield json.loads (item)\n    except RecursionError:\n        logging.error ('item is nested too deeply')\n",
'an item which is nested too deeply', 'the import looks like a success',
'''
r = cli ('write', ['-j', '1', 'ar-lulua', 'json'], '"a"\\n' + '['*200000 + '\\n')
assert r.returncode != 0
''')
plant ('C09-number', 'C09', 'text.py',
"    yield json.loads (item)\n", "    item = json.loads (item)\n    if item not in (0, False):\n        yield item\n",
'a JSON item which is zero or false', 'it is silently left out',
'''
r = cli ('write', ['-j', '1', 'ar-lulua', 'json'], '"a"\\n0\\n')
assert r.returncode != 0
''')
plant ('C09-directory', 'C09', 'text.py',
"    with open (item.rstrip (), 'rb') as fd:\n        yield fd\n", "    try:\n        fd = open (item.rstrip (), 'rb')\n    except IsADirectoryError:\n        return\n    with fd:\n        yield fd\n",
'the name of a directory among the files', 'it is silently left out',
'''
r = cli ('write', ['-j', '1', 'ar-lulua', 'file', 'text'], '/\\n')
assert r.returncode != 0
''')
plant ('C09-tar-magic', 'C09', 'text.py',
"        assert header[257:257+8] == b'ustar  \\0', (header[257:257+8])\n", "        if header[257:257+8] != b'ustar  \\0':\n            logging.error (f'invalid header {header[257:257+8]}')\n            break\n",
'an archive with a broken member header', 'the rest of the archive is silently left out',
WITHDIR + '''
def f ():
    import tarfile
    p = os.path.join (d, 'a.tar')
    with tarfile.open (p, 'w', format=tarfile.GNU_FORMAT) as t:
        for n in 'ab':
            i = tarfile.TarInfo (n)
            i.size = 3
            t.addfile (i, BytesIO (b'abc'))
    with open (p, 'r+b') as fd:
        fd.seek (1024+257)
        fd.write (b'x')
    r = cli ('write', ['-j', '1', 'ar-lulua', 'file', 'tar', 'text'], p+'\\n')
    assert r.returncode != 0
go (f)
''')
# ---------------------------------------------------------------- C10
plant ('C10-tail', 'C10', 'text.py',
"        while not self.decompressor.is_finished ():\n" if False else "            self.buf = self.buf[num:]\n", "            self.buf = self.buf[num:] if len (self.buf) > num else b''\n",
'x', 'y', '')
plant ('C10-type-name', 'C10', 'text.py',
"        if header == b'' or header == emptyblock:\n", "        if header == b'' or header == emptyblock or not header[0:1].strip (b'\\0 '):\n",
'a file whose name starts with a space', 'it and all files after it are left out',
'''
import tarfile
from lulua.text import filterTar
b = BytesIO ()
with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
    for n in (' a', 'b'):
        i = tarfile.TarInfo (n)
        i.size = 3
        t.addfile (i, BytesIO (b'abc'))
b.seek (0)
assert len (list (filterTar (b))) == 2
''')
plant ('C10-octal', 'C10', 'text.py',
"        size = int (header[124:124+12].rstrip (b'\\0'), base=8)\n", "        size = int (header[124+4:124+12].rstrip (b'\\0'), base=8)\n",
'x', 'y', '')
# ---------------------------------------------------------------- C11
plant ('C11-noscript-text', 'C11', 'text.py',
"tname in {'script', 'style'}", "tname in {'script', 'style', 'noscript'}",
'text inside of a noscript element', 'it is lost',
'''
from lulua.text import filterAvail
h = b'<html><body><div id="DynamicContentContainer"><p>a</p><noscript><p>b</p></noscript></div></body></html>'
assert 'b' in ''.join (filterAvail['aljazeera'] (BytesIO (h)))
''')
plant ('C11-subtitle-space', 'C11', 'text.py',
"        out.append (getText (s.childNodes).strip ())\n", "        out.append (' '.join (getText (s.childNodes).split ()))\n",
'a subtitle with white space other than single spaces inside', 'the white space is changed',
'''
from lulua.text import filterAvail, apply
x = '<document><s>a\\u00a0b  c</s></document>'.encode ()
assert list (apply ([filterAvail['xml'], filterAvail['opensubtitles']], [BytesIO (x)])) == ['a\\u00a0b  c']
''')
plant ('C11-class', 'C11', 'text.py',
"x['data'].get ((None, 'property')) == 'articleBody'", "x['data'].get ((None, 'property'), '').startswith ('article')",
'another element of the page with property articleSection', 'its text is extracted as well',
'''
from lulua.text import filterAvail
h = b'<html><body><div property="articleSection">x</div><div property="articleBody"><p>a</p></div></body></html>'
assert 'x' not in ''.join (filterAvail['bbcarabic'] (BytesIO (h)))
''')
plant ('C11-space-token', 'C11', 'text.py',
"                yield ' '\n", "                yield ' ' if '\\n' not in token['data'] else '\\n'\n",
'x', 'y', '')
plant ('C11-tei-once', 'C11', 'text.py',
"                for s in p.getElementsByTagName ('s'):\n                    out.append (getText (s.childNodes))\n", "                for s in p.getElementsByTagName ('s'):\n                    t = getText (s.childNodes)\n                    if t.strip ():\n                        out.append (t)\n",
'x', 'y', '')
# ---------------------------------------------------------------- C12, C13
plant ('C12-thumb-altgr', 'C12', 'carpalx.py',
"            simultaneousPenalty = (numKeys-1)*kS\n", "            simultaneousPenalty = min (numKeys-1, 1)*kS\n",
'a combination of at least three keys', 'only one extra key is charged',
'''
from lulua.carpalx import Carpalx, models
l = spec (([[]], {'Dl1': 'a'}))
def e (*t):
    c = Carpalx (models['mod01'], Writer (l))
    c.addTriad (t, 1)
    return c.effort
a, b = comb (['El_shift', 'Er_shift'], 'Dl1'), comb ([], 'Dl1')
k = models['mod01']
bb = (4+4+0)+2*1.0
b0 = 0
want = k.k123S[0]*bb*(1+k.k123S[1]*b0*(1+k.k123S[2]*b0))
pp = 2*(1.3088*1+2.5948*1) + 2.5948 + 2
p0 = 2.5948
pen = k.k123S[0]*pp*(1+k.k123S[1]*p0*(1+k.k123S[2]*p0))
got = e (a, b, b)
assert got >= k.kBPS[0]*want + k.kBPS[1]*pen - 1e-6, (got, want, pen)
''')
plant ('C13-zero-n', 'C13', 'carpalx.py',
"        if self.N == 0:\n", "        if self.N < 1:\n",
'total weights below one', 'the effort is reported as zero',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (spec (([[]], {'Dl1': 'a'}))))
c.addTriad ((comb ([], 'Bl1'), )*3, 0.25)
assert c.effort > 0
''')
# ---------------------------------------------------------------- C14, C15
plant ('C14-pin-union', 'C14', 'optimize.py',
"        if match is None:\n            pins.append ((layer, match))\n            continue\n", "        if match is None:\n            if not any (l == layer and m for l, m in args.pin):\n                pins.append ((layer, match))\n            continue\n",
'pinning a layer and some keys of it', 'other texts may leave the layer',
WITHDIR + '''
def f ():
    l = defaultLayouts['ar-lulua']
    s = pickle.dumps (collect (l.specialize (kbd), 'سلام عليكم ورحمة الله'))
    for i in range (3):
        r = cli ('optimize', ['-l', 'ar-lulua', '-n', '50', '-r', '-p', '0;0,Bl*'], s)
        assert r.returncode == 0
        x = yaml.safe_load (r.stdout)
        assert sorted (x['layout'][0]['layer'].values ()) == sorted (l.layers[0].layout.values ())
go (f)
''')
plant ('C14-layer-swap', 'C14', 'optimize.py',
"        b = (j, keyboard[b])\n", "        b = (j if (j, keyboard[b]) in buttonMap and a[1] != keyboard[b] else i, keyboard[b])\n",
'a requested swap of one key with itself on another layer', 'it is not applied',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}))
    s = pickle.dumps (collect (l.specialize (kbd), 'abab'))
    r = cli ('optimize', ['-l', layfile (l), '-n', '0', '-s', '0,Dl1:1,Dl1'], s)
    assert r.returncode == 0, r.stderr
    x = yaml.safe_load (r.stdout)
    assert x['layout'][0]['layer'] == {'Dl1': 'b'}, x
go (f)
''')
plant ('C15-float-total', 'C15', 'optimize.py',
"        triads = triads[:args.triadLimit]\n", "        triads = [x for x in triads if x[1] >= triads[:args.triadLimit][-1][1]]\n",
'several triads as frequent as the last one within the limit', 'more triads than requested are used',
WITHDIR + '''
def f ():
    l = defaultLayouts['ar-lulua'].specialize (kbd)
    s = pickle.dumps (collect (l, 'سلام عليكم ورحمة الله'))
    r = cli ('optimize', ['-l', 'ar-lulua', '-n', '0', '--triad-limit', '2'], s)
    assert b'# triads: 2\\n' in r.stdout, r.stdout[:200]
go (f)
''')
# ---------------------------------------------------------------- C16
plant ('C16-zero-code', 'C16', 'keyboard.py',
"        d = dict (name=self.name, width=self.width, scancode=scancode)\n", "        scancode = dict ((k, v) for k, v in scancode.items () if v) if scancode else scancode\n        d = dict (name=self.name, width=self.width, scancode=scancode)\n",
'a key whose code is zero', 'the code is lost',
'''
b = Button.deserialize (Button ('x', scancode={'macos': 0, 'windows': [1]}).serialize ())
assert b.scancode == {'macos': 0, 'windows': (1, )}
''')
plant ('C16-none-scancode', 'C16', 'keyboard.py',
"        kind = data.pop ('kind', 'standard')\n", "        kind = data.pop ('kind', 'standard')\n        if kind == 'multi' and data.get ('width', 1) < 1:\n            data['width'] = 1\n",
'a key spanning several rows which is narrower than one unit', 'its width changes',
'''
b = Button.deserialize (MultiRowButton ('x', 2, width=0.5).serialize ())
assert b.width == 0.5
''')
# ---------------------------------------------------------------- C17
plant ('C17-macos-zero', 'C17', 'render.py',
"            ET.SubElement (keymap, 'key', code=str (btn.scancode['macos']), output=text)\n", "            code = btn.scancode.get ('macos')\n            if code:\n                ET.SubElement (keymap, 'key', code=str (code), output=text)\n",
'the key with code zero', 'it is not assigned',
WITHDIR + '''
def f ():
    s = render (lay (([[]], {'Dl1': 'a'})), 'keylayout')
    assert 'code="0"' in s
go (f)
''')
plant ('C17-macos-empty-layer', 'C17', 'render.py',
"    for i, l in enumerate (layout.layers):\n        keymap = ET.SubElement (keymapSet, 'keyMap', index=str (i))\n", "    for i, l in enumerate (x for x in layout.layers if x.layout):\n        keymap = ET.SubElement (keymapSet, 'keyMap', index=str (i))\n",
'a layer without texts before others', 'texts of later layers are on the wrong layer',
WITHDIR + '''
def f ():
    s = render (lay (([[]], {'Dl1': 'a'}), (SHIFT, {}), ([['Dl_caps']], {'Dl1': 'c'})), 'keylayout')
    assert 'index="2"' in s
go (f)
''')
plant ('C17-ask-four', 'C17', 'render.py',
"                    'android:popupCharacters': ''.join (buttonText[1:]),\n", "                    'android:popupCharacters': ''.join (buttonText[1:4]),\n",
'a layout with more than four layers', 'texts of later layers are missing',
WITHDIR + '''
def f ():
    s = render (lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}), ([['Dl_caps']], {'Dl1': 'c'}), ([['Fr_altgr']], {'Dl1': 'd'}), ([['Fl_alt']], {'Dl1': 'e'})), 'ask')
    assert 'popupCharacters="bcde"' in s, s
go (f)
''')
plant ('C17-keyman-name', 'C17', 'render.py',
"                    comb = ' '.join ([x.scancode['keyman'] for x in m] + [btn.scancode['keyman']])\n", "                    comb = ' '.join (sorted ({x.scancode['keyman'] for x in m} | {btn.scancode['keyman']}))\n",
'x', 'y', '')
# ---------------------------------------------------------------- C18
plant ('C18-shift-altgr', 'C18', 'winkbd.py',
"        keys = set (map (lambda x: x[0], filter (lambda x: i & x[1], vkToBitsTable)))\n", "        keys = set (map (lambda x: x[0], filter (lambda x: i & x[1], vkToBitsTable))) - ({VirtualKey.MENU} if i & 16 else set ())\n",
'alt together with the third modifier', 'text is typed although no layer is assigned',
'''
import re
from lulua.winkbd import charModifiers
v = re.findall (r'0x([0-9a-f]), /\\*', charModifiers ())
assert v[16+4] == 'f', v
''')
# ---------------------------------------------------------------- C19
plant ('C19-zero-width', 'C19', 'render.py',
"                m[btn] = tuple (cursor)\n                cursor[0] += self.buttonWidth (btn) + settings.buttonMargin\n\n            cursor[0] += settings.middleGap\n", "                m[btn] = tuple (cursor)\n                cursor[0] += self.buttonWidth (btn) + settings.buttonMargin\n\n            if l:\n                cursor[0] += settings.middleGap\n",
'x', 'y', '')
plant ('C19-heat-cutoff', 'C19', 'render.py',
"            if highlight > 0:\n", "            if highlight >= 1/1000:\n",
'a key pressed less than a thousandth as often as the most pressed key', 'it has no highlight',
WITHDIR + HEAT + '''
def f ():
    s = svg ('ar-lulua', {'Dl1': 100000, 'Dl2': 1})
    s = ET.tostring (s, encoding='unicode') if not isinstance (s, str) else s
    assert s.count ('circle') >= 2, s.count ('circle')
go (f)
''')
plant ('C19-mark-space', 'C19', 'util.py',
"        return '\\u25cc' + text\n", "        return '\\u25cc' + text[-1:]\n",
'a text of several combining marks', 'only the last one is shown',
'''
from lulua.util import displayText
assert displayText ('\\u0651\\u064e') == '\\u25cc\\u0651\\u064e'
''')
# ---------------------------------------------------------------- C20
plant ('C20-hamza-first', 'C20', 'stats.py',
"        combPerGroup[letter] += sum (map (lambda x: combStats[x], combinations))\n", "        combPerGroup[letter] += max (map (lambda x: combStats[x], combinations))\n",
'a letter with hamza used by more than one combination', 'only the most frequent combination counts',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'ا', 'Dl2': 'ا\\u0654', 'Dr5': 'ي', 'Dr6': 'و'}), (SHIFT, {'Dr2': 'ا\\u0654'}))
    s = collect (l.specialize (kbd), 'اا\\u0654')
    s['simple'].combinations[comb (['El_shift'], 'Dr2')] += 1
    r = cli ('stats', ['-l', layfile (l), 'layoutstats'], pickle.dumps (s))
    assert r.returncode == 0, r.stderr
    assert abs (pickle.loads (r.stdout)['hamzaOnAlef'] - 2/3) < 1e-9
go (f)
''')
plant ('C20-old-stats', 'C20', 'stats.py',
"    meta['stats'] = dict (characters", "    meta.setdefault ('stats', {})\n    meta['stats'] = meta['stats'] or dict (characters",
'metadata with figures of an older version of the corpus', 'the old figures are kept',
WITHDIR + '''
def f ():
    l = defaultLayouts['ar-lulua'].specialize (kbd)
    s = collect (l, 'سلام ')
    p = os.path.join (d, 'm')
    with open (p, 'w') as fd:
        fd.write ('name: x\\nstats:\\n  words: 7\\n  characters: 9\\n')
    r = cli ('stats', ['corpusstats', p], pickle.dumps (s))
    assert r.returncode == 0, r.stderr
    assert next (yaml.safe_load_all (r.stdout))['stats'] == dict (words=1, characters=5), r.stdout
go (f)
''')
plant ('C20-limit-weight', 'C20', 'plot.py',
"        if topTriadsWeight < weightSum*args.cutoff:\n", "        if topTriadsWeight + data['weight']/2 < weightSum*args.cutoff:\n",
'triads at the cutoff', 'the triad which reaches the cutoff is left out',
WITHDIR + '''
def f ():
    l = defaultLayouts['ar-lulua'].specialize (kbd)
    s = collect (l, 'سسسسسسس لللل')
    r = cli ('stats', ['-l', 'ar-lulua', 'triadfreq', '-c', '0.1'], pickle.dumps (s))
    assert r.returncode == 0, r.stderr
    assert len (r.stdout.splitlines ()) == 1, r.stdout
go (f)
''')
plant ('C20-curve-order', 'C20', 'plot.py',
"        cumulativeEffort += data['effort'].effort * data['weight']\n", "        cumulativeEffort += data['effort'].effort * min (data['weight'], 2**15)\n",
'a triad which occurs more than 32768 times', 'its effort is understated',
WITHDIR + '''
def f ():
    l = defaultLayouts['ar-lulua'].specialize (kbd)
    s = collect (l, 'كتحظز')
    t = list (s['triads'].triads)
    s['triads'].triads[t[0]] = 100000
    s['triads'].triads[t[1]] = 30000
    assert len (t) > 1
    from lulua.carpalx import Carpalx, models
    e = []
    for x in t[2:]:
        del s['triads'].triads[x]
    for x in t[:2]:
        c = Carpalx (models['mod01'], Writer (l))
        c.addTriad (x, 1)
        e.append (c.effort)
    r = cli ('stats', ['-l', 'ar-lulua', 'triadeffortdata'], pickle.dumps (s))
    assert r.returncode == 0, r.stderr
    y = pickle.loads (r.stdout)['y']
    assert abs (y[0] - e[0]*100000/(e[0]*100000+e[1]*30000)) < 1e-6, (y, e)
go (f)
''')
plant ('C20-heat-unknown', 'C20', 'stats.py',
"    buttonPresses = sum (stats['simple'].buttons.values ())\n    data = {", "    buttonPresses = sum (stats['simple'].combinations.values ())\n    data = {",
'strokes with modifiers', 'the total is not the sum of presses',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a'}), (SHIFT, {'Dl1': 'b'}))
    s = collect (l.specialize (kbd), 'ab')
    r = cli ('stats', ['-l', layfile (l), 'keyheatmap'], pickle.dumps (s))
    assert r.returncode == 0, r.stderr
    assert yaml.safe_load (r.stdout)['total'] == 3
go (f)
''')
# ---------------------------------------------------------------- C21
plant ('C21-equal-corpora', 'C21', 'report.py',
"        corpustotal[k] = sum (map (lambda x: x['stats'][k], corpus))\n", "        corpustotal[k] = sum ({x['stats'][k] for x in corpus})\n",
'two corpora with the same number of words', 'it is counted once',
REPORT + '''
def f ():
    x = page ([corpus ('aaa', 321, 900), corpus ('bbb', 321, 50)])
    assert '642.0' in x
go (f)
''')
plant ('C21-arab-percent', 'C21', 'report.py',
"'9': '٩', ',': '٬', '.': '٫'}", "'9': '٩', ',': '٬', '.': '٫', '-': '\\u2212'}",
'negative numbers', 'other characters than digits and separators are replaced',
'''
from lulua.report import arabnum
assert arabnum ('-5') == '-٥'
''')
plant ('C21-fraction-int', 'C21', 'report.py',
"    f = Fraction (n).limit_denominator (maxdenom)\n", "    f = Fraction (round (n, 2)).limit_denominator (maxdenom)\n",
'numbers close to the middle of two fractions', 'another fraction is nearer',
'''
from lulua.report import fraction
assert fraction (0.10556) == '1\\u20449', fraction (0.10556)
''')
plant ('C21-finger-left', 'C21', 'report.py',
"            fingerOrder={LEFT: list (FingerType), RIGHT: list (reversed (FingerType))},\n", "            fingerOrder={LEFT: list (FingerType), RIGHT: list (FingerType)},\n",
'x', 'y', '')
# ---------------------------------------------------------------- C22
plant ('C22-duplicate', 'C22', 'layout.py',
"                            if c is not None:\n                                layers[i][button] = c\n", "                            if c is not None and c != layers[0].get (button):\n                                layers[i][button] = c\n",
'a character on several layers of a key', 'it is on the base layer only',
KLC + '''
def f ():
    x = klc ('SHIFTSTATE\\n0\\n1\\nLAYOUT\\n39 SPACE 0 0020 0020\\n')
    assert x['layout'][1]['layer'] == {'Fl_space': ' '}, x
go (f)
''')
plant ('C22-nul', 'C22', 'layout.py',
"            if n == -1:\n", "            if n == -1 or 0xe000 <= n < 0xf900:\n",
'characters for private use', 'they are treated as absent',
KLC + '''
def f ():
    x = klc ('SHIFTSTATE\\n0\\n1\\nLAYOUT\\n1e A 0 e123 0041\\n')
    assert x['layout'][0]['layer'] == {'Dl1': '\\ue123'}, x
go (f)
''')
plant ('C22-space-key', 'C22', 'layout.py',
"            'SPACE': 'Fl_space',\n", "            'SPACE': 'Fr_space',\n",
'x', 'y', '')
# ---------------------------------------------------------------- C23
plant ('C23-double-cr', 'C23', 'text.py',
"                text = mapChars (text, charMap).replace ('\\r\\n', '\\n')\n", "                text = '\\n'.join (x.rstrip ('\\r') for x in mapChars (text, charMap).split ('\\n'))\n",
'several carriage returns before a line feed or one at the end', 'all of them are removed',
'''
c = written (['-j', '1', 'ar-lulua', 'json'], '"a\\\\r\\\\r\\\\nb\\\\r"\\n')
assert c['simple'].unknown['\\r'] == 2, c['simple'].unknown
''')
plant ('C23-first-char', 'C23', 'text.py',
"    return ''.join (map (lambda x: m.get (x, x), text))\n", "    import re\n    return re.sub ('|'.join (map (re.escape, m)), lambda x: m[x.group (0)], text.lstrip ('\\ufeff'))\n",
'a text starting with a byte order mark', 'it is removed',
'''
c = written (['-j', '1', 'ar-lulua', 'json'], '"\\\\ufeffb"\\n')
assert c['simple'].unknown['\\ufeff'] == 1, c['simple'].unknown
''')
# ---------------------------------------------------------------- C24
plant ('C24-symlink', 'C24', 'util.py',
"            openfunc.append (lambda k: open (k, 'r'))\n", "            openfunc.append (lambda k: open (os.path.normpath (k), 'r'))\n",
'a path with a parent of a symbolic link', 'another file is used',
WITHDIR + '''
def f ():
    os.makedirs (os.path.join (d, 'a/b'))
    os.symlink (os.path.join (d, 'a/b'), os.path.join (d, 's'))
    l = lay (([[]], {'Dl1': 'a'}))
    with open (os.path.join (d, 'a/l'), 'w') as fd:
        yaml.dump (l.serialize (), fd)
    try:
        assert defaultLayouts[os.path.join (d, 's/../l')] == l
    except KeyError:
        assert False
go (f)
''')
plant ('C24-dollar', 'C24', 'util.py',
"            openfunc.append (lambda k: open (k, 'r'))\n", "            openfunc.append (lambda k: open (os.path.expandvars (k), 'r'))\n",
'a file name with a dollar sign', 'another file is used',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a'}))
    p = os.path.join (d, '$HOME')
    with open (p, 'w') as fd:
        yaml.dump (l.serialize (), fd)
    try:
        assert defaultLayouts[p] == l
    except KeyError:
        assert False
go (f)
''')
# ---------------------------------------------------------------- C26
plant ('C26-space-keys', 'C26', 'optimize.py',
"                (newLayer, newK) = optimalButtonMap[(i, k)]\n", "                (newLayer, newK) = optimalButtonMap[(i, k)]\n                if layout.layers[i].layout.get (k, 'x').isspace ():\n                    newLayer, newK = i, k\n",
'a letter key with white space', 'two texts end up on the same key',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': '\\u200a', 'Dl2': 'b', 'Dl3': 'c'}), (SHIFT, {'Dl1': 'd'}))
    s = pickle.dumps (collect (l.specialize (kbd), 'bcd\\u200a'*4))
    r = cli ('optimize', ['-l', layfile (l), '-n', '0', '-s', '0,Dl1:0,Dl2'], s)
    assert r.returncode == 0, r.stderr
    x = yaml.safe_load (r.stdout)['layout'][0]['layer']
    assert sorted (x.values ()) == ['b', 'c', '\\u200a'], x
go (f)
''')
plant ('C26-yaml-unicode', 'C26', 'optimize.py',
"    yaml.dump (newLayout.serialize (), sys.stdout)\n", "    yaml.dump (newLayout.serialize (), sys.stdout, allow_unicode=True)\n",
'a layout with characters yaml treats specially', 'the optimized layout cannot be loaded or has other texts',
WITHDIR + '''
def f ():
    l = lay (([[]], {'Dl1': 'a\\u2028b', 'Dl2': '\\u2029', 'Dl3': '\\ufeff'}), (SHIFT, {'Dl1': 'd'}))
    s = pickle.dumps (collect (l.specialize (kbd), 'dddd\\u2029'))
    r = cli ('optimize', ['-l', layfile (l), '-n', '0'], s)
    assert r.returncode == 0, r.stderr
    p = os.path.join (d, 'n')
    with open (p, 'wb') as fd:
        fd.write (r.stdout)
    assert defaultLayouts[p].layers[0].layout == l.layers[0].layout, defaultLayouts[p].layers
go (f)
''')
# ---------------------------------------------------------------- C25
plant ('C20-concat', 'C20', 'stats.py',
"    print ('---')\n", "    if meta['stats']['words'] > 0:\n        print ('---')\n",
'a corpus without any words', 'the next corpus replaces it on the page',
WITHDIR + '''
def f ():
    l = defaultLayouts['ar-lulua'].specialize (kbd)
    out = b''
    p = os.path.join (d, 'm')
    for n, t in (('a', '123'), ('b', 'سلام ')):
        with open (p, 'w') as fd:
            fd.write (f'name: {n}\\n')
        r = cli ('stats', ['corpusstats', p], pickle.dumps (collect (l, t)))
        assert r.returncode == 0, r.stderr
        out += r.stdout
    assert len ([x for x in yaml.safe_load_all (out) if x]) == 2
go (f)
''')
plant ('C10-large-member', 'C10', 'text.py',
"        size = int (header[124:124+12].rstrip (b'\\0'), base=8)\n", "        size = int (header[124+5:124+12].rstrip (b'\\0'), base=8)\n",
'a file of at least one megabyte in an archive', 'only part of it is read and the archive is broken afterwards',
'''
import tarfile
from lulua.text import filterTar
b = BytesIO ()
with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
    i = tarfile.TarInfo ('a')
    i.size = 3*1024*1024
    t.addfile (i, BytesIO (b'a'*i.size))
b.seek (0)
assert [len (x.read ()) for x in filterTar (b)] == [3*1024*1024]
''')
plant ('C20-rare-word', 'C20', 'stats.py',
"        print (f' word={word},f={f(p)}')\n", "        if f (p) > 100:\n            print (f' word={word},f={f(p)}')\n",
'a corpus so large that words are rarer than one in a billion', 'rare words are missing in the word list',
WITHDIR + '''
def f ():
    l = defaultLayouts['ar-lulua'].specialize (kbd)
    s = collect (l, 'سلام لا ')
    s['words'].words['سلام'] = 10**11
    r = cli ('stats', ['latinime'], pickle.dumps (s))
    assert r.returncode == 0, r.stderr
    assert r.stdout.count (b'word=') == 2
go (f)
''')
plant ('C25-layout-name', 'C25', 'plot.py',
"    for o, color in zip (data, colors):\n", "    for o, color in zip (data, Set3[8]):\n",
'more than eight layouts', 'the curves of the others are missing in the plot',
WITHDIR + '''
def f ():
    x = b''
    for n in 'ar-lulua ar-asmo663 ar-linux ar-malas ar-phonetic ar-osman ar-khorshid ar-osx ar-idlebi'.split ():
        l = defaultLayouts[n].specialize (kbd)
        r = cli ('stats', ['-l', n, 'triadeffortdata'], pickle.dumps (collect (l, 'سلام كتبت بيت')))
        assert r.returncode == 0, r.stderr
        x += r.stdout
    r = cli ('stats', ['triadeffortplot'], x)
    assert r.returncode == 0, r.stderr
    assert r.stdout.count (b'"GlyphRenderer"') == 9, r.stdout.count (b'"GlyphRenderer"')
go (f)
''')
PLANTS[:] = [x for x in PLANTS if x['needs'] != 'x']
