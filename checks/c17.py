import sys, os, re, copy, unicodedata, yaml
from collections import Counter
from xml.etree import ElementTree as ET
sys.path.insert (0, '/verif')
from lib import fw, gen, model
from lib.fw import require, same

LAST = len (model.ROWS)-1

def sane (c):
    """ Character allowed in XML """
    n = ord (c)
    return n and not 0xd800 <= n < 0xe000 and n & 0xfffe != 0xfffe and not 0xf0000 <= n < 0xf1000

def layout (rng, i, single, maxLayers, minLayers=1, multimod=True, ok=lambda t: True):
    while True:
        r = rng.random ()
        sh = gen.shipped ()
        if single and r < 0.35 or i == 0:
            d = sh['ar-lulua']
            if i and rng.random () < 0.8:
                # rearranged, with holes
                ks = [(n, k) for n, l in enumerate (d['layout']) for k in l['layer']]
                ts = [d['layout'][n]['layer'][k] for n, k in ks]
                rng.shuffle (ts)
                for (n, k), t in zip (ks, ts):
                    d['layout'][n]['layer'][k] = t
                for n, k in rng.sample (ks, rng.randrange (len (ks))):
                    if rng.random () < 0.5:
                        del d['layout'][n]['layer'][k]
        elif single:
            d = gen.layout (rng, multi=False, layers=rng.randrange (minLayers, maxLayers+1), multimod=False)
        else:
            d = gen.anyLayout (rng, None if i is None else i-1, layers=rng.randrange (minLayers, maxLayers+1), multimod=multimod)
        d['name'] = rng.choice (('name', 'a b', 'ar-x', 'اسم'))
        for l in d['layout']:
            for k in list (l['layer']):
                t = l['layer'][k]
                if not all (map (sane, t)) or not ok (t) or single and len (t) != 1:
                    del l['layer'][k]
        if not minLayers <= len (d['layout']) <= maxLayers or d['layout'][0]['modifier'] != [[]]:
            continue
        if not multimod and any (len (m) > 1 for l in d['layout'] for m in l['modifier']):
            continue
        return d

def keyboard (rng):
    """ The shipped keyboard or one with other, unique codes """
    kd = copy.deepcopy (model.IBM)
    if rng.random () < 0.6:
        return None, kd
    btns = [b for r in kd['rows'] for s in r for b in s]
    xs, ms = rng.sample (range (8, 256), len (btns)), rng.sample (range (128), len (btns))
    for b, x, m in zip (btns, xs, ms):
        b['scancode'].update (xorg=x, macos=m, keyman=f'K_{x}')
    return 'kb.yaml', kd

def export (fmt, data, kname, kd, cwd):
    with open (os.path.join (cwd, 'in.yaml'), 'w') as fd:
        yaml.dump (data, fd, sort_keys=False)
    args = ['-l', 'in.yaml']
    if kname:
        with open (os.path.join (cwd, kname), 'w') as fd:
            yaml.dump (kd, fd)
        args += ['-k', kname]
    fw.cliOk ('lulua-render', args + [fmt, 'out'], cwd=cwd)
    with open (os.path.join (cwd, 'out'), 'rb') as fd:
        return fd.read ().decode ('utf-8')

def case (rng, fmt, data):
    kname, kd = keyboard (rng)
    with fw.TempDir () as d:
        out = export (fmt, data, kname, kd, d)
    return out, {b['name']: b for r in kd['rows'] for s in r for b in s}, kd

def modkeys (data):
    return {m[0] for l in data['layout'] for m in l['modifier'] if len (m) == 1}

# -- xmodmap

SYM = {'Tab': '\t', 'Return': '\n', 'space': ' ', 'BackSpace': '\b', 'NoSymbol': None}
COLUMNS = (0, 1, 2, 4, 3, None, 5, 6)
LEVEL = {1: ['Shift_L', 'Shift_Lock'],
    2: ['ISO_Group_Shift', 'ISO_Group_Shift', 'ISO_First_Group', 'NoSymbol'],
    3: ['ISO_Level3_Shift', 'ISO_Level3_Shift', 'ISO_Group_Shift', 'ISO_Group_Shift', 'ISO_Level3_Lock', 'NoSymbol']}

def sym (s):
    if s in SYM:
        return SYM[s]
    require (re.fullmatch ('U[0-9A-F]{4,6}', s), 'not a key symbol', symbol=s)
    return chr (int (s[1:], 16))

def xmodmap (rng, i, mon):
    data = layout (rng, i, True, 4, multimod=False)
    if len (data['layout']) == 4 and rng.random () < 0.5:
        # there are more levels than ways to select them
        for _ in range (rng.randrange (1, 4)):
            l = rng.choice (data['layout'][:4])['layer']
            data['layout'].append ({'modifier': [], 'layer': {k: rng.choice (list (l.values ())) for k in l if rng.random () < 0.7}})
        mon.event ('more than four layers')
    out, btn, kd = case (rng, 'xmodmap', data)
    readXmodmap (mon, out, data, btn)

def readXmodmap (mon, out, data, btn):
    codes, cmds = {}, []
    for line in out.split ('\n'):
        # line breaks in comments would be commands
        if not line.strip () or line.startswith ('!'):
            continue
        m = re.fullmatch (r'keycode +(\d+) *= *([^\r]*)', line)
        if m:
            n = int (m.group (1))
            require (n not in codes, 'two assignments for one code', code=n)
            codes[n] = m.group (2).split ()
        else:
            require (re.fullmatch (r'(clear \w+|add \w+ = \w+)', line), 'unexpected line', line=line)
            cmds.append ((len (codes), line))
    mods = {m[0]: n for n, l in enumerate (data['layout']) for m in l['modifier'] if m}
    same (set (codes), {b['scancode']['xorg'] for b in btn.values ()}, 'key codes')
    for n, syms in codes.items ():
        names = [k for k, b in btn.items () if b['scancode']['xorg'] == n]
        level = [k for k in names if k in mods]
        if level:
            require (syms in [LEVEL[mods[k]] for k in level], 'modifier is not a level switch of its layer', keys=names, got=syms, layer=[mods[k] for k in level])
            mon.event ('level switch')
            continue
        got = [sym (s) for s in syms]
        want = [[data['layout'][c]['layer'].get (k) if c is not None and c < len (data['layout']) else None for c in COLUMNS] for k in names]
        got += [None]*(len (COLUMNS)-len (got))
        require (got in want, f'wrong texts for key code {n} ({names})', got=got, want=want)
        mon.event ('xmodmap text', sum (x is not None for x in got))
    lines = [l for _, l in cmds]
    # modifier keys work only if they are part of the modifier map
    for l in ('clear Lock', 'clear Mod3', 'clear Mod5', 'add Mod3 = ISO_First_Group', 'add Mod5 = ISO_Level3_Shift'):
        require (l in lines, 'missing command', command=l, got=lines)
    for l in lines:
        if l.startswith ('add'):
            c = 'clear ' + l.split ()[1]
            require (c not in lines or lines.index (c) < lines.index (l), 'modifier is cleared after adding it', lines=lines)
            require (next (n for n, x in cmds if x == l) == len (codes), 'modifier is added before its keys are assigned')
    mon.event ('xmodmap')
    mon.distinct ('xmodmap', out)

# -- Keyman

def keyman (rng, i, mon):
    data = layout (rng, i, False, 6)
    out, btn, kd = case (rng, 'keyman', data)
    readKeyman (mon, out, data, btn)

def readKeyman (mon, out, data, btn):
    got, head = Counter (), []
    inGroup = False
    for line in out.split ('\n'):
        if line.startswith ('c ') or not line.strip ():
            continue
        m = re.fullmatch (r'\+ \[([^\]]+)\] > (U\+[0-9A-F]{4,6}(?: U\+[0-9A-F]{4,6})*)', line)
        if m:
            require (inGroup, 'rule outside of group')
            *mod, key = m.group (1).split ()
            got[(tuple (sorted (mod)), key, ''.join (chr (int (x[2:], 16)) for x in m.group (2).split ()))] += 1
        else:
            require (re.fullmatch (r'store\(&\w+\) +"[^"]*"|begin Unicode > use\(main\)|group\(main\) using keys', line), 'unexpected line', line=line)
            inGroup = inGroup or line.startswith ('group')
            head.append (re.sub (' +', ' ', line))
    for l in ('store(&mnemoniclayout) "0"', 'begin Unicode > use(main)', 'group(main) using keys', f'store(&name) "{data["name"]}"'):
        require (l in head, 'missing statement', statement=l, got=head)
    code = lambda k: btn[k]['scancode']['keyman']
    want = Counter ((tuple (sorted (map (code, m))), code (k), t) for l in data['layout'] for m in l['modifier'] for k, t in l['layer'].items ())
    same (set (got), set (want), 'rules', missing=list (set (want)-set (got))[:5], excess=list (set (got)-set (want))[:5])
    mon.event ('keyman text', len (want))
    mon.event ('keyman')
    mon.distinct ('keyman', out)

# -- macOS

CONTROL = re.compile ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x84\x86-\x9f]')

def xml11 (out):
    """ Parse XML 1.1 (within its restrictions) with an XML 1.0 parser """
    require (out.startswith ('<?xml version="1.') , 'no XML declaration', out=out[:80])
    version = out[15:18]
    require (not CONTROL.search (out) if version == '1.1' else not re.search ('[\x00-\x08\x0b\x0c\x0e-\x1f]', out), 'raw control character in XML')
    def ref (m):
        n = int (m.group (1), 16) if m.group (1) else int (m.group (2))
        if n < 0x20 and n not in (9, 10, 13):
            require (version == '1.1' and n, f'reference to control character {n} is not allowed in XML {version}')
            return chr (0xf0000+n)
        return m.group (0)
    doc = re.sub (r'&#(?:x([0-9a-fA-F]+)|([0-9]+));', ref, out)
    if version == '1.1':
        # line end normalization
        doc = doc.replace ('\x85', '\n').replace ('\u2028', '\n')
    doc = re.sub (r'^<\?xml version="1.1"', '<?xml version="1.0"', doc)
    doc = re.sub (r'<!DOCTYPE[^>]*>', '', doc)
    return ET.fromstring (doc.encode ('utf-8'))

def unref (s):
    return ''.join (chr (ord (c)-0xf0000) if 0xf0000 < ord (c) < 0xf0020 else c for c in s)

def keylayout (rng, i, mon):
    data = layout (rng, i, False, 4)
    for l in data['layout']:
        # no such key on a Mac
        l['layer'].pop ('Fr_menu', None)
    out, btn, kd = case (rng, 'keylayout', data)
    readKeylayout (mon, out, data, btn)

def readKeylayout (mon, out, data, btn):
    root = xml11 (out)
    same (root.tag, 'keyboard', 'root element')
    same (root.get ('name'), data['name'], 'name')
    lay, = root.findall ('layouts/layout')
    modmap = [x for x in root.findall ('modifierMap') if x.get ('id') == lay.get ('modifiers')]
    mapset = [x for x in root.findall ('keyMapSet') if x.get ('id') == lay.get ('mapSet')]
    require (len (modmap) == len (mapset) == 1, 'maps are not referenced correctly', out=out[:600])
    sel = {x.get ('mapIndex'): [m.get ('keys') for m in x.findall ('modifier')] for x in modmap[0].findall ('keyMapSelect')}
    same (sel, {'0': [''], '1': ['anyShift caps?'], '2': ['caps'], '3': ['anyOption']}, 'modifiers')
    same (modmap[0].get ('defaultIndex'), '0', 'default layer')
    maps = mapset[0].findall ('keyMap')
    same (sorted (x.get ('index') for x in maps), [str (n) for n in range (len (data['layout']))], 'layers')
    for km in maps:
        l = data['layout'][int (km.get ('index'))]['layer']
        want = {}
        for k, t in l.items ():
            want.setdefault (btn[k]['scancode']['macos'], set ()).add (t)
        got = {}
        for k in km.findall ('key'):
            got.setdefault (int (k.get ('code')), set ()).add (unref (k.get ('output')))
        same (got, want, f'texts of layer {km.get ("index")}')
        mon.event ('macos text', len (want))
        if any (ord (c) < 32 for x in want.values () for t in x for c in t):
            mon.event ('macos control character')
    mon.event ('macos')
    mon.distinct ('keylayout', out)

# -- Klavaro

def nfc (t):
    return unicodedata.normalize ('NFC', t) if t else ''

def klavaro (rng, i, mon):
    data = layout (rng, i, rng.random () < 0.5, 6, minLayers=2, ok=lambda t: '\n' not in t)
    out, btn, kd = case (rng, 'klavaro', data)
    readKlavaro (mon, out, data)

def readKlavaro (mon, out, data):
    rows = [[k for k in l+r if k in model.LETTERKEYS] for l, r in model.ROWS]
    rows = [r for r in rows if r]
    want = [''.join (nfc (data['layout'][n]['layer'].get (k)) or ' ' for k in r) for n in (0, 1) for r in rows]
    same (out.split ('\n'), want + [''], 'rows of keys')
    mon.event ('klavaro')
    mon.distinct ('klavaro', out)

# -- AnySoftKeyboard

A = '{http://schemas.android.com/apk/res/android}'
B = '{http://schemas.android.com/apk/res-auto}'

def ask (rng, i, mon):
    data = layout (rng, i, rng.random () < 0.4, 6, ok=lambda t: not re.search ('[\x00-\x08\x0b\x0c\x0e-\x1f]', t))
    out, btn, kd = case (rng, 'ask', data)
    readAsk (mon, out, data)

def readAsk (mon, out, data):
    root = ET.fromstring (out.encode ('utf-8'))
    same (root.tag, 'Keyboard', 'root element')
    rows = root.findall ('Row')
    mods = modkeys (data)
    want = [[k for k in l+r if k in model.LETTERKEYS and k not in mods] for l, r in model.ROWS[:-1]]
    want = [r for r in want if r]
    same ([len (r.findall ('Key')) for r in rows[:-1]], [len (r) for r in want], 'keys per row')
    for row, names in zip (rows, want):
        for key, k in zip (row.findall ('Key'), names):
            texts = [nfc (l['layer'].get (k)) for l in data['layout']]
            codes = key.get (A+'codes')
            same (''.join (chr (int (x)) for x in codes.split (',')) if codes else '', texts[0], f'code of {k}')
            same (key.get (A+'keyLabel') or '', texts[0], f'label of {k}')
            same (key.get (A+'popupCharacters') or '', ''.join (texts[1:]), f'popup of {k}')
            require ((key.get (A+'popupCharacters') or '').startswith (key.get (B+'hintLabel') or ''), f'hint of {k}', hint=key.get (B+'hintLabel'), popup=key.get (A+'popupCharacters'))
            mon.event ('ask key')
    same ([k.get (A+'codes') for k in rows[-1].findall ('Key')], ['10', '32', '-5'], 'bottom row')
    require ('bottom' in rows[-1].get (A+'rowEdgeFlags', ''), 'last row is not the bottom row')
    mon.event ('ask')
    mon.distinct ('ask', out)

c = fw.Check ('C17', 'lulua-render to five formats for shipped, rearranged and generated layouts on the shipped keyboard and on keyboards with other codes; the file is parsed by independent readers; non-trivial: distinct file',
        minEvents={'xmodmap': 100, 'xmodmap text': 1000, 'level switch': 100, 'keyman': 100, 'macos': 100, 'macos control character': 20, 'klavaro': 100, 'ask': 100, 'ask key': 2000},
        assumptions=['layouts the format can express: single characters and single-key modifiers for at most four layers (xmodmap), at most four layers (macOS), two layers or more (Klavaro), characters allowed in XML',
            'keys sharing one code may get the text of either of them',
            'the names of Keyman keys are those of the shipped keyboard definition'])
for f in (xmodmap, keyman, keylayout, klavaro, ask):
    c.family (f.__name__, f, 140, 2500)
if __name__ == '__main__':
    sys.exit (c.run ())
