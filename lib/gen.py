""" Generators of layouts, keyboards, texts and histories """

import os, yaml, unicodedata, copy, functools
from . import fw, model

@functools.lru_cache (None)
def _shippedRaw ():
    d = os.path.join (fw.REPO, 'lulua', 'data', 'layouts')
    ret = {}
    for f in sorted (os.listdir (d)):
        if f.endswith ('.yaml') and not f.startswith ('.'):
            with open (os.path.join (d, f), encoding='utf-8') as fd:
                ret[f[:-5]] = yaml.safe_load (fd)
    return ret

def shipped ():
    """ Raw definitions of shipped layouts (with text) by file name """
    return {k: copy.deepcopy (v) for k, v in _shippedRaw ().items () if v['layout']}

@functools.lru_cache (None)
def dictionary ():
    return fw.harvest ()

def sizes (rng, limit=100000, small=60):
    """ A size, biased towards small ones and boundaries of constants found in the source """
    r = rng.random ()
    if r < 0.75:
        return rng.randrange (small)
    ints = [x for x in dictionary ()[0] if x+1 <= limit]
    if r < 0.95 and ints:
        return max (0, rng.choice (ints) + rng.choice ((-1, 0, 1)))
    return int (2**rng.uniform (3, 17)) % (limit+1)

ARABIC = [chr (c) for c in range (0x621, 0x63b)] + [chr (c) for c in range (0x641, 0x653)]
MARKS = [chr (c) for c in range (0x64b, 0x656)] + ['\u0670', '\u0300', '\u20dd']
ODD = ['\u200c', '\u200d', '\u200e', '\u200f', '\u202f', '\u00a0', '\ufeff', '\u0640', '\u0660', '\u0669',
        '\u060c', '\u061b', '\u061f', '\u066a', '\U0001f600', '\U00010330', '\x00', '\x7f', '\x85', '\u2028',
        '\ufefb', '\ufef7', '\u0623', '\u0622', '\u0626', '\u0624', '\u0625', '1', '9', '0', ',', ';', '%', '?',
        '\r', '\x1c', '\u3042', 'ß', 'ǅ', 'ª', '²', '½', 'Ⅷ', '_', '-', '«', '€', '+', '^']
# likely to get lost at either end of a text
EDGE = ['\ufeff', '\u200f', '\u200e', '\u061c', '-', '–', '—', '"', '«', '»', '.', '…', '!', '#', '*', '_', '=', '|', ':', '\u0640', '\u064b', '\u0651', '0', '(', ')', '[', ']', '<', '>', '\u200b', '\u2060', '\u00ad', '\u2026', "'", '`', '~', '/', '\\', '•']
SPACE = [' ', '\n', '\t', '\b']
LATIN = list ('abcXYZ.!()[]{}"\'#\\/&<>')

def char (rng, pool=None):
    r = rng.random ()
    if pool and r < 0.6:
        return rng.choice (pool)
    if r < 0.72:
        return rng.choice (ARABIC)
    if r < 0.80:
        return rng.choice (SPACE)
    if r < 0.86:
        return rng.choice (MARKS)
    if r < 0.91:
        return rng.choice (ODD)
    if r < 0.95:
        return rng.choice (LATIN)
    if r < 0.97 and dictionary ()[1]:
        return rng.choice (dictionary ()[1])
    while True:
        c = rng.choice ((rng.randrange (0x20, 0x3000), rng.randrange (0xa000, 0x10000), rng.randrange (0x10000, 0x110000)))
        if not 0xd800 <= c < 0xe000:
            return chr (c)

def text (rng, n, strings=(), skips=True):
    """ About n characters, strings are preferred building blocks """
    strings = list (strings)
    out = []
    total = 0
    mode = rng.choice (('mixed', 'mostly', 'broken', 'repeat'))
    while total < n:
        r = rng.random ()
        if strings and (mode == 'mostly' and r < 0.93 or mode == 'mixed' and r < 0.6 or mode in ('broken', 'repeat') and r < 0.7 or not skips):
            t = rng.choice (strings)
            if mode == 'broken' and len (t) > 1 and rng.random () < 0.5 and skips:
                t = t[:rng.randrange (1, len (t))]
            if mode == 'repeat' and rng.random () < 0.2:
                t = t * rng.randrange (1, 12)
        else:
            t = char (rng)
        out.append (t)
        total += len (t)
    s = ''.join (out)
    if not skips:
        return s
    s = s[:n]
    if s and rng.random () < 0.15:
        s = rng.choice (EDGE) + s[1:]
    if s and rng.random () < 0.15:
        s = s[:-1] + rng.choice (EDGE)
    return s

MODS = ['El_shift', 'Er_shift', 'Dl_caps', 'Dr1', 'Fr_altgr', 'El1', 'Fl_ctrl', 'Fr_ctrl', 'Fl_alt', 'Fl_win']
SPECIAL = {'CD_ret': '\n', 'Cl_tab': '\t', 'Br_bs': '\b', 'Fl_space': ' ', 'Fr_space': ' '}

def pool (rng, n, multi=True):
    """ n different key texts, with lots of common prefixes if multi """
    p = set ()
    alphabet = [char (rng, ARABIC)[:1] for _ in range (rng.randrange (2, 30))]
    tries = 0
    while len (p) < n:
        tries += 1
        r = rng.random ()
        if multi and r < 0.45:
            t = ''.join (rng.choice (alphabet) for _ in range (rng.choice ((2, 2, 2, 3, 3, 4, 5, 8))))
        elif multi and r < 0.6 and p:
            t = rng.choice (sorted (p)) + rng.choice (alphabet)
        elif r < 0.8 and tries < 5*n:
            t = rng.choice (alphabet)
        else:
            t = char (rng)[:1]
        p.add (t)
    return sorted (p)

def layout (rng, multi=True, layers=None, special=True, dup=True, mods=None, multimod=True, nkeys=None, lettersOnly=False, modCount=None, ascii=False, empty=True, onmods=None):
    """ Random layout definition for ibmpc105 """
    nl = layers or rng.choice ((1, 2, 2, 3, 4, 4, 5, 6))
    avail = list (mods or MODS)
    rng.shuffle (avail)
    used = set ()
    out = []
    modkeys = set ()
    seen = set ()
    for i in range (nl):
        if i == 0 and rng.random () < 0.95:
            m = [[]]
            seen.add (frozenset ())
        else:
            m = []
            for _ in range (modCount or rng.choice ((1, 2, 2, 3))):
                k = rng.choice ((1, 1, 1, 2, 2, 3)) if multimod else 1
                for _ in range (20):
                    c = rng.sample (avail, min (k, len (avail)))
                    if frozenset (c) not in seen:
                        break
                else:
                    continue
                seen.add (frozenset (c))
                m.append (c)
                modkeys |= set (c)
            if not m:
                break
        out.append (m)
    keys = [k for k in model.LETTERKEYS if k not in modkeys]
    if onmods if onmods is not None else rng.random () < 0.3:
        # text on keys that are modifiers only together with others
        alone = {k for m in out for c in m for k in c if len (c) == 1}
        keys += [k for k in model.LETTERKEYS if k in modkeys and k not in alone]
    p = pool (rng, rng.choice ((3, 10, 40, 80)), multi=multi)
    data = {'name': 'gen-%d' % rng.randrange (10**6), 'layout': []}
    for i, m in enumerate (out):
        lay = {}
        n = nkeys or (0 if empty and i and rng.random () < 0.15 else rng.randrange (1, len (keys)+1))
        for k in rng.sample (keys, min (n, len (keys))):
            lay[k] = rng.choice (p)
        if special and (n or not empty):
            for k, t in SPECIAL.items ():
                if (i == 0 and rng.random () < 0.9 or rng.random () < 0.15) and not lettersOnly:
                    lay[k] = t if rng.random () < 0.9 else rng.choice (p)
        if not dup:
            for k in list (lay):
                if any (lay[k] in l['layer'].values () for l in data['layout']) or list (lay.values ()).count (lay[k]) > 1:
                    del lay[k]
        data['layout'].append ({'modifier': m, 'layer': lay})
    return data

def anyLayout (rng, i=None, **kw):
    """ Shipped layout, shipped layout with rearranged texts or generated one, as raw definition """
    sh = shipped ()
    names = sorted (sh)
    if i is not None and i < len (names):
        return sh[names[i]]
    r = rng.random ()
    if r < 0.25:
        return sh[rng.choice (names)]
    if r < 0.4:
        d = sh[rng.choice (names)]
        for l in d['layout']:
            ks, vs = list (l['layer'].keys ()), list (l['layer'].values ())
            rng.shuffle (vs)
            l['layer'] = dict (zip (ks, vs))
        d['name'] = 'shuffled-' + d['name']
        return d
    return layout (rng, **kw)

def keyboardData (rng):
    """ Random keyboard definition """
    rows = []
    n = 0
    style = rng.randrange (4)
    # names which differ in a detail only
    near = ['k'] + sorted ({''.join (rng.choice ("kkKK+_ -.1'*~#") for _ in range (rng.randrange (1, 5))) for _ in range (400)} - {'k'})
    rng.shuffle (near)
    for i in range (rng.randrange (0, 7)):
        row = []
        for side in range (2):
            b = []
            for j in range (rng.randrange (0, 9)):
                nm = {0: f'K{n}', 1: f'{"ABCDEFG"[i]}{"lr"[side]}{j}', 2: rng.choice (('k', 'ك', 'x y', '1', '')) + '.' + str (n), 3: near[n]}[style]
                n += 1
                kind = rng.choice ((None, 'standard', 'letter', 'letter', 'multi'))
                d = {'name': nm}
                if kind:
                    d['kind'] = kind
                if kind == 'multi':
                    d['span'] = rng.choice ((1, 2, 3))
                if rng.random () < 0.6:
                    d['width'] = rng.choice ((1, 1.25, 1.5, 2, 0.5, 3, 1.125, 0.0625, 2/3, 12345, round (rng.random ()*4, rng.randrange (1, 8))))
                if rng.random () < 0.3:
                    d['isMarked'] = rng.random () < 0.7
                if rng.random () < 0.7:
                    sc = {}
                    if rng.random () < 0.8:
                        sc['xorg'] = rng.randrange (256)
                    if rng.random () < 0.7:
                        sc['windows'] = [rng.randrange (256) for _ in range (rng.choice ((1, 2)))]
                    if rng.random () < 0.5:
                        sc['keyman'] = 'K_' + str (n)
                    if rng.random () < 0.4:
                        sc['macos'] = rng.randrange (128)
                    d['scancode'] = sc
                elif rng.random () < 0.3:
                    d['scancode'] = None
                b.append (d)
            row.append (b)
        rows.append (row)
    word = lambda: rng.choice (('', 'some keyboard', 'x\ny', 'kbd', 'لوحة', 'a: b', ' x', 'x ', '\tx\n', 'x\n', 'Kbd', 'e\u0301', '\u00e9', '\u064a\u0654', 'x  y', '<&>', '"', '#', '\ufeffx', 'null', '1', 'x'*300))
    return {'name': word () if rng.random () < 0.4 else rng.choice (('kbd', 'لوحة', 'a: b')), 'description': word (), 'rows': rows}
