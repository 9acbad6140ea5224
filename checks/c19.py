import sys, os, re, copy, unicodedata, yaml
from collections import Counter
from xml.etree import ElementTree as ET
sys.path.insert (0, '/verif')
from lib import fw, gen, model
from lib.fw import require, same
displayText = fw.resolve ('lulua.util:displayText')

S = '{http://www.w3.org/2000/svg}'
FONTS = '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2'
ARROW = {1: '⭡', 2: '⭧', 3: '⭨'}
visible = model.visible

CHUNK = 0x1100
def unicode (rng, i, mon):
    """ All characters """
    for n in range (i*CHUNK, (i+1)*CHUNK):
        if 0xd800 <= n < 0xe000:
            continue
        c = chr (n)
        w = visible (c)
        same (displayText (c), w, f'visible form of U+{n:04X}')
        mon.event ('changed' if w != c else 'unchanged')
        if n % 64 == 0:
            mon.distinct (n)
        # only on their own
        for t in ('ا' + c, c + 'ا'):
            same (displayText (t), t, f'visible form of {t!r}')

def strings (rng, i, mon):
    same (displayText (None), None, 'no text')
    for _ in range (200):
        t = ''.join (rng.choice ((gen.char (rng), rng.choice (gen.MARKS), rng.choice (('\u200f', '\u2067', '\u202f', '\u0600', ' ', '\n')))) for _ in range (rng.randrange (1, 5)))
        if t:
            same (displayText (t), visible (t), f'visible form of {t!r}')
            mon.event ('string')
            mon.distinct (t)

def sane (t):
    return t and all (c in '\t\n\b' and len (t) == 1 or ord (c) >= 0x20 and not 0x7f <= ord (c) < 0xa0 and ord (c) & 0xfffe != 0xfffe for c in t)

def layout (rng, i):
    while True:
        if rng.random () < 0.75 or i < 14:
            d = gen.anyLayout (rng, i, multimod=False, layers=rng.randrange (1, 5))
        else:
            d = gen.anyLayout (rng, None, layers=rng.randrange (1, 5))
        if len (d['layout']) > 4 or d['layout'][0]['modifier'] != [[]]:
            continue
        for l in d['layout']:
            for k in list (l['layer']):
                if not sane (l['layer'][k]):
                    del l['layer'][k]
                elif rng.random () < 0.03:
                    l['layer'][k] = rng.choice (('[]', '[a]', '[', ']', '][', 'a[b]', '[a', 'a]', '[a][b]', '[NNBSP]', '&', '<b>', '&amp;', 'a  b', ' a', 'a ', '"', "'"))
        return d

def keyboard (rng):
    kd = copy.deepcopy (model.IBM)
    if rng.random () < 0.6:
        return None, kd
    # other arrangement of keys
    btns = [b for r in kd['rows'] for s in r for b in s]
    if rng.random () < 0.7:
        rng.shuffle (btns)
    rows = rng.choice ((1, 3, 5, 8))
    kd['rows'] = [[[], []] for _ in range (rows)]
    for b in btns:
        if rng.random () < 0.4:
            b['width'] = rng.choice ((1, 1.25, 1.5, 2, 3, 2.35))
        if rng.random () < 0.1:
            b['isMarked'] = not b.get ('isMarked')
        rng.choice (rng.choice (kd['rows'])).append (b)
    return 'kb.yaml', kd

def num (e, a):
    return float (e.get (a))

def svg (rng, i, mon):
    data = layout (rng, i)
    kname, kd = keyboard (rng)
    heat = None
    if rng.random () < 0.8:
        top = rng.choice ((1, 3, 1000, 10**9))
        heat = {k: rng.choice ((0, rng.randrange (top+1), top)) for k in rng.sample (model.KEYS, rng.randrange (1, len (model.KEYS)))}
        if i % 2:
            # every key is the only most pressed one once in a while
            heat = {k: v//2 for k, v in heat.items ()}
            heat[model.KEYS[i//2 % len (model.KEYS)]] = top
        if not any (heat.values ()):
            heat = None
    with fw.TempDir () as d:
        os.makedirs (os.path.join (d, FONTS))
        for f in ('Thin', 'Regular'):
            with open (os.path.join (d, FONTS, f'IBMPlexSansArabic-{f}.woff2'), 'wb') as fd:
                fd.write (rng.randbytes (50))
        with open (os.path.join (d, 'in.yaml'), 'w') as fd:
            yaml.dump (data, fd, sort_keys=False)
        args = ['-l', 'in.yaml']
        if kname:
            with open (os.path.join (d, kname), 'w') as fd:
                yaml.dump (kd, fd)
            args += ['-k', kname]
        args += ['svg']
        if heat:
            with open (os.path.join (d, 'heat.yaml'), 'w') as fd:
                yaml.dump ({'total': sum (heat.values ()), 'buttons': heat}, fd)
            args += ['--heatmap', 'heat.yaml']
        fw.cliOk ('lulua-render', args + ['out.svg'], cwd=d)
        with open (os.path.join (d, 'out.svg'), 'rb') as fd:
            out = fd.read ()
    picture (mon, out, data, kd, heat)
    mon.distinct (repr (data), kname, heat)

def picture (mon, out, data, kd, heat):
    root = ET.fromstring (out)
    W, H = num (root, 'width'), num (root, 'height')
    group = {}
    for g in root.iter (S+'g'):
        if g.get ('class') in ('cap', 'cap-shadow', 'highlight', 'label'):
            group.setdefault (g.get ('class'), []).append (g)
    # -- keys
    caps = [(num (r, 'y'), num (r, 'x'), num (r, 'width'), num (r, 'height'), r.get ('class')) for g in group['cap'] for r in g.iter (S+'rect')]
    caps.sort ()
    for a, (y, x, w, h, _) in enumerate (caps):
        require (x >= 0 and y >= 0 and x+w <= W and y+h <= H, 'key is outside of the picture', key=caps[a], size=(W, H))
        for y2, x2, w2, h2, _ in caps[:a]:
            require (x+w <= x2 or x2+w2 <= x or y+h <= y2 or y2+h2 <= y, 'keys overlap', a=caps[a], b=(y2, x2, w2, h2))
    rows = [l+r for l, r in kd['rows']]
    rows = [r for r in rows if r]
    names = [b['name'] for r in rows for b in r]
    ys = sorted ({c[0] for c in caps})
    same ([sum (c[0] == y for c in caps) for y in ys], [len (r) for r in rows], 'keys per row')
    btn = {b['name']: b for r in rows for b in r}
    pos = dict (zip (names, caps))
    unit = min (c[2]/btn[n].get ('width', 1) for n, c in pos.items ())
    for n, c in pos.items ():
        require (abs (c[2] - unit*btn[n].get ('width', 1)) < 0.01, f'width of {n}', got=c[2], unit=unit, width=btn[n].get ('width'))
    mon.event ('key', len (pos))
    def at (x, y):
        r = [n for n, c in pos.items () if c[1] <= x < c[1]+c[2] and c[0] <= y < c[0]+c[3]]
        require (len (r) == 1, 'something is not drawn on a key', position=(x, y))
        return r[0]
    # -- texts
    mods = {m[0]: n for n, l in enumerate (data['layout']) for m in l['modifier'] if len (m) == 1}
    want = {}
    for n in names:
        if n in mods:
            want[n] = {0: ARROW[mods[n]]}
            mon.event ('modifier')
        else:
            want[n] = {k: visible (l['layer'][n]) for k, l in enumerate (data['layout']) if n in l['layer']}
        same (pos[n][4] == 'unused', not want[n], f'{n} is marked as unused', texts=want[n])
        mon.event ('used' if want[n] else 'unused')
    got, shadow = {n: {} for n in names}, Counter ()
    for g in group['label']:
        for t in g.iter (S+'text'):
            ts = list (t.iter (S+'tspan'))
            require (len (ts) == 1, 'text without content')
            s = ts[0].text or ''
            control = ts[0].get ('class') == 'controlchar'
            if control:
                s = f'[{s}]'
            cls = t.get ('class').split ()
            x, y = num (t, 'x'), num (t, 'y')
            if 'shadow' in cls:
                shadow[(s, at (x, y))] += 1
                continue
            n = at (x, y)
            c = pos[n]
            layer = {(True, False): 0, (True, True): 1, (False, True): 2, (False, False): 3}[(x < c[1]+c[2]/2, y < c[0]+c[3]/2)]
            require (layer not in got[n], 'two texts at the same place', key=n, layer=layer, a=got[n].get (layer), b=s)
            got[n][layer] = s
            t = None if n in mods else data['layout'][layer]['layer'].get (n)
            same (control, s != t and re.fullmatch (r'\[.*\]', s, re.S) is not None, f'text {s!r} of {n} is shown as control character', text=t)
            if not control:
                same (ts[0].get ('class'), f'layer-{layer+1}', 'style of text')
            mon.event ('label')
    for n in names:
        same (got[n], want[n], f'texts of {n}')
    same (shadow, Counter ((s, n) for n in names for s in got[n].values ()), 'shadows of texts')
    # -- fingers
    hands = {}
    for g in group['cap-shadow']:
        for r in g.iter (S+'rect'):
            n = at (num (r, 'x')+num (r, 'width')/2, num (r, 'y')+num (r, 'height')/2)
            require (n not in hands, 'two hands for one key', key=n)
            hands[n] = set (r.get ('class').split ())
    for n in names:
        if want[n]:
            h, f = model.FINGERS[n]
            same (hands.get (n), {f'finger-{f.lower ()}', f'hand-{h.lower ()}'}, f'hand and finger of {n}')
            mon.event ('finger')
    # -- markers
    marked = Counter ()
    for g in root.iter (S+'g'):
        if g.get ('class') == 'marker':
            on = set ()
            for l in g.iter (S+'line'):
                on |= {at (num (l, 'x1'), num (l, 'y1')), at (num (l, 'x2'), num (l, 'y2'))}
            require (len (on) == 1, 'marker is not on a single key', keys=on)
            marked[on.pop ()] += 1
    same (dict (marked), {n: 1 for n in names if btn[n].get ('isMarked')}, 'marked keys')
    mon.event ('marker', len (marked))
    # -- heat
    ops = {}
    for g in group.get ('highlight', []):
        for c in g.iter (S+'circle'):
            n = at (num (c, 'cx'), num (c, 'cy'))
            require (n not in ops, 'two highlights for one key', key=n)
            p = pos[n]
            require (abs (num (c, 'cx')-p[1]-p[2]/2) < 1 and abs (num (c, 'cy')-p[0]-p[3]/2) < 1, 'highlight is not centered on its key', key=n, center=(num (c, 'cx'), num (c, 'cy')), cap=p)
            require (0 < num (c, 'r') <= min (p[2], p[3])/2, 'highlight is larger than the key', key=n, r=num (c, 'r'))
            m = re.fullmatch (r'\s*opacity:\s*([0-9.e+-]+);?\s*', c.get ('style') or '')
            require (m, 'no opacity', style=c.get ('style'))
            ops[n] = float (m.group (1))
    wh = {k: v/max (heat.values ()) for k, v in heat.items () if v} if heat else {}
    same (set (ops), set (wh), 'highlighted keys')
    for n, v in wh.items ():
        require (abs (ops[n]-v) < 1e-6*max (v, 1e-3), f'heat of {n}', got=ops[n], want=v)
        mon.event ('heat')
    mon.event ('picture')
    mon.sample (dict (layout=data['name'], labels=sum (map (len, want.values ()))))

c = fw.Check ('C19', 'visible form of every Unicode character; SVG pictures of shipped, rearranged and generated layouts on several keyboards, read back by geometry; non-trivial: distinct picture input or text',
        minEvents={'changed': 1000, 'unchanged': 1000000, 'string': 2000, 'picture': 100, 'label': 3000, 'modifier': 200, 'unused': 500, 'heat': 300, 'marker': 150, 'finger': 2000},
        assumptions=['layouts with characters allowed in XML', 'dummy font files'])
c.family ('unicode', unicode, 0x110000//CHUNK, 0x110000//CHUNK)
c.family ('strings', strings, 40, 1000)
c.family ('svg', svg, 160, 3000)
if __name__ == '__main__':
    sys.exit (c.run ())
