import sys, copy
sys.path.insert (0, '/verif')
from lib import fw, gen, model
from lib.fw import require, same

GenericLayout, ButtonCombination, defaultKeyboards, defaultLayouts, PhysicalKeyboard, Button = fw.resolve ('lulua.layout:GenericLayout', 'lulua.layout:ButtonCombination', 'lulua.keyboard:defaultKeyboards', 'lulua.layout:defaultLayouts', 'lulua.keyboard:PhysicalKeyboard', 'lulua.keyboard:Button')
KB = defaultKeyboards['ibmpc105']

def raises (f, *args):
    try:
        r = f (*args)
    except KeyError:
        return True, None
    return False, r

def ckey (c):
    return (tuple (sorted (c[0])), tuple (sorted (c[1])))

def verify (rng, data, lay, kb, mon, full=True):
    ref = model.RefLayout (data)
    allmods = [frozenset (m) for l in data['layout'] for m in l['modifier']]
    names = [b.name for b in kb.keys ()]
    def comb (c):
        return ButtonCombination (frozenset (map (kb.find, c[0])), frozenset (map (kb.find, c[1])))
    # text → combinations
    texts = sorted (ref.texts)
    rng.shuffle (texts)
    for t in texts:
        match, combs = lay (t)
        same (match, t, 'lookup of a defined text')
        same (sorted (map (ckey, map (model.name, combs))), sorted (map (ckey, ref.texts[t])), 'combinations of a text', text=t)
        mon.event ('text lookup')
        # longest prefix wins
        s = t + gen.text (rng, rng.randrange (0, 6), texts)
        match, combs = lay (s)
        same (match, ref.longest (s), 'longest defined prefix', buffer=s)
        same (sorted (map (ckey, map (model.name, combs))), sorted (map (ckey, ref.texts[match])), 'combinations of a prefix', text=match)
        mon.event ('prefix lookup')
    # undefined texts
    for _ in range (30):
        s = gen.text (rng, rng.randrange (1, 5), texts)
        want = ref.longest (s)
        err, r = raises (lay, s)
        if want is None:
            require (err, 'undefined text answered', text=s, answer=r)
            mon.event ('undefined text')
        else:
            require (not err and r[0] == want, 'defined prefix', text=s, want=want, got=r)
    # iteration
    it = list (lay)
    same (sorted (t for t, _ in it), sorted (ref.texts), 'iteration lists every text once')
    for t, combs in it:
        same (sorted (map (ckey, map (model.name, combs))), sorted (map (ckey, ref.texts[t])), 'combinations listed for a text', text=t)
    mon.event ('iteration')
    # combination → text
    for c, t in ref.comb.items ():
        same (lay.getText (comb (c)), t, 'text of a combination', combination=c)
        mon.event ('combination lookup')
    cand = allmods + [frozenset (rng.sample (names, min (len (names), rng.choice ((0, 1, 1, 2, 3))))) for _ in range (30)]
    # sub- and supersets of modifiers
    for m in list (allmods):
        if m:
            cand.append (frozenset (rng.sample (sorted (m), len (m)-1)))
        cand.append (m | {rng.choice (names)})
    for m in cand:
        mm = frozenset (map (kb.find, m))
        same (bool (lay.isModifier (mm)), m in ref.mods, 'isModifier', mod=sorted (m))
        err, r = raises (lay.modifierToLayer, mm)
        if m in ref.mods:
            require (not err, 'modifier not found', mod=m)
            same (r[0], ref.mods[m], 'layer selected by modifier', mod=sorted (m))
            same ({b.name: t for b, t in r[1].layout.items ()}, data['layout'][ref.mods[m]]['layer'], 'layer content')
            mon.event ('modifier')
        else:
            require (err, 'undefined modifier set answered', mod=sorted (m), answer=r)
            mon.event ('no modifier')
        for n in rng.sample (names, min (len (names), 12)):
            c = model.C (m, n)
            if c not in ref.comb:
                err, r = raises (lay.getText, comb (c))
                require (err, 'text of undefined combination answered', combination=c, answer=r)
                mon.event ('undefined combination')
    # key → texts
    for n in names:
        got = list (lay.getButtonText (kb.find (n)))
        same (got, [l['layer'].get (n) for l in data['layout']], 'texts of a key layer by layer', key=n)
        mon.event ('key lookup')
    same (len (lay.layers), len (data['layout']), 'number of layers')
    mon.distinct (data['name'], repr (data)[:2000])

def generic (rng, data, g, mon):
    same (len (g), sum (len (l['layer']) for l in data['layout']), 'number of texts of generic layout')
    same (sorted (g.buttons ()), sorted (x for l in data['layout'] for x in l['layer'].items ()), 'all keys of generic layout')
    mon.event ('generic')

def known (rng, i, mon):
    data = gen.anyLayout (rng, i)
    g = GenericLayout.deserialize (copy.deepcopy (data))
    generic (rng, data, g, mon)
    lay = g.specialize (KB)
    verify (rng, data, lay, KB, mon)
    if i % 3 == 0:
        # repeat, lookups change nothing
        verify (rng, data, lay, KB, mon)
        verify (rng, data, g.specialize (KB), KB, mon)
        generic (rng, data, g, mon)

def shippedByName (rng, i, mon):
    sh = gen.shipped ()
    nm = sorted (sh)[i % len (sh)]
    g = defaultLayouts[nm]
    same (g.name, sh[nm]['name'], 'name')
    verify (rng, sh[nm], g.specialize (defaultKeyboards['ibmpc105']), KB, mon)

def keyboardLookup (kd, kb, mon):
    flat = [(r, b) for r, (x, y) in enumerate (kd['rows']) for b in x+y]
    same (len (kb), len (flat), 'number of keys')
    same ([b.name for b in kb.keys ()], [b['name'] for r, b in flat], 'keys in order')
    same ([[[b.name for b in s] for s in row] for row in kb], [[[b['name'] for b in s] for s in row] for row in kd['rows']], 'rows')
    for r, b in flat:
        for f in (kb.find, lambda n: kb[n]):
            k = f (b['name'])
            same (k.name, b['name'], 'key by name')
            same (k.width, b.get ('width', 1), 'width by name', key=b['name'])
        same (kb.getRow (k), r, 'row of a key', key=b['name'])
        same (kb.getRow (Button (b['name'])), r, 'row of an equal key', key=b['name'])
        mon.event ('key by name')
    have = {b['name'] for r, b in flat}
    for n in ('', 'nope', 'Bl', 'K', 'Bl11', 'bl1', None):
        if n not in have:
            err, r = raises (lambda n: kb[n], n)
            require (err, 'unknown key answered', name=n, answer=r)
            mon.event ('unknown key')

def foreign (rng, i, mon):
    """ other keyboards, several at the same time """
    sets = []
    for _ in range (2):
        kd = gen.keyboardData (rng)
        sets.append ((kd, PhysicalKeyboard.deserialize (copy.deepcopy (kd))))
    for kd, kb in sets:
        keyboardLookup (kd, kb, mon)
        names = [b['name'] for row in kd['rows'] for side in row for b in side]
        if len (names) < 4:
            continue
        nm = rng.randrange (1, min (6, len (names)-2))
        mods, keys = names[:nm], names[nm:]
        p = gen.pool (rng, rng.choice ((2, 10, 40)))
        data = {'name': f'foreign{i}', 'layout': []}
        seen = set ()
        for l in range (rng.randrange (1, 5)):
            m = [[]] if l == 0 else []
            if l:
                for _ in range (3):
                    c = frozenset (rng.sample (mods, rng.randrange (1, nm+1)))
                    if c not in seen:
                        seen.add (c)
                        m.append (sorted (c))
            if not m:
                # unreachable layer
                break
            data['layout'].append ({'modifier': m, 'layer': {k: rng.choice (p) for k in rng.sample (keys, rng.randrange (1, len (keys)+1))}})
        g = GenericLayout.deserialize (copy.deepcopy (data))
        verify (rng, data, g.specialize (kb), kb, mon)
        # a layout for another keyboard is an error
        other = next (k for d, k in sets if k is not kb)
        have = {b.name for b in other.keys ()}
        need = {k for l in data['layout'] for k in l['layer']} | {k for l in data['layout'] for m in l['modifier'] for k in m}
        err, r = raises (g.specialize, other)
        require (err == (not need <= have), 'layout adapted to a keyboard without its keys', missing=need-have)
        mon.event ('foreign keyboard')

def real (rng, i, mon):
    keyboardLookup (model.IBM, defaultKeyboards['ibmpc105'], mon)

c = fw.Check ('C03', 'shipped, rearranged and generated layouts on the shipped and on generated keyboards, every defined and many undefined texts/combinations looked up; non-trivial: distinct layout',
        minEvents={'text lookup': 10000, 'undefined text': 2000, 'undefined combination': 10000, 'combination lookup': 10000, 'no modifier': 5000, 'unknown key': 100, 'foreign keyboard': 50})
c.family ('shipped', shippedByName, len (gen.shipped ()), 55)
c.family ('known', known, 300, 6000)
c.family ('foreign', foreign, 150, 3000)
c.family ('keyboard', real, 2, 2)
sys.exit (c.run ())
