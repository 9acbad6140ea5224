import sys, itertools
sys.path.insert (0, '/verif')
from lib import fw, gen, model, hist, effort
from lib.fw import require, same
Button, LetterButton, PhysicalKeyboard = fw.resolve ('lulua.keyboard:Button', 'lulua.keyboard:LetterButton', 'lulua.keyboard:PhysicalKeyboard')
Carpalx, models = fw.resolve ('lulua.carpalx:Carpalx', 'lulua.carpalx:models')
LAY = hist.load (gen.shipped ()['ar-lulua'])[1]
NAMES = sorted (effort.MODELS)
SINGLE = {k: hist.realComb (model.C ([], k)) for k in model.KEYS}

def new (m, lay=LAY):
    return Carpalx (models[m], hist.Writer (lay))

def one (c, t, n=1):
    c.reset ()
    c.addTriad (t, n)
    return c.effort

def check (m, got, t, **kw):
    want = effort.effort (m, t)
    require (effort.close (got, want), 'effort differs from the model', model=m, triad=t, got=got, want=want, **kw)

def single (rng, i, mon):
    """ all triads of single keys starting with a certain key """
    m = NAMES[i % len (NAMES)]
    keys = effort.BASEKEYS[m]
    if i // len (NAMES) >= len (keys):
        return
    a = keys[i // len (NAMES)]
    c = new (m)
    pairs = list (itertools.product (keys, keys))
    rng.shuffle (pairs)
    for b, d in pairs:
        t = (model.C ([], a), model.C ([], b), model.C ([], d))
        check (m, one (c, (SINGLE[a], SINGLE[b], SINGLE[d])), t)
    mon.event ('single key triad', len (pairs))
    mon.distinct (m, a)

def otherKeyboard (rng):
    """ A keyboard with the same keys in other places, which is not used """
    keys = rng.sample (model.KEYS, rng.randrange (5, len (model.KEYS)))
    rows = [[[], []] for _ in range (rng.randrange (2, 9))]
    for k in keys:
        rng.choice (rng.choice (rows)).append (rng.choice ((Button, LetterButton)) (k, width=rng.choice ((1, 2))))
    kb = PhysicalKeyboard ('other', 'x', rows)
    for k in keys:
        kb.getRow (kb[k])
        kb.find (k)
    return kb

def combos (rng, i, mon):
    """ combinations of several keys, caches warm and shared """
    cs = {m: new (m) for m in NAMES}
    copies = {m: [c] for m, c in cs.items ()}
    seen = []
    for _ in range (150):
        m = rng.choice (NAMES)
        keys = effort.BASEKEYS[m]
        if seen and rng.random () < 0.3:
            t = rng.choice (seen)
            if rng.random () < 0.5:
                # same keys, another order or another role
                t = list (t)
                rng.shuffle (t)
                t = tuple (t)
        else:
            few = rng.sample (keys, rng.choice ((2, 4, 10, len (keys))))
            t = tuple (model.C (rng.sample (few, min (len (few), rng.choice ((0, 0, 1, 1, 2, 3) if rng.random () < 0.9 else (4, 5, 6, 7)))), rng.choice (few)) for _ in range (3))
            t = tuple ((a-b, b) for a, b in t)
        seen.append (t)
        if max (len (a)+len (b) for a, b in t) > 5:
            mon.event ('six keys or more')
        c = rng.choice (copies[m])
        if rng.random () < 0.03:
            otherKeyboard (rng)
        if rng.random () < 0.1 and len (copies[m]) < 5:
            c = c.copy ()
            copies[m].append (c)
        real = tuple (hist.realComb (x, rng.choice ((hist.KB, hist.KB2))) for x in t)
        check (m, one (c, real, rng.choice ((1, 1, 2, 1000, 0.5))), t)
        mon.event ('combination triad')
        mon.distinct (m, repr (sorted (map (repr, t))))

def typed (rng, i, mon):
    """ triads of real texts, all layouts """
    data = gen.anyLayout (rng, i)
    ref, lay = hist.load (data)
    m = rng.choice (NAMES)
    c = new (m, lay)
    h = hist.synthetic (rng, ref, 300) if rng.random () < 0.5 else hist.typed (rng, ref, lay, 300)[0]
    for t in model.RefStats.count (h).triads:
        if effort.defined (m, t):
            check (m, one (c, tuple (map (hist.realComb, t))), t, layout=data['name'])
            mon.event ('typed triad')

c = fw.Check ('C12', 'all triads of single keys for both models, random triads of combinations with repeated, permuted and shared evaluation; non-trivial: distinct (model, first key) for the exhaustive part and distinct (model, triad)',
        minEvents={'single key triad': 200000, 'combination triad': 5000, 'typed triad': 2000, 'six keys or more': 200})
c.family ('single', single, 2*max (map (len, effort.BASEKEYS.values ())))
c.family ('combos', combos, 120, 4000)
c.family ('typed', typed, 100, 3000)
sys.exit (c.run ())
