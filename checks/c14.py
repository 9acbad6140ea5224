import sys
from collections import Counter
sys.path.insert (0, '/verif')
from lib import fw, gen, model, hist, effort, opt
from lib.fw import require, same

GenericLayout = fw.resolve ('lulua.layout:GenericLayout')

def verify (c, mon):
    old, new = c.data, c.new
    ctx = c.describe ()
    require (isinstance (new, dict) and isinstance (new.get ('layout'), list), 'no layout was written', out=c.out, **ctx)
    same (len (new['layout']), len (old['layout']), 'number of layers changed', **ctx)
    for i, (a, b) in enumerate (zip (old['layout'], new['layout'])):
        same (set (map (frozenset, b['modifier'])), set (map (frozenset, a['modifier'])), f'modifiers of layer {i} changed', **ctx)
    def texts (d):
        return Counter (t for l in d['layout'] for t in l['layer'].values ())
    same (dict (texts (new)), dict (texts (old)), 'texts changed', **ctx)
    mon.event ('texts conserved', sum (texts (old).values ()))
    # loadable, independently and by the program itself
    model.RefLayout (new)
    kl = GenericLayout.deserialize (new).specialize (hist.KB)
    same ([{b.name: t for b, t in l.layout.items ()} for l in kl.layers], [l['layer'] for l in new['layout']], 'loaded layout differs', **ctx)
    mods = opt.modkeys (old)
    moved = c.swapped ()
    for i, (a, b) in enumerate (zip (old['layout'], new['layout'])):
        for k in model.KEYS:
            if k not in model.LETTERKEYS or k in mods:
                same (b['layer'].get (k), a['layer'].get (k), f'text of {k} on layer {i}, which is not to be moved, changed', **ctx)
                mon.event ('fixed key')
            elif opt.pinned (c.pins, i, k):
                j, nk = moved.get ((i, k), (i, k))
                same (new['layout'][j]['layer'].get (nk), a['layer'].get (k), f'text of pinned key {i},{k} is not at {j},{nk}', **ctx)
                mon.event ('pinned key')
        unknown = set (b['layer']) - set (model.KEYS)
        require (not unknown, 'unknown keys', unknown=unknown, **ctx)
        if (i, None) in c.pins:
            # everything of this layer not moved away by request
            have = Counter (b['layer'].values ())
            away = {x for x in moved if x[0] == i}
            want = Counter (t for k, t in a['layer'].items () if (i, k) not in away)
            require (not want - have, f'texts of pinned layer {i} are missing', missing=want-have, **ctx)
            if not any (x[0] == i and y[0] != i for x, y in moved.items ()):
                same (dict (have), dict (Counter (a['layer'].values ())), f'texts of pinned layer {i} changed', **ctx)
            mon.event ('pinned layer')
    if c.n == 0 and not c.randomize:
        want = [{} for _ in old['layout']]
        for i, l in enumerate (old['layout']):
            for k, t in l['layer'].items ():
                j, nk = moved.get ((i, k), (i, k))
                want[j][nk] = t
        same ([l['layer'] for l in new['layout']], want, 'not exactly the requested swaps were applied', **ctx)
        mon.event ('swaps exact')
    n = sum (1 for i, l in enumerate (old['layout']) for k, t in l['layer'].items () if new['layout'][i]['layer'].get (k) != t)
    mon.event ('places changed', n)
    if n:
        mon.event ('changed layout')

def run (rng, i, mon):
    c = opt.Case (rng)
    c.run ()
    verify (c, mon)
    mon.distinct (c.out)
    mon.sample (c.describe ())

def exact (rng, i, mon):
    """ No optimization: identity or swaps only """
    c = opt.Case (rng)
    c.n, c.randomize = 0, False
    c.run ()
    verify (c, mon)
    mon.distinct (c.out)

def heavy (rng, i, mon):
    """ Lots of random moves with almost everything pinned """
    c = opt.Case (rng)
    c.randomize = True
    c.n = rng.choice ((0, 300, 1500))
    l = rng.randrange (len (c.data['layout']))
    c.pins = [(j, rng.choice ((None, '*', 'C*', 'D*'))) for j in range (len (c.data['layout'])) if rng.random () < 0.8] + c.pins
    if all (opt.pinned (c.pins, i, k) or (i, None) in c.pins for i, k in opt.movable (c.data)):
        # looking for something to change takes long
        c.n = min (c.n, 20)
    c.run ()
    verify (c, mon)
    mon.distinct (c.out)

c = fw.Check ('C14', 'lulua-optimize on shipped, rearranged and generated layouts with random pins, swaps, randomization, models, steps; the emitted layout is compared with the original; non-trivial: distinct emitted layout',
        minEvents={'changed layout': 60, 'pinned key': 300, 'pinned layer': 25, 'swaps exact': 30, 'fixed key': 3000},
        assumptions=['only layouts whose modifiers have a base effort'])
c.family ('run', run, 120, 3000)
c.family ('exact', exact, 40, 600)
c.family ('heavy', heavy, 50, 1000)
if __name__ == '__main__':
    sys.exit (c.run ())
