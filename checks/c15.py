import sys, re, itertools, random, copy
sys.path.insert (0, '/verif')
from lib import fw, gen, model, hist, effort, opt
from lib.fw import require, same

Annealer, LayoutOptimizer, models = fw.resolve ('lulua.optimize:Annealer', 'lulua.optimize:LayoutOptimizer', 'lulua.carpalx:models')

def quiet ():
    # progress bar
    sys.stderr = open ('/dev/null', 'w')

class State:
    """ Records aliasing: a state changed after being handed out is noticed """
    def __init__ (self, x):
        self.x = x
    def copy (self):
        return State (self.x)

class Walk (Annealer):
    """ Arbitrary integer landscape """
    def __init__ (self, x, f, move):
        super ().__init__ (State (x))
        self.f, self.move = f, move
        self.seen = [] # state at the beginning of each step
        self.after = [] # state after each mutation

    def mutate (self):
        self.seen.append (self.state.x)
        old = self.f (self.state.x)
        # in place, as the layout optimizer does
        self.state.x = self.move (self.state.x)
        self.after.append (self.state.x)
        return self.f (self.state.x) - old

def walk (rng, i, mon):
    kind = rng.choice (('valley', 'noise', 'plateau', 'stairs', 'up', 'constant', 'script'))
    salt = rng.randrange (10**6)
    f = {'valley': lambda x: abs (x-7), 'noise': lambda x: random.Random (f'{salt}{x}').randrange (-1000, 1000),
        'plateau': lambda x: (x//5) % 7, 'stairs': lambda x: -(x//10), 'up': lambda x: x, 'constant': lambda x: 5,
        'script': lambda x: random.Random (f'{salt}{x}').choice ((0, 0, 1, -1, 2, -2, 100, -100))}[kind]
    if i % 20 == 0:
        # long run, getting better until the very end
        kind = 'down'
        g0 = rng.choice ((lambda x: -x, lambda x: -x if x % 100 else x, lambda x: -x*random.Random (f'{salt}{x}').randrange (1, 5)))
        f = g0
        mon.event ('long walk')
    if kind in ('script', 'down'):
        move = lambda x: x+1
    else:
        size = rng.choice ((1, 3, 100))
        move = lambda x: x + rng.randrange (-size, size+1)
    # differences of any size, still exact
    scale, g = 2.0**rng.choice ((0, 0, 0, -10, -30, -60, 20)), f
    f = lambda x: g (x)*scale
    x0 = rng.randrange (-50, 50)
    w = Walk (x0, f, move)
    steps = rng.choice ((0, 1, 2, 3, 10, 50, 300))
    if i % 20 == 0:
        steps = rng.choice ((2000, 5000))
    if rng.random () < 0.6:
        w.coolingFactor = rng.choice ((0, 0, 0.5, 1, 20))
    quiet ()
    best, energy = w.run (steps=steps)
    same (len (w.seen), steps, 'number of steps')
    states = w.seen + [w.state.x]
    same (states[0], x0, 'starting state')
    for k in range (steps):
        require (states[k+1] in (states[k], w.after[k]), 'state is neither the mutated nor the previous one', step=k, before=states[k], mutated=w.after[k], now=states[k+1], kind=kind)
        if states[k+1] == w.after[k] != states[k]:
            mon.event ('accepted')
            if f (states[k+1]) > f (states[k]):
                mon.event ('accepted worse')
        elif w.after[k] != states[k]:
            mon.event ('rejected')
    low = min (map (f, states))
    require (f (best.x) == low, 'result is not the best accepted state', got=f (best.x), best=low, kind=kind, steps=steps, states=states[:50])
    require (best.x in states, 'result was never accepted', state=best.x, states=states[:50])
    same (energy, low-f (x0), 'energy of result', kind=kind, steps=steps)
    require (f (best.x) <= f (x0), 'worse than start')
    if low < f (w.state.x):
        mon.event ('best is not last')
    mon.event ('walk')
    mon.distinct (kind, salt, tuple (states))
    # it can be continued, again from the state it is in
    x1 = w.state.x
    w.seen, w.after = [], []
    best, energy = w.run (steps=20)
    low = min (map (f, w.seen + [w.state.x]))
    require (f (best.x) == low and energy == low-f (x1), 'second run is wrong', got=f (best.x), best=low, energy=energy, kind=kind)

class Monitor:
    pass

def makeOptimizer (rng, c):
    lay = hist.load (c.data)[1]
    KB = hist.KB
    moved = c.swapped ()
    bm = {(i, KB[k]): (moved.get ((i, k), (i, k))[0], KB[moved.get ((i, k), (i, k))[1]]) for i, k in opt.movable (c.data)}
    tr = [(tuple (map (hist.realComb, t)), n) for t, n in c.top ()]
    pins = []
    for l, m in c.pins:
        if m is None:
            pins.append ((l, None))
        else:
            pins += [(l, KB[k]) for k in model.KEYS if opt.pinned ([(l, m)], l, k)]
    mo = Monitor ()
    mo.log = []
    def where (s):
        return {(i, k.name): (j, nk.name) for (i, k), (j, nk) in s.buttonMap.items ()}
    class Opt (LayoutOptimizer):
        def mutate (self, *a, **kw):
            before = where (self.state)
            d = super ().mutate (*a, **kw)
            after = where (self.state)
            mo.log.append ((before, after, d, self.energy ()))
            return d
    return Opt (bm, tr, lay, pins, hist.Writer (lay), model=models[c.model]), mo, where

def steps (rng, i, mon):
    """ Incremental efforts against recomputation after every step """
    c = opt.Case (rng, distinct=False)
    o, mo, where = makeOptimizer (rng, c)
    random.seed (c.seed)
    quiet ()
    if c.randomize:
        for _ in range (rng.choice ((1, 30))):
            o.mutate (withEnergy=False)
    first = where (o.state)
    mo.log = []
    n = rng.choice ((1, 5, 40))
    best, rel = o.run (steps=n)
    same (len (mo.log), n, 'number of steps')
    states = [x[0] for x in mo.log] + [where (o.state)]
    same (states[0], first, 'starting state changed')
    cache = {}
    def eff (s):
        k = tuple (s.items ())
        if k not in cache:
            cache[k] = c.effort (s)
        return cache[k]
    tol = lambda x: 1e-7*max (1, abs (x))
    for k, (before, after, d, e) in enumerate (mo.log):
        same (sorted (after), sorted (first), 'places changed')
        same (sorted (after.values ()), sorted (first.values ()), 'not a permutation')
        a, b = eff (before), eff (after)
        require (abs (e-b) <= tol (b), 'energy after mutation is not the effort of the state', got=e, want=b, step=k, **c.describe ())
        require (abs (d-(b-a)) <= tol (b), 'energy change is wrong', got=d, want=b-a, step=k, **c.describe ())
        require (states[k+1] in (before, after), 'state is neither the mutated nor the previous one', step=k)
        mon.event ('mutation')
        if abs (b-a) > 1e-6:
            mon.event ('effort changed')
        mon.event ('accepted' if states[k+1] == after else 'rejected')
    last = eff (states[-1])
    require (abs (o.energy () - last) <= tol (last), 'energy of final state', got=o.energy (), want=last, **c.describe ())
    effs = [eff (s) for s in states]
    b = eff (where (best))
    require (b <= min (effs) + tol (b), 'a better state was seen', got=b, best=min (effs), start=effs[0], **c.describe ())
    require (where (best) in states, 'result was never accepted', **c.describe ())
    require (abs (rel - (b-effs[0])) <= n*tol (b), 'relative energy', got=rel, want=b-effs[0], **c.describe ())
    require (abs (best.carpalx.effort - b) <= tol (b), 'effort kept with the best state', got=best.carpalx.effort, want=b, **c.describe ())
    if b < effs[-1] - 1e-9:
        mon.event ('best is not last')
    if b < effs[0] - 1e-9:
        mon.event ('improved')
    # keep going from the best state
    o.state = best
    mo.log = []
    best2, rel2 = o.run (steps=5)
    b2 = eff (where (best2))
    require (b2 <= b + tol (b), 'continuing made it worse', got=b2, was=b, **c.describe ())
    require (abs (rel2-(b2-b)) <= 10*tol (b), 'relative energy of second run', got=rel2, want=b2-b, **c.describe ())
    mon.distinct (repr (states[-1]))

def large (rng, i, mon):
    """ As many triads as real corpora have, efforts against recomputation """
    c = opt.Case (rng, distinct=False)
    places = opt.movable (c.data, True)
    c.triads = opt.triads (rng, c.data, (600, 1500, 4000)[i % 3], distinct=False)
    c.limit = 0
    o, mo, where = makeOptimizer (rng, c)
    random.seed (c.seed)
    quiet ()
    first = where (o.state)
    n = rng.choice ((3, 6))
    best, rel = o.run (steps=n)
    tol = lambda x: 1e-7*max (1, abs (x))
    for k, (before, after, d, e) in enumerate (mo.log):
        a, b = c.effort (before), c.effort (after)
        require (abs (e-b) <= tol (b), 'energy after mutation is not the effort of the state', got=e, want=b, step=k, **c.describe ())
        require (abs (d-(b-a)) <= tol (b), 'energy change is wrong', got=d, want=b-a, step=k, **c.describe ())
        mon.event ('mutation with many triads')
    last = c.effort (where (o.state))
    require (abs (o.energy () - last) <= tol (last), 'energy of final state', got=o.energy (), want=last, **c.describe ())
    b = c.effort (where (best))
    require (abs (rel - (b-c.effort (first))) <= n*tol (b), 'relative energy', got=rel, want=b-c.effort (first), **c.describe ())
    mon.distinct (repr (where (o.state)))

def command (rng, i, mon):
    """ What the program reports """
    c = opt.Case (rng, unique=True)
    if rng.random () < 0.5:
        c.randomize = False
    c.run ()
    m = re.search (r'^# energy: *(\S+)$', c.out, re.M)
    require (m, 'no energy in output', out=c.out[:300], **c.describe ())
    energy = float (m.group (1))
    to = c.places (c.new)
    where = {p: to[t] for t, p in c.places (c.data).items ()}
    want = c.effort (where)
    require (abs (energy-want) <= 1e-6*max (1, abs (want)), 'reported energy is not the effort of the layout', got=energy, want=want, **c.describe ())
    m = re.findall (r'final energy (\S+)', c.err)
    require (m and abs (float (m[-1]) - want) <= 1e-6*max (1, abs (want)), 'energy printed at the end is not the effort of the layout', got=m, want=want, **c.describe ())
    moved = c.swapped ()
    start = c.effort ({p: moved.get (p, p) for p in where})
    if not c.randomize:
        require (energy <= start + 1e-6*max (1, abs (start)), 'worse than the starting layout', got=energy, start=start, **c.describe ())
        mon.event ('not worse')
        if energy < start - 1e-6:
            mon.event ('better')
    if 0 < c.limit < len (c.triads):
        mon.event ('limited')
    mon.event ('reported')
    mon.distinct (c.out)
    mon.sample (dict (c.describe (), start=start, energy=energy))

def ties (rng, i, mon):
    """ Triads as frequent as the last one within the limit """
    c = opt.Case (rng, unique=True)
    c.n, c.randomize, c.swaps, c.pins = 0, False, [], []
    c.triads = opt.triads (rng, c.data, rng.choice ((2, 3, 6)))
    high = rng.choice ((0, 0, 1))
    n = rng.randrange (1, 1000)
    c.triads = {t: (n if k >= high else n+1+k) for k, t in enumerate (c.triads)}
    if len (c.triads) < 2+high:
        return
    ts = list (c.triads)
    if rng.random () < 0.5:
        c.triads = {t: c.triads[t] for t in reversed (ts)}
    c.limit = rng.randrange (1, len (ts)+1)
    c.run ()
    m = re.search (r'^# energy: *(\S+)$', c.out, re.M)
    require (m, 'no energy in output', out=c.out[:300], **c.describe ())
    energy = float (m.group (1))
    where = {p: p for p in c.places (c.data).values ()}
    everything, wants, limit = c.triads, [], c.limit
    c.limit = 0
    for s in itertools.combinations (everything, limit):
        if all (t in s for t in ts[:min (high, limit)]):
            c.triads = {t: everything[t] for t in s}
            wants.append (c.effort (where))
    require (any (abs (energy-w) <= 1e-6*max (1, abs (w)) for w in wants), 'reported energy is not the effort of as many of the most frequent triads as requested', got=energy, possible=sorted (wants), limit=limit, triads=len (ts), layout=c.data['name'])
    m = re.search (r'^# triads: *(\d+)$', c.out, re.M)
    require (not m or int (m.group (1)) == limit, 'number of triads reported', got=m and m.group (1), want=limit)
    if max (wants) - min (wants) > 1e-6 and len (wants) > 1:
        mon.event ('tie at the limit')
    mon.distinct (c.out)

def improves (rng, i, mon):
    """ It is there to find better layouts, and almost all are better than a bad one """
    tried = []
    for _ in range (6):
        c = opt.Case (rng, unique=True)
        c.data = opt.uniq (gen.shipped ()[rng.choice (('ar-lulua', 'ar-asmo663', 'ar-linux', 'ar-osx'))])
        c.n, c.randomize, c.swaps, c.pins, c.limit = 500, False, [], [], 0
        c.triads = opt.triads (rng, c.data, 60)
        c.run ()
        to = c.places (c.new)
        where = {p: to[t] for t, p in c.places (c.data).items ()}
        start, end = c.effort ({p: p for p in where}), c.effort (where)
        if end < start - 1e-6:
            mon.event ('found something better')
            mon.distinct (c.out)
            return
        tried.append ((c.describe (), start, end))
    require (False, 'nothing better found in 500 steps, again and again', tried=tried)

c = fw.Check ('C15', 'annealer on integer landscapes (exact), layout optimizer with recomputation of every effort by an independent model, lulua-optimize reports against the emitted layout; non-trivial: distinct sequence of states or output',
        minEvents={'walk': 300, 'long walk': 30, 'accepted worse': 500, 'rejected': 500, 'best is not last': 15, 'effort changed': 150, 'improved': 25, 'reported': 60, 'better': 12, 'limited': 10, 'tie at the limit': 15, 'mutation with many triads': 40},
        assumptions=['the first modifier of a layer is used to type moved texts, as documented in the code', 'only layouts whose modifiers have a base effort'])
c.family ('walk', walk, 800, 10000)
def internals ():
    """ are states still what they used to be? otherwise only results can be judged """
    try:
        o, mo, where = makeOptimizer (random.Random (1), opt.Case (random.Random (1), distinct=False))
        where (o.state)
        o.state.carpalx.effort
        o.mutate (withEnergy=False)
        return True
    except (AttributeError, TypeError, NameError):
        return False
if internals ():
    c.family ('steps', steps, 300, 3000)
    c.family ('large', large, 24, 200)
else:
    c.assumptions.append ('states of the optimizer could not be observed, only its results')
    for k in ('effort changed', 'improved', 'mutation with many triads', 'best is not last'):
        c.minEvents.pop (k)
c.family ('command', command, 150, 1500)
c.family ('ties', ties, 60, 600)
c.family ('improves', improves, 8, 40)
sys.exit (c.run ())
