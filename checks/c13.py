import sys
from fractions import Fraction
sys.path.insert (0, '/verif')
from lib import fw, gen, model, hist, effort
from lib.fw import require, same
Carpalx, models = fw.resolve ('lulua.carpalx:Carpalx', 'lulua.carpalx:models')
LAY = hist.load (gen.shipped ()['ar-lulua'])[1]
NAMES = sorted (effort.MODELS)

class Ref:
    """ Exact bookkeeping of one instance """
    def __init__ (self, m, other=None):
        self.m = m
        self.included = dict (other.included) if other else {}
        # everything ever accumulated since reset, for the rounding bound
        self.mag = other.mag if other else 0.0
        self.ops = other.ops if other else 0

    def change (self, t, n):
        self.included[t] = self.included.get (t, 0) + Fraction (n)
        if self.included[t] == 0:
            del self.included[t]
        self.mag += abs (float (n))*abs (effort.effort (self.m, t))
        self.ops += 1

    def reset (self):
        self.included.clear ()
        self.mag = 0.0
        self.ops = 0

    def effort (self):
        n = sum (self.included.values ())
        if n == 0:
            return 0, 0
        s = sum (w*Fraction (effort.effort (self.m, t)) for t, w in self.included.items ())
        bound = Fraction (self.mag)*(self.ops+4)*Fraction (1, 2**52)/abs (n)
        return s/n, bound + Fraction (1, 10**9)*abs (s/n)

def sequence (rng, i, mon):
    m = rng.choice (NAMES)
    keys = effort.BASEKEYS[m]
    few = rng.sample (keys, rng.choice ((2, 5, 20)))
    pool = [tuple ((a-b, b) for a, b in (model.C (rng.sample (few, rng.choice ((0, 0, 1, 2))), rng.choice (few)) for _ in range (3))) for _ in range (rng.choice ((1, 3, 20)))]
    real = {t: tuple (map (hist.realComb, t)) for t in pool}
    insts = [(Carpalx (models[m], hist.Writer (LAY)), Ref (m))]
    style = rng.choice (('int', 'dyadic', 'big', 'one', 'tiny'))
    scale = rng.choice ((8, 20, 40))
    def weight ():
        return {'int': rng.randrange (0, 50), 'dyadic': rng.randrange (1, 100)/8, 'big': rng.choice ((1, 3, 10**6, 10**9)), 'one': 1, 'tiny': rng.randrange (1, 100)/2**scale}[style]
    ops = []
    def compare (k):
        c, r = insts[k]
        want, tol = r.effort ()
        got = c.effort
        if not r.included:
            require (got == 0, 'effort without triads is not zero', got=got, ops=ops[-10:])
            mon.event ('empty')
        else:
            require (abs (Fraction (got)-want) <= tol, 'not the weighted mean', got=got, want=float (want), tolerance=float (tol), included=len (r.included), ops=ops[-10:], instance=k)
        mon.event ('comparison')
    for step in range (rng.choice ((5, 30, 120))):
        k = rng.randrange (len (insts))
        c, r = insts[k]
        x = rng.random ()
        if x < 0.45:
            t, n = rng.choice (pool), weight ()
            c.addTriad (real[t], n)
            r.change (t, n)
            ops.append (f'{k} add {n}')
            mon.event ('add')
        elif x < 0.75 and r.included:
            t = rng.choice (sorted (r.included, key=repr))
            w = r.included[t]
            n = w if rng.random () < 0.5 else (w/2 if rng.random () < 0.3 and style in ('dyadic', 'tiny') else Fraction (rng.randrange (0, abs (int (w))+1)))
            n = int (n) if n.denominator == 1 else float (n)
            c.removeTriad (real[t], n)
            r.change (t, -Fraction (n))
            ops.append (f'{k} remove {n}')
            mon.event ('remove')
        elif x < 0.79:
            # removed before it was added, only the sum matters
            t, n = rng.choice (pool), weight ()
            c.removeTriad (real[t], n)
            r.change (t, -Fraction (n))
            t2, n2 = rng.choice (pool), weight ()
            c.addTriad (real[t2], n2)
            r.change (t2, n2)
            c.addTriad (real[t], n)
            r.change (t, n)
            ops.append (f'{k} remove and add {n} {n2}')
            mon.event ('removed before added')
        elif x < 0.85:
            d = {t: weight ()*rng.choice ((1, 1, 1, -1, 0)) for t in rng.sample (pool, rng.randrange (0, len (pool)+1))}
            arg = {real[t]: n for t, n in d.items ()}
            c.addTriads (arg)
            same (arg, {real[t]: n for t, n in d.items ()}, 'argument changed')
            for t, n in d.items ():
                r.change (t, n)
            ops.append (f'{k} addTriads {len (d)}')
            mon.event ('addTriads')
        elif x < 0.88:
            c.reset ()
            r.reset ()
            ops.append (f'{k} reset')
            mon.event ('reset')
        elif x < 0.93:
            # empty it again, in any order
            ts = sorted (r.included, key=repr)
            rng.shuffle (ts)
            for t in ts:
                w = r.included[t]
                w = int (w) if w.denominator == 1 else float (w)
                c.removeTriad (real[t], w)
                r.change (t, -Fraction (w))
            ops.append (f'{k} remove all')
            mon.event ('removed all')
        elif len (insts) < 5:
            c2 = c.copy ()
            insts.append ((c2, Ref (m, r)))
            require (type (c2) is type (c), 'copy has another type')
            same (c2.effort, c.effort, 'copy starts with another value')
            ops.append (f'{k} copy')
            mon.event ('copy')
        # nothing else changed
        for j in range (len (insts)):
            compare (j)
    mon.distinct (m, style, tuple (ops))
    mon.sample (dict (model=m, ops=ops[:12]))

def order (rng, i, mon):
    """ order does not matter """
    m = rng.choice (NAMES)
    keys = effort.BASEKEYS[m]
    ts = [tuple (model.C ([], rng.choice (keys)) for _ in range (3)) for _ in range (60)]
    items = [(t, rng.randrange (1, 1000)) for t in ts]
    want = None
    for _ in range (3):
        rng.shuffle (items)
        c = Carpalx (models[m], hist.Writer (LAY))
        for t, n in items:
            c.addTriad (tuple (map (hist.realComb, t)), n)
        if want is None:
            r = Ref (m)
            for t, n in items:
                r.change (t, n)
            want = float (r.effort ()[0])
        require (effort.close (c.effort, want), 'effort depends on the order', got=c.effort, want=want)
        mon.event ('order')

c = fw.Check ('C13', 'random operation sequences over several instances and copies, exact rational reference after every step; non-trivial: distinct operation sequence',
        minEvents={'comparison': 20000, 'add': 3000, 'remove': 2000, 'reset': 300, 'copy': 300, 'empty': 1000, 'removed all': 200, 'removed before added': 300},
        assumptions=['rounding is allowed up to a bound derived from the number and size of all operations since the last reset'])
c.family ('sequence', sequence, 400, 10000)
c.family ('order', order, 60, 1000)
sys.exit (c.run ())
