""" Cases for the layout optimizer """

import os, pickle, random, re, fnmatch, yaml
from collections import Counter
from . import fw, gen, model, hist, effort

MODS = ['El_shift', 'Er_shift', 'Dl_caps', 'Dr1', 'El1', 'Fr_altgr']
TriadStats = fw.resolve ('lulua.stats:TriadStats')
PATTERNS = ('B*', 'C*', '?l*', '*1', 'D[lr]?', '*', 'Er*', 'Dl[!12]', 'F*', '*_*')

def usable (data):
    """ Effort must be defined for whatever the optimizer may come up with """
    return all (k in effort.BASEKEYS['mod01'] for l in data['layout'] for k in l['modifier'][0])

def uniq (data):
    """ Remove texts occurring more than once """
    seen = set ()
    for l in data['layout']:
        for k in list (l['layer']):
            if l['layer'][k] in seen:
                del l['layer'][k]
            else:
                seen.add (l['layer'][k])
    return data

def layout (rng, unique):
    while True:
        if rng.random () < 0.1:
            # layer numbers with more than one digit
            d = gen.layout (rng, mods=MODS, modCount=1, nkeys=rng.choice ((2, 5)), layers=rng.choice ((11, 13)))
        else:
            d = gen.anyLayout (rng, mods=MODS, modCount=rng.choice ((1, 1, None)), nkeys=rng.choice ((None, 3, 12)))
        if not usable (d):
            continue
        if unique:
            d = uniq (d)
        if sum (len (l['layer']) for l in d['layout']) >= 3 and movable (d, True):
            return d

def modkeys (data):
    return {k for l in data['layout'] for m in l['modifier'] for k in m}

def movable (data, used=False):
    m = modkeys (data)
    return [(i, k) for i, l in enumerate (data['layout']) for k in model.LETTERKEYS if k not in m and (not used or k in l['layer'])]

def triads (rng, data, n, distinct=True):
    places = movable (data, True)
    if rng.random () < 0.4:
        places = rng.sample (places, min (len (places), rng.choice ((1, 2, 4))))
    ret = {}
    counts = rng.sample (range (1, 50*n+50), n) if distinct else [rng.randrange (1, 4) for _ in range (n)]
    def comb ():
        i, k = rng.choice (places)
        return model.C (rng.choice (data['layout'][i]['modifier']), k)
    for c in counts:
        t = (comb (), comb (), comb ())
        # other modifiers of the same layer may lack a base effort
        ret[t] = c
    return ret

def pins (rng, data):
    ret = []
    for _ in range (rng.choice ((0, 1, 1, 2, 3))):
        layer = rng.randrange (len (data['layout']))
        if len (data['layout']) > 10 and rng.random () < 0.7:
            layer = rng.randrange (10, len (data['layout']))
        r = rng.random ()
        if r < 0.35:
            ret.append ((layer, None))
        elif r < 0.7:
            ret.append ((layer, rng.choice (model.LETTERKEYS)))
        else:
            ret.append ((layer, rng.choice (PATTERNS)))
    return ret

def pinArg (p):
    return ';'.join (str (l) if k is None else f'{l},{k}' for l, k in p)

def pinned (p, layer, key):
    return any (l == layer and m is not None and fnmatch.fnmatchcase (key, m) for l, m in p)

class Case:
    def __init__ (self, rng, unique=None, distinct=True, maxSteps=400):
        self.unique = rng.random () < 0.6 if unique is None else unique
        self.data = layout (rng, self.unique)
        self.model = rng.choice (sorted (effort.MODELS))
        self.n = rng.choice ((0, 1, 2, 5, 20, 60, maxSteps))
        self.randomize = rng.random () < 0.4
        self.pins = pins (rng, self.data)
        self.seed = rng.randrange (10**9)
        places = movable (self.data)
        rng.shuffle (places)
        self.swaps = []
        for _ in range (rng.choice ((0, 0, 1, 2, 4))):
            if len (places) >= 2:
                a = places.pop ()
                # may concern the same text more than once
                b = rng.choice (rng.choice (self.swaps)) if self.swaps and rng.random () < 0.4 else places.pop ()
                if rng.random () < 0.1:
                    b = a
                self.swaps.append (rng.choice (((a, b), (b, a))))
        self.triads = triads (rng, self.data, rng.choice ((1, 3, 10, 30)), distinct)
        self.limit = rng.choice ((0, 0, 1, 2, 5, len (self.triads), 1000))

    def top (self):
        t = sorted (self.triads.items (), key=lambda x: -x[1])
        return t[:self.limit] if self.limit > 0 else t

    def swapped (self):
        """ Definition after requested swaps """
        moved = {}
        for a, b in self.swaps:
            # each exchanges the places of what was there originally
            moved[a], moved[b] = moved.get (b, b), moved.get (a, a)
        return moved

    def args (self, f):
        a = ['-l', f, '-n', self.n, '-m', self.model]
        if self.randomize:
            a.append ('-r')
        if self.pins:
            a += ['-p', pinArg (self.pins)]
        for (i, k), (j, l) in self.swaps:
            a += ['-s', f'{i},{k}:{j},{l}']
        if self.limit:
            a += ['--triad-limit', self.limit]
        return a

    def describe (self):
        return dict (layout=self.data['name'], args=' '.join (map (str, self.args ('L'))), seed=self.seed, triads=len (self.triads))

    def run (self, pre=None):
        real = {tuple (map (hist.realComb, t)): n for t, n in self.triads.items ()}
        lay = hist.load (self.data)[1]
        s = TriadStats (hist.Writer (lay))
        for t, n in real.items ():
            s.triads[t] = n
        def init ():
            random.seed (self.seed)
            if pre:
                pre ()
        with fw.TempDir () as d:
            f = os.path.join (d, 'in.yaml')
            with open (f, 'w', encoding='utf-8') as fd:
                yaml.dump (self.data, fd, sort_keys=False)
            # the output only, progress and log messages are of no interest
            r = fw.cliOk ('lulua-optimize', self.args (f), pickle.dumps ({'triads': s}), cwd=d, pre=init)
        self.out = r.out.decode ('utf-8')
        self.err = r.err.decode ('utf-8', 'replace')
        self.new = yaml.safe_load (self.out)
        return self.new

    def places (self, data):
        """ text → place, for unique texts """
        return {t: (i, k) for i, l in enumerate (data['layout']) for k, t in l['layer'].items ()}

    def effort (self, where):
        """ Effort of the layout given by the map of old to new places """
        tot, w = 0.0, 0
        for t, n in self.top ():
            x = []
            for mod, key in t:
                (k, ) = key
                i = next (i for i, l in enumerate (self.data['layout']) if mod in map (frozenset, l['modifier']))
                j, nk = where[(i, k)]
                x.append ((frozenset (self.data['layout'][j]['modifier'][0]), frozenset ([nk])))
            tot += n*effort.effort (self.model, tuple (x))
            w += n
        return tot/w
