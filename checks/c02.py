import sys, io
sys.path.insert (0, '/verif')
from lib import fw, gen, model
from lib.fw import require, same

Writer, SkipEvent, GenericLayout, ButtonCombination, defaultKeyboards, Button = fw.resolve ('lulua.writer:Writer', 'lulua.writer:SkipEvent', 'lulua.layout:GenericLayout', 'lulua.layout:ButtonCombination', 'lulua.keyboard:defaultKeyboards', 'lulua.keyboard:Button')
KB = defaultKeyboards['ibmpc105']
ALLKEYS = sorted (model.FINGERS)

def btn (n):
    return KB[n] if n in model.BUTTONS else Button (n)

def comb (c):
    return ButtonCombination (frozenset (map (btn, c[0])), frozenset (map (btn, c[1])))

def load (data):
    return model.RefLayout (data), GenericLayout.deserialize (data).specialize (KB)

def exhaustive (rng, i, mon):
    """ every previous stroke x every ambiguous text of a shipped layout """
    sh = gen.shipped ()
    data = sh[sorted (sh)[i % len (sh)]]
    ref, lay = load (data)
    w = Writer (lay)
    amb = {t: c for t, c in ref.texts.items () if len (c) > 1}
    real = {t: lay (t)[1] for t in amb}
    for prev in [None] + sorted (ref.comb, key=lambda c: (sorted (c[0]), sorted (c[1]))):
        if prev is None:
            w = Writer (lay)
        else:
            w.press (comb (prev))
        for t, cands in amb.items ():
            got = model.name (w.chooseCombination (real[t]))
            want = model.choose (cands, prev)
            require (got == want, 'not the best combination', layout=data['name'], text=t, prev=prev, got=got, want=want)
            mon.event ('choice among several')
            mon.distinct (data['name'], prev and sorted (map (sorted, prev)), t)

def synthetic (rng, i, mon):
    """ arbitrary candidate sets """
    lay = load (gen.shipped ()['ar-lulua'])[1]
    for _ in range (40):
        w = Writer (lay)
        prev = None
        style = rng.randrange (4)
        for _ in range (rng.randrange (1, 6)):
            cands = []
            keys = rng.sample (ALLKEYS, rng.choice ((1, 1, 2, 3, 6)))
            for _ in range (rng.choice ((1, 2, 2, 3, 4, 6, 12, 30))):
                if style == 0:
                    m = rng.sample (ALLKEYS, rng.choice ((0, 1, 1, 2, 3)))
                elif style == 1:
                    m = rng.sample (gen.MODS, 1)
                elif style == 2:
                    m = rng.sample (gen.MODS, rng.randrange (0, len (gen.MODS)))
                else:
                    m = []
                c = model.C (m, rng.choice (keys if style != 3 else ALLKEYS))
                if c not in cands:
                    cands.append (c)
            got = w.chooseCombination ([comb (c) for c in cands])
            want = model.choose (cands, prev)
            require (model.name (got) == want, 'not the best combination', candidates=cands, prev=prev, got=model.name (got), want=want,
                    scores=[model.score (c, prev) for c in cands])
            mon.event ('choice among several', len (cands) > 1)
            s = sorted (model.score (c, prev) for c in cands)
            mon.event ('tie', len (s) > 1 and s[0] == s[1])
            mon.event ('decided by previous stroke', len (s) > 1 and s[0][:2] == s[1][:2] and s[0] != s[1])
            mon.event ('decided by balance', len (s) > 1 and s[0][0] == s[1][0] and s[0][1] != s[1][1])
            mon.distinct (repr (cands), repr (prev))
            # sometimes the stroke made is another one
            prev = want if rng.random () < 0.6 else rng.choice (cands)
            w.press (comb (prev))

def traces (rng, i, mon):
    """ the combinations used while typing whole texts """
    data = gen.anyLayout (rng, i)
    if rng.random () < 0.4:
        # texts on many keys
        few = rng.sample (gen.ARABIC, 3) + [' ']
        for l in data['layout']:
            for k in l['layer']:
                l['layer'][k] = rng.choice (few)
    ref, lay = load (data)
    amb = [t for t, c in ref.texts.items () if len (c) > 1]
    pool = sorted (ref.texts) + amb*2
    w, stroke = Writer (lay), None
    for _ in range (3):
        text = gen.text (rng, max (1, gen.sizes (rng, 4000)), pool)
        got = []
        if rng.random () < 0.5:
            w, stroke = Writer (lay), None
        elif stroke:
            mon.event ('continued with another text')
        for m, e in w.type (io.StringIO (text, newline='')):
            got.append ((None, e.char) if isinstance (e, SkipEvent) else (m, model.name (e)))
        want = list (ref.type (text, stroke))
        stroke = next ((c for m, c in reversed (want) if m is not None), stroke)
        for j, (g, x) in enumerate (zip (got, want)):
            require (g == x, 'combination used is not the best one', layout=data['name'], at=j, text=text[:200], got=g, want=x, previous=want[max (0, j-3):j])
            mon.event ('typed')
            if x[0] is None:
                mon.event ('skip')
            elif len (ref.texts[x[0]]) > 1:
                mon.event ('choice among several')
        same (len (got), len (want), 'number of events', text=text)
        mon.distinct (data['name'], text[:300])
    mon.sample ({'layout': data['name'], 'text': text[:50]})

def interleaved (rng, i, mon):
    """ writers do not influence each other's previous stroke """
    ref, lay = load (gen.anyLayout (rng, None))
    amb = [t for t, c in ref.texts.items () if len (c) > 1]
    runs = []
    for _ in range (rng.randrange (2, 5)):
        text = gen.text (rng, rng.randrange (5, 80), sorted (ref.texts) + amb*3)
        runs.append ((text, Writer (lay).type (io.StringIO (text, newline='')), []))
    live = list (runs)
    while live:
        r = rng.choice (live)
        try:
            m, e = next (r[1])
            r[2].append ((None, e.char) if isinstance (e, SkipEvent) else (m, model.name (e)))
        except StopIteration:
            live.remove (r)
    for text, _, got in runs:
        want = list (ref.type (text))
        require (got == want, 'interleaved typing differs', text=text, first=next (((a, b) for a, b in zip (got, want) if a != b), None))
        mon.event ('interleaved run')

def fingers (rng, i, mon):
    lay = load (gen.shipped ()['ar-lulua'])[1]
    order = list (ALLKEYS)
    rng.shuffle (order)
    w = Writer (lay)
    for n in order*2:
        h, f = w.getHandFinger (btn (n))
        require ((h.name, f.name) == model.FINGERS[n], 'key attributed to another finger', key=n, got=(h.name, f.name), want=model.FINGERS[n])
        # buttons are identified by name, not by keyboard or attributes
        h, f = w.getHandFinger (Button (n, width=2))
        require ((h.name, f.name) == model.FINGERS[n], 'key attributed to another finger', key=n)
        mon.event ('finger lookup', 2)

c = fw.Check ('C02', 'previous strokes x candidate combinations (exhaustive for shipped layouts), arbitrary candidate sets, whole typing traces; non-trivial: distinct (previous, candidates) or (layout, text)',
        minEvents={'choice among several': 50000, 'tie': 500, 'decided by previous stroke': 500, 'decided by balance': 500, 'skip': 1000, 'finger lookup': 100})
c.family ('fingers', fingers, 8, 40)
c.family ('exhaustive', exhaustive, len (gen.shipped ()), len (gen.shipped ()))
c.family ('synthetic', synthetic, 800, 20000)
c.family ('traces', traces, 800, 20000)
c.family ('interleaved', interleaved, 200, 4000)
sys.exit (c.run ())
