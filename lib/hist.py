""" Event histories for the statistics checks """

import io
from . import fw, gen, model

Writer, SkipEvent, GenericLayout, ButtonCombination, defaultKeyboards, Button = fw.resolve ('lulua.writer:Writer', 'lulua.writer:SkipEvent', 'lulua.layout:GenericLayout', 'lulua.layout:ButtonCombination', 'lulua.keyboard:defaultKeyboards', 'lulua.keyboard:Button')
KB = defaultKeyboards['ibmpc105']
KB2 = defaultKeyboards['ibmpc105']

def load (data):
    return model.RefLayout (data), GenericLayout.deserialize (data).specialize (KB)

def realComb (c, kb=KB):
    return ButtonCombination (frozenset (map (kb.find, c[0])), frozenset (map (kb.find, c[1])))

def real (rng, history):
    """ Real event objects of a history, not always the identical ones """
    cache = {}
    for e in history:
        if e[0] == 's':
            yield SkipEvent (e[1])
        else:
            r = cache.get (e[1])
            if r is None or rng.random () < 0.02:
                r = cache[e[1]] = realComb (e[1], rng.choice ((KB, KB2)))
            yield r

def typed (rng, ref, lay, n):
    """ History of typing generated text, checked elsewhere """
    amb = sorted (ref.texts)
    text = gen.text (rng, n, amb)
    h, events = [], []
    for m, e in Writer (lay).type (io.StringIO (text, newline='')):
        events.append (e)
        h.append (('s', e.char) if isinstance (e, SkipEvent) else ('p', model.name (e), m))
    return h, events

def synthetic (rng, ref, n, foreign=False):
    """
    Arbitrary strokes: bursts of the same key, finger, hand or class. foreign:
    combinations need not be part of the layout.
    """
    combs = sorted (ref.comb, key=lambda c: (sorted (c[0]), sorted (c[1])))
    if foreign or not combs:
        combs = [model.C (rng.sample (model.KEYS, rng.choice ((0, 0, 1, 2, 3))), rng.choice (model.KEYS)) for _ in range (rng.choice ((2, 5, 40)))]
    elif rng.random () < 0.4:
        combs = rng.sample (combs, min (len (combs), rng.choice ((2, 3, 5, 9))))
    skip = rng.choice ((0, 0.01, 0.1, 0.4))
    def hand (c):
        return model.FINGERS[next (iter (c[1]))][0]
    def finger (c):
        return model.FINGERS[next (iter (c[1]))]
    h = []
    while len (h) < n:
        if rng.random () < skip:
            for _ in range (rng.choice ((1, 1, 1, 2, 3))):
                h.append (('s', gen.char (rng)[:1]))
            continue
        r = rng.random ()
        one = rng.choice (combs)
        if r < 0.4:
            pool, k = combs, rng.randrange (1, 8)
        elif r < 0.55:
            pool, k = [one], rng.choice ((1, 2, 3, 4, 5, 10, gen.sizes (rng, 3000)))
        elif r < 0.7:
            pool, k = [c for c in combs if finger (c) == finger (one)], rng.choice ((2, 3, 5, 20, 300))
        elif r < 0.85:
            pool, k = [c for c in combs if hand (c) == hand (one)], rng.choice ((2, 3, 5, 20, 300))
        else:
            pool, k = [c for c in combs if c[1] & model.TRANSPARENT] or combs, rng.choice ((1, 1, 2, 3))
        for _ in range (min (k, n-len (h)+1)):
            c = rng.choice (pool)
            h.append (('p', c, ref.comb.get (c, '')))
    return h[:n]

def size (rng):
    r = rng.random ()
    if r < 0.6:
        return rng.randrange (0, 60)
    if r < 0.9:
        return gen.sizes (rng, 3000)
    return rng.randrange (3000, 9000)

def case (rng, i, foreign=False, n=None):
    """ (layout data, ref, lay, history, real events) """
    data = gen.anyLayout (rng, i)
    ref, lay = load (data)
    n = size (rng) if n is None else n
    r = rng.random ()
    if r < 0.4 and ref.texts:
        h, ev = typed (rng, ref, lay, n)
    else:
        h = synthetic (rng, ref, n, foreign and r < 0.7)
        ev = list (real (rng, h))
    return data, ref, lay, h, ev

def check (rng, i, mon, cls, key, fields, foreign=False, n=None, wrong=False):
    """ Feed history, compare with recount at several points """
    data, ref, lay, h, ev = case (rng, i, foreign, n)
    s = cls (Writer (lay))
    idle = cls (Writer (lay))
    r = rng.random ()
    if len (h) < 40 and r < 0.5:
        points = set (range (len (h)+1))
    else:
        points = {len (h)} | {rng.randrange (len (h)+1) for _ in range (2)}
    def compare (k):
        want = model.RefStats.count (h[:k]).asdict ()
        try:
            got = model.statsDict ({key: s})
        except ValueError as e:
            fw.require (False, str (e))
        for f in fields:
            fw.same (got[f], want[f], f'{f} after {k} events', layout=data['name'], tail=h[max (0, k-12):k])
            mon.event (f'{f} entries compared', len (want[f]))
            mon.event (f'{f} total', sum (want[f].values ()))
        mon.event ('comparison')
    for k, e in enumerate (ev):
        if k in points:
            compare (k)
        if wrong and rng.random () < 0.05:
            x = rng.choice ((None, 'a', 1, (), [], object (), e.__class__, (None, e), 'ا', {}, ('p', 'x'), KB['Dl1'], frozenset ([KB['Dl1']])))
            try:
                s.process (x)
            except Exception:
                pass
            else:
                fw.require (False, 'something that is no event was accepted', event=x)
            mon.event ('no event rejected')
        s.process (e)
        mon.event ('skip' if h[k][0] == 's' else 'press')
    compare (len (h))
    for o in (idle, cls (Writer (lay))):
        fw.require (not any (model.statsDict ({key: o}).values ()), 'statistics that saw no event are not empty')
    if h:
        mon.distinct (data['name'], len (h), repr (h[:50]))
    mon.sample ({'layout': data['name'], 'events': len (h)})
    return h

def hugeHistory (rng, i, n):
    """
    Long history with very many different strokes, triads, words and untypeable
    characters: nothing may be forgotten, whatever the number of entries.
    """
    # every layer a set of modifiers, every key a different text
    mods = [[]] + [[a] for a in gen.MODS] + [[a, b] for a in gen.MODS[:5] for b in gen.MODS[5:]]
    rng.shuffle (mods)
    used = {k for m in mods for k in m}
    keys = [k for k in model.LETTERKEYS if k not in used]
    letters = [chr (c) for c in range (0x621, 0x700) if chr (c).isalpha ()] + [chr (c) for c in range (0x4e00, 0x9000)]
    it = iter (letters)
    data = {'name': f'huge{i}', 'layout': [{'modifier': [m], 'layer': {k: next (it) for k in keys}} for m in mods]}
    data['layout'][0]['layer']['Fl_space'] = ' '
    ref, lay = load (data)
    combs = sorted (ref.comb, key=lambda c: (sorted (c[0]), sorted (c[1])))
    space = [c for c in combs if 'Fl_space' in c[1]][0]
    skips = iter (rng.sample (range (0x10000, 0x110000), n//5))
    h = []
    for _ in range (n):
        r = rng.random ()
        if r < 0.15:
            h.append (('s', chr (next (skips, 0x10000))))
        else:
            c = space if r < 0.3 else rng.choice (combs)
            h.append (('p', c, ref.comb[c]))
    # some things very often: the same stroke, word, untypeable character
    one = rng.choice ([c for c in combs if c != space])
    k = rng.choice ((33000, 66000, 70000))
    what = i % 4
    if what == 0:
        often = [('p', one, ref.comb[one])] * k
    elif what == 1:
        often = [('p', one, ref.comb[one]), ('p', space, ' ')] * k
    elif what == 2:
        often = [('s', '\u0660')] * k
    else:
        other = rng.choice ([c for c in combs if c not in (one, space)])
        often = [('p', one, ref.comb[one]), ('p', other, ref.comb[other])] * k
    p = rng.randrange (len (h)+1)
    h[p:p] = often
    return ref, lay, h

def huge (rng, i, mon, cls, key, fields, n):
    ref, lay, h = hugeHistory (rng, i, n)
    s = cls (Writer (lay))
    for e in real (rng, h):
        s.process (e)
    want = model.RefStats.count (h).asdict ()
    got = model.statsDict ({key: s})
    for f in fields:
        fw.same (got[f], want[f], f'{f} after {len (h)} events', layout='huge')
        mon.event (f'{f} entries compared', len (want[f]))
    mon.event ('huge history')
    mon.event (f'different {fields[-1]} in huge histories', len (want[fields[-1]]))
    mon.distinct (i, len (h), repr (h[:20]))
