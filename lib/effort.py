""" Independent implementation of the carpalx model with combinations """

import os, json, itertools
from . import model

with open (os.path.join (model.HERE, 'data', 'carpalx.json')) as fd:
    MODELS = json.load (fd)
BASEKEYS = {m: sorted (p['base']) for m, p in MODELS.items ()}
FN = {'LITTLE': 1, 'RING': 2, 'MIDDLE': 3, 'INDEX': 4, 'THUMB': 5}

def column (key):
    """ Fingers from left to right """
    h, f = model.FINGERS[key]
    return FN[f] if h == model.L else 11-FN[f]

def handPath (h):
    if h[0] == h[1] == h[2]:
        return 2
    return 1 if h[0] == h[2] else 0

def rowPath (r):
    # rows are numbered from top to bottom
    a, b, c = r
    if a == b == c:
        return 0
    if a <= b <= c:
        return 4 if a < b < c else 1
    if a >= b >= c:
        return 6 if a > b > c else 2
    down, up = max (b-a, c-b), max (a-b, b-c)
    if max (down, up) <= 1:
        return 3
    return 5 if down > 1 else 7

def fingerPath (f, keys):
    repeat = len (set (keys)) < 3
    n = len (set (f))
    mono = f[0] <= f[1] <= f[2] or f[0] >= f[1] >= f[2]
    if n == 1:
        return 5 if repeat else 7
    if n == 3:
        if mono:
            return 0
        # last one between the others
        return 2 if min (f[0], f[1]) < f[2] < max (f[0], f[1]) else 3
    if mono:
        return 1 if repeat else 6
    return 4

def path (p, keys):
    s = (handPath ([model.FINGERS[k][0] for k in keys]), rowPath ([model.ROWOF[k] for k in keys]), fingerPath ([column (k) for k in keys], keys))
    return sum (a*b for a, b in zip (p['fHRF'], s))

def penalty (p, k):
    h, f = model.FINGERS[k]
    w0, wh, wr, wf = p['w0HRF']
    return w0 + wh*p['pHand'][h] + wr*p['pRow'][model.ROWOF[k]] + wf*p['pFinger'][h][f]

def base (p, triad, f):
    k1, k2, k3, ks = p['k123S']
    b = []
    for mod, keys in triad:
        l = sorted (mod) + sorted (keys)
        b.append (sum (f (x) for x in l) + (len (l)-1)*ks)
    return k1*b[0]*(1+k2*b[1]*(1+k3*b[2]))

def effort (mname, triad):
    p = MODELS[mname]
    b = base (p, triad, lambda k: p['base'][k])
    pe = base (p, triad, lambda k: penalty (p, k))
    s = min (path (p, keys) for keys in itertools.product (*[sorted (m) + sorted (k) for m, k in triad]))
    kb, kp, ks = p['kBPS']
    return kb*b + kp*pe + ks*s

def defined (mname, triad):
    b = MODELS[mname]['base']
    return all (k in b for m, ks in triad for k in m | ks)

def close (a, b, rel=1e-9, ab=1e-9):
    return abs (a-b) <= max (ab, rel*max (abs (a), abs (b)))
