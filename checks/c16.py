import sys, io, copy, pickle, json, yaml, subprocess, os
sys.path.insert (0, '/verif')
from lib import fw, gen, model, hist
from lib.fw import require, same

PhysicalKeyboard, Button, GenericLayout, KeyboardLayout, ButtonCombination = fw.resolve ('lulua.keyboard:PhysicalKeyboard', 'lulua.keyboard:Button', 'lulua.layout:GenericLayout', 'lulua.layout:KeyboardLayout', 'lulua.layout:ButtonCombination')
from lulua import keyboard as K

KIND = {'standard': 'Button', 'letter': 'LetterButton', 'multi': 'MultiRowButton'}

def wantButton (d):
    """ What a definition means """
    sc = d.get ('scancode')
    sc = {k: (tuple (v) if isinstance (v, list) else v) for k, v in sc.items ()} if sc else {}
    r = dict (name=d['name'], width=d.get ('width', 1), isMarked=bool (d.get ('isMarked', False)), scancode=sc, kind=KIND[d.get ('kind', 'standard')])
    if r['kind'] == 'MultiRowButton':
        r['span'] = d['span']
    return r

def haveButton (b):
    sc = b.scancode
    r = dict (name=b.name, width=b.width, isMarked=bool (b.isMarked), scancode=dict (sc) if sc else {}, kind=type (b).__name__)
    if r['kind'] == 'MultiRowButton':
        r['span'] = b.span
    return r

def wantKeyboard (d):
    return dict (name=d['name'], description=d['description'], rows=[[[wantButton (b) for b in s] for s in r] for r in d['rows']])

def haveKeyboard (k):
    return dict (name=k.name, description=k.description, rows=[[[haveButton (b) for b in s] for s in r] for r in k.rows])

def checkKeyboard (k, data, how, mon):
    want = wantKeyboard (data)
    have = haveKeyboard (k)
    if have != want:
        for r, (x, y) in enumerate (zip (have['rows'], want['rows'])):
            for s in range (2):
                for a, b in zip (x[s], y[s]):
                    same (a, b, f'button in row {r} after {how}')
        same (have, want, f'keyboard after {how}')
    # usable
    names = [b['name'] for r in data['rows'] for s in r for b in s]
    same ([b.name for b in k.keys ()], names, f'keys after {how}')
    same (len (k), len (names), f'number of keys after {how}')
    for i, r in enumerate (data['rows']):
        for s in r:
            for b in s:
                f = k.find (b['name'])
                same (haveButton (f), wantButton (b), f'find after {how}')
                same (k.getRow (f), i, f'row after {how}')
                mon.event ('button')
    mon.event ('keyboard ' + how)

def yamlDump (rng, x):
    return rng.choice ((lambda x: yaml.dump (x), lambda x: yaml.safe_dump (x), lambda x: yaml.dump (x, sort_keys=False), lambda x: yaml.dump (x, default_flow_style=True))) (x)

OPS = ('serialize', 'yaml', 'pickle', 'deepcopy', 'reload', 'copybutton', 'tampered')

def keyboard (rng, i, mon):
    if i == 0:
        with open (os.path.join (fw.REPO, 'lulua', 'data', 'keyboards', 'ibmpc105.yaml'), encoding='utf-8') as fd:
            data = yaml.safe_load (fd)
    elif i == 1:
        data = copy.deepcopy (model.IBM)
    else:
        data = gen.keyboardData (rng)
    orig = copy.deepcopy (data)
    first = PhysicalKeyboard.deserialize (data)
    same (data, orig, 'loading changed the data')
    checkKeyboard (first, orig, 'load', mon)
    objs = [first]
    ser = None
    history = []
    for step in range (rng.choice ((3, 6, 12))):
        k = rng.choice (objs)
        op = rng.choice (OPS)
        history.append (op)
        if op in ('serialize', 'yaml', 'reload', 'tampered'):
            s = k.serialize ()
            checkKeyboard (k, orig, 'being serialized', mon)
            if ser is None:
                ser = copy.deepcopy (s)
            same (s, ser, 'serialized again, result differs', history=history)
            if op == 'yaml':
                s = yaml.safe_load (yamlDump (rng, s))
                same (s, ser, 'YAML', history=history)
            before = copy.deepcopy (s)
            n = PhysicalKeyboard.deserialize (s)
            same (s, before, 'loading changed the data', history=history)
            if op == 'reload':
                # same data once more
                n = PhysicalKeyboard.deserialize (s)
                same (s, before, 'loading changed the data', history=history)
            elif op == 'tampered':
                # whatever happens to saved data does not affect the keyboard it was saved from
                for r in s['rows']:
                    for side in r:
                        for b in side:
                            b['width'] = 99
                            if b.get ('scancode'):
                                b['scancode'].clear ()
                        side.clear ()
                checkKeyboard (k, orig, 'changing saved data', mon)
                n = PhysicalKeyboard.deserialize (ser)
        elif op == 'pickle':
            n = pickle.loads (pickle.dumps (k, protocol=rng.choice ((2, 3, 4, 5))))
            checkKeyboard (k, orig, 'being pickled', mon)
        elif op == 'deepcopy':
            n = copy.deepcopy (k)
        else:
            n = k
            for b in k.keys ():
                for c in (Button.deserialize (b.serialize ()), pickle.loads (pickle.dumps (b)), copy.copy (b)):
                    same (haveButton (c), haveButton (b), 'button')
                    require (c == b and hash (c) == hash (b), 'button is not equal any more', button=b.name)
        checkKeyboard (n, orig, op, mon)
        require (list (n.keys ()) == list (k.keys ()), 'buttons are not equal', op=op)
        objs.append (n)
    for k in objs:
        checkKeyboard (k, orig, 'all', mon)
    mon.distinct (repr (orig), tuple (history))

def wantLayout (data):
    return (data['name'], [([frozenset (m) for m in l['modifier']], dict (l['layer'])) for l in data['layout']])

def haveGeneric (g):
    return (g.name, [([frozenset (m) for m in l.modifier], dict (l.layout)) for l in g.layers])

def haveKeyboardLayout (k):
    return (k.name, [([frozenset (b.name for b in m) for m in l.modifier], {b.name: t for b, t in l.layout.items ()}) for l in k.layers])

def order (combs):
    # saving may sort keys
    return sorted (combs, key=lambda c: (sorted (c[0]), sorted (c[1])))

def relation (ref, k):
    got = {}
    for t, combs in k:
        got[t] = order (map (model.name, combs))
    same (got, {t: order (c) for t, c in ref.texts.items ()}, 'texts of the keyboard layout')
    for m, i in ref.mods.items ():
        require (k.modifierToLayer (frozenset (map (k.keyboard.find, m)))[0] == i, 'layer of modifier')
    for c, t in list (ref.comb.items ())[:40]:
        same (k.getText (hist.realComb (c, k.keyboard)), t, 'text of combination')

def layout (rng, i, mon):
    data = gen.anyLayout (rng, i)
    if 'layout' not in data:
        return
    if rng.random () < 0.4:
        data['name'] = rng.choice ((None, '', 'null', 'yes', '1', '1e3', ' x ', 'a: b', '# x', 'نص', 'a\nb', '~', '0x10', "'", '2020-01-01', '\U0001f600', 'None'))
    if rng.random () < 0.03:
        data['layout'] = []
    orig = copy.deepcopy (data)
    ref = model.RefLayout (orig)
    want = wantLayout (orig)
    g = GenericLayout.deserialize (data)
    same (data, orig, 'loading changed the data')
    same (haveGeneric (g), want, 'layout after loading')
    objs = [g]
    ser = None
    history = []
    for step in range (rng.choice ((3, 6))):
        g = rng.choice (objs)
        op = rng.choice (('serialize', 'yaml', 'pickle', 'specialize', 'deepcopy'))
        history.append (op)
        if op in ('serialize', 'yaml'):
            s = g.serialize ()
            same (haveGeneric (g), want, 'layout after being serialized')
            norm = lambda s: wantLayout (s)
            if ser is None:
                ser = copy.deepcopy (s)
            same (norm (s), norm (ser), 'serialized again, result differs')
            same (norm (s), want, 'serialized layout')
            if op == 'yaml':
                s2 = yaml.safe_load (yamlDump (rng, s))
                same (s2, s, 'YAML')
                s = s2
            before = copy.deepcopy (s)
            n = GenericLayout.deserialize (s)
            same (s, before, 'loading changed the data')
            if rng.random () < 0.5:
                n = GenericLayout.deserialize (s)
        elif op == 'pickle':
            n = pickle.loads (pickle.dumps (g))
        elif op == 'deepcopy':
            n = copy.deepcopy (g)
        else:
            n = g
            specialized (rng, g, ref, want, mon)
        same (haveGeneric (n), want, f'layout after {history}')
        same (haveGeneric (g), want, f'original layout after {history}')
        require (n == g and g == n, 'layouts are not equal')
        same (len (n), sum (len (l['layer']) for l in orig['layout']), 'number of texts')
        same (sorted (n.buttons ()), sorted (x for l in orig['layout'] for x in l['layer'].items ()), 'all texts')
        objs.append (n)
        mon.event ('layout ' + op)
    mon.distinct (repr (orig), tuple (history))
    same (data, orig, 'data changed')

def specialized (rng, g, ref, want, mon):
    k = g.specialize (rng.choice ((hist.KB, hist.KB2)))
    same (haveGeneric (g), want, 'layout after adapting it to a keyboard')
    same (haveKeyboardLayout (k), want, 'layout adapted to keyboard')
    relation (ref, k)
    p = pickle.loads (pickle.dumps (k))
    same (haveKeyboardLayout (p), want, 'layout adapted to keyboard, pickled')
    relation (ref, p)
    require (p == k, 'pickled layout is not equal')
    mon.event ('keyboard layout pickled')
    c = k.copy ()
    require (type (c) is type (k) and c == k, 'copy is not equal')
    same (haveKeyboardLayout (c), want, 'copy')
    relation (ref, c)
    # changing one does not change the other
    a, b = (c, k) if rng.random () < 0.5 else (k, c)
    how = rng.randrange (4)
    l = rng.choice (a.layers) if a.layers else None
    if l is None:
        a.name = 'changed'
    elif how == 0:
        l.layout.clear ()
    elif how == 1:
        l.layout[a.keyboard.find (rng.choice (model.KEYS))] = 'changed'
    elif how == 2:
        l.modifier.append (frozenset ([a.keyboard.find ('Fl_win')]))
    else:
        a.layers.append (l)
        a.name = 'changed'
    same (haveKeyboardLayout (b), want, 'copy and original are not independent', how=how)
    relation (ref, b)
    same (haveGeneric (g), want, 'changing a layout adapted to a keyboard changed the layout')
    mon.event ('copy')

CHILD = '''
import sys, pickle, random
sys.path.insert (0, '/repo')
from lulua.keyboard import Button, LetterButton, defaultKeyboards
from lulua.layout import defaultLayouts
names = pickle.load (sys.stdin.buffer)
# names get other numbers here
for n in names:
    Button (n)
objs = pickle.load (sys.stdin.buffer)
pickle.dump (objs, sys.stdout.buffer)
'''

def process (rng, i, mon):
    """ Pickled by another process, which has its own numbering of buttons """
    data = gen.anyLayout (rng)
    kd = gen.keyboardData (rng) if rng.random () < 0.6 else model.IBM
    kb = PhysicalKeyboard.deserialize (copy.deepcopy (kd))
    kl = GenericLayout.deserialize (copy.deepcopy (data)).specialize (hist.KB)
    ref = model.RefLayout (data)
    want = wantLayout (data)
    combs = {hist.realComb (c): t for c, t in ref.comb.items ()}
    names = list (model.KEYS) + [b['name'] for r in kd['rows'] for s in r for b in s] + ['unknown']
    rng.shuffle (names)
    names = names[:rng.randrange (len (names))]
    obj = dict (kb=kb, kl=kl, combs=combs, sets=[frozenset (b) for r in kb.rows for b in r])
    r = subprocess.run ([fw.PYTHON, '-X', 'utf8', '-c', CHILD], input=pickle.dumps (names) + pickle.dumps (obj), capture_output=True)
    require (r.returncode == 0, 'cannot load in another process', stderr=r.stderr.decode ('utf-8', 'replace')[-800:])
    out = pickle.loads (r.stdout)
    checkKeyboard (out['kb'], kd, 'another process', mon)
    require (list (out['kb'].keys ()) == list (kb.keys ()), 'buttons are not equal after having been in another process')
    same (haveKeyboardLayout (out['kl']), want, 'layout after having been in another process')
    relation (ref, out['kl'])
    require (out['kl'] == kl, 'layout is not equal after having been in another process')
    same ({model.name (c): t for c, t in out['combs'].items ()}, ref.comb, 'combinations after having been in another process')
    for c, t in combs.items ():
        require (out['combs'].get (c) == t, 'combination not found any more', comb=model.name (c))
    same ([{b.name for b in s} for s in out['sets']], [{b.name for b in s} for s in obj['sets']], 'sets of buttons')
    mon.event ('other process')
    mon.distinct (repr (data), repr (kd))

c = fw.Check ('C16', 'random histories of saving, loading, copying and use of keyboards and layouts; every attribute is compared with the definition after each step; non-trivial: distinct definition and history',
        minEvents={'button': 50000, 'keyboard yaml': 100, 'keyboard pickle': 100, 'keyboard load': 200, 'layout yaml': 60, 'copy': 60, 'other process': 10})
c.family ('keyboard', keyboard, 400, 8000)
c.family ('layout', layout, 300, 6000)
c.family ('process', process, 24, 300)
sys.exit (c.run ())
