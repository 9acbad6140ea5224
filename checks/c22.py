import sys, os, re, unicodedata, yaml
sys.path.insert (0, '/verif')
from lib import fw, gen, model
from lib.fw import require, same
GenericLayout, defaultKeyboards, defaultLayouts = fw.resolve ('lulua.layout:GenericLayout', 'lulua.keyboard:defaultKeyboards', 'lulua.layout:defaultLayouts')

# positions of an ISO keyboard, by scancode
VK = {}
for row, keys in (('29 OEM_3|02 1|03 2|04 3|05 4|06 5|07 6|08 7|09 8|0a 9|0b 0|0c OEM_MINUS|0d OEM_PLUS', 'Bl1 Bl2 Bl3 Bl4 Bl5 Bl6 Bl7 Br6 Br5 Br4 Br3 Br2 Br1'),
        ('10 Q|11 W|12 E|13 R|14 T|15 Y|16 U|17 I|18 O|19 P|1a OEM_4|1b OEM_6', 'Cl1 Cl2 Cl3 Cl4 Cl5 Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1'),
        ('1e A|1f S|20 D|21 F|22 G|23 H|24 J|25 K|26 L|27 OEM_1|28 OEM_7|2b OEM_5', 'Dl1 Dl2 Dl3 Dl4 Dl5 Dr7 Dr6 Dr5 Dr4 Dr3 Dr2 Dr1'),
        ('56 OEM_102|2c Z|2d X|2e C|2f V|30 B|31 N|32 M|33 OEM_COMMA|34 OEM_PERIOD|35 OEM_2', 'El1 El2 El3 El4 El5 El6 Er5 Er4 Er3 Er2 Er1'),
        ('39 SPACE', 'Fl_space')):
    for x, k in zip (row.split ('|'), keys.split ()):
        sc, vk = x.split ()
        VK[vk] = (sc, k)
assert len (VK) == 49
STATES = [0, 1, 2, 3, 6, 7]
SHIFT, CTRL, ALTGR = {'El_shift', 'Er_shift'}, {'Fl_ctrl', 'Fr_ctrl'}, {'Fr_altgr'}

def stateOf (mod):
    """ Shift state of a modifier combination """
    s = 0
    rest = set (mod)
    for keys, bit in ((SHIFT, 1), (CTRL, 2), (ALTGR, 6)):
        if rest & keys:
            require (len (rest & keys) == 1, 'both keys of a modifier', modifier=sorted (mod))
            s |= bit
            rest -= keys
    require (not rest, 'unknown modifier', modifier=sorted (mod))
    return s

SPECIALS = ['0623', '0622', '00e9', '1e69', 'fefb', '0020', '00a0', '200e', '064b', '0000', '0008', '001b', 'ac00', '212b', '0344', 'fb2a', '2126']
def cell (rng):
    """ (source, intended text or None) """
    r = rng.random ()
    if r < 0.2:
        return '-1', None
    if r < 0.25:
        return '%%', None
    if r < 0.45:
        c = rng.choice ('abcxyzABCXYZ0123456789') if rng.random () < 0.7 else rng.choice ('ابتأ.,!?@-%<>{}+éﻻ')
        return c, unicodedata.normalize ('NFD', c)
    if r < 0.6:
        h = rng.choice (SPECIALS)
    elif r < 0.9:
        h = '%04x' % ord (rng.choice (gen.ARABIC + gen.MARKS))
    else:
        n = rng.randrange (0x20, 0xfffe)
        h = '%04x' % (n if not 0xd800 <= n < 0xe000 else 0x627)
    t = unicodedata.normalize ('NFD', chr (int (h, 16)))
    if rng.random () < 0.2:
        h = h.upper ()
    if rng.random () < 0.15:
        h += '@'
    return h, t

COMMENTS = ['// DIGIT ONE, EXCLAMATION MARK, <none>', '//', '; 02 1 0 a b', '// 10 Q 0 x y z', ';', '// LAYOUT', '// SHIFTSTATE', '//// ;']

def source (rng):
    states = [0] + sorted (rng.sample (STATES[1:], rng.randrange (0, 6)))
    if rng.random () < 0.3:
        rng.shuffle (states)
    nl = '\r\n' if rng.random () < 0.7 else '\n'
    def com ():
        return rng.choice (('', '\t\t')) + rng.choice (COMMENTS) if rng.random () < 0.25 else ''
    def sep ():
        return rng.choice (('\t', '\t\t', ' ', '\t \t'))
    def noise ():
        return rng.choice (([], [''], ['', ''], ['   '], ['//SC\tVK_\t\tCap\t0\t1\t2'], ['//--\t----\t\t----\t----'], [';'], ['\t// 02 1 0 x']))
    secs = {}
    secs['shift'] = ['SHIFTSTATE' + com (), ''] + [x for s in states for x in noise () + [f'{s}{rng.choice (("", chr (9) + "//Column " + str (s+4) + " : Shft"))}']] + noise ()
    want = {}
    vks = rng.sample (sorted (VK), rng.choice ((1, 5, 30, 48, 49, rng.randrange (1, 50))))
    rows = []
    for v in vks:
        n = len (states) if rng.random () < 0.85 else rng.randrange (0, len (states)+1)
        cells = [cell (rng) for _ in range (n)]
        for s, (_, t) in zip (states, cells):
            if t is not None:
                want[(VK[v][1], s)] = t
        sc = VK[v][0]
        if rng.random () < 0.3:
            sc = sc.upper ()
        rows.append (sc + sep () + v + sep () + rng.choice ('015') + ''.join (sep () + c for c, _ in cells) + com ())
    if rng.random () < 0.6:
        rows.append ('53' + sep () + 'DECIMAL' + sep () + '0' + sep () + '002e' + sep () + '002e')
    rng.shuffle (rows)
    secs['layout'] = ['LAYOUT' + rng.choice (('', "\t\t;an extra '@' at the end is a dead key")), ''] + [x for r in rows for x in noise () + [r]] + noise ()
    head = ['KBD\tarlulua\t"Arabic - x"', '', 'COPYRIGHT\t"(c) 2020 Company"', '', 'COMPANY\t"Company"', '', 'LOCALENAME\t"ar-SA"', '', 'LOCALEID\t"00000401"', '', 'VERSION\t1.0', '']
    if rng.random () < 0.3:
        head += ['ATTRIBUTES', 'SHIFTLOCK', '']
    tail = []
    if rng.random () < 0.6:
        tail.append (['LIGATURE', '', '//VK_\tMod#\tChar0\tChar1\tChar2\tChar3', ''] + [f'{rng.choice (sorted (VK))}\t\t{rng.choice ((0, 1))}\t{rng.choice ("01")}\t0644\t0627\t// x' for _ in range (4)] + ['02\t1\t0\t0644\t0627'])
    if rng.random () < 0.6:
        tail.append (['DEADKEY\t0060', '', '0061\t00e0\t// a -> x', '10\tQ\t0\t00e8', ''])
    if rng.random () < 0.8:
        tail.append (['KEYNAME', '', '01\tEsc', '1d\tCtrl', '02\t1\t0\tX\tY', '37\t"Num *"'])
    if rng.random () < 0.5:
        tail.append (['KEYNAME_EXT', '', '1c\t"Num Enter"', '1e\tA\t1\tk\tl', '35\t"Num /"'])
    if rng.random () < 0.3:
        tail.append (['KEYNAME_DEAD', '', '0060\t"GRAVE ACCENT"', '10\tW\t0\tp'])
    if rng.random () < 0.8:
        tail.append (['DESCRIPTIONS', '', '0409\tArabic - x', '1e\tS\t0\tn\tm'])
    if rng.random () < 0.8:
        tail.append (['LANGUAGENAMES', '', '0409\tArabic (Saudi Arabia)', '1e\tD\t0\tn\tm'])
    rng.shuffle (tail)
    before, after = head, []
    # the columns are declared before the table
    if rng.random () < 0.3 and tail:
        x = tail.pop ()
        before = before + x
    mid = tail.pop () if tail and rng.random () < 0.3 else []
    lines = before + secs['shift'] + mid + secs['layout'] + [x for t in tail for x in t]
    if rng.random () < 0.8:
        lines.append ('ENDKBD')
    return nl.join (lines) + rng.choice (('', nl)), want, states

def case (rng, i, mon):
    src, want, states = source (rng)
    with fw.TempDir () as d:
        enc = rng.choice (('utf-16', 'utf-16', 'be'))
        with open (os.path.join (d, 'in.klc'), 'wb') as fd:
            fd.write (src.encode ('utf-16') if enc == 'utf-16' else b'\xfe\xff' + src.encode ('utf-16-be'))
        out = fw.cliOk ('lulua-import', ['in.klc', 'klc'], cwd=d).out
        with open (os.path.join (d, 'out.yaml'), 'wb') as fd:
            fd.write (out)
        data = yaml.safe_load (out)
        got = {}
        seen = set ()
        for l in data['layout']:
            sts = {stateOf (m) for m in l['modifier']}
            require (len (sts) == 1, 'modifiers of a layer', modifier=l['modifier'])
            (s, ) = sts
            require (s not in seen, 'two layers for the same shift state', state=s)
            seen.add (s)
            for k, t in l['layer'].items ():
                got[(k, s)] = t
        same (got, want, 'imported texts', source=src)
        # both keys of shift and control work
        for l in data['layout']:
            mods = [frozenset (m) for m in l['modifier']]
            require (len (set (mods)) == len (mods) > 0, 'modifiers of a layer', modifier=l['modifier'])
        # loadable by name and usable
        old = os.getcwd ()
        os.chdir (d)
        try:
            lay = defaultLayouts['out.yaml']
        finally:
            os.chdir (old)
        k = lay.specialize (defaultKeyboards['ibmpc105'])
        for (key, s), t in want.items ():
            (l, ) = [l for l in k.layers if stateOf ({b.name for b in l.modifier[0]}) == s]
            same (l.layout[k.keyboard[key]], t, 'text after loading', key=key, state=s)
            mon.event ('text')
        for t in set (want.values ()):
            m, combs = k (t)
            require (m == t and combs, 'text cannot be typed', text=t)
    mon.event ('file')
    mon.event ('absent', 49*len (states)-len (want))
    mon.event (f'{len (states)} columns')
    if any (len (t) > 1 for t in want.values ()):
        mon.event ('decomposed')
    mon.distinct (src)
    mon.sample (dict (states=states, keys=len (want)))

c = fw.Check ('C22', 'generated layout sources (columns in any order, literals, codes, dead keys, comments, decoys in other sections) imported by the real command; non-trivial: distinct source',
        minEvents={'file': 300, 'text': 10000, 'decomposed': 100, 'absent': 1000},
        assumptions=['UTF-16 files as written by Microsoft Keyboard Layout Creator; SGCap keys are not supported'])
c.family ('import', case, 500, 15000)
sys.exit (c.run ())
