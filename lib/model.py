"""
Reference models, written from the documented behaviour.  Nothing here imports
the code under test.  Keys are denoted by their names, combinations by
(frozenset of modifier names, frozenset of key names).
"""

import json, os, unicodedata
from collections import Counter

HERE = os.path.dirname (os.path.abspath (__file__))
with open (os.path.join (HERE, 'data', 'ibmpc105.json')) as fd:
    IBM = json.load (fd)

ROWS = [[[b['name'] for b in l], [b['name'] for b in r]] for l, r in IBM['rows']]
KEYS = [n for l, r in ROWS for n in l+r]
BUTTONS = {b['name']: b for l, r in IBM['rows'] for b in l+r}
ROWOF = {n: i for i, (l, r) in enumerate (ROWS) for n in l+r}
LETTERKEYS = [n for n in KEYS if BUTTONS[n].get ('kind') == 'letter']

L, R = 'LEFT', 'RIGHT'
def _fingers ():
    t = '''
    Bl1 L LITTLE;Bl2 L LITTLE;Bl3 L LITTLE;Bl4 L RING;Bl5 L MIDDLE;Bl6 L INDEX;Bl7 L INDEX
    Br6 R INDEX;Br5 R INDEX;Br4 R MIDDLE;Br3 R RING;Br2 R LITTLE;Br1 R LITTLE;Br_bs R LITTLE
    Cl_tab L LITTLE;Cl1 L LITTLE;Cl2 L RING;Cl3 L MIDDLE;Cl4 L INDEX;Cl5 L INDEX
    Cr7 R INDEX;Cr6 R INDEX;Cr5 R MIDDLE;Cr4 R RING;Cr3 R LITTLE;Cr2 R LITTLE;Cr1 R LITTLE;CD_ret R LITTLE
    Dl_caps L LITTLE;Dl1 L LITTLE;Dl2 L RING;Dl3 L MIDDLE;Dl4 L INDEX;Dl5 L INDEX
    Dr7 R INDEX;Dr6 R INDEX;Dr5 R MIDDLE;Dr4 R RING;Dr3 R LITTLE;Dr2 R LITTLE;Dr1 R LITTLE
    El_shift L LITTLE;El1 L LITTLE;El2 L LITTLE;El3 L RING;El4 L MIDDLE;El5 L INDEX;El6 L INDEX
    Er5 R INDEX;Er4 R INDEX;Er3 R MIDDLE;Er2 R RING;Er1 R LITTLE;Er_shift R LITTLE
    Fl_ctrl L LITTLE;Fl_fn L LITTLE;Fl_win L THUMB;Fl_alt L THUMB;Fl_space L THUMB
    Fr_space R THUMB;Fr_altgr R THUMB;Fr_win R THUMB;Fr_menu R THUMB;Fr_ctrl R LITTLE'''
    ret = {}
    for x in t.replace ('\n', ';').split (';'):
        x = x.split ()
        if x:
            ret[x[0]] = ({'L': L, 'R': R}[x[1]], x[2])
    return ret
FINGERS = _fingers ()
assert set (KEYS) <= set (FINGERS)
HANDSCORE = {n: (1 if h == L else -1) for n, (h, f) in FINGERS.items ()}
FINGERNAMES = ['LITTLE', 'RING', 'MIDDLE', 'INDEX', 'THUMB']

def name (comb):
    """ Real combination → model combination """
    return (frozenset (b.name for b in comb.modifier), frozenset (b.name for b in comb.buttons))

def C (mod, key):
    return (frozenset (mod), frozenset ([key]))

class RefLayout:
    """ Relation between texts and combinations of a raw layout definition """

    def __init__ (self, data):
        self.data = data
        self.texts = {}
        self.comb = {}
        self.mods = {}
        for i, l in enumerate (data['layout']):
            for m in l['modifier']:
                self.mods[frozenset (m)] = i
            for key, text in l['layer'].items ():
                for m in l['modifier']:
                    c = C (m, key)
                    self.texts.setdefault (text, []).append (c)
                    self.comb[c] = text
        self.maxlen = max (map (len, self.texts), default=0)

    def longest (self, s, pos=0):
        for n in range (min (self.maxlen, len (s)-pos), 0, -1):
            t = s[pos:pos+n]
            if t in self.texts:
                return t
        return None

    def type (self, text, prev=None):
        """ Yields (match, combination) or (None, char) """
        pos = 0
        while pos < len (text):
            t = self.longest (text, pos)
            if t is None:
                yield None, text[pos]
                pos += 1
            else:
                prev = choose (self.texts[t], prev)
                yield t, prev
                pos += len (t)

def score (comb, prev):
    """ Documented order of preference: fewest keys, balance over both hands, balance with previous stroke """
    mod, key = comb
    balance = abs (sum (HANDSCORE[x] for x in mod) + sum (HANDSCORE[x] for x in key))
    if prev is None:
        p = -1
    else:
        p = sum (HANDSCORE[x] for x in (prev[0] or prev[1]))
    return (len (mod)+len (key), balance, abs (p + sum (HANDSCORE[x] for x in key)))

def choose (combs, prev):
    best = None
    for c in combs:
        s = score (c, prev)
        if best is None or s < best[0]:
            best = (s, c)
    return best[1]

# ---------------------------------------------------------------------------
# statistics

TRANSPARENT = {'Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs'}

class RefStats:
    """ Recount of an event history. Events are ('p', combination, text) or ('s', char) """

    def __init__ (self):
        self.buttons = Counter ()
        self.combinations = Counter ()
        self.unknown = Counter ()
        self.triads = Counter ()
        self.words = Counter ()
        self.hand = Counter ()
        self.finger = Counter ()

    def asdict (self):
        return {k: dict (v) for k, v in self.__dict__.items ()}

    @classmethod
    def count (cls, history):
        s = cls ()
        # each statistic is computed in a pass of its own from the whole history
        for e in history:
            if e[0] == 'p':
                s.combinations[e[1]] += 1
                for k in e[1][0]:
                    s.buttons[k] += 1
                for k in e[1][1]:
                    s.buttons[k] += 1
            else:
                s.unknown[e[1]] += 1
        # split at skips
        segs = [[]]
        for e in history:
            if e[0] == 's':
                segs.append ([])
            else:
                segs[-1].append (e)
        for seg in segs:
            st = [e[1] for e in seg if not (e[1][1] & TRANSPARENT)]
            for i in range (len (st)-2):
                s.triads[tuple (st[i:i+3])] += 1
            text = ''.join (e[2] for e in seg)
            cur = ''
            for c in text:
                if unicodedata.category (c) in ('Lo', 'Mn'):
                    cur += c
                else:
                    if cur:
                        s.words[cur] += 1
                    cur = ''
            for idx, counter in ((0, s.hand), (1, s.finger)):
                seq = []
                for e in seg:
                    (k, ) = e[1][1]
                    h, f = FINGERS[k]
                    seq.append (h if idx == 0 else (h, f))
                i = 0
                while i < len (seq):
                    j = i
                    while j < len (seq) and seq[j] == seq[i]:
                        j += 1
                    if j < len (seq):
                        counter[(seq[i], j-i)] += 1
                    i = j
        return s

    def add (self, other):
        for k in self.__dict__:
            getattr (self, k).update (getattr (other, k))
        return self

def statsDict (stats):
    """
    Real statistics {name: object} → plain dicts by key name, without zero
    entries. Raises ValueError if one name occurs as two different entries.
    """
    def conv (d, f):
        out = {}
        for k, v in d.items ():
            if v == 0:
                continue
            k = f (k)
            if k in out:
                raise ValueError (f'two entries for {k}')
            out[k] = v
        return out
    ret = {}
    s = stats.get ('simple')
    if s is not None:
        ret['buttons'] = conv (s.buttons, lambda x: x.name)
        ret['combinations'] = conv (s.combinations, name)
        ret['unknown'] = conv (s.unknown, lambda x: x)
    s = stats.get ('triads')
    if s is not None:
        ret['triads'] = conv (s.triads, lambda x: tuple (map (name, x)))
    s = stats.get ('words')
    if s is not None:
        ret['words'] = conv (s.words, lambda x: x)
    s = stats.get ('runlen')
    if s is not None:
        ret['hand'] = {(h.name, n): v for h, d in s.perHandRunlenDist.items () for n, v in d.items () if v}
        ret['finger'] = {((h.name, f.name), n): v for (h, f), d in s.fingerRunlenDist.items () for n, v in d.items () if v}
    return ret

# ---------------------------------------------------------------------------
# text normalization

CHARMAP = {
    '\ufefb': '\u0644\u0627', '\ufef9': '\u0644\u0627\u0655', '\ufef7': '\u0644\u0627\u0654',
    '\u0623': '\u0627\u0654', '\u0625': '\u0627\u0655', '\u0622': '\u0627\u0653',
    '\u0626': '\u064a\u0654', '\u0624': '\u0648\u0654',
    ',': '\u060c', '%': '\u066a', '?': '\u061f', ';': '\u061b', '\u00a0': ' ',
    }
CHARMAP.update ({chr (0x30+i): chr (0x660+i) for i in range (10)})

def normalize (text):
    return ''.join (CHARMAP.get (c, c) for c in text).replace ('\r\n', '\n')

# ---------------------------------------------------------------------------
# visible form of texts

SYMBOL = {'\t': '⭾', '\n': '↳', ' ': '\u2423', '\b': '⌦', '\u202f': '[NNBSP]'}

def visible (t):
    if t is None:
        return None
    if all (unicodedata.combining (c) for c in t):
        return '\u25cc' + t
    if len (t) == 1 and unicodedata.category (t) == 'Cf':
        n = unicodedata.name (t, None)
        if n:
            w = n.replace ('-', ' ').split (' ')
            w = [x for k, x in enumerate (w) if x != 'TO' or k in (0, len (w)-1)]
            return '[' + ''.join (x[0] for x in w) + ']'
        return t
    return SYMBOL.get (t, t)
