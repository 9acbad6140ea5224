""" Tenth round of planted bugs, see plant.py. """
from plants import plant, PLANTS
from plants2 import WITHDIR
from plants4 import HEAT
from plants5 import REPORT, KLC
from plants7 import FAIL
from plants9 import PEAK

plant ('C12-identity', 'C12', 'carpalx.py',
"            keyRepeat = t[0] == t[1] or t[1] == t[2] or t[0] == t[2]\n            if keyRepeat:\n                return 5\n", "            keyRepeat = t[0] is t[1] or t[1] is t[2] or t[0] is t[2]\n            if keyRepeat:\n                return 5\n",
'equal keys which are not the same object, as in unpickled statistics', 'a repeated key is taken for different ones',
'''
import pickle
from lulua.carpalx import Carpalx, models
w = Writer (defaultLayouts['ar-lulua'].specialize (kbd))
a = comb ([], 'Dl1')
c = [pickle.loads (pickle.dumps (a)) for i in range (3)]
x = Carpalx (models['mod01'], w)
x.addTriad ((a, a, a), 1)
y = Carpalx (models['mod01'], w)
y.addTriad (tuple (c), 1)
assert x.effort == y.effort, (x.effort, y.effort)
''')
plant ('C05-identity', 'C05', 'stats.py',
"            if btn not in self._ignored:\n", "            if not any (btn is x for x in self._ignored):\n",
'events with keys of another copy of the keyboard', 'white space is not passed over',
'''
import pickle
from lulua.stats import TriadStats
s = TriadStats (Writer (defaultLayouts['ar-lulua'].specialize (kbd)))
for n in ('Dl1', 'Fl_space', 'Dl2', 'Dl3'):
    s.process (pickle.loads (pickle.dumps (comb ([], n))))
assert list (s.triads) == [(comb ([], 'Dl1'), comb ([], 'Dl2'), comb ([], 'Dl3'))]
''')
plant ('C02-identity', 'C02', 'writer.py',
"            if prev is not None:\n                prevBalance = 0\n", "            if prev is comb:\n                # do not move at all\n                prevBalance = 0\n            elif prev is not None:\n                prevBalance = 0\n",
'the previous stroke is one of the choices', 'it is preferred',
'''
l = spec (([[]], {'Dl1': 'a', 'Dr3': 'a', 'Dl2': 'x'}))
w = Writer (l)
got = [e for m, e in w.type (StringIO ('aaa'))]
def ref (s):
    out, prev = [], None
    sc = lambda n: 1 if 'l' in n[:2] else -1
    for c in s:
        b = min (('Dl1', 'Dr3'), key=lambda n: abs (sc (n) + (sc (prev) if prev else -1)))
        out.append (comb ([], b)); prev = b
    return out
assert got == ref ('aaa'), got
''')
plant ('C08-verbose', 'C08', 'text.py',
"                logging.debug (text)\n", "                if logging.getLogger ().isEnabledFor (logging.DEBUG):\n                    # keep the log short\n                    text = text[:1000]\n                    logging.debug (text)\n",
'the option -v and long texts', 'only the beginning of texts is counted',
FAIL + '''
def f ():
    import json
    o = []
    for a in ([], ['-v']):
        x = start ('text', 'write', a + ['-j', 1, 'ar-lulua', 'json'], json.dumps ('سلام '*1000).encode () + b'\\n')
        assert x.returncode == 0, x.stderr
        o.append (pickle.loads (x.stdout)['words'].words['سلام'])
    assert o == [1000, 1000], o
go (f)
''')
plant ('C08-progress', 'C08', 'text.py',
"                if benchmark:\n                    i += 1\n                    continue\n", "                if benchmark or not text.strip ():\n                    i += 1\n                    continue\n",
'texts of white space', 'they are not counted',
FAIL + '''
def f ():
    import json
    x = start ('text', 'write', ['-j', 1, 'ar-lulua', 'json'], json.dumps ('  \\n').encode () + b'\\n')
    assert sum (pickle.loads (x.stdout)['simple'].combinations.values ()) == 3
go (f)
''')
plant ('C22-cap-column', 'C22', 'layout.py',
"                    code = list (map (codeToText, code))\n", "                    # caps lock variants follow\n                    if cap == 'SGCap':\n                        continue\n                    code = list (map (codeToText, code))\n",
'x', 'keys with SGCap are lost', '')
plant ('C22-utf8', 'C22', 'layout.py',
"            n = int (c.rstrip ('@'), 16)\n", "            n = int (c.rstrip ('@%'), 16)\n",
'x', 'y', '')
plant ('C16-slots', 'C16', 'keyboard.py',
"        return dict (name=self.name, description=self.description, rows=rows)\n", "        return dict (name=self.name, description=self.description or self.name, rows=rows)\n",
'a keyboard without description', 'it has one after saving and loading',
'''
from lulua.keyboard import PhysicalKeyboard
d = kbd.serialize ()
d['description'] = ''
k = PhysicalKeyboard.deserialize (PhysicalKeyboard.deserialize (d).serialize ())
assert k.description == '', k.description
''')
plant ('C16-id-reuse', 'C16', 'keyboard.py',
"        i = Button._nameToId.get (name)\n", "        # a name may end in an annotation\n        i = Button._nameToId.get (name) or Button._nameToId.get (name.rstrip ('+'))\n",
'keys whose names differ in a sign at the end only', 'they are taken for the same',
'''
from lulua.keyboard import Button
a, b = Button ('Xq'), Button ('Xq+')
assert a != b and b.name == 'Xq+'
''')
plant ('C13-mean', 'C13', 'carpalx.py',
"        self.absEffort -= n*self._triadEffort (triad)\n        self.N -= n\n", "        self.absEffort -= n*self._triadEffort (triad)\n        self.N -= n\n        if self.N <= 0:\n            # nothing left, get rid of rounding errors\n            self.reset ()\n",
'more is removed than was added before', 'what is added later is weighted wrong',
'''
from lulua.carpalx import Carpalx, models
c = Carpalx (models['mod01'], Writer (defaultLayouts['ar-lulua'].specialize (kbd)))
a, b = [(comb ([], x),)*3 for x in ('Cl1', 'Dl1')]
c.addTriad (a, 1)
e = c.effort
c.reset ()
c.removeTriad (b, 2)
c.addTriad (b, 2)
c.addTriad (a, 1)
assert abs (c.effort-e) < 1e-9, (c.effort, e)
''')
plant ('C15-same-effort', 'C15', 'optimize.py',
"        affected = set (chain (self.stateToTriad[a], self.stateToTriad[b]))\n", "        # triads with both of them do not change\n        affected = self.stateToTriad[a] ^ self.stateToTriad[b]\n",
'triads with both of the swapped keys', 'their effort is not updated',
'''
import random
from lulua.optimize import LayoutOptimizer
from lulua.carpalx import models
l = defaultLayouts['ar-lulua'].specialize (kbd)
a, b, c = [(0, kbd[x]) for x in ('Dl1', 'Cl2', 'El6')]
m = {x: x for x in (a, b)}
t = (comb ([], 'Dl1'), comb ([], 'Cl2'), comb ([], 'Dl1'))
o = LayoutOptimizer (m, [(t, 5), ((t[0],)*3, 1)], l, [], Writer (l), model=models['mod01'])
o._resetEnergy ()
o.mutate ()
e = o.energy ()
o._resetEnergy ()
assert abs (e-o.energy ()) < 1e-6, (e, o.energy ())
''')
plant ('C14-fn-pin', 'C14', 'optimize.py',
"            if fnmatch (k.name, match):\n", "            if isinstance (k, LetterButton) and fnmatch (k.name, match) and k not in modifiers:\n",
'x', 'y', '')
plant ('C20-bins', 'C20', 'plot.py',
"        if not x or x[-1] + binWidth <= cumulativeWeight:\n", "        if not x or x[-1] + max (binWidth, 1) < cumulativeWeight:\n",
'statistics of few triads', 'points of the curve are missing',
'''
import io, pickle
import lulua.plot as p
from types import SimpleNamespace
from collections import defaultdict
l = defaultLayouts['ar-lulua'].specialize (kbd)
s = collect (l, 'سلامع')
r = cli ('stats', 'main', ['-l', 'ar-lulua', 'triadeffortdata'], pickle.dumps (s)) if False else None
import subprocess, sys
x = subprocess.run ([sys.executable, '-W', 'ignore', '-c', 'from lulua.stats import main; main ()', '-l', 'ar-lulua', 'triadeffortdata'], input=pickle.dumps (s), stdout=subprocess.PIPE)
d = pickle.loads (x.stdout)
assert len (d['x']) == 4, d
''')
plant ('C20-letters-total', 'C20', 'plot.py',
"    combinationTotal = sum (binned.values ())\n", "    combinationTotal = sum (stats['simple'].combinations.values ()) if len (binned) > 40 else sum (binned.values ())\n",
'more than forty different letters', 'shares do not refer to letters only',
'''
import pickle, json, subprocess, sys, os, tempfile, yaml
with tempfile.TemporaryDirectory () as d:
    ks = [k.name for k in kbd.keys () if type (k).__name__ == 'LetterButton']
    letters = [chr (x) for x in range (0x4e00, 0x4e00+len (ks)-1)]
    l = lay (([[]], dict (zip (ks, letters + ['.']))), name='x')
    p = os.path.join (d, 'x.yaml')
    with open (p, 'w') as fd:
        yaml.dump (l.serialize (), fd)
    s = collect (l.specialize (kbd), ''.join (letters) + '.'*100)
    x = subprocess.run ([sys.executable, '-W', 'ignore', '-c', 'from lulua.stats import main; main ()', '-l', p, 'letterfreq'], input=pickle.dumps (s), stdout=subprocess.PIPE)
    o = json.dumps (json.loads (x.stdout))
    assert str (1/len (letters))[:8] in o
''')
plant ('C06-hand-none', 'C06', 'stats.py',
"            if self.lastFinger and fingerKey != self.lastFinger:\n", "            if self.lastFinger and (fingerKey != self.lastFinger or event.modifier and self.fingerRunlen > 2):\n",
'a run of more than two strokes with a modifier in between', 'the run is split',
'''
from lulua.stats import RunlenStats
s = RunlenStats (Writer (defaultLayouts['ar-linux'].specialize (kbd)))
for e in [comb ([], 'Dl1')]*3 + [comb (['Er_shift'], 'Dl1'), comb ([], 'Dr6')]:
    s.process (e)
assert {k: dict (v) for k, v in s.fingerRunlenDist.items () if v} == {s.writer.getHandFinger (kbd['Dl1']): {4: 1}}, s.fingerRunlenDist
''')
plant ('C04-repeat-modifier', 'C04', 'stats.py',
"            for b in event:\n                self.buttons[b] += 1\n", "            for b in (event if len (event) < 4 else event.buttons):\n                self.buttons[b] += 1\n",
'three modifiers', 'they are not counted',
'''
from lulua.stats import SimpleStats
s = SimpleStats (Writer (defaultLayouts['ar-lulua'].specialize (kbd)))
s.process (comb (['El_shift', 'Fl_ctrl', 'Fr_altgr'], 'Dl1'))
assert len (s.buttons) == 4
''')
plant ('C11-epub-ignore', 'C11', 'text.py',
"        document = html5lib.parse (item.get_content ().decode ('utf-8'))\n", "        document = html5lib.parse (item.get_content ().decode ('utf-8').replace ('\\xa0', ' '))\n",
'non-breaking space in an ebook', 'it becomes an ordinary one',
'x')
plant ('C19-space-name', 'C19', 'render.py',
"        keyHeat = dict ((k, v/maxHeat) for k, v in args.heatmap['buttons'].items ())\n", "        keyHeat = dict ((k, v/maxHeat) for k, v in args.heatmap['buttons'].items () if v*1000 >= maxHeat)\n",
'a key which is hardly used', 'it is not highlighted at all',
'x')
PLANTS[:] = [p for p in PLANTS if p['needs'] != 'x' and not p['demo'].endswith ('x')]
