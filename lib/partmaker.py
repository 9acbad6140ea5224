"""
Runs as a process of its own: creates buttons in the order given, then
statistics from histories and writes them pickled to stdout.
"""
import sys, json, pickle
job = json.load (sys.stdin)
import lulua.keyboard
for n in job['order']:
    getattr (lulua.keyboard, job.get ('cls', 'Button')) (n)
from lulua.keyboard import defaultKeyboards
from lulua.layout import GenericLayout, ButtonCombination
from lulua.writer import Writer, SkipEvent
from lulua.stats import allStats
kb = defaultKeyboards['ibmpc105']
lay = GenericLayout.deserialize (job['layout']).specialize (kb)
for h in job['histories']:
    w = Writer (lay)
    stats = {c.name: c (w) for c in allStats}
    for e in h:
        if e[0] == 's':
            ev = SkipEvent (e[1])
        else:
            ev = ButtonCombination (frozenset (map (kb.find, e[1])), frozenset (map (kb.find, e[2])))
        for s in stats.values ():
            s.process (ev)
    pickle.dump (stats, sys.stdout.buffer, job.get ('protocol', pickle.HIGHEST_PROTOCOL))
