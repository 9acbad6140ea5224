import sys
sys.path.insert (0, '/verif')
from lib import fw, hist
SimpleStats = fw.resolve ('lulua.stats:SimpleStats')
F = ('buttons', 'combinations', 'unknown')

def mixed (rng, i, mon):
    hist.check (rng, i, mon, SimpleStats, 'simple', F, foreign=True, wrong=rng.random () < 0.5)

def big (rng, i, mon):
    hist.check (rng, None, mon, SimpleStats, 'simple', F, foreign=True, n=rng.choice ((70000, 40000, 20000)))
    mon.event ('big history')

def huge (rng, i, mon):
    hist.huge (rng, i, mon, SimpleStats, 'simple', F, (60000, 150000, 400000)[i % 3])

c = fw.Check ('C04', 'histories recorded from the real writer and synthetic ones (bursts, foreign combinations, skips, non-events) recounted at several points; non-trivial: distinct non-empty history',
        minEvents={'press': 100000, 'skip': 5000, 'comparison': 1000, 'no event rejected': 300, 'big history': 4, 'huge history': 2})
c.family ('mixed', mixed, 1200, 30000)
c.family ('big', big, 8, 80)
c.family ('huge', huge, 6, 40)
sys.exit (c.run ())
