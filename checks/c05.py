import sys
sys.path.insert (0, '/verif')
from lib import fw, hist
TriadStats = fw.resolve ('lulua.stats:TriadStats')

def mixed (rng, i, mon):
    hist.check (rng, i, mon, TriadStats, 'triads', ('triads', ), foreign=True)

def big (rng, i, mon):
    hist.check (rng, None, mon, TriadStats, 'triads', ('triads', ), foreign=True, n=rng.choice ((70000, 40000, 20000)))
    mon.event ('big history')

def huge (rng, i, mon):
    hist.huge (rng, i, mon, TriadStats, 'triads', ('triads', ), (60000, 150000, 400000)[i % 3])

c = fw.Check ('C05', 'histories recorded from the real writer and synthetic ones (bursts, transparent keys with and without modifiers, skips) recounted at several points; non-trivial: distinct non-empty history',
        minEvents={'press': 100000, 'skip': 5000, 'comparison': 1000, 'triads total': 100000, 'big history': 4, 'huge history': 2})
c.family ('mixed', mixed, 1200, 30000)
c.family ('big', big, 8, 80)
c.family ('huge', huge, 6, 40)
sys.exit (c.run ())
