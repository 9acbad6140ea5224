import sys, unicodedata
sys.path.insert (0, '/verif')
from lib import fw, hist, gen, model
WordStats, RunlenStats = fw.resolve ('lulua.stats:WordStats', 'lulua.stats:RunlenStats')

def words (rng, i, mon):
    hist.check (rng, i, mon, WordStats, 'words', ('words', ))

def runs (rng, i, mon):
    hist.check (rng, i, mon, RunlenStats, 'runlen', ('hand', 'finger'), foreign=True)

def big (rng, i, mon):
    n = rng.choice ((70000, 40000, 20000))
    if i % 2:
        hist.check (rng, None, mon, WordStats, 'words', ('words', ), n=n)
    else:
        hist.check (rng, None, mon, RunlenStats, 'runlen', ('hand', 'finger'), foreign=True, n=n)
    mon.event ('big history')

def huge (rng, i, mon):
    n = (60000, 150000, 400000)[i//2 % 3]
    if i % 2:
        hist.huge (rng, i, mon, WordStats, 'words', ('words', ), n)
    else:
        hist.huge (rng, i, mon, RunlenStats, 'runlen', ('hand', 'finger'), n)

def categories (rng, i, mon):
    """ every character category inside, before and after words """
    chars = [chr (c) for c in range (i*4096, (i+1)*4096) if not 0xd800 <= c < 0xe000]
    if i >= 16:
        chars = [chr (rng.randrange (0x10000, 0x110000)) for _ in range (1000)]
    keys = model.LETTERKEYS
    for k in range (0, len (chars), len (keys)-2):
        part = chars[k:k+len (keys)-2]
        layer = dict (zip (keys, ['ب', 'ّ'] + part))
        data = {'name': 'cat', 'layout': [{'modifier': [[]], 'layer': layer}]}
        ref, lay = hist.load (data)
        s = WordStats (hist.Writer (lay))
        h = []
        b, m = model.C ([], keys[0]), model.C ([], keys[1])
        for kn in keys[2:2+len (part)]:
            x = model.C ([], kn)
            for c in (b, x, b, m, x, x, m):
                h.append (('p', c, ref.comb[c]))
        for e in hist.real (rng, h):
            s.process (e)
        fw.same (model.statsDict ({'words': s})['words'], dict (model.RefStats.count (h).words), 'words', characters=f'{ord (part[0]):x}..{ord (part[-1]):x}')
        mon.event ('character class', len (part))

c = fw.Check ('C06', 'histories recorded from the real writer and synthetic ones (bursts of one key, finger, hand; multi-character keys; skips) recounted at several points, all BMP characters as word parts; non-trivial: distinct non-empty history',
        minEvents={'press': 100000, 'skip': 5000, 'comparison': 1000, 'words total': 5000, 'hand total': 20000, 'finger total': 20000, 'big history': 4, 'huge history': 2, 'character class': 60000})
c.family ('words', words, 1000, 20000)
c.family ('runs', runs, 1000, 20000)
c.family ('big', big, 8, 80)
c.family ('huge', huge, 8, 40)
c.family ('categories', categories, 20, 60)
sys.exit (c.run ())
