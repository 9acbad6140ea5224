import sys, os
sys.path.insert (0, '/verif')
from lib import fw, gen, model, corpus
from lib.fw import require, same
fw.resolve ('lulua.text:write')
SH = gen.shipped ()

def layouts (rng, d):
    """ Shipped by name or generated one as a file """
    if rng.random () < 0.6:
        n = rng.choice (sorted (SH))
        return n, SH[n]
    import yaml
    data = gen.anyLayout (rng, None)
    p = os.path.join (d, 'layout.yaml')
    with open (p, 'w', encoding='utf-8') as fd:
        yaml.safe_dump (data, fd, allow_unicode=False, sort_keys=False)
    return p, data

def run (rng, mon, jobs, kind, nitems, profile, huge=None):
    with fw.TempDir () as d:
        name, data = layouts (rng, d)
        ref = model.RefLayout (data)
        filters, lines, texts = corpus.make (rng, ref, kind, nitems, d, huge)
        log = os.path.join (d, 'log')
        stdin, fpid = ''.join (lines).encode ('utf-8'), None
        if rng.random () < 0.3:
            stdin, fpid = corpus.feeder (lines, rng, 0.3 if nitems < 60 else 0.02)
        # options which must not make any difference
        opts = rng.choice (([], [], ['-v'], ['-k', 'ibmpc105'])) if huge is None else []
        p = fw.Proc ('lulua-write', opts + ['-j', jobs, name] + filters, stdin, pre=corpus.inject (profile, rng.random (), log))
        if fpid is not None:
            os.close (stdin)
        try:
            p.wait ()
            r = p.result ()
        finally:
            p.close ()
            if fpid is not None:
                os.waitpid (fpid, 0)
        ctx = dict (jobs=jobs, kind=kind, items=nitems, profile=profile, layout=name)
        require (r.rc == 0, f'import failed with status {r.rc}', stderr=r.err.decode ('utf-8', 'replace')[-2000:], **ctx)
        parts = corpus.outputs (r.out)
        require (len (parts) <= jobs, 'more results than workers', parts=len (parts), **ctx)
        want = corpus.expected (ref, [t for x in texts for t in x]).asdict ()
        got = corpus.total (parts)
        # exactly-once: markers first, for a readable message
        marks = {c: n for c, n in got['unknown'].items () if 0x20000 <= ord (c) < 0x30000}
        wm = {c: n for c, n in want['unknown'].items () if 0x20000 <= ord (c) < 0x30000}
        lost = [ord (c)-0x20000 for c in wm if marks.get (c, 0) < wm[c]]
        dup = [ord (c)-0x20000 for c in marks if marks[c] > wm.get (c, 0)]
        require (not lost and not dup, 'texts lost or duplicated', lost=lost[:20], duplicated=dup[:20], **ctx)
        for f in want:
            same (got[f], want[f], f'{f} differ from serial processing', **ctx)
        with open (log) as fd:
            trace = fd.read ().split ('\n')[:-1]
        mon.event ('run')
        mon.event ('items', nitems)
        mon.event ('texts', sum (map (len, texts)))
        mon.event ('items taken by workers', len (trace))
        mon.event ('workers that took items', len ({x.split ()[0] for x in trace}))
        # which worker took which item when
        mon.distinct (jobs, kind, profile, trace)
        mon.sample (dict (ctx, schedule=' '.join (x.split ()[0] for x in trace[:40])))

KINDS = ['lines', 'json', 'tar', 'brotlitar', 'xml']

def mixed (rng, i, mon):
    jobs = (1, 2, 3, 4, 8, 16)[i % 6] if i < 36 else rng.randrange (1, 17)
    nitems = rng.choice ((0, 1, 2, 3, 7, jobs, 2*jobs, 2*jobs+1, 3*jobs+2, 40, 100))
    run (rng, mon, jobs, KINDS[i % 5], nitems, corpus.PROFILES[(i//5) % 6])

def many (rng, i, mon):
    run (rng, mon, rng.choice ((2, 5, 8, 12)), 'lines', rng.choice ((600, 1500)), rng.choice (('none', 'jitter')))

def huge (rng, i, mon):
    """ one text of more than a mebibyte among small ones """
    run (rng, mon, rng.choice ((1, 3)), ('lines', 'json', 'tar', 'brotlitar')[i % 4], rng.randrange (1, 4), 'none', huge=rng.choice ((1100000, 1400000)))
    mon.event ('huge text')

COUNTS = (255, 256, 257, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536, 65537)

def counts (rng, i, mon):
    """ exactly that many texts for a worker, and more workers than texts """
    if i % 12 == 11:
        run (rng, mon, (64, 33, 100)[i//12 % 3], 'lines', rng.choice ((1, 5, 64, 200)), 'none')
        mon.event ('many workers')
        return
    n = COUNTS[i % 12 if i < 24 else rng.randrange (len (COUNTS))] + (0 if i < 12 else rng.choice ((-1, 0, 0, 1)))
    jobs = 1 if i < 12 else rng.choice ((1, 1, 2, 4))
    name = rng.choice (sorted (SH))
    ref = model.RefLayout (SH[name])
    alphabet = sorted (t for t in ref.texts if len (t) == 1 and t not in '\n\r')[:40] or ['x']
    lines = [rng.choice (alphabet) + '\n' for _ in range (n)]
    r = fw.cli ('lulua-write', ['-j', jobs, name, 'lines'], ''.join (lines).encode ('utf-8'))
    ctx = dict (jobs=jobs, items=n, layout=name)
    require (r.rc == 0, f'import failed with status {r.rc}', stderr=r.err.decode ('utf-8', 'replace')[-2000:], **ctx)
    got = corpus.total (corpus.outputs (r.out))
    # same statistics for the same lines
    k = {}
    for l in lines:
        k[l] = k.get (l, 0) + 1
    want = {}
    for l, x in k.items ():
        for f, d in corpus.expected (ref, [l]).asdict ().items ():
            w = want.setdefault (f, {})
            for e, v in d.items ():
                w[e] = w.get (e, 0) + v*x
    for f in want:
        same (got[f], want[f], f'{f} differ from serial processing', **ctx)
    mon.event ('run')
    mon.event ('exact number of texts')
    mon.event ('items', n)
    mon.distinct (jobs, n, name)

c = fw.Check ('C08', 'corpora with a unique marker per text imported by the real multi-process importer with injected delays; non-trivial: distinct (configuration, assignment of items to workers in order)',
        minEvents={'run': 50, 'items': 1500, 'huge text': 2, 'exact number of texts': 8},
        assumptions=['delays are injected at queue operations, the kernel decides the rest of the schedule'])
c.family ('mixed', mixed, 90, 1500, cpu=300)
c.family ('many', many, 6, 60, cpu=300)
c.family ('counts', counts, 13, 60, cpu=300)
c.family ('huge', huge, 4, 24, cpu=300)
sys.exit (c.run ())
