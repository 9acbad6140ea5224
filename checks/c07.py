import sys, os, io, json, pickle, subprocess, copy
sys.path.insert (0, '/verif')
from lib import fw, gen, model, hist
from lib.fw import require, same
from lib.hist import Writer
allStats, makeCombined, unpickleAll = fw.resolve ('lulua.stats:allStats', 'lulua.stats:makeCombined', 'lulua.stats:unpickleAll')

def sd (stats, what='statistics'):
    try:
        return model.statsDict (stats)
    except ValueError as e:
        require (False, f'{what}: {e}')

def feed (stats, events):
    for e in events:
        for s in stats.values ():
            s.process (e)

def fresh (lay):
    w = Writer (lay)
    return {c.name: c (w) for c in allStats}

def merge (a, b):
    for k in a:
        a[k].update (b[k])

def history (rng, ref, lay, n):
    if rng.random () < 0.3:
        return hist.typed (rng, ref, lay, n)[0]
    return hist.synthetic (rng, ref, n)

def trees (rng, i, mon):
    """ any order, any grouping; parts stay unchanged, independent and usable """
    data = gen.anyLayout (rng, i)
    ref, lay = hist.load (data)
    nparts = rng.choice ((1, 2, 2, 3, 4, 7))
    hs = [history (rng, ref, lay, gen.sizes (rng, 600, 40)) for _ in range (nparts)]
    rests = [history (rng, ref, lay, rng.randrange (0, 25)) for _ in range (nparts)]
    parts = []
    for h in hs:
        p = fresh (lay)
        feed (p, hist.real (rng, h))
        parts.append (p)
    refs = [model.RefStats.count (h) for h in hs]
    before = [sd (p) for p in parts]
    for b, r in zip (before, refs):
        same (b, r.asdict (), 'part itself')
    total = model.RefStats ()
    for r in refs:
        total.add (r)
    total = total.asdict ()
    # merge in two different orders/groupings; each merge target is a new object
    for attempt in range (2):
        nodes = [(p, model.RefStats ().add (r)) for p, r in zip (parts, refs)]
        rng.shuffle (nodes)
        while len (nodes) > 1 or attempt == 0 and len (nodes) == 1 and nparts == 1:
            k = rng.randrange (1, min (4, len (nodes))+1) if len (nodes) > 2 else len (nodes)
            k = max (2, k) if len (nodes) > 1 else 1
            grp, nodes = nodes[:k], nodes[k:]
            t = makeCombined (hist.KB) if rng.random () < 0.5 else fresh (lay)
            want = model.RefStats ()
            for p, r in grp:
                merge (t, p)
                want.add (r)
                mon.event ('merge')
            same (sd (t), want.asdict (), 'merged', parts=[len (h) for h in hs])
            nodes.append ((t, want))
            rng.shuffle (nodes)
            if nparts == 1:
                break
        t = nodes[0][0]
        if nparts > 1:
            same (sd (t), total, 'total of all parts')
        same ([sd (p) for p in parts], before, 'merging changed a part')
        # aliasing: neither side sees later changes of the other one
        if nparts > 1:
            x = fresh (lay)
            feed (x, hist.real (rng, rests[0]))
            merge (t, x)
            merge (t, x)
            same ([sd (p) for p in parts], before, 'a part sees changes of the merged statistics')
            now = sd (t)
            merge (parts[0], x)
            same (sd (t), now, 'merged statistics see changes of a part')
            refs[0].add (model.RefStats.count (rests[0]))
            before[0] = refs[0].asdict ()
            total = model.RefStats ()
            for r in refs:
                total.add (r)
            total = total.asdict ()
            same (sd (parts[0]), before[0], 'merged into a part')
            mon.event ('aliasing probe')
    mon.distinct (data['name'], [repr (h[:20]) for h in hs])

def resumed (rng, i, mon):
    """ parts that were merged while in progress continue to count correctly """
    ref, lay = hist.load (gen.anyLayout (rng, None))
    h = history (rng, ref, lay, rng.randrange (2, 120))
    p, t, ev = fresh (lay), fresh (lay), list (hist.real (rng, h))
    want = model.RefStats ()
    cuts = sorted (rng.randrange (len (h)+1) for _ in range (rng.randrange (1, 4))) + [len (h)]
    a = 0
    for b in cuts:
        feed (p, ev[a:b])
        a = b
        merge (t, p)
        want.add (model.RefStats.count (h[:b]))
        same (sd (p), model.RefStats.count (h[:b]).asdict (), 'part in progress', cut=b, history=h)
    same (sd (t), want.asdict (), 'merged parts in progress')
    mon.event ('merge of part in progress', len (cuts))
    # and so does the total, what is in progress there is not that of the part
    h2 = history (rng, ref, lay, rng.randrange (2, 60))
    p, ev = fresh (lay), list (hist.real (rng, h2))
    a, want = 0, model.RefStats ()
    for b in sorted (rng.randrange (len (h2)+1) for _ in range (rng.randrange (1, 4))) + [len (h2)]:
        feed (p, ev[a:b])
        a = b
        part = history (rng, ref, lay, rng.randrange (1, 30))
        x = fresh (lay)
        feed (x, hist.real (rng, part))
        xd = sd (x)
        merge (p, x)
        want.add (model.RefStats.count (part))
        own = model.RefStats.count (h2[:b])
        same (sd (p), own.add (want).asdict (), 'statistics in progress others were merged into', cut=b, history=h2, part=part)
        same (sd (x), xd, 'part merged into statistics in progress')
        feed (p, [])
        mon.event ('merge into statistics in progress')

def big (rng, i, mon):
    """ counts beyond machine integers, many parts """
    ref, lay = hist.load (gen.anyLayout (rng, None))
    h = history (rng, ref, lay, 300)
    p = fresh (lay)
    feed (p, hist.real (rng, h))
    first = pickle.dumps (p)
    n = 1
    for _ in range (70):
        merge (p, pickle.loads (pickle.dumps (p)))
        merge (p, pickle.loads (first))
        # all bits are set
        n = 2*n + 1
    want = {f: {k: v*n for k, v in d.items ()} for f, d in model.RefStats.count (h).asdict ().items ()}
    same (sd (p), want, 'doubled 70 times, with one more each time')
    mon.event ('big counts')

def huge (rng, i, mon):
    """ parts with very many entries """
    total = model.RefStats ()
    t = makeCombined (hist.KB)
    blob = b''
    for k in range (2):
        ref, lay, h = hist.hugeHistory (rng, i*2+k, (30000, 120000)[i % 2])
        p = fresh (lay)
        feed (p, hist.real (rng, h))
        total.add (model.RefStats.count (h))
        merge (t, p)
        blob += pickle.dumps (p, pickle.HIGHEST_PROTOCOL)
    same (sd (t), total.asdict (), 'huge parts merged')
    same (sd (pickle.loads (fw.cliOk ('lulua-analyze', ['combine'], blob).out), 'combined'), total.asdict (), 'huge parts combined on the command line')
    mon.event ('entries of huge parts', sum (map (len, total.asdict ().values ())))

def spawn (job, seed):
    env = dict (os.environ, PYTHONHASHSEED=str (seed), PYTHONPATH=fw.REPO)
    r = subprocess.run ([fw.PYTHON, os.path.join (fw.VERIF, 'lib', 'partmaker.py')], input=json.dumps (job, default=str).encode (), env=env, capture_output=True)
    require (r.returncode == 0, 'process producing statistics failed', stderr=r.stderr.decode ('utf-8', 'replace')[-1500:])
    return r.stdout

def foreign (rng, i, mon):
    """ parts pickled by other processes which loaded keyboards in another order """
    data = gen.anyLayout (rng, i)
    ref, lay = hist.load (data)
    blobs, total = [], model.RefStats ()
    for _ in range (rng.choice ((1, 2, 3))):
        order = list (model.KEYS)
        rng.shuffle (order)
        order = [f'other{k}' for k in range (rng.choice ((0, 1, 40)))] + order[:rng.choice ((0, 5, len (order)))]
        hs = [history (rng, ref, lay, gen.sizes (rng, 300, 60)) for _ in range (rng.choice ((1, 2, 5)))]
        jh = [[['s', e[1]] if e[0] == 's' else ['p', sorted (e[1][0]), sorted (e[1][1])] for e in h] for h in hs]
        out = spawn (dict (order=order, layout=data, histories=jh, protocol=rng.choice ((4, 5))), rng.randrange (2**32))
        fd = io.BytesIO (out)
        for h in hs:
            p = pickle.load (fd)
            r = model.RefStats.count (h)
            same (sd (p, 'part of another process'), r.asdict (), 'part of another process')
            # keys are fully usable here
            for b in p['simple'].buttons:
                require (b == hist.KB[b.name] and hash (b) == hash (hist.KB[b.name]), 'key of another process differs', key=b)
            for cb, n in p['simple'].combinations.items ():
                c2 = hist.realComb (model.name (cb))
                require (cb == c2 and hash (cb) == hash (c2) and p['simple'].combinations[c2] == n, 'combination of another process cannot be looked up', combination=cb)
            total.add (r)
            mon.event ('foreign part')
        blobs.append (out)
    rng.shuffle (blobs)
    # merged with local statistics
    t = makeCombined (hist.KB)
    local = history (rng, ref, lay, 100)
    x = fresh (lay)
    feed (x, hist.real (rng, local))
    merge (t, x)
    for p in unpickleAll (io.BytesIO (b''.join (blobs))):
        merge (t, p)
    same (sd (t, 'merge of local and foreign parts'), model.RefStats ().add (total).add (model.RefStats.count (local)).asdict (), 'merge of local and foreign parts')
    # and on the command line
    out = fw.cliOk ('lulua-analyze', ['combine'], b''.join (blobs)).out
    same (sd (pickle.loads (out), 'combined'), total.asdict (), 'combined on the command line')
    # combining combined ones
    out2 = fw.cliOk ('lulua-analyze', ['combine'], out + blobs[0] + out).out
    t2 = model.RefStats ().add (total).add (total)
    b0 = sd (fold (blobs[0]))
    same (sd (pickle.loads (out2), 'combined'), {f: {k: getattr (t2, f)[k] + b0[f].get (k, 0) for k in set (getattr (t2, f)) | set (b0[f])} for f in b0}, 'combined twice')
    mon.event ('command line', 2)
    mon.distinct (data['name'], blobs[0][:100000])

def fold (blob):
    t = makeCombined (hist.KB)
    for p in unpickleAll (io.BytesIO (blob)):
        merge (t, p)
    return t

def many (rng, i, mon):
    """ command line with any number of parts """
    ref, lay = hist.load (gen.anyLayout (rng, None))
    n = (0, 1, 2, 300, 40, 7, 2500)[i % 7]
    total = model.RefStats ()
    blob = b''
    for _ in range (n):
        h = history (rng, ref, lay, rng.randrange (0, 30))
        p = fresh (lay)
        feed (p, hist.real (rng, h))
        total.add (model.RefStats.count (h))
        blob += pickle.dumps (p, pickle.HIGHEST_PROTOCOL)
    out = fw.cliOk ('lulua-analyze', ['combine'], blob).out
    fd = io.BytesIO (out)
    same (sd (pickle.load (fd), 'combined'), total.asdict (), f'{n} parts combined on the command line')
    require (fd.read () == b'', 'trailing data')
    mon.event ('command line')
    mon.event ('parts on command line', n)

def cut (rng, i, mon):
    """ incomplete parts are no end of input """
    import pickletools
    if i % 2:
        ref, lay, h = hist.hugeHistory (rng, i, 20000)
    else:
        ref, lay = hist.load (gen.anyLayout (rng, None))
        h = history (rng, ref, lay, 200)
    p = fresh (lay)
    feed (p, hist.real (rng, h))
    good = pickle.dumps (p, pickle.HIGHEST_PROTOCOL)
    # at the end of a block as written by pickle and anywhere
    cuts = [pos for op, _, pos in pickletools.genops (good) if op.name == 'FRAME']
    where = rng.choice (cuts) if rng.random () < 0.7 else rng.randrange (1, len (good))
    r = fw.cli ('lulua-analyze', ['combine'], good*rng.choice ((0, 1, 3)) + good[:where])
    require (r.rc != 0, 'incomplete statistics are ignored', at=where, size=len (good))
    mon.event ('incomplete part')
    mon.event ('cut between blocks', where in cuts[1:])

c = fw.Check ('C07', 'histories of parts merged in random orders and groupings, in progress, from foreign processes with shuffled key registries, on the command line; non-trivial: distinct parts',
        minEvents={'merge': 500, 'aliasing probe': 100, 'merge of part in progress': 200, 'foreign part': 40, 'command line': 20, 'big counts': 4, 'incomplete part': 12, 'cut between blocks': 3,  'entries of huge parts': 100000})
c.family ('trees', trees, 400, 10000)
c.family ('resumed', resumed, 300, 8000)
c.family ('big', big, 8, 80)
c.family ('huge', huge, 4, 24)
c.family ('foreign', foreign, 24, 400)
c.family ('many', many, 14, 140)
c.family ('cut', cut, 16, 200)
sys.exit (c.run ())
