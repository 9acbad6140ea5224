""" A command which could not do its work completely says so """
import sys, os, bz2, random, resource, pickle
sys.path.insert (0, '/verif')
from lib import fw, gen, jobs
from lib.fw import require, same
fw.resolve ('lulua.text:write', 'lulua.text:extractMediawiki', 'lulua.stats:main', 'lulua.optimize:optimize', 'lulua.render:render', 'lulua.report:render', 'lulua.layout:importFrom')

def limit (n):
    """ the disk is full after n bytes """
    def pre ():
        # messages do not count
        fd = os.open ('/dev/null', os.O_WRONLY)
        os.dup2 (fd, 2)
        resource.setrlimit (resource.RLIMIT_FSIZE, (n, n))
    return pre

def stdoutTo (f):
    def pre ():
        os.dup2 (f (), 1)
    return pre

def devFull ():
    return os.open ('/dev/full', os.O_WRONLY)

def noReader ():
    r, w = os.pipe ()
    os.close (r)
    return w

def faults (rng, i, mon):
    kind = jobs.KINDS[i % len (jobs.KINDS)]
    with fw.TempDir () as d:
        j = jobs.everything (rng, d, [kind])[kind]
        seed = rng.random ()
        r = j.run (d, seed=seed)
        require (r.rc == 0, f'{kind} fails', status=r.rc, stderr=r.err.decode ('utf-8', 'replace')[-1000:])
        out = j.output (d, r)
        require (out, f'{kind} has no output')
        mon.event ('complete run')
        def bad (what, **kw):
            r = j.run (d, seed=seed, **kw)
            require (r.rc != 0, f'{kind}: {what}, but it claims success', args=kw.get ('args', j.args), output=len (j.output (d, r)) if j.out is None or os.path.isfile (os.path.join (d, j.out)) else None, complete=len (out), stderr=r.err.decode ('utf-8', 'replace')[-500:])
            mon.event (f'failure of {kind}')
            mon.distinct (kind, what)
        # -- output
        # dates and the like may differ a little
        top = max (1, len (out)-60)
        if kind == 'write' and j.args[:2] != ['-j', '1']:
            # depends on the distribution of items among workers
            top = 1000
        for n in {0, rng.randrange (top), rng.randrange (top), top-1, min (top-1, 4096), min (top-1, 8191), min (top-1, rng.choice ((65536, 100, 1000, 20000)))}:
            bad (f'no space after {n} of {len (out)} bytes', pre=limit (n))
            mon.event ('no space')
        if j.out is None:
            bad ('output device is full', pre=stdoutTo (devFull))
            bad ('nobody reads the output', pre=stdoutTo (noReader))
        else:
            for o in ('/dev/full', 'missing/out', '.'):
                bad (f'cannot write to {o}', args=j.args[:-1] + [o])
        mon.event ('output fault')
        # -- input
        if j.stdin and kind != 'write':
            n = len (j.stdin)
            for k in {0, 1, n-1, rng.randrange (n), rng.randrange (n), rng.choice ((n//2, 4096 % n, 8192 % n, 65536 % n))} - (j.complete if kind in ('combine', 'triadeffortplot') else set ()):
                bad (f'input ends after {k} of {n} bytes', stdin=j.stdin[:k])
                mon.event ('truncated input')
            bad ('nonsense as input', stdin=rng.choice ((b'\xff', b'x', b'\n', b'name: x\n')) + j.stdin)
            if kind in ('combine', 'triadeffortplot'):
                bad ('nonsense after input', stdin=j.stdin + rng.choice ((b'\xff', b'x', b'\n', b'\0', b'\x80', j.stdin[:-1])))
        if j.stdin:
            fd = os.open (d, os.O_RDONLY)
            try:
                bad ('input cannot be read', stdin=fd)
            finally:
                os.close (fd)
            mon.event ('input error')
        for f in j.files:
            p = os.path.join (d, f)
            with open (p, 'rb') as fd:
                data = fd.read ()
            for k in {0, 1, rng.randrange (len (data)), len (data)-1} if len (j.files) == 1 or rng.random () < 0.3 else ():
                with open (p, 'wb') as fd:
                    fd.write (data[:k])
                bad (f'file {f} ends after {k} of {len (data)} bytes')
                mon.event ('truncated input')
            with open (p, 'wb') as fd:
                fd.write (data)
        def broken (f, data):
            p = os.path.join (d, f)
            with open (p, 'rb') as fd:
                old = fd.read ()
            with open (p, 'wb') as fd:
                fd.write (data (old))
            bad (f'file {f} is malformed')
            mon.event ('malformed file')
            with open (p, 'wb') as fd:
                fd.write (old)
        if kind == 'mediawiki':
            k = rng.randrange (20, len (data)-10)
            broken ('dump.bz2', lambda x: x[:k] + bytes ([x[k]^(1 << rng.randrange (8))]) + x[k+1:])
            broken ('dump.bz2', lambda x: bz2.compress (bz2.decompress (x)[:-rng.choice ((1, 5, 12, 40))]))
            broken ('dump.bz2', bz2.decompress)
        elif kind == 'svg':
            broken ('heat.yaml', lambda x: x + rng.choice ((b'x: [', b'- a\n b: {', b'"', b'\ty: 1', b'\xff')))
        elif kind == 'report':
            broken ('corpus.yaml', lambda x: x + rng.choice ((b'x: [', b'- a\n b: {', b'"', b'\xff')))
        elif kind == 'corpusstats':
            broken ('meta.yaml', lambda x: x + rng.choice ((b'x: [', b'- a\n b: {', b'"', b'\xff')))
        elif kind == 'klc':
            broken ('x.klc', lambda x: x[:rng.randrange (0, len (x)//2)*2+1])
        # -- names
        for k in j.names:
            for n in ('missing', 'missing/x.yaml', '.', ''):
                a = list (j.args)
                a[k] = n
                bad (f'there is no {n!r}', args=a)
                mon.event ('missing name')
        if '-l' in j.args and kind != 'report' and j.names and kind not in ('corpusstats', ):
            bad ('there is no keyboard', args=['-k', 'missing'] + j.args)
        # as if nothing had happened
        r = j.run (d, seed=seed)
        require (r.rc == 0 and len (j.output (d, r)) >= top, f'{kind} fails after failures', status=r.rc, stderr=r.err.decode ('utf-8', 'replace')[-1000:])
        mon.event (f'complete runs of {kind}')

def unsupported (rng, i, mon):
    """ Not every layout can be converted to every format """
    f = ('winkbd', 'xmodmap', 'keyman', 'ask', 'keylayout', 'klavaro', 'svg')[i % 7]
    with fw.TempDir () as d:
        jobs.everything (rng, d, [])
        for n in sorted (gen.shipped ()):
            out = os.path.join (d, n)
            r = fw.cli ('lulua-render', ['-l', n, f, out], cwd=d)
            mon.event ('conversion')
            mon.distinct (f, n, r.rc)
            if r.rc == 0:
                require (os.path.isfile (out) and os.path.getsize (out) > 0, f'{f}: nothing was written, but it claims success', layout=n, stderr=r.err.decode ('utf-8', 'replace')[-500:])
                mon.event ('possible conversion')

c = fw.Check ('C27', 'every command with injected failures: file size limit at any byte, full device, closed pipe, truncated or corrupt statistics, unreadable input, missing files and unknown names; decided by the exit status; non-trivial: distinct command and fault',
        minEvents={'complete run': 2*len (jobs.KINDS), 'no space': 150, 'output fault': 40, 'truncated input': 100, 'input error': 20, 'missing name': 80, 'malformed file': 15, 'conversion': 60, 'possible conversion': 40, **{f'complete runs of {k}': 1 for k in jobs.KINDS}},
        assumptions=['YAML and text input which ends early cannot be told from complete input'])
c.family ('unsupported', unsupported, 7, 14, cpu=300)
c.family ('faults', faults, 3*len (jobs.KINDS), 20*len (jobs.KINDS), cpu=300)
sys.exit (c.run ())
