import sys, os, time, signal, json, random
sys.path.insert (0, '/verif')
from lib import fw, gen, model, corpus
from lib.fw import require, same
fw.resolve ('lulua.text:write')
SH = gen.shipped ()
LAY = 'ar-lulua'
REF = model.RefLayout (SH[LAY])

def badItem (rng, d, kind):
    """ (filters, maker of good lines, bad line, exact) """
    if kind == 'json':
        return ['json'], lambda t: json.dumps (t), rng.choice (('{', '"unterminated', '5', '0', 'false', 'true', '-1', '1.5', '0.0', 'null', '[1, 2]', 'nonsense', '[' * 100000, ''))
    if kind == 'file':
        p = os.path.join (d, 'bad')
        r = rng.randrange (3)
        if r == 0:
            with open (p, 'wb') as fd:
                fd.write ('نص'.encode ('utf-8') + rng.choice ((b'\xff', b'\xd9', b'\xed\xa0\x80')))
        elif r == 1:
            os.mkdir (p)
        return ['file', 'text'], files (d), p
    if kind == 'tar':
        p = os.path.join (d, 'bad')
        data = bytearray (corpus.tarOf ([('a', 'نص'.encode ('utf-8')), ('b', b'abc')]))
        o = rng.choice ((0, 1024))
        data[o+257:o+262] = b'xxxxx'
        with open (p, 'wb') as fd:
            fd.write (data)
        good = files (d)
        def tar (t):
            g = good (t)
            with open (g, 'rb') as fd:
                data = fd.read ()
            with open (g, 'wb') as fd:
                fd.write (corpus.tarOf ([('x', data)]))
            return g
        return ['file', 'tar', 'text'], tar, p
    if kind == 'brotli':
        import brotli
        p = os.path.join (d, 'bad')
        data = brotli.compress (gen.text (rng, 3000).encode ('utf-8', 'replace'))
        cut = rng.choice ((0, 1, len (data)//2, len (data)-1))
        with open (p, 'wb') as fd:
            fd.write (data[:cut] + (b'' if rng.random () < 0.7 else b'\xff'*40))
        good = files (d)
        def br (t):
            g = good (t)
            with open (g, 'rb') as fd:
                data = fd.read ()
            with open (g, 'wb') as fd:
                fd.write (brotli.compress (data, quality=0))
            return g
        return ['file', 'brotli', 'text'], br, p
    if kind == 'epub':
        p = os.path.join (d, 'bad')
        if rng.random () < 0.5:
            with open (p, 'wb') as fd:
                fd.write (b'no zip')
        return ['epub'], None, p

def files (d):
    n = 0
    def f (t):
        nonlocal n
        n += 1
        p = os.path.join (d, f'good{n}')
        with open (p, 'wb') as fd:
            fd.write (t.encode ('utf-8'))
        return p
    return f

def tail (r):
    return r.err.decode ('utf-8', 'replace')[-1500:]

def bad (rng, i, mon):
    """ one or more bad items """
    with fw.TempDir () as d:
        kind = ('json', 'file', 'tar', 'brotli', 'json', 'epub', 'json', 'file')[i % 8]
        filters, good, line = badItem (rng, d, kind)
        jobs = (1, 2, 4, 8, 16, 3)[(i//8) % 6]
        if good is None:
            before = after = 0
        else:
            before = rng.choice ((0, 1, jobs, 2*jobs, 2*jobs+1, 3*jobs+1, 50))
            after = rng.choice ((0, 1, jobs, 2*jobs-1, 2*jobs, 3*jobs+1, 10*jobs, 50))
            if kind == 'json' and rng.random () < 0.3:
                # more than fits into queues and pipes
                after = 4000
        mk = lambda: good (corpus.item (rng, REF, 'x', 20))
        lines = [mk () for _ in range (before)] + [line] + [mk () if kind != 'json' or after < 1000 else '"' + 'ب'*60 + '"' for _ in range (after)]
        if rng.random () < 0.2:
            lines.insert (rng.randrange (len (lines)+1), line)
        stdin, fpid = ('\n'.join (lines) + '\n').encode ('utf-8'), None
        if len (lines) < 200 and rng.random () < 0.3:
            stdin, fpid = corpus.feeder ([l + '\n' for l in lines], random.Random (i), 0.02)
        profile = rng.choice (corpus.PROFILES)
        p = fw.Proc ('lulua-write', ['-j', jobs, LAY] + filters, stdin, pre=corpus.inject (profile, rng.random (), os.path.join (d, 'log')))
        if fpid is not None:
            os.close (stdin)
        ctx = dict (jobs=jobs, kind=kind, before=before, after=after, profile=profile, bad=line[:100])
        try:
            p.wait ()
            r = p.result ()
        finally:
            p.close ()
            if fpid is not None:
                os.waitpid (fpid, 0)
        require (r.rc != 0, 'import of an item that cannot be processed reports success', stderr=tail (r), **ctx)
        mon.event ('bad item reported')
        mon.distinct (jobs, kind, before, after, profile)
        mon.sample (ctx)

def undecodable (rng, i, mon):
    """ input that is no text """
    jobs = (1, 2, 4)[i % 3]
    n = rng.choice ((0, 1, 5, 50, 5000))
    after = rng.choice ((0, 1, 5, 50, 5000))
    line = rng.choice ((b'\xff', b'a\xd9', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xd9'))
    kind = ('json', 'lines')[i % 2]
    good = '"\u0628"\n'.encode ('utf-8')
    if kind == 'json':
        line = b'"' + line + b'"'
    stdin = good*n + line + rng.choice ((b'\n', b'\n' if after else b'')) + good*after
    def pre ():
        sys.stdin.reconfigure (errors='strict')
    r = fw.cli ('lulua-write', ['-j', jobs, LAY, kind], stdin, pre=pre)
    ctx = dict (jobs=jobs, kind=kind, before=n, after=after, bad=repr (line))
    require (r.rc != 0, 'import of input that cannot be decoded reports success', stderr=tail (r), **ctx)
    mon.event ('undecodable input reported')
    mon.distinct (*ctx.values ())

def complete (r, texts, ctx):
    want = corpus.expected (REF, texts).asdict ()
    got = corpus.total (corpus.outputs (r.out))
    for f in want:
        same (got[f], want[f], f'success reported, but {f} incomplete', **ctx)

class Feed:
    """ Pipe to the program """
    def __init__ (self):
        self.r, self.w = os.pipe ()
    def write (self, data):
        try:
            while data:
                n = os.write (self.w, data)
                data = data[n:]
            return True
        except BrokenPipeError:
            return False

def taken (log):
    try:
        with open (log) as fd:
            return fd.read ().count ('\n')
    except FileNotFoundError:
        return 0

def killed (rng, i, mon):
    """ a worker dies while input is pending """
    with fw.TempDir () as d:
        jobs = (1, 2, 4, 8)[i % 4]
        profile = rng.choice (corpus.PROFILES)
        log = os.path.join (d, 'log')
        n1, n2 = rng.choice ((1, jobs, 3*jobs, 40)), rng.choice ((0, 1, 2*jobs, 5*jobs, 60))
        texts = [corpus.item (rng, REF, corpus.marker (k), rng.choice ((3, 20, 200))) for k in range (n1+n2)]
        lines = [json.dumps (t) + '\n' for t in texts]
        f = Feed ()
        sig = rng.choice ((signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGSEGV))
        what = 'status' if i % 5 == 4 else 'worker'
        pre = corpus.inject (profile, rng.random (), log)
        def pre2 ():
            os.close (f.w)
            import resource
            resource.setrlimit (resource.RLIMIT_CORE, (0, 0))
            pre ()
        p = fw.Proc ('lulua-write', ['-j', jobs, LAY, 'json'], f.r, pre=pre2)
        ctx = dict (jobs=jobs, before=n1, after=n2, profile=profile, signal=sig.name, victim=what)
        try:
            os.close (f.r)
            f.write (''.join (lines[:n1]).encode ())
            # children in order of creation: workers, then status
            start = time.time ()
            while True:
                kids = sorted (x[0] for x in p.members () if x[1] == p.pid)
                if len (kids) >= jobs+1 and (taken (log) > 0 or time.time ()-start > 5) or p.poll () is not None:
                    break
                if time.time ()-start > 60:
                    raise fw.Inconclusive ('workers did not start')
                time.sleep (0.005)
            if p.poll () is None:
                time.sleep (rng.choice ((0, 0, rng.random ()*0.05)))
                # pids may wrap around, then the choice is merely another one
                victim = kids[-1] if what == 'status' else rng.choice (kids[:jobs])
                os.kill (victim, sig)
                # dead for sure
                while any (x[0] == victim and x[2] not in 'ZX' for x in p.members ()):
                    time.sleep (0.002)
                mon.event (f'{what} killed')
            f.write (''.join (lines[n1:]).encode ())
            os.close (f.w)
            f.w = None
            p.wait ()
            r = p.result ()
        finally:
            if f.w is not None:
                os.close (f.w)
            p.close ()
        if what == 'worker':
            require (r.rc != 0, 'success reported although a worker died', stderr=tail (r), **ctx)
        elif r.rc == 0:
            complete (r, texts, ctx)
        mon.event ('termination after death')
        mon.distinct (*ctx.values ())

def crash (rng, i, mon):
    """ a worker dies at a certain point of its own execution """
    with fw.TempDir () as d:
        jobs = (1, 2, 3, 8)[i % 4]
        point = ('start', 'got', 'done', 'put')[(i//4) % 4]
        nth = rng.choice ((0, 1, 2))
        ext = os.path.join (d, 'crashed')
        def pre ():
            import multiprocessing.queues as q
            main = os.getpid ()
            count = [0]
            def boom ():
                if os.getpid () != main and count[0] >= nth:
                    os.close (os.open (ext, os.O_CREAT|os.O_WRONLY, 0o600))
                    os._exit (rng.choice ((0, 1, 77)))
            oget, oput = q.Queue.get, q.Queue.put
            def get (self, *a, **kw):
                if point == 'start':
                    count[0] += 1
                    boom ()
                x = oget (self, *a, **kw)
                if point == 'got' and isinstance (x, str) or point == 'done' and x is None:
                    count[0] += 1
                    boom ()
                return x
            def put (self, x, *a, **kw):
                if point == 'put' and isinstance (x, int):
                    count[0] += 1
                    boom ()
                return oput (self, x, *a, **kw)
            q.Queue.get, q.Queue.put = get, put
        n = rng.choice ((0, 1, 5, 4*jobs, 80))
        texts = [corpus.item (rng, REF, corpus.marker (k), 20) for k in range (n)]
        p = fw.Proc ('lulua-write', ['-j', jobs, LAY, 'json'], ''.join (json.dumps (t) + '\n' for t in texts).encode (), pre=pre)
        ctx = dict (jobs=jobs, point=point, nth=nth, items=n)
        try:
            p.wait ()
            r = p.result ()
        finally:
            p.close ()
        if os.path.exists (ext):
            mon.event ('worker exited early')
            # whoever crashed, an incomplete result is no success
            if r.rc == 0:
                complete (r, texts, ctx)
                mon.event ('complete anyway')
        else:
            require (r.rc == 0, 'import failed without reason', stderr=tail (r), **ctx)
            complete (r, texts, ctx)
        mon.event ('termination after death')
        mon.distinct (*ctx.values ())

def interrupt (rng, i, mon):
    """ ^C at any time, for the main process or its whole process group """
    with fw.TempDir () as d:
        jobs = (1, 2, 4, 8, 3)[i % 5]
        group = i % 2 == 0
        profile = rng.choice (corpus.PROFILES)
        log = os.path.join (d, 'log')
        n = rng.choice ((3, 4*jobs, 60, 150))
        texts = [corpus.item (rng, REF, corpus.marker (k), rng.choice ((3, 20, 100))) for k in range (n)]
        lines = [json.dumps (t) + '\n' for t in texts]
        f = Feed ()
        pre = corpus.inject (profile, rng.random (), log)
        def pre2 ():
            os.close (f.w)
            pre ()
        p = fw.Proc ('lulua-write', ['-j', jobs, LAY, 'json'], f.r, pre=pre2)
        mode = ('idle', 'busy', 'start', 'end')[i % 4]
        ctx = dict (jobs=jobs, items=n, profile=profile, group=group, mode=mode)
        try:
            os.close (f.r)
            fed = n
            if mode == 'idle':
                fed = rng.randrange (0, n+1)
            fpid = os.fork ()
            if fpid == 0:
                # feeds, then keeps the pipe open until told otherwise
                try:
                    signal.signal (signal.SIGPIPE, signal.SIG_DFL)
                    signal.signal (signal.SIGTERM, signal.SIG_DFL)
                    f.write (''.join (lines[:fed]).encode ())
                    if mode == 'end':
                        os._exit (0)
                    time.sleep (3600)
                finally:
                    os._exit (0)
            os.close (f.w)
            start = time.time ()
            # wait for a certain amount of progress
            goal = {'idle': fed, 'busy': rng.randrange (1, n), 'start': 0, 'end': n}[mode]
            while p.poll () is None:
                kids = [x for x in p.members () if x[1] == p.pid]
                if mode == 'start' or len (kids) >= jobs+1 and taken (log) >= goal or time.time ()-start > 20:
                    break
                time.sleep (0.003)
            if mode in ('start', 'end'):
                time.sleep (rng.random ()*0.3)
            elif rng.random () < 0.5:
                time.sleep (rng.random ()*0.05)
            # progress hook is inert if something else than queues is used
            if p.poll () is None:
                if group:
                    for x in p.members ():
                        try:
                            os.kill (x[0], signal.SIGINT)
                        except ProcessLookupError:
                            pass
                else:
                    os.kill (p.pid, signal.SIGINT)
                mon.event ('interrupted')
            p.wait ()
            r = p.result ()
        finally:
            p.close ()
            os.kill (fpid, signal.SIGKILL)
            os.waitpid (fpid, 0)
        if r.rc == 0:
            parts = corpus.outputs (r.out)
            got = corpus.total (parts)
            marks = sorted (ord (c)-0x20000 for c in got['unknown'] if 0x20000 <= ord (c) < 0x30000)
            k = len (marks)
            require (marks == list (range (k)), 'output after interrupt does not cover a prefix of the items', missing=sorted (set (range (max (marks, default=-1)+1))-set (marks))[:20], covered=k, **ctx)
            complete (r, texts[:k], ctx)
            mon.event ('prefix after interrupt')
            mon.event ('items in prefix', k)
        else:
            mon.event ('error after interrupt')
        mon.distinct (*ctx.values (), r.rc)

def midwrite (rng, i, mon):
    """ worker killed half-way through sending its result """
    with fw.TempDir () as d:
        mark = os.path.join (d, 'mark')
        def pre ():
            import multiprocessing.connection as cn
            main = os.getpid ()
            osend = cn.Connection._send_bytes
            def send (self, buf):
                if os.getpid () != main and len (buf) > 2000:
                    # one of them only
                    try:
                        os.close (os.open (mark, os.O_CREAT|os.O_EXCL|os.O_WRONLY, 0o600))
                    except FileExistsError:
                        return osend (self, buf)
                    import struct
                    self._send (struct.pack ('!i', len (buf)) + bytes (buf[:len (buf)//2]))
                    os.kill (os.getpid (), signal.SIGKILL)
                return osend (self, buf)
            cn.Connection._send_bytes = send
        texts = [corpus.item (rng, REF, corpus.marker (k), 50) for k in range (60)]
        p = fw.Proc ('lulua-write', ['-j', 2, LAY, 'json'], ''.join (json.dumps (t) + '\n' for t in texts).encode (), pre=pre)
        try:
            p.wait ()
            r = p.result ()
        finally:
            p.close ()
        if r.rc == 0:
            complete (r, texts, {})
        mon.event ('killed in the middle of sending')

def output (rng, i, mon):
    """ the result cannot be written: device full, file too large, nobody reads it """
    import resource
    jobs = (1, 2, 4, 8)[i % 4]
    how = ('full', 'limit', 'pipe', 'closed')[i//4 % 4]
    n = rng.choice ((1, jobs, 40))
    texts = [corpus.item (rng, REF, corpus.marker (k), 200) for k in range (n)]
    # a result is at least that large
    limit = rng.choice ((0, 1, 100, 300))
    def pre ():
        if how == 'full':
            fd = os.open ('/dev/full', os.O_WRONLY)
        elif how == 'pipe':
            r, fd = os.pipe ()
            os.close (r)
        elif how == 'limit':
            signal.signal (signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit (resource.RLIMIT_FSIZE, (limit, limit))
            # of the result, not of messages
            os.dup2 (os.open ('/dev/null', os.O_WRONLY), 2)
            return
        else:
            fd = os.open ('/dev/null', os.O_RDONLY)
        os.dup2 (fd, 1)
    ctx = dict (jobs=jobs, how=how, items=n)
    r = fw.cli ('lulua-write', ['-j', jobs, LAY, 'json'], ''.join (json.dumps (t) + '\n' for t in texts).encode (), pre=pre)
    require (r.rc != 0, 'import reports success although its result could not be written', **ctx)
    mon.event ('output failure reported')
    mon.distinct (*ctx.values ())

def points (rng, i, mon):
    """
    ^C at a certain point of execution of the main process: the n-th line or
    return in the importer or the libraries dealing with queues, pipes and
    processes
    """
    with fw.TempDir () as d:
        jobs = (2, 1, 4, 3)[i % 4]
        n = (3, 1, 12, 0)[(i//4) % 4]
        slow = i % 3 == 0
        texts = [corpus.item (rng, REF, corpus.marker (k), 20) for k in range (n)]
        stdin = ''.join (json.dumps (t) + '\n' for t in texts).encode ()
        mark = os.path.join (d, 'mark')
        def pre (at):
            import multiprocessing.connection as cn, multiprocessing.process as mp
            main = os.getpid ()
            count, started = {}, [0]
            osend, ostart = cn.Connection._send_bytes, mp.BaseProcess.start
            def send (self, buf):
                if os.getpid () != main and slow:
                    time.sleep (0.005)
                return osend (self, buf)
            def start (self):
                ostart (self)
                started[0] += 1
            cn.Connection._send_bytes, mp.BaseProcess.start = send, start
            def trace (frame, event, arg):
                if os.getpid () != main:
                    sys.settrace (None)
                    return None
                f = frame.f_code
                if f.co_name in ('_shutdown', '_exit_function'):
                    # left to the interpreter
                    sys.settrace (None)
                    with open (mark, 'w') as fd:
                        json.dump (count, fd)
                    return None
                if not ('/multiprocessing/' in f.co_filename or '/lulua/' in f.co_filename or f.co_filename.endswith (('threading.py', 'selectors.py'))):
                    return None
                if event != 'call' and started[0] > jobs:
                    loc = f'{f.co_filename}:{frame.f_lineno} {f.co_name} {event}'
                    count[loc] = count.get (loc, 0) + 1
                    if at == (loc, count[loc]):
                        with open (mark, 'w') as fd:
                            fd.write (loc)
                        os.kill (main, signal.SIGINT)
                return trace
            sys.settrace (trace)
        def once (at):
            p = fw.Proc ('lulua-write', ['-j', jobs, LAY, 'json'], stdin, pre=lambda: pre (at))
            try:
                p.wait ()
                r = p.result ()
            except fw.Hang as e:
                with open (mark) as fd:
                    raise fw.Violation ('import hangs after interrupt', where=fd.read (), at=at, jobs=jobs, items=n, **e.details)
            finally:
                p.close ()
            with open (mark) as fd:
                return r, fd.read ()
        r, total = once (None)
        ctx = dict (jobs=jobs, items=n)
        require (r.rc == 0, 'import failed without reason', stderr=tail (r), **ctx)
        total = json.loads (total)
        mon.event ('points in an import', sum (total.values ()))
        for k in range (6):
            # every place, whether it's reached often or not
            locs = sorted (total)
            loc = locs[(i*6+k)*37 % len (locs)]
            at = (loc, rng.choice ((1, total[loc], rng.randrange (1, total[loc]+1))))
            r, where = once (at)
            if where == loc:
                mon.event ('interrupted at a point')
                mon.distinct ('point', where)
            if r.rc == 0:
                got = corpus.total (corpus.outputs (r.out))
                marks = sorted (ord (c)-0x20000 for c in got['unknown'] if 0x20000 <= ord (c) < 0x30000)
                require (marks == list (range (len (marks))), 'output after interrupt does not cover a prefix of the items', covered=marks[:50], where=where, at=at, **ctx)
                complete (r, texts[:len (marks)], dict (where=where, at=at, **ctx))

c = fw.Check ('C09', 'bad items at all positions, workers killed from outside and at execution points, interrupts at all stages against the real multi-process importer; non-trivial: distinct scenario',
        minEvents={'bad item reported': 40, 'worker killed': 15, 'interrupted': 20, 'undecodable input reported': 10, 'output failure reported': 12})
c.family ('bad', bad, 64, 1200, cpu=300)
c.family ('undecodable', undecodable, 12, 200, cpu=300)
c.family ('killed', killed, 40, 800, cpu=300)
c.family ('crash', crash, 32, 600, cpu=300)
c.family ('interrupt', interrupt, 48, 1000, cpu=300)
c.family ('points', points, 40, 1500, cpu=300)
c.family ('output', output, 16, 160, cpu=300)
c.family ('midwrite', midwrite, 4, 20, cpu=300)
sys.exit (c.run ())
