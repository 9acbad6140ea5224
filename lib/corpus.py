""" Corpora for the importer, with known texts """

import io, os, json, random, tarfile, pickle, hashlib, time
from . import fw, gen, model

def item (rng, ref, marker, n=None):
    """ A text with a marker character which is in no layout """
    n = n if n is not None else rng.choice ((0, 1, 5, 30, 30, 100, 400))
    # no carriage return, as the importer reads its input in text mode
    s = gen.text (rng, n, sorted (ref.texts) + [' ', ' ', '\n'])
    s = ''.join (c for c in s if not 0xd800 <= ord (c) < 0xe000 and not 0x20000 <= ord (c) < 0x30000)
    p = rng.randrange (len (s)+1)
    return s[:p] + marker + s[p:]

def marker (i):
    return chr (0x20000+i)

def expected (ref, texts):
    """ Typing every text on its own and adding up """
    total = model.RefStats ()
    for t in texts:
        h = []
        for m, x in ref.type (model.normalize (t)):
            h.append (('s', x) if m is None else ('p', x, m))
        total.add (model.RefStats.count (h))
    return total

def tarOf (files):
    b = io.BytesIO ()
    with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
        for name, data in files:
            ti = tarfile.TarInfo (name)
            ti.size = len (data)
            t.addfile (ti, io.BytesIO (data))
    return b.getvalue ()

def make (rng, ref, kind, nitems, d, huge=None):
    """ Returns (filters, lines, texts per line) """
    lines, texts = [], []
    m = 0
    def new (n=None):
        nonlocal m, huge
        if huge:
            n, huge = huge, None
        m += 1
        return item (rng, ref, marker (m), n)
    big = rng.random () < 0.15
    for i in range (nitems):
        if kind == 'lines':
            t = ''.join (c for c in new () if c not in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029') + '\n'
            if rng.random () < 0.1 and len (t) < 1000:
                # white space is text as well
                t = rng.choice (('', '', ' ', '\t')) + '\n'
            lines.append (t)
            texts.append ([t])
        elif kind == 'json':
            t = new (rng.choice ((20000, 70000)) if big and rng.random () < 0.1 else None)
            if rng.random () < 0.2:
                t = t.replace ('\n', '\r\n')
            lines.append (json.dumps (t, ensure_ascii=rng.random () < 0.5) + '\n')
            texts.append ([t])
        elif kind in ('tar', 'brotlitar'):
            ts = [new () for _ in range (rng.choice ((0, 1, 2, 3, 8)) if not huge else 2)]
            if ts and rng.random () < 0.3:
                # the same text again
                t = rng.choice (ts)
                if len (t) < 10000 and rng.random () < 0.3:
                    t = new (5000)
                    ts.append (t)
                ts.insert (rng.randrange (len (ts)+1), t)
            p = os.path.join (d, f'{i}.tar')
            data = tarOf ([(f'f{k}', t.encode ('utf-8')) for k, t in enumerate (ts)])
            if kind == 'brotlitar':
                import brotli
                data = brotli.compress (data, quality=1)
            with open (p, 'wb') as fd:
                fd.write (data)
            lines.append (p + '\n')
            texts.append (ts)
        elif kind == 'xml':
            p = os.path.join (d, f'{i}.xml')
            if rng.random () < 0.15:
                # skipped
                data, ts = '<text><body><p><s>\u0628\u0628', []
            else:
                ss = [''.join (c for c in new (20) if c >= ' ' and c not in '<>&\x7f\x85\u2028' and c != '\ufffe' and c != '\uffff') for _ in range (rng.randrange (1, 4))]
                data = '<x><text><body><p>' + ''.join (f'<s>{s}</s>' for s in ss) + '</p></body></text></x>'
                ts = ['\n'.join (ss + [''])]
            with open (p, 'w', encoding='utf-8') as fd:
                fd.write (data)
            lines.append (p + '\n')
            texts.append (ts)
    filters = {'lines': ['lines'], 'json': ['json'], 'tar': ['file', 'tar', 'text'], 'brotlitar': ['file', 'brotli', 'tar', 'text'], 'xml': ['file', 'xml', 'tei2']}[kind]
    if lines and rng.random () < 0.2 and kind != 'lines':
        lines[-1] = lines[-1].rstrip ('\n')
    return filters, lines, texts

def inject (profile, seed, log):
    """
    Delays at queue operations of all processes of the importer, recording
    which process took which item
    """
    def pre ():
        import multiprocessing.queues as q, multiprocessing.connection as cn
        import multiprocessing, os, hashlib
        main = os.getpid ()
        state = {}
        def rng ():
            p = os.getpid ()
            if p not in state:
                state[p] = random.Random (f'{seed}/{p-main}')
            return state[p]
        fd = os.open (log, os.O_WRONLY|os.O_CREAT|os.O_APPEND, 0o600)
        oget, oput, osend = q.Queue.get, q.Queue.put, cn.Connection._send_bytes
        def delay (where):
            r = rng ()
            k = (os.getpid ()-main)
            if profile == 'none':
                return
            if profile == 'jitter' and r.random () < 0.5:
                time.sleep (r.random ()*0.004)
            elif profile == 'slowworker' and k % 3 == 1 and where == 'get':
                time.sleep (0.03)
            elif profile == 'slowmain' and k == 0:
                time.sleep (r.random ()*0.01)
            elif profile == 'slowflush' and where == 'send':
                time.sleep (r.random ()*0.02)
            elif profile == 'burst' and r.random () < 0.1:
                time.sleep (0.05)
        def get (self, *a, **kw):
            delay ('get')
            x = oget (self, *a, **kw)
            if isinstance (x, str):
                os.write (fd, f'{os.getpid ()-main} {hashlib.md5 (x.encode ("utf-8", "surrogatepass")).hexdigest ()[:8]}\n'.encode ())
            delay ('got')
            return x
        def put (self, *a, **kw):
            delay ('put')
            r = oput (self, *a, **kw)
            delay ('put')
            return r
        def send (self, *a, **kw):
            delay ('send')
            return osend (self, *a, **kw)
        q.Queue.get, q.Queue.put, cn.Connection._send_bytes = get, put, send
    return pre

PROFILES = ['none', 'jitter', 'slowworker', 'slowmain', 'slowflush', 'burst']

def outputs (out):
    """ All statistics in output """
    fd = io.BytesIO (out)
    ret = []
    while True:
        try:
            ret.append (pickle.load (fd))
        except EOFError:
            return ret

def total (parts):
    t = {}
    for p in parts:
        for f, d in model.statsDict (p).items ():
            x = t.setdefault (f, {})
            for k, v in d.items ():
                x[k] = x.get (k, 0) + v
    for f in model.RefStats ().__dict__:
        t.setdefault (f, {})
    return t

def feeder (lines, rng, delays):
    """ Pipe fed by another process, line by line with delays. Returns (fd, pid) """
    r, w = os.pipe ()
    pid = os.fork ()
    if pid == 0:
        try:
            os.close (r)
            import signal
            signal.signal (signal.SIGPIPE, signal.SIG_DFL)
            for l in lines:
                data = l.encode ('utf-8')
                while data:
                    n = rng.randrange (1, len (data)+1)
                    k = os.write (w, data[:n])
                    data = data[k:]
                    if rng.random () < delays:
                        time.sleep (rng.random ()*0.01)
        finally:
            os._exit (0)
    os.close (w)
    return r, pid
