import sys, os, io, tarfile, subprocess, zlib
sys.path.insert (0, '/verif')
from lib import fw, gen, corpus
from lib.fw import require, same
import brotli
BrotliFile, filterTar, filterBrotli, filterAvail, apply = fw.resolve ('lulua.text:BrotliFile', 'lulua.text:filterTar', 'lulua.text:filterBrotli', 'lulua.text:filterAvail', 'lulua.text:apply')

def content (rng, limit=400000):
    r = rng.random ()
    n = rng.choice ((0, 1, 2, rng.randrange (600), gen.sizes (rng, limit), rng.randrange (limit)))
    if r < 0.3:
        return rng.randbytes (n)
    if r < 0.5:
        return rng.choice ((b'\0', b'ab', 'نص '.encode ('utf-8')))*(n//2+1)
    if r < 0.6 and limit > 100000:
        return bytes (n*20)
    return (gen.text (rng, min (n, 3000)).encode ('utf-8', 'replace')*(n//3000+1))

def compress (rng, data):
    q = rng.choice ((0, 1, 4, 9)) if len (data) > 50000 else rng.randrange (12)
    if rng.random () < 0.5:
        return brotli.compress (data, quality=q, lgwin=rng.choice ((10, 16, 22, 24)))
    # several meta blocks, flushed at arbitrary points
    c = brotli.Compressor (quality=q, lgwin=rng.choice ((10, 16, 22)))
    out = b''
    pos = 0
    while pos < len (data):
        n = rng.choice ((1, 100, 5000, len (data)))
        out += c.process (data[pos:pos+n])
        if rng.random () < 0.3 and len (data) < 50000 or rng.random () < 0.01:
            out += c.flush ()
        pos += n
    return out + c.finish ()

class Source (io.RawIOBase):
    """ Source that returns as many bytes as it likes """
    def __init__ (self, data, rng, style):
        self.data, self.pos, self.rng, self.style = data, 0, rng, style
    def read (self, n=-1):
        if n is None or n < 0:
            n = len (self.data)-self.pos
        if self.style == 'short':
            n = min (n, self.rng.choice ((1, 2, 3, 10, 1000)) if len (self.data) < 20000 else self.rng.choice ((1000, 4096, 50000)))
        r = self.data[self.pos:self.pos+n]
        self.pos += len (r)
        return r

def source (rng, data, d=None):
    s = rng.choice (('bytesio', 'short', 'exact'))
    return io.BytesIO (data) if s == 'bytesio' else Source (data, rng, s)

def opened (rng, comp):
    src = source (rng, comp)
    r = rng.random ()
    if r < 0.4:
        return BrotliFile (src)
    if r < 0.6:
        l = list (filterBrotli (src))
        same (len (l), 1, 'number of streams')
        return l[0]
    chunk = rng.choice ((1, 2, 3, 7, 64, 1000, 100*1024, 10**7))
    if len (comp) > 30000:
        chunk = max (chunk, 1000)
    return BrotliFile (src, chunk)

def pieces (rng, i, mon):
    data = content (rng)
    comp = compress (rng, data)
    f = opened (rng, comp)
    small = len (data) < 3000
    out, total = [], 0
    style = rng.choice (('random', 'fixed', 'all', 'mixed'))
    fixed = rng.choice ((1, 2, 511, 512, 513)) if small else rng.choice ((512, 4096, 65536, 10**6))
    with f if rng.random () < 0.5 else io.BytesIO () as _:
        while True:
            n = {'random': rng.choice ((0, 1, 3, 100, 600)) if small else rng.choice ((0, 512, 3000, 60000, 300000)), 'fixed': fixed, 'all': None, 'mixed': rng.choice ((None, 0, 5, 10**6))}[style]
            b = f.read () if n is None else f.read (n)
            require (isinstance (b, bytes), 'not bytes', got=type (b))
            want = data[total:] if n is None else data[total:total+n]
            if b != want:
                require (False, 'piece differs', at=total, asked=n, gotlen=len (b), wantlen=len (want), total=len (data), compressed=len (comp))
            total += len (b)
            mon.event ('read')
            if b == b'' and n != 0:
                break
        for n in (None, 1, 0, 1000):
            same (f.read () if n is None else f.read (n), b'', 'read after the end')
    same (total, len (data), 'length')
    mon.event ('stream')
    mon.event ('bytes', total)
    mon.distinct (zlib.crc32 (comp), len (comp), style, fixed)
    mon.sample (dict (length=len (data), compressed=len (comp), style=style))

def huge (rng, i, mon):
    """ Small input, very large output, read in uneven pieces """
    unit = rng.randbytes (rng.choice ((1, 1000, 65536)))
    n = (40, 70)[i % 2]*2**20
    data = (unit*(n//len (unit)+1))[:n-rng.randrange (1000)]
    comp = brotli.compress (data, quality=1)
    f = BrotliFile (io.BytesIO (comp)) if i % 2 else BrotliFile (Source (comp, rng, 'short'))
    view = memoryview (data)
    total = 0
    for k in rng.choice (((1, None), (1, 512, 10**6, None), (17*2**20, 5, None), (None, ), (1, 0, 33*2**20, 512, 1, None))):
        b = f.read () if k is None else f.read (k)
        want = view[total:] if k is None else view[total:total+k]
        require (len (b) == len (want) and b == want, 'piece of large stream differs', at=total, asked=k, gotlen=len (b), wantlen=len (want))
        total += len (b)
    same (total, len (data), 'length')
    mon.event ('large stream')

def cut (rng, data, comp, k, mon):
    """ Stream truncated to k bytes """
    f = opened (rng, comp[:k])
    got = b''
    err = None
    n = rng.choice ((None, 1, 100, 512, 10**6)) if len (data) < 5000 else rng.choice ((None, 1000, 10**5))
    for _ in range (len (data)+10):
        try:
            b = f.read () if n is None else f.read (n)
        except Exception as e:
            err = e
            break
        got += b
        if b == b'' or n is None:
            break
    require (err is not None, 'truncated stream not reported', length=len (comp), cut=k, got=len (got), want=len (data), asked=n)
    require (data.startswith (got), 'wrong data before the truncation')
    mon.event ('truncation reported')

def truncated (rng, i, mon):
    data = content (rng, 3000 if i % 2 else 300000)
    comp = compress (rng, data)
    if len (comp) < 80:
        ks = range (len (comp))
    else:
        ks = {0, 1, len (comp)-1, len (comp)-2} | {rng.randrange (len (comp)) for _ in range (10)}
        if len (comp) > 100*1024:
            ks |= {100*1024, 100*1024-1}
    for k in ks:
        cut (rng, data, comp, k, mon)
    mon.distinct (zlib.crc32 (comp), len (comp))

def bigTar (rng, i, mon):
    """ members whose sizes need any number of digits """
    sizes = [8**k + d for k in range (1, 9) for d in (-1, 0, 1)] + [8**7*2+3, 8**7*3, 8**8+5]
    rng.shuffle (sizes)
    sizes = sizes[:6] + [rng.choice ((8**7+1, 8**7*2, 8**8+1))]
    rng.shuffle (sizes)
    files = [(f'f{k}', (bytes ([k+1]) + rng.randbytes (997))*(n//998+1)) for k, n in enumerate (sizes)]
    files = [(f, x[:n]) for (f, x), n in zip (files, sizes)]
    got = [zlib.crc32 (x.read ()) for x in filterTar (io.BytesIO (corpus.tarOf (files)))]
    same (got, [zlib.crc32 (x) for f, x in files], 'contents of large files', sizes=sizes)
    mon.event ('large archive')
    mon.distinct (tuple (sizes))

def archive (rng, d):
    """ (bytes of archive, contents of non-empty regular files in order) """
    n = rng.choice ((0, 1, 2, 3, 8, 20))
    want = []
    b = io.BytesIO ()
    with tarfile.open (fileobj=b, mode='w', format=tarfile.GNU_FORMAT, encoding='utf-8', errors='surrogateescape') as t:
        for k in range (n):
            r = rng.random ()
            name = rng.choice ((f'f{k}', f'd/é{k}', 'x'*rng.choice ((99, 100, 101, 255, 513, 1200)) + str (k), 'a/'*60 + str (k), 'same', '', ' ', '\x01'))
            ti = tarfile.TarInfo (name)
            ti.uid = rng.choice ((0, 1000, 3000000))
            ti.mode = rng.choice ((0o644, 0o777, 0))
            ti.mtime = rng.choice ((0, 1500000000, 8589934592))
            ti.uname = rng.choice (('', 'root', 'user'))
            if r < 0.6:
                data = rng.choice ((b'', rng.randbytes (rng.choice ((1, 511, 512, 513, 1024, 5000))), gen.text (rng, 300).encode ('utf-8', 'replace'), bytes (rng.choice ((512, 1024, 700))), b'\0'*5, content (rng, 100000)))
                ti.size = len (data)
                ti.type = rng.choice ((tarfile.REGTYPE, tarfile.REGTYPE, tarfile.AREGTYPE, tarfile.CONTTYPE))
                t.addfile (ti, io.BytesIO (data))
                if data:
                    want.append (data)
            else:
                ti.type = rng.choice ((tarfile.DIRTYPE, tarfile.SYMTYPE, tarfile.LNKTYPE, tarfile.FIFOTYPE, tarfile.CHRTYPE, tarfile.BLKTYPE))
                if ti.type in (tarfile.SYMTYPE, tarfile.LNKTYPE):
                    ti.linkname = rng.choice (('f0', 'y'*150, 'z'*100))
                t.addfile (ti)
    data = b.getvalue ()
    r = rng.random ()
    end = len (data.rstrip (b'\0'))
    if r < 0.1 and data:
        # no end marker at all: cut after the last used block
        last = b.tell ()
        o, k = 0, 0
        while o < len (data) and data[o:o+512] != bytes (512):
            size = int (data[o+124:o+135].rstrip (b'\0 ') or b'0', 8)
            o += 512 + (size+511)//512*512
        data = data[:o]
    elif r < 0.2:
        data += bytes (512*rng.randrange (1, 30))
    elif r < 0.3 and data:
        # whatever follows the end marker is not part of the archive
        data += bytes (1024) + rng.choice ((data, rng.randbytes (rng.choice ((100, 512, 5000))), b'x'*10240))
    return data, want

def systemTar (rng, d):
    """ Archive made by GNU tar """
    os.mkdir (os.path.join (d, 'in'))
    names, want = [], []
    for k in range (rng.randrange (1, 6)):
        nm = rng.choice ((f'{k}', 'l'*rng.choice ((99, 100, 101, 200)) + str (k), f'sub dir{k}'))
        p = os.path.join (d, 'in', nm)
        r = rng.random ()
        if r < 0.7:
            c = content (rng, 20000)
            with open (p, 'wb') as fd:
                fd.write (c)
            if c:
                want.append (c)
        elif r < 0.85:
            os.mkdir (p)
        else:
            os.symlink ('nowhere'*rng.choice ((1, 20)), p)
        names.append (nm)
    r = subprocess.run (['tar', '--format=gnu', '-C', os.path.join (d, 'in'), '-b', str (rng.choice ((1, 20))), '-cf', os.path.join (d, 'x.tar')] + names, capture_output=True)
    if r.returncode != 0:
        raise fw.Inconclusive ('tar failed')
    with open (os.path.join (d, 'x.tar'), 'rb') as fd:
        return fd.read (), want

def tar (rng, i, mon):
    with fw.TempDir () as d:
        data, want = systemTar (rng, d) if i % 5 == 0 else archive (rng, d)
        p = os.path.join (d, 'archive')
        via = rng.choice (('bytes', 'file', 'brotli', 'chain'))
        fd = None
        if via == 'bytes':
            it = filterTar (io.BytesIO (data))
        elif via == 'file':
            with open (p, 'wb') as o:
                o.write (data)
            fd = open (p, 'rb')
            it = filterTar (fd)
        elif via == 'brotli':
            it = filterTar (opened (rng, compress (rng, data)))
        else:
            with open (p, 'wb') as o:
                o.write (compress (rng, data))
            it = apply ([filterAvail[x] for x in ('file', 'brotli', 'tar')], [p + '\n'])
        lazy = rng.random () < 0.5
        if lazy:
            # contents are read while iterating
            got = [x.read () for x in it]
        else:
            got = [x.read () for x in list (it)]
        if fd:
            fd.close ()
        same (len (got), len (want), 'number of files', via=via, sizes=[len (x) for x in want], got_sizes=[len (x) for x in got])
        for k, (g, w) in enumerate (zip (got, want)):
            require (g == w, 'content differs', file=k, gotlen=len (g), wantlen=len (w), via=via)
        mon.event ('archive')
        mon.event ('file', len (want))
        mon.event (f'via {via}')
        mon.distinct (zlib.crc32 (data), len (data), via)

def texts (rng, i, mon):
    """ what the text filter returns is exactly what was stored, whatever it looks like """
    special = ['\ufeff', '\ufeff\ufeff', '\r\n', '\r', '\n', '\0', '\x1a', ' ', '\t', '\x85', '\u2028', '\x0c', '\u200f', '\u0626', '\u064a\u0654', '\ufefb', '\x1b[0m', '\ufffe', '\U0010ffff', '#!', '<?xml', '\x7f']
    want = []
    for _ in range (rng.randrange (1, 6)):
        t = gen.text (rng, gen.sizes (rng, 3000))
        t = ''.join (c for c in t if not 0xd800 <= ord (c) < 0xe000)
        if rng.random () < 0.6:
            t = rng.choice (special) + t
        if rng.random () < 0.4:
            t = t + rng.choice (special)
        if rng.random () < 0.3:
            p = rng.randrange (len (t)+1)
            t = t[:p] + rng.choice (special)*rng.choice ((1, 2, 600)) + t[p:]
        want.append (t)
    data = [t.encode ('utf-8') for t in want]
    via = ('file', 'brotli', 'tar', 'brotlitar')[i % 4]
    with fw.TempDir () as d:
        items = []
        def put (b):
            n = rng.choice (('x', ' x', '\tx', 'ف x', '-', '#', '\\', '*', "'", '"', '~', '$HOME', '%s', '{}', 'x\u00a0y', '.x', 'a b', '\ufeffx')) + str (len (items))
            p = os.path.join (d, n)
            with open (p, 'wb') as fd:
                fd.write (b)
            items.append (rng.choice ((p, os.path.join (d, '.', n))) + rng.choice (('\n', '\n', '')))
        if via in ('file', 'brotli'):
            for b in data:
                put (b if via == 'file' else compress (rng, b))
        else:
            a = corpus.tarOf ([(f'f{k}', b) for k, b in enumerate (data)])
            put (a if via == 'tar' else compress (rng, a))
            want = [t for t in want if t]
        chain = {'file': ['file', 'text'], 'brotli': ['file', 'brotli', 'text'], 'tar': ['file', 'tar', 'text'], 'brotlitar': ['file', 'brotli', 'tar', 'text']}[via]
        got = list (apply ([filterAvail[x] for x in chain], items))
        same (len (got), len (want), 'number of texts', via=via)
        for g, w in zip (got, want):
            same (g, w, 'text differs from what was stored', via=via)
    mon.event ('stored text', len (want))
    mon.distinct (via, *want)

def truncatedChain (rng, i, mon):
    """ a truncated compressed archive is an error as well, not fewer files """
    with fw.TempDir () as d:
        files = [(f'f{k}', rng.randbytes (rng.choice ((10, 700, 3000)))) for k in range (rng.randrange (1, 6))]
        data = corpus.tarOf (files)
        comp = compress (rng, data)
        k = rng.randrange (len (comp))
        got = []
        err = None
        try:
            for x in filterTar (BrotliFile (io.BytesIO (comp[:k]), rng.choice ((10, 1000, 100*1024)))):
                got.append (x.read ())
        except Exception as e:
            err = e
        wantc = [c for n, c in files]
        require (err is not None or got == wantc, 'truncated archive looks complete', files=len (wantc), got=len (got), cut=k, length=len (comp))
        require (got == wantc[:len (got)], 'wrong contents')
        mon.event ('truncated archive')

def truncatedTar (rng, i, mon):
    """ an archive that ends within a file is an error, with or without compression; the files before it are as they were """
    sizes = [rng.choice ((1, 10, 511, 512, 513, 700, 1024, 3000, 20000)) for k in range (rng.randrange (1, 8))]
    files = [(f'f{k}', rng.choice ((rng.randbytes (n), b'\n'*n, b'a'*n, bytes (n)))) for k, n in enumerate (sizes)]
    data = corpus.tarOf (files)
    # first bytes of the contents
    k = rng.randrange (len (files))
    o = 512
    for n in sizes[:k]:
        o += 512 + (n+511)//512*512
    assert data[o:o+sizes[k]] == files[k][1]
    inside = rng.choice ((0, sizes[k]-1, sizes[k]//512*512, rng.randrange (sizes[k])))
    if inside >= sizes[k]:
        inside = sizes[k]-1
    part = data[:o+inside]
    via = rng.choice (('bytes', 'brotli', 'file'))
    got, err = [], None
    with fw.TempDir () as d:
        if via == 'file':
            p = os.path.join (d, 'x.tar')
            with open (p, 'wb') as fd:
                fd.write (part)
            it = apply ([filterAvail[x] for x in ('file', 'tar')], [p + '\n'])
        else:
            it = filterTar (io.BytesIO (part) if via == 'bytes' else opened (rng, compress (rng, part)))
        try:
            for x in it:
                got.append (x.read ())
        except Exception as e:
            err = e
    require (err is not None, 'archive that ends within a file looks complete', sizes=sizes, file=k, inside=inside, via=via, got=[len (x) for x in got])
    same ([zlib.crc32 (x) for x in got], [zlib.crc32 (x) for n, x in files[:k]], 'files before the end', sizes=sizes, file=k, inside=inside, via=via)
    mon.event ('archive ends within a file')
    mon.distinct (tuple (sizes), k, inside, via)

c = fw.Check ('C10', 'generated contents, compression parameters, input and read chunkings, truncation points; archives with all member types from tarfile and GNU tar; non-trivial: distinct (stream, chunking)',
        minEvents={'stream': 300, 'truncation reported': 300, 'archive': 100, 'file': 300, 'via brotli': 20, 'truncated archive': 30, 'archive ends within a file': 100, 'large archive': 10, 'large stream': 2, 'stored text': 200})
c.family ('pieces', pieces, 700, 15000)
c.family ('huge', huge, 4, 30)
c.family ('truncated', truncated, 120, 2500)
c.family ('tar', tar, 400, 8000)
c.family ('texts', texts, 200, 4000)
c.family ('bigTar', bigTar, 16, 150)
c.family ('truncatedChain', truncatedChain, 80, 1500)
c.family ('truncatedTar', truncatedTar, 200, 4000)
sys.exit (c.run ())
