""" Large input is processed piece by piece """
import sys, os, io, bz2, fcntl, json, math, pickle, select, signal, subprocess, time, zipfile
sys.path.insert (0, '/verif')
from lib import fw, gen, corpus, jobs
from lib.fw import require, same
import brotli
filterAvail, apply = fw.resolve ('lulua.text:filterAvail', 'lulua.text:apply')
fw.resolve ('lulua.text:write', 'lulua.text:extractMediawiki', 'lulua.stats:main')

CODE = 'import sys; from lulua.{} import {}; sys.exit ({} ())'
MB = 2**20

class Run:
    """ A command in an interpreter of its own, watched while it runs """
    def __init__ (self, d, prog, args, stdin=None):
        m, f = fw.CLI[prog].split (':')
        self.out = os.path.join (d, f'out{time.monotonic_ns ()}')
        self.err = self.out + '.err'
        env = dict (os.environ, PYTHONPATH=fw.REPO, LC_ALL='C.UTF-8')
        with open (self.out, 'wb') as o, open (self.err, 'wb') as e:
            self.p = subprocess.Popen ([fw.PYTHON, '-W', 'ignore', '-c', CODE.format (m.split ('.')[1], f, f)] + list (map (str, args)),
                    stdin=subprocess.DEVNULL if stdin is None else stdin, stdout=o, stderr=e, cwd=d, env=env, start_new_session=True)
        # by process: highest amount of memory used so far
        self.peak = {}
        self.seen = 0
        # number of files open at the same time in any of them
        self.files = 0

    def processes (self):
        for n in os.listdir ('/proc'):
            if n.isdigit ():
                try:
                    with open (f'/proc/{n}/stat') as fd:
                        s = fd.read ().rsplit (')', 1)[1].split ()
                except OSError:
                    continue
                if int (s[3]) == self.p.pid:
                    yield int (n)

    def sample (self):
        for n in self.processes ():
            try:
                self.files = max (self.files, len (os.listdir (f'/proc/{n}/fd')))
                with open (f'/proc/{n}/status') as fd:
                    for l in fd:
                        if l.startswith ('VmHWM:'):
                            self.peak[n] = max (self.peak.get (n, 0), int (l.split ()[1])*1024)
                            self.seen += 1
            except OSError:
                pass

    def finish (self, limit=300):
        start = time.time ()
        while self.p.poll () is None:
            self.sample ()
            time.sleep (0.02)
            if time.time ()-start > limit:
                self.kill ()
                raise fw.Inconclusive (f'no result after {limit} s')
        with open (self.err, 'rb') as fd:
            err = fd.read ()
        same (self.p.returncode, 0, 'exit status', stderr=err[-1500:].decode ('utf-8', 'replace'))
        return max (self.peak.values (), default=0)

    def kill (self):
        for n in list (self.processes ()) + [self.p.pid]:
            try:
                os.kill (n, signal.SIGKILL)
            except ProcessLookupError:
                pass
        self.p.wait ()

def growth (mon, what, few, many, volume):
    """ volume: how much more there was to read """
    mon.event ('memory compared')
    mon.event ('MB read', int (volume/MB))
    mon.sample (dict (what=what, few=few//MB, many=many//MB, volume=volume//MB))
    if not few or not many:
        raise fw.Inconclusive ('memory not observed')
    # a third of what was read, everything else is the usual noise
    require (many-few < max (volume/3, 20*MB), f'memory grows with {what}', few=f'{few/MB:.0f} MB', many=f'{many/MB:.0f} MB', additional=f'{volume/MB:.0f} MB')

# ---------------------------------------------------------------------------

def ahead (rng, i, mon):
    """ Workers which do not get on, and a reader which must wait for them """
    with fw.TempDir () as d:
        os.mkfifo (os.path.join (d, 'p'))
        j = (1, 2, 4, 3)[i % 4]
        name = d + '/' + './'*rng.choice ((1500, 1900)) + 'p\n'
        line = name.encode ()
        lines = 1500
        r, w = os.pipe ()
        fcntl.fcntl (w, 1031, 4096)
        os.set_blocking (w, False)
        run = Run (d, 'lulua-write', ['-j', j, rng.choice (jobs.SHOWN), 'file', rng.choice (('text', 'aljazeera', 'xml'))], stdin=r)
        os.close (r)
        try:
            sent, last, start = 0, None, time.time ()
            data = line*lines
            while sent < len (data):
                try:
                    n = os.write (w, data[sent:sent+65536])
                    sent += n
                    last = time.time ()
                except BlockingIOError:
                    time.sleep (0.02)
                    require (run.p.poll () is None, 'importer ended early', err=open (run.err).read ()[-1000:])
                    # it began and does not take any more
                    if sent > 3*4096 and time.time ()-last > 3:
                        break
                    if time.time ()-start > 120:
                        raise fw.Inconclusive ('importer did not begin to read')
            taken = sent//len (line)
            mon.event ('blocked importer')
            mon.event ('items taken', taken)
            mon.distinct (j, taken)
            require (taken <= 60 + 40*j, 'items are read although all workers are busy', workers=j, taken=taken, offered=lines)
        finally:
            run.kill ()
            os.close (w)

class Counted (io.RawIOBase):
    def __init__ (self, data):
        self.data, self.pos = data, 0
    def read (self, n=-1):
        if n is None or n < 0:
            n = len (self.data)-self.pos
        x = self.data[self.pos:self.pos+n]
        self.pos += len (x)
        return x

def members (rng, i, mon):
    """ What has been read of an archive when each of its files is handed on """
    n = rng.randrange (20, 40)
    sizes = [rng.randrange (50000, 150000) for _ in range (n)]
    texts = [rng.randbytes (s//2).hex () for s in sizes]
    tar = corpus.tarOf ([(f'f{k}', t.encode ()) for k, t in enumerate (texts)])
    chain = (['tar', 'text'], ['brotli', 'tar', 'text'], ['brotli', 'tar'], ['tar'])[i % 4]
    data = brotli.compress (tar, quality=1, lgwin=16) if 'brotli' in chain else tar
    src = Counted (data)
    done = 0
    for k, x in enumerate (apply ([filterAvail[f] for f in chain], [src])):
        x = x if isinstance (x, str) else x.read ().decode ()
        same (x == texts[k], True, 'content')
        done += len (x) + 512
        share = done/len (tar)*len (data)
        # compressed data is not spread completely even
        require (src.pos <= share*1.1 + 600*1024, 'archive is read ahead of what is used', member=k, read=src.pos, expected=int (share), total=len (data), filters=chain)
        mon.event ('file handed on')
        mon.distinct (i, k)
    same (k, n-1, 'number of files')

def items (rng, i, mon):
    """ Many large items with short texts """
    with fw.TempDir () as d:
        j = rng.choice ((1, 2))
        pad = ' '*MB
        def feed (n):
            p = os.path.join (d, f'i{n}')
            with open (p, 'w') as fd:
                for k in range (n):
                    # never the same
                    fd.write (json.dumps (f'سلام {k}') + pad + '\n')
            with open (p, 'rb') as fd:
                r = Run (d, 'lulua-write', ['-j', j, 'ar-lulua', 'json'], stdin=fd).finish ()
            os.unlink (p)
            return r
        a, b = 4*j+2, 160
        growth (mon, 'number of items', feed (a), feed (b), (b-a)*MB/j)

def texts (rng, i, mon):
    """ Many texts, each of them typed """
    with fw.TempDir () as d:
        # many different words, so what is known about a text is large as well
        t = ''.join (rng.choices ('ابتثجحخدذرزسشصضطظعغفقكلمنهوي    ', k=20000))
        # never the same, but (almost) the same words
        text = lambda k: t[17*k:] + t[:17*k]
        f = ('tar', 'json', 'lines')[i % 3]
        def feed (n):
            p = os.path.join (d, f'i{n}')
            fs = [f]
            with open (p, 'w') as fd:
                if f == 'tar':
                    with open (os.path.join (d, 'x.tar'), 'wb') as tf:
                        tf.write (corpus.tarOf ([(f'f{k}', text (k).encode ()) for k in range (n)]))
                    fd.write (os.path.join (d, 'x.tar') + '\n')
                    fs = ['file', 'tar', 'text']
                for k in range (0 if f == 'tar' else n):
                    fd.write ((json.dumps (text (k)) if f == 'json' else text (k)) + '\n')
            with open (p, 'rb') as fd:
                return Run (d, 'lulua-write', ['-j', 1, 'ar-lulua', *fs], stdin=fd).finish ()
        a, b = 5, 120
        # every stroke is an object or two if it is kept
        growth (mon, 'number of texts', feed (a), feed (b), (b-a)*20000*30)

def documents (rng, i, mon):
    """ Many documents, some of which are trees, and files which must be closed """
    kind = ('opensubtitles', 'epub', 'un', 'html', 'text', 'archive')[i % 6]
    with fw.TempDir () as d:
        def doc (k):
            if kind in ('opensubtitles', 'un'):
                w = ''.join (f'<w id="{j}">s</w>' for j in range (700))
                if kind == 'un':
                    return f'<TEI.2><text><body><p><s>سلام {k}</s></p></body>{w}</text></TEI.2>'
                return f'<document><s id="1">سلام {k}</s>{w}</document>'
            if kind == 'html':
                return f'<html><head><meta charset="utf-8"></head><body><div id="DynamicContentContainer"><p>سلام {k}</p></div>' + '<p><b>x</b></p>'*250
            if kind == 'archive':
                return f'{k}' + ('سلام '*250000)[:MB]
            return f'سلام {k}'
        def book (k, p):
            with zipfile.ZipFile (p, 'w') as z:
                z.writestr ('mimetype', 'application/epub+zip')
                z.writestr ('META-INF/container.xml', '<?xml version="1.0"?><container version="1.0" xmlns="urn:oasis:names:tc:opendocument:xmlns:container"><rootfiles><rootfile full-path="c.opf" media-type="application/oebps-package+xml"/></rootfiles></container>')
                z.writestr ('c.opf', '<?xml version="1.0"?><package xmlns="http://www.idpf.org/2007/opf" unique-identifier="i" version="2.0"><metadata xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:title>x</dc:title><dc:language>ar</dc:language><dc:identifier id="i">x</dc:identifier></metadata><manifest><item id="p" href="p.png" media-type="image/png"/><item id="a" href="a.xhtml" media-type="application/xhtml+xml"/><item id="ncx" href="t.ncx" media-type="application/x-dtbncx+xml"/></manifest><spine toc="ncx"><itemref idref="a"/></spine></package>')
                z.writestr ('t.ncx', '<?xml version="1.0"?><ncx xmlns="http://www.daisy.org/z3986/2005/ncx/" version="2005-1"><head/><docTitle><text>x</text></docTitle><navMap/></ncx>')
                z.writestr ('a.xhtml', f'<html xmlns="http://www.w3.org/1999/xhtml"><head><title>x</title></head><body><p>سلام {k}</p></body></html>')
                z.writestr ('p.png', b'x'*250000)
        archive = kind not in ('epub', 'text')
        fs = dict (opensubtitles=['xml', 'opensubtitles'], un=['xml', 'tei2'], html=['aljazeera'], archive=['text'], text=['text'])
        def feed (n):
            lines = []
            if archive:
                p = os.path.join (d, f'{n}.tar')
                with open (p, 'wb') as fd:
                    fd.write (corpus.tarOf ([(f'f{k}', doc (k).encode ()) for k in range (n)]))
                lines.append (p)
                args = ['file', 'tar'] + fs[kind]
            else:
                for k in range (n):
                    p = os.path.join (d, f'{n}-{k}')
                    if kind == 'epub':
                        book (k, p)
                    else:
                        with open (p, 'w') as fd:
                            fd.write (doc (k))
                    lines.append (p)
                args = ['epub'] if kind == 'epub' else ['file', 'text']
            p = os.path.join (d, 'in')
            with open (p, 'w') as fd:
                fd.write ('\n'.join (lines) + '\n')
            with open (p, 'rb') as fd:
                r = Run (d, 'lulua-write', (['--benchmark'] if kind == 'archive' else []) + ['-j', 1, 'ar-lulua', *args], stdin=fd)
            m = r.finish ()
            for l in lines:
                os.unlink (l)
            if kind != 'archive':
                with open (r.out, 'rb') as fd:
                    same (pickle.load (fd)['words'].words['سلام'], n, 'number of documents')
            mon.event ('documents', n)
            mon.event (f'documents {kind}')
            mon.event ('files open at most', r.files)
            return m, r.files
        a, b, size = dict (opensubtitles=(30, 400, 300000), un=(30, 400, 300000), html=(10, 80, 600000), epub=(20, 250, 250000), text=(20, 500, 0), archive=(4, 80, MB))[kind]
        (few, filesFew), (many, filesMany) = feed (a), feed (b)
        growth (mon, 'number of documents', few, many, (b-a)*size)
        require (filesMany <= filesFew + 40, 'files are kept open', few=filesFew, many=filesMany, documents=b)

def dump (rng, i, mon):
    with fw.TempDir () as d:
        page = '<page><title>x</title><ns>0</ns><id>1</id><revision><id>2</id><contributor><username>y</username></contributor><comment>z</comment><text xml:space="preserve">{}</text><sha1>a</sha1></revision></page>\n'
        size = (400, 20000, 200000)[i % 3]
        t = ''.join (rng.choices ('ابتثجحخ ', k=50))
        t = (t*(size//len (t)+1))[:size]
        per = max (2*MB//size//2, 1)
        chunks = [bz2.compress (''.join (page.format (f'{j} {k} {t}') for k in range (per)).encode (), 1) for j in range (40)]
        head = bz2.compress (b'<mediawiki xmlns="http://www.mediawiki.org/xml/export-0.10/">\n<siteinfo><sitename>x</sitename></siteinfo>\n')
        foot = bz2.compress (b'</mediawiki>\n')
        def feed (n):
            with open (os.path.join (d, 'x'), 'wb') as fd:
                fd.write (head + b''.join (chunks[:n]) + foot)
            r = Run (d, 'lulua-extract-mediawiki', ['x'])
            m = r.finish ()
            with open (r.out, 'rb') as fd:
                same (sum (1 for l in fd), n*per, 'lines written')
            os.unlink (r.out)
            return m
        few, many = feed (2), feed (40)
        mon.event ('pages extracted', 42*per)
        growth (mon, 'number of pages', few, many, 38*2*MB)

def combine (rng, i, mon):
    with fw.TempDir () as d:
        st = jobs.collect ('ar-lulua', 'سلام عليكم اأ ')
        n = 20000
        letters = 'ابتثجحخدذرزسشصضطظعغفقكلمنهوي'
        for k in range (n):
            w, x = '', k + 1000
            while x:
                w, x = w + letters[x % 28], x//28
            st['words'].words[w] = k+1
        blob = pickle.dumps (st, pickle.HIGHEST_PROTOCOL)
        def feed (n):
            p = os.path.join (d, 'x')
            with open (p, 'wb') as fd:
                for _ in range (n):
                    fd.write (blob)
            with open (p, 'rb') as fd:
                return Run (d, 'lulua-analyze', ['combine'], stdin=fd).finish ()
        few, many = feed (2), feed (200)
        mon.event ('parts combined', 202)
        # read, but not turned into objects
        growth (mon, 'number of parts', few, many, 198*len (blob))

c = fw.Check ('C29', 'While the real commands process input of different size, the memory of all of their processes is sampled and compared, the importer is fed through a pipe while its workers are blocked, and the position in an archive is observed whenever one of its files is handed on.',
        assumptions=['memory is the peak resident set of the largest process, sampled while it runs', 'growth of less than a third of the additional input is noise'],
        minEvents={'blocked importer': 2, 'file handed on': 40, 'memory compared': 10, 'documents': 1000})
c.family ('ahead', ahead, 4, 12)
c.family ('members', members, 8, 60)
c.family ('items', items, 1, 6)
c.family ('texts', texts, 2, 12)
c.family ('documents', documents, 6, 24)
c.family ('dump', dump, 3, 12)
c.family ('combine', combine, 1, 4)
sys.exit (c.run ())
