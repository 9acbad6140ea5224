import sys, os, io, json, html, bz2, zipfile
sys.path.insert (0, '/verif')
from lib import fw, gen, corpus, model
from lib.fw import require, same
filterAvail, apply = fw.resolve ('lulua.text:filterAvail', 'lulua.text:apply')
fw.resolve ('lulua.text:extractMediawiki')
from lib.docs import *

def htmlPages (rng, i, mon):
    for _ in range (4):
        site = rng.choice (('aljazeera', 'bbcarabic'))
        src, data, h = document (rng, site)
        want = h.expected ()
        if isinstance (data, str):
            res = list (filterAvail[site] (data))
        elif rng.random () < 0.5:
            res = list (filterAvail[site] (io.BytesIO (data)))
        else:
            with fw.TempDir () as d:
                p = os.path.join (d, 'page.html')
                with open (p, 'wb') as fd:
                    fd.write (data)
                res = list (apply ([filterAvail['file'], filterAvail[site]], [p + '\n']))
        same (len (res), 1, 'one text per page')
        if res[0] != want:
            k = next ((k for k, (a, b) in enumerate (zip (res[0], want)) if a != b), min (len (res[0]), len (want)))
            require (False, 'extracted text differs', at=k, got=res[0][max (0, k-60):k+60], want=want[max (0, k-60):k+60], page=src[:3000])
        mon.event ('page')
        mon.event ('text characters', len (want))
        mon.event ('page with text', bool (want.strip ()))
        mon.distinct (src)
    mon.sample (dict (site=site, page=src[:200]))

def xmlDocs (rng, i, mon):
    """ several documents, some of them malformed """
    kind = ('tei2', 'opensubtitles')[i % 2]
    with fw.TempDir () as d:
        paths, want = [], []
        for k in range (rng.randrange (1, 8)):
            src, w = (tei if kind == 'tei2' else subs) (rng)
            p = os.path.join (d, f'{k}.xml')
            data = src.encode ('utf-8')
            r = rng.random ()
            if r < 0.3:
                bad = rng.randrange (7)
                data = [data[:rng.randrange (len (data))] if len (data) else b'<', data.replace (b'</', b'<', 1), b'', data + b'<x>', b'\xff\xfe' + data,
                        # unknown or unsupported encoding
                        b'<?xml version="1.0" encoding="none-1"?><text/>', b'<?xml version="1.0" encoding="utf-32"?><text/>'][bad]
                import xml.parsers.expat
                try:
                    xml.parsers.expat.ParserCreate ().Parse (data, True)
                    continue
                except (xml.parsers.expat.ExpatError, LookupError, ValueError):
                    pass
                mon.event ('malformed document')
            else:
                want.append (w)
                mon.event ('document')
                mon.event ('sentences', w.count ('\n'))
            with open (p, 'wb') as fd:
                fd.write (data)
            paths.append (p)
        import logging
        logging.disable (logging.CRITICAL)
        if rng.random () < 0.5:
            got = list (apply ([filterAvail['file'], filterAvail['xml'], filterAvail[kind]], [p + '\n' for p in paths]))
        else:
            got = []
            for p in paths:
                with open (p, 'rb') as fd:
                    got += list (apply ([filterAvail['xml'], filterAvail[kind]], [fd]))
        same (len (got), len (want), 'number of documents', files=len (paths))
        for g, w in zip (got, want):
            same (g, w, f'{kind} text differs')
        mon.distinct (kind, repr (want)[:3000])

def epub (rng, i, mon):
    import warnings
    warnings.simplefilter ('ignore')
    with fw.TempDir () as d:
        p = os.path.join (d, 'book.epub')
        want = epubFile (rng, p)
        got = list (filterAvail['epub'] (p + rng.choice (('', '\n'))))
        same (len (got), len (want), 'number of chapters')
        for g, t in zip (got, want):
            same (''.join (g.split ()), ''.join (''.join (t).split ()), 'chapter text differs')
            pos = 0
            for x in t:
                k = g.find (x, pos)
                require (k >= 0, 'paragraph is missing or not followed by a blank line', paragraph=x, got=g)
                pos = k + len (x)
        mon.event ('chapter', len (want))
        mon.distinct (repr (want))

def plain (rng, i, mon):
    for _ in range (20):
        t = gen.text (rng, gen.sizes (rng, 5000))
        t = ''.join (c for c in t if not 0xd800 <= ord (c) < 0xe000)
        same (list (filterAvail['json'] (json.dumps (t, ensure_ascii=rng.random () < 0.5) + rng.choice (('', '\n')))), [t], 'json')
        same (list (filterAvail['lines'] (t + '\n')), [t + '\n'], 'lines')
        same (list (filterAvail['text'] (io.BytesIO (t.encode ('utf-8')))), [t], 'text')
        mon.event ('plain', 3)
    with fw.TempDir () as d:
        p = os.path.join (d, ' ف x')
        with open (p, 'wb') as fd:
            fd.write (t.encode ('utf-8'))
        same (list (apply ([filterAvail['file'], filterAvail['text']], [p + '\n', p])), [t, t], 'file')
        # order of items is kept by chains
        items = [json.dumps (gen.text (rng, 5)) for _ in range (30)]
        same (list (apply ([filterAvail['json'], filterAvail['lines']], items)), [json.loads (x) for x in items], 'chain')

def mediawiki (rng, i, mon):
    src = ['<mediawiki xmlns="http://www.mediawiki.org/xml/export-0.10/" version="0.10" xml:lang="ar"><siteinfo><sitename>سر</sitename></siteinfo>']
    want = []
    for k in range (rng.choice ((0, 1, 5, 40))):
        src.append (f'<page><title>سر{k}</title><ns>0</ns><id>{k}</id>')
        if rng.random () < 0.05:
            # deeply nested garbage
            src.append ('<x><text2>سر</text2></x>')
        for _ in range (rng.choice ((1, 1, 1, 2, 0))):
            if rng.random () < 0.1:
                a, b = rng.choice ((('', ''), (' ', ' '), ('\n', '\n')))
            else:
                # texts may be larger than what is read at once
                ps = [xmlText (rng) for _ in range (rng.choice ((1, 3, 20)) if rng.random () < 0.95 else rng.choice ((300, 3000)))]
                a, b = '\n\n'.join (x[0] for x in ps), '\n\n'.join (x[1] for x in ps)
                if rng.random () < 0.25:
                    x = rng.choice (('#REDIRECT [[ب]]', '#redirect [[ب]]', '#تحويل [[ب]]', '#تحويل', '{{صفحة توضيح}}', '[[ملف:x.jpg]]', '----', '==ب==', ':', '*', '#', ' ', '\n', '__NOTOC__', '//', '%', '\ufeff', '{{delete}}', 'null', '1', '{}', '[]', '""'))
                    a, b = x + a, x + b
                    mon.event ('special wiki text')
                    if rng.random () < 0.3:
                        a, b = x, x
                for x, y in (('"', '"'), ('\\', '\\'), ("''ب''", "''ب''"), ('{{x|\u2028}}', '{{x|\u2028}}'), ('\t', '\t')):
                    if rng.random () < 0.3:
                        a, b = a + x, b + y
            src.append (f'<revision><id>1</id><comment>سر</comment><text xml:space="preserve" bytes="{len (b)}">{a}</text><sha1>x</sha1></revision>')
            mon.event ('large wiki text', len (b) > 20000)
            want.append (b)
        src.append ('</page>\n')
    src.append ('</mediawiki>')
    data = ''.join (src).encode ('utf-8')
    with fw.TempDir () as d:
        p = os.path.join (d, 'dump.bz2')
        with open (p, 'wb') as fd:
            # dumps consist of many bzip2 streams
            pos = 0
            while pos < len (data):
                n = rng.choice ((len (data), 1000, 5000))
                fd.write (bz2.compress (data[pos:pos+n]))
                pos += n
        out = fw.cliOk ('lulua-extract-mediawiki', [p]).out.decode ('utf-8')
    require (out == '' or out.endswith ('\n'), 'last line not terminated')
    lines = out.split ('\n')[:-1]
    same (len (lines), len (want), 'one line per text')
    for l, w in zip (lines, want):
        same (json.loads (l), w, 'page text differs')
        # and what the importer would see
        same (list (filterAvail['json'] (l + '\n')), [w], 'page text differs for the importer')
    mon.event ('wiki text', len (want))
    mon.distinct (data[:5000])

PANDOC = '''#!/usr/bin/python3
# stands in for pandoc: reads everything, then converts or rejects it
import sys, argparse
p = argparse.ArgumentParser ()
p.add_argument ('-f', '--from', '-r', '--read', dest='f')
p.add_argument ('-t', '--to', '-w', '--write', dest='t')
a, rest = p.parse_known_args ()
if a.f != 'mediawiki' or not a.t.startswith ('markdown') or [x for x in rest if not x.startswith ('-')]:
    sys.exit (6)
rng = lambda t: (9, 15, 11)[len (t) % 3]
t = sys.stdin.buffer.read ().decode ('utf-8')
if 'REJECT' in t:
    sys.stdout.buffer.write (t[:100].encode ('utf-8'))
    sys.stdout.buffer.flush ()
    if 'REJECTK' in t:
        import os, signal
        os.kill (os.getpid (), rng (t))
    sys.exit (64 if 'X' in t else 1)
sys.stdout.buffer.write (('M:' + t[::-1] + ':').encode ('utf-8'))
'''

def markdown (rng, i, mon):
    with fw.TempDir () as d:
        p = os.path.join (d, 'pandoc')
        with open (p, 'w') as fd:
            fd.write (PANDOC)
        os.chmod (p, 0o755)
        path = os.environ['PATH']
        os.environ['PATH'] = d + ':' + path
        try:
            items, want = [], []
            for k in range (10):
                t = gen.text (rng, gen.sizes (rng, 3000))
                t = ''.join (c for c in t if not 0xd800 <= ord (c) < 0xe000)
                if k == 9:
                    # more than fits into a pipe
                    t = 'نص' * 50000
                if rng.random () < 0.3:
                    t += rng.choice (('REJECT', 'REJECTX', 'REJECTK'))
                    mon.event ('rejected wiki text')
                else:
                    want.append ('M:' + t[::-1] + ':')
                items.append (json.dumps (t) + '\n')
            fds = len (os.listdir ('/proc/self/fd'))
            got = list (apply ([filterAvail['json'], filterAvail['mediawikimarkdown']], items))
            same (got, want, 'converted texts differ')
            mon.event ('converted wiki text', len (want))
            import gc
            gc.collect ()
            require (len (os.listdir ('/proc/self/fd')) <= fds, 'files are left open', before=fds)
            if i % 4 == 0:
                lay = gen.shipped ()['ar-lulua']
                r = fw.cliOk ('lulua-write', ['-j', 2, 'ar-lulua', 'json', 'mediawikimarkdown'], ''.join (items).encode ())
                e = corpus.expected (model.RefLayout (lay), want).asdict ()
                g = corpus.total (corpus.outputs (r.out))
                for f in e:
                    same (g[f], e[f], f'{f} of converted texts')
                mon.event ('import of wiki texts')
        finally:
            os.environ['PATH'] = path
        mon.distinct (*items)

c = fw.Check ('C11', 'documents generated together with their text (HTML parse tree known by construction); non-trivial: distinct document',
        minEvents={'page': 800, 'page with text': 400, 'document': 200, 'malformed document': 60, 'sentences': 1000, 'chapter': 50, 'wiki text': 50, 'large wiki text': 1, 'plain': 500, 'converted wiki text': 50, 'rejected wiki text': 10, 'special wiki text': 10},
        assumptions=['generated HTML is well-formed: error recovery of the parser is not in scope', 'no elements with text inside of sentences', 'pandoc is not installed, a program which reads everything before writing stands in for it'])
c.family ('html', htmlPages, 1500, 20000)
c.family ('xml', xmlDocs, 200, 4000)
c.family ('epub', epub, 40, 600)
c.family ('plain', plain, 24, 400)
c.family ('mediawiki', mediawiki, 24, 400)
c.family ('markdown', markdown, 16, 200)
if __name__ == '__main__':
    sys.exit (c.run ())
