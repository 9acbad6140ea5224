""" The documented build: ./gen.sh > build.ninja && ninja """
import sys, os, io, re, bz2, json, gzip, shutil, signal, subprocess, time, unicodedata, zipfile, html, yaml
from collections import Counter
sys.path.insert (0, '/verif')
from lib import fw, gen, model, corpus, docs, winpe
from lib.fw import require, same
fw.resolve ('lulua.text:write', 'lulua.stats:main', 'lulua.render:render', 'lulua.report:render')
from checks import c17, c18, c19, c20, c21
filterEpub = fw.resolve ('lulua.text:filterEpub')
import brotli

REPO = fw.REPO
SH = gen.shipped ()
FONT = '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2/'
LETTERS = list ('ابتثجحخدذرزسشصضطظعغفقكلمنهويةى') + ['أ', 'إ', 'آ', 'ؤ', 'ئ', 'ء', 'لا', 'ﻻ', 'ﻷ']
SEP = [' '] * 12 + ['، ', '. ', '؛ ', ' ؟ ', ', ', '; ', '?', ' 12 ', ' ٣٤ ', '%', ' abc ', '\u00a0', '-', ' (', ') ']

def words (rng, n):
    out = []
    for _ in range (n):
        w = ''.join (rng.choice (LETTERS) + rng.choice (('', '', '', '\u064e', '\u0651', '\u0652')) for _ in range (rng.randrange (1, 7)))
        out.append (w + rng.choice (SEP))
    return ''.join (out).strip () or 'ا'

def text (rng):
    return words (rng, rng.choice ((1, 3, 10, 40)))

ALL = sorted ({t for d in SH.values () for l in d['layout'] for t in l['layer'].values ()})

def wild (rng):
    """ anything that can be in a text file """
    n = rng.choice ((1, 10, 300))
    if rng.random () < 0.1:
        n = 4000
    t = gen.text (rng, n, ALL + LETTERS + [' ', '\n', '\r\n', '1', '?'])
    return ''.join (c for c in t if not 0xd800 <= ord (c) < 0xe000)

def tarBr (rng, path, files):
    os.makedirs (os.path.dirname (path), exist_ok=True)
    with open (path, 'wb') as fd:
        fd.write (brotli.compress (corpus.tarOf (files), quality=rng.choice ((1, 5))))

def page (rng, kind):
    """ (document, its text or None if there is none) """
    r = rng.random ()
    if kind in ('bbcarabic', 'aljazeera'):
        if r < 0.4:
            while True:
                src, data, h = docs.document (rng, kind)
                # need to declare their encoding
                if isinstance (data, bytes):
                    return data, h.expected ()
        t = text (rng)
        if kind == 'bbcarabic':
            s = f'<!DOCTYPE html><html><head><meta charset="utf-8"><title>سر</title></head><body><p>سر</p><div property="articleBody"><p>{html.escape (t)}</p></div><div>سر</div></body></html>'
        else:
            s = f'<html><head><meta charset="utf-8"></head><body><h1>سر</h1><div id="DynamicContentContainer"><p>{html.escape (t)}</p></div></body></html>'
        return s.encode ('utf-8'), t + '\n\n\n\n'
    if r < 0.1:
        # broken, to be skipped
        return (docs.tei (rng)[0].rpartition ('</')[0]).encode ('utf-8'), None
    if r < 0.5:
        s, w = (docs.tei if kind == 'un-v1.0-tei' else docs.subs) (rng)
        return s.encode ('utf-8'), w
    t, u = text (rng), text (rng)
    if kind == 'un-v1.0-tei':
        s, w = f'<TEI.2><teiHeader><title>سر</title></teiHeader><text><body><p id="1"><s id="1:1">{html.escape (t)}</s><s>{html.escape (u)}</s></p></body></text></TEI.2>', f'{t}\n{u}\n'
    else:
        s, w = f'<document id="1"><s id="1">\n  {html.escape (t)}\n</s><s id="2">{html.escape (u)}</s></document>', f'{t}\n{u}'
    return s.encode ('utf-8'), w

def archives (rng, d, kind, profile):
    """ several archives in several directories """
    texts = []
    size = {'small': ((1, ), (1, )), 'large': ((2, ), (25, )), 'wild': ((15, ), (1, 2)), 'normal': ((1, 2, 3, 12), (1, 2, 5, 20))}[profile]
    for a in range (rng.choice (size[0])):
        files = []
        for f in range (rng.choice (size[1])):
            s, w = page (rng, kind)
            files.append ((f'd/{a}-{f}.xml', s))
            if w is not None:
                texts.append (w)
        if not a and profile != 'small':
            # the same page may be there several times
            files.append (('d/x.xml', s))
            if w is not None:
                texts.append (w)
        tarBr (rng, os.path.join (d, *(['sub'] if a else []), f'{a}.tar.br'), files)
    return texts

def book (rng, path):
    """ white space between the elements of a book is up to the library """
    want = docs.epubFile (rng, path)
    got = list (filterEpub (path))
    same ([''.join (x.split ()) for x in got], [''.join (''.join (x).split ()) for x in want], 'chapters of a book')
    return got

def script (path, s):
    os.makedirs (os.path.dirname (path), exist_ok=True)
    with open (path, 'w') as fd:
        fd.write (s)
    os.chmod (path, 0o755)

def prepare (rng, d, profile):
    """ what is not part of the repository. Returns texts by corpus """
    for f in ('gen.sh', 'makezip.sh'):
        shutil.copy (os.path.join (REPO, f), d)
    shutil.copytree (os.path.join (REPO, 'lulua', 'data'), os.path.join (d, 'lulua', 'data'))
    shutil.copytree (os.path.join (REPO, 'corpus'), os.path.join (d, 'corpus'))
    c = os.path.join (d, 'corpus')
    texts = {}
    for k in ('bbcarabic', 'aljazeera', 'un-v1.0-tei', 'opensubtitles-2018'):
        texts[k] = archives (rng, os.path.join (c, k), k, profile)
    # one long text, many words over and over again
    t = '\n'.join (text (rng) for _ in range ({'small': 1, 'large': 60}.get (profile, rng.choice ((1, 5, 60))))) + '\n'
    t += 'ا' # figures are about alef
    if profile == 'large':
        t *= 10
    elif profile == 'wild':
        t += wild (rng)
    with open (os.path.join (c, 'tanzil-quaran', 'plain.txt'), 'wb') as fd:
        fd.write (t.encode ('utf-8'))
    texts['tanzil-quaran'] = [t]
    texts['hindawi'] = []
    for k in range ({'small': 1, 'large': 8}.get (profile, rng.choice ((1, 3, 10)))):
        p = os.path.join (c, 'hindawi', f'{k}.epub')
        texts['hindawi'] += book (rng, p)
    # programs of others
    b = os.path.join (d, 'bin')
    for k, v in fw.CLI.items ():
        m, a = v.split (':')
        script (os.path.join (b, k), f'#!/opt/venv/bin/python\nimport sys, warnings\nwarnings.simplefilter ("ignore")\nfrom {m} import {a}\nsys.exit ({a} ())\n')
    script (os.path.join (b, 'rsvg-convert'), '#!/bin/sh\n[ "$1 $2" = "-f pdf" ] && exec cat "$3"\n')
    texts['arwiki'] = [text (rng) + rng.choice (('', '\n', '\n\n"x"')) for _ in range ({'small': 1, 'large': 100}.get (profile, rng.choice ((1, 5, 60))))]
    if profile == 'small':
        # nothing one would call a word
        texts['arwiki'] = [rng.choice (('1 2 3', '', '?'))]
    elif profile == 'wild':
        texts['arwiki'] += [wild (rng) for _ in range (12)]
    p = os.path.join (c, 'arwiki', 'arwiki-20190701-pages-articles.xml.bz2')
    with open (p, 'w') as fd:
        fd.write (''.join (json.dumps ({'id': '1', 'title': 'سر', 'text': t}) + '\n' for t in texts['arwiki']))
    script (os.path.join (d, '3rdparty', 'wikiextractor', 'WikiExtractor.py'), '#!/bin/sh\n[ "$1 $2 $3 $4 $5" = "-ns 0 --json -o -" ] || exit 1\nexec cat "$6"\n')
    names = [words (rng, 1) for _ in range ({'small': 1, 'large': 400}.get (profile, rng.choice ((1, 5, 60))))]
    p = os.path.join (c, 'osm', 'planet-191104.osm.pbf')
    with open (p, 'w', encoding='utf-8') as fd:
        fd.write (''.join (n + '\n' for n in names + names[:3]))
    texts['osm'] = [n + '\n' for n in set (names)]
    o = os.path.join (d, '3rdparty', 'osmctools')
    script (os.path.join (o, 'configure'), '#!/bin/sh\nmkdir -p src\n')
    script (os.path.join (o, 'Makefile'), 'all:\n\tprintf \'#!/bin/sh\\nexec cat "$$2"\\n\' > src/osmconvert\n\tchmod +x src/osmconvert\n')
    script (os.path.join (b, 'autoreconf'), '#!/bin/sh\n')
    os.makedirs (os.path.join (d, FONT))
    for x in ('Regular', 'Thin'):
        with open (os.path.join (d, FONT, f'IBMPlexSansArabic-{x}.woff2'), 'wb') as fd:
            fd.write (rng.randbytes (100))
    return texts

def ninja (d, args=()):
    env = dict (os.environ, PATH=os.path.join (d, 'bin') + ':' + os.environ['PATH'], PYTHONPATH=REPO, PYTHONWARNINGS='ignore', LC_ALL='C.UTF-8')
    # byte code ends up in the scratch directory
    env.pop ('PYTHONDONTWRITEBYTECODE', None)
    p = subprocess.Popen (['ninja', *args], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate (timeout=600)
    except subprocess.TimeoutExpired:
        raise fw.Inconclusive ('build takes too long')
    finally:
        try:
            os.killpg (p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    return p.returncode, out.decode ('utf-8', 'replace')

def rd (*p):
    with open (os.path.join (*p), 'rb') as fd:
        return fd.read ()

def add (a, b):
    for f in b:
        x = a.setdefault (f, {})
        for k, v in b[f].items ():
            x[k] = x.get (k, 0) + v

def build (rng, i, mon):
    with fw.TempDir () as d:
        profile = ('wild', 'large', 'normal', 'small')[i % 4]
        texts = prepare (rng, d, profile)
        env = dict (os.environ, LC_ALL='C.UTF-8')
        r = subprocess.run (['bash', 'gen.sh'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        require (r.returncode == 0, 'build description cannot be created', stderr=r.stderr.decode ()[-1000:])
        n = r.stdout.decode ()
        # not one after another, it is about the result
        n = re.sub (r'(pool write\n\s*depth = )1\b', r'\g<1>4', n)
        with open (os.path.join (d, 'build.ninja'), 'w') as fd:
            fd.write (n)
        rc, out = ninja (d)
        k = out.find ('FAILED')
        require (rc == 0, 'build fails', output=out[k:k+1500] if k >= 0 else out[-1500:])
        mon.event ('build')
        mon.event (f'{profile} build')
        check (rng, mon, d, texts)
        # nothing but the page is made again
        if i % 2 == 0:
            before = {}
            for w, _, fs in os.walk (os.path.join (d, '_build', '_stats')):
                for f in fs:
                    before[f'{w}/{f}'] = os.stat (f'{w}/{f}').st_mtime_ns
            rc, out = ninja (d)
            require (rc == 0, 'second build fails', output=out[-1500:])
            same ({p: os.stat (p).st_mtime_ns for p in before}, before, 'statistics are made again')
            check (rng, mon, d, texts, False)
            mon.event ('second build')
        mon.distinct (repr (texts))

def check (rng, mon, d, texts, full=True):
    B, R = os.path.join (d, '_build'), os.path.join (d, '_build', 'report')
    layouts = c21.LAYOUTS
    kd = model.IBM
    btn = {b['name']: b for r in kd['rows'] for s in r for b in s}
    byname = {(a.name, b.name): (a, b) for a in c21.Direction for b in c21.FingerType}
    st, curves = {}, []
    meta = {}
    for l in layouts:
        ref = model.RefLayout (SH[l])
        total = {}
        for c, ts in texts.items ():
            want = corpus.expected (ref, ts).asdict ()
            got = corpus.total (corpus.outputs (rd (B, '_stats', l, c + '.pickle')))
            for f in want:
                same (got[f], want[f], f'{f} of corpus {c} with {l}')
            add (total, want)
            mon.event ('corpus statistics')
            if l == 'ar-lulua':
                m = yaml.safe_load (rd (d, 'corpus', c, 'metadata.yaml'))
                meta[c] = dict (m, stats={'words': sum (want['words'].values ()), 'characters': sum (want['combinations'].values ())})
        got = corpus.total (corpus.outputs (rd (B, '_stats', l, 'all.pickle')))
        for f in total:
            same (got[f], total[f], f'{f} of all corpora with {l}')
        hands, fingers = Counter (), Counter ()
        for k, v in total['buttons'].items ():
            x = byname[model.FINGERS[k]]
            hands[x[0]] += v
            fingers[x] += v
        n = sum (total['buttons'].values ())
        A, HA, HB = 'ا', '\u0654', '\u0655'
        sums = {t: sum (total['combinations'].get (c, 0) for c in ref.texts.get (t, ())) for t in (A, *c20.HAMZA)}
        on = sums[A+HA] + sums[A+HB]
        st[l] = dict (layout=l, hands=hands, fingers=fingers, buttonPresses=n, asymmetry=sum (v if h.name == 'LEFT' else -v for h, v in hands.items ())/n,
                hamzaImpact=sum (sums[x] for x in c20.HAMZA)/sum (total['combinations'].values ()), hamzaOnAlef=on/(on+sums[A]))
        # -- pictures
        if full:
            c19.picture (mon, rd (R, f'{l}.svg'), SH[l], kd, None)
            # the printable one went through rsvg-convert's replacement
            c19.picture (mon, rd (R, f'{l}.pdf'), SH[l], kd, None)
        c19.picture (mon, rd (R, f'{l}-heat.svg'), SH[l], kd, total['buttons'])
        if l == 'ar-lulua':
            # -- word list, letters
            z = rd (R, 'lulua.combined.gz')
            c20.wordlist (mon, gzip.decompress (z), total['words'])
            c20.letterPlot (mon, rd (R, 'letterfreq.json'), c20.letterCounts (ref, total))
        import pickle
        f = pickle.loads (rd (B, '_temp', f'{l}-triadeffort.pickle'))
        x, y = list (map (float, f['x'])), list (map (float, f['y']))
        c20.verify (mon, c20.binned (ref, total), x, y)
        curves.append ((SH[l]['name'], x, y))
        mon.event ('layout statistics')
    c20.effortPlot (mon, rd (R, 'triadeffort.json'), curves)
    # -- page
    page = rd (R, 'index.html').decode ('utf-8')
    c21.verify (mon, page, [meta[c] for c in sorted (meta)], st)
    import html5lib
    doc = html5lib.parse (page)
    ids = {e.get ('id') for e in doc.iter () if isinstance (e.tag, str)}
    for e in doc.iter ():
        for a in ('src', 'href'):
            x = e.get (a) if isinstance (e.tag, str) else None
            if x is None or re.match (r'(https?:|mailto:|//|data:|javascript:)', x):
                continue
            if x.startswith ('#'):
                require (x[1:] in ids, 'link to a missing part of the page', link=x)
            else:
                require (os.path.isfile (os.path.join (R, x.partition ('#')[0])), 'link to a missing file', link=x)
            mon.event ('link')
    if not full:
        return
    # -- downloads
    c17.readXmodmap (mon, rd (R, 'ar-lulua.xmodmap').decode (), SH['ar-lulua'], btn)
    c17.readKlavaro (mon, rd (R, 'lulua_ar.kbd').decode (), SH['ar-lulua'])
    for f in ('style.css', 'lulua-logo.svg'):
        same (rd (R, f), rd (REPO, 'lulua', 'data', 'report', f), f'contents of {f}')
    for x in ('Regular', 'Thin'):
        same (rd (R, 'fonts', f'IBMPlexSansArabic-{x}.woff2'), rd (d, FONT, f'IBMPlexSansArabic-{x}.woff2'), 'font')
    for m in re.findall (r'url\(["\']?([^)"\']+)', rd (R, 'style.css').decode ()):
        if not re.match (r'(https?:|data:|//)', m):
            require (os.path.isfile (os.path.join (R, m)), 'style refers to a missing file', file=m)
    with zipfile.ZipFile (os.path.join (R, 'ar-lulua-w64.zip')) as z:
        same (z.testzip (), None, 'archive of the Windows driver')
        names = {n.partition ('/')[2]: n for n in z.namelist () if not n.endswith ('/')}
        same (set (names), {'System32/kbdarlulua.dll', 'SysWOW64/kbdarlulua.dll', 'README.txt', 'lulua.reg', 'install.bat'}, 'files of the Windows driver')
        for f in ('README.txt', 'lulua.reg', 'install.bat'):
            same (z.read (names[f]), rd (REPO, 'lulua', 'data', 'winkbd', f), f'contents of {f}')
        # what is installed and registered is in the archive
        reg = dict (re.findall (r'^"([^"]+)"="([^"]*)"', z.read (names['lulua.reg']).decode ('utf-16'), re.M))
        low = {n.lower () for n in names}
        for f in ('system32', 'syswow64'):
            require (f"{f}/{reg['Layout File'].lower ()}" in low, 'registered driver is not in the archive', file=reg['Layout File'])
        copied = [x.lower ().replace ('\\', '/').lstrip ('/') for x in re.findall (r'^copy %~dp0(\S+)', z.read (names['install.bat']).decode (), re.M)]
        same (sorted (copied), sorted (n for n in low if n.endswith ('.dll')), 'installed files')
        require ('lulua.reg' in z.read (names['install.bat']).decode (), 'driver is not registered')
        for f, fmt in (('System32', 'pei-x86-64'), ('SysWOW64', 'pei-i386')):
            p = os.path.join (d, f'{f}.dll')
            with open (p, 'wb') as fd:
                fd.write (z.read (names[f'{f}/kbdarlulua.dll']))
            o = subprocess.run (['x86_64-w64-mingw32-objdump', '-p', p], stdout=subprocess.PIPE, env=dict (os.environ, LC_ALL='C')).stdout.decode ()
            require (f'file format {fmt}' in o, 'wrong architecture', file=f, got=o[:200])
            require (re.search (r'\[\s*0\].*KbdLayerDescriptor', o), 'driver does not export its tables', file=f)
            img = winpe.Image (p)
            same ((img.machine, img.ptr), {'System32': (0x8664, 8), 'SysWOW64': (0x14c, 4)}[f], 'architecture')
            same (img.subsystem, 1, 'native subsystem')
            same (img.entry, 0, 'entry point')
            walked = winpe.dump (p, img)
            if walked:
                c18.verify (mon, walked, SH['ar-lulua'])
                mon.event ('driver walked')
            mon.event ('driver')
    mon.event ('site')

c = fw.Check ('C25', 'generated corpora in all documented formats, the complete documented build run with the real programs, every published file read back; non-trivial: distinct corpora',
        minEvents={'build': 1, 'site': 1, 'corpus statistics': 90, 'layout statistics': 12, 'picture': 30, 'link': 15, 'driver': 2},
        assumptions=['WikiExtractor, osmconvert, rsvg-convert and the fonts are not available, stand-ins with the same interface are used', 'several instances of lulua-write run at the same time'])
c.family ('build', build, 4, 24, cpu=600)
if __name__ == '__main__':
    sys.exit (c.run ())
