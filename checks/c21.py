import sys, os, re, math, pickle, random, yaml, html5lib
from fractions import Fraction
from decimal import Decimal
from collections import Counter
sys.path.insert (0, '/verif')
from lib import fw, gen, model
from lib.fw import require, same
approx, fraction, numspace, arabnum, Direction, FingerType = fw.resolve ('lulua.report:approx', 'lulua.report:fraction', 'lulua.report:numspace', 'lulua.report:arabnum', 'lulua.layout:Direction', 'lulua.layout:FingerType')
import bokeh.resources

UNITS = {'en': ['', 'thousand', 'million', 'billion'], 'ar': ['', 'ألف', 'مليون', 'مليار']}
LAYOUTS = ['ar-lulua', 'ar-asmo663', 'ar-osx', 'ar-linux', 'ar-alramly', 'ar-idlebi', 'ar-malas', 'ar-khorshid', 'ar-osman', 'ar-qtaish', 'ar-ergoarabic', 'ar-phonetic']
ARAB = dict (zip ('0123456789,.', '٠١٢٣٤٥٦٧٨٩٬٫'))

def number (rng):
    r = rng.random ()
    if r < 0.3:
        n = rng.choice ((10**rng.randrange (0, 16), 1000**rng.randrange (0, 6))) * rng.choice ((1, 1, 1, 5, 95, 999, 9995))
        return max (0, n + rng.choice ((0, 1, -1, 50, -50, rng.randrange (-60, 61), -n//20000)))
    if r < 0.6:
        return int (10**rng.uniform (0, 15))
    if r < 0.7:
        # more digits than a float has
        return rng.randrange (10**rng.randrange (16, 26)) + rng.choice ((0, 0, 49999999, 50000000))
    if r < 0.85:
        return rng.randrange (0, 3000)
    return rng.choice ((rng.uniform (0, 2000), 10**rng.uniform (-3, 12), rng.randrange (10**6)/100, rng.randrange (10**8)/10))

def unitOf (n, lang, got):
    """ is the shown number right? """
    n = Fraction (n)
    v, u = got
    us = UNITS[lang]
    require (u in us, 'unknown unit', number=n, got=got)
    k = us.index (u)
    scale = 1000**k
    require (v == round (Decimal (v), 1), 'more than one decimal is shown', number=n, got=got)
    require (abs (Fraction (Decimal (v))*scale - n) <= Fraction (scale, 20), 'shown number is not the rounded one', number=float (n), got=got)
    if k < 3:
        require (Fraction (Decimal (v)) < 1000, 'larger unit is available', number=float (n), got=got)
    if k > 0:
        # would not fit one unit below
        require (n/(scale//1000) >= Fraction (19999, 20)-Fraction (1, 10**12), 'unit is too large', number=float (n), got=got)
    return k

def approximate (rng, i, mon):
    for _ in range (2000):
        n = number (rng)
        lang = rng.choice (('en', 'ar'))
        r = approx (n, lang) if rng.random () < 0.7 or lang == 'ar' else approx (n)
        require (len (r) == 2, 'number and unit expected')
        k = unitOf (n, lang, r)
        mon.event (f'unit {k}')
        mon.distinct (n)
    mon.sample ({'number': n, 'shown': str (r)})

def fractions (rng, i, mon):
    for _ in range (500):
        n = rng.choice ((rng.random (), rng.random ()*0.1, rng.randrange (0, 11)/rng.randrange (1, 25), rng.uniform (0, 30), rng.randrange (4), rng.random ()**4))
        if rng.random () < 0.2:
            # near the middle between two fractions
            a, b = sorted (rng.sample (sorted ({Fraction (p, q) for q in range (1, 11) for p in range (q+1)}), 2))
            n = float ((a+b)/2) + rng.choice ((0, 1e-9, -1e-9))
        p, q = map (int, fraction (n).split ('\u2044'))
        require (1 <= q <= 10 and math.gcd (p, q) == 1, 'not a reduced fraction with small denominator', number=n, got=(p, q))
        best = min (abs (Fraction (n)-Fraction (round (Fraction (n)*d), d)) for d in range (1, 11))
        require (abs (Fraction (n)-Fraction (p, q)) == best, 'not the closest fraction', number=n, got=(p, q))
        mon.event ('fraction')
        mon.distinct (n)

def digits (rng, i, mon):
    for _ in range (500):
        r = rng.random ()
        if r < 0.4:
            s = rng.choice (('{:7,d}', '{:,}', '{:10d}')).format (rng.randrange (10**rng.randrange (1, 13)))
        elif r < 0.6:
            s = '%5.1f' % number (rng)
        else:
            s = gen.text (rng, rng.randrange (0, 20), ['1', ' ', '2,345.6', '\u2007'])
        same (arabnum (s), ''.join (ARAB.get (c, c) for c in s), f'Arabic digits of {s!r}')
        same (numspace (s), ''.join ('\u2007' if c == ' ' else c for c in s), f'spaces of {s!r}')
        mon.event ('digits')

def allchars (rng, i, mon):
    for n in range (i*0x1100, (i+1)*0x1100):
        c = chr (n)
        same (arabnum (c), ARAB.get (c, c), f'Arabic digit of U+{n:04X}')
        same (numspace (c), '\u2007' if c == ' ' else c, f'space of U+{n:04X}')
    mon.event ('character', 0x1100)

# ---------------------------------------------------------------------------

H = '{http://www.w3.org/1999/xhtml}'
def text (e):
    return ''.join (e.itertext ()).strip ()

def parseNumber (s, lang):
    """ '12.3 million' → (value, unit) """
    s = s.replace ('\u2008', ' ').replace ('\u2007', ' ').strip ()
    if lang == 'ar':
        back = {v: k for k, v in ARAB.items ()}
        require (not any (c in '0123456789.,' for c in s), 'digits are not Arabic', text=s)
        s = ''.join (back.get (c, c) for c in s)
    n, _, u = s.partition (' ')
    return Decimal (n), u.strip ()

def counts (rng, n):
    return [rng.choice ((0, 0, 1, rng.randrange (100), rng.randrange (10**6), rng.randrange (10**9))) for _ in range (n)]

def page (rng, i, mon):
    # -- input
    corpora = []
    for k in range (rng.choice ((1, 2, 5, 8))):
        c = {'source': {'name': {'en': rng.choice (('Wiki', 'news', 'B', 'a b', 'Zeta')) + str (k), 'ar': rng.choice (('كتاب', 'أخبار')) + str (k)}, 'url': f'https://example.org/{k}'},
                'date': '2020-01-01', 'stats': {'words': int (number (rng)) % 10**19, 'characters': int (number (rng)) % 10**19}}
        if rng.random () < 0.2:
            c['stats'][rng.choice (('words', 'characters'))] = 0
            if rng.random () < 0.3:
                c['stats'] = {'words': 0, 'characters': 0}
            mon.event ('empty corpus')
        elif corpora and rng.random () < 0.2:
            # a coincidence, still two corpora
            c['stats'] = dict (rng.choice (corpora)['stats'])
            mon.event ('corpora of equal size')
        if rng.random () < 0.6:
            c['count'] = {'num': rng.choice ((0, 1, 999, 1000, rng.randrange (10**8))), 'kind': {'en': 'books' + 'xyzuvwab'[k], 'ar': 'كتب' + 'ابتثجحخد'[k]}}
        corpora.append (c)
    st = {}
    sparse = rng.random () < 0.3
    for n in LAYOUTS + ([] if rng.random () < 0.5 else ['other']):
        f = {(h, x): v for (h, x), v in zip (((h, x) for h in Direction for x in FingerType), counts (rng, 10))}
        if not sparse:
            f = {k: v+1 for k, v in f.items ()}
        if rng.random () < 0.2 and sparse:
            f = {(h, x): v for (h, x), v in f.items () if h.name == 'LEFT'}
            f[next (iter (f))] += 1
        f = {k: v for k, v in f.items () if v or rng.random () < 0.3}
        if not sum (f.values ()):
            f = {(next (iter (Direction)), next (iter (FingerType))): 3}
        hands = Counter ()
        for (h, x), v in f.items ():
            hands[h] += v
        total = sum (f.values ())
        st[n] = dict (layout=n, hands=dict (hands), fingers=f, buttonPresses=total,
                asymmetry=rng.uniform (-1, 1), hamzaImpact=rng.random ()*0.2, hamzaOnAlef=rng.random ())
    with fw.TempDir () as d:
        args = ['-c']
        docs = list (corpora)
        k = 0
        while docs:
            n = rng.randrange (1, 4)
            with open (os.path.join (d, f'c{k}'), 'w') as fd:
                for x in docs[:n]:
                    yaml.dump (x, fd)
                    fd.write ('---\n')
            docs = docs[n:]
            args.append (f'c{k}')
            k += 1
        args.append ('-l')
        names = list (st)
        rng.shuffle (names)
        for n in names:
            with open (os.path.join (d, n+'.pickle'), 'wb') as fd:
                pickle.dump (st[n], fd)
            args.append (n+'.pickle')
        out = fw.cliOk ('lulua-report', args, cwd=d).out.decode ()
    verify (mon, out, corpora, st)
    mon.distinct (repr (corpora), repr (st))

def verify (mon, out, corpora, st):
    doc = html5lib.parse (out)
    # -- corpora
    tables = list (doc.iter (H+'table'))
    found = 0
    for t in tables:
        head = [text (x) for x in t.iter (H+'th')]
        lang = 'en' if head[:1] == ['Source'] else 'ar' if head[:1] == ['مصدر'] else None
        if lang is None:
            continue
        found += 1
        words, chars = {'en': ('Words', 'Characters'), 'ar': ('كلام', 'حروف')}[lang]
        col = {'words': head.index (words), 'characters': head.index (chars)}
        rows = [[x for x in r if x.tag == H+'td'] for r in t.iter (H+'tr')]
        rows = [r for r in rows if r]
        same (len (rows), len (corpora)+1, f'number of rows of the {lang} table')
        byname = {text (r[0]): r for r in rows}
        for c in corpora:
            r = byname.get (c['source']['name'][lang])
            require (r is not None, 'corpus is missing', name=c['source']['name'])
            same ([a.get ('href') for a in r[0].iter (H+'a')], [c['source']['url']], 'link of corpus')
            cnt = text (r[1])
            if 'count' in c:
                v, u = parseNumber (cnt.replace (',', '').replace ('٬', ''), lang)
                same ((int (v), u), (c['count']['num'], c['count']['kind'][lang]), 'count of corpus')
            else:
                same (cnt, '', 'count of corpus')
            for k, x in col.items ():
                unitOf (c['stats'][k], lang, parseNumber (text (r[x]), lang))
                mon.event ('corpus figure')
        (r, ) = [r for n, r in byname.items () if n in ('Total', 'مجموع')]
        for k, x in col.items ():
            unitOf (sum (c['stats'][k] for c in corpora), lang, parseNumber (text (r[x]), lang))
            mon.event ('total')
    same (found, 2, 'corpus tables')
    # -- layouts: figures follow the picture of the layout
    seen = set ()
    parent = {c: p for p in doc.iter () for c in p}
    for e in doc.iter (H+'div'):
        if e.get ('class') != 'fingerhandstats':
            continue
        img = [x.get ('src') for x in parent[e].iter (H+'img')]
        require (len (img) == 1 and img[0].endswith ('-heat.svg'), 'cannot tell layout', img=img)
        n = img[0][:-9]
        require (n in st and n not in seen, 'unexpected layout', layout=n)
        seen.add (n)
        s = st[n]
        hands = [x for x in e if x.get ('class') in ('left', 'right')]
        same ([x.get ('class') for x in hands], ['left', 'right'], 'hands')
        for h in hands:
            hh = next (x for x in Direction if x.name.lower () == h.get ('class'))
            hv = s['hands'].get (hh, 0)
            def width (x):
                m = re.search (r'width:\s*([0-9.]+)%', x.get ('style'))
                return float (m.group (1))
            def near (a, b, tol, what, **kw):
                require (abs (a-b) <= tol+1e-9, what, layout=n, got=a, want=b, **kw)
            near (width (h), hv/s['buttonPresses']*100, 0.0005, 'width of hand')
            (p, ) = [text (x) for x in h if x.get ('class') == 'hand']
            near (float (p.rstrip ('%')), hv/s['buttonPresses']*100, 0.005, 'percentage of hand', hand=hh)
            (fs, ) = [x for x in h if x.get ('class') == 'fingers']
            order = [x.get ('class') for x in fs]
            want = ['little', 'ring', 'middle', 'index', 'thumb']
            same (order, want if hh.name == 'LEFT' else want[::-1], 'order of fingers')
            for x in fs:
                ff = next (y for y in FingerType if y.name.lower () == x.get ('class'))
                v = s['fingers'].get ((hh, ff), 0)
                near (float (text (x)), v/s['buttonPresses']*100, 0.005, 'percentage of finger', finger=(hh, ff))
                near (width (x), v/hv*100 if hv else 0, 0.0005, 'width of finger', finger=(hh, ff))
                mon.event ('finger' if v else 'unused finger')
        m = re.search (r'Asymmetry:\s*(-?[0-9.]+)', text (e))
        require (m and abs (float (m.group (1))-s['asymmetry']) <= 0.0005+1e-9, 'asymmetry', layout=n)
        mon.event ('layout')
    same (seen, set (LAYOUTS), 'layouts shown')
    t = ' '.join (text (doc).split ())
    m = re.search (r'variants account for ([0-9.]+)% of button combinations', t)
    require (m and abs (float (m.group (1)) - st['ar-osx']['hamzaImpact']*100) <= 0.05+1e-9, 'share of hamza', got=m and m.group (1))
    m = re.search (r'since (\d+)\u2044(\d+)', t)
    require (m, 'share of alef with hamza is missing')
    x = Fraction (st['ar-osx']['hamzaOnAlef'])
    best = min (abs (x-Fraction (round (x*d), d)) for d in range (1, 11))
    require (abs (Fraction (int (m.group (1)), int (m.group (2)))-x) == best, 'share of alef with hamza', got=m.group (0), want=float (x))
    mon.event ('page')

def pipeline (rng, i, mon):
    """ figures made by the analysis commands from typed text """
    from lib import hist
    allStats = fw.resolve ('lulua.stats:allStats')
    st, corpora = {}, []
    text = gen.text (rng, rng.randrange (50, 3000), list ('ابتثجحخدذرزسشصضطظعغفقكلمنهوي') + ['ا\u0654', ' ', '\n', 'ا'])
    text += 'اأ'
    with fw.TempDir () as d:
        for n in LAYOUTS:
            ref, lay = hist.load (gen.shipped ()[n])
            w = hist.Writer (lay)
            s = {c.name: c (w) for c in allStats}
            import io
            for m, e in w.type (io.StringIO (model.normalize (text))):
                for x in s.values ():
                    x.process (e)
            blob = pickle.dumps (s, pickle.HIGHEST_PROTOCOL)
            with open (os.path.join (d, n+'.pickle'), 'wb') as fd:
                fd.write (fw.cliOk ('lulua-analyze', ['-l', n, 'layoutstats'], blob, cwd=d).out)
            raw = model.statsDict (s)
            f, hands = Counter (), Counter ()
            byname = {(a.name, b.name): (a, b) for a in Direction for b in FingerType}
            for k, v in raw['buttons'].items ():
                x = byname[model.FINGERS[k]]
                f[x] += v
                hands[x[0]] += v
            total = sum (f.values ())
            with open (os.path.join (d, n+'.pickle'), 'rb') as fd:
                p = pickle.load (fd)
            st[n] = dict (layout=n, hands=hands, fingers=f, buttonPresses=total,
                    asymmetry=sum (v if h.name == 'LEFT' else -v for h, v in hands.items ())/total, hamzaImpact=p['hamzaImpact'], hamzaOnAlef=p['hamzaOnAlef'])
            if n == 'ar-lulua':
                c = {'source': {'name': {'en': 'one', 'ar': 'واحد'}, 'url': 'https://example.org/'}}
                with open (os.path.join (d, 'meta'), 'w') as fd:
                    yaml.dump (c, fd)
                with open (os.path.join (d, 'corpus'), 'wb') as fd:
                    fd.write (fw.cliOk ('lulua-analyze', ['-l', n, 'corpusstats', 'meta'], blob, cwd=d).out)
                c['stats'] = {'words': sum (raw['words'].values ()), 'characters': sum (raw['combinations'].values ())}
                corpora.append (c)
        out = fw.cliOk ('lulua-report', ['-c', 'corpus', '-l'] + [n+'.pickle' for n in LAYOUTS], cwd=d).out.decode ()
    verify (mon, out, corpora, st)
    mon.event ('pipeline')
    mon.distinct (text)

c = fw.Check ('C21', 'numbers around every unit boundary, fractions near midpoints, all characters, generated report pages parsed back, pages made from typed text by the analysis commands; non-trivial: distinct number or page input',
        minEvents={'unit 0': 1000, 'unit 1': 1000, 'unit 2': 1000, 'unit 3': 1000, 'fraction': 5000, 'digits': 5000, 'character': 0x110000, 'page': 40, 'layout': 480, 'unused finger': 20, 'pipeline': 4, 'empty corpus': 5},
        assumptions=['numbers are not negative and below 10**26, on pages below 10**20'])
c.family ('approximate', approximate, 24, 800)
c.family ('fractions', fractions, 24, 800)
c.family ('digits', digits, 24, 500)
c.family ('allchars', allchars, 256, 256)
c.family ('page', page, 48, 800)
c.family ('pipeline', pipeline, 8, 100)
if __name__ == '__main__':
    sys.exit (c.run ())
