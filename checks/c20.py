import sys, os, re, copy, json, math, gzip, base64, struct, pickle, unicodedata, yaml
from collections import Counter
from fractions import Fraction
sys.path.insert (0, '/verif')
from lib import fw, gen, model, hist, effort
from lib.fw import require, same
allStats, ButtonCombination = fw.resolve ('lulua.stats:allStats', 'lulua.layout:ButtonCombination')
# expensive to import, children inherit it
import bokeh.plotting, bokeh.embed, bokeh.layouts, bokeh.palettes, numpy

BASE = effort.BASEKEYS['mod01']
ALEF, YAH, WAW, HA, HB = 'ا', '\u064a', '\u0648', '\u0654', '\u0655'
HAMZA = [ALEF+HA, ALEF+HB, YAH+HA, WAW+HA]

def close (a, b):
    return effort.close (a, b, 1e-9, 1e-12)

def layout (rng, i):
    d = gen.anyLayout (rng, i)
    if rng.random () < 0.5:
        # several keys for the same text, letters with hamza
        for l in d['layout']:
            for k in list (l['layer']):
                if k in model.LETTERKEYS and rng.random () < 0.15:
                    l['layer'][k] = rng.choice (HAMZA + [ALEF, YAH, WAW, 'لا', 'ب'])
    if rng.random () < 0.2:
        # (almost) all keys are different letters
        new = rng.sample ([chr (x) for a, b in ((0x621, 0x63a), (0x641, 0x64a), (0x671, 0x6d3), (0x5d0, 0x5ea), (0x4e00, 0x4e80)) for x in range (a, b+1) if unicodedata.normalize ('NFD', chr (x)) == chr (x)], 200)
        for l in d['layout']:
            for k in model.LETTERKEYS:
                if new and k not in {x for y in d['layout'] for m in y['modifier'] for x in m} and rng.random () < 0.9:
                    l['layer'][k] = new.pop ()
    d.pop ('_', None)
    return d

def count (rng, top):
    return rng.choice ((1, 1, 2, 3, rng.randrange (1, 20), rng.randrange (1, top+1), top))

def stats (rng, d, n=None):
    """ Statistics of a history plus arbitrary counts """
    ref, lay = hist.load (d)
    w = hist.Writer (lay)
    st = {c.name: c (w) for c in allStats}
    for e in hist.real (rng, hist.synthetic (rng, ref, n if n is not None else gen.sizes (rng, 2000))):
        for s in st.values ():
            s.process (e)
    top = rng.choice ((3, 100, 10**5, 10**9))
    combs = sorted (ref.comb, key=lambda c: (sorted (c[0]), sorted (c[1])))
    if rng.random () < 0.8:
        for c in rng.sample (combs, rng.randrange (1, len (combs)+1)):
            st['simple'].combinations[hist.realComb (c)] += count (rng, top)
        for k in rng.sample (model.KEYS, rng.randrange (1, len (model.KEYS)+1)):
            st['simple'].buttons[hist.KB[k]] += count (rng, top)
        ok = [c for c in combs if c[0] <= set (BASE) and c[1] <= set (BASE)]
        if ok:
            few = rng.sample (ok, min (len (ok), rng.choice ((2, 5, 20, 200))))
            for _ in range (rng.choice ((0, 5, 50, 400))):
                st['triads'].triads[tuple (hist.realComb (rng.choice (few)) for _ in range (3))] += count (rng, top)
        for _ in range (rng.choice ((0, 5, 100))):
            t = ''.join (rng.choice (gen.ARABIC) for _ in range (rng.randrange (1, 6)))
            st['words'].words[t] += count (rng, top)
        for _ in range (rng.randrange (0, 6)):
            st['simple'].unknown[gen.char (rng)[:1]] += count (rng, top)
    for t in list (st['triads'].triads):
        if not effort.defined ('mod01', tuple (map (model.name, t))):
            del st['triads'].triads[t]
    return ref, lay, st, model.statsDict (st)

def write (d, data):
    with open (os.path.join (d, 'in.yaml'), 'w') as fd:
        yaml.dump (data, fd, sort_keys=False)

def analyze (d, args, data, lay='in.yaml'):
    return fw.cliOk ('lulua-analyze', ['-l', lay] + args, data if isinstance (data, bytes) else pickle.dumps (data, pickle.HIGHEST_PROTOCOL), cwd=d).out

def simple (rng, i, mon):
    """ heat map, layout figures, corpus totals, word list """
    data = layout (rng, i)
    ref, lay, st, raw = stats (rng, data)
    if not raw['buttons']:
        return
    with fw.TempDir () as d:
        write (d, data)
        # -- heat map
        h = yaml.safe_load (analyze (d, ['keyheatmap'], st))
        same (h['total'], sum (raw['buttons'].values ()), 'total of heat map')
        same ({k: v for k, v in h['buttons'].items () if v}, raw['buttons'], 'heat map')
        mon.event ('heat map')

        # -- layout figures
        sums = {t: sum (raw['combinations'].get (c, 0) for c in ref.texts.get (t, ())) for t in [ALEF]+HAMZA}
        onalef = sums[ALEF+HA]+sums[ALEF+HB]
        total = sum (raw['combinations'].values ())
        if all (x in ref.texts for x in (ALEF, YAH, WAW)) and onalef+sums[ALEF] > 0 and total:
            f = pickle.loads (analyze (d, ['layoutstats'], st))
            n = sum (raw['buttons'].values ())
            hands, fingers = Counter (), Counter ()
            for k, v in raw['buttons'].items ():
                hands[model.FINGERS[k][0]] += v
                fingers[model.FINGERS[k]] += v
            same (f['layout'], 'in.yaml', 'name of layout')
            same ({k.name: v for k, v in f['hands'].items () if v}, dict (hands), 'presses per hand')
            same ({(a.name, b.name): v for (a, b), v in f['fingers'].items () if v}, dict (fingers), 'presses per finger')
            same (f['buttonPresses'], n, 'presses')
            require (close (f['asymmetry'], Fraction (hands['LEFT']-hands['RIGHT'], n)) or abs (f['asymmetry']-(hands['LEFT']-hands['RIGHT'])/n) < 1e-12, 'asymmetry', got=f['asymmetry'], hands=hands)
            require (close (f['hamzaImpact'], sum (sums[x] for x in HAMZA)/total), 'share of letters with hamza', got=f['hamzaImpact'], sums=sums, total=total)
            require (close (f['hamzaOnAlef'], onalef/(onalef+sums[ALEF])), 'share of hamza on alef', got=f['hamzaOnAlef'], sums=sums)
            mon.event ('layout figures')
            if onalef:
                mon.event ('hamza')
            if len (fingers) == 10:
                mon.event ('all fingers')

        # -- corpus totals, several of them in a row
        metas = [{'source': {'name': rng.choice (('a', 'اسم', 'x: y', '---')), 'url': 'http://x/'}, 'format': rng.choice (('epub', 'text'))}]
        if rng.random () < 0.4:
            metas.append ({'name': 'b', 'files': [1, 2, {'x': None}], 'stats': 'old'})
        out = b''
        for m in metas:
            with open (os.path.join (d, 'meta.yaml'), 'w') as fd:
                yaml.dump (m, fd)
            out += analyze (d, ['corpusstats', 'meta.yaml'], st)
        got = [x for x in yaml.safe_load_all (out) if x is not None]
        want = [dict (m, stats={'characters': total, 'words': sum (raw['words'].values ())}) for m in metas]
        same (got, want, 'corpus totals')
        mon.event ('corpus')

        # -- words
        if raw['words']:
            wordlist (mon, analyze (d, ['latinime'], st), raw['words'])
    mon.distinct (data['name'], repr (sorted (raw['buttons'].items ())))
    mon.sample (dict (layout=data['name'], presses=sum (raw['buttons'].values ()), words=len (raw['words'])))

def wordlist (mon, out, words):
    lines = out.decode ().split ('\n')
    lines = [x for x in lines if x and not x.startswith ('#')]
    require (lines[0].startswith ('dictionary=main:ar,'), 'header of word list', line=lines[0])
    n = sum (words.values ())
    seen = {}
    last = None
    for x in lines[1:]:
        m = re.fullmatch (r' word=(.*),f=(-?\d+)', x)
        require (m, 'malformed line in word list', line=x)
        wd, fv = m.group (1), int (m.group (2))
        require (wd not in seen, 'word listed twice', word=wd)
        require (wd in words, 'unknown word', word=wd)
        cnt = words[wd]
        require (last is None or cnt <= last, 'word list is not ordered', word=wd, count=cnt, before=last)
        last = cnt
        want = 255+math.log (cnt/n)/math.log (1.15)
        require (abs (fv-want) <= 0.5+1e-6, 'frequency of word', word=wd, count=cnt, total=n, got=fv, want=want)
        seen[wd] = 1
        mon.event ('word')
    same (set (seen), set (words), 'words listed')

def pct (s, v, total, digits, what):
    require (abs (float (s) - v/total*100) <= 0.5*10**-digits + 1e-9, what, got=s, count=v, total=total)

def pretty (rng, i, mon):
    data = layout (rng, i)
    ref, lay, st, raw = stats (rng, data, rng.randrange (4, 300))
    if not raw['combinations'] or not raw['triads'] or not raw['buttons']:
        return
    name = re.compile (r"Button\((?:name=)?'([^']*)'")
    with fw.TempDir () as d:
        write (d, data)
        out = analyze (d, ['pretty'], st).decode ()
    # texts may contain any character
    pos = 0
    def head (rx):
        nonlocal pos
        m = re.compile (rx, re.M).search (out, pos)
        require (m, f'section {rx!r} is missing', rest=out[pos:pos+200])
        body = out[pos:m.start ()]
        pos = m.end ()
        return m, body
    m, _ = head (r'^button presses (\d+)\n')
    total = int (m.group (1))
    same (total, sum (raw['buttons'].values ()), 'button presses')
    m2, body = head (r'^combinations (\d+)\n')
    seen, last = {}, 0
    for l in body.splitlines ():
        m = re.fullmatch (r".*Button\('(.*?)'.*\) +(\d+) +([\d.]+)%", l)
        require (m, 'malformed line', line=l)
        v = int (m.group (2))
        require (v >= last, 'buttons not ordered')
        last = v
        require (m.group (1) not in seen, 'button listed twice')
        seen[m.group (1)] = v
        pct (m.group (3), v, total, 1, 'percentage of button')
        mon.event ('button line')
    same (seen, raw['buttons'], 'buttons listed')
    total = int (m2.group (1))
    same (total, sum (raw['combinations'].values ()), 'combinations')
    _, body = head (r'^unknown\n')
    seen, last = {}, 0
    for m in re.finditer (r'( *\d+)\. ((?:.|\n)*?) +ButtonCombination\(frozenset\((.*?)\), frozenset\((.*?)\)\) +(\d+) +([\d.]+)%\n', body):
        c = (frozenset (name.findall (m.group (3))), frozenset (name.findall (m.group (4))))
        v = int (m.group (5))
        require (v >= last, 'combinations not ordered')
        last = v
        require (c not in seen, 'combination listed twice')
        seen[c] = v
        same (m.group (2).rstrip (), model.visible (ref.comb[c]).rstrip (), 'text of combination', combination=c)
        same (int (m.group (1)), len (raw['combinations'])-len (seen)+1, 'rank of combination')
        pct (m.group (6), v, total, 3, 'percentage of combination')
        mon.event ('combination line')
    same (seen, raw['combinations'], 'combinations listed')
    m, body = head (r'^triads\n')
    # runs per hand and combined
    parts = re.split (r'^(Direction\.\w+|combined|LEFT|RIGHT|<.*>)$', body, flags=re.M)
    unk = dict (re.findall (r'^(.+?) +(\d+)$', parts[0], re.M))
    same (sorted (map (int, unk.values ())), sorted (raw['unknown'].values ()), 'unknown characters')
    runs = Counter ()
    for k in range (1, len (parts), 2):
        h = 'LEFT' if 'LEFT' in parts[k] else 'RIGHT' if 'RIGHT' in parts[k] else None
        rows = re.findall (r'^ *(\d+) +(\d+) +([\d.]+)%$', parts[k+1], re.M)
        want = Counter ()
        for (hh, n), v in raw['hand'].items ():
            if h is None or hh == h:
                want[n] += v
        t = sum (want.values ())
        got = Counter ({int (a): int (b) for a, b, _ in rows if int (b)})
        same (got, want, f'runs of {h or "both hands"}')
        for a, b, p in rows:
            if t:
                pct (p, int (b), t, 1, 'percentage of runs')
            mon.event ('run line')
    m, body = head (r'^words (\d+)\n')
    ts = [x for x in body.split ('\n') if x]
    same (sorted (int (x.rsplit (None, 1)[1]) for x in ts), sorted (raw['triads'].values ()), 'triads listed')
    mon.event ('triad line', len (ts))
    same (int (m.group (1)), sum (raw['words'].values ()), 'words')
    m, body = head (r'^total effort \(carpalx\) (.*)\n')
    seen = {}
    for l in [x for x in body.split ('\n') if x]:
        w, p, v = l.rsplit (None, 2)
        seen[w.strip ()] = int (v)
        pct (p, int (v), sum (raw['words'].values ()), 5, 'percentage of word')
    same (seen, raw['words'], 'words listed')
    n = sum (raw['triads'].values ())
    want = math.fsum (effort.effort ('mod01', t)*v for t, v in raw['triads'].items ())/n
    require (effort.close (float (m.group (1)), want), 'total effort', got=m.group (1), want=want)
    mon.event ('pretty')
    mon.distinct (data['name'], n)

def arr (x):
    if isinstance (x, dict):
        b = base64.b64decode (x['array']['data']) if isinstance (x['array'], dict) else None
        if b is None:
            return list (x['array'])
        if b[:2] == b'\x1f\x8b':
            b = gzip.decompress (b)
        return numpy.frombuffer (b, dtype=x['dtype']).tolist ()
    return list (x)

def objects (o, out=None):
    out = [] if out is None else out
    if isinstance (o, dict):
        if o.get ('type') == 'object':
            out.append (o)
        for v in o.values ():
            objects (v, out)
    elif isinstance (o, list):
        for v in o:
            objects (v, out)
    return out

def source (o):
    d = o['attributes']['data']
    e = d['entries'] if isinstance (d, dict) and 'entries' in d else list (d.items ())
    return {k: arr (v) for k, v in e}

def letters (rng, i, mon):
    data = layout (rng, i)
    ref, lay, st, raw = stats (rng, data)
    want = letterCounts (ref, raw)
    if not want:
        return
    with fw.TempDir () as d:
        write (d, data)
        out = analyze (d, ['letterfreq'], st)
    letterPlot (mon, out, want)
    mon.distinct (data['name'], repr (sorted (want.items ())))

def letterCounts (ref, raw):
    want = Counter ()
    for c, v in raw['combinations'].items ():
        t = ref.comb[c]
        if unicodedata.category (t[0]) == 'Lo':
            want[t] += v
    return want

def letterPlot (mon, out, want):
    out = json.loads (out)
    cds = [source (o) for o in objects (out) if o['name'] == 'ColumnDataSource']
    require (len (cds) == 1, 'one data source expected', n=len (cds))
    s = cds[0]
    total = sum (want.values ())
    same (Counter (dict (zip (s['letters'], s['abs']))), want, 'letters counted')
    same (len (s['letters']), len (want), 'number of letters')
    same (s['abs'], sorted (s['abs']), 'order of letters')
    for k, (t, v) in enumerate (zip (s['letters'], s['abs'])):
        require (close (s['rel'][k], v/total), 'share of letter', letter=t, got=s['rel'][k], count=v, total=total)
        cum = total - sum (s['abs'][:k])
        same (s['cum'][k], cum, 'cumulative count', letter=t)
        require (close (s['cumRel'][k], cum/total), 'cumulative share', letter=t, got=s['cumRel'][k], want=cum/total)
        mon.event ('letter')
    rng_ = [o['attributes'].get ('factors') for o in objects (out) if o['name'] == 'FactorRange']
    require (s['letters'] in rng_, 'letters on the axis', got=rng_, want=s['letters'])
    mon.event ('letter plot')
    if len (want) > 40:
        mon.event ('plot of many letters')
    if len (set (want.values ())) < len (want):
        mon.event ('ties')

def binned (ref, raw):
    """ text triad → [weight, average effort] """
    out = {}
    for t, v in raw['triads'].items ():
        k = tuple (ref.comb[c] for c in t)
        e = out.setdefault (k, [0, []])
        e[0] += v
        e[1].append (effort.effort ('mod01', t)*v)
    return {k: (w, math.fsum (e)/w) for k, (w, e) in out.items ()}

def ranking (rng, i, mon):
    data = layout (rng, i)
    ref, lay, st, raw = stats (rng, data)
    if not raw['triads']:
        return
    b = binned (ref, raw)
    W = sum (w for w, e in b.values ())
    with fw.TempDir () as d:
        write (d, data)
        blob = pickle.dumps (st, pickle.HIGHEST_PROTOCOL)
        for _ in range (3):
            args, cut, rev, key, lim = [], 0.5, False, 'weight', 0
            if rng.random () < 0.8:
                cut = rng.choice ((0, 0.01, 0.25, 0.9, 1, 1.5, round (rng.random (), 3)))
                args += ['-c', cut]
            if rng.random () < 0.5:
                rev = True
                args += [rng.choice (('-r', '--reverse'))]
            if rng.random () < 0.8:
                key = rng.choice (('weight', 'effort', 'combined'))
                args += ['-s', key]
            if rng.random () < 0.5:
                lim = rng.choice ((1, 2, 5, 100))
                args += ['-n', lim]
            out = analyze (d, ['triadfreq'] + args, blob).decode ()
            rows = [(m.group (1), int (m.group (2)), float (m.group (3))) for m in re.finditer (r'((?:.|\n)*?) (\d+) ([0-9][0-9.e+-]*)\n', out)]
            # the most frequent ones up to the cutoff
            ws = sorted ((w for w, e in b.values ()), reverse=True)
            n, acc = 0, 0
            while n < len (ws) and acc < W*cut:
                acc += ws[n]
                n += 1
            same (len (rows), min (n, lim) if lim else n, 'number of triads listed', args=args, stdout=out[:300])
            avail = Counter ()
            for k, (w, e) in b.items ():
                avail[(''.join (map (model.visible, k)), w)] += 1
            efforts = {}
            for k, (w, e) in b.items ():
                efforts.setdefault ((''.join (map (model.visible, k)), w), []).append (e)
            def sortkey (w, e):
                return {'weight': w, 'effort': e, 'combined': w/W*e*e}[key]
            for t, w, e in rows:
                require (avail[(t, w)] > 0, 'triad with wrong text or weight', text=t, weight=w, args=args)
                avail[(t, w)] -= 1
                require (any (effort.close (e, x) for x in efforts[(t, w)]), 'effort of triad', text=t, got=e, want=efforts[(t, w)])
                require (n == 0 or w >= ws[n-1], 'triad below the cutoff', text=t, weight=w, args=args)
                mon.event ('ranked triad')
            ks = [sortkey (w, e) for t, w, e in rows]
            for x, y in zip (ks, ks[1:]):
                x, y = (y, x) if rev else (x, y)
                require (x <= y*(1+1e-9)+1e-12, 'ranking is not ordered', args=args)
            # nothing better was left out
            chosen = [(w, e) for w, e in b.values () if n and w >= ws[n-1]]
            if len (chosen) == n:
                best = sorted ((sortkey (w, e) for w, e in chosen), reverse=rev)[:len (rows)]
                for x, y in zip (ks, best):
                    require (effort.close (x, y), 'wrong triads listed', args=args, got=ks[:10], want=best[:10])
                mon.event ('ranking determined')
            mon.event ('ranking')
            mon.distinct (data['name'], repr (args), n, W)
    if len (b) < len (raw['triads']):
        mon.event ('several triads of the same text')

def curve (rng, i, mon):
    """ data and plot """
    from bokeh.palettes import Set3
    names = set ()
    blobs, want = [], []
    k = rng.choice ((1, 1, 1, 3, 4, 12))
    with fw.TempDir () as d:
        for j in range (k):
            data = layout (rng, i*12+j)
            while data['name'] in names:
                data['name'] += 'x'
            ref, lay, st, raw = stats (rng, data)
            if not raw['triads']:
                continue
            names.add (data['name'])
            b = binned (ref, raw)
            write (d, data)
            blob = analyze (d, ['triadeffortdata'], st)
            f = pickle.loads (blob)
            x, y = list (map (float, f['x'])), list (map (float, f['y']))
            same (f['layout'].name, data['name'], 'layout of curve')
            verify (mon, b, x, y)
            blobs.append (blob)
            want.append ((data['name'], x, y))
            mon.distinct (data['name'], repr (x), repr (y))
        if len (blobs) >= 3:
            effortPlot (mon, fw.cliOk ('lulua-analyze', ['triadeffortplot'], b''.join (blobs), cwd=d).out, want)

def effortPlot (mon, out, want):
    out = json.loads (out)
    obj = objects (out)
    byid = {o['id']: o for o in obj}
    leg = {}
    for o in obj:
        if o['name'] == 'LegendItem':
            l = o['attributes']['label']
            leg[l['value'] if isinstance (l, dict) else l] = [r['id'] for r in o['attributes']['renderers']]
    same (set (leg), {w[0] for w in want}, 'layouts in plot')
    for n, x, y in want:
        require (len (leg[n]) == 1, 'one line per layout', layout=n)
        g = byid[leg[n][0]]
        sid = g['attributes']['data_source']
        s = source (byid[sid['id']])
        gl = g['attributes']['glyph']
        gl = byid[gl['id']]['attributes']
        same (s[gl['x']['field']], x, 'curve in plot (x)')
        same (s[gl['y']['field']], y, 'curve in plot (y)')
        mon.event ('plotted curve')

def verify (mon, b, x, y):
    ws = sorted (b.values (), reverse=True)
    W = sum (w for w, e in ws)
    E = math.fsum (w*e for w, e in ws)
    width = W//200
    # selection of points depends on weights only
    cum, sel, last, idx = 0, [], None, []
    for n, (w, e) in enumerate (ws):
        cum += w
        if last is None or last+width <= cum:
            last = cum
            sel.append (cum)
            idx.append (n+1)
    sel.append (cum)
    idx.append (len (ws))
    same (len (x), len (sel), 'number of points', total=W, triads=len (ws))
    same (len (y), len (sel), 'number of points')
    for a, w in zip (x, sel):
        require (close (a, w/W), 'weight of point', got=a, want=w/W)
    for n, v in zip (idx, y):
        # order of triads of the same weight is arbitrary
        t = ws[n-1][0]
        tie = [e for w, e in ws if w == t]
        before = sum (1 for w, e in ws if w > t)
        fixed = math.fsum (w*e for w, e in ws if w > t)
        m = n-before
        lo = fixed + t*math.fsum (sorted (tie)[:m])
        hi = fixed + t*math.fsum (sorted (tie)[-m:])
        require (lo/E-1e-9 <= v <= hi/E+1e-9, 'effort of point', got=v, want=(lo/E, hi/E))
        mon.event ('point' if len (tie) == m or len (tie) == 1 else 'point among ties')
    require (all (p <= q+1e-12 for p, q in zip (x, x[1:])) and all (p <= q+1e-12 for p, q in zip (y, y[1:])), 'curve is not monotonic')
    require (close (x[-1], 1) and close (y[-1], 1), 'curve does not end at 1', x=x[-1], y=y[-1])
    mon.event ('curve')
    if width > 1 and len (sel) < len (ws):
        mon.event ('binned curve')

c = fw.Check ('C20', 'statistics of generated histories plus arbitrary counts, run through every analysis command and compared with a recomputation from the raw counts; non-trivial: distinct input',
        minEvents={'heat map': 50, 'layout figures': 15, 'hamza': 5, 'all fingers': 5, 'corpus': 50, 'word': 500, 'pretty': 20, 'letter plot': 20, 'plot of many letters': 3, 'letter': 200, 'ranking': 80, 'ranking determined': 40, 'several triads of the same text': 2, 'curve': 40, 'binned curve': 5, 'plotted curve': 10, 'point': 300},
        assumptions=['counts of keys without an effort are not part of triads', 'layout figures only for layouts with alef, waw and yah and statistics with some alef'])
c.family ('simple', simple, 120, 3000)
c.family ('pretty', pretty, 80, 2000)
c.family ('letters', letters, 80, 2000)
c.family ('ranking', ranking, 80, 2000)
c.family ('curve', curve, 48, 1000)
if __name__ == '__main__':
    sys.exit (c.run ())
