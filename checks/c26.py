""" The documented way to a new layout: write, combine, optimize, render, again """
import sys, os, random, json, yaml
from collections import Counter
sys.path.insert (0, '/verif')
from lib import fw, gen, model, hist, effort, opt, corpus
from lib.fw import require, same
fw.resolve ('lulua.text:write', 'lulua.stats:main', 'lulua.optimize:optimize', 'lulua.render:render')
from checks import c14, c17, c19, c20

BASE = effort.BASEKEYS['mod01']
IGNORED = {'Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs'}

def layout (rng, i):
    while True:
        d = gen.anyLayout (rng, rng.choice ((None, i)), multimod=False, layers=rng.randrange (1, 5), mods=opt.MODS)
        if len (d['layout']) > 4 or d['layout'][0]['modifier'] != [[]]:
            continue
        if any (k not in BASE for l in d['layout'] for m in l['modifier'] for k in m):
            continue
        mods = opt.modkeys (d)
        for l in d['layout']:
            for k in list (l['layer']):
                if k not in BASE and k not in IGNORED or k in mods or not c19.sane (l['layer'][k]):
                    del l['layer'][k]
        if len (opt.movable (d, True)) >= 3:
            return d

def perText (ref, raw):
    c = Counter ()
    for k, v in raw['combinations'].items ():
        c[ref.comb[k]] += v
    return c

BTN = {b['name']: b for r in model.IBM['rows'] for s in r for b in s}
def export (rng, mon, d, name, data):
    """ use it with other programs """
    ts = [t for l in data['layout'] for t in l['layer'].values ()]
    fmts = []
    if isinstance (data['name'], str) and not set (data['name']) & set ('"\r\n'):
        fmts.append ('keyman')
        if all (map (c17.sane, ''.join (ts) + data['name'])) and not any ('Fr_menu' in l['layer'] for l in data['layout']):
            fmts.append ('keylayout')
    if all (len (t) == 1 for t in ts):
        fmts.append ('xmodmap')
    if len (data['layout']) >= 2 and not any ('\n' in t for t in ts):
        fmts.append ('klavaro')
    if all (c >= ' ' and c17.sane (c) for t in ts for c in t):
        fmts.append ('ask')
    if not fmts:
        return
    f = rng.choice (fmts)
    fw.cliOk ('lulua-render', ['-l', name, f, 'out'], cwd=d)
    with open (os.path.join (d, 'out'), 'rb') as fd:
        out = fd.read ().decode ('utf-8')
    if f == 'keyman':
        c17.readKeyman (mon, out, data, BTN)
    elif f == 'keylayout':
        c17.readKeylayout (mon, out, data, BTN)
    elif f == 'xmodmap':
        c17.readXmodmap (mon, out, data, BTN)
    elif f == 'klavaro':
        c17.readKlavaro (mon, out, data)
    else:
        c17.readAsk (mon, out, data)
    mon.event ('export')

def workflow (rng, i, mon):
    data = layout (rng, i)
    ref = model.RefLayout (data)
    strings = sorted (ref.texts)
    texts = [corpus.item (rng, ref, 'x', rng.choice ((0, 5, 50, 400))) for _ in range (rng.choice ((1, 3, 8)))]
    # something to optimize
    texts.append (gen.text (rng, 200, strings, False).replace ('\r', ''))
    texts = [''.join (c for c in t if not 0xd800 <= ord (c) < 0xe000) for t in texts]
    with fw.TempDir () as d:
        lines, filters = [], ['file', 'text']
        for k, t in enumerate (texts):
            p = os.path.join (d, f'نص {k}.txt')
            with open (p, 'wb') as fd:
                fd.write (t.encode ('utf-8'))
            lines.append (p + '\n')
        if rng.random () < 0.4:
            filters, lines, more = corpus.make (rng, ref, rng.choice (('lines', 'json', 'tar', 'brotlitar', 'xml')), rng.choice ((3, 20, 100)), d)
            texts = [t for ts in more for t in ts]
        first, texts_ = None, {t: {c[1] for c in cs} for t, cs in ref.texts.items ()}
        name = 'my-layout.yaml'
        with open (os.path.join (d, name), 'w') as fd:
            yaml.dump (data, fd, sort_keys=False)
        for g in range (rng.choice ((2, 2, 3))):
            ref = model.RefLayout (data)
            # -- statistics
            out = fw.cliOk ('lulua-write', ['-j', rng.choice ((1, 2, 4)), name, *filters], ''.join (lines).encode (), cwd=d).out
            st = fw.cliOk ('lulua-analyze', ['combine'], out, cwd=d).out
            same (len (corpus.outputs (st)), 1, 'one combined statistics')
            raw = corpus.total (corpus.outputs (st))
            want = corpus.expected (ref, texts).asdict ()
            for f in want:
                same (raw[f], want[f], f'{f} with layout {name}')
            if not raw['triads']:
                return
            here = dict (words=raw['words'], unknown=raw['unknown'], texts=perText (ref, raw), triads=sum (raw['triads'].values ()))
            if first is None:
                first = here
            else:
                for k in here:
                    # keys passed over may produce the same text as others
                    if k == 'triads' and any (len (x) > 1 for x in texts_.values ()):
                        continue
                    same (here[k], first[k], f'{k} with optimized layout {name}')
                mon.event ('optimized layout used')
            # -- figures and picture
            heat = yaml.safe_load (c20.analyze (d, ['keyheatmap'], st, name))
            same ({k: v for k, v in heat['buttons'].items () if v}, raw['buttons'], 'heat map')
            with open (os.path.join (d, 'heat.yaml'), 'w') as fd:
                yaml.dump (heat, fd)
            os.makedirs (os.path.join (d, c19.FONTS), exist_ok=True)
            for f in ('Thin', 'Regular'):
                with open (os.path.join (d, c19.FONTS, f'IBMPlexSansArabic-{f}.woff2'), 'wb') as fd:
                    fd.write (b'font')
            fw.cliOk ('lulua-render', ['-l', name, 'svg', '--heatmap', 'heat.yaml', 'out.svg'], cwd=d)
            with open (os.path.join (d, 'out.svg'), 'rb') as fd:
                c19.picture (mon, fd.read (), data, model.IBM, raw['buttons'])
            lc = c20.letterCounts (ref, raw)
            if lc and i % 4 == 0:
                c20.letterPlot (mon, c20.analyze (d, ['letterfreq'], st, name), lc)
            export (rng, mon, d, name, data)
            # -- next generation
            seed = rng.random ()
            args = ['-l', name, '-n', rng.choice ((0, 5, 60, 200)), '-m', rng.choice (sorted (effort.MODELS))]
            if rng.random () < 0.5:
                args.append ('-r')
            if rng.random () < 0.5:
                args.append (f'--triad-limit={rng.choice ((1, 10, 30000))}')
            if rng.random () < 0.4:
                args += ['-p', opt.pinArg (opt.pins (rng, data)) or '0']
            r = fw.cliOk ('lulua-optimize', args, st, cwd=d, pre=lambda: random.seed (seed))
            name = f'evolved{g}.yaml'
            with open (os.path.join (d, name), 'wb') as fd:
                fd.write (r.out)
            new = yaml.safe_load (r.out)
            def count (x):
                return Counter (t for l in x['layout'] for t in l['layer'].values ())
            same (count (new), count (data), 'texts of optimized layout')
            if [l['layer'] for l in new['layout']] != [l['layer'] for l in data['layout']]:
                mon.event ('changed layout')
            data = new
            mon.event ('generation')
            mon.distinct (r.out)

c = fw.Check ('C26', 'generated layouts and corpora taken through several rounds of the documented workflow with the real commands; non-trivial: distinct optimized layout',
        minEvents={'generation': 40, 'changed layout': 20, 'optimized layout used': 25, 'picture': 40},
        assumptions=['texts are on keys with a base effort, modifiers are single keys with a base effort'])
c.family ('workflow', workflow, 40, 1000, cpu=300)
if __name__ == '__main__':
    sys.exit (c.run ())
