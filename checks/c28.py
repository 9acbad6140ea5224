""" The same input gives the same result, whenever and wherever """
import sys, os, re, random, shutil, subprocess, pickle, io
sys.path.insert (0, '/verif')
from lib import fw, gen, jobs, model, corpus
from lib.fw import require, same
fw.resolve ('lulua.text:write', 'lulua.text:extractMediawiki', 'lulua.stats:main', 'lulua.optimize:optimize', 'lulua.render:render', 'lulua.report:render', 'lulua.layout:importFrom')

CODE = """
import sys, os, json, time, warnings
warnings.simplefilter ('ignore')
job = json.loads (sys.argv[1])
sys.argv = job['argv']
if job['shift']:
    now, mono = time.time, time.monotonic
    time.time = lambda: now () + job['shift']
if job['garbage']:
    # other objects at other addresses
    keep = [object () for _ in range (job['garbage'])]
for n in job['loaded']:
    from lulua.layout import defaultLayouts
    from lulua.keyboard import defaultKeyboards
    defaultLayouts[n].specialize (defaultKeyboards['ibmpc105'])
for m in job['modules']:
    __import__ (m)
mod = __import__ (job['module'], fromlist=['x'])
sys.exit (getattr (mod, job['func']) ())
"""

def canonical (kind, out):
    """ without dates """
    if kind in ('xmodmap', 'keyman'):
        return re.sub (rb'(?m)^.*generated.*$', b'', out)
    if kind == 'latinime':
        return re.sub (rb'date=\d+', b'', out)
    # the same objects may be pickled in different ways
    if kind == 'layoutstats':
        x = pickle.loads (out)
        x['hands'] = sorted ((k.name, v) for k, v in x['hands'].items ())
        x['fingers'] = sorted ((h.name, f.name, v) for (h, f), v in x['fingers'].items ())
        return repr (sorted (x.items ()))
    if kind == 'triadeffortdata':
        x = pickle.loads (out)
        return repr ((list (x['x']), list (x['y']), x['layout'].name))
    if kind in ('write', 'combine'):
        # how work is distributed is up to the system
        d = {}
        for s in corpus.outputs (out):
            for f, c in model.statsDict (s).items ():
                for k, v in c.items ():
                    d.setdefault (f, {}).setdefault (k, 0)
                    d[f][k] += v
        return repr ({f: sorted (map (repr, c.items ())) for f, c in sorted (d.items ())})
    return out

def surroundings (rng, k):
    env = {kk: v for kk, v in os.environ.items () if kk in ('PATH', 'PYTHONPYCACHEPREFIX', 'PYTHONDONTWRITEBYTECODE', 'VERIF_SCRATCH')}
    env.update (PYTHONPATH=fw.REPO, PYTHONHASHSEED=str (rng.randrange (1, 10**6)) if k else '0', LC_ALL='C.UTF-8')
    job = dict (shift=0, garbage=0, loaded=[], modules=[])
    what = []
    if k:
        for n, p in (('locale', 0.4), ('zone', 0.4), ('home', 0.4), ('terminal', 0.3), ('time', 0.4), ('garbage', 0.3), ('loaded', 0.4), ('modules', 0.3), ('directory', 0.5), ('leftover', 0.5), ('variables', 0.3)):
            if rng.random () < p:
                what.append (n)
    if 'locale' in what:
        del env['LC_ALL']
        env.update (rng.choice (({}, {'LANG': 'C'}, {'LC_ALL': 'POSIX'}, {'LANG': 'ar_EG.UTF-8', 'LANGUAGE': 'ar'}, {'LC_NUMERIC': 'de_DE.UTF-8', 'LANG': 'C.UTF-8'})))
    if 'zone' in what:
        env['TZ'] = rng.choice (('Asia/Tokyo', 'America/New_York', 'Africa/Cairo', 'XXX-14'))
    if 'home' in what:
        env['HOME'] = rng.choice (('/nonexistent', '', '/'))
        env['USER'] = 'nobody'
    if 'terminal' in what:
        env.update (COLUMNS=str (rng.choice ((20, 40, 500))), LINES='3', TERM=rng.choice (('dumb', 'xterm-256color')), NO_COLOR='1')
    if 'time' in what:
        job['shift'] = rng.choice ((-10**9, 10**9, 86400*180))
    if 'garbage' in what:
        job['garbage'] = rng.randrange (10**6)
    if 'loaded' in what:
        job['loaded'] = rng.sample (jobs.SHOWN, rng.randrange (1, 4))
    if 'modules' in what:
        job['modules'] = rng.sample (['lulua.stats', 'lulua.optimize', 'lulua.text', 'lulua.render', 'lulua.report', 'lulua.plot', 'lulua.carpalx', 'lulua.winkbd'], 3)
    if 'variables' in what:
        env.update (LULUA='1', DEBUG='1', VERBOSE='1', EDITOR='ed', SOURCE_DATE_EPOCH='0')
    return env, job, what

def run (j, d, env, job):
    m, a = fw.CLI[j.prog].split (':')
    import json
    job = dict (job, argv=[j.prog] + j.args, module=m, func=a)
    r = subprocess.run ([fw.PYTHON, '-c', CODE, json.dumps (job)], input=j.stdin, cwd=d, capture_output=True, env=env)
    return r

def again (rng, i, mon):
    kind = jobs.KINDS[i % len (jobs.KINDS)]
    with fw.TempDir () as d:
        base = os.path.join (d, 'base')
        os.mkdir (base)
        j = jobs.everything (rng, base, [kind])[kind]
        if kind == 'optimize':
            # no random decisions
            j.args = [x for x in j.args if x != '-r']
            j.args[j.args.index ('-n')+1] = '0'
            j.args += rng.choice (([], ['--triad-limit', '20'], ['-s', '0,Dl1:1,Dr2']))
        first = None
        for k in range (4):
            env, job, what = surroundings (rng, k)
            here = base
            if 'directory' in what:
                here = os.path.join (d, f'other place {k}')
                shutil.copytree (base, here)
            if j.out:
                p = os.path.join (here, j.out)
                if 'leftover' in what:
                    with open (p, 'wb') as fd:
                        fd.write (b'x\n'*200000)
                elif os.path.exists (p):
                    os.unlink (p)
            r = run (j, here, env, job)
            ctx = dict (args=j.args, surroundings=what, env={a: b for a, b in env.items () if a not in ('PATH', )}, **{a: b for a, b in job.items () if b})
            require (r.returncode == 0, f'{kind} fails', stderr=r.stderr.decode ('utf-8', 'replace')[-1000:], **ctx)
            out = canonical (kind, j.output (here, type ('R', (), dict (out=r.stdout))))
            require (out, f'{kind} has no output', **ctx)
            if first is None:
                first = out
            elif out != first:
                a, b = (x.decode ('utf-8', 'replace') if isinstance (x, bytes) else x for x in (first, out))
                n = next ((n for n, (x, y) in enumerate (zip (a, b)) if x != y), min (len (a), len (b)))
                require (False, f'{kind} gives another result', at=n, first=a[max (0, n-100):n+200], now=b[max (0, n-100):n+200], **ctx)
            mon.event ('run')
            mon.event (f'runs of {kind}')
            for w in what:
                mon.event (f'other {w}')
            mon.distinct (kind, tuple (what), env['PYTHONHASHSEED'])

c = fw.Check ('C28', 'every command in processes of its own with other hash seeds, locales, time zones, dates, directories, environments, loaded modules and definitions, left over output files; output compared byte by byte without dates; non-trivial: distinct command and surroundings',
        minEvents={'run': 4*len (jobs.KINDS), **{f'runs of {k}': 4 for k in jobs.KINDS}, 'other locale': 30, 'other directory': 30, 'other time': 30, 'other loaded': 30, 'other leftover': 30},
        assumptions=['random decisions of the optimizer are not reproducible and left out', 'all locales use UTF-8, as Python does by default'])
c.family ('again', again, 4*len (jobs.KINDS), 20*len (jobs.KINDS), cpu=300)
sys.exit (c.run ())
