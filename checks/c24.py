import sys, os, copy, yaml
sys.path.insert (0, '/verif')
from lib import fw, gen, model
from lib.fw import require, same
defaultLayouts, defaultKeyboards = fw.resolve ('lulua.layout:defaultLayouts', 'lulua.keyboard:defaultKeyboards')

def load (kind):
    d = os.path.join (fw.REPO, 'lulua', 'data', kind)
    ret = {}
    for f in sorted (os.listdir (d)):
        if f.endswith ('.yaml') and not f.startswith ('.'):
            with open (os.path.join (d, f), encoding='utf-8') as fd:
                ret[f[:-5]] = yaml.safe_load (fd)
    return ret
SHIPPED = {'layouts': load ('layouts'), 'keyboards': load ('keyboards')}
LOADER = {'layouts': defaultLayouts, 'keyboards': defaultKeyboards}

def plain (kind, o):
    """ Object → comparable """
    if kind == 'layouts':
        return (o.name, [([sorted (m) for m in l.modifier], dict (l.layout)) for l in o.layers])
    return (o.name, [[[(b.name, b.width, b.isMarked) for b in s] for s in r] for r in o])

def expect (kind, d):
    if kind == 'layouts':
        return (d['name'], [([sorted (m) for m in l['modifier']], dict (l['layer'])) for l in d['layout']])
    return (d['name'], [[[(b['name'], b.get ('width', 1), b.get ('isMarked', False)) for b in s] for s in r] for r in d['rows']])

def content (rng, kind):
    if kind == 'layouts':
        return gen.anyLayout (rng, None) if rng.random () < 0.7 else copy.deepcopy (SHIPPED[kind]['null'])
    d = gen.keyboardData (rng)
    # attributes are the subject of another property
    return d

def mutate (rng, kind, o):
    """ Change an object that was returned """
    try:
        if kind == 'layouts':
            o.name = 'changed'
            if o.layers:
                l = rng.choice (o.layers)
                l.layout['Dl1'] = 'changed'
                l.layout.pop (rng.choice (sorted (l.layout)), None)
                l.modifier.append (frozenset (['x']))
                if rng.random () < 0.3:
                    o.layers.pop ()
        else:
            o.name = 'changed'
            bs = [b for r in o for s in r for b in s]
            if bs:
                b = rng.choice (bs)
                b.width = 17
                b.isMarked = not b.isMarked
            for r in o:
                for s in r:
                    if isinstance (s, list) and s and rng.random () < 0.5:
                        s.pop ()
    except (AttributeError, TypeError):
        # immutable is fine as well
        pass

# the names of files mean what they say
ODD = ('$HOME', '${HOME}', '$USER.yaml', '~', '~root', '%x', '*', '[a]', 'a?b', 'a b', 'a\\b', 'http:x', '-', '#a', "it's", 'x;y')

def history (rng, i, mon):
    old = os.getcwd ()
    with fw.TempDir () as d:
        cwd = os.path.join (d, 'cwd')
        os.makedirs (os.path.join (cwd, 'sub/deep'))
        os.symlink (os.path.join (cwd, 'sub/deep'), os.path.join (cwd, 'ln'))
        os.chdir (cwd)
        # files by real path → (kind, content); None: directory
        files = {}
        try:
            held = []
            odd = rng.choice (ODD)
            for step in range (60):
                kind = rng.choice (('layouts', 'layouts', 'keyboards'))
                sh = SHIPPED[kind]
                base = rng.choice (sorted (sh))
                names = [base]*6 + [base + '.yaml']*3 + [base + '.yml', 'foo', 'foo.yaml', 'sub/foo.yaml', 'sub/' + base, os.path.join (cwd, 'foo'), os.path.join (cwd, base + '.yaml'), './' + base, './' + base + '.yaml', base.upper (), base[:-1], base + '.yaml.yaml', ' ' + base, 'link', 'missing', 'sub', 'foo/x', 'لوحة', 'لوحة.yaml', base + ' ', 'sub/foo', 'sub/foo', 'ln/../foo', 'ln/../foo', odd, odd, odd]
                k = rng.choice (names)
                r = rng.random ()
                if r < 0.3 and not k.startswith ('foo/') and k not in ('missing', 'sub', 'link', 'ln/../foo'):
                    # create, change or remove a file
                    p = os.path.join (cwd, os.path.normpath (k))
                    if p in files and files[p] is None:
                        os.rmdir (p)
                        del files[p]
                        mon.event ('directory removed')
                    elif p in files and rng.random () < 0.5:
                        os.unlink (p)
                        del files[p]
                        mon.event ('file removed')
                    elif p not in files and rng.random () < 0.15:
                        os.mkdir (p)
                        files[p] = None
                        mon.event ('directory created')
                    else:
                        c = content (rng, kind)
                        c['name'] = f'user-{step:02}'
                        broken = rng.random () < 0.12
                        if p in files and rng.random () < 0.5 and files[p] and files[p][1]['name'] != 'broken':
                            # same length, so neither size nor inode change, only content
                            kind, c = files[p][0], copy.deepcopy (files[p][1])
                            c['name'] = f'user-{step:02}'[:len (c['name'])]
                            broken = False
                            LOADER[kind][p]
                            mon.event ('same size')
                        how = rng.choice (('new', 'r+', 'replace', 'mtime'))
                        st = os.stat (p) if os.path.exists (p) else None
                        out = p + '~' if how == 'replace' else p
                        with open (out, 'r+' if how == 'r+' and st else 'w', encoding='utf-8') as fd:
                            fd.truncate (0)
                            if broken and rng.random () < 0.5:
                                # no definition
                                fd.write (rng.choice (('', '\n', '# comment\n', '---\n', 'null\n', '{}\n', '[]\n', '5\n', '0\n', 'false\n', '""\n', 'text\n', 'name: x\n', '...\n')))
                                mon.event ('file without definition')
                            else:
                                yaml.safe_dump (c, fd, sort_keys=False)
                            if broken and fd.tell () > 20:
                                fd.write (rng.choice (('x: [', '- a\n b: {', ': : :\n\t-', '"', '\ty: 1', '&a *b')))
                        if how == 'replace':
                            os.rename (out, p)
                        if how == 'mtime' and st:
                            # as restoring backups or unpacking archives does
                            os.utime (p, ns=(st.st_atime_ns, st.st_mtime_ns))
                        files[p] = (kind, {'name': 'broken'} if broken else c)
                        mon.event ('file written')
                        if not broken:
                            # right after the change
                            same (plain (kind, LOADER[kind][p]), expect (kind, c), 'file just written')
                elif r < 0.35:
                    t = os.path.join (cwd, rng.choice (('foo', base)))
                    l = os.path.join (cwd, 'link')
                    if os.path.lexists (l):
                        os.unlink (l)
                    os.symlink (t, l)
                elif r < 0.45:
                    objs = list (LOADER[kind])
                    got = [plain (kind, o) for o in objs]
                    want = [expect (kind, x) for x in sh.values ()]
                    same (len (got), len (want), f'number of {kind} listed', names=[g[0] for g in got])
                    for w in want:
                        require (w in got, f'{kind} does not list a shipped definition', name=w[0])
                    for o in objs:
                        if rng.random () < 0.3:
                            mutate (rng, kind, o)
                            mon.event ('changed')
                    mon.event ('listing')
                else:
                    if files and rng.random () < 0.3:
                        k = os.path.relpath (rng.choice (sorted (files)), cwd)
                        k = {'sub/foo': 'ln/../foo'}.get (k, k)
                    p = os.path.realpath (os.path.join (cwd, k))
                    f = files.get (p)
                    if k == 'sub':
                        f = None
                    if f is not None:
                        if f[0] != kind:
                            continue
                        want = f[1]
                        what = 'user file'
                        if want['name'] == 'broken':
                            # there is a file, nothing else may be used instead
                            try:
                                o = LOADER[kind][k]
                            except Exception:
                                pass
                            else:
                                require (False, 'broken file is not reported', name=k, got=o.name)
                            mon.event ('broken file')
                            continue
                    else:
                        n = k[2:] if k.startswith ('./') else k
                        if k.startswith ('./'):
                            # not a name
                            want, what = None, 'skip'
                        elif n in sh:
                            want, what = sh[n], 'shipped'
                        elif n.endswith ('.yaml') and n[:-5] in sh:
                            want, what = sh[n[:-5]], 'shipped with extension'
                        else:
                            want, what = None, 'missing'
                    if what == 'skip':
                        continue
                    try:
                        o = LOADER[kind][k]
                    except Exception as e:
                        require (want is None, f'{what}: {k!r} cannot be looked up', error=repr (e), files={x[len (cwd):]: v and v[1]['name'] for x, v in files.items ()})
                        require (isinstance (e, KeyError), 'missing name is not a lookup error', name=k, error=repr (e))
                    else:
                        require (want is not None, f'{what}: {k!r} resolves to something', got=o.name)
                        same (plain (kind, o), expect (kind, want), f'{what}: {k!r}')
                        for h in held[-5:]:
                            require (h is not o, 'lookup returned an object handed out before', name=k)
                        held.append (o)
                        if rng.random () < 0.6:
                            mutate (rng, kind, o)
                            mon.event ('changed')
                    mon.event (what)
                    mon.distinct (kind, k, what, tuple (sorted (x[len (cwd):] for x in files)))
            mon.sample (dict (files=[x[len (cwd):] for x in files]))
        finally:
            os.chdir (old)

CHILD = """
import sys, json, warnings
warnings.simplefilter ('ignore')
sys.path.insert (0, sys.argv[1])
import lulua, os
assert os.path.realpath (list (lulua.__path__)[0]).startswith (os.path.realpath (sys.argv[1])), list (lulua.__path__)
from lulua.layout import defaultLayouts
from lulua.keyboard import defaultKeyboards
out = dict (layouts=sorted (repr (o.name) for o in defaultLayouts), keyboards=sorted (repr (o.name) for o in defaultKeyboards), lookup={})
for kind, l in (('layouts', defaultLayouts), ('keyboards', defaultKeyboards)):
    for n in json.loads (sys.argv[2]):
        try:
            out['lookup'][kind + ' ' + n] = repr (l[n].name)
        except KeyError:
            out['lookup'][kind + ' ' + n] = None
print (json.dumps (out))
"""

def package (rng, i, mon):
    """ another set of shipped definitions, with unrelated files next to them """
    import shutil, subprocess, json
    with fw.TempDir () as d:
        p = os.path.join (d, 'p')
        shutil.copytree (os.path.join (fw.REPO, 'lulua'), os.path.join (p, 'lulua'), ignore=shutil.ignore_patterns ('__pycache__', 'test_*'))
        os.mkdir (os.path.join (d, 'cwd'))
        names = {'layouts': [repr (x['name']) for x in SHIPPED['layouts'].values ()], 'keyboards': [repr (x['name']) for x in SHIPPED['keyboards'].values ()]}
        ask, want = [], {}
        for k in range (rng.choice ((1, 3))):
            kind = rng.choice (('layouts', 'keyboards'))
            c = content (rng, kind)
            n = rng.choice (('new{}', 'ar-new{}', 'x.y{}', 'NEW{}', 'a b{}', 'yaml{}')).format (k)
            c['name'] = f'shipped {k}'
            with open (os.path.join (p, 'lulua', 'data', kind, n + '.yaml'), 'w', encoding='utf-8') as fd:
                yaml.safe_dump (c, fd, sort_keys=False)
            names[kind].append (repr (c['name']))
            other = {'layouts': 'keyboards', 'keyboards': 'layouts'}[kind]
            for x in (n, n + '.yaml'):
                ask.append (x)
                want[f'{kind} {x}'] = repr (c['name'])
                want[f'{other} {x}'] = None
        for f in ('.hidden.yaml', 'README', 'notes.txt', 'x.yaml~', 'x.yaml.orig', '#x.yaml#', '.x.yaml.swp', 'x.yml', 'yaml'):
            if rng.random () < 0.6:
                for kind in names:
                    with open (os.path.join (p, 'lulua', 'data', kind, f), 'w') as fd:
                        fd.write (rng.choice (('no definition', 'name: no\nlayout: []\nrows: []\ndescription: no\n')))
        r = subprocess.run ([fw.PYTHON, '-X', 'utf8', '-c', CHILD, p, json.dumps (ask)], cwd=os.path.join (d, 'cwd'), capture_output=True, env=dict (os.environ, PYTHONPATH=''))
        require (r.returncode == 0, 'definitions cannot be listed or looked up', stderr=r.stderr.decode ('utf-8', 'replace')[-800:])
        got = json.loads (r.stdout)
        for kind in names:
            same (got[kind], sorted (names[kind]), f'{kind} listed')
        for k, v in want.items ():
            same (got['lookup'][k], v, f'lookup of shipped {k}')
        mon.event ('other shipped definitions')
        mon.distinct (repr (names), repr (sorted (os.listdir (os.path.join (p, 'lulua', 'data', 'layouts')))))

c = fw.Check ('C24', 'histories of lookups, listings, changes to returned objects and to files in the working directory; non-trivial: distinct (name, outcome, directory state)',
        minEvents={'file written': 200, 'user file': 200, 'shipped': 200, 'shipped with extension': 100, 'missing': 300, 'listing': 100, 'changed': 500, 'directory created': 20, 'broken file': 10, 'same size': 20, 'other shipped definitions': 4, 'file without definition': 5})
c.family ('history', history, 80, 2000)
c.family ('package', package, 8, 60)
sys.exit (c.run ())
