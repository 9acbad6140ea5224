#!/usr/bin/env python3
"""
Build seeded/<id>/ from the definitions in tools/plants.py.

For every definition: scratch copy of /repo, apply, build-equivalent import,
run the stable tests, run the demonstration with and without the change. Only
changes which pass the tests and whose demonstration tells both trees apart
are written.

    tools/plant.py [ID...]
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert (0, os.path.dirname (__file__))
from plants import PLANTS
import plants2, plants3, plants4, plants5, plants6, plants7, plants8, plants9, plants10

BASE = 'd39faff'
SEEDED = os.path.join (os.path.dirname (os.path.dirname (os.path.abspath (__file__))), 'seeded')
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0 on the unchanged tree, nonzero with the patch
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONIOENCODING=utf-8 LC_ALL=C.UTF-8
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def run (cmd, cwd, timeout=280, **kw):
    try:
        return subprocess.run (cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess (cmd, 124, e.output or b'', b'')

def one (p):
    log = []
    work = tempfile.mkdtemp (prefix='plant.')
    try:
        tree = os.path.join (work, 'repo')
        shutil.copytree ('/repo', tree, symlinks=True)
        old = {}
        for f, a, b in p['edits']:
            path = os.path.join (tree, f)
            with open (path, encoding='utf-8') as fd:
                s = fd.read ()
            if s.count (a) != 1:
                return p, False, f'{f}: pattern found {s.count (a)} times'
            with open (path, 'w', encoding='utf-8') as fd:
                fd.write (s.replace (a, b))
        diff = run (['git', 'diff', '--no-color'], tree).stdout.decode ()
        # touches original lines
        base = '\n'.join (run (['git', 'show', f'{BASE}:{f}'], tree).stdout.decode () for f, _, _ in p['edits']).splitlines ()
        removed = [l[1:] for l in diff.splitlines () if l.startswith ('-') and not l.startswith ('---')]
        foreign = [l for l in removed if l not in base]
        if foreign:
            log.append (f'WARNING lines not in original: {foreign}')
        if not removed:
            log.append ('WARNING only additions')
        d = os.path.join (work, 'demo')
        os.mkdir (d)
        with open (os.path.join (d, 'demo.sh'), 'w') as fd:
            fd.write (DEMO_SH)
        with open (os.path.join (d, 'demo.py'), 'w') as fd:
            fd.write (p['demo'].lstrip ('\n'))
        clean = run (['bash', os.path.join (d, 'demo.sh')], '/repo')
        if clean.returncode != 0:
            return p, False, f'demo fails on clean tree ({clean.returncode}): {clean.stdout.decode ()[-800:]}'
        bad = run (['bash', os.path.join (d, 'demo.sh')], tree)
        if bad.returncode == 0:
            return p, False, f'demo passes with the change: {bad.stdout.decode ()[-800:]}'
        t = run (['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'lulua'], tree, timeout=200,
                env=dict (os.environ, PYTHONPATH=tree))
        if t.returncode != 0:
            return p, False, f'tests fail: {t.stdout.decode ()[-600:]}'
        out = os.path.join (SEEDED, p['id'])
        os.makedirs (out, exist_ok=True)
        with open (os.path.join (out, 'patch.diff'), 'w') as fd:
            fd.write (diff)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy (os.path.join (d, f), os.path.join (out, f))
        with open (os.path.join (out, 'meta.json'), 'w') as fd:
            json.dump (dict (property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']), fd, indent=2)
            fd.write ('\n')
        log.append ('demo: ' + (bad.stdout.decode ().strip ().splitlines () or ['?'])[-1][:120])
        return p, True, '; '.join (log)
    finally:
        shutil.rmtree (work, ignore_errors=True)

if __name__ == '__main__':
    ids = sys.argv[1:]
    sel = [p for p in PLANTS if not ids or p['id'] in ids]
    assert len ({p['id'] for p in PLANTS}) == len (PLANTS)
    rc = 0
    with ThreadPoolExecutor (6) as ex:
        for p, ok, msg in ex.map (one, sel):
            print ('ok  ' if ok else 'FAIL', p['id'], msg, flush=True)
            rc |= not ok
    sys.exit (rc)
