"""
Small runtime-verification framework: runs families of generated cases against
the real code in forked workers, collects what the monitors observed, writes
evidence and replay files.

Exit status: 0 held, 1 violation, 2 inconclusive (nothing is claimed).
"""

import os, sys, json, time, signal, pickle, random, hashlib, traceback, argparse, tempfile, shutil, ast, gc

VERIF = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
REPO = '/repo'
# Python packages under test come from the working tree, never from elsewhere
if REPO not in sys.path:
    sys.path.insert (0, REPO)

TIER = os.environ.get ('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int (os.environ.get ('VERIF_SEED', '1'))
NPROC = min (8, os.cpu_count () or 1)
# stop generating new cases after this wall time
WALL = float (os.environ.get ('VERIF_WALL') or {'quick': 420, 'thorough': 780}[TIER])
PYTHON = '/opt/venv/bin/python'

class Violation (Exception):
    def __init__ (self, msg, **details):
        super ().__init__ (msg)
        self.msg = msg
        self.details = details

class Hang (Violation):
    pass

class CpuLimit (BaseException):
    pass

class Inconclusive (Exception):
    pass

def short (x, n=600):
    s = x if isinstance (x, str) else repr (x)
    return s if len (s) <= n else s[:n] + f'…[{len (s)}]'

def require (cond, msg, **details):
    if not cond:
        raise Violation (msg, **{k: short (v, 1500) for k, v in details.items ()})

def same (got, want, msg, **details):
    if got != want:
        d = {}
        if isinstance (got, dict) and isinstance (want, dict):
            diff = {}
            for k in set (got) | set (want):
                if got.get (k) != want.get (k):
                    diff[k] = (got.get (k), want.get (k))
                    if len (diff) > 5:
                        break
            d['diff(got,want)'] = diff
        else:
            d['got'] = got
            d['want'] = want
        d.update (details)
        require (False, msg, **d)

def harvest (modules=None, maxint=200000):
    """
    Integer and string constants of the current source tree, used as fuzz
    dictionary only (never by an oracle).
    """
    ints, strs = set (), set ()
    d = os.path.join (REPO, 'lulua')
    for f in sorted (os.listdir (d)):
        if not f.endswith ('.py') or f.startswith ('test_') or f == 'winkbd.py':
            continue
        if modules and f[:-3] not in modules:
            continue
        try:
            tree = ast.parse (open (os.path.join (d, f), encoding='utf-8').read ())
        except (SyntaxError, OSError):
            continue
        skip = set ()
        for node in ast.walk (tree):
            # docstrings and log/error messages are no interesting input
            if isinstance (node, (ast.Expr, ast.JoinedStr)):
                for c in ast.walk (node) if isinstance (node, ast.JoinedStr) else [node.value]:
                    if isinstance (c, ast.Constant):
                        skip.add (id (c))
            if isinstance (node, ast.BinOp):
                # constant expressions like 1*1024*1024
                try:
                    v = eval (compile (ast.Expression (node), '', 'eval'), {'__builtins__': {}})
                    if type (v) is int and 1 < v <= maxint:
                        ints.add (v)
                except Exception:
                    pass
        for node in ast.walk (tree):
            if isinstance (node, ast.Constant) and id (node) not in skip:
                v = node.value
                if type (v) is int and 1 < v <= maxint:
                    ints.add (v)
                elif isinstance (v, str) and 0 < len (v) <= 12:
                    strs.add (v)
    return sorted (ints), sorted (strs)

class Mon:
    """ What a monitor saw """

    def __init__ (self):
        self.events = {}
        self.distinctKeys = set ()
        self.samples = []

    def event (self, name, n=1):
        self.events[name] = self.events.get (name, 0) + n

    def distinct (self, *key):
        if len (self.distinctKeys) < 500000:
            self.distinctKeys.add (hashlib.blake2b (repr (key).encode ('utf-8', 'surrogatepass'), digest_size=8).digest ())

    def sample (self, x):
        if len (self.samples) < 2:
            self.samples.append (x if isinstance (x, (dict, list, int, float)) else short (x, 300))

class Coverage:
    """ Lines of the code under test executed, via sys.monitoring """

    def __init__ (self):
        self.lines = {}
        self.prefix = os.path.join (REPO, 'lulua') + os.sep

    def start (self):
        m = sys.monitoring
        self.tool = 4
        m.use_tool_id (self.tool, 'verif')
        def line (code, lineno):
            if code.co_filename.startswith (self.prefix):
                self.lines.setdefault (os.path.basename (code.co_filename), set ()).add (lineno)
            return m.DISABLE
        m.register_callback (self.tool, m.events.LINE, line)
        m.set_events (self.tool, m.events.LINE)

class Family:
    def __init__ (self, name, fn, quick, thorough, cpu, serial):
        self.name, self.fn, self.n, self.cpu, self.serial = name, fn, (quick if TIER == 'quick' else thorough), cpu, serial

class Check:
    def __init__ (self, pid, rule, level='exploration', assumptions=(), minEvents=None, exhaustive=False):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list (assumptions)
        self.minEvents = minEvents or {}
        self.families = []
        self.start = time.time ()
        self.known = []

    def family (self, name, fn, quick, thorough=None, cpu=120, serial=False):
        """
        fn (rng, i, mon) runs case i. serial: cases start processes of their
        own, thus run fewer at the same time.
        """
        self.families.append (Family (name, fn, quick, thorough if thorough is not None else quick*10, cpu, serial))

    # -- one case

    def rng (self, fam, i):
        return random.Random (f'{SEED}/{self.pid}/{fam.name}/{i}')

    def runCase (self, fam, i, mon):
        """ Returns None or a violation dict """
        def onalarm (sig, frame):
            raise CpuLimit ()
        signal.signal (signal.SIGVTALRM, onalarm)
        signal.setitimer (signal.ITIMER_VIRTUAL, fam.cpu)
        try:
            fam.fn (self.rng (fam, i), i, mon)
            return None
        except Violation as e:
            return dict (msg=e.msg, details=e.details)
        except Inconclusive:
            raise
        except CpuLimit:
            signal.setitimer (signal.ITIMER_VIRTUAL, 0)
            return dict (msg=f'no result after {fam.cpu} s of CPU time', details={'trace': traceback.format_exc (limit=-12)})
        except Exception as e:
            return dict (msg=f'unexpected {type (e).__name__}: {short (str (e), 300)}', details={'trace': traceback.format_exc (limit=-12)})
        finally:
            signal.setitimer (signal.ITIMER_VIRTUAL, 0)

    def worker (self, w, nw, fams, wfd):
        mon = Mon ()
        cov = Coverage ()
        try:
            cov.start ()
        except Exception:
            pass
        random.seed (f'{SEED}/{self.pid}/{w}')
        done, violations, err, skipped = {}, [], None, 0
        try:
            cases = [(fam, i) for fam in fams for i in range (w, fam.n, nw)]
            if TIER != 'quick':
                # time may run out, so give every family its share
                cases.sort (key=lambda x: x[1]/x[0].n)
            for fam, i in cases:
                if time.time () - self.start > WALL:
                    skipped += 1
                    continue
                v = self.runCase (fam, i, mon)
                done[fam.name] = done.get (fam.name, 0) + 1
                if v is not None:
                    v.update (family=fam.name, index=i)
                    violations.append (v)
                    break
        except BaseException as e:
            err = traceback.format_exc ()
        r = dict (done=done, violations=violations, err=err, skipped=skipped,
                events=mon.events, distinct=mon.distinctKeys, samples=mon.samples,
                lines=cov.lines)
        with os.fdopen (wfd, 'wb') as fd:
            pickle.dump (r, fd)

    def fanout (self, fams, nw):
        kids = []
        for w in range (nw):
            rfd, wfd = os.pipe ()
            sys.stdout.flush ()
            sys.stderr.flush ()
            pid = os.fork ()
            if pid == 0:
                os.close (rfd)
                code = 0
                try:
                    self.worker (w, nw, fams, wfd)
                except BaseException:
                    traceback.print_exc ()
                    code = 3
                finally:
                    os._exit (code)
            os.close (wfd)
            kids.append ((pid, os.fdopen (rfd, 'rb')))
        # sequential reading is fine, pipes are drained in order and a blocked
        # writer merely waits
        out = []
        for pid, fd in kids:
            with fd:
                data = fd.read ()
            os.waitpid (pid, 0)
            if not data:
                out.append (dict (done={}, violations=[], err='worker process died', skipped=0, events={}, distinct=set (), samples=[], lines={}))
            else:
                out.append (pickle.loads (data))
        return out

    def run (self):
        p = argparse.ArgumentParser ()
        p.add_argument ('--replay')
        p.add_argument ('--family')
        p.add_argument ('--case', type=int)
        p.add_argument ('-j', type=int, default=NPROC)
        args = p.parse_args ()
        if args.replay or args.case is not None:
            return self.replay (args)

        gc.collect ()
        gc.freeze ()
        fams = [f for f in self.families if not args.family or f.name == args.family]
        results = []
        par = [f for f in fams if not f.serial]
        ser = [f for f in fams if f.serial]
        if par:
            results += self.fanout (par, args.j)
        if ser:
            results += self.fanout (ser, max (1, args.j//2))

        events, distinct, samples, done, lines, viol, errs, skipped = {}, set (), [], {}, {}, [], [], 0
        for r in results:
            for k, v in r['events'].items ():
                events[k] = events.get (k, 0) + v
            for k, v in r['done'].items ():
                done[k] = done.get (k, 0) + v
            for k, v in r['lines'].items ():
                lines.setdefault (k, set ()).update (v)
            distinct |= r['distinct']
            samples += r['samples']
            viol += r['violations']
            skipped += r['skipped']
            if r['err']:
                errs.append (r['err'])

        coverage = dict (
                evaluations=sum (done.values ()),
                distinct_nontrivial=len (distinct),
                rule=self.rule,
                samples=samples[:6],
                cases_per_family=done,
                events_observed=dict (sorted (events.items ())),
                target_lines_executed={k: len (v) for k, v in sorted (lines.items ())},
                cases_not_run_for_lack_of_time=skipped,
                )
        ev = dict (property=self.pid, tier=TIER, seed=SEED, level=self.level,
                coverage=coverage, assumptions=self.assumptions,
                wall_s=round (time.time () - self.start, 2), violations=len (viol))
        os.makedirs (os.path.join (VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join (VERIF, 'evidence', f'.{self.pid}.{os.getpid ()}.tmp')
        with open (tmp, 'w', encoding='utf-8', errors='backslashreplace') as fd:
            json.dump (ev, fd, indent=1, ensure_ascii=True, default=str)
        os.replace (tmp, os.path.join (VERIF, 'evidence', f'{self.pid}.json'))

        if viol:
            self.report (viol)
            return 1
        for e in errs:
            print (f'check error: {e}', file=sys.stderr)
        if errs:
            print (f'{self.pid}: inconclusive')
            return 2
        for k, n in self.minEvents.items ():
            if events.get (k, 0) < n:
                print (f'{self.pid}: inconclusive, only {events.get (k, 0)} events {k!r} observed, expected {n}', file=sys.stderr)
                return 2
        self.finish (events)
        for k in self.known:
            print (f'KNOWN-FINDING: property={self.pid} {k}')
        print (f'{self.pid}: held on {coverage["evaluations"]} cases ({coverage["distinct_nontrivial"]} distinct), events {events}, {ev["wall_s"]} s')
        return 0

    def finish (self, events):
        pass

    def report (self, viol):
        d = os.path.join (VERIF, 'evidence', 'replays')
        os.makedirs (d, exist_ok=True)
        seen = set ()
        for v in viol:
            if v['family'] in seen:
                continue
            seen.add (v['family'])
            path = os.path.join (d, f'{self.pid}-{v["family"]}-{v["index"]}-s{SEED}.json')
            with open (path, 'w', encoding='utf-8', errors='backslashreplace') as fd:
                json.dump (dict (property=self.pid, family=v['family'], index=v['index'], seed=SEED, tier=TIER,
                        message=v['msg'], details=v['details'], how=f'bash /verif/run.sh {self.pid} --replay {path}'), fd, indent=1, default=repr)
            print (f'{self.pid} {v["family"]}[{v["index"]}]: {v["msg"]}'.encode ('ascii', 'backslashreplace').decode ())
            for k, x in list (v['details'].items ())[:8]:
                print (f'    {k}: {short (x, 1500)}'.encode ('ascii', 'backslashreplace').decode ())
            print (f'VIOLATION property={self.pid} replay={path}')
        sys.stdout.flush ()

    def replay (self, args):
        global SEED
        if args.replay:
            with open (args.replay) as fd:
                r = json.load (fd)
            SEED, fam, case = r['seed'], r['family'], r['index']
        else:
            fam, case = args.family, args.case
        f = next (f for f in self.families if f.name == fam)
        mon = Mon ()
        v = self.runCase (f, case, mon)
        print ('observed', mon.events)
        if v:
            v.update (family=fam, index=case)
            self.report ([v])
            return 1
        print ('no violation')
        return 0

def resolve (*names):
    """
    Resolve 'module:attr' entry points of the code under test. If there is no
    such thing (any more) nothing can be said about the property.
    """
    import importlib
    ret = []
    for n in names:
        m, _, a = n.partition (':')
        try:
            o = importlib.import_module (m)
            for x in a.split ('.') if a else []:
                o = getattr (o, x)
            ret.append (o)
        except Exception as e:
            # a module that cannot even be imported is not a violation of a
            # particular property
            traceback.print_exc ()
            print (f'cannot resolve {n}: {e!r}', file=sys.stderr)
            sys.exit (2)
    return ret if len (ret) != 1 else ret[0]

# ---------------------------------------------------------------------------
# scratch space

_scratch = None
def scratch (sub=''):
    """ Scratch directory of this process, removed at exit of the check """
    base = os.environ['VERIF_SCRATCH']
    d = os.path.join (base, str (os.getpid ()), sub) if sub else os.path.join (base, str (os.getpid ()))
    os.makedirs (d, exist_ok=True)
    return d

class TempDir:
    """ A fresh directory, removed afterwards """
    def __enter__ (self):
        self.d = tempfile.mkdtemp (dir=os.environ['VERIF_SCRATCH'])
        return self.d
    def __exit__ (self, *a):
        shutil.rmtree (self.d, ignore_errors=True)

# ---------------------------------------------------------------------------
# running command line programs

CLI = {
    'lulua-render': 'lulua.render:render',
    'lulua-report': 'lulua.report:render',
    'lulua-write': 'lulua.text:write',
    'lulua-analyze': 'lulua.stats:main',
    'lulua-optimize': 'lulua.optimize:optimize',
    'lulua-import': 'lulua.layout:importFrom',
    'lulua-extract-mediawiki': 'lulua.text:extractMediawiki',
    }

class Result:
    def __init__ (self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

class Proc:
    """
    Command line program running in a forked child (fresh argv, stdio, cwd),
    same entry point the installed script calls. stdin is bytes or a file
    descriptor to read from.
    """
    def __init__ (self, prog, argv, stdin=b'', cwd=None, pre=None, cpu=300):
        import importlib
        m, a = CLI[prog].split (':')
        func = getattr (importlib.import_module (m), a)
        self.prog, self.argv, self.cpu = prog, list (map (str, argv)), cpu
        self.d = tempfile.mkdtemp (dir=os.environ['VERIF_SCRATCH'])
        pi, self.po, self.pe = (os.path.join (self.d, x) for x in ('in', 'out', 'err'))
        self.rc = None
        if isinstance (stdin, bytes):
            with open (pi, 'wb') as fd:
                fd.write (stdin)
        for x in (self.po, self.pe):
            open (x, 'wb').close ()
        sys.stdout.flush ()
        sys.stderr.flush ()
        self.pid = os.fork ()
        if self.pid == 0:
            rc = 70
            try:
                signal.setitimer (signal.ITIMER_VIRTUAL, 0)
                signal.signal (signal.SIGVTALRM, signal.SIG_DFL)
                signal.signal (signal.SIGINT, signal.default_int_handler)
                os.setpgid (0, 0)
                import resource
                used = sum (resource.getrusage (resource.RUSAGE_SELF)[:2])
                resource.setrlimit (resource.RLIMIT_CPU, (int (used+cpu), int (used+cpu)+5))
                if cwd:
                    os.chdir (cwd)
                fds = [os.open (pi, os.O_RDONLY) if isinstance (stdin, bytes) else stdin,
                        os.open (self.po, os.O_WRONLY|os.O_APPEND), os.open (self.pe, os.O_WRONLY|os.O_APPEND)]
                for n, f in enumerate (fds):
                    os.dup2 (f, n)
                for f in fds:
                    if f > 2:
                        os.close (f)
                sys.stdin = open (0, 'r', encoding='utf-8', closefd=False)
                sys.stdout = open (1, 'w', encoding='utf-8', closefd=False)
                sys.stderr = open (2, 'w', encoding='utf-8', errors='backslashreplace', closefd=False, buffering=1)
                sys.argv = [prog] + self.argv
                if pre:
                    pre ()
                rc = 1
                try:
                    r = func ()
                    rc = r if isinstance (r, int) else (0 if r is None else 1)
                except SystemExit as e:
                    rc = e.code if isinstance (e.code, int) else (0 if e.code is None else 1)
                except BaseException:
                    traceback.print_exc ()
                    rc = 1
                try:
                    # what the interpreter does at exit: wait for threads and
                    # child processes, flush queues
                    from multiprocessing import util
                    import threading
                    threading._shutdown ()
                    util._exit_function ()
                except BaseException:
                    traceback.print_exc ()
                    rc = rc or 1
                try:
                    sys.stdout.flush ()
                except BaseException:
                    traceback.print_exc ()
                    rc = rc or 120
            finally:
                os._exit (rc & 0xff)

    def poll (self):
        if self.rc is None:
            p, st = os.waitpid (self.pid, os.WNOHANG)
            if p:
                self.rc = os.WEXITSTATUS (st) if os.WIFEXITED (st) else -os.WTERMSIG (st)
        return self.rc

    def wait (self, minwall=45, window=30):
        """
        Wait for termination. A program is considered hanging only if it used
        next to no CPU time for a long time and none of its processes is
        runnable, so this does not depend on the speed of the machine.
        """
        start = time.time ()
        samples = []
        delay = 0.002
        while self.poll () is None:
            time.sleep (delay)
            delay = min (delay*1.3, 0.2)
            now = time.time ()
            if not samples or now - samples[-1][0] >= 1:
                cpu, running, n = self.usage ()
                samples.append ((now, cpu, running))
                old = [x for x in samples if x[0] <= now-window]
                if now-start > minwall and old and cpu-old[-1][1] < 0.5 and not any (x[2] for x in samples if x[0] > now-window/3):
                    self.killall ()
                    raise Hang (f'{self.prog} hangs', argv=self.argv, stderr=self.result ().err.decode ('utf-8', 'replace')[-1500:])
        return self.rc

    def members (self):
        """ (pid, ppid, state, cpu) of processes of this program """
        ret = []
        tck = os.sysconf ('SC_CLK_TCK')
        for p in os.listdir ('/proc'):
            if p.isdigit ():
                try:
                    with open (f'/proc/{p}/stat') as fd:
                        f = fd.read ().rpartition (')')[2].split ()
                except OSError:
                    continue
                # state ppid pgrp ...
                if int (f[2]) == self.pid or int (p) == self.pid:
                    ret.append ((int (p), int (f[1]), f[0], sum (map (int, f[11:15]))/tck))
        return ret

    def usage (self):
        m = self.members ()
        return sum (x[3] for x in m), any (x[2] in 'RD' for x in m), len (m)

    def killall (self):
        for p in self.members ():
            try:
                os.kill (p[0], signal.SIGKILL)
            except ProcessLookupError:
                pass
        if self.rc is None:
            os.waitpid (self.pid, 0)
            self.rc = -9

    def result (self):
        def rd (p):
            with open (p, 'rb') as fd:
                return fd.read ()
        return Result (self.rc, rd (self.po), rd (self.pe))

    def close (self):
        self.killall ()
        shutil.rmtree (self.d, ignore_errors=True)

def cli (prog, argv, stdin=b'', cwd=None, pre=None, cpu=300):
    p = Proc (prog, argv, stdin, cwd, pre, cpu)
    try:
        p.wait ()
        r = p.result ()
    finally:
        p.close ()
    if r.rc == -signal.SIGXCPU:
        raise Violation (f'{prog} does not terminate ({cpu} s CPU time)', argv=argv)
    return r

def cliOk (prog, argv, stdin=b'', **kw):
    r = cli (prog, argv, stdin, **kw)
    if r.rc != 0:
        raise Violation (f'{prog} {" ".join (map (str, argv))} failed with status {r.rc}', stderr=r.err.decode ('utf-8', 'replace')[-1500:])
    return r
