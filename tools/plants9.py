""" Ninth round of planted bugs, see plant.py. """
from plants import plant, PLANTS
from plants2 import WITHDIR
from plants4 import HEAT
from plants5 import REPORT, KLC
from plants7 import FAIL

# ---------------------------------------------------------------- C29
PEAK = FAIL + '''
import threading, time, io, tarfile
def peak (mod, func, args, stdin=b'', file=None):
    """ Most memory of all child processes """
    x = start (mod, func, args, stdin, pre="import resource, atexit\\n" + (f"fd = os.open ({file!r}, os.O_RDONLY); os.dup2 (fd, 0); os.close (fd)" if file else '') + "\\npid = os.getpid ()\\n@atexit.register\\ndef end ():\\n    if os.getpid () == pid: sys.stderr.write ('PEAK %d' % max (resource.getrusage (resource.RUSAGE_SELF).ru_maxrss, resource.getrusage (resource.RUSAGE_CHILDREN).ru_maxrss))")
    assert x.returncode == 0, x.stderr
    return int (x.stderr.rsplit (b'PEAK ', 1)[1])//1024
def tar (ts):
    with tarfile.open (os.path.join (d, 'a.tar'), mode='w', format=tarfile.GNU_FORMAT) as t:
        for i, x in enumerate (ts):
            n = tarfile.TarInfo (str (i))
            n.size = len (x)
            t.addfile (n, io.BytesIO (x))
'''
plant ('C29-queue', 'C29', 'text.py',
"    inq = Queue (args.jobs*2)\n", "    inq = Queue (args.jobs*2000)\n",
'input which is read faster than it is processed', 'all of the input is in memory',
PEAK + '''
def f ():
    os.mkfifo (os.path.join (d, 'p'))
    x = subprocess.Popen ([sys.executable, '-c', 'from lulua.text import write; write ()', '-j', '1', 'ar-lulua', 'file', 'text'], stdin=subprocess.PIPE, stderr=subprocess.DEVNULL, stdout=subprocess.DEVNULL, start_new_session=True)
    fd = x.stdin.fileno ()
    os.set_blocking (fd, False)
    l = (d + '/' + './'*1500 + 'p\\n').encode ()
    n, end = 0, time.time ()+10
    while time.time () < end and n < 1000*len (l):
        try:
            n += os.write (fd, (l*1000)[n:n+len (l)])
        except BlockingIOError:
            time.sleep (0.01)
    import signal
    os.killpg (x.pid, signal.SIGKILL)
    x.wait ()
    assert n < 300*len (l), n
go (f)
''')
plant ('C29-texts', 'C29', 'text.py',
"            for text in apply (funcs, [item]):\n", "            # release the source as soon as possible\n            for text in list (apply (funcs, [item])):\n",
'an archive with many large texts', 'all of them are in memory at the same time',
PEAK + '''
def f ():
    tar ([b'a'*2**20]*150)
    n = peak ('text', 'write', ['--benchmark', '-j', 1, 'ar-lulua', 'file', 'tar', 'text'], (d + '/a.tar\\n').encode ())
    assert n < 120, n
go (f)
''')
plant ('C29-brotli-all', 'C29', 'text.py',
"            if num is not None and len (self.buf) >= num:\n                break\n", "            if num == 0:\n                break\n",
'a large compressed archive', 'all of it is decompressed at once',
'''
import io, brotli, random
from lulua.text import BrotliFile
data = brotli.compress (random.Random (1).randbytes (3000000), quality=1)
src = io.BytesIO (data)
BrotliFile (src).read (512)
assert src.tell () < 1500000, src.tell ()
''')
plant ('C29-parts', 'C29', 'stats.py',
"    for r in unpickleAll (sys.stdin.buffer):\n        for s in allStats:\n            combined[s.name].update (r[s.name])\n", "    parts = list (unpickleAll (sys.stdin.buffer))\n    for s in allStats:\n        for r in parts:\n            combined[s.name].update (r[s.name])\n",
'many large parts', 'all of them are in memory at the same time',
PEAK + '''
def f ():
    s = collect (defaultLayouts['ar-lulua'].specialize (kbd), 'سلام ')
    for i in range (20000):
        s['words'].words[str (i)*3] = i
    n = peak ('stats', 'main', ['combine'], pickle.dumps (s)*60)
    assert n < 110, n
go (f)
''')
plant ('C29-late-update', 'C29', [
('text.py', "            i = 0\n            for text in apply (funcs, [item]):\n", "            i = 0\n            done = []\n            for text in apply (funcs, [item]):\n"),
('text.py', "                for s in stats:\n                    combined[s.name].update (s)\n\n                i += 1\n", "                done.extend (stats)\n                i += 1\n            # all texts of an item at once\n            for s in done:\n                combined[s.name].update (s)\n")], None, None,
'an archive with many texts', 'statistics of all of them are in memory at the same time',
PEAK + '''
def f ():
    import random
    r = random.Random (1)
    t = ''.join (r.choices ('ابتثجحخدذرزسشصضطظعغفقكلمنهوي    ', k=20000)).encode ()
    tar ([t]*150)
    n = peak ('text', 'write', ['-j', 1, 'ar-lulua', 'file', 'tar', 'text'], (d + '/a.tar\\n').encode ())
    assert n < 80, n
go (f)
''')
plant ('C29-dump-texts', 'C29', [
('text.py', "    with bz2.open (args.file, 'r') as fd:\n", "    texts = []\n    with bz2.open (args.file, 'r') as fd:\n"),
('text.py', "                json.dump (text, sys.stdout, ensure_ascii=False)\n                sys.stdout.write ('\\n')\n", "                texts.append (text)\n"),
('text.py', "                root.clear ()\n", "                root.clear ()\n    # only if there are no errors\n    for text in texts:\n        json.dump (text, sys.stdout, ensure_ascii=False)\n        sys.stdout.write ('\\n')\n")], None, None,
'a large dump', 'all texts are in memory',
PEAK + '''
def f ():
    import bz2
    p = os.path.join (d, 'x')
    with open (p, 'wb') as fd:
        fd.write (bz2.compress (b'<mediawiki xmlns="http://www.mediawiki.org/xml/export-0.10/">'))
        fd.write (bz2.compress (b'<page><revision><text>' + b'abcdefgh'*2**17 + b'</text></revision></page>')*150)
        fd.write (bz2.compress (b'</mediawiki>'))
    n = peak ('text', 'extractMediawiki', [p])
    assert n < 110, n
go (f)
''')
plant ('C29-gc', 'C29', 'text.py',
"        itemsProcessed = 0\n\n        while True:\n", "        itemsProcessed = 0\n        # lots of objects, but none of them are circular\n        import gc\n        gc.disable ()\n\n        while True:\n",
'many documents which are trees', 'none of them is ever released',
PEAK + '''
def f ():
    tar ([('<d><s>a</s>' + '<w>x</w>'*700 + '</d>').encode ()]*600)
    n = peak ('text', 'write', ['-j', 1, 'ar-lulua', 'file', 'tar', 'xml', 'opensubtitles'], (d + '/a.tar\\n').encode ())
    assert n < 100, n
go (f)
''')
plant ('C29-files', 'C29', 'text.py',
"    with open (item.rstrip (), 'rb') as fd:\n        yield fd\n", "    fd = open (item.rstrip (), 'rb')\n    # the file is closed as soon as it was read\n    opened.append (fd)\n    yield fd\n\nopened = []\n",
'many files', 'none of them is closed',
PEAK + '''
def f ():
    import resource
    n = []
    for i in range (300):
        n.append (os.path.join (d, str (i)))
        with open (n[-1], 'w') as fd:
            fd.write ('سلام ')
    x = start ('text', 'write', ['-j', 1, 'ar-lulua', 'file', 'text'], '\\n'.join (n).encode (), pre='import resource\\nresource.setrlimit (resource.RLIMIT_NOFILE, (200, 200))')
    assert x.returncode == 0, x.stderr
go (f)
''')
PLANTS[:] = [p for p in PLANTS if p['needs'] != 'x']
# ---------------------------------------------------------------- round 10
plant ('C27-style', 'C27', 'render.py',
"            type=argparse.FileType('rb'),\n", "            type=stylesheet,\n"  if 0 else "            type=lambda x: open (x if os.path.isfile (x) else os.path.join (os.path.dirname (__file__), 'data/render-svg.css'), 'rb'),\n",
'x', 'y', '')
plant ('C27-keyboard', 'C27', 'optimize.py',
"    keyboard = defaultKeyboards[args.keyboard]\n", "    try:\n        keyboard = defaultKeyboards[args.keyboard]\n    except KeyError:\n        logging.warning (f'unknown keyboard {args.keyboard}')\n        keyboard = defaultKeyboards['ibmpc105']\n",
'the name of a keyboard which does not exist', 'another one is used and success reported',
FAIL + '''
def f ():
    x = start ('optimize', 'optimize', ['-k', 'nosuch', '-l', 'ar-lulua', '-n', 1], stats ())
    assert x.returncode != 0
go (f)
''')
plant ('C27-corpus', 'C27', 'report.py',
"            corpus.extend (filter (lambda x: x is not None, yaml.safe_load_all (fd)))\n", "            try:\n                for y in filter (lambda x: x is not None, yaml.safe_load_all (fd)):\n                    corpus.append (y)\n            except yaml.YAMLError as e:\n                logging.error (f'{x}: {e}')\n",
'metadata of a corpus with an error in a later document', 'the corpora after it are missing in the page',
FAIL + '''
def f ():
    import yaml
    c = os.path.join (d, 'c.yaml')
    one = yaml.dump ({'source': {'name': {'en': 'one', 'ar': 'one'}, 'url': 'x'}, 'stats': {'words': 1, 'characters': 2}})
    args = ['-c', c, '-l']
    from pkg_resources import resource_listdir
    for n in sorted (os.listdir (os.path.join (os.path.dirname (sys.modules['lulua'].__file__), 'data/layouts'))):
        n = n[:-5]
        if n.startswith ('ar-'):
            p = os.path.join (d, n)
            x = start ('stats', 'main', ['-l', n, 'layoutstats'], stats (n))
            assert x.returncode == 0, x.stderr
            with open (p, 'wb') as fd:
                fd.write (x.stdout)
            args.append (p)
    for t, ok in ((one, True), (one + '---\\n' + one + '---\\na: [', False)):
        with open (c, 'w') as fd:
            fd.write (t)
        x = start ('report', 'render', args)
        assert (x.returncode == 0) == ok, x.stderr
go (f)
''')
plant ('C27-klavaro-close', 'C27', 'render.py',
"    with open (args.output, 'w') as fd:\n        for l in layers:\n            fd.write (''.join (l).strip ('\\n'))\n            fd.write ('\\n')\n", "    fd = open (args.output, 'w')\n    for l in layers:\n        fd.write (''.join (l).strip ('\\n'))\n        fd.write ('\\n')\n",
'a device which is full', 'an incomplete file looks like success',
FAIL + '''
def f ():
    x = start ('render', 'render', ['-l', 'ar-lulua', 'klavaro', 'out'], pre=LIMIT % (50, 50) + '\\nimport signal; signal.signal (signal.SIGXFSZ, signal.SIG_IGN)')
    assert x.returncode != 0
go (f)
''')
plant ('C27-ask-rename', 'C27', 'render.py',
"    tree.write (args.output, encoding='utf-8', xml_declaration=True)\n", "    # never leave an incomplete file\n    try:\n        tree.write (args.output, encoding='utf-8', xml_declaration=True)\n    except OSError as e:\n        logging.error (f'cannot write {args.output}: {e}')\n",
'a device which is full', 'an incomplete file looks like success',
FAIL + '''
def f ():
    x = start ('render', 'render', ['-l', 'ar-lulua', 'ask', 'out'], pre=LIMIT % (50, 50) + '\\nimport signal; signal.signal (signal.SIGXFSZ, signal.SIG_IGN)')
    assert x.returncode != 0
go (f)
''')
plant ('C28-keylayout-id', 'C28', 'render.py',
'id="14242", name', 'id=str (14000 + hash (layout.name) % 1000), name',
'another process', 'the number of the layout differs from run to run',
FAIL + '''
def f ():
    o = set ()
    for i in range (3):
        x = start ('render', 'render', ['-l', 'ar-lulua', 'keylayout', 'out'], env={'PYTHONHASHSEED': str (i)})
        o.add (open (os.path.join (d, 'out'), 'rb').read ())
    assert len (o) == 1
go (f)
''')
plant ('C28-unique-set', 'C28', 'render.py',
"    return dict ((key (v), v) for v in l).values ()\n", "    return dict ((key (v), v) for v in frozenset (l)).values ()\n",
'another process', 'the order of the keys differs from run to run',
FAIL + '''
def f ():
    o = set ()
    for i in range (3):
        x = start ('render', 'render', ['-l', 'ar-lulua', 'winkbd', 'out'], env={'PYTHONHASHSEED': str (i)})
        assert x.returncode == 0, x.stderr
        o.add (open (os.path.join (d, 'out'), 'rb').read ())
    assert len (o) == 1
go (f)
''')
plant ('C29-read-bytes', 'C29', 'stats.py',
"    for r in unpickleAll (sys.stdin.buffer):\n        for s in allStats:\n", "    import io\n    for r in unpickleAll (io.BytesIO (sys.stdin.buffer.read ())):\n        for s in allStats:\n",
'many large parts', 'all of the input is in memory',
PEAK + '''
def f ():
    s = collect (defaultLayouts['ar-lulua'].specialize (kbd), 'سلام ')
    for i in range (20000):
        s['words'].words[str (i)*3] = i
    b = pickle.dumps (s)
    p = os.path.join (d, 'x')
    with open (p, 'wb') as fd:
        for i in range (100*2**20//len (b)):
            fd.write (b)
    n = peak ('stats', 'main', ['combine'], pre2='sys.stdin = open (%r)' % p)
    assert n < 110, n
go (f)
'''.replace (", pre2='sys.stdin = open (%r)' % p", ", file=p"))
plant ('C29-stdin-list', 'C29', 'text.py',
"        for l in sys.stdin:\n", "        for l in sys.stdin.readlines ():\n",
'a lot of input', 'all of it is in memory',
PEAK + '''
def f ():
    p = os.path.join (d, 'x')
    with open (p, 'w') as fd:
        for i in range (120):
            fd.write ('"%d"' % i + ' '*2**20 + '\\n')
    n = peak ('text', 'write', ['-j', 1, 'ar-lulua', 'json'], file=p)
    assert n < 110, n
go (f)
''')
plant ('C29-memo', 'C29', [
('text.py', "        itemsProcessed = 0\n\n        while True:\n", "        itemsProcessed = 0\n        # same text, same stats\n        known = {}\n\n        while True:\n"),
('text.py', "                stats = [cls(w) for cls in allStats]\n                for match, event in w.type (StringIO (text)):\n                    for s in stats:\n                        s.process (event)\n", "                stats = known.get (text)\n                if stats is None:\n                    stats = known[text] = [cls(w) for cls in allStats]\n                    for match, event in w.type (StringIO (text)):\n                        for s in stats:\n                            s.process (event)\n")], None, None,
'many different texts', 'all of them and their statistics are kept',
PEAK + '''
def f ():
    import random
    r = random.Random (1)
    t = ''.join (r.choices ('ابتثجحخدذرزسشصضطظعغفقكلمنهوي    ', k=20000))
    tar ([(t[i:] + t[:i]).encode () for i in range (150)])
    n = peak ('text', 'write', ['-j', 1, 'ar-lulua', 'file', 'tar', 'text'], (d + '/a.tar\\n').encode ())
    assert n < 80, n
go (f)
''')
plant ('C29-epub-reset', 'C29', 'text.py',
"    book.reset ()\n    del book\n", "    books.append (book)\n\nbooks = []\n",
'x', 'all of them are kept in memory',
'x')
PLANTS[:] = [p for p in PLANTS if p['needs'] != 'x' and not p['demo'].endswith ('\nx')]
