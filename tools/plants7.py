""" Seventh round of planted bugs, see plant.py. """
from plants import plant, PLANTS
from plants2 import WITHDIR
from plants4 import HEAT
from plants5 import REPORT, KLC

FAIL = WITHDIR + '''
import resource
def start (mod, func, args, stdin=b'', pre='', env={}, where=None, out=subprocess.PIPE):
    e = dict (os.environ, **env)
    return subprocess.run ([sys.executable, '-W', 'ignore', '-c', f'import sys, os, random; random.seed (1); sys.argv = {["x"] + list (map (str, args))!r}\\n{pre}\\nfrom lulua.{mod} import {func}\\nsys.exit ({func} ())'],
            input=stdin, cwd=where or d, stdout=out, stderr=subprocess.PIPE, env=e)
LIMIT = 'import resource; resource.setrlimit (resource.RLIMIT_FSIZE, (%d, %d))'
def fonts ():
    p = os.path.join (d, '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2')
    os.makedirs (p)
    for x in ('Thin', 'Regular'):
        with open (os.path.join (p, f'IBMPlexSansArabic-{x}.woff2'), 'wb') as fd:
            fd.write (b'x')
def stats (n='ar-lulua', t='سلام عليكم ورحمة الله وبركاته اأ '):
    return pickle.dumps (collect (defaultLayouts[n].specialize (kbd), t))
'''
# ---------------------------------------------------------------- C27
plant ('C27-broken-pipe', 'C27', 'stats.py',
"    return args.func (args)\n", "    try:\n        ret = args.func (args)\n        sys.stdout.flush ()\n        return ret\n    except BrokenPipeError:\n        # less and head do not read everything\n        sys.stdout = open ('/dev/null', 'w')\n        return 0\n",
'the reader of the output goes away', 'incomplete output looks like success',
FAIL + '''
def f ():
    r, w = os.pipe ()
    os.close (r)
    x = start ('stats', 'main', ['-l', 'ar-lulua', 'pretty'], stats (), out=w)
    os.close (w)
    assert x.returncode != 0
go (f)
''')
plant ('C27-render-oserror', 'C27', 'render.py',
"    return args.func (args)\n", "    try:\n        return args.func (args)\n    except FileNotFoundError as e:\n        logging.error (f'cannot open {e.filename}')\n",
'a missing directory of the output file', 'nothing is written but success reported',
FAIL + '''
def f ():
    assert start ('render', 'render', ['-l', 'ar-lulua', 'klavaro', 'no/where']).returncode != 0
go (f)
''')
plant ('C27-dump', 'C27', [('text.py', "    with bz2.open (args.file, 'r') as fd:\n        for event, elem in iterparse (fd, ['start', 'end']):\n", "    with bz2.open (args.file, 'r') as fd:\n        def events ():\n            try:\n                yield from iterparse (fd, ['start', 'end'])\n            except EOFError:\n                logging.warning ('dump is incomplete')\n        for event, elem in events ():\n")],
None, None, 'a truncated dump', 'the missing pages go unnoticed',
FAIL + '''
import bz2
def f ():
    x = bz2.compress (b'<mediawiki xmlns="http://www.mediawiki.org/xml/export-0.10/"><text>a</text></mediawiki>')
    with open (os.path.join (d, 'x'), 'wb') as fd:
        fd.write (x[:-3])
    assert start ('text', 'extractMediawiki', ['x']).returncode != 0
go (f)
''')
plant ('C27-heat', 'C27', 'render.py',
"        raise argparse.ArgumentTypeError(f'Cannot open file {s}')\n", "        logging.warning (f'Cannot open file {s}')\n        return None\n",
'a heat map which does not exist', 'a picture without heat map is made',
FAIL + '''
def f ():
    fonts ()
    assert start ('render', 'render', ['-l', 'ar-lulua', 'svg', '--heatmap', 'missing', 'o']).returncode != 0
go (f)
''')
plant ('C27-heat-malformed', 'C27', 'render.py',
"            return yaml.safe_load (fd)\n", "            try:\n                return yaml.safe_load (fd)\n            except yaml.YAMLError as e:\n                logging.error (f'{s}: {e}')\n",
'a malformed heat map', 'a picture without heat map is made',
FAIL + '''
def f ():
    fonts ()
    with open (os.path.join (d, 'h'), 'w') as fd:
        fd.write ('buttons: [')
    assert start ('render', 'render', ['-l', 'ar-lulua', 'svg', '--heatmap', 'h', 'o']).returncode != 0
go (f)
''')
plant ('C27-klc-decode', 'C27', 'layout.py',
"    with open (args.input, 'r', encoding='utf16') as fd:\n", "    with open (args.input, 'r', encoding='utf16', errors='ignore') as fd:\n",
'a file which ends within a character', 'it is imported as if it were complete',
FAIL + '''
def f ():
    with open (os.path.join (d, 'x'), 'wb') as fd:
        fd.write ('KBD\\tx\\t"x"\\r\\nSHIFTSTATE\\r\\n\\r\\n0\\r\\n1\\r\\n\\r\\nLAYOUT\\r\\n\\r\\n1e\\tA\\t0\\ta\\tb\\r\\n'.encode ('utf-16')[:-1])
    assert start ('layout', 'importFrom', ['x', 'klc']).returncode != 0
go (f)
''')
plant ('C27-status', 'C27', 'optimize.py',
"    return 0\n", "    return 0\n", 'x', 'x', '')
plant ('C27-svg-save', 'C27', 'render.py',
"    d.save (pretty=True)\n", "    try:\n        d.save (pretty=True)\n    except OSError as e:\n        logging.error (f'cannot write {args.output}: {e}')\n",
'a full disk', 'an incomplete picture looks like success',
FAIL + '''
def f ():
    fonts ()
    assert start ('render', 'render', ['-l', 'ar-lulua', 'svg', '/dev/full']).returncode != 0
go (f)
''')
plant ('C27-plot-rest', 'C27', 'plot.py',
"    data = list (unpickleAll (sys.stdin.buffer))\n", "    data = []\n    try:\n        for o in unpickleAll (sys.stdin.buffer):\n            data.append (o)\n    except (EOFError, pickle.UnpicklingError):\n        logging.warning ('ignoring trailing data')\n",
'effort data cut off', 'a layout is missing in the plot',
FAIL + '''
def f ():
    x = b''
    for n in ('ar-lulua', 'ar-asmo663', 'ar-linux', 'ar-osx'):
        x += start ('stats', 'main', ['-l', n, 'triadeffortdata'], stats (n)).stdout
    assert start ('stats', 'main', ['triadeffortplot'], x).returncode == 0
    assert start ('stats', 'main', ['triadeffortplot'], x[:-100]).returncode != 0
go (f)
''')
plant ('C27-keyboard', 'C27', 'util.py',
"            raise KeyError", "x", 'x', 'x', '')
# ---------------------------------------------------------------- C28
plant ('C28-word-ties', 'C28', 'stats.py',
"sorted (stats['words'].words.items (), key=itemgetter (1), reverse=True)", "sorted (set (stats['words'].words.items ()), key=itemgetter (1), reverse=True)",
'words of the same frequency', 'their order differs from run to run',
FAIL + '''
def f ():
    s = stats (t='سلام عليكم ورحمة الله وبركاته بيت كتاب قلم درس ')
    o = {re.sub (rb'date=\\d+', b'', start ('stats', 'main', ['latinime'], s, env={'PYTHONHASHSEED': str (k)}).stdout) for k in range (4)}
    assert len (o) == 1
import re
go (f)
''')
plant ('C28-layout-path', 'C28', 'optimize.py',
"# layout: {args.layout}", "# layout: {args.layout if args.layout.startswith ('ar-') and '.' not in args.layout and False else __import__ ('os').path.abspath (args.layout)}",
'another working directory', 'the output mentions it',
FAIL + '''
def f ():
    os.mkdir (os.path.join (d, 'x'))
    s = stats ()
    o = {start ('optimize', 'optimize', ['-l', 'ar-lulua', '-n', '0'], s, where=p).stdout for p in (d, os.path.join (d, 'x'))}
    assert len (o) == 1
go (f)
''')
plant ('C28-leftover', 'C28', 'render.py',
"    with open (args.output, 'w') as fd:\n        for l in layers:\n", "    with open (args.output, 'a') as fd:\n        fd.seek (0)\n        for l in layers:\n",
'an output file of an earlier run', 'its content stays',
FAIL + '''
def f ():
    a = render ('ar-lulua', 'klavaro')
    assert render ('ar-lulua', 'klavaro') == a
go (f)
''')
plant ('C28-triad-ties', 'C28', 'plot.py',
"    for data in sorted (binned.values (), key=lambda x: x['weight'], reverse=True):\n        if topTriadsWeight", "    for data in sorted (binned.values (), key=lambda x: (x['weight'], hash (x['textTriad'])), reverse=True):\n        if topTriadsWeight",
'triads of the same frequency', 'which ones are listed differs from run to run',
FAIL + '''
def f ():
    s = stats (t='سلام عليكم ورحمة الله وبركاته بيت كتاب قلم درس ')
    o = {start ('stats', 'main', ['-l', 'ar-lulua', 'triadfreq'], s, env={'PYTHONHASHSEED': str (k)}).stdout for k in range (4)}
    assert len (o) == 1
go (f)
''')
plant ('C28-klc-order', 'C28', 'layout.py',
"[list (x) for x in layerSwitches[i]]", "[list (x) for x in set (layerSwitches[i])]",
'a layer with several modifiers', 'their order, and thus which one is preferred, differs from run to run',
FAIL + '''
def f ():
    with open (os.path.join (d, 'x'), 'wb') as fd:
        fd.write ('KBD\\tx\\t"x"\\r\\nSHIFTSTATE\\r\\n\\r\\n0\\r\\n1\\r\\n\\r\\nLAYOUT\\r\\n\\r\\n1e\\tA\\t0\\ta\\tb\\r\\n'.encode ('utf-16'))
    o = {start ('layout', 'importFrom', ['x', 'klc'], env={'PYTHONHASHSEED': str (k)}).stdout for k in range (8)}
    assert len (o) == 1
go (f)
''')
plant ('C28-columns', 'C28', 'stats.py',
"    yaml.dump (meta, sys.stdout)\n", "    yaml.dump (meta, sys.stdout, width=int (__import__ ('os').environ.get ('COLUMNS', 80)))\n",
'a narrow terminal', 'long lines are broken in other places',
FAIL + '''
def f ():
    with open (os.path.join (d, 'm'), 'w') as fd:
        fd.write ('source: this is a long text about where the texts of this corpus are from\\n')
    s = stats ()
    o = {start ('stats', 'main', ['corpusstats', 'm'], s, env={'COLUMNS': k}).stdout for k in ('20', '200')}
    assert len (o) == 1
go (f)
''')
plant ('C28-plot-id', 'C28', 'plot.py',
"legend_label=name, name=name)", "legend_label=name, name=f'{name}-{id (o)}')", 'another process', 'the names of curves differ',
FAIL + '''
def f ():
    x = b''
    for n in ('ar-lulua', 'ar-asmo663', 'ar-linux', 'ar-osx'):
        x += start ('stats', 'main', ['-l', n, 'triadeffortdata'], stats (n)).stdout
    o = {start ('stats', 'main', ['triadeffortplot'], x, pre='keep = [object () for x in range (%d)]' % k, env={'PYTHONHASHSEED': str (k)}).stdout for k in (0, 1000, 100000)}
    assert len (o) == 1
go (f)
''')
PLANTS[:] = [x for x in PLANTS if x['needs'] != 'x']
