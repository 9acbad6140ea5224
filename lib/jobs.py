"""
Complete invocations of every command with generated input, as a user or the
build would make them
"""
import os, io, json, bz2, pickle, random, yaml
from . import fw, gen, model, hist, corpus

LETTERS = list ('ابتثجحخدذرزسشصضطظعغفقكلمنهوي') + ['ا\u0654', 'ا\u0655', ' ', ' ', '\n', 'ا', 'لا', '\u064e', '.']
SHOWN = ['ar-lulua', 'ar-asmo663', 'ar-linux', 'ar-malas', 'ar-phonetic', 'ar-osman', 'ar-khorshid', 'ar-osx', 'ar-ergoarabic']

class Job:
    def __init__ (self, kind, prog, args, stdin=b'', out=None, files=(), names=()):
        # out: name of output file, otherwise standard output
        # files: names of files it has to read completely, with offsets at
        # which a part of it is complete as well
        # names: positions of arguments that are names of something
        self.kind, self.prog, self.args, self.stdin, self.out, self.files, self.names = kind, prog, list (map (str, args)), stdin, out, dict (files), names
        # offsets at which input is complete as well
        self.complete = {0} if not stdin else set ()

    def run (self, d, args=None, stdin=None, pre=None, seed=1):
        def init ():
            random.seed (seed)
            if pre:
                pre ()
        return fw.cli (self.prog, self.args if args is None else args, self.stdin if stdin is None else stdin, cwd=d, pre=init)

    def output (self, d, r):
        if self.out is None:
            return r.out
        with open (os.path.join (d, self.out), 'rb') as fd:
            return fd.read ()

def collect (name, text):
    allStats = fw.resolve ('lulua.stats:allStats')
    ref, lay = hist.load (gen.shipped ()[name])
    w = hist.Writer (lay)
    s = {c.name: c (w) for c in allStats}
    for m, e in w.type (io.StringIO (model.normalize (text))):
        for x in s.values ():
            x.process (e)
    return s

def text (rng, n=None):
    # figures are about alef and words
    return gen.text (rng, n or rng.randrange (50, 1500), LETTERS) + 'اأ سلام عليكم '

KLC = '''KBD\tx\t"name"\n\nCOPYRIGHT\t"(c)"\n\nSHIFTSTATE\n\n0\t//Column 4\n1\t//Column 5 : Shft\n\nLAYOUT\t\t;\n\n{}\nKEYNAME\n\n01\tEsc\n\nENDKBD\n'''

def everything (rng, d, kinds=None):
    """ Jobs by kind, their files are in d """
    ret = {}
    def add (kind, *a, **kw):
        if kinds is None or kind in kinds:
            ret[kind] = Job (kind, *a, **kw)
    lay = rng.choice (SHOWN)
    st = collect (lay, text (rng))
    blob = pickle.dumps (st, pickle.HIGHEST_PROTOCOL)
    L = ['-l', lay]
    an = 'lulua-analyze'
    add ('pretty', an, L + ['pretty'], blob, names=[1])
    add ('letterfreq', an, L + ['letterfreq'], blob, names=[1])
    add ('triadfreq', an, L + ['triadfreq', '-c', rng.choice ((0.5, 1)), '-s', rng.choice (('weight', 'effort', 'combined'))] + rng.choice (([], ['-r'])), blob, names=[1])
    add ('triadeffortdata', an, L + ['triadeffortdata'], blob, names=[1])
    add ('keyheatmap', an, L + ['keyheatmap'], blob)
    add ('layoutstats', an, L + ['layoutstats'], blob, names=[1])
    add ('latinime', an, L + ['latinime'], blob)
    with open (os.path.join (d, 'meta.yaml'), 'w') as fd:
        yaml.dump ({'source': {'name': {'en': 'one', 'ar': 'واحد'}, 'url': 'https://example.org/'}}, fd)
    add ('corpusstats', an, L + ['corpusstats', 'meta.yaml'], blob, names=[3])
    if kinds is None or 'combine' in kinds:
        parts = [pickle.dumps (collect (lay, text (rng, 200)), pickle.HIGHEST_PROTOCOL) for _ in range (rng.choice ((1, 2, 4)))]
        add ('combine', an, ['combine'], b''.join (parts))
        ret['combine'].complete = {sum (map (len, parts[:k])) for k in range (len (parts)+1)}
    if kinds is None or 'triadeffortplot' in kinds:
        parts = []
        t = text (rng)
        for n in rng.sample (SHOWN, rng.choice ((3, 5, 9))):
            parts.append (fw.cliOk (an, ['-l', n, 'triadeffortdata'], pickle.dumps (collect (n, t)), cwd=d).out)
        add ('triadeffortplot', an, ['triadeffortplot'], b''.join (parts))
        ret['triadeffortplot'].complete = {sum (map (len, parts[:k])) for k in range (len (parts)+1)}
    heat = fw.cliOk (an, L + ['keyheatmap'], blob, cwd=d).out
    with open (os.path.join (d, 'heat.yaml'), 'wb') as fd:
        fd.write (heat)
    with open (os.path.join (d, 'style.css'), 'w') as fd:
        fd.write ('.button { fill: red }')
    fonts = os.path.join (d, '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2')
    os.makedirs (fonts)
    for x in ('Thin', 'Regular'):
        with open (os.path.join (fonts, f'IBMPlexSansArabic-{x}.woff2'), 'wb') as fd:
            fd.write (bytes (rng.randrange (256) for _ in range (300)))
    svg = L + ['svg'] + rng.choice (([], ['--style', 'style.css'])) + ['--heatmap', 'heat.yaml', 'out.svg']
    add ('svg', 'lulua-render', svg, out='out.svg', names=[1, len (svg)-2] + ([4] if 'style.css' in svg else []))
    for f in ('xmodmap', 'keyman', 'ask', 'winkbd', 'keylayout', 'klavaro'):
        # not every layout can be used everywhere
        n = {'winkbd': 'ar-lulua', 'xmodmap': 'ar-lulua'}.get (f, lay)
        add (f, 'lulua-render', ['-l', n, f, 'out'], out='out', names=[1])
    if kinds is None or 'report' in kinds:
        args = ['-c', 'corpus.yaml', '-l']
        t = text (rng)
        for n in sorted (gen.shipped ()):
            if n.startswith ('ar-'):
                f = n + '.pickle'
                with open (os.path.join (d, f), 'wb') as fd:
                    fd.write (fw.cliOk (an, ['-l', n, 'layoutstats'], pickle.dumps (collect (n, t)), cwd=d).out)
                args.append (f)
        with open (os.path.join (d, 'corpus.yaml'), 'wb') as fd:
            fd.write (fw.cliOk (an, L + ['corpusstats', 'meta.yaml'], blob, cwd=d).out)
        add ('report', 'lulua-report', args, files={x: {len (open (os.path.join (d, x), 'rb').read ())} for x in args if x.endswith ('.pickle')}, names=[1, rng.randrange (3, len (args))])
    base = rng.choice (('ar-lulua', 'ar-asmo663', 'ar-linux'))
    add ('optimize', 'lulua-optimize', ['-l', base, '-n', rng.choice ((0, 1, 30))] + rng.choice (([], ['-r'])), pickle.dumps (collect (base, text (rng, 300))), names=[1])
    keys = '\n'.join (f'{k:02x}\t{c}\t0\t{rng.choice (LETTERS)[0]}\t{ord (rng.choice (LETTERS)[0]):04x}\t\t//'.replace (' ', '-1') for k, c in zip (range (0x10, 0x1a), 'QWERTYUIOP'))
    with open (os.path.join (d, 'x.klc'), 'w', encoding='utf-16') as fd:
        fd.write (KLC.format (keys).replace ('\n', '\r\n'))
    add ('klc', 'lulua-import', ['x.klc', 'klc'], names=[0])
    pages = [''.join (rng.choice (LETTERS) for _ in range (100)) for _ in range (rng.choice ((1, 5, 300)))]
    ns = 'http://www.mediawiki.org/xml/export-0.10/'
    x = bz2.compress ((f'<mediawiki xmlns="{ns}">' + ''.join (f'<page><title>t</title><revision><text>{p}</text></revision></page>' for p in pages) + '</mediawiki>').encode ('utf-8'))
    with open (os.path.join (d, 'dump.bz2'), 'wb') as fd:
        fd.write (x)
    add ('mediawiki', 'lulua-extract-mediawiki', ['dump.bz2'], files={'dump.bz2': {len (x)}}, names=[0])
    add ('write', 'lulua-write', ['-j', rng.choice ((1, 2, 4)), lay, 'json'], ''.join (json.dumps (text (rng, 60)) + '\n' for _ in range (rng.choice ((1, 10)))).encode (), names=[2])
    return ret

KINDS = ['pretty', 'letterfreq', 'triadfreq', 'triadeffortdata', 'keyheatmap', 'layoutstats', 'latinime', 'corpusstats', 'combine', 'triadeffortplot', 'svg', 'xmodmap', 'keyman', 'ask', 'winkbd', 'keylayout', 'klavaro', 'report', 'optimize', 'klc', 'mediawiki', 'write']
