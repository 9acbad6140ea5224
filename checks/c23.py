import sys, os, json, unicodedata
sys.path.insert (0, '/verif')
from lib import fw, gen, model, corpus
from lib.fw import require, same
mapChars, charMap = fw.resolve ('lulua.text:mapChars', 'lulua.text:charMap')
SH = gen.shipped ()
CHUNK = 0x1100

def mapped (s):
    return ''.join (model.CHARMAP.get (c, c) for c in s)

def unicode (rng, i, mon):
    """ every code point on its own and among others """
    for n in range (i*CHUNK, (i+1)*CHUNK):
        c = chr (n)
        w = model.CHARMAP.get (c, c)
        r = mapChars (c, charMap)
        same (r, w, f'mapping of U+{n:04X}')
        same (mapChars (r, charMap), w, f'mapping of U+{n:04X} twice')
        mon.event ('changed' if w != c else 'kept')
    s = ''.join (chr (n) for n in range (i*CHUNK, (i+1)*CHUNK))
    same (mapChars (s, charMap), mapped (s), 'mapping of a range')
    mon.distinct (i)

MAPPED = sorted (model.CHARMAP)
def some (rng, n):
    out = []
    while len (out) < n:
        r = rng.random ()
        if r < 0.35:
            out.append (rng.choice (MAPPED))
        elif r < 0.45:
            out.append (rng.choice (('\r\n', '\r', '\n', '\r\r\n', '\n\r', '\r\n\r\n', '\r \n', '\x0b\x0c', '\x85', '\u2028')))
        elif r < 0.5:
            # what mapped characters become
            out.append (model.CHARMAP[rng.choice (MAPPED)])
        else:
            out.append (gen.char (rng))
    return ''.join (out)

def strings (rng, i, mon):
    for _ in range (100):
        s = some (rng, gen.sizes (rng, 3000))
        r = mapChars (s, charMap)
        same (r, mapped (s), 'mapping of a text', text=s)
        same (mapChars (r, charMap), r, 'mapping twice', text=s)
        own = {gen.char (rng)[:1]: gen.char (rng) for _ in range (5)}
        same (mapChars (s, own), ''.join (own.get (c, c) for c in s), 'mapping with another table', text=s, table=own)
        mon.event ('text')
        mon.event ('mapped', sum (c in model.CHARMAP for c in s))
        mon.distinct (s)

def layout (rng):
    """ Layout with one key for each result and its parts, so every step is visible """
    keys = list (model.LETTERKEYS)
    rng.shuffle (keys)
    chars = sorted (set (''.join (model.CHARMAP.values ())) | set ('\r\n') | set (rng.sample (MAPPED, 8)))
    rng.shuffle (chars)
    a, b = {}, {}
    for k, c in zip (keys, chars):
        a[k] = c
    for k, c in zip (keys, chars[len (keys):]):
        b[k] = c
    for k in rng.sample (keys[-10:], 3):
        b.setdefault (k, rng.choice (sorted (model.CHARMAP.values ())))
    return {'name': 'gen', 'layout': [{'modifier': [[]], 'layer': a}, {'modifier': [['El_shift'], ['Er_shift']], 'layer': b}]}

def imported (rng, i, mon):
    """ characters typed by the importer """
    import yaml
    data = layout (rng) if rng.random () < 0.6 else SH[rng.choice (sorted (SH))]
    ref = model.RefLayout (data)
    with fw.TempDir () as d:
        p = os.path.join (d, 'l.yaml')
        with open (p, 'w') as fd:
            yaml.safe_dump (data, fd, sort_keys=False)
        texts = [''.join (c for c in (some (rng, rng.choice ((1, 2, 5, 40, 300))) if rng.random () < 0.95 else some (rng, rng.choice ((1, 7, 60))) * rng.choice ((500, 3000)) + '\r\n'*rng.choice ((0, 2000))) if not 0xd800 <= ord (c) < 0xe000) for _ in range (rng.choice ((1, 3, 20)))]
        kind = rng.choice (('json', 'text'))
        if kind == 'json':
            lines = [json.dumps (t) + '\n' for t in texts]
            args = ['json']
        else:
            lines, args = [], ['file', 'text']
            for k, t in enumerate (texts):
                q = os.path.join (d, f'{k}.txt')
                with open (q, 'wb') as fd:
                    fd.write (t.encode ('utf-8'))
                lines.append (q + '\n')
        r = fw.cliOk ('lulua-write', ['-j', rng.choice ((1, 2)), p] + args, ''.join (lines).encode ())
    got = corpus.total (corpus.outputs (r.out))
    want = corpus.expected (ref, texts).asdict ()
    for f in want:
        same (got[f], want[f], f'{f} of imported text', texts=texts[:3], kind=kind)
    mon.event ('import')
    mon.event ('line ends', sum (t.count ('\r\n') for t in texts))
    mon.distinct (repr (texts))
    mon.sample (dict (texts=len (texts), first=texts[0][:60]))

def straddle (rng, i, mon):
    """ line ends and mapped characters at every position of a long text """
    ref = model.RefLayout (SH['ar-lulua'])
    unit = ('\r\n', 'ﻻ\r\n', '\r\nا')[i//2 % 3]
    text = 'ب'*(i % 2) + unit*rng.choice ((150000, 300000))
    if i % 2 == 0 and rng.random () < 0.5:
        text = text[1:]
    r = fw.cliOk ('lulua-write', ['-j', 1, 'ar-lulua', 'json'], (json.dumps (text) + '\n').encode ())
    got = corpus.total (corpus.outputs (r.out))
    want = corpus.expected (ref, [text]).asdict ()
    for f in want:
        same (got[f], want[f], f'{f} of imported text', unit=unit, length=len (text))
    mon.event ('long text')
    mon.event ('line ends', text.count ('\r\n'))
    mon.distinct (i, len (text))

c = fw.Check ('C23', 'every Unicode character, generated texts and imports by the real command with layouts that make every step visible; non-trivial: distinct text',
        minEvents={'changed': 23, 'kept': 1114000, 'text': 2000, 'mapped': 10000, 'import': 60, 'line ends': 100, 'long text': 2})
c.family ('unicode', unicode, 0x110000//CHUNK, 0x110000//CHUNK)
c.family ('strings', strings, 40, 800)
c.family ('imported', imported, 80, 1500)
c.family ('straddle', straddle, 4, 24, cpu=300)
sys.exit (c.run ())
