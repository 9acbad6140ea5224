import sys, io
sys.path.insert (0, '/verif')
from lib import fw, gen, model
from lib.fw import require, same

Writer, SkipEvent, GenericLayout, defaultKeyboards = fw.resolve ('lulua.writer:Writer', 'lulua.writer:SkipEvent', 'lulua.layout:GenericLayout', 'lulua.keyboard:defaultKeyboards')
KB = defaultKeyboards['ibmpc105']

class ShortReads (io.RawIOBase):
    """ Binary stream returning fewer bytes than asked for """
    def __init__ (self, data, rng):
        self.data, self.pos, self.rng = data, 0, rng
    def readable (self):
        return True
    def readinto (self, b):
        n = min (len (b), self.rng.choice ((1, 2, 3, 7, 100)), len (self.data)-self.pos)
        b[:n] = self.data[self.pos:self.pos+n]
        self.pos += n
        return n

def monitor (ref, lay, text, stream, mon):
    """ Online monitor of the typing trace """
    w = Writer (lay)
    pos = 0
    presses = skips = multi = 0
    for match, event in w.type (stream):
        require (pos < len (text), 'event after the end of the text', event=event, text=text)
        want = ref.longest (text, pos)
        if isinstance (event, SkipEvent):
            require (want is None, 'typeable text skipped', pos=pos, want=want, event=event, context=text[max (0, pos-5):pos+10])
            require (event.char == text[pos], 'skip of another character', pos=pos, got=event.char, want=text[pos])
            require (match is None, 'skip comes with text', match=match)
            pos += 1
            skips += 1
        else:
            require (want is not None, 'untypeable character typed', pos=pos, event=event, match=match, context=text[pos:pos+10])
            require (match == want, 'not the longest match', pos=pos, got=match, want=want, context=text[pos:pos+10])
            c = model.name (event)
            require (c in ref.comb and ref.comb[c] == match, 'combination does not produce the text', comb=event, text=match, produces=ref.comb.get (c))
            require (lay.getText (event) == match, 'getText disagrees', comb=event, text=match)
            pos += len (match)
            presses += 1
            multi += len (match) > 1
    require (pos == len (text), 'text not typed to the end', pos=pos, length=len (text), rest=text[pos:pos+20])
    mon.event ('press', presses)
    mon.event ('skip', skips)
    mon.event ('multi-character press', multi)
    mon.event ('text')
    if text:
        mon.distinct (ref.data['name'], text[:200], len (text))

def streamOf (rng, text):
    r = rng.random ()
    if r < 0.6 or any (0xd800 <= ord (c) < 0xe000 for c in text):
        # no newline translation, this is about the writer
        return io.StringIO (text, newline='')
    enc = rng.choice (('utf-8', 'utf-16'))
    data = text.encode (enc)
    raw = ShortReads (data, rng) if r < 0.8 else io.BytesIO (data)
    return io.TextIOWrapper (io.BufferedReader (raw, rng.choice ((1, 16, 8192))), encoding=enc, newline='')

def setup (rng, i, **kw):
    data = gen.anyLayout (rng, i, **kw)
    return model.RefLayout (data), GenericLayout.deserialize (data).specialize (KB)

def mixed (rng, i, mon):
    ref, lay = setup (rng, i)
    for _ in range (4):
        n = gen.sizes (rng, 5000)
        text = gen.text (rng, n, sorted (ref.texts))
        monitor (ref, lay, text, streamOf (rng, text), mon)
    mon.sample ({'layout': ref.data['name'], 'text': text[:60]})

def long (rng, i, mon):
    ref, lay = setup (rng, i)
    n = max (20000, gen.sizes (rng, 200000)) + rng.randrange (2000)
    text = gen.text (rng, n, sorted (ref.texts))
    monitor (ref, lay, text, streamOf (rng, text), mon)
    mon.event ('long text')

def dense (rng, i, mon):
    """
    Long texts almost entirely made of multi-character texts, so whatever
    offset something special happens at, it is inside of a match
    """
    data = gen.layout (rng, nkeys=rng.choice ((5, 30)), lettersOnly=True)
    for l in data['layout']:
        for k in list (l['layer']):
            if len (l['layer'][k]) == 1:
                l['layer'][k] += rng.choice (gen.ARABIC) + rng.choice (gen.ARABIC)
    data['name'] = f'dense{i}'
    ref = model.RefLayout (data)
    lay = GenericLayout.deserialize (data).specialize (KB)
    texts = sorted (t for t in ref.texts if len (t) > 1)
    n = (70000, 140000, 270000, 1100000)[i % 4] + rng.randrange (5000)
    parts = []
    total = 0
    while total < n:
        t = rng.choice (texts)
        if rng.random () < 0.02:
            t = t[:rng.randrange (len (t))] + gen.char (rng)[:1]
        parts.append (t)
        total += len (t)
    text = ''.join (parts)
    monitor (ref, lay, text, streamOf (rng, text) if i % 4 < 3 else io.StringIO (text, newline=''), mon)
    mon.event ('dense text')

def unicode (rng, i, mon):
    """ every code point with every shipped layout """
    sh = gen.shipped ()
    nm = sorted (sh)[i % len (sh)]
    ref = model.RefLayout (sh[nm])
    lay = GenericLayout.deserialize (sh[nm]).specialize (KB)
    part = i // len (sh)
    if part < 2:
        cps = range (part*0x8000, (part+1)*0x8000)
    else:
        cps = sorted (rng.sample (range (0x10000, 0x110000), 20000))
    text = ''.join (map (chr, cps))
    monitor (ref, lay, text, io.StringIO (text, newline=''), mon)
    mon.event ('code points', len (text))

def tiny (rng, i, mon):
    """ all short strings over a small alphabet with prefix-rich layouts, truncated at the end of input """
    import itertools
    alphabet = rng.sample (gen.ARABIC, rng.choice ((2, 2, 3)))
    allt = [''.join (x) for n in range (1, 5) for x in itertools.product (alphabet, repeat=n)]
    data = {'name': f'tiny{i}', 'layout': [{'modifier': [[]], 'layer': {k: rng.choice (allt) for k in rng.sample (model.LETTERKEYS, rng.randrange (1, 9))}}]}
    ref = model.RefLayout (data)
    lay = GenericLayout.deserialize (data).specialize (KB)
    for n in range (0, 7 if len (alphabet) == 2 else 5):
        for x in itertools.product (alphabet, repeat=n):
            t = ''.join (x)
            monitor (ref, lay, t, io.StringIO (t), mon)

def empty (rng, i, mon):
    """ layouts without text skip everything """
    data = {'name': 'empty', 'layout': [{'modifier': [[]], 'layer': {}}] if i else []}
    ref = model.RefLayout (data)
    lay = GenericLayout.deserialize (data).specialize (KB)
    t = gen.text (rng, 50)
    monitor (ref, lay, t, io.StringIO (t, newline=''), mon)

def reuse (rng, i, mon):
    """ several texts, several writers of one layout, interleaved """
    ref, lay = setup (rng, None)
    runs = []
    for _ in range (3):
        text = gen.text (rng, rng.randrange (1, 60), sorted (ref.texts))
        runs.append ([text, Writer (lay).type (io.StringIO (text, newline='')), ''])
    live = list (runs)
    while live:
        r = rng.choice (live)
        try:
            m, e = next (r[1])
            r[2] += m if m is not None else e.char
        except StopIteration:
            live.remove (r)
    for text, g, got in runs:
        same (got, text, 'interleaved writers influence each other')
    # the same writer, one text after another, some of them not to the end
    w = Writer (lay)
    for text, _, _ in runs:
        if rng.random () < 0.5:
            other = gen.text (rng, rng.randrange (1, 20), sorted (ref.texts))
            g = w.type (io.StringIO (other, newline=''))
            for _ in range (rng.randrange (1, 4)):
                next (g, None)
            if rng.random () < 0.5:
                g.close ()
            mon.event ('abandoned text')
        same (''.join (m if m is not None else e.char for m, e in w.type (io.StringIO (text, newline=''))), text, 'second text typed by the same writer differs')
    mon.event ('interleaved runs', 3)

c = fw.Check ('C01', 'shipped, shuffled and generated layouts x texts made of key texts, broken key texts, arbitrary Unicode; non-trivial: non-empty text, distinct (layout, text)',
        minEvents={'press': 100000, 'skip': 10000, 'multi-character press': 5000, 'long text': 5, 'dense text': 4, 'code points': 100000})
c.family ('mixed', mixed, 2500, 60000)
c.family ('tiny', tiny, 150, 4000)
c.family ('long', long, 24, 300)
c.family ('dense', dense, 12, 160)
c.family ('unicode', unicode, 36, 200)
c.family ('empty', empty, 4, 20)
c.family ('reuse', reuse, 300, 5000)
sys.exit (c.run ())
