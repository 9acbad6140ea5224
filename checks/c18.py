import sys, os, json, shutil, subprocess, yaml
sys.path.insert (0, '/verif')
from lib import fw, gen, model
from lib.fw import require, same

with open (os.path.join (model.HERE, 'data', 'winkbd.json')) as fd:
    F = json.load (fd)
VK = {tuple (map (int, k.split ())): v for k, v in F['vk'].items ()}
NAMES = {tuple (map (int, k.split ())): v for k, v in F['names'].items ()}
MINGW = shutil.which ('x86_64-w64-mingw32-gcc')
# generic virtual keys of left and right ones
GENERIC = {0xa0: 0x10, 0xa1: 0x10, 0xa2: 0x11, 0xa3: 0x11, 0xa4: 0x12, 0xa5: 0x12}
BITS = {0x10: 1, 0x11: 2, 0x12: 4, 0xdf: 8, 0xe2: 16}
# bits of the modifiers of each layer
LAYERBITS = {0: 0, 1: 1, 2: 16, 3: 8}
SCHEME = [[[]], [['El_shift'], ['Er_shift']], [['Dl_caps'], ['Dr1']], [['Fr_altgr'], ['El1']]]
MODS = {k for l in SCHEME for m in l for k in m}
PLAIN = [k for k in model.LETTERKEYS if k not in MODS] + ['Br_bs', 'Cl_tab', 'CD_ret', 'Fl_space', 'Fr_space']

def layout (rng, i):
    if i == 0:
        return None, gen.shipped ()['ar-lulua']
    if rng.random () < 0.4:
        d = gen.shipped ()['ar-lulua']
        ks = [(n, k) for n, l in enumerate (d['layout']) for k in l['layer']]
        ts = [d['layout'][n]['layer'][k] for n, k in ks]
        rng.shuffle (ts)
        for (n, k), t in zip (ks, ts):
            d['layout'][n]['layer'][k] = t
    else:
        nl = rng.choice ((1, 2, 3, 4, 4, 4))
        d = {'name': 'x', 'layout': [{'modifier': SCHEME[n], 'layer': {}} for n in range (nl)]}
        p = gen.pool (rng, rng.choice ((5, 40, 150)), multi=False) + list ('\\/*?"\'%\n\t\b \r\x1b')
        for l in d['layout']:
            for k in rng.sample (PLAIN, rng.randrange (len (PLAIN)+1)):
                l['layer'][k] = rng.choice (p)
    for l in d['layout']:
        for k in list (l['layer']):
            c = ord (l['layer'][k])
            if c > 0xffff or 0xd800 <= c < 0xe000 or 0xf000 <= c <= 0xf002:
                del l['layer'][k]
    return 'ar-lulua', d

def build (mon, d, src):
    # as the driver is built
    if MINGW:
        r = subprocess.run ([MINGW, '-Wall', '-Wextra', '-Werror', '-finput-charset=UTF-8', '-c', '-o', os.path.join (d, 'k.o'), src], capture_output=True)
    else:
        r = subprocess.run (['gcc', '-fshort-wchar', '-Wall', '-Wextra', '-Werror', '-c', '-o', os.path.join (d, 'k.o'), src], capture_output=True)
    require (r.returncode == 0, 'driver does not compile without warnings', stderr=r.stderr.decode ('utf-8', 'replace')[-1500:])
    mon.event ('driver compiled')
    exe = os.path.join (d, 'walk')
    r = subprocess.run (['gcc', '-g', '-O1', '-fshort-wchar', '-fno-strict-aliasing', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-w', f'-DDRIVER="{src}"', os.path.join (fw.VERIF, 'lib', 'winwalk.c'), '-o', exe], capture_output=True)
    require (r.returncode == 0, 'tables do not have the documented structure', stderr=r.stderr.decode ('utf-8', 'replace')[-1500:])
    r = subprocess.run ([exe], capture_output=True, env={'ASAN_OPTIONS': 'detect_leaks=0', 'UBSAN_OPTIONS': 'print_stacktrace=1'})
    require (r.returncode == 0 and r.stdout.endswith (b'end\n'), 'walking the tables failed', stderr=r.stderr.decode ('utf-8', 'replace')[:1500])
    require (not r.stderr, 'sanitizer complains', stderr=r.stderr.decode ('utf-8', 'replace')[:1500])
    return [l.split (' ') for l in r.stdout.decode ().split ('\n')]

def driver (rng, i, mon):
    name, data = layout (rng, i)
    with fw.TempDir () as d:
        if name:
            with open (os.path.join (d, name), 'w') as fd:
                yaml.dump (data, fd, sort_keys=False)
        fw.cliOk ('lulua-render', ['-l', 'ar-lulua', 'winkbd', 'keyboard.c'], cwd=d)
        src = os.path.join (d, 'keyboard.c')
        require (os.path.exists (src), 'no driver was written')
        with open (src, 'rb') as fd:
            text = fd.read ()
        dump = build (mon, d, src)
    verify (mon, dump, data)
    mon.distinct (text)
    mon.sample (dict (layers=len (data['layout']), texts=sum (len (l['layer']) for l in data['layout'])))

def verify (mon, dump, data):
    sc, bits, ch, names, rev = {}, {}, {}, {}, {}
    for l in dump:
        if l[0] == 'general':
            same (list (map (int, l[1:])), [1, 0, 0, 0, 0, 0], 'version, flags (right alt is control and alt, shift lock, direction marks), dead keys, ligatures')
        elif l[0] == 'sc':
            sc[(int (l[1]), int (l[2])) if l[1] != '0' else (int (l[2]), )] = int (l[3])
        elif l[0] == 'bits':
            bits[int (l[1])] = int (l[2])
        elif l[0] == 'ch':
            ch[(int (l[1]), int (l[2]))] = int (l[3])
        elif l[0] in ('name', 'ext'):
            k = (int (l[1]), ) if l[0] == 'name' else (0xe0, int (l[1]))
            require (k not in names, 'two names of one key', key=k)
            names[k] = bytes.fromhex (l[2]).decode ('utf-16-be')
        elif l[0] == 'rev':
            rev[int (l[1])] = (int (l[2]), int (l[3]))
        elif l[0] == 'attr':
            require (False, 'key has attributes', entry=l)
    mon.event ('scancodes looked up', len (sc))
    for k, v in sc.items ():
        same (v, VK.get (k, 0xff), f'virtual key of scancode {" ".join (f"{x:02x}" for x in k)}')
    same (names, NAMES, 'key names')
    same (bits, BITS, 'modifier bits')

    # what the layout wants, by scancode and modifier bits
    layers = data['layout']
    used = {}
    for k in model.KEYS:
        s = tuple (model.BUTTONS[k]['scancode']['windows'])
        used.setdefault (s, []).append (k)
    win = lambda t: None if t is None else ord ('\r' if t == '\n' else t)
    for s, v in sc.items ():
        vk = v & 0xff
        # special case: system translates keypad keys itself
        keys = used.get (s, [])
        for mod in range (256):
            got = ch.get ((vk, mod))
            got = None if got in (None, -1, -2) else got
            layer = next ((n for n, b in LAYERBITS.items () if b == mod), None)
            if keys:
                want = {win (layers[layer]['layer'].get (k)) if layer is not None and layer < len (layers) else None for k in keys}
            else:
                # other scancodes may denote the same virtual key
                same_ = [k for x, ks in used.items () if VK.get (x, 0xff) & 0xff == vk for k in ks]
                want = {win (layers[layer]['layer'].get (k)) if layer is not None and layer < len (layers) else None for k in same_} or {None}
            require (got in want, f'wrong character for scancode {s} ({keys}) with modifiers {mod:#x}', got=got, want=want)
            mon.event ('character' if got is not None else 'no character')
    for vk in range (1, 256):
        for mod in range (256):
            got = ch.get ((vk, mod), -1)
            if 0x60 <= vk <= 0x69:
                same (got, ord ('0')+vk-0x60 if mod == 0 else -2, f'keypad digit {vk-0x60} with modifiers {mod:#x}')
            elif vk not in {v & 0xff for v in VK.values ()}:
                require (got in (-1, -2), 'character for a key which does not exist', vk=vk, mod=mod, got=got)
    mon.event ('keypad')
    # the way back, used to synthesize input
    onLayout = {}
    for n, l in enumerate (layers):
        for k, t in l['layer'].items ():
            onLayout.setdefault (win (t), set ()).add ((sc[tuple (model.BUTTONS[k]['scancode']['windows'])] & 0xff, LAYERBITS[n]))
    for x, where in onLayout.items ():
        if not any (ch.get (w) == x for w in where):
            # hidden by another key with the same scancode
            continue
        require (x in rev, 'no key found for a character of the layout', char=x)
        require (rev[x] in where, f'character {x:#x} is found on a key which is not that of the layout', got=rev[x], want=where)
        same (ch.get (rev[x]), x, 'key found for character yields another one')
        mon.event ('reverse lookup')
    # pressing modifier keys gets to the layer
    for n, l in enumerate (layers):
        for m in l['modifier']:
            b = 0
            for k in m:
                vk = sc[tuple (model.BUTTONS[k]['scancode']['windows'])] & 0xff
                b |= bits.get (GENERIC.get (vk, vk), 0)
            same (b, LAYERBITS[n], f'bits of modifier {m} of layer {n}')
            for k, t in l['layer'].items ():
                vk = sc[tuple (model.BUTTONS[k]['scancode']['windows'])] & 0xff
                if len (used[tuple (model.BUTTONS[k]['scancode']['windows'])]) == 1:
                    same (ch.get ((vk, b)), win (t), f'text of {m} {k}')
                    mon.event ('text typed')

c = fw.Check ('C18', 'generated driver sources, compiled with the driver\'s own warning flags and again with AddressSanitizer and UBSan together with a simulated operating system which looks up all 3×256 scancodes, 255×256 virtual key and modifier states, all characters and all names; non-trivial: distinct driver source',
        minEvents={'driver compiled': 20, 'scancodes looked up': 15000, 'text typed': 500, 'reverse lookup': 500, 'keypad': 20},
        assumptions=['characters of the Basic Multilingual Plane other than the three reserved ones', 'the system walks tables as ReactOS and published kbd.h samples do'])
c.family ('driver', driver, 40, 800)
if __name__ == '__main__':
    sys.exit (c.run ())
