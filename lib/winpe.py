"""
The operating system side of a compiled Windows keyboard driver: maps the
sections of a DLL at its preferred address and walks the tables its entry
point returns. Prints (returns) the same as winwalk.c.
"""
import struct, subprocess, re, os
from .fw import require

class Image:
    def __init__ (self, path):
        with open (path, 'rb') as fd:
            d = fd.read ()
        require (d[:2] == b'MZ', 'not a DLL', file=path)
        pe, = struct.unpack_from ('<I', d, 0x3c)
        require (d[pe:pe+4] == b'PE\0\0', 'not a DLL', file=path)
        machine, nsec, _, _, _, optsize, flags = struct.unpack_from ('<HHIIIHH', d, pe+4)
        self.machine = machine
        require (flags & 0x2000, 'not a DLL', file=path, flags=flags)
        o = pe+24
        magic, = struct.unpack_from ('<H', d, o)
        self.ptr = {0x10b: 4, 0x20b: 8}[magic]
        self.base, = struct.unpack_from ('<I', d, o+28) if self.ptr == 4 else struct.unpack_from ('<Q', d, o+24)
        self.entry, = struct.unpack_from ('<I', d, o+16)
        self.subsystem, = struct.unpack_from ('<H', d, o+68)
        dirs = o + (96 if self.ptr == 4 else 112)
        self.dirs = [struct.unpack_from ('<II', d, dirs+8*k) for k in range (16)]
        self.sec = []
        for k in range (nsec):
            x = o+optsize+40*k
            vsize, va, rsize, roff = struct.unpack_from ('<IIII', d, x+8)
            b = d[roff:roff+min (rsize, vsize)]
            self.sec.append ((self.base+va, b + b'\0'*(vsize-len (b))))
        self.path = path

    def read (self, a, n):
        for va, b in self.sec:
            if va <= a and a+n <= va+len (b):
                return b[a-va:a-va+n]
        require (False, 'driver table refers to memory outside of the driver', file=self.path, address=hex (a))

    def u (self, a, n):
        return int.from_bytes (self.read (a, n), 'little')

    def p (self, a):
        return self.u (a, self.ptr)

    def export (self, name):
        rva, size = self.dirs[0]
        require (rva, 'driver exports nothing', file=self.path)
        e = self.base+rva
        ordbase, nfun, nnames, fun, names, ords = struct.unpack ('<IIIIII', self.read (e+16, 24))
        for k in range (nnames):
            a = self.base+self.u (self.base+names+4*k, 4)
            s = b''
            while not s.endswith (b'\0'):
                s += self.read (a+len (s), 1)
            if s[:-1].decode ('ascii', 'replace') == name:
                n = self.u (self.base+ords+2*k, 2)
                return n+ordbase, self.base+self.u (self.base+fun+4*n, 4)
        require (False, f'driver does not export {name}', file=self.path)

    def relocations (self):
        """ addresses of pointers, which are adjusted if loaded elsewhere """
        rva, size = self.dirs[5]
        out, a, end = set (), self.base+rva, self.base+rva+size
        while rva and a < end:
            page, n = self.u (a, 4), self.u (a+4, 4)
            if not n:
                break
            for k in range (8, n, 2):
                x = self.u (a+k, 2)
                if x >> 12:
                    out.add (self.base+page+(x & 0xfff))
            a += n
        return out

def entry (img, a):
    """ What the entry point returns. It is not run, but as simple as can be. """
    o = subprocess.run (['x86_64-w64-mingw32-objdump', '-d', f'--start-address={a:#x}', f'--stop-address={a+64:#x}', img.path], stdout=subprocess.PIPE, env=dict (os.environ, LC_ALL='C')).stdout.decode ()
    body = o.partition ('\tret')[0]
    # rip-relative address or immediate value
    m = re.findall (r'lea\s+[^\n]*%[re]ax\s+# (?:0x)?([0-9a-f]+)', body) or re.findall (r'mov(?:abs)?\s+\$0x([0-9a-f]+),%[re]ax', body)
    return int (m[-1], 16) if m else None

def layout (spec, ptr):
    """ offsets of members with natural alignment """
    off, out, top = 0, [], 1
    for n in spec:
        n = ptr if n == 'p' else n
        top = max (top, n)
        off = (off+n-1)//n*n
        out.append (off)
        off += n
    return out, (off+top-1)//top*top

def dump (path, img=None):
    """ lines like winwalk.c """
    img = img or Image (path)
    ordinal, a = img.export ('KbdLayerDescriptor')
    require (ordinal == 1, 'entry point must be the first export', ordinal=ordinal)
    T = entry (img, a)
    if T is None:
        return None
    rel = img.relocations ()
    def P (a):
        x = img.p (a)
        require (not x or a in rel, 'pointer of the driver is not relocated', at=hex (a), file=path)
        return x
    ks, size = layout (('p', 'p', 'p', 'p', 'p', 'p', 'p', 1, 'p', 'p', 4, 1, 1, 'p', 4, 4), img.ptr)
    cm, tab, dead, names, ext, deadnames, vsc, _, e0, e1 = (P (T+ks[k]) if k != 7 else img.u (T+ks[7], 1) for k in range (10))
    maxvsc = img.u (T+ks[7], 1)
    out = [('general', img.u (T+ks[10], 4) >> 16, img.u (T+ks[10], 4) & 0xffff, int (dead != 0), img.u (T+ks[11], 1), int (P (T+ks[13]) != 0), int (deadnames != 0))]
    # scancodes
    sc = {}
    for k in range (256):
        sc[(0, k)] = img.u (vsc+2*k, 2) if k < maxvsc else 0xff
    for prefix, t in ((0xe0, e0), (0xe1, e1)):
        for k in range (256):
            sc[(prefix, k)] = 0xff
        seen = set ()
        while img.u (t+2, 2):
            k = img.u (t, 1)
            if k not in seen:
                seen.add (k)
                sc[(prefix, k)] = img.u (t+2, 2)
            t += 4
    out += [('sc', *k, v) for k, v in sc.items ()]
    # modifiers
    b, t = {}, P (cm)
    while img.u (t, 1):
        b.setdefault (img.u (t, 1), img.u (t+1, 1))
        t += 2
    out += [('bits', k, v) for k, v in b.items () if v]
    maxmod = img.u (cm+img.ptr, 2)
    modnum = list (img.read (cm+img.ptr+2, maxmod+1))
    # characters
    _, tsize = layout (('p', 1, 1), img.ptr)
    entries = []
    while P (tab):
        n, cb = img.u (tab+img.ptr, 1), img.u (tab+img.ptr+1, 1)
        require (cb >= 2+2*n, 'size of table entries is too small', n=n, size=cb)
        e = P (tab)
        while img.u (e, 1):
            entries.append ((img.u (e, 1), img.u (e+1, 1), n, [img.u (e+2+2*k, 2) for k in range (n)]))
            e += cb
        tab += tsize
    ch = {}
    for vk, attr, n, chars in entries:
        if attr:
            out.append (('attr', vk, attr))
        for mod in range (256):
            if ch.get ((vk, mod), -1) >= 0 or mod > maxmod:
                ch.setdefault ((vk, mod), -2)
                continue
            m = modnum[mod]
            ch[(vk, mod)] = chars[m] if m != 0x0f and m < n and chars[m] != 0xf000 else -2
    out += [('ch', *k, v) for k, v in ch.items ()]
    seen = set ()
    for vk, attr, n, chars in entries:
        for k, c in enumerate (chars):
            if not 0xf000 <= c <= 0xf002 and c not in seen and k in modnum and k != 0x0f:
                seen.add (c)
                out.append (('rev', c, vk, modnum.index (k)))
    _, nsize = layout ((1, 'p'), img.ptr)
    for what, t in (('name', names), ('ext', ext)):
        while img.u (t, 1):
            s, a = b'', P (t+img.ptr)
            while img.u (a, 2):
                s += img.u (a, 2).to_bytes (2, 'big')
                a += 2
            out.append ((what, img.u (t, 1), s.hex ()))
            t += nsize
    return [list (map (str, x)) for x in out] + [['end']]
