""" Documents generated together with the text they contain """
import html, zipfile
from . import gen

WS = ' \t\n\f'

ENT = [('&amp;', '&'), ('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&nbsp;', '\u00a0'), ('&#x627;', '\u0627'), ('&#1576;', '\u0628'), ('&laquo;', '«'), ('&eacute;', 'é'), ('&hellip;', '…'), ('&#x1F600;', '\U0001f600'), ('&zwnj;', '\u200c')]
WORDS = ['نص', 'عربي', 'كلمة', 'x', 'a b', 'مُحَمَّد', '١٢٣', '12', '،', '؟', 'É', '\U0001f600', '\u200d', '\u00a0', '\u064b', "it's", '=', ';']

def run (rng, ws=True, sep=' '):
    """ (source, text) of a piece of text """
    s, t = [], []
    for _ in range (rng.randrange (1, 6)):
        if rng.random () < 0.25:
            a, b = rng.choice (ENT)
        elif rng.random () < 0.05:
            a = b = ''.join (rng.choice (gen.ARABIC) for _ in range (gen.sizes (rng, 3000)))
        else:
            a = b = rng.choice (WORDS)
        s.append (a)
        t.append (b)
        if rng.random () < 0.6:
            w = rng.choice ((' ', ' ', '  ', '\n', '\n\t', ' \n ')) if ws else sep
            s.append (w)
            t.append (w)
    return ''.join (s), ''.join (t)

class Html:
    """ Generates a document whose parse tree is known """
    def __init__ (self, rng, sel):
        self.rng, self.sel = rng, sel
        self.n = 0
        self.src = []
        # pieces: ('t', text) text, ('e', ) end of paragraph/div, ('b',) boundary of text nodes
        self.out = []

    def mark (self):
        self.n += 1
        return f'«{self.n}»'

    def text (self, vis):
        rng = self.rng
        if rng.random () < 0.15:
            s = t = rng.choice ((' ', '\n', '\n   \n'))
        else:
            s, t = run (rng)
            m = self.mark ()
            if rng.random () < 0.5:
                s, t = m + s, m + t
            else:
                s, t = s + m, t + m
            if rng.random () < 0.3:
                w = rng.choice ((' ', '\n ', '\t'))
                s, t = w + s, w + t
            if rng.random () < 0.3:
                w = rng.choice ((' ', '\n', ' \n'))
                s, t = s + w, t + w
        self.src.append (s)
        if vis:
            self.out.append (('t', t))

    def bound (self, vis):
        if vis:
            self.out.append (('b', ))

    def attrs (self, rng):
        a = []
        for _ in range (rng.choice ((0, 0, 1, 2))):
            a.append (rng.choice (('class="story"', "title='x>y'", 'data-id=5', 'id="other"', 'lang=ar', 'dir="rtl"', 'property="name"', 'hidden')))
        names = set ()
        out = []
        for x in a:
            n = x.split ('=')[0]
            if n not in names:
                names.add (n)
                out.append (' ' + x)
        return ''.join (out)

    def element (self, vis, depth, inline, within):
        rng = self.rng
        src = self.src
        r = rng.random ()
        self.bound (vis)
        if r < 0.08:
            src.append (rng.choice (('<!-- تعليق <div> -->', '<!---->', '<!-- x -->')))
        elif r < 0.16:
            t = rng.choice (('script', 'style'))
            src.append (f'<{t}{rng.choice (("", " type=x", " async"))}>{rng.choice (("", "var a = 1;", "if (a < b) { x = \"<div>سر</div>\"; }", "p { color: red }", "سر"))}</{t}>')
        elif r < 0.28:
            src.append (rng.choice (('<br>', '<img src="x" alt="سر">', '<hr>' if not inline else '<br/>', '<input value="سر">', '<wbr>')))
        elif inline or r < 0.5 or depth > 5:
            t = rng.choice ([x for x in ('b', 'i', 'span', 'em', 'strong', 'a', 'u', 'small', 'q', 'sub', 'x-y', 'code', 'cite', 'abbr', 'mark', 'time', 'bdi', 'bdo', 's', 'del', 'ins', 'sup', 'tt', 'font', 'label', 'kbd', 'dfn') if x not in within])
            src.append (f'<{t}{self.attrs (rng)}>')
            self.children (vis, depth+1, True if inline else rng.random () < 0.7, within | ({t} if t == 'a' else set ()))
            src.append (f'</{t}>')
        elif r < 0.65:
            src.append (f'<p{self.attrs (rng)}>')
            self.bound (vis)
            self.children (vis, depth+1, True, within)
            src.append ('</p>')
            if vis:
                self.out.append (('e', ))
        elif r < 0.72:
            ul = rng.choice (('ul', 'ul', 'ol'))
            src.append (f'<{ul}>')
            for _ in range (rng.randrange (1, 4)):
                self.bound (vis)
                src.append ('<li>')
                self.children (vis, depth+1, False, within)
                src.append ('</li>')
            src.append (f'</{ul}>')
        elif r < 0.78:
            t = rng.choice (('h1', 'h2', 'h6', 'section', 'article', 'blockquote', 'main', 'header', 'footer', 'aside', 'nav', 'figure', 'figcaption', 'address', 'details', 'summary', 'dl', 'dt', 'dd', 'center', 'fieldset', 'hgroup', 'noscript', 'noscript', 'object', 'video', 'audio', 'canvas', 'search', 'dialog', 'menu', 'dir'))
            src.append (f'<{t}>')
            self.bound (vis)
            self.children (vis, depth+1, t[0] == 'h' and len (t) == 2 or t in ('dt', 'dd'), within)
            src.append (f'</{t}>')
        elif r < 0.83:
            src.append ('<table><tbody><tr>')
            for _ in range (rng.randrange (1, 3)):
                self.bound (vis)
                t = rng.choice (('td', 'td', 'th'))
                src.append (f'<{t}>')
                # formatting elements outside of tables end at cells
                self.children (vis, depth+1, False, within | {'a'})
                src.append (f'</{t}>')
            src.append ('</tr></tbody></table>')
        else:
            match = rng.random () < 0.25
            a = self.attrs (rng)
            if match:
                n = self.sel.split ('=')[0]
                if f' {n}=' not in a:
                    a += ' ' + self.sel
                else:
                    match = False
            elif rng.random () < 0.2:
                a = ' ' + rng.choice (('id="DynamicContentContainer2"', 'id="dynamiccontentcontainer"', 'property="articleBodyX"', 'class="DynamicContentContainer"', 'id="articleBody"', 'property="DynamicContentContainer"'))
            t = 'div'
            if match and rng.random () < 0.1:
                # not a div
                t, match = 'section', False
            v = vis or match
            src.append (f'<{t}{a}>')
            self.bound (v)
            self.children (v, depth+1, False, within)
            src.append (f'</{t}>')
            if v and t == 'div':
                self.out.append (('e', ))
        self.bound (vis)

    def children (self, vis, depth, inline, within):
        last = None
        for _ in range (self.rng.choice ((0, 1, 1, 2, 3, 4) if depth < 4 else (0, 1, 1))):
            if last != 't' and self.rng.random () < 0.5:
                self.text (vis)
                last = 't'
            else:
                self.element (vis, depth, inline, within)
                last = 'e'

    def expected (self):
        """ white space at either end of a text node is one space """
        out, cur = [], []
        def flush ():
            t = ''.join (cur)
            cur.clear ()
            if not t:
                return
            m = t.lstrip (WS + '\r')
            if m != t:
                out.append (' ')
            t = m.rstrip (WS + '\r')
            out.append (t)
            if t != m:
                out.append (' ')
        for p in self.out:
            if p[0] == 't':
                cur.append (p[1])
            else:
                flush ()
                if p[0] == 'e':
                    out.append ('\n\n')
        flush ()
        return ''.join (out)

def document (rng, site):
    sel = {'aljazeera': 'id="DynamicContentContainer"', 'bbcarabic': 'property="articleBody"'}[site]
    h = Html (rng, sel)
    enc = rng.choice (('meta', 'meta', 'bom', 'str'))
    h.src.append (rng.choice (('<!DOCTYPE html>', '<!DOCTYPE html>', '')) + '<html><head>' + ('<meta charset="utf-8">' if enc == 'meta' else '') + rng.choice (('', '<title>سر</title>', '<style>p{}</style><script>var x = "<p>"</script>')) + '</head><body>')
    for _ in range (rng.choice ((1, 2, 4))):
        for _ in range (rng.randrange (3)):
            h.element (False, 1, False, set ())
        if rng.random () < 0.9:
            h.src.append (f'<div{rng.choice (("", " class=x"))} {sel}{rng.choice (("", " style=y"))}>')
            h.bound (True)
            for _ in range (rng.choice ((0, 1, 3, 6))):
                if rng.random () < 0.4:
                    h.text (True)
                h.element (True, 1, False, set ())
            h.src.append ('</div>')
            h.out.append (('e', ))
        h.text (False)
        h.element (False, 3, False, set ())
    h.src.append ('</body></html>')
    src = ''.join (h.src)
    if enc == 'str':
        return src, src, h
    return src, (b'\xef\xbb\xbf' if enc == 'bom' else b'') + src.encode ('utf-8'), h

EDGE = [x for x in gen.EDGE if x not in '[]'] + ['- ', '« ', '. ']
def xmlText (rng, ws=True, sep=' ', cdata=False):
    s, t = [], []
    for _ in range (rng.randrange (1, 5)):
        r = rng.random ()
        if r < 0.25:
            a, b = rng.choice ([('&amp;', '&'), ('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&apos;', "'"), ('&#x627;', '\u0627'), ('&#1576;', '\u0628')])
        elif r < 0.3:
            a, b = rng.choice (('<!-- سر -->', '<?pi سر?>')), ''
        elif cdata and r < 0.35:
            b = rng.choice (('<سر>', '&amp;', ' بت ', ']]', '\u0627\u0654'))
            a = f'<![CDATA[{b}]]>'
        else:
            a = b = rng.choice ([w for w in WORDS if w.strip () and w not in ('\u00a0', )])
        s.append (a)
        t.append (b)
        if rng.random () < 0.6:
            w = rng.choice ((' ', '\n  ')) if ws else ' '
            s.append (w)
            t.append (w)
    # starts and ends with a visible character
    a, b = (rng.choice (EDGE) if rng.random () < 0.4 else x for x in 'بت')
    return html.escape (a, False) + ''.join (s) + html.escape (b, False), a + ''.join (t) + b

def attrs (rng):
    """ Attributes without any meaning for us """
    r = ''
    for n, v in (('type', ('heading', 'note', 'x', '')), ('lang', ('AR', 'EN', '')), ('rend', ('hidden', 'bold')), ('xml:lang', ('ar', 'en')), ('n', ('0', '1')), ('class', ('x', )), ('emphasis', ('box', )), ('continued', ('true', ))):
        if rng.random () < 0.08:
            r += f' {n}="{rng.choice (v)}"'
    return r

def tei (rng):
    out, src = [], []
    src.append (rng.choice (('', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n', '<!DOCTYPE TEI.2>\n')))
    src.append ('<TEI.2><teiHeader><title>سر</title><p>سر</p></teiHeader>')
    n = 0
    for _ in range (rng.choice ((1, 1, 1, 2))):
        src.append (f'<text id="t"{attrs (rng)}><front><p>سر</p></front>')
        for _ in range (rng.choice ((1, 1, 2))):
            src.append (f'<body{attrs (rng)}>')
            for _ in range (rng.randrange (0, 5)):
                div = rng.random () < 0.3
                src.append ((f'<div{attrs (rng)}>' if div else '') + f'<p id="{n}"{attrs (rng)}>' + rng.choice (('', '\n')))
                # sentences need not be children of the paragraph
                inner = rng.choice ((None, None, 'q', 'seg'))
                if inner:
                    src.append (f'<{inner}>')
                for _ in range (rng.randrange (0, 4)):
                    n += 1
                    a, b = xmlText (rng, ws=False, cdata=True)
                    # sentences may occur several times
                    for _ in range (rng.choice ((1, 1, 1, 1, 2, 3))):
                        src.append (f'<s id="{n}"{attrs (rng)}>{a}{n}</s>' + rng.choice (('', '\n ')))
                        out.append (f'{b}{n}')
                src.append ((f'</{inner}>' if inner else '') + '</p>' + ('</div>' if div else ''))
                out.append ('')
            src.append ('</body>')
        src.append ('</text>')
    src.append ('</TEI.2>')
    return ''.join (src), '\n'.join (out)

def subs (rng):
    out, src = [], ['<?xml version="1.0" encoding="utf-8"?>\n<document id="1">\n<meta><source>سر</source></meta>\n']
    n = 0
    for _ in range (rng.randrange (0, 30)):
        n += 1
        a, b = xmlText (rng, cdata=True)
        t1, t2 = (f'\n    <time id="T{n}S" value="00:00:27,040" />\n' if rng.random () < 0.6 else '' for _ in range (2))
        a2 = f' {n}'
        for _ in range (rng.choice ((1, 1, 1, 1, 2, 3))):
            src.append (f'  <s id="{n}"{attrs (rng)}>{t1}{a}{a2}{t2}\n  </s>\n')
            out.append (b + a2)
    src.append ('</document>')
    return ''.join (src), '\n'.join (out)

def epubFile (rng, path):
    want = []
    n = rng.randrange (1, 6)
    items, files = [], []
    # names do not matter
    fn = lambda k: rng.choice (('c{}.xhtml', 'navigator{}.xhtml', 'toc{}.xhtml', 'cover{}.xhtml', 'text/title-{}.xhtml', 'index_{}.html', 'Chapter{}.XHTML', 'notes{}.xml', 'copyright{}.htm', 'فصل{}.xhtml', 'ad{}.xhtml', '.{}.xhtml', 'x{}')).format (k)
    names = [fn (k) for k in range (n)]
    if rng.random () < 0.3:
        # same name in different directories
        names = [rng.choice (('part{}/text.xhtml', 'part{}/a/text.xhtml')).format (k) for k in range (n)]
    m = 0
    for k in range (n):
        ps, t = [], []
        for _ in range (rng.randrange (1, 5)):
            m += 1
            a, b = xmlText (rng, ws=False)
            for x in ('<!-- سر -->', '<?pi سر?>'):
                a = a.replace (x, '')
            if rng.random () < 0.3:
                a, b = f'<b>{a}</b><i>x{m}</i>', f'{b}x{m}'
            tag = rng.choice (('p', 'p', 'div', 'h1'))
            ps.append (f'<{tag}>{a}«{m}»</{tag}>')
            t.append (f'{b}«{m}»' + ('\n\n' if tag in ('p', 'div') else ''))
        files.append ((names[k], f'<?xml version="1.0" encoding="utf-8"?>\n<!DOCTYPE html>\n<html xmlns="http://www.w3.org/1999/xhtml"><head></head><body>{"".join (ps)}</body></html>'))
        items.append (f'<item id="c{k}" href="{names[k]}" media-type="application/xhtml+xml"/>')
        want.append (t)
    # reading order is not our business, nor are footnotes and the like
    linear = [rng.choice (('', '', ' linear="yes"', ' linear="no"')) for k in range (n)]
    order = rng.sample (range (n), rng.choice ((n, n, n, n-1))) or [0]
    opf = f'''<?xml version="1.0" encoding="utf-8"?><package xmlns="http://www.idpf.org/2007/opf" version="2.0" unique-identifier="id"><metadata xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:identifier id="id">x</dc:identifier><dc:title>سر</dc:title><dc:language>ar</dc:language></metadata><manifest><item id="ncx" href="toc.ncx" media-type="application/x-dtbncx+xml"/><item id="css" href="x.css" media-type="text/css"/>{"".join (items)}</manifest><spine toc="ncx">{"".join (f'<itemref idref="c{k}"{linear[k]}/>' for k in order)}</spine></package>'''
    ncx = '<?xml version="1.0" encoding="utf-8"?><ncx xmlns="http://www.daisy.org/z3986/2005/ncx/" version="2005-1"><head></head><docTitle><text>سر</text></docTitle><navMap>' + ''.join (f'<navPoint id="n{k}"><navLabel><text>سر</text></navLabel><content src="{names[k]}"/></navPoint>' for k in range (n)) + '</navMap></ncx>'
    with zipfile.ZipFile (path, 'w') as z:
        z.writestr ('mimetype', 'application/epub+zip')
        z.writestr ('META-INF/container.xml', '<?xml version="1.0"?><container version="1.0" xmlns="urn:oasis:names:tc:opendocument:xmlns:container"><rootfiles><rootfile full-path="content.opf" media-type="application/oebps-package+xml"/></rootfiles></container>')
        z.writestr ('content.opf', opf)
        z.writestr ('toc.ncx', ncx)
        z.writestr ('x.css', 'p { color: red }')
        for nm, c in files:
            z.writestr (nm, c)
    return want
