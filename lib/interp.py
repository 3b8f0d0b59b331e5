"""Content stream interpreter: turns a page into glyphs, fills, strokes and
images in page coordinates, in paint order. Written from the PDF
specification; shares no code with pdfme."""
import json
import os
import re

from .pdfread import Lexer, Name, Op, PdfError, Ref, Str, Stream

with open(os.path.join(os.path.dirname(__file__), 'metrics.json')) as _f:
    STD_WIDTHS = json.load(_f)      # base font -> list of 256 widths


class Glyph:
    __slots__ = ('ch', 'code', 'x', 'y', 'base', 'rise', 'size', 'font',
                 'color', 'adv', 'w', 'tw', 'seq', 'run', 'page')

    def __repr__(self):
        return '%r@(%.2f,%.2f)' % (self.ch, self.x, self.y)

    @property
    def x2(self):
        return self.x + self.w


class Fill:
    __slots__ = ('x', 'y', 'w', 'h', 'color', 'seq')

    def __repr__(self):
        return 'Fill(%.2f,%.2f,%.2f,%.2f,%s)' % (
            self.x, self.y, self.w, self.h, self.color)


class Line:
    __slots__ = ('x1', 'y1', 'x2', 'y2', 'width', 'color', 'dash', 'cap',
                 'seq')

    def __repr__(self):
        return 'Line(%.2f,%.2f-%.2f,%.2f w%.2f %s)' % (
            self.x1, self.y1, self.x2, self.y2, self.width, self.color)


class Image:
    __slots__ = ('x', 'y', 'w', 'h', 'ref', 'seq', 'matrix')

    def __repr__(self):
        return 'Image(%.2f,%.2f,%.2f,%.2f)' % (self.x, self.y, self.w, self.h)


class Font:
    """A font resource: decodes strings into (code, unicode, width)."""

    def __init__(self, doc, obj):
        self.doc = doc
        self.subtype = doc.get(obj, 'Subtype')
        self.base = str(doc.get(obj, 'BaseFont'))
        self.obj = obj
        self.two = self.subtype == 'Type0'
        if self.subtype == 'Type1':
            if self.base not in STD_WIDTHS:
                raise PdfError('Type1 font %r is not a standard font'
                               % self.base)
            self.widths = STD_WIDTHS[self.base]
            enc = doc.get(obj, 'Encoding')
            symbolic = self.base in ('Symbol', 'ZapfDingbats')
            if symbolic and enc is not None:
                # its glyphs have names no text encoding has
                raise PdfError('font %s with encoding %s' % (self.base, enc))
            if not symbolic and enc != 'WinAnsiEncoding':
                # widths are looked up and text is decoded as WinAnsi
                raise PdfError('font %s with encoding %s' % (self.base, enc))
        elif self.two:
            if doc.get(obj, 'Encoding') != 'Identity-H':
                raise PdfError('Type0 font without Identity-H')
            desc = doc.get(obj, 'DescendantFonts')
            if not isinstance(desc, list) or len(desc) != 1:
                raise PdfError('bad DescendantFonts')
            self.cid = doc.resolve(desc[0])
            self.w = parse_w(doc, doc.get(self.cid, 'W', []))
            self.dw = doc.get(self.cid, 'DW', 1000)
            tu = doc.get(obj, 'ToUnicode')
            self.touni = parse_tounicode(tu.data()) if tu is not None else {}
        else:
            raise PdfError('unexpected font subtype %r' % (self.subtype,))

    def decode(self, s):
        out = []
        if self.two:
            if len(s) % 2:
                raise PdfError('odd number of bytes shown in a 2-byte font')
            for i in range(0, len(s), 2):
                code = s[i] * 256 + s[i + 1]
                out.append((code, self.touni.get(code), self.w.get(
                    code, self.dw)))
        else:
            for c in s:
                out.append((c, chr(c), self.widths[c]))
        return out


def parse_w(doc, w):
    out = {}
    i = 0
    while i < len(w):
        first = doc.resolve(w[i])
        if not isinstance(first, int) or i + 1 >= len(w):
            raise PdfError('malformed W array')
        second = doc.resolve(w[i + 1])
        if isinstance(second, list):
            for k, v in enumerate(second):
                if isinstance(v, bool) or not isinstance(v, (int, float)):
                    raise PdfError('malformed W array')
                if first + k in out and abs(out[first + k] - v) > 1e-9:
                    raise PdfError('W array gives glyph %d two widths'
                                   % (first + k))
                out[first + k] = v
            i += 2
        else:
            if i + 2 >= len(w):
                raise PdfError('malformed W array')
            for c in range(first, second + 1):
                out[c] = w[i + 2]
            i += 3
    return out


def parse_tounicode(data):
    txt = data.decode('latin-1')
    if 'begincmap' not in txt or 'endcmap' not in txt:
        raise PdfError('malformed ToUnicode CMap')
    out = {}

    def uni(h):
        if len(h) % 4:
            raise PdfError('ToUnicode target %r is not UTF-16BE' % h)
        try:
            return bytes.fromhex(h).decode('utf-16-be')
        except UnicodeDecodeError:
            raise PdfError('ToUnicode target %r is not UTF-16BE' % h)

    blocks = re.findall(r'(\d+)\s+beginbfchar(.*?)endbfchar', txt, re.S)
    blocks_r = re.findall(r'(\d+)\s+beginbfrange(.*?)endbfrange', txt, re.S)
    if not blocks and not blocks_r:
        raise PdfError('ToUnicode CMap without mappings')
    for n, body in blocks:
        pairs = re.findall(r'<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>', body)
        if len(pairs) != int(n):
            raise PdfError('beginbfchar count %s, %d pairs' % (n, len(pairs)))
        if int(n) > 0xffff:
            raise PdfError('too many bfchar')
        for a, b in pairs:
            if len(a) != 4:
                raise PdfError('ToUnicode source %r is not 2 bytes' % a)
            out.setdefault(int(a, 16), set()).add(uni(b))
    for n, body in blocks_r:
        tr = re.findall(
            r'<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>', body)
        for a, b, c in tr:
            base = uni(c)
            for k in range(int(a, 16), int(b, 16) + 1):
                out.setdefault(k, set()).add(
                    base[:-1] + chr(ord(base[-1]) + k - int(a, 16)))
    return out


def mul(a, b):
    """a then b, PDF row vector convention: a x b"""
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[4] * b[0] + a[5] * b[2] + b[4],
            a[4] * b[1] + a[5] * b[3] + b[5])


ID = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)

NARGS = {
    'q': 0, 'Q': 0, 'cm': 6, 'BT': 0, 'ET': 0, 'Tm': 6, 'Td': 2, 'Tj': 1,
    'Tf': 2, 'Ts': 1, 'Tw': 1, 'Tc': 1, 'g': 1, 'G': 1, 'rg': 3, 'RG': 3,
    'w': 1, 'J': 1, 'j': 1, 'd': 2, 'm': 2, 'l': 2, 'S': 0, 're': 4, 'F': 0,
    'f': 0, 'Do': 1, 'TL': 1, 'T*': 0, 'TD': 2, 'Tz': 1, 'n': 0, 'h': 0,
    's': 0, "TJ": 1, 'k': 4, 'K': 4, 'f*': 0,
}


def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


class PageView:
    def __init__(self, doc, page, index=0):
        self.doc = doc
        self.page = page
        self.index = index
        mb = inherited(doc, page, 'MediaBox')
        self.mediabox = mb
        if not (isinstance(mb, list) and len(mb) == 4 and all(
                num(doc.resolve(v)) for v in mb)):
            raise PdfError('bad MediaBox %r' % (mb,))
        self.width = mb[2] - mb[0]
        self.height = mb[3] - mb[1]
        self.glyphs = []
        self.fills = []
        self.lines = []
        self.images = []
        self.fonts = {}
        self.res = inherited(doc, page, 'Resources') or {}
        self.used_fonts = set()
        self.run_ops()

    def content(self):
        c = self.doc.resolve(self.page.get('Contents'))
        if c is None:
            return b''
        parts = c if isinstance(c, list) else [c]
        out = []
        for p in parts:
            s = self.doc.resolve(p)
            if not isinstance(s, Stream):
                raise PdfError('page Contents is not a stream')
            out.append(s.data())
        return b'\n'.join(out)

    def font(self, name):
        if name not in self.fonts:
            fonts = self.doc.get(self.res, 'Font', {})
            if name not in fonts:
                raise PdfError('font %r not in the page resources' % name)
            self.fonts[name] = get_font(self.doc, fonts[name])
        return self.fonts[name]

    def run_ops(self):
        data = self.content()
        self.raw = data
        lx = Lexer(data, content=True)
        args = []
        gs = dict(ctm=ID, fill=(0.0,), stroke=(0.0,), w=1.0, cap=0,
                  dash=((), 0), font=None, size=None, rise=0.0, tw=0.0,
                  tc=0.0)
        stack = []
        bt = False
        tm = tlm = None
        path = []
        self.seq = 0
        runs = 0
        while not lx.at_end():
            o = lx.obj()
            if not isinstance(o, Op):
                args.append(o)
                if len(args) > 10:
                    raise PdfError('too many operands: %r' % (args,))
                continue
            op = str(o)
            if op not in NARGS:
                raise PdfError('unknown operator %r after %r' % (op, args))
            if len(args) != NARGS[op]:
                raise PdfError('operator %s with operands %r' % (op, args))
            a, args = args, []
            self.seq += 1
            if op not in ('Tf', 'Tj', 'd', 'Do', 'TJ') and not all(
                    num(v) for v in a):
                raise PdfError('operator %s with operands %r' % (op, a))
            if path and op not in ('m', 'l', 're', 'h', 'S', 's', 'f', 'F',
                                   'f*', 'n'):
                raise PdfError('operator %s inside a path' % op)
            if op == 'q':
                if bt:
                    raise PdfError('q inside a text object')
                stack.append(dict(gs))
            elif op == 'Q':
                if bt:
                    raise PdfError('Q inside a text object')
                if not stack:
                    raise PdfError('Q without q')
                gs = stack.pop()
            elif op == 'cm':
                if bt:
                    raise PdfError('cm inside a text object')
                gs['ctm'] = mul(tuple(float(v) for v in a), gs['ctm'])
            elif op == 'BT':
                if bt:
                    raise PdfError('nested BT')
                bt = True
                tm = tlm = ID
            elif op == 'ET':
                if not bt:
                    raise PdfError('ET without BT')
                bt = False
            elif op in ('Tm', 'Td', 'Tj', 'TJ', 'T*', 'TD') and not bt:
                raise PdfError('%s outside of a text object' % op)
            elif op == 'Tm':
                tm = tlm = tuple(float(v) for v in a)
            elif op == 'Td':
                tm = tlm = mul((1.0, 0.0, 0.0, 1.0, float(a[0]), float(a[1])),
                               tlm)
            elif op == 'Tf':
                if not isinstance(a[0], Name) or not num(a[1]):
                    raise PdfError('bad Tf operands %r' % (a,))
                gs['font'] = self.font(str(a[0]))
                self.used_fonts.add(str(a[0]))
                gs['size'] = float(a[1])
            elif op == 'Ts':
                gs['rise'] = float(a[0])
            elif op == 'Tw':
                gs['tw'] = float(a[0])
            elif op == 'Tc':
                gs['tc'] = float(a[0])
            elif op in ('g', 'rg'):
                self.check_color(a)
                gs['fill'] = tuple(float(v) for v in a)
            elif op in ('G', 'RG'):
                self.check_color(a)
                gs['stroke'] = tuple(float(v) for v in a)
            elif op == 'w':
                if a[0] < 0:
                    raise PdfError('negative line width')
                gs['w'] = float(a[0])
            elif op == 'J':
                if a[0] not in (0, 1, 2):
                    raise PdfError('bad line cap %r' % (a[0],))
                gs['cap'] = a[0]
            elif op == 'd':
                if not isinstance(a[0], list) or not num(a[1]) or not all(
                        num(v) and v >= 0 for v in a[0]) or (
                        a[0] and not any(a[0])):
                    raise PdfError('bad dash %r' % (a,))
                gs['dash'] = (tuple(float(v) for v in a[0]), float(a[1]))
            elif op == 'm':
                path.append(('m', float(a[0]), float(a[1])))
            elif op == 'l':
                if not path:
                    raise PdfError('l without current point')
                path.append(('l', float(a[0]), float(a[1])))
            elif op == 're':
                path.append(('re',) + tuple(float(v) for v in a))
            elif op in ('S', 'F', 'f'):
                if not path:
                    raise PdfError('%s without a path' % op)
                if bt:
                    raise PdfError('%s inside a text object' % op)
                self.paint(op, path, gs)
                path = []
            elif op == 'Tj':
                if not isinstance(a[0], Str):
                    raise PdfError('bad Tj operand %r' % (a,))
                if gs['font'] is None:
                    raise PdfError('text shown without font')
                runs += 1
                tm = self.show(bytes(a[0]), tm, gs, runs)
            elif op == 'TJ':
                if not isinstance(a[0], list) or not all(
                        isinstance(v, Str) or num(v) for v in a[0]):
                    raise PdfError('bad TJ operand %r' % (a,))
                if gs['font'] is None:
                    raise PdfError('text shown without font')
                runs += 1
                last = None
                for v in a[0]:
                    if isinstance(v, Str):
                        n = len(self.glyphs)
                        tm = self.show(bytes(v), tm, gs, runs)
                        last = self.glyphs[-1] if len(self.glyphs) > n \
                            else None
                    else:
                        d = -v * gs['size'] / 1000.0
                        if last is not None:
                            last.tw += d
                            last.adv += d
                        tm = mul((1.0, 0.0, 0.0, 1.0, d, 0.0), tm)
            elif op == 'Do':
                if bt:
                    raise PdfError('Do inside a text object')
                self.do(a[0], gs)
            else:
                raise PdfError('operator %s not expected' % op)
        if args:
            raise PdfError('operands without operator at the end: %r' % args)
        if stack:
            raise PdfError('q without Q')
        if bt:
            raise PdfError('BT without ET')
        if path:
            raise PdfError('path not painted')

    def check_color(self, a):
        for v in a:
            if not -1e-9 <= v <= 1 + 1e-9:
                raise PdfError('colour component out of range: %r' % (a,))

    def paint(self, op, path, gs):
        ctm = gs['ctm']
        if ctm[0] != 1 or ctm[1] or ctm[2] or ctm[3] != 1:
            raise PdfError('unexpected transformation for graphics')
        dx, dy = ctm[4], ctm[5]
        if op == 'S':
            cur = None
            for p in path:
                if p[0] == 'm':
                    cur = p[1:]
                elif p[0] == 'l':
                    ln = Line()
                    ln.x1, ln.y1 = cur[0] + dx, cur[1] + dy
                    ln.x2, ln.y2 = p[1] + dx, p[2] + dy
                    ln.width = gs['w']
                    ln.color = gs['stroke']
                    ln.dash, ln.cap = gs['dash'], gs['cap']
                    ln.seq = self.seq
                    self.lines.append(ln)
                    cur = p[1:]
                else:
                    raise PdfError('unexpected stroked rectangle')
        else:
            for p in path:
                if p[0] != 're':
                    raise PdfError('unexpected filled path')
                f = Fill()
                x, y, w, h = p[1:]
                if w < 0:
                    x, w = x + w, -w
                if h < 0:
                    y, h = y + h, -h
                f.x, f.y, f.w, f.h = x + dx, y + dy, w, h
                f.color = gs['fill']
                f.seq = self.seq
                self.fills.append(f)

    def show(self, s, tm, gs, run):
        font, size = gs['font'], gs['size']
        for code, ch, w in font.decode(s):
            m = mul((1.0, 0.0, 0.0, 1.0, 0.0, gs['rise']), mul(tm, gs['ctm']))
            if m[0] != 1 or m[1] or m[2] or m[3] != 1:
                raise PdfError('unexpected text transformation')
            g = Glyph()
            g.code = code
            g.ch = ch
            g.x, g.y = m[4], m[5]
            g.rise = gs['rise']
            g.base = m[5] - gs['rise']
            g.size = size
            g.font = font
            g.color = gs['fill']
            g.w = w * size / 1000.0
            g.tw = gs['tw'] if (not font.two and code == 32) else 0.0
            g.adv = g.w + g.tw + gs['tc']
            g.seq = self.seq
            g.run = run
            g.page = self.index
            self.glyphs.append(g)
            tm = mul((1.0, 0.0, 0.0, 1.0, g.adv, 0.0), tm)
        return tm

    def do(self, name, gs):
        if not isinstance(name, Name):
            raise PdfError('bad Do operand')
        xo = self.doc.get(self.res, 'XObject', {})
        if str(name) not in xo:
            raise PdfError('XObject %r not in the page resources' % name)
        ref = xo[str(name)]
        m = gs['ctm']
        if m[1] or m[2]:
            raise PdfError('rotated image')
        im = Image()
        im.matrix = m
        im.x, im.y, im.w, im.h = m[4], m[5], m[0], m[3]
        im.ref = ref
        im.seq = self.seq
        st = self.doc.resolve(ref)
        if not isinstance(st, Stream) or st.dict.get('Subtype') != 'Image':
            raise PdfError('Do of something that is not an image')
        self.images.append(im)

    def annots(self):
        a = self.doc.get(self.page, 'Annots')
        if a is None:
            return []
        return [self.doc.resolve(x) for x in a]


def get_font(doc, ref):
    cache = doc.__dict__.setdefault('_fonts', {})
    key = ref if isinstance(ref, Ref) else id(ref)
    if key not in cache:
        f = doc.resolve(ref)
        if not isinstance(f, dict) or f.get('Type') != 'Font':
            raise PdfError('font resource is not a font: %r' % (f,))
        cache[key] = Font(doc, f)
    return cache[key]


def inherited(doc, page, key):
    seen = 0
    node = page
    while node is not None:
        if key in node:
            return doc.resolve(node[key])
        node = doc.resolve(node.get('Parent'))
        seen += 1
        if seen > 100:
            raise PdfError('Parent loop')
    return None


def page_list(doc):
    """Walk the page tree strictly; return the page dictionaries in order."""
    root = doc.resolve(doc.trailer.get('Root'))
    if not isinstance(root, dict) or root.get('Type') != 'Catalog':
        raise PdfError('Root is not a catalog')
    pref = root.get('Pages')
    out = []
    seen = set()

    def walk(ref, parent, depth):
        if not isinstance(ref, Ref):
            raise PdfError('page tree node is not a reference')
        if ref in seen:
            raise PdfError('page tree node reached twice: %r' % (ref,))
        seen.add(ref)
        if depth > 60:
            raise PdfError('page tree too deep')
        node = doc.resolve(ref)
        if not isinstance(node, dict):
            raise PdfError('page tree node is not a dictionary')
        if parent is None:
            if 'Parent' in node:
                raise PdfError('root of the page tree has a Parent')
        elif node.get('Parent') != parent:
            raise PdfError('page tree node %r with Parent %r, but it is a kid '
                           'of %r' % (ref, node.get('Parent'), parent))
        if node.get('Type') == 'Pages':
            kids = doc.resolve(node.get('Kids'))
            if not isinstance(kids, list):
                raise PdfError('Pages node without Kids')
            if not kids:
                raise PdfError('Pages node with empty Kids')
            n = 0
            for k in kids:
                n += walk(k, ref, depth + 1)
            if node.get('Count') != n:
                raise PdfError('Pages node Count is %r, it has %d leaves' % (
                    node.get('Count'), n))
            return n
        if node.get('Type') != 'Page':
            raise PdfError('page tree node of Type %r' % (node.get('Type'),))
        if 'Kids' in node or 'Count' in node:
            raise PdfError('page with Kids or Count')
        node = dict(node)
        node['__ref__'] = ref
        out.append(node)
        return 1

    walk(pref, None, 0)
    return out


def view(doc):
    """All PageViews of a parsed document."""
    return [PageView(doc, p, i) for i, p in enumerate(page_list(doc))]
