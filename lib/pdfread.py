"""A strict reader for PDF files, written from the PDF 1.5 specification.

It shares no code with pdfme. It follows the cross-reference table (and never
scans for objects), it refuses anything that is not well-formed syntax, and it
applies the reading rules of the specification: escapes and end-of-line
normalisation in literal strings, '#xx' in names, exact stream lengths.
"""
import re
import zlib
from collections import namedtuple

WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
NUM_RE = re.compile(rb'[+-]?(\d+\.?\d*|\.\d+)\Z')


class PdfError(Exception):
    pass


class Name(str):
    __slots__ = ()

    def __repr__(self):
        return '/' + str(self)


class Str(bytes):
    """A PDF string object."""
    __slots__ = ()


class Op(str):
    """A content stream operator / bare keyword."""
    __slots__ = ()


Ref = namedtuple('Ref', 'num gen')


class Stream:
    __slots__ = ('dict', 'raw')

    def __init__(self, dict_, raw):
        self.dict = dict_
        self.raw = raw

    def data(self):
        flt = self.dict.get('Filter')
        if flt is None:
            return self.raw
        if isinstance(flt, list):
            flts = flt
        else:
            flts = [flt]
        out = self.raw
        for f in flts:
            if f == 'FlateDecode':
                d = zlib.decompressobj()
                try:
                    out = d.decompress(out) + d.flush()
                except zlib.error as e:
                    raise PdfError('stream does not decode: %s' % e)
                if not d.eof or d.unused_data:
                    raise PdfError('flate stream truncated or with extra data')
            elif f == 'DCTDecode':
                return out
            else:
                raise PdfError('unexpected filter %r' % (f,))
        return out


class Lexer:
    def __init__(self, data, pos=0, end=None, content=False):
        self.d = data
        self.p = pos
        self.e = len(data) if end is None else end
        self.content = content

    def skip(self):
        d, e = self.d, self.e
        while self.p < e:
            c = d[self.p]
            if c in WS:
                self.p += 1
            elif c == 0x25:
                while self.p < e and d[self.p] not in b'\r\n':
                    self.p += 1
            else:
                break

    def at_end(self):
        self.skip()
        return self.p >= self.e

    def fail(self, msg):
        raise PdfError('%s at byte %d: ...%r' % (
            msg, self.p, self.d[max(0, self.p - 20):self.p + 20]))

    def token(self):
        """A run of regular characters."""
        s = self.p
        d, e = self.d, self.e
        while self.p < e and d[self.p] not in WS and d[self.p] not in DELIM:
            self.p += 1
        return d[s:self.p]

    def obj(self):
        self.skip()
        if self.p >= self.e:
            self.fail('unexpected end of data')
        d = self.d
        c = d[self.p:self.p + 1]
        if c == b'/':
            return self.name()
        if c == b'(':
            return self.lit_string()
        if c == b'<':
            if d[self.p + 1:self.p + 2] == b'<':
                return self.dict_()
            return self.hex_string()
        if c == b'[':
            self.p += 1
            out = []
            while True:
                self.skip()
                if self.p >= self.e:
                    self.fail('unterminated array')
                if d[self.p:self.p + 1] == b']':
                    self.p += 1
                    return out
                out.append(self.obj())
        if c in (b')', b'>', b']', b'{', b'}'):
            self.fail('unexpected delimiter %r' % c)
        tok = self.token()
        if NUM_RE.match(tok):
            if not self.content and tok.isdigit():
                # perhaps a reference
                save = self.p
                self.skip()
                t2 = self.token()
                if t2.isdigit():
                    self.skip()
                    t3 = self.token()
                    if t3 == b'R':
                        return Ref(int(tok), int(t2))
                self.p = save
            if b'.' in tok:
                return float(tok)
            return int(tok)
        if tok == b'true':
            return True
        if tok == b'false':
            return False
        if tok == b'null':
            return None
        if self.content:
            return Op(tok.decode('latin-1'))
        self.p -= len(tok)
        self.fail('unknown token %r' % tok)

    def name(self):
        self.p += 1
        tok = self.token()
        out = bytearray()
        i = 0
        while i < len(tok):
            c = tok[i]
            if c < 0x21 or c > 0x7e:
                self.fail('name with a raw byte outside 0x21-0x7e: %r' % tok)
            if c == 0x23:
                h = tok[i + 1:i + 3]
                if not re.match(rb'[0-9A-Fa-f]{2}\Z', h):
                    self.fail('bad # escape in name %r' % tok)
                if h == b'00':
                    self.fail('null character in name')
                out.append(int(h, 16))
                i += 3
            else:
                out.append(c)
                i += 1
        return Name(bytes(out).decode('latin-1'))

    def lit_string(self):
        d = self.d
        start = self.p
        self.p += 1
        depth = 1
        out = bytearray()
        while True:
            if self.p >= self.e:
                self.p = start
                self.fail('unterminated string')
            c = d[self.p]
            self.p += 1
            if c == 0x5c:
                if self.p >= self.e:
                    self.p = start
                    self.fail('unterminated string')
                n = d[self.p]
                self.p += 1
                if n in b'nrtbf':
                    out.append({0x6e: 10, 0x72: 13, 0x74: 9, 0x62: 8,
                                0x66: 12}[n])
                elif n in b'()\\':
                    out.append(n)
                elif 0x30 <= n <= 0x37:
                    v = n - 0x30
                    k = 1
                    while k < 3 and self.p < self.e and \
                            0x30 <= d[self.p] <= 0x37:
                        v = v * 8 + d[self.p] - 0x30
                        self.p += 1
                        k += 1
                    out.append(v & 0xff)
                elif n == 13:
                    if self.p < self.e and d[self.p] == 10:
                        self.p += 1
                elif n == 10:
                    pass
                else:
                    out.append(n)
            elif c == 0x28:
                depth += 1
                out.append(c)
            elif c == 0x29:
                depth -= 1
                if depth == 0:
                    return Str(out)
                out.append(c)
            elif c == 13:
                if self.p < self.e and d[self.p] == 10:
                    self.p += 1
                out.append(10)
            else:
                out.append(c)

    def hex_string(self):
        self.p += 1
        j = self.d.find(b'>', self.p, self.e)
        if j < 0:
            self.fail('unterminated hexadecimal string')
        h = bytes(c for c in self.d[self.p:j] if c not in WS)
        if not re.match(rb'[0-9A-Fa-f]*\Z', h):
            self.fail('bad hexadecimal string')
        self.p = j + 1
        if len(h) % 2:
            h += b'0'
        return Str(bytes.fromhex(h.decode()))

    def dict_(self):
        d = self.d
        self.p += 2
        out = {}
        while True:
            self.skip()
            if d[self.p:self.p + 2] == b'>>':
                self.p += 2
                return out
            if d[self.p:self.p + 1] != b'/':
                self.fail('dictionary key is not a name')
            k = self.name()
            if k in out:
                self.fail('duplicate dictionary key %r' % k)
            self.skip()
            if d[self.p:self.p + 2] == b'>>':
                self.fail('dictionary key %r without value' % k)
            out[k] = self.obj()


class Doc:
    def __init__(self, data):
        self.data = data
        self.objects = {}
        self.trailer = None
        self.version = None

    def resolve(self, x):
        n = 0
        while isinstance(x, Ref):
            if x.gen != 0 or x.num not in self.objects:
                raise PdfError('reference to a missing object: %r' % (x,))
            x = self.objects[x.num]
            n += 1
            if n > 50:
                raise PdfError('reference loop')
        return x

    def get(self, d, key, default=None):
        if isinstance(d, Stream):
            d = d.dict
        return self.resolve(d.get(key, default))


def read_pdf(data):
    doc = Doc(data)
    m = re.match(rb'%PDF-(\d+\.\d+)\n%([^\n]*)\n', data)
    if not m:
        raise PdfError('bad header: %r' % data[:20])
    doc.version = m.group(1).decode()
    if len(m.group(2)) < 4:
        raise PdfError('binary comment line missing')
    m = re.search(rb'startxref\n(\d+)\n%%EOF\s*\Z', data)
    if not m:
        raise PdfError('no startxref / %%EOF at the end of file')
    xpos = int(m.group(1))
    sx = m.start()
    if data[xpos:xpos + 5] != b'xref\n':
        raise PdfError('startxref does not point at the xref keyword')
    p = xpos + 5
    m = re.compile(rb'(\d+) (\d+)\n').match(data, p)
    if not m:
        raise PdfError('bad xref subsection header')
    if int(m.group(1)) != 0:
        raise PdfError('xref does not start at object 0')
    n = int(m.group(2))
    p = m.end()
    entry = re.compile(rb'(\d{10}) (\d{5}) ([nf])( \r| \n|\r\n)')
    offsets = []
    for i in range(n):
        m = entry.match(data, p)
        if not m:
            raise PdfError('xref entry %d is not a 20 byte entry: %r' % (
                i, data[p:p + 20]))
        p = m.end()
        if i == 0:
            if m.group(3) != b'f' or m.group(2) != b'65535':
                raise PdfError('xref entry 0 is not the free list head')
            continue
        if m.group(3) != b'n' or m.group(2) != b'00000':
            raise PdfError('xref entry %d is not in use' % i)
        offsets.append((int(m.group(1)), i))
    if not data.startswith(b'trailer', p):
        raise PdfError('trailer keyword does not follow the xref entries')
    lx = Lexer(data, p + 7, sx)
    doc.trailer = lx.obj()
    if not isinstance(doc.trailer, dict):
        raise PdfError('trailer is not a dictionary')
    if not lx.at_end():
        lx.fail('garbage after the trailer dictionary')
    if doc.trailer.get('Size') != n:
        raise PdfError('trailer Size %r, but the xref has %d entries' % (
            doc.trailer.get('Size'), n))
    if len(set(o for o, _ in offsets)) != len(offsets):
        raise PdfError('two xref entries point at the same offset')
    order = sorted(offsets)
    # objects cover the file from header to xref without gaps
    for k, (off, num) in enumerate(order):
        end = order[k + 1][0] if k + 1 < len(order) else xpos
        doc.objects[num] = _read_indirect(data, off, end, num)
    return doc


def _read_indirect(data, off, end, num):
    m = re.compile(rb'(\d+) (\d+) obj\b').match(data, off)
    if not m or int(m.group(1)) != num or int(m.group(2)) != 0:
        raise PdfError('xref offset %d of object %d points at %r' % (
            off, num, data[off:off + 15]))
    lx = Lexer(data, m.end(), end)
    obj = lx.obj()
    lx.skip()
    if data.startswith(b'stream', lx.p):
        if not isinstance(obj, dict):
            lx.fail('stream without dictionary')
        p = lx.p + 6
        if data[p:p + 2] == b'\r\n':
            p += 2
        elif data[p:p + 1] == b'\n':
            p += 1
        else:
            lx.fail('stream keyword not followed by an end of line')
        length = obj.get('Length')
        if not isinstance(length, int) or length < 0:
            lx.fail('stream with bad Length %r' % (length,))
        raw = data[p:p + length]
        q = p + length
        if data[q:q + 2] == b'\r\n':
            q += 2
        elif data[q:q + 1] in (b'\n', b'\r'):
            q += 1
        if q > end or not data.startswith(b'endstream', q):
            raise PdfError('object %d: endstream does not follow Length bytes'
                           % num)
        obj = Stream(obj, raw)
        lx.p = q + 9
        lx.skip()
    if not data.startswith(b'endobj', lx.p) or lx.p + 6 > end:
        raise PdfError('object %d does not end with endobj: %r' % (
            num, data[lx.p:lx.p + 20]))
    lx.p += 6
    if not lx.at_end():
        lx.fail('garbage after endobj of object %d' % num)
    return obj


def all_refs(obj):
    stack = [obj]
    while stack:
        o = stack.pop()
        if isinstance(o, Ref):
            yield o
        elif isinstance(o, dict):
            stack.extend(o.values())
        elif isinstance(o, list):
            stack.extend(o)
        elif isinstance(o, Stream):
            stack.extend(o.dict.values())
