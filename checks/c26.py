"""C26: TrueType text is drawn, measured and extracted faithfully."""
import contextlib
import io
import itertools
import os
import random
import shutil
import tempfile

from hypothesis import strategies as st

from lib.common import pages, require, sut, write
from lib.harness import Info, Part, fail
from lib.interp import STD_WIDTHS
from lib.pdfread import Stream

TECHNIQUE = ('property-based testing (Hypothesis): TrueType fonts generated '
             'with fontTools, documents using them, and a comparison of the '
             'drawn glyphs, widths, character maps and embedded programs '
             'with the font files; histories of registrations and documents')
LEVEL_NOTE = ('Random search over generated fonts (glyph order, widths, units '
              'per em, character maps, tables present), registrations and '
              'documents, besides the two fonts of the repository. Held on '
              'all generated cases, not proved.')
RULE = ('Cases are one to three documents with paragraphs or tables in one to '
        'three registered families and the standard fonts. Non-trivial: two '
        'or more families or modes or documents, or a justified line, or a '
        'glyph code with a byte special in PDF strings.')
EPS = 0.06
HERE = os.path.dirname(os.path.abspath(__file__))

# characters of fonts; never white space nor a line end
POOL = ([chr(c) for c in range(33, 127)] + list('éÀßµ±Ωλжשب中文字語かナ한글')
        + ['\u2022', '\u20ac', '\ufb01', '\u0301', '\u200d', '\U0001f600',
           '\U0001d49c', '\U0002070e', '\U0010fffd', '\ue000', '\uffee',
           '\xad'])
SPECIAL_GIDS = [0x0a, 0x0d, 0x28, 0x29, 0x5c, 0x80, 0xff, 0x100, 0x10a, 0x10d,
                0x128, 0x129, 0x15c, 0x15d]
MODES = ['n', 'b', 'i', 'bi']

FONT = st.fixed_dictionaries({
    'seed': st.integers(0, 2 ** 20),
    'chars': st.lists(st.integers(0, len(POOL) - 1), min_size=1, max_size=14,
                      unique=True),
    'special': st.lists(st.sampled_from(SPECIAL_GIDS), max_size=5,
                        unique=True),
    'pad': st.sampled_from([0, 0, 3, 20]),
    'runs': st.booleans(),       # ids in the order of the characters
    'share': st.booleans(), 'nbsp': st.booleans(),
    'upem': st.sampled_from([1000, 2048, 1024, 64, 16384, 999]),
    'widths': st.sampled_from(['random', 'mono', 'few', 'zero']),
    'os2': st.sampled_from([None, 0, 1, 3, 4]),
    'name': st.sampled_from(['ps', 'few', 'many', 'odd', 'none', 'win',
                             'mac']),
    'post': st.sampled_from([2, 3]),
    'fixed': st.booleans(), 'italic': st.sampled_from([0, 0, -12, 7.5]),
    'fstype': st.sampled_from([0, 0, 4, 8]),
})
REAL = st.sampled_from(['OpenSans-Regular', 'OpenSans-Bold'])

WORD = st.lists(st.integers(0, 200), min_size=1, max_size=7)
RUN = st.fixed_dictionaries({
    'font': st.integers(0, 3),      # index of the family, else standard
    'mode': st.integers(0, 3),
    's': st.sampled_from([9, 11, 14.5, 20]),
    'words': st.lists(WORD, min_size=1, max_size=12),
    'tail': st.sampled_from([' ', ' ', '', '  ']),
    'form': st.sampled_from(['dot', 'dict']),
})
PARAGRAPH = st.fixed_dictionaries({
    'runs': st.lists(RUN, min_size=1, max_size=3),
    'align': st.sampled_from('jjlrc'),
    'list': st.booleans(),
})
DOC = st.fixed_dictionaries({
    'how': st.sampled_from(['text', 'text', 'content', 'table', 'build']),
    'w': st.sampled_from([150, 240, 400]),
    'h': st.sampled_from([150, 300]),
    'pars': st.lists(PARAGRAPH, min_size=1, max_size=3),
    # fonts registered before the document, over the ones before
    'reg': st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3),
                              st.integers(0, 3)).map(list), max_size=2),
})


def case(font=FONT, max_docs=3):
    return st.fixed_dictionaries({
        'fonts': st.lists(font, min_size=1, max_size=4),
        # per family: modes registered and the fonts they use
        'families': st.lists(st.lists(
            st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list),
            min_size=1, max_size=4), min_size=1, max_size=3),
        'docs': st.lists(DOC, min_size=1, max_size=max_docs),
        'together': st.sampled_from([False, False, True]),
    })


# fonts -----------------------------------------------------------------------

_cache = {}
_uid = itertools.count()


def font_bytes(p):
    """The file of font plan p."""
    key = repr(p)
    if key not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        _cache[key] = build_font(p)
    return _cache[key]


class Program:
    """A font file: bytes and what it says, read with fontTools."""

    def __init__(self, data):
        from fontTools.ttLib import TTFont
        self.data = data
        f = self.font = TTFont(io.BytesIO(data))
        self.cmap = f.getBestCmap()
        self.upem = f['head'].unitsPerEm
        self.hmtx = f['hmtx'].metrics
        self.order = f.getGlyphOrder()
        self.gid = {c: f.getGlyphID(n) for c, n in self.cmap.items()}
        self.adv = [self.hmtx[n][0] for n in self.order]
        self.chars = [chr(c) for c in sorted(self.cmap)
                      if c > 32 and c not in (0xa0, 0x85)
                      and not chr(c).isspace()]
        self.by_gid = {}
        for c, g in self.gid.items():
            self.by_gid.setdefault(g, set()).add(chr(c))

    def width(self, text):
        """of text at size 1"""
        return sum(self.adv[self.gid[ord(c)]] for c in text) / self.upem

    def facts(self):
        """What must be the same in the embedded program."""
        f = self.font
        g = f['glyf']
        out = {'order': f.getGlyphOrder(), 'upem': self.upem,
               'hmtx': dict(self.hmtx), 'cmap': dict(self.cmap),
               'tables': sorted(t for t in f.keys()
                                if t != 'GlyphOrder')}
        names = f.getGlyphOrder()
        if len(names) > 300:
            names = names[::len(names) // 100]
        out['outlines'] = {}
        for n in names:
            x = g[n]
            out['outlines'][n] = (x.numberOfContours, [
                tuple(v) for v in x.getCoordinates(g)[0]])
        out['names'] = sorted((n.platformID, n.platEncID, n.langID, n.nameID,
                               bytes(n.string) if isinstance(n.string, bytes)
                               else n.toBytes()) for n in f['name'].names)
        return out


def build_font(p):
    if isinstance(p, str):
        path = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'fonts',
                            p + '.ttf')
        with open(path, 'rb') as f:
            return Program(f.read())
    from fontTools.fontBuilder import FontBuilder
    from fontTools.pens.ttGlyphPen import TTGlyphPen
    rnd = random.Random(p['seed'])
    chars = [POOL[i] for i in p['chars']]
    # glyph ids: special ones for the first characters, then the rest
    special = [g for g in p['special']][:len(chars)]
    n_first = 2 + len(chars) + p['pad']
    total = max([n_first] + [g + 1 for g in special]) + 2
    total = max(total, p.get('total', 0))
    free = [g for g in range(1, total) if g not in special]
    order = ['.notdef'] + [None] * (total - 1)
    if p['runs']:
        ids = sorted(special) + free
        cset = sorted(chars)
    else:
        head = free[:n_first]
        rnd.shuffle(head)
        ids = special + head + free[n_first:]
        cset = chars
    if p.get('total'):
        ids = [total - 1 - 7 * k for k in range(len(chars))] + free
    cmap = {}
    for c, g in zip(cset, ids):
        order[g] = 'g%d' % g
        cmap[ord(c)] = order[g]
    used = {n for n in cmap.values()}
    g = next(k for k in range(total - 1, 0, -1) if order[k] is None)
    order[g] = 'space'
    cmap[32] = 'space'
    for k in range(total):
        order[k] = order[k] or 'x%d' % k
    if p['nbsp']:
        cmap[0xa0] = 'space'
    if p['share'] and used:
        # more characters with the glyphs of others
        rest = [c for c in POOL if ord(c) not in cmap]
        for c in rnd.sample(rest, min(4, len(rest))):
            cmap[ord(c)] = rnd.choice(sorted(used))
    upem = p['upem']
    fb = FontBuilder(upem, isTTF=True)
    fb.setupGlyphOrder(order)
    fb.setupCharacterMap(dict(sorted(cmap.items())))
    glyphs, metrics = {}, {}
    empty = TTGlyphPen(None).glyph()
    few = [rnd.randint(1, upem) for _ in range(3)]
    for k, n in enumerate(order):
        if n in used or n == '.notdef':
            pen = TTGlyphPen(None)
            pts = [(rnd.randint(0, upem // 2), rnd.randint(0, upem // 2))
                   for _ in range(3)]
            pen.moveTo(pts[0])
            pen.lineTo(pts[1])
            pen.lineTo(pts[2])
            pen.closePath()
            glyphs[n] = pen.glyph()
        else:
            glyphs[n] = empty
        w = {'random': rnd.randint(upem // 8, upem), 'mono': upem // 2,
             'few': few[k % 3],
             'zero': rnd.choice([0, upem // 3, upem // 2])}[p['widths']]
        if n == 'space':
            w = max(w, upem // 6)
        metrics[n] = (w, 0)
    fb.setupGlyf(glyphs)
    fb.setupHorizontalMetrics(metrics)
    fb.setupHorizontalHeader(ascent=int(upem * .8), descent=-int(upem * .2))
    ps = 'Gen%s-%d' % (p['name'].title(), p['seed'])
    names = {
        'ps': {'familyName': 'Gen', 'styleName': 'Regular', 'psName': ps},
        'few': {'psName': ps},
        'many': {'copyright': '(c) (me) \\', 'familyName': 'Gen x',
                 'styleName': 'Regular', 'uniqueFontIdentifier': 'u' + ps,
                 'fullName': 'Gen full name', 'version': 'Version 1.0',
                 'psName': ps, 'trademark': 'TM \u2122 \u4e2d',
                 'manufacturer': 'No/One', 'designer': 'D\xe9'},
        'odd': {'copyright': '\u4e2d\u6587', 'familyName': 'Gen',
                'uniqueFontIdentifier': '\u4e2d \u6587 (1)/2',
                'fullName': 'Gen (1)/<2> [3] \u4e2d %',
                'version': '{1} / (2)', 'trademark': '\u6587 \u4e2d',
                'psName': 'Gen(odd) \u4e2d/#%d' % p['seed']},
        'none': {'familyName': 'Gen none'},
        'win': {'familyName': 'Gen', 'styleName': 'Regular', 'psName': ps},
        'mac': {'familyName': 'Gen', 'styleName': 'Regular', 'psName': ps},
    }[p['name']]
    fb.setupNameTable(names, windows=p['name'] != 'mac',
                      mac=p['name'] not in ('win', 'odd', 'many'))
    if p['os2'] is not None:
        kw = {'version': p['os2']}
        fb.setupOS2(sTypoAscender=int(upem * .7), sCapHeight=int(upem * .6),
                    usWinAscent=int(upem * .8), usWinDescent=int(upem * .2),
                    fsType=p.get('fstype', 0), usWeightClass=rnd.choice([400, 700]), **kw)
    fb.setupPost(keepGlyphNames=p['post'] == 2,
                 italicAngle=p.get('italic', 0),
                 isFixedPitch=int(p.get('fixed', False)))
    b = io.BytesIO()
    fb.font.save(b)
    return Program(b.getvalue())


# documents -------------------------------------------------------------------

class Std:
    """A standard font, as a Program."""

    def __init__(self, base):
        self.base = base
        self.w = STD_WIDTHS[base]
        self.chars = [chr(c) for c in range(33, 127)]

    def width(self, text):
        return sum(self.w[ord(c)] for c in text) / 1000.0


STD = {'n': Std('Times-Roman'), 'b': Std('Times-Bold'),
       'i': Std('Times-Italic'), 'bi': Std('Times-BoldItalic')}


class Registry:
    """The fonts registered, by family and mode, as pdfme must use them."""

    def __init__(self, tmp, tag):
        self.tmp, self.tag = tmp, tag
        self.modes = {}            # family index -> {mode: Program}
        self.n = 0

    def name(self, fam):
        return ['Fam%s-%d', 'My Font %s %d', 'F%s\xe9_%d'][fam] % (
            self.tag, fam)

    def register(self, fam, mode, prog):
        from pdfme.fonts import PDFFont
        self.n += 1
        path = os.path.join(self.tmp, 'f%d.ttf' % self.n)
        with open(path, 'wb') as f:
            f.write(prog.data)
        with sut('register'):
            PDFFont.register(self.name(fam), mode, path)
        self.modes.setdefault(fam, {})[mode] = prog

    def get(self, run):
        """(family, mode, program) of a run"""
        fams = sorted(self.modes)
        k = run['font'] % (len(fams) + 1)
        if k == len(fams):
            mode = MODES[run['mode']]
            return 'Times', mode, STD[mode]
        modes = sorted(self.modes[fams[k]])
        mode = modes[run['mode'] % len(modes)]
        return self.name(fams[k]), mode, self.modes[fams[k]][mode]


def plan_paragraph(p, reg):
    """Description and expected characters of a paragraph."""
    first = None
    parts = []
    chars = []        # (char, program, size, word index), no spaces
    gaps = {}         # word index -> width of the space before it
    word = 0
    in_word = False   # the next character continues a word
    space = 0
    for run in p['runs']:
        fam, mode, prog = reg.get(run)
        size = run['s']
        text = ''
        for i, w in enumerate(run['words']):
            if i:
                text += ' '
            text += ''.join(prog.chars[k % len(prog.chars)] for k in w)
        text += run['tail']
        for ch in text.replace('  ', ' '):     # spaces collapse
            if ch == ' ':
                space += prog.width(' ') * size
                in_word = False
                continue
            if not in_word and chars:
                word += 1
                gaps[word] = space
            in_word = True
            space = 0
            chars.append((ch, prog, size, word))
        style = {'f': fam, 's': size}
        if 'b' in mode or first is not None and first[0]:
            style['b'] = 'b' in mode
        if 'i' in mode or first is not None and first[1]:
            style['i'] = 'i' in mode
        if first is None:
            first = (style.get('b', False), style.get('i', False))
            outer = dict(style)
        if run['form'] == 'dot':
            s = 'f:%s;s:%s' % (fam, size)
            for a in 'bi':
                if a in style:
                    s += ';' + a if style[a] else ';%s:0' % a
            parts.append({'.' + s: text})
        else:
            parts.append({'.': [text], 'style': style})
    desc = {'.': parts, 'style': dict(outer, text_align=p['align'])}
    lst = None
    if p['list']:
        fam, mode, prog = reg.get(p['runs'][0])
        lst = ''.join(prog.chars[k % len(prog.chars)] for k in (5, 3)) + ' '
        desc['style'].update(list_text=lst, list_style={
            'f': fam, 's': 12, 'b': 'b' in mode, 'i': 'i' in mode})
        lst = (lst, prog, 12)
    return desc, chars, gaps, lst


class Doc:
    def __init__(self, d, reg):
        self.d = d
        self.pars = [plan_paragraph(p, reg) for p in d['pars']]
        self.aligns = [p['align'] for p in d['pars']]

    def start(self):
        from pdfme import PDF
        if self.d['how'] == 'build':
            return
        with sut():
            self.pdf = PDF(page_size=[self.d['w'], self.d['h']], margin=10)
            self.pdf.add_page()

    def steps(self):
        """generator of the calls that build the document"""
        how = self.d['how']
        if how == 'text':
            for desc, _, _, lst in self.pars:
                desc = dict(desc)
                style = desc['style'] = dict(desc['style'])
                kw = {k: style.pop(k) for k in (
                    'text_align', 'list_text', 'list_style') if k in style}
                with sut():
                    self.pdf.text(desc, **kw)
                yield
        elif how == 'content':
            with sut():
                self.pdf.content({'content': [d[0] for d in self.pars]})
            yield
        elif how == 'table':
            with sut():
                self.pdf.table([[d[0]] for d in self.pars])
            yield

    def finish(self):
        from pdfme import build_pdf
        if self.d['how'] == 'build':
            b = io.BytesIO()
            with sut():
                build_pdf({
                    'style': {'page_size': [self.d['w'], self.d['h']],
                              'margin': 10, 's': 10},
                    'sections': [{'content': [d[0] for d in self.pars]}]}, b)
            return b.getvalue()
        return write(self.pdf)


# the oracle ------------------------------------------------------------------

def check_font(doc, font, prog):
    """The font resource stands for the registered program."""
    if getattr(font, 'checked', None) is prog:
        return
    if getattr(font, 'checked', None) is not None:
        fail('one font resource stands for two registered fonts')
    if isinstance(prog, Std):
        require(not font.two and font.base == prog.base,
                'text drawn with font %s, expected %s', font.base, prog.base)
        font.checked = prog
        return
    require(font.two, 'text drawn with font %s, expected a TrueType font',
            font.base)
    desc = doc.get(font.cid, 'FontDescriptor')
    require(isinstance(desc, dict), 'no font descriptor')
    require(doc.get(font.cid, 'CIDToGIDMap') == 'Identity',
            'codes are not glyph ids')
    require(str(doc.get(font.cid, 'BaseFont')) == font.base ==
            str(doc.get(desc, 'FontName')), 'names of the font differ')
    ff = doc.get(desc, 'FontFile2')
    require(isinstance(ff, Stream), 'font program not embedded')
    data = ff.data()
    require(doc.get(ff.dict, 'Length1') == len(data),
            'Length1 is %r, the font program has %d bytes',
            doc.get(ff.dict, 'Length1'), len(data))
    try:
        got = Program(data)
        a, b = got.facts(), prog.facts()
    except Exception as e:
        fail('the embedded font program cannot be read: %r', e)
    for k in b:
        require(a[k] == b[k], 'the embedded font program is not the '
                'registered one: %s differ', k)
    for c, g in prog.gid.items():
        if not 32 <= c:
            continue
        require(g in font.w or font.dw == prog.adv[g] * 1000 / prog.upem,
                'no width for glyph %d', g)
        require(abs(font.w.get(g, font.dw) - prog.adv[g] * 1000.0 /
                    prog.upem) < 0.01, 'glyph %d of %r has width %r in the '
                'document and %r/%r in the font', g, chr(c), font.w.get(g),
                prog.adv[g], prog.upem)
    for g, w in font.w.items():
        require(g < len(prog.adv) and abs(w - prog.adv[g] * 1000.0 / prog.upem)
                < 0.01, 'glyph %d has width %r in the document', g, w)
    check_descriptor(doc, desc, prog)
    for g, cs in font.touni.items():
        require(cs <= prog.by_gid.get(g, set()), 'glyph %d is extracted as '
                '%r, in the font it is %r', g, sorted(cs),
                sorted(prog.by_gid.get(g, [])))
    font.checked = prog


def check_descriptor(doc, desc, prog):
    """The descriptor says what the font says, in thousandths of the em."""
    f = prog.font
    k = 1000.0 / prog.upem

    def same(key, want, got=None):
        got = doc.get(desc, key) if got is None else got
        require(isinstance(got, (int, float)) and abs(got - want) < 0.6,
                '%s of the font is written as %r, the font says %.2f', key,
                got, want)

    head, hhea, post = f['head'], f['hhea'], f['post']
    box = doc.get(desc, 'FontBBox')
    require(isinstance(box, list) and len(box) == 4, 'FontBBox is %r', box)
    for n, v in zip(['xMin', 'yMin', 'xMax', 'yMax'], box):
        same('FontBBox ' + n, getattr(head, n) * k, doc.resolve(v))
    same('Ascent', hhea.ascent * k)
    same('Descent', hhea.descent * k)
    same('ItalicAngle', post.italicAngle)
    if 'OS/2' in f and f['OS/2'].version > 1:
        same('CapHeight', f['OS/2'].sCapHeight * k)
    require(isinstance(doc.get(desc, 'StemV'), (int, float)),
            'StemV is %r', doc.get(desc, 'StemV'))
    flags = doc.get(desc, 'Flags')
    require(isinstance(flags, int), 'Flags are %r', flags)
    require(bool(flags & 1) == bool(post.isFixedPitch),
            'Flags %r of a font with isFixedPitch %r', flags,
            post.isFixedPitch)
    require(bool(flags & 64) == (post.italicAngle != 0),
            'Flags %r of a font with italic angle %r', flags,
            post.italicAngle)
    require(bool(flags & 4) != bool(flags & 32),
            'Flags %r: neither or both of symbolic and not', flags)


def is_space(g, prog=None):
    return ' ' in g.ch if isinstance(g.ch, set) else g.ch == ' '


def check_glyph(doc, g, want):
    ch, prog, size = want[:3]
    check_font(doc, g.font, prog)
    if isinstance(prog, Std):
        require(g.ch == ch, 'drew %r, expected %r', g.ch, ch)
        w = prog.width(ch)
    else:
        gid = prog.gid[ord(ch)]
        require(g.code == gid, 'drew glyph %d, %r is glyph %d', g.code, ch,
                gid)
        require(g.ch and ch in g.ch if len(prog.by_gid[gid]) == 1
                else g.ch and g.ch <= prog.by_gid[gid],
                '%r is extracted as %r', ch, g.ch)
        w = prog.adv[gid] / prog.upem
    require(abs(g.size - size) < 1e-6, '%r drawn at size %r, expected %r', ch,
            g.size, size)
    require(abs(g.w - w * size) < 0.001, '%r is %.4f wide, expected %.4f', ch,
            g.w, w * size)


def check_doc(dc, doc, pvs, out):
    d = dc.d
    drawn = [g for pv in pvs for g in pv.glyphs]
    vis = [g for g in drawn if not is_space(g)]
    want = []
    for k, (desc, chars, gaps, lst) in enumerate(dc.pars):
        if lst:
            want += [(ch, lst[1], lst[2], None, k) for ch in lst[0]
                     if ch != ' ']
        want += [c + (k,) for c in chars]
    for g, w in zip(vis, want):
        check_glyph(doc, g, w)
    require(len(vis) == len(want), '%d characters drawn, expected %d',
            len(vis), len(want))
    ids = {id(g): w for g, w in zip(vis, want)}
    for g in drawn:
        if isinstance(g.ch, set) and any(b in (0x0a, 0x0d, 0x28, 0x29, 0x5c)
                                         for b in divmod(g.code, 256)):
            out.add('glyph code with a special byte')
        if isinstance(g.ch, set) and any(ord(c) > 0xffff for c in g.ch):
            out.add('character beyond the BMP')
    if d['how'] == 'table':
        lo, hi = 10 + 5.25, d['w'] - 10 - 5.25
    else:
        lo, hi = 10, d['w'] - 10
    # lines
    lines = []
    for g in drawn:
        w = ids.get(id(g))
        if not lines or lines[-1][0] != (g.page, round(g.base, 2)) or (
                w is not None and lines[-1][2] is not None
                and lines[-1][2] != w[4]):
            lines.append([(g.page, round(g.base, 2)), [], None])
        ln = lines[-1]
        ln[1].append((g, w))
        if w is not None:
            ln[2] = w[4]
    lines = [ln for ln in lines if ln[2] is not None]
    for i, (key, gl, k) in enumerate(lines):
        desc, chars, gaps, lst = dc.pars[k]
        align = dc.aligns[k]
        body = [(j, g, w) for j, (g, w) in enumerate(gl)
                if w is not None and w[3] is not None]
        require(body, 'line with nothing but list text')
        last = i + 1 == len(lines) or lines[i + 1][2] != k
        prev = None
        for j, g, w in body:
            if prev is not None:
                between = gl[prev[0] + 1:j]
                if prev[2][3] == w[3]:
                    require(not between, 'space inside a word')
                    require(abs(g.x - prev[1].x - prev[1].w) < 0.03,
                            'gap inside a word')
                else:
                    require(between, 'words are joined')
                    if align != 'j' or last:
                        require(abs(g.x - prev[1].x - prev[1].w -
                                    gaps[w[3]]) < 0.03 or align == 'j',
                                'space of %.3f, expected %.3f',
                                g.x - prev[1].x - prev[1].w, gaps[w[3]])
            elif i and lines[i - 1][2] == k:
                lw = [w2 for _, w2 in lines[i - 1][1] if w2 is not None]
                require(lw[-1][3] != w[3], 'a word is split')
            prev = (j, g, w)
        x1, x2 = body[0][1].x, body[-1][1].x2
        left, right = lo, hi
        if lst:
            left += lst[1].width(lst[0]) * lst[2]
        n = body[-1][2][3] - body[0][2][3] + 1
        if n > 1:
            require(x1 > left - EPS and x2 < right + EPS + 0.002 * n,
                    'line from %.2f to %.2f, outside of its box %.2f-%.2f',
                    x1, x2, left, right)
        if align in 'lj':
            require(abs(x1 - left) < EPS, '%s line starts at %.2f, its box at '
                    '%.2f', align, x1, left)
        if align == 'r' or align == 'j' and not last and n > 1:
            require(abs(x2 - right) < 0.1 + 0.002 * n, '%s line ends at %.2f, '
                    'its box at %.2f', align, x2, right)
            if align == 'j':
                out.add('justified line')
                if any(isinstance(g.ch, set) for _, g, _ in body):
                    out.add('justified TrueType line')
        if align == 'c':
            require(abs(x1 + x2 - left - right) < 2 * EPS, 'centered line from '
                    '%.2f to %.2f in %.2f-%.2f', x1, x2, left, right)
        if not last:
            nxt = [w for _, w in lines[i + 1][1] if w is not None][0][3]
            total = 0.0
            for c in chars:
                if body[0][2][3] <= c[3] <= nxt:
                    total += c[1].width(c[0]) * c[2]
            total += sum(gaps[q] for q in range(body[0][2][3] + 1, nxt + 1))
            require(total > right - left - EPS, 'the next word fits in the '
                    'line: %.2f in %.2f', total, right - left)
            out.add('wrapped line')
        # nothing is drawn with the fonts but what was asked for
        for g, w in gl:
            if w is None and isinstance(g.ch, set):
                progs = {id(c[1]): c[1] for c in chars}
                if lst:
                    progs[id(lst[1])] = lst[1]
                require(any(not isinstance(q, Std) and g.code == q.gid[32]
                            for q in progs.values()), 'unexpected glyph')


@contextlib.contextmanager
def scratch():
    tmp = tempfile.mkdtemp(prefix='c26-')
    try:
        yield tmp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(c):
    out = set()
    with scratch() as tmp:
        reg = Registry(tmp, next(_uid))
        fonts = [font_bytes(p) for p in c['fonts']]
        for fam, modes in enumerate(c['families']):
            for mode, k in modes:
                reg.register(fam, MODES[mode], fonts[k % len(fonts)])

        def again(d):
            for fam, mode, k in d['reg']:
                if fam < len(c['families']):
                    reg.register(fam, MODES[mode], fonts[k % len(fonts)])
                    out.add('registered between documents')
        docs = []
        if c['together']:
            for d in c['docs']:
                again(d)
            docs = [Doc(d, reg) for d in c['docs']]
            for dc in docs:
                dc.start()
            live = [dc.steps() for dc in docs]
            while live:
                live = [s for s in live if next(s, 0) is None]
            if len(docs) > 1:
                out.add('documents built in turns')
            results = [pages(dc.finish()) for dc in docs]
        else:
            results = []
            for d in c['docs']:
                again(d)
                dc = Doc(d, reg)
                docs.append(dc)
                dc.start()
                for _ in dc.steps():
                    pass
                results.append(pages(dc.finish()))
        progs = set()
        for dc, (doc, pvs) in zip(docs, results):
            check_doc(dc, doc, pvs, out)
            out.add('how ' + dc.d['how'])
            if len(pvs) > 1:
                out.add('several pages')
            progs |= {id(ch[1]) for p in dc.pars for ch in p[1]
                      if not isinstance(ch[1], Std)}
        tt = bool(progs)
        if tt:
            out.add('TrueType text')
    nt = tt and (len(progs) > 1 or len(c['docs']) > 1 or
                 'justified TrueType line' in out or
                 'glyph code with a special byte' in out)
    return Info(nt, out)


# fonts with many glyphs ------------------------------------------------------

def big_cases():
    out = []
    for k, total in enumerate([0xd820, 0xe010, 0xffff, 0x2900] * 2):
        rnd = random.Random(k)
        out.append({'seed': k, 'total': total, 'align': 'lj'[k // 4],
                    'words': [[rnd.randrange(200) for _ in range(
                        rnd.randint(1, 6))] for _ in range(12)]})
    return out


def check_big(c):
    font = {'seed': c['seed'], 'chars': list(range(20, 40)), 'special': [],
            'pad': 0, 'runs': False, 'share': False, 'nbsp': False,
            'upem': 1000, 'widths': 'random', 'os2': 4, 'name': 'ps',
            'post': 3, 'total': c['total']}
    run = {'font': 0, 'mode': 0, 's': 11, 'words': c['words'], 'tail': '',
           'form': 'dot'}
    info = check({'fonts': [font], 'families': [[[0, 0]]], 'together': False,
                  'docs': [{'how': 'text', 'w': 150, 'h': 150, 'reg': [],
                            'pars': [{'runs': [run], 'align': c['align'],
                                      'list': False}]}]})
    return Info(True, info.labels + ['font of %d glyphs' % c['total']])


# fonts that may not be embedded ----------------------------------------------

def refused_case():
    return st.fixed_dictionaries({
        'fonts': st.lists(FONT, min_size=2, max_size=2),
        'fstype': st.sampled_from([2, 0x200, 0x202, 0x208, 0x204, 0x300]),
        'os2': st.sampled_from([0, 1, 3, 4]),
        'modes': st.lists(st.integers(0, 3), min_size=2, max_size=2),
        'how': st.sampled_from(['text', 'content', 'table', 'build']),
        'before': st.booleans(), 'again': st.booleans(),
        'unknown': st.booleans(),
        'words': st.lists(WORD, min_size=1, max_size=5),
    })


def check_refused(c):
    from pdfme import PDF, build_pdf
    good, bad = c['fonts']
    good = font_bytes(good)
    bad = font_bytes(dict(bad, fstype=c['fstype'], os2=c['os2']))
    with scratch() as tmp:
        reg = Registry(tmp, next(_uid))
        m = [MODES[k] for k in c['modes']]
        reg.register(0, m[0], good)
        if not c['unknown']:
            reg.register(1, m[1], bad)

        def par(fam, mode, prog):
            text = ' '.join(''.join(prog.chars[k % len(prog.chars)]
                                    for k in w) for w in c['words'])
            return {'.': text, 'style': {'f': reg.name(fam),
                                         'b': 'b' in mode, 'i': 'i' in mode}}

        def draw(pdf, p):
            if c['how'] == 'content':
                pdf.content({'content': [p]})
            elif c['how'] == 'table':
                pdf.table([[p]])
            else:
                pdf.text(p)

        def forbidden():
            """draws with the font that may not be used"""
            p = par(1, m[1], bad)
            try:
                if c['how'] == 'build':
                    build_pdf({'sections': [{'content': [p]}]}, io.BytesIO())
                else:
                    draw(pdf, p)
            except Exception:
                return
            fail('a font %s was used', 'never registered' if c['unknown']
                 else 'whose licence forbids embedding it (fsType %#x)' %
                 c['fstype'])

        with sut('PDF'):
            pdf = PDF()
            pdf.add_page()
        if c['before']:
            with sut('text'):
                draw(pdf, par(0, m[0], good))
        forbidden()
        if c['again']:
            forbidden()
        with sut('text'):
            draw(pdf, par(0, m[0], good))
        doc, pvs = pages(write(pdf))
        fonts = set()
        for pv in pvs:
            for g in pv.glyphs:
                if not is_space(g):
                    check_font(doc, g.font, good)
                    fonts.add(id(g.font))
        require(fonts, 'the text of the other font is missing')
        for o in doc.objects.values():
            if isinstance(o, dict) and 'FontFile2' in o:
                data = doc.get(o, 'FontFile2').data()
                require(Program(data).facts() == good.facts(),
                        'a font that was refused is in the document')
    return Info(True, ['unknown font' if c['unknown'] else 'fsType %#x' %
                       c['fstype'], 'how ' + c['how']])


PARTS = [Part('refused', refused_case, check_refused, 200, 3000),
         Part('fonts', case, check, 2400, 40000),
         Part('shipped', lambda: case(st.one_of(REAL, FONT), 1), check, 160,
              1600),
         Part('big', None, check_big, 0, enumerate_=big_cases)]
