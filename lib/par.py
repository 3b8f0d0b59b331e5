"""Paragraph layouts: generated documents of paragraphs, and the matching of
what the written pages show against the model of each paragraph."""
from hypothesis import strategies as st

from . import rich
from .common import pages, write
from .harness import Violation, require, sut

ALIGNS = ['l', 'r', 'c', 'j']
LISTS = ['1. ', '* ', '-', 'a) ', '(1)\\', '\xb7 ', 'xii. ']


def layout_st(h=(150, 200, 260, 400), w=(160, 230, 320, 430), aligns=ALIGNS,
              max_pars=4, node=None, lists=True, how=('text', 'content'),
              lhs=(1, 1.1, 1.5, 2, 1.25, 0.8, 3), indents=(0, 0, 20, 35.5)):
    node = node if node is not None else rich.node_st(max_words=14)
    lst = st.one_of(st.none(), st.none(), st.fixed_dictionaries({
        'text': st.sampled_from(LISTS),
        'indent': st.sampled_from([None, None, 20, 31.7, 0]),
        'style': st.one_of(st.none(), rich.style_st(('b', 'c', 's', 'f'),
                                                   [8, 11, 14])),
    })) if lists else st.none()
    par = st.fixed_dictionaries({
        'node': node,
        'align': st.sampled_from([None] + list(aligns)),
        'lh': st.sampled_from([None] + list(lhs)),
        'indent': st.sampled_from([None] + list(indents)),
        'list': lst,
    })
    return st.fixed_dictionaries({
        'page': st.tuples(st.sampled_from(w), st.sampled_from(h)).map(list),
        'margin': st.sampled_from([[10, 10, 10, 10], [20, 5, 30, 15],
                                   [0, 0, 0, 0]]),
        'defaults': st.fixed_dictionaries({}, optional={
            'font_family': st.sampled_from(rich.FONTS),
            'font_size': st.sampled_from([9, 12]),
            'font_color': st.integers(0, len(rich.COLORS) - 1),
            'text_align': st.sampled_from(list(aligns)),
            'line_height': st.sampled_from(list(lhs)),
            'indent': st.sampled_from(list(indents)),
        }),
        'how': st.sampled_from(how),
        'pars': st.lists(par, min_size=1, max_size=max_pars),
    })


class Par:
    """A paragraph as asked for and as observed."""
    # model, desc; align, lh, indent, list_text, list_style, list_indent;
    # lines (TextLine list), list_glyphs, box (x, width), page geometry


class TextLine:
    """Consecutive glyphs on one baseline of one page."""

    def __init__(self, page, base):
        self.page = page
        self.base = base
        self.glyphs = []      # in paint order, spaces included
        self.vis = []         # [(glyph, Char)]
        self.first = self.last = None     # word indices

    def __repr__(self):
        return 'page %d y %.2f %r' % (self.page, self.base, self.text())

    def text(self):
        return ''.join(g.ch for g in self.glyphs)

    @property
    def x1(self):
        return self.vis[0][0].x

    @property
    def x2(self):
        return self.vis[-1][0].x2


def plan_list_style(ls):
    if ls is None:
        return None, {}
    d, m = {}, {}
    for k, v in ls.items():
        if k in ('c', 'bg'):
            d[k] = None if v is None else rich.COLORS[v][0]
            m[k] = None if v is None else rich.COLORS[v][1]
        else:
            d[k] = m[k] = v
    return d, m


def make_pdf(c, height=None):
    from pdfme import PDF
    d = dict(c['defaults'])
    if 'font_color' in d:
        d['font_color'] = rich.COLORS[d['font_color']][0]
    size = list(c['page'])
    if height is not None:
        size[1] = height
    return PDF(page_size=size, margin=list(c['margin']), **d)


def base_style(c):
    d = c['defaults']
    b = {}
    if 'font_family' in d:
        b['f'] = d['font_family']
    if 'font_size' in d:
        b['s'] = d['font_size']
    if 'font_color' in d:
        b['c'] = rich.COLORS[d['font_color']][1]
    return b


def lay_out(c, height=None):
    """Build the document of case c -> (doc, pages, [Par])."""
    from .gendoc import expand_fmt, merge_style
    with sut():
        pdf = make_pdf(c, height)
        bld = rich.Builder(formats=pdf.formats)
        pdf.add_page()
    base = base_style(c)
    pars = []
    els = []
    d = c['defaults']
    for k, p in enumerate(c['pars']):
        desc, m = bld.paragraph(p['node'], base)
        o = Par()
        o.model = m
        o.align = p['align'] or d.get('text_align', 'l')
        o.lh = p['lh'] if p['lh'] is not None else d.get('line_height', 1.1)
        o.indent = p['indent'] if p['indent'] is not None else \
            d.get('indent', 0)
        o.list_text = None
        kw = {}
        for a, b in (('align', 'text_align'), ('lh', 'line_height'),
                     ('indent', 'indent')):
            if p[a] is not None:
                kw[b] = p[a]
        if p['list']:
            o.list_text = kw['list_text'] = p['list']['text']
            ls, lm = plan_list_style(p['list']['style'])
            o.list_style = dict(m.first_style or m.base, **lm)
            if ls is not None:
                kw['list_style'] = ls
            o.list_indent = p['list']['indent']
            if o.list_indent is not None:
                kw['list_indent'] = o.list_indent
            else:
                o.list_indent = text_width(o.list_text, o.list_style)
        else:
            o.list_indent = 0
        pars.append(o)
        if c['how'] == 'text':
            with sut():
                for v, t in m.vars.items():
                    pdf.context[v] = t
                pdf.text(desc, **kw)
        else:
            with sut():
                for v, t in m.vars.items():
                    pdf.context[v] = t
            els.append(merge_style(expand_fmt(desc, pdf.formats), kw))
    if c['how'] == 'content':
        with sut():
            pdf.content({'content': els})
    doc, pvs = pages(write(pdf))
    match(c, pvs, pars)
    return doc, pvs, pars


def text_width(text, style):
    from .interp import STD_WIDTHS
    w = STD_WIDTHS[rich.base_font(style)]
    return sum(w[ord(ch)] for ch in text) * style['s'] / 1000.0


def group_lines(glyphs):
    lines = []
    for g in glyphs:
        if not lines or lines[-1].page != g.page or \
                abs(lines[-1].base - g.base) > 0.01:
            lines.append(TextLine(g.page, g.base))
        lines[-1].glyphs.append(g)
    return lines


def match(c, pvs, pars):
    """Align the glyphs drawn with the characters expected; assigns the lines
    of each paragraph. Text lost, repeated, reordered or changed raises."""
    glyphs = [g for pv in pvs for g in pv.glyphs]
    want = []
    for o in pars:
        if o.list_text:
            want += [(o, None, ch) for ch in o.list_text if ch != ' ']
        want += [(o, ch, ch.ch) for ch in o.model.chars()]
    vis = [g for g in glyphs if g.ch != ' ']
    for i, (g, w) in enumerate(zip(vis, want)):
        if g.ch != w[2]:
            raise Violation('text drawn is %r, expected %r' % (
                ''.join(x.ch for x in vis[max(0, i - 10):i + 25]),
                ''.join(x[2] for x in want[max(0, i - 10):i + 25])))
    require(len(vis) == len(want), '%d characters drawn, expected %d: drawn '
            '...%r, expected ...%r', len(vis), len(want),
            ''.join(x.ch for x in vis[-30:]),
            ''.join(x[2] for x in want[-30:]))
    for o in pars:
        o.lines, o.list_glyphs = [], []
    k = 0
    for ln in group_lines(glyphs):
        owner = None
        pend = []
        for g in ln.glyphs:
            if g.ch == ' ':
                pend.append(g)
                continue
            o, ch, _ = want[k]
            k += 1
            if owner is not None and owner is not o:
                raise Violation('two paragraphs share the line %r' % ln)
            owner = o
            if ch is None:
                o.list_glyphs.append(g)
            else:
                if not ln.vis:
                    o.lines.append(ln)
                    ln.first = ch.word
                ln.vis.append((g, ch))
                ln.last = ch.word
    mt, mr, mb, ml = c['margin'][0], c['margin'][1], c['margin'][2], \
        c['margin'][3]
    for o in pars:
        o.x = ml
        o.width = c['page'][0] - ml - mr


def check_words(o):
    """Words are contiguous and separated, forced breaks are kept."""
    prev = None          # (line, glyph, Char)
    for ln in o.lines:
        spaces = 0
        seen = dict((id(g), ch) for g, ch in ln.vis)
        for g in ln.glyphs:
            ch = seen.get(id(g))
            if ch is None:
                if g.ch == ' ':
                    spaces += 1
                continue
            if prev is not None:
                pl, pg, pc = prev
                if ch.word == pc.word:
                    require(pl is ln and spaces == 0, 'a word is split: %r',
                            ln)
                    require(abs(g.x - pg.x2) < 0.03, 'gap of %.3f inside a '
                            'word of %r', g.x - pg.x2, ln)
                elif pl is ln:
                    require(spaces > 0, 'words are joined in %r', ln)
                    require(ch.word not in o.model.breaks, 'a forced line '
                            'break is lost: %r', ln)
            spaces = 0
            prev = (ln, g, ch)


# -- geometry -----------------------------------------------------------------

EPS = 0.06


def line_kind(o, i):
    """(is first line, ends the paragraph or comes before a forced break)"""
    first = i == 0
    if i == len(o.lines) - 1:
        return first, True
    nxt = o.lines[i + 1].first
    return first, nxt in o.model.breaks


def starts_forced(o, i):
    ln = o.lines[i]
    return ln.first in o.model.breaks


def word_width(w):
    return sum(text_width(c.ch, c.st) for c in w)


def space_width(st_):
    return text_width(' ', st_)


def check_geometry(o):
    """Box, greedy filling and alignment of one paragraph (C09)."""
    out = set()
    words = o.model.words
    if o.list_glyphs:
        require(abs(o.list_glyphs[0].x - (o.x + leading_space(o))) < EPS,
                'list text starts at %.2f, the box at %.2f',
                o.list_glyphs[0].x, o.x)
    for i, ln in enumerate(o.lines):
        first, last = line_kind(o, i)
        # indentation belongs to the paragraph's first line, even when a
        # forced break leaves that line empty
        first = first and ln.first not in o.model.breaks
        left = o.x + o.list_indent + (o.indent if first else 0)
        right = o.x + o.width
        avail = right - left
        n = ln.last - ln.first + 1
        x1, x2 = ln.x1, ln.x2
        if n > 1:
            require(x1 > left - EPS and x2 < right + EPS,
                    'line %r reaches from %.2f to %.2f, outside of its box '
                    '%.2f-%.2f (align %s)', ln.text(), x1, x2, left, right,
                    o.align)
        if o.align == 'l':
            require(abs(x1 - left) < EPS, 'left aligned line %r starts at '
                    '%.2f, its box at %.2f', ln.text(), x1, left)
        elif o.align == 'r':
            require(abs(x2 - right) < EPS, 'right aligned line %r ends at '
                    '%.2f, its box at %.2f', ln.text(), x2, right)
        elif o.align == 'c':
            require(abs((x1 + x2) / 2 - (left + right) / 2) < EPS,
                    'centered line %r reaches from %.2f to %.2f, its box '
                    'from %.2f to %.2f', ln.text(), x1, x2, left, right)
        else:
            require(abs(x1 - left) < EPS, 'justified line %r starts at '
                    '%.2f, its box at %.2f', ln.text(), x1, left)
            if not last and n > 1:
                require(abs(x2 - right) < 0.1 + 0.002 * n, 'justified line %r '
                        'ends at %.2f, its box at %.2f', ln.text(), x2, right)
        # greedy: the first word of the next line did not fit here
        if not last:
            nat = sum(g.w for g in inner(ln))
            gap = max(space_width(s) for s in
                      o.model.gaps[o.lines[i + 1].first])
            w = word_width(words[o.lines[i + 1].first])
            require(nat + gap + w > avail - EPS, 'line %r is %.2f wide and '
                    'the next word %.2f, both fit in %.2f, but the word was '
                    'moved', ln.text(), nat, w, avail)
            out.add('wrapped line, align ' + o.align)
        if first and o.indent:
            out.add('indented line')
        if o.list_text and i > 0:
            out.add('second line of a list paragraph')
        if len({g.page for g in ln.glyphs}) != 1:
            raise Violation('line on two pages')
    return out


def leading_space(o):
    t = o.list_text
    return text_width(t[:len(t) - len(t.lstrip(' '))], o.list_style)


def inner(ln):
    """glyphs from the first to the last visible one"""
    ids = {id(g) for g, _ in ln.vis}
    idx = [k for k, g in enumerate(ln.glyphs) if id(g) in ids]
    return ln.glyphs[idx[0]:idx[-1] + 1]


def touching(o, i):
    """styles of everything that may be part of line i"""
    ln = o.lines[i]
    m = o.model
    out = [ch.st for _, ch in ln.vis]
    for k in range(ln.first, ln.last + 1):
        out += m.gaps[k]
    out += m.after.get(ln.last, [])
    if ln.last + 1 < len(m.words):
        out += m.gaps[ln.last + 1]
        # a part opened inside the next word is not on this line
    else:
        out += m.tail
    return out


def metrics(o, i):
    """((lo, hi) of the line height above its baseline, (lo, hi) of what it
    takes below)"""
    ln = o.lines[i]
    vis = [ch.st for _, ch in ln.vis]
    tou = touching(o, i)

    def top(sts):
        return max(s['s'] for s in sts) + max(
            [s['r'] * s['s'] for s in sts if s['r'] > 0] or [0])

    def bottom(sts):
        return max([-s['r'] * s['s'] for s in sts if s['r'] < 0] or [0])
    return (top(vis), top(tou)), (bottom(vis), bottom(tou))


def max_style(o):
    sts = [ch.st for w in o.model.words for ch in w]
    for g in list(o.model.gaps.values()) + list(o.model.after.values()):
        sts += g
    sts += o.model.tail
    return max([s['s'] * (1 + abs(s['r'])) for s in sts] or [20])


def step(o, i, forced_extra=True):
    """Bounds of the distance from line i-1 to line i on the same page."""
    (t_lo, t_hi), _ = metrics(o, i)
    _, (b_lo, b_hi) = metrics(o, i - 1)
    lh = o.lh
    nb = o.model.breaks.get(o.lines[i].first, 0)
    if nb:
        # after a forced break the library adds up to line_height points, and
        # lines without text are as high as the spaces in them
        blank = nb * (max_style(o) + lh) if nb > 1 else 0
        return t_lo * lh, (t_hi + b_hi + lh + blank) * lh
    return (t_lo + b_lo) * lh, (t_hi + b_hi) * lh


def first_step(o, i):
    """Bounds of the distance from the top of the rectangle to line i."""
    (t_lo, t_hi), _ = metrics(o, i)
    ls = 0
    if i == 0 and o.list_text:
        ls = o.list_style['s']
    nb = o.model.breaks.get(o.lines[i].first, 0)
    blank = nb * (max_style(o) + o.lh) * max(1, o.lh)
    # blank lines may have been placed above, with the list text or on the
    # page before
    low = max(t_lo, ls) if not nb else t_lo if o.lh >= 1 else 0
    return low, max(t_hi + 2 * o.lh, ls) * (
        max(1, o.lh) if nb else 1) + blank
