"""C30: an element looks the same wherever it is placed."""
import io
import re

from hypothesis import strategies as st

from lib import box, nav, rich, tab
from lib.common import build, render, require
from lib.harness import Info, Part, sut

TECHNIQUE = ('property-based testing (Hypothesis) with a metamorphic '
             'relation: an element drawn on a page directly and inside '
             'generated containers has to look the same, moved')
LEVEL_NOTE = ('Random search over elements and up to three containers '
              'around them. Held on all generated cases, not proved.')
RULE = ('Each case is a paragraph, an image, a table or a content box, drawn '
        'directly and then inside boxes, groups, table cells, sections and '
        'running sections that leave it the same width. Non-trivial: it is '
        'inside a table cell or at least two containers, and what is drawn '
        'takes at least two lines or has fills, borders, images or links.')
EPS = 0.03
HIGH = 3000
MARK = 0.77     # colour of all that belongs to the containers but fills
MARK_FILL = 0.88


# generation ----------------------------------------------------------------

def one(*v):
    return st.sampled_from(v)


def opt(**kw):
    return st.fixed_dictionaries({}, optional=kw)


TAGS = st.one_of(st.none(), opt(
    uri=one('https://a.b/c?d=(1)', 'u v', '$ref:x'), ref=one('lab', 'A('),
    label=one('lab', 'z'), outline=st.just({'text': 'title'})))


def par_st():
    return st.fixed_dictionaries({
        't': st.just('p'), 'node': st.one_of(
            rich.node_st(max_words=14, tags=TAGS, depth=1),
            rich.node_st(max_words=30, depth=1)),
        'style': opt(text_align=one('l', 'r', 'c', 'j'), indent=one(0, 15),
                     line_height=one(1, 1.5), list_text=one('* ', '12) '),
                     list_indent=one(9, 30), list_style=one(
                         {'s': 6}, {'b': 1, 'c': 'red'}), s=one(8, 11, 15))})


def table_st(**kw):
    return tab.case_st(**kw).map(lambda p: {'t': 't', 'p': p})


def wrap_st():
    words = one(None, None, 1, 12)
    return st.one_of(
        st.fixed_dictionaries({
            'w': st.just('box'), 'before': words, 'after': words,
            'm': st.tuples(one(0, 0, 13), one(0, 0, 6.5), one(0, 7),
                           one(0, 5)).map(list)}),
        st.fixed_dictionaries({
            'w': st.just('group'), 'before': words, 'after': words,
            'm': st.tuples(one(0, 0, 13), one(0, 0, 6.5), one(0, 7),
                           one(0, 5)).map(list)}),
        *[st.fixed_dictionaries({
            'w': st.just('cell'), 'R': one(1, 2, 2, 3), 'C': one(1, 2, 2, 3),
            'r': st.integers(0, 2), 'c': st.integers(0, 2),
            'rs': st.integers(1, 3), 'cs': st.integers(1, 3),
            'm': st.one_of(st.none(), st.tuples(
                one(0, 5), one(0, 8), one(0, 3), one(0, 11)).map(list)),
            'own': st.booleans(), 'share': one(1, 1.5, 0.5),
            'border': one(None, 0, 1, 4), 'given': st.booleans(),
            'fill': one(None, 'style', 'fills', 'fills'),
            'other': one(None, '', 'q', 'q')})] * 2)


def case_st():
    return st.fixed_dictionaries({
        'el': st.one_of(
            par_st(), par_st(), table_st(), table_st(kinds=tab.FLAT),
            table_st(merged=True),
            box.box_st(1, 2, 5).map(lambda p: dict(p, m={})),
            st.just({'t': 'i'})),
        'width': one(150, 210.5, 340),
        'wraps': st.lists(wrap_st(), min_size=1, max_size=3),
        'root': one('content', 'content', 'section', 'running'),
        'above': one(0, 0, 35, 1600)})


# description ---------------------------------------------------------------

class Element:
    """The element of a case."""

    def __init__(self, c):
        p = self.p = c['el']
        self.t = p['t']
        self.formats = {}
        self.width = c['width']
        self.style = {}
        if self.t == 'p':
            self.desc, m = rich.Builder(formats=self.formats).paragraph(
                p['node'])
            self.style = dict(p['style'])
            if not m.words:
                # what a list shows then is not defined
                self.style.pop('list_text', None)
        elif self.t == 't':
            t = tab.Table(p['p'])
            self.width = t.x[-1] - t.x[0]
            self.desc = {'table': t.rows, 'borders': t.borders,
                         'fills': t.fills}
            if p['p']['widths']:
                self.desc['widths'] = p['p']['widths']
            self.style = dict(t.style)
        elif self.t == 'b':
            self.width = max(c['width'], 340)
            self.desc = box.Build().root(p)
        else:
            self.desc = {'image': io.BytesIO(box.image_bytes(0, [50, 20])),
                         'extension': 'jpg', 'image_name': 'im0'}

    def alone(self):
        """Whether it has no content boxes in it"""
        return self.t in 'pi' or self.t == 't' and all(
            k['k'] in tab.FLAT for k in self.p['p']['cells'])

    def draw(self):
        """Directly"""
        from pdfme import PDF
        with sut():
            pdf = PDF(page_size=[self.width, HIGH], margin=0)
            pdf.formats.update(self.formats)
            pdf.add_page()
            if self.t == 'p':
                s = {k: v for k, v in self.style.items() if k != 's'}
                d = self.desc
                if 's' in self.style:
                    d = {'.': [d], 'style': {'s': self.style['s']}}
                pdf.text(d, **s)
            elif self.t == 't':
                pdf.table(self.desc['table'], self.desc.get('widths'),
                          self.style, self.desc['borders'],
                          self.desc['fills'])
            elif self.t == 'b':
                pdf.content(self.desc)
            else:
                pdf.image(self.desc['image'], 'jpg', 'im0')
        return render(pdf)

    def dict(self, extra):
        """As an element of something else"""
        if self.t == 'p':
            d = {'.': [self.desc]}
        else:
            d = dict(self.desc)
        d['style'] = dict(d.get('style', {}), **self.style, **extra)
        return d


def marker(n):
    return {'.': ' '.join(['q'] * n), 'style': {
        's': 7, 'c': MARK, 'f': 'Helvetica', 'b': 0, 'i': 0, 'u': 0, 'r': 0,
        'bg': None, 'text_align': 'l', 'indent': 0, 'list_text': None}}


SIDES = ('left', 'right', 'top', 'bottom')


class Wrapped:
    """The element in its containers: what to draw, how wide it has to be
    and how far to the right of its left side the element is."""

    def __init__(self, el, c):
        self.el = el
        self.width, self.x = el.width, 0
        self.d = None
        self.cells = self.boxes = 0
        self.kind = el.t
        for w in c['wraps']:
            if w['w'] == 'group' and self.kind not in 'pti':
                w = dict(w, w='box')
            if w['w'] == 'cell' and self.own_cell():
                self.box({'before': None, 'after': None, 'm': [0] * 4})
            getattr(self, 'cell' if w['w'] == 'cell' else 'box')(w)
        if self.kind not in 'b':
            self.box({'before': None, 'after': None, 'm': [0] * 4})

    def own_cell(self):
        """Whether what there is so far is a table that would take what
        belongs to a cell around it"""
        style = self.el.style if self.d is None else self.d.get('style', {})
        return self.kind == 't' and any(k.startswith('cell') for k in style)

    def inside(self, extra):
        """The description so far, with other keys in its style"""
        if self.d is None:
            return self.el.dict(extra)
        return dict(self.d, style=dict(self.d.get('style', {}), **extra))

    def box(self, w):
        # margins pass to the boxes in it
        m = w['m'] if self.d is None and self.el.alone() else [0] * 4
        els = [self.inside({'margin_' + k: v for k, v in zip(SIDES, m)}
                           if any(m) else {})]
        if w['before']:
            els.insert(0, marker(w['before']))
        if w['after']:
            els.append(marker(w['after']))
        group = w.get('w') == 'group'
        self.d = {'group' if group else 'content': els}
        self.kind = 'g' if group else 'b'
        self.width += m[0] + m[1]
        self.x += m[0]
        self.boxes += 1
        if group:
            self.d = {'content': [self.d]}
            self.kind = 'b'

    def cell(self, w):
        R, C = w['R'], w['C']
        r, c = min(w['r'], R - 1), min(w['c'], C - 1)
        rs = min(w['rs'], R - r)
        cs = min(w['cs'], C - c)
        if cs == C:
            rs = 1
        m = w['m'] or [5] * 4
        bw = 0.5 if w['border'] is None else w['border']
        more = {}
        style = {'border_color': MARK}
        if w['border'] is not None:
            if w['given']:
                more['borders'] = [{'pos': p, 'width': bw, 'color': MARK}
                                   for p in ('h:;:', 'v:;:')]
            else:
                style['border_width'] = bw
        if w['fill'] == 'style':
            style['cell_fill'] = MARK_FILL
        elif w['fill'] == 'fills':
            more['fills'] = [{'pos': '%d;%d' % (r, c), 'color': MARK_FILL}]
        mine = {}
        if w['m']:
            (mine if w['own'] and self.kind != 't' else style).update(
                {'cell_margin_' + k: v for k, v in zip(SIDES, m)})
        d = self.inside(mine)
        if rs > 1:
            d['rowspan'] = rs
        if cs > 1:
            d['colspan'] = cs
        rows = []
        for i in range(R):
            row = []
            for j in range(C):
                if (i, j) == (r, c):
                    row.append(d)
                elif r <= i < r + rs and c <= j < c + cs:
                    row.append(None)
                else:
                    row.append(marker(1) if w['other'] == 'q' or i != r
                               else w['other'])
            rows.append(row)
        shares = [1 if c <= j < c + cs else w['share'] for j in range(C)]
        content = self.width + m[0] + m[1] + bw
        full = content * sum(shares) / sum(shares[c:c + cs])
        self.x += m[0] + bw / 2 + full * (sum(shares[:c]) / sum(shares))
        self.d = {'table': rows, 'widths': shares, 'style': style, **more}
        self.width = full
        self.kind = 't'
        self.cells += 1

    def draw(self, c):
        """document, pages, left of the element"""
        from pdfme import PDF
        above = {'.': 'q', 'style': {'s': 7, 'c': MARK,
                                     'margin_bottom': c['above']}}
        root = {'content': [self.d]}
        if c['above']:
            root['content'].insert(0, above)
        if c['root'] == 'content':
            with sut():
                pdf = PDF(page_size=[self.width + 50, HIGH + 2000],
                          margin=[20, 20, 20, 30])
                pdf.formats.update(self.el.formats)
                pdf.add_page()
                pdf.content(root)
            return (*render(pdf), 30 + self.x)
        doc = {'formats': self.el.formats, 'style': {
            'page_size': [self.width + 50, HIGH + 2000],
            'margin': [20, 20, 20, 30]}}
        if c['root'] == 'section':
            doc['sections'] = [root]
            return (*build(doc), 30 + self.x)
        doc['running_sections'] = {'head': dict(
            root, x=17, y=33, width=self.width, height=HIGH + 1900)}
        doc['sections'] = [{'content': [marker(1)], 'running_sections': [
            'head']}]
        return (*build(doc), 17 + self.x)


# comparison ----------------------------------------------------------------

def gray(color, v):
    return color is not None and len(color) == 1 and abs(color[0] - v) < 1e-6


def shown(doc, pv):
    """{kind: [(what, corners, colour)...]} of what an element shows"""
    out = {}
    out['glyphs'] = [
        ('%s %s %g %g' % (g.ch, g.font.base, g.size, g.rise),
         (g.x, g.base), g.color) for g in pv.glyphs if not gray(g.color, MARK)]
    out['fills'] = [('fill', (f.x, f.y, f.x + f.w, f.y + f.h), f.color)
                    for f in pv.fills if not gray(f.color, MARK_FILL)]
    out['lines'] = [('line %s %s %g' % (
        l.cap, [round(v, 2) for v in flat(l.dash)], l.width),
        (l.x1, l.y1, l.x2, l.y2), l.color)
        for l in pv.lines if not gray(l.color, MARK)]
    out['images'] = [('image %r' % doc.resolve(i.ref).raw[6:10], (
        i.x, i.y, i.x + i.w, i.y + i.h), ()) for i in pv.images]
    out['links'] = [('%s %r' % (kind, to), rect, ())
                    for rect, kind, to in nav.links(doc, pv)]
    # those of outlines without a label have names made up
    out['labels'] = sorted(
        (repr(k) if label(k) else 'outline', v[1:], ())
        for k, v in nav.dests(doc, {pv.page['__ref__']: 0}).items())
    return out


def label(k):
    return bool(re.fullmatch(rb'(lab|z)\d*', k))


def flat(v):
    if isinstance(v, (list, tuple)):
        return [x for w in v for x in flat(w)]
    return [v or 0]


def check(c):
    el = Element(c)
    da, pa = el.draw()
    el = Element(c)
    wrapped = Wrapped(el, c)
    db, pb, left = wrapped.draw(c)
    require(len(pa) == len(pb) == 1, '%d pages directly, %d in containers',
            len(pa), len(pb))
    a, b = shown(da, pa[0]), shown(db, pb[0])
    off = None
    for k in a:
        require(len(a[k]) == len(b[k]), 'the element shows %d %s, %d in its '
                'containers', len(a[k]), k, len(b[k]))
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            require(x[0] == y[0], '%s %d is %s directly and %s in '
                    'containers', k, i, x[0], y[0])
            require(same(x[2], y[2]), '%s %d (%s) has colour %s directly '
                    'and %s in containers', k, i, x[0], x[2], y[2])
            if off is None:
                off = left, y[1][1] - x[1][1]
            for n, (u, v) in enumerate(zip(x[1], y[1])):
                require(abs(u + off[n % 2] - v) < EPS, '%s %d (%s) is at %s '
                        'directly and at %s in containers, where the '
                        'element is %s away', k, i, x[0], x[1], y[1], off)
    # nothing of the containers hides it
    for f in pb[0].fills:
        if gray(f.color, MARK_FILL):
            for o in pb[0].glyphs + pb[0].images + pb[0].lines + [
                    f2 for f2 in pb[0].fills
                    if not gray(f2.color, MARK_FILL)]:
                require(o.seq > f.seq or not inside(o, f), 'the fill of a '
                        'cell around the element hides part of it')
    kinds = sum(bool(a[k]) for k in ('fills', 'lines', 'images', 'links'))
    lines = len({round(y, 2) for _, (_, y), _ in a['glyphs']})
    return Info((wrapped.cells > 0 or wrapped.boxes > 1) and
                (lines > 1 or kinds > 0),
                [el.t, c['root'], '%d cells' % wrapped.cells])


def same(a, b):
    a, b = a or (), b or ()
    return len(a) == len(b) and all(abs(x - y) < 0.002 for x, y in zip(a, b))


def inside(o, f):
    """Whether something is (at least in part) on a fill"""
    if hasattr(o, 'x1'):
        x, y = (o.x1 + o.x2) / 2, (o.y1 + o.y2) / 2
    elif hasattr(o, 'w') and hasattr(o, 'h'):
        x, y = o.x + o.w / 2, o.y + o.h / 2
    else:
        x, y = o.x, o.base + o.size / 3
    return f.x < x < f.x + f.w and f.y < y < f.y + f.h


PARTS = [Part('placement', case_st, check, 4000, 60000)]
