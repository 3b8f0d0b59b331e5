"""C29: styles pass from documents and containers to what is inside them."""
import io

from hypothesis import strategies as st

from lib import box
from lib.common import pages, require
from lib.harness import Info, Part, Violation, sut
from lib.same import same_pages

TECHNIQUE = ('property-based testing (Hypothesis) with a metamorphic '
             'relation, the document with every style resolved by a '
             'reference cascade and written at each element, and a per-word '
             'check of the resolved style')
LEVEL_NOTE = ('Random search over documents of nested sections, boxes, '
              'groups, tables and cells. Held on all generated cases, not '
              'proved.')
RULE = ('Each case is a document whose styles are given at any level, as a '
        'dict, a named format or a dot key. It is built as it is and with '
        'all properties written at each element. Non-trivial: at least two '
        'properties reach a paragraph from a container around it, one of '
        'them through two or more levels.')
EPS = 0.03

TEXT = ('f', 's', 'c', 'b', 'i', 'u', 'bg', 'r')
PAR = ('text_align', 'line_height', 'indent', 'list_text', 'list_indent',
       'list_style')
MARGIN = ('margin_top', 'margin_left', 'margin_right', 'margin_bottom')
CELLS = ('cell_margin', 'cell_fill')
BORDER = ('border_width', 'border_color', 'border_style')
DEFAULTS = dict(
    f='Helvetica', s=11, c=0.1, b=0, i=0, u=0, bg=None, r=0, text_align='l',
    line_height=1.1, indent=0, list_text=None, list_indent=None,
    list_style=None, margin_top=0, margin_left=0, margin_right=0,
    margin_bottom=5, cell_margin=5, cell_fill=None, border_width=0.5,
    border_color=0, border_style='solid', image_place='flow')


# generation ----------------------------------------------------------------

def one(*v):
    return st.sampled_from(v)


VALUES = dict(
    f=('Helvetica', 'Times', 'Courier'), s=(6, 8, 11, 14.5),
    c=('red', 0.5, [0, 0, 1]), b=(0, 1), i=(0, 1), u=(0, 1),
    bg=(None, 'yellow', 0.9), r=(0, 0.2, -0.1),
    text_align=('l', 'r', 'c', 'j'), line_height=(1, 1.1, 1.7),
    indent=(0, 12), list_text=(None, '* ', '12) '),
    list_indent=(None, 25), list_style=(None, {'s': 5}, {'b': 1}),
    margin_top=(0, 4), margin_left=(0, 7), margin_right=(0, 11),
    margin_bottom=(0, 5, 9), cell_margin=(0, 3, 8),
    cell_fill=(None, 0.95, 'cyan'), border_width=(0, 1, 2),
    border_color=(0.3, 'green'), border_style=('solid', 'dashed'),
    image_place=('normal', 'flow'))
LIST = ('list_text', 'list_indent', 'list_style')
KEYS = dict(
    p=TEXT + PAR + MARGIN, c=TEXT + PAR,
    b=TEXT + PAR + MARGIN + CELLS + BORDER + ('image_place',),
    t=TEXT + PAR + MARGIN + CELLS + BORDER,
    i=MARGIN + ('image_place',), cell=CELLS, inner=TEXT,
    dot=('f', 's', 'b', 'i', 'u', 'c'))


def style(kind, most=3):
    """[kind, [which property, which value]...], of the properties that the
    case plays with"""
    return st.lists(st.tuples(st.integers(0, 11), st.integers(0, 11)).map(
        list), max_size=most).map(lambda v: [kind, v])


def named(c):
    """The case with its styles as dicts"""
    pool = c['pool']

    def walk(o):
        if isinstance(o, dict):
            return {k: walk(v) for k, v in o.items()}
        if isinstance(o, list):
            if o and isinstance(o[0], str) and o[0] in KEYS:
                keys = [k for k in pool if k in KEYS[o[0]]]
                out = {}
                for a, b in o[1]:
                    if keys:
                        k = keys[a % len(keys)]
                        out[k] = VALUES[k][b % len(VALUES[k])]
                return out
            return [walk(v) for v in o]
        return o
    return walk({k: v for k, v in c.items() if k != 'pool'})


FMT = one(False, False, True)


def par_st(max_words, kind='p'):
    return st.fixed_dictionaries({
        't': st.just('p'), 'n': st.integers(1, max_words),
        'dot': style('dot', 2),
        'style': style(kind), 'fmt': FMT, 'form': st.integers(0, 3),
        'inner': st.one_of(st.none(), st.none(), style('inner', 2))})


@st.composite
def table_st(draw, depth):
    cell = [par_st(10, 'c'), par_st(10, 'c')]
    if depth:
        cell += [st.builds(lambda b, m: dict(b, cols=1, cell=m),
                           box_st(depth - 1, 3, 'c'), st.none())]
        cell += [table_st(0)]
    cell = st.one_of(*cell)
    return {
        't': 't', 'style': draw(style('t')), 'fmt': draw(FMT),
        'rows': draw(st.lists(st.lists(cell, min_size=2, max_size=2),
                              min_size=1, max_size=2)),
        # of the two cells of each row
        'cells': [[draw(st.one_of(st.none(), style('cell', 2)))
                   for _ in range(2)] for _ in range(2)]}


def group_st():
    return st.fixed_dictionaries({
        't': st.just('g'), 'style': style('b'), 'fmt': FMT,
        'els': st.lists(st.one_of(par_st(8), par_st(8), table_st(0)),
                        min_size=1, max_size=2)})


def image_st():
    return st.fixed_dictionaries({
        't': st.just('i'), 'style': style('i'), 'fmt': FMT,
        'wh': one([40, 8], [30, 10])})


@st.composite
def box_st(draw, depth, most, kind='b'):
    el = [par_st(30), par_st(30), image_st(), table_st(depth > 0), group_st()]
    if depth:
        el += [box_st(depth - 1, 3), box_st(depth - 1, 3)]
    return {
        't': 'b', 'style': draw(style(kind)), 'fmt': draw(FMT),
        'cols': draw(one(1, 1, 1, 2)),
        'els': draw(st.lists(st.one_of(*el), min_size=1, max_size=most))}


def case_st():
    every = sorted(VALUES)
    return st.fixed_dictionaries({
        'pool': st.one_of(
            st.just(every), st.just(list(TEXT + PAR)),
            st.lists(st.sampled_from(every), min_size=3, max_size=6,
                     unique=True),
            st.lists(st.sampled_from(TEXT), min_size=1, max_size=2,
                     unique=True).map(lambda t: list(t) + list(LIST))),
        'style': style('b', 5),
        'sections': st.lists(box_st(2, 4), min_size=1, max_size=2)})


# description and reference cascade -----------------------------------------

class Word:
    def __init__(self, word, style, par):
        self.word, self.style, self.par = word, style, par


class Paragraph:
    def __init__(self, style, plain):
        self.style = style
        self.plain = plain      # no part has a style of its own
        self.words = []
        self.atoms = []


class Maker:
    """Describes a case as it is, or resolved: every element then sets all
    the properties there are."""

    def __init__(self, c, resolved):
        self.c, self.resolved = c, resolved
        self.formats = {}
        self.count = 0
        self.pars = []
        self.words = {}
        self.passed = set()     # properties a paragraph got from outside
        self.deep = 0
        self.columns = 0        # how many boxes in columns are around

    def document(self):
        d = {'style': dict(self.c['style'], page_size=[640, 500], margin=40)}
        eff = self.child((dict(DEFAULTS), {}), self.c['style'])
        if self.resolved:
            d['style'] = {'page_size': [640, 500], 'margin': 40}
        d['sections'] = [self.box(s, eff) for s in self.c['sections']]
        d['formats'] = self.formats
        return d

    def child(self, eff, *styles):
        """(properties, level each was set at) of an element in another"""
        vals, level = dict(eff[0]), {k: v + 1 for k, v in eff[1].items()}
        for s in styles:
            vals.update(s)
            level.update(dict.fromkeys(s, 0))
        return vals, level

    def put(self, d, p, eff, keys, own=None):
        own = p['style'] if own is None else own
        s = {k: eff[0][k] for k in keys} if self.resolved else own
        if p['fmt'] and s:
            name = 'format %d' % len(self.formats)
            self.formats[name] = s
            d['style'] = name
        elif s or p.get('form') == 3:
            d['style'] = s
        return d

    def word(self):
        self.count += 1
        return box.code(self.count)

    def par(self, p, eff, own=None, keys=TEXT + PAR + MARGIN):
        own = dict(p['style']) if own is None else own
        eff = self.child(eff, p['dot'], own)
        ws = [self.word() for _ in range(p['n'])]
        cut = len(ws) if not p['inner'] else len(ws) // 2
        par = Paragraph(eff[0], not p['inner'])
        par.columns = self.columns
        par.words = ws
        self.pars.append(par)
        inner = dict(eff[0], **(p['inner'] or {}))
        for i, w in enumerate(ws):
            self.words[w] = Word(w, eff[0] if i < cut else inner, par)
        got = [k for k, v in eff[1].items() if k in TEXT + PAR and v > 0
               and eff[0][k] != DEFAULTS[k]]
        self.passed.update(got)
        self.deep = max([self.deep] + [eff[1][k] for k in got])
        text = ' '.join(ws[:cut])
        key = '.' if self.resolved else '.' + self.dot(p['dot'])
        if p['inner']:
            text = [text + ' ', {'.': ' '.join(ws[cut:]),
                                 'style': p['inner']}]
        if key == '.' and p['form'] != 3 and not own and not self.resolved:
            if p['form'] == 0 and isinstance(text, str):
                return text
            return text if isinstance(text, list) else [text]
        d = {key: text}
        return self.put(d, p, eff, keys, own)

    def dot(self, s):
        out = []
        for k, v in s.items():
            if k in 'biu':
                # a letter alone is the same as 1
                out.append(k if v else k + ':0')
            elif isinstance(v, list):
                out.append('%s:%s' % (k, ' '.join('%g' % x for x in v)))
            else:
                out.append('%s:%s' % (k, v))
        return ';'.join(out)

    def element(self, p, eff):
        if p['t'] == 'p':
            return self.par(p, eff)
        if p['t'] == 'i':
            self.count += 1
            return self.put({
                'image': io.BytesIO(box.image_bytes(self.count, p['wh'])),
                'image_name': 'im%d' % self.count, 'extension': 'jpg'},
                p, self.child(eff, p['style']), MARGIN + ('image_place',))
        if p['t'] == 'g':
            eff = self.child(eff, p['style'])
            d = {'group': [self.element(x, eff) for x in p['els']]}
            return self.put(d, p, eff, MARGIN)
        if p['t'] == 't':
            return self.table(p, eff)
        return self.box(p, eff)

    def content(self, p, make):
        many = p['cols'] > 1
        self.columns += many
        d = {'content': [make(x) for x in p['els']]}
        self.columns -= many
        if many:
            d['cols'] = {'count': p['cols'], 'gap': 10}
        return d

    def box(self, p, eff, own=None):
        own = p['style'] if own is None else own
        eff = self.child(eff, own)
        d = self.content(p, lambda x: self.element(x, eff))
        return self.put(d, p, eff, MARGIN, own)

    def table(self, p, eff, inside=False, cell=False):
        own = dict(p['style'])
        if inside:
            # the table around it has used up the properties of tables
            for k in CELLS + BORDER:
                own.setdefault(k, DEFAULTS[k])
        eff = self.child(eff, own)
        outer = eff
        if cell:
            # these are for the cell that this table is in
            eff = dict(eff[0], **{k: DEFAULTS[k] for k in CELLS}), eff[1]
        rows = []
        for r, cells in zip(p['rows'], p['cells']):
            row = []
            for x, more in zip(r, cells):
                row.append(self.cell(x, dict(more or {}), eff))
            rows.append(row)
        return self.put({'table': rows}, p, outer, MARGIN + CELLS + BORDER, own)

    def cell(self, x, more, eff):
        own = dict(x['style'], **more)
        keys = ('cell_margin',) + (('cell_fill',) if 'cell_fill' in own
                                   else ())
        if x['t'] == 't':
            # its own style is both the cell's and the table's
            own = dict(DEFAULTS_TABLE, **own)
            x = dict(x, style=own)
            return self.table(x, eff, True, True)
        if x['t'] == 'p':
            return self.par(x, eff, own, TEXT + PAR + keys)
        # what is in a box in a cell gets its properties, but for the cell's
        eff2 = self.child(eff, own)
        vals = eff2[0]
        inner = dict(vals, **{k: DEFAULTS[k] for k in CELLS + BORDER})
        d = {'content': [self.inner(y, (inner, eff2[1])) for y in x['els']]}
        return self.put(d, x, eff2, MARGIN + keys, own)

    def inner(self, y, eff):
        """An element of a box in a cell"""
        if y['t'] == 't':
            return self.table(y, eff, True)
        if y['t'] == 'g':
            eff2 = self.child(eff, y['style'])
            d = {'group': [self.inner(z, eff2) for z in y['els']]}
            return self.put(d, y, eff2, MARGIN)
        if y['t'] == 'b':
            eff2 = self.child(eff, y['style'])
            d = self.content(y, lambda z: self.inner(z, eff2))
            return self.put(d, y, eff2, MARGIN)
        return self.element(y, eff)


DEFAULTS_TABLE = {k: DEFAULTS[k] for k in CELLS + BORDER}


# checking ------------------------------------------------------------------

COLORS = {'red': (1.0, 0.0, 0.0), 'yellow': (1.0, 1.0, 0.0)}
FONTS = {
    'Helvetica': ('Helvetica', 'Helvetica-Bold', 'Helvetica-Oblique',
                  'Helvetica-BoldOblique'),
    'Times': ('Times-Roman', 'Times-Bold', 'Times-Italic',
              'Times-BoldItalic'),
    'Courier': ('Courier', 'Courier-Bold', 'Courier-Oblique',
                'Courier-BoldOblique')}


def rgb(c):
    if isinstance(c, str):
        return COLORS[c]
    c = c if isinstance(c, (list, tuple)) else [c]
    return tuple(float(v) for v in c)


def eq(a, b):
    if len(a) != len(b):
        a = tuple(a) * 3 if len(a) == 1 else a
        b = tuple(b) * 3 if len(b) == 1 else b
    return len(a) == len(b) and all(abs(x - y) < 0.006 for x, y in zip(a, b))


def runs(pv):
    """The words of a page with their glyphs; list texts apart."""
    out, cur = [], []
    for g in pv.glyphs:
        if g.ch == ' ':
            cur = []
        elif g.ch in '*12)':
            cur = []
        else:
            cur.append(g)
            if g.ch == '.':
                out.append((''.join(x.ch for x in cur), cur))
                cur = []
    return out


def check_words(mk, pvs):
    seen = set()
    for pv in pvs:
        for word, gs in runs(pv):
            w = mk.words.get(word)
            require(w is not None and word not in seen, 'the word %r is '
                    'unknown or shown twice', word)
            seen.add(word)
            s = w.style
            font = FONTS[s['f']][(1 if s['b'] else 0) + (2 if s['i'] else 0)]
            for g in gs:
                require(g.font.base == font, '%r is in %s, its style says %s',
                        word, g.font.base, font)
                require(abs(g.size - s['s']) < EPS, '%r has size %g, its '
                        'style says %g', word, g.size, s['s'])
                require(eq(g.color, rgb(s['c'])), '%r has colour %r, its '
                        'style says %r', word, g.color, s['c'])
                require(abs(g.rise - s['r'] * s['s']) < EPS, '%r has rise '
                        '%g, its style says %g', word, g.rise,
                        s['r'] * s['s'])
            x1, x2 = gs[0].x, gs[-1].x2
            y = gs[0].y
            under = any(
                ln.y1 == ln.y2 and ln.x1 < x1 + EPS and ln.x2 > x2 - EPS and
                y - s['s'] * 0.4 < ln.y1 < y and eq(ln.color, rgb(s['c']))
                for ln in pv.lines)
            require(under == bool(s['u']), '%r is %sunderlined, its style '
                    'says u=%r', word, '' if under else 'not ', s['u'])
            if s['bg'] is not None:
                require(any(
                    f.x < x1 + EPS and f.x + f.w > x2 - EPS and
                    f.y < y + EPS and f.y + f.h > y + 0.5 * s['s'] and
                    eq(f.color, rgb(s['bg'])) for f in pv.fills),
                    '%r has no background, its style says %r', word, s['bg'])
            w.par.atoms.append((pv.index, gs))
    for w in mk.words:
        require(w in seen, 'the word %r is not shown', w)


def fragments(par):
    """Lines of a paragraph, in the groups that are on one page"""
    out = []
    for page, gs in par.atoms:
        new = [page, gs[0].base, gs[0].x, gs[-1].x2]
        if out:
            last = out[-1][-1]
            if last[0] == page and abs(last[1] - new[1]) < EPS and \
                    new[2] > last[3]:
                last[3] = new[3]
                continue
            if last[0] == page and new[1] < last[1]:
                out[-1].append(new)
                continue
        out.append([new])
    return out


def check_paragraph(par):
    s = par.style
    frs = fragments(par)
    n = sum(len(f) for f in frs)
    k = 0
    for f in frs:
        rows = []
        for i, ln in enumerate(f):
            ind = s['indent'] if k == 0 else 0
            k += 1
            rows.append((ln[2] - ind, ln[3], (ln[2] - ind + ln[3]) / 2,
                         k == n, ln[1]))
        if par.plain and not s['r'] and not s['list_text']:
            for a, b in zip(rows, rows[1:]):
                require(abs(a[4] - b[4] - s['s'] * s['line_height']) < EPS,
                        'lines of the paragraph of %r are %g apart, its style '
                        'says %g', par.words[0], a[4] - b[4],
                        s['s'] * s['line_height'])
        if s['text_align'] in 'rc':
            j = 1 if s['text_align'] == 'r' else 2
            use = rows
        elif s['text_align'] == 'j':
            # (the last line and lines of one word are not stretched)
            j, use = 0, rows
        else:
            j, use = 0, rows
        for a, b in zip(use, use[1:]):
            require(abs(a[j] - b[j]) < 0.1, 'lines of the paragraph of %r '
                    'are not aligned as its style says, %r', par.words[0],
                    s['text_align'])
        if s['text_align'] == 'j' and len(rows) > 2:
            wide = [r for r in rows if not r[3]]
            best = max(r[1] for r in wide)
            for a, (_, _, _, _, base) in zip(wide, wide):
                require(abs(a[1] - best) < 0.1 or single(par, base),
                        'a line of the paragraph of %r is not justified',
                        par.words[0])


def single(par, base):
    return sum(abs(gs[0].base - base) < EPS for _, gs in par.atoms) == 1


def build(d):
    from pdfme import build_pdf
    b = io.BytesIO()
    try:
        build_pdf(d, b)
    except Exception as e:
        if 'could not be fitted' in str(e):
            return None
        with sut('build_pdf'):
            raise
    return pages(b.getvalue())


def check(c):
    c = named(c)
    a, b = Maker(c, False), Maker(c, True)
    x = build(a.document())
    y = build(b.document())
    if x is None or y is None:
        require(x is None and y is None, 'only one of a document and the same '
                'with its styles resolved is refused')
        return Info(False, ['refused'])
    check_words(a, x[1])
    same_pages(*x, *y, 'a document and the same with its styles resolved')
    for par in a.pars:
        if not par.columns:
            check_paragraph(par)
    labels = set(a.passed)
    return Info(len(a.passed) >= 2 and a.deep >= 2, labels, {
        'passed': sorted(a.passed), 'levels': a.deep,
        'paragraphs': len(a.pars)})


PARTS = [Part('documents', case_st, check, 2000, 40000)]
