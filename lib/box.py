"""Content boxes: generator of simple elements with unique words, images and
margins, and the matching of what is drawn with what was asked."""
import io

from hypothesis import strategies as st

from .common import fail, pages, require, sut, write

EPS = 0.02

MARGINS = st.fixed_dictionaries({}, optional={
    'margin_left': st.sampled_from([0, 10, 3.3]),
    'margin_right': st.sampled_from([0, 8]),
    'margin_top': st.sampled_from([0, 6, 11.5]),
    'margin_bottom': st.sampled_from([0, 2, 5, 12]),
})


def par_st(max_words=90):
    return st.fixed_dictionaries({
        't': st.just('p'), 'n': st.one_of(
            st.integers(1, min(6, max_words)), st.integers(1, max_words)),
        's': st.sampled_from([8, 11, 11, 14]),
        'align': st.sampled_from(['l', 'l', 'j', 'r', 'c']),
        'lh': st.sampled_from([1, 1.1, 1.5]),
        'indent': st.sampled_from([0, 0, 15]),
        'list': st.booleans(),
        'gr': st.sampled_from([None, None, 'u', 'bg']),
        'form': st.sampled_from(['dict', 'dict', 'plain']),
        'm': MARGINS})


def image_st(min_height=False):
    return st.fixed_dictionaries({
        't': st.just('i'), 'wh': st.sampled_from([[40, 4], [40, 10],
                                                  [50, 20], [30, 45]]),
        'place': st.sampled_from([None, 'flow', 'normal']),
        'min': st.just(10) if min_height else st.sampled_from([None, None,
                                                               15]),
        'shrink': st.sampled_from([None, None, True]),
        'm': MARGINS}).map(
            # as wide as its column it could be higher than it
            lambda p: dict(p, min=p['min'] or 15) if p['wh'][1] > p['wh'][0]
            else p)


def table_st():
    return st.fixed_dictionaries({
        't': st.just('t'), 'cols': st.integers(1, 2),
        'rows': st.lists(st.integers(1, 3), min_size=1, max_size=4),
        'fill': st.sampled_from([None, 'red']),
        'm': MARGINS})


def group_st(images=True):
    el = par_st(3).map(lambda p: dict(p, n=min(p['n'], 3)))
    return st.fixed_dictionaries({
        't': st.just('g'), 'm': MARGINS,
        'els': st.lists(st.one_of(el, image_st(True)) if images else el,
                        min_size=1, max_size=2)})


@st.composite
def box_st(draw, budget=4, depth=2, max_els=9, tables=True, flow=True):
    cols = draw(st.integers(1, min(3, budget)))
    rest = budget // cols
    opts = [par_st(), par_st(), par_st(8), image_st(), group_st()]
    if not flow:
        opts = [par_st(), par_st(), par_st(8),
                image_st().map(lambda p: dict(p, place='normal'))]
    if tables:
        opts.append(table_st())
    if depth > 0:
        sub = box_st(rest, depth - 1, 5, tables, flow)
        opts += [sub, sub]
    els = draw(st.lists(st.one_of(*opts), min_size=draw(
        st.sampled_from([1, 1, 3])), max_size=max_els))
    return {'t': 'b', 'cols': cols, 'gap': draw(st.sampled_from(
        [None, 5, 12])), 'm': draw(MARGINS), 'els': els}


@st.composite
def case_st(draw, **kw):
    w = draw(st.sampled_from([480, 540]))
    h = draw(st.sampled_from([250, 250, 290, 420]))
    return {
        'page': [w, h],
        'margin': draw(st.sampled_from([[10, 10, 10, 10], [20, 15, 10, 25]])),
        'before': draw(st.sampled_from([0, 0, 40, 90, 150, 200])),
        'boxes': draw(st.lists(box_st(**kw), min_size=1, max_size=2)),
    }


@st.composite
def tall_st(draw):
    """Images about as high as half of a page, beside and before boxes of
    several columns."""
    img = st.fixed_dictionaries({
        't': st.just('i'), 'wh': st.sampled_from([[40, 36], [40, 44],
                                                  [50, 30], [40, 52]]),
        'place': st.sampled_from([None, 'flow', 'normal']),
        'min': st.sampled_from([None, None, None, 120]),
        'shrink': st.sampled_from([None, True]), 'm': MARGINS})
    small = st.one_of(par_st(8), par_st(40), table_st(), group_st(False))

    @st.composite
    def nested(draw, budget=2, depth=1):
        cols = draw(st.sampled_from([2, 2, 1])) if budget > 1 else 1
        els = [small, small, img]
        if depth:
            els.append(nested(budget // cols, depth - 1))
        return {'t': 'b', 'cols': cols,
                'gap': draw(st.sampled_from([None, 5])), 'm': draw(MARGINS),
                'els': draw(st.lists(st.one_of(*els),
                                     min_size=1, max_size=4))}

    tall = st.one_of(img, st.fixed_dictionaries({
        't': st.just('g'), 'm': MARGINS, 'els': st.lists(
            st.one_of(par_st(20), table_st(), img.map(
                lambda p: dict(p, wh=[40, 12], min=10))),
            min_size=2, max_size=3)}))
    cols = draw(st.sampled_from([2, 2, 2, 1]))
    if cols == 1:        # images as wide as the page would be too high
        tall = img = img.map(lambda p: dict(p, wh=[50, 20]))
    els = draw(st.lists(st.one_of(tall, small, nested()), max_size=3))
    els.insert(draw(st.integers(0, len(els))), draw(tall))
    if draw(st.integers(0, 3)):
        els.append(draw(nested()))
    return {
        'page': [draw(st.sampled_from([480, 540])), 420],
        'margin': [10, 10, 10, 10],
        'before': draw(st.sampled_from([0, 60, 120, 200, 270])),
        'boxes': [{'t': 'b', 'cols': cols, 'gap': draw(st.sampled_from(
            [None, 5, 12])), 'm': draw(MARGINS), 'els': els}],
    }


# building ------------------------------------------------------------------

def code(n):
    """A word for number n: letters of a fixed width alphabet and a dot."""
    out = 'abcdefghkn'[n % 10]
    n //= 10
    while n:
        out += 'opqrsuvxyz'[n % 10]
        n //= 10
    return out + '.'


class El:
    """An expected element."""

    def __init__(self, plan, parent, style):
        self.plan = plan
        self.t = plan['t']
        self.parent = parent
        self.style = style       # margins and image attributes in force
        self.kids = []
        self.words = []          # codes, in order
        self.atoms = []          # what was drawn
        self.rows = []           # of a table: cells (lists of codes)

    def leaves(self):
        if self.t in 'bg':
            for k in self.kids:
                yield from k.leaves()
        else:
            yield self

    def path(self):
        """Boxes around this element, outermost first."""
        out = []
        e = self.parent
        while e is not None:
            if e.t == 'b':
                out.append(e)
            e = e.parent
        return out[::-1]

    def group(self):
        e = self.parent
        return e if e is not None and e.t == 'g' else None

    @property
    def flows(self):
        if self.t == 'g':
            return True
        return self.t == 'i' and self.style.get('image_place',
                                                'flow') == 'flow'


_jpegs = {}


def image_bytes(k, wh):
    from PIL import Image
    if (wh[0], wh[1]) not in _jpegs:
        b = io.BytesIO()
        Image.new('RGB', tuple(wh), (200, 60, 20)).save(b, 'JPEG')
        _jpegs[(wh[0], wh[1])] = b.getvalue()
    b = _jpegs[(wh[0], wh[1])]
    # told apart by a comment segment
    return b[:2] + b'\xff\xfe\x00\x06' + b'%04d' % k + b[2:]


class Build:
    def __init__(self):
        self.n = 0
        self.images = 0
        self.by_word = {}        # code -> leaf
        self.by_image = {}       # name -> leaf
        self.by_bytes = {}       # file -> name
        self.roots = []

    def word(self, el):
        self.n += 1
        w = code(self.n)
        self.by_word[w] = el
        return w

    def element(self, p, parent, style):
        """(description, El)"""
        own = dict(p.get('m', {}))
        t = p['t']
        if t == 'i':
            if p['place']:
                own['image_place'] = p['place']
            if p['min'] is not None:
                own['min_height'] = p['min']
            if p['shrink']:
                own['shrink'] = True
        if t == 'p' and p['form'] == 'plain':
            own = {}
        if t == 'b':
            base = dict({'margin_bottom': 5}, **style)
        else:
            base = dict(style)
        base.update(own)
        el = El(p, parent, base)
        if t == 'p':
            el.words = [self.word(el) for _ in range(p['n'])]
            text = ' '.join(el.words)
            if p['form'] == 'plain':
                return text, el
            s = dict(own, s=p['s'], text_align=p['align'],
                     line_height=p['lh'], indent=p['indent'])
            if p['list']:
                el.list_word = self.word(el)
                s['list_text'] = el.list_word + ' '
            if p['gr'] == 'u':
                s['u'] = 1
            elif p['gr'] == 'bg':
                s['bg'] = 'yellow'
            return {'.': text, 'style': s}, el
        if t == 'i':
            name = 'im%d' % self.images
            el.image = name
            by = image_bytes(self.images, p['wh'])
            self.images += 1
            self.by_image[name] = el
            self.by_bytes[by] = name
            return {'image': io.BytesIO(by), 'extension': 'jpg',
                    'image_name': name, 'style': own}, el
        if t == 't':
            rows = []
            for n in p['rows']:
                cells = [[self.word(el) for _ in range(n)]
                         for _ in range(p['cols'])]
                el.rows.append(cells)
                rows.append([' '.join(c) for c in cells])
            s = dict(own)
            if p['fill']:
                s['cell_fill'] = p['fill']
            return {'table': rows, 'style': s}, el
        if t == 'b':
            d = {'content': [], 'style': own}
            if p['cols'] > 1 or p['gap'] is not None:
                d['cols'] = {'count': p['cols']}
                if p['gap'] is not None:
                    d['cols']['gap'] = p['gap']
            for q in p['els']:
                x, k = self.element(q, el, base)
                d['content'].append(x)
                el.kids.append(k)
            return d, el
        if t == 'g':
            d = {'group': [], 'style': own}
            for q in p['els']:
                x, k = self.element(q, el, base)
                d['group'].append(x)
                el.kids.append(k)
            return d, el
        raise AssertionError(t)

    def root(self, p):
        d, el = self.element(p, None, {})
        self.roots.append(el)
        return d


class Atom:
    """A drawn word or image."""
    __slots__ = ('page', 'x1', 'x2', 'y1', 'y2', 'base', 'word', 'size',
                 'seq', 'glyph')

    def __repr__(self):
        return '%s p%d (%.1f,%.1f)' % (self.word, self.page, self.x1, self.y1)


def words(pv):
    """The words drawn on a page, in drawing order."""
    out = []
    cur = []
    for g in pv.glyphs:
        if g.ch == ' ':
            if cur:
                fail('a word is split: %r', ''.join(x.ch for x in cur))
            continue
        cur.append(g)
        if g.ch == '.':
            a = Atom()
            a.page = pv.index
            a.word = ''.join(x.ch for x in cur)
            require(all(abs(x.base - g.base) < EPS for x in cur),
                    'the word %r is split between lines', a.word)
            a.x1, a.x2 = cur[0].x, g.x2
            a.base = g.base
            a.size = g.size
            a.y1, a.y2 = g.base, g.base + g.size
            a.seq = g.seq
            a.glyph = g
            out.append(a)
            cur = []
    require(not cur, 'a word is cut at the end of page %d', pv.index)
    return out


def collect(bld, doc, pvs):
    """Attach what is drawn to the elements; nothing is lost, repeated or
    unknown."""
    seen = {}
    for pv in pvs:
        for a in words(pv):
            el = bld.by_word.get(a.word)
            require(el is not None, 'unknown word %r drawn', a.word)
            require(a.word not in seen, 'the word %r is shown twice (%s, %s)',
                    a.word, seen.get(a.word), a)
            seen[a.word] = a
            el.atoms.append(a)
    for w in bld.by_word:
        require(w in seen, 'the word %r of a %s is not shown', w,
                NAMES[bld.by_word[w].t])
    drawn = {}
    for pv in pvs:
        for im in pv.images:
            n = bld.by_bytes.get(doc.resolve(im.ref).raw)
            require(n is not None, 'an unknown image is drawn')
            el = bld.by_image[n]
            a = Atom()
            a.word, a.page = n, pv.index
            a.x1, a.x2 = im.x, im.x + im.w
            a.y1, a.y2 = im.y, im.y + im.h
            a.base = a.y1
            a.size = im.h
            a.seq = im.seq
            require(n not in drawn, 'image %s is drawn twice: %s, %s', n,
                    drawn.get(n), a)
            drawn[n] = a
            el.atoms.append(a)
    for n in bld.by_image:
        require(n in drawn, 'image %s is not drawn', n)
    return seen


NAMES = {'p': 'paragraph', 'i': 'image', 't': 'table', 'b': 'content box',
         'g': 'group'}


def build(c):
    """(Build, doc, pages, rects) of a case; rects is the rectangle of every
    root box on its first page: (page, x, top, width)."""
    from pdfme import PDF
    bld = Build()
    with sut():
        pdf = PDF(page_size=list(c['page']), margin=list(c['margin']))
        # the first page may be of another size
        pdf.add_page(**{'page_size': c['first']} if c.get('first') else {})
        if c['before']:
            pdf.page.go_to_beginning()
            pdf.page.y += c['before']
        tops = []
        for b in c['boxes']:
            d = bld.root(b)
            tops.append((len(pdf.pages) - 1, (pdf.page.height - pdf.page.y)))
            pdf.content(d)
        end = (len(pdf.pages) - 1, (pdf.page.height - pdf.page.y))
    doc, pvs = pages(write(pdf))
    collect(bld, doc, pvs)
    return bld, doc, pvs, tops, end


def dims(c, el):
    """Width of the columns of a box and the gap, from the page inwards."""
    if el.parent is None:
        w = c['page'][0] - c['margin'][1] - c['margin'][3]
    else:
        w = dims(c, outer(el))[0]
    n = el.plan['cols']
    g = el.plan['gap']
    if g is None:
        g = max(w / 25, 7)
    return (w - g * (n - 1)) / n, g


def outer(el):
    """The box an element is in."""
    e = el.parent
    while e is not None and e.t != 'b':
        e = e.parent
    return e


def column(c, el, x):
    """Columns of the position x, through the boxes around el."""
    x0 = c['margin'][3]
    cols = []
    for b in el.path():
        cw, g = dims(c, b)
        k = int((x - x0 + 0.5) // (cw + g))
        k = max(0, min(k, b.plan['cols'] - 1))
        cols.append(k)
        x0 += k * (cw + g)
    return tuple(cols), x0
