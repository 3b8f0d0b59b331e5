"""Tables: generator, construction and the model of where the rows and cells
of a table have to be."""
import io

from hypothesis import strategies as st

from .box import code, image_bytes, words
from .common import fail, pages, require, sut, write

EPS = 0.03
COLORS = [(0, (0, 0, 0)), ('red', (1, 0, 0)), ('blue', (0, 0, 1)),
          ('#0f0', (0, 1, 0)), (0.5, (.5, .5, .5)), ('0.2 0.4 0.6',
                                                     (.2, .4, .6))]
COLOR = st.integers(0, len(COLORS) - 1)
WIDTH = st.sampled_from([0, 0.5, 1, 2, 5, 1.25])
STYLE = st.sampled_from(['solid', 'solid', 'dashed', 'dotted'])
MARGIN = st.sampled_from([0, 2, 5, 9])


def pos_st():
    """One dimension of a position: a list of ints or a slice."""
    num = st.integers(-6, 6)
    some = st.one_of(st.none(), num)
    return st.one_of(
        st.tuples(st.just('l'), st.lists(st.integers(-3, 4), min_size=1,
                                         max_size=3)),
        st.tuples(st.just('s'), some, some),
        st.tuples(st.just('s'), st.none(), st.none()),
        st.tuples(st.just('s'), some, some, st.one_of(
            st.none(), st.sampled_from([1, 2, 3, -1, -2]))),
    ).map(list)


def pos_str(p):
    if p[0] == 'l':
        return ','.join(str(i) for i in p[1])
    return ':'.join('' if i is None else str(i) for i in p[1:])


def pos_set(p, count):
    """The indexes a position means, as the docs describe them."""
    if p[0] == 'l':
        out = {count + i if i < 0 else i for i in p[1]}
    else:
        out = set(range(count)[slice(*p[1:])])
    return {i for i in out if 0 <= i < count}


def opt(**kw):
    return st.fixed_dictionaries({}, optional=kw)


def cell_style_st():
    return opt(cell_margin=MARGIN, cell_margin_left=MARGIN,
               cell_margin_top=MARGIN, cell_margin_right=MARGIN,
               cell_margin_bottom=MARGIN, cell_fill=COLOR)


def table_style_st():
    return opt(cell_margin=MARGIN, cell_margin_left=MARGIN,
               cell_margin_top=MARGIN, cell_margin_right=MARGIN,
               cell_margin_bottom=MARGIN, cell_fill=COLOR,
               border_width=WIDTH, border_color=COLOR, border_style=STYLE)


def cell_st(kinds, long):
    few = st.integers(1, 5)
    return st.fixed_dictionaries({
        'k': st.sampled_from(kinds),
        'n': st.one_of(few, few, st.integers(1, long)),
        's': st.sampled_from([8, 11, 11]),
        'align': st.sampled_from(['l', 'l', 'r', 'c', 'j']),
        'wh': st.sampled_from([[40, 4], [40, 10]]),
        'style': st.one_of(st.just({}), st.just({}), cell_style_st())})


KINDS = ('text', 'text', 'text', 'text', 'plain', 'img', 'empty', 'content',
         'table', 'group')
FLAT = ('text', 'text', 'text', 'plain', 'img', 'empty')


@st.composite
def case_st(draw, kinds=KINDS, long=40, borders=3, fills=2, merged=False):
    # merged: merged cells that are higher than the rows they span
    R = draw(st.integers(2 if merged else 1, 6))
    C = draw(st.integers(2 if merged else 1, 4))
    widths = draw(st.one_of(st.none(), st.lists(
        st.sampled_from([1, 1.5, 2]), min_size=C, max_size=C)))
    taken = {}
    spans = []
    for _ in range(draw(st.sampled_from([1, 2, 3] if merged else
                                        [0, 0, 1, 2, 3]))):
        r, c = draw(st.integers(0, R - 1)), draw(st.integers(0, C - 1))
        if merged and R - r < 2:
            r -= 1
        rs = draw(st.integers(2 if merged else 1, min(3, R - r)))
        cs = draw(st.integers(1, min(3, C - c)))
        area = [(i, j) for i in range(r, r + rs) for j in range(c, c + cs)]
        if rs * cs == 1 or any(a in taken for a in area):
            continue
        # every row keeps a cell of its own
        if rs > 1 and any(
                all((i, j) in taken and taken[i, j] or (i, j) in area
                    for j in range(C)) for i in range(r, r + rs)):
            continue
        for a in area:
            taken[a] = rs > 1
        spans.append([r, c, rs, cs])
    starts = {(r, c): (rs, cs) for r, c, rs, cs in spans}
    cells = []
    for r in range(R):
        own = False
        for c in range(C):
            if (r, c) in taken and (r, c) not in starts:
                continue
            rs, cs = starts.get((r, c), (1, 1))
            p = draw(cell_st(kinds, long))
            if (rs, cs) != (1, 1) and p['k'] == 'plain':
                p['k'] = 'text'
            if rs == 1:
                own = own or p['k'] != 'empty'
                if merged:
                    p['n'] = min(p['n'], 2)
            elif merged:
                p['n'] += draw(st.integers(5, 12)) * rs
                if p['k'] in ('empty', 'img'):
                    p['k'] = 'text'
            cells.append(dict(p, r=r, c=c, rs=rs, cs=cs))
        if not own:
            for p in cells:
                if p['r'] == r and p['rs'] == 1:
                    p['k'] = 'text'
                    break
    border = st.fixed_dictionaries(
        {'v': st.booleans(), 'i': pos_st(), 'j': pos_st()},
        optional={'width': WIDTH, 'color': COLOR, 'style': STYLE})
    fill = st.fixed_dictionaries({'i': pos_st(), 'j': pos_st(),
                                  'color': COLOR})
    bs = draw(st.lists(border, max_size=borders))
    if merged:
        for r, c, rs, cs in spans:
            if draw(st.booleans()):
                bs.append({'v': False, 'i': ['l', [draw(st.sampled_from(
                    [r, r + rs, r + rs, r + 1]))]], 'j': ['s', None, None],
                    'width': draw(st.sampled_from([0, 4, 7]))})
    total = draw(st.sampled_from([90, 110, 140])) * C + 20
    return {
        'R': R, 'C': C, 'widths': widths, 'cells': cells,
        'style': draw(st.one_of(st.just({}), table_style_st())),
        'borders': bs,
        'fills': draw(st.lists(fill, max_size=fills)),
        'page': [total, draw(st.sampled_from([170, 220, 300, 700]))],
        'margin': draw(st.sampled_from([[10, 10, 10, 10], [20, 15, 10, 5]])),
        'before': draw(st.sampled_from([0, 0, 30, 70, 115])),
        'how': draw(st.sampled_from(['table', 'table', 'content']))}


@st.composite
def tall_st(draw):
    """Tables with images about as high as half of a page, and boxes of two
    columns."""
    c = draw(case_st(kinds=('text', 'text', 'plain', 'img', 'img', 'cols',
                            'cols', 'content', 'table', 'group'), long=30))
    shape = st.sampled_from([[40, 10], [40, 24], [40, 36], [40, 40]])
    for p in c['cells']:
        if p['cs'] == 1 and p['k'] in ('img', 'content', 'group'):
            p['wh'] = draw(shape)
        if p['k'] == 'cols':
            p['parts'] = draw(st.lists(st.integers(1, 9), min_size=1,
                                       max_size=3))
            p['inner'] = draw(st.booleans())
    c['widths'] = None
    c['page'][1] = draw(st.sampled_from([220, 260, 320]))
    c['before'] = draw(st.sampled_from([0, 0, 60, 110, 150]))
    return c


# building ------------------------------------------------------------------

class Cell:
    def __init__(self, p):
        self.plan = p
        self.r, self.c, self.rs, self.cs = p['r'], p['c'], p['rs'], p['cs']
        self.k = p['k']
        self.words = []
        self.image = None
        self.atoms = []          # words and images, in document order
        self.marg = {}
        self.fill = None

    @property
    def last(self):
        return self.r + self.rs - 1

    def __repr__(self):
        return 'cell %d,%d' % (self.r, self.c)


class Table:
    """What is asked: cells, borders and fills by position."""

    def __init__(self, c):
        self.c = c
        self.R, self.C = c['R'], c['C']
        self.cells = []
        self.at = {}             # position -> Cell covering it
        self.by_word, self.by_image, self.by_bytes = {}, {}, {}
        self.n = 0
        self.make()

    def word(self, cell):
        self.n += 1
        w = code(self.n)
        self.by_word[w] = cell
        return w

    def img(self, cell, wh):
        k = len(self.by_image)
        name = 'im%d' % k
        by = image_bytes(k, wh)
        self.by_image[name] = cell
        self.by_bytes[by] = name
        return name, {'image': io.BytesIO(by), 'extension': 'jpg',
                      'image_name': name}

    def make(self):
        c = self.c
        rows = [[None] * self.C for _ in range(self.R)]
        for p in c['cells']:
            cell = Cell(p)
            self.cells.append(cell)
            for i in range(cell.r, cell.r + cell.rs):
                for j in range(cell.c, cell.c + cell.cs):
                    self.at[i, j] = cell
            rows[cell.r][cell.c] = self.describe(cell, p)
        self.rows = rows
        s = c['style']
        default = {'width': s.get('border_width', 0.5),
                   'color': COLORS[s.get('border_color', 0)][1],
                   'style': s.get('border_style', 'solid')}
        self.h = {(i, j): dict(default) for i in range(self.R + 1)
                  for j in range(self.C)}
        self.v = {(i, j): dict(default) for i in range(self.R)
                  for j in range(self.C + 1)}
        self.borders = []
        for b in c['borders']:
            over = {k: b[k] for k in ('width', 'style') if k in b}
            if 'color' in b:
                over['color'] = COLORS[b['color']][1]
            d = {k: b[k] for k in ('width', 'style') if k in b}
            if 'color' in b:
                d['color'] = COLORS[b['color']][0]
            d['pos'] = '%s%s;%s' % ('v' if b['v'] else 'h', pos_str(b['i']),
                                    pos_str(b['j']))
            self.borders.append(d)
            grid = self.v if b['v'] else self.h
            n = (self.R, self.C + 1) if b['v'] else (self.R + 1, self.C)
            for i in pos_set(b['i'], n[0]):
                for j in pos_set(b['j'], n[1]):
                    grid[i, j] = dict(default, **over)
        fills = {}
        self.fills = []
        for f in c['fills']:
            self.fills.append({'pos': pos_str(f['i']) + ';' + pos_str(f['j']),
                               'color': COLORS[f['color']][0]})
            for i in pos_set(f['i'], self.R):
                for j in pos_set(f['j'], self.C):
                    fills[i, j] = COLORS[f['color']][1]
        for cell in self.cells:
            own = cell.plan['style'] if cell.k not in ('plain',) else {}
            for side in ('left', 'right', 'top', 'bottom'):
                key = 'cell_margin_' + side
                # the cell's style over the table's, a side over all sides
                both = dict(s, **own)
                cell.marg[side] = both.get(key, both.get('cell_margin', 5))
            if 'cell_fill' in own:
                cell.fill = COLORS[own['cell_fill']][1]
            elif (cell.r, cell.c) in fills:
                cell.fill = fills[cell.r, cell.c]
            elif 'cell_fill' in s:
                cell.fill = COLORS[s['cell_fill']][1]
        self.style = {k: COLORS[v][0] if k in ('cell_fill', 'border_color')
                      else v for k, v in s.items()}
        ws = c['widths'] or [1] * self.C
        total = c['page'][0] - c['margin'][1] - c['margin'][3]
        self.x = [c['margin'][3]]
        for w in ws:
            self.x.append(self.x[-1] + total * w / sum(ws))

    def describe(self, cell, p):
        style = {k: COLORS[v][0] if k == 'cell_fill' else v
                 for k, v in p['style'].items()}
        d = {'style': style}
        if cell.k in ('text', 'plain'):
            cell.words = [self.word(cell) for _ in range(p['n'])]
            cell.order = list(cell.words)
            text = ' '.join(cell.words)
            if cell.k == 'plain':
                cell.size, cell.align = 11, 'l'
                return text
            cell.size, cell.align = p['s'], p['align']
            d['style'] = dict(style, s=p['s'], text_align=p['align'],
                              line_height=1.2)
            d['.'] = text
        elif cell.k == 'img':
            name, im = self.img(cell, p['wh'])
            cell.order = [name]
            d.update(im)
        elif cell.k == 'empty':
            cell.order = []
            if not style and (cell.rs, cell.cs) == (1, 1):
                return '' if p['n'] % 2 else None
            # of any kind, or of none
            d.update([{'.': ''}, {'content': []}, {'group': []},
                      {'table': []}, {}][p['n'] % 5])
        elif cell.k == 'content':
            name, im = self.img(cell, p['wh'])
            im['style'] = {'image_place': 'normal'}
            w = [self.word(cell) for _ in range(p['n'])]
            cell.order = [name] + w if p['n'] % 2 else w + [name]
            els = [{'.': ' '.join(w), 'style': {'s': p['s']}}]
            els.insert(0 if p['n'] % 2 else 1, im)
            d['content'] = els
        elif cell.k == 'cols':
            els, cell.order = [], []
            for n in p['parts']:
                w = [self.word(cell) for _ in range(n)]
                cell.order += w
                els.append({'.': ' '.join(w), 'style': {'s': p['s']}})
            if p['inner']:
                els = [els[0], {'content': els[1:]}]
            d.update(content=els, cols={'count': 2, 'gap': 6})
        elif cell.k == 'group':
            name, im = self.img(cell, p['wh'])
            w = [self.word(cell) for _ in range(min(p['n'], 3))]
            cell.order = [name] + w
            d['group'] = [im, {'.': ' '.join(w)}]
        elif cell.k == 'table':
            rows, cell.order = [], []
            for _ in range(1 + p['n'] % 3):
                w = [self.word(cell) for _ in range(1 + p['n'] // 8)]
                rows.append([' '.join(w)])
                cell.order += w
            d['table'] = rows
        if cell.rs > 1:
            d['rowspan'] = cell.rs
        if cell.cs > 1:
            d['colspan'] = cell.cs
        return d


def lay_out(c):
    """(Table, doc, pages, first page, top on it, (page, y) after)"""
    from pdfme import PDF
    t = Table(c)
    with sut():
        pdf = PDF(page_size=list(c['page']), margin=list(c['margin']))
        pdf.add_page()
        if c['before']:
            pdf.page.y += c['before']
        top = (pdf.page.height - pdf.page.y)
        if c['how'] == 'table':
            pdf.table(t.rows, widths=c['widths'], style=t.style,
                      borders=t.borders, fills=t.fills)
        else:
            el = {'table': t.rows, 'style': t.style, 'borders': t.borders,
                  'fills': t.fills}
            if c['widths']:
                el['widths'] = c['widths']
            pdf.content({'content': [el]})
        end = (len(pdf.pages) - 1, (pdf.page.height - pdf.page.y))
    doc, pvs = pages(write(pdf))
    collect(t, doc, pvs)
    return t, doc, pvs, top, end


def collect(t, doc, pvs):
    """Attach what is drawn to the cells; nothing lost or repeated."""
    seen = {}
    for pv in pvs:
        for a in words(pv):
            require(a.word in t.by_word, 'unknown word %r drawn', a.word)
            require(a.word not in seen, 'the word %r is shown twice: %s, %s',
                    a.word, seen.get(a.word), a)
            seen[a.word] = a
        for im in pv.images:
            n = t.by_bytes.get(doc.resolve(im.ref).raw)
            require(n is not None, 'an unknown image is drawn')
            require(n not in seen, 'the image %s is drawn twice', n)
            a = type('A', (), {})()
            a.word, a.page, a.seq = n, pv.index, im.seq
            a.x1, a.x2, a.y1, a.y2 = im.x, im.x + im.w, im.y, im.y + im.h
            a.base, a.size = a.y1, im.h
            a.image = True
            seen[n] = a
    for cell in t.cells:
        for w in cell.order:
            require(w in seen, '%r of %s is not shown', w, cell)
            cell.atoms.append(seen[w])


def is_image(a):
    return hasattr(a, 'image')


# the model -----------------------------------------------------------------

class Unsure(Exception):
    """The end of a row depends on a cell without content."""


class Segment:
    """The part of a row on a page."""

    def __init__(self, row, page, top):
        self.row, self.page, self.top = row, page, top
        self.bottom = None       # exact, or the highest it can be if cut
        self.starts = self.ends = False

    def __repr__(self):
        return 'row %d on page %d: %.2f to %.2f' % (
            self.row, self.page, self.top, self.bottom)


class Part:
    """The part of a cell on a page."""

    def __init__(self, cell, page, row, top):
        self.cell, self.page, self.row, self.top = cell, page, row, top
        self.bottom = None
        self.atoms = [a for a in cell.atoms if a.page == page]


def pads(t, part):
    """Padding around the content of a part of a cell."""
    cell = part.cell
    m = cell.marg
    return {
        'left': m['left'] + t.v[part.row, cell.c]['width'] / 2,
        'right': m['right'] + t.v[part.row, cell.c + cell.cs]['width'] / 2,
        'top': m['top'] + t.h[part.row, cell.c]['width'] / 2,
        'bottom': m['bottom'] + t.h[cell.r + cell.rs, cell.c]['width'] / 2}


def low(part):
    """Bottom of the content of a part."""
    y = min(a.base for a in part.atoms)
    if part.cell.k == 'table':
        y -= 5.25       # margin and half a border of the nested table
    return y


def model(t, pvs, top):
    """Segments of rows and parts of cells on each page."""
    c = t.c
    page_top = c['page'][1] - c['margin'][0]
    first = min(a.page for cell in t.cells if cell.r == 0
                for a in cell.atoms)
    require(first <= 1, 'the table starts on page %d', first)
    page, y = 0, top
    if first == 1 and not (
            (pvs[0].lines or pvs[0].fills) and
            any(cell.k == 'empty' for cell in t.cells if cell.r == 0)):
        page, y = 1, page_top       # no strip with an empty text before
    segs, parts = [], []
    live = {}                    # cell -> Part on this page
    for r in range(t.R):
        ending = [x for x in t.cells if x.last == r]
        last_page = max(a.page for x in ending for a in x.atoms)
        require(last_page >= page, 'row %d is above the ones before', r)
        s = Segment(r, page, y)
        s.starts = True
        segs.append(s)
        for x in t.cells:
            if x.r == r:
                live[x] = Part(x, page, r, y)
                parts.append(live[x])
        while page < last_page:
            # cut: the lowest content or a strip of 4 points, if there is room
            ys = [low(p) - pads(t, p)['bottom'] for p in live.values()
                  if p.atoms]
            s.bottom = min([y] + ys)
            s.low = min([s.bottom, y - 4] + [
                p.top - pads(t, p)['top'] - pads(t, p)['bottom'] - 1.3
                for p in live.values() if p.cell.k == 'empty'])
            for p in live.values():
                p.bottom, p.low = s.bottom, s.low
                p.cut = True
            s.cut = True
            page, y = page + 1, page_top
            s = Segment(r, page, y)
            segs.append(s)
            for x in list(live):
                live[x] = Part(x, page, r, y)
                parts.append(live[x])
        ys = [low(live[x]) - pads(t, live[x])['bottom'] for x in ending
              if live[x].atoms]
        s.bottom = min(ys)
        for x in ending:
            if x.k == 'empty':
                pad = pads(t, live[x])
                if live[x].top - pad['top'] - pad['bottom'] - 1.3 < s.bottom:
                    raise Unsure()
        s.ends = True
        s.cut = False
        y = s.bottom
        for x in ending:
            live[x].bottom = y
            live[x].cut = False
            del live[x]
    for p in parts:
        require(not [a for a in p.cell.atoms if not any(
            q.cell is p.cell and q.page == a.page for q in parts)],
            '%s has content on a page where its rows are not', p.cell)
    return segs, parts, page, y
