"""C39: content boxes fill their columns, one after another."""
from hypothesis import strategies as st

from lib import box
from lib.common import require
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis) with metamorphic oracles: a '
             'content box on low pages compared with the same box on one high '
             'page, and a box of several columns with one column on as many '
             'more pages')
LEVEL_NOTE = ('Random search over content boxes, page heights and starting '
              'positions. Held on all generated cases, not proved.')
RULE = ('fill: a box of one column, with nested ones, drawn on pages of a low '
        'height and on a page that is high enough; non-trivial if the box '
        'goes on on a second page and the first one holds two elements. '
        'columns: a box of two or three columns, with any elements, and the '
        'same with one column; non-trivial if it takes two or more pages.')
TOL = 0.3


# (a) as much as fits --------------------------------------------------------------

def fill_case():
    group = box.group_st(False)
    image = box.image_st().map(lambda p: dict(
        p, place='normal', min=None, shrink=None,
        wh=p['wh'] if p['wh'][0] > p['wh'][1] else [50, 20]))
    leaf = st.one_of(box.par_st(), box.par_st(), box.par_st(8), image,
                     box.table_st(), group)

    def boxes(depth):
        kids = st.one_of(leaf, leaf, boxes(depth - 1)) if depth else leaf
        return st.fixed_dictionaries({
            't': st.just('b'), 'cols': st.just(1), 'gap': st.none(),
            'm': box.MARGINS, 'els': st.lists(
                kids, min_size=1, max_size=9 if depth == 2 else 4)})
    return st.fixed_dictionaries({
        'box': boxes(2), 'h': st.one_of(st.integers(150, 420),
                                        st.sampled_from([200, 300])),
        'w': st.sampled_from([240, 280]),
        'first': st.one_of(st.none(), st.integers(150, 300)),
        'before': st.sampled_from([0, 0, 20, 70, 130])})


def units(el, page):
    """What is moved as a whole to the next page, in order: lists of atoms
    and the space needed below them. The cells of a row are side by side:
    [[units of a cell], ..]; only what is on the page"""
    if el.t in ('p', 'i', 'g'):
        atoms = sorted((a for x in el.leaves() for a in x.atoms
                        if a.page == page), key=lambda a: -a.base)
        if not atoms:
            return []
        if el.t != 'p':
            return [[[(atoms, 0)]]]
        lines = []
        for a in atoms:
            if lines and abs(lines[-1][0].base - a.base) < 0.05:
                lines[-1].append(a)
            else:
                lines.append([a])
        return [[[(x, 0)]] for x in lines]
    if el.t == 't':
        at = {a.word: a for a in el.atoms if a.page == page}
        out = []
        for row in el.rows:
            cells = []
            for c in row:
                lines = {}
                for w in c:
                    if w not in at:
                        continue
                    lines.setdefault(round(at[w].base, 1), []).append(at[w])
                cells.append([(x, 5.25) for _, x in sorted(
                    lines.items(), reverse=True)])
            out.append(cells)
        return out
    return [u for k in el.kids for u in units(k, page)]


def rel(a, top):
    return (round(a.x1, 3), round(top - a.base, 3), a.x2, a.size)


def check_fill(c):
    h = c['h']
    base = {'margin': [10] * 4, 'before': c['before'], 'boxes': [c['box']]}
    page = 0
    if c['first']:
        # compare the second page, after a first one that is the same
        base['first'] = [c['w'], max(c['first'], c['before'] + 60)]
        page = 1
    tall = box.build(dict(base, page=[c['w'], 9000]))
    low = box.build(dict(base, page=[c['w'], h]))
    require(len(tall[2]) <= page + 1, 'the box does not fit in 9000 points')
    first = {a.word: a for x in low[0].roots[0].leaves() for a in x.atoms
             if a.page == page}
    if page:
        one, two = [sorted((a.word, rel(a, base['first'][1] - 10))
                           for x in d[0].roots[0].leaves() for a in x.atoms
                           if a.page == 0) for d in (tall, low)]
        require(one == two, 'the first page depends on the height of the '
                'second: %s, %s', one, two)
    shown = 0
    full = None
    for row in units(tall[0].roots[0], page):
        gone = None
        for cell in row:
            left = False
            for atoms, below in cell:
                here = [a.word in first for a in atoms]
                require(all(here) or not any(here), 'only a part of a line '
                        'or group is on the first page: %s', atoms)
                if here[0]:
                    require(not left and full is None, '%s is on the '
                            'page, what is before it is not: %s', atoms, full)
                    for a in atoms:
                        b = first[a.word]
                        p, q = rel(a, 8990), rel(b, h - 10)
                        require(all(abs(x - y) < 0.05 for x, y in zip(p, q)),
                                'on a page %s points high %s is at %s from '
                                'its top left, on a high one at %s', h,
                                a.word, q, p)
                    shown += 1
                elif not left:
                    left = True
                    need = 8990 - min(a.base for a in atoms) + below
                    require(need > h - 20 - TOL, '%s needs %.2f of the first '
                            'page, that has %s, but is on the next', atoms,
                            need, h - 20)
                    gone = atoms
        full = full or gone
        if gone and tall[0].by_word.get(gone[0].word) is not None and \
                tall[0].by_word[gone[0].word].group() is not None:
            # what comes after a group may be placed before it
            break
    els = {low[0].by_word[w] if w in low[0].by_word else low[0].by_image[w]
           for w in first}
    return Info(full is not None and len(els) > 1, {
        'pages %d' % min(len(low[2]), 5), 'page %d compared' % (page + 1)} | {
            'next page starts with a ' + box.NAMES[
                (tall[0].by_word.get(full[0].word) or
                 tall[0].by_image[full[0].word]).t]
            for _ in [0] if full})


# (b) columns are filled like pages ------------------------------------------------

@st.composite
def columns_case(draw):
    n = draw(st.sampled_from([2, 2, 3]))
    tall = n == 2 and draw(st.booleans())
    b = draw(box.tall_st())['boxes'][0] if tall else draw(
        box.box_st(2 if n == 2 else 1, 2, 12))
    els = list(b['els'])
    # enough for more than one page
    for k in draw(st.lists(st.integers(100, 300), min_size=1, max_size=4)):
        els.insert(draw(st.integers(0, len(els))),
                   dict(draw(box.par_st()), n=k))
    return {'n': n, 'els': els, 'm': b['m'],
            'gap': draw(st.sampled_from([5, 12])),
            'w': draw(st.sampled_from([200, 225])),
            'h': 420 if tall else draw(st.sampled_from([250, 300, 420]))}


def drawn(pv, x0):
    """Everything on a page, relative to x0"""
    out = [('glyph', g.x - x0, g.y, g.ch, g.size) for g in pv.glyphs
           if g.ch != ' ']
    out += [('image', i.x - x0, i.y, i.w, i.h) for i in pv.images]
    out += [('fill', f.x - x0, f.y, f.w, f.h) for f in pv.fills]
    out += [('line', l.x1 - x0, l.y1, l.x2 - x0, l.y2) for l in pv.lines]
    return out


def check_columns(c):
    n, w = c['n'], c['w']
    step = w + c['gap']
    many = {'t': 'b', 'cols': n, 'gap': c['gap'], 'm': c['m'],
            'els': c['els']}
    one = dict(many, cols=1)
    base = {'margin': [10] * 4, 'before': 0}
    a = box.build(dict(base, boxes=[many],
                       page=[20 + n * w + (n - 1) * c['gap'], c['h']]))
    b = box.build(dict(base, boxes=[one], page=[20 + w, c['h']]))
    pa, pb = a[2], b[2]
    for i, pv in enumerate(pa[:-1]):
        cols = [[] for _ in range(n)]
        for d in drawn(pv, 0):
            k = max(0, min(n - 1, int((d[1] - 10 + c['gap'] / 2) // step)))
            v = list(d)
            v[1] -= k * step
            if d[0] == 'line':
                v[3] -= k * step
            cols[k].append(v)
        for k in range(n):
            require(i * n + k < len(pb), 'page %d has a column more than '
                    'there are pages of one column', i)
            want = sorted(map(tuple, cols[k]), key=key)
            got = sorted(drawn(pb[i * n + k], 0), key=key)
            require(len(want) == len(got), 'column %d of page %d shows %d '
                    'things, the page with only it %d', k, i, len(want),
                    len(got))
            for p, q in zip(want, got):
                require(p[0] == q[0] and all(
                    x == y if isinstance(x, str) else abs(x - y) < 0.05
                    for x, y in zip(p[1:], q[1:])),
                    'column %d of page %d shows %s, the page with only it %s',
                    k, i, p, q)
    return Info(len(pa) > 1, {'pages %d' % min(len(pa), 4)} | {
        'element ' + e['t'] for e in c['els']} if len(pa) > 1 else set())


def key(d):
    return (d[0], [round(x + 0.013, 0) for x in (d[2], d[1])],
            [str(x) if isinstance(x, str) else round(x, 1) for x in d[1:]])


PARTS = [Part('fill', fill_case, check_fill, 2500, 50000),
         Part('columns', columns_case, check_columns, 900, 18000)]
