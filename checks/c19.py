"""C19: a group is never split between pages or columns."""
from hypothesis import strategies as st

from checks import c18
from lib import box
from lib.common import fail, pages, require, sut, write
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis): generated groups in '
             'content boxes; metamorphic oracle: the same group on an '
             'endless page tells the height it needs')
LEVEL_NOTE = ('Random search over groups of paragraphs, images and tables, '
              'alone and inside nested boxes; held on all generated cases, '
              'not proved. Groups within half a point of fitting are not '
              'judged.')
RULE = ('Cases are groups of up to five elements with room that is enough, '
        'enough only with shrunk images, or not enough. Non-trivial: an '
        'image of the group is shrunk, the group moves to another column or '
        'page, or it is rejected.')
EPS = 0.03


def els(plain_images):
    par = box.par_st(12)
    im = st.fixed_dictionaries({
        't': st.just('i'), 'wh': st.sampled_from([[40, 4], [40, 16],
                                                  [40, 40], [40, 80]]),
        'place': st.just(None), 'min': st.sampled_from([10, 25, 60] + (
            [None] if plain_images else [])),
        'shrink': st.sampled_from([None, None, True]), 'm': box.MARGINS})
    return st.lists(st.one_of(par, par, im, im, box.table_st()), min_size=1,
                    max_size=5)


@st.composite
def fit_st(draw):
    return {
        'page': [draw(st.sampled_from([300, 420])),
                 draw(st.sampled_from([200, 260, 340, 500]))],
        'margin': [10, 10, 10, 10],
        'before': draw(st.sampled_from([0, 0, 30, 80, 150])),
        'cols': draw(st.sampled_from([1, 1, 1, 2])),
        'first': draw(st.one_of(st.none(), box.par_st(12))),
        'group': {'t': 'g', 'els': draw(els(True)), 'm': draw(box.MARGINS)},
        'last': draw(st.one_of(st.none(), box.par_st(12))),
    }


def lay(c, height):
    """Builds the case on pages of a height -> (Build, doc, pages, group
    element, error)"""
    from pdfme import PDF
    bld = box.Build()
    kids = [k for k in (c['first'], c['group'], c['last']) if k]
    plan = {'t': 'b', 'cols': c['cols'], 'gap': 12, 'm': {}, 'els': kids}
    with sut():
        pdf = PDF(page_size=[c['page'][0], height], margin=c['margin'])
        pdf.add_page()
        pdf.page.y += c['before']
        d = bld.root(plan)
    g = [e for e in bld.roots[0].kids if e.t == 'g'][0]
    try:
        pdf.content(d)
    except Exception as e:
        if 'could not be fitted' in str(e):
            return bld, None, None, g, e
        with sut():
            raise
    doc, pvs = pages(write(pdf))
    box.collect(bld, doc, pvs)
    return bld, doc, pvs, g, None


def extent(c, g):
    """Checks the group is in one column of one page, in order and together;
    returns (page, column, top atom, bottom atom)."""
    keys = set()
    for x in g.leaves():
        for a in x.atoms:
            keys.add((a.page,) + box.column(c, x, a.x1)[0])
    require(len(keys) == 1, 'the group is split between %s', sorted(keys))
    prev = None
    for k in g.kids:
        top = max(a.y2 for a in k.atoms)
        if prev is not None:
            require(top <= prev + EPS, 'an element of the group is not below '
                    'the one that precedes it')
        prev = min(a.y1 for a in k.atoms)
    return keys.pop()


def natural(c, g):
    """[(image, natural height, least height or None)]"""
    cw = box.dims(c, box.outer(g))[0]
    out = []
    for k in g.kids:
        if k.t == 'i':
            w = cw - k.style.get('margin_left', 0) - k.style.get(
                'margin_right', 0)
            h = w * k.plan['wh'][1] / k.plan['wh'][0]
            low = k.style.get('min_height')
            out.append((k, h, low))
    return out


def check_images(c, g, exact):
    """Heights of the images of a group: proportions kept, not below the
    minimum, sharing the space. Returns whether one was shrunk."""
    shrunk = False
    ratios = []
    for k, h, low in natural(c, g):
        a = k.atoms[0]
        ih, iw = a.y2 - a.y1, a.x2 - a.x1
        pw, ph = k.plan['wh']
        require(abs(iw * ph / pw - ih) < 0.05, 'image %s is distorted', a)
        require(ih <= h + EPS, 'image %s is %.2f high, as wide as its column '
                'it would be %.2f', a, ih, h)
        if low is None:
            require(abs(ih - h) < EPS, 'image %s without minimum height is '
                    '%.2f high instead of %.2f', a, ih, h)
            continue
        require(ih >= min(low, h) - EPS, 'image %s is %.2f high, less than '
                'its least height %s', a, ih, low)
        if ih < h - EPS:
            shrunk = True
        if k.style.get('shrink'):
            require(abs(ih - min(low, h)) < EPS, 'image %s to be shrunk is '
                    '%.2f high, its least height is %s', a, ih, low)
        elif ih < h - EPS:
            ratios.append(ih / low)
    for r in ratios[1:]:
        require(abs(r - ratios[0]) < 0.01, 'the images of a group are not '
                'shrunk together: %s', ratios)
    return shrunk, ratios


def check_fit(c):
    bld, doc, pvs, g, err = lay(dict(c, first=None, last=None, before=0,
                                     cols=1, page=wide(c)), 20000)
    if err:
        fail('a group is rejected on a page of 20000 points: %s', err)
    cm = dict(c, page=wide(c))
    extent(cm, g)
    table_pad = 5.25
    ats = [a for x in g.leaves() for a in x.atoms]
    last = g.kids[-1]
    bottom = min(a.y1 for a in ats) - (table_pad if last.t == 't' else 0)
    full = 20000 - 10 - bottom
    save = sum(h - min(h, low) for k, h, low in natural(cm, g)
               if low is not None and not k.style.get('shrink'))
    least = full - save
    bld, doc, pvs, g, err = lay(c, c['page'][1])
    room = c['page'][1] - 20
    labels = set()
    if err:
        require(least > room - 0.5, 'a group that needs %.2f points is '
                'rejected on pages with %.2f', least, room)
        return Info(True, ['rejected'])
    require(least < room + 0.5, 'a group that needs %.2f points is placed on '
            'pages with %.2f', least, room)
    key = extent(c, g)
    shrunk, ratios = check_images(c, g, c['cols'] == 1)
    ats = [a for x in g.leaves() for a in x.atoms]
    low = min(a.y1 for a in ats)
    require(low >= 10 - EPS, 'the group is cut at the bottom of the page')
    first = bld.roots[0].kids[0]
    if c['cols'] == 1 and not c['first']:
        left = room - c['before']
        if left > 0.5 and least < left - 0.5:
            require(key[0] == 0, 'a group that needs %.2f points is not '
                    'placed in the %.2f left on the first page', least, left)
        elif least > left + 0.5:
            require(key[0] == 1, 'a group that needs %.2f points is placed '
                    'on page %d with %.2f left on the first', least, key[0],
                    left)
        if key[0]:
            labels.add('moved to the next page')
        if ratios and len(ratios) == len([
                1 for k, h, lo in natural(c, g)
                if lo is not None and not k.style.get('shrink')]):
            end = low - (table_pad if g.kids[-1].t == 't' else 0)
            require(end < 10 + 0.5, 'images of a group are shrunk and %.2f '
                    'points are left under it', end - 10)
            labels.add('filled the page')
    if shrunk:
        labels.add('shrunk')
    if c['cols'] > 1:
        labels.add('columns')
    return Info(shrunk or key[0] or any(key[1:]), labels)


def wide(c):
    """Page width whose single column is as wide as the columns of c."""
    w = c['page'][0] - 20
    n = c['cols']
    return [(w - 12 * (n - 1)) / n + 20, 20000]


@st.composite
def boxes_st(draw):
    """Boxes with many groups."""
    c = draw(box.case_st(tables=False))
    for b in c['boxes']:
        for _ in range(draw(st.integers(1, 3))):
            g = {'t': 'g', 'm': draw(box.MARGINS), 'els': [
                dict(e, n=min(e['n'], 4)) if e['t'] == 'p' else e
                for e in draw(st.lists(st.one_of(
                    box.par_st(4), box.image_st(True)), min_size=2,
                    max_size=3))]}
            target = b
            subs = [e for e in b['els'] if e['t'] == 'b']
            if subs and draw(st.booleans()):
                target = subs[0]
            k = draw(st.integers(0, len(target['els'])))
            target['els'].insert(k, g)
    return c


def check_boxes(c):
    bld, doc, pvs, tops, end = box.build(c)
    n = 0
    labels = set()
    moved = False
    for r in bld.roots:
        for g in groups(r):
            n += 1
            key = extent(c, g)
            shrunk, _ = check_images(c, g, False)
            if shrunk:
                labels.add('shrunk')
            if key[0] or any(key[1:]):
                moved = True
                labels.add('not in the first column')
    return Info(n and moved, labels)


def groups(e):
    if e.t == 'g':
        yield e
    elif e.t == 'b':
        for k in e.kids:
            yield from groups(k)


PARTS = [
    Part('fit', fit_st, check_fit, 1200, 30000),
    Part('boxes', boxes_st, check_boxes, 1200, 30000),
]
