"""C35: margins move what is between them without changing it."""
from hypothesis import strategies as st

from lib import box, gendoc, nav, rich, tab
from lib.common import build, render, require, sut
from lib.harness import Info, Part, Violation
from lib.same import close, drawn
from checks import c34

TECHNIQUE = ('property-based testing (Hypothesis) with a metamorphic '
             'relation: a document against the one with other margins, on '
             'pages enlarged as much')
LEVEL_NOTE = ('Random search over documents of any elements, layouts, '
              'per-page ranges, running sections and footnotes, and over '
              'calls of a PDF object. Held on all generated cases, not '
              'proved.')
RULE = ('Each case is built twice: the second time the margins of all the '
        'layouts are changed, and their page sizes as much. All that the '
        'pages show has to be the same, and moved as much as the margins. '
        'Non-trivial: several pages, or tables, boxes, images, running '
        'sections or notes.')
EPS = 0.02
A5 = (419.528, 595.276)


def one(*v):
    return st.sampled_from(v)


# sizes that text does not fill exactly, so that rounding does not matter
SIZE = one('a5', [420.377, 400.713], 380.291, [341.193, 520.357])
LAYOUT = st.fixed_dictionaries({}, optional={
    'page_size': SIZE, 'rotate_page': st.booleans(),
    'margin': one(30, [40, 25], [30, 20, 40, 25], {
        'left': 50, 'top': 35, 'right': 30, 'bottom': 45})})
BASE = st.fixed_dictionaries({
    'page_size': SIZE, 'margin': one(30, [45, 32], [50, 31, 33, 37])},
    optional={'rotate_page': st.booleans()})
# changes of margins: the same from side to side as from top to bottom, for
# pages can be rotated
DELTA = st.tuples(one(-15, 0, 10, 40), one(-15, 0, 25, 40.5),
                  one(-15, 0, 12.25, 33)).map(
    lambda t: [t[0], t[1], t[2] + t[1] - t[0], t[2]] if t[2] + t[1] - t[0] >=
    -15 else [t[0], t[0], t[2], t[2]])
RUNNING = st.fixed_dictionaries({
    'x': one('left', 'right'), 'y': one('top', 'bottom'),
    'width': one(None, 90), 'height': one(None, 60),
    'kind': one('page', 'text', 'table', 'image')})


def documents():
    pick = st.lists(one('h', 'f'), unique=True)
    mixed = c34.MIXED.map(lambda m: dict(m, style={}))
    return st.fixed_dictionaries({
        'delta': DELTA, 'style': BASE,
        'running': st.fixed_dictionaries({n: RUNNING for n in 'hf'}),
        'per_page': st.lists(st.fixed_dictionaries({
            'pages': one('0', '0:2', '1:9:2', '0,2', '1:4')}, optional={
                'style': LAYOUT, 'include': pick, 'exclude': pick}),
            max_size=2),
        'sections': st.lists(st.tuples(
            st.one_of(mixed, mixed, c34.TABLES, c34.BOXES), LAYOUT,
            pick).map(list), min_size=1, max_size=3)})


def sides(m):
    if isinstance(m, dict):
        return m['top'], m['right'], m['bottom'], m['left']
    if not isinstance(m, list):
        m = [m]
    return tuple(m * (4 // len(m)))


def moved(layout, delta):
    """The layout with other margins around the same area"""
    out = dict(layout)
    if delta is None:
        return out
    t, r, b, le = delta
    if layout.get('margin') is not None:
        m = sides(layout['margin'])
        out['margin'] = [x + d for x, d in zip(m, (t, r, b, le))]
    size = layout.get('page_size')
    if size is not None:
        if size == 'a5':
            size = A5
        elif not isinstance(size, (list, tuple)):
            size = size, size
        out['page_size'] = [size[0] + le + r, size[1] + t + b]
    return out


def document(c, delta):
    formats = {}
    sections = []
    for i, (plan, layout, running) in enumerate(c['sections']):
        d = c34.section([plan, running], i, formats)
        if plan['t'] == 'mixed':
            d['style'].update(moved(layout, delta))
        else:
            p = plan['c']
            w, h = p['page']
            # not rotated, and not filled exactly
            d['style'] = dict(moved({
                'page_size': [w + 0.377, h + 0.713],
                'margin': list(p['margin'])}, delta), rotate_page=False)
        sections.append(d)
    per_page = []
    for r in c['per_page']:
        d = {'pages': r['pages']}
        if 'style' in r:
            # boxes and tables need their size
            d['style'] = moved(
                r['style'] if all(p['t'] == 'mixed' for p, *_ in
                                  c['sections']) else {}, delta)
        rs = {k: list(r[k]) for k in ('include', 'exclude') if k in r}
        if rs:
            d['running_sections'] = rs
        per_page.append(d)
    return build({
        'style': moved(c['style'], delta), 'formats': formats,
        'running_sections': {k: gendoc.running_desc(v)
                             for k, v in c['running'].items()},
        'per_page': per_page, 'sections': sections})


def compare(c, da, pa, db, pb):
    t, r, b, le = c['delta']
    require(len(pa) == len(pb), 'there are %d pages, and %d with other '
            'margins', len(pa), len(pb))
    for i, (x, y) in enumerate(zip(pa, pb)):
        x, y = drawn(da, x), drawn(db, y)
        for k in x:
            require(len(x[k]) == len(y[k]), '%s on page %d: %d and, with '
                    'other margins, %d', k, i, len(x[k]), len(y[k]))
            by = {'size': (le + r, t + b), 'lines': (le, b, le, b)}.get(
                k, (le, b))
            for u, v in zip(x[k], y[k]):
                want = [p + d for p, d in zip(u[1], by)]
                want += u[1][len(by):]
                require(u[0] == v[0] and close(want, v[1], EPS) and
                        close(u[2] or (), v[2] or (), 0.002),
                        '%s on page %d: %s and, with other margins, %s', k, i,
                        u, v)
    na, nb = nav.navigation(da, pa), nav.navigation(db, pb)

    def shift(d):
        return d and (d[0], d[1] + le, d[2] + b)

    def near(u, v, what):
        require((u is None) == (v is None) and (u is None or (
            u[0] == v[0] and close(u[1:], v[1:], EPS))), '%s leads to %s and '
            'with other margins to %s', what, u, v)

    la = {k: v for k, v in na['labels'] if k != 'outline'}
    lb = {k: v for k, v in nb['labels'] if k != 'outline'}
    require(sorted(la) == sorted(lb), 'labels %s and with other margins %s',
            sorted(la), sorted(lb))
    for k in la:
        near(shift(la[k]), lb[k], 'label %r' % k)

    def tree(u, v):
        require([(o[0], o[2]) for o in u] ==
                [(o[0], o[2]) for o in v], 'outlines %s and with other '
                'margins %s', u, v)
        for p, q in zip(u, v):
            near(shift(p[1]), q[1], 'outline %r' % p[0])
            tree(p[3], q[3])
    tree(na['outlines'], nb['outlines'])
    for i, (u, v) in enumerate(zip(na['links'], nb['links'])):
        require([p[1:] for p in u] == [q[1:] for q in v], 'page %d has the '
                'links %s and with other margins %s', i, u, v)
        for p, q in zip(u, v):
            want = [p[0][0] + le, p[0][1] + b, p[0][2] + le, p[0][3] + b]
            require(close(want, q[0], EPS), 'page %d has the link %s, and '
                    'with other margins %s', i, p, q)


def check_documents(c):
    try:
        da, pa = document(c, None)
    except Violation as e:
        if 'could not be fitted' in str(e) or 'footnotes are very' in str(e):
            return Info(False, ['does not fit'])
        raise
    db, pb = document(c, c['delta'])
    compare(c, da, pa, db, pb)
    kinds = {p['t'] for p, *_ in c['sections']}
    for p, *_ in c['sections']:
        kinds |= {e['t'] for e in p.get('els', ())}
    if any(r for *_, r in c['sections']):
        kinds.add('running sections')
    return Info(any(c['delta']) and (len(pa) > 1 or len(kinds) > 2), kinds)


# calls of a PDF object --------------------------------------------------------

def long_table():
    return st.tuples(gendoc.table(), one(1, 2, 4, 8)).map(
        lambda t: dict(t[0], rows=t[0]['rows'] * t[1]))


def calls():
    page = st.fixed_dictionaries({
        't': st.just('page'), 'size': st.one_of(st.none(), SIZE),
        'rotate': one(None, True, False),
        'margin': one(None, 30, [40, 25], [30, 20, 40, 25])})
    return st.fixed_dictionaries({
        'delta': DELTA, 'style': BASE,
        'blocks': st.lists(st.one_of(
            gendoc.TEXT, gendoc.TEXT, long_table(), gendoc.IMG, page,
            gendoc.element(1).filter(lambda e: e['t'] == 'content')),
            min_size=1, max_size=8)})


def made(c, delta):
    from pdfme import PDF
    with sut('the calls'):
        pdf = PDF(**moved(c['style'], delta))
        pdf.add_page()
        for i, b in enumerate(c['blocks']):
            if b['t'] == 'page':
                p = moved({'page_size': b['size'], 'margin': b['margin']},
                          delta)
                pdf.add_page(p['page_size'], b['rotate'], p['margin'])
            else:
                gendoc.add_block(pdf, b, i)
    return render(pdf)


def check_calls(c):
    try:
        da, pa = made(c, None)
    except Violation as e:
        if 'could not be fitted' in str(e):
            return Info(False, ['does not fit'])
        raise
    db, pb = made(c, c['delta'])
    compare(c, da, pa, db, pb)
    kinds = {b['t'] for b in c['blocks']}
    return Info(any(c['delta']) and (len(pa) > 1 or len(kinds) > 1), kinds)


PARTS = [Part('documents', documents, check_documents, 900, 18000),
         Part('calls', calls, check_calls, 900, 18000)]
