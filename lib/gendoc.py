"""Structured generator of document content of every kind: paragraphs,
tables, images, nested content boxes and groups. Plans are JSON."""
import io

from hypothesis import strategies as st

from . import rich

TAGS = st.one_of(st.none(), st.none(), st.fixed_dictionaries({}, optional={
    'label': st.sampled_from(['lab', 'A(', 'z\\', '\xe9', 'b c']),
    'uri': st.sampled_from(['https://a.b/c?d=(1)', 'http://x\\y', 'u']),
    'ref': st.sampled_from(['lab1', 'lab2', 'A(1', 'z\\1']),
    'outline': st.one_of(
        st.just({}), st.just({'text': 'Tit(le\\ \xe9'}),
        st.just({'level': 1, 'text': 'x'})),
}))


def node(tags=TAGS, **kw):
    kw.setdefault('depth', 1)
    return rich.node_st(tags=tags, **kw)


def simple_node():
    return rich.node_st(attrs=('b', 's', 'c'), max_words=8, depth=0,
                        forms=('dot', 'dict'), tags=TAGS)


PAR = st.fixed_dictionaries({}, optional={
    'text_align': st.sampled_from('lrcj'),
    'line_height': st.sampled_from([1, 1.1, 1.5, 2]),
    'indent': st.sampled_from([0, 20, 7.5]),
    'list': st.sampled_from(['1. ', '* ', '-', '(a) ']),
    'list_style': st.sampled_from([{'f': 'Courier'}, {'b': 1}, {
        'f': 'Times', 'i': 1, 'c': 'red'}, {'f': 'Symbol', 's': 14}]),
})

MARGINS = st.fixed_dictionaries({}, optional={
    'margin_left': st.sampled_from([0, 10, 3.3]),
    'margin_right': st.sampled_from([0, 8]),
    'margin_top': st.sampled_from([0, 6]),
    'margin_bottom': st.sampled_from([0, 5, 12]),
})

IMG = st.fixed_dictionaries({
    't': st.just('image'), 'k': st.integers(0, 3),
    'wh': st.sampled_from([[40, 20], [20, 40], [30, 30]]),
    'place': st.sampled_from([None, 'flow', 'normal']),
})
TEXT = st.fixed_dictionaries({'t': st.just('text'), 'node': node(),
                              'par': PAR, 'm': MARGINS})
CELL = st.one_of(
    st.none(), st.integers(0, 99),
    st.fixed_dictionaries({'t': st.just('text'), 'node': simple_node()}),
    st.fixed_dictionaries({'t': st.just('text'), 'node': simple_node()}),
    st.fixed_dictionaries({'t': st.just('content'), 'cols': st.just(1),
                           'm': st.just({}), 'els': st.lists(
        st.fixed_dictionaries({'t': st.just('text'), 'node': simple_node(),
                               'par': st.just({}), 'm': st.just({})}),
        min_size=1, max_size=2)}))


@st.composite
def table(draw):
    n = draw(st.integers(1, 4))
    rows = draw(st.lists(st.lists(CELL, min_size=n, max_size=n), min_size=1,
                         max_size=5))
    return {'t': 'table', 'rows': rows,
            'widths': draw(st.one_of(st.none(), st.lists(
                st.sampled_from([1, 2, 3, 1.5]), min_size=n, max_size=n))),
            'borders': draw(st.sampled_from([None, [
                {'pos': 'h0,-1;:', 'width': 2, 'color': 'green',
                 'style': 'dotted'}], [{'pos': 'v::2;:', 'width': 0}]])),
            'fills': draw(st.sampled_from([None, [
                {'pos': '::2;:', 'color': 0.8}], [
                {'pos': '0;0', 'color': 'red'}]])),
            'm': draw(MARGINS)}


def element(depth=1):
    opts = [TEXT, TEXT, table(), IMG]
    if depth > 0:
        opts.append(st.fixed_dictionaries({
            't': st.just('content'), 'cols': st.integers(1, 3),
            'm': MARGINS,
            'els': st.lists(element(depth - 1), min_size=1, max_size=4)}))
        opts.append(st.fixed_dictionaries({
            't': st.just('group'), 'm': MARGINS,
            'els': st.lists(st.one_of(
                st.fixed_dictionaries({'t': st.just('text'),
                                       'node': simple_node(),
                                       'par': PAR, 'm': MARGINS}), IMG),
                min_size=1, max_size=2)}))
    return st.one_of(*opts)


def block():
    return st.one_of(
        TEXT, TEXT, table(), IMG,
        st.fixed_dictionaries({
            't': st.just('content'), 'cols': st.integers(1, 3), 'm': MARGINS,
            'els': st.lists(element(1), min_size=1, max_size=5)}),
        st.fixed_dictionaries({
            't': st.just('page'),
            'size': st.sampled_from([None, 'a5', [300, 260], 250]),
            'rotate': st.sampled_from([None, True]),
            'margin': st.sampled_from([None, 20, [30, 10]])}))


_images = {}


def image_bytes(k, wh, fmt='JPEG'):
    key = (k, tuple(wh), fmt)
    if key not in _images:
        from PIL import Image
        im = Image.new('RGB', tuple(wh), (40 * k % 256, 200, 255 - 30 * k))
        b = io.BytesIO()
        im.save(b, fmt)
        _images[key] = b.getvalue()
    return _images[key]


def image_arg(p):
    fmt = 'PNG' if p['k'] == 3 else 'JPEG'
    return (io.BytesIO(image_bytes(p['k'], p['wh'], fmt)),
            'png' if p['k'] == 3 else 'jpg',
            'img%d-%d-%d' % (p['k'], p['wh'][0], p['wh'][1]))


def merge_style(d, extra):
    """Add box attributes to a described element's style."""
    if not extra:
        return d
    s = d.get('style')
    d['style'] = dict(s or {}, **extra)
    return d


def par_attrs(par):
    out = {k: v for k, v in par.items() if k not in ('list', 'list_style')}
    if 'list' in par:
        out['list_text'] = par['list']
        if 'list_style' in par:
            out['list_style'] = dict(par['list_style'])
    return out


def expand_fmt(d, formats):
    """replace a named format at the top by its dict, so that attributes can
    be added"""
    if isinstance(d.get('style'), str):
        d['style'] = dict(formats[d['style']])
    return d


def element_desc(p, bld):
    """Description of an element of a content box."""
    t = p['t']
    if t == 'text':
        d, _ = bld.paragraph(p['node'])
        d = expand_fmt(d, bld.formats)
        return merge_style(d, dict(par_attrs(p.get('par', {})),
                                   **p.get('m', {})))
    if t == 'table':
        d = {'table': rows_desc(p, bld), 'style': dict(p['m'])}
        for k in ('widths', 'borders', 'fills'):
            if p.get(k) is not None:
                d[k] = p[k]
        return d
    if t == 'image':
        b, ext, name = image_arg(p)
        d = {'image': b, 'extension': ext, 'image_name': name}
        if p.get('place'):
            d['style'] = {'image_place': p['place']}
        if p['wh'][0] < 2 * p['wh'][1]:
            # as wide as its column it could be higher than any page
            d.setdefault('style', {})['min_height'] = 20
        return d
    if t == 'content':
        d = {'content': [element_desc(e, bld) for e in p['els']],
             'style': dict(p['m'])}
        if p['cols'] > 1:
            d['cols'] = {'count': p['cols'], 'gap': 12} \
                if len(p['els']) % 2 else {'count': p['cols']}
        return d
    if t == 'group':
        els = []
        for e in p['els']:
            x = element_desc(e, bld)
            if e['t'] == 'image':
                x['style'] = dict(x.get('style') or {}, min_height=20)
            els.append(x)
        return {'group': els, 'style': dict(p['m'])}
    raise AssertionError(t)


def rows_desc(p, bld):
    out = []
    for row in p['rows']:
        r = []
        for c in row:
            if c is None or isinstance(c, int):
                r.append(c)
            else:
                r.append(element_desc(c, bld))
        out.append(r)
    return out


def add_block(pdf, b, i, prefix='q'):
    """Add one block through the PDF object's own methods."""
    bld = rich.Builder(prefix + rich.suffix(i), pdf.formats)
    bld.ntag = i * 100
    t = b['t']
    if t == 'page':
        pdf.add_page(b['size'], b['rotate'], b['margin'])
    elif t == 'text':
        d, _ = bld.paragraph(b['node'])
        pdf.text(d, **par_attrs(b['par']))
    elif t == 'table':
        d = element_desc(b, bld)
        d.pop('style')
        pdf.table(d.pop('table'), **d)
    elif t == 'image':
        by, ext, name = image_arg(b)
        pdf.image(by, ext, name, width=b['wh'][0])
    elif t == 'content':
        pdf.content(element_desc(b, bld))


# documents ------------------------------------------------------------------

LAYOUT = st.fixed_dictionaries({}, optional={
    'page_size': st.sampled_from(['a5', [420, 400], 380]),
    'rotate_page': st.booleans(),
    'margin': st.sampled_from([30, [40, 25], [30, 20, 40, 25],
                               {'left': 50, 'top': 35, 'right': 30,
                                'bottom': 45}]),
})
NUMBERING = st.fixed_dictionaries({}, optional={
    'page_numbering_offset': st.integers(0, 4),
    'page_numbering_style': st.sampled_from(['arabic', 'roman']),
    'page_numbering_reset': st.booleans(),
})
RUNNING = st.fixed_dictionaries({
    'x': st.sampled_from(['left', 'right', None, 12]),
    'y': st.sampled_from(['top', 'bottom', None, 15]),
    'width': st.sampled_from(['full', None, 90]),
    'height': st.sampled_from(['full', None, 60]),
    'kind': st.sampled_from(['page', 'text', 'table', 'image']),
})
FOOTED = st.fixed_dictionaries({
    't': st.just('foot'), 'n': st.integers(1, 3), 'deep': st.booleans(),
    'kind': st.sampled_from(['str', 'list', 'dict', 'number']),
})


@st.composite
def document(draw):
    names = ['h', 'f', 'w']
    pick = st.lists(st.sampled_from(names), unique=True)
    pages = st.sampled_from(['0', '0:2', '1:9:2', '0,2', '1:4'])
    return {
        'style': draw(st.builds(lambda a, b: dict(a, **b), LAYOUT,
                                NUMBERING)),
        'running': {n: draw(RUNNING) for n in names},
        'per_page': draw(st.lists(st.fixed_dictionaries({'pages': pages}, optional={
            'style': LAYOUT, 'include': pick, 'exclude': pick}), max_size=2)),
        'sections': draw(st.lists(st.fixed_dictionaries({
            'style': st.builds(lambda a, b: dict(a, **b), LAYOUT, NUMBERING),
            'cols': st.integers(1, 2), 'running': pick,
            'els': st.lists(st.one_of(TEXT, TEXT, table(), IMG, FOOTED,
                                      element(1)), min_size=1, max_size=6),
        }), min_size=1, max_size=3)),
    }


def running_desc(p):
    d = {k: p[k] for k in ('x', 'y', 'width', 'height') if p[k] is not None}
    d['content'] = {
        'page': [{'.': ['Page ', {'var': '$page'}]}],
        'text': ['run (\\ \xe9'],
        'table': [{'table': [['a', 1]]}],
        'image': [{'image': image_arg({'k': 1, 'wh': [40, 20]})[0],
                   'extension': 'jpg', 'image_name': 'runimg'}],
    }[p['kind']]
    return d


def foot_desc(p, n):
    parts = ['Note']
    for i in range(p['n']):
        v = {'str': 'foot (%d\\%d' % (n, i), 'list': ['fa ', {'.b': 'fb'}],
             'dict': {'.': 'fd', 'style': {'i': True}},
             'number': 7}[p['kind']]
        f = {'footnote': v}
        parts += [{'.b': ['x', f]} if p['deep'] else f, ' y']
    return {'.': parts}


def document_desc(p):
    """-> a description for build_pdf"""
    formats = {}
    n = 0
    out = {'style': dict(p['style']), 'formats': formats, 'sections': [],
           'running_sections': {k: running_desc(v)
                                for k, v in p['running'].items()},
           'per_page': []}
    for r in p['per_page']:
        d = {'pages': r['pages']}
        if 'style' in r:
            d['style'] = dict(r['style'])
        rs = {k: list(r[k]) for k in ('include', 'exclude') if k in r}
        if rs:
            d['running_sections'] = rs
        out['per_page'].append(d)
    for s in p['sections']:
        els = []
        for e in s['els']:
            n += 1
            if e['t'] == 'foot':
                els.append(foot_desc(e, n))
            else:
                bld = rich.Builder('q' + rich.suffix(n), formats)
                bld.ntag = n * 100
                els.append(element_desc(e, bld))
        d = {'style': dict(s['style']), 'content': els,
             'running_sections': list(s['running'])}
        if s['cols'] > 1:
            d['cols'] = {'count': s['cols'], 'gap': 10}
        out['sections'].append(d)
    return out
