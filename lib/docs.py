"""Whole documents: generator of sections with their own layout, numbering,
per-page ranges and running sections, and the model of their pages."""
from hypothesis import strategies as st

from . import box
from .common import build, fail, require

EPS = 0.02
SIZES = {'a5': (419.528, 595.276), 'a4': (595.276, 841.89),
         'b5': (498.898, 708.661), 'letter': (612, 792)}
NAMES = ['h', 'f', 'w', 'k']

LAYOUT = st.fixed_dictionaries({}, optional={
    'page_size': st.sampled_from(['a5', 'letter', 'b5', [420, 400], 380,
                                  [390, 500]]),
    'rotate_page': st.booleans(),
    'margin': st.sampled_from([
        32, 45.5, [40, 35], [30, 50, 40], [30, 31, 42, 35], '38', '36 44',
        {'left': 50, 'top': 35, 'right': 30, 'bottom': 45}]),
})
NUMBERING = st.fixed_dictionaries({}, optional={
    'page_numbering_offset': st.integers(0, 4),
    'page_numbering_style': st.sampled_from(['arabic', 'roman']),
    'page_numbering_reset': st.booleans(),
})
BIG_NUMBERING = st.fixed_dictionaries({}, optional={
    'page_numbering_offset': st.one_of(
        st.integers(0, 60), st.sampled_from([88, 97, 390, 395, 488, 897, 990,
                                             1492, 1998, 3880])),
    'page_numbering_style': st.sampled_from(['roman', 'roman', 'arabic']),
    'page_numbering_reset': st.booleans(),
})
RANGES = st.lists(st.one_of(
    st.integers(0, 6).map(str),
    st.tuples(st.one_of(st.just(''), st.integers(0, 5).map(str)),
              st.one_of(st.just(''), st.integers(0, 8).map(str))
              ).map(':'.join),
    st.tuples(st.one_of(st.just(''), st.integers(0, 5).map(str)),
              st.one_of(st.just(''), st.integers(0, 9).map(str)),
              st.integers(1, 3).map(str)).map(':'.join),
), min_size=1, max_size=3).map(lambda r: ','.join(r))


def optnum(words, numbers):
    return st.one_of(*[st.just(w) for w in words],
                     st.sampled_from(numbers))


RUNNING = st.fixed_dictionaries({
    'n': st.sampled_from([0, 0, 1, 3, 60]),
    's': st.sampled_from([5, 6]),
    'lh': st.sampled_from([1, 1.1, 1.5]),
    'align': st.sampled_from('lrcj'),
    'nested': st.booleans(),
}, optional={
    'x': optnum(['left', 'right', None], [0, 12, 200.5]),
    'y': optnum(['top', 'bottom', None], [0, 15.25, 150]),
    'width': optnum(['left', 'right', 'full', None], [60, 133.3]),
    'height': optnum(['top', 'bottom', 'full', None], [20, 48.5]),
})


def element_st():
    par = box.par_st(160)
    cell = box.table_st()
    return st.one_of(
        par, par, par,
        cell,
        st.fixed_dictionaries({'t': st.just('v'), 's': st.sampled_from(
            [8, 14]), 'n': st.sampled_from([1, 1, 40, 150])}),
        st.fixed_dictionaries({
            't': st.just('b'), 'cols': st.integers(1, 2),
            'gap': st.sampled_from([None, 12]), 'm': st.just({}),
            'els': st.lists(box.par_st(60), min_size=1, max_size=3)}))


def one_column(section):
    """No columns inside of columns, where words may be too wide"""
    for e in section['els']:
        if section['cols'] > 1 and e['t'] == 'b':
            e['cols'] = 1
    return section


@st.composite
def document_st(draw, running=True, numbering=NUMBERING, per_page=True,
                max_sections=4):
    pick = st.lists(st.sampled_from(NAMES), max_size=4)
    if not running:
        pick = st.just([])
    style = st.builds(lambda a, b: dict(a, **b), LAYOUT, numbering)
    return {
        'style': draw(style),
        'running': {n: draw(RUNNING) for n in NAMES} if running else {},
        'per_page': draw(st.lists(st.fixed_dictionaries(
            {'pages': RANGES}, optional={
                'style': LAYOUT, 'include': pick, 'exclude': pick}),
            max_size=3)) if per_page else [],
        'sections': draw(st.lists(st.fixed_dictionaries({
            'style': style, 'how': st.sampled_from(['dict', 'dict', 'named']),
            'cols': st.sampled_from([1, 1, 2]), 'running': pick,
            'els': st.lists(element_st(), min_size=1, max_size=5),
        }).map(one_column), min_size=1, max_size=max_sections)),
    }


LONG_RANGES = st.lists(st.one_of(
    st.integers(0, 150).map(str),
    st.tuples(*[st.one_of(st.just(''), st.integers(0, 150).map(str))] * 2
              ).map(':'.join),
    st.tuples(*[st.one_of(st.just(''), st.integers(0, 150).map(str))] * 2,
              st.integers(1, 40).map(str)).map(':'.join),
), min_size=1, max_size=4).map(lambda r: ','.join(r))


@st.composite
def long_st(draw, running=True):
    """Documents of many small pages"""
    pick = st.lists(st.sampled_from(NAMES), max_size=4)
    if not running:
        pick = st.just([])
    small = st.fixed_dictionaries({}, optional={
        'margin': st.sampled_from([32, 30, [35, 40]]),
        'page_size': st.sampled_from([[420, 140], [400, 135]])})
    style = st.builds(lambda a, b: dict(a, **b), small, NUMBERING)
    return {
        'style': dict({'page_size': [420, 130], 'margin': 33},
                      **draw(NUMBERING)),
        'running': {n: dict(draw(RUNNING), n=0) for n in NAMES}
        if running else {},
        'per_page': draw(st.lists(st.fixed_dictionaries(
            {'pages': LONG_RANGES}, optional={
                'style': small, 'include': pick, 'exclude': pick}),
            min_size=1, max_size=3)),
        'sections': draw(st.lists(st.fixed_dictionaries({
            'style': style, 'how': st.just('dict'), 'cols': st.just(1),
            'running': pick, 'els': st.tuples(st.fixed_dictionaries({
                't': st.just('v'), 's': st.just(14),
                'n': st.integers(400, 2200)})).map(list),
        }), min_size=1, max_size=2)),
    }


# description ------------------------------------------------------------------

def running_desc(name, p):
    d = {k: p[k] for k in ('x', 'y', 'width', 'height') if k in p}
    s = {'s': p['s'], 'line_height': p['lh'], 'text_align': p['align'],
         'indent': 0}
    par = {'.': ['R' + name, {'var': '$page'}, '.'] + [
        '\nR%s:%d.' % (name, i) for i in range(1, p['n'] + 1)]}
    if p['nested']:
        d['content'] = [{'style': {'margin_bottom': 0}, 'content': [
            dict(par, style=s)]}]
    else:
        d['style'] = s
        d['content'] = [par]
    return d


def page_range(text):
    """The pages of a comma separated list of indexes and python ranges."""
    out = set()
    for part in text.split(','):
        f = part.split(':')
        if len(f) == 1:
            out.add(int(f[0]))
        else:
            out.update(range(2000)[slice(*[
                int(v) if v.strip() else None for v in f])])
    return out


def describe(p):
    """(description, Build, [root El of every section])"""
    bld = box.Build()
    formats = {}
    out = {'style': dict(p['style']), 'formats': formats, 'sections': [],
           'running_sections': {k: running_desc(k, v)
                                for k, v in p['running'].items()},
           'per_page': []}
    for r in p['per_page']:
        d = {'pages': r['pages']}
        if 'style' in r:
            d['style'] = dict(r['style'])
        rs = {k: list(r[k]) for k in ('include', 'exclude') if k in r}
        if rs:
            d['running_sections'] = rs
        out['per_page'].append(d)
    roots = []
    for i, s in enumerate(p['sections']):
        root = box.El({'t': 'b', 'cols': s['cols'], 'gap': 10}, None, {})
        els = []
        for e in s['els']:
            if e['t'] == 'v':
                x, k = v_desc(e, root, bld)
            else:
                x, k = bld.element(e, root, {})
            els.append(x)
            root.kids.append(k)
        style = dict(s['style'])
        d = {'style': style, 'content': els}
        if s['how'] == 'named':
            formats['sec%d' % i] = style
            d['style'] = 'sec%d' % i
        if s['running']:
            d['running_sections'] = list(s['running'])
        if s['cols'] > 1:
            d['cols'] = {'count': s['cols'], 'gap': 10}
        out['sections'].append(d)
        roots.append(root)
    return out, bld, roots


def v_desc(e, parent, bld):
    k = box.El(e, parent, {})
    k.words = [bld.word(k) for _ in range(2 * e['n'])]
    n = e['n']
    return {'.': [' '.join(k.words[:n]) + ' ', 'P', {'var': '$page'}, '.',
                  ' ' + ' '.join(k.words[n:])],
            'style': {'s': e['s']}}, k


# model --------------------------------------------------------------------------

def margins(m):
    if isinstance(m, dict):
        return {k: m[k] for k in ('top', 'right', 'bottom', 'left')}
    if isinstance(m, str):
        m = [float(v) for v in m.split()]
    if isinstance(m, (int, float)):
        m = [m]
    m = list(m)
    if len(m) == 1:
        m = m * 4
    elif len(m) == 2:
        m = m * 2
    elif len(m) == 3:
        m = m + [m[1]]
    return dict(zip(('top', 'right', 'bottom', 'left'), m))


class Layout:
    def __init__(self, *styles):
        d = {'page_size': 'a4', 'rotate_page': False, 'margin': 56.693}
        for s in styles:
            d.update({k: s[k] for k in d if k in s})
        size = d['page_size']
        if isinstance(size, str):
            w, h = SIZES[size]
        elif isinstance(size, (int, float)):
            w = h = size
        else:
            w, h = size
        if d['rotate_page']:
            w, h = h, w
        self.w, self.h = w, h
        self.m = margins(d['margin'])
        self.left, self.right = self.m['left'], w - self.m['right']
        self.top, self.bottom = h - self.m['top'], self.m['bottom']


def roman(n):
    out = ''
    for v, r in [(1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'),
                 (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'),
                 (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')]:
        while n >= v:
            out += r
            n -= v
    return out


class Page:
    """What is expected and found on a page."""
    # index, section, layout, running (names), number (text), view;
    # words (content), rwords {name: [atoms]}, vwords


def model(p, pvs, bld, roots):
    """[Page]; the words found decide which pages belong to a section."""
    owner = {}
    for i, r in enumerate(roots):
        for leaf in r.leaves():
            for w in words_of(leaf):
                owner[w] = i
    out = []
    offset, numbering = 0, 'arabic'
    sec = None
    seen = {}
    for pv in pvs:
        pg = Page()
        pg.index, pg.view = pv.index, pv
        pg.words, pg.rwords, pg.vwords, pg.order = [], {}, [], []
        for a in box.words(pv):
            if a.word[0] == 'R':
                name = a.word[1]
                if name not in pg.rwords:
                    pg.order.append(name)
                pg.rwords.setdefault(name, []).append(a)
            elif a.word[0] == 'P':
                pg.vwords.append(a)
            else:
                require(a.word in owner, 'unknown word %r on page %d', a.word,
                        pv.index)
                require(a.word not in seen, 'the word %r is shown twice',
                        a.word)
                seen[a.word] = a
                bld.by_word[a.word].atoms.append(a)
                pg.words.append(a)
        owners = {owner[a.word] for a in pg.words}
        require(len(owners) < 2, 'page %d shows contents of sections %s',
                pv.index, sorted(owners))
        require(owners, 'page %d shows no contents', pv.index)
        pg.section = owners.pop()
        out.append(pg)
    for w in owner:
        require(w in seen, 'the word %r is not shown', w)
    for pg in out:
        s = p['sections'][pg.section]
        if pg.section != sec:
            require(pg.section == (0 if sec is None else sec + 1),
                    'page %d shows section %d after section %s', pg.index,
                    pg.section, sec)
            sec = pg.section
            merged = dict(p['style'], **s['style'])
            offset = merged.get('page_numbering_offset', offset)
            numbering = merged.get('page_numbering_style', numbering)
            if merged.get('page_numbering_reset'):
                offset = -pg.index
        styles = [p['style'], s['style']]
        names = list(dict.fromkeys(s['running']))
        for r in p['per_page']:
            if pg.index in page_range(r['pages']):
                styles.append(r.get('style', {}))
                names = [n for n in names if n not in r.get('exclude', [])]
                for n in r.get('include', []):
                    if n not in names:
                        names.append(n)
        pg.layout = Layout(*styles)
        pg.running = names
        n = pg.index + 1 + offset
        pg.number = roman(n) if numbering == 'roman' else str(n)
        pg.numbering = numbering
    require(out and out[-1].section == len(roots) - 1,
            'the last page shows section %s of %d',
            out[-1].section if out else None, len(roots))
    return out


def words_of(leaf):
    yield from leaf.words
    if hasattr(leaf, 'list_word'):
        yield leaf.list_word
    for row in leaf.rows:
        for cell in row:
            yield from cell


def lay_out(p):
    desc, bld, roots = describe(p)
    doc, pvs = build(desc)
    return desc, bld, roots, pvs, model(p, pvs, bld, roots)


def labels(p, pgs):
    out = {'sections %d' % len(p['sections']), 'pages %d' % (len(pgs) if len(pgs) < 8 else 8 if len(pgs) < 50 else 100 if len(pgs) >= 100 else 50)}
    if p['per_page']:
        out.add('per page')
    if any(s['cols'] > 1 for s in p['sections']):
        out.add('columns')
    return out
