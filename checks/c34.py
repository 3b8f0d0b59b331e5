"""C34: sections do not affect one another."""
from hypothesis import strategies as st

from lib import box, gendoc, nav, rich, tab
from lib.common import build, require
from lib.harness import Info, Part, Violation
from lib.same import same_pages

TECHNIQUE = ('property-based testing (Hypothesis) with a metamorphic '
             'relation: a document of several sections against one document '
             'for each of the sections')
LEVEL_NOTE = ('Random search over documents of two to four sections of any '
              'elements, layouts, running sections and footnotes. Held on '
              'all generated cases, not proved.')
RULE = ('Each case is a document of two to four sections, with all kinds of '
        'elements; pages, links, labels and outlines are compared with those '
        'of documents that have one of the sections only. Non-trivial: at '
        'least three pages, and a section that is not the last has several '
        'pages, tables, columns, footnotes or images.')


def one(*v):
    return st.sampled_from(v)


MIXED = st.fixed_dictionaries({
    't': st.just('mixed'), 'style': gendoc.LAYOUT, 'cols': st.integers(1, 2),
    'text': st.fixed_dictionaries({}, optional={
        's': one(8, 14), 'text_align': one('j', 'r'), 'c': one('red', 0.5),
        'line_height': one(1, 1.6), 'margin_bottom': one(0, 9)}),
    'els': st.lists(st.one_of(gendoc.TEXT, gendoc.table(), gendoc.IMG,
                              gendoc.FOOTED, gendoc.element(1)),
                    min_size=1, max_size=6)})
TABLES = tab.case_st().map(lambda c: {'t': 'table', 'c': c})
BOXES = box.case_st(budget=2).map(lambda c: {'t': 'box', 'c': c})


def case_st():
    return st.fixed_dictionaries({
        'style': st.builds(lambda a, b: dict(a, **b), gendoc.LAYOUT,
                           st.fixed_dictionaries({}, optional={
                               'page_numbering_offset': st.integers(0, 4),
                               'page_numbering_style': one('roman'),
                               's': one(9, 12), 'f': one('Times')})),
        'running': st.fixed_dictionaries({
            n: gendoc.RUNNING for n in 'hf'}),
        'sections': st.lists(st.tuples(
            st.one_of(MIXED, MIXED, TABLES, BOXES),
            st.lists(one('h', 'f'), unique=True)).map(list),
            min_size=2, max_size=4)})


def section(s, i, formats):
    plan, running = s
    if plan['t'] == 'mixed':
        els = []
        for j, e in enumerate(plan['els']):
            n = 100 * i + j
            if e['t'] == 'foot':
                els.append(gendoc.foot_desc(e, n))
            else:
                bld = rich.Builder('q' + rich.suffix(n), formats)
                bld.ntag = n * 100
                els.append(gendoc.element_desc(e, bld))
        d = {'content': els, 'style': dict(plan['style'], **plan['text'])}
        if plan['cols'] > 1:
            d['cols'] = {'count': plan['cols'], 'gap': 10}
    elif plan['t'] == 'table':
        c = plan['c']
        t = tab.Table(c)
        el = {'table': t.rows, 'style': t.style, 'borders': t.borders,
              'fills': t.fills}
        if c['widths']:
            el['widths'] = c['widths']
        d = {'content': [el], 'style': layout(c)}
    else:
        c = plan['c']
        bld = box.Build()
        d = {'content': [bld.root(b) for b in c['boxes']],
             'style': layout(c)}
    if plan['t'] != 'mixed':
        name_images(d['content'], 's%d' % i)
    d['running_sections'] = list(running)
    return d


def layout(c):
    return {'page_size': list(c['page']), 'margin': list(c['margin'])}


def name_images(d, prefix):
    """Names tell images apart"""
    if isinstance(d, dict):
        if 'image_name' in d:
            d['image_name'] = prefix + d['image_name']
        for v in d.values():
            name_images(v, prefix)
    elif isinstance(d, (list, tuple)):
        for v in d:
            name_images(v, prefix)


def document(c, which, first):
    formats = {}
    sections = [section(s, i, formats)
                for i, s in enumerate(c['sections'])]
    style = dict(c['style'])
    if first:
        style['page_numbering_offset'] = first + style.get(
            'page_numbering_offset', 0)
    return build({
        'style': style, 'formats': formats,
        'running_sections': {k: gendoc.running_desc(v)
                             for k, v in c['running'].items()},
        'sections': [sections[i] for i in which]})


def check(c):
    n = len(c['sections'])
    alone, first = [], 0
    try:
        for i in range(n):
            alone.append(document(c, [i], first))
            first += len(alone[-1][1])
    except Violation as e:
        if 'could not be fitted' in str(e) or 'footnotes are very' in str(e):
            return Info(False, ['does not fit'])
        raise
    doc, pvs = document(c, range(n), 0)
    require(len(pvs) == first, '%d sections have %d pages, and %d together',
            n, first, len(pvs))
    got = nav.navigation(doc, pvs)
    want = {'labels': [], 'outlines': [], 'links': []}
    first = 0
    for i, (d, p) in enumerate(alone):
        same_pages(d, p, doc, pvs[first:first + len(p)],
                   'section %d alone, and in the document,' % i)
        x = nav.navigation(d, p)
        want['labels'] += [(k, (v[0] + first, *v[1:])) for k, v in
                           x['labels']]
        want['outlines'] += moved(x['outlines'], first)
        want['links'] += x['links']
        first += len(p)
    want['labels'].sort()
    for k in got:
        require(got[k] == want[k], 'the %s of the sections alone are %r, and '
                'together %r', k, want[k], got[k])
    kinds = {s[0]['t'] for s in c['sections']}
    for s in c['sections']:
        kinds |= {e['t'] for e in s[0].get('els', ())}
    rich_ = [len(p) > 1 or s[0]['t'] != 'mixed' or s[0]['cols'] > 1 or
             {e['t'] for e in s[0]['els']} & {'table', 'foot', 'image',
                                              'content', 'group'}
             for s, (_, p) in zip(c['sections'], alone)]
    return Info(first > 2 and any(rich_[:-1]), kinds)


def moved(tree, by):
    return [[t, (d[0] + by, *d[1:]), o, moved(kids, by)]
            for t, d, o, kids in tree]


PARTS = [Part('sections', case_st, check, 1000, 20000)]
