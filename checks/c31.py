"""C31: containers with nothing in them leave no trace."""
from hypothesis import strategies as st

from lib import box
from lib.common import build, render, require
from lib.harness import Info, Part, sut
from lib.same import same_pages

TECHNIQUE = ('property-based testing (Hypothesis) with a metamorphic '
             'relation: a document with empty containers inserted anywhere '
             'against the same document without them')
LEVEL_NOTE = ('Random search over documents and places for empty content '
              'boxes, groups and tables in them. Held on all generated '
              'cases, not proved.')
RULE = ('Each case is a document and up to six empty containers inserted '
        'in it. Non-trivial: at least two of them come between elements, '
        'and the document has at least two pages or a table or a nested '
        'box.')


def one(*v):
    return st.sampled_from(v)


def empty_st(depth=1):
    """An empty container: its kind, its margins, and what is in it"""
    inner = st.just([])
    if depth:
        inner = st.one_of(inner, inner, st.lists(empty_st(depth - 1),
                                                 min_size=1, max_size=2))
    return st.tuples(one('content', 'group', 'table', 'rows'), box.MARGINS,
                     inner).map(list)


def case_st():
    return st.fixed_dictionaries({
        # elements that give way to others can be overtaken by different
        # ones, so they all get room, or there are none
        'c': st.one_of(box.case_st(budget=1, flow=False), box.case_st(
            budget=1).map(lambda c: dict(c, page=[c['page'][0], 4000]))),
        'how': one('content', 'content', 'section'),
        'calls': st.lists(one('content', 'table', 'rows'), max_size=2),
        'empty': st.lists(st.tuples(st.integers(0, 30), st.integers(0, 30),
                                    empty_st()).map(list),
                          min_size=2, max_size=6)})


def describe(e):
    kind, style, inner = e
    d = {'style': dict(style)}
    # the space above a group is left also if it is empty
    d['style'].pop('margin_top', None)
    if kind == 'rows':
        d['table'] = [[]]
    elif kind == 'group':
        # there are no boxes and no groups in groups
        d['group'] = [describe(['table', k[1], []]) for k in inner]
    elif kind == 'table':
        d['table'] = []
    else:
        d['content'] = [describe(k) for k in inner]
    return d


def document(c, empty):
    """The content boxes of a case, and how many empty containers come
    between elements"""
    bld = box.Build()
    roots = [bld.root(dict(p, m={})) for p in c['c']['boxes']]
    lists = []

    def walk(d, parent):
        if not isinstance(d, dict):
            return
        # the top margin of what comes after an empty element at the top of
        # a column is not defined
        if isinstance(d.get('style'), dict):
            d['style'].pop('margin_top', None)
        for k in ('content', 'group'):
            if k in d:
                lists.append((k, d[k]))
                for x in d[k]:
                    walk(x, d)
    for r in roots:
        walk(r, None)
    between = 0
    if empty:
        for a, b, e in c['empty']:
            kind, els = lists[a % len(lists)]
            if kind == 'group':
                e = ['table', e[1], []]
            at = b % (len(els) + 1)
            between += 0 < at < len(els)
            els.insert(at, describe(e))
    return roots, between, bld


def draw(c, empty):
    from pdfme import PDF
    roots, between, bld = document(c, empty)
    page, margin = c['c']['page'], c['c']['margin']
    if c['how'] == 'section':
        out = build({'style': {'page_size': page, 'margin': margin},
                     'sections': roots})
        return (*out, between, bld, None)
    with sut():
        pdf = PDF(page_size=list(page), margin=list(margin))
        pdf.add_page()
        pdf.page.y += c['c']['before']
        for r in roots:
            if empty:
                for k in c['calls']:
                    if k == 'content':
                        pdf.content({'content': []})
                    else:
                        pdf.table([] if k == 'table' else [[]])
            pdf.content(r)
        end = len(pdf.pages), pdf.page.y
    return (*render(pdf), between, bld, end)


def check(c):
    da, pa, _, _, enda = draw(c, False)
    db, pb, between, bld, endb = draw(c, True)
    same_pages(da, pa, db, pb, 'the document without and with empty '
               'containers')
    require(enda is None or enda[0] == endb[0] and
            abs(enda[1] - endb[1]) < 0.02, 'the cursor is %s after the '
            'content without empty containers, and %s with them', enda, endb)
    kinds = {x.t for r in bld.roots for x in every(r)}
    return Info(between >= 2 and (len(pa) > 1 or 't' in kinds or
                                  'b' in kinds),
                ['%d pages' % min(len(pa), 3), c['how']] + sorted(
                    {e[2][0] for e in c['empty']}))


def every(el):
    for k in el.kids:
        yield k
        yield from every(k)


PARTS = [Part('empty', case_st, check, 2500, 40000)]
