"""C05: every label is a destination at the labelled text."""
from hypothesis import strategies as st

from lib import nav, par, rich
from lib.common import pages, pdf_bytes, require, sut, write
from lib.harness import Info, Part
from checks.c08 import labels

TECHNIQUE = ('property-based testing (Hypothesis): labels of generated '
             'documents against the parsed name tree and glyph positions')
LEVEL_NOTE = ('Random search over label names, numbers of labels (up to 130, '
              'three levels of the tree) and layouts; held on all generated '
              'cases, not proved.')
RULE = ('(a) paragraphs with labels on nested parts, over page breaks; (b) up '
        'to 130 labels with arbitrary names in paragraphs, table cells or '
        'columns, or in pages returned to. The name tree must be well formed and lead to the position '
        'of the first character of the labelled text. Non-trivial: a labelled '
        'part over a page break (a), more than 7 labels (b).')


def at_start(dest, g, what, lead=0):
    page, x, y = dest
    require(page == g.page, '%s leads to page %s, its text starts on page %s',
            what, page, g.page)
    require(g.x - lead - 0.1 < x < g.x + 0.1, '%s leads to x %.2f, its text '
            'starts at %.2f', what, x, g.x)
    require(g.y + 0.4 * g.size < y < g.y + 1.5 * g.size,
            '%s leads to y %.2f, its text is at %.2f, size %s', what, y, g.y,
            g.size)


def glyph_of(pars):
    out = {}
    for o in pars:
        for ln in o.lines:
            for g, ch in ln.vis:
                out[id(ch)] = g
    return out


def lead_spaces(pars):
    """{id of a char: width of the space drawn before it on its line}; a part
    may begin with this space"""
    out = {}
    for o in pars:
        big = max([c.st['s'] * (1 + abs(c.st['r']))
                   for c in o.model.chars()] or [0])
        for ln in o.lines:
            prev = None
            for g, ch in ln.vis:
                gap = g.x - prev.x2 if prev is not None else 0
                # the spaces of a justified line may be of any width
                out[id(ch)] = max(big, gap)
                prev = g
    return out


def check(c):
    doc, pvs, pars = par.lay_out(c)
    index = {p.page['__ref__']: p.index for p in pvs}
    got = nav.dests(doc, index)
    where = glyph_of(pars)
    lead = lead_spaces(pars)
    declared = set()
    nt = False
    n = 0
    for o in pars:
        for t in o.model.parts:
            if not t.get('label'):
                continue
            key = t['label'].encode('latin-1')
            declared.add(key)
            if not t['chars']:
                continue
            n += 1
            require(key in got, 'label %r is not in the name tree', key)
            at_start(got[key], where[id(t['chars'][0])], 'label %r' % key,
                     lead[id(t['chars'][0])])
            if len({where[id(ch)].page for ch in t['chars']}) > 1:
                nt = True
    for k in got:
        require(k in declared, 'destination %r was never declared', k)
    return Info(nt or n > 2, labels(c, pvs, pars) | {
        'labels %d' % min(n, 8)} | ({'label over a page break'} if nt
                                    else set()))


def case():
    tags = st.one_of(st.none(), st.fixed_dictionaries({
        'label': st.sampled_from(['lab', 'A(', ')z\\', '\xe9', 'b c', '$x:',
                                  '\\', '\n', 'a\r'])}))
    return st.one_of(
        par.layout_st(node=rich.node_st(max_words=10, tags=tags), h=(
            150, 200)),
        par.layout_st(node=rich.node_st(attrs=('s', 'r'), max_words=40,
                                        depth=1, tags=tags), h=(150, 200)))


# many labels -------------------------------------------------------------------

names = st.text(st.one_of(st.sampled_from('ab()\\ \n\r:$/1'), st.characters(
    min_codepoint=33, max_codepoint=255), st.sampled_from(
        'ab\u2603\u0416\U0001f600')), min_size=1, max_size=4)
many_case = st.fixed_dictionaries({
    'names': st.one_of(
        st.lists(names, min_size=1, max_size=20, unique=True),
        st.integers(1, 130)),
    'seed': st.integers(0, 10**6),
    'how': st.sampled_from(['text', 'table', 'cols', 'mixed', 'pages']),
})


def label_names(c):
    if isinstance(c['names'], int):
        n = c['names']
        k = c['seed'] | 1
        return ['n%d' % (i * k % 99991) + chr(65 + i * k % 26)
                for i in range(n)]
    return c['names']


def check_many(c):
    from pdfme import PDF
    ns = label_names(c)
    with sut():
        pdf = PDF(page_size=[300, 220], margin=20)
        pdf.add_page()
        els = [{'.': 'w%s' % rich.suffix(i), 'label': n}
               for i, n in enumerate(ns)]
        how = c['how']
        if how == 'mixed':
            a = len(els) // 3
            parts = [('text', els[:a]), ('table', els[a:2 * a]),
                     ('cols', els[2 * a:])]
        else:
            parts = [(how, els)]
        for h, es in parts:
            if not es:
                continue
            if h == 'text':
                for e in es:
                    pdf.text(e)
            elif h == 'pages':
                # back and forth between pages
                for _ in range(c['seed'] % 7):
                    pdf.add_page()
                for i, e in enumerate(es):
                    pdf.page_index = (c['seed'] >> i % 16) * i % \
                        len(pdf.pages)
                    pdf.text(dict(e, uri='u%d' % i))
            elif h == 'table':
                rows = [es[i:i + 3] for i in range(0, len(es), 3)]
                rows[-1] += [None] * (3 - len(rows[-1]))
                pdf.table(rows)
            else:
                pdf.content({'cols': {'count': 2, 'gap': 10}, 'content': es})
    doc, pvs = pages(write(pdf))
    index = {p.page['__ref__']: p.index for p in pvs}
    got = nav.dests(doc, index)
    keys = {pdf_bytes(n) for n in ns}
    require(set(got) == keys, 'name tree: lost %r, not asked for %r',
            sorted(keys - set(got))[:5], sorted(set(got) - keys)[:5])
    words = words_at(pvs)
    for i, n in enumerate(ns):
        w = 'w' + rich.suffix(i)
        require(w in words, 'text %r of label %r is not shown', w, n)
        at_start(got[pdf_bytes(n)], words[w], 'label %r' % n)
    if c['how'] == 'pages':
        links = {uri: (i, rect) for i, pv in enumerate(pvs)
                 for rect, _, uri in nav.links(doc, pv)}
        for i in range(len(ns)):
            g = words['w' + rich.suffix(i)]
            require('u%d' % i in links, 'link %d is lost', i)
            page, rect = links['u%d' % i]
            require(page == g.page and rect[0] - 0.1 < g.x < rect[2] and
                    rect[1] < g.y + 0.2 * g.size < rect[3], 'link %d is in '
                    'page %d at %s, its text in page %d at %.2f, %.2f', i,
                    page, rect, g.page, g.x, g.y)
    return Info(len(ns) > 7, [c['how'], 'labels over %d' % (
        0 if len(ns) < 8 else 7 if len(ns) < 50 else 49)])


def words_at(pvs):
    """word -> first glyph, for words drawn one per part"""
    out = {}
    for pv in pvs:
        run = None
        w = ''
        for g in pv.glyphs + [None]:
            if g is None or g.run != run or g.ch == ' ':
                if w:
                    out.setdefault(w, first)
                w = ''
                if g is None:
                    break
                run = g.run
            if g.ch != ' ':
                if not w:
                    first = g
                w += g.ch
    return out


PARTS = [Part('paragraphs', case, check, 2500, 50000),
         Part('many', lambda: many_case, check_many, 1000, 16000)]
