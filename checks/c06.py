"""C06: the outline panel mirrors the outlines in the text."""
from hypothesis import strategies as st

from lib import nav, par, rich
from lib.common import build, pages, require, sut, write
from lib.harness import Info, Part
from checks.c05 import at_start, glyph_of, lead_spaces, words_at
from checks.c08 import labels

TECHNIQUE = ('property-based testing (Hypothesis): outline tree of generated '
             'documents against a reference tree')
LEVEL_NOTE = ('Random search over sequences of outline levels, titles and '
              'layouts; held on all generated cases, not proved. Domain: an '
              'outline is at most one level deeper than the one before it.')
RULE = ('(a) up to 40 outlines with random levels and titles in paragraphs, '
        'table cells or columns; (b) outlines on nested parts of paragraphs '
        'that cross page breaks. The parsed tree must equal the reference '
        'tree, with consistent links, counts and open entries. Non-trivial: '
        'at least two levels (a), an outline over a page break or on a part '
        'with nested parts (b).')

titles = st.one_of(
    st.none(), st.none(),
    st.text(st.characters(min_codepoint=32, max_codepoint=255,
                          exclude_characters='\x7f\xad',
                          exclude_categories=('Cc',)), max_size=8),
    st.sampled_from(['Snow \u2603 man', '\u0416\u0443\u043a(', '\U0001f600',
                     '(\\)', 'a\rb', '\xe9\xff', 'x\\']))
item = st.fixed_dictionaries({
    'up': st.integers(-1, 3), 'title': titles, 'label': st.booleans()})
tree_case = st.fixed_dictionaries({
    'items': st.lists(item, min_size=1, max_size=40),
    # None for the default, which is 1
    'open': st.sampled_from([None, 1, 2, 3, 4]),
    'how': st.sampled_from(['text', 'table', 'cols', 'document']),
})


def reference(items, levels, texts, open_level):
    """nested [title, open, children, index]"""
    root = []
    for i, (it, lv) in enumerate(zip(items, levels)):
        node = root
        for _ in range(lv - 1):
            node = node[-1][2]
        title = it['title'] if it['title'] is not None else texts[i]
        node.append([title, lv < open_level, [], i])
    return root


def compare(got, want, path, pick):
    require([g[0] for g in got] == [w[0] for w in want], 'outlines below %r '
            'are %r, expected %r', path, [g[0] for g in got],
            [w[0] for w in want])
    for g, w in zip(got, want):
        if w[2]:
            require(g[2] == w[1], 'outline %r is %s', w[0],
                    'open' if g[2] else 'closed')
        pick(g, w)
        compare(g[3], w[2], w[0], pick)


def check_tree(c):
    from pdfme import PDF
    items = c['items']
    levels = []
    for it in items:
        prev = levels[-1] if levels else 0
        levels.append(max(1, min(prev + 1, prev - it['up'])))
    texts = ['w' + rich.suffix(i) for i in range(len(items))]
    els = []
    for i, it in enumerate(items):
        o = {}
        if levels[i] != 1 or i % 2:
            o['level'] = levels[i]
        if it['title'] is not None:
            o['text'] = it['title']
        e = {'.': texts[i], 'outline': o}
        if it['label']:
            e['label'] = 'lab%d' % i
        els.append(e)
    style = {'page_size': [300, 220], 'margin': 20}
    if c['open'] is not None:
        style['outlines_level'] = c['open']
    if c['how'] == 'document':
        k = len(els) // 2
        return judge(c, items, levels, texts, *build({
            'style': style, 'sections': [
                {'content': part} for part in (els[:k], els[k:])]}))
    with sut():
        pdf = PDF(**style)
        pdf.add_page()
        if c['how'] == 'text':
            for e in els:
                pdf.text(e)
        elif c['how'] == 'table':
            pdf.table([[e, None][:1] for e in els])
        else:
            pdf.content({'cols': {'count': 2, 'gap': 10}, 'content': els})
    return judge(c, items, levels, texts, *pages(write(pdf)))


def judge(c, items, levels, texts, doc, pvs):
    index = {p.page['__ref__']: p.index for p in pvs}
    dests = nav.dests(doc, index)
    got = nav.outline_tree(doc, index)
    want = reference(items, levels, texts, c['open'] or 1)
    words = words_at(pvs)
    used = []

    def pick(g, w):
        i = w[3]
        used.append(g[1])
        require(g[1] is not None and g[1].encode('latin-1') in dests,
                'outline %r leads to %r, which does not exist', w[0], g[1])
        if items[i]['label']:
            require(g[1] == 'lab%d' % i, 'outline %r leads to %r, its label '
                    'is lab%d', w[0], g[1], i)
        at_start(dests[g[1].encode('latin-1')], words[texts[i]],
                 'outline %r' % w[0])
    compare(got, want, 'the root', pick)
    require(len(set(used)) == len(used), 'two outlines share a destination')
    require(len(dests) == len(items), '%d destinations for %d outlines',
            len(dests), len(items))
    deep = max(levels)
    return Info(deep > 1, [c['how'], 'depth %d' % min(deep, 5),
                           'open to %s' % c['open']] + (
        ['unicode title'] if any(it['title'] and max(it['title']) > '\xff'
                                 for it in items) else []))


# nested parts ---------------------------------------------------------------------

def check_parts(c):
    doc, pvs, pars = par.lay_out(c)
    index = {p.page['__ref__']: p.index for p in pvs}
    dests = nav.dests(doc, index)
    got = nav.outline_tree(doc, index)
    where = glyph_of(pars)
    lead = lead_spaces(pars)
    want = []
    nt = False
    pos = {}
    for o in pars:
        for ch in o.model.chars():
            pos[id(ch)] = len(pos)
    for o in pars:
        tags = [t for t in o.model.parts if t.get('outline') is not None and
                t['chars']]
        for t in tags:
            title = t['outline'].get('text')
            if title is None:
                title = part_text(t)
            want.append((pos[id(t['chars'][0])], title, t, o))
            if len({where[id(ch)].page for ch in t['chars']}) > 1:
                nt = True
            if t['nested']:
                nt = True
    want.sort(key=lambda w: w[0])
    require([clean(g[0]) for g in got] == [clean(w[1]) for w in want],
            'outlines are %r, expected %r', [g[0] for g in got],
            [w[1] for w in want])
    for g, (_, title, t, o) in zip(got, want):
        key = (g[1] or '').encode('latin-1')
        require(key in dests, 'outline %r leads nowhere', title)
        at_start(dests[key], where[id(t['chars'][0])], 'outline %r' % title,
                 lead[id(t['chars'][0])])
    return Info(nt, labels(c, pvs, pars) | {'outlines %d' % min(len(want),
                                                                6)})


def clean(s):
    return ' '.join(s.split())


def part_text(t):
    return t['text']


def parts_case():
    tags = st.one_of(st.none(), st.fixed_dictionaries({
        'outline': st.sampled_from([{}, {}, {'text': 'T('}, {'level': 1}])}))
    return st.one_of(
        par.layout_st(node=rich.node_st(max_words=10, tags=tags), h=(
            150, 200)),
        par.layout_st(node=rich.node_st(attrs=('s', 'r'), max_words=40,
                                        depth=1, tags=tags), h=(150, 200)))


PARTS = [Part('tree', lambda: tree_case, check_tree, 1600, 30000),
         Part('parts', parts_case, check_parts, 2000, 40000)]
