"""C33: variables show the value they have when they are drawn."""
from hypothesis import strategies as st

from lib import nav
from lib.common import build, render
from lib.harness import Info, Part, Violation, sut
from lib.same import same_pages

TECHNIQUE = ('stateful property-based testing (Hypothesis) with a '
             'metamorphic relation: descriptions with variables against the '
             'same descriptions with their values written out')
LEVEL_NOTE = ('Random search over sequences of up to 12 calls on a PDF object '
              'and over documents built with a context. Held on all '
              'generated cases, not proved.')
RULE = ('Each case is a sequence of calls on one PDF object that set '
        'variables and place elements that show them, or a document and its '
        'context. Non-trivial: at least three places show variables with a '
        'value that is not empty and, in sequences, a variable that was '
        'shown is changed and shown again.')
NAMES = ['a', 'who', 'a b', 'page', '']


def one(*v):
    return st.sampled_from(v)


VALUE = st.one_of(
    one('name', 'A Really Long Name', ' lead', 'trail ', 'a  b', '', ' ',
        '(x\\', '\xe9t\xe9 \xa1', 'x' * 40, 12, 0, 1.5, True, '$page', 'a',
        'w ' * 25),
    st.integers(2, 60).map(lambda n: ' '.join('v%d' % i for i in range(n))))
STYLE = one(None, None, None, 'b:1', 's:15;c:red', 'f:Times;bg:yellow',
            'u:1;r:0.4', 'i:1')
# without sizes: those of a variable that shows nothing still count
LOOK = one(None, None, None, 'b:1', 'c:red', 'f:Times;bg:yellow', 'u:1',
           'i:1')
DECO = one(None, None, None, 'uri', 'label', 'ref', 'nested', 'outline',
           'title', 'in title')


def item():
    word = st.tuples(st.just('w'), one('and ', ' in', 'for', ' - ', 'p\nq ',
                                       'some more words ')).map(list)
    var = st.tuples(st.just('v'), one(*NAMES), LOOK, DECO).map(list)
    return st.booleans().flatmap(lambda b: var if b else word)


def par():
    return st.fixed_dictionaries({
        'items': st.lists(item(), min_size=1, max_size=6),
        'style': STYLE,
        # there is always something besides of the variables
        'words': one(['T '], ['T '], ['', ' T']),
        'dict': st.booleans(),
        'par': st.fixed_dictionaries({}, optional={
            'text_align': one('l', 'r', 'c', 'j'), 'indent': one(0, 12),
            'list_text': one('1. ', '- ')})})


def element(kinds='ptbg'):
    opts = {
        'p': par(),
        't': st.lists(st.lists(par(), min_size=2, max_size=2), min_size=1,
                      max_size=3),
        'b': st.tuples(one(1, 1, 2), st.lists(par(), min_size=1, max_size=4)),
        'g': st.lists(par(), min_size=1, max_size=3)}
    return st.one_of(*[st.tuples(st.just(k), v).map(list)
                       for k, v in opts.items() if k in kinds])


CONTEXT = st.lists(st.tuples(one(*NAMES), VALUE).map(list), max_size=4)


def calls_st():
    return st.fixed_dictionaries({
        'page': one([300, 200], [420, 330]), 'context': CONTEXT,
        'ops': st.lists(st.integers(0, 9).flatmap(lambda k: st.tuples(
            st.just('set'), one(*NAMES), VALUE) if k < 4 else st.tuples(
            st.just('el'), element()) if k < 6 else st.tuples(
            st.just('again'), st.integers(0, 9)) if k < 7 else st.tuples(
            st.just('page'), st.none()) if k < 8 else st.tuples(
            st.just('section'), par()) if k < 9 else st.tuples(
            st.just('del'), one(*NAMES))).map(list),
            min_size=3, max_size=12)})


def doc_st():
    return st.fixed_dictionaries({
        'page': one([300, 200], [420, 330]), 'context': CONTEXT,
        'numbers': st.booleans(),
        'running': st.lists(par(), max_size=2),
        'sections': st.lists(st.lists(st.one_of(element(), st.tuples(
            st.just('f'), st.tuples(par(), par())).map(list)), min_size=1,
            max_size=3), min_size=1, max_size=2)})


class Writer:
    """Writes the descriptions; with the values of the variables if there are
    any given."""

    def __init__(self, values):
        self.values = values
        self.n = 500000
        self.shown = []

    def item(self, it):
        if it[0] == 'w':
            return it[1]
        _, name, style, deco = it
        d = {}
        if self.values is None:
            d['var'] = name
        else:
            v = self.values.get(name, '')
            d['.'] = str(v)
            self.shown.append([name, str(v)])
        if style:
            d['style'] = dict(kv.split(':') for kv in style.split(';'))
        if deco == 'nested':
            return {'.b:1': ['n', d]}
        if deco == 'in title':
            return {'.': ['n ', d, {'.i:1': ' m'}], 'outline': {}}
        if deco == 'title':
            d['outline'] = {}
            return d
        if deco == 'uri':
            d['uri'] = 'http://a.b/'
        elif deco == 'outline':
            d['outline'] = {'text': 'o', 'level': 1}
        elif deco:
            self.n += 1
            d[deco] = 'l%d' % self.n
        return d

    def par(self, p, extra=()):
        d = {'.' + (p['style'] or ''): [
            *p['words'][:1], *[self.item(i) for i in p['items']],
            *p['words'][1:], *extra]}
        return d

    def styled(self, p, extra=()):
        """Paragraph inside of a box"""
        d = self.par(p, extra)
        d['style'] = dict(p['par'])
        if not p['words'][0]:
            # the mark of a list looks like the first part, also an empty one
            d['style'].pop('list_text', None)
        return d

    def element(self, e):
        kind, v = e
        if kind == 'p':
            return self.styled(v)
        if kind == 't':
            return {'table': [[self.styled(p) for p in row] for row in v]}
        if kind == 'b':
            return {'content': [self.styled(p) for p in v[1]],
                    'cols': {'count': v[0]}}
        if kind == 'g':
            return {'group': [self.styled(p) for p in v]}
        body, note = v
        return self.styled(body, [{'footnote': self.par(
            dict(note, words=['T ']))}])


def draw(pdf, d, e):
    kind, v = e
    if kind == 'p':
        kw = d.pop('style') if not v['dict'] else {}
        pdf.text(d, **kw) if kw is not None else None
    elif kind == 't':
        pdf.table(d['table'])
    else:
        pdf.content({'content': [d]})


def same(a, b):
    what = 'values written out, and variables,'
    same_pages(*a, *b, what)
    nav.same_navigation(*a, *b, what)


def run(c, literal):
    """The document; and what was shown of the variables"""
    from pdfme import PDF
    values = dict(c['context'])
    w = Writer(values if literal else None)
    with sut('PDF'):
        pdf = PDF(page_size=c['page'], margin=30)
        if not literal:
            pdf.context.update(values)
    sections, drawn, descs = [], [], []

    def section(i):
        n, w.n = w.n, 1000 * i
        pdf.add_running_section(
            {'content': [w.styled(sections[i], [' P', {'var': '$page'}])]},
            200, 60, 2, 2)
        w.n = n

    def sync():
        """The running sections of the pages that come in a call"""
        if literal:
            pdf.running_sections = []
            for i in range(len(sections)):
                section(i)

    def page():
        sync()
        with sut('add_page'):
            pdf.add_page()

    page()
    for op in c['ops']:
        kind = op[0]
        if kind == 'set':
            values[op[1]] = op[2]
            if not literal:
                pdf.context[op[1]] = op[2]
        elif kind == 'del':
            values.pop(op[1], None)
            if not literal:
                pdf.context.pop(op[1], None)
        elif kind == 'page':
            page()
        elif kind == 'section':
            sections.append(op[1])
            if not literal:
                section(len(sections) - 1)
        else:
            if kind == 'again' and not drawn:
                continue
            if kind == 'el':
                e = op[1]
                drawn.append((e, w.n))
                d = w.element(e)
                descs.append(d)
            else:
                k = op[1] % len(drawn)
                e, n = drawn[k]
                # the very same description again, with other values
                n, w.n = w.n, n
                d = w.element(e) if literal else descs[k]
                w.n = n
            sync()
            with sut('drawing'):
                if e[0] == 'p' and not e[1]['dict']:
                    d = dict(d)
                draw(pdf, d, e)
    return pdf, w.shown


def check_calls(c):
    try:
        b, shown = run(c, True)
    except Violation as e:
        if 'could not be fitted' in str(e):
            return Info(False, ['does not fit'])
        raise
    a, _ = run(c, False)
    same(render(b), render(a))
    names = {}
    changed = False
    for name, v in shown:
        if names.get(name, v) != v:
            changed = True
        names[name] = v
    full = [v for _, v in shown if v]
    return Info(changed and len(full) > 2, {o[0] for o in c['ops']})


def document(c, literal):
    values = dict(c['context'])
    w = Writer(values if literal else None)
    page = [' P', {'var': '$page'}] if c['numbers'] else []
    d = {'style': {'page_size': c['page'], 'margin': 50},
         'running_sections': {
             'r%d' % i: {'x': 'left', 'y': 2 + 300 * i,
                         'height': 40, 'content': [w.styled(p, page)]}
             for i, p in enumerate(c['running'])},
         'sections': [{'content': [w.element(e) for e in s],
                       'running_sections': ['r%d' % i for i in range(
                           len(c['running']))]} for s in c['sections']]}
    return build(d, None if literal else values), w.shown


def check_doc(c):
    try:
        (db, pb), shown = document(c, True)
    except Violation as e:
        if 'could not be fitted' in str(e) or 'footnotes' in str(e):
            return Info(False, ['does not fit'])
        raise
    (da, pa), _ = document(c, False)
    same((db, pb), (da, pa))
    full = [v for _, v in shown if v]
    return Info(len(full) > 2, [k for s in c['sections'] for k in [
        e[0] for e in s]])


PARTS = [Part('calls', calls_st, check_calls, 3000, 50000),
         Part('documents', doc_st, check_doc, 1500, 25000)]
