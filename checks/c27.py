"""C27: saved layout state can be restored and gives the same result."""
from hypothesis import strategies as st

from lib import box, pdfread, rich, tab
from lib.common import require
from lib.harness import Info, Part, fail, sut

TECHNIQUE = ('stateful property-based testing (Hypothesis): generated '
             'histories of run, save and restore, each result compared with '
             'a fresh object that ran the same rectangles without saving or '
             'restoring')
LEVEL_NOTE = ('Random search over histories of up to 12 operations on '
              'paragraphs, tables and content boxes. Held on all generated '
              'cases, not proved.')
RULE = ('Each case is one element and a history of runs in rectangles of '
        'varying position and size, saves and restores, finished with large '
        'rectangles. Non-trivial: some restore was followed by a run and '
        'undid at least one run that had placed something.')

RUNS = st.lists(st.integers(0, 3).map(lambda n: ['run', n]), max_size=3)
OPS = st.lists(st.tuples(
    RUNS, st.just([['save']]), RUNS,
    st.integers(0, 5).map(lambda n: [['back', n]]), RUNS
).map(lambda t: sum(t, [])), min_size=1, max_size=3).map(
    lambda t: sum(t, []))


def rects_st(ws, hs):
    return st.lists(st.tuples(
        st.sampled_from([0, 10, 55.5]), st.sampled_from([700, 640.25, 820]),
        st.sampled_from(ws), st.sampled_from(hs)).map(list),
        min_size=1, max_size=4)


def case(el, ws, hs):
    return st.fixed_dictionaries({
        'el': el, 'rects': rects_st(ws, hs), 'ops': OPS,
        'pdf': st.booleans()})


def text_case():
    par = st.fixed_dictionaries({
        'node': rich.node_st(max_words=14, tags=st.one_of(
            st.none(), st.fixed_dictionaries({}, optional={
                'label': st.just('l'), 'uri': st.just('u')}))),
        'align': st.sampled_from('lrcj'),
        'lh': st.sampled_from([1, 1.1, 2]),
        'indent': st.sampled_from([0, 0, 20]),
        'list': st.one_of(st.none(), st.none(), st.tuples(
            st.sampled_from(['1. ', '(*)']), st.sampled_from([None, 30]),
            st.one_of(st.none(), st.just({'s': 20}))).map(list))})
    return case(par, [160, 230, 400], [3, 14, 30, 60, 100, 160])


def table_case():
    return st.tuples(tab.case_st(long=30), st.booleans()).flatmap(
        lambda t: case(st.just(t[0]), [90 * t[0]['C'] + 20] if t[1] else
                       [90 * t[0]['C'] + 20, 130 * t[0]['C'] + 20],
                       [30, 60, 110, 170, 260]))


def box_case():
    return case(box.box_st(), [480, 540], [140, 200, 250, 420])


def tall_box_case():
    return case(box.tall_st().map(lambda c: c['boxes'][0]), [480, 540],
                [140, 200, 250, 420])


def tall_table_case():
    return tab.tall_st().flatmap(lambda t: case(
        st.just(t), [90 * t['C'] + 20, 130 * t['C'] + 20],
        [30, 60, 110, 170, 260]))


# making --------------------------------------------------------------------

class Thing:
    """Builds fresh objects of one description, and knows what they show."""

    def __init__(self, kind, c):
        self.kind, self.c = kind, c

    def make(self):
        from pdfme import PDF
        from pdfme.content import PDFContent
        from pdfme.table import PDFTable
        from pdfme.text import PDFText
        c, p = self.c, self.c['el']
        pdf = PDF()
        self.chains = []         # lists of what is shown in order
        if self.kind == 'text':
            bld = rich.Builder(formats=pdf.formats)
            desc, m = bld.paragraph(p['node'])
            kw = {}
            self.chains = [[''.join(ch.ch for ch in w) for w in m.words]]
            if p['list'] and m.words:
                kw = dict(list_text=p['list'][0], list_indent=p['list'][1],
                          list_style=p['list'][2])
                self.chains.append([kw['list_text'].strip()])
            return PDFText(desc, 100, 100, 0, 0, fonts=pdf.fonts,
                           text_align=p['align'], line_height=p['lh'],
                           indent=p['indent'], pdf=pdf, **kw)
        if self.kind == 'table':
            t = tab.Table(p)
            self.chains = [x.order for x in t.cells]
            return PDFTable(t.rows, pdf.fonts, 0, 0, 100, 100,
                            widths=p['widths'], style=t.style,
                            borders=t.borders, fills=t.fills,
                            pdf=pdf if c['pdf'] else None)
        bld = box.Build()
        d = bld.root(p)
        for el in bld.roots[0].leaves():
            if el.t == 'i':
                self.chains.append([el.image])
            elif el.t == 't':
                self.chains += [x for row in el.rows for x in row]
            else:
                if getattr(el, 'list_word', None):
                    self.chains.append([el.list_word])
                self.chains.append(el.words)
        return PDFContent(d, pdf.fonts, 0, 0, 100, 100,
                          pdf=pdf if c['pdf'] else None)


def plain(v):
    """A comparable and independent copy of a result."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if isinstance(v, (str, int, float, bool, bytes, type(None))):
        return v
    if hasattr(v, 'image_name'):
        return 'image %s' % v.image_name
    return str(v)


def run(o, rect):
    """One run -> what it gave"""
    r = o.run(*rect)
    out = {'finished': o.finished, 'height': o.current_height}
    if isinstance(r, dict):      # a paragraph
        out['parts'] = [dict(plain(r), type='paragraph')]
        out['lines'] = out['fills'] = []
    else:
        out['parts'] = plain(o.parts)
        out['lines'] = plain(o.lines)
        out['fills'] = plain(o.fills)
    return out


def shown(res):
    """Words and images of a result."""
    for p in res['parts']:
        if p['type'] == 'image':
            yield p['pdf_image'].split(' ')[1]
            continue
        cur = b''
        args = []
        for t in tokens(p['text_stream']):
            if isinstance(t, pdfread.Op):
                if str(t) == 'Td':
                    cur += b'\n'
                elif str(t) == 'Tj':
                    cur += bytes(args[-1])
                args = []
            else:
                args.append(t)
        yield from cur.decode('latin-1').split()


def tokens(stream):
    lx = pdfread.Lexer(stream.encode('latin-1'), content=True)
    while not lx.at_end():
        yield lx.obj()


def first_difference(a, b, path=''):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and
                                       isinstance(b, (int, float))):
        return '%s: %.80r / %.80r' % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s only in one' % (path, k)
            d = first_difference(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
    elif isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        if len(a) != len(b):
            return '%s: %d / %d items' % (path, len(a), len(b))
    elif a != b:
        if isinstance(a, float) or isinstance(b, float):
            if abs(a - b) < 1e-6:
                return None
        return '%s: %.300r / %.300r' % (path, a, b)
    return None


def attempt(o, rect):
    """A run's result; an element that does not fit is a result too."""
    try:
        return run(o, rect)
    except Exception as e:
        if 'fit' in str(e):
            return {'error': str(e)}
        with sut('run'):
            raise


def check_kind(kind, c):
    th = Thing(kind, c)
    labels = {kind}
    with sut():
        live = th.make()
    chains = th.chains
    path = []
    saved = []                   # (state, path, finished)
    results = {}
    got = []                     # (path, result)
    done = False
    dead = False
    undone = False
    nontrivial = False

    def step(rect):
        nonlocal done, dead
        path.append(rect)
        r = attempt(live, rect)
        got.append((tuple(map(tuple, path)), r))
        dead = 'error' in r
        done = dead or r['finished']
        return r

    for op in c['ops']:
        if op[0] == 'run':
            if done:
                continue
            rect = c['rects'][op[1] % len(c['rects'])]
            r = step(rect)
            if undone and not dead:
                nontrivial = True
        elif op[0] == 'save':
            if done:
                continue
            with sut('get_state'):
                saved.append((live.get_state(), list(path)))
            labels.add('saved after %d' % min(len(path), 3))
        elif saved:
            state, p = saved[op[1] % len(saved)]
            before = len(path)
            if any(len(got_p) > len(p) and got_p[:len(p)] ==
                   tuple(map(tuple, p)) and r.get('parts')
                   for got_p, r in got):
                undone = True
            if before - len(p) > 1:
                labels.add('several runs undone')
            if done:
                labels.add('restored after the end')
            with sut('set_state'):
                live.set_state(**state)
            path = list(p)
            done = dead = False
    n = 0
    big = {'text': [0, 800, 400, 300], 'table': [
        0, 800, max(r[2] for r in c['rects']), 500],
        'box': [0, 800, 540, 420]}[kind]
    while not done:
        n += 1
        require(n < 60, 'not finished after %d large rectangles', n)
        step(big)
        if undone and not dead:
            nontrivial = True
    # the same rectangles on fresh objects
    for p in sorted({p for p, _ in got}, key=len, reverse=True):
        if p in results:
            continue
        with sut():
            o = th.make()
        for i in range(len(p)):
            results[p[:i + 1]] = attempt(o, list(p[i]))
    for p, r in got:
        d = first_difference(r, results[p])
        if d:
            fail('after restoring, run %d of %s gives another result than a '
                 'fresh %s: %s', len(p), [list(x) for x in p], kind, d)
    if dead:
        return Info(False, labels | {'does not fit'})
    # everything once along the final path
    p = tuple(map(tuple, path))
    seen = [w for i in range(len(p)) for w in shown(results[p[:i + 1]])]
    at = {}
    for i, w in enumerate(seen):
        at.setdefault(w, []).append(i)
    total = 0
    for ch in chains:
        last = -1
        for w in ch:
            total += 1
            require(w in at, '%r is not shown in %s', w, [list(x) for x in p])
            require(len(at[w]) == 1, '%r is shown %d times in %s', w,
                    len(at.get(w, ())), [list(x) for x in p])
            require(at[w][0] > last, '%r is not shown in order', w)
            last = at[w][0]
    require(total == len(seen), 'words are shown that are not part of the '
            'contents: %s', [w for w in seen if not any(
                w in ch for ch in chains)][:5])
    labels.add('runs %d' % min(len(p), 5))
    return Info(nontrivial, labels, '%s, history %s over rectangles %s' % (
        kind, ' '.join('%s%s' % (o[0], o[1] if len(o) > 1 else '')
                       for o in c['ops']), c['rects']))


PARTS = [
    Part('text', text_case, lambda c: check_kind('text', c), 3200),
    Part('table', table_case, lambda c: check_kind('table', c), 1600),
    Part('box', box_case, lambda c: check_kind('box', c), 1600),
    Part('tall box', tall_box_case, lambda c: check_kind('box', c), 600),
    Part('tall table', tall_table_case, lambda c: check_kind('table', c),
         600),
]
