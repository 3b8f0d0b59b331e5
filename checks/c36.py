"""C36: building ends: everything is shown, or an error is raised."""
import io

from hypothesis import strategies as st

from lib import box
from lib.common import pages, require
from lib.harness import Info, Part, quiet, sut

TECHNIQUE = ('property-based testing (Hypothesis): documents with elements '
             'that do not fit anywhere, every word and image shown counted')
LEVEL_NOTE = ('Random search over sizes around those of the pages, in all '
              'kinds of elements; "does not end" is decided by a limit of '
              'pages (300) and of CPU time (60 s), many times what the cases '
              'need. Held on all generated cases, not proved.')
EPS = 0.5
RULE = ('Cases are documents with unique words and images, some of whose '
        'elements are higher than their pages or columns. Either building '
        'raises an error that says that something does not fit, and '
        'something is large; or it ends with every word and image shown once '
        'and without a page that shows nothing. Non-trivial: something is '
        'large.')


def one(*v):
    return st.sampled_from(v)


def par_st(large):
    return st.fixed_dictionaries({
        't': st.just('p'), 'n': st.integers(1, 12),
        's': one(8, 11, 20, 45, 70, 100, 300) if large else one(8, 11),
        'list': one(None, None, None, 8, 60, 200) if large else st.none(),
        'r': one(0, 0, 0, 0.5, -0.5, 4, -9, 30) if large else st.just(0),
        'lh': one(1.1, 1.1, 1, 12) if large else st.just(1.1),
        'indent': one(0, 0, 30)})


def image_st(large):
    return st.fixed_dictionaries({
        't': st.just('i'),
        'wh': one([40, 4], [40, 20], [20, 20], [10, 30], [3, 40]) if large
        else one([40, 4], [40, 8]),
        'min': one(None, None, 10, 60, 150, 400) if large else st.none(),
        'shrink': st.booleans(), 'place': one(None, 'normal')})


@st.composite
def table_st(draw, large, depth):
    n = draw(st.integers(1, 2))
    cell = st.one_of(par_st(False), par_st(large), image_st(large),
                     *([box_st(large, 0), table_st(large, 0)] if depth
                       else []))
    return {'t': 't', 'rows': draw(st.lists(st.lists(
        cell, min_size=n, max_size=n), min_size=1, max_size=4)),
        'margin': draw(one(None, None, 2, 40, 90) if large else st.none()),
        'border': draw(one(None, None, 2, 30) if large else st.none()),
        'rs': draw(one(0, 0, 2, 3))}


@st.composite
def box_st(draw, large, depth):
    return {'t': 'b', 'cols': draw(one(1, 1, 2, 3)),
            'margin': draw(one(None, None, 30, 150) if large else st.none()),
            'els': draw(st.lists(element_st(large, depth - 1), min_size=1,
                                 max_size=4))}


def element_st(large, depth=2):
    opts = [par_st(False), par_st(large), image_st(large)]
    if depth >= 0:
        opts += [table_st(large, depth), st.fixed_dictionaries({
            't': st.just('g'), 'els': st.lists(st.one_of(
                par_st(large), image_st(large), table_st(large, 0)),
                min_size=1, max_size=3)})]
    if depth > 0:
        opts.append(box_st(large, depth))
    return st.one_of(*opts)


def foot_st(large):
    return st.fixed_dictionaries({
        't': st.just('f'), 'n': st.integers(1, 12),
        'notes': st.lists(st.tuples(st.integers(1, 14), one(
            None, None, 8, 40, 80, 300) if large else one(None, 8)).map(list),
            min_size=1, max_size=4)})


def case_st():
    return st.booleans().flatmap(lambda large: st.fixed_dictionaries({
        'large': st.just(large),
        'area': st.tuples(one(150, 220), one(90, 140, 200)).map(list) if
        large else st.just([1200, 4000]),
        'how': one('sections', 'sections', 'calls'),
        'cols': one(1, 1, 2),
        'sections': st.lists(st.lists(st.integers(0, 4).flatmap(
            lambda k: foot_st(large) if k == 4 else
            element_st(large, 2 if k else 1)), min_size=1, max_size=5),
            min_size=1, max_size=2)}))


class Builder:
    def __init__(self):
        self.words = []
        self.images = 0
        self.narrow = False

    def text(self, n):
        ws = [box.code(len(self.words) + i) for i in range(n)]
        self.words += ws
        return ' '.join(ws)

    def make(self, p, width):
        t = p['t']
        if t == 'p':
            d = {'.': [self.text(p['n'])], 'style': {
                's': p['s'], 'line_height': p['lh'], 'indent': p['indent']}}
            if p['r']:
                d['.'] += [' ', {'.r:%s' % p['r']: self.text(1)}]
            if p['list']:
                d['style'].update(list_text='-', list_style={'s': p['list']})
            return d
        if t == 'f':
            parts = [self.text(p['n'])]
            for n, s in p['notes']:
                f = {'.': self.text(n)}
                if s:
                    f['style'] = {'s': s}
                parts += [{'footnote': f}, ' ']
            return {'.': parts}
        if t == 'i':
            # images as narrow as this are not interesting
            self.narrow |= width < 8
            self.images += 1
            d = {'image': io.BytesIO(box.image_bytes(self.images, p['wh'])),
                 'extension': 'jpg', 'image_name': 'i%d' % self.images,
                 'style': {}}
            if p['min']:
                d['style'].update(min_height=p['min'], shrink=p['shrink'])
            if p['place']:
                d['style']['image_place'] = p['place']
            return d
        if t == 't':
            n = len(p['rows'][0])
            inner = width / n - 2 * (5 if p['margin'] is None else
                                     p['margin']) - 2 * (p['border'] or 0.5)
            span = min(p['rs'], len(p['rows'])) if n > 1 else 0
            rows = [[None if 0 < i < span and not j else
                     self.make(c, inner)
                     for j, c in enumerate(r)]
                    for i, r in enumerate(p['rows'])]
            if span > 1:
                rows[0][0]['rowspan'] = span
            d = {'table': rows}
            style = {}
            if p['margin'] is not None:
                # of all its cells
                style['cell_margin'] = p['margin']
            if p['border'] is not None:
                style['border_width'] = p['border']
            return dict(d, style=style) if style else d
        if t == 'g':
            return {'group': [self.make(e, width) for e in p['els']]}
        n = p['cols']
        inner = (width - (n - 1) * 10) / n
        els = [self.make(e, inner) for e in p['els']]
        d = {'content': els, 'cols': {'count': n, 'gap': 10}}
        if p['margin']:
            # its elements have it too
            d['style'] = {'margin_top': p['margin']}
        return d


def shown_words(pvs):
    out = []
    for i, pv in enumerate(pvs):
        text = ''.join(g.ch for g in pv.glyphs)
        text = ''.join(ch for ch in text if ch.isalpha() or ch == '.')
        require(not text or text[-1] == '.', 'page %d ends amid a word: %r',
                i, text[-20:])
        out += [w + '.' for w in text.split('.')[:-1]]
    return out


def produce(c, b):
    from pdfme import PDF, build_pdf
    size = [c['area'][0] + 40, c['area'][1] + 50]
    page = {'page_size': size, 'margin': [20, 20, 30, 20]}
    n = c['cols']
    width = (c['area'][0] - (n - 1) * 10) / n
    sections = [[b.make(e, width) for e in s] for s in c['sections']]
    if b.narrow:
        return None
    if c['how'] == 'sections':
        doc = {'style': page, 'sections': [
            {'content': s, 'cols': {'count': c['cols'], 'gap': 10}}
            for s in sections]}
        out = io.BytesIO()
        build_pdf(doc, out)
        return out.getvalue()
    pdf = PDF(page_size=size, margin=[20, 20, 30, 20])
    pdf.add_page()
    for s in sections:
        for e in s:
            if 'table' in e:
                pdf.table(e['table'], **{k: v for k, v in e.items()
                                         if k == 'style'})
            elif '.' in e and not any('footnote' in str(p) for p in e['.']):
                pdf.text(e)
            else:
                pdf.content({'content': [e],
                             'cols': {'count': c['cols'], 'gap': 10}})
    out = io.BytesIO()
    pdf.output(out)
    return out.getvalue()


FITS = ('could not be fitted', 'very large')


def check(c):
    if c['how'] == 'calls':
        c = dict(c, sections=[[e for e in s if e['t'] != 'f']
                              for s in c['sections']])
    b = Builder()
    error = None
    with quiet(), sut('building'):
        try:
            data = produce(c, b)
        except Exception as e:
            if not any(f in str(e) for f in FITS):
                raise
            error = str(e)
    if error is not None:
        require(c['large'], 'nothing is larger than a page, but building '
                'raised %s', error[:200])
        return Info(True, ['error'])
    if data is None:
        return Info(False, ['images too narrow'])
    doc, pvs = pages(data)
    words = shown_words(pvs)
    lost = sorted(set(b.words) - set(words))
    require(not lost, 'the words %s are not shown', lost[:5])
    extra = [w for w in set(words) if words.count(w) > 1 or w not in b.words]
    require(not extra, 'the words %s are shown more than once, or are not '
            'of the document', sorted(extra)[:5])
    n = sum(len(pv.images) for pv in pvs)
    require(n == b.images, '%d images are shown of %d', n, b.images)
    for i, pv in enumerate(pvs):
        require(not b.words or pv.glyphs or pv.images or pv.fills or pv.lines,
                'page %d of %d shows nothing', i, len(pvs))
        for what, low, high in [
                ('text', g.base, g.base) for g in pv.glyphs] + [
                ('an image', m.y, m.y + m.h) for m in pv.images]:
            require(low > 30 - EPS and high < pv.height - 20 + EPS,
                    'page %d has %s between y=%.2f and %.2f, but its margins '
                    'are at 30 and %.2f', i, what, low, high, pv.height - 20)
    return Info(c['large'], ['all shown', '%d pages' % min(len(pvs), 9)])


PARTS = [Part('documents', case_st, check, 2400)]
