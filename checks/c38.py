"""C38: the columns of a box that ends are balanced."""
from hypothesis import strategies as st

from lib import box
from lib.common import fail, require, sut
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis) with a metamorphic oracle: '
             'a content box that took a height has to take it again in a '
             'rectangle that is just as high and must not fit in a lower one')
LEVEL_NOTE = ('Random search over content boxes, rectangles before the last '
              'and widths. Held on all generated cases, not proved.')
RULE = ('Each case is a content box with several columns, or with nested '
        'boxes with several columns, laid out in up to two rectangles and '
        'then in one that is high enough. Non-trivial: two or more columns '
        'were used and the last rectangle holds more than 20 points.')
X, Y = 30, 900


def strip(b, nested):
    """Without images that change their size."""
    out = dict(b)
    els = []
    for e in b['els']:
        if e['t'] == 'i':
            wh = e['wh'] if e['wh'][1] <= e['wh'][0] else [50, 20]
            e = dict(e, min=None, shrink=None, wh=wh)
        elif e['t'] == 'b':
            e = strip(e, True)
        els.append(e)
    out['els'] = els
    return out


def case():
    def make(cols, b):
        return dict(strip(b, False), cols=cols)
    boxes = st.one_of(
        st.tuples(st.integers(2, 4), box.box_st(2, 2, 9, True, False)),
        st.tuples(st.just(1), box.box_st(3, 2, 9, True, False))).map(
            lambda t: make(*t) if t[0] > 1 else strip(t[1], False))
    return st.fixed_dictionaries({
        'box': boxes, 'w': st.sampled_from([460, 520]),
        'pre': st.lists(st.sampled_from([40, 90, 160, 260]), max_size=2),
        'doc': st.booleans()})


def multi(p):
    """Number of boxes with several columns."""
    return (p['cols'] > 1) + sum(multi(e) for e in p['els'] if e['t'] == 'b')


class Run:
    """The box laid out in rectangles of these heights."""

    def __init__(self, c, heights):
        from pdfme import PDF
        from pdfme.content import PDFContent
        bld = box.Build()
        d = bld.root(c['box'])
        with sut('content'):
            pdf = PDF()
            pdf.add_page()
            x = PDFContent(d, pdf.fonts, X, Y, c['w'], heights[0], pdf=pdf)
            self.n = 0
            for h in heights:
                x.run(X, Y, c['w'], h)
                self.n += 1
                if x.finished:
                    break
        self.finished = x.finished
        self.height = x.current_height
        self.parts = x.parts


def pages_of(c, h):
    """Pages and height taken by the box on pages h high."""
    from pdfme import PDF
    bld = box.Build()
    d = bld.root(c['box'])
    with sut('PDF'):
        pdf = PDF(page_size=(c['w'] + 20, h + 20), margin=10)
        pdf.add_page()
    try:
        pdf.content(d)
    except Exception as e:
        if 'could not be fitted' in str(e):
            return 2, h
        fail('content raised %s: %s', type(e).__name__, str(e)[:200])
    return len(pdf.pages), h + 10 - (pdf.page.height - pdf.page.y)


def check(c):
    heights = c['pre'] + [4000]
    a = Run(c, heights)
    require(a.finished, 'the box does not fit in 4000 points')
    pre, h = c['pre'][:a.n - 1], a.height
    # each of the boxes is balanced to within a point
    tol = 1.2 + 1.05 * multi(c['box'])
    b = Run(c, pre + [h + tol])
    require(b.finished, 'the box took %.2f points but does not fit in a '
            'rectangle %.2f high', h, h + tol)
    require(abs(b.height - h) <= tol, 'the box took %.2f points of a high '
            'rectangle and %.2f of one just as high', h, b.height)
    if h > tol:
        b = Run(c, pre + [h - tol])
        require(not b.finished or b.n <= len(pre), 'the box takes %.2f points, '
                'but all of it fits in a rectangle %.2f high', h, h - tol)
    labels = {'rectangles %d' % a.n}
    if c['doc'] and not pre and h > tol + 1:
        n, took = pages_of(c, 4000)
        require(n == 1 and abs(took - h) <= tol, 'the box takes %.2f points '
                'of a rectangle and %d pages, %.2f points, of a document', h,
                n, took)
        n, took = pages_of(c, max(h - tol, 20))
        require(n > 1 or h - tol < 20, 'the box takes %.2f points of a page, '
                'but all of it fits in a page %.2f high', h, h - tol)
        labels.add('document')
    xs = {round(p['x'] / 20) for p in a.parts if p.get('height')}
    if multi(c['box']) > 1:
        labels.add('nested columns')
    return Info(len(xs) > 1 and h > 20, labels)


PARTS = [Part('boxes', case, check, 1500, 30000)]
