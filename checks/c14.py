"""C14: table text is conserved and stays in its own cell, in order."""
from hypothesis import strategies as st

from lib import tab
from lib.common import require
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis): every word and image of '
             'generated tables located on the pages and matched with its '
             'cell')
LEVEL_NOTE = ('Random search over tables of up to 6 x 4 cells with merged '
              'cells, images, nested boxes and tables. Held on all generated '
              'cases, not proved.')
RULE = ('Each case is a table of unique words and images, added to a '
        'document directly or in a content box, starting anywhere on a page. '
        'Non-trivial: some cell or table continues on another page, or some '
        'cells are merged.')
EPS = 0.03


def labels(t, pvs):
    out = {'pages %d' % min(len(pvs), 5), t.c['how']}
    for x in t.cells:
        out.add(x.k)
        if x.rs > 1:
            out.add('rows merged')
        if x.cs > 1:
            out.add('columns merged')
        ps = {a.page for a in x.atoms}
        if len(ps) > 1:
            out.add('cell over a page break')
            if x.rs > 1:
                out.add('merged cell over a page break')
    return out


def check(c):
    t, doc, pvs, top, end = tab.lay_out(c)
    out = labels(t, pvs)
    ph = c['page'][1]
    hi, lo = ph - c['margin'][0], c['margin'][2]
    for x in t.cells:
        x1, x2 = t.x[x.c], t.x[x.c + x.cs]
        prev = None
        for a in x.atoms:
            require(a.x1 >= x1 - EPS and a.x2 <= x2 + EPS, '%r of %s is at '
                    '%.2f-%.2f, its columns are %.2f-%.2f', a.word, x, a.x1,
                    a.x2, x1, x2)
            require(a.y1 >= lo - EPS and a.y2 <= hi + EPS, '%r of %s is '
                    'outside of the page margins', a.word, x)
            if prev is not None:
                after = (a.page > prev.page or a.page == prev.page and (
                    a.y2 <= prev.y1 + EPS or
                    abs(a.base - prev.base) < EPS and
                    not tab.is_image(a) and a.x1 >= prev.x2 - EPS))
                if x.k == 'cols' and a.page == prev.page:
                    # the next column of the box in the cell
                    mid = (x1 + x.marg['left'] + x2 - x.marg['right']) / 2
                    after = after or a.x1 > mid > prev.x1
                require(after, '%r of %s is not shown after %r', a.word, x,
                        prev.word)
            prev = a
    # rows follow each other
    ext = []
    for x in t.cells:
        if x.atoms:
            p = max(a.page for a in x.atoms)
            q = min(a.page for a in x.atoms)
            ext.append((x, (p, -min(a.y1 for a in x.atoms if a.page == p)),
                        (q, -max(a.y2 for a in x.atoms if a.page == q))))
    for x, bottom, _ in ext:
        for z, _, ztop in ext:
            if z.r > x.last:
                require(ztop >= (bottom[0], bottom[1] - EPS), '%s is not '
                        'below %s', z, x)
    # what does not fit continues at the top of the next page
    for x in t.cells:
        for a, b in zip(x.atoms, x.atoms[1:]):
            if a.page == b.page:
                continue
            require(b.page == a.page + 1, '%s skips from page %d to %d', x,
                    a.page, b.page)
            if x.k in ('text', 'plain'):
                m = x.marg['bottom']
                bw = t.h[x.r + x.rs, x.c]['width'] / 2
                left = a.base - lo - m - bw
                need = x.size * 1.2
                require(left < need + EPS, '%s continues on page %d although '
                        '%.2f points are left for a line of %.2f', x, b.page,
                        left, need)
                m = x.marg['top'] + max(
                    t.h[i, x.c]['width'] for i in range(x.r, x.r + x.rs)) / 2
                require(b.y2 >= hi - m - 1.2 - 1 - EPS - x.size * .2,
                        '%s continues %.2f points below the top of page %d',
                        x, hi - b.y2, b.page)
    many = len({a.page for x in t.cells for a in x.atoms}) > 1
    return Info(many or 'rows merged' in out or 'columns merged' in out, out)


def case():
    return st.one_of(tab.case_st(), tab.case_st(), tab.case_st(
        kinds=('text', 'text', 'plain', 'img'), long=6, borders=5,
        merged=True))


PARTS = [Part('tables', case, check, 4800, 60000),
         Part('tall', tab.tall_st, check, 1200, 16000)]
