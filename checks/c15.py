"""C15: table geometry: column widths, cell margins and row heights."""
from hypothesis import strategies as st

from lib import tab
from lib.common import require
from lib.harness import Info, Part
from checks.c14 import labels

TECHNIQUE = ('property-based testing (Hypothesis): positions of the contents '
             'of generated tables against a model of columns, margins and '
             'row heights')
LEVEL_NOTE = ('Random search; exact for images, for the left, right or '
              'middle of text lines and for the ends of rows, within the '
              'first line of a text for their tops. Held on all generated '
              'cases, not proved.')
RULE = ('Cases are generated tables. A model walks through the rows: each '
        'begins where the one before ended and ends where its lowest content '
        'and margins end. Non-trivial: at least two rows and cells with '
        'different margins, borders or heights.')
EPS = 0.05


def check(c):
    t, doc, pvs, top, end = tab.lay_out(c)
    out = labels(t, pvs)
    try:
        segs, parts, page, y = tab.model(t, pvs, top)
    except tab.Unsure:
        return Info(False, {'row of the height of an empty cell'})
    require(end[0] == page and abs(end[1] - y) < EPS, 'the table ends at %.2f '
            'of page %d, the document goes on at %.2f of page %d', y, page,
            end[1], end[0])
    for s in segs:
        lo = c['margin'][2]
        require(s.bottom >= lo - EPS, '%r goes below the bottom margin %s',
                s, lo)
    for p in parts:
        if not p.atoms:
            continue
        x = p.cell
        pad = tab.pads(t, p)
        x1 = t.x[x.c] + pad['left']
        x2 = t.x[x.c + x.cs] - pad['right']
        ytop = p.top - pad['top']
        if x.k in ('text', 'plain'):
            check_text(x, p, x1, x2, ytop)
        for a in p.atoms:
            if tab.is_image(a):
                e = EPS
                require(abs(a.x1 - x1) < e and abs(a.x2 - x2) < e, 'the image '
                        'of %s is at %.2f-%.2f, expected %.2f-%.2f', x, a.x1,
                        a.x2, x1, x2)
                wh = x.plan['wh']
                h = (a.x2 - a.x1) * wh[1] / wh[0]
                require(abs(a.y2 - a.y1 - h) < e, 'the image of %s is %.2f '
                        'high, expected %.2f', x, a.y2 - a.y1, h)
                if a is p.atoms[0]:
                    require(abs(a.y2 - ytop) < e, 'the top of the image of '
                            '%s is at %.2f, expected %.2f', x, a.y2, ytop)
        a = p.atoms[0]
        require(a.y2 <= ytop + EPS, '%r of %s is above the top of its cell: '
                '%.2f, %.2f', a.word, x, a.y2, ytop)
        if x.k == 'content' and not tab.is_image(a):
            check_top(x, a, ytop, x.plan['s'])
        if x.k in ('content', 'group'):
            for a in p.atoms:
                if not tab.is_image(a):
                    require(a.x1 >= x1 - EPS and a.x2 <= x2 + EPS, '%r of %s '
                            'is outside of the cell margins', a.word, x)
        # no content below the end of its rows
        if not p.cut:
            require(tab.low(p) - pad['bottom'] >= p.bottom - EPS, '%s on page '
                    '%d needs space down to %.2f, its rows end at %.2f', x,
                    p.page, tab.low(p) - pad['bottom'], p.bottom)
    varied = len(c['cells']) > 1 and t.R > 1
    if any(x.plan['style'] for x in t.cells):
        out.add('cells with own margins')
    if c['borders']:
        out.add('borders')
    return Info(varied, out)


def check_top(x, a, ytop, size):
    # the first line is as high as its text; the library adds the line height
    # option to it, as points
    lo, hi = size, size + 1.3
    d = ytop - a.base
    require(lo - EPS <= d <= hi + EPS, 'the text of %s starts %.2f below the '
            'top margin of the cell, expected %.2f to %.2f', x, d, lo, hi)


def check_text(x, p, x1, x2, ytop):
    lines = []
    for a in p.atoms:
        if lines and abs(lines[-1][-1].base - a.base) < 0.02:
            lines[-1].append(a)
        else:
            lines.append([a])
    check_top(x, lines[0][0], ytop, x.size)
    for i, ln in enumerate(lines):
        l, r = ln[0].x1, ln[-1].x2
        require(l >= x1 - EPS and r <= x2 + EPS, 'line %r of %s is outside of '
                'its margins: %.2f-%.2f, expected within %.2f-%.2f', ln, x, l,
                r, x1, x2)
        last = ln[-1].word == x.order[-1]
        if x.align == 'l' or x.align == 'j':
            require(abs(l - x1) < EPS, 'line %r of %s starts at %.2f, '
                    'expected %.2f', ln, x, l, x1)
        if x.align == 'r' or x.align == 'j' and not last and len(ln) > 1:
            require(abs(r - x2) < EPS + 0.01 * len(ln), 'line %r of %s ends '
                    'at %.2f, expected %.2f', ln, x, r, x2)
        if x.align == 'c':
            require(abs((l + r) - (x1 + x2)) < 2 * EPS, 'line %r of %s is not '
                    'centred', ln, x)


def case():
    return st.one_of(tab.case_st(), tab.case_st(), tab.case_st(
        kinds=('text', 'img', 'img', 'content', 'plain'), long=15, borders=5),
        tab.case_st(kinds=('text', 'text', 'plain', 'img'), long=6,
                    borders=5, merged=True))


PARTS = [Part('tables', case, check, 4800, 60000)]
