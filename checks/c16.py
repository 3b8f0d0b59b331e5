"""C16: table borders and fills are drawn exactly where asked."""
from hypothesis import strategies as st

from lib import tab
from lib.common import require
from lib.harness import Info, Part
from checks.c14 import labels

TECHNIQUE = ('property-based testing (Hypothesis): lines and rectangles drawn '
             'for generated tables against the edges and areas of a model of '
             'the table')
LEVEL_NOTE = ('Random search over border and fill definitions, merged cells '
              'and page breaks. Edges where a page break cuts a row may be '
              'closed with the border above that row. Held on all generated '
              'cases, not proved.')
RULE = ('Cases are generated tables with default, overridden, missing, '
        'dashed and dotted borders and fills. Every edge and every cell area '
        'is compared with the lines and rectangles drawn. Non-trivial: there '
        'are border or fill definitions, or merged cells.')
EPS = 0.05


def rgb(c):
    return tuple(c) * 3 if len(c) == 1 else tuple(c)


def same_color(a, b):
    return all(abs(x - y) < 0.002 for x, y in zip(rgb(a), rgb(b)))


def kind(ln):
    d = list(ln.dash[0]) if ln.dash else []
    if not d:
        return 'solid'
    if d[0] == 0 and ln.cap == 1:
        return 'dotted'
    return 'dashed'


def matches(ln, b):
    return (abs(ln.width - b['width']) < 0.002 and
            same_color(ln.color, b['color']) and kind(ln) == b['style'])


def covered(spans, lo, hi):
    """Whether the spans cover lo..hi"""
    at = lo
    for a, b in sorted(spans):
        if a > at + EPS:
            return False
        at = max(at, b)
    return at >= hi - EPS


def edges(t, segs, last_page):
    """Per page: edges (is_vert, position, lo, hi, border, needed, what).
    border None: no line may be here."""
    out = {}

    def merged(a, b):
        x, z = t.at.get(a), t.at.get(b)
        return x is not None and x is z
    by_page = {}
    for s in segs:
        by_page.setdefault(s.page, []).append(s)
    for page, ss in by_page.items():
        es = out.setdefault(page, [])
        for n, s in enumerate(ss):
            i = s.row
            for k in range(t.C + 1):
                b = t.v[i, k]
                if 0 < k < t.C and merged((i, k - 1), (i, k)):
                    b = None
                es.append((True, t.x[k], s.bottom, s.top, b, True,
                           'left of %d,%d' % (i, k), s))
            for j in range(t.C):
                b = t.h[i, j]
                need = True
                if i > 0 and merged((i - 1, j), (i, j)) or (
                        not s.starts and not s.ends):
                    if s.starts and n > 0:
                        b = None        # inside of the merged cell
                    else:
                        need = False    # cut by the page
                if not s.starts and merged((i, j), (i - 1, j)):
                    need = False
                es.append((False, s.top, t.x[j], t.x[j + 1], b, need,
                           'above %d,%d' % (i, j), s))
        s = ss[-1]
        for j in range(t.C):
            if s.ends and s.row == t.R - 1:
                es.append((False, s.bottom, t.x[j], t.x[j + 1],
                           t.h[t.R, j], True, 'below the table', s))
            elif s.ends:
                # the next row was not started on this page
                es.append((False, s.bottom, t.x[j], t.x[j + 1],
                           t.h[s.row + 1, j], False, 'page break', s))
            else:
                es.append((False, s.bottom, t.x[j], t.x[j + 1],
                           t.h[s.row, j], 'low', 'cut row %d' % s.row, s))
    return out


def check(c):
    t, doc, pvs, top, end = tab.lay_out(c)
    out = labels(t, pvs)
    try:
        segs, parts, page, y = tab.model(t, pvs, top)
    except tab.Unsure:
        return Info(False, {'row of the height of an empty cell'})
    check_lines(t, pvs, segs, page, out)
    check_fills(t, pvs, segs, parts, out)
    return Info(bool(c['borders'] or c['fills'] or 'rows merged' in out or
                     'columns merged' in out), out)


def check_lines(t, pvs, segs, last_page, out):
    mx = max([b['width'] for b in t.h.values()] +
             [b['width'] for b in t.v.values()])
    half = mx / 2
    es = edges(t, segs, last_page)
    for pv in pvs:
        mine = es.get(pv.index, [])
        lines = []
        for ln in pv.lines:
            x1, x2 = sorted((ln.x1, ln.x2))
            y1, y2 = sorted((ln.y1, ln.y2))
            require(x2 - x1 < 1e-6 or y2 - y1 < 1e-6, 'the line %r is '
                    'neither horizontal nor vertical', ln)
            vert = x2 - x1 < 1e-6 and y2 - y1 > 1e-6
            if x2 - x1 < 1e-6 and not vert:
                continue
            lines.append((vert, x1 if vert else y1,
                          (y1, y2) if vert else (x1, x2), ln))
            require(ln.width > 0, 'a line of no width is drawn')
        low = None
        for e in mine:
            if e[5] == 'low':
                low, lowest = e[1], e[7].low
        if low is not None:
            # a cut row ends at its lowest content or is a thin strip
            ys = [p for v, p, _, _ in lines if not v and
                  lowest - EPS < p < low + EPS]
            ys = ys or [span[0] for v, _, span, _ in lines if v and
                        lowest - EPS < span[0] < low + EPS]
            cut = min(ys) if ys else low
        else:
            cut = None
        used = {id(l[3]): [] for l in lines}
        for vert, pos, lo, hi, b, need, what, s in mine:
            if need == 'low':
                pos = cut
            if vert and s.cut:
                if hi - cut < 2 * half + EPS:
                    # a thin strip: only the styles are compared
                    for l in lines:
                        if l[0] and abs(l[1] - pos) < EPS and \
                                b is not None and matches(l[3], b):
                            used[id(l[3])].append((cut - half - EPS,
                                                   hi + half + EPS))
                    continue
                lo = cut
            at = [l for l in lines if l[0] == vert and
                  abs(l[1] - pos) < EPS and
                  l[2][0] < hi - half - EPS and l[2][1] > lo + half + EPS]
            if b is not None and b['width'] > 0:
                good = [l for l in at if matches(l[3], b)]
                for l in good:
                    used[id(l[3])].append((lo - half - EPS, hi + half + EPS))
                if need and hi - lo > 2 * half + EPS:
                    # a cut row's lower edge may be hidden: its top line is
                    # the one that closes it
                    require(covered([l[2] for l in good], lo, hi), 'page %d: '
                            'no line %s covers %s: %.2f from %.2f to %.2f; '
                            'there are %r', pv.index, b, what, pos, lo, hi,
                            [l[3] for l in at])
                at = [l for l in at if l not in good]
            else:
                out.add('edge without border')
            # lines where they do not belong; edges of a strip may coincide
            for l in at:
                if any(e is not None and e[0] == vert and e[4] is not None
                       and abs((cut if e[5] == 'low' else e[1]) - pos) < EPS
                       and e[2] < hi - EPS and e[3] > lo + EPS
                       and e[6] != what and matches(l[3], e[4])
                       for e in mine):
                    continue
                require(False, 'page %d: the line %r (%s) is drawn %s, where '
                        'the border is %s', pv.index, l[3], kind(l[3]), what,
                        b)
        # every line lies along edges
        for vert, pos, (lo, hi), ln in lines:
            ok = covered(used[id(ln)], lo, hi)
            require(ok, 'page %d: the line %r (%s) does not follow the edges '
                    'of the table: %r', pv.index, ln, kind(ln),
                    used[id(ln)])


def check_fills(t, pvs, segs, parts, out):
    for pv in pvs:
        want = []
        for p in parts:
            if p.page == pv.index and p.cell.fill is not None:
                x = p.cell
                want.append([t.x[x.c], t.x[x.c + x.cs], p.bottom, p.top,
                             x.fill, p])
        drawn = [f for f in pv.fills if f.h > EPS and f.w > EPS]
        left = list(drawn)
        for x1, x2, y1, y2, color, p in want:
            hit = None
            for f in left:
                slack = y1 - p.low if p.cut else 0
                if abs(f.x - x1) < EPS and abs(f.x + f.w - x2) < EPS and \
                        abs(f.y + f.h - y2) < EPS and \
                        y1 - slack - EPS < f.y < y1 + EPS and \
                        same_color(f.color, color):
                    hit = f
                    break
            if hit is None and p.cut and (p.top - p.low < 8 or
                                          y2 - y1 < 4 + EPS):
                continue        # less than a strip: the row is not drawn
            require(hit is not None, 'page %d: %s is not filled: %s from '
                    '%.2f,%.2f to %.2f,%.2f; there are %r', pv.index, p.cell,
                    color, x1, y1, x2, y2, left)
            left.remove(hit)
            out.add('fill')
            for a in p.atoms:
                require(a.seq > hit.seq, 'the fill of %s hides its content',
                        p.cell)
        require(not left, 'page %d: %r fills no cell asked for', pv.index,
                left)


def case():
    return st.one_of(
        tab.case_st(kinds=tab.FLAT, borders=4, fills=3),
        tab.case_st(kinds=tab.FLAT, borders=4, fills=3, long=90),
        tab.case_st(kinds=('text',), borders=6, fills=4, long=4),
        tab.case_st(kinds=('text', 'text', 'plain'), long=6, borders=5,
                    fills=3, merged=True))


PARTS = [Part('tables', case, check, 4800, 60000)]
