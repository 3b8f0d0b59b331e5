"""C18: elements of content boxes keep to their column, do not overlap and
are as far apart as their margins say."""
from lib import box
from lib.common import require
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis): generated nested content '
             'boxes, their columns and margins recomputed from the '
             'description and compared with the positions drawn')
LEVEL_NOTE = ('Random search over nested boxes of 1 to 3 columns with '
              'margins set at every level; held on all generated cases, not '
              'proved. The first line of a paragraph is allowed the extra '
              'points of line_height that the library puts above it.')
RULE = ('Cases are documents with one or two content boxes nested up to '
        'three deep. Non-trivial: at least three elements of one column are '
        'measured against the margins between them.')
EPS = 0.03


class Frag:
    """What an element draws in one column of one page: the exact top is in
    [top, top + slack]; the bottom is exact unless loose."""

    def __init__(self, el, top, bottom, slack=0.0, loose=False, mt=0.0,
                 mb=0.0):
        self.el = el
        self.top, self.bottom = top, bottom
        self.slack, self.loose = slack, loose
        self.mt, self.mb = mt, mb


class Check:
    def __init__(self, c):
        self.c = c
        self.bld, self.doc, self.pvs, self.tops, self.end = box.build(c)
        m = c['margin']
        self.page_top = c['page'][1] - m[0]
        self.page_bottom = m[2]
        self.measured = 0
        self.most = 0
        self.labels = set()

    def run(self):
        ends = self.tops[1:] + [self.end]
        for k, r in enumerate(self.bld.roots):
            last = None
            pages = sorted({a.page for x in r.leaves() for a in x.atoms})
            for p in pages:
                top = self.tops[k][1] if p == self.tops[k][0] else \
                    self.page_top
                last = self.section(r, (p,))
                require(last.top - EPS <= top <= last.top + last.slack + EPS,
                        'the content box starts at %.3f to %.3f on page %d, '
                        'its place is %.3f', last.top, last.top + last.slack,
                        p, top)
            page, y = ends[k]
            require(page == pages[-1], 'after the content box the cursor is '
                    'on page %d, its last element on page %d', page,
                    pages[-1])
            self.near(y, last, 0, 'the cursor after the content box')
        for pv in self.pvs:
            for a in box.words(pv) + pv.images:
                y1 = a.y1 if hasattr(a, 'y1') else a.y
                y2 = a.y2 if hasattr(a, 'y2') else a.y + a.h
                require(y2 <= self.page_top + EPS and
                        y1 >= self.page_bottom - EPS,
                        '%s of page %d is outside of the vertical space '
                        '%.2f to %.2f', a, pv.index, self.page_bottom,
                        self.page_top)

    def near(self, top, prev, gap, what):
        """top is gap under the fragment prev"""
        want = prev.bottom - gap
        require(top <= want + EPS, '%s is at %.3f, only %.3f below the %s '
                'above it (expected %.3f)', what, top, prev.bottom - top,
                box.NAMES[prev.el.t], gap)
        if not prev.loose:
            require(top >= want - EPS, '%s is at %.3f, %.3f below the %s '
                    'above it (expected %.3f)', what, top,
                    prev.bottom - top, box.NAMES[prev.el.t], gap)

    def section(self, b, key):
        """Check what box b draws in section key = (page, columns of the
        boxes around it); returns it as one fragment."""
        n = b.plan['cols']
        firsts, lasts = [], []
        for k in range(n):
            frags = []
            for e in b.kids:
                frags += self.fragments(b, e, key + (k,))
            if not frags:
                continue
            frags.sort(key=lambda f: -f.top)
            for prev, f in zip(frags, frags[1:]):
                want = prev.bottom - prev.mb - f.mt
                lo = -1e9 if prev.loose else want - f.slack - EPS
                require(lo <= f.top <= want + EPS,
                        'the %s %s is %.3f below the %s above it, their '
                        'margins are %s and %s', box.NAMES[f.el.t],
                        f.el.plan, prev.bottom - f.top,
                        box.NAMES[prev.el.t], prev.mb, f.mt)
                self.measured += not prev.loose
            self.most = max(self.most, len(frags))
            firsts.append(frags[0])
            lasts.append(frags[-1])
        if not firsts:
            return None
        # all columns start at the same height
        top = max(f.top for f in firsts)
        high = min(f.top + f.slack for f in firsts)
        require(high >= top - EPS, 'the columns of a box start at different '
                'heights on page %d: %.3f and %.3f', key[0], top, high)
        low = min(lasts, key=lambda f: f.bottom)
        if key[1:]:
            self.labels.add('nested box measured')
        return Frag(b, top, low.bottom, max(0, high - top),
                    low.loose or n > 1)

    def fragments(self, b, e, key):
        """What element e draws in a column"""
        if e.t == 'g':
            out = []
            for i, k in enumerate(e.kids):
                for f in self.fragments(b, k, key):
                    if i == 0:
                        f.mt = e.style.get('margin_top', 0)
                    out.append(f)
            return out
        if e.t == 'b':
            fr = self.section(e, key)
            if fr is None:
                return []
        else:
            at = self.atoms(e, key)
            if not at:
                return []
            fr = self.leaf(e, at, key)
        fr.mt = e.style.get('margin_top', 0)
        fr.mb = e.style.get('margin_bottom', 5)
        return [fr]

    def atoms(self, x, key):
        out = []
        n = len(key) - 1
        for a in x.atoms:
            if a.page == key[0] and box.column(self.c, x, a.x1)[0][:n] == \
                    key[1:]:
                out.append(a)
        return out

    def leaf(self, e, at, key):
        c = self.c
        x0 = box.column(c, e, at[0].x1)[1]
        cw = box.dims(c, box.outer(e))[0]
        left = x0 + e.style.get('margin_left', 0)
        right = x0 + cw - e.style.get('margin_right', 0)
        for a in at:
            require(left - EPS <= a.x1 and a.x2 <= right + EPS,
                    '%s of a %s is outside of its column, %.2f to %.2f',
                    a, box.NAMES[e.t], left, right)
        if e.t == 'p':
            return self.paragraph(e, at, left, right)
        if e.t == 'i':
            return self.image(e, at[0], left, right)
        return self.table(e, at, key, left, right)

    def paragraph(self, e, at, left, right):
        p = e.plan
        plain = p['form'] == 'plain'
        lines = {}
        for a in at:
            lines.setdefault(round(a.base, 2), []).append(a)
        ys = sorted(lines, reverse=True)
        size = 11 if plain else p['s']
        lh = 1.1 if plain else p['lh']
        align = 'l' if plain else p['align']
        lw = getattr(e, 'list_word', None)
        for y in ys:
            ws = lines[y]
            x1, x2 = min(a.x1 for a in ws), max(a.x2 for a in ws)
            if align in 'lj' and lw is None:
                ind = p['indent'] if not plain and any(
                    a.word == e.words[0] for a in ws) else 0
                require(abs(x1 - left - ind) < EPS, 'the line %s starts at '
                        '%.2f, its column at %.2f with indent %s', ws, x1,
                        left, ind)
            if align == 'r':
                require(abs(x2 - right) < EPS, 'the line %s ends at %.2f, '
                        'its column at %.2f', ws, x2, right)
        slack = 2 * lh
        return Frag(e, ys[0] + size, ys[-1], slack)

    def image(self, e, a, left, right):
        w, h = e.plan['wh']
        full = right - left
        natural = full * h / w
        iw, ih = a.x2 - a.x1, a.y2 - a.y1
        require(abs(iw * h / w - ih) < 0.05, 'image %s is distorted: %.2f x '
                '%.2f', a, iw, ih)
        low = e.style.get('min_height')
        if abs(iw - full) > EPS:
            self.labels.add('image shrunk')
            require(iw < full, 'image %s is wider than its column', a)
            require(low is not None and ih >= min(low, natural) - EPS,
                    'image %s is %.2f high, its least height is %s', a, ih,
                    low)
            if not e.group():
                self.space(e, a, low)
            require(abs((a.x1 - left) - (right - a.x2)) < EPS,
                    'the image %s is not centred in its column %.2f-%.2f',
                    a, left, right)
        else:
            require(abs(a.x1 - left) < EPS, 'image %s is not at the left of '
                    'its column, %.2f', a, left)
        return Frag(e, a.y2, a.y1)

    def space(self, e, a, low):
        """An image that is shrunk takes its least height, if it is asked to
        shrink, or the space that is left"""
        if e.style.get('shrink'):
            require(abs(a.y2 - a.y1 - low) < EPS, 'image %s to be shrunk is '
                    '%.2f high, its least height is %s', a, a.y2 - a.y1, low)
        elif all(b.plan['cols'] == 1 for b in [box.outer(e), *e.path()]):
            require(abs(a.y1 - self.page_bottom) < EPS, 'image %s is shrunk '
                    'but ends above the end of its space, %.2f', a,
                    self.page_bottom)

    def table(self, e, at, key, left, right):
        pv = self.pvs[key[0]]
        top, low = max(a.y2 for a in at), min(a.y1 for a in at)
        hs = [ln.y1 for ln in pv.lines if abs(ln.y1 - ln.y2) < 0.001 and
              abs(ln.x1 - left) < 0.4 and abs(ln.x2 - right) < 0.4]
        above = [y for y in hs if y >= top]
        below = [y for y in hs if y < low]
        require(above and below, 'the table words %s are not between two '
                'lines as wide as the column %.2f-%.2f', at, left, right)
        # cell margin 5, half a border and up to the points above a line
        require(min(above) - top < 5.25 + 2.3, 'the line above the table '
                'words %s is too far: %.2f', at, min(above))
        # the last row is as high as its highest cell, which is in it
        require(abs(low - 5.25 - max(below)) < 0.1, 'the line below the '
                'table words %s is at %.2f', at, max(below))
        return Frag(e, min(above), max(below))


def check(c):
    k = Check(c)
    k.run()
    return Info(k.most >= 3 and k.measured >= 2, k.labels | {
        'pages %d' % min(4, len(k.pvs)), 'deepest %d' % max(
            len(x.path()) for r in k.bld.roots for x in r.leaves())})


PARTS = [Part('boxes', box.case_st, check, 2400, 60000),
         Part('tall', box.tall_st, check, 800, 16000)]
