"""C21: sections start new pages with their own layout."""
from lib import docs
from lib.common import require
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis): pages of generated '
             'documents of several sections against a model of the layout in '
             'force on each page')
LEVEL_NOTE = ('Random search over page sizes, rotations, margins, per-page '
              'ranges and contents; held on all generated cases, not proved. '
              'Trusts lib/interp.py and the model in lib/docs.py.')
RULE = ('Cases are documents of 1 to 4 sections with unique words, layouts '
        'in the document style, the section styles and per-page ranges. '
        'Every page must have the size in force, hold words of one section '
        'only, within the margins in force, start at their top left and use '
        'them down to the bottom. Non-trivial: two pages have different '
        'layouts.')


def check(c):
    desc, bld, roots, pvs, pgs = docs.lay_out(c)
    prev = None
    for pg in pgs:
        lay, pv = pg.layout, pg.view
        require(abs(pv.width - lay.w) < 0.01 and abs(pv.height - lay.h) < 0.01,
                'page %d (section %d) measures %s x %s, expected %s x %s',
                pg.index, pg.section, pv.width, pv.height, lay.w, lay.h)
        inside(pg)
        fits(bld, pg, prev, c)
        prev = pg
    shapes = {(pg.layout.w, pg.layout.h, tuple(pg.layout.m.values()))
              for pg in pgs}
    out = docs.labels(c, pgs)
    if any(pg.layout.w > pg.layout.h for pg in pgs):
        out.add('landscape')
    if len(shapes) > 1:
        out.add('layouts differ')
    return Info(len(shapes) > 1, out)


def inside(pg):
    lay = pg.layout
    e = 0.02
    for a in pg.words + pg.vwords:
        require(a.x1 > lay.left - e and a.x2 < lay.right + 3 * e and
                a.base > lay.bottom - e and a.y2 < lay.top + e,
                'page %d: %s (to x %.2f) is outside the margins %s of a page '
                'of %s x %s', pg.index, a, a.x2, lay.m, lay.w, lay.h)
    for f in pg.view.fills:
        require(f.x > lay.left - e and f.x + f.w < lay.right + e and
                f.y > lay.bottom - 4 and f.y + f.h < lay.top + e,
                'page %d: fill at (%.2f, %.2f) %.2f x %.2f is outside the '
                'margins %s', pg.index, f.x, f.y, f.w, f.h, lay.m)
    for ln in pg.view.lines:
        w = ln.width / 2 + e
        require(min(ln.x1, ln.x2) > lay.left - w and
                max(ln.x1, ln.x2) < lay.right + w and
                min(ln.y1, ln.y2) > lay.bottom - 4 and
                max(ln.y1, ln.y2) < lay.top + w,
                'page %d: line from (%.2f, %.2f) to (%.2f, %.2f) is outside '
                'the margins %s', pg.index, ln.x1, ln.y1, ln.x2, ln.y2, lay.m)


def fits(bld, pg, prev, c):
    """The margins are used up to their edges."""
    lay = pg.layout
    if not pg.words or pg.vwords and pg.vwords[0].seq < pg.words[0].seq:
        return
    first = pg.words[0]
    el = bld.by_word[first.word]
    if el.t != 'p' or hasattr(el, 'list_word'):
        return
    lh = el.plan['lh'] if el.plan['form'] == 'dict' else 1.1
    size = first.size
    got = lay.top - first.base
    require(size - 0.02 < got < size + lh + 0.1, 'page %d: the first '
            'baseline is %.2f below the top margin, text size %s', pg.index,
            got, size)
    plain = el.plan['form'] == 'plain'
    if (plain or el.plan['align'] in 'lj') and (
            plain or not el.plan['m'].get('margin_left')) and (
            plain or el.plan['indent'] == 0 or first.word != el.words[0]):
        require(abs(first.x1 - lay.left) < 0.02, 'page %d: the first line '
                'starts at %.2f, left margin %.2f', pg.index, first.x1,
                lay.left)
    if prev is not None and prev.section == pg.section and prev.words and \
            not (prev.vwords and prev.vwords[-1].seq > prev.words[-1].seq):
        last = prev.words[-1]
        if bld.by_word[last.word] is el:
            left = last.base - prev.layout.bottom
            require(left < size * lh + 0.1, 'page %d: %.2f are left below '
                    'the last line, enough for another', prev.index, left)


PARTS = [Part('layout', lambda: docs.document_st(running=False), check, 3200,
              60000),
    Part('long', lambda: docs.long_st(running=False), check, 60, 1200),
]
