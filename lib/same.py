"""Comparison of what two documents show."""
from .harness import require

EPS = 0.02


def drawn(doc, pv):
    """What a page shows, to be compared."""
    out = {'size': [('page', (pv.width, pv.height), ())]}
    out['text'] = [('%s %s' % (g.ch, g.font.base), (g.x, g.base, g.size,
                                                    g.rise), g.color)
                   for g in pv.glyphs]
    out['fills'] = [('fill', (f.x, f.y, f.w, f.h), f.color)
                    for f in pv.fills]
    out['lines'] = [('line %s' % l.cap, (l.x1, l.y1, l.x2, l.y2, l.width,
                                         *flat(l.dash)), l.color)
                    for l in pv.lines]
    out['images'] = [(str(len(doc.resolve(i.ref).raw)), (i.x, i.y, i.w, i.h),
                      ()) for i in pv.images]
    return out


def flat(v):
    if isinstance(v, (list, tuple)):
        return [x for w in v for x in flat(w)]
    return [v or 0]


def close(a, b, eps):
    return len(a) == len(b) and all(abs(x - y) <= eps for x, y in zip(a, b))


def same_pages(da, pa, db, pb, what):
    require(len(pa) == len(pb), '%s give %d and %d pages', what, len(pa),
            len(pb))
    for i, (x, y) in enumerate(zip(pa, pb)):
        x, y = drawn(da, x), drawn(db, y)
        for k in x:
            require(len(x[k]) == len(y[k]), '%s on page %d of %s: %d and %d',
                    k, i, what, len(x[k]), len(y[k]))
            for a, b in zip(x[k], y[k]):
                require(a[0] == b[0] and close(a[1], b[1], EPS) and
                        close(a[2] or (), b[2] or (), 0.002),
                        '%s on page %d of %s: %s and %s', k, i, what, a, b)
