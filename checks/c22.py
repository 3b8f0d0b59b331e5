"""C22: running sections appear on exactly the pages that ask for them."""
from lib import docs
from lib.common import require
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis): running sections drawn on '
             'the pages of generated documents against a model of which '
             'names each page asks for and where they go')
LEVEL_NOTE = ('Random search over positions, sizes, alignments, lists of '
              'names, layouts and per-page ranges; held on all generated '
              'cases, not proved. Trusts lib/interp.py and lib/docs.py.')
RULE = ('Cases are documents of 1 to 4 sections with four running sections '
        'of known words. On every page the running sections shown, their '
        'order, position, width, height and page number are compared with '
        'the model. Non-trivial: two pages ask for different running '
        'sections, or for the same ones with different layouts.')


def check(c):
    desc, bld, roots, pvs, pgs = docs.lay_out(c)
    seen = set()
    cut = False
    for pg in pgs:
        require(sorted(pg.order) == sorted(pg.running), 'page %d (section '
                '%d) shows the running sections %s, expected %s', pg.index,
                pg.section, pg.order, pg.running)
        require(pg.order == pg.running, 'page %d shows the running sections '
                'in the order %s, listed as %s', pg.index, pg.order,
                pg.running)
        for n in pg.running:
            cut |= placed(c['running'][n], n, pg)
        if pg.running:
            lay = pg.layout
            seen.add((tuple(pg.running), lay.w, lay.h, tuple(lay.m.values())))
    out = docs.labels(c, pgs)
    if cut:
        out.add('cut by the height')
    return Info(len(seen) > 1, out)


def rectangle(d, lay):
    x = {'left': lay.m['left'], 'right': lay.right, None: 0}.get(
        d.get('x'), d.get('x'))
    y = {'top': lay.m['top'], 'bottom': lay.h - lay.bottom, None: 0}.get(
        d.get('y'), d.get('y'))
    w = {'left': lay.m['left'], 'right': lay.m['right'], 'full': lay.w,
         None: lay.right - lay.left}.get(d.get('width'), d.get('width'))
    h = {'top': lay.m['top'], 'bottom': lay.m['bottom'], 'full': lay.h,
         None: lay.top - lay.bottom}.get(d.get('height'), d.get('height'))
    return x, y, w, h


def placed(d, name, pg):
    lay = pg.layout
    x, y, w, h = rectangle(d, lay)
    atoms = pg.rwords[name]
    total = d['n'] + 1
    head = 'R%s%s.' % (name, pg.number)
    require(atoms[0].word == head, 'page %d: running section %r shows %r, '
            'expected %r', pg.index, name, atoms[0].word, head)
    require([a.word for a in atoms[1:]] == [
        'R%s:%d.' % (name, i) for i in range(1, len(atoms))],
        'page %d: running section %r shows %r', pg.index, name,
        [a.word for a in atoms][:8])
    s, lh = d['s'], d['lh']
    got = lay.h - y - atoms[0].base
    require(s - 0.02 < got < s + lh + 0.1, 'page %d: the first baseline of '
            'running section %r is %.2f below its top (%.2f), text size %s',
            pg.index, name, got, lay.h - y, s)
    for a in atoms:
        wide = a.x2 - a.x1
        want = x if d['align'] in 'lj' else x + w - wide \
            if d['align'] == 'r' else x + (w - wide) / 2
        if wide < w:
            require(abs(a.x1 - want) < 0.03, 'page %d: %r of running section '
                    '%r starts at %.2f, expected %.2f (rectangle x %s, width '
                    '%s, aligned %s)', pg.index, a.word, name, a.x1, want, x,
                    w, d['align'])
    # the height: what does not fit is not shown
    n = len(atoms)
    last = lay.h - y - atoms[-1].base
    require(last < h + 0.05, 'page %d: running section %r reaches %.2f below '
            'its top, height %s', pg.index, name, last, h)
    if n < total:
        require(last + s * lh + 2 * lh > h - 0.05, 'page %d: running section %r '
                'shows %d of %d lines, %.2f of its height %s is left',
                pg.index, name, n, total, h - last, h)
    return n < total


PARTS = [Part('running', docs.document_st, check, 2400, 48000),
    Part('long', lambda: docs.long_st(), check, 60, 1200),
]
