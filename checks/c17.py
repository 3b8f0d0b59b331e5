"""C17: content boxes show every element once, in reading order."""
from lib import box
from lib.common import require
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis): generated nested content '
             'boxes laid out and every drawn word, image, line and fill '
             'matched with the description')
LEVEL_NOTE = ('Random search over nested boxes of 1 to 3 columns with '
              'paragraphs, images, tables and groups; held on all generated '
              'cases, not proved. Trusts lib/interp.py and lib/box.py.')
RULE = ('Cases are documents with one or two content boxes, nested up to '
        'three deep, whose words and images are all unique, so loss, '
        'repetition and order are read off the pages. Non-trivial: some box '
        'has several columns or its content takes several pages.')


def check(c):
    bld, doc, pvs, tops, end = box.build(c)
    for r in bld.roots:
        order(c, r)
        for leaf in r.leaves():
            inner_order(c, leaf)
    graphics(c, bld, pvs)
    flat = [b for r in bld.roots for b in boxes(r)]
    multi = any(b.plan['cols'] > 1 for b in flat)
    labels = ['%d columns' % max(b.plan['cols'] for b in flat),
              'pages %d' % min(len(pvs), 4)]
    if any(len(b.path()) for b in flat):
        labels.append('nested')
    if any(b.plan['cols'] > 1 and any(q.plan['cols'] > 1 for q in b.path())
           for b in flat):
        labels.append('columns in columns')
    for r in bld.roots:
        for x in r.leaves():
            labels.append(box.NAMES[x.t])
            if len({a.page for a in x.atoms}) > 1:
                labels.append(box.NAMES[x.t] + ' over a page break')
            elif len({box.column(c, x, a.x1)[0] for a in x.atoms}) > 1:
                labels.append(box.NAMES[x.t] + ' over a column break')
            if x.group():
                labels.append('group')
    return Info(multi or len(pvs) > 1, labels)


def boxes(el):
    if el.t == 'b':
        yield el
        for k in el.kids:
            yield from boxes(k)


def keyed(c, el, depth):
    """(page, columns down to the box at that depth), atom of an element"""
    out = []
    for leaf in el.leaves():
        for a in leaf.atoms:
            cols, _ = box.column(c, leaf, a.x1)
            out.append(((a.page,) + cols[:depth + 1], a))
    return out


def order(c, b):
    """Every pair of elements of a box is in reading order."""
    depth = len(b.path())
    ks = [keyed(c, e, depth) for e in b.kids]
    for i, e in enumerate(b.kids):
        for j in range(i + 1, len(b.kids)):
            if not ks[i] or not ks[j]:
                continue
            f = b.kids[j]
            if e.flows and b.t == 'b':
                continue
            last = max(k for k, _ in ks[i])
            first = min(k for k, _ in ks[j])
            require(last <= first, '%s %s is placed before the end of %s %s '
                    'that precedes it: %s / %s', box.NAMES[f.t], name(f),
                    box.NAMES[e.t], name(e), first, last)
            if last == first:
                low = min(a.y1 for k, a in ks[i] if k == last)
                high = max(a.y2 for k, a in ks[j] if k == first)
                require(high <= low + box.EPS, '%s %s (top %.2f) is not '
                        'below %s %s (bottom %.2f)', box.NAMES[f.t], name(f),
                        high, box.NAMES[e.t], name(e), low)
    for e in b.kids:
        if e.t in 'bg':
            order(c, e)


def name(e):
    for x in e.leaves():
        if x.t == 'i':
            return x.image
        for w in x.words:
            return w
        for r in x.rows:
            return r[0][0]
    return '?'


def inner_order(c, leaf):
    """The words of a paragraph follow each other, the rows of a table too."""
    pos = {}
    for a in leaf.atoms:
        cols, _ = box.column(c, leaf, a.x1)
        pos[a.word] = ((a.page,) + cols, a)

    def before(u, v, below):
        (ku, a), (kv, b) = pos[u], pos[v]
        ok = ku < kv or ku == kv and (
            b.base < a.base - box.EPS or
            not below and abs(b.base - a.base) < box.EPS and b.x1 >= a.x2)
        require(ok, 'word %r is not shown after %r: %s %s / %s %s', v, u,
                kv, b, ku, a)
    if leaf.t == 'p':
        for u, v in zip(leaf.words, leaf.words[1:]):
            before(u, v, False)
        lw = getattr(leaf, 'list_word', None)
        if lw is not None:
            before(lw, leaf.words[0], False)
            require(abs(pos[lw][1].base - pos[leaf.words[0]][1].base) <
                    box.EPS, 'list text %r is not on the first line', lw)
    for i, row in enumerate(leaf.rows):
        for cell in row:
            for u, v in zip(cell, cell[1:]):
                before(u, v, False)
            if i:
                for up in leaf.rows[i - 1]:
                    before(up[-1], cell[0], True)


def graphics(c, bld, pvs):
    """Each fragment of text with graphics has them once, each fragment of a
    table its lines and fills, and there is nothing else."""
    want = {pv.index: [] for pv in pvs}
    tables = {pv.index: [] for pv in pvs}
    for r in bld.roots:
        for x in r.leaves():
            if x.t == 'p' and x.plan['gr'] and x.plan['form'] != 'plain':
                lines = {}
                for a in x.atoms:
                    if a.word == getattr(x, 'list_word', None):
                        continue
                    cols = box.column(c, x, a.x1)[0]
                    lines.setdefault((a.page, cols, round(a.base, 2)),
                                     []).append(a)
                for (page, cols, base), at in lines.items():
                    want[page].append((x, at))
            elif x.t == 't':
                frags = {}
                for a in x.atoms:
                    cols = box.column(c, x, a.x1)[0]
                    frags.setdefault((a.page,) + cols, []).append(a)
                for k, at in frags.items():
                    tables[k[0]].append((x, at, box.column(
                        c, x, at[0].x1)[1]))
    for pv in pvs:
        fills, lines = list(pv.fills), list(pv.lines)
        for x, at in want[pv.index]:
            x1, x2 = min(a.x1 for a in at), max(a.x2 for a in at)
            base, size = at[0].base, at[0].size
            if x.plan['gr'] == 'bg':
                hit = [f for f in fills if x1 - 0.1 < f.x < x2 and
                       abs(f.y - (base - size * 0.25)) < 0.1]
                hit = sorted((f.x, f.x + f.w, f) for f in hit)
                what, rest = 'background', fills
            else:
                hit = [ln for ln in lines if x1 - 0.1 < ln.x1 < x2 and
                       ln.y1 == ln.y2 and
                       abs(ln.y1 - base + size * 0.07) < 0.02 and
                       abs(ln.width - size * 0.07) < 0.01]
                hit = sorted((ln.x1, ln.x2, ln) for ln in hit)
                what, rest = 'underline', lines
            require(hit, 'no %s for the line %s on page %d', what, at,
                    pv.index)
            ends = [x1] + [h[1] for h in hit]
            require(all(abs(h[0] - e) < 0.1 for h, e in zip(hit, ends)) and
                    ends[-1] > x2 - 0.1, 'the %ss of the line %s on page %d '
                    'do not cover it once: %s', what, at, pv.index,
                    [h[2] for h in hit])
            for h in hit:
                rest.remove(h[2])
        # what remains belongs to tables
        regions = []
        for x, at, x0 in tables[pv.index]:
            cw = box.dims(c, box.outer(x))[0]
            s = x.style
            tx1 = x0 + s.get('margin_left', 0)
            tx2 = x0 + cw - s.get('margin_right', 0)
            top, low = max(a.y2 for a in at), min(a.y1 for a in at)
            hs = [ln for ln in lines if abs(ln.y1 - ln.y2) < 0.001 and
                  ln.x1 <= tx1 + 0.3 and ln.x2 >= tx2 - 0.3 and
                  ln.x1 > tx1 - 0.5 and ln.x2 < tx2 + 0.5]
            above = [ln for ln in hs if top <= ln.y1 < top + 8]
            below = [ln for ln in hs if low > ln.y1 > low - 20]
            require(above, 'no line above the table words %s, page %d', at,
                    pv.index)
            require(below, 'no line below the table words %s, page %d', at,
                    pv.index)
            regions.append((x, tx1, tx2, above, below))
            y1, y2 = max(ln.y1 for ln in below), min(ln.y1 for ln in above)
            for k in range(x.plan['cols'] + 1):
                vx = tx1 + (tx2 - tx1) * k / x.plan['cols']
                require(any(abs(ln.x1 - vx) < 0.01 and
                            abs(ln.x2 - vx) < 0.01 and
                            min(ln.y1, ln.y2) <= y1 + 0.5 and
                            max(ln.y1, ln.y2) >= y2 - 0.5 for ln in lines),
                        'no vertical line at x %.2f of the table %s', vx, at)
            if x.plan['fill']:
                for a in at:
                    n = sum(f.x <= a.x1 and f.x + f.w >= a.x2 and
                            f.y <= a.base and f.y + f.h >= a.y2
                            and f.color == (1.0, 0.0, 0.0) for f in fills)
                    require(n == 1, '%d fills behind the table word %s', n,
                            a)
        keys = {}
        for ln in lines:
            k = ('line', round(ln.x1, 2), round(ln.y1, 2), round(ln.x2, 2),
                 round(ln.y2, 2))
            keys[k] = keys.get(k, 0) + 1
            # two tables may touch
            shared = any(ln in r[3] for r in regions) and any(
                ln in r[4] for r in regions)
            require(keys[k] <= 1 + shared, 'the line %s of page %d is drawn '
                    'twice', ln, pv.index)
            if not tables[pv.index] and not stub(tables):
                require(False, 'line %s of page %d belongs to nothing', ln,
                        pv.index)
        for f in fills:
            k = ('fill', round(f.x, 2), round(f.y, 2), round(f.w, 2),
                 round(f.h, 2))
            require(k not in keys, 'the fill %s of page %d is drawn twice',
                    f, pv.index)
            keys[k] = 1
            require(f.color == (1.0, 0.0, 0.0),
                    'fill %s of page %d belongs to nothing', f, pv.index)


def stub(tables):
    """Tables may draw an empty strip before a page break."""
    return any(tables.values())


PARTS = [Part('boxes', box.case_st, check, 2400, 60000),
         Part('tall', box.tall_st, check, 800, 16000)]
