"""C10: lines step down by the line height and pages are filled."""
from hypothesis import strategies as st

from lib import par, rich
from lib.common import require
from lib.harness import Info, Part
from checks.c08 import labels

TECHNIQUE = ('property-based testing (Hypothesis): baselines of generated '
             'paragraphs against computed bounds; metamorphic page height')
LEVEL_NOTE = ('Random search; exact line steps where a line has one size, '
              'bounds between the visible and the touching parts otherwise. '
              'Held on all generated cases, not proved.')
RULE = ('Cases are documents of up to four paragraphs. Each step between '
        'baselines, each page break and each first line is checked against '
        'bounds computed from the styles; the same text on a very high page '
        'must break into the same lines. Non-trivial: some paragraph '
        'continues on another page.')


def check(c):
    doc, pvs, pars = par.lay_out(c)
    out = labels(c, pvs, pars)
    mt, mr, mb, ml = c['margin']
    top = c['page'][1] - mt
    eps = 0.03
    page, y = 0, top        # page and height where the next line goes
    slack = 0
    exact = False
    for o in pars:
        for i, ln in enumerate(o.lines):
            new_page = ln.page != page
            same_rect = i > 0 and not new_page
            if same_rect:
                lo, hi = par.step(o, i)
                got = o.lines[i - 1].base - ln.base
                e = eps + 0.002 * len(o.lines)
                require(lo - e <= got <= hi + e, 'line %r is %.3f below '
                        'the previous one, expected %.3f to %.3f (line '
                        'height %s)', ln.text(), got, lo, hi, o.lh)
                if hi - lo < 1e-6:
                    exact = True
            else:
                lo, hi = par.first_step(o, i)
                if new_page:
                    require(ln.page == page + 1, 'line %r is on page %d, the '
                            'previous one on page %d', ln.text(), ln.page,
                            page)
                    if i > 0:
                        need = par.step(o, i)[1]
                    else:
                        # elements of a content box are 5 pt apart
                        need = hi + (5 if c['how'] == 'content' and
                                     o is not pars[0] else 0)
                    left = y - mb
                    require(need + slack > left - eps, 'line %r needs at '
                            'most %.2f and %.2f were left on the page, but '
                            'it was moved to the next', ln.text(), need, left)
                    y = top
                    # a blank line at the end of the last paragraph may have
                    # been moved too
                    if slack:
                        slack += 5
                got = y - ln.base
                gap = slack
                if i == 0 and c['how'] == 'content' and o is not pars[0] \
                        and not new_page:
                    gap += 5 + 0.01         # default bottom margin
                    lo += 5
                require(lo - eps <= got <= hi + gap + eps, 'first line %r is '
                        '%.3f below the top, expected %.3f to %.3f',
                        ln.text(), got, lo, hi + gap)
            page, y = ln.page, ln.base
            slack = 0
            require(ln.base > mb - eps, 'line %r is below the bottom margin: '
                    '%.2f', ln.text(), ln.base)
        nb = o.model.trailing_breaks
        if not o.lines:
            nb += 1 + sum(o.model.breaks.values())
        if nb or not o.lines:
            # paragraphs without text, and blank lines at the end, take
            # between nothing and the height of the spaces in them
            slack += nb * (par.max_style(o) + o.lh) * o.lh + 10 + (
                o.list_style['s'] if o.list_text else 0)
        if slack > 50:
            # empty lines may even have filled the page
            return Info(False, out)
    over = any(len({ln.page for ln in o.lines}) > 1 for o in pars)
    if exact:
        out.add('exact step')
    # page breaks do not change how the text is broken into lines
    if len(pvs) > 1:
        _, _, tall = par.lay_out(c, 20000)
        for o, t in zip(pars, tall):
            a = [(ln.first, ln.last) for ln in o.lines]
            b = [(ln.first, ln.last) for ln in t.lines]
            require(a == b, 'text is broken into lines %r, but without page '
                    'breaks into %r', a, b)
        out.add('compared with a tall page')
    return Info(over, out)


def case():
    return st.one_of(
        par.layout_st(node=rich.node_st(attrs=('b', 's', 'f', 'r', 'c'),
                                        max_words=14)),
        par.layout_st(node=rich.node_st(attrs=('b', 'f'), max_words=60,
                                        depth=1, max_kids=3)),
        par.layout_st(node=rich.node_st(attrs=('s', 'r'), max_words=30,
                                        depth=1, seps=7)))


PARTS = [Part('flow', case, check, 5000, 100000)]
