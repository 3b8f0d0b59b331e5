"""C12: underlines and backgrounds cover exactly their text."""
from hypothesis import strategies as st

from lib import par, rich
from lib.common import require
from lib.harness import Info, Part
from checks.c08 import labels
from checks.c11 import same_color

TECHNIQUE = ('property-based testing (Hypothesis): stroked lines and filled '
             'rectangles against the glyphs they must cover, both ways')
LEVEL_NOTE = ('Random search over nested u and bg styles with alignments, '
              'lists and page breaks; held on all generated cases.')
RULE = ('Cases are documents of up to four paragraphs of nested parts with '
        'underline and background styles. Every glyph that has one must be '
        'covered and every line or rectangle must be explained by a run of '
        'such glyphs. Non-trivial: at least one underlined character and one '
        'with a background.')
EPS = 0.08


def runs(ln, pred):
    """x ranges of maximal runs of glyphs of a line satisfying pred; spaces
    belong to a run if they touch it"""
    out = []
    vis = {id(g): ch for g, ch in ln.vis}
    glyphs = ln.glyphs[[id(g) for g in ln.glyphs].index(id(ln.vis[0][0])):]
    cur = None
    lead = None
    for g in glyphs:
        ch = vis.get(id(g))
        if ch is None:
            if g.ch != ' ':
                cur = None
                lead = None
                continue
            if cur is not None:
                cur[1] = max(cur[1], g.x + g.adv)
            lead = g.x if lead is None else lead
        elif pred(g, ch):
            if cur is None:
                cur = [g.x if lead is None else lead, g.x2]
                out.append(cur)
            cur[1] = max(cur[1], g.x2)
            lead = None
        else:
            cur = None
            lead = None
    return out


def check(c):
    doc, pvs, pars = par.lay_out(c)
    out = labels(c, pvs, pars)
    page_lines = {}
    nu = nb = 0
    for o in pars:
        for ln in o.lines:
            page_lines.setdefault(ln.page, []).append(ln)
    for pv in pvs:
        lines = page_lines.get(pv.index, [])
        for ln in lines:
            for g, ch in ln.vis:
                s = ch.st
                if s['u']:
                    nu += 1
                    require(any(under(l, g, s) for l in pv.lines),
                            'underlined character %r of %r has no line under '
                            'it; lines: %r', g.ch, ln, pv.lines[:8])
                if s['bg'] is not None:
                    nb += 1
                    require(any(behind(f, g, s) for f in pv.fills),
                            'character %r of %r has no background %s behind '
                            'it; fills: %r', g.ch, ln, s['bg'], pv.fills[:8])
        for l in pv.lines:
            ok = False
            for ln in lines:
                def pred(g, ch):
                    s = ch.st
                    return s['u'] and same_color(l.color, s['c']) and \
                        level(l, g)
                if any(l.x1 > a - EPS and l.x2 < b + EPS
                       for a, b in runs(ln, pred)):
                    ok = True
                    break
            require(ok, 'line %r is under text that is not underlined', l)
        for f in pv.fills:
            ok = False
            for ln in lines:
                def pred(g, ch):
                    s = ch.st
                    return s['bg'] is not None and same_color(
                        f.color, s['bg']) and covers_y(f, g)
                if any(f.x > a - EPS and f.x + f.w < b + EPS
                       for a, b in runs(ln, pred)):
                    ok = True
                    break
            require(ok, 'rectangle %r is behind text without that background',
                    f)
    if nu:
        out.add('underline')
    if nb:
        out.add('background')
    return Info(nu and nb, out)


def level(l, g):
    return abs(l.y1 - l.y2) < 1e-6 and \
        g.y - 0.25 * g.size < l.y1 <= g.y + 1e-6


def under(l, g, s):
    return level(l, g) and l.x1 < g.x + EPS and l.x2 > g.x2 - EPS and \
        same_color(l.color, s['c']) and l.width > 0


def covers_y(f, g):
    return f.y < g.y - 0.1 * g.size and f.y + f.h > g.y + 0.6 * g.size


def behind(f, g, s):
    return covers_y(f, g) and f.x < g.x + EPS and \
        f.x + f.w > g.x2 - EPS and same_color(f.color, s['bg']) and \
        f.seq < g.seq


def case():
    return st.one_of(
        par.layout_st(node=rich.node_st(attrs=('u', 'bg', 's', 'c', 'r'),
                                        max_words=10)),
        par.layout_st(node=rich.node_st(attrs=('u', 'bg', 'u', 'bg', 'b')[:2],
                                        max_words=20, depth=1)))


PARTS = [Part('graphics', case, check, 5000, 100000)]
