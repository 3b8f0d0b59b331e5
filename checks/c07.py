"""C07: link areas cover exactly the linked text."""
from hypothesis import strategies as st

from lib import nav, par, rich
from lib.common import require
from lib.harness import Info, Part
from checks.c08 import labels

TECHNIQUE = ('property-based testing (Hypothesis): link annotations of '
             'generated documents against glyph positions, both ways')
LEVEL_NOTE = ('Random search over nested linked parts, alignments, lists and '
              'page breaks; held on all generated cases, not proved.')
RULE = ('Cases are documents of up to four paragraphs whose nested parts have '
        'web links and references. Each glyph of a linked part must be inside '
        'an area with its target, and each area must be explained by a run of '
        'such glyphs on one line. Non-trivial: at least two areas.')
EPS = 0.1


def check(c):
    doc, pvs, pars = par.lay_out(c)
    page_lines = {}
    n = 0
    multi = False
    for o in pars:
        for ln in o.lines:
            page_lines.setdefault(ln.page, []).append(ln)
        for t in o.model.parts:
            if t.get('uri') is not None or t.get('ref') is not None:
                multi = multi or len({id(ln) for ln in o.lines
                                      for g, ch in ln.vis if t in ch.tags
                                      }) > 1 if t['chars'] else multi
    for pv in pvs:
        areas = nav.links(doc, pv)
        n += len(areas)
        lines = page_lines.get(pv.index, [])
        for ln in lines:
            for g, ch in ln.vis:
                for kind, target in targets(ch):
                    require(any(k == kind and t == target and covers(r, g)
                                for r, k, t in areas),
                            'character %r of %r should be inside an area '
                            'with %s %r; areas: %r', g.ch, ln, kind, target,
                            areas[:6])
        for r, kind, target in areas:
            ok = False
            for ln in lines:
                if any(r[0] > a - EPS and r[2] < b + EPS for a, b in runs(
                        ln, (kind, target), r)):
                    ok = True
                    break
            require(ok, 'area %r with %s %r is over text without that link',
                    [round(x, 2) for x in r], kind, target)
    return Info(n > 1, labels(c, pvs, pars) | {'areas %d' % min(n, 6)} | (
        {'link on several lines'} if multi else set()))


def targets(ch):
    out = []
    for t in ch.tags:
        if t.get('uri') is not None:
            out.append(('uri', t['uri']))
        if t.get('ref') is not None:
            out.append(('ref', t['ref'].encode('latin-1')))
    return out


def covers(r, g):
    return r[0] < g.x + EPS and r[2] > g.x2 - EPS and in_y(r, g)


def in_y(r, g):
    return r[1] < g.y - 0.1 * g.size and r[3] > g.y + 0.6 * g.size


def runs(ln, target, r):
    from checks.c12 import runs as runs_
    return runs_(ln, lambda g, ch: target in targets(ch) and in_y(r, g))


def case():
    tags = st.one_of(st.none(), st.fixed_dictionaries({}, optional={
        'uri': st.sampled_from(['https://a.b/c?d=(1)', 'http://x\\y', 'u v',
                                'http://\xe9', '$ref:x', '', 'http://a.b/',
                                'http://a.b', 'http://A.b/', 'http://a.b/#x',
                                'mailto:a@b?c=d:e', ' http://a.b']),
        'ref': st.sampled_from(['lab1', 'A(', 'z\\1', 'no label', '\xe9',
                                'fig:1', 'fig:2', 'Lab1', '$ref:lab1',
                                ' lab1']),
    }))
    return st.one_of(
        par.layout_st(node=rich.node_st(max_words=10, tags=tags), h=(
            150, 200)),
        par.layout_st(node=rich.node_st(attrs=('s', 'r'), max_words=40,
                                        depth=1, tags=tags), h=(150, 200)))


PARTS = [Part('links', case, check, 4000, 80000)]
