"""C09: lines fit their box, fill it greedily and are aligned."""
from lib import par, rich
from lib.harness import Info, Part
from checks.c08 import labels

TECHNIQUE = ('property-based testing (Hypothesis): generated paragraphs, '
             'glyph positions checked against independent font metrics')
LEVEL_NOTE = ('Random search; glyph positions come from interpreting the '
              'written content streams with a snapshot of the standard font '
              'metrics. Tolerance 0.06 pt. Held on all generated cases, not '
              'proved.')
RULE = ('Cases are documents of up to four paragraphs, as for C08. For every '
        'line: inside the box reduced by indentation and list indentation, '
        'edges as its alignment asks, and the first word of the next line '
        'would not have fitted. Non-trivial: some line was wrapped.')


def check(c):
    doc, pvs, pars = par.lay_out(c)
    out = labels(c, pvs, pars)
    nt = False
    for o in pars:
        got = par.check_geometry(o)
        nt = nt or any(x.startswith('wrapped') for x in got)
        out |= got
    return Info(nt, out)


def case():
    from hypothesis import strategies as st
    return st.one_of(
        par.layout_st(node=rich.node_st(attrs=('b', 's', 'f', 'r', 'c'),
                                        max_words=14)),
        par.layout_st(node=rich.node_st(attrs=('b', 'f'), max_words=60,
                                        depth=1, max_kids=3)))


PARTS = [Part('lines', case, check, 6000, 120000)]
