"""C08: paragraph text is conserved, in order, across pages."""
from hypothesis import strategies as st

from lib import par, rich
from lib.common import require
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis): generated rich text laid '
             'out and compared with an independent reading of the pages')
LEVEL_NOTE = ('Random search over nested rich text, alignments, indentation, '
              'lists, line heights and page sizes with the three Latin '
              'standard families; held on all generated cases, not proved. '
              'Trusts the content stream interpreter in lib/interp.py.')
RULE = ('Cases are documents of up to four paragraphs of nested parts, laid '
        'out by PDF.text or a content box on small pages. Every word has a '
        'unique text, so the characters drawn determine order, loss and '
        'repetition. Non-trivial: some paragraph has at least two lines.')


def check(c):
    doc, pvs, pars = par.lay_out(c)
    for o in pars:
        par.check_words(o)
    return Info(any(len(o.lines) > 1 for o in pars), labels(c, pvs, pars))


def labels(c, pvs, pars):
    out = {c['how'], 'pages %s' % min(len(pvs), 4)}
    for o in pars:
        if len({ln.page for ln in o.lines}) > 1:
            out.add('paragraph over a page break')
        if o.list_text:
            out.add('list')
        if o.indent:
            out.add('indent')
        out.add('align ' + o.align)
        if o.model.breaks:
            out.add('forced break')
        if any(len({id(ch.st) for ch in w}) > 1 for w in o.model.words):
            out.add('word of several parts')
    return out


def case():
    tags = st.one_of(st.none(), st.none(), st.none(), st.fixed_dictionaries(
        {'var': rich.leaf_st(4, 7)}))
    return st.one_of(
        par.layout_st(node=rich.node_st(max_words=14, tags=tags)),
        par.layout_st(node=rich.node_st(attrs=('b', 's'), max_words=60,
                                        depth=1)))


PARTS = [Part('paragraphs', case, check, 6000, 120000)]
