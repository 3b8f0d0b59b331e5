"""C23: page numbers follow the offset, style and resets."""
from hypothesis import strategies as st

from lib import box, docs
from lib.common import require, sut
from lib.harness import Info, Part, Violation

TECHNIQUE = ('property-based testing (Hypothesis): page numbers shown in '
             'generated documents against a model, and Roman numerals '
             'enumerated against an independent table')
LEVEL_NOTE = ('Random search over numbering styles, offsets and resets of '
              'documents and PDF objects; the Roman numerals from 1 to 3999 '
              'are enumerated completely.')
RULE = ('(a) documents of 1 to 4 sections that show the page number in '
        'running sections and contents; (b) PDF objects whose numbering is '
        'changed between pages; (c) all integers from -50 to 4200. '
        'Non-trivial: an offset, a reset or Roman numerals are in force (a, '
        'b); a valid number (c).')


def check(c):
    desc, bld, roots, pvs, pgs = docs.lay_out(c)
    nt = False
    kinds = set()
    for pg in pgs:
        for n, atoms in pg.rwords.items():
            require(atoms[0].word == 'R%s%s.' % (n, pg.number), 'page %d '
                    'shows the number %r in running section %r, expected %r',
                    pg.index, atoms[0].word[2:-1], n, pg.number)
        for a in pg.vwords:
            require(a.word == 'P%s.' % pg.number, 'page %d shows the number '
                    '%r in its contents, expected %r', pg.index,
                    a.word[1:-1], pg.number)
        if pg.rwords or pg.vwords:
            if pg.number != str(pg.index + 1):
                nt = True
            kinds.add(pg.numbering)
            if pg.vwords:
                kinds.add('in the contents')
    if any(s['style'].get('page_numbering_reset') for s in c['sections'][1:]):
        kinds.add('reset')
    return Info(nt, docs.labels(c, pgs) | kinds)


# numbering of a PDF object --------------------------------------------------------

pdf_case = st.fixed_dictionaries({
    'init': st.tuples(st.integers(0, 3000), st.sampled_from([
        'arabic', 'roman'])).map(list),
    'runs': st.booleans(),
    'steps': st.lists(st.one_of(
        st.tuples(st.just('page'), st.sampled_from([None, 200, 'a5'])),
        st.tuples(st.just('page'), st.none()),
        st.tuples(st.just('offset'), st.integers(0, 3900)),
        st.tuples(st.just('style'), st.sampled_from(['arabic', 'roman'])),
        st.tuples(st.just('text'), st.none()),
        st.tuples(st.just('back'), st.integers(0, 20)),
    ).map(list), min_size=1, max_size=12),
})


def check_pdf(c):
    from pdfme import PDF
    from lib.common import render
    want = {}
    with sut():
        off, sty = c['init']
        pdf = PDF(page_size=[300, 300], margin=10, page_numbering_offset=off,
                  page_numbering_style=sty)
        if c['runs']:
            pdf.add_running_section(
                {'content': [{'.': ['R', {'var': '$page'}, '.']}]}, 100, 40,
                5, 2)
        n = 0
        number = None
        cur = None
        for op, arg in [['page', None]] + c['steps']:
            if op == 'page':
                pdf.add_page(arg)
                cur = n
                n += 1
                number = show(cur + 1 + off, sty)
                want[cur] = ['R' + number] if c['runs'] else []
            elif op == 'offset':
                pdf.page_numbering_offset = off = arg
            elif op == 'style':
                pdf.page_numbering_style = sty = arg
            elif op == 'back':
                pdf.page_index = cur = arg % n
                number = show(cur + 1 + off, sty)
            else:
                pdf.text({'.': ['P', {'var': '$page'}, '.']})
                want[cur].append('P' + number)
    doc, pvs = render(pdf)
    require(len(pvs) == n, '%d pages, expected %d', len(pvs), n)
    for pv in pvs:
        got = [a.word[:-1] for a in box.words(pv)]
        require(got == want[pv.index], 'page %d shows %s, expected %s',
                pv.index, got, want[pv.index])
    ops = {o for o, _ in c['steps']}
    return Info(any(want.values()) and (c['init'] != [0, 'arabic'] or
                                        ops & {'offset', 'style'}), ops)


def show(n, sty):
    return docs.roman(n) if sty == 'roman' else str(n)


# Roman numerals -----------------------------------------------------------------

def check_roman(n):
    from pdfme.utils import to_roman
    if 0 < n < 4000:
        with sut('to_roman(%d)' % n):
            got = to_roman(n)
        require(got == docs.roman(n), 'to_roman(%d) is %r, expected %r', n,
                got, docs.roman(n))
        return Info(True)
    try:
        got = to_roman(n)
    except Exception:
        return Info(False)
    raise Violation('to_roman(%d) is %r, expected an error' % (n, got))


def rejected(c):
    """A page whose number cannot be written is rejected."""
    from pdfme import PDF
    pdf = PDF(page_numbering_style='roman', page_numbering_offset=c)
    number = c + 1
    try:
        pdf.add_page()
    except Exception:
        require(not 0 < number < 4000, 'page number %d rejected', number)
        return Info(True, ['rejected'])
    require(0 < number < 4000, 'page number %d in Roman numerals accepted',
            number)
    return Info(True, ['accepted'])


PARTS = [
    Part('documents', lambda: docs.document_st(numbering=docs.BIG_NUMBERING),
         check, 1800, 36000),
    Part('pdf', lambda: pdf_case, check_pdf, 2000, 40000),
    Part('roman', None, check_roman, 0, 0,
         enumerate_=lambda: range(-50, 4201)),
    Part('limits', None, rejected, 0, 0, enumerate_=lambda: [
        -2000, -10, -2, -1, 0, 1, 3997, 3998, 3999, 4000, 9000]),
    Part('long', lambda: docs.long_st(), check, 60, 1200),
]
