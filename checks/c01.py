"""C01: every output is a structurally valid PDF file."""
from hypothesis import strategies as st

from lib import gendoc, nav
from lib.common import build, parse, require, sut, write
from lib.harness import Info, Part, Violation
from lib.interp import page_list, view
from lib.pdfread import Name, PdfError, Ref, Str, Stream, all_refs

TECHNIQUE = ('property-based testing (Hypothesis): a strict PDF reader '
             'written from the specification reads generated files back')
LEVEL_NOTE = ('Random search over elements, texts with special characters, '
              'tags, layouts and metadata. Held on all generated cases, not '
              'proved.')
RULE = ('Cases are files of several blocks added to a PDF object, some '
        'written in between, and documents of several sections with running '
        'sections and footnotes. The whole file is read back: header, '
        'cross-references, trailer, stream lengths, references, objects, '
        'content streams, resources, links, outlines and destinations. '
        'Non-trivial: two or more pages, or fonts, images, links or outlines '
        'besides plain text.')


def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def valid(data, out, uris=None):
    """Everything a reader relies on in a written file."""
    doc = parse(data)
    try:
        tr = doc.trailer
        require(isinstance(tr.get('Root'), Ref), 'trailer Root is %r',
                tr.get('Root'))
        ids = doc.resolve(tr.get('ID'))
        require(isinstance(ids, list) and len(ids) == 2 and all(
            isinstance(i, Str) and len(i) > 0 for i in ids),
            'trailer ID is %r', ids)
        for ref in all_refs(tr):
            doc.resolve(ref)
        for num, o in doc.objects.items():
            for ref in all_refs(o):
                require(ref.num in doc.objects and ref.gen == 0, 'object %d '
                        'refers to the missing object %r', num, ref)
            if isinstance(o, Stream):
                require(o.dict.get('Length') == len(o.raw), 'bad Length')
                o.data()
        pvs = view(doc)
    except PdfError as e:
        raise Violation('the written file is not valid PDF: %s' % e)
    index = {p.page['__ref__']: p.index for p in pvs}
    for pv in pvs:
        res = pv.res
        for name, ref in (doc.get(res, 'Font') or {}).items():
            check_font(doc, name, doc.resolve(ref))
        for name, ref in (doc.get(res, 'XObject') or {}).items():
            check_image(doc, name, doc.resolve(ref))
            out.add('images')
        for a in pv.annots():
            check_annot(doc, a)
            out.add('links')
    dests = nav.dests(doc, index)
    if dests:
        out.add('destinations')
    for pv in pvs:
        for a in pv.annots():
            if 'Dest' in a and bytes(a['Dest']) not in dests:
                out.add('reference to an unknown label')
    tree = nav.outline_tree(doc, index)
    if tree:
        out.add('outlines')
    if len({f for pv in pvs for f in pv.used_fonts}) > 1:
        out.add('fonts')
    if len(pvs) > 1:
        out.add('pages')
    return doc, pvs


STANDARD = {'Helvetica', 'Helvetica-Bold', 'Helvetica-Oblique',
            'Helvetica-BoldOblique', 'Times-Roman', 'Times-Bold',
            'Times-Italic', 'Times-BoldItalic', 'Courier', 'Courier-Bold',
            'Courier-Oblique', 'Courier-BoldOblique', 'Symbol',
            'ZapfDingbats'}


def check_font(doc, name, f):
    require(isinstance(f, dict) and f.get('Type') == 'Font', 'font %s is %r',
            name, f)
    require(isinstance(f.get('BaseFont'), Name), 'font %s has BaseFont %r',
            name, f.get('BaseFont'))
    if f.get('Subtype') == 'Type1':
        require(str(f['BaseFont']) in STANDARD, 'font %s without font program '
                'is no standard font: %r', name, f['BaseFont'])
        enc = doc.resolve(f.get('Encoding'))
        require(enc is None or enc == 'WinAnsiEncoding', 'encoding %r', enc)
    else:
        require(f.get('Subtype') in ('Type0', 'TrueType'), 'font %s of '
                'subtype %r', name, f.get('Subtype'))


def check_image(doc, name, im):
    require(isinstance(im, Stream), 'image %s is no stream', name)
    d = im.dict
    require(d.get('Subtype') == 'Image', 'XObject %s is %r', name, d)
    for k in ('Width', 'Height', 'BitsPerComponent'):
        v = doc.resolve(d.get(k))
        require(isinstance(v, int) and v > 0, 'image %s has %s %r', name, k,
                v)
    require(doc.resolve(d.get('ColorSpace')) in (
        'DeviceRGB', 'DeviceGray', 'DeviceCMYK'), 'image %s has ColorSpace '
        '%r', name, d.get('ColorSpace'))


def check_annot(doc, a):
    require(isinstance(a, dict) and a.get('Subtype') == 'Link',
            'annotation is %r', a)
    r = doc.resolve(a.get('Rect'))
    require(isinstance(r, list) and len(r) == 4 and all(map(number, r)),
            'link with Rect %r', r)
    if 'Dest' in a:
        require(isinstance(doc.resolve(a['Dest']), (Str, Name)),
                'link with Dest %r', a['Dest'])
    else:
        act = doc.resolve(a.get('A'))
        require(isinstance(act, dict) and act.get('S') == 'URI' and
                isinstance(doc.resolve(act.get('URI')), Str),
                'link with action %r', act)


# a PDF object ------------------------------------------------------------------

META = st.text(st.sampled_from('ab ()\\<>[]{}/%#\r\n\t\xe9\xff'), max_size=8)


def case_a():
    return st.fixed_dictionaries({
        'blocks': st.lists(gendoc.block(), min_size=1, max_size=7),
        'level': st.integers(1, 3),
        'write_at': st.lists(st.integers(0, 6), max_size=2),
        'info': st.one_of(st.none(), st.dictionaries(
            st.sampled_from(['Title', 'Author', 'Key words', 'A#b', '(x)']),
            META, min_size=1, max_size=3)),
        'own': st.one_of(st.none(), META),
    })


def check_pdf(c):
    from pdfme import PDF
    out = set()
    with sut():
        pdf = PDF(outlines_level=c['level'])
        pdf.add_page()
        if c['info']:
            info = pdf.base.add(dict(c['info']))
            pdf.base.trailer['Info'] = info.id
            out.add('metadata')
        if c['own'] is not None:
            pdf.base.add({'__stream__': c['own'].encode('latin-1')})
    for i, b in enumerate(c['blocks']):
        with sut():
            gendoc.add_block(pdf, b, i)
        if i in c['write_at']:
            valid(write(pdf), out)
            out.add('written in between')
    doc, pvs = valid(write(pdf), out)
    require(len(pvs) == len(pdf.pages), 'the file has %d pages, the document '
            '%d', len(pvs), len(pdf.pages))
    if c['info']:
        got = doc.resolve(doc.trailer.get('Info'))
        want = {k: v.encode('latin-1') for k, v in c['info'].items()}
        require({str(k): bytes(v) for k, v in got.items()} == want,
                'the metadata are %r instead of %r', got, want)
    return Info(bool(out - {'written in between'}), out)


# documents ---------------------------------------------------------------------

def check_doc(c):
    import io
    from pdfme import build_pdf
    out = set()
    b = io.BytesIO()
    with sut('build_pdf'):
        build_pdf(gendoc.document_desc(c), b)
    doc, pvs = valid(b.getvalue(), out)
    if any(e['t'] == 'foot' for s in c['sections'] for e in s['els']):
        out.add('footnotes')
    if any(s['running'] for s in c['sections']):
        out.add('running sections')
    return Info(bool(out), out)


PARTS = [Part('pdf', case_a, check_pdf, 700, 15000),
         Part('documents', gendoc.document, check_doc, 500, 10000)]
