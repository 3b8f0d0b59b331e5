"""Helpers shared by the checks."""
import io

from .harness import Violation, fail, quiet, require, sut  # noqa: F401
from .interp import PageView, page_list, view
from .pdfread import PdfError, read_pdf


def write(pdf):
    """Bytes written by any object with an output(buffer) method."""
    b = io.BytesIO()
    with sut('output'):
        pdf.output(b)
    return b.getvalue()


def parse(data):
    try:
        return read_pdf(data)
    except PdfError as e:
        raise Violation('the written file is not valid PDF: %s' % e)


def pages(data):
    """Parsed document and its interpreted pages."""
    doc = parse(data) if isinstance(data, bytes) else data
    try:
        return doc, view(doc)
    except PdfError as e:
        raise Violation('the written file is not valid PDF: %s' % e)


def render(pdf):
    return pages(write(pdf))


def build(document, context=None):
    """build_pdf on a document description -> (doc, pages)"""
    from pdfme import build_pdf
    b = io.BytesIO()
    with sut('build_pdf'):
        if context is None:
            build_pdf(document, b)
        else:
            build_pdf(document, b, context)
    return pages(b.getvalue())


def pdf_bytes(text):
    """The bytes of a PDF text string: latin-1 or UTF-16BE with BOM."""
    try:
        return text.encode('latin-1')
    except UnicodeEncodeError:
        return b'\xfe\xff' + text.encode('utf-16-be')
