"""C37: a call that raises an error leaves documents as they were."""
import contextlib
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from checks import c32
from checks.c25 import contents, describe, same as same_files
from checks.c28 import ATTRS, MARGINS, SIZES, one, op_st
from lib import gendoc
from lib.common import pages, require, sut, write
from lib.harness import Info, Part, Violation

TECHNIQUE = ('stateful property-based testing (Hypothesis) with injected '
             'faults: histories with calls that fail against the same '
             'histories without them; descriptions refused, corrected and '
             'built again against fresh ones')
LEVEL_NOTE = ('Random search over histories of up to 12 calls with up to '
              'four faults (wrong arguments, missing or damaged images, '
              'writes that fail after a number of bytes) and over '
              'descriptions with up to three. Held on all generated cases, '
              'not proved.')
RULE = ('(a) sequences of calls on one PDF object with calls that fail in '
        'between; pages, links, labels and outlines of the files written '
        'afterwards are compared with those of the same history without the '
        'faults. (b) document descriptions that are refused because of one '
        'of their parts, corrected and built again, compared with '
        'descriptions that had nothing wrong. Non-trivial: a call failed '
        'after something was drawn and something is drawn later (a), the '
        'description was refused (b).')

# what is wrong ------------------------------------------------------------------

STYLES = ['zz', 'b:2x', 's:abc', 's', 'c:nocolor', 'c:0.1 x', 'f:Nope',
          'bg:nocolor', 'b;zz;i']
PART = st.one_of(
    one(*STYLES).map(lambda s: ['string', s]),
    one({'f': 'Nope'}, {'s': 'big'}, {'c': 'nocolor'},
        {'bg': 'nocolor'}).map(lambda s: ['dict', s]),
    st.just(['name', 'missing']),
    one('wr\u20acng', '\u65e5', 'x \u2026', 'word ' * 40 + 'l\u2019ast').map(
        lambda s: ['char', s]))
IMAGE = one(['missing', 'jpg'], ['missing', 'png'], ['garbage', 'jpg'],
            ['garbage', 'png'], ['cut', 'jpg'], ['ext', 'xyz'],
            ['noname', 'jpg'])
TABLE = one('long', 'short', 'widths', 'border', 'fill', 'cell', 'style',
            'cellimage')
WHERE = one('text', '_text', 'content', '_content', 'box', 'cols', 'group',
            'cell', 'table', '_table', 'list', 'footnote')


def bad_st():
    def bad(kind, **kw):
        return st.fixed_dictionaries(dict(
            {'op': st.just('bad'), 'kind': st.just(kind),
             'words': st.integers(0, 12), 'tag': st.integers(0, 7),
             'later': st.integers(0, 3), 'twice': st.booleans(), 'y': one(0, 60, 150)}, **kw))
    return st.one_of(
        bad('text', what=PART, where=WHERE),
        bad('text', what=PART, where=WHERE),
        bad('image', what=IMAGE, where=one(
            'image', 'content', 'box', 'cols', 'group', 'cell')),
        bad('table', what=TABLE, where=one('table', '_table', 'content',
                                           'group', 'cols')),
        bad('page', what=one({'page_size': 'zz'}, {'margin': 'a b'},
                             {'page_size': [1, 2, 3]},
                             {'page_size': [300, 420], 'margin': 'a b'},
                             {'rotate_page': True, 'margin': 'a b'},
                             {'rotate_page': True, 'page_size': 'zz'},
                             {'margin': 5, 'page_size': 'zz'})),
        bad('setup', what=one({'page_size': 'zz'}, {'margin': 'a b'})),
        bad('write', what=st.one_of(st.integers(0, 40),
                                    st.integers(0, 30000))))


def bad_text(what, words, tag):
    """A paragraph with something wrong in it, after parts that are right"""
    parts = []
    if words:
        d = {'.': ' '.join('bad%d' % i for i in range(words)) + ' '}
        for i, k in enumerate(('label', 'ref', 'uri')):
            if tag >> i & 1:
                d[k] = 'badtag'
        if tag & 1:
            d['outline'] = {'text': 'bad', 'level': 1}
        parts.append(d)
    kind, value = what
    if kind == 'string':
        parts.append({'.' + value: 'wrong'})
    elif kind == 'char':
        # Helvetica does not have all of its characters
        parts.append(value)
    else:
        parts.append({'.': 'wrong', 'style': value})
    return {'.': parts}


def bad_image(what):
    kind, ext = what
    if kind == 'missing':
        return {'image': '/nonexistent/image.' + ext}
    b = b'\xff\xd8\xff\xe0\x00\x04ab\xff\xc0' if kind == 'cut' else b'garbage'
    d = {'image': io.BytesIO(b), 'extension': ext}
    if kind != 'noname':
        d['image_name'] = 'bad'
    return d


def bad_table(what, words):
    w = 'bad ' * words
    rows = [[w + 'a', 'b'], ['c', 'd']]
    d = {'table': rows}
    if what == 'long':
        rows.append(['e', 'f', 'g'])
    elif what == 'short':
        rows.append(['e'])
    elif what == 'widths':
        d['widths'] = [1, 2, 3]
    elif what == 'border':
        d['borders'] = [{'pos': 'h0;:', 'color': 'nocolor'}]
    elif what == 'fill':
        d['fills'] = [{'pos': '1:2;:', 'color': 'nocolor'}]
    elif what == 'cell':
        rows[1][1] = {'.': 'x', 'style': {'cell_fill': 'nocolor'}}
    elif what == 'style':
        d['style'] = {'border_color': 'nocolor'}
    else:
        rows[1][0] = bad_image(['missing', 'jpg'])
    return d


def fillers(n):
    return ['later %d' % i for i in range(n)]


def bad_call(pdf, o):
    kind, what = o['kind'], o['what']
    if kind == 'page':
        return pdf.add_page(**what)
    if kind == 'setup':
        return pdf.setup_page(**what)
    if kind == 'write':
        return pdf.output(Full(what))
    if kind == 'text':
        e = bad_text(what, o['words'], o['tag'])
    elif kind == 'image':
        e = bad_image(what)
        if o['where'] == 'image':
            return pdf.image(**e)
    else:
        e = bad_table(what, o['words'])
    call_with(pdf, o['where'], e, o)


def call_with(pdf, where, e, o):
    els = fillers(o['later'])
    if where in ('text', '_text') and '.' in e:
        return getattr(pdf, where)(e)
    if where == 'list' and '.' in e:
        return pdf.text(e, list_text='1. ')
    if where == 'footnote' and '.' in e:
        e = {'.': ['bad ', {'footnote': e, '.': 'x'}]}
        e['.'].append(bad_text(['dict', {'f': 'Nope'}], 0, 0))
    if where in ('table', '_table') and 'table' in e:
        kw = dict(e)
        return getattr(pdf, where)(kw.pop('table'), **kw)
    if where in ('cell', 'table', '_table'):
        rows = [['bad ' * o['words'] + 'a', 'b'], ['c', e]] + [
            [f, f] for f in els]
        return getattr(pdf, '_table' if where == '_table' else 'table')(rows)
    d = {'content': ['bad ' * o['words'] + 'box', e] + els}
    if where == 'box':
        d = {'content': ['before', dict(d, style={'b': 1, 'c': 'red',
                                                  'margin_left': 20})] + els}
    elif where == 'cols':
        d['cols'] = {'count': 2, 'gap': 10}
    elif where == 'group':
        d = {'content': ['before', {'group': d['content']}] + els}
    return getattr(pdf, '_content' if where == '_content' else 'content')(d)


class Full(io.RawIOBase):
    """A file that can't be written any more after some bytes"""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def writable(self):
        return True

    def write(self, b):
        if len(b) > self.n:
            self.n = 0
            raise OSError(28, 'No space left on device')
        self.n -= len(b)
        return len(b)


# (a) calls ----------------------------------------------------------------------

def case_st():
    tag = st.fixed_dictionaries({
        'op': st.just('tag'), 'level': st.integers(0, 3),
        'title': one(None, 'Title', '(a'), 'label': one(None, 'a', 'z'),
        'ref': one(None, 'a', 'z'), 'uri': one(None, None, 'http://a.b/')})
    weights = st.integers(0, 9)
    bad = bad_st()
    ops = op_st()
    return st.fixed_dictionaries({
        'size': SIZES, 'margin': MARGINS, 'rotate': st.booleans(),
        'attrs': ATTRS, 'offset': one(0, 0, 7), 'depth': one(1, 2, 3),
        'many': one(0, 0, 3), 'moments': st.lists(st.integers(0, 20),
                                                  max_size=2),
        'ops': st.lists(weights.flatmap(
            lambda k: bad if k < 3 else tag if k < 5 else ops),
            min_size=5, max_size=14)})


class Run(c32.Run):
    """A history where some calls fail"""

    def __init__(self, c, faults):
        super().__init__(c)
        self.faults = faults
        self.failed = []
        self.drawn = 0

    def apply(self, o):
        if o['op'] != 'bad':
            if o['op'] not in ('setup', 'goto', 'attrs', 'cursor', 'section'):
                self.drawn += 1
            return super().apply(o)
        if not self.faults or (self.cur is None and o['kind'] not in (
                'page', 'setup', 'write')):
            return
        pdf = self.pdf
        draws = o['kind'] in ('text', 'image', 'table')
        if self.cur is not None:
            page = pdf.page
            before = page.x, page.y
        if draws:
            page.x = page.margin_left
            page.y = page.margin_top + o['y']
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                bad_call(pdf, o)
        except Exception as e:
            self.failed.append((o['kind'], self.drawn, e))
            if o['twice'] and o['kind'] != 'write':
                self.again(o, e)
            if o['kind'] == 'write' and self.cur is not None:
                require(isinstance(e, OSError), 'a file that can not be '
                        'written raised %r', e)
        else:
            if o['kind'] != 'write':
                raise Accepted()
        if draws or o['twice'] and self.cur is not None:
            page.x, page.y = before


    def again(self, o, e):
        if self.cur is not None:
            page = self.pdf.page
            page.x, page.y = page.margin_left, page.margin_top + o['y']
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                bad_call(self.pdf, o)
        except Exception:
            return
        raise Violation('a call that failed (%s: %s) is accepted when it is '
                        'made again' % (type(e).__name__, e))


class Accepted(Exception):
    """What was thought wrong is not"""


def history(c, faults):
    h = Run(c, faults)
    for i, o in enumerate(c['ops']):
        if faults and i in c['moments'] and h.cur is not None:
            write(h.pdf)
        h.apply(o)
    if h.cur is None:
        h.apply(dict(op='page', size=None, rotate=None, margin=None))
    return h


def check(c):
    try:
        h = history(c, True)
    except Accepted:
        return Info(False, ['accepted'])
    got = pages(write(h.pdf))
    alone = history(c, False)
    what = 'the document, and the same with %d failed calls (%s),' % (
        len(h.failed), ', '.join('%s: %s %s' % (k, type(e).__name__, str(
            e)[:40]) for k, _, e in h.failed))
    require(h.pdf.page_index == alone.pdf.page_index,
            '%s: the current page is %d and %d', what, alone.pdf.page_index,
            h.pdf.page_index)
    c32.same(pages(write(alone.pdf)), got, what)
    return Info(any(0 < d < h.drawn for _, d, _ in h.failed),
                {k for k, _, _ in h.failed})


# (b) descriptions ---------------------------------------------------------------

FAULT = st.one_of(
    st.fixed_dictionaries({
        'f': one('element', 'element', 'cell', 'part'), 'at': st.integers(0, 60),
        'kind': one('text', 'image', 'table'), 'text': PART, 'image': IMAGE,
        'table': TABLE, 'words': st.integers(0, 12), 'tag': st.integers(0, 7),
        'deep': st.booleans()}),
    st.fixed_dictionaries({
        'f': one('file', 'format', 'variable'), 'at': st.integers(0, 60)}),
    st.fixed_dictionaries({
        'f': one('document', 'section', 'running', 'page'),
        'at': st.integers(0, 60),
        'style': one({'page_size': 'zz'}, {'margin': 'a b'}, {'f': 'Nope'},
                     {'c': 'nocolor'}, {'s': 'x'})}),
    st.fixed_dictionaries({'f': st.just('write'),
                           'n': st.integers(0, 30000)}))


def rebuild_st():
    return st.fixed_dictionaries({
        'plan': gendoc.document(), 'twice': one(False, False, True),
        'faults': st.lists(FAULT, min_size=1, max_size=3)})


def slots(desc):
    """Where elements, cells and parts of paragraphs are"""
    out = {'element': [], 'cell': [], 'part': []}

    def walk(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ('content', 'group') and isinstance(v, list):
                    out['element'] += [(v, i) for i in range(len(v) + 1)]
                elif k == 'table':
                    out['cell'] += [(r, i) for r in v for i in range(len(r))
                                    if r[i] is not None]
                elif isinstance(k, str) and k.startswith('.') and \
                        isinstance(v, list):
                    out['part'] += [(v, i) for i in range(len(v) + 1)]
                walk(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                walk(v)
    walk(desc['sections'])
    walk(desc['running_sections'])
    return out


def to_come(desc, faults, folder):
    """Add what only works once something outside of it is there"""
    for k, f in enumerate(faults):
        if f['f'] == 'file':
            e = {'image': os.path.join(folder, 'im%d.jpg' % k),
                 'style': {'min_height': 5}}
        elif f['f'] == 'format':
            e = {'.': ['in the', {'.': ' format', 'style': 'late%d' % k}],
                 'style': 'late%d' % k}
        elif f['f'] == 'variable':
            e = {'.': ['the ', {'var': 'late%d' % k}, '.']}
        else:
            continue
        els = desc['sections'][f['at'] % len(desc['sections'])]['content']
        els.insert(f['at'] % (len(els) + 1), e)


@contextlib.contextmanager
def wrong(desc, f, where):
    """Have something wrong in a description for a while"""
    kind = f['f']
    if kind in ('element', 'part', 'cell'):
        if not where[kind]:
            yield False
            return
        lst, i = where[kind][f['at'] % len(where[kind])]
        if f['kind'] == 'text' or kind == 'part':
            e = bad_text(f['text'], f['words'], f['tag'])
        elif f['kind'] == 'image':
            e = bad_image(f['image'])
        else:
            e = bad_table(f['table'], f['words'])
        if f['deep'] and kind != 'part':
            e = {'content': ['x', {'content': [e, 'y']}], 'style': {'i': 1}}
        old = list(lst)
        if kind == 'cell':
            lst[i] = e
        else:
            lst.insert(i, e)
        yield True
        # only what was wrong is taken away again
        if kind == 'cell':
            lst[i] = old[i]
        else:
            del lst[i]
    elif kind == 'running':
        s = desc['sections'][f['at'] % len(desc['sections'])]
        s['running_sections'].append('missing')
        yield True
        s['running_sections'].remove('missing')
    else:
        if kind == 'page' and desc['per_page']:
            d = desc['per_page'][f['at'] % len(desc['per_page'])]
        elif kind == 'document':
            d = desc
        else:
            d = desc['sections'][f['at'] % len(desc['sections'])]
        d = d.setdefault('style', {})
        old = dict(d)
        d.update(f['style'])
        yield True
        for k in f['style']:
            if k in old:
                d[k] = old[k]
            else:
                del d[k]


def check_rebuild(c):
    folder = tempfile.mkdtemp(prefix='c37-')
    try:
        return rebuild(c, folder)
    finally:
        shutil.rmtree(folder)


def build(desc, buffer, context):
    from pdfme import build_pdf
    with contextlib.redirect_stderr(io.StringIO()):
        build_pdf(desc, buffer, context)


def rebuild(c, folder):
    faults = c['faults']
    desc = describe(c['plan'])
    to_come(desc, faults, folder)
    where = slots(desc)
    # what goes in later cells and lists is found before anything is wrong
    context = {}
    refused = []
    late = [k for k, f in enumerate(faults) if f['f'] in (
        'file', 'format', 'variable')]

    def attempt(name):
        for again in range(2 if c['twice'] else 1):
            try:
                build(desc, io.BytesIO(), context)
            except Exception as e:
                refused.append((name, e))
            else:
                if again:
                    raise Violation('a description that was refused (%s: %s) '
                                    'is accepted when it is built again' % (
                                        refused[-1]))
                raise Accepted()
    try:
        for f in faults:
            if f['f'] == 'write':
                if late:
                    continue
                try:
                    build(desc, Full(f['n']), context)
                except OSError as e:
                    refused.append((f['f'], e))
            elif f['f'] not in ('file', 'format', 'variable'):
                with wrong(desc, f, where) as there:
                    if there:
                        attempt(f['f'])
        for k in late:
            attempt(faults[k]['f'])
            put(faults[k]['f'], k, desc, context, folder)
    except Accepted:
        return Info(False, ['accepted'])
    b = io.BytesIO()
    with sut('build_pdf of a description that was refused before (%s)' %
             ', '.join(n for n, _ in refused)):
        build(desc, b, context)
    fresh = describe(c['plan'])
    to_come(fresh, faults, folder)
    context = {}
    for k in late:
        put(faults[k]['f'], k, fresh, context, folder)
    b2 = io.BytesIO()
    with sut('build_pdf'):
        build(fresh, b2, context)
    same_files(contents(b2.getvalue()), contents(b.getvalue()),
               'that the description was refused before (%s) changed' %
               ', '.join('%s: %s' % (n, type(e).__name__)
                         for n, e in refused))
    return Info(bool(refused), {n for n, _ in refused})


def put(kind, k, desc, context, folder):
    """What was missing"""
    if kind == 'file':
        with open(os.path.join(folder, 'im%d.jpg' % k), 'wb') as f:
            f.write(gendoc.image_bytes(k, [30, 20]))
    elif kind == 'format':
        desc['formats']['late%d' % k] = {'b': 1, 'c': 'red'}
    else:
        context['late%d' % k] = 'value'


PARTS = [Part('calls', case_st, check, 2000, 40000),
         Part('rebuild', rebuild_st, check_rebuild, 700, 14000)]
