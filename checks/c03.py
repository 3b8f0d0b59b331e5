"""C03: streams are stored losslessly and output is repeatable."""
import io
import re
import zlib

from hypothesis import strategies as st

from lib import gendoc
from lib.common import parse, pages, require, sut, write
from lib.harness import Info, Part
from lib.pdfread import Str, Stream

RULE = ('(a) streams with arbitrary bytes, given whole or in pieces, with and '
        'without filter and skipped encoding, written repeatedly with objects '
        'added in between and with writes that fail half way; (b) documents '
        'written, extended and written again, compared with a document built '
        'in one go. Non-trivial: at least one non-empty stream written twice '
        '(a), or a second write after more pages were added (b).')

TECHNIQUE = ('property-based testing (Hypothesis): stateful sequences of adds, '
             'writes and failing writes against a model')
LEVEL_NOTE = ('Random search over stream contents and operation sequences, '
              'and over whole documents written while being built; held on '
              'all generated cases, not proved.')

tricky = st.sampled_from([b'endstream', b'\nendstream\nendobj', b'\r', b'\n',
                          b'\r\n', b'stream\n', b'\x00', b'>>', b' ',
                          b'%%EOF', bytes(range(256)), b'x' * 5000,
                          b'(' * 101000])
data = st.one_of(st.binary(max_size=30),
                 st.lists(st.one_of(tricky, st.binary(max_size=6)),
                          max_size=5).map(b''.join)
                 ).map(lambda b: b.decode('latin-1'))
stream = st.fixed_dictionaries({
    'data': st.one_of(data, st.lists(data, max_size=5), st.lists(
        st.sampled_from(['a', 'b', 'c']), min_size=10, max_size=24)),
    'mode': st.sampled_from(['raw', 'flate', 'flate', 'skip']),
    'extra': st.sampled_from([None, 'Type', 'K']),
})
step = st.one_of(
    st.fixed_dictionaries({'op': st.just('add'), 's': stream}),
    st.fixed_dictionaries({'op': st.just('write')}),
    st.fixed_dictionaries({'op': st.just('append'), 'k': st.integers(0, 5),
                           'd': data}),
    st.fixed_dictionaries({'op': st.just('fail'),
                           'at': st.integers(0, 12)}))
case_a = st.lists(step, min_size=1, max_size=8)


class Full(Exception):
    pass


class Broken:
    def __init__(self, at):
        self.at = at

    def write(self, b):
        self.at -= 1
        if self.at < 0:
            raise Full()


def check_streams(c):
    from pdfme.base import PDFBase
    with sut():
        base = PDFBase()
        base.trailer['Root'] = base.add({'Type': b'/Catalog'}).id
    model = []           # (pieces list, mode, extra, object)
    writes = 0
    rewritten = False
    labels = set()
    prev = None

    def verify():
        nonlocal prev, writes, rewritten
        b = io.BytesIO()
        with sut('output'):
            base.output(b)
        doc = parse(b.getvalue())
        require(len(doc.objects) == 1 + len(model), 'objects lost')
        for i, (pieces, mode, extra, obj) in enumerate(model):
            s = doc.objects[int(obj.id)]
            want = ''.join(pieces).encode('latin-1')
            require(isinstance(s, Stream), 'stream %d is not a stream', i)
            if mode == 'skip':
                require(s.raw == zlib.compress(want),
                        'stream %d with skipped encoding was not stored '
                        'untouched', i)
            flt = s.dict.get('Filter')
            require(flt == (None if mode == 'raw' else 'FlateDecode'),
                    'stream %d has Filter %r', i, flt)
            require(s.data() == want, 'stream %d (%s) decodes to %r, stored '
                    '%r', i, mode, s.data()[:80], want[:80])
            keys = {'Length'} | ({extra} if extra else set()) | (
                {'Filter'} if mode != 'raw' else set())
            require(set(s.dict) == keys, 'stream %d dictionary has keys %r, '
                    'expected %r', i, sorted(s.dict), sorted(keys))
            if extra:
                require(s.dict[extra] == Str(b'v(\\'), 'stream %d lost its '
                        'entry %s', i, extra)
        if prev is not None and prev[0] == len(model) and prev[1] == \
                [tuple(m[0]) for m in model]:
            require(prev[2] == b.getvalue(), 'writing again without changes '
                    'gave a different file')
        if writes and any(''.join(m[0]) for m in model):
            rewritten = True
        prev = (len(model), [tuple(m[0]) for m in model], b.getvalue())
        writes += 1

    for s in c + [{'op': 'write'}, {'op': 'write'}]:
        if s['op'] == 'add':
            d = s['s']
            pieces = [d['data']] if isinstance(d['data'], str) else \
                list(d['data'])
            mode = d['mode']
            if mode == 'skip' and not isinstance(d['data'], str):
                pieces = [''.join(pieces)]
            raw = [p.encode('latin-1') for p in pieces]
            if mode == 'skip':
                st_ = zlib.compress(raw[0])
            elif isinstance(d['data'], str):
                st_ = raw[0]
            else:
                st_ = {i: p for i, p in enumerate(raw)}
                labels.add('stream in pieces')
            obj = {'__stream__': st_}
            if mode != 'raw':
                obj['Filter'] = b'/FlateDecode'
            if mode == 'skip':
                obj['__skip_filter__'] = True
            if d['extra']:
                obj[d['extra']] = 'v(\\'
            with sut():
                model.append([pieces, mode, d['extra'], base.add(obj)])
            labels.add(mode)
        elif s['op'] == 'append' and model:
            m = model[s['k'] % len(model)]
            st_ = m[3]['__stream__']
            if isinstance(st_, dict):
                st_[len(st_)] = s['d'].encode('latin-1')
                m[0] = m[0] + [s['d']]
                labels.add('extended after write' if writes else 'extended')
        elif s['op'] == 'fail':
            try:
                base.output(Broken(s['at']))
            except Full:
                labels.add('write that failed')
        elif s['op'] == 'write':
            verify()
    return Info(rewritten, labels)


# whole documents -----------------------------------------------------------

def case_b():
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10**6),
        'blocks': st.lists(gendoc.block(), min_size=1, max_size=6),
        'writes': st.lists(st.integers(1, 2), min_size=1, max_size=6),
    })


def summary(data):
    doc, pvs = pages(data)
    from lib import nav
    out = []
    for pv in pvs:
        out.append((pv.width, pv.height, pv.raw,
                    nav.annots_summary(doc, pv)))
    index = {p.page['__ref__']: p.index for p in pvs}
    dests = nav.dests(doc, index)
    outl = nav.outline_tree(doc, index)
    # outlines without label get random names
    anon = {}
    for o in flat(outl):
        if UUID.fullmatch(o[1] or ''):
            anon[o[1].encode()] = 'anonymous %d' % len(anon)
            o[1] = anon[o[1].encode()]
    return {'pages': out, 'outlines': outl,
            'dests': {anon.get(k, k): v for k, v in dests.items()}}


UUID = re.compile('[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}')


def flat(items):
    for o in items:
        yield o
        yield from flat(o[3])


def check_docs(c):
    from pdfme import PDF
    with sut():
        ref = PDF(outlines_level=2)
        ref.add_page()
    a = None
    with sut():
        a = PDF(outlines_level=2)
        a.add_page()
    again = False
    for i, b in enumerate(c['blocks']):
        with sut():
            gendoc.add_block(a, b, i)
            gendoc.add_block(ref, b, i)
        n = c['writes'][i % len(c['writes'])]
        datas = [write(a) for _ in range(n if i < len(c['blocks']) - 1
                                         else 2)]
        sums = [summary(d) for d in datas]
        for s in sums[1:]:
            compare(sums[0], s, 'writing the document again changed')
            again = True
    compare(summary(write(ref)), sums[-1],
            'a document written while it was being built differs from the '
            'same document written once in')
    return Info(len(c['blocks']) > 1, ['%d blocks' % len(c['blocks'])] + (
        ['outlines'] if sums[-1]['outlines'] else []) + (
        ['dests'] if sums[-1]['dests'] else []))


def compare(x, y, msg):
    for k in ('dests', 'outlines'):
        require(x[k] == y[k], '%s the %s: %r / %r', msg, k, x[k], y[k])
    require(len(x['pages']) == len(y['pages']), '%s the pages', msg)
    for i, (p, q) in enumerate(zip(x['pages'], y['pages'])):
        for k, what in enumerate(('width', 'height', 'contents', 'links')):
            if what == 'links':
                require(p[k] == q[k], '%s the links of page %d: %r / %r', msg,
                        i, p[k], q[k])
            else:
                require(p[k] == q[k], '%s the %s of page %d', msg, what, i)


PARTS = [
    Part('streams', lambda: case_a, check_streams, 1600, 30000),
    Part('documents', case_b, check_docs, 240, 5000),
]
