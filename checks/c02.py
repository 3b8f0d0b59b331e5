"""C02: values added to a PDF file read back as the same values."""
import io

from hypothesis import strategies as st

from lib.common import parse, require, sut, fail
from lib.harness import Info, Part
from lib.pdfread import Name, Ref, Str, Stream

RULE = ('Cases are lists of nested values (dict, list, tuple, set, str, bool, '
        'int, float, raw bytes, references) added to a PDFBase and read back '
        'from the written bytes by an independent reader that follows the '
        'xref. Non-trivial: some value is nested at least two levels deep, '
        'or contains a string with an escape-relevant character or a float.')

TECHNIQUE = ('property-based testing (Hypothesis): round trip of generated '
             'nested values through the written file')
LEVEL_NOTE = ('Random search over nested values of every supported type, with '
              'an independent strict PDF reader as oracle; held on all '
              'generated cases, not proved. Trusts the reader in lib/pdfread.')

latin = st.characters(min_codepoint=0, max_codepoint=255)
special = st.sampled_from(['(', ')', '\\', '\r', '\n', '\r\n', '\\(', '))',
                           '((', '\\\\', '\\n', '\\053', '\t', '\x00', '%',
                           '<<', '>>', '\xe9', ' ', 'a', '/'])
strings = st.one_of(st.text(latin, max_size=12),
                    st.lists(special, max_size=6).map(''.join))
keys = st.one_of(
    st.text(st.sampled_from('ABCabcxyz019_.-+*'), min_size=1, max_size=8),
    st.text(st.characters(min_codepoint=1, max_codepoint=255), min_size=1,
            max_size=5))
floats = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False, width=64,
              min_value=-1e12, max_value=1e12),
    st.floats(min_value=-1e-3, max_value=1e-3),
    st.sampled_from([0.0, -0.0, 1e-7, -2.5e-9, 1e16, 1.5e22, 0.1, 595.276,
                     1e-300, 123456789.125]),
    st.integers(-10**6, 10**6).map(lambda n: n / 1000))
raws = st.sampled_from(['/Name', '/A#42', '(raw)', '<41>', 'true', 'null',
                        '-3.5', '17', '[1 2/A]', '<</K 1>>'])
leaf = st.one_of(
    strings.map(lambda s: ['s', s]), strings.map(lambda s: ['s', s]),
    st.integers(-10**12, 10**12).map(lambda n: ['i', n]),
    floats.map(lambda f: ['f', repr(f)]),
    st.booleans().map(lambda b: ['b', b]),
    raws.map(lambda s: ['r', s]),
    st.integers(0, 9).map(lambda n: ['ref', n]),
    st.integers(0, 9).map(lambda n: ['obj', n]))
value = st.recursive(leaf, lambda ch: st.one_of(
    st.lists(ch, max_size=5).map(lambda l: ['L', l]),
    st.lists(ch, max_size=4).map(lambda l: ['T', l]),
    st.lists(st.tuples(keys, ch), max_size=5, unique_by=lambda kv: kv[0])
    .map(lambda l: ['D', [list(kv) for kv in l]])), max_leaves=12)
setv = st.lists(st.integers(-50, 50), max_size=5, unique=True).map(
    lambda l: ['S', l])
case = st.fixed_dictionaries({
    'values': st.lists(st.one_of(value, value, value, setv), min_size=1,
                       max_size=6),
    'given': st.booleans(),
    'trailer': st.lists(st.tuples(st.sampled_from(['Info', 'X', 'Y z']),
                                  value).map(list), max_size=2,
                        unique_by=lambda kv: kv[0]),
    'version': st.sampled_from(['1.5', '1.4', '1.7']),
    'replace': st.lists(st.tuples(st.integers(0, 5), value).map(list),
                        max_size=2),
})

RAW = {'/Name': Name('Name'), '/A#42': Name('AB'), '(raw)': Str(b'raw'),
       '<41>': Str(b'A'), 'true': True, 'null': None, '-3.5': -3.5,
       '17': 17, '[1 2/A]': [1, 2, Name('A')], '<</K 1>>': {'K': 1}}


def to_py(v, objs):
    t, x = v
    if t in 'sib':
        return x
    if t == 'f':
        return float(x)
    if t == 'r':
        return x.encode('latin-1')
    if t == 'ref':
        return objs[x % len(objs)].id
    if t == 'obj':
        # a PDFObject inside a value stands for the object's value; only
        # leaf objects are used, to keep the structure finite
        return objs[0]
    if t == 'L':
        return [to_py(e, objs) for e in x]
    if t == 'T':
        return tuple(to_py(e, objs) for e in x)
    if t == 'S':
        return set(x)
    return {k: to_py(e, objs) for k, e in x}


def same(v, got, objs, path):
    t, x = v
    bad = 'value at %s: wrote %r, read back %r'
    if t == 's':
        require(isinstance(got, Str), bad, path, x, got)
        require(bytes(got) == x.encode('latin-1'), bad, path, x, got)
    elif t == 'i':
        require(type(got) is int and got == x, bad, path, x, got)
    elif t == 'f':
        f = float(x)
        require(type(got) in (int, float) and
                abs(got - f) <= 1e-12 * max(abs(f), abs(got)), bad, path, x,
                got)
    elif t == 'b':
        require(got is x, bad, path, x, got)
    elif t == 'r':
        require(got == RAW[x] and type(got) is type(RAW[x]), bad, path, x, got)
    elif t == 'ref':
        n = int(objs[x % len(objs)].id)
        require(isinstance(got, Ref) and got == Ref(n, 0), bad, path,
                '%d 0 R' % n, got)
    elif t == 'obj':
        require(type(got) is int and got == 42, bad, path, 'object 1 (42)',
                got)
    elif t in 'LT':
        require(isinstance(got, list) and len(got) == len(x), bad, path, x,
                got)
        for i, (e, g) in enumerate(zip(x, got)):
            same(e, g, objs, '%s[%d]' % (path, i))
    elif t == 'S':
        require(isinstance(got, list) and sorted(got) == sorted(x), bad, path,
                x, got)
    else:
        require(isinstance(got, dict), bad, path, x, got)
        require(sorted(got) == sorted(k for k, _ in x),
                'keys at %s: wrote %r, read back %r', path,
                sorted(k for k, _ in x), sorted(got))
        for k, e in x:
            same(e, got[Name(k)], objs, '%s/%s' % (path, k))


def depth(v):
    t, x = v
    if t in 'LT':
        return 1 + max([depth(e) for e in x] or [0])
    if t == 'D':
        return 1 + max([depth(e) for _, e in x] or [0])
    return 0


def leaves(v):
    t, x = v
    if t in 'LT':
        for e in x:
            yield from leaves(e)
    elif t == 'D':
        for k, e in x:
            yield ('k', k)
            yield from leaves(e)
    else:
        yield (t, x)


def objs_of(base, objs):
    return [base[o.id] for o in objs]


def check(c):
    from pdfme.base import PDFBase
    from pdfme.parser import PDFObject
    vals = [list(v) for v in c['values']]
    with sut():
        # keys of the trailer can be given before or after
        given = {k: to_py(v, []) for k, v in c['trailer']
                 if c['given'] and not any(
                     t in ('ref', 'obj') for t, _ in leaves(v))}
        base = PDFBase(c['version'], given) if c['given'] else \
            PDFBase(c['version'])
        objs = [base.add(42)]
        root = base.add({'Type': b'/Catalog'})
        objs.append(root)
        # placeholders so that references may point forwards
        for v in vals:
            objs.append(base.add(0))
        for k, v in c['replace']:
            if k < len(vals):
                vals[k] = v
        for i, v in enumerate(vals):
            o = objs[i + 2]
            if i % 2:
                o.value = to_py(v, objs)
            else:
                base[o.id] = PDFObject(o.id, to_py(v, objs))
        base.trailer['Root'] = root.id
        require(len(base) == len(objs) and [o for o in base if o is not None]
                == objs_of(base, objs), 'the objects of a PDFBase are not '
                'those added')
        for k, v in c['trailer']:
            if k in given:
                continue
            base.trailer[k] = to_py(v, objs)
        b = io.BytesIO()
        base.output(b)
    doc = parse(b.getvalue())
    require(doc.version == c['version'], 'header version %s, asked for %s',
            doc.version, c['version'])
    require(len(doc.objects) == len(objs), '%d objects written, %d added',
            len(doc.objects), len(objs))
    for i, v in enumerate(vals):
        got = doc.objects[int(objs[i + 2].id)]
        same(v, got, objs, 'object %d' % (i + 1))
    for k, v in c['trailer']:
        require(k in doc.trailer, 'trailer key %r lost', k)
        same(v, doc.trailer[k], objs, 'trailer/%s' % k)
    allv = vals + [v for _, v in c['trailer']]
    lv = [x for v in allv for x in leaves(v)]
    esc = any(t == 's' and any(ch in '()\\\r\n' for ch in x) for t, x in lv)
    labels = ['depth %d' % min(4, max(depth(v) for v in allv))]
    if esc:
        labels.append('escape-relevant string')
    if any(t == 's' and any(ord(ch) > 127 for ch in x) for t, x in lv):
        labels.append('latin-1 string')
    if any(t == 'f' for t, x in lv):
        labels.append('float')
    if any(t == 'f' and 'e' in x for t, x in lv):
        labels.append('float with exponent')
    if any(t == 'k' and not x.isalnum() for t, x in lv):
        labels.append('key with special characters')
    if any(t == 'ref' for t, x in lv):
        labels.append('reference')
    nt = esc or 'float' in labels or max(depth(v) for v in allv) >= 2
    return Info(nt, labels)


# stream dictionaries and unsupported values -----------------------------

def check_types(c):
    """Values of unsupported types are refused when they are added."""
    from pdfme.base import PDFBase
    bad = {'none': None, 'object': object(), 'complex': 1j,
           'bytearray': bytearray(b'x')}[c['bad']]
    base = PDFBase()
    try:
        base.add(bad)
    except TypeError:
        pass
    else:
        fail('add(%r) was accepted', bad)
    with sut():
        o = base.add({'Type': b'/Catalog'})
        base.trailer['Root'] = o.id
        b = io.BytesIO()
        base.output(b)
    doc = parse(b.getvalue())
    require(len(doc.objects) == 1, 'a refused object was added')
    return Info(True, [c['bad']])


PARTS = [
    Part('roundtrip', lambda: case, check, 2400, 40000),
    Part('refused', None, check_types, 0, 0, enumerate_=lambda: [
        {'bad': b} for b in ('none', 'object', 'complex', 'bytearray')]),
]
