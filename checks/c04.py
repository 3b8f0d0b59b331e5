"""C04: the page tree lists every page once, in order, at its size."""
from hypothesis import strategies as st

from lib import gendoc
from lib.common import pages, require, sut, write
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis): sequences of page setups '
             'against a reference model of the settings in force')
LEVEL_NOTE = ('Random search over sequences of page setups, added pages, '
              'overflowing text and intermediate writes. Held on all '
              'generated cases, not proved.')
RULE = ('Cases are sequences of constructor arguments, setup_page and '
        'add_page calls with sizes, rotations and margins in every accepted '
        'spelling, text and images at the default position, text that '
        'overflows, and writes. The pages read back are compared one by one '
        'with the model. Non-trivial: three or more pages and at least one '
        'setting besides the defaults.')
EPS = 0.01

SIZES = {'a5': (419.528, 595.276), 'a4': (595.276, 841.89),
         'a3': (841.89, 1190.551), 'b5': (498.898, 708.661),
         'b4': (708.661, 1000.63), 'jis-b5': (515.906, 728.504),
         'jis-b4': (728.504, 1031.812), 'letter': (612, 792),
         'legal': (612, 1008), 'ledger': (792, 1224)}

SIZE = st.one_of(
    st.sampled_from(sorted(SIZES)).map(lambda n: ['name', n]),
    st.sampled_from([300, 250.5, 417]).map(lambda n: ['number', n]),
    st.tuples(st.sampled_from(['list', 'tuple']), st.sampled_from(
        [[300, 400], [410.25, 260], [350, 350], [612, 300]])).map(list))
NUM = st.sampled_from([0, 10, 33, 56.5, 72.25, 25])
FULL = st.fixed_dictionaries({k: NUM for k in ('top', 'right', 'bottom',
                                               'left')})
SEQ = st.one_of(
    NUM.map(lambda v: ['number', v]),
    st.tuples(st.sampled_from(['list', 'tuple', 'spaces', 'commas', 'both']),
              st.lists(NUM, min_size=1, max_size=4)).map(list))
MARGIN = st.one_of(SEQ, SEQ, FULL.map(lambda d: ['dict', d]))
# the dict given for one page may leave out sides
PARTIAL = st.one_of(MARGIN, st.fixed_dictionaries({}, optional={
    'top': NUM, 'left': NUM, 'right': NUM, 'bottom': NUM}).map(
        lambda d: ['dict', d]))


def setting(margin):
    return st.fixed_dictionaries({}, optional={
        'size': SIZE, 'rotate': st.booleans(), 'margin': margin})


def case():
    op = st.one_of(
        st.fixed_dictionaries({'op': st.just('setup'),
                               'set': setting(MARGIN)}),
        st.fixed_dictionaries({'op': st.just('page'),
                               'set': setting(PARTIAL)}),
        st.fixed_dictionaries({'op': st.just('page'),
                               'set': setting(PARTIAL)}),
        st.fixed_dictionaries({'op': st.just('pages'),
                               'n': st.integers(2, 20)}),
        st.fixed_dictionaries({'op': st.just('long'),
                               'n': st.integers(30, 150)}),
        st.fixed_dictionaries({'op': st.just('image')}),
        st.just({'op': 'write'}))
    return st.fixed_dictionaries({'init': setting(MARGIN),
                                  'ops': st.lists(op, max_size=12)})


def size_arg(s):
    k, v = s
    return tuple(v) if k == 'tuple' else v


def size_of(s):
    k, v = s
    return SIZES[v] if k == 'name' else (v, v) if k == 'number' else tuple(v)


def margin_arg(m):
    k, v = m
    if k == 'tuple':
        return tuple(v)
    if k in ('spaces', 'commas', 'both'):
        return {'spaces': ' ', 'commas': ',', 'both': ', '}[k].join(
            map(str, v))
    return dict(v) if k == 'dict' else list(v) if k == 'list' else v


def margin_of(m):
    k, v = m
    if k == 'dict':
        return dict(v)
    if k == 'number':
        v = [v]
    t, r, b, l = {1: lambda a: (a, a, a, a), 2: lambda a, c: (a, c, a, c),
                  3: lambda a, c, d: (a, c, d, c),
                  4: lambda *a: a}[len(v)](*v)
    return {'top': t, 'right': r, 'bottom': b, 'left': l}


def args(s, names=('page_size', 'rotate_page', 'margin')):
    out = {}
    if 'size' in s:
        out['page_size'] = size_arg(s['size'])
    if 'rotate' in s:
        out['rotate_page'] = s['rotate']
    if 'margin' in s:
        out['margin'] = margin_arg(s['margin'])
    return out


class Model:
    def __init__(self, s):
        self.size = SIZES['a4']
        self.rotate = False
        self.margin = {k: 56.693 for k in ('top', 'right', 'bottom', 'left')}
        self.update(s)

    def update(self, s):
        if 'size' in s:
            self.size = size_of(s['size'])
        if 'rotate' in s:
            self.rotate = s['rotate']
        if 'margin' in s:
            self.margin = margin_of(s['margin'])

    def page(self, s):
        w, h = size_of(s['size']) if 'size' in s else self.size
        if s.get('rotate', self.rotate):
            w, h = h, w
        m = dict(self.margin)
        if 'margin' in s:
            m.update(margin_of(s['margin']))
        return {'w': w, 'h': h, 'm': m, 'image': False, 'full': False}


def check(c):
    from pdfme import PDF
    out = set()
    with sut('PDF'):
        pdf = PDF(**args(c['init']))
    model = Model(c['init'])
    want = []
    seq = []

    def add(s):
        with sut('add_page'):
            pdf.add_page(**args(s))
        want.append(model.page(s))
        require(len(pdf.pages) == len(want), 'add_page added %d pages',
                len(pdf.pages) - len(want) + 1)
        mark = 'p%d' % len(want)
        with sut('text'):
            pdf.text(mark)
        seq.append((mark, len(want) - 1))

    add({})
    for k, o in enumerate(c['ops']):
        if o['op'] == 'setup':
            with sut('setup_page'):
                pdf.setup_page(**args(o['set']))
            model.update(o['set'])
            out.add('setup')
        elif o['op'] == 'page':
            add(o['set'])
            if o['set']:
                out.add('own page settings')
        elif o['op'] == 'pages':
            for _ in range(o['n']):
                add({})
        elif o['op'] == 'long':
            lines = ['t%dn%d' % (k, i) for i in range(o['n'])]
            with sut('text'):
                pdf.text('\n'.join(lines))
            seq += [(t, None) for t in lines]
            for i in range(len(pdf.pages) - len(want)):
                want[-1]['full'] = True
                want.append(model.page({}))
            out.add('overflow')
        elif o['op'] == 'image':
            add({})
            p = want[-1]
            w = p['w'] - p['m']['left'] - p['m']['right']
            with sut('image'):
                pdf.add_page()
                pdf.image(*gendoc.image_arg({'k': 1, 'wh': [40, 20]}))
            want.append(model.page({}))
            want[-1]['image'] = w
            out.add('image')
        else:
            verify(write(pdf), want, seq)
            out.add('written in between')
    verify(write(pdf), want, seq)
    sets = [o.get('set') for o in c['ops']] + [c['init']]
    return Info(len(want) > 2 and any(sets), out)


def verify(data, want, seq):
    doc, pvs = pages(data)
    require(len(pvs) == len(want), '%d pages in the page tree, %d were added',
            len(pvs), len(want))
    at = 0
    for pv, p in zip(pvs, want):
        i, m = pv.index, p['m']
        require(abs(pv.width - p['w']) < EPS and abs(pv.height - p['h']) < EPS
                and pv.mediabox[0] == 0 == pv.mediabox[1],
                'page %d is %r instead of %r x %r', i, pv.mediabox, p['w'],
                p['h'])
        lines = []
        last = None
        for g in pv.glyphs:
            if g.y != last:
                lines.append([])
                last = g.y
            lines[-1].append(g)
        texts = [''.join(g.ch for g in l).strip() for l in lines]
        for t in texts:
            require(at < len(seq) and seq[at][0] == t and
                    seq[at][1] in (None, i), 'page %d shows %r where %r of '
                    'page %s was added', i, t, *(seq + [('nothing', '')])[at])
            at += 1
        if lines:
            require(abs(lines[0][0].x - m['left']) < EPS, 'page %d: text '
                    'starts at %.2f, the left margin is %.2f', i,
                    lines[0][0].x, m['left'])
            top = p['h'] - m['top'] - lines[0][0].y
            require(10.9 < top < 12.5 or p['image'], 'page %d: the first baseline is %.2f '
                    'below the top margin', i, top)
            low = lines[-1][0].y - m['bottom']
            require(low > -EPS or len(lines) < 2, 'page %d: text %.2f below '
                    'the bottom margin', i, -low)
            if p['full']:
                require(low < 14.5, 'page %d: text continues on another page '
                        'with %.2f free above the bottom margin', i, low)
        if p['image']:
            require(len(pv.images) == 1, 'page %d: no image', i)
            im = pv.images[0]
            require(abs(im.x - m['left']) < EPS and
                    abs(im.y + im.h - p['h'] + m['top']) < EPS and
                    abs(im.w - p['image']) < EPS, 'page %d: %r is not at '
                    'the margins %r of a page of %r x %r', i, im, m, p['w'],
                    p['h'])
        else:
            require(not pv.images, 'page %d: an image not added there', i)
    require(at == len(seq), 'the text %r... is on no page', seq[at:][:3])


PARTS = [Part('pages', case, check, 800, 20000)]
