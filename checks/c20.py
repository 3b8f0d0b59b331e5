"""C20: images are embedded intact and drawn undistorted where asked."""
import contextlib
import io
import os
import random
import shutil
import struct
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from lib.common import pages, require, sut, write
from lib.harness import Info, Part, fail
from lib.pdfread import Stream

TECHNIQUE = ('property-based testing (Hypothesis): generated JPEG and PNG '
             'files, embedded and placed, compared with the files themselves '
             'and a model of the cursor; mutated files')
LEVEL_NOTE = ('Random search over image files (sizes, colour modes, '
              'progressive, extra segments, fill bytes), sources and '
              'placements. PNG colours are compared after the lossy '
              'conversion, with tolerance. Held on all generated cases, not '
              'proved.')
RULE = ('Cases are sets of generated images, each used several times through '
        'PDF.image, tables and content boxes, with sizes and positions, and '
        'unusable image data. Non-trivial: two or more images or uses, or '
        'data that must be rejected.')
EPS = 0.01

COLORS = [(250, 20, 20), (10, 200, 30), (20, 30, 240), (240, 240, 10),
          (128, 128, 128), (0, 0, 0), (255, 255, 255), (200, 100, 50)]

JPG = st.fixed_dictionaries({
    'fmt': st.just('jpg'),
    'mode': st.sampled_from(['RGB', 'RGB', 'L', 'CMYK']),
    'wh': st.tuples(st.integers(1, 90), st.integers(1, 60)).map(list),
    'colors': st.lists(st.integers(0, 7), min_size=1, max_size=3),
    'progressive': st.booleans(), 'quality': st.sampled_from([30, 75, 95]),
    'sub': st.sampled_from([0, 1, 2]),
    # (where, kind): extra segments
    'extra': st.lists(st.sampled_from(['com', 'thumb', 'long', 'fill',
                                       'jfif', 'empty', 'dht', 'dac',
                                       'app14', 'adobe text']), max_size=3),
    # the kind of frame, and whether an Adobe marker says that values are
    # inverted; these are all read by others, the data are not looked at
    'frame': st.sampled_from([0, 0, 0, 1, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15]),
    'adobe': st.sampled_from(['keep', 'keep', 'yes', 'no']),
    'tail': st.sampled_from(['', '\r\n', 'endstream\nendobj', '\xff\xd9']),
})
PNG = st.fixed_dictionaries({
    'fmt': st.just('png'),
    'mode': st.sampled_from(['RGB', 'L', 'P', '1', 'RGBA', 'LA', 'I;16']),
    'wh': st.tuples(st.integers(1, 90), st.integers(1, 60)).map(list),
    'colors': st.lists(st.integers(0, 7), min_size=1, max_size=3),
})
IMAGE = st.one_of(JPG, JPG, PNG)


def picture(p):
    """A PIL image of vertical stripes, as RGB."""
    from PIL import Image
    w, h = p['wh']
    im = Image.new('RGB', (w, h))
    n = len(p['colors'])
    for i, c in enumerate(p['colors']):
        im.paste(COLORS[c], (w * i // n, 0, w * (i + 1) // n, h))
    return im


SOF = b'\xff\xc0\x00\x11\x08\x00\x07\x00\x09\x03' + b'\x01\x22\x00' * 3


def segment(k):
    if k == 'com':
        return b'\xff\xfe\x00\x08a\xff\xc0b(\\'
    if k == 'thumb':        # a thumbnail with a frame header of its own
        return b'\xff\xe1' + struct.pack('>H', 2 + len(SOF) + 4) + \
            b'\xff\xd8' + SOF + b'\xff\xd9'
    if k == 'long':
        return b'\xff\xed\xff\xff' + b'\xff\xda\xff\xc2' * 16383 + b'x'
    if k == 'dht':
        return b'\xff\xc4\x00\x18\x10' + bytes(16) + b'\xff\xc0\x01\x02\x03'
    if k == 'dac':
        return b'\xff\xcc\x00\x04\x00\x10'
    if k == 'app14':
        return b'\xff\xee\x00\x0cSomething\x00'
    if k == 'adobe text':
        return b'\xff\xfe\x00\x0eAdobe\x00image\x00'
    if k == 'empty':
        return b'\xff\xe5\x00\x02'
    if k == 'jfif':
        return b'\xff\xe7\x00\x10JFXX\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00'
    return b'\xff'          # a fill byte before the next marker


def build(p):
    """-> file bytes, reference RGB picture"""
    im = picture(p)
    b = io.BytesIO()
    if p['fmt'] == 'png':
        m = p['mode']
        if m == 'I;16':
            g = im.convert('L')
            from PIL import Image
            im2 = Image.frombytes('I;16', im.size, b''.join(
                struct.pack('<H', v * 257) for v in g.tobytes()))
            im2.save(b, 'PNG')
            im = g.convert('RGB')
        elif m in ('RGBA', 'LA'):
            im2 = im.convert(m)
            im2.save(b, 'PNG')
            im = im2.convert('RGB')
        else:
            im2 = im.convert(m)
            im2.save(b, 'PNG')
            im = im2.convert('RGB')
        return b.getvalue(), im
    kw = {}
    if p['mode'] == 'RGB':
        kw['subsampling'] = p['sub']
    im.convert(p['mode']).save(b, 'JPEG', quality=p['quality'],
                               progressive=p['progressive'], **kw)
    d = frame(b.getvalue(), p)
    segs = b''.join(segment(k) for k in p['extra'])
    return d[:2] + segs + d[2:] + p['tail'].encode('latin-1'), im


def frame(d, p):
    """The file with the Adobe marker and the kind of frame of the plan"""
    out = [d[:2]]
    at = 2
    if p['adobe'] == 'yes':
        out.append(b'\xff\xee\x00\x0eAdobe\x00\x64\x00\x00\x00\x00\x00')
    while d[at + 1] not in (0xC0, 0xC2):
        n = 2 + struct.unpack('>H', d[at + 2:at + 4])[0]
        if d[at + 1] != 0xEE or p['adobe'] == 'keep':
            out.append(d[at:at + n])
        at += n
    if p['frame']:
        out += [bytes([0xFF, 0xC0 + p['frame']]), d[at + 2:]]
    else:
        out.append(d[at:])
    return b''.join(out)


USE = st.fixed_dictionaries({
    'i': st.integers(0, 15),
    'via': st.sampled_from(['page', 'page', 'page', 'content', 'table',
                            'group']),
    'size': st.one_of(
        st.none(),
        st.tuples(st.sampled_from(['width', 'height']),
                  st.sampled_from([10, 33.3, 70, 0.5])).map(
                      lambda t: {t[0]: t[1]}),
        st.fixed_dictionaries({'width': st.sampled_from([20, 45.5]),
                               'height': st.sampled_from([12, 50])})),
    'x': st.sampled_from([None, None, 70, 15.25]),
    'y': st.sampled_from([None, None, 40, 200.5]),
    'move': st.sampled_from(['bottom', 'bottom', 'next', 'stay', None]),
})


def case():
    return st.integers(0, 9).flatmap(
        lambda k: many_case() if k == 0 else few_case())


def many_case():
    # many different small images, all on a page
    return st.fixed_dictionaries({
        'same': st.just(False), 'source': st.just(['memory']),
        'images': st.integers(9, 14).flatmap(lambda n: st.tuples(
            JPG, st.just(n)).map(lambda t: [
                dict(t[0], wh=[5 + i, 20], extra=[]) for i in range(t[1])])),
        'uses': st.just([{'i': i % 14, 'via': 'page', 'size': {'height': 9},
                          'x': None, 'y': None, 'move': 'bottom'}
                         for i in range(18)])})


def few_case():
    return st.fixed_dictionaries({
        'same': st.booleans(),
        'images': st.lists(IMAGE, min_size=1, max_size=4),
        'source': st.lists(st.sampled_from(['memory', 'memory', 'path',
                                            'Path', 'ext', 'end', 'open']),
                           min_size=1, max_size=4),
        'uses': st.lists(USE, min_size=1, max_size=7),
    })


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='c20-')
    try:
        yield d
    finally:
        shutil.rmtree(d)


EXTS = {'jpg': ['jpg', 'jpeg', 'JPG', '.jpg', ' Jpeg '],
        'png': ['png', 'PNG', '.png']}


class Source:
    def __init__(self, i, p, how, folder, same=False):
        self.bytes, self.rgb = build(p)
        self.p = p
        self.w, self.h = p['wh']
        self.how = how
        exts = EXTS[p['fmt']]
        self.ext = exts[i % len(exts)]
        if how not in ('memory', 'end'):
            name = 'im%d.%s' % (i, 'dat' if how == 'ext' else
                                self.ext.strip(' .'))
            if same:        # the same name in another folder
                name = os.path.join('d%d' % i, 'im.' + name.split('.')[1])
                os.mkdir(os.path.join(folder, 'd%d' % i))
            self.path = os.path.join(folder, name)
            with open(self.path, 'wb') as f:
                f.write(self.bytes)
        self.name = 'im' + str(i)

    def args(self):
        if self.how in ('memory', 'end'):
            image = io.BytesIO(self.bytes)
            if self.how == 'end':       # as it is after saving an image
                image.seek(0, 2)
            return {'image': image, 'extension': self.ext,
                    'image_name': self.name}
        if self.how == 'open':
            with open(self.path, 'rb') as f:
                image = io.BufferedReader(io.BytesIO(f.read()))
            return {'image': image, 'extension': self.ext,
                    'image_name': self.name}
        if self.how == 'ext':
            return {'image': self.path, 'extension': self.ext}
        return {'image': Path(self.path) if self.how == 'Path'
                else self.path}


def check(c):
    from pdfme import PDF
    out = set()
    with scratch() as folder:
        srcs = [Source(i, p, c['source'][i % len(c['source'])], folder,
                       c['same'])
                for i, p in enumerate(c['images'])]
        with sut('PDF'):
            pdf = PDF(page_size=[300, 400], margin=[30, 20, 25, 40])
            pdf.add_page()
        W, H = 300, 400
        left, top, right, bottom = 40, 30, 20, 25
        x, y = left, top
        want = []           # (page, source, x, top, w, h)
        page = 0

        def new_page():
            nonlocal x, y, page
            with sut('add_page'):
                pdf.add_page()
            page += 1
            x, y = left, top

        for u in c['uses']:
            s = srcs[u['i'] % len(srcs)]
            out.update((s.p['fmt'] + ' ' + s.p['mode'], s.how, u['via']))
            if u['via'] == 'page':
                kw = dict(u['size'] or {})
                w, h = kw.get('width'), kw.get('height')
                if w is None and h is None:
                    w = W - left - right
                if w is None:
                    w = h * s.w / s.h
                elif h is None:
                    h = w * s.h / s.w
                for k in ('x', 'y'):
                    if u[k] is not None:
                        kw[k] = u[k]
                if u['move']:
                    kw['move'] = u['move']
                if u['x'] is not None:
                    x = u['x']
                if u['y'] is not None:
                    y = u['y']
                with sut('image'):
                    pdf.image(**s.args(), **kw)
                want.append((page, s, x, y, w, h))
                if u['move'] == 'next':
                    x += w
                elif u['move'] in ('bottom', None):
                    y += h
                out.add('sized' if u['size'] else 'as wide as the page')
                continue
            w = W - left - right
            new_page()
            avail = H - top - bottom - 15
            d = s.args()
            if u['via'] == 'table':
                if (w - 10.5) * s.h / s.w > avail:
                    continue
                with sut('table'):
                    pdf.table([[d]])
                want.append((page, s, left + 5.25, top + 5.25, w - 10.5,
                             (w - 10.5) * s.h / s.w))
            else:
                h = w * s.h / s.w
                if h > avail or u['via'] == 'group':
                    d['style'] = {'min_height': 30}
                if h > avail:
                    # shrunk: only bounds are known
                    h = w = None
                    out.add('shrunk to fit')
                if u['via'] == 'group':
                    d = {'group': [d]}
                with sut('content'):
                    pdf.content({'content': [d]})
                want.append((page, s, left, top, w, h))
            new_page()
        verify(write(pdf), want, W, H, out)
    return Info(len(c['uses']) > 1 or len(c['images']) > 1, out)


def close(a, b):
    return abs(a - b) < 0.005 + 1e-9


def verify(data, want, W, H, out):
    from PIL import Image
    doc, pvs = pages(data)
    by_page = {}
    for p, *rest in want:
        by_page.setdefault(p, []).append(rest)
    refs = {}
    for pv in pvs:
        mine = by_page.get(pv.index, [])
        require(len(pv.images) == len(mine), 'page %d shows %d images '
                'instead of %d', pv.index, len(pv.images), len(mine))
        for im, (s, x, y, w, h) in zip(pv.images, mine):
            if w is None:
                require(im.x > x - EPS and im.x + im.w < W - 20 + EPS and
                        im.y > 25 - EPS, '%r is outside of the page margins',
                        im)
                require(abs(im.w * s.h - im.h * s.w) < 0.01 * (s.w + s.h),
                        '%r of %d x %d pixels is distorted', im, s.w, s.h)
                require(im.h > 30 - EPS, '%r is below its minimum height',
                        im)
                w, h, x = im.w, im.h, im.x
            require(close(im.w, w) and close(im.h, h), 'an image of %d x %d '
                    'pixels is drawn as %.3f x %.3f instead of %.3f x %.3f',
                    s.w, s.h, im.w, im.h, w, h)
            require(close(im.x, x) and close(H - im.y - im.h, y),
                    'an image is drawn at %.3f, %.3f instead of %.3f, %.3f',
                    im.x, H - im.y - im.h, x, y)
            old = refs.setdefault(id(s), im.ref)
            require(old == im.ref, 'one image is embedded twice')
    require(len(set(refs.values())) == len(refs),
            'two images share one image object')
    objs = [o for o in doc.objects.values() if isinstance(o, Stream) and
            o.dict.get('Subtype') == 'Image']
    require(len(objs) == len(refs), '%d image objects for %d images',
            len(objs), len(refs))
    used = {id(s): s for _, s, *_ in want}
    for k, ref in refs.items():
        s = used[k]
        st_ = doc.resolve(ref)
        d = st_.dict
        require(d.get('Filter') == 'DCTDecode', 'image filter %r',
                d.get('Filter'))
        require((d.get('Width'), d.get('Height')) == (s.w, s.h),
                'an image of %d x %d pixels is declared as %r x %r', s.w,
                s.h, d.get('Width'), d.get('Height'))
        require(d.get('BitsPerComponent') == 8, 'depth %r',
                d.get('BitsPerComponent'))
        if s.p['fmt'] == 'jpg':
            require(st_.raw == s.bytes, 'a JPEG file of %d bytes is embedded '
                    'as %d other bytes', len(s.bytes), len(st_.raw))
            cs = {'RGB': 'DeviceRGB', 'L': 'DeviceGray',
                  'CMYK': 'DeviceCMYK'}[s.p['mode']]
            require(d.get('ColorSpace') == cs, 'a JPEG image of mode %s is '
                    'declared as %r', s.p['mode'], d.get('ColorSpace'))
            dec = doc.resolve(d.get('Decode'))
            if s.p['mode'] == 'CMYK' and s.p['adobe'] != 'no':
                # such files hold inverted values
                require(dec == [1, 0] * 4, 'an inverted CMYK image has '
                        'Decode %r', dec)
            else:
                require(dec is None or dec == [0, 1] * (len(dec) // 2),
                        'an image that is not inverted has Decode %r', dec)
        else:
            got = Image.open(io.BytesIO(st_.raw))
            require(d.get('ColorSpace') == {
                'RGB': 'DeviceRGB', 'L': 'DeviceGray',
                'CMYK': 'DeviceCMYK'}[got.mode], 'PNG image declared as %r',
                d.get('ColorSpace'))
            require(got.size == (s.w, s.h), 'PNG image of %r pixels became '
                    '%r', (s.w, s.h), got.size)
            same_picture(got.convert('RGB'), s.rgb, s.p)


def same_picture(got, ref, p):
    """Mean colours of the stripes and of the whole picture."""
    w, h = ref.size
    boxes = [(0, 0, w, h)]
    n = len(p['colors'])
    for i in range(n):
        a, b = w * i // n, w * (i + 1) // n
        if b - a >= 24 and p['mode'] != '1':    # away from stripe borders
            boxes.append((a + 8, 0, b - 8, h))
    for box in boxes:
        x, y = got.crop(box), ref.crop(box)
        whole = box == boxes[0] and n > 1
        if whole:       # colours bleed into thin stripes
            x, y = x.convert('L'), y.convert('L')
        x, y = mean(x), mean(y)
        require(all(abs(i - j) < (40 if whole else 12)
                    for i, j in zip(x, y)), 'the pixels at %r of a PNG image '
                'of mode %s have the colour %r instead of %r', box,
                p['mode'], x, y)


def mean(im):
    from PIL import ImageStat
    return [round(v) for v in ImageStat.Stat(im).mean]


# unusable data -------------------------------------------------------------

def case_bad():
    return st.one_of(
        st.fixed_dictionaries({'kind': st.just('random'),
                               'ext': st.sampled_from(['jpg', 'png']),
                               'd': st.text(st.characters(max_codepoint=255),
                                            max_size=40)}),
        st.fixed_dictionaries({'kind': st.just('cut'), 'image': JPG,
                               'at': st.integers(0, 1000)}),
        st.fixed_dictionaries({'kind': st.just('cut png'), 'image': PNG,
                               'at': st.integers(0, 1000)}),
        st.fixed_dictionaries({'kind': st.just('wrong'), 'image': PNG}),
        st.fixed_dictionaries({'kind': st.just('ext'), 'image': IMAGE,
                               'ext': st.sampled_from(
                                   ['gif', 'tiff', '', 'bmp', 'jp', None])}),
        st.fixed_dictionaries({'kind': st.just('no name'), 'image': IMAGE}),
        st.fixed_dictionaries({'kind': st.just('type'),
                               'd': st.sampled_from([7, None, 'bytes'])}),
    )


def frame_end(d):
    """Where the frame header of JPEG data ends, by the JPEG syntax."""
    p = 2
    while True:
        while d[p] == 0xff:
            p += 1
        m = d[p]
        p += 1
        n = struct.unpack('>H', d[p:p + 2])[0]
        if 0xc0 <= m <= 0xcf and m not in (0xc4, 0xc8, 0xcc):
            return p + n
        p += n


def check_bad(c):
    from pdfme import PDF
    k = c['kind']
    ext, name = 'jpg', 'n'
    if k == 'random':
        d = c['d'].encode('latin-1')
        if d[:2] == b'\xff\xd8' or d[:4] == b'\x89PNG':
            d = d[1:]
        ext = c['ext']
    elif k == 'cut':
        d, _ = build(c['image'])
        # before the size and the number of components are complete
        n = {'L': 1, 'RGB': 3, 'CMYK': 4}[c['image']['mode']]
        d = d[:(frame_end(d) - 3 * n - 1) * c['at'] // 1000]
    elif k == 'cut png':
        d, _ = build(c['image'])
        ext = 'png'
        # before the image data
        d = d[:(d.index(b'IDAT') + 4) * c['at'] // 1000]
    elif k == 'wrong':
        d, _ = build(c['image'])
    elif k == 'type':
        d = c['d']
    else:
        d, _ = build(c['image'])
        ext = c['image']['fmt']
        if k == 'ext':
            ext = c['ext']
        else:
            name = None
    import contextlib as cl
    with sut('PDF'):
        pdf = PDF()
        pdf.add_page()
    arg = io.BytesIO(d) if isinstance(d, bytes) else \
        b'bytes' if d == 'bytes' else d
    for call in (lambda: pdf.image(arg, ext, name),
                 lambda: pdf.content({'content': [
                     {'image': arg, 'extension': ext, 'image_name': name}]})):
        try:
            with cl.redirect_stderr(io.StringIO()):
                call()
        except Exception:
            continue
        fail('unusable image data (%s) are not rejected', k)
    return Info(True, [k])


PARTS = [Part('images', case, check, 3000, 40000),
         Part('unusable', case_bad, check_bad, 1500, 20000)]
