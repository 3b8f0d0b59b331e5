"""C28: elements placed one by one go where they are asked to."""
from hypothesis import strategies as st

from lib import box
from lib.common import render, require
from lib.harness import Info, Part, fail, sut

TECHNIQUE = ('stateful property-based testing (Hypothesis): generated '
             'sequences of calls on one PDF object, its pages and cursors '
             'compared with a reference model, its written pages with the '
             'rectangles asked for')
LEVEL_NOTE = ('Random search over sequences of up to 16 calls. Held on all '
              'generated cases, not proved.')
RULE = ('Each case is a sequence of calls on one PDF object: pages added and '
        'revisited, defaults changed, running sections added, and '
        'paragraphs, tables, content boxes and images placed in given or '
        'default rectangles, continued in others, or left to the functions '
        'that add pages. Non-trivial: at least three elements are drawn and '
        'one of them is in a rectangle that depends on an earlier call.')
EPS = 0.03


# generation ----------------------------------------------------------------

def opt(**kw):
    return st.fixed_dictionaries({}, optional=kw)


def one(*v):
    return st.sampled_from(v)


SIZES = one([600, 800], [540.5, 420], [620, 330], [500, 500])
MARGINS = one(40, [30, 45, 50, 25], {'top': 33, 'left': 61, 'bottom': 20,
                                     'right': 27})
ATTRS = opt(font_size=one(8, 11, 14.5), font_color=one(0, 0.5, 'red'),
            font_family=one('Helvetica', 'Times', 'Courier'),
            text_align=one('l', 'r', 'c', 'j'),
            line_height=one(1, 1.1, 1.5), indent=one(0, 15))
PLACE = opt(x=one(0, 12.5, 100, 230), y=one(0, 20, 77.7, 150, 260),
            width=one(130, 180, 250.4), height=one(10, 40, 75.5, 140, 300))
MOVE = one(None, None, 'bottom', 'next', 'none')
NWORDS = st.one_of(st.integers(1, 12), st.integers(1, 120))
PAR = opt(text_align=one('l', 'r', 'c', 'j'), line_height=one(1, 1.3, 2),
          indent=one(0, 22))


def op_st():
    def op(name, **kw):
        return st.fixed_dictionaries(dict({'op': st.just(name)}, **kw))
    text = dict(n=NWORDS, par=PAR, form=st.integers(0, 3),
                page=st.booleans())
    table = dict(rows=st.lists(st.lists(st.integers(1, 14), min_size=2,
                                        max_size=2), min_size=1, max_size=6),
                 widths=one(None, [1, 1], [1, 2], [3, 2]))
    content = dict(els=st.lists(st.one_of(
        st.integers(1, 40), st.just('i')), min_size=1, max_size=5),
        cols=one(1, 1, 2))
    placed = dict(place=PLACE, move=MOVE)
    return st.one_of(
        op('page', size=st.one_of(st.none(), SIZES), rotate=one(
            None, None, False, True), margin=st.one_of(st.none(), MARGINS)),
        op('setup', size=st.one_of(st.none(), SIZES), rotate=one(
            None, None, False, True), margin=st.one_of(st.none(), MARGINS)),
        op('goto', k=st.integers(0, 5)),
        op('attrs', attrs=ATTRS),
        op('cursor', x=one(None, 60, 111), y=one(None, 30, 95)),
        op('section', n=st.integers(1, 4), y=one(2, 10), x=one(5, 90)),
        op('_text', **text, **placed), op('_text', **text, **placed),
        op('_table', **table, **placed), op('_content', **content, **placed),
        op('image', place=PLACE, move=MOVE, wh=one([40, 20], [20, 30])),
        op('cont', place=PLACE, move=MOVE, which=st.integers(0, 2)),
        op('cont', place=PLACE, move=MOVE, which=st.integers(0, 2)),
        op('text', **text), op('table', **table), op('content', **content))


def case_st():
    return st.fixed_dictionaries({
        'size': SIZES, 'margin': MARGINS, 'rotate': st.booleans(),
        'attrs': ATTRS, 'offset': one(0, 0, 7),
        'ops': st.lists(op_st(), min_size=5, max_size=16)})


# reference model -----------------------------------------------------------

def sides(m):
    if isinstance(m, dict):
        return dict(m)
    if isinstance(m, (int, float)):
        m = [m] * 4
    return dict(zip(('top', 'right', 'bottom', 'left'), m))


class Page:
    def __init__(self, index, size, m):
        self.index = index
        self.w, self.h = size
        self.m = m
        self.x, self.y = m['left'], m['top']
        self.sections = []

    def rest(self):
        return self.h - self.m['bottom'] - self.y

    @property
    def cw(self):
        return self.w - self.m['left'] - self.m['right']

    @property
    def ch(self):
        return self.h - self.m['top'] - self.m['bottom']


class El:
    """One element: what it shows, and the rectangles it was run in."""

    def __init__(self, kind, style):
        self.kind, self.style = kind, style
        self.chains = []
        self.runs = []
        self.obj = None
        self.done = False
        self.rgb = None
        self.cols = 1
        self.widths = None
        self.images = []


class Run:
    def __init__(self, page, x, y, w, h):
        self.page, self.x, self.y, self.w, self.h = page, x, y, w, h
        self.marks = [None, None]
        self.finished = None
        self.moved = None       # how far the cursor went down

    def __repr__(self):
        return 'page %d at (%g, %g) %g wide and %g high' % (
            self.page.index, self.x, self.y, self.w, self.h)


DEFAULTS = dict(font_family='Helvetica', font_size=11, font_color=0.1,
                text_align='l', line_height=1.1, indent=0)


class History:
    def __init__(self, c):
        from pdfme import PDF
        self.c = c
        self.attrs = dict(DEFAULTS, **c['attrs'])
        self.defaults = (c['size'], c['rotate'], sides(c['margin']))
        self.pages = []
        self.cur = None
        self.sections = []
        self.els = []
        self.open = []
        self.count = 0
        self.marks = 0
        self.dependent = False
        self.labels = set()
        with sut('PDF()'):
            self.pdf = PDF(page_size=c['size'], rotate_page=c['rotate'],
                           margin=c['margin'], page_numbering_offset=c[
                               'offset'], **c['attrs'])

    # the model's side

    def new_page(self, size=None, rotate=None, margin=None):
        dsize, drotate, dmargin = self.defaults
        size = list(size if size is not None else dsize)
        if drotate if rotate is None else rotate:
            size.reverse()
        m = dict(dmargin if margin is None else sides(margin))
        p = Page(len(self.pages), size, m)
        p.sections = [(s, dict(self.attrs)) for s in self.sections]
        self.pages.append(p)
        self.cur = p
        return p

    def word(self):
        self.count += 1
        return box.code(self.count)

    def mark(self, page=None):
        """A rectangle outside of every page, to tell apart what was drawn
        before and after"""
        self.marks += 1
        (page or self.pdf.page).add(' -9000 -%d 1 1 re f' % self.marks)
        return self.marks

    def check_cursor(self, what):
        p = self.pdf.page
        require(self.pdf.page_index == self.cur.index,
                'after %s the page index is %r, expected %d', what,
                self.pdf.page_index, self.cur.index)
        require(abs(p.x - self.cur.x) < EPS and abs(p.y - self.cur.y) < EPS,
                'after %s the cursor of page %d is (%g, %g), expected '
                '(%g, %g)', what, self.cur.index, p.x, p.y, self.cur.x,
                self.cur.y)
        require(abs(self.pdf.width - self.cur.w) < EPS and
                abs(self.pdf.height - self.cur.h) < EPS,
                'after %s the page is %r x %r, expected %r x %r', what,
                self.pdf.width, self.pdf.height, self.cur.w, self.cur.h)

    # making elements

    def text(self, o):
        a = self.attrs
        par = {k: v for k, v in o['par'].items()}
        el = El('text', dict(a, **par))
        ws = [self.word() for _ in range(o['n'])]
        el.chains = [ws]
        el.page_word = o['page']
        s = ' '.join(ws)
        head = ['P', {'var': '$page'}, 'a. '] if o['page'] else []
        if o['page']:
            ws.insert(0, None)
        if o['form'] == 0 and not head:
            d = s
        elif o['form'] == 1:
            d = head + [s]
        elif o['form'] == 2:
            d = {'.': head + [s]}
        else:
            el.style['font_size'] = 9
            d = {'.s:9': head + [s]}
        return el, (d,), par

    def table(self, o):
        el = El('table', dict(self.attrs))
        el.rgb = round(0.2 + 0.001 * len(self.els), 3)
        el.widths = o['widths']
        rows = []
        for r in o['rows']:
            ws = [[self.word() for _ in range(n)] for n in r]
            el.chains += ws
            rows.append([' '.join(w) for w in ws])
        kw = {'style': {'border_color': el.rgb}}
        if o['widths'] is not None:
            kw['widths'] = o['widths']
        return el, (rows,), kw

    def content(self, o):
        el = El('content', dict(self.attrs))
        el.cols = o['cols']
        out = []
        chain = []
        for e in o['els']:
            if e == 'i':
                im = self.image((40, 16))
                el.images.append(im)
                out.append({'image': im[1], 'image_name': im[0],
                            'extension': 'jpg'})
            else:
                ws = [self.word() for _ in range(e)]
                chain.append(ws)
                out.append(' '.join(ws))
        el.chains = chain
        d = {'content': out}
        if el.cols > 1:
            d['cols'] = {'count': el.cols, 'gap': 10}
        return el, (d,), {}

    def image(self, wh):
        import io
        self.count += 1
        b = box.image_bytes(self.count, wh)
        return ('im%d' % self.count, io.BytesIO(b), b)

    # the operations

    def apply(self, o):
        kind = o['op']
        pdf = self.pdf
        if self.cur is None and kind not in ('page', 'setup', 'attrs',
                                             'section'):
            self.apply(dict(op='page', size=None, rotate=None, margin=None))
        if kind in ('page', 'setup'):
            kw = {}
            if o['size'] is not None:
                kw['page_size'] = o['size']
            if o['rotate'] is not None:
                kw['rotate_page'] = o['rotate']
            if o['margin'] is not None:
                kw['margin'] = o['margin']
            if kind == 'page':
                self.new_page(o['size'], o['rotate'], o['margin'])
                with sut('add_page'):
                    pdf.add_page(**kw)
                self.check_cursor('add_page')
            else:
                s, r, m = self.defaults
                self.defaults = (
                    s if o['size'] is None else o['size'],
                    r if o['rotate'] is None else o['rotate'],
                    m if o['margin'] is None else sides(o['margin']))
                with sut('setup_page'):
                    pdf.setup_page(**kw)
        elif kind == 'goto':
            self.cur = self.pages[o['k'] % len(self.pages)]
            pdf.page_index = self.cur.index
            self.check_cursor('page_index = %d' % self.cur.index)
        elif kind == 'attrs':
            self.attrs.update(o['attrs'])
            for k, v in o['attrs'].items():
                setattr(pdf, k, v)
        elif kind == 'cursor':
            if o['x'] is not None:
                pdf.page.x = self.cur.x = o['x']
            if o['y'] is not None:
                pdf.page.y = self.cur.y = o['y']
        elif kind == 'section':
            if len(self.sections) == 2:
                return
            name = 'XY'[len(self.sections)]
            ws = [self.word() for _ in range(o['n'])]
            s = dict(name=name, words=ws, x=o['x'], y=o['y'], w=240, h=60)
            self.sections.append(s)
            with sut('add_running_section'):
                pdf.add_running_section(
                    {'content': [{'.': [' '.join(ws) + ' ' + name,
                                        {'var': '$page'}, 'a.']}]},
                    s['w'], s['h'], s['x'], s['y'])
        elif kind in ('_text', '_table', '_content'):
            el, args, kw = getattr(self, kind[1:])(o)
            self.els.append(el)
            if kind == '_text' and not ('x' in o['place']) or (
                    'y' not in o['place']):
                self.dependent = True
            self.place(el, kind, args, kw, o)
        elif kind == 'cont':
            if not self.open:
                return
            el = self.open[o['which'] % len(self.open)]
            self.labels.add('continued')
            self.place(el, '_' + el.kind, (el.obj,), {}, o)
        elif kind == 'image':
            self.place_image(o)
        else:
            el, args, kw = getattr(self, kind)(o)
            self.els.append(el)
            self.flow(el, kind, args, kw)

    def rect(self, place, least):
        """The rectangle asked for and the arguments that ask for it"""
        p = self.cur
        kw = dict(place)
        x = kw.get('x', p.x)
        w = kw.get('width', p.w - p.m['right'] - x)
        if w < least:
            # there would be no room for a word
            if 'width' in kw:
                kw['width'] = least
            else:
                kw['x'] = p.m['left']
            x = kw.get('x', p.x)
            w = kw.get('width', p.w - p.m['right'] - x)
        y = kw.get('y', p.y)
        h = kw.get('height', p.h - p.m['bottom'] - y)
        return Run(p, x, y, w, h), kw

    def place(self, el, name, args, kw, o):
        pdf = self.pdf
        run, where = self.rect(o['place'], 110 if el.kind == 'text' or (
            el.kind == 'content' and el.cols == 1) else 210)
        kw = dict(kw, **where)
        if o['move'] is not None:
            kw['move'] = o['move']
        what = '%s in %r, move=%r' % (name, run, o['move'])
        run.marks[0] = self.mark()
        with sut(what):
            el.obj = getattr(pdf, name)(*args, **kw)
        run.marks[1] = self.mark()
        run.finished = el.done = bool(el.obj.finished)
        run.what = what
        el.runs.append(run)
        if el in self.open:
            self.open.remove(el)
        if not el.done:
            self.open.append(el)
        p = self.cur
        p.x, p.y = run.x, run.y
        if o['move'] in (None, 'bottom'):
            run.moved = pdf.page.y - run.y
            p.y = pdf.page.y
        elif o['move'] == 'next':
            p.x = run.x + run.w
        self.check_cursor(what)
        self.labels.add(name if o['move'] != 'next' else name + ' next')

    def place_image(self, o):
        pdf, p = self.pdf, self.cur
        im = self.image(o['wh'])
        kw = dict(o['place'])
        x, y = kw.get('x', p.x), kw.get('y', p.y)
        iw, ih = o['wh']
        w, h = kw.get('width'), kw.get('height')
        if w is None and h is None:
            w = p.cw
            h = w * ih / iw
        elif w is None:
            w = h * iw / ih
        elif h is None:
            h = w * ih / iw
        el = El('image', None)
        run = Run(p, x, y, w, h)
        el.images = [im]
        el.runs = [run]
        el.done = True
        self.els.append(el)
        if o['move'] is not None:
            kw['move'] = o['move']
        run.what = what = 'image in %r, move=%r' % (run, o['move'])
        run.marks[0] = self.mark()
        with sut(what):
            pdf.image(im[1], 'jpg', im[0], **kw)
        run.marks[1] = self.mark()
        p.x, p.y = x, y
        if o['move'] in (None, 'bottom'):
            p.y = y + h
        elif o['move'] == 'next':
            p.x = x + w
        self.check_cursor(what)
        self.labels.add('image')

    def flow(self, el, name, args, kw):
        """The functions that add pages"""
        pdf, p = self.pdf, self.cur
        before = len(self.pages)
        m0 = self.mark()
        with sut('%s()' % name):
            getattr(pdf, name)(*args, **kw)
        what = '%s()' % name
        run = Run(p, p.m['left'], p.y, p.cw, p.rest())
        run.marks[0] = m0
        run.what, run.finished = what, False
        el.runs.append(run)
        if p.index == len(self.pages) - 1:
            self.labels.add('flow')
        else:
            self.labels.add('flow from an earlier page')
        added = len(pdf.pages) - before
        require(added >= 0, 'pages disappeared')
        p.x = p.m['left']
        for _ in range(added):
            p = self.new_page()
            run = Run(p, p.m['left'], p.m['top'], p.cw, p.ch)
            run.what, run.finished = what + ' on an added page', False
            el.runs.append(run)
        run.finished = el.done = True
        if added:
            self.labels.add('%s over pages' % name)
            self.dependent = True
        for run in el.runs:
            page = pdf.pages[run.page.index]
            run.marks[1] = self.mark(page)
            run.page.y = page.y
            run.moved = run.page.y - run.y
        self.check_cursor(what)


# checking the pages --------------------------------------------------------

def collect(hi, pvs):
    """Give every run what was drawn between its marks."""
    require(len(pvs) == len(hi.pages), '%d pages are written, expected %d',
            len(pvs), len(hi.pages))
    for p, pv in zip(hi.pages, pvs):
        require(abs(pv.width - p.w) < EPS and abs(pv.height - p.h) < EPS,
                'page %d is %g x %g, expected %g x %g', p.index, pv.width,
                pv.height, p.w, p.h)
        p.at = {}
        p.fills = []
        for f in pv.fills:
            if f.x < -8000:
                p.at[int(-f.y)] = f.seq
            else:
                p.fills.append(f)
        p.pv = pv
        p.words = box.words(pv)
        p.left = {id(w) for w in p.words}
        p.left |= {id(i) for i in pv.images}
        p.left |= {id(x) for x in pv.lines}
        p.number = str(p.index + 1 + hi.c['offset'])
        for s, attrs in p.sections:
            section(p, s, attrs)
    for el in hi.els:
        for r in el.runs:
            p = r.page
            lo = p.at[r.marks[0]] if r.marks[0] else 0
            hi_ = p.at[r.marks[1]] if r.marks[1] else float('inf')

            def mine(items):
                got = [i for i in items
                       if lo < i.seq < hi_ and id(i) in p.left]
                p.left -= {id(i) for i in got}
                return got
            r.words = mine(p.words)
            r.images = mine(p.pv.images)
            r.lines = mine(p.pv.lines)
    for p in hi.pages:
        for i in p.words + p.pv.images + p.pv.lines:
            require(id(i) not in p.left, '%r on page %d is of no element', i,
                    p.index)


def section(p, s, attrs):
    """A running section on a page made after it."""
    want = s['words'] + [s['name'] + p.number + 'a.']
    got = [w for w in p.words if w.word in want]
    require([w.word for w in got] == want, 'page %d shows %r of the running '
            'section %r', p.index, [w.word for w in got], want)
    p.left -= {id(w) for w in got}
    for w in got:
        inside(w, s['x'], s['y'], s['w'], s['h'], p, 'the running section')
        looks(w, attrs, 'the running section')


def inside(a, x, y, w, h, p, what):
    require(a.x1 >= x - EPS and a.x2 <= x + w + EPS, '%r of %s is at x %g to '
            '%g, outside of %g to %g', a.word, what, a.x1, a.x2, x, x + w)
    off = p.h - y - a.base
    require(a.size - EPS <= off <= h + EPS, '%r of %s is on page %d %g below '
            'the top of a rectangle %g high', a.word, what, p.index, off, h)


COLORS = {0: (0.0,), 0.5: (0.5,), 0.1: (0.1,), 'red': (1.0, 0.0, 0.0)}
FONTS = {'Helvetica': 'Helvetica', 'Times': 'Times-Roman',
         'Courier': 'Courier'}


def looks(a, style, what):
    g = a.glyph
    col = g.color
    want = COLORS[style['font_color']]
    if len(col) == 3 and len(want) == 1:
        want = want * 3
    require(abs(a.size - style['font_size']) < EPS, '%r of %s has size %g, '
            'expected %g', a.word, what, a.size, style['font_size'])
    require(len(col) == len(want) and all(
        abs(u - v) < 0.01 for u, v in zip(col, want)), '%r of %s has colour '
        '%r, expected %r', a.word, what, col, want)
    require(g.font.base == FONTS[style['font_family']], '%r of %s is in %s, '
            'expected %s', a.word, what, g.font.base,
            FONTS[style['font_family']])


def lines_of(ws):
    out = []
    for w in ws:
        if out and abs(out[-1][-1].base - w.base) < EPS:
            require(w.x1 > out[-1][-1].x2, '%r is drawn over %r', w.word,
                    out[-1][-1].word)
            out[-1].append(w)
        else:
            out.append([w])
    return out


def check_order(el):
    """Every word once and in order, all of them if it finished."""
    for ws in el.chains:
        want = list(ws)
        got = [(w, r) for r in el.runs for w in r.words
               if w.word in want or (want and want[0] is None
                                     and w.word[0] == 'P')]
        if want and want[0] is None and got:
            # the number of the page it is on
            want[0] = 'P' + got[0][1].page.number + 'a.'
        names = [w.word for w, _ in got]
        require(names == want[:len(names)], '%s shows the words %r, expected '
                '%r', el.runs[0].what, names, want)
        require(not el.done or len(names) == len(want), '%s finished and '
                'shows %r of the words %r', el.runs[-1].what, names, want)


def check_text(el):
    st_ = el.style
    size, lh, align = st_['font_size'], st_['line_height'], st_['text_align']
    started = False
    left = len(el.chains[0])
    for r in el.runs:
        p = r.page
        for w in r.words:
            inside(w, r.x, r.y, r.w, r.h, p, r.what)
            looks(w, st_, r.what)
        left -= len(r.words)
        ls = lines_of(r.words)
        if not ls:
            # (the first line may take line_height points more)
            require(r.h < size + lh + EPS, '%s shows nothing', r.what)
            require(not r.finished, '%s finished without showing anything',
                    r.what)
            if r.moved is not None:
                require(-EPS < r.moved < lh + EPS, '%s shows nothing and '
                        'moves the cursor %g down', r.what, r.moved)
            continue
        offs = [p.h - r.y - ln[0].base for ln in ls]
        require(size - EPS < offs[0] < size + lh + EPS, 'the first line of '
                '%s is %g below its top, with size %g', r.what, offs[0], size)
        for u, v in zip(offs, offs[1:]):
            require(abs(v - u - size * lh) < EPS, 'lines of %s are %g apart, '
                    'expected %g', r.what, v - u, size * lh)
        if not r.finished:
            require(offs[-1] + size * lh > r.h - EPS, '%s stops %g below its '
                    'top with room for another line', r.what, offs[-1])
        if r.moved is not None:
            require(offs[-1] - EPS < r.moved < offs[-1] + size, '%s moves '
                    'the cursor %g down, its last line is %g down', r.what,
                    r.moved, offs[-1])
        for i, ln in enumerate(ls):
            ind = st_['indent'] if not started and i == 0 else 0
            lo, hi = r.x + ind, r.x + r.w
            x1, x2 = ln[0].x1, ln[-1].x2
            last = r.finished and i == len(ls) - 1
            al = align
            if al == 'j' and (last or len(ln) == 1):
                al = 'l'
            if al in 'lj':
                require(abs(x1 - lo) < EPS, 'a line of %s starts at %g, '
                        'expected %g', r.what, x1, lo)
            if al in 'rj':
                # (the width of a space is written with three decimals)
                require(abs(x2 - hi) < EPS + 0.001 * len(ln), 'a line of %s ends at %g, '
                        'expected %g', r.what, x2, hi)
            if al == 'c':
                require(abs(x1 + x2 - lo - hi) < 2 * EPS, 'the middle of a '
                        'line of %s is %g, expected %g', r.what,
                        (x1 + x2) / 2, (lo + hi) / 2)
        started = True


def check_table(el):
    for r in el.runs:
        p = r.page
        for w in r.words:
            inside(w, r.x, r.y, r.w, r.h, p, r.what)
            looks(w, el.style, r.what)
        for ln in r.lines:
            require(max(abs(v - el.rgb) for v in ln.color) < 0.0006,
                    'a line of %s has colour %r, expected %r', r.what,
                    ln.color, el.rgb)
        if not r.words:
            if r.moved is not None:
                require(-EPS < r.moved < 14, '%s shows nothing and moves the '
                        'cursor %g down', r.what, r.moved)
            continue
        require(r.lines, '%s has no borders', r.what)
        xs = [v for ln in r.lines for v in (ln.x1, ln.x2)]
        ys = [p.h - r.y - v for ln in r.lines for v in (ln.y1, ln.y2)]
        require(abs(min(xs) - r.x) < 0.6 and abs(max(xs) - r.x - r.w) < 0.6,
                'the borders of %s go from x %g to %g, expected %g to %g',
                r.what, min(xs), max(xs), r.x, r.x + r.w)
        require(abs(min(ys)) < 0.6, 'the top border of %s is %g below its '
                'top', r.what, min(ys))
        require(max(ys) < r.h + 0.6, 'the bottom border of %s is %g below '
                'its top', r.what, max(ys))
        if r.moved is not None:
            require(abs(r.moved - max(ys)) < 0.6, '%s moves the cursor %g '
                    'down, its bottom border is %g down', r.what, r.moved,
                    max(ys))
        a, b = el.widths or [1, 1]
        mid = r.x + r.w * a / (a + b)
        require(any(abs(ln.x1 - mid) < 0.6 and abs(ln.x2 - mid) < 0.6
                    for ln in r.lines), '%s has no border at x %g between '
                'its columns', r.what, mid)
        col = {n: i % 2 for i, ch in enumerate(el.chains) for n in ch}
        for w in r.words:
            lo, hi = (r.x, mid) if col[w.word] == 0 else (mid, r.x + r.w)
            require(lo < w.x1 and w.x2 < hi, '%r of %s is at x %g to %g, its '
                    'column goes from %g to %g', w.word, r.what, w.x1, w.x2,
                    lo, hi)


def check_content(hi, el):
    size, lh = el.style['font_size'], el.style['line_height']
    for r in el.runs:
        p = r.page
        cw = (r.w - 10 * (el.cols - 1)) / el.cols
        for w in r.words:
            inside(w, r.x, r.y, r.w, r.h, p, r.what)
            looks(w, el.style, r.what)
            k = int((w.x1 - r.x + EPS) // (cw + 10))
            x = r.x + k * (cw + 10)
            inside(w, x, r.y, cw, r.h, p, 'column %d of %s' % (k, r.what))
        low = [p.h - r.y - w.base for w in r.words]
        top = [v - size for v in low]
        for im in r.images:
            k = int((im.x - r.x + EPS) // (cw + 10))
            x = r.x + k * (cw + 10)
            require(abs(im.x - x) < EPS and abs(im.w - cw) < EPS,
                    'an image of %s is at x %g, %g wide, its column at %g, '
                    '%g wide', r.what, im.x, im.w, x, cw)
            low.append(p.h - r.y - im.y)
            top.append(low[-1] - im.h)
            require(top[-1] > -EPS and low[-1] < r.h + EPS, 'an image of %s '
                    'goes from %g to %g below its top', r.what, top[-1],
                    low[-1])
        require(not r.lines, '%s has lines', r.what)
        if not low:
            if r.moved is not None:
                least = most = 0
                if el.cols > 1:
                    # its columns reach the end of the rectangle, which is
                    # above its top if the cursor was below the margin
                    least, most = min(0, r.h), max(0, r.h)
                require(least - EPS < r.moved < most + 5 + lh, '%s shows '
                        'nothing and moves the cursor %g down', r.what,
                        r.moved)
            continue
        require(min(top) < lh + EPS, '%s starts %g below its top', r.what,
                min(top))
        if r.moved is not None:
            most = max(low) + size + 6
            if el.cols > 1 and not r.finished:
                # its columns reach the end of the rectangle
                most = max(most, r.h + EPS)
            require(max(low) - EPS < r.moved < most, '%s '
                    'moves the cursor %g down, its bottom is %g down',
                    r.what, r.moved, max(low))


def check_images(hi, doc):
    for el in hi.els:
        got = [(im, r) for r in el.runs for im in r.images]
        raws = [doc.resolve(im.ref).raw for im, _ in got]
        want = [im[2] for im in el.images]
        require(all(v in want for v in raws) and len(set(raws)) == len(raws),
                'wrong images in %s', el.runs[0].what)
        if el.done:
            require(len(raws) == len(want), '%s finished with %d of %d '
                    'images', el.runs[0].what, len(raws), len(want))
        if el.kind == 'image':
            im, r = got[0]
            y = r.page.h - r.y - r.h
            require(abs(im.x - r.x) < EPS and abs(im.y - y) < EPS and
                    abs(im.w - r.w) < EPS and abs(im.h - r.h) < EPS,
                    '%s is drawn at (%g, %g) with size %g x %g, expected '
                    '(%g, %g)', r.what, im.x, r.page.h - im.y - im.h, im.w,
                    im.h, r.x, r.y)


def check(c):
    hi = History(c)
    for o in c['ops']:
        if hi.cur is not None:
            hi.check_cursor('the call before')
        hi.apply(o)
    if hi.cur is None:
        hi.apply(dict(op='page', size=None, rotate=None, margin=None))
    doc, pvs = render(hi.pdf)
    collect(hi, pvs)
    for el in hi.els:
        check_order(el)
        if el.kind == 'text':
            check_text(el)
        elif el.kind == 'table':
            check_table(el)
        elif el.kind == 'content':
            check_content(hi, el)
    check_images(hi, doc)
    drawn = [el for el in hi.els if any(r.words or r.images
                                        for r in el.runs)]
    if any(p.sections for p in hi.pages):
        hi.labels.add('sections')
    return Info(len(drawn) >= 3 and hi.dependent, hi.labels, {
        'calls': [o['op'] for o in c['ops']], 'pages': len(hi.pages)})


PARTS = [Part('history', case_st, check, 5000, 60000)]
