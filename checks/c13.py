"""C13: equivalent ways of writing a style give the same document."""
import io

from hypothesis import strategies as st

from lib import box
from lib.common import pages, require, sut, write
from lib.harness import Info, Part, fail, quiet
from lib.same import close, same_pages

TECHNIQUE = ('property-based testing (Hypothesis): metamorphic comparison of '
             'the pages of two spellings of one generated document; colours '
             'drawn compared with their documented value; enumeration of all '
             'colour names; mutated malformed spellings')
LEVEL_NOTE = ('Random search over documents, style and colour spellings; all '
              '148 colour names are enumerated. Held on all generated cases, '
              'not proved.')
RULE = ('spelling: a document with styles and colours, each written in one of '
        'its accepted ways, drawn at random; non-trivial if at least three '
        'styles or colours are written differently in the two documents. '
        'colour: one colour, at one of the places taking colours, in one '
        'spelling; all non-trivial but black. malformed: one malformed style '
        'string, style or colour in an otherwise valid document; all '
        'non-trivial.')

# plans ---------------------------------------------------------------------

# a colour is its components in 1/255 (one for gray) or None
CHANNEL = st.one_of(st.sampled_from([0, 255, 51, 136, 17]),
                    st.integers(0, 255))
COLOR = st.one_of(
    st.tuples(CHANNEL).map(list),
    st.tuples(CHANNEL, CHANNEL, CHANNEL).map(list),
    st.sampled_from([[255, 0, 0], [0, 0, 255], [0, 0, 0], [255, 255, 255],
                     [0, 255, 0], [255, 255, 0], [0, 255, 255],
                     [255, 0, 255]]))
NAMES = {(255, 0, 0): 'red', (0, 0, 255): 'blue', (0, 0, 0): 'black',
         (255, 255, 255): 'white', (0, 255, 0): 'lime',
         (255, 255, 0): 'yellow', (0, 255, 255): 'cyan',
         (255, 0, 255): 'magenta'}
TEXT_ATTRS = ('b', 'i', 'u', 's', 'f', 'c', 'bg', 'r')
COLOR_ATTRS = ('c', 'bg', 'cell_fill', 'border_color', 'color')


def opt(**kw):
    return st.fixed_dictionaries({}, optional=kw)


TEXT = dict(b=st.booleans(), i=st.booleans(), u=st.booleans(),
            s=st.sampled_from([8, 12, 9.5, 20]),
            f=st.sampled_from(['Times', 'Courier', 'Helvetica']), c=COLOR,
            bg=st.one_of(st.none(), COLOR),
            r=st.sampled_from([0.5, -0.25, 0]))
PAR = dict(text_align=st.sampled_from('lrcj'),
           line_height=st.sampled_from([1, 1.5, 2]),
           indent=st.sampled_from([0, 12.5]))
MARGIN = {k: st.sampled_from([0, 4, 11.5]) for k in (
    'margin_left', 'margin_right', 'margin_top', 'margin_bottom')}
CELL = {k: st.sampled_from([0, 3, 8]) for k in (
    'cell_margin', 'cell_margin_left', 'cell_margin_top')}
CELL['cell_fill'] = COLOR
TABLE = dict(CELL, border_color=COLOR,
             border_width=st.sampled_from([0, 1, 2.5]),
             border_style=st.sampled_from(['solid', 'dotted', 'dashed']))

WORDS = ['lorem', 'ipsum', 'dolor', 'sit', 'amet', 'minim', 'WWW', 'ill',
         '12', '7.5', '0']
STR = st.lists(st.integers(0, 10), min_size=1, max_size=9)


def node(depth=2):
    kid = STR if depth == 0 else st.one_of(STR, STR, node(depth - 1))
    return st.fixed_dictionaries({
        'st': opt(**TEXT), 'kids': st.one_of(
            st.lists(kid, min_size=1, max_size=3),
            st.lists(kid, min_size=1, max_size=3),
            st.integers(8, 10).map(lambda i: [[i]]))})


LIST = st.one_of(st.none(), st.none(), opt(**TEXT))
PARAGRAPH = st.fixed_dictionaries({
    't': st.just('p'), 'node': node(), 'ps': opt(**dict(PAR, **MARGIN)),
    'list': LIST})
PLAIN_CELL = st.fixed_dictionaries({
    'node': node(1), 'cs': opt(**dict(CELL, **PAR))})
TABLES = st.integers(1, 3).flatmap(lambda n: st.fixed_dictionaries({
    't': st.just('t'), 'st': opt(**TABLE),
    'rows': st.lists(st.lists(PLAIN_CELL, min_size=n, max_size=n),
                     min_size=1, max_size=3),
    'borders': st.lists(opt(color=COLOR, width=st.sampled_from([1, 3])),
                        max_size=2),
    'fills': st.lists(COLOR, max_size=2)}))
IMAGE = st.fixed_dictionaries({
    't': st.just('i'), 'st': opt(**dict(MARGIN, image_place=st.just(
        'normal')))})
GROUP = st.fixed_dictionaries({
    't': st.just('g'), 'st': opt(**MARGIN),
    'els': st.lists(st.fixed_dictionaries({
        't': st.just('p'), 'node': node(0), 'ps': opt(**MARGIN),
        'list': st.none()}), min_size=1, max_size=2)})
ELEMENT = st.one_of(PARAGRAPH, PARAGRAPH, TABLES, IMAGE, GROUP)
BOX = st.fixed_dictionaries({
    't': st.just('b'), 'st': opt(**dict(TEXT, **MARGIN)),
    'cols': st.integers(1, 2),
    'els': st.lists(ELEMENT, min_size=1, max_size=3)})
SPELL = st.lists(st.integers(0, 59), min_size=30, max_size=90)


def spelling_case():
    return st.fixed_dictionaries({
        'how': st.sampled_from(['pdf', 'document']),
        'els': st.lists(st.one_of(ELEMENT, BOX), min_size=1, max_size=4),
        'default': opt(c=COLOR, f=TEXT['f'], s=TEXT['s']),
        'section': opt(**dict(MARGIN, **PAR)),
        'run': opt(**dict(TEXT, **PAR)),
        'a': SPELL, 'b': SPELL})


# spelling ------------------------------------------------------------------

def number(n):
    v = n / 255
    return int(v) if v == int(v) else v


def hexes(c):
    h = '#%02x%02x%02x' % tuple(c)
    out = [h, h.upper()]
    if all(v % 17 == 0 for v in c):
        out.append('#%x%x%x' % tuple(v // 17 for v in c))
        out.append(out[-1].upper())
    return out


def color_strings(c):
    """Spellings of a colour as a string."""
    if c is None:
        return ['']
    ns = [repr(number(v)) for v in c]
    out = [' '.join(ns)]
    if len(c) == 3:
        out += hexes(c) + [','.join(ns), ', '.join(ns)]
        if tuple(c) in NAMES:
            out += [NAMES[tuple(c)]] * 2
    return out


def color_values(c):
    """Spellings of a colour as any value."""
    if c is None:
        return [None, '']
    ns = [number(v) for v in c]
    out = color_strings(c) + [ns, tuple(ns), [str(n) for n in ns]]
    if len(c) == 1:
        out += [ns[0], float(ns[0])]
    return out


class Speller:
    """Writes a plan, choosing among equivalent spellings."""

    def __init__(self, choices, formats):
        self.choices = list(choices)
        self.formats = formats
        self.log = []
        self.images = 0

    def pick(self, options):
        k = self.choices.pop(0) % len(options) if self.choices else 0
        self.log.append(k)
        return options[k]

    def value(self, k, v):
        if k in COLOR_ATTRS:
            return self.pick(color_values(v))
        if k in ('b', 'i', 'u'):
            return self.pick([v, int(v)])
        return v

    def dot_item(self, k, v):
        if k in ('b', 'i', 'u'):
            opts = ['%s:%d' % (k, v)]
            if v:
                opts.append(k)
            out = self.pick(opts)
        elif k in COLOR_ATTRS:
            out = '%s:%s' % (k, self.pick(color_strings(v)))
        else:
            out = '%s:%s' % (k, self.pick([repr(v), ' %r' % v])
                             if not isinstance(v, str) else v)
        return out

    def put(self, d, style, dot=None, always=False):
        """Writes a style in d; dot is what the dot key holds, if any."""
        items = sorted(style.items())
        text = [x for x in items if x[0] in TEXT_ATTRS]
        own = []
        if dot is not None:
            n = self.pick([0, len(text), len(text), len(text) // 2])
            own = text[:n]
            d['.' + ';'.join(self.dot_item(k, v) for k, v in own)] = dot
        rest = {k: self.value(k, v) for k, v in items if (k, v) not in own}
        form = self.pick(['dict', 'named'])
        if form == 'named':
            name = 'fmt %d' % len(self.formats)
            self.formats[name] = rest
            d['style'] = name
        elif rest or always:
            d['style'] = rest
        return d

    def list_style(self, style):
        if style is None:
            return {}
        d = self.put({}, style, always=True)
        return {'list_text': '1. ', 'list_indent': 25,
                'list_style': d['style']}

    def text(self, words):
        """Text as a list of strings and numbers"""
        how = self.pick(['one', 'one', 'words', 'numbers'])
        words = [WORDS[i] for i in words]
        if how == 'one':
            return [' '.join(words) + ' ']
        if how == 'words':
            return [w + ' ' for w in words]
        return [v for w in words for v in (
            float(w) if '.' in w else int(w) if w.isdigit() else w, ' ')]

    def node(self, p, extra=(), bare=False):
        if bare and p['kids'] in ([[8]], [[9]], [[10]]):
            # one number alone
            word = WORDS[p['kids'][0][0]]
            kids = self.pick([[word], word, (word,), self.text(
                p['kids'][0])[:1], float(word) if '.' in word else int(word)])
            if kids == [word + ' ']:
                kids = word
        else:
            kids = []
            for k in p['kids']:
                kids += self.text(k) if isinstance(k, list) else [
                    self.node(k)]
            form = self.pick(['list', 'tuple', 'string'])
            if form == 'tuple':
                kids = tuple(kids)
            elif form == 'string' and len(kids) == 1 and \
                    isinstance(kids[0], str):
                kids = kids[0]
        style = dict(p['st'], **dict(extra))
        if bare and not style and self.pick([True, False]):
            # a paragraph without a style needs no dict
            return kids
        return self.put({}, style, kids)

    def element(self, p):
        t = p['t']
        if t == 'p':
            return self.node(p['node'], dict(p['ps'], **self.list_style(
                p['list'])), True)
        if t == 't':
            d = {'table': [[self.node(x['node'], x['cs'], True) for x in row]
                           for row in p['rows']]}
            if p['borders']:
                d['borders'] = [dict({k: self.value(k, v)
                                      for k, v in b.items()}, pos=pos)
                                for b, pos in zip(p['borders'],
                                                  ['h0,1;', 'v1;:'])]
            if p['fills']:
                d['fills'] = [{'pos': pos, 'color': self.value('color', c)}
                              for c, pos in zip(p['fills'], ['::2;:', '0;0'])]
            return self.put(d, p['st'])
        if t == 'i':
            self.images += 1
            return self.put({
                'image': io.BytesIO(box.image_bytes(self.images, [60, 20])),
                'extension': 'jpg', 'image_name': 'i%d' % self.images},
                p['st'])
        if t == 'g':
            return self.put({'group': [self.element(e) for e in p['els']]},
                            p['st'])
        d = {'content': [self.element(e) for e in p['els']]}
        if p['cols'] > 1:
            d['cols'] = {'count': p['cols'], 'gap': 10}
        return self.put(d, p['st'])


def make(c, choices):
    """-> (pages, choices made)"""
    from pdfme import PDF, build_pdf
    formats = {}
    sp = Speller(choices, formats)
    els = [sp.element(e) for e in c['els']]
    if c['how'] == 'pdf':
        d = dict(c['default'])
        kw = {}
        for k, arg in (('c', 'font_color'), ('f', 'font_family'),
                       ('s', 'font_size')):
            if k in d:
                kw[arg] = sp.value(k, d[k])
        with sut():
            pdf = PDF(page_size=(420, 560), margin=15, **kw)
            pdf.formats.update(formats)
            pdf.add_page()
        for p, e in zip(c['els'], els):
            with sut():
                if p['t'] == 'p' and not p['ps'] and p['list'] is None:
                    # text() takes no number alone
                    pdf.text([e] if isinstance(e, (int, float)) else e)
                elif p['t'] == 't':
                    pdf.table(e['table'], style=e.get('style'),
                              borders=e.get('borders'), fills=e.get('fills'))
                else:
                    pdf.content({'content': [e]})
        data = write(pdf)
    else:
        d = c['default']
        style = {'page_size': (420, 560), 'margin': 15}
        for k, arg in (('c', 'c'), ('f', 'f'), ('s', 's')):
            if k in d:
                style[arg] = sp.value(k, d[k])
        run = sp.put({'content': [{'.': 'running'}], 'x': 'left',
                      'y': 'top', 'height': 30}, c['run'])
        sec = sp.put({'content': els, 'running_sections': ['r']},
                     c['section'])
        b = io.BytesIO()
        with sut():
            build_pdf({'style': style, 'formats': formats,
                       'running_sections': {'r': run}, 'sections': [sec]}, b)
        data = b.getvalue()
    return pages(data), sp.log


def check_spelling(c):
    (da, pa), la = make(c, c['a'])
    (db, pb), lb = make(c, c['b'])
    same_pages(da, pa, db, pb, 'equivalent spellings')
    n = sum(a != b for a, b in zip(la, lb))
    return Info(n >= 3, {c['how']} | {'element ' + e['t'] for e in c['els']},
                '%s: %d of %d choices differ; elements %s' % (
                    c['how'], n, len(la), [e['t'] for e in c['els']]))


# colours -------------------------------------------------------------------

PLACES = ['dot c', 'style c', 'dot bg', 'style bg', 'font_color', 'cell_fill',
          'own cell_fill', 'fills', 'border_color', 'borders', 'underline',
          'list_style']


def place(pdf, where, value):
    """Draw something whose colour is value."""
    if where == 'dot c':
        pdf.text({'.c:%s' % value: 'x'})
    elif where == 'style c':
        pdf.text({'.': 'x', 'style': {'c': value}})
    elif where == 'dot bg':
        pdf.text({'.bg:%s' % value: 'x'})
    elif where == 'style bg':
        pdf.text({'.': 'x', 'style': {'bg': value}})
    elif where == 'font_color':
        pdf.text('x')
    elif where == 'underline':
        pdf.text({'.u': 'x', 'style': {'c': value}})
    elif where == 'list_style':
        pdf.text('x', list_text='1 ', list_style={'c': value})
    elif where == 'cell_fill':
        pdf.table([['x']], style={'cell_fill': value})
    elif where == 'own cell_fill':
        pdf.table([[{'.': 'x', 'style': {'cell_fill': value}}]])
    elif where == 'fills':
        pdf.table([['x']], fills=[{'pos': '0;0', 'color': value}])
    elif where == 'border_color':
        pdf.table([['x']], style={'border_color': value, 'border_width': 1})
    else:
        pdf.table([['x']], borders=[{'pos': p, 'color': value} for p in (
            'h:', 'v:')])


def seen(pv, where):
    if where in ('dot c', 'style c', 'font_color'):
        return [g.color for g in pv.glyphs]
    if where == 'list_style':
        return [g.color for g in pv.glyphs[:1]]
    if where in ('underline', 'border_color', 'borders'):
        return [x.color for x in pv.lines]
    return [x.color for x in pv.fills]


def show(where, value):
    from pdfme import PDF
    kw = {'font_color': value} if where == 'font_color' else {}
    with sut('colour %r as %s' % (value, where)):
        pdf = PDF(page_size=200, margin=20, **kw)
        pdf.add_page()
        place(pdf, where, value)
    doc, pvs = pages(write(pdf))
    got = seen(pvs[0], where)
    require(got, 'colour %r as %s draws nothing', value, where)
    return got


def colour_case():
    return st.fixed_dictionaries({
        'c': COLOR, 'place': st.sampled_from(PLACES),
        'how': st.integers(0, 30)})


def check_colour(c):
    opts = color_strings(c['c']) if c['place'].startswith('dot') else \
        color_values(c['c'])
    value = opts[c['how'] % len(opts)]
    want = [v / 255 for v in c['c']]
    for got in show(c['place'], value):
        require(got is not None and close(got, want, 0.0006),
                'colour %r as %s is drawn as %s, not %s', value, c['place'],
                got, want)
    return Info(any(c['c']), {c['place'], type(value).__name__},
                '%s %r' % (c['place'], value))


def names():
    return [{'name': n, 'place': p} for n in css()
            for p in ('dot c', 'style bg', 'border_color')]


def css():
    from PIL import ImageColor
    return sorted(ImageColor.colormap)


def check_name(c):
    from PIL import ImageColor
    want = [v / 255 for v in ImageColor.getrgb(c['name'])]
    for got in show(c['place'], c['name']):
        require(close(got, want, 0.006), 'the colour %s is drawn as %s, not '
                '%s', c['name'], got, want)
    return Info(True, [c['place']], c['name'])


# malformed -----------------------------------------------------------------

BAD_COLORS = st.one_of(
    st.sampled_from(['reddish', 'Red!', '#', '#1', '#12', '#12345', '#ggg',
                     '#12 ', '# 12', '#-12', '#+12345', '# 12345', '#1_2345',
                     '#12345g', 'rgb', '0.1 0.2', '1 2 x', 'x', '-', '.',
                     '0.1 0.2 0.3 0.4 0.5', 'nan', 'inf', '0 nan 0', ' ',
                     'red blue', '0,5', '1 1', 'None', '0x1']),
    # a hexadecimal code with one wrong digit
    st.tuples(st.sampled_from([3, 6]), st.integers(0, 5),
              st.sampled_from('ghxz_-+ .')).map(
        lambda t: '#' + ''.join(t[2] if i == t[1] % t[0] else 'a'
                                for i in range(t[0]))),
    # a hexadecimal code of a wrong length
    st.sampled_from([1, 2, 5, 7, 9, 10]).map(lambda n: '#' + 'c' * n)
    .filter(lambda s: len(s) not in (4, 5, 7, 9)),
    st.text('abcdefz0.# ', min_size=1, max_size=6).filter(
        lambda s: not good_color(s)))
BAD_VALUES = st.one_of(
    st.lists(st.floats(0, 1), max_size=7).filter(
        lambda l: len(l) not in (1, 3, 4)),
    st.lists(st.sampled_from([0.5, 'x', None, '#fff', 'red']), min_size=1,
             max_size=4).filter(lambda l: any(
                 v in ('x', None, '#fff', 'red') for v in l)),
    st.sampled_from([{'r': 1}, {}]))


def good_color(s):
    """Whether a string might be taken for a colour."""
    if s.startswith('#'):
        return len(s) in (4, 5, 7, 9) and all(
            ch in '0123456789abcdef' for ch in s[1:])
    if s in ('tan', 'red'):
        return True
    parts = s.replace(',', ' ').split()
    try:
        [float(p) for p in parts]
    except ValueError:
        return False
    return len(parts) in (1, 3, 4)


ITEMS = ['b', 'i', 'u', 'b:1', 's:12', 'c:red', 'bg:', 'f:Times', 'r:0.2',
         'u:0', 'c:#fff']
BAD_ITEMS = ['x', 'bold', 'B', 's', 'c', 'bg', 'f', 'r', 'b:2', 'b:true',
             'i:yes', 'u:-1', 's:', 's:big', 's:1x', 's:inf', 's:nan', 'r:',
             'r:up', 'r:nan', 'r:inf', 'f:', 'f:Comic', 'f:helvetica',
             'color:red', 'x:1', 'b:1:2', 's:10:', 'c:red:blue', ':', ':1',
             'b,i', 'b i', 's 12', 's=12', 'b:', 'bu', 'size:12', 'ss:1',
             'cb:red', '.b', 'c:redd', 'bg:#12', 'c:0.1 0.2']


def malformed_case():
    return st.one_of(
        st.fixed_dictionaries({
            'k': st.just('dot'), 'before': st.lists(st.sampled_from(ITEMS),
                                                    max_size=2),
            'bad': st.sampled_from(BAD_ITEMS),
            'after': st.lists(st.sampled_from(ITEMS), max_size=2),
            'where': st.sampled_from(['text', 'nested', 'content', 'cell',
                                      'group', 'footnote', 'section'])}),
        st.fixed_dictionaries({
            'k': st.just('color'), 'bad': BAD_COLORS,
            'where': st.sampled_from(PLACES)}).filter(
                # values in style strings are stripped
                lambda c: not c['where'].startswith('dot') or
                c['bad'].strip() and not good_color(c['bad'].strip())),
        st.fixed_dictionaries({
            'k': st.just('color'), 'bad': BAD_VALUES,
            'where': st.sampled_from([p for p in PLACES
                                      if not p.startswith('dot')])}),
        st.fixed_dictionaries({
            'k': st.just('style'),
            'bad': st.sampled_from(['unknown', 'b', '.b', 'fmt ', 3, ['b'],
                                    1.5, True]),
            'where': st.sampled_from(['text', 'nested', 'content', 'box',
                                      'cell', 'table', 'image', 'group',
                                      'list', 'section', 'footnote'])}))


def bad_document(c):
    from pdfme import PDF, build_pdf
    where, bad = c['where'], c['bad']
    out = io.BytesIO()
    if c['k'] == 'color':
        kw = {'font_color': bad} if where == 'font_color' else {}
        pdf = PDF(page_size=200, margin=20, **kw)
        pdf.add_page()
        place(pdf, where, bad)
        pdf.output(out)
        return out
    if c['k'] == 'dot':
        p = {'.' + ';'.join(c['before'] + [bad] + c['after']): 'x'}
    else:
        p = {'.': 'x', 'style': bad}
    if where in ('section', 'footnote'):
        els = [p] if where == 'section' and c['k'] == 'dot' else ['x']
        if where == 'footnote':
            els = [{'.': ['x', {'footnote': p}]}]
        sec = {'content': els}
        if where == 'section' and c['k'] == 'style':
            sec['style'] = bad
        build_pdf({'formats': {'fmt': {'b': 1}}, 'sections': [sec]}, out)
        return out
    pdf = PDF(page_size=200, margin=20)
    pdf.formats['fmt'] = {'b': 1}
    pdf.add_page()
    if where == 'text':
        pdf.text(p)
    elif where == 'nested':
        pdf.text({'.': ['y ', p, ' z']})
    elif where == 'content':
        pdf.content({'content': ['y', p]})
    elif where == 'cell':
        pdf.table([['y', p]])
    elif where == 'group':
        pdf.content({'content': [
            {'group': [p, 'y']} if c['k'] == 'dot' else
            {'group': ['y'], 'style': bad}]})
    elif where == 'table':
        pdf.table([['y']], style=bad)
    elif where == 'box':
        pdf.content({'content': ['y'], 'style': bad})
    elif where == 'list':
        pdf.text('y', list_text='1', list_style=bad)
    elif where == 'image':
        pdf.content({'content': [{
            'image': io.BytesIO(box.image_bytes(1, [60, 20])),
            'extension': 'jpg', 'image_name': 'x', 'style': bad}]})
    pdf.output(out)
    return out


def check_malformed(c):
    try:
        with quiet():
            bad_document(c)
    except Exception:
        return Info(True, ['%s in %s' % (c['k'], c['where'])],
                    '%s %r in %s' % (c['k'], c['bad'], c['where']))
    fail('the malformed %s %r is accepted (%s)', {
        'dot': 'style string', 'color': 'colour', 'style': 'style'}[c['k']],
        c['bad'], c['where'])


PARTS = [
    Part('spelling', spelling_case, check_spelling, 2000),
    Part('colour', colour_case, check_colour, 1600),
    Part('names', None, check_name, 0, enumerate_=names),
    Part('malformed', malformed_case, check_malformed, 1600),
]
