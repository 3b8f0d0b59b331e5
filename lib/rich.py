"""Rich text: generator of paragraph plans, translation of a plan into the
description pdfme takes, and an independent model of what it must show.

A plan is JSON. A node is {'st': {attr: value}, 'form': 'dot'|'dict'|'mix'|
'fmt', 'kids': [leaf | node, ...], 'tag': {...}}; a leaf is a list of word
codes: code % 64 picks a word, code // 64 the separator written after it; a
negative code stands for a separator without a word.
"""
from hypothesis import strategies as st

WORDS = [
    'a', 'of', 'the', 'lorem', 'ipsum', 'dolor', 'I', 'm', 'WW', 'sit',
    'amet,', 'elit.', 'sed', 'do', 'eius-mod', 'tempor', 'x', 'labore', 'et',
    'magna', 'ad', 'minim', 'veniam', 'quis', 'nostrud', 'ut', 'aliquip',
    'ex', 'ea', 'commodo', 'duis', 'aute', 'in', 'velit', 'esse', 'cillum',
    'eu', 'nulla', 'sint', 'non', 'est', 'id', '(paren)', '(', ')', ')(',
    'back\\slash', '\\', '\\n', '\\(', 'caf\xe9', '\xc0\xff\xb5', '\xdf',
    'q"uote', "it's", '$5%', '<tag>', '{brace}', '[3]', 'under_score',
    'incomprehensibilities', 'MMMMMMMM', 'iiiiiiiiiiii', '#@&*;:',
]
SEPS = [' ', ' ', ' ', ' ', ' ', '', '  ', '\n']
assert len(WORDS) == 64

COLORS = [      # (spelling, components)
    (0.5, (0.5,)), (0, (0.0,)), (0.25, (0.25,)), ('red', (1.0, 0.0, 0.0)),
    ('blue', (0.0, 0.0, 1.0)), ('green', (0.0, 0.504, 0.0)),
    ('#3366cc', (0.2, 0.4, 0.8)), ('#f0c', (1.0, 0.0, 0.8)),
    ('0.1 0.2 0.3', (0.1, 0.2, 0.3)), ('0.75', (0.75,)),
    ('black', (0.0, 0.0, 0.0)),
]
LIST_COLORS = COLORS + [([0.3, 0.6, 0.9], (0.3, 0.6, 0.9)), ([0.4], (0.4,))]
SIZES = [11, 8, 14, 6.5, 20, 10]
RISES = [0.5, -0.3, 0.25, -0.5]
FONTS = ['Helvetica', 'Times', 'Courier']
SYMBOLS = ['Symbol', 'ZapfDingbats']
BASE = {
    ('Helvetica', False, False): 'Helvetica',
    ('Helvetica', True, False): 'Helvetica-Bold',
    ('Helvetica', False, True): 'Helvetica-Oblique',
    ('Helvetica', True, True): 'Helvetica-BoldOblique',
    ('Times', False, False): 'Times-Roman',
    ('Times', True, False): 'Times-Bold',
    ('Times', False, True): 'Times-Italic',
    ('Times', True, True): 'Times-BoldItalic',
    ('Courier', False, False): 'Courier',
    ('Courier', True, False): 'Courier-Bold',
    ('Courier', False, True): 'Courier-Oblique',
    ('Courier', True, True): 'Courier-BoldOblique',
}
DEFAULT = {'f': 'Helvetica', 'b': False, 'i': False, 's': 11, 'c': (0.1,),
           'u': False, 'bg': None, 'r': 0}


def suffix(n):
    s = ''
    n += 1
    while n:
        n -= 1
        s = chr(97 + n % 26) + s
        n //= 26
    return s


def style_st(attrs=('b', 'i', 's', 'f', 'u', 'c', 'bg', 'r'), sizes=SIZES,
             fonts=FONTS):
    vals = {
        'b': st.booleans(), 'i': st.booleans(), 'u': st.booleans(),
        's': st.sampled_from(sizes), 'f': st.sampled_from(fonts),
        'c': st.integers(0, len(COLORS) - 1),
        'bg': st.one_of(st.integers(0, len(COLORS) - 1), st.none()),
        'r': st.sampled_from(RISES),
    }

    @st.composite
    def draw_style(draw):
        k = draw(st.lists(st.sampled_from(attrs), max_size=3, unique=True))
        return {a: draw(vals[a]) for a in k}
    return draw_style()


def leaf_st(max_words=12, seps=8):
    word = st.integers(0, 64 * seps - 1)
    bare = st.sampled_from([-1, -1, -2, -3 if seps > 7 else -1])
    text = st.lists(word, min_size=0, max_size=max_words)
    mixed = st.lists(st.one_of(word, word, bare), min_size=0, max_size=4)
    return st.integers(0, 7).flatmap(
        lambda k: mixed if k == 6 else
        st.lists(bare, min_size=1, max_size=1) if k == 7 else text)


def node_st(attrs=('b', 'i', 's', 'f', 'u', 'c', 'bg', 'r'), max_words=12,
            seps=8, tags=None, depth=2, forms=('dot', 'dict', 'mix', 'fmt'),
            sizes=SIZES, max_kids=5, fonts=FONTS):
    sty = style_st(attrs, sizes, fonts)
    leaf = leaf_st(max_words, seps)

    def mk(kids):
        d = {'st': sty, 'form': st.sampled_from(forms), 'kids': kids}
        if tags is not None:
            d['tag'] = tags
        return st.fixed_dictionaries(d)
    node = mk(st.lists(leaf, max_size=2))
    for _ in range(depth):
        node = mk(st.lists(st.one_of(leaf, node), min_size=0,
                           max_size=max_kids))
    return node


class Char:
    __slots__ = ('ch', 'st', 'tags', 'word')

    def __repr__(self):
        return self.ch


class Model:
    """Expected characters of one paragraph."""

    def __init__(self):
        self.words = []       # list of lists of Char
        self.breaks = {}      # index of word -> number of \n before it
        self.gaps = {}        # index of word -> styles of the space before it
        self.after = {}       # index of word -> styles of what precedes the
        #                       break after it
        self.tail = []        # styles of what follows the last word
        self.parts = []       # (tag, [Char]) of every tagged node, in order
        self.vars = {}
        self.first_style = None   # style of the first character, even a space

    def chars(self):
        return [c for w in self.words for c in w]

    def text(self):
        out = ''
        for i, w in enumerate(self.words):
            out += ('\n' * self.breaks.get(i, 0) or (' ' if i else '')) + \
                ''.join(c.ch for c in w)
        return out


class Builder:
    """Turns plans into pdfme descriptions and models, giving every word of
    the document its own unique text."""

    def __init__(self, prefix='', formats=None):
        self.n = 0
        self.prefix = prefix
        self.formats = formats if formats is not None else {}
        self.ntag = 0

    def word(self, code):
        w = WORDS[code % 64] + self.prefix + suffix(self.n)
        self.n += 1
        return w

    def leaf_text(self, leaf):
        out = ''
        for code in leaf:
            if code < 0:
                out += ['', ' ', '  ', '\n'][-code]
                continue
            out += self.word(code) + SEPS[code // 64]
        return out

    def paragraph(self, plan, base=None):
        """-> (description for pdfme, Model)"""
        m = Model()
        m._cur = None          # current word or None
        m._nl = 0
        m._gap = []
        m._tags = []
        base = dict(DEFAULT, **(base or {}))
        content = self._node(plan, base, m, [])
        m.base = base
        m.tail = m._gap
        m.trailing_breaks = m._nl
        return content, m

    def _node(self, plan, style, m, tags):
        style = dict(style)
        for k, v in plan['st'].items():
            if k in ('c', 'bg'):
                v = None if v is None else COLORS[v][1]
            style[k] = v
        d = {}
        tag = self.make_tag(plan.get('tag'), d)
        if tag is not None:
            tags = tags + [tag]
            tag['chars'] = []
            tag['style'] = style
            m.parts.append(tag)
        kids = []
        m._gap.append(style)
        if tag is not None and 'var' in tag:
            text = self.leaf_text(tag['var'])
            name = 'v%d' % self.ntag
            m.vars[name] = text
            d['var'] = name
            self._feed(text, style, m, tags)
            tag['own'] = tag['text'] = text
            tag['nested'] = False
        else:
            own = ''
            for k in plan['kids']:
                if isinstance(k, list):
                    t = self.leaf_text(k)
                    own += t
                    self._feed(t, style, m, tags)
                    kids.append(t)
                else:
                    m._gap.append(style)
                    kids.append(self._node(k, style, m, tags))
                m._gap.append(style)
            if tag is not None:
                tag['own'] = own
                tag['text'] = plain(kids)
                tag['nested'] = any(isinstance(k, dict) for k in kids)
        self.spell(plan, kids, d)
        return d

    def spell(self, plan, kids, d):
        """Write the node's style in one of the documented ways."""
        sty = plan['st']
        form = plan['form']
        asdict = {}
        for k, v in sty.items():
            if k in ('c', 'bg'):
                asdict[k] = None if v is None else COLORS[v][0]
            else:
                asdict[k] = v
        items = sorted(asdict.items())
        if form == 'dot':
            d['.' + self.dot(items)] = kids
        elif form == 'dict':
            d['.'] = kids
            d['style'] = asdict
        elif form == 'fmt':
            name = 'fmt%d' % len(self.formats)
            self.formats[name] = asdict
            d['.'] = kids
            d['style'] = name
        else:
            h = len(items) // 2
            d['.' + self.dot(items[:h])] = kids
            d['style'] = dict(items[h:])

    def dot(self, items):
        out = []
        for k, v in items:
            if k in 'biu':
                out.append(k if v and len(out) % 2 else '%s:%d' % (k, v))
            elif v is None:
                out.append(k + ':')
            else:
                out.append('%s:%s' % (k, v))
        return ';'.join(out)

    def make_tag(self, tag, d):
        if not tag:
            return None
        self.ntag += 1
        t = dict(tag)
        if t.get('label'):
            t['label'] = self.label_name(t['label'])
            d['label'] = t['label']
        if t.get('uri') is not None:
            d['uri'] = t['uri']
        if t.get('ref') is not None:
            d['ref'] = t['ref']
        if t.get('outline') is not None:
            d['outline'] = dict(t['outline'])
            if 'text' in d['outline']:
                d['outline']['text'] += str(self.ntag)
            t['outline'] = dict(d['outline'])
        return t

    def label_name(self, kind):
        return '%s%d' % (kind, self.ntag)

    def _feed(self, text, style, m, tags):
        for ch in text:
            if ch != '\n' and m.first_style is None:
                m.first_style = style
            if ch == '\n':
                m._cur = None
                m._nl += 1
                m.after.setdefault(len(m.words) - 1, []).extend(m._gap)
                m._gap = [style]
            elif ch == ' ':
                m._cur = None
                m._gap.append(style)
            else:
                if m._cur is None:
                    m._cur = []
                    if m._nl:
                        m.breaks[len(m.words)] = m._nl
                    m._nl = 0
                    m.gaps[len(m.words)] = m._gap
                    m._gap = []
                    m.words.append(m._cur)
                c = Char()
                c.ch, c.st, c.word = ch, style, len(m.words) - 1
                c.tags = tags
                for t in tags:
                    t['chars'].append(c)
                m._cur.append(c)


def plain(kids):
    out = ''
    for k in kids:
        if isinstance(k, dict):
            out += plain([v for d, v in k.items() if d[0] == '.'][0])
        else:
            out += k
    return out


def base_font(style):
    if style['f'] in SYMBOLS:
        return style['f']       # it has a single mode
    return BASE[(style['f'], bool(style['b']), bool(style['i']))]
