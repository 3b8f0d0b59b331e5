"""C32: a document can be written at any moment."""
from hypothesis import strategies as st

from checks.c28 import ATTRS, MARGINS, SIZES, History, one, op_st
from lib import nav
from lib.common import pages, require, write
from lib.harness import Info, Part, sut
from lib.same import same_pages

TECHNIQUE = ('stateful property-based testing (Hypothesis) with a '
             'differential oracle: a history of calls with the document '
             'written in between against the same history without that, and '
             'each of the files against a history that ends there')
LEVEL_NOTE = ('Random search over sequences of up to 14 calls and up to four '
              'moments to write. Held on all generated cases, not proved.')
RULE = ('Each case is a sequence of calls on one PDF object and the moments '
        'when it is written. Pages, links, labels and outlines read from the '
        'files are compared. Non-trivial: it is written after at least two '
        'calls, and again after at least two others that draw.')


def case_st():
    tag = st.fixed_dictionaries({
        'op': st.just('tag'), 'level': st.integers(0, 3),
        'title': one(None, 'Title', '(a', '\xe9 \u20ac'),
        'label': one(None, 'a', 'lab(', 'z', 'a'), 'ref': one(None, 'a', 'z'),
        'uri': one(None, None, 'http://a.b/')})
    return st.fixed_dictionaries({
        'size': SIZES, 'margin': MARGINS, 'rotate': st.booleans(),
        'attrs': ATTRS, 'offset': one(0, 0, 7), 'depth': one(1, 1, 2, 3),
        # many labels, so that they take a tree
        'many': one(0, 0, 0, 5, 30),
        # flatmap, since one_of would take each kind of op_st equally often
        'ops': st.lists(st.booleans().flatmap(
            lambda b: tag if b else op_st()), min_size=5, max_size=14),
        'outs': st.lists(st.integers(0, 30), min_size=1, max_size=3),
        'last': st.integers(1, 2)})


class Run(History):
    def __init__(self, c):
        super().__init__(c)
        self.level = -1
        self.pdf.outlines_level = c['depth']
        self.tags = 0
        self.files = []

    def apply(self, o):
        if o['op'] == 'tag':
            self.tag(o)
        else:
            super().apply(o)

    def tag(self, o):
        if self.cur is None:
            super().apply(dict(op='page', size=None, rotate=None,
                               margin=None))
        d = {'.': self.word()}
        self.tags += 1
        if o['label'] is not None:
            d['label'] = '%s%d' % (o['label'], self.tags)
        if o['ref'] is not None:
            d['ref'] = '%s%d' % (o['ref'], self.tags - 1)
        if o['uri'] is not None:
            d['uri'] = o['uri']
        if o['title'] is not None:
            self.level = min(o['level'], self.level + 1)
            d['outline'] = {'text': '%s%d' % (o['title'], self.tags),
                            'level': self.level + 1}
        with sut('text()'):
            if self.c['many']:
                self.pdf.text([{'.': 'm ', 'label': 'm%d-%d' % (self.tags, i)}
                               for i in range(self.c['many'])])
            self.pdf.text([d])
        self.resume()

    def resume(self):
        """Take over where the pages are"""
        while len(self.pages) < len(self.pdf.pages):
            self.new_page()
        self.cur = self.pages[self.pdf.page_index]
        for p, page in zip(self.pages, self.pdf.pages):
            p.x, p.y = page.x, page.y


def moments(c):
    return {k % (len(c['ops']) + 1) for k in c['outs']}


def history(c, ops, outs):
    """Do the operations, and write where outs says"""
    h = Run(c)
    for i, o in enumerate(ops):
        if outs and i in moments(c) and h.cur is not None:
            h.files.append((i, write(h.pdf)))
        h.apply(o)
    if h.cur is None:
        h.apply(dict(op='page', size=None, rotate=None, margin=None))
    for _ in range(c['last'] if outs else 1):
        h.files.append((len(ops), write(h.pdf)))
    return h


def same(a, b, what):
    same_pages(*a, *b, what)
    nav.same_navigation(*a, *b, what)


def check(c):
    h = history(c, c['ops'], True)
    alone = pages(history(c, c['ops'], False).files[0][1])
    seen = {}
    for i, data in h.files:
        got = pages(data)
        if i == len(c['ops']):
            want = alone
        else:
            want = seen.get(i) or pages(
                history(c, c['ops'][:i], False).files[0][1])
        same(want, got, 'the document written once after %d calls, and then '
             'written %d times in all,' % (i, len(h.files)))
        seen[i] = want
    n = nav.navigation(*alone)
    times = sorted({i for i, _ in h.files})
    drawn = [o for o in c['ops'][times[0]:] if o['op'] not in (
        'setup', 'goto', 'attrs', 'cursor', 'section')]
    return Info(len(times) > 1 and len(drawn) > 1 and times[0] > 1,
                ['%d moments' % len(times)] +
                [k for k in ('labels', 'outlines') if n[k]] +
                (['links'] if any(n['links']) else []))


PARTS = [Part('written', case_st, check, 2000, 40000)]
