"""C24: footnotes are on the page of their mark, numbered in order."""
from hypothesis import strategies as st

from lib import box, docs
from lib.common import build, fail, require
from lib.harness import Info, Part

TECHNIQUE = ('property-based testing (Hypothesis): marks and notes read off '
             'the pages of generated documents and matched with the '
             'description')
LEVEL_NOTE = ('Random search over places, numbers, lengths and forms of '
              'footnotes in paragraphs, tables, columns and groups; held on '
              'all generated cases, not proved. Trusts lib/interp.py.')
RULE = ('Cases are documents whose words, in contents and notes, are all '
        'unique. On every page the marks must be numbered 1, 2, ... in the '
        'order of the text and the notes below must be exactly those of the '
        'marks. Non-trivial: a page with two notes, or notes on two pages.')
EPS = 0.05

note = st.fixed_dictionaries({
    'n': st.one_of(st.integers(1, 4), st.integers(1, 30)),
    'kind': st.sampled_from(['str', 'list', 'tuple', 'dict', 'style',
                             'named']),
})


def par_st(max_words=120, max_notes=5):
    return st.fixed_dictionaries({
        't': st.just('p'),
        'n': st.one_of(st.integers(1, min(6, max_words)),
                       st.integers(1, max_words)),
        's': st.sampled_from([8, 11, 14]),
        'align': st.sampled_from('lrcj'),
        'lh': st.sampled_from([1, 1.1, 1.5]),
        'notes': st.lists(st.tuples(st.integers(0, 10**4), note).map(list),
                          max_size=max_notes),
        'deep': st.booleans(), 'tuple': st.sampled_from([0, 0, 1, 2])})


@st.composite
def element_st(draw, depth=1):
    kind = draw(st.sampled_from(['p', 'p', 'p', 'p', 't', 'g', 'i'] +
                                ['b'] * depth))
    if kind == 'p':
        return draw(par_st())
    if kind == 't':
        n = draw(st.integers(1, 3))
        return {'t': 't', 'rows': draw(st.lists(st.lists(
            par_st(8, 1), min_size=n, max_size=n), min_size=1, max_size=4)),
            'fill': draw(st.booleans())}
    if kind == 'g':
        return {'t': 'g', 'els': draw(st.lists(par_st(8, 2), min_size=1,
                                               max_size=2))}
    if kind == 'i':
        return {'t': 'i', 'wh': draw(st.sampled_from([[40, 4], [40, 10], [40, 24]])),
                'place': draw(st.sampled_from(['flow', 'normal']))}
    return {'t': 'b', 'cols': draw(st.integers(1, 2)),
            'els': draw(st.lists(element_st(0), min_size=1, max_size=4))}


def narrow(s):
    """No columns in columns: words must fit."""
    if s['cols'] > 1:
        s = dict(s, els=[dict(e, cols=1) if e['t'] == 'b' else e
                         for e in s['els']])
    return s


@st.composite
def case_st(draw):
    w = draw(st.sampled_from([420, 500]))
    return {
        'page': [w, draw(st.sampled_from([450, 520, 700]))],
        'margin': draw(st.sampled_from([[10, 10, 10, 10], [30, 20, 40, 25]])),
        'sections': draw(st.lists(st.fixed_dictionaries({
            'cols': st.sampled_from([1, 1, 2]),
            'els': st.lists(element_st(), min_size=1, max_size=9),
        }).map(narrow), min_size=1, max_size=3)),
        # formats of marks and notes
        'mark': draw(st.sampled_from([None, None, [7, 0.25], [5, 0.75]])),
        'note': draw(st.sampled_from([None, None, 8, 11])),
        'note_color': draw(st.sampled_from([None, None, 'blue'])),
        'color': draw(st.sampled_from([None, None, 'green'])),
        # words of running sections in the first and last sections
        'running': draw(st.sampled_from(
            [[], [], ['top'], ['bottom'], ['top', 'bottom']])),
    }


class Builder:
    def __init__(self):
        self.bld = box.Build()
        self.leaves = []       # [(words with note indexes between, group?)]
        self.notes = []        # words of every note
        self.formats = {'nst': {'i': 1}}
        self.images = 0

    def note(self, p):
        words = ['N' + box.code(len(self.notes) * 40 + i)
                 for i in range(p['n'])]
        self.notes.append(words)
        text = ' '.join(words)
        kind = p['kind']
        v = {'str': text, 'list': [text[:0], text], 'tuple': (text,),
             'dict': {'.': text}, 'style': {'.': text, 'style': {'b': True}},
             'named': {'.': text, 'style': 'nst'}}[kind]
        return {'footnote': v}

    def par(self, p, where):
        n = p['n']
        at = {}
        for pos, q in p['notes']:
            at.setdefault(pos % n, []).append(q)
        seq = []
        out = []
        run = ''
        for i in range(n):
            w = self.bld.word(None)
            seq.append(w)
            run += w
            for j, q in enumerate(at.get(i, [])):
                seq.append(len(self.notes))
                f = self.note(q)
                out += [run, {'.b': [f]} if p['deep'] else f]
                run = ''
            run += ' '
        out.append(run)
        self.leaves.append((seq, where))
        if p['tuple'] == 1:
            out = tuple(out)
        elif p['tuple'] == 2:
            out = [{'.': tuple(out)}]
        return {'.': out, 'style': {
            's': p['s'], 'text_align': p['align'], 'line_height': p['lh']}}

    def element(self, p, where=''):
        t = p['t']
        if t == 'p':
            return self.par(p, where)
        if t == 't':
            d = {'table': [[self.par(c, 'tf' if p['fill'] else 't')
                            for c in r] for r in p['rows']]}
            if p['fill']:
                d['style'] = {'cell_fill': 'yellow'}
            return d
        if t == 'g':
            return {'group': [self.par(c, 'g') for c in p['els']]}
        if t == 'b':
            d = {'content': [self.element(e) for e in p['els']]}
            if p['cols'] > 1:
                d['cols'] = {'count': p['cols'], 'gap': 10}
            return d
        import io
        self.images += 1
        return {'image': io.BytesIO(box.image_bytes(self.images, p['wh'])),
                'extension': 'jpg', 'image_name': 'i%d' % self.images,
                'style': {'image_place': p['place']}}


class Token:
    __slots__ = ('page', 'text', 'mark', 'x1', 'x2', 'base', 'size', 'seq',
                 'rise', 'color')

    def __repr__(self):
        return '%s p%d (%.1f,%.1f)' % (self.text, self.page, self.x1,
                                       self.base)


def tokens(pv):
    """Words and numbers of a page, in drawing order."""
    out = []
    cur = []

    def close(mark):
        t = Token()
        t.page, t.mark = pv.index, mark
        t.text = ''.join(g.ch for g in cur)
        t.x1, t.x2 = cur[0].x, cur[-1].x2
        t.base, t.size, t.seq = cur[0].base, cur[0].size, cur[0].seq
        t.rise, t.color = cur[0].rise, cur[0].color
        out.append(t)
        cur.clear()
    for g in pv.glyphs:
        digit = g.ch.isdigit()
        if cur and cur[0].ch.isdigit() and (
                not digit or g.run != cur[0].run or
                abs(g.x - cur[-1].x2) > 0.1):
            close(True)
        if g.ch == ' ':
            if cur:
                fail('a word is split: %r', ''.join(x.ch for x in cur))
            continue
        if digit and cur and not cur[0].ch.isdigit():
            fail('a word is split: %r', ''.join(x.ch for x in cur))
        cur.append(g)
        if g.ch == '.':
            close(False)
    if cur:
        require(cur[0].ch.isdigit(), 'a word is cut on page %d', pv.index)
        close(True)
    return out


def check(c):
    b = Builder()
    sections = []
    for s in c['sections']:
        d = {'content': [b.element(e) for e in s['els']]}
        if s['cols'] > 1:
            d['cols'] = {'count': s['cols'], 'gap': 10}
        sections.append(d)
    size, rise = c['mark'] or [6, 0.5]
    ns = c['note'] or 10
    if c['mark']:
        b.formats['$footnote'] = {'s': size, 'r': rise}
    own = c.get('color')
    color = {'blue': (0, 0, 1), 'green': (0, .5, 0)}
    text_color = color.get(own, (0.1,))
    note_color = (0,)
    if c['note'] or c.get('note_color'):
        b.formats['$footnotes'] = {'s': ns}
        note_color = text_color
        if c.get('note_color'):
            b.formats['$footnotes']['c'] = c['note_color']
            note_color = color[c['note_color']]
    look = size, size * rise, ns, text_color, note_color
    doc = {
        'style': {'page_size': list(c['page']), 'margin': list(c['margin'])},
        'formats': b.formats, 'sections': sections}
    if own:
        doc['style']['c'] = own
    if c.get('running'):
        doc['running_sections'] = {k: {
            'x': 'left', 'width': 60, 'y': k, 'height': 10,
            'style': {'s': 4}, 'content': ['H%s.' % k[0]]}
            for k in c['running']}
        sections[0]['running_sections'] = list(c['running'])
        sections[-1]['running_sections'] = list(c['running'])
    doc, pvs = build(doc)
    mt, mr, mb, ml = c['margin']
    # what the text says
    owner = {}             # word -> (leaf, position)
    after = {}             # (leaf, position) of a note -> note
    for i, (seq, where) in enumerate(b.leaves):
        for j, x in enumerate(seq):
            if isinstance(x, int):
                after[i, j] = x
            else:
                owner[x] = (i, j)
    note_of = {w: n for n, ws in enumerate(b.notes) for w in ws}
    seen = set()
    page_of = {}
    progress = {}          # leaf -> next position expected
    most = pages_with = 0
    for pv in pvs:
        toks = [t for t in tokens(pv) if t.text[0] != 'H']
        marks, notes = [], []
        content = []
        cur = None         # leaf of the token before
        in_notes = None
        number = None
        for t in toks:
            if t.text[0] == 'N':
                n = note_of.get(t.text)
                require(n is not None, 'unknown word %r in a note', t.text)
                require(t.text not in seen, 'the word %r of a note is shown '
                        'twice', t.text)
                seen.add(t.text)
                if not notes or notes[-1][0] != n:
                    require(number is not None, 'note %r has no number',
                            t.text)
                    notes.append((n, number.text, [number]))
                    number = None
                notes[-1][2].append(t)
            elif t.mark:
                require(number is None, 'number %s of a note without text',
                        number)
                if notes or t.page == pv.index and is_number(t, toks):
                    number = t
                else:
                    require(cur is not None, 'mark %s before any text', t)
                    pos = progress[cur]
                    require((cur, pos) in after, 'mark %s after %r, where '
                            'there is no footnote', t,
                            b.leaves[cur][0][pos - 1])
                    marks.append((after[cur, pos], t))
                    progress[cur] = pos + 1
                    content.append(t)
            else:
                require(not notes, 'the word %r is drawn after the notes',
                        t.text)
                require(t.text in owner, 'unknown word %r', t.text)
                require(t.text not in seen, 'the word %r is shown twice',
                        t.text)
                seen.add(t.text)
                cur, pos = owner[t.text]
                want = progress.get(cur, 0)
                require(pos == want, 'word %r is shown where %r should be',
                        t.text, b.leaves[cur][0][want] if want < len(
                            b.leaves[cur][0]) else None)
                progress[cur] = pos + 1
                content.append(t)
        require(number is None, 'number %s of a note without text', number)
        agree(b, pv, marks, notes)
        looks(pv, look, marks, notes)
        filled(pv, [(t, b.leaves[owner[t.text][0]][1] == 'tf')
                    for t in content if not t.mark])
        for n, t in marks:
            page_of[n] = pv.index
        areas(c, pv, content, notes, mb, mt, ml, mr)
        most = max(most, len(marks))
        pages_with += bool(marks)
    for w in list(owner) + list(note_of):
        require(w in seen, 'the word %r is not shown', w)
    for n in range(len(b.notes)):
        require(n in page_of, 'footnote %r has no mark', b.notes[n][0])
    out = ['notes %d' % min(len(b.notes), 6), 'pages %d' % min(len(pvs), 5)]
    for i, (seq, where) in enumerate(b.leaves):
        if where and any(isinstance(x, int) for x in seq):
            out.append('in a group' if where == 'g' else 'in a table')
    return Info(most > 1 or pages_with > 1, out)


def is_number(t, toks):
    """The first number of a note: the next word is one of a note."""
    i = toks.index(t)
    return i + 1 < len(toks) and toks[i + 1].text[0] == 'N'


def agree(b, pv, marks, notes):
    shown = [t.text for _, t in marks]
    require(shown == [str(i + 1) for i in range(len(marks))], 'page %d: the '
            'marks are numbered %s', pv.index, shown)
    require([n for n, _, _ in notes] == [n for n, _ in marks], 'page %d: '
            'marks of the notes %s, but the notes shown are %s', pv.index,
            [b.notes[n][0] for n, _ in marks],
            [b.notes[n][0] for n, _, _ in notes])
    require([x for _, x, _ in notes] == shown, 'page %d: the notes are '
            'numbered %s, their marks %s', pv.index, [x for _, x, _ in notes],
            shown)
    for n, _, toks in notes:
        got = [t.text for t in toks[1:]]
        require(got == b.notes[n], 'page %d: note %r shows %r', pv.index,
                b.notes[n], got)


def looks(pv, look, marks, notes):
    for _, t in marks:
        require(abs(t.size - look[0]) < EPS and abs(t.rise - look[1]) < EPS,
                'page %d: mark %s has size %s and is raised %s, expected %s',
                pv.index, t, t.size, t.rise, look[:2])
        require(same(t.color, look[3]), 'page %d: mark %s has the colour %s, '
                'expected %s', pv.index, t, t.color, look[3])
    for _, _, toks in notes:
        for t in toks:
            require(same(t.color, look[4]), 'page %d: %s of a note has the '
                    'colour %s, expected %s', pv.index, t, t.color, look[4])
        for t in toks[1:]:
            require(abs(t.size - look[2]) < EPS, 'page %d: %s of a note has '
                    'size %s, expected %s', pv.index, t, t.size, look[2])


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) < 0.006 for x, y in zip(a, b))


def filled(pv, content):
    """The cells with a fill still have it, once"""
    for t, want in content:
        x, y = (t.x1 + t.x2) / 2, t.base + t.size / 3
        n = sum(f.x < x < f.x + f.w and f.y < y < f.y + f.h
                for f in pv.fills)
        require(n == want, 'page %d: %s is on %d fills, expected %d',
                pv.index, t, n, want)


def areas(c, pv, content, notes, mb, mt, ml, mr):
    W, H = c['page']
    low = min([t.base - 0.24 * t.size for t in content] +
              [im.y for im in pv.images], default=H)
    for t in content:
        require(t.x1 > ml - EPS and t.x2 < W - mr + EPS and
                t.base > mb - EPS and t.base + t.size * 0.7 < H - mt + EPS,
                'page %d: %s is outside the margins', pv.index, t)
    if not notes:
        return
    prev = None
    for n, _, toks in notes:
        for t in toks:
            require(t.x1 > ml - EPS and t.x2 < W - mr + EPS and
                    t.base > mb - EPS, 'page %d: %s of a note is outside the '
                    'margins', pv.index, t)
            require(t.base + 0.72 * t.size < low, 'page %d: %s of a note '
                    'overlaps the contents, that reach %.2f', pv.index, t,
                    low)
            if prev is not None and not t.mark:
                require(t.base <= prev.base + EPS and (
                    t.base < prev.base - EPS or t.x1 >= prev.x2 - EPS),
                    'page %d: %s of a note is not after %s', pv.index, t,
                    prev)
            if not t.mark:
                prev = t
    # a line between contents and notes
    top = max(t.base + 0.72 * t.size for _, _, toks in notes for t in toks)
    low = min([low] + [f.y for f in pv.fills])
    require(any(abs(ln.y1 - ln.y2) < EPS and top < ln.y1 < low and
                ln.x1 > ml - EPS and ln.x2 < W - mr + EPS and
                ln.x2 - ln.x1 > 20 and
                not any(abs(o.x1 - o.x2) < EPS and ln.y1 < max(o.y1, o.y2) -
                        0.5 and ln.y1 > min(o.y1, o.y2) - 0.5
                        for o in pv.lines)
                for ln in pv.lines), 'page %d: there is no line between the '
            'contents, that reach %.2f, and the notes, that reach %.2f',
            pv.index, low, top)
    require(prev.base - mb < 12, 'page %d: the notes end %.2f above the '
            'bottom margin', pv.index, prev.base - mb)


PARTS = [Part('notes', case_st, check, 1500, 30000)]
