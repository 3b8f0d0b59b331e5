"""C11: every character is drawn in the style it was given."""
from hypothesis import strategies as st

from lib import par, rich
from lib.common import require
from lib.harness import Info, Part
from checks.c08 import labels

TECHNIQUE = ('property-based testing (Hypothesis): font, size, colour and '
             'rise of every glyph against a reference cascade')
LEVEL_NOTE = ('Random search over nested styles in all four spellings; the '
              'reference cascade is a dozen lines in lib/rich.py. Held on '
              'all generated cases, not proved.')
RULE = ('Cases are documents of up to four paragraphs of nested parts with '
        'styles. Every visible glyph is compared with the cascade of its '
        'enclosing parts over the document defaults. Non-trivial: at least '
        'two different styles are visible.')


def same(g, style, what):
    base = rich.base_font(style)
    require(g.font.base == base, '%s %r is drawn in %s, expected %s', what,
            g.ch, g.font.base, base)
    require(abs(g.size - style['s']) < 0.002, '%s %r is drawn at size %s, '
            'expected %s', what, g.ch, g.size, style['s'])
    require(same_color(g.color, style['c']), '%s %r is drawn in colour %s, '
            'expected %s', what, g.ch, g.color, style['c'])
    r = style['r'] * style['s']
    require(abs(g.rise - r) < 0.002, '%s %r is raised by %s, expected %s',
            what, g.ch, g.rise, r)


def same_color(a, b):
    return len(a) == len(b) and all(abs(x - y) < 0.0035
                                    for x, y in zip(a, b))


def check(c):
    doc, pvs, pars = par.lay_out(c)
    out = labels(c, pvs, pars)
    seen = set()
    for o in pars:
        for ln in o.lines:
            for g, ch in ln.vis:
                same(g, ch.st, 'character')
                seen.add((ch.st['f'], ch.st['b'], ch.st['i'], ch.st['s'],
                          ch.st['c'], ch.st['r']))
        # without text there is no first part whose style it would take
        for g in o.list_glyphs if o.model.first_style else ():
            same(g, o.list_style, 'list text')
    return Info(len(seen) > 1, out | {'%d styles' % min(len(seen), 6)})


def case():
    return st.one_of(
        par.layout_st(node=rich.node_st(max_words=8)),
        par.layout_st(node=rich.node_st(max_words=4, depth=3)),
        par.layout_st(node=rich.node_st(
            ('b', 'i', 'f', 's', 'c'), max_words=4,
            fonts=rich.FONTS + rich.SYMBOLS * 2)))


PARTS = [Part('styles', case, check, 6000, 120000)]
