"""Navigation structures of a written file: name tree, outlines, links."""
import re

from .pdfread import PdfError, Ref, Str
from .harness import Violation, require


def text(s):
    """A PDF text string."""
    if not isinstance(s, Str):
        raise Violation('expected a string, found %r' % (s,))
    if s[:2] == b'\xfe\xff':
        return bytes(s[2:]).decode('utf-16-be')
    return bytes(s).decode('latin-1')


def resolve_dest(doc, d, index):
    d = doc.resolve(d)
    if isinstance(d, dict):
        d = doc.resolve(d.get('D'))
    require(isinstance(d, list) and len(d) == 5 and d[1] == 'XYZ',
            'destination is not [page /XYZ left top zoom]: %r', d)
    require(isinstance(d[0], Ref) and d[0] in index,
            'destination does not point at a page of the document: %r', d)
    return (index[d[0]], d[2], d[3])


def dests(doc, index):
    """Check the name tree and return {name bytes: (page, x, y)}."""
    root = doc.resolve(doc.trailer['Root'])
    names = doc.get(root, 'Names')
    if names is None:
        return {}
    tree = names.get('Dests')
    if tree is None:
        return {}
    out = {}
    order = []

    def walk(ref, is_root, depth):
        require(depth < 50, 'name tree too deep')
        node = doc.resolve(ref)
        require(isinstance(node, dict), 'name tree node is not a dictionary')
        require(('Names' in node) != ('Kids' in node),
                'name tree node needs exactly one of Names and Kids')
        mine = []
        if 'Names' in node:
            n = doc.resolve(node['Names'])
            require(len(n) % 2 == 0, 'odd Names array')
            for i in range(0, len(n), 2):
                require(isinstance(n[i], Str), 'name tree key is not a string')
                k = bytes(n[i])
                require(k not in out, 'name tree holds %r twice', k)
                out[k] = resolve_dest(doc, n[i + 1], index)
                order.append(k)
                mine.append(k)
        else:
            kids = doc.resolve(node['Kids'])
            require(kids, 'name tree node without kids')
            for kid in kids:
                require(isinstance(kid, Ref), 'kid is not a reference')
                mine += walk(kid, False, depth + 1)
        if not is_root or 'Limits' in node:
            if is_root:
                require(False, 'root of the name tree has Limits')
            lim = doc.resolve(node.get('Limits'))
            require(isinstance(lim, list) and len(lim) == 2 and
                    [bytes(x) for x in lim] == [mine[0], mine[-1]],
                    'name tree Limits %r, but the names range from %r to %r',
                    lim, mine[0] if mine else None, mine[-1] if mine else None)
        return mine
    walk(tree, True, 0)
    require(order == sorted(order), 'name tree is not sorted: %r', order)
    return out


def outline_tree(doc, index):
    """Check the outline tree and return nested
    [title, dest name, open, children]."""
    root = doc.resolve(doc.trailer['Root'])
    if 'Outlines' not in root:
        return []
    oref = root['Outlines']
    seen = set()

    def children(pref, depth):
        require(depth < 60, 'outlines too deep')
        node = doc.resolve(pref)
        out = []
        prev = None
        cur = node.get('First')
        require((cur is None) == (node.get('Last') is None),
                'outline item with only one of First and Last')
        while cur is not None:
            require(isinstance(cur, Ref), 'outline link is not a reference')
            require(cur not in seen, 'outline item reached twice')
            seen.add(cur)
            it = doc.resolve(cur)
            require(it.get('Parent') == pref, 'outline Parent is %r, '
                    'expected %r', it.get('Parent'), pref)
            require(it.get('Prev') == prev, 'outline Prev is %r, expected %r',
                    it.get('Prev'), prev)
            kids, vis = children(cur, depth + 1)
            count = it.get('Count')
            if kids:
                require(isinstance(count, int) and count != 0,
                        'outline item with children has Count %r', count)
                require(abs(count) == vis, 'outline item %r has Count %r, but '
                        '%d visible descendants when open',
                        it.get('Title'), count, vis)
            else:
                require(count in (None, 0), 'outline item without children '
                        'has Count %r', count)
            d = it.get('Dest')
            out.append([text(it.get('Title')),
                        bytes(d).decode('latin-1') if isinstance(d, Str)
                        else d, bool(kids) and count > 0, kids])
            prev = cur
            cur = it.get('Next')
        require(node.get('Last') == prev, 'outline Last is %r, expected %r',
                node.get('Last'), prev)
        total = 0
        for o in out:
            total += 1
            if o[2]:
                total += visible(o[3])
        return out, total
    tree, total = children(oref, 0)
    node = doc.resolve(oref)
    require(node.get('Count') == total, 'outline root has Count %r, but %d '
            'visible items', node.get('Count'), total)
    return tree


def visible(items):
    n = 0
    for o in items:
        n += 1
        if o[2]:
            n += visible(o[3])
    return n


def links(doc, pv):
    """[(rect, 'uri'|'ref', target)] of a page."""
    out = []
    for a in pv.annots():
        require(isinstance(a, dict) and a.get('Type', 'Annot') == 'Annot'
                and a.get('Subtype') == 'Link', 'unexpected annotation %r', a)
        r = doc.resolve(a.get('Rect'))
        require(isinstance(r, list) and len(r) == 4 and all(
            isinstance(v, (int, float)) for v in r), 'bad Rect %r', r)
        rect = (min(r[0], r[2]), min(r[1], r[3]), max(r[0], r[2]),
                max(r[1], r[3]))
        require(('A' in a) != ('Dest' in a), 'link with %s', sorted(a))
        if 'A' in a:
            act = doc.resolve(a['A'])
            require(act.get('S') == 'URI', 'action is not URI: %r', act)
            out.append((rect, 'uri', text(act.get('URI'))))
        else:
            d = doc.resolve(a['Dest'])
            require(isinstance(d, Str), 'link destination is not a string')
            out.append((rect, 'ref', bytes(d)))
    return out


def annots_summary(doc, pv):
    return links(doc, pv)


def names(tree, dest):
    return [[title, dest.get(label.encode('latin-1')), shown,
             names(kids, dest)] for title, label, shown, kids in tree]


def navigation(doc, pvs):
    """What a document has to move around in it, to be compared"""
    index = {pv.page['__ref__']: i for i, pv in enumerate(pvs)}
    dest = dests(doc, index)
    return {
        'labels': sorted((k.decode('latin-1') if named(k) else 'outline', v)
                         for k, v in dest.items()),
        'outlines': names(outline_tree(doc, index), dest),
        'links': [links(doc, pv) for pv in pvs]}


def named(k):
    return not re.fullmatch(rb'[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}', k)


def same_navigation(da, pa, db, pb, what):
    """The labels, outlines and links of two documents"""
    na, nb = navigation(da, pa), navigation(db, pb)
    for k in na:
        require(na[k] == nb[k], '%s have the %s %r and %r', what, k, na[k],
                nb[k])
