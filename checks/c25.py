"""C25: documents do not influence each other or their inputs' meaning."""
import io
import json
import os
import subprocess
import sys
import threading

from hypothesis import strategies as st

from lib import gendoc
from lib.common import require, sut, write
from lib.harness import ROOT, Info, Part, Violation
from checks.c03 import compare, summary

TECHNIQUE = ('property-based testing (Hypothesis): metamorphic relations '
             'between builds of generated documents: repeated, interleaved, '
             'with shared objects and under other hash seeds')
LEVEL_NOTE = ('Random search over documents with every kind of content and '
              'over which objects are shared; held on all generated cases, '
              'not proved.')
RULE = ('(a) a description built twice, with another document built in '
        'between, against a fresh description; (b) descriptions where '
        'elements, styles, rows and footnotes are one object used in several '
        'places, against fresh copies; (c) the same through the methods of '
        'PDF objects, interleaved; (d) several documents built in processes '
        'with different hash seeds; (e) two or three documents built in '
        'threads that take turns after generated numbers of lines of code. '
        'Non-trivial: the document has at least two elements (a), an object '
        'was used twice (b, c), always (d), at least two switches (e).')


def contents(data):
    """What a file shows: pages, links, names, outlines, fonts, images."""
    from lib.common import pages
    s = summary(data)
    doc, pvs = pages(data)
    s['fonts'] = [[(str(k), f.base) for k, f in sorted(pv.fonts.items())]
                  for pv in pvs]
    s['images'] = [[doc.resolve(im.ref).raw for im in pv.images]
                   for pv in pvs]
    s['glyphs'] = [''.join(g.ch for g in pv.glyphs) for pv in pvs]
    return s


def same(a, b, msg):
    compare(a, b, msg)
    for k in ('fonts', 'images', 'glyphs'):
        require(a[k] == b[k], '%s the %s: %r / %r', msg, k,
                *first_difference(a[k], b[k]))


def first_difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            return repr(x)[:200], repr(y)[:200]
    return len(a), len(b)


def build_bytes(desc, context=None):
    from pdfme import build_pdf
    b = io.BytesIO()
    with sut('build_pdf'):
        if context is None:
            build_pdf(desc, b)
        else:
            build_pdf(desc, b, context)
    return b.getvalue()


def build_summary(desc):
    return contents(build_bytes(desc))


def describe(plan):
    return gendoc.document_desc(plan)


def fresh(obj):
    """A copy without shared objects."""
    if isinstance(obj, dict):
        return {k: fresh(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return type(obj)(fresh(v) for v in obj)
    if isinstance(obj, io.BytesIO):
        return io.BytesIO(obj.getvalue())
    return obj


# (a) repeated -------------------------------------------------------------------

repeat_case = st.fixed_dictionaries({
    'plan': gendoc.document(),
    'between': st.one_of(st.none(), gendoc.document()),
    'context': st.booleans(),
})


def check_repeat(c):
    context = {'who': 'someone'} if c['context'] else None

    def desc():
        d = describe(c['plan'])
        if context is not None:
            d['sections'][0]['content'].append(
                {'.': ['for ', {'var': 'who'}]})
        return d
    want = contents(build_bytes(desc(), context))
    d = desc()
    got = contents(build_bytes(d, context))
    same(want, got, 'building the same description in a new object changed')
    got = contents(build_bytes(d, context))
    same(want, got, 'building a description again changed')
    if c['between'] is not None:
        build_bytes(describe(c['between']))
        got = contents(build_bytes(d, context))
        same(want, got, 'building another document before changed')
        got = contents(build_bytes(desc(), context))
        same(want, got, 'building another document before changed')
    if context is not None:
        require(context == {'who': 'someone'}, 'the context became %r',
                context)
    n = sum(len(s['els']) for s in c['plan']['sections'])
    return Info(n > 1, ['sections %d' % len(c['plan']['sections']),
                        'between' if c['between'] is not None else 'alone'])


# (b) shared objects --------------------------------------------------------------

shared_case = st.fixed_dictionaries({
    'plan': gendoc.document(),
    'ops': st.lists(st.tuples(
        st.sampled_from(['element', 'element', 'style', 'row', 'box', 'cell',
                         'tuple', 'part', 'section']),
        st.integers(0, 50), st.integers(0, 50)).map(list),
        min_size=1, max_size=4),
})


def elements(desc):
    """Every element with the list it is in."""
    out = []

    def walk(lst):
        for i, e in enumerate(lst):
            out.append((lst, i, e))
            if isinstance(e, dict):
                for k in ('content', 'group'):
                    if isinstance(e.get(k), list):
                        walk(e[k])
    for s in desc['sections']:
        walk(s['content'])
    return out


def text_of(e):
    if isinstance(e, dict):
        for k in e:
            if k.startswith('.'):
                return e[k]
    return None


def share(desc, ops):
    """Use one object in several places; how often."""
    done = 0
    for op, i, j in ops:
        els = elements(desc)
        lst, at, e = els[i % len(els)]
        lst2, at2, f = els[j % len(els)]
        if op == 'element':
            if 'group' in str(list(e) if isinstance(e, dict) else '') or \
                    contains(e, lst2):
                continue
            if is_group(desc, lst2):      # it may not fit any more
                continue
            lst2.insert(at2, e)
        elif op == 'style':
            s = e.get('style') if isinstance(e, dict) else None
            if not isinstance(s, dict) or not isinstance(f, dict) or \
                    text_of(e) is None or text_of(f) is None or \
                    'list_text' in s:
                continue
            f['style'] = s
        elif op == 'row':
            if not (isinstance(e, dict) and 'table' in e):
                continue
            e['table'].append(e['table'][j % len(e['table'])])
        elif op == 'cell':
            if text_of(f) is None or is_list(f):
                continue
            desc['sections'][i % len(desc['sections'])]['content'].append(
                {'table': [[f, 'x', f]]})
        elif op == 'box':
            if contains(e, desc['sections'][0]['content']):
                continue
            sec = desc['sections'][j % len(desc['sections'])]
            sec['content'].append({
                'content': (e, 'between', e), 'style': {'margin_left': 5}})
        elif op == 'tuple':
            # a paragraph whose parts are one object in a tuple
            if not isinstance(text_of(f), list):
                continue
            sec = desc['sections'][i % len(desc['sections'])]
            sec['content'].append({'.': tuple(text_of(f))})
            sec['content'].append({'.b': tuple(text_of(f))})
        elif op == 'part':
            t = text_of(f)
            if not isinstance(t, list) or not t or is_group(desc, lst2):
                continue
            part = t[i % len(t)]
            t.extend([' again ', part])
        elif op == 'section':
            if len(desc['sections']) > 4:
                continue
            desc['sections'].append(desc['sections'][
                i % len(desc['sections'])])
        done += 1
    return done


def is_list(e):
    s = e.get('style')
    return isinstance(s, dict) and 'list_text' in s


def is_group(desc, lst):
    found = []

    def walk(o):
        if isinstance(o, dict):
            if o.get('group') is lst:
                found.append(1)
            for v in o.values():
                walk(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                walk(v)
    walk(desc['sections'])
    return bool(found)


def contains(e, lst):
    """Whether the list is inside the element."""
    if e is lst:
        return True
    if isinstance(e, dict):
        return any(contains(v, lst) for v in e.values())
    if isinstance(e, (list, tuple)):
        return any(contains(v, lst) for v in e)
    return False


def check_shared(c):
    desc = describe(c['plan'])
    n = share(desc, c['ops'])
    alone = fresh(desc)
    try:
        want = contents(build_bytes(alone))
    except Violation as e:
        if 'could not be fitted' in str(e):
            # an element was put where it is too narrow for it
            return Info(False, ['does not fit'])
        raise
    got = contents(build_bytes(desc))
    same(want, got, 'one object used in several places instead of copies of '
         'it changed')
    got = contents(build_bytes(desc))
    same(want, got, 'building a description with shared objects again '
         'changed')
    return Info(n > 0, [op for op, _, _ in c['ops']] if n else [])


# (c) PDF objects ------------------------------------------------------------------

@st.composite
def pdf_case(draw):
    els = draw(st.lists(gendoc.element(1), min_size=1, max_size=4))
    return {
        'els': els,
        'fonts': draw(st.lists(st.sampled_from(['Times', 'Courier', None]),
                               min_size=2, max_size=2)),
        'calls': draw(st.lists(st.tuples(
            st.sampled_from(['text', 'content', 'content', 'cols', 'cell',
                             'direct', 'running', 'page']),
            st.integers(0, 1), st.integers(0, 10)).map(list), min_size=2,
            max_size=7)),
    }


def check_pdf(c):
    from pdfme import PDF
    from lib import rich

    def make(copies):
        formats = {}
        bld = rich.Builder('q', formats)
        els = [gendoc.element_desc(e, bld) for e in c['els']]
        # the calls for the two objects, interleaved or not
        order = list(enumerate(c['calls']))
        with sut():
            pdfs = []
            for f in c['fonts']:
                kw = {} if f is None else {'font_family': f, 'font_size': 9}
                pdf = PDF(page_size=[400, 420], margin=20, **kw)
                pdf.formats.update(formats if not copies else fresh(formats))
                pdf.add_page()
                pdfs.append(pdf)
            if copies:
                order = [x for x in order if x[1][1] == 0] + [
                    x for x in order if x[1][1] == 1]
            used = []
            for _, (how, which, k) in order:
                e = els[k % len(els)]
                if how not in ('page',):
                    used.append(k % len(els))
                if copies:
                    e = fresh(e)
                call(pdfs[which], how, e)
        return [contents(write(p)) for p in pdfs], used
    want, used = make(True)
    got, _ = make(False)
    for a, b in zip(want, got):
        same(a, b, 'sharing objects between calls instead of copies of them '
             'changed')
    return Info(len(used) > len(set(used)), {h for h, _, _ in c['calls']})


def call(pdf, how, e):
    t = text_of(e)
    if how == 'page':
        pdf.add_page()
    elif how == 'text' and t is not None and not is_list(e):
        pdf.text(e)
    elif how == 'direct' and t is not None and not is_list(e):
        pdf._text(e, 30, 200, 200, 100)
    elif how == 'cell' and t is not None and not is_list(e):
        pdf.table([[e, 'x'], ['y', e]])
    elif how == 'cols':
        pdf.content({'content': [e, 'between', e], 'style': {
            'f': 'Courier', 's': 8, 'c': 'red'}})
    elif how == 'running':
        if len(pdf.running_sections) < 2 and 'group' not in e:
            pdf.add_running_section({'content': [e]}, 380, 400, 10, 10)
    else:
        pdf.content({'content': [e]})


# (d) hash seeds --------------------------------------------------------------------

seeds_case = st.fixed_dictionaries({
    'plans': st.lists(gendoc.document(), min_size=6, max_size=10),
    'seeds': st.lists(st.integers(1, 4000), min_size=2, max_size=2,
                      unique=True),
})


def check_seeds(c):
    outs = []
    text = json.dumps(c['plans'])
    for s in c['seeds']:
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        try:
            r = subprocess.run(
                [sys.executable, os.path.join(ROOT, 'lib', 'rebuild.py')],
                input=text, capture_output=True, text=True, env=env,
                timeout=400)
        except subprocess.TimeoutExpired:
            raise Violation('no documents after 400 s')
        if r.returncode:
            raise RuntimeError('rebuild failed: ' + r.stderr[-2000:])
        outs.append(json.loads(r.stdout))
    for i, (a, b) in enumerate(zip(*outs)):
        require(a == b, 'document %d differs under the hash seeds %s', i,
                c['seeds'])
    return Info(True, ['documents %d' % len(c['plans'])])


# (e) threads -----------------------------------------------------------------------

class Schedule:
    """Threads that take turns after numbers of lines of pdfme's code, so that
    a schedule is the same every time."""

    def __init__(self, turns, jobs):
        self.turns = turns
        self.jobs = jobs
        self.n = len(jobs)
        self.results = [None] * self.n
        self.locks = [threading.Semaphore(0) for _ in jobs]
        self.alive = set(range(self.n))
        self.left = self.used = 0
        self.stop = False
        self.switches = 0
        import pdfme
        self.where = os.path.dirname(pdfme.__file__) + os.sep

    def turn(self):
        self.left = self.turns[self.used % len(self.turns)]
        self.used += 1

    def next(self, me):
        others = sorted(self.alive - {me})
        return others[self.used % len(others)] if others else None

    def trace(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.left -= 1
                if self.left <= 0:
                    if self.stop:
                        raise SystemExit
                    to = self.next(me)
                    self.turn()
                    if to is not None:
                        self.switches += 1
                        self.locks[to].release()
                        self.locks[me].acquire()
            return local

        def start(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.where):
                return local
        return start

    def body(self, me):
        self.locks[me].acquire()
        sys.settrace(self.trace(me))
        try:
            self.results[me] = self.jobs[me]()
        except BaseException as e:
            self.results[me] = e
        finally:
            sys.settrace(None)
            to = self.next(me)
            self.alive.discard(me)
            if to is not None:
                self.locks[to].release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True)
                   for i in range(self.n)]
        for t in threads:
            t.start()
        self.turn()
        try:
            self.locks[0].release()
            for t in threads:
                t.join()
        finally:
            self.stop = True
        for r in self.results:
            if isinstance(r, BaseException):
                raise r
        return self.results


threads_case = st.fixed_dictionaries({
    'plans': st.one_of(
        st.lists(gendoc.document(), min_size=2, max_size=3),
        st.lists(gendoc.document().map(lambda d: dict(d, sections=[dict(
            d['sections'][0], els=d['sections'][0]['els'][:1])])),
            min_size=2, max_size=3)),
    # nearly the same documents, that do the same at nearly the same time
    'alike': st.booleans(), 'first': st.booleans(), 'more': st.lists(st.lists(
        st.integers(0, 11), min_size=2, max_size=12), min_size=3, max_size=3),
    'turns': st.lists(st.one_of(st.integers(1, 30), st.integers(1, 3000)),
                      min_size=1, max_size=12)})


COLORS = 'red', 'green', 'blue', '#888', 0, 0.5


def mixture(kinds):
    """An element where styles alternate."""
    rows = [[{'.': [{'.f:%s;s:%d;c:%s;%s' % (
        ('Times', 'Courier')[k % 2], 8 + k % 3, COLORS[k % 6],
        'u' if k % 5 == 1 else 'b'): 'a%d' % i}], 'style': {
            'cell_fill': COLORS[k % 5]}, 'uri': 'u%d' % k,
        'outline': {'level': 1}, 'label': 'm%d' % i}, 'b']
        for i, k in enumerate(kinds)]
    return {'table': rows, 'borders': [
        {'pos': 'h%d;:' % i, 'width': 1 + k % 3, 'color': COLORS[k % 4],
         'style': ('solid', 'dotted', 'dashed')[k % 3]}
        for i, k in enumerate(kinds)]}


def check_threads(c):
    descs = []
    n = min(len(more) for more in c['more'])
    for i, p in enumerate(c['plans']):
        d = describe(c['plans'][0] if c['alike'] else p)
        els = d['sections'][0]['content']
        more = c['more'][i]
        if c['alike']:
            more = more[:n]
        if more:
            els.insert(0 if c['first'] else len(els), mixture(more))
        descs.append(d)
    want = [contents(build_bytes(fresh(d))) for d in descs]
    s = Schedule(c['turns'], [lambda d=d: build_bytes(d) for d in descs])
    for a, data in zip(want, s.run()):
        same(a, contents(data), 'building other documents in other threads '
             'changed')
    return Info(s.switches > 1, ['switches %d' % min(1000, 10 ** len(str(
        s.switches))), 'threads %d' % s.n])


PARTS = [
    Part('repeat', lambda: repeat_case, check_repeat, 240, 6000),
    Part('shared', lambda: shared_case, check_shared, 400, 10000),
    Part('pdf', pdf_case, check_pdf, 700, 14000),
    Part('threads', lambda: threads_case, check_threads, 80, 2000),
    Part('seeds', lambda: seeds_case, check_seeds, 24, 400),
]
