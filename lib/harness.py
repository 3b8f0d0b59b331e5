"""Runner shared by all checks: case generation with Hypothesis in parallel
processes, counting, shrinking, replay files, evidence, exit codes."""
import contextlib
import functools
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CPU_LIMIT = 60          # CPU seconds for one case (typical: 0.02)
PAGE_LIMIT = 300        # pages of a generated document (most: below 20)
MEMORY_LIMIT = 3 << 30
SHRINK_CALLS = int(os.environ.get('VERIF_SHRINK', '400'))
SHRINK_CPU = 90


class Violation(Exception):
    """The code under test broke the property."""


class StopShrink(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


def fail(msg, *a):
    raise Violation(msg % a if a else msg)


def require(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


@contextlib.contextmanager
def sut(what='pdfme'):
    """Runs code under test: an unexpected exception on an input it documents
    as valid is a violation, not an error of the harness."""
    try:
        yield
    except Violation:
        raise
    except RecursionError as e:
        raise Violation('%s raised %s' % (what, type(e).__name__))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name)
                            for f in reversed(tb[-3:]))
        raise Violation('%s raised %s: %s (%s)' % (
            what, type(e).__name__, str(e)[:300], where))


@contextlib.contextmanager
def quiet():
    """pdfme prints tracebacks for bad images; keep them out of our output"""
    old = sys.stderr
    with open(os.devnull, 'w') as dn:
        sys.stderr = dn
        try:
            yield
        finally:
            sys.stderr = old


class Info:
    """What one case exercised."""

    def __init__(self, nontrivial, labels=(), sample=None):
        self.nontrivial = bool(nontrivial)
        self.labels = sorted(set(labels))
        self.sample = sample


class Part:
    def __init__(self, name, strategy, check, quick, thorough=None,
                 enumerate_=None):
        self.name = name
        self.strategy = strategy        # callable returning a strategy
        self.check = check              # check(case) -> Info, or Violation
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.enumerate = enumerate_     # callable returning explicit cases


def norm(case):
    return json.loads(json.dumps(case))


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                           digest_size=8).digest()


def run_case(part, case):
    """One case under the CPU limit. SIGVTALRM counts CPU time of this
    process only, so the machine's load does not matter."""
    def onalarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        return part.check(case)
    except CaseTimeout:
        raise Violation('no result after %d s of CPU time (a case takes '
                        'well under 1 s): the layout does not terminate'
                        % CPU_LIMIT)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def shard(conn, modname, partname, index, count, seed):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    # a layout that eats the memory fails with MemoryError, in this process
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except (OSError, ValueError):
        pass
    try:
        res = shard_body(modname, partname, index, count, seed)
    except BaseException:
        res = {'error': traceback.format_exc()}
    try:
        conn.send(res)
        conn.close()
    finally:
        os._exit(0)


def same_cases():
    """Hypothesis also draws constants it reads in the source of the modules
    imported, those of the code under test included: without them the cases
    depend only on the seed."""
    from hypothesis.internal.conjecture import providers
    if hasattr(providers, '_get_local_constants') and \
            hasattr(providers, '_local_constants'):
        providers._get_local_constants = lambda: providers._local_constants


def shard_body(modname, partname, index, count, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    same_cases()
    mod = importlib.import_module(modname)
    part = {p.name: p for p in mod.PARTS}[partname]
    st = {'n': 0, 'hashes': set(), 'labels': {}, 'samples': [],
          'fail': None, 'after': 0, 't0': None}

    def one(case):
        case = norm(case)
        if st['fail'] is not None:
            st['after'] += 1
            if st['after'] > SHRINK_CALLS or \
                    time.process_time() - st['t0'] > SHRINK_CPU:
                raise StopShrink()
        else:
            st['n'] += 1
        try:
            info = run_case(part, case)
        except Violation as v:
            size = len(json.dumps(case))
            if st['fail'] is None:
                st['t0'] = time.process_time()
            if st['fail'] is None or size <= st['fail'][2]:
                st['fail'] = (case, str(v), size)
            raise
        if st['fail'] is None:
            if info.nontrivial:
                st['hashes'].add(digest(case))
                if len(st['samples']) < 2 and (
                        st['n'] > 3 or part.enumerate):
                    s = info.sample
                    if s is None:
                        s = json.dumps(case)
                    st['samples'].append(str(s)[:600])
            for l in info.labels:
                st['labels'][l] = st['labels'].get(l, 0) + 1

    if part.enumerate is not None:
        cases = list(part.enumerate())
        for i, c in enumerate(cases):
            if i % WORKERS == index:
                try:
                    one(c)
                except Violation:
                    break
    if part.strategy is not None and st['fail'] is None and count > 0:
        h = int.from_bytes(hashlib.blake2b(
            ('%s/%s/%s/%d' % (seed, modname, partname, index)).encode(),
            digest_size=8).digest(), 'big')

        @hypothesis.seed(h)
        @settings(max_examples=count, database=None, deadline=None,
                  suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink),
                  report_multiple_bugs=False, print_blob=False,
                  verbosity=hypothesis.Verbosity.quiet)
        @hypothesis.given(part.strategy())
        def test(case):
            one(case)
        try:
            test()
        except (Violation, StopShrink):
            pass
        except Exception as e:
            if st['fail'] is None:
                raise
    return {'n': st['n'], 'hashes': st['hashes'], 'labels': st['labels'],
            'samples': st['samples'], 'fail': st['fail'], 'part': partname}


def corpus_cases(pid):
    path = os.path.join(ROOT, 'corpus', pid + '.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def write_replay(pid, part, case, msg):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.json' % (pid, part, digest(case).hex()))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'part': part, 'case': case,
                   'message': msg}, f, indent=1)
    return path


def main(argv):
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='verif-')
    tempfile.tempdir = scratch
    try:
        return run(argv)
    finally:
        tempfile.tempdir = None
        shutil.rmtree(scratch, ignore_errors=True)


def run(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--part')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    pid = a.pid.upper()
    modname = 'checks.' + pid.lower()
    t0 = time.time()
    try:
        mod = importlib.import_module(modname)
    except Exception:
        # the harness itself does not import the library at module level,
        # so this is an error of the check
        traceback.print_exc()
        return 3
    parts = {p.name: p for p in mod.PARTS}

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        try:
            info = run_case(parts[r['part']], norm(r['case']))
        except Violation as v:
            print('%s/%s: %s' % (pid, r['part'], v))
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return 1
        print('holds on this case; labels: %s' % info.labels)
        return 0

    import_repo()
    total = 0
    hashes = {}
    labels = {}
    samples = []
    failure = None
    error = None
    # 1. known findings: each is identified by one committed failing case
    known_seen = []
    known = known_findings(pid)
    for k in known:
        total += 1
        try:
            run_case(parts[k['part']], norm(k['case']))
        except Violation as v:
            if k.get('match', '') in str(v):
                known_seen.append(k)
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            else:
                failure = (k['part'], k['case'], str(v))
    # 2. saved regression cases
    ncorpus = 0
    for c in corpus_cases(pid):
        if failure or (a.part and c['part'] != a.part):
            continue
        ncorpus += 1
        total += 1
        try:
            info = run_case(parts[c['part']], norm(c['case']))
            if info.nontrivial:
                hashes.setdefault(c['part'], set()).add(digest(c['case']))
        except Violation as v:
            failure = (c['part'], c['case'], str(v))
    # 3. generated cases
    tasks = []
    for p in mod.PARTS:
        if a.part and p.name != a.part:
            continue
        n = p.quick if tier == 'quick' else p.thorough
        n = int(n * a.scale)
        for i in range(WORKERS):
            k = n // WORKERS + (1 if i < n % WORKERS else 0)
            if k or p.enumerate is not None:
                tasks.append((p.name, i, k))
    ctx = multiprocessing.get_context('fork')
    running = []
    counts = {}
    tasks.reverse()
    while (tasks or running) and failure is None and error is None:
        while tasks and len(running) < WORKERS:
            name, i, k = tasks.pop()
            rd, wr = ctx.Pipe(False)
            pr = ctx.Process(target=shard,
                             args=(wr, modname, name, i, k, seed))
            pr.start()
            wr.close()
            running.append((pr, rd, name))
        ready = multiprocessing.connection.wait([r for _, r, _ in running])
        for item in list(running):
            pr, rd, name = item
            if rd not in ready:
                continue
            running.remove(item)
            try:
                res = rd.recv()
            except EOFError:
                res = {'error': 'worker of part %s died' % name}
            rd.close()
            pr.join()
            if 'error' in res:
                error = res['error']
                continue
            total += res['n']
            c = counts.setdefault(name, [0, 0])
            c[0] += res['n']
            hashes.setdefault(name, set()).update(res['hashes'])
            for l, v in res['labels'].items():
                key = '%s: %s' % (name, l)
                labels[key] = labels.get(key, 0) + v
            if len([s for s in samples if s['part'] == name]) < 2:
                for s in res['samples'][:1]:
                    samples.append({'part': name, 'case': s})
            if res['fail'] and failure is None:
                failure = (name, res['fail'][0], res['fail'][1])
    for pr, rd, _ in running:
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except OSError:
            pass
        pr.kill()
        pr.join()
    for name, c in counts.items():
        c[1] = len(hashes.get(name, ()))
    wall = time.time() - t0
    if error is not None and failure is None:
        sys.stderr.write(error + '\n')
        print('ERROR: %s: the harness failed' % pid)
        return 3
    doc = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': sum(len(v) for v in hashes.values()),
            'rule': mod.RULE,
            'samples': samples,
            'per_part': {n: {'evaluations': c[0], 'distinct_nontrivial': c[1]}
                         for n, c in sorted(counts.items())},
            'regression_cases': ncorpus,
            'labels': dict(sorted(labels.items())),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': 1 if failure else 0,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    if failure:
        path = write_replay(pid, *failure)
        print('%s/%s: %s' % (pid, failure[0], failure[2]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' % (
        pid, total, doc['coverage']['distinct_nontrivial'], wall))
    return 0


def known_findings(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def import_repo():
    """Import the library once in the parent so that forked workers share it;
    failing to import is left to the cases to report."""
    old = sys.pycache_prefix
    # never trust stale byte code: compile the library from its sources
    sys.pycache_prefix = '/dev/null/none'
    try:
        import pdfme
        import pdfme.document
        assert os.path.dirname(os.path.abspath(pdfme.__file__)) == \
            os.path.join(REPO, 'pdfme'), pdfme.__file__
        limit_pages()
    except AssertionError:
        raise
    except Exception:
        pass
    finally:
        sys.pycache_prefix = old


def limit_pages():
    """Layouts that never end add pages until the memory is used up."""
    from pdfme import PDF
    add_page = PDF.add_page

    @functools.wraps(add_page)
    def limited(self, *a, **k):
        if len(getattr(self, 'pages', ())) >= PAGE_LIMIT:
            raise Violation('the layout does not end: %d pages'
                            % PAGE_LIMIT)
        return add_page(self, *a, **k)

    PDF.add_page = limited
