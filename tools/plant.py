"""Development tool (no check uses it): make and confirm planted bugs.

plant.py spec.py     spec defines BUGS: list of dicts (id, property, file, old,
                     new, needs, breaks, demo)
plant.py --check ID..  run the property's check against existing planted bugs
Each bug is confirmed in a copy of /repo under /tmp: it applies, the stable
tests pass, the demo passes without it and fails with it.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 exec "$py" "$here/demo.py"
'''
HEAD = '''import io, os, sys
sys.path.insert(0, os.getcwd())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pdfview.pdfread import read_pdf
from pdfview.interp import view
import pdfme
from pdfme import PDF, build_pdf


def read(pdf):
    b = io.BytesIO()
    pdf.output(b)
    doc = read_pdf(b.getvalue())
    return doc, view(doc)


def document(d, context=None):
    b = io.BytesIO()
    build_pdf(d, b, context)
    doc = read_pdf(b.getvalue())
    return doc, view(doc)


def rows(pv):
    """Lines of text of a page: (x, y, text), from the top"""
    out = {}
    for g in pv.glyphs:
        out.setdefault(round(g.y, 2), []).append(g)
    return [(gs[0].x, y, ''.join(g.ch for g in gs).strip())
            for y, gs in sorted(out.items(), reverse=True)]


def text(pv):
    return ''.join(g.ch for g in pv.glyphs)


'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          **kw)


def tests_pass(cwd):
    r = sh('PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 timeout 300 '
           '/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 '
           '--timeout=180 --randomly-seed=20 --randomly-dont-reorganize '
           "-o python_files='test_*.py running_section_per_page.py "
           "group_element.py' tests", cwd)
    return r.returncode == 0, r.stdout[-1500:]


def copy_repo(tmp, name):
    d = os.path.join(tmp, name)
    shutil.copytree('/repo', d, symlinks=True,
                    ignore=shutil.ignore_patterns('test_*.json', 'test_*.pdf',
                                                  '__pycache__'))
    return d


def demo(bug_dir, cwd):
    r = sh('timeout 300 bash %s/demo.sh' % bug_dir, cwd)
    return r.returncode, r.stdout[-600:]


def run_check(pid, repo, scale=None):
    r = sh('VERIF_REPO=%s timeout 900 ./check %s%s' % (
        repo, pid, ' --scale %s' % scale if scale else ''), HERE)
    return r.returncode, r.stdout[-400:]


def original_lines(file):
    return set(subprocess.run(['git', '-C', '/repo', 'show',
                               'd41a999:' + file], stdout=subprocess.PIPE,
                              text=True).stdout.splitlines())


def make(bug, tmp):
    d = os.path.join(SEEDED, bug['id'])
    work = copy_repo(tmp, 'bug-' + bug['id'])
    orig = original_lines(bug['file'])
    edits = bug.get('edits') or [(bug['file'], bug['old'], bug['new'])]
    for f, old, new in edits:
        p = os.path.join(work, f)
        s = open(p).read()
        if s.count(old) != 1:
            return '%s: %d places for %r' % (bug['id'], s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', work).stdout
    touched = [l[1:] for l in diff.splitlines()
               if l.startswith('-') and not l.startswith('---')]
    if not any(l in orig for l in touched if l.strip()):
        return bug['id'] + ': changes no original line'
    os.makedirs(d, exist_ok=True)
    with open(d + '/patch.diff', 'w') as f:
        f.write(diff)
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO_SH)
    with open(d + '/demo.py', 'w') as f:
        f.write(HEAD + bug['demo'].strip() + '\n')
    v = d + '/pdfview'
    os.makedirs(v, exist_ok=True)
    open(v + '/__init__.py', 'w').close()
    for n in ('pdfread.py', 'interp.py', 'metrics.json'):
        shutil.copy(os.path.join(HERE, 'lib', n), v)
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']}, f, indent=1)
        f.write('\n')
    return confirm(bug['id'], tmp, work)


def confirm(id_, tmp, work=None, tests=True):
    d = os.path.join(SEEDED, id_)
    if work is None:
        work = copy_repo(tmp, 'bug-' + id_)
        r = sh('git apply %s/patch.diff' % d, work)
        if r.returncode:
            return '%s: does not apply: %s' % (id_, r.stdout)
    bad = []
    base = copy_repo(tmp, 'base-' + id_)
    r = demo(d, base)
    if r[0] != 0:
        bad.append('demo fails on the unchanged tree: ' + r[1])
    r = demo(d, work)
    if r[0] == 0:
        bad.append('demo passes with the bug')
    elif 'AssertionError' not in r[1]:
        bad.append('(demo: %s)' % r[1][-300:])
    if tests and not bad:
        ok, o = tests_pass(work)
        if not ok:
            bad.append('tests fail: ' + o[-300:])
    pid = json.load(open(d + '/meta.json'))['property']
    rc, o = run_check(pid, work)
    line = [l for l in o.splitlines() if l.strip()]
    state = 'CAUGHT' if rc == 1 and 'VIOLATION property=' + pid in o else \
        'missed' if rc == 0 else 'ERROR %d' % rc
    shutil.rmtree(base)
    shutil.rmtree(work)
    return '%s %s %s %s\n      %s' % (id_, pid, state, '; '.join(bad) or 'ok',
                                      (line[-2] if len(line) > 1 and rc == 1
                                       else line[-1] if line else '')[:230])


def main():
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        if sys.argv[1] == '--check':
            for id_ in sys.argv[2:] or sorted(os.listdir(SEEDED)):
                print(confirm(id_, tmp, tests=False), flush=True)
        else:
            sp = importlib.util.spec_from_file_location('spec', sys.argv[1])
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            only = sys.argv[2:]
            for b in m.BUGS:
                if not only or b['id'] in only:
                    print(make(b, tmp), flush=True)
    finally:
        shutil.rmtree(tmp)


main()
