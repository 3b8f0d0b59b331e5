"""Development tool (no check uses it): systematic mutants of pdfme, to find
changes that no check notices.

mutate.py list FILE              number and list the mutants of pdfme/FILE
mutate.py run OUT FILE [scale] [fraction]
                                 run the checks on each, 8 at a time; OUT gets
                                 one JSON line per mutant
"""
import ast
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    'text.py': 'C08 C11 C09 C10 C12 C07 C05 C06 C27 C26 C17 C14 C24 C25 C13 '
               'C33 C30',
    'content.py': 'C17 C18 C19 C27 C24 C25 C20 C21 C16 C15 C28 C29 '
                  'C30 C31 C35 C36',
    'table.py': 'C14 C15 C16 C27 C17 C25 C24 C20 C28 C29 C30 C31 '
                'C36',
    'pdf.py': 'C01 C04 C05 C06 C07 C08 C10 C09 C11 C20 C22 C23 C21 C14 C15 '
              'C16 C18 C25 C26 C13 C03 C24 C28 C29 C30 C31 C32 '
              'C33 C35 C36',
    'document.py': 'C21 C22 C23 C24 C25 C13 C01 C06 C29 C30 C33 '
                   'C34 C35 C36',
    'utils.py': 'C13 C04 C16 C23 C21 C22 C25 C01 C11 C26 C08 C20 C02 C15 C12 '
                'C35',
    'color.py': 'C13 C11 C12 C16',
    'base.py': 'C01 C02 C03 C25 C32',
    'parser.py': 'C02 C03 C01 C05 C06',
    'page.py': 'C01 C04 C07 C20 C21 C08 C03 C05',
    'image.py': 'C20 C01 C19',
    'encoders.py': 'C03 C02',
    'fonts.py': 'C26 C11 C01 C09',
}


class Muts(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.out = []
        self.skip = 0

    def text(self, n):
        return ast.get_source_segment(self.src, n)

    def put(self, node, new, what):
        if self.skip:
            return
        self.out.append((node.lineno, node.col_offset, node.end_lineno,
                         node.end_col_offset, new, what))

    def visit_Raise(self, n):
        pass

    def visit_AnnAssign(self, n):
        pass

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_arguments(self, n):
        for d in n.defaults:
            if isinstance(d, ast.Constant) and d.value is not None:
                self.visit(d)

    def visit_FunctionDef(self, n):
        self.visit(n.args)
        for s in n.body:
            self.visit(s)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.put(n, 'pass', 'del')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.value, ast.Constant) and n.value.value is None:
            return
        if not isinstance(n.targets[0], ast.Name):
            self.put(n, 'pass', 'del')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, 'pass', 'del')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            a, b = self.text(n.left), self.text(n.comparators[0])
            m = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=',
                 'NotEq': '==', 'Is': 'is not', 'IsNot': 'is', 'In': 'not in',
                 'NotIn': 'in'}.get(type(n.ops[0]).__name__)
            self.put(n, '(%s %s %s)' % (a, m, b), m)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put(n, '(' + op.join('(%s)' % self.text(v) for v in n.values) +
                 ')', op)
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            o = ' and ' if isinstance(n.op, ast.And) else ' or '
            self.put(n, '(' + o.join('(%s)' % self.text(v) for v in rest) +
                     ')', 'drop %d' % i)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.left, ast.Constant) and isinstance(
                n.left.value, str):
            return self.generic_visit(n)
        m = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*', 'Mod': '*',
             'FloorDiv': '*'}.get(type(n.op).__name__)
        if m:
            self.put(n, '((%s) %s (%s))' % (self.text(n.left), m,
                                            self.text(n.right)), m)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, '(%s)' % self.text(n.operand), 'not')
        if isinstance(n.op, ast.USub):
            self.put(n, '(%s)' % self.text(n.operand), 'neg')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, '(%s)' % self.text(n.body), 'ifexp body')
        self.put(n, '(%s)' % self.text(n.orelse), 'ifexp else')
        self.generic_visit(n)

    def visit_If(self, n):
        if not isinstance(n.test, ast.Compare):
            self.put(n.test, '(not (%s))' % self.text(n.test), 'not if')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), 'bool')
        elif isinstance(v, (int, float)):
            self.put(n, '(%r)' % (v + 1), 'const')

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = self.text(n.func)
        if f in ('copy', 'str', 'int', 'round') and n.args:
            self.put(n, '(%s)' % self.text(n.args[0]), 'no ' + f)
        elif f in ('max', 'min'):
            self.put(n.func, {'max': 'min', 'min': 'max'}[f], f)
        elif f.endswith('.copy') and not n.args:
            self.put(n, '(%s)' % f[:-5], 'no copy')
        if f == 'round':        # rounding digits do not matter here
            return self.visit(n.args[0])
        self.generic_visit(n)

    def visit_Break(self, n):
        self.put(n, 'pass', 'break')

    def visit_Continue(self, n):
        self.put(n, 'pass', 'continue')


def mutants(path):
    src = open(path).read()
    v = Muts(src)
    v.visit(ast.parse(src))
    out = []
    lines = src.split('\n')
    for l1, c1, l2, c2, new, what in v.out:
        # ast gives columns in UTF-8 bytes; the sources are ASCII but for data
        a = lines[:l1 - 1] + [lines[l1 - 1][:c1] + new + lines[l2 - 1][c2:]] \
            + lines[l2:]
        old = '\n'.join(lines[l1 - 1:l2])
        s = '\n'.join(a)
        try:
            compile(s, 'x', 'exec')
        except SyntaxError:
            continue
        if l1 < 40 and path.endswith('fonts.py') or \
                l1 < 165 and path.endswith('color.py'):
            continue        # data
        out.append({'line': l1, 'what': what, 'old': old.strip()[:160],
                    'new': new[:100], 'src': s})
    return out


def one(job):
    k, file, m, scale = job[:4]
    checks = job[4] if len(job) > 4 else ORDER[file]
    d = '%s/%d' % (os.environ.get('MUT_DIR', '/tmp/mut'), os.getpid())
    if not os.path.exists(d):
        shutil.copytree('/repo/pdfme', d + '/pdfme', ignore=shutil
                        .ignore_patterns('__pycache__'))
        shutil.copytree('/repo/fonts', d + '/fonts')
    p = os.path.join(d, 'pdfme', file)
    keep = open('/repo/pdfme/' + file).read()
    with open(p, 'w') as f:
        f.write(m['src'])
    res = {'k': k, 'file': file, 'line': m['line'], 'what': m['what'],
           'old': m['old'], 'new': m['new'], 'by': None}
    env = dict(os.environ, VERIF_REPO=d, VERIF_WORKERS='1', VERIF_SHRINK='0',
               VERIF_OUT=d)
    for c in checks.split():
        try:
            r = subprocess.run(
                ['./check', c, '--scale', str(scale)], cwd=HERE, env=env,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                timeout=900)
        except subprocess.TimeoutExpired:
            res['by'] = c + ' TIMEOUT'
            break
        if r.returncode:
            res['by'] = '%s %d' % (c, r.returncode)
            o = [x for x in r.stdout.splitlines()
                 if 'VIOLATION' not in x and x.strip()]
            res['msg'] = o[-1][:200] if o else ''
            break
    with open(p, 'w') as f:
        f.write(keep)
    return res


def main():
    cmd = sys.argv[1]
    if cmd == 'list':
        for k, m in enumerate(mutants('/repo/pdfme/' + sys.argv[2])):
            print(k, m['line'], m['what'], '|', m['old'][:80], '->',
                  m['new'][:60])
        return
    if cmd == 'again':
        # again OUT FROM.jsonl SCALE CHECKS: the survivors of a run
        out, old, scale, checks = sys.argv[2:6]
        jobs = []
        known = {}
        for r in map(json.loads, open(old)):
            if r['by'] is None:
                if r['file'] not in known:
                    known[r['file']] = mutants('/repo/pdfme/' + r['file'])
                ms = [m for m in known[r['file']] if (
                    m['what'], m['old'], m['new']) == (
                    r['what'], r['old'], r['new'])]
                if ms:
                    m = min(ms, key=lambda m: abs(m['line'] - r['line']))
                    jobs.append((r['k'], r['file'], m, float(scale), checks))
        procs = int(os.environ.get('MUT_PROCS', 8))
        with multiprocessing.Pool(procs) as pool, open(out, 'a') as f:
            for r in pool.imap_unordered(one, jobs):
                f.write(json.dumps(r) + '\n')
                f.flush()
        shutil.rmtree(os.environ.get('MUT_DIR', '/tmp/mut'), True)
        return
    out, file = sys.argv[2:4]
    scale = float(sys.argv[4]) if len(sys.argv) > 4 else 0.1
    frac = float(sys.argv[5]) if len(sys.argv) > 5 else 1
    jobs = [(k, file, m, scale) for k, m in enumerate(
        mutants('/repo/pdfme/' + file))]
    random.Random(1).shuffle(jobs)
    jobs = jobs[:int(len(jobs) * frac)]
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['k']) for r in map(json.loads, open(out))}
    jobs = [j for j in jobs if (j[1], j[0]) not in done]
    with multiprocessing.Pool(int(os.environ.get('MUT_PROCS', 8))) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(one, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()
    shutil.rmtree(os.environ.get('MUT_DIR', '/tmp/mut'), True)


if __name__ == '__main__':
    main()
