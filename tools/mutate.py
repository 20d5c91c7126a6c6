"""mutate.py FILE [--sample N] [--seed S] [--jobs J] [--out OUT]
              [--checks C01,C02] [--funcs a,b] [--lines 10-20]

Mutation test of the checks. Makes small changes to one source file of
channelpack in scratch copies, keeps those that the tests of the repository
do not notice, and runs the checks on them. Writes one json line per change
not noticed by the tests: caught by which check, or survived. Not run by any
check; a tool to find what the checks do not see.
"""
import argparse
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
RELEVANT = {
    'pack.py': 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12',
    'datautils.py': 'C04 C05 C06 C01 C02 C12',
    'readtext.py': 'C13 C14 C15 C16 C17 C18',
    'dbf.py': 'C19 C20 C21 C18',
    'readxl.py': 'C24 C25 C21 C18',
    'xlrd/xldate.py': 'C26 C24',
    'xlrd/xlsx.py': 'C22 C31 C30 C18 C29',
    'xlrd/__init__.py': 'C22 C27 C18 C30 C23',
    'xlrd/compdoc.py': 'C27 C30 C23',
    'xlrd/book.py': 'C23 C34 C28 C29 C27 C18 C30',
    'xlrd/sheet.py': 'C23 C33 C22 C29 C35 C30 C24',
    'xlrd/biffh.py': 'C23 C28 C33 C34 C30',
    'xlrd/formatting.py': 'C31 C35 C23 C30',
    'xlrd/formula.py': 'C34 C29 C30 C23 C22',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'],
       ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//'],
       ast.FloorDiv: ['*'], ast.Div: ['*'], ast.Mod: ['*'],
       ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|'],
       ast.BitOr: ['&'], ast.BitXor: ['&']}
SKIPNAMES = {'verbosity', 'DEBUG', 'blah', 'DEBUG1', 'OBJ_MSO_DEBUG'}


class Mutator(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src.encode()
        self.starts = [0]
        for ln in self.src.splitlines(True):
            self.starts.append(self.starts[-1] + len(ln))
        self.out = []
        self.func = []

    def span(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset,
                self.starts[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.src[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        if self.func:
            self.out.append((n.lineno, a, b, new, what,
                             '.'.join(self.func)))

    def visit_FunctionDef(self, n):
        self.func.append(n.name)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            body = body[1:]
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in body:
            self.visit(s)
        self.func.pop()

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.Assign)):
                self.visit(s)
        self.func.pop()

    def visit_If(self, n):
        names = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
        names |= {x.attr for x in ast.walk(n.test) if isinstance(
            x, ast.Attribute)}
        if names & SKIPNAMES:
            for s in n.orelse:
                self.visit(s)
            return
        self.add(n.test, 'True', 'if True')
        self.add(n.test, 'False', 'if False')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for op in CMP[type(n.ops[0])]:
                self.add(n, '(%s %s %s)' % (self.text(n.left), op, self.text(
                    n.comparators[0])), 'compare ' + op)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) \
                and isinstance(n.left.value, str):
            return
        for op in BIN.get(type(n.op), ()):
            self.add(n, '(%s %s %s)' % (self.text(n.left), op, self.text(
                n.right)), 'binop ' + op)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        for op in BIN.get(type(n.op), ()):
            self.add(n, '%s %s= %s' % (self.text(n.target), op, self.text(
                n.value)), 'augassign ' + op)
        self.add(n, 'pass', 'delete')
        self.visit(n.value)

    def visit_BoolOp(self, n):
        op = 'or' if isinstance(n.op, ast.And) else 'and'
        self.add(n, '(' + (' %s ' % op).join('(%s)' % self.text(v)
                                             for v in n.values) + ')',
                 'boolop ' + op)
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            was = 'and' if op == 'or' else 'or'
            self.add(n, '(' + (' %s ' % was).join(
                '(%s)' % self.text(v) for v in rest) + ')',
                'boolop drop %d' % i)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, '(%s)' % self.text(n.operand), 'unary drop')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), 'constant')
        elif isinstance(v, int):
            self.add(n, '(%d)' % (v + 1), 'constant +1')
            if v > 0:
                self.add(n, '(%d)' % (v - 1), 'constant -1')
        elif isinstance(v, float):
            self.add(n, repr(v + 1), 'constant +1')
        elif isinstance(v, str) and len(v) < 30:
            self.add(n, repr('' if v else 'x'), 'constant str')
        elif isinstance(v, bytes) and len(v) < 30:
            self.add(n, repr(b'' if v else b'x'), 'constant bytes')

    def visit_JoinedStr(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            f = n.value.func
            name = getattr(f, 'id', getattr(f, 'attr', ''))
            if name in ('print', 'fprintf', 'write', 'dump', 'pprint'):
                return
            self.add(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.add(n, 'pass', 'delete')
        self.visit(n.value)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant)
                                        and n.value.value is None):
            self.add(n, 'return None', 'return None')
            self.visit(n.value)

    def visit_Raise(self, n):
        self.add(n, 'pass', 'no raise')

    def visit_Continue(self, n):
        self.add(n, 'pass', 'no continue')
        self.add(n, 'break', 'break')

    def visit_Break(self, n):
        self.add(n, 'pass', 'no break')

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ('print', 'fprintf',
                                                'isinstance'):
            return
        if isinstance(f, ast.Attribute) and f.attr in (
                'strip', 'lstrip', 'rstrip', 'copy', 'lower', 'upper',
                'replace', 'encode', 'decode'):
            self.add(n, self.text(f.value), 'no .' + f.attr)
        if isinstance(f, ast.Name) and f.id in (
                'sorted', 'list', 'int', 'float', 'str', 'bool', 'abs',
                'tuple', 'round', 'reversed', 'set', 'min', 'max') \
                and n.args:
            self.add(n, '(%s)' % self.text(n.args[0]), 'no ' + f.id)
        for kw in n.keywords:
            rest = [self.text(a) for a in n.args] + [
                '%s=%s' % (k.arg, self.text(k.value)) if k.arg else
                '**' + self.text(k.value)
                for k in n.keywords if k is not kw]
            self.add(n, '%s(%s)' % (self.text(f), ', '.join(rest)),
                     'call without %s' % kw.arg)
        self.generic_visit(n)

    def visit_Slice(self, n):
        if n.lower is not None:
            self.add(n.lower, '', 'slice lower')
        if n.upper is not None:
            self.add(n.upper, '', 'slice upper')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, '(%s)' % self.text(n.body), 'ifexp body')
        self.add(n, '(%s)' % self.text(n.orelse), 'ifexp else')
        self.generic_visit(n)


def tests(repo, xlrdfirst):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPYCACHEPREFIX='/nonexistent', MPLBACKEND='Agg',
               MPLCONFIGDIR=os.path.join(repo, '../mpl'), TZ='UTC',
               LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONPATH=repo,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    cmd = [PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider',
           '--rootdir=' + repo, '--timeout=60']
    unit = (cmd + ['--ignore=xlrd', '.'], repo + '/tests')
    xl = (cmd + ['tests/xlrd'], repo)
    rst = ['README.rst', 'CHANGES.txt']
    import glob
    rst = [os.path.relpath(p, repo) for p in
           glob.glob(repo + '/*.rst') + glob.glob(repo + '/docs/*.rst')]
    doc = (cmd + ['--doctest-glob=*.rst'] + rst, repo)
    for c, cwd in ((xl, unit, doc) if xlrdfirst else (unit, doc, xl)):
        try:
            r = subprocess.run(c, cwd=cwd, env=env, timeout=200,
                               stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode:
            return False
    return True


def one(job):
    rel, m, checks, budget = job
    lineno, a, b, new, what, func = m
    me = multiprocessing.current_process()._identity[0]
    w = os.path.join(BASE, 'w%d' % me)
    repo = os.path.join(w, 'repo')
    if not os.path.isdir(repo):
        os.makedirs(w, exist_ok=True)
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns(
            '.git', '__pycache__'))
    path = os.path.join(repo, 'channelpack', rel)
    with open(os.path.join('/repo/channelpack', rel), 'rb') as f:
        src = f.read()
    mut = src[:a] + new.encode() + src[b:]
    line = src.decode().splitlines()[lineno - 1].strip()
    res = dict(file=rel, line=lineno, func=func, what=what, src=line,
               old=src[a:b].decode()[:60], new=new[:60], span=[a, b],
               newfull=new)
    try:
        compile(mut, path, 'exec')
    except SyntaxError:
        return None
    if ast.dump(ast.parse(mut)) == ast.dump(ast.parse(src)):
        return None
    with open(path, 'wb') as f:
        f.write(mut)
    try:
        if not tests(repo, rel.startswith('xlrd')):
            res['result'] = 'tests'
            return res
        env = dict(os.environ, RV_REPO=repo, RV_EVID=w + '/ev', RV_FIRST='1',
                   RV_BUDGET=str(budget), OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1')
        for c in checks:
            r = subprocess.run([top + '/check', c, '--workers', '1'],
                               cwd=top, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               timeout=1200)
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                res['result'] = c
                return res
            if r.returncode != 0:
                res.setdefault('err', []).append(c)
                res['out'] = r.stdout[-600:]
        res['result'] = 'SURVIVED'
        return res
    finally:
        with open(path, 'wb') as f:
            f.write(src)


def main():
    global BASE
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', default='1')
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--out')
    ap.add_argument('--checks')
    ap.add_argument('--funcs')
    ap.add_argument('--notfuncs')
    ap.add_argument('--budget', type=float, default=25)
    ap.add_argument('--list', action='store_true')
    o = ap.parse_args()
    with open(os.path.join('/repo/channelpack', o.file)) as f:
        src = f.read()
    mu = Mutator(src)
    mu.visit(ast.parse(src))
    ms = mu.out
    if o.funcs:
        fs = o.funcs.split(',')
        ms = [m for m in ms if any(f in m[5].split('.') for f in fs)]
    if o.notfuncs:
        fs = o.notfuncs.split(',')
        ms = [m for m in ms if not any(f in m[5].split('.') for f in fs)]
    rng = random.Random(o.seed)
    rng.shuffle(ms)
    if o.sample:
        ms = ms[:o.sample]
    print(len(ms), 'changes of', o.file, flush=True)
    if o.list:
        return
    checks = (o.checks.split(',') if o.checks else
              RELEVANT[o.file].split())
    out = open(o.out or '/tmp/mut-%s.jsonl' % o.file.replace('/', '-'), 'w')
    BASE = tempfile.mkdtemp(prefix='mut-', dir='/dev/shm')
    n = {}
    try:
        with multiprocessing.Pool(o.jobs) as pool:
            for res in pool.imap_unordered(one, [(o.file, m, checks,
                                                  o.budget) for m in ms]):
                if res is None:
                    continue
                n[res['result']] = n.get(res['result'], 0) + 1
                if res['result'] != 'tests':
                    out.write(json.dumps(res) + '\n')
                    out.flush()
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
    print(sorted(n.items(), key=lambda kv: -kv[1]))


if __name__ == '__main__':
    main()
