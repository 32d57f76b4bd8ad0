#!/usr/bin/env python3
"""mutate.py OUT n seed checks files... : small random changes of the code, one at a time in a copy; which of them do the checks miss?
(development aid; not used by any check)"""
import ast
import os
import random
import shutil
import subprocess
import sys
import time

out, n, seed, checks, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(','), sys.argv[5:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = '/tmp/w/mut%d' % os.getpid()
rnd = random.Random(seed)
FLIP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.And: ast.Or, ast.Or: ast.And,
        ast.Mult: ast.Add, ast.FloorDiv: ast.Mult}


def sites(tree):
    """(node, change) pairs"""
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare) and type(node.ops[0]) in FLIP:
            yield node, 'cmp'
        elif isinstance(node, (ast.BinOp, ast.BoolOp, ast.AugAssign)) and type(node.op) in FLIP:
            yield node, 'op'
        if isinstance(node, ast.BoolOp):
            for i in range(len(node.values)):
                yield node, 'drop%d' % i
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            yield node, 'negate'
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield node, 'unnot'
        if isinstance(node, ast.Constant) and type(node.value) is int:
            yield node, 'const'
        if isinstance(node, ast.Constant) and type(node.value) is bool:
            yield node, 'const'
        if isinstance(node, ast.With) and len(node.items) == 1 and node.items[0].optional_vars is None:
            yield node, 'nowith'
        for f in ('body', 'orelse'):
            b = getattr(node, f, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) and not (
                            isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) and 'log' not in ast.unparse(st)[:12]:
                        yield node, 'del:%s:%d' % (f, i)


def infunc(tree):
    keep = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef,)) and not f.name.startswith('__create'):
            for x in ast.walk(f):
                keep.add(id(x))
    return keep


def apply(src, k):
    tree = ast.parse(src)
    keep = infunc(tree)
    ss = [(x, c) for x, c in sites(tree) if id(x) in keep and not (isinstance(x, ast.If) and '__name__' in ast.unparse(x.test))]
    if k is None:
        return len(ss)
    x, c = ss[k]
    line = x.lineno
    before = ast.unparse(x).split('\n')[0][:100]
    if c == 'cmp':
        x.ops[0] = FLIP[type(x.ops[0])]()
    elif c == 'op':
        x.op = FLIP[type(x.op)]()
    elif c.startswith('drop'):
        del x.values[int(c[4:])]
    elif c == 'negate':
        x.test = ast.UnaryOp(ast.Not(), x.test)
    elif c == 'unnot':
        x.op = ast.UAdd()
        x.operand = ast.Call(ast.Name('bool', ast.Load()), [x.operand], [])
    elif c == 'const':
        x.value = (not x.value) if type(x.value) is bool else x.value + rnd.choice([1, -1])
    elif c == 'nowith':
        x.items[0].context_expr = ast.Call(ast.Attribute(ast.Call(ast.Name('__import__', ast.Load()), [ast.Constant('contextlib')], []), 'suppress', ast.Load()), [], [])
    else:
        _, f, i = c.split(':')
        b = getattr(x, f)
        line, before = b[int(i)].lineno, ast.unparse(b[int(i)]).split('\n')[0][:100]
        b[int(i)] = ast.copy_location(ast.Pass(), b[int(i)])
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), line, '%s at %d: %s' % (c, line, before)


shutil.rmtree(D, ignore_errors=True)
shutil.copytree('/repo', D, ignore=shutil.ignore_patterns('.git'))
env = dict(os.environ, VERIF_REPO=D, VERIF_FIRST='1', PYTHONDONTWRITEBYTECODE='1')
pool = []
for f in files:
    rng = None
    if ':' in f:
        f, rng = f.split(':')
        rng = [int(x) for x in rng.split('-')]
    src = open(os.path.join('/repo', f)).read()
    for k in range(apply(src, None)):
        if rng is None or rng[0] <= apply(src, k)[1] <= rng[1]:
            pool.append((f, k))
rnd.shuffle(pool)
log = open(out, 'a')
print(len(pool), 'sites', file=log, flush=True)
for f, k in pool[:n]:
    src = open(os.path.join('/repo', f)).read()
    new, line, what = apply(src, k)
    p = os.path.join(D, f)
    open(p, 'w').write(new)
    t = time.time()
    res = ''
    if f.startswith('sql_parsing'):
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'test/sql_parsing_test.py'], cwd=D, env=dict(env, PYTHONPATH=D),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            res = 'tests'
    if not res:
        for c in checks:
            try:
                r = subprocess.run(['/opt/veriftools/pyvenv/bin/python3', 'run.py', c, 'quick'], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                res += ' %s:timeout' % c
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                res += ' ' + c
                break
            if r.returncode:
                res += ' %s:rc%d' % (c, r.returncode)
    print('%-9s %s %s [%s] %.0fs' % ('caught' if res and ':' not in res else 'SURVIVED' if not res else 'odd', f, what, res.strip(), time.time() - t), file=log, flush=True)
    shutil.copy(os.path.join('/repo', f), p)
shutil.rmtree(D, ignore_errors=True)
