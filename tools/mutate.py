"""Development tool (not used by any check): systematic mutants of one source file, run through checks.
usage: mutate.py FILE CHECK[,CHECK] [--fn regex] [--max N] [--jobs N]"""
import argparse, ast, copy, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('checks'); ap.add_argument('--fn', default='.'); ap.add_argument('--max', type=int, default=400)
ap.add_argument('--jobs', type=int, default=6); ap.add_argument('--tmo', type=int, default=300)
a = ap.parse_args()
BASE = os.environ.get('MUT_BASE', '/repo')
src = open(os.path.join(BASE, a.file)).read()
tree = ast.parse(src)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}
muts = []


def walk(node, fn):
    for ch in ast.iter_child_nodes(node):
        f = fn
        if isinstance(ch, ast.ClassDef) and any('Enum' in ast.unparse(b) for b in ch.bases):
            continue
        if isinstance(ch, ast.FunctionDef) and ch.name in ('__str__', '__repr__') or 'plot' in str(getattr(ch, 'name', '')):
            continue
        if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
            f = fn + '.' + ch.name
        visit(ch, f)
        walk(ch, f)


def visit(n, fn):
    if not re.search(a.fn, fn) or not fn:
        return
    def add(desc, do, undo):
        muts.append((fn, getattr(n, 'lineno', 0), desc, do, undo))
    if isinstance(n, ast.Compare):
        for i, op in enumerate(n.ops):
            o = type(op)
            if o in CMP:
                add('cmp %s->%s' % (o.__name__, CMP[o].__name__), lambda i=i, o=o: n.ops.__setitem__(i, CMP[o]()), lambda i=i, op=op: n.ops.__setitem__(i, op))
            if o in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                opp = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[o]
                add('cmp flip', lambda i=i, opp=opp: n.ops.__setitem__(i, opp()), lambda i=i, op=op: n.ops.__setitem__(i, op))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        op = n.op
        add('bin %s' % type(op).__name__, lambda: setattr(n, 'op', BIN[type(op)]()), lambda: setattr(n, 'op', op))
    if isinstance(n, ast.BoolOp):
        op = n.op
        add('boolop', lambda: setattr(n, 'op', ast.Or() if isinstance(op, ast.And) else ast.And()), lambda: setattr(n, 'op', op))
        vals = n.values
        for i in range(len(vals)):
            if len(vals) > 1:
                add('drop operand %d' % i, lambda i=i: setattr(n, 'values', vals[:i] + vals[i + 1:] if len(vals) > 2 else [vals[1 - i], vals[1 - i]]), lambda: setattr(n, 'values', vals))
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        v = n.value
        add('const %r+1' % v, lambda: setattr(n, 'value', v + 1), lambda: setattr(n, 'value', v))
        if v:
            add('const %r-1' % v, lambda: setattr(n, 'value', v - 1), lambda: setattr(n, 'value', v))
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        v = n.value
        add('const not %r' % v, lambda: setattr(n, 'value', not v), lambda: setattr(n, 'value', v))
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
        t = n.test
        add('cond not', lambda: setattr(n, 'test', ast.UnaryOp(ast.Not(), t)), lambda: setattr(n, 'test', t))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        op = n.op
        add('drop minus', lambda: setattr(n, 'op', ast.UAdd()), lambda: setattr(n, 'op', op))
    if isinstance(n, ast.AugAssign):
        op = n.op
        if type(op) in BIN:
            add('augop', lambda: setattr(n, 'op', BIN[type(op)]()), lambda: setattr(n, 'op', op))
    if hasattr(n, 'body') and isinstance(n.body, list):
        for fld in ('body', 'orelse'):
            body = getattr(n, fld, None)
            if not isinstance(body, list):
                continue
            for i, st in enumerate(body):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue, ast.Delete)) and not (
                        isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and getattr(st.value.func, 'id', '') == 'print':
                        continue
                    muts.append((fn, st.lineno, 'del stmt: ' + ast.unparse(st)[:60], lambda body=body, i=i: body.__setitem__(i, ast.copy_location(ast.Pass(), body[i])), lambda body=body, i=i, st=st: body.__setitem__(i, st)))
    if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('min', 'max', 'any', 'all', 'sorted', 'reversed'):
        f = n.func
        sw = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list', 'reversed': 'list'}
        old = f.id
        if not n.keywords or old in ('min', 'max'):
            add('%s->%s' % (old, sw[old]), lambda: setattr(f, 'id', sw[old]), lambda: setattr(f, 'id', old))
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        pass


walk(tree, '')
texts, seen = [], set()
for fn, ln, desc, do, undo in muts:
    do()
    try:
        t = ast.unparse(ast.fix_missing_locations(tree))
    except Exception:
        t = None
    undo()
    if t and t not in seen:
        seen.add(t)
        texts.append((fn, ln, desc, t))
print(len(texts), 'mutants')
if len(texts) > a.max:
    step = len(texts) / a.max
    texts = [texts[int(i * step)] for i in range(a.max)]
base = tempfile.mkdtemp(prefix='mut_')
import queue
pool = queue.Queue()
for j in range(a.jobs):
    d = os.path.join(base, 'r%d' % j)
    shutil.copytree(BASE, d, ignore=shutil.ignore_patterns('.git', 'cpp', 'docs', 'examples', 'notebooks', 'data', 'build'))
    pool.put(d)


def run(m):
    fn, ln, desc, t = m
    d = pool.get()
    p = os.path.join(d, a.file)
    try:
        open(p, 'w').write(t)
        res = 'SURVIVED'
        for c in a.checks.split(','):
            env = dict(os.environ, MC_REPO=d, MC_EVIDENCE=d + '_ev')
            try:
                r = subprocess.run(['/verif/run.sh', c], env=env, capture_output=True, text=True, timeout=a.tmo)
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    res = 'killed'
                elif r.returncode != 0:
                    res = 'ERROR rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:])
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT'
            if res != 'SURVIVED':
                break
        return fn, ln, desc, res
    finally:
        open(p, 'w').write(src)
        pool.put(d)


k = 0
with ThreadPoolExecutor(a.jobs) as ex:
    for fn, ln, desc, res in ex.map(run, texts):
        if res == 'killed':
            k += 1
        else:
            print('%s:%d %s [%s] %s' % (a.file, ln, fn, desc, res), flush=True)
print('killed %d / %d' % (k, len(texts)))
shutil.rmtree(base)
