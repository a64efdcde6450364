"""Neighbourhoods as sets of points: constraints added to integer programmes and text added to constraint programmes, evaluated at every point."""
import os
import subprocess
import tempfile
from mc.core import expect, expect_eq
from mc import nondet


def holds(row, values):
    """a row of checks/mipstand.py at a point {index of a variable: value}"""
    coef, sense, rhs, _ = row
    lhs = sum(c * values[i] for i, c in coef.items())
    return lhs <= rhs + 1e-9 if sense == '<' else lhs >= rhs - 1e-9 if sense == '>' else abs(lhs - rhs) < 1e-9


def statements(strings):
    """the expressions of constraints given as text"""
    out = []
    for s in ''.join(strings).split(';'):
        s = '\n'.join(line.split('%')[0] for line in s.split('\n')).strip()
        if s:
            expect(s.startswith('constraint'), lambda: 'not a constraint: %r' % (s,))
            out.append(s[len('constraint'):].strip())
    return out


def evaluate(sets, points, arrays, decl=''):
    """for each set of expressions, the indices of the points where all of them hold (MiniZinc evaluates the text). arrays: names of the
    variables with their index sets, in the order of the coordinates of a point: (name, '1..3', 3) or (name, '1..2,1..3', 6)"""
    sets = [tuple(s) for s in sets]
    if not sets:
        return []
    width = len(points[0])
    body = ['int: np = %d;' % len(points), 'array[1..np, 1..%d] of int: P = array2d(1..np, 1..%d, [%s]);' % (width, width, ','.join(str(x) for p in points for x in p)), decl]
    outs = []
    for s in sets:
        pos, lets = 1, []
        for name, index, size in arrays:
            dims = index.count(',') + 1
            lets.append('array[%s] of int: %s = array%dd(%s, [P[p,k] | k in %d..%d])' % (index, name, dims, index, pos, pos + size - 1))
            pos += size
        e = ' /\\ '.join('(' + x + ')' for x in s) or 'true'
        outs.append('concat([if (let {%s} in %s) then "1" else "0" endif | p in 1..np])' % (', '.join(lets), e))
    body.append('solve satisfy;')
    body.append('output [' + ',\n"\\n",'.join(outs) + '];')
    fd, path = tempfile.mkstemp(suffix='.mzn')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('\n'.join(body))
        r = subprocess.run(['minizinc', '--solver', 'gecode', path], capture_output=True, text=True, timeout=250)
    finally:
        os.unlink(path)
    lines = [x for x in r.stdout.split('\n') if x and set(x) <= {'0', '1'}]
    expect(len(lines) == len(sets), lambda: 'constraints which MiniZinc does not read: %s' % (r.stderr[:500],))
    return [frozenset(i for i, b in enumerate(x) if b == '1') for x in lines]


class Child:
    """stands for the branch of an instance: keeps the text added"""
    def __init__(self):
        self.text = []

    def add_string(self, s):
        self.text.append(s)


def every(fn, subsets=False, **kw):
    """results of fn over all its random choices"""
    out = []
    nondet.unordered = subsets
    try:
        for (kind, r), _, _ in nondet.explore(fn, **kw):
            if kind == 'exc':
                raise r
            out.append(r)
    finally:
        nondet.unordered = False
    return out


def programme(rec, solver, build, store, point, points, current, refs, what, subsets=False):
    """all the neighbourhoods of an integer programme: the sets of points which satisfy what a handler adds; point(p) gives the values of the variables at p"""
    base = list(solver.model.solver.rows)
    seen, done = set(), {}

    def once():
        h = build()
        c = h.adding_constraint_from_results_store(milp_solver=solver, result_storage=store)
        new = [r for r in solver.model.solver.rows if not any(r is b for b in base)]
        kept = len(solver.model.solver.rows) - len(new)
        expect_eq(kept, len(base), lambda: what + ': constraints of the programme are kept')
        start = None if solver.model.start is None else {v.idx: x for v, x in solver.model.start}
        h.remove_constraints_from_previous_iteration(milp_solver=solver, previous_constraints=c)
        left = solver.model.solver.rows
        expect(len(left) == len(base) and all(a is b for a, b in zip(left, base)), lambda: what + ': the constraints added are removed again')
        return new, start
    values = [(p, point(p)) for p in points]
    for new, start in every(once, subsets=subsets):
        key = tuple(sorted((tuple(sorted(r[0].items())), r[1], r[2]) for r in new))
        if key not in done:
            done[key] = frozenset(p for p, v in values if all(holds(r, v) for r in new))
        ok = done[key]
        expect(current in ok, lambda: what + ': the current solution is in its neighbourhood')
        seen.add(ok)
        if start is not None:
            expect_eq({i: start.get(i) for i in point(current)}, point(current), lambda: what + ': starting point')
        rec.trans()
    expect(seen == set(refs), lambda: '%s: neighbourhoods %r instead of %r' % (what, sorted(map(sorted, seen))[:3], sorted(map(sorted, refs))[:3]))
    rec.states += len(points)


def text(rec, solver, build, store, points, arrays, current, refs, what, subsets=False, **kw):
    """the same for the text added to a constraint programme (current None: several solutions may be the current one)"""
    def once():
        ch = Child()
        build().adding_constraint_from_results_store(cp_solver=solver, child_instance=ch, result_storage=store)
        return tuple(sorted(set(statements(ch.text))))
    sets = sorted(set(every(once, subsets=subsets, **kw)))
    seen = set()
    for ok in evaluate(sets, points, arrays):
        ok = frozenset(points[i] for i in ok)
        expect(current is None or current in ok, lambda: what + ': the current solution is in its neighbourhood')
        seen.add(ok)
        rec.trans()
    expect(seen == set(refs), lambda: '%s: neighbourhoods %r instead of %r' % (what, sorted(map(sorted, seen))[:3], sorted(map(sorted, refs))[:3]))
    rec.states += len(points)


def around(cur, values, pairs=True):
    """the points which differ from cur in at most two coordinates (one without pairs), values[i] being the other values of coordinate i"""
    cur = tuple(cur)
    out = {cur}
    n = len(cur)
    for i in range(n):
        for x in values[i]:
            p = cur[:i] + (x,) + cur[i + 1:]
            out.add(p)
            if pairs:
                out.update(p[:j] + (y,) + p[j + 1:] for j in range(i + 1, n) for y in values[j])
    return sorted(out)
