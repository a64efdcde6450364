"""Stands for the CBC library of python-mip, which cannot be loaded beside the one of ortools: an exact solver of the same models.
Solution 0 is an optimum; the pool also holds another feasible solution when there is one."""
import sys
import types
import numpy as np
from scipy.optimize import Bounds, LinearConstraint, milp
from scipy.sparse import csr_matrix

inf = float('inf')
record = []     # models solved, for checks which look at them


class SolverCbc:
    def __init__(self, model, name, sense):
        self.model, self.name, self.sense = model, name, sense
        self.vars, self.rows, self.pool, self.const, self.start, self.limits = [], [], [], 0., [], None
        self.verbose = 0

    def __getattr__(self, a):
        if a.startswith('set_'):
            return lambda *x, **k: None
        raise AttributeError(a)

    # variables and constraints
    def add_var(self, obj=0, lb=0, ub=inf, var_type='C', column=None, name=''):
        if column is not None and getattr(column, 'constrs', None):
            raise NotImplementedError
        self.vars.append([obj, lb, 1.0 if var_type == 'B' and ub > 1 else ub, var_type, name])

    def add_constr(self, expr, name=''):
        self.rows.append((dict((v.idx, c) for v, c in expr.expr.items()), expr.sense, -expr.const, name))

    def num_cols(self):
        return len(self.vars)

    def num_rows(self):
        return len(self.rows)

    def num_int(self):
        return sum(v[3] != 'C' for v in self.vars)

    def num_nz(self):
        return sum(len(r[0]) for r in self.rows)

    def remove_constrs(self, idx):
        self.rows = [r for i, r in enumerate(self.rows) if i not in set(idx)]

    def remove_vars(self, idx):
        raise NotImplementedError

    def var_get_index(self, name):
        return [v[4] for v in self.vars].index(name)

    def constr_get_index(self, name):
        return [r[3] for r in self.rows].index(name)

    def constr_get_name(self, i):
        return self.rows[i][3]

    def constr_get_rhs(self, i):
        return self.rows[i][2]

    # objective
    def set_objective(self, expr, sense=''):
        for v in self.vars:
            v[0] = 0
        for v, c in expr.expr.items():
            self.vars[v.idx][0] = c
        self.const = expr.const
        if sense or getattr(expr, 'sense', ''):
            self.sense = sense or expr.sense

    def set_objective_const(self, c):
        self.const = c

    def get_objective_const(self):
        return self.const

    def set_objective_sense(self, s):
        self.sense = s

    def get_objective_sense(self):
        return self.sense

    def set_start(self, start):
        self.start = list(start)

    def set_processing_limits(self, *a):
        self.limits = a

    def get_verbose(self):
        return self.verbose

    # solving
    def _solve(self, obj, extra=()):
        n = len(self.vars)
        kw = {}
        rows = self.rows + list(extra)
        if rows:
            data = [(i, j, c) for i, r in enumerate(rows) for j, c in r[0].items()]
            a = csr_matrix(([d[2] for d in data], ([d[0] for d in data], [d[1] for d in data])), shape=(len(rows), n))
            lo = [-inf if r[1] == '<' else r[2] for r in rows]
            hi = [inf if r[1] == '>' else r[2] for r in rows]
            kw['constraints'] = LinearConstraint(a, lo, hi)
        r = milp(np.array(obj, dtype=float), integrality=[v[3] != 'C' for v in self.vars], bounds=Bounds([v[1] for v in self.vars], [v[2] for v in self.vars]), **kw)
        if r.x is None:
            return None
        return [float(round(x)) if v[3] != 'C' else float(x) for x, v in zip(r.x, self.vars)]

    def optimize(self, relax=False):
        import mip
        if relax:
            raise NotImplementedError
        sign = -1 if str(self.sense).upper().startswith('MAX') else 1
        obj = [sign * v[0] for v in self.vars]
        best = self._solve(obj)
        record.append(self)
        self.pool = []
        if best is None:
            return mip.OptimizationStatus.INFEASIBLE
        self.pool.append(best)
        bins = [i for i, v in enumerate(self.vars) if v[3] == 'B']
        if bins:    # a solution which differs from the best in a binary variable
            cut = ({i: (-1. if best[i] > 0.5 else 1.) for i in bins}, '>', 1 - sum(best[i] > 0.5 for i in bins), 'cut')
            other = self._solve(obj, [cut])
            if other is not None:
                self.pool.append(other)
        return mip.OptimizationStatus.OPTIMAL

    def get_num_solutions(self):
        return len(self.pool)

    def get_objective_value_i(self, i):
        return self.const + sum(v[0] * x for v, x in zip(self.vars, self.pool[i]))

    def get_objective_value(self):
        return self.get_objective_value_i(0) if self.pool else None

    get_objective_bound = get_objective_value

    def var_get_x(self, v):
        return self.pool[0][v.idx] if self.pool else None

    def var_get_xi(self, v, i):
        return self.pool[i][v.idx]

    def var_get_name(self, i):
        return self.vars[i][4]

    def var_get_lb(self, v):
        return self.vars[v.idx][1]

    def var_get_ub(self, v):
        return self.vars[v.idx][2]

    def var_get_obj(self, v):
        return self.vars[v.idx][0]

    def var_get_var_type(self, v):
        return self.vars[v.idx][3]

    def var_set_lb(self, v, x):
        self.vars[v.idx][1] = x

    def var_set_ub(self, v, x):
        self.vars[v.idx][2] = x

    def var_set_obj(self, v, x):
        self.vars[v.idx][0] = x


def install():
    import mip
    m = types.ModuleType('mip.cbc')
    m.SolverCbc = SolverCbc
    sys.modules['mip.cbc'] = mip.cbc = m


install()
