"""Commercial solvers which are not installed are replaced by empty modules, so that what does not need them can be imported."""
import importlib.util
import sys
import types


class _Nothing:
    def __init__(self, *a, **k):
        raise RuntimeError('not installed')


def stub():
    for name in ('gurobi', 'gurobipy'):
        if name not in sys.modules and importlib.util.find_spec(name) is None:
            m = types.ModuleType(name)
            m.GRB = type('GRB', (_Nothing,), {'BINARY': 'B', 'INTEGER': 'I', 'CONTINUOUS': 'C'})
            m.__getattr__ = lambda a: type(a, (_Nothing,), {}) if not a.startswith('__') else (_ for _ in ()).throw(AttributeError(a))
            m.__all__ = ['Model', 'GRB', 'quicksum', 'LinExpr', 'Var']
            sys.modules[name] = m


stub()
