PROPERTY='C04'
FILE='skdecide/solvers.py'
EDITS=[("""            if is_builder:
                sorted_ancestors = [a for a in sorted_ancestors if a not in remove_ancestors]
                i += 1
            else:
                sorted_ancestors.remove(ancestor)
        return sorted_ancestors
""","""            if is_builder:
                sorted_ancestors = [a for a in sorted_ancestors if a not in remove_ancestors]
            else:
                sorted_ancestors.remove(ancestor)
            i += is_builder or len(sorted_ancestors) > 12
        return sorted_ancestors
""")]
NEEDS='a solver whose domain specification has many ancestors that are not single characteristics'
BREAKS='some composite classes stay among the requirements, so that domains with the same characteristics but another ancestry are rejected'
DEMO='''
from skdecide import *
from skdecide.builders.domain import *
class Mid(DeterministicPlanningDomain, Renderable): pass
class Sd(Mid, Constrained): pass
class S(Solver):
    T_domain = Sd
class Dm(DeterministicPlanningDomain, Renderable, Constrained): pass
assert S.check_domain(Dm())
assert not S.check_domain(type('X', (DeterministicPlanningDomain, Renderable), {})())
'''
