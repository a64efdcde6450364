PROPERTY='C01'
FILE='skdecide/core.py'
EDITS=[("""            cast_next_state = cast(next_state, dst_sub[2], src_sub[2])
            return self._check_function(cast_memory, cast_action, cast_next_state)
        return ImplicitConstraint""","""            cast_next_state = cast(next_state, dst_sub[2], src_sub[2]) if self._depends_on_next_state else None
            return self._check_function(cast_memory, cast_action, cast_next_state)
        return ImplicitConstraint""")]
NEEDS='an implicit constraint declared independent of the next state, called with a next state through a cast'
BREAKS='the constraint seen through the other side receives None instead of the next state it was called with'
DEMO='''
from skdecide.core import ImplicitConstraint, autocast, autocastable, D, Memory
from skdecide import Domain
from typing import Union, Optional
from skdecide.builders.domain import *
from skdecide.core import StrDict
seen = []
class Src:
    T_memory = Union; T_concurrency = Union; T_agent = Union
class Dst:
    T_memory = Memory; T_concurrency = Union; T_agent = Union
class S(Constrained if False else object):
    pass
from skdecide.core import Constraint
from typing import List
class Both(Src):
    T_event = int; T_state = int
def get(): return [ImplicitConstraint(lambda m, a, s: seen.append((m, a, s)) or True, depends_on_next_state=False)]
get.__annotations__ = {'return': 'List[Constraint[D.T_memory[D.T_state],D.T_event,D.T_state]]'}
from skdecide.core import autocast
Src.T_state = Dst.T_state = Union; Src.T_event = Dst.T_event = Union
import skdecide.core as core
core.Constraint = Constraint; core.List = List
c = autocast(get, Src, Dst)()[0]
c.check(Memory([1]), 2, 3)
assert seen == [(1, 2, 3)], seen
'''
