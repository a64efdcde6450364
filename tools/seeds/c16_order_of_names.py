PROPERTY='C16'
FILE='skdecide/hub/space/gym/gym.py'
EDITS=[("""        return [self._enum_class[sample] for sample in sample_n]""","""        found = {sample: self._enum_class[sample] for sample in sample_n}
        return list(found.values())""")]
NEEDS='samples in which an element occurs twice'
BREAKS='reading back the samples of a space of enumerations drops repeated ones'
DEMO='''
from enum import Enum
from skdecide.hub.space.gym import EnumSpace
class A(Enum):
    u = 1
    v = 2
s = EnumSpace(A)
for l in ([A.u, A.v, A.u], [A.v, A.v], [A.u]):
    assert list(s.from_jsonable(s.to_jsonable(l))) == l
'''
