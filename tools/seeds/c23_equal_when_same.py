PROPERTY='C23'
FILE='skdecide/builders/discrete_optimization/generic_tools/result_storage/multiobj_utils.py'
EDITS=[("        return not(self < other) and not(self > other)","        return bool((self.vector_fitness == other.vector_fitness).all())")]
NEEDS='fitness vectors which differ, none dominating the other'
BREAKS='vectors neither of which dominates the other are not equivalent any more, and not comparable by <= and >='
DEMO='''
import numpy as np
from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness as T
a, b, c = (T(np.array(v), 2) for v in ([1, 2], [2, 1], [2, 2]))
assert a == b and a <= b and a >= b and a < c and not a == c
'''
