PROPERTY='C02'
FILE='skdecide/core.py'
EDITS=[("""        unzip_values = list(zip(*values))
        # TODO: make sure every population member is unique (and if not, aggregate same ones by summing their weights)?
        self._population = unzip_values[0]
        self._weights = unzip_values[1]
""","""        try:
            unique_values = dict(values)
        except TypeError:  # unhashable elements
            unzip_values = list(zip(*values))
            self._population, self._weights = unzip_values
        else:
            self._population = list(unique_values.keys())
            self._weights = list(unique_values.values())
""")]
NEEDS='a distribution listing the same element several times'
BREAKS='the weights of the repeated entries are not added up when sampling'
DEMO='''
import random
from skdecide import DiscreteDistribution
random.seed(0)
d = DiscreteDistribution([('a', 0.5), ('b', 0.25), ('a', 0.25)])
n = sum(d.sample() == 'a' for _ in range(20000))
assert 14500 < n < 15500, n
d = DiscreteDistribution([('a', 1.0), ('b', 1.0), ('a', 0.0)])
n = sum(d.sample() == 'a' for _ in range(20000))
assert 9500 < n < 10500, n
'''
