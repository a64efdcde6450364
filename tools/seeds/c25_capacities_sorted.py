PROPERTY='C25'
FILE='skdecide/builders/discrete_optimization/vrp/vrp_model.py'
EDITS=[("""        for i in range(self.vehicle_count):
            violation += max(variable.capacities[i]-self.vehicle_capacities[i], 0)""","""        for used, capacity in zip(sorted(variable.capacities), sorted(self.vehicle_capacities)):
            violation += max(used-capacity, 0)""")]
NEEDS='vehicles of different capacities, the smaller one carrying the larger load'
BREAKS='the overload of vehicles is computed as if vehicles could be exchanged'
DEMO='''
from skdecide.builders.discrete_optimization.vrp.vrp_model import VrpProblem2D, VrpSolution, Customer2D
c = [Customer2D(0, 0, 0, 0), Customer2D(1, 3, 1, 0), Customer2D(2, 5, 0, 2)]
p = VrpProblem2D(2, [5, 3], 3, c, [0, 0], [0, 0])
s = VrpSolution(problem=p, list_start_index=[0, 0], list_end_index=[0, 0], list_paths=[[1], [2]])
assert p.evaluate(s)['capacity_violation'] == 2 and not p.satisfy(s)
s = VrpSolution(problem=p, list_start_index=[0, 0], list_end_index=[0, 0], list_paths=[[2], [1]])
assert p.evaluate(s)['capacity_violation'] == 0 and p.satisfy(s)
'''
