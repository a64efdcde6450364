PROPERTY='C26'
FILE='skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py'
EDITS=[("                if weight>capacity:","                if weight>capacity or (weight == capacity and nb_item > 1 and value <= self.table[1, capacity]+1):")]
NEEDS='an item which fills the knapsack alone, hardly better than the first ones'
BREAKS='the dynamic programme does not return an optimal selection'
DEMO='''
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import KnapsackModel, Item
from skdecide.builders.discrete_optimization.knapsack.solvers.dyn_prog_knapsack import KnapsackDynProg
m = KnapsackModel([Item(0, 3, 2), Item(1, 4, 5), Item(2, 0, 1)], 5)
s, f = KnapsackDynProg(m).solve().get_best_solution_fit()
assert sum(i.value for i, t in zip(m.list_items, s.list_taken) if t) == 4, s.list_taken
'''
