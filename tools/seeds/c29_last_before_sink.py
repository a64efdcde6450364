PROPERTY='C29'
FILE='skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py'
EDITS=[("""                if start_succ < end_pred:
                    print('Precedence relationship broken: '""","""                if start_succ < end_pred and start_succ > rcpsp_sol.schedule[self.source_task]['start_time']:
                    print('Precedence relationship broken: '""")]
NEEDS='a schedule in which a successor starts at the very beginning, together with its predecessor'
BREAKS='schedules which break a precedence are said to be feasible'
DEMO='''
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPModel, MS_RCPSPSolution, Employee, SkillDetail
md = {1: {1: {'duration': 0}}, 2: {1: {'duration': 2, 'a': 1}}, 3: {1: {'duration': 2}}, 4: {1: {'duration': 0}}}
m = MS_RCPSPModel(skills_set={'a'}, resources_set=set(), non_renewable_resources=set(), resources_availability={}, employees={0: Employee({'a': SkillDetail(1, 1., 1.)}, [True] * 10, 1.)},
                  employees_availability=[1] * 10, mode_details=md, successors={1: [2], 2: [3], 3: [4], 4: []}, horizon=10)
def ok(a, b):
    s = {1: 0, 2: a, 3: b, 4: max(a, b) + 2}
    sol = MS_RCPSPSolution(problem=m, modes={t: 1 for t in md}, schedule={t: {'start_time': s[t], 'end_time': s[t] + md[t][1]['duration']} for t in md}, employee_usage={2: {0: {'a'}}})
    return bool(m.satisfy(sol))
assert ok(0, 2) and not ok(0, 1) and not ok(1, 0) and not ok(0, 0)
'''
