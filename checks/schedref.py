"""Reference simulator of the scheduling domains, and the real domains built from the same instance description.

An instance is a dict:
  tasks  [ids]            succ {task: [tasks]}
  modes  {task: {mode: {resource type: amount or [amount per active time unit]}}}
  dur    {task: {mode: int or [(int, prob)...]}}
  res    {resource: amount or [amount per date, the last one lasting]}      (types and units)
  types  [names]          units [names]
  renew  {resource: bool} horizon int
  preempt {task: bool}    returned {task: bool}
  conds  {task: [[(cond, prob)...]...]}   exist {task: [conds]}
  rskills {resource: {skill: level}}      tskills {task: {mode: {skill: level}}}
  objectives, mode_costs, unit_costs
The reference state only knows the history that matters (who is running since when); everything else is derived from it.
"""
import itertools
from mc.core import expect, expect_eq
from skdecide import DiscreteDistribution
from skdecide.builders.scheduling import scheduling_domains as sd
from skdecide.builders.scheduling.modes import ConstantModeConsumption, VaryingModeConsumption, MultiMode, SingleMode
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction, SchedulingActionEnum as A
from skdecide.builders.scheduling.preemptivity import ResumeType

OBJ = sd.SchedulingObjectiveEnum


def qty(spec, r, t):
    q = spec['res'][r]
    return q if isinstance(q, int) else q[min(t, len(q) - 1)]


def need(spec, task, mode, r, active):
    n = spec['modes'][task][mode].get(r, 0)
    return n if isinstance(n, int) else n[active]


# ------------------------------------------------------------------------------------------------------ real domains
class _Common:
    spec = None

    def __init__(self):
        self.initialize_domain()

    def _get_objectives(self):
        return [OBJ[o] for o in self.spec.get('objectives', ['MAKESPAN'])]

    def _get_max_horizon(self):
        return self.spec['horizon']

    def _get_successors(self):
        return {t: list(s) for t, s in self.spec['succ'].items()}

    def _get_tasks_ids(self):
        return list(self.spec['tasks'])

    def _get_resource_types_names(self):
        return list(self.spec['types'])

    def _mode(self, t, m):
        d = self.spec['modes'][t][m]
        if any(not isinstance(v, int) for v in d.values()):
            return VaryingModeConsumption({r: list(v) for r, v in d.items()})
        return ConstantModeConsumption(dict(d))


class _Multi:
    def _get_tasks_modes(self):
        return {t: {m: self._mode(t, m) for m in ms} for t, ms in self.spec['modes'].items()}


class _Single:
    def _get_tasks_mode(self):
        return {t: self._mode(t, 1) for t in self.spec['modes']}


class _Det:
    def _get_task_duration(self, task, mode=1, progress_from=0.):
        return self.spec['dur'][task][mode]


class _Sto:
    def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
        d = self.spec['dur'][task][mode]
        return DiscreteDistribution([(d, 1.)] if isinstance(d, int) else list(d))


class _Fixed:
    def _get_original_quantity_resource(self, resource, **kw):
        return qty(self.spec, resource, 0)


class _Cal:
    def _get_quantity_resource(self, resource, time, **kw):
        return qty(self.spec, resource, time)


class _Mixed:
    def _get_resource_renewability(self):
        return dict(self.spec['renew'])


class _Costs:
    def _get_mode_costs(self):
        return {t: dict(m) for t, m in self.spec['mode_costs'].items()}

    def _get_resource_cost_per_time_unit(self):
        return dict(self.spec['unit_costs'])


class _Preempt:
    def _get_task_preemptivity(self):
        return dict(self.spec['preempt'])

    def _get_task_resuming_type(self):
        return {t: ResumeType.Resume if p else ResumeType.NA for t, p in self.spec['preempt'].items()}

    def _get_task_paused_non_renewable_resource_returned(self):
        return dict(self.spec['returned'])


class _Cond:
    def _get_all_condition_items(self):
        return None

    def _get_task_on_completion_added_conditions(self):
        return {t: [DiscreteDistribution(list(d)) for d in ds] for t, ds in self.spec['conds'].items()}

    def _get_task_existence_conditions(self):
        return {t: list(c) for t, c in self.spec['exist'].items()}


class _Skills:
    def _get_resource_units_names(self):
        return list(self.spec['units'])

    def _get_resource_type_for_unit(self):
        return {}

    def _get_all_resources_skills(self):
        return {r: dict(s) for r, s in self.spec['rskills'].items()}

    def _get_all_tasks_skills(self):
        return {t: {m: dict(s) for m, s in d.items()} for t, d in self.spec['tskills'].items()}


class _Sim:
    def _sample_task_duration(self, task, mode=1, progress_from=0.):
        from mc import nondet
        d = self.spec['dur'][task][mode]
        return d if isinstance(d, int) else d[nondet.choose(len(d))][0]


class PreemptiveRCPSP(sd.DeterministicSchedulingDomain, sd.DeterministicTaskDuration, sd.DeterministicTaskProgress,
                      sd.WithoutResourceUnit, sd.WithoutPreallocations, sd.WithoutTimeLag, sd.WithoutTimeWindow,
                      sd.WithoutResourceSkills, sd.DeterministicResourceAvailabilityChanges, sd.WithoutConditionalTasks):
    """Preemptive tasks, calendars, several modes, non-renewable resources, varying consumption, costs."""


class PreemptiveStochasticRCPSP(sd.UncertainSchedulingDomain, sd.UncertainUnivariateTaskDuration, sd.DeterministicTaskProgress,
                                sd.WithoutResourceUnit, sd.WithoutPreallocations, sd.WithoutTimeLag, sd.WithoutTimeWindow,
                                sd.WithoutResourceSkills, sd.DeterministicResourceAvailabilityChanges):
    """The same with uncertain durations and conditional tasks."""


class PreemptiveSkillRCPSP(sd.DeterministicSchedulingDomain, sd.DeterministicTaskDuration, sd.DeterministicTaskProgress,
                           sd.WithoutPreallocations, sd.WithoutTimeLag, sd.WithoutTimeWindow,
                           sd.DeterministicResourceAvailabilityChanges, sd.WithoutConditionalTasks,
                           sd.ConstantResourceConsumption, sd.WithoutModeCosts, sd.WithoutResourceCosts):
    """Preemptive tasks on resource units with skills."""


class StochasticSkillRCPSP(sd.UncertainSchedulingDomain, sd.UncertainUnivariateTaskDuration, sd.DeterministicTaskProgress,
                           sd.WithoutPreallocations, sd.WithoutTimeLag, sd.WithoutTimeWindow,
                           sd.DeterministicResourceAvailabilityChanges, sd.ConstantResourceConsumption,
                           sd.WithModeCosts, sd.WithResourceCosts):
    """Preemptive tasks on resource units with skills, uncertain durations, conditional tasks, costs."""


class SimulatedSkillRCPSP(sd.SchedulingDomain, sd.DeterministicTaskProgress,
                          sd.WithoutPreallocations, sd.WithoutTimeLag, sd.WithoutTimeWindow,
                          sd.DeterministicResourceAvailabilityChanges, sd.ConstantResourceConsumption,
                          sd.WithModeCosts, sd.WithResourceCosts):
    """The same with simulated durations."""


KINDS = {
    'SingleModeRCPSP': (sd.SingleModeRCPSP, [_Single, _Det, _Fixed]),
    'SingleModeRCPSPCalendar': (sd.SingleModeRCPSPCalendar, [_Single, _Det, _Cal]),
    'MultiModeRCPSP': (sd.MultiModeRCPSP, [_Multi, _Det, _Fixed, _Mixed]),
    'MultiModeRCPSPWithCost': (sd.MultiModeRCPSPWithCost, [_Multi, _Det, _Fixed, _Mixed, _Costs]),
    'MultiModeRCPSPCalendar': (sd.MultiModeRCPSPCalendar, [_Multi, _Det, _Cal, _Mixed]),
    'PreemptiveRCPSP': (PreemptiveRCPSP, [_Multi, _Det, _Cal, _Mixed, _Preempt, _Costs]),
    'MultiModeRCPSPCalendar_Stochastic_Durations': (sd.MultiModeRCPSPCalendar_Stochastic_Durations, [_Multi, _Sto, _Cal, _Mixed]),
    'MultiModeRCPSP_Stochastic_Durations': (sd.MultiModeRCPSP_Stochastic_Durations, [_Multi, _Sto, _Fixed]),
    'SingleModeRCPSP_Stochastic_Durations': (sd.SingleModeRCPSP_Stochastic_Durations, [_Single, _Sto, _Fixed]),
    'SingleModeRCPSP_Stochastic_Durations_WithConditionalTasks':
        (sd.SingleModeRCPSP_Stochastic_Durations_WithConditionalTasks, [_Single, _Sto, _Fixed, _Cond]),
    'SingleModeRCPSP_Simulated_Stochastic_Durations_WithConditionalTasks':
        (sd.SingleModeRCPSP_Simulated_Stochastic_Durations_WithConditionalTasks, [_Single, _Sim, _Fixed, _Cond]),
    'PreemptiveStochasticRCPSP': (PreemptiveStochasticRCPSP, [_Multi, _Sto, _Cal, _Mixed, _Preempt, _Costs, _Cond]),
    'MultiModeMultiSkillRCPSP': (sd.MultiModeMultiSkillRCPSP, [_Multi, _Det, _Fixed, _Mixed, _Skills]),
    'MultiModeMultiSkillRCPSPCalendar': (sd.MultiModeMultiSkillRCPSPCalendar, [_Multi, _Det, _Cal, _Mixed, _Skills]),
    'StochasticSkillRCPSP': (StochasticSkillRCPSP, [_Multi, _Sto, _Cal, _Mixed, _Preempt, _Skills, _Cond, _Costs]),
    'SimulatedSkillRCPSP': (SimulatedSkillRCPSP, [_Multi, _Sim, _Cal, _Mixed, _Preempt, _Skills, _Cond, _Costs]),
    'PreemptiveSkillRCPSP': (PreemptiveSkillRCPSP, [_Multi, _Det, _Cal, _Mixed, _Preempt, _Skills]),
}
_CLS = {}


def make(kind, spec):
    if kind not in _CLS:
        base, mix = KINDS[kind]
        _CLS[kind] = type('T_' + kind, tuple([_Common] + mix + [base]), {})
    cls = type(_CLS[kind].__name__, (_CLS[kind],), {'spec': full(spec)})
    return cls()


def full(spec):
    s = dict(spec)
    ts = s['tasks']
    s.setdefault('units', [])
    s.setdefault('renew', {})
    s['renew'] = {r: s['renew'].get(r, True) for r in s['res']}
    s.setdefault('preempt', {})
    s['preempt'] = {t: s['preempt'].get(t, False) for t in ts}
    s.setdefault('returned', {})
    s['returned'] = {t: s['returned'].get(t, True) for t in ts}
    s.setdefault('conds', {})
    s.setdefault('exist', {})
    s.setdefault('rskills', {})
    s.setdefault('tskills', {t: {m: {} for m in s['modes'][t]} for t in ts})
    s.setdefault('mode_costs', {t: {m: 0. for m in s['modes'][t]} for t in ts})
    s.setdefault('unit_costs', {r: 0. for r in s['res']})
    s.setdefault('objectives', ['MAKESPAN'])
    preds = {t: set() for t in ts}
    for a, bs in s['succ'].items():
        for b in bs:
            preds[b].add(a)
    s['preds'] = preds
    anc = {}

    def up(t):
        if t not in anc:
            anc[t] = set()
            for p in preds[t]:
                anc[t] |= {p} | up(p)
        return anc[t]
    for t in ts:
        up(t)
    s['anc'] = anc
    return s


# ------------------------------------------------------------------------------------------------------ reference model
# task record: (status, mode, duration, active, start, end, paused, resumed, units, nr) ; nr: ((resource, kept amount), ...)
ABSENT = ('absent', None, None, 0, None, None, (), (), (), ())


class Ref:
    """(date, conditions, task records) and the semantics of actions on it."""

    def __init__(self, spec):
        self.s = spec
        self.ids = list(spec['tasks'])
        self.nr = [r for r in spec['types'] if not spec['renew'][r]]

    def initial(self):
        return (0, frozenset(), tuple(('remaining',) + ABSENT[1:] if not self.s['exist'].get(t) else ABSENT for t in self.ids))

    def rec(self, st, t):
        return st[2][self.ids.index(t)]

    def with_rec(self, st, t, r):
        i = self.ids.index(t)
        return (st[0], st[1], st[2][:i] + (r,) + st[2][i + 1:])

    def by(self, st, status):
        return [t for t, r in zip(self.ids, st[2]) if r[0] == status]

    def need_of(self, t, m, active, units=()):
        out = {r: need(self.s, t, m, r, active) for r in self.s['types']}
        for u in units:
            out[u] = 1
        return out

    def used_for_task(self, st, t):
        r = self.rec(st, t)
        return self.need_of(t, r[1], r[3], r[8])

    def used(self, st):
        out = {r: 0 for r in self.s['res']}
        for t in self.by(st, 'ongoing'):
            for r, n in self.used_for_task(st, t).items():
                if self.s['renew'][r]:
                    out[r] += n
        for rec in st[2]:
            for r, n in rec[9]:
                out[r] += n
        return out

    def avail(self, st):
        return {r: qty(self.s, r, st[0]) for r in self.s['res']}

    def skills_ok(self, t, m, use):
        want = {k: v for k, v in self.s['tskills'][t][m].items() if v > 0}
        got = {k: 0 for k in want}
        for r, n in use.items():
            if n > 0:
                for k, v in self.s['rskills'].get(r, {}).items():
                    if k in got:
                        got[k] += v
        return all(got[k] >= want[k] for k in want)

    def fits(self, st, t, m, units=()):
        r = self.rec(st, t)
        use = self.need_of(t, m, r[3], units)
        u, a = self.used(st), self.avail(st)
        return all(u[k] + n <= a[k] for k, n in use.items()) and self.skills_ok(t, m, use)

    def exists(self, st, t):
        return all(c in st[1] for c in self.s['exist'].get(t, []))

    def preds_done(self, st, t):
        return all(self.rec(st, p)[0] == 'complete' for p in self.s['anc'][t] if self.exists(st, p))

    def overconsuming(self, st):
        u, a = self.used(st), self.avail(st)
        return any(u[k] > a[k] for k in u)

    def actions(self, st):
        """Applicable (kind, task, mode), resource units left aside."""
        out = [('TIME_PR', None, None)]
        out += [('PAUSE', t, None) for t in self.by(st, 'ongoing') if self.s['preempt'][t]]
        if not self.overconsuming(st):
            out += [('START', t, m) for t in self.by(st, 'remaining') for m in self.s['modes'][t]
                    if self.preds_done(st, t) and self.fits_types(st, t, m, 0)]
            out += [('RESUME', t, self.rec(st, t)[1]) for t in self.by(st, 'paused')
                    if self.fits_types(st, t, self.rec(st, t)[1], self.rec(st, t)[3])]
        return out

    def fits_types(self, st, t, m, active):
        u, a = self.used(st), self.avail(st)
        return all(u[k] + n <= a[k] for k, n in self.need_of(t, m, active).items())

    def _conditions(self, st, t):
        """Distribution of the states after the completion of t."""
        dist = [(st, 1.)]
        for d in self.s['conds'].get(t, []):
            dist = [((s[0], s[1] | {c}, s[2]), p * q) for s, p in dist for c, q in d if q > 0]
        return dist

    def _appear(self, st):
        for t in self.ids:
            if self.rec(st, t)[0] == 'absent' and self.exists(st, t):
                st = self.with_rec(st, t, ('remaining',) + ABSENT[1:])
        return st

    def next(self, st, kind, t, m, units=(), time=None):
        """{next state: probability}"""
        time = (kind == 'TIME_PR') if time is None else time
        t0 = st[0]
        dist = [(st, 1.)]
        if kind == 'PAUSE':
            r = list(self.rec(st, t))
            if self.s['returned'][t]:
                last = dict(self.used_for_task(st, t))
                r[9] = tuple((k, n - last[k]) for k, n in r[9])
            r[0], r[6], r[8] = 'paused', r[6] + (t0,), ()
            dist = [(self.with_rec(st, t, tuple(r)), 1.)]
        elif kind == 'RESUME':
            if self.fits(st, t, m, units):
                r = list(self.rec(st, t))
                kept = dict(r[9])
                r[9] = tuple((k, kept[k] + need(self.s, t, m, k, r[3])) for k in self.nr)
                r[0], r[1], r[7], r[8] = 'ongoing', m, r[7] + (t0,), tuple(sorted(units))
                dist = [(self.with_rec(st, t, tuple(r)), 1.)]
        elif kind == 'START':
            if self.fits(st, t, m, units):
                d = self.s['dur'][t][m]
                dist = []
                for dur, p in ([(d, 1.)] if isinstance(d, int) else d):
                    if p == 0:
                        continue
                    nr = tuple((k, need(self.s, t, m, k, 0)) for k in self.nr)
                    rec = ('ongoing', m, dur, 0, t0, None, (), (), tuple(sorted(units)), nr)
                    if dur == 0:
                        rec = ('complete',) + rec[1:5] + (t0,) + rec[6:]
                    nxt = self.with_rec(st, t, rec)
                    dist += [(s, p * q) for s, q in (self._conditions(nxt, t) if dur == 0 else [(nxt, 1.)])]
        if time:
            out = []
            for s, p in dist:
                s = (t0 + 1,) + s[1:]
                br = [(s, p)]
                for k in self.by(s, 'ongoing'):
                    r = list(self.rec(s, k))
                    r[3] += 1
                    if r[3] >= r[2]:
                        r[0], r[5] = 'complete', t0 + 1
                        br = [(s3, p2 * q) for s2, p2 in br for s3, q in self._conditions(self.with_rec(s2, k, tuple(r)), k)]
                    else:
                        br = [(self.with_rec(s2, k, tuple(r)), p2) for s2, p2 in br]
                out += br
            dist = out
        res = {}
        for s, p in dist:
            s = self._appear(s)
            res[s] = res.get(s, 0.) + p
        return res

    def goal(self, st):
        return not (self.by(st, 'remaining') or self.by(st, 'ongoing') or self.by(st, 'paused'))

    def tasks_possible(self, st):
        u, a = self.used(st), self.avail(st)
        return all(any(all(u[r] + need(self.s, t, m, r, 0) <= a[r] for r in self.nr) for m in self.s['modes'][t])
                   for t in self.by(st, 'remaining'))

    def terminal(self, st):
        return self.goal(st) or st[0] > self.s['horizon'] or not self.tasks_possible(st)

    def cost(self, st, act, nxt):
        c = 0.
        if 'MAKESPAN' in self.s['objectives']:
            c += nxt[0] - st[0]
        if 'COST' in self.s['objectives']:
            kind, t, m = act[:3]
            if kind == 'START':
                c += self.s['mode_costs'][t][m]
            u, v = self.used(st), self.used(nxt)
            for r in u:
                c += self.s['unit_costs'][r] * u[r] * (nxt[0] - st[0]) if self.s['renew'][r] else v[r] - u[r]
        return c


def action(kind, t, m, units=None, time=None):
    return SchedulingAction(task=t, action=A[kind], mode=m, time_progress=(kind == 'TIME_PR') if time is None else time,
                            resource_unit_names=set(units) if units is not None else None)


def akey(a):
    return (a.action.name, a.task, a.mode, a.time_progress, tuple(sorted(a.resource_unit_names or ())))


# ------------------------------------------------------------------------------------------------------ comparison
def abstract(ref, s):
    """What the real state says, in comparable form."""
    return {
        't': s.t, 'remaining': set(s.tasks_remaining), 'ongoing': set(s.tasks_ongoing), 'paused': set(s.tasks_paused),
        'complete': set(s.tasks_complete), 'mode': dict(s.tasks_mode), 'avail': dict(s.resource_availability),
        'used': dict(s.resource_used), 'used_for_task': {t: dict(v) for t, v in s.resource_used_for_task.items()},
        'conditions': set(s._current_conditions),
        'details': {t: (d.start, d.end, d.sampled_duration, tuple(d.paused), tuple(d.resumed)) for t, d in s.tasks_details.items()},
    }


def expected(ref, st):
    started = [t for t in ref.ids if ref.rec(st, t)[0] in ('ongoing', 'paused', 'complete')]
    return {
        't': st[0], 'remaining': set(ref.by(st, 'remaining')), 'ongoing': set(ref.by(st, 'ongoing')), 'paused': set(ref.by(st, 'paused')),
        'complete': set(ref.by(st, 'complete')), 'mode': {t: ref.rec(st, t)[1] for t in started}, 'avail': ref.avail(st),
        'used': ref.used(st), 'used_for_task': {t: ref.used_for_task(st, t) for t in ref.by(st, 'ongoing')},
        'conditions': set(st[1]),
        'details': {t: ((r[4], r[5], r[2], r[6], r[7]) if t in started else (None, None, None, (), ()))
                    for t, r in zip(ref.ids, st[2])},
    }


def matches(ref, s, st):
    """None when the real state is the reference state, else what differs."""
    got, want = abstract(ref, s), expected(ref, st)
    for k in want:
        if got[k] != want[k]:
            return '%s is %r, expected %r' % (k, got[k], want[k])
    for t, r in zip(ref.ids, st[2]):
        if r[0] in ('ongoing', 'paused', 'complete'):
            want = 1. if r[0] == 'complete' else r[3] / r[2]
            if abs(s.tasks_progress[t] - want) > 1e-9:
                return 'progress of task %s is %r, expected %r' % (t, s.tasks_progress[t], want)
        elif t in s.tasks_progress and r[0] == 'absent':
            return 'task %s progresses though it is not needed' % t
    return None


def expect_state(ref, s, st, where):
    d = matches(ref, s, st)
    expect(d is None, lambda: '%s: %s' % (where() if callable(where) else where, d))


def match_dist(ref, values, want, where):
    """Distribution of real states against {reference state: probability}."""
    got = {}
    for s, p in values:
        if p == 0:
            continue
        for st in want:
            if matches(ref, s, st) is None:
                got.setdefault(st, [0., s])
                got[st][0] += p
                break
        else:
            near = min(want, key=lambda st: len(str(matches(ref, s, st))))
            expect(False, lambda: '%s: unexpected outcome (%s)' % (where(), matches(ref, s, near)))
    for st, p in want.items():
        expect(st in got and abs(got[st][0] - p) < 1e-9,
               lambda: '%s: an outcome has probability %r, expected %r' % (where(), got.get(st, [0.])[0], p))
    return {st: v[1] for st, v in got.items()}
