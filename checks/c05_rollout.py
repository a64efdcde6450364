"""C05: rollouts.

Every combination of rollout parameters on scripted domains and solvers: the complete interaction protocol (which calls
with which arguments, in which order, how many episodes and steps) is compared with a reference interpreter."""
from __future__ import annotations

import glob
import itertools
import json
import logging
import os
import shutil
import tempfile

from mc import nondet
from mc.core import expect, expect_eq, THOROUGH, REPO

from skdecide.core import *
from skdecide.core import SamplableSpace
from skdecide.builders.domain import *
from skdecide.builders.solver import *
from skdecide.domains import Domain
from skdecide.solvers import Solver
from skdecide import utils
from skdecide.utils import rollout, rollout_episode

logging.getLogger('skdecide.utils').handlers = [logging.NullHandler()]

MEM = {'markov': Markovian, 'hist': History, 'fin2': FiniteHistory}


def nxt(last, tot, term_at):
    """Dynamics: upwards until term_at, or round and round (modulo -term_at, never terminal)."""
    return last + 1 + tot if term_at > 0 else (last + 1 + tot) % -term_at


def over(s, term_at):
    return 0 < term_at <= s


class Sp(SamplableSpace, EnumerableSpace):
    def __init__(self, e):
        self.e = e

    def get_elements(self):
        return self.e

    def sample(self):
        import random
        return random.choice(self.e)


def mk(cfg, log):
    mem, multi, par, goal, rend, full, term_at = cfg
    bases = [Domain, MultiAgent if multi else SingleAgent, Parallel if par else Sequential, Simulation, Actions,
             Initializable, MEM[mem], FullyObservable if full else PartiallyObservable, Rewards]
    if goal:
        bases.append(Goals)
    if rend:
        bases.append(Renderable)

    def one(a):
        if multi:
            a = sum(one_c(x) for x in a.values())
        else:
            a = one_c(a)
        return a

    def one_c(a):
        return sum(a) if par else a

    def ss(self, memory, action):
        last = memory if mem == 'markov' else memory[-1]
        log.append(('dyn', tuple(memory) if mem != 'markov' else memory, repr(action)))
        s = nxt(last, one(action), term_at)
        return TransitionOutcome(s, self._val(s), over(s, term_at), None)

    def val(self, s):
        v = TransitionValue(cost=s * 2)
        return {'a1': v, 'a2': v} if multi else v
    ns = {'_state_sample': ss, '_val': val, '_state_reset': lambda self: (log.append(('reset',)), 0)[1],
          '_get_memory_maxlen_': lambda self: 1 if mem == 'markov' else 2}
    wrap = (lambda o: {'a1': o, 'a2': o}) if multi else (lambda o: o)
    if not full:
        ns['_get_observation_distribution'] = lambda self, s, a=None: (
            log.append(('obs', s, repr(a))), SingleValueDistribution(wrap(('o', s, repr(a)))))[1]
    ns['_get_applicable_actions_from'] = lambda self, m: {'a1': Sp([0, 1]), 'a2': Sp([1])} if multi else Sp([0, 1])
    ns['_get_goals_'] = lambda self: (lambda g: {'a1': g, 'a2': g} if multi else g)(
        ImplicitSpace(lambda o: (log.append(('isgoal', repr(o))), True)[1]))
    ns['_render_from'] = lambda self, memory, **kw: log.append(('render', tuple(memory) if mem != 'markov' else memory))
    return type('D', tuple(bases), ns)


def model(cfg, script, n_ep, max_steps, frm, frm_action, render):
    """Reference interaction protocol."""
    mem, multi, par, goal, rend, full, term_at = cfg
    log, it = [], iter(script)
    w = (lambda o: {'a1': o, 'a2': o}) if multi else (lambda o: o)
    for _ in range(n_ep):
        log.append(('sreset',))
        if frm is None:
            log.append(('reset',))
            m, last, act0 = [0], 0, None
        else:
            m = list(frm)
            last, act0 = m[-1], frm_action
        if mem == 'fin2':
            m = m[-2:]

        def obs(s, a):
            if not full:
                log.append(('obs', s, repr(a)))
                return w(('o', s, repr(a)))
            return s
        o = obs(last, act0)
        k = 0
        while max_steps is None or k < max_steps:
            if rend and render:
                log.append(('render', tuple(m) if mem != 'markov' else m[-1]))
            x = next(it)
            a = act(x, multi, par)
            log.append(('act', repr(o), repr(a)))
            log.append(('dyn', tuple(m) if mem != 'markov' else m[-1], repr(a)))
            s = nxt(m[-1], total(a, multi, par), term_at)
            o = obs(s, a)
            m.append(s)
            if mem == 'fin2':
                m = m[-2:]
            k += 1
            if over(s, term_at):
                break
        if rend and render:
            log.append(('render', tuple(m) if mem != 'markov' else m[-1]))
    return log


def last_episode(cfg, script, n_ep, max_steps, frm, frm_action):
    mem, multi, par, goal, rend, full, term_at = cfg
    w = (lambda o: {'a1': o, 'a2': o}) if multi else (lambda o: o)
    obs = (lambda s, a: s) if full else (lambda s, a: w(('o', s, repr(a))))
    it = iter(script)
    O, A, V = [], [], []
    for _ in range(n_ep):
        s = 0 if frm is None else frm[-1]
        O, A, V = [obs(s, None if frm is None else frm_action)], [], []
        while max_steps is None or len(A) < max_steps:
            a = act(next(it), multi, par)
            s = nxt(s, total(a, multi, par), term_at)
            O.append(obs(s, a)), A.append(a), V.append(w(TransitionValue(cost=2 * s)))
            if over(s, term_at):
                break
    return O, A, V


def act(x, multi, par):
    y = [x] if par else x
    return {'a1': y, 'a2': [0] if par else 0} if multi else y


def total(a, multi, par):
    f = (lambda v: sum(v)) if par else (lambda v: v)
    return sum(f(v) for v in a.values()) if multi else f(a)


def norm(log):
    """Two projections of the interaction (drawing / playing) and the number of solver resets before each action."""
    n, acts = 0, []
    for x in log:
        if x[0] == 'sreset':
            n += 1
        elif x[0] == 'act':
            acts.append(n)
    return ([x for x in log if x[0] in ('render', 'dyn', 'reset')], [x for x in log if x[0] in ('obs', 'act', 'dyn', 'reset')],
            acts, n)


def goal_case(rec, c):
    """The report says for each episode whether it ended in a goal."""
    goals, steps, n_ep, multi, run = c
    cfg = ('markov', multi, False, True, False, not multi, 99)
    D = mk(cfg, [])
    msgs = []

    class H(logging.Handler):
        def emit(self, record):
            msgs.append(record.getMessage())

    class D2(D):
        def _get_goals_(self):
            f = lambda o: (o[1] if multi else o) in goals
            return {'a1': ImplicitSpace(f), 'a2': ImplicitSpace(f)} if multi else ImplicitSpace(f)

    class S(Solver, Policies):
        T_domain = D

        def _sample_action(self, o):
            return act(0, multi, False)
    lg = logging.getLogger('skdecide.utils')
    lvl, hs, pr = lg.level, lg.handlers, lg.propagate
    logging.disable(logging.NOTSET)
    try:
        lg.setLevel(logging.INFO)
        lg.handlers, lg.propagate = [H()], False
        run(D2(), S(), num_episodes=n_ep, max_steps=steps, verbose=run is rollout_episode, action_formatter=None, outcome_formatter=None)
    finally:
        logging.disable(logging.CRITICAL)
        lg.handlers, lg.propagate = hs, pr
        lg.setLevel(lvl)
    rep = [m for m in msgs if 'goal' in m.lower()]
    expect_eq(len(rep), n_ep, 'one goal report per episode')
    for m in rep:
        expect(('not' in m.lower()) is (steps not in goals), 'after reaching state %d with goals %r the report is %r' % (steps, goals, m))
    rec.state(c), rec.trans(steps), rec.trace()


def case(rec, c):
    run, cfg = c
    mem, multi, par, goal, rend, full, term_at = cfg
    if full and multi:
        return
    frms = [None, (0,), (2,)] + ([(0, 2), (1, 2)] if mem != 'markov' else [])
    for n_ep, max_steps, frm, render, verbose in itertools.product((0, 1, 2), (0, 1, 2, 3, None) if term_at > 0 else (3, 5), frms, (True, False), (True, False)):
        scripts = list(itertools.product((0, 1), repeat=2)) if n_ep == 1 and max_steps != 0 else [(0, 1), (1, 0)]
        for sc in scripts:
            for fa in ((None, act(1, multi, par)) if frm is not None else (None,)):
                fmts = [(None, None)] if not verbose else [(None, None), ('a', 'o')]
                for fm in fmts:
                    log = []
                    D = mk(cfg, log)
                    script = list(itertools.islice(itertools.cycle(sc), 40))
                    it = iter(script)

                    class S(Solver, Policies):
                        T_domain = D

                        def _reset(self):
                            log.append(('sreset',))

                        def _sample_action(self, o):
                            a = act(next(it), multi, par)
                            log.append(('act', repr(o), repr(a)))
                            return a

                        def _is_policy_defined_for(self, o):
                            return True
                    d = D()
                    m0 = None if frm is None else frm[0] if mem == 'markov' else Memory(frm, maxlen=2 if mem == 'fin2' else None)
                    kw = {}
                    fl = []
                    if fm[0]:
                        kw = dict(action_formatter=lambda a: fl.append(('a', repr(a))) or 'A', outcome_formatter=lambda o: fl.append(('o', o)) or 'O')
                    else:
                        kw = dict(action_formatter=None, outcome_formatter=None)
                    r = run(d, S(), from_memory=m0, from_action=fa, num_episodes=n_ep, max_steps=max_steps,
                            render=render, verbose=verbose, **kw)
                    if run is rollout_episode:
                        expect_eq(tuple(map(list, r)), last_episode(cfg, script, n_ep, max_steps, None if frm is None else frm if mem != 'markov' else frm[:1], fa),
                                  lambda: 'rollout_episode(num_episodes=%r, max_steps=%r, from_memory=%r, from_action=%r) of %r with actions %r' % (
                                      n_ep, max_steps, m0, fa, cfg, sc))
                    want = model(cfg, script, n_ep, max_steps, None if frm is None else frm if mem != 'markov' else frm[:1], fa, render)
                    got = [x for x in log if x[0] != 'isgoal']
                    goals = [x for x in log if x[0] == 'isgoal']
                    got, want = norm(got), norm(want)
                    expect(got == want, lambda: '%s(num_episodes=%r, max_steps=%r, from_memory=%r, from_action=%r, render=%r) on %r with actions %r: interaction %r, expected %r' % (
                        run.__name__, n_ep, max_steps, m0, fa, render, cfg, sc, got, want))
                    if mem != 'markov' and m0 is not None:
                        expect_eq(tuple(m0), frm, 'the starting memory given to rollout was modified')
                    rec.trans(len(got))
                    rec.trace()
                    rec.state((cfg, n_ep, max_steps, frm, render, sc, repr(fa), verbose, fm))
                    rec.outcome(len(got))


def ep_case(rec, c):
    """rollout_episode: the returned observations, actions and values are those of one episode."""
    goal, rend, term_at, par = c
    cfg = ('markov', False, par, goal, rend, True, term_at)
    for max_steps, frm, render, sc in itertools.product((0, 1, 2, 3, None), (None, 0, 1, 2), (True, False),
                                                        itertools.product((0, 1), repeat=3)):
        log = []
        D = mk(cfg, log)
        it = itertools.cycle(sc)

        class S(Solver, Policies):
            T_domain = D

            def _sample_action(self, o):
                a = act(next(it), False, par)
                log.append(('act', o, a))
                return a
        obs, acs, vals = rollout_episode(D(), S(), from_memory=frm, max_steps=max_steps, render=render, verbose=False)
        s, wo, wa, wv = frm or 0, [frm or 0], [], []
        it2 = itertools.cycle(sc)
        while max_steps is None or len(wa) < max_steps:
            x = next(it2)
            s = s + 1 + x
            wo.append(s), wa.append([x] if par else x), wv.append(TransitionValue(cost=2 * s))
            if s >= term_at:
                break
        expect_eq((list(obs), list(acs), list(vals)), (wo, wa, wv), 'rollout_episode(max_steps=%r, from_memory=%r)' % (max_steps, frm))
        expect_eq([x for x in log if x[0] == 'reset'], [('reset',)] if frm is None else [], 'reset')
        expect_eq([x[1] for x in log if x[0] == 'act'], wo[:-1] if wa else [], 'observations given to the solver')
        rec.trans(len(wa)), rec.trace(), rec.state((c, max_steps, frm, render, sc))


def random_case(rec, c):
    """Without a solver, the walk draws applicable actions, each applicable joint action being possible."""
    multi, par, fn, mem = c
    cfg = (mem, multi, par, False, False, not multi, 99)
    seen = set()
    for (k, res), tr, p in nondet.explore(lambda: _rand(cfg, fn)):
        if k == 'exc':
            raise res
        for a in res:
            seen.add(a)
        rec.trans(len(res)), rec.trace()
    want = {repr({'a1': [x], 'a2': [1]} if par else {'a1': x, 'a2': 1}) if multi else repr([x] if par else x) for x in (0, 1)}
    expect_eq(seen, want, 'actions of the random walk on multi=%r parallel=%r' % (multi, par))
    rec.state(c)


def _rand(cfg, fn):
    log = []
    d = mk(cfg, log)()
    if fn == 'rollout':
        rollout(d, num_episodes=1, max_steps=2, verbose=False, action_formatter=None, outcome_formatter=None)
    else:
        rollout_episode(d, max_steps=2, verbose=False)
    return tuple(x[2] for x in log if x[0] == 'dyn')


def save_case(rec, c):
    """Saved rollouts: the returned directory holds the observations, actions and transitions of the episode."""
    sc, n_ep, max_steps, exists = c
    cfg = ('markov', False, False, False, False, True, 4)
    tmp = tempfile.mkdtemp(prefix='mc_c05_')
    try:
        target = os.path.join(tmp, 'res')
        if exists:
            os.mkdir(target)
        for again in range(2):
            log = []
            D = mk(cfg, log)
            it = itertools.cycle(sc)

            class S(Solver, Policies):
                T_domain = D

                def _sample_action(self, o):
                    return next(it)
            before = set(os.listdir(target)) if os.path.isdir(target) else set()
            r = rollout(D(), S(), num_episodes=n_ep, max_steps=max_steps, verbose=False, save_result_directory=target,
                        action_formatter=None, outcome_formatter=None)
            new = sorted(set(os.listdir(target)) - before)
            expect_eq(len([x for x in log if x[0] == 'reset']), n_ep, 'number of episodes of a saved rollout')
            expect_eq(len(new), n_ep, 'one new directory per saved episode')
            expect(os.path.basename(r) in new and os.path.isdir(r), 'returned directory %r is not one of the new ones' % (r,))
            eps = []
            it2 = itertools.cycle(sc)
            for _ in range(n_ep):
                s, o, a, t = 0, {'0': 0}, {}, {}
                k = 0
                while max_steps is None or k < max_steps:
                    k += 1
                    x = next(it2)
                    t[str(k)] = {'s': hash(s), 'a': hash(x), 'cost': 2 * (s + 1 + x), "s'": hash(s + 1 + x)}
                    s = s + 1 + x
                    o[str(k)], a[str(k)] = s, x
                    if s >= 4:
                        break
                eps.append((o, a, t))
            got = []
            for dname in new:
                ld = lambda n: json.load(open(os.path.join(target, dname, n)))
                got.append((ld('observations.json'), ld('actions.json'), ld('transitions.json')))
            expect_eq(sorted(map(repr, got)), sorted(map(repr, eps)), 'saved episodes')
            rec.trans(n_ep), rec.trace()
    finally:
        for d in glob.glob(os.path.join(tmp, '*')):
            shutil.rmtree(d)
        os.rmdir(tmp)
    rec.state(c)


def build(ck):
    ck.rule = 'all combinations of rollout parameters x domain characteristics x action scripts; call-by-call protocol check'
    ck.scope = '<= 2 episodes, <= 3 steps or until termination, memories of 1-2 or unbounded states, 2 agents'
    cfgs = list(itertools.product(MEM, (False, True), (False, True), (False, True), (False, True), (False, True), (3, 4)))
    cfgs += itertools.product(MEM, (False, True), (False, True), (False,), (False,), (False, True), (-2, -3))
    ck.run([(rollout, c) for c in cfgs], case, 'rollout protocol', chunk=1)
    ck.run([(rollout_episode, c) for c in cfgs], case, 'rollout_episode protocol', chunk=1)
    ck.run(itertools.product((False, True), (False, True), (2, 4), (False, True)), ep_case, 'rollout_episode')
    ck.run([(m, p, f, mem) for m in (False, True) for p in (False, True) for f in ('rollout', 'episode') for mem in MEM], random_case, 'random walk')
    ck.run([(sc, n, ms, e) for sc in itertools.product((0, 1), repeat=2) for n in (1, 2) for ms in (0, 2, None) for e in (False, True)],
           save_case, 'saved rollouts')
    ck.run(itertools.product([(), (1,), (2,), (1, 2), (0,)], (0, 1, 2), (1, 2), (False, True), (rollout, rollout_episode)), goal_case, 'goal report')
    ck.sample({'cfg': 'fin2,single,seq', 'num_episodes': 2, 'max_steps': 3, 'from_memory': (0, 2)})
