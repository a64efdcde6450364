"""C15: the example domains of the hub follow the rules of their games (grid world, maze, Mastermind, rock-paper-scissors)."""
import itertools
from mc.core import expect, expect_eq, THOROUGH
from mc import nondet
from skdecide.hub.domain.simple_grid_world import SimpleGridWorld
from skdecide.hub.domain.simple_grid_world.simple_grid_world import Action as GA, State as GS
from skdecide.hub.domain.maze import Maze
from skdecide.hub.domain.maze.maze import Action as MA, State as MS, DEFAULT_MAZE
from skdecide.hub.domain.mastermind import MasterMind
from skdecide.hub.domain.mastermind.mastermind import State as CS, Score
from skdecide.hub.domain.rock_paper_scissors import RockPaperScissors
from skdecide.hub.domain.rock_paper_scissors.rock_paper_scissors import Move

DELTA = {'up': (0, -1), 'down': (0, 1), 'left': (-1, 0), 'right': (1, 0)}


def explore_grid(rec, d, A, S, start, goal, free, label, depth=3):
    """free(x, y): is the cell free; every reachable cell x action, and all action sequences from a reset up to `depth`."""
    def ref(c, a):
        n = (c[0] + DELTA[a][0], c[1] + DELTA[a][1])
        return n if free(*n) else c
    acts = list(A)
    expect_eq(sorted(a.name for a in acts), sorted(DELTA), label + ': actions')
    s0 = d.get_initial_state()
    expect_eq(tuple(s0), start, label + ': initial state')
    expect_eq(sorted(tuple(g) for g in d.get_goals().get_elements()), [goal], label + ': goals')
    seen, todo = {start}, [start]
    while todo:
        c = todo.pop()
        s = S(*c)
        rec.state()
        at = '%s: in %s' % (label, c)
        expect(d.get_observation_space().contains(s), at + ': not in the observation space')
        expect_eq(bool(d.is_goal(s)), c == goal, at + ': is_goal')
        expect_eq(bool(d.is_terminal(s)), c == goal, at + ': is_terminal')
        expect_eq([a.name for a in d.get_applicable_actions(s).get_elements()], [a.name for a in acts], at + ': applicable actions')
        expect_eq([a.name for a in d.get_action_space().get_elements()], [a.name for a in acts], at + ': action space')
        for a in acts:
            rec.trans()
            n = d.get_next_state(s, a)
            w = ref(c, a.name)
            expect_eq(tuple(n), w, at + ': ' + a.name)
            v = d.get_transition_value(s, a, n)
            cost = 2 if w == c else 1
            expect((v.cost, v.reward) == (cost, -cost), '%s: value of %s: %r, expected cost %r' % (at, a.name, v, cost))
            if w not in seen:
                seen.add(w)
                todo.append(w)
    for seq in itertools.product(acts, repeat=depth):
        rec.trace()
        o = d.reset()
        expect_eq(tuple(o), start, label + ': reset')
        c = start
        for a in seq:
            out = d.step(a)
            p, c = c, ref(c, a.name)
            at = '%s: reset, then %s' % (label, [x.name for x in seq])
            expect_eq(tuple(out.observation), c, at + ': observation')
            expect_eq(out.value.cost, 2 if c == p else 1, at + ': cost')
            expect_eq(bool(out.termination), c == goal, at + ': termination')
            if out.termination:
                break
    return seen


def grids(rec, c):
    w, h = c
    d = SimpleGridWorld(w, h)
    seen = explore_grid(rec, d, GA, GS, (0, 0), (w - 1, h - 1), lambda x, y: 0 <= x < w and 0 <= y < h, 'grid %dx%d' % c, 4 if w * h < 10 else 2)
    expect_eq(len(seen), w * h, 'grid %dx%d: reachable cells' % c)
    space = d.get_observation_space()
    for x in range(-1, w + 2):
        for y in range(-1, h + 2):
            expect_eq(bool(space.contains(GS(x, y))), 0 <= x < w and 0 <= y < h, 'grid %dx%d: observation space contains %s' % (w, h, (x, y)))


def default_grid(rec, c):
    d = SimpleGridWorld()
    explore_grid(rec, d, GA, GS, (0, 0), (9, 9), lambda x, y: 0 <= x < 10 and 0 <= y < 10, 'default grid', 2)


def maze_text(cells, w, h, start, goal, style):
    """walls around w x h inner cells; start / goal given in maze coordinates (possibly holes in the surrounding wall)"""
    rows = [[' ' if 0 < x <= w and 0 < y <= h and cells[(y - 1) * w + x - 1] else '+-|'[(x + y) % 3] for x in range(w + 2)] for y in range(h + 2)]
    rows[start[1]][start[0]] = 'o'
    rows[goal[1]][goal[0]] = 'x'
    rows = [''.join(r) for r in rows]
    return {'lead': '\n' + '\n'.join(rows) + '\n', 'plain': '\n'.join(rows), 'trail': '\n'.join(r + '  ' for r in rows)}[style], rows


def mazes(rec, c):
    w, h, start, goal, style, fixed = c
    for bits in itertools.product((0, 1), repeat=w * h - len(fixed)):
        cells = list(fixed) + list(bits)
        txt, rows = maze_text(cells, w, h, start, goal, style)
        d = Maze(txt)

        def free(x, y):
            return 0 <= y < len(rows) and 0 <= x < len(rows[0]) and rows[y][x] in ' ox'
        explore_grid(rec, d, MA, MS, start, goal, free, 'maze %r' % txt, 2 if not THOROUGH else 3)


def open_mazes(rec, c):
    """no surrounding wall: cells on the borders of the text are free too (the last one of a row when it is the start or the goal)"""
    w, h, start, goal = c
    cells = [(x, y) for y in range(h) for x in range(w) if (x, y) not in (start, goal)]
    free_cells = [(x, y) for x, y in cells if x < w - 1 and (x, y) != (0, 0)]
    for bits in itertools.product((0, 1), repeat=len(free_cells)):
        rows = [['#'] * w for _ in range(h)]
        for (x, y), b in zip(free_cells, bits):
            rows[y][x] = ' ' if b else '#'
        rows[start[1]][start[0]], rows[goal[1]][goal[0]] = 'o', 'x'
        rows = [''.join(r) for r in rows]
        txt = '\n'.join(rows)
        explore_grid(rec, Maze(txt), MA, MS, start, goal, lambda x, y: 0 <= y < h and 0 <= x < w and rows[y][x] in ' ox', 'maze %r' % txt, 2)


def default_maze(rec, c):
    rows = DEFAULT_MAZE.strip().split('\n')
    pos = {ch: (x, y) for y, r in enumerate(rows) for x, ch in enumerate(r) if ch in 'ox'}
    seen = explore_grid(rec, Maze(), MA, MS, pos['o'], pos['x'], lambda x, y: 0 <= y < len(rows) and 0 <= x < len(rows[0]) and rows[y][x] in ' ox',
                        'default maze', 4)
    expect(pos['x'] in seen, 'default maze: the goal cannot be reached')


def ref_score(sol, guess):
    bulls = sum(a == b for a, b in zip(sol, guess))
    return bulls, sum(min(sol.count(k), guess.count(k)) for k in set(guess)) - bulls


def mastermind(rec, c):
    k, n = c
    d = MasterMind(k, n)
    codes = list(itertools.product(range(k), repeat=n))
    lab = 'mastermind(%d colours, %d positions)' % c
    expect_eq(sorted(d.get_action_space().get_elements()), codes, lab + ': guesses')
    dist = d.get_initial_state_distribution().get_values()
    expect_eq(sorted(tuple(s.solution) for s, p in dist), codes, lab + ': hidden codes')
    for s, p in dist:
        expect(abs(p - 1 / len(codes)) < 1e-12 and tuple(s.score) == (0, 0), lab + ': initial state %r with probability %r' % (s, p))
    expect_eq([tuple(g) for g in d.get_goals().get_elements()], [(n, 0)], lab + ': goals')
    expect(not d.is_transition_value_dependent_on_next_state(), lab + ': values do not depend on the next state')
    space = d.get_observation_space()
    inits = [s for s, p in dist]
    for s in inits:
        rec.state()
        o = d.get_observation_distribution(s, None).get_values()
        expect(len(o) == 1 and tuple(o[0][0]) == (0, 0) and o[0][1] == 1, lab + ': initial observation %r' % (o,))
        expect(space.contains(o[0][0]), lab + ': initial observation out of the observation space')
        prevs = [s]
        for g in codes:
            rec.trans()
            w = ref_score(s.solution, g)
            at = '%s: code %r guess %r' % (lab, s.solution, g)
            for p in prevs:
                nx = d.get_next_state(p, g)
                expect_eq(tuple(nx.solution), tuple(s.solution), at + ': hidden code after the guess')
                expect_eq(tuple(nx.score), w, at + ': score after %r' % (p.score,))
                expect_eq(d.get_transition_value(p, g, nx).cost, 1, at + ': cost')
            prevs = [s, nx]
            o = d.get_observation_distribution(nx, g).get_values()
            expect(len(o) == 1 and tuple(o[0][0]) == w and o[0][1] == 1, at + ': observation %r instead of %r' % (o, w))
            expect(space.contains(o[0][0]), at + ': observation %r out of the observation space' % (o[0][0],))
            expect_eq(bool(d.is_terminal(nx)), w == (n, 0), at + ': is_terminal')
            expect_eq(bool(d.is_goal(o[0][0])), w == (n, 0), at + ': is_goal')
            expect_eq((w == (n, 0)), tuple(s.solution) == g, at + ': reference')
            expect(sorted(d.get_applicable_actions(nx).get_elements()) == codes, at + ': applicable guesses')


def mastermind_play(rec, c):
    """all games of up to 3 guesses, over all random initial codes"""
    k, n, guesses = c
    d = MasterMind(k, n)

    def play():
        o = d.reset()
        hist = [tuple(o)]
        for g in guesses:
            out = d.step(g)
            hist.append((tuple(out.observation), out.value.cost, bool(out.termination)))
            if out.termination:
                break
        return tuple(hist)
    got = {}
    for (kind, r), tr, p in nondet.explore(play):
        rec.trace()
        expect(kind == 'ok', lambda: 'mastermind%r: %r' % (c, r))
        got[r] = got.get(r, 0) + p
    want = {}
    for sol in itertools.product(range(k), repeat=n):
        hist = [(0, 0)]
        for g in guesses:
            w = ref_score(sol, g)
            hist.append((w, 1, w == (n, 0)))
            if hist[-1][2]:
                break
        want[tuple(hist)] = want.get(tuple(hist), 0) + 1 / k ** n
    expect(got.keys() == want.keys() and all(abs(got[x] - want[x]) < 1e-9 for x in want), lambda: 'mastermind%r: games %r, expected %r' % (c, got, want))


BEATS = {('rock', 'scissors'), ('scissors', 'paper'), ('paper', 'rock')}


def rps(rec, c):
    mm, first = c
    d = RockPaperScissors(mm) if mm is not None else RockPaperScissors()
    lim = 10 if mm is None else mm
    d.reset()
    n = 2 if mm is None else min(lim, 3)
    joint = list(itertools.product(Move, repeat=2))
    for sp in (d.get_action_space(), d.get_observation_space(), d.get_applicable_actions()):
        expect(set(sp) == {'player1', 'player2'}, 'rock-paper-scissors: players of a space: %r' % (sp,))
        for p in sp:
            expect_eq(sorted(m.name for m in sp[p].get_elements()), ['paper', 'rock', 'scissors'], 'rock-paper-scissors: space of ' + p)
    expect_eq([m.name for m in Move], ['rock', 'paper', 'scissors'], 'moves')
    for seq in itertools.product(joint, repeat=n - 1):
        seq = (first,) + seq + (joint[0],) * (lim - n if mm is None or lim > n else 0)
        for again in (0, 1):
            o = d.reset()
            expect_eq(dict(o), {'player1': Move.rock, 'player2': Move.rock}, 'rock-paper-scissors: initial observation')
            for i, (a, b) in enumerate(seq):
                rec.trans()
                out = d.step({'player1': a, 'player2': b})
                at = 'rock-paper-scissors(%r) after %s' % (mm, [(x.name, y.name) for x, y in seq[:i + 1]])
                expect_eq(dict(out.observation), {'player1': b, 'player2': a}, at + ': observation')
                r = 1 if (a.name, b.name) in BEATS else -1 if (b.name, a.name) in BEATS else 0
                expect_eq({p: v.reward for p, v in out.value.items()}, {'player1': r, 'player2': -r}, at + ': rewards')
                t = out.termination
                expect_eq(bool(all(t.values())) if isinstance(t, dict) else bool(t), i + 1 >= lim, at + ': termination')
        rec.trace()


def build(ck):
    ck.rule = ('all reachable cells x actions and all short action sequences of every grid and maze; all hidden codes x guesses of Mastermind and the exact distribution of its '
               'games; all sequences of joint moves of rock-paper-scissors; against the rules of the games')
    m = 6 if not THOROUGH else 9
    ck.scope = 'grids up to %dx%d; all mazes of 3x3 and 4x2 inner cells with 4 placements of start and goal; up to 4 colours/4 positions; up to 3 rounds' % (m, m)
    ck.run([(w, h) for w in range(1, m) for h in range(1, m)], grids, 'grid worlds')
    ck.run([0], default_grid, 'default grid world')
    cs = []
    for w, h in ((3, 3), (4, 2)):
        for start, goal in (((1, 1), (w, h)), ((w, 1), (1, h)), ((2, 0), (w, h + 1)), ((0, 1), (w + 1, h))):
            for style in ('lead', 'plain', 'trail'):
                if style != 'lead' and (w, h) != (3, 3):
                    continue
                for fixed in itertools.product((0, 1), repeat=3):
                    cs.append((w, h, start, goal, style, fixed))
    ck.run(cs, mazes, 'mazes', chunk=2)
    ck.run([(w, h, a, b) for w, h in ((3, 3), (4, 2), (2, 4), (5, 1), (1, 4)) for a, b in itertools.permutations([(x, y) for x in range(w) for y in range(h)], 2)],
           open_mazes, 'mazes without surrounding walls', chunk=4)
    ck.run([0], default_maze, 'default maze')
    ck.run([(k, n) for k in (1, 2, 3, 4) for n in (1, 2, 3, 4) if k ** n <= (256 if not THOROUGH else 1024)] + [(2, 5), (2, 6), (3, 5)], mastermind, 'mastermind rules', chunk=1)
    ck.run([(k, n, g) for k, n in ((2, 2), (3, 2), (2, 3)) for L in (1, 2) for g in itertools.product(itertools.product(range(k), repeat=n), repeat=L)],
           mastermind_play, 'mastermind games')
    ck.run([(mm, f) for mm in (1, 2, 3, 4, None) for f in itertools.product(Move, repeat=2)], rps, 'rock-paper-scissors', chunk=1)
    ck.sample({'maze': maze_text([1] * 9, 3, 3, (1, 1), (3, 3), 'plain')[0]})
