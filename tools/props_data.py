DEF_WHY = 'The test suite (96 stable tests) only exercises automatic casting on one sample value per signature; '
prop('C01', 'Automatic casting between abstraction levels preserves meaning',
     'When a domain and a solver sit at different levels of agents (single/multi), concurrency (sequential/parallel) or memory '
     '(none/one state/finite/history), every method of either side called through the other receives and returns values of the '
     'declared level, and each state, event, observation or value inside them is unchanged, in the same order and for the same agent. '
     'Casting is the identity when the levels agree, leaves the caller\'s own arguments unmodified, and casting up then down gives back the original value.',
     ['inputs', 'configurations'], 'every ordered pair of the 16 level combinations, every public signature, container shape and call style',
     DEF_WHY + 'the levels x signatures x values x call styles product is not covered, nor identity, aliasing, nesting or defaults.',
     ['skdecide/core.py', 'skdecide/domains.py', 'skdecide/solvers.py'],
     [('autocast of hints along cast maps', 'skdecide/core.py:autocast'), ('autocast_all on domains and solvers', 'skdecide/core.py:autocast_all'),
      ('domain factory / solver casting', 'skdecide/domains.py:Domain.solve_with, skdecide/solvers.py:Solver.solve')],
     'exhaustive enumeration of level pairs x signatures x values against a reference conversion model',
     'All 256 level pairs, all public signatures, several value shapes and call styles run on the real code and compared step by step with '
     'a reference conversion. Trusts the reference tree-conversion (independent of the hint parser). Bounded: <=3 agents, events, states.')
prop('C02', 'Core values, distributions, spaces, memories and constraints mean what they say',
     'Transition values keep reward and cost exact opposites however they are built; outcomes, distributions (uniform, discrete with any non-negative '
     'weights, single value), enumerable spaces, memories and constraints report exactly what they were built from. Sampling returns each element with '
     'the probability its weights declare and never one of zero weight; bound constraints hold exactly when the stated inequality holds.',
     ['inputs', 'schedules'], 'all combinations of small values and weights; every outcome of every random draw',
     'No test touches these classes; the exact sampling probabilities need every random outcome.',
     ['skdecide/core.py', 'skdecide/builders/domain/constraints.py'],
     [('value algebra', 'skdecide/core.py:Value'), ('distributions', 'skdecide/core.py:DiscreteDistribution'), ('spaces', 'skdecide/core.py:EnumerableSpace')],
     'exhaustive enumeration of inputs and of all random outcomes (owned randomness)',
     'Every random draw is a choice point whose outcomes are all enumerated with their probability, so sampling frequencies are exact, not estimated.')
prop('C03', 'Stepping, resetting and sampling a domain follow its declared dynamics',
     'For every sequence of reset, step, sample and memory operations, the outcomes a domain delivers (observation, value, termination, memory kept) are exactly those of its declared '
     'initial-state, next-state and observation distributions, with the declared probabilities, whichever of those is defined at a more specific level (deterministic, enumerable, sampled). '
     'Stepping advances the internal memory by the new state and keeps the declared number of last states; sampling with an explicit memory leaves the domain untouched. '
     'Constant characteristics are computed once and stay constant; unrestricted actions/events apply everywhere.',
     ['histories', 'configurations', 'schedules'], 'all operation sequences up to a depth x all characteristic combinations x all random outcomes',
     'Tests never step a domain through a history; the property quantifies over operation sequences and random outcomes.',
     ['skdecide/builders/domain/dynamics.py', 'skdecide/builders/domain/memory.py', 'skdecide/builders/domain/events.py', 'skdecide/builders/domain/observability.py',
      'skdecide/builders/domain/initialization.py', 'skdecide/builders/domain/goals.py', 'skdecide/builders/domain/value.py'],
     [('step / sample', 'skdecide/builders/domain/dynamics.py'), ('memory', 'skdecide/builders/domain/memory.py')],
     'bounded exhaustive operation-sequence exploration of the real domain in lockstep with a reference model',
     'All histories up to the depth on every characteristic combination, with every random outcome enumerated; the trace distribution must equal the reference distribution.')
prop('C04', 'Solver/domain matching accepts exactly the compatible pairs',
     'A solver accepts a domain exactly when the domain is at least as specific as the solver\'s domain in every characteristic (and passes the solver\'s additional check); '
     'required characteristics are reported once each; listing the solvers matching a domain keeps exactly the accepted candidates in order. '
     'Entering and leaving a solver or domain context initialises and releases it exactly once, also when the body raises.',
     ['configurations'], 'all pairs (solver domain, domain) within a Hamming distance over the hierarchy of characteristics',
     'No test compares matching with the hierarchy; it must hold for every combination of characteristics.',
     ['skdecide/solvers.py', 'skdecide/domains.py', 'skdecide/utils.py'],
     [('check_domain', 'skdecide/solvers.py:Solver.check_domain'), ('match_solvers', 'skdecide/utils.py:match_solvers')],
     'exhaustive enumeration of characteristic combinations against a reference partial order',
     'All solver/domain pairs within the stated distance. The order between characteristics is written by hand in the check.')
prop('C05', 'Rollouts play and report exactly the interaction they were asked for',
     'A rollout runs the requested number of episodes, each from the requested starting memory (or a reset), asking the solver (or a random applicable action) for each action with the current observation, '
     'until termination or the step limit; nothing is played after a terminal outcome. The returned or saved observations, actions and values are those of the episodes, and the reported goal status is the truth about the last observation.',
     ['histories', 'configurations', 'inputs'], 'all combinations of rollout parameters, domain characteristics, action scripts and outcomes',
     'Rollout is not tested at all; the interaction protocol depends on parameters and on every length of episode.',
     ['skdecide/utils.py'], [('rollout', 'skdecide/utils.py:rollout'), ('rollout_episode', 'skdecide/utils.py:rollout_episode')],
     'exhaustive exploration of rollout configurations, call-by-call conformance with a protocol model',
     'Every call on a recording domain/solver is compared with the reference protocol; random walks with all random outcomes. Bounded to <=2-3 episodes/steps.')
prop('C06', 'LazyAstar finds optimal plans, and only plans',
     'Whenever the goal can be reached, the plan found by the lazy A* solver, executed from the initial (or given) state, uses applicable actions and reaches a goal at minimum total cost '
     'for any consistent heuristic (at most weight times the minimum when a weight w > 1 is given), and the utility of each state on the plan is its optimal cost to go. '
     'When the goal cannot be reached, or off the plan, the policy is undefined; solving another problem with the same solver forgets the previous one.',
     ['inputs', 'configurations', 'histories'], 'all weighted graphs of 4 states/2 actions and all 5-state DAGs over small costs, heuristics and weights',
     'No test runs a planner; optimality quantifies over all graphs.', ['skdecide/hub/solver/lazy_astar/lazy_astar.py'],
     [('lazy A* search', 'skdecide/hub/solver/lazy_astar/lazy_astar.py:_solve_domain')],
     'exhaustive enumeration of small weighted graphs; plan execution against exact shortest paths',
     'Every graph of the stated family; consistent heuristics only (weighted bound proven for consistent heuristics).')
prop('C07', 'LRTAstar converges to optimal plans',
     'Run to convergence with a consistent heuristic on a problem whose goal can be reached, the policy learned by the LRTA* solver leads from the initial (or given) state to a goal at minimum cost, '
     'and the learned utility of each non-goal state on the way is its optimal cost to go. When the goal cannot be reached the policy is undefined; solving another problem with the same solver forgets the previous one; it never runs more trials or deeper ones than configured.',
     ['inputs', 'configurations', 'histories'], 'all weighted graphs of 4 states/2 actions and 5-state DAGs over small positive costs, several heuristics',
     'No test runs a planner; convergence quantifies over all graphs.', ['skdecide/hub/solver/lrtastar/lrtastar.py'],
     [('trials and value updates', 'skdecide/hub/solver/lrtastar/lrtastar.py:doTrial')],
     'exhaustive enumeration of small weighted graphs; policy execution against exact shortest paths',
     'Every graph of the stated family, positive costs, up to 60 trials.')
prop('C08', 'SimpleGreedy plays the first action of highest expected immediate reward',
     'In every state the greedy solver returns, among the actions applicable there, the first one whose expected immediate reward is highest, the expectation being taken over the declared next-state '
     'distribution when the value depends on the next state; values given as costs count negatively. Its policy is defined everywhere, also for parallel or history-based domains.',
     ['inputs', 'configurations'], 'all small tables of applicable actions, outcome distributions and rewards',
     'No test runs it; expectation and tie-breaking need all tables.', ['skdecide/hub/solver/simple_greedy/simple_greedy.py'],
     [('greedy choice', 'skdecide/hub/solver/simple_greedy/simple_greedy.py:_get_next_action')],
     'exhaustive enumeration of decision tables against the exact argmax', 'All tables within the bounds, five domain flavours.')
prop('C09', 'Parallel domains serve each job once, on one domain, and return its own result',
     'Every job launched on a parallel domain (piped or in shared memory, on the given domain or on the first available one) is executed exactly once, by the process of the returned domain and with the given arguments, '
     'and fetching from that domain returns this job\'s result (nothing when the job failed). Whatever the interleaving of processes and client threads, a domain is never given to two pending jobs, becomes available again once its result is fetched '
     '(or the launch failed), nobody waits for ever, each job is notified once as success or with its error message, and closing ends every process.',
     ['schedules', 'histories', 'configurations'], 'all schedules of 1-3 client threads and 1-2 domain processes up to a deviation bound x all short job sequences',
     'Parallel domains are not tested; races and lost wake-ups need specific interleavings.',
     ['skdecide/domains.py', 'skdecide/builders/solver/parallelability.py'],
     [('job servers', 'skdecide/domains.py:_launch_domain_server_, _shm_launch_domain_server_'), ('domain reservation', 'skdecide/domains.py:ParallelDomain.wake_up_domain')],
     'stateless model checking of the real classes under a controlled scheduler (simulated processes, pipes, shared memory, locks), deviation bounded',
     'Scheduling points at every operation on a shared primitive. Trusts the simulated multiprocessing primitives; does not explore process crashes.')
SCHED = 'skdecide/builders/scheduling/'
SCHED_WHY = 'The test suite never runs a scheduling domain (tests/test_scheduling.py cannot be imported here); feasibility is a property of every reachable state and action sequence.'
prop('C10', 'Executing a scheduling domain keeps every schedule feasible',
     'In every state that can be reached from the initial state, the applicable actions are exactly: starting a task, in each mode whose resources fit in what is currently available, once all its predecessors are complete; pausing a running and resuming a paused task when '
     'the task is preemptive (resuming only with the resources available, in the mode it was started in); and letting time progress. Starting an action that is not possible changes nothing; otherwise the next state records exactly the tasks that remain, are ongoing, paused and complete, '
     'their start, end and paused dates, modes and progress, and the renewable and non-renewable resources used and available at each date of their calendar, so that precedences, durations and capacities are never violated. A renewable resource is given back on completion (and, when declared, on pause), consumed non-renewable '
     'resources are not. The goal and terminal states are exactly those where all tasks are complete (or the horizon is passed), equal states compare equal whatever the order of the actions, and each episode of an in-place domain starts from the same initial state.',
     ['histories', 'inputs', 'configurations'], 'all reachable states of all small instances (modes, calendars, preemption, resource needs, renewability) in several domain families',
     SCHED_WHY, [SCHED + f for f in ('scheduling_domains.py', 'scheduling_domains_modelling.py', 'task.py', 'task_progress.py', 'precedence.py', 'modes.py', 'preemptivity.py',
                                     'resource_availability.py', 'resource_consumption.py', 'resource_renewability.py', 'resource_handling.py', 'resource_type.py')],
     [('applicable actions', SCHED + 'scheduling_domains.py:SchedulingDomain._get_applicable_actions_from'), ('starting, pausing, resuming, progressing', SCHED + 'scheduling_domains.py:SchedulingDomain.update_*')],
     'explicit-state search of all reachable states of the real domain in lockstep with a reference simulator',
     'Breadth-first over the real states; in each state every action, possible or not, is executed on the real code and on the reference. Bounds: 2-3 tasks, durations 0..2 (and some long ones), horizon up to 6. '
     'Time windows, time lags and the Restart resume type are not enforced by the simulator at all and are not claimed; resuming in another mode is not claimed.')
prop('C11', 'Values of scheduling transitions add up to makespan and cost',
     'With the makespan objective, the costs of the transitions of any complete execution add up to its makespan; with the cost objective, to the sum of the costs of the modes of the tasks started plus the unit cost of each renewable resource unit for each time unit it is used and the unit cost '
     'of the non-renewable resources consumed; with several objectives to their sum; with none, to nothing. The value of each single transition depends only on the time elapsed, the task started and the resources used during it.',
     ['histories', 'inputs', 'configurations'], 'all transitions and all complete schedules of small instances, all sets of objectives',
     SCHED_WHY, [SCHED + f for f in ('scheduling_domains.py', 'resource_costs.py')],
     [('transition value', SCHED + 'scheduling_domains.py:SchedulingDomain._get_transition_value')],
     'explicit-state search of all reachable states, every transition value against the reference accounting',
     'Every transition of every small instance and every complete schedule. Non-renewable unit costs are 1 in the bounds; in-place environments are not covered.')
prop('C12', 'Uncertain scheduling domains produce the declared outcomes and probabilities',
     'When the durations of tasks are distributions, starting a task draws its duration exactly once with the declared probabilities, and each outcome then runs its course with its own resources. When tasks are conditional, completing a task draws each of its condition distributions with the declared probability, '
     'and exactly the tasks conditioned on what was drawn are added to those that must be done, while precedence constraints carry over through the conditional tasks which are not needed. The outcome probabilities of each transition are those of these draws and sum to one, also when several tasks complete together or last no time; sampled '
     'domains have the same distribution, and domains with simulated durations draw each duration in its declared range.',
     ['histories', 'schedules', 'inputs', 'configurations'], 'all reachable states and all random outcomes of small instances with uncertain durations, conditions and consumptions',
     SCHED_WHY, [SCHED + f for f in ('scheduling_domains.py', 'task_duration.py', 'conditional_tasks.py', 'resource_consumption.py', 'task.py')],
     [('uncertain start', SCHED + 'scheduling_domains.py:SchedulingDomain.update_start_tasks_uncertain'), ('conditions', SCHED + 'scheduling_domains.py:SchedulingDomain.update_conditional_tasks_uncertain')],
     'explicit-state search with owned randomness: every outcome of every draw, exact distributions against the reference simulator',
     'All random outcomes enumerated, hence exact probabilities. Bounds: 2-4 tasks, horizon 3-4. Non-renewable resources with consumption varying over time are not covered.')
prop('C13', 'Resource units allocated to tasks are free, suffice and stay theirs',
     'In scheduling domains with skills or resource units, a task can be started (or resumed) in a mode exactly when the units allocated to it are free and available at that date, cover with the sum of their skills every skill the mode needs (or, for a resource type, as many units as needed), and no unit serves two tasks at once. '
     'Every action returned by the action spaces of these domains is of that form and none is missing; starting a task with such units reserves exactly these until it completes or pauses, and an insufficient or busy allocation changes nothing.',
     ['histories', 'inputs', 'configurations'], 'all reachable states x all subsets of units for every task and mode, all random outcomes of the action space',
     SCHED_WHY, [SCHED + f for f in ('scheduling_domains.py', 'skills.py', 'preallocations.py')],
     [('action space with units', SCHED + 'scheduling_domains.py:SchedulingActionSpaceWithResourceUnit'), ('skills check', SCHED + 'scheduling_domains.py:SchedulingDomain.check_if_skills_are_fulfilled')],
     'explicit-state search over states x unit subsets on the real domain against a reference allocation rule',
     'Every subset of 3 units in every reachable state of 2-task instances, horizon 3; contains() of the sampled space is not claimed.')
prop('C14', 'A scheduling domain reports its problem as declared',
     'What a scheduling domain says of its problem is what was declared: the full predecessors and successors of each task are the transitive closure of the declared precedence, in every graph query (paths, ancestors, levels, cycles); durations, their bounds and distributions per task, mode and progress; default and partial time windows and lags; '
     'modes and their resource needs; resource names, calendars, renewability, skills and costs; conditions and the tasks they add. A task record reports its active, total and remaining time exactly from its start, pause, resume and end dates. Repeated requests get the same answer.',
     ['inputs', 'configurations', 'histories'], 'all small graphs, distributions, request sequences, run/pause patterns, windows and domain descriptions',
     SCHED_WHY, [SCHED + f for f in ('graph_toolbox.py', 'task_duration.py', 'time_windows.py', 'time_lag.py', 'modes.py', 'precedence.py', 'preemptivity.py', 'resource_availability.py', 'resource_costs.py',
                                     'conditional_tasks.py', 'preallocations.py', 'skills.py', 'resource_consumption.py', 'resource_type.py', 'task_progress.py', 'task.py')],
     [('graph closure', SCHED + 'graph_toolbox.py:Graph'), ('task record', SCHED + 'task.py:Task')],
     'exhaustive enumeration of small declarations and request sequences against direct definitions',
     'All digraphs of 3-4 nodes, all run/pause patterns up to 7 time units, all declaration patterns of the stated families.')
prop('C15', 'The example domains follow the rules of their games',
     'The example domains of the hub obey the rules they are named for, for any size or layout: in the grid world and the maze each move leads to the neighbouring cell unless a wall or border blocks it (then the agent stays and pays 2 instead of 1), the episode ends exactly at the goal; '
     'in Mastermind every code is equally likely, stays hidden and unchanged, each guess costs 1 and is scored with the true numbers of bulls and cows, and only the complete guess wins; in rock-paper-scissors rewards are zero-sum by the usual rules, each player observes the other\'s last move, and the game lasts exactly the declared number of moves. '
     'Initial states, goals and the declared action and observation spaces agree with what can happen.',
     ['inputs', 'histories', 'configurations'], 'all sizes, layouts, cells, codes and moves within the bounds, all short sequences of actions',
     'No test runs these domains.', ['skdecide/hub/domain/simple_grid_world/simple_grid_world.py', 'skdecide/hub/domain/maze/maze.py', 'skdecide/hub/domain/mastermind/mastermind.py',
                                     'skdecide/hub/domain/rock_paper_scissors/rock_paper_scissors.py'],
     [('moves', 'skdecide/hub/domain/maze/maze.py:Maze._get_next_state'), ('score', 'skdecide/hub/domain/mastermind/mastermind.py:MasterMind._calc_score')],
     'explicit-state search of all reachable states and all short action sequences against the rules',
     'Every reachable cell of every layout within the bounds; every code and guess up to 256 codes. Rendering is not covered; mazes are enclosed by walls (with holes at start and goal only).')
prop('C16', 'Gym-backed spaces contain, sample and convert exactly their elements',
     'A space built from an enumeration, a list or a data class, or wrapping a Gym space, contains exactly the declared elements, enumerates them in the declared order, samples each of them (uniformly when enumerable) and nothing else, and converts any sequence of elements to and from the wrapped Gym space and to and from its JSON form '
     'without loss, one value per element and in the same order. Unwrapping gives the Gym space of the declared kind, size, bounds, shape and type.',
     ['inputs', 'configurations'], 'all small spaces, all sequences of elements up to a length, members and non-members, all outcomes of sampling',
     'No test constructs these spaces.', ['skdecide/hub/space/gym/gym.py'],
     [('enumerable spaces', 'skdecide/hub/space/gym/gym.py:EnumSpace, ListSpace'), ('data classes', 'skdecide/hub/space/gym/gym.py:DataSpace')],
     'exhaustive enumeration of small spaces and element sequences, every outcome of an owned random generator',
     'Elements without duplicates in a list; flat data classes. Sampling of the wrapped Gym spaces is enumerated over an owned generator.')
prop('C17', 'Gym environments as domains (and conversely) keep their dynamics',
     'A Gym environment wrapped as a domain delivers for every sequence of resets and actions exactly the observations, rewards, terminations and infos of the environment, with one call each; a domain wrapped as a Gym environment does so in the other direction, in the unwrapped spaces. Planning on a deterministic environment gives the same states, values, terminations and goals '
     'whatever the order in which states are explored, by copying or by setting the environment state, and never disturbs states already obtained; with a deterministic initial state every reset returns to it. Hashable states are equal exactly when the observations are. Discretized action spaces contain every combination of the evenly spaced values of each variable, all of them valid actions. '
     'Width features: the binary ones have constant length and distinguish states, the interval ones give each value the layer it falls in.',
     ['histories', 'inputs', 'configurations'], 'all action sequences and exploration orders up to a depth on finite environments with hidden state, all kinds of spaces',
     'No test wraps an environment; hidden state leaks only show for particular orders of exploration.', ['skdecide/hub/domain/gym/gym.py'],
     [('planning domain', 'skdecide/hub/domain/gym/gym.py:DeterministicGymDomain'), ('reverse wrapper', 'skdecide/hub/domain/gym/gym.py:AsGymEnv'), ('features', 'skdecide/hub/domain/gym/gym.py:GymWidthDomain')],
     'bounded exhaustive exploration of action sequences and expansion orders on the real wrappers in lockstep with the automaton',
     'Environments are finite automata with a hidden counter, old Gym API (4 results). Integer boxes are not claimed for discretization; binary features of boxes at single precision.')
prop('C18', 'Exploring a domain builds the graph of exactly its transitions',
     'Exploring a deterministic domain (depth first or the full space) or an uncertain one from its initial state builds the graph of exactly the states reachable from it, the transitions between them, their costs, probabilities, goals and targets; with limits on nodes, edges or depth what is built remains a part of that graph and the limits are respected. '
     'A domain built on a graph (deterministic or uncertain) behaves as the graph says: its applicable actions, next states with their probabilities, values, goals and terminal states are those of the graph in every state; merging graphs keeps the states, transitions and targets of both.',
     ['inputs', 'configurations', 'histories'], 'all small automata (deterministic and stochastic), all limits, all pairs of graphs to merge, all states and actions',
     'No test explores a domain to a graph.', ['skdecide/hub/solver/graph_explorer/DFSExploration.py', 'skdecide/hub/solver/graph_explorer/FullSpaceExploration.py', 'skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py',
                                             'skdecide/hub/solver/graph_explorer/GraphDomain.py'],
     [('graph domain', 'skdecide/hub/solver/graph_explorer/GraphDomain.py:GraphDomain'), ('exploration', 'skdecide/hub/solver/graph_explorer')],
     'explicit-state enumeration of small automata explored by the real explorers, compared with their reachability graph',
     'Automata of up to 4 states and 2 actions; states are hashable labels.')
prop('C19', 'Scheduling policies choose as announced and evaluations are exact',
     'A pile policy starts, in every state where some task can start (in mode 1), one of those tasks as announced: one with the most successors (direct or not), one of the shortest, one drawn in proportion to the number of successors, or one drawn uniformly; otherwise it lets time pass. '
     'The meta policy plays the action on which its policies agree, else that of the policy with the smallest average makespan over the declared number of rollouts on the known domain, and leaves the observed state untouched. '
     'Evaluating a policy gives, for each state it surely leads from to the goals, its exact expected cost, and the policy\'s actions, successors and predecessors; estimations by rollouts give the averages of the costs to go (or makespans) of the rollouts made.',
     ['inputs', 'histories', 'configurations'], 'all policies on small stochastic automata; all reachable states of small scheduling instances; all outcomes of the random draws and durations',
     'The choices depend on reachable states and random draws no test enumerates.', ['skdecide/hub/solver/pile_policy/pile_policy.py', 'skdecide/hub/solver/meta_policy/meta_policies.py', 'skdecide/hub/solver/policy_evaluators/policy_evaluator.py'],
     [('pile choice', 'skdecide/hub/solver/pile_policy/pile_policy.py:PilePolicy._get_next_action'), ('expected cost', 'skdecide/hub/solver/policy_evaluators/policy_evaluator.py:compute_expected_cost_for_policy')],
     'explicit-state search of reachable states and exhaustive enumeration of the random outcomes against exact references',
     'Instances of 3 tasks; policies on automata of 2-3 states; initial states which are not goals.')
prop('C20', 'RCPSP models decode, check and evaluate schedules by their constraints',
     'In every RCPSP model (single or several modes, renewable and non-renewable resources, calendars), a permutation with modes decodes to the schedule of the serial generation scheme: each task in the order of the permutation (after its predecessors) starts at the earliest date which respects precedences and resources; the best permutation reaches the minimum makespan, and what cannot be scheduled within the horizon is said infeasible. '
     'A schedule satisfies the model exactly when it respects precedences, resources at all dates and the non-renewable totals; the makespan and the mean resource reserve are those of the schedule. '
     'Changing the permutation or the modes of a solution, or copying it, gives a solution evaluated on its own; encodings decode to the same solutions; decoding from a date keeps what was completed or started; helper tasks before are delayed as late as possible.',
     ['inputs', 'histories'], 'all permutations, modes and vectors of start dates on all small instances',
     'The permutations, modes and start dates of even one instance are not sampled by any stable test.', ['skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py'],
     [('serial scheme', 'skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py:RCPSPSolution'), ('feasibility', 'skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py:RCPSPModel.satisfy')],
     'exhaustive enumeration of permutations, modes and start dates against a reference scheme and the constraints',
     'Instances of 3-4 tasks. The mean reserve is not claimed with calendars, zero capacities or non-renewable resources.')
prop('C21', 'RCPSP models and scheduling domains convert into each other faithfully',
     'The scheduling domain built from an RCPSP model (single or several modes, calendars, employees with skills), and the RCPSP model built from a scheduling domain, describe the same problem: same tasks, modes, durations, quantities of every resource at every date, renewable or not, successors, skills and horizon, also after a round trip; a resource a mode does not name is consumed in quantity zero. '
     'The solution read from the last state of an execution has the start dates, end dates and modes recorded in that state. Stochastic domains draw each duration from the declared distribution; the domains built from sampled durations have fixed durations of positive probability and everything else unchanged.',
     ['inputs', 'configurations', 'histories'], 'all small instances of every kind of model and domain, all reachable states, all outcomes of the drawn durations',
     'No stable test binds a domain to a model.', ['skdecide/hub/solver/do_solver/sk_to_do_binding.py', 'skdecide/hub/domain/rcpsp/rcpsp_sk.py', 'skdecide/hub/domain/rcpsp/rcpsp_sk_parser.py'],
     [('domain to model', 'skdecide/hub/solver/do_solver/sk_to_do_binding.py:build_do_domain'), ('model to domain', 'skdecide/hub/solver/do_solver/sk_to_do_binding.py:build_sk_domain')],
     'exhaustive enumeration of small instances, reachable states and random outcomes against the declared problem',
     'Instances of 3-4 tasks; multi-skill domains as the binding supports them.')
prop('C22', 'Policies built from solutions follow their schedule or order as announced',
     'A policy built from a solution of a scheduling problem (order of tasks, modes, possibly start dates and employees) plays in every reachable state exactly what its method announces, else lets time progress: follow-Gantt starts the tasks scheduled now; precedence and strict only start the first remaining task of the order whose predecessors are completed, or others with its scheduled date; '
     'ready starts the first task of the order which can start; time freedom and index freedom the first which can start among those scheduled within delta of the date, or ordered within delta positions, of the first one. Tasks start with the modes and the employees of the solution. '
     'Following the schedule of a feasible solution on its deterministic domain reproduces its start dates. The greedy solver returns a feasible schedule and a policy which reproduces it.',
     ['inputs', 'histories', 'configurations'], 'all orders, dates, modes, freedoms and methods in all reachable states of all small instances',
     'The methods differ only in states where resources or dates conflict, which no test visits.', ['skdecide/hub/solver/sgs_policies/sgs_policies.py', 'skdecide/hub/solver/do_solver/do_solver_scheduling.py'],
     [('choice of the methods', 'skdecide/hub/solver/sgs_policies/sgs_policies.py:PolicyRCPSP'), ('solver', 'skdecide/hub/solver/do_solver/do_solver_scheduling.py:DOSolver')],
     'explicit-state search of all reachable states x orders x methods on the real policies against the announced choice',
     'Instances of 3-4 tasks; DOSolver with the greedy method on single-mode problems (the others need solvers which are not installed).')
GT = 'skdecide/builders/discrete_optimization/generic_tools/'
prop('C23', 'Optimisation results keep their best solutions and objectives their meaning',
     'An objective set up on an optimisation problem evaluates a solution (or its values) to the weighted sum, the weighted first objective or the vector of weighted objectives, as handled; one vector is above another when no component is smaller and one is larger. A robust problem aggregates each objective over its scenarios by the declared mean, median, percentile, weights, minimum or maximum. '
     'Whatever solutions are added to a result storage, in whatever order and also to an empty one, it keeps each added solution once and gives the best one, the last best, a random best and a random other one for its sense of optimisation; a Pareto front holds exactly the solutions no other dominates, with its extreme points; '
     'comparing storages gives the best of each and their common front. Graphs report the neighbours, predecessors, ancestors, attributes and loops of their edges.',
     ['histories', 'inputs'], 'all sequences of added solutions within the bound, all small vectors, weights, scenarios and graphs, all outcomes of the random choices',
     'No stable test stores a result.', [GT + f for f in ('do_problem.py', 'result_storage/result_storage.py', 'result_storage/multiobj_utils.py', 'result_storage/resultcomparator.py', 'graph_api.py')],
     [('storage', GT + 'result_storage/result_storage.py:ResultStorage'), ('front', GT + 'result_storage/result_storage.py:ParetoFront'), ('objective', GT + 'do_problem.py:build_evaluate_function_aggregated')],
     'bounded exhaustive enumeration of operation sequences and inputs against the definitions, every outcome of random choices',
     'Sequences of up to 6 solutions. The size limit of the heap of fitnesses and get_n_best_solution (a stub) are not claimed.')
prop('C24', 'Mutations and local searches move, undo, store and return what they evaluate',
     'Each mutation draws from the neighbourhood it announces, with its probabilities (whole or partial shuffles, swaps, reversed segments, flipped bits, integers in their arities, portfolios by weight; for tours the best of the pairs tested, only improvements, crossing legs, swaps; for knapsacks items by profit ratio) and gives a valid solution of which the objective returned is the evaluation; the original is left as it was, '
     'undoing the move restores the solution and redoing it repeats it. The mutations listed for a problem are those of its encoding. '
     'Hill climbing moves only to improvements, simulated annealing also to worse ones with the probability of the temperature, which cools at each iteration, and both restart from the best after the announced number of iterations; the start is not changed, each solution stored has its own evaluation, and the best visited is returned in the sense of optimisation. The Pareto climb returns the front of what it visited.',
     ['histories', 'inputs', 'configurations'], 'all outcomes of the random draws of every mutation on all small solutions, and of the searches over several iterations',
     'The draws and moves of a search are random: tests see one history.',
     [GT + f for f in ('do_mutation.py', 'mutations/mutation_catalog.py', 'mutations/permutation_mutations.py', 'mutations/mutation_bool.py', 'mutations/mutation_integer.py', 'ls/local_search.py', 'ls/hill_climber.py', 'ls/simulated_annealing.py')]
     + ['skdecide/builders/discrete_optimization/' + f for f in ('tsp/mutation/mutation_tsp.py', 'knapsack/mutation/mutation_knapsack.py', 'rcpsp/mutations/mutation_rcpsp.py', 'tsp/tsp_model.py')],
     [('moves', GT + 'do_mutation.py:LocalMove'), ('search', GT + 'ls/hill_climber.py:HillClimber'), ('annealing', GT + 'ls/simulated_annealing.py:SimulatedAnnealing')],
     'enumeration of every outcome of the random choices of the real mutations and searches in lockstep with reference ones',
     'Solutions of up to 5 elements, searches of up to 4 iterations. Not claimed: standardised_permutation and permutation_from0 of tours, bit flips of knapsacks which are not evaluated again.')
DO = 'skdecide/builders/discrete_optimization/'
prop('C25', 'Combinatorial problems evaluate, check and convert their solutions as defined',
     'For knapsacks, tours, colourings, facility location, vehicle routing and travelling thieves: the evaluation of a solution is the value of its definition (values and weights of the items taken, excess weight; lengths of the legs from the start over the nodes to the end; number of colours and of edges with twice the same colour; costs of the facilities used, distances and demand above the capacity of each; lengths and load of each vehicle; profit minus renting time at the speed of the load), incrementally or from scratch, '
     'and a solution satisfies the problem exactly when it respects all of its constraints; objectives carry their announced sense. Dummy and random solutions, copies (which are independent), conversions between encodings and reformatted colourings keep their meaning. Distance and length helpers, pruned or complete matrices and cliques are exact. '
     'Files are read to the problem which they describe.',
     ['inputs', 'configurations'], 'all assignments, tours, colourings, packings and paths, feasible or not, of all small instances',
     'No stable test evaluates such a solution.',
     [DO + f for f in ('knapsack/knapsack_model.py', 'knapsack/knapsack_parser.py', 'tsp/tsp_model.py', 'tsp/common_tools_tsp.py', 'tsp/tsp_parser.py', 'coloring/coloring_model.py', 'coloring/coloring_toolbox.py', 'coloring/coloring_parser.py',
                       'facility/facility_model.py', 'facility/facility_parser.py', 'vrp/vrp_model.py', 'vrp/vrp_toolbox.py', 'vrp/vrp_parser.py', 'ttp/ttp_model.py', 'ttp/ttp_parser.py')],
     [('knapsack', DO + 'knapsack/knapsack_model.py:KnapsackModel'), ('tours', DO + 'tsp/tsp_model.py:TSPModel'), ('colouring', DO + 'coloring/coloring_model.py:ColoringProblem'),
      ('facilities', DO + 'facility/facility_model.py:FacilityProblem'), ('vehicles', DO + 'vrp/vrp_model.py:VrpProblem'), ('thieves', DO + 'ttp/ttp_model.py:TTPModel')],
     'exhaustive enumeration of all solutions of all small instances on the real models against the definitions',
     'Instances of up to 4 items, 6 nodes, 3 facilities x 4 customers, 3 vehicles x 4 customers. The VRP check counts vehicles by their start and end nodes as the model does.')
prop('C26', 'Solvers of combinatorial problems return valid, announced or optimal solutions',
     'Solvers of knapsacks, colourings, facility location, tours and vehicle routing return solutions of the problem they were given (items within the capacity at their positions, different colours of neighbours, all nodes visited from the start to the end, capacities respected), whatever the names and order of items and nodes, with their own evaluation as fitness in the sense of the objectives, and the best of them as best solution. '
     'Exact methods (dynamic programming, integer and constraint programmes, iterative cuts of subtours, routing on small instances) reach the optimum, of the pruned search space where the user prunes it, with any starting solution, all solutions or the best one retrieved; greedy methods return the solution their rule announces, and the best strategy is the best of them.',
     ['inputs', 'configurations'], 'all small instances of a family and the options of every solver, against the enumeration of all solutions of the instance',
     'No stable test runs a solver.',
     [DO + f for f in ('knapsack/solvers/greedy_solvers.py', 'knapsack/solvers/dyn_prog_knapsack.py', 'knapsack/solvers/cp_solvers.py', 'knapsack/solvers/lp_solvers.py', 'coloring/solvers/greedy_coloring.py', 'coloring/solvers/coloring_cp_solvers.py', 'coloring/solvers/coloring_lp_solvers.py',
                       'facility/solvers/greedy_solvers.py', 'facility/solvers/facility_cp_solvers.py', 'facility/solvers/facility_lp_solver.py', 'tsp/solver/solver_ortools.py', 'tsp/solver/tsp_cp_solver.py', 'tsp/solver/solver_lp_iterative.py', 'vrp/solver/greedy_vrp.py', 'vrp/solver/solver_ortools.py')],
     [('knapsack', DO + 'knapsack/solvers/dyn_prog_knapsack.py:KnapsackDynProg'), ('colouring', DO + 'coloring/solvers/coloring_lp_solvers.py:ColoringLP_MIP'), ('facilities', DO + 'facility/solvers/facility_lp_solver.py:prune_search_space'), ('tours', DO + 'tsp/solver/solver_lp_iterative.py:LP_TSP_Iterative')],
     'exhaustive enumeration of the solutions of every small instance, against which each result of the real solvers is checked',
     'Knapsacks of up to 5 items, graphs of up to 6 nodes, 3 facilities x 4 customers, tours of up to 6 nodes, 2 vehicles x 3 customers. Stand-ins replace the solvers which are not installed (checks/mipstand.py for the engine of python-mip, gecode for chuffed, enumeration for the knapsack solver of ortools); the Gurobi variants are not run.')
R_ = DO + 'rcpsp/'
prop('C27', 'Project scheduling heuristics give valid schedules by their rules',
     'The greedy heuristics of RCPSP process the completions of tasks one at a time, in order of date then of task, and start after each one, as long as a ready task fits in the resources, a task which their rule prefers among those (most descendants, shortest, or any: with random choices exactly the orders the rule allows are reachable). With calendars of resources their schedules are valid and no ready task is left waiting while it fits with a unit to spare. '
     'The executor of priority lists starts at each date the first tasks of the list which fit and leaves the list as it was. The critical path method gives the earliest and latest dates of every task and a path of tight tasks, and its schedules are those of the list it returns or feasible ones. '
     'Resource consumptions (past or future), individual schedules and differences between schedules are those of the schedule, and PSPLIB files are read as written.',
     ['inputs', 'histories'], 'all small projects of a family, all priority lists, every random choice of the heuristics, all schedules viewed',
     'No stable test builds a project.',
     [R_ + f for f in ('solver/rcpsp_pile.py', 'solver/cpm.py', 'rcpsp_utils.py', 'rcpsp_parser.py')],
     [('greedy', R_ + 'solver/rcpsp_pile.py:PileSolverRCPSP'), ('greedy with calendars', R_ + 'solver/rcpsp_pile.py:PileSolverRCPSP_Calendar'), ('priority lists', R_ + 'solver/rcpsp_pile.py:Executor'), ('critical path', R_ + 'solver/cpm.py:CPM'), ('files', R_ + 'rcpsp_parser.py:parse_psplib')],
     'exhaustive enumeration of projects, priority lists and random choices on the real code, against an event-driven reference simulation',
     'Projects of up to 4 tasks, 2 resources, 3 modes and calendars; the modes of multi-mode projects are searched by a constraint programme (gecode stands in for chuffed).')
prop('C28', 'Exact solvers of project scheduling find feasible schedules of least makespan',
     'The constraint programmes (single mode, several modes, with calendars of resources), the programme which searches modes and the integer programmes of RCPSP return feasible schedules, with their own evaluation as fitness and the best one as best solution, and the best one has the least makespan of all the schedules. '
     'Given a partial solution (start dates, modes of tasks, orders, tasks which start together, at the end of another, or some dates after), the schedule holds it and has the least makespan among those which do. Solvers are found, built, initialised and run through look_for_solver, solve and return_solver with the options given.',
     ['inputs', 'configurations'], 'all small projects of a family, every kind of partial solution, every option of the solvers, against the enumeration of all the schedules of the project',
     'No stable test runs a solver.',
     [R_ + f for f in ('solver/cp_solvers.py', 'solver/rcpsp_lp_solver.py', 'rcpsp_solvers.py', 'minizinc/rcpsp_single_mode_mzn.mzn', 'minizinc/rcpsp_multi_mode_mzn.mzn', 'minizinc/rcpsp_multi_mode_mzn_calendar.mzn', 'minizinc/mrcpsp_mode_satisfy.mzn')],
     [('constraint programmes', R_ + 'solver/cp_solvers.py:CP_MRCPSP_MZN'), ('modes', R_ + 'solver/cp_solvers.py:CP_MRCPSP_MZN_MODES'), ('integer programmes', R_ + 'solver/rcpsp_lp_solver.py:LP_MRCPSP'), ('entry points', R_ + 'rcpsp_solvers.py:solve')],
     'exhaustive enumeration of the schedules of every small project, against which each result of the real solvers is checked',
     'Projects of up to 4 tasks. Gecode stands in for chuffed and checks/mipstand.py for the engine of python-mip. The integer programmes with a starting solution search schedules which are not longer than it. Not run: the Gurobi variants, and the options whose programme is not in the repository (preemptive tasks, no boolean modes, boxes).')
S_ = DO + 'rcpsp_multiskill/'
prop('C29', 'Multi-skill projects: validity, schedule generation, encodings and files',
     'A schedule of a multi-skill project is accepted by satisfy exactly when every task is scheduled, the employees at work on it hold the skills it needs, at the levels it needs together, are available over all its dates and work on nothing else meanwhile, renewable resources suffice at each date (none after the end of their calendars), stocks are not overdrawn and successors start after their predecessors end. '
     'Built from a priority list, modes and a priority of workers per task, the schedule gives each task in turn, first eligible one of the list first, the earliest date when its resources and a team are available, the team being the available holders of a needed skill in priority order until the needs are covered (the first able worker alone with one unit per task); employees are occupied by their own tasks only; the makespan tells when no such schedule ends before the horizon. '
     'Every encoding, copy and fixed attribute evaluates as the solution it stands for, copies of models and employees keep all they are made of, the representative project has the skills available at each date as resources, left shifts move each task to the earliest date its employees and resources allow, and IMOPSE files are read and written as they are.',
     ['inputs', 'histories'], 'all schedules and teams of small projects; all priority lists, modes and worker priorities',
     'No stable test builds a multi-skill project.',
     [S_ + f for f in ('rcpsp_multiskill.py', 'rcpsp_multiskill_parser.py', 'solvers/lns_post_process_rcpsp.py')],
     [('validity', S_ + 'rcpsp_multiskill.py:MS_RCPSPModel.satisfy'), ('schedules', S_ + 'rcpsp_multiskill.py:sgs_multi_skill'), ('encodings', S_ + 'rcpsp_multiskill.py:MS_RCPSPModel_Variant.evaluate_from_encoding'), ('left shifts', S_ + 'solvers/lns_post_process_rcpsp.py:sgs_variant'), ('files', S_ + 'rcpsp_multiskill_parser.py:parse_imopse')],
     'exhaustive enumeration of schedules, teams and encodings on the real code, against reference definitions of validity and of the generation scheme',
     'Projects of up to 3 tasks, 3 employees, 2 skills and 2 resources. Not claimed: tasks without duration which need skills, calendars shorter than the horizon when schedules are generated.')
prop('C30', 'Exact solvers of multi-skill projects find feasible schedules of least makespan',
     'The constraint programme of multi-skill projects returns feasible schedules and teams, with their own evaluation as fitness, ending within the calendars, of least makespan among them: with the default options teams hold the needed skills at exactly the needed levels, without exact_skills_need at least at them, with one_ressource_per_task at most one employee works on a task, and without calendars every employee is available. Given a partial solution (start dates, modes, orders, tasks which start together, at the end of another or some dates after) the schedule holds it and is of least makespan among those which do. '
     'The integer programme returns feasible schedules of least makespan. The solver based on a single-skill solver schedules the priority lists and modes found for the representative project with all the workers. '
     'Solvers are found, built, initialised and run through look_for_solver, solve and return_solver with the options given.',
     ['inputs', 'configurations'], 'all small projects of a family, every kind of partial solution, every option of the solvers, against the enumeration of all the schedules and teams of the project',
     'No stable test runs a solver.',
     [S_ + f for f in ('solvers/cp_solvers.py', 'solvers/lp_model.py', 'solvers/solver_rcpsp_based.py', 'rcpsp_multiskill_solvers.py', 'minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn')],
     [('constraint programme', S_ + 'solvers/cp_solvers.py:CP_MS_MRCPSP_MZN'), ('integer programme', S_ + 'solvers/lp_model.py:LP_Solver_MRSCPSP'), ('based on single-skill solvers', S_ + 'solvers/solver_rcpsp_based.py:Solver_RCPSP_Based'), ('entry points', S_ + 'rcpsp_multiskill_solvers.py:solve')],
     'exhaustive enumeration of the schedules and teams of every small project, against which each result of the real solvers is checked',
     'Projects of up to 3 tasks, 3 employees and 2 skills. Gecode stands in for chuffed and checks/mipstand.py for the engine of python-mip. The integer programme considers tasks which start within the sum of the longest durations plus 10.')
G_ = DO + 'generic_tools/'
prop('C31', 'Large neighbourhood search keeps every solution, its constraints and its limits',
     'The loops of large neighbourhood search, over integer programmes and constraint programmes, return a store which holds all the solutions of the initial store and all those found by each iteration, post-processed. '
     'Each solve happens under exactly the constraints which the handler built for it, from the initial solutions at the first iteration and from the results so far after (the last ones for integer programmes), the constraints of the iterations before being removed; with skip_first_iteration nothing constrains the model until there are results. '
     'The loops stop after nb_iteration_lns iterations, or when more than nb_iteration_no_improvement of them in a row (twice the number of iterations by default) did not strictly improve the best fitness, or when max_time_seconds are over. Iterations of constraint programmes which fail or find nothing count among those without improvement and do not stop the search, and the first iteration has its own time limit.',
     ['histories', 'configurations'], 'all sequences of results of the iterations (better, same, worse, several, none, failure) up to a bound, all options of the loops and all dates of the clock of a family',
     'No stable test runs a large neighbourhood search.',
     [G_ + f for f in ('lns_mip.py', 'lns_cp.py')],
     [('integer programmes', G_ + 'lns_mip.py:LNS_MILP.solve_lns'), ('constraint programmes', G_ + 'lns_cp.py:LNS_CP.solve_lns')],
     'exhaustive enumeration of the histories of results of the iterations, replayed through the real loops with recording solvers and handlers, against a reference loop',
     'The clock is simulated. Models and handlers are stand-ins which record what the loops do with them; C32 and C33 run the real ones.')
D_ = DO
prop('C32', 'Neighbourhoods of knapsack, colouring and facility searches free what they say',
     'In the large neighbourhood searches of knapsack, graph colouring and facility location, a neighbourhood keeps a random choice of the given fraction of the items, nodes or customers (rounded down), any choice being possible, at their values in the best solution so far, and leaves all the others free; in colouring the nodes of the highest colour are never kept, and in constraint programmes no colour is beyond the current ones; customers whose facility is not among those of the model stay free; nothing is kept at the first iteration of facility location with skip_first_iter. '
     'The best solution itself is in the neighbourhood and is the starting point given to the solver, and the constraints of a neighbourhood are removed after it was searched. '
     'Initial solutions are those of the greedy or dummy solvers asked for, post-processing of colourings renumbers colours without gaps, and searches never return worse than the initial solution, and the optimum when nothing is kept. The searches which the solvers of facility location and of colourings have themselves return feasible solutions, not worse than the start, evaluated rightly.',
     ['inputs', 'random choices'], 'all random choices of the neighbourhoods of small instances; all assignments of the variables of the models',
     'No stable test builds a neighbourhood.',
     [D_ + f for f in ('knapsack/solvers/knapsack_lns_solver.py', 'knapsack/solvers/knapsack_lns_cp_solver.py', 'coloring/solvers/coloring_lp_lns_solvers.py', 'coloring/solvers/coloring_cp_lns_solvers.py', 'facility/solvers/facility_lp_lns_solver.py')],
     [('knapsack', D_ + 'knapsack/solvers/knapsack_lns_solver.py:ConstraintHandlerKnapsack'), ('colouring', D_ + 'coloring/solvers/coloring_cp_lns_solvers.py:ConstraintHandlerFixColorsCP'), ('facilities', D_ + 'facility/solvers/facility_lp_lns_solver.py:ConstraintHandlerFacility')],
     'exhaustive exploration of the random choices of the real handlers, the set of assignments each one leaves allowed being compared with the sets of the definition',
     'Not run: the Gurobi variants, and the search inside facility_lp_lns_solver.py which does not go through the loops of C31.')
prop('C33', 'Scheduling searches free the tasks they say and never lose a schedule',
     'In the large neighbourhood searches of projects, single-skill and multi-skill, a neighbourhood takes a random choice of the given fraction of the tasks (source and sink included, rounded down), any choice being possible: the handlers which fix start dates keep the tasks chosen at their dates in the best schedule so far, those of intervals keep them between minus_delta dates before (no less than 0) and plus_delta dates after (no more than the makespan), except the tasks which end within the last dates of the schedule (5 by default, 20 in the multi-skill constraint programme) and, by parts, those which start in the current part of the schedule, parts being taken in turn; everything else is free, but for dates beyond the makespan plus 50 in single-skill constraint programmes, and later makespans in the multi-skill one, which also keeps the employees of a second choice of tasks. '
     'The schedule searched around is in its neighbourhood and is the starting point of integer programmes (with modes, the better of it and of the one the programme was built on); the multi-skill constraint programme takes the last best, the best, one of the best or another one with probabilities 0.2, 0.2, 0.59 and 0.01. '
     'Mixed handlers draw one of their sets of parameters by their probabilities (in one case out of 20, of the best rate of improvement), multiplied by 1.05 after an improvement and 0.95 otherwise, and normalised. '
     'Initial solutions are those of the solvers asked for (dummy, pile, calendar pile, constraint programme; multi-skill: their priority lists and modes scheduled with all workers). Searches return feasible schedules, with their own makespan as fitness, the initial ones included, and the best one of all where nothing is kept.',
     ['inputs', 'random choices'], 'all random choices of the neighbourhoods around schedules of small projects, all schedules next to them, all histories of improvement of mixed handlers up to a bound',
     'No stable test builds a neighbourhood.',
     [R_ + 'solver/rcpsp_lp_lns_solver.py', R_ + 'solver/rcpsp_cp_lns_solver.py', S_ + 'solvers/ms_rcpsp_lp_lns_solver.py', S_ + 'solvers/ms_rcpsp_cp_lns_solver.py'],
     [('integer programmes', R_ + 'solver/rcpsp_lp_lns_solver.py:ConstraintHandlerStartTimeIntervalMRCPSP'), ('constraint programmes', R_ + 'solver/rcpsp_cp_lns_solver.py:ConstraintHandlerMix'), ('multi-skill', S_ + 'solvers/ms_rcpsp_cp_lns_solver.py:ConstraintHandlerStartTimeInterval_CP'), ('initial solutions', R_ + 'solver/rcpsp_lp_lns_solver.py:InitialSolutionRCPSP')],
     'exhaustive exploration of the random choices of the real handlers, the set of schedules each one leaves allowed, among all those next to the current one, being compared with the sets of the definition',
     'Projects of up to 3 tasks. Schedules next to one are those with other dates (modes, employees) for at most two tasks, at the bounds of the intervals. Not run: the Gurobi variants, the initial solutions by local search.')
prop('C34', 'Iterative calendar search: breaks, cuts and rebuilt schedules are true',
     'In the searches which solve a project with calendars through programmes without calendars (single-skill and multi-skill), a schedule satisfies the calendars, as flagged in its satisfy attribute, exactly if in the modes it uses no resource is used beyond its availability at any date (multi-skill: if the model accepts it). '
     'When the best schedule so far does not satisfy, what is added to the next programme is: for each task which runs at a date when one of its broken resources has nothing available, that it starts no later than the last date up to its start, or no earlier than the first date from its start, when there is enough for the least demanding of its modes; and for each resource and date broken (each one possibly left out at random, employees excepted) that its availability is respected at this date. So no schedule which meets the calendars is ever excluded. These constraints stay in force in all later iterations; the usual neighbourhood is added, for its own iteration only, around the schedules which satisfy, alone when the best one does. '
     'Post-processing adds to the results, for each schedule which does not satisfy and without partial solution, the one generated under the calendars from its order, modes and (multi-skill) employees first, valued by its makespan, flagged as satisfying if it fits, and changes nothing else. '
     'The search returns every solution of the initial store and of all iterations, also when the first iterations find nothing, and stops after nb_iteration_lns iterations, or more than nb_iteration_no_improvement in a row without strict improvement, or max_time_seconds, or when the first iteration of a search without initial solution proves optimal a schedule which satisfies.',
     ['inputs', 'random choices', 'histories'], 'all schedules of small projects around calendars with gaps, all choices of the constraints left out, all histories of results of the loop up to a bound',
     'No stable test runs an iterative calendar search.',
     [R_ + 'solver/calendar_solver_iterative.py', S_ + 'solvers/calendar_solver_iterative.py'],
     [('calendar constraints', R_ + 'solver/calendar_solver_iterative.py:ConstraintHandlerAddCalendarConstraint'), ('rebuilt schedules', S_ + 'solvers/calendar_solver_iterative.py:PostProcessSolutionNonFeasible'), ('loop', R_ + 'solver/calendar_solver_iterative.py:SolverWithCalendarIterative.solve')],
     'exhaustive exploration of the random choices of the real handlers, the schedules allowed being compared with those of the definition among all schedules; exhaustive histories of results through the real loop',
     'Projects of two tasks, two resources, three employees. The clock and, for the loops, solvers and handlers are simulated; the whole searches run the real ones with Gecode in the place of chuffed, without the usual neighbourhoods.')
prop('C35', 'Solving domains through optimisation problems: schedules, as followed',
     'For every scheduling domain it accepts (single and multi-mode, with costs, calendars, uncertain durations, or skills), DOSolver solves the optimisation problem of the domain with the solver of the method asked (greedy, local search, integer or constraint programme, neighbourhood search by constraint programmes, iterative calendar search) and its own parameters: those given, and by default those of the table of solvers, whatever solvers were made before. '
     'Its best solution is a schedule of the domain: modes of the tasks, precedences, capacities at every date, stocks, employees and skills (for uncertain durations, with durations drawn among the possible ones; under calendars, the iterative search may return one which does not satisfy them). The makespan of the programmes is optimal, that of the neighbourhood search is no later than the greedy one it starts from, and that of the local search no later than that of the schedule in the order of the tasks; the greedy schedule is that of the solver alone with the same choice of rule. '
     'In every state the solver, and the policy it gives, choose the action that its own policy method gives for this solution, also after policies by other methods have been computed from it, each of which follows its own method. Followed by dates, the schedule is reproduced exactly up to the goal when it fits the horizon. '
     'The methods said available for a domain are those which have a solver for its problem, and only they: all but the genetic algorithms on single-skill calendars; all but greedy and neighbourhood search by integer programmes with skills.',
     ['inputs', 'random choices', 'executions'], 'all random choices of the methods on small domains of each kind, all reachable states of the domains, all executions of the policies',
     'No stable test runs this solver.',
     ['skdecide/hub/solver/do_solver/do_solver_scheduling.py', R_ + 'rcpsp_solvers.py', S_ + 'rcpsp_multiskill_solvers.py'],
     [('solver', 'skdecide/hub/solver/do_solver/do_solver_scheduling.py:DOSolver'), ('construction', 'skdecide/hub/solver/do_solver/do_solver_scheduling.py:build_solver'), ('policies', 'skdecide/hub/solver/do_solver/do_solver_scheduling.py:from_solution_to_policy'), ('tables', R_ + 'rcpsp_solvers.py:solvers_compatibility')],
     'exhaustive exploration of the random choices of the real solver, its schedules against the enumeration of all the schedules, its policies in all reachable states and executions against the reference of the domains',
     'Two or three tasks; methods which draw run for one or two iterations, the calendar search within one departure from its first alternatives (thorough: two). Gecode stands for chuffed, an exact solver on scipy for CBC. Not run: the genetic algorithms (populations of 100), the neighbourhood search by integer programmes (its default solver is Gurobi).')
