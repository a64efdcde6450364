From acef8058c9d8fbf5146d8ff88e84a4c28729cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 001/135] fix: make EmptySpace an EnumerableSpace so that
 membership tests answer False instead of raising

---
 skdecide/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index 6ed60c0..c1f4210 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -102,8 +102,8 @@ class EnumerableSpace(Space[T]):
         return x in self.get_elements()
 
 
-class EmptySpace(Space[T]):
-    """A space which elements can be enumerated."""
+class EmptySpace(EnumerableSpace[T]):
+    """A space which has no element."""
 
     def get_elements(self) -> Iterable[T]:
         return ()
-- 
2.43.0


From eafc16aa82592becb557be2d915e0e5fa533527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 002/135] fix: keep appending to the memory of states in
 step(), also for unbounded and one-state histories

---
 skdecide/builders/domain/dynamics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index f85a2d2..80350b3 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -5,7 +5,7 @@
 from __future__ import annotations
 
 import functools
-from typing import Optional
+from typing import Optional, Union
 
 from skdecide.core import D, Distribution, DiscreteDistribution, SingleValueDistribution, TransitionValue, \
     EnvironmentOutcome, TransitionOutcome, autocastable
@@ -75,10 +75,10 @@ class Environment:
         transition_outcome = self._state_step(action)
         next_state = transition_outcome.state
         observation = self._get_observation_distribution(next_state, action).sample()
-        if self._get_memory_maxlen() == 1:
-            self._memory = next_state
-        elif self._get_memory_maxlen() > 1:
+        if self.T_memory != Union:  # Memory of states (possibly unbounded)
             self._memory.append(next_state)
+        elif self._get_memory_maxlen() == 1:
+            self._memory = next_state
         return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
                                   transition_outcome.info)
 
-- 
2.43.0


From e7b0dc64b9b23c93400e70527c4b21dae5bd36f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 003/135] fix: reset the domain in rollout_episode() when no
 starting memory is given

---
 skdecide/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index f5f3e74..c828307 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -306,8 +306,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         # Initialize episode
         solver.reset()
         if from_memory is None:
-            #observation = domain.reset()
-            pass
+            observation = domain.reset()
         else:
             domain.set_memory(from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
-- 
2.43.0


From a7d71774fda0a447289130e8789d9c7af593a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 004/135] fix: restart every rollout episode from the given
 memory instead of from the one grown by previous episodes

---
 skdecide/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index c828307..48c0dc3 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -156,7 +156,8 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
         if from_memory is None:
             observation = domain.reset()
         else:
-            domain.set_memory(from_memory)
+            # each episode starts from its own copy, since the domain appends to its memory of states
+            domain.set_memory(copy.copy(from_memory) if has_memory else from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
             observation = domain.get_observation_distribution(last_state, from_action).sample()
         logger.debug(f'Episode {i_episode + 1} started with following observation:')
@@ -308,7 +309,8 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         if from_memory is None:
             observation = domain.reset()
         else:
-            domain.set_memory(from_memory)
+            # each episode starts from its own copy, since the domain appends to its memory of states
+            domain.set_memory(copy.copy(from_memory) if has_memory else from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
             observation = domain.get_observation_distribution(last_state, from_action).sample()
         if verbose:
-- 
2.43.0


From aa7a275d1e95f49628c12b3dc9da0a7eb261f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 005/135] fix: run and save all the episodes of a saved
 rollout, even within the same second

---
 skdecide/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 48c0dc3..75c9b4c 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -218,6 +218,10 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             now = datetime.datetime.now()
             str_timestamp = now.strftime("%Y%m%dT%H%M%S")
             directory = os.path.join(save_result_directory, str_timestamp)
+            suffix = 0
+            while os.path.exists(directory):  # several episodes can be saved within the same second
+                suffix += 1
+                directory = os.path.join(save_result_directory, f'{str_timestamp}_{suffix}')
             os.mkdir(directory)
             try:
                 with open(os.path.join(directory, 'actions.json'), 'w') as f:
@@ -235,7 +239,8 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             except TypeError:
                 logger.error("Observation is not serializable")
 
-            return directory
+    if save_result_directory is not None:
+        return directory
 
 
 def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] = None,
-- 
2.43.0


From 9a8f34a5248fea014cfda1993484f76003061f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 006/135] fix: let LazyAstar solve problems whose initial state
 already is a goal

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index f090105..4a39fa5 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -85,8 +85,9 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
             if self._verbose:
                 print(curnode, f'- cumulated cost: {dist} - estimated total cost: {estim_total}')
             if self._domain.is_goal(curnode):
-                path = [(parent, label),
-                        (curnode, None)]
+                path = [(curnode, None)]
+                if parent is not None:
+                    path.insert(0, (parent, label))
                 node = parent
                 while node is not None:
                     (parent, label) = explored[node]
-- 
2.43.0


From c94e25d4b51bc1c774900b360cc42b395d7a14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 007/135] fix: forget the values and the plan of the previous
 problem when LazyAstar solves again

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index 4a39fa5..a6b755c 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -37,6 +37,9 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
 
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         self._domain = domain_factory()
+        # forget the results of any previous solving process
+        self._values = {}
+        self._plan = []
 
         def extender(node, label, explored):
             neigh = [(self._domain.get_next_state(node, a), a)
-- 
2.43.0


From 4fe54d27af08acae856edfe62f0e361856cf4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 008/135] fix: report where the LRTAstar policy is defined

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 21d909f..c080d9a 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -26,7 +26,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         return self._policy.get(observation, None)
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        return observation is self._policy
+        return observation in self._policy
 
     def _get_utility(self, observation: D.T_agent[D.T_observation]) -> D.T_value:
         if observation not in self.values:
-- 
2.43.0


From a0cbeedd4292faf47082e562bfe09254ce741ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 009/135] fix: let LRTAstar solve problems whose initial state
 already is a goal

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index c080d9a..47b608d 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -127,5 +127,5 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
             current_roll.append(current_state)
         current_roll_and_action.append((current_state,
                                         {"action": None}))
-        cumulated_reward += self.values[current_state]
+        cumulated_reward += self._get_utility(current_state)
         return dead_end, cumulated_reward, current_roll_and_action, list_action
-- 
2.43.0


From e5ec2d6564eb7eff9a18b7c1eb1eaa75216ecbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 010/135] fix: let SimpleGreedy act when transition values do
 not depend on the next state

---
 skdecide/hub/solver/simple_greedy/simple_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/simple_greedy/simple_greedy.py b/skdecide/hub/solver/simple_greedy/simple_greedy.py
index e92e5dd..5085dcb 100644
--- a/skdecide/hub/solver/simple_greedy/simple_greedy.py
+++ b/skdecide/hub/solver/simple_greedy/simple_greedy.py
@@ -36,7 +36,7 @@ class SimpleGreedy(DeterministicPolicySolver):
                 expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)
                 values.append(expected_value)
         else:
-            values = [domain.get_transition_value(memory, a).reward for a in applicable_actions]
+            values = [domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
         argmax = max(range(len(values)), key=lambda i: values[i])
         return [applicable_actions.get_elements()[argmax]]  # list of action here because we handle Parallel domains
 
-- 
2.43.0


From 7572f72dd42a23744c3b81240c8e225fd43f3071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 011/135] fix: forget the policy of the previous problem when
 LRTAstar solves again

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 47b608d..dccdcd8 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -56,6 +56,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         self._domain = domain_factory()
         self.values = {}
+        self._policy = {}
         iteration = 0
         best_cost = float('inf')
         if self._from_state is None:
-- 
2.43.0


From f0ece11d09e56b52d86440e71b6cc390bc26f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 012/135] fix: make a parallel domain available again when a
 job cannot be sent to it

---
 skdecide/domains.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 80314b4..654790a 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -576,11 +576,14 @@ class PipeParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             self._waiting_jobs[mi].send((function, args))
             return mi
         except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # no job will ever be fetched from that domain
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
@@ -754,6 +757,7 @@ class ShmParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             if isinstance(function, str):  # function is a domain class' method
@@ -790,6 +794,8 @@ class ShmParallelDomain(ParallelDomain):
                 self._conditions[mi].notify_all()
             return mi
         except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # no job will ever be fetched from that domain
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
-- 
2.43.0


From f6e16b34d5f3847fbf4ec335027351e5c710801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 013/135] fix: return no result for a failed job of a shared
 memory parallel domain instead of its arguments

---
 skdecide/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 654790a..cb47e1b 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -692,6 +692,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                     logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
                 else:
                     logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                shm_params[i][:] = [-1] * len(shm_params[i])  # no result (otherwise arguments would be taken for results)
                 if ipc_conn is not None:
                     pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
             with cond:
-- 
2.43.0


From 8c59096f64b60ee871c8e302dff2983064a26e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 014/135] fix: use aligned registers for several results of the
 same type in shared memory parallel domains

---
 skdecide/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index cb47e1b..979c264 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -669,7 +669,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                         res_name = type(r).__name__
                         (start, end) = shm_registers[res_name]
                         if res_name in type_counters:
-                            type_counters[res_name] += 1
+                            type_counters[res_name] += shm_sizes[res_name]
                             k = type_counters[res_name]
                             if (k >= end):
                                 raise IndexError('''No more available register for type {}. 
-- 
2.43.0


From 6a16d11d98b077383a132b3c268dbad347568a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 015/135] fix: choose the first available parallel domain
 atomically

---
 skdecide/domains.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 979c264..40129d5 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -419,10 +419,11 @@ class ParallelDomain:
     def wake_up_domain(self, i=None):
         if i is None:
             while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
+                with self._active_domains.get_lock():  # concurrent requests must not choose the same domain
+                    for j, v in enumerate(self._active_domains):
+                        if not v:
+                            self._active_domains[j] = True
+                            return j
         else:
             self._active_domains[i] = True
             return i
-- 
2.43.0


From af8e85297028c71028e0ff3518a523c413035711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 016/135] fix: do not overwrite the memory with observations in
 rollout_episode() of history-based or partially observable domains

---
 skdecide/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 75c9b4c..af64bfa 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -337,7 +337,8 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
             action = solver.sample_action(observation)
             if action_formatter is not None:
                 logger.debug('Action: {}'.format(action_formatter(action)))
-            domain.set_memory(observations[-1])
+            if not has_memory and isinstance(domain, FullyObservable):  # observations stand for memories only there
+                domain.set_memory(observations[-1])
             outcome = domain.step(action)
             observation = outcome.observation
             observations.append(observation)
-- 
2.43.0


From ef531bdd46b37bbdd312f22751aec939795e95fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 017/135] fix: run all the requested episodes in
 rollout_episode()

---
 skdecide/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index af64bfa..1df8c54 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -308,6 +308,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
     has_render = isinstance(domain, Renderable)
     has_goal = isinstance(domain, Goals)
     has_memory = not isinstance(domain, Markovian)
+    observations, actions, values = [], [], []  # of the last episode
     for i_episode in range(num_episodes):
         # Initialize episode
         solver.reset()
@@ -359,4 +360,4 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         if has_goal and verbose:
             logger.info(f'The goal was{"" if domain.is_goal(observation) else " not"} reached '
                         f'in episode {i_episode + 1}.')
-        return observations, actions, values
+    return observations, actions, values
-- 
2.43.0


From 217cc582d704c23bcaa11b0dfabf60cdd44a17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 018/135] fix: compute the active time of a task which is
 currently paused

---
 skdecide/builders/scheduling/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index c86d367..245fa01 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -41,7 +41,8 @@ class Task:
         time_since_start = tt - self.start
         time_paused = 0
         for i in range(len(self.paused)):
-            time_paused += self.resumed[i] - self.paused[i]
+            resumed = self.resumed[i] if i < len(self.resumed) else tt  # still paused
+            time_paused += resumed - self.paused[i]
         total_active_time = time_since_start - time_paused
         return total_active_time
 
-- 
2.43.0


From 758cc6dbd4e52bfa80ee3567de7c07a4e07c2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 019/135] fix: look up by task whether a paused task gives its
 non-renewable resources back

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 2557166..8a94dea 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -460,7 +460,7 @@ class SchedulingDomain(WithPrecedence,
             for res in next_state.resource_used_for_task[paused_task]:
                 res_consumption = next_state.resource_used_for_task[paused_task][res]
                 if self.is_renewable(res) or (not self.is_renewable(res)
-                                              and self.get_task_paused_non_renewable_resource_returned()[res]):
+                                              and self.get_task_paused_non_renewable_resource_returned()[paused_task]):
                     next_state.resource_used[res] -= res_consumption
             next_state.resource_used_for_task.pop(paused_task)
             next_state.tasks_details[paused_task].paused.append(next_state.t)
-- 
2.43.0


From 4a802b704ec01b2e3054ab9a5bd3d43fa0f25e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 020/135] fix: leave a task paused when the resources to resume
 it are missing, and resume in its previous mode by default

---
 .../builders/scheduling/scheduling_domains.py     | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 8a94dea..5c100da 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -488,13 +488,18 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
-            next_state.tasks_ongoing.add(resumed_task)
-            next_state.tasks_paused.remove(resumed_task)
-            next_state.tasks_details[resumed_task].resumed.append(next_state.t) # Need to call this before get_task_active_time()
-            time_since_start = next_state.tasks_details[resumed_task].get_task_active_time(next_state.t)
-            b, resource_to_use = self.check_if_action_can_be_started(next_state, action=action)
+            b, resource_to_use = self.check_if_action_can_be_started(
+                next_state,
+                action=SchedulingAction(task=resumed_task,
+                                        action=action.action,
+                                        mode=mode,
+                                        time_progress=action.time_progress,
+                                        resource_unit_names=action.resource_unit_names))
             if not b:
                 return next_state
+            next_state.tasks_ongoing.add(resumed_task)
+            next_state.tasks_paused.remove(resumed_task)
+            next_state.tasks_details[resumed_task].resumed.append(next_state.t)
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
-- 
2.43.0


From fec0ac50b15f2f434cbba421b51954ac8da224ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 021/135] fix: offer to resume only the paused tasks whose
 resources are available, in the mode they were started in

---
 .../builders/scheduling/scheduling_domains.py     | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 5c100da..49cc01e 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -681,19 +681,16 @@ class SchedulingDomain(WithPrecedence,
                 for n, mode in possible_task_with_ressource}
 
     def get_possible_resume_tasks(self, state: State):
-        possible_task_precedence = [(n, mode)
-                                    for n in state.tasks_paused
-                                    for mode in self.get_task_modes(n).keys()
-                                    if all(m in state.tasks_complete
-                                           for m in self.ancestors[n])]
-        # print("Possible task precedence : ", possible_task_precedence)
+        # a paused task already met its precedence constraints, and goes on in the mode it was started in
+        paused_tasks = [(n, state.tasks_mode[n]) for n in state.tasks_paused]
         possible_task_with_ressource = [(n, mode)
-                                        for n, mode in possible_task_precedence
+                                        for n, mode in paused_tasks
                                         if all(state.resource_availability[key] -
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=state.tasks_details[n]
+                                                                          .get_task_active_time(state.t)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
@@ -924,7 +921,7 @@ class SchedulingActionSpace(EnumerableSpace[SchedulingAction], SamplableSpace[Sc
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
                 list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME,
                                                  mode=self.state.tasks_mode[t],
                                                  time_progress=False)
-- 
2.43.0


From 33e1f511b1b2685c1d52019279b9f49e32c33616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 022/135] fix: check the resources needed to start a task from
 its own start rather than from the current date

---
 skdecide/builders/scheduling/scheduling_domains.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 49cc01e..9e652b5 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -673,8 +673,7 @@ class SchedulingDomain(WithPrecedence,
                                         if all(state.resource_availability[key] -
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
-                                               .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                               .get_resource_need_at_time(resource_name=key, time=0) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-- 
2.43.0


From 8d9cee72bc28deb1eff91512b09ae999987229b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 023/135] fix: do not look for the resource consumption of a
 task beyond its completion

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 9e652b5..d7e334b 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -234,8 +234,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress(next_state)
-            next_state = self.update_res_consumption(next_state)
             next_state = self.update_complete_tasks(next_state)
+            next_state = self.update_res_consumption(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -244,8 +244,8 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.time_progress:
             next_states = self.update_progress_uncertain(next_states)
-            next_states = self.update_res_consumption_uncertain(next_states)
             next_states = self.update_complete_tasks_uncertain(next_states)
+            next_states = self.update_res_consumption_uncertain(next_states)
             for next_state, _ in next_states.get_values():
                 next_state.t = next_state.t+1
         return next_states
@@ -256,8 +256,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress_simulation(next_state)
-            next_state = self.update_res_consumption_simulation(next_state)
             next_state = self.update_complete_tasks_simulation(next_state)
+            next_state = self.update_res_consumption_simulation(next_state)
             next_state.t = state.t+1
         return next_state
 
-- 
2.43.0


From 222f7c3840bfc7d9874d9cad9c0212dad39e9a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 024/135] fix: give back the renewable resources of tasks of
 zero duration

---
 skdecide/builders/scheduling/scheduling_domains.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index d7e334b..219b5df 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -425,7 +425,9 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_progress[task] = 1
                 next_state.tasks_ongoing.remove(task)
                 next_state.tasks_details[task].end = next_state.t
-                next_state.resource_used_for_task.pop(task)
+                for res, res_consumption in next_state.resource_used_for_task.pop(task).items():
+                    if self.is_renewable(res):
+                        next_state.resource_used[res] -= res_consumption
         return next_state
 
     def update_complete_dummy_tasks_uncertain(self, states: DiscreteDistribution[State], action: SchedulingAction):
@@ -440,7 +442,9 @@ class SchedulingDomain(WithPrecedence,
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
-                    next_state.resource_used_for_task.pop(task)
+                    for res, res_consumption in next_state.resource_used_for_task.pop(task).items():
+                        if self.is_renewable(res):
+                            next_state.resource_used[res] -= res_consumption
         return next_states
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
-- 
2.43.0


From c7429b52fd0259ee261aa9ebebe58e1c7fb4bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 025/135] fix: record the resources of tasks started with an
 uncertain duration, separately in each outcome

---
 skdecide/builders/scheduling/scheduling_domains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 219b5df..6d22a7b 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -625,10 +625,11 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_ongoing.add(started_task)
                 next_state.tasks_remaining.remove(started_task)
                 next_state.tasks_details[started_task].start = next_state.t
+                next_state.tasks_details[started_task].resources = dict(resource_to_use)
                 next_state.tasks_details[started_task].sampled_duration = value_duration[0]
                 for res in resource_to_use:
                     next_state.resource_used[res] += resource_to_use[res]
-                next_state.resource_used_for_task[started_task] = resource_to_use
+                next_state.resource_used_for_task[started_task] = dict(resource_to_use)
                 next_state.tasks_progress[started_task] = 0.
 
                 states_and_proba += [(next_state, value_duration[1])]
-- 
2.43.0


From 341acb61822c3a663d03bf10d8b1eeb14981e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 026/135] fix: keep the probabilities of the outcomes in which
 tasks complete

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 6d22a7b..6148251 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -360,7 +360,7 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
         states_and_proba = []
-        for next_state, _ in next_states.get_values():
+        for next_state, state_proba in next_states.get_values():
             completed_tmp = []
             for task_id in next_state.tasks_ongoing:
                 if next_state.tasks_progress[task_id] >= 0.9999:
@@ -400,7 +400,7 @@ class SchedulingDomain(WithPrecedence,
             for comb in combinations:
                 do_copy = len(comb) > 0
                 next_state_2 = next_state.copy() if do_copy else next_state
-                proba = 1.
+                proba = state_proba
                 for i in comb:
                     next_state_2._current_conditions.add(all_values[i]['cond'])
                     proba *= all_values[i]['prob']
-- 
2.43.0


From 6fbd21b0555840ce71bcff01b3e22cef5d1f2911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 027/135] fix: draw every condition distribution of a completed
 task, rather than only one of them

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 6148251..f886015 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -379,15 +379,15 @@ class SchedulingDomain(WithPrecedence,
                 next_state.resource_used_for_task.pop(completed_task)
                 next_state.tasks_details[completed_task].end = next_state.t+1  # WARNING : considering how it's coded, we should put +1 here.
                 if completed_task in self.get_task_on_completion_added_conditions():
-                    all_models[completed_task] = []
                     for i in range(len(self.get_task_on_completion_added_conditions()[completed_task])):
+                        all_models[(completed_task, i)] = []
                         for j in range(len(self.get_task_on_completion_added_conditions()[completed_task][i].get_values())):
                             all_values.append({'task': completed_task,
                                                'cond': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][0],
                                                'prob': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][1]})
-                            all_models[completed_task].append(len(all_values)-1)
+                            all_models[(completed_task, i)].append(len(all_values)-1)
 
             combinations = list(product(*all_models.values()))
             # for comb in combinations:
-- 
2.43.0


From 7fd6e641bed0e3521227294dbacc39c4ec4d1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 028/135] fix: enforce the precedence constraints that go
 through conditional tasks which are not needed so far

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index f886015..45eec4d 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -649,7 +649,7 @@ class SchedulingDomain(WithPrecedence,
                                     for n in state.tasks_remaining
                                     for mode in self.get_task_modes(n).keys()
                                     if all(m in state.tasks_complete
-                                           for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
+                                           for m in set(self.full_predecessors[n]).intersection(self.get_available_tasks(state)))]
 
         # possible_task_precedence = [(n, mode)
         #                             for n in state.tasks_remaining
-- 
2.43.0


From 2e6b0bbb26b3c29863893473a48e4d68b7c2ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 029/135] fix: add the conditional tasks as soon as their
 conditions hold, before the goal is checked

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 45eec4d..c7ab5a7 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -95,8 +95,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_simulation(next_state, action)
         next_state = self.update_start_tasks_simulation(next_state, action)
         next_state = self.update_complete_dummy_tasks_simulation(next_state, action)
-        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_time_simulation(next_state, action)
+        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_resource_availability_simulation(next_state,
                                                                   action)
         is_terminal = self._is_terminal(next_state)
@@ -117,8 +117,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_start_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_complete_dummy_tasks_uncertain(next_state_distrib, action)
-        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_time_uncertain(next_state_distrib, action)
+        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_resource_availability_uncertain(next_state_distrib,
                                                                          action)  # maybe this should be done after self.update_time too ??
         return next_state_distrib
@@ -135,8 +135,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks(next_state, action)
         next_state = self.update_start_tasks(next_state, action)
         next_state = self.update_complete_dummy_tasks(next_state, action)
-        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_time(next_state, action)
+        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_resource_availability(next_state, action)  # maybe this should be done after self.update_time too ??
 
         return next_state
-- 
2.43.0


From 5a650bb12bd673b9b0bb54e5d0b31ae075eb377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 030/135] fix: draw the conditions added by tasks of zero
 duration

---
 .../builders/scheduling/scheduling_domains.py | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index c7ab5a7..51eb741 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -436,7 +436,9 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.action == SchedulingActionEnum.START:
             task = action.task
-            for next_state, _ in next_states.get_values():
+            states_and_proba = []
+            for next_state, state_proba in next_states.get_values():
+                states_with_conditions = [(next_state, state_proba)]
                 if next_state.tasks_details[task].sampled_duration == 0:
                     next_state.tasks_complete.add(task)
                     next_state.tasks_progress[task] = 1
@@ -445,12 +447,23 @@ class SchedulingDomain(WithPrecedence,
                     for res, res_consumption in next_state.resource_used_for_task.pop(task).items():
                         if self.is_renewable(res):
                             next_state.resource_used[res] -= res_consumption
+                    for conditions in self.get_task_on_completion_added_conditions().get(task, []):
+                        branches = []
+                        for s, proba in states_with_conditions:
+                            for condition, condition_proba in conditions.get_values():
+                                s2 = s.copy()
+                                s2._current_conditions.add(condition)
+                                branches.append((s2, proba * condition_proba))
+                        states_with_conditions = branches
+                states_and_proba += states_with_conditions
+            next_states = DiscreteDistribution(states_and_proba)
         return next_states
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
         """In a simulated scheduling environment, update the status of newly started tasks whose duration is 0
         from ongoing to complete."""
-        return self.update_complete_dummy_tasks(state, action)
+        return self.update_complete_dummy_tasks_uncertain(
+            states=DiscreteDistribution([(state, 1.)]), action=action).sample()
 
     def update_pause_tasks(self, state: State, action: SchedulingAction):
         """Update the status of a task from ongoing to paused if specified in the action
@@ -749,15 +762,13 @@ class SchedulingDomain(WithPrecedence,
         """Update remaining tasks by checking conditions and potentially adding conditional tasks."""
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
-        if action.time_progress:
-            for next_state, _ in next_states.get_values():
-                all_available_tasks = self.get_available_tasks(next_state)
-                all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
-                    next_state.tasks_progress).union(next_state.tasks_complete)
-                new_tasks = all_available_tasks.symmetric_difference(all_considered_tasks)
-                for task in new_tasks:
-                    next_state.tasks_remaining.add(task)
-            return next_states
+        for next_state, _ in next_states.get_values():
+            all_available_tasks = self.get_available_tasks(next_state)
+            all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
+                next_state.tasks_progress).union(next_state.tasks_complete)
+            new_tasks = all_available_tasks.symmetric_difference(all_considered_tasks)
+            for task in new_tasks:
+                next_state.tasks_remaining.add(task)
         return next_states
 
     def update_conditional_tasks_simulation(self, state: State, action: SchedulingAction):
-- 
2.43.0


From ed0cfa2d79cf6fa7f426a97ac2bd59ab258ae27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 031/135] fix: compute the cost of non-renewable resources from
 the previous state

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 51eb741..e86c3d5 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -801,14 +801,14 @@ class SchedulingDomain(WithPrecedence,
                 if self.is_renewable(res):
                     renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
                     renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
 
         # TODO: Handle more than 1 objective in the transition value (need weights ?)
-- 
2.43.0


From 57be780b0c77fc3b981b9332413113ba51fcf3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 032/135] fix: charge renewable resources per time unit instead
 of once per action

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index e86c3d5..777f3fe 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -795,18 +795,20 @@ class SchedulingDomain(WithPrecedence,
             mode_cost_val = 0.
             if action.action == SchedulingActionEnum.START:
                 mode_cost_val += self.get_mode_costs()[action.task][action.mode]
+            # a resource is paid per time unit: what was used since the previous state, for the time spent since then
+            elapsed_time = next_state.t - memory.t
             renewable_type_cost_val = 0.
             nonrenewable_type_cost_val = 0.
             for res in self.get_resource_types_names():
                 if self.is_renewable(res):
-                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * memory.resource_used[res] * elapsed_time
                 else:
                     nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
-                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * memory.resource_used[res] * elapsed_time
                 else:
                     nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
-- 
2.43.0


From 1d3dd9214682afac12f104b9c5a3e0a6a8fec107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 033/135] fix: resume, rather than start, the paused tasks of
 domains with resource units

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 777f3fe..455127a 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -1000,7 +1000,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
 
                 for possible_to_resume in task_possible_to_resume:
                     possible = self.domain.find_one_ressource_to_do_one_task(task=possible_to_resume,
@@ -1008,7 +1008,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                                                              self.state.tasks_mode[possible_to_resume])
 
                     list_action += [SchedulingAction(task=possible_to_resume,
-                                                     action=SchedulingActionEnum.START,
+                                                     action=SchedulingActionEnum.RESUME,
                                                      mode=self.state.tasks_mode[possible_to_resume],
                                                      time_progress=False,
                                                      resource_unit_names={r} if r is not None else None)
-- 
2.43.0


From 777c1ac351ff67d32f30b5d54ddce32f1445e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 034/135] fix: do not count the skills of resources which are
 not used

---
 skdecide/builders/scheduling/skills.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/scheduling/skills.py b/skdecide/builders/scheduling/skills.py
index 23cdb50..33d067e 100644
--- a/skdecide/builders/scheduling/skills.py
+++ b/skdecide/builders/scheduling/skills.py
@@ -80,6 +80,8 @@ class WithResourceSkills:
             return True  # No need of skills here.
         skills = {s: 0 for s in skill_of_task}
         for r in resource_used:
+            if resource_used[r] == 0:
+                continue  # this resource is not used
             skill_of_ressource = self.get_skills_of_resource(resource=r)
             for s in skill_of_ressource:
                 if s in skills:
-- 
2.43.0


From 5627753b2e8152f99f9adac03817448a98e24cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 035/135] fix: make MinimumOnlyTimeLag usable

---
 skdecide/builders/scheduling/time_lag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/time_lag.py b/skdecide/builders/scheduling/time_lag.py
index 83e71d8..e9aa0e8 100644
--- a/skdecide/builders/scheduling/time_lag.py
+++ b/skdecide/builders/scheduling/time_lag.py
@@ -17,7 +17,7 @@ class MinimumOnlyTimeLag(TimeLag):
 
     def __init__(self, minimum_time_lag):
         self.minimum_time_lag = minimum_time_lag
-        self.maximum_time_lags = self.get_max_horizon()
+        self.maximum_time_lags = float('inf')
 
 
 class MaximumOnlyTimeLag(TimeLag):
-- 
2.43.0


From 841e28ed65806e5530ca2c9415a5ac69961fa1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 036/135] fix: make equal scheduling states equal whatever the
 order in which tasks were handled

---
 .../scheduling/scheduling_domains_modelling.py        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains_modelling.py b/skdecide/builders/scheduling/scheduling_domains_modelling.py
index 925823a..8b483db 100644
--- a/skdecide/builders/scheduling/scheduling_domains_modelling.py
+++ b/skdecide/builders/scheduling/scheduling_domains_modelling.py
@@ -19,6 +19,15 @@ class SchedulingActionEnum(Enum):
     TIME_PR = 3
 
 
+def _ordered(value):
+    """Order sets and dictionaries, such that equal ones are printed (hence hashed and compared) the same."""
+    if isinstance(value, (set, frozenset)):
+        return sorted((_ordered(v) for v in value), key=str)
+    if isinstance(value, dict):
+        return {k: _ordered(value[k]) for k in sorted(value, key=str)}
+    return value
+
+
 class State:
     """Class modelling a scheduling state and used by sk-decide scheduling domains.
 
@@ -119,7 +128,7 @@ class State:
                 for key2 in sorted(self.tasks_details.keys()):
                     s += str(self.tasks_details[key2])+"\t"
             else:
-                s += str(key)+":"+str(getattr(self, key))+"\n"
+                s += str(key)+":"+str(_ordered(getattr(self, key)))+"\n"
         return s
 
     def __repr__(self):
-- 
2.43.0


From f93dad5dcefb72c3f03844be55845549cd49c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:05 +0000
Subject: [PATCH 037/135] fix: offer all the modes in which a task can be
 started instead of the last one

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 455127a..6008dbe 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -694,8 +694,10 @@ class SchedulingDomain(WithPrecedence,
                                                .get_resource_need_at_time(resource_name=key, time=0) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible = {}
+        for n, mode in possible_task_with_ressource:
+            possible.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible
 
     def get_possible_resume_tasks(self, state: State):
         # a paused task already met its precedence constraints, and goes on in the mode it was started in
-- 
2.43.0


From 64a2de684436ea4d0ddfc7db00d2239407da699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:55 +0000
Subject: [PATCH 038/135] fix: allocate resource units only, rather than
 resource types with skills, as resource units of a task

---
 skdecide/builders/scheduling/scheduling_domains.py | 13 ++++++++++---
 skdecide/builders/scheduling/skills.py             |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 6008dbe..a6b8946 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -1066,10 +1066,17 @@ class SchedulingActionSpaceWithResourceUnitSamplable(SamplableSpace[SchedulingAc
                                             action=random_choice,
                                             mode=mode,
                                             time_progress=False)
-                resources_skills = list(self.domain.get_all_resources_skills().keys())
+                resource_units = set(self.domain.get_resource_units_names())
+                resources_skills = [r for r in self.domain.get_all_resources_skills().keys() if r in resource_units]
                 random.shuffle(resources_skills)
-                cur_usage = {s: 0 for s in skill_of_task}
-                success = False
+                # the resource types used by the task may bring skills as well
+                types_used = [r for r in self.domain.get_resource_types_names()
+                              if self.domain.get_task_consumption(possible_to_start, mode, r, 0) > 0]
+                cur_usage = {s: sum(self.domain.get_skills_of_resource(resource=r).get(s, 0) for r in types_used)
+                             for s in skill_of_task}
+                success = all(cur_usage[s] >= skill_of_task[s] for s in skill_of_task)
+                if success:
+                    resources_skills = []
                 for resource in resources_skills:
                     if self.state.resource_used[resource]+1 > self.state.resource_availability[resource]:
                         continue
diff --git a/skdecide/builders/scheduling/skills.py b/skdecide/builders/scheduling/skills.py
index 33d067e..33746b3 100644
--- a/skdecide/builders/scheduling/skills.py
+++ b/skdecide/builders/scheduling/skills.py
@@ -67,8 +67,9 @@ class WithResourceSkills:
         resources = []
         if len(skill_of_task) == 0:
             return [None]
+        resource_units = set(self.get_resource_units_names())
         for resource in self.get_all_resources_skills():
-            if all(self.get_skills_of_resource(resource=resource).get(s, 0) >= skill_of_task[s]
+            if resource in resource_units and all(self.get_skills_of_resource(resource=resource).get(s, 0) >= skill_of_task[s]
                    for s in skill_of_task):
                 resources += [resource]
         # print("Ressources ", resources, " can do the task")
-- 
2.43.0


From c467e6ea81ffafe998bb682373b16568d900b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 039/135] fix: start every episode of an in-place scheduling
 domain from its initial state

---
 skdecide/builders/scheduling/scheduling_domains.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a6b8946..dc4b060 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -141,6 +141,11 @@ class SchedulingDomain(WithPrecedence,
 
         return next_state
 
+    def _get_initial_state(self) -> D.T_state:
+        # the initial state is computed once: do not let an in-place environment modify it
+        initial_state = super()._get_initial_state()
+        return initial_state.copy() if self.inplace_environment else initial_state
+
     def _get_initial_state_(self) -> D.T_state:
         """
         Create and return an empty initial state
-- 
2.43.0


From 1d278405f7ddba5be4badfc980fac04b00afcc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 040/135] fix: include the scores of complete guesses in the
 observation space of MasterMind

---
 skdecide/hub/domain/mastermind/mastermind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/mastermind/mastermind.py b/skdecide/hub/domain/mastermind/mastermind.py
index 6f36ade..c3d2d46 100644
--- a/skdecide/hub/domain/mastermind/mastermind.py
+++ b/skdecide/hub/domain/mastermind/mastermind.py
@@ -81,7 +81,7 @@ class MasterMind(D):
         return self._calc_score(state, action)
 
     def _get_observation_space_(self) -> D.T_agent[Space[D.T_observation]]:
-        return MultiDiscreteSpace([self._n_positions, self._n_positions])
+        return MultiDiscreteSpace([self._n_positions + 1, self._n_positions + 1])  # from 0 to n_positions included
 
     def _list_hidden_solutions(self):
         """Return a list of all possible hidden solutions (n_colours ** n_positions)."""
-- 
2.43.0


From 022ce2b2052b10ae49042d34ca57c27603087e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 041/135] fix: let DataSpace contain its elements that have
 fields in a Box of single precision floats

---
 skdecide/hub/space/gym/gym.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/space/gym/gym.py b/skdecide/hub/space/gym/gym.py
index 5c30994..6562577 100644
--- a/skdecide/hub/space/gym/gym.py
+++ b/skdecide/hub/space/gym/gym.py
@@ -254,10 +254,11 @@ class DataSpace(GymSpace[T]):
         super().__init__(gym_space)
 
     def contains(self, x: T) -> bool:
-        # works even when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar)
+        # does not work with all versions of Gym when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar)
+        if super().contains(asdict(x)):
+            return True
+        # works even when fields of the dataclass have been recast, but loses the type of arrays (e.g. float32)
         return super().contains(super().from_jsonable(self.to_jsonable([x]))[0])
-        # # bug: does not work when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar)
-        # return super().contains(asdict(x))
 
     def sample(self) -> T:
         # TODO: convert to simple types (get rid of ndarray created by gym dict space...)?
-- 
2.43.0


From 4e5534b4f4f63a8107b28e132cd88ffa8daeef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 042/135] fix: count the binary features of Gym states, and
 encode those of dictionaries and of -0.0

---
 skdecide/hub/domain/gym/gym.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 7ba20a0..093d02a 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -439,10 +439,8 @@ class GymWidthDomain:
     def nb_of_binary_features(self) -> int:
         """Return the size of the bit vector encoding an observation
         """
-        return self._binary_features(self._gym_env.observation_space,
-                                                self._gym_env.observation_space.sample(),
-                                                0,
-                                                lambda i: None)
+        return len(self._binary_features(self._gym_env.observation_space,
+                                         self._gym_env.observation_space.sample()))
 
     def binary_features(self, memory: D.T_memory[D.T_state]):
         """Transform state in a bit vector and call f on each true value of this vector
@@ -462,8 +460,8 @@ class GymWidthDomain:
             # compute the size of the bit vector encoding the largest float
             maxlen = len(bin(struct.unpack('!i', struct.pack('!f', float('inf')))[0])[2:])
             for cell in np.nditer(element):
-                # convert float to string of 1s and 0s
-                float_bin = bin(struct.unpack('!i', struct.pack('!f', cell))[0])
+                # convert float to string of 1s and 0s (adding 0 turns -0.0 into 0.0)
+                float_bin = bin(struct.unpack('!i', struct.pack('!f', cell + 0.0))[0])
                 # the sign of the float is encoded in the first bit in our translation
                 if float_bin[0] == '-':
                     features.append(True)
@@ -509,7 +507,7 @@ class GymWidthDomain:
             return features
         elif isinstance(space, gym.spaces.dict.Dict):
             features = []
-            for k, v in space.spaces:
+            for k, v in space.spaces.items():
                 l = self._binary_features(v, element[k])
                 features += l
             return features
-- 
2.43.0


From f8a18804c8d1917f3c99d21b3411624c48d1118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 043/135] fix: compute the width features of Gym states with
 dictionaries or discrete variables

---
 skdecide/hub/domain/gym/gym.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 093d02a..557410a 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -279,9 +279,10 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee1_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee1_features(s, state[k])
-        else:
+        elif not isinstance(space, (gym.spaces.discrete.Discrete, gym.spaces.multi_discrete.MultiDiscrete,
+                                    gym.spaces.multi_binary.MultiBinary)):  # these have no continuous variables
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
     def bee1_features(self, state):
@@ -391,9 +392,10 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee2_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee2_features(s, state[k])
-        else:
+        elif not isinstance(space, (gym.spaces.discrete.Discrete, gym.spaces.multi_discrete.MultiDiscrete,
+                                    gym.spaces.multi_binary.MultiBinary)):  # these have no continuous variables
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
     def bee2_features(self, state):
@@ -578,7 +580,7 @@ class GymWidthDomain:
         elif isinstance(space, gym.spaces.dict.Dict):
             var = []
             for k in space.spaces.keys():
-                index, l = self._get_variables(space.spaces[k], element[k])
+                l = self._get_variables(space.spaces[k], element[k])
                 var += l
             return var
         else:
-- 
2.43.0


From fbc471f94b94b435f20d32aacc1f0b7191ea4b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 044/135] fix: discretize all the variables of Gym boxes,
 binary vectors and dictionaries of actions

---
 skdecide/hub/domain/gym/gym.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 557410a..0e11d83 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -614,15 +614,12 @@ class GymDiscreteActionDomain(UnrestrictedActions):
     
     def _discretize_action_space(self, action_space: gym.spaces.Space) -> D.T_agent[Space[D.T_event]]:
         if isinstance(action_space, gym.spaces.box.Box):
-            nb_elements = 1
-            for dim in action_space.shape:
-                nb_elements *= dim
             actions = []
             for l, h in np.nditer([action_space.low, action_space.high]):
                 if l == -float('inf') or h == float('inf'):
                     actions.append([gym.spaces.box.Box(low=l, high=h).sample() for i in range(self._discretization_factor)])
                 else:
-                    actions.append([l + ((h-l)/(self._discretization_factor - 1))*i for i in range(self._discretization_factor)])
+                    actions.append([min(l + ((h-l)/max(self._discretization_factor - 1, 1))*i, h) for i in range(self._discretization_factor)])
             alist = []
             self._generate_box_action_combinations(actions, action_space.shape, action_space.dtype, 0, [], alist)
             return ListSpace(alist)
@@ -635,7 +632,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.multi_binary.MultiBinary):
             generate = lambda d: ([[e] + g for e in [True, False] for g in generate(d+1)]
-                                  if d < len(action_space.n)-1 else
+                                  if d < action_space.n-1 else
                                   [[e] for e in [True, False]])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.tuple.Tuple):
@@ -644,10 +641,11 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                                   [[e] for e in self._discretize_action_space(action_space.spaces[d]).get_elements()])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.dict.Dict):
-            dkeys = action_space.spaces.keys()
+            dkeys = list(action_space.spaces.keys())
             generate = lambda d: ([[e] + g for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
                                   if d < len(dkeys)-1 else
                                   [[e] for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+            return ListSpace([dict(zip(dkeys, g)) for g in generate(0)])
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(action_space)))
     
@@ -658,16 +656,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 clist.append(a)
                 self._generate_box_action_combinations(actions, shape, dtype, index+1, clist, rlist)
         else:
-            ar = np.ndarray(shape=shape, dtype=dtype)
-            if len(shape) == 1:
-                ar[0] = alist[0]
-            else:
-                k = 0
-                for i, in np.nditer(ar, op_flags=['readwrite']):
-                    print(str(i))
-                    i = alist[k]
-                    k += 1
-            rlist += [ar]
+            rlist += [np.array(alist, dtype=dtype).reshape(shape)]
 
 
 class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
-- 
2.43.0


From fdaa4beb016175646f153fbd893b36ceaa2987fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 045/135] fix: let GymPlanningDomain compare multi-discrete
 observations

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 0e11d83..4b95bbd 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -752,7 +752,7 @@ class DeterministicGymDomain(D):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.discrete.Discrete):
             return e1 == e2
-        elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
+        elif isinstance(space, (gym.spaces.multi_binary.MultiBinary, gym.spaces.multi_discrete.MultiDiscrete)):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.tuple.Tuple):
             assert len(e1) == len(e2) == len(space)
-- 
2.43.0


From f360aace52607aa560848dfea581aa29d14c4b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 046/135] fix: return observations of the announced observation
 space when resetting a domain wrapped as a Gym environment

---
 skdecide/hub/domain/gym/gym.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 4b95bbd..4f8a19c 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -908,9 +908,10 @@ class AsGymEnv(gym.Env):
         - done (boolean): Whether the episode ended, in which case further step() calls will return undefined results.
         - info (dict): Contains auxiliary diagnostic information (helpful for debugging, and sometimes learning).
         """
-        action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
+        if self._unwrap_spaces:
+            action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
         outcome = self._domain.step(action)
-        outcome_observation = next(iter(self._domain.get_observation_space().to_unwrapped([outcome.observation])))
+        outcome_observation = self._unwrap_observation(outcome.observation)
         # Some solvers dealing with OpenAI Gym environments crash when info is None (e.g. baselines solver)
         outcome_info = outcome.info if outcome.info is not None else {}
         return outcome_observation, outcome.value.reward, outcome.termination, outcome_info
@@ -921,7 +922,12 @@ class AsGymEnv(gym.Env):
         # Returns
         observation (object): The initial observation of the space.
         """
-        return self._domain.reset()
+        return self._unwrap_observation(self._domain.reset())
+
+    def _unwrap_observation(self, observation):
+        if self._unwrap_spaces:
+            return next(iter(self._domain.get_observation_space().to_unwrapped([observation])))
+        return observation
 
     def render(self, mode='human'):
         """Render the environment.
-- 
2.43.0


From c221394e9873a5c91943128d157e66c5a5311cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 047/135] fix: look up the current state, which is the memory
 of a Markovian domain, in GraphDomain

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c8e2be1..73c0e02 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -133,13 +133,13 @@ class GraphDomain(Domain,
         self.attribute_weight = attribute_weight
 
     def _get_next_state(self, memory: D.T_memory[D.T_state], event: D.T_event) -> D.T_state:
-        return self.next_state_map[memory[-1]][event]
+        return self.next_state_map[memory][event]
 
     def _get_transition_value(self, memory: D.T_memory[D.T_state],
                               event: D.T_event,
                               next_state: Optional[D.T_state] = None) \
             -> TransitionValue[D.T_value]:
-        return TransitionValue(cost=self.next_state_attributes[memory[-1]][event][self.attribute_weight])
+        return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])
 
     def is_terminal(self, state: D.T_state) -> bool:
         return state in self.targets
@@ -148,7 +148,7 @@ class GraphDomain(Domain,
         return ImplicitSpace(lambda x: True)
 
     def _get_applicable_actions_from(self, memory: D.T_memory[D.T_state])-> Space[D.T_event]:
-        return ActionSpace(list(self.next_state_map[memory[-1]].keys()))
+        return ActionSpace(list(self.next_state_map[memory].keys()))
 
     def _get_goals_(self) -> Space[D.T_observation]:
         return ImplicitSpace(lambda x: (x in self.targets))
-- 
2.43.0


From d8ae89f50d2e97099b9c4020325dd66d0e7d13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 048/135] fix: tell which actions are applicable in graph
 domains

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 73c0e02..120b759 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -14,7 +14,7 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
         return random.choice(self.l)
 
     def contains(self, x: T) -> bool:
-        pass
+        return x in self.l
 
     def __init__(self, l: List[object]):
         self.l = l
-- 
2.43.0


From 956d3e87df7c6acd21a3d3d2bd4808b9d773139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 049/135] fix: return the distribution of next states in
 GraphDomainUncertain rather than one of its elements

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 120b759..3f1e384 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -2,7 +2,8 @@ from __future__ import annotations
 import matplotlib.pyplot as plt
 from collections import defaultdict
 from typing import Any, Dict, List, Iterable, Optional, Union, Tuple
-from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution
+from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution, \
+    DiscreteDistribution
 import random
 from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
     FullyObservable, PositiveCosts, UncertainTransitions
@@ -93,7 +94,7 @@ class GraphDomainUncertain(Domain,
                                      action: D.T_agent[D.T_concurrency[D.T_event]]) -> Distribution[D.T_state]:
         possible_states = [(s, self.next_state_map[memory][action][s][0])
                            for s in self.next_state_map[memory][action]]
-        return random.choices(possible_states, weights=[p[1] for p in possible_states], k=1)[0]
+        return DiscreteDistribution(possible_states)
 
 
 
-- 
2.43.0


From 0a174c63da12cef0542d67ba0e88b6e24b0ebc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 050/135] fix: keep the transitions to states already seen when
 exploring uncertain domains, and explore without limits by default

---
 .../DFS_Uncertain_Exploration.py              | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 8269fed..d0343b4 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -17,6 +17,7 @@ class DFSExploration(GraphExploration):
         self.domain = domain
         self.score_function = score_function
         self.c = count()
+        self.tie_breaker = count()  # states may not be comparable
         if score_function is None:
             self.score_function = lambda s: (next(self.c))
         self.max_edges = max_edges
@@ -29,6 +30,7 @@ class DFSExploration(GraphExploration):
         else:
             initial_state = init_state
         stack = [(self.score_function(initial_state),
+                  next(self.tie_breaker),
                   initial_state)]
         domain = self.domain
         goal_states = set()
@@ -47,7 +49,7 @@ class DFSExploration(GraphExploration):
             if not len(result) % 100 and len(result) > nb_states:
                 print("Expanded {} states.".format(len(result)))
                 nb_states = len(result)
-            tuple, s = heappop(stack)
+            _, _, s = heappop(stack)
             if s not in state_to_ind:
                 state_to_ind[s] = num_s
                 num_s += 1
@@ -65,18 +67,20 @@ class DFSExploration(GraphExploration):
                         next_state_map[s] = {}
                     if action not in next_state_map[s]:
                         next_state_map[s][action] = {}
-                    if prob != 0 and succ not in result:
-                        nb_states += 1
+                    if prob != 0:
                         nb_edges += 1
-                        result.add(succ)
-                        heappush(stack, (self.score_function(succ),
-                                         succ))
                         cost = domain.get_transition_value(s, action, succ)
                         next_state_map[s][action][succ] = (prob, cost.cost)
-                        state_goal[succ] = domain.is_goal(succ)
-                        state_terminal[succ] = domain.is_terminal(succ)
-            if (nb_states > self.max_nodes) \
-                or (nb_edges > self.max_edges):
+                        if succ not in result:
+                            nb_states += 1
+                            result.add(succ)
+                            heappush(stack, (self.score_function(succ),
+                                             next(self.tie_breaker),
+                                             succ))
+                            state_goal[succ] = domain.is_goal(succ)
+                            state_terminal[succ] = domain.is_terminal(succ)
+            if (self.max_nodes is not None and nb_states > self.max_nodes) \
+                or (self.max_edges is not None and nb_edges > self.max_edges):
                 break
         return GraphDomainUncertain(next_state_map=next_state_map,
                                     state_terminal=state_terminal,
-- 
2.43.0


From a9c788d2ec66a110e54f8a4b55a13b8202d0a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 051/135] fix: explore the whole graph of deterministic
 domains, with its goals and costs

---
 .../solver/graph_explorer/DFSExploration.py   | 12 +++++++-----
 .../graph_explorer/FullSpaceExploration.py    | 19 +++++++++++--------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index cb7077b..c1e9144 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -2,7 +2,7 @@ from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain
 from skdecide.hub.solver.graph_explorer.GraphExploration import GraphExploration
 
 
-from skdecide import DeterministicPlanningDomain, Memory
+from skdecide import DeterministicPlanningDomain
 from typing import Any
 
 
@@ -38,7 +38,7 @@ class DFSExploration(GraphExploration):
             (vertex, path) = stack.pop()
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
-                next = self.domain.get_next_state(Memory([vertex]), action)
+                next = self.domain.get_next_state(vertex, action)
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 else:
@@ -63,11 +63,13 @@ class DFSExploration(GraphExploration):
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
                     nb_nodes += 1
-            if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
-               or (nb_edges > self.max_edges and nb_path >= 1):
+            if (self.max_path is not None and nb_path > self.max_path) \
+               or (self.max_nodes is not None and nb_nodes > self.max_nodes and nb_path >= 1) \
+               or (self.max_edges is not None and nb_edges > self.max_edges and nb_path >= 1):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           [s for s in next_state_map if self.domain.is_goal(s)],
+                           "cost")
 
 
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 467fe70..1e0aec3 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -3,7 +3,7 @@ from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain
 from skdecide.hub.solver.graph_explorer.GraphExploration import GraphExploration
 
 
-from skdecide import DeterministicPlanningDomain, Memory
+from skdecide import DeterministicPlanningDomain
 from typing import Any
 
 
@@ -33,30 +33,33 @@ class FullSpaceExploration(GraphExploration):
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
                 next = self.domain.get_next_state(vertex, action)
-                if next not in next_state_map:
+                new_state = next not in next_state_map
+                if new_state:
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
                     nb_nodes += 1
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 next_state_map[vertex][action] = next
-                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(Memory([vertex]),
+                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(vertex,
                                                                                                   action,
                                                                                                   next).cost,
-                                                         "reward": self.domain.get_transition_value(Memory([vertex]),
+                                                         "reward": self.domain.get_transition_value(vertex,
                                                                                                     action,
                                                                                                     next).reward}
                 if self.domain.is_goal(next):
                     nb_path += 1
                 else:
-                    if next not in next_state_map:
+                    if new_state:
                         stack.append((next, path+[next]))
-            if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
-                or (nb_edges > self.max_edges and nb_path >= 1):
+            if (self.max_path is not None and nb_path > self.max_path) \
+                or (self.max_nodes is not None and nb_nodes > self.max_nodes and nb_path >= 1) \
+                or (self.max_edges is not None and nb_edges > self.max_edges and nb_path >= 1):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           [s for s in next_state_map if self.domain.is_goal(s)],
+                           "cost")
 
 
 def reachable_states(self, s0: Any):
-- 
2.43.0


From e79c24101a50813898020e6bbabb00e991f12e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 052/135] fix: evaluate policies whose transitions have
 outcomes of zero probability

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 700b876..3e9e8de 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -31,7 +31,7 @@ def construct_dict_policy(domain: GoalMDPDomain, policy: DeterministicPolicies)-
     # Sanity check that successors and predecessors are equal
     for state, successor_pairs in succs.items():
         for succ, prob in successor_pairs:
-            assert (state in preds[succ])
+            assert (prob == 0 or state in preds[succ])
     return policy_dict, preds, succs
 
 
@@ -55,6 +55,8 @@ def expected_costs_for_policy(domain,
         a = policy_dict[s]
         main_cost = 0
         for succ, prob in succs[s]:
+            if prob == 0:
+                continue
             # evaluate objective function on transition
             val = domain.get_transition_value(s, a, succ)
             main_cost += prob * (val.cost + opt_val[succ])
-- 
2.43.0


From f2db5a202221d56e53a41e49f2653d473cc19184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 053/135] fix: add up the probabilities of a next state which
 is listed several times

---
 .../hub/solver/graph_explorer/DFS_Uncertain_Exploration.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index d0343b4..2421390 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -70,7 +70,8 @@ class DFSExploration(GraphExploration):
                     if prob != 0:
                         nb_edges += 1
                         cost = domain.get_transition_value(s, action, succ)
-                        next_state_map[s][action][succ] = (prob, cost.cost)
+                        previous_prob = next_state_map[s][action].get(succ, (0, 0))[0]
+                        next_state_map[s][action][succ] = (previous_prob + prob, cost.cost)
                         if succ not in result:
                             nb_states += 1
                             result.add(succ)
-- 
2.43.0


From 6eaf5727f8c837cdc2a122108971e3015123b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 054/135] fix: end the samples of GraphDomain at its targets

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 3f1e384..428abcf 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -142,7 +142,7 @@ class GraphDomain(Domain,
             -> TransitionValue[D.T_value]:
         return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])
 
-    def is_terminal(self, state: D.T_state) -> bool:
+    def _is_terminal(self, state: D.T_state) -> bool:
         return state in self.targets
 
     def _get_action_space_(self) -> Space[D.T_event]:
@@ -154,7 +154,7 @@ class GraphDomain(Domain,
     def _get_goals_(self) -> Space[D.T_observation]:
         return ImplicitSpace(lambda x: (x in self.targets))
 
-    def is_goal(self, state: D.T_state) -> bool:
+    def _is_goal(self, state: D.T_state) -> bool:
         return state in self.targets
 
     def _get_observation_space_(self) -> Space[D.T_observation]:
-- 
2.43.0


From 8a8b67615dfc34cd38312fee1ca6b83830682a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 055/135] fix: compare scheduling actions by value, so that
 applicable actions contain them

---
 .../scheduling/scheduling_domains_modelling.py         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains_modelling.py b/skdecide/builders/scheduling/scheduling_domains_modelling.py
index 8b483db..d9412bb 100644
--- a/skdecide/builders/scheduling/scheduling_domains_modelling.py
+++ b/skdecide/builders/scheduling/scheduling_domains_modelling.py
@@ -212,3 +212,13 @@ class SchedulingAction:
 
     def __repr__(self):
         return str(self)
+
+    def _key(self):
+        return (self.task, self.action, self.mode, self.time_progress,
+                frozenset(self.resource_unit_names or ()))
+
+    def __eq__(self, other):
+        return isinstance(other, SchedulingAction) and self._key() == other._key()
+
+    def __hash__(self):
+        return hash(self._key())
-- 
2.43.0


From cd3ce5698c8072068d5de6c3808e61fb9f1042f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 056/135] fix: recompute the schedule of an RCPSP solution when
 its modes change, and in copies made before it is recomputed

---
 .../rcpsp/rcpsp_model.py                      | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 517d25b..e29cfb3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -37,7 +37,6 @@ class RCPSPSolution(Solution):
         self.problem = problem
         self.rcpsp_permutation = rcpsp_permutation
         self.rcpsp_schedule = rcpsp_schedule
-        self._schedule_to_recompute = rcpsp_schedule is None
         self.rcpsp_modes = rcpsp_modes
         self.rcpsp_schedule_feasible = rcpsp_schedule_feasible
         self.standardised_permutation = standardised_permutation
@@ -49,6 +48,7 @@ class RCPSPSolution(Solution):
             else:
             # elif isinstance(self.problem, MultiModeRCPSPModel):
                 self.rcpsp_modes = self.problem.fixed_modes
+        self._schedule_to_recompute = rcpsp_schedule is None
 
         if self.rcpsp_permutation is None:
             if isinstance(self.problem, MultiModeRCPSPModel):
@@ -75,24 +75,28 @@ class RCPSPSolution(Solution):
 
     def __setattr__(self, key, value):
         super.__setattr__(self, key, value)
-        if key == "rcpsp_permutation":
+        if key in ("rcpsp_permutation", "rcpsp_modes"):
             self._schedule_to_recompute = True
 
     def copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=deepcopy(self.rcpsp_permutation),
-                             rcpsp_modes=deepcopy(self.rcpsp_modes),
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        solution = RCPSPSolution(problem=self.problem,
+                                 rcpsp_permutation=deepcopy(self.rcpsp_permutation),
+                                 rcpsp_modes=deepcopy(self.rcpsp_modes),
+                                 rcpsp_schedule=self.rcpsp_schedule,
+                                 rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                                 standardised_permutation=self.standardised_permutation)
+        solution._schedule_to_recompute = self._schedule_to_recompute
+        return solution
 
     def lazy_copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=self.rcpsp_permutation,
-                             rcpsp_modes=self.rcpsp_modes,
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        solution = RCPSPSolution(problem=self.problem,
+                                 rcpsp_permutation=self.rcpsp_permutation,
+                                 rcpsp_modes=self.rcpsp_modes,
+                                 rcpsp_schedule=self.rcpsp_schedule,
+                                 rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                                 standardised_permutation=self.standardised_permutation)
+        solution._schedule_to_recompute = self._schedule_to_recompute
+        return solution
 
     def __str__(self):
         if self.rcpsp_schedule is None:
-- 
2.43.0


From 840c92c31b780c93d7f660f97981df23c3ae9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 057/135] fix: give RCPSP modes that consume nothing a zero
 quantity of each resource when binding a scheduling domain

---
 skdecide/hub/solver/do_solver/sk_to_do_binding.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index 858a12b..87aad43 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -37,7 +37,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
         for task in modes_details:
             mode_details_do[task] = {}
             for mode in modes_details[task]:
-                mode_details_do[task][mode] = {}
+                mode_details_do[task][mode] = {r: 0 for r in scheduling_domain.get_resource_types_names()}
                 for r in modes_details[task][mode].get_ressource_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
@@ -56,7 +56,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
         for task in modes_details:
             mode_details_do[task] = {}
             for mode in modes_details[task]:
-                mode_details_do[task][mode] = {}
+                mode_details_do[task][mode] = {r: 0 for r in scheduling_domain.get_resource_types_names()}
                 for r in modes_details[task][mode].get_ressource_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.sample_task_duration(task=task, mode=mode)
@@ -75,7 +75,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
         for task in modes_details:
             mode_details_do[task] = {}
             for mode in modes_details[task]:
-                mode_details_do[task][mode] = {}
+                mode_details_do[task][mode] = {r: 0 for r in scheduling_domain.get_resource_types_names()}
                 for r in modes_details[task][mode].get_ressource_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
@@ -94,7 +94,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
         for task in modes_details:
             mode_details_do[task] = {}
             for mode in modes_details[task]:
-                mode_details_do[task][mode] = {}
+                mode_details_do[task][mode] = {r: 0 for r in scheduling_domain.get_resource_types_names()}
                 for r in modes_details[task][mode].get_ressource_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r,
                                                                                                          time=0)  # should be constant anyway
@@ -117,7 +117,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
         for task in modes_details:
             mode_details_do[task] = {}
             for mode in modes_details[task]:
-                mode_details_do[task][mode] = {}
+                mode_details_do[task][mode] = {r: 0 for r in scheduling_domain.get_resource_types_names()}
                 for r in modes_details[task][mode].get_ressource_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r,
                                                                                                          time=0)  # should be constant anyway
-- 
2.43.0


From 83ffd6fcf3a9b21d958c2a78a57f32825a6eb5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 058/135] fix: honour the renewability of the resources given
 to Stochastic_RCPSP

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 59ea74a..e9c5aff 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -200,6 +200,14 @@ class Stochastic_RCPSP(MultiModeRCPSP_Stochastic_Durations):
                                         multivariate_settings: Optional[Dict[str, int]]=None) -> Distribution:
         return self.duration_distribution[task][mode]
 
+    def _get_resource_renewability(self) -> Dict[str, bool]:
+        if self.resource_renewable is None:
+            return super()._get_resource_renewability()
+        return self.resource_renewable
+
+    def is_renewable(self, resource: str):
+        return self.get_resource_renewability()[resource]
+
     def _get_original_quantity_resource(self, resource: str, **kwargs) -> int:
         return self.resource_availability[resource]
 
-- 
2.43.0


From cc805053c54a7e150687a2655940d911bd86593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 059/135] fix: make Point2D of tsp_model importable (NamedTuple
 with another base class)

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index c0a71e6..cc069c7 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -202,11 +202,15 @@ class TSPModel(Problem):
 
 
 # One 
-class Point2D(Point, NamedTuple):
+class _Coordinates2D(NamedTuple):
     x: float
     y: float
 
 
+class Point2D(_Coordinates2D, Point):
+    pass
+
+
 class TSPModel2D(TSPModel):
     def __init__(self, list_points: List[Point2D], 
                  node_count: int, 
-- 
2.43.0


From 53559ac45677509499d2f1fc9b4fd33b05b5e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 060/135] fix: allow adding solutions to an empty ResultStorage

---
 .../generic_tools/result_storage/result_storage.py           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 96f6dae..6a6d5c2 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -53,6 +53,11 @@ class ResultStorage:
         if solution not in self.map_solutions:
             self.map_solutions[solution] = fitness
             self.list_solution_fits += [(solution, fitness)]
+        if self.size_heap == 0:
+            self.min = fitness
+            self.max = fitness
+            if self.best_solution is None:
+                self.best_solution = solution
         if self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
-- 
2.43.0


From 6f2489fff9aea1cc9c36ff7edd3bd925ecd135cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 061/135] fix: compute the common Pareto front of compared
 storages in their sense of optimisation

---
 .../generic_tools/result_storage/resultcomparator.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index dd488a5..db93e63 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -89,7 +89,8 @@ class ResultComparator:
         for rs in self.list_result_storage:
             for s in rs.list_solution_fits:
                 sols.append(s)
-        rs = ResultStorage(list_solution_fits=sols, best_solution=None)
+        rs = ResultStorage(list_solution_fits=sols, best_solution=None,
+                           mode_optim=self.list_result_storage[0].mode_optim)
         # print('len(rs): ', len(rs.list_solution_fits))
         pareto_store = result_storage_to_pareto_front(result_storage=rs, problem=None)
         # print('len(pareto_store): ', len(pareto_store.list_solution_fits))
-- 
2.43.0


From d6b36140a69001f06b728bd4f51b5857ec8d4c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 062/135] fix: undo the swaps of a local move in reverse order,
 and notify the solution that they changed it

---
 .../generic_tools/mutations/permutation_mutations.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index fd85ef7..49be560 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -142,13 +142,15 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in self.list_index_swap:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
         current = getattr(solution, self.attribute)
-        for i1, i2 in self.list_index_swap:
+        for i1, i2 in self.list_index_swap[::-1]:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
 
-- 
2.43.0


From 355df738218cbdfbb6d9a9e62f5aef20862bc921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 063/135] fix: let PermutationSwap move the last element of the
 permutation

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 49be560..c376f62 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -180,7 +180,7 @@ class PermutationSwap(Mutation):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        swaps = np.random.randint(low=0, high=self.length-1, size=(self.nb_swap, 2))
+        swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
         move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
         next_sol = move.apply_local_move(solution)
         return (next_sol, move)
-- 
2.43.0


From f223e8f2b33948f6a0817b06856dff7624fb83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 064/135] fix: leave the mutated solution unchanged in
 PermutationPartialShuffleMutation

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index c376f62..6569e73 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -116,7 +116,7 @@ class PermutationPartialShuffleMutation(Mutation):
         random.shuffle(self.range_int_total)
         int_to_move = self.range_int_total[:self.n_to_move]
         random.shuffle(self.range_int)
-        new = getattr(solution, self.attribute)
+        new = deepcopy(previous)
         for k in range(self.n_to_move):
             #prevs += [new[int_to_move[k]]]
             new[int_to_move[k]] = previous[int_to_move[self.range_int[k]]]
-- 
2.43.0


From 01fea8ff6d6ea22b81149fc1e5b11da36db9772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 065/135] fix: build PermutationShuffleMutation on the
 attribute asked for

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 6569e73..af99e84 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -30,7 +30,7 @@ class ShuffleMove(LocalMove):
 class PermutationShuffleMutation(Mutation):
     @staticmethod
     def build(problem: Problem, solution: Solution, **kwargs):
-        return PermutationShuffleMutation(problem, solution)
+        return PermutationShuffleMutation(problem, solution, attribute=kwargs.get("attribute", None))
 
     def __init__(self, 
                  problem: Problem, 
-- 
2.43.0


From cb118be9391c9958195f1a5975c5367c0dfce6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 066/135] fix: do not use the removed numpy alias np.int in
 portfolios of mutations

---
 .../generic_tools/mutations/mixed_mutation.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
index 85f5b64..24601b6 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
@@ -14,7 +14,7 @@ class BasicPortfolioMutation(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
         print(len(self.list_mutation), " mutation available")
 
     def mutate(self, solution: Solution):
@@ -35,7 +35,7 @@ class BasicPortfolioMutationTrack(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
 
     def mutate(self, solution: Solution):
         choice = np.random.choice(self.index_np, 
-- 
2.43.0


From 7924d07d726c3d4109ae44b96c858908dcb635b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 067/135] fix: store the solutions visited by local searches as
 they were evaluated

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py | 7 ++++---
 .../generic_tools/ls/simulated_annealing.py                | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 0944e6f..f7656c6 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -70,20 +70,21 @@ class HillClimber:
                 accept = True 
                 local_improvement = True
                 global_improvement = objective > cur_best_objective
+            if self.store_solution:
+                # stored before a possible backtrack, which can modify nv in place
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
             else:
                 cur_variable = move.backtrack_local_move(nv)
-            if self.store_solution:
-                store.add_solution(nv, objective)
             if global_improvement: 
                 print("iter ", iteration)
                 print("new obj ", objective, " better than ", cur_best_objective)
                 cur_best_objective = objective
                 cur_best_variable = cur_variable.copy()
                 if not self.store_solution:
-                    store.add_solution(cur_variable, objective)
+                    store.add_solution(cur_variable.copy(), objective)
             # Update the temperature
             self.restart_handler.update(nv, objective, 
                                         global_improvement,
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index fed5413..4249922 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -89,6 +89,9 @@ class SimulatedAnnealing:
                 p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
                 accept = p > r
                 local_move_accepted = accept
+            if self.store_solution:
+                # stored before a possible backtrack, which can modify nv in place
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
@@ -98,8 +101,6 @@ class SimulatedAnnealing:
                 cur_variable = move.backtrack_local_move(nv)
                 # print(move)
                 # print("cur_variable", cur_variable)
-            if self.store_solution:
-                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 # print(cur_variable)
-- 
2.43.0


From bd36f7e11d76f089968841d94e167708f6c5730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 068/135] fix: store the results of local searches in their
 sense of optimisation

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py     | 3 +++
 .../generic_tools/ls/simulated_annealing.py                    | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index f7656c6..0408982 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -39,12 +39,14 @@ class HillClimber:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         cur_best_variable = initial_variable.copy()
@@ -126,6 +128,7 @@ class HillClimberPareto(HillClimber):
         pareto_front = ParetoFront(list_solution_fits=
                                    [(initial_variable, objective)],
                                    best_solution=initial_variable.copy(),
+                                   mode_optim=self.mode_optim,
                                    limit_store=True,
                                    nb_best_store=1000)
         cur_variable = initial_variable.copy()
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index 4249922..041e32f 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -55,12 +55,14 @@ class SimulatedAnnealing:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
-- 
2.43.0


From a799ac251295ca8252685df3f81b27a667b40605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 069/135] fix: evaluate the mutated knapsack solution, not the
 previous one

---
 .../knapsack/mutation/mutation_knapsack.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 78eb63b..616a5d4 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -51,7 +51,7 @@ class KnapsackMutationSingleBitFlip(Mutation):
             obj = {'value': new_value,
                    'weight_violation': max(0, new_weight - self.problem.max_capacity)}
         else:
-            obj = self.problem.evaluate(solution)
+            obj = self.problem.evaluate(new_sol)
         return new_sol, move, obj
 
     @staticmethod
-- 
2.43.0


From d618b7e00cb00167165cc8c8c41c96d02e807fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 070/135] fix: store the length of each leg of a TSP tour at
 its own index

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index cc069c7..92463bd 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -267,17 +267,17 @@ def compute_length_np(start_index,
                       length_permutation)->Tuple[Union[List[float], np.array], float]:
     obj = np.sqrt((np_points[start_index, 0]-np_points[solution[0], 0])**2+\
                   (np_points[start_index, 1]-np_points[solution[0], 1])**2)
-    lengths = np.zeros((node_count))
+    lengths = np.zeros((length_permutation+1))
     lengths[0] = obj
     pp = obj
     for index in range(0, length_permutation-1):
         ll = math.sqrt((np_points[solution[index], 0]-np_points[solution[index+1], 0])**2+\
                        (np_points[solution[index], 1]-np_points[solution[index+1], 1])**2)
         obj += ll
-        lengths[index] = ll
-    lengths[node_count-1] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
+        lengths[index+1] = ll
+    lengths[length_permutation] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
                                     (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
-    obj += lengths[node_count-1]
+    obj += lengths[length_permutation]
     return lengths, obj
 
 def build_evaluate_function(tsp_model: TSPModel):
-- 
2.43.0


From 07eab90a8de115333e6550f9598ea1dc1e4fc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 071/135] fix: build 2-opt mutations of the TSP without a
 number of tests

---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 23cb0d3..5804d2e 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -72,12 +72,12 @@ class Mutation2Opt(Mutation):
         self.length_permutation = tsp_model.length_permutation
         self.points = tsp_model.list_points
         self.test_all = test_all
-        self.nb_test = min(nb_test, self.node_count-1)
         self.evaluate_function_indexes = tsp_model.evaluate_function_indexes
         self.return_only_improvement = return_only_improvement
         self.tsp_model = tsp_model
-        if self.nb_test is None:
-            self.nb_test = max(1, self.node_count//10)
+        if nb_test is None:
+            nb_test = max(1, self.node_count//10)
+        self.nb_test = min(nb_test, self.node_count-1)
     
     def get_points(self, it, jt, variable: SolutionTSP):
         point_before_i = None
-- 
2.43.0


From 8503ab54a82efbbfe75bc7a53d51357da7056b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 072/135] fix: always test at least one pair in the 2-opt
 mutation of the TSP, so that the length is finite

---
 .../builders/discrete_optimization/tsp/mutation/mutation_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 5804d2e..dc8b952 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -117,7 +117,7 @@ class Mutation2Opt(Mutation):
         point_before_it, point_it, point_jt, point_after_jt = self.get_points(it, jt, variable)
         min_change = float('inf')
         range_its = range(self.length_permutation) if self.test_all \
-            else random.sample(range(self.length_permutation), min(self.nb_test, self.length_permutation))
+            else random.sample(range(self.length_permutation-1), min(self.nb_test, self.length_permutation-1))
         for i in range_its:
             #print( min(self.nb_test, self.nodeCount-i-1))
             #print(i+1, self.nodeCount-1)
-- 
2.43.0


From c8b6e5ea5a7372b23341f7f4ae3cad615d9c1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 073/135] fix: store the lengths of the legs of a TSP tour as a
 list, as its mutations concatenate them

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 92463bd..9c4dc24 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -148,7 +148,7 @@ class TSPModel(Problem):
     def evaluate(self, var_tsp: SolutionTSP)-> Dict[str, float]:
         lengths, obj = self.evaluate_function(var_tsp)
         var_tsp.length = obj
-        var_tsp.lengths = lengths
+        var_tsp.lengths = list(lengths)
         return {'length': obj}
         # return obj
     
-- 
2.43.0


From 518a27da10148b7bc4bec7c1713c0b63f0769952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 074/135] fix: complete lengths and objectives of the
 intersection mutation of the TSP

---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index dc8b952..2838436 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -210,7 +210,7 @@ class Mutation2OptIntersection(Mutation2Opt):
                                      nb_tests=min(3000, self.node_count-2))
             self.i_j_pairs = ints
             if len(self.i_j_pairs) == 0:
-                return variable, LocalMoveDefault(variable, variable), variable.length
+                return variable, LocalMoveDefault(variable, variable), {"length": variable.length}
         min_change = float('inf')
         perm = variable.permutation
         for i, j in self.i_j_pairs:
@@ -232,6 +232,8 @@ class Mutation2OptIntersection(Mutation2Opt):
         lengths += [self.evaluate_function_indexes(i_before, j_)]
         lengths += variable.lengths[it+1:jt+1][::-1]
         lengths += [self.evaluate_function_indexes(i_, j_after)]
+        if jt < self.length_permutation-1:
+            lengths += variable.lengths[jt+2:]
         if False:
             print(len(variable.lengths))
             print(len(lengths))
-- 
2.43.0


From 6ec7c90decb28e4345faaf15ea5a92568743c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 075/135] fix: give the objectives of KnapsackModel_Mobj their
 sense

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 2c16f42..cbe9806 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -154,7 +154,8 @@ class KnapsackModel_Mobj(KnapsackModel):
                           "heaviest_item": {"type": TypeObjective.OBJECTIVE, "default_weight": 1},
                           "weight": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
                           "value": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
-        return ObjectiveRegister(objective_handling=ObjectiveHandling.MULTI_OBJ,
+        return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
+                                 objective_handling=ObjectiveHandling.MULTI_OBJ,
                                  dict_objective_to_doc=dict_objective)
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-- 
2.43.0


From 9ee7f330a857c94ec2b97b314602b2d6de773cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 076/135] fix: let tours which visit all the nodes of a TSP
 satisfy it

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 9c4dc24..2a96835 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -153,9 +153,8 @@ class TSPModel(Problem):
         # return obj
     
     def satisfy(self, var_tsp: SolutionTSP)->bool:
-        b = var_tsp.permutation[0] == self.start_index and var_tsp.permutation[-1] == self.end_index
-        if not b:
-            return False
+        return var_tsp.start_index == self.start_index and var_tsp.end_index == self.end_index \
+            and sorted(var_tsp.permutation) == self.ind_in_permutation
     
     def get_dummy_solution(self):
         var = SolutionTSP(problem=self, start_index=self.start_index,
-- 
2.43.0


From ad8669fba2be3bf3cca47acaa3f392b5439e0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 077/135] fix: count the capacity violations of all the
 facilities, not of the last one

---
 .../builders/discrete_optimization/facility/facility_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 3df6b88..6fe6432 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -61,7 +61,7 @@ class FacilityProblem(Problem):
         d = self.evaluate_cost(variable)
         capacity_constraint_violation = 0
         for f in d["details"]:
-            capacity_constraint_violation = max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
+            capacity_constraint_violation += max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
         d["capacity_constraint_violation"] = capacity_constraint_violation
         return d
 
-- 
2.43.0


From 010e37eb06f011bf49fb4553ac667323ef103465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 078/135] fix: do not use the alias np.int and
 from_numpy_matrix, which numpy and networkx removed

---
 .../facility/solvers/facility_lp_solver.py                    | 2 +-
 .../discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py | 2 +-
 .../rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py        | 2 +-
 skdecide/builders/discrete_optimization/ttp/ttp_parser.py     | 4 ++--
 .../discrete_optimization/vrp/solver/solver_ortools.py        | 2 +-
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py    | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 8218c0f..4f1a6fe 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -36,7 +36,7 @@ def prune_search_space(facility_problem: FacilityProblem,
     customers = facility_problem.customers
     nb_facilities = len(facilities)
     nb_customers = len(customers)
-    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=np.int)
+    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=int)
     matrix_fc_indicator[sorted_costs[:n_cheapest], :] = 2
     for c in range(nb_customers):
         matrix_fc_indicator[closest[:n_shortest, c], c] = 2
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 72d0c43..321a643 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -172,7 +172,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
index ed7ce34..675ad94 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
@@ -221,7 +221,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
index ff50f4c..681b633 100644
--- a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
+++ b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
@@ -72,7 +72,7 @@ def parse(file_path)->TTPModel:
                 edgeWeightType = line[0]
             elif line.startswith("NODE_COORD_SECTION"):
                 nodes = []
-                nodes_array = np.zeros((numberOfNodes, 3), dtype=np.int)
+                nodes_array = np.zeros((numberOfNodes, 3), dtype=int)
                 for i in range(numberOfNodes):
                     line = fp.readline()
                     line = line.split()
@@ -88,7 +88,7 @@ def parse(file_path)->TTPModel:
                     nodes += [n]
             elif line.startswith("ITEMS SECTION"):
                 items = []
-                items_array = np.zeros((numberOfItems, 4), dtype=np.int)
+                items_array = np.zeros((numberOfItems, 4), dtype=int)
                 for j in range(numberOfItems):
                     line = fp.readline()
                     line = line.split()
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
index d112d0c..50a137e 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
@@ -126,7 +126,7 @@ class VrpORToolsSolver(SolverDO):
         first_solution_strategy = first_solution_map[first_solution_strategy]
         local_search_metaheuristic = metaheuristic_map[local_search_metaheuristic]
         G, matrix_distance = build_graph(self.problem)
-        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=np.int)
+        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=int)
         demands = [self.problem.customers[i].demand for i in range(self.problem.customer_count)]
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.problem.customer_count,
diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index 22732c2..be765ea 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -22,7 +22,7 @@ def compute_length_matrix(vrp_model: VrpProblem):
 def prune_search_space(vrp_model: VrpProblem,
                        n_shortest=10):
     closest, matrix_distance = compute_length_matrix(vrp_model)
-    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=np.int)
+    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=int)
     nb_customers = vrp_model.customer_count
     if n_shortest < nb_customers:
         for c in range(matrix_adjacency.shape[0]):
@@ -36,7 +36,7 @@ def prune_search_space(vrp_model: VrpProblem,
 def build_graph(vrp_model: VrpProblem):
     matrix_adjacency, matrix_distance = prune_search_space(vrp_model=vrp_model,
                                                            n_shortest=vrp_model.customer_count)
-    G = nx.from_numpy_matrix(matrix_adjacency, create_using=nx.DiGraph)
+    G = nx.from_numpy_array(matrix_adjacency, create_using=nx.DiGraph)
     G.add_edge(0, 0, weight=0)
     return G, matrix_distance
 
-- 
2.43.0


From c12930af5e5748a36ed13d66661c002e86698db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 079/135] fix: scale the distances of TSP_ORtools before
 truncating them (and without np.int)

---
 .../builders/discrete_optimization/tsp/solver/solver_ortools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 73e4741..41a6855 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(np.int))
+            distance_matrix = (10**6*matrix).astype(int)
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
-- 
2.43.0


From 1c2a522a896fa4445ba71217b36a5d57d20d2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 080/135] fix: let build_matrice_distance measure the points by
 default

---
 .../builders/discrete_optimization/tsp/common_tools_tsp.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 08d9df5..334546b 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -53,7 +53,8 @@ def baseline_in_order(nodeCount: int, points: List[Point2D]):
 
 def build_matrice_distance(nodeCount: int, points: List[Point2D], method=None):
     if method is None:
-        method = length
+        def method(i, j):
+            return length(points[i], points[j])
     matrix = np.zeros((nodeCount, nodeCount))
     for i in range(nodeCount):
         for j in range(i+1, nodeCount):
-- 
2.43.0


From 5e95ce4326d1aaa5773b1146a19ea89d8aa7d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 081/135] fix: call networkx colorings by their name (DSATUR)

---
 .../discrete_optimization/coloring/solvers/greedy_coloring.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
index 4f6c6f7..6494537 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
@@ -44,7 +44,7 @@ class GreedyColoring(SolverDO):
         strategy: NXGreedyColoringMethod = kwargs.get("strategy", NXGreedyColoringMethod.best)
         print(strategy)
         verbose: bool = kwargs.get("verbose", False)
-        strategy_name = strategy.name
+        strategy_name = strategy.value
         if strategy_name == "best":
             strategies_to_test = strategies
         else:
-- 
2.43.0


From e639553fc2b1fdcfcb82f60264ee2bd6cd1b504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 082/135] fix: say that compute_cliques found all the cliques

---
 .../builders/discrete_optimization/coloring/coloring_toolbox.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
index 2509957..50fcfe2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
@@ -4,6 +4,7 @@ import networkx as nx
 def compute_cliques(g, nb_max=None):
     cliques = []
     nb = 0
+    not_all = False
     for c in nx.algorithms.clique.find_cliques(g):
         print(c)
         cliques += [c]
-- 
2.43.0


From c99a20fb91ce33d4bcc5a2bd44055ca7bbb79ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 083/135] fix: skip the items heavier than the knapsack in its
 greedy solver, and take items at their position

---
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index a29c174..0e2a4ab 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -26,9 +26,9 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     weight = 0
     taken = [0]*knapsack_model.nb_items
     sorted_per_density = method_queue(knapsack_model)
-    for i in range(len(taken)):
+    for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
-            taken[sorted_per_density[i].index] = 1
+            taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
             value += sorted_per_density[i].value
             weight += sorted_per_density[i].weight
         else:
-- 
2.43.0


From 1efec3ee5d1de2ecef7c524999c6da6183b53607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 084/135] fix: take into account that items fit or not in
 solve_np, their positions, and items heavier than the knapsack

---
 .../knapsack/solvers/dyn_prog_knapsack.py          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 2397a27..dcc11e5 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -26,7 +26,6 @@ class KnapsackDynProg(SolverDO):
         start_by_most_promising = args.get('greedy_start', False)
         stop_after_n_item = args.get('stop_after_n_item', False)
         max_items = args.get('max_items', self.knapsack_model.nb_items+1)
-        max_items = min(self.knapsack_model.nb_items+1, max_items)
         max_time_seconds = args.get('max_time_seconds', None)
         verbose = args.get('verbose', False)
         if max_time_seconds is None:
@@ -41,6 +40,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
@@ -69,7 +69,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
@@ -102,6 +102,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
@@ -113,9 +114,10 @@ class KnapsackDynProg(SolverDO):
             weight = self.knapsack_model.list_items[index_item].weight
             value = self.knapsack_model.list_items[index_item].value
             vec_1 = self.table[nb_item-1, :]
-            ind = [max(capacity-weight, 0) for capacity in range(self.capacity+1)]
-            vec_2 = vec_1[ind]+value*(ind!=0)
-            self.table[nb_item, :] = np.maximum(vec_1, vec_2)
+            self.table[nb_item, :] = vec_1
+            if weight <= self.capacity:
+                vec_2 = vec_1[:self.capacity+1-weight]+value
+                self.table[nb_item, weight:] = np.maximum(vec_1[weight:], vec_2)
             cur_indexes = (nb_item, self.capacity)
             print("Cur obj : ", self.table[nb_item, self.capacity])
         taken = [0]*self.nb_items
@@ -126,7 +128,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
-- 
2.43.0


From 5cf8dc113fcb4d489ca2f96b2d515c89e55a943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 085/135] fix: place the items of knapsack solutions by
 position, not by index

---
 .../knapsack/solvers/cp_solvers.py            | 13 +++++------
 .../knapsack/solvers/knapsack_lns_solver.py   |  7 +++---
 .../knapsack/solvers/lp_solvers.py            | 22 +++++++++++--------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
index 5f01035..03864d1 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
@@ -39,7 +39,7 @@ class CPKnapsackMZN(CPSolver):
             value = 0
             for i in range(len(items)):
                 if items[i] != 0:
-                    taken[self.knapsack_model.list_items[items[i] - 1].index] = 1
+                    taken[items[i] - 1] = 1
                     weight += self.knapsack_model.list_items[items[i] - 1].weight
                     value += self.knapsack_model.list_items[items[i] - 1].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -114,7 +114,7 @@ class CPKnapsackMZN2(CPSolver):
             value = 0
             for i in range(len(items_taken)):
                 if items_taken[i] != 0:
-                    taken[self.knapsack_model.list_items[i].index] = 1
+                    taken[i] = 1
                     weight += self.knapsack_model.list_items[i].weight
                     value += self.knapsack_model.list_items[i].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -135,7 +135,7 @@ class CPKnapsackMZN2(CPSolver):
         value = 0
         for i in range(len(items_taken)):
             if items_taken[i] != 0:
-                taken[self.knapsack_model.list_items[i].index] = 1
+                taken[i] = 1
                 weight += self.knapsack_model.list_items[i].weight
                 value += self.knapsack_model.list_items[i].value
         return [KnapsackSolution(problem=self.knapsack_model,
@@ -146,7 +146,7 @@ class CPKnapsackMZN2(CPSolver):
                   fraction_decision_fixed: float, 
                   nb_iteration_max: int, 
                   max_time_per_iteration_s: float, save_results=True):
-        taken_current_solution = [init_solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+        taken_current_solution = list(init_solution.list_taken)
         current_objective = init_solution.value
         nb_items = self.knapsack_model.nb_items
         range_item = list(range(nb_items))
@@ -169,8 +169,7 @@ class CPKnapsackMZN2(CPSolver):
                     current_objective = res["objective"]
                     iteration += 1
                     current_solution = solution
-                    taken_current_solution = [solution.list_taken[item.index]
-                                              for item in self.knapsack_model.list_items]
+                    taken_current_solution = list(solution.list_taken)
                     print("Improved ", current_objective)
                     if save_results:
                         results["taken"] += [taken_current_solution]
@@ -180,7 +179,7 @@ class CPKnapsackMZN2(CPSolver):
                     iteration += 1
                     if res.solution is not None:
                         objective = res["objective"]
-                        taken_solution = [solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+                        taken_solution = list(solution.list_taken)
                         if save_results:
                             results["taken"] += [taken_solution]
                             results["objective"] += [objective]
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
index 599ae46..1b83954 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
@@ -54,14 +54,15 @@ class ConstraintHandlerKnapsack(ConstraintHandler):
         dict_f_start = {}
         start = []
         for c in range(self.problem.nb_items):
-            dict_f_start[c] = current_solution.list_taken[c]
+            key = self.problem.list_items[c].index
+            dict_f_start[key] = current_solution.list_taken[c]
             if c in subpart_item:
-                dict_f_fixed[c] = dict_f_start[c]
+                dict_f_fixed[key] = dict_f_start[key]
         x_var = milp_solver.variable_decision["x"]
         lns_constraint = {}
         for key in x_var:
             start += [(x_var[key], dict_f_start[key])]
-            if key in subpart_item:
+            if key in dict_f_fixed:
                 lns_constraint[key] = milp_solver.model.add_constr(x_var[key] == dict_f_start[key],
                                                                    name=str(key))
         if milp_solver.milp_solver_name == MilpSolverName.GRB:
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 8145498..41a7b07 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -82,7 +82,8 @@ class LPKnapsackGurobi(SolverDO):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=obj,
                                            weight=weight, 
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index]
+                                                       for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
         return ResultStorage(list_solution_fits=[(s, f) for s, f in zip(solutions, fits)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -147,13 +148,13 @@ class LPKnapsackGurobi(SolverDO):
 
     def add_init_solution(self, init_solution: KnapsackSolution):
         for i in self.variable_decision["x"]:
-            self.variable_decision["x"][i].start = init_solution.list_taken[i]
-            self.variable_decision["x"][i].varhintval = init_solution.list_taken[i]
+            self.variable_decision["x"][i].start = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
+            self.variable_decision["x"][i].varhintval = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
 
     def fix_decision(self,  init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -226,7 +227,8 @@ class LPKnapsackCBC(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                  value=objective,
                                  weight=weight, 
-                                 list_taken=[xs[e] for e in sorted(xs)])
+                                 list_taken=[xs[item.index]
+                                             for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -306,7 +308,8 @@ class LPKnapsack(MilpSolver):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=value_kp,
                                            weight=weight,
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index]
+                                                       for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
             print(self.aggreg_sol)
 
@@ -363,13 +366,13 @@ class LPKnapsack(MilpSolver):
     def add_init_solution(self, init_solution: KnapsackSolution):
         start = []
         for i in self.variable_decision["x"]:
-            start += [(self.variable_decision["x"][i], init_solution.list_taken[i])]
+            start += [(self.variable_decision["x"][i], init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])]
         self.model.start = start
 
     def fix_decision(self, init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -414,7 +417,8 @@ class KnapsackORTools(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                value=value,
                                weight=weight,
-                               list_taken=[xs[e] for e in sorted(xs)])
+                               list_taken=[xs[item.index]
+                                           for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
-- 
2.43.0


From 274dd3781469b027ec85f3ed2ebc62fee1f843e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 086/135] fix: sample variables from a list in solve_lns of the
 knapsack

---
 .../discrete_optimization/knapsack/solvers/lp_solvers.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 41a7b07..a83d578 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -127,7 +127,7 @@ class LPKnapsackGurobi(SolverDO):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"]),
                                               int(fraction_decision_fixed*len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize()
@@ -344,7 +344,7 @@ class LPKnapsack(MilpSolver):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"]),
                                                int(fraction_decision_fixed * len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize(max_seconds=parameter_gurobi.TimeLimit,
-- 
2.43.0


From df74c8404a7090624441fb6a8ff81b5fd3318086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 087/135] fix: let the integer programmes of colourings have
 nodes of any name

---
 .../coloring/solvers/coloring_lp_solvers.py            | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
index 61fc3f0..403fa48 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
@@ -52,7 +52,6 @@ class ColoringLP(MilpSolver):
         nb_colors = self.start_solution.nb_color
         color_model = Model("color")
         colors_var = {}
-        range_node = range(self.number_of_nodes)
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
@@ -60,7 +59,7 @@ class ColoringLP(MilpSolver):
                                                              obj=0,
                                                              name="x_" + str((node, color)))
         one_color_constraints = {}
-        for n in range_node:
+        for n in self.nodes_name:
             one_color_constraints[n] = color_model.addConstr(quicksum([colors_var[n, c] for c in range_color]) == 1)
         color_model.update()
         cliques = []
@@ -91,7 +90,7 @@ class ColoringLP(MilpSolver):
             for c in range_color:
                 constraints_neighbors[(e[0], e[1], c)] = \
                     color_model.addConstr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
-        for n in range_node:
+        for n in self.nodes_name:
             color_model.addConstr(quicksum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
         color_model.update()
         color_model.modelSense = GRB.MINIMIZE
@@ -171,7 +170,6 @@ class ColoringLP_MIP(ColoringLP):
                                 sense=mip.MINIMIZE,
                                 solver_name=self.solver_name)
         colors_var = {}
-        range_node = range(self.number_of_nodes)
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
@@ -179,7 +177,7 @@ class ColoringLP_MIP(ColoringLP):
                                                               obj=0,
                                                               name="x_" + str((node, color)))
         one_color_constraints = {}
-        for n in range_node:
+        for n in self.nodes_name:
             one_color_constraints[n] = color_model.add_constr(xsum([colors_var[n, c] for c in range_color]) == 1)
         cliques = []
         g = self.graph.to_networkx()
@@ -209,7 +207,7 @@ class ColoringLP_MIP(ColoringLP):
             for c in range_color:
                 constraints_neighbors[(e[0], e[1], c)] = \
                     color_model.add_constr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
-        for n in range_node:
+        for n in self.nodes_name:
             color_model.add_constr(xsum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
         self.model = color_model
         self.variable_decision = {"colors_var": colors_var}
-- 
2.43.0


From c3a09a890356007e5c1712bcb356f2fd16e1f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 088/135] fix: keep the priority list given to the executor of
 RCPSP, and give its solutions the modes of their tasks

---
 .../builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index 7cf9b4a..cf65280 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -397,7 +397,7 @@ class Executor(PileSolverRCPSP):
                 current_pred[neighbor]["nb"] -= 1
                 if current_pred[neighbor]["nb"] == 0:
                     available_activities.add(neighbor)
-        permutation_jobs.remove(1)
+        permutation_jobs = [job for job in permutation_jobs if job != 1]
         queue = []
         current_time = 0
         perm = []
@@ -439,7 +439,7 @@ class Executor(PileSolverRCPSP):
         sol = RCPSPSolution(problem=self.rcpsp_model,
                             rcpsp_permutation=perm[:-1],
                             rcpsp_schedule=schedule,
-                            rcpsp_modes=[modes_dict[i+1]
+                            rcpsp_modes=[modes_dict[i+2]
                                          for i in range(self.n_jobs)],
                             rcpsp_schedule_feasible=True)
         result_storage = ResultStorage(list_solution_fits=[(sol,
-- 
2.43.0


From 4b8dcea64ea250c53d73cf313287074dc0c72513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 089/135] fix: let the greedy calendar solver solve problems
 without calendars, as look_for_solver says

---
 .../discrete_optimization/rcpsp/solver/rcpsp_pile.py   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index cf65280..82fc9f4 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -238,12 +238,18 @@ class PileSolverRCPSP_Calendar(SolverDO):
                     if task in schedule:
                         schedule[task]["end_time"] = partial_solution.end_times[task]
 
-        current_ressource_available = {r: list(self.resources[r])+[self.resources[r][-1]]*100 for r in self.resources}
+        if self.with_calendar:
+            resources = self.resources
+        else:
+            # constant availability, until all the tasks can be done one after the other.
+            horizon = sum(self.mode_details[n][self.modes_dict[n]]["duration"] for n in self.mode_details)
+            resources = {r: [self.resources[r]]*(horizon+1) for r in self.resources}
+        current_ressource_available = {r: list(resources[r])+[resources[r][-1]]*100 for r in resources}
         # if self.with_calendar:
         #    current_ressource_available = {r: current_ressource_available[r][0]
         #                                   for r in current_ressource_available}
 
-        current_ressource_non_renewable = {nr: list(self.resources[nr])+[self.resources[nr][-1]]*100
+        current_ressource_non_renewable = {nr: list(resources[nr])+[resources[nr][-1]]*100
                                            for nr in self.non_renewable}
         # if self.with_calendar:
         #     current_ressource_non_renewable = {r: current_ressource_non_renewable[r][0]
-- 
2.43.0


From 17ccb1fc9e4c45244d77cd3a56a800ecb648de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 090/135] fix: follow only predecessors which end when the task
 starts in the critical path

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index f49df65..ab0c464 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -112,10 +112,11 @@ class CPM(SolverDO):
 
         critical_path = [self.sink]
         cur_node = self.sink
-        while cur_node is not self.source:
+        while cur_node != self.source:
             nodes = [n for n in
                      self.immediate_predecessors[cur_node]
-                     if self.map_node[n]._ESD == self.map_node[n]._LSD]
+                     if self.map_node[n]._ESD == self.map_node[n]._LSD
+                     and self.map_node[n]._EFD == self.map_node[cur_node]._ESD]
             cur_node = nodes[0]
             critical_path += [cur_node]
         return critical_path[::-1]
-- 
2.43.0


From 79e3fba9145742ef2de8c2b58df30dff35bfc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 091/135] fix: return the first date when a task can be done,
 not the last one when it cannot

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index ab0c464..e4c6da3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -270,10 +270,12 @@ class CPM(SolverDO):
                 for t in range(time, time + duration):
                     if resource_avail_in_time[res][t] < ressource_consumption[res]:
                         valid = False
-                        time_start = time
                         break
                 if not valid:
                     break
+            if valid:
+                time_start = time
+                break
         return time_start, time_start+duration
 
     def run_sgs_time_loop(self,
-- 
2.43.0


From 2dddd9a306297c1935c09ff32e81f6ebca625e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 092/135] fix: check the availability over the whole duration
 of tasks in the time loop of CPM

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index e4c6da3..80c710c 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -329,7 +329,7 @@ class CPM(SolverDO):
                                                                                     if task
                                                                                     not in
                                                                                     self.predecessors_map[j]["succs"]]))]
-                                    break
+                                        break
                             if not valid:
                                 break
                         if valid:
-- 
2.43.0


From 6dd44ccebf3ae2201ab24cca0ec6887204bbc33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 093/135] fix: give partial solutions of RCPSP the constraints
 which its solvers read

---
 .../discrete_optimization/rcpsp/rcpsp_model.py     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index e29cfb3..adb3816 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -463,7 +463,11 @@ class PartialSolution:
                  start_times: Dict[int, int]=None,
                  end_times: Dict[int, int]=None,
                  partial_permutation: List[int]=None,
-                 list_partial_order: List[List[int]]=None):
+                 list_partial_order: List[List[int]]=None,
+                 start_together: List[Tuple[int, int]]=None,
+                 start_at_end: List[Tuple[int, int]]=None,
+                 start_at_end_plus_offset: List[Tuple[int, int, int]]=None,
+                 start_after_nunit: List[Tuple[int, int, int]]=None):
         self.task_mode = task_mode
         self.start_times = start_times
         self.end_times = end_times
@@ -471,6 +475,14 @@ class PartialSolution:
         self.list_partial_order = list_partial_order
         # one element in self.list_partial_order is a list [l1, l2, l3]
         # indicating that l1 should be started before l1, and  l2 before l3 for example
+        self.start_together = start_together
+        # (t1, t2): t1 and t2 start at the same time.
+        self.start_at_end = start_at_end
+        # (t1, t2): t2 starts when t1 ends.
+        self.start_at_end_plus_offset = start_at_end_plus_offset
+        # (t1, t2, delta): t2 starts at least delta units after the end of t1.
+        self.start_after_nunit = start_after_nunit
+        # (t1, t2, delta): t2 starts at least delta units after the start of t1.
 
 
 class RCPSPModel(Problem):
-- 
2.43.0


From 8a2844ad7a268e6e36791799e2ffd2974f6c2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 094/135] fix: let the last task of RCPSP start at the end of
 the horizon in its constraint programme

---
 .../rcpsp/minizinc/rcpsp_single_mode_mzn.mzn                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
index de2ca8a..35d7b50 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
@@ -41,7 +41,7 @@ array [Tasks]      of set of int: suc;  % The task successors
 
 % Planning horizon
 int: t_max = sum(i in Tasks)(d[i]);     % End time of the planning horizon
-set of int: Times = 0..t_max-1;     % Possible start times
+set of int: Times = 0..t_max;     % Possible start times
 
 %-----------------------------------------------------------------------------%
 % Model variables.
-- 
2.43.0


From bb253755afacb19b935e9e690271f615aaa09bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 095/135] fix: constrain the modes of the tasks of task_mode,
 not those of start_times

---
 .../discrete_optimization/rcpsp/solver/cp_solvers.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index ffc5bde..53f84be 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -334,7 +334,7 @@ class CP_MRCPSP_MZN(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -587,7 +587,7 @@ class CP_MRCPSP_MZN_NOBOOL(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -732,7 +732,7 @@ class CP_MRCPSP_MZN_MODES:
         if p_s is not None:
             constraint_strings = []
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
-- 
2.43.0


From 15f5c8b7dad13b4e065f5a3d582f9f972378b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 096/135] fix: number the modes of RCPSP one after the other in
 CP_MRCPSP_MZN_MODES

---
 .../discrete_optimization/rcpsp/solver/cp_solvers.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index 53f84be..fc332a4 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -690,11 +690,11 @@ class CP_MRCPSP_MZN_MODES:
         self.modeindex_map = {}
 
         for act in sorted_tasks:
-            tmp = list(self.rcpsp_model.mode_details[act].keys())
+            tmp = sorted(self.rcpsp_model.mode_details[act].keys())
             # tmp = [counter + x for x in tmp]
             for i in range(len(tmp)):
                 original_mode_index = tmp[i]
-                mod_index = counter+tmp[i]
+                mod_index = counter+i+1
                 tmp[i] = mod_index
                 self.modeindex_map[mod_index] = {'task': act, 'original_mode_index': original_mode_index}
             modes.append(set(tmp))
@@ -709,7 +709,7 @@ class CP_MRCPSP_MZN_MODES:
         for res in self.rcpsp_model.resources.keys():
             rreq.append([])
             for task in sorted_tasks:
-                for mod in self.rcpsp_model.mode_details[task].keys():
+                for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
                     rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
             index += 1
 
-- 
2.43.0


From c27067e53c548336fbd21fe32e8582d0c690e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 097/135] fix: let tasks wait for their resources until the end
 of the calendar in the constraint programme of RCPSP

---
 .../rcpsp/minizinc/fzn_my_cumulative.mzn                     | 2 +-
 .../rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn         | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
index 4ed6366..b4e28a0 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
@@ -33,7 +33,7 @@ predicate cumulative_time_calendar(array[int] of var int: s,
         int: late  = max([ ub(s[i]) + ub(d[i]) | i in Tasks ])
     } in (
         forall( t in early..late ) (
-            b[t+1] >= sum( i in Tasks ) (
+            (if t+1 in index_set(b) then b[t+1] else 0 endif) >= sum( i in Tasks ) (
                 bool2int(s[i] <= t /\ t < s[i] + d[i]) * r[i]
             )
         )
diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
index 13ffdcb..5376d02 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
@@ -61,9 +61,10 @@ int: max_mrreq = max(k in Res, m in Mod)(mrreq[k,m]);
 %---------------------------------------------------------------------------%
 % Variables
 
-int: UB = sum(i in Act)(max([mdur[m] | m in mode[i]]));
-
 int: max_time;
+% Tasks may have to wait for their resources: the sum of the durations is not a bound.
+int: UB = max(max_time, sum(i in Act)(max([mdur[m] | m in mode[i]])));
+
 set of int: TIME_ARR = 1..max_time;
 array[Res, TIME_ARR] of int: ressource_capacity_time;
 
-- 
2.43.0


From 9b9ea738a51998f6d71b89f87eebac5f0edeab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 098/135] fix: give the best solution of the integer programmes
 of RCPSP, not the worst one

---
 .../rcpsp/solver/rcpsp_lp_solver.py            | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index caf2946..7f26fa5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -190,8 +190,10 @@ class LP_RCPSP(MilpSolver):
                 print("Problem =", rcpsp_schedule, len(rcpsp_schedule))
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
+                             best_solution=max(list_solution_fits,
+                                               key=lambda x: x[1]
+                                               if self.params_objective_function.sense_function
+                                               == ModeOptim.MAXIMIZATION else -x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
@@ -390,8 +392,10 @@ class LP_MRCPSP(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
+                             best_solution=max(list_solution_fits,
+                                               key=lambda x: x[1]
+                                               if self.params_objective_function.sense_function
+                                               == ModeOptim.MAXIMIZATION else -x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
@@ -634,8 +638,10 @@ class LP_MRCPSP_GUROBI(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
+                             best_solution=max(list_solution_fits,
+                                               key=lambda x: x[1]
+                                               if self.params_objective_function.sense_function
+                                               == ModeOptim.MAXIMIZATION else -x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
-- 
2.43.0


From e61f6fad3f14f6888bbce12e58b552218ce9f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 099/135] fix: build the integer programmes of RCPSP with the
 arguments given to solve

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index 7f26fa5..496ccc6 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -198,7 +198,7 @@ class LP_RCPSP(MilpSolver):
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
         if self.model is None:
-            self.init_model()
+            self.init_model(**kwargs)
         limit_time_s = parameters_milp.TimeLimit
         self.model.sol_pool_size = parameters_milp.PoolSolutions
         self.model.max_mip_gap_abs = parameters_milp.MIPGapAbs
@@ -400,7 +400,7 @@ class LP_MRCPSP(MilpSolver):
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
         if self.model is None:
-            self.init_model(greedy_start=False, **kwargs)
+            self.init_model(**{"greedy_start": False, **kwargs})
         limit_time_s = parameters_milp.TimeLimit
         self.model.sol_pool_size = parameters_milp.PoolSolutions
         self.model.max_mip_gap_abs = parameters_milp.MIPGapAbs
@@ -646,7 +646,7 @@ class LP_MRCPSP_GUROBI(MilpSolver):
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
         if self.model is None:
-            self.init_model(greedy_start=False, **kwargs)
+            self.init_model(**{"greedy_start": False, **kwargs})
         self.model.setParam("TimeLimit", parameters_milp.TimeLimit)
         self.model.setParam("MIPGapAbs", parameters_milp.MIPGapAbs)
         self.model.setParam("PoolSolutions", parameters_milp.PoolSolutions)
-- 
2.43.0


From c7410cd6c907f880d529bb458bbeb7933825a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 100/135] fix: start the integer programme of RCPSP with
 calendars from the greedy solver for calendars

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index 496ccc6..4c54338 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -238,7 +238,10 @@ class LP_MRCPSP(MilpSolver):
             if greedy_start:
                 if verbose:
                     print("Computing greedy solution")
-                greedy_solver = PileSolverRCPSP(self.rcpsp_model)
+                if isinstance(self.rcpsp_model, RCPSPModelCalendar):
+                    greedy_solver = PileSolverRCPSP_Calendar(self.rcpsp_model)
+                else:
+                    greedy_solver = PileSolverRCPSP(self.rcpsp_model)
                 store_solution = greedy_solver.solve(greedy_choice=GreedyChoice.MOST_SUCCESSORS)
                 self.start_solution = store_solution.get_best_solution_fit()[0]
                 makespan = self.rcpsp_model.evaluate(self.start_solution)["makespan"]
-- 
2.43.0


From eb1337f9ca0f33339f69afbcae845a02cca99ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 101/135] fix: read the last solution of RCPSP programmes whose
 output has its own type

---
 .../discrete_optimization/rcpsp/solver/cp_solvers.py   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index fc332a4..b0e2547 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -143,8 +143,8 @@ class CP_RCPSP_MZN(CPSolver):
                 else:
                     starts += [result[i, "s"]]
         else:
-            if isinstance(result, RCPSPSolCP):
-                starts += [result.dict["s"]]
+            if isinstance(result.solution, RCPSPSolCP):
+                starts += [result.solution.dict["s"]]
             else:
                 starts = [result["s"]]
 
@@ -379,9 +379,9 @@ class CP_MRCPSP_MZN(CPSolver):
                     mruns += [result[i, "mrun"]]
 
         else:
-            if isinstance(result, RCPSPSolCP):
-                starts += [result.dict["start"]]
-                mruns += [result.dict["mrun"]]
+            if isinstance(result.solution, RCPSPSolCP):
+                starts += [result.solution.dict["start"]]
+                mruns += [result.solution.dict["mrun"]]
             else:
                 starts = [result["start"]]
                 mruns = [result["mrun"]]
-- 
2.43.0


From 9cf61f9c20340fd453d9a952d497c4ef82b241e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 102/135] fix: let the sink of multi mode RCPSP start after all
 the tasks in its integer programme

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index 4c54338..22fd38a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -274,7 +274,10 @@ class LP_MRCPSP(MilpSolver):
            for suc in self.rcpsp_model.successors[task]:
                S.append([task, suc])
         # print('S: ', S)
-        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p)))
+        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p)+1))
+        if isinstance(self.rcpsp_model, RCPSPModelCalendar):
+            # tasks may have to wait for their resources.
+            self.T = range(min(len(self.rcpsp_model.resources[r]) for r in self.rcpsp_model.resources))
         # we have a better self.T to limit the number of variables :
         if self.start_solution.rcpsp_schedule_feasible:
             self.T = range(int(makespan+1))
-- 
2.43.0


From fd800bab1bf87e580098b2fc60ef9ba258ddef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 103/135] fix: keep the source, the sink and the one unit per
 task option of multi-skill models

---
 .../rcpsp_multiskill/rcpsp_multiskill.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 51dde23..9d00e03 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -593,7 +593,10 @@ class MS_RCPSPModel(Problem):
                              mode_details=self.mode_details,
                              successors=self.successors,
                              horizon=self.horizon,
-                             horizon_multiplier=self.horizon_multiplier)
+                             horizon_multiplier=self.horizon_multiplier,
+                             sink_task=self.sink_task,
+                             source_task=self.source_task,
+                             one_unit_per_task_max=self.one_unit_per_task_max)
 
     def to_variant_model(self):
         return MS_RCPSPModel_Variant(skills_set=self.skills_set,
@@ -606,6 +609,8 @@ class MS_RCPSPModel(Problem):
                                      successors=self.successors,
                                      horizon=self.horizon,
                                      horizon_multiplier=self.horizon_multiplier,
+                                     sink_task=self.sink_task,
+                                     source_task=self.source_task,
                                      one_unit_per_task_max=self.one_unit_per_task_max)
 
     def get_dummy_solution(self):
@@ -639,7 +644,10 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                              mode_details=mode_details,
                              successors=successors,
                              horizon=horizon,
-                             horizon_multiplier=horizon_multiplier)
+                             horizon_multiplier=horizon_multiplier,
+                             sink_task=sink_task,
+                             source_task=source_task,
+                             one_unit_per_task_max=one_unit_per_task_max)
         self.fixed_modes = None
         self.fixed_permutation = None
         self.fixed_priority_worker_per_task = None
-- 
2.43.0


From 41f248aa6d6cd513ad6ad0e65cda9613360b4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 104/135] fix: keep the salary of copied employees

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 9d00e03..b04dfd8 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -334,7 +334,8 @@ class Employee:
     def copy(self):
         return Employee(dict_skill={s: self.dict_skill[s].copy()
                                     for s in self.dict_skill},
-                        calendar_employee=list(self.calendar_employee))
+                        calendar_employee=list(self.calendar_employee),
+                        salary=self.salary)
 
 
 def intersect(i1, i2):
-- 
2.43.0


From bfc28ca3f5ad1058be0014000072b75c8ca06686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 105/135] fix: report the modes the multi-skill schedule was
 built with

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index b04dfd8..b7b2b31 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -147,13 +147,13 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
     modes_extended = deepcopy(solution.modes_vector)
     modes_extended.insert(0, 1)
     modes_extended.append(1)
-    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('pre-modes_extended: ', modes_extended)
     # fix modes in case specified mode not in mode details for the activites
     for i in range(len(modes_extended)):
         # print(list(self.problem.mode_details[i + 1].keys()))
         if modes_extended[i] not in list(problem.mode_details[i + 1].keys()):
             modes_extended[i] = 1
+    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('modes_extended: ', modes_extended)
     # print('start SGS')
     employee_usage = {}
-- 
2.43.0


From 93a650265b9d9f9d21228f7d20d62ded7c135e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 106/135] fix: do not occupy workers who hold no skill of the
 task

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index b7b2b31..5ed5227 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -258,7 +258,7 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                 worker_used = []
                 current_skills = {s: 0. for s in required_skills}
                 for w in priority_list_this_task:
-                    if w in worker_ids:
+                    if w in worker_ids and any(s in problem.employees[w].dict_skill for s in required_skills):
                         worker_used += [w]
                         for s in problem.employees[w].dict_skill:
                             if s in current_skills:
-- 
2.43.0


From 60dc96c773c78de7371f42af8e6a3a572f318eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 107/135] fix: choose the single worker of a task by its
 priority list

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 5ed5227..e9ea039 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -222,7 +222,6 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                            else:
                                good = True
                                ws += [worker]
-                               break
                        valid = good
                        if good:
                            worker_ids = ws
-- 
2.43.0


From 9fd9231e8a79d281963ded5b768ebbfd1a31be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 108/135] fix: fix modes counted from zero as the modes of the
 solution

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index e9ea039..a574336 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -711,7 +711,7 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             self.set_fixed_modes(sol.modes_vector)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'modes_vector_from0':
-            modes_corrected = [x + 1 for x in sol.modes_vector]
+            modes_corrected = [x + 1 for x in sol.modes_vector_from0]
             self.set_fixed_modes(modes_corrected)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'priority_worker_per_task':
-- 
2.43.0


From 0f73e8e56210b822b62283f592a3a3bd9ea2ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 109/135] fix: rank the employees of a multi-skill model
 whatever their names

---
 .../rcpsp_multiskill/rcpsp_multiskill.py             | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index a574336..a63cb58 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -739,7 +739,8 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             tmp = []
             for j in range(len(self.employees.keys())):
                 tmp.append(permutation[i * len(self.employees.keys()) + j])
-            tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
+            employees = list(self.employees.keys())
+            tmp_corrected = [employees[int(x) - 1] for x in ss.rankdata(tmp)]
             priority_worker_per_task_corrected.append(tmp_corrected)
         return priority_worker_per_task_corrected
 
@@ -767,13 +768,8 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
         elif encoding_name == 'priority_worker_per_task':
             # change the resource permutation priority lists in the solution from int_vector and set the permutation
             # with self.fixed_permutation and the modes with self.fixed_modes
-            priority_worker_per_task_corrected = []
-            for i in range(self.n_jobs_non_dummy):
-                tmp = []
-                for j in range(len(self.employees.keys())):
-                    tmp.append(int_vector[i*len(self.employees.keys())+j])
-                tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
-                priority_worker_per_task_corrected.append(tmp_corrected)
+            priority_worker_per_task_corrected = \
+                self.convert_fixed_priority_worker_per_task_from_permutation(int_vector)
             rcpsp_sol = MS_RCPSPSolution_Variant(problem=self,
                                                  priority_list_task=self.fixed_permutation,
                                                  modes_vector=self.fixed_modes,
-- 
2.43.0


From 71da28596996db9978bbd47df5e284044301b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 110/135] fix: let satisfy answer for missing employees and
 dates after the calendars

---
 .../rcpsp_multiskill/rcpsp_multiskill.py      | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index a63cb58..7f4c1f6 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -479,8 +479,9 @@ class MS_RCPSPModel(Problem):
             if len(required_skills) > 0:
                 for skill in required_skills:
                     employees_used = [self.employees[emp].dict_skill[skill].skill_value
-                                      for emp in rcpsp_sol.employee_usage[task]
-                                      if skill in rcpsp_sol.employee_usage[task][emp]]
+                                      for emp in rcpsp_sol.employee_usage.get(task, {})
+                                      if skill in rcpsp_sol.employee_usage[task][emp]
+                                      and skill in self.employees[emp].dict_skill]
                     if sum(employees_used) < required_skills[skill]:
                         print('1')
                         return False
@@ -490,14 +491,14 @@ class MS_RCPSPModel(Problem):
                 # employee available at this time
                 if len(employee_used) > 0:
                     for e in employee_used:
-                        if not all(self.employees[e].calendar_employee[t]
+                        if not all(t < len(self.employees[e].calendar_employee)
+                                   and self.employees[e].calendar_employee[t]
                                    for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                   rcpsp_sol.schedule[task]["end_time"])):
                             print("Task : ", task)
                             print("Employee : ", e)
-                            print(e, [self.employees[e].calendar_employee[t]
-                                      for t in range(rcpsp_sol.schedule[task]["start_time"],
-                                                     rcpsp_sol.schedule[task]["end_time"])])
+                            print(e, self.employees[e].calendar_employee[rcpsp_sol.schedule[task]["start_time"]:
+                                                                         rcpsp_sol.schedule[task]["end_time"]])
                             print('Problem with employee availability')
                             return False
         overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks
@@ -513,7 +514,14 @@ class MS_RCPSPModel(Problem):
                 return False
         # ressource usage respected
         makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
-        for t in range(makespan):
+        for task in self.tasks:
+            start, end = rcpsp_sol.schedule[task]['start_time'], rcpsp_sol.schedule[task]['end_time']
+            if start < end and any(self.mode_details[task][rcpsp_sol.modes[task]][res] > 0
+                                   and end > len(self.resources_availability[res])
+                                   for res in self.resources_set):
+                print('Task running after the end of the resource calendar: ', task)
+                return False
+        for t in range(min([makespan] + [len(self.resources_availability[res]) for res in self.resources_set])):
             resource_usage = {}
             for res in self.resources_set:
                 resource_usage[res] = 0
-- 
2.43.0


From cf0b159f2aa43970bebf4df8354cafbf576d55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 111/135] fix: register the objective which multi-skill models
 evaluate

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 7f4c1f6..8f8162c 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -585,8 +585,7 @@ class MS_RCPSPModel(Problem):
         return EncodingRegister(dict_register)
 
     def get_objective_register(self) -> ObjectiveRegister:
-        dict_objective = {"makespan": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
-                          "mean_resource_reserve": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
+        dict_objective = {"makespan": {"type": TypeObjective.OBJECTIVE, "default_weight": -1}}
         return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
                                  objective_handling=ObjectiveHandling.SINGLE,
                                  dict_objective_to_doc=dict_objective)
-- 
2.43.0


From 40966ef891d2b275e5ef3c8b8642935c2a61591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 112/135] fix: count skills after the horizon at their own
 dates

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                   | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 8f8162c..ee1c597 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -409,11 +409,10 @@ class MS_RCPSPModel(Problem):
                                    for s in self.skills_set}
         for emp in self.employees:
             for j in range(len(self.employees[emp].calendar_employee)):
-                if self.employees[emp].calendar_employee[min(j,
-                                                             len(self.employees[emp].calendar_employee)-1)]:
+                if self.employees[emp].calendar_employee[j]:
                     for s in self.employees[emp].dict_skill:
-                        skills_availability[s][min(j,
-                                                   len(skills_availability[s])-1)] += self.employees[emp].dict_skill[s].skill_value
+                        if j < len(skills_availability[s]):
+                            skills_availability[s][j] += self.employees[emp].dict_skill[s].skill_value
         res_availability = deepcopy(self.resources_availability)
         for s in skills_availability:
             res_availability[s] = [int(x) for x in skills_availability[s]]
-- 
2.43.0


From f2f5b7407048cbe80917594d3eefde0893ad6838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 113/135] fix: read employees of multi-skill results as
 integers

---
 .../rcpsp_multiskill/rcpsp_multiskill_parser.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
index c833eda..fd2c3e5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
@@ -173,7 +173,7 @@ def parse_results(input_data):
             hour = int(words[0])
             for j in range(1, len(words)):
                 w = words[j].split("-")
-                ressource_id = w[0]
+                ressource_id = int(w[0])
                 task_id = int(w[1])
                 assignation[task_id] = ressource_id
                 schedule[task_id] = hour
-- 
2.43.0


From 05f58f6046a35b5f081fbf514be41189745a45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 114/135] fix: keep to the resources when shifting multi-skill
 tasks left

---
 .../rcpsp_multiskill/solvers/lns_post_process_rcpsp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
index c5da336..12a298c 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
@@ -74,7 +74,12 @@ def sgs_variant(solution: MS_RCPSPSolution,
             if all(all(worker_avail_in_time[emp][time]
                        for time in range(t,
                                          t+ solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"]))
-                   for emp in employee_used):
+                   for emp in employee_used) \
+                    and all(resource_avail_in_time[res][time] >= problem.mode_details[task][solution.modes[task]][res]
+                            for res in resource_avail_in_time
+                            for time in range(t,
+                                              t + solution.schedule[task]["end_time"]
+                                              - solution.schedule[task]["start_time"])):
                 new_starting_time = t
                 break
         duration = solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"]
@@ -83,6 +88,9 @@ def sgs_variant(solution: MS_RCPSPSolution,
         for t in range(new_starting_time, new_starting_time+duration):
             for emp in employee_used:
                 worker_avail_in_time[emp][t] = False
+            for res in resource_avail_in_time:
+                if res not in problem.non_renewable_resources:
+                    resource_avail_in_time[res][t] -= problem.mode_details[task][solution.modes[task]][res]
     new_solution = MS_RCPSPSolution(problem=problem,
                                     modes=solution.modes,
                                     schedule=new_proposed_schedule,
-- 
2.43.0


From edc3f846d80b0638d6b1e498fd3f70fe18f42c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 115/135] fix: let tasks without duration or skills be part of
 multi-skill programmes

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn         | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 3a983f0..3d355f3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -89,11 +89,9 @@ endif);
 constraint
     if add_calendar_constraint_unit then
         forall(i in Act)(
-             forall(w in Units)(
-                 let{var TIME_ARR0: st=start[i],
-                     var TIME_ARR0: end=start[i]+adur[i]} in (
-                        unit_used[w, i] <= min(t in st..end-1)(ressource_unit_capacity_time0[w, t])
-                     )
+             start[i]+adur[i] <= max_time /\
+             forall(w in Units, t in TIME_ARR0 where ressource_unit_capacity_time0[w, t] = 0)(
+                 unit_used[w, i] -> (t < start[i] \/ start[i]+adur[i] <= t)
              )
       )
     endif;
-- 
2.43.0


From fa2b935e72d5436991a3b29e4412a1a29306352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 116/135] fix: let multi-skill schedules of constraint
 programmes wait for the calendars

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 3d355f3..1655c35 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -150,7 +150,7 @@ int: max_mrreq = if nb_res>0 then max(k in Res, m in Mod)(mrreq[k,m]) else 0 end
 %---------------------------------------------------------------------------%
 % Variables
 int: max_time;
-int: UB = sum(i in Act)(max([mdur[m] | m in mode[i]]));
+int: UB = max_time;
 set of int: TIME_ARR=1..max_time+1;
 set of int: TIME_ARR0=0..max_time;
 array[Res, TIME_ARR] of int: ressource_capacity_time;
-- 
2.43.0


From 714935058a178a210f9e912d8b2ecd97c6b1f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 117/135] fix: keep to the calendars of the resources in
 multi-skill constraint programmes

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 1655c35..0f2806c 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -199,6 +199,16 @@ constraint forall(k in RRes)(
     cumulative(start, adur, [arreq[k,i] | i in Act], rcap[k])
 );
 
+constraint
+    if add_calendar_constraint_unit then
+        forall(k in RRes)(
+            my_cumulative(start, adur,
+                          [arreq[k,i] | i in Act],
+                          [ressource_capacity_time[k,t] | t in TIME_ARR],
+                          max_time)
+        )
+    endif;
+
 
 
     % Non-renewable resource constraints
-- 
2.43.0


From ee201039fdde24efdbc9e396d0fdc24f5fee39f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 118/135] fix: solve multi-skill projects without resources,
 within the length of their calendars

---
 .../rcpsp_multiskill/solvers/cp_solvers.py    | 83 +++++++++----------
 1 file changed, 39 insertions(+), 44 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index f21cc0d..2a01280 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -53,7 +53,6 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         self.resources_index = None
 
     def init_model(self, **args):
-        no_ressource = len(self.rcpsp_model.resources_list) == 0
         # model_type = "multi-calendar" if not no_ressource else "multi-calendar-no-ressource"
         model_type = "multi-calendar"
         model = Model(files_mzn[model_type])
@@ -71,9 +70,8 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         n_res = len(resources_list)
         # print('n_res: ', n_res)
         keys = []
-        if not no_ressource:
-            instance["n_res"] = n_res
-            keys += ["n_res"]
+        instance["n_res"] = n_res
+        keys += ["n_res"]
         if model_type == "multi-calendar":
             instance["exact_skills_need"] = exact_skills_need
             keys += ["exact_skills_need"]
@@ -119,15 +117,14 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         instance['dur'] = dur
         keys += ["dur"]
 
-        if not no_ressource:
-            rreq = []
-            index = 0
-            for res in resources_list:
-                rreq.append([])
-                for task in sorted_tasks:
-                    for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
-                        rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
-                index += 1
+        rreq = []
+        index = 0
+        for res in resources_list:
+            rreq.append([])
+            for task in sorted_tasks:
+                for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
+                    rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
+            index += 1
 
         skills_set = sorted(list(self.rcpsp_model.skills_set))
         nb_units = len(self.rcpsp_model.employees)
@@ -140,24 +137,23 @@ class CP_MS_MRCPSP_MZN(CPSolver):
                     skill_required[index].append(int(self.rcpsp_model.mode_details[task][mod].get(skill, 0)))
             index += 1
         if True:
-            if no_ressource:
-                instance["max_time"] = self.rcpsp_model.horizon
-                keys += ["max_time"]
-            else:
-                one_ressource = list(self.rcpsp_model.resources_availability.keys())[0]
-                instance["max_time"] = min(len(self.rcpsp_model.resources_availability[one_ressource])-1,
-                                               self.rcpsp_model.horizon)
-                # instance["max_time"] = 2842
-                keys += ["max_time"]
-                ressource_capacity_time = [[int(x)
-                                            for x in
-                                            self.rcpsp_model.resources_availability[res][:(instance["max_time"]+1)]]
-                                           for res in resources_list]
-                # print(instance["max_time"])
-                # print(len(ressource_capacity_time))
-                # print([len(x) for x in ressource_capacity_time])
-                instance["ressource_capacity_time"] = ressource_capacity_time
-                keys += ["ressource_capacity_time"]
+            # the calendars have one value per date between 0 and max_time.
+            instance["max_time"] = min([self.rcpsp_model.horizon]
+                                       + [len(self.rcpsp_model.resources_availability[res])-1
+                                          for res in resources_list]
+                                       + [len(self.rcpsp_model.employees[j].calendar_employee)-1
+                                          for j in self.rcpsp_model.employees])
+            # instance["max_time"] = 2842
+            keys += ["max_time"]
+            ressource_capacity_time = [[int(x)
+                                        for x in
+                                        self.rcpsp_model.resources_availability[res][:(instance["max_time"]+1)]]
+                                       for res in resources_list]
+            # print(instance["max_time"])
+            # print(len(ressource_capacity_time))
+            # print([len(x) for x in ressource_capacity_time])
+            instance["ressource_capacity_time"] = ressource_capacity_time
+            keys += ["ressource_capacity_time"]
         instance["nb_skill"] = len(self.rcpsp_model.skills_set)
         instance["skillreq"] = skill_required
         instance["nb_units"] = nb_units
@@ -179,21 +175,20 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         print("Employee position CP ", self.employees_position)
 
         # print('rreq: ', rreq)
-        if not no_ressource:
-            instance["rreq"] = rreq
-            keys += ["rreq"]
+        instance["rreq"] = rreq
+        keys += ["rreq"]
 
-            rcap = [int(max(self.rcpsp_model.resources_availability[x])) for x in resources_list]
-            # print('rcap: ', rcap)
-            instance["rcap"] = rcap
-            keys += ["rcap"]
-            # print('non_renewable_resources:', self.rcpsp_model.non_renewable_resources)
-            rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1
-                     for res in resources_list]
+        rcap = [int(max(self.rcpsp_model.resources_availability[x])) for x in resources_list]
+        # print('rcap: ', rcap)
+        instance["rcap"] = rcap
+        keys += ["rcap"]
+        # print('non_renewable_resources:', self.rcpsp_model.non_renewable_resources)
+        rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1
+                 for res in resources_list]
 
-            # print('rtype: ', rtype)
-            instance["rtype"] = rtype
-            keys += ["rtype"]
+        # print('rtype: ', rtype)
+        instance["rtype"] = rtype
+        keys += ["rtype"]
 
         succ = [set(self.rcpsp_model.successors[task]) for task in sorted_tasks]
         # print('succ: ', succ)
-- 
2.43.0


From cec249e5fbcd30bc19b931ade2cb9723f359dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 119/135] fix: constrain the modes of the tasks of task_mode in
 multi-skill programmes

---
 .../rcpsp_multiskill/solvers/cp_solvers.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index 2a01280..ba2a013 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -220,7 +220,7 @@ class CP_MS_MRCPSP_MZN(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
-- 
2.43.0


From 3bc4e3dd96e0e189163d8c5f9319d78c170d22b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 120/135] fix: let the dates of multi-skill integer programmes
 pass the end of the calendars

---
 .../rcpsp_multiskill/solvers/lp_model.py                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
index df3efac..2d2d6e0 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
@@ -376,7 +376,8 @@ class LP_Solver_MRSCPSP(MilpSolver):
                                                   - self.modes[task][mode] <= 0)
                             self.model.add_constr(self.employee_usage[(employee, task, mode, t, s)]
                                                   - self.start_times[task][mode][t] <= 0)
-                            if any(not self.rcpsp_model.employees[employee].calendar_employee[tt]
+                            calendar = self.rcpsp_model.employees[employee].calendar_employee
+                            if any(tt >= len(calendar) or not calendar[tt]
                                    for tt in range(t, t+self.rcpsp_model.mode_details[task][mode]["duration"])):
                                 # print((employee, task, mode, t, s), "will be 0")
                                 # print(self.rcpsp_model.employees[employee].calendar_employee)
@@ -408,7 +409,7 @@ class LP_Solver_MRSCPSP(MilpSolver):
                                            for mode in self.start_times[task]
                                            for time in self.start_times[task][mode]
                                            if time <= t < time+int(self.rcpsp_model.mode_details[task][mode]["duration"]))
-                                  <= renewable[r][t])
+                                  <= (renewable[r][t] if t < len(renewable[r]) else 0))
         # for non renewable ones.
         for r in non_renewable:
             self.model.add_constr(xsum(int(self.rcpsp_model.mode_details[task][mode][r])
-- 
2.43.0


From 8d80a7789cc8ed46bf5feae142128db0c8d055c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 121/135] fix: let employees use several skills for a task in
 multi-skill integer programmes

---
 .../rcpsp_multiskill/solvers/lp_model.py              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
index 2d2d6e0..9232f79 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
@@ -395,10 +395,17 @@ class LP_Solver_MRSCPSP(MilpSolver):
         #     print("Employee ", emp)
         from itertools import product
 
+        # an employee who uses a skill (or several ones) for a task works on it.
+        employee_work = {}
+        for x in self.employee_usage:
+            if x[:4] not in employee_work:
+                employee_work[x[:4]] = self.model.add_var(name="work_{},{},{},{}".format(*x[:4]),
+                                                          var_type=BINARY)
+            self.model.add_constr(self.employee_usage[x] - employee_work[x[:4]] <= 0)
         # can't work on overlapping tasks.
         for emp, t in product(employees, times):
-            self.model.add_constr(xsum(self.employee_usage[x]
-                                       for x in self.employee_usage
+            self.model.add_constr(xsum(employee_work[x]
+                                       for x in employee_work
                                        if x[0] == emp and
                                        x[3] <= t < x[3]+int(self.rcpsp_model.mode_details[x[1]][x[2]]["duration"])) <= 1)
         # ressource usage limit
-- 
2.43.0


From 5aa5ef483538899b775ef898f5a847a2d0836076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 122/135] fix: read the last solution of multi-skill programmes
 whose output has its own type

---
 .../rcpsp_multiskill/solvers/cp_solvers.py                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index ba2a013..0390b06 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -269,10 +269,10 @@ class CP_MS_MRCPSP_MZN(CPSolver):
                 # array_skill = result[i, "array_skills_required"]
                 # print("Objective : ", result[i, "objective"])
         else:
-            if isinstance(result, MS_RCPSPSolCP):
-                starts += [result.dict["start"]]
-                mruns += [result.dict["mrun"]]
-                units_used += [result.dict["unit_used"]]
+            if isinstance(result.solution, MS_RCPSPSolCP):
+                starts += [result.solution.dict["start"]]
+                mruns += [result.solution.dict["mrun"]]
+                units_used += [result.solution.dict["unit_used"]]
             else:
                 starts += [result["start"]]
                 mruns += [result["mrun"]]
-- 
2.43.0


From b0861bbd8e7ee635028e864621f110a07efa7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 123/135] fix: search large neighbourhoods of integer
 programmes without initial solution

---
 .../discrete_optimization/generic_tools/lns_mip.py         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
index 866977e..4e6647f 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
@@ -89,7 +89,7 @@ class LNS_MILP(SolverDO):
         else:
             best_objective = float('inf')
             best_solution = None
-            constraint_iterable = {"empty": []}
+            constraint_iterable = None
             store_lns = None
         for iteration in range(nb_iteration_lns):
             result_store = self.milp_solver.solve(parameters_milp=parameters_milp,
@@ -120,8 +120,9 @@ class LNS_MILP(SolverDO):
             for s, f in result_store.list_solution_fits:
                 store_lns.add_solution(solution=s, fitness=f)
             print('Removing constraint:')
-            self.constraint_handler.remove_constraints_from_previous_iteration(milp_solver=self.milp_solver,
-                                                                               previous_constraints=constraint_iterable)
+            if constraint_iterable is not None:
+                self.constraint_handler.remove_constraints_from_previous_iteration(milp_solver=self.milp_solver,
+                                                                                   previous_constraints=constraint_iterable)
             print('Adding constraint:')
             constraint_iterable = self.constraint_handler.adding_constraint_from_results_store(milp_solver=
                                                                                                self.milp_solver,
-- 
2.43.0


From 1a0cb16d238130631c3bd6077f2bfe90f82132e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 124/135] fix: count the iterations without improvement of
 integer programmes

---
 .../discrete_optimization/generic_tools/lns_mip.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
index 4e6647f..6547249 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
@@ -87,7 +87,7 @@ class LNS_MILP(SolverDO):
             best_solution = init_solution.copy()
             best_objective = objective
         else:
-            best_objective = float('inf')
+            best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float("inf")
             best_solution = None
             constraint_iterable = None
             store_lns = None
@@ -108,13 +108,17 @@ class LNS_MILP(SolverDO):
                     current_nb_iteration_no_improvement += 1
                 best_solution = bsol
                 best_objective = fit
-            if sense == ModeOptim.MINIMIZATION and fit <= best_objective:
+            elif sense == ModeOptim.MAXIMIZATION:
+                current_nb_iteration_no_improvement += 1
+            elif sense == ModeOptim.MINIMIZATION and fit <= best_objective:
                 if fit < best_objective:
                     current_nb_iteration_no_improvement = 0
                 else:
                     current_nb_iteration_no_improvement += 1
                 best_solution = bsol
                 best_objective = fit
+            elif sense == ModeOptim.MINIMIZATION:
+                current_nb_iteration_no_improvement += 1
             if skip_first_iteration and iteration == 0:
                 store_lns = result_store
             for s, f in result_store.list_solution_fits:
-- 
2.43.0


From 579d8776fed0a6a834ae2f101fa4ec07c5d0d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 125/135] fix: keep searching when the first iteration of a
 constraint programme finds nothing

---
 .../builders/discrete_optimization/generic_tools/lns_cp.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_cp.py b/skdecide/builders/discrete_optimization/generic_tools/lns_cp.py
index bcae51f..dafc94d 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_cp.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_cp.py
@@ -79,7 +79,7 @@ class LNS_CP(SolverDO):
             print('Starting iteration n°', iteration,
                   " current objective ", best_objective)
             with self.cp_solver.instance.branch() as child:
-                if iteration == 0 and not skip_first_iteration or iteration >= 1:
+                if store_lns is not None:
                     constraint_iterable = self.constraint_handler \
                         .adding_constraint_from_results_store(cp_solver=self.cp_solver,
                                                               child_instance=child,
@@ -120,7 +120,7 @@ class LNS_CP(SolverDO):
                             best_objective = fit
                         elif sense == ModeOptim.MINIMIZATION:
                             current_nb_iteration_no_improvement += 1
-                        if skip_first_iteration and iteration == 0:
+                        if store_lns is None:
                             store_lns = result_store
                         for s, f in result_store.list_solution_fits:
                             store_lns.add_solution(solution=s, fitness=f)
-- 
2.43.0


From ff525ccc6ae3c7a8f5a8f18589942466932c3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 126/135] fix: leave free the customers whose facility is
 pruned from the model

---
 .../facility/solvers/facility_lp_lns_solver.py                 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py
index 9533c3c..e05ea7b 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py
@@ -64,6 +64,9 @@ class ConstraintHandlerFacility(ConstraintHandler):
             if c in subpart_customer:
                 dict_f_fixed[c] = dict_f_start[c]
         x_var = milp_solver.variable_decision["x"]
+        # customers can't be fixed to facilities which are pruned from the model.
+        dict_f_fixed = {c: dict_f_fixed[c] for c in dict_f_fixed
+                        if isinstance(x_var[dict_f_fixed[c], c], mip.Var)}
         lns_constraint = {}
         for key in x_var:
             f, c = key
-- 
2.43.0


From b8bd9081ace4c2d93fa26bda116660ddc563efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 127/135] fix: sample the tasks of scheduling neighbourhoods
 from lists

---
 .../rcpsp/solver/rcpsp_cp_lns_solver.py                   | 4 ++--
 .../rcpsp/solver/rcpsp_lp_lns_solver.py                   | 8 ++++----
 .../rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py    | 4 ++--
 .../rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py    | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 321a643..44a2841 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -38,7 +38,7 @@ class ConstraintHandlerStartTimeInterval_CP(ConstraintHandler):
                      if current_solution.rcpsp_schedule[x]["end_time"]
                      >= max_time-self.delta_time_from_makepan_to_not_fix]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -103,7 +103,7 @@ class ConstraintHandlerByPart_CP(ConstraintHandler):
                      if current_solution.rcpsp_schedule[x]["end_time"]
                      >= max_time - self.delta_time_from_makepan_to_not_fix]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
index c63b245..b5ff15a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
@@ -115,7 +115,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
         milp_solver.model.start = start
 
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
@@ -169,7 +169,7 @@ class ConstraintHandlerStartTimeInterval(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time-5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -229,7 +229,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -291,7 +291,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP_GRB(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
index 675ad94..9808e85 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
@@ -117,14 +117,14 @@ class ConstraintHandlerStartTimeInterval_CP(ConstraintHandler):
                      if current_solution.schedule[x]["end_time"] >= max_time-20]
         # last_jobs = []
         nb_jobs = self.problem.n_jobs_non_dummy + 2
-        jobs_to_fix = set(random.sample(current_solution.schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
                 jobs_to_fix.remove(lj)
         list_strings = []
         self.employees_position = sorted(self.problem.employees)
-        task_to_fix = set(random.sample(current_solution.schedule.keys(),
+        task_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_task_to_fix_employee * nb_jobs)))
         employee_to_not_fix = set(random.sample(range(1, len(self.employees_position)+1),
                                                 min(5, int(1. * len(self.employees_position)))))
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
index 8d7d4da..324f9e7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
@@ -77,7 +77,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
                 start += [(milp_solver.modes[j][m], 1 if mode == m else 0)]
         milp_solver.model.start = start
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
@@ -127,7 +127,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         last_jobs = [x for x in current_solution.schedule
                      if current_solution.schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.nb_tasks
-        jobs_to_fix = set(random.sample(current_solution.schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
-- 
2.43.0


From 0ce2a41c927899380bc010808cfb3b736ae1e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 128/135] fix: fix start dates of multi-skill schedules in
 integer programmes

---
 .../rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
index 324f9e7..4d5959e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
@@ -77,7 +77,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
                 start += [(milp_solver.modes[j][m], 1 if mode == m else 0)]
         milp_solver.model.start = start
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
-- 
2.43.0


From 5230295bd0788007e8846af398033835b64c4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 129/135] fix: tasks whose consumption varies can be checked
 for feasibility with non-renewable resources

---
 skdecide/builders/scheduling/resource_renewability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/resource_renewability.py b/skdecide/builders/scheduling/resource_renewability.py
index 16ff3b8..9dbc2d1 100644
--- a/skdecide/builders/scheduling/resource_renewability.py
+++ b/skdecide/builders/scheduling/resource_renewability.py
@@ -35,7 +35,7 @@ class MixedRenewable:
                 mode_possible = True
                 for res in self.get_resource_types_names():
                     if not self.get_resource_renewability()[res]:
-                        need = self.get_task_modes(task_id)[mode].get_resource_need(res)
+                        need = self.get_task_modes(task_id)[mode].get_resource_need_at_time(res, time=0)
                         avail = state.resource_availability[res] - state.resource_used[res]
                         if avail - need < 0:
                             mode_possible = False
-- 
2.43.0


From f6db4867c8c46f603fcd91b3af8833c1bbc33d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 130/135] fix: calendar breaks are those of the modes of the
 schedule

---
 .../rcpsp/solver/calendar_solver_iterative.py    | 16 +++++++++-------
 .../solvers/calendar_solver_iterative.py         | 15 ++++++++-------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
index 7c91130..2cdf1dc 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
@@ -29,23 +29,24 @@ def get_ressource_breaks(problem_calendar, problem_no_calendar, solution: RCPSPS
         ressource_arrays_usage[r] = np.zeros((len(problem_calendar.resources[r]),
                                               len(solution.rcpsp_schedule)))
     sorted_keys_schedule = sorted(solution.rcpsp_schedule.keys())
+    modes = {j: mode for j, mode in zip(sorted_keys_schedule, [1] + list(solution.rcpsp_modes) + [1])}
     for ji in range(len(sorted_keys_schedule)):
         j = sorted_keys_schedule[ji]
-        for r in problem_calendar.mode_details[j][1]:
+        for r in problem_calendar.mode_details[j][modes[j]]:
             if r == "duration":
                 continue
             if r is None:
                 continue
             if r == "None":
                 continue
-            if problem_calendar.mode_details[j][1][r] == 0:
+            if problem_calendar.mode_details[j][modes[j]][r] == 0:
                 continue
             if solution.rcpsp_schedule[j]["end_time"] == solution.rcpsp_schedule[j]["start_time"]:
                 continue
             ressource_arrays_usage[r][int(solution.rcpsp_schedule[j]["start_time"]):
                                       int(solution.rcpsp_schedule[j]["end_time"]), ji] = 1
             ressource_arrays[r][int(solution.rcpsp_schedule[j]["start_time"]):
-                                int(solution.rcpsp_schedule[j]["end_time"])] += problem_calendar.mode_details[j][1][r]
+                                int(solution.rcpsp_schedule[j]["end_time"])] += problem_calendar.mode_details[j][modes[j]][r]
     index_ressource = {}
     task_concerned = {}
     constraints = {}
@@ -62,13 +63,14 @@ def get_ressource_breaks(problem_calendar, problem_no_calendar, solution: RCPSPS
         constraints[r] = {}
         for t in task_concerned[r]:
             current_start = solution.rcpsp_schedule[t]["start_time"]
+            need = min(problem_calendar.mode_details[t][m].get(r, 0)
+                       if problem_calendar.mode_details[t][m]["duration"] > 0 else 0
+                       for m in problem_calendar.mode_details[t])
             first_possible_start_future = next((st for st in range(current_start, len(problem_calendar.resources[r]))
-                                               if problem_calendar.resources[r][st]
-                                                >= problem_calendar.mode_details[t][1][r]),
+                                               if problem_calendar.resources[r][st] >= need),
                                                None)
             first_possible_start_before = next((st for st in range(current_start, -1, -1)
-                                               if problem_calendar.resources[r][st]
-                                                >= problem_calendar.mode_details[t][1][r]),
+                                               if problem_calendar.resources[r][st] >= need),
                                                None)
             #if first_possible_start_before is not None:
             #    first_possible_start_before = \
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
index aa78546..25ecd5e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
@@ -38,7 +38,7 @@ def get_ressource_breaks(problem_calendar: MS_RCPSPModel,
     sorted_keys_schedule = sorted(solution.schedule.keys())
     for ji in range(len(sorted_keys_schedule)):
         j = sorted_keys_schedule[ji]
-        for r in problem_calendar.mode_details[j][1]:
+        for r in problem_calendar.mode_details[j][solution.modes[j]]:
             if r == "duration":
                 continue
             if r is None:
@@ -47,14 +47,14 @@ def get_ressource_breaks(problem_calendar: MS_RCPSPModel,
                 continue
             if r not in ressource_arrays_usage:
                 continue
-            if problem_calendar.mode_details[j][1][r] == 0:
+            if problem_calendar.mode_details[j][solution.modes[j]][r] == 0:
                 continue
             if solution.schedule[j]["end_time"] == solution.schedule[j]["start_time"]:
                 continue
             ressource_arrays_usage[r][int(solution.schedule[j]["start_time"]):
                                       int(solution.schedule[j]["end_time"]), ji] = 1
             ressource_arrays[r][int(solution.schedule[j]["start_time"]):
-                                int(solution.schedule[j]["end_time"])] += problem_calendar.mode_details[j][1][r]
+                                int(solution.schedule[j]["end_time"])] += problem_calendar.mode_details[j][solution.modes[j]][r]
 
     for ji in range(len(sorted_keys_schedule)):
         j = sorted_keys_schedule[ji]
@@ -81,13 +81,14 @@ def get_ressource_breaks(problem_calendar: MS_RCPSPModel,
         constraints[r] = {}
         for t in task_concerned[r]:
             current_start = solution.schedule[t]["start_time"]
+            need = min(problem_calendar.mode_details[t][m].get(r, 0)
+                       if problem_calendar.mode_details[t][m]["duration"] > 0 else 0
+                       for m in problem_calendar.mode_details[t])
             first_possible_start_future = next((st for st in range(current_start, len(problem_calendar.resources_availability[r]))
-                                               if problem_calendar.resources_availability[r][st]
-                                                >= problem_calendar.mode_details[t][1][r]),
+                                               if problem_calendar.resources_availability[r][st] >= need),
                                                None)
             first_possible_start_before = next((st for st in range(current_start, -1, -1)
-                                               if problem_calendar.resources_availability[r][st]
-                                                >= problem_calendar.mode_details[t][1][r]),
+                                               if problem_calendar.resources_availability[r][st] >= need),
                                                None)
             # if first_possible_start_before is not None:
             #     first_possible_start_before = \
-- 
2.43.0


From 69c0eb66d413e9baf4b41169c5b985d3fdfc69e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 131/135] fix: rebuilding schedules under calendars ends, and
 does not flag infeasible ones as satisfying

---
 .../rcpsp/solver/calendar_solver_iterative.py                | 5 +++--
 .../rcpsp_multiskill/solvers/calendar_solver_iterative.py    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
index 2cdf1dc..bf7b352 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
@@ -116,7 +116,7 @@ class PostProcessSolutionNonFeasible(PostProcessSolution):
         self.check_sol = check_solution
 
     def build_other_solution(self, result_storage: ResultStorage) -> ResultStorage:
-        for sol in result_storage.list_solution_fits:  # [-min(2, len(result_storage.list_solution_fits)):]:
+        for sol in list(result_storage.list_solution_fits):  # [-min(2, len(result_storage.list_solution_fits)):]:
             if "satisfy" not in sol[0].__dict__.keys():
                 rb, constraints = get_ressource_breaks(self.problem_calendar, self.problem_no_calendar, sol[0])
                 sol[0].satisfy = not(any(len(rb[r]) > 0 for r in rb))
@@ -128,7 +128,8 @@ class PostProcessSolutionNonFeasible(PostProcessSolution):
                                              rcpsp_permutation=sol[0].rcpsp_permutation,
                                              rcpsp_modes=sol[0].rcpsp_modes)
 
-                    solution.satisfy = self.check_sol(self.problem_calendar, solution)
+                    solution.satisfy = solution.rcpsp_schedule_feasible \
+                        and self.check_sol(self.problem_calendar, solution)
                     result_storage.list_solution_fits += [(solution,
                                                            -self.problem_calendar.evaluate(solution)["makespan"])]
         # result_storage.list_solution_fits = [r for r in result_storage.list_solution_fits
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
index 25ecd5e..3797ce9 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
@@ -171,7 +171,7 @@ class PostProcessSolutionNonFeasible(PostProcessSolution):
                                        for n in self.graph.nodes_name}
 
     def build_other_solution(self, result_storage: ResultStorage) -> ResultStorage:
-        for sol in result_storage.list_solution_fits:  # [-min(2, len(result_storage.list_solution_fits)):]:
+        for sol in list(result_storage.list_solution_fits):  # [-min(2, len(result_storage.list_solution_fits)):]:
             if "satisfy" not in sol[0].__dict__.keys():
                 rb, constraints, constraint_emp = get_ressource_breaks(self.problem_calendar, sol[0])
                 sol[0].satisfy = not(any(len(rb[r]) > 0 for r in rb))
-- 
2.43.0


From b1788e688d43ef5235753e21ec6c004183e46ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 132/135] fix: iterative calendar search goes on when its first
 iteration finds nothing

---
 .../rcpsp/solver/calendar_solver_iterative.py     | 13 ++++++-------
 .../solvers/calendar_solver_iterative.py          | 15 +++++++--------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
index bf7b352..1715de6 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
@@ -330,9 +330,9 @@ class SolverWithCalendarIterative(SolverDO):
             except:
                 print("No Feasible solution yet")
             with self.cp_solver.instance.branch() as child:
-                if iteration == 0 and not skip_first_iteration or iteration >= 1:
-                    for c in constraint_to_keep:
-                        child.add_string(c)
+                for c in constraint_to_keep:
+                    child.add_string(c)
+                if store_lns is not None:
                     constraint_iterable = self.constraint_handler \
                         .adding_constraint_from_results_store(cp_solver=self.cp_solver,
                                                               child_instance=child,
@@ -378,10 +378,9 @@ class SolverWithCalendarIterative(SolverDO):
                             best_objective = fit
                         elif sense == ModeOptim.MINIMIZATION:
                             current_nb_iteration_no_improvement += 1
-                        if skip_first_iteration and iteration == 0:
-                            store_lns = result_store
-                            store_with_all = ResultStorage(list_solution_fits=list(store_lns.list_solution_fits),
-                                                           mode_optim=store_lns.mode_optim)
+                        if store_with_all is None:
+                            store_with_all = ResultStorage(list_solution_fits=[],
+                                                           mode_optim=result_store.mode_optim)
                         store_lns = result_store
                         for s, f in store_lns.list_solution_fits:
                             store_with_all.list_solution_fits += [(s, f)]
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
index 3797ce9..7d91b4a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
@@ -386,14 +386,14 @@ class SolverWithCalendarIterative(SolverDO):
             except:
                 print("No Feasible solution yet")
             with self.cp_solver.instance.branch() as child:
-                if iteration == 0 and not skip_first_iteration or iteration >= 1:
-                    for c in constraint_to_keep:
-                        child.add_string(c)
+                for c in constraint_to_keep:
+                    child.add_string(c)
+                if store_lns is not None:
                     constraint_iterable = self.constraint_handler \
                         .adding_constraint_from_results_store(cp_solver=self.cp_solver,
                                                               child_instance=child,
                                                               result_storage=store_lns)
-                    if constraint_iterable[0] == "req":
+                    if len(constraint_iterable) > 0 and constraint_iterable[0] == "req":
                         constraint_to_keep.update(set([c for c in constraint_iterable[1:]]))
                 if True:
                     if iteration == 0:
@@ -433,10 +433,9 @@ class SolverWithCalendarIterative(SolverDO):
                             best_objective = fit
                         elif sense == ModeOptim.MINIMIZATION:
                             current_nb_iteration_no_improvement += 1
-                        if skip_first_iteration and iteration == 0:
-                            store_lns = result_store
-                            store_with_all = ResultStorage(list_solution_fits=list(store_lns.list_solution_fits),
-                                                           mode_optim=store_lns.mode_optim)
+                        if store_with_all is None:
+                            store_with_all = ResultStorage(list_solution_fits=[],
+                                                           mode_optim=result_store.mode_optim)
                         store_lns = result_store
                         for s, f in store_lns.list_solution_fits:
                             store_with_all.list_solution_fits += [(s,f)]
-- 
2.43.0


From 481f029c5814c8ce34822dc538a69c72d61f9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 133/135] fix: deduct the non renewable resources of tasks
 without duration in the schedule generation schemes

---
 .../discrete_optimization/rcpsp/rcpsp_model.py       | 12 ++++++++++++
 .../rcpsp_multiskill/rcpsp_multiskill.py             |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index adb3816..10f6ca6 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -247,6 +247,12 @@ class RCPSPSolution(Solution):
                                     unfeasible_non_renewable_resources = True
                                     # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
                         # print(res, ' resource_avail_in_time[res]: ', resource_avail_in_time[res])
+                if end_t < current_min_time:  # a task without duration consumes its non renewable resources too
+                    for res in self.problem.non_renewable_resources:
+                        for tt in range(min(current_min_time, new_horizon-1), new_horizon):
+                            resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                            if resource_avail_in_time[res][tt] < 0:
+                                unfeasible_non_renewable_resources = True
 
                 activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']  # 18
                 perm_extended.remove(act_id)
@@ -373,6 +379,12 @@ class RCPSPSolution(Solution):
                                     unfeasible_non_renewable_resources = True
                                     # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
                         # print(res, ' resource_avail_in_time[res]: ', resource_avail_in_time[res])
+                if end_t < current_min_time:  # a task without duration consumes its non renewable resources too
+                    for res in self.problem.non_renewable_resources:
+                        for tt in range(min(current_min_time, new_horizon-1), new_horizon):
+                            resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                            if resource_avail_in_time[res][tt] < 0:
+                                unfeasible_non_renewable_resources = True
 
                 activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']  # 18
                 perm_extended.remove(act_id)
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index ee1c597..35bd699 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -252,6 +252,12 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                             problem.mode_details[act_id][modes_extended[act_id - 1]][res]
                             if resource_avail_in_time[res][tt] < 0:
                                 unfeasible_non_renewable_resources = True
+            if end_t < current_min_time:  # a task without duration consumes its non renewable resources too
+                for res in problem.non_renewable_resources:
+                    for tt in range(min(current_min_time, new_horizon - 1), new_horizon):
+                        resource_avail_in_time[res][tt] -= problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                        if resource_avail_in_time[res][tt] < 0:
+                            unfeasible_non_renewable_resources = True
             if worker_ids is not None:
                 priority_list_this_task = solution.priority_worker_per_task[act_id-2]
                 worker_used = []
-- 
2.43.0


From 93bc6c6564eaf6676841b575537866690a05519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:37 +0000
Subject: [PATCH 134/135] fix: start the constraint programming neighbourhood
 search of projects with calendars from a solution of them

LNS_CP_RCPSP_SOLVER is proposed for RCPSPModelCalendar, but its initial solution came from PileSolverRCPSP, which fails when the capacities are lists
---
 .../rcpsp/solver/rcpsp_cp_lns_solver.py                     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 44a2841..03aabc3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -9,7 +9,7 @@ from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSol
 from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
 from skdecide.builders.discrete_optimization.rcpsp.solver.cp_solvers import CP_RCPSP_MZN, CP_MRCPSP_MZN, CPSolver
 from skdecide.builders.discrete_optimization.generic_tools.lns_cp import ConstraintHandler, SolverDO, LNS_CP
-from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel
+from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel, RCPSPModelCalendar
 import random
 from enum import Enum
 import numpy as np
@@ -400,7 +400,9 @@ class LNS_CP_RCPSP_SOLVER(SolverDO):
         self.constraint_handler = build_neighbor_operator(option_neighbor=option_neighbor,
                                                           rcpsp_model=self.rcpsp_model)
         self.initial_solution_provider = InitialSolutionRCPSP(problem=self.rcpsp_model,
-                                                              initial_method=InitialMethodRCPSP.PILE,
+                                                              initial_method=InitialMethodRCPSP.PILE_CALENDAR
+                                                              if isinstance(self.rcpsp_model, RCPSPModelCalendar)
+                                                              else InitialMethodRCPSP.PILE,
                                                               params_objective_function=params_objective_function)
         self.lns_solver = LNS_CP(problem=self.rcpsp_model,
                                  cp_solver=self.solver,
-- 
2.43.0


From 2c5178bb0fde34f6d4f3c43e59b47e2f2db9aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 135/135] fix: facility searches unpack result storages, use
 the API of their libraries to constrain and free neighbourhoods

---
 .../facility/solvers/facility_cp_solvers.py      |  2 +-
 .../facility/solvers/facility_lp_solver.py       | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
index a349ff1..4983e34 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
@@ -85,7 +85,7 @@ class FacilityCP(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution = greedy_solver.solve().get_best_solution()
         else:
             if verbose:
                 print("Get dummy solution")
diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 4f1a6fe..0a8492d 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -212,7 +212,7 @@ class LP_Facility_Solver(MilpSolver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution = greedy_solver.solve().get_best_solution()
             self.start_solution = solution
         else:
             if verbose:
@@ -366,7 +366,7 @@ class LP_Facility_Solver_CBC(SolverDO):
 
     def remove_lns_constraint(self):
         for k in self.constraints_dict["lns"]:
-            self.model.remove(self.constraints_dict["lns"][k])
+            self.constraints_dict["lns"][k].SetBounds(-self.model.infinity(), self.model.infinity())
 
     def solve_lns(self,
                   fraction_to_fix_first_iter: float=0.,
@@ -382,7 +382,7 @@ class LP_Facility_Solver_CBC(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution = greedy_solver.solve().get_best_solution()
             self.start_solution = solution
         else:
             if verbose:
@@ -527,13 +527,13 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
             if c in dict_f_fixed:
                 if f == dict_f_fixed[c]:
                     try:
-                        lns_constraint[(f, c)] = self.model.addConstr(x_var[key] == 1, name=str((f, c)))
+                        lns_constraint[(f, c)] = self.model.add_constr(x_var[key] == 1, name=str((f, c)))
                     except:
                         print("failed")
                         pass
                 else:
                     try:
-                        lns_constraint[(f, c)] = self.model.addConstr(x_var[key] == 0, name=str((f, c)))
+                        lns_constraint[(f, c)] = self.model.add_constr(x_var[key] == 0, name=str((f, c)))
                     except:
                         pass
         self.constraints_dict["lns"] = lns_constraint
@@ -559,7 +559,7 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution = greedy_solver.solve().get_best_solution()
             self.start_solution = solution
         else:
             if verbose:
@@ -567,11 +567,11 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
             solution = self.facility_problem.get_dummy_solution()
             self.start_solution = solution
         current_solution = self.start_solution
-        fit = self.facility_problem.evaluate(current_solution)
+        fit = self.aggreg_sol(current_solution)
         for i in range(nb_iteration):
             print('i, ', i)
             self.fix_decision(current_solution, fraction_to_fix if i>0 else fraction_to_fix_first_iter)
-            cur_sol, fit = self.solve(**kwargs)
+            cur_sol, fit = self.solve(**kwargs).get_best_solution_fit()
             self.remove_lns_constraint()
             print(cur_sol)
             current_solution = cur_sol
-- 
2.43.0

