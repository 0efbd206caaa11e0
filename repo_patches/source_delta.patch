From ce6ea9eef134a359b8d9ac1eb3a08176e0d38446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 001/101] fix: build the initial population in the caller so
 that it does not depend on worker scheduling

Workers of the thread and process modes drew the initial solutions themselves: threads raced on the shared generator,
forked workers drew identical solutions, and evaluations counted in a worker process were lost. Attributes derived from
an evaluated agent move to complete_agent(), so starting_solutions also get them in the batch modes.
---
 mealpy/optimizer.py            | 38 ++++++++++++++++++++--------------
 mealpy/swarm_based/BFO.py      |  4 +---
 mealpy/swarm_based/BSA.py      |  4 +---
 mealpy/swarm_based/ESOA.py     |  4 +---
 mealpy/swarm_based/PSO.py      | 20 +++++-------------
 mealpy/swarm_based/SLO.py      |  5 ++---
 mealpy/swarm_based/SRSR.py     |  4 +---
 mealpy/swarm_based/SSpiderA.py | 10 +--------
 8 files changed, 34 insertions(+), 55 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8b54ec7..b49ac76 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -135,6 +135,7 @@ class Optimizer:
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
                     self.pop = self.update_target_for_population(self.pop)
+                    self.pop = [self.complete_agent(agent) for agent in self.pop]
                 else:
                     self.pop = [self.generate_agent(solution) for solution in starting_solutions]
             else:
@@ -333,6 +334,20 @@ class Optimizer:
         """
         agent = self.generate_empty_agent(solution)
         agent.target = self.get_target(agent.solution)
+        return self.complete_agent(agent)
+
+    def complete_agent(self, agent: Agent) -> Agent:
+        """
+        Set the attributes that an algorithm derives from an evaluated agent (e.g. its personal best).
+        It is called once for each agent of the initial population, after its target is known.
+        In each optimizer, this function can be overridden
+
+        Args:
+            agent (Agent): The agent with its target
+
+        Returns:
+            Agent: The agent with full information
+        """
         return agent
 
     def generate_population(self, pop_size: int = None) -> List[Agent]:
@@ -345,22 +360,13 @@ class Optimizer:
         """
         if pop_size is None:
             pop_size = self.pop_size
-        pop = []
-        if self.mode == "thread":
-            with parallel.ThreadPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a thread finished their job (not by order)
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        elif self.mode == "process":
-            with parallel.ProcessPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a cpu finished their job (not by order).
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        else:
-            pop = [self.generate_agent() for _ in range(0, pop_size)]
-        return pop
+        # All random numbers are drawn here, in order, so the population doesn't depend on how the workers are scheduled.
+        # (A class with its own generate_agent() may do anything in there, it is therefore called in order as well)
+        if self.mode in self.PARALLEL_MODES and type(self).generate_agent is Optimizer.generate_agent:
+            pop = [self.generate_empty_agent() for _ in range(0, pop_size)]
+            pop = self.update_target_for_population(pop)
+            return [self.complete_agent(agent) for agent in pop]
+        return [self.generate_agent() for _ in range(0, pop_size)]
 
     def amend_solution(self, solution: np.ndarray) -> np.ndarray:
         """
diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index c498f5b..300a906 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -259,9 +259,7 @@ class ABFO(Optimizer):
         local_solution = solution.copy()
         return Agent(solution=solution, nutrients=nutrients, local_solution=local_solution)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index c9eae7b..8b439e3 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -101,9 +101,7 @@ class OriginalBSA(Optimizer):
         local_position = solution.copy()
         return Agent(solution=solution, local_solution=local_position)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/ESOA.py b/mealpy/swarm_based/ESOA.py
index da641ed..45bf437 100644
--- a/mealpy/swarm_based/ESOA.py
+++ b/mealpy/swarm_based/ESOA.py
@@ -70,7 +70,7 @@ class OriginalESOA(Optimizer):
         v = np.zeros(self.problem.n_dims)
         return Agent(solution=solution, weights=weights, local_solution=solution.copy(), m=m, v=v)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
+    def complete_agent(self, agent: Agent) -> Agent:
         """
             ID_WEI = 2
             ID_LOC_X = 3
@@ -79,8 +79,6 @@ class OriginalESOA(Optimizer):
             ID_M = 6
             ID_V = 7
         """
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
         agent.local_target = agent.target.copy()
         agent.g = (np.sum(agent.weights * agent.solution) - agent.target.fitness) * agent.solution
         return agent
diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 9ccd223..72890dd 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -85,9 +85,7 @@ class OriginalPSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -193,9 +191,7 @@ class AIW_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -311,9 +307,7 @@ class LDW_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -408,9 +402,7 @@ class P_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -745,9 +737,7 @@ class CL_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/SLO.py b/mealpy/swarm_based/SLO.py
index 37c9647..2363dca 100644
--- a/mealpy/swarm_based/SLO.py
+++ b/mealpy/swarm_based/SLO.py
@@ -150,9 +150,8 @@ class ModifiedSLO(Optimizer):
         local_pos = self.correct_solution(local_pos)
         return Agent(solution=solution, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
+        target = agent.target
         local_target = self.get_target(agent.local_solution)
         if self.compare_target(target, local_target, self.problem.minmax):
             t1 = agent.local_solution.copy()
diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 4aebe28..49649bf 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -65,9 +65,7 @@ class OriginalSRSR(Optimizer):
         target_move = 0
         return Agent(solution=solution, mu=mu, sigma=sigma, solution_new=x_new, target_move=target_move)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.target_new = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 8bf4b70..2e6e338 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -98,15 +98,7 @@ class DevSSpiderA(Optimizer):
         mask = np.zeros(self.problem.n_dims)
         return Agent(solution=solution, target_solution=target_solution, local_vector=local_vector, mask=mask)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        """
-        Generate new agent with full information
-
-        Args:
-            solution (np.ndarray): The solution
-        """
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
         return agent
 
-- 
2.43.0


From c8bcdd6fe63b1e2652c4737b0474b9754f78ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 002/101] fix: reset the evaluation counter at the start of
 every solve

It was only reset when a termination was given, so the accounting (and OriginalMSO, which uses it) depended on earlier solves.
---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index b49ac76..66d4601 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -59,7 +59,7 @@ class Optimizer:
 
         if self.name is None: self.name = self.__class__.__name__
         self.sort_flag = False
-        self.nfe_counter = 1  # The first one is tested in Problem class
+        self.nfe_counter = 0  # Number of function evaluations of the current solve
         self.parameters, self.params_name_ordered = {}, None
         self.is_parallelizable = True
         self.generator, self.rng = None, None     # random module for numpy and random (python)
@@ -176,6 +176,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.nfe_counter = 0
 
     def check_mode_and_workers(self, mode, n_workers):
         self.mode = self.validator.check_str("mode", mode, self.SUPPORTED_MODES)
@@ -203,7 +204,6 @@ class Optimizer:
                     self.termination = Termination(log_to=self.problem.log_to, log_file=self.problem.log_file, **termination)
                 else:
                     raise ValueError("Termination needs to be a dict or an instance of Termination class.")
-                self.nfe_counter = 0
                 self.termination.set_start_values(0, self.nfe_counter, time.perf_counter(), 0)
         else:
             finished = False
-- 
2.43.0


From 13ae7b627c132cb136e3c9d30cd11f2f8bb21220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 003/101] fix: copy the starting solutions so that a solve
 neither aliases nor modifies the caller's data

---
 mealpy/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 66d4601..82bf1c0 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -132,6 +132,8 @@ class Optimizer:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+                # The agents own their positions, algorithms may change them in place
+                starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
                     self.pop = self.update_target_for_population(self.pop)
-- 
2.43.0


From a8bf4cbbde5423336d249ef0d7f40b21dd5f5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 004/101] fix: IntegerVar.generate draws from exactly the
 declared integers

Truncation of float bounds towards zero let negative ranges exceed their upper bound by one.
---
 mealpy/utils/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 12fe047..483b008 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -219,7 +219,9 @@ class IntegerVar(BaseVar):
         return np.clip(x, self.lb, self.ub)
 
     def generate(self):
-        return self.generator.integers(self.lb+0.5, self.ub+0.5+self.eps)
+        # Round away the representation error, integers() truncates its float bounds towards zero
+        low, high = np.rint(self.lb + 0.5).astype(int), np.rint(self.ub - 0.5 + self.eps).astype(int)
+        return self.generator.integers(low, high, endpoint=True)
 
 
 class StringVar(BaseVar):
-- 
2.43.0


From aaacdcdb029d641a4ec5c920303b57903eecaabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 005/101] fix: treat NaN fitness as worse than any value for
 both directions

For maximisation a NaN evaluation was sorted first and reported as the best agent; an initial NaN best was never replaced.
---
 mealpy/optimizer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 82bf1c0..6baa9ee 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -448,14 +448,14 @@ class Optimizer:
         if minmax == "min":
             return True if target_x.fitness < target_y.fitness else False
         else:
-            return False if target_x.fitness < target_y.fitness else True
+            return True if target_x.fitness >= target_y.fitness else False
 
     @staticmethod
     def compare_fitness(fitness_x: Union[float, int], fitness_y: Union[float, int], minmax: str = "min") -> bool:
         if minmax == "min":
             return True if fitness_x < fitness_y else False
         else:
-            return False if fitness_x < fitness_y else True
+            return True if fitness_x >= fitness_y else False
 
     @staticmethod
     def duplicate_pop(pop: List[Agent]) -> List[Agent]:
@@ -477,7 +477,8 @@ class Optimizer:
         list_fits = [agent.target.fitness for agent in pop]
         indices = np.argsort(list_fits).tolist()
         if minmax == "max":
-            indices = indices[::-1]
+            # NaN (a failed evaluation) is sorted last by argsort, it has to stay there
+            indices = [idx for idx in indices[::-1] if not np.isnan(list_fits[idx])] + [idx for idx in indices if np.isnan(list_fits[idx])]
         pop_new = [pop[idx] for idx in indices]
         return pop_new, indices
 
@@ -575,6 +576,9 @@ class Optimizer:
         idx = minmax_dict[minmax]
         if reverse:
             idx = 1 - idx
+        if np.isnan(agent_x.target.fitness) or np.isnan(agent_y.target.fitness):
+            # NaN (a failed evaluation) is worse than any value
+            return agent_x.copy() if np.isnan(agent_x.target.fitness) == reverse else agent_y.copy()
         if idx == 0:
             return agent_x.copy() if agent_x.target.fitness < agent_y.target.fitness else agent_y.copy()
         else:
-- 
2.43.0


From 8ba0d8502bfa06fb7c76e9f04000763afa69ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 006/101] fix: record copies of the current best and worst
 agents in the history

The live agents were recorded; later epochs that move them in place rewrote past history entries.
---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 6baa9ee..320e2a7 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -631,7 +631,7 @@ class Optimizer:
             list: Sorted population and the global best solution
         """
         sorted_pop, _ = self.get_sorted_population(pop, self.problem.minmax)
-        c_best, c_worst = sorted_pop[0], sorted_pop[-1]
+        c_best, c_worst = sorted_pop[0].copy(), sorted_pop[-1].copy()     # later moves must not change the history
         if save:
             ## Save current best
             self.history.list_current_best.append(c_best)
-- 
2.43.0


From 93f2a10434353251449efbafe5ea9fe3bcf1f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 007/101] fix: copy the position when an agent is copied

---
 mealpy/utils/agent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/agent.py b/mealpy/utils/agent.py
index e93d7ab..ec62c8d 100644
--- a/mealpy/utils/agent.py
+++ b/mealpy/utils/agent.py
@@ -4,6 +4,7 @@
 #       Github: https://github.com/thieu1995        %                         
 # --------------------------------------------------%
 
+import copy
 import numpy as np
 from mealpy.utils.target import Target
 
@@ -28,7 +29,7 @@ class Agent:
             setattr(self, key, value)
 
     def copy(self) -> 'Agent':
-        agent = Agent(self.solution, self.target.copy(), **self.kwargs)
+        agent = Agent(copy.copy(self.solution), self.target.copy(), **self.kwargs)
         # Copy any changes made to the attributes
         for attr, value in vars(self).items():
             if attr not in ['target', 'solution', 'id', 'kwargs']:
-- 
2.43.0


From c044e5471a4c2e55cdbd8335bdde0529767dd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 008/101] fix: do not rewrite the history of the last epoch
 when updating the best agent inside an epoch

---
 mealpy/optimizer.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 320e2a7..50a8191 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -53,6 +53,7 @@ class Optimizer:
         self.epoch, self.pop_size = None, None
         self.mode, self.n_workers, self.name = None, None, None
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.interim_best, self.interim_worst = None, None  # Best and worst agents found since the last recorded epoch
         self.problem, self.logger, self.history = None, None, None
         self.__set_keyword_arguments(kwargs)
         self.validator = Validator(log_to="console", log_file=None)
@@ -178,6 +179,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.interim_best, self.interim_worst = None, None
         self.nfe_counter = 0
 
     def check_mode_and_workers(self, mode, n_workers):
@@ -625,35 +627,28 @@ class Optimizer:
 
         Args:
             pop (list): The population of pop_size individuals
-            save (bool): True if you want to add new current/global best to history, False if you just want to update current/global best
+            save (bool): True if you want to add new current/global best to history, False if you just want to update the global best
 
         Returns:
             list: Sorted population and the global best solution
         """
         sorted_pop, _ = self.get_sorted_population(pop, self.problem.minmax)
         c_best, c_worst = sorted_pop[0].copy(), sorted_pop[-1].copy()     # later moves must not change the history
+        ## The best and worst so far: of the recorded epochs and, if any, of the populations in between (save=False)
+        last_best = self.history.list_global_best[-1] if self.interim_best is None else self.interim_best
+        last_worst = self.history.list_global_worst[-1] if self.interim_worst is None else self.interim_worst
+        better = self.get_better_agent(c_best, last_best, self.problem.minmax)
+        worse = self.get_better_agent(c_worst, last_worst, self.problem.minmax, reverse=True)
         if save:
-            ## Save current best
             self.history.list_current_best.append(c_best)
-            better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
             self.history.list_global_best.append(better)
-            ## Save current worst
             self.history.list_current_worst.append(c_worst)
-            worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
-            return sorted_pop, better
+            self.interim_best, self.interim_worst = None, None
         else:
-            ## Handle current best
-            local_better = self.get_better_agent(c_best, self.history.list_current_best[-1], self.problem.minmax)
-            self.history.list_current_best[-1] = local_better
-            global_better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
-            self.history.list_global_best[-1] = global_better
-            ## Handle current worst
-            local_worst = self.get_better_agent(c_worst, self.history.list_current_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_current_worst[-1] = local_worst
-            global_worst = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_global_worst[-1] = global_worst
-            return sorted_pop, global_better
+            ## The entries of the last epoch are final, so keep these until the end of the current epoch
+            self.interim_best, self.interim_worst = better, worse
+        return sorted_pop, better.copy()
 
     @staticmethod
     def sample_indexes_exclude_one(generator, pop_size: int, exclude_idx: int, n_samples: int, replace: bool=False):
-- 
2.43.0


From 5715ee40b9a1e122add061476370c54f6579aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 009/101] fix: exploration and exploitation of a population
 without diversity are defined

---
 mealpy/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 50a8191..db999e0 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -311,7 +311,8 @@ class Optimizer:
         """
         self.history.epoch = len(self.history.list_diversity)
         div_max = np.max(self.history.list_diversity)
-        self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / div_max)
+        ## A population that never had any diversity didn't explore at all
+        self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / (div_max if div_max > 0 else 1.))
         self.history.list_exploitation = 100 - self.history.list_exploration
         self.history.list_global_best = self.history.list_global_best[1:]
         self.history.list_current_best = self.history.list_current_best[1:]
-- 
2.43.0


From 1dadff66c4ce2347c9b26342c1b36cc53d0851f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 010/101] fix: AAA: do not move the position of an accepted
 agent, allow fewer than three dimensions

---
 mealpy/bio_based/AAA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index e8183dc..a892dad 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -156,7 +156,8 @@ class OriginalAAA(Optimizer):
             pos_new = self.pop[idx].solution.copy()
             while energy[idx] >= 0:
                 ndx = self.get_index_kway_tournament_selection(self.pop, k_way=0.2, output=1)[0]
-                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, False)
+                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, replace=self.problem.n_dims < 3)
+                pos_new = pos_new.copy()
                 pos_new[rd1] += (self.pop[ndx].solution[rd1] - pos_new[rd1]) * (self.s_force - alg_friction[idx]) * ((self.generator.random() - 0.5) * 2)
                 pos_new[rd2] += (self.pop[ndx].solution[rd2] - pos_new[rd2]) * (self.s_force - alg_friction[idx]) * np.cos(self.generator.random() * 2 * np.pi)
                 pos_new[rd3] += (self.pop[ndx].solution[rd3] - pos_new[rd3]) * (self.s_force - alg_friction[idx]) * np.sin(self.generator.random() * 2 * np.pi)
-- 
2.43.0


From 2152dcc9a9d8815dce9bb4bd01c60d8f02f75259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 011/101] fix: BCO: evaluate the corrected position when
 swimming and migrating

---
 mealpy/bio_based/BCO.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 781d6ce..e4493b6 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -115,7 +115,8 @@ class OriginalBCO(Optimizer):
 
                 # Continue swimming without turbulence
                 pos_new = self.pop[idx].solution + step * step_direction
-                agent_new.solution = self.correct_solution(pos_new)
+                pos_new = self.correct_solution(pos_new)
+                agent_new.solution = pos_new
                 agent_new.target = self.get_target(pos_new)
                 m += 1
 
@@ -161,7 +162,7 @@ class OriginalBCO(Optimizer):
         if epoch % 50 == 0:
             for idx in range(self.pop_size):
                 if self.generator.random() < self.migration_prob:
-                    pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+                    pos_new = self.correct_solution(self.generator.uniform(self.problem.lb, self.problem.ub))
                     agent_new = self.generate_agent(pos_new)
                     self.pop[idx] = agent_new
                     self.pop_local[idx] = agent_new.copy()
-- 
2.43.0


From bbf2a9e303ad3011c3cb58760fbb8e12330fa13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 012/101] fix: OriginalSBO: the new target belongs to the new
 position

---
 mealpy/bio_based/SBO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index a88bcb1..9ad2168 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -225,6 +225,7 @@ class OriginalSBO(DevSBO):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                self.pop[idx].target = self.get_target(pos_new)
+                agent.target = self.get_target(pos_new)
+                self.pop[idx] = agent
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.update_target_for_population(pop_new)
-- 
2.43.0


From 156fa13487964a1af35a5fad4e19ca8946a68211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 013/101] fix: TPO: keep the starting position when a branch is
 created around it

---
 mealpy/bio_based/TPO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TPO.py b/mealpy/bio_based/TPO.py
index fa0da9c..f33f5e8 100644
--- a/mealpy/bio_based/TPO.py
+++ b/mealpy/bio_based/TPO.py
@@ -93,9 +93,13 @@ class DevTPO(Optimizer):
 
     def initialization(self):
         self.pop_total = []
+        starting_pop = self.pop             # Starting solutions, each is the first leaf of its branch
         self.pop = []                       # The best leaf in each branches
         for idx in range(self.pop_size):
-            leafs = self.generate_population(self.n_leafs)
+            if starting_pop is None:
+                leafs = self.generate_population(self.n_leafs)
+            else:
+                leafs = [starting_pop[idx]] + self.generate_population(self.n_leafs - 1)
             best, _ = self.get_best_agent(leafs, self.problem.minmax)
             self.pop.append(best)
             self.pop_total.append(leafs)
-- 
2.43.0


From 5df848194c28e2ff6e82a278b4da41cbd0397cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 014/101] fix: TSeedA: a tree with a single seed, evaluate the
 corrected seed

---
 mealpy/bio_based/TSeedA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index aa2d642..beeada8 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -4,6 +4,7 @@
 # Github: https://github.com/tunayalc
 # ----------------------------------------------%
 
+import numpy as np
 from mealpy.optimizer import Optimizer
 from mealpy.utils.opt_info import OptInfo, ScientificConcern
 
@@ -87,7 +88,7 @@ class OriginalTSeedA(Optimizer):
             n_seeds = self.generator.integers(min_seeds, max_seeds + 1)
             
             pop_new = []
-            rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
+            rdx_list = np.atleast_1d(self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True))
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
                 rdx = rdx_list[jdx]
@@ -112,7 +113,7 @@ class OriginalTSeedA(Optimizer):
                 # agent = self.generate_empty_agent(pos_new)
                 pop_new.append(self.generate_empty_agent(pos_new))
                 if self.mode not in self.AVAILABLE_MODES:
-                    pop_new[-1].target = self.get_target(seed)
+                    pop_new[-1].target = self.get_target(pos_new)
             # Update parallel
             if self.mode in self.AVAILABLE_MODES:
                 pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 2818002aced73c3fe99a21aaf99bdad47859c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 015/101] fix: WHO: keep the corrected position in the herd's
 memory step

---
 mealpy/bio_based/WHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/WHO.py b/mealpy/bio_based/WHO.py
index 8d5ffef..eaf3c54 100644
--- a/mealpy/bio_based/WHO.py
+++ b/mealpy/bio_based/WHO.py
@@ -169,7 +169,7 @@ class OriginalWHO(Optimizer):
             for jdx in range(0, self.n_exploit_step):
                 temp = g_best.solution + 0.1 * self.generator.uniform(self.problem.lb, self.problem.ub)
                 pos_new = self.correct_solution(temp)
-                agent = self.generate_empty_agent(temp)
+                agent = self.generate_empty_agent(pos_new)
                 pop_child.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-- 
2.43.0


From 574d41ebedcbf2e2836eeff70f50622ffab75aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 016/101] fix: JADE: draw from the seeded generator; SAP_DE:
 start each solve with the configured population size

---
 mealpy/evolutionary_based/DE.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 33da76c..53e54d8 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -261,7 +261,7 @@ class JADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr, 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f, 0.1)
+                f = cauchy.rvs(self.dyn_miu_f, 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -487,6 +487,9 @@ class SAP_DE(Optimizer):
         self.fixed_pop_size = self.pop_size
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.pop_size = self.fixed_pop_size
+
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-- 
2.43.0


From 4bafc902c793e887bb7cc7ee361b1af0c1d65af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 017/101] fix: GA: parents that are not aliases, terminating
 selection, crossover of short solutions, odd populations

---
 mealpy/evolutionary_based/GA.py | 35 +++++++++++++++------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 550a084..53f7628 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -136,13 +136,14 @@ class BaseGA(Optimizer):
         if self.selection == "roulette":
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
             id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            if id_c2 == id_c1:      # Spin again for the others only, all of them may have zero probability otherwise
+                others = np.delete(np.arange(len(list_fitness)), id_c1)
+                id_c2 = others[self.get_index_roulette_wheel_selection(list_fitness[others])]
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(self.pop, k_way=self.k_way, output=2)
-        return self.pop[id_c1].solution, self.pop[id_c2].solution
+        return self.pop[id_c1].solution.copy(), self.pop[id_c2].solution.copy()
 
     def selection_process_00__(self, pop_selected):
         """
@@ -162,13 +163,14 @@ class BaseGA(Optimizer):
             list_fitness = np.array([agent.target.fitness for agent in pop_selected])
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
             id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            if id_c2 == id_c1:      # Spin again for the others only, all of them may have zero probability otherwise
+                others = np.delete(np.arange(len(list_fitness)), id_c1)
+                id_c2 = others[self.get_index_roulette_wheel_selection(list_fitness[others])]
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(pop_selected, k_way=self.k_way, output=2)
-        return pop_selected[id_c1].solution, pop_selected[id_c2].solution
+        return pop_selected[id_c1].solution.copy(), pop_selected[id_c2].solution.copy()
 
     def selection_process_01__(self, pop_dad, pop_mom):
         """
@@ -192,7 +194,7 @@ class BaseGA(Optimizer):
         else:   ## tournament
             id_c1 = self.get_index_kway_tournament_selection(pop_dad, k_way=self.k_way, output=1)[0]
             id_c2 = self.get_index_kway_tournament_selection(pop_mom, k_way=self.k_way, output=1)[0]
-        return pop_dad[id_c1].solution, pop_mom[id_c2].solution
+        return pop_dad[id_c1].solution.copy(), pop_mom[id_c2].solution.copy()
 
     def crossover_process__(self, dad, mom):
         """
@@ -212,11 +214,11 @@ class BaseGA(Optimizer):
         if self.crossover == "arithmetic":
             w1, w2 = self.crossover_arithmetic(dad, mom)
         elif self.crossover == "one_point":
-            cut = self.generator.integers(1, self.problem.n_dims-1)
+            cut = self.generator.integers(1, max(2, self.problem.n_dims-1))
             w1 = np.concatenate([dad[:cut], mom[cut:]])
             w2 = np.concatenate([mom[:cut], dad[cut:]])
         elif self.crossover == "multi_points":
-            idxs = self.generator.choice(range(1, self.problem.n_dims-1), 2, replace=False)
+            idxs = self.generator.choice(range(1, max(3, self.problem.n_dims-1)), 2, replace=False)
             cut1, cut2 = np.min(idxs), np.max(idxs)
             w1 = np.concatenate([dad[:cut1], mom[cut1:cut2], dad[cut2:]])
             w2 = np.concatenate([mom[:cut1], dad[cut1:cut2], mom[cut2:]])
@@ -307,7 +309,7 @@ class BaseGA(Optimizer):
         """
         list_fitness = np.array([agent.target.fitness for agent in self.pop])
         pop_new = []
-        for i in range(0, int(self.pop_size/2)):
+        for i in range(0, int((self.pop_size + 1) / 2)):
             ### Selection
             child1, child2 = self.selection_process__(list_fitness)
 
@@ -322,15 +324,10 @@ class BaseGA(Optimizer):
             child1 = self.correct_solution(child1)
             child2 = self.correct_solution(child2)
 
-            agent1 = self.generate_empty_agent(child1)
-            agent2 = self.generate_empty_agent(child2)
-
-            pop_new.append(agent1)
-            pop_new.append(agent2)
-
-            if self.mode not in self.AVAILABLE_MODES:
-                pop_new[-2].target = self.get_target(child1)
-                pop_new[-1].target = self.get_target(child2)
+            for child in (child1, child2)[:self.pop_size - len(pop_new)]:
+                pop_new.append(self.generate_empty_agent(child))
+                if self.mode not in self.AVAILABLE_MODES:
+                    pop_new[-1].target = self.get_target(child)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
         ### Survivor Selection
-- 
2.43.0


From 8416680d058ab49141e19b895858a1ab0fba0981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 018/101] fix: MA: odd population sizes

---
 mealpy/evolutionary_based/MA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/MA.py b/mealpy/evolutionary_based/MA.py
index 5915507..496d5b8 100644
--- a/mealpy/evolutionary_based/MA.py
+++ b/mealpy/evolutionary_based/MA.py
@@ -151,9 +151,10 @@ class OriginalMA(Optimizer):
         return best
 
     def create_child__(self, idx, pop_copy):
-        ancient = pop_copy[idx + 1] if idx % 2 == 0 else pop_copy[idx - 1]
         if idx == self.pop_size - 1:
             ancient = pop_copy[0]
+        else:
+            ancient = pop_copy[idx + 1] if idx % 2 == 0 else pop_copy[idx - 1]
         bitstring_new = self.crossover__(pop_copy[idx].bitstring, ancient.bitstring)
         bitstring_new = self.point_mutation__(bitstring_new)
         pos_new = self.decode__(bitstring_new)
@@ -176,9 +177,10 @@ class OriginalMA(Optimizer):
             children.append(self.pop[idx_offspring].copy())
         pop = []
         for idx in range(0, self.pop_size):
-            ancient = children[idx + 1] if idx % 2 == 0 else children[idx - 1]
             if idx == self.pop_size - 1:
                 ancient = children[0]
+            else:
+                ancient = children[idx + 1] if idx % 2 == 0 else children[idx - 1]
             bitstring_new = self.crossover__(children[idx].bitstring, ancient.bitstring)
             bitstring_new = self.point_mutation__(bitstring_new)
             pos_new = self.decode__(bitstring_new)
-- 
2.43.0


From 9550648691150777ebe1f57331fd2142c67a2fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 019/101] fix: SHADE: draw from the seeded generator

---
 mealpy/evolutionary_based/SHADE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index dd136b1..f0dd529 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -105,7 +105,7 @@ class OriginalSHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -271,7 +271,7 @@ class L_SHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
-- 
2.43.0


From 8cc83a3b103990d2ee9aad62a2306d27b1a73443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 020/101] fix: THRO: train on a copy of the position

---
 mealpy/game_based/THRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/game_based/THRO.py b/mealpy/game_based/THRO.py
index 8920b69..82cd73e 100644
--- a/mealpy/game_based/THRO.py
+++ b/mealpy/game_based/THRO.py
@@ -292,7 +292,7 @@ class OriginalTHRO(Optimizer):
 
         for idx in range(self.n_pop):
             # Training for Tianji's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     tr4, tr5 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
@@ -307,7 +307,7 @@ class OriginalTHRO(Optimizer):
                 self.pop_tianji[idx] = agent
 
             # Training for King's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     kr1, kr2 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
-- 
2.43.0


From 960d89ad2fa86f2a8b7ab1733ba0975762c4baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 021/101] fix: BSO: population sizes that are not a multiple of
 the number of clusters

---
 mealpy/human_based/BSO.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mealpy/human_based/BSO.py b/mealpy/human_based/BSO.py
index 0e7ecf6..75ea899 100644
--- a/mealpy/human_based/BSO.py
+++ b/mealpy/human_based/BSO.py
@@ -79,10 +79,16 @@ class ImprovedBSO(Optimizer):
             centers.append(local_best.copy())
         return centers
 
+    def generate_clusters__(self, pop):
+        # The last cluster also gets the agents that remain when pop_size isn't divisible by m_clusters
+        clusters = self.generate_group_population(pop, self.m_clusters, self.m_solution)
+        clusters[-1] += [agent.copy() for agent in pop[self.m_clusters * self.m_solution:]]
+        return clusters
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        self.pop_group = self.generate_group_population(self.pop, self.m_clusters, self.m_solution)
+        self.pop_group = self.generate_clusters__(self.pop)
         self.centers = self.find_cluster__(self.pop_group)
 
     def evolve(self, epoch):
@@ -98,8 +104,8 @@ class ImprovedBSO(Optimizer):
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
         for idx in range(0, self.pop_size):  # Generate new individuals
-            cluster_id = int(idx / self.m_solution)
-            location_id = int(idx % self.m_solution)
+            cluster_id = min(int(idx / self.m_solution), self.m_clusters - 1)
+            location_id = idx - cluster_id * self.m_solution
 
             if self.generator.uniform() < self.p2:  # p_6b
                 if self.generator.uniform() < self.p3:
@@ -210,11 +216,12 @@ class OriginalBSO(ImprovedBSO):
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
         for idx in range(0, self.pop_size):  # Generate new individuals
-            cluster_id = int(idx / self.m_solution)
-            location_id = int(idx % self.m_solution)
+            cluster_id = min(int(idx / self.m_solution), self.m_clusters - 1)
+            location_id = idx - cluster_id * self.m_solution
             if self.generator.uniform() < self.p2:  # p_6b
                 if self.generator.uniform() < self.p3:  # p_6i
                     cluster_id = self.generator.integers(0, self.m_clusters)
+                    location_id = location_id % self.m_solution
                 if self.generator.uniform() < self.p3:
                     pos_new = self.centers[cluster_id].solution + epsilon * self.generator.normal(0, 1, self.problem.n_dims)
                 else:
-- 
2.43.0


From c668a2c596033c012be8dc78882fec224ff15049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 022/101] fix: DOA: index of the follower

---
 mealpy/human_based/DOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index a98dbae..b94fa2d 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -139,7 +139,7 @@ class OriginalDOA(Optimizer):
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[idx] - self.problem.lb[idx]) + self.problem.lb[idx]) * cos_term
+                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[jdx] - self.problem.lb[jdx]) + self.problem.lb[jdx]) * cos_term
                     # Boundary handling
                     if pos_new[jdx] > self.problem.ub[jdx] or pos_new[jdx] < self.problem.lb[jdx]:
                         if self.problem.n_dims > 15:
-- 
2.43.0


From 2883e848c90e79692fd070ccd05eddb0b0a651f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 023/101] fix: GSKA: sections without another agent in small
 populations

---
 mealpy/human_based/GSKA.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/mealpy/human_based/GSKA.py b/mealpy/human_based/GSKA.py
index 07bc4e3..1b94370 100644
--- a/mealpy/human_based/GSKA.py
+++ b/mealpy/human_based/GSKA.py
@@ -70,6 +70,16 @@ class DevGSKA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "pb", "kr"])
         self.sort_flag = True
 
+    def choose_other__(self, low, high, idx):
+        """
+        Choose an agent other than idx in the section [low, high) of the sorted population. A section without another
+        agent (a small population, or an extreme percentage) falls back to the whole population.
+        """
+        others = list(set(range(low, high)) - {idx})
+        if len(others) == 0:
+            others = list(set(range(0, self.pop_size)) - {idx})
+        return self.generator.choice(others)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -104,9 +114,9 @@ class DevGSKA(Optimizer):
                 if self.generator.uniform() <= self.kr:
                     id1 = int(self.pb * self.pop_size)
                     id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                    rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                    rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                    rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                    rand_best = self.choose_other__(0, id1, idx)
+                    rand_worst = self.choose_other__(id2, self.pop_size, idx)
+                    rand_mid = self.choose_other__(id1, id2, idx)
                     if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                         pos_new = self.pop[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                                   (self.pop[rand_best].solution - self.pop[rand_worst].solution + self.pop[rand_mid].solution - self.pop[idx].solution)
@@ -196,6 +206,16 @@ class OriginalGSKA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "pb", "kf", "kr", "kg"])
         self.sort_flag = True
 
+    def choose_other__(self, low, high, idx):
+        """
+        Choose an agent other than idx in the section [low, high) of the sorted population. A section without another
+        agent (a small population, or an extreme percentage) falls back to the whole population.
+        """
+        others = list(set(range(low, high)) - {idx})
+        if len(others) == 0:
+            others = list(set(range(0, self.pop_size)) - {idx})
+        return self.generator.choice(others)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -234,9 +254,9 @@ class OriginalGSKA(Optimizer):
                     if self.generator.uniform() <= self.kr:
                         id1 = int(self.pb * self.pop_size)
                         id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                        rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                        rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                        rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                        rand_best = self.choose_other__(0, id1, idx)
+                        rand_worst = self.choose_other__(id2, self.pop_size, idx)
+                        rand_mid = self.choose_other__(id1, id2, idx)
                         if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                             pos_new[j] = self.pop[idx].solution[j] + self.kf * \
                                          (self.pop[rand_best].solution[j] - self.pop[rand_worst].solution[j] +
-- 
2.43.0


From 1cbbbccccdd07f6a53a7a32aeabeb83ab3cd0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 024/101] fix: PSS: sample with the seeded generator and keep
 given starting solutions

---
 mealpy/math_based/PSS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index c6934d6..2de97e1 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -75,13 +75,15 @@ class OriginalPSS(Optimizer):
 
     def create_population(self, pop_size=None):
         if self.sampling_method == "MC":
-            pop = self.generator.random(self.pop_size, self.problem.n_dims)
+            pop = self.generator.random((self.pop_size, self.problem.n_dims))
         else:       # Default: "LHS"
-            sampler = qmc.LatinHypercube(d=self.problem.n_dims)
+            sampler = qmc.LatinHypercube(d=self.problem.n_dims, seed=self.generator)
             pop = sampler.random(n=pop_size)
         return pop
 
     def initialization(self):
+        if self.pop is not None:        # Starting solutions
+            return
         lb_pop = np.repeat(np.reshape(self.problem.lb, (1, -1)), self.pop_size, axis=0)
         ub_pop = np.repeat(np.reshape(self.problem.ub, (1, -1)), self.pop_size, axis=0)
         steps_mat = np.repeat(np.reshape(self.steps, (1, -1)), self.pop_size, axis=0)
-- 
2.43.0


From a4be33c28b5955dca0a43006b02177f8d4dd00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 025/101] fix: HS: negative upper bounds

---
 mealpy/music_based/HS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/music_based/HS.py b/mealpy/music_based/HS.py
index a14da0b..d02a1b9 100644
--- a/mealpy/music_based/HS.py
+++ b/mealpy/music_based/HS.py
@@ -82,7 +82,7 @@ class DevHS(Optimizer):
         for idx in range(0, self.pop_size):
             # Create New Harmony Position
             pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
-            delta = self.dyn_fw * self.generator.normal(self.problem.lb, self.problem.ub)
+            delta = self.dyn_fw * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             # Use Harmony Memory
             pos_new = np.where(self.generator.random(self.problem.n_dims) < self.c_r, self.g_best.solution, pos_new)
             # Pitch Adjustment
-- 
2.43.0


From 81a6d1ea9f59aacfa8193528db4fab8bd1d821bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 026/101] fix: tournament selection in small populations

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index db999e0..336e4c6 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -713,7 +713,7 @@ class Optimizer:
             list: List of the selected indexes
         """
         if 0 < k_way < 1:
-            k_way = int(k_way * len(pop))
+            k_way = min(max(int(k_way * len(pop)), output), len(pop))
         list_id = self.generator.choice(range(len(pop)), k_way, replace=False)
         list_parents = [[idx, pop[idx].target.fitness] for idx in list_id]
         if self.problem.minmax == "min":
-- 
2.43.0


From ecd7be2f6820928fd93b45fefeb65f104ab1fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 027/101] fix: ArchOA: evaluate the corrected position

---
 mealpy/physics_based/ArchOA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index e0efd68..b973604 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -139,7 +139,8 @@ class OriginalArchOA(Optimizer):
                 t = self.c3 * tf
                 pos_new = self.g_best.solution + f * self.c2 * self.generator.random() * self.pop[idx].acc * \
                           ddf * (t * self.g_best.solution - self.pop[idx].solution)
-            agent.solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            agent.solution = pos_new
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(pos_new)
-- 
2.43.0


From 532790a4fe04ceef87847fbeddaa17b4da88817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 028/101] fix: EVO: real-valued steps on integer positions

---
 mealpy/physics_based/EVO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/EVO.py b/mealpy/physics_based/EVO.py
index 8aef286..17bc52d 100644
--- a/mealpy/physics_based/EVO.py
+++ b/mealpy/physics_based/EVO.py
@@ -81,8 +81,8 @@ class OriginalEVO(Optimizer):
             eb = np.mean(fit_list)
             sl = (fit_list[idx] - self.g_best.target.fitness) / (self.g_worst.target.fitness - self.g_best.target.fitness + self.EPSILON)
 
-            pos_new1 = self.pop[idx].solution.copy()
-            pos_new2 = self.pop[idx].solution.copy()
+            pos_new1 = self.pop[idx].solution.astype(float)
+            pos_new2 = self.pop[idx].solution.astype(float)
             if self.compare_fitness(eb, self.pop[idx].target.fitness, self.problem.minmax):
                 if self.generator.random() > sl:
                     a1_idx = self.generator.integers(self.problem.n_dims)
-- 
2.43.0


From e16f93880fb60de82f461c17c0af59a079d4724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 029/101] fix: KLA: fitness ratios of different signs gave NaN
 positions

---
 mealpy/physics_based/KLA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/physics_based/KLA.py b/mealpy/physics_based/KLA.py
index b790453..c2eb06c 100644
--- a/mealpy/physics_based/KLA.py
+++ b/mealpy/physics_based/KLA.py
@@ -81,9 +81,9 @@ class OriginalKLA(Optimizer):
             Q2 = (f_i - f_b) / (np.abs(f_i - f_b) + self.EPSILON)
 
             # Calculate random components
-            q1 = (f_jj / (f_i + self.EPSILON)) ** (2 * self.generator.random())
-            Q1 = (f_a / (f_i + self.EPSILON)) ** (2 * self.generator.random())
-            Q21 = (f_b / (f_i + self.EPSILON)) ** (2 * self.generator.random())
+            q1 = np.abs(f_jj / (f_i + self.EPSILON)) ** (2 * self.generator.random())
+            Q1 = np.abs(f_a / (f_i + self.EPSILON)) ** (2 * self.generator.random())
+            Q21 = np.abs(f_b / (f_i + self.EPSILON)) ** (2 * self.generator.random())
 
             # Calculate steps S1, S2, S3
             s1 = q1 * q * self.generator.random(self.problem.n_dims) * (self.pop[jj].solution - self.pop[idx].solution)
-- 
2.43.0


From 1bcb74f030eb5a8cb21445a23f2b00f5ce245de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 030/101] fix: NRO: one levy step per coordinate

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index dcf4dfd..874a95c 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -124,7 +124,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     #### Levy flight strategy is described as Eq. 18
                     if self.pop[i2].solution[j] == self.pop[idx].solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.pop[idx].solution[j] - self.g_best.solution[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.pop[idx].solution[j] - self.g_best.solution[j])
                     #### If not, based on Eq. 11, 12
                     else:
                         if self.generator.uniform() <= 0.5:
@@ -137,7 +137,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     ##### Based on Eq. 21
                     if X_worst.solution[j] == self.g_best.solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.problem.ub[j] - self.problem.lb[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.problem.ub[j] - self.problem.lb[j])
                     ##### Based on Eq. 13
                     else:
                         X_ion[j] = self.pop[idx].solution[j] + round(self.generator.uniform()) * self.generator.uniform() * \
-- 
2.43.0


From ea14b921a23e6f1d26e373302f37d8998811626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 031/101] fix: SA: correct the perturbed position before it is
 evaluated

---
 mealpy/physics_based/SA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index c2618af..2442ddf 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -82,6 +82,7 @@ class OriginalSA(Optimizer):
         # Perturb the current solution
 
         pos_new = self.agent_current.solution + self.generator.standard_normal(self.problem.n_dims) * self.step_size
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
@@ -176,6 +177,7 @@ class GaussianSA(Optimizer):
         """
         # Perturb the current solution
         pos_new = self.agent_current.solution + self.generator.normal(scale=self.scale, size=self.problem.n_dims)
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
-- 
2.43.0


From 0a1e8b9a46833d79e11985e265d06372cd3f0859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 032/101] fix: SOO: the second phase has its own population

---
 mealpy/physics_based/SOO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/SOO.py b/mealpy/physics_based/SOO.py
index f70ad77..9f5b935 100644
--- a/mealpy/physics_based/SOO.py
+++ b/mealpy/physics_based/SOO.py
@@ -122,6 +122,7 @@ class OriginalSOO(Optimizer):
         _, best3, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
 
         # Perform oscillatory movement update
+        pop_new = []
         for idx in range(self.pop_size):
             # Average of top star positions
             avg3 = np.mean([agent.solution for agent in best3], axis=0)
-- 
2.43.0


From 1627c294f919b069ff69be15242976a63a0b4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 033/101] fix: TWO: work on copies of the teams, evaluate
 corrected positions, odd population sizes

---
 mealpy/physics_based/TWO.py | 57 ++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 759bb1a..ca0ec88 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -82,6 +82,7 @@ class OriginalTWO(Optimizer):
         maxx, minn = np.max(list_fits), np.min(list_fits)
         if maxx == minn:
             list_fits = self.generator.uniform(0.0, 1.0, self.pop_size)
+            maxx, minn = np.max(list_fits), np.min(list_fits)
         list_weights = np.exp(-(list_fits - maxx) / (maxx - minn))
         list_weights = list_weights/np.sum(list_weights) + 0.1
         for idx in range(self.pop_size):
@@ -95,7 +96,7 @@ class OriginalTWO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -171,10 +172,11 @@ class OppoTWO(OriginalTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        list_idx = self.generator.choice(range(0, self.pop_size), int(self.pop_size/2), replace=False)
-        pop_temp = [self.pop[list_idx[idx]] for idx in range(0, int(self.pop_size/2))]
+        n_temp = self.pop_size - int(self.pop_size/2)
+        list_idx = self.generator.choice(range(0, self.pop_size), n_temp, replace=False)
+        pop_temp = [self.pop[list_idx[idx]] for idx in range(0, n_temp)]
         pop_oppo = []
-        for idx in range(len(pop_temp)):
+        for idx in range(self.pop_size - n_temp):
             pos_opposite = self.problem.ub + self.problem.lb - pop_temp[idx].solution
             pos_opposite = self.correct_solution(pos_opposite)
             agent = self.generate_empty_agent(pos_opposite)
@@ -193,7 +195,7 @@ class OppoTWO(OriginalTWO):
             epoch (int): The current iteration
         """
         ## Apply force of others solution on each individual solution
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -205,14 +207,15 @@ class OppoTWO(OriginalTWO):
                     delta_x = 1 / 2 * acceleration + np.power(self.alpha, epoch) * self.beta * \
                               (self.problem.ub - self.problem.lb) * self.generator.normal(0, 1, self.problem.n_dims)
                     pos_new += delta_x
-            self.pop[idx].solution = pos_new
+            pop_new[idx].solution = pos_new
         ## Amend solution and update fitness value
         for idx in range(self.pop_size):
             pos_new = self.g_best.solution + self.generator.normal(0, 1, self.problem.n_dims) / (epoch) * (self.g_best.solution - pop_new[idx].solution)
             conditions = np.logical_or(pop_new[idx].solution < self.problem.lb, pop_new[idx].solution > self.problem.ub)
             conditions = np.logical_and(conditions, self.generator.random(self.problem.n_dims) < 0.5)
-            pos_new = np.where(conditions, pos_new, self.pop[idx].solution)
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = np.where(conditions, pos_new, pop_new[idx].solution)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -278,7 +281,7 @@ class LevyTWO(OriginalTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -292,7 +295,7 @@ class LevyTWO(OriginalTWO):
                     pos_new +=delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -304,7 +307,8 @@ class LevyTWO(OriginalTWO):
                             pos_new[jdx] = self.problem.lb[jdx]
                         if pos_new[jdx] > self.problem.ub[jdx]:
                             pos_new[jdx] = self.problem.ub[jdx]
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -316,12 +320,12 @@ class LevyTWO(OriginalTWO):
             ## Chance for each agent to update using levy is 50%
             if self.generator.random() < 0.5:
                 levy_step = self.get_levy_flight_step(beta=1.0, multiplier=0.01, size=self.problem.n_dims, case=-1)
-                pos_new = pop_new[idx].solution + levy_step
+                pos_new = self.pop[idx].solution + levy_step
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
-                if self.compare_target(agent.target, pop_new[idx].target, self.problem.minmax):
-                    pop_new[idx] = agent
-        self.pop = self.update_weight__(pop_new)
+                if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
+                    self.pop[idx] = agent
+        self.pop = self.update_weight__(self.pop)
 
 
 class EnhancedTWO(OppoTWO, LevyTWO):
@@ -374,7 +378,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        pop_oppo = self.pop.copy()
+        pop_oppo = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_opposite = self.problem.ub + self.problem.lb - self.pop[idx].solution
             pos_new = self.correct_solution(pos_opposite)
@@ -392,7 +396,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -406,7 +410,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                     pos_new += delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -418,7 +422,8 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                             pos_new[jdx] = self.problem.lb[jdx]
                         if pos_new[jdx] > self.problem.ub[jdx]:
                             pos_new[jdx] = self.problem.ub[jdx]
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -427,16 +432,16 @@ class EnhancedTWO(OppoTWO, LevyTWO):
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
 
         for idx in range(self.pop_size):
-            C_op = self.generate_opposition_solution(pop_new[idx], self.g_best)
+            C_op = self.generate_opposition_solution(self.pop[idx], self.g_best)
             pos_new = self.correct_solution(C_op)
             agent = self.generate_agent(pos_new)
-            if self.compare_target(agent.target, pop_new[idx].target, self.problem.minmax):
-                pop_new[idx] = agent
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
+                self.pop[idx] = agent
             else:
                 levy_step = self.get_levy_flight_step(beta=1.0, multiplier=1.0, size=self.problem.n_dims, case=-1)
-                pos_new = pop_new[idx].solution + 1.0 / np.sqrt(epoch) * levy_step
+                pos_new = self.pop[idx].solution + 1.0 / np.sqrt(epoch) * levy_step
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
-                if self.compare_target(agent.target, pop_new[idx].target, self.problem.minmax):
-                    pop_new[idx] = agent
-        self.pop = self.update_weight__(pop_new)
+                if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
+                    self.pop[idx] = agent
+        self.pop = self.update_weight__(self.pop)
-- 
2.43.0


From add4266080e41eaa1b2c0654fbd2d35733b05a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 034/101] fix: LSHADEcnEpSin: draw from the seeded generator

---
 mealpy/sota_based/LSHADEcnEpSin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 059faac..84c4f4b 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -185,7 +185,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
         """Standard binomial crossover"""
         if CR is None:
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
         trial = np.where(self.generator.uniform(0, 1, self.problem.n_dims) <= CR, mutant, target)
         j_rand = self.generator.integers(0, self.problem.n_dims)
@@ -222,7 +222,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
                 # Generate random CR for this crossover
                 r_idx = self.generator.integers(0, self.H)
-                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
                 CR = np.clip(CR, 0, 1)
 
                 # Binomial crossover in eigen space
@@ -291,20 +291,20 @@ class OriginalLSHADEcnEpSin(Optimizer):
                 else:
                     # Configuration 2: adaptive increasing
                     r_idx = self.generator.integers(0, self.H)
-                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1)
+                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1, random_state=self.generator)
                     freq = np.clip(freq, 0.1, 2.0)
                     F = self.sinusoidal_adaptation(epoch, self.epoch, config_type=2, freq=freq)
                     config_used = 2
             else:
                 # Second half: standard LSHADE
                 r_idx = self.generator.integers(0, self.H)
-                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1)
+                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1, random_state=self.generator)
                 F = np.clip(F, 0.1, 1.0)
                 config_used = 0
 
             # Generate CR
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
 
             # Mutation
-- 
2.43.0


From 76668dd2728bb9995cfc7185cecfe74b8e2f9444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 035/101] fix: BFO: keep the population size; ABFO: step sizes
 of an earlier solve, population balance

---
 mealpy/swarm_based/BFO.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 300a906..afac87f 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -164,7 +164,8 @@ class OriginalBFO(Optimizer):
                     sum_nutrients += self.pop[idx].cost
                 self.pop[idx].nutrients = sum_nutrients
             cells = sorted(self.pop, key=lambda cell: cell.nutrients)
-            self.pop = cells[0:self.half_pop_size].copy() + cells[0:self.half_pop_size].copy()
+            # The better half reproduces, the size of the population stays the same
+            self.pop = cells[0:self.pop_size - self.half_pop_size] + [cell.copy() for cell in cells[0:self.half_pop_size]]
             for idc in range(self.pop_size):
                 if self.generator.random() < self.p_eliminate:
                     self.pop[idc] = self.generate_agent()
@@ -249,8 +250,8 @@ class ABFO(Optimizer):
         self.sort_flag = False
 
     def initialize_variables(self):
-        self.C_s = self.C_s * (self.problem.ub - self.problem.lb)
-        self.C_e = self.C_e * (self.problem.ub - self.problem.lb)
+        self.dyn_C_s = self.C_s * (self.problem.ub - self.problem.lb)
+        self.dyn_C_e = self.C_e * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
@@ -265,7 +266,7 @@ class ABFO(Optimizer):
 
     def update_step_size__(self, pop=None, idx=None):
         total_fitness = np.sum([agent.target.fitness for agent in pop])
-        step_size = self.C_s - (self.C_s - self.C_e) * pop[idx].target.fitness / total_fitness
+        step_size = self.dyn_C_s - (self.dyn_C_s - self.dyn_C_e) * pop[idx].target.fitness / total_fitness
         step_size = step_size / self.pop[idx].nutrients if self.pop[idx].nutrients > 0 else step_size
         return step_size
 
@@ -293,13 +294,13 @@ class ABFO(Optimizer):
                         self.pop[idx].update(local_solution=pos_new.copy(), local_target=agent.target.copy())
                 else:
                     self.pop[idx].nutrients -= 1
-            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / self.N_adapt)):
+            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / max(1, self.N_adapt))):
                 tt = self.generator.normal(0, 1, self.problem.n_dims)
                 pos_new = tt * self.pop[idx].solution + (1 - tt) * (self.g_best.solution - self.pop[idx].solution)
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop.append(agent)
-            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / self.N_adapt))
+            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / max(1, self.N_adapt)))
             if self.pop[idx].nutrients < nut_min or self.generator.random() < self.p_eliminate:
                 self.pop[idx] = self.generate_agent()
         ## Make sure the population does not have duplicates.
@@ -312,7 +313,7 @@ class ABFO(Optimizer):
         ## Balance the population by adding more agents or remove some agents
         n_agents = len(self.pop) - self.pop_size
         if n_agents < 0:
-            for idx in range(0, n_agents):
+            for idx in range(0, -n_agents):
                 agent = self.generate_agent()
                 self.pop.append(agent)
         elif n_agents > 0:
-- 
2.43.0


From f14d404f25b0336ba99e013567c1b57ba56b2ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 036/101] fix: BeesA: dance on a copy of the position, start
 each solve with the initial radius

---
 mealpy/swarm_based/BeesA.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d78d976..7b95009 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -96,7 +96,7 @@ class CleverBookBeesA(Optimizer):
         """
         pop_neigh = []
         for idx in range(0, neigh_size):
-            t1 = self.generator.integers(0, len(parent.solution) - 1)
+            t1 = self.generator.integers(0, len(parent.solution))
             new_bee = parent.solution.copy()
             new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.patch_size) if self.generator.uniform() < 0.5 \
                 else (parent.solution[t1] - self.generator.uniform() * self.patch_size)
@@ -209,11 +209,15 @@ class OriginalBeesA(Optimizer):
         self.dyn_radius = self.dance_radius
         self.n_selected_bees = int(round(self.selected_site_ratio * self.pop_size))
         self.n_elite_bees = int(round(self.elite_site_ratio * self.n_selected_bees))
-        self.n_selected_bees_local = int(round(self.selected_site_bee_ratio * self.pop_size))
-        self.n_elite_bees_local = int(round(self.elite_site_bee_ratio * self.n_selected_bees_local))
+        self.n_selected_bees_local = max(1, int(round(self.selected_site_bee_ratio * self.pop_size)))
+        self.n_elite_bees_local = max(1, int(round(self.elite_site_bee_ratio * self.n_selected_bees_local)))
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.dyn_radius = self.dance_radius
+
     def perform_dance__(self, position, r):
+        position = position.copy()
         jdx = self.generator.choice(range(0, self.problem.n_dims))
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
@@ -327,7 +331,11 @@ class ProbBeesA(Optimizer):
         self.dyn_radius = self.dance_radius
         self.recruited_bee_count = int(round(self.recruited_bee_ratio * self.pop_size))
 
+    def initialize_variables(self):
+        self.dyn_radius = self.dance_radius
+
     def perform_dance__(self, position, r):
+        position = position.copy()
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
-- 
2.43.0


From 215a4b9dc215c9e45a4f10ace7efe685e6936103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 037/101] fix: DBO: previous positions belong to the current
 solve

---
 mealpy/swarm_based/DBO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/DBO.py b/mealpy/swarm_based/DBO.py
index 0a40f02..c1c79a7 100644
--- a/mealpy/swarm_based/DBO.py
+++ b/mealpy/swarm_based/DBO.py
@@ -74,9 +74,8 @@ class OriginalDBO(Optimizer):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        # Initialize previous positions x(t−1) on the first call
-        if self._prev_positions is None:
-            self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
+        # Initialize previous positions x(t−1)
+        self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
 
     def evolve(self, epoch: int):
         """
-- 
2.43.0


From 00106cf7d361b21b47793330f9961557b0aa7268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 038/101] fix: DMOA: division by zero gave NaN positions

---
 mealpy/swarm_based/DMOA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/DMOA.py b/mealpy/swarm_based/DMOA.py
index 67e9e65..1d11971 100644
--- a/mealpy/swarm_based/DMOA.py
+++ b/mealpy/swarm_based/DMOA.py
@@ -111,7 +111,7 @@ class OriginalDMOA(Optimizer):
             new_pos = self.correct_solution(new_pos)
             agent = self.generate_agent(new_pos)
             ## Sleeping mould
-            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness)/np.max([agent.target.fitness, self.pop[idx].target.fitness])
+            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness)/(np.max([agent.target.fitness, self.pop[idx].target.fitness]) + self.EPSILON)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
             else:
@@ -124,7 +124,7 @@ class OriginalDMOA(Optimizer):
         ## Next Mongoose position
         new_tau = np.mean(SM)
         for idx in range(0, self.pop_size):
-            M = SM[idx] * self.pop[idx].solution / self.pop[idx].solution
+            M = SM[idx]
             phi = (self.peep / 2) * self.generator.uniform(-1, 1, self.problem.n_dims)
             if new_tau > self.tau:
                 new_pos = self.pop[idx].solution - CF * phi * self.generator.random() * (self.pop[idx].solution - M)
-- 
2.43.0


From f830b4398d60300233bf337f5356ef5e492eca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 039/101] fix: DSO: division by zero when all doves meet

---
 mealpy/swarm_based/DSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/DSO.py b/mealpy/swarm_based/DSO.py
index 8bdd19b..66b36c2 100644
--- a/mealpy/swarm_based/DSO.py
+++ b/mealpy/swarm_based/DSO.py
@@ -101,7 +101,7 @@ class OriginalDSO(Optimizer):
         max_distance = np.max(distances)
 
         # Avoid division by zero in convergence scenarios
-        if max_distance != 0 or s_ds != 0:
+        if max_distance != 0 and s_ds != 0:
             # Update each dove's position vector (Eq. 8 & 9)
             for idx in range(self.pop_size):
                 # Eq. 9: Calculate social impact coefficient
-- 
2.43.0


From 0bd638da415b932397c055abc328e3676a334932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 040/101] fix: EHO: population sizes that are not a multiple of
 the number of clans

---
 mealpy/swarm_based/EHO.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/EHO.py b/mealpy/swarm_based/EHO.py
index 7e48a52..20b2688 100644
--- a/mealpy/swarm_based/EHO.py
+++ b/mealpy/swarm_based/EHO.py
@@ -73,10 +73,16 @@ class OriginalEHO(Optimizer):
         self.n_individuals = int(self.pop_size / self.n_clans)
         self.sort_flag = False
 
+    def generate_clans__(self, pop):
+        # The last clan also gets the agents that remain when pop_size isn't divisible by n_clans
+        clans = self.generate_group_population(pop, self.n_clans, self.n_individuals)
+        clans[-1] += [agent.copy() for agent in pop[self.n_clans * self.n_individuals:]]
+        return clans
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        self.pop_group = self.generate_group_population(self.pop, self.n_clans, self.n_individuals)
+        self.pop_group = self.generate_clans__(self.pop)
 
     def evolve(self, epoch):
         """
@@ -88,8 +94,8 @@ class OriginalEHO(Optimizer):
         # Clan updating operator
         pop_new = []
         for idx in range(0, self.pop_size):
-            clan_idx = int(idx / self.n_individuals)
-            pos_clan_idx = int(idx % self.n_individuals)
+            clan_idx = min(int(idx / self.n_individuals), self.n_clans - 1)
+            pos_clan_idx = idx - clan_idx * self.n_individuals
             if pos_clan_idx == 0:  # The best in clan, because all clans are sorted based on fitness
                 center = np.mean(np.array([agent.solution for agent in self.pop_group[clan_idx]]), axis=0)
                 pos_new = self.beta * center
@@ -105,7 +111,7 @@ class OriginalEHO(Optimizer):
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
-        self.pop_group = self.generate_group_population(self.pop, self.n_clans, self.n_individuals)
+        self.pop_group = self.generate_clans__(self.pop)
         # Separating operator
         for idx in range(0, self.n_clans):
             self.pop_group[idx], _ = self.get_sorted_population(self.pop_group[idx], self.problem.minmax)
-- 
2.43.0


From 8c01e184a2b404a1328df7b78ef626696dc1b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 041/101] fix: FOA: the stored position is the evaluated one,
 negative upper bounds

---
 mealpy/swarm_based/FOA.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index e7f40ca..ba82fdf 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -61,8 +61,8 @@ class OriginalFOA(Optimizer):
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
-            solution = self.problem.generate_solution(encoded=True)
-        solution = self.norm_consecutive_adjacent__(solution)
+            solution = self.norm_consecutive_adjacent__(self.problem.generate_solution(encoded=True))
+            solution = self.correct_solution(solution)
         return Agent(solution=solution)
 
     def evolve(self, epoch):
@@ -74,7 +74,7 @@ class OriginalFOA(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
@@ -139,7 +139,7 @@ class DevFOA(OriginalFOA):
         c = 1 - epoch / self.epoch
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = c * self.generator.random() * self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From f9145a370ec6a80abe45d5bbde99c68be8412f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 042/101] fix: OGWO, IOBL_GWO: correct opposite positions

---
 mealpy/swarm_based/GWO.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 52316fa..2ea0ebe 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1020,9 +1020,9 @@ class IOBL_GWO(Optimizer):
         # Apply Opposition-Based Learning (OBL) for leading wolves
         _, list_best, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
         pop_sorted, indices = self.get_sorted_population(self.pop, minmax=self.problem.minmax)
-        obl_alpha = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[0].solution)
-        obl_beta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[1].solution)
-        obl_delta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[2].solution)
+        obl_alpha = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[0].solution))
+        obl_beta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[1].solution))
+        obl_delta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[2].solution))
         obl_pop = [obl_alpha, obl_beta, obl_delta]
 
         # Replace worst 3 wolves with opposite solutions if they are better
@@ -1098,7 +1098,7 @@ class OGWO(Optimizer):
         # Generate opposition population using equation (12)
         pop_opposite = []
         for agent in self.pop:
-            pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+            pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
             agent_opposite = self.generate_empty_agent(pos_opposite)
             agent_opposite.target = self.get_target(pos_opposite)
             pop_opposite.append(agent_opposite)
@@ -1142,7 +1142,7 @@ class OGWO(Optimizer):
             # Generate opposition population using equation (12)
             pop_opposite = []
             for agent in self.pop:
-                pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+                pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
                 agent_opposite = self.generate_empty_agent(pos_opposite)
                 agent_opposite.target = self.get_target(pos_opposite)
                 pop_opposite.append(agent_opposite)
-- 
2.43.0


From 033ab8e0db6c316308f8884c4247c3b0bc24fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 043/101] fix: ORCA: keep the population size, reset per-solve
 variables

---
 mealpy/swarm_based/ORCA.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 8dece2d..80a899c 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -63,6 +63,9 @@ class OriginalOrcaOA(Optimizer):
         self.sort_flag = True
         self.n_removes = int(self.p_percent * pop_size)
 
+    def initialize_variables(self):
+        self.R = self.R0
+
     def evolve(self, epoch: int):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -107,7 +110,7 @@ class OriginalOrcaOA(Optimizer):
         # Evaluate fitness in parallel
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-        self.pop = pop_new
+        self.pop = [self.pop[0]] + pop_new
 
         # Reduce the radius of the ice floe (simulated linear decay)
         self.R = self.R0 * (1. - epoch / self.epoch)
-- 
2.43.0


From 32314862ff4c7e0f79349d12f1dfef3475433556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 044/101] fix: SMO: groups of different sizes

---
 mealpy/swarm_based/SMO.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 131cfc4..c578531 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -118,12 +118,17 @@ class DevSMO(Optimizer):
         # Get local leaders
         self.local_leaders = [self.get_sorted_population(group, self.problem.minmax)[0][0] for group in self.groups]
 
+    @staticmethod
+    def other_members__(n_items, idx):
+        """Indices of the members of a group other than idx (a group of one monkey has only itself)"""
+        return list(set(range(n_items)) - {idx}) if n_items > 1 else [idx]
+
     def local_leader_phase(self):
         """Local Leader Phase - all monkeys update based on local leader"""
         for group_idx, group in enumerate(self.groups):
             n_items = len(group)
             for idx in range(n_items):
-                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}), size=self.problem.n_dims, replace=True)
+                list_rand = self.generator.choice(self.other_members__(n_items, idx), size=self.problem.n_dims, replace=True)
                 vector = np.array([group[jdx].solution[kdx] for kdx, jdx in enumerate(list_rand)])
                 pos_new = group[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                           (self.local_leaders[group_idx].solution - group[idx].solution) + \
@@ -157,7 +162,7 @@ class DevSMO(Optimizer):
                         # Randomly select dimension to update
                         k = self.generator.integers(0, self.problem.n_dims)
                         # Select random monkey
-                        jdx = self.generator.choice(list(set(range(self.group_size)) - {idx}))
+                        jdx = self.generator.choice(self.other_members__(len(group), idx))
                         pos_new = agent.solution.copy()
                         # Update using equation (4)
                         pos_new[k] = pos_new[k] + self.generator.uniform(0, 1) * (self.g_best.solution[k] - pos_new[k]) +\
-- 
2.43.0


From 3b686329091fa07fd9d239932407f844bdd1535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 045/101] fix: SSpiderA: collect new agents in every mode

---
 mealpy/swarm_based/SSpiderA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 2e6e338..ee1c338 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -131,7 +131,7 @@ class DevSSpiderA(Optimizer):
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(agent.solution)
                 agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
-                pop_new.append(agent)
+            pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 00f30215140ea170c45498faff34d636f252bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 046/101] fix: SquirrelSA: number of relocated squirrels

---
 mealpy/swarm_based/SquirrelSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 08e8247..6a1961c 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -176,7 +176,7 @@ class OriginalSquirrelSA(Optimizer):
 
         if S_c < S_min:
             # Winter season is over: randomly relocate some squirrels
-            n_relocate = max(1, len(self.pop_size - self.n_food_sources) // 4)
+            n_relocate = max(1, (self.pop_size - self.n_food_sources) // 4)
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
                 levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
-- 
2.43.0


From d19e9572d395a49dfcad60f6981fb20bebbaa2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 047/101] fix: do not transfer an already binary position again
 when decoding

---
 mealpy/utils/space.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 483b008..44a0211 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -378,6 +378,12 @@ class TransferBinaryVar(BinaryVar):
         self.ub = ub * np.ones(self.n_vars)
         self.all_zeros = all_zeros
 
+    def decode(self, x):
+        # A position that already is binary must not be put through the random transfer again
+        if not np.all(np.isin(x, (0, 1))):
+            x = self.correct(x)
+        return np.array(x, dtype=int)
+
     def _get_correct_x(self, x):
         if self.all_zeros:
             return x
@@ -435,6 +441,12 @@ class TransferBoolVar(BoolVar):
         self.lb = lb * np.zeros(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
 
+    def decode(self, x):
+        # A position that already is binary must not be put through the random transfer again
+        if not np.all(np.isin(x, (0, 1))):
+            x = self.correct(x)
+        return np.array(x, dtype=int) == 1
+
     def correct(self, x):
         x = np.clip(x, self.lb, self.ub)
         x = self.tf_func(x)
-- 
2.43.0


From 0d46e2555321eb9fb05ba3710a001f2539f6aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 048/101] fix: WCA must cope with rivers without streams and
 costs that cancel out

---
 mealpy/system_based/WCA.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mealpy/system_based/WCA.py b/mealpy/system_based/WCA.py
index a8c809f..95fb59f 100644
--- a/mealpy/system_based/WCA.py
+++ b/mealpy/system_based/WCA.py
@@ -96,14 +96,19 @@ class OriginalWCA(Optimizer):
 
         # Designate streams to rivers and sea
         cost_river_list = np.array([agent.target.fitness for agent in self.pop_best])
-        num_child_in_river_list = np.round(np.abs(cost_river_list / np.sum(cost_river_list)) * n_stream).astype(int)
+        # The share of each river is relative to the total cost, it can't be told when the costs are not finite or cancel out
+        share_river_list = np.abs(cost_river_list) / np.sum(np.abs(cost_river_list))
+        if not np.all(np.isfinite(share_river_list)):
+            share_river_list = np.ones(self.nsr) / self.nsr
+        num_child_in_river_list = np.round(share_river_list * n_stream).astype(int)
         if np.sum(num_child_in_river_list) < n_stream:
             num_child_in_river_list[-1] += n_stream - np.sum(num_child_in_river_list)
         streams = {}
         idx_already_selected = []
         for i in range(0, self.nsr - 1):
             streams[i] = []
-            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)), num_child_in_river_list[i], replace=False).tolist()
+            idx_left = list(set(range(0, n_stream)) - set(idx_already_selected))
+            idx_list = self.generator.choice(idx_left, min(num_child_in_river_list[i], len(idx_left)), replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
                 streams[i].append(self.pop_stream[idx])
@@ -133,9 +138,10 @@ class OriginalWCA(Optimizer):
                     stream_new[-1].target = self.get_target(pos_new)
             stream_new = self.update_target_for_population(stream_new)
             self.streams[idx] = stream_new
-            stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
-            if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
-                self.pop_best[idx] = stream_best.copy()
+            if len(stream_new) > 0:     # A river can be left without streams
+                stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
+                if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
+                    self.pop_best[idx] = stream_best.copy()
             # Update river
             pos_new = self.pop_best[idx].solution + self.generator.uniform() * self.wc * (self.g_best.solution - self.pop_best[idx].solution)
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 9a9d2b3431d95b00a83055a744d1d39e44173a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 049/101] fix: SLO: an agent keeps its own (starting) position
 when it is better than the opposite one

---
 mealpy/swarm_based/SLO.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mealpy/swarm_based/SLO.py b/mealpy/swarm_based/SLO.py
index 2363dca..5eedae5 100644
--- a/mealpy/swarm_based/SLO.py
+++ b/mealpy/swarm_based/SLO.py
@@ -154,13 +154,10 @@ class ModifiedSLO(Optimizer):
         target = agent.target
         local_target = self.get_target(agent.local_solution)
         if self.compare_target(target, local_target, self.problem.minmax):
-            t1 = agent.local_solution.copy()
-            t2 = agent.solution.copy()
-            agent.update(solution=t1, target=local_target, local_solution=t2, local_target=target)
+            # The agent itself is its local best, not its opposite position
+            agent.update(local_solution=agent.solution.copy(), local_target=target.copy())
         else:
-            t1 = agent.solution.copy()
-            t2 = agent.local_solution.copy()
-            agent.update(solution=t1, target=target, local_solution=t2, local_target=local_target)
+            agent.update(local_target=local_target)
         return agent
 
     def evolve(self, epoch):
-- 
2.43.0


From d1ad03d0ce3eab7510a7324fe44a44565d1ae172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 050/101] fix: OppoTWO must not drop the best agent of the
 initial population

---
 mealpy/physics_based/TWO.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index ca0ec88..bfacf09 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -174,6 +174,10 @@ class OppoTWO(OriginalTWO):
             self.pop = self.generate_population(self.pop_size)
         n_temp = self.pop_size - int(self.pop_size/2)
         list_idx = self.generator.choice(range(0, self.pop_size), n_temp, replace=False)
+        # The best agent is never dropped
+        _, idx_best = self.get_best_agent(self.pop, self.problem.minmax)
+        if idx_best not in list_idx:
+            list_idx[-1] = idx_best
         pop_temp = [self.pop[list_idx[idx]] for idx in range(0, n_temp)]
         pop_oppo = []
         for idx in range(self.pop_size - n_temp):
-- 
2.43.0


From aac1086ead039550e1f50e9d22ffde24313b701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 051/101] fix: LSHADEcnEpSin: population smaller than the
 minimum size, problems with one variable

---
 mealpy/sota_based/LSHADEcnEpSin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 84c4f4b..d59550e 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -96,7 +96,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
     def initialize_variables(self):
         self.NP_init = self.pop_size if self.pop_size else 18 * self.problem.n_dims
-        self.NP_min = self.pop_size_min  # Minimum population size
+        self.NP_min = min(self.pop_size_min, self.NP_init)  # Minimum population size
         self.NP = self.NP_init      # population size will be updated in each iteration
 
         # Memory settings
@@ -206,7 +206,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
         # Compute covariance matrix
         if neighborhood.shape[0] > 1:
-            cov_matrix = np.cov(neighborhood.T)
+            cov_matrix = np.atleast_2d(np.cov(neighborhood.T))
             # Ensure positive definite
             cov_matrix += np.eye(self.problem.n_dims) * 1e-8
 
-- 
2.43.0


From 36d7dc9c683c4875627bdfb3243e612bf6e0afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 052/101] fix: CDDO: the pattern matrix cannot be larger than
 the population

---
 mealpy/human_based/CDDO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CDDO.py b/mealpy/human_based/CDDO.py
index b56df44..5e2e20b 100644
--- a/mealpy/human_based/CDDO.py
+++ b/mealpy/human_based/CDDO.py
@@ -122,7 +122,7 @@ class OriginalCDDO(Optimizer):
                 self.SR = self.generator.integers(6, 11) / 10
             elif 1.5 < self.list_gr[idx] < 2:
                 # Consider the learnt patterns
-                pos_new = pattern[self.generator.integers(0, self.pattern_size)].solution - self.creativity_rate * self.pop_local[idx].solution
+                pos_new = pattern[self.generator.integers(0, len(pattern))].solution - self.creativity_rate * self.pop_local[idx].solution
                 self.LR = self.generator.integers(0, 6) / 10
                 self.SR = self.generator.integers(0, 6) / 10
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 0b3f8403aa6120d71c1733ec1855a53c9776b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 053/101] fix: INFO: the better agent must exist in a
 population of five

---
 mealpy/math_based/INFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/INFO.py b/mealpy/math_based/INFO.py
index 30651c9..b1f3e08 100644
--- a/mealpy/math_based/INFO.py
+++ b/mealpy/math_based/INFO.py
@@ -71,7 +71,7 @@ class OriginalINFO(Optimizer):
             epoch (int): The current iteration
         """
         alpha = 2 * np.exp(-4 * (epoch / self.epoch))      # Eqs.(5.1) - Eq.(9.1)
-        idx_better = self.generator.integers(2, 6)
+        idx_better = self.generator.integers(2, min(6, self.pop_size))
         better = self.pop[idx_better]
         g_worst = self.pop[-1]
 
-- 
2.43.0


From 6951e0495f1249d487ef555ae8dae99f9fa25dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 054/101] fix: ICA: distribution of colonies and collapse of an
 empire

---
 mealpy/human_based/ICA.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 7a8940e..c8c6647 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -110,13 +110,17 @@ class OriginalICA(Optimizer):
 
         cost_empires_list = np.array([agent.target.fitness for agent in self.pop_empires])
         cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
-        prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))
+        total_cost = np.sum(cost_empires_list_normalized)
+        if total_cost == 0 or not np.isfinite(total_cost):
+            prob_empires_list = np.ones(self.empire_count) / self.empire_count
+        else:
+            prob_empires_list = np.abs(cost_empires_list_normalized / total_cost)
         # Randomly choose colonies to empires
         self.empires = {}
         idx_already_selected = []
         for i in range(0, self.empire_count - 1):
             self.empires[i] = []
-            n_colonies = int(round(prob_empires_list[i] * colony_count))
+            n_colonies = min(int(round(prob_empires_list[i] * colony_count)), colony_count - len(idx_already_selected))
             idx_list = self.generator.choice(list(set(range(0, colony_count)) - set(idx_already_selected)), n_colonies, replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
@@ -171,7 +175,7 @@ class OriginalICA(Optimizer):
         cost_empires_list = []
         for idx, colonies in self.empires.items():
             fit_list = np.array([agent.target.fitness for agent in colonies])
-            fit_empire = self.pop_empires[idx].target.fitness + self.zeta * np.mean(fit_list)
+            fit_empire = self.pop_empires[idx].target.fitness + self.zeta * (np.mean(fit_list) if len(fit_list) > 0 else 0)
             cost_empires_list.append(fit_empire)
         cost_empires_list = np.array(cost_empires_list)
         # Find possession probability of each empire based on its total power
@@ -185,7 +189,12 @@ class OriginalICA(Optimizer):
         if len(self.empires[idx_weakest_empire]) > 0:
             colonies_sorted, _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
             self.empires[idx_empire].append(colonies_sorted.pop(-1))
-        else:
-            self.empires[idx_empire].append(self.pop_empires.pop(idx_weakest_empire))
+        elif idx_empire != idx_weakest_empire:
+            # The weakest empire collapses, its imperialist becomes a colony of the other empire
+            imperialist = self.pop_empires.pop(idx_weakest_empire)
+            self.pop_colonies.append(imperialist)
+            self.empires[idx_empire].append(imperialist)
+            del self.empires[idx_weakest_empire]
+            self.empires = dict(enumerate(self.empires.values()))
 
         self.pop = self.pop_empires + self.pop_colonies
-- 
2.43.0


From 28651b34eb27d29ff783dc910e25c4115b4e087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 055/101] fix: SquirrelSA: number of food sources in a small
 population

---
 mealpy/swarm_based/SquirrelSA.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 6a1961c..38be701 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -88,7 +88,8 @@ class OriginalSquirrelSA(Optimizer):
         self.surface_area = 154e-4  # Surface area (m²)
         self.height_loss = 8  # Height loss during gliding (m)
         # Assign roles: 1 hickory, 3 acorn, rest normal trees
-        self.n_acorn_trees = self.n_food_sources - 1  # Number of acorn trees
+        self.n_trees = min(self.n_food_sources, self.pop_size - 2)
+        self.n_acorn_trees = self.n_trees - 1  # Number of acorn trees
 
     def calculate_gliding_distance(self):
         """Calculate gliding distance based on aerodynamics"""
@@ -134,13 +135,13 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Case 2: Normal squirrels move toward acorn trees
-        indices_random = np.array(list(range(self.pop_size - self.n_food_sources)))
+        indices_random = np.array(list(range(self.pop_size - self.n_trees)))
         self.generator.shuffle(indices_random)
-        indices_random = indices_random + self.n_food_sources # True indices of normal squirrels
-        n_cut = self.generator.integers(1, self.pop_size - self.n_food_sources - 1)
+        indices_random = indices_random + self.n_trees # True indices of normal squirrels
+        n_cut = self.generator.integers(1, max(2, self.pop_size - self.n_trees - 1))
         for idx in indices_random[n_cut:]:
             # Select random acorn tree
-            jdx = self.generator.integers(0, self.n_acorn_trees) + 1
+            jdx = self.generator.integers(0, self.n_acorn_trees) + 1 if self.n_acorn_trees > 0 else 0
             d_g = self.calculate_gliding_distance()
             if self.generator.random() >= self.predator_prob:
                 # No predator: move toward acorn
-- 
2.43.0


From 8bfb8385ae99b7e80542111785d22e688170f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 056/101] fix: TS: stay at the current solution when every
 neighbour is tabu

---
 mealpy/math_based/TS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/math_based/TS.py b/mealpy/math_based/TS.py
index 64bea42..101220f 100644
--- a/mealpy/math_based/TS.py
+++ b/mealpy/math_based/TS.py
@@ -105,6 +105,10 @@ class OriginalTS(Optimizer):
             list_candidates.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 list_candidates[-1].target = self.get_target(pos_new)
+        if len(list_candidates) == 0:
+            if len(self.pop) == 0:
+                self.pop.append(self.g_best.copy())
+            return
         list_candidates = self.update_target_for_population(list_candidates)
         best_candidate, _ = self.get_best_agent(list_candidates, self.problem.minmax)
         self.x = best_candidate.solution
-- 
2.43.0


From 68cc188d6d077ccb656be02359c567667cc8ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 057/101] fix: QSA: queue lengths for service times that are
 not positive

---
 mealpy/human_based/QSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/QSA.py b/mealpy/human_based/QSA.py
index 3b6855f..a932475 100644
--- a/mealpy/human_based/QSA.py
+++ b/mealpy/human_based/QSA.py
@@ -72,7 +72,7 @@ class DevQSA(Optimizer):
             + t2 = t2 * 1.0e+100
             + t3 = t3 * 1.0e+100
         """
-        if t1 > 1.0e-6:
+        if min(t1, t2, t3) > 1.0e-6 and np.isfinite(t1 + t2 + t3):
             n1 = (1 / t1) / ((1 / t1) + (1 / t2) + (1 / t3))
             n2 = (1 / t2) / ((1 / t1) + (1 / t2) + (1 / t3))
         else:
@@ -324,7 +324,7 @@ class LevyQSA(DevQSA):
         t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
-        if t1 > 1.0e-6:
+        if min(t1, t2, t3) > 1.0e-6 and np.isfinite(t1 + t2 + t3):
             cv = t1 / (t2 + t3)
         else:
             cv = 1 / 2
-- 
2.43.0


From 9e042748d1250d2b0941e36a5bc7ada86bdc30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 058/101] fix: ImprovedNMRA: crossover of a solution with one
 variable

---
 mealpy/swarm_based/NMRA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index 5f9a22d..ce70a55 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -147,7 +147,7 @@ class ImprovedNMRA(Optimizer):
         self.size_b = int(self.pop_size / 5)
 
     def crossover_random__(self, pop, g_best):
-        start_point = self.generator.integers(0, self.problem.n_dims / 2)
+        start_point = self.generator.integers(0, max(1, self.problem.n_dims / 2))
         id1 = start_point
         id2 = int(start_point + self.problem.n_dims / 3)
         id3 = int(self.problem.n_dims)
-- 
2.43.0


From a9a8b7f8d24f2cf271463c50bfa4a100b83d3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 059/101] fix: EFO: fields of a small population

---
 mealpy/physics_based/EFO.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mealpy/physics_based/EFO.py b/mealpy/physics_based/EFO.py
index 4c112bf..76bbe1d 100644
--- a/mealpy/physics_based/EFO.py
+++ b/mealpy/physics_based/EFO.py
@@ -78,6 +78,13 @@ class DevEFO(Optimizer):
         self.phi = (1 + np.sqrt(5)) / 2  # golden ratio
         self.sort_flag = True
 
+    def get_field_limits(self):
+        """End of the positive field, begin of the neutral field and begin of the negative field"""
+        top = max(1, int(self.pop_size * self.p_field))
+        mid = min(int((self.pop_size * self.p_field) + 1), self.pop_size - 1)
+        low = min(int(self.pop_size * (1 - self.n_field)), self.pop_size - 1)
+        return top, mid, low
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -87,9 +94,10 @@ class DevEFO(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            r_idx1 = self.generator.integers(0, int(self.pop_size * self.p_field))  # top
-            r_idx2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size)  # bottom
-            r_idx3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)))  # middle
+            top, mid, low = self.get_field_limits()
+            r_idx1 = self.generator.integers(0, top)  # top
+            r_idx2 = self.generator.integers(low, self.pop_size)  # bottom
+            r_idx3 = self.generator.integers(mid, max(mid + 1, low))  # middle
             if self.generator.random() < self.ps_rate:
                 pos_new = self.pop[r_idx1].solution + self.phi * self.generator.random() * (self.g_best.solution - self.pop[r_idx3].solution) \
                           + self.generator.random() * (self.g_best.solution - self.pop[r_idx2].solution)
@@ -188,11 +196,12 @@ class OriginalEFO(DevEFO):
             self.pop = self.generate_population(self.pop_size)
         # %random vectors (this is to increase the calculation speed instead of determining the random values in each
         # iteration we allocate them in the beginning before algorithm start
-        self.r_index1 = self.generator.integers(0, int(self.pop_size * self.p_field), (self.problem.n_dims, self.epoch))
+        top, mid, low = self.get_field_limits()
+        self.r_index1 = self.generator.integers(0, top, (self.problem.n_dims, self.epoch))
         # random particles from positive field
-        self.r_index2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size, (self.problem.n_dims, self.epoch))
+        self.r_index2 = self.generator.integers(low, self.pop_size, (self.problem.n_dims, self.epoch))
         # random particles from negative field
-        self.r_index3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)), (self.problem.n_dims, self.epoch))
+        self.r_index3 = self.generator.integers(mid, max(mid + 1, low), (self.problem.n_dims, self.epoch))
         # random particles from neutral field
         self.ps = self.generator.uniform(0, 1, (self.problem.n_dims, self.epoch))
         # Probability of selecting electromagnets of generated particle from the positive field
-- 
2.43.0


From 4956610bd97f2f652b0cee80285915238c33f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 060/101] fix: JADE and SAP_DE: small populations

---
 mealpy/evolutionary_based/DE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 53e54d8..de49b21 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -269,7 +269,7 @@ class JADE(Optimizer):
                 break
             temp_f.append(f)
             temp_cr.append(cr)
-            top = int(self.pop_size * self.pt)
+            top = max(1, int(self.pop_size * self.pt))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
@@ -573,4 +573,6 @@ class SAP_DE(Optimizer):
         else:
             pop_sorted, _ = self.get_sorted_population(pop, self.problem.minmax)
             self.pop = pop + pop_sorted[:m_new - self.pop_size]
+        if len(self.pop) < 5:       # Each child needs 3 other agents
+            self.pop = pop[:5]
         self.pop_size = len(self.pop)
-- 
2.43.0


From 8cbd4048aac064c70afb4ccb8261c8c680b6c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 061/101] fix: CHIO: nobody is susceptible or immune

---
 mealpy/human_based/CHIO.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 3c3a264..11d0fe9 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -95,10 +95,14 @@ class OriginalCHIO(Optimizer):
                     is_corona_list[i] = True
                 elif (1.0 / 3) * self.brr <= rand < (2.0 / 3) * self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 0)  # Susceptible list
+                    if idx_candidates[0].size == 0:
+                        continue
                     idx_selected = self.generator.choice(idx_candidates[0])
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
@@ -214,6 +218,8 @@ class DevCHIO(OriginalCHIO):
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
-- 
2.43.0


From b44082f3106b1e7e9b0031248a45989f5a5ef8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 062/101] fix: COA: packs of two coyotes

---
 mealpy/swarm_based/COA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index fd65e0d..0072931 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -101,7 +101,7 @@ class OriginalCOA(Optimizer):
             #  Update coyotes' social condition
             pop_new = []
             for i in range(self.n_coyotes):
-                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=False)
+                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=self.n_coyotes < 3)
                 # Try to update the social condition according to the alpha and the pack tendency(Eq. 12)
                 pos_new = self.pop_group[p][i].solution + self.generator.random() * (self.pop_group[p][0].solution - self.pop_group[p][rc1].solution) + \
                           self.generator.random() * (tendency - self.pop_group[p][rc2].solution)
-- 
2.43.0


From 80963dac7e35cccb47c1019e8541dfab7dbc4533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 063/101] fix: DOA: exploitation on a problem with one variable

---
 mealpy/human_based/DOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index b94fa2d..1213c1f 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -135,7 +135,7 @@ class OriginalDOA(Optimizer):
             for idx in range(self.pop_size):
                 km = max(2, int(np.ceil(self.problem.n_dims / 3)))
                 k = self.generator.integers(2, km + 1)
-                in_indices = self.generator.choice(self.problem.n_dims, size=k, replace=False)
+                in_indices = self.generator.choice(self.problem.n_dims, size=min(k, self.problem.n_dims), replace=False)
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-- 
2.43.0


From 31e0d58f0fa5014235e99e1d4649d4c61c811e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 064/101] fix: SHADE: selection of the best agents of a small
 population

---
 mealpy/evolutionary_based/SHADE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index f0dd529..6f558dc 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -113,8 +113,8 @@ class OriginalSHADE(Optimizer):
                 break
             list_cr_new[idx] = cr
             list_f_new[idx] = f
-            p = self.generator.uniform(2 / self.pop_size, 0.2)
-            top = int(self.pop_size * p)
+            p = self.generator.uniform(2 / self.pop_size, max(2 / self.pop_size, 0.2))
+            top = max(1, int(self.pop_size * p))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
-- 
2.43.0


From cf708ed1a2b240f6d87052e9273eb6e975299292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 065/101] fix: SHO: the circle of hunters cannot be larger than
 the population

---
 mealpy/swarm_based/SHO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/swarm_based/SHO.py b/mealpy/swarm_based/SHO.py
index af0b011..42bd420 100644
--- a/mealpy/swarm_based/SHO.py
+++ b/mealpy/swarm_based/SHO.py
@@ -97,6 +97,7 @@ class OriginalSHO(Optimizer):
                         N += 1
                         break
                     N += 1
+                N = min(N, self.pop_size)
                 circle_list = []
                 idx_list = self.generator.choice(range(0, self.pop_size), N, replace=False)
                 for j in range(0, N):
-- 
2.43.0


From f4c9331c4b01cb43b94f169b3cc08a26cd6d203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 066/101] fix: SRSR: sigma improvement factor for negative
 bounds

---
 mealpy/swarm_based/SRSR.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 49649bf..a04102a 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -136,8 +136,9 @@ class OriginalSRSR(Optimizer):
         sigma_factor = 1 + self.generator.uniform() * np.max(self.problem.ub - self.problem.lb)
         self.SIF = sigma_factor * self.sigma_temp[fit_id]
         # Controlling Parameter Of Algorithm
-        if self.SIF > np.max(self.problem.ub):
-            self.SIF = np.max(self.problem.ub) * self.generator.uniform()
+        max_bound = np.max(np.abs(self.problem.ub))
+        if self.SIF > max_bound:
+            self.SIF = max_bound * self.generator.uniform()
 
         # ========================================================================================= %%
         #            Phase 2 (Exploration): Moving Slave Robots Toward Master Robot                   %
-- 
2.43.0


From e01d43d3467dff467956c8f9096d8810a965169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 067/101] fix: DMOA: fitness values that cancel out

---
 mealpy/swarm_based/DMOA.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/DMOA.py b/mealpy/swarm_based/DMOA.py
index 1d11971..7639cca 100644
--- a/mealpy/swarm_based/DMOA.py
+++ b/mealpy/swarm_based/DMOA.py
@@ -89,7 +89,10 @@ class OriginalDMOA(Optimizer):
         CF = (1. - epoch/self.epoch)**(2.*epoch/self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
+        with np.errstate(all="ignore"):
+            fi = np.exp(-fit_list / mean_cost)
+        if not np.all(np.isfinite(fi)) or not np.isfinite(np.sum(fi)):
+            fi = np.ones(self.pop_size)
         for idx in range(0, self.pop_size):
             alpha = self.get_index_roulette_wheel_selection(fi)
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
@@ -199,7 +202,10 @@ class DevDMOA(Optimizer):
         CF = (1. - epoch / self.epoch) ** (2. * epoch / self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
+        with np.errstate(all="ignore"):
+            fi = np.exp(-fit_list / mean_cost)
+        if not np.all(np.isfinite(fi)) or not np.isfinite(np.sum(fi)):
+            fi = np.ones(self.pop_size)
 
         ## Foraging led by Alpha female
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 0ccf90e6e4b3870bba222e9d773ba4ece3a22fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 068/101] fix: CRO: crossover of a solution with one variable

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index fd5c5dc..f7e4596 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -119,7 +119,7 @@ class OriginalCRO(Optimizer):
 
     ### Crossover
     def multi_point_cross__(self, pos1, pos2):
-        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=False)
+        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=len(pos1) < 2)
         start, end = min(p1, p2), max(p1, p2)
         pos_new = np.concatenate((pos1[:start], pos2[start:end], pos1[end:]), axis=0)
         return self.correct_solution(pos_new)
-- 
2.43.0


From 46dd61499c217f31d5d6c0e0744b999421bac738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 069/101] fix: GA: mutation of a solution with one variable

---
 mealpy/evolutionary_based/GA.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 53f7628..9efdef1 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -253,7 +253,7 @@ class BaseGA(Optimizer):
         if self.mutation_multipoints:
             if self.mutation == "swap":
                 for idx in range(self.problem.n_dims):
-                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}) or [idx])
                     child[idx], child[idx_swap] = child[idx_swap], child[idx]
                     return child
             else:       # "flip"
@@ -262,17 +262,17 @@ class BaseGA(Optimizer):
                 return np.where(flag_child, mutation_child, child)
         else:
             if self.mutation == "swap":
-                idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
                 child[idx1], child[idx2] = child[idx2], child[idx1]
                 return child
             elif self.mutation == "inversion":
-                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
                 temp = child[cut1:cut2]
                 temp = temp[::-1]
                 child[cut1:cut2] = temp
                 return child
             elif self.mutation == "scramble":
-                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
                 temp = child[cut1:cut2]
                 self.generator.shuffle(temp)
                 child[cut1:cut2] = temp
@@ -428,17 +428,17 @@ class SingleGA(BaseGA):
             np.array: The mutated vector of the child
         """
         if self.mutation == "swap":
-            idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
             child[idx1], child[idx2] = child[idx2], child[idx1]
             return child
         elif self.mutation == "inversion":
-            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
             temp = child[cut1:cut2]
             temp = temp[::-1]
             child[cut1:cut2] = temp
             return child
         elif self.mutation == "scramble":
-            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
             temp = child[cut1:cut2]
             self.generator.shuffle(temp)
             child[cut1:cut2] = temp
@@ -681,7 +681,7 @@ class MultiGA(BaseGA):
         """
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
-                idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}) or [idx])
                 child[idx], child[idx_swap] = child[idx_swap], child[idx]
                 return child
         else:       # "flip"
-- 
2.43.0


From 75a7282bdae9328dd99902aaea6ed29db38b3bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 070/101] fix: CSO: tournament among fewer than four cats

---
 mealpy/swarm_based/CSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSO.py b/mealpy/swarm_based/CSO.py
index 5415e64..44a996e 100644
--- a/mealpy/swarm_based/CSO.py
+++ b/mealpy/swarm_based/CSO.py
@@ -138,7 +138,7 @@ class OriginalCSO(Optimizer):
         if self.selected_strategy == 0:  # Best fitness-self
             cat, _ = self.get_best_agent(candidate_cats, self.problem.minmax)
         elif self.selected_strategy == 1:  # Tournament
-            k_way = 4
+            k_way = min(4, self.smp)
             idx = self.generator.choice(range(0, self.smp), k_way, replace=False)
             cats_k_way = [candidate_cats[_] for _ in idx]
             cat, _ = self.get_best_agent(cats_k_way, self.problem.minmax)
-- 
2.43.0


From 74bfd04b64c7e71aadcdc55ee9fd7cbc8688f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 071/101] fix: CA: at least one agent is accepted into the
 belief space

---
 mealpy/human_based/CA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 1919c0f..4017464 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -71,7 +71,7 @@ class OriginalCA(Optimizer):
             "lb": self.problem.lb,
             "ub": self.problem.ub,
         }
-        self.dyn_accepted_num = int(self.accepted_rate * self.pop_size)
+        self.dyn_accepted_num = max(1, int(self.accepted_rate * self.pop_size))
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-- 
2.43.0


From 8f1f21bfcf13b0b75b01a4eac124a74238a29dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 072/101] fix: AO: quality function with a single epoch

---
 mealpy/swarm_based/AO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/AO.py b/mealpy/swarm_based/AO.py
index 5152d10..fab3078 100644
--- a/mealpy/swarm_based/AO.py
+++ b/mealpy/swarm_based/AO.py
@@ -79,7 +79,7 @@ class OriginalAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max(1, (1 - self.epoch) ** 2))  # Eq.(15)        Quality function
         pop_new = []
         for idx in range(0, self.pop_size):
             x_mean = np.mean(np.array([agent.solution for agent in self.pop]), axis=0)
@@ -182,7 +182,7 @@ class AAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max(1, (1 - self.epoch) ** 2))  # Eq.(15)        Quality function
         pop_new = []
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From fd7a2b74400a238f8006532387b41621841eedf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 073/101] fix: DandelionO: local search factor with a single
 epoch

---
 mealpy/swarm_based/DandelionO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/DandelionO.py b/mealpy/swarm_based/DandelionO.py
index fb00f9a..acb7c4d 100644
--- a/mealpy/swarm_based/DandelionO.py
+++ b/mealpy/swarm_based/DandelionO.py
@@ -72,7 +72,7 @@ class OriginalDandelionO(Optimizer):
         alpha = self.generator.random() * ((epoch / self.epoch)**2 - 2.0 * epoch / self.epoch + 1)
 
         # Eq. (11) Local search domain factor k
-        aa = 1.0 / (self.epoch ** 2 - 2 *self.epoch + 1)
+        aa = 1.0 / max(1, self.epoch ** 2 - 2 *self.epoch + 1)
         bb = -2 * aa
         cc = 1 - aa - bb
         kk = 1 - self.generator.random() * (cc + aa*epoch**2 + bb * epoch)
-- 
2.43.0


From d041ad10e6eef5e5a8a3292ac50921c76037f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 074/101] fix: HCO: the search for fitter starting agents must
 end

---
 mealpy/human_based/HCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index 9adb38e..e0d0e1e 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -110,7 +110,7 @@ class OriginalHCO(Optimizer):
         pfit = (worst.target.fitness - best.target.fitness) * self.wfp + best.target.fitness
         for idx in range(0, self.pop_size):
             if self.compare_fitness(pfit, self.pop[idx].target.fitness, self.problem.minmax):
-                while True:
+                for _ in range(0, 100):
                     agent = self.generate_agent()
                     if self.compare_fitness(agent.target.fitness, pfit, self.problem.minmax):
                         self.pop[idx] = agent
-- 
2.43.0


From 616d75c3f45405f3212600b90846fb8352ec32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 075/101] fix: QleSCA: a state outside of the known ranges

---
 mealpy/math_based/SCA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/math_based/SCA.py b/mealpy/math_based/SCA.py
index e209657..36d75ba 100644
--- a/mealpy/math_based/SCA.py
+++ b/mealpy/math_based/SCA.py
@@ -198,8 +198,8 @@ class QTable:
         self.epsilon = 0.1
 
     def get_state(self, density, distance):
-        density_range = next(i for i, r in enumerate(self.density_ranges) if density <= r[1])
-        distance_range = next(i for i, r in enumerate(self.distance_ranges) if distance <= r[1])
+        density_range = next((i for i, r in enumerate(self.density_ranges) if density <= r[1]), len(self.density_ranges) - 1)
+        distance_range = next((i for i, r in enumerate(self.distance_ranges) if distance <= r[1]), len(self.distance_ranges) - 1)
         return density_range * 3 + distance_range
 
     def get_action(self, state):
-- 
2.43.0


From 029593cb849da35ef434056fa0e79cfb2d58a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 076/101] fix: a candidate with undefined (NaN) coordinates
 must be repaired before its evaluation

---
 mealpy/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 336e4c6..df17d71 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -398,6 +398,9 @@ class Optimizer:
             The correct solution that can be used to calculate target
         """
         solution = self.amend_solution(solution)
+        undefined = np.isnan(np.asarray(solution, dtype=float))
+        if np.any(undefined):       # Undefined coordinates (0/0, inf-inf) can't be clipped, replace them by random ones
+            solution = np.where(undefined, self.problem.generate_solution(encoded=True), solution)
         return self.problem.correct_solution(solution)
 
     def update_target_for_population(self, pop: List[Agent] = None) -> List[Agent]:
-- 
2.43.0


From b79f7c0edd9802fd364356641f0ed282fd6fa5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 077/101] fix: CDDO: hand pressure for a narrow range of the
 first variable

---
 mealpy/human_based/CDDO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/CDDO.py b/mealpy/human_based/CDDO.py
index 5e2e20b..42bdf14 100644
--- a/mealpy/human_based/CDDO.py
+++ b/mealpy/human_based/CDDO.py
@@ -4,6 +4,7 @@
 #       Github: https://github.com/thieu1995        %                         
 # --------------------------------------------------%
 
+import numpy as np
 from mealpy.optimizer import Optimizer
 from mealpy.utils.opt_info import OptInfo, ScientificConcern
 
@@ -109,7 +110,7 @@ class OriginalCDDO(Optimizer):
         # Pattern matrix
         _, pattern, _ = self.get_special_agents(self.pop, n_best=self.pattern_size, minmax=self.problem.minmax)
         for idx in range(0, self.pop_size):
-            hand_pressure = self.generator.integers(self.problem.lb[0], self.problem.ub[0] + 1)
+            hand_pressure = self.generator.integers(np.floor(self.problem.lb[0]), np.floor(self.problem.ub[0]) + 1)
             pp = self.generator.integers(0, self.problem.n_dims)
             pos_new = self.pop[idx].solution.copy()
             if self.pop[idx].solution[pp] <= hand_pressure:
-- 
2.43.0


From 8d7f48c07fb3baf0f78d04ce6bf532e17b3b6509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 078/101] fix: OriginalPO: the pop_size parameter must be the
 value given to the constructor, lamda_max is a float

---
 mealpy/human_based/PO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index d7c25bf..7d7c46a 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -68,8 +68,9 @@ class OriginalPO(Optimizer):
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_n = self.validator.check_int("pop_size", pop_size, [2, 100])
         self.pop_size = self.pop_n ** 2
-        self.lamda_max = self.validator.check_int("lamda_max", lamda_max, [1.0, 100])
+        self.lamda_max = self.validator.check_float("lamda_max", lamda_max, [1.0, 100])
         self.set_parameters(["epoch", "pop_size", "lamda_max"])
+        self.parameters["pop_size"] = self.pop_n        # The population holds pop_n^2 agents
         self.sort_flag = False
         self.lam = None
         self.pop_prev = None
-- 
2.43.0


From ab0b5cc37f14ddb5e9701805a4bb269d595e411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 079/101] fix: OriginalBFO: Ci is a float, its default value
 0.01 was truncated to 0

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index afac87f..70a5c7e 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,7 +95,7 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.step_size = self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
+        self.step_size = self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
         self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
         self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
-- 
2.43.0


From fb252dc54858d37d7663b86a042e8997a45b72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 080/101] fix: OriginalBCO: the default value of n_chemotaxis
 must be accepted

---
 mealpy/bio_based/BCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index e4493b6..fe99848 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -68,7 +68,7 @@ class OriginalBCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.c_min = self.validator.check_float("c_min", c_min, (0., 1.0))
         self.c_max = self.validator.check_float("c_max", c_max, (c_min, 10.0))
-        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, (1, 5))
+        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, [1, 5])
         self.max_swim_steps = self.validator.check_int("max_swim_steps", max_swim_steps, (2, 10))
         self.migration_prob = self.validator.check_float("migration_prob", migration_prob, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "c_min", "c_max", "n_chemotaxis", "max_swim_steps", "migration_prob"])
-- 
2.43.0


From 69b2cd8436bb9676ec1a56f84f6067659887d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 081/101] fix: save_model/load_model must close the file, and
 report a failed write

---
 mealpy/utils/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/io.py b/mealpy/utils/io.py
index 729d4b6..6cbf32e 100644
--- a/mealpy/utils/io.py
+++ b/mealpy/utils/io.py
@@ -13,7 +13,8 @@ def save_model(model, path_save:str):
     else:
         if path_save[-4:] != ".pkl":
             path_save += ".pkl"
-    pickle.dump(model, open(path_save, 'wb'))
+    with open(path_save, 'wb') as file:
+        pickle.dump(model, file)
 
 
 def load_model(path_load:str):
@@ -22,4 +23,5 @@ def load_model(path_load:str):
     else:
         if path_load[-4:] != ".pkl":
             path_load += ".pkl"
-    return pickle.load(open(path_load, 'rb'))
+    with open(path_load, 'rb') as file:
+        return pickle.load(file)
-- 
2.43.0


From 91023daf3646c9aaf9ab00b7de8dc2dc0e5f78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 082/101] fix: Multitask: n_jobs=1, list of n or n*m
 terminations/modes, algorithms or problems with the same name

---
 mealpy/multitask.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index a902db0..188acec 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -101,11 +101,11 @@ class Multitask:
             if len(values) == 1:
                 values_final = [[deepcopy(values[0]) for _ in range(0, self.m_problems)] for _ in range(0, self.n_algorithms)]
             elif len(values) == self.n_algorithms:
-                values_final = [deepcopy(values[idx] for _ in range(0, self.m_problems)) for idx in range(0, self.n_algorithms)]
+                values_final = [[deepcopy(values[idx]) for _ in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-                values_final = values
+                values_final = [list(values[idx * self.m_problems:(idx + 1) * self.m_problems]) for idx in range(0, self.n_algorithms)]
             else:
                 raise ValueError(f"{name} should be list of {kind} instances with size (1) or (n) or (m) or (n*m), n: #algorithms, m: #problems.")
             return values_final
@@ -116,6 +116,14 @@ class Multitask:
         for key, value in kwargs.items():
             setattr(self, key, value)
 
+    @staticmethod
+    def get_unique_name(name: str, used_names) -> str:
+        """Several algorithms (problems) can have the same name, their results must not overwrite each other."""
+        unique_name, idx = name, 2
+        while unique_name in used_names:
+            unique_name, idx = f"{name}_{idx}", idx + 1
+        return unique_name
+
     @staticmethod
     def export_to_dataframe(result: pd.DataFrame, save_path: str):
         result.to_pickle(f"{save_path}.pkl")
@@ -173,21 +181,24 @@ class Multitask:
         """
         n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_processors = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs >= 2):
             n_processors = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         ## Get export function
         save_as = self.validator.check_str("save_as", save_as, ["csv", "json", "dataframe"])
         export_function = getattr(self, f"export_to_{save_as}")
 
+        optimizer_names = set()
         for id_optimizer, optimizer in enumerate(self.algorithms):
             if not isinstance(optimizer, Optimizer):
                 print(f"Model: {id_optimizer+1} is not an instance of Optimizer class.")
                 continue
 
             ## Check parent directories
+            optimizer_name = self.get_unique_name(optimizer.get_name(), optimizer_names)
+            optimizer_names.add(optimizer_name)
             path_best_fit = f"{save_path}/best_fit"
-            path_convergence = f"{save_path}/convergence/{optimizer.get_name()}"
+            path_convergence = f"{save_path}/convergence/{optimizer_name}"
             Path(path_best_fit).mkdir(parents=True, exist_ok=True)
             Path(path_convergence).mkdir(parents=True, exist_ok=True)
 
@@ -221,13 +232,14 @@ class Multitask:
                         if verbose:
                             print(f"Solving problem: {result['problem_name']} using algorithm: {optimizer.get_name()}, on the: {result['id_trial']} trial")
 
-                best_fit_optimizer_results[result['problem_name']] = best_fit_trials
+                problem_name = self.get_unique_name(result['problem_name'], best_fit_optimizer_results)
+                best_fit_optimizer_results[problem_name] = best_fit_trials
                 if save_convergence:
                     max_length = max([len(col) for col in convergence_trials.values()])
                     for kk, vv in convergence_trials.items():
                         convergence_trials[kk] = list(vv) + [float('nan')] * (max_length - len(vv))
                     df1 = pd.DataFrame(convergence_trials)
-                    export_function(df1, f"{path_convergence}/{result['problem_name']}_convergence")
+                    export_function(df1, f"{path_convergence}/{problem_name}_convergence")
 
             df2 = pd.DataFrame(best_fit_optimizer_results)
-            export_function(df2, f"{path_best_fit}/{optimizer.get_name()}_best_fit")
+            export_function(df2, f"{path_best_fit}/{optimizer_name}_best_fit")
-- 
2.43.0


From c974f7f344d4d48e8cb9f7973c5880486a8aeaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 083/101] fix: Tuner: ranking for max problems and ties, single
 trial, n_jobs=1, Problem instance; ParameterGrid indexing

---
 mealpy/tuner.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 61fd74e..0518e6f 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -131,17 +131,18 @@ class ParameterGrid:
             ## My version: Don't sort the values and don't reverse here. Keep it as it is
             keys, values_lists = zip(*sub_grid.items())
             sizes = [len(v_list) for v_list in values_lists]
-            total = np.product(sizes)
+            total = np.prod(sizes)
 
             if ind >= total:
                 # Try the next grid
                 ind -= total
             else:
                 out = {}
-                for key, v_list, n in zip(keys, values_lists, sizes):
+                # The last key cycles the fastest in the iteration
+                for key, v_list, n in reversed(list(zip(keys, values_lists, sizes))):
                     ind, offset = divmod(ind, n)
                     out[key] = v_list[offset]
-                return out
+                return {key: out[key] for key in keys}
 
         raise IndexError("ParameterGrid index out of range")
 
@@ -388,7 +389,7 @@ class Tuner:
         self.problem = problem
         self.n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_cpus = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs >= 2):
             n_cpus = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         if mode not in ("process", "thread", "single", "swarm"):
@@ -396,7 +397,8 @@ class Tuner:
 
         list_params_grid = list(ParameterGrid(self.param_grid))
         trial_columns = [f"trial_{id_trial}" for id_trial in range(1, self.n_trials + 1)]
-        ascending = True if self.problem["minmax"] == "min" else False
+        minmax = problem.minmax if isinstance(problem, Problem) else problem.get("minmax", "min")
+        ascending = True if minmax == "min" else False
 
         best_fit_results = []
         loss_results = []
@@ -424,10 +426,11 @@ class Tuner:
 
         self.df_fit = pd.DataFrame(best_fit_results)
         self.df_fit["trial_mean"] = self.df_fit[trial_columns].mean(axis=1)
-        self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)
+        self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1).fillna(0)      # A single trial has no spread
         self.df_fit["rank_mean"] = self.df_fit["trial_mean"].rank(ascending=ascending)
-        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=ascending)
-        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=ascending)
+        # The smallest ranks are the best ones whatever the direction, and the small spread is always preferred.
+        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=True)
+        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=True)
         self._best_row = self.df_fit[self.df_fit["rank_mean_std"] == self.df_fit["rank_mean_std"].min()]
         self._best_params = self._best_row["params"].values[0]
         self._best_score = self._best_row["trial_mean"].values[0]
-- 
2.43.0


From c4818561b91c8c9577f5a8f0c0a0f487ea97b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 084/101] fix: set_parameters must update the attributes which
 the constructor derives from the parameters

---
 mealpy/optimizer.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index df17d71..a934ddf 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -89,13 +89,32 @@ class Optimizer:
             valid_para_names = set(self.parameters.keys())
             new_para_names = set(parameters.keys())
             if new_para_names.issubset(valid_para_names):
+                old_parameters = dict(self.parameters)
                 for key, value in parameters.items():
                     setattr(self, key, value)
                     self.parameters[key] = value
+                self.__update_derived_attributes(old_parameters)
             else:
                 raise ValueError(f"Invalid input parameters: {new_para_names} for {self.get_name()} optimizer. "
                                  f"Valid parameters are: {valid_para_names}.")
 
+    def __update_derived_attributes(self, old_parameters: Dict) -> None:
+        """
+        Many optimizers compute other attributes from their parameters in the constructor, these have to follow the new parameters.
+
+        Args:
+            old_parameters: The parameters before they were changed
+        """
+        try:
+            old, new = self.__class__(**old_parameters), self.__class__(**self.parameters)
+        except (TypeError, ValueError):     # The constructor doesn't accept these parameters
+            return
+        for key, value in vars(new).items():
+            if key in ("parameters", "params_name_ordered", "validator"):
+                continue
+            if key in self.parameters or key not in vars(old) or not np.array_equal(vars(old)[key], value):
+                setattr(self, key, value)
+
     def get_parameters(self) -> Dict:
         """
         Get parameters of optimizer.
-- 
2.43.0


From 7f72a00a25d49576ae92298c7fbc99b3a38a5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 085/101] fix: Logger: the handler must follow the log
 destination of the current solve

---
 mealpy/optimizer.py     |  1 +
 mealpy/utils/logger.py  | 19 +++++++++++++------
 mealpy/utils/problem.py |  3 +++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index a934ddf..1220639 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -186,6 +186,7 @@ class Optimizer:
     def check_problem(self, problem, seed) -> None:
         if isinstance(problem, Problem):
             problem.set_seed(seed)
+            problem.set_logger()        # Another problem with another log destination may have been created since
             self.problem = problem
         elif type(problem) == dict:
             problem["seed"] = seed
diff --git a/mealpy/utils/logger.py b/mealpy/utils/logger.py
index b0ff2d4..fc0c6a5 100644
--- a/mealpy/utils/logger.py
+++ b/mealpy/utils/logger.py
@@ -5,6 +5,7 @@
 # --------------------------------------------------%
 
 import logging
+import os
 
 
 class Logger:
@@ -28,8 +29,6 @@ class Logger:
                 formatter = logging.Formatter('%(asctime)s, %(levelname)s, %(name)s: %(message)s', datefmt="%Y/%m/%d %I:%M:%S %p")
             else:
                 formatter = logging.Formatter(format_str, datefmt="%Y/%m/%d %I:%M:%S %p")
-            handler = logging.StreamHandler()
-            handler.setFormatter(formatter)
         elif self.log_to == "file":
             logger.setLevel(logging.DEBUG)
             if format_str is None:
@@ -38,16 +37,24 @@ class Logger:
                 formatter = logging.Formatter(format_str, datefmt="%Y/%m/%d %I:%M:%S %p")
             if self.log_file is None:
                 self.log_file = self.default_logfile
-            handler = logging.FileHandler(self.log_file)
-            handler.setFormatter(formatter)
         else:
             logger.setLevel(logging.ERROR)
             if format_str is None:
                 formatter = logging.Formatter('%(asctime)s, %(levelname)s, %(name)s [line: %(lineno)d]: %(message)s', datefmt="%Y/%m/%d %I:%M:%S %p")
             else:
                 formatter = logging.Formatter(format_str, datefmt="%Y/%m/%d %I:%M:%S %p")
-            handler = logging.StreamHandler()
+        # The same logger is shared by all instances of a class, its handler has to follow the destination of the current one.
+        destination = (self.log_to, os.path.abspath(self.log_file) if self.log_to == "file" else None)
+        for handler in list(logger.handlers):
+            if getattr(handler, "destination", destination) != destination:
+                logger.removeHandler(handler)
+                try:
+                    handler.close()
+                except OSError:     # The old destination is broken, it doesn't concern the new one
+                    pass
+        if not (any(hasattr(handler, "destination") for handler in logger.handlers) if self.log_to == "file" else logger.hasHandlers()):
+            handler = logging.FileHandler(self.log_file) if self.log_to == "file" else logging.StreamHandler()
             handler.setFormatter(formatter)
-        if not logger.hasHandlers():
+            handler.destination = destination
             logger.addHandler(handler)
         return logger
diff --git a/mealpy/utils/problem.py b/mealpy/utils/problem.py
index 081def8..b7508b3 100644
--- a/mealpy/utils/problem.py
+++ b/mealpy/utils/problem.py
@@ -27,6 +27,9 @@ class Problem:
         self.name, self.log_to, self.log_file = "P", "console", "history.txt"
         self.__set_keyword_arguments(kwargs)
         self.set_bounds(bounds)
+        self.set_logger()
+
+    def set_logger(self) -> None:
         self.logger = Logger(self.log_to, log_file=self.log_file).create_logger(name=f"{__name__}.{__class__.__name__}",
                                     format_str='%(asctime)s, %(levelname)s, %(name)s [line: %(lineno)d]: %(message)s')
 
-- 
2.43.0


From 3c6242d5f27271558a77182eeb0b157113a6080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 086/101] fix: LSO: do not swallow an interrupt while computing
 the gamma factor

---
 mealpy/physics_based/LSO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/LSO.py b/mealpy/physics_based/LSO.py
index 5119c58..0d5224d 100644
--- a/mealpy/physics_based/LSO.py
+++ b/mealpy/physics_based/LSO.py
@@ -165,7 +165,7 @@ class OriginalLSO(Optimizer):
             a_safe = max(a, self.EPSILON)  # Avoid numerical issues
             try:
                 ginv = gammaincinv(1, a_safe)  # gammaincinv(a, 1) in MATLAB = gammaincinv(1, a) in scipy
-            except:
+            except Exception:
                 ginv = 0.0
             # GI factor (Equation 19)
             r_rand = self.generator.random()
@@ -347,7 +347,7 @@ class DevLSO(Optimizer):
             # Compute adaptive gamma factor
             try:
                 ginv = gammaincinv(1, max(a, self.EPSILON))
-            except:
+            except Exception:
                 ginv = 0.0
             r_rand = max(self.generator.random(), self.EPSILON)
             GI = a * (1.0 / r_rand) * ginv
-- 
2.43.0


From 552fbc604e1be3ad0643d0165671d8a5a7095c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 087/101] fix: JSON export of results: keep 15 decimals, small
 fitness values became 0

---
 mealpy/multitask.py | 2 +-
 mealpy/tuner.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 188acec..dd0b225 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -130,7 +130,7 @@ class Multitask:
 
     @staticmethod
     def export_to_json(result: pd.DataFrame, save_path: str):
-        result.to_json(f"{save_path}.json")
+        result.to_json(f"{save_path}.json", double_precision=15)
 
     @staticmethod
     def export_to_csv(result: pd.DataFrame, save_path: str):
diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 0518e6f..71425d2 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -269,7 +269,7 @@ class Tuner:
         ext = file_name.split(".")[-1]
         filename = "-".join(file_name.split(".")[:-1])
         if ext == "json":
-            self.df_fit.to_json(f"{save_path}/{filename}.json")
+            self.df_fit.to_json(f"{save_path}/{filename}.json", double_precision=15)
         elif ext == "dataframe":
             self.df_fit.to_pickle(f"{save_path}/{filename}.pkl")
         else:
@@ -296,7 +296,7 @@ class Tuner:
         ext = file_name.split(".")[-1]
         filename = "-".join(file_name.split(".")[:-1])
         if ext == "json":
-            self.df_loss.to_json(f"{save_path}/{filename}.json")
+            self.df_loss.to_json(f"{save_path}/{filename}.json", double_precision=15)
         elif ext == "dataframe":
             self.df_loss.to_pickle(f"{save_path}/{filename}.pkl")
         else:
-- 
2.43.0


From 832d6eccb04313e137b509a36c1314ec0337219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 088/101] fix: Tuner.export_figures with a single tuned
 parameter

---
 mealpy/tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 71425d2..baf2344 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -310,7 +310,7 @@ class Tuner:
             Path(save_path_new).mkdir(parents=True, exist_ok=True)
             for idx_para, para in enumerate(para_columns):
                 selected_paras = para_columns[:idx_para] + para_columns[idx_para + 1:]
-                group_paras = groups.groupby(selected_paras)
+                group_paras = groups.groupby(selected_paras) if selected_paras else [((), groups)]
                 for idx_group, group_df in group_paras:
                     if len(group_df) <= 1:
                         continue
@@ -336,7 +336,7 @@ class Tuner:
                     plt.xlabel(x_label)
                     plt.ylabel(y_label)
                     plt.legend(legends)
-                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)])
+                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)]) or para
                     for idx, ext in enumerate(exts):
                         plt.savefig(f"{save_path_new}/{fname}{ext}", bbox_inches='tight')
                     if platform.system() != "Linux" and verbose:
-- 
2.43.0


From 58aa258c815f5e729f38edb01e64237272b478e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 089/101] fix: BRO: repair the position before it is evaluated

---
 mealpy/human_based/BRO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/BRO.py b/mealpy/human_based/BRO.py
index c6043f1..c4b88b2 100644
--- a/mealpy/human_based/BRO.py
+++ b/mealpy/human_based/BRO.py
@@ -223,6 +223,7 @@ class OriginalBRO(DevBRO):
                 self.pop[vic].damage = 0
             else:
                 pos_new = self.generator.uniform(self.problem.lb_updated, self.problem.ub_updated)
+                pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop[dam] = agent
         if epoch >= self.dyn_delta:
-- 
2.43.0


From bb624cd54d23d231a4fda4f504e3a51c999f613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 090/101] fix: CA: repair the position before it is evaluated

---
 mealpy/human_based/CA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 4017464..55c95c6 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -75,7 +75,7 @@ class OriginalCA(Optimizer):
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-        pos = self.generator.uniform(lb, ub)
+        pos = self.correct_solution(self.generator.uniform(lb, ub))
         return self.generate_agent(pos)
 
     def update_belief_space__(self, belief_space, pop_accepted):
-- 
2.43.0


From a0def1d386f97effdd4e87f83a0a70d35a26e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 091/101] fix: PO: repair the position before it is evaluated

---
 mealpy/human_based/PO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index 7d7c46a..d25b6ff 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -172,7 +172,7 @@ class OriginalPO(Optimizer):
             pos_new = self.rppus_update(pos_new, self.pop_prev[k].solution, m_const, is_improved)
 
             # Apply boundary constraints
-            self.pop[k].solution = self.amend_solution(pos_new)
+            self.pop[k].solution = self.correct_solution(pos_new)
 
         # Party Switching Phase
         for k in range(self.pop_size):
-- 
2.43.0


From 3aa8a7fef62918cfca501d719aec02ec538130c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 092/101] fix: TLO: repair the position before it is evaluated

---
 mealpy/human_based/TLO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/TLO.py b/mealpy/human_based/TLO.py
index b4215df..092d9be 100644
--- a/mealpy/human_based/TLO.py
+++ b/mealpy/human_based/TLO.py
@@ -122,6 +122,7 @@ class ETLBO(Optimizer):
         for idx in duplicate_indices:
             # Randomly mutate duplicate solutions within bounds
             pos_new = self.problem.lb + self.generator.random(self.problem.n_dims) * (self.problem.ub - self.problem.lb)
+            pos_new = self.correct_solution(pos_new)
             self.pop[idx] = self.generate_agent(pos_new)
 
 
-- 
2.43.0


From 62486fcd89f73866fae20ae117e6cab24a803824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 093/101] fix: CSA: repair the position before it is evaluated

---
 mealpy/swarm_based/CSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSA.py b/mealpy/swarm_based/CSA.py
index cde8fed..d0fd6f6 100644
--- a/mealpy/swarm_based/CSA.py
+++ b/mealpy/swarm_based/CSA.py
@@ -92,7 +92,7 @@ class OriginalCSA(Optimizer):
         pop = self.get_sorted_and_trimmed_population(self.pop, self.pop_size, self.problem.minmax)
         pop_new = []
         for idx in range(0, self.n_cut):
-            pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+            pos_new = self.correct_solution(self.generator.uniform(self.problem.lb, self.problem.ub))
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-- 
2.43.0


From fccb0589626cd0291664e6b0e5e1f021fc7fabab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 094/101] fix: roulette wheel selection with undefined or
 infinite fitness values

---
 mealpy/optimizer.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 1220639..9fba05e 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -702,6 +702,26 @@ class Optimizer:
         return result.item() if n_samples == 1 else result
 
     ## Selection techniques
+    def get_finite_fitness(self, list_fitness: Union[List, Tuple, np.ndarray]) -> np.ndarray:
+        """
+        Replace undefined (NaN) and infinite fitness values, they can't be used to calculate ratios or probabilities.
+
+        Args:
+            list_fitness: 1-D array of fitness values
+
+        Returns:
+            The same values, but undefined and infinitely bad ones are as bad as the worst finite one, infinitely good ones are
+            as good as the best finite one (all of them are 0 if there is no finite one).
+        """
+        list_fitness = np.array(list_fitness, dtype=float).ravel()
+        finite = np.isfinite(list_fitness)
+        if np.all(finite):
+            return list_fitness
+        if not np.any(finite):
+            return np.zeros(len(list_fitness))
+        low, high = np.min(list_fitness[finite]), np.max(list_fitness[finite])
+        return np.nan_to_num(list_fitness, nan=high if self.problem.minmax == "min" else low, posinf=high, neginf=low)
+
     def get_index_roulette_wheel_selection(self, list_fitness: np.array):
         """
         This method can handle min/max problem, and negative or positive fitness value.
@@ -713,7 +733,7 @@ class Optimizer:
             int: Index of selected solution
         """
         if isinstance(list_fitness, (list, tuple, np.ndarray)):
-            list_fitness = np.array(list_fitness).ravel()
+            list_fitness = self.get_finite_fitness(list_fitness)
         if np.ptp(list_fitness) == 0:
             return int(self.generator.integers(0, len(list_fitness)))
         if np.any(list_fitness < 0):
-- 
2.43.0


From 5ad9c8b524f8b2a4ea5b80734fee586767d3ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 095/101] fix: AAA, EOA, IWO, SBO, SMA, BeesA, FA, ORCA, SMO:
 undefined or infinite fitness values crashed or stalled the update

---
 mealpy/bio_based/AAA.py     |  4 ++--
 mealpy/bio_based/EOA.py     |  7 +++----
 mealpy/bio_based/IWO.py     |  8 ++++----
 mealpy/bio_based/SBO.py     |  2 +-
 mealpy/bio_based/SMA.py     | 18 ++++++++++--------
 mealpy/swarm_based/BeesA.py |  2 +-
 mealpy/swarm_based/FA.py    |  8 ++++----
 mealpy/swarm_based/ORCA.py  |  2 +-
 mealpy/swarm_based/SMO.py   |  2 +-
 9 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index a892dad..e0e0b7a 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -75,7 +75,7 @@ class OriginalAAA(Optimizer):
 
     def before_main_loop(self) -> None:
         self.starvation = np.zeros(self.pop_size, dtype=int)
-        fitness = np.array([agent.target.fitness for agent in self.pop])
+        fitness = self.get_finite_fitness([agent.target.fitness for agent in self.pop])
         self.alg_size_matrix = self.calculate_greatness(np.ones(self.pop_size), fitness, self.problem.minmax)
 
     @staticmethod
@@ -174,7 +174,7 @@ class OriginalAAA(Optimizer):
                     energy[idx] = energy[idx] - self.e_loss / 2
 
         # 2. Reproduction: Replace smallest with biggest
-        fitness = np.array([agent.target.fitness for agent in self.pop])
+        fitness = self.get_finite_fitness([agent.target.fitness for agent in self.pop])
         self.alg_size_matrix = self.calculate_greatness(self.alg_size_matrix, fitness, self.problem.minmax)
         smallest = np.argmin(self.alg_size_matrix)
         biggest = np.argmax(self.alg_size_matrix)
diff --git a/mealpy/bio_based/EOA.py b/mealpy/bio_based/EOA.py
index c61af79..89cf718 100644
--- a/mealpy/bio_based/EOA.py
+++ b/mealpy/bio_based/EOA.py
@@ -115,12 +115,11 @@ class OriginalEOA(Optimizer):
             epoch (int): The current iteration
         """
         x_keep = np.array([self.pop[idx].solution for idx in range(0, self.n_best)])
-        fit_list = np.array([agent.target.fitness for agent in self.pop])
-        _, best_fit, worst_fit = self.get_special_fitness(self.pop, self.problem.minmax)
+        fit_list = self.get_finite_fitness([agent.target.fitness for agent in self.pop])
         if self.problem.minmax == "min":
-            fits = worst_fit - fit_list + self.EPSILON
+            fits = np.max(fit_list) - fit_list + self.EPSILON
         else:
-            fits = fit_list - worst_fit + self.EPSILON
+            fits = fit_list - np.min(fit_list) + self.EPSILON
         prob_selection = fits / np.sum(fits)
         self.dyn_beta = self.gama * self.beta
 
diff --git a/mealpy/bio_based/IWO.py b/mealpy/bio_based/IWO.py
index 016fc89..d0d6f21 100644
--- a/mealpy/bio_based/IWO.py
+++ b/mealpy/bio_based/IWO.py
@@ -85,15 +85,15 @@ class OriginalIWO(Optimizer):
         """
         # Update Standard Deviation
         sigma = (1. - epoch/self.epoch) ** self.exponent * (self.sigma_start - self.sigma_end) + self.sigma_end
-        pop, list_best, list_worst = self.get_special_agents(self.pop, n_best=1, n_worst=1, minmax=self.problem.minmax)
-        best, worst = list_best[0], list_worst[0]
+        pop, _ = self.get_sorted_population(self.pop, self.problem.minmax)
+        fits = self.get_finite_fitness([agent.target.fitness for agent in pop])
         pop_new = []
         for idx in range(0, self.pop_size):
-            temp = best.target.fitness - worst.target.fitness
+            temp = fits[0] - fits[-1]
             if temp == 0:
                 ratio = self.generator.random()
             else:
-                ratio = (pop[idx].target.fitness - worst.target.fitness) / temp
+                ratio = (fits[idx] - fits[-1]) / temp
             s = int(np.ceil(self.seed_min + (self.seed_max - self.seed_min) * ratio))
             if s > int(np.sqrt(self.pop_size)):
                 s = int(np.sqrt(self.pop_size))
diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index 9ad2168..a66bf98 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -198,7 +198,7 @@ class OriginalSBO(DevSBO):
         # (percent of the difference between the upper and lower limit (Eq. 7))
         self.sigma = self.psw * (self.problem.ub - self.problem.lb)
         ## Calculate the probability of bowers using Eqs. (1) and (2)
-        fx_list = np.array([agent.target.fitness for agent in self.pop])
+        fx_list = self.get_finite_fitness([agent.target.fitness for agent in self.pop])
         fit_list = fx_list.copy()
         for idx in range(0, self.pop_size):
             if fx_list[idx] < 0:
diff --git a/mealpy/bio_based/SMA.py b/mealpy/bio_based/SMA.py
index ced4c9b..dd705ec 100644
--- a/mealpy/bio_based/SMA.py
+++ b/mealpy/bio_based/SMA.py
@@ -69,16 +69,17 @@ class DevSMA(Optimizer):
             epoch (int): The current iteration
         """
         # plus eps to avoid denominator zero
-        ss = self.g_best.target.fitness - self.pop[-1].target.fitness + self.EPSILON
+        fits = self.get_finite_fitness([agent.target.fitness for agent in self.pop] + [self.g_best.target.fitness])
+        ss = fits[-1] - fits[-2] + self.EPSILON
         # calculate the fitness weight of each slime mold
         for idx in range(0, self.pop_size):
             # Eq.(2.5)
             if idx <= int(self.pop_size / 2):
                 self.weights[idx] = 1 + self.generator.uniform(0, 1, self.problem.n_dims) * \
-                                    np.log10((self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
+                                    np.log10((fits[-1] - fits[idx]) / ss + 1)
             else:
                 self.weights[idx] = 1 - self.generator.uniform(0, 1, self.problem.n_dims) * \
-                                    np.log10((self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
+                                    np.log10((fits[-1] - fits[idx]) / ss + 1)
         a = np.arctanh(1 - epoch / self.epoch)  # Eq.(2.4)
         b = 1 - epoch / self.epoch
         pop_new = []
@@ -87,7 +88,7 @@ class DevSMA(Optimizer):
             if self.generator.uniform() < self.p_t:  # Eq.(2.7)
                 pos_new = self.problem.generate_solution()
             else:
-                p = np.tanh(np.abs(self.pop[idx].target.fitness - self.g_best.target.fitness))  # Eq.(2.2)
+                p = np.tanh(np.abs(fits[idx] - fits[-1]))  # Eq.(2.2)
                 vb = self.generator.uniform(-a, a, self.problem.n_dims)  # Eq.(2.3)
                 vc = self.generator.uniform(-b, b, self.problem.n_dims)
                 # two positions randomly selected from population, apply for the whole problem size instead of 1 variable
@@ -164,16 +165,17 @@ class OriginalSMA(DevSMA):
             epoch (int): The current iteration
         """
         # plus eps to avoid denominator zero
-        ss = self.g_best.target.fitness - self.pop[-1].target.fitness + self.EPSILON
+        fits = self.get_finite_fitness([agent.target.fitness for agent in self.pop] + [self.g_best.target.fitness])
+        ss = fits[-1] - fits[-2] + self.EPSILON
         # calculate the fitness weight of each slime mold
         for idx in range(0, self.pop_size):
             # Eq.(2.5)
             if idx <= int(self.pop_size / 2):
                 self.weights[idx] = 1 + self.generator.uniform(0, 1, self.problem.n_dims) * \
-                    np.log10((self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
+                    np.log10((fits[-1] - fits[idx]) / ss + 1)
             else:
                 self.weights[idx] = 1 - self.generator.uniform(0, 1, self.problem.n_dims) * \
-                    np.log10((self.g_best.target.fitness - self.pop[idx].target.fitness) / ss + 1)
+                    np.log10((fits[-1] - fits[idx]) / ss + 1)
 
         aa = np.arctanh(-(epoch / self.epoch) + 1)  # Eq.(2.4)
         bb = 1 - epoch / self.epoch
@@ -184,7 +186,7 @@ class OriginalSMA(DevSMA):
             if self.generator.uniform() < self.p_t:  # Eq.(2.7)
                 pos_new = self.problem.generate_solution()
             else:
-                p = np.tanh(np.abs(self.pop[idx].target.fitness - self.g_best.target.fitness))  # Eq.(2.2)
+                p = np.tanh(np.abs(fits[idx] - fits[-1]))  # Eq.(2.2)
                 vb = self.generator.uniform(-aa, aa, self.problem.n_dims)  # Eq.(2.3)
                 vc = self.generator.uniform(-bb, bb, self.problem.n_dims)
                 for jdx in range(0, self.problem.n_dims):
diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index 7b95009..0fa18b7 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -348,7 +348,7 @@ class ProbBeesA(Optimizer):
             epoch (int): The current iteration
         """
         # Calculate Scores
-        fit_list = np.array([agent.target.fitness for agent in self.pop])
+        fit_list = self.get_finite_fitness([agent.target.fitness for agent in self.pop])
         fit_list = 1.0 / (fit_list + self.EPSILON)
         d_fit = fit_list / np.mean(fit_list)
         for idx in range(0, self.pop_size):
diff --git a/mealpy/swarm_based/FA.py b/mealpy/swarm_based/FA.py
index 20d913f..114e232 100644
--- a/mealpy/swarm_based/FA.py
+++ b/mealpy/swarm_based/FA.py
@@ -87,13 +87,13 @@ class OriginalFA(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        fit_list = np.array([agent.target.fitness for agent in self.pop])
-        fit_list = sorted(fit_list)
+        fits = self.get_finite_fitness([agent.target.fitness for agent in self.pop])
+        fit_list = sorted(fits)
         pop_new = []
         for idx in range(0, self.pop_size):
-            si = self.max_sparks * (fit_list[-1] - self.pop[idx].target.fitness) / \
+            si = self.max_sparks * (fit_list[-1] - fits[idx]) / \
                  (self.pop_size * fit_list[-1] - np.sum(fit_list) + self.EPSILON)
-            Ai = self.max_ea * (self.pop[idx].target.fitness - fit_list[0]) / \
+            Ai = self.max_ea * (fits[idx] - fit_list[0]) / \
                  (np.sum(fit_list) - fit_list[0] + self.EPSILON)
             if si < self.p_a * self.max_sparks:
                 si_ = int(round(self.p_a * self.max_sparks) + 1)
diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 80a899c..7069492 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -75,7 +75,7 @@ class OriginalOrcaOA(Optimizer):
         """
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         # Calculate energy (e_i = F_i - F_s)
-        e = fit_list - self.g_best.target.fitness
+        e = self.get_finite_fitness(fit_list - self.g_best.target.fitness)
         e_min = np.min(e)
         e_max = np.max(e)
 
diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index c578531..39df83e 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -143,7 +143,7 @@ class DevSMO(Optimizer):
     def global_leader_phase(self):
         """Global Leader Phase - selected monkeys update based on global leader"""
         # Calculate selection probabilities
-        list_fits = np.array([agent.target.fitness for group in self.groups for agent in group])
+        list_fits = self.get_finite_fitness([agent.target.fitness for group in self.groups for agent in group])
         # Calculate fitness using formula from paper
         fitness = np.where(list_fits >= 0, 1 / (1 + list_fits), 1 + np.abs(list_fits))
 
-- 
2.43.0


From 319989642ea15969b6bd2bf66e2d45d0430582a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:37 +0000
Subject: [PATCH 096/101] fix: SquirrelSA: more food sources than squirrels

---
 mealpy/swarm_based/SquirrelSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 38be701..55db7cc 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -171,7 +171,7 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Seasonal monitoring condition
-        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, self.n_food_sources) ])
+        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, self.n_trees) ])
         # Calculate minimum seasonal constant
         S_min = (10e-6 / 365) * (epoch / (self.epoch / 2.5))
 
-- 
2.43.0


From f7efc8cabd8592adfd168a6844b67b55025be98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:27 +0000
Subject: [PATCH 097/101] fix: NRO: problems with one variable crashed the
 ionization phase

---
 mealpy/physics_based/NRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 874a95c..bd7371b 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -71,7 +71,7 @@ class OriginalNRO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        levy_b = self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1)
+        levy_b = self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=(self.problem.n_dims,), case=-1)
         # NFi phase
         Pb = self.generator.uniform()
         Pfi = self.generator.uniform()
-- 
2.43.0


From bc78b86d921ac691a19c660cdf2931a1f729224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:37 +0000
Subject: [PATCH 098/101] fix: early stopping never counted an infinite best
 fitness as unchanged

---
 mealpy/utils/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/history.py b/mealpy/utils/history.py
index 625aece..d373c89 100644
--- a/mealpy/utils/history.py
+++ b/mealpy/utils/history.py
@@ -102,8 +102,8 @@ class History:
     def get_global_repeated_times(self, epsilon: float) -> int:
         count = 0
         for idx in range(0, len(self.list_global_best) - 1):
-            temp = np.abs(self.list_global_best[idx].target.fitness - self.list_global_best[idx + 1].target.fitness)
-            if temp <= epsilon:
+            fits = self.list_global_best[idx].target.fitness, self.list_global_best[idx + 1].target.fitness
+            if np.isclose(*fits, rtol=0., atol=epsilon, equal_nan=True):    # infinite values have no difference, but can be equal
                 count += 1
             else:
                 count = 0
-- 
2.43.0


From 290af886cbfe0cd74bbd1995bba0595874bfae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:29 +0000
Subject: [PATCH 099/101] fix: solve() wrote the seed into the caller's problem
 dictionary

---
 mealpy/optimizer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 9fba05e..0a8cef0 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -189,8 +189,7 @@ class Optimizer:
             problem.set_logger()        # Another problem with another log destination may have been created since
             self.problem = problem
         elif type(problem) == dict:
-            problem["seed"] = seed
-            self.problem = Problem(**problem)
+            self.problem = Problem(**{**problem, "seed": seed})
         else:
             raise ValueError("problem needs to be a dict or an instance of Problem class.")
         self.generator = np.random.default_rng(seed)
-- 
2.43.0


From 276a4d0d5a74353cd6d6ecfcf70b8c537142e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:22 +0000
Subject: [PATCH 100/101] fix: charts were drawn into whatever figure was
 current, also one left open by a failed save

---
 mealpy/tuner.py                     | 33 ++++++++++++++++-------------
 mealpy/utils/visualize/linechart.py | 23 ++++++++++++++++++--
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index baf2344..87e9d09 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -326,22 +326,25 @@ class Tuner:
                         x_label = "Epoch"
                     if y_label is None:
                         y_label = "Global best fitness value"
-                    if color is None:
-                        df_final.T.plot(kind='line', title=title)
-                    else:
-                        if len(color) != df_final.values.shape[0]:
-                            raise ValueError("color parameter should be a list with length equal to number of lines.")
+                    fig = plt.figure()
+                    try:
+                        if color is None:
+                            df_final.T.plot(kind='line', title=title, ax=fig.gca())
                         else:
-                            df_final.T.plot(kind='line', color=color, title=title)
-                    plt.xlabel(x_label)
-                    plt.ylabel(y_label)
-                    plt.legend(legends)
-                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)]) or para
-                    for idx, ext in enumerate(exts):
-                        plt.savefig(f"{save_path_new}/{fname}{ext}", bbox_inches='tight')
-                    if platform.system() != "Linux" and verbose:
-                        plt.show()
-                    plt.close()
+                            if len(color) != df_final.values.shape[0]:
+                                raise ValueError("color parameter should be a list with length equal to number of lines.")
+                            else:
+                                df_final.T.plot(kind='line', color=color, title=title, ax=fig.gca())
+                        plt.xlabel(x_label)
+                        plt.ylabel(y_label)
+                        plt.legend(legends)
+                        fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)]) or para
+                        for idx, ext in enumerate(exts):
+                            plt.savefig(f"{save_path_new}/{fname}{ext}", bbox_inches='tight')
+                        if platform.system() != "Linux" and verbose:
+                            plt.show()
+                    finally:        # Also if the figure can't be saved
+                        plt.close(fig)
 
     def __run__(self, id_trial, mode="single", n_workers=None, termination=None):
         g_best = self.algorithm.solve(self.problem, mode=mode, n_workers=n_workers, termination=termination)
diff --git a/mealpy/utils/visualize/linechart.py b/mealpy/utils/visualize/linechart.py
index 5b4536e..5520af9 100644
--- a/mealpy/utils/visualize/linechart.py
+++ b/mealpy/utils/visualize/linechart.py
@@ -4,6 +4,7 @@
 #       Github: https://github.com/thieu1995        %
 # --------------------------------------------------%
 
+from functools import wraps
 from pathlib import Path
 import numpy as np
 import re
@@ -66,6 +67,19 @@ def __check_filepath__(filename):
     return filename
 
 
+def __in_new_figure__(draw):
+    """Each chart has its own figure, which is closed even if it can't be saved. (Otherwise the next chart would be drawn into it)"""
+    @wraps(draw)
+    def wrapper(*args, **kwargs):
+        fig = plt.figure()
+        try:
+            return draw(*args, **kwargs)
+        finally:
+            plt.close(fig)
+    return wrapper
+
+
+@__in_new_figure__
 def _draw_line_(data=None, title=None, legend=None, linestyle='-', color='b', x_label="#Iteration",
                 y_label="Function Value", filename=None, exts=(".png", ".pdf"), verbose=True):
     x = np.arange(0, len(data))
@@ -87,6 +101,7 @@ def _draw_line_(data=None, title=None, legend=None, linestyle='-', color='b', x_
     plt.close()
 
 
+@__in_new_figure__
 def _draw_multi_line_(data=None, title=None, list_legends=None, list_styles=None, list_colors=None,
                       x_label="#Iteration", y_label="Function Value", filename=None, exts=(".png", ".pdf"), verbose=True):
     x = np.arange(0, len(data[0]))
@@ -106,6 +121,7 @@ def _draw_multi_line_(data=None, title=None, list_legends=None, list_styles=None
     plt.close()
 
 
+@__in_new_figure__
 def _draw_multi_subplots_in_same_figure_(data=None, title=None, list_legends=None, list_styles=None, list_colors=None,
                                      x_label="#Iteration", y_labels=None, filename=None, exts=(".png", ".pdf"), verbose=True):
     n_lines = len(data)
@@ -113,7 +129,8 @@ def _draw_multi_subplots_in_same_figure_(data=None, title=None, list_legends=Non
     x = np.arange(0, len_lines)
 
     if n_lines == 1:
-        fig, ax = plt.subplots()
+        fig = plt.gcf()
+        ax = fig.subplots()
         if list_legends is None:
             ax.plot(x, data[0])
         else:
@@ -125,7 +142,8 @@ def _draw_multi_subplots_in_same_figure_(data=None, title=None, list_legends=Non
             ax.set_ylabel(y_labels[0])
         ax.set_title(title)
     elif n_lines > 1:
-        fig, ax_list = plt.subplots(n_lines, sharex=True)
+        fig = plt.gcf()
+        ax_list = fig.subplots(n_lines, sharex=True)
         fig.suptitle(title)
         for idx, ax in enumerate(ax_list):
             if list_legends is None:
@@ -182,6 +200,7 @@ def export_objectives_chart(data=None, title="Objectives chart", list_legends=No
                                      x_label=x_label, y_labels=y_labels, filename=filename, exts=exts, verbose=verbose)
 
 
+@__in_new_figure__
 def export_trajectory_chart(data=None, n_dimensions=1, title="Trajectory of some agents after generations", list_legends=None,
                                  list_styles=None, list_colors=None, x_label="#Iteration", y_label="X1",
                                  filename="1d_trajectory", exts=(".png", ".pdf"), verbose=True):
-- 
2.43.0


From 9bb2cb40af1c23b14afaebc695057336d355ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:22 +0000
Subject: [PATCH 101/101] fix: the chart of more than ten objectives failed for
 lack of colours

---
 mealpy/utils/visualize/linechart.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mealpy/utils/visualize/linechart.py b/mealpy/utils/visualize/linechart.py
index 5520af9..2c387da 100644
--- a/mealpy/utils/visualize/linechart.py
+++ b/mealpy/utils/visualize/linechart.py
@@ -5,6 +5,7 @@
 # --------------------------------------------------%
 
 from functools import wraps
+from itertools import cycle, islice
 from pathlib import Path
 import numpy as np
 import re
@@ -183,9 +184,9 @@ def export_diversity_chart(data=None, title='Diversity Measurement Chart', list_
                            list_styles=None, list_colors=None, x_label="#Iteration", y_label="Diversity Measurement",
                            filename="diversity_chart", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = list(islice(cycle(LIST_LINESTYLES), len(data)))
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = list(islice(cycle(LIST_COLORS), len(data)))
     _draw_multi_line_(data=data, title=title, list_legends=list_legends, list_styles=list_styles, list_colors=list_colors,
                       x_label=x_label, y_label=y_label, filename=filename, exts=exts, verbose=verbose)
 
@@ -193,9 +194,9 @@ def export_diversity_chart(data=None, title='Diversity Measurement Chart', list_
 def export_objectives_chart(data=None, title="Objectives chart", list_legends=None, list_styles=None, list_colors=None,
             x_label="#Iteration", y_labels=None, filename="Objective-chart", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = list(islice(cycle(LIST_LINESTYLES), len(data)))
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = list(islice(cycle(LIST_COLORS), len(data)))
     _draw_multi_subplots_in_same_figure_(data=data, title=title, list_legends=list_legends, list_styles=list_styles, list_colors=list_colors,
                                      x_label=x_label, y_labels=y_labels, filename=filename, exts=exts, verbose=verbose)
 
@@ -205,9 +206,9 @@ def export_trajectory_chart(data=None, n_dimensions=1, title="Trajectory of some
                                  list_styles=None, list_colors=None, x_label="#Iteration", y_label="X1",
                                  filename="1d_trajectory", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = list(islice(cycle(LIST_LINESTYLES), len(data)))
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = list(islice(cycle(LIST_COLORS), len(data)))
 
     if n_dimensions == 1:
         x = np.arange(0, len(data[0]))
-- 
2.43.0

