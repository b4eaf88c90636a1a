From ef25f7b9ec1196bb638a04f713ac5c4cbba5892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 01/20] fix: use the mixed-radix place values when indexing
 residence times and transitions

---
 PyCTBN/PyCTBN/estimators/parameters_estimator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/parameters_estimator.py b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
index a01d549..7d170d8 100644
--- a/PyCTBN/PyCTBN/estimators/parameters_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
@@ -81,7 +81,8 @@ class ParametersEstimator(object):
         :param T: the state residence times vectors
         :type T: numpy.ndArray
         """
-        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * scalar_indexes_struct / scalar_indexes_struct[0], axis=1)
+        weights = np.append(1, scalar_indexes_struct[:-1])
+        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * weights, axis=1)
                            .astype(np.int), \
                            times,
                            minlength=scalar_indexes_struct[-1]).reshape(-1, T.shape[1])
@@ -105,7 +106,8 @@ class ParametersEstimator(object):
         diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],
                                 dtype=np.int64)
         trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]
-        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * scalar_indexing / scalar_indexing[0], axis=1).astype(np.int)
+        weights = np.append(1, scalar_indexing[:-1])
+        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * weights, axis=1).astype(np.int)
                            , minlength=scalar_indexing[-1]).reshape(-1, M.shape[1], M.shape[2])
         M_raveled = M.ravel()
         M_raveled[diag_indices] = 0
-- 
2.43.0


From 848fd36d9aeb48435cf186049e6a80093d5fe0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 02/20] fix: keep the first two columns of the parents
 combinations in their own cardinality

---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 254555d..a6dc756 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -231,11 +231,7 @@ class NetworkGraph(object):
         for val in parents_values:
             tmp.append([x for x in range(val)])
         if len(parents_values) > 0:
-            parents_comb = np.array(np.meshgrid(*tmp)).T.reshape(-1, len(parents_values))
-            if len(parents_values) > 1:
-                tmp_comb = parents_comb[:, 1].copy()
-                parents_comb[:, 1] = parents_comb[:, 0].copy()
-                parents_comb[:, 0] = tmp_comb
+            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))
         else:
             parents_comb = np.array([[]], dtype=np.int)
         return parents_comb
-- 
2.43.0


From 50b5b4db35e035455206ac472fd1503891d5adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 03/20] fix: tabu search draws from a list, random.sample
 rejects sets since Python 3.11

---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 7650732..37bb9c4 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -9,7 +9,7 @@ import typing
 import networkx as nx
 import numpy as np
 
-from random import choice,sample
+from random import choice
 
 from abc import ABC
 
@@ -121,7 +121,7 @@ class TabuSearch(Optimizer):
 
             'choose a new random edge according to tabu restiction'
             if(len(current_possible_nodes) > 0):
-                current_new_parent = sample(current_possible_nodes,k=1)[0]
+                current_new_parent = choice(list(current_possible_nodes))
             else:
                 current_new_parent = tabu_queue.get()
                 tabu_set.remove(current_new_parent)
-- 
2.43.0


From 4e216ca2df22bdbab96dbbf96970b5c41e8c89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 04/20] fix: hill climbing and tabu search stop when there is
 no candidate parent

---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 4 ++++
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index ede3db7..3094e8f 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -93,6 +93,10 @@ class HillClimbing(Optimizer):
 
         patince_count = 0
         for i in range(self.iterations_number):
+            'nothing to search without candidate parents'
+            if not other_nodes:
+                break
+
             'choose a new random edge'
             current_new_parent = choice(other_nodes)
             current_edge =  (current_new_parent,self.node_id)
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 37bb9c4..100d6aa 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -116,6 +116,10 @@ class TabuSearch(Optimizer):
         patince_count = 0
         tabu_count = 0 
         for i in range(self.iterations_number):
+            'nothing to search without candidate parents'
+            if not other_nodes:
+                break
+
             
             current_possible_nodes = other_nodes.difference(tabu_set)
 
-- 
2.43.0


From 1e88e59b5dff0fd7d08ad8a5906ba9c1ee706353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 05/20] fix: max_parents never evicts a prior parent

---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 6 +++++-
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index 3094e8f..eae243e 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -88,6 +88,10 @@ class HillClimbing(Optimizer):
                                             self.structure_estimator._sample_path.structure.nodes_labels if
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)]
+
+        'no parent can be added when the prior ones already fill max_parents'
+        if self.max_parents is not None and len(prior_parents) >= self.max_parents:
+            other_nodes = []
         
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
@@ -111,7 +115,7 @@ class HillClimbing(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        parent_removed = (choice([p for p in parents_list if p not in prior_parents]), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 100d6aa..cb7ddfb 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -98,6 +98,10 @@ class TabuSearch(Optimizer):
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)])
 
+        'no parent can be added when the prior ones already fill max_parents'
+        if self.max_parents is not None and len(prior_parents) >= self.max_parents:
+            other_nodes = set()
+
         'calculate the score for the node without parents'
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
@@ -143,7 +147,7 @@ class TabuSearch(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        parent_removed = (choice([p for p in parents_list if p not in prior_parents]), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
-- 
2.43.0


From 183b28365ec276aa0fdc3f6a3efcafa31588660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 06/20] fix: the estimated graph keeps the nodes without edges

---
 PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py | 1 +
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index c0fef70..4f3a6af 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -244,6 +244,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
 
         return edges
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 70523ee..9b8df83 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -159,6 +159,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
 
         'Update the graph'
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(set_list_edges)
 
         return set_list_edges
-- 
2.43.0


From 84ce02f3af3640c42a8f5977b0e203f75ef58d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 07/20] fix: the estimation gives the prior structure back to
 the sample path

---
 .../estimators/structure_constraint_based_estimator.py       | 5 +++++
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 4f3a6af..7107c48 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -222,6 +222,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         cpu_count = multiprocessing.cpu_count()
 
         'Remove all the edges from the structure'   
+        prior_edges = self._sample_path.structure.edges
         self._sample_path.structure.clean_structure_edges()
 
         'Estimate the best parents for each node'
@@ -247,6 +248,10 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
 
+        'Restore the prior structure'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
         return edges
 
         
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 9b8df83..6780acd 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -84,6 +84,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
         true_edges = set(map(tuple, true_edges))
 
         'Remove all the edges from the structure'   
+        prior_edges = self._sample_path.structure.edges
         self._sample_path.structure.clean_structure_edges()
 
         estimate_parents = self.estimate_parents
@@ -133,6 +134,10 @@ class StructureScoreBasedEstimator(StructureEstimator):
         'Concatenate all the edges list'
         set_list_edges =  set(itertools.chain.from_iterable(list_edges_partial))
 
+        'Restore the prior structure'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
 
         'calculate precision and recall'
         n_missing_edges = 0
-- 
2.43.0


From 8f641d1714e4cf68b4f2fd5697c1744c3eaf08d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 08/20] fix: spurious edges are the estimated ones that are not
 in the prior structure

---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 8840c85..4561296 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -142,7 +142,7 @@ class StructureEstimator(object):
         real_graph = nx.DiGraph()
         real_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         real_graph.add_edges_from(self._sample_path.structure.edges)
-        return nx.difference(real_graph, self._complete_graph).edges
+        return list(nx.difference(self._complete_graph, real_graph).edges)
 
     def save_plot_estimated_structure_graph(self, file_path: str) -> None:  
         """Plot the estimated structure in a graphical model style, use .png extension.
-- 
2.43.0


From c2caf8726273ea0720e4cde82e153d7b364e1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 09/20] fix: complete_test builds its graph when only the
 larger parent set is cached

---
 .../PyCTBN/estimators/structure_constraint_based_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 7107c48..14c47bf 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -91,7 +91,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         p_set.insert(0, test_parent)
         sofc2 = self._cache.find(set(p_set))
 
-        if not sofc2:
+        if not sofc2 or not self._cache.find(set(parent_set)):
             complete_info.append(test_parent)
             bool_mask2 = np.isin(self._nodes, complete_info)
             l2 = list(self._nodes[bool_mask2])
-- 
2.43.0


From 79df3754a547d2cc240b0c0f91a52c03bd3147eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 10/20] fix: record the transition times of a sampled
 trajectory instead of truncating them to 0

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 56e170f..05be228 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -77,8 +77,7 @@ class TrajectoryGenerator(object):
         """
 
         t = 0
-        sigma = pd.DataFrame(columns = (["Time"] + self._vnames))
-        sigma.loc[len(sigma)] = [0] + [0 for v in self._vnames]
+        sigma = pd.DataFrame([[0] + [0 for v in self._vnames]], columns = (["Time"] + self._vnames), dtype = object)
         time = np.full(len(self._vnames), np.NaN)
         n_tr = 0
         self._generated_trajectory = None
@@ -106,6 +105,7 @@ class TrajectoryGenerator(object):
 
             if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and t >= t_end):
                 sigma.loc[len(sigma) - 1, self._vnames] = -1
+                sigma = sigma.infer_objects()
                 self._generated_trajectory = sigma
                 return sigma
             else:
-- 
2.43.0


From abf3ca129c3daf4937df9db60d464aa96fb2b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 11/20] fix: the sojourn time has rate -q_xx, numpy takes its
 inverse as the scale

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 05be228..2ad9b2c 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -98,7 +98,7 @@ class TrajectoryGenerator(object):
 
                     param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]
 
-                    time[i] = t + random.exponential(scale = param)
+                    time[i] = t + random.exponential(scale = 1 / param)
         
             next = time.argmin()
             t = time[next]
-- 
2.43.0


From 039fdd8ef992e42aafd188e985eec86c7c9ae5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 12/20] fix: workers of multi_trajectory draw independently
 instead of sharing the forked state

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 2ad9b2c..81e55b0 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -147,6 +147,7 @@ class TrajectoryGenerator(object):
             :type trajectories: list
         """
         
+        random.seed()
         trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)
         trajectories.append(trajectory)
 
-- 
2.43.0


From 67785bbd62a676d04e584d39746849c63fe01699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 13/20] fix: read parent states with more than one digit

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 81e55b0..bc7c769 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -50,7 +50,7 @@ class TrajectoryGenerator(object):
                 p_combs = []
                 v_cims = []
                 for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d)", comb)).astype("int"))
+                    p_combs.append(np.array(re.findall(r"=(\d+)", comb)).astype("int"))
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-- 
2.43.0


From caa5b14a1c7950b82248b6ac196dbae7e8bb0ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 14/20] fix: the importer keeps the time column whatever its
 label is

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 9328a65..e584f01 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -113,7 +113,7 @@ class AbstractImporter(ABC):
         self._concatenated_samples = pd.concat(proc_samples_list)
 
         complete_header = self._sorter[:]
-        complete_header.insert(0,'Time')
+        complete_header.insert(0, self._concatenated_samples.columns[0])
         complete_header.extend(shifted_cols_header)
         self._concatenated_samples = self._concatenated_samples[complete_header]
 
-- 
2.43.0


From 7edb379bf37b066599a726e7fae10737e94efa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 15/20] fix: drop only the last row of a trajectory when index
 labels repeat

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index e584f01..83bab8d 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -85,8 +85,7 @@ class AbstractImporter(ABC):
         shifted_cols = sample_frame[columns_header].shift(-1).fillna(0).astype('int32')
         shifted_cols.columns = shifted_cols_header
         sample_frame = sample_frame.assign(**shifted_cols)
-        sample_frame.drop(sample_frame.tail(1).index, inplace=True)
-        return sample_frame
+        return sample_frame.iloc[:-1]
 
     def compute_row_delta_in_all_samples_frames(self, df_samples_list: typing.List) -> None:
         """Calls the method ``compute_row_delta_sigle_samples_frame`` on every dataframe present in the list
-- 
2.43.0


From 6ba6f34101ccda1ff6cdbe5d4910866e016bf258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 16/20] fix: node indexes are column positions, not the labels
 of the variables frame

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index a924fe4..74dc7a6 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -61,7 +61,7 @@ class SamplePath(object):
 
         self._total_variables_count = len(self._importer.sorter)
         labels = self._importer.variables.iloc[:, 0].to_list()
-        indxs = self._importer.variables.index.to_numpy()
+        indxs = np.arange(len(labels))
         vals = self._importer.variables.iloc[:, 1].to_numpy()
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
-- 
2.43.0


From c856f77d8560ea2ed0ad4ce95a120d2bdecf2fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 17/20] fix: a variable whose label is another label plus S no
 longer loses its current states on import

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 83bab8d..f580160 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -105,7 +105,11 @@ class AbstractImporter(ABC):
         """
         if not self._sorter:
             raise RuntimeError("The class member self._sorter has to be INITIALIZED!")
-        shifted_cols_header = [s + "S" for s in self._sorter]
+        suffix = "S"
+        # the label of a shifted column must not be the label of another column
+        while any(s + suffix in df_samples_list[0].columns for s in self._sorter):
+            suffix += "S"
+        shifted_cols_header = [s + suffix for s in self._sorter]
         compute_row_delta = self.compute_row_delta_sigle_samples_frame
         proc_samples_list = [compute_row_delta(sample, self._sorter, shifted_cols_header)
                                 for sample in df_samples_list]
-- 
2.43.0


From 0d2752f07fa274f4996eb86d11559c7b876c70af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 18/20] fix: a sampled jump no longer overwrites the previous
 row of the trajectory

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index bc7c769..57623f9 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -123,7 +123,7 @@ class TrajectoryGenerator(object):
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
 
-                new_row = pd.DataFrame(sigma[-1:].values, columns = sigma.columns)
+                new_row = pd.DataFrame(sigma[-1:].values.copy(), columns = sigma.columns)
                 new_row.loc[0].at[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
                 new_row.loc[0].at["Time"] = round(t, 4)
                 sigma = sigma.append(new_row, ignore_index = True)
-- 
2.43.0


From 902b9546d896a8d8d5c2808337665be75ea37e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 19/20] fix: a trajectory generator can be built on an imported
 network without edges

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 57623f9..f857a96 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -37,7 +37,10 @@ class TrajectoryGenerator(object):
  
         self._parents = {}
         for v in self._vnames:
-            if importer is not None:
+            if importer is not None and self._importer._df_structure.empty:
+                # a structure without edges is read back without columns
+                self._parents[v] = []
+            elif importer is not None:
                 self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
             else:
                 self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
-- 
2.43.0


From f72e2fbeb2759c66b7c82509d2db1481f0a9b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 20/20] fix: position of a node in a network graph after a
 removal

---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index a6dc756..a671e88 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -253,7 +253,7 @@ class NetworkGraph(object):
         return nx.get_node_attributes(self._graph, 'indx')[node_id]
 
     def get_positional_node_indx(self, node_id) -> int:
-        return self._graph.nodes[node_id]['pos_indx']
+        return self._graph_struct.get_positional_node_indx(node_id)
 
     @property
     def nodes(self) -> typing.List:
-- 
2.43.0

