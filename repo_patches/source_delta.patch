From 9c4f070f259cdc7c949ef15aa98f408556783d1a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 01/22] fix: enumerate parent configurations of unequal
 cardinalities in the order of the statistics

The grid was built with numpy's default 'xy' indexing and two columns were
swapped afterwards, which is only right when the first two cardinalities are
equal: for parents with 2 and 3 states, value 2 was listed for the first
parent.
---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 254555d..a6dc756 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -231,11 +231,7 @@ class NetworkGraph(object):
         for val in parents_values:
             tmp.append([x for x in range(val)])
         if len(parents_values) > 0:
-            parents_comb = np.array(np.meshgrid(*tmp)).T.reshape(-1, len(parents_values))
-            if len(parents_values) > 1:
-                tmp_comb = parents_comb[:, 1].copy()
-                parents_comb[:, 1] = parents_comb[:, 0].copy()
-                parents_comb[:, 0] = tmp_comb
+            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))
         else:
             parents_comb = np.array([[]], dtype=np.int)
         return parents_comb
-- 
2.43.0


From 65ac08806668ab4a23de0e53c48a0a9c1ffeefc4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 02/22] fix: index the sufficient statistics with exclusive
 strides

Each digit was weighted with the cumulative product including its own
cardinality and divided by the first one, which is the right stride only when
all cardinalities are equal: with mixed cardinalities residence times and
transition counts were attributed to wrong states and configurations.
---
 PyCTBN/PyCTBN/estimators/parameters_estimator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/parameters_estimator.py b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
index a01d549..c48cfa0 100644
--- a/PyCTBN/PyCTBN/estimators/parameters_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
@@ -81,7 +81,8 @@ class ParametersEstimator(object):
         :param T: the state residence times vectors
         :type T: numpy.ndArray
         """
-        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * scalar_indexes_struct / scalar_indexes_struct[0], axis=1)
+        strides = np.append(1, scalar_indexes_struct[:-1])
+        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * strides, axis=1)
                            .astype(np.int), \
                            times,
                            minlength=scalar_indexes_struct[-1]).reshape(-1, T.shape[1])
@@ -105,7 +106,8 @@ class ParametersEstimator(object):
         diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],
                                 dtype=np.int64)
         trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]
-        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * scalar_indexing / scalar_indexing[0], axis=1).astype(np.int)
+        strides = np.append(1, scalar_indexing[:-1])
+        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * strides, axis=1).astype(np.int)
                            , minlength=scalar_indexing[-1]).reshape(-1, M.shape[1], M.shape[2])
         M_raveled = M.ravel()
         M_raveled[diag_indices] = 0
-- 
2.43.0


From 3ab77d46165d842f51332b50c596fa7da17679b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 03/22] fix: draw waiting times with the rate given by the
 matrix

numpy's exponential takes the mean, not the rate: variables left fast states
slowly and slow states fast.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 56e170f..502aeb4 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -99,7 +99,7 @@ class TrajectoryGenerator(object):
 
                     param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]
 
-                    time[i] = t + random.exponential(scale = param)
+                    time[i] = t + random.exponential(scale = 1 / param)
         
             next = time.argmin()
             t = time[next]
-- 
2.43.0


From daa9b926eed04858a906e3508137a13993f79afe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 04/22] fix: read parent values of more than one digit from the
 matrix keys

With a cardinality above 10 only the first digit of a parent value was kept, so
matrices were assigned to the wrong configuration.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 502aeb4..7e1a16b 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -50,7 +50,7 @@ class TrajectoryGenerator(object):
                 p_combs = []
                 v_cims = []
                 for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d)", comb)).astype("int"))
+                    p_combs.append(np.array(re.findall(r"=(\d+)", comb)).astype("int"))
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-- 
2.43.0


From 46a88fa3093984dd22a99e34e6867e46f537c18b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 05/22] fix: drop exactly the last row of a trajectory

The last row was dropped by its label, which removes every row with the same
label when the frame's index has duplicates.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 9328a65..47ded64 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -85,8 +85,7 @@ class AbstractImporter(ABC):
         shifted_cols = sample_frame[columns_header].shift(-1).fillna(0).astype('int32')
         shifted_cols.columns = shifted_cols_header
         sample_frame = sample_frame.assign(**shifted_cols)
-        sample_frame.drop(sample_frame.tail(1).index, inplace=True)
-        return sample_frame
+        return sample_frame.iloc[:-1]
 
     def compute_row_delta_in_all_samples_frames(self, df_samples_list: typing.List) -> None:
         """Calls the method ``compute_row_delta_sigle_samples_frame`` on every dataframe present in the list
-- 
2.43.0


From 2b3d8315cab6801b454eea8b8737b78261311e98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 06/22] fix: use the positions of the variables as their
 indexes

The row labels of the variables frame were used as column indexes of the data,
which is wrong for any frame without the default index (e.g. a filtered one).
---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index a924fe4..74dc7a6 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -61,7 +61,7 @@ class SamplePath(object):
 
         self._total_variables_count = len(self._importer.sorter)
         labels = self._importer.variables.iloc[:, 0].to_list()
-        indxs = self._importer.variables.index.to_numpy()
+        indxs = np.arange(len(labels))
         vals = self._importer.variables.iloc[:, 1].to_numpy()
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
-- 
2.43.0


From af37c1e77bc51047870b1a0862d17bc48a84e8af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 07/22] fix: keep the time column of the frames whatever its
 name

The name 'Time' was hard coded although the importers let the user choose it,
so data with another time key could not be imported (KeyError).
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 47ded64..83bab8d 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -112,7 +112,7 @@ class AbstractImporter(ABC):
         self._concatenated_samples = pd.concat(proc_samples_list)
 
         complete_header = self._sorter[:]
-        complete_header.insert(0,'Time')
+        complete_header.insert(0, self._concatenated_samples.columns[0])
         complete_header.extend(shifted_cols_header)
         self._concatenated_samples = self._concatenated_samples[complete_header]
 
-- 
2.43.0


From f39c5113f784d05d5328258bcb63bd51c1a51f52 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 08/22] fix: keep successor columns apart from the variables

With two variables such as 'A' and 'AS' the successor column of the first one
replaced the states of the second one.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 83bab8d..42a8d20 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -105,7 +105,10 @@ class AbstractImporter(ABC):
         """
         if not self._sorter:
             raise RuntimeError("The class member self._sorter has to be INITIALIZED!")
-        shifted_cols_header = [s + "S" for s in self._sorter]
+        suffix = "S"
+        while any(s + suffix in self._sorter for s in self._sorter):
+            suffix += "S"
+        shifted_cols_header = [s + suffix for s in self._sorter]
         compute_row_delta = self.compute_row_delta_sigle_samples_frame
         proc_samples_list = [compute_row_delta(sample, self._sorter, shifted_cols_header)
                                 for sample in df_samples_list]
-- 
2.43.0


From 81e1d686ec9f45330ac71f84ecd719b3f079836c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 09/22] fix: draw the tabu candidate from a list

random.sample no longer accepts a set (TypeError since Python 3.11), so every
tabu search failed at its first step.
---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 7650732..37bb9c4 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -9,7 +9,7 @@ import typing
 import networkx as nx
 import numpy as np
 
-from random import choice,sample
+from random import choice
 
 from abc import ABC
 
@@ -121,7 +121,7 @@ class TabuSearch(Optimizer):
 
             'choose a new random edge according to tabu restiction'
             if(len(current_possible_nodes) > 0):
-                current_new_parent = sample(current_possible_nodes,k=1)[0]
+                current_new_parent = choice(list(current_possible_nodes))
             else:
                 current_new_parent = tabu_queue.get()
                 tabu_set.remove(current_new_parent)
-- 
2.43.0


From 40be166d76e6bce45f9df5f5d252a3e8b923ad33 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 10/22] fix: never evict a known parent to respect max_parents

The parent removed to make room was drawn among all the parents, so an edge
declared as known could be missing from the estimated structure.
---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 3 ++-
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index ede3db7..b659699 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -107,7 +107,8 @@ class HillClimbing(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        removable_parents = [parent for parent in parents_list if parent not in prior_parents]
+                        parent_removed = (choice(removable_parents), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 37bb9c4..2cb57fb 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -139,7 +139,8 @@ class TabuSearch(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        removable_parents = [parent for parent in parents_list if parent not in prior_parents]
+                        parent_removed = (choice(removable_parents), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
-- 
2.43.0


From c65a08ac4f9578d86b452382293d3ce4286ad4db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 11/22] fix: end the score searches when there is nothing to
 search

Without candidate parents hill climbing raised IndexError and tabu search
blocked forever on its empty queue; with max_parents not above the number of
known parents there was no parent to evict (IndexError).
---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 5 +++++
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index b659699..b99ab8e 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -89,6 +89,11 @@ class HillClimbing(Optimizer):
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)]
         
+        'without a candidate, or with all the allowed parents already known, there is nothing to search'
+        if len(other_nodes) == 0 or \
+                (self.max_parents is not None and len(prior_parents) >= self.max_parents):
+            return graph.edges
+
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
         patince_count = 0
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 2cb57fb..31c1137 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -98,6 +98,11 @@ class TabuSearch(Optimizer):
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)])
 
+        'without a candidate, or with all the allowed parents already known, there is nothing to search'
+        if len(other_nodes) == 0 or \
+                (self.max_parents is not None and len(prior_parents) >= self.max_parents):
+            return graph.edges
+
         'calculate the score for the node without parents'
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
-- 
2.43.0


From f720761af0c3d74b8f1d4e7559d1cc8636f67fc9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 12/22] fix: let tabu search run with a zero tabu_length or
 tabu_rules_duration

The first waited forever for an item of the empty queue, the second divided by
zero. For positive values nothing changes.
---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 31c1137..15ba77d 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -172,17 +172,17 @@ class TabuSearch(Optimizer):
                 patince_count += 1
                 
             
-            if tabu_queue.qsize() >= self.tabu_length:
-                    current_removed = tabu_queue.get()
-                    tabu_set.remove(current_removed)
             'Add the node on the tabu list'
             tabu_queue.put(current_new_parent)
             tabu_set.add(current_new_parent)
+            if tabu_queue.qsize() > self.tabu_length:
+                    current_removed = tabu_queue.get()
+                    tabu_set.remove(current_removed)
 
             tabu_count += 1
 
             'Every tabu_rules_duration step remove an item from the tabu list '
-            if tabu_count % self.tabu_rules_duration == 0:
+            if tabu_count >= self.tabu_rules_duration:
                 if tabu_queue.qsize() > 0:
                     current_removed = tabu_queue.get()
                     tabu_set.remove(current_removed)
-- 
2.43.0


From b76d9f3026ab825ba7c993a3342926aa485322b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 13/22] fix: keep variables without edges in the estimated
 graph

The graph was rebuilt from the edges only: isolated variables were missing from
the saved results and adjacency_matrix() failed with KeyError.
---
 PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py | 1 +
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index c0fef70..4f3a6af 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -244,6 +244,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
 
         return edges
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 70523ee..9b8df83 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -159,6 +159,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
 
         'Update the graph'
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(set_list_edges)
 
         return set_list_edges
-- 
2.43.0


From ca76b4c599dbc071533d4957a04a71418a537f22 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 14/22] fix: report the estimated edges that the reference
 structure lacks

Estimation empties the edges of the sample path's structure, so the report was
always empty afterwards; and it listed the reference edges missing from the
estimate instead of the spurious ones. The sample path now remembers the
reference.
---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 8 +++-----
 PyCTBN/PyCTBN/structure_graph/sample_path.py    | 6 ++++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 8840c85..5fa142c 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -137,12 +137,10 @@ class StructureEstimator(object):
         :return: A list containing the spurious edges
         :rtype: List
         """
-        if not self._sample_path.has_prior_net_structure:
+        prior_edges = self._sample_path.prior_edges
+        if not prior_edges:
             return []
-        real_graph = nx.DiGraph()
-        real_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
-        real_graph.add_edges_from(self._sample_path.structure.edges)
-        return nx.difference(real_graph, self._complete_graph).edges
+        return [edge for edge in self._complete_graph.edges if edge not in prior_edges]
 
     def save_plot_estimated_structure_graph(self, file_path: str) -> None:  
         """Plot the estimated structure in a graphical model style, use .png extension.
diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 74dc7a6..ce349c1 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -41,6 +41,7 @@ class SamplePath(object):
                 raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
         self._trajectories = None
         self._structure = None
+        self._prior_edges = []
         self._total_variables_count = None
 
     def build_trajectories(self) -> None:
@@ -67,6 +68,7 @@ class SamplePath(object):
             edges = []
         else:
             edges = list(self._importer.structure.to_records(index=False))
+        self._prior_edges = [tuple(edge) for edge in edges]
         self._structure = Structure(labels, indxs, vals, edges,
                                        self._total_variables_count)
 
@@ -81,6 +83,10 @@ class SamplePath(object):
     def structure(self) -> Structure:
         return self._structure
 
+    @property
+    def prior_edges(self) -> list:
+        return self._prior_edges
+
     @property
     def total_variables_count(self) -> int:
         return self._total_variables_count
-- 
2.43.0


From c6d77166334b5b64219acfde3a54d65789fa98af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 15/22] fix: accept every density that gives a whole number of
 edges

A density given as an int raised TypeError, and valid densities were refused
because of rounding (0.7 with 10 variables gives 62.99999999999999 edges).
---
 PyCTBN/PyCTBN/structure_graph/network_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_generator.py b/PyCTBN/PyCTBN/structure_graph/network_generator.py
index d10ba9e..a2f1225 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_generator.py
@@ -41,10 +41,10 @@ class NetworkGenerator(object):
         
         if fixed:
             n_edges = density * len(self._labels) * (len(self._labels) - 1)
-            if not float.is_integer(n_edges):
+            if abs(n_edges - round(n_edges)) > 1e-9:
                 raise RuntimeError("Invalid Density")
             else:
-                n_edges = int(n_edges)
+                n_edges = int(round(n_edges))
             edges = [(i, j) for i in self._labels for j in self._labels if i != j]
             random.shuffle(edges)
             edges = edges[:n_edges]
-- 
2.43.0


From 993f9cf25915506329702d17bf78c2d5892ff6c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 16/22] fix: record the sampled times as real numbers

The frame had integer columns, so every time was truncated (or the write through
a temporary row was lost, depending on the pandas version).

The new row is also built on its own copy of the last one, which it overwrote.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 7e1a16b..c4f3d9b 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -77,8 +77,7 @@ class TrajectoryGenerator(object):
         """
 
         t = 0
-        sigma = pd.DataFrame(columns = (["Time"] + self._vnames))
-        sigma.loc[len(sigma)] = [0] + [0 for v in self._vnames]
+        sigma = pd.DataFrame([[0] + [0 for v in self._vnames]], columns = (["Time"] + self._vnames), dtype = object)
         time = np.full(len(self._vnames), np.NaN)
         n_tr = 0
         self._generated_trajectory = None
@@ -106,6 +105,7 @@ class TrajectoryGenerator(object):
 
             if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and t >= t_end):
                 sigma.loc[len(sigma) - 1, self._vnames] = -1
+                sigma = sigma.infer_objects()
                 self._generated_trajectory = sigma
                 return sigma
             else:
@@ -123,9 +123,9 @@ class TrajectoryGenerator(object):
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
 
-                new_row = pd.DataFrame(sigma[-1:].values, columns = sigma.columns)
-                new_row.loc[0].at[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
-                new_row.loc[0].at["Time"] = round(t, 4)
+                new_row = pd.DataFrame(sigma[-1:].values.copy(), columns = sigma.columns)
+                new_row.at[0, self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
+                new_row.at[0, "Time"] = round(t, 4)
                 sigma = sigma.append(new_row, ignore_index = True)
 
                 n_tr += 1
-- 
2.43.0


From fd6efd103c36a2d9310f240f414ff82df304b532 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 17/22] fix: give every sampling process its own random stream

Forked processes inherit numpy's generator state, so all the trajectories
sampled in parallel with the same bound were identical.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index c4f3d9b..cd3db1e 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -136,7 +136,7 @@ class TrajectoryGenerator(object):
                     if self._vnames[next] in self._parents[v]:
                         time[i] = np.NaN
 
-    def worker(self, t_end, max_tr, trajectories):
+    def worker(self, t_end, max_tr, trajectories, seed = None):
         """Single process that will be executed in parallel in order to generate one trajectory. 
 
             :param t_end: If defined, the sampling ends when end time is reached
@@ -145,8 +145,12 @@ class TrajectoryGenerator(object):
             :type max_tr: int
             :param trajectories: Shared list that contains to which the generated trajectory is added
             :type trajectories: list
+            :param seed: If defined, the seed of the random stream of this process
+            :type seed: int
         """
         
+        if seed is not None:
+            random.seed(seed)
         trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)
         trajectories.append(trajectory)
 
@@ -166,9 +170,9 @@ class TrajectoryGenerator(object):
         trajectories = Manager().list()
 
         if t_ends is not None:
-            processes = [Process(target = self.worker, args = (t, -1, trajectories)) for t in t_ends]
+            processes = [Process(target = self.worker, args = (t, -1, trajectories, random.randint(2 ** 32))) for t in t_ends]
         else:   
-            processes = [Process(target = self.worker, args = (-1, m, trajectories)) for m in max_trs]
+            processes = [Process(target = self.worker, args = (-1, m, trajectories, random.randint(2 ** 32))) for m in max_trs]
 
         for p in processes:
             p.start()
-- 
2.43.0


From 9b45ef54113dde00c381613717706bfcf1cae6dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 18/22] fix: successor columns must not replace the time column

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 42a8d20..27f30fe 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -106,7 +106,8 @@ class AbstractImporter(ABC):
         if not self._sorter:
             raise RuntimeError("The class member self._sorter has to be INITIALIZED!")
         suffix = "S"
-        while any(s + suffix in self._sorter for s in self._sorter):
+        taken_labels = set(self._sorter).union(*[sample.columns for sample in df_samples_list])
+        while any(s + suffix in taken_labels for s in self._sorter):
             suffix += "S"
         shifted_cols_header = [s + suffix for s in self._sorter]
         compute_row_delta = self.compute_row_delta_sigle_samples_frame
-- 
2.43.0


From 703415cfa48bae2a738f3ae19bcb1286062d7eb7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 19/22] fix: refuse a sample path over an importer that has not
 imported yet

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index ce349c1..765d639 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -39,6 +39,9 @@ class SamplePath(object):
         if isinstance(self._importer._concatenated_samples, np.ndarray) and\
             self._importer._concatenated_samples.size == 0:
                 raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
+        if isinstance(self._importer._concatenated_samples, list) and\
+            not self._importer._concatenated_samples:
+                raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
         self._trajectories = None
         self._structure = None
         self._prior_edges = []
-- 
2.43.0


From 6d5b473a5fba366dfda4feacf86d90e2507e8c3d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 20/22] fix: keep the edges of the structure table as pairs of
 labels

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 765d639..114d3b3 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -70,7 +70,7 @@ class SamplePath(object):
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
         else:
-            edges = list(self._importer.structure.to_records(index=False))
+            edges = [tuple(edge) for edge in self._importer.structure.to_records(index=False)]
         self._prior_edges = [tuple(edge) for edge in edges]
         self._structure = Structure(labels, indxs, vals, edges,
                                        self._total_variables_count)
-- 
2.43.0


From 50e4c2b74d4390660b72760f26e322b00329621b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 21/22] fix: build a trajectory generator from an importer of a
 network without edges

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index cd3db1e..2e4c6f9 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -37,7 +37,10 @@ class TrajectoryGenerator(object):
  
         self._parents = {}
         for v in self._vnames:
-            if importer is not None:
+            if importer is not None and self._importer._df_structure.empty:
+                # a structure without edges may have no columns
+                self._parents[v] = []
+            elif importer is not None:
                 self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
             else:
                 self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
-- 
2.43.0


From d464bfadf147ed23d62898098665d770baf01d3d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:33 +0000
Subject: [PATCH 22/22] fix: select imported intensity matrices by the parents
 named in their keys

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 2e4c6f9..ad9b41a 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -52,8 +52,11 @@ class TrajectoryGenerator(object):
             for v in sampled_cims.keys():
                 p_combs = []
                 v_cims = []
-                for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d+)", comb)).astype("int"))
+                # the keys name the parents and their states, in any order
+                states = {comb: [int(re.search(r"(?:^|,)\s*" + re.escape(p) + r"=(\d+)", comb).group(1)) for p in self._parents[v]]
+                    for comb in sampled_cims[v].keys()}
+                for comb in sorted(states, key = lambda c: states[c][::-1]):
+                    p_combs.append(np.array(states[comb]).astype("int"))
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-- 
2.43.0

