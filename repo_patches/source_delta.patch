From fa1a36b28dbb20ec53655509e24cd3591383cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 01/46] fix: pathExtensionUntilPrizeFeasible stops once the
 quota is reached

The total prize of the tour was never updated inside the loop, so a tour that
had become prize-feasible kept being extended until no extension was left.
---
 include/pctsp/heuristic.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pctsp/heuristic.hh b/include/pctsp/heuristic.hh
index b4ba7c5..2c243b4 100644
--- a/include/pctsp/heuristic.hh
+++ b/include/pctsp/heuristic.hh
@@ -352,6 +352,7 @@ void pathExtensionUntilPrizeFeasible(
             auto external_path = extension_paths[index_of_smallest_loss];
             int last_index = (index_of_smallest_loss + step_size) % k;
             swapPathsInTour(tour, external_path, index_of_smallest_loss, last_index);
+            prize = totalPrizeOfTour(prize_map, tour);
         }
     }
 }
-- 
2.43.0


From 8b6f5547755760f145e5af1264c3ba5f68e0b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 02/46] fix: remove_leaves handles chains longer than the
 recursion limit

---
 pctsp/preprocessing/preprocessing.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pctsp/preprocessing/preprocessing.py b/pctsp/preprocessing/preprocessing.py
index dd30dee..0a3ee23 100644
--- a/pctsp/preprocessing/preprocessing.py
+++ b/pctsp/preprocessing/preprocessing.py
@@ -115,16 +115,18 @@ def remove_leaves(graph: nx.Graph) -> nx.Graph:
     Notes:
         Self loops are not considered
     """
-    leaf_vertices = set()
-    leaf_vertex_found = False
-    for vertex in graph:
+    remaining = set(graph.nodes())
+    leaf_vertex_found = True
+    while leaf_vertex_found:
+        subgraph = graph.subgraph(remaining)
         # remove self loops and isolated vertices (not including self loops)
-        if degree_without_self_loops(graph, vertex) <= 1:
-            leaf_vertices.add(vertex)
-            leaf_vertex_found = True
-    subgraph = graph.subgraph(set(graph.nodes()) - leaf_vertices)
-    if leaf_vertex_found:
-        return remove_leaves(subgraph)
+        leaf_vertices = {
+            vertex
+            for vertex in subgraph
+            if degree_without_self_loops(subgraph, vertex) <= 1
+        }
+        remaining -= leaf_vertices
+        leaf_vertex_found = len(leaf_vertices) > 0
     return subgraph
 
 
-- 
2.43.0


From da7f934472d26b8ee1fb5f27bd6bbc90c34054d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 03/46] fix: pre- and postorder traversals handle trees deeper
 than the recursion limit

---
 pctsp/suurballe/suurballe.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/pctsp/suurballe/suurballe.py b/pctsp/suurballe/suurballe.py
index d6f086d..55b999f 100644
--- a/pctsp/suurballe/suurballe.py
+++ b/pctsp/suurballe/suurballe.py
@@ -112,18 +112,15 @@ def preorder(T: nx.DiGraph, source: Vertex) -> VertexList:
     """
     nx.set_node_attributes(T, sys.maxsize, name="pre")
     order: VertexList = []
-    preorder_recursive(T, source, order)
+    stack: VertexList = [source]  # explicit stack because trees can be deep
+    while stack:
+        vertex = stack.pop()
+        T.nodes[vertex]["pre"] = len(order)
+        order.append(vertex)
+        stack.extend(reversed(list(T.successors(vertex))))
     return order
 
 
-def preorder_recursive(T: nx.DiGraph, vertex: Vertex, order: VertexList) -> None:
-    """Recursive call in preorder traversal"""
-    T.nodes[vertex]["pre"] = len(order)
-    order.append(vertex)
-    for successor in T.successors(vertex):
-        preorder_recursive(T, successor, order)
-
-
 def postorder(T: nx.DiGraph, source: Vertex) -> VertexList:
     """Postorder traversal of the tree.
 
@@ -139,18 +136,20 @@ def postorder(T: nx.DiGraph, source: Vertex) -> VertexList:
     """
     nx.set_node_attributes(T, sys.maxsize, name="post")
     order: VertexList = []
-    postorder_recursive(T, source, order)
+    # explicit stack because trees can be deep
+    stack = [(source, iter(list(T.successors(source))))]
+    while stack:
+        vertex, successors = stack[-1]
+        child = next(successors, None)
+        if child is not None:
+            stack.append((child, iter(list(T.successors(child)))))
+        else:
+            stack.pop()
+            T.nodes[vertex]["post"] = len(order)
+            order.append(vertex)
     return order
 
 
-def postorder_recursive(T: nx.DiGraph, vertex: Vertex, order: VertexList) -> None:
-    """Recursive call for postorder traversal"""
-    for successor in T.successors(vertex):
-        postorder_recursive(T, successor, order)
-    T.nodes[vertex]["post"] = len(order)
-    order.append(vertex)
-
-
 def adjust_edge_cost(
     original_cost_of_edge: int, distance_from_s_to_u: int, distance_from_s_to_v: int
 ) -> int:
-- 
2.43.0


From 8a620f957a4801089e2e0b3850c69121d274d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 04/46] fix: random_tour_from_disjoint_paths_map returns only
 pairs that form a cycle

---
 pctsp/algorithms/heuristic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 5d11a1c..892a39a 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -189,15 +189,15 @@ def random_tour_from_disjoint_paths_map(
         error_message += "(excluding between the root and itself)"
         raise ValueError(error_message)
 
-    keep_repeating = True
-    vertex = random.choice(vertex_choices)
-    while len(vertex_choices) >= 0 and keep_repeating:
+    # choose vertices at random until the two paths form a cycle
+    while len(vertex_choices) > 0:
+        vertex = random.choice(vertex_choices)
         first_path = disjoint_paths_map[vertex][0]
         second_path = disjoint_paths_map[vertex][1]
-        keep_repeating = len(first_path) + len(second_path) < 5
+        if len(first_path) + len(second_path) >= 5:
+            return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
         vertex_choices.remove(vertex)
-        vertex = random.choice(vertex_choices)
-    return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
+    raise ValueError("None of the vertex disjoint paths form a cycle")
 
 
 def find_cycle_from_bfs(G: nx.Graph, root_vertex: Vertex) -> VertexList:
-- 
2.43.0


From d3897d1af478a922a5de0240af8624049a800ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 05/46] fix: suurballes_tour_initialization ignores pairs of
 paths that are not a simple cycle

---
 pctsp/algorithms/heuristic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 892a39a..d720800 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -88,7 +88,8 @@ def suurballes_tour_initialization(
     for disjoint_paths in vertex_disjoint_paths_map.values():
         tour = tour_from_vertex_disjoint_paths(disjoint_paths)
         prize_of_tour = total_prize_of_tour(prize_map, tour)
-        if prize_of_tour > biggest_prize:
+        # the pair of paths from the root to itself does not form a simple cycle
+        if prize_of_tour > biggest_prize and len(set(tour)) == len(tour) - 1:
             biggest_tour = tour
             biggest_prize = prize_of_tour
     return biggest_tour
-- 
2.43.0


From f7e6a9ae0d2912656a1d69cba77e796f0608e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 06/46] fix: infeasible_vials skips results that are not valid
 JSON

---
 pctsp/lab/lab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index 940dae8..baf042e 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -81,7 +81,7 @@ class Lab:
                 )
                 if result.prize < vial.data_config.quota:
                     infeasible.append(vial)
-            except FileNotFoundError:
+            except (FileNotFoundError, json.JSONDecodeError):
                 pass
         return infeasible
 
-- 
2.43.0


From a792f3d9ad16bfa509c74fdec57fdcad2008cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 07/46] fix: run_batch takes the batch before filtering vials
 with missing results

---
 pctsp/lab/lab.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index baf042e..94ac3d6 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -95,10 +95,11 @@ class Lab:
         """Run a batch of experiments in the lab"""
         # get the list of vials, beginning at batch start upto but not including batch end
         batch_end = min(batch_start + batch_size, len(experiment.vials))
-        vial_list = experiment.vials
+        # NOTE take the batch before filtering: the list of missing vials shrinks
+        # as other batches finish, so indexing into it would skip vials
+        vial_list = experiment.vials[batch_start:batch_end]
         if only_missing_results:
             vial_list = self.missing_vials(experiment, vial_list)
-        vial_list = vial_list[batch_start:batch_end]
         return self.run_experiment_from_vial_list(experiment, vial_list)
 
     def run_experiment(self, experiment: Experiment) -> List[Result]:
-- 
2.43.0


From d9597977429aa2f99c5887b54c775dce41e23756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:09 +0000
Subject: [PATCH 08/46] fix: looking up a vertex that was never renamed throws
 VertexNotFoundException

---
 include/pctsp/exception.hh |  2 ++
 include/pctsp/renaming.hh  | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index 3e5ecea..fd91870 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -33,6 +33,8 @@ class VertexNotFoundException : public std::exception {
     std::string message;
 public:
     VertexNotFoundException(const std::string& vertex_str) : message(std::string("Vertex not found: ") + vertex_str) {}
+
+    const char* what() const throw() { return message.c_str(); }
 };
 
 class NoSelfLoopFoundException : EdgeNotFoundException {
diff --git a/include/pctsp/renaming.hh b/include/pctsp/renaming.hh
index 0903fa3..d69e508 100644
--- a/include/pctsp/renaming.hh
+++ b/include/pctsp/renaming.hh
@@ -1,6 +1,14 @@
 #ifndef __PCTSP_RENAME__
 #define __PCTSP_RENAME__
+#include <map>
+#include <string>
+#include <utility>
+#include <vector>
+
 #include <boost/bimap.hpp>
+#include <boost/graph/graph_traits.hpp>
+
+#include "pctsp/exception.hh"
 
 // functions for renaming vertices and creating new graphs
 
@@ -60,12 +68,14 @@ std::vector<std::pair<NewVertex, NewVertex>> renameEdges(
 template<typename OldVertex, typename NewVertex>
 OldVertex getOldVertex(boost::bimap<NewVertex, OldVertex>& vertex_bimap, NewVertex& new_vertex) {
     auto it = vertex_bimap.left.find(new_vertex);
+    if (it == vertex_bimap.left.end()) throw VertexNotFoundException(std::to_string(new_vertex));
     return (*it).second;
 }
 
 template<typename OldVertex, typename NewVertex>
 NewVertex getNewVertex(boost::bimap<NewVertex, OldVertex>& vertex_bimap, OldVertex& old_vertex) {
     auto it = vertex_bimap.right.find(old_vertex);
+    if (it == vertex_bimap.right.end()) throw VertexNotFoundException(std::to_string(old_vertex));
     return (*it).second;
 }
 
-- 
2.43.0


From 7a6341a947b824f1b1dd30115506b0817702a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:09 +0000
Subject: [PATCH 09/46] fix: fillRenamedVertexMap skips vertices that are not
 in the renamed graph

---
 include/pctsp/renaming.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pctsp/renaming.hh b/include/pctsp/renaming.hh
index d69e508..843ba65 100644
--- a/include/pctsp/renaming.hh
+++ b/include/pctsp/renaming.hh
@@ -178,9 +178,9 @@ void fillRenamedVertexMap(
     boost::bimap<NewVertex, OldVertex>& vertex_id_map
 ) {
     for (const auto& [key, value] : old_prize_map) {
-        OldVertex old = key;
-        NewVertex v = getNewVertex(vertex_id_map, old);
-        new_prize_map[v] = value;
+        // NOTE vertices that are not incident to an edge are not in the renamed graph
+        auto it = vertex_id_map.right.find(key);
+        if (it != vertex_id_map.right.end()) new_prize_map[(*it).second] = value;
     }
 }
  
-- 
2.43.0


From 8b11a05901c6f1d662071bd1cb7bd8494ba76ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:09 +0000
Subject: [PATCH 10/46] fix: renaming into a bimap that is not empty continues
 after its vertices

---
 include/pctsp/renaming.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pctsp/renaming.hh b/include/pctsp/renaming.hh
index 843ba65..7269f2f 100644
--- a/include/pctsp/renaming.hh
+++ b/include/pctsp/renaming.hh
@@ -37,7 +37,7 @@ void renameVertices(
     boost::bimap<NewVertex, OldVertex>& vertex_bimap,
     OldVertexContainer& vertices
 ) {
-    NewVertex new_vertex = 0;
+    NewVertex new_vertex = vertex_bimap.size();
     for (auto it = vertices.begin(); it != vertices.end(); it++) {
         OldVertex old_vertex = *it;
         findOrInsertVertex(vertex_bimap, old_vertex, new_vertex);
@@ -50,7 +50,7 @@ std::vector<std::pair<NewVertex, NewVertex>> renameEdges(
     OldEdgeContainer& old_edges
 ) {
     std::vector<std::pair<NewVertex, NewVertex>> new_edges(old_edges.size());
-    NewVertex new_vertex = 0;
+    NewVertex new_vertex = vertex_bimap.size();
     int i = 0;
     for (auto it = old_edges.begin(); it != old_edges.end(); it++) {
         auto pair = *(it);
-- 
2.43.0


From a556d1efe69ec6dfda7ced5849bd0f4efdd97ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 11/46] fix: run_algorithm passes collapse_paths to heuristics

---
 pctsp/lab/run_algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index c0ab4f0..8e7182c 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -183,6 +183,7 @@ def run_algorithm(
             vial.data_config.quota,
             vial.data_config.root,
             vial.model_params.algorithm,
+            collapse_shortest_paths=vial.model_params.collapse_paths,
             disjoint_paths_cost_map=cost_map,
             disjoint_paths_map=vertex_disjoint_paths_map,
             logger=logger,
-- 
2.43.0


From 7a544c845a9848c18623b74705dae72f35374e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 12/46] fix: run_heuristic uses the tour that was extended
 until it is prize feasible

---
 pctsp/lab/run_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index 8e7182c..5e66a66 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -101,7 +101,7 @@ def run_heuristic(
         AlgorithmName.suurballes_extension_collapse,
     ]:
         # run extension with unitary gain then collapse
-        extension_until_prize_feasible(graph, small_tour, quota)
+        small_tour = extension_until_prize_feasible(graph, small_tour, quota)
         tour = extension_unitary_gain_collapse(
             graph,
             small_tour,
-- 
2.43.0


From 04f80c6bd4e1856dd8e3a1921ef1cc5192216f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 13/46] fix: run_heuristic returns an empty edge list if there
 is no starting tour

---
 pctsp/lab/run_algorithm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index 5e66a66..24fbb42 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -90,6 +90,16 @@ def run_heuristic(
             prize_dict, quota, disjoint_paths_cost_map, disjoint_paths_map
         )
 
+    # the extension algorithms have nothing to extend if there is no starting tour
+    if not small_tour and algorithm_name in [
+        AlgorithmName.bfs_extension_collapse,
+        AlgorithmName.bfs_path_extension_collapse,
+        AlgorithmName.suurballes_extension_collapse,
+        AlgorithmName.suurballes_path_extension_collapse,
+    ]:
+        logger.info("Heuristic %s found no starting tour", algorithm_name.value)
+        return []
+
     # run heuristic
     if algorithm_name == AlgorithmName.suurballes_heuristic:
         tour = suurballes_heuristic(
-- 
2.43.0


From 430aa0119dd94ac89bad772467d941e1357f37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 14/46] fix: path_extension passes the step size and depth
 limit in the order of the binding

---
 pctsp/algorithms/path_extension_collapse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/path_extension_collapse.py b/pctsp/algorithms/path_extension_collapse.py
index 815a455..3ae2fd7 100644
--- a/pctsp/algorithms/path_extension_collapse.py
+++ b/pctsp/algorithms/path_extension_collapse.py
@@ -84,8 +84,8 @@ def path_extension(
         cost_dict,
         prize_dict,
         root_vertex,
-        path_depth_limit,
         step_size,
+        path_depth_limit,
         logging_level,
     )
 
-- 
2.43.0


From 479d89286a5ec8e2e2fc3e150df7771a040ed3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 15/46] fix: the limit of two days for slurm jobs is in hours

---
 pctsp/apps/main_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 62993f8..4d78f7e 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -278,7 +278,7 @@ def slurm(
     output_filename = f"joboutput_{experiment_name.value}_%j.out"
     error_filename = f"joboutput_{experiment_name.value}_%j.err"
 
-    two_days_in_hours = 2 * 24 * 3600
+    two_days_in_hours = 2 * 24
     expected_cpu_time = math.ceil(float(batch_size) * (time_limit / 3600.0))
     slurm_time_limit_hours = min(expected_cpu_time + 1, two_days_in_hours)
 
-- 
2.43.0


From 10701664c8a1557fe7b0dd19b0c9d612b5dc44a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:00 +0000
Subject: [PATCH 16/46] fix: self loops keep zero cost under the uniform random
 cost function

---
 pctsp/lab/lab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index 94ac3d6..f06fbb8 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -157,6 +157,8 @@ class Lab:
             # set a different cost function
             if data_config.cost_function == EdgeWeightType.UNIFORM_RANDOM:
                 new_cost = uniform_random_cost(list(graph.edges()))
+                # a self loop stands for a vertex outside the tour, which is free
+                new_cost.update({(u, v): 0 for u, v in new_cost if u == v})
                 nx.set_edge_attributes(graph, new_cost, name="cost")
             elif data_config.cost_function == EdgeWeightType.MST:
                 new_cost = mst_cost(graph, cost_attr="cost")
-- 
2.43.0


From 71451b33ef3cf9fb4eae3c34f8dbc1ba6589f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 17/46] fix: path options reach every extension and collapse
 algorithm

---
 pctsp/apps/main_app.py             | 7 ++++---
 pctsp/compare/product_of_params.py | 7 ++++---
 pctsp/vial/__init__.py             | 2 ++
 pctsp/vial/model_params.py         | 6 ++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 4d78f7e..acd4e7e 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -34,6 +34,7 @@ from ..vial import (
     Preprocessing,
     Vial,
     EXACT_ALGORITHMS,
+    EXTENSION_COLLAPSE_ALGORITHMS,
     HEURISTIC_ALGORITHMS,
     RELAXATION_ALGORITHMS,
 )
@@ -552,9 +553,9 @@ def tsplib(
         model_params.sec_max_tailing_off_iterations = sec_max_tailing_off_iterations
         model_params.sec_sepafreq = 1
         model_params.time_limit = time_limit
-    if AlgorithmName.bfs_extension_collapse in (
-        model_params.algorithm,
-        model_params.heuristic,
+    if (
+        model_params.algorithm in EXTENSION_COLLAPSE_ALGORITHMS
+        or model_params.heuristic in EXTENSION_COLLAPSE_ALGORITHMS
     ):
         model_params.collapse_paths = collapse_paths
         model_params.path_depth_limit = path_depth_limit
diff --git a/pctsp/compare/product_of_params.py b/pctsp/compare/product_of_params.py
index 8cd9e7c..7694446 100644
--- a/pctsp/compare/product_of_params.py
+++ b/pctsp/compare/product_of_params.py
@@ -25,6 +25,7 @@ from ..vial import (
     DataConfig,
     Vial,
     EXACT_ALGORITHMS,
+    EXTENSION_COLLAPSE_ALGORITHMS,
     HEURISTIC_ALGORITHMS,
     RELAXATION_ALGORITHMS,
 )
@@ -144,9 +145,9 @@ def product_of_model_params(
             model_params.sec_max_tailing_off_iterations = -1
             model_params.sec_sepafreq = 1
             model_params.time_limit = time_limit
-        if AlgorithmName.bfs_extension_collapse in (
-            model_params.algorithm,
-            model_params.heuristic,
+        if (
+            model_params.algorithm in EXTENSION_COLLAPSE_ALGORITHMS
+            or model_params.heuristic in EXTENSION_COLLAPSE_ALGORITHMS
         ):
             model_params.collapse_paths = collapse_paths
             model_params.path_depth_limit = path_depth_limit
diff --git a/pctsp/vial/__init__.py b/pctsp/vial/__init__.py
index 950a486..be11d18 100644
--- a/pctsp/vial/__init__.py
+++ b/pctsp/vial/__init__.py
@@ -12,6 +12,7 @@ from .model_params import (
     ModelParams,
     ShortAlgorithmName,
     EXACT_ALGORITHMS,
+    EXTENSION_COLLAPSE_ALGORITHMS,
     HEURISTIC_ALGORITHMS,
     RELAXATION_ALGORITHMS,
 )
@@ -35,6 +36,7 @@ __all__ = [
     "dataframe_from_vial_list",
     "flat_dict_from_vial",
     "EXACT_ALGORITHMS",
+    "EXTENSION_COLLAPSE_ALGORITHMS",
     "HEURISTIC_ALGORITHMS",
     "RELAXATION_ALGORITHMS",
 ]
diff --git a/pctsp/vial/model_params.py b/pctsp/vial/model_params.py
index f9ccc8b..0e407d3 100644
--- a/pctsp/vial/model_params.py
+++ b/pctsp/vial/model_params.py
@@ -56,6 +56,12 @@ HEURISTIC_ALGORITHMS: List[AlgorithmName] = [
     AlgorithmName.suurballes_heuristic,
     AlgorithmName.suurballes_path_extension_collapse,
 ]
+EXTENSION_COLLAPSE_ALGORITHMS: List[AlgorithmName] = [
+    AlgorithmName.bfs_extension_collapse,
+    AlgorithmName.bfs_path_extension_collapse,
+    AlgorithmName.suurballes_extension_collapse,
+    AlgorithmName.suurballes_path_extension_collapse,
+]
 RELAXATION_ALGORITHMS: List[AlgorithmName] = [AlgorithmName.disjoint_tours_relaxation]
 
 
-- 
2.43.0


From 31c3bb3d9d5ee61a3e9f8f9c8043af452fa8ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 18/46] fix: cost cover cuts use the primal bound in the space
 of the original problem

---
 src/cost_cover.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index a7998b4..0c2a688 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -77,7 +77,11 @@ SCIP_DECL_EVENTDELETE(CostCoverEventHandler::scip_delete) {
 }
 
 SCIP_DECL_EVENTEXEC(CostCoverEventHandler::scip_exec) {
-    CostNumberType cost_upper_bound = (CostNumberType) SCIPgetUpperbound(scip);
+    // NOTE the primal bound is in the space of the original problem (the costs of the graph),
+    // whereas SCIPgetUpperbound is in the space of the transformed (possibly scaled) problem
+    double primal_bound = SCIPgetPrimalbound(scip);
+    if (SCIPisInfinity(scip, primal_bound)) return SCIP_OKAY;
+    CostNumberType cost_upper_bound = (CostNumberType) SCIPfeasFloor(scip, primal_bound);
     unsigned int nconss = separateThenAddCostCoverInequalities(scip, _path_distances, cost_upper_bound);
     increaseNumConssAdded(nconss);
     return SCIP_OKAY;
-- 
2.43.0


From 1a70c0316c7485f519d37f97aa8275617584278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 19/46] fix: cost cover cuts never remove the root vertex

---
 src/cost_cover.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index 0c2a688..b31717f 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -96,6 +96,8 @@ unsigned int separateThenAddCostCoverInequalities(SCIP* scip, std::vector<CostNu
     auto violated_vertices = separateCostCoverPaths(graph, path_distances, cost_upper_bound);
     unsigned int num_conss_added = 0;
     for (auto& vertex: violated_vertices) {
+        // every tour visits the root vertex, so there is no cover to add for it
+        if (vertex == root_vertex) continue;
         num_conss_added ++;
         std::vector<PCTSPvertex> cover_vertices = {root_vertex, vertex};
         addCoverInequalityFromVertices(scip, graph, cover_vertices, edge_variable_map);
-- 
2.43.0


From 275c8bb17d5b623579ed707bc9b2feb87192eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 20/46] fix: quota of londonaq instances from alpha does not
 need a missing method

---
 pctsp/compare/product_of_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pctsp/compare/product_of_params.py b/pctsp/compare/product_of_params.py
index 7694446..48579cf 100644
--- a/pctsp/compare/product_of_params.py
+++ b/pctsp/compare/product_of_params.py
@@ -109,7 +109,8 @@ def product_of_londonaq_data_config_from_alpha(
                 cost_function=problems[name].edge_weight_type,
                 dataset=DatasetName.londonaq,
                 graph_name=name,
-                quota=problems[name].get_quota(alpha),
+                # NOTE tspwplib has no PrizeCollectingTSP.get_quota
+                quota=int(float(alpha * problems[name].get_total_prize()) / 100.0),
                 root=problems[name].get_root_vertex(),
                 alpha=alpha,
             )
-- 
2.43.0


From 415929f86d2c9ebcbe81c401945e6e3e771db07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:06 +0000
Subject: [PATCH 21/46] fix: suurballe visits every incident edge while edges
 are removed from the lists

---
 pctsp/suurballe/suurballe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pctsp/suurballe/suurballe.py b/pctsp/suurballe/suurballe.py
index 55b999f..e6ba8e1 100644
--- a/pctsp/suurballe/suurballe.py
+++ b/pctsp/suurballe/suurballe.py
@@ -301,7 +301,7 @@ def suurballe_shortest_vertex_disjoint_paths(
             T.labeled[v] = True  # make v labeled
 
             # process edges incident to v
-            for u, w in T.edges_incident_to_vertex[v]:
+            for u, w in list(T.edges_incident_to_vertex[v]):
                 process(T, u, w, v)
 
             # denoted x in the paper
@@ -425,7 +425,7 @@ def scan_parent(T, x, v):
     v : node
         Node which causes edge (u,w) to be processed.
     """
-    for u, w in T.edges_incident_to_vertex[x]:
+    for u, w in list(T.edges_incident_to_vertex[x]):
         # u and w are in different subtrees so process edge
         if u != x and is_ancestor(T, v, u):
             process(T, u, w, v)
-- 
2.43.0


From ae20f2490faa506110ea7fc705ff198391cbbb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:06 +0000
Subject: [PATCH 22/46] fix: summary stats report the bounds of the original
 problem

---
 src/algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 37dc50f..bc914af 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -100,8 +100,8 @@ SummaryStats getSummaryStatsFromSCIP(SCIP* scip) {
 
     SummaryStats summary = {
         SCIPgetStatus(scip),
-        SCIPgetLowerbound(scip),
-        SCIPgetUpperbound(scip),
+        SCIPgetDualbound(scip),
+        SCIPgetPrimalbound(scip),
         num_cost_cover_disjoint_paths,
         num_cost_cover_shortest_paths,
         nconss_presolve_disjoint_paths,
-- 
2.43.0


From 5b6af57e5ed0af7b69d6b18b314d5f6d8e55179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 23/46] fix: summary stats are read in the order of the fields
 of the struct

---
 src/stats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats.cpp b/src/stats.cpp
index cc6395f..449ca92 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -31,8 +31,8 @@ SummaryStats readSummaryStatsFromYaml(std::filesystem::path& filename) {
         stats_yaml["lower_bound"].as<double>(),
         stats_yaml["upper_bound"].as<double>(),
         stats_yaml["num_cost_cover_disjoint_paths"].as<unsigned int>(),
-        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["num_cost_cover_shortest_paths"].as<unsigned int>(),
+        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["nconss_presolve_shortest_paths"].as<unsigned int>(),
         stats_yaml["num_cycle_cover"].as<unsigned int>(),
         stats_yaml["num_nodes"].as<long long>(),
-- 
2.43.0


From 8afbdf17831a44575cb9b45faf5656a6ebd08e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 24/46] fix: non-singular components are the components with
 more than one vertex

---
 include/pctsp/data_structures.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/data_structures.hh b/include/pctsp/data_structures.hh
index f27060f..58683d4 100644
--- a/include/pctsp/data_structures.hh
+++ b/include/pctsp/data_structures.hh
@@ -94,7 +94,7 @@ std::vector<std::vector<TVertex>> getNonSingularConnectedComponentVectors(
     std::vector<std::vector<TVertex>> non_singular_components (n_non_singular_components);
     int i = 0;
     for (auto& component_id : non_singular_component_ids) {
-        auto& component = component_vectors[i];
+        auto& component = component_vectors[component_id];
         non_singular_components[i] = std::vector<TVertex> (component.size());
         std::copy(component.begin(), component.end(), non_singular_components[i].begin());
         i++;
-- 
2.43.0


From b54dc61f4726cea7748ff364a042d03e36443b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 25/46] fix: the graph overload of
 getNonSingularConnectedComponentVectors compiles

---
 include/pctsp/data_structures.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pctsp/data_structures.hh b/include/pctsp/data_structures.hh
index 58683d4..0ac7871 100644
--- a/include/pctsp/data_structures.hh
+++ b/include/pctsp/data_structures.hh
@@ -108,8 +108,8 @@ std::vector<std::vector<typename TGraph::vertex_descriptor>> getNonSingularConne
     int& n_components,
     std::vector<int>& vertex_component_ids
 ) {
-    auto component_vectors = getConnectedComponentVectors(graph, n_components, vertex_component_ids);
-    return getNonSingularComponentVectors(component_vectors);
+    auto component_vectors = getConnectedComponentsVectors(graph, n_components, vertex_component_ids);
+    return getNonSingularConnectedComponentVectors(component_vectors);
 }
 
 #endif
\ No newline at end of file
-- 
2.43.0


From a4729cf1199d8c9795420ae0c3ec8bb4a0e4fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 26/46] fix: timestamps of bounds are in UTC with three digits
 of milliseconds

---
 src/event_handlers.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index b2ab5de..7d083a6 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -105,8 +105,11 @@ std::string timePointToString(TimePointUTC& time_stamp) {
     tm utc_tm = *gmtime(&tt);
     std::string time_zone_string = "Z";
     char mbstr[100];
-    std::strftime(mbstr, sizeof(mbstr), "%FT%T", std::localtime(&tt));
-    std::string all = std::string(mbstr) + "." + std::to_string(ms.count()) + time_zone_string;
+    std::strftime(mbstr, sizeof(mbstr), "%FT%T", &utc_tm);
+    // the milliseconds always have three digits
+    std::string ms_string = std::to_string(ms.count());
+    ms_string.insert(0, 3 - ms_string.size(), '0');
+    std::string all = std::string(mbstr) + "." + ms_string + time_zone_string;
     return all;
 }
 
-- 
2.43.0


From 22550fe190931ea80a25331c809db1c58f0c5bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 27/46] fix: keep the capsule of the model alive while its
 pointer is read

---
 pctsp/pypctsp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pctsp/pypctsp.cpp b/pctsp/pypctsp.cpp
index 78fdaf3..673574d 100644
--- a/pctsp/pypctsp.cpp
+++ b/pctsp/pypctsp.cpp
@@ -23,8 +23,8 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> pyBasicSolvePrizeCollectingTSP(
     PCTSPvertex& root_vertex,
     std::string& name
 ) {
-    PyObject* capsule = model.attr("to_ptr")(false).ptr();
-    SCIP* scip = (SCIP*) PyCapsule_GetPointer(capsule, "scip");
+    py::object capsule = model.attr("to_ptr")(false);
+    SCIP* scip = (SCIP*) PyCapsule_GetPointer(capsule.ptr(), "scip");
     PCTSPgraph graph;
     auto sol_edges = solvePrizeCollectingTSP(scip, graph, edge_list, heuristic_edges, cost_dict, prize_dict, quota, root_vertex, name);
     return sol_edges;
@@ -59,8 +59,8 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> pySolvePrizeCollectingTSP(
     PCTSPinitLogging(getBoostLevelFromPyLevel(log_level_py));
 
     // get the model from python
-    PyObject* capsule = model.attr("to_ptr")(false).ptr();
-    SCIP* scip = (SCIP*) PyCapsule_GetPointer(capsule, "scip");
+    py::object capsule = model.attr("to_ptr")(false);
+    SCIP* scip = (SCIP*) PyCapsule_GetPointer(capsule.ptr(), "scip");
 
     // rename vertices if they are not in range [0, n-1]
     PCTSPgraph graph;
-- 
2.43.0


From fe92db3e608b1f803e371bfb36fc5dfbea8984eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 28/46] fix: cost cover event handler without distances starts
 counting at zero

---
 include/pctsp/cost_cover.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pctsp/cost_cover.hh b/include/pctsp/cost_cover.hh
index 3de2913..56692b9 100644
--- a/include/pctsp/cost_cover.hh
+++ b/include/pctsp/cost_cover.hh
@@ -76,7 +76,8 @@ public:
     CostCoverEventHandler(SCIP* scip, const std::string& name, const std::string& description)
         : ObjEventhdlr(scip, name.c_str(), description.c_str())
     {
-
+        _num_conss_added = 0;
+        _num_conss_added_init_sol = 0;
     }
 
    CostCoverEventHandler(
-- 
2.43.0


From 0c2ed52614109db928ad373366c79d78147383fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:18 +0000
Subject: [PATCH 29/46] fix: max flow separation uses the capacities of the
 edges of the root component

---
 src/subtour_elimination.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index d50d156..75b6caa 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -334,10 +334,13 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     // only get edges that are in the same connected components as the root
     VertexPairVector edge_vector = getVertexPairVectorFromEdgeSubset(input_graph, solution_edges);
     VertexPairVector root_edge_vector;
+    CapacityVector root_capacity_vector;    // the capacities of the edges in the root edge vector
 
-    for (auto pair : edge_vector) {
+    for (int i = 0; i < edge_vector.size(); i++) {
+        auto pair = edge_vector[i];
         if (root_component.count(pair.first) >= 1 && root_component.count(pair.second) >= 1) {
             root_edge_vector.push_back(pair);
+            root_capacity_vector.push_back(capacity_vector[i]);
         }
     }
     // create mapping from input vertices to support vertices (they will be renamed)
@@ -351,7 +354,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     auto residual_capacity = boost::get(edge_residual_capacity, support_graph);
     for (int i = 0; i < support_edges.size(); i++) {
         auto pair = support_edges[i];
-        auto cap = capacity_vector[i];
+        auto cap = root_capacity_vector[i];
 
         // add edge in both directions since the graph is undirected
         auto edge1 = boost::add_edge(pair.first, pair.second, cap, support_graph);
-- 
2.43.0


From 3f5ad2b4b60e9fc2788fb8aef6b35da7df6de9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:34 +0000
Subject: [PATCH 30/46] fix: tailing off at an integral LP solution is
 infeasible if there is nothing to branch on

---
 src/subtour_elimination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 75b6caa..8820b0f 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -218,6 +218,8 @@ SCIP_DECL_CONSENFOLP(PCTSPconshdlrSubtour::scip_enfolp) {
             // resolve the infeasibility by branching
             BOOST_LOG_TRIVIAL(debug)<< "BRANCHING in enfolp: Node " << std::to_string(node_id) << " found to be tailing off. Gap is " << std::to_string(gap) << ". Threshold is " << std::to_string(sec_lp_gap_improvement_threshold) << std::endl;
             SCIPbranchLP(scip, result);
+            // an integral LP solution that is not a simple cycle has no fractional variables to branch on
+            if (*result == SCIP_DIDNOTRUN) *result = SCIP_INFEASIBLE;
         }
         else {
             // resolve the infeasibility by adding a subtour elimination constraint
-- 
2.43.0


From c0165dce404ba70f6c3966aee06b7b619c10423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:13 +0000
Subject: [PATCH 31/46] fix: close the file of the solver statistics

---
 src/algorithms.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index bc914af..1d316b8 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -225,6 +225,7 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
     // write the logs to txt
     FILE* log_file = fopen(scip_logs_txt.c_str(), "w");
     SCIPprintStatistics(scip, log_file);
+    if (log_file != NULL) fclose(log_file);
 
     // write the bounds CSV: NOTE this file can get very large
     // std::vector<Bounds> bounds_vector = bounds_handler->getBoundsVector();
-- 
2.43.0


From f57783df1117e854e776fb9230d03f1a253c8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 32/46] fix: getVertexPairVectorFromGraph compiles

---
 include/pctsp/graph.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/pctsp/graph.hh b/include/pctsp/graph.hh
index 014c299..8128bbc 100644
--- a/include/pctsp/graph.hh
+++ b/include/pctsp/graph.hh
@@ -70,12 +70,6 @@ void addEdgesToGraph(
     addEdgesToGraph(graph, first, last);
 }
 
-template<typename TGraph>
-VertexPairVector getVertexPairVectorFromGraph(TGraph& graph) {
-    auto edges = getEdgeVectorOfGraph(graph);
-    return getVertexPairVectorFromEdgeSubset(graph, edges);
-}
-
 std::vector <PCTSPedge> getEdgeVectorOfGraph(PCTSPgraph& graph);
 
 
@@ -84,6 +78,12 @@ VertexPairVector getVertexPairVectorFromEdgeSubset(
     std::vector < PCTSPedge> edge_subset_vector
 );
 
+template<typename TGraph>
+VertexPairVector getVertexPairVectorFromGraph(TGraph& graph) {
+    auto edges = getEdgeVectorOfGraph(graph);
+    return getVertexPairVectorFromEdgeSubset(graph, edges);
+}
+
 template< typename TGraph, typename PairIt>
 std::vector<typename boost::graph_traits<TGraph>::edge_descriptor> edgesFromVertexPairs(
     TGraph& graph,
-- 
2.43.0


From 73a1718448ee24dc5b797c6b960f3d529f198f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 33/46] fix: a missing self loop can be caught as a missing
 edge

---
 include/pctsp/exception.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index fd91870..03b65c6 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -37,7 +37,7 @@ public:
     const char* what() const throw() { return message.c_str(); }
 };
 
-class NoSelfLoopFoundException : EdgeNotFoundException {
+class NoSelfLoopFoundException : public EdgeNotFoundException {
 public:
     NoSelfLoopFoundException(const std::string& vertex_str)
         : EdgeNotFoundException(vertex_str, vertex_str) {}
-- 
2.43.0


From 085f8a395b4131c363eb5177d982273023132836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 34/46] fix: joining the names of variables throws when a
 variable is NULL

---
 include/pctsp/sciputils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/sciputils.hh b/include/pctsp/sciputils.hh
index 02b217d..cacef8c 100644
--- a/include/pctsp/sciputils.hh
+++ b/include/pctsp/sciputils.hh
@@ -15,7 +15,7 @@ std::string joinVariableNames(It& variable_first_it, It& variable_last_it) {
     for (; variable_first_it != variable_last_it; variable_first_it++) {
         SCIP_VAR* var = *variable_first_it;
         if (var == NULL) {
-            VariableIsNullException();
+            throw VariableIsNullException();
         }
         std::string var_name = SCIPvarGetName(var);
         joined_names += var_name + separator;
-- 
2.43.0


From 2c39a713b4c6a987f11b1fefc891bbd3114fa80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 35/46] fix: addSelfLoopsToGraph only adds the loops that are
 missing

---
 src/preprocessing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessing.cpp b/src/preprocessing.cpp
index 6936ec4..298d038 100644
--- a/src/preprocessing.cpp
+++ b/src/preprocessing.cpp
@@ -2,7 +2,8 @@
 
 void addSelfLoopsToGraph(PCTSPgraph& graph) {
     for (auto vertex : boost::make_iterator_range(vertices(graph))) {
-        boost::add_edge(vertex, vertex, graph);
+        if (!boost::edge(vertex, vertex, graph).second)
+            boost::add_edge(vertex, vertex, graph);
     }
 }
 
-- 
2.43.0


From 1b53d2b72111f62dfe7569da1be2e5f665a49ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 36/46] fix: dataset stats read the costs of the disjoint paths
 with the vertex used to split the graph

---
 pctsp/apps/dataset_app.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index ca4bf14..5a039ef 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -144,7 +144,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         tree, biggest_vertex
     )
     biggest_prize = 0
-    biggest_vertex = None
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
         prize = (
@@ -153,9 +152,7 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
             - prize_map[u]
             - prize_map[root_vertex]
         )
-        if prize > biggest_prize:
-            biggest_prize = prize
-            biggest_vertex = u
+        biggest_prize = max(biggest_prize, prize)
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-- 
2.43.0


From 0b5abe711c6e1b62f365a7cd8a598b9ac4a4d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 37/46] fix: messages are not repeated when a logger is
 requested more than once

---
 pctsp/utils/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pctsp/utils/utils.py b/pctsp/utils/utils.py
index b15071f..211b6da 100644
--- a/pctsp/utils/utils.py
+++ b/pctsp/utils/utils.py
@@ -11,6 +11,9 @@ def get_pctsp_logger(name: str, level: int = logging.INFO) -> logging.Logger:
     logger = logging.getLogger(name)
     logger.setLevel(level)
 
+    # the logger may have a handler from an earlier call with the same name
+    logger.handlers.clear()
+
     # create console handler and set level to debug
     console_handler = logging.StreamHandler()
     console_handler.setLevel(level)
-- 
2.43.0


From 37f4e8a3cc6c9183d7bcb804172b78a4ef7e845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:53 +0000
Subject: [PATCH 38/46] fix: the error for a missing file read its message
 before it was initialised

---
 include/pctsp/exception.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index 03b65c6..88b27c9 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -87,7 +87,8 @@ class TargetVertexFound : public std::exception {
 
 class FileDoesNotExistError : public std::filesystem::filesystem_error {
     private:
-        const std::string message = "File does not exist: ";
+        // static because it is read before the members are initialised
+        inline static const std::string message = "File does not exist: ";
     
     public:
         FileDoesNotExistError(const std::string& what_arg, const std::filesystem::path& p1, std::error_code ec) : std::filesystem::filesystem_error(what_arg, p1, ec) {};
-- 
2.43.0


From 841ca748d183700db0a41aa9a7068c7de432227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 39/46] fix: edges of a tour are filtered by
 position-independent columns

---
 pctsp/plot/plot_tour.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pctsp/plot/plot_tour.py b/pctsp/plot/plot_tour.py
index a266e5f..ea632e6 100644
--- a/pctsp/plot/plot_tour.py
+++ b/pctsp/plot/plot_tour.py
@@ -31,9 +31,10 @@ def tour_edges_trace(
     tour_edge_set = set(edge_list_from_walk(tour))
 
     # filter edges
-    tour_edge_mask = edge_df[[source, target]].apply(
-        lambda x: (x[0], x[1]) in tour_edge_set or (x[1], x[0]) in tour_edge_set, axis=1
-    )
+    tour_edge_mask = [
+        (u, v) in tour_edge_set or (v, u) in tour_edge_set
+        for u, v in zip(edge_df[source], edge_df[target])
+    ]
     tour_edge_df = edge_df.loc[tour_edge_mask]
 
     # filter vertices
-- 
2.43.0


From e4d6bedde766448ce0b4581170a6d3036a00b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 40/46] fix: edges that do not meet are not connected by a line

---
 pctsp/plot/plot_edges.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pctsp/plot/plot_edges.py b/pctsp/plot/plot_edges.py
index 829d793..299220e 100644
--- a/pctsp/plot/plot_edges.py
+++ b/pctsp/plot/plot_edges.py
@@ -19,10 +19,11 @@ def edge_scatter(
     edge_np = edge_df[[source, target]].to_numpy()
 
     # apply x/y coordinate mapper and flatten arrays
+    # (the missing value ends the line, else consecutive edges would be connected)
     edge_x = np.array(
         list(
             map(
-                lambda x: (vertex_df.at[x[0], x_name], vertex_df.at[x[1], x_name]),
+                lambda x: (vertex_df.at[x[0], x_name], vertex_df.at[x[1], x_name], np.nan),
                 edge_np,
             )
         )
@@ -30,7 +31,7 @@ def edge_scatter(
     edge_y = np.array(
         list(
             map(
-                lambda x: (vertex_df.at[x[0], y_name], vertex_df.at[x[1], y_name]),
+                lambda x: (vertex_df.at[x[0], y_name], vertex_df.at[x[1], y_name], np.nan),
                 edge_np,
             )
         )
-- 
2.43.0


From b00caadad246c8744a00f0c697bf096781fc10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 41/46] fix: title of the color bar is set the way every
 version of plotly accepts

---
 pctsp/plot/plot_vertices.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pctsp/plot/plot_vertices.py b/pctsp/plot/plot_vertices.py
index e9d32ac..c88e8f7 100644
--- a/pctsp/plot/plot_vertices.py
+++ b/pctsp/plot/plot_vertices.py
@@ -24,7 +24,9 @@ def vertex_scatter(
             size=10,
             color=vertex_df[color],
             colorbar=go.scatter.marker.ColorBar(
-                thickness=15, title="Prize", xanchor="left", titleside="right"
+                thickness=15,
+                title={"text": "Prize", "side": "right"},
+                xanchor="left",
             ),
             line_width=2,
         ),
-- 
2.43.0


From e573dd18a4d287c424910cd2cca31d08a23b633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 42/46] fix: title of the layout is set the way every version
 of plotly accepts

---
 pctsp/plot/plot_graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pctsp/plot/plot_graph.py b/pctsp/plot/plot_graph.py
index af3da9e..823340a 100644
--- a/pctsp/plot/plot_graph.py
+++ b/pctsp/plot/plot_graph.py
@@ -19,8 +19,7 @@ def graph_trace(edge_df: pd.DataFrame, vertex_df: pd.DataFrame) -> List[go.Scatt
 def graph_layout() -> go.Layout:
     """Plotly layout of graph"""
     return go.Layout(
-        title="<br>Network graph made with Python",
-        titlefont_size=16,
+        title={"text": "<br>Network graph made with Python", "font": {"size": 16}},
         showlegend=False,
         hovermode="closest",
         margin={"b": 20, "l": 5, "r": 5, "t": 40},
-- 
2.43.0


From 21a3242ef50401de1ca667460c7d35432a8bc3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:10 +0000
Subject: [PATCH 43/46] fix: the walks from the root to itself are no disjoint
 paths in the dataset stats

---
 pctsp/apps/dataset_app.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index 5a039ef..d986149 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -146,6 +146,8 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
     biggest_prize = 0
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
+        if u == root_vertex:
+            continue  # closed walks from the root to itself are not disjoint paths
         prize = (
             total_prize(prize_map, path1)
             + total_prize(prize_map, path2)
@@ -156,7 +158,9 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-        vertex_disjoint_cost_map(tree, biggest_vertex).values()
+        cost
+        for u, cost in vertex_disjoint_cost_map(tree, biggest_vertex).items()
+        if u != root_vertex
     )
 
     # preprocessing
-- 
2.43.0


From 91f0157468172c88af2efdf26ff3a0bb39a4ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:10 +0000
Subject: [PATCH 44/46] fix: experiments without results or statistics are
 written to an empty CSV

---
 pctsp/apps/csv_app.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pctsp/apps/csv_app.py b/pctsp/apps/csv_app.py
index 68ead24..f3727ff 100644
--- a/pctsp/apps/csv_app.py
+++ b/pctsp/apps/csv_app.py
@@ -31,7 +31,9 @@ def experiment_summary_df(
 ) -> pd.DataFrame:
     """Get a dataframe summarizing the results of an experiment"""
     vial_df = dataframe_from_vial_list(experiment.vials)
-    result_df = pd.DataFrame(map(lambda x: x.dict(), results))
+    result_df = pd.DataFrame(
+        map(lambda x: x.dict(), results), columns=list(Result.model_fields)
+    )
     joined_df = vial_df.merge(result_df, left_on="uuid", right_on="vial_uuid")
     joined_df["duration"] = (joined_df["end_time"] - joined_df["start_time"]).apply(
         lambda x: x.total_seconds()
@@ -60,7 +62,9 @@ def summary_stats_df(root_dir: Path, ids: List[UUID]) -> pd.DataFrame:
             stats_list.append(stats_dict)
         except (FileNotFoundError, yaml.YAMLError):
             pass
-    return pd.DataFrame.from_records(stats_list)
+    return pd.DataFrame.from_records(
+        stats_list, columns=list(SummaryStats.model_fields) + ["vial_uuid"]
+    )
 
 
 @csv_app.command(name="heuristics")
-- 
2.43.0


From e4c1bd3f474d0d97fffb7cf50ac376fbb136cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:10 +0000
Subject: [PATCH 45/46] fix: names of branching strategies are only put into
 their own column

---
 pctsp/apps/tables_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/tables_app.py b/pctsp/apps/tables_app.py
index b7fa05c..9d92e5d 100644
--- a/pctsp/apps/tables_app.py
+++ b/pctsp/apps/tables_app.py
@@ -185,7 +185,7 @@ def pretty_dataframe(df: pd.DataFrame, long: bool = False) -> pd.DataFrame:
         4: "Default",
     }
     if "branching_strategy" in df:
-        df = df.replace(branching_replacements)
+        df = df.replace({"branching_strategy": branching_replacements})
     if "branching_strategy" in df.index.names:
         df = df.rename(index=branching_replacements, level=col)
 
-- 
2.43.0


From 3a5ec39fffc4c0c04ae7faa55312576f3448d503 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:45:02 +0000
Subject: [PATCH 46/46] fix: max flow separation is not misled by capacities
 that are cut off to integers

---
 src/subtour_elimination.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 8820b0f..b7a11ed 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -373,6 +373,9 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
         reverse_edges[edge2_reverse.first] = edge2.first;
     }
 
+    // the capacities are cut off to integers, so the flow may be too small by one for every edge of the cut
+    CapacityType min_flow = 2 * FLOW_FLOAT_MULTIPLIER - (CapacityType)support_edges.size();
+
     auto support_root = getNewVertex(lookup, root_vertex);
     auto vindex = boost::get(vertex_index, support_graph);
     std::vector< int > component(boost::num_vertices(support_graph));
@@ -393,7 +396,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
             }
             auto flow = boost::push_relabel_max_flow(support_graph, support_root, target, capacity_property, residual_capacity, reverse_edges, vindex);
 
-            if (flow < 2 * FLOW_FLOAT_MULTIPLIER) {
+            if (flow < min_flow) {
                 // traverse the residual graph from the root
                 // all vertices that are reachable on edges that have some flow are on one side of the cut
                 // all edges that are not reachable by the flow are on the other side of the cut
-- 
2.43.0

