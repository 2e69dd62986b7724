From d4ba397e095328c6600aa74eb606f698dcf97bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:30 +0000
Subject: [PATCH 01/32] fix: recom gives up once every adjacent pair of
 districts has failed instead of looping forever

---
 gerrychain/proposals/tree_proposals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerrychain/proposals/tree_proposals.py b/gerrychain/proposals/tree_proposals.py
index e66a718..a27f744 100644
--- a/gerrychain/proposals/tree_proposals.py
+++ b/gerrychain/proposals/tree_proposals.py
@@ -93,8 +93,13 @@ def recom(
     """
 
     bad_district_pairs = set()
-    n_parts = len(partition)
-    tot_pairs = n_parts * (n_parts - 1) / 2  # n choose 2
+    # Only pairs of districts that share a cut edge can ever be selected
+    tot_pairs = len(
+        {
+            tuple(sorted(partition.assignment.mapping[node] for node in edge))
+            for edge in partition["cut_edges"]
+        }
+    )
 
     # Try to add the region aware in if the method accepts the surcharge dictionary
     if "region_surcharge" in signature(method).parameters:
-- 
2.43.0


From 41574c6f95ed0bb2c9e8a722e7feac629253ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 02/32] fix: self-configuring bounds no longer reconfigure
 themselves when the bound is zero

---
 gerrychain/constraints/bounds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 88dd8a6..2d259be 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -116,7 +116,7 @@ class SelfConfiguringUpperBound:
         self.bound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition)
         return self.func(partition) <= self.bound
 
@@ -153,7 +153,7 @@ class SelfConfiguringLowerBound:
         self.epsilon = epsilon
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition) - self.epsilon
         return self.func(partition) >= self.bound
 
@@ -196,7 +196,7 @@ class WithinPercentRangeOfBounds:
         self.ubound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not (self.lbound and self.ubound):
+        if self.lbound is None or self.ubound is None:
             self.lbound = self.func(partition) * (1.0 - self.percent)
             self.ubound = self.func(partition) * (1.0 + self.percent)
             return True
-- 
2.43.0


From 1ae9bf2dd781c63d17e0bec9d6474f7e3b3939a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 03/32] fix: boundary perimeter of grid nodes counts every
 exposed side of one-row and one-column grids

---
 gerrychain/grid.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gerrychain/grid.py b/gerrychain/grid.py
index b635c80..6cf286c 100644
--- a/gerrychain/grid.py
+++ b/gerrychain/grid.py
@@ -235,12 +235,8 @@ def get_boundary_perim(node: Tuple[int, int], dimensions: Tuple[int, int]) -> in
     :rtype: int
     """
     m, n = dimensions
-    if node in [(0, 0), (m - 1, 0), (0, n - 1), (m - 1, n - 1)]:
-        return 2
-    elif node[0] in [0, m - 1] or node[1] in [0, n - 1]:
-        return 1
-    else:
-        return 0
+    x, y = node
+    return (x == 0) + (x == m - 1) + (y == 0) + (y == n - 1)
 
 
 def color_half(node: Tuple[int, int], threshold: int) -> int:
-- 
2.43.0


From d4132e65f31bfdd21d3fbb706078386ba17a4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:48 +0000
Subject: [PATCH 04/32] fix: a DataTally of a node attribute reads the
 partition's own graph, not the first graph it saw

---
 gerrychain/updaters/tally.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 97305b3..aba7435 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -34,15 +34,15 @@ class DataTally:
         self.data = data
         self.alias = alias
 
-        def initialize_tally(partition):
+        def get_value(partition, node):
             if isinstance(self.data, str):
-                nodes = partition.graph.nodes
-                attribute = self.data
-                self.data = {node: nodes[node][attribute] for node in nodes}
+                return partition.graph.nodes[node][self.data]
+            return self.data[node]
 
+        def initialize_tally(partition):
             tally = collections.defaultdict(int)
             for node, part in partition.assignment.items():
-                add = self.data[node]
+                add = get_value(partition, node)
 
                 if math.isnan(add):
                     warnings.warn(
@@ -56,8 +56,8 @@ class DataTally:
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(self.data[node] for node in new_nodes)
-            outflow = sum(self.data[node] for node in old_nodes)
+            inflow = sum(get_value(partition, node) for node in new_nodes)
+            outflow = sum(get_value(partition, node) for node in old_nodes)
             return previous + inflow - outflow
 
         self._call = update_tally
-- 
2.43.0


From f7edd62431782f4a19f5e5b0a93ae7c527068847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:48 +0000
Subject: [PATCH 05/32] fix: tallies ignore nan values when nodes move, as they
 do at the first step

---
 gerrychain/updaters/tally.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index aba7435..d7d3fea 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -1,4 +1,3 @@
-import collections
 import math
 import warnings
 
@@ -40,7 +39,7 @@ class DataTally:
             return self.data[node]
 
         def initialize_tally(partition):
-            tally = collections.defaultdict(int)
+            tally = {part: 0 for part in partition.parts}
             for node, part in partition.assignment.items():
                 add = get_value(partition, node)
 
@@ -52,12 +51,14 @@ class DataTally:
                     )
                 else:
                     tally[part] += add
-            return dict(tally)
+            return tally
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(get_value(partition, node) for node in new_nodes)
-            outflow = sum(get_value(partition, node) for node in old_nodes)
+            inflow = sum_ignoring_nan(get_value(partition, node) for node in new_nodes)
+            outflow = sum_ignoring_nan(
+                get_value(partition, node) for node in old_nodes
+            )
             return previous + inflow - outflow
 
         self._call = update_tally
@@ -127,7 +128,7 @@ class Tally:
             being the sum of the "field" attribute of nodes in that part.
         :rtype: Dict
         """
-        tally = collections.defaultdict(self.dtype)
+        tally = {part: self.dtype() for part in partition.parts}
         for node, part in partition.assignment.items():
             add = self._get_tally_from_node(partition, node)
 
@@ -138,7 +139,7 @@ class Tally:
                 )
             else:
                 tally[part] += add
-        return dict(tally)
+        return tally
 
     def _update_tally(self, partition):
         """
@@ -170,6 +171,10 @@ class Tally:
         return sum(partition.graph.lookup(node, field) for field in self.fields)
 
 
+def sum_ignoring_nan(values):
+    return sum(value for value in values if not math.isnan(value))
+
+
 def compute_out_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     """
     :param graph: The graph that the partition is defined on.
@@ -185,7 +190,9 @@ def compute_out_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "out" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["out"] for field in fields)
+    return sum_ignoring_nan(
+        sum(graph.lookup(node, field) for field in fields) for node in flow["out"]
+    )
 
 
 def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
@@ -203,4 +210,6 @@ def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "in" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["in"] for field in fields)
+    return sum_ignoring_nan(
+        sum(graph.lookup(node, field) for field in fields) for node in flow["in"]
+    )
-- 
2.43.0


From 317981d861769d1a3eebaaa55d9bfce9eb44ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:48 +0000
Subject: [PATCH 06/32] fix: entropy scores no longer require locality names to
 be strings

---
 gerrychain/updaters/locality_split_scores.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index 28720b2..c5b009a 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -307,7 +307,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
@@ -350,7 +350,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
-- 
2.43.0


From faf52dcaf0097d252984de5604f659c24996c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:48 +0000
Subject: [PATCH 07/32] fix: LocalitySplits returns each partition its own
 scores instead of one shared dictionary

---
 gerrychain/updaters/locality_split_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index c5b009a..d0d4587 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -195,7 +195,7 @@ class LocalitySplits:
             if s == "num_split_localities":
                 self.scores[s] = self.num_split_localities(partition)
 
-        return self.scores
+        return dict(self.scores)
 
     def num_parts(self, partition) -> int:
         """
-- 
2.43.0


From 26c62817e9970a57b3f55f2ae28ef2bd38ec79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:48 +0000
Subject: [PATCH 08/32] fix: metagraph enumeration yields every flip once

---
 gerrychain/metagraph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerrychain/metagraph.py b/gerrychain/metagraph.py
index 438af20..4a24168 100644
--- a/gerrychain/metagraph.py
+++ b/gerrychain/metagraph.py
@@ -27,8 +27,13 @@ def all_cut_edge_flips(partition: Partition) -> Iterator[Dict]:
     :returns: An iterator that yields dictionaries representing the flipped edges.
     :rtype: Iterator[Dict]
     """
-    for edge, index in product(partition.cut_edges, (0, 1)):
-        yield {edge[index]: partition.assignment.mapping[edge[1 - index]]}
+    # A node can have several cut edges into the same part: yield that flip once
+    flips = dict.fromkeys(
+        (edge[index], partition.assignment.mapping[edge[1 - index]])
+        for edge, index in product(partition.cut_edges, (0, 1))
+    )
+    for node, part in flips:
+        yield {node: part}
 
 
 def all_valid_states_one_flip_away(
-- 
2.43.0


From 02a6493bc76d4f1bc103ffe651abd3aab0e811da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:13 +0000
Subject: [PATCH 09/32] fix: an invalid initial state is reported as ValueError
 for every form of constraints

A Validator (or any callable without __name__, such as functools.partial)
passed as constraints made the documented ValueError an AttributeError.
---
 gerrychain/chain.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gerrychain/chain.py b/gerrychain/chain.py
index 9b63f8a..b3a2790 100644
--- a/gerrychain/chain.py
+++ b/gerrychain/chain.py
@@ -76,7 +76,9 @@ class MarkovChain:
 
         :raises ValueError: If the initial_state is not valid according to the constraints.
         """
-        if callable(constraints):
+        if isinstance(constraints, Validator):
+            is_valid = constraints
+        elif callable(constraints):
             is_valid = Validator([constraints])
         else:
             is_valid = Validator(constraints)
@@ -89,7 +91,8 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according is_valid. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: "
+                + ",".join([getattr(f, "__name__", repr(f)) for f in failed])
             )
             raise ValueError(message)
 
@@ -130,7 +133,9 @@ class MarkovChain:
         :raises ValueError: If the initial_state is not valid according to the new constraints.
         """
 
-        if callable(constraints):
+        if isinstance(constraints, Validator):
+            is_valid = constraints
+        elif callable(constraints):
             is_valid = Validator([constraints])
         else:
             is_valid = Validator(constraints)
@@ -143,7 +148,8 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according to the new constraints. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: "
+                + ",".join([getattr(f, "__name__", repr(f)) for f in failed])
             )
             raise ValueError(message)
 
-- 
2.43.0


From 333d819cf12d689e186a7b0763e6c3f6ade26c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:30 +0000
Subject: [PATCH 10/32] fix: bipartition_tree_random honours one_sided_cut

The argument was ignored and cuts were always one-sided, so ReCom with this
method failed with PopulationBalanceError on districts that can be rebalanced.
---
 gerrychain/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 06ce843..296cf28 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -866,7 +866,7 @@ def bipartition_tree_random(
     :rtype: Union[Set[Any], None]
     """
     if "one_sided_cut" in signature(balance_edge_fn).parameters:
-        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=True)
+        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=one_sided_cut)
 
     possible_cuts = _bipartition_tree_random_all(
         graph=graph,
@@ -1093,7 +1093,9 @@ def get_seed_chunks(
     pop_col: str,
     epsilon: float,
     node_repeats: int = 1,
-    method: Callable = partial(bipartition_tree_random, max_attempts=10000),
+    method: Callable = partial(
+        bipartition_tree_random, one_sided_cut=True, max_attempts=10000
+    ),
 ) -> List[List[int]]:
     """
     Helper function for recursive_seed_part. Partitions the graph into ``num_chunks`` chunks,
-- 
2.43.0


From 840f90af68099de8e15da6790fa448d902a36ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:23 +0000
Subject: [PATCH 11/32] fix: two single-node districts can be recombined

Balanced-cut search raised IndexError on a tree of two nodes.
---
 gerrychain/tree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 296cf28..1f1bba4 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -261,12 +261,13 @@ def find_balanced_edge_cuts_contraction(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    # A tree on two nodes has no internal node
+    root = choice([x for x in h if h.degree(x) > 1] or list(h))
     # BFS predecessors for iteratively contracting leaves
     pred = predecessors(h.graph, root)
 
     cuts = []
-    leaves = deque(x for x in h if h.degree(x) == 1)
+    leaves = deque(x for x in h if h.degree(x) == 1 and x != root)
     while len(leaves) > 0:
         leaf = leaves.popleft()
         if h.has_ideal_population(leaf, one_sided_cut=one_sided_cut):
@@ -374,7 +375,8 @@ def find_balanced_edge_cuts_memoization(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    # A tree on two nodes has no internal node
+    root = choice([x for x in h if h.degree(x) > 1] or list(h))
     pred = predecessors(h.graph, root)
     succ = successors(h.graph, root)
     total_pop = h.tot_pop
-- 
2.43.0


From 2637242e8040d280f877b6512d10e1a1816b1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:31 +0000
Subject: [PATCH 12/32] fix: tree partitioning leaves the node set of a frozen
 graph alone

recursive_tree_part and epsilon_tree_bipartition removed nodes from the cached
node_indices of the FrozenGraph they were given.
---
 gerrychain/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 1f1bba4..6b29b3c 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -928,7 +928,7 @@ def epsilon_tree_bipartition(
         )
 
     flips = {}
-    remaining_nodes = graph.node_indices
+    remaining_nodes = set(graph.node_indices)
 
     lb_pop = pop_target * (1 - epsilon)
     ub_pop = pop_target * (1 + epsilon)
@@ -1006,7 +1006,7 @@ def recursive_tree_part(
     :rtype: dict
     """
     flips = {}
-    remaining_nodes = graph.node_indices
+    remaining_nodes = set(graph.node_indices)
     # We keep a running tally of deviation from ``epsilon`` at each partition
     # and use it to tighten the population constraints on a per-partition
     # basis such that every partition, including the last partition, has a
-- 
2.43.0


From eae0d0b79bfb04b6871ac109e657431ff6a45c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:22 +0000
Subject: [PATCH 13/32] fix: slow_reversible_propose_bi can flip a node that is
 alone in its district

---
 gerrychain/proposals/proposals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 988c746..3eaeb86 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -123,8 +123,8 @@ def slow_reversible_propose_bi(partition: Partition) -> Partition:
                 for neighbor in partition.graph.neighbors(flip)
             ]
         )
+        - {partition.assignment.mapping[flip]}
     )
-    neighbor_assignments.remove(partition.assignment.mapping[flip])
     flips = {flip: random.choice(neighbor_assignments)}
 
     return partition.flip(flips)
-- 
2.43.0


From 61d6c53d06f84288f6cf4fe5c927bbdc95906ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:58 +0000
Subject: [PATCH 14/32] fix: simulated annealing accepts large improvements
 instead of overflowing

---
 gerrychain/optimization/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 5b45e3c..749434d 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -179,7 +179,9 @@ class SingleMetricOptimizer:
             beta = beta_function(part[self._step_indexer])
             if self._maximize:
                 score_delta *= -1
-            return random.random() < math.exp(-beta * beta_magnitude * score_delta)
+            return random.random() < math.exp(
+                min(0, -beta * beta_magnitude * score_delta)
+            )
 
         return simulated_annealing_acceptance_function
 
-- 
2.43.0


From 43dee68cc43d8cfc27a3c069fb8c43b5add85cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:25 +0000
Subject: [PATCH 15/32] fix: an optimizer's best plan includes the plan just
 produced

---
 gerrychain/optimization/optimization.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 749434d..f94e54a 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -419,13 +419,14 @@ class SingleMetricOptimizer:
             )
 
             for part in chain:
-                yield part
                 part_score = self.score(part)
 
                 if self._is_improvement(part_score, self._best_score):
                     self._best_part = part
                     self._best_score = part_score
 
+                yield part
+
     def simulated_annealing(
         self,
         num_steps: int,
@@ -468,12 +469,13 @@ class SingleMetricOptimizer:
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
         for part in chain_generator:
-            yield part
             part_score = self.score(part)
             if self._is_improvement(part_score, self._best_score):
                 self._best_part = part
                 self._best_score = part_score
 
+            yield part
+
     def tilted_short_bursts(
         self,
         burst_length: int,
@@ -555,7 +557,6 @@ class SingleMetricOptimizer:
                 self._proposal, self._constraints, accept, self._best_part, burst_length
             )
             for part in chain:
-                yield part
                 part_score = self.score(part)
                 if self._is_improvement(part_score, self._best_score):
                     self._best_part = part
@@ -564,6 +565,8 @@ class SingleMetricOptimizer:
                 else:
                     time_stuck += 1
 
+                yield part
+
                 i += 1
                 if i >= num_steps:
                     break
@@ -601,9 +604,10 @@ class SingleMetricOptimizer:
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
         for part in chain_generator:
-            yield part
             part_score = self.score(part)
 
             if self._is_improvement(part_score, self._best_score):
                 self._best_part = part
                 self._best_score = part_score
+
+            yield part
-- 
2.43.0


From 6dcbe5f3a35188458128e85ba46c6253363f9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:25 +0000
Subject: [PATCH 16/32] fix: stuck variable length bursts get longer

---
 gerrychain/optimization/optimization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index f94e54a..cc55b2d 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -558,12 +558,12 @@ class SingleMetricOptimizer:
             )
             for part in chain:
                 part_score = self.score(part)
+                time_stuck += 1
                 if self._is_improvement(part_score, self._best_score):
+                    if part_score != self._best_score:
+                        time_stuck = 0
                     self._best_part = part
                     self._best_score = part_score
-                    time_stuck = 0
-                else:
-                    time_stuck += 1
 
                 yield part
 
@@ -573,6 +573,7 @@ class SingleMetricOptimizer:
 
             if time_stuck >= stuck_buffer * burst_length:
                 burst_length *= 2
+                time_stuck = 0
 
     def tilted_run(self, num_steps: int, p: float, with_progress_bar: bool = False):
         """
-- 
2.43.0


From a1b44330bdabe61690f6320d96f48248fd969613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:36 +0000
Subject: [PATCH 17/32] fix: Gingleator scores of plans whose districts all
 reach the threshold

---
 gerrychain/optimization/gingleator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/optimization/gingleator.py b/gerrychain/optimization/gingleator.py
index 77399b3..2b61b89 100755
--- a/gerrychain/optimization/gingleator.py
+++ b/gerrychain/optimization/gingleator.py
@@ -141,7 +141,7 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=0)
         return num_opport_dists + next_dist
 
     @classmethod
@@ -168,9 +168,9 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=None)
 
-        if next_dist < threshold - 0.1:
+        if next_dist is None or next_dist < threshold - 0.1:
             return num_opport_dists
         else:
             return num_opport_dists + (next_dist - threshold + 0.1) * 10
-- 
2.43.0


From 80841a9fda87f6a1a328644a02211d69550cb8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:28 +0000
Subject: [PATCH 18/32] fix: Graph.add_data adds only the columns it is asked
 for

---
 gerrychain/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index fdd905a..3247eb3 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -326,7 +326,7 @@ class Graph(networkx.Graph):
 
         check_dataframe(df[columns])
 
-        column_dictionaries = df.to_dict("index")
+        column_dictionaries = df[columns].to_dict("index")
         networkx.set_node_attributes(self, column_dictionaries)
 
         if hasattr(self, "data"):
-- 
2.43.0


From 51624b191928d508d7f9f616129bd2b48bf9232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:28 +0000
Subject: [PATCH 19/32] fix: geometries that reprojection breaks are refused
 unless errors are ignored

---
 gerrychain/graph/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 3247eb3..562ecf0 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -237,9 +237,8 @@ class Graph(networkx.Graph):
         # explicitly told not to.
         if reproject:
             df = reprojected(dataframe)
-            if ignore_errors:
+            if not ignore_errors:
                 invalid_reproj = invalid_geometries(df)
-                print(invalid_reproj)
                 if len(invalid_reproj) > 0:
                     raise GeometryError(
                         "Invalid geometries at rows {} after "
-- 
2.43.0


From 9c5ba46bef3d7ee0bec6c3668b2657bc828b32d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:51 +0000
Subject: [PATCH 20/32] fix: constraints given as an iterator are checked for
 every state

---
 gerrychain/constraints/validity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/constraints/validity.py b/gerrychain/constraints/validity.py
index c93d74f..9c8ce65 100644
--- a/gerrychain/constraints/validity.py
+++ b/gerrychain/constraints/validity.py
@@ -27,7 +27,7 @@ class Validator:
         :param constraints: List of validator functions that will check partitions.
         :type constraints: List[Callable]
         """
-        self.constraints = constraints
+        self.constraints = list(constraints)
 
     def __call__(self, partition: Partition) -> bool:
         """
-- 
2.43.0


From 0bf9b72d95abb9e3330aa2a77d57448c43b90912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:36 +0000
Subject: [PATCH 21/32] fix: LocalitySplits reports the localities of the
 partition's own graph

---
 gerrychain/updaters/locality_split_scores.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index d0d4587..5cb6806 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -134,9 +134,11 @@ class LocalitySplits:
 
     def __call__(self, partition):
 
-        if self.localities == []:
-            self.localitydict = dict(partition.graph.nodes(data=self.col_id))
+        localitydict = dict(partition.graph.nodes(data=self.col_id))
+        if self.localities == [] or localitydict != self.localitydict:
+            self.localitydict = localitydict
             self.localities = set(list(self.localitydict.values()))
+            self.allowed_pieces = {}
 
         locality_splits = {
             k: [self.localitydict[v] for v in d]
-- 
2.43.0


From 790932a02345d52df618c2119bb0a3f36b72ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:51 +0000
Subject: [PATCH 22/32] fix: two Gingleators on one state each use their own
 minority share

---
 gerrychain/optimization/gingleator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gerrychain/optimization/gingleator.py b/gerrychain/optimization/gingleator.py
index 2b61b89..7a88811 100755
--- a/gerrychain/optimization/gingleator.py
+++ b/gerrychain/optimization/gingleator.py
@@ -78,6 +78,11 @@ class Gingleator(SingleMetricOptimizer):
         )
 
         if minority_perc_col is None:
+            # Leave alone the updaters that other Gingleators made for themselves
+            if min_perc_column_name.startswith("_gingleator_auxiliary_helper_updater"):
+                while min_perc_column_name in initial_state.updaters:
+                    min_perc_column_name += "_"
+
             perc_up = {
                 min_perc_column_name: lambda part: {
                     k: part[minority_pop_col][k] / part[total_pop_col][k]
-- 
2.43.0


From c984777b8bf9c5fab595aef4bd4c916db9317612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:50 +0000
Subject: [PATCH 23/32] fix: num_spanning_trees fails on districts of a single
 node

---
 gerrychain/updaters/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/spanning_trees.py b/gerrychain/updaters/spanning_trees.py
index 307daf4..a4129f4 100644
--- a/gerrychain/updaters/spanning_trees.py
+++ b/gerrychain/updaters/spanning_trees.py
@@ -26,7 +26,7 @@ def _num_spanning_trees_in_district(partition, district: int) -> int:
     """
     graph = partition.subgraphs[district]
     laplacian = networkx.laplacian_matrix(graph)
-    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 1, 1)
+    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 0, 1)
     return math.exp(numpy.linalg.slogdet(L)[1])
 
 
-- 
2.43.0


From 331c6d24bb0e687670af8f6c103fd6f642b93924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:50 +0000
Subject: [PATCH 24/32] fix: num_spanning_trees counts trees also when the
 edges have a weight

---
 gerrychain/updaters/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/spanning_trees.py b/gerrychain/updaters/spanning_trees.py
index a4129f4..ad52931 100644
--- a/gerrychain/updaters/spanning_trees.py
+++ b/gerrychain/updaters/spanning_trees.py
@@ -25,7 +25,7 @@ def _num_spanning_trees_in_district(partition, district: int) -> int:
     :rtype: int
     """
     graph = partition.subgraphs[district]
-    laplacian = networkx.laplacian_matrix(graph)
+    laplacian = networkx.laplacian_matrix(graph, weight=None)
     L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 0, 1)
     return math.exp(numpy.linalg.slogdet(L)[1])
 
-- 
2.43.0


From f6a35d7968041f72a2075a11f632057dc2de82da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:15 +0000
Subject: [PATCH 25/32] fix: longitude 180 lies in UTM zone 1 (there is no zone
 61)

---
 gerrychain/vendor/utm/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/vendor/utm/conversion.py b/gerrychain/vendor/utm/conversion.py
index 827a7a1..4a37994 100644
--- a/gerrychain/vendor/utm/conversion.py
+++ b/gerrychain/vendor/utm/conversion.py
@@ -316,7 +316,7 @@ def latlon_to_zone_number(latitude, longitude):
         elif longitude < 42:
             return 37
 
-    return int((longitude + 180) / 6) + 1
+    return int((longitude + 180) / 6) % 60 + 1
 
 
 def zone_number_to_central_longitude(zone_number):
-- 
2.43.0


From 3f07f1f9e52c572bea55cdac85dd6f979b487d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:34 +0000
Subject: [PATCH 26/32] fix: spectral_cut reads the eigenvector in the node
 order of the Laplacian

Iterating a FrozenGraph follows node_indices (a set) while graph.nodes() follows
the graph, so with nodes that are not small ascending integers the entries of the
Fiedler vector were assigned to the wrong nodes.
---
 gerrychain/proposals/spectral_proposals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/proposals/spectral_proposals.py b/gerrychain/proposals/spectral_proposals.py
index 3c213a9..ab5ced4 100644
--- a/gerrychain/proposals/spectral_proposals.py
+++ b/gerrychain/proposals/spectral_proposals.py
@@ -36,10 +36,10 @@ def spectral_cut(
             graph.edges[edge]["weight"] = random.random()
 
     if lap_type == "normalized":
-        LAP = (nx.normalized_laplacian_matrix(graph)).todense()
+        LAP = (nx.normalized_laplacian_matrix(graph, nodelist=nlist)).todense()
 
     else:
-        LAP = (nx.laplacian_matrix(graph)).todense()
+        LAP = (nx.laplacian_matrix(graph, nodelist=nlist)).todense()
 
     NLMva, NLMve = LA.eigh(LAP)
     NFv = NLMve[:, 1]
-- 
2.43.0


From 95d4b8d2a4d0a315f620301ac4a5d4728b47f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:05 +0000
Subject: [PATCH 27/32] fix: updaters given to Grid replace its defaults and
 are not changed

Grid.__init__ wrote its defaults into the caller's dictionary, over updaters given
under the same name, and passed them on into the class's default_updaters.
---
 gerrychain/grid.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gerrychain/grid.py b/gerrychain/grid.py
index 6cf286c..d45504d 100644
--- a/gerrychain/grid.py
+++ b/gerrychain/grid.py
@@ -105,11 +105,9 @@ class Grid(Partition):
                     node: color_quadrants(node, thresholds) for node in graph.nodes  # type: ignore
                 }
 
-            if not updaters:
-                updaters = dict()
-            updaters.update(self.default_updaters)
+            updaters = {**self.default_updaters, **(updaters or {})}
 
-            super().__init__(graph, assignment, updaters)
+            super().__init__(graph, assignment, updaters, use_default_updaters=False)
         elif parent:
             self.dimensions = parent.dimensions
             super().__init__(parent=parent, flips=flips)
-- 
2.43.0


From 80912c75106bee3c4c5837daaff5aa0d3a248096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:01 +0000
Subject: [PATCH 28/32] fix: contiguity of a plan without its parent looks at
 all districts

affected_parts only named the districts that gained nodes when the parent is
not known (a MarkovChain drops the parents of its states), so contiguous(plan)
could be True for a plan with disconnected districts.
---
 gerrychain/constraints/contiguity.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index e1077e4..501a074 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -146,18 +146,15 @@ def affected_parts(partition: Partition) -> Set[int]:
     :type partition: Partition
 
     :returns: The set of IDs of all parts that gained or lost a node
-        when compared to the parent partition.
+        when compared to the parent partition (all of them, if there is no parent).
     :rtype: Set[int]
     """
     flips = partition.flips
     parent = partition.parent
 
-    if flips is None:
+    if flips is None or parent is None:
         return partition.parts
 
-    if parent is None:
-        return set(flips.values())
-
     affected = set()
     for node, part in flips.items():
         affected.add(part)
-- 
2.43.0


From d193ccad1e2f760e9a38d97442176351756b772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 29/32] fix: propose_flip_every_district skips districts
 without cut edges

After a flip a district can be empty; its (empty) set of cut edges is kept and
random.choice failed with IndexError.
---
 gerrychain/proposals/proposals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 3eaeb86..24a6f85 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -35,6 +35,10 @@ def propose_flip_every_district(partition: Partition) -> Partition:
     flips = dict()
 
     for dist_edges in partition["cut_edges_by_part"].values():
+        if not dist_edges:
+            # e.g. a district that has lost all of its nodes
+            continue
+
         edge = random.choice(tuple(dist_edges))
 
         index = random.choice((0, 1))
-- 
2.43.0


From ffa4feaf60ccc4ae18746fe61ed842af6fe38eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:59 +0000
Subject: [PATCH 30/32] fix: contiguous_bfs does not raise StopIteration on an
 empty district

Inside MarkovChain.__next__ the StopIteration ended the whole chain silently.
---
 gerrychain/constraints/contiguity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index 501a074..a373891 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -249,7 +249,6 @@ def _bfs(graph: Dict[int, list]) -> bool:
     :returns: is this graph connected?
     :rtype: bool
     """
-    q = [next(iter(graph))]
     visited = set()
     total_vertices = len(graph)
 
@@ -258,6 +257,8 @@ def _bfs(graph: Dict[int, list]) -> bool:
     if total_vertices <= 1:
         return True
 
+    q = [next(iter(graph))]
+
     # bfs!
     while len(q) > 0:
         current = q.pop(0)
-- 
2.43.0


From 12fe3658adab1df9d915a1e103c33d244c3aa0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:14 +0000
Subject: [PATCH 31/32] fix: a partition keeps its own copy of the flips that
 made it

The cut edges and tallies are computed lazily from partition.flips, so a
caller (or proposal) that re-used its dictionary for the next flip silently
changed what earlier partitions reported.
---
 gerrychain/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/partition/partition.py b/gerrychain/partition/partition.py
index 9f484f6..ec49928 100644
--- a/gerrychain/partition/partition.py
+++ b/gerrychain/partition/partition.py
@@ -152,7 +152,7 @@ class Partition:
 
     def _from_parent(self, parent: "Partition", flips: Dict) -> None:
         self.parent = parent
-        self.flips = flips
+        self.flips = dict(flips)
 
         self.graph = parent.graph
         self.updaters = parent.updaters
-- 
2.43.0


From a9afdd3200a3e82466cca9bb053675e77fdcb5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:14 +0000
Subject: [PATCH 32/32] fix: symmetric_entropy skips districts and localities
 without population

They carry no population and contribute nothing; dividing by their zero
total raised ZeroDivisionError.
---
 gerrychain/updaters/locality_split_scores.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index 5cb6806..7f67878 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -398,6 +398,8 @@ class LocalitySplits:
             localities_and_pops = district_dict[district]
             total = sum(localities_and_pops.values())
             fractional_sum = 0
+            if total == 0:
+                continue
             for locality in localities_and_pops.keys():
                 fractional_sum += math.sqrt(localities_and_pops[locality] / total)
             score += total * fractional_sum
@@ -407,6 +409,8 @@ class LocalitySplits:
             districts_and_pops = district_dict_inv[locality]
             total = sum(districts_and_pops.values())
             fractional_sum = 0
+            if total == 0:
+                continue
             for district in districts_and_pops.keys():
                 fractional_sum += math.sqrt(districts_and_pops[district] / total)
             score += total * fractional_sum
-- 
2.43.0

