From 321527e09a8faea1d485c520888ccf1340dc3720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 01/44] fix: Automaton.add_edge must refuse a duplicate
 transition whose target is state 0

---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index ab74894..27a7d1b 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -89,7 +89,7 @@ class Automaton(DirectedGraph):
         """
         assert q is not None
         assert r is not None
-        if self.delta(q, a):
+        if self.delta(q, a) is not BOTTOM:
             return (None, False)
         self.adjacencies[q][a] = r
         return (EdgeDescriptor(q, r, a), True)
-- 
2.43.0


From e698e48c18aea041e292cd1345a4080cc5552fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 02/44] fix: NodeAutomaton.delta and out_edges must accept
 BOTTOM as Automaton does

---
 src/pybgl/node_automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 714eda4..d5fbec5 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -65,7 +65,7 @@ class NodeAutomaton(Automaton):
         Returns:
             The reached state (if any), :py:data:`BOTTOM` otherwise.
         """
-        return self.adjacencies[q].get(a, BOTTOM)
+        return self.adjacencies.get(q, dict()).get(a, BOTTOM)
 
     def add_edge(self, q: int, r: int) -> tuple:
         """
@@ -145,7 +145,7 @@ class NodeAutomaton(Automaton):
         """
         return (
             EdgeDescriptor(q, r, a)
-            for (a, r) in self.adjacencies[q].items()
+            for (a, r) in self.adjacencies.get(q, dict()).items()
         )
 
     def remove_edge(self, e: EdgeDescriptor):
-- 
2.43.0


From bdc2dfec8fb97b82b6ed14488697d48e588762b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 03/44] fix: make_node_automaton must look final states up by
 name and accept pmap_vlabel=None

---
 src/pybgl/node_automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index d5fbec5..3e15ca8 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -322,9 +322,9 @@ def make_node_automaton(
     }
     g = Constructor(0)
     for vertex_name in vertex_names:
-        a = pmap_vlabel[vertex_name]
+        a = pmap_vlabel[vertex_name] if pmap_vlabel else None
         u = g.add_vertex(a)
-        if pmap_vfinal[u]:
+        if pmap_vfinal[vertex_name]:
             g.set_final(u)
     for (qn, rn) in transitions:
         q = map_vertices[qn]
-- 
2.43.0


From 07dda5c7ca819f0daa3ed5c9ec4cc4c790d2c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 04/44] fix: IncidenceNodeAutomaton must forward its keyword
 arguments

---
 src/pybgl/incidence_node_automaton.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pybgl/incidence_node_automaton.py b/src/pybgl/incidence_node_automaton.py
index c0b0cd1..c6d17cc 100644
--- a/src/pybgl/incidence_node_automaton.py
+++ b/src/pybgl/incidence_node_automaton.py
@@ -15,7 +15,6 @@ from .node_automaton import *
 
 
 class IncidenceNodeAutomaton(NodeAutomaton):
-    # TODO **kwargs
     def __init__(self, *args, pmap_vsymbol: ReadPropertyMap = None, **kwargs):
         """
         Constructor.
@@ -25,7 +24,7 @@ class IncidenceNodeAutomaton(NodeAutomaton):
                 each state with its corresponding symbol.
         """
         self.predecessors = defaultdict(set)  # predecessors[r] = {q}
-        super().__init__(*args, pmap_vsymbol=pmap_vsymbol)  # UGLY
+        super().__init__(*args, pmap_vsymbol=pmap_vsymbol, **kwargs)
 
     # TODO: Factorize with IncidenceAutomaton
     def add_edge(self, q: int, r: int) -> tuple:
-- 
2.43.0


From c5eec18f8363242cdcbc6b6b770e9d2fefd5574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 05/44] fix: Nfa edge descriptors must be hashable and match
 those returned by add_edge

---
 src/pybgl/nfa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 4637ce5..c2303b8 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -190,9 +190,9 @@ class Nfa(DirectedGraph):
             An iterator over the out-edges of ``u``.
         """
         return (
-            EdgeDescriptor(q, r, (a, n))
+            EdgeDescriptor(q, r, (a, min(s)))
             for (a, rn) in self.adjacencies.get(q, dict()).items()
-            for (r, n) in rn.items()
+            for (r, s) in rn.items()
         )
 
     def edges(self):
@@ -204,10 +204,10 @@ class Nfa(DirectedGraph):
             An iterator over the transitions.
         """
         return (
-            EdgeDescriptor(q, r, (a, n))
+            EdgeDescriptor(q, r, (a, min(s)))
             for (q, arn) in self.adjacencies.items()
             for (a, rn) in arn.items()
-            for (r, n) in rn.items()
+            for (r, s) in rn.items()
         )
 
     def alphabet(self) -> set:
-- 
2.43.0


From 2bcc3fe398278cab4ab0cbef7137335e77a4d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 06/44] fix: Nfa.remove_edge must drop symbols that no longer
 label any transition

---
 src/pybgl/nfa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index c2303b8..69a34c8 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -174,7 +174,10 @@ class Nfa(DirectedGraph):
         r = self.target(e)
         (a, n) = e.distinguisher
         try:
-            del self.adjacencies[q][a][r]
+            rn = self.adjacencies[q][a]
+            del rn[r]
+            if not rn:
+                del self.adjacencies[q][a]
         except KeyError:
             pass
 
-- 
2.43.0


From 5ff3a39df57853e4fbef5d3d48face22c7198a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 07/44] fix: automaton_copy must work without pmap_vertices and
 pmap_edges

---
 src/pybgl/automaton_copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton_copy.py b/src/pybgl/automaton_copy.py
index f1cfec5..36efcca 100644
--- a/src/pybgl/automaton_copy.py
+++ b/src/pybgl/automaton_copy.py
@@ -96,10 +96,10 @@ def automaton_copy(
 
     # Prepare the AutomatonCopyVisitor
     if not pmap_vertices:
-        map_vertices = dict()
+        map_vertices = defaultdict(None)
         pmap_vertices = make_assoc_property_map(map_vertices)
     if not pmap_edges:
-        map_edges = dict()
+        map_edges = defaultdict(None)
         pmap_edges = make_assoc_property_map(map_edges)
 
     vis = AutomatonCopyVisitor(
-- 
2.43.0


From 98a81962aeb25a656d6ace5be0079718304ccba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 08/44] fix: depth_first_search_graph must visit nothing when
 the set of sources is empty

---
 src/pybgl/depth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/depth_first_search.py b/src/pybgl/depth_first_search.py
index eebb8d8..ce5fa77 100644
--- a/src/pybgl/depth_first_search.py
+++ b/src/pybgl/depth_first_search.py
@@ -223,6 +223,6 @@ def depth_first_search_graph(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
-    for u in (sources if sources else g.vertices()):
+    for u in (sources if sources is not None else g.vertices()):
         if pmap_vcolor[u] == WHITE:
             depth_first_search(u, g, pmap_vcolor, vis, if_push)
-- 
2.43.0


From c2726cc86716c182d7eaa77b9680d5172235afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 09/44] fix: breadth_first_search functions must work with
 their default sources and visitor

---
 src/pybgl/breadth_first_search.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 02bc7e4..ff0a92e 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -168,7 +168,7 @@ def breadth_first_search_graph(
         if_push = (lambda e, g: True)
 
     stack = deque()
-    for s in sources:
+    for s in (sources if sources is not None else g.vertices()):
         pmap_vcolor[s] = GRAY
         vis.discover_vertex(s, g)
         stack.append(s)
@@ -231,6 +231,8 @@ def breadth_first_search(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
+    if vis is None:
+        vis = DefaultBreadthFirstSearchVisitor()
     for u in g.vertices():
         vis.initialize_vertex(u, g)
         pmap_vcolor[u] = WHITE
-- 
2.43.0


From 8c3001d16281d62ab52f638f9a6825d240b06474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 10/44] fix: graph_copy must copy each edge of an undirected
 graph once

---
 src/pybgl/graph_copy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pybgl/graph_copy.py b/src/pybgl/graph_copy.py
index 9cb3af1..9cac710 100644
--- a/src/pybgl/graph_copy.py
+++ b/src/pybgl/graph_copy.py
@@ -76,6 +76,7 @@ class DepthFirstSearchCopyVisitor(DepthFirstSearchExtractVisitor):
         self.pmap_vertices = pmap_vertices
         self.pmap_edges = pmap_edges
         self.dup_vertices = set()  # Needed to keep track of pmap_vertices
+        self.dup_edges = set()  # Undirected edges are examined twice
 
     def dup_vertex(self, u: int, g: Graph) -> int:
         """
@@ -100,6 +101,11 @@ class DepthFirstSearchCopyVisitor(DepthFirstSearchExtractVisitor):
         # Overloaded method
         u = g.source(e)
         v = g.target(e)
+        if not g.directed:
+            key = (min(u, v), max(u, v), e.distinguisher)
+            if key in self.dup_edges:
+                return
+            self.dup_edges.add(key)
         u_dup = self.pmap_vertices[u]
         v_dup = (
             self.pmap_vertices[v] if v in self.dup_vertices
-- 
2.43.0


From f4ba1885212c5aeaf9e0eb23a4a5f77f94a3bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 11/44] fix: parallel_breadth_first_search must pass g1 to
 finish_vertex and color its starting pairs

---
 src/pybgl/parallel_breadth_first_search.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index bde529e..e46e3ba 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -247,20 +247,22 @@ def parallel_breadth_first_search(
 
     if vis is None:
         vis = ParallelBreadthFirstSearchVisitor()
+    if not pmap_vcolor:
+        map_vcolor = defaultdict(int)
+        pmap_vcolor = make_assoc_property_map(map_vcolor)
+
     if source_pairs is None:
         q01 = g1.initial()
         q02 = g2.initial()
         stack.appendleft((q01, q02))
+        pmap_vcolor[(q01, q02)] = GRAY
         vis.start_vertex(q01, g1, q02, g2)
     else:
         for (s1, s2) in source_pairs:
             stack.appendleft((s1, s2))
+            pmap_vcolor[(s1, s2)] = GRAY
             vis.start_vertex(s1, g1, s2, g2)
 
-    if not pmap_vcolor:
-        map_vcolor = defaultdict(int)
-        pmap_vcolor = make_assoc_property_map(map_vcolor)
-
     if not if_push:
         if_push = (lambda e1, g1, e2, g2: True)
 
@@ -285,4 +287,4 @@ def parallel_breadth_first_search(
             else:
                 vis.black_target(e1, g1, e2, g2, a)
         pmap_vcolor[(q1, q2)] = BLACK
-        vis.finish_vertex(q1, g2, q2, g2)
+        vis.finish_vertex(q1, g1, q2, g2)
-- 
2.43.0


From f8f7481e65035808d032a7bfd7b4181a6fb829f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 12/44] fix: deterministic_intersection must follow transitions
 whose target is state 0

---
 src/pybgl/deterministic_intersection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 377b5db..3b3f95f 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -81,9 +81,9 @@ def deterministic_intersection(
         vis=vis,
         if_push=lambda e1, g1, e2, g2: (
             e1 is not None
-            and g1.target(e1)
+            and g1.target(e1) is not BOTTOM
             and e2 is not None
-            and g2.target(e2)
+            and g2.target(e2) is not BOTTOM
         )
     )
     return g12
-- 
2.43.0


From 00d69c3b68c09d3e0773491cd498603f7ff0d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 13/44] fix: deterministic_union and deterministic_intersection
 must create the initial state of the product

---
 src/pybgl/deterministic_intersection.py | 12 +++++++++++-
 src/pybgl/deterministic_union.py        |  7 ++++++-
 src/pybgl/product_mixin.py              |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 3b3f95f..c63bb89 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -30,6 +30,11 @@ class DeterministicIntersectionVisitor(
         """
         super().__init__(g12, lambda a, b: a and b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        # Overloaded method
+        if s1 is not BOTTOM and s2 is not BOTTOM:
+            self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
@@ -51,7 +56,12 @@ class DeterministicIntersectionVisitor(
                 of the intersection.
             a (str): The symbol that labels ``e1`` and ``e2``.
         """
-        if g1.target(e1) is not BOTTOM and g2.target(e2) is not BOTTOM:
+        if (
+            e1 is not None
+            and e2 is not None
+            and g1.target(e1) is not BOTTOM
+            and g2.target(e2) is not BOTTOM
+        ):
             self.add_product_edge(e1, g1, e2, g2)
 
 
diff --git a/src/pybgl/deterministic_union.py b/src/pybgl/deterministic_union.py
index 73e0d85..cae33c8 100644
--- a/src/pybgl/deterministic_union.py
+++ b/src/pybgl/deterministic_union.py
@@ -4,7 +4,7 @@
 # This file is part of the pybgl project.
 # https://github.com/nokia/pybgl
 
-from .automaton import Automaton, EdgeDescriptor
+from .automaton import BOTTOM, Automaton, EdgeDescriptor
 from .parallel_breadth_first_search import (
     ParallelBreadthFirstSearchVisitor,
     parallel_breadth_first_search,
@@ -30,6 +30,11 @@ class DeterministicUnionVisitor(
         """
         super().__init__(g12, lambda a, b: a or b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        # Overloaded method
+        if s1 is not BOTTOM or s2 is not BOTTOM:
+            self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 894f68d..165c110 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -52,7 +52,7 @@ class ProductMixin:
             i.e. ``self.g12``.
         """
         q12 = self.g12.add_vertex()
-        if self.operator(g1.is_initial(q1), g2.is_initial(q2)):
+        if g1.is_initial(q1) and g2.is_initial(q2):
             self.g12.set_initial(q12)
         if self.operator(g1.is_final(q1), g2.is_final(q2)):
             self.g12.set_final(q12)
-- 
2.43.0


From 2dba012f5af76bf49de630e4666ea6995903c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 14/44] fix: the label of a product transition must come from
 an operand that has this transition

---
 src/pybgl/product_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 165c110..a810157 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -83,14 +83,16 @@ class ProductMixin:
         if e1:
             q1 = g1.source(e1)
             r1 = g1.target(e1)
-            a = g1.label(e1)
+            if r1 is not BOTTOM:
+                a = g1.label(e1)
         else:
             q1 = r1 = BOTTOM
 
         if e2:
             q2 = g2.source(e2)
             r2 = g2.target(e2)
-            a = g2.label(e2)
+            if r2 is not BOTTOM:
+                a = g2.label(e2)
         else:
             q2 = r2 = BOTTOM
 
-- 
2.43.0


From 2d9f88b14ec8ec3aab3d2d290e663ae78c113913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 15/44] fix: hopcroft_minimize must cope with automata whose
 states are all final or all non-final

---
 src/pybgl/hopcroft_minimize.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pybgl/hopcroft_minimize.py b/src/pybgl/hopcroft_minimize.py
index 85564c5..62e15a9 100644
--- a/src/pybgl/hopcroft_minimize.py
+++ b/src/pybgl/hopcroft_minimize.py
@@ -24,18 +24,15 @@ def hopcroft_agglomerate_states(g: IncidenceAutomaton) -> set:
         to a group of agglomerated states.
     """
     def union(sets) -> set:
-        return reduce(lambda a, b: a | b, sets)
+        return reduce(lambda a, b: a | b, sets, frozenset())
 
     g_alphabet = g.alphabet()
     final_states = {q for q in g.vertices() if g.is_final(q)}
     aggregated_states = {
         frozenset(final_states),
         frozenset(g.vertices()) - final_states
-    }
-    waiting_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
-    }
+    } - {frozenset()}
+    waiting_states = set(aggregated_states)
     while waiting_states != set():
         current_states = waiting_states.pop()
         for a in g_alphabet:
-- 
2.43.0


From 00596f0b2480da0669fe762bd5b8685eced82cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 16/44] fix: revuz_minimize must keep an initial state when
 merging it into an equivalent state

---
 src/pybgl/revuz_minimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pybgl/revuz_minimize.py b/src/pybgl/revuz_minimize.py
index 9af7c89..7052442 100644
--- a/src/pybgl/revuz_minimize.py
+++ b/src/pybgl/revuz_minimize.py
@@ -233,6 +233,9 @@ def revuz_minimize(
                     p = g.source(e2)
                     _move_edge(e2, p, q1)
 
+                if g.is_initial(q2):
+                    g.set_initial(q1)
+
                 # Remove q2, which is now isolated
                 vis.remove_vertex(q2, g)
                 g.remove_vertex(q2)
-- 
2.43.0


From 47254bb20c880f7c1fecbc9a6ba910b98ef96f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 17/44] fix: topological_sort must fill the deque it is given
 even if it is empty

---
 src/pybgl/topological_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/topological_sort.py b/src/pybgl/topological_sort.py
index 928fe83..4539ee2 100644
--- a/src/pybgl/topological_sort.py
+++ b/src/pybgl/topological_sort.py
@@ -50,7 +50,7 @@ def topological_sort(g: DirectedGraph, stack: deque = None) -> deque:
     Returns:
         The stack containing the vertices, sorted by topological order.
     """
-    stack = stack if stack else deque()
+    stack = stack if stack is not None else deque()
     depth_first_search_graph(
         g,
         pmap_vcolor=make_assoc_property_map(defaultdict(int)),
-- 
2.43.0


From 93cef7bf7e3da3c86e2a872133512d9cc6b24880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 18/44] fix: GraphView difference must not reveal edges that
 are not in the left operand

---
 src/pybgl/graph_view.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 18fc175..1213f47 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -114,10 +114,11 @@ class GraphView:
             ),
             make_func_property_map(
                 lambda e: (
-                    self.pmap_erelevant[e] and
-                    not gv.pmap_erelevant[e] or (
-                        not gv.pmap_vrelevant[self.source(e)] and
-                        not gv.pmap_vrelevant[self.target(e)]
+                    self.pmap_erelevant[e] and (
+                        not gv.pmap_erelevant[e] or (
+                            not gv.pmap_vrelevant[self.source(e)] and
+                            not gv.pmap_vrelevant[self.target(e)]
+                        )
                     )
                 )
             )
-- 
2.43.0


From b2ead0a3876bff49d2fd987e9838de704fe53274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 19/44] fix: GraphView.has_vertex and has_edge must consider
 the view

---
 src/pybgl/graph_view.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 1213f47..e639d43 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -222,6 +222,28 @@ class GraphView:
         """
         return __len_gen__(self.in_edges(u))
 
+    def has_vertex(self) -> bool:
+        """
+        Tests if this :py:class:`GraphView` instance has at least one
+        (relevant) vertex.
+
+        Returns:
+            ``True`` if the view has at least one vertex,
+            ``False`` otherwise.
+        """
+        return any(True for _ in self.vertices())
+
+    def has_edge(self) -> bool:
+        """
+        Tests if this :py:class:`GraphView` instance has at least one
+        (relevant) edge.
+
+        Returns:
+            ``True`` if the view has at least one edge,
+            ``False`` otherwise.
+        """
+        return any(True for _ in self.edges())
+
     def num_vertices(self) -> int:
         """
         Counts the number of relevant vertices involved in this
-- 
2.43.0


From e8baa2229d3590b14b1b836ebfc1c22cc8a28026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 20/44] fix: AggregatedVisitor must forward keyword arguments

---
 src/pybgl/aggregated_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/aggregated_visitor.py b/src/pybgl/aggregated_visitor.py
index 9bbdc66..1c28389 100644
--- a/src/pybgl/aggregated_visitor.py
+++ b/src/pybgl/aggregated_visitor.py
@@ -29,7 +29,7 @@ class AggregatedVisitor:
         """
         def wrapper(*args, **kwargs):
             for vis in self.visitors:
-                getattr(vis, method_name)(*args)
+                getattr(vis, method_name)(*args, **kwargs)
         return wrapper
 
     @staticmethod
-- 
2.43.0


From 74e5eeb21770ec24545414a048e36b89cb6bf6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 21/44] fix: slices and make_suffix_trie must honour max_len=0

---
 src/pybgl/suffix_trie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/suffix_trie.py b/src/pybgl/suffix_trie.py
index f673cbf..1c89a88 100644
--- a/src/pybgl/suffix_trie.py
+++ b/src/pybgl/suffix_trie.py
@@ -33,7 +33,7 @@ def slices(n, max_len: int = None) -> iter:
             for i in range(n)
             for j in range(
                 i + 1,
-                min(n, i + max_len) + 1 if max_len else n + 1
+                min(n, i + max_len) + 1 if max_len is not None else n + 1
             )
         )
     )
@@ -90,7 +90,7 @@ def make_suffix_trie(w: str = "", max_len: int = None, g: Trie = None) -> Trie:
     n = len(w)
     for i in range(n):
         q = g.initial()
-        for j in range(i, min(n, i + max_len) if max_len else n):
+        for j in range(i, min(n, i + max_len) if max_len is not None else n):
             a = w[j]
             r = g.delta(q, a)
             if r is BOTTOM:
-- 
2.43.0


From 06abd81e255a2ac871db5ef60cc85777713f73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 22/44] fix: RpnDequeAlg must support the unary plus operator

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 16e3bd6..3cfb9a8 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -742,7 +742,7 @@ class RpnDequeAlg(RpnDequeOperation):
             return x ** y
         elif a == "u-":
             return -x
-        elif a == "u-":
+        elif a == "u+":
             return x
         else:
             raise ValueError(f"Unsupported operator '{a}'")
-- 
2.43.0


From ee575336e7e96944d1e7926e01f227c4f704e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 23/44] fix: shunting_yard_compute must support tokenize=False

---
 src/pybgl/shunting_yard_postfix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 3cfb9a8..8b88e37 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -775,10 +775,9 @@ def shunting_yard_compute(
     Returns:
         The output ``float`` result.
     """
-    if tokenize:
-        output = RpnDequeAlg(map_operators=map_operators)
+    output = RpnDequeAlg(map_operators=map_operators)
     ret = shunting_yard_postfix(
-        tokenizer_alg(expression),
+        tokenizer_alg(expression) if tokenize else expression,
         map_operators,
         output,
         vis
-- 
2.43.0


From 1c3f76e33d0fb41ffea2ac94a24650a8346d5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 24/44] fix: shunting_yard_postfix must not apply pending
 operators before a prefix operator

---
 src/pybgl/shunting_yard_postfix.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 8b88e37..4736f8a 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -347,6 +347,17 @@ def shunting_yard_postfix(
             )
         )
 
+    def is_prefix(o: str) -> bool:
+        """
+        Tests whether an operator is a prefix operator, e.g. the unary minus
+        (the unary operators involved in regular expressions, e.g. ``*``,
+        are postfix and left associative).
+        """
+        return (
+            map_operators[o].cardinality == 1 and
+            map_operators[o].associativity == RIGHT
+        )
+
     def pop_operator() -> str:
         """
         Pops an operator from the input queue.
@@ -389,6 +400,7 @@ def shunting_yard_postfix(
             while (
                 operators
                 and operators[-1] in map_operators.keys()
+                and not is_prefix(a)
                 and preceeds(operators[-1], a)
             ):
                 op = pop_operator()
-- 
2.43.0


From 6f197a72b451e19a1512fa858304058d1874b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 25/44] fix: Ast.to_expr must work and shunting_yard_ast must
 set the root of its Ast

---
 src/pybgl/shunting_yard_postfix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 4736f8a..bea7bd1 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -596,14 +596,14 @@ class Ast(DirectedGraph):
             if d == 0:
                 return a
             elif d == 1:
-                child = self.children(u)[0]
+                child = next(self.children(u))
                 return f"({to_expr_rec(child)}){a}"
             else:
                 return "(%s)" % a.join(
                     to_expr_rec(child)
                     for child in self.children(u)
                 )
-        if self.root:
+        if self.root is None:
             raise RuntimeError("self.root is not initialized")
         return to_expr_rec(self.root)
 
@@ -689,6 +689,7 @@ def shunting_yard_ast(
     ret = shunting_yard_postfix(expression, map_operators, output, vis)
     assert len(ret) == 1
     root = ret.pop()
+    ast.root = root
     return (ast, root)
 
 
-- 
2.43.0


From b4ae497056b10bf3847511cfc6ea9b9860a8dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 26/44] fix: Thompson's ? operator must not be applied in place
 (unsound on automata with loops)

---
 src/pybgl/thompson_compile_nfa.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 489458d..42273ab 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -196,8 +196,15 @@ def zero_or_one(nfa: Nfa, q0: int, f: int) -> tuple:
         ``f`` is its initial state.
     """
     eps = nfa.epsilon
-    nfa.add_edge(q0, f, eps)
-    return (nfa, q0, f)
+    new_q0 = nfa.add_vertex()
+    new_f = nfa.add_vertex()
+    nfa.add_edge(new_q0, q0, eps)
+    nfa.add_edge(f, new_f, eps)
+    nfa.add_edge(new_q0, new_f, eps)
+    nfa.set_initials({new_q0})
+    nfa.set_final(f, False)
+    nfa.set_final(new_f, True)
+    return (nfa, new_q0, new_f)
 
 
 def zero_or_more(nfa: Nfa, q0: int, f: int) -> tuple:
-- 
2.43.0


From 89f25402c0ddc1ce564a9ee4751296647d0467e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 27/44] fix: repetition_range must return the initial state of
 its NFA and use a fresh final state

---
 src/pybgl/thompson_compile_nfa.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 42273ab..6768edd 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -334,7 +334,9 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         return concatenation(nfa1, q01, f1, nfa2, q02, f2)
     else:
         (q0_ori, f_ori, ori) = (q0, f, copy.deepcopy(nfa))
-        (nfa, _, f) = repetition(nfa, q0, f, m)
+        (nfa, q0, f) = repetition(nfa, q0, f, m)
+        if n == m:
+            return (nfa, q0, f)
         final_states = {f}
         # The m-n following NFA instances are optional. We add them
         # one by one to get their respective final states to build an
@@ -342,11 +344,14 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         for i in range(n - m):
             (nfa, q0, f) = concatenation(nfa, q0, f, ori, q0_ori, f_ori)
             final_states.add(f)
+        # This final state must be fresh, because f may have out-transitions.
         eps = nfa.epsilon
+        new_f = nfa.add_vertex()
         for pred_f in final_states:
-            if pred_f != f:
-                nfa.add_edge(pred_f, f, eps)
-        return (nfa, q0, f)
+            nfa.add_edge(pred_f, new_f, eps)
+        nfa.set_final(f, False)
+        nfa.set_final(new_f, True)
+        return (nfa, q0, new_f)
 
 
 def bracket(chars: iter) -> tuple:
-- 
2.43.0


From e3f0b334380e1ad64f3a273e64983670f8ec08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 28/44] fix: regexps must support the documented {,m}
 repetition

---
 src/pybgl/shunting_yard_postfix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index bea7bd1..9a714f2 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -149,6 +149,7 @@ RE_OPERATORS_RE = [
 ] + [
     # Extra repetition operators
     "\\{\\s*\\d+(\\s*,)?(\\s*\\d+)?\\s*\\}",
+    "\\{\\s*,\\s*\\d*\\s*\\}",
     # Character classes
     # "\\[.*\\]",
     '\\[([^]])*\\]',
-- 
2.43.0


From 86fdc1c4e4de1846c9abaa85fa24d9ce19b1cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 29/44] fix: regexps must support every escape sequence issued
 by re_escape

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 9a714f2..fb119bd 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -154,7 +154,7 @@ RE_OPERATORS_RE = [
     # "\\[.*\\]",
     '\\[([^]])*\\]',
     # Escape sequences (not exhaustive)
-    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}])",
+    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}^$\\\\])",
 ]
 
 
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 6768edd..90dc769 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -510,7 +510,8 @@ def parse_escaped(s: str, whole_alphabet: iter = None) -> set:
     if len(s) == 2:
         if s in {
             r"\+", r"\*", r"\?", r"\.", r"\|",
-            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}"
+            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}",
+            r"\^", r"\$", "\\\\"
         }:
             return {s[1]}
         elif s in {r"\A", r"\B", r"\Z"}:
-- 
2.43.0


From c1be8b99fd61a5a9f4235d638ca1ff6c3d336579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 30/44] fix: parse_bracket must treat a trailing - and a -
 following a range or an escape as a literal

---
 src/pybgl/thompson_compile_nfa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 90dc769..e399268 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -452,7 +452,7 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
 
     while i < imax - 1:
         a = s[i]
-        if a == "-" and last_non_hat:
+        if a == "-" and last_non_hat and i + 1 < imax - 1:
             m = ord(last_non_hat)
             n = ord(s[i + 1])
             if m > n:
@@ -462,13 +462,15 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
             for c in range(m, n + 1):
                 accepted.add(chr(c))
             i += 1
+            last_non_hat = None
         else:
             if a == "\\":
                 accepted |= parse_escaped(s[i:i+2])
                 i += 1
+                last_non_hat = None
             else:
                 accepted.add(a)
-        last_non_hat = a
+                last_non_hat = a
         i += 1
     return accepted if not reverse else set(whole_alphabet) - accepted
 
-- 
2.43.0


From 5811add99581aae52fac709cd02d8f34488b0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 31/44] fix: make_shortest_path must not loop forever when some
 cycles are neutral

---
 src/pybgl/dijkstra_shortest_paths.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 2abb979..93ef4a6 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -5,7 +5,7 @@
 # https://github.com/nokia/pybgl
 
 import sys
-from collections import defaultdict
+from collections import defaultdict, deque
 from .algebra import BinaryRelation, BinaryOperator, Less, ClosedPlus
 from .aggregated_visitor import AggregatedVisitor
 from .graph import Graph, EdgeDescriptor
@@ -357,12 +357,23 @@ def make_shortest_path(
         this function returns an arbitrary shortest path.
     """
 # USELESS |    arcs = make_dag(g, s, t, pmap_vpreds, single_path=True)
-    u = t
+    # Following arbitrary predecessors may loop if some cycles are neutral
+    # (e.g., null weights), hence this breadth-first search from t to s.
+    map_next = {t: None}
+    to_process = deque([t])
+    while s not in map_next:
+        v = to_process.popleft()
+        for e in pmap_vpreds[v]:
+            u = g.source(e)
+            if u not in map_next:
+                map_next[u] = e
+                to_process.append(u)
     path = list()
-    while u != s:
-        e = list(pmap_vpreds[u])[0]
-        path.insert(0, e)
-        u = g.source(e)
+    u = s
+    while u != t:
+        e = map_next[u]
+        path.append(e)
+        u = g.target(e)
     return path
 
 
-- 
2.43.0


From ca546bb194180f5930f9a36a9d6a4f7feeb70c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 32/44] fix: make_shortest_paths_dag(single_path=True) must
 return a path when some cycles are neutral

---
 src/pybgl/dijkstra_shortest_paths.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 93ef4a6..d1673bb 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -318,13 +318,16 @@ def make_shortest_paths_dag(
     Returns:
         The corresponding set of arcs.
     """
+    if single_path:
+        return (
+            set(make_shortest_path(g, s, t, pmap_vpreds)) if pmap_vpreds[t]
+            else set()
+        )
     kept_edges = set()
     to_process = {t}
     done = set()
     while to_process:
         es = {e for u in to_process if pmap_vpreds[u] for e in pmap_vpreds[u]}
-        if single_path and es:
-            es = {es.pop()}
         kept_edges |= es
         predecessors = {g.source(e) for e in es if e not in done}
         done |= to_process
-- 
2.43.0


From e2e80ef7b13b4010c533aeb0f0a14060409e2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 33/44] fix: GraphDp.get_dpe must return the edge property maps

---
 src/pybgl/graph_dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 5066e9f..3d50d13 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -73,7 +73,7 @@ class GraphDp:
         return self.dpv
 
     def get_dpe(self) -> dict:
-        return self.dpve
+        return self.dpe
 
     def get_dg(self) -> dict:
         return self.dg
-- 
2.43.0


From b17a9592766adf1ed406672fd2557654647ece21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 34/44] fix: GraphDp.to_dot must support extra_style

---
 src/pybgl/graph_dp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 3d50d13..ac9ec8d 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -97,7 +97,11 @@ class GraphDp:
         kwargs = enrich_kwargs(self.dg, "dg", **kwargs)
         kwargs = enrich_kwargs(self.dv, "dv", **kwargs)
         kwargs = enrich_kwargs(self.de, "de", **kwargs)
-        kwargs = enrich_kwargs(self.extra_style, "extra_style", **kwargs)
+        if self.extra_style and kwargs.get("extra_style") is None:
+            kwargs["extra_style"] = (
+                self.extra_style if isinstance(self.extra_style, str)
+                else ";\n  ".join(self.extra_style)
+            )
         return to_dot(self.g, **kwargs)
 
     # TODO GraphView
-- 
2.43.0


From ce8dd3898dd17e4e5dd1a868119ee79aaab01556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 35/44] fix: GraphDp.to_json must escape the attributes

---
 src/pybgl/graph_dp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index ac9ec8d..f44612e 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -5,6 +5,7 @@
 # https://github.com/nokia/pybgl
 
 from copy import copy
+from json import dumps
 from .graph import Graph
 from .graphviz import GraphvizStyle, enrich_kwargs, graphviz_type, to_dot
 
@@ -130,7 +131,7 @@ class GraphDp:
                     JSON_NODE_FORMAT % {
                         "id": u,
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[u])
+                            "%s: %s" % (dumps(k), dumps(str(pmap[u])))
                             for k, pmap in self.dpv.items()
                         ]),
                         "sep": "," if self.dpv else "",
@@ -141,7 +142,7 @@ class GraphDp:
                         "source": self.g.source(e),
                         "target": self.g.target(e),
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[e])
+                            "%s: %s" % (dumps(k), dumps(str(pmap[e])))
                             for k, pmap in self.dpe.items()
                         ]),
                         "sep": "," if self.dpe else "",
-- 
2.43.0


From 9afca4e95fdce33dd6a6fea84f421617afb66f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 36/44] fix: enrich_kwargs must not alter the dictionaries
 passed by the caller

---
 src/pybgl/graphviz_impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index e4417e4..8b4a68c 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -351,8 +351,7 @@ def enrich_kwargs(default_d: dict, key: str, **kwargs) -> dict:
         The updated ``**kwargs``.
     """
     if default_d:
-        if key not in kwargs:
-            kwargs[key] = dict()
+        kwargs[key] = dict(kwargs.get(key) or dict())
         for (k, v) in default_d.items():
             if k not in kwargs[key].keys():
                 kwargs[key][k] = v
-- 
2.43.0


From 86b825447aa1308d01c1ce7d3f9df33f3d2683c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 37/44] fix: read_graphviz must read the edges of undirected
 graphs

---
 src/pybgl/graphviz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index c5979c1..0378727 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -106,7 +106,7 @@ class ReadGraphvizVisitor(GraphvizVisitor):
 
 PATTERN_SPACE = "\\s*"
 PATTERN_VERTEX_ID = "([0-9]+)"
-PATTERN_EDGE_CONNECTOR = "->"  # TODO manage -- for undirected graphs
+PATTERN_EDGE_CONNECTOR = "-[->]"
 PATTERN_OPTS = "(\\[(.*)\\])?"
 PATTERN_LINE_VERTEX = PATTERN_SPACE.join(
     [PATTERN_VERTEX_ID, PATTERN_OPTS, ";"]
-- 
2.43.0


From 6ee32b093bb3f6d697f63d88ed42d18d53369cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 38/44] fix: read_graphviz_dp must work and ignore attributes
 without property map

---
 src/pybgl/graphviz.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 0378727..8664180 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -176,18 +176,18 @@ class ReadGraphvizDpVisitor(ReadGraphvizVisitor):
     Graphviz file.
     """
     def __init__(self, g, dpv: dict, dpe: dict):
-        super().__init__(g)
+        super().__init__()
         self.dpv = dpv
         self.dpe = dpe
 
     def on_install_vertex_property(self, u, g, key, value):
-        pmap = self.dpv[key] if self.dpv else None
-        if pmap:
+        pmap = self.dpv.get(key) if self.dpv else None
+        if pmap is not None:
             pmap[u] = value
 
     def on_install_edge_property(self, e, g, key, value):
-        pmap = self.dpe[key] if self.dpe else None
-        if pmap:
+        pmap = self.dpe.get(key) if self.dpe else None
+        if pmap is not None:
             pmap[e] = value
 
 
-- 
2.43.0


From 833700ea14de62291c4ba8abdb4406ec2f3845df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 39/44] fix: GraphvizOptsParser must parse the attributes
 issued by to_dot

---
 src/pybgl/graphviz.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 8664180..9455708 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -6,7 +6,7 @@
 
 import re
 import sys
-from html.parser import HTMLParser
+from html import unescape
 from subprocess import Popen, PIPE
 from .graph import Graph, EdgeDescriptor
 from .graphviz_impl import *
@@ -16,26 +16,27 @@ from .graphviz_impl import *
 # Graphviz read
 # ------------------------------------------------------------------
 
-class GraphvizOptsParser(HTMLParser):
+RE_GRAPHVIZ_OPT = re.compile(
+    r"(\w+)\s*=\s*"
+    r"(?:\"([^\"]*)\"|'([^']*)'|<(.*?)>(?=\s*(?:[;,]|$))|([^\s;,]+))"
+)
+
+
+class GraphvizOptsParser:
     """
     The :py:class:`GraphvizOptsVisitor` is
-    used to parse HTML content related to a vertex or an edge.
+    used to parse the attributes related to a vertex or an edge.
     """
     def __init__(self):
         """
         Constructor.
         """
-        super().__init__()
         self.d = dict()
 
-    def handle_starttag(self, tag, attrs):
-        for (k, v) in attrs:
-            self.d[k] = v
-
     def feed(self, graphviz_opts):
         if graphviz_opts:
-            graphviz_opts = "<fake_tag " + graphviz_opts[1:-1] + ">"
-            super().feed(graphviz_opts)
+            for m in RE_GRAPHVIZ_OPT.finditer(graphviz_opts[1:-1]):
+                self.d[m.group(1)] = unescape(m.group(m.lastindex))
 
     def items(self):
         return self.d.items()
-- 
2.43.0


From 05a7af474d55af043ccdfcf60af903ecad748e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 40/44] fix: write_graphviz must support svg and binary formats

---
 src/pybgl/graphviz.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 9455708..311e1ba 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -312,24 +312,15 @@ def write_graphviz(
     Returns:
         True iff successful.
     """
-    def write_graphviz_impl(
-        s_dot: str,
-        f,
-        format: str = "svg",
-        engine: str = "dot"
-    ) -> bool:
-        ret = False
-        bytes_img = run_graphviz(s_dot, engine, format)
-        if bytes_img:
-            print(bytes_img.decode("utf-8"), file=f)
-            ret = True
-        return ret
-
+    img = run_graphviz(s_dot, engine, format)
+    if not img:
+        return False
     if isinstance(filename, str):
-        with open(filename, "w") as f:
-            return write_graphviz_impl(s_dot, f, format, engine)
+        with open(filename, "wb") as f:
+            f.write(img.encode("utf-8") if isinstance(img, str) else img)
     else:
-        return write_graphviz_impl(s_dot, filename, format, engine)
+        print(img if isinstance(img, str) else img.decode("utf-8"), file=filename)
+    return True
 
 
 def dotstr_to_html(s_dot: str, engine: str = "dot") -> str:
-- 
2.43.0


From d29263c9cc791502c384672e1702da18284ae026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 41/44] fix: an empty label must result in a valid Graphviz
 string

---
 src/pybgl/graphviz_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index 8b4a68c..4e7e7b9 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -220,7 +220,7 @@ def graphviz_properties_to_str(x: object, dpx: dict) -> str:
         The resulting Graphviz string.
     """
     return "[%s]" % "; ".join([
-        f"{k}=\"{pmap[x]}\"" if k != "label"
+        f"{k}=\"{pmap[x]}\"" if k != "label" or not str(pmap[x])
         else f"{k}=<{graphviz_escape_html(str(pmap[x]))}>"
         for (k, pmap) in dpx.items()
         if pmap[x] is not None
-- 
2.43.0


From daa2c17a5e4f3e70edf87160cc784a993c816b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 42/44] fix: removing a transition that is not in the automaton
 must not remove another one

---
 src/pybgl/automaton.py      | 2 +-
 src/pybgl/node_automaton.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 27a7d1b..15c591a 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -163,7 +163,7 @@ class Automaton(DirectedGraph):
         a = self.label(e)
         adj_q = self.adjacencies.get(q)
         if adj_q:
-            if a in adj_q.keys():
+            if a in adj_q.keys() and adj_q[a] == self.target(e):
                 del adj_q[a]
 
     def sigma(self, q: int) -> set:
diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 3e15ca8..4f11c68 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -161,7 +161,7 @@ class NodeAutomaton(Automaton):
         a = self.symbol(r)
         adj_q = self.adjacencies.get(q)
         if adj_q:
-            if a in adj_q:
+            if a in adj_q and adj_q[a] == r:
                 del adj_q[a]
 
     def sigma(self, q: int) -> set:
-- 
2.43.0


From ab3f931e649f71f850f01ef02912a6a44682a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 43/44] fix: repetition keeps the epsilon symbol of the NFA it
 repeats zero times

repetition(nfa, q0, f, 0) returned an automaton with the default epsilon
symbol; repetition_range then wired it to copies of nfa whose own epsilon
transitions became ordinary symbols.
---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index e399268..5c17a1b 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -287,7 +287,7 @@ def repetition(nfa: Nfa, q0: int, f: int, m: int) -> tuple:
     """
     assert m >= 0
     if m == 0:
-        nfa = Nfa(1)
+        nfa = Nfa(1, epsilon=nfa.epsilon)
         nfa.set_final(0)
         (nfa, q0, f) = (nfa, 0, 0)
     elif m > 1:
-- 
2.43.0


From af4391a1f0be6b2e19ec2ef340eb3570adc0331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 44/44] fix: GraphvizStyle leaves no empty statement behind
 when a style is empty

---
 src/pybgl/graphviz_impl.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index 4e7e7b9..bbc89f7 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -103,13 +103,12 @@ class GraphvizStyle(metaclass=Singleton):
         Returns:
             The corresponding string.
         """
-        return "; ".join(
-            [
-                GraphvizStyle.attributes_to_dot("graph", GraphvizStyle.graph),
-                GraphvizStyle.attributes_to_dot("node", GraphvizStyle.node),
-                GraphvizStyle.attributes_to_dot("edge", GraphvizStyle.edge)
-            ] + GraphvizStyle.extra_style
-        )
+        statements = [
+            GraphvizStyle.attributes_to_dot("graph", GraphvizStyle.graph),
+            GraphvizStyle.attributes_to_dot("node", GraphvizStyle.node),
+            GraphvizStyle.attributes_to_dot("edge", GraphvizStyle.edge)
+        ] + GraphvizStyle.extra_style
+        return "; ".join(s for s in statements if s)
 
 
 # ------------------------------------------------------------------
-- 
2.43.0

