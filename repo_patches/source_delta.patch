From be4745b5f85788aeb9f3aabbca6d497c01ab567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 01/48] fix: traversals no longer need the removed
 asyncio.coroutine

Every hierarchical and hypergraph traversal raised AttributeError on
Python 3.11+, where asyncio.coroutine does not exist.
---
 .../rei/foundations/hierarchical_traversal_strategies.py  | 6 +++---
 .../rei/foundations/hypergraph_traversal_strategies.py    | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 3d70877..186c037 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -26,7 +26,7 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
-            _task_list.append(asyncio.coroutine(self._visitor_func(start)))
+            _task_list.append(self._visitor_func(start))
         return _fringe, _task_list
 
     async def _fill_visit_fringe(self, current_node, _fringe: asyncio.Queue, current_depth: int = 0):
@@ -39,8 +39,8 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         if not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
-            # Add coroutine (TODO: seek for another solution to create coroutines)
-            _task_list.append(asyncio.coroutine(self._visitor_func(_next)))
+            # Visit the element (a coroutine visitor yields its coroutine as a task)
+            _task_list.append(self._visitor_func(_next))
             await self._traverse(_fringe, _task_list)
 
 
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 07f1851..880b7ea 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -47,16 +47,16 @@ class HypergraphTraversal(GraphVisitor):
 
     def __fill_relations(self, weight, endpoint_id, edge_id, norm_weight, el, task_list: list):
         if weight[0] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
         if weight[1] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-- 
2.43.0


From 9cb2458e3e9d4e4eeea4dde6f1902fe48b2e6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 02/48] fix: allocate the tensors without the removed np.float
 alias

---
 framework_python/rei/tensor/tensor_representation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index 0de4167..c9f91ce 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -71,9 +71,9 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
             if self._incidence_matrix_in is not None:
                 del self._incidence_matrix_in
             ho = self._current_homomorphism
-            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
+            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=float)
+            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
+            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
 
     def fill_tensors(self, i_e, i_n0, i_n1, i_w, val):
         self._weight_tensor[i_e, i_n1, i_n0] = i_w
-- 
2.43.0


From 79ddf4e3039370b7626792a5e7b0b80752a1afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 03/48] fix: execute queries on Python 3.11+, with no match,
 and more than once

asyncio.wait refuses coroutines since Python 3.11 and refuses an empty
collection always; a second execution awaited the consumed coroutines of
the first one.
---
 framework_python/rei/query/query_engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index ab51e61..8052f48 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -27,6 +27,8 @@ class HierarchicalPrepositionQuery(GraphMonad):
                                                                             HypergraphEdge | SemanticValueNode) and traversal_statement(x))
 
     async def prefilter(self):
+        # The tasks of an earlier execution are already consumed
+        self.__prefilter = []
         await self.__bfs.execute(self.__start)
         return self.__prefilter
 
@@ -76,7 +78,7 @@ class HypergraphQueryEngine(HypergraphNode):
         prefilter = self.prefilter_queries()
         for i in prefilter:
             __tasks.extend(await i)
-        await asyncio.wait(__tasks)
+        await asyncio.gather(*__tasks)
         res = []
         __task_list = await self.task_result_queries_lists()
         for t in __task_list:
@@ -89,7 +91,8 @@ class HypergraphQueryEngine(HypergraphNode):
         tasks = []
         for i in self.prefilter_queries():
             tasks.extend(loop.run_until_complete(i))
-        loop.run_until_complete(asyncio.wait(tasks))
+        for t in tasks:
+            loop.run_until_complete(t)
         results = []
         for i in self.__queries.values():
             results.extend(loop.run_until_complete(i.get_list_results()))
-- 
2.43.0


From 6b6636e41c25a89ad887ef05147e1d76913e6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 04/48] fix: give every traversal its own fringe

The fringe was a copy of a queue created once as a default argument;
copy.copy shares the underlying deque, so what a visit left behind when
its visitor raised was visited by the next one, on any graph.
---
 .../rei/foundations/hierarchical_traversal_strategies.py   | 7 +++----
 .../rei/foundations/hypergraph_traversal_strategies.py     | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 186c037..cc90de3 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -2,7 +2,6 @@ import asyncio
 import math
 
 import typing
-import copy
 from abc import ABC
 
 from rei.foundations.graph_monad import GraphVisitor
@@ -19,10 +18,10 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         self._ignore_root = ignore_root
 
     async def _setup_visit_algorithm(self, start: typing.Any,
-                                     fringe: asyncio.Queue = asyncio.Queue()) \
+                                     fringe: asyncio.Queue | None = None) \
             -> tuple[asyncio.Queue | asyncio.LifoQueue, list]:
-        # Fringe setup
-        _fringe = copy.copy(fringe)
+        # Fringe setup (each visit has its own fringe)
+        _fringe = asyncio.Queue() if fringe is None else fringe
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 880b7ea..c4d803d 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -1,5 +1,4 @@
 import asyncio
-import copy
 import math
 import typing
 
@@ -100,8 +99,9 @@ class HypergraphTraversal(GraphVisitor):
                         _fringe.task_done()
             await self._traverse(_fringe, _task_list)
 
-    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue = asyncio.Queue()):
-        _fringe = copy.copy(fringe)
+    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue | None = None):
+        # Each visit has its own fringe
+        _fringe = asyncio.Queue() if fringe is None else fringe
         await _fringe.put((start, 0))
         _fringe.task_done()
         # Task list
-- 
2.43.0


From 77bb0492bd23cbd92a46661581ef6d5da6def3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 05/48] fix: visit graphs of any size without recursion

Each visited element took a stack frame, so a graph of some 500 elements
ended every traversal, search and factorization in RecursionError.
---
 .../rei/foundations/hierarchical_traversal_strategies.py    | 3 +--
 .../rei/foundations/hypergraph_traversal_strategies.py      | 3 +--
 framework_python/rei/foundations/query/search_elements.py   | 6 ++----
 framework_python/rei/hypergraph/factorization_operations.py | 5 +----
 4 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index cc90de3..4aa7184 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -35,12 +35,11 @@ class HierarchicalTraversal(GraphVisitor, ABC):
                 _fringe.task_done()
 
     async def _traverse(self, _fringe, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
             # Visit the element (a coroutine visitor yields its coroutine as a task)
             _task_list.append(self._visitor_func(_next))
-            await self._traverse(_fringe, _task_list)
 
 
 class BreadthFirstHierarchicalTraversal(HierarchicalTraversal):
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index c4d803d..8321df5 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -59,7 +59,7 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
             match _next:
                 case HypergraphNode():
@@ -97,7 +97,6 @@ class HypergraphTraversal(GraphVisitor):
                     if __current_depth + 1 < self.max_depth:
                         await _fringe.put((_next.endpoint, __current_depth + 1))
                         _fringe.task_done()
-            await self._traverse(_fringe, _task_list)
 
     async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue | None = None):
         # Each visit has its own fringe
diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 6b07a85..888defe 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -54,7 +54,7 @@ class QuerySearchSubElement(GraphQuery):
         super().__init__()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             if __next.qualified_name == self._query_def:
                 self._element_cache[__next.qualified_name] = __next
@@ -63,7 +63,6 @@ class QuerySearchSubElement(GraphQuery):
             for n in __next.get_subelements(lambda x: True):
                 await fringe.put(n)
                 fringe.task_done()
-            await self._traverse(fringe)
 
 
 class QuerySearchElement(GraphQuery):
@@ -73,7 +72,7 @@ class QuerySearchElement(GraphQuery):
         self.visited_set = set()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             self.visited_set.add(__next.uuid)
             if __next.qualified_name == self._query_def:
@@ -87,7 +86,6 @@ class QuerySearchElement(GraphQuery):
             if __next.parent is not None:
                 await fringe.put(__next.parent)
                 fringe.task_done()
-            await self._traverse(fringe)
 
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self.visited_set = set()
diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 4a5bcd9..16163bd 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,7 +13,7 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next = await fringe.get()
             match __next:
                 case HypergraphNode():
@@ -30,9 +30,6 @@ class Factorization2Operation(GraphMonad):
                     for i in o_e:
                         await fringe.put(i.endpoint)
                         fringe.task_done()
-            await self.__traverse(fringe)
-        else:
-            return
 
     async def execute(self, start) -> list[asyncio.Future]:
         self.__relation_list = []
-- 
2.43.0


From 9f601dd7d77955a8beee386fb355b7b92b25f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 06/48] fix: traversal and factorization of an edge that links
 its own container

An edge with its container (or an ancestor of it) among its endpoints made
the unlimited HypergraphTraversal and Factorization2Operation run for ever;
an endpoint shared by several edges had its own edges emitted repeatedly.
---
 .../rei/foundations/hypergraph_traversal_strategies.py       | 5 +++++
 framework_python/rei/hypergraph/factorization_operations.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 8321df5..31d0f3b 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -59,8 +59,13 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
+        _visited = set()
         while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
+            # An endpoint is reached through each of its relations, expand it once
+            if id(_next) in _visited:
+                continue
+            _visited.add(id(_next))
             match _next:
                 case HypergraphNode():
                     _next: HypergraphNode
diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 16163bd..b6382bb 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,8 +13,13 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
+        __visited = set()
         while not fringe.empty():
             __next = await fringe.get()
+            # An endpoint is reached through each of its relations, expand it once
+            if id(__next) in __visited:
+                continue
+            __visited.add(id(__next))
             match __next:
                 case HypergraphNode():
                     __next: HypergraphNode
-- 
2.43.0


From 20827ebf01e2cf2e5b3150f08ee8372d1cccd12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 07/48] fix: pair the incoming with the outgoing endpoints of a
 directed edge

An endpoint was paired with every other endpoint of its edge whatever the
directions: an edge with two or more sources (or targets) got weight
between its sources (targets), and they were marked in both incidence
matrices.
---
 .../foundations/hypergraph_traversal_strategies.py   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 31d0f3b..9b848d5 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -22,10 +22,10 @@ class HypergraphTraversal(GraphVisitor):
         self._index_homomorphism = homomorphism
         self.max_depth = depth
 
-    def get_node_identification(self, el):
+    def get_node_identification(self, relations):
         if self._index_homomorphism is None:
-            return map(lambda x: x.uuid, el.parent.induced_subset)
-        return map(lambda x: self._index_homomorphism.node(x.uuid), el.parent.induced_subset)
+            return map(lambda x: x.endpoint.uuid, relations)
+        return map(lambda x: self._index_homomorphism.node(x.endpoint.uuid), relations)
 
     def get_edge_identification(self, el: HypergraphEdge):
         if self._index_homomorphism is None:
@@ -49,13 +49,15 @@ class HypergraphTraversal(GraphVisitor):
             task_list.append(
                 self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))]))
+                                                    self.get_node_identification(
+                                                        el.parent.get_outgoing_relations()))]))
 
         if weight[1] != 0.0:
             task_list.append(
                 self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))]))
+                                                    self.get_node_identification(
+                                                        el.parent.get_incoming_relations()))]))
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-- 
2.43.0


From 7e097904676f60456d469842733ee5fd568fd71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 08/48] fix: refuse to add an element beneath its own
 descendant

Only adding an element directly to itself was refused; adding an ancestor
closed a containment cycle and ended in RecursionError.
---
 framework_python/rei/foundations/conceptual_item.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index fe2d838..6a27ff3 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -84,9 +84,12 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         yield from filter(filterfunc, self._sub_elements.values())
 
     def add_element(self, element):
-        # Forbid hierarchy recursion
-        if element is self:
-            raise ErrorRecursiveHierarchy
+        # Forbid hierarchy recursion (neither itself, nor an element containing this one)
+        __ancestor = self
+        while __ancestor is not None:
+            if element is __ancestor:
+                raise ErrorRecursiveHierarchy
+            __ancestor = __ancestor.parent
         # Add as unique element
         if element.uuid not in self._sub_elements:
             self._sub_elements[element.uuid] = element
-- 
2.43.0


From 5ffd41c7007e267b3d6b2f6efecad8e6b6bcd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 09/48] fix: keep names and depths of a whole moved or removed
 subtree

Removing an element updated the qualified name of that element only, its
descendants kept the path through the old parent; the depth was set on the
added element only, and never reset by a removal.
---
 framework_python/rei/foundations/conceptual_item.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 6a27ff3..fa928e5 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -108,7 +108,6 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 for e in element.parent.remove_element(uuid=element.uuid):            # Update all sub elements
                     e.update()
             element.parent = self
-            element._depth = self._depth + 1
             # Subelement count increment
             self._cnt_subelements += 1
             # All-ever created subelement count
@@ -123,7 +122,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 self._index_elements_by_name[id_name].pop(uuid)
                 # Invalidate parent
                 el.parent = None
-                el.update()
+                self.__update_element(el)
                 # Decrement element count
                 self._cnt_subelements -= 1
                 # Yield element
@@ -137,7 +136,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                     # Invalidate each element parent
                     el.parent = None
                     # Update timestamp etc.
-                    el.update()
+                    self.__update_element(el)
                     # Decrement by each element
                     self._cnt_subelements -= 1
                     # Yield element
@@ -149,7 +148,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 # Invalidate element parent
                 el.parent = None
                 # Update tiemstamp etc.
-                el.update()
+                self.__update_element(el)
                 # Decrement element
                 self._cnt_subelements -= 1
                 # Yield element
@@ -163,6 +162,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         __fringe.put(element)
         while not __fringe.empty():
             __next: HierarchicalElement = __fringe.get()
+            __next._depth = 0 if __next.parent is None else __next.parent.depth + 1
             __next.update()
             for e in __next.get_subelements(lambda x: True):
                 __fringe.put(e)
-- 
2.43.0


From 1846f2470b0ddcc327e92fd34f717f67a711b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 10/48] fix: removal by name keeps the name index consistent

Removing by identifier and a name that is not the element's dropped the
element from its container before failing; removing by name emptied the
index at the first of several elements.
---
 framework_python/rei/foundations/conceptual_item.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index fa928e5..55b9748 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -118,8 +118,9 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         if len(id_name) > 0:
             if uuid is not None:
-                el = self._sub_elements.pop(uuid)
-                self._index_elements_by_name[id_name].pop(uuid)
+                # The index refuses a name that does not belong to the identifier
+                el = self._index_elements_by_name[id_name].pop(uuid)
+                self._sub_elements.pop(uuid)
                 # Invalidate parent
                 el.parent = None
                 self.__update_element(el)
@@ -129,10 +130,10 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 yield el
             else:
                 __tmp = [x for x in self._index_elements_by_name[id_name].values()]
-                # Reset indices
-                self._index_elements_by_name[id_name] = {}
                 for v in __tmp:
+                    # Remove element along with its index
                     el = self._sub_elements.pop(v.uuid)
+                    self._index_elements_by_name[id_name].pop(v.uuid)
                     # Invalidate each element parent
                     el.parent = None
                     # Update timestamp etc.
-- 
2.43.0


From d9247c1eee01512781580ba35dc1b756b342ff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 11/48] fix: look up a path whose first step is missing or
 passes an edge relation

get_element_by_id_name raised KeyError when the first of several names was
unknown (an unknown single name gives no result), and AttributeError when
the path led through a relation, a port or a value, which have
sub-elements but had no such method.
---
 .../rei/foundations/conceptual_item.py        | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 55b9748..83fc5cd 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -157,6 +157,20 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
             else:
                 raise ErrorInvalidQuery
 
+    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
+        tokens = id_name.split('/')
+        if len(tokens) == 0:
+            raise InvalidQueryName
+        elif len(tokens) == 1:
+            if tokens[0] in self._index_elements_by_name:
+                yield from list(self._index_elements_by_name[tokens[0]].values())
+            else:
+                yield from []
+        else:
+            # Iterate all possible named elements
+            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
+                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
+
     def __update_element(self, element):
         import queue
         __fringe = queue.Queue()
@@ -219,20 +233,6 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
         return asyncio.gather(*[self.remove_element(e[0], e[1]) for e in elements])
 
-    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
-        tokens = id_name.split('/')
-        if len(tokens) == 0:
-            raise InvalidQueryName
-        elif len(tokens) == 1:
-            if tokens[0] in self._index_elements_by_name:
-                yield from list(self._index_elements_by_name[tokens[0]].values())
-            else:
-                yield from []
-        else:
-            # Iterate all possible named elements
-            for v in self._index_elements_by_name[tokens[0]].values():
-                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
-
     def update(self):
         self._update_timestamp()
         self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])
-- 
2.43.0


From 3b6374d9a6331e93aca828ded5bb6c49a0bfc684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 12/48] fix: bulk addition and removal of elements

asyncio.gather was given a generator expression (add_elements) and plain
generators (remove_elements) instead of awaitables and raised TypeError.
---
 framework_python/rei/foundations/conceptual_item.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 83fc5cd..c45ae73 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -228,10 +228,14 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
 
 
     async def add_elements(self, elements: typing.Iterable[typing.Any]) -> asyncio.Future:
-        return asyncio.gather(self.add_element(x) for x in elements)
+        async def __add(x):
+            self.add_element(x)
+        return asyncio.gather(*[__add(x) for x in elements])
 
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
-        return asyncio.gather(*[self.remove_element(e[0], e[1]) for e in elements])
+        async def __remove(e):
+            return list(self.remove_element(e[0], e[1]))
+        return asyncio.gather(*[__remove(e) for e in elements])
 
     def update(self):
         self._update_timestamp()
-- 
2.43.0


From 9dcb4bc93a16089ffd1f07531bbf11fa60d4e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 13/48] fix: remove and move the elements of an edge

HypergraphEdge.remove_element iterated the removed relation (TypeError),
looked it up by the cid its new container had already assigned (KeyError
on a move), and failed for ports and values.
---
 framework_python/rei/hypergraph/base_elements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 9b3614b..a425a70 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -147,12 +147,13 @@ class HypergraphEdge(HypergraphElement):
         super().add_element(element)
         match element:
             case HypergraphRelation():
-                self._sub_relations[element.cid] = element
+                self._sub_relations[element.uuid] = element
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         _el = super().remove_element(id_name, uuid)
         for v in _el:
-            yield from self._sub_relations.pop(v.cid)
+            self._sub_relations.pop(v.uuid, None)
+            yield v
 
     @property
     def sub_relations(self):
-- 
2.43.0


From d20e4076939cce3c602fab41c3b74b97db8e5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 14/48] fix: remove and move the elements of a relation

HypergraphRelation.remove_element ignored its arguments, looked for the
endpoint (which is not a sub-element: KeyError), and dropped the endpoint
of the relation.
---
 framework_python/rei/hypergraph/base_elements.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index a425a70..275b95b 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -116,9 +116,7 @@ class HypergraphRelation(HierarchicalElement):
             element.connect(self)
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
-        el = self._sub_elements.pop(self.endpoint.uuid)
-        self._endpoint = None
-        yield el
+        yield from super().remove_element(id_name, uuid)
 
 
 class HypergraphEdge(HypergraphElement):
-- 
2.43.0


From 95b2bde13dd8c79a1d382bd4c25c75e16dc49299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 15/48] fix: connect and disconnect an element as a whole

disconnect never consumed the removal, so the port stayed; a connection
refused as duplicate left a dangling port at the endpoint.
---
 .../rei/hypergraph/base_elements.py             | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 275b95b..0622ea7 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -2,6 +2,7 @@ import typing
 
 from rei.foundations.abstract_items import IdentifiableItem
 from rei.foundations.clock import MetaClock
+from rei.foundations.common_errors import ErrorDuplicateElement
 from rei.foundations.conceptual_item import ConceptualItem, HierarchicalElement
 from rei.foundations.identification.identity_generator import Sha3UniqueIdentifierGenerator
 from rei.hypergraph.common_definitions import EnumRelationDirection
@@ -46,12 +47,14 @@ class HypergraphElement(ConceptualItem):
         port_name = '.'.join([self.id_name, "port", el.id_name])
         p = HypergraphPort(self._id_generation.generate_uid(el), port_name,
                            port_name, el, self)
-        self._ports[el.uuid] = p
         self.add_element(p)
+        self._ports[el.uuid] = p
 
     def disconnect(self, el: HierarchicalElement):
         p = self._ports.pop(el.uuid)
-        self.remove_element(id_name=p.id_name, uuid=p.uuid)
+        # The removal is a generator: it has to be consumed
+        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):
+            pass
 
     @property
     def sub_ports(self):
@@ -136,10 +139,16 @@ class HypergraphEdge(HypergraphElement):
         rel = HypergraphRelation(self._id_generation.generate_uid(endpoint), id_name,
                                  '/'.join([self.id_name, id_name]), endpoint, weight, direction=direction,
                                  semantic_value_node=semantic_value_node)
-        endpoint.connect(rel)
+        self.add_element(rel)
+        try:
+            endpoint.connect(rel)
+        except ErrorDuplicateElement:
+            # The endpoint refused: do not leave the relation without its port
+            for _ in self.remove_element(uuid=rel.uuid):
+                pass
+            raise
         if semantic_value_node is not None:
             rel.add_element(semantic_value_node)
-        self.add_element(rel)
 
     def add_element(self, element: HierarchicalElement):
         super().add_element(element)
-- 
2.43.0


From 449d92947186aeb0d512c4473b83e27d09bc53d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 16/48] fix: relations of an edge to endpoints of the same name

The identifiers of relations and ports were derived from names only: an
edge could not connect two nodes of the same name (in different
containers), nor a node be connected by two edges of the same name.
---
 framework_python/rei/hypergraph/base_elements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 0622ea7..806afd1 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -35,13 +35,14 @@ class HypergraphElement(ConceptualItem):
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None):
         super().__init__(id_name, uuid, qualified_name, clock, parent)
-        self._id_generation = Sha3UniqueIdentifierGenerator(id_name, HypergraphElement.identification_generation)
+        self._id_generation = Sha3UniqueIdentifierGenerator(uuid.hex(), HypergraphElement.identification_generation)
         # Ports to deduce associated relations
         self._ports: dict[bytes, HypergraphPort] = {}
 
     @staticmethod
     def identification_generation(x: str, y: IdentifiableItem):
-        return f"{x}/{y.id_name}"
+        # Names repeat in different containers, identifiers do not
+        return f"{x}/{y.uuid.hex()}"
 
     def connect(self, el: HierarchicalElement):
         port_name = '.'.join([self.id_name, "port", el.id_name])
-- 
2.43.0


From 6ad6e66a3517b6e734f504297307f64a1ffffa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 17/48] fix: the stamped qualified name is a string

A trailing comma made it a tuple, and so the progenitor name of every
edge, value and semantic element.
---
 framework_python/rei/factories/abstract_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/abstract_factory.py b/framework_python/rei/factories/abstract_factory.py
index 84bade4..f1b668a 100644
--- a/framework_python/rei/factories/abstract_factory.py
+++ b/framework_python/rei/factories/abstract_factory.py
@@ -20,4 +20,4 @@ class AbstractElementFactory():
         return f"{name}.{self._clock.get_time_ns()}"
 
     def get_stamped_qualified_name(self, id_name: str, parent: HierarchicalElement):
-        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}",
+        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}"
-- 
2.43.0


From e36f7ed597b75e67c1a99bfa8922181229c3c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 18/48] fix: give the outgoing nodes of a directed edge their
 own direction

connect_2factor_edges (and connect_dir_edges) connected the outgoing nodes
with the direction of the incoming ones.
---
 framework_python/rei/factories/foundation_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 0f34937..8ed4b4b 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -67,7 +67,7 @@ class HypergraphFactory(AbstractElementFactory):
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
         for n,v in node_out_values:
-            he.unary_connect(n, v, direction[0])
+            he.unary_connect(n, v, direction[1])
         return he
 
     def connect_dir_edges(self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
-- 
2.43.0


From e668417834d79f783e543fc63988f7d561c06a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 19/48] fix: check the number of values before creating the
 edge

A wrong number of values was refused only after the edge had been added
to its container, where it stayed, without any relation.
---
 framework_python/rei/factories/foundation_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 8ed4b4b..2f84fad 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -38,13 +38,13 @@ class HypergraphFactory(AbstractElementFactory):
     def connect_nodes(self, container: HypergraphNode, edge_name: str, nodes: list[HypergraphNode],
                       direction: EnumRelationDirection = EnumRelationDirection.BIDIRECTIONAL,
                       values: list[ValueNode] | None = None):
+        if values is not None and len(values) != len(nodes):
+            raise ErrorInsufficientValues
         uuid: bytes = self.unique_identifier.generate_uid(edge_name)
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_values = zip(nodes, len(nodes)*[None])
         else:
-            if len(values) != len(nodes):
-                raise ErrorInsufficientValues
             node_values = zip(nodes, values)
         for n,v in node_values:
             he.unary_connect(n, v, direction)
@@ -54,14 +54,14 @@ class HypergraphFactory(AbstractElementFactory):
             self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
             out_dir_nodes: list[HypergraphNode], direction: tuple[EnumRelationDirection, EnumRelationDirection],
             values: list[ValueNode] | None = None):
+        if values is not None and len(values) != (len(out_dir_nodes)+len(in_dir_nodes)):
+            raise ErrorInsufficientValues
         uuid: bytes = self.unique_identifier.generate_uid(edge_name)
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])
             node_out_values = zip(out_dir_nodes, (len(out_dir_nodes))*[None])
         else:
-            if len(values) != (len(out_dir_nodes)+len(in_dir_nodes)):
-                raise ErrorInsufficientValues
             node_in_values = zip(in_dir_nodes, values[:len(in_dir_nodes)])
             node_out_values = zip(out_dir_nodes, values[len(in_dir_nodes):])
         for n,v in node_in_values:
-- 
2.43.0


From 157606fec75d04ffdd9ec7ede87d59486bb44a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 20/48] fix: edges and values of the same name in different
 containers differ

Their identifiers were derived from the name alone (unlike those of
nodes), so e.g. an edge could not be moved to a container that already had
one of this name, and index mappings merged the two.
---
 .../rei/factories/foundation_factory.py            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 2f84fad..4f907ac 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -28,8 +28,11 @@ class HypergraphFactory(AbstractElementFactory):
     # Generator functions
     #
 
+    def generate_edge_uid(self, container: HypergraphNode, edge_name: str) -> bytes:
+        return self.unique_identifier.generate_uid(f"{container.qualified_name}:{edge_name}")
+
     def create_hyperedge(self, parent: HypergraphNode, edge_name: str):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.generate_edge_uid(parent, edge_name)
         he = HypergraphEdge(edge_name, uuid,
                             self.get_stamped_qualified_name(edge_name, parent),
                             parent.clock, parent)
@@ -40,7 +43,7 @@ class HypergraphFactory(AbstractElementFactory):
                       values: list[ValueNode] | None = None):
         if values is not None and len(values) != len(nodes):
             raise ErrorInsufficientValues
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.generate_edge_uid(container, edge_name)
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_values = zip(nodes, len(nodes)*[None])
@@ -56,7 +59,7 @@ class HypergraphFactory(AbstractElementFactory):
             values: list[ValueNode] | None = None):
         if values is not None and len(values) != (len(out_dir_nodes)+len(in_dir_nodes)):
             raise ErrorInsufficientValues
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.generate_edge_uid(container, edge_name)
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])
@@ -85,7 +88,7 @@ class HypergraphFactory(AbstractElementFactory):
         :param nodes: endpoint, direction, value node, semantiv calue node
         :return:
         """
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.generate_edge_uid(container, edge_name)
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n, dir, v, sv in nodes:
             he.unary_connect(n, v, dir, sv)
@@ -96,11 +99,12 @@ class HypergraphFactory(AbstractElementFactory):
         return he
 
     def create_value(self, parent: HypergraphNode | None, value_name: str, values: list[typing.Any] = None):
-        uuid: bytes = self.unique_identifier.generate_uid(value_name)
         if parent is not None:
+            uuid: bytes = self.unique_identifier.generate_uid(f"{parent.qualified_name}={value_name}")
             val = ValueNode(uuid, value_name, self.get_stamped_qualified_name(value_name, parent), values)
             parent.add_element(val)
         else:
+            uuid: bytes = self.unique_identifier.generate_uid(value_name)
             val = ValueNode(uuid, value_name, '/'.join([value_name])+f".{self._clock.get_time_ns()}", values)
         return val
 
-- 
2.43.0


From 852170243ebae73fcce2b4ee8680343c0c2cb92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 21/48] fix: factorize relations of bidirectional and of
 one-sided edges

RelationFactorization2SubsetOperation took a bidirectional relation as
incoming only, and failed with KeyError on an edge without outgoing
relation in the subset.
---
 framework_python/rei/hypergraph/factorization_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index b6382bb..801e20a 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -85,14 +85,14 @@ class RelationFactorization2SubsetOperation(GraphMonad):
                 if __rel.parent.uuid not in self.incoming_relations:
                     self.incoming_relations[__rel.parent.uuid] = []
                 self.incoming_relations[__rel.parent.uuid].append(__rel)
-            elif __rel.direction == EnumRelationDirection.OUTWARDS:
+            if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                 if __rel.parent.uuid not in self.outgoing_relations:
                     self.outgoing_relations[__rel.parent.uuid] = []
                 self.outgoing_relations[__rel.parent.uuid].append(__rel)
         # Pair relations
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
-                for o_e in self.outgoing_relations[k]:
+                for o_e in self.outgoing_relations.get(k, []):
                     if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
                         self.__relation_list.append([i_e, o_e])
         # Relation list
-- 
2.43.0


From 1bdd943ec3568e1ad7c7a13ea888695d6a6931a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 22/48] fix: do not answer a search with a stale cached element

A search object kept answering a name with the element it had found under
it before, though the element had been moved or removed, or is not
reachable from the element the search is started at.
---
 .../rei/foundations/query/search_elements.py  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 888defe..0678f0d 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -32,6 +32,16 @@ class GraphQuery(GraphMonad, ABC):
     def query_result(self):
         return self._result
 
+    @abc.abstractmethod
+    def _is_reachable(self, start, element) -> bool:
+        raise NotImplementedError
+
+    @staticmethod
+    def _containers(element):
+        while element is not None:
+            yield element
+            element = element.parent
+
     @abc.abstractmethod
     async def _traverse(self, fringe: asyncio.Queue):
         raise NotImplementedError
@@ -39,8 +49,11 @@ class GraphQuery(GraphMonad, ABC):
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self._result = []
         if self.query_def in self._element_cache:
-            self._result = [self._element_cache[self.query_def]]
-            return []
+            __cached = self._element_cache[self.query_def]
+            # The element may have been renamed by a move, or may not be reachable from here
+            if __cached.qualified_name == self.query_def and self._is_reachable(start, __cached):
+                self._result = [__cached]
+                return []
         __fringe, _task_list = self._setup_query()
         await __fringe.put(start)
         __fringe.task_done()
@@ -53,6 +66,9 @@ class QuerySearchSubElement(GraphQuery):
     def __init__(self):
         super().__init__()
 
+    def _is_reachable(self, start, element) -> bool:
+        return any(x is start for x in self._containers(element))
+
     async def _traverse(self, fringe: asyncio.Queue):
         while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
@@ -71,6 +87,9 @@ class QuerySearchElement(GraphQuery):
         super().__init__()
         self.visited_set = set()
 
+    def _is_reachable(self, start, element) -> bool:
+        return list(self._containers(element))[-1] is list(self._containers(start))[-1]
+
     async def _traverse(self, fringe: asyncio.Queue):
         while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
-- 
2.43.0


From fea88081395e777752089007b16b4962b86241d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 23/48] fix: search elements that share an identifier with
 another container's

Identifiers are unique within a container only; QuerySearchElement took an
element for visited when one with the same identifier had been.
---
 framework_python/rei/foundations/query/search_elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 0678f0d..45789f5 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -93,13 +93,13 @@ class QuerySearchElement(GraphQuery):
     async def _traverse(self, fringe: asyncio.Queue):
         while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
-            self.visited_set.add(__next.uuid)
+            self.visited_set.add(id(__next))
             if __next.qualified_name == self._query_def:
                 self._element_cache[__next.qualified_name] = __next
                 self._result.append(__next)
                 return
             for n in __next.get_subelements(lambda x: True):
-                if n.uuid not in self.visited_set:
+                if id(n) not in self.visited_set:
                     await fringe.put(n)
                     fringe.task_done()
             if __next.parent is not None:
-- 
2.43.0


From c1e73fc87f3b07e046b37e68e724c8b06ce63794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 24/48] fix: a value node updated as a whole has the new
 dimension

update_values left the dimension, and so the iteration, at the old number
of values, and aliased the list of the caller.
---
 framework_python/rei/hypergraph/value_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/value_node.py b/framework_python/rei/hypergraph/value_node.py
index a6d68cd..f18afe5 100644
--- a/framework_python/rei/hypergraph/value_node.py
+++ b/framework_python/rei/hypergraph/value_node.py
@@ -26,7 +26,8 @@ class ValueNode(HierarchicalElement):
         self._values[i] = arg
 
     def update_values(self, arg):
-        self._values = arg
+        self._values = [x for x in arg]
+        self.dim = len(self._values)
 
     def __getitem__(self, i, /):
         return self._values[i]
-- 
2.43.0


From 7bba25447449523eb59e2d56c6c9c8459e9ca441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 25/48] fix: encode the current state of the current context

Repeated messages accumulated the relations and coordinates of the earlier
ones (which a decoder refuses as duplicates), and update_context did not
change the context that is encoded.
---
 .../rei/hypergraph/encoding/graph_tensor_icon.py            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 8a05bfb..0072c11 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -29,6 +29,7 @@ class CoordinateObjectTransformer(GraphMonad):
         self._index_homomorphism = IndexHomomorphismGraphTensor(True)
 
     async def reset(self, context: HypergraphNode):
+        self._context = context
         self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)
         return await self._index_homomorphism.execute(context)
 
@@ -41,6 +42,10 @@ class CoordinateObjectTransformer(GraphMonad):
     async def execute(self, start: HypergraphNode | None = None) -> list[asyncio.Future]:
         if start is None:
             start = self._context
+        # Coordinates of an earlier execution are obsolete
+        self._msg_value_tensor = []
+        self._msg_incidence_out = []
+        self._msg_incidence_in = []
         q = queue.Queue()
         tr = HypergraphTraversal(
             lambda x: q.put(x), lambda x: True, SumNorm(), self._index_homomorphism, self.repr_depth)
@@ -71,6 +76,7 @@ class CoordinateObjectTransformer(GraphMonad):
         return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges)]
 
     def msg_relation_index_list(self):
+        self._msg_relations = []
         for el in map(lambda x: list(x.sub_relations), self._context.sub_edges):
             for rel in el:
                 rel: HypergraphRelation
-- 
2.43.0


From 935af5c742e5186f5288e875d593445690ee45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 26/48] fix: decode relation directions and messages of a
 contained context

Every decoded relation was bidirectional, and the message of a context
that has a parent could not be decoded (KeyError on the parent).
---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 3 ++-
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 0072c11..2d23594 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -56,7 +56,8 @@ class CoordinateObjectTransformer(GraphMonad):
                 self.fill_tensors(i_e, i_n1, i_n0, i_w, val)
 
     def __msg_node_tuple(self, el: HypergraphNode):
-        if el.parent is None:
+        # The context is the root of the message, even if it is contained elsewhere
+        if el.parent is None or el is self._context:
             return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), 0, el.qualified_name.encode('utf-8')
         return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')
 
diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 13532c5..0375681 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -2,6 +2,7 @@
 from rei.factories.foundation_factory import HypergraphFactory
 from rei.foundations.clock import MetaClock
 from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
+from rei.hypergraph.common_definitions import EnumRelationDirection
 from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
 
 import cbor2
@@ -70,7 +71,8 @@ class GraphTensorCbor(object):
             edges.append((e[0], e[2]))
         # Relation
         for rel in frag[2]:
-            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]])
+            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]],
+                                     direction=EnumRelationDirection(rel[3]))
             _elements[rel[5]].add_element(_el)
         # Value nodes
         values = []
-- 
2.43.0


From 89ef71835bcb2c1650a6b74f9269ffbe99678ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 27/48] fix: the inertia of a cylinder takes the radius first

The values of a cylinder are radius and length, as the geometry export and
the examples have it; the inertia had them swapped.
---
 framework_python/rei/format/phys/inertia_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index b0948c4..87e6ec6 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -56,8 +56,8 @@ def encode_inertia_element(element):
 
 
 def calc_cylinder_inertia(mass: float, geom: CylinderGeometry):
-    l = geom['values'][0]
-    r = geom['values'][1]
+    r = geom['values'][0]
+    l = geom['values'][1]
     ixy = 1.0/12.0*mass*(3*r*r+ l*l)
     izz = 0.5*mass*r*r
     return [ixy, ixy, izz, 0.0, 0.0, 0.0]
-- 
2.43.0


From 36dc66f96437703ef4503e8360299dcfb3bd9738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 28/48] fix: export the inertia of an ellipsoid with three
 radii

The inertia was calculated for a sphere only; a link with a general
ellipsoid could not be exported (TypeError).
---
 framework_python/rei/format/phys/inertia_context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index 87e6ec6..0dc83fa 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -67,5 +67,8 @@ def calc_ellipsoid_inertia(mass: float, geom: EllipsoidGeometry):
         r = geom['values'][0]
         ixyz = 2.0/5.0*mass*r*r
         return [ixyz, ixyz, ixyz, 0.0, 0.0, 0.0]
+    rx, ry, rz = geom['values']
+    c = 1.0/5.0*mass
+    return [c*(ry*ry + rz*rz), c*(rx*rx + rz*rz), c*(rx*rx + ry*ry), 0.0, 0.0, 0.0]
 
 
-- 
2.43.0


From b6eac491be319ec6054d880767cd6e2a6178835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 29/48] fix: export links with several visuals, or with a
 connection that is no joint

The materials of an earlier visual of the link were dropped (KeyError);
a relation without joint ended the export with StopIteration.
---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 +-
 framework_python/rei/format/phys/solid_geometry_context.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 6c06879..6fd9833 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -53,7 +53,7 @@ def __obtain_relative_frame_name(node: HypergraphNode):
         # Normal
         x: HypergraphPort
         __rel: HypergraphRelation = x.endpoint
-        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)))
+        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)), None)
         if sub_el is not None:
             if __rel.direction == EnumRelationDirection.OUTWARDS:
                 e: HypergraphEdge = x.endpoint.parent
diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index ae6dffb..1ca4625 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -105,7 +105,7 @@ def encode_geometry_element(cont_node, prefix=""):
         mat = [x for x in n.get_subelements(lambda x: isinstance(x, VisualMaterial))]
         if len(mat) != 0:
             __sem_visual.extend(geometries)
-            __sem_material = ({i: mat[0] for i in geometries})
+            __sem_material.update({i: mat[0] for i in geometries})
         else:
             __sem_collision.extend(geometries)
     # Visual geometry setup
-- 
2.43.0


From 95b82bc356aeea514f72bba94db09792c619f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 30/48] fix: semantic elements of the same name in different
 containers differ

---
 .../rei/format/semantics/cognitive_entity_semantic_factory.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
index b6bb936..63227bc 100644
--- a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
+++ b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
@@ -21,7 +21,7 @@ class CognitiveEntitySemanticFactory(AbstractElementFactory):
         if len(attr) == 0:
             raise ErrorInsufficientValues
         element_type = ''.join(raw_element_type.lower().strip().split('_'))
-        uuid = self.unique_identifier.generate_uid(id_name)
+        uuid = self.unique_identifier.generate_uid('/'.join([parent.qualified_name, id_name]))
         el = None
         match element_type:
             case 'cognitiveentity':
-- 
2.43.0


From 00d5375a1289aa19fc304e90598718beeebafcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 31/48] fix: projected entropy of a graph with a zero
 eigenvalue is a number

---
 framework_python/rei/tensor/tensor_representation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index c9f91ce..3917700 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -49,7 +49,8 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
 
     def entropy_projected_vector(self):
         v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])
-        return -v*np.log2(v)
+        # 0 log 0 is 0 (e.g. isolated nodes)
+        return -v*np.nan_to_num(np.log2(v), neginf=0, posinf=0)
 
     def entropy_projected(self):
         return np.sum(self.entropy_projected_vector())
-- 
2.43.0


From 1221f298d570017dacbdd189769a2c7eef008e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 32/48] fix: decoded value nodes have a name that is a string

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 0375681..c53ca89 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -77,7 +77,7 @@ class GraphTensorCbor(object):
         # Value nodes
         values = []
         for v in frag[3]:
-            _el = ValueNode(v[0], v[1], v[4], v[5])
+            _el = ValueNode(v[0], v[1], v[4].decode('utf-8'), v[5])
             values.append((v[0], v[2]))
             _elements[v[3]].add_element(_el)
         # Value tensor
-- 
2.43.0


From 052048d8d5959567aaba30767339f7bedfcf267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 33/48] fix: depth limit of the graph traversal with edges as
 endpoints

---
 .../rei/foundations/hypergraph_traversal_strategies.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 9b848d5..dbf961a 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -62,7 +62,11 @@ class HypergraphTraversal(GraphVisitor):
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
         _visited = set()
-        while not _fringe.empty():
+        # Endpoints wait until everything less deep is visited
+        _endpoints = asyncio.Queue()
+        while not (_fringe.empty() and _endpoints.empty()):
+            if _fringe.empty():
+                _fringe, _endpoints = _endpoints, _fringe
             _next, __current_depth = await _fringe.get()
             # An endpoint is reached through each of its relations, expand it once
             if id(_next) in _visited:
@@ -102,8 +106,8 @@ class HypergraphTraversal(GraphVisitor):
                     self.__fill_relations(w, endpoint_id, edge_id, norm_weight, _next, _task_list)
                     # Add endpoints to fringe
                     if __current_depth + 1 < self.max_depth:
-                        await _fringe.put((_next.endpoint, __current_depth + 1))
-                        _fringe.task_done()
+                        await _endpoints.put((_next.endpoint, __current_depth + 1))
+                        _endpoints.task_done()
 
     async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue | None = None):
         # Each visit has its own fringe
-- 
2.43.0


From 3356cc8b765d29936a5f926367572be18a539938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 34/48] fix: export translational joints as prismatic

---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 6fd9833..d68803d 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -108,6 +108,8 @@ def __encode_joint_type(joint_type: str):
             return "fixed"
         case "rev":
             return "revolute"
+        case "tr":
+            return "prismatic"
     return "fixed"
 
 
-- 
2.43.0


From 6b70b0ffd555426994cb3bf728c853be7de5cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 35/48] fix: pose of a link that a referenced kinematic graph
 attaches without joints of its own

---
 .../phys/kinematics/kinematic_semantic_context.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index d68803d..cbec801 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -61,11 +61,11 @@ def __obtain_relative_frame_name(node: HypergraphNode):
                 if len(incom) > 0:
                     relative_frame_name = sub_el.id_name
                     return relative_frame_name
-            else:
-                # We are instantiating a reference
-                _, con_kin_graph = get_parent_kinematic_graph(parent_kin_graph.parent)
-                if con_kin_graph is not None:
-                    relative_frame_name = '.'.join(["connect", node.id_name])
+    # No joint of its own graph attaches the link: we are instantiating a reference
+    if parent_kin_graph is not None and parent_kin_graph.parent is not None:
+        _, con_kin_graph = get_parent_kinematic_graph(parent_kin_graph.parent)
+        if con_kin_graph is not None:
+            relative_frame_name = '.'.join(["connect", node.id_name])
     return relative_frame_name
 
 
-- 
2.43.0


From 4a6d58d7cd578f197b94219d69b2dc438ca1c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 36/48] fix: export kinematic graphs nested in referenced
 kinematic graphs

---
 .../rei/format/mapping/cognilang_sdf_icon.py     | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 9117718..d9de5e0 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -57,12 +57,18 @@ class CognilangSdfIcon(CognitiveIcon):
     def __is_kinematic_graph(el: HypergraphNode):
         return len(list(el.get_subelements(lambda x: isinstance(x, KinematicGraphDefinition)))) > 0
 
+    @staticmethod
+    def __in_kinematic_graph(graph: HypergraphNode):
+        # A nested kinematic graph is exported through its references
+        return lambda x: x is graph or not isinstance(x, HypergraphNode) or not CognilangSdfIcon.__is_kinematic_graph(x)
+
     async def get_canonical_link(self, graph: HypergraphNode) -> typing.Set:
         __sub_engine = HypergraphQueryEngine("engine", b'00', "engine/engine", self.__sub_engine.clock, None)
         __sub_engine.clear()
         link_query = HierarchicalPrepositionQuery(
-            graph, lambda x: isinstance(x, KinematicLink), lambda x: True)
-        joint_query = HierarchicalPrepositionQuery(graph, lambda x: isinstance(x, KinematicJoint), lambda x: True)
+            graph, lambda x: isinstance(x, KinematicLink), self.__in_kinematic_graph(graph))
+        joint_query = HierarchicalPrepositionQuery(
+            graph, lambda x: isinstance(x, KinematicJoint), self.__in_kinematic_graph(graph))
         __sub_engine.add_query(f'{graph.id_name}_link_query', link_query)
         __sub_engine.add_query(f'{graph.id_name}_joint_query', joint_query)
         res = await __sub_engine.execute()
@@ -77,11 +83,11 @@ class CognilangSdfIcon(CognitiveIcon):
 
     async def encode_sub_graph(self, joint, prefix):
         self.__sub_engine.clear()
-        prefix_t1 = prefix + joint.parent.id_name
+        prefix_t1 = join_w_prefix_separator([joint.parent.id_name], '.', prefix)
         link_query = HierarchicalPrepositionQuery(
-            joint.endpoint, lambda x: isinstance(x, KinematicLink), lambda x: True)
+            joint.endpoint, lambda x: isinstance(x, KinematicLink), self.__in_kinematic_graph(joint.endpoint))
         joint_query = HierarchicalPrepositionQuery(
-            joint.endpoint, lambda x: isinstance(x, KinematicJoint), lambda x: True)
+            joint.endpoint, lambda x: isinstance(x, KinematicJoint), self.__in_kinematic_graph(joint.endpoint))
         self.__sub_engine.add_query(f'{joint.id_name}_link_query', link_query)
         self.__sub_engine.add_query(f'{joint.id_name}_joint_query', joint_query)
         res = await self.__sub_engine.execute()
-- 
2.43.0


From 19f4d4b01723333d125de8a8ec4794453d1ceba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 37/48] fix: identifiers of edges and values are unambiguous
 for names with a colon or equals sign

---
 framework_python/rei/factories/foundation_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 4f907ac..c9857b3 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -29,7 +29,7 @@ class HypergraphFactory(AbstractElementFactory):
     #
 
     def generate_edge_uid(self, container: HypergraphNode, edge_name: str) -> bytes:
-        return self.unique_identifier.generate_uid(f"{container.qualified_name}:{edge_name}")
+        return self.unique_identifier.generate_uid(f"{container.qualified_name}:/{edge_name}")
 
     def create_hyperedge(self, parent: HypergraphNode, edge_name: str):
         uuid: bytes = self.generate_edge_uid(parent, edge_name)
@@ -100,7 +100,7 @@ class HypergraphFactory(AbstractElementFactory):
 
     def create_value(self, parent: HypergraphNode | None, value_name: str, values: list[typing.Any] = None):
         if parent is not None:
-            uuid: bytes = self.unique_identifier.generate_uid(f"{parent.qualified_name}={value_name}")
+            uuid: bytes = self.unique_identifier.generate_uid(f"{parent.qualified_name}=/{value_name}")
             val = ValueNode(uuid, value_name, self.get_stamped_qualified_name(value_name, parent), values)
             parent.add_element(val)
         else:
-- 
2.43.0


From 3bffc95b358fbdf2892c35bcca3a8b554e4b4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 38/48] fix: degree tensor compares sums that may be rounded
 differently

---
 framework_python/rei/tensor/tensor_representation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index 3917700..96d0a14 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -31,8 +31,9 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
         return self.D - np.sum(self.W, axis=0)
 
     def diag_degree_tensor(self):
-        coeff = np.apply_along_axis(
-            np.diag, 1, 1.0/((np.sum(self.W, axis=1) == np.sum(self.W, axis=2)).astype(float) + 1))
+        # Sums along different axes may be rounded differently
+        balanced = np.isclose(np.sum(self.W, axis=1), np.sum(self.W, axis=2), rtol=1e-9, atol=0.0)
+        coeff = np.apply_along_axis(np.diag, 1, 1.0/(balanced.astype(float) + 1))
         __DD = np.apply_along_axis(np.diag, 1, np.sum(self.W, axis=1))
         return __DD @ coeff
 
-- 
2.43.0


From 82ebf99125b2cd0247433927b19487ed9f0993e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 39/48] fix: every referring visual or collision gets its
 geometry, not only the first one

---
 .../rei/format/mapping/cognilang_file_icon.py            | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 782b77c..638c311 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -134,12 +134,13 @@ class CognilangParserFileIcon(CogniLangVisitor):
         parent_graph_name = '/'.join(list(self.__get_parent_name(ctx))[::-1][:-2])
         parent_graph: HypergraphNode = self._element_cache[parent_graph_name]
         _el_ref, _inferred_name = self.__search_for_reference(ref_func(ctx).ref_(), ctx)
-        if _inferred_name not in self._reference_cache:
-            ref_e = self.__factory.create_hyperedge(
-                parent_graph, f"ref_{container_node.id_name}_{str(ref_func(ctx).ref_().ID())}")
+        # Every referring element has its own reference
+        _ref_name = f"ref_{container_node.qualified_name}_{str(ref_func(ctx).ref_().ID())}"
+        if _ref_name not in self._reference_cache:
+            ref_e = self.__factory.create_hyperedge(parent_graph, _ref_name)
             ref_e.unary_connect(_el_ref, None, EnumRelationDirection.OUTWARDS)
             ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
-            self._reference_cache[_inferred_name] = ref_e
+            self._reference_cache[_ref_name] = ref_e
 
     def __extract_vector_field_values(self, ctx: CogniLangParser.Field_float_vectorContext):
         yield from self.__extract_float_vector_values(ctx.float_vector())
-- 
2.43.0


From 88408bcb6b384677714241f60fd5ae949045d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 40/48] fix: a link may have several visuals or collisions
 without a name

---
 .../rei/format/mapping/cognilang_file_icon.py   | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 638c311..5313f2f 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -57,6 +57,16 @@ class CognilangParserFileIcon(CogniLangVisitor):
     def __generate_parent_name(self, ctx):
         return '/'.join(list(self.__get_parent_name(ctx))[::-1])
 
+    def __part_name(self, ctx, parent_name: str, default_name: str) -> str:
+        if ctx.ID() is not None:
+            return str(ctx.ID())
+        # Further elements without name are numbered
+        _name, i = default_name, 1
+        while any(x.id_name == _name for x in self._element_cache[parent_name].sub_nodes):
+            _name = f"{default_name}_{i}"
+            i += 1
+        return _name
+
     def __lookup_reference(self, ctx, parent):
         if hasattr(ctx, "ref_"):
             reference_name = str(ctx.ref_().ID())
@@ -265,7 +275,7 @@ class CognilangParserFileIcon(CogniLangVisitor):
 
     def visitVisual_node(self, ctx: CogniLangParser.Visual_nodeContext):
         _parent = self.__generate_parent_node_name(ctx)
-        _name = str(ctx.ID())
+        _name = self.__part_name(ctx, _parent, str(None))
         # Create node
         _el = self.__factory.generate_node(_name, self._element_cache[_parent])
         self._element_cache[_el.qualified_name] = _el
@@ -276,10 +286,7 @@ class CognilangParserFileIcon(CogniLangVisitor):
 
     def visitCollision_node(self, ctx: CogniLangParser.Collision_nodeContext):
         _parent = self.__generate_parent_node_name(ctx)
-        if ctx.ID() is None:
-            _name = "/".join([_parent, "coll"])
-        else:
-            _name = str(ctx.ID())
+        _name = self.__part_name(ctx, _parent, "/".join([_parent, "coll"]))
         # Create node
         _el = self.__factory.generate_node(_name, self._element_cache[_parent])
         self._element_cache[_el.qualified_name] = _el
-- 
2.43.0


From 821dc447a2ab07440de260f371dd1906b468af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 41/48] fix: a joint of a link named like its kinematic graph
 connects the link

---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 5313f2f..e038692 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -74,7 +74,8 @@ class CognilangParserFileIcon(CogniLangVisitor):
             if reference_name == "world":
                 return self._element_cache["world"], reference_name
             else:
-                return list(parent.get_element_by_id_name(reference_name))[0], reference_name
+                return next(x for x in parent.get_element_by_id_name(reference_name)
+                            if isinstance(x, HypergraphNode)), reference_name
 
     def __extract_joint_relation(self, ctx: CogniLangParser.Joint_relationContext, parent: HypergraphElement):
         __endpoint, reference_name = self.__lookup_reference(ctx, parent)
-- 
2.43.0


From e172597abd9d4ef5b977af53ea2b49d7f9b6f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 42/48] fix: the dimensions of a geometry may be given by a
 parameter

---
 .../rei/format/mapping/cognilang_file_icon.py  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index e038692..d7df5f3 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -154,16 +154,22 @@ class CognilangParserFileIcon(CogniLangVisitor):
             self._reference_cache[_ref_name] = ref_e
 
     def __extract_vector_field_values(self, ctx: CogniLangParser.Field_float_vectorContext):
-        yield from self.__extract_float_vector_values(ctx.float_vector())
+        if ctx.ref_() is not None:
+            yield from self.__extract_parameter_values(ctx.ref_())
+        else:
+            yield from self.__extract_float_vector_values(ctx.float_vector())
+
+    def __extract_parameter_values(self, ctx: CogniLangParser.Ref_Context):
+        __ref_name = str(ctx.ID())
+        p = next(self.__parameters.get_subelements(
+            lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))
+        for _p in p.get_values():
+            yield float(_p)
 
     def __extract_float_vector_values(self, ctx: CogniLangParser.Float_vectorContext, parent=None):
         for x in ctx.value():
             if x.ref_() is not None:
-                __ref_name = str(x.ref_().ID())
-                p = next(self.__parameters.get_subelements(
-                    lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))
-                for _p in p.get_values():
-                    yield float(_p)
+                yield from self.__extract_parameter_values(x.ref_())
             else:
                 yield float(str(x.FLOAT()))
 
-- 
2.43.0


From ec3f9591639c526c7dfb4ef7cee3dc7919f4cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 43/48] fix: CogniLang: an unsigned number is an integer
 (DECIMALS took it)

---
 .../speclanguage/src/main/antlr4/HypergraphBasicElements.g4     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4 b/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4
index 9a9ac32..106509b 100644
--- a/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4
+++ b/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4
@@ -48,7 +48,7 @@ bi_dir  : BI_DIR;
 BI_DIR  : '--';
 
 
-DECIMALS: [0-9]+;
+fragment DECIMALS: [0-9]+;
 ID      : [a-zA-Z_/]+DECIMALS*ID*;
 INT     : [-]?DECIMALS+;
 FLOAT   : [-]?DECIMALS+('.'DECIMALS)+?;
-- 
2.43.0


From 123c6a968d0c4f6742b2922b3b636e9fc3a1edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:39 +0000
Subject: [PATCH 44/48] fix: the dimension of a value node follows the
 assignment of a slice

---
 framework_python/rei/hypergraph/value_node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/hypergraph/value_node.py b/framework_python/rei/hypergraph/value_node.py
index f18afe5..ca516a6 100644
--- a/framework_python/rei/hypergraph/value_node.py
+++ b/framework_python/rei/hypergraph/value_node.py
@@ -34,6 +34,8 @@ class ValueNode(HierarchicalElement):
 
     def __setitem__(self, key, value):
         self._values[key] = value
+        # A slice may change the number of values
+        self.dim = len(self._values)
 
     def __iter__(self):
         return (self[i] for i in range(self.dim))
-- 
2.43.0


From 1f4cdebcda41af43bc9a8c012084f15e019b4819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:08 +0000
Subject: [PATCH 45/48] fix: adding an element to a relation it already has a
 port to raised half way

The endpoint of a relation, or an element that has been in the relation
before, has its port already: it was moved into the relation, then the
second port was refused with ErrorDuplicateElement.
---
 framework_python/rei/hypergraph/base_elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 806afd1..d61e7c3 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -115,8 +115,8 @@ class HypergraphRelation(HierarchicalElement):
 
     def add_element(self, element: HierarchicalElement) -> None:
         super().add_element(element)
-        if isinstance(element, HypergraphElement):
-            # Set port
+        # Set port, unless the element is an endpoint or has been added before
+        if isinstance(element, HypergraphElement) and all(p.endpoint is not self for p in element.sub_ports):
             element.connect(self)
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
-- 
2.43.0


From 2e867b0d47770231f0b9caa7b085adb49068efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:09 +0000
Subject: [PATCH 46/48] fix: creating an element in a relation raised half way

The parent relation connects the element while it is still being set up:
the element was left in the relation without its port and without
anything its constructor sets afterwards.
---
 framework_python/rei/hypergraph/base_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index d61e7c3..d2c22b5 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -34,10 +34,11 @@ class HypergraphElement(ConceptualItem):
 
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None):
-        super().__init__(id_name, uuid, qualified_name, clock, parent)
         self._id_generation = Sha3UniqueIdentifierGenerator(uuid.hex(), HypergraphElement.identification_generation)
         # Ports to deduce associated relations
         self._ports: dict[bytes, HypergraphPort] = {}
+        # A parent relation connects the element to itself
+        super().__init__(id_name, uuid, qualified_name, clock, parent)
 
     @staticmethod
     def identification_generation(x: str, y: IdentifiableItem):
-- 
2.43.0


From 16834ed1febd353d585f047726c2aa9a6a366bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:16 +0000
Subject: [PATCH 47/48] fix: the hierarchy of an edge without container could
 not be printed

print_element asked the missing container for its name (AttributeError);
a node without container is printed without.
---
 .../rei/foundations/hierarchical_traversal_strategies.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 4aa7184..4c4e5d9 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -112,7 +112,10 @@ def print_element(_el):
                 print(f"node {_el.qualified_name}: {_el.id_name} <- {_el.parent.id_name}")
         case HypergraphEdge():
             _el: HypergraphEdge
-            print(f"edge {_el.qualified_name}: {_el.id_name} {_el.cnt_subelements} <- {_el.parent.id_name}")
+            if _el.parent is None:
+                print(f"edge {_el.qualified_name}: {_el.id_name} {_el.cnt_subelements}")
+            else:
+                print(f"edge {_el.qualified_name}: {_el.id_name} {_el.cnt_subelements} <- {_el.parent.id_name}")
         case HypergraphRelation():
             _el: HypergraphRelation
             print(f"relation {_el.qualified_name}: {direction_to_text(_el.direction)} {_el.endpoint.id_name}:: {_el.weight}")
-- 
2.43.0


From ab7e33f2c15f912dcc85c1a178b4a0016daa1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:56 +0000
Subject: [PATCH 48/48] fix: factorizations took elements of different
 containers with one identifier for the same

---
 .../rei/hypergraph/factorization_operations.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 801e20a..bdc805e 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -61,7 +61,7 @@ class Factorization2SubsetOperation(GraphMonad):
             for e in i_e:
                 o_e = filter(lambda x: x.endpoint in self.nodes, __edge.get_outgoing_relations())
                 for e1 in o_e:
-                    if (e.endpoint.uuid != e1.endpoint.uuid) or self.self_loop:
+                    if (e.endpoint is not e1.endpoint) or self.self_loop:
                         self.__relation_list.append([e, e1])
         return self.__relation_list
 
@@ -78,22 +78,22 @@ class RelationFactorization2SubsetOperation(GraphMonad):
         self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
         self.incoming_relations = {}
         self.outgoing_relations = {}
-        # Collect incoming and outgoing edges
+        # Collect incoming and outgoing edges (identifiers are only unique within a container)
         for __rel in filter(lambda x: isinstance(x, HypergraphRelation), start):
             __rel: HypergraphRelation
             if __rel.direction == EnumRelationDirection.INWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
-                if __rel.parent.uuid not in self.incoming_relations:
-                    self.incoming_relations[__rel.parent.uuid] = []
-                self.incoming_relations[__rel.parent.uuid].append(__rel)
+                if id(__rel.parent) not in self.incoming_relations:
+                    self.incoming_relations[id(__rel.parent)] = []
+                self.incoming_relations[id(__rel.parent)].append(__rel)
             if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
-                if __rel.parent.uuid not in self.outgoing_relations:
-                    self.outgoing_relations[__rel.parent.uuid] = []
-                self.outgoing_relations[__rel.parent.uuid].append(__rel)
+                if id(__rel.parent) not in self.outgoing_relations:
+                    self.outgoing_relations[id(__rel.parent)] = []
+                self.outgoing_relations[id(__rel.parent)].append(__rel)
         # Pair relations
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
                 for o_e in self.outgoing_relations.get(k, []):
-                    if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
+                    if (o_e.endpoint is not i_e.endpoint) or self.self_loop:
                         self.__relation_list.append([i_e, o_e])
         # Relation list
         return self.__relation_list
-- 
2.43.0

