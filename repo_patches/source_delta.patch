From 496e8606dc8e3184e595d22fd5d4b871d637fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 01/38] fix: concepts without visible attributes have zero
 expected correct guesses

Fitting an empty or hidden-only instance made later fits divide by zero.
---
 concept_formation/cobweb.py  | 3 +++
 concept_formation/cobweb3.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 4151605..994f2fe 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -399,6 +399,9 @@ class CobwebNode(object):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
+
         return correct_guesses / attr_count
 
     def category_utility(self):
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 1fb2f79..eaee589 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -284,6 +284,9 @@ class Cobweb3Node(CobwebNode):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
+
         return correct_guesses / attr_count
 
     def pretty_print(self, depth=0):
-- 
2.43.0


From e06fe3217648488771dd5d980d1935cbd288db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 02/38] fix: k_cluster unpacks the clusterings produced by
 cluster_iter

Every call raised TypeError: unhashable type: 'list'.
---
 concept_formation/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index e723d60..c164490 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -80,7 +80,7 @@ def k_cluster(tree, instances, k=3, mod=True):
                          "guaranteed to have at least 2 children.")
 
     clustering = ["Concept" + str(tree.root.concept_id) for i in instances]
-    for c in cluster_iter(tree, instances, mod=mod):
+    for c, _ in cluster_iter(tree, instances, mod=mod):
         if len(set(c)) > k:
             break
         clustering = c
-- 
2.43.0


From 31e056f572ceae70d49bed9054328ca6f991f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 03/38] fix: clustering with minsplit > 1 performs the first
 splits

The assignments were only computed from minsplit on, so no cluster was ever
split and nothing was yielded.
---
 concept_formation/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index c164490..f99bbcf 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -430,19 +430,19 @@ def cluster_iter(tree, instances, heuristic=CU, minsplit=1, maxsplit=100000,
 
         cluster_assign = []
         child_cluster_assign = []
+        clusters = []
+        for i, c in enumerate(temp_clusters):
+            child = None
+            while (c.parent and c.parent.parent):
+                child = c
+                c = c.parent
+            if labels:
+                clusters.append("Concept" + str(c.concept_id))
+            else:
+                clusters.append(c)
+            cluster_assign.append(c)
+            child_cluster_assign.append(child)
         if nth_split >= minsplit:
-            clusters = []
-            for i, c in enumerate(temp_clusters):
-                child = None
-                while (c.parent and c.parent.parent):
-                    child = c
-                    c = c.parent
-                if labels:
-                    clusters.append("Concept" + str(c.concept_id))
-                else:
-                    clusters.append(c)
-                cluster_assign.append(c)
-                child_cluster_assign.append(child)
             yield clusters, heuristic(cluster_assign, temp_clusters)
 
         split_cus = []
-- 
2.43.0


From 5572ccdac9ee69a9865976a9c20e536d895b8215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 04/38] fix: cluster_split_search(labels=False) falls back to
 nodes, not labels

---
 concept_formation/cluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index f99bbcf..96e7890 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -379,6 +379,7 @@ def cluster_split_search(tree, instances, heuristic=CU, minsplit=1, maxsplit=1,
                            minsplit=minsplit, maxsplit=maxsplit, mod=mod,
                            labels=False)
     min_h = (-1, float('inf'), ["Concept" + str(tree.root.concept_id)
+                                if labels else tree.root
                                 for i in range(len(instances))])
     split = minsplit
     if verbose:
-- 
2.43.0


From d14b496a94844a4fe73bea098c28192d340e616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 05/38] fix: visualize_clusters trims to clusters given as
 concept nodes

The bare ids never matched the exported concept names.
---
 concept_formation/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 9c0352c..2880b24 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -153,7 +153,7 @@ def visualize_clusters(tree, clusters, dst=None, recreate_html=True):
     :type create_html: bool
     """
     if isinstance(clusters[0], CobwebNode):
-        clusters = {str(c.concept_id) for c in clusters}
+        clusters = {"Concept" + str(c.concept_id) for c in clusters}
     else:
         clusters = set(clusters)
 
-- 
2.43.0


From 8df632760f54ca3e18300c64fd74caa995095f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 06/38] fix: NameStandardizer restores the names of variables
 with plain values

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 802cc94..4eedc26 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -444,7 +444,7 @@ class NameStandardizer(Preprocessor):
                 temp_rel = rename_relation(attr, self.reverse_mapping)
                 new_instance[temp_rel] = instance[attr]
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[name] = instance[attr]
 
         return new_instance
 
-- 
2.43.0


From 96adbd333eb64a8d452696a92606077d65d01214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 07/38] fix: attributes of hidden components stay hidden when
 flattened

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 4eedc26..bc5f24d 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -706,7 +706,7 @@ class Flattener(Preprocessor):
         for attr in instance:
             original = attr
             if outer_attr is not None:
-                if attr[0] == "_":
+                if attr[0] == "_" or outer_attr[0] == "_":
                     attr = ('_', (attr, outer_attr))
                 else:
                     attr = (attr, outer_attr)
-- 
2.43.0


From 19bb908109c0907f83940a7e250f00dd447b19fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 08/38] fix: NominalToNumeric handles component and non-string
 values

Components were passed to float() (TypeError) instead of being converted
recursively, and unparsable non-strings escaped the on_fail setting.
---
 concept_formation/preprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index bc5f24d..29dcc28 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1596,10 +1596,10 @@ class NominalToNumeric(OneWayPreprocessor):
         new_instance = {}
 
         for a in instance:
-            if a in attrs:
+            if a in attrs and not isinstance(instance[a], dict):
                 try:
                     val = float(instance[a])
-                except ValueError as e:
+                except (ValueError, TypeError) as e:
                     if self.on_fail == "break":
                         raise e
                         return None
-- 
2.43.0


From 8088a1e0720096ea989fe3109e39804a7dbba438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 09/38] fix: Tuplizer can undo relations that contain numbers

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 29dcc28..4ee7564 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -295,7 +295,7 @@ class Tuplizer(Preprocessor):
         """
         if isinstance(relation, tuple):
             relation = [self._stringify_relation(ele) if isinstance(ele, tuple)
-                        else ele for ele in relation]
+                        else str(ele) for ele in relation]
             return "(" + " ".join(relation) + ")"
         else:
             return relation
-- 
2.43.0


From 7690f6bca2a0842de4daf2418c52781e6ab553bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 10/38] fix: ObjectVariablizer renames variablized objects
 inside relations

---
 concept_formation/preprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 4ee7564..ca1e3f4 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1432,6 +1432,7 @@ class ObjectVariablizer(OneWayPreprocessor):
                 name = attr
                 if attr[0] != '?':
                     name = '?' + attr
+                mapping[attr] = name
                 new_instance[name] = self._variablize(instance[attr], mapping,
                                                       prefix)
             else:
-- 
2.43.0


From 341970142aa8e1c7481613839ee4df55b8af51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 11/38] fix: Sanitizer honours its spec regardless of case

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index ca1e3f4..73a5e52 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1665,7 +1665,7 @@ class Sanitizer(OneWayPreprocessor):
         if spec.lower() not in ['trestle', 'cobweb', 'cobweb3']:
             raise ValueError(
                 "Invalid Spec: must be one of: 'trestle','cobweb','cobweb3'")
-        self.spec = spec
+        self.spec = spec.lower()
 
     def transform(self, instance):
         return self._sanitize(instance)
-- 
2.43.0


From 5350089de7d7e59ff14e123a5457414aebbe545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 12/38] fix: loading n instances of a dataset returns n, not n
 + 1

---
 concept_formation/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/datasets.py b/concept_formation/datasets.py
index aaf79f9..3ec3f0e 100644
--- a/concept_formation/datasets.py
+++ b/concept_formation/datasets.py
@@ -23,7 +23,7 @@ def _load_json(filename, num_instances=None):
     output = []
     with open(join(module_path, 'data_files', filename)) as dat:
         for idx, lin in enumerate(dat):
-            if num_instances is not None and idx > num_instances:
+            if num_instances is not None and idx >= num_instances:
                 break
             output.append(json.loads(lin.strip('[],\n')))
     return output
-- 
2.43.0


From f6e550a7ba4a675449b3670630f027a28cc9593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 13/38] fix: incremental_evaluation no longer shuffles the
 caller's list

---
 concept_formation/evaluation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/evaluation.py b/concept_formation/evaluation.py
index 2445373..9082f57 100644
--- a/concept_formation/evaluation.py
+++ b/concept_formation/evaluation.py
@@ -226,6 +226,8 @@ def incremental_evaluation(tree, instances, attr, run_length, runs=1,
         the score for successive instances within a run.
     :rtype: A table of scores.
     """
+    instances = [i for i in instances]
+
     scores = []
     for r in range(runs):
         # print(r)
-- 
2.43.0


From c44a628a22c8657ba671f4d60b7102ef6cf35d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 14/38] fix: DummyTree maintains the scaling state its concepts
 use

Structure mapping and probabilities of numeric attributes raised
AttributeError.
---
 concept_formation/dummy.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9492c81..4cf2d51 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -8,7 +8,6 @@ from __future__ import print_function
 from __future__ import unicode_literals
 from __future__ import absolute_import
 from __future__ import division
-from concept_formation.cobweb3 import Cobweb3Node
 from concept_formation.trestle import TrestleTree
 from concept_formation.structure_mapper import StructureMapper
 from concept_formation.preprocessor import SubComponentProcessor
@@ -27,9 +26,7 @@ class DummyTree(TrestleTree):
     """
 
     def __init__(self):
-        self.root = Cobweb3Node()
-        self.root.tree = self
-        self.gensym_counter = 0
+        super(DummyTree, self).__init__()
         self.structure_map_internally = False
 
     def gensym(self):
@@ -67,6 +64,7 @@ class DummyTree(TrestleTree):
         else:
             pipeline = Pipeline(SubComponentProcessor(), Flattener())
         temp_instance = pipeline.transform(instance)
+        self.update_scales(temp_instance)
         self.root.increment_counts(temp_instance)
         return self.root
 
-- 
2.43.0


From 57fcceb5ea0523ae7cf24eb721f22cbea0aad027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:52 +0000
Subject: [PATCH 15/38] fix: undoing list relations leaves partial orders and
 cycles in place

The documented behaviour was a ValueError or KeyError instead, and rebuilding
a nested list wrote into the instance passed in.
---
 concept_formation/preprocessor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 73a5e52..88904bc 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1111,9 +1111,10 @@ class ListsToRelations(Preprocessor):
                 originals[lname].append((attr, instance[attr]))
 
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[attr] = deepcopy(instance[attr])
 
         for ele in elements:
+            order.setdefault(ele, [])
             new_list = [elements[ele].pop(0)]
             change = True
 
@@ -1125,7 +1126,7 @@ class ListsToRelations(Preprocessor):
                 while front is not None:
                     front = None
                     for a, b in order[ele]:
-                        if b == new_list[0]:
+                        if b == new_list[0] and a in elements[ele]:
                             change = True
                             front = (a, b)
                             elements[ele].remove(a)
@@ -1139,7 +1140,7 @@ class ListsToRelations(Preprocessor):
                 while back is not None:
                     back = None
                     for a, b in order[ele]:
-                        if a == new_list[-1]:
+                        if a == new_list[-1] and b in elements[ele]:
                             change = True
                             back = (a, b)
                             elements[ele].remove(b)
@@ -1148,14 +1149,14 @@ class ListsToRelations(Preprocessor):
                     if back is not None:
                         order[ele].remove(back)
 
-            if len(elements[ele]) == 0:
+            if len(elements[ele]) == 0 and len(order[ele]) == 0:
                 path = self._get_path(ele)
                 current = new_instance
                 while len(path) > 1:
                     current = current[path.pop(0)]
                 current[path[0]] = new_list
             else:
-                for attr, val in originals:
+                for attr, val in originals[ele]:
                     new_instance[attr] = val
 
         return new_instance
-- 
2.43.0


From b1e9f297bacf9e246d8a4a555c8adbbce19216fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:15 +0000
Subject: [PATCH 16/38] fix: SubComponentProcessor leaves shared and cyclic
 components relational

Undoing dropped all but one has-component relation of a shared component
(documented to be left in relational form) and recursed without end on a
cycle.
---
 concept_formation/preprocessor.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 88904bc..94cdb8a 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1282,13 +1282,33 @@ class SubComponentProcessor(Preprocessor):
         return self._embed_sub_objects(instance)
 
     def _embed_sub_objects(self, instance):
-        so_mapping = {attr[2]: (attr[2], attr[1]) for attr in instance
-                      if (isinstance(attr, tuple) and len(attr) == 3 and
-                          attr[0] == 'has-component')}
+        has_components = [attr for attr in instance
+                          if (isinstance(attr, tuple) and len(attr) == 3 and
+                              attr[0] == 'has-component')]
+        children = [attr[2] for attr in has_components]
+
+        # Objects that are components of several objects, or (indirectly) of
+        # themselves, cannot be embedded.
+        so_mapping = {}
+        embedded = set()
+        for attr in has_components:
+            if (children.count(attr[2]) == 1 and not
+                    self._is_embedded_in(attr[1], attr[2], so_mapping)):
+                so_mapping[attr[2]] = (attr[2], attr[1])
+                embedded.add(attr)
 
         return {self._rename_embedding(attr, so_mapping): instance[attr] for
-                attr in instance if not (isinstance(attr, tuple) and len(attr)
-                                         == 3 and attr[0] == 'has-component')}
+                attr in instance if attr not in embedded}
+
+    def _is_embedded_in(self, attr, obj, so_mapping):
+        if attr == obj:
+            return True
+        if attr in so_mapping:
+            return self._is_embedded_in(so_mapping[attr][1], obj, so_mapping)
+        if isinstance(attr, tuple):
+            return any(self._is_embedded_in(ele, obj, so_mapping) for ele in
+                       attr)
+        return False
 
     def _rename_embedding(self, attr, so_mapping):
         if attr in so_mapping:
-- 
2.43.0


From 815b484c143e022e5c24cdecbbaac54d18a0f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:15 +0000
Subject: [PATCH 17/38] fix: undoing list relations keeps orderings of lists
 without elements

---
 concept_formation/preprocessor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 94cdb8a..2708c07 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1113,6 +1113,11 @@ class ListsToRelations(Preprocessor):
             else:
                 new_instance[attr] = deepcopy(instance[attr])
 
+        for ele in originals:
+            if ele not in elements:
+                for attr, val in originals[ele]:
+                    new_instance[attr] = val
+
         for ele in elements:
             order.setdefault(ele, [])
             new_list = [elements[ele].pop(0)]
-- 
2.43.0


From e0013e0e76e8d44d5f41f97d2acc982f884c5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:33 +0000
Subject: [PATCH 18/38] fix: Trestle's infer_missing keeps given objects apart
 from inferred ones

An object of the instance named like one of the tree's internal objects
(e.g., '?o1') had its attributes overwritten by an inferred object's.
---
 concept_formation/trestle.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/concept_formation/trestle.py b/concept_formation/trestle.py
index 24e2e80..f1c2542 100644
--- a/concept_formation/trestle.py
+++ b/concept_formation/trestle.py
@@ -11,6 +11,8 @@ from __future__ import division
 from concept_formation.cobweb3 import Cobweb3Tree
 from concept_formation.cobweb3 import Cobweb3Node
 from concept_formation.structure_mapper import StructureMapper
+from concept_formation.structure_mapper import get_component_names
+from concept_formation.structure_mapper import rename_flat
 from concept_formation.preprocessor import SubComponentProcessor
 from concept_formation.preprocessor import Flattener
 from concept_formation.preprocessor import Pipeline
@@ -189,11 +191,13 @@ class TrestleTree(Cobweb3Tree):
         :return: A completed instance
         :rtype: instance
         """
-        preprocessing = Pipeline(NameStandardizer(self.gensym),
+        standardizer = NameStandardizer(self.gensym)
+        preprocessing = Pipeline(standardizer,
                                  Flattener(), SubComponentProcessor(),
                                  StructureMapper(self.root))
 
         temp_instance = preprocessing.transform(instance)
+        given_names = get_component_names(temp_instance)
         concept = self._cobweb_categorize(temp_instance)
 
         for attr in concept.attrs('all'):
@@ -203,6 +207,16 @@ class TrestleTree(Cobweb3Tree):
             if val is not None:
                 temp_instance[attr] = val
 
+        # inferred objects must not be confused with the instance's objects
+        user_names = set(standardizer.reverse_mapping.values())
+        clashes = {}
+        for name in get_component_names(temp_instance) - given_names:
+            if name in user_names:
+                clashes[name] = self.gensym()
+                while clashes[name] in user_names:
+                    clashes[name] = self.gensym()
+        temp_instance = rename_flat(temp_instance, clashes)
+
         temp_instance = preprocessing.undo_transform(temp_instance)
         return temp_instance
 
-- 
2.43.0


From 7bda6d3f66c33bedd9615cff83b6f951005f4a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:02 +0000
Subject: [PATCH 19/38] fix: undoing flattening keeps attributes of variables
 with plain values

Inferring missing values with a variable that has a plain value, matched to
an object of the tree, raised a TypeError or overwrote the given value.
---
 concept_formation/preprocessor.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 2708c07..1d53228 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -627,14 +627,24 @@ class Flattener(Preprocessor):
         {'l1': {'l2': {'l3': {'l4': 1}}}}
         """
         temp = {}
+        paths = {}
         for attr in instance:
             if (isinstance(attr, tuple) and len(attr) == 2):
-                path = self._get_path(attr)
-                curr = temp
-                for sa in path[:-1]:
-                    if sa not in curr:
-                        curr[sa] = {}
-                    curr = curr[sa]
+                paths[attr] = self._get_path(attr)
+            else:
+                temp[attr] = instance[attr]
+
+        # outer attributes first, so that an attribute of something that has a
+        # plain value (rather than being an object) can be recognized and left
+        # flat.
+        for attr in sorted(paths, key=lambda a: len(paths[a])):
+            path = paths[attr]
+            curr = temp
+            for sa in path[:-1]:
+                curr = curr.setdefault(sa, {})
+                if not isinstance(curr, dict):
+                    break
+            if isinstance(curr, dict):
                 curr[path[-1]] = instance[attr]
             else:
                 temp[attr] = instance[attr]
-- 
2.43.0


From 9c84c01df1642ee68f89d6eb0320c6ddc420b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:31 +0000
Subject: [PATCH 20/38] fix: missing values are certain at a concept without
 instances

The probability of an attribute being missing divided by zero at an empty
concept, so incremental_evaluation failed if the first instance lacked the
target attribute.
---
 concept_formation/cobweb.py  |  7 +++----
 concept_formation/cobweb3.py | 10 +++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 994f2fe..cb69025 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -1146,10 +1146,9 @@ class CobwebNode(object):
         :rtype: float
         """
         if val is None:
-            c = 0.0
-            if attr in self.av_counts:
-                c = sum([self.av_counts[attr][v] for v in
-                         self.av_counts[attr]])
+            if attr not in self.av_counts:
+                return 1.0
+            c = sum([self.av_counts[attr][v] for v in self.av_counts[attr]])
             return (self.count - c) / self.count
 
         if attr in self.av_counts and val in self.av_counts[attr]:
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index eaee589..20e74b0 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -443,11 +443,11 @@ class Cobweb3Node(CobwebNode):
         :rtype: float
         """
         if val is None:
-            c = 0.0
-            if attr in self.av_counts:
-                c = sum([self.av_counts[attr][v].num if v == cv_key
-                         else self.av_counts[attr][v] for v in
-                         self.av_counts[attr]])
+            if attr not in self.av_counts:
+                return 1.0
+            c = sum([self.av_counts[attr][v].num if v == cv_key
+                     else self.av_counts[attr][v] for v in
+                     self.av_counts[attr]])
             return (self.count - c) / self.count
 
         if attr in self.av_counts and isNumber(val):
-- 
2.43.0


From 3ffee4c8cc2b216fb301f482ed073702105352ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:33 +0000
Subject: [PATCH 21/38] fix: TrestleTree rejects None values like the other
 trees

None marks missing values; a stored None was confused with them.
---
 concept_formation/trestle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/concept_formation/trestle.py b/concept_formation/trestle.py
index f1c2542..7ff1cd4 100644
--- a/concept_formation/trestle.py
+++ b/concept_formation/trestle.py
@@ -116,6 +116,9 @@ class TrestleTree(Cobweb3Tree):
                                      ' in instance: ' + str(instance) +
                                      ',\n' + type(self).__name__ +
                                      ' only works with hashable values.')
+                if instance[attr] is None:
+                    raise ValueError("Attributes with value None should"
+                                     " be manually removed.")
 
     def _sanity_check_relation(self, relation, instance):
         for v in relation:
-- 
2.43.0


From f04a4406a2604eba7d7b0717f090b959fa34e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:36 +0000
Subject: [PATCH 22/38] fix: clustering breaks ties by instance order, not by
 hash order

---
 concept_formation/cluster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index 96e7890..e3ee0c0 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 from __future__ import absolute_import
 from __future__ import division
 
+from collections import OrderedDict
 from math import log
 import copy
 
@@ -176,7 +177,7 @@ def CU(cluster, leaves):
     """
     temp_root = cluster[0].__class__()
     temp_root.tree = cluster[0].tree
-    for c in set(cluster):
+    for c in OrderedDict.fromkeys(cluster):
         temp_child = cluster[0].__class__()
         temp_child.tree = c.tree
         for leaf in leaves:
@@ -448,7 +449,7 @@ def cluster_iter(tree, instances, heuristic=CU, minsplit=1, maxsplit=100000,
 
         split_cus = []
 
-        for i, target in enumerate(set(cluster_assign)):
+        for i, target in enumerate(OrderedDict.fromkeys(cluster_assign)):
             if len(target.children) == 0:
                 continue
             c_labels = [label if label != target else child_cluster_assign[j]
-- 
2.43.0


From b8e5022b0eb76e0b60030c21bf748137b5996ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:43 +0000
Subject: [PATCH 23/38] fix: structure mapping accepts an initial mapping given
 as a dict

---
 concept_formation/structure_mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/concept_formation/structure_mapper.py b/concept_formation/structure_mapper.py
index eeaa3f2..4238727 100644
--- a/concept_formation/structure_mapper.py
+++ b/concept_formation/structure_mapper.py
@@ -207,7 +207,8 @@ def flat_match(target, base, initial_mapping=None):
     if initial_mapping is None:
         initial_mapping = hungarian_mapping(inames, cnames, target, base)
     else:
-        initial_mapping = frozenset([(a, v) for a, v in initial_mapping if a in
+        initial_mapping = frozenset([(a, v) for a, v in
+                                     dict(initial_mapping).items() if a in
                                      inames and v in cnames])
 
     unmapped = cnames - frozenset(dict(initial_mapping).values())
-- 
2.43.0


From 722be0191d8421e3bf0d2029557b492673e9cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:13 +0000
Subject: [PATCH 24/38] fix: lists inside objects survive undoing the full
 pipeline

---
 concept_formation/preprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 1d53228..f08ea1b 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1169,7 +1169,10 @@ class ListsToRelations(Preprocessor):
                 current = new_instance
                 while len(path) > 1:
                     current = current[path.pop(0)]
-                current[path[0]] = new_list
+                # elements live beside their list, so only their own name is
+                # needed, even if they were embedded
+                current[path[0]] = [ele[0] if isinstance(ele, tuple) else ele
+                                    for ele in new_list]
             else:
                 for attr, val in originals[ele]:
                     new_instance[attr] = val
-- 
2.43.0


From b101c001490b13f5a191a6697ceaba894ef2e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:52 +0000
Subject: [PATCH 25/38] fix: extracted list elements never take the name of
 another object

---
 concept_formation/preprocessor.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index f08ea1b..b2d59fe 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -940,7 +940,7 @@ class ExtractListElements(Preprocessor):
         Find all lists in an instance and extract their elements into their own
         subjects of the main instance.
         """
-        new_instance = self._extract(instance)
+        new_instance = self._extract(instance, self._get_names(instance))
         return new_instance
 
     def undo_transform(self, instance):
@@ -981,7 +981,25 @@ class ExtractListElements(Preprocessor):
 
         return new_instance
 
-    def _extract(self, instance):
+    def _get_names(self, value):
+        """
+        Returns all the names used in an instance's attributes, at any depth.
+        """
+        names = set()
+        if isinstance(value, dict):
+            for attr in value:
+                names.add(attr)
+                names |= self._get_names(attr)
+                names |= self._get_names(value[attr])
+        elif isinstance(value, (list, tuple)):
+            for ele in value:
+                if isinstance(ele, str):
+                    names.add(ele)
+                else:
+                    names |= self._get_names(ele)
+        return names
+
+    def _extract(self, instance, used=frozenset()):
         """
         Unlike the utils.extract_components function this one will extract ALL
         elements into their own objects not just object literals
@@ -1003,13 +1021,15 @@ class ExtractListElements(Preprocessor):
                         new_obj = {"val": el}
 
                     new_att = self.gensym()
-                    new_instance[new_att] = self._extract(new_obj)
+                    while new_att in used:
+                        new_att = self.gensym()
+                    new_instance[new_att] = self._extract(new_obj, used)
                     new_list.append(new_att)
 
                 new_instance[a] = new_list
 
             elif isinstance(instance[a], dict):
-                new_instance[a] = self._extract(instance[a])
+                new_instance[a] = self._extract(instance[a], used)
             else:
                 new_instance[a] = instance[a]
 
-- 
2.43.0


From 163dfc7bb1d65ffdbd76d9d1374b89fc2e96a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:37 +0000
Subject: [PATCH 26/38] fix: SubComponentProcessor does not unpack
 two-character names

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index b2d59fe..a717689 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1400,7 +1400,7 @@ class SubComponentProcessor(Preprocessor):
         inner = None
         relations = []
 
-        while len(attr) == 2:
+        while isinstance(attr, tuple) and len(attr) == 2:
             a, attr = attr
             if isinstance(a, str) and len(a) > 0 and a[0] == '?':
                 if last_comp is not None:
-- 
2.43.0


From e525b082d26aa8a8f61e798ebadf52f94578a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:47 +0000
Subject: [PATCH 27/38] fix: log-likelihood of outliers does not underflow

---
 concept_formation/cobweb3.py          |  7 ++-----
 concept_formation/continuous_value.py | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 20e74b0..5658d62 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -507,11 +507,8 @@ class Cobweb3Node(CobwebNode):
                         n2 = child_leaf.av_counts[attr][cv_key]
                         pn1 = n1.num / self.count
                         pn2 = n2.num / child_leaf.count
-                        p = pn1 * pn2 * n1.integral_of_gaussian_product(n2)
-                        if p > 0:
-                            ll += log(p)
-                        else:
-                            raise Exception("p should be greater than 0")
+                        ll += (log(pn1 * pn2) +
+                               n1.log_integral_of_gaussian_product(n2))
                 else:
                     op = child_leaf.probability(attr, val)
                     if op > 0:
diff --git a/concept_formation/continuous_value.py b/concept_formation/continuous_value.py
index d465862..af60cbd 100644
--- a/concept_formation/continuous_value.py
+++ b/concept_formation/continuous_value.py
@@ -4,6 +4,7 @@ from __future__ import absolute_import
 from __future__ import division
 from math import sqrt
 from math import exp
+from math import log
 from math import pi
 
 from concept_formation.utils import c4
@@ -216,6 +217,19 @@ class ContinuousValue():
                 exp(-1 * (mu1 - mu2) * (mu1 - mu2) /
                     (2 * (sd1 * sd1 + sd2 * sd2))))
 
+    def log_integral_of_gaussian_product(self, other):
+        """
+        Computes the logarithm of :meth:`integral_of_gaussian_product`, also
+        for means that are so far apart that the integral itself underflows.
+        """
+        diff = self.unbiased_mean() - other.unbiased_mean()
+        sd1 = self.unbiased_std()
+        sd2 = other.unbiased_std()
+
+        noisy_sd_squared = 1 / (4 * pi)
+        var = sd1 * sd1 + sd2 * sd2 + 2 * noisy_sd_squared
+        return -0.5 * log(2 * pi * var) - diff * diff / (2 * var)
+
     def output_json(self):
         return {
             'mean': self.unbiased_mean(),
-- 
2.43.0


From d0240955165ec9774d00f7da755f8f53215667da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:46 +0000
Subject: [PATCH 28/38] fix: DummyTree rejects invalid instances before
 learning anything

---
 concept_formation/dummy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 4cf2d51..b4126f8 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -64,6 +64,7 @@ class DummyTree(TrestleTree):
         else:
             pipeline = Pipeline(SubComponentProcessor(), Flattener())
         temp_instance = pipeline.transform(instance)
+        self._sanity_check_instance(temp_instance)
         self.update_scales(temp_instance)
         self.root.increment_counts(temp_instance)
         return self.root
-- 
2.43.0


From fb783e345d6259a3ec896ea8cce78ea2b778f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:56 +0000
Subject: [PATCH 29/38] fix: ObjectVariablizer renames nested objects inside
 relations

---
 concept_formation/preprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index a717689..7e4bc63 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1471,7 +1471,8 @@ class ObjectVariablizer(OneWayPreprocessor):
     def _variablize(self, instance, mapping={}, prefix=None):
         new_instance = {}
 
-        mapping = {}
+        if prefix is None:
+            mapping = {}
         relations = []
         if self.targets is None:
             attrs = [k for k in instance.keys()]
-- 
2.43.0


From e98f441dbf90e1ee82006065899ee6d0eb2c0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:54 +0000
Subject: [PATCH 30/38] fix: Sanitizer stringifies tuples with unhashable
 elements

---
 concept_formation/preprocessor.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 7e4bc63..a96449a 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1744,6 +1744,16 @@ class Sanitizer(OneWayPreprocessor):
         else:
             return str(d)
 
+    def _is_hashable(self, val):
+        """
+        Tuples count as hashable for python even if their elements are not.
+        """
+        try:
+            hash(val)
+        except TypeError:
+            return False
+        return True
+
     def _sanitize_tuple(self, tup):
         ret = []
         for v in tup:
@@ -1765,7 +1775,7 @@ class Sanitizer(OneWayPreprocessor):
                           'is clobbering an existing value')
 
                 if self.spec == 'trestle':
-                    if isinstance(val, collectionsAbc.Hashable):
+                    if self._is_hashable(val):
 
                         ret[str(attr)] = val
                     elif isinstance(val, dict):
@@ -1773,11 +1783,11 @@ class Sanitizer(OneWayPreprocessor):
                     else:
                         ret[str(attr)] = self._cob_str(val)
                 else:
-                    ret[str(attr)] = val if isinstance(
-                        val, collectionsAbc.Hashable) else self._cob_str(val)
+                    ret[str(attr)] = (val if self._is_hashable(val)
+                                      else self._cob_str(val))
             if isinstance(attr, str):
                 if self.spec == 'trestle':
-                    if isinstance(val, collectionsAbc.Hashable):
+                    if self._is_hashable(val):
 
                         ret[attr] = val
                     elif isinstance(val, dict):
@@ -1785,9 +1795,8 @@ class Sanitizer(OneWayPreprocessor):
                     else:
                         ret[attr] = self._cob_str(val)
                 else:
-                    ret[attr] = val if isinstance(
-
-                        val, collectionsAbc.Hashable) else self._cob_str(val)
+                    ret[attr] = (val if self._is_hashable(val)
+                                 else self._cob_str(val))
 
             if isinstance(attr, tuple):
                 if self.spec == 'trestle':
@@ -1796,13 +1805,13 @@ class Sanitizer(OneWayPreprocessor):
                         print('Sanitizing', attr,
                               'is clobbering an existing vlaue')
 
-                    if isinstance(val, collectionsAbc.Hashable):
+                    if self._is_hashable(val):
                         ret[san_tup] = val
                     elif isinstance(val, dict):
                         ret[san_tup] = self._sanitize(val)
                     else:
                         ret[san_tup] = self._cob_str(val)
                 else:
-                    ret[attr] = val if isinstance(
-                        val, collectionsAbc.Hashable) else self._cob_str(val)
+                    ret[attr] = (val if self._is_hashable(val)
+                                 else self._cob_str(val))
         return ret
-- 
2.43.0


From 465b46a954594072c3ffa1ca0a843b8e1493c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:06 +0000
Subject: [PATCH 31/38] fix: weighted_choice rejects negative weights wherever
 they are listed

---
 concept_formation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 65944a9..4bf0ff0 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -138,12 +138,12 @@ def weighted_choice(choices):
     .. seealso::
         :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
     """
+    if any(w < 0 for c, w in choices):
+        raise ValueError('All weights must be greater than or equal to 0.')
     total = sum(w for c, w in choices)
     r = uniform(0, total)
     upto = 0
     for c, w in choices:
-        if w < 0:
-            raise ValueError('All weights must be greater than or equal to 0.')
         if upto + w > r:
             return c
         upto += w
-- 
2.43.0


From 879003b65a4ac31489c17d3ee4e28b5bd5123846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:56 +0000
Subject: [PATCH 32/38] fix: viewer filter for component properties recognises
 relations as exported

---
 concept_formation/visualization_files/viz_logic.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/visualization_files/viz_logic.js b/concept_formation/visualization_files/viz_logic.js
index 3b30408..4ebae4f 100644
--- a/concept_formation/visualization_files/viz_logic.js
+++ b/concept_formation/visualization_files/viz_logic.js
@@ -93,7 +93,7 @@
     if(/\('.+'\,.*\)/g.test(attr)){
       typs.push('relation');
     }
-    if(/\('.+'\,'\?.+'\)/g.test(attr)) {
+    if(/\('.+'\,\s*'\?.+'\)/g.test(attr)) {
       typs.push('component');
     }
     return typs;
-- 
2.43.0


From cfb8d3d7ef941b4b077008bf492b22cf01ab4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:27 +0000
Subject: [PATCH 33/38] fix: viewer shows attribute names and values containing
 markup as text

---
 concept_formation/visualization_files/viz_logic.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/concept_formation/visualization_files/viz_logic.js b/concept_formation/visualization_files/viz_logic.js
index 4ebae4f..0610a37 100644
--- a/concept_formation/visualization_files/viz_logic.js
+++ b/concept_formation/visualization_files/viz_logic.js
@@ -400,7 +400,7 @@
     for (var i=0; i < attrs.length;i++){
       var attrScale = av_properties[attrs[i]];
       
-      var opt = $("<option>"+attrs[i]+"</option>");
+      var opt = $("<option></option>").text(attrs[i]);
       opt.attr("value",attrs[i]);
       imgOptions.append(opt.clone());
 
@@ -457,7 +457,7 @@
           vals.reverse();
           for(i=0;i<vals.length;i++) {
             var tr = $("<tr></tr>");
-            var valName = $("<td>"+ vals[i] +"</td>");
+            var valName = $("<td></td>").text(vals[i]);
             var colorCell = $("<td></td>");
             valName.addClass("absorbing-column");
             colorCell.addClass("swatch");
@@ -494,7 +494,7 @@
             colorTable.html('');
             for(i=0;i<rootVals.length;i++) {
               var tr = $("<tr></tr>");
-              var valName = $("<td>"+ rootVals[i] +"</td>");
+              var valName = $("<td></td>").text(rootVals[i]);
               var colorCell = $("<td></td>");
               valName.addClass("absorbing-column");
               colorCell.addClass("swatch");
@@ -597,7 +597,7 @@
     for (var a in attrs) {
       attr = attrs[a]
       var tr = $("<tr></tr>");
-      var ar = $('<td colspan="3">'+attr+'</td>');
+      var ar = $('<td colspan="3"></td>').text(attr);
       ar.addClass("prop-column")
       tr.addClass("info");
       tr.append(ar);
-- 
2.43.0


From aa3d0d55b908c625fdf889c12fc3e0bea7307acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:35 +0000
Subject: [PATCH 34/38] fix: bind_flat_attr renames plain attributes

---
 concept_formation/structure_mapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/concept_formation/structure_mapper.py b/concept_formation/structure_mapper.py
index 4238727..9b105c6 100644
--- a/concept_formation/structure_mapper.py
+++ b/concept_formation/structure_mapper.py
@@ -140,9 +140,9 @@ def bind_flat_attr(attr, mapping):
     ...                {'?o1': '?c1', '?o2': '?c2'})
     ('<', ('a', '?c2'), ('a', '?c1'))
     """
-    return tuple([bind_flat_attr(ele, mapping) if isinstance(ele, tuple)
-                  else mapping[ele] if ele in mapping else ele for ele in
-                  attr])
+    if not isinstance(attr, tuple):
+        return mapping[attr] if attr in mapping else attr
+    return tuple([bind_flat_attr(ele, mapping) for ele in attr])
 
 
 def contains_component(component, attr):
-- 
2.43.0


From 7ed72596e9a70f79a60bfc74ce6e8aafb6181456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:15 +0000
Subject: [PATCH 35/38] fix: weighted_choice always draws one of its options

---
 concept_formation/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 4bf0ff0..a54b9f5 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -140,7 +140,10 @@ def weighted_choice(choices):
     """
     if any(w < 0 for c, w in choices):
         raise ValueError('All weights must be greater than or equal to 0.')
-    total = sum(w for c, w in choices)
+    # added up as below, so that r always falls on one of the choices
+    total = 0
+    for c, w in choices:
+        total += w
     r = uniform(0, total)
     upto = 0
     for c, w in choices:
-- 
2.43.0


From b1a4b1efc7d885ad73d8cbe511c66b7770ecd447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:09 +0000
Subject: [PATCH 36/38] fix: the viewer opens with attributes named like
 members of every object

---
 concept_formation/visualization_files/viz_logic.js | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/concept_formation/visualization_files/viz_logic.js b/concept_formation/visualization_files/viz_logic.js
index 0610a37..9476a57 100644
--- a/concept_formation/visualization_files/viz_logic.js
+++ b/concept_formation/visualization_files/viz_logic.js
@@ -99,8 +99,13 @@
     return typs;
   }
 
+  // attributes may be named like a member that every object inherits
+  function has(counts, attr) {
+    return Object.prototype.hasOwnProperty.call(counts,attr);
+  }
+
   function min_max(obj, attr, mm) {
-    if(obj.counts[attr] === undefined){
+    if(!has(obj.counts,attr)){
       return mm;
     }
     if(obj.counts[attr][CV_KEY].mean < mm[0]){
@@ -338,7 +343,7 @@
     }
     var circle = $("#"+d.name);
     // If the concept doesn't have the target attribute make it grey
-    if (targetAttr !== "none" && !d['counts'][targetAttr]) {
+    if (targetAttr !== "none" && !has(d['counts'],targetAttr)) {
       circle.css("fill",defaultGrey);
     }
     else {
-- 
2.43.0


From 15ca78b286b1ecd612e082649a0d4bdd4f912a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:38 +0000
Subject: [PATCH 37/38] fix: list elements with more than a val stay objects
 when undone

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index a96449a..a05876a 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -965,7 +965,7 @@ class ExtractListElements(Preprocessor):
                     elements[instance[a][i]] = True
                     obj = self._undo_extract(instance[instance[a][i]])
 
-                    if "val" not in obj:
+                    if "val" not in obj or len(obj) > 1:
                         new_list.append(obj)
                     else:
                         new_list.append(obj["val"])
-- 
2.43.0


From 7bb3762801edec6e8e5eef4a5aad09d6f1c587d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:35 +0000
Subject: [PATCH 38/38] fix: concepts created after restoring a pickled tree
 get names of their own

---
 concept_formation/cobweb.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index cb69025..5b79c24 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -958,6 +958,16 @@ class CobwebNode(object):
         return self.__class__._counter
         # return str(self.__class__._counter)
 
+    def __setstate__(self, state):
+        """
+        Restores a pickled concept. The counter is moved beyond its name, so
+        that the concepts created after restoring a tree (e.g., in another
+        process) get names of their own.
+        """
+        self.__dict__.update(state)
+        self.__class__._counter = max(self.__class__._counter,
+                                      self.concept_id)
+
     def __str__(self):
         """
         Call :meth:`CobwebNode.pretty_print`
-- 
2.43.0

