From 00b4e7231128d64dd23070c2f19f16814e5f8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 01/31] fix: NameStandardizer.undo_transform restores variable
 attributes and relations with component values

---
 concept_formation/preprocessor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 802cc94..1c35f96 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -433,6 +433,8 @@ class NameStandardizer(Preprocessor):
                 name = self.reverse_mapping[attr]
                 if isinstance(name, tuple):
                     name = name[0]
+            elif isinstance(attr, tuple):
+                name = rename_relation(attr, self.reverse_mapping)
 
             if isinstance(instance[attr], dict):
                 new_instance[name] = self._undo_standardize(instance[attr])
@@ -440,11 +442,8 @@ class NameStandardizer(Preprocessor):
                 new_instance[name] = [self._undo_standardize(ele) if
                                       isinstance(ele, dict) else ele for ele in
                                       instance[attr]]
-            elif isinstance(attr, tuple):
-                temp_rel = rename_relation(attr, self.reverse_mapping)
-                new_instance[temp_rel] = instance[attr]
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[name] = instance[attr]
 
         return new_instance
 
-- 
2.43.0


From bf143ad19f632126d011439f5b267e6f229d733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 02/31] fix: Flattener keeps attributes inside hidden
 components hidden

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 1c35f96..8100a65 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -705,7 +705,7 @@ class Flattener(Preprocessor):
         for attr in instance:
             original = attr
             if outer_attr is not None:
-                if attr[0] == "_":
+                if attr[0] == "_" or outer_attr[0] == "_":
                     attr = ('_', (attr, outer_attr))
                 else:
                     attr = (attr, outer_attr)
-- 
2.43.0


From 795860b5b3ee882e3ac91e6a924fd1f98d62ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 03/31] fix: SubComponentProcessor records the parent of
 variables nested in constant components

---
 concept_formation/preprocessor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 8100a65..f6cedc4 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1340,7 +1340,7 @@ class SubComponentProcessor(Preprocessor):
         inner = None
         relations = []
 
-        while len(attr) == 2:
+        while isinstance(attr, tuple) and len(attr) == 2:
             a, attr = attr
             if isinstance(a, str) and len(a) > 0 and a[0] == '?':
                 if last_comp is not None:
@@ -1348,8 +1348,7 @@ class SubComponentProcessor(Preprocessor):
                 last_comp = a
                 inner = self._extract_attr(attr)
 
-        if last_comp is not None and (isinstance(attr, str) and len(attr) > 0
-                                      and attr[0] == '?'):
+        if last_comp is not None:
             relations.append(('has-component', inner, last_comp))
 
         return relations
-- 
2.43.0


From 9f9e19258b1e8778f31f71136c7818798780dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 04/31] fix: Tuplizer.undo_transform handles numeric relation
 elements

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index f6cedc4..fd5f029 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -295,7 +295,7 @@ class Tuplizer(Preprocessor):
         """
         if isinstance(relation, tuple):
             relation = [self._stringify_relation(ele) if isinstance(ele, tuple)
-                        else ele for ele in relation]
+                        else str(ele) for ele in relation]
             return "(" + " ".join(relation) + ")"
         else:
             return relation
-- 
2.43.0


From 203afc2bce62ba360ad80de3a14c59b40e1bb8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 05/31] fix: NominalToNumeric recurses into components when no
 targets are given

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index fd5f029..56c8a4c 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1594,7 +1594,7 @@ class NominalToNumeric(OneWayPreprocessor):
         new_instance = {}
 
         for a in instance:
-            if a in attrs:
+            if a in attrs and not isinstance(instance[a], dict):
                 try:
                     val = float(instance[a])
                 except ValueError as e:
-- 
2.43.0


From 1f75f98bb1f1c1fd3f680a56afab23c010901a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 06/31] fix: Sanitizer spec is case insensitive

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 56c8a4c..53c97d9 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1662,7 +1662,7 @@ class Sanitizer(OneWayPreprocessor):
         if spec.lower() not in ['trestle', 'cobweb', 'cobweb3']:
             raise ValueError(
                 "Invalid Spec: must be one of: 'trestle','cobweb','cobweb3'")
-        self.spec = spec
+        self.spec = spec.lower()
 
     def transform(self, instance):
         return self._sanitize(instance)
-- 
2.43.0


From 52e3318724a68c7af5df08f39f3254964d781c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 07/31] fix: k_cluster unpacks the clusterings it iterates over

---
 concept_formation/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index e723d60..c164490 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -80,7 +80,7 @@ def k_cluster(tree, instances, k=3, mod=True):
                          "guaranteed to have at least 2 children.")
 
     clustering = ["Concept" + str(tree.root.concept_id) for i in instances]
-    for c in cluster_iter(tree, instances, mod=mod):
+    for c, _ in cluster_iter(tree, instances, mod=mod):
         if len(set(c)) > k:
             break
         clustering = c
-- 
2.43.0


From 63f643dc29f74d5f58f6ec4fa40f3fbd41060eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 08/31] fix: cluster_iter yields clusterings when minsplit is
 greater than 1

---
 concept_formation/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index c164490..f99bbcf 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -430,19 +430,19 @@ def cluster_iter(tree, instances, heuristic=CU, minsplit=1, maxsplit=100000,
 
         cluster_assign = []
         child_cluster_assign = []
+        clusters = []
+        for i, c in enumerate(temp_clusters):
+            child = None
+            while (c.parent and c.parent.parent):
+                child = c
+                c = c.parent
+            if labels:
+                clusters.append("Concept" + str(c.concept_id))
+            else:
+                clusters.append(c)
+            cluster_assign.append(c)
+            child_cluster_assign.append(child)
         if nth_split >= minsplit:
-            clusters = []
-            for i, c in enumerate(temp_clusters):
-                child = None
-                while (c.parent and c.parent.parent):
-                    child = c
-                    c = c.parent
-                if labels:
-                    clusters.append("Concept" + str(c.concept_id))
-                else:
-                    clusters.append(c)
-                cluster_assign.append(c)
-                child_cluster_assign.append(child)
             yield clusters, heuristic(cluster_assign, temp_clusters)
 
         split_cus = []
-- 
2.43.0


From 1ecb04ded8da9adef9f378add3b42692dfba73a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 09/31] fix: visualize_clusters trims to clusters given as
 concept nodes

---
 concept_formation/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 9c0352c..2880b24 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -153,7 +153,7 @@ def visualize_clusters(tree, clusters, dst=None, recreate_html=True):
     :type create_html: bool
     """
     if isinstance(clusters[0], CobwebNode):
-        clusters = {str(c.concept_id) for c in clusters}
+        clusters = {"Concept" + str(c.concept_id) for c in clusters}
     else:
         clusters = set(clusters)
 
-- 
2.43.0


From 93f3803a4ffce3d4a4392d3639f0fdc877095de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 10/31] fix: DummyTree has the scaling settings its numeric
 queries need

---
 concept_formation/dummy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9492c81..9f0a85d 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -30,6 +30,9 @@ class DummyTree(TrestleTree):
         self.root = Cobweb3Node()
         self.root.tree = self
         self.gensym_counter = 0
+        self.scaling = None
+        self.inner_attr_scaling = True
+        self.attr_scales = {}
         self.structure_map_internally = False
 
     def gensym(self):
-- 
2.43.0


From 6046b33d20da4dc0cc9faee498fe0d54442f2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 11/31] fix: dataset loaders return exactly num_instances
 instances

---
 concept_formation/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/datasets.py b/concept_formation/datasets.py
index aaf79f9..3ec3f0e 100644
--- a/concept_formation/datasets.py
+++ b/concept_formation/datasets.py
@@ -23,7 +23,7 @@ def _load_json(filename, num_instances=None):
     output = []
     with open(join(module_path, 'data_files', filename)) as dat:
         for idx, lin in enumerate(dat):
-            if num_instances is not None and idx > num_instances:
+            if num_instances is not None and idx >= num_instances:
                 break
             output.append(json.loads(lin.strip('[],\n')))
     return output
-- 
2.43.0


From 8f618686e11ae32765a2b4d0b6c78cf3494e47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 12/31] fix: incremental_evaluation scores exactly run_length
 instances per run

---
 concept_formation/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/evaluation.py b/concept_formation/evaluation.py
index 2445373..2356eba 100644
--- a/concept_formation/evaluation.py
+++ b/concept_formation/evaluation.py
@@ -236,7 +236,7 @@ def incremental_evaluation(tree, instances, attr, run_length, runs=1,
 
         row = []
 
-        for i, instance in enumerate(instances[:run_length+2]):
+        for i, instance in enumerate(instances[:run_length]):
             # print(i)
             val = None
             if attr in instance:
-- 
2.43.0


From f5870065bee9bc3a2b75a66e19f77bf5a58f2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 13/31] fix: concepts without visible attributes have zero
 expected correct guesses

---
 concept_formation/cobweb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 4151605..148db4f 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -399,6 +399,8 @@ class CobwebNode(object):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
         return correct_guesses / attr_count
 
     def category_utility(self):
-- 
2.43.0


From 22685aea6b90626641dd54ede39f9a23c4890b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 14/31] fix: numeric concepts without visible attributes have
 zero expected correct guesses

---
 concept_formation/cobweb3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 1fb2f79..fb9653e 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -284,6 +284,8 @@ class Cobweb3Node(CobwebNode):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
         return correct_guesses / attr_count
 
     def pretty_print(self, depth=0):
-- 
2.43.0


From 39f48f229ead3cce4d0817ecb611ec36652808d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 15/31] fix: an empty concept gives probability 1 to a missing
 value

---
 concept_formation/cobweb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 148db4f..2b31eb2 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -1149,6 +1149,8 @@ class CobwebNode(object):
             if attr in self.av_counts:
                 c = sum([self.av_counts[attr][v] for v in
                          self.av_counts[attr]])
+            if self.count == 0:
+                return 1.0
             return (self.count - c) / self.count
 
         if attr in self.av_counts and val in self.av_counts[attr]:
-- 
2.43.0


From 158b7af1d9624782680cf1e770e17903ab3a575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 16/31] fix: an empty numeric concept gives probability 1 to a
 missing value

---
 concept_formation/cobweb3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index fb9653e..a27d24d 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -447,6 +447,8 @@ class Cobweb3Node(CobwebNode):
                 c = sum([self.av_counts[attr][v].num if v == cv_key
                          else self.av_counts[attr][v] for v in
                          self.av_counts[attr]])
+            if self.count == 0:
+                return 1.0
             return (self.count - c) / self.count
 
         if attr in self.av_counts and isNumber(val):
-- 
2.43.0


From d1dc8ce3323e764eda466655f194d708b24ef7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 17/31] fix: combining empty continuous values leaves an empty
 continuous value

---
 concept_formation/continuous_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/continuous_value.py b/concept_formation/continuous_value.py
index d465862..39776b7 100644
--- a/concept_formation/continuous_value.py
+++ b/concept_formation/continuous_value.py
@@ -188,6 +188,8 @@ class ContinuousValue():
         """
         if not isinstance(other, ContinuousValue):
             raise ValueError("Can only merge 2 continuous values.")
+        if other.num == 0:
+            return
         delta = other.mean - self.mean
         self.meanSq = (self.meanSq + other.meanSq + delta * delta *
                        ((self.num * other.num) / (self.num + other.num)))
-- 
2.43.0


From 579fda0996cac8c0b3c2389e0b47b45bb48facfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 18/31] fix: ExtractListElements.undo_transform keeps elements
 that have more than a val attribute

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 53c97d9..535f0f5 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -954,7 +954,7 @@ class ExtractListElements(Preprocessor):
                     elements[instance[a][i]] = True
                     obj = self._undo_extract(instance[instance[a][i]])
 
-                    if "val" not in obj:
+                    if "val" not in obj or len(obj) != 1:
                         new_list.append(obj)
                     else:
                         new_list.append(obj["val"])
-- 
2.43.0


From 97bdf7a7a3d99e3d0d87e93fd9c7c409582b4905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 19/31] fix: ListsToRelations.undo_transform leaves partial
 orders and cycles relational and its input unchanged

---
 concept_formation/preprocessor.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 535f0f5..a729ea4 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1110,10 +1110,12 @@ class ListsToRelations(Preprocessor):
                 originals[lname].append((attr, instance[attr]))
 
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[attr] = deepcopy(instance[attr])
 
-        for ele in elements:
-            new_list = [elements[ele].pop(0)]
+        for ele in originals:
+            elements.setdefault(ele, [])
+            order.setdefault(ele, [])
+            new_list = [elements[ele].pop(0)] if elements[ele] else []
             change = True
 
             while len(elements[ele]) > 0 and change:
@@ -1124,7 +1126,7 @@ class ListsToRelations(Preprocessor):
                 while front is not None:
                     front = None
                     for a, b in order[ele]:
-                        if b == new_list[0]:
+                        if b == new_list[0] and a in elements[ele]:
                             change = True
                             front = (a, b)
                             elements[ele].remove(a)
@@ -1138,7 +1140,7 @@ class ListsToRelations(Preprocessor):
                 while back is not None:
                     back = None
                     for a, b in order[ele]:
-                        if a == new_list[-1]:
+                        if a == new_list[-1] and b in elements[ele]:
                             change = True
                             back = (a, b)
                             elements[ele].remove(b)
@@ -1147,14 +1149,14 @@ class ListsToRelations(Preprocessor):
                     if back is not None:
                         order[ele].remove(back)
 
-            if len(elements[ele]) == 0:
+            if new_list and not elements[ele] and not order[ele]:
                 path = self._get_path(ele)
                 current = new_instance
                 while len(path) > 1:
                     current = current[path.pop(0)]
                 current[path[0]] = new_list
             else:
-                for attr, val in originals:
+                for attr, val in originals[ele]:
                     new_instance[attr] = val
 
         return new_instance
-- 
2.43.0


From 40b704f90ae0fa3e0ec273500dffbf6b830e9eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 20/31] fix: SubComponentProcessor.undo_transform leaves
 components without a unique acyclic parent relational

---
 concept_formation/preprocessor.py | 35 ++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index a729ea4..994a7ea 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1282,13 +1282,38 @@ class SubComponentProcessor(Preprocessor):
         return self._embed_sub_objects(instance)
 
     def _embed_sub_objects(self, instance):
-        so_mapping = {attr[2]: (attr[2], attr[1]) for attr in instance
-                      if (isinstance(attr, tuple) and len(attr) == 3 and
-                          attr[0] == 'has-component')}
+        parents = {}
+        for attr in instance:
+            if (isinstance(attr, tuple) and len(attr) == 3 and
+                    attr[0] == 'has-component'):
+                parents.setdefault(attr[2], []).append(attr)
+
+        so_mapping = {}
+        embedded = set()
+        for child in parents:
+            if len(parents[child]) == 1 and not self._is_own_ancestor(child,
+                                                                      parents):
+                relation = parents[child][0]
+                so_mapping[child] = (child, relation[1])
+                embedded.add(relation)
 
         return {self._rename_embedding(attr, so_mapping): instance[attr] for
-                attr in instance if not (isinstance(attr, tuple) and len(attr)
-                                         == 3 and attr[0] == 'has-component')}
+                attr in instance if attr not in embedded}
+
+    def _is_own_ancestor(self, child, parents):
+        seen = set()
+        stack = [child]
+        while stack:
+            for relation in parents.get(stack.pop(), []):
+                parent = relation[1]
+                while parent not in parents and isinstance(parent, tuple):
+                    parent = parent[-1]
+                if parent == child:
+                    return True
+                if parent not in seen:
+                    seen.add(parent)
+                    stack.append(parent)
+        return False
 
     def _rename_embedding(self, attr, so_mapping):
         if attr in so_mapping:
-- 
2.43.0


From 95d468d707b8fc42379794b3fd0ee75149d5451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 21/31] fix: ObjectVariablizer renames variablized objects
 inside relations

---
 concept_formation/preprocessor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 994a7ea..8c7d036 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1434,10 +1434,11 @@ class ObjectVariablizer(OneWayPreprocessor):
         """
         return self._variablize(instance)
 
-    def _variablize(self, instance, mapping={}, prefix=None):
+    def _variablize(self, instance, mapping=None, prefix=None):
         new_instance = {}
 
-        mapping = {}
+        if mapping is None:
+            mapping = {}
         relations = []
         if self.targets is None:
             attrs = [k for k in instance.keys()]
@@ -1457,6 +1458,7 @@ class ObjectVariablizer(OneWayPreprocessor):
                 name = attr
                 if attr[0] != '?':
                     name = '?' + attr
+                    mapping[attr] = name
                 new_instance[name] = self._variablize(instance[attr], mapping,
                                                       prefix)
             else:
-- 
2.43.0


From 3c4d45bc43c1f0bead48174e844c646da13db7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 22/31] fix: NameStandardizer.undo_transform does not confuse
 inferred objects with the original ones

---
 concept_formation/preprocessor.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 8c7d036..c8581dc 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -421,8 +421,26 @@ class NameStandardizer(Preprocessor):
         if self.reverse_mapping is None:
             raise Exception("Must call transform before undo_transform!")
 
+        self._rename_unmapped(instance, set(self.reverse_mapping.values()))
         return self._undo_standardize(instance)
 
+    def _rename_unmapped(self, instance, originals):
+        """
+        Gives a new name to objects that were not in the transformed instance
+        (e.g., inferred ones), but have the name of one of its objects.
+        """
+        for attr in instance:
+            names = (get_attribute_components(attr)
+                     if isinstance(attr, tuple) else [attr])
+            for name in names:
+                if name in originals and name not in self.reverse_mapping:
+                    fresh = self.gensym()
+                    while fresh in originals:
+                        fresh = self.gensym()
+                    self.reverse_mapping[name] = fresh
+            if isinstance(instance[attr], dict):
+                self._rename_unmapped(instance[attr], originals)
+
     def _undo_standardize(self, instance):
         new_instance = {}
 
-- 
2.43.0


From 907dc6a38275017fff0646e5cc41647daff03bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 23/31] fix: DummyTree generates object names that are not in
 use

---
 concept_formation/dummy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9f0a85d..7218b91 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -11,6 +11,7 @@ from __future__ import division
 from concept_formation.cobweb3 import Cobweb3Node
 from concept_formation.trestle import TrestleTree
 from concept_formation.structure_mapper import StructureMapper
+from concept_formation.structure_mapper import get_component_names
 from concept_formation.preprocessor import SubComponentProcessor
 from concept_formation.preprocessor import Flattener
 from concept_formation.preprocessor import Pipeline
@@ -42,7 +43,10 @@ class DummyTree(TrestleTree):
         :return: a unique object name
         :rtype: '?o'+counter
         """
+        names = get_component_names(self.root.av_counts)
         self.gensym_counter += 1
+        while '?o' + str(self.gensym_counter) in names:
+            self.gensym_counter += 1
         return '?o' + str(self.gensym_counter)
 
     def ifit(self, instance, do_mapping=False):
-- 
2.43.0


From bc1585e7923719a00ed8aaca8a1ff394f88c8030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:15 +0000
Subject: [PATCH 24/31] fix: ListsToRelations undo accepts elements named by
 their full path

After sub-component extraction is undone, list elements of nested lists are
referenced by full path; reconstructing the list then raised KeyError.
---
 concept_formation/preprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index c8581dc..57511e3 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1172,7 +1172,9 @@ class ListsToRelations(Preprocessor):
                 current = new_instance
                 while len(path) > 1:
                     current = current[path.pop(0)]
-                current[path[0]] = new_list
+                # elements might be given by their full path
+                current[path[0]] = [e[0] if isinstance(e, tuple) else e
+                                    for e in new_list]
             else:
                 for attr, val in originals[ele]:
                     new_instance[attr] = val
-- 
2.43.0


From c5ddf0f463b476e802afda80f1c7a0d0bf633af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:41 +0000
Subject: [PATCH 25/31] fix: weighted_choice rejects a negative weight wherever
 it is in the list

---
 concept_formation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 65944a9..4bf0ff0 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -138,12 +138,12 @@ def weighted_choice(choices):
     .. seealso::
         :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
     """
+    if any(w < 0 for c, w in choices):
+        raise ValueError('All weights must be greater than or equal to 0.')
     total = sum(w for c, w in choices)
     r = uniform(0, total)
     upto = 0
     for c, w in choices:
-        if w < 0:
-            raise ValueError('All weights must be greater than or equal to 0.')
         if upto + w > r:
             return c
         upto += w
-- 
2.43.0


From 329e0e2cfbdedb3abd9d5bc0527d55f0541f19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:34 +0000
Subject: [PATCH 26/31] fix: TrestleTree.infer_missing rejects invalid
 instances as fitting and categorizing do

---
 concept_formation/trestle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/trestle.py b/concept_formation/trestle.py
index 24e2e80..d31e381 100644
--- a/concept_formation/trestle.py
+++ b/concept_formation/trestle.py
@@ -194,6 +194,7 @@ class TrestleTree(Cobweb3Tree):
                                  StructureMapper(self.root))
 
         temp_instance = preprocessing.transform(instance)
+        self._sanity_check_instance(temp_instance)
         concept = self._cobweb_categorize(temp_instance)
 
         for attr in concept.attrs('all'):
-- 
2.43.0


From 837fbb4153121fa1165af7756cbbf8d925377267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 27/31] fix: DummyTree.ifit rejects invalid instances before
 counting them

---
 concept_formation/dummy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 7218b91..32a9f2f 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -74,6 +74,7 @@ class DummyTree(TrestleTree):
         else:
             pipeline = Pipeline(SubComponentProcessor(), Flattener())
         temp_instance = pipeline.transform(instance)
+        self._sanity_check_instance(temp_instance)
         self.root.increment_counts(temp_instance)
         return self.root
 
-- 
2.43.0


From 6837a91a6b96b435b2d01f90f2d8b14a21d12eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:46 +0000
Subject: [PATCH 28/31] fix: Sanitizer works when nothing else has imported
 collections.abc

---
 concept_formation/preprocessor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 57511e3..6408779 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -46,12 +46,11 @@ from __future__ import division
 
 from copy import deepcopy
 from numbers import Number
-import collections
 
 try:
-    collectionsAbc = collections.abc
-except AttributeError:
-    collectionsAbc = collections
+    import collections.abc as collectionsAbc
+except ImportError:
+    import collections as collectionsAbc
 
 
 _gensym_counter = 0
-- 
2.43.0


From c57421ffee4f66971889bc271ad5b476b6be33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:15 +0000
Subject: [PATCH 29/31] fix: children of a copied concept have the copy as
 their parent

---
 concept_formation/cobweb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 2b31eb2..171207d 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -310,6 +310,7 @@ class CobwebNode(object):
 
             for child in otherNode.children:
                 self.children.append(self.__class__(child))
+                self.children[-1].parent = self
 
     def shallow_copy(self):
         """
-- 
2.43.0


From 8056c99812be0f23a74aa1953b3fd1b3c5eff199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:49 +0000
Subject: [PATCH 30/31] fix: ObjectVariablizer renames objects in relations
 written before them

---
 concept_formation/preprocessor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 6408779..f571717 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1451,7 +1451,11 @@ class ObjectVariablizer(OneWayPreprocessor):
         """
         Variablize target attributes.
         """
-        return self._variablize(instance)
+        mapping = {}
+        # A relation might mention objects that come after it, so all objects
+        # are collected before the relations are renamed.
+        self._variablize(instance, mapping)
+        return self._variablize(instance, mapping)
 
     def _variablize(self, instance, mapping=None, prefix=None):
         new_instance = {}
-- 
2.43.0


From 8d496bd09114eec36aafdd590e7bcf161e4e17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:49 +0000
Subject: [PATCH 31/31] fix: bind_flat_attr renames attributes that are not
 tuples

---
 concept_formation/structure_mapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/concept_formation/structure_mapper.py b/concept_formation/structure_mapper.py
index eeaa3f2..5c92eec 100644
--- a/concept_formation/structure_mapper.py
+++ b/concept_formation/structure_mapper.py
@@ -140,6 +140,9 @@ def bind_flat_attr(attr, mapping):
     ...                {'?o1': '?c1', '?o2': '?c2'})
     ('<', ('a', '?c2'), ('a', '?c1'))
     """
+    if not isinstance(attr, tuple):
+        return mapping[attr] if attr in mapping else attr
+
     return tuple([bind_flat_attr(ele, mapping) if isinstance(ele, tuple)
                   else mapping[ele] if ele in mapping else ele for ele in
                   attr])
-- 
2.43.0

