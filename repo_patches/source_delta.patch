From 0d3a05245e787f6ad9d6ee19bedfed2c471af8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 01/51] fix: Meek rule 3 must only fire when the two parents
 are non-adjacent

---
 cdmir/graph/pdag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index ea0bac7..57f342c 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -101,6 +101,8 @@ class PDAG(Graph):
                         continue
                     if not (self.is_fully_undirected(node_u, node_x) and self.is_fully_directed(node_x, node_w)):
                         continue
+                    if self.is_connected(node_v, node_x):
+                        continue
                     self.remove_edge(node_u, node_w)
                     self.add_edge(Edge(node_u, node_w, Mark.Tail, Mark.Arrow))
                     if verbose:
-- 
2.43.0


From a52196a33cd1b90ee22efb71a426b4ab43457ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 02/51] fix: Meek rule 4 needs the chain u --> v --> w, not u
 --- v --> w

---
 cdmir/graph/pdag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index 57f342c..d950cc4 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -118,7 +118,7 @@ class PDAG(Graph):
             for node_v in self.nodes:
                 if node_v in [node_u, node_w]:
                     continue
-                if not (self.is_fully_undirected(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
+                if not (self.is_fully_directed(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
                     continue
                 for node_x in self.nodes:
                     if node_x in [node_u, node_v, node_w]:
-- 
2.43.0


From e7a83265f88efd4fa7a68378dc3b3b9a220adfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 03/51] fix: d-separation queries accept a missing or one-shot
 conditioning set

---
 cdmir/graph/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/digraph.py b/cdmir/graph/digraph.py
index 0aff389..80e5440 100644
--- a/cdmir/graph/digraph.py
+++ b/cdmir/graph/digraph.py
@@ -35,6 +35,9 @@ class DiGraph(Graph):
 
         '''
 
+        # z may be missing or a one-shot iterable, and it is used several times below.
+        z = set() if z is None else set(z)
+
         # Phase I: Insert all ancestors of z into a
         node_l_queue = deque(z)
         a = set()
-- 
2.43.0


From 44c6cdf861d286279158bc8556bb81a64b6b55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 04/51] fix: pdag2dag reports PDAGs without a consistent
 extension instead of looping forever

---
 cdmir/graph/pdag2dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/pdag2dag.py b/cdmir/graph/pdag2dag.py
index a674a44..0bef52b 100644
--- a/cdmir/graph/pdag2dag.py
+++ b/cdmir/graph/pdag2dag.py
@@ -20,6 +20,7 @@ def pdag2dag(pdag: PDAG):
     pdag_p = deepcopy(pdag)
     inde = np.zeros(pdag_p.number_of_nodes(), dtype=np.dtype(int)) # index whether the ith node has been removed. 1:removed; 0: not
     while 0 in inde:
+        removed_before = inde.sum()
         for i in range(pdag_p.number_of_nodes()):
             if inde[i] == 0:
                 sign = 0
@@ -39,6 +40,8 @@ def pdag2dag(pdag: PDAG):
                         if not pdag_copy.is_connected(nodes[index], nodes[i]):
                             pdag_copy.add_edge(Edge(nodes[index], nodes[i], Mark.Tail, Mark.Arrow), overwrite=False)
                     inde[i] = 1
+        if inde.sum() == removed_before:  # no removable sink is left
+            raise ValueError('The PDAG does not admit a consistent DAG extension.')
 
     d = DiGraph(pdag_copy.node_list)
     for edge in pdag_copy.edges:
-- 
2.43.0


From 3d82bdb04a1c8690c4c272cfb63fe423a0f052e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 05/51] fix: data adapter forwards positional arguments instead
 of binding them to data twice

---
 cdmir/utils/adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/adapters.py b/cdmir/utils/adapters.py
index 8e5a785..7f02f4b 100644
--- a/cdmir/utils/adapters.py
+++ b/cdmir/utils/adapters.py
@@ -14,6 +14,6 @@ def data_form_converter_for_class_method(func):
                 var_names = [i for i in range(0, n)]
         else:
             assert len(var_names) == n
-        return func(self=self, data=data, var_names=var_names, *args, **kwargs)
+        return func(self, data, var_names, *args, **kwargs)
 
     return wrapper
-- 
2.43.0


From cf925edc121a3a739ca8e0a2d503ea90dba69c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 06/51] fix: data adapter converts a DataFrame to an array also
 when names are given explicitly

---
 cdmir/utils/adapters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/adapters.py b/cdmir/utils/adapters.py
index 7f02f4b..fa7d4db 100644
--- a/cdmir/utils/adapters.py
+++ b/cdmir/utils/adapters.py
@@ -9,11 +9,12 @@ def data_form_converter_for_class_method(func):
         if var_names is None:
             if type(data) == DataFrame:
                 var_names = list(data.columns)
-                data = data.to_numpy()
             else:
                 var_names = [i for i in range(0, n)]
         else:
             assert len(var_names) == n
+        if type(data) == DataFrame:
+            data = data.to_numpy()
         return func(self, data, var_names, *args, **kwargs)
 
     return wrapper
-- 
2.43.0


From 32be7555c51def6aebaec98e5d32d7b6eefdbc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 07/51] fix: itest no longer loses a one-shot conditioning
 iterable to the cache key

---
 cdmir/utils/independence/basic_independence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/utils/independence/basic_independence.py b/cdmir/utils/independence/basic_independence.py
index c47af65..cafc930 100644
--- a/cdmir/utils/independence/basic_independence.py
+++ b/cdmir/utils/independence/basic_independence.py
@@ -36,6 +36,7 @@ class ConditionalIndependentTest(object):
         return self.itest(x_id, y_id, z_ids)
 
     def itest(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
+        z_ids = list(z_ids) if z_ids is not None else None
         key = _get_cache_key(x_id, y_id, z_ids)
         if self.cache.get(key):
             value = self.cache[key]
-- 
2.43.0


From 89ee1cab99e0b4c1e4a86e329265deddae5a68b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 08/51] fix: fisherz_from_corr accepts any iterable of
 conditioning ids

---
 cdmir/utils/independence/functional/fisherz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/functional/fisherz.py b/cdmir/utils/independence/functional/fisherz.py
index 500a6e9..e357a04 100644
--- a/cdmir/utils/independence/functional/fisherz.py
+++ b/cdmir/utils/independence/functional/fisherz.py
@@ -22,7 +22,7 @@ def fisherz(x, y, Z=None):
 
 
 def fisherz_from_corr(corr: ndarray, num_records: int, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-    z_ids = [] if z_ids is None else z_ids
+    z_ids = [] if z_ids is None else list(z_ids)
     var = [x_id, y_id] + z_ids
     sub_corr = corr[ix_(var, var)]
     inv_mat = inv(sub_corr)
-- 
2.43.0


From 2121fef90412625dd6d0d6475c1a3fb9f202d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 09/51] fix: Dsep answers queries without a conditioning set

---
 cdmir/utils/independence/dsep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/dsep.py b/cdmir/utils/independence/dsep.py
index e1fdc1c..26875f7 100644
--- a/cdmir/utils/independence/dsep.py
+++ b/cdmir/utils/independence/dsep.py
@@ -11,7 +11,7 @@ class Dsep(ConditionalIndependentTest):
         self.true_graph = true_graph
 
     def cal_stats(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-        zs_name = [self.var_names[z_id] for z_id in z_ids]
+        zs_name = [self.var_names[z_id] for z_id in z_ids] if z_ids is not None else []
         if self.true_graph.is_d_separate(self.var_names[x_id], self.var_names[y_id], zs_name):
             return 1.0, 1.0 #相关
         else:
-- 
2.43.0


From 466f77c099aea95d3297cc336f379c854fd4c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 10/51] fix: kernel caches are keyed by the full content of the
 data, not by its abbreviated printout

---
 cdmir/utils/kernel/_base.py    | 16 ++++++++++++++--
 cdmir/utils/kernel/gaussian.py |  4 ++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/cdmir/utils/kernel/_base.py b/cdmir/utils/kernel/_base.py
index 9721f68..9099647 100644
--- a/cdmir/utils/kernel/_base.py
+++ b/cdmir/utils/kernel/_base.py
@@ -1,9 +1,21 @@
 from __future__ import annotations
 
-from numpy import eye, ndarray, shape
+from hashlib import sha1
+
+from numpy import ascontiguousarray, eye, ndarray, shape
 from numpy.linalg import pinv
 
 
+def _array_key(x):
+    """
+    Cache key of an array: its shape, type and full content (the printed form abbreviates long arrays and rounds)
+    """
+    if x is None:
+        return None
+    x = ascontiguousarray(x)
+    return x.shape, x.dtype.str, sha1(x.tobytes()).digest()
+
+
 class BaseKernel(object):
 
     def __init__(self, *args, **kwargs):
@@ -13,7 +25,7 @@ class BaseKernel(object):
         return self.__kernel(xs, ys, self.__kernel_func)
 
     def __kernel(self, xs: ndarray, ys: ndarray, kernel_func, *args, **kwargs):
-        dict_key = hash(str((xs, ys)))
+        dict_key = (_array_key(xs), _array_key(ys))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
diff --git a/cdmir/utils/kernel/gaussian.py b/cdmir/utils/kernel/gaussian.py
index 7640fca..9b3ccef 100644
--- a/cdmir/utils/kernel/gaussian.py
+++ b/cdmir/utils/kernel/gaussian.py
@@ -7,7 +7,7 @@ from numpy.random import permutation
 from pandas import DataFrame
 from scipy.spatial.distance import cdist, pdist, squareform
 
-from ._base import BaseKernel
+from ._base import BaseKernel, _array_key
 
 
 class GaussianKernel(BaseKernel):
@@ -30,7 +30,7 @@ class GaussianKernel(BaseKernel):
         if self.width_strategy != self.WidthStrategyEnum.manual:
             self.__update_kernel_width_by_width_strategy(self.width_strategy, xs)
 
-        dict_key = hash(str((xs, ys, self.width)))  # add width to cache
+        dict_key = (_array_key(xs), _array_key(ys), self.width)  # add width to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-- 
2.43.0


From fecce1bc836cb985045309622ca1220ae2c5b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 11/51] fix: polynomial kernel results follow changes of degree
 and const

---
 cdmir/utils/kernel/polynomial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdmir/utils/kernel/polynomial.py b/cdmir/utils/kernel/polynomial.py
index 2848be9..464a0e9 100644
--- a/cdmir/utils/kernel/polynomial.py
+++ b/cdmir/utils/kernel/polynomial.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from numpy import ndarray
 
-from cdmir.utils.kernel._base import BaseKernel
+from cdmir.utils.kernel._base import BaseKernel, _array_key
 
 
 class PolynomialKernel(BaseKernel):
@@ -16,14 +16,14 @@ class PolynomialKernel(BaseKernel):
         return pow(self.const + x.dot(y.T), self.degree)#const是加减上的调整，degree是控制多项式的次数
 
     def __kernel(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        dict_key = hash(str((xs, ys, self.degree, self.const)))  # add 'degree' and 'const' to cache
+        dict_key = (_array_key(xs), _array_key(ys), self.degree, self.const)  # add 'degree' and 'const' to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-            res = self.__kernel(xs, ys) #Plan B:改成 res = self.__kernel_func(xs,ys)
+            res = self.__kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
         return res
 
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        return self._BaseKernel__kernel(xs, ys, self.__kernel_func) #Plan A：把self.__kernel改成return self._BaseKernel__kernel(xs, ys, self.__kernel_func)
+        return self.__kernel(xs, ys)
-- 
2.43.0


From b0ae4c0bdc025b7ab2dcf8f8ad1e60e83d6646dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 12/51] fix: kernels return a copy so that editing a result
 does not change later ones

---
 cdmir/utils/kernel/_base.py      | 2 +-
 cdmir/utils/kernel/gaussian.py   | 2 +-
 cdmir/utils/kernel/polynomial.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/kernel/_base.py b/cdmir/utils/kernel/_base.py
index 9099647..b1898a4 100644
--- a/cdmir/utils/kernel/_base.py
+++ b/cdmir/utils/kernel/_base.py
@@ -32,7 +32,7 @@ class BaseKernel(object):
             res = kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
-        return res
+        return res.copy()  # callers may edit the matrix they get
 
     def __kernel_func(self, data_x: ndarray, data_y: ndarray):
         raise NotImplementedError()
diff --git a/cdmir/utils/kernel/gaussian.py b/cdmir/utils/kernel/gaussian.py
index 9b3ccef..501749f 100644
--- a/cdmir/utils/kernel/gaussian.py
+++ b/cdmir/utils/kernel/gaussian.py
@@ -37,7 +37,7 @@ class GaussianKernel(BaseKernel):
             res = kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
-        return res
+        return res.copy()  # callers may edit the matrix they get
 
     def __kernel_func(self, x: ndarray, y: ndarray):
         if y is None:
diff --git a/cdmir/utils/kernel/polynomial.py b/cdmir/utils/kernel/polynomial.py
index 464a0e9..b9f56e9 100644
--- a/cdmir/utils/kernel/polynomial.py
+++ b/cdmir/utils/kernel/polynomial.py
@@ -23,7 +23,7 @@ class PolynomialKernel(BaseKernel):
             res = self.__kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
-        return res
+        return res.copy()  # callers may edit the matrix they get
 
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
         return self.__kernel(xs, ys)
-- 
2.43.0


From 51fd1193c0d108df5ad89cc9fd7e0e2c11c11a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 13/51] fix: spectral null of KCI works for more than 1000
 samples (np.int is gone from NumPy)

---
 cdmir/utils/independence/kernel_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/kernel_based.py b/cdmir/utils/independence/kernel_based.py
index eadd548..162e7f1 100644
--- a/cdmir/utils/independence/kernel_based.py
+++ b/cdmir/utils/independence/kernel_based.py
@@ -109,7 +109,7 @@ class KCI(BaseConditionalIndependenceTest):
         def null_sample_spectral_from_centralized_kernel_matrix(self, Kxc, Kyc):
             T = Kxc.shape[0]
             if T > 1000:
-                num_eig = np.int(np.floor(T / 2))
+                num_eig = int(np.floor(T / 2))
             else:
                 num_eig = T
             lambdax = eigvalsh(Kxc)
-- 
2.43.0


From f72ca1dca6e405244d9c98c766270c4bc236bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 14/51] fix: BDeu score of a variable without parents (GES
 starts from the empty graph)

---
 cdmir/utils/local_score/bdeu_score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/bdeu_score.py b/cdmir/utils/local_score/bdeu_score.py
index e08625b..c86e29b 100644
--- a/cdmir/utils/local_score/bdeu_score.py
+++ b/cdmir/utils/local_score/bdeu_score.py
@@ -42,7 +42,7 @@ class BDeuScore(BaseLocalScoreFunction):
         names = ['x{}'.format(var) for var in range(shape(self.data)[1])]
         Data_pd = DataFrame(self.data, columns=names)
         parant_names = ['x{}'.format(var) for var in parent_i]
-        Data_pd_group_Nij = Data_pd.groupby(parant_names)
+        Data_pd_group_Nij = Data_pd.groupby(parant_names or (lambda _: 0))  # without parents all rows form one group
         Nij_map = {key: len(Data_pd_group_Nij.indices.get(key)) for key in Data_pd_group_Nij.indices.keys()}
         Nij_map_keys_list = list(Nij_map.keys())
 
-- 
2.43.0


From a309a162f1d2134e83f73565fe55b9ac81a2d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 15/51] fix: Score_G hands parent indices, not node names, to
 the local score

---
 cdmir/discovery/score_based/greedy_equivalence_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/score_based/greedy_equivalence_search.py b/cdmir/discovery/score_based/greedy_equivalence_search.py
index ce60496..4023c16 100644
--- a/cdmir/discovery/score_based/greedy_equivalence_search.py
+++ b/cdmir/discovery/score_based/greedy_equivalence_search.py
@@ -48,7 +48,7 @@ def Score_G(G, score_func):  # calculate the score for the current G
         PA = []
         for node_v in G.get_neighbours(node):
             if G.is_arrow(node_v, node):
-                PA.append(node_v)
+                PA.append(G.node_list.index(node_v))
 
         delta_score = score_func(i, PA)
         score = score + delta_score
-- 
2.43.0


From 757f17f1be1170cebb1ee1bafa1fd2079e321e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 16/51] fix: local scores of one-shot parent iterables are not
 cached under the iterator's address

---
 cdmir/utils/local_score/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/utils/local_score/_base.py b/cdmir/utils/local_score/_base.py
index 0c6257d..02cbf0d 100644
--- a/cdmir/utils/local_score/_base.py
+++ b/cdmir/utils/local_score/_base.py
@@ -16,6 +16,7 @@ class BaseLocalScoreFunction(object):
         self.cache_dict = dict()
 
     def _score(self, i: int, parent_i: Iterable[int], score_function):
+        parent_i = list(parent_i)
         dict_key = hash(str((i, parent_i)))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
-- 
2.43.0


From c316293bc3519c1cfdd9a73e84d7d6e0a6285399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 17/51] fix: get_performance accepts graph objects (tails are
 no edges; a graph as truth raised)

---
 cdmir/utils/metrics/graph_evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/metrics/graph_evaluation.py b/cdmir/utils/metrics/graph_evaluation.py
index c7556a5..e96ffa6 100644
--- a/cdmir/utils/metrics/graph_evaluation.py
+++ b/cdmir/utils/metrics/graph_evaluation.py
@@ -4,7 +4,7 @@ import numpy as np
 import pandas as pd
 from sklearn.metrics import f1_score, precision_score, recall_score
 
-from cdmir.graph import Graph, PDAG
+from cdmir.graph import Graph, Mark, PDAG
 
 
 
@@ -76,10 +76,11 @@ def shd(true_pdag: PDAG, est_pdag: PDAG):
                for node_u, node_v in combinations(true_pdag.nodes, 2))
 
 def get_performance(fitted, real, threshold=0, drop_diag=True):
+    # graphs are compared as their [cause, effect] matrices: an entry is an arrowhead, not the tail opposite to it
     if isinstance(fitted,Graph):
-        fitted=fitted.to_numpy()
+        fitted = (fitted.to_numpy(transpose=True) == Mark.Arrow).astype(int)
     if isinstance(real, Graph):
-        real = real.to_numpy()
+        real = (real.to_numpy(transpose=True) == Mark.Arrow).astype(int)
     fitted = np.abs(fitted)
     if drop_diag:
         fitted = fitted - np.diag(np.diag(fitted))
-- 
2.43.0


From f2195c7dfcf9de751eab53d687b1dfd2878fc6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 18/51] fix: simulate_pnl sums over the hidden outputs of each
 sample, not over all samples

---
 cdmir/datasets/simlulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 4eb5df8..4eac9f3 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -232,7 +232,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             noise = _gen_noise([n_samples, hidden], noise_type, noise_scale)
         func1 = _pnl_func_sequential(func1_type, pare_size, hidden, neg_slope, hidden)
         func2 = _pnl_func_sequential(func2_type, hidden, pare_size, neg_slope, hidden)
-        value = np.sum(func2(func1(parents) + noise))
+        value = np.sum(func2(func1(parents) + noise), axis=1)
         return value
 
     @staticmethod
-- 
2.43.0


From 5da960ea65a1b50aaac25438364cd0a8cbe43891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 19/51] fix: post-nonlinear simulators apply the documented
 'cos' function instead of a random linear one

---
 cdmir/datasets/simlulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 4eac9f3..699d8b9 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -23,6 +23,8 @@ def _pnl_func(func_type, d_inputs, d_outputs, neg_slope=0.2):
         return lambda x: utils.leaky_relu(x, neg_slope)
     elif func_type == 'sin':
         return lambda x: np.sin(x)
+    elif func_type == 'cos':
+        return np.cos
     else:
         W1 = np.random.uniform(low=0.5, high=2.0, size=[d_inputs, d_outputs])
         W1[np.random.rand(*W1.shape) < 0.5] *= -1
-- 
2.43.0


From bf130fb5965b7e651a53aef7c816323a30d4470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 20/51] fix: simulate_nonlinear_anm passes on the requested
 function type

---
 cdmir/datasets/simlulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 699d8b9..4820fb0 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -213,7 +213,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
         for j in topo_order:
             parents = list(nx_graph.predecessors(j))
             X[:, j] = IIDSimulator._simulate_single_value_nonlinear_anm(n_samples, X[:, parents], noise_type,
-                                                                        scale_vec[j], hidden=hidden)
+                                                                        scale_vec[j], func_type=func_type, hidden=hidden)
         return X
 
     @staticmethod
-- 
2.43.0


From ad18099f3eeac371ee0659a81160b963a213c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 21/51] fix: TimeLagSimulator.simulate_pnl has the default
 length of its siblings

---
 cdmir/datasets/simlulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 4820fb0..c183fb5 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -517,6 +517,7 @@ class TimeLagSimulator:  # generate the time series dataset
                 assert set(func_type) <= set(func_list)
         if seed is not None:
             utils.set_random_seed(seed)
+        length = 5000 if length is None else length
         n_nodes = adj_mats.shape[1]
         if max_lag is None:
             max_lag = adj_mats.shape[0]
-- 
2.43.0


From cecb4f918a2f3c1583f6daaa694df11e57214529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 22/51] fix: noise scales given as NumPy integers or float32
 are accepted

---
 cdmir/datasets/simlulators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index c183fb5..49955c8 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -108,7 +108,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, (int, float, np.integer, np.floating))
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -198,7 +198,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, (int, float, np.integer, np.floating))
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -276,7 +276,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, (int, float, np.integer, np.floating))
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -355,7 +355,7 @@ class TimeLagSimulator:  # generate the time series dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, (int, float, np.integer, np.floating))
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -450,7 +450,7 @@ class TimeLagSimulator:  # generate the time series dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, (int, float, np.integer, np.floating))
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -529,7 +529,7 @@ class TimeLagSimulator:  # generate the time series dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, (int, float, np.integer, np.floating))
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
-- 
2.43.0


From def7f936134d3fe13186f2ac8a6f44e10cb11d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 23/51] fix: the simulated events list keeps a slot for event
 types and sequences without events

---
 cdmir/datasets/simlulators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 49955c8..2f8a8c4 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -609,8 +609,7 @@ class HawkesSimulator:  # generate the dataset of the hawkes process
             event_table['time_stamp'] = (event_table['time_stamp'] / time_interval).astype('int') * time_interval
 
         events = [[event_table[(event_table['event_type'] == i) & (event_table['seq_id'] == j)][
-                       'time_stamp'].values.astype('float') for i in
-                   np.sort((event_table['event_type']).unique())] for j in (event_table['seq_id']).unique()]
+                       'time_stamp'].values.astype('float') for i in range(n)] for j in range(NE_num)]
         return event_table, edge_mat, alpha, mu, events
 
     @staticmethod
-- 
2.43.0


From 38be20ac7ca3f066b8b41cb8c003011a5040038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 24/51] fix: function lists starting with an element-wise
 function work with any hidden size

---
 cdmir/datasets/simlulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 2f8a8c4..8488deb 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -41,6 +41,8 @@ def _pnl_func_sequential(func_type, d_inputs, d_outputs, neg_slope=0.2, hidden=N
         last_linear = (func_type[0] == 'linear' and 'linear' not in func_type[1:])
         hidden = hidden if 'linear' in func_type[1:] else d_outputs
         layer_d_outputs = d_outputs if last_linear else hidden
+        if func_type[0] != 'linear':  # element-wise functions keep the width
+            layer_d_outputs = d_inputs
         func = _pnl_func(func_type[0], d_inputs, layer_d_outputs, neg_slope)
         follow_func = _pnl_func_sequential(func_type[1:], layer_d_outputs, d_outputs, neg_slope, hidden)
 
-- 
2.43.0


From ed76a1b90b63281aca530125440c6e7803b6c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 25/51] fix: the random generators work without a seed (their
 documented default)

---
 cdmir/datasets/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/utils.py b/cdmir/datasets/utils.py
index f6dfa08..e5182ff 100644
--- a/cdmir/datasets/utils.py
+++ b/cdmir/datasets/utils.py
@@ -11,7 +11,7 @@ def set_random_seed(seed, set_torch_seed=True):
     # 设置随机数种子
     np.random.seed(seed)
     random.seed(seed)
-    if set_torch_seed:
+    if set_torch_seed and seed is not None:
         torch.manual_seed(seed)
 
 
-- 
2.43.0


From 05b824f96537e5f4319da5c30c5982c82a27d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 26/51] fix: ICA_LINGAM permutes rows and columns together and
 returns the result in the data's column order

---
 .../funtional_based/lingam_based/ica_lingam.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 4783084..51918b2 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -24,9 +24,11 @@ def find_W_wave(W):
 
 
 def find_B_wave(B_hat):
+    # the simultaneous row and column permutation that brings B_hat closest to strictly lower triangular
     P_list = find_all_P(B_hat.shape[0])
-    score = [sum(np.diag((P.dot(B_hat) * P.dot(B_hat)).dot(np.tri(B_hat.shape[0])))) for P in P_list]
-    return P_list[np.argmin(score)].dot(B_hat)
+    score = [np.sum(np.triu(P.dot(B_hat).dot(P.T)) ** 2) for P in P_list]
+    P = P_list[np.argmin(score)]
+    return P, P.dot(B_hat).dot(P.T)
 
 
 def g(x):
@@ -178,13 +180,16 @@ class ICA_LINGAM(object):
         B_hat = np.eye(W_wave_slash.shape[0]) - W_wave_slash
 
         # find B_wave
-        B_wave = find_B_wave(B_hat)
+        P, B_wave = find_B_wave(B_hat)
 
         # prune upper triangle
         for x in range(B_wave.shape[0]):
             for y in range(x, B_wave.shape[1]):
                 B_wave[x, y] = 0
 
+        # back to the variables' own order
+        B_wave = P.T.dot(B_wave).dot(P)
+
         # wald test
         B_Prune = wald_prune(data.T, W_wave, B_wave, 0.5)
 
-- 
2.43.0


From e58f0fa93eba41ce8ac8f08d824a5bdd1a58acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 27/51] fix: ICA_LINGAM prunes at the level it was given

---
 cdmir/discovery/funtional_based/lingam_based/ica_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 51918b2..e5471de 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -191,7 +191,7 @@ class ICA_LINGAM(object):
         B_wave = P.T.dot(B_wave).dot(P)
 
         # wald test
-        B_Prune = wald_prune(data.T, W_wave, B_wave, 0.5)
+        B_Prune = wald_prune(data.T, W_wave, B_wave, self.wald_alpha)
 
         # Linear Regression
         reg_list = {i: B_wave[i, :] != 0 for i in range(B_Prune.shape[0])}
-- 
2.43.0


From a389043d2cfbf29053acc1f83de88849e9c601db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 28/51] fix: ANM subtracts each sample's own prediction
 (broadcasting made both directions equal)

---
 cdmir/discovery/funtional_based/anm/ANM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/anm/ANM.py b/cdmir/discovery/funtional_based/anm/ANM.py
index 69b4363..ade95eb 100644
--- a/cdmir/discovery/funtional_based/anm/ANM.py
+++ b/cdmir/discovery/funtional_based/anm/ANM.py
@@ -100,7 +100,7 @@ class ANM(object):
 
     def anm_score(self, x, y):
         gp = GaussianProcessRegressor().fit(x, y)
-        y_predict = gp.predict(x)
+        y_predict = gp.predict(x).reshape(y.shape)  # one residual per sample
         nonindepscore = normalized_hsic(y_predict - y, x)
 
         return nonindepscore
-- 
2.43.0


From c7b96f45fe59c0c42b91db828eddd472f246ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 29/51] fix: SHP accepts real-valued time stamps (type index
 was a float)

---
 cdmir/discovery/point_process/SHP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 210d699..9bc5046 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -78,7 +78,7 @@ class SHP(object):
         for seq_id, time_stamp, _, times, type_ind, _ in self.event_table.values:
             if (seq_id, time_stamp) not in X_dict:
                 X_dict[(seq_id, time_stamp)] = [0] * self.n
-            X_dict[(seq_id, time_stamp)][type_ind] = times
+            X_dict[(seq_id, time_stamp)][int(type_ind)] = times
         self.X_df = pd.DataFrame(X_dict).T
 
         self.X = self.X_df.values
-- 
2.43.0


From 736f7c7c16772b043db0a6852b9f4318a046b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 30/51] fix: SHP fits structures with edges when no time
 interval is given

---
 cdmir/discovery/point_process/SHP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 9bc5046..e857ceb 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -39,6 +39,7 @@ class SHP(object):
         self.random_state = np.random.RandomState(seed)
         self.reg = reg
         self.time_interval = time_interval  # Delta t
+        self.delta_t = 1 if time_interval is None else time_interval
 
         # create the event_table
         self.event_table, self.event_names = self.get_event_table(event_table)
@@ -195,7 +196,7 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.delta_t
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
@@ -260,7 +261,7 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.delta_t
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
-- 
2.43.0


From e5e329a0ea32eebde294312d76cc2c5f483acd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 31/51] fix: get_interval_events leaves the caller's table
 unchanged

---
 cdmir/discovery/point_process/SHP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index e857ceb..ecaa272 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -13,6 +13,7 @@ __MIN__ = -np.inf
 
 
 def get_interval_events(event_table, time_interval=20):
+    event_table = event_table.copy()
     event_table['time_stamp'] = (event_table['time_stamp'] / time_interval).astype('int') * time_interval
     events = [[event_table[(event_table['event_type'] == i) & (event_table['seq_id'] == j)][
                    'time_stamp'].values.astype('float') for i in
-- 
2.43.0


From 30d8adbb01734c7a9e486464fb48be9e6edc9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 32/51] fix: Pade matrix exponentials use torch.linalg.solve
 (torch.solve no longer exists)

---
 .../discovery/score_based/entropy_based/pytorch_expm/expm32.py  | 2 +-
 .../discovery/score_based/entropy_based/pytorch_expm/expm64.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
index b4e0ef5..f4d7408 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
@@ -259,7 +259,7 @@ def _expm(A):
 def _solve_P_Q(U, V):
     P = U + V
     Q = -U + V
-    return torch.solve(P, Q)[0]
+    return torch.linalg.solve(Q, P)
 
 
 def _ell(A, m):
diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
index 2f5e3b2..de48450 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
@@ -289,7 +289,7 @@ def _expm(A):
 def _solve_P_Q(U, V):
     P = U + V
     Q = -U + V
-    return torch.solve(P, Q)[0]
+    return torch.linalg.solve(Q, P)
 
 
 def _ell(A, m):
-- 
2.43.0


From 12c98d450140629e7095a3071774f632e4d2e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 33/51] fix: expm_pade can be imported from the package

---
 .../score_based/entropy_based/pytorch_expm/expm_pade.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
index d36d3d8..b23d1e6 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
@@ -1,8 +1,8 @@
 import numpy as np
 import torch
 
-from expm32 import expm32
-from expm64 import expm64
+from .expm32 import expm32
+from .expm64 import expm64
 
 def differential(A, E, f):
     n = A.size(0)
-- 
2.43.0


From 06643c64323bdebd264bc437e72a14d9e80bd222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 34/51] fix: Pade matrix exponentials handle nilpotent matrices
 (log2 of zero)

---
 .../discovery/score_based/entropy_based/pytorch_expm/expm32.py  | 2 +-
 .../discovery/score_based/entropy_based/pytorch_expm/expm64.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
index f4d7408..855d4c2 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
@@ -248,7 +248,7 @@ def _expm(A):
 
     theta_7 = 3.9257248464332842e+000
     eta_3 = max(h.d6_tight, h.d8_loose)
-    s = max(int(np.ceil(np.log2(eta_3 / theta_7))), 0)
+    s = max(int(np.ceil(np.log2(eta_3 / theta_7))), 0) if eta_3 > 0 else 0  # nilpotent A
 
     s += _ell(2**-s * h.A, 7)
     U, V = h.pade7_scaled(s)
diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
index de48450..25d3b4c 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
@@ -278,7 +278,7 @@ def _expm(A):
     eta_5 = min(eta_3, eta_4)
     theta_13 = 4.25
 
-    s = max(int(np.ceil(np.log2(eta_5 / theta_13))), 0)
+    s = max(int(np.ceil(np.log2(eta_5 / theta_13))), 0) if eta_5 > 0 else 0  # nilpotent A
 
     s += _ell(2**-s * h.A, 13)
     U, V = h.pade13_scaled(s)
-- 
2.43.0


From 8339cbfc5c3fa729aea334742a8b94ddfc713de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 35/51] fix: nonlinear entropy-based modules import their utils
 from the package

---
 .../entropy_based/entropy_based_discovery/nonlinear.py | 10 +++++-----
 .../entropy_based_discovery/nonlinear_ent.py           |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
index 098ab48..433a644 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
@@ -3,7 +3,7 @@ import math
 import numpy as np
 import torch
 import torch.nn as nn
-import utils as utils
+from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.lbfgsb_scipy import LBFGSBScipy
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.locally_connected import LocallyConnected
 
@@ -215,7 +215,7 @@ def main():
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
     # ut.set_random_seed(123)
 
     """
@@ -286,7 +286,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
 
     print("n={}, d={}, s0={}, l1={}, l2={}, graph_type={}, sem_type={}, noise={}, low={}, high={}".
           format(n, d, s0, lambda1, lambda2, graph_type, sem_type, noise_dist, low, high))
@@ -305,7 +305,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
 
 
 def run_real():
-    import utils
+    from . import utils
 
     B_true = utils.readcsv('data/true.csv')
     X = utils.readcsv('data/sachs_unstand.csv')
@@ -326,7 +326,7 @@ def run_real():
 
 
 def run_real_853(lambda1=1e-1, lambda2=1e-1):
-    import utils
+    from . import utils
     print(lambda1, lambda2)
     path = "sachs/continuous/data1.npy"
     X = np.load(path)
diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
index 91dcf18..e0302b4 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
@@ -279,7 +279,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
 
 def run_real_853(lamda1, lamda2):
     print('run 853')
-    import utils
+    from . import utils
     lambda1 = lamda1
     lambda2 = lamda2
     print(lambda1, lambda2)
-- 
2.43.0


From 97c976f5b6e098cf8ff3b547076182a3c2f4e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 36/51] fix: entropy_loss_G1_high_order takes the variance
 before standardising the residual

---
 .../score_based/entropy_based/entropy_based_discovery/utils.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
index 5ea62e0..e61e3cb 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
@@ -490,13 +490,13 @@ def entropy_loss_G1(output, input):
 
 def entropy_loss_G1_high_order(output, input):
     residual = input - output
+    variance = torch.var(residual)
     residual = (residual - torch.mean(residual)) / torch.std(residual)
     x_2 = torch.pow(residual, 2)
     x_3 = torch.pow(residual, 3)
     x_4 = torch.pow(residual, 4)
     k_3 = torch.mean(x_3) / torch.pow(torch.mean(x_2), 3. / 2.)
     k_4 = torch.mean(x_4) / torch.pow(torch.mean(x_2), 4. / 2.)
-    variance = torch.var(residual)
     loss = 1 / 2 * torch.log(variance) - 1 / 12 * torch.pow(k_3, 2) - 1 / 48 * torch.pow(k_4, 2) \
            - torch.pow(torch.mean(torch.log(torch.cosh(residual))), 2)
     return loss
-- 
2.43.0


From e940ca0ae3ea302f3d751251a1bcdf29fed567bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 37/51] fix: plot_graph draws edges between nodes that are not
 strings

---
 cdmir/visual/plot_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/visual/plot_graph.py b/cdmir/visual/plot_graph.py
index edcb791..7aaf007 100644
--- a/cdmir/visual/plot_graph.py
+++ b/cdmir/visual/plot_graph.py
@@ -29,8 +29,8 @@ def plot_graph(graph, layout, is_latent=None, figsize=None, dpi=300, node_radius
     for edge in graph.edges:
         node_u, node_v, mark_u, mark_v = edge
         plt_edge(ax,
-                 (pos[node_u][0] + center[0], pos[node_u][1] + center[1]),
-                 (pos[node_v][0] + center[0], pos[node_v][1] + center[1]),
+                 (pos[str(node_u)][0] + center[0], pos[str(node_u)][1] + center[1]),
+                 (pos[str(node_v)][0] + center[0], pos[str(node_v)][1] + center[1]),
                  mark_u, mark_v,
                  node_radius=node_radius,
                  circle_mark_radius=edge_circle_mark_radius)
-- 
2.43.0


From 823d866ef2ac428c504ff423a5a45140a0ccb879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 38/51] fix: plot_graph shades latent nodes that are not
 strings

---
 cdmir/visual/plot_graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/visual/plot_graph.py b/cdmir/visual/plot_graph.py
index 7aaf007..a044791 100644
--- a/cdmir/visual/plot_graph.py
+++ b/cdmir/visual/plot_graph.py
@@ -16,8 +16,9 @@ def plot_graph(graph, layout, is_latent=None, figsize=None, dpi=300, node_radius
     pos = layout(graph)
     node_str = [str(node) for node in graph.nodes]
     for i, node in enumerate(graph.nodes):
+        latent = node in is_latent or str(node) in is_latent
         node = str(node)
-        if node in is_latent:
+        if latent:
             node_fill_color = 'white'
         else:
             node_fill_color = '0.8'  # light gray
-- 
2.43.0


From b360849b150483f0a30494a7e95240e1d71f7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 39/51] fix: indTest.independence imports mutual from the
 package (GIN could not be imported)

---
 .../LearningHierarchicalStructure/indTest/independence.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
index d67adf0..87730b6 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
@@ -1,4 +1,4 @@
-import LearningHierarchicalStructure.mutual as MI
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import mutual as MI
 import numpy as np
 import pandas as pd
 from sklearn import metrics
-- 
2.43.0


From ce29dbc2848547f0784e51f373dd8f2f8dfc3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 40/51] fix: tetrad test takes the Wishart standard error of
 the tetrad it tests

---
 .../LearningHierarchicalStructure/VanishedTest.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
index a566995..3b18ced 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
@@ -45,7 +45,8 @@ def wishartEvalTetradDifference(i, j, k, l):
     d = np.cov(j, k)[0][1]
 
     TAUijkl = a * b - c * d
-    SD = wishartTestTetradDifference(i, j, k, l)
+    # TAUijkl is the minor of the rows {i, j} and the columns {k, l}
+    SD = wishartTestTetradDifference(i, k, l, j)
 
     ratio = TAUijkl / SD
     if (ratio > 0.0):
-- 
2.43.0


From 197c290db793815d363bbe09189c3326a907291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 41/51] fix: UpdataData names the columns in the order it
 concatenates them

---
 .../funtional_based/LearningHierarchicalStructure/UpdataData.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
index 9ab0ea1..846fbca 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
@@ -155,7 +155,7 @@ def UpdataData(Merge_Results, L_index, LatentIndex, data):
 
     updateData = pd.concat([tdata, t2data], axis=1)
 
-    upindexs = list(indexs) + Lname
+    upindexs = Lname + list(indexs)
 
     updateData.columns = upindexs
 
-- 
2.43.0


From 519f4f145b83b40d3c81497152b6e14881483aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 42/51] fix: GIN compares the p-value of the HSIC test (it
 compared the whole result and raised)

---
 .../funtional_based/LearningHierarchicalStructure/GIN2.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
index 4f6177b..30e573e 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
@@ -16,7 +16,7 @@ def GIN(X, Z, data, alpha=0.05):
     for i in Z:
         temp = np.array(data[i])
 
-        pvalue = hsic.hsic_test_gamma(result.T, temp, alpha)
+        _, pvalue = hsic.hsic_test_gamma(result.T, temp)
 
         if pvalue > alpha:
             flag = True
-- 
2.43.0


From 716ed176eb0df0d32e12b5a4bd46d65a16b36256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 43/51] fix: GeneralMarginalScore scores the variable (it
 scored its parents)

---
 cdmir/utils/local_score/marginal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index 6726105..37c1bf0 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -21,7 +21,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
     def _score_function(self, i: int, parent_i: Iterable[int]):
         parent_i = list(parent_i)
         T = self.data.shape[0]
-        X = self.data[:, parent_i]
+        X = self.data[:, i]
 
         # set the kernel for X
         GX = np.sum(np.multiply(X, X), axis=1)
-- 
2.43.0


From 622ad00d3437be7baa9f95bce7bd22296ea300b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 44/51] fix: marginal scores build the covariance description
 as an object array (ragged arrays raise)

---
 cdmir/utils/local_score/marginal_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index 37c1bf0..c320cdb 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -58,7 +58,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                 widthPA[m] = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)], axis=1)[0, 0])
             widthPA = widthPA * 2.5  # kernel width
 
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             logtheta0 = np.vstack([np.log(widthPA), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -67,7 +67,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             PA = np.zeros((T, 1))
             logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
@@ -149,7 +149,7 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                 widthPA_all = np.hstack(
                     [widthPA_all, widthPA * np.ones((1, np.size(self.d_label[parent_i[m]])))])
             widthPA_all = widthPA_all * 2.5  # kernel width
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             logtheta0 = np.vstack([np.log(widthPA_all.T), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA_all,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -158,7 +158,7 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             PA = np.zeros((T, 1))
             logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
-- 
2.43.0


From 81d7c0e89b9d307e78cb3aac0742ab5916872359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 45/51] fix: gpr_multi_new multiplies matrices (arrays were
 multiplied element by element)

---
 cdmir/utils/local_score/score_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdmir/utils/local_score/score_utils.py b/cdmir/utils/local_score/score_utils.py
index 3b744b6..1e64c6b 100644
--- a/cdmir/utils/local_score/score_utils.py
+++ b/cdmir/utils/local_score/score_utils.py
@@ -414,6 +414,7 @@ def gpr_multi_new(logtheta=None, covfunc=None, x=None, y=None, xstar=None, nargo
 
     if type(covfunc) == str:
         covfunc = [covfunc]  # convert to cell if needed
+    logtheta, x, y = np.asarray(logtheta), np.asmatrix(x), np.asmatrix(y)
     n, D = x.shape
     n, m = y.shape
     if eval(feval(covfunc)) != logtheta.shape[0]:
@@ -422,7 +423,7 @@ def gpr_multi_new(logtheta=None, covfunc=None, x=None, y=None, xstar=None, nargo
     temp = list(covfunc.copy())
     temp.append(logtheta)
     temp.append(x)
-    K = feval(temp)  # compute training set covariance matrix
+    K = np.asmatrix(feval(temp))  # compute training set covariance matrix
 
     L = np.linalg.cholesky(K)  # cholesky factorization of the covariance
     alpha = solve_chol(L.T, y)
@@ -432,7 +433,7 @@ def gpr_multi_new(logtheta=None, covfunc=None, x=None, y=None, xstar=None, nargo
         out1 = 0.5 * np.trace(y.T * alpha) + m * np.sum(np.log(np.diag(L)), axis=0) + 0.5 * m * n * np.log(
             2 * np.pi)
         if nargout == 2:  # ... and if requested, its partial derivatives
-            out2 = np.zeros((logtheta.shape[0], 1))  # set the size of the derivative vector
+            out2 = np.asmatrix(np.zeros((logtheta.shape[0], 1)))  # set the size of the derivative vector
             W = m * (np.linalg.inv(L.T) * (
                         np.linalg.inv(L) * np.eye(n))) - alpha * alpha.T  # precompute for convenience
             for i in range(len(out2) - 1, len(out2)):
-- 
2.43.0


From 947a2d89abfc026b1a760eb450b6f177e3f95d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 46/51] fix: minimize takes the inner product of the two
 gradients in its search direction

---
 cdmir/utils/local_score/score_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/score_utils.py b/cdmir/utils/local_score/score_utils.py
index 1e64c6b..84e819c 100644
--- a/cdmir/utils/local_score/score_utils.py
+++ b/cdmir/utils/local_score/score_utils.py
@@ -289,7 +289,7 @@ def minimize(X, f, length, *varargin):
             X = X + x3 * s
             f0 = f3
             fX = np.vstack([fX, f0])  # update variables
-            s = ((df3.T * df3)[0, 0] - df0.T * df3[0, 0]) / (df0.T * df0)[0, 0] * s - df3  # Polack-Ribiere CG direction
+            s = ((df3.T * df3)[0, 0] - (df0.T * df3)[0, 0]) / (df0.T * df0)[0, 0] * s - df3  # Polack-Ribiere CG direction
             df0 = df3  # swap derivatives
             d3 = d0
             d0 = (df0.T * s)[0, 0]
-- 
2.43.0


From ae30d64dc31d5f4a3fed533ea3464caab82c5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:07 +0000
Subject: [PATCH 47/51] fix: leaky_relu keeps fractions of integer input and
 accepts empty input

---
 cdmir/datasets/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/utils.py b/cdmir/datasets/utils.py
index e5182ff..2ad2e6b 100644
--- a/cdmir/datasets/utils.py
+++ b/cdmir/datasets/utils.py
@@ -30,7 +30,7 @@ def np2nx(np_data, create_using=None):
 def leaky_relu(inputs, neg_slope=0.2):
     assert neg_slope > 0
     leaky_relu_1d = lambda x: x if x > 0 else x * neg_slope
-    leaky1d = np.vectorize(leaky_relu_1d)
+    leaky1d = np.vectorize(leaky_relu_1d, otypes=[float])
     return leaky1d(inputs)
 
 
-- 
2.43.0


From 9f83a4d56148421bd784f45d91b56554a2ef295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:59 +0000
Subject: [PATCH 48/51] fix: olc works on a float copy of the data (it
 overwrote the caller's and truncated integers)

---
 cdmir/discovery/funtional_based/one_component/olc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/discovery/funtional_based/one_component/olc.py b/cdmir/discovery/funtional_based/one_component/olc.py
index ed53a63..ab41541 100644
--- a/cdmir/discovery/funtional_based/one_component/olc.py
+++ b/cdmir/discovery/funtional_based/one_component/olc.py
@@ -51,6 +51,7 @@ def surrogate_regression(data, A, X, common_exogenous, mod_omega=False, z=None):
 
 
 def olc(data, alpha=0.05, beta=0.01, verbose=False):
+    data = np.array(data, dtype=float)  # a copy: columns are replaced below
     n = data.shape[1]
     UDG = nx.Graph()
     CG = nx.DiGraph()
-- 
2.43.0


From 1da6c3521b41faf040375f7df0b26f372ea75133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 49/51] fix: HSIC_U_statistic works on copies (it zeroed the
 diagonals of the caller's kernel matrices)

---
 .../LearningHierarchicalStructure/indTest/HSICTestObject.py      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py
index 21c65ed..e02470f 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py
@@ -48,6 +48,7 @@ class HSICTestObject(TestObject):
     @staticmethod
     def HSIC_U_statistic(Kx, Ky):
         m = shape(Kx)[0]
+        Kx, Ky = Kx.copy(), Ky.copy()  # the caller still needs the diagonals
         fill_diagonal(Kx, 0.)
         fill_diagonal(Ky, 0.)
         K = np.dot(Kx, Ky)
-- 
2.43.0


From 701f86c61883d2425e97b5459eb070700ca67952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 50/51] fix: the unbiased spectral HSIC test compares its
 statistic on the scale of the null samples

---
 .../indTest/HSICSpectralTestObject.py                           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py
index c5a2be5..7654e53 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py
@@ -48,6 +48,8 @@ class HSICSpectralTestObject(HSICTestObject):
             data_generating_time = 0.
         # print 'data generating time passed: ', data_generating_time
         hsic_statistic, _, _, _, Mx, My, _ = self.HSICmethod(unbiased=self.unbiased, data_x=data_x, data_y=data_y)
+        if self.unbiased:  # a mean over pairs, where the biased statistic is a sum like the null samples
+            hsic_statistic = hsic_statistic * self.num_samples ** 2
         null_samples = self.get_null_samples_with_spectral_approach(Mx, My)
         pvalue = (1 + sum(null_samples > self.num_samples * hsic_statistic)) / float(1 + self.num_nullsims)
         return pvalue, data_generating_time
-- 
2.43.0


From 52268657a91a12a11f9b9dfa8f3426b1f180c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 51/51] fix: kernel scores of tables of narrow integer types
 overflowed

---
 cdmir/utils/local_score/cross_validated_base.py | 4 ++--
 cdmir/utils/local_score/marginal_base.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdmir/utils/local_score/cross_validated_base.py b/cdmir/utils/local_score/cross_validated_base.py
index 82e80b1..4ef093e 100644
--- a/cdmir/utils/local_score/cross_validated_base.py
+++ b/cdmir/utils/local_score/cross_validated_base.py
@@ -16,7 +16,7 @@ class GeneralCVScore(BaseLocalScoreFunction):
 
     def __init__(self, data: ndarray | DataFrame, *args, **kwargs):
         super().__init__(data, *args, **kwargs)
-        self.data = asmatrix(data)
+        self.data = asmatrix(data, dtype=float)
         if not kwargs.__contains__('lambda_value'):
             self.lambda_value = 0.01
         else:
@@ -197,7 +197,7 @@ class MultiCVScore(BaseLocalScoreFunction):
 
     def __init__(self, data: ndarray | DataFrame, *args, **kwargs):
         super().__init__(data, *args, **kwargs)
-        self.data = asmatrix(data)
+        self.data = asmatrix(data, dtype=float)
         if not kwargs.__contains__('lambda_value'):
             self.lambda_value = 0.01
         else:
diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index c320cdb..ff3352d 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -16,7 +16,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
 
     def __init__(self, data: ndarray | DataFrame, *args, **kwargs):
         super().__init__(data, *args, **kwargs)
-        self.data = asmatrix(data)
+        self.data = asmatrix(data, dtype=float)
 
     def _score_function(self, i: int, parent_i: Iterable[int]):
         parent_i = list(parent_i)
@@ -87,7 +87,7 @@ class MultiMarginalScore(BaseLocalScoreFunction):
 
     def __init__(self, data: ndarray | DataFrame, *args, **kwargs):
         super().__init__(data, *args, **kwargs)
-        self.data = asmatrix(data)
+        self.data = asmatrix(data, dtype=float)
         if not kwargs.__contains__('d_label'):
             self.d_label = {}
             for i in range(self.data.shape[1]):
-- 
2.43.0

