From a4f3a0901ccfe834544ce9bae2b21ab24d838b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 01/73] fix: relative minimum support must not miss itemsets
 exactly on the threshold

0.07 * 100 is 7.000000000000001 in floating point, so itemsets occurring in
7 of 100 transactions were dropped with min_supp=0.07.
---
 skmine/itemsets/lcm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index ef198f7..9a579b8 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -11,6 +11,7 @@ as described in `http://lig-membres.imag.fr/termier/HLCM/hlcm.pdf`
 #
 # License: BSD 3 clause
 
+import math
 import os
 import shutil
 from collections import defaultdict
@@ -120,6 +121,9 @@ class LCM(TransformerMixin, BaseEstimator):
         _check_min_supp(self.min_supp)
         if isinstance(self.min_supp, float):  # make support absolute if needed
             self.min_supp_ = self.min_supp * n_transactions_
+            nearest = round(self.min_supp_)
+            if math.isclose(self.min_supp_, nearest, rel_tol=1e-9):  # e.g 0.07 * 100 == 7.000000000000001
+                self.min_supp_ = nearest
         else:
             self.min_supp_ = self.min_supp
 
-- 
2.43.0


From 776d2a658383d0371e71ceb40a948de3b0720e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 02/73] fix: LCMMax with max_length raised KeyError when no
 itemset is frequent

---
 skmine/itemsets/lcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 9a579b8..31a1a31 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -369,7 +369,7 @@ class LCMMax(LCM, TransformerMixin):
 
         # keeps only itemsets smaller than max_length
         if self.max_length_ != -1:
-            length_mask = patterns.itemset.apply(lambda x: len(x) <= self.max_length_)
+            length_mask = patterns.itemset.map(len) <= self.max_length_
             patterns = patterns[length_mask]
             patterns.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 8c452f576be39b9c536dcfe0d30711c76889d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:16 +0000
Subject: [PATCH 03/73] fix: SLIM must forget the supports of previously fitted
 data

get_support is memoised per instance, so fitting the same instance on other
data ordered the codetable with the supports of the old data.
---
 skmine/itemsets/slim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 729af50..949e775 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -646,6 +646,7 @@ class SLIM(BaseEstimator, TransformerMixin):
 
         # Build Standard Codetable <class 'pandas.core.series.Series'> in usage descending order :
         self.standard_codetable_ = sct
+        SLIM.get_support.cache_clear()  # supports from a previous fit are not valid anymore
 
         if self.items is not None:
             # Adds in the standard codetable, the items that do not appear in the transactions. Useful for
-- 
2.43.0


From 96d84978914b597d689dc3b976032a8a830e3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:16 +0000
Subject: [PATCH 04/73] fix: evaluating a candidate already in the SLIM
 codetable must not lose its usage

The candidate was inserted a second time, the second cover (empty) replaced
the first one, and the data could not be reconstructed any more.
---
 skmine/itemsets/slim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 949e775..412eba0 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -388,7 +388,8 @@ class SLIM(BaseEstimator, TransformerMixin):
         # Get the id (``idx``) of the insertion of ``candidate`` in codetable w.r.t the standard cover order
         idx = self.codetable_.bisect(candidate)
         ct = list(self.codetable_)
-        ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
+        if candidate not in self.codetable_:
+            ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
         D = {k: v.copy() for k, v in self.standard_codetable_.items()}
         # Get the cover a standard codetable D with CT itemsets
         CTc = cover(D, ct)  # CTc is sorted in Standard Cover Order like D
-- 
2.43.0


From 0f26bed0c61de19bf01f80b8fa30d71cac6c1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:16 +0000
Subject: [PATCH 05/73] fix: SLIM.reconstruct must keep empty transactions at
 the end of the data

---
 skmine/itemsets/slim.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 412eba0..4cf38a3 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -579,9 +579,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         pd.Series
             original database containing a list of transactions
         """
-        n_transactions = (max(map(Bitmap.max, filter(lambda e: e, self.codetable_.values()))) + 1)
-
-        D = pd.Series([set()] * n_transactions)
+        D = pd.Series([set()] * self.n_transactions_)
         for itemset, tids in self.codetable_.items():
             D.iloc[list(tids)] = D.iloc[list(tids)].map(itemset.union)
         return D.map(sorted)
@@ -633,9 +631,10 @@ class SLIM(BaseEstimator, TransformerMixin):
             if y is not None:
                 D = supervised_to_unsupervised(D, y)  # SKLEARN_COMPAT
             item_to_tids = {k: Bitmap(np.where(D[k])[0]) for k in D.columns}
+            self.n_transactions_ = len(D)
         else:
             # compute tids for each item in Bitmap
-            item_to_tids = _to_vertical(D)
+            item_to_tids, self.n_transactions_ = _to_vertical(D, return_len=True)
 
         sct = pd.Series(item_to_tids)  # sct for "standard code table"
         # The usage of an itemset X ∈ CT (Code Table) is the number of transactions t ∈ D which have X in their cover.
-- 
2.43.0


From e8f84bcd6637c6346bff4d3a08f640b52622eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:16 +0000
Subject: [PATCH 06/73] fix: SLIM.transform could not write non string items to
 a file

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 4cf38a3..5c51818 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -543,7 +543,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         if self.out_ is not None:
             with open(self.out_, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
-                    line = "(" + str(usage) + ") " + " ".join(itemset) + "\n"
+                    line = "(" + str(usage) + ") " + " ".join(map(str, itemset)) + "\n"
                     if self.return_tids_:
                         line += " ".join(map(str, itids[i])) + "\n"
                     f.write(line)
-- 
2.43.0


From de18d867b7aef7bee0464d47083d0303b09ea52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:26 +0000
Subject: [PATCH 07/73] fix: SLIM.fit rejected tabular data of boolean type

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 5c51818..0d14bbc 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -164,7 +164,7 @@ class SLIM(BaseEstimator, TransformerMixin):
             self.classes_ = np.unique(y)
 
         self._validate_data(X, force_all_finite=False, accept_sparse=False, ensure_2d=False,
-                            ensure_min_samples=1, dtype=list)
+                            ensure_min_samples=1, dtype=object)
         self.n_features_in_ = X.shape[-1] if not isinstance(X, list) else len(X[-1])
         # TODO : significant for one-hot D, not for list of itemset
         start = time.time()
-- 
2.43.0


From 09b8a518aea28aa9c0b8872597c2fdd86a28e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 08/73] fix: SLIMVectorizer could not be fitted with stop_items

A generator was handed to the input validation of SLIM.fit, which rejects it.
---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index 4c4ef0d..f7c0feb 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -81,7 +81,7 @@ class SLIMVectorizer(SLIM):
 
     def fit(self, D, y=None):
         if self.stop_items is not None:
-            D = _filter_stop_items(D, stop_items=self.stop_items)
+            D = list(_filter_stop_items(D, stop_items=self.stop_items))
         return super().fit(D)
 
     def transform(self, newD, y=None, **tsf_params) -> pd.DataFrame:
-- 
2.43.0


From 8a56592d588e03e4875b0789925a3a538e0d70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 09/73] fix: SLIMVectorizer codes must be relative to the
 training data

The documented value of a cell is the probability of the pattern in the
training data; it was divided by the usages of the patterns that happen to
occur in the new data, so the same transaction got different values in
different batches, and NaN when the remaining usages are null.
---
 skmine/feature_extraction/slim_vectorizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index f7c0feb..e622ef4 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -105,6 +105,7 @@ class SLIMVectorizer(SLIM):
         D_sct, _len = _to_vertical(newD, stop_items=stop_items, return_len=True)
         code_lengths = super().transform(newD, return_tids=False, singletons=True, drop_null_usage=False)
         code_lengths = pd.Series(code_lengths["usage"].values, index=code_lengths["itemset"].apply(tuple))
+        total_usage = code_lengths.sum()
         code_lengths = code_lengths[code_lengths.index.map(set(D_sct).issuperset)]
 
         isets = code_lengths.nlargest(self.k)  # real usages sorted in decreasing order
@@ -116,7 +117,7 @@ class SLIMVectorizer(SLIM):
         mat = pd.DataFrame(mat, columns=list(covers.keys()))
 
         if self.strategy == "codes":
-            ct_codes = code_lengths[isets.index] / code_lengths.sum()
+            ct_codes = code_lengths[isets.index] / total_usage
             mat = (mat * ct_codes).astype(np.float32)
 
         return mat
-- 
2.43.0


From 4f285df3e8a26c31bc2943b8ab3668d039ae4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 10/73] fix: a transaction covered with null length codes must
 not get an infinite code length

When the codetable has a single entry its code has length 0, and the
transactions it covers were reported as not encodable, so a classifier
never chose the class they come from.
---
 skmine/itemsets/slim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 0d14bbc..6bcdd06 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -237,7 +237,8 @@ class SLIM(BaseEstimator, TransformerMixin):
         code_lengths["code"] = -_log2(code_lengths["usage"] / code_lengths["usage"].sum())
         mapping = {tuple(row['itemset']): row['code'] for _, row in code_lengths.iterrows()}
         codes_length_D = mat.replace(True, mapping).sum(axis=1).astype(np.float32)
-        codes_length_D[codes_length_D == 0] = + np.inf  # zeros would fool a `shortest code wins` strategy
+        # nothing covered: zeros would fool a `shortest code wins` strategy
+        codes_length_D[~mat.any(axis=1)] = + np.inf
 
         return codes_length_D
 
-- 
2.43.0


From 589ddcfe9265a2fd936164bd3339aa321a0b8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 11/73] fix: SlimClassifier ignored its pruning parameter

---
 skmine/itemsets/slim_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 5c32764..2903443 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -69,7 +69,7 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
         for c in self.classes_:
             transactions_classes = [transaction for transaction, target in zip(X, y) if target == c]
             self.classes_X_.append(transactions_classes)
-            self.models_.append(SLIM(items=self.items))
+            self.models_.append(SLIM(items=self.items, pruning=self.pruning))
 
         for model, data in zip(self.models_, self.classes_X_):
             model.fit(data)
-- 
2.43.0


From 497e9d8195db32c46f8dffe6c9db77a419e95138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:53 +0000
Subject: [PATCH 12/73] fix: MDLP cut points overflowed on small integer types

---
 skmine/preprocessing/mdlp_discretizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 468e419..d61511b 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -122,8 +122,8 @@ class MDLPVectDiscretizer(MDLOptimizer):
 
             is_better = self.evaluate(y, start, end, k)
             if k == -1 or not is_better:
-                front = -np.inf if start == 0 else (X[start - 1] + X[start]) / 2
-                back = np.inf if end == len(X) else (X[end - 1] + X[end]) / 2
+                front = -np.inf if start == 0 else X[start - 1] / 2 + X[start] / 2
+                back = np.inf if end == len(X) else X[end - 1] / 2 + X[end] / 2
 
                 if front != -np.inf:
                     cut_points.add(front)
-- 
2.43.0


From 2a5bed90c88186f8275ad73733ed0b489ef3689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:53 +0000
Subject: [PATCH 13/73] fix: MDLP discretisation rejected negative labels

---
 skmine/preprocessing/mdlp_discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index d61511b..7531dee 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -110,7 +110,7 @@ class MDLPVectDiscretizer(MDLOptimizer):
 
         order = np.argsort(X)
         X = X[order]
-        y = y[order]
+        y = np.unique(y, return_inverse=True)[1][order]  # labels may be negative
 
         cut_points = set()
         search_intervals = [(0, len(X), 0)]
-- 
2.43.0


From 1e651a16786acd10eccfc6f228024a54ea990523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:53 +0000
Subject: [PATCH 14/73] fix: MDLPDiscretizer.transform must apply each column's
 own cut points whatever the column order

---
 skmine/preprocessing/mdlp_discretizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 7531dee..5f733da 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -241,10 +241,11 @@ class MDLPDiscretizer(BaseMiner):
         if isinstance(X, pd.DataFrame) and not set(self.cut_points_) == set(X.columns):
             raise ValueError(f"X columns should be {self.cut_points_.keys()}")
         _X = X.values if isinstance(X, pd.DataFrame) else X
+        columns = X.columns if isinstance(X, pd.DataFrame) else self.cut_points_
 
         vects = Parallel(n_jobs=self.n_jobs, prefer="threads")(
-            delayed(np.searchsorted)(cut_points, _X[:, idx])
-            for idx, cut_points in enumerate(self.cut_points_.values())
+            delayed(np.searchsorted)(self.cut_points_[col], _X[:, idx])
+            for idx, col in enumerate(columns)
         )
 
         vects = [v.reshape(len(v), 1) for v in vects]
-- 
2.43.0


From 8ca6e54fb792c2f0e329b7699b22020061e5512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 15/73] fix: enumerated emerging patterns must contain an
 itemset of the left border

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 818ae51..7204cef 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -95,7 +95,7 @@ def borders_to_patterns(left, right, min_size=None):
     for size in range(len(right) - 1, min_size - 1, -1):  # bigger patterns first
         combs = combinations(right, size)
         for pat in combs:
-            if any((e.issuperset(set(pat)) for e in left)):
+            if not any((e < set(pat) for e in left)):
                 continue
             patterns.append(pat)
 
-- 
2.43.0


From 6848e89378908832cd306b8911113de113cc0e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 16/73] fix: an itemset maximal in both collections has no
 emerging subset

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 7204cef..f822bd5 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -62,7 +62,7 @@ def mbdllborder(isets1, isets2):
     borders = list()
 
     for iset in isets2:
-        if any((e > iset for e in isets1)):
+        if any((e >= iset for e in isets1)):
             continue
         inter = (iset & e for e in isets1)
         R = filter_maximal(inter)
-- 
2.43.0


From 1e4159c0225d8d01dcd999c838b78e525fd6bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 17/73] fix: borders when no itemset is frequent in the first
 collection

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index f822bd5..d25ac2b 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -65,7 +65,7 @@ def mbdllborder(isets1, isets2):
         if any((e >= iset for e in isets1)):
             continue
         inter = (iset & e for e in isets1)
-        R = filter_maximal(inter)
+        R = filter_maximal(inter) or [set()]
 
         diff = border_diff(iset, R)
         borders.append(diff)
-- 
2.43.0


From c01ec6723aa833398779dcbebe06748ebe92ace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 18/73] fix: MBDLLBorder.fit raised KeyError on a list of
 string labels

---
 skmine/emerging/mbdldorber.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index d25ac2b..6fa81b2 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -173,6 +173,7 @@ class MBDLLBorder(BaseMiner, DiscovererMixin):
             Must contain only two disctinct values, i.e len(np.unique(y)) == 2
         """
 
+        y = y if isinstance(y, pd.Series) else np.asarray(y)
         labels = np.unique(y)
         assert len(labels) == 2
         assert isinstance(D, pd.Series)  # TODO : accept tabular data
-- 
2.43.0


From 6cbef66f9c70cedc401f0aa18b9d0716c2b55adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 19/73] fix: intersect2d missed common rows when their first
 value is repeated

---
 skmine/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 7e1ac89..b180430 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -180,13 +180,11 @@ def intersect2d(ar1, ar2, return_indices=True):
     """
     ar1, ar2 = np.asanyarray(ar1), np.asanyarray(ar2)
     assert ar1.ndim == ar2.ndim == 2
-    _, x_ind, y_ind = np.intersect1d(ar1[:, 0], ar2[:, 0], return_indices=True)
-    x, y = ar1[x_ind], ar2[y_ind]
-    xy_where = np.argwhere((x == y).all(axis=1)).reshape(-1)
-    x_ind = x_ind[xy_where]
+    _, row_ids = np.unique(np.concatenate([ar1, ar2]), axis=0, return_inverse=True)
+    row_ids = row_ids.reshape(-1)
+    _, x_ind, y_ind = np.intersect1d(row_ids[: len(ar1)], row_ids[len(ar1) :], return_indices=True)
 
     if return_indices:
-        y_ind = y_ind[xy_where]
         return ar1[x_ind], x_ind, y_ind
     else:
         return ar1[x_ind]
-- 
2.43.0


From e7420aab87dbe02f28fe3984f53984a870766aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:14 +0000
Subject: [PATCH 20/73] fix: bron_kerbosch emptied the graph it was given

---
 skmine/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/utils.py b/skmine/utils.py
index b180430..a0059cc 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -323,6 +323,7 @@ def bron_kerbosch(candidates: dict, clique=None, excluded=None, depth=0):
     # fix collisions in pytest, really obscure
     clique = clique or dict()
     excluded = excluded or dict()
+    candidates = dict(candidates)  # do not empty the mapping of the caller
 
     if depth > 20:
         return None
-- 
2.43.0


From 60d2b48207bb777e9a5369bd8eebf9e10e6c2143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:18 +0000
Subject: [PATCH 21/73] fix: PeriodicPatternMiner could not be fitted on logs
 with simultaneous events

---
 skmine/periodic/cycles.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2dcb750..459773b 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -120,15 +120,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
         serie = S.copy(deep=True)
-        if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
-            # same time AND with the same event. At this line, the second condition is not yet verified.
-            len_S = len(serie)
-            serie = serie.groupby(by=serie.index).apply(lambda x: x.drop_duplicates())
-            # if same time and same event,  create Multi inde names =[timestamp, timestamp]
-            diff = len_S - len(serie)
-            if diff:
-                serie = serie.reset_index(level=0, drop=True)
-                warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
+        # duplicates, i.e. occurrences that happened at the same time AND with the same event.
+        duplicated = pd.DataFrame({"time": serie.index, "event": serie.values}).duplicated().values
+        if duplicated.any():
+            serie = serie[~duplicated]
+            warnings.warn(f"found {duplicated.sum()} duplicates in the input sequence, they have been removed.")
 
         S_times_nano = serie.index.astype("int64")
         verbose = False
-- 
2.43.0


From 5a924624a7bec4dcebb858dd619c9f38f58608de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:18 +0000
Subject: [PATCH 22/73] fix: PeriodicPatternMiner.fit failed on logs that are
 not in chronological order

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 459773b..6779b2a 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -126,6 +126,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             serie = serie[~duplicated]
             warnings.warn(f"found {duplicated.sum()} duplicates in the input sequence, they have been removed.")
 
+        serie = serie.sort_index()  # mining relies on the chronological order
         S_times_nano = serie.index.astype("int64")
         verbose = False
         if self.auto_time_scale:
-- 
2.43.0


From a0fbb0f9bb2d60797e2e2515b81cadfcb2d135dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:18 +0000
Subject: [PATCH 23/73] fix: reconstruction without patterns and residuals of a
 fully covered log raised KeyError

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 6779b2a..1f94da1 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -343,7 +343,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
                 reconstruct_list.append(dict_)
 
-        reconstruct_pd = pd.DataFrame(reconstruct_list)
+        reconstruct_pd = pd.DataFrame(reconstruct_list, columns=["time", "event"])
 
         if self.is_datetime_:
             reconstruct_pd['time'] = reconstruct_pd['time'].astype("datetime64[ns]")
@@ -399,7 +399,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-        residuals_transf_pd = pd.DataFrame(residuals_transf_list)
+        residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
         if self.auto_time_scale and self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
-- 
2.43.0


From 0047f911afeed95cb001779054dc7af65dfa9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:18 +0000
Subject: [PATCH 24/73] fix: periodic patterns could not be read or exported
 without automatic time scaling

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 1f94da1..65f8764 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -139,6 +139,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         else:
             serie.index = S_times_nano
             resolution = "nano-second"
+            self.n_zeros_ = 0
             self.div_nb_sec_ = 1
 
         # TODO : merge self.div_nb_sec_ and self.n_zeros_ to just one number, by which nano-seconds are divided
-- 
2.43.0


From 53f61fc501ab4cf432037c7d1ac0e654292aecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:18 +0000
Subject: [PATCH 25/73] fix: residuals of datetime logs without automatic time
 scaling must be datetimes

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 65f8764..5ccc016 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -402,7 +402,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
-        if self.auto_time_scale and self.is_datetime_:
+        if self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
         else:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("int64")
-- 
2.43.0


From 90d24ba374ae04caf53dcc2b26c23e8f99fe2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:18 +0000
Subject: [PATCH 26/73] fix: residuals of some patterns must be the complement
 of what they reconstruct

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 5ccc016..afd4f3f 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -409,7 +409,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         reconstruct_ = self.reconstruct(patterns_id)
         reconstruct_all = self.reconstruct()
-        complementary_reconstruct = reconstruct_all[~reconstruct_all.isin(reconstruct_)].dropna()
+        covered = pd.MultiIndex.from_frame(reconstruct_all).isin(pd.MultiIndex.from_frame(reconstruct_))
+        complementary_reconstruct = reconstruct_all[~covered]
 
         if pd.merge(reconstruct_all, residuals_transf_pd, how='inner').empty:
             residuals_transf_pd = pd.concat([residuals_transf_pd, complementary_reconstruct], ignore_index=True)
-- 
2.43.0


From c1c8626f57684096f497864d038e19bc8cc635e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:18 +0000
Subject: [PATCH 27/73] fix: export_patterns without patterns raised, or
 exported those of the previous log

---
 skmine/periodic/cycles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index afd4f3f..855e6ec 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -202,11 +202,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                                                                                div_nb_sec=self.div_nb_sec_,
                                                                                is_datetime=self.is_datetime_)
 
+        self.cycles = pd.DataFrame(patterns_list_of_dict)
+
         if not patterns_list_of_dict:
             return pd.DataFrame()  # FIXME
 
-        self.cycles = pd.DataFrame(patterns_list_of_dict)
-
         if self.auto_time_scale:  # restore time in nano-second
             self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
 
@@ -241,7 +241,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         dummy_var = 17
         self.transform(dummy_var)
 
-        big_dict_list = [i for i in self.cycles["pattern_json_tree"].values]
+        big_dict_list = list(self.cycles.get("pattern_json_tree", []))
 
         data_dict = self.alpha_groups_.copy()
         for k, v in data_dict.items():
-- 
2.43.0


From 60106ef7875a0d15fa055b02dbbcb5e20b723e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:18 +0000
Subject: [PATCH 28/73] fix: exported patterns must keep their identifiers

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 855e6ec..386c716 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -239,7 +239,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         """
         # allows us to call export_patterns without explicitly calling transform method before
         dummy_var = 17
-        self.transform(dummy_var)
+        self.transform(dummy_var, chronological_order=False)
 
         big_dict_list = list(self.cycles.get("pattern_json_tree", []))
 
-- 
2.43.0


From 0652279e6608ebf654a5ee4306e77e17a848a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:30 +0000
Subject: [PATCH 29/73] fix: the cost of a triple must be that of the period it
 is given

---
 skmine/periodic/run_mine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/run_mine.py b/skmine/periodic/run_mine.py
index d1d6184..0480b76 100644
--- a/skmine/periodic/run_mine.py
+++ b/skmine/periodic/run_mine.py
@@ -5,7 +5,7 @@ import numpy
 
 from .candidate import Candidate
 from .candidate_pool import CandidatePool
-from .class_patterns import computePeriod, cost_one, sortPids
+from .class_patterns import computeLengthCycle, computePeriod, cost_one, sortPids
 from .class_patterns import prop_map
 from .data_sequence import DataSequence
 from .extract_cycles import compute_cycles_dyn, extract_cycles_fold
@@ -245,7 +245,9 @@ def extract_cycles_alpha(occs, alpha, data_details, costOne, max_p=None):
 
     chains, triples_tmp = extract_cycles_fold(tmp_occs, alpha, data_details, bound_dE, costOne, costOne, max_p)
     triples = [{"alpha": alpha, "occs": [tmp_occs[tt] for tt in t[-1]],
-                "p": computePeriod([tmp_occs[tt] for tt in t[-1]]), "cost": t[-2]} for t in triples_tmp]
+                "p": computePeriod([tmp_occs[tt] for tt in t[-1]])} for t in triples_tmp]
+    for t in triples:  # cost with the median period, which is the one kept for the cycle
+        t["cost"] = computeLengthCycle(data_details, dict(t))
 
     cycles = [Candidate(-1, c) for c in merge_cycle_lists([dyn_cycles, chains, triples])]
 
-- 
2.43.0


From 6908038f1429f85c744bf6391af381c5f07b1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 30/73] fix: periodic patterns must be given in the time unit
 of their log whatever auto_time_scale

---
 skmine/periodic/cycles.py | 42 ++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 386c716..fe0ebd6 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -207,17 +207,17 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if not patterns_list_of_dict:
             return pd.DataFrame()  # FIXME
 
-        if self.auto_time_scale:  # restore time in nano-second
-            self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+        # restore time in nano-second
+        self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
 
-            if self.is_datetime_:
-                self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
-                self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
-                self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
+        if self.is_datetime_:
+            self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
+            self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
+            self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
 
-                def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
+            def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
-                self.cycles["E"] = self.cycles["E"].apply(lambda x: list(map(to_timedelta, x)))
+            self.cycles["E"] = self.cycles["E"].apply(lambda x: list(map(to_timedelta, x)))
         if dE_sum:
             self.cycles.rename(columns={"E": "sum_E"}, inplace=True)
             self.cycles["sum_E"] = self.cycles["sum_E"].apply(lambda x: np.sum(np.abs(x)))
@@ -335,10 +335,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             occs = p.getOccs(occsStar, t0, Ed)
 
             for k, occ in enumerate(occs):
-                if self.auto_time_scale:
-                    time0 = occ * 10 ** self.n_zeros_ * self.div_nb_sec_ # restore time in nano-second
-                else:
-                    time0 = occ
+                time0 = occ * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
                 dict_ = {'time': time0,
                          "event": map_ev[occsStar[k][1]]}
 
@@ -393,10 +390,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         residuals_transf_list = []
 
         for res in residuals:
-            if self.auto_time_scale:
-                time0 = res[0] * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
-            else:
-                time0 = res[0]
+            time0 = res[0] * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
@@ -454,13 +448,12 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                     pattern[nid]["event"] = list(self.data_details_.map_ev_num.keys())[int(pattern[nid]["event"])]
 
                 elif "p" in pattern[nid].keys():
-                    if self.auto_time_scale:
-                        pattern[nid]["p"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
-                        if self.is_datetime_:
-                            pattern[nid]["p"] = timedelta(microseconds=pattern[nid]["p"] / 1000)
+                    pattern[nid]["p"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
+                    if self.is_datetime_:
+                        pattern[nid]["p"] = timedelta(microseconds=pattern[nid]["p"] / 1000)
                     for i, child in enumerate(pattern[nid]["children"]):
                         new_distance = child[1]
-                        if i != 0 and self.auto_time_scale:
+                        if i != 0:
                             new_distance = child[1] * (
                                         10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
                             if self.is_datetime_:
@@ -468,10 +461,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                         pattern[nid]["children"][i] = (child[0], new_distance)
 
             elif nid == "t0":
-                if self.auto_time_scale:
-                    pattern["t0"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
-                    if self.is_datetime_:
-                        pattern["t0"] = datetime.utcfromtimestamp(pattern["t0"] / 1_000_000_000)
+                pattern["t0"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
+                if self.is_datetime_:
+                    pattern["t0"] = datetime.utcfromtimestamp(pattern["t0"] / 1_000_000_000)
 
         graph = draw_pattern(pattern)
         if directory:
-- 
2.43.0


From 369ec50635e4cbab18520fff760048ca6bab45d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:50 +0000
Subject: [PATCH 31/73] fix: corrections and inner distances of periodic
 patterns must be in the unit of an integer log

---
 skmine/periodic/cycles.py  | 2 +-
 skmine/periodic/pattern.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index fe0ebd6..5d80695 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -209,11 +209,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         # restore time in nano-second
         self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+        self.cycles["E"] = self.cycles.E.apply(lambda x: [e * 10 ** self.n_zeros_ * self.div_nb_sec_ for e in x])
 
         if self.is_datetime_:
             self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
             self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
-            self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
 
             def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
diff --git a/skmine/periodic/pattern.py b/skmine/periodic/pattern.py
index a0eafca..40ccbb9 100644
--- a/skmine/periodic/pattern.py
+++ b/skmine/periodic/pattern.py
@@ -910,16 +910,17 @@ class Pattern(object):
         if self.isInterm(nid):
             r = self.nodes[nid].get("r", "-")
             p = self.nodes[nid].get("p", "-")
+            if n_zeros or is_datetime:
+                p *= (10 ** n_zeros * div_nb_sec)  # restore time in nano-second
             if is_datetime:
-                p *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                 p = timedelta(microseconds=p / 1000)
             ss = "[r=%s p=%s]" % (r, p)
             sc = ""
             for ni, nn in enumerate(self.nodes[nid]["children"]):
                 if ni > 0:
                     d = nn[1]
+                    d *= (10 ** n_zeros * div_nb_sec)  # restore time in nano-second
                     if is_datetime:
-                        d *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                         d = timedelta(microseconds=d / 1000)
                     sc += " [d=%s] " % d
                 sc += self.__str__(nn[0], map_ev, leaves_first, n_zeros, div_nb_sec, is_datetime)
-- 
2.43.0


From 12a31a5c2f87895397c333af5d291244b55c5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:05 +0000
Subject: [PATCH 32/73] fix: periodic patterns of events that are not strings
 could not be exported

---
 skmine/periodic/cycles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 5d80695..9986e8b 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -246,6 +246,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         data_dict = self.alpha_groups_.copy()
         for k, v in data_dict.items():
             data_dict[k] = v.to_list()
+        if not all(isinstance(k, str) for k in data_dict):  # json would turn the events into strings
+            data_dict = [[getattr(k, "tolist", lambda: k)(), v] for k, v in data_dict.items()]
 
         big_dict = {
             "is_datetime_": self.is_datetime_,
-- 
2.43.0


From 0a47f65f6978b0b3c237ff01981f87fd82585108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:10 +0000
Subject: [PATCH 33/73] fix: imported periodic patterns could not be exported
 again, or with the data of another log

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 9986e8b..2e36645 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -277,6 +277,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         self.div_nb_sec_ = big_dict["div_nb_sec_"]
         self.is_datetime_ = big_dict["is_datetime_"]
         self.data_details_ = DataSequence(dict(big_dict["data_details"]))
+        self.alpha_groups_ = {k: pd.Index(v) for k, v in dict(big_dict["data_details"]).items()}
         big_dict_list = big_dict["patterns"]
 
         patterns_list = []
-- 
2.43.0


From 7a8dd393fe3e91445df2eea66176a6f85744b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:45 +0000
Subject: [PATCH 34/73] fix: datetimes of another resolution than nano-seconds
 were mined as nano-seconds

---
 skmine/periodic/cycles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2e36645..a064e03 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -127,6 +127,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             warnings.warn(f"found {duplicated.sum()} duplicates in the input sequence, they have been removed.")
 
         serie = serie.sort_index()  # mining relies on the chronological order
+        if self.is_datetime_:  # datetimes may have another resolution than nano-second
+            serie.index = serie.index.values.astype("datetime64[ns]")
         S_times_nano = serie.index.astype("int64")
         verbose = False
         if self.auto_time_scale:
-- 
2.43.0


From 3da5350fc7854f78440b3d0ba7e88dce7eea5732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:04 +0000
Subject: [PATCH 35/73] fix: concatenating a pattern after a concatenation must
 not move its events

---
 skmine/periodic/run_mine.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/run_mine.py b/skmine/periodic/run_mine.py
index 0480b76..6fa66ba 100644
--- a/skmine/periodic/run_mine.py
+++ b/skmine/periodic/run_mine.py
@@ -162,22 +162,28 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
     offset = 0
     Pblks_occs = []
     Pblks_errs = []
+    ds = []  # distance from each candidate to its left sibling, i.e. to the last child of the previous candidate
+    last_pos = []  # position, in a block, of the first occurrence of the last child of each candidate
     for ci, cand in enumerate(cands):
 
         Pblks_occs.append(cand.getBlocksO(first_rs[ci]))
         Pblks_errs.append(cand.getBlocksE(first_rs[ci]))
+        last_pos.append(0)
+        if cand.isPattern():
+            last_child = cand.getPattern().nodes[0]["children"][-1][0]
+            last_pos[-1] = len(Pblks_occs[ci][0]) - cand.getPattern().getNbOccs(last_child)
+        ds.append(Pblks_occs[ci][0][0] - Pblks_occs[ci - 1][0][last_pos[ci - 1]] if ci > 0 else 0)
 
         nodes, offset, nmap = cand.getTranslatedPNodes(offset)
         offset -= 1
         ch = nodes.pop(nmap[0])["children"]
         if ci > 0:
-            ch[0] = (ch[0][0], Pblks_occs[ci][0][0] - Pblks_occs[ci - 1][0][0])
+            ch[0] = (ch[0][0], ds[ci])
         tree[0]["children"].extend(ch)
         for c in ch:
             nodes[c[0]]["parent"] = 0
         tree.update(nodes)
 
-    ds = [c[1] for c in tree[0]["children"]]
     O = []
     E = []
     for ri in range(r0):
@@ -187,7 +193,7 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
                 if ri != 0:
                     E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei][ri - 1][0]) - p0)
             else:
-                E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei - 1][ri][0]) - ds[ei])
+                E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei - 1][ri][last_pos[ei - 1]]) - ds[ei])
             E.extend(Pblks_errs[ei][ri])
     p = Pattern(tree)
     return Candidate(-1, p, O, E)
-- 
2.43.0


From f42f5a1c02eb2556488d0885edd030bd64c370f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:33 +0000
Subject: [PATCH 36/73] fix: patterns whose vertices have three labels or more
 could not be mined

---
 skmine/graph/graphmdl/candidate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/candidate.py b/skmine/graph/graphmdl/candidate.py
index 83163b4..4dc083e 100644
--- a/skmine/graph/graphmdl/candidate.py
+++ b/skmine/graph/graphmdl/candidate.py
@@ -142,7 +142,7 @@ class Candidate:
         second_label
         Returns
         -------
-        list
+        str or tuple
         """
         if type(second_label) is str:
             if type(first_label) is str:
@@ -156,7 +156,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-                return label
+                return tuple(label)
         else:
             label = list(second_label)
             if type(first_label) is str:
@@ -166,7 +166,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-            return label
+            return tuple(label)
 
     def _is_ports_equals(self, ports):
         """ Check if the candidate ports list are similar to a given ports list
-- 
2.43.0


From 09d666963b250a842e42471447e2b4471baaaee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:39 +0000
Subject: [PATCH 37/73] fix: GraphMDL.fit crashed or never ended once every
 candidate had been tested

---
 skmine/graph/graphmdl/graph_mdl.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 70a4d3b..f736208 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -133,26 +133,22 @@ class GraphMDL(BaseMiner):
                         if temp_code_length < self._description_length:
                             self._rewritten_graph = self._code_table.rewritten_graph()
                             self._description_length = temp_code_length
-                            utils.MyLogger.info("New DL ", self._description_length)
+                            utils.MyLogger.info(f"New DL {self._description_length}")
                             utils.MyLogger.info(f"new pattern added: {utils.display_graph(row.pattern())}")
                             utils.MyLogger.info(f"search time = {time.time() - b}")
                             self._compute_pruning_candidates()
                             self._pruning()
                             break
-                        elif temp_code_length > self._description_length and candidates.index(candidate) == len(
-                                candidates) - 1:
-                            utils.MyLogger.info("None best code table found")
-                            utils.MyLogger.info(f"search time = {time.time() - b}")
-                            self._code_table.remove_row(row)
-                            stop = self._graph_mdl_end()
-                            if self._timeout is not None:
-                                current = self._timeout
-                            break
                         else:
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
-                        utils.MyLogger().debug("Already test")
+                        utils.MyLogger.debug("Already test")
+                else:
+                    # no candidate improves the code table
+                    utils.MyLogger.info("None best code table found")
+                    utils.MyLogger.info(f"search time = {time.time() - b}")
+                    stop = self._graph_mdl_end()
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From e0cd06482b81f7a79230c09ac45ce849bc0bbc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:44 +0000
Subject: [PATCH 38/73] fix: GraphMDL pruning must not reuse rows that are no
 longer in the code table

---
 skmine/graph/graphmdl/graph_mdl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index f736208..c4d5198 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -221,7 +221,7 @@ class GraphMDL(BaseMiner):
         """
         for r in self._code_table.rows():
             if r.pattern() in self._old_usage.keys():
-                if r.pattern_usage() < self._old_usage[r.pattern()]:
+                if r.pattern_usage() < self._old_usage[r.pattern()] and r not in self._pruning_rows:
                     self._pruning_rows.append(r)
 
     def _pruning(self):
@@ -234,18 +234,20 @@ class GraphMDL(BaseMiner):
         utils.MyLogger.info(f"Pruning start ....")
         self._compute_old_usage()  # compute old pattern usage
         self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
-        for r in self._pruning_rows:
+        while self._pruning_rows:
+            r = self._pruning_rows.pop(0)
             self._code_table.remove_row(r)
             self._code_table.cover()
             if self._code_table.compute_total_description_length() < self._description_length:
                 self._rewritten_graph = self._code_table.rewritten_graph()
                 self._description_length = self._code_table.compute_total_description_length()
-                self._pruning_rows.remove(r)
                 self._compute_pruning_candidates()  # recompute the pruning candidates
-                self._pruning()
+                self._compute_old_usage()
+                self._pruning_rows.sort(key=_order_pruning_rows)
             else:
                 self._code_table.add_row(r)
 
+        self._code_table.cover()  # the last row tested may have been put back
         utils.MyLogger.info("Pruning end ....")
 
     def patterns(self):
-- 
2.43.0


From 692570ed08e161ecccccbf92b7328b0bcf8328e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:48 +0000
Subject: [PATCH 39/73] fix: a code table row put back after a pruning attempt
 must keep its rank

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ac22bdb..9e92867 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -51,7 +51,7 @@ class CodeTable:
         row
         """
         if row.arrival_number is None:
-            row.arrival_number = len(self._rows) + 1
+            row.arrival_number = max((r.arrival_number for r in self._rows), default=0) + 1
 
         self._rows.append(row)  # Add the new row at the end of the list
 
-- 
2.43.0


From dacb7aed948cc01120f0f9ac8d614b0950223808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:51 +0000
Subject: [PATCH 40/73] fix: GraphMDL.fit must not modify the graph it is given

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index c4d5198..95752b0 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -83,7 +83,7 @@ class GraphMDL(BaseMiner):
         if D is None:
             raise ValueError("You should give a graph")
         else:
-            self._data = D
+            self._data = D.copy()
             self._init_graph_mdl()
             self._anytime_graph_mdl_with_timeout()
             return self
-- 
2.43.0


From aacc51fd3449188a1463ee63d25155ef26832834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:55 +0000
Subject: [PATCH 41/73] fix: the time budget of a GraphMDL fit must not apply
 to the next one

---
 skmine/graph/graphmdl/graph_mdl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 95752b0..c5744a0 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -78,8 +78,7 @@ class GraphMDL(BaseMiner):
             -------
             GraphMDL
         """
-        if timeout is not None and timeout != 0:
-            self._timeout = timeout
+        self._timeout = timeout if timeout != 0 else None
         if D is None:
             raise ValueError("You should give a graph")
         else:
-- 
2.43.0


From 5165ca10b828681535b7bc5b3ded2850ea1cb776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:24 +0000
Subject: [PATCH 42/73] fix: the description of the rewritten graph must encode
 port usages, not port numbers

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 9e92867..7c2b865 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -174,7 +174,7 @@ class CodeTable:
                  if 'is_Pattern' not in node[1]])
 
             # edges labels
-            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().keys()])
+            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().values()])
                            for row in self._rows if row.pattern_usage() != 0]
             # the code for vertex pattern is zero
             edges_label.extend([utils.prequential_code([v, v]) for v in self._edge_singleton_usage.values()])
-- 
2.43.0


From 7b10f8e1951cc7c2d8acbc3ec3c9cee7a25248b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:29 +0000
Subject: [PATCH 43/73] fix: occurrences of a label used both for vertices and
 for edges must all be counted

---
 skmine/graph/graphmdl/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 2f5b8fc..0002abd 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -107,11 +107,10 @@ def get_total_label(graph: Graph):
          float
     """
 
-    labels = count_edge_label(graph)
-    labels.update(count_vertex_label(graph))
     total = 0.0  # The total number of labels in the graph
-    for i in labels.values():
-        total = total + i
+    for labels in (count_edge_label(graph), count_vertex_label(graph)):
+        for i in labels.values():
+            total = total + i
 
     return total
 
-- 
2.43.0


From 2544ce31d6dd0285fb881731ee75d2a530dae94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:32 +0000
Subject: [PATCH 44/73] fix: a pattern node of the rewritten graph must not be
 taken for a port of the same name

---
 skmine/graph/graphmdl/code_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 7c2b865..dfd11d1 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -742,8 +742,9 @@ class CodeTable:
         rewritten_node
         data_node : the port node in the initial data graph
         """
-        if str(data_node) in dict(rewritten_graph.nodes(data='label')).values():
-            port_node = utils.get_key_from_value(dict(rewritten_graph.nodes(data='label')), str(data_node))
+        ports = {node: d['label'] for node, d in rewritten_graph.nodes(data=True) if 'is_Pattern' not in d}
+        if str(data_node) in ports.values():
+            port_node = utils.get_key_from_value(ports, str(data_node))
             rewritten_graph.add_edge(rewritten_node, port_node, label=f"v{kwargs['pattern_port']}")
         else:
             last = len(rewritten_graph.nodes())
-- 
2.43.0


From 0561cd8d7527c7b0080af9bf1282904857713546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 45/73] fix: used embeddings of a code table row must be those
 of its last cover

---
 skmine/graph/graphmdl/code_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index dfd11d1..e80f478 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -763,6 +763,7 @@ class CodeTable:
         """
         cover_usage = 0
         port_usage = dict()
+        row.used_embeddings().clear()
         if not utils.is_without_edge(row.pattern()):
             for embedding in row.embeddings():
                 if not self.is_embedding_marked(embedding, row.pattern(), graph, cover_marker):
-- 
2.43.0


From 97d60f22b09a55ebfabb801d06435dfe6eb86115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:10 +0000
Subject: [PATCH 46/73] fix: embeddings in a multigraph must match every
 parallel edge, whatever its key

---
 skmine/graph/graphmdl/code_table.py | 13 +++++++------
 skmine/graph/graphmdl/utils.py      |  8 +++-----
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index e80f478..6f8660f 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -445,12 +445,12 @@ class CodeTable:
                                   for v in graph.get_edge_data(start, end).values()]):
                     edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
                     if edge_index is not None:
-                        edge = graph[start][end][edge_index]
+                        edge = list(graph[start][end].values())[edge_index]
                         return 'cover_mark' in edge and label in edge['cover_mark'] and edge['cover_mark'][
                             label] == cover_marker
                     else:
-                        return ValueError(f"{start} and {end} should be a graph node and {start}-{end} a graph edge."
-                                          f"Also the edge should have {label}  as label")
+                        raise ValueError(f"{start} and {end} should be a graph node and {start}-{end} a graph edge."
+                                         f"Also the edge should have {label}  as label")
                 else:
                     raise ValueError(f"{start} and {end} should be a graph node and {start}-{end} a graph edge."
                                      f"Also the edge should have a label ")
@@ -478,10 +478,11 @@ class CodeTable:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
                     edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
-                    if 'cover_mark' in graph[start][end][edge_index]:
-                        graph[start][end][edge_index]['cover_mark'][label] = cover_marker
+                    edge = list(graph[start][end].values())[edge_index]
+                    if 'cover_mark' in edge:
+                        edge['cover_mark'][label] = cover_marker
                     else:
-                        graph[start][end][edge_index]['cover_mark'] = {label: cover_marker}
+                        edge['cover_mark'] = {label: cover_marker}
                 else:
                     raise ValueError("label shouldn't be empty or none and must be an edge label ")
 
diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 0002abd..2be893f 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -334,11 +334,9 @@ def _edge_match_for_multigraph(edge1, edge2):
     -------
     bool
     """
-    edge1_values = dict(edge1).values()
-    edge2_values = dict(edge2).values()
-    edge1_labels = [list(edge1_values)[0][i] for i in list(edge1_values)[0].keys() if i == 'label']
-    edge2_labels = [list(edge2_values)[0][i] for i in list(edge2_values)[0].keys() if i == 'label']
-    if len(edge2_labels) != 0 and len(edge1_labels) != 0:
+    edge1_labels = [data.get('label') for data in dict(edge1).values()]
+    edge2_labels = [data.get('label') for data in dict(edge2).values()]
+    if None not in edge2_labels and None not in edge1_labels:
         return not (False in [label in edge1_labels for label in edge2_labels])
     else:
         raise ValueError("All edges must have labels")
-- 
2.43.0


From 3b60a8d16fdd6687f9b64820c72a07e025a6b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:16 +0000
Subject: [PATCH 47/73] fix: GraphMDL.discover failed when patterns had been
 found, and singletons had no usage

---
 skmine/graph/graphmdl/code_table.py     | 8 +++++---
 skmine/graph/graphmdl/code_table_row.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 6f8660f..f6e09da 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -324,8 +324,9 @@ class CodeTable:
         """
         data = [row.display_row() for row in self._rows if row.pattern_usage() != 0]
         for u, v in self._singleton_code_length.items():
-            data.append([u, v, '', '', '', ''])
-        return pandas.DataFrame(numpy.array(data),
+            data.append([u, self._vertex_singleton_usage.get(u, 0) + self._edge_singleton_usage.get(u, 0), v,
+                         '', '', ''])
+        return pandas.DataFrame(numpy.array(data, dtype=object),
                                 columns=['Pattern Structure', 'Pattern usage', 'Pattern code length',
                                          'Port count', 'Pattern port usage',
                                          'Pattern port code length'])
@@ -863,6 +864,7 @@ class CodeTable:
             msg += str(row) + "\n"
 
         for u, v in self._singleton_code_length.items():
-            msg += "{}|{}|{}".format(u, v, self._singleton_code_length[u]) + "\n"
+            usage = self._vertex_singleton_usage.get(u, 0) + self._edge_singleton_usage.get(u, 0)
+            msg += "{}|{}|{}".format(u, usage, v) + "\n"
 
         return msg
diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index bedf673..b1277d1 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -176,7 +176,7 @@ class CodeTableRow:
         -------
         list
         """
-        return [utils.draw_pattern(self._pattern), self._pattern_usage, self._code_length,
+        return [utils.display_graph(self._pattern), self._pattern_usage, self._code_length,
                 len(self._pattern_port_usage),
                 self._pattern_port_usage, self._port_code_length]
 
-- 
2.43.0


From 99894527f2803313fc509c1787ee97c2046ad07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:42 +0000
Subject: [PATCH 48/73] fix: GraphMDL.patterns must give the pattern that
 describes the whole graph

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index c5744a0..09e554f 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -260,7 +260,7 @@ class GraphMDL(BaseMiner):
         self._patterns = set()
         if self._code_table is not None:
             for r in self._code_table.rows():
-                if r.code_length() != 0:
+                if r.pattern_usage() != 0:
                     self._patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
-- 
2.43.0


From c4c82b6e5c0e77f8994941ccde8599f6588ed06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:38 +0000
Subject: [PATCH 49/73] fix: a vertex described by another embedding must be a
 port of the rewritten graph

---
 skmine/graph/graphmdl/code_table.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index f6e09da..b151e24 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -602,7 +602,7 @@ class CodeTable:
         else:
             raise ValueError(f"{node_number} should be a graph node")
 
-    def search_port(self, graph, embedding, cover_marker, pattern, port_usage):
+    def search_port(self, graph, embedding, cover_marker, pattern, port_usage, shared=()):
         """ Search all node who are port for data or for pattern
         Parameters
         ----------
@@ -611,6 +611,7 @@ class CodeTable:
         cover_marker
         port_usage
         pattern
+        shared : the graph nodes a label of which is already described by another embedding
         Returns
         -------
         list
@@ -622,7 +623,8 @@ class CodeTable:
         i = 0
         while i <= len(keys) - 1:
             if not self.is_node_edges_marked(graph, keys[i], pattern, values[i]) \
-                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker):
+                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker) \
+                    or keys[i] in shared:
                 res.append((keys[i], values[i]))
                 if 'port' not in graph.nodes[keys[i]]:  # if the node is not already marked as port
                     graph.nodes[keys[i]]['port'] = True  # mark it
@@ -769,8 +771,10 @@ class CodeTable:
         if not utils.is_without_edge(row.pattern()):
             for embedding in row.embeddings():
                 if not self.is_embedding_marked(embedding, row.pattern(), graph, cover_marker):
+                    shared = [node for node in embedding
+                              if cover_marker in graph.nodes[node].get('cover_mark', dict()).values()]
                     self.mark_embedding(embedding, graph, row.pattern(), cover_marker)
-                    ports = self.search_port(graph, embedding, cover_marker, row.pattern(), port_usage)
+                    ports = self.search_port(graph, embedding, cover_marker, row.pattern(), port_usage, shared)
                     row.add_used_embeddings((embedding, ports))
                     cover_usage = cover_usage + 1
                     # create the pattern in the rewritten graph
-- 
2.43.0


From b00c2b2bd73ae6d14944e112b3c345e9fcb23e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:55 +0000
Subject: [PATCH 50/73] fix: callbacks must run once, with the result of the
 method they follow

---
 skmine/callbacks.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index baa9254..06da0fb 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -2,7 +2,7 @@
 Callback API for scikit-mine
 """
 import re
-from inspect import signature, getsource
+from inspect import signature, getsource, Parameter
 
 
 def has_self_assigment(f):
@@ -30,23 +30,38 @@ def _get_params(fn):
     return params
 
 
+def _arity(fn, least):
+    """number of arguments a callback asks for (optional ones only up to ``least``), and whether it accepts any number"""
+    try:
+        params = signature(fn).parameters.values()
+    except ValueError:
+        return least, False
+    positional = [p for p in params if p.kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD)]
+    required = [p for p in positional if p.default is Parameter.empty]
+    var = any(p.kind is Parameter.VAR_POSITIONAL for p in params)
+    return max(len(required) + var, min(len(positional), least)), var
+
+
 def post(self, func_name, callback):
     """decorator, call callback on returned values, after main function"""
     func = getattr(self, func_name)
     assert callable(func)
     callback_params = _get_params(callback)
+    n_params, var_params = _arity(callback, 2 if "self" in callback_params else 1)
 
     def _(*args, **kwargs):
         res = func(*args, **kwargs)
         if "self" in callback_params:
-            _w = (res,) if len(callback_params) == 2 else res
-            args_ = (self,) + (_w if len(callback_params) > 1 else tuple())
+            _w = (res,) if n_params == 2 else res
+            args_ = (self,) + (tuple(_w) if n_params > 1 else tuple())
+        elif n_params == 1 and not var_params:
+            args_ = (res,)  # list.extend
         else:
-            args_ = res
-        try:
-            callback(*args_)
-        except TypeError:
-            callback(args_)  # list.extend
+            try:
+                args_ = tuple(res)
+            except TypeError:
+                args_ = (res,)
+        callback(*args_)
         return res
 
     return _
-- 
2.43.0


From 154260e673dbceaa32b6eca004e25764996251e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:00 +0000
Subject: [PATCH 51/73] fix: callbacks whose source is not available were
 rejected, and some that modify self accepted

---
 skmine/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index 06da0fb..329976a 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -14,9 +14,9 @@ def has_self_assigment(f):
     check if no assignment is made on the ``self`` keyword
     """
     try:
-        p = r"self(\.\w+)?\s*=.*"
+        p = r"\bself(\.\w+)*\s*([-+*/%&|^@]|//|\*\*|<<|>>)?=(?!=)"
         return any(re.finditer(p, getsource(f)))
-    except TypeError:
+    except (TypeError, OSError):
         return False
 
 
-- 
2.43.0


From 1f99ee1e51334b7071644dc55c50f510ea2dc0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:06 +0000
Subject: [PATCH 52/73] fix: collections of callbacks could still be changed

---
 skmine/callbacks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index 329976a..cf31648 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -111,7 +111,13 @@ class CallBacks(dict):
         raise NotImplementedError(f"{type(self)} is immutable")
 
     __setitem__ = _frozen
+    __delitem__ = _frozen
+    __ior__ = _frozen
     update = _frozen
+    setdefault = _frozen
+    pop = _frozen
+    popitem = _frozen
+    clear = _frozen
 
     def __call__(self, miner):
         # print("dir(miner)", dir(miner))
-- 
2.43.0


From 68d064c6c51767cce38138cc63e45c6814854e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:07 +0000
Subject: [PATCH 53/73] fix: checking data left pandas options changed

---
 skmine/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index a0059cc..74aabff 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -114,10 +114,9 @@ def _check_D_sklearn(D):
     if D.shape[1] == 0:  # SKLEARN : check_empty_data_messages
         raise ValueError("Empty data")
 
-    pd.options.mode.use_inf_as_na = True
-    if D.isnull().values.any():
-        raise ValueError("esimator does not check for NaN and inf")
-    pd.options.mode.use_inf_as_na = False
+    with pd.option_context("mode.use_inf_as_na", True):
+        if D.isnull().values.any():
+            raise ValueError("esimator does not check for NaN and inf")
 
 
 def _check_D(D):
-- 
2.43.0


From a425717daf39e0a57167b2a21800facb27359ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:13 +0000
Subject: [PATCH 54/73] fix: some parameters of SLIMVectorizer were not
 returned, could not be set and were lost when cloned

---
 skmine/feature_extraction/slim_vectorizer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index e622ef4..c11d6c1 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -70,10 +70,9 @@ class SLIMVectorizer(SLIM):
     patterns should output matrices with very few zeros.
     """
 
-    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, **kwargs):
-        super().__init__(**kwargs)
+    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, max_time=-1, items=None):
+        super().__init__(pruning=pruning, max_time=max_time, items=items)
         self.k = k
-        self.pruning = pruning
         self.stop_items = stop_items
         if strategy not in STRATEGIES:
             raise ValueError(f"strategy must be one of {STRATEGIES}")
-- 
2.43.0


From b842ad34c122af838bae9335ba8b407f7010bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:17 +0000
Subject: [PATCH 55/73] fix: patterns of the previous log were drawn after a
 new fit

---
 skmine/periodic/cycles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index a064e03..a9eecaa 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -157,6 +157,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         self.data_details_ = data_details
         self.miners_ = pc
+        self.cycles = None
         # self.cl, self.clRonly, self.clR, self.nb_simple, self.nbR, self.nbC = self.miners_.strDetailed(
         #     self.data_details_)
         return self
@@ -293,6 +294,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         patterns_collection = PatternCollection(patterns=patterns_list)
         self.miners_ = patterns_collection
+        self.cycles = None
 
     def reconstruct(self, *patterns_id, sort="time", drop_duplicates=None):
         """Reconstruct all the occurrences from patterns (no argument), or the
-- 
2.43.0


From 6cb718c3fae40d7b6ffc16862fb171f61e0c04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:41 +0000
Subject: [PATCH 56/73] fix: make_classification gave fewer samples than asked
 for, in another order at each call

---
 skmine/datasets/_samples_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 51177f6..a899bb8 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -150,9 +150,10 @@ def make_classification(
 
     res = dict()
 
+    bounds = np.round(np.cumsum([0, *weights]) / np.sum(weights) * n_samples).astype(int)
     padding = 0
     for _class in range(n_classes):
-        _n_samples = int(weights[_class] * n_samples)
+        _n_samples = bounds[_class + 1] - bounds[_class]
         density = densities[_class]
         transactions = make_transactions(
             n_transactions=_n_samples,
@@ -175,6 +176,6 @@ def make_classification(
     df = pd.concat(dfs, axis=0)
 
     if shuffle:
-        df = df.sample(frac=1)
+        df = df.sample(frac=1, random_state=random_state)
 
     return df["transaction"], df["class"]
-- 
2.43.0


From 31be5915f10990440397f46c98ea25b49da96dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:46 +0000
Subject: [PATCH 57/73] fix: transactions could not be generated from a
 RandomState, nor none of them

---
 skmine/datasets/_samples_generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index a899bb8..1d4ae25 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -6,6 +6,8 @@ Mainly for benchmarks and experiments
 import numpy as np
 import pandas as pd
 
+from skmine.utils import _check_random_state
+
 
 def make_transactions(
     n_transactions=1000, n_items=100, density=0.5, random_state=None, item_start=0
@@ -63,7 +65,7 @@ def make_transactions(
 
     avg_transaction_size = density * n_items
 
-    generator = np.random.RandomState(random_state)  # pylint: disable= no-member
+    generator = _check_random_state(random_state)
 
     item_stop = item_start + n_items
     choices = np.arange(start=item_start, stop=item_stop)
@@ -72,13 +74,13 @@ def make_transactions(
         p=0.5,  # centered around avg_transaction_size
         size=n_transactions,
     )
-    max_size = t_sizes.max()
+    max_size = t_sizes.max(initial=0)
     if max_size > n_items:
         delta = max_size - n_items
         t_sizes = np.clip(t_sizes, a_min=t_sizes.min() + delta, a_max=n_items)
 
     D = [generator.choice(choices, size, replace=False) for size in t_sizes]
-    return pd.Series(D)
+    return pd.Series(D, dtype=object)
 
 
 def make_classification(
-- 
2.43.0


From 7a5b785fc22618d7e272dc7cd26d5565e19f0078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:52 +0000
Subject: [PATCH 58/73] fix: events named like missing values were lost when
 reading logs

---
 skmine/datasets/periodic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 52ccf74..9d9812b 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -38,7 +38,8 @@ def fetch_file(filepath, separator=',', format=None):
         Logs from the custom dataset, as an in-memory pandas Series.
         Events are indexed by timestamps.
     """
-    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True).squeeze(axis="columns")
+    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True,
+                    keep_default_na=False).squeeze(axis="columns")
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
         try:
-- 
2.43.0


From f3f5f4f783c6a7c38949d6fa4219ebcb7424f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:57 +0000
Subject: [PATCH 59/73] fix: integer timestamps that look like years or days
 were read as dates

---
 skmine/datasets/periodic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 9d9812b..e587edd 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -43,9 +43,9 @@ def fetch_file(filepath, separator=',', format=None):
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
         try:
-            s.index = pd.to_datetime(s.index, format=format)
+            s.index = s.index.astype("int64") if format is None else pd.to_datetime(s.index, format=format)
         except ValueError:
-            s.index = s.index.astype("int64")
+            s.index = pd.to_datetime(s.index) if format is None else s.index.astype("int64")
     s.index.name = "timestamp"
     s.name = filepath
     return s
-- 
2.43.0


From 91f1d7ee246e0e21dc5ccba1d4f4644ccf22fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:02 +0000
Subject: [PATCH 60/73] fix: times of UbiqLog events were written in minutes
 and read in seconds

---
 skmine/datasets/periodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index e587edd..297ba0c 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -315,7 +315,7 @@ def parse_all_user(infile: str, out_dir: str, min_occ=10) -> None:  # pragma : n
             evs_tmp = [d for d in dt["ev"] if dt["counts"].get(d[1], 0) > min_occ]
             if len(evs_tmp) > min_occ:
                 evs_tmp = sorted(evs_tmp)
-                evs = sorted([(int((d[0] - evs_tmp[0][0]).total_seconds() / 60), d[-1]) for d in evs_tmp])
+                evs = sorted([(int((d[0] - evs_tmp[0][0]).total_seconds()), d[-1]) for d in evs_tmp])
                 with open("%s/%s_ISE_data.dat" % (out_dir, user), "w") as fo:
                     fo.write("### user=%s\tstart_time=%s\n" % (user, evs_tmp[0][0]))
                     prev = None
-- 
2.43.0


From cb53ebc8dce65700440cc3e685298cd43b2c9c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:23 +0000
Subject: [PATCH 61/73] fix: a class without samples could not be generated

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 1d4ae25..721b2ac 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -172,7 +172,7 @@ def make_classification(
     dfs = list()
     for _class, transactions in res.items():
         df = transactions.to_frame(name="transaction")
-        df.loc[:, "class"] = _class
+        df["class"] = _class
         dfs.append(df)
 
     df = pd.concat(dfs, axis=0)
-- 
2.43.0


From 837401abb04e3d0b2b9cf6f123f0f755e56f0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:47 +0000
Subject: [PATCH 62/73] fix: logs indexed by dates could not be described

---
 skmine/datasets/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/datasets/utils.py b/skmine/datasets/utils.py
index 628609f..7aeab96 100644
--- a/skmine/datasets/utils.py
+++ b/skmine/datasets/utils.py
@@ -66,11 +66,11 @@ def describe_logs(D):
     'avg_nb_points_per_event': 100.0}
     """
     gb = D.groupby(D.values)
-    a = gb.apply(lambda df: (df.index.max() - df.index.min(), len(df)))
-    avg_nb_points = a.str[1].mean()
+    deltas = gb.apply(lambda df: df.index.max() - df.index.min())
+    avg_nb_points = gb.size().mean()
 
     return dict(
         n_events=len(gb),
-        avg_delta_per_event=a.str[0].mean(),
+        avg_delta_per_event=deltas.mean(),
         avg_nb_points_per_event=avg_nb_points,
     )
-- 
2.43.0


From b161ef8aec0af311cca098ddd8c2f4f46414c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:32 +0000
Subject: [PATCH 63/73] fix: MDLP acceptance threshold overflows from 40 labels
 on

pow(3, k) was computed in int64, so log2(3**k - 2) was nan or too small and
no (or the wrong) cut point was accepted for a label vector with many classes.
---
 skmine/preprocessing/mdlp_discretizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 5f733da..22796ad 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -6,6 +6,8 @@ Multi-Interval Discretization of Continuous-Valued Attributes for Classification
 #
 # License: BSD 3 clause
 
+import math
+
 import numpy as np
 import pandas as pd
 from joblib import Parallel, delayed
@@ -87,7 +89,7 @@ class MDLPVectDiscretizer(MDLOptimizer):
         N = end - start
 
         part1 = 1 / N * ((cut_point - start) * entropy1 + (end - cut_point) * entropy2)
-        delta = np.log2(pow(3, k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
+        delta = math.log2(pow(3, int(k0)) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
 
         gain = whole_entropy - part1
 
-- 
2.43.0


From 1fb3155b53f7b5f0d285e822fdc454379aa8b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:34 +0000
Subject: [PATCH 64/73] fix: writing itemsets to a file deleted a folder named
 TEMP_dir of the working directory

The branches are written to a temporary directory of their own, so an existing
TEMP_dir is left alone, nothing stays behind when writing fails and miners
writing at the same time in one directory do not disturb each other.
---
 skmine/itemsets/lcm.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 31a1a31..4f0f7e1 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -13,7 +13,7 @@ as described in `http://lig-membres.imag.fr/termier/HLCM/hlcm.pdf`
 
 import math
 import os
-import shutil
+import tempfile
 from collections import defaultdict
 from itertools import takewhile
 
@@ -168,7 +168,7 @@ class LCM(TransformerMixin, BaseEstimator):
         out : str, default=None
             File where results are written. Discover return None. The 'out' option is usefull 
             to save memory : Instead of store all branch of lcm-tree in memory , each root 
-            branch of lcm is written in a separated file in dir (TEMP_dir), and all files are
+            branch of lcm is written in a separated file in a temporary dir, and all files are
             concatenated in the final 'out' file.
 
         Returns
@@ -222,24 +222,19 @@ class LCM(TransformerMixin, BaseEstimator):
             return df
 
         else:  # store results in files
-            temp_dir = 'TEMP_dir'  # temporary dir where root items branch files are written
-            if os.path.exists(temp_dir):  # remove dir TEMP_dir if it exists
-                shutil.rmtree(temp_dir)
-            os.mkdir(temp_dir)  # create dir TEMP_dir
-
-            Parallel(n_jobs=self.n_jobs, prefer="processes")(
-                delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
-                for k, (item, tids) in enumerate(list(self.item_to_tids_.items())))
-
-            with open(self.out_,
-                      'w') as outfile:  # concatenate all itemsroot files located in temp_dir in a single file
-                for fname in [f"{temp_dir}/root{k}.dat" for k in
-                              range(len(list(self.item_to_tids_.items())))]:  # all items root files
-                    with open(fname) as infile:
-                        for line in infile:
-                            if line.strip():  # to skip empty lines
-                                outfile.write(line)
-            shutil.rmtree(temp_dir)  # remove the temporary dir where root files are written
+            with tempfile.TemporaryDirectory() as temp_dir:  # dir where root items branch files are written
+                Parallel(n_jobs=self.n_jobs, prefer="processes")(
+                    delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
+                    for k, (item, tids) in enumerate(list(self.item_to_tids_.items())))
+
+                with open(self.out_,
+                          'w') as outfile:  # concatenate all itemsroot files located in temp_dir in a single file
+                    for fname in [f"{temp_dir}/root{k}.dat" for k in
+                                  range(len(list(self.item_to_tids_.items())))]:  # all items root files
+                        with open(fname) as infile:
+                            for line in infile:
+                                if line.strip():  # to skip empty lines
+                                    outfile.write(line)
 
             return None
 
-- 
2.43.0


From 69ba47e6cad673eb1ac6040a3d40320f2a506faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 65/73] fix: SlimClassifier.predict gave the first class to
 long transactions

The decision function exp(-0.2 * code length) is 0 in single precision for every
class from about 520 bits on. Compare the code lengths themselves.
---
 skmine/itemsets/slim_classifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 2903443..a0499c0 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -89,7 +89,8 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
             Class labels for samples in X
         """
         check_is_fitted(self, "classes_")
-        self.models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
+        # the shortest code wins. ``decision_function`` is not used as it is 0 for all classes when codes are long
+        self.models_scores = -np.vstack([model.get_code_length(X).values for model in self.models_]).T
 
         return self.classes_[self.models_scores.argmax(axis=1)]
 
-- 
2.43.0


From 811bb211082dbe97bb8dec2bbde12e542c43bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:37 +0000
Subject: [PATCH 66/73] fix: vertices named alike (1 and "1") shared one port
 of the rewritten graph

---
 skmine/graph/graphmdl/code_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index b151e24..fca0f21 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -746,13 +746,14 @@ class CodeTable:
         rewritten_node
         data_node : the port node in the initial data graph
         """
-        ports = {node: d['label'] for node, d in rewritten_graph.nodes(data=True) if 'is_Pattern' not in d}
+        ports = {node: d['label'] for node, d in rewritten_graph.nodes(data=True)
+                 if 'is_Pattern' not in d and d.get('data_node', data_node) == data_node}
         if str(data_node) in ports.values():
             port_node = utils.get_key_from_value(ports, str(data_node))
             rewritten_graph.add_edge(rewritten_node, port_node, label=f"v{kwargs['pattern_port']}")
         else:
             last = len(rewritten_graph.nodes())
-            rewritten_graph.add_node(last + 1, label=f"{data_node}")
+            rewritten_graph.add_node(last + 1, label=f"{data_node}", data_node=data_node)
             rewritten_graph.add_edge(rewritten_node, last + 1, label=f"v{kwargs['pattern_port']}")
 
     def row_cover(self, row: CodeTableRow, graph, cover_marker, rewritten_graph, row_number):
-- 
2.43.0


From d889fd0b19c1b7d08c0c8f7f2f6a569d62ab01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:51 +0000
Subject: [PATCH 67/73] fix: a copy of a SLIM lost max_time

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 6bcdd06..234a784 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -782,4 +782,4 @@ class SLIM(BaseEstimator, TransformerMixin):
         return CTc, data_size, model_size
 
     def __copy__(self):
-        return SLIM(items=self.items, pruning=self.pruning)
+        return SLIM(items=self.items, pruning=self.pruning, max_time=self.max_time)
-- 
2.43.0


From 4dac9835c9c07ee0a6b190455d81294a921e6deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:55 +0000
Subject: [PATCH 68/73] fix: the cover order of SLIM was not lexicographic but
 depended on string hashes

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 234a784..d0fc4c9 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -609,7 +609,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         so that many itemsets can be sorted in Standard Cover Order :
         |X|↓ supp_D(X) ↓ lexicographically ↑
         """
-        return -len(itemset), -len(self.get_support(*itemset)), tuple(itemset)
+        return -len(itemset), -len(self.get_support(*itemset)), tuple(sorted(itemset))
 
     def prefit(self, D, y=None):  # -> self
         """
-- 
2.43.0


From 2e08183913056722d5457a084debc756aa430115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:06 +0000
Subject: [PATCH 69/73] fix: a fitted SLIM could be neither pickled nor deeply
 copied

---
 skmine/itemsets/slim.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index d0fc4c9..2e3ccf9 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -783,3 +783,17 @@ class SLIM(BaseEstimator, TransformerMixin):
 
     def __copy__(self):
         return SLIM(items=self.items, pruning=self.pruning, max_time=self.max_time)
+
+    def __getstate__(self):
+        # the order of the codetable is a method of self: the codetable is rebuilt once the rest of self is
+        state = dict(super().__getstate__())
+        if "codetable_" in state:
+            state["codetable_"] = list(state["codetable_"].items())
+        return state
+
+    def __setstate__(self, state):
+        state = dict(state)
+        codetable = state.pop("codetable_", None)
+        super().__setstate__(state)
+        if codetable is not None:
+            self.codetable_ = SortedDict(self._standard_cover_order, codetable)
-- 
2.43.0


From 0b688643fca31fbd57e1cebc2da4f5ec24efb438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:10 +0000
Subject: [PATCH 70/73] fix: a copy of a SLIMVectorizer was a SLIM

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 2e3ccf9..b2ce566 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -782,7 +782,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         return CTc, data_size, model_size
 
     def __copy__(self):
-        return SLIM(items=self.items, pruning=self.pruning, max_time=self.max_time)
+        return self.__class__(**self.get_params(deep=False))
 
     def __getstate__(self):
         # the order of the codetable is a method of self: the codetable is rebuilt once the rest of self is
-- 
2.43.0


From cce0d9bc37b01c1b2b8527fc2d06a1bf936ef149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:14 +0000
Subject: [PATCH 71/73] fix: a fitted GraphMDL could not be pickled

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index fca0f21..db34cdd 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -816,7 +816,7 @@ class CodeTable:
         """
         edge_singleton_usage = defaultdict(int)
         vertex_singleton_usage = defaultdict(int)
-        singleton_used_embeddings = defaultdict(lambda: [])
+        singleton_used_embeddings = defaultdict(list)
         # for edge label
         for edge in graph.edges(data=True):
             if not self.is_edge_marked(edge[0], edge[1], graph, cover_marker, edge[2]['label']):
-- 
2.43.0


From 0229093416a0a3dd5bda3965d8b888e14c794429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:40 +0000
Subject: [PATCH 72/73] fix: CodeTable.data_port listed the ports of all
 previous covers

---
 skmine/graph/graphmdl/code_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index db34cdd..ce3e7b6 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -94,6 +94,8 @@ class CodeTable:
         cover_marker = self._data_graph.graph['cover_marker']  # the current cover marker
 
         self._rewritten_graph = nx.DiGraph()  # reset the rewritten graph before each cover
+        for _, node in self._data_graph.nodes(data=True):
+            node.pop('port', None)  # and the ports
 
         for row in self._rows:
             self.row_cover(row, self._data_graph, cover_marker, self._rewritten_graph, self.rows().index(row))
-- 
2.43.0


From 0ab3941dbaa906156e190673ed3e0c9c3c848a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:44 +0000
Subject: [PATCH 73/73] fix: a label of vertices and edges had one singleton in
 the table displayed and in the patterns

---
 skmine/graph/graphmdl/code_table.py | 22 ++++++++++++++++------
 skmine/graph/graphmdl/graph_mdl.py  |  2 ++
 skmine/graph/graphmdl/utils.py      |  5 +++--
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ce3e7b6..b296739 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -310,6 +310,18 @@ class CodeTable:
 
         return desc
 
+    def _singleton_rows(self):
+        """ Provide the label, usage and code length of each singleton.
+        A label of vertices and edges is that of two singletons
+        Returns
+        --------
+        list
+        """
+        usage_sum = self._compute_usage_sum()
+        return [(label, usage, utils.log2(usage, usage_sum) + 0.0)
+                for usages in (self._vertex_singleton_usage, self._edge_singleton_usage)
+                for label, usage in usages.items()]
+
     def singleton_code_length(self):
         """ Provide the current singleton pattern code length
         Returns
@@ -325,9 +337,8 @@ class CodeTable:
         object
         """
         data = [row.display_row() for row in self._rows if row.pattern_usage() != 0]
-        for u, v in self._singleton_code_length.items():
-            data.append([u, self._vertex_singleton_usage.get(u, 0) + self._edge_singleton_usage.get(u, 0), v,
-                         '', '', ''])
+        for u, usage, code in self._singleton_rows():
+            data.append([u, usage, code, '', '', ''])
         return pandas.DataFrame(numpy.array(data, dtype=object),
                                 columns=['Pattern Structure', 'Pattern usage', 'Pattern code length',
                                          'Port count', 'Pattern port usage',
@@ -870,8 +881,7 @@ class CodeTable:
         for row in self._rows:
             msg += str(row) + "\n"
 
-        for u, v in self._singleton_code_length.items():
-            usage = self._vertex_singleton_usage.get(u, 0) + self._edge_singleton_usage.get(u, 0)
-            msg += "{}|{}|{}".format(u, usage, v) + "\n"
+        for u, usage, code in self._singleton_rows():
+            msg += "{}|{}|{}".format(u, usage, code) + "\n"
 
         return msg
diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 09e554f..00584a0 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -265,6 +265,8 @@ class GraphMDL(BaseMiner):
 
             for s in self._code_table.singleton_code_length().keys():
                 self._patterns.add(utils.create_singleton_pattern(s, self._code_table))
+                if self._code_table.is_ct_edge_singleton(s) and self._code_table.is_ct_vertex_singleton(s):
+                    self._patterns.add(utils.create_singleton_pattern(s, self._code_table, vertex=True))
 
             return self._patterns
 
diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 2be893f..30f0ff8 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -976,12 +976,13 @@ def generate_candidates(rewritten_graph, code_table):
     return candidates
 
 
-def create_singleton_pattern(label, code_table):
+def create_singleton_pattern(label, code_table, vertex=False):
     """ Create a graph who represent a singleton
     Parameters
     ----------
     label
     code_table
+    vertex : True for the vertex singleton of a label which is a vertex and an edge label
     Returns
     -------
     Graph
@@ -991,7 +992,7 @@ def create_singleton_pattern(label, code_table):
     else:
         pattern = nx.DiGraph()
 
-    if code_table.is_ct_edge_singleton(label):
+    if code_table.is_ct_edge_singleton(label) and not vertex:
         pattern.add_nodes_from(range(1, 3))
         pattern.add_edge(1, 2, label=label)
     elif code_table.is_ct_vertex_singleton(label):
-- 
2.43.0

