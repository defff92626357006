From 7c294b2f777de7b4dede06a57a55fbd05e1b959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 01/83] fix: LCMMax.transform with max_length no longer fails
 when nothing is frequent

---
 skmine/itemsets/lcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index ef198f7..94c391d 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -365,7 +365,7 @@ class LCMMax(LCM, TransformerMixin):
 
         # keeps only itemsets smaller than max_length
         if self.max_length_ != -1:
-            length_mask = patterns.itemset.apply(lambda x: len(x) <= self.max_length_)
+            length_mask = patterns.itemset.map(len) <= self.max_length_
             patterns = patterns[length_mask]
             patterns.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 26faea74233c81122176d1aa006d557c815457ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 02/83] fix: LCM keeps itemsets whose support is exactly the
 relative minimum support

---
 skmine/itemsets/lcm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 94c391d..1ea5082 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -119,7 +119,8 @@ class LCM(TransformerMixin, BaseEstimator):
 
         _check_min_supp(self.min_supp)
         if isinstance(self.min_supp, float):  # make support absolute if needed
-            self.min_supp_ = self.min_supp * n_transactions_
+            # rounded so that a support of exactly `min_supp` is kept, e.g 0.07 * 100 == 7.000000000000001
+            self.min_supp_ = round(self.min_supp * n_transactions_, 9)
         else:
             self.min_supp_ = self.min_supp
 
-- 
2.43.0


From 8bac88b006712d2916bbd6f2867e2ca31ec777c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 03/83] fix: SLIM.transform can write non-string items to a
 file

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 729af50..043ad7a 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -542,7 +542,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         if self.out_ is not None:
             with open(self.out_, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
-                    line = "(" + str(usage) + ") " + " ".join(itemset) + "\n"
+                    line = "(" + str(usage) + ") " + " ".join(map(str, itemset)) + "\n"
                     if self.return_tids_:
                         line += " ".join(map(str, itids[i])) + "\n"
                     f.write(line)
-- 
2.43.0


From e7d1725239bf96dac160b227c96b6b7d728fa6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 04/83] fix: SLIM forgets cached supports when new data is
 ingested

---
 skmine/itemsets/slim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 043ad7a..069ac63 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -627,6 +627,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         2. track bitmaps for the top `self.n_items` frequent items from `D`
         3. set `self.data_size_` and `self.model_size` given the standard codetable
         """
+        self.get_support.cache_clear()  # supports cached for previously ingested data are no longer valid
         if hasattr(D, "ndim") and D.ndim == 2:  # TODO, refactor in fit method, with sklearn input checking !
             D = _check_D(D)
             if y is not None:
-- 
2.43.0


From fda0921c4e78ef1f711a440f85dde371d3f9ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 05/83] fix: SLIM.evaluate keeps the cover lossless for an
 itemset already in the codetable

---
 skmine/itemsets/slim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 069ac63..c6a3d98 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -388,7 +388,8 @@ class SLIM(BaseEstimator, TransformerMixin):
         # Get the id (``idx``) of the insertion of ``candidate`` in codetable w.r.t the standard cover order
         idx = self.codetable_.bisect(candidate)
         ct = list(self.codetable_)
-        ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
+        if candidate not in self.codetable_:
+            ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
         D = {k: v.copy() for k, v in self.standard_codetable_.items()}
         # Get the cover a standard codetable D with CT itemsets
         CTc = cover(D, ct)  # CTc is sorted in Standard Cover Order like D
-- 
2.43.0


From a0963c69412a60c42945438894dc9ad97c68e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 06/83] fix: SLIM.reconstruct gives back the empty transactions
 at the end of the data

---
 skmine/itemsets/slim.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index c6a3d98..49a4b64 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -579,9 +579,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         pd.Series
             original database containing a list of transactions
         """
-        n_transactions = (max(map(Bitmap.max, filter(lambda e: e, self.codetable_.values()))) + 1)
-
-        D = pd.Series([set()] * n_transactions)
+        D = pd.Series([set()] * self.n_transactions_)
         for itemset, tids in self.codetable_.items():
             D.iloc[list(tids)] = D.iloc[list(tids)].map(itemset.union)
         return D.map(sorted)
@@ -634,9 +632,10 @@ class SLIM(BaseEstimator, TransformerMixin):
             if y is not None:
                 D = supervised_to_unsupervised(D, y)  # SKLEARN_COMPAT
             item_to_tids = {k: Bitmap(np.where(D[k])[0]) for k in D.columns}
+            self.n_transactions_ = len(D)
         else:
             # compute tids for each item in Bitmap
-            item_to_tids = _to_vertical(D)
+            item_to_tids, self.n_transactions_ = _to_vertical(D, return_len=True)
 
         sct = pd.Series(item_to_tids)  # sct for "standard code table"
         # The usage of an itemset X ∈ CT (Code Table) is the number of transactions t ∈ D which have X in their cover.
-- 
2.43.0


From fdd6334043966c59af96ce675ed1c46377231693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 07/83] fix: SLIM.get_code_length gives a null code length to
 data compressed to zero bits

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 49a4b64..f870bc5 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -237,7 +237,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         code_lengths["code"] = -_log2(code_lengths["usage"] / code_lengths["usage"].sum())
         mapping = {tuple(row['itemset']): row['code'] for _, row in code_lengths.iterrows()}
         codes_length_D = mat.replace(True, mapping).sum(axis=1).astype(np.float32)
-        codes_length_D[codes_length_D == 0] = + np.inf  # zeros would fool a `shortest code wins` strategy
+        codes_length_D[~mat.any(axis=1)] = + np.inf  # zeros for transactions without any known item would fool a `shortest code wins` strategy
 
         return codes_length_D
 
-- 
2.43.0


From 7fe4db9ac3106e1916178104921c84a24acbb419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 08/83] fix: SLIM standard cover order breaks ties
 lexicographically whatever the hash seed

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index f870bc5..85e2d8c 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -608,7 +608,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         so that many itemsets can be sorted in Standard Cover Order :
         |X|↓ supp_D(X) ↓ lexicographically ↑
         """
-        return -len(itemset), -len(self.get_support(*itemset)), tuple(itemset)
+        return -len(itemset), -len(self.get_support(*itemset)), tuple(sorted(itemset))
 
     def prefit(self, D, y=None):  # -> self
         """
-- 
2.43.0


From 9dcab5b265c18f9fca7e67d589ba970798f27016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 09/83] fix: SlimClassifier hands its pruning parameter to the
 model of each class

---
 skmine/itemsets/slim_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 5c32764..2903443 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -69,7 +69,7 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
         for c in self.classes_:
             transactions_classes = [transaction for transaction, target in zip(X, y) if target == c]
             self.classes_X_.append(transactions_classes)
-            self.models_.append(SLIM(items=self.items))
+            self.models_.append(SLIM(items=self.items, pruning=self.pruning))
 
         for model, data in zip(self.models_, self.classes_X_):
             model.fit(data)
-- 
2.43.0


From 4e45d6e763669e2f6e2175f5361c2ff6fddf8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 10/83] fix: SlimClassifier compares code lengths, not
 probabilities that underflow to 0 for long transactions

---
 skmine/itemsets/slim_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 2903443..9846237 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -89,7 +89,7 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
             Class labels for samples in X
         """
         check_is_fitted(self, "classes_")
-        self.models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
+        self.models_scores = np.vstack([-model.get_code_length(X).values for model in self.models_]).T
 
         return self.classes_[self.models_scores.argmax(axis=1)]
 
-- 
2.43.0


From 839ee21041c6efd66d202abf41cec5eff7062ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 11/83] fix: SLIMVectorizer.fit accepts stop_items

---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index 4c4ef0d..f7c0feb 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -81,7 +81,7 @@ class SLIMVectorizer(SLIM):
 
     def fit(self, D, y=None):
         if self.stop_items is not None:
-            D = _filter_stop_items(D, stop_items=self.stop_items)
+            D = list(_filter_stop_items(D, stop_items=self.stop_items))
         return super().fit(D)
 
     def transform(self, newD, y=None, **tsf_params) -> pd.DataFrame:
-- 
2.43.0


From 1ef390f850720644061740015738f39db9c710e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 12/83] fix: SLIMVectorizer codes are probabilities in the
 training data whatever the transformed data

---
 skmine/feature_extraction/slim_vectorizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index f7c0feb..e622ef4 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -105,6 +105,7 @@ class SLIMVectorizer(SLIM):
         D_sct, _len = _to_vertical(newD, stop_items=stop_items, return_len=True)
         code_lengths = super().transform(newD, return_tids=False, singletons=True, drop_null_usage=False)
         code_lengths = pd.Series(code_lengths["usage"].values, index=code_lengths["itemset"].apply(tuple))
+        total_usage = code_lengths.sum()
         code_lengths = code_lengths[code_lengths.index.map(set(D_sct).issuperset)]
 
         isets = code_lengths.nlargest(self.k)  # real usages sorted in decreasing order
@@ -116,7 +117,7 @@ class SLIMVectorizer(SLIM):
         mat = pd.DataFrame(mat, columns=list(covers.keys()))
 
         if self.strategy == "codes":
-            ct_codes = code_lengths[isets.index] / code_lengths.sum()
+            ct_codes = code_lengths[isets.index] / total_usage
             mat = (mat * ct_codes).astype(np.float32)
 
         return mat
-- 
2.43.0


From 59c425af1497fac18a7c85aea4e37d198631c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:44 +0000
Subject: [PATCH 13/83] fix: SLIM.fit accepts boolean tabular data

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 85e2d8c..e2f482e 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -164,7 +164,7 @@ class SLIM(BaseEstimator, TransformerMixin):
             self.classes_ = np.unique(y)
 
         self._validate_data(X, force_all_finite=False, accept_sparse=False, ensure_2d=False,
-                            ensure_min_samples=1, dtype=list)
+                            ensure_min_samples=1, dtype=object)
         self.n_features_in_ = X.shape[-1] if not isinstance(X, list) else len(X[-1])
         # TODO : significant for one-hot D, not for list of itemset
         start = time.time()
-- 
2.43.0


From bccdfcb571f75d053d6038bc8f9d83c1d82c19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:51 +0000
Subject: [PATCH 14/83] fix: PeriodicPatternMiner.fit accepts different events
 at the same time

---
 skmine/periodic/cycles.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2dcb750..ca63236 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -123,11 +123,10 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
-            serie = serie.groupby(by=serie.index).apply(lambda x: x.drop_duplicates())
-            # if same time and same event,  create Multi inde names =[timestamp, timestamp]
+            duplicates = pd.DataFrame({"time": serie.index, "event": serie.values}).duplicated()
+            serie = serie[~duplicates.values]
             diff = len_S - len(serie)
             if diff:
-                serie = serie.reset_index(level=0, drop=True)
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
         S_times_nano = serie.index.astype("int64")
-- 
2.43.0


From 6bf50463f8cd778e0951a301e44e4afb9c6a394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:51 +0000
Subject: [PATCH 15/83] fix: PeriodicPatternMiner without auto_time_scale can
 be transformed and exported

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index ca63236..e63b9ee 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -141,6 +141,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         else:
             serie.index = S_times_nano
             resolution = "nano-second"
+            self.n_zeros_ = 0
             self.div_nb_sec_ = 1
 
         # TODO : merge self.div_nb_sec_ and self.n_zeros_ to just one number, by which nano-seconds are divided
-- 
2.43.0


From 20c91e9b36610e4bb2a46d29d5b73118fb85ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:51 +0000
Subject: [PATCH 16/83] fix: PeriodicPatternMiner reconstructs and gives
 residuals when there is no pattern or no residual

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index e63b9ee..b2d7d4d 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -346,7 +346,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
                 reconstruct_list.append(dict_)
 
-        reconstruct_pd = pd.DataFrame(reconstruct_list)
+        reconstruct_pd = pd.DataFrame(reconstruct_list, columns=["time", "event"])
 
         if self.is_datetime_:
             reconstruct_pd['time'] = reconstruct_pd['time'].astype("datetime64[ns]")
@@ -402,7 +402,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-        residuals_transf_pd = pd.DataFrame(residuals_transf_list)
+        residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
         if self.auto_time_scale and self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
-- 
2.43.0


From 5d331a9d28bff63e1a9ab0b4033d7631d3b4c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 17/83] fix: PeriodicPatternMiner.fit accepts logs that are not
 in chronological order

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index b2d7d4d..1dfb9a0 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -119,7 +119,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             raise TypeError(f"S must have an index with a type amongst {INDEX_TYPES}")
 
         self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
-        serie = S.copy(deep=True)
+        serie = S.sort_index(kind="stable")  # always a copy
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
-- 
2.43.0


From 9349ccbd4ba2706fa9a83a0d8f7099a3912085cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 18/83] fix: PeriodicPatternMiner.get_residuals gives dates for
 dated logs without auto_time_scale

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 1dfb9a0..dc78cdd 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -404,7 +404,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
-        if self.auto_time_scale and self.is_datetime_:
+        if self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
         else:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("int64")
-- 
2.43.0


From 19263c4288197f88ee3d6cb1a47a9336e148c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 19/83] fix: PeriodicPatternMiner.get_residuals gives the
 complement of the selected patterns

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index dc78cdd..ffc6335 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -411,7 +411,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         reconstruct_ = self.reconstruct(patterns_id)
         reconstruct_all = self.reconstruct()
-        complementary_reconstruct = reconstruct_all[~reconstruct_all.isin(reconstruct_)].dropna()
+        selected = pd.MultiIndex.from_frame(reconstruct_)
+        complementary_reconstruct = reconstruct_all[~pd.MultiIndex.from_frame(reconstruct_all).isin(selected)]
 
         if pd.merge(reconstruct_all, residuals_transf_pd, how='inner').empty:
             residuals_transf_pd = pd.concat([residuals_transf_pd, complementary_reconstruct], ignore_index=True)
-- 
2.43.0


From cacfedecc9dc7809c1ae9ab19e176393c714413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 20/83] fix: PeriodicPatternMiner without any pattern can be
 exported

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index ffc6335..6e49145 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -205,6 +205,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                                                                                is_datetime=self.is_datetime_)
 
         if not patterns_list_of_dict:
+            self.cycles = pd.DataFrame(columns=["pattern_json_tree"])
             return pd.DataFrame()  # FIXME
 
         self.cycles = pd.DataFrame(patterns_list_of_dict)
-- 
2.43.0


From a953efc7fa1811d215b9da84c6530a9f8d9d07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:41 +0000
Subject: [PATCH 21/83] fix: PeriodicPatternMiner.transform gives the shift
 corrections and the pattern string of integer logs in the unit of the log

---
 skmine/periodic/cycles.py  | 2 +-
 skmine/periodic/pattern.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 6e49145..6b944cc 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -212,11 +212,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         if self.auto_time_scale:  # restore time in nano-second
             self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+            self.cycles["E"] = self.cycles.E.map(lambda E: [e * 10 ** self.n_zeros_ * self.div_nb_sec_ for e in E])
 
             if self.is_datetime_:
                 self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
                 self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
-                self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
 
                 def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
diff --git a/skmine/periodic/pattern.py b/skmine/periodic/pattern.py
index a0eafca..14c17e2 100644
--- a/skmine/periodic/pattern.py
+++ b/skmine/periodic/pattern.py
@@ -910,16 +910,15 @@ class Pattern(object):
         if self.isInterm(nid):
             r = self.nodes[nid].get("r", "-")
             p = self.nodes[nid].get("p", "-")
+            p *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
             if is_datetime:
-                p *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                 p = timedelta(microseconds=p / 1000)
             ss = "[r=%s p=%s]" % (r, p)
             sc = ""
             for ni, nn in enumerate(self.nodes[nid]["children"]):
                 if ni > 0:
-                    d = nn[1]
+                    d = nn[1] * (10 ** n_zeros * div_nb_sec)  # restore time in nano-second
                     if is_datetime:
-                        d *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                         d = timedelta(microseconds=d / 1000)
                     sc += " [d=%s] " % d
                 sc += self.__str__(nn[0], map_ev, leaves_first, n_zeros, div_nb_sec, is_datetime)
-- 
2.43.0


From 9ae47a59aaf5bdf4c83bf151e311c9d92dab3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:41 +0000
Subject: [PATCH 22/83] fix: PeriodicPatternMiner can export the patterns it
 imported

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 6b944cc..274071c 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -278,6 +278,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         self.div_nb_sec_ = big_dict["div_nb_sec_"]
         self.is_datetime_ = big_dict["is_datetime_"]
         self.data_details_ = DataSequence(dict(big_dict["data_details"]))
+        self.alpha_groups_ = {event: pd.Index(times) for event, times in big_dict["data_details"].items()}
         big_dict_list = big_dict["patterns"]
 
         patterns_list = []
-- 
2.43.0


From f6017c178969a8e3f0384b6215c08a70d3c7b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:07 +0000
Subject: [PATCH 23/83] fix: PeriodicPatternMiner.fit refuses indexes that are
 neither dates nor integers instead of truncating them

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 274071c..6a40bfe 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -115,7 +115,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if not isinstance(S, pd.Series):
             raise TypeError("S must be a pandas Series")
 
-        if not isinstance(S.index, INDEX_TYPES):
+        if not isinstance(S.index, INDEX_TYPES) or not (
+                isinstance(S.index, pd.DatetimeIndex) or pd.api.types.is_integer_dtype(S.index)):
             raise TypeError(f"S must have an index with a type amongst {INDEX_TYPES}")
 
         self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
-- 
2.43.0


From 55720c56f3342116189026f04bf5276989aaf620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:23 +0000
Subject: [PATCH 24/83] fix: patterns keep their ids when PeriodicPatternMiner
 exports and imports them

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 6a40bfe..5f9e784 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -243,7 +243,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         """
         # allows us to call export_patterns without explicitly calling transform method before
         dummy_var = 17
-        self.transform(dummy_var)
+        self.transform(dummy_var, chronological_order=False)  # keep the ids of the patterns
 
         big_dict_list = [i for i in self.cycles["pattern_json_tree"].values]
 
-- 
2.43.0


From 381171d81e49a6991a49289b02ee0c4782e54247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:59 +0000
Subject: [PATCH 25/83] fix: periodic patterns concatenated from patterns of
 several blocks keep the occurrences they combine

---
 skmine/periodic/run_mine.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/run_mine.py b/skmine/periodic/run_mine.py
index d1d6184..5361820 100644
--- a/skmine/periodic/run_mine.py
+++ b/skmine/periodic/run_mine.py
@@ -162,22 +162,29 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
     offset = 0
     Pblks_occs = []
     Pblks_errs = []
+    lasts = []  # position of the first occurrence of the last child within each repetition
+    ds = []  # distance from the last child of the previous candidate
     for ci, cand in enumerate(cands):
 
         Pblks_occs.append(cand.getBlocksO(first_rs[ci]))
         Pblks_errs.append(cand.getBlocksE(first_rs[ci]))
+        lasts.append(0)
+        if cand.isPattern():
+            lasts[-1] = len(Pblks_occs[ci][0]) - cand.P.getNbOccs(cand.P.nodes[0]["children"][-1][0])
+        ds.append(0)
+        if ci > 0:
+            ds[-1] = Pblks_occs[ci][0][0] - Pblks_occs[ci - 1][0][lasts[ci - 1]]
 
         nodes, offset, nmap = cand.getTranslatedPNodes(offset)
         offset -= 1
         ch = nodes.pop(nmap[0])["children"]
         if ci > 0:
-            ch[0] = (ch[0][0], Pblks_occs[ci][0][0] - Pblks_occs[ci - 1][0][0])
+            ch[0] = (ch[0][0], ds[ci])
         tree[0]["children"].extend(ch)
         for c in ch:
             nodes[c[0]]["parent"] = 0
         tree.update(nodes)
 
-    ds = [c[1] for c in tree[0]["children"]]
     O = []
     E = []
     for ri in range(r0):
@@ -187,7 +194,7 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
                 if ri != 0:
                     E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei][ri - 1][0]) - p0)
             else:
-                E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei - 1][ri][0]) - ds[ei])
+                E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei - 1][ri][lasts[ei - 1]]) - ds[ei])
             E.extend(Pblks_errs[ei][ri])
     p = Pattern(tree)
     return Candidate(-1, p, O, E)
-- 
2.43.0


From 290110807de2bd573be93e016e33e3c81e148f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:09 +0000
Subject: [PATCH 26/83] fix: MDLP discretizers accept negative labels

---
 skmine/preprocessing/mdlp_discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 468e419..c218f55 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -110,7 +110,7 @@ class MDLPVectDiscretizer(MDLOptimizer):
 
         order = np.argsort(X)
         X = X[order]
-        y = y[order]
+        y = np.unique(y, return_inverse=True)[1][order]  # any integers as labels
 
         cut_points = set()
         search_intervals = [(0, len(X), 0)]
-- 
2.43.0


From 4aa7648124778e3a670afa6ec83b64d0b5fa53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:09 +0000
Subject: [PATCH 27/83] fix: MDLP discretizers find cut points whatever the
 number of classes (overflow from 40 classes on)

---
 skmine/preprocessing/mdlp_discretizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index c218f55..52c950f 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -6,6 +6,8 @@ Multi-Interval Discretization of Continuous-Valued Attributes for Classification
 #
 # License: BSD 3 clause
 
+import math
+
 import numpy as np
 import pandas as pd
 from joblib import Parallel, delayed
@@ -87,7 +89,7 @@ class MDLPVectDiscretizer(MDLOptimizer):
         N = end - start
 
         part1 = 1 / N * ((cut_point - start) * entropy1 + (end - cut_point) * entropy2)
-        delta = np.log2(pow(3, k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
+        delta = math.log2(3 ** int(k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
 
         gain = whole_entropy - part1
 
-- 
2.43.0


From 1a878238dfebfcdb246011fb34baf3489df962a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:09 +0000
Subject: [PATCH 28/83] fix: MDLP cut points lie between their neighbours for
 small integer types (overflow of the sum)

---
 skmine/preprocessing/mdlp_discretizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 52c950f..057f1de 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -124,8 +124,8 @@ class MDLPVectDiscretizer(MDLOptimizer):
 
             is_better = self.evaluate(y, start, end, k)
             if k == -1 or not is_better:
-                front = -np.inf if start == 0 else (X[start - 1] + X[start]) / 2
-                back = np.inf if end == len(X) else (X[end - 1] + X[end]) / 2
+                front = -np.inf if start == 0 else X[start - 1] / 2 + X[start] / 2
+                back = np.inf if end == len(X) else X[end - 1] / 2 + X[end] / 2
 
                 if front != -np.inf:
                     cut_points.add(front)
-- 
2.43.0


From a2befa1cd9c16941ec70e7093a3a56c0bda2e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:09 +0000
Subject: [PATCH 29/83] fix: MDLPDiscretizer.transform applies the cut points
 by column name and keeps the index of a DataFrame

---
 skmine/preprocessing/mdlp_discretizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 057f1de..e03dd30 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -244,16 +244,17 @@ class MDLPDiscretizer(BaseMiner):
             raise ValueError(f"X columns should be {self.cut_points_.keys()}")
         _X = X.values if isinstance(X, pd.DataFrame) else X
 
+        columns = X.columns if isinstance(X, pd.DataFrame) else self.cut_points_
         vects = Parallel(n_jobs=self.n_jobs, prefer="threads")(
-            delayed(np.searchsorted)(cut_points, _X[:, idx])
-            for idx, cut_points in enumerate(self.cut_points_.values())
+            delayed(np.searchsorted)(self.cut_points_[col], _X[:, idx])
+            for idx, col in enumerate(columns)
         )
 
         vects = [v.reshape(len(v), 1) for v in vects]
         _X = np.concatenate(vects, axis=1)
 
         if isinstance(X, pd.DataFrame):
-            _X = pd.DataFrame(_X, columns=X.columns)
+            _X = pd.DataFrame(_X, columns=X.columns, index=X.index)
 
         return _X
 
-- 
2.43.0


From dbe1b0bde141dfeeaad449cae8632e784038e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:36 +0000
Subject: [PATCH 30/83] fix: MBDLLBorder.discover only outputs patterns between
 the borders

---
 skmine/emerging/mbdldorber.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 818ae51..41fd6eb 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -90,14 +90,13 @@ def borders_to_patterns(left, right, min_size=None):
     -------
     pd.Series
     """
-    min_size = min_size or min(map(len, left))
+    min_size = min_size or min(map(len, left), default=0)
     patterns = list()
     for size in range(len(right) - 1, min_size - 1, -1):  # bigger patterns first
         combs = combinations(right, size)
         for pat in combs:
-            if any((e.issuperset(set(pat)) for e in left)):
-                continue
-            patterns.append(pat)
+            if any((e < set(pat) for e in left)):
+                patterns.append(pat)
 
     return pd.Series(patterns)
 
-- 
2.43.0


From 420436772646b7957ed28a143cad984edb153ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:36 +0000
Subject: [PATCH 31/83] fix: MBDLLBorder accepts a first collection without
 frequent itemset

---
 skmine/emerging/mbdldorber.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 41fd6eb..f02ef54 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -39,8 +39,8 @@ def border_diff(U, S):
     See ``BORDER-DIFF`` in section 4.1
     """
     # assert len(R1) < len(U)  # assert we iterate on the smallest ensemble
-    L2 = [{x} for x in U - S[0]]
-    for i in range(1, len(S)):
+    L2 = [set()]  # nothing to remove: every subset of U
+    for i in range(len(S)):
         _L2 = [X | {x} for x in U - S[i] for X in L2]
         L2 = list(filter_minimal(_L2))
 
-- 
2.43.0


From e52287f650a0910d510a7ea83203a9783955a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:36 +0000
Subject: [PATCH 32/83] fix: MBDLLBorder.fit accepts lists of targets

---
 skmine/emerging/mbdldorber.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index f02ef54..eac7ef0 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -172,6 +172,7 @@ class MBDLLBorder(BaseMiner, DiscovererMixin):
             Must contain only two disctinct values, i.e len(np.unique(y)) == 2
         """
 
+        y = y if isinstance(y, pd.Series) else np.asarray(y)
         labels = np.unique(y)
         assert len(labels) == 2
         assert isinstance(D, pd.Series)  # TODO : accept tabular data
-- 
2.43.0


From 170af0e45f75864c407c51b7f06ae7b01ae9c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:10 +0000
Subject: [PATCH 33/83] fix: GraphMDL.fit no longer fails when a candidate was
 already tested

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 70a4d3b..f4b75cd 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -152,7 +152,7 @@ class GraphMDL(BaseMiner):
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
-                        utils.MyLogger().debug("Already test")
+                        utils.MyLogger.debug("Already test")
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From c400d94f4bbb8b9d3e2dccce388a3bdd565d46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:10 +0000
Subject: [PATCH 34/83] fix: GraphMDL patterns with several labels on a node
 have tuples of labels, as the data

---
 skmine/graph/graphmdl/candidate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/candidate.py b/skmine/graph/graphmdl/candidate.py
index 83163b4..4dc083e 100644
--- a/skmine/graph/graphmdl/candidate.py
+++ b/skmine/graph/graphmdl/candidate.py
@@ -142,7 +142,7 @@ class Candidate:
         second_label
         Returns
         -------
-        list
+        str or tuple
         """
         if type(second_label) is str:
             if type(first_label) is str:
@@ -156,7 +156,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-                return label
+                return tuple(label)
         else:
             label = list(second_label)
             if type(first_label) is str:
@@ -166,7 +166,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-            return label
+            return tuple(label)
 
     def _is_ports_equals(self, ports):
         """ Check if the candidate ports list are similar to a given ports list
-- 
2.43.0


From bf1c87cc5c89e7840684dec72c249a9077e015d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:09 +0000
Subject: [PATCH 35/83] fix: GraphMDL.fit without timeout stops when no
 untested candidate improves the code table

---
 skmine/graph/graphmdl/graph_mdl.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index f4b75cd..54a83fc 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -139,20 +139,15 @@ class GraphMDL(BaseMiner):
                             self._compute_pruning_candidates()
                             self._pruning()
                             break
-                        elif temp_code_length > self._description_length and candidates.index(candidate) == len(
-                                candidates) - 1:
-                            utils.MyLogger.info("None best code table found")
-                            utils.MyLogger.info(f"search time = {time.time() - b}")
-                            self._code_table.remove_row(row)
-                            stop = self._graph_mdl_end()
-                            if self._timeout is not None:
-                                current = self._timeout
-                            break
                         else:
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
                         utils.MyLogger.debug("Already test")
+                else:  # no candidate improves the code table
+                    utils.MyLogger.info("None best code table found")
+                    utils.MyLogger.info(f"search time = {time.time() - b}")
+                    stop = self._graph_mdl_end()
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From b5e98caa4b7c5cfb640dbddc283d03375c7334c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:28 +0000
Subject: [PATCH 36/83] fix: GraphMDL pruning considers each row of the code
 table once

---
 skmine/graph/graphmdl/graph_mdl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 54a83fc..5382795 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -52,6 +52,7 @@ class GraphMDL(BaseMiner):
             the initial code table (CT0), and run a cover computation to create the first rewritten graph.
         """
         self._already_test = []
+        self._pruning_rows = []
         self._label_codes = LabelCodes(self._data)  # label codes creation
         # CT0 creation
         self._code_table = CodeTable(self._label_codes, self._data)
@@ -220,7 +221,7 @@ class GraphMDL(BaseMiner):
         """
         for r in self._code_table.rows():
             if r.pattern() in self._old_usage.keys():
-                if r.pattern_usage() < self._old_usage[r.pattern()]:
+                if r.pattern_usage() < self._old_usage[r.pattern()] and r not in self._pruning_rows:
                     self._pruning_rows.append(r)
 
     def _pruning(self):
@@ -233,13 +234,13 @@ class GraphMDL(BaseMiner):
         utils.MyLogger.info(f"Pruning start ....")
         self._compute_old_usage()  # compute old pattern usage
         self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
-        for r in self._pruning_rows:
+        while self._pruning_rows:
+            r = self._pruning_rows.pop(0)
             self._code_table.remove_row(r)
             self._code_table.cover()
             if self._code_table.compute_total_description_length() < self._description_length:
                 self._rewritten_graph = self._code_table.rewritten_graph()
                 self._description_length = self._code_table.compute_total_description_length()
-                self._pruning_rows.remove(r)
                 self._compute_pruning_candidates()  # recompute the pruning candidates
                 self._pruning()
             else:
-- 
2.43.0


From 326698fb3bdc5fb48d72418a39085a50d63fa203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:28 +0000
Subject: [PATCH 37/83] fix: GraphMDL.fit no longer writes its marks into the
 graph it is given

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 5382795..f582e07 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -84,7 +84,7 @@ class GraphMDL(BaseMiner):
         if D is None:
             raise ValueError("You should give a graph")
         else:
-            self._data = D
+            self._data = D.copy()  # the cover marks the nodes and edges of the graph
             self._init_graph_mdl()
             self._anytime_graph_mdl_with_timeout()
             return self
-- 
2.43.0


From 69856416f48a825e8741e0bb2c5c112ee3003714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:28 +0000
Subject: [PATCH 38/83] fix: the timeout of GraphMDL.fit does not apply to
 later calls without timeout

---
 skmine/graph/graphmdl/graph_mdl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index f582e07..68d1b10 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -79,8 +79,7 @@ class GraphMDL(BaseMiner):
             -------
             GraphMDL
         """
-        if timeout is not None and timeout != 0:
-            self._timeout = timeout
+        self._timeout = timeout if timeout != 0 else None
         if D is None:
             raise ValueError("You should give a graph")
         else:
-- 
2.43.0


From 2146e17538f17099e70f5e4c6c53a316f565733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:28 +0000
Subject: [PATCH 39/83] fix: the used embeddings of a GraphMDL code table row
 are those of the last cover

---
 skmine/graph/graphmdl/code_table.py     | 1 +
 skmine/graph/graphmdl/code_table_row.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ac22bdb..34f8584 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -762,6 +762,7 @@ class CodeTable:
         """
         cover_usage = 0
         port_usage = dict()
+        row.clear_used_embeddings()
         if not utils.is_without_edge(row.pattern()):
             for embedding in row.embeddings():
                 if not self.is_embedding_marked(embedding, row.pattern(), graph, cover_marker):
diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index bedf673..4186d5b 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -96,6 +96,9 @@ class CodeTableRow:
     def add_used_embeddings(self, embedding):
         self._used_embeddings.append(embedding)
 
+    def clear_used_embeddings(self):
+        self._used_embeddings = []
+
     def used_embeddings(self):
         return self._used_embeddings
 
-- 
2.43.0


From 2cbefd4152509078c7b9979a8477759c677a8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:03 +0000
Subject: [PATCH 40/83] fix: in GraphMDL a node is a port of an embedding when
 one of its labels is not in the pattern

---
 skmine/graph/graphmdl/code_table.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 34f8584..df45751 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -620,7 +620,7 @@ class CodeTable:
         i = 0
         while i <= len(keys) - 1:
             if not self.is_node_edges_marked(graph, keys[i], pattern, values[i]) \
-                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker):
+                    or not self.is_node_labels_in_pattern(graph, keys[i], pattern, values[i]):
                 res.append((keys[i], values[i]))
                 if 'port' not in graph.nodes[keys[i]]:  # if the node is not already marked as port
                     graph.nodes[keys[i]]['port'] = True  # mark it
@@ -658,6 +658,25 @@ class CodeTable:
         else:
             raise ValueError(f"{graph_node} should be a nod of the graph and {pattern_node}, a node of pattern")
 
+    def is_node_labels_in_pattern(self, graph, graph_node, pattern, pattern_node):
+        """ Check if the pattern node has all the labels of the corresponding graph node
+        Parameters
+        ----------
+        graph
+        graph_node
+        pattern
+        pattern_node
+
+        Returns
+        ---------
+        bool
+        """
+        labels = []
+        for node in (graph.nodes[graph_node], pattern.nodes[pattern_node]):
+            label = node.get('label', ())
+            labels.append({label} if type(label) is str else set(label))
+        return labels[0] <= labels[1]
+
     def is_node_all_labels_marked(self, node_number, graph, cover_marker):
         """ Check if all node labels are marked by the cover_marker
         Parameters
-- 
2.43.0


From 5103687b6d41e0f8043d6e06e67e23bd1911e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:03 +0000
Subject: [PATCH 41/83] fix: GraphMDL does not take an embedding with the label
 of a node for the port of this node

---
 skmine/graph/graphmdl/code_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index df45751..b28d69c 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -761,8 +761,9 @@ class CodeTable:
         rewritten_node
         data_node : the port node in the initial data graph
         """
-        if str(data_node) in dict(rewritten_graph.nodes(data='label')).values():
-            port_node = utils.get_key_from_value(dict(rewritten_graph.nodes(data='label')), str(data_node))
+        ports = {n: d['label'] for n, d in rewritten_graph.nodes(data=True) if 'is_Pattern' not in d}
+        if str(data_node) in ports.values():
+            port_node = utils.get_key_from_value(ports, str(data_node))
             rewritten_graph.add_edge(rewritten_node, port_node, label=f"v{kwargs['pattern_port']}")
         else:
             last = len(rewritten_graph.nodes())
-- 
2.43.0


From accf1b53641fcbe76575045bd384d4d1fcf15219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:03 +0000
Subject: [PATCH 42/83] fix: GraphMDL counts both the vertices and the edges
 with a label that vertices and edges share

---
 skmine/graph/graphmdl/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 2f5b8fc..0002abd 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -107,11 +107,10 @@ def get_total_label(graph: Graph):
          float
     """
 
-    labels = count_edge_label(graph)
-    labels.update(count_vertex_label(graph))
     total = 0.0  # The total number of labels in the graph
-    for i in labels.values():
-        total = total + i
+    for labels in (count_edge_label(graph), count_vertex_label(graph)):
+        for i in labels.values():
+            total = total + i
 
     return total
 
-- 
2.43.0


From 64197a7da74b7396c569ca53681071079984d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:03 +0000
Subject: [PATCH 43/83] fix: GraphMDL encodes the ports of a pattern according
 to their usages

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index b28d69c..92bd85b 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -174,7 +174,7 @@ class CodeTable:
                  if 'is_Pattern' not in node[1]])
 
             # edges labels
-            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().keys()])
+            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().values()])
                            for row in self._rows if row.pattern_usage() != 0]
             # the code for vertex pattern is zero
             edges_label.extend([utils.prequential_code([v, v]) for v in self._edge_singleton_usage.values()])
-- 
2.43.0


From cb629b94025e541890ebf8c0db44c91c07dffba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:27 +0000
Subject: [PATCH 44/83] fix: GraphMDL.discover no longer fails when patterns
 were found

---
 skmine/graph/graphmdl/code_table_row.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index 4186d5b..feb3cfa 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -179,7 +179,7 @@ class CodeTableRow:
         -------
         list
         """
-        return [utils.draw_pattern(self._pattern), self._pattern_usage, self._code_length,
+        return [utils.display_graph(self._pattern), self._pattern_usage, self._code_length,
                 len(self._pattern_port_usage),
                 self._pattern_port_usage, self._port_code_length]
 
-- 
2.43.0


From 4bd139baafffa610f59d29b1ee81cc7e1be7d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:27 +0000
Subject: [PATCH 45/83] fix: GraphMDL.patterns contains the pattern that
 describes the whole graph alone and needs fit

---
 skmine/graph/graphmdl/graph_mdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 68d1b10..c45fe70 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -258,7 +258,7 @@ class GraphMDL(BaseMiner):
         self._patterns = set()
         if self._code_table is not None:
             for r in self._code_table.rows():
-                if r.code_length() != 0:
+                if r.pattern_usage() != 0:
                     self._patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
@@ -267,7 +267,7 @@ class GraphMDL(BaseMiner):
             return self._patterns
 
         else:
-            return ValueError("The fit method must be called first")
+            raise ValueError("The fit method must be called first")
 
     def description_length(self):
         """
-- 
2.43.0


From 9317bc55973eee3dfcae07dd7722b59b052ed6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:27 +0000
Subject: [PATCH 46/83] fix: format of a log message of GraphMDL

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index c45fe70..80b6f9c 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -133,7 +133,7 @@ class GraphMDL(BaseMiner):
                         if temp_code_length < self._description_length:
                             self._rewritten_graph = self._code_table.rewritten_graph()
                             self._description_length = temp_code_length
-                            utils.MyLogger.info("New DL ", self._description_length)
+                            utils.MyLogger.info(f"New DL {self._description_length}")
                             utils.MyLogger.info(f"new pattern added: {utils.display_graph(row.pattern())}")
                             utils.MyLogger.info(f"search time = {time.time() - b}")
                             self._compute_pruning_candidates()
-- 
2.43.0


From e3aba4effbd638dd060a89e3a582ea5ae5fcc82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:36 +0000
Subject: [PATCH 47/83] fix: GraphMDL keeps the cover of its code table when a
 row is not pruned

---
 skmine/graph/graphmdl/graph_mdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 80b6f9c..1f56ebf 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -244,6 +244,7 @@ class GraphMDL(BaseMiner):
                 self._pruning()
             else:
                 self._code_table.add_row(r)
+                self._code_table.cover()  # back to the cover with this row
 
         utils.MyLogger.info("Pruning end ....")
 
-- 
2.43.0


From c512ffa109acdbe909201464aa5e62dbd4161280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:37 +0000
Subject: [PATCH 48/83] fix: rows of a GraphMDL code table have distinct
 arrival numbers, a pruning test does not reorder them

---
 skmine/graph/graphmdl/code_table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 92bd85b..1ecd17b 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -31,6 +31,7 @@ class CodeTable:
     def __init__(self, standard_table, graph):
         self._standard_table = standard_table  # A initial code table
         self._rows = []  # All rows of the code table
+        self._arrivals = 0  # Number of rows added to the code table
         self._description_length = 0.0  # the description length of this code table
         self._data_graph = graph  # The graph where we want to apply the code table elements
         """ We don't store singleton pattern ports because each singleton pattern node is its port,
@@ -51,7 +52,8 @@ class CodeTable:
         row
         """
         if row.arrival_number is None:
-            row.arrival_number = len(self._rows) + 1
+            self._arrivals += 1
+            row.arrival_number = self._arrivals
 
         self._rows.append(row)  # Add the new row at the end of the list
 
-- 
2.43.0


From 2b17e1249d77732394b6ac819028b65dd6c70d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:37 +0000
Subject: [PATCH 49/83] fix: GraphMDL compares all parallel edges of a
 multigraph when it searches embeddings

---
 skmine/graph/graphmdl/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 0002abd..f3d2b8a 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -334,10 +334,8 @@ def _edge_match_for_multigraph(edge1, edge2):
     -------
     bool
     """
-    edge1_values = dict(edge1).values()
-    edge2_values = dict(edge2).values()
-    edge1_labels = [list(edge1_values)[0][i] for i in list(edge1_values)[0].keys() if i == 'label']
-    edge2_labels = [list(edge2_values)[0][i] for i in list(edge2_values)[0].keys() if i == 'label']
+    edge1_labels = [e['label'] for e in dict(edge1).values() if 'label' in e]
+    edge2_labels = [e['label'] for e in dict(edge2).values() if 'label' in e]
     if len(edge2_labels) != 0 and len(edge1_labels) != 0:
         return not (False in [label in edge1_labels for label in edge2_labels])
     else:
-- 
2.43.0


From 932d6613fae09557588116f7f728ba04c52a764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:50 +0000
Subject: [PATCH 50/83] fix: GraphMDL accepts multigraphs whatever the keys of
 their edges

---
 skmine/graph/graphmdl/code_table.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 1ecd17b..36f35d7 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -413,13 +413,13 @@ class CodeTable:
         """ Provide the good edge index, it's used in the multigraph treatment
         Parameters
         ---------
-        values
+        values : the parallel edges, by key
         label
         Returns
         -------
-        int
+        the key of the edge, None if there is no such edge
         """
-        res = [i for i, j in enumerate(values, start=0) if
+        res = [i for i, j in values.items() if
                'label' in j and j['label'] == label]
         if len(res) != 0:
             return res[0]
@@ -445,7 +445,7 @@ class CodeTable:
             if type(graph) is nx.MultiDiGraph:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
-                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
+                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end), label)
                     if edge_index is not None:
                         edge = graph[start][end][edge_index]
                         return 'cover_mark' in edge and label in edge['cover_mark'] and edge['cover_mark'][
@@ -479,7 +479,7 @@ class CodeTable:
             if type(graph) is nx.MultiDiGraph:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
-                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
+                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end), label)
                     if 'cover_mark' in graph[start][end][edge_index]:
                         graph[start][end][edge_index]['cover_mark'][label] = cover_marker
                     else:
-- 
2.43.0


From 586abe7b29111c83f1cd5d3fd728ea1758007548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:07 +0000
Subject: [PATCH 51/83] fix: GraphMDL binomial coefficients are exact and
 finite whatever their size

---
 skmine/graph/graphmdl/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index f3d2b8a..9a61ad2 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -127,12 +127,8 @@ def binomial(n, k):
     """
     if k > n:
         raise ValueError(f"{k} should be lower than {n} in binomial coefficient")
-    elif k == 0:
-        return 1
-    elif k > n / 2:
-        return binomial(n, n - k)
 
-    return n * binomial(n - 1, k - 1) / k
+    return math.comb(n, k)
 
 
 def universal_integer_encoding(x):
-- 
2.43.0


From 5b7b928716de38e7fcec54b62021fcf1ff43e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:08 +0000
Subject: [PATCH 52/83] fix: is_edge_singleton accepts any names of nodes

---
 skmine/graph/graphmdl/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 9a61ad2..02b817b 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -395,8 +395,7 @@ def is_edge_singleton(pattern):
     """
     if len(pattern.nodes()) == 2:
         # Check first if the nodes haven't labels
-        if "label" not in pattern.nodes(data=True)[1] \
-                and "label" not in pattern.nodes(data=True)[2]:
+        if not any("label" in data for _, data in pattern.nodes(data=True)):
             # Check if the edge have exactly one label
             if count_edge_label(pattern) is not None \
                     and len(count_edge_label(pattern).values()) == 1 \
-- 
2.43.0


From 251a3165393eac4f34114a1614969960c1209ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:04 +0000
Subject: [PATCH 53/83] fix: callbacks that compare attributes of self or have
 no source file are accepted, augmented assignments are refused

---
 skmine/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index baa9254..b1f7045 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -14,9 +14,9 @@ def has_self_assigment(f):
     check if no assignment is made on the ``self`` keyword
     """
     try:
-        p = r"self(\.\w+)?\s*=.*"
+        p = r"\bself(\.\w+)?\s*([-+*/%&|^@]|//|\*\*|<<|>>)?=(?!=)"
         return any(re.finditer(p, getsource(f)))
-    except TypeError:
+    except (TypeError, OSError):  # builtins, functions without source file
         return False
 
 
-- 
2.43.0


From 5f0412758582dcbb7a7187a281a6d1e1c03b4c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:31 +0000
Subject: [PATCH 54/83] fix: callbacks are called exactly once, whatever they
 raise and whatever the number of elements of the result

---
 skmine/callbacks.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index b1f7045..e7f9785 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -2,6 +2,7 @@
 Callback API for scikit-mine
 """
 import re
+from collections.abc import Iterator
 from inspect import signature, getsource
 
 
@@ -30,6 +31,20 @@ def _get_params(fn):
     return params
 
 
+def _accepts(fn, res):
+    """Should the elements of ``res`` be passed as the arguments of ``fn``, instead of ``res`` itself?"""
+    if isinstance(res, Iterator):  # left to the caller
+        return False
+    try:
+        sig = signature(fn)
+        if [p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) for p in sig.parameters.values()] == [True]:
+            return False  # a single argument
+        sig.bind(*res)
+    except (TypeError, ValueError):
+        return False
+    return True
+
+
 def post(self, func_name, callback):
     """decorator, call callback on returned values, after main function"""
     func = getattr(self, func_name)
@@ -40,13 +55,10 @@ def post(self, func_name, callback):
         res = func(*args, **kwargs)
         if "self" in callback_params:
             _w = (res,) if len(callback_params) == 2 else res
-            args_ = (self,) + (_w if len(callback_params) > 1 else tuple())
+            args_ = (self,) + (tuple(_w) if len(callback_params) > 1 else tuple())
         else:
-            args_ = res
-        try:
-            callback(*args_)
-        except TypeError:
-            callback(args_)  # list.extend
+            args_ = res if _accepts(callback, res) else (res,)  # list.extend
+        callback(*args_)
         return res
 
     return _
-- 
2.43.0


From 56e770646303be4c92b537d519af80d0586d3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:31 +0000
Subject: [PATCH 55/83] fix: CallBacks are immutable whatever the method of
 dict

---
 skmine/callbacks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index e7f9785..f8cd355 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -108,7 +108,13 @@ class CallBacks(dict):
         raise NotImplementedError(f"{type(self)} is immutable")
 
     __setitem__ = _frozen
+    __delitem__ = _frozen
+    __ior__ = _frozen
     update = _frozen
+    setdefault = _frozen
+    pop = _frozen
+    popitem = _frozen
+    clear = _frozen
 
     def __call__(self, miner):
         # print("dir(miner)", dir(miner))
-- 
2.43.0


From e5d7b3aa9fa86d6ac19173f52520516a661afb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 56/83] fix: make_transactions and make_classification accept
 RandomState instances, as documented

---
 skmine/datasets/_samples_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 51177f6..4ee8d8c 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -6,6 +6,8 @@ Mainly for benchmarks and experiments
 import numpy as np
 import pandas as pd
 
+from ..utils import _check_random_state
+
 
 def make_transactions(
     n_transactions=1000, n_items=100, density=0.5, random_state=None, item_start=0
@@ -63,7 +65,7 @@ def make_transactions(
 
     avg_transaction_size = density * n_items
 
-    generator = np.random.RandomState(random_state)  # pylint: disable= no-member
+    generator = _check_random_state(random_state)
 
     item_stop = item_start + n_items
     choices = np.arange(start=item_start, stop=item_stop)
-- 
2.43.0


From 191bfc5c809fe6c779e9d155f502cef5fcb735ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 57/83] fix: make_transactions accepts zero transactions
 (classes without sample)

---
 skmine/datasets/_samples_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 4ee8d8c..c5df04f 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -74,13 +74,13 @@ def make_transactions(
         p=0.5,  # centered around avg_transaction_size
         size=n_transactions,
     )
-    max_size = t_sizes.max()
+    max_size = t_sizes.max(initial=0)
     if max_size > n_items:
         delta = max_size - n_items
         t_sizes = np.clip(t_sizes, a_min=t_sizes.min() + delta, a_max=n_items)
 
     D = [generator.choice(choices, size, replace=False) for size in t_sizes]
-    return pd.Series(D)
+    return pd.Series(D, dtype=object)
 
 
 def make_classification(
-- 
2.43.0


From 44fa3b4ae4cfa7fc9da422991a1e499550a87034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 58/83] fix: make_classification generates n_samples samples
 whatever the weights

---
 skmine/datasets/_samples_generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index c5df04f..5401a93 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -150,11 +150,15 @@ def make_classification(
     assert 0 <= class_sep <= 1.0
     np.testing.assert_almost_equal(np.sum(weights), 1.0, decimal=2)
 
+    # number of samples per class, they sum up to n_samples
+    stops = np.rint(np.cumsum(weights) / np.sum(weights) * n_samples).astype(int)
+    sizes = np.diff(stops, prepend=0)
+
     res = dict()
 
     padding = 0
     for _class in range(n_classes):
-        _n_samples = int(weights[_class] * n_samples)
+        _n_samples = int(sizes[_class])
         density = densities[_class]
         transactions = make_transactions(
             n_transactions=_n_samples,
-- 
2.43.0


From a499f44c66f08cb37fe8b0070c9cb1f6b4458174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 59/83] fix: make_classification with shuffle is reproducible
 given random_state

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 5401a93..3e261fc 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -181,6 +181,6 @@ def make_classification(
     df = pd.concat(dfs, axis=0)
 
     if shuffle:
-        df = df.sample(frac=1)
+        df = df.sample(frac=1, random_state=random_state)
 
     return df["transaction"], df["class"]
-- 
2.43.0


From 97520b1be965163173402b3e28986466a100b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 60/83] fix: blank lines of FIMI files are empty transactions,
 repeated separators are no item

---
 skmine/datasets/fimi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index 2e4b5b5..c2531eb 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -45,7 +45,8 @@ def _read_dat(filepath, int_values=True, separator=' ', zip=False):
               f"deleted.")
         raise
 
-    transactions = [[int(item) if int_values else item for item in line.rstrip().split(separator)] for line in lines]
+    transactions = [[int(item) if int_values else item for item in line.rstrip().split(separator) if item]
+                    for line in lines]
 
     return transactions
 
-- 
2.43.0


From 2f878cb507c6ee267e56175639f2859be84d4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 61/83] fix: dataset loaders create the data_home they are
 given and expand ~, as for the default one

---
 skmine/datasets/fimi.py     | 2 +-
 skmine/datasets/periodic.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index c2531eb..1b6f35b 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -103,7 +103,7 @@ def fetch_any(filename, base_url=BASE_URL_FIMI, data_home=None):
         Transactions from the requested dataset,
         as an in-memory pandas Series
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     filepath = os.path.join(data_home, filename)
     name, _ = os.path.splitext(filename)
     if filename in os.listdir(data_home):  # already fetched
diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 52ccf74..084565e 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -83,7 +83,7 @@ def fetch_health_app(data_home=None, filename="health_app.csv"):
         System logs from the health app dataset, as an in-memory pandas Series.
         Events are indexed by timestamps.
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     p = os.path.join(data_home, filename)
     kwargs = dict(header=None, index_col=0, dtype="string")
     if filename in os.listdir(data_home):
@@ -139,7 +139,7 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
     -------
     skmine.datasets.get_data_home
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     p = os.path.join(data_home, filename)
     kwargs = dict(header=None, dtype="string", index_col=0)
 
@@ -187,7 +187,7 @@ def fetch_ubiq(user_filename="25_F_ISE_data.dat", data_home=None):  # pragma : n
     -------
     skmine.datasets.get_data_home
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     ubiq_dir = os.path.join(data_home, 'UbiqLog')
     user_ubiq_dir = os.path.join(ubiq_dir, 'users_ubiq')
     if not os.path.exists(ubiq_dir):
-- 
2.43.0


From 4400ba36abc4a444082e6d21dc1bd8151ca77803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 62/83] fix: loaders of event logs keep events named NA, null,
 None...

---
 skmine/datasets/periodic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 084565e..a0b6841 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -38,7 +38,8 @@ def fetch_file(filepath, separator=',', format=None):
         Logs from the custom dataset, as an in-memory pandas Series.
         Events are indexed by timestamps.
     """
-    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True).squeeze(axis="columns")
+    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True,
+                    keep_default_na=False).squeeze(axis="columns")
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
         try:
@@ -85,7 +86,7 @@ def fetch_health_app(data_home=None, filename="health_app.csv"):
     """
     data_home = get_data_home(data_home)
     p = os.path.join(data_home, filename)
-    kwargs = dict(header=None, index_col=0, dtype="string")
+    kwargs = dict(header=None, index_col=0, dtype="string", keep_default_na=False)
     if filename in os.listdir(data_home):
         s = pd.read_csv(p, **kwargs).squeeze(axis="columns")
     else:
@@ -141,7 +142,7 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
     """
     data_home = get_data_home(data_home)
     p = os.path.join(data_home, filename)
-    kwargs = dict(header=None, dtype="string", index_col=0)
+    kwargs = dict(header=None, dtype="string", index_col=0, keep_default_na=False)
 
     if filename not in os.listdir(data_home):
         s = pd.read_csv(canadianTV_url, **kwargs).squeeze(axis="columns")
@@ -235,7 +236,7 @@ def read_ubiq_user(filename: str) -> tuple:
        Events are indexed by timestamps, time unit used is second
     """
     sep = "\t"
-    df = pd.read_csv(filename, sep=sep, header=None, dtype="string")
+    df = pd.read_csv(filename, sep=sep, header=None, dtype="string", keep_default_na=False)
     user_info, start_time_str = df.loc[0]
     datetime_str = start_time_str.split('=')[1]
     user = user_info.split('=')[1]
-- 
2.43.0


From 7b66c7be5e259ba9fdaab2359b3cee70be85bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 63/83] fix: integer timestamps of event logs are read as
 integers, not as years

---
 skmine/datasets/periodic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index a0b6841..0876c28 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -42,10 +42,10 @@ def fetch_file(filepath, separator=',', format=None):
                     keep_default_na=False).squeeze(axis="columns")
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
-        try:
+        if format is None and s.index.str.fullmatch(r"[+-]?\d+").all():
+            s.index = s.index.astype("int64")  # integers, even if they look like years
+        else:
             s.index = pd.to_datetime(s.index, format=format)
-        except ValueError:
-            s.index = s.index.astype("int64")
     s.index.name = "timestamp"
     s.name = filepath
     return s
-- 
2.43.0


From 365a35ee2828ae8fd98198a8e66b1b3e32422715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 64/83] fix: read_ubiq_user reads the minutes that
 parse_all_user writes

---
 skmine/datasets/periodic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 0876c28..e6e0502 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -233,7 +233,7 @@ def read_ubiq_user(filename: str) -> tuple:
         (df, user, start_time)
         df is the returned pd.Series, user is 1_M for example and , start time is the first timestamp
        smartphone lifelogging event for the specified user
-       Events are indexed by timestamps, time unit used is second
+       Events are indexed by timestamps, time unit used is minute, as written by ``parse_all_user``
     """
     sep = "\t"
     df = pd.read_csv(filename, sep=sep, header=None, dtype="string", keep_default_na=False)
@@ -248,7 +248,7 @@ def read_ubiq_user(filename: str) -> tuple:
     if filename.endswith('_IS_data.dat'):
         df['time'] = df.index  # succession of events , index = 1 2 3 4 5 ....
     elif filename.endswith('_ISE_data.dat'):
-        df['time'] = df['diff_time'].apply(lambda x: start_time + timedelta(seconds=x))
+        df['time'] = df['diff_time'].apply(lambda x: start_time + timedelta(minutes=x))
     else:
         raise ValueError("cant parse such files")
     df = df[['time', 'event']]
-- 
2.43.0


From ac36ef54dd45896abe099b0df7b0d13a9a45a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:52 +0000
Subject: [PATCH 65/83] fix: make_classification accepts classes without sample

---
 skmine/datasets/_samples_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 3e261fc..3be2a80 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -174,6 +174,8 @@ def make_classification(
 
     dfs = list()
     for _class, transactions in res.items():
+        if transactions.empty:  # no sample in this class
+            continue
         df = transactions.to_frame(name="transaction")
         df.loc[:, "class"] = _class
         dfs.append(df)
-- 
2.43.0


From 9fb299054e0c558562c8c6a951570504495c3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:13 +0000
Subject: [PATCH 66/83] fix: describe_logs accepts logs indexed by dates
 whatever the number of events

---
 skmine/datasets/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/utils.py b/skmine/datasets/utils.py
index 628609f..ad8c35a 100644
--- a/skmine/datasets/utils.py
+++ b/skmine/datasets/utils.py
@@ -71,6 +71,6 @@ def describe_logs(D):
 
     return dict(
         n_events=len(gb),
-        avg_delta_per_event=a.str[0].mean(),
+        avg_delta_per_event=a.str[0].infer_objects().mean(),
         avg_nb_points_per_event=avg_nb_points,
     )
-- 
2.43.0


From 7d6c1dbd177963bdd68094e040ca00a356039b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:54 +0000
Subject: [PATCH 67/83] fix: a minimum support which is not a number is refused

---
 skmine/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 7e1ac89..8516b58 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -30,7 +30,7 @@ def _check_min_supp(min_supp, accept_absolute=True) -> None:
         if min_supp < 1:
             raise ValueError("Minimum support must be strictly positive")
     elif isinstance(min_supp, float):
-        if min_supp < 0 or min_supp > 1:
+        if not 0 <= min_supp <= 1:
             raise ValueError("Minimum support must be between 0 and 1")
     else:
         raise TypeError("Mimimum support must be of type int or float")
-- 
2.43.0


From cc4f9310d536b6c6a915638d92e9a74e548c0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:54 +0000
Subject: [PATCH 68/83] fix: intersect2d compares whole rows, not one row per
 value of the first column

---
 skmine/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 8516b58..5001ad9 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -180,13 +180,15 @@ def intersect2d(ar1, ar2, return_indices=True):
     """
     ar1, ar2 = np.asanyarray(ar1), np.asanyarray(ar2)
     assert ar1.ndim == ar2.ndim == 2
-    _, x_ind, y_ind = np.intersect1d(ar1[:, 0], ar2[:, 0], return_indices=True)
-    x, y = ar1[x_ind], ar2[y_ind]
-    xy_where = np.argwhere((x == y).all(axis=1)).reshape(-1)
-    x_ind = x_ind[xy_where]
+    x, x_ind = np.unique(ar1, axis=0, return_index=True)
+    y, y_ind = np.unique(ar2, axis=0, return_index=True)
+    # rows are compared as a whole: several rows can share their first values
+    _, ids = np.unique(np.concatenate([x, y]), axis=0, return_inverse=True)
+    _, x_where, y_where = np.intersect1d(ids[:len(x)], ids[len(x):], return_indices=True)
+    x_ind = x_ind[x_where]
 
     if return_indices:
-        y_ind = y_ind[xy_where]
+        y_ind = y_ind[y_where]
         return ar1[x_ind], x_ind, y_ind
     else:
         return ar1[x_ind]
-- 
2.43.0


From f281d7546f921e7aefeb448685012a26b295b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:54 +0000
Subject: [PATCH 69/83] fix: bron_kerbosch does not empty the mapping given by
 the caller

---
 skmine/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/utils.py b/skmine/utils.py
index 5001ad9..50de910 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -331,6 +331,7 @@ def bron_kerbosch(candidates: dict, clique=None, excluded=None, depth=0):
     if depth > 20:
         return None
 
+    candidates = dict(candidates)  # the mapping of the caller is left untouched
     for node, neighbours in list(candidates.items()):
         new_clique = {**{node: neighbours}, **clique}
         new_candidates = {k: v for k, v in candidates.items() if k in neighbours}
-- 
2.43.0


From 489e2e6e267b3678a63bd2554c5ee730fd19ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:54 +0000
Subject: [PATCH 70/83] fix: refusing data with missing values leaves the
 options of pandas as they were

---
 skmine/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 50de910..2c4da83 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -114,10 +114,10 @@ def _check_D_sklearn(D):
     if D.shape[1] == 0:  # SKLEARN : check_empty_data_messages
         raise ValueError("Empty data")
 
-    pd.options.mode.use_inf_as_na = True
-    if D.isnull().values.any():
+    with pd.option_context("mode.use_inf_as_na", True):  # restored even if D is refused
+        has_missing = D.isnull().values.any()
+    if has_missing:
         raise ValueError("esimator does not check for NaN and inf")
-    pd.options.mode.use_inf_as_na = False
 
 
 def _check_D(D):
-- 
2.43.0


From da50180d2774cd1ff9354609bbb872a55d57ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:43 +0000
Subject: [PATCH 71/83] fix: a fitted GraphMDL can be pickled

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 36f35d7..2c5f6bd 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -830,7 +830,7 @@ class CodeTable:
         """
         edge_singleton_usage = defaultdict(int)
         vertex_singleton_usage = defaultdict(int)
-        singleton_used_embeddings = defaultdict(lambda: [])
+        singleton_used_embeddings = defaultdict(list)
         # for edge label
         for edge in graph.edges(data=True):
             if not self.is_edge_marked(edge[0], edge[1], graph, cover_marker, edge[2]['label']):
-- 
2.43.0


From f8e27bbf1e43adc365fe11afab0d76b9dfaa030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:43 +0000
Subject: [PATCH 72/83] fix: SLIMVectorizer gives all its parameters, cloning
 it does not lose max_time and items

---
 skmine/feature_extraction/slim_vectorizer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index e622ef4..e9805d0 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -45,6 +45,11 @@ class SLIMVectorizer(SLIM):
     stop_items: iterable, default=None
         Set of items to filter out while ingesting the input data.
 
+    max_time: int, default=-1
+        Same as in :class:`skmine.itemsets.SLIM`.
+
+    items: set, default=None
+        Same as in :class:`skmine.itemsets.SLIM`.
 
     Examples
     --------
@@ -70,10 +75,9 @@ class SLIMVectorizer(SLIM):
     patterns should output matrices with very few zeros.
     """
 
-    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, **kwargs):
-        super().__init__(**kwargs)
+    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, max_time=-1, items=None):
+        super().__init__(pruning=pruning, max_time=max_time, items=items)
         self.k = k
-        self.pruning = pruning
         self.stop_items = stop_items
         if strategy not in STRATEGIES:
             raise ValueError(f"strategy must be one of {STRATEGIES}")
-- 
2.43.0


From 8f5f6c672575de3e0c972ebc6810b30c96b2113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:43 +0000
Subject: [PATCH 73/83] fix: copying a SLIM or a SLIMVectorizer keeps its type
 and all its parameters

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index e2f482e..cc36f6e 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -781,4 +781,4 @@ class SLIM(BaseEstimator, TransformerMixin):
         return CTc, data_size, model_size
 
     def __copy__(self):
-        return SLIM(items=self.items, pruning=self.pruning)
+        return type(self)(**self.get_params(deep=False))
-- 
2.43.0


From 0399b159050019e218358d3e0c213456131bca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:43 +0000
Subject: [PATCH 74/83] fix: a fitted SLIM, SlimClassifier or SLIMVectorizer
 can be pickled and deep copied

---
 skmine/itemsets/slim.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index cc36f6e..6d1a03b 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -780,5 +780,18 @@ class SLIM(BaseEstimator, TransformerMixin):
 
         return CTc, data_size, model_size
 
+    def __getstate__(self):
+        state = dict(super().__getstate__())
+        if "codetable_" in state:  # sorted by a method of self, which needs the rest of the state
+            state["codetable_"] = list(state["codetable_"].items())
+        return state
+
+    def __setstate__(self, state):
+        state = dict(state)
+        codetable = state.pop("codetable_", None)
+        super().__setstate__(state)
+        if codetable is not None:
+            self.codetable_ = SortedDict(self._standard_cover_order, codetable)
+
     def __copy__(self):
         return type(self)(**self.get_params(deep=False))
-- 
2.43.0


From 26dde03cebb5069e783fab6dcb850caacfd5f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:39 +0000
Subject: [PATCH 75/83] fix: data are checked without changing the options of
 pandas, seen by other threads

---
 skmine/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 2c4da83..1737e06 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -114,9 +114,7 @@ def _check_D_sklearn(D):
     if D.shape[1] == 0:  # SKLEARN : check_empty_data_messages
         raise ValueError("Empty data")
 
-    with pd.option_context("mode.use_inf_as_na", True):  # restored even if D is refused
-        has_missing = D.isnull().values.any()
-    if has_missing:
+    if D.isnull().values.any() or D.isin([np.inf, -np.inf]).values.any():
         raise ValueError("esimator does not check for NaN and inf")
 
 
-- 
2.43.0


From 6cc1f17358fc63c97bdbab2f3b7af09d2adda914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:52 +0000
Subject: [PATCH 76/83] fix: PeriodicPatternMiner reads dates of any resolution
 as nano-seconds

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 5f9e784..4b98e5d 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -130,7 +130,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             if diff:
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
-        S_times_nano = serie.index.astype("int64")
+        S_times_nano = serie.index.astype("datetime64[ns]") if self.is_datetime_ and not serie.index.tz else serie.index
+        S_times_nano = S_times_nano.astype("int64")
         verbose = False
         if self.auto_time_scale:
             converted_times_res, n_digit_nano_shifted, resolution, div_nb_sec = autoscale_time_unit(S_times_nano,
-- 
2.43.0


From 60458f23924a337a03dd9247bcfb5d9f5e95ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:20 +0000
Subject: [PATCH 77/83] fix: PeriodicPatternMiner.draw_pattern no longer draws
 the patterns of a previous fit

---
 skmine/periodic/cycles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 4b98e5d..32bfb5f 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -159,6 +159,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         self.data_details_ = data_details
         self.miners_ = pc
+        self.cycles = None  # no longer those of a previous fit
         # self.cl, self.clRonly, self.clR, self.nb_simple, self.nbR, self.nbC = self.miners_.strDetailed(
         #     self.data_details_)
         return self
@@ -294,6 +295,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         patterns_collection = PatternCollection(patterns=patterns_list)
         self.miners_ = patterns_collection
+        self.cycles = None  # no longer those of a previous fit
 
     def reconstruct(self, *patterns_id, sort="time", drop_duplicates=None):
         """Reconstruct all the occurrences from patterns (no argument), or the
-- 
2.43.0


From 111f8137810c0b1dbdb4d27ece377ea8598f2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:54 +0000
Subject: [PATCH 78/83] fix: chains extracted from long sequences had positions
 relative to their block

---
 skmine/periodic/extract_cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/extract_cycles.py b/skmine/periodic/extract_cycles.py
index 3aa0302..23f2807 100644
--- a/skmine/periodic/extract_cycles.py
+++ b/skmine/periodic/extract_cycles.py
@@ -325,7 +325,8 @@ def extract_cycles_fold_sub(occs, alpha, data_details, bound_dE, eff_trip, eff_c
             data_details, {"p": prd, "alpha": alpha, "occs": occs_chain})
         if (eff_chain < 0 and cost < (-eff_chain) * (len(occs_chain) - 1)) or (cost / len(occs_chain) < eff_chain):
             chains.append({"alpha": alpha, "p": prd, "cost": cost,
-                           "pos": current, "occs": occs_chain, "uncov": set(current)})
+                           "pos": [c + offset for c in current], "occs": occs_chain,
+                           "uncov": {c + offset for c in current}})
 
     triples = [(v[0], v[1], v[-1], (v[-2] + offset, k[0] + offset, k[1] + offset)) for (k, v)
                in triples_tmp.items() if (eff_trip < 0 and v[-1] < -2 * eff_trip) or (v[-1] / 3. < eff_trip)]
-- 
2.43.0


From 9dea702ef82331da902f84ddcfa87252b5fea1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 79/83] fix: SLIM prunes itemsets of equal usage in a fixed
 order, whatever the hash seed

---
 skmine/itemsets/slim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 6d1a03b..d5b4aa5 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -759,8 +759,9 @@ class SLIM(BaseEstimator, TransformerMixin):
                     prune_set.add(iset)
 
         while prune_set:
-            cand = min(prune_set, key=lambda e: len(CTc[e]))  # select the element of decreased with the
-            # lowest usage in CTc
+            # select the element of decreased with the lowest usage in CTc, the first in cover order in case of ties,
+            # so that the result does not depend on the order of iteration of the set
+            cand = min(prune_set, key=lambda e: (len(CTc[e]), self._standard_cover_order(e)))
             prune_set.discard(cand)  # remove cand from prune_set
 
             ct = list(CTc)
-- 
2.43.0


From 1b2612586063fb3f970e247842a3ce46f340e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:49 +0000
Subject: [PATCH 80/83] fix: reading the table of periodic patterns no longer
 adds foreign entries to their trees

---
 skmine/periodic/pattern_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/pattern_collection.py b/skmine/periodic/pattern_collection.py
index e3f2bcb..e232046 100644
--- a/skmine/periodic/pattern_collection.py
+++ b/skmine/periodic/pattern_collection.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from .class_patterns import cost_one
@@ -212,7 +214,7 @@ class PatternCollection(object):
                     map_ev=map_ev, leaves_first=True), clp, np.sum(np.abs(E)), len(ocls[pi]), len(set(ocls[pi])),
                     p.getTypeStr())
 
-            pattern_tree = p.nodes
+            pattern_tree = copy.deepcopy(p.nodes)  # the pattern itself is left as it is
             pattern_tree["next_id"] = p.next_id
             pattern_tree["t0"] = int(t0)
             pattern_tree["E"] = [int(e) for e in E]
-- 
2.43.0


From 6f91b16f0c2dbc883fe542c7a570f7bda4d04f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:56 +0000
Subject: [PATCH 81/83] fix: LCM writes its intermediate files in a temporary
 directory of its own

The fixed relative name TEMP_dir was shared by all miners running in one
directory, deleted any directory of the user with that name, and was looked up
by reused workers in the directory they had been started in.
---
 skmine/itemsets/lcm.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 1ea5082..650e719 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -12,7 +12,7 @@ as described in `http://lig-membres.imag.fr/termier/HLCM/hlcm.pdf`
 # License: BSD 3 clause
 
 import os
-import shutil
+import tempfile
 from collections import defaultdict
 from itertools import takewhile
 
@@ -165,7 +165,7 @@ class LCM(TransformerMixin, BaseEstimator):
         out : str, default=None
             File where results are written. Discover return None. The 'out' option is usefull 
             to save memory : Instead of store all branch of lcm-tree in memory , each root 
-            branch of lcm is written in a separated file in dir (TEMP_dir), and all files are
+            branch of lcm is written in a separated file in a temporary dir, and all files are
             concatenated in the final 'out' file.
 
         Returns
@@ -219,24 +219,20 @@ class LCM(TransformerMixin, BaseEstimator):
             return df
 
         else:  # store results in files
-            temp_dir = 'TEMP_dir'  # temporary dir where root items branch files are written
-            if os.path.exists(temp_dir):  # remove dir TEMP_dir if it exists
-                shutil.rmtree(temp_dir)
-            os.mkdir(temp_dir)  # create dir TEMP_dir
-
-            Parallel(n_jobs=self.n_jobs, prefer="processes")(
-                delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
-                for k, (item, tids) in enumerate(list(self.item_to_tids_.items())))
-
-            with open(self.out_,
-                      'w') as outfile:  # concatenate all itemsroot files located in temp_dir in a single file
-                for fname in [f"{temp_dir}/root{k}.dat" for k in
-                              range(len(list(self.item_to_tids_.items())))]:  # all items root files
-                    with open(fname) as infile:
-                        for line in infile:
-                            if line.strip():  # to skip empty lines
-                                outfile.write(line)
-            shutil.rmtree(temp_dir)  # remove the temporary dir where root files are written
+            # temporary dir of its own where root items branch files are written, whatever the working dir of the workers
+            with tempfile.TemporaryDirectory() as temp_dir:
+                Parallel(n_jobs=self.n_jobs, prefer="processes")(
+                    delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
+                    for k, (item, tids) in enumerate(list(self.item_to_tids_.items())))
+
+                with open(self.out_,
+                          'w') as outfile:  # concatenate all itemsroot files located in temp_dir in a single file
+                    for fname in [f"{temp_dir}/root{k}.dat" for k in
+                                  range(len(list(self.item_to_tids_.items())))]:  # all items root files
+                        with open(fname) as infile:
+                            for line in infile:
+                                if line.strip():  # to skip empty lines
+                                    outfile.write(line)
 
             return None
 
-- 
2.43.0


From 041622d4fb9a93ed160ae55246f19fe62e8c01e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:45 +0000
Subject: [PATCH 82/83] fix: a pattern vertex whose labels are a tuple of one
 label matches a vertex with this label

---
 skmine/graph/graphmdl/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 02b817b..5d027f8 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -295,7 +295,7 @@ def _node_match(node1, node2):
             for i in node2['label']:
                 res.append(i in node1['label'])
         else:
-            res.append(False)
+            res.append(all(i == node1['label'] for i in node2['label']))
 
         return not (False in res)
     elif 'label' not in node1 and 'label' in node2:
-- 
2.43.0


From 6e922a3bd4c258473c107ad2333320d4262f20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:47 +0000
Subject: [PATCH 83/83] fix: automorphisms of multigraphs preserve edge labels

---
 skmine/graph/graphmdl/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 5d027f8..2aecea1 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -710,7 +710,7 @@ def get_automorphisms(graph):
     """
     opt = {
         'node_match': _node_match,
-        'edge_match': _edge_match
+        'edge_match': _edge_match_for_multigraph if graph.is_multigraph() else _edge_match
     }
     graph_matcher = None
     # Create matcher according the graph type (directed or no)
-- 
2.43.0

