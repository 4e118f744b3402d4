From 1d89003cfe9e7d0761d13cd3a53bf6f5b8dfec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 01/46] fix: don't pad results with item 0 when N exceeds the
 number of items

topk returned uninitialised (0, 0.0) slots when asked for more results than
there are items to choose from. Return only as many results as there are
items, and handle the narrower results when calculating ranking metrics
(which counted the padding as hits, giving a precision > 1).
---
 implicit/cpu/topk.pyx   | 3 +++
 implicit/evaluation.pyx | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 05dca11..5108730 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -16,6 +16,9 @@ def topk(items, query, int k, item_norms=None, filter_query_items=None, filter_i
     if len(query.shape) == 1:
         query = query.reshape((1, len(query)))
 
+    # can't return more results than there are items to choose from
+    k = min(k, <int> items.shape[0])
+
     cdef int query_rows = query.shape[0]
     indices = np.zeros((query_rows, k), dtype="int32")
     distances = np.zeros((query_rows, k), dtype=query.dtype)
diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index bd59040..bb721aa 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -450,7 +450,7 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                 num_pos_items = likes.size()
                 num_neg_items = items - num_pos_items
 
-                for i in range(K):
+                for i in range(min(K, <int> ids.shape[1])):
                     if likes.find(ids[batch_idx, i]) != likes.end():
                         relevant += 1
                         hit += 1
-- 
2.43.0


From 0638c9ec06c99756bafab7ce5202c367f5062477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 02/46] fix: AUC_at_k could be negative when a model returns
 fewer than K items

Slots that a model couldn't fill were all counted as misses, even when there
are fewer negative items than empty slots.
---
 implicit/evaluation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index bb721aa..102110d 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -456,7 +456,7 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                         hit += 1
                         ap += hit / (i + 1)
                         ndcg += cg[i] / idcg
-                    else:
+                    elif miss < num_neg_items:
                         miss += 1
                         auc += hit
                 auc += ((hit + num_pos_items) / 2.0) * (num_neg_items - miss)
-- 
2.43.0


From 52fd764477f5b38d16ea3a699a4d0a174b008aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 03/46] fix: accept a RandomState object as random_state

RandomState has no rand_int method, so this always raised an AttributeError.
---
 implicit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index 4e86ee7..bdf8468 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -76,7 +76,7 @@ def check_random_state(random_state):
     """
     # backwards compatibility
     if isinstance(random_state, np.random.RandomState):
-        return np.random.default_rng(random_state.rand_int(2**31))
+        return np.random.default_rng(random_state.randint(2**31))
 
     # otherwise try to initialize a new one, and let it fail through
     # on the numpy side if it doesn't work
-- 
2.43.0


From 5ab55eda1802b7532c309b5dcf67aafd7ae8642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:51 +0000
Subject: [PATCH 04/46] fix: models with a RandomState or Generator
 random_state save to a loadable file

The random state object was pickled inside the npz file, which then could
never be loaded since load uses allow_pickle=False.
---
 implicit/cpu/als.py  | 4 ++--
 implicit/cpu/bpr.pyx | 4 ++--
 implicit/cpu/lmf.pyx | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 1ec7a91..4139cf8 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -470,9 +470,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             "random_state": self.random_state,
             "alpha": self.alpha,
         }
-        # filter out 'None' valued args, since we can't go np.load on
+        # filter out args like None or random state objects, since we can't go np.load on
         # them without using pickle
-        args = {k: v for k, v in args.items() if v is not None}
+        args = {k: v for k, v in args.items() if np.asarray(v).dtype != object}
         np.savez(fileobj_or_path, **args)
 
 
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 16dd2a6..8a13819 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -238,9 +238,9 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
             random_state=self.random_state
         )
 
-        # filter out 'None' valued args, since we can't go np.load on
+        # filter out args like None or random state objects, since we can't go np.load on
         # them without using pickle
-        args = {k:v for k,v in args.items() if v is not None}
+        args = {k: v for k, v in args.items() if np.asarray(v).dtype != object}
         np.savez(fileobj_or_path, **args)
 
 
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 7349470..cbde35d 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -211,9 +211,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             dtype=self.dtype.name,
             random_state=self.random_state)
 
-        # filter out 'None' valued args, since we can't go np.load on
+        # filter out args like None or random state objects, since we can't go np.load on
         # them without using pickle
-        args = {k:v for k,v in args.items() if v is not None}
+        args = {k: v for k, v in args.items() if np.asarray(v).dtype != object}
         np.savez(fileobj_or_path, **args)
 
 
-- 
2.43.0


From 3b640193ca6c34e3969dbdee77ebedb2669458a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:51 +0000
Subject: [PATCH 05/46] fix: item-item recommend returned liked items and more
 than N results

Items already liked were only given a score of 0, which meant that they were
still returned when there weren't N other items with a positive score. Calls
with filter_items or items could return more than N results.
---
 implicit/nearest_neighbours.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d33717d..407661e 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -71,26 +71,34 @@ class ItemItemRecommender(RecommenderBase):
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
+        # get enough results to still have N left after filtering
+        count = N
+        if filter_already_liked_items:
+            count += user_items.nnz
         if filter_items is not None:
-            N += len(filter_items)
+            count += len(filter_items)
         elif items is not None:
             items = np.array(items)
-            N = self.similarity.shape[0]
+            count = self.similarity.shape[0]
             # check if items contains itemids that are not in the model(user_items)
-            if items.max() >= N or items.min() < 0:
+            if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
             user_items.data,
-            K=N,
+            K=count,
             remove_own_likes=filter_already_liked_items,
         )
 
+        if filter_already_liked_items:
+            mask = np.in1d(ids, user_items.indices, invert=True)
+            ids, scores = ids[mask], scores[mask]
+
         if filter_items is not None:
             mask = np.in1d(ids, filter_items, invert=True)
-            ids, scores = ids[mask][:N], scores[mask][:N]
+            ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
             mask = np.in1d(ids, items)
@@ -102,7 +110,7 @@ class ItemItemRecommender(RecommenderBase):
                 ids = np.append(ids, missing)
                 scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))
 
-        return ids, scores
+        return ids[:N], scores[:N]
 
     def similar_users(self, userid, N=10, filter_users=None, users=None):
         raise NotImplementedError("similar_users isn't implemented for item-item recommenders")
-- 
2.43.0


From 4efb9e0ae54134b0b857ba20b060b4b3d9490b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:51 +0000
Subject: [PATCH 06/46] fix: item-item similar_items with a list of items

Passing items as a list raised a TypeError, and items that aren't in the
model weren't rejected.
---
 implicit/nearest_neighbours.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 407661e..a04fe79 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -140,6 +140,10 @@ class ItemItemRecommender(RecommenderBase):
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
+            items = np.array(items)
+            if items.max() >= self.similarity.shape[0] or items.min() < 0:
+                raise IndexError("Some of selected itemids are not in the model")
+
             mask = np.in1d(ids, items)
             ids, scores = ids[mask], scores[mask]
 
-- 
2.43.0


From 146bfa0aa5d617011cbdeeaafa66aada4ef3d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:51 +0000
Subject: [PATCH 07/46] fix: keep all hyper-parameters when saving item-item
 models

K1 and B of the BM25Recommender and num_threads were lost, and K was loaded
as an array instead of an int.
---
 implicit/nearest_neighbours.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index a04fe79..cd90a62 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -170,7 +170,9 @@ class ItemItemRecommender(RecommenderBase):
             self.scorer = None
 
     def save(self, fileobj_or_path):
-        args = {"K": self.K}
+        args = {
+            k: getattr(self, k) for k in ("K", "K1", "B", "num_threads") if hasattr(self, k)
+        }
         m = self.similarity
         if m is not None:
             args.update(
@@ -192,7 +194,9 @@ class ItemItemRecommender(RecommenderBase):
                 )
                 ret.similarity = similarity
                 ret.scorer = NearestNeighboursScorer(similarity)
-            ret.K = data["K"]
+            for k in ("K", "K1", "B", "num_threads"):
+                if k in data:
+                    setattr(ret, k, data[k].item())
             return ret
 
 
-- 
2.43.0


From 7febb1f0c0c1075d3634db01bbbae14c964b0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 08/46] fix: stale norms and gram matrices after training

LogisticMatrixFactorization.fit never invalidated the cached norms, so
similar_items and similar_users were wrong after fitting the model again.
Values cached by queries made in a fit callback survived the following
iterations for all matrix factorization models.
---
 implicit/cpu/als.py  | 3 +++
 implicit/cpu/bpr.pyx | 2 ++
 implicit/cpu/lmf.pyx | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 4139cf8..7d394f8 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -160,6 +160,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             # alternate between learning the user_factors from the item_factors and vice-versa
             for iteration in range(self.iterations):
                 s = time.time()
+                # a callback could have cached values for the factors of the last iteration
+                self._item_norms = self._user_norms = None
+                self._YtY = self._XtX = None
                 solver(
                     Cui,
                     self.user_factors,
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 8a13819..9b2a501 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -190,6 +190,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for epoch in range(self.iterations):
                 s = time.time()
+                # a callback could have cached the norms of the last epoch
+                self._user_norms = self._item_norms = None
                 correct, skipped = bpr_update(rng, userids, user_items.indices, user_items.indptr,
                                               self.user_factors, self.item_factors,
                                               self.learning_rate, self.regularization, num_threads,
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index cbde35d..37cb21b 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -164,6 +164,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        # invalidate cached norms
+        self._user_norms = self._item_norms = None
+
         # For Adagrad update
         user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
         item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
@@ -180,6 +183,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for epoch in range(self.iterations):
                 s = time.time()
+                # a callback could have cached the norms of the last epoch
+                self._user_norms = self._item_norms = None
                 # user update
                 lmf_update(rng, user_vec_deriv_sum,
                            self.user_factors, self.item_factors,
-- 
2.43.0


From 94a1e007f6e79144114943ef2df512b34dfe33fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 09/46] fix: leave_k_out_split with ineligible users and
 reproducible splits

When some users had too few ratings to be eligible, ratings of other users
were selected several times and their values summed in the test set. Users
without any ratings also meant that less than train_only_size users were
reserved for training, and the random_state parameter wasn't used when
selecting the ratings to hold out.
---
 implicit/evaluation.pyx | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 102110d..11028c9 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -74,7 +74,7 @@ cdef _choose(rng, int n, float frac):
     return arr
 
 
-cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
+cdef _take_tails(arr, int n, return_complement=False, shuffled=False, rng=None):
     """
     Given an array of (optionally shuffled) integers in the range 0->n, take the indices
     of the last 'n' occurrences of each integer (tail) -- subject to shuffling.
@@ -94,10 +94,7 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     Parameters
     ----------
     arr: ndarray
-        The input array. This should be an array of integers in the range 0->n, where
-        the ordered unique set of integers in said array should produce an array of
-        consecutive integers. Concretely, the array [1, 0, 1, 1, 0, 3] would be invalid,
-        but the array [1, 0, 1, 1, 0, 2] would not be.
+        The input array. This should be an array of integers in the range 0->n.
     n: int
         The number of elements in the tail to take. Note that no checks are made to
         ensure that this value is correct (i.e. that a given integer occurs > n times in
@@ -108,6 +105,8 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     shuffled: bool
         Optionally indicate whether you wish the dataset to be shuffled. This will act
         to randomise the 'tails' selected.
+    rng: Generator
+        The random number generator used for shuffling
 
     Returns
     -------
@@ -120,12 +119,12 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     idx = arr.argsort()
     sorted_arr = arr[idx]
 
-    end = np.bincount(sorted_arr).cumsum() - 1
+    end = np.unique(sorted_arr, return_counts=True)[1].cumsum() - 1
     start = end - n
     ranges = np.linspace(start, end, num=n + 1, dtype=int)[1:]
 
     if shuffled:
-        shuffled_idx = (sorted_arr + np.random.random(arr.shape)).argsort()
+        shuffled_idx = (sorted_arr + rng.random(arr.shape)).argsort()
         tails = shuffled_idx[np.ravel(ranges, order="f")]
     else:
         tails = np.ravel(ranges, order="f")
@@ -188,9 +187,8 @@ cpdef leave_k_out_split(
 
     # keep a given subset of users _only_ in the training set.
     if train_only_size > 0.0:
-        train_only_mask = ~np.isin(
-            unique_users, _choose(random_state, len(unique_users), train_only_size)
-        )
+        train_only = _choose(random_state, len(unique_users), train_only_size)
+        train_only_mask = ~np.isin(unique_users, unique_users[train_only])
         candidate_mask = train_only_mask & candidate_mask
 
     # get unique users who appear in the test set
@@ -204,7 +202,7 @@ cpdef leave_k_out_split(
     candidate_data = data[full_candidate_mask]
 
     test_idx, train_idx = _take_tails(
-        candidate_users, K, shuffled=True, return_complement=True
+        candidate_users, K, shuffled=True, return_complement=True, rng=random_state
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From 2ed013ceb1cf4bc905bff5bc2a09382d7d339b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 10/46] fix: FaissModel.similar_items modified the item factors
 of the model

A single item query normalized a view on the stored item_factors in place,
and divided by zero for items without factors.
---
 implicit/ann/faiss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 8fcb356..0ca2f76 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -161,11 +161,12 @@ class FaissModel(RecommenderBase):
             if implicit.gpu.HAS_CUDA and isinstance(factors, implicit.gpu.Matrix):
                 factors = factors.to_numpy()
 
+        # note: don't normalize in place here, factors can be a view on the model factors
+        norms = np.linalg.norm(factors, axis=-1, keepdims=True)
+        norms[norms == 0] = 1e-10
+        factors = factors / norms
         if np.isscalar(itemid):
-            factors /= np.linalg.norm(factors)
             factors = factors.reshape(1, -1)
-        else:
-            factors /= np.linalg.norm(factors, axis=1)[:, None]
 
         scores, ids = self.similar_items_index.search(factors.astype("float32"), count)
 
-- 
2.43.0


From 4af2b90713a63a406b0766a8f84884a6b70fdf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 11/46] fix: FaissModel.recommend with
 approximate_recommend=False

warnings.warning doesn't exist, so this always failed with an AttributeError.
---
 implicit/ann/faiss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 0ca2f76..ae7dfc7 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -211,7 +211,7 @@ class FaissModel(RecommenderBase):
             )
 
         if not self.approximate_recommend:
-            warnings.warning("Calling recommend on a FaissModel with approximate_recommend=False")
+            warnings.warn("Calling recommend on a FaissModel with approximate_recommend=False")
             return self.model.recommend(
                 userid,
                 user_items,
-- 
2.43.0


From d219fc15c8cfe6b1c2bb095ea12fffea5a77372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 12/46] fix: ANN recommend with an array of filter_items

Taking the truth value of the array raised a ValueError (or ignored the
filter for an array just containing item 0).
---
 implicit/ann/annoy.py  | 2 +-
 implicit/ann/faiss.py  | 2 +-
 implicit/ann/nmslib.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 87d1c44..d5a5112 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -205,7 +205,7 @@ class AnnoyModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index ae7dfc7..0a262c2 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -237,7 +237,7 @@ class FaissModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 320e9fd..26b2a21 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -213,7 +213,7 @@ class NMSLibModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
-- 
2.43.0


From 2bacb43134e7ac5720c96747879be316a273af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 13/46] fix: AnnoyModel.similar_items returned less than N
 items with filter_items

---
 implicit/ann/annoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index d5a5112..dae3011 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -139,7 +139,7 @@ class AnnoyModel(RecommenderBase):
             factor = factor.squeeze()
 
         ids, scores = self.similar_items_index.get_nns_by_vector(
-            factor, N, search_k=self.search_k, include_distances=True
+            factor, count, search_k=self.search_k, include_distances=True
         )
         ids, scores = np.array(ids), np.array(scores)
 
-- 
2.43.0


From 18862949f88e27d9c49787978bcf1975bf669c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 14/46] fix: batch ANN queries with filter_items leaving less
 than N results

This failed with a shape mismatch, or repeated a single remaining result.
---
 implicit/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index bdf8468..9ed284a 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -142,12 +142,13 @@ def _filter_items_from_results(queryid, ids, scores, filter_items, N):
         ids, scores = ids[mask][:N], scores[mask][:N]
     else:
         rows = len(queryid)
-        filtered_scores = np.zeros((rows, N), dtype=scores.dtype)
-        filtered_ids = np.zeros((rows, N), dtype=ids.dtype)
+        filtered_scores = np.full((rows, N), -np.finfo(scores.dtype).max, dtype=scores.dtype)
+        filtered_ids = np.full((rows, N), -1, dtype=ids.dtype)
         for row in range(rows):
             mask = np.in1d(ids[row], filter_items, invert=True)
-            filtered_ids[row] = ids[row][mask][:N]
-            filtered_scores[row] = scores[row][mask][:N]
+            row_ids, row_scores = ids[row][mask][:N], scores[row][mask][:N]
+            filtered_ids[row, : len(row_ids)] = row_ids
+            filtered_scores[row, : len(row_ids)] = row_scores
         ids, scores = filtered_ids, filtered_scores
     return ids, scores
 
-- 
2.43.0


From 3f8341d30dc7324e9c158a093450e56b59ea9219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 15/46] fix: recommend_all with users_items_offset

The padded matrix has more rows than there are userids, which always made
recommend fail with a ValueError.
---
 implicit/cpu/matrix_factorization_base.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index dcd37fa..3647634 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -2,7 +2,7 @@
 import warnings
 
 import numpy as np
-from scipy.sparse import csr_matrix, lil_matrix
+from scipy.sparse import csr_matrix
 
 from ..recommender_base import ModelFitError, RecommenderBase
 from .topk import topk
@@ -109,14 +109,6 @@ class MatrixFactorizationBase(RecommenderBase):
         )
 
         userids = np.arange(user_items.shape[0]) + users_items_offset
-        if users_items_offset:
-            adjusted = lil_matrix(
-                (user_items.shape[0] + users_items_offset, user_items.shape[1]),
-                dtype=user_items.dtype,
-            )
-            adjusted[users_items_offset:] = user_items
-            user_items = adjusted.tocsr()
-
         ids, _ = self.recommend(
             userids,
             user_items,
-- 
2.43.0


From 34480ae2a246dc2457033cb66cba74db3e52f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 16/46] fix: repeated ids in the items parameter

Repeated ids were returned several times, and only one of them was removed
if the item was already liked by the user.
---
 implicit/cpu/matrix_factorization_base.py | 9 ++++-----
 implicit/nearest_neighbours.py            | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 3647634..e0d2ade 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -55,12 +55,11 @@ class MatrixFactorizationBase(RecommenderBase):
         # if we have an item list to restrict down to, we need to filter the item_factors
         # and filter_query_items
         if items is not None:
-            N = min(N, len(items))
             if filter_items:
                 raise ValueError("Can't set both items and filter_items in recommend call")
 
-            items = np.array(items)
-            items.sort()
+            items = np.unique(items)
+            N = min(N, len(items))
             item_factors = item_factors[items]
 
             # check selected items are in the model
@@ -147,7 +146,7 @@ class MatrixFactorizationBase(RecommenderBase):
             if filter_users:
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
-            users = np.array(users)
+            users = np.unique(users)
             user_factors = user_factors[users]
             norms = norms[users]
 
@@ -188,7 +187,7 @@ class MatrixFactorizationBase(RecommenderBase):
             if filter_items:
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
-            items = np.array(items)
+            items = np.unique(items)
             factors = factors[items]
             norms = norms[items]
 
diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index cd90a62..9859ba1 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -78,7 +78,7 @@ class ItemItemRecommender(RecommenderBase):
         if filter_items is not None:
             count += len(filter_items)
         elif items is not None:
-            items = np.array(items)
+            items = np.unique(items)
             count = self.similarity.shape[0]
             # check if items contains itemids that are not in the model(user_items)
             if items.max() >= count or items.min() < 0:
@@ -140,7 +140,7 @@ class ItemItemRecommender(RecommenderBase):
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
-            items = np.array(items)
+            items = np.unique(items)
             if items.max() >= self.similarity.shape[0] or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
-- 
2.43.0


From 3a417b6188c2e5df9003165a193587fc5cabd58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:21 +0000
Subject: [PATCH 17/46] fix: ALS training loss with negative confidences

The constant term of the loss is the confidence times the squared preference,
which is zero for negative values (preference 0).
---
 implicit/cpu/_als.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index 630e3f1..ffeae98 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -285,6 +285,7 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
 
                     if confidence > 0:
                         temp = -2 * confidence
+                        loss += confidence
                     else:
                         temp = 0
                         confidence = -1 * confidence
@@ -293,7 +294,6 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
                     axpy(&N, &temp, &Y[i, 0], &one, r, &one)
 
                     total_confidence += confidence
-                    loss += confidence
 
                 loss += dot(&N, r, &one, &X[u, 0], &one)
                 user_norm += dot(&N, &X[u, 0], &one, &X[u, 0], &one)
-- 
2.43.0


From f04feb84aaeaa3d933ee3484f2cb672443237339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:21 +0000
Subject: [PATCH 18/46] fix: crash in item-item models with K=0 or N=0

This read the first element of an empty vector.
---
 implicit/nearest_neighbours.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/implicit/nearest_neighbours.h b/implicit/nearest_neighbours.h
index 6e72452..eb536fd 100644
--- a/implicit/nearest_neighbours.h
+++ b/implicit/nearest_neighbours.h
@@ -17,6 +17,8 @@ template <typename Index, typename Value> struct TopK {
   explicit TopK(size_t K) : K(K) {}
 
   void operator()(Index index, Value score) {
+    if (!K)
+      return;
     if ((results.size() < K) || (score > results[0].first)) {
       if (results.size() >= K) {
         std::pop_heap(results.begin(), results.end(), heap_order);
-- 
2.43.0


From ee3593aca00c0186c685dfd9fbc37f3036ba00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:21 +0000
Subject: [PATCH 19/46] fix: race when several threads calculate the first
 similar items

The norms were visible to other threads before the zeros in it were replaced,
leading to NaN scores in concurrent similar_items/similar_users calls.
---
 implicit/cpu/matrix_factorization_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index e0d2ade..1eaa853 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -223,17 +223,19 @@ class MatrixFactorizationBase(RecommenderBase):
     @property
     def user_norms(self):
         if self._user_norms is None:
-            self._user_norms = np.linalg.norm(self.user_factors, axis=-1)
+            norms = np.linalg.norm(self.user_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._user_norms[self._user_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            self._user_norms = norms
         return self._user_norms
 
     @property
     def item_norms(self):
         if self._item_norms is None:
-            self._item_norms = np.linalg.norm(self.item_factors, axis=-1)
+            norms = np.linalg.norm(self.item_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._item_norms[self._item_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            self._item_norms = norms
         return self._item_norms
 
     def _check_fit_errors(self):
-- 
2.43.0


From d1c0fab52c1fe6cad0d44b9ed04fd8340fe29162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:21 +0000
Subject: [PATCH 20/46] fix: reject items together with an array of
 filter_items

An array just containing id 0 is falsy, which meant that the combination was
accepted and the filter then applied to the wrong item.
---
 implicit/cpu/matrix_factorization_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 1eaa853..8b81b91 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -55,7 +55,7 @@ class MatrixFactorizationBase(RecommenderBase):
         # if we have an item list to restrict down to, we need to filter the item_factors
         # and filter_query_items
         if items is not None:
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in recommend call")
 
             items = np.unique(items)
@@ -143,7 +143,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an user list to restrict down to, we need to filter the user_factors
         if users is not None:
-            if filter_users:
+            if filter_users is not None and len(filter_users):
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
             users = np.unique(users)
@@ -184,7 +184,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an item list to restrict down to, we need to filter the item_factors
         if items is not None:
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
             items = np.unique(items)
-- 
2.43.0


From 29b380aa3786e9899f22e351250c5f0740b862e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:21 +0000
Subject: [PATCH 21/46] fix: interrupted dataset downloads

A partially downloaded file was left at the location of the dataset, and used
as the cached dataset from then on.
---
 implicit/datasets/_download.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 0b25227..2281a3e 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -24,4 +24,13 @@ def download_file(url, local_filename):
             progress.total = total
             progress.update(chunksize)
 
-        return urlretrieve(url, local_filename, reporthook=report)
+        # download to a temporary file first, so that an interrupted download is never
+        # mistaken for the dataset
+        temp_filename = f"{local_filename}.{os.getpid()}.part"
+        try:
+            _, headers = urlretrieve(url, temp_filename, reporthook=report)
+            os.replace(temp_filename, local_filename)
+        finally:
+            if os.path.exists(temp_filename):
+                os.remove(temp_filename)
+        return local_filename, headers
-- 
2.43.0


From ac5e4eb415fd821b06340a0de45c1baa6a9af750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:21 +0000
Subject: [PATCH 22/46] fix: out of bounds reads when recalculating ALS factors

recalculate_user and recalculate_item (and the recommend, similar_items and
partial fit calls using them) didn't check for ids that aren't in the model,
and recalculate_item didn't check the number of rows in item_users.
---
 implicit/cpu/als.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 7d394f8..5364379 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -225,6 +225,8 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         if user_items.shape[0] != users:
             raise ValueError("user_items should have one row for every item in user")
+        if user_items.nnz and user_items.indices.max() >= self.item_factors.shape[0]:
+            raise IndexError("Some itemids in user_items are not in the model")
 
         if self.alpha != 1.0:
             user_items = self.alpha * user_items
@@ -258,10 +260,16 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         """
         item_users = check_csr(item_users)
 
+        items = 1 if np.isscalar(itemid) else len(itemid)
+
+        if item_users.shape[0] != items:
+            raise ValueError("item_users should have one row for every item in itemid")
+        if item_users.nnz and item_users.indices.max() >= self.user_factors.shape[0]:
+            raise IndexError("Some userids in item_users are not in the model")
+
         if self.alpha != 1.0:
             item_users = self.alpha * item_users
 
-        items = 1 if np.isscalar(itemid) else len(itemid)
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
         _als._least_squares(
             self.XtX,
-- 
2.43.0


From 3a89d4e82eea1cbe093001c5c0cd9fbae03756de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:21 +0000
Subject: [PATCH 23/46] fix: out of bounds accesses in item-item recommend

Neither the number of rows nor the item ids in user_items were checked.
---
 implicit/nearest_neighbours.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 9859ba1..09512df 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -68,6 +68,11 @@ class ItemItemRecommender(RecommenderBase):
                 items=items,
             )
 
+        if user_items.shape[0] != 1:
+            raise ValueError("user_items must contain 1 row for every user in userids")
+        if user_items.nnz and user_items.indices.max() >= self.similarity.shape[0]:
+            raise IndexError("Some itemids in user_items are not in the model")
+
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
-- 
2.43.0


From 9a70afe2d54cacfd0d714c3a4df14333359bffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 24/46] fix: out of bounds accesses when refitting with another
 shape

Fitting a model again continues with the factors of the last fit. When the
number of users or items doesn't match them, the native code accessed memory
outside of the factors or of the matrix. Raise a ValueError instead.
---
 implicit/cpu/als.py                       |  1 +
 implicit/cpu/bpr.pyx                      |  1 +
 implicit/cpu/lmf.pyx                      |  1 +
 implicit/cpu/matrix_factorization_base.py | 10 ++++++++++
 4 files changed, 13 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 5364379..37e18e2 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -137,6 +137,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         log.debug("Calculated transpose in %.3fs", time.time() - s)
 
         items, users = Ciu.shape
+        self._check_factor_shapes(users, items)
 
         s = time.time()
         # Initialize the variables randomly if they haven't already been set
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 9b2a501..3ccc8ea 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -142,6 +142,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         user_items = check_csr(user_items)
         users, items = user_items.shape
+        self._check_factor_shapes(users, items)
 
         # We need efficient user lookup for case of removing own likes
         if self.verify_negative_samples and not user_items.has_sorted_indices:
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 37cb21b..81844ad 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -132,6 +132,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             user_items = user_items.astype(np.float32)
 
         users, items = user_items.shape
+        self._check_factor_shapes(users, items)
 
         user_items = check_csr(user_items)
         item_users = user_items.T.tocsr()
diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 8b81b91..da8c638 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -238,6 +238,16 @@ class MatrixFactorizationBase(RecommenderBase):
             self._item_norms = norms
         return self._item_norms
 
+    def _check_factor_shapes(self, users, items):
+        """checks that factors from a previous fit match the data the model is being fit with"""
+        if (self.user_factors is not None and self.user_factors.shape[0] != users) or (
+            self.item_factors is not None and self.item_factors.shape[0] != items
+        ):
+            raise ValueError(
+                f"Can't fit on a ({users}, {items}) matrix: the factors of this model have a"
+                " different number of users or items"
+            )
+
     def _check_fit_errors(self):
         is_nan = np.any(np.isnan(self.user_factors), axis=None)
         is_nan |= np.any(np.isnan(self.item_factors), axis=None)
-- 
2.43.0


From bd3321d155869093376bb5054bf263eb61a620da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 25/46] fix: check shapes in the native ALS functions

least_squares, least_squares_cg and calculate_loss accessed memory out of
bounds when the shape of the matrix didn't match the factors.
---
 implicit/cpu/_als.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index ffeae98..ca0eb91 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -64,9 +64,16 @@ def _check_als_dtype(X):
                          f"Allowed dtypes are: {_ALLOWED_DTYPES}")
 
 
+def _check_als_shapes(Cui, X, Y):
+    if Cui.shape[0] != X.shape[0] or Cui.shape[1] != Y.shape[0] or X.shape[1] != Y.shape[1]:
+        raise ValueError(f"Shapes of matrix {Cui.shape} and factors {X.shape}, {Y.shape} "
+                         "don't match")
+
+
 def least_squares(Cui, X, Y, regularization, num_threads=0):
     _check_als_dtype(X)
     _check_als_dtype(Y)
+    _check_als_shapes(Cui, X, Y)
     YtY = np.dot(np.transpose(Y), Y)
     _least_squares(YtY, Cui.indptr, Cui.indices, Cui.data.astype('float32'),
                    X, Y, regularization, num_threads)
@@ -145,6 +152,7 @@ def _least_squares(YtY, integral[:] indptr, integral[:] indices, float[:] data,
 def least_squares_cg(Cui, X, Y, regularization, num_threads=0, cg_steps=3):
     _check_als_dtype(X)
     _check_als_dtype(Y)
+    _check_als_shapes(Cui, X, Y)
     return _least_squares_cg(Cui.indptr, Cui.indices, Cui.data.astype('float32'),
                              X, Y, regularization, num_threads, cg_steps)
 
@@ -250,6 +258,7 @@ def _least_squares_cg(integral[:] indptr, integral[:] indices, float[:] data,
 
 def calculate_loss(Cui, X, Y, regularization, num_threads=0):
     """ Calculates the loss for an ALS model """
+    _check_als_shapes(Cui, X, Y)
     return _calculate_loss(Cui, Cui.indptr, Cui.indices, Cui.data.astype('float32'),
                            X, Y, regularization, num_threads)
 
-- 
2.43.0


From 7f12682c0d3e73181ec21634e08511b76834beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 26/46] fix: undefined behaviour fitting BPR and LMF without
 any interactions

std::uniform_int_distribution requires that the upper bound isn't smaller
than the lower bound.
---
 implicit/cpu/bpr.pyx | 2 +-
 implicit/cpu/lmf.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 3ccc8ea..8bd3c08 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -185,7 +185,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         # initialize RNG's, one per thread. Also pass the seeds for each thread's RNG
         cdef long[:] rng_seeds = rs.integers(0, 2**31, size=num_threads, dtype="long")
-        cdef RNGVector rng = RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)
+        cdef RNGVector rng = RNGVector(num_threads, max(len(user_items.data) - 1, 0), rng_seeds)
 
         log.debug("Running %i BPR training epochs", self.iterations)
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 81844ad..85d07dc 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -178,7 +178,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
 
         # initialize RNG's, one per thread. Also pass the seeds for each thread's RNG
         cdef long[:] rng_seeds = rs.integers(0, 2**31, size=num_threads, dtype="long")
-        cdef RNGVector rng = RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)
+        cdef RNGVector rng = RNGVector(num_threads, max(len(user_items.data) - 1, 0), rng_seeds)
 
         log.debug("Running %i LMF training epochs", self.iterations)
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
-- 
2.43.0


From 6bf3c67e7357b8eb314a2d1bacf175fd6a59ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 27/46] fix: accept all value and index types in item-item
 models and metrics

Matrices with integer or float32 values, or with 64 bit indices, were
rejected with a buffer dtype mismatch by some of the calls.
---
 implicit/_nearest_neighbours.pyx | 10 ++++++----
 implicit/evaluation.pyx          |  4 ++--
 implicit/nearest_neighbours.py   |  6 +++---
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 84fa810..ecefc1e 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -119,11 +119,13 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
     cdef int i, u, index1, index2, j
     cdef double w1, w2
 
-    cdef int[:] item_indptr = items.indptr, item_indices = items.indices
-    cdef double[:] item_data = items.data
+    cdef int[:] item_indptr = items.indptr.astype(np.int32, copy=False)
+    cdef int[:] item_indices = items.indices.astype(np.int32, copy=False)
+    cdef double[:] item_data = items.data.astype(np.float64, copy=False)
 
-    cdef int[:] user_indptr = users.indptr, user_indices = users.indices
-    cdef double[:] user_data = users.data
+    cdef int[:] user_indptr = users.indptr.astype(np.int32, copy=False)
+    cdef int[:] user_indices = users.indices.astype(np.int32, copy=False)
+    cdef double[:] user_data = users.data.astype(np.float64, copy=False)
 
     cdef SparseMatrixMultiplier[int, double] * neighbours
     cdef TopK[int, double] * topk
diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 11028c9..3ecd8d8 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -409,8 +409,8 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
     # auc
     cdef double mean_auc = 0, auc, hit, miss, num_pos_items, num_neg_items
 
-    cdef int[:] test_indptr = test_user_items.indptr
-    cdef int[:] test_indices = test_user_items.indices
+    cdef int[:] test_indptr = test_user_items.indptr.astype(np.int32, copy=False)
+    cdef int[:] test_indices = test_user_items.indices.astype(np.int32, copy=False)
 
     cdef int[:, :] ids
     cdef int[:] batch
diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 09512df..cb7e622 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -90,9 +90,9 @@ class ItemItemRecommender(RecommenderBase):
                 raise IndexError("Some of selected itemids are not in the model")
 
         ids, scores = self.scorer.recommend(
-            user_items.indptr,
-            user_items.indices,
-            user_items.data,
+            user_items.indptr.astype(np.int32, copy=False),
+            user_items.indices.astype(np.int32, copy=False),
+            user_items.data.astype(np.float64, copy=False),
             K=count,
             remove_own_likes=filter_already_liked_items,
         )
-- 
2.43.0


From 20ca648332808367013bd67b9c17b8eec4db17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 28/46] fix: ANN recommend silently accepted user_items with
 too many rows

---
 implicit/ann/annoy.py  | 10 ++++++----
 implicit/ann/faiss.py  | 10 ++++++----
 implicit/ann/nmslib.py | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index dae3011..5631996 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -158,10 +158,12 @@ class AnnoyModel(RecommenderBase):
         recalculate_user=False,
         items=None,
     ):
-        if (filter_already_liked_items or recalculate_user) and not isinstance(
-            user_items, csr_matrix
-        ):
-            raise ValueError("user_items needs to be a CSR sparse matrix")
+        if filter_already_liked_items or recalculate_user:
+            if not isinstance(user_items, csr_matrix):
+                raise ValueError("user_items needs to be a CSR sparse matrix")
+            user_count = 1 if np.isscalar(userid) else len(userid)
+            if user_items.shape[0] != user_count:
+                raise ValueError("user_items must contain 1 row for every user in userids")
 
         if items is not None and self.approximate_recommend:
             raise NotImplementedError("using a 'items' list with ANN search isn't supported")
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 0a262c2..0a01bd5 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -188,10 +188,12 @@ class FaissModel(RecommenderBase):
         recalculate_user=False,
         items=None,
     ):
-        if (filter_already_liked_items or recalculate_user) and not isinstance(
-            user_items, csr_matrix
-        ):
-            raise ValueError("user_items needs to be a CSR sparse matrix")
+        if filter_already_liked_items or recalculate_user:
+            if not isinstance(user_items, csr_matrix):
+                raise ValueError("user_items needs to be a CSR sparse matrix")
+            user_count = 1 if np.isscalar(userid) else len(userid)
+            if user_items.shape[0] != user_count:
+                raise ValueError("user_items must contain 1 row for every user in userids")
 
         if items is not None and self.approximate_recommend:
             raise NotImplementedError("using a 'items' list with ANN search isn't supported")
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 26b2a21..9e7ad7d 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -166,10 +166,12 @@ class NMSLibModel(RecommenderBase):
         recalculate_user=False,
         items=None,
     ):
-        if (filter_already_liked_items or recalculate_user) and not isinstance(
-            user_items, csr_matrix
-        ):
-            raise ValueError("user_items needs to be a CSR sparse matrix")
+        if filter_already_liked_items or recalculate_user:
+            if not isinstance(user_items, csr_matrix):
+                raise ValueError("user_items needs to be a CSR sparse matrix")
+            user_count = 1 if np.isscalar(userid) else len(userid)
+            if user_items.shape[0] != user_count:
+                raise ValueError("user_items must contain 1 row for every user in userids")
 
         if items is not None and self.approximate_recommend:
             raise NotImplementedError("using a 'items' list with ANN search isn't supported")
-- 
2.43.0


From cb82c2ee8923175a8bc3344434bed2f8b551baff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:12 +0000
Subject: [PATCH 29/46] fix: BPR and LMF fit reordered the arrays of the matrix
 passed in

Sort a copy of matrices with unsorted indices, instead of the callers matrix.
---
 implicit/cpu/bpr.pyx | 2 +-
 implicit/cpu/lmf.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 8bd3c08..c9b1b18 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -146,7 +146,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         # We need efficient user lookup for case of removing own likes
         if self.verify_negative_samples and not user_items.has_sorted_indices:
-            user_items.sort_indices()
+            user_items = user_items.sorted_indices()
 
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 85d07dc..ec3a69e 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -140,7 +140,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         if not item_users.has_sorted_indices:
             item_users.sort_indices()
         if not user_items.has_sorted_indices:
-            user_items.sort_indices()
+            user_items = user_items.sorted_indices()
 
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
-- 
2.43.0


From 6e5d6791c98017457749fcccf558fd814b91b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:12 +0000
Subject: [PATCH 30/46] fix: NaN similarities in the TFIDFRecommender

All weights of an item are zero when it's only liked by users with an inverse
document frequency of zero, don't divide by zero when normalizing it.
---
 implicit/nearest_neighbours.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index cb7e622..ab4eda0 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -251,7 +251,9 @@ def normalize(X):
     """equivalent to scipy.preprocessing.normalize on sparse matrices
     , but lets avoid another dependency just for a small utility function"""
     X = coo_matrix(X)
-    X.data = X.data / sqrt(bincount(X.row, X.data**2))[X.row]
+    norms = sqrt(bincount(X.row, X.data**2))
+    norms[norms == 0] = 1
+    X.data = X.data / norms[X.row]
     return X
 
 
-- 
2.43.0


From a06b9dad2ce79c480cd64fdcdfd6097ce15f094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:12 +0000
Subject: [PATCH 31/46] fix: spurious similarity of item 0 with itself

The unused slots of items with less than K neighbours were all stored as a
(0, 0) entry, which gave the first item an extra neighbour with a score of 0.
---
 implicit/_nearest_neighbours.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index ecefc1e..1e9207e 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -168,5 +168,8 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
             del neighbours
             del topk
     progress.close()
-    return scipy.sparse.coo_matrix((values, (rows, cols)),
-                                   shape=(item_count, item_count))
+    ret = scipy.sparse.coo_matrix((values, (rows, cols)),
+                                  shape=(item_count, item_count))
+    # remove the unused slots of items with less than K neighbours
+    ret.eliminate_zeros()
+    return ret
-- 
2.43.0


From 4abf86407a7daa477b63cd0dea2e8abd828b2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:42 +0000
Subject: [PATCH 32/46] fix: filter liked items stored with a value of zero
 when items is given

recommend filtered these out, but not together with the items parameter.
---
 implicit/cpu/matrix_factorization_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index da8c638..752c03f 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -263,7 +263,9 @@ def _filter_items_from_sparse_matrix(items, query_items):
     positions = np.searchsorted(items, filter_query_items.col)
     positions = np.clip(positions, 0, len(items) - 1)
 
-    filter_query_items.data[items[positions] != filter_query_items.col] = 0
-    filter_query_items.col = positions
-    filter_query_items.eliminate_zeros()
-    return filter_query_items.tocsr()
+    # note: can't go by the values here, there might be explicit zeros in query_items
+    mask = items[positions] == filter_query_items.col
+    return csr_matrix(
+        (np.ones(mask.sum()), (filter_query_items.row[mask], positions[mask])),
+        shape=query_items.shape,
+    )
-- 
2.43.0


From 02f15e295c5f0f8c435b8a205a9be19a910db752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:14 +0000
Subject: [PATCH 33/46] fix: similarities overflowed with small integer counts

The squares used to normalise the matrix were calculated in the type of the
input, which overflowed for instance with int8 counts above 11, and TF-IDF
weights of small integer types were only calculated in half precision.
---
 implicit/nearest_neighbours.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index ab4eda0..11c0aa5 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -243,7 +243,8 @@ def tfidf_weight(X):
     idf = log(N) - log1p(bincount(X.col))
 
     # apply TF-IDF adjustment
-    X.data = sqrt(X.data) * idf[X.col]
+    # note: sqrt of a small integer type is calculated in half precision by numpy
+    X.data = sqrt(X.data.astype(np.float64)) * idf[X.col]
     return X
 
 
@@ -251,7 +252,7 @@ def normalize(X):
     """equivalent to scipy.preprocessing.normalize on sparse matrices
     , but lets avoid another dependency just for a small utility function"""
     X = coo_matrix(X)
-    norms = sqrt(bincount(X.row, X.data**2))
+    norms = sqrt(bincount(X.row, X.data.astype(np.float64) ** 2))
     norms[norms == 0] = 1
     X.data = X.data / norms[X.row]
     return X
-- 
2.43.0


From ea63c11ae73ea7a342497dfa5dbe9ac5fa4411c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:43 +0000
Subject: [PATCH 34/46] fix: out of bounds writes in all_pairs_knn with a large
 K

The size of the output was calculated with 32 bit integers, which overflows
when K times the number of items is larger than that.
---
 implicit/_nearest_neighbours.pyx | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 1e9207e..991bd55 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -117,8 +117,13 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
 
     cdef int item_count = items.shape[0]
     cdef int i, u, index1, index2, j
+    cdef long position
     cdef double w1, w2
 
+    # an item can't have more neighbours than there are items
+    K = min(K, <unsigned int> item_count)
+    cdef long size = <long> item_count * K
+
     cdef int[:] item_indptr = items.indptr.astype(np.int32, copy=False)
     cdef int[:] item_indices = items.indices.astype(np.int32, copy=False)
     cdef double[:] item_data = items.data.astype(np.float64, copy=False)
@@ -132,9 +137,9 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
     cdef pair[double, int] result
 
     # holds triples of output
-    cdef double[:] values = np.zeros(item_count * K)
-    cdef long[:] rows = np.zeros(item_count * K, dtype=int)
-    cdef long[:] cols = np.zeros(item_count * K, dtype=int)
+    cdef double[:] values = np.zeros(size)
+    cdef long[:] rows = np.zeros(size, dtype=int)
+    cdef long[:] cols = np.zeros(size, dtype=int)
 
     progress = tqdm(total=item_count, disable=not show_progress)
     with nogil, parallel(num_threads=num_threads):
@@ -154,13 +159,13 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
                 topk.results.clear()
                 neighbours.foreach(dereference(topk))
 
-                index2 = K * i
+                position = <long> K * i
 
                 for result in topk.results:
-                    rows[index2] = i
-                    cols[index2] = result.second
-                    values[index2] = result.first
-                    index2 = index2 + 1
+                    rows[position] = i
+                    cols[position] = result.second
+                    values[position] = result.first
+                    position = position + 1
                 with gil:
                     progress.update(1)
 
-- 
2.43.0


From ac21996ff7380bda733eb9814eb2dbab9d9553d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:12 +0000
Subject: [PATCH 35/46] fix: out of bounds read in ranking_metrics_at_k with K
 < 1

---
 implicit/evaluation.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 3ecd8d8..e91fbd1 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -390,6 +390,9 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
     float
         the calculated p@k
     """
+    if K < 1:
+        raise ValueError("K must be a positive number")
+
     if not isinstance(train_user_items, csr_matrix):
         train_user_items = train_user_items.tocsr()
 
-- 
2.43.0


From dddd75631e4f9c0ba03f6af65ff873c8686ed658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:15 +0000
Subject: [PATCH 36/46] fix: out of bounds reads in the ALS solvers and loss
 with a CSC matrix

---
 implicit/cpu/_als.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index ca0eb91..4a8c836 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -65,6 +65,8 @@ def _check_als_dtype(X):
 
 
 def _check_als_shapes(Cui, X, Y):
+    if Cui.format != "csr":
+        raise ValueError(f"Matrix must be in CSR format, not {Cui.format}")
     if Cui.shape[0] != X.shape[0] or Cui.shape[1] != Y.shape[0] or X.shape[1] != Y.shape[1]:
         raise ValueError(f"Shapes of matrix {Cui.shape} and factors {X.shape}, {Y.shape} "
                          "don't match")
-- 
2.43.0


From 990d66fb93852a73fd74e8d5f8f2ef8a7e281fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:04 +0000
Subject: [PATCH 37/46] fix: out of bounds accesses when refitting with a
 different number of factors

---
 implicit/cpu/als.py                       | 2 +-
 implicit/cpu/bpr.pyx                      | 2 +-
 implicit/cpu/lmf.pyx                      | 2 +-
 implicit/cpu/matrix_factorization_base.py | 8 ++++----
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 37e18e2..a4ea5b0 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -137,7 +137,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         log.debug("Calculated transpose in %.3fs", time.time() - s)
 
         items, users = Ciu.shape
-        self._check_factor_shapes(users, items)
+        self._check_factor_shapes(users, items, self.factors)
 
         s = time.time()
         # Initialize the variables randomly if they haven't already been set
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index c9b1b18..8b893fc 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -142,7 +142,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         user_items = check_csr(user_items)
         users, items = user_items.shape
-        self._check_factor_shapes(users, items)
+        self._check_factor_shapes(users, items, self.factors + 1)
 
         # We need efficient user lookup for case of removing own likes
         if self.verify_negative_samples and not user_items.has_sorted_indices:
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index ec3a69e..8ba6087 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -132,7 +132,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             user_items = user_items.astype(np.float32)
 
         users, items = user_items.shape
-        self._check_factor_shapes(users, items)
+        self._check_factor_shapes(users, items, self.factors + 2)
 
         user_items = check_csr(user_items)
         item_users = user_items.T.tocsr()
diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 752c03f..e02aaa9 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -238,14 +238,14 @@ class MatrixFactorizationBase(RecommenderBase):
             self._item_norms = norms
         return self._item_norms
 
-    def _check_factor_shapes(self, users, items):
+    def _check_factor_shapes(self, users, items, factors):
         """checks that factors from a previous fit match the data the model is being fit with"""
-        if (self.user_factors is not None and self.user_factors.shape[0] != users) or (
-            self.item_factors is not None and self.item_factors.shape[0] != items
+        if (self.user_factors is not None and self.user_factors.shape != (users, factors)) or (
+            self.item_factors is not None and self.item_factors.shape != (items, factors)
         ):
             raise ValueError(
                 f"Can't fit on a ({users}, {items}) matrix: the factors of this model have a"
-                " different number of users or items"
+                f" different number of users or items, or don't have {factors} columns"
             )
 
     def _check_fit_errors(self):
-- 
2.43.0


From dacfd6970dafe850f44612a58cf174df9368c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 38/46] fix: out of bounds accesses training with factors that
 aren't C contiguous

---
 implicit/cpu/_als.pyx | 6 +++---
 implicit/cpu/bpr.pyx  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index 4a8c836..31896ab 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -83,7 +83,7 @@ def least_squares(Cui, X, Y, regularization, num_threads=0):
 
 @cython.boundscheck(False)
 def _least_squares(YtY, integral[:] indptr, integral[:] indices, float[:] data,
-                   floating[:, :] X, floating[:, :] Y, double regularization,
+                   floating[:, ::1] X, floating[:, ::1] Y, double regularization,
                    int num_threads=0):
     dtype = np.float64 if floating is double else np.float32
 
@@ -162,7 +162,7 @@ def least_squares_cg(Cui, X, Y, regularization, num_threads=0, cg_steps=3):
 @cython.cdivision(True)
 @cython.boundscheck(False)
 def _least_squares_cg(integral[:] indptr, integral[:] indices, float[:] data,
-                      floating[:, :] X, floating[:, :] Y, float regularization,
+                      floating[:, ::1] X, floating[:, ::1] Y, float regularization,
                       int num_threads=0, int cg_steps=3):
     dtype = np.float64 if floating is double else np.float32
 
@@ -268,7 +268,7 @@ def calculate_loss(Cui, X, Y, regularization, num_threads=0):
 @cython.cdivision(True)
 @cython.boundscheck(False)
 def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
-                    floating[:, :] X, floating[:, :] Y, float regularization,
+                    floating[:, ::1] X, floating[:, ::1] Y, float regularization,
                     int num_threads=0):
     dtype = np.float64 if floating is double else np.float32
     cdef integral users = X.shape[0], items = Y.shape[0], u, i, index
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 8b893fc..a6af1c9 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -251,7 +251,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 @cython.boundscheck(False)
 def bpr_update(RNGVector rng,
                integral[:] userids, integral[:] itemids, integral[:] indptr,
-               floating[:, :] X, floating[:, :] Y,
+               floating[:, ::1] X, floating[:, ::1] Y,
                float learning_rate, float reg, int num_threads,
                bool verify_neg):
     cdef integral users = X.shape[0], items = Y.shape[0]
-- 
2.43.0


From 9f5c1ed60a8c214bad9cdd6ec0bdd1bfc3a0948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:28 +0000
Subject: [PATCH 39/46] fix: repeated entries of a COO matrix were weighted
 separately by the item-item models

The entries of a sparse matrix given more than once stand for their sum: cosine similarities
could be larger than 1 for a COO matrix with repeated entries.
---
 implicit/nearest_neighbours.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 11c0aa5..4129af7 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -237,6 +237,7 @@ class BM25Recommender(ItemItemRecommender):
 def tfidf_weight(X):
     """Weights a Sparse Matrix by TF-IDF Weighted"""
     X = coo_matrix(X)
+    X.sum_duplicates()
 
     # calculate IDF
     N = float(X.shape[0])
@@ -252,6 +253,7 @@ def normalize(X):
     """equivalent to scipy.preprocessing.normalize on sparse matrices
     , but lets avoid another dependency just for a small utility function"""
     X = coo_matrix(X)
+    X.sum_duplicates()
     norms = sqrt(bincount(X.row, X.data.astype(np.float64) ** 2))
     norms[norms == 0] = 1
     X.data = X.data / norms[X.row]
@@ -262,6 +264,7 @@ def bm25_weight(X, K1=100, B=0.8):
     """Weighs each row of a sparse matrix X  by BM25 weighting"""
     # calculate idf per term (user)
     X = coo_matrix(X)
+    X.sum_duplicates()
 
     N = float(X.shape[0])
     idf = log(N) - log1p(bincount(X.col))
-- 
2.43.0


From 4ae7a2e3859f564df47baaa7896002a8fa3c7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:41 +0000
Subject: [PATCH 40/46] fix: a rejected partial fit could leave the model with
 additional users or items

---
 implicit/cpu/als.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index a4ea5b0..42b6e6b 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -310,13 +310,16 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         # ensure that we have enough storage for any new users
         users, factors = self.user_factors.shape
         max_userid = max(userids)
+        stored_factors = self.user_factors
         if max_userid >= users:
-            self.user_factors = np.concatenate(
-                [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]
+            stored_factors = np.concatenate(
+                [stored_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]
             )
 
-        # update the stored factors with the newly calculated values
-        self.user_factors[userids] = user_factors
+        # update the stored factors with the newly calculated values (without growing the
+        # model if this fails because of an invalid id)
+        stored_factors[userids] = user_factors
+        self.user_factors = stored_factors
 
         # clear any cached properties that are invalidated by this update
         self._user_norms = None
@@ -347,13 +350,16 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         # ensure that we have enough storage for any new items
         items, factors = self.item_factors.shape
         max_itemid = max(itemids)
+        stored_factors = self.item_factors
         if max_itemid >= items:
-            self.item_factors = np.concatenate(
-                [self.item_factors, np.zeros((max_itemid - items + 1, factors), dtype=self.dtype)]
+            stored_factors = np.concatenate(
+                [stored_factors, np.zeros((max_itemid - items + 1, factors), dtype=self.dtype)]
             )
 
-        # update the stored factors with the newly calculated values
-        self.item_factors[itemids] = item_factors
+        # update the stored factors with the newly calculated values (without growing the
+        # model if this fails because of an invalid id)
+        stored_factors[itemids] = item_factors
+        self.item_factors = stored_factors
 
         # clear any cached properties that are invalidated by this update
         self._item_norms = None
-- 
2.43.0


From f24731ae3cb2da75f045a5575cf2eb00c95738b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 41/46] fix: NMSLIB batch similar_items fails when the index
 finds fewer items for some queries

---
 implicit/ann/nmslib.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 9e7ad7d..aadb1c2 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -146,9 +146,14 @@ class NMSLibModel(RecommenderBase):
         if np.isscalar(itemid):
             ids, scores = self.similar_items_index.knnQuery(factors, count)
         else:
+            # the graph search can find fewer items for some of the queries than for others
             results = self.similar_items_index.knnQueryBatch(factors, count)
-            ids = np.stack([result[0] for result in results])
-            scores = np.stack([result[1] for result in results])
+            width = max(len(result_ids) for result_ids, _ in results)
+            ids = np.full((len(results), width), -1, dtype=np.int32)
+            scores = np.full((len(results), width), np.finfo(np.float32).max, dtype=np.float32)
+            for row, (result_ids, result_scores) in enumerate(results):
+                ids[row, : len(result_ids)] = result_ids
+                scores[row, : len(result_ids)] = result_scores
 
         scores = 1.0 - scores
         if filter_items is not None:
-- 
2.43.0


From f04180e5604241b81e569756ec43feafdebc070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:35 +0000
Subject: [PATCH 42/46] fix: select the best items of a batch with more than
 2^31 scores

The offsets into the batch of scores (and into the results) were calculated as int,
so that a batch query against more than about 21 million items crashed.
---
 implicit/cpu/select.h | 2 +-
 implicit/cpu/topk.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/select.h b/implicit/cpu/select.h
index 2199b85..e4e59e1 100644
--- a/implicit/cpu/select.h
+++ b/implicit/cpu/select.h
@@ -15,7 +15,7 @@ inline void select(const T *batch, int rows, int cols, int k, int *ids,
   std::vector<std::pair<T, int>> results;
   std::greater<std::pair<T, int>> heap_order;
 
-  for (int row = 0; row < rows; ++row) {
+  for (size_t row = 0; row < static_cast<size_t>(rows); ++row) {
     results.clear();
     for (int col = 0; col < cols; ++col) {
       T score = batch[row * cols + col];
diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 5108730..20a5973 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -67,5 +67,5 @@ def _topk_batch(items, query, int k, int startidx, int endidx, int[:, :] indices
     cdef int cols = batch_view.shape[1]
 
     with nogil:
-        select(c_batch, rows, cols, k, c_indices + startidx * k, c_distances + startidx * k)
+        select(c_batch, rows, cols, k, c_indices + <size_t> startidx * k, c_distances + <size_t> startidx * k)
 
-- 
2.43.0


From 7cd3bb3b9cc2c46c9d3dc176ef95149a85304995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:01 +0000
Subject: [PATCH 43/46] fix: FaissModel queries fail when N is a numpy integer

---
 implicit/ann/faiss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 0a01bd5..0b5bfcb 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -1,4 +1,5 @@
 import logging
+import operator
 import warnings
 
 import faiss
@@ -135,7 +136,7 @@ class FaissModel(RecommenderBase):
         if items is not None and self.approximate_similar_items:
             raise NotImplementedError("using an items filter isn't supported with ANN lookup")
 
-        count = N
+        count = operator.index(N)  # faiss only accepts python integers
         if filter_items is not None:
             count += len(filter_items)
 
@@ -238,7 +239,7 @@ class FaissModel(RecommenderBase):
 
         # calculate the top N items, removing the users own liked items from
         # the results
-        count = N
+        count = operator.index(N)  # faiss only accepts python integers
         if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
-- 
2.43.0


From 9abc6e6505a9bc57262a4b8416bd5fe25aa46f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:26 +0000
Subject: [PATCH 44/46] fix: NMSLibModel ignores the method parameter for the
 recommend index

---
 implicit/ann/nmslib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index aadb1c2..39ddfe4 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -106,7 +106,7 @@ class NMSLibModel(RecommenderBase):
         if self.approximate_recommend:
             log.debug("Building nmslib recommendation index")
             self.max_norm, extra = augment_inner_product_matrix(item_factors)
-            self.recommend_index = nmslib.init(method="hnsw", space="cosinesimil")
+            self.recommend_index = nmslib.init(method=self.method, space="cosinesimil")
             self.recommend_index.addDataPointBatch(extra)
             self.recommend_index.createIndex(self.index_params, print_progress=show_progress)
             self.recommend_index.setQueryTimeParams(self.query_params)
-- 
2.43.0


From d1056227d83ef6c0115cd16090047168fcb4acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:37 +0000
Subject: [PATCH 45/46] fix: concurrent downloads of a dataset share their
 temporary file

---
 implicit/datasets/_download.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 2281a3e..622a6a0 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -1,4 +1,5 @@
 import os
+import uuid
 
 try:
     from urllib.request import urlretrieve
@@ -15,8 +16,7 @@ def download_file(url, local_filename):
     bar of download progress"""
     local_filename = os.path.abspath(local_filename)
     path = os.path.dirname(local_filename)
-    if not os.path.isdir(path):
-        os.makedirs(path)
+    os.makedirs(path, exist_ok=True)
 
     with tqdm(unit="B", unit_scale=True) as progress:
 
@@ -25,8 +25,8 @@ def download_file(url, local_filename):
             progress.update(chunksize)
 
         # download to a temporary file first, so that an interrupted download is never
-        # mistaken for the dataset
-        temp_filename = f"{local_filename}.{os.getpid()}.part"
+        # mistaken for the dataset (and so that concurrent downloads don't share a file)
+        temp_filename = f"{local_filename}.{uuid.uuid4().hex}.part"
         try:
             _, headers = urlretrieve(url, temp_filename, reporthook=report)
             os.replace(temp_filename, local_filename)
-- 
2.43.0


From b482757d9c5907c193e8d33297108021312fb791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:11 +0000
Subject: [PATCH 46/46] fix: LMF: number of negatives overflowed for a large
 neg_prop

---
 implicit/cpu/lmf.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 8ba6087..4d4de66 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -278,7 +278,7 @@ def lmf_update(RNGVector rng, floating[:, :] deriv_sum_sq,
                         deriv[_] = deriv[_] - z * item_vectors[i, _]
 
                 # Negative(Sampled) Item Indices exp(y_ui) / (1 + exp(y_ui)) * y_i
-                for _ in range(min(n_items, user_seen_item * neg_prop)):
+                for _ in range(<integral> min(<long> n_items, <long> user_seen_item * neg_prop)):
                     index = rng.generate(thread_id)
                     i = indices[index]
                     exp_r = 0
-- 
2.43.0

