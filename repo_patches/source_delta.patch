From 321d958c39aec275848d970a23d6efb050a4e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:38 +0000
Subject: [PATCH 01/58] fix: weight each row by its scale in the scaled self
 soft-max dot products

---
 sidetopics/util/sig_fast.pyx     | 8 ++++----
 sidetopics/util/sigmoid_utils.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/util/sig_fast.pyx b/sidetopics/util/sig_fast.pyx
index ef49f44..cd7b1cd 100644
--- a/sidetopics/util/sig_fast.pyx
+++ b/sidetopics/util/sig_fast.pyx
@@ -113,7 +113,7 @@ def selfSoftDot_f8_i8(double[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -148,7 +148,7 @@ def selfSoftDot_f4_i8(float[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -184,7 +184,7 @@ def selfSoftDot_f8_f8(double[:,:] mat, double[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -219,7 +219,7 @@ def selfSoftDot_f4_f4(float[:,:] mat, float[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
diff --git a/sidetopics/util/sigmoid_utils.py b/sidetopics/util/sigmoid_utils.py
index 54a7113..b07ff0c 100644
--- a/sidetopics/util/sigmoid_utils.py
+++ b/sidetopics/util/sigmoid_utils.py
@@ -102,5 +102,5 @@ def scaledSelfSoftDot(matrix, scale):
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (scaledSelfSoftDot)")
-    return np.sum(matrix * rowwise_softmax(matrix))
+    return np.sum(scale[:, np.newaxis] * matrix * rowwise_softmax(matrix))
 
-- 
2.43.0


From b1cf700e0607fb43b1dc63fdca19aa840faaf260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:25 +0000
Subject: [PATCH 02/58] fix: index dense matrices by a tuple of rows and
 columns in the sparse fallbacks

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index dde26ab..fe525b7 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -390,4 +390,4 @@ def csr_indices(ptr, ind):
             rows[totalElemCount : totalElemCount + elemCount] = [r] * elemCount
         totalElemCount += elemCount
 
-    return [rows, ind.tolist()]
+    return rows, ind.tolist()
-- 
2.43.0


From 2a359b3bc176c63b699ca39e7185dc189ba3bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:25 +0000
Subject: [PATCH 03/58] fix: use the topic's own word probability in
 entropyOfDot_py

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index fe525b7..e921a27 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -121,7 +121,7 @@ def entropyOfDot_py (topics, vocab):
         
         for k in range(K):
             for t in range(T):
-                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[d,k])
+                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[k,t])
     
     return result
 
-- 
2.43.0


From 5d8078c0b44e9dc9662a9e521c7bfaf5cc203721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:41 +0000
Subject: [PATCH 04/58] fix: write sparseScalarProductOfSafeLnDot's result to
 the given output matrix

---
 sidetopics/util/sparse_elementwise.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index e921a27..63fc4e7 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -281,7 +281,6 @@ def sparseScalarProductOfSafeLnDot (A, B, C, out=None, start=None, end=None):
         # out = A.copy()
         # oldWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8_full(
         #      A.data, A.indices, A.indptr, B, C, out.data))
-        out = A.copy()
         newWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8(
              A.data, A.indices, A.indptr, B, C, out.data, 0, A.shape[0]))
 
-- 
2.43.0


From 9f9f665ef0d8b744067741062a335e99b9c169a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:41 +0000
Subject: [PATCH 05/58] fix: start reading at the first requested row in the
 ranged sparse kernels

---
 sidetopics/util/se_fast.pyx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sidetopics/util/se_fast.pyx b/sidetopics/util/se_fast.pyx
index 0b6d7b7..64300fd 100644
--- a/sidetopics/util/se_fast.pyx
+++ b/sidetopics/util/se_fast.pyx
@@ -275,6 +275,7 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
         int elemCount =0
         int e = 0
         int i = 0
+        int first = A_ptr[start] # position in A of the first element processed
 
     with nogil:
         while A_row < end:
@@ -282,8 +283,8 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f8(B_row,col,B,C)
+                    col = A_indices[first + i]
+                    out_data[i] = A_data[first + i] / dotProduct_f8(B_row,col,B,C)
                     i += 1
                     e += 1
                 B_row += 1
@@ -322,6 +323,7 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
         int elemCount =0
         int e = 0
         int i = 0
+        int first = A_ptr[start] # position in A of the first element processed
 
     with nogil:
         while A_row < end:
@@ -329,8 +331,8 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f4(B_row,col,B,C)
+                    col = A_indices[first + i]
+                    out_data[i] = A_data[first + i] / dotProduct_f4(B_row,col,B,C)
                     i += 1
                     e += 1
                 B_row += 1
@@ -510,6 +512,7 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
         int elemCount =0
         int e = 0
         int i = 0
+        int first = A_ptr[start] # position in A of the first element processed
         double dotProd = 0.0
         double logOfMin = log (DBL_MIN)
     
@@ -519,9 +522,9 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col         = A_indices[i]
+                    col         = A_indices[first + i]
                     dotProd     = dotProduct_f8(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
+                    out_data[i] = A_data[first + i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
                     i += 1
                     e += 1
                 B_row += 1
@@ -585,6 +588,7 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
         int elemCount =0
         int e = 0
         int i = 0
+        int first = A_ptr[start] # position in A of the first element processed
         float dotProd = 0.0
         float logOfMin = log (FLT_MIN)
 
@@ -594,9 +598,9 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col         = A_indices[i]
+                    col         = A_indices[first + i]
                     dotProd     = dotProduct_f4(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
+                    out_data[i] = A_data[first + i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
                     i += 1
                     e += 1
                 B_row += 1
-- 
2.43.0


From 2709946ec8da139d109a7a56f8756cd4e83c4fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:33 +0000
Subject: [PATCH 06/58] fix: vec-transpose matrices of types without a compiled
 version

---
 sidetopics/util/vectrans.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/util/vectrans.py b/sidetopics/util/vectrans.py
index ce1b3b0..1604e10 100644
--- a/sidetopics/util/vectrans.py
+++ b/sidetopics/util/vectrans.py
@@ -86,7 +86,7 @@ def _vec_transpose_csr_jit(data, indices, indptr, shape, p):
     rows = np.ndarray((length,), dtype=np.int32)
     cols = np.ndarray((length,), dtype=np.int32)
     
-    newRows, newCols = shape[1] * p, shape[0] / p
+    newRows, newCols = shape[1] * p, shape[0] // p
     oldRow, oldCol = 0, 0
     
     dataPtr = 0
@@ -118,18 +118,18 @@ def vec_transpose(A, p):
         return np.array (compiled.vec_transpose_f8r (A, p))
     elif A.dtype == np.float32:
         return np.array(compiled.vec_transpose_f4r (A, p))
-    elif A.order == 'F':
+    elif np.isfortran(A):
         raise ValueError ("Not implemented for Fortran order matrices")
     
     # Fall back to pure Python 
     (oldRows, oldCols) = A.shape
-    newRows, newCols = oldCols * p, oldRows / p
+    newRows, newCols = oldCols * p, oldRows // p
     out = np.ndarray((newRows, newCols), dtype=A.dtype)
     
     for oldRow in range(oldRows):
         for oldCol in range(oldCols):
             newRow = oldCol * p + oldRow % p
-            newCol = oldRow / p
+            newCol = oldRow // p
             out[newRow, newCol] = A[oldRow, oldCol]
         
     return out
-- 
2.43.0


From f719d06d6fb1a256ad47ec13e65764e3c4492f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:15 +0000
Subject: [PATCH 07/58] fix: keep document lengths one-dimensional for a corpus
 of a single document

---
 sidetopics/model/dmr_fast.pyx       | 2 +-
 sidetopics/model/lda_cvb.py         | 2 +-
 sidetopics/model/lda_cvb0.py        | 2 +-
 sidetopics/model/lda_gibbs_fast.pyx | 2 +-
 sidetopics/model/lda_vb_python.py   | 2 +-
 sidetopics/model/mom_em.py          | 2 +-
 sidetopics/model/mom_gibbs.py       | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 276c3f3..5854c53 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -366,7 +366,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)), axis=1)
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
 
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7479cf7..79e8197 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -177,7 +177,7 @@ def wordDists(model):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1)), axis=1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 0316bfb..c859cfa 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -162,7 +162,7 @@ def newQueryState(data, modelState, debug=False):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1)), axis=1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index c3c5674..0f6a4e6 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -307,7 +307,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)), axis=1)
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
     
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index c6a0a10..d568e33 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -122,7 +122,7 @@ def newQueryState(data, modelState, debug=False):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)), axis=1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index b08f882..24b85c4 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -127,7 +127,7 @@ def newQueryState(data, modelState, debug):
     if debug:
         print("Ignoring setting of debug to True")
 
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)), axis=1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 917be31..99e0355 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -113,7 +113,7 @@ def newQueryState(data, modelState, debug):
     '''
     if debug:
         print("Ignoring setting of debug to True")
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)), axis=1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
-- 
2.43.0


From b2340333b4125d5b089524b66ded06ccac854dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:19 +0000
Subject: [PATCH 08/58] fix: never draw a zero when resampling a topic in the
 Gibbs samplers, it selected topic -1

---
 sidetopics/model/dmr_fast.pyx       | 2 +-
 sidetopics/model/lda_gibbs_fast.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 5854c53..db1baa7 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -255,7 +255,7 @@ def sample ( \
 
                     # Choose a new topic for the current word
                     k = -1
-                    draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
+                    draw = (<double> rand() + 1) / (RAND_MAX + 1.0) * distNorm #gsl_rng_uniform (global_rng) * distNorm
                     while draw > 0:
                         k = (k + 1) % K # shouldn't need mod, but to be safe...
                         draw -= dist[k]
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index 0f6a4e6..1558d4e 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -244,7 +244,7 @@ def sample ( \
 
                     # Choose a new topic for the current word
                     k = -1
-                    draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
+                    draw = (<double> rand() + 1) / (RAND_MAX + 1.0) * distNorm #gsl_rng_uniform (global_rng) * distNorm
                     while draw > 0:
                         k = (k + 1) % K # shouldn't need mod, but to be safe...
                         draw -= dist[k]
-- 
2.43.0


From 3641879d84d754d3f7d1e31ddc5317097416bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:19 +0000
Subject: [PATCH 09/58] fix: sample DMR topics with the exponentiated prior
 that the weights are optimised for

---
 sidetopics/model/dmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 6fa3761..6c9a8d8 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -196,7 +196,7 @@ def train (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     if debug: print ("Burning")
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
@@ -206,7 +206,7 @@ def train (data, model, query, plan):
     if debug: print ("Training")
     sample_count = 0
     for _ in range(0, iterations - burnIn, weightUpdateInterval):
-        alphas[:,:] = X.dot(weights.T)
+        alphas[:,:] = np.exp(X.dot(weights.T))
         sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
                 alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
                 vocabPrior, False, debug)
@@ -339,7 +339,7 @@ def query (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
-- 
2.43.0


From 026353bd43a78885f687defea544f0e5c996d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:19 +0000
Subject: [PATCH 10/58] fix: store every DMR sample in its own slot and stay
 within the sample array

---
 sidetopics/model/dmr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 6c9a8d8..c21f6fc 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -205,10 +205,11 @@ def train (data, model, query, plan):
     # True samples
     if debug: print ("Training")
     sample_count = 0
-    for _ in range(0, iterations - burnIn, weightUpdateInterval):
+    for start in range(0, iterations - burnIn, weightUpdateInterval):
         alphas[:,:] = np.exp(X.dot(weights.T))
-        sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
-                alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
+        sweeps = min(weightUpdateInterval, iterations - burnIn - start)
+        sample_count += compiled.sample (sweeps, thin, w_list, z_list, docLens, \
+                alphas, ndk, nkv, nk, n_dk_samples[:,:,sample_count:], topicSum, vocabSum, \
                 vocabPrior, False, debug)
 
         if debug: # Print out the perplexity so far
@@ -345,7 +346,7 @@ def query (data, model, query, plan):
             vocabPrior, True, debug)
     
     # True samples
-    sample_count = compiled.sample (iterations, thin, w_list, z_list, docLens, \
+    sample_count = compiled.sample (iterations - burnIn, thin, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
     
-- 
2.43.0


From b4a07bee02d85070e97f090e8a97578153ed08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:35 +0000
Subject: [PATCH 11/58] fix: accept document-term matrices of any dtype in
 dmr.newQueryState

---
 sidetopics/model/dmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index c21f6fc..096f02e 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -142,7 +142,7 @@ def newQueryState(data, modelState, debug=False):
     
     D,T = data.words.shape
     if debug: print("Converting {:,}x{:,} document-term matrix to list of lists... ".format(D,T), end="")
-    w_list, docLens = compiled.flatten(data.words)
+    w_list, docLens = compiled.flatten(data.words.astype(np.uint16))
     docLens = np.asarray(docLens, dtype=np.int32)
     if debug: print("Done")
     
-- 
2.43.0


From 8f3af44c018f5735de1a290e8129dbe26cba0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:35 +0000
Subject: [PATCH 12/58] fix: return the trained model unchanged from Gibbs
 queries

---
 sidetopics/model/dmr.py       | 2 +-
 sidetopics/model/lda_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 096f02e..1723a61 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -351,7 +351,7 @@ def query (data, model, query, plan):
             vocabPrior, True, debug)
     
     return \
-        ModelState (K, T, weights, topicPrior, vocabPrior, n_dk_samples, topicSum, vocabSum, sample_count, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, sample_count)
 
 
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 980f956..e9c5c4d 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -253,7 +253,7 @@ def query (data, model, query, plan):
             topicPrior, adjustedVocabPrior, True, debug)
 
     return \
-        ModelState (K, T, topicPrior, vocabPrior, topicSum, vocabSum, numSamples, model.processed, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, numSamples, True)
 
 
-- 
2.43.0


From 8622fe15572dc5dd6b83ea7cdeb9e13d2fde4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 13/58] fix: keep the CVB variance counts separate from the
 mean counts

---
 sidetopics/model/lda_cvb.py       | 2 +-
 sidetopics/model/lda_cvb_fast.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 79e8197..7cc1d10 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -319,7 +319,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
                                  # sum of old and new, and can just be copied across
             m_v_dk = np.vstack((m_v_dk, q_v_dk))
             m_v_kt[:,:] = q_v_kt
-            m_n_k[:]    = q_v_k
+            m_v_k[:]    = q_v_k
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index 4a5965a..6b47293 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -501,7 +501,7 @@ def iterate_f32(int iterations, int D_query, int D_train, int K, int T, \
                             q_n_kt[k,t] += diff
                             q_n_k[k]    += diff
 
-                            diff         = mems[k] - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
+                            diff         = (mems[k] * (1 - mems[k])) - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
                             q_v_dk[d,k] += diff
                             q_v_kt[k,t] += diff
                             q_v_k[k]    += diff
-- 
2.43.0


From ab6f21a2bb009ba808f0c56e60e5852af78d0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 14/58] fix: no division by zero in mean_reciprocal_rank when
 no document has links

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 73a866c..aa3a17b 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -74,7 +74,7 @@ def mean_reciprocal_rank(expected_links, estim_link_probs):
 
     if len(docs_lacking_links) > 0:
         print (str(len(docs_lacking_links)) + " of the " + str(D) + " documents had no links to check, including documents " + ", ".join(str(d) for d in docs_lacking_links[:10]))
-    return rank_sum / rank_count
+    return rank_sum / max(1, rank_count)
 
 #@nb.autojit Does not support cellvars
 def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
-- 
2.43.0


From 354eb9dbf3a58607c2b7554bf05336e4ba58f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 15/58] fix: consider the top m documents, not m+1, in
 precision and recall at m

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index aa3a17b..3be3816 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -149,7 +149,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
         for i in range(len(ms)):
             m = ms[i]
             # Calculate the precision at m
-            recv_set = set(recv_indices[:(m+1)])
+            recv_set = set(recv_indices[:m])
             if len (recv_set) == 0:
                 print ("Ruh-ro")
                 continue
-- 
2.43.0


From 908d16acd254318c4a981dbf80db2c4007208935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 16/58] fix: count documents outside every given group in the
 overall precision and recall only, and leave the given groups unchanged

---
 sidetopics/model/evals.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 3be3816..5a3153f 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -106,12 +106,11 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     docCounts
     '''
     def find_group (outLinkCount, rangeTuples):
-        i = 0
-        while rangeTuples[i][0] == AllGroups[0] \
-            or outLinkCount < rangeTuples[i][0] \
-            or outLinkCount > rangeTuples[i][1]:
-            i += 1
-        return rangeTuples[i]
+        for rangeTuple in rangeTuples:
+            if rangeTuple[0] != AllGroups[0] \
+                and rangeTuple[0] <= outLinkCount <= rangeTuple[1]:
+                return rangeTuple
+        return None
 
     if at is None:
         at = [100]
@@ -123,7 +122,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     if groups is None:
         groups = [ AllGroups ]
     if not AllGroups in groups:
-        groups.append(AllGroups)
+        groups = groups + [AllGroups]
 
     precs_at_m = {group : [0] * len(ms) for group in groups}
     recs_at_m  = {group : [0] * len(ms) for group in groups}
@@ -157,13 +156,15 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
             prec_at_m = len(recv_set.intersection(expt_set)) / m
             rec_at_m  = len(recv_set.intersection(expt_set)) / len(expt_set)
 
-            precs_at_m[g][i] += prec_at_m
-            recs_at_m[g][i]  += rec_at_m
+            if g is not None:
+                precs_at_m[g][i] += prec_at_m
+                recs_at_m[g][i]  += rec_at_m
 
             precs_at_m[AllGroups][i] += prec_at_m
             recs_at_m[AllGroups][i]  += rec_at_m
 
-        docCounts[g] += 1
+        if g is not None:
+            docCounts[g] += 1
         docCounts[AllGroups] += 1
 
     # Return the mean of average-precisions
-- 
2.43.0


From a929271141f847feb4a218d5d6644ae4b306b010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 17/58] fix: average the average-precision over documents with
 links, and give a link that was not returned no precision

---
 sidetopics/model/evals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 5a3153f..4fed4cc 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -234,8 +234,9 @@ def mean_average_prec(expected_links, estim_link_probs):
                 print ("Warning: no indices returned for document " + str(d))
             while m < M and recv_indices[m] != e:
                 m += 1
-            if m == (M - 1) and recv_indices[m] != e:
+            if m == M:
                 print ("WARNING: Could not find link ID " + str(e) + " in the received indices")
+                continue
 
             # Calculate the precision at m
             recv_set = set(recv_indices[:(m+1)])
@@ -254,7 +255,7 @@ def mean_average_prec(expected_links, estim_link_probs):
     # Return the mean of average-precisions
     if len(docs_lacking_links) > 0:
         print (str(len(docs_lacking_links)) + " of the " + str(D) + " documents had no links to check, including documents " + ", ".join(str(d) for d in docs_lacking_links[:10]))
-    return sum_ap / D
+    return sum_ap / max(1, D - len(docs_lacking_links))
 
 
 
-- 
2.43.0


From 0e2d91d1bb8038b338dfc533bad2b86e28432209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 18/58] fix: select document categories stored as lists, and
 follow them through every split

---
 sidetopics/model/common.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 3ec49ee..a951339 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -301,7 +301,7 @@ class DataSet:
         Maybe this should update the order property as well...
         """
         self._words = self._words[order, :]
-        self._doc_categories = self._doc_categories[list(order)]
+        self._doc_categories = _reorder_categories(self._doc_categories, order)
         self._feats = None if self._feats is None else self._feats[order, :]
         self._links = _reorder_link_matrix(self._links, order)
 
@@ -420,7 +420,7 @@ class DataSet:
             None if self._feats is None else self._feats[train_range],
             None if self._links is None else self._links[train_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(train_range)],
+            doc_categories=_reorder_categories(self._doc_categories, train_range),
             order=self._order[train_range],
             debug=debug
         )
@@ -429,7 +429,7 @@ class DataSet:
             None if self._feats is None else self._feats[query_range],
             None if self._links is None else self._links[query_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(query_range)],
+            doc_categories=_reorder_categories(self._doc_categories, query_range),
             order=self._order[query_range],
             debug=debug
         )
@@ -571,17 +571,29 @@ class DataSet:
                        feats=self._feats[trainDocs,:],
                        links=two_dim_reorder(self._links, trainDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_reorder_categories(self._doc_categories, trainDocs),
                        order=self._order[trainDocs]), \
                DataSet(words=self._words[queryDocs,:],
                        feats=self._feats[queryDocs,:],
                        links=two_dim_reorder(self._links, queryDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_reorder_categories(self._doc_categories, queryDocs),
                        order=self._order[queryDocs]), \
                trainDocs
 
 
+def _reorder_categories(doc_categories, order):
+    """
+    Returns the categories of the given documents (in order), in the same kind
+    of sequence as they were given
+    """
+    if doc_categories is None:
+        return None
+    if isinstance(doc_categories, np.ndarray):
+        return doc_categories[order]
+    return [doc_categories[i] for i in order]
+
+
 def dropcols_fancy(M, idx_to_drop):
     idx_to_drop = np.unique(idx_to_drop)
     keep = ~np.in1d(np.arange(M.shape[1]), idx_to_drop, assume_unique=True)
-- 
2.43.0


From 76b3a5913f164e933c93e2717cf589f735814dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 19/58] fix: count distinct words without the removed np.bool
 alias

---
 sidetopics/model/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index a951339..04a902a 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -339,7 +339,7 @@ class DataSet:
         """
         rng = rd.RandomState(seed)
 
-        tmp = self._words.astype(np.bool).astype(np.int32)
+        tmp = self._words.astype(bool).astype(np.int32)
 
         unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
         if unique_word_counts.min() < min_unique_word_count:
@@ -479,8 +479,8 @@ class DataSet:
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(np.bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(np.bool).sum(axis=1)))
+            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
+            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
-- 
2.43.0


From 86338ba4b4c8ba3055f84a944db6bf04ff6e2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 20/58] fix: keep per-document counts one-dimensional for a
 single document

---
 sidetopics/model/common.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 04a902a..dfb5bcc 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -162,7 +162,7 @@ class DataSet:
             )
 
     def words_with_min_freq(self, min_doc_count_incl: int = 10) -> "DataSet":
-        docs_per_word_count = np.squeeze(np.array(self.words.astype(bool).sum(axis=0)))
+        docs_per_word_count = np.squeeze(np.array(self.words.astype(bool).sum(axis=0)), axis=0)
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
@@ -213,7 +213,7 @@ class DataSet:
 
     @property
     def doc_lens(self):
-        return np.squeeze(np.array(self.words.sum(axis=1)))
+        return np.squeeze(np.array(self.words.sum(axis=1)), axis=1)
 
     @property
     def order(self):
@@ -341,7 +341,7 @@ class DataSet:
 
         tmp = self._words.astype(bool).astype(np.int32)
 
-        unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
+        unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)), axis=1)
         if unique_word_counts.min() < min_unique_word_count:
             good_rows = (np.where(unique_word_counts >= min_unique_word_count))[0]
             self._order = good_rows
@@ -361,13 +361,13 @@ class DataSet:
 
         trimmed = False
         original_num_docs = self.doc_count
-        link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+        link_counts = np.squeeze(np.array(self._links.sum(axis=1)), axis=1)
         sufficient_docs = np.where(link_counts >= min_link_count)[0]
         while len(sufficient_docs) < self._links.shape[0]:
             trimmed = True
             self._reorder(sufficient_docs)
             self._order = self._order[sufficient_docs]
-            link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+            link_counts = np.squeeze(np.array(self._links.sum(axis=1)), axis=1)
             sufficient_docs = np.where(link_counts >= min_link_count)[0]
 
         if trimmed:
@@ -479,8 +479,8 @@ class DataSet:
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
+            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)), axis=1)
+            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)), axis=1)
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
-- 
2.43.0


From 626233fb4ab05b87418cedcbde9c3b83d478876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 21/58] fix: name the original row of every remaining document
 after reordering and pruning

---
 sidetopics/model/common.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index dfb5bcc..5eae87d 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -298,12 +298,13 @@ class DataSet:
         be smaller than the total of rows. Additionally, if links is square, its
         columns are also re-ordered.
 
-        Maybe this should update the order property as well...
+        The order property keeps naming the original row of every remaining row.
         """
         self._words = self._words[order, :]
         self._doc_categories = _reorder_categories(self._doc_categories, order)
         self._feats = None if self._feats is None else self._feats[order, :]
         self._links = _reorder_link_matrix(self._links, order)
+        self._order = self._order[order]
 
 
     def convert_to_undirected_graph(self):
@@ -344,17 +345,15 @@ class DataSet:
         unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)), axis=1)
         if unique_word_counts.min() < min_unique_word_count:
             good_rows = (np.where(unique_word_counts >= min_unique_word_count))[0]
-            self._order = good_rows
+            order = good_rows
             print ("Removed %d documents with fewer than %d unique words. %d documents remain" \
                    % (len(unique_word_counts) - len(good_rows), min_unique_word_count, len(good_rows)))
         else:
             doc_count = self._words.shape[0]
-            if self._order is not None:
-                print("Overwriting old _order member")
-            self._order = np.linspace(0, doc_count - 1, doc_count).astype(np.int32)
+            order = np.linspace(0, doc_count - 1, doc_count).astype(np.int32)
 
-        rng.shuffle(self._order)
-        self._reorder(self._order)
+        rng.shuffle(order)
+        self._reorder(order)
 
         if min_link_count == 0 or not self.has_links():
             return self._order
@@ -366,7 +365,6 @@ class DataSet:
         while len(sufficient_docs) < self._links.shape[0]:
             trimmed = True
             self._reorder(sufficient_docs)
-            self._order = self._order[sufficient_docs]
             link_counts = np.squeeze(np.array(self._links.sum(axis=1)), axis=1)
             sufficient_docs = np.where(link_counts >= min_link_count)[0]
 
-- 
2.43.0


From 7eef54738eb74d1978867e4912a09c93c100d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 22/58] fix: limit the matrices of a DataSet together with its
 order

---
 sidetopics/model/common.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 5eae87d..faf322d 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -56,9 +56,12 @@ class DataSet:
 
         num_docs = words.shape[0]
         if 0 < limit < num_docs:
-            order = np.linspace(0, limit - 1, limit).astype(np.int32) \
-                if order is None \
-                else order[:limit]
+            rows = np.linspace(0, limit - 1, limit).astype(np.int32)
+            self._words = words[rows, :]
+            self._feats = None if feats is None else feats[rows, :]
+            self._links = _reorder_link_matrix(links, rows)
+            self._doc_categories = _reorder_categories(doc_categories, rows)
+            order = rows if order is None else order[:limit]
             num_docs = limit
 
         if order is not None:
@@ -125,9 +128,9 @@ class DataSet:
 
         result = DataSet(words, feats, links,
                          doc_categories=doc_categories, word_dict=word_dict,
-                         order=None, limit=limit)
+                         order=None, limit=limit if order is None else 0)
         if order is not None:
-            result._reorder(order)
+            result._reorder(order if limit <= 0 else order[:limit])
 
         return result
 
-- 
2.43.0


From 9dff82c722892732f0b2daaac881c22300730526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 23/58] fix: copy the matrices of a DataSet in a deep copy

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index faf322d..d4329b1 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -147,12 +147,12 @@ class DataSet:
     def copy(self, deep=False):
         if deep:
             return DataSet(
-                self._words.copy(deep=True),
-                self._feats.copy(deep=True) if self._feats is not None else None,
-                self._links.copy(deep=True) if self._links is not None else None,
+                self._words.copy(),
+                self._feats.copy() if self._feats is not None else None,
+                self._links.copy() if self._links is not None else None,
                 list(self._word_dict) if self._word_dict is not None else None,
                 list(self._doc_categories) if self._doc_categories is not None else None,
-                self._order.copy(deep=True) if self._order is not None else None
+                self._order.copy() if self._order is not None else None
             )
         else:
             return DataSet(
-- 
2.43.0


From 5a952675c6b1f462ca4f91034da9d0c6e4d5bbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 24/58] fix: select the dictionary entries of the retained
 words from any kind of sequence

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index d4329b1..92d7d42 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -169,7 +169,7 @@ class DataSet:
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
-        pruned_dict = self._word_dict[list(retain_word_ids)]
+        pruned_dict = _reorder_categories(self._word_dict, retain_word_ids)
 
         return DataSet(
             pruned_words,
-- 
2.43.0


From 792f88a18a0ae77a094febc2aa1ed80133543407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 25/58] fix: split on features of any type, sign and without
 links

---
 sidetopics/model/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 92d7d42..f06e0e5 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -558,15 +558,17 @@ class DataSet:
         data
         """
         def two_dim_reorder(matrix, row_order, col_order):
-            return (matrix[row_order,:])[:,col_order]
+            if matrix is None:
+                return None
+            return (matrix[row_order,:])[:,col_order] if matrix.shape[0] == matrix.shape[1] else matrix[row_order,:]
 
         Epsilon = 1E-30
         assert self._feats is not None, "Need features to make this split"
         assert len(features) > 0, "Need at least two features for this to work"
 
-        mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
+        mask      = np.squeeze(np.array(np.abs(self._feats[:,features]).sum(axis=1)), axis=1)
         trainDocs = np.where(mask < Epsilon)[0]
-        queryDocs = np.where(np.ndarray(buffer=self._feats[:,features[0]].todense(), shape=(self._feats.shape[0],)) > Epsilon)[0]
+        queryDocs = np.where(np.squeeze(self._feats[:,[features[0]]].toarray(), axis=1) > Epsilon)[0]
 
         return DataSet(words=self._words[trainDocs,:],
                        feats=self._feats[trainDocs,:],
-- 
2.43.0


From e3efbdf61d2814a15429e4d9cf570c4b6fccd38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 26/58] fix: keep both halves of a document completion split
 between zero and the count

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index f06e0e5..cf43c38 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -470,7 +470,7 @@ class DataSet:
         dat    = self._words.data
         jitter = rng.normal(scale=est_prop * 0.666, size=len(dat))
         evl    = dat + jitter
-        est    = np.around(evl * est_prop)
+        est    = np.clip(np.around(evl * est_prop), 0, dat)
         evl    = dat - est
 
         est = est.astype(self._words.dtype)
-- 
2.43.0


From 0c78e2a8c2742402a68b29c53c5c59772c0c29a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 27/58] fix: keep the remaining documents' order and categories
 in document completion and link splits

---
 sidetopics/model/common.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index cf43c38..b2e7afe 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -479,6 +479,7 @@ class DataSet:
         words_train = ssp.csr_matrix((est, self._words.indices, self._words.indptr), shape=self._words.shape)
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
+        doc_categories, order = self._doc_categories, self._order
         if min_unique_word_count > 0:
             t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)), axis=1)
             q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)), axis=1)
@@ -489,15 +490,17 @@ class DataSet:
             if len(tq_good) != words_train.shape[0]:
                 words_train = words_train[tq_good,:]
                 words_query = words_query[tq_good,:]
-                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good)), min_unique_word_count, len(tq_good))
+                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good), min_unique_word_count, len(tq_good)))
+                doc_categories = _reorder_categories(doc_categories, tq_good)
+                order = order[tq_good]
                 
                 # FIXME Need to handle links and feats as well...
                 if (self._feats is not None) or (self._links is not None):
                     raise ValueError ("Not implemented for features and/or links")
 
         return \
-            DataSet(words_train, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug), \
-            DataSet(words_query, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug)
+            DataSet(words_train, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug), \
+            DataSet(words_query, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug)
 
 
     def link_prediction_split(self, symmetric=True, seed=0xC0FFEE):
@@ -520,8 +523,8 @@ class DataSet:
             links_train, links_query = _split(self._links, rng)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories)
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order)
 
 
     def folded_link_prediction_split(self, min_link_count, fold_id, fold_count, symmetric=False):
@@ -543,8 +546,8 @@ class DataSet:
             links_train, links_query, docSubset = _folded_split(self._links, fold_id, fold_count, min_link_count)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories), \
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order), \
             docSubset
 
     def split_on_feature(self, features):
-- 
2.43.0


From b8eb281f124a92544d30a48f5e2b0d8259427154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 28/58] fix: split links at a whole number of entries

---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index b2e7afe..6992cca 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -632,7 +632,7 @@ def _split(X, rng):
 
     ind = np.arange(nnz)
     rng.shuffle (ind)
-    split_point = nnz / 2
+    split_point = nnz // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
@@ -683,7 +683,7 @@ def _split_symm(X, rng):
 
     ind = np.array([i for i in range(nnz) if row[i] >= col[i]], dtype=np.int32)
     rng.shuffle(ind)
-    split_point = len(ind) / 2
+    split_point = len(ind) // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
-- 
2.43.0


From 567f5e55a728e7d43bad7f84c8bf0084c3ddd6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 29/58] fix: do not double the diagonal of a symmetric link
 split

---
 sidetopics/model/common.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 6992cca..44e3a14 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -648,20 +648,11 @@ def _symm_csr(dat, row, col, shape):
     where the coorindates are for the upper triangle only. These are then copied
     to create the lower-triangle. The returned matrix is in CSR format.
     """
-    count = len(dat)
+    off_diag = row != col
 
-    nu_dat = np.ndarray(shape=(count*2,), dtype=dat.dtype)
-    nu_row = np.ndarray(shape=(count*2,),  dtype=row.dtype)
-    nu_col = np.ndarray(shape=(count*2,),  dtype=col.dtype)
-
-    nu_dat[:count] = dat
-    nu_dat[count:] = dat
-
-    nu_row[:count] = row
-    nu_row[count:] = col
-
-    nu_col[:count] = col
-    nu_col[count:] = row
+    nu_dat = np.concatenate((dat, dat[off_diag]))
+    nu_row = np.concatenate((row, col[off_diag]))
+    nu_col = np.concatenate((col, row[off_diag]))
 
     return ssp.coo_matrix((nu_dat, (nu_row, nu_col)), shape=shape).tocsr()
 
-- 
2.43.0


From ad38d7580c6ec33c975ad87057c4fa843c56bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 30/58] fix: leave the links of documents with too few links in
 one side of a folded split

---
 sidetopics/model/common.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 44e3a14..8522bfc 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -719,9 +719,7 @@ def _folded_split(X, fold_id, fold_count, min_link_count):
             Ldat += vals
             Lptr.append(Lptr[-1] + len(cols))
 
-            Rind += cols
-            Rdat += vals
-            Rptr.append(Rptr[-1] + len(cols))
+            Rptr.append(Rptr[-1])
         else:
             query_size   = col_count // fold_count
             query_start  = start + query_size * fold_id
-- 
2.43.0


From 10842706be3fb48dfc3fdaaa1276c0ebf41eb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:51 +0000
Subject: [PATCH 31/58] fix: leave the given coordinate matrix unchanged when
 dropping columns

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 8522bfc..b22c0c9 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -608,7 +608,7 @@ def dropcols_fancy(M, idx_to_drop):
 
 def dropcols_coo(M, idx_to_drop):
     idx_to_drop = np.unique(idx_to_drop)
-    C = M.tocoo()
+    C = M.tocoo(copy=True)
     keep = ~np.in1d(C.col, idx_to_drop)
     C.data, C.row, C.col = C.data[keep], C.row[keep], C.col[keep]
     C.col -= idx_to_drop.searchsorted(C.col)    # decrement column indices
-- 
2.43.0


From 7ba10420e97dd3724b74e830a00bb55170665fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 32/58] fix: read word and topic distributions without
 normalising the model's parameters in place

---
 sidetopics/model/lda_svb.py | 4 ++--
 sidetopics/model/lda_vb.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_svb.py b/sidetopics/model/lda_svb.py
index 9fb64b3..18154c6 100644
--- a/sidetopics/model/lda_svb.py
+++ b/sidetopics/model/lda_svb.py
@@ -356,7 +356,7 @@ def wordDists (modelState):
     '''
     The K x T matrix of  word distributions inferred for the K topics
     '''
-    result = modelState.wordDists
+    result = modelState.wordDists.copy()
     norm   = np.sum(modelState.wordDists, axis=1)
     result /= norm[:,np.newaxis]
 
@@ -367,7 +367,7 @@ def topicDists (queryState):
     The D x K matrix of topics distributions inferred for the K topics
     across all D documents
     '''
-    result = queryState.topicDists
+    result = queryState.topicDists.copy()
     norm   = np.sum(queryState.topicDists, axis=1)
     result /= norm[:,np.newaxis]
 
diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index b87e766..4f3b30b 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -346,7 +346,7 @@ def wordDists (modelState):
     '''
     The K x T matrix of  word distributions inferred for the K topics
     '''
-    result = modelState.wordDists
+    result = modelState.wordDists.copy()
     norm   = np.sum(modelState.wordDists, axis=1)
     result /= norm[:,np.newaxis]
 
@@ -357,7 +357,7 @@ def topicDists (queryState):
     The D x K matrix of topics distributions inferred for the K topics
     across all D documents
     '''
-    result = queryState.topicDists
+    result = queryState.topicDists.copy()
     norm   = np.sum(queryState.topicDists, axis=1)
     result /= norm[:,np.newaxis]
 
-- 
2.43.0


From 1df129eff7412dbdd8cba6eef019633e2f2b93f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 33/58] fix: query single-precision variational models with the
 single-precision kernel

---
 sidetopics/model/lda_svb.py | 2 +-
 sidetopics/model/lda_vb.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_svb.py b/sidetopics/model/lda_svb.py
index 18154c6..fe7c333 100644
--- a/sidetopics/model/lda_svb.py
+++ b/sidetopics/model/lda_svb.py
@@ -338,7 +338,7 @@ def query(data, modelState, queryState, queryPlan):
 
     if modelState.dtype == np.float32:
         for _ in range(queryPlan.iterations):
-            compiled.query_f64 (D, T, K, \
+            compiled.query_f32 (D, T, K, \
                      W_list, docLens, \
                      topicPrior, z_dnk, topicDists,
                      vocabDists)
diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index 4f3b30b..9944f1c 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -328,7 +328,7 @@ def query(data, modelState, queryState, queryPlan):
 
     if modelState.dtype == np.float32:
         for _ in range(queryPlan.iterations):
-            compiled.query_f64 (D, T, K, \
+            compiled.query_f32 (D, T, K, \
                      W_list, docLens, \
                      topicPrior, z_dnk, topicDists,
                      vocabDists)
-- 
2.43.0


From 630478539e70345208e932ec9102d63b5a3f0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 34/58] fix: iterate the variational topic update from the
 document's previous parameters, without adding the number of documents

---
 sidetopics/model/lda_vb_fast.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/lda_vb_fast.pyx b/sidetopics/model/lda_vb_fast.pyx
index ce79185..a69a206 100644
--- a/sidetopics/model/lda_vb_fast.pyx
+++ b/sidetopics/model/lda_vb_fast.pyx
@@ -242,7 +242,7 @@ cdef int infer_topics_f32(int d, int D, int K, \
     oldMems[:]      = 1./K
     innerItrs = 0
     
-    post = D
+    post = docLens[d]
     post /= K
     
     for k in range(K):
@@ -252,7 +252,7 @@ cdef int infer_topics_f32(int d, int D, int K, \
     and (innerItrs < MaxInnerItrs):
         for k in range(K):
             oldMems[k]      = topicDists[d,k]
-            topicDists[d,k] = topicPrior[k] + post
+            topicDists[d,k] = topicPrior[k]
         
         innerItrs += 1
         
@@ -264,7 +264,7 @@ cdef int infer_topics_f32(int d, int D, int K, \
             
             # Work in log-space to avoid underflow
             for k in range(K):
-                diTopicDist = digamma(topicDists[d,k])
+                diTopicDist = digamma(oldMems[k])
                 
                 z_dnk[n,k] = diVocabDists[k,W_list[d,n]] - diSumVocabDists[k] + diTopicDist
                 if z_dnk[n,k] > max:
@@ -664,7 +664,7 @@ cdef int infer_topics_f64(int d, int D, int K, \
     oldMems[:]      = 1./K
     innerItrs = 0
     
-    post = D
+    post = docLens[d]
     post /= K
     
     for k in range(K):
@@ -674,7 +674,7 @@ cdef int infer_topics_f64(int d, int D, int K, \
     and (innerItrs < MaxInnerItrs):
         for k in range(K):
             oldMems[k]      = topicDists[d,k]
-            topicDists[d,k] = topicPrior[k] + post
+            topicDists[d,k] = topicPrior[k]
         
         innerItrs += 1
         
@@ -686,7 +686,7 @@ cdef int infer_topics_f64(int d, int D, int K, \
             
             # Work in log-space to avoid underflow
             for k in range(K):
-                diTopicDist = digamma(topicDists[d,k])
+                diTopicDist = digamma(oldMems[k])
                 
                 z_dnk[n,k] = diVocabDists[k,W_list[d,n]] - diSumVocabDists[k] + diTopicDist
                 if z_dnk[n,k] > max:
-- 
2.43.0


From 5bb2d9dcbbd8de343f22a19353785e01b45a6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 35/58] fix: do not hide the double-precision batch iterations
 behind the stochastic ones

---
 sidetopics/model/lda_svb.py      | 2 +-
 sidetopics/model/lda_vb_fast.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_svb.py b/sidetopics/model/lda_svb.py
index fe7c333..04919d8 100644
--- a/sidetopics/model/lda_svb.py
+++ b/sidetopics/model/lda_svb.py
@@ -207,7 +207,7 @@ def train (data, modelState, queryState, trainPlan):
     current_micro_time = lambda: int(time.time())
     do_iterations = compiled.iterate_f32 \
                     if modelState.dtype == np.float32 \
-                    else compiled.iterate_f64
+                    else compiled.iterate_svb_f64
 #    do_iterations = iterate # pure Python
 
     # Iterate in segments, pausing to take measures of the bound / likelihood
diff --git a/sidetopics/model/lda_vb_fast.pyx b/sidetopics/model/lda_vb_fast.pyx
index a69a206..79962b1 100644
--- a/sidetopics/model/lda_vb_fast.pyx
+++ b/sidetopics/model/lda_vb_fast.pyx
@@ -453,7 +453,7 @@ def iterate_f64(int iterations, int D, int K, int T, \
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-def iterate_f64(int iterations, int batchSize, int t_offset, double t_init, double kappa, \
+def iterate_svb_f64(int iterations, int batchSize, int t_offset, double t_init, double kappa, \
                  int D, int K, int T, \
                  int[:,:] W_list, int[:] docLens, \
                  double[:] topicPrior, double vocabPrior, \
-- 
2.43.0


From e32c3de7bda855a66fcb7269819f838ab0e8a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 36/58] fix: keep the word distributions when querying a
 variational model

---
 sidetopics/model/lda_vb_python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index d568e33..78f80b7 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -407,6 +407,9 @@ def train(data, model, query, plan, updateVocab=True):
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
             grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
 
+        if not updateVocab:
+            continue
+
         if rateAlgor == RateAlgorBatch:
             wordDists[:, :] = grad[:, :]
         else:
-- 
2.43.0


From c96add727823e774d1303e7d6e1da8531dd882e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 37/58] fix: never take a learning rate above one with the
 time-decayed rate

---
 sidetopics/model/lda_vb_python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 78f80b7..f36fe8d 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -414,7 +414,8 @@ def train(data, model, query, plan, updateVocab=True):
             wordDists[:, :] = grad[:, :]
         else:
             if rateAlgor == RateAlgorTimeKappa:
-                stepSize[:] = (b + plan.rate_delay)**(-plan.forgetting_rate)
+                # formula assumes 1-counting, instead of zero-counting
+                stepSize[:] = (b + 1 + plan.rate_delay)**(-plan.forgetting_rate)
             elif rateAlgor == RateAlgorVariance:
                 update_inplace_v(gradStep, ex_grad, change=grad)
                 gtg = stepSize.copy()
-- 
2.43.0


From 03fecf07a4d2a6e4c80cc1767c77970c79a0e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 38/58] fix: average gradients with weights below one in the
 variance-adapted learning rate, and leave the gradient itself unscaled

---
 sidetopics/model/lda_vb_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index f36fe8d..ec1764f 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -417,14 +417,14 @@ def train(data, model, query, plan, updateVocab=True):
                 # formula assumes 1-counting, instead of zero-counting
                 stepSize[:] = (b + 1 + plan.rate_delay)**(-plan.forgetting_rate)
             elif rateAlgor == RateAlgorVariance:
-                update_inplace_v(gradStep, ex_grad, change=grad)
+                update_inplace_v(gradStep, ex_grad, change=grad.copy())
                 gtg = stepSize.copy()
                 for k in range(K):
                     stepSize[k] = np.dot(ex_grad[k,:], ex_grad[k,:])
                     gtg[k] = np.dot(grad[k,:], grad[k,:])
                 update_inplace_s(gradStep, old=exp_gtg, change=gtg)
                 stepSize /= exp_gtg
-                gradStep  = gradStep * (1 - stepSize) + 1
+                gradStep  = 1. / ((1 - stepSize) / gradStep + 1) # the inverse of the memory size
             elif rateAlgor == RateAlgorAmaria:
                 topicMeans = _convertMeansToDirichletParam(docLens, topicMeans, topicPrior)
                 # doc_indices = np.linspace(firstD, firstD + batchSize -1, batchSize) % D
-- 
2.43.0


From 295993ac40148b1d0e7993e8e8ab2d8515815a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 39/58] fix: convert topics back to means after measuring the
 bound

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index ec1764f..b9089f6 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -437,7 +437,7 @@ def train(data, model, query, plan, updateVocab=True):
                 a, b  = plan.rate_a, plan.rate_b
                 p    *= exp(a * (b * -log_likely - p))
                 stepSize[:] = p
-                topicMeans = _convertMeansToDirichletParam(docLens, topicMeans, topicPrior)
+                topicMeans = _convertDirichletParamToMeans(docLens, topicMeans, topicPrior)
             else:
                 raise ValueError("No code to support the '" + str(plan.rate_algor) + "' learning rate adaptation algorithm")
 
-- 
2.43.0


From 1753bd2f74751d0b29d8bb3e5ff024c1bb0a8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 40/58] fix: copy the variance counts, not the mean counts,
 when copying a CVB model

---
 sidetopics/model/lda_cvb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7cc1d10..982433e 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -76,9 +76,9 @@ def newModelFromExisting(model):
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
-        None if model.v_dk is None else model.n_dk.copy(), \
-        None if model.v_kt is None else model.n_kt.copy(), \
-        None if model.v_k  is None else model.n_k.copy(),  \
+        None if model.v_dk is None else model.v_dk.copy(), \
+        None if model.v_kt is None else model.v_kt.copy(), \
+        None if model.v_k  is None else model.v_k.copy(),  \
         model.dtype,       \
         model.name)
 
-- 
2.43.0


From 369f38a5fb0b16d6dd32b207201b0a4446b6031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 41/58] fix: copy the priors of a model together with its
 counts

---
 sidetopics/model/dmr.py           | 5 +++--
 sidetopics/model/lda_cvb.py       | 5 +++--
 sidetopics/model/lda_cvb0.py      | 5 +++--
 sidetopics/model/lda_gibbs.py     | 5 +++--
 sidetopics/model/lda_svb.py       | 5 +++--
 sidetopics/model/lda_vb.py        | 5 +++--
 sidetopics/model/lda_vb_python.py | 5 +++--
 sidetopics/model/mom_em.py        | 5 +++--
 sidetopics/model/mom_gibbs.py     | 5 +++--
 9 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 1723a61..ee6c4bd 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -18,6 +18,7 @@ from math import e
 
 
 from collections import namedtuple
+from copy import deepcopy
 import numpy as np
 import numpy.random as rd
 import scipy.optimize as optim
@@ -116,8 +117,8 @@ def newModelFromExisting(model):
         model.K, \
         model.T, \
         model.weights.copy(), \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.n_dk_samples is None else model.n_dk_samples.copy(), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 982433e..74e9ed2 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -19,6 +19,7 @@ from math import e
 
 
 from collections import namedtuple
+from copy import deepcopy
 import numpy as np
 import scipy.special as fns
 import numpy.random as rd
@@ -71,8 +72,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index c859cfa..b9e98c0 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -19,6 +19,7 @@ from math import e
 
 
 from collections import namedtuple
+from copy import deepcopy
 import numpy as np
 import scipy.special as fns
 import numpy.random as rd
@@ -73,8 +74,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index e9c5c4d..52e1b23 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -18,6 +18,7 @@ from math import e
 
 
 from collections import namedtuple
+from copy import deepcopy
 import numpy as np
 import numpy.random as rd
 
@@ -111,8 +112,8 @@ def newModelFromExisting(model):
     return ModelState(\
         model.K, \
         model.T, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
         model.numSamples, \
diff --git a/sidetopics/model/lda_svb.py b/sidetopics/model/lda_svb.py
index 04919d8..4ccf852 100644
--- a/sidetopics/model/lda_svb.py
+++ b/sidetopics/model/lda_svb.py
@@ -17,6 +17,7 @@ from math import pi
 from math import e
 
 from collections import namedtuple
+from copy import deepcopy
 import numpy as np
 import numpy.random as rd
 import scipy.special as fns
@@ -73,8 +74,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(), \
         model.dtype,       \
         model.name)
diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index 9944f1c..d70a81d 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -17,6 +17,7 @@ from math import pi
 from math import e
 
 from collections import namedtuple
+from copy import deepcopy
 import numpy as np
 import numpy.random as rd
 import scipy.special as fns
@@ -73,8 +74,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(), \
         model.dtype,       \
         model.name)
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index b9089f6..f9e4387 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -20,6 +20,7 @@ from sidetopics.util.misc import constantArray, converged
 from sidetopics.model.evals import perplexity_from_like
 
 from collections import namedtuple
+from copy import deepcopy
 
 MODEL_NAME = "lda/vbp"
 DTYPE      = np.float64
@@ -56,8 +57,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
         model.dtype, \
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 24b85c4..765d4ff 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -20,6 +20,7 @@ from sidetopics.util.overflow_safe import safe_log
 from sidetopics.model.common import DataSet
 
 from collections import namedtuple
+from copy import deepcopy
 
 CHANGE_TOLERANCE = 0.001
 
@@ -52,8 +53,8 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDistParam is None else model.wordDistParam.copy(),
         None if model.corpusTopicDistParam is None else model.corpusTopicDistParam.copy(),
         model.processed, \
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 99e0355..4af4c7b 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -15,6 +15,7 @@ from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 from sidetopics.util.overflow_safe import safe_log
 
 from collections import namedtuple
+from copy import deepcopy
 
 MODEL_NAME = "mom/em"
 DTYPE = np.float64
@@ -45,8 +46,8 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
         model.dtype, \
-- 
2.43.0


From 4e2d0cbd8a6497f6bb0004d1864a7aed5b203b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 42/58] fix: never thin the samples of a mixture by zero

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 4af4c7b..04cb477 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -141,7 +141,7 @@ def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=F
     if burnIn is None:
         burnIn = iterations // 4
     if thinning is None:
-        thinning = min(1, iterations // 10)
+        thinning = max(1, iterations // 10)
 
     return TrainPlan(iterations, epsilon, logFrequency, fastButInaccurate, debug, burnIn, thinning)
 
-- 
2.43.0


From 0172c6c285140961a83ccecd735839ff9dfa3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 43/58] fix: allocate the sampled word distributions when none
 are given

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 04cb477..b007cab 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -210,7 +210,7 @@ def sample_dirichlet(W, beta, memberships, out=None):
 
     prior = np.ndarray((T,), dtype=np.float64)
     if out is None:
-        out = np.ndarray((K, T), dtpe=np.float64)
+        out = np.ndarray((K, T), dtype=np.float64)
 
     for k in range(K):
         prior[:] = W.T.dot(memberships[:, k])
-- 
2.43.0


From 99904da6dfab92505a9d82fa22f1ae30c9465406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 44/58] fix: measure the likelihood of a mixture under training
 by its own name

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index b007cab..3a2daf6 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -283,7 +283,7 @@ def train(data, model, query, plan, updateVocab=True):
 
             iters.append(itr)
             bnds.append(var_bound(data, m, q))
-            likes.append(log_likelihood(data, m, q))
+            likes.append(log_likelihood_point(data, m, q))
 
             perp = perplexity_from_like(likes[-1], W.sum())
             print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (itr, perp, bnds[-1]))
-- 
2.43.0


From 02ef833bfc0df6c0dbc3614cb3d9eb081c3fc30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 45/58] fix: report a topic distribution even if a mixture
 query was too short to take a sample

---
 sidetopics/model/mom_gibbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 3a2daf6..b324bc4 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -331,6 +331,10 @@ def query(data, model, queryState, queryPlan):
             sample_accum += topicDists
             sample_count += 1
 
+    if sample_count == 0: # too few iterations, so fall back to the last draw
+        sample_accum += topicDists
+        sample_count = 1
+
     sample_accum /= sample_count
     return model, QueryState(queryState.docLens, sample_accum, True)
 
-- 
2.43.0


From 5cfe0f2249b2bcbccc5507b8b8fe1c792b513e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:39 +0000
Subject: [PATCH 46/58] fix: take the logarithm of the summed topic likelihoods
 in mixture scores

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 3a7cc7a..6bb1bb3 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -557,7 +557,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # sum to get overall likelihood across all topics, adding back in the factor we used
             # to control overflow.
-            result = adj_per_doc_likes.sum(axis=1)
+            result = np.log(adj_per_doc_likes.sum(axis=1))
             result += max_log_like
 
             return result
-- 
2.43.0


From ac465c74175e85b4459dd4e29129546b7ee72158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:39 +0000
Subject: [PATCH 47/58] fix: accept a single-row matrix of corpus-wide weights
 in mixture scores

---
 sidetopics/model/sklearn/lda_cvb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 6bb1bb3..dece911 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -544,9 +544,9 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # Get the log-likelihoods for each component
             per_doc_log_likes = (X.words @ lnComps.T)
-            if lnWeights.ndim == 1 or ((lnWeights.shape[0] == 1) and (X.words.shape[0] > 1)):
+            if lnWeights.ndim == 1:
                 per_doc_log_likes += lnWeights[np.newaxis, :]
-            else:
+            else: # either a row per document, or one row broadcast to all documents
                 per_doc_log_likes += lnWeights
 
             # substract off a factor to avoid overflow/ underflow, then exponentiate to get likelioods
-- 
2.43.0


From da9aa1c9ad50b2f903c5c2cdabb61a9963bd0397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:39 +0000
Subject: [PATCH 48/58] fix: copy scikit-learn topic models with their own
 parameters and their own kind of model

---
 sidetopics/model/sklearn/lda_cvb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index dece911..1fc9395 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -230,10 +230,11 @@ class TopicModel(BaseEstimator, TransformerMixin):
         Slightly shallow copy, last query state is not amended
         :return:
         """
-        result = TopicModel()
-        result.set_params(**result.get_params())
-        result._model_state = _lda_cvb0.newModelFromExisting(self._model_state)
+        result = TopicModel(**self.get_params())
+        if self._model_state is not None:
+            result._model_state = TopicModelType[self.kind].value.newModelFromExisting(self._model_state)
         result._last_query_state = self._last_query_state
+        result._last_X = self._last_X
         return result
     
     
-- 
2.43.0


From 914cbc385c8b4ac63ed080272d47ccf708d82fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:39 +0000
Subject: [PATCH 49/58] fix: report each training metric under its own name
 when some are missing

---
 sidetopics/model/sklearn/lda_cvb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 1fc9395..8b76372 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -114,9 +114,9 @@ class EpochMetrics(NamedTuple):
     @staticmethod
     def from_ibl_tuple(vals : Tuple[List[int], List[float], List[float]]) -> "EpochMetrics":
         return EpochMetrics(
-            iters=None if len(vals) == 0 else vals[0],
-            bound_values=None if len(vals) == 1 else vals[1],
-            likelihood_values=None if len(vals) == 2 else vals[2],
+            iters=None if len(vals) < 1 else vals[0],
+            bound_values=None if len(vals) < 2 else vals[1],
+            likelihood_values=None if len(vals) < 3 else vals[2],
         )
 
 class TrainingStyleTypes(enum.Enum):
-- 
2.43.0


From c80a27769c2ab5cf8d33ce1a5a0dde48e460d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:39 +0000
Subject: [PATCH 50/58] fix: infer the query state when asked for an expected
 score without assignments

---
 sidetopics/model/sklearn/lda_cvb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 8b76372..b01dc92 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -452,7 +452,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
         elif (y is None) and (y_query_state is None):
             if not method.is_doc_completion():
                 logging.warning("No representation (y), or distribution (y_query_state), querying for y instead")
-                y = self.transform(X)
+                query_state = self.find_query_state_via_transform(X, {}, persist_query_state=False)
+                y = module.topicDists(query_state)
             else:
                 test_infer, test_eval = X.doc_completion_split()
                 y = self.transform(test_infer)
-- 
2.43.0


From 51d7099db2e2312c1b467579522bee8db8058fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 51/58] fix: provide perplexities for Gibbs-sampled topic
 models

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 52e1b23..5e29d94 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -24,6 +24,7 @@ import numpy.random as rd
 
 import sidetopics.model.lda_gibbs_fast as compiled
 
+from sidetopics.model.evals import perplexity_from_like
 from sidetopics.util.misc import constantArray
 from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 import sidetopics.model.lda_vb_python as lda_vb
-- 
2.43.0


From 0f9f06c55d583b5379856c74bafb59670b0cc8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 52/58] fix: use the token count for the perplexity printed
 while training DMR

---
 sidetopics/model/dmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index ee6c4bd..e6aa4ad 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -217,7 +217,7 @@ def train (data, model, query, plan):
             likely = log_likelihood(data, \
                 ModelState (K, T, weights, topicPrior, vocabPrior, n_dk_samples, topicSum, vocabSum, sample_count, dtype, name), \
                 QueryState (w_list, z_list, docLens, topicSum, sample_count))
-            perp = perplexity_from_like(likely, data)
+            perp = perplexity_from_like(likely, data.word_count)
             print ("Sample-Count = %3d  Perplexity = %7.2f" % (sample_count, perp))
 
         updateWeights(n_dk_samples, sample_count, X, weights, debug)
-- 
2.43.0


From 1e4365bfa1cebdaf5a923fec2a809dc23a6d91d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 53/58] fix: measure the bound of a mixture from the fields its
 model has

---
 sidetopics/model/mom_em.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 765d4ff..142a4bb 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -398,8 +398,8 @@ def var_bound(data, model, query, topicDistOverride=None):
     # Unpack the the structs, for ease of access and efficiency
     docLens, topicMeans = \
         query.docLens, query.topicDists
-    K, topicPrior, vocabPrior, wordDists, corpusTopicDist, dtype = \
-        model.K, model.topicPrior, model.vocabPrior, model.wordDists, model.corpusTopicDist, model.dtype
+    wordDist, corpusTopicDist = \
+        wordDists(model), corpusTopicDistDirichletParam(model)
 
     tops = topicDistOverride \
         if topicDistOverride is not None \
@@ -409,12 +409,12 @@ def var_bound(data, model, query, topicDistOverride=None):
     W = data.words
     D, T = W.shape
 
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
+    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDist).sum()
     topicLikely = topicMeans.dot(fns.digamma(corpusTopicDist) - fns.digamma(corpusTopicDist.sum()))
 
 
     # Expected joint
-    like = W.dot(safe_log(wordDists).T) # D*K
+    like = W.dot(safe_log(wordDist).T) # D*K
     like += corpusTopicDist[np.newaxis,:]
     like *= safe_log(topicMeans)
 
-- 
2.43.0


From 0498da33b838e64e3ce733283153c48663561854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 54/58] fix: score mixtures sampled by Gibbs with the mixture
 likelihood

---
 sidetopics/model/mom_gibbs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index b324bc4..0396e56 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -176,8 +176,10 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
-    return wordLikely
+    # ln p(x|topic=k, word_dist) + ln p(topic=k) for all documents, for all k
+    lls = data.words @ safe_log(wordDists(model)).T
+    lls += safe_log(tops)
+    return fns.logsumexp(lls, axis=1).sum()
     # return (data.words.dot(wordDists(model).T) * model.corpusTopicDist).sum()
 
 
-- 
2.43.0


From cb0ffa225e9685839d3a1d84c74d52fe5ebc8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:22 +0000
Subject: [PATCH 55/58] fix: measure the likelihood of corpora of any word type
 under variational models

---
 sidetopics/model/lda_svb.py       | 3 ++-
 sidetopics/model/lda_vb.py        | 3 ++-
 sidetopics/model/lda_vb_python.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_svb.py b/sidetopics/model/lda_svb.py
index 4ccf852..28e0eff 100644
--- a/sidetopics/model/lda_svb.py
+++ b/sidetopics/model/lda_svb.py
@@ -382,7 +382,8 @@ def log_likelihood (data, modelState, queryState):
 
     Actually returns a vector of D document specific log likelihoods
     '''
-    return sparseScalarProductOfSafeLnDot(data.words, topicDists(queryState), wordDists(modelState)).sum()
+    W = data.words if data.words.dtype == modelState.dtype else data.words.astype(modelState.dtype)
+    return sparseScalarProductOfSafeLnDot(W, topicDists(queryState), wordDists(modelState)).sum()
 
 
 def var_bound(data, modelState, queryState, z_dnk = None):
diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index d70a81d..1840e74 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -372,7 +372,8 @@ def log_likelihood (data, modelState, queryState):
 
     Actually returns a vector of D document specific log likelihoods
     '''
-    return sparseScalarProductOfSafeLnDot(data.words, topicDists(queryState), wordDists(modelState)).sum()
+    W = data.words if data.words.dtype == modelState.dtype else data.words.astype(modelState.dtype)
+    return sparseScalarProductOfSafeLnDot(W, topicDists(queryState), wordDists(modelState)).sum()
 
 
 def var_bound(data, modelState, queryState, z_dnk = None):
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index f9e4387..cbf97c6 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -204,7 +204,8 @@ def log_likelihood (data, model, query, topicDistOverride=None):
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
+    W = data.words if data.words.dtype == model.dtype else data.words.astype(model.dtype)
+    wordLikely = sparseScalarProductOfSafeLnDot(W, tops, wordDists(model)).sum()
 
     return wordLikely
 
-- 
2.43.0


From 3eee81074244c354563c6859b3895d8c23daf439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:22 +0000
Subject: [PATCH 56/58] fix: hand out copies of the topic distributions of
 mixtures

Resuming a transform or a fit updates the persisted state in place, and so
changed the array an earlier transform had returned.
---
 sidetopics/model/mom_em.py    | 2 +-
 sidetopics/model/mom_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 142a4bb..d684958 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -179,7 +179,7 @@ def topicDists(queryState: QueryState) -> np.ndarray:
     The D x K matrix of distributions over K topics for each of the
     D documents
     '''
-    return queryState.topicDists
+    return queryState.topicDists.copy()
 
 
 def topicDistsDirichletParam(queryState: QueryState) -> np.array:
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 0396e56..ed8e2a2 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -162,7 +162,7 @@ def topicDists(queryState):
     The D x T matrix of distributions over K topics for each of the
     D documents
     '''
-    return queryState.topicDists
+    return queryState.topicDists.copy()
 
 
 # TODO Verify this is correct
-- 
2.43.0


From feba24fae39f0c16acbabdcf111961168f14038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:37 +0000
Subject: [PATCH 57/58] fix: score given assignments with every type of model

A point score uses the assignments alone; rebuilding an unused query state from
them failed for Gibbs-sampled models.
---
 sidetopics/model/sklearn/lda_cvb.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index b01dc92..fe56307 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -462,16 +462,6 @@ class TopicModel(BaseEstimator, TransformerMixin):
             if not method.is_point_estimate():
                 raise ValueError("Only support point scoring methods for point estimates of y. "
                                  "Pass in the full query-state to get a Bayesian estimate")
-            query_state = self.make_or_resume_query_state(X, should_resume=False)
-            query_state_fields = dir(query_state)
-            if "topicDists" in query_state_fields:
-                query_state = query_state._replace(topicDists=(y * X.doc_lens[:, np.newaxis]).astype(self._model_state.dtype))
-            elif "n_dk" in query_state_fields:
-                n_dk = (y * X.doc_lens[:, np.newaxis]).astype(self._model_state.dtype)
-                n_k = n_dk.sum(axis=0)
-                query_state = query_state._replace(n_dk=n_dk, n_k=n_k)
-            else:
-                raise ValueError("Can't amend query-state")
         elif y_query_state is not None:
             query_state = y_query_state
             y = module.topicDists(y_query_state)
-- 
2.43.0


From b1ba01c82e642440eb8b7799627e938bf93b246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:18 +0000
Subject: [PATCH 58/58] fix: count a topic's other documents plus its prior
 when sampling memberships

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index ed8e2a2..845f620 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -186,7 +186,7 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
 def sample_memberships(W, alpha, wordDists, memberships):
     _, K = memberships.shape
 
-    priorNum = memberships.sum(axis=0) + alpha - 1
+    priorNum = memberships.sum(axis=0) + alpha
     prior = priorNum.copy()
     sample_dists = W.dot(safe_log(wordDists).T)  # d x k
 
-- 
2.43.0

