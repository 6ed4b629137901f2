From 19fc561f47eff5d6e301e5692cf54754892ce9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 01/96] fix: TreeBasedTensor.full no longer rewrites the dims
 of its tree

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 04074de..5e4d0cd 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -532,6 +532,7 @@ class TreeBasedTensor:
 
         tensors = np.array(self.tensors)
 
+        node_dims = list(tree.dims)
         for level in np.arange(np.max(tree.level), -1, -1):
             nod_level = tensap.fast_setdiff(tree.nodes_with_level(level), tree.dim2ind)
             for nod in nod_level:
@@ -545,10 +546,10 @@ class TreeBasedTensor:
                             [dims.size],
                         )
                         tensors[child - 1] = None
-                        dims = np.concatenate((tree.dims[child - 1], dims))
+                        dims = np.concatenate((node_dims[child - 1], dims))
                     else:
-                        dims = np.concatenate((dims, tree.dims[child - 1]))
-                tree.dims[nod - 1] = dims
+                        dims = np.concatenate((dims, node_dims[child - 1]))
+                node_dims[nod - 1] = dims
 
         tensor = tensors[tree.root - 1]
         if tensor.order > self.order:
-- 
2.43.0


From 9748c12dfd84c681671ccf8fcd77b61572735118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 02/96] fix: nodes_permutation_cost no longer overwrites the
 ranks of the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 5e4d0cd..dcffe8b 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -707,7 +707,7 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        ranks = self.ranks
+        ranks = np.array(self.ranks)
         ranks[self.non_active_nodes - 1] = self.shape[
             np.logical_not(self.is_active_node[tree.dim2ind - 1])
         ]
-- 
2.43.0


From 5197963fff5241032a68bbabc56f7771fd8da25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 03/96] fix: permute_leaves no longer sorts the permutation of
 the caller in place

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index dcffe8b..ba15329 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1054,7 +1054,7 @@ class TreeBasedTensor:
 
         """
         tensor = self
-        perm = np.atleast_1d(perm)
+        perm = np.array(perm, ndmin=1)
         if not np.array_equal(perm, np.sort(perm)):
             # Decomposition of the permutation into a sequence of elementary
             # permutations of two dimensions
-- 
2.43.0


From 5964e45220c8c51a11e188aab7a68350b8fecd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 04/96] fix: TreeBasedTensor.eval_diag along some dimensions no
 longer replaces a core of the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index ba15329..d837d8a 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1268,7 +1268,8 @@ class TreeBasedTensor:
             subtree, nodes = tree.sub_dimension_tree(alpha)
             xs = tensap.TreeBasedTensor(self.tensors[nodes - 1], subtree)
             xs = xs.eval_diag()
-            self.tensors[alpha - 1] = xs
+            tensors = np.array(self.tensors)
+            tensors[alpha - 1] = xs
             # indices of the nodes that are kept
             keep_ind = tensap.fast_setdiff(
                 np.arange(tree.nb_nodes), tree.descendants(alpha) - 1
@@ -1286,7 +1287,7 @@ class TreeBasedTensor:
             mu = np.where(alpha == keep_ind + 1)[0][0] + 1
             dim2ind.insert(0, mu)
             newtree = tensap.DimensionTree(dim2ind, adj)
-            return TreeBasedTensor(self.tensors[keep_ind], newtree)
+            return TreeBasedTensor(tensors[keep_ind], newtree)
 
     def cat(self, tensor2):
         """
-- 
2.43.0


From 79a391c8aa6efb9d40cb7bda0fbea9225f9696ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 05/96] fix: remove_unique_children no longer modifies the
 tensor and its tree

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index d837d8a..349369d 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1620,10 +1620,10 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        tensors = self.tensors
+        tensors = np.array(self.tensors)
         nb_children = np.count_nonzero(tree._children, 0)
         unique_children = tree._children[0, (nb_children == 1)]
-        adj = tree.adjacency_matrix
+        adj = np.array(tree.adjacency_matrix)
         dim2ind = np.array(tree.dim2ind)
 
         for level in np.arange(np.max(tree.level), -1, -1):
-- 
2.43.0


From 121ef70b9394ad49c983629cde303239e7a6c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 06/96] fix: CanonicalTensor.eval_diag no longer overwrites a
 factor of the tensor

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 8d9f6cd..9f85886 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -345,7 +345,7 @@ class CanonicalTensor:
 
         out = self.space[dims[0]]
         for k in dims[1:]:
-            out *= self.space[k]
+            out = out * self.space[k]
 
         if is_none or dims.size == self.order:
             out = tensap.FullTensor(np.matmul(out, self.core.data))
-- 
2.43.0


From 2a38342fd46546cfb5af65ea0056f2d7768a39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 07/96] fix: comparing multi-index sets no longer tiles the
 right operand in place

---
 tensap/tools/multi_indices.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5138081..06da4f5 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -77,16 +77,18 @@ class MultiIndices:
         if not isinstance(J, MultiIndices):
             ok = False
         else:
+            array = J.array
             if J.cardinal() == 1:
-                J.array = np.tile(J.array, (self.cardinal(), 1))
-            ok = np.all(self.array == J.array, axis=1)
+                array = np.tile(array, (self.cardinal(), 1))
+            ok = np.all(self.array == array, axis=1)
         return ok
 
     def __le__(self, J):
         assert isinstance(J, MultiIndices), "Must provide a MultiIndices."
+        array = J.array
         if J.cardinal() == 1:
-            J.array = np.tile(J.array, (self.cardinal(), 1))
-        return np.all(self.array <= J.array, axis=1)
+            array = np.tile(array, (self.cardinal(), 1))
+        return np.all(self.array <= array, axis=1)
 
     def __add__(self, m):
         return MultiIndices(self.array + m)
-- 
2.43.0


From 4dc0642ad5caeb770f3f69cc0a3f2bc38bff632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 08/96] fix: reflected addition and subtraction of a
 multi-index set return a new set

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 06da4f5..05b0728 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -94,13 +94,13 @@ class MultiIndices:
         return MultiIndices(self.array + m)
 
     def __radd__(self, m):
-        self.array += m
+        return MultiIndices(m + self.array)
 
     def __sub__(self, m):
         return MultiIndices(self.array - m)
 
     def __rsub__(self, m):
-        self.array -= m
+        return MultiIndices(m - self.array)
 
     def cardinal(self):
         """
-- 
2.43.0


From 65db4eff064c4b535ed5189479b4777b9c2a4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 09/96] fix: MultiIndices.product_set no longer modifies the
 list it is given

---
 tensap/tools/multi_indices.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 05b0728..6b8fcd1 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -743,6 +743,7 @@ class MultiIndices:
             d = len(L)
         if len(L) == 1 and d > 1:
             L = list(L) * d
+        L = list(L)
 
         for i in range(len(L)):
             if isinstance(L[i], MultiIndices):
-- 
2.43.0


From 4a2ec09895992db8bce811163d401850e468ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 10/96] fix: random_multi_indices no longer replaces the
 intervals in the list it is given

---
 tensap/functions/measures/random_multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_multi_indices.py b/tensap/functions/measures/random_multi_indices.py
index f8eff61..a059149 100644
--- a/tensap/functions/measures/random_multi_indices.py
+++ b/tensap/functions/measures/random_multi_indices.py
@@ -44,7 +44,7 @@ def random_multi_indices(shape):
     order = len(shape)
 
     if np.all([isinstance(x, (list, np.ndarray)) for x in shape]):
-        ind = shape
+        ind = list(shape)
     else:
         ind = []
         for dim in range(order):
-- 
2.43.0


From 971a23a78a78cfbd1bff0126fe601422aa007e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 11/96] fix: FullTensorGrid no longer modifies the list of
 grids it is given

---
 tensap/tools/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/grids.py b/tensap/tools/grids.py
index 37950ad..9a4940a 100644
--- a/tensap/tools/grids.py
+++ b/tensap/tools/grids.py
@@ -182,6 +182,7 @@ class FullTensorGrid(TensorGrid):
                 np.ndim(grids) == 1
             ), "The first argument must be a unidimensional grid."
             grids = [np.reshape(grids, (-1, 1))] * dim
+        grids = list(grids)
         for i in range(len(grids)):
             if len(grids[i].shape) == 1:
                 grids[i] = np.reshape(grids[i], (-1, 1))
-- 
2.43.0


From e3ac9ed7b8e127d3166c1caf27e30a1ac2234042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 12/96] fix: DilatedBSplinesFunctionalBasis no longer modifies
 the list of indices it is given

---
 tensap/approximation/bases/BSplines_functional_basis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 8a7df1e..38f7706 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -359,10 +359,9 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
         if not isinstance(B, DilatedBSplines):
             raise ValueError("must provide a DilatedBSplines")
 
-        if isinstance(Ind, tuple):
-            Ind = list(Ind)
-        elif not isinstance(Ind, list):
+        if not isinstance(Ind, (list, tuple)):
             raise ValueError("must provide a list or tuple")
+        Ind = list(Ind)
 
         Ind[0] = np.ravel(Ind[0])
         Ind[1] = np.ravel(Ind[1])
-- 
2.43.0


From 6336f307472f6bfd51607bae328524abdcba7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 13/96] fix: hosvd and hsvd no longer overwrite the maximal
 rank of the truncator

---
 tensap/tensor_algebra/tools/truncator.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 207a7d7..bf653dc 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -20,6 +20,7 @@ Module truncator.
 """
 
 import warnings
+from copy import copy
 import numpy as np
 import tensap
 
@@ -268,9 +269,10 @@ class Truncator:
             local_tol = self.tolerance / np.sqrt(order)
             if isinstance(tensor, tensap.FullTensor):
                 vec = np.empty(order, dtype=object)
+                local = copy(self)
                 for dim in range(order):
-                    self.max_rank = max_rank[dim]
-                    vec[dim] = self.trunc_svd(tensor.matricize(dim).numpy(), local_tol)
+                    local.max_rank = max_rank[dim]
+                    vec[dim] = local.trunc_svd(tensor.matricize(dim).numpy(), local_tol)
                     vec[dim] = vec[dim].space[0]
                 core = tensor.tensor_matrix_product(np.transpose(vec[0]), 0)
                 for dim in np.arange(1, order):
@@ -329,6 +331,7 @@ class Truncator:
             max_rank = np.repeat(max_rank, tree.nb_nodes)
             max_rank[tree.root - 1] = 1
 
+        local = copy(self)
         local_tol = self.tolerance / np.sqrt(np.count_nonzero(is_active_node) - 1)
 
         if isinstance(tensor, tensap.FullTensor):
@@ -354,8 +357,8 @@ class Truncator:
                         if root_rank_greater_than_one:
                             rep_c = np.concatenate((rep_c, [tensor.order - 1]))
 
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(tensor.matricize(rep).numpy(), local_tol)
+                        local.max_rank = max_rank[nod - 1]
+                        tmp = local.trunc_svd(tensor.matricize(rep).numpy(), local_tol)
                         tensors[nod - 1] = tmp.space[0]
                         ranks[nod - 1] = tensors[nod - 1].shape[1]
                         shape_loc = np.hstack((shape[rep], ranks[nod - 1]))
@@ -398,8 +401,8 @@ class Truncator:
                     # Truncation of the Gramian in trace norm for a control
                     # of Frobenius norm of the tensor
                     if gram[nod] is not None:
-                        self.max_rank = max_rank[nod]
-                        tmp = self.trunc_svd(gram[nod], tolerance=local_tol**2, power=1)
+                        local.max_rank = max_rank[nod]
+                        tmp = local.trunc_svd(gram[nod], tolerance=local_tol**2, power=1)
                         shape[nod] = tmp.core.shape[0]
                         mat[nod] = np.transpose(tmp.space[0])
 
@@ -444,8 +447,8 @@ class Truncator:
                     ):
                         # Truncation of the Gramian in trace norm for a control
                         # of Frobenius norm of the tensor
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(gram[nod - 1], local_tol**2, power=1)
+                        local.max_rank = max_rank[nod - 1]
+                        tmp = local.trunc_svd(gram[nod - 1], local_tol**2, power=1)
                         tmp = np.transpose(tmp.space[0])
                         order = out.tensors[nod - 1].order
                         out.tensors[nod - 1] = out.tensors[
-- 
2.43.0


From a0087e59eb86ca9530bef6a4e5d7c19a328028c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 14/96] fix: FunctionalBasis.orthonormalize no longer marks the
 basis it is called on

---
 tensap/approximation/bases/functional_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 727db80..b16384f 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -21,6 +21,7 @@ Module functional_basis.
 """
 
 from abc import abstractmethod
+from copy import copy
 from scipy.sparse import diags
 import numpy as np
 import tensap
@@ -444,7 +445,7 @@ class FunctionalBasis:
 
         """
         G = self.gram_matrix()
-        out = self
+        out = copy(self)
         if np.linalg.norm(G - np.eye(G.shape[0]), 2):
             A = np.linalg.inv(np.linalg.cholesky(G))
             out = tensap.SubFunctionalBasis(self, np.transpose(A))
-- 
2.43.0


From cae7442d5e80832e8c76ddd6d05507dcf5f04d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 15/96] fix: LinearModelLearningSquareLoss.solve leaves the
 user's training data unchanged

---
 .../linear_model_learning_square_loss.py      | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d5c355a..453b68d 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -19,6 +19,7 @@ Module linear_model_learning_square_loss.
 
 """
 
+from copy import copy
 import numpy as np
 from scipy.sparse import diags
 import tensap
@@ -86,6 +87,11 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         """
         self.initialize()
 
+        # The linear system is modified on a copy of the solver, so that the data
+        # provided by the user are left unchanged
+        solver = copy(self)
+        solver.training_data = list(self.training_data)
+
         A = self.basis_eval
         y = self.training_data[1]
 
@@ -98,8 +104,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 A = np.transpose(A, [0, 2, 1])
                 A = np.reshape(A, [-1, A.shape[2]], order="F")
                 y = np.reshape(y, [-1, 1], order="F")
-                self.basis_eval = A
-                self.training_data[1] = y
+                solver.basis_eval = A
+                solver.training_data[1] = y
         if np.ndim(y) == 2:
             n = y.shape[1]
         else:
@@ -114,29 +120,29 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if not self.basis_adaptation:
             if not self.regularization:
-                sol, output = self._solve_ols()
+                sol, output = solver._solve_ols()
             else:
                 if n == 1:
-                    sol, output = self._solve_regularized_ls()
+                    sol, output = solver._solve_regularized_ls()
                 else:
                     sol = np.zeros([A.shape[1], n])
                     output["error"] = np.zeros(n)
                     output["outputs"] = np.empty(n, dtype=object)
                     for ind in range(n):
-                        self.training_data[1] = y[:, ind]
-                        sol[:, ind], output_tmp = self._solve_regularized_ls()
+                        solver.training_data[1] = y[:, ind]
+                        sol[:, ind], output_tmp = solver._solve_regularized_ls()
                         output["error"][ind] = output_tmp["error"]
                         output["outputs"][ind] = output_tmp
         else:
             if n == 1:
-                sol, output = self._solve_basis_adaptation()
+                sol, output = solver._solve_basis_adaptation()
             else:
                 sol = np.zeros([A.shape[1], n])
                 output["error"] = np.zeros(n)
                 output["outputs"] = np.empty(n, dtype=object)
                 for ind in range(n):
-                    self.training_data[1] = y[:, ind]
-                    sol[:, ind], output_tmp = self._solve_basis_adaptation()
+                    solver.training_data[1] = y[:, ind]
+                    sol[:, ind], output_tmp = solver._solve_basis_adaptation()
                     output["error"][ind] = output_tmp["error"]
                     output["outputs"][ind] = output_tmp
 
-- 
2.43.0


From 61935b193547150c8be586985d7c129056ce1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 16/96] fix: LinearModelLearningSquareLoss.solve uses the
 weights

---
 .../learning/linear_model_learning_square_loss.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 453b68d..bdfabf6 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -115,8 +115,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if self.weights is not None:
             weights = diags(np.sqrt(self.weights))
-            A = np.matmul(weights, A)
-            y = np.matmul(weights, y)
+            A = weights @ A
+            y = weights @ y
+            solver.basis_eval = A
+            solver.training_data[1] = y
 
         if not self.basis_adaptation:
             if not self.regularization:
-- 
2.43.0


From 04e3377780b835f6deb29630acb87fd55a35d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 17/96] fix: TreeBasedTensorLearning and
 CanonicalTensorLearning leave the user's rank and initial guess unchanged

---
 .../tensor_learning/canonical_tensor_learning.py              | 2 +-
 .../tensor_learning/tree_based_tensor_learning.py             | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index da8472a..a347466 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -88,7 +88,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         elif self.initialization_type == "ones":
             f = tensap.CanonicalTensor.ones(self.rank, shape)
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
         elif (
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 36a9778..d6d68b7 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -83,6 +83,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             rank = np.zeros(self.tree.nb_nodes, dtype=int)
             rank[self.is_active_node] = self.rank
             self.rank = rank
+        else:
+            self.rank = np.array(self.rank)
         self.rank[self.tree.root - 1] = self.output_dimension
 
         shape = [x.shape[1] for x in self.bases_eval]
@@ -95,7 +97,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 self.tree, self.rank, shape, self.is_active_node
             )
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
             if not np.all(f.ranks == self.rank):
                 tr = tensap.Truncator(tolerance=np.finfo(float).eps, max_rank=self.rank)
                 f = tr.truncate(f)
-- 
2.43.0


From 05fc796d494e98c8d3ccd6854dcff87ff2e139d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 18/96] fix: rank adaptation without rank-one correction
 (undefined local solver)

---
 .../tensor_learning/tree_based_tensor_learning.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index d6d68b7..c4c55ce 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -507,7 +507,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         dim2ind = np.intersect1d(f.tensor.tree.dim2ind, f.tensor.active_nodes)
         ind = [len(set(x.size)) == 1 for x in f.tensor.tensors[dim2ind - 1]]
         sin_val[dim2ind[ind] - 1] = np.nan
-        sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
+        if self.rank_adaptation_options["rank_one_correction"]:
+            sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
 
         sin_val_min = np.array([np.min(x) for x in sin_val])
         sin_val_min[
-- 
2.43.0


From 801be5004d69c509ff873b4e9c32f9c65a81e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 19/96] fix: rank adaptation draws from numpy's generator only,
 so that seeding it makes runs reproducible

---
 .../tensor_learning/tree_based_tensor_learning.py           | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index c4c55ce..a4dc0e9 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -21,7 +21,6 @@ Module tree_based_tensor_learning.
 
 from copy import deepcopy
 from itertools import combinations
-from random import shuffle
 import numpy as np
 import tensap
 
@@ -1324,10 +1323,9 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         ind = np.nonzero(delta)[0]
         for i in np.arange(1, np.count_nonzero(delta) + 1):
             pos = list(combinations(np.arange(np.count_nonzero(delta)), i))
-            shuffle(pos)
-            for pos_loc in pos:
+            for j in np.random.permutation(len(pos)):
                 delta_loc = np.array(delta)
-                delta_loc[ind[list(pos_loc)]] = 0
+                delta_loc[ind[list(pos[j])]] = 0
                 if f.is_admissible_rank(f.ranks + delta_loc):
                     rank = f.ranks + delta_loc
                     d = np.nonzero(delta_loc)[0] + 1
-- 
2.43.0


From 6a79084cbd885c87b60fda71a30bd4dc88ddcda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 20/96] fix: enriched_edges_to_ranks_random enriches the edges
 whose rank increases (node numbers, not positions)

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index a4dc0e9..8642976 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -1242,7 +1242,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         """
         f.is_orth = False
         tree = f.tree
-        enriched_dims = np.nonzero(new_rank > f.ranks)[0]
+        enriched_dims = np.nonzero(new_rank > f.ranks)[0] + 1
 
         for level in np.arange(1, np.max(tree.level) + 1):
             nod_lvl = np.intersect1d(tree.nodes_with_level(level), enriched_dims)
-- 
2.43.0


From 2ff5aad6a6b446cc281a5c95e15ae735981aeac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 21/96] fix: rank enrichment helpers no longer modify the
 tensor and the rank they are given

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 8642976..294d777 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -1240,6 +1240,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             The enriched tree-based tensor.
 
         """
+        f = deepcopy(f)
         f.is_orth = False
         tree = f.tree
         enriched_dims = np.nonzero(new_rank > f.ranks)[0] + 1
@@ -1309,6 +1310,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         """
         # Do not increase the ranks of leaf nodes with rank equal to the
         # dimension of the approximation space.
+        rank = np.array(rank)
         nodes = f.active_nodes
         ind = [f.tree.is_leaf[x] and rank[x] > f.tensors[x].shape[0] for x in nodes - 1]
         rank[nodes[ind] - 1] = [x.shape[0] for x in f.tensors[nodes[ind] - 1]]
-- 
2.43.0


From e53afa14b5592286f49a06a5e7261bf9ae304fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:51 +0000
Subject: [PATCH 22/96] fix: importing tensap no longer inserts a relative
 directory in sys.path

---
 tensap/functions/compositional_model_function.py     | 5 +----
 tensap/functions/multivariate_functions_benchmark.py | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/tensap/functions/compositional_model_function.py b/tensap/functions/compositional_model_function.py
index 93bd3c8..2cafae3 100644
--- a/tensap/functions/compositional_model_function.py
+++ b/tensap/functions/compositional_model_function.py
@@ -19,11 +19,8 @@ Module compositional_model_function
 
 """
 
-import sys
 import numpy as np
-
-sys.path.insert(0, "./../../../")
-import tensap  # noqa: E402
+import tensap
 
 
 class CompositionalModelFunction(tensap.Function):
diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index 2cacad7..da3a667 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -19,11 +19,8 @@ Module multivariate_functions_benchmark
 
 """
 
-import sys
 import numpy as np
-
-sys.path.insert(0, "./../../../")
-import tensap  # noqa: E402
+import tensap
 
 
 def multivariate_functions_benchmark(case, *args):
-- 
2.43.0


From 11224d2533c8cb16f8082e4b6f093e94ab739b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 23/96] fix: Latin hypercube samples follow numpy's global
 generator

---
 tensap/functions/measures/random_variable.py | 4 +++-
 tensap/functions/measures/random_vector.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index fccc011..c705042 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -308,7 +308,9 @@ class RandomVariable(tensap.ProbabilityMeasure):
         """
         from scipy.stats import qmc
 
-        sampler = qmc.LatinHypercube(d=1)
+        # Seeded with the global generator of numpy, to be reproducible
+        seed = np.random.randint(np.iinfo(np.int32).max)
+        sampler = qmc.LatinHypercube(d=1, seed=seed)
         A = sampler.random(n=n)
         U = tensap.UniformRandomVariable(0, 1)
         return U.transfer(self, A[:, 0])
diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 08d2edf..774322a 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -193,7 +193,9 @@ class RandomVector(tensap.ProbabilityMeasure):
         """
         from scipy.stats import qmc
 
-        sampler = qmc.LatinHypercube(d=self.size)
+        # Seeded with the global generator of numpy, to be reproducible
+        seed = np.random.randint(np.iinfo(np.int32).max)
+        sampler = qmc.LatinHypercube(d=self.size, seed=seed)
         A = sampler.random(n=n)
         A = RandomVector(tensap.UniformRandomVariable(0, 1), self.size).transfer(
             self, A
-- 
2.43.0


From 094bc6a4f7efb382d7e6bc0c28a9b32a4120dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 24/96] fix: BSplinesFunctionalBasis no longer stores a list
 shared between all its instances

---
 tensap/approximation/bases/BSplines_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 38f7706..b67d924 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -37,7 +37,7 @@ class BSplinesFunctionalBasis(tensap.FunctionalBasis):
         The degree of the spline.
     """
 
-    def __init__(self, knots=[], degree=[]):
+    def __init__(self, knots=(), degree=None):
         """
         Initializes the B-Splines with the given knots and degree.
 
-- 
2.43.0


From 9ae1007437e8dabae3fdef4c182ac00eb2f8d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 25/96] fix: LinearModelLearningCustomLoss draws its initial
 guess from numpy's global generator

---
 .../learning/linear_model_learning_custom_loss.py        | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_custom_loss.py b/tensap/approximation/learning/linear_model_learning_custom_loss.py
index 062bb0c..7bea4a3 100644
--- a/tensap/approximation/learning/linear_model_learning_custom_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_custom_loss.py
@@ -104,13 +104,8 @@ class LinearModelLearningCustomLoss(tensap.LinearModelLearning):
         self.initialize()
 
         if self.initial_guess is None:
-            self.initial_guess = tf.random.normal(
-                [self.basis_eval.shape[1]], dtype=tf.float64
-            )
-        else:
-            self.initial_guess = tf.convert_to_tensor(
-                self.initial_guess, dtype=tf.float64
-            )
+            self.initial_guess = np.random.randn(self.basis_eval.shape[1])
+        self.initial_guess = tf.convert_to_tensor(self.initial_guess, dtype=tf.float64)
 
         basis_eval = self.basis_eval
         training_data = self.training_data
-- 
2.43.0


From 7148401b92dd781c0846d0fc20971ad185626508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 26/96] fix: test_error given evaluations without points raises
 instead of reading an unset error

---
 tensap/functions/function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index cd7bcda..2dff63b 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -415,6 +415,10 @@ class Function:
                 err_linf = np.linalg.norm(
                     np.sqrt(np.sum((f_x_test - g_x_test) ** 2, 1)), np.inf
                 ) / np.linalg.norm(np.sqrt(np.sum(g_x_test**2, 1)), np.inf)
+            else:
+                raise ValueError(
+                    "Must provide the points associated with the evaluations."
+                )
 
         return err_l2, err_linf
 
-- 
2.43.0


From c4197fb242a9cedb0ab73e9c4881fb1017381876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 27/96] fix: unknown linear solver or loss function is rejected
 instead of reading an unbound result

---
 tensap/approximation/learning/learning.py              |  2 ++
 .../learning/linear_model_learning_square_loss.py      | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/tensap/approximation/learning/learning.py b/tensap/approximation/learning/learning.py
index 59e5ce5..229128a 100644
--- a/tensap/approximation/learning/learning.py
+++ b/tensap/approximation/learning/learning.py
@@ -47,6 +47,8 @@ class Learning:
             model = tensap.LinearModelLearningDensityL2()
         elif isinstance(loss_function, tensap.CustomLossFunction):
             model = tensap.LinearModelLearningCustomLoss(loss_function)
+        else:
+            raise NotImplementedError("Loss function not implemented.")
         return model
 
     def risk_estimation(self, fun, sample, *args):
diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index bdfabf6..ede0f0a 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -197,6 +197,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 sol = np.linalg.solve(r_A, np.matmul(np.transpose(q_A), y))
             except Exception:
                 sol = np.linalg.lstsq(r_A, np.matmul(np.transpose(q_A), y), None)[0]
+        else:
+            raise NotImplementedError("Linear solver not implemented.")
 
         if self.error_estimation:
             second_moment = np.var(y, 0) + np.mean(y, 0) ** 2
@@ -216,6 +218,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     error, delta = self._compute_cv_error(
                         y, second_moment, A, sol, self.linear_solver, q_A, r_A
                     )
+                else:
+                    raise NotImplementedError("Linear solver not implemented.")
             output["error"] = error
             output["delta"] = delta
 
@@ -314,6 +318,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     error, delta = self._compute_cv_error(
                         y, second_moment, A_red, sol_ind, self.linear_solver, q_A, r_A
                     )
+                else:
+                    raise NotImplementedError("Linear solver not implemented.")
             output["error"] = error
             output["delta"] = delta
 
@@ -445,6 +451,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 err[i], delta[:, i] = self._compute_cv_error(
                     y, second_moment, A_red, sol_red, "solve", C_red
                 )
+            else:
+                raise NotImplementedError("Linear solver not implemented.")
 
             sol[ind, i] = np.squeeze(sol_red)
 
@@ -556,6 +564,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 q_A, r_A = args
             elif linear_solver == "solve":
                 C = args[0]
+            else:
+                raise NotImplementedError("Linear solver not implemented.")
 
         # Compute the absolute cross-validation error (cross-validation error
         # estimate of the mean-squared error), also called mean predicted
-- 
2.43.0


From 7abcbaa8a80a7f3577b0005e1171028374bc2906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 28/96] fix: projections accept the values of the function at
 the points as documented

---
 tensap/approximation/bases/functional_basis.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index b16384f..de7cad2 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -289,10 +289,7 @@ class FunctionalBasis:
 
         """
 
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else fun
 
         A = self.eval(G.points)
         W = diags(np.sqrt(G.weights))
@@ -327,10 +324,7 @@ class FunctionalBasis:
 
         A = self.eval(G.points)
         W = diags(G.weights)
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else fun
 
         u = np.matmul(np.transpose(A), W.dot(y))
 
-- 
2.43.0


From 734d19a437af4e8052883417fcb3667f3375f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 29/96] fix: FunctionalBasisArray.projection on a full tensor
 product basis builds a basis

---
 tensap/approximation/bases/functional_basis_array.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bbc4228..d0a9332 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -619,12 +619,16 @@ class FunctionalBasisArray(tensap.Function):
             _, ia, ib = self.basis.indices.intersect_indices(indices)
             d[ib, :] = self.data[ia, :]
             if np.ndim(self.data) != np.ndim(d):
-                d = np.reshape(d, [basis.cardinal(), self.shape], order="F")
+                d = np.reshape(
+                    d, np.concatenate(([basis.cardinal()], self.shape)), order="F"
+                )
 
             if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
-                H = tensap.FullTensorProductIntegrationRule(basis.bases)
+                H = tensap.FullTensorProductFunctionalBasis(basis.bases)
             elif isinstance(basis, tensap.SparseTensorProductFunctionalBasis):
                 H = tensap.SparseTensorProductFunctionalBasis(basis.bases, indices)
+            else:
+                raise NotImplementedError("Method not implemented.")
             g = FunctionalBasisArray(d, H, self.shape)
         else:
             raise NotImplementedError("Method not implemented.")
-- 
2.43.0


From 0cc30084e4fa9c0f9ca644cfb66dfff7e46514cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 30/96] fix: missing bases or singularities are rejected with a
 ValueError

---
 tensap/approximation/bases/functional_bases.py                  | 2 ++
 .../bases/piecewise_polynomial_functional_basis.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 1739018..f379577 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -73,6 +73,8 @@ class FunctionalBases:
                 measure = tensap.ProductMeasure([x.measure for x in bases])
             else:
                 raise ValueError("Wrong argument.")
+        else:
+            raise ValueError("Must provide the functional bases.")
 
         self.bases = np.atleast_1d(bases)
         self.measure = measure
diff --git a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
index 51c855c..9288aa3 100644
--- a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
+++ b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
@@ -257,6 +257,8 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
             elif bi in s:
                 xi = np.concatenate([[0], 1 - 2.0 ** (-np.arange(1, ne + 1)), [1]])
                 pi = np.arange(xi.size - 2, -1, -1)
+            else:
+                raise ValueError("Must provide at least one singularity.")
             if i < e.size - 2:
                 xi = xi[:-1]
             xi = ai + xi * li
-- 
2.43.0


From fd6b2d93387fc8a893b9d431134e29828bc3d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 31/96] fix: tree-based learning without target values passes
 an empty right-hand side

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 294d777..3c938a9 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -262,6 +262,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         elif isinstance(self.training_data, list) and len(self.training_data) == 2:
             b = self.training_data[1]
             self.linear_model_learning[mu - 1].shared_coefficients = mu != tree.root
+        else:
+            b = []
 
         return self, A, b, f
 
-- 
2.43.0


From dbd70e8eb51e4f97d892b1acc037cc519aaa7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 32/96] fix: accept every tensor format in tensor product
 interpolation

---
 .../bases/full_tensor_product_functional_basis.py         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 41e62db..173782d 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -303,8 +303,12 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         # TODO Create an empty class Tensor for when using isinstance?
         elif isinstance(
             fun,
-            (tensap.FullTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor),
-            tensap.DiagonalTensor,
+            (
+                tensap.FullTensor,
+                tensap.CanonicalTensor,
+                tensap.TreeBasedTensor,
+                tensap.DiagonalTensor,
+            ),
         ):
             y = fun
         else:
-- 
2.43.0


From 6ed78b4c5d24102e7f72f1a0076f432e7062660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 33/96] fix: build the random vector of a product of
 probability measures

---
 tensap/approximation/bases/functional_bases.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index f379577..6f76d7c 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -426,7 +426,9 @@ class FunctionalBases:
         """
         if isinstance(self.measure, tensap.RandomVector):
             measure = self.measure
-        elif isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif isinstance(self.measure, tensap.ProductMeasure) and all(
+            isinstance(x, tensap.ProbabilityMeasure) for x in self.measure.measures
+        ):
             measure = self.measure.random_vector()
         else:
             measure = None
-- 
2.43.0


From 9685b6b3455688b5fc8c51ceccdf0c9b0f597f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 34/96] fix: raise the exception built in FunctionalBasis.kron

---
 tensap/approximation/bases/functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index de7cad2..edc79a6 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -218,7 +218,7 @@ class FunctionalBasis:
             The obtained basis.
 
         """
-        NotImplementedError("Method not implemented.")
+        raise NotImplementedError("Method not implemented.")
 
     def gram_matrix(self, G):
         """
-- 
2.43.0


From ba5edad55e4188467b2c3b634a346fca2c82c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 35/96] fix: numpy has no attribute true

---
 .../approximation/learning/linear_model_learning_square_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index ede0f0a..bf562a4 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -278,7 +278,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         if (self.model_selection and np.linalg.norm(
                 solpath) != 0) and solpath.shape[1] > 1:
             if "non_zero_blocks" in self.options:
-                rep = np.true(solpath.shape[1])
+                rep = np.full(solpath.shape[1], True)
                 rep = np.logical_and(rep, np.any(solpath, 0))
                 for block in self.options["non_zero_blocks"]:
                     rep = np.logical_and(rep, np.any(solpath[block, :], 0))
-- 
2.43.0


From 2a84a895305a851c7ab455fd6b2526f058108c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 36/96] fix: use the magic points greedy algorithm that exists

---
 .../approximation/tools/interpolation_points_feature_map.py  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tools/interpolation_points_feature_map.py b/tensap/approximation/tools/interpolation_points_feature_map.py
index 4566073..7d80faa 100644
--- a/tensap/approximation/tools/interpolation_points_feature_map.py
+++ b/tensap/approximation/tools/interpolation_points_feature_map.py
@@ -43,9 +43,8 @@ def interpolation_points_feature_map(F, x):
     # Evaluate the functional basis F at points x
     F_eval = F.eval(x)
 
-    # Apply the greedy algorithm to select points (assuming greedyAlgorithml2 is defined)
-    # Transpose to match the MATLAB behavior
-    L = tensap.greedy_algorithml2(F_eval.T, [])
+    # Apply a greedy algorithm to select the points
+    L = tensap.magic_indices(F_eval, F_eval.shape[1], "left")[0]
 
     # Select the corresponding rows from x
     xI = x[L, :]
-- 
2.43.0


From 151702e7b04c683a281b192d9ed3603968a4eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 37/96] fix: inner products, gradients and partial grids of
 functional tensors

---
 tensap/functions/functional_tensor.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8f48b53..04c7de7 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -241,8 +241,10 @@ class FunctionalTensor(tensap.Function):
                     "Tensors u and v do not have the same "
                     + "order, must specify fdims."
                 )
+        if measure:
+            raise NotImplementedError("Not implemented for a given measure.")
         if self.bases == f_2.bases:
-            gram_matrix = self.bases.gram_matrix(fdims, *measure)
+            gram_matrix = self.bases.gram_matrices(fdims)
         else:
             raise NotImplementedError("Method not implemented.")
         tensor = self.tensor.tensor_matrix_product(gram_matrix, fdims)
@@ -268,8 +270,10 @@ class FunctionalTensor(tensap.Function):
             The L^2 norm of self(X).
 
         """
+        if measure:
+            raise NotImplementedError("Not implemented for a given measure.")
         if not self.evaluated_bases:
-            gram_matrix = self.bases.gram_matrix(range(self.tensor.order), *measure)
+            gram_matrix = self.bases.gram_matrices()
         else:
             gram_matrix = [np.eye(x.shape[1]) for x in self.bases]
         tensor = self.tensor.tensor_matrix_product(
@@ -750,12 +754,12 @@ class FunctionalTensor(tensap.Function):
         """
         g = []
         for ind in range(self.bases.length()):
-            n = self.length() * [0]
+            n = self.bases.length() * [0]
             n[ind] = 1
             dHx = self.bases.eval_derivative(n, x)
             y = self.eval_with_bases_evals(dHx)
             g.append(y)
-        out = np.concatenate(g, axis=1)
+        out = np.stack(g, axis=1)
         return out
 
     def derivative(self, n):
@@ -806,7 +810,9 @@ class FunctionalTensor(tensap.Function):
             out = deepcopy(self)
             out.tensor = self.tensor.tensor_matrix_product(H, dims)
             out.bases = out.bases.remove_bases(dims)
-            out.fdims = out.fdims[np.setdiff1d(np.range(np.size(out.fdims)), dims)]
+            out.fdims = np.asarray(out.fdims)[
+                np.setdiff1d(np.arange(np.size(out.fdims)), dims)
+            ]
             if np.size(out.fdims) == 0:
                 out = out.tensor
         return out
-- 
2.43.0


From b2a86b633d5907864b52543f8ccd0a28002946f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 38/96] fix: matrix products and array shapes of the Genz
 functions

---
 tensap/functions/multivariate_functions_benchmark.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index da3a667..3ad8f55 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -240,7 +240,7 @@ def multivariate_functions_benchmark(case, *args):
 
             def fun(x):
                 return 1 / np.prod(
-                    np.tile(x ** (-2), (np.shape(x)[0], 1))
+                    np.tile(c ** (-2), (np.shape(x)[0], 1))
                     + (x + np.tile(w, (np.shape(x)[0], 1))) ** 2,
                     1,
                 )
@@ -256,8 +256,8 @@ def multivariate_functions_benchmark(case, *args):
         elif case == "gaussian":
 
             def fun(x):
-                return np.matmul(
-                    np.exp(
+                return np.exp(
+                    np.matmul(
                         -((x - np.tile(w, (np.shape(x)[0], 1))) ** 2),
                         np.transpose(c) ** 2,
                     )
@@ -266,8 +266,8 @@ def multivariate_functions_benchmark(case, *args):
         elif case == "continuous":
 
             def fun(x):
-                return np.matmul(
-                    np.exp(
+                return np.exp(
+                    np.matmul(
                         -np.abs(x - np.tile(w, (np.shape(x)[0], 1))),
                         np.transpose(c) ** 2,
                     )
-- 
2.43.0


From 9857b54415581c0b0435cbc6e7aa77b5a5ac4acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 39/96] fix: compare orthonormal polynomials by family and
 measure

---
 .../polynomials/orthonormal_polynomials.py      | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0e19241..0c9df85 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -61,20 +61,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         return 1, 0
 
     def __eq__(self, poly_2):
-        if not isinstance(poly_2, OrthonormalPolynomials):
-            out = False
-        else:
-            out = (
-                self.measure == poly_2.measure
-                and np.array_equal(
-                    self._recurrence_coefficients, poly_2._recurrence_coefficients
-                )
-                and np.array_equal(
-                    self._orthogonal_polynomials_norms,
-                    poly_2._orthogonal_polynomials_norms,
-                )
-                and self.is_orthonormal == poly_2.is_orthonormal
-            )
+        out = type(self) == type(poly_2) and bool(self.measure == poly_2.measure)
         return out
 
     def domain(self):
@@ -632,7 +619,7 @@ class EmpiricalPolynomials(OrthonormalPolynomials):
             self.measure = sample.get_standard_random_variable()
         else:
             # Standardization of the sample
-            x = np.reshape(self.sample, [-1, 1])
+            x = np.reshape(sample, [-1, 1])
             x = (x - np.tile(np.mean(x, 0), (x.shape[0], 1))) / np.tile(
                 np.std(x, 0), (x.shape[0], 1)
             )
-- 
2.43.0


From f532f96225aa5b099d034c8da4a680db8b321165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 40/96] fix: change_root of a tensor with a root rank, and
 tensordot_matrix_product_except_dim

---
 .../tensors/tree_based_tensor.py              | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 349369d..47907b9 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -609,8 +609,13 @@ class TreeBasedTensor:
         assert x.is_active_node[nod - 1], "Can not make an inactive node the root node."
 
         if x.ranks[x.tree.root - 1] > 1:
-            x.tree = x.tree.addChild(x.tree.root)
-            x.tensors = np.concatenate((x.tensors, []))
+            x.tree = x.tree.add_child(x.tree.root)
+            tensors = np.empty(x.tree.nb_nodes, dtype=object)
+            tensors[:-1] = x.tensors
+            tensors[-1] = tensap.FullTensor([])
+            x.tensors = tensors
+            x.is_active_node = np.concatenate((x.is_active_node, [False]))
+            x.order = x.tree.dim2ind.size
             x = x.update_attributes()
             x = x.change_root(nod)
         else:
@@ -1936,9 +1941,9 @@ class TreeBasedTensor:
             The result of the contraction.
 
         """
-        ind = self.tree.dim2ind(dim - 1)
-        out = self.reduce_dot_with_rank_one_metric_at_node(tensor2, matrices, ind)
-        return out[0]
+        return self.full().tensordot_matrix_product_except_dim(
+            tensor2.full(), matrices, dim
+        )
 
     # def reduce_dot_with_rank_one_metric_at_node(self, tensor2, matrices,
     #                                             alpha):
@@ -2711,8 +2716,8 @@ class TreeBasedTensor:
 
         Parameters
         ----------
-        tree : tensap.FullTensor
-            The considered tensap.FullTensor.
+        tree : tensap.DimensionTree
+            The considered tensap.DimensionTree.
 
         Returns
         -------
-- 
2.43.0


From 0a40c572ba28cc107c60152117d17e7f892aa080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 41/96] fix: remove the TensorGrid.shape method hidden by the
 attribute

---
 tensap/tools/grids.py | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/tensap/tools/grids.py b/tensap/tools/grids.py
index 9a4940a..d589f0d 100644
--- a/tensap/tools/grids.py
+++ b/tensap/tools/grids.py
@@ -64,27 +64,6 @@ class TensorGrid(ABC):
         """
         return self.dim
 
-    def shape(self, d=None):
-        """
-        Return the shape of the grid, along the dimension d if provided.
-
-        Equivalent to self.shape[d] if d is provided, self.shape otherwise.
-
-        Parameters
-        ----------
-        d : int, optional
-            The dimension for which the shape is asked. The default is None.
-
-        Returns
-        -------
-        numpy.ndarray
-            The shape of the grid.
-
-        """
-        if d is None:
-            return self.shape
-        return self.shape[d]
-
     def plot_grid(self, *args, **kwargs):
         """
         Plot the grid.
-- 
2.43.0


From 3ac5a1e3997dc69967ba60929e3e6d455a050827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 42/96] fix: projecting an array on a full basis is not
 implemented

---
 tensap/approximation/bases/functional_basis_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index d0a9332..928985a 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -612,7 +612,8 @@ class FunctionalBasisArray(tensap.Function):
                 raise ValueError("Must specify a MultiIndices.")
 
         if (
-            self.basis.ndim() == basis.ndim()
+            isinstance(self.basis, tensap.SparseTensorProductFunctionalBasis)
+            and self.basis.ndim() == basis.ndim()
             and self.basis.cardinal() <= basis.cardinal()
         ):
             d = np.zeros((basis.cardinal(), np.prod(self.shape)))
-- 
2.43.0


From 175bdf8186caa600cd4346a94856a4001755633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 43/96] fix: compare the measure of canonical polynomials

---
 tensap/functions/polynomials/polynomials.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index db54d37..068ecbd 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -318,7 +318,9 @@ class CanonicalPolynomials(UnivariatePolynomials):
         self.measure = measure
 
     def __eq__(self, poly_2):
-        return isinstance(poly_2, CanonicalPolynomials)
+        return isinstance(poly_2, CanonicalPolynomials) and bool(
+            self.measure == poly_2.measure
+        )
 
     @staticmethod
     def is_orthonormal():
-- 
2.43.0


From 527655664fb3619d484fbfd03629d75c9dcbd285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 44/96] fix: compare array parameters of random variables

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index c705042..5f3b12f 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -75,7 +75,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
             param_1 = self.get_parameters()
             param_2 = rv_2.get_parameters()
             for ind in zip(param_1, param_2):
-                is_equal = is_equal and (ind[0] == ind[1])
+                is_equal = is_equal and np.array_equal(ind[0], ind[1])
         return is_equal
 
     def __neq__(self, rv_2):
-- 
2.43.0


From 1d403407406fa44b8da11567f90f8fbb983d8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 45/96] fix: compare the copula of random vectors

---
 tensap/functions/measures/random_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 774322a..0897be2 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -92,7 +92,7 @@ class RandomVector(tensap.ProbabilityMeasure):
         elif len(self.random_variables) != len(rv_2.random_variables):
             is_equal = False
         else:
-            is_equal = True
+            is_equal = type(self.copula) == type(rv_2.copula)
             for ind in zip(self.random_variables, rv_2.random_variables):
                 is_equal = is_equal and (ind[0] == ind[1])
         return is_equal
-- 
2.43.0


From 3395989e45e49f7596ee8799690df92e28133ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 46/96] fix: compare product measures of different lengths or
 types

---
 tensap/functions/measures/product_measure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/product_measure.py b/tensap/functions/measures/product_measure.py
index f3630ba..038b9a3 100644
--- a/tensap/functions/measures/product_measure.py
+++ b/tensap/functions/measures/product_measure.py
@@ -68,7 +68,11 @@ class ProductMeasure(tensap.Measure):
         )
 
     def __eq__(self, measure_2):
-        return np.all([x == y for x, y in zip(self.measures, measure_2.measures)])
+        return (
+            isinstance(measure_2, ProductMeasure)
+            and len(self.measures) == len(measure_2.measures)
+            and all(x == y for x, y in zip(self.measures, measure_2.measures))
+        )
 
     def is_discrete(self):
         return np.all([x.is_discrete() for x in self.measures])
-- 
2.43.0


From 09c69f913471d665a8cd88c3cc49744b22556ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 47/96] fix: compare functional bases of different lengths

---
 tensap/approximation/bases/functional_bases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 6f76d7c..2b7b927 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -241,7 +241,8 @@ class FunctionalBases:
             out = False
         else:
             out = (
-                np.all([x == y for x, y in zip(self.bases, bases_2.bases)])
+                len(self.bases) == len(bases_2.bases)
+                and all(x == y for x, y in zip(self.bases, bases_2.bases))
                 and self.measure == bases_2.measure
             )
         return out
-- 
2.43.0


From dcc431e841b1934352a9ff0a8a5dff1be70eb366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 48/96] fix: compare index sets of sparse bases of different
 cardinals

---
 .../bases/sparse_tensor_product_functional_basis.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 66bfa28..aa81bde 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -73,7 +73,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         if not isinstance(G, SparseTensorProductFunctionalBasis):
             out = False
         else:
-            out = np.all(self.bases == G.bases) and np.all(self.indices == G.indices)
+            out = self.bases == G.bases and np.array_equal(
+                self.indices.array, G.indices.array
+            )
         return out
 
     def length(self):
-- 
2.43.0


From 5c5c1083d325625bfde9b1a70e80dfa77f9db8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 49/96] fix: no broadcasting when comparing full tensors

---
 tensap/tensor_algebra/tensors/full_tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index d4a117f..7cffdb5 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -187,7 +187,9 @@ class FullTensor:
         return self.data.__getitem__(key)
 
     def __eq__(self, tensor2):
-        return np.all(self.data == tensor2.data)
+        return isinstance(tensor2, FullTensor) and np.array_equal(
+            self.data, tensor2.data
+        )
 
     def __add__(self, arg):
         if isinstance(arg, FullTensor):
-- 
2.43.0


From 2d69953d93843a4f6d2bdf22c4b5853e3a1e7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 50/96] fix: trees with different numbers of nodes at a level
 are different

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 15fc3ad..4edb1bc 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -143,6 +143,8 @@ class DimensionTree:
         return DimensionTree(dim2ind, np.copy(self.adjacency_matrix))
 
     def __eq__(self, T):
+        if not isinstance(T, DimensionTree):
+            return False
         is_equal = (
             (len(self.dim2ind) == len(T.dim2ind))
             and (self.nb_nodes == T.nb_nodes)
@@ -154,7 +156,7 @@ class DimensionTree:
                 nodes1 = self.nodes_with_level(level)
                 nodes2 = T.nodes_with_level(level)
                 if len(nodes1) != len(nodes2):
-                    return is_equal
+                    return False
                 dims1 = [self.dims[i] for i in nodes1 - 1]
                 dims2 = [T.dims[i] for i in nodes2 - 1]
                 for i, dim1 in enumerate(dims1):
-- 
2.43.0


From 376ed124917f2336d52aa6db6b0221046bb84ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 51/96] fix: comparing index sets of different shapes

---
 tensap/tools/multi_indices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 6b8fcd1..7049d27 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -80,7 +80,10 @@ class MultiIndices:
             array = J.array
             if J.cardinal() == 1:
                 array = np.tile(array, (self.cardinal(), 1))
-            ok = np.all(self.array == array, axis=1)
+            if self.array.shape != array.shape:
+                ok = False
+            else:
+                ok = np.all(self.array == array, axis=1)
         return ok
 
     def __le__(self, J):
-- 
2.43.0


From c9bc235366695e5a45db204a981f00fa0bfd05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:00 +0000
Subject: [PATCH 52/96] fix: displaying progress does not change the type of
 the test error

---
 .../tensor_approximation/tensor_learning/tensor_learning.py | 6 +++---
 .../tensor_learning/tree_based_tensor_learning.py           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index bd6fbb0..fb482ff 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -507,9 +507,9 @@ class TensorLearning(tensap.Learning):
                 if "error" in output:
                     print(", error = %2.5e" % output["error"], end="")
                 if self.test_error:
-                    if not np.isscalar(output["test_error"]):
-                        output["test_error"] = output["test_error"].numpy()
-                    print(", test error = %2.5e" % output["test_error"], end="")
+                    print(
+                        ", test error = %2.5e" % float(output["test_error"]), end=""
+                    )
                 print("")
 
             if (
diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 3c938a9..ddb03b0 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -1035,9 +1035,9 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 if "error" in output:
                     print(", error = %2.5e" % output["error"], end="")
                 if self.test_error:
-                    if not np.isscalar(output["test_error"]):
-                        output["test_error"] = output["test_error"].numpy()
-                    print(", test error = %2.5e" % output["test_error"], end="")
+                    print(
+                        ", test error = %2.5e" % float(output["test_error"]), end=""
+                    )
                 print("")
 
             if (
-- 
2.43.0


From 55d579dfab90e957a8eb2f01838acd8abdd7becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 53/96] fix: optimize_dimension_tree stops when no node can be
 permuted

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 47907b9..0fc3900 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -788,11 +788,12 @@ class TreeBasedTensor:
             sigma = np.zeros([m_current, 2])
             tensor_current = copy.deepcopy(tensor_sigma)
             i = 0
-            while i < m_current:
+            movable = nodes
+            while i < m_current and movable.size:
                 proba_alpha = (
-                    tensor_current.ranks[tensor_current.tree.parent(nodes) - 1] ** 2
+                    tensor_current.ranks[tensor_current.tree.parent(movable) - 1] ** 2
                 )
-                alpha = np.random.choice(nodes, p=proba_alpha / np.sum(proba_alpha))
+                alpha = np.random.choice(movable, p=proba_alpha / np.sum(proba_alpha))
 
                 cost = tensor_current.nodes_permutation_cost(alpha)
                 if np.any(cost != 0):
@@ -806,6 +807,13 @@ class TreeBasedTensor:
                         sigma[i, :], tolerance / (m_current + m_star)
                     )
                     i += 1
+                    movable = nodes
+                else:
+                    movable = tensap.fast_setdiff(movable, alpha)
+
+            if i < m_current:
+                # No node of the tree can be permuted with another one
+                break
 
             c_current = tensor_current.storage()
             if c_current < c_star and tensor_current.is_admissible_rank():
-- 
2.43.0


From 458b3cd496c1524301edf4ab694d0fa5f8334c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 54/96] fix: index sets are complete when only the first index
 of the margin qualifies

---
 tensap/tools/multi_indices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 7049d27..a234395 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -646,7 +646,7 @@ class MultiIndices:
                 M = ind.get_margin()
                 n = M.norm(p)
                 k = np.nonzero(n <= m)[0]
-                if np.all(np.logical_not(k)):
+                if k.size == 0:
                     add = False
                 else:
                     j = np.argsort(n[k])
@@ -857,7 +857,7 @@ class MultiIndices:
             M = M.remove_indices(rem)
             n = np.delete(n, rem)
             k = np.nonzero(n <= m)[0]
-            if np.all(np.logical_not(k)):
+            if k.size == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
@@ -892,7 +892,7 @@ class MultiIndices:
             M = ind.get_margin()
             n = np.prod((M.array + 1) ** w_k, axis=-1)
             k = np.nonzero(n <= p + 1)[0]
-            if np.all(np.logical_not(k)):
+            if k.size == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
-- 
2.43.0


From 571dcf9774a233da920844ed4cc4e48614535b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:44 +0000
Subject: [PATCH 55/96] fix: recorded iterates are snapshots, not the model
 being iterated

---
 .../tensor_learning/tensor_learning.py          | 17 +++++++++++++----
 .../tree_based_tensor_learning.py               |  4 ++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index fb482ff..abf6076 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -470,10 +470,10 @@ class TensorLearning(tensap.Learning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(deepcopy(f))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
@@ -603,9 +603,11 @@ class TensorLearning(tensap.Learning):
 
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
-                    iterates[iteration] = tensap.FunctionalTensor(f.tensor, self.bases)
+                    iterates[iteration] = tensap.FunctionalTensor(
+                        deepcopy(f.tensor), self.bases
+                    )
                 else:
-                    iterates[iteration] = f
+                    iterates[iteration] = deepcopy(f)
 
             if self.display:
                 if self.alternating_minimization_parameters["display"]:
@@ -684,6 +686,13 @@ class TensorLearning(tensap.Learning):
                             "\t\tStorage complexity after permutation "
                             + "= %i" % f.tensor.storage()
                         )
+                    if self.store_iterates:
+                        if isinstance(self.bases, tensap.FunctionalBases):
+                            iterates[iteration] = tensap.FunctionalTensor(
+                                deepcopy(f.tensor), self.bases
+                            )
+                        else:
+                            iterates[iteration] = deepcopy(f)
                     if self.test_error:
                         f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
                         test_errors[iteration] = self.loss_function.test_error(
diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index ddb03b0..86d4483 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -997,10 +997,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(deepcopy(f))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
-- 
2.43.0


From ff78b4462d24d8bd3bdbc98a8dd49d2ede01944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 56/96] fix: column-major reshape of vector-valued
 FunctionalBasisArray data

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 928985a..26e50e5 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -74,7 +74,7 @@ class FunctionalBasisArray(tensap.Function):
         self.shape = np.atleast_1d(shape)
         self.output_shape = self.shape
         self.data = np.reshape(
-            self.data, np.concatenate(([basis.cardinal()], self.shape))
+            self.data, np.concatenate(([basis.cardinal()], self.shape)), order="F"
         )
 
     def __add__(self, g):
-- 
2.43.0


From 94308ec368383d90e3ce39af153348e85e33443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 57/96] fix: FullTensor.eval_at_indices merges the given
 dimensions in column-major order

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 7cffdb5..50c4257 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -333,7 +333,7 @@ class FullTensor:
         else:
             no_dims = tensap.fast_setdiff(np.arange(self.order), dims)
             indices = np.ravel_multi_index(
-                np.transpose(indices), [self.shape[i] for i in dims]
+                np.transpose(indices), [self.shape[i] for i in dims], order="F"
             )
             evaluations = self.matricize(dims).sub_tensor(indices, ":")
             evaluations = evaluations.reshape(
-- 
2.43.0


From 2f4489abf98273f273f89eb12cc84ad295696103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 58/96] fix: FullTensorProductFunctionalBasis.mean follows the
 ordering of the basis

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 173782d..6388b0f 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -167,7 +167,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
     def mean(self, *args):
         H = self.bases.mean(None, *args)
         H = tensap.CanonicalTensor([np.reshape(x, [-1, 1]) for x in H], [1])
-        return np.ravel(H.full().numpy())
+        return np.ravel(H.full().numpy(), order="F")
 
     def conditional_expectation(self, dims, *args):
         ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
-- 
2.43.0


From d63e5d64d5634f55ff6dd1186455a4a14d0c8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 59/96] fix: new evaluations stored in the ordering of those
 already stored; surface plot grid axes

---
 tensap/functions/function.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 2dff63b..90c442f 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -117,11 +117,14 @@ class Function:
             if x_new.size != 0:
                 y_new = self.eval(x_new)
                 y[np.setdiff1d(range(x.shape[0]), ind_1), :] = np.reshape(
-                    y_new, (y_new.shape[0], -1)
+                    y_new, (y_new.shape[0], -1), order="F"
                 )
                 self._x_stored = np.vstack((self._x_stored, x_new))
                 self._y_stored = np.vstack(
-                    (self._y_stored, np.reshape(y_new, (y_new.shape[0], -1)))
+                    (
+                        self._y_stored,
+                        np.reshape(y_new, (y_new.shape[0], -1), order="F"),
+                    )
                 )
             y = np.reshape(
                 y,
@@ -224,7 +227,7 @@ class Function:
 
         fig = plt.figure()
         ax = fig.add_subplot(111, projection="3d")
-        x, y = np.meshgrid(grids[0], grids[1])
+        x, y = np.meshgrid(grids[0], grids[1], indexing="ij")
         ax.plot_surface(x, y, fg.data, *args)
         plt.show()
 
-- 
2.43.0


From a0e3bfb9d2e7eede39e7063708d116dce9bc57fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 60/96] fix: OrthonormalPolynomials.random splits the sample
 index in column-major order

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0c9df85..097e424 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -216,7 +216,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out[:, i] = self.polyval(ind_loc, x)
         if n.size > 1 and not (n.size == 2 and n[1] == 1):
             out = np.reshape(out, (-1, len(ind)))
-            x = np.reshape(x, n)
+            x = np.reshape(x, n, order="F")
         return out, x
 
     def roots(self, deg):
-- 
2.43.0


From 757fab8d8ed212183563f4ad6dd5037fec03bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:32 +0000
Subject: [PATCH 61/96] fix: DiagonalTensor.dot_with_rank_one_metric used
 transposed metric matrices

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 5b2cb11..554f9a2 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -501,7 +501,7 @@ class DiagonalTensor:
 
         """
         if isinstance(matrix, list):
-            matrix = np.hstack([np.reshape(x, [-1, 1]) for x in matrix])
+            matrix = np.hstack([np.reshape(x, [-1, 1], order="F") for x in matrix])
         matrix = np.reshape(
             np.expand_dims(matrix, 1),
             (self.shape[0], y.shape[0], self.order),
-- 
2.43.0


From 534df8b0c3aac926149a8966281a745a6010a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:32 +0000
Subject: [PATCH 62/96] fix: variance_conditional_expectation flattens and
 splits the output index in the same order

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 26e50e5..2d14ff3 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -398,7 +398,7 @@ class FunctionalBasisArray(tensap.Function):
             else:
                 mi = self.conditional_expectation(u)
                 vi = mi.dot_product_expectation(mi) - m**2
-                v[i, :] = np.ravel(vi)
+                v[i, :] = np.ravel(vi, order="F")
 
         return np.reshape(
             v, np.concatenate(([np.shape(alpha)[0]], self.shape)), order="F"
-- 
2.43.0


From 5dac4816e67a0c73ad40a2a788e5b9d8ea53d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 63/96] fix: gram_matrix accepts the same arguments for every
 functional basis

---
 .../approximation/bases/functional_basis.py   | 19 ++++++++++++++++---
 .../bases/polynomial_functional_basis.py      |  9 ++++++---
 .../sparse_tensor_product_functional_basis.py | 12 +++++++++---
 .../bases/sub_functional_basis.py             |  4 ++--
 4 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index edc79a6..e2b5ca1 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -220,14 +220,21 @@ class FunctionalBasis:
         """
         raise NotImplementedError("Method not implemented.")
 
-    def gram_matrix(self, G):
+    def gram_matrix(self, G=None):
         """
         Compute the Gram matrix using the integration rule G.
 
         Parameters
         ----------
-        G : tensap.IntegrationRule
-            The integration rule used for the projection.
+        G : tensap.IntegrationRule, optional
+            The integration rule used for the projection. The default is None,
+            indicating to use the integration rule of self.measure, which must
+            then be a discrete measure or random variable.
+
+        Raises
+        ------
+        ValueError
+            If G is not provided and self.measure is not discrete.
 
         Returns
         -------
@@ -237,6 +244,12 @@ class FunctionalBasis:
 
         """
 
+        if G is None:
+            if not isinstance(
+                self.measure, (tensap.DiscreteMeasure, tensap.DiscreteRandomVariable)
+            ):
+                raise ValueError("An integration rule must be provided.")
+            G = self.measure.integration_rule()
         A = self.eval(G.points)
         W = diags(G.weights)
         return np.matmul(np.transpose(A), W.dot(A))
diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 97f81fc..c60631e 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -247,9 +247,10 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
         Parameters
         ----------
-        measure : tensap.Measure, optional
-            The measure according to which the dot product is computed. The
-            default is None, indicating to use self.measure.
+        measure : tensap.Measure or tensap.IntegrationRule, optional
+            The measure according to which the dot product is computed, or the
+            integration rule used to compute it. The default is None,
+            indicating to use self.measure.
 
         Raises
         ------
@@ -262,6 +263,8 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             The Gram matrix of the basis.
 
         """
+        if isinstance(measure, tensap.IntegrationRule):
+            return super().gram_matrix(measure)
         if measure is None:
             assert self.measure is not None, "Must specify a Measure."
             measure = self.measure
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index aa81bde..b7f7ec1 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -266,18 +266,24 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
             P[n <= n_unique[k], k] = True
         return P
 
-    def gram_matrix(
-        self,
-    ):
+    def gram_matrix(self, G=None):
         """
         Return the gram matrix of the basis.
 
+        Parameters
+        ----------
+        G : tensap.IntegrationRule, optional
+            The integration rule used to compute the dot products. The default
+            is None, indicating to use the gram matrices of self.bases.
+
         Returns
         -------
         numpy.ndarray
             The gram matrix of the basis.
 
         """
+        if G is not None:
+            return super().gram_matrix(G)
         if self.is_orthonormal:
             M = speye(self.indices.cardinal())
         else:
diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 4fceb56..faf561c 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -186,8 +186,8 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
     def mean(self):
         return np.matmul(self.underlying_basis.mean(), self.basis)
 
-    def gram_matrix(self):
-        return self.basis.T @ self.underlying_basis.gram_matrix() @ self.basis
+    def gram_matrix(self, G=None):
+        return self.basis.T @ self.underlying_basis.gram_matrix(G) @ self.basis
 
     def gram_matrix_h1_0(self):
         return self.basis.T @ self.underlying_basis.gram_matrix_h1_0() @ self.basis
-- 
2.43.0


From 03e7896660df3c02113b394368aa9ea29690cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 64/96] fix: DiagonalTensor contractions accept dims like the
 other formats

---
 .../tensor_algebra/tensors/diagonal_tensor.py | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 554f9a2..6dcc111 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -237,7 +237,7 @@ class DiagonalTensor:
         """
         self.shape = np.full(self.order, self.data.size)
 
-    def tensor_vector_product(self, vectors):
+    def tensor_vector_product(self, vectors, dims=None):
         """
         Compute the contraction of the tensor with vectors.
 
@@ -249,6 +249,10 @@ class DiagonalTensor:
         ----------
         vectors : numpy.ndarray or list of numpy.ndarray
             The vectors to use in the product.
+        dims : list or numpy.ndarray, optional
+            Indices of the dimensions for the contractions: the operation is
+            such that vectors[k] is contracted with the dims[k]-th dimension of
+            self. The default is None, indicating the first dimensions.
 
         Returns
         -------
@@ -258,6 +262,10 @@ class DiagonalTensor:
         """
         if isinstance(vectors, list):
             vectors = np.hstack([np.reshape(x, [-1, 1]) for x in vectors])
+        if np.ndim(vectors) == 1:
+            vectors = np.reshape(vectors, [-1, 1])
+        if dims is not None:
+            assert np.size(dims) == vectors.shape[1], "Wrong number of dimensions."
         data = self.data * np.prod(vectors, 1)
         order = self.order - vectors.shape[1]
         if order == 0:
@@ -315,7 +323,7 @@ class DiagonalTensor:
         """
         return self.tensor_matrix_product(matrices, dims).eval_diag(dims)
 
-    def tensor_diagonal_matrix_product(self, matrices):
+    def tensor_diagonal_matrix_product(self, matrices, dims=None):
         """
         Contract a FullTensor with matrices built from their diagonals.
 
@@ -326,6 +334,10 @@ class DiagonalTensor:
         ----------
         matrices : numpy.ndarray or list of numpy.ndarray
             The diagonals of the matrices to use in the product.
+        dims : list or numpy.ndarray, optional
+            Indices of the dimensions for the contractions: the operation is
+            such that matrices[k] is contracted with the dims[k]-th dimension
+            of self. The default is None, indicating the first dimensions.
 
         Returns
         -------
@@ -335,6 +347,10 @@ class DiagonalTensor:
         """
         if isinstance(matrices, list):
             matrices = np.hstack([np.reshape(x, [-1, 1]) for x in matrices])
+        if np.ndim(matrices) == 1:
+            matrices = np.reshape(matrices, [-1, 1])
+        if dims is not None:
+            assert np.size(dims) == matrices.shape[1], "Wrong number of dimensions."
         return DiagonalTensor(np.prod(matrices, 1) * self.data, self.order)
 
     def tensordot(self, y, dims1, dims2=None):
-- 
2.43.0


From d3eaa98c595a7deaf4daec52f27a6ce4e47474bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 65/96] fix: functional bases accept the magic_points and ndim
 calls of the base class

---
 tensap/approximation/bases/BSplines_functional_basis.py   | 2 +-
 .../bases/piecewise_polynomial_functional_basis.py        | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index b67d924..66474cb 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -375,7 +375,7 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
     def cardinal(self):
         return self.indices[0].size
 
-    def ndims(self):
+    def ndim(self):
         return 1
 
     def eval_derivative(self, k, x):
diff --git a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
index 9288aa3..739e7ed 100644
--- a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
+++ b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
@@ -165,10 +165,16 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
 
         return x
 
-    def magic_points(self):
+    def magic_points(self, x=None, J=None):
         """
         Returns magic points for the PiecewisePolynomialFunctionalBasis.
+
+        If a set of points x is provided, the magic points are selected in x:
+        see tensap.FunctionalBasis.magic_points.
         """
+        if x is not None:
+            return super().magic_points(x, J)
+
         unique_p = np.unique(self.p)
         u = []
         for i in range(unique_p.size):
-- 
2.43.0


From 12e0757b949b26b140dfec5b7a0e9771e3605bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 66/96] fix: SparseTensor.tensor_matrix_product_eval_diag
 accepts dims like the other formats

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 28c880b..b064e3c 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -414,7 +414,7 @@ class SparseTensor:
             k += 1
         return out
 
-    def tensor_matrix_product_eval_diag(self, matrices):
+    def tensor_matrix_product_eval_diag(self, matrices, dims=None):
         """
         Evaluate the diagonal of a tensor obtained by contraction with
         matrices.
@@ -423,6 +423,9 @@ class SparseTensor:
         ----------
         matrices : list
             The matrices to use in the product.
+        dims : list or numpy.ndarray, optional
+            Indices of the contractions. The default is None, indicating all
+            the dimensions.
 
         Returns
         -------
@@ -430,6 +433,9 @@ class SparseTensor:
             The diagonal of the contractions of the tensor with the matrices.
 
         """
+        if dims is not None:
+            return self.full().tensor_matrix_product_eval_diag(matrices, dims)
+
         y = matrices[0][:, self.indices.array[:, 0]]
         for k in np.arange(1, self.order):
             y *= matrices[k][:, self.indices.array[:, k]]
-- 
2.43.0


From 33953fbda181db844102b800df37bfe370f3426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 67/96] fix: NormalRandomVariable.random draws one point by
 default

---
 tensap/functions/measures/normal_random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/normal_random_variable.py b/tensap/functions/measures/normal_random_variable.py
index 5f4b2fa..6950553 100644
--- a/tensap/functions/measures/normal_random_variable.py
+++ b/tensap/functions/measures/normal_random_variable.py
@@ -203,5 +203,5 @@ class NormalRandomVariable(tensap.RandomVariable):
     def random_variable_statistics(self):
         return self.mu, self.sigma**2
 
-    def random(self, n):
+    def random(self, n=1):
         return randn(int(n)) * self.sigma + self.mu
-- 
2.43.0


From 93ccde5b2dd4f4bda1933fba8e53a6043fddf450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:50 +0000
Subject: [PATCH 68/96] fix: tree_based_tensor accepts a tree and active nodes,
 both optional, in every format

---
 .../tensors/canonical_tensor.py               |  9 ++++--
 tensap/tensor_algebra/tensors/full_tensor.py  | 29 +++++++++++++++----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 9f85886..2258e6b 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -512,15 +512,15 @@ class CanonicalTensor:
 
         return self.tensor_vector_product(a, dims)
 
-    def tree_based_tensor(self, tree, is_active_node=None):
+    def tree_based_tensor(self, tree=None, is_active_node=None):
         """
         Convert a CanonicalTensor to a tensap.TreeBasedTensor with given
         dimension tree and active nodes.
 
         Parameters
         ----------
-        tree : tensap.DimensionTree
-            The dimension tree.
+        tree : tensap.DimensionTree, optional
+            The dimension tree. The default is None, choosing a linear tree.
         is_active_node : list or numpy.ndarray, optional
             Booleans indicating if the nodes are active. The default is None,
             settings all the nodes active.
@@ -532,6 +532,9 @@ class CanonicalTensor:
 
         """
 
+        if tree is None:
+            tree = tensap.DimensionTree.linear(self.order)
+
         rank = self.core.shape[0]
         tensors = np.empty(tree.nb_nodes, dtype=object)
         for nod in np.arange(1, tree.nb_nodes + 1):
diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 50c4257..f9071f4 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -135,21 +135,38 @@ class FullTensor:
         """
         return np.array(self.data.shape)
 
-    def tree_based_tensor(self):
+    def tree_based_tensor(self, tree=None, is_active_node=None):
         """
         Convert a FullTensor into a TreeBasedTensor.
 
+        Parameters
+        ----------
+        tree : tensap.DimensionTree, optional
+            The dimension tree. The default is None, choosing a trivial tree.
+        is_active_node : list or numpy.ndarray, optional
+            Booleans indicating if the nodes are active. The default is None,
+            settings all the nodes active.
+
         Returns
         -------
         TreeBasedTensor
             The FullTensor in tree-based tensor format.
 
         """
-        tree = tensap.DimensionTree.trivial(self.order)
-        tensors = [FullTensor(self)]
-        for dim in range(self.order):
-            tensors.append(FullTensor(np.eye(self.shape[dim])))
-        return tensap.TreeBasedTensor(tensors, tree)
+        if tree is not None:
+            out = tensap.Truncator(0).hsvd(self, tree)
+        else:
+            tree = tensap.DimensionTree.trivial(self.order)
+            tensors = [FullTensor(self)]
+            for dim in range(self.order):
+                tensors.append(FullTensor(np.eye(self.shape[dim])))
+            out = tensap.TreeBasedTensor(tensors, tree)
+
+        if is_active_node is not None:
+            out = out.inactivate_nodes(
+                np.nonzero(np.logical_not(is_active_node))[0] + 1
+            )
+        return out
 
     def sparse(self):
         """
-- 
2.43.0


From 63aeb121a801d1ce240d33159fe5196960be8b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 69/96] fix: Function.random uses the measure it is given

---
 tensap/functions/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 90c442f..7cb8311 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -310,7 +310,7 @@ class Function:
                 measure = self.measure
             else:
                 raise ValueError("Must provide a ProbabilityMeasure.")
-        elif not isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
         x = measure.random(n)
-- 
2.43.0


From 9f550bf697586539716e1a894e0009ccf8f37afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 70/96] fix: FunctionalBases.random_dims does not recurse
 without a measure

---
 .../approximation/bases/functional_bases.py   | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 2b7b927..479ea81 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -400,20 +400,20 @@ class FunctionalBases:
             The input points, grouped by basis.
 
         """
-        if measure is not None:
-            assert isinstance(
-                measure, tensap.ProbabilityMeasure
-            ), "Must provide a ProbabilityMeasure."
-            x = measure.marginal(dims).random(int(n))
-            bases_eval, x = self.eval(x, dims, 2)
-
-            if len(bases_eval) == 1:
-                bases_eval = bases_eval[0]
-
-            if nargout == 1:
-                return bases_eval
-            return bases_eval, x
-        return self.random_dims(dims, n, self.measure, nargout)
+        if measure is None:
+            measure = self.measure
+        assert isinstance(
+            measure, tensap.ProbabilityMeasure
+        ), "Must provide a ProbabilityMeasure."
+        x = measure.marginal(dims).random(int(n))
+        bases_eval, x = self.eval(x, dims, 2)
+
+        if len(bases_eval) == 1:
+            bases_eval = bases_eval[0]
+
+        if nargout == 1:
+            return bases_eval
+        return bases_eval, x
 
     def get_random_vector(self):
         """
-- 
2.43.0


From 23b04549969ce5cff46e404be1c95acf06c46fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:47 +0000
Subject: [PATCH 71/96] fix: DiscreteRandomVariable.icdf and
 TensorizedFunction.eval name their argument x

---
 tensap/functions/measures/discrete_random_variable.py | 8 ++++----
 tensap/functions/tensorized_function.py               | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index bc7a4a5..33eebf4 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -206,13 +206,13 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         w[v > x] = 0
         return np.reshape(np.sum(w, 0), shape)
 
-    def icdf(self, p):
+    def icdf(self, x):
         """
-        Compute the inverse cumulative density function of X at p (quantile).
+        Compute the inverse cumulative density function of X at x (quantile).
 
         Parameters
         ----------
-        p : float, list or numpy.ndarray
+        x : float, list or numpy.ndarray
             The points at which the inverse cumulative density function of X is
             to be evaluated.
 
@@ -223,7 +223,7 @@ class DiscreteRandomVariable(tensap.RandomVariable):
             x.
 
         """
-        p = np.array(p)
+        p = np.array(x)
         shape = p.shape
         v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))))
         F = np.vstack(([0], np.reshape(self.probabilities, (-1, 1))))
diff --git a/tensap/functions/tensorized_function.py b/tensap/functions/tensorized_function.py
index 56e9c84..65d935d 100644
--- a/tensap/functions/tensorized_function.py
+++ b/tensap/functions/tensorized_function.py
@@ -77,8 +77,8 @@ class TensorizedFunction(tensap.Function):
         self.tens = tens
         self.dim = tens.dim
 
-    def eval(self, z):
-        z = np.array(z)
+    def eval(self, x):
+        z = np.array(x)
         if z.ndim == 1:
             z = np.reshape(z, [-1, 1])
         if z.shape[1] == self.tens.dim:
-- 
2.43.0


From 036a14c36335fd57013c31c148d8c5e2a67867dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 72/96] fix: Truncator rejects unknown thresholding types

---
 tensap/tensor_algebra/tools/truncator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index bf653dc..aafeb3b 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -191,6 +191,8 @@ class Truncator:
                         ]
                     )
                 )
+            else:
+                raise ValueError("Unknown thresholding type.")
         left = np.atleast_2d(left[:, :ind])
         sin_val = np.atleast_1d(sin_val[:ind])
         right = np.transpose(np.atleast_2d(right[:ind, :]))
-- 
2.43.0


From 8cdcb4b05c3cb0c2d485840a5aaf7beed38728a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 73/96] fix: MultiIndices sorting rejects unknown modes

---
 tensap/tools/multi_indices.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index a234395..3c97b84 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -237,6 +237,9 @@ class MultiIndices:
             decreasing p-norm.
 
         """
+        if mode not in ("ascend", "descend"):
+            raise ValueError("The sorting mode must be 'ascend' or 'descend'.")
+
         norm = self.norm(p)
         ind = np.argsort(norm)
         if mode == "descend":
@@ -264,6 +267,9 @@ class MultiIndices:
             decreasing weighted p-norm.
 
         """
+        if mode not in ("ascend", "descend"):
+            raise ValueError("The sorting mode must be 'ascend' or 'descend'.")
+
         norm = self.weighted_norm(p, w)
         ind = np.argsort(norm)
         if mode == "descend":
@@ -293,6 +299,9 @@ class MultiIndices:
             The MultiIndices object with sorted multi-indices.
 
         """
+        if mode not in ("ascend", "descend"):
+            raise ValueError("The sorting mode must be 'ascend' or 'descend'.")
+
         if columns is None:
             columns = np.arange(self.array.shape[1] - 1, -1, -1)
 
-- 
2.43.0


From 76dcabeccbfe7d80aad6d4f6637826145da75716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 74/96] fix: LinearModelLearningDensityL2 rejects error
 estimators it does not implement

---
 .../learning/linear_model_learning_density_l2.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 68a2af4..8f64374 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -114,7 +114,11 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             b = []
 
         output = {}
-        if self.error_estimation and self.error_estimation_type == "leave_out":
+        if self.error_estimation:
+            if self.error_estimation_type != "leave_out":
+                raise NotImplementedError(
+                    "Error estimation type not implemented, use leave_out."
+                )
             N = A.shape[0]
             if np.size(b) == 0:
                 output["error"] = (-(N**2)) / (1 - N) ** 2 * np.linalg.norm(
-- 
2.43.0


From f90900f45d1a98e8b60c9a6bae5756cbc63abd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:56 +0000
Subject: [PATCH 75/96] fix: multivariate_functions_benchmark handles the
 documented case sin_of_a_sum

---
 tensap/functions/multivariate_functions_benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index 3ad8f55..2c0ecff 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -107,7 +107,7 @@ def multivariate_functions_benchmark(case, *args):
                 + b * x[:, 2] ** 4 * np.sin(x[:, 0])
             )
 
-    elif case == "sin_of_asum":
+    elif case in ("sin_of_a_sum", "sin_of_asum"):
         if len(args) == 0:
             d = 3
         else:
-- 
2.43.0


From 55f03045c0f4b8fb848f3c0ae89a7a7780174620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 76/96] fix: CustomLossFunction honours its error type

---
 tensap/approximation/learning/loss_functions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index d1f1105..f41d739 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -195,7 +195,7 @@ class DensityL2LossFunction(LossFunction):
     Attributes
     ----------
     error_type : string, optional
-        The error type. The default is 'relative'.
+        The error type. The default is 'risk', the only value supported.
 
     """
 
@@ -263,7 +263,7 @@ class CustomLossFunction(LossFunction):
         The function used to compute the relative test error. The default is
         None, indicating to use the risk function.
     error_type : string, optional
-        The error type. The default is 'relative'. Can also be 'absolute'.
+        The error type. The default is 'absolute'. Can also be 'relative'.
 
     """
 
@@ -314,7 +314,13 @@ class CustomLossFunction(LossFunction):
         return self.relative_error_function(fun, sample)
 
     def test_error(self, fun, sample, *args):
-        if self.error_function is None:
+        if self.error_type == "relative":
+            error = self.relative_test_error(fun, sample, *args)
+        elif self.error_type != "absolute":
+            raise ValueError(
+                'The error_type property must be set to "absolute" or "relative".'
+            )
+        elif self.error_function is None:
             error = self.risk_estimation(fun, sample, *args)
         else:
             error = self.error_function(fun, sample, *args)
-- 
2.43.0


From b38877c8b5db47ad90c6cadab2a4f89ba5d40f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:36 +0000
Subject: [PATCH 77/96] fix: multivariate_functions_benchmark implements the
 documented discontinuous case

---
 tensap/functions/multivariate_functions_benchmark.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index 2c0ecff..ca7bf62 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -274,7 +274,10 @@ def multivariate_functions_benchmark(case, *args):
                 )
 
         elif case == "discontinuous":
-            raise NotImplementedError("Function not implemented.")
+
+            def fun(x):
+                ind = np.any(x[:, :2] > w[:, :2], axis=1, keepdims=True)
+                return np.where(ind, 0, np.exp(np.matmul(x, np.transpose(c))))
 
     elif case == "henon_heiles":
         if len(args) == 0:
-- 
2.43.0


From be784148d68100564335ddd59f72882a194ec05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 78/96] fix: the product of functional tensors keeps an array
 of bases and projects on polynomials of high enough degree

---
 tensap/approximation/bases/functional_bases.py            | 2 +-
 tensap/approximation/bases/polynomial_functional_basis.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 479ea81..9bebb18 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -176,7 +176,7 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = [x.kron(y) for x, y in zip(self.bases, g.bases)]
+        out.bases = np.array([x.kron(y) for x, y in zip(self.bases, g.bases)])
         return out
 
     def remove_bases(self, ind):
diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index c60631e..753b9c1 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -121,7 +121,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
     def kron(self, q):
         m = np.max(self.indices) + np.max(q.indices)
-        b = PolynomialFunctionalBasis(self.basis, range(m))
+        b = PolynomialFunctionalBasis(self.basis, range(m + 1))
         b.measure = self.measure
 
         def fun(x):
@@ -136,8 +136,8 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             )
 
         measure = b.measure
-        int_rule = measure.gauss_integration_rule(2 * m)
-        return tensap.SubFunctionalBasis(b, self.projection(fun, int_rule).data)
+        int_rule = measure.gauss_integration_rule(2 * m + 1)
+        return tensap.SubFunctionalBasis(b, b.projection(fun, int_rule).data)
 
     def derivative(self, k, measure=None):
         """
-- 
2.43.0


From c89a737804bb882bba8d812cd7f7c89152d47f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 79/96] fix: the product of vector-valued functional tensors
 selects the diagonal outputs and refreshes the ranks

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 04c7de7..38f0356 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -419,10 +419,10 @@ class FunctionalTensor(tensap.Function):
                     c = out.tensor.tensors[root - 1]
                     n = self.tensor.ranks[root - 1]
                     s = [":"] * c.order
-                    s[-1] = np.arange(n**2, step=n)
+                    s[-1] = np.arange(0, n**2, n + 1)
                     c = c.sub_tensor(*s)
                     out.tensor.tensors[root - 1] = c
-                    out.tensor.ranks[root - 1] = n
+                    out.tensor = out.tensor.update_attributes()
         else:
             out = deepcopy(self)
             out.tensor = out.tensor * f_2
-- 
2.43.0


From a5d2c21fd86bb368f5f64b7d7a0e41dc3b5359f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 80/96] fix: Truncator.hsvd no longer marks a truncated tensor
 as orthogonal

---
 tensap/tensor_algebra/tools/truncator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index aafeb3b..04703de 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -462,8 +462,7 @@ class Truncator:
                             parent - 1
                         ].tensor_matrix_product(tmp, ch_nb - 1)
                 out = out.update_attributes()
-                out.is_orth = True
-                out.orth_node = tree.root
+                out.is_orth = False
             else:
                 raise ValueError("Wrong value of _hsvd_type.")
         else:
-- 
2.43.0


From 0e4a13c9314b00a9ca1f1dc5d2aa068d5024ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 81/96] fix: the root rank is refreshed after the product with
 a matrix

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 0fc3900..f4ea1fe 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -347,7 +347,7 @@ class TreeBasedTensor:
             tensor.tensors[root] = tensor.tensors[root].tensor_matrix_product(
                 arg, tensor.tensors[root].order - 1
             )
-            tensor.ranks[root] = arg.shape[1]
+            tensor = tensor.update_attributes()
         else:
             raise ValueError("Wrong shapes.")
         return tensor
-- 
2.43.0


From f7fc6b3873ad9aea1f931b46e40fe22fe415f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 82/96] fix: changing the root of an orthogonal tree based
 tensor withdraws the orthogonality

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index f4ea1fe..83b637e 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -647,6 +647,7 @@ class TreeBasedTensor:
                 r = np.concatenate([np.where(chp == l0)[0] for l0 in chnew])
                 x.tensors[nod - 1] = x.tensors[nod - 1].transpose(r)
             x.tree = tnew
+            x.is_orth = False
             x = x.update_attributes()
         return x
 
-- 
2.43.0


From d6f7cc5254e69f2e77b1e70fb69aad0f8a228ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:19 +0000
Subject: [PATCH 83/96] fix: DMRG rank adaptation refreshes the ranks of the
 adapted tensor

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 86d4483..6951c07 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -956,6 +956,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 f.tensor.tensors[gamma - 1] = tensap.FullTensor(
                     a_gamma, np.size(sz_2), sz_2
                 )
+                f.tensor.is_orth = False
+                f.tensor = f.tensor.update_attributes()
 
             if self.rank_adaptation_options["post_alternating_minimization"]:
                 print("\t\tPost alternating minimization.")
-- 
2.43.0


From 35231ea8038c7c6e4b5a69871607cca45d9ad6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:19 +0000
Subject: [PATCH 84/96] fix: cores set by the learning solver are not marked
 orthogonal

---
 .../tensor_learning/tree_based_tensor_learning.py          | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 6951c07..19dd72d 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -272,6 +272,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             coef, shape=f.tensor.tensors[mu - 1].shape
         )
         f.tensor.tensors[mu - 1].is_orth = False
+        f.tensor.is_orth = False
         return f
 
     def stagnation_criterion(self, f, f0):
@@ -1268,7 +1269,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 A[:, -1 - rank - 1:] /= np.sqrt(np.sum(A[:, -1 - rank - 1:] ** 2, 0))
                 shape = np.array(f.tensors[alpha - 1].shape)
                 shape[-1] += rank
-                f.tensors[alpha - 1].data = np.reshape(A, shape, order="F")
+                f.tensors[alpha - 1] = tensap.FullTensor(A, shape=shape)
 
                 ch = f.tree.child_number(alpha) - 1
                 ind = np.setdiff1d(range(f.tensors[gamma - 1].order), ch)
@@ -1285,7 +1286,9 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 shape = np.array(f.tensors[gamma - 1].shape)
                 shape[ch] += rank
                 A = np.reshape(A, shape[ind], order="F")
-                f.tensors[gamma - 1].data = np.transpose(A, np.argsort(ind))
+                f.tensors[gamma - 1] = tensap.FullTensor(
+                    np.transpose(A, np.argsort(ind))
+                )
 
                 f = f.update_attributes()
         return f
-- 
2.43.0


From f39d03afdc073a7cdd1226ac0b3f46222ce236f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:54 +0000
Subject: [PATCH 85/96] fix: calling a function that stores its evaluations
 returns the evaluations, and the function when asked

---
 tensap/functions/function.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 7cb8311..90ee17c 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -66,18 +66,15 @@ class Function:
             x = np.expand_dims(x, 1)
 
         if self.store:
-            y = self.store_eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
-            return y
+            y, f = self.store_eval(x)
         else:
             y = self.eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
             f = self
-            if return_f:
-                return y, f
-            return y
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        if return_f:
+            return y, f
+        return y
 
     def store_eval(self, x):
         """
-- 
2.43.0


From cbca8a562249f9e927d3593c8cbcb8b33ce9dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:18 +0000
Subject: [PATCH 86/96] fix: the l0 regularisation runs and uses its options

---
 .../learning/linear_model_learning_square_loss.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index bf562a4..e505f7d 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -250,9 +250,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         options = self.regularization_options
         if self.regularization_type == "l0":
-            options_loc = {i: output[i] for i in output if i != "alpha"}
+            options_loc = {i: options[i] for i in options if i != "alpha"}
             D = np.linalg.norm(A, axis=0)
-            A_omp = np.matmul(A, diags(1 / D))
+            A_omp = A / D
             solpath = linear_model.orthogonal_mp(
                 A_omp,
                 y,
@@ -262,7 +262,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 **options_loc
             )
             solpath = np.atleast_2d(solpath)
-            sol = np.matmul(diags(1 / D), solpath[:, -1])
+            sol = solpath[:, -1] / D
         elif self.regularization_type == "l1":
             reg = linear_model.LassoLars(copy_X=True, fit_intercept=False, **options)
             reg.fit(A, y)
-- 
2.43.0


From 730bccc6157508e914cfac2dbd985ae65c2f55e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:18 +0000
Subject: [PATCH 87/96] fix: the test error of vector-valued least squares is
 computed output by output

---
 .../learning/linear_model_learning_square_loss.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index e505f7d..0799cce 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -155,12 +155,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     f_eval, self.test_data
                 )
             else:
-                output["test_error"] = np.zeros([1, n])
+                output["test_error"] = np.zeros(n)
                 f_eval = np.matmul(self.basis_eval_test, sol)
                 for ind in range(n):
                     test_data = [self.test_data[0], self.test_data[1][:, ind]]
                     output["test_error"][ind] = self.loss_function.test_error(
-                        f_eval, test_data
+                        f_eval[:, ind], test_data
                     )
 
         if self.basis is not None:
-- 
2.43.0


From 8ddecdfdf77ea4117eed768d1a87917621999c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:43 +0000
Subject: [PATCH 88/96] fix: the maximal rank constrains the principal
 component analysis with prescribed precision

---
 .../tensor_principal_component_analysis.py    | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 8393e4f..7c11116 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -75,7 +75,9 @@ class TensorPrincipalComponentAnalysis:
         self.subsampling = "eim"
         self.subsampling_tol = 1.05
 
-    def alpha_principal_components(self, fun, shape, alpha, tol, B_alpha, I_alpha):
+    def alpha_principal_components(
+        self, fun, shape, alpha, tol, B_alpha, I_alpha, max_rank=np.inf
+    ):
         """
         Evaluate the alpha-principal components of a tensor f.
 
@@ -111,6 +113,9 @@ class TensorPrincipalComponentAnalysis:
             evaluation of phi_i at the set of indices i_alpha in Ialpha.
         I_alpha : numpy.ndarray
             Array of shape (N_alpha, #alpha) containing N_alpha tuples i_alpha.
+        max_rank : int, optional
+            The maximal number of principal components. The default is
+            numpy.inf.
 
         Returns
         -------
@@ -169,6 +174,12 @@ class TensorPrincipalComponentAnalysis:
             pc, sin_val = A.principal_components(tol)
             output["number_of_evaluations"] = I_alpha.shape[0] * N
 
+        # The maximal rank constrains the number of principal components
+        # whatever the tolerance
+        rank = int(np.min((pc.shape[1], max_rank)))
+        pc = pc[:, :rank]
+        sin_val = sin_val[:rank, :rank]
+
         output["singular_values"] = sin_val
         output["samples"] = product_grid
         return pc, output
@@ -231,7 +242,13 @@ class TensorPrincipalComponentAnalysis:
             B_alpha = np.eye(shape[alpha])
             tol_alpha = np.min((solver.tol[alpha], solver.max_rank[alpha]))
             f_pc_alpha, output_alpha = solver.alpha_principal_components(
-                fun, shape, alpha, tol_alpha, B_alpha, I_alpha
+                fun,
+                shape,
+                alpha,
+                tol_alpha,
+                B_alpha,
+                I_alpha,
+                solver.max_rank[alpha],
             )
             f_pc.append(f_pc_alpha)
             output.append(output_alpha)
@@ -431,7 +448,13 @@ class TensorPrincipalComponentAnalysis:
             if is_active_node[alpha - 1]:
                 tol_alpha = np.min((solver.tol[alpha - 1], solver.max_rank[alpha - 1]))
                 pc_alpha, outputs[alpha - 1] = solver.alpha_principal_components(
-                    fun, shape, nu, tol_alpha, B_alpha, grids[nu]
+                    fun,
+                    shape,
+                    nu,
+                    tol_alpha,
+                    B_alpha,
+                    grids[nu],
+                    solver.max_rank[alpha - 1],
                 )
                 samples[alpha - 1] = outputs[alpha - 1]["samples"]
                 shape_alpha = [shape[nu], pc_alpha.shape[1]]
@@ -487,6 +510,7 @@ class TensorPrincipalComponentAnalysis:
                     tol_alpha,
                     B_alpha,
                     alpha_grids[alpha - 1],
+                    solver.max_rank[alpha - 1],
                 )
                 samples[alpha - 1] = outputs[alpha - 1]["samples"]
                 shape_alpha = np.concatenate(
-- 
2.43.0


From 12596e05b7db7942a792d2cc77d517be85a91cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:55 +0000
Subject: [PATCH 89/96] fix: the second moment with respect to another measure
 is refused

---
 tensap/approximation/bases/functional_basis_array.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 2d14ff3..bb5720c 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -307,8 +307,14 @@ class FunctionalBasisArray(tensap.Function):
             The result of the dot product.
 
         """
-        if dims is None:
-            dims = range(self.basis.cardinal())
+        if dims is not None and np.size(dims) != self.basis.ndim():
+            raise NotImplementedError("Method not implemented.")
+        if measure is not None and not measure == self.basis.measure:
+            if not isinstance(measure, tensap.RandomVector) or (
+                not tensap.ProductMeasure(list(measure.random_variables))
+                == self.basis.measure
+            ):
+                raise NotImplementedError("Method not implemented.")
         if not (self.basis == g.basis) or not self.basis.is_orthonormal:
             raise NotImplementedError("Method not implemented.")
 
-- 
2.43.0


From 8309552d0ff4eb8ea54977a90f1b49421162ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:55 +0000
Subject: [PATCH 90/96] fix: keep_mapping and remove_mapping of tensor product
 bases are not implemented

---
 .../bases/full_tensor_product_functional_basis.py             | 4 ++--
 .../bases/sparse_tensor_product_functional_basis.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 6388b0f..36b2e4f 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -139,11 +139,11 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def remove_mapping(self, ind):
         # TODO remove_mapping
-        return self
+        raise NotImplementedError("Method not implemented.")
 
     def keep_mapping(self, ind):
         # TODO keep_mapping
-        return self
+        raise NotImplementedError("Method not implemented.")
 
     def transpose(self, perm):
         """
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index b7f7ec1..8f0e558 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -142,11 +142,11 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def remove_mapping(self, ind):
         # TODO remove_mapping
-        return self
+        raise NotImplementedError("Method not implemented.")
 
     def keep_mapping(self, ind):
         # TODO keep_mapping
-        return self
+        raise NotImplementedError("Method not implemented.")
 
     def transpose(self, perm):
         """
-- 
2.43.0


From e8ed8a7a33d321f59cf044c273d2ee13fe58bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:34 +0000
Subject: [PATCH 91/96] fix: random exploration strategy of tree based learning

---
 .../tensor_learning/tree_based_tensor_learning.py          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 19dd72d..b5e3e87 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -187,12 +187,13 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         return self, f
 
     def randomize_exploration_strategy(self):
-        strategy = np.zeros(self._number_of_parameters)
+        strategy = np.zeros(len(self._exploration_strategy), dtype=int)
         for level in np.arange(np.max(self.tree.level), -1, -1):
             active_nodes = np.intersect1d(
-                self.tree.nodes_with_level(level), np.nonzero(self.is_active_node)[0]
+                self.tree.nodes_with_level(level),
+                np.nonzero(self.is_active_node)[0] + 1,
             )
-            _, ind = np.intersect1d(
+            _, ind, _ = np.intersect1d(
                 self._exploration_strategy, active_nodes, return_indices=True
             )
             strategy[ind] = self._exploration_strategy[np.random.permutation(ind)]
-- 
2.43.0


From a25b37de7c888e1f5d306ff97dc55f947346431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:41 +0000
Subject: [PATCH 92/96] fix: sizes of the inactive leaves are given to the
 right leaves

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 83b637e..8279970 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -447,9 +447,8 @@ class TreeBasedTensor:
             print("Inactive nodes must have an alpha-rank equal to 0.")
         else:
             is_admiss = True
-            ranks[tensap.fast_intersect(tree.dim2ind, self.non_active_nodes) - 1] = (
-                self.shape[self.non_active_dims]
-            )
+            non_active_dims = self.non_active_dims
+            ranks[tree.dim2ind[non_active_dims] - 1] = self.shape[non_active_dims]
             for nod in tensap.fast_intersect(tree.internal_nodes, self.active_nodes):
                 children = tree.children(nod)
                 active_ch = tensap.fast_intersect(children, self.active_nodes)
@@ -714,9 +713,8 @@ class TreeBasedTensor:
         """
         tree = self.tree
         ranks = np.array(self.ranks)
-        ranks[self.non_active_nodes - 1] = self.shape[
-            np.logical_not(self.is_active_node[tree.dim2ind - 1])
-        ]
+        non_active_dims = self.non_active_dims
+        ranks[tree.dim2ind[non_active_dims] - 1] = self.shape[non_active_dims]
 
         cost = np.zeros(tree.nb_nodes)
         for beta in np.arange(1, tree.nb_nodes + 1):
-- 
2.43.0


From 57877f13521fcb2974d3d0b7f2bc0da08f696e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:37 +0000
Subject: [PATCH 93/96] fix: alpha principal components stop on a relative
 singular value

---
 .../tensor_principal_component_analysis.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 7c11116..4935587 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -160,7 +160,7 @@ class TensorPrincipalComponentAnalysis:
                 A_k = np.linalg.solve(B_alpha, fun(product_grid[:, ind]))
                 A.data = np.column_stack((A.data, A_k))
                 pc, sin_val = A.principal_components(tol)
-                if sin_val[-1, -1] < 1e-15 or pc.shape[1] < np.ceil(
+                if sin_val[-1, -1] <= 1e-15 * sin_val[0, 0] or pc.shape[1] < np.ceil(
                     (k + 1) / self.pca_sampling_factor
                 ):
                     break
-- 
2.43.0


From 350b4f04c03b61f8d6504a60ca02e55505e7a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:14 +0000
Subject: [PATCH 94/96] fix: the multi-indices kept or given by a product do
 not share the array of their operand

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 3c97b84..4520fae 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -127,7 +127,7 @@ class MultiIndices:
 
         """
         if J is None:
-            return MultiIndices(self.array)
+            return MultiIndices(np.array(self.array))
         else:
             return MultiIndices.product_set([self.array, J.array])
 
@@ -417,7 +417,7 @@ class MultiIndices:
             The MultiIndices with retained indices.
 
         """
-        return MultiIndices(self.array[k, :])
+        return MultiIndices(np.array(self.array[k, :]))
 
     def keep_dims(self, dims):
         """
-- 
2.43.0


From 5b0bd22c2963928db0a3df2e2d128ace68ce39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:14 +0000
Subject: [PATCH 95/96] fix: a canonical tensor with nothing to squeeze does
 not share its core

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 2258e6b..430aad0 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -234,7 +234,7 @@ class CanonicalTensor:
             if isinstance(tensor, tensap.FullTensor):
                 tensor = tensor.data
         else:
-            core = self.core.data
+            core = np.array(self.core.data)
             space = list(self.space)
             for i, dim in enumerate(dims):
                 core = core * space[dim]
-- 
2.43.0


From 9f0930d3f7e4006ea538a62546b7a6b65efc46bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:14 +0000
Subject: [PATCH 96/96] fix: the diagonal of a canonical tensor along some of
 its dimensions

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 430aad0..d5c4962 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -354,7 +354,7 @@ class CanonicalTensor:
             core = deepcopy(self.core)
 
             space[dims[0]] = out
-            space = space[new_dims]
+            space = [space[k] for k in new_dims]
             core.shape = core.shape[new_dims]
             core.order = new_dims.size
             out = CanonicalTensor(space, core)
-- 
2.43.0

