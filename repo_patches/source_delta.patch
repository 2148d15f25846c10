From 783bcc15cc62c7962af2187872e6cf3ce4f0e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 001/106] fix: FullTensor.eval_at_indices with several partial
 dims used C-order indices into an F-order matricization

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index d4a117f..218f162 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -331,7 +331,7 @@ class FullTensor:
         else:
             no_dims = tensap.fast_setdiff(np.arange(self.order), dims)
             indices = np.ravel_multi_index(
-                np.transpose(indices), [self.shape[i] for i in dims]
+                np.transpose(indices), [self.shape[i] for i in dims], order="F"
             )
             evaluations = self.matricize(dims).sub_tensor(indices, ":")
             evaluations = evaluations.reshape(
-- 
2.43.0


From 1dd8f8319660bddd3c0282473e16a89a2322c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 002/106] fix: FullTensor.kron failed for tensors of different
 orders

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 218f162..5e572e4 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -675,7 +675,7 @@ class FullTensor:
             ),
             shape1 * shape2,
         )
-        return FullTensor(data, shape=self.shape * tensor2.shape)
+        return FullTensor(data)
 
     def orth(self, dim=None):
         """
-- 
2.43.0


From 5b228320c81bb87e4d9690b413cf7f289cc3df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 003/106] fix: TreeBasedTensor addition silently mixed cores of
 trees with different node numberings

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 04074de..a72b5e5 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -265,6 +265,13 @@ class TreeBasedTensor:
 
         if not self.tree == arg.tree:
             raise ValueError("Both tensors should have the same tree.")
+        if not (
+            np.array_equal(self.tree.dim2ind, arg.tree.dim2ind)
+            and np.array_equal(
+                self.tree.adjacency_matrix, arg.tree.adjacency_matrix
+            )
+        ):
+            raise ValueError("The nodes of both trees should be numbered identically.")
 
         tree = self.tree
         tensors = np.array(self.tensors)
-- 
2.43.0


From a3465f3fd026a2b8f36494d4316b6d2c1356f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 004/106] fix: parameter gradients of a leaf without matrices
 read the shape of an excluded node

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index a72b5e5..48b94e0 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2275,7 +2275,7 @@ class TreeBasedTensor:
                 )
             else:
                 out = out.outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(diag_below[alpha - 1].shape[0])),
+                    tensap.FullTensor(np.eye(tensors[alpha - 1].shape[0])),
                     [],
                     [],
                     True,
@@ -2396,7 +2396,10 @@ class TreeBasedTensor:
                 )
             else:
                 g_alpha = g_alpha.outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(u_alpha[alpha - 1].shape[0])), [], [], True
+                    tensap.FullTensor(np.eye(self.tensors[alpha - 1].shape[0])),
+                    [],
+                    [],
+                    True,
                 )
             # g_alpha = g_alpha.squeeze()
         else:
-- 
2.43.0


From 69f17d0f48b4bc447e30f31777ca8ac8d2fbedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 005/106] fix: eval_diag_below failed on a root whose children
 are all inactive

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 48b94e0..2f163ab 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2123,7 +2123,9 @@ class TreeBasedTensor:
                 else:
                     ch_nb = tree.child_number(inactive_ch) - 1
                     if np.size(inactive_ch) > 1:
-                        diag_below[nod - 1] = diag_below[nod - 1].eval_diag(ch_nb)
+                        diag_below[nod - 1] = tensap.FullTensor(
+                            diag_below[nod - 1].eval_diag(ch_nb)
+                        )
                     perm = np.concatenate(
                         (
                             [ch_nb[0]],
-- 
2.43.0


From e4250f056078883f58a86222f2cdfb2f985ffe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 006/106] fix: TreeBasedTensor.eval_diag along dimensions
 overwrote a core of the operand

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 2f163ab..4602656 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1274,7 +1274,8 @@ class TreeBasedTensor:
             subtree, nodes = tree.sub_dimension_tree(alpha)
             xs = tensap.TreeBasedTensor(self.tensors[nodes - 1], subtree)
             xs = xs.eval_diag()
-            self.tensors[alpha - 1] = xs
+            tensors = np.array(self.tensors)
+            tensors[alpha - 1] = xs
             # indices of the nodes that are kept
             keep_ind = tensap.fast_setdiff(
                 np.arange(tree.nb_nodes), tree.descendants(alpha) - 1
@@ -1292,7 +1293,7 @@ class TreeBasedTensor:
             mu = np.where(alpha == keep_ind + 1)[0][0] + 1
             dim2ind.insert(0, mu)
             newtree = tensap.DimensionTree(dim2ind, adj)
-            return TreeBasedTensor(self.tensors[keep_ind], newtree)
+            return TreeBasedTensor(tensors[keep_ind], newtree)
 
     def cat(self, tensor2):
         """
-- 
2.43.0


From cd8b470b25054855ecd5abce8761640093b09a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 007/106] fix: remove_unique_children overwrote the cores and
 the tree of its operand

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 4602656..7abb9b4 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1626,10 +1626,10 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        tensors = self.tensors
+        tensors = np.array(self.tensors)
         nb_children = np.count_nonzero(tree._children, 0)
         unique_children = tree._children[0, (nb_children == 1)]
-        adj = tree.adjacency_matrix
+        adj = np.array(tree.adjacency_matrix)
         dim2ind = np.array(tree.dim2ind)
 
         for level in np.arange(np.max(tree.level), -1, -1):
-- 
2.43.0


From 04ad6f434a77f32ece68150110950e3ca28d76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 008/106] fix: change_root of a tensor with root rank greater
 than one called a method that does not exist

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 7abb9b4..9d80cce 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -615,10 +615,9 @@ class TreeBasedTensor:
         assert x.is_active_node[nod - 1], "Can not make an inactive node the root node."
 
         if x.ranks[x.tree.root - 1] > 1:
-            x.tree = x.tree.addChild(x.tree.root)
-            x.tensors = np.concatenate((x.tensors, []))
-            x = x.update_attributes()
-            x = x.change_root(nod)
+            tree = x.tree.add_child(x.tree.root)
+            tensors = list(x.tensors) + [tensap.FullTensor([])]
+            x = TreeBasedTensor(tensors, tree).change_root(nod)
         else:
             t = x.tree
             tnew, modifNod = t.change_root(nod)
-- 
2.43.0


From 33605907f8aa67bb71384171a43dac3d1c4bee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 009/106] fix: a truncated tree based tensor was flagged
 orthogonal although its frames are not (wrong norm)

---
 tensap/tensor_algebra/tools/truncator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 207a7d7..916b155 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -456,9 +456,10 @@ class Truncator:
                         out.tensors[parent - 1] = out.tensors[
                             parent - 1
                         ].tensor_matrix_product(tmp, ch_nb - 1)
+                # Truncating the children of an interior node does not keep
+                # its frame orthonormal
                 out = out.update_attributes()
-                out.is_orth = True
-                out.orth_node = tree.root
+                out.is_orth = False
             else:
                 raise ValueError("Wrong value of _hsvd_type.")
         else:
-- 
2.43.0


From fb33fecd250c8a38e3b5cc155eafd13c82a7eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 010/106] fix: truncating with one maximal rank per node or
 mode changed the truncator for its next use

---
 tensap/tensor_algebra/tools/truncator.py | 38 +++++++++++++++++-------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 916b155..2fc49aa 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -133,7 +133,7 @@ class Truncator:
             raise ValueError("Wrong tensor order.")
         return out
 
-    def trunc_svd(self, matrix, tolerance=None, power=2):
+    def trunc_svd(self, matrix, tolerance=None, power=2, max_rank=None):
         """
         Compute the truncated svd of the matrix x with relative precision
         self.tolerance (or tolerance if provided) in Schatten p-norm (with p
@@ -149,6 +149,8 @@ class Truncator:
         power : int or 'inf' or float('inf') or numpy.inf, optional
             The integer p of the Schatten-p norm (1 <= p <= inf, p = 2 for
             Frobenius). The default is 2.
+        max_rank : int, optional
+            The maximal rank. The default is self.max_rank.
 
         Returns
         -------
@@ -158,6 +160,8 @@ class Truncator:
         """
         if tolerance is None:
             tolerance = self.tolerance
+        if max_rank is None:
+            max_rank = self.max_rank
 
         left, sin_val, right = np.linalg.svd(matrix, full_matrices=False)
         if power in ("inf", float("inf"), np.inf):
@@ -175,7 +179,7 @@ class Truncator:
         else:
             ind = np.min(ind) + 1
 
-        ind = int(np.min([ind, self.max_rank]))
+        ind = int(np.min([ind, max_rank]))
         if self.thresholding_parameter is not None and self.thresholding_parameter != 0:
             if self.thresholding_type == "soft":
                 sin_val -= self.thresholding_parameter
@@ -269,8 +273,11 @@ class Truncator:
             if isinstance(tensor, tensap.FullTensor):
                 vec = np.empty(order, dtype=object)
                 for dim in range(order):
-                    self.max_rank = max_rank[dim]
-                    vec[dim] = self.trunc_svd(tensor.matricize(dim).numpy(), local_tol)
+                    vec[dim] = self.trunc_svd(
+                        tensor.matricize(dim).numpy(),
+                        local_tol,
+                        max_rank=max_rank[dim],
+                    )
                     vec[dim] = vec[dim].space[0]
                 core = tensor.tensor_matrix_product(np.transpose(vec[0]), 0)
                 for dim in np.arange(1, order):
@@ -354,8 +361,11 @@ class Truncator:
                         if root_rank_greater_than_one:
                             rep_c = np.concatenate((rep_c, [tensor.order - 1]))
 
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(tensor.matricize(rep).numpy(), local_tol)
+                        tmp = self.trunc_svd(
+                            tensor.matricize(rep).numpy(),
+                            local_tol,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tensors[nod - 1] = tmp.space[0]
                         ranks[nod - 1] = tensors[nod - 1].shape[1]
                         shape_loc = np.hstack((shape[rep], ranks[nod - 1]))
@@ -398,8 +408,12 @@ class Truncator:
                     # Truncation of the Gramian in trace norm for a control
                     # of Frobenius norm of the tensor
                     if gram[nod] is not None:
-                        self.max_rank = max_rank[nod]
-                        tmp = self.trunc_svd(gram[nod], tolerance=local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod],
+                            tolerance=local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod],
+                        )
                         shape[nod] = tmp.core.shape[0]
                         mat[nod] = np.transpose(tmp.space[0])
 
@@ -444,8 +458,12 @@ class Truncator:
                     ):
                         # Truncation of the Gramian in trace norm for a control
                         # of Frobenius norm of the tensor
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(gram[nod - 1], local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod - 1],
+                            local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tmp = np.transpose(tmp.space[0])
                         order = out.tensors[nod - 1].order
                         out.tensors[nod - 1] = out.tensors[
-- 
2.43.0


From 88348865cbd0c9bed0ab9a7d329963901c23fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 011/106] fix: CanonicalTensor.eval_diag overwrote a factor of
 the tensor and failed for partial diagonals

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 8d9f6cd..f480de9 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -343,7 +343,7 @@ class CanonicalTensor:
             dims = np.sort(dims)
             new_dims = np.setdiff1d(range(self.order), dims[1:])
 
-        out = self.space[dims[0]]
+        out = np.array(self.space[dims[0]])
         for k in dims[1:]:
             out *= self.space[k]
 
@@ -354,7 +354,7 @@ class CanonicalTensor:
             core = deepcopy(self.core)
 
             space[dims[0]] = out
-            space = space[new_dims]
+            space = [space[k] for k in new_dims]
             core.shape = core.shape[new_dims]
             core.order = new_dims.size
             out = CanonicalTensor(space, core)
-- 
2.43.0


From 1d1a0f84e5d2106ebd533d5230da6bda01cbf6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 012/106] fix: inner product of different canonical tensors
 used transposed Gram matrices

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 5b2cb11..8fd182d 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -505,7 +505,6 @@ class DiagonalTensor:
         matrix = np.reshape(
             np.expand_dims(matrix, 1),
             (self.shape[0], y.shape[0], self.order),
-            order="F",
         )
         matrix = np.prod(matrix, 2)
         return np.matmul(np.transpose(self.data), np.matmul(matrix, y.data))
-- 
2.43.0


From c1a73fc525057aed50d9183fb558ba2702a0bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 013/106] fix: CanonicalTensor.parameter_gradient_eval_diag
 without matrices returned an array of the wrong shape

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index f480de9..688bafe 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -481,7 +481,7 @@ class CanonicalTensor:
                 )
             else:
                 out = tensap.FullTensor(f_mu).outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(self.shape[mu - 1])), [], [], True
+                    tensap.FullTensor(np.eye(self.shape[mu - 1])), 0, 0
                 )
         return out
 
-- 
2.43.0


From 4b2cc2b68e5fa8dc9130c7ca11cb9c095f0470e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 014/106] fix: DiagonalTensor.eval_diag along non-contiguous
 dims dropped the dims in between

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 8fd182d..edc5386 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -576,9 +576,7 @@ class DiagonalTensor:
             out = np.array(self.data)
         else:
             dims = np.sort(np.atleast_1d(dims))
-            rep = np.concatenate(
-                (np.arange(dims[0] + 1), np.arange(dims[-1] + 1, self.order))
-            )
+            rep = np.setdiff1d(range(self.order), dims[1:])
             out = deepcopy(self)
             out.shape = out.shape[rep]
             out.order = np.size(rep)
-- 
2.43.0


From 58194f700f7a7532fce0f52c700ba09c4ac0bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 015/106] fix: comparing multi-indices with a single
 multi-index overwrote the latter

---
 tensap/tools/multi_indices.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5138081..abd8ab3 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -77,15 +77,11 @@ class MultiIndices:
         if not isinstance(J, MultiIndices):
             ok = False
         else:
-            if J.cardinal() == 1:
-                J.array = np.tile(J.array, (self.cardinal(), 1))
             ok = np.all(self.array == J.array, axis=1)
         return ok
 
     def __le__(self, J):
         assert isinstance(J, MultiIndices), "Must provide a MultiIndices."
-        if J.cardinal() == 1:
-            J.array = np.tile(J.array, (self.cardinal(), 1))
         return np.all(self.array <= J.array, axis=1)
 
     def __add__(self, m):
-- 
2.43.0


From 0e4532047a860536856a97796412be5be6ad4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 016/106] fix: right addition and subtraction of multi-indices
 returned None and changed the set

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index abd8ab3..bbe5516 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -88,13 +88,13 @@ class MultiIndices:
         return MultiIndices(self.array + m)
 
     def __radd__(self, m):
-        self.array += m
+        return MultiIndices(m + self.array)
 
     def __sub__(self, m):
         return MultiIndices(self.array - m)
 
     def __rsub__(self, m):
-        self.array -= m
+        return MultiIndices(m - self.array)
 
     def cardinal(self):
         """
-- 
2.43.0


From deb05b5534af5374e271a02036ac0be9d7a9c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 017/106] fix: multi-index sets stopped growing when only the
 first margin index was admissible

---
 tensap/tools/multi_indices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index bbe5516..bc4c631 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -637,7 +637,7 @@ class MultiIndices:
                 M = ind.get_margin()
                 n = M.norm(p)
                 k = np.nonzero(n <= m)[0]
-                if np.all(np.logical_not(k)):
+                if k.size == 0:
                     add = False
                 else:
                     j = np.argsort(n[k])
@@ -847,7 +847,7 @@ class MultiIndices:
             M = M.remove_indices(rem)
             n = np.delete(n, rem)
             k = np.nonzero(n <= m)[0]
-            if np.all(np.logical_not(k)):
+            if k.size == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
@@ -882,7 +882,7 @@ class MultiIndices:
             M = ind.get_margin()
             n = np.prod((M.array + 1) ** w_k, axis=-1)
             k = np.nonzero(n <= p + 1)[0]
-            if np.all(np.logical_not(k)):
+            if k.size == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
-- 
2.43.0


From 408031f109d1e1393f7fd7d72f8ae39460167c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 018/106] fix: with_bounded_norm failed for the infinity norm

---
 tensap/tools/multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index bc4c631..c0dd6fa 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -625,7 +625,7 @@ class MultiIndices:
 
         """
         if p == np.inf:
-            ind = MultiIndices.product_set(np.arange(m + 1), d)
+            ind = MultiIndices.product_set([np.arange(int(np.floor(m)) + 1)], d)
         elif p == 1:
             ind = MultiIndices(np.zeros(d, dtype=int))
             for _ in range(m):
-- 
2.43.0


From ace9a5f4215c871d3ed8771c73f85c77eaf54f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 019/106] fix: MultiIndices.sort in descending order broke the
 order of the secondary columns

---
 tensap/tools/multi_indices.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index c0dd6fa..5db7e66 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -289,12 +289,10 @@ class MultiIndices:
 
         array = np.array(self.array)
         for k in np.flip(columns):
-            if k == columns[-1]:
-                ind = np.argsort(array[:, k])
+            if mode == "descend":
+                ind = np.argsort(-array[:, k], kind="mergesort")
             else:
                 ind = np.argsort(array[:, k], kind="mergesort")
-            if mode == "descend":
-                ind = np.flip(ind)
             array = array[ind, :]
         return MultiIndices(array.astype(int))
 
-- 
2.43.0


From 84e393092bff5514b83f28db66b66133dc9fb876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 020/106] fix: MultiIndices.envelope failed for a sequence
 given as a list

---
 tensap/tools/multi_indices.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5db7e66..2af1346 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -491,6 +491,7 @@ class MultiIndices:
             + "of multi-indices."
         )
 
+        u = np.asarray(u)
         env = np.array(u)
         for i in range(n):
             ind_sup = np.all(array >= np.tile(array[i, :], (n, 1)), axis=1)
-- 
2.43.0


From 20b4c900967c1de667d8a3cddcde6da793b5425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 021/106] fix: dimension trees with different numbers of nodes
 on a level compared equal

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 15fc3ad..0228824 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -154,7 +154,7 @@ class DimensionTree:
                 nodes1 = self.nodes_with_level(level)
                 nodes2 = T.nodes_with_level(level)
                 if len(nodes1) != len(nodes2):
-                    return is_equal
+                    return False
                 dims1 = [self.dims[i] for i in nodes1 - 1]
                 dims2 = [T.dims[i] for i in nodes2 - 1]
                 for i, dim1 in enumerate(dims1):
-- 
2.43.0


From a59e5c6c16633a77c29919cba8a23c9da657eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 022/106] fix: linear and balanced trees over a given order of
 the dimensions shifted it by one

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 0228824..c504e9f 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -743,7 +743,6 @@ class DimensionTree:
             order = np.arange(dim)
         else:
             dim = order.size
-            order -= 1
 
         d2i = np.concatenate(([2 * dim - 2], 2 * np.arange(dim - 1, 0, -1) + 1))
         adj_mat = np.zeros([2 * dim - 1] * 2, dtype=int)
@@ -776,7 +775,6 @@ class DimensionTree:
             order = range(dim)
         else:
             dim = order.size
-            order -= 1
 
         d2i = np.arange(dim, 2 * dim)
         adj_mat = np.zeros([2 * dim - 1] * 2, dtype=int)
-- 
2.43.0


From 18c8b3b73f36ae9aeaff2dafdf1268a26479d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 023/106] fix: the linear tree over one dimension attached it
 to a node that does not exist

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index c504e9f..802f1d4 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -744,7 +744,7 @@ class DimensionTree:
         else:
             dim = order.size
 
-        d2i = np.concatenate(([2 * dim - 2], 2 * np.arange(dim - 1, 0, -1) + 1))
+        d2i = np.concatenate(([max(2 * dim - 2, 1)], 2 * np.arange(dim - 1, 0, -1) + 1))
         adj_mat = np.zeros([2 * dim - 1] * 2, dtype=int)
         adj_mat[0, 1:3] = 1
         for level in range(dim - 2):
-- 
2.43.0


From 5a669eb4848ae7a4986edcada2249503e5793a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 024/106] fix: TreeBasedTensor.full reordered the dims of the
 nodes of its dimension tree

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 9d80cce..ac174c2 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -538,6 +538,7 @@ class TreeBasedTensor:
             return a
 
         tensors = np.array(self.tensors)
+        tree_dims = list(tree.dims)
 
         for level in np.arange(np.max(tree.level), -1, -1):
             nod_level = tensap.fast_setdiff(tree.nodes_with_level(level), tree.dim2ind)
@@ -552,10 +553,10 @@ class TreeBasedTensor:
                             [dims.size],
                         )
                         tensors[child - 1] = None
-                        dims = np.concatenate((tree.dims[child - 1], dims))
+                        dims = np.concatenate((tree_dims[child - 1], dims))
                     else:
-                        dims = np.concatenate((dims, tree.dims[child - 1]))
-                tree.dims[nod - 1] = dims
+                        dims = np.concatenate((dims, tree_dims[child - 1]))
+                tree_dims[nod - 1] = dims
 
         tensor = tensors[tree.root - 1]
         if tensor.order > self.order:
-- 
2.43.0


From 495f0346bf6f1ddb0019b469d319eadb860024ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 025/106] fix: permute_leaves overwrote the given permutation

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index ac174c2..2c4a724 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1060,7 +1060,7 @@ class TreeBasedTensor:
 
         """
         tensor = self
-        perm = np.atleast_1d(perm)
+        perm = np.array(np.atleast_1d(perm))
         if not np.array_equal(perm, np.sort(perm)):
             # Decomposition of the permutation into a sequence of elementary
             # permutations of two dimensions
-- 
2.43.0


From 1ceb5b51fecb56abc99d7203d6a8c4ced8dcd765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 026/106] fix: nodes_permutation_cost overwrote the ranks and
 exchanged the sizes of inactive dimensions

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 2c4a724..0e2d9df 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -713,10 +713,8 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        ranks = self.ranks
-        ranks[self.non_active_nodes - 1] = self.shape[
-            np.logical_not(self.is_active_node[tree.dim2ind - 1])
-        ]
+        ranks = np.array(self.ranks)
+        ranks[tree.dim2ind[self.non_active_dims] - 1] = self.shape[self.non_active_dims]
 
         cost = np.zeros(tree.nb_nodes)
         for beta in np.arange(1, tree.nb_nodes + 1):
-- 
2.43.0


From 4c2502ff75965001b590f648075d08d8dac398b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 027/106] fix: is_admissible_rank exchanged the sizes of
 inactive dimensions

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 0e2d9df..63b1230 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -454,9 +454,9 @@ class TreeBasedTensor:
             print("Inactive nodes must have an alpha-rank equal to 0.")
         else:
             is_admiss = True
-            ranks[tensap.fast_intersect(tree.dim2ind, self.non_active_nodes) - 1] = (
-                self.shape[self.non_active_dims]
-            )
+            ranks[tree.dim2ind[self.non_active_dims] - 1] = self.shape[
+                self.non_active_dims
+            ]
             for nod in tensap.fast_intersect(tree.internal_nodes, self.active_nodes):
                 children = tree.children(nod)
                 active_ch = tensap.fast_intersect(children, self.active_nodes)
-- 
2.43.0


From e5d4f6e456fed1af4b33c04ac9b2aa31ebc5af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 028/106] fix: integer2baseb without a dimension failed for 0
 and added a digit at some powers of the base

---
 tensap/tools/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/utils.py b/tensap/tools/utils.py
index bdb6756..7059a02 100644
--- a/tensap/tools/utils.py
+++ b/tensap/tools/utils.py
@@ -55,7 +55,9 @@ def integer2baseb(i, b, d=None):
 
     """
     if d is None:
-        d = int(np.ceil(np.log(np.max(i) + 1) / np.log(b)))
+        d = 1
+        while b**d <= np.max(i):
+            d += 1
 
     I0 = np.unravel_index(np.ravel(i), np.full(d, b), order="F")
     return np.fliplr(np.transpose(np.array(I0)))
-- 
2.43.0


From 2b4d5fa5d057747eb656cba3ac832a524b40e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 029/106] fix: Tensorizer.map rejected points given as a list

---
 tensap/functions/tensorizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/functions/tensorizer.py b/tensap/functions/tensorizer.py
index 60319eb..a31526d 100644
--- a/tensap/functions/tensorizer.py
+++ b/tensap/functions/tensorizer.py
@@ -122,6 +122,7 @@ class Tensorizer:
             (i_1, ..., i_d), if nargout == 2.
 
         """
+        x = np.asarray(x)
         if np.ndim(x) == 1:
             x = np.reshape(x, [-1, 1])
 
-- 
2.43.0


From 6ee669a5b03f47281a50a868090488bcde12e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 030/106] fix: comparing random variables with array parameters
 (discrete, empirical) raised

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index fccc011..5e61ca3 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -75,7 +75,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
             param_1 = self.get_parameters()
             param_2 = rv_2.get_parameters()
             for ind in zip(param_1, param_2):
-                is_equal = is_equal and (ind[0] == ind[1])
+                is_equal = is_equal and np.array_equal(ind[0], ind[1])
         return is_equal
 
     def __neq__(self, rv_2):
-- 
2.43.0


From d0f287ac66ff2d3655d93674cf815c9b1d7f4d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 031/106] fix: RandomVariable.moment stored the requested
 moments as if they were the first ones

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index 5e61ca3..30cf253 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -396,7 +396,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
         if nargout == 1:
             return out
         X = deepcopy(self)
-        X.moments = out
+        X.moments = self.moment(np.arange(np.max(ind) + 1))
         return out, X
 
     def mean(self):
-- 
2.43.0


From 776e7ca0e21bef996973a3b12531870ad7f0de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 032/106] fix: product measures with different numbers of
 factors compared equal

---
 tensap/functions/measures/product_measure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/product_measure.py b/tensap/functions/measures/product_measure.py
index f3630ba..98581d2 100644
--- a/tensap/functions/measures/product_measure.py
+++ b/tensap/functions/measures/product_measure.py
@@ -68,7 +68,9 @@ class ProductMeasure(tensap.Measure):
         )
 
     def __eq__(self, measure_2):
-        return np.all([x == y for x, y in zip(self.measures, measure_2.measures)])
+        return len(self.measures) == len(measure_2.measures) and np.all(
+            [x == y for x, y in zip(self.measures, measure_2.measures)]
+        )
 
     def is_discrete(self):
         return np.all([x.is_discrete() for x in self.measures])
-- 
2.43.0


From b4a9dd4f0c188d00adfbe107511a4c2017003112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 033/106] fix: iso_probabilistic_grid of a random vector of
 size one failed for a scalar

---
 tensap/functions/measures/random_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 08d2edf..b55f155 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -167,7 +167,7 @@ class RandomVector(tensap.ProbabilityMeasure):
         if np.size(n) == 1 and n < 1:
             n = int(np.ceil(n ** (-1 / d)))
 
-        if np.size(n) != d:
+        if np.ndim(n) == 0 or np.size(n) != d:
             n = np.full(d, n)
 
         b = [x.iso_probabilistic_grid(y) for x, y in zip(self.random_variables, n)]
-- 
2.43.0


From ba3aa0bffba71ca4446675b2e723270a888554b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 034/106] fix: quantiles of a discrete random variable with
 unsorted values were wrong

---
 tensap/functions/measures/discrete_random_variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index bc7a4a5..64f77bf 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -225,8 +225,9 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         p = np.array(p)
         shape = p.shape
-        v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))))
-        F = np.vstack(([0], np.reshape(self.probabilities, (-1, 1))))
+        order = np.argsort(np.ravel(self.values))
+        v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))[order]))
+        F = np.vstack(([0], np.reshape(self.probabilities, (-1, 1))[order]))
 
         M = p.size
         p = np.tile(np.reshape(p, (1, M)), (F.size, 1))
-- 
2.43.0


From c0078ee1e5e7beaee504f4fd6826cc59a55edf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 035/106] fix: the cdf of an empirical random variable was not
 the integral of its pdf (bandwidth scaled twice)

---
 tensap/functions/measures/empirical_random_variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 941f106..771fc49 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -20,6 +20,7 @@ Module empirical_random_variable.
 """
 
 import scipy
+from scipy.stats import norm
 import numpy as np
 import tensap
 
@@ -159,8 +160,8 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         return self.sample, self.bandwidth
 
     def cdf(self, x):
-        kde = scipy.stats.gaussian_kde(self.sample, self.bandwidth)
-        return np.vectorize(lambda z: kde.integrate_box_1d(-np.inf, z))(x)
+        xi, h = self.get_parameters()
+        return np.mean(norm.cdf(np.expand_dims(x, -1), np.ravel(xi), h), -1)
 
     def icdf(self, x, *args, **kwargs):
         """
-- 
2.43.0


From 168c115df0e35e3e56cca5802c1bc68d93895265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 036/106] fix: icdf of an empirical random variable recursed
 for ever

---
 tensap/functions/measures/empirical_random_variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 771fc49..ecf7116 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -182,7 +182,8 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
 
         """
         # TODO Optimize the method
-        sup = self.truncated_support()
+        xi, h = self.get_parameters()
+        sup = [np.min(xi) - 40 * h, np.max(xi) + 40 * h]
         return np.vectorize(
             lambda p: scipy.optimize.brentq(
                 lambda y: self.cdf(y) - p, sup[0], sup[1], *args, **kwargs
-- 
2.43.0


From 3be3848546e74e2b48bdf0293570ac594315a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 037/106] fix: ndim of an integration rule whose points are a
 vector failed

---
 tensap/approximation/integration/integration_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/integration/integration_rules.py b/tensap/approximation/integration/integration_rules.py
index 22acae2..feaa313 100644
--- a/tensap/approximation/integration/integration_rules.py
+++ b/tensap/approximation/integration/integration_rules.py
@@ -65,7 +65,7 @@ class IntegrationRule:
             The number of integration points.
 
         """
-        return self.points.shape[1]
+        return 1 if np.ndim(self.points) == 1 else self.points.shape[1]
 
     def integrate(self, fun):
         """
-- 
2.43.0


From f55de6d2f95a16483f7b20130d0996c35e549852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 038/106] fix: FullTensorGrid replaced the entries of the list
 of grids it was given

---
 tensap/tools/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/grids.py b/tensap/tools/grids.py
index 37950ad..9a4940a 100644
--- a/tensap/tools/grids.py
+++ b/tensap/tools/grids.py
@@ -182,6 +182,7 @@ class FullTensorGrid(TensorGrid):
                 np.ndim(grids) == 1
             ), "The first argument must be a unidimensional grid."
             grids = [np.reshape(grids, (-1, 1))] * dim
+        grids = list(grids)
         for i in range(len(grids)):
             if len(grids[i].shape) == 1:
                 grids[i] = np.reshape(grids[i], (-1, 1))
-- 
2.43.0


From 033b31f47aebd94fcfc918f6b390acc7e9cb4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 039/106] fix: integrals and decomposition of one for
 polynomials orthonormal for a measure of mass different from one

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0e19241..b456145 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -56,9 +56,8 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, OrthonormalPolynomials):
@@ -109,7 +108,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         ):
             out = np.zeros(ind.shape[0])
             if ind.shape[1] == 1:
-                out[ind[:, 0] == 0] = 1
+                out[ind[:, 0] == 0] = np.sqrt(self.measure.mass())
             else:
                 out[ind[:, 0] == ind[:, 1]] = 1
         else:
-- 
2.43.0


From 3ee8435529e31234f07f1a0b97edbf52141bd58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 040/106] fix: comparing orthonormal polynomials without
 precomputed coefficients raised

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index b456145..202adc9 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -66,11 +66,12 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out = (
                 self.measure == poly_2.measure
                 and np.array_equal(
-                    self._recurrence_coefficients, poly_2._recurrence_coefficients
+                    getattr(self, "_recurrence_coefficients", None),
+                    getattr(poly_2, "_recurrence_coefficients", None),
                 )
                 and np.array_equal(
-                    self._orthogonal_polynomials_norms,
-                    poly_2._orthogonal_polynomials_norms,
+                    getattr(self, "_orthogonal_polynomials_norms", None),
+                    getattr(poly_2, "_orthogonal_polynomials_norms", None),
                 )
                 and self.is_orthonormal == poly_2.is_orthonormal
             )
-- 
2.43.0


From 403a8d760da7b06afcab38ee7eb1a4b9598a27e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 041/106] fix: EmpiricalPolynomials could not be built from a
 sample

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 202adc9..4900c0a 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -632,7 +632,7 @@ class EmpiricalPolynomials(OrthonormalPolynomials):
             self.measure = sample.get_standard_random_variable()
         else:
             # Standardization of the sample
-            x = np.reshape(self.sample, [-1, 1])
+            x = np.reshape(sample, [-1, 1])
             x = (x - np.tile(np.mean(x, 0), (x.shape[0], 1))) / np.tile(
                 np.std(x, 0), (x.shape[0], 1)
             )
-- 
2.43.0


From 4374095e0424917b442973eadc87c6d0e1332ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 042/106] fix: shifted polynomials were not orthonormal when
 the shift changes the mass of the measure

---
 .../polynomials/orthonormal_polynomials.py    | 51 +++++++++++--------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 4900c0a..5e9b996 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -309,9 +309,12 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
+
+    def _normalization(self):
+        # 1 for probability measures
+        return np.sqrt(self.polynomials.measure.mass() / self.measure.mass())
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, ShiftedOrthonormalPolynomials):
@@ -348,30 +351,32 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         """
         return self.shift + self.scaling * self.polynomials.truncated_domain()
 
-    def mean(self, ind, *measure):
-        return self.polynomials.mean(ind, *measure)
-
-    def moment(self, ind, *measure):
-        if measure:
-            if measure[0] == self.measure:
-                measure = ()
-            else:
-                measure = tuple(
-                    [measure[0].shift(-self.shift / self.scaling, 1 / self.scaling)]
-                )
-        return self.polynomials.moment(ind, *measure)
+    def moment(self, ind, measure=None):
+        ind = np.atleast_2d(ind)
+        if measure is None or measure == self.measure:
+            measure = self.measure
+            out = self.polynomials.moment(ind)
+            mass = self.polynomials.measure.mass()
+        else:
+            shifted = measure.shift(-self.shift / self.scaling, 1 / self.scaling)
+            out = self.polynomials.moment(ind, shifted)
+            mass = shifted.mass()
+        return out * self._normalization() ** ind.shape[1] * (measure.mass() / mass)
 
     def polyval(self, ind, x):
-        x = (x - self.shift) / self.scaling
-        return self.polynomials.polyval(ind, x)
+        x = (np.asarray(x) - self.shift) / self.scaling
+        return self.polynomials.polyval(ind, x) * self._normalization()
 
     def d_polyval(self, ind, x):
-        x = (x - self.shift) / self.scaling
-        return self.polynomials.d_polyval(ind, x) / self.scaling
+        return self.dn_polyval(1, ind, x)
 
     def dn_polyval(self, n, ind, x):
-        x = (x - self.shift) / self.scaling
-        return self.polynomials.dn_polyval(n, ind, x) / (self.scaling**n)
+        x = (np.asarray(x) - self.shift) / self.scaling
+        return (
+            self.polynomials.dn_polyval(n, ind, x)
+            * self._normalization()
+            / (self.scaling**n)
+        )
 
     def random(self, ind, n=1, measure=None):
         """
@@ -398,9 +403,11 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
             The randomly drawn input points.
 
         """
+        if measure is not None:
+            measure = measure.shift(-self.shift / self.scaling, 1 / self.scaling)
         fx, x = self.polynomials.random(ind, n, measure)
         x = self.shift + self.scaling * x
-        return fx, x
+        return fx * self._normalization(), x
 
     def roots(self, n):
         """
-- 
2.43.0


From 816d46593fb1d21e171fa25afe8d21b258b3df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 043/106] fix: NormalRandomVariable.shift did not scale the
 mean

---
 tensap/functions/measures/normal_random_variable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/normal_random_variable.py b/tensap/functions/measures/normal_random_variable.py
index 5f4b2fa..784081d 100644
--- a/tensap/functions/measures/normal_random_variable.py
+++ b/tensap/functions/measures/normal_random_variable.py
@@ -126,8 +126,8 @@ class NormalRandomVariable(tensap.RandomVariable):
         Shift the normal random variable using the provided bias and scaling
         factor.
 
-        The mean mu of the random variable becomes mu + bias, and its standard
-        deviation sigma becomes sigma * scaling.
+        The mean mu of the random variable becomes scaling * mu + bias, and its
+        standard deviation sigma becomes sigma * scaling.
 
         Parameters
         ----------
@@ -143,7 +143,7 @@ class NormalRandomVariable(tensap.RandomVariable):
 
         """
         shifted_rv = tensap.NormalRandomVariable(self.mu, self.sigma)
-        shifted_rv.mu += bias
+        shifted_rv.mu = scaling * shifted_rv.mu + bias
         shifted_rv.sigma *= scaling
         return shifted_rv
 
-- 
2.43.0


From b33a064f78ef1597321e6556180a832155420c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 044/106] fix: derivatives of polynomials beyond their degree
 raised

---
 tensap/functions/polynomials/polynomials.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index db54d37..c86723f 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -95,6 +95,8 @@ class UnivariatePolynomials(ABC):
             of order contained in ind.
 
         """
+        if n > np.max(ind):
+            return np.zeros((len(ind), 1))
         coef = np.prod(
             np.tile(np.arange(np.max(ind) - n + 1), (n, 1))
             + np.tile(
@@ -102,10 +104,7 @@ class UnivariatePolynomials(ABC):
             ),
             0,
         )
-        coef = self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
-        if coef.size == 0:
-            coef = np.zeros(len(ind))
-        return coef
+        return self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
 
     def d_polyval(self, ind, x):
         """
-- 
2.43.0


From ce3ddfc593e540c91fd762f1cd8433b19a520399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 045/106] fix: coefficients and derivatives of polynomials
 orthonormal for a measure of mass different from one

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 5e9b996..09df3d6 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -138,6 +138,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
                     - np.sqrt(b[deg]) * coef[deg - 1, :]
                 ) / np.sqrt(b[deg + 1])
 
+        coef /= np.sqrt(self.measure.mass())
         return coef[ind, :]
 
     def polyval(self, ind, x):
@@ -179,7 +180,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out[:, 0] = 0
             if max_ind > 0:
                 if k == 1:
-                    out[:, 1] = 1 / np.sqrt(b[1])
+                    out[:, 1] = out_0[:, 0] / np.sqrt(b[1])
                 else:
                     out[:, 1] = 0
             for deg in np.arange(2, max_ind + 1):
-- 
2.43.0


From fbceb1d752120a863bb3c3b3e0d3138548cc816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 046/106] fix: integrals of polynomials for discrete measures
 raised

---
 tensap/functions/polynomials/polynomials.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index c86723f..34f18ec 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -222,7 +222,10 @@ class UnivariatePolynomials(ABC):
         max_deg = np.max(np.sum(ind, 1))  # Maximum degree of the product
         nb_pts = int(np.ceil((max_deg + 1) / 2))  # Number of points
 
-        G = measure.gauss_integration_rule(nb_pts)
+        if isinstance(measure, (tensap.DiscreteMeasure, tensap.DiscreteRandomVariable)):
+            G = measure.integration_rule()
+        else:
+            G = measure.gauss_integration_rule(nb_pts)
         for i in range(ind.shape[0]):
             # Creation of the function to integrate
             def poly(x):
-- 
2.43.0


From 3646a5d513dd12c1109aba5b4bee89082e9d5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 047/106] fix: coefficients of vector valued functions were
 scrambled

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bbc4228..020a930 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -74,7 +74,7 @@ class FunctionalBasisArray(tensap.Function):
         self.shape = np.atleast_1d(shape)
         self.output_shape = self.shape
         self.data = np.reshape(
-            self.data, np.concatenate(([basis.cardinal()], self.shape))
+            self.data, np.concatenate(([basis.cardinal()], self.shape)), order="F"
         )
 
     def __add__(self, g):
-- 
2.43.0


From f3df1c496497d289e4f14eed2d3e58bc2731af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 048/106] fix: derivative of a polynomial basis used too few
 points and a wrong projection

---
 tensap/approximation/bases/polynomial_functional_basis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 97f81fc..466e390 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -168,13 +168,17 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             assert self.measure is not None, "Must specify a Measure."
             measure = self.measure
 
-        nb_pts = int(np.ceil(np.max(self.indices) - (k - 1) / 2))
+        nb_pts = int(np.max(self.indices) + 1)
         int_rule = measure.gauss_integration_rule(nb_pts)
 
         def fun(x):
             return self.basis.dn_polyval(k, self.indices, x)
 
-        return self.projection(fun, int_rule).sub_functional_basis()
+        if measure == self.measure:
+            f = self.projection(fun, int_rule)
+        else:
+            f = self.least_squares_projection(fun, int_rule)
+        return f.sub_functional_basis()
 
     def gradient(self, measure=None):
         """
-- 
2.43.0


From f83155a0006591f6483f24e34af9d11221fa9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 049/106] fix: kron of polynomial bases projected the products
 on the wrong basis

---
 tensap/approximation/bases/polynomial_functional_basis.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 466e390..17990ad 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -121,7 +121,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
     def kron(self, q):
         m = np.max(self.indices) + np.max(q.indices)
-        b = PolynomialFunctionalBasis(self.basis, range(m))
+        b = PolynomialFunctionalBasis(self.basis, range(m + 1))
         b.measure = self.measure
 
         def fun(x):
@@ -132,12 +132,11 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
                     (1, self.cardinal(), 1),
                 ),
                 (np.shape(x)[0], self.cardinal() * q.cardinal()),
-                order="F",
             )
 
         measure = b.measure
-        int_rule = measure.gauss_integration_rule(2 * m)
-        return tensap.SubFunctionalBasis(b, self.projection(fun, int_rule).data)
+        int_rule = measure.gauss_integration_rule(m + 1)
+        return tensap.SubFunctionalBasis(b, b.projection(fun, int_rule).data)
 
     def derivative(self, k, measure=None):
         """
-- 
2.43.0


From bba8cf3543dc1ae1918ca2072d1eaf322e3b42f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 050/106] fix: derivatives and means of SubFunctionalBasis
 raised

---
 tensap/approximation/bases/sub_functional_basis.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 4fceb56..0d81af4 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -72,9 +72,10 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             if (
                 underlying_basis.is_orthonormal
                 and np.linalg.norm(
-                    np.matmul(np.transpose(basis), basis) - np.eye(basis.shape[1])
+                    np.matmul(np.transpose(self.basis), self.basis)
+                    - np.eye(self.basis.shape[1])
                 )
-                / np.sqrt(basis.shape[1])
+                / np.sqrt(self.basis.shape[1])
                 < 1e-15
             ):
                 self.is_orthonormal = True
@@ -140,7 +141,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             self.basis of degrees in self.indices at points x.
 
         """
-        return np.matmul(self.underlying_basis.eval_derivative(x, n), self.basis)
+        return np.matmul(self.underlying_basis.eval_derivative(n, x), self.basis)
 
     def derivative(self, n):
         """
@@ -180,11 +181,11 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
 
         """
         jac = self.underlying_basis.eval_jacobian(x)
-        out = np.einsum("ij,ajk", self.basis, jac)
+        out = np.einsum("ji,ajk->aik", self.basis, jac)
         return out
 
-    def mean(self):
-        return np.matmul(self.underlying_basis.mean(), self.basis)
+    def mean(self, *args):
+        return np.matmul(self.underlying_basis.mean(*args), self.basis)
 
     def gram_matrix(self):
         return self.basis.T @ self.underlying_basis.gram_matrix() @ self.basis
-- 
2.43.0


From ab20b0900a040e255de8db58f2b46712c56a64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 051/106] fix: Jacobian of bases of univariate functions raised

---
 tensap/approximation/bases/functional_basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 727db80..b591e34 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -471,6 +471,8 @@ class FunctionalBasis:
         for ind in range(self.ndim()):
             n = self.ndim() * [0]
             n[ind] = 1
+            if not hasattr(self, "bases"):
+                n = n[0]  # univariate basis
             # add an axis to concatenate
             dnHx_i = self.eval_derivative(n, x)[:, :, None]
             dnHx_lst.append(dnHx_i)
-- 
2.43.0


From 76271537a3df09594a1fd408cf31941684d37064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 052/106] fix: cardinal, dimension and printing of
 DeltaFunctionalBasis

---
 tensap/approximation/bases/delta_functional_basis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/delta_functional_basis.py b/tensap/approximation/bases/delta_functional_basis.py
index 99dce90..d016672 100755
--- a/tensap/approximation/bases/delta_functional_basis.py
+++ b/tensap/approximation/bases/delta_functional_basis.py
@@ -79,12 +79,13 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
 
         if measure is not None:
             self.input_dimension = measure.ndim()
+        elif values is not None:
+            self.input_dimension = values.shape[1]
         else:
             self.input_dimension = 1
 
     def eval(self, x):
         x = np.atleast_1d(x)
-        print(x)
         dim = self.values.shape[0]
         out = np.zeros((np.shape(x)[0], dim))
         for mu in range(dim):
@@ -99,4 +100,4 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         return self.input_dimension
 
     def cardinal(self):
-        return self.values.shape[1]
+        return self.values.shape[0]
-- 
2.43.0


From 103c53f9ac637cdcdd4667b34bd40692919c9121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 053/106] fix: ndim of DilatedBSplinesFunctionalBasis was
 missing

---
 tensap/approximation/bases/BSplines_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 8a7df1e..da0cf3b 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -376,7 +376,7 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
     def cardinal(self):
         return self.indices[0].size
 
-    def ndims(self):
+    def ndim(self):
         return 1
 
     def eval_derivative(self, k, x):
-- 
2.43.0


From 788b51b5f3ecf7d014f6e505a6aef2e3b3ef77ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 054/106] fix: mean and derivatives of piecewise polynomials
 raised

---
 .../bases/piecewise_polynomial_functional_basis.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
index 51c855c..19796bd 100644
--- a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
+++ b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
@@ -111,7 +111,7 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
                 J = np.sum(self.p[:i] + 1) + np.arange(self.p[i] + 1)
                 scale = h[i]
                 hx[np.ix_(loc, J)] = (
-                    pu[loc, : self.p[i] + 1] / np.sqrt(scale) * h[i] ** (-k)
+                    pu[loc, : self.p[i] + 1] / np.sqrt(scale) / h[i] ** k
                 )
 
         if indices is not None:
@@ -140,7 +140,7 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
         p2 = self.points[1:]
         h = p2 - p1
         m = np.zeros(self.cardinal())
-        q = np.cumsum(np.concatenate((0, self.p[:-1] + 1)))
+        q = np.cumsum(np.concatenate(([0], self.p[:-1] + 1)))
         m[q] = np.sqrt(h)
         return m
 
-- 
2.43.0


From 702a5e71c16aad89416de2a2df6545fc9825aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 055/106] fix: kron of FunctionalBases returned a list

---
 tensap/approximation/bases/functional_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 1739018..53f6a3a 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -174,7 +174,7 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = [x.kron(y) for x, y in zip(self.bases, g.bases)]
+        out.bases = np.array([x.kron(y) for x, y in zip(self.bases, g.bases)])
         return out
 
     def remove_bases(self, ind):
-- 
2.43.0


From eb41dfb59d9022ecce746baaba1ff97c6e5c49f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 056/106] fix: bases and measure disagreed after removing,
 keeping or permuting bases

---
 tensap/approximation/bases/functional_bases.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 53f6a3a..d8e7eea 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -192,9 +192,7 @@ class FunctionalBases:
             The FunctionalBases with removed bases.
 
         """
-        out = deepcopy(self)
-        out.bases = np.delete(self.bases, ind)
-        return out
+        return self.keep_bases(np.delete(np.arange(self.length()), ind))
 
     def keep_bases(self, ind):
         """
@@ -211,8 +209,11 @@ class FunctionalBases:
             The FunctionalBases with kept bases.
 
         """
+        ind = np.atleast_1d(np.arange(self.length())[ind])
         out = deepcopy(self)
         out.bases = out.bases[ind]
+        if isinstance(out.measure, (tensap.ProductMeasure, tensap.RandomVector)):
+            out.measure = out.measure.marginal(ind)
         return out
 
     def transpose(self, perm):
@@ -230,9 +231,7 @@ class FunctionalBases:
             The FunctionalBases with permuted bases.
 
         """
-        out = deepcopy(self)
-        out.bases = out.bases[perm]
-        return out
+        return self.keep_bases(perm)
 
     def __eq__(self, bases_2):
         if not isinstance(bases_2, FunctionalBases):
-- 
2.43.0


From 2613e69728466fba211c0cd1adf853b02d778d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 057/106] fix: random evaluations of bases refused their own
 product measure

---
 tensap/approximation/bases/functional_bases.py | 6 ++++--
 tensap/approximation/bases/functional_basis.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index d8e7eea..198fddd 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -398,7 +398,7 @@ class FunctionalBases:
         """
         if measure is not None:
             assert isinstance(
-                measure, tensap.ProbabilityMeasure
+                measure, (tensap.ProbabilityMeasure, tensap.ProductMeasure)
             ), "Must provide a ProbabilityMeasure."
             x = measure.marginal(dims).random(int(n))
             bases_eval, x = self.eval(x, dims, 2)
@@ -423,7 +423,9 @@ class FunctionalBases:
         """
         if isinstance(self.measure, tensap.RandomVector):
             measure = self.measure
-        elif isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif isinstance(self.measure, tensap.ProductMeasure) and np.all(
+            [isinstance(x, tensap.ProbabilityMeasure) for x in self.measure.measures]
+        ):
             measure = self.measure.random_vector()
         else:
             measure = None
diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index b591e34..1ed8ea1 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -81,7 +81,7 @@ class FunctionalBasis:
         """
         if measure is None:
             measure = self.measure
-        if not isinstance(measure, tensap.ProbabilityMeasure):
+        if not isinstance(measure, (tensap.ProbabilityMeasure, tensap.ProductMeasure)):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
         x = measure.random(n)
-- 
2.43.0


From 2cd177ad67ab20ce1229701df99c3d6296d15c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 058/106] fix: means of bases for a given measure ignored
 product measures and the selected dimensions

---
 tensap/approximation/bases/functional_bases.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 198fddd..bf3cd3c 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -509,10 +509,14 @@ class FunctionalBases:
         if dims is None:
             dims = np.arange(self.length())
 
-        if isinstance(measure, tensap.RandomVector):
-            out = [
-                x.mean(y) for x, y in zip(self.bases[dims], measure.random_variables)
-            ]
+        if isinstance(measure, (tensap.RandomVector, tensap.ProductMeasure)):
+            if isinstance(measure, tensap.RandomVector):
+                measures = measure.random_variables
+            else:
+                measures = measure.measures
+            if len(measures) == self.length():
+                measures = [measures[i] for i in dims]
+            out = [x.mean(y) for x, y in zip(self.bases[dims], measures)]
         elif isinstance(measure, tensap.RandomVariable):
             out = [x.mean(measure) for x in self.bases[dims]]
         else:
-- 
2.43.0


From dd62e817a684344a785444808fea7e4b06c647d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 059/106] fix: mean of a full tensor product basis was not in
 the order of its functions

---
 .../bases/full_tensor_product_functional_basis.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 41e62db..bd86c70 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -166,8 +166,8 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def mean(self, *args):
         H = self.bases.mean(None, *args)
-        H = tensap.CanonicalTensor([np.reshape(x, [-1, 1]) for x in H], [1])
-        return np.ravel(H.full().numpy())
+        ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
+        return np.prod([np.ravel(x)[i] for x, i in zip(H, ind.to_list())], 0)
 
     def conditional_expectation(self, dims, *args):
         ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
-- 
2.43.0


From f8c61208f51501050a234664e7590a4db8ec80ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 060/106] fix: tensor product bases kept the measure or indices
 of removed bases

---
 .../bases/full_tensor_product_functional_basis.py           | 3 +++
 .../bases/sparse_tensor_product_functional_basis.py         | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index bd86c70..1ccdbfd 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -116,6 +116,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases.bases])
         return out
 
     def keep_bases(self, ind):
@@ -135,6 +136,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases.bases])
         return out
 
     def remove_mapping(self, ind):
@@ -162,6 +164,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases.bases])
         return out
 
     def mean(self, *args):
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 66bfa28..8887490 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -117,6 +117,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.indices = out.indices.remove_dims(ind)
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases.bases])
         return out
 
     def keep_bases(self, ind):
@@ -136,6 +138,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.indices = out.indices.keep_dims(np.atleast_1d(ind))
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases.bases])
         return out
 
     def remove_mapping(self, ind):
@@ -163,6 +167,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.indices = tensap.MultiIndices(out.indices.array[:, perm])
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases.bases])
         return out
 
     def mean(self, *args):
-- 
2.43.0


From 7a280b1343b2e30db1f0e6757027ded1ab29458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 061/106] fix: comparing sparse bases with different numbers of
 indices raised

---
 .../bases/sparse_tensor_product_functional_basis.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 8887490..66ca50e 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -73,7 +73,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         if not isinstance(G, SparseTensorProductFunctionalBasis):
             out = False
         else:
-            out = np.all(self.bases == G.bases) and np.all(self.indices == G.indices)
+            out = np.all(self.bases == G.bases) and np.array_equal(
+                self.indices.array, G.indices.array
+            )
         return out
 
     def length(self):
-- 
2.43.0


From 61d67957eb7dbf75ba008c14ceed719d08f1ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 062/106] fix: conditional expectations given by booleans, with
 all dimensions or of functions

---
 tensap/approximation/bases/functional_basis_array.py      | 8 ++++++--
 .../bases/sparse_tensor_product_functional_basis.py       | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 020a930..34c3d14 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -357,6 +357,8 @@ class FunctionalBasisArray(tensap.Function):
 
         """
         h = self.basis.conditional_expectation(dims, *args)
+        if not isinstance(h, FunctionalBasisArray):
+            return self.expectation(*args)
         f = deepcopy(self)
         f.data = np.matmul(
             h.data,
@@ -364,7 +366,9 @@ class FunctionalBasisArray(tensap.Function):
                 self.data, [self.basis.cardinal(), np.prod(self.shape)], order="F"
             ),
         )
-        f.data = np.reshape(f.data, (f.data.shape[0], f.shape), order="F")
+        f.data = np.reshape(
+            f.data, np.concatenate(([f.data.shape[0]], f.shape)), order="F"
+        )
         f.basis = h.basis
         return f
 
@@ -390,7 +394,7 @@ class FunctionalBasisArray(tensap.Function):
         v = np.zeros((np.shape(alpha)[0], np.prod(self.shape)))
         for i in range(np.shape(alpha)[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if u.dtype == bool:
                 u = np.nonzero(u)[0]
 
             if np.size(u) == 0:
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 66ca50e..67de80b 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -182,7 +182,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def conditional_expectation(self, dims, *args):
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if dims.dtype == bool or dims.size == 0:
             dims = np.nonzero(dims)[0]
 
         dims_C = np.setdiff1d(range(self.ndim()), dims)
@@ -213,7 +213,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         else:
             h = tensap.FunctionalBasisArray(
-                np.eye(self.cardinal()), self, [self.cardinal(), 1]
+                np.eye(self.cardinal()), self, self.cardinal()
             )
         return h
 
-- 
2.43.0


From 872c9171fb1a6ca3ac8192b07b82f9269423af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 063/106] fix: interpolation of a tensor raised

---
 .../bases/full_tensor_product_functional_basis.py         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 1ccdbfd..e6cd289 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -306,8 +306,12 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         # TODO Create an empty class Tensor for when using isinstance?
         elif isinstance(
             fun,
-            (tensap.FullTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor),
-            tensap.DiagonalTensor,
+            (
+                tensap.FullTensor,
+                tensap.CanonicalTensor,
+                tensap.TreeBasedTensor,
+                tensap.DiagonalTensor,
+            ),
         ):
             y = fun
         else:
-- 
2.43.0


From 295b8910962427b49141c27ea08f95d721603706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 064/106] fix: projection on a full tensor product basis and of
 arrays of functions raised

---
 tensap/approximation/bases/functional_basis_array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 34c3d14..b49740e 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -621,12 +621,11 @@ class FunctionalBasisArray(tensap.Function):
         ):
             d = np.zeros((basis.cardinal(), np.prod(self.shape)))
             _, ia, ib = self.basis.indices.intersect_indices(indices)
-            d[ib, :] = self.data[ia, :]
-            if np.ndim(self.data) != np.ndim(d):
-                d = np.reshape(d, [basis.cardinal(), self.shape], order="F")
+            d[ib, :] = np.reshape(self.data, (self.data.shape[0], -1))[ia, :]
+            d = np.reshape(d, np.concatenate(([basis.cardinal()], self.shape)))
 
             if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
-                H = tensap.FullTensorProductIntegrationRule(basis.bases)
+                H = tensap.FullTensorProductFunctionalBasis(basis.bases)
             elif isinstance(basis, tensap.SparseTensorProductFunctionalBasis):
                 H = tensap.SparseTensorProductFunctionalBasis(basis.bases, indices)
             g = FunctionalBasisArray(d, H, self.shape)
-- 
2.43.0


From cc8aef001797d1bb82c414f3894519121be9f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 065/106] fix: interpolation of a tensor on a grid ignored the
 selection of its points

---
 .../bases/full_tensor_product_functional_basis.py         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index e6cd289..21afa8f 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -291,10 +291,11 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
             A dictionnary of outputs of the method.
 
         """
+        ind = None
         if grid is None:
             grid = self.bases.interpolation_points()
         else:
-            grid = self.bases.interpolation_points(grid)
+            grid, ind = self.bases.magic_points(grid)
         grid = tensap.FullTensorGrid(grid)
 
         output = {}
@@ -314,6 +315,11 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
             ),
         ):
             y = fun
+            if ind is not None and all(
+                n > np.max(i) for n, i in zip(y.shape, ind)
+            ):
+                # The values of the tensor at the selected points
+                y = y.sub_tensor(*ind)
         else:
             raise ValueError(
                 "The argument fun should be a Function, " + "function, or a Tensor."
-- 
2.43.0


From 5ef8f0b3c80c9cbbc6a7cec83d6b7abadc66841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 066/106] fix: variances of conditional expectations of
 array-valued functions were transposed

---
 tensap/approximation/bases/functional_basis_array.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index b49740e..2f1cea3 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -404,9 +404,7 @@ class FunctionalBasisArray(tensap.Function):
                 vi = mi.dot_product_expectation(mi) - m**2
                 v[i, :] = np.ravel(vi)
 
-        return np.reshape(
-            v, np.concatenate(([np.shape(alpha)[0]], self.shape)), order="F"
-        )
+        return np.reshape(v, np.concatenate(([np.shape(alpha)[0]], self.shape)))
 
     def eval(self, x, *args):
         if np.ndim(x) == 1:
-- 
2.43.0


From 0547755815a860501bda21e9699c48415c98ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 067/106] fix: functional tensors could not be added

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8f48b53..52fc130 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -97,7 +97,7 @@ class FunctionalTensor(tensap.Function):
             self.measure = self.bases.measure
             self.dim = np.sum(self.bases.ndim())
 
-    def __plus__(self, y):
+    def __add__(self, y):
         if isinstance(y, FunctionalTensor) and self.bases == y.bases:
             tensor = self.tensor + y.tensor
         else:
-- 
2.43.0


From d3695990ed62735c344b198340de5415c9f93219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 068/106] fix: norms and inner products of functional tensors
 raised

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 52fc130..6d28795 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -242,7 +242,7 @@ class FunctionalTensor(tensap.Function):
                     + "order, must specify fdims."
                 )
         if self.bases == f_2.bases:
-            gram_matrix = self.bases.gram_matrix(fdims, *measure)
+            gram_matrix = self.bases.gram_matrices(fdims, *measure)
         else:
             raise NotImplementedError("Method not implemented.")
         tensor = self.tensor.tensor_matrix_product(gram_matrix, fdims)
@@ -269,7 +269,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         if not self.evaluated_bases:
-            gram_matrix = self.bases.gram_matrix(range(self.tensor.order), *measure)
+            gram_matrix = self.bases.gram_matrices(range(self.tensor.order), *measure)
         else:
             gram_matrix = [np.eye(x.shape[1]) for x in self.bases]
         tensor = self.tensor.tensor_matrix_product(
-- 
2.43.0


From cd22def1f7e7c7c101cff10ef361157bac61a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 069/106] fix: gradient of functional tensors raised

---
 tensap/functions/functional_tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 6d28795..bade7e7 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -750,13 +750,12 @@ class FunctionalTensor(tensap.Function):
         """
         g = []
         for ind in range(self.bases.length()):
-            n = self.length() * [0]
+            n = self.bases.length() * [0]
             n[ind] = 1
             dHx = self.bases.eval_derivative(n, x)
             y = self.eval_with_bases_evals(dHx)
             g.append(y)
-        out = np.concatenate(g, axis=1)
-        return out
+        return np.stack(g, axis=1)
 
     def derivative(self, n):
         """
-- 
2.43.0


From 35f34f6c99afb47d4f59225bd6dfff68fd5c4db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 070/106] fix: partial evaluation of functional tensors on a
 grid raised

---
 tensap/functions/functional_tensor.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index bade7e7..8cd6883 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -797,17 +797,16 @@ class FunctionalTensor(tensap.Function):
         """
         if dims is None:
             dims = np.arange(self.bases.length())
+        dims = np.atleast_1d(dims)
         H = self.bases.eval(x, dims)
 
-        if np.size(dims) == self.tensor.order:
-            out = self.tensor.tensor_matrix_product(H, dims)
-        else:
-            out = deepcopy(self)
-            out.tensor = self.tensor.tensor_matrix_product(H, dims)
-            out.bases = out.bases.remove_bases(dims)
-            out.fdims = out.fdims[np.setdiff1d(np.range(np.size(out.fdims)), dims)]
-            if np.size(out.fdims) == 0:
-                out = out.tensor
+        tensor = self.tensor.tensor_matrix_product(H, self.fdims[dims])
+        if np.size(dims) == np.size(self.fdims):
+            return tensor
+        out = deepcopy(self)
+        out.tensor = tensor
+        out.bases = out.bases.remove_bases(dims)
+        out.fdims = np.delete(out.fdims, dims)
         return out
 
     def random(self, *args, **kwargs):
-- 
2.43.0


From 8c3f7129b05991e3d5388ec7687df79d8dc2874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 071/106] fix: conditional expectations of functional tensors
 given by booleans

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8cd6883..fd97b82 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -306,7 +306,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if dims.dtype == bool:
             dims = np.nonzero(dims)[0]
 
         d = self.tensor.order
@@ -358,7 +358,7 @@ class FunctionalTensor(tensap.Function):
         v = np.zeros(alpha.shape[0])
         for i in range(alpha.shape[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if u.dtype == bool:
                 u = np.nonzero(u)[0]
             if u.size == 0:
                 v[i] = 0
-- 
2.43.0


From 3964f2e332f6293ae9ac2e2fb66a5d8f96921be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 072/106] fix: mean of a functional tensor with several outputs
 raised

---
 tensap/functions/functional_tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index fd97b82..ede0537 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -134,7 +134,10 @@ class FunctionalTensor(tensap.Function):
 
         """
         bases_eval = self.bases.mean(None, *measure)
-        return self.tensor.tensor_vector_product(bases_eval, self.fdims).tolist()
+        mean = self.tensor.tensor_vector_product(bases_eval, self.fdims)
+        if hasattr(mean, "numpy"):
+            mean = mean.numpy()
+        return np.asarray(mean).tolist()
 
     def expectation(self, *measure):
         """
-- 
2.43.0


From 6f5311b1b3f8e924ee12d786512960fb078f29ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 073/106] fix: product of functional tensors with several
 outputs mixed the outputs

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index ede0537..7067b32 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -418,7 +418,7 @@ class FunctionalTensor(tensap.Function):
                     c = out.tensor.tensors[root - 1]
                     n = self.tensor.ranks[root - 1]
                     s = [":"] * c.order
-                    s[-1] = np.arange(n**2, step=n)
+                    s[-1] = np.arange(0, n**2, n + 1)
                     c = c.sub_tensor(*s)
                     out.tensor.tensors[root - 1] = c
                     out.tensor.ranks[root - 1] = n
-- 
2.43.0


From 9c3cd7c6a0a04607b9ece8064de3e3dc2c2f4ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 074/106] fix: partial evaluation of functional tensors lost or
 mixed dimensions

---
 tensap/functions/functional_tensor.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 7067b32..ee98650 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -880,6 +880,9 @@ class FunctionalTensor(tensap.Function):
         if len(dims) == 1 and not isinstance(bases_eval, list):
             bases_eval = [bases_eval]
         if len(dims) == self.tensor.order:
+            # The evaluations in the order of the dimensions of the tensor
+            order = np.argsort(self.fdims[np.asarray(dims)])
+            bases_eval = [bases_eval[i] for i in order]
             out = self.tensor.tensor_matrix_product_eval_diag(bases_eval).numpy()
         else:
             out = deepcopy(self)
@@ -888,10 +891,17 @@ class FunctionalTensor(tensap.Function):
                 bases_eval, fdims_eval
             )
             fdims_eval.sort()
-            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[2:])
-            if out.tensor.shape[fdims_eval[0]] == 1:
-                out.tensor = out.tensor.squeeze(fdims_eval[0])
-                old_dims = np.delete(old_dims, fdims_eval[0])
+            if isinstance(self.tensor, tensap.FullTensor):
+                # The evaluations are along the first dimension
+                pos = 0
+                old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval)
+                old_dims = np.concatenate(([fdims_eval[0]], old_dims))
+            else:
+                pos = fdims_eval[0]
+                old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[1:])
+            if out.tensor.shape[pos] == 1:
+                out.tensor = out.tensor.squeeze(pos)
+                old_dims = np.delete(old_dims, pos)
             out.bases = out.bases.remove_bases(dims)
             out.fdims = np.delete(out.fdims, dims)
             out.fdims = np.nonzero(np.isin(old_dims, out.fdims))[0]
-- 
2.43.0


From 3c211f71b0ea05304bd6c93d1231bd214983680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 075/106] fix: inner product with a metric of tree-based
 tensors of order one raised

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 63b1230..4efb0a1 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1878,11 +1878,14 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
+        if tree.nb_nodes == 1:
+            return self.tensors[0].dot(
+                tensor2.tensors[0].tensor_matrix_product(matrices[0], 0)
+            )
         tensors1 = np.array(self.tensors)
         tensors2 = tensor2.tensors
         out = np.empty(tree.nb_nodes, dtype=object)
         out[tree.dim2ind - 1] = matrices
-
         for nod in tree.dim2ind:
             if self.is_active_node[nod - 1]:
                 tmp = tensors2[nod - 1].tensor_matrix_product(out[nod - 1], 0)
-- 
2.43.0


From 1e210a207fb8a82f7943bd8d86676424223574dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:57 +0000
Subject: [PATCH 076/106] fix: merged gradient of functional tensors with
 several outputs raised below the root

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index ee98650..17b46d2 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -681,7 +681,7 @@ class FunctionalTensor(tensap.Function):
                         fH.tensors[alpha - 1].order + fH.tensors[gamma - 1].order - 2
                     ]
                 perm_3 = []
-                if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+                if gamma != tree.root and self.tensor.ranks[tree.root - 1] > 1:
                     perm_3 = [grad.order - 1]
                 grad = grad.transpose(
                     np.concatenate(([0], perm_1 + 1, perm_2, perm_3)).astype(int)
-- 
2.43.0


From dad81721455bbc6566d29e6f03d0cfdf964204f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:52 +0000
Subject: [PATCH 077/106] fix: calling a function which stores its evaluations
 raised, and stored evaluations lost a dimension or were permuted

---
 tensap/functions/function.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index cd7bcda..264a7c4 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -66,9 +66,11 @@ class Function:
             x = np.expand_dims(x, 1)
 
         if self.store:
-            y = self.store_eval(x)
+            y, f = self.store_eval(x)
             if np.ndim(y) == 2 and np.shape(y)[1] == 1:
                 y = np.squeeze(y, axis=1)
+            if return_f:
+                return y, f
             return y
         else:
             y = self.eval(x)
@@ -116,13 +118,10 @@ class Function:
             x_new = x[np.setdiff1d(range(x.shape[0]), ind_1), :]
             if x_new.size != 0:
                 y_new = self.eval(x_new)
-                y[np.setdiff1d(range(x.shape[0]), ind_1), :] = np.reshape(
-                    y_new, (y_new.shape[0], -1)
-                )
+                y_new = np.reshape(y_new, (y_new.shape[0], -1), order="F")
+                y[np.setdiff1d(range(x.shape[0]), ind_1), :] = y_new
                 self._x_stored = np.vstack((self._x_stored, x_new))
-                self._y_stored = np.vstack(
-                    (self._y_stored, np.reshape(y_new, (y_new.shape[0], -1)))
-                )
+                self._y_stored = np.vstack((self._y_stored, y_new))
             y = np.reshape(
                 y,
                 np.concatenate(([y.shape[0]], np.atleast_1d(self.output_shape))),
@@ -145,7 +144,7 @@ class Function:
             self._x_stored = x
             self._y_stored = y
 
-        return np.squeeze(y), self
+        return y, self
 
     def fplot(self, support=None, n_points=100, *args, **kwargs):
         """
-- 
2.43.0


From bfab72d648f458957a65b7aa4900f86b535c96f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:52 +0000
Subject: [PATCH 078/106] fix: partial evaluation of functions with several
 outputs or without a measure raised

---
 tensap/functions/function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 264a7c4..5a8d815 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -268,10 +268,11 @@ class Function:
             grid = tensap.FullTensorGrid([x_alpha, x_not_alpha])
             return self.eval(grid.array()[:, ind])
 
-        f_alpha = tensap.UserDefinedFunction(fun, alpha.size)
+        f_alpha = tensap.UserDefinedFunction(fun, alpha.size, self.output_shape)
         f_alpha.store = self.store
         f_alpha.evaluation_at_multiple_points = self.evaluation_at_multiple_points
-        f_alpha.measure = self.measure.marginal(alpha)
+        if self.measure is not None:
+            f_alpha.measure = self.measure.marginal(alpha)
 
         return f_alpha
 
-- 
2.43.0


From 24f11aad670aa12eb4ab2c5b3d04f027f1bdb3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:53 +0000
Subject: [PATCH 079/106] fix: random evaluations of a function ignored the
 given measure

---
 tensap/functions/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 5a8d815..09c7680 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -307,7 +307,7 @@ class Function:
                 measure = self.measure
             else:
                 raise ValueError("Must provide a ProbabilityMeasure.")
-        elif not isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
         x = measure.random(n)
-- 
2.43.0


From 2ac3694928972205117f01fc64277916e8845368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 080/106] fix: least-squares weights raised or were ignored,
 and solve modified the data

---
 .../linear_model_learning_square_loss.py      | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d5c355a..bb8eed5 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -19,6 +19,8 @@ Module linear_model_learning_square_loss.
 
 """
 
+from copy import copy
+
 import numpy as np
 from scipy.sparse import diags
 import tensap
@@ -86,6 +88,23 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         """
         self.initialize()
 
+        # The data of the object itself must not be modified.
+        solver = copy(self)
+        solver.training_data = list(self.training_data)
+        return solver._solve()
+
+    def _solve(self):
+        """
+        Solution of the Least-Squares problem, modifying the data of the object.
+
+        Returns
+        -------
+        sol : numpy.ndarray or tensap.FunctionalBasisArray
+            The solution of the minimization problem.
+        output : dict
+            Outputs of the algorithm.
+
+        """
         A = self.basis_eval
         y = self.training_data[1]
 
@@ -108,9 +127,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         output = {}
 
         if self.weights is not None:
-            weights = diags(np.sqrt(self.weights))
-            A = np.matmul(weights, A)
-            y = np.matmul(weights, y)
+            weights = np.sqrt(np.ravel(self.weights))
+            weights = np.tile(weights, A.shape[0] // weights.size)
+            A = np.reshape(weights, [-1, 1]) * A
+            y = np.reshape(weights, [-1] + [1] * (np.ndim(y) - 1)) * y
+            self.basis_eval = A
+            self.training_data[1] = y
 
         if not self.basis_adaptation:
             if not self.regularization:
-- 
2.43.0


From 52b180528e54bab350779e0bdcc82ac98bb2098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 081/106] fix: leave-one-out error of least-squares problems
 with several outputs raised

---
 .../learning/linear_model_learning_square_loss.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index bb8eed5..dd2f90d 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -592,7 +592,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 T = np.sum(q_A**2, 1)
 
             with np.errstate(divide="ignore", invalid="ignore"):
-                delta = (y - np.matmul(A, sol)) / (1 - np.reshape(T, y.shape))
+                T = np.reshape(T, [-1] + [1] * (np.ndim(y) - 1))
+                delta = (y - np.matmul(A, sol)) / (1 - T)
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
-- 
2.43.0


From a19b16deff3d2445f03b2e111b15166048b3e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 082/106] fix: k-fold error of least-squares problems mixed the
 outputs

---
 .../learning/linear_model_learning_square_loss.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index dd2f90d..41e4cd8 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -634,14 +634,14 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 )
                 # Compute the absolute cross-validation error for the current
                 # fold
-                errors.append(np.mean(delta_loc**2))
+                errors.append(np.mean(delta_loc**2, 0))
                 if n == 1:
                     delta[test] = delta_loc
                 else:
                     delta[test, :] = delta_loc
 
             # Average over the folds
-            err = np.mean(errors)
+            err = np.mean(errors, 0)
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
-- 
2.43.0


From dfbfd614160b95e6423c82cbc7ab6d025c40a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 083/106] fix: basis selection with a Gram matrix raised and
 replaced it

---
 .../learning/linear_model_learning_square_loss.py         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 41e4cd8..922afc8 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -430,7 +430,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             A_red = A[:, ind]
             if "gram_matrix" in self.error_estimation_options:
-                self.error_estimation_options["gram_matrix"] = gram_matrix[ind, ind]
+                self.error_estimation_options["gram_matrix"] = gram_matrix[
+                    np.ix_(ind, ind)
+                ]
 
             if A_red.shape[1] > A_red.shape[0]:
                 self.linear_solver = "solve"
@@ -471,6 +473,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 err[i + 1:] = np.inf
                 delta[:, i + 1:] = np.inf
 
+        if "gram_matrix" in self.error_estimation_options:
+            self.error_estimation_options["gram_matrix"] = gram_matrix
+        self.linear_solver = linear_solver
+
         ind = np.argmin(err)
 
         output["error"] = err[ind]
-- 
2.43.0


From 103462dadbfa9998ef483aa248c5d0835dc2ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 084/106] fix: stop_if_error_increase did not stop the
 selection

---
 .../approximation/learning/linear_model_learning_square_loss.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 922afc8..990a8ea 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -472,6 +472,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
                 delta[:, i + 1:] = np.inf
+                break
 
         if "gram_matrix" in self.error_estimation_options:
             self.error_estimation_options["gram_matrix"] = gram_matrix
-- 
2.43.0


From 1563dd7422df30016a7a9d22e567076342ceb453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 085/106] fix: least squares with l0 regularization raised and
 ignored its options

---
 .../learning/linear_model_learning_square_loss.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 990a8ea..d599c97 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -22,7 +22,7 @@ Module linear_model_learning_square_loss.
 from copy import copy
 
 import numpy as np
-from scipy.sparse import diags
+
 import tensap
 
 
@@ -260,9 +260,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         options = self.regularization_options
         if self.regularization_type == "l0":
-            options_loc = {i: output[i] for i in output if i != "alpha"}
+            options_loc = {i: options[i] for i in options if i != "alpha"}
             D = np.linalg.norm(A, axis=0)
-            A_omp = np.matmul(A, diags(1 / D))
+            A_omp = A / D
             solpath = linear_model.orthogonal_mp(
                 A_omp,
                 y,
@@ -271,8 +271,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 return_path=True,
                 **options_loc
             )
-            solpath = np.atleast_2d(solpath)
-            sol = np.matmul(diags(1 / D), solpath[:, -1])
+            solpath = np.reshape(solpath, [P, -1])
+            sol = solpath[:, -1] / D
         elif self.regularization_type == "l1":
             reg = linear_model.LassoLars(copy_X=True, fit_intercept=False, **options)
             reg.fit(A, y)
-- 
2.43.0


From e1798dfaf64af27367bf620c7a83f309585f31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 086/106] fix: regularized least squares with non-zero blocks
 raised

---
 .../approximation/learning/linear_model_learning_square_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d599c97..ca9a79e 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -288,7 +288,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         if (self.model_selection and np.linalg.norm(
                 solpath) != 0) and solpath.shape[1] > 1:
             if "non_zero_blocks" in self.options:
-                rep = np.true(solpath.shape[1])
+                rep = np.full(solpath.shape[1], True)
                 rep = np.logical_and(rep, np.any(solpath, 0))
                 for block in self.options["non_zero_blocks"]:
                     rep = np.logical_and(rep, np.any(solpath[block, :], 0))
-- 
2.43.0


From d50aec48b5bb75a19ec3c7f8473f5bbd9513d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 087/106] fix: cross-validation error of sparse solutions
 ignored their support

---
 .../approximation/learning/linear_model_learning_square_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index ca9a79e..bdc3ca5 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -306,7 +306,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 error = np.mean(delta ** 2, 0) / second_moment
             else:
                 # if len(sol) > 1:
-                if np.all(sol != 0):
+                if np.any(sol != 0):
                     ind = np.nonzero(sol)[0]
                     A_red = A[:, ind]
                     sol_ind = sol[ind]
-- 
2.43.0


From bc495141df3f9e49b3faff395a4f9c3d24b2b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 088/106] fix: test error of least-squares problems with
 several outputs raised

---
 .../learning/linear_model_learning_square_loss.py            | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index bdc3ca5..90cab76 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -169,14 +169,13 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     f_eval, self.test_data
                 )
             else:
-                output["test_error"] = np.zeros([1, n])
+                output["test_error"] = np.zeros(n)
                 f_eval = np.matmul(self.basis_eval_test, sol)
                 for ind in range(n):
                     test_data = [self.test_data[0], self.test_data[1][:, ind]]
                     output["test_error"][ind] = self.loss_function.test_error(
-                        f_eval, test_data
+                        f_eval[:, ind], test_data
                     )
-
         if self.basis is not None:
             sol = tensap.FunctionalBasisArray(sol, self.basis, n)
 
-- 
2.43.0


From 5d5b6403c6c9184127cda8ece668f75488dcf0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:20 +0000
Subject: [PATCH 089/106] fix: square loss of scalar outputs was not evaluated
 sample by sample

---
 tensap/approximation/learning/loss_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index d1f1105..f8c9d09 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -163,8 +163,12 @@ class SquareLossFunction(LossFunction):
             except Exception:
                 y_pred = fun
 
-        y_pred = np.atleast_2d(y_pred)
-        y_true = np.atleast_2d(sample[1])
+        y_true = sample[1]
+        # One row per sample, also for scalar outputs
+        if np.ndim(y_pred) < 2:
+            y_pred = np.reshape(y_pred, [-1, 1])
+        if np.ndim(y_true) < 2:
+            y_true = np.reshape(y_true, [-1, 1])
         loss = np.sum((y_pred - y_true) ** 2, 1)
 
         if nargout == 1:
-- 
2.43.0


From 05161cfc66e11bdd3a89280c9f48e0a53390ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:29 +0000
Subject: [PATCH 090/106] fix: regularized least squares with several outputs
 raised without error estimation

---
 .../approximation/learning/linear_model_learning_square_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 90cab76..59c35c5 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -147,7 +147,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     for ind in range(n):
                         self.training_data[1] = y[:, ind]
                         sol[:, ind], output_tmp = self._solve_regularized_ls()
-                        output["error"][ind] = output_tmp["error"]
+                        output["error"][ind] = output_tmp.get("error", np.nan)
                         output["outputs"][ind] = output_tmp
         else:
             if n == 1:
-- 
2.43.0


From 9cf5fd0e5a8fa07cc65bfa006a3b127ca16bb6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:43 +0000
Subject: [PATCH 091/106] fix: L2 density model used the square loss

---
 .../approximation/learning/linear_model_learning_density_l2.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 68a2af4..514eb69 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -45,7 +45,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         None.
 
         """
-        super().__init__(tensap.SquareLossFunction())
+        super().__init__(tensap.DensityL2LossFunction())
 
         self.is_basis_orthonormal = True
 
-- 
2.43.0


From d9dbfb4673debb6f82511ecbf1dba7a055428d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:43 +0000
Subject: [PATCH 092/106] fix: test error of the L2 density model raised

---
 .../approximation/learning/linear_model_learning_density_l2.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 514eb69..7ff0752 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -74,7 +74,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         if self.test_error:
             f_eval = np.matmul(self.basis_eval_test, sol)
             output["test_error"] = self.loss_function.test_error(
-                f_eval, self.test_data, sol.norm() ** 2
+                f_eval, self.test_data, np.linalg.norm(sol)
             )
 
         if self.basis is not None:
-- 
2.43.0


From 2a09776890089cbfc7846adf109c6d684a508abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:43 +0000
Subject: [PATCH 093/106] fix: stop_if_error_increase did not stop the density
 selection

---
 .../approximation/learning/linear_model_learning_density_l2.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 7ff0752..38e7c80 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -357,6 +357,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             ):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
+                break
 
         ind = np.argmin(err)
 
-- 
2.43.0


From 06f1f20b390511f781f35d10aee465b3b5ae1611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:22 +0000
Subject: [PATCH 094/106] fix: included coefficients with a reference density
 raised

---
 .../approximation/learning/linear_model_learning_density_l2.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 38e7c80..c683957 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -188,7 +188,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
                     / (N * (N - 1) ** 2)
                     * np.sum(np.ravel(A_square_sum)[incl_coef])
                     - 2 / (N - 1) * np.sum(np.matmul(A, sol_incl_coef))
-                    + 2 * np.sum(sol_incl_coef * b_incl_coef)
+                    + 2 * np.sum(sol_incl_coef[incl_coef] * b_incl_coef)
                 )
 
         if list_sort.size == 0:
-- 
2.43.0


From 53bb2b0f5be3aa59e77e54c80922425be1a2f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:39 +0000
Subject: [PATCH 095/106] fix: model selection raised when the best model is
 also the simplest

---
 tensap/approximation/tools/model_selection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 9c05a7b..f77b805 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -118,8 +118,8 @@ class ModelSelection:
                     m_path.append(ind)
 
         if path == []:
-            path = 0
-            m_path = 0
+            path = np.atleast_1d(0)
+            m_path = np.atleast_1d(ind)
         else:
             path = np.atleast_1d(path)
             m_path = np.atleast_1d(m_path)
@@ -170,6 +170,8 @@ class ModelSelection:
 
         if lambda_path is None and m_path is None:
             lambda_path, m_path = self.lambda_path()
+        if np.size(lambda_path) == 1:
+            return 0, m_path, lambda_path, m_path
         l_mid = (lambda_path[:-1] + lambda_path[1:]) / 2
         gaps = comp[self.m_lambda(l_mid[:-1])] - comp[self.m_lambda(l_mid[1:])]
         ind = np.argmax(gaps)
-- 
2.43.0


From b6e69e088346dc65a462214f4cff582293688471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:39 +0000
Subject: [PATCH 096/106] fix: path of selected models was wrong when models
 tie

---
 tensap/approximation/tools/model_selection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index f77b805..cd15ea9 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -98,7 +98,11 @@ class ModelSelection:
         m_path = []
         lambda_0 = 0
         lambda_current = 0
-        ind = np.argmin(risk)
+        pen = self.pen_shape(comp)
+        # Among tied models, the one with the smallest penalization is selected
+        # for larger values of lambda
+        tied = np.nonzero(risk == np.min(risk))[0]
+        ind_min = ind = tied[np.argmin(pen[tied])]
         ok = True
 
         while ok:
@@ -113,7 +117,8 @@ class ModelSelection:
             if ok:
                 lambda_0 = np.nanmin(lambda_current)
                 if not np.isnan(lambda_0):
-                    ind = np.nanargmin(lambda_current)
+                    tied = np.nonzero(lambda_current == lambda_0)[0]
+                    ind = tied[np.argmin(pen[tied])]
                     path.append(lambda_0)
                     m_path.append(ind)
 
@@ -123,7 +128,6 @@ class ModelSelection:
         else:
             path = np.atleast_1d(path)
             m_path = np.atleast_1d(m_path)
-            ind_min = np.argmin(risk)
             path = np.concatenate(([path[0] / 2], path, [path[-1] * 2]))
             m_path = np.concatenate(([ind_min], m_path, [m_path[-1]]))
         return np.array(path), np.array(m_path)
-- 
2.43.0


From 55d72480352af5ac6754185cd1720eb46bc7f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:56 +0000
Subject: [PATCH 097/106] fix: random exploration of the nodes of a tree raised

---
 .../tensor_learning/tree_based_tensor_learning.py          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 36a9778..ed6e087 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -186,12 +186,13 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         return self, f
 
     def randomize_exploration_strategy(self):
-        strategy = np.zeros(self._number_of_parameters)
+        strategy = np.zeros(self._number_of_parameters, dtype=int)
         for level in np.arange(np.max(self.tree.level), -1, -1):
             active_nodes = np.intersect1d(
-                self.tree.nodes_with_level(level), np.nonzero(self.is_active_node)[0]
+                self.tree.nodes_with_level(level),
+                np.nonzero(self.is_active_node)[0] + 1,
             )
-            _, ind = np.intersect1d(
+            _, ind, _ = np.intersect1d(
                 self._exploration_strategy, active_nodes, return_indices=True
             )
             strategy[ind] = self._exploration_strategy[np.random.permutation(ind)]
-- 
2.43.0


From 56979d241d6e1844f9c0c01ee05f0af5344e9c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:56 +0000
Subject: [PATCH 098/106] fix: mean initialization from evaluations of the
 bases raised

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index ed6e087..372745c 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -118,7 +118,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if isinstance(self.bases, tensap.FunctionalBases):
                 means = self.bases.mean()
             else:
-                means = [np.mean(x) for x in self.bases_eval]
+                means = [np.mean(x, 0) for x in self.bases_eval]
             if self.initialization_type == "mean_randomized":
                 means = [x + 0.01 * np.random.randn(*x.shape) for x in means]
             means = [tensap.FullTensor(x, 2, [x.shape[0], 1]) for x in means]
-- 
2.43.0


From 13edddf08cdab4febfd53c386059ef95ffeb267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:10 +0000
Subject: [PATCH 099/106] fix: rank adaptation without rank-one correction
 raised

---
 .../tensor_learning/tree_based_tensor_learning.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 372745c..0364e3f 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -506,7 +506,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         dim2ind = np.intersect1d(f.tensor.tree.dim2ind, f.tensor.active_nodes)
         ind = [len(set(x.size)) == 1 for x in f.tensor.tensors[dim2ind - 1]]
         sin_val[dim2ind[ind] - 1] = np.nan
-        sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
+        if self.rank_adaptation_options["rank_one_correction"]:
+            sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
 
         sin_val_min = np.array([np.min(x) for x in sin_val])
         sin_val_min[
-- 
2.43.0


From c13e16e34b3ed96490c115b67d5d8ec624167baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:10 +0000
Subject: [PATCH 100/106] fix: greedy learning in canonical format raised

---
 .../tensor_learning/canonical_tensor_learning.py       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index da8472a..51879ee 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -354,6 +354,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         bases_eval = self.bases_eval
         output = {}
         output["sequence"] = np.empty(self.rank, dtype=object)
+        output["test_error_iterations"] = []
+        self._number_of_parameters = self.order + 1
 
         # Replication of the LinearModelLearning objects
         if self.linear_model_learning_parameters[
@@ -390,14 +392,14 @@ class CanonicalTensorLearning(tensap.TensorLearning):
 
         f = tensap.CanonicalTensor.zeros(0, [x.shape[1] for x in bases_eval])
         f_0 = deepcopy(f)
-        stagnation = np.zeros((1, self.rank))
+        stagnation = np.zeros(self.rank)
 
         ls_local = deepcopy(
             s_local.linear_model_learning[self._number_of_parameters - 1]
         )
 
         is_error = False
-        error = np.ones((1, self.rank))
+        error = np.ones(self.rank)
         pure_greedy = False
         if not pure_greedy:
             for linear_solver in self.linear_model_learning:
@@ -474,9 +476,9 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                         output["test_error"],
                     )
 
-        output["stagnation"] = stagnation[: k - 1]
+        output["stagnation"] = stagnation[:k]
         if is_error:
-            output["errors"] = error[: k - 1]
+            output["errors"] = error[:k]
             K = np.argmin(output["errors"])
             f = output["sequence"][K]
             output["selected_iterate"] = K
-- 
2.43.0


From 3b2ce01c59e75127cbab985b535de1a214106f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:53 +0000
Subject: [PATCH 101/106] fix: random enrichment of the ranks was applied to
 the wrong nodes

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 0364e3f..5f99044 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -1242,7 +1242,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         """
         f.is_orth = False
         tree = f.tree
-        enriched_dims = np.nonzero(new_rank > f.ranks)[0]
+        enriched_dims = np.nonzero(new_rank > f.ranks)[0] + 1
 
         for level in np.arange(1, np.max(tree.level) + 1):
             nod_lvl = np.intersect1d(tree.nodes_with_level(level), enriched_dims)
-- 
2.43.0


From 87e3d81986d77a84bef2af04d99addfc65994c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:45 +0000
Subject: [PATCH 102/106] fix: iterates of the alternating minimization were
 overwritten by the next ones

---
 .../tensor_approximation/tensor_learning/tensor_learning.py   | 4 ++--
 .../tensor_learning/tree_based_tensor_learning.py             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index bd6fbb0..0552c6c 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -470,10 +470,10 @@ class TensorLearning(tensap.Learning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(deepcopy(f))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 5f99044..c96a1b6 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -995,10 +995,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(deepcopy(f))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
-- 
2.43.0


From 2a8b5d245f2ba1aafafe4689801871036540c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:45 +0000
Subject: [PATCH 103/106] fix: mean initialization raised when nodes are
 inactive

---
 .../tensor_learning/tree_based_tensor_learning.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index c96a1b6..ddd40ba 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -103,7 +103,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
         ):
-            if not np.all(self.rank == 1):
+            if not np.all(np.asarray(self.rank)[self.is_active_node] == 1):
                 raise NotImplementedError(
                     "Initialization only implemented " + "if np.all(self.rank == 1)."
                 )
@@ -123,7 +123,9 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 means = [x + 0.01 * np.random.randn(*x.shape) for x in means]
             means = [tensap.FullTensor(x, 2, [x.shape[0], 1]) for x in means]
 
-            f = tensap.TreeBasedTensor.ones(self.tree, self.rank, shape)
+            f = tensap.TreeBasedTensor.ones(
+                self.tree, np.ones_like(self.rank), shape
+            )
             f.tensors[self.tree.dim2ind - 1] = means
             nb_child = len(self.tree.children(self.tree.root))
             if np.ndim(self.training_data[1]) == 2:
-- 
2.43.0


From c39898b6efeabaf76a91a0a7aad2634dea01a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:09 +0000
Subject: [PATCH 104/106] fix: canonical learning overwrote its initial guess

---
 .../tensor_learning/canonical_tensor_learning.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 51879ee..8feb00d 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -88,7 +88,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         elif self.initialization_type == "ones":
             f = tensap.CanonicalTensor.ones(self.rank, shape)
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
         elif (
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
-- 
2.43.0


From d45f35868ecdd45d799cfa96ffc392a09576c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:44 +0000
Subject: [PATCH 105/106] fix: canonical learning could not start from lists of
 local solvers

---
 .../tensor_learning/canonical_tensor_learning.py            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 8feb00d..ad5c590 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -118,7 +118,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.algorithm = "greedy"
             s_ini.initialization_type = "mean"
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.ravel(s_ini.linear_model_learning):
+                x.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             f, output_ini = s_ini.solve()
@@ -143,7 +144,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.initialization_type = "greedy"
             s_ini.rank = self.rank - len(f.core.data)
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.ravel(s_ini.linear_model_learning):
+                x.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
-- 
2.43.0


From 03945ad904217a7cbde5ec23784c13542c72d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:23 +0000
Subject: [PATCH 106/106] fix: tree-based learning with inactive nodes could
 not be run twice

---
 .../tensor_approximation/tensor_learning/tensor_learning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 0552c6c..3c8caa6 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -233,6 +233,12 @@ class TensorLearning(tensap.Learning):
             print("The test error cannot be computed.")
             self.test_error = False
 
+        # Remove the placeholders of the inactive nodes left by a previous run
+        if isinstance(self.linear_model_learning, (list, np.ndarray)):
+            self.linear_model_learning = [
+                x for x in self.linear_model_learning if x is not None
+            ]
+
         # Assert if basis adaptation can be performed
         if self.bases_adaptation_path is None and not hasattr(
             self.bases, "adaptation_path"
-- 
2.43.0

