From fff3738ce81a0d72391c4bc1000325d5a4ea2cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:24 +0000
Subject: [PATCH 01/18] fix: constant kernel gradients have the shape of their
 argument

The gradients of the helper kernel behind 'kernel * constant' and
'kernel + constant' were zero-dimensional, so the mixed divergence of a
product with a constant broadcast to an (n, m, d) array instead of (n, m).
---
 coreax/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0e4b74d..0a957ed 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -608,11 +608,11 @@ class _Constant(ScalarValuedKernel):
 
     @override
     def grad_x_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros_like(x)
 
     @override
     def grad_y_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros_like(y)
 
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
-- 
2.43.0


From e9325df79c540f4cfe1ffb9a24148c1a7d6ab607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:24 +0000
Subject: [PATCH 02/18] fix: mixed divergence of a first power where the base
 kernel is zero

With 'power=1' the second term was '0 * compute ** -1', which is NaN wherever
the base kernel evaluates to zero.
---
 coreax/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0a957ed..e2931f8 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -690,7 +690,7 @@ class PowerKernel(UniCompositeKernel, ScalarValuedKernel):
                 * self.base_kernel.divergence_x_grad_y_elementwise(x, y)
             )
             + (n - 1)
-            * compute ** (n - 2)
+            * compute ** max(n - 2, 0)
             * (
                 self.base_kernel.grad_x_elementwise(x, y).dot(
                     self.base_kernel.grad_y_elementwise(x, y)
-- 
2.43.0


From 360a17acdde57523a57f05437668048c1bfa0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:41 +0000
Subject: [PATCH 03/18] fix: default Stein thinning regularisation is 1 /
 coreset_size

When refining a coresubset of a different size, the size of the initial
coresubset was used instead of the documented requested size.
---
 coreax/solvers/coresubset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bc1198b..19e7112 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -510,7 +510,7 @@ class SteinThinning(
 
             if self.regulariser_lambda is None:
                 # Use regularisation parameter suggested in :cite:`benard2023kernel`
-                regulariser_lambda = 1 / len(coresubset)
+                regulariser_lambda = 1 / self.coreset_size
             else:
                 regulariser_lambda = self.regulariser_lambda
 
-- 
2.43.0


From da0899f2a3bda5f5c0741f764ef4b5338a90cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:41 +0000
Subject: [PATCH 04/18] fix: probabilistic kernel herding on data with
 zero-weighted points

The NaN marking an unselectable point turned every selection probability into
NaN, so that index 0 was always selected.
---
 coreax/solvers/coresubset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 19e7112..4c8164d 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -342,6 +342,10 @@ class KernelHerding(
 
             # Apply softmax to the metric for probabilistic selection
             if self.probabilistic:
+                # Zero-weighted points are marked with NaN and are never selected
+                valid_residuals = jnp.where(
+                    jnp.isnan(valid_residuals), -jnp.inf, valid_residuals
+                )
                 probs = jax.nn.softmax(valid_residuals / self.temperature)
                 key = jr.fold_in(self.random_key, i)
                 return jr.choice(
-- 
2.43.0


From d6294bcaa1f082745b7a73067a105282aa13255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:41 +0000
Subject: [PATCH 05/18] fix: exclude a coreset member that shares its index
 with coresubset padding

The zero-valued padding of an under-sized coresubset overwrote the exclusion of a
coreset member with index 0.
---
 coreax/solvers/coresubset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 4c8164d..f536349 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -195,11 +195,11 @@ def _greedy_kernel_selection(
         if unique:  # Temporarily exclude other coreset members from being selected
             valid_kernel_similarity_penalty = valid_kernel_similarity_penalty.at[
                 coreset_indices
-            ].set(
+            ].max(
                 jnp.where(
                     (coreset_indices != coreset_indices[i]) & (coreset_weights > 0),
                     jnp.inf,
-                    valid_kernel_similarity_penalty[coreset_indices],
+                    -jnp.inf,
                 )
             )
         updated_coreset_index = selection_function(
-- 
2.43.0


From 9474f3e21adea5a20af28475ac8d72efff705d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:41 +0000
Subject: [PATCH 06/18] fix: greedy kernel selection accepts supervised data

---
 coreax/solvers/coresubset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index f536349..2861751 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -24,7 +24,6 @@ import jax
 import jax.numpy as jnp
 import jax.random as jr
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, ArrayLike, Bool, Float, Scalar, Shaped
 from typing_extensions import override
 
@@ -161,7 +160,8 @@ def _greedy_kernel_selection(
     # The kernel similarity penalty must be computed for the initial coreset. If we did
     # not support refinement, the penalty could be initialised to the zeroes vector, and
     # the result would be invariant to the initial coresubset.
-    data, data_weights = jtu.tree_leaves(coresubset.pre_coreset_data)
+    dataset = coresubset.pre_coreset_data
+    data, data_weights = dataset.data, dataset.weights
     init_kernel_similarity_penalty = init_coreset_size * kernel.compute_mean(
         data,
         padded_coresubset.points,
@@ -506,7 +506,8 @@ class SteinThinning(
         :return: A refined coresubset and relevant intermediate solver state
             information.
         """
-        x, w_x = jtu.tree_leaves(coresubset.pre_coreset_data)
+        dataset = coresubset.pre_coreset_data
+        x, w_x = dataset.data, dataset.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
         stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
         if self.regularise:
-- 
2.43.0


From 8c3e6716e2533cfed08cea160cb229818f35a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:41 +0000
Subject: [PATCH 07/18] fix: recombination accepts supervised data

---
 coreax/solvers/recombination.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index a89579d..6323832 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -92,7 +92,6 @@ from typing import Generic, Literal, NamedTuple, TypeVar
 import jax
 import jax.numpy as jnp
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, Bool, DTypeLike, Float, Integer, Real, Shaped
 from typing_extensions import override
 
@@ -181,7 +180,8 @@ class CaratheodoryRecombination(RecombinationSolver[Data, None]):
     def reduce(
         self, dataset: Data, solver_state: None = None
     ) -> tuple[Coresubset, None]:
-        nodes, weights = jtu.tree_leaves(dataset.normalize(preserve_zeros=True))
+        normalized = dataset.normalize(preserve_zeros=True)
+        nodes, weights = normalized.data, normalized.weights
         push_forward_nodes = _push_forward(nodes, self.test_functions)
         # Handle pre-existing zero-weighted nodes (not handled by the base algorithm
         # described in :cite:`tchernychova2016recombination`)
@@ -504,7 +504,8 @@ class TreeRecombination(RecombinationSolver[Data, None]):
     def reduce(
         self, dataset: Data, solver_state: None = None
     ) -> tuple[Coresubset, None]:
-        nodes, weights = jtu.tree_leaves(dataset.normalize(preserve_zeros=True))
+        normalized = dataset.normalize(preserve_zeros=True)
+        nodes, weights = normalized.data, normalized.weights
         # Push the nodes forward through the test-functions \Phi^\prime.
         push_forward_nodes = _push_forward(nodes, self.test_functions, augment=False)
         n, m = push_forward_nodes.shape
-- 
2.43.0


From ac70aeeb8a6cae22ec55656b2c7c0b31d6209b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:41 +0000
Subject: [PATCH 08/18] fix: KSD accepts supervised data

---
 coreax/metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coreax/metrics.py b/coreax/metrics.py
index 7848bc5..cfde3b5 100644
--- a/coreax/metrics.py
+++ b/coreax/metrics.py
@@ -30,7 +30,6 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, Shaped
 
 import coreax.util
@@ -246,7 +245,7 @@ class KSD(Metric[Data]):
         """
         del kwargs
         # Train Stein kernel with data from P
-        x, w_x = jtu.tree_leaves(reference_data)
+        x, w_x = reference_data.data, reference_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
 
         # Variable rename allows for nicer automatic formatting.
-- 
2.43.0


From d92e8176fa55f454ba247d2ea15919ac4147a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:41 +0000
Subject: [PATCH 09/18] fix: tree recombination never returns the index of a
 padding node

In 'implicit' mode the zero-weighted indices could lie outside the dataset.
---
 coreax/solvers/recombination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index 6323832..f5757f1 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -560,7 +560,8 @@ class TreeRecombination(RecombinationSolver[Data, None]):
             updated_indices = _indices[weight_update_indices.reshape(-1, order="F")]
             return updated_weights.reshape(-1, order="F"), updated_indices
 
-        in_state = (jnp.pad(weights, (0, padding)), jnp.arange(n + padding))
+        padded_indices = jnp.minimum(jnp.arange(n + padding), n - 1)
+        in_state = (jnp.pad(weights, (0, padding)), padded_indices)
         out_weights, indices = jax.lax.fori_loop(0, depth, _tree_reduce, in_state)
         coresubset_nodes = _coresubset_nodes(
             push_forward_nodes, out_weights, indices, self.mode
-- 
2.43.0


From a3690b773aa90a5da68b465f1da6a724eae07dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:13 +0000
Subject: [PATCH 10/18] fix: map-reduce always terminates

A leaf size that is not much larger than the coreset size produced partitions with
no more points than the coreset size; reducing them either failed or left the
dataset as large as before, recursing for ever.
---
 coreax/solvers/composite.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/composite.py b/coreax/solvers/composite.py
index b66a4d6..06f2df9 100644
--- a/coreax/solvers/composite.py
+++ b/coreax/solvers/composite.py
@@ -162,7 +162,7 @@ class MapReduce(
                 return x.points, None
 
             partitioned_dataset, partitioned_indices = _jit_tree(
-                data, self.leaf_size, self.tree_type
+                data, self.leaf_size, self.base_solver.coreset_size, self.tree_type
             )
             # Reduce each partition and get indices from each
             coreset_ensemble, ensemble_indices = jax.vmap(wrapper)(partitioned_dataset)
@@ -189,7 +189,7 @@ class MapReduce(
 
 
 def _jit_tree(
-    dataset: _Data, leaf_size: int, tree_type: type[BinaryTree]
+    dataset: _Data, leaf_size: int, coreset_size: int, tree_type: type[BinaryTree]
 ) -> tuple[_Data, _Indices]:
     """
     Return JIT compatible BinaryTree partitioning of 'dataset'.
@@ -198,6 +198,8 @@ def _jit_tree(
     :param leaf_size: Size of the partitions to generate; If 'leaf_size' is not an
         integer multiple of :code:`len(dataset)`, padding will be used to ensure all
         partitions have equal size.
+    :param coreset_size: Every partition has more than this many points, so that it can
+        be reduced to a coreset of this size, and is made smaller by doing so.
     :param tree_type: The type of BinaryTree to use for partitioning.
     :return: The partitioned dataset
     """
@@ -221,6 +223,9 @@ def _jit_tree(
     # Divide by two so the leaf_size is the partition size.
     _leaf_size = max(1, leaf_size // 2)
     n_leaves = 2 ** max(0, math.floor(math.log2((len(dataset) - 1) / _leaf_size)))
+    # Otherwise, the recursive reduction would never reach its end
+    while n_leaves > 1 and len(dataset) // n_leaves <= coreset_size:
+        n_leaves //= 2
     padding = math.ceil(len(dataset) / n_leaves) * n_leaves - len(dataset)
     padded_dataset = tree_zero_pad_leading_axis(dataset, padding)
     shape = (n_leaves, len(padded_dataset) // n_leaves)
-- 
2.43.0


From bfc9b2468054a2b6798a5723f84d96529b65a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:13 +0000
Subject: [PATCH 11/18] fix: map-reduce partitions never consist of padding

The padding points, at the origin, were partitioned with the data. When the data
lie far from the origin they formed partitions without enough (or any) data points
to select, and padding entered the coreset.
---
 coreax/solvers/composite.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/coreax/solvers/composite.py b/coreax/solvers/composite.py
index 06f2df9..8022b65 100644
--- a/coreax/solvers/composite.py
+++ b/coreax/solvers/composite.py
@@ -209,9 +209,10 @@ def _jit_tree(
     # leaf_size <= n_points <= 2 * leaf_size
     # It is not obvious in this case if 'n_points' can be determined a priori.
     #
-    # A simple solution is to pad the dataset with zero valued and weighted points, up
-    # to the smallest integer power of two. An additional benefit of this padding is
-    # that all partitions will be perfectly balanced (of identical size).
+    # A simple solution is to cut the tree's ordering of the points at the nodes of a
+    # fixed level, whose sizes differ by at most one point, and to pad the smaller ones
+    # with a zero valued and weighted point. The padding takes no part in building the
+    # tree; otherwise, a partition could consist of padding only.
     #
     # IMPORTANT: the base solver should ignore/be invariant to these padding values;
     # ignorance is weaker condition than invariance. For example, due to implementation
@@ -226,16 +227,20 @@ def _jit_tree(
     # Otherwise, the recursive reduction would never reach its end
     while n_leaves > 1 and len(dataset) // n_leaves <= coreset_size:
         n_leaves //= 2
-    padding = math.ceil(len(dataset) / n_leaves) * n_leaves - len(dataset)
-    padded_dataset = tree_zero_pad_leading_axis(dataset, padding)
-    shape = (n_leaves, len(padded_dataset) // n_leaves)
+    padded_dataset = tree_zero_pad_leading_axis(dataset, 1)
+    shape = (n_leaves, math.ceil(len(dataset) / n_leaves))
+    bounds = [i * len(dataset) // n_leaves for i in range(n_leaves + 1)]
     result_shape = jax.ShapeDtypeStruct(shape, jnp.int32)
 
     def _binary_tree(_input_data: Data) -> np.ndarray:
         _, node_indices, _, _ = tree_type(
             _input_data.data, leaf_size=_leaf_size, sample_weight=_input_data.weights
         ).get_arrays()
-        return node_indices.reshape(n_leaves, -1).astype(np.int32)
+        partitions = np.full(shape, len(node_indices), np.int32)
+        for i in range(n_leaves):
+            leaf = node_indices[bounds[i] : bounds[i + 1]]
+            partitions[i, : len(leaf)] = leaf
+        return partitions
 
-    indices = jax.pure_callback(_binary_tree, result_shape, padded_dataset)
+    indices = jax.pure_callback(_binary_tree, result_shape, dataset)
     return padded_dataset[indices], jnp.arange(len(dataset))[indices]
-- 
2.43.0


From ecd1379340a65895ff16823d33a92a8a714eb51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:28 +0000
Subject: [PATCH 12/18] fix: kernel thinning with double precision enabled

The loop carry was fixed to single precision, so that every call raised a TypeError.
---
 coreax/solvers/coresubset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 2861751..3293db3 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1461,7 +1461,7 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
         coresets_masking = jnp.zeros(n)
 
         # Initialise parameter
-        sigma = jnp.float32(0)
+        sigma = jnp.zeros(())
         k = self.sqrt_kernel.compute_elementwise
 
         def compute_kernel_distance(x1, x2):
-- 
2.43.0


From 93f8c4d2c8090391a1f354e711f3d2eaa91578b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:28 +0000
Subject: [PATCH 13/18] fix: number of kernel thinning halving steps

Rounding in the difference of logarithms lost a step when the size of the dataset
is a power of two times the coreset size (e.g. 26 and 13), so that the coreset was
not thinned from the whole dataset.
---
 coreax/solvers/coresubset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 3293db3..9250ae6 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1379,7 +1379,7 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
         if self.coreset_size > len(dataset):
             raise ValueError(MSG)
         n = len(dataset)
-        m = math.floor(math.log2(n) - math.log2(self.coreset_size))
+        m = (n // self.coreset_size).bit_length() - 1
         clipped_original_dataset = dataset[: self.coreset_size * 2**m]
 
         partition = self.kt_half_recursive(clipped_original_dataset, m, dataset)
-- 
2.43.0


From c2c9f67b2eef6ba7225578723a72e0a068326adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:28 +0000
Subject: [PATCH 14/18] fix: kernel thinning of data with coincident points

A pair of equal points made the swapping threshold and all later ones NaN, so that
the rest of the data was split deterministically by the parity of the index.
---
 coreax/solvers/coresubset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 9250ae6..0f94901 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1472,11 +1472,14 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
             :param x2: The second data point.
             :return: The kernel distance between `x1` and `x2`.
             """
-            return jnp.sqrt(k(x1, x1) + k(x2, x2) - 2 * k(x1, x2))
+            squared_distance = k(x1, x1) + k(x2, x2) - 2 * k(x1, x2)
+            return jnp.sqrt(jnp.maximum(squared_distance, 0))
 
         def get_a_and_sigma(b, sigma):
             """Compute 'a' and new sigma parameter."""
             a = jnp.maximum(b * sigma * jnp.sqrt(2 * jnp.log(2 / self.delta)), b**2)
+            # Coincident points (b = 0) are exchangeable and do not change sigma
+            a = jnp.where(a > 0, a, 1)
 
             # Update sigma
             new_sigma = jnp.sqrt(
-- 
2.43.0


From 70c81fc6ae8ecfdb2ac29882e6ab6745995edd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:28 +0000
Subject: [PATCH 15/18] fix: batched greedy kernel points selects valid and
 unique points

With a small candidate batch every candidate could already be in the coreset, in
which case a duplicate was selected although unique points were requested; without
that request the index of the padding (-1) could be selected.
---
 coreax/solvers/coresubset.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 0f94901..01b54a9 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1008,13 +1008,23 @@ def _update_candidate_coresets_and_coreset_indices(
     # ensures it is not chosen. There is additional logic here to ensure that if
     # we are refining (i.e. not reducing), we are allowed to keep the index that
     # currently exists in the coreset if it is the best one.
+    #
+    # The -1 valued padding is not a data point, and so must never be chosen.
+    candidates = candidate_coresets[:, i]
+    invalid_mask = candidates < 0
+    if unique:
+        invalid_mask |= jnp.isin(candidates, coreset_indices.at[i].set(-1))
+    loss = jnp.where(invalid_mask, jnp.inf, loss)
+    index_to_include_in_coreset = candidates[loss.argmin()]
     if unique:
-        already_chosen_indices_mask = jnp.isin(
-            candidate_coresets[:, i],
-            coreset_indices.at[i].set(-1),
+        # Every candidate may be in the coreset already if there are few of them; there
+        # is always an index below the coreset size that is not
+        is_used = jnp.isin(
+            jnp.arange(len(coreset_indices)), coreset_indices.at[i].set(-1)
+        )
+        index_to_include_in_coreset = jnp.where(
+            invalid_mask.all(), is_used.argmin(), index_to_include_in_coreset
         )
-        loss += jnp.where(already_chosen_indices_mask, jnp.inf, 0)
-    index_to_include_in_coreset = candidate_coresets[loss.argmin(), i]
 
     # Repeat the chosen coreset index into the ith column of the array of
     # the candidate_batch_size x coreset_size candidate_coresets array. Replace the
-- 
2.43.0


From fe7e4ebbdd353d025d7d2357a95d6b473c0cb080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:55 +0000
Subject: [PATCH 16/18] fix: weights optimisers respect the weights of the
 dataset

---
 coreax/weights.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/weights.py b/coreax/weights.py
index 3ece129..7578d09 100644
--- a/coreax/weights.py
+++ b/coreax/weights.py
@@ -136,9 +136,9 @@ def _prepare_kernel_system(
         and type(coreset) is Data
         and isinstance(kernel, ScalarValuedKernel)
     ):
-        x_d, x_c = dataset.data, coreset.data
+        x_c = coreset.data
         kernel_cd = kernel.compute_mean(
-            x_d, x_c, axis=0, block_size=block_size, unroll=unroll
+            dataset, x_c, axis=0, block_size=block_size, unroll=unroll
         )
         kernel_cc = kernel.compute(x_c, x_c) + epsilon * jnp.eye(len(coreset))
     else:
-- 
2.43.0


From 6cf44cb03c28468923f18aeb7d2cb57977f4cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:39 +0000
Subject: [PATCH 17/18] fix: Nystrom estimator regresses on the kernel mean of
 the whole dataset

---
 coreax/approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/approximation.py b/coreax/approximation.py
index dd78e7d..9ce32b1 100644
--- a/coreax/approximation.py
+++ b/coreax/approximation.py
@@ -336,5 +336,5 @@ class NystromApproximateKernel(RandomRegressionKernel):
             x,
             features,
             self.num_train_points,
-            self.base_kernel.gramian_row_mean,
+            partial(self.base_kernel.compute_mean, x, axis=0),
         )
-- 
2.43.0


From 74e8320d0aeff2b8f96af8c107250cf0e45aa2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:50 +0000
Subject: [PATCH 18/18] fix: recombination never eliminates on a pivot at the
 level of rounding error

---
 coreax/solvers/recombination.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index f5757f1..22f9b4a 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -239,8 +239,13 @@ class CaratheodoryRecombination(RecombinationSolver[Data, None]):
             _weights, null_space_basis, basis_index = state
             basis_vector = null_space_basis[basis_index]
             # Equation 3: Select the weight to eliminate.
+            # Components at the level of rounding error are not valid pivots; dividing by
+            # them would destroy the (updated) weights and null space basis.
+            rounding_error = 10 * basis_vector.size * jnp.finfo(basis_vector.dtype).eps
             elimination_condition = jnp.where(
-                basis_vector > 0, _weights / basis_vector, jnp.inf
+                basis_vector > rounding_error * jnp.max(basis_vector, initial=0),
+                _weights / basis_vector,
+                jnp.inf,
             )
             elimination_index = jnp.argmin(elimination_condition)
             elimination_rescaling_factor = elimination_condition[elimination_index]
@@ -248,6 +253,7 @@ class CaratheodoryRecombination(RecombinationSolver[Data, None]):
             # NOTE: Equation 5 is implicit from Equation 4 and is performed outside
             # of `_eliminate` via `_coresubset_nodes`.
             updated_weights = _weights - elimination_rescaling_factor * basis_vector
+            updated_weights = jnp.maximum(updated_weights, 0)
             updated_weights = updated_weights.at[elimination_index].set(0)
             # Equations 6, 7 and 8: Update the Null space basis.
             null_space_basis_update = jnp.tensordot(
-- 
2.43.0

