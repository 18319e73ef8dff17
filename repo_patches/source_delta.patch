From cd03b3ccb6a65e924701fd7e0decf42be938efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 01/29] fix: random new slices of the finite width optimizer

Adding slices on the fly subtracted the full log2-dimension of a sparse index,
whose contribution to the width is capped by the number of projections: the
optimizer accepted tensors wider than 'max_width'. It also divided by zero once
all the indices which are not skipped were already sliced.
---
 .../optimize/finite_width/greedy/optimizer.hpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index e6b7380..00abda3 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -238,8 +238,8 @@ struct Optimizer : optimize::optimizer::Optimizer {
           size_t n_new_slices = 0;
 
           // Keep adding new random slices until the sliced width is not larger
-          // than max_width
-          while (n_new_slices < max_number_new_slices &&
+          // than max_width, or there are no more indices to slice
+          while (n_pos > 0 && n_new_slices < max_number_new_slices &&
                  new_sliced_width_B > p_cmodel->max_width) {
             // Get a random position
             std::swap(pos[this->prng() % n_pos], pos[n_pos - 1]);
@@ -252,16 +252,8 @@ struct Optimizer : optimize::optimizer::Optimizer {
             new_slices.set(pos[n_pos - 1]);
 
             // Update sliced width
-            std::visit(
-                [&new_sliced_width_B, &pos, &n_pos](auto &&log2_dims) -> auto {
-                  if constexpr (std::is_arithmetic_v<
-                                    std::decay_t<decltype(log2_dims)>>) {
-                    new_sliced_width_B -= log2_dims;
-                  } else {
-                    new_sliced_width_B -= log2_dims[pos[n_pos - 1]];
-                  }
-                },
-                dims_cache.log2_dims);
+            new_sliced_width_B =
+                p_cmodel->width(new_inds_B - new_slices, dims);
 
             // Update number of available slices
             --n_pos;
@@ -277,7 +269,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
           ASSERT(abs(p_cmodel->width(new_inds_B - new_slices, dims) -
                      new_sliced_width_B) < 1e-5,
                  "Error when getting new slices.");
-          ASSERT(n_new_slices >= max_number_new_slices ||
+          ASSERT(n_pos == 0 || n_new_slices >= max_number_new_slices ||
                      new_sliced_width_B <= p_cmodel->max_width,
                  "New slices are not enough to reduce width.");
         }
-- 
2.43.0


From 3a4eeefc442bcdfead1949d8d44a1aebfd04b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 02/29] fix: reject inconsistent trees

Because of the precedence of the ternary operator, the number of children and
parents was never compared. Trees whose links do not match, or with nodes which
cannot be reached from the root, were accepted.
---
 include/tnco/tree.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index c5bd046..3a7d61a 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -117,7 +117,7 @@ struct Tree {
                                  std::end(count_parents), std::begin(nodes),
                                  true, std::logical_and<bool>{},
                                  [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_leaf() ? 0 : 2;
+                                   return c == (node.is_leaf() ? 0 : 2);
                                  })) {
         return {false, "Tree is not valid."};
       }
@@ -127,12 +127,36 @@ struct Tree {
                                  std::end(count_children), std::begin(nodes),
                                  true, std::logical_and<bool>{},
                                  [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_root() ? 0 : 1;
+                                   return c == (node.is_root() ? 0 : 1);
                                  })) {
         return {false, "Tree is not valid."};
       }
     }
 
+    // Every node must be reachable from the root, and every child must point
+    // back to its parent
+    {
+      size_t n_visited = 0;
+      std::vector<size_t> stack{size() - 1};
+      while (!std::empty(stack)) {
+        const auto pos = stack.back();
+        stack.pop_back();
+        ++n_visited;
+        if (const auto &node = nodes[pos]; !node.is_leaf()) {
+          for (const auto &child : node.children) {
+            if (nodes[child].parent !=
+                static_cast<typename node_type::index_type>(pos)) {
+              return {false, "Tree is not valid."};
+            }
+            stack.push_back(child);
+          }
+        }
+      }
+      if (n_visited != size()) {
+        return {false, "Tree is not valid."};
+      }
+    }
+
     // Everything, OK
     return {true, ""};
   }
-- 
2.43.0


From f52b5ce485d2c40e2b6c72a61b28b731212f2640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 03/29] fix: float1024.isinf and float1024.signbit

Both were returning isnan.
---
 include/tnco/fixed_float.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index e88ada9..521b8fc 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -575,9 +575,10 @@ void init(py::module &m, const std::string &name) {
            [](const self_type &self, const long double &other) -> auto {
              return self >= other;
            })
-      .def("isinf", [](const self_type &self) -> auto { return isnan(self); })
+      .def("isinf", [](const self_type &self) -> auto { return isinf(self); })
       .def("isnan", [](const self_type &self) -> auto { return isnan(self); })
-      .def("signbit", [](const self_type &self) -> auto { return isnan(self); })
+      .def("signbit",
+           [](const self_type &self) -> auto { return signbit(self); })
       .def(py::pickle(
           [](const self_type &self) -> std::string { return dump(self); },
           [](const std::string &state) -> auto {
-- 
2.43.0


From c7cb2b2ca5b28c5b3f39b937760d40d33b74108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 04/29] fix: cost of contractions with a common dimension in
 the precision of the cost

The cost was always computed as a double if 'dims' is a single number: it
overflowed (or lost precision) for wider cost types.
---
 include/tnco/optimize/infinite_memory/cost_model/simple.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
index a9b5d01..45460ec 100644
--- a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
+++ b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
@@ -42,7 +42,10 @@ template <typename CostType, typename Bitset, typename DimsType>
     -> CostType {
   if constexpr (std::is_arithmetic_v<DimsType>) {
     ASSERT(dims != 0, "Each dimension must be a positive number.");
-    return std::pow(dims, inds.count());
+    // Multiply using 'CostType', as it may be larger than 'double'
+    CostType cost_{1};
+    inds.visit([&cost_, &dims](auto &&) -> auto { cost_ *= dims; });
+    return cost_;
   } else {
     ASSERT(std::size(inds) <= std::size(dims), "'Too few dimensions.'");
     ASSERT(std::none_of(std::begin(dims), std::end(dims),
-- 
2.43.0


From c82c04a49661683597920a7cf46119c1fb74d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 05/29] fix: accumulated rounding errors while slicing tensors

With 'float32' widths, slicing could stop too early, leaving tensors (barely)
larger than 'max_width' and thus an invalid optimizer.
---
 include/tnco/optimize/finite_width/greedy/utils.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/utils.hpp b/include/tnco/optimize/finite_width/greedy/utils.hpp
index f179d7d..833dd87 100644
--- a/include/tnco/optimize/finite_width/greedy/utils.hpp
+++ b/include/tnco/optimize/finite_width/greedy/utils.hpp
@@ -23,7 +23,7 @@ template <typename Bitset, typename CTree, typename GetWidth,
           typename Width, typename Log2Dims>
 [[nodiscard]] auto get_slices_impl(const CTree &ctree,
                                    const GetWidth &get_width,
-                                   const GetDeltaWidth &get_delta_width,
+                                   const GetDeltaWidth & /*get_delta_width*/,
                                    const MaxWidth &max_width,
                                    const std::optional<Bitset> &skip_slices,
                                    PRNG &prng, const Width &width,
@@ -91,12 +91,13 @@ template <typename Bitset, typename CTree, typename GetWidth,
           // Update slices
           slices.set(xpos);
 
-          // Get the new width
-          sliced_width += get_delta_width(sliced_xs, ctree.dims, xpos);
-
           // Update indices
           sliced_xs.reset(xpos);
 
+          // Get the new width (from scratch, as accumulating the differences
+          // may end up below 'max_width' only because of rounding errors)
+          sliced_width = get_width(sliced_xs, ctree.dims);
+
           // Break if slices are enough
           if (sliced_width <= max_width) {
             break;
-- 
2.43.0


From 8db96f5d7fcfe1d2b9ff191c72131b3c7a175d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 06/29] fix: cancellation in the total cost while updating an
 optimizer

A single update may lower the cost by more than the precision of its type: the
cost that the following moves of the same update are compared to was then
meaningless (even zero or negative).
---
 .../optimize/finite_width/greedy/optimizer.hpp    | 15 +++++++++++++++
 .../tnco/optimize/infinite_memory/optimizer.hpp   | 14 ++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index 00abda3..1067124 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -19,6 +19,7 @@
 
 #include <cmath>
 #include <memory>
+#include <numeric>
 #include <optional>
 #include <random>
 #include <sstream>
@@ -138,6 +139,9 @@ struct Optimizer : optimize::optimizer::Optimizer {
     // Initialize total cost
     auto total_cost = get_total_cost();
 
+    // Largest total cost since it was last computed from all contractions
+    auto max_total_cost = total_cost;
+
     // Total cost should be a positive number
     ASSERT(total_cost >= 0, "'total_cost' should always be a positive number.");
 
@@ -215,6 +219,16 @@ struct Optimizer : optimize::optimizer::Optimizer {
           ccost_A = new_ccost_A;
           total_cost += delta_cost;
 
+          // Recompute the total cost if too many digits have been cancelled
+          if (total_cost > max_total_cost) {
+            max_total_cost = total_cost;
+          } else if (total_cost * 16 < max_total_cost) {
+            total_cost = std::accumulate(
+                std::begin(cost_cache.contraction_cost),
+                std::end(cost_cache.contraction_cost), cost_type{0});
+            max_total_cost = total_cost;
+          }
+
           // Update width
           width_B = new_width_B;
 
@@ -297,6 +311,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
             // Update total cost
             total_cost = get_total_cost();
+            max_total_cost = total_cost;
 
             // Update slices
             slices = std::move(new_slices);
diff --git a/include/tnco/optimize/infinite_memory/optimizer.hpp b/include/tnco/optimize/infinite_memory/optimizer.hpp
index 1817d20..deb34e7 100644
--- a/include/tnco/optimize/infinite_memory/optimizer.hpp
+++ b/include/tnco/optimize/infinite_memory/optimizer.hpp
@@ -19,6 +19,7 @@
 
 #include <cmath>
 #include <memory>
+#include <numeric>
 #include <optional>
 #include <random>
 #include <sstream>
@@ -111,6 +112,9 @@ struct Optimizer : optimize::optimizer::Optimizer {
     // Initialize total cost
     auto total_cost = get_total_cost();
 
+    // Largest total cost since it was last computed from all contractions
+    auto max_total_cost = total_cost;
+
     // Total cost should be a positive number
     ASSERT(total_cost >= 0, "'total_cost' should always be a positive number.");
 
@@ -176,6 +180,16 @@ struct Optimizer : optimize::optimizer::Optimizer {
         ccost_A = new_ccost_A;
         total_cost += delta_cost;
 
+        // Recompute the total cost if too many digits have been cancelled
+        if (total_cost > max_total_cost) {
+          max_total_cost = total_cost;
+        } else if (total_cost * 16 < max_total_cost) {
+          total_cost = std::accumulate(
+              std::begin(cost_cache.contraction_cost),
+              std::end(cost_cache.contraction_cost), cost_type{0});
+          max_total_cost = total_cost;
+        }
+
         // Total cost should be a positive number
         ASSERT(total_cost >= 0,
                "'total_cost' should always be a positive number.");
-- 
2.43.0


From 62ddbf0afc5b0f1d6734ed7832d6cb47ab616d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 07/29] fix: clean up when a parallelized core raises an
 exception

The timer was left running, so that the process could never exit, and the shared
memory was not released.
---
 tnco/parallel.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index f6e211d..6fe439d 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -14,6 +14,7 @@
 """Parallelization utilities."""
 
 import itertools as its
+from contextlib import contextmanager
 from multiprocessing.shared_memory import SharedMemory
 from struct import calcsize, pack_into, unpack_from
 from threading import TIMEOUT_MAX, Thread, Timer
@@ -21,7 +22,6 @@ from time import sleep
 from typing import Any, Callable, Iterable, Optional, Tuple, Union
 from warnings import warn
 
-import more_itertools as mit
 from rich.console import Console
 from rich.progress import Progress, TextColumn, TimeElapsedColumn
 
@@ -238,15 +238,25 @@ def Parallel(core: Callable[..., Any],
     timer = Timer(TIMEOUT_MAX if timeout is None else timeout, timer_helper)
     timer.start()
 
-    with Progress(TextColumn('[blue][{task.fields[idx]}/' + str(len(args)) +
-                             ']'),
-                  *Progress.get_default_columns(),
-                  TimeElapsedColumn(),
-                  TextColumn(text),
-                  console=Console(stderr=True),
-                  disable=(verbose <= 1),
-                  auto_refresh=False,
-                  transient=not leave) as progress:
+    # Stop timer and close buffers, even if 'core' raises an exception
+    @contextmanager
+    def cleanup():
+        try:
+            yield
+        finally:
+            timer.cancel()
+            for buffer in (status, completed, stop, *buffers.values()):
+                buffer.shm.unlink()
+
+    with cleanup(), Progress(TextColumn('[blue][{task.fields[idx]}/' +
+                                        str(len(args)) + ']'),
+                             *Progress.get_default_columns(),
+                             TimeElapsedColumn(),
+                             TextColumn(text),
+                             console=Console(stderr=True),
+                             disable=(verbose <= 1),
+                             auto_refresh=False,
+                             transient=not leave) as progress:
 
         # Update progressbar
         def update_progress():
@@ -346,14 +356,5 @@ def Parallel(core: Callable[..., Any],
         if verbose >= 2:
             updater.join()
 
-    # Close buffers
-    status.shm.unlink()
-    completed.shm.unlink()
-    stop.shm.unlink()
-    mit.consume(map(lambda buffer: buffer.shm.unlink(), buffers.values()))
-
-    # Stop timer
-    timer.cancel()
-
     # Return results
     return results
-- 
2.43.0


From 51cb47122cd29749dcacb20ce4da1f03cdd8ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 08/29] fix: value of a tensor network after decomposing its
 hyper-indices

Dropping the indices of constant tensors, and merging the indices of other
tensors, changed the value of the tensor network. Also, 'atol' was used only
for the first pair of indices of a tensor.
---
 tnco/utils/tensor.py | 11 ++++++++---
 tnco/utils/tn.py     | 38 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index bee9edc..ee697eb 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -133,13 +133,18 @@ def decompose_hyper_inds(
     array = ar.do('stack',
                   list(map(lambda x: array[x, x], range(array.shape[0]))))
 
-    # In permutations, all elements in 'array' are the same
-    if array.size and ar.do('allclose', array, array.ravel()[0], atol=atol):
+    # In permutations, all elements in 'array' are the same, and all the
+    # remaining indices are hyper-indices
+    if array.size and _hyper_inds.keys() >= frozenset(inds) and ar.do(
+            'allclose', array, array.ravel()[0], atol=atol):
         return (array.ravel()[0] * ar.do('ones_like', array, shape=()),
                 ()), _hyper_inds
 
     # Call again
-    return decompose_hyper_inds(array, inds, _hyper_inds=_hyper_inds)
+    return decompose_hyper_inds(array,
+                                inds,
+                                atol=atol,
+                                _hyper_inds=_hyper_inds)
 
 
 def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 77ca73e..6cc945e 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -799,9 +799,14 @@ def decompose_hyper_inds(
             - **hyper_inds_map**: Mapping from original to new indices.
     """
     # Get all available inds
-    ts_inds = list(ts_inds)
+    arrays = list(map(lambda a: ar.do('asarray', a), arrays))
+    ts_inds = list(map(tuple, ts_inds))
     all_inds = OrderedFrozenSet(mit.flatten(ts_inds))
 
+    # Get all dimensions
+    dims = dict(
+        mit.flatten(map(lambda a, xs: zip(xs, ar.shape(a)), arrays, ts_inds)))
+
     # New tn
     new_arrays = []
     new_ts_inds = []
@@ -852,6 +857,37 @@ def decompose_hyper_inds(
     new_ts_inds = list(
         map(lambda xs: tuple(map(hyper_inds_map.get, xs)), new_ts_inds))
 
+    # If a tensor has indices which are now the same, keep its diagonal only
+    for pos, (array, inds) in enumerate(zip(new_arrays, new_ts_inds)):
+        while (x := next(mit.duplicates_everseen(inds), None)) is not None:
+            i, j = mit.take(2, mit.locate(inds, lambda y: y == x))
+            axes = (i, j) + tuple(
+                filter(lambda k: k not in (i, j), range(len(inds))))
+            array = array.transpose(axes)
+            array = ar.do('stack', [array[k, k] for k in range(dims[x])])
+            inds = tuple(map(lambda k: inds[k], axes[1:]))
+        new_arrays[pos], new_ts_inds[pos] = array, inds
+
+    # Indices can be dropped from a tensor (see permutations) only if the
+    # number of remaining tensors with that index does not change its meaning:
+    # an open (closed) index must appear in at least one (two) tensors
+    n_inds = Counter(mit.flatten(ts_inds))
+    n_new_inds = Counter(mit.flatten(new_ts_inds))
+    is_open = frozenset(hyper_inds_map[x] for x in all_inds if n_inds[x] == 1)
+    for pos, inds in enumerate(ts_inds):
+        dropped = tuple(
+            filter(
+                lambda x: x not in new_ts_inds[pos] and n_new_inds[x] <
+                (1 if x in is_open else 2),
+                OrderedFrozenSet(map(hyper_inds_map.get, inds))))
+        if dropped:
+            array = new_arrays[pos]
+            new_arrays[pos] = ar.do('stack', [array] * fts.reduce(
+                op.mul, map(dims.get, dropped))).reshape(
+                    tuple(map(dims.get, dropped)) + ar.shape(array))
+            new_ts_inds[pos] = dropped + new_ts_inds[pos]
+            n_new_inds.update(x for x in dropped if x in is_open)
+
     # Return the decomposed tensors
     return new_arrays, new_ts_inds, hyper_inds_map
 
-- 
2.43.0


From 4ba8c16630cb2a6a3dcf3b3558321d9de7e146c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 09/29] fix: keep max_number_new_slices when copying a finite
 width optimizer

---
 tnco/optimize/finite_width/optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tnco/optimize/finite_width/optimizer.py b/tnco/optimize/finite_width/optimizer.py
index 2f43094..b9fcd02 100644
--- a/tnco/optimize/finite_width/optimizer.py
+++ b/tnco/optimize/finite_width/optimizer.py
@@ -88,6 +88,9 @@ class Optimizer:
         # Save model
         self._cmodel = cmodel
 
+        # Save maximum number of new slices
+        self._max_number_new_slices = max_number_new_slices
+
         # Save cache
         self._ctree_cache = (ctree.dims, ctree._n_tensors, ctree._tensors_pos,
                              ctree._inds_order)
@@ -332,9 +335,10 @@ class Optimizer:
     @staticmethod
     def __build__(*args):
         (ctree, cmodel, prng_state, disable_shared_inds, min_ctree, slices,
-         min_slices, skip_slices) = args
+         min_slices, skip_slices, max_number_new_slices) = args
         return Optimizer(ctree,
                          cmodel,
+                         max_number_new_slices=max_number_new_slices,
                          seed=prng_state,
                          disable_shared_inds=disable_shared_inds,
                          skip_slices=skip_slices,
@@ -345,7 +349,8 @@ class Optimizer:
     def __reduce__(self):
         return self.__build__, (self.ctree, self.cmodel, self.prng_state,
                                 self.disable_shared_inds, self.min_ctree,
-                                self.slices, self.min_slices, self.skip_slices)
+                                self.slices, self.min_slices, self.skip_slices,
+                                self._max_number_new_slices)
 
     def __repr__(self) -> str:
         return "Optimizer(ctree={}, cmodel={})".format(self.ctree, self.cmodel)
-- 
2.43.0


From 72ebf28257748c8ce36a70270eb4460ce47118c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 10/29] fix: report unsupported cost and width types

---
 tnco/optimize/finite_width/cost_model.py    | 4 ++--
 tnco/optimize/infinite_memory/cost_model.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tnco/optimize/finite_width/cost_model.py b/tnco/optimize/finite_width/cost_model.py
index ea7c6de..c340e2f 100644
--- a/tnco/optimize/finite_width/cost_model.py
+++ b/tnco/optimize/finite_width/cost_model.py
@@ -89,11 +89,11 @@ class SimpleCostModel(BaseCostModel):
         width_type = str(width_type).lower()
         if width_type not in ['float32', 'float64', 'float128']:
             raise NotImplementedError(
-                f"'width_type={self.width_type}' not available.")
+                f"'{width_type=}' not available.")
         cost_type = str(cost_type).lower()
         if cost_type not in ['float32', 'float64', 'float128', 'float1024']:
             raise NotImplementedError(
-                f"'cost_type={self.cost_type}' not available.")
+                f"'{cost_type=}' not available.")
 
         # Check sparse_inds and n_projs
         if n_projs is not None and (n_projs != int(n_projs) or n_projs < 1):
diff --git a/tnco/optimize/infinite_memory/cost_model.py b/tnco/optimize/infinite_memory/cost_model.py
index d9424d0..7ef3f36 100644
--- a/tnco/optimize/infinite_memory/cost_model.py
+++ b/tnco/optimize/infinite_memory/cost_model.py
@@ -73,7 +73,7 @@ class SimpleCostModel(BaseCostModel):
         cost_type = str(cost_type).lower()
         if cost_type not in ['float32', 'float64', 'float128', 'float1024']:
             raise NotImplementedError(
-                f"'cost_type={self.cost_type}' not available.")
+                f"'{cost_type=}' not available.")
 
         # Check sparse_inds and n_projs
         if n_projs is not None and (n_projs != int(n_projs) or n_projs < 1):
-- 
2.43.0


From 712cfc1b028ef4f8eddc155443bab291af8c0f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 11/29] fix: refuse to compress the results without a filename

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 79f964c..9cf0efe 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -649,7 +649,7 @@ def dump_results(tn: TensorNetwork,
     output_compression = str(output_compression).lower()
     if output_compression not in ['auto', 'none', 'bz2', 'gzip']:
         raise ValueError(f'"{output_compression=}" not supported.')
-    if output_compression not in ['auto', 'none'] and not output_compression:
+    if output_compression not in ['auto', 'none'] and not output_filename:
         raise ValueError(
             "Output can be compressed only if 'output_filename' is provided.")
 
-- 
2.43.0


From 23ecb3318e5fa4faf430aedd456b4ec4fa65a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 12/29] fix: load empty strings

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 9cf0efe..3cffdd5 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -425,7 +425,7 @@ def load_tn(obj: Any,
         # Is it a QASM circuit? Let's load 'cirq' only if needed.
         if mit.first(
                 filter(lambda x: len(x) and not x.startswith('//'),
-                       obj.splitlines())).upper().startswith('OPENQASM'):
+                       obj.splitlines()), '').upper().startswith('OPENQASM'):
             from cirq.contrib.qasm_import import circuit_from_qasm
             return load_tn(circuit_from_qasm(obj), **options)
 
-- 
2.43.0


From 6101ee24520260808073a4eae67026ecd723fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 13/29] fix: rounding errors when checking for classical
 operations

---
 tnco/app/circuit/sampling.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 7b2d19f..6a07d59 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -34,7 +34,7 @@ from tnco.utils.tn import contract, get_einsum_subscripts
 __all__ = ['Sampler']
 
 
-def is_classical_operation(m: Matrix) -> bool:
+def is_classical_operation(m: Matrix, *, atol: float = 1e-5) -> bool:
     """Check if given matrix is a classical operation.
 
     An operation is classical if ``m @ v`` only permutes the elements of ``v``
@@ -42,24 +42,25 @@ def is_classical_operation(m: Matrix) -> bool:
 
     Args:
         m: Matrix to check.
+        atol: Absolute tolerance.
 
     Returns:
         ``True`` if ``m`` is a classical operation.
     """
     m = ar.do('asarray', m)
-    if m.ndim != 2 or m.shape[0] != m.shape[1] and int(math.log2(
+    if m.ndim != 2 or m.shape[0] != m.shape[1] or int(math.log2(
             m.shape[0])) != math.log2(m.shape[0]):
         return False
 
     # Get elements different from zero
-    row_pos, col_pos = ar.do('where', m)
+    row_pos, col_pos = ar.do('where', abs(m) > atol)
 
     # It should be a permutation of indices
     if not (sorted(row_pos) == sorted(col_pos) == list(range(m.shape[0]))):
         return False
 
     # All elements should be one, excluding a phase
-    if not all(abs(m)[m != 0] == 1):
+    if not ar.do('allclose', abs(m[row_pos, col_pos]), 1, atol=atol):
         return False
 
     # Excluding a phase change, it's a permutation
@@ -184,14 +185,15 @@ def sample(
 
         # Load partial tensors
         partial_tn = list(
-            ((m != 0).astype(int), None, None, q) if is_classical_operation(
-                m) else load(circuit[:i + 1],
-                             initial_state='0',
-                             final_state=None,
-                             simplify=simplify,
-                             use_matrix_commutation=use_matrix_commutation,
-                             decompose_hyper_inds=decompose_hyper_inds,
-                             fuse=fuse) + (q,)
+            ((abs(m) > 0.5).astype(int), None, None, q)
+            if is_classical_operation(m) else load(
+                circuit[:i + 1],
+                initial_state='0',
+                final_state=None,
+                simplify=simplify,
+                use_matrix_commutation=use_matrix_commutation,
+                decompose_hyper_inds=decompose_hyper_inds,
+                fuse=fuse) + (q,)
             for i, (m, q) in track(enumerate(circuit),
                                    total=len(circuit),
                                    description="Loading TNs...",
-- 
2.43.0


From 5f376d774a930c12339f333c80464bcb52ddacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 14/29] fix: sampling from qiskit circuits

---
 tnco/app/circuit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 6a07d59..0584ea9 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -404,7 +404,7 @@ try:
 
     @sample.register
     def _(circuit: qiskit.QuantumCircuit, *args, **kwargs):
-        return load(
+        return sample(
             qiskit_to_arrays(circuit,
                              dtype=kwargs.get('dtype', None),
                              backend=kwargs.get('backend', None)), *args,
-- 
2.43.0


From 0627fa4525b8271d0c7e49cf592fe60cff995177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 15/29] fix: difference of width when an index is added

---
 tnco/optimize/finite_width/cost_model.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tnco/optimize/finite_width/cost_model.py b/tnco/optimize/finite_width/cost_model.py
index c340e2f..cee9580 100644
--- a/tnco/optimize/finite_width/cost_model.py
+++ b/tnco/optimize/finite_width/cost_model.py
@@ -238,15 +238,13 @@ class SimpleCostModel(BaseCostModel):
         # Convert to tuple
         inds = tuple(inds)
 
-        # Check index
-        if index not in inds:
-            raise ValueError("'index' not in 'inds'.")
+        # Get all inds
+        all_inds = tuple(mit.unique_everseen(inds + (index,)))
 
         # Get position of the index
-        index_pos = inds.index(index)
+        index_pos = all_inds.index(index)
 
-        # Get all inds
-        all_inds = inds
+        # Add sparse indices
         if self.sparse_inds is not None:
             all_inds = tuple(
                 mit.unique_everseen(all_inds + tuple(self.sparse_inds)))
-- 
2.43.0


From 81400429664dc195326a4934c0644a3c780923b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 16/29] fix: optimization of disconnected tensor networks with
 sparse indices

---
 tnco/app/finite_width/sa.py    | 11 ++++++++++-
 tnco/app/infinite_memory/sa.py |  9 ++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index ff018da..57b276a 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -207,8 +207,17 @@ class Optimizer(BaseOptimizer):
                                         output_inds=tn.output_inds,
                                         check_shared_inds=True)
 
+                # Get contraction cost for the given connected component
+                cmodel_ = SimpleCostModel(
+                    max_width=self.max_width,
+                    width_type=self.width_type,
+                    cost_type=self.cost_type,
+                    sparse_inds=cmodel.sparse_inds.intersection(
+                        ctree._inds_order),
+                    n_projs=n_projs)
+
                 # Get optimizer
-                opt = OptimizerImpl(ctree, cmodel, seed=seed)
+                opt = OptimizerImpl(ctree, cmodel_, seed=seed)
 
                 # Start clock
                 runtime = perf_counter()
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index 7c18f0e..9672496 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -184,8 +184,15 @@ class Optimizer(BaseOptimizer):
                                         output_inds=tn.output_inds,
                                         check_shared_inds=True)
 
+                # Get contraction cost for the given connected component
+                cmodel_ = SimpleCostModel(
+                    cost_type=self.cost_type,
+                    sparse_inds=cmodel.sparse_inds.intersection(
+                        ctree._inds_order),
+                    n_projs=n_projs)
+
                 # Get optimizer
-                opt = OptimizerImpl(ctree, cmodel, seed=seed)
+                opt = OptimizerImpl(ctree, cmodel_, seed=seed)
 
                 # Start clock
                 runtime = perf_counter()
-- 
2.43.0


From b331eb75d1ec588055338d65d0c7108a549950c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 17/29] fix: equal ordered sets have the same hash

---
 tnco/ordered_frozenset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/ordered_frozenset.py b/tnco/ordered_frozenset.py
index d82a00e..ff558cd 100644
--- a/tnco/ordered_frozenset.py
+++ b/tnco/ordered_frozenset.py
@@ -52,7 +52,7 @@ class OrderedFrozenSet:
         return iter(self._order)
 
     def __hash__(self) -> int:
-        return hash(self._order)
+        return hash(self._set)
 
     def __len__(self) -> int:
         return len(self._order)
-- 
2.43.0


From 9a7a83d416010f2494a472392600145d1f0d566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 18/29] fix: refuse operations between bitsets of different
 sizes

---
 include/tnco/bitset.hpp | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/tnco/bitset.hpp b/include/tnco/bitset.hpp
index ef4eea3..23dfaac 100644
--- a/include/tnco/bitset.hpp
+++ b/include/tnco/bitset.hpp
@@ -119,15 +119,40 @@ struct Bitset : boost::dynamic_bitset<T...> {
 template <typename... T>
 void init(py::module &m, const std::string &name) {
   using self_type = Bitset<T...>;
+
+  // Operations are defined only for bitsets of the same size
+  static constexpr auto check_size = [](const self_type &self,
+                                        const self_type &other) -> void {
+    if (std::size(self) != std::size(other)) {
+      throw std::invalid_argument("Bitsets must have the same size.");
+    }
+  };
+
   py::class_<self_type>(m, name.c_str())
       .def(py::init<>())
       .def(py::init<const std::vector<size_t> &, size_t>(), "positions"_a,
            "size"_a)
       .def(py::init<const std::string &>())
-      .def("__and__", &self_type::operator&)
-      .def("__or__", &self_type::operator|)
-      .def("__xor__", &self_type::operator^)
-      .def("__sub__", &self_type::operator-)
+      .def("__and__",
+           [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
+             return self & other;
+           })
+      .def("__or__",
+           [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
+             return self | other;
+           })
+      .def("__xor__",
+           [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
+             return self ^ other;
+           })
+      .def("__sub__",
+           [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
+             return self - other;
+           })
       .def("__eq__",
            [](const self_type &self, const self_type &other) -> auto {
              return self == other;
@@ -138,26 +163,32 @@ void init(py::module &m, const std::string &name) {
            })
       .def("issubset",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return self.is_subset_of(other);
            })
       .def("issuperset",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return other.is_subset_of(self);
            })
       .def("__le__",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return self.is_subset_of(other);
            })
       .def("__ge__",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return other.is_subset_of(self);
            })
       .def("__lt__",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return self.is_proper_subset_of(other);
            })
       .def("__gt__",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return other.is_proper_subset_of(self);
            })
       .def("__invert__", [](const self_type &self) -> auto { return ~self; })
-- 
2.43.0


From efc87f8a14b0443fc21dec872faa99f268ad708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 19/29] fix: endless loop in svd when the new index is already
 used

---
 tnco/utils/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index ee697eb..b3e2c78 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -320,8 +320,9 @@ def svd(array: Array,
 
     # If svd_index_name is not provided, generate a random one
     if svd_index_name is None:
+        rng = Random(seed)
         while (svd_index_name :=
-               ''.join(Random(seed).choices(ascii_letters, k=10))) in inds:
+               ''.join(rng.choices(ascii_letters, k=10))) in inds:
             pass
 
     # If left_inds is empty or equal to inds, just return
-- 
2.43.0


From 11d30faf92f6087193d784ae2ed0bf999a844636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 20/29] fix: comparisons of float1024 with NaN

---
 include/tnco/fixed_float.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 521b8fc..2908f0c 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -134,27 +134,27 @@ struct FixedFloat {
   }
 
   auto operator==(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) == 0;
+    return mpfr_equal_p(_x, x._x) != 0;
   }
 
   auto operator!=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) != 0;
+    return mpfr_equal_p(_x, x._x) == 0;
   }
 
   auto operator>(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) > 0;
+    return mpfr_greater_p(_x, x._x) != 0;
   }
 
   auto operator>=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) >= 0;
+    return mpfr_greaterequal_p(_x, x._x) != 0;
   }
 
   auto operator<(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) < 0;
+    return mpfr_less_p(_x, x._x) != 0;
   }
 
   auto operator<=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) <= 0;
+    return mpfr_lessequal_p(_x, x._x) != 0;
   }
 
   template <typename T>
-- 
2.43.0


From bc0630763ca3b64eaa5d72e651a8813476ccc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 21/29] fix: width of zero-padded float1024

---
 include/tnco/fixed_float.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 2908f0c..7287af0 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -315,6 +315,9 @@ struct FixedFloat {
       // '0' is only a printf flag for right-alignment. We handle others
       // manually.
       mpfr_fmt << "0";
+      if (width > (type == "%" ? 1 : 0)) {
+        mpfr_fmt << width - (type == "%" ? 1 : 0);
+      }
     }
     if (thousands) {
       mpfr_fmt << "'";
-- 
2.43.0


From 84e055c86490b01d48e5e9cc210511c625881417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 22/29] fix: float1024 of invalid strings

---
 include/tnco/fixed_float.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 7287af0..4215a2e 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -22,6 +22,7 @@
 #include <optional>
 #include <regex>
 #include <sstream>
+#include <stdexcept>
 
 namespace tnco::fixed_float {
 
@@ -47,7 +48,9 @@ struct FixedFloat {
   FixedFloat(long double x) : FixedFloat() { mpfr_set_ld(_x, x, rounding); }
 
   FixedFloat(const std::string &x, const int base = 10) : FixedFloat() {
-    mpfr_set_str(_x, x.data(), base, rounding);
+    if (mpfr_set_str(_x, x.data(), base, rounding) != 0) {
+      throw std::invalid_argument("'" + x + "' is not a valid number.");
+    }
   }
 
   FixedFloat(const mpfr_t &x) : FixedFloat() { mpfr_set(_x, x, rounding); }
-- 
2.43.0


From 91fa05dd380e65e79fd1f2e494594d916ec04600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 23/29] fix: sign '-' in the format of float1024

---
 include/tnco/fixed_float.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 4215a2e..a273ee6 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -308,7 +308,8 @@ struct FixedFloat {
     // alignment/width) ---
     std::ostringstream mpfr_fmt;
     mpfr_fmt << "%";
-    if (!sign.empty()) {
+    // In Python, '-' is the default behavior; in printf, it is left-alignment.
+    if (!sign.empty() && sign != "-") {
       mpfr_fmt << sign;
     }
     if (alt_form) {
-- 
2.43.0


From 0f3cdd5655ea2a605e991079ddc881437ff01824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 24/29] fix: out-of-bounds access when swapping a negative
 position of a tree

---
 include/tnco/tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index 3a7d61a..dc3eef3 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -175,7 +175,7 @@ struct Tree {
      *
      *   Swap D <-> C.
      */
-    if (pos_D >= static_cast<long int>(size())) {
+    if (pos_D < 0 || pos_D >= static_cast<long int>(size())) {
       return;
     }
 
-- 
2.43.0


From ea8c3a3b3364ad98356de3cc3aa8832e999fdc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 25/29] fix: load long JSON strings

---
 tnco/app/app.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 3cffdd5..57de1de 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -449,10 +449,12 @@ def load_tn(obj: Any,
         # Is it a file?
         try:
             validate_filepath(obj, platform='auto')
-            if Path(obj).exists():
-                return load_tn(load_file(obj), **options)
-        except ValidationError:
-            pass
+            is_file = Path(obj).exists()
+        except (ValidationError, OSError):
+            # Not a valid filename, or the filename is too long
+            is_file = False
+        if is_file:
+            return load_tn(load_file(obj), **options)
 
         # Is it JSON?
         try:
-- 
2.43.0


From 2aa8d592ef212261e8cc11a9c760f1b45aa94aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 26/29] fix: optimization of empty tensor networks with a
 finite width

---
 tnco/app/finite_width/sa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index 57b276a..619b983 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -264,7 +264,8 @@ class Optimizer(BaseOptimizer):
 
             # Get full slices
             results['slices'] = fts.reduce(op.or_,
-                                           results['disconnected_slices'])
+                                           results['disconnected_slices'],
+                                           frozenset())
 
             # Return results
             return ContractionResults(**results)
-- 
2.43.0


From 8e2dea3b47093a40c0097d47cb9e0cd1801f7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 27/29] fix: out-of-bounds reads with an invalid state of the
 random number generator

A string given as seed was not checked: anything but a state of the generator
left it in an invalid state, which is read out of bounds by the next update.
---
 include/tnco/optimize/optimizer.hpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/tnco/optimize/optimizer.hpp b/include/tnco/optimize/optimizer.hpp
index 9fc76d8..e3d3ff6 100644
--- a/include/tnco/optimize/optimizer.hpp
+++ b/include/tnco/optimize/optimizer.hpp
@@ -17,7 +17,9 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>
 #include <cmath>
+#include <iterator>
 #include <memory>
 #include <optional>
 #include <random>
@@ -26,6 +28,7 @@
 #include <tnco/globals.hpp>
 #include <tnco/utils.hpp>
 #include <variant>
+#include <vector>
 
 namespace tnco::optimize::optimizer {
 
@@ -67,8 +70,12 @@ struct Optimizer {
     // Initialize PRNG
     if (seed.has_value()) {
       if (const auto *const p_ = std::get_if<std::string>(&seed.value())) {
+        check_prng_state(*p_);
         std::istringstream iss{*p_};
-        iss >> prng;
+        if (!(iss >> prng)) {
+          throw std::invalid_argument(
+              "'seed' is not a valid state of the random number generator.");
+        }
       } else {
         prng.seed(std::get<size_t>(seed.value()));
       }
@@ -83,6 +90,25 @@ struct Optimizer {
 
   ~Optimizer() = default;
 
+  static auto check_prng_state(const std::string &state) -> void {
+    // The words of the state, which may be followed by the position of the next
+    // one
+    using word_type = typename prng_type::result_type;
+    std::istringstream iss{state};
+    const std::vector<word_type> words{std::istream_iterator<word_type>{iss},
+                                       std::istream_iterator<word_type>{}};
+    const auto n_words = std::size(words);
+    if (!iss.eof() ||
+        (n_words != prng_type::state_size &&
+         (n_words != prng_type::state_size + 1 ||
+          words.back() > prng_type::state_size)) ||
+        std::any_of(std::begin(words), std::end(words),
+                    [](auto &&w) -> auto { return w > prng_type::max(); })) {
+      throw std::invalid_argument(
+          "'seed' is not a valid state of the random number generator.");
+    }
+  }
+
   [[nodiscard]] auto get_ctree_nn(const index_type pos_B) const
 #ifdef NDEBUG
       noexcept
-- 
2.43.0


From 49a4e09dfb51fd81a2048469344d1a51fa3a9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 28/29] fix: comparing tensors of different dimensions raised
 instead of returning False

---
 tnco/app/tn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tnco/app/tn.py b/tnco/app/tn.py
index f011119..dc17051 100644
--- a/tnco/app/tn.py
+++ b/tnco/app/tn.py
@@ -137,12 +137,16 @@ class Tensor:
             raise ValueError("'dims' are not consistent with 'array'.")
 
     def __eq__(self, other: Any, *, atol: float = 1e-5) -> bool:
+        if not isinstance(other, Tensor):
+            return NotImplemented
+        if self.inds != other.inds or self.dims != other.dims:
+            return False
         if (self.array is None) ^ (other.array is None):
             return False
         if self.array is not None and not all(
                 abs(self.array - other.array).ravel() < atol):
             return False
-        return self.inds == other.inds and self.dims == other.dims
+        return True
 
     def __repr__(self) -> str:
         return 'Tensor(ndim={}, array={}{}{})'.format(
-- 
2.43.0


From a68b60c59b248bbee0fe1504ffa8c06dc9983bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 29/29] fix: networks with dimensions of other integer types
 could not be dumped to JSON

---
 tnco/app/tn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tnco/app/tn.py b/tnco/app/tn.py
index dc17051..8d56c4d 100644
--- a/tnco/app/tn.py
+++ b/tnco/app/tn.py
@@ -100,7 +100,7 @@ class Tensor:
         def is_int(x):
             try:
                 return int(x) == x
-            except (ValueError, TypeError):
+            except (ValueError, TypeError, OverflowError):
                 return False
 
         # At least 'dims' or 'array' must be provided
@@ -116,6 +116,8 @@ class Tensor:
         else:
             try:
                 dims = int(self.dims)
+            except OverflowError:
+                raise ValueError("'dims' must be a positive integer.")
             except (TypeError, ValueError):
                 object.__setattr__(self, 'dims', tuple(self.dims))
             else:
@@ -131,6 +133,8 @@ class Tensor:
             raise ValueError("Every dimension must be a positive integers.")
         if len(self.dims) != len(self.inds):
             raise ValueError("Wrong number of 'inds'.")
+        # Numbers of other types (e.g. from numpy) cannot be dumped to JSON
+        object.__setattr__(self, 'dims', tuple(map(int, self.dims)))
 
         # Check array
         if self.array is not None and self.array.shape != self.dims:
-- 
2.43.0

