From ac2b3056b8949892b1f699b5b94edec8b81e7190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 01/16] fix: wedge product of a one-form with a two-form misses
 a term

---
 lib/mito/tensor/wedge.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lib/mito/tensor/wedge.h b/lib/mito/tensor/wedge.h
index 9d62b50..9304cb8 100644
--- a/lib/mito/tensor/wedge.h
+++ b/lib/mito/tensor/wedge.h
@@ -66,20 +66,14 @@ namespace mito::tensor {
     constexpr auto wedge(const form_t<P1, F1> & b_tilda, const form_t<P2, F2> & a_tilda)
     requires(P1 == 1 && P2 == 2)
     {
-        // positive sign if P1 is even, negative sign if P1 is odd
-        constexpr int sign = (P1 % 2 ? +1 : -1);
-
+        // the exterior product of a one-form with a two-form: each of the three arguments is
+        // contracted in turn with the one-form, with alternating sign
         return form<P1 + P2>(
-                   [a_tilda, b_tilda]<class X, class Y, class Z>(
-                       const X & x, const Y & y, const Z & z) -> auto {
-                       return wedge(b_tilda(x), a_tilda)(y, z);
-                   })
-             + sign
-                   * form<P1 + P2>(
-                       [a_tilda, b_tilda]<class X, class Y, class Z>(
-                           const X & x, const Y & y, const Z & z) -> auto {
-                           return wedge(b_tilda, a_tilda(x, y))(z);
-                       });
+            [a_tilda, b_tilda]<class X, class Y, class Z>(
+                const X & x, const Y & y, const Z & z) -> auto {
+                return b_tilda(x) * a_tilda(y, z) - b_tilda(y) * a_tilda(x, z)
+                     + b_tilda(z) * a_tilda(x, y);
+            });
     }
 }
 
-- 
2.43.0


From 11f74d86002c13db5902b3ad83632a1b850484c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 02/16] fix: derivative of a linear combination of functions of
 the same type

---
 lib/mito/functions/derivation_rules.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/derivation_rules.h b/lib/mito/functions/derivation_rules.h
index e535412..350f479 100644
--- a/lib/mito/functions/derivation_rules.h
+++ b/lib/mito/functions/derivation_rules.h
@@ -108,8 +108,12 @@ namespace mito::functions {
     constexpr auto derivative(const LinearCombination<T, Funcs...> & f)
     {
         // the derivative of a linear combination is the linear combination of the derivatives
-        return linear_combination(
-            f.coefficients(), derivative<I>(std::get<Funcs>(f.functions()))...);
+        // (access the functions by position: several of them may have the same type)
+        return std::apply(
+            [&](const auto &... funcs) {
+                return linear_combination(f.coefficients(), derivative<I>(funcs)...);
+            },
+            f.functions());
     }
 }
 
-- 
2.43.0


From 4470e15c1c4b937e2ded45df506fd43774bbf621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 03/16] fix: cartesian x_2 extracts the wrong coordinate

---
 lib/mito/geometry/cartesian/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/geometry/cartesian/api.h b/lib/mito/geometry/cartesian/api.h
index 25e4626..94dec70 100644
--- a/lib/mito/geometry/cartesian/api.h
+++ b/lib/mito/geometry/cartesian/api.h
@@ -37,7 +37,7 @@ namespace mito::geometry::cartesian {
     // the function extracting the 2-nd coordinate from a cartesian coordinate set
     template <int D>
     requires(D > 2)
-    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 1>;
+    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 2>;
 
     // the basis for vector fields (e_0)
     template <int D>
-- 
2.43.0


From 998402ce4ad64abf265ec9bc3e1ec4bf1c190526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 04/16] fix: one-form equivalent to a vector field in
 curvilinear coordinates

---
 lib/mito/geometry/metric_space.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mito/geometry/metric_space.h b/lib/mito/geometry/metric_space.h
index e6e5343..f90f0e9 100644
--- a/lib/mito/geometry/metric_space.h
+++ b/lib/mito/geometry/metric_space.h
@@ -88,7 +88,13 @@ namespace mito::geometry {
         const fields::vector_field_c auto & vector)
     {
         // return a one form field that, once evaluated at {x}...
-        return _one_form(vector, g_inv);
+        return functions::function([vector](const coordinates_type & x) {
+            // returns the scalar product with {vector(x)} (the metric is the matrix of the scalar
+            // products of the basis vectors)
+            return tensor::one_form([v = vector(x)](const tensor::vector_t<D> & y) {
+                return v * y;
+            });
+        });
     }
 
     template <coordinates_c coordsT>
-- 
2.43.0


From 3c51d6047f8add3373d3fc9c52d3f5f3fcc81fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 05/16] fix: postfix increment of segmented container iterators
 does not skip invalid elements

---
 lib/mito/utilities/SegmentedContainerIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 99304a0..8edcedc 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -104,7 +104,7 @@ namespace mito::utilities {
             // make a copy of me
             auto clone = *this;
             // increment me
-            ++_segmented_iterator;
+            operator++();
             // and return the clone
             return clone;
         }
-- 
2.43.0


From 5431bcbabb63eaa77580391ff04c55281fad160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 06/16] fix: copying or assigning from a null shared pointer
 dereferences it

---
 lib/mito/utilities/SharedPointer.icc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 5e7bdda..e5ad7e2 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -172,8 +172,11 @@ template <class resourceT>
 constexpr auto
 mito::utilities::SharedPointer<resourceT>::_acquire() const -> void
 {
-    // acquire resource (increment reference count)
-    _handle->_acquire();
+    // if the handle is in valid state
+    if (_handle != nullptr) {
+        // acquire resource (increment reference count)
+        _handle->_acquire();
+    }
     // all done
     return;
 }
-- 
2.43.0


From b5362a4f21bbaa4e25847b08ce1e0ded4cafe2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 07/16] fix: move assignment of shared pointers to the same
 resource leaks a reference

---
 lib/mito/utilities/SharedPointer.icc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index e5ad7e2..20af7ca 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -152,16 +152,17 @@ constexpr mito::utilities::SharedPointer<resourceT> &
 mito::utilities::SharedPointer<resourceT>::operator=(
     mito::utilities::SharedPointer<resourceT> && other) noexcept
 {
-    // if {other} and I point to different handles
-    if (other._handle != _handle) {
+    // if {other} is not me
+    if (&other != this) {
         // release my current handle
         _release();
+
         // adopt the new shareable
         _handle = std::move(other._handle);
-    }
 
-    // invalidate {other}
-    other._handle = nullptr;
+        // invalidate {other}
+        other._handle = nullptr;
+    }
 
     // all done
     return *this;
-- 
2.43.0


From 1f1d336a14285000861e5ee6d3f584b4cc8b77a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 08/16] fix: increment of segmented container iterators
 overflows the stack on long runs of invalid elements

---
 .../utilities/SegmentedContainerIterator.h     | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 8edcedc..f07f12c 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -81,18 +81,16 @@ namespace mito::utilities {
         // arithmetic: prefix
         constexpr auto operator++() -> iterator_reference
         {
-            // increment the iterator to the segmented allocator
-            ++_segmented_iterator;
+            do {
+                // increment the iterator to the segmented allocator
+                ++_segmented_iterator;
 
-            if (_segmented_iterator.ptr() == std::end(_segmented_iterator)) {
-                return *this;
-            }
+                if (_segmented_iterator.ptr() == std::end(_segmented_iterator)) {
+                    return *this;
+                }
 
-            // if you found an invalid element
-            if (!_segmented_iterator->is_valid()) {
-                // move on to the next one
-                return operator++();
-            }
+                // if you found an invalid element, move on to the next one
+            } while (!_segmented_iterator->is_valid());
 
             // all done
             return *this;
-- 
2.43.0


From 68762b4dbf19de258232fd2c21d29587b92afc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 09/16] fix: erased resources are destroyed a second time by
 the destructor of the repository

---
 lib/mito/utilities/Repository.h         |  9 +++++++--
 lib/mito/utilities/SegmentedAllocator.h | 12 ++++++++++++
 lib/mito/utilities/externals.h          |  2 ++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 1fde5a3..67d7279 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -70,9 +70,14 @@ namespace mito::utilities {
         // destructor
         ~Repository()
         {
-            // destroy all resources
+            // the resources at these locations have already been destroyed upon erasure
+            const auto erased = _resources.available_locations();
+
+            // destroy all other resources
             for (const auto & resource : _resources) {
-                resource.~resource_type();
+                if (!erased.contains(&resource)) {
+                    resource.~resource_type();
+                }
             }
         }
 
diff --git a/lib/mito/utilities/SegmentedAllocator.h b/lib/mito/utilities/SegmentedAllocator.h
index eb6264b..83c353b 100644
--- a/lib/mito/utilities/SegmentedAllocator.h
+++ b/lib/mito/utilities/SegmentedAllocator.h
@@ -130,6 +130,18 @@ namespace mito::utilities {
 
         inline auto segment_size() const noexcept -> int { return _segment_size; }
 
+        // the locations available for reuse, i.e. those whose resource has been erased
+        inline auto available_locations() const -> std::unordered_set<const resource_type *>
+        {
+            // go through a copy of the queue of the available locations
+            std::unordered_set<const resource_type *> locations;
+            for (auto queue = _available_locations; !queue.empty(); queue.pop()) {
+                locations.insert(queue.front());
+            }
+            // all done
+            return locations;
+        }
+
       private:
         auto _allocate_new_segment() -> unqualified_pointer
         {
diff --git a/lib/mito/utilities/externals.h b/lib/mito/utilities/externals.h
index 53b64ec..e4c1d9b 100644
--- a/lib/mito/utilities/externals.h
+++ b/lib/mito/utilities/externals.h
@@ -10,6 +10,8 @@
 // externals
 #include <cassert>
 #include <queue>
+#include <unordered_map>
+#include <unordered_set>
 #include <vector>
 #include <utility>
 #include <memory>
-- 
2.43.0


From 96e85dc47b7890be73051ad75ce5f364f0929fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 10/16] fix: account for the orientation of the simplices when
 collecting the outer boundary in flip_diagonal

---
 lib/mito/topology/FlipDiagonal.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/FlipDiagonal.icc b/lib/mito/topology/FlipDiagonal.icc
index 2f7b1ea..ff90ce7 100644
--- a/lib/mito/topology/FlipDiagonal.icc
+++ b/lib/mito/topology/FlipDiagonal.icc
@@ -100,7 +100,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex0->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it with the orientation it has in the boundary of {simplex0}
+                boundary_simplices.insert(
+                    simplex0->orientation() == -1 ? topology.flip(subsimplex) : subsimplex);
             }
         }
         assert(std::size(boundary_simplices) == 2);
@@ -108,7 +110,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex1->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it with the orientation it has in the boundary of {simplex1}
+                boundary_simplices.insert(
+                    simplex1->orientation() == -1 ? topology.flip(subsimplex) : subsimplex);
             }
         }
         assert(std::size(boundary_simplices) == 4);
-- 
2.43.0


From 7db63084b902cda2134d722fa2cf2e811375b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 11/16] fix: find segments obtained by flipping when querying
 the topology by their vertices

---
 lib/mito/topology/Topology.icc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index c675660..5486d21 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -269,6 +269,14 @@ mito::topology::Topology::exists(const vertex_simplex_composition_t<1> & vertice
     auto simplex_left_tip = _get_factory<0>().findOrientedSimplex(vertices[0], -1);
     auto simplex_right_tip = _get_factory<0>().findOrientedSimplex(vertices[1], +1);
 
+    // if the segment was obtained by flipping, its tips may exist only with opposite orientations
+    if (simplex_left_tip.is_nullptr()) {
+        simplex_left_tip = _get_factory<0>().findOrientedSimplex(vertices[0], +1);
+    }
+    if (simplex_right_tip.is_nullptr()) {
+        simplex_right_tip = _get_factory<0>().findOrientedSimplex(vertices[1], -1);
+    }
+
     // if both are are found
     if (!simplex_left_tip.is_nullptr() && !simplex_right_tip.is_nullptr()) {
         // check if the oriented exists
-- 
2.43.0


From 7622991af4f6813d4a1489c37523218570d57d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 12/16] fix: assemble the right-hand side along with the matrix
 of a PETSc linear system

---
 lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 3e96648..37e60a0 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -74,6 +74,10 @@ mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
     PetscCallVoid(MatAssemblyBegin(_matrix, MAT_FINAL_ASSEMBLY));
     PetscCallVoid(MatAssemblyEnd(_matrix, MAT_FINAL_ASSEMBLY));
 
+    // assemble right-hand side
+    PetscCallVoid(VecAssemblyBegin(_rhs));
+    PetscCallVoid(VecAssemblyEnd(_rhs));
+
     // // show the matrix and the right-hand-side
     // PetscCallVoid(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
     // PetscCallVoid(VecView(_rhs, PETSC_VIEWER_STDOUT_WORLD));
-- 
2.43.0


From 375251736d56679bb3f7551cd87aaec94e90183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 13/16] fix: get_solution reads beyond the local entries of a
 distributed solution

---
 .../backend/petsc/PETScLinearSystem.icc       | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
index 37957a9..aa0db9c 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
@@ -14,9 +14,18 @@ template <class solutionT>
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::get_solution(solutionT & solution) const -> void
 {
-    // get a pointer to the beginning of {_solution}
+    // collect all the entries of {_solution}, possibly distributed, in a local vector
+    VecScatter scatter;
+    vector_type local_solution;
+    PetscCallVoid(VecScatterCreateToAll(_solution, &scatter, &local_solution));
+    PetscCallVoid(
+        VecScatterBegin(scatter, _solution, local_solution, INSERT_VALUES, SCATTER_FORWARD));
+    PetscCallVoid(
+        VecScatterEnd(scatter, _solution, local_solution, INSERT_VALUES, SCATTER_FORWARD));
+
+    // get a pointer to the beginning of {local_solution}
     const scalar_type * u;
-    PetscCallVoid(VecGetArrayRead(_solution, &u));
+    PetscCallVoid(VecGetArrayRead(local_solution, &u));
 
     // get the size of the vector
     PetscInt size;
@@ -25,11 +34,15 @@ mito::matrix_solvers::petsc::PETScLinearSystem::get_solution(solutionT & solutio
     // check that the size of {_solution} matches the size of {solution}
     assert(size == (int) std::size(solution));
 
-    // copy {_solution} into {solution}
+    // copy {local_solution} into {solution}
     std::copy(u, u + size, std::begin(solution));
 
     // restore the array after reading
-    PetscCallVoid(VecRestoreArrayRead(_solution, &u));
+    PetscCallVoid(VecRestoreArrayRead(local_solution, &u));
+
+    // free the local vector
+    PetscCallVoid(VecScatterDestroy(&scatter));
+    PetscCallVoid(VecDestroy(&local_solution));
 
     // all done
     return;
-- 
2.43.0


From b221260cf0daef67ece9f27bcc5b38962a662549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 14/16] fix: summit reader skips what follows the label on the
 line of a cell

The writer writes the element type after the label; the reader took it for the next cell.
---
 lib/mito/io/summit/reader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index 137387a..6c2be1d 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -95,10 +95,10 @@ namespace mito::io::summit {
         }
 
         // QUESTION: Can the label be more than one?
-        // read label for cell
+        // read label for cell (and what follows it on the line, e.g. the element type)
         // TOFIX: Ignored for now
         std::string cell_set_id;
-        fileStream >> cell_set_id;
+        std::getline(fileStream, cell_set_id);
 
         // all done
         return;
-- 
2.43.0


From f9bbe5484489422426d2e54d0b6a2c1cb251b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 15/16] fix: summit writer writes coordinates with all their
 digits

15 digits do not determine a double: a mesh written and read back was displaced.
---
 lib/mito/io/externals.h               | 1 +
 lib/mito/io/summit/MeshSummitWriter.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mito/io/externals.h b/lib/mito/io/externals.h
index 344da8d..dbb728e 100644
--- a/lib/mito/io/externals.h
+++ b/lib/mito/io/externals.h
@@ -8,6 +8,7 @@
 
 
 // externals
+#include <limits>
 #include <unordered_set>
 
 // support
diff --git a/lib/mito/io/summit/MeshSummitWriter.h b/lib/mito/io/summit/MeshSummitWriter.h
index b62bf07..412da69 100644
--- a/lib/mito/io/summit/MeshSummitWriter.h
+++ b/lib/mito/io/summit/MeshSummitWriter.h
@@ -85,7 +85,7 @@ namespace mito::io {
             // write the points to file in an order determined by their index
             for (const auto & point : points_vector) {
                 const auto & coord = _coord_system.coordinates(point);
-                outfile << std::setprecision(15);
+                outfile << std::setprecision(std::numeric_limits<double>::max_digits10);
                 for (int d = 0; d < D; ++d)
                     outfile << coord[d] << " ";
                 outfile << std::endl;
-- 
2.43.0


From b6393fd02cfd6c7ebdf64491da6761a7bd7217b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:50 +0000
Subject: [PATCH 16/16] fix: H1 norm takes gradients with respect to physical
 coordinates

---
 lib/mito/fem/norms.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/mito/fem/norms.h b/lib/mito/fem/norms.h
index 79ea71a..c5d0050 100644
--- a/lib/mito/fem/norms.h
+++ b/lib/mito/fem/norms.h
@@ -58,16 +58,20 @@ namespace mito::fem {
             auto u1_local = localize(u1, element);
             // localize {u2} on this element
             auto u2_local = localize(u2, element);
-            // assemble the gradient of the solution field on this element
+            // the gradients of the localized fields with respect to the parametric coordinates
             auto u1_local_gradient = fields::gradient(u1_local);
-            // localize the gradient of the exact solution on this element
             auto u2_local_gradient = fields::gradient(u2_local);
+            auto local_gradient = u1_local_gradient - u2_local_gradient;
+            // the gradient of the difference with respect to the physical coordinates
+            auto gradient = functions::function(
+                [&](const element_type::parametric_coordinates_type & xi)
+                    -> decltype(local_gradient)::output_type {
+                    return local_gradient(xi) * tensor::inverse(element.jacobian()(xi));
+                });
             // compute the elementary contributions to the H1 norm
             norm += blocks::l2_norm_block<element_type, quadratureRuleT>(u1_local - u2_local)
                         .compute(element)
-                  + blocks::l2_norm_block<element_type, quadratureRuleT>(
-                        u1_local_gradient - u2_local_gradient)
-                        .compute(element);
+                  + blocks::l2_norm_block<element_type, quadratureRuleT>(gradient).compute(element);
         }
 
         // take the square root of the accumulated norm
-- 
2.43.0

