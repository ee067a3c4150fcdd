From 5751a95a2c9fd9acc5c45209bffa42205fb5282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 01/55] fix: include aliases in the site registry, so that
 sublattices defined after an alias work

The registry is indexed by sublattice ID, but was sized by the number of
non-alias sublattices: any sublattice added after an alias made it throw.
---
 cppcore/src/Lattice.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 1fdc1d2..c06454d 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -245,19 +245,11 @@ OptimizedUnitCell Lattice::optimized_unit_cell() const {
 }
 
 SiteRegistry Lattice::site_registry() const {
-    auto const num_unique_subs = std::count_if(
-        sublattices.begin(), sublattices.end(),
-        [](Sublattices::const_reference r) {
-            return SubID(r.second.alias_id) == r.second.unique_id;
-        }
-    );
-
-    auto energies = std::vector<MatrixXcd>(num_unique_subs);
-    auto names = std::vector<std::string>(num_unique_subs);
+    // The registry is indexed by ID and aliases take up IDs just like regular sublattices
+    auto energies = std::vector<MatrixXcd>(sublattices.size());
+    auto names = std::vector<std::string>(sublattices.size());
     for (auto const& pair : sublattices) {
         auto const& sub = pair.second;
-        if (SubID(sub.alias_id) != sub.unique_id) { continue; }
-
         energies.at(sub.unique_id.value()) = sub.energy;
         names.at(sub.unique_id.value()) = pair.first;
     }
-- 
2.43.0


From 080b44e04d45b6cbb5085ffcc53d220ef5ce1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 02/55] fix: an alias of an alias belongs to the original
 sublattice

It was given the ID of the alias it refers to, which no other site has.
---
 cppcore/src/Lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index c06454d..eb259a3 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -47,7 +47,7 @@ void Lattice::add_sublattice(string_view name, Cartesian position,
 
 void Lattice::add_alias(string_view alias_name, string_view original_name, Cartesian position) {
     auto const& original = sublattice(original_name);
-    auto const alias_id = SubAliasID(original.unique_id);
+    auto const alias_id = original.alias_id;
     auto const unique_id = make_unique_sublattice_id(alias_name);
     sublattices[alias_name] = {position, original.energy, unique_id, alias_id};
 }
-- 
2.43.0


From d2bf01372553d48a3cc180840363f50652aeea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 03/55] fix: boundary hoppings which reach beyond the first
 layer of unit cells

Periodic boundaries only looked at a single layer of cells and shifted it by
the hopping index times the period: with a period of 2 or more cells, hoppings
to second or further cells were lost. A period longer than the foundation
read out of bounds.
---
 cppcore/src/system/Symmetry.cpp | 41 ++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 5d3993c..8c1fa4f 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -44,6 +44,16 @@ SymmetryArea TranslationalSymmetry::area(Foundation const& foundation) const {
 std::vector<Translation> TranslationalSymmetry::translations(Foundation const& foundation) const {
     auto const& lattice = foundation.get_lattice();
     auto const symmetry_area = area(foundation);
+    auto const& foundation_size = foundation.get_spatial_size();
+
+    // the longest hopping in each direction (in number of unit cells)
+    auto const unit_cell = lattice.optimized_unit_cell();
+    auto reach = Index3D{0, 0, 0};
+    for (auto const& sublattice : unit_cell) {
+        for (auto const& hopping : sublattice.hoppings) {
+            reach = reach.cwiseMax(hopping.relative_index.cwiseAbs());
+        }
+    }
 
     std::vector<Translation> translations;
     auto add_translation = [&](Index3D direction) {
@@ -60,10 +70,17 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
 
         auto boundary_slice = SliceIndex3D();
         for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
-            if (direction[n] > 0)
-                boundary_slice[n] = symmetry_area.left[n];
-            else if (direction[n] < 0)
-                boundary_slice[n] = symmetry_area.right[n];
+            if (direction[n] == 0) { continue; }
+
+            // hoppings which cross the boundary come from this many layers of unit cells
+            auto const period = symmetry_area.middle[n];
+            auto const depth = std::min(period, reach[n] - (abs(direction[n]) - 1) * period);
+
+            auto const start = (direction[n] > 0) ? symmetry_area.left[n]
+                                                  : symmetry_area.right[n] - depth + 1;
+            // the periodic cell may be bigger than the foundation
+            boundary_slice[n] = {std::max(start, 0),
+                                 std::max(std::min(start + depth, foundation_size[n]), 0)};
         }
 
         auto const shift_index = direction.cwiseProduct(symmetry_area.middle);
@@ -78,10 +95,22 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
     };
 
     auto const masks = detail::make_masks(enabled_directions, lattice.ndim());
-    for (auto const& sublattice : lattice.optimized_unit_cell()) {
+    for (auto const& sublattice : unit_cell) {
         for (auto const& hopping : sublattice.hoppings) {
+            // number of boundaries which are crossed at the least and at the most
+            auto least = Index3D{0, 0, 0};
+            auto most = Index3D{0, 0, 0};
+            for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
+                if (!enabled_directions[n]) { continue; }
+
+                auto const period = symmetry_area.middle[n];
+                auto const index = hopping.relative_index[n];
+                least[n] = index / period;
+                most[n] = (index + (index > 0 ? period - 1 : 1 - period)) / period;
+            }
+
             for (auto const& mask : masks) {
-                add_translation(hopping.relative_index.cwiseProduct(mask));
+                add_translation(least + (most - least).cwiseProduct(mask));
             }
         }
     }
-- 
2.43.0


From 40cd7f494d13ce1ef65a8839a4eacc82f434df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:38 +0000
Subject: [PATCH 04/55] fix: keep all sites inside of a shape and remove
 dangling sites at the edge of the foundation

---
 cppcore/include/system/Foundation.hpp |  8 +++--
 cppcore/src/system/Foundation.cpp     | 45 +++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/cppcore/include/system/Foundation.hpp b/cppcore/include/system/Foundation.hpp
index 2224985..bd6c7f5 100644
--- a/cppcore/include/system/Foundation.hpp
+++ b/cppcore/include/system/Foundation.hpp
@@ -13,8 +13,12 @@ class Site;
 class Foundation;
 
 namespace detail {
-    /// Return the lower and upper bounds of the shape in lattice vector coordinates
-    std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& lattice);
+    /// Return the lower and upper bounds of the shape in lattice vector coordinates, such that
+    /// all the sites inside of the shape are at least `margin` unit cells away from the edges
+    std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& lattice,
+                                            Index3D const& margin = Index3D::Zero());
+    /// The longest hopping in each lattice vector direction (in number of unit cells)
+    Index3D longest_hopping(Lattice const& lattice);
     /// Generate real space coordinates for a block of lattice sites
     CartesianArray generate_positions(Cartesian origin, Index3D size, Lattice const& lattice);
     /// Initialize the neighbor count for each site
diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index 8f6df1e..2ae83d8 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -3,12 +3,19 @@
 
 namespace cpb { namespace detail {
 
-std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& lattice) {
+std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& lattice,
+                                        Index3D const& margin) {
+    Vector3f v_min = Vector3f::Constant(std::numeric_limits<float>::max());
+    Vector3f v_max = Vector3f::Constant(std::numeric_limits<float>::lowest());
     Array3i lower_bound = Array3i::Constant(std::numeric_limits<int>::max());
     Array3i upper_bound = Array3i::Constant(std::numeric_limits<int>::min());
     for (auto const& point : shape.vertices) {
         // Translate Cartesian coordinates `point` into lattice vector coordinates `v`
-        Array3i const v = lattice.translate_coordinates(point).cast<int>();
+        auto const point_v = lattice.translate_coordinates(point);
+        v_min = v_min.cwiseMin(point_v);
+        v_max = v_max.cwiseMax(point_v);
+
+        Array3i const v = point_v.cast<int>();
         lower_bound = (v < lower_bound).select(v, lower_bound);
         upper_bound = (v > upper_bound).select(v, upper_bound);
     }
@@ -18,9 +25,41 @@ std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& latti
     lower_bound.head(ndim) -= 1;
     upper_bound.head(ndim) += 1;
 
+    // The lattice offset and the sublattice positions move sites away from the lattice points
+    Vector3f site_min = Vector3f::Constant(std::numeric_limits<float>::max());
+    Vector3f site_max = Vector3f::Constant(std::numeric_limits<float>::lowest());
+    for (auto const& site : lattice.optimized_unit_cell()) {
+        auto const position = Cartesian(lattice.calc_position({0, 0, 0}) + site.position);
+        auto const site_v = lattice.translate_coordinates(position);
+        site_min = site_min.cwiseMin(site_v);
+        site_max = site_max.cwiseMax(site_v);
+    }
+
+    // Expand the bounds if a site inside of the shape (with the additional margin) would be left
+    // out. Both sides get the same padding because that preserves the center.
+    constexpr auto tolerance = 1e-3f;
+    for (auto i = 0; i < ndim; ++i) {
+        auto const first = static_cast<int>(std::ceil(v_min[i] - site_max[i] - tolerance));
+        auto const last = static_cast<int>(std::floor(v_max[i] - site_min[i] + tolerance));
+        auto const padding = std::max({lower_bound[i] - (first - margin[i]),
+                                       (last + margin[i]) - upper_bound[i], 0});
+        lower_bound[i] -= padding;
+        upper_bound[i] += padding;
+    }
+
     return {lower_bound, upper_bound};
 }
 
+Index3D longest_hopping(Lattice const& lattice) {
+    auto reach = Index3D{0, 0, 0};
+    for (auto const& site : lattice.optimized_unit_cell()) {
+        for (auto const& hopping : site.hoppings) {
+            reach = reach.cwiseMax(hopping.relative_index.cwiseAbs());
+        }
+    }
+    return reach;
+}
+
 CartesianArray generate_positions(Cartesian origin, Index3D size, Lattice const& lattice) {
     // The nested loops look messy, but it's the fastest way to calculate all the positions
     // because the intermediate a, b, c positions are reused.
@@ -116,7 +155,7 @@ Foundation::Foundation(Lattice const& lattice, Primitive const& primitive)
 Foundation::Foundation(Lattice const& lattice, Shape const& shape)
     : lattice(lattice),
       unit_cell(lattice.optimized_unit_cell()),
-      bounds(detail::find_bounds(shape, lattice)),
+      bounds(detail::find_bounds(shape, lattice, detail::longest_hopping(lattice))),
       spatial_size((bounds.second - bounds.first) + Index3D::Ones()),
       sub_size(lattice.nsub()),
       positions(detail::generate_positions(lattice.calc_position(bounds.first), spatial_size, lattice)),
-- 
2.43.0


From 987fcd887742b64a68e0546b77030152a26a6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 05/55] fix: hopping indices after removing sites from a system

---
 cppcore/src/system/HoppingBlocks.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index c2041a7..0c917cf 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -78,13 +78,23 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
 }
 
 void HoppingBlocks::filter(VectorX<bool> const& keep) {
-    using std::begin; using std::end;
+    // The indices of the remaining sites change
+    auto new_index = ArrayXi(keep.size());
+    auto count = storage_idx_t{0};
+    for (auto i = idx_t{0}; i < keep.size(); ++i) {
+        new_index[i] = count;
+        if (keep[i]) { ++count; }
+    }
 
-    num_sites = std::accumulate(begin(keep), end(keep), idx_t{0});
+    num_sites = count;
     for (auto& block : blocks) {
         block.erase(std::remove_if(block.begin(), block.end(), [&](COO coo) {
             return !keep[coo.row] || !keep[coo.col];
         }), block.end());
+
+        for (auto& coo : block) {
+            coo = {new_index[coo.row], new_index[coo.col]};
+        }
     }
 }
 
-- 
2.43.0


From 518049bbd79e99a7e50c478b8ff205b5723bd516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:19 +0000
Subject: [PATCH 06/55] fix: keep the direction of generated hoppings

---
 cppcore/include/system/HoppingBlocks.hpp |  2 +-
 cppcore/src/system/HoppingBlocks.cpp     | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/cppcore/include/system/HoppingBlocks.hpp b/cppcore/include/system/HoppingBlocks.hpp
index 2023271..0d486a9 100644
--- a/cppcore/include/system/HoppingBlocks.hpp
+++ b/cppcore/include/system/HoppingBlocks.hpp
@@ -124,7 +124,7 @@ public:
         blocks[family_id.as<size_t>()].push_back({row, col});
     }
 
-    /// Append a range of coordinates to the given family block
+    /// Append a range of coordinates to the given family block (repeated pairs are added once)
     void append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols);
 
     /// Remove sites for which `keep == false`
diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index 0c917cf..ece12f2 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -66,15 +66,21 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
     block.reserve(block.size() + rows.size());
 
     for (auto i = 0; i < rows.size(); ++i) {
-        auto m = rows[i];
-        auto n = cols[i];
-        if (m > n) { std::swap(m, n); } // upper triangular format
-        block.emplace_back(m, n);
+        block.emplace_back(rows[i], cols[i]);
     }
 
-    // Maintain upper triangular format
-    std::sort(block.begin(), block.end());
-    block.erase(std::unique(block.begin(), block.end()), block.end());
+    // The direction matters because the conjugate transpose of the hopping energy applies to the
+    // opposite one. If the same pair of sites is given in both, keep the upper triangular element.
+    auto const undirected = [](COO const& coo) {
+        return COO(std::min(coo.row, coo.col), std::max(coo.row, coo.col));
+    };
+    std::sort(block.begin(), block.end(), [&](COO const& a, COO const& b) {
+        auto const ua = undirected(a), ub = undirected(b);
+        return ua == ub ? a < b : ua < ub;
+    });
+    block.erase(std::unique(block.begin(), block.end(), [&](COO const& a, COO const& b) {
+        return undirected(a) == undirected(b);
+    }), block.end());
 }
 
 void HoppingBlocks::filter(VectorX<bool> const& keep) {
-- 
2.43.0


From d3228a66e2abfa39853340b989e51dd7b40e73c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 07/55] fix: upper triangular onsite energy of a site generator

---
 cppcore/src/system/Registry.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/system/Registry.cpp b/cppcore/src/system/Registry.cpp
index cfe8eb6..7db9e31 100644
--- a/cppcore/src/system/Registry.cpp
+++ b/cppcore/src/system/Registry.cpp
@@ -15,6 +15,13 @@ void check_energy(HoppingRegistry const&, MatrixXcd const& energy) {
     detail::check_hopping_energy(energy);
 }
 
+/// An upper triangular onsite energy matrix implies a Hermitian one
+MatrixXcd full_energy(SiteRegistry const&, MatrixXcd const& energy) {
+    return energy.selfadjointView<Eigen::Upper>();
+}
+
+MatrixXcd full_energy(HoppingRegistry const&, MatrixXcd const& energy) { return energy; }
+
 template<class ID>
 constexpr char const* kind() { return std::is_same<ID, SiteID>() ? "Site" : "Hopping"; }
 
@@ -39,7 +46,7 @@ void Registry<ID>::register_family(std::string const& name, MatrixXcd const& ene
     }
 
     names.push_back(name);
-    energies.push_back(energy);
+    energies.push_back(full_energy(*this, energy));
 }
 
 template<class ID>
-- 
2.43.0


From a52350479aad33ec9a349a6ac9054c8ccd32419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 08/55] fix: generated sites don't have to be sorted by the
 number of orbitals

---
 .../hamiltonian/HamiltonianModifiers.hpp      | 36 ++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index f206740..074a803 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -163,26 +163,35 @@ public:
     /// A translator is specific to a system and hopping family -- the matrix dimensions
     IndexTranslator(System const& system, MatrixXcd const& hopping_matrix)
         : term_size(hopping_matrix.rows(), hopping_matrix.cols()),
-          sys_start(system.compressed_sublattices.start_index(term_size.row),
-                    system.compressed_sublattices.start_index(term_size.col)),
-          ham_start(system.to_hamiltonian_indices(sys_start.row)[0],
-                    system.to_hamiltonian_indices(sys_start.col)[0]) {}
+          ham_start(system.num_sites()), num_orbitals(system.num_sites()) {
+        for (auto const& sub : system.compressed_sublattices) {
+            for (auto n = idx_t{0}; n < sub.num_sites(); ++n) {
+                auto const i = sub.sys_start() + n;
+                ham_start[i] = static_cast<storage_idx_t>(sub.ham_start() + n * sub.num_orbitals());
+                num_orbitals[i] = static_cast<storage_idx_t>(sub.num_orbitals());
+            }
+        }
+    }
 
     /// Loop over all Hamiltonian indices matching the System indices given in `coordinates`:
     ///     lambda(idx_t row, idx_t col, scalar_t value)
     /// where `row` and `col` are the Hamiltonian indices.
     template<class C, class F, class V, class scalar_t = typename V::Scalar> CPB_ALWAYS_INLINE
     void for_each(C const& coordinates, V const& hopping_buffer, F lambda) const {
+        for (auto const& coo : coordinates) {
+            if (num_orbitals[coo.row] != term_size.row || num_orbitals[coo.col] != term_size.col) {
+                throw std::runtime_error("The size of the hopping energy matrix doesn't match "
+                                         "the number of orbitals of the connected sites");
+            }
+        }
+
         auto const* data = hopping_buffer.data();
-        for (auto i = ham_start.row; i < ham_start.row + term_size.row; ++i) {
-            for (auto j = ham_start.col; j < ham_start.col + term_size.col; ++j) {
+        for (auto i = 0; i < term_size.row; ++i) {
+            for (auto j = 0; j < term_size.col; ++j) {
                 for (auto const& coo : coordinates) {
-                    auto const ham_row = i + (coo.row - sys_start.row) * term_size.row;
-                    auto const ham_col = j + (coo.col - sys_start.col) * term_size.col;
-
                     auto const value = *data++;
                     if (value != scalar_t{0}) {
-                        lambda(ham_row, ham_col, value);
+                        lambda(ham_start[coo.row] + i, ham_start[coo.col] + j, value);
                     }
                 }
             }
@@ -191,8 +200,8 @@ public:
 
 private:
     COO term_size; ///< size the hopping matrix (single hopping term)
-    COO sys_start; ///< start index in System coordinates
-    COO ham_start; ///< start index in Hamiltonian coordinates
+    ArrayXi ham_start; ///< the first Hamiltonian index of each site
+    ArrayXi num_orbitals; ///< the number of orbitals of each site
 };
 
 /**
@@ -244,7 +253,8 @@ void HamiltonianModifiers::apply_to_hoppings_impl(System const& system,
 
     // Fast path: Modifiers don't need to be applied and the single-orbital model
     // allows direct mapping between sites and Hamiltonian matrix elements.
-    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()) {
+    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()
+        && !system.site_registry.has_multiple_orbitals()) {
         for (auto const& block : system_or_boundary.hopping_blocks) {
             auto const energy = num::force_cast<scalar_t>(
                 hopping_registry.energy(block.family_id())
-- 
2.43.0


From 06a8e4a0b07e15652e3afce230b5e2aef0faee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:57 +0000
Subject: [PATCH 09/55] fix: reject generated hoppings between sites which
 don't exist

---
 cppcore/src/system/StructureModifiers.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cppcore/src/system/StructureModifiers.cpp b/cppcore/src/system/StructureModifiers.cpp
index 48e49c5..0f19c25 100644
--- a/cppcore/src/system/StructureModifiers.cpp
+++ b/cppcore/src/system/StructureModifiers.cpp
@@ -62,6 +62,13 @@ void apply(HoppingGenerator const& g, System& s) {
     detail::remove_invalid(s);
 
     auto pairs = g.make(s);
+    for (auto const* indices : {&pairs.from, &pairs.to}) {
+        if (any_of(*indices < 0) || any_of(*indices >= static_cast<storage_idx_t>(s.num_sites()))) {
+            throw std::runtime_error("When generating hoppings, the `from` and `to` indices "
+                                     "must be valid site indices");
+        }
+    }
+
     s.hopping_blocks.append(s.hopping_registry.id(g.name),
                             std::move(pairs.from), std::move(pairs.to));
 }
-- 
2.43.0


From dbdce8e3d094c1f1a48fcede086dac1832b0192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:23 +0000
Subject: [PATCH 10/55] fix: reject stored data of inconsistent sizes

---
 cppcore/include/numeric/dense.hpp            | 7 ++++++-
 cppcore/src/system/CompressedSublattices.cpp | 4 ++++
 cppcore/src/system/HoppingBlocks.cpp         | 9 +++++++++
 cppcore/src/system/Registry.cpp              | 6 +++++-
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/dense.hpp b/cppcore/include/numeric/dense.hpp
index 222a756..5b34a4e 100644
--- a/cppcore/include/numeric/dense.hpp
+++ b/cppcore/include/numeric/dense.hpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <stdexcept>
 #include <vector>
 
 namespace cpb {
@@ -181,7 +182,11 @@ public:
     CartesianArray() = default;
     CartesianArray(idx_t size) : x(size), y(size), z(size) {}
     CartesianArray(ArrayXf x, ArrayXf y, ArrayXf z)
-        : x(std::move(x)), y(std::move(y)), z(std::move(z)) {}
+        : x(std::move(x)), y(std::move(y)), z(std::move(z)) {
+        if (this->y.size() != this->x.size() || this->z.size() != this->x.size()) {
+            throw std::runtime_error("CartesianArray: x, y and z must have equal sizes");
+        }
+    }
 
     CartesianRef operator[](idx_t i) { return {x[i], y[i], z[i]}; }
     Cartesian operator[](idx_t i) const { return {x[i], y[i], z[i]}; }
diff --git a/cppcore/src/system/CompressedSublattices.cpp b/cppcore/src/system/CompressedSublattices.cpp
index 00e3804..794dc1e 100644
--- a/cppcore/src/system/CompressedSublattices.cpp
+++ b/cppcore/src/system/CompressedSublattices.cpp
@@ -5,6 +5,10 @@ namespace cpb {
 CompressedSublattices::CompressedSublattices(ArrayXi const& alias_ids, ArrayXi const& site_counts,
                                              ArrayXi const& orbital_counts)
     : data(alias_ids.size()) {
+    if (site_counts.size() != alias_ids.size() || orbital_counts.size() != alias_ids.size()) {
+        throw std::runtime_error("CompressedSublattices: the given arrays must have equal sizes");
+    }
+
     for (auto i = size_t{0}; i < data.size(); ++i) {
         data[i].id = SiteID{alias_ids[i]};
         data[i].num_sites = site_counts[i];
diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index ece12f2..57e9d78 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -4,9 +4,18 @@ namespace cpb {
 
 HoppingBlocks::HoppingBlocks(idx_t num_sites, SerializedBlocks const& data, NameMap name_map)
     : num_sites(num_sites), name_map(std::move(name_map)) {
+    if (data.size() != this->name_map.size()) {
+        throw std::runtime_error("HoppingBlocks: there must be one block per hopping family");
+    }
+
     blocks.reserve(data.size());
     for (auto const& pair : data) {
         auto const size = pair.first.size();
+        if (pair.second.size() != size) {
+            throw std::runtime_error("HoppingBlocks: the number of row and column indices "
+                                     "must be equal");
+        }
+
         auto block = std::vector<COO>(static_cast<size_t>(size));
         for (auto i = 0; i < size; ++i) {
             block[i].row = pair.first[i];
diff --git a/cppcore/src/system/Registry.cpp b/cppcore/src/system/Registry.cpp
index 7db9e31..081af5f 100644
--- a/cppcore/src/system/Registry.cpp
+++ b/cppcore/src/system/Registry.cpp
@@ -30,7 +30,11 @@ constexpr char const* kind() { return std::is_same<ID, SiteID>() ? "Site" : "Hop
 template<class ID>
 Registry<ID>::Registry(std::vector<MatrixXcd> energies, std::vector<std::string> names)
     : energies(std::move(energies)), names(std::move(names)) {
-    assert(energies.size() == names.size());
+    if (this->energies.size() != this->names.size()) {
+        throw std::runtime_error("{} registry: the number of energies and names must be equal"_format(
+            kind<ID>()
+        ));
+    }
 }
 
 template<class ID>
-- 
2.43.0


From 6b316f98c4023cbc78d9757cf47835c54739fa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 11/55] fix: looking for the nearest site of a sublattice
 without any sites

---
 cppcore/src/system/System.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cppcore/src/system/System.cpp b/cppcore/src/system/System.cpp
index cfd3490..79dbaf3 100644
--- a/cppcore/src/system/System.cpp
+++ b/cppcore/src/system/System.cpp
@@ -67,6 +67,10 @@ Range System::sublattice_range(string_view sublattice) const {
 
 idx_t System::find_nearest(Cartesian target_position, string_view sublattice_name) const {
     auto const range = sublattice_range(sublattice_name);
+    if (range.start == range.end) {
+        throw std::runtime_error("System::find_nearest() There are no sites to look for");
+    }
+
     auto nearest_index = range.start;
     auto min_distance = (positions[range.start] - target_position).norm();
 
-- 
2.43.0


From 09bf20c2eaea21df4c23d73f2284902378150f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:27 +0000
Subject: [PATCH 12/55] fix: boundary hoppings have to count the generated
 sites

---
 cppcore/src/system/StructureModifiers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cppcore/src/system/StructureModifiers.cpp b/cppcore/src/system/StructureModifiers.cpp
index 0f19c25..d52e27b 100644
--- a/cppcore/src/system/StructureModifiers.cpp
+++ b/cppcore/src/system/StructureModifiers.cpp
@@ -55,6 +55,9 @@ void apply(SiteGenerator const& g, System& s) {
     auto const nsites = new_positions.size();
     s.compressed_sublattices.add(s.site_registry.id(g.name), norb, nsites);
     s.hopping_blocks.add_sites(nsites);
+    for (auto& boundary : s.boundaries) {
+        boundary.hopping_blocks.add_sites(nsites);
+    }
     s.positions = concat(s.positions, new_positions);
 }
 
-- 
2.43.0


From 3c23d612d0ee5097752204a81f9895ed39b6621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 13/55] fix: hopping energy matrices with more than 100000
 elements

---
 cppcore/include/hamiltonian/HamiltonianModifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index 074a803..f8bff2d 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -222,7 +222,7 @@ struct HoppingBuffer {
     CartesianArray pos2; ///< hopping destination position
 
     HoppingBuffer(MatrixXcd const& unit_hopping, idx_t block_size)
-        : size(std::min(max_buffer_size / unit_hopping.size(), block_size)),
+        : size(std::min(std::max(max_buffer_size / unit_hopping.size(), idx_t{1}), block_size)),
           unit_hopping(num::force_cast<scalar_t>(unit_hopping)),
           hoppings(size * unit_hopping.size()),
           pos1(size), pos2(size) {}
-- 
2.43.0


From 77a539ead19ef8d36b42e7719b498ff725616aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:29 +0000
Subject: [PATCH 14/55] fix: a rejected parameter leaves the model as it was

---
 cppcore/src/Model.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 28f5016..ff6e350 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -11,12 +11,12 @@ Model::Model(Lattice const& lattice)
       hopping_registry(lattice.hopping_registry()) {}
 
 void Model::add(Primitive new_primitive) {
-    primitive = new_primitive;
     for (auto i = lattice.ndim(); i < 3; ++i) {
-        if (primitive.size[i] != 1) {
+        if (new_primitive.size[i] != 1) {
             throw std::logic_error("Primitive shape has more dimensions than the lattice");
         }
     }
+    primitive = new_primitive;
     clear_structure();
 }
 
@@ -28,8 +28,8 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
+    lattice.set_offset(lattice.get_offset() + new_shape.lattice_offset);
     shape = new_shape;
-    lattice.set_offset(lattice.get_offset() + shape.lattice_offset);
     clear_structure();
 }
 
@@ -73,14 +73,14 @@ void Model::add(HoppingModifier const& m) {
 }
 
 void Model::add(SiteGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     site_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
 void Model::add(HoppingGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     hopping_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
-- 
2.43.0


From 6bc000682e01cd85c5b14543172c2f5ae18e0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 15/55] fix: clearing modifiers discards the results which were
 made with them

---
 cppcore/include/Model.hpp |  4 ++--
 cppcore/src/Model.cpp     | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index a59337d..ade7d4b 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -78,8 +78,8 @@ public: // get information
     double hamiltonian_build_seconds() const { return hamiltonian_build_time.elapsed_seconds(); }
 
 public:
-    void clear_structure_modifiers() { structure_modifiers.clear(); }
-    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); }
+    void clear_structure_modifiers();
+    void clear_hamiltonian_modifiers();
     void clear_all_modifiers() { clear_structure_modifiers(); clear_hamiltonian_modifiers(); }
 
 private:
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index ff6e350..2883daa 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -139,6 +139,19 @@ std::string Model::report() {
                        num_sites, system_build_time, nnz, hamiltonian_build_time);
 }
 
+void Model::clear_structure_modifiers() {
+    structure_modifiers.clear();
+    // Forget the families which were registered by generators
+    site_registry = lattice.site_registry();
+    hopping_registry = lattice.hopping_registry();
+    clear_structure();
+}
+
+void Model::clear_hamiltonian_modifiers() {
+    hamiltonian_modifiers.clear();
+    clear_hamiltonian();
+}
+
 std::shared_ptr<System> Model::make_system() const {
     auto foundation = shape ? Foundation(lattice, shape)
                             : Foundation(lattice, primitive);
@@ -212,6 +225,7 @@ void Model::clear_structure() {
 void Model::clear_hamiltonian() {
     _hamiltonian.reset();
     _leads.clear_hamiltonian();
+    complex_override = false;
 }
 
 } // namespace cpb
-- 
2.43.0


From b787524bd13fa010d513ed2f9edba9c40424b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 16/55] fix: don't keep a part of the leads after an error

---
 cppcore/src/leads/Leads.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 6628452..1227236 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -13,9 +13,12 @@ void Leads::make_structure(Foundation const& foundation) {
         return;
     }
 
+    // Keep the new ones only if all of them succeed
+    auto new_structures = std::vector<leads::Structure>();
     for (auto const& spec : specs) {
-        structures.emplace_back(foundation, spec);
+        new_structures.emplace_back(foundation, spec);
     }
+    structures = std::move(new_structures);
 }
 
 void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
@@ -24,9 +27,13 @@ void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const&
         return;
     }
 
+    // Keep the new ones only if all of them succeed
+    auto new_hamiltonians = std::vector<leads::HamiltonianPair>();
     for (auto const& structure : structures) {
-        hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
+        new_hamiltonians.emplace_back(structure.system, lattice, modifiers,
+                                      is_double, is_complex);
     }
+    hamiltonians = std::move(new_hamiltonians);
 }
 
 void Leads::clear_structure() {
-- 
2.43.0


From 3c0fb2699e4248abe8c1115662223dbb050e6fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 17/55] fix: leads of a modifier which returns complex values
 only there

---
 cppcore/src/Model.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 2883daa..21de329 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -119,7 +119,12 @@ Hamiltonian const& Model::hamiltonian() const {
 Leads const& Model::leads() const {
     system();
     hamiltonian();
-    _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    try {
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    } catch (ComplexOverride const&) {
+        // A modifier may return complex values only at the lead sites
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), /*is_complex*/true);
+    }
     return _leads;
 }
 
-- 
2.43.0


From 879afa2e6835337825a901a7ff65c584ef7f6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:22 +0000
Subject: [PATCH 18/55] fix: contact of a lead outside of the foundation

The shape of the lead was evaluated at a slice which is outside of the foundation (reading out
of bounds), instead of the one which is closest to the shape.
---
 cppcore/src/leads/Spec.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/leads/Spec.cpp b/cppcore/src/leads/Spec.cpp
index 14951bd..d0cf445 100644
--- a/cppcore/src/leads/Spec.cpp
+++ b/cppcore/src/leads/Spec.cpp
@@ -91,7 +91,9 @@ Junction::Junction(Foundation const& foundation, Spec const& spec)
     // The lead's shape.contains() should be invoked in the center of the shape slice
     auto si3d = shape_slice(foundation, spec.shape);
     auto const si = si3d[spec.axis];
-    si3d[spec.axis] = (si.start + si.end) / 2;
+    // (or as close to it as possible, if the shape lies outside of the foundation)
+    auto const last = foundation.get_spatial_size()[spec.axis] - 1;
+    si3d[spec.axis] = std::max(0, std::min((si.start + si.end) / 2, last));
     auto const slice = foundation[si3d];
     is_valid = spec.shape.contains(slice.positions());
 
-- 
2.43.0


From 42c406dee8015a1d0b41b7fd13971c64b454c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 19/55] fix: keep the direction of the hoppings between the
 unit cells of a lead

The hoppings which are defined from the inner to the outer unit cell were used as if they had the
opposite direction, i.e. not conjugated (or rejected if the numbers of orbitals are different).
---
 cppcore/include/leads/HamiltonianPair.hpp | 15 +++++++
 cppcore/src/leads/Structure.cpp           | 54 ++++++++++++++---------
 pybinding/leads.py                        |  9 ++--
 3 files changed, 53 insertions(+), 25 deletions(-)

diff --git a/cppcore/include/leads/HamiltonianPair.hpp b/cppcore/include/leads/HamiltonianPair.hpp
index 6f2c1ad..35b3e1d 100644
--- a/cppcore/include/leads/HamiltonianPair.hpp
+++ b/cppcore/include/leads/HamiltonianPair.hpp
@@ -24,10 +24,25 @@ namespace detail {
         matrix.resize(size, size);
         matrix.reserve(ArrayXi::Constant(size, lattice.max_hoppings()));
 
+        // From the outer unit cell (rows) to the inner one (columns), see `leads::Structure`
         modifiers.apply_to_hoppings<scalar_t>(system, 0, [&](idx_t i, idx_t j, scalar_t hopping) {
             matrix.insert(i, j) = hopping;
         });
 
+        if (system.boundaries.size() > 1) {
+            // The opposite direction is between the same two unit cells
+            auto inner_system = system;
+            for (auto i = idx_t{0}; i < inner_system.num_sites(); ++i) {
+                inner_system.positions[i] = system.positions[i] - system.boundaries[0].shift;
+            }
+
+            modifiers.apply_to_hoppings<scalar_t>(
+                inner_system, 1, [&](idx_t i, idx_t j, scalar_t hopping) {
+                    matrix.insert(j, i) = num::conjugate(hopping);
+                }
+            );
+        }
+
         h1->makeCompressed();
         cpb::detail::throw_if_invalid(*h1);
 
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index f86ec26..168caa1 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -49,32 +49,42 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
         system.compressed_sublattices.verify(size);
     }
 
-    system.boundaries.push_back([&]{
-        auto const size = static_cast<int>(indices.size());
-        auto hopping_blocks = HoppingBlocks(size, system.hopping_registry.name_map());
+    // The hoppings between a unit cell of the lead and the next one which is closer to the main
+    // system. The first boundary contains those which originate from the outer unit cell. The
+    // opposite ones need to be separate in order to keep the direction of each hopping.
+    auto const size = static_cast<int>(indices.size());
+    auto outer_blocks = HoppingBlocks(size, system.hopping_registry.name_map());
+    auto inner_blocks = HoppingBlocks(size, system.hopping_registry.name_map());
 
-        for (auto const& site : slice) {
-            if (!junction.is_valid[site.get_slice_idx()]) {
-                continue;
-            }
+    for (auto const& site : slice) {
+        if (!junction.is_valid[site.get_slice_idx()]) {
+            continue;
+        }
 
-            auto const shifted_site = [&]{
-                Index3D shift_index = Index3D::Zero();
-                shift_index[lead.axis] = lead.sign;
-                return site.shifted(shift_index);
-            }();
+        auto const shifted_site = [&]{
+            Index3D shift_index = Index3D::Zero();
+            shift_index[lead.axis] = lead.sign;
+            return site.shifted(shift_index);
+        }();
 
-            auto const index = lead_index(finalized_indices[site]);
-            shifted_site.for_each_neighbor([&](Site neighbor, Hopping hopping) {
-                auto const neighbor_index = lead_index(finalized_indices[neighbor]);
-                if (neighbor_index >= 0) {
-                    hopping_blocks.add(hopping.family_id, index, neighbor_index);
-                }
-            });
-        }
+        auto const index = lead_index(finalized_indices[site]);
+        shifted_site.for_each_neighbor([&](Site neighbor, Hopping hopping) {
+            auto const neighbor_index = lead_index(finalized_indices[neighbor]);
+            if (neighbor_index < 0) { return; }
 
-        return System::Boundary{hopping_blocks, shift};
-    }());
+            if (hopping.is_conjugate) {
+                inner_blocks.add(hopping.family_id, neighbor_index, index);
+            } else {
+                outer_blocks.add(hopping.family_id, index, neighbor_index);
+            }
+        });
+    }
+
+    auto const has_inner = inner_blocks.nnz() != 0;
+    system.boundaries.push_back({std::move(outer_blocks), shift});
+    if (has_inner) {
+        system.boundaries.push_back({std::move(inner_blocks), -shift});
+    }
 }
 
 }} // namespace cpb::leads
diff --git a/pybinding/leads.py b/pybinding/leads.py
index 635cb35..25ed68e 100644
--- a/pybinding/leads.py
+++ b/pybinding/leads.py
@@ -98,7 +98,9 @@ class Lead:
         sub = self.system.sublattices
         inner_hoppings = self.system.hoppings.tocoo()
         boundary = self.system.boundaries[0]
-        outer_hoppings = boundary.hoppings.tocoo()
+        # The second boundary (if there is one) has the opposite shift
+        outer_hoppings = [(b.hoppings.tocoo(), b.shift, b.shift if n == 0 else 0)
+                          for n, b in enumerate(self.system.boundaries)]
 
         props = structure_plot_properties(**kwargs)
         props['site'].setdefault('radius', self.system.lattice.site_radius_for_plot())
@@ -108,8 +110,9 @@ class Lead:
             offset = i * boundary.shift
             plot_sites(pos, sub, offset=offset, blend=blend, **props['site'])
             plot_hoppings(pos, inner_hoppings, offset=offset, blend=blend, **props['hopping'])
-            plot_hoppings(pos, outer_hoppings, offset=offset - boundary.shift, blend=blend,
-                          boundary=(1, boundary.shift), **props['boundary'])
+            for hoppings, shift, start in outer_hoppings:
+                plot_hoppings(pos, hoppings, offset=offset - start, blend=blend,
+                              boundary=(1, shift), **props['boundary'])
 
         label_pos = _center(pos, lead_length * boundary.shift * 1.5)
         pltutils.annotate_box("lead {}".format(self.index), label_pos, bbox=dict(alpha=0.7))
-- 
2.43.0


From e53e752d1ddebf57fc8157c37565f85e39a96dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:29 +0000
Subject: [PATCH 20/55] fix: the sites which are filled in for a lead may be in
 the way of another lead

A lead was attached at indices which don't exist or it was overlapping with the main system.
---
 cppcore/src/leads/Leads.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 1227236..1534a16 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -1,10 +1,16 @@
 #include "leads/Leads.hpp"
+#include "system/Foundation.hpp"
 
 namespace cpb {
 
 void Leads::create_attachment_area(Foundation& foundation) const {
-    for (auto const& spec : specs) {
-        leads::create_attachment_area(foundation, spec);
+    // The sites which are filled in for one lead may be in the way of another,
+    // so repeat until there is nothing left to do
+    for (auto num_sites = idx_t{-1}; num_sites != foundation.get_states().count();) {
+        num_sites = foundation.get_states().count();
+        for (auto const& spec : specs) {
+            leads::create_attachment_area(foundation, spec);
+        }
     }
 }
 
-- 
2.43.0


From 617d4b7f7a614f51c24ba514660764432e1f6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 21/55] fix: lead indices after removing sites from a system
 with generated ones

The lead was attached to other sites than those of its junction.
---
 cppcore/include/leads/Leads.hpp |  3 +++
 cppcore/src/Model.cpp           |  1 +
 cppcore/src/leads/Leads.cpp     | 26 ++++++++++++++++++++++----
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/cppcore/include/leads/Leads.hpp b/cppcore/include/leads/Leads.hpp
index be618c0..c2af468 100644
--- a/cppcore/include/leads/Leads.hpp
+++ b/cppcore/include/leads/Leads.hpp
@@ -48,6 +48,9 @@ public:
     /// Create the structure of each lead
     void make_structure(Foundation const& foundation);
 
+    /// Some of the system sites (not `is_valid`) are about to be removed: change the lead indices
+    void remove_invalid(ArrayX<bool> const& is_valid);
+
     /// Create a Hamiltonian pair for each lead
     void make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
                           bool is_double, bool is_complex);
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 21de329..1944bab 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -186,6 +186,7 @@ std::shared_ptr<System> Model::make_system() const {
         apply(modifier, *sys);
     }
 
+    _leads.remove_invalid(sys->is_valid);
     detail::remove_invalid(*sys);
 
     if (sys->num_sites() == 0) { throw std::runtime_error{"Impossible system: 0 sites"}; }
diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 1534a16..11fa194 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -15,10 +15,6 @@ void Leads::create_attachment_area(Foundation& foundation) const {
 }
 
 void Leads::make_structure(Foundation const& foundation) {
-    if (!structures.empty()) {
-        return;
-    }
-
     // Keep the new ones only if all of them succeed
     auto new_structures = std::vector<leads::Structure>();
     for (auto const& spec : specs) {
@@ -27,6 +23,28 @@ void Leads::make_structure(Foundation const& foundation) {
     structures = std::move(new_structures);
 }
 
+void Leads::remove_invalid(ArrayX<bool> const& is_valid) {
+    if (is_valid.size() == 0 || structures.empty()) {
+        return;
+    }
+
+    auto new_indices = std::vector<int>();
+    new_indices.reserve(static_cast<size_t>(is_valid.size()));
+    auto num_valid = 0;
+    for (auto i = idx_t{0}; i < is_valid.size(); ++i) {
+        new_indices.push_back(is_valid[i] ? num_valid++ : -1);
+    }
+
+    for (auto& structure : structures) {
+        for (auto& index : structure.indices) {
+            index = new_indices[static_cast<size_t>(index)];
+            if (index < 0) {
+                throw std::runtime_error("Can't attach lead: a modifier removed its junction");
+            }
+        }
+    }
+}
+
 void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
                              bool is_double, bool is_complex) {
     if (!hamiltonians.empty()) {
-- 
2.43.0


From cd583d7edf426a21d446f92e074a68f9c4df8b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:53 +0000
Subject: [PATCH 22/55] fix: a rejected anonymous hopping leaves the lattice as
 it was

The hopping family was registered even if the hopping was then rejected.
---
 cppcore/src/Lattice.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index eb259a3..362f964 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -105,6 +105,7 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
 
 void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
                           MatrixXcd const& energy) {
+    auto const num_families = hoppings.size();
     auto const hopping_name = [&] {
         // Look for an existing hopping ID with the same energy
         auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
@@ -121,7 +122,13 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
         }
     }();
 
-    add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    try {
+        add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    } catch (...) {
+        // Don't keep a new family without the hopping
+        if (hoppings.size() != num_families) { hoppings.erase(hopping_name); }
+        throw;
+    }
 }
 
 void Lattice::set_offset(Cartesian position) {
-- 
2.43.0


From 8a7433b1bf4835395ea39bb059b2658826dfe998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:53 +0000
Subject: [PATCH 23/55] fix: anonymous hoppings if the generated name is
 already taken

---
 cppcore/src/Lattice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 362f964..5606114 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -116,7 +116,8 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
         if (it != hoppings.end()) {
             return it->first;
         } else {
-            auto const name = "__anonymous__{}"_format(hoppings.size());
+            auto name = "__anonymous__{}"_format(hoppings.size());
+            while (hoppings.find(name) != hoppings.end()) { name += "_"; }
             register_hopping_energy(name, energy);
             return name;
         }
-- 
2.43.0


From 05f1d6fd6f17885e405b62ced302a9791b15d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:14 +0000
Subject: [PATCH 24/55] fix: keep the model of a solver if the new one is
 invalid

The solver was left with the invalid model and it returned the results of the previous one.
---
 cppcore/src/solver/Solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cppcore/src/solver/Solver.cpp b/cppcore/src/solver/Solver.cpp
index beda24f..f048818 100644
--- a/cppcore/src/solver/Solver.cpp
+++ b/cppcore/src/solver/Solver.cpp
@@ -49,6 +49,8 @@ BaseSolver::BaseSolver(Model const& model, MakeStrategy const& make_strategy)
       strategy(make_strategy(model.hamiltonian())) {}
 
 void BaseSolver::set_model(Model const& new_model) {
+    new_model.hamiltonian(); // throws if the new model is invalid: keep the current one
+
     is_solved = false;
     model = new_model;
 
-- 
2.43.0


From 83e39abdadc0a49c67be5351f47c05037eaf3504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:57 +0000
Subject: [PATCH 25/55] fix: reordering of a Hamiltonian made of disconnected
 parts

Once every index which can be reached from the starting one is queued, continue with the ones which are left over
instead of reading past the end of the queue.
---
 cppcore/src/kpm/OptimizedHamiltonian.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index 6aa083a..3be61a4 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -102,6 +102,9 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
     auto slice_border_indices = std::vector<storage_idx_t>();
     slice_border_indices.push_back(1);
 
+    // Every index below this one is already in the map
+    auto first_unmapped = storage_idx_t{0};
+
     // Fill the reordered matrix row by row
     auto const h_view = sparse::make_loop(h);
     for (auto h2_row = 0; h2_row < system_size; ++h2_row) {
@@ -136,6 +139,15 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
             h2.insert(h2_row, h2_row) = -scale.b * inverted_a;
         }
 
+        // Nothing more can be reached from the already queued indices (the system is made
+        // of disconnected parts) -> continue from any of the indices which are left over
+        auto const queue_size = static_cast<storage_idx_t>(index_queue.size());
+        if (queue_size == h2_row + 1 && queue_size < system_size) {
+            while (reorder_map[first_unmapped] >= 0) { ++first_unmapped; }
+            reorder_map[first_unmapped] = queue_size;
+            index_queue.push_back(first_unmapped);
+        }
+
         // Reached the end of a slice
         if (h2_row == slice_border_indices.back() - 1) {
             slice_border_indices.push_back(static_cast<storage_idx_t>(index_queue.size()));
-- 
2.43.0


From aeca01959c5b46d6c8de1c7865f208ccec780e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:57 +0000
Subject: [PATCH 26/55] fix: Green's function of a complex Hamiltonian is that
 of the given row and column

The moments were those of the transposed matrix element.
---
 cppcore/include/kpm/Moments.hpp        | 9 +++++----
 cppcore/src/kpm/default/collectors.cpp | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cppcore/include/kpm/Moments.hpp b/cppcore/include/kpm/Moments.hpp
index b18e46a..1f2799c 100644
--- a/cppcore/include/kpm/Moments.hpp
+++ b/cppcore/include/kpm/Moments.hpp
@@ -60,10 +60,11 @@ struct GenericMoments {
 
 /**
   Collects the computed moments in the form `mu_n = <l|Tn(H)|r>`
-  where `l` is a unit vector with `l[i] = 1` and `i` is some
-  Hamiltonian index. Multiple `l` vectors can be defined simply
-  by defining a vector of Hamiltonian indices `idx` where each
-  index is used to form an `l` vector and collect a moment.
+  where `l` and `r` are unit vectors with `l[i] = 1` and `r[j] = 1`,
+  `i` and `j` are some Hamiltonian indices: the source and one of the
+  destinations. Multiple `r` vectors can be defined simply by defining
+  a vector of destination indices where each index is used to form an
+  `r` vector and collect a moment.
 
   The resulting `data` is a vector of vectors where each outer
   index corresponds to an index from `idx`.
diff --git a/cppcore/src/kpm/default/collectors.cpp b/cppcore/src/kpm/default/collectors.cpp
index a90fac9..ade63d8 100644
--- a/cppcore/src/kpm/default/collectors.cpp
+++ b/cppcore/src/kpm/default/collectors.cpp
@@ -62,15 +62,16 @@ void MultiUnitCollector<scalar_t>::initial(VectorRef r0, VectorRef r1) {
     using real_t = num::get_real_t<scalar_t>;
 
     for (auto i = 0; i < idx.dest.size(); ++i) {
-        moments[i][0] = r0[idx.dest[i]] * real_t{0.5}; // 0.5 is special the moment zero
-        moments[i][1] = r1[idx.dest[i]];
+        // The vectors start from `src` -> conjugate to get `<src|Tn(H)|dest>`
+        moments[i][0] = num::conjugate(r0[idx.dest[i]]) * real_t{0.5}; // special for moment zero
+        moments[i][1] = num::conjugate(r1[idx.dest[i]]);
     }
 }
 
 template<class scalar_t>
 void MultiUnitCollector<scalar_t>::operator()(idx_t n, VectorRef r1) {
     for (auto i = 0; i < idx.dest.size(); ++i) {
-        moments[i][n] = r1[idx.dest[i]];
+        moments[i][n] = num::conjugate(r1[idx.dest[i]]);
     }
 }
 
-- 
2.43.0


From ef2020c4afd2c8b838ae3f5ec130a34baba1c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:57 +0000
Subject: [PATCH 27/55] fix: ELLPACK form of a zero matrix

The compute functions negate the result vector together with the first element of each row and do the last one separately, so there must be at least one.
---
 cppcore/include/numeric/ellmatrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/ellmatrix.hpp b/cppcore/include/numeric/ellmatrix.hpp
index 482bb37..e941be2 100644
--- a/cppcore/include/numeric/ellmatrix.hpp
+++ b/cppcore/include/numeric/ellmatrix.hpp
@@ -63,8 +63,9 @@ inline EllConstRef<scalar_t> ellref(EllMatrix<scalar_t> const& m) {
 /// Convert an Eigen CSR matrix to ELLPACK
 template<class scalar_t>
 num::EllMatrix<scalar_t> csr_to_ell(SparseMatrixX<scalar_t> const& csr) {
-    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(),
-                                        sparse::max_nnz_per_row(csr));
+    // At least one element per row (a zero): the compute functions never skip the first one
+    auto const nnz_per_row = std::max<idx_t>(sparse::max_nnz_per_row(csr), 1);
+    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(), nnz_per_row);
     auto const loop = sparse::make_loop(csr);
     for (auto row = 0; row < csr.rows(); ++row) {
         auto n = 0;
-- 
2.43.0


From 4104c8bceea4cb102c0949f3cd2250b74dd8bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:42 +0000
Subject: [PATCH 28/55] fix: lattice vectors and energies in small units are
 not zero

The comparison with zero used an absolute precision, so that e.g. lattice vectors in meters or energies in joules were dropped.
---
 cppcore/include/system/Registry.hpp |  3 +++
 cppcore/src/Lattice.cpp             |  8 ++++----
 cppcore/src/system/Registry.cpp     | 11 ++++++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/cppcore/include/system/Registry.hpp b/cppcore/include/system/Registry.hpp
index c6510d0..832be2d 100644
--- a/cppcore/include/system/Registry.hpp
+++ b/cppcore/include/system/Registry.hpp
@@ -59,6 +59,9 @@ extern template class Registry<HopID>;
 
 namespace detail {
 
+/// Is the imaginary part zero? (or at least negligible)
+bool is_real(MatrixXcd const& energy);
+
 /// Check that the onsite energy matrix satisfies all the requirements
 void check_onsite_energy(MatrixXcd const& energy);
 /// Convert the onsite energy into the canonical format
diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 5606114..0e199b6 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -22,8 +22,8 @@ namespace {
 
 Lattice::Lattice(Cartesian a1, Cartesian a2, Cartesian a3) {
     vectors.push_back(a1);
-    if (!a2.isZero()) { vectors.push_back(a2); }
-    if (!a3.isZero()) { vectors.push_back(a3); }
+    if (a2 != Cartesian::Zero()) { vectors.push_back(a2); }
+    if (a3 != Cartesian::Zero()) { vectors.push_back(a3); }
     vectors.shrink_to_fit();
 }
 
@@ -238,13 +238,13 @@ Lattice Lattice::with_min_neighbors(int number) const {
 
 bool Lattice::has_diagonal_terms() const {
     return std::any_of(sublattices.begin(), sublattices.end(), [](Sublattices::const_reference r) {
-        return !r.second.energy.diagonal().isZero();
+        return (r.second.energy.diagonal().array() != 0.0).any();
     });
 }
 
 bool Lattice::has_onsite_energy() const {
     return std::any_of(sublattices.begin(), sublattices.end(), [](Sublattices::const_reference r) {
-        return !r.second.energy.isZero();
+        return (r.second.energy.array() != 0.0).any();
     });
 }
 
diff --git a/cppcore/src/system/Registry.cpp b/cppcore/src/system/Registry.cpp
index 081af5f..3ddb213 100644
--- a/cppcore/src/system/Registry.cpp
+++ b/cppcore/src/system/Registry.cpp
@@ -92,14 +92,14 @@ ID Registry<ID>::id(string_view name) const {
 template<class ID>
 bool Registry<ID>::has_nonzero_energy() const {
     return std::any_of(energies.begin(), energies.end(), [](MatrixXcd const& energy) {
-        return !energy.isZero();
+        return (energy.array() != 0.0).any();
     });
 }
 
 template<class ID>
 bool Registry<ID>::any_complex_terms() const {
     return std::any_of(energies.begin(), energies.end(), [](MatrixXcd const& energy) {
-        return !energy.imag().isZero();
+        return !detail::is_real(energy);
     });
 }
 
@@ -115,6 +115,11 @@ template class Registry<HopID>;
 
 namespace detail {
 
+bool is_real(MatrixXcd const& energy) {
+    // A rounding error is not an imaginary part, but the unit of energy may be very small
+    return energy.imag().isZero(0) || energy.imag().norm() <= 1e-14 * energy.norm();
+}
+
 void check_onsite_energy(MatrixXcd const& energy) {
     if (energy.rows() != energy.cols()) {
         throw std::logic_error("The onsite hopping term must be a real vector or a square matrix");
@@ -122,7 +127,7 @@ void check_onsite_energy(MatrixXcd const& energy) {
     if (energy.rows() == 0) {
         throw std::logic_error("The onsite hopping term can't be zero-dimensional");
     }
-    if (!energy.diagonal().imag().isZero()) {
+    if (!is_real(energy.diagonal())) {
         throw std::logic_error("The main diagonal of the onsite hopping term must be real");
     }
     if (!energy.isUpperTriangular() && energy != energy.adjoint()) {
-- 
2.43.0


From cb2502f398cf2454a5869277344366c9a89cf871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:13 +0000
Subject: [PATCH 29/55] fix: one pitch for the data and the indices of an
 ELLPACK matrix

The pitch of the data was also used for the indices, which are of another
size, so the reference to a matrix of doubles read the wrong indices.
---
 cppcore/include/numeric/ellmatrix.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/ellmatrix.hpp b/cppcore/include/numeric/ellmatrix.hpp
index e941be2..cb88d7e 100644
--- a/cppcore/include/numeric/ellmatrix.hpp
+++ b/cppcore/include/numeric/ellmatrix.hpp
@@ -26,8 +26,11 @@ public:
     EllMatrix() = default;
     EllMatrix(idx_t rows, idx_t cols, idx_t nnz_per_row)
         : _rows(rows), _cols(cols), nnz_per_row(nnz_per_row) {
-        data.resize(aligned_size<scalar_t, align_bytes>(rows), nnz_per_row);
-        indices.resize(aligned_size<storage_idx_t, align_bytes>(rows), nnz_per_row);
+        // The same pitch for both arrays: it must be aligned for each of the two types
+        auto const pitch = std::max(aligned_size<scalar_t, align_bytes>(rows),
+                                    aligned_size<storage_idx_t, align_bytes>(rows));
+        data.resize(pitch, nnz_per_row);
+        indices.resize(pitch, nnz_per_row);
     }
 
     idx_t rows() const { return _rows; }
-- 
2.43.0


From d967fcd172fe2a113c5c694901a2ea8e13c5c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:13 +0000
Subject: [PATCH 30/55] fix: array reference to a mutable vector is
 one-dimensional

---
 cppcore/include/numeric/dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/numeric/dense.hpp b/cppcore/include/numeric/dense.hpp
index 5b34a4e..edc7724 100644
--- a/cppcore/include/numeric/dense.hpp
+++ b/cppcore/include/numeric/dense.hpp
@@ -311,7 +311,7 @@ ArrayConstRef arrayref(std::vector<scalar_t> const& v) {
 
 template<class scalar_t>
 ArrayRef arrayref(std::vector<scalar_t>& v) {
-    return arrayref(v.data(), 1, true, static_cast<idx_t>(v.size()));
+    return arrayref(v.data(), static_cast<idx_t>(v.size()));
 }
 
 /// Range from 0 to `size` of scalar type `T` which does not have to be an integral type
-- 
2.43.0


From 78ebbfd7a735fd0fb2e7a0232bb75ddb2501a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:13 +0000
Subject: [PATCH 31/55] fix: end points of a line shape are within the line

The cosine of the angle at the vertex itself is 0/0 and the comparison was false.
---
 cppcore/src/system/Shape.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cppcore/src/system/Shape.cpp b/cppcore/src/system/Shape.cpp
index d4921f3..26f9909 100644
--- a/cppcore/src/system/Shape.cpp
+++ b/cppcore/src/system/Shape.cpp
@@ -32,13 +32,11 @@ ArrayX<bool> is_acute_angle(Cartesian a, Cartesian b, CartesianArrayConstRef c)
     auto const bc_y = ArrayXf{c.y() - b.y()};
     auto const bc_z = ArrayXf{c.z() - b.z()};
 
-    // Compute the cosine between the two vectors based on the dot product
+    // The sign of the dot product is the sign of the cosine. The cosine itself
+    // isn't needed and it would be undefined for the vertex of the angle.
     auto const ba_dot_bc = ba.x() * bc_x + ba.y() * bc_y + ba.z() * bc_z;
-    auto const ba_length = ba.norm();
-    auto const bc_length = sqrt(bc_x.cwiseAbs2() + bc_y.cwiseAbs2() + bc_z.cwiseAbs2());
-    auto const cos_theta = ba_dot_bc / (ba_length * bc_length);
 
-    return cos_theta >= 0; // acute angle
+    return ba_dot_bc >= 0; // acute angle
 };
 
 WithinPolygon::WithinPolygon(Shape::Vertices const& vertices)
-- 
2.43.0


From 55610cb2ad280732b78a1328d5afe589f9e748b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:13 +0000
Subject: [PATCH 32/55] fix: polygon sides which are almost parallel to the ray

A side was skipped if its y coordinates were approximately equal, so points
between them and in line with the side were on the wrong side of the polygon.
---
 cppcore/src/system/Shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/system/Shape.cpp b/cppcore/src/system/Shape.cpp
index 26f9909..d7f5ed1 100644
--- a/cppcore/src/system/Shape.cpp
+++ b/cppcore/src/system/Shape.cpp
@@ -59,7 +59,7 @@ ArrayX<bool> WithinPolygon::operator()(CartesianArrayConstRef positions) const {
         auto const& y1 = y[i]; auto const& y2 = y[j];
 
         // Check if ray is parallel to this side of the polygon
-        if (num::approx_equal(y1, y2)) {
+        if (y1 == y2) {
             continue; // avoid division by zero in the next step
         }
 
-- 
2.43.0


From 40871a4144a9091623c30d90ff3b5814a7977e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:09 +0000
Subject: [PATCH 33/55] fix: KPM keeps its model when the new one can't be
 evaluated

---
 cppcore/src/KPM.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index fb4f730..f0639c3 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -8,8 +8,10 @@ KPM::KPM(Model const& model, kpm::Compute const& compute, kpm::Config const& con
     : model(model.eval()), core(kpm::Core(model.hamiltonian(), compute, config)) {}
 
 void KPM::set_model(Model const& new_model) {
-    model = new_model;
-    core.set_hamiltonian(model.hamiltonian());
+    // If the new model can't be evaluated, the error must leave the current one in place
+    auto evaluated_model = new_model;
+    core.set_hamiltonian(evaluated_model.hamiltonian());
+    model = std::move(evaluated_model);
 }
 
 std::string KPM::report(bool shortform) const {
-- 
2.43.0


From 72d15f2ab5dbd78f65e38df938ee1fc5dca35faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:48 +0000
Subject: [PATCH 34/55] fix: Lanczos bounds for flat, shifted and zero-edged
 spectra

The convergence criterion was relative to each extreme eigenvalue. An edge at
zero (e.g. a graph Laplacian) never converged, a spectrum with a large constant
shift stopped before its bounds were known and an early iteration without a
change was taken for convergence. The precision now refers to the half-width
when that is smaller and holds after a minimal number of iterations. A spectrum
without any width is given a finite energy range.
---
 cppcore/include/compute/lanczos.hpp | 25 +++++++++++++++++++++----
 cppcore/src/kpm/Bounds.cpp          | 12 +++++++++++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/cppcore/include/compute/lanczos.hpp b/cppcore/include/compute/lanczos.hpp
index 5cf29b1..7609c9c 100644
--- a/cppcore/include/compute/lanczos.hpp
+++ b/cppcore/include/compute/lanczos.hpp
@@ -127,7 +127,9 @@ LanczosBounds minmax_eigenvalues(SparseMatrixX<scalar_t> const& matrix, double p
         auto const a = lanczos_spmv(b_prev, matrix, v1, v0);
         auto const b = lanczos_axpy(a, v1, v0);
 
-        v0 *= 1 / b;
+        if (b != 0) {
+            v0 *= 1 / b;
+        }
         v0.swap(v1);
 
         alpha.push_back(a);
@@ -139,10 +141,25 @@ LanczosBounds minmax_eigenvalues(SparseMatrixX<scalar_t> const& matrix, double p
                                                                   eigen_cast<ArrayX>(beta));
         auto const min = eigenvalues.minCoeff();
         auto const max = eigenvalues.maxCoeff();
-        auto const is_converged_min = abs((previous_min - min) / min) < precision;
-        auto const is_converged_max = abs((previous_max - max) / max) < precision;
 
-        if (is_converged_min && is_converged_max) {
+        // The precision is relative to the eigenvalues, but those can be zero or include a constant
+        // shift which is large compared to the spectrum: the half-width sets the actual scale.
+        auto const half_width = (max - min) / 2;
+        auto const rounding = 10 * std::numeric_limits<real_t>::epsilon()
+                              * std::max(abs(min), abs(max));
+        auto const tolerance = [&](real_t energy) {
+            auto const scale = std::min(std::max(abs(energy), half_width / 1000), half_width);
+            return precision * scale + rounding;
+        };
+        auto const is_converged_min = abs(previous_min - min) < tolerance(min);
+        auto const is_converged_max = abs(previous_max - max) < tolerance(max);
+        auto const is_exhausted = (b == 0); // the tridiagonal matrix already has all the eigenvalues
+
+        // The first few iterations may stall by chance (or because rounding errors make a copy of
+        // an isolated eigenvalue appear while all the rest stays the same) without being converged.
+        auto const is_past_start = (i >= 12);
+
+        if ((is_past_start && is_converged_min && is_converged_max) || is_exhausted) {
             return {min, max, i};
         }
 
diff --git a/cppcore/src/kpm/Bounds.cpp b/cppcore/src/kpm/Bounds.cpp
index 2e72710..ebbf35f 100644
--- a/cppcore/src/kpm/Bounds.cpp
+++ b/cppcore/src/kpm/Bounds.cpp
@@ -12,7 +12,17 @@ struct MinMaxEigenvalues {
 
     template<class scalar_t>
     compute::LanczosBounds operator()(SparseMatrixRC<scalar_t> const& ph) const {
-        return compute::minmax_eigenvalues(*ph, precision_percent);
+        auto bounds = compute::minmax_eigenvalues(*ph, precision_percent);
+
+        // A flat spectrum (e.g. a single site) has no width, but the scaling factors require it
+        using real_t = num::get_real_t<scalar_t>;
+        auto const magnitude = std::max(std::abs(bounds.min), std::abs(bounds.max));
+        if (bounds.max - bounds.min <= 100 * std::numeric_limits<real_t>::epsilon() * magnitude) {
+            auto const padding = (magnitude != 0) ? magnitude : 1.0;
+            bounds.min -= padding;
+            bounds.max += padding;
+        }
+        return bounds;
     }
 };
 
-- 
2.43.0


From 752a7b0df6b72c96fd9cea3e6855d23ab0bb603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:34 +0000
Subject: [PATCH 35/55] fix: KPM::calc_greens accepted an index one past the
 end of the Hamiltonian

---
 cppcore/src/KPM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index f0639c3..99d860d 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -104,7 +104,7 @@ ArrayXd KPM::calc_dos(ArrayXd const& energy, double broadening, idx_t num_random
 
 ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    if (row < 0 || row > size || col < 0 || col > size) {
+    if (row < 0 || row >= size || col < 0 || col >= size) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
 
@@ -117,9 +117,9 @@ ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double br
 std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                               ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    auto const row_error = row < 0 || row > size;
+    auto const row_error = row < 0 || row >= size;
     auto const col_error = std::any_of(cols.begin(), cols.end(),
-                                       [&](idx_t col) { return col < 0 || col > size; });
+                                       [&](idx_t col) { return col < 0 || col >= size; });
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
-- 
2.43.0


From 196fdddd1b05998f724442bf23e5c360815c9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:34 +0000
Subject: [PATCH 36/55] fix: KPM::calc_conductivity dereferenced null for a
 direction like 'xa'

Only one of the letters had to be valid.
---
 cppcore/src/KPM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index 99d860d..d98a022 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -133,8 +133,8 @@ std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> cons
 ArrayXd KPM::calc_conductivity(ArrayXd const& chemical_potential, double broadening,
                                double temperature, string_view direction, idx_t num_random,
                                idx_t num_points) const {
-    auto const xyz = std::string("xyz");
-    if (direction.size() != 2 || xyz.find_first_of(direction) == std::string::npos) {
+    auto const is_xyz = [](char c) { return c == 'x' || c == 'y' || c == 'z'; };
+    if (direction.size() != 2 || !std::all_of(direction.begin(), direction.end(), is_xyz)) {
         throw std::logic_error("Invalid direction: must be 'xx', 'xy', 'zz', or similar.");
     }
 
-- 
2.43.0


From ca4132ab98207981060c1fd556ea99c19c5a18d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:00 +0000
Subject: [PATCH 37/55] fix: KPM accepted counts and broadenings which are not
 positive

They led to out of range access, endless allocation or meaningless results.
---
 cppcore/src/KPM.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index d98a022..c67c778 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -4,6 +4,20 @@ using namespace fmt::literals;
 
 namespace cpb {
 
+namespace {
+    void check_broadening(double broadening) {
+        if (!(broadening > 0)) { // also rejects NaN
+            throw std::invalid_argument("KPM: the broadening must be positive.");
+        }
+    }
+
+    void check_num_random(idx_t num_random) {
+        if (num_random < 1) {
+            throw std::invalid_argument("KPM: at least one random vector is required.");
+        }
+    }
+} // anonymous namespace
+
 KPM::KPM(Model const& model, kpm::Compute const& compute, kpm::Config const& config)
     : model(model.eval()), core(kpm::Core(model.hamiltonian(), compute, config)) {}
 
@@ -20,6 +34,10 @@ std::string KPM::report(bool shortform) const {
 
 ArrayXcd KPM::moments(idx_t num_moments, VectorXcd const& alpha, VectorXcd const& beta,
                       SparseMatrixXcd const& op) const {
+    if (num_moments < 0) {
+        throw std::invalid_argument("KPM: the number of moments must not be negative.");
+    }
+
     auto const ham_size =  model.system()->hamiltonian_size();
     auto const check_size = std::unordered_map<char const*, bool>{
         {"alpha", alpha.size() == model.system()->hamiltonian_size()},
@@ -56,6 +74,8 @@ ArrayXcd KPM::moments(idx_t num_moments, VectorXcd const& alpha, VectorXcd const
 
 ArrayXXdCM KPM::calc_ldos(ArrayXd const& energy, double broadening, Cartesian position,
                           string_view sublattice, bool reduce) const {
+    check_broadening(broadening);
+
     auto const system_index = model.system()->find_nearest(position, sublattice);
     auto const ham_idx = model.system()->to_hamiltonian_indices(system_index);
 
@@ -72,6 +92,8 @@ ArrayXXdCM KPM::calc_spatial_ldos(ArrayXd const& energy, double broadening, Shap
         throw std::runtime_error("This function doesn't currently support multi-orbital models");
     }
 
+    check_broadening(broadening);
+
     auto const& system = *model.system();
 
     calculation_timer.tic();
@@ -96,6 +118,9 @@ ArrayXXdCM KPM::calc_spatial_ldos(ArrayXd const& energy, double broadening, Shap
 }
 
 ArrayXd KPM::calc_dos(ArrayXd const& energy, double broadening, idx_t num_random) const {
+    check_broadening(broadening);
+    check_num_random(num_random);
+
     calculation_timer.tic();
     auto dos = core.dos(energy, broadening, num_random);
     calculation_timer.toc();
@@ -107,6 +132,7 @@ ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double br
     if (row < 0 || row >= size || col < 0 || col >= size) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
+    check_broadening(broadening);
 
     calculation_timer.tic();
     auto greens_function = core.greens(row, col, energy, broadening);
@@ -123,6 +149,7 @@ std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> cons
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
+    check_broadening(broadening);
 
     calculation_timer.tic();
     auto greens_functions = core.greens_vector(row, cols, energy, broadening);
@@ -137,6 +164,11 @@ ArrayXd KPM::calc_conductivity(ArrayXd const& chemical_potential, double broaden
     if (direction.size() != 2 || !std::all_of(direction.begin(), direction.end(), is_xyz)) {
         throw std::logic_error("Invalid direction: must be 'xx', 'xy', 'zz', or similar.");
     }
+    check_broadening(broadening);
+    check_num_random(num_random);
+    if (num_points < 2) {
+        throw std::invalid_argument("KPM: at least two points are required for integration.");
+    }
 
     auto const& system = *model.system();
     auto const& p = model.is_multiorbital() ? system.expanded_positions() : system.positions;
-- 
2.43.0


From 02ddfb8d8b76c01f317106ab40054a48ad514853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:00 +0000
Subject: [PATCH 38/55] fix: KPM crashed for a shape without any sites or an
 empty list of columns

---
 cppcore/src/KPM.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index c67c778..a8e62e7 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -111,6 +111,10 @@ ArrayXXdCM KPM::calc_spatial_ldos(ArrayXd const& energy, double broadening, Shap
         return v;
     }();
 
+    if (indices.empty()) {
+        return ArrayXXdCM(energy.size(), 0);
+    }
+
     auto results = core.ldos(indices, energy, broadening);
     calculation_timer.toc();
 
@@ -150,6 +154,9 @@ std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> cons
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
     check_broadening(broadening);
+    if (cols.empty()) {
+        return {};
+    }
 
     calculation_timer.tic();
     auto greens_functions = core.greens_vector(row, cols, energy, broadening);
-- 
2.43.0


From 0c20ef059f573de37607e71b4b53b92166012af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:51 +0000
Subject: [PATCH 39/55] fix: Lead indices were wrong if a generator followed a
 site removal

The sites which are removed by a modifier after a generator must also be
taken out of the lead indices when the next generator finalizes them.
---
 cppcore/src/Model.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 1944bab..2437ba4 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -183,6 +183,11 @@ std::shared_ptr<System> Model::make_system() const {
     }
 
     for (auto const& modifier : system_modifiers) {
+        if (is_generator(modifier)) {
+            // A generator must not see any invalid sites, but the leads need to keep up
+            _leads.remove_invalid(sys->is_valid);
+            detail::remove_invalid(*sys);
+        }
         apply(modifier, *sys);
     }
 
-- 
2.43.0


From c7f3cbf356333c00f4ab7b892b936de5cc44b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:09 +0000
Subject: [PATCH 40/55] fix: Modifiers reshaped the caller's arrays in place

---
 pybinding/modifier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybinding/modifier.py b/pybinding/modifier.py
index ac25ab3..e7206cb 100644
--- a/pybinding/modifier.py
+++ b/pybinding/modifier.py
@@ -43,8 +43,7 @@ def _process_modifier_args(args, keywords, requested_argnames):
         if isinstance(obj, str):
             return AliasIndex(SplitName(obj), shape, orbs)
         elif isinstance(obj, np.ndarray) and obj.size == shape[0]:
-            obj.shape = shape
-            return obj
+            return obj.reshape(shape)
         else:
             return obj
 
-- 
2.43.0


From 359724672b9975e6600253080783fa155e68a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:09 +0000
Subject: [PATCH 41/55] fix: Modifier results which are not contiguous were
 read in the wrong order

---
 pybinding/modifier.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pybinding/modifier.py b/pybinding/modifier.py
index e7206cb..e0eb522 100644
--- a/pybinding/modifier.py
+++ b/pybinding/modifier.py
@@ -110,11 +110,8 @@ def _sanitize_modifier_result(result, args, expected_num_return, can_be_complex)
                                 " (precision is flexible)".format(r.dtype, prime_arg.dtype))
 
     def moveaxis(r):
-        """If the result is a new contiguous array, the axis needs to be moved back"""
-        if r.ndim == 3 and r.flags["OWNDATA"] and r.flags["C_CONTIGUOUS"]:
-            return np.moveaxis(r, 0, 2).copy()
-        else:
-            return r
+        """Move the axis back and make sure that the data is contiguous (the C++ side reads it raw)"""
+        return np.ascontiguousarray(np.moveaxis(r, 0, 2) if r.ndim == 3 else r)
 
     result = tuple(map(cast, result))
     result = tuple(map(moveaxis, result))
-- 
2.43.0


From 2e2cea31b9d2c5e3b4f18af1c6a4cedcffbf5635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:09 +0000
Subject: [PATCH 42/55] fix: Shape.with_offset was wrong for lines and short
 vectors and composites lost their height

---
 pybinding/shape.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pybinding/shape.py b/pybinding/shape.py
index 2012fe8..12dd6dc 100644
--- a/pybinding/shape.py
+++ b/pybinding/shape.py
@@ -47,6 +47,13 @@ def _plot_freeform_shape(vertices, contains, resolution=(1000, 1000), **kwargs):
     return im
 
 
+def _pad(vector):
+    """Return a 3D copy of a vector in 1 to 3 dimensions"""
+    v = np.zeros(3)
+    v[:len(vector)] = vector
+    return v
+
+
 class _CompositionMixin:
     """Provides logical and arithmetic operators to form composite shapes"""
     def __and__(self, other):
@@ -85,7 +92,8 @@ class Line(_cpp.Line):
 
     def with_offset(self, vector):
         """Return a copy that's offset by the given vector"""
-        return Line(self.a + vector[0], self.b + vector[1])
+        v = _pad(vector)[:2]
+        return Line(self.a + v, self.b + v)
 
     def plot(self, **kwargs):
         """Show the line
@@ -113,8 +121,7 @@ class Polygon(_cpp.Polygon, _CompositionMixin):
 
     def with_offset(self, vector):
         """Return a copy that's offset by the given vector"""
-        v = np.zeros(3)
-        v[:len(vector)] = vector
+        v = _pad(vector)
         return Polygon([v0 + v for v0 in self.vertices])
 
     def plot(self, **kwargs):
@@ -156,11 +163,11 @@ class FreeformShape(_cpp.FreeformShape, _CompositionMixin):
 
     def with_offset(self, vector):
         """Return a copy that's offset by the given vector"""
+        v = _pad(vector)
+
         def contains(x, y, z):
-            r0 = [x, y, z]
-            r = [v0 - v for v0, v in zip(r0, vector)] + r0[len(vector):]
-            return self.contains(*r)
-        return FreeformShape(contains, self.width, self.center[:len(vector)] + vector)
+            return self.contains(x - v[0], y - v[1], z - v[2])
+        return FreeformShape(contains, self.width, _pad(self.center) + v)
 
     def plot(self, resolution=(1000, 1000), **kwargs):
         """Plot a lightly shaded silhouette of the freeform shape
@@ -197,22 +204,23 @@ class CompositeShape(_cpp.Shape, _CompositionMixin):
         # This is a wasteful in some situations (e.g. intersections) but its always safe and
         # quick to code using scipy's implementation. Performance isn't an issue here for now
         # but revisit this if it becomes a concern.
-        hull = ConvexHull(np.array(shape1.vertices + shape2.vertices)[:, :2])
-        vertices = hull.points[hull.vertices]
+        points = np.array(shape1.vertices + shape2.vertices)
+        hull = ConvexHull(points[:, :2])
+        # The convex hull in the xy plane, at the bottom and the top (the same for 2D shapes)
+        vertices = [(x, y, z) for z in np.unique([points[:, 2].min(), points[:, 2].max()])
+                    for x, y in hull.points[hull.vertices]]
 
         super().__init__(vertices, lambda x, y, z: op(shape1.contains(x, y, z),
                                                       shape2.contains(x, y, z)))
 
     def with_offset(self, vector):
         """Return a copy that's offset by the given vector"""
+        v = _pad(vector)
+
         def contains(x, y, z):
-            r0 = [x, y, z]
-            r = [v0 - v for v0, v in zip(r0, vector)] + r0[len(vector):]
-            return self.contains(*r)
+            return self.contains(x - v[0], y - v[1], z - v[2])
 
         shape = CompositeShape.__new__(CompositeShape)
-        v = np.zeros(3)
-        v[:len(vector)] = vector
         vertices = [v0 + v for v0 in self.vertices]
         super(CompositeShape, shape).__init__(vertices, contains)
         return shape
-- 
2.43.0


From 3dce53b72ccdb420f146b29e222f268075b56d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:09 +0000
Subject: [PATCH 43/55] fix: Sites without ids could not be indexed

---
 pybinding/support/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/support/structure.py b/pybinding/support/structure.py
index 62f9b10..518e257 100644
--- a/pybinding/support/structure.py
+++ b/pybinding/support/structure.py
@@ -173,7 +173,7 @@ class Sites(AbstractSites):
         return getattr(self, "_ids", np.zeros_like(self._x, dtype=np.int8))
 
     def __getitem__(self, item):
-        return self.__class__([v[item] for v in self.positions], self._ids[item])
+        return self.__class__([v[item] for v in self.positions], self.ids[item])
 
 
 class AbstractHoppings(metaclass=ABCMeta):
-- 
2.43.0


From 99ff5d478503165d98d5e9c932746189de009418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:09 +0000
Subject: [PATCH 44/55] fix: AliasArray could not compare multidimensional
 arrays with unknown aliases

---
 pybinding/support/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/support/alias.py b/pybinding/support/alias.py
index 30761b3..7f8cb3c 100644
--- a/pybinding/support/alias.py
+++ b/pybinding/support/alias.py
@@ -45,7 +45,7 @@ class AliasArray(np.ndarray):
         if other in self.mapping:
             return super().__eq__(self.mapping[other])
         else:
-            result = np.zeros(len(self), dtype=np.bool)
+            result = np.zeros(self.shape, dtype=np.bool)
             for k, v in self.mapping.items():
                 if k == other:
                     result = np.logical_or(result, super().__eq__(v))
-- 
2.43.0


From 0fa8b5d66d88e87aeeeaaebfa6b26ae43a5d7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:09 +0000
Subject: [PATCH 45/55] fix: The sum of FuzzySets changed its first operand

---
 pybinding/support/fuzzy_set.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pybinding/support/fuzzy_set.py b/pybinding/support/fuzzy_set.py
index aca17fe..39d8390 100644
--- a/pybinding/support/fuzzy_set.py
+++ b/pybinding/support/fuzzy_set.py
@@ -29,12 +29,11 @@ class FuzzySet:
         return self
 
     def __add__(self, other):
+        ret = copy.copy(self)
+        ret.data = list(self.data)
         if isinstance(other, FuzzySet):
-            ret = copy.copy(self)
             ret += other
-            return ret
-        else:
-            return copy.copy(self)
+        return ret
 
     def __radd__(self, other):
         return self + other
-- 
2.43.0


From cafccd2e2b0b4f9c6fe387831e8bfd7b767ee13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:09 +0000
Subject: [PATCH 46/55] fix: Pickled properties were not restored

---
 pybinding/support/pickle.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pybinding/support/pickle.py b/pybinding/support/pickle.py
index ff1fd2e..14e8b93 100644
--- a/pybinding/support/pickle.py
+++ b/pybinding/support/pickle.py
@@ -96,10 +96,9 @@ def pickleable(props="", version: int=0):
             ))
 
         self.__dict__.update(state["dict"])
-        props_state = {name: value for name, value in state.get("props", {})
-                       if name in props}
-        for name, value in props_state:
-            setattr(self, name, value)
+        for name, value in state.get("props", {}).items():
+            if name in props:
+                setattr(self, name, value)
 
     def decorator(cls):
         cls.__getstate__ = getstate
-- 
2.43.0


From 5dbf8ab292a12ded0635bae5ee89c3f2ddaebbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:09 +0000
Subject: [PATCH 47/55] fix: SpatialMap did not accept data without a size
 attribute

---
 pybinding/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index dddffe3..2b52628 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -224,7 +224,7 @@ class SpatialMap:
         else:
             self._sites = Sites(positions, sublattices)
 
-        if self.num_sites != data.size:
+        if self.num_sites != self._data.size:
             raise RuntimeError("Data size doesn't match number of sites")
 
     @property
-- 
2.43.0


From d60ecc8379ff2d7ac618157680f0071427cbe17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:10 +0000
Subject: [PATCH 48/55] fix: Probability at a position used the site index in
 place of the Hamiltonian index

---
 pybinding/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybinding/solver.py b/pybinding/solver.py
index 37e9c97..00a55a7 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -117,11 +117,12 @@ class Solver:
         -------
         :class:`~pybinding.Eigenvalues`
         """
-        if not map_probability_at:
+        if map_probability_at is None:
             return results.Eigenvalues(self.eigenvalues)
         else:
             site_idx = self.system.find_nearest(position=map_probability_at)
-            probability = abs(self.eigenvectors[site_idx, :])**2
+            ham_idx = np.atleast_1d(self.system.to_hamiltonian_indices(site_idx))
+            probability = np.sum(abs(self.eigenvectors[ham_idx, :])**2, axis=0)
 
             # sum probabilities of degenerate states
             for idx in self.find_degenerate_states(self.eigenvalues):
-- 
2.43.0


From 8ed329bb7c6a41c1b982e69c8b73b9e9630e1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:10 +0000
Subject: [PATCH 49/55] fix: kwant's number of orbitals per site

---
 pybinding/support/kwant.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybinding/support/kwant.py b/pybinding/support/kwant.py
index 99e635f..fd512fe 100644
--- a/pybinding/support/kwant.py
+++ b/pybinding/support/kwant.py
@@ -59,9 +59,8 @@ class KwantFiniteSystem(FiniteSystem):
         if not return_norb:
             return matrix
         else:
-            subs = self.pb_model.system.sublattices
-            norb = self.pb_model.system.impl.compressed_sublattices.orbital_counts
-            to_norb = norb[subs]
+            cs = self.pb_model.system.impl.compressed_sublattices
+            to_norb = np.repeat(cs.orbital_counts, cs.site_counts)
             from_norb = to_norb
             return matrix, to_norb, from_norb
 
-- 
2.43.0


From b4e167a2d3d1f532af50735c27f2be9604a90550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:10 +0000
Subject: [PATCH 50/55] fix: make_path did not check the sizes of all k-points
 and failed for segments shorter than a step

---
 pybinding/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index 2b52628..4dfc117 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -141,13 +141,13 @@ def make_path(k0, k1, *ks, step=0.1):
     True
     """
     k_points = [np.atleast_1d(k) for k in (k0, k1) + ks]
-    if not all(k.shape == k_points[0].shape for k in k_points[:1]):
+    if not all(k.shape == k_points[0].shape for k in k_points[1:]):
         raise RuntimeError("All k-points must have the same shape")
 
     k_paths = []
     point_indices = [0]
     for k_start, k_end in zip(k_points[:-1], k_points[1:]):
-        num_steps = int(np.linalg.norm(k_end - k_start) // step)
+        num_steps = max(1, int(np.linalg.norm(k_end - k_start) // step))
         # k_path.shape == num_steps, k_space_dimensions
         k_path = np.array([np.linspace(s, e, num_steps, endpoint=False)
                            for s, e in zip(k_start, k_end)]).T
-- 
2.43.0


From 4b4a058c3ff14fb7419df3729f9b70c8ad179f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:10 +0000
Subject: [PATCH 51/55] fix: Sweep indexing with a scalar, mirroring an invalid
 axis and grids with current NumPy

---
 pybinding/results.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index 4dfc117..66a01fe 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -800,7 +800,10 @@ class Sweep:
         else:
             idx_x = item
             idx_y = slice(None)
-        return self._with_data(self.x[idx_x], self.y[idx_y], self.data[idx_x, idx_y])
+        x, y, data = self.x[idx_x], self.y[idx_y], self.data[idx_x, idx_y]
+        if data.size == np.size(x) * np.size(y):
+            data = data.reshape(np.size(x), np.size(y))  # a scalar index removes an axis
+        return self._with_data(x, y, data)
 
     def _with_data(self, x, y, data):
         return self.__class__(x, y, data, self.labels, self.tags)
@@ -814,7 +817,7 @@ class Sweep:
     def _xy_grids(self):
         """Expand x and y into 2D arrays matching data."""
         xgrid = np.column_stack([self.x] * self.y.size)
-        ygrid = np.row_stack([self.y] * self.x.size)
+        ygrid = np.vstack([self.y] * self.x.size)
         return xgrid, ygrid
 
     def save_txt(self, filename):
@@ -872,7 +875,7 @@ class Sweep:
             data = np.hstack((self.data[:, ::-1], self.data[:, 1:]))
             return self._with_data(self.x, y, data)
         else:
-            RuntimeError("Invalid axis")
+            raise RuntimeError("Invalid axis")
 
     def interpolated(self, mul=None, size=None, kind='linear'):
         """Return a copy with interpolate data using :class:`scipy.interpolate.interp1d`
-- 
2.43.0


From 0221a7274abc0255a6a2195068bee494eb8ec0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:58 +0000
Subject: [PATCH 52/55] fix: keep the radius of each site with the site in 3D
 plots

The circles are sorted by their depth before they are drawn. The positions and
colors were sorted, but the radii were not.
---
 pybinding/support/collections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybinding/support/collections.py b/pybinding/support/collections.py
index 2b95ce9..2105334 100644
--- a/pybinding/support/collections.py
+++ b/pybinding/support/collections.py
@@ -36,6 +36,7 @@ class CircleCollection(Collection):
 class Circle3DCollection(CircleCollection):
     def __init__(self, radius, zs=0, zdir='z', depthshade=True, **kwargs):
         super().__init__(radius, **kwargs)
+        self._radius0 = self.radius
         self._depthshade = depthshade
         self.set_3d_properties(zs, zdir)
         self._A0 = self._A
@@ -72,6 +73,8 @@ class Circle3DCollection(CircleCollection):
 
         self.set_offsets(v[:2, idx].transpose())
         super().set_array(self._A0[idx])
+        if self._radius0.size > 1:
+            self.radius = self._radius0[idx]
 
         fcs = zalpha(self._facecolor3d, vzs) if self._depthshade else self._facecolor3d
         fcs = mcolors.colorConverter.to_rgba_array(fcs, self._alpha)
-- 
2.43.0


From 59b3abf5cada90e5b1b1db0d28a6568fcf29c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:58 +0000
Subject: [PATCH 53/55] fix: do not change the caller's hopping matrix in
 plot_hoppings

`tocoo()` returns the same object for COO matrices, so that `draw_only` removed
hoppings from the argument.
---
 pybinding/system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybinding/system.py b/pybinding/system.py
index e4d2825..fa28322 100644
--- a/pybinding/system.py
+++ b/pybinding/system.py
@@ -5,6 +5,7 @@ import itertools
 import numpy as np
 import matplotlib.pyplot as plt
 from matplotlib.collections import LineCollection
+from scipy.sparse import coo_matrix
 
 from . import _cpp
 from . import pltutils
@@ -382,9 +383,8 @@ def plot_hoppings(positions, hoppings, width=1.0, offset=(0, 0, 0), blend=1.0, c
         keep = np.zeros_like(hoppings.data, dtype=np.bool)
         for hop_id in draw_only:
             keep = np.logical_or(keep, hoppings.data == hop_id)
-        hoppings.data = hoppings.data[keep]
-        hoppings.col = hoppings.col[keep]
-        hoppings.row = hoppings.row[keep]
+        hoppings = coo_matrix((hoppings.data[keep], (hoppings.row[keep], hoppings.col[keep])),
+                              shape=hoppings.shape)
 
     ax = plt.gca()
     ndims = 3 if ax.name == '3d' else 2
-- 
2.43.0


From d33a531ec6578b211a5079ae5dc343ead8c6c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:58 +0000
Subject: [PATCH 54/55] fix: reciprocal vectors of lattices in any orientation

Only the first `ndim` rows of the lattice vectors were inverted. The matrix was
singular for e.g. 1D lattices along y and 2D lattices in the xz plane, and 1D
lattices along any other direction got a wrong Brillouin zone.
---
 pybinding/lattice.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pybinding/lattice.py b/pybinding/lattice.py
index 8a1182c..c5b05c2 100644
--- a/pybinding/lattice.py
+++ b/pybinding/lattice.py
@@ -295,11 +295,8 @@ class Lattice:
         >>> np.allclose(lat.reciprocal_vectors(), [[-2*pi, 2*pi, 0], [4*pi, 0, 0]])
         True
         """
-        n = self.ndim
-        mat = np.column_stack(self.vectors)[:n]
-        mat = 2 * pi * np.linalg.inv(mat).T
-        mat = np.vstack([mat, np.zeros(shape=(3 - n, n))])
-        return [v.squeeze() for v in np.hsplit(mat, n)]
+        # The pseudo-inverse also covers lattices which do not lie along x or in the xy plane
+        return list(2 * pi * np.linalg.pinv(np.column_stack(self.vectors)))
 
     def brillouin_zone(self):
         """Return a list of vertices which form the Brillouin zone (1D and 2D only)
-- 
2.43.0


From 50503b846faaba17054141c41bdc6df43599468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:58 +0000
Subject: [PATCH 55/55] fix: Brillouin zone of lattices with skewed primitive
 vectors

The nearest reciprocal lattice points are combinations of the shortest primitive
vectors, but not of any primitive vectors. The zone came out too large or the
calculation failed with an assertion.
---
 pybinding/lattice.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pybinding/lattice.py b/pybinding/lattice.py
index c5b05c2..70193a4 100644
--- a/pybinding/lattice.py
+++ b/pybinding/lattice.py
@@ -321,18 +321,22 @@ class Lattice:
             l = np.linalg.norm(v1)
             return [-l/2, l/2]
         elif self.ndim == 2:
-            # The closest reciprocal lattice points are combinations of the primitive vectors
-            vectors = self.reciprocal_vectors()
-            points = [sum(n * v for n, v in zip(ns, vectors))
-                      for ns in itertools.product([-1, 0, 1], repeat=self.ndim)]
-
+            # The closest reciprocal lattice points are combinations of the shortest primitive
+            # vectors. If the given ones are skewed, reduce them first (Lagrange-Gauss).
+            v1, v2 = sorted(self.reciprocal_vectors(), key=np.linalg.norm)
+            while True:
+                v2 = v2 - np.round(np.dot(v1, v2) / np.dot(v1, v1)) * v1
+                if np.linalg.norm(v2) >= np.linalg.norm(v1) * (1 - 1e-5):
+                    break
+                v1, v2 = v2, v1
+
+            ns = list(itertools.product([-1, 0, 1], repeat=self.ndim))
             # Voronoi doesn't like trailing zeros in coordinates
-            vor = Voronoi([p[:self.ndim] for p in points])
+            vor = Voronoi([(n1 * v1 + n2 * v2)[:self.ndim] for n1, n2 in ns])
 
-            # See scipy's Voronoi documentation for details (-1 indicates infinity)
-            finite_regions = [r for r in vor.regions if len(r) != 0 and -1 not in r]
-            assert len(finite_regions) == 1
-            bz_vertices = [vor.vertices[i] for i in finite_regions[0]]
+            # The zone is the region which surrounds the origin
+            region = vor.regions[vor.point_region[ns.index((0, 0))]]
+            bz_vertices = [vor.vertices[i] for i in region]
 
             # sort counter-clockwise
             return sorted(bz_vertices, key=lambda v: atan2(v[1], v[0]))
-- 
2.43.0

