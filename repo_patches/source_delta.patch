From 0aa0b0054842730f31a1c61da3392c0460a553e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:33 +0000
Subject: [PATCH 01/15] fix: prediction of order >= 2 dropped part of the mixed
 corrections in 2D and 3D

The nested corrections started the inner sum at the outer index, so e.g. the
order 2 prediction in 2D ignored the diagonal neighbours and was not symmetric
in x and y.
---
 include/samurai/numeric/prediction.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/samurai/numeric/prediction.hpp b/include/samurai/numeric/prediction.hpp
index b205eae..815bd97 100644
--- a/include/samurai/numeric/prediction.hpp
+++ b/include/samurai/numeric/prediction.hpp
@@ -142,8 +142,8 @@ namespace samurai
         {
             using coord_index_t = typename interval_t::coord_index_t;
             return xt::eval(m_c[s - 1]
-                                * (m_e(std::integral_constant<std::size_t, s + 1>{}, level, i + static_cast<coord_index_t>(s), index...)
-                                   - m_e(std::integral_constant<std::size_t, s + 1>{}, level, i - static_cast<coord_index_t>(s), index...))
+                                * (m_e(std::integral_constant<std::size_t, 1>{}, level, i + static_cast<coord_index_t>(s), index...)
+                                   - m_e(std::integral_constant<std::size_t, 1>{}, level, i - static_cast<coord_index_t>(s), index...))
                             + operator()(std::integral_constant<std::size_t, s + 1>{}, level, i, index...));
         }
 
@@ -152,8 +152,8 @@ namespace samurai
         {
             using coord_index_t = typename interval_t::coord_index_t;
             return xt::eval(m_c[slim - 1]
-                            * (m_e(std::integral_constant<std::size_t, slim>{}, level, i + static_cast<coord_index_t>(slim), index...)
-                               - m_e(std::integral_constant<std::size_t, slim>{}, level, i - static_cast<coord_index_t>(slim), index...)));
+                            * (m_e(std::integral_constant<std::size_t, 1>{}, level, i + static_cast<coord_index_t>(slim), index...)
+                               - m_e(std::integral_constant<std::size_t, 1>{}, level, i - static_cast<coord_index_t>(slim), index...)));
         }
 
         T m_e;
@@ -190,8 +190,8 @@ namespace samurai
         operator()(std::integral_constant<std::size_t, s>, std::size_t level, const interval_t& i, const coord_index_t j, const index_t... index)
         {
             return xt::eval(m_c[s - 1]
-                                * (m_e(std::integral_constant<std::size_t, s + 1>{}, level, i, j + static_cast<coord_index_t>(s), index...)
-                                   - m_e(std::integral_constant<std::size_t, s + 1>{}, level, i, j - static_cast<coord_index_t>(s), index...))
+                                * (m_e(std::integral_constant<std::size_t, 1>{}, level, i, j + static_cast<coord_index_t>(s), index...)
+                                   - m_e(std::integral_constant<std::size_t, 1>{}, level, i, j - static_cast<coord_index_t>(s), index...))
                             + operator()(std::integral_constant<std::size_t, s + 1>{}, level, i, j, index...));
         }
 
@@ -203,8 +203,8 @@ namespace samurai
                                const index_t... index)
         {
             return xt::eval(m_c[slim - 1]
-                            * (m_e(std::integral_constant<std::size_t, slim>{}, level, i, j + static_cast<coord_index_t>(slim), index...)
-                               - m_e(std::integral_constant<std::size_t, slim>{}, level, i, j - static_cast<coord_index_t>(slim), index...)));
+                            * (m_e(std::integral_constant<std::size_t, 1>{}, level, i, j + static_cast<coord_index_t>(slim), index...)
+                               - m_e(std::integral_constant<std::size_t, 1>{}, level, i, j - static_cast<coord_index_t>(slim), index...)));
         }
 
         T m_e;
@@ -241,8 +241,8 @@ namespace samurai
         operator()(std::integral_constant<std::size_t, s>, std::size_t level, const interval_t& i, const coord_index_t j, const coord_index_t k)
         {
             return xt::eval(m_c[s - 1]
-                                * (m_e(std::integral_constant<std::size_t, s + 1>{}, level, i, j, k + static_cast<coord_index_t>(s))
-                                   - m_e(std::integral_constant<std::size_t, s + 1>{}, level, i, j, k - static_cast<coord_index_t>(s)))
+                                * (m_e(std::integral_constant<std::size_t, 1>{}, level, i, j, k + static_cast<coord_index_t>(s))
+                                   - m_e(std::integral_constant<std::size_t, 1>{}, level, i, j, k - static_cast<coord_index_t>(s)))
                             + operator()(std::integral_constant<std::size_t, s + 1>{}, level, i, j, k));
         }
 
@@ -254,8 +254,8 @@ namespace samurai
                                const coord_index_t k)
         {
             return xt::eval(m_c[slim - 1]
-                            * (m_e(std::integral_constant<std::size_t, slim>{}, level, i, j, k + static_cast<coord_index_t>(slim))
-                               - m_e(std::integral_constant<std::size_t, slim>{}, level, i, j, k - static_cast<coord_index_t>(slim))));
+                            * (m_e(std::integral_constant<std::size_t, 1>{}, level, i, j, k + static_cast<coord_index_t>(slim))
+                               - m_e(std::integral_constant<std::size_t, 1>{}, level, i, j, k - static_cast<coord_index_t>(slim))));
         }
 
         T m_e;
-- 
2.43.0


From 0fff2cfbd35386dff0ef46a8c922fe8a1f5b7685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:07 +0000
Subject: [PATCH 02/15] fix: edge and corner ghosts outside the domain were
 never filled in 3D

convert_for_direction ignored all but one of the non-zero components of a diagonal 3D direction other than
the first ones, and the cells next to an edge of the domain were removed from the extrapolated subset by a
null translation, so that the diagonal ghosts read by the 3D prediction kept whatever value they had.
---
 include/samurai/bc.hpp      | 18 ++++++++++++++----
 include/samurai/stencil.hpp | 11 +++++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/samurai/bc.hpp b/include/samurai/bc.hpp
index 7e42efc..7aecbef 100644
--- a/include/samurai/bc.hpp
+++ b/include/samurai/bc.hpp
@@ -1024,10 +1024,20 @@ namespace samurai
                                 }
                                 else if constexpr (dim == 3)
                                 {
-                                    auto subset = difference(domain,
-                                                             union_(translate(domain, one_interval * direction_t{-dir[0], 0, 0}),
-                                                                    translate(domain, one_interval * direction_t{0, -dir[1], 0}),
-                                                                    translate(domain, one_interval * direction_t{0, 0, -dir[2]})));
+                                    // In an edge direction, the component equal to 0 is replaced by one of the others
+                                    // (a null translation would make the subset empty).
+                                    int i0      = (dir[0] != 0) ? 0 : 1;
+                                    int i2      = (dir[2] != 0) ? 2 : 1;
+                                    int i1      = (dir[1] != 0) ? 1 : i2;
+                                    auto normal = [&](int i)
+                                    {
+                                        direction_t n{0, 0, 0};
+                                        n[i] = -one_interval * dir[i];
+                                        return n;
+                                    };
+                                    auto subset = difference(
+                                        domain,
+                                        union_(translate(domain, normal(i0)), translate(domain, normal(i1)), translate(domain, normal(i2))));
                                     __apply_extrapolation_bc_on_subset<stencil_size>(bc, level, field, dir, subset, only_fill_ghost_neighbours);
                                 }
                             }
diff --git a/include/samurai/stencil.hpp b/include/samurai/stencil.hpp
index 2bc132a..8507567 100644
--- a/include/samurai/stencil.hpp
+++ b/include/samurai/stencil.hpp
@@ -414,6 +414,17 @@ namespace samurai
         {
             stencil_in_d = direction[0] * stencil_in_x;
         }
+        else if (dim == 3 && !is_cartesian(direction))
+        {
+            // Edge or corner direction: the line along x becomes the line along 'direction'.
+            for (std::size_t i = 0; i < stencil_size; ++i)
+            {
+                for (std::size_t k = 0; k < dim; ++k)
+                {
+                    stencil_in_d(i, k) = stencil_in_x(i, 0) * direction(k);
+                }
+            }
+        }
         else
         {
             // We apply to each vector in the stencil the rotation matrix
-- 
2.43.0


From f11c37bc0fc64f3dc73afa036a22d3abf73e0edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:08 +0000
Subject: [PATCH 03/15] fix: linear upwind convection of a vector field mixed
 its components

---
 .../schemes/fv/operators/convection_lin.hpp   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/samurai/schemes/fv/operators/convection_lin.hpp b/include/samurai/schemes/fv/operators/convection_lin.hpp
index 21a2544..acf5395 100644
--- a/include/samurai/schemes/fv/operators/convection_lin.hpp
+++ b/include/samurai/schemes/fv/operators/convection_lin.hpp
@@ -48,8 +48,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = velocity(d);
-                            xt::col(coeffs[right], d) = 0;
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[left](i, i) = velocity(d);
+                            }
                         }
                         return coeffs;
                     };
@@ -68,8 +70,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = 0;
-                            xt::col(coeffs[right], d) = velocity(d);
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[right](i, i) = velocity(d);
+                            }
                         }
                         return coeffs;
                     };
@@ -178,8 +182,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = velocity(d);
-                            xt::col(coeffs[right], d) = 0;
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[left](i, i) = velocity(d);
+                            }
                         }
                     }
                     else // use the right values
@@ -193,8 +199,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = 0;
-                            xt::col(coeffs[right], d) = velocity(d);
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[right](i, i) = velocity(d);
+                            }
                         }
                     }
                     return coeffs;
-- 
2.43.0


From f08a520a28defd4f1162b8168884e157670db84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:49 +0000
Subject: [PATCH 04/15] fix: convection schemes kept a reference to the
 velocity vector of the caller

---
 include/samurai/schemes/fv/operators/convection_lin.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/samurai/schemes/fv/operators/convection_lin.hpp b/include/samurai/schemes/fv/operators/convection_lin.hpp
index acf5395..883d5d8 100644
--- a/include/samurai/schemes/fv/operators/convection_lin.hpp
+++ b/include/samurai/schemes/fv/operators/convection_lin.hpp
@@ -34,7 +34,7 @@ namespace samurai
 
                 if (velocity(d) >= 0) // use the left values
                 {
-                    upwind[d].cons_flux_function = [&](double)
+                    upwind[d].cons_flux_function = [velocity](double)
                     {
                         // Return type: 2 matrices (left, right) of size output_field_size x field_size.
                         // In this case, of size field_size x field_size.
@@ -58,7 +58,7 @@ namespace samurai
                 }
                 else // use the right values
                 {
-                    upwind[d].cons_flux_function = [&](double)
+                    upwind[d].cons_flux_function = [velocity](double)
                     {
                         FluxStencilCoeffs<cfg> coeffs;
                         if constexpr (output_field_size == 1)
@@ -115,7 +115,7 @@ namespace samurai
 
                 if (velocity(d) >= 0)
                 {
-                    weno5[d].cons_flux_function = [&velocity](auto& cells, const Field& u) -> FluxValue<cfg>
+                    weno5[d].cons_flux_function = [velocity](auto& cells, const Field& u) -> FluxValue<cfg>
                     {
                         Array<FluxValue<cfg>, 5> f({u[cells[0]], u[cells[1]], u[cells[2]], u[cells[3]], u[cells[4]]});
                         f *= velocity(d);
@@ -124,7 +124,7 @@ namespace samurai
                 }
                 else
                 {
-                    weno5[d].cons_flux_function = [&velocity](auto& cells, const Field& u) -> FluxValue<cfg>
+                    weno5[d].cons_flux_function = [velocity](auto& cells, const Field& u) -> FluxValue<cfg>
                     {
                         Array<FluxValue<cfg>, 5> f({u[cells[5]], u[cells[4]], u[cells[3]], u[cells[2]], u[cells[1]]});
                         f *= velocity(d);
-- 
2.43.0


From b414247d28c6bdfbeb7b88a330ff099eb4c8a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:36 +0000
Subject: [PATCH 05/15] fix: sum of two nonlinear flux-based schemes did not
 compile

---
 .../schemes/fv/flux_based/algebraic_operators.hpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp b/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp
index 1229652..d3450f8 100644
--- a/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp
+++ b/include/samurai/schemes/fv/flux_based/algebraic_operators.hpp
@@ -119,7 +119,7 @@ namespace samurai
                             return scheme1.flux_definition()[d].flux_function(cells, field)
                                  + scheme2.flux_definition()[d].flux_function(cells, field);
                         };
-                        sum_scheme.cons_flux_function = nullptr;
+                        sum_scheme.flux_definition()[d].cons_flux_function = nullptr;
                     }
                     else if (scheme1.flux_definition()[d].cons_flux_function && scheme2.flux_definition()[d].cons_flux_function)
                     {
@@ -128,7 +128,7 @@ namespace samurai
                             return scheme1.flux_definition()[d].cons_flux_function(cells, field)
                                  + scheme2.flux_definition()[d].cons_flux_function(cells, field);
                         };
-                        sum_scheme.flux_function = nullptr;
+                        sum_scheme.flux_definition()[d].flux_function = nullptr;
                     }
                     else
                     {
@@ -142,7 +142,7 @@ namespace samurai
                             return scheme1.flux_definition()[d].jacobian_function(cells, field)
                                  + scheme2.flux_definition()[d].jacobian_function(cells, field);
                         };
-                        sum_scheme.cons_jacobian_function = nullptr;
+                        sum_scheme.flux_definition()[d].cons_jacobian_function = nullptr;
                     }
                     else if (scheme1.flux_definition()[d].cons_jacobian_function && scheme2.flux_definition()[d].cons_jacobian_function)
                     {
@@ -151,7 +151,12 @@ namespace samurai
                             return scheme1.flux_definition()[d].cons_jacobian_function(cells, field)
                                  + scheme2.flux_definition()[d].cons_jacobian_function(cells, field);
                         };
-                        sum_scheme.flux_function = nullptr;
+                        sum_scheme.flux_definition()[d].jacobian_function = nullptr;
+                    }
+                    else if (!scheme1.flux_definition()[d].jacobian_function && !scheme1.flux_definition()[d].cons_jacobian_function
+                             && !scheme2.flux_definition()[d].jacobian_function && !scheme2.flux_definition()[d].cons_jacobian_function)
+                    {
+                        // no jacobian: nothing to do
                     }
                     else
                     {
-- 
2.43.0


From d39b679ac65e2a6ad2524c597366e8cc115125f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:36 +0000
Subject: [PATCH 06/15] fix: sum of two nonlinear cell-based schemes did not
 compile

---
 include/samurai/schemes/fv/cell_based/algebraic_operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp b/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp
index 884b635..80c7a11 100644
--- a/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp
+++ b/include/samurai/schemes/fv/cell_based/algebraic_operators.hpp
@@ -103,7 +103,7 @@ namespace samurai
             addition_scheme.local_scheme_function() = nullptr;
             if (scheme1.local_scheme_function() && scheme2.local_scheme_function())
             {
-                addition_scheme.local_scheme_function() = [=](stencil_cells_t& cells, const field_t& field)
+                addition_scheme.local_scheme_function() = [=](stencil_cells_t& cells, const auto& field)
                 {
                     return scheme1.local_scheme_function()(cells, field) + scheme2.local_scheme_function()(cells, field);
                 };
@@ -121,7 +121,7 @@ namespace samurai
             addition_scheme.local_jacobian_function() = nullptr;
             if (scheme1.local_jacobian_function() && scheme2.local_jacobian_function())
             {
-                addition_scheme.local_jacobian_function() = [=](stencil_cells_t& cells, const field_t& field)
+                addition_scheme.local_jacobian_function() = [=](stencil_cells_t& cells, const auto& field)
                 {
                     return scheme1.local_jacobian_function()(cells, field) + scheme2.local_jacobian_function()(cells, field);
                 };
-- 
2.43.0


From 4b9f17df5f3636e754e3e14128134fab901d531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:36 +0000
Subject: [PATCH 07/15] fix: adding a cell-based scheme to an operator sum
 modified the sum itself

---
 include/samurai/schemes/fv/scheme_operators.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/samurai/schemes/fv/scheme_operators.hpp b/include/samurai/schemes/fv/scheme_operators.hpp
index d9b4c86..4a1b43e 100644
--- a/include/samurai/schemes/fv/scheme_operators.hpp
+++ b/include/samurai/schemes/fv/scheme_operators.hpp
@@ -209,10 +209,11 @@ namespace samurai
 
     // OperatorSum + combinable CellBasedScheme
     template <class cfg, class bdry_cfg, class... Operators>
-    auto operator+(OperatorSum<Operators...>& sum_scheme, const CellBasedScheme<cfg, bdry_cfg>& scheme)
+    auto operator+(const OperatorSum<Operators...>& sum_scheme, const CellBasedScheme<cfg, bdry_cfg>& scheme)
         -> std::enable_if_t<scheme_is_combinable<CellBasedScheme<cfg, bdry_cfg>, Operators...>, OperatorSum<Operators...>>
     {
-        for_each(sum_scheme.operators(),
+        auto result = sum_scheme;
+        for_each(result.operators(),
                  [&](auto& op)
                  {
                      if constexpr (std::is_same_v<CellBasedScheme<cfg, bdry_cfg>, std::decay_t<decltype(op)>>)
@@ -220,12 +221,12 @@ namespace samurai
                          op = op + scheme;
                      }
                  });
-        return sum_scheme;
+        return result;
     }
 
     // combinable CellBasedScheme + OperatorSum
     template <class cfg, class bdry_cfg, class... Operators>
-    auto operator+(const CellBasedScheme<cfg, bdry_cfg>& scheme, OperatorSum<Operators...>& sum_scheme)
+    auto operator+(const CellBasedScheme<cfg, bdry_cfg>& scheme, const OperatorSum<Operators...>& sum_scheme)
         -> std::enable_if_t<scheme_is_combinable<CellBasedScheme<cfg, bdry_cfg>, Operators...>, OperatorSum<Operators...>>
     {
         return sum_scheme + scheme;
-- 
2.43.0


From fab11a48ffed27cf407ecd9c34fe8d60cf691d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:24 +0000
Subject: [PATCH 08/15] fix: iterating a CellArray across an empty level
 dereferenced an empty array

---
 include/samurai/cell_array.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/samurai/cell_array.hpp b/include/samurai/cell_array.hpp
index ce7d625..a5d38d8 100644
--- a/include/samurai/cell_array.hpp
+++ b/include/samurai/cell_array.hpp
@@ -607,7 +607,12 @@ namespace samurai
         ++m_lca_it;
         if (m_lca_it.level() < p_ca->max_level() && m_lca_it == (*p_ca)[m_lca_it.level()].end())
         {
-            m_lca_it = (*p_ca)[m_lca_it.level() + 1].begin();
+            auto level = m_lca_it.level() + 1;
+            while ((*p_ca)[level].empty())
+            {
+                ++level;
+            }
+            m_lca_it = (*p_ca)[level].begin();
         }
         return *this;
     }
@@ -622,7 +627,12 @@ namespace samurai
 
         if (m_lca_it.level() > p_ca->min_level() && m_lca_it == (*p_ca)[m_lca_it.level()].begin())
         {
-            m_lca_it = (*p_ca)[m_lca_it.level() - 1].end();
+            auto level = m_lca_it.level() - 1;
+            while ((*p_ca)[level].empty())
+            {
+                --level;
+            }
+            m_lca_it = (*p_ca)[level].end();
         }
         --m_lca_it;
         return *this;
-- 
2.43.0


From 83def81640e3b0f790cfe6f5bddb4ea55d9b29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:24 +0000
Subject: [PATCH 09/15] fix: traversing an empty LevelCellArray read its first
 interval

---
 include/samurai/algorithm.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/samurai/algorithm.hpp b/include/samurai/algorithm.hpp
index 2998e42..0421447 100644
--- a/include/samurai/algorithm.hpp
+++ b/include/samurai/algorithm.hpp
@@ -136,6 +136,11 @@ namespace samurai
     {
         using MeshInterval = typename LevelCellArray<dim, TInterval>::mesh_interval_t;
 
+        if (lca.empty())
+        {
+            return;
+        }
+
         for (auto it = lca.cbegin(); it != lca.cend(); ++it)
         {
             f(MeshInterval(lca.level(), *it, it.index()));
@@ -209,6 +214,11 @@ namespace samurai
         using index_value_t = typename cell_t::value_t;
         typename cell_t::indices_t index;
 
+        if (lca.empty())
+        {
+            return;
+        }
+
         for (auto it = lca.cbegin(); it != lca.cend(); ++it)
         {
             for (std::size_t d = 0; d < dim - 1; ++d)
@@ -231,6 +241,11 @@ namespace samurai
         using cell_t        = Cell<dim, TInterval>;
         using index_value_t = typename cell_t::value_t;
 
+        if (lca.empty())
+        {
+            return;
+        }
+
 #pragma omp parallel
 #pragma omp single nowait
         {
-- 
2.43.0


From 34c07d93d6c0c754f041fa4db7a082c4e7762375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:24 +0000
Subject: [PATCH 10/15] fix: for_each_cell over a set looked up the storage
 index before setting the row

---
 include/samurai/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/algorithm.hpp b/include/samurai/algorithm.hpp
index 0421447..4c603b5 100644
--- a/include/samurai/algorithm.hpp
+++ b/include/samurai/algorithm.hpp
@@ -291,8 +291,8 @@ namespace samurai
             [&](const auto& interval, const auto& index_yz)
             {
                 index[0]                         = interval.start;
-                auto cell_index                  = lca.get_index(index);
                 xt::view(index, xt::range(1, _)) = index_yz;
+                auto cell_index                  = lca.get_index(index);
                 for (index_value_t i = interval.start; i < interval.end; ++i)
                 {
                     index[0] = i;
-- 
2.43.0


From 53df1778d43738c16135780fceefc214f013074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:38 +0000
Subject: [PATCH 11/15] fix: make_field with a quadrature did not compile
 (GaussLegendre::quadrature not const)

---
 include/samurai/numeric/gauss_legendre.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samurai/numeric/gauss_legendre.hpp b/include/samurai/numeric/gauss_legendre.hpp
index 427223b..0658b06 100644
--- a/include/samurai/numeric/gauss_legendre.hpp
+++ b/include/samurai/numeric/gauss_legendre.hpp
@@ -28,7 +28,7 @@ namespace samurai
         }
 
         template <std::size_t func_result_size, std::size_t dim, class TInterval, class Func>
-        auto quadrature(const Cell<dim, TInterval>& cell, Func&& f)
+        auto quadrature(const Cell<dim, TInterval>& cell, Func&& f) const
         {
             const double half_h = cell.length / 2;
             if constexpr (func_result_size == 1)
@@ -49,7 +49,7 @@ namespace samurai
       private:
 
         template <std::size_t dim, class TInterval, class FuncResultType, class Func>
-        void compute_quadrature_sum(const Cell<dim, TInterval>& cell, FuncResultType& sum, Func&& f)
+        void compute_quadrature_sum(const Cell<dim, TInterval>& cell, FuncResultType& sum, Func&& f) const
         {
             static_assert(dim >= 1 && dim <= 3,
                           "The Gauss-Legendre quadrature is not implemented "
-- 
2.43.0


From a2c298c2034813de5d1ff9cee81c8bf867f99331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:53 +0000
Subject: [PATCH 12/15] fix: portion over a range reused the coefficients of
 another level difference

---
 include/samurai/reconstruction.hpp | 36 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/samurai/reconstruction.hpp b/include/samurai/reconstruction.hpp
index b7d9681..66b7037 100644
--- a/include/samurai/reconstruction.hpp
+++ b/include/samurai/reconstruction.hpp
@@ -458,18 +458,18 @@ namespace samurai
             using index_t = typename Field::interval_t::value_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, typename Field::interval_t>, prediction_map<1, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii});
+            auto iter = values.find({prediction_order, delta_l, ii});
             if (iter == values.end())
             {
                 for (auto ii_ = ii.start; ii_ < ii.end; ++ii_)
                 {
-                    values[{prediction_order, level, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
+                    values[{prediction_order, delta_l, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
                 }
             }
 
             auto result = xt::zeros_like(f(element, level, i));
 
-            for (const auto& kv : values[{prediction_order, level, ii}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(element, level, i + kv.first[0]);
@@ -508,18 +508,18 @@ namespace samurai
             using index_t = typename Field::interval_t::value_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, typename Field::interval_t>, prediction_map<1, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii});
+            auto iter = values.find({prediction_order, delta_l, ii});
             if (iter == values.end())
             {
                 for (auto ii_ = ii.start; ii_ < ii.end; ++ii_)
                 {
-                    values[{prediction_order, level, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
+                    values[{prediction_order, delta_l, ii}] += prediction<prediction_order, index_t>(delta_l, ii_);
                 }
             }
 
             auto result = xt::zeros_like(f(level, i));
 
-            for (const auto& kv : values[{prediction_order, level, ii}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(level, i + kv.first[0]);
@@ -568,7 +568,7 @@ namespace samurai
                                       prediction_map<2, index_t>>
                 values;
 
-            auto iter = values.find({prediction_order, level, ii, jj});
+            auto iter = values.find({prediction_order, delta_l, ii, jj});
 
             if (iter == values.end())
             {
@@ -576,13 +576,13 @@ namespace samurai
                 {
                     for (auto jj_ = jj.start; jj_ < jj.end; ++jj_)
                     {
-                        values[{prediction_order, level, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
+                        values[{prediction_order, delta_l, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
                     }
                 }
             }
             auto result = xt::zeros_like(f(element, level, i, j));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(element, level, i + kv.first[0], j + kv.first[1]);
@@ -627,7 +627,7 @@ namespace samurai
                                       prediction_map<2, index_t>>
                 values;
 
-            auto iter = values.find({prediction_order, level, ii, jj});
+            auto iter = values.find({prediction_order, delta_l, ii, jj});
 
             if (iter == values.end())
             {
@@ -635,13 +635,13 @@ namespace samurai
                 {
                     for (auto jj_ = jj.start; jj_ < jj.end; ++jj_)
                     {
-                        values[{prediction_order, level, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
+                        values[{prediction_order, delta_l, ii, jj}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_);
                     }
                 }
             }
             auto result = xt::zeros_like(f(level, i, j));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(level, i + kv.first[0], j + kv.first[1]);
@@ -692,7 +692,7 @@ namespace samurai
             using interval_t = typename Field::interval_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, interval_t, interval_t, interval_t>, prediction_map<3, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii, jj, kk});
+            auto iter = values.find({prediction_order, delta_l, ii, jj, kk});
 
             if (iter == values.end())
             {
@@ -702,14 +702,14 @@ namespace samurai
                     {
                         for (auto kk_ = kk.start; kk_ < kk.end; ++kk_)
                         {
-                            values[{prediction_order, level, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
+                            values[{prediction_order, delta_l, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
                         }
                     }
                 }
             }
             auto result = xt::zeros_like(f(element, level, i, j, k));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj, kk}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj, kk}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(element, level, i + kv.first[0], j + kv.first[1], k + kv.first[2]);
@@ -756,7 +756,7 @@ namespace samurai
             using interval_t = typename Field::interval_t;
             static std::unordered_map<std::tuple<std::size_t, std::size_t, interval_t, interval_t, interval_t>, prediction_map<3, index_t>> values;
 
-            auto iter = values.find({prediction_order, level, ii, jj, kk});
+            auto iter = values.find({prediction_order, delta_l, ii, jj, kk});
 
             if (iter == values.end())
             {
@@ -766,14 +766,14 @@ namespace samurai
                     {
                         for (auto kk_ = kk.start; kk_ < kk.end; ++kk_)
                         {
-                            values[{prediction_order, level, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
+                            values[{prediction_order, delta_l, ii, jj, kk}] += prediction<prediction_order, index_t>(delta_l, ii_, jj_, kk_);
                         }
                     }
                 }
             }
             auto result = xt::zeros_like(f(level, i, j, k));
 
-            for (const auto& kv : values[{prediction_order, level, ii, jj, kk}].coeff)
+            for (const auto& kv : values[{prediction_order, delta_l, ii, jj, kk}].coeff)
             {
                 // cppcheck-suppress useStlAlgorithm
                 result += kv.second * f(level, i + kv.first[0], j + kv.first[1], k + kv.first[2]);
-- 
2.43.0


From 56ddb131b401952c63038726773bb6d29fec7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:32 +0000
Subject: [PATCH 13/15] fix: swapping two meshes left their periodicity behind

---
 include/samurai/mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index 4f83875..f8993ab 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -523,6 +523,7 @@ namespace samurai
         swap(m_union, mesh.m_union);
         swap(m_max_level, mesh.m_max_level);
         swap(m_min_level, mesh.m_min_level);
+        swap(m_periodic, mesh.m_periodic);
     }
 
     template <class D, class Config>
-- 
2.43.0


From 65ff79de1f83bb835771246888ce29699f075c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:45 +0000
Subject: [PATCH 14/15] fix: UniformMesh could not be built from a level cell
 list

---
 include/samurai/uniform_mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/uniform_mesh.hpp b/include/samurai/uniform_mesh.hpp
index b600283..4338d12 100644
--- a/include/samurai/uniform_mesh.hpp
+++ b/include/samurai/uniform_mesh.hpp
@@ -101,7 +101,7 @@ namespace samurai
     template <class Config>
     inline UniformMesh<Config>::UniformMesh(const cl_type& cl)
     {
-        m_cells[mesh_id_t::cells] = {cl, false};
+        m_cells[mesh_id_t::cells] = {cl};
 
         update_sub_mesh();
         renumbering();
-- 
2.43.0


From 9029b6c68e2d76f3f818ed6c04001be2a8a70683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:08 +0000
Subject: [PATCH 15/15] fix: make_graduation keeps the origin and the scaling
 factor of the mesh

---
 include/samurai/graduation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/graduation.hpp b/include/samurai/graduation.hpp
index aa6c65d..88e5cd3 100644
--- a/include/samurai/graduation.hpp
+++ b/include/samurai/graduation.hpp
@@ -71,7 +71,7 @@ namespace samurai
                 }
             }
 
-            cl_type cl;
+            cl_type cl(mesh.origin_point(), mesh.scaling_factor());
             for_each_interval(mesh,
                               [&](std::size_t level, const auto& interval, const auto& index_yz)
                               {
-- 
2.43.0

