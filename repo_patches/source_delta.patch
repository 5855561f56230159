From 8fb46601f88717585955f23cc1836de8e0190f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 01/15] fix: Gauss-Legendre/Lobatto convergence threshold for
 low-precision point types

The Newton iteration compared successive iterates against the epsilon of
double whatever the point type, so that in single precision it oscillated
by one ulp and threw 'Failed to Converge' for most orders (223 of the first
300 Gauss-Legendre rules).
---
 include/integratorxx/quadratures/primitive/gausslegendre.hpp | 5 ++++-
 include/integratorxx/quadratures/primitive/gausslobatto.hpp  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/quadratures/primitive/gausslegendre.hpp b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
index a5ea0d0..873f2bf 100644
--- a/include/integratorxx/quadratures/primitive/gausslegendre.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
@@ -2,6 +2,8 @@
 
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/legendre.hpp>
+#include <algorithm>
+#include <limits>
 #include <vector>
 
 namespace IntegratorXX {
@@ -46,7 +48,8 @@ struct quadrature_traits<
     weight_container weights( npts );
 
     // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    const double eps = std::max<double>(std::numeric_limits<double>::epsilon(),
+                                       std::numeric_limits<PointType>::epsilon());
 
     // Since the rules are symmetric around the origin, we only need
     // to compute one half of the points
diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index 49a510d..4661bc7 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -2,6 +2,8 @@
 
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/legendre.hpp>
+#include <algorithm>
+#include <limits>
 #include <vector>
 
 namespace IntegratorXX {
@@ -36,7 +38,8 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
     weight_container weights(npts);
 
     // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    const double eps = std::max<double>(std::numeric_limits<double>::epsilon(),
+                                       std::numeric_limits<PointType>::epsilon());
 
     // 2/(n(n-1)) appears in many expressions
     weight_type two_ov_nnm1 = 2.0 / (npts * (npts - 1.0));
-- 
2.43.0


From a59a6f5fd310efcf6555a26d31a87823a5228122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 02/15] fix: sign of the weight in the (-inf,up) interval map,
 missing includes

x' = b - (1-x)/(1+x) is increasing with dx'/dx = 2/(1+x)^2, so the mapped
weights came out negative. The header also used assert and std::tuple
without including what declares them.
---
 include/integratorxx/util/bound_transform.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index dcf4ecd..e66123d 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cassert>
 #include <limits>
+#include <tuple>
 
 namespace IntegratorXX {
 
@@ -38,12 +40,12 @@ constexpr inline auto transform_minus_one_to_one(
     // x' = a + \frac{(1+x)}{(1-x)}
     pt   = lo  + (1 + pt) / (1 - pt);
 
-  // Upper bound is finite, low is infinite: Map (-1,1) -> (inf,up)
+  // Upper bound is finite, low is infinite: Map (-1,1) -> (-inf,up)
   } else if( !up_is_inf ) {
 
     // Factor jacobian into the weights
-    // dx' = - \frac{2}{(1+x)^2} dx
-    wgt *= -2.0  / ( (1 + pt) * (1 + pt) );
+    // dx' = \frac{2}{(1+x)^2} dx
+    wgt *= 2.0  / ( (1 + pt) * (1 + pt) );
 
     // Perform the coordinate shift
     // x' = b - \frac{(1-x)}{(1+x)}
-- 
2.43.0


From b685b27ef8c5ec07f39ca8b60ba5b61d8ef19f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 03/15] fix: reject unsupported angular grid sizes

The S2 quadratures document that construction fails for a number of points
that has no tabulated grid, but returned a grid of zero points with zero
weights instead.
---
 include/integratorxx/quadratures/s2/ahrens_beylkin.hpp | 3 +++
 include/integratorxx/quadratures/s2/delley.hpp         | 3 +++
 include/integratorxx/quadratures/s2/lebedev_laikov.hpp | 3 +++
 include/integratorxx/quadratures/s2/womersley.hpp      | 5 +++++
 4 files changed, 14 insertions(+)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index bf83484..f3e47ed 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -162,6 +163,8 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
       detail::copy_grid<ahrens_beylkin_7512<RealType>>(points, weights);
     else if (npts == 15012)
       detail::copy_grid<ahrens_beylkin_15012<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Ahrens-Beylkin Grid Size");
 
     return std::make_tuple(points, weights);
   }
diff --git a/include/integratorxx/quadratures/s2/delley.hpp b/include/integratorxx/quadratures/s2/delley.hpp
index bbb58e8..29b1d6e 100644
--- a/include/integratorxx/quadratures/s2/delley.hpp
+++ b/include/integratorxx/quadratures/s2/delley.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/quadratures/s2/delley/delley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -85,6 +86,8 @@ struct quadrature_traits<Delley<RealType>> {
       detail::copy_grid<delley_3074<RealType>>(points, weights);
     else if(npts == 3470)
       detail::copy_grid<delley_3470<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Delley Grid Size");
 
     // Pretabulated weights are missing 4 pi
     for(auto i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
index 6d5adb6..21da1c1 100644
--- a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
+++ b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/lebedev_laikov/lebedev_laikov_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -107,6 +108,8 @@ struct quadrature_traits< LebedevLaikov<RealType> > {
       detail::copy_grid<lebedev_laikov_4802<RealType>>( points, weights );
     else if( npts == 5810 ) 
       detail::copy_grid<lebedev_laikov_5810<RealType>>( points, weights );
+    else
+      throw std::runtime_error("Unsupported Lebedev-Laikov Grid Size");
 
     // Pretabulated weights are missing 4 pi
     for(size_t i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/womersley.hpp b/include/integratorxx/quadratures/s2/womersley.hpp
index 6394f9d..a1e73a0 100644
--- a/include/integratorxx/quadratures/s2/womersley.hpp
+++ b/include/integratorxx/quadratures/s2/womersley.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/util/create_array.hpp>
 #include <integratorxx/quadratures/s2/womersley/womersley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -184,6 +185,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_7814<RealType>>(points, weights);
     else if(npts == 7939)
       detail::copy_grid<womersley_7939<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Womersley Grid Size");
   }
 
   inline static std::tuple<point_container, weight_container> generate(
@@ -319,6 +322,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_1923<RealType>>(points, weights);
     else if(npts == 1986)
       detail::copy_grid<womersley_1986<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Womersley Grid Size");
     return std::make_tuple(points, weights);
   }
 
-- 
2.43.0


From c4f485bd5c6480ba228f9a972de830f79d63399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 04/15] fix: restore the face-centre orbit of the order-39
 Ahrens-Beylkin grid

The table for algebraic order 39 lacked the orbit of the 20 face centres of
the icosahedron: its 552 weights summed to 4 pi - 0.46 and constants were
already integrated wrongly. The orbit and its weight follow from the rest of
the table (sum of weights = 4 pi); with it the 572-point grid integrates every
spherical harmonic up to order 39 to 1e-13.
---
 .../quadratures/s2/ahrens_beylkin.hpp         |  8 +--
 ...beylkin_552.hpp => ahrens_beylkin_572.hpp} | 54 ++++++++++++++++---
 .../ahrens_beylkin/ahrens_beylkin_grids.hpp   |  2 +-
 3 files changed, 52 insertions(+), 12 deletions(-)
 rename include/integratorxx/quadratures/s2/ahrens_beylkin/{ahrens_beylkin_552.hpp => ahrens_beylkin_572.hpp} (96%)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index f3e47ed..006e6d1 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -65,8 +65,8 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
       detail::copy_grid<ahrens_beylkin_432<RealType>>(points, weights);
     else if (npts == 492)
       detail::copy_grid<ahrens_beylkin_492<RealType>>(points, weights);
-    else if (npts == 552)
-      detail::copy_grid<ahrens_beylkin_552<RealType>>(points, weights);
+    else if (npts == 572)
+      detail::copy_grid<ahrens_beylkin_572<RealType>>(points, weights);
     else if (npts == 612)
       detail::copy_grid<ahrens_beylkin_612<RealType>>(points, weights);
     else if (npts == 672)
@@ -186,7 +186,7 @@ inline static int64_t npts_by_algebraic_order(int64_t order) {
   case 37:
     return 492;
   case 39:
-    return 552;
+    return 572;
   case 41:
     return 612;
   case 44:
@@ -304,7 +304,7 @@ inline static int64_t algebraic_order_by_npts(int64_t npts) {
     return 35;
   case 492:
     return 37;
-  case 552:
+  case 572:
     return 39;
   case 612:
     return 41;
diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_552.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_572.hpp
similarity index 96%
rename from include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_552.hpp
rename to include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_572.hpp
index fb94c85..c251cb6 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_552.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_572.hpp
@@ -4,13 +4,13 @@ namespace IntegratorXX {
 namespace AhrensBeylkinGrids {
 
 /**
- *  \brief Ahrens-Beylkin Quadrature specification for order 39 grid with 552 points
+ *  \brief Ahrens-Beylkin Quadrature specification for order 39 grid with 572 points
  * 
  */
 template <typename T>
-struct ahrens_beylkin_552 {
+struct ahrens_beylkin_572 {
 
-  static constexpr std::array<cartesian_pt_t<T>,552> points = {
+  static constexpr std::array<cartesian_pt_t<T>,572> points = {
       0.000000000000000E+00,         -0.5257311121191336,          0.8506508083520399,
       0.000000000000000E+00,         -0.5257311121191336,         -0.8506508083520399,
          0.8506508083520399,       0.000000000000000E+00,         -0.5257311121191336,
@@ -562,11 +562,31 @@ struct ahrens_beylkin_552 {
         -0.2259658694618002,         -0.5800790710566041,         -0.7825903763530957,
          0.9253661398725639,         -0.1478259322018848,          0.3490630329123873,
          0.3490630329123873,         -0.9253661398725639,          0.1478259322018848,
-         0.7825903763530957,         -0.2259658694618002,          0.5800790710566041
-};
+         0.7825903763530957,         -0.2259658694618002,          0.5800790710566041,
+         0.3568220897730899,      0.000000000000000E+00,         0.9341723589627157,
+         0.5773502691896258,        -0.5773502691896258,         0.5773502691896258,
+        -0.5773502691896258,        -0.5773502691896258,         0.5773502691896258,
+      0.000000000000000E+00,        -0.9341723589627157,         0.3568220897730899,
+        -0.3568220897730899,      0.000000000000000E+00,         0.9341723589627157,
+         0.3568220897730899,      0.000000000000000E+00,        -0.9341723589627157,
+         0.5773502691896258,        -0.5773502691896258,        -0.5773502691896258,
+        -0.5773502691896258,        -0.5773502691896258,        -0.5773502691896258,
+      0.000000000000000E+00,        -0.9341723589627157,        -0.3568220897730899,
+        -0.3568220897730899,      0.000000000000000E+00,        -0.9341723589627157,
+         0.9341723589627157,        -0.3568220897730899,      0.000000000000000E+00,
+         0.9341723589627157,         0.3568220897730899,      0.000000000000000E+00,
+         0.5773502691896258,         0.5773502691896258,        -0.5773502691896258,
+         0.5773502691896258,         0.5773502691896258,         0.5773502691896258,
+        -0.5773502691896258,         0.5773502691896258,        -0.5773502691896258,
+      0.000000000000000E+00,         0.9341723589627157,        -0.3568220897730899,
+        -0.5773502691896258,         0.5773502691896258,         0.5773502691896258,
+      0.000000000000000E+00,         0.9341723589627157,         0.3568220897730899,
+        -0.9341723589627157,         0.3568220897730899,      0.000000000000000E+00,
+        -0.9341723589627157,        -0.3568220897730899,      0.000000000000000E+00
+  };
 
 
-static constexpr std::array<T,552> weights = {      2.127696997824436E-02,
+static constexpr std::array<T,572> weights = {      2.127696997824436E-02,
       2.127696997824436E-02,
       2.127696997824436E-02,
       2.127696997824436E-02,
@@ -1117,7 +1137,27 @@ static constexpr std::array<T,552> weights = {      2.127696997824436E-02,
       2.098163883176400E-02,
       2.098163883176400E-02,
       2.098163883176400E-02,
-      2.098163883176400E-02
+      2.098163883176400E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02
 };
 };
 }}
\ No newline at end of file
diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp
index a08b39a..e487a87 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp
@@ -9,7 +9,7 @@
 #include "ahrens_beylkin_372.hpp"
 #include "ahrens_beylkin_432.hpp"
 #include "ahrens_beylkin_492.hpp"
-#include "ahrens_beylkin_552.hpp"
+#include "ahrens_beylkin_572.hpp"
 #include "ahrens_beylkin_612.hpp"
 #include "ahrens_beylkin_672.hpp"
 #include "ahrens_beylkin_732.hpp"
-- 
2.43.0


From 8799644d3301ca29290d87cb59d427e3704a0b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 05/15] fix: pruning schemes for small radial quadratures

With fewer than four radial points the Robust and Treutler schemes produced
empty or reversed regions ending beyond the radial quadrature, and generating
the grid read out of bounds. Empty regions are left out. The radial partition
also rejected (in debug builds) a last region of a single radial point.
---
 .../pruned_spherical_quadrature.hpp           |  2 +-
 .../generators/impl/robust_pruning.hpp        | 20 ++++++++++++-------
 .../generators/impl/treutler_pruning.hpp      | 20 ++++++++++++-------
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index d90305f..7fcdc06 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -35,7 +35,7 @@ public:
   void add_quad( const RadialQuad& rq, size_t idx, 
 		  const Quadrature<AngularQuad>& q ) { 
     assert(partition_idx_.size() ?
-      (idx > partition_idx_.back() && idx < (rq.npts()-1)) : (idx == 0));
+      (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
     (void)(rq);
 
     partition_idx_.emplace_back(idx);
diff --git a/include/integratorxx/generators/impl/robust_pruning.hpp b/include/integratorxx/generators/impl/robust_pruning.hpp
index f397fea..4428f4d 100644
--- a/include/integratorxx/generators/impl/robust_pruning.hpp
+++ b/include/integratorxx/generators/impl/robust_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -29,13 +31,17 @@ PrunedSphericalGridSpecification robust_psi4_pruning_scheme_impl(
   UnprunedSphericalGridSpecification unp ) {
 
   const size_t rsz = unp.radial_traits->npts();
-  const size_t r_div_4 = rsz / 4ul + 1ul;
-  const size_t r_div_2 = rsz / 2ul + 1ul;
-  std::vector<PruningRegion> pruning_regions = {
-    {0ul,     r_div_4, angular_quad, low_sz},
-    {r_div_4, r_div_2, angular_quad, med_sz},
-    {r_div_2,     rsz, angular_quad, unp.angular_size}
-  };
+  const size_t r_div_4 = std::min(rsz, rsz / 4ul + 1ul);
+  const size_t r_div_2 = std::min(rsz, rsz / 2ul + 1ul);
+
+  // Regions which are empty for small radial quadratures are left out
+  std::vector<PruningRegion> pruning_regions;
+  if(r_div_4 > 0)
+    pruning_regions.push_back({0ul,     r_div_4, angular_quad, low_sz});
+  if(r_div_2 > r_div_4)
+    pruning_regions.push_back({r_div_4, r_div_2, angular_quad, med_sz});
+  if(rsz > r_div_2)
+    pruning_regions.push_back({r_div_2,     rsz, angular_quad, unp.angular_size});
 
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
diff --git a/include/integratorxx/generators/impl/treutler_pruning.hpp b/include/integratorxx/generators/impl/treutler_pruning.hpp
index d59a107..c4317c4 100644
--- a/include/integratorxx/generators/impl/treutler_pruning.hpp
+++ b/include/integratorxx/generators/impl/treutler_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -21,13 +23,17 @@ PrunedSphericalGridSpecification treutler_pruning_scheme_impl(
   UnprunedSphericalGridSpecification unp ) {
 
   const size_t rsz = unp.radial_traits->npts();
-  const size_t r_div_3 = rsz / 3ul + 1ul;
-  const size_t r_div_2 = rsz / 2ul + 1ul;
-  std::vector<PruningRegion> pruning_regions = {
-    {0ul,     r_div_3, angular_quad, low_sz},
-    {r_div_3, r_div_2, angular_quad, med_sz},
-    {r_div_2, rsz,     angular_quad, unp.angular_size}
-  };
+  const size_t r_div_3 = std::min(rsz, rsz / 3ul + 1ul);
+  const size_t r_div_2 = std::min(rsz, rsz / 2ul + 1ul);
+
+  // Regions which are empty for small radial quadratures are left out
+  std::vector<PruningRegion> pruning_regions;
+  if(r_div_3 > 0)
+    pruning_regions.push_back({0ul,     r_div_3, angular_quad, low_sz});
+  if(r_div_2 > r_div_3)
+    pruning_regions.push_back({r_div_3, r_div_2, angular_quad, med_sz});
+  if(rsz > r_div_2)
+    pruning_regions.push_back({r_div_2, rsz,     angular_quad, unp.angular_size});
 
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
-- 
2.43.0


From 0b6d9bb0803bfb130e900d6c219729b3e6cc9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 06/15] fix: reject pruning regions which do not tile the
 radial quadrature

The end index of a pruning region was ignored: gaps, overlaps and regions
which stop short of or exceed the radial quadrature were silently turned into
different regions, and unordered ones read out of bounds.
---
 include/integratorxx/generators/impl/pruned_grid.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/integratorxx/generators/impl/pruned_grid.hpp b/include/integratorxx/generators/impl/pruned_grid.hpp
index c69e036..4c55295 100644
--- a/include/integratorxx/generators/impl/pruned_grid.hpp
+++ b/include/integratorxx/generators/impl/pruned_grid.hpp
@@ -39,6 +39,16 @@ auto make_pruned_grid(const RadialQuadType& rq,
       throw std::runtime_error("Mixed Angular Pruning Not Supported");
   }
 
+  // The regions must cover the radial quadrature, in order and without gaps
+  size_t next_idx = 0;
+  for(const auto& r : pruning_regions) {
+    if(r.idx_st != next_idx || r.idx_en <= r.idx_st)
+      throw std::runtime_error("Pruning Regions Must Be Contiguous");
+    next_idx = r.idx_en;
+  }
+  if(next_idx != rq.npts())
+    throw std::runtime_error("Pruning Regions Must Cover Radial Quadrature");
+
   switch(angular_quad) {
     case AngularQuad::AhrensBeylkin:
       return make_pruned_grid_impl<ah_type>(rq, pruning_regions);
-- 
2.43.0


From bc1a04eeb2f6ad2aabd8dc127ae29809bc4efeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 07/15] fix: report unset radial traits in the pruning schemes

As create_pruned_spec and generate_grid do, instead of dereferencing null.
---
 include/integratorxx/generators/impl/robust_pruning.hpp   | 1 +
 include/integratorxx/generators/impl/treutler_pruning.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/integratorxx/generators/impl/robust_pruning.hpp b/include/integratorxx/generators/impl/robust_pruning.hpp
index 4428f4d..944ccc0 100644
--- a/include/integratorxx/generators/impl/robust_pruning.hpp
+++ b/include/integratorxx/generators/impl/robust_pruning.hpp
@@ -55,6 +55,7 @@ PrunedSphericalGridSpecification robust_psi4_pruning_scheme_impl(
 PrunedSphericalGridSpecification robust_psi4_pruning_scheme(
   UnprunedSphericalGridSpecification unp ) {
 
+  if(!unp.radial_traits) throw std::runtime_error("RadialTraits Not Set");
   size_t low_sz, med_sz;
   const auto angular_quad = unp.angular_quad;
   const auto asz = unp.angular_size;
diff --git a/include/integratorxx/generators/impl/treutler_pruning.hpp b/include/integratorxx/generators/impl/treutler_pruning.hpp
index c4317c4..1fe670d 100644
--- a/include/integratorxx/generators/impl/treutler_pruning.hpp
+++ b/include/integratorxx/generators/impl/treutler_pruning.hpp
@@ -48,6 +48,7 @@ PrunedSphericalGridSpecification treutler_pruning_scheme_impl(
 PrunedSphericalGridSpecification treutler_pruning_scheme(
   UnprunedSphericalGridSpecification unp ) {
 
+  if(!unp.radial_traits) throw std::runtime_error("RadialTraits Not Set");
   size_t low_sz, med_sz;
   const auto angular_quad = unp.angular_quad;
   switch(angular_quad) {
-- 
2.43.0


From b5c41e552333ecb149868a394af7b634aaf68f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 08/15] fix: iterators of the batcher and the radial partition

operator+ advanced its operand in place, constant batch iterators could not
be compared (the operators took the non-constant iterator), and the post
increment of the constant radial partition iterator returned the non-constant
type.
---
 .../batch/spherical_micro_batcher.hpp          | 18 ++++++++----------
 .../pruned_spherical_quadrature.hpp            |  8 +++-----
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 03c848b..18bfc7a 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -275,13 +275,12 @@ class SphericalMicroBatcher {
       return retval;
     }
 
-    iterator& operator+(int i) {
-      idx_it += i;
-      return *this;
+    iterator operator+(int i) const {
+      return iterator( idx_it + i, point_begin, weight_begin );
     } 
 
-    bool operator==( iterator other ){ return idx_it == other.idx_it; }
-    bool operator!=( iterator other ){ return !(*this == other);   }
+    bool operator==( iterator other ) const { return idx_it == other.idx_it; }
+    bool operator!=( iterator other ) const { return !(*this == other);   }
 
 
 
@@ -346,13 +345,12 @@ class SphericalMicroBatcher {
       return retval;
     }
 
-    const_iterator& operator+(int i) {
-      idx_it += i;
-      return *this;
+    const_iterator operator+(int i) const {
+      return const_iterator( idx_it + i, point_begin, weight_begin );
     } 
 
-    bool operator==( iterator other ){ return idx_it == other.idx_it; }
-    bool operator!=( iterator other ){ return !(*this == other);   }
+    bool operator==( const_iterator other ) const { return idx_it == other.idx_it; }
+    bool operator!=( const_iterator other ) const { return !(*this == other);   }
 
 
 
diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 7fcdc06..24c7d50 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -98,15 +98,13 @@ public:
 
     rgp_iterator& operator++(){ idx_it++; quad_it++; return *this; }
     rgp_iterator  operator++(int) {
-      iterator retval = *this;
+      rgp_iterator retval = *this;
       ++(*this);
       return retval;
     }
 
-    rgp_iterator& operator+(int i) {
-      idx_it  += i;
-      quad_it += i;
-      return (*this);
+    rgp_iterator operator+(int i) const {
+      return rgp_iterator( idx_it + i, quad_it + i );
     }
 
     bool operator==(rgp_iterator other) const { 
-- 
2.43.0


From e545f8b59af158e7cc28dc25180393445e7dafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 09/15] fix: batch generation for inseparable points, empty
 quadratures and size zero

Refinement only splits batches geometrically, so that more coincident points
than fit one batch, or a maximum batch size of zero, looped forever; an empty
quadrature dereferenced the end of its points.
---
 .../integratorxx/batch/spherical_micro_batcher.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 18bfc7a..40f8366 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -513,6 +513,11 @@ public:
 template <typename PointContainer, typename WeightContainer>
 std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::generate_batches() {
 
+  if( max_batch_sz_ == 0 )
+    throw std::runtime_error("Maximum Batch Size Must Be Positive");
+
+  // No batches in an empty quadrature
+  if( quad_->npts() == 0 ) return { 0 };
 
 
   std::vector<std::pair<point_type, weight_type>> q( quad_->npts() );
@@ -562,6 +567,15 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
       auto batch_part_its = 
         detail::partition_box( npart_batch, bbox_lo, bbox_up, batch_st, batch_en );
 
+      // Points which cannot be separated (e.g. coincide) are split by number
+      if( batch_part_its.size() <= 2 ) {
+        auto it = batch_st;
+        for( auto n = part_counts[ip]; n > max_batch_sz_; n -= max_batch_sz_ ) {
+          it += max_batch_sz_;
+          batch_part_its.emplace_back( it );
+        }
+      }
+
       new_part_its.insert( new_part_its.end(), batch_part_its.begin(), 
         batch_part_its.end() );
     } 
-- 
2.43.0


From 69debedc6669a1e6859367bc97418a8e4afe0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 10/15] fix: missing standard includes in the composite and
 batch headers

They did not compile unless <memory> had been included first.
---
 include/integratorxx/batch/spherical_micro_batcher.hpp         | 3 +++
 .../integratorxx/composite_quadratures/product_quadrature.hpp  | 2 ++
 include/integratorxx/util/legendre.hpp                         | 1 +
 3 files changed, 6 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 40f8366..d2d2eb1 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -2,9 +2,12 @@
 
 #include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
 #include <integratorxx/type_traits.hpp>
+#include <algorithm>
 #include <chrono>
 #include <iostream>
 #include <iomanip>
+#include <memory>
+#include <stdexcept>
 #include <vector>
 #include <array>
 
diff --git a/include/integratorxx/composite_quadratures/product_quadrature.hpp b/include/integratorxx/composite_quadratures/product_quadrature.hpp
index 4268570..fce6ebc 100644
--- a/include/integratorxx/composite_quadratures/product_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/product_quadrature.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <integratorxx/quadrature.hpp>
+#include <memory>
+#include <vector>
 
 namespace IntegratorXX {
 
diff --git a/include/integratorxx/util/legendre.hpp b/include/integratorxx/util/legendre.hpp
index 3ad4615..13b376a 100644
--- a/include/integratorxx/util/legendre.hpp
+++ b/include/integratorxx/util/legendre.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstddef>
 #include <tuple>
 
 namespace IntegratorXX {
-- 
2.43.0


From 933498e27076663fb15295c980a9e73073731355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 11/15] fix: reject Gauss-Lobatto and trapezoid rules of fewer
 than two points

Both contain the two end points: one point gave infinite or undefined nodes
and weights, none wrote out of bounds.
---
 include/integratorxx/quadratures/primitive/gausslobatto.hpp | 6 ++++++
 include/integratorxx/quadratures/primitive/uniform.hpp      | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index 4661bc7..ddbe483 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/legendre.hpp>
 #include <algorithm>
 #include <limits>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -34,6 +35,11 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
 
   inline static std::tuple<point_container, weight_container> generate(
       size_t npts) {
+
+    // The end points are always nodes
+    if(npts < 2)
+      throw std::runtime_error("Gauss-Lobatto Requires At Least Two Points");
+
     point_container points(npts);
     weight_container weights(npts);
 
diff --git a/include/integratorxx/quadratures/primitive/uniform.hpp b/include/integratorxx/quadratures/primitive/uniform.hpp
index 30c3372..e52b1cb 100644
--- a/include/integratorxx/quadratures/primitive/uniform.hpp
+++ b/include/integratorxx/quadratures/primitive/uniform.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <integratorxx/quadrature.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -48,6 +49,10 @@ struct quadrature_traits<
   inline static std::tuple<point_container,weight_container>
     generate( size_t npts, point_type lo, point_type up ) {
 
+    // The end points are always nodes
+    if( npts < 2 )
+      throw std::runtime_error("Trapezoid Rule Requires At Least Two Points");
+
     const auto npts_use = npts - 1;
     const auto delta_x  = (up - lo) / npts_use;
     point_container  points( npts );
-- 
2.43.0


From 8757bc3b812ac8f7a63bea5d745b922f764b684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 12/15] fix: copy assignment of radial partitions

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 24c7d50..55b1848 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -60,9 +60,8 @@ public:
     quads_(std::move(other.quads_)){ };
 
   RadialGridPartition& operator=(const RadialGridPartition& other) {
-    partition_idx_ = other.partition_idx_;
-    quads_ = other.quads_;
-    return *this;
+    // Quadratures are not assignable, replace the storage instead
+    return *this = RadialGridPartition(other);
   }
   RadialGridPartition& operator=(RadialGridPartition&& other) {
     partition_idx_ = std::move(other.partition_idx_);
-- 
2.43.0


From 5cd39eb1882569b4b28eb0a02df19783b1e50889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 13/15] fix: weights of sub-quadratures with distinct point and
 weight types

---
 include/integratorxx/composite_quadratures/sub_quadrature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/sub_quadrature.hpp b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
index 15809a4..b19700f 100644
--- a/include/integratorxx/composite_quadratures/sub_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
@@ -55,8 +55,8 @@ struct quadrature_traits<
 
       point_container points( quad.points().begin() + begin_idx,
                               quad.points().begin() + end_idx );
-      point_container weights( quad.weights().begin() + begin_idx,
-                              quad.weights().begin() + end_idx );
+      weight_container weights( quad.weights().begin() + begin_idx,
+                                quad.weights().begin() + end_idx );
 
       return std::make_tuple( points, weights );
     }
-- 
2.43.0


From ffbaa7533223fde4c4c2013572671b17d67d61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 14/15] fix: include what create_array.hpp and copy_grid.hpp
 use

Neither header compiled when it was the first to be included.
---
 include/integratorxx/util/copy_grid.hpp    | 2 ++
 include/integratorxx/util/create_array.hpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/integratorxx/util/copy_grid.hpp b/include/integratorxx/util/copy_grid.hpp
index 9d670c8..770c2fb 100644
--- a/include/integratorxx/util/copy_grid.hpp
+++ b/include/integratorxx/util/copy_grid.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
diff --git a/include/integratorxx/util/create_array.hpp b/include/integratorxx/util/create_array.hpp
index f853964..ef2549f 100644
--- a/include/integratorxx/util/create_array.hpp
+++ b/include/integratorxx/util/create_array.hpp
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <array>
+#include <cstddef>
+#include <utility>
+
 namespace IntegratorXX {
 
 namespace detail {
-- 
2.43.0


From a646e8a7ec2876f421fd6707d81b47465ee27b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 15/15] fix: radial partitions without regions can be finalized
 and walked

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 55b1848..d41112f 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -45,7 +45,7 @@ public:
 
   template <typename RadialQuad>
   void finalize( const RadialQuad& rq ) {
-    if( partition_idx_.back() != rq.npts() )
+    if( partition_idx_.empty() || partition_idx_.back() != rq.npts() )
       partition_idx_.emplace_back( rq.npts() ); 
   }
 
@@ -127,21 +127,21 @@ public:
     return iterator( partition_idx_.begin(), quads_.begin() );
   }
   iterator end() {
-    return iterator( partition_idx_.end()-1, quads_.end() );
+    return iterator( partition_idx_.begin() + quads_.size(), quads_.end() );
   }
 
   const_iterator cbegin() const {
     return const_iterator( partition_idx_.cbegin(), quads_.cbegin() );
   }
   const_iterator cend() const {
-    return const_iterator( partition_idx_.cend()-1, quads_.cend() );
+    return const_iterator( partition_idx_.cbegin() + quads_.size(), quads_.cend() );
   }
 
   const_iterator begin() const {
     return const_iterator( partition_idx_.cbegin(), quads_.cbegin() );
   }
   const_iterator end() const {
-    return const_iterator( partition_idx_.cend()-1, quads_.cend() );
+    return const_iterator( partition_idx_.cbegin() + quads_.size(), quads_.cend() );
   }
 };
 
-- 
2.43.0

