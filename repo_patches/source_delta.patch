From 8b0e1da01df2bf07a0c0e306b74d4a15936b493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 01/51] fix: list the known constituents in the order of their
 identifiers

---
 src/library/constituent.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/constituent.cpp b/src/library/constituent.cpp
index ec5e528..30f1e47 100644
--- a/src/library/constituent.cpp
+++ b/src/library/constituent.cpp
@@ -37,9 +37,9 @@ auto known() -> std::vector<std::string> {
           wave::name::kMSN6, wave::name::k2MS6, wave::name::k2MK6,
           wave::name::k2SM6, wave::name::kMSK6, wave::name::kS6,
           wave::name::kM8,   wave::name::kMSf,  wave::name::kSsa,
-          wave::name::kSa,   wave::name::kA5,   wave::name::kSa1,
-          wave::name::kSta,  wave::name::kMm2,  wave::name::kMm1,
-          wave::name::kMf1,  wave::name::kMf2,  wave::name::kM0};
+          wave::name::kSa,   wave::name::kSa1,  wave::name::kSta,
+          wave::name::kMm1,  wave::name::kMf1,  wave::name::kA5,
+          wave::name::kM0,   wave::name::kMm2,  wave::name::kMf2};
 }
 
 inline auto iequals(const std::string& a, const std::string& b) -> bool {
-- 
2.43.0


From 08583921b4ca44e34c7becec890008d11bfdd86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 02/51] fix: signs of the third and fourth order terms of the
 moon's mean elongation (Meeus 47.2)

---
 include/fes/angle/astronomic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/angle/astronomic.hpp b/include/fes/angle/astronomic.hpp
index faa91a6..e2affe7 100644
--- a/include/fes/angle/astronomic.hpp
+++ b/include/fes/angle/astronomic.hpp
@@ -500,7 +500,7 @@ FES_MATH_CONSTEXPR auto Astronomic::meeus(const double epoch,
   // Jean Meeus, Astronomical Algorithms, 2nd ed., 1998., Willmann-Bell, Inc.
   // Formula 47.2, page 338.
   auto d = detail::math::horner(jc, 297.8501921, 445267.1114034, -0.0018819,
-                                -1.0 / 545868.0, 1.0 / 113065000.0);
+                                1.0 / 545868.0, -1.0 / 113065000.0);
 
   // Mean longitude of sun (h)
   h_ = s_ - d;
-- 
2.43.0


From ecc2003f1af145d36eff1221e3cceb1fe9950527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 03/51] fix: sign of the nodal phase correction of 2SM2

---
 include/fes/wave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/wave.hpp b/include/fes/wave.hpp
index 752f026..81a40c3 100644
--- a/include/fes/wave.hpp
+++ b/include/fes/wave.hpp
@@ -918,7 +918,7 @@ class Eta2 : public Wave {
 class _2SM2 : public Wave {
  public:
   constexpr _2SM2()
-      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0,
+      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0,
              &angle::Astronomic::f_m2) {}
 };
 
-- 
2.43.0


From 4d3cdb915798ad03e02a733440e02fd50330d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 04/51] fix: take the lines of M0 out of the equilibrium tide
 when M0 is dynamic

---
 src/library/wave/long_period_equilibrium.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/wave/long_period_equilibrium.cpp b/src/library/wave/long_period_equilibrium.cpp
index 60a876d..6b1cf1f 100644
--- a/src/library/wave/long_period_equilibrium.cpp
+++ b/src/library/wave/long_period_equilibrium.cpp
@@ -146,6 +146,10 @@ LongPeriodEquilibrium::LongPeriodEquilibrium()
 
 auto LongPeriodEquilibrium::disable_dynamic_wave(const Table& table) -> void {
   // Indexes are the same as those defined starting from l.389
+  if (table[kM0]->dynamic()) {
+    order2_.row(0).fill(0);
+    order2_.row(1).fill(0);
+  }
   if (table[kMm]->dynamic()) {
     order2_.row(29).fill(0);
     order2_.row(30).fill(0);
-- 
2.43.0


From 21d8b489880c0f5120ee49b9043d20fade3043db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:16 +0000
Subject: [PATCH 05/51] fix: read the LGP1 code of the vertex a point coincides
 with

---
 include/fes/tidal_model/lgp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index f94361c..354b783 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -369,13 +369,13 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
 
   // In the case of extrapolation, if the projected point is one of the vertices
   // of the triangle, then we return values associated with this vertex. The
-  // LGP code of vertex 0 is at index 0, the code of vertex 1 is at index 2 and
-  // the code of vertex 3 is at index 4.
+  // LGP code of vertex 0 is at index 0, the code of vertex 1 is at index N and
+  // the code of vertex 2 is at index 2N.
   auto vertex_id =
       selected_triangle.triangle.is_vertex(selected_triangle.point);
   if (vertex_id != -1) {
     for (const auto& item : this->data_) {
-      const auto value = item.second(codes(vertex_id << 1));
+      const auto value = item.second(codes(vertex_id * N));
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
     quality = Quality::kExtrapolated1;
-- 
2.43.0


From a2da000ccb163815630d5c7c109b243610353533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 06/51] fix: flag as undefined the LGP results that are not
 finite

---
 include/fes/tidal_model/lgp.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 354b783..f13b1ac 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -7,6 +7,7 @@
 #pragma once
 #include <Eigen/Core>
 #include <algorithm>
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <map>
@@ -373,12 +374,15 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
   // the code of vertex 2 is at index 2N.
   auto vertex_id =
       selected_triangle.triangle.is_vertex(selected_triangle.point);
+  // The result is undefined if the value of a wave model is undefined.
+  auto defined = true;
   if (vertex_id != -1) {
     for (const auto& item : this->data_) {
       const auto value = item.second(codes(vertex_id * N));
+      defined &= std::isfinite(value.real()) && std::isfinite(value.imag());
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
-    quality = Quality::kExtrapolated1;
+    quality = defined ? Quality::kExtrapolated1 : Quality::kUndefined;
     return lgp_acc->values();
   }
 
@@ -398,9 +402,10 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
     for (auto ix = 0; ix < N * 3; ++ix) {
       dot += beta(ix) * static_cast<std::complex<double>>(wave(codes(ix)));
     }
+    defined &= std::isfinite(dot.real()) && std::isfinite(dot.imag());
     lgp_acc->emplace_back(item.first, dot);
   }
-  quality = Quality::kInterpolated;
+  quality = defined ? Quality::kInterpolated : Quality::kUndefined;
   return lgp_acc->values();
 }
 
-- 
2.43.0


From b6668722dbf9ecce437ffffde05992de02d60196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:56 +0000
Subject: [PATCH 07/51] fix: recompute the astronomic angles when only the leap
 seconds change

---
 include/fes/abstract_tidal_model.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 6301d88..641109a 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -103,8 +103,10 @@ class Accelerator {
   /// @return The astronomic angle corresponding to the given UTC time.
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
-    if (std::abs(epoch - angle_.first) > time_tolerance_) {
+    if (std::abs(epoch - angle_.first) > time_tolerance_ ||
+        leap_seconds != leap_seconds_) {
       angle_.first = epoch;
+      leap_seconds_ = leap_seconds;
       angle_.second.update(epoch, leap_seconds);
     }
     return angle_.second;
@@ -118,6 +120,9 @@ class Accelerator {
   /// @brief The last angle used to evaluate the tidal constituents.
   std::pair<double, angle::Astronomic> angle_;
 
+  /// @brief The number of leap seconds of the last angle.
+  uint16_t leap_seconds_{0};
+
   /// @brief The tidal constituent values interpolated at the last point.
   ConstituentValues values_;
 };
-- 
2.43.0


From 8e41fe82674be142eae08ed3451acc0e9f0dd0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 08/51] fix: find the coordinates located on the last point of
 an axis

---
 src/library/axis.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index fffcd8f..c269d56 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -4,6 +4,10 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/axis.hpp"
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 #include "fes/detail/isviewstream.hpp"
 #include "fes/detail/math.hpp"
 #include "fes/detail/serialize.hpp"
@@ -113,7 +117,15 @@ auto Axis::find_indices(double coordinate) const
   // chose the other index that frames the coordinate
   auto delta = coordinate - (*this)(i0);
   auto i1 = i0;
-  if (delta == 0) {
+  // The last element is calculated from the first one and the step. The
+  // rounding errors must not reject a coordinate located on an end of the axis.
+  auto on_element = delta == 0;
+  if (!is_circular_ && (i0 == 0 || i0 == length - 1)) {
+    on_element = std::abs(delta) <=
+                 4 * std::numeric_limits<double>::epsilon() *
+                     std::max(std::abs(min_value()), std::abs(max_value()));
+  }
+  if (on_element) {
     // The requested coordinate is located on an element of the axis.
     i1 == length - 1 ? --i0 : ++i1;
   } else {
-- 
2.43.0


From a122b084928c391949371700a9f139e70b93e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 09/51] fix: unwrap the longitudes when the discontinuity
 follows the first one

---
 src/library/axis.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index c269d56..9590468 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -42,7 +42,11 @@ auto Axis::is_evenly_spaced(const Eigen::Ref<const Eigen::VectorXd>& points)
 auto Axis::normalize_longitude(const Eigen::VectorXd& points)
     -> std::unique_ptr<Eigen::VectorXd> {
   auto monotonic = true;
-  auto ascending = points.size() < 2 ? true : points[0] < points[1];
+  // The discontinuity may be located between the first two points: in this
+  // case, the shortest way from one to the other gives the direction.
+  auto ascending = points.size() < 3
+                       ? points[0] < points[1]
+                       : std::remainder(points[1] - points[0], 360.0) > 0;
 
   for (auto ix = Eigen::Index(1); ix < points.size(); ++ix) {
     monotonic =
-- 
2.43.0


From fbdb45e3c13c9991b70dd4fe9574d9486527b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 10/51] fix: handle the coordinates an index cannot represent

---
 include/fes/axis.hpp | 13 ++++++++-----
 src/library/axis.cpp |  5 +++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/fes/axis.hpp b/include/fes/axis.hpp
index 363c9cd..2ce8489 100644
--- a/include/fes/axis.hpp
+++ b/include/fes/axis.hpp
@@ -7,6 +7,7 @@
 #pragma once
 #include <Eigen/Core>
 #include <boost/optional.hpp>
+#include <cmath>
 #include <limits>
 #include <memory>
 #include <tuple>
@@ -114,15 +115,17 @@ class Axis : public std::enable_shared_from_this<Axis> {
   FES_MATH_CONSTEXPR auto find_index(const double coordinate,
                                      const bool bounded = false) const noexcept
       -> int64_t {
-    auto index = static_cast<int64_t>(
-        std::round((normalize_coordinate(coordinate) - start_) / step_));
-    if (index < 0) {
+    const auto index =
+        std::round((normalize_coordinate(coordinate) - start_) / step_);
+    // Checked before the conversion, to handle the values that an integer
+    // cannot represent.
+    if (std::isnan(index) || index < 0) {
       return bounded ? 0 : -1;
     }
-    if (index >= this->size_) {
+    if (index >= static_cast<double>(this->size_)) {
       return bounded ? this->size_ - 1 : -1;
     }
-    return index;
+    return static_cast<int64_t>(index);
   }
 
   /// @brief Given a coordinate position, find grids elements around it.
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index 9590468..2c235a4 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -104,6 +104,11 @@ auto Axis::find_indices(double coordinate) const
   // Optional value to return.
   using optional_t = boost::optional<std::tuple<int64_t, int64_t>>;
 
+  // A non-finite coordinate is nowhere, even on a circle.
+  if (!std::isfinite(coordinate)) {
+    return optional_t();
+  }
+
   coordinate = normalize_coordinate(coordinate);
 
   auto length = size_;
-- 
2.43.0


From 3b26257f61911aeef69b9d7c030cd1381df6baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 11/51] fix: interpolate to NaN the points that depend only on
 missing samples

---
 include/fes/detail/math.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index cadc215..104808a 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -295,8 +295,13 @@ constexpr auto bilinear_interpolation(const T& wx1, const T& wx2, const T& wy1,
   add_sample(z12, wx1 * wy2);
   add_sample(z21, wx2 * wy1);
   add_sample(z22, wx2 * wy2);
-  return std::abs(sum_w) > 0 ? result / sum_w
-                             : std::numeric_limits<T>::quiet_NaN();
+  if (std::abs(sum_w) > 0) {
+    return result / sum_w;
+  }
+  // The point depends only on missing samples. (std::numeric_limits is not
+  // specialized for std::complex.)
+  n = 0;
+  return T(std::numeric_limits<double>::quiet_NaN());
 }
 
 /// @brief Evaluates a polynomial using Horner's method.
-- 
2.43.0


From ead05cf95a1f3f518f2e7bbc978fa6766d5ef255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 12/51] fix: accept any convention of longitude on a regional
 grid

---
 include/fes/tidal_model/cartesian.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index ae91dbe..46bd5e9 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -112,7 +112,14 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   // Remove all previous values interpolated.
   acc->clear();
   // Find the nearest point in the grid
-  auto lon_index = lon_.find_indices(point.lon());
+  auto lon = point.lon();
+  auto lon_index = lon_.find_indices(lon);
+  if (!lon_index && !lon_.is_circular()) {
+    // The convention used for the longitude of the point may differ from that
+    // of a regional grid (a circular axis handles all the conventions).
+    lon = detail::math::normalize_angle(lon, lon_.min_value());
+    lon_index = lon_.find_indices(lon);
+  }
   auto lat_index = lat_.find_indices(point.lat());
 
   if (!lon_index || !lat_index) {
-- 
2.43.0


From 1c6dfa6e477e0b9b8d537a5f844c49d0df01ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 13/51] fix: weights of the cell that closes a circular grid

---
 include/fes/tidal_model/cartesian.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 46bd5e9..f877a17 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -5,6 +5,7 @@
 /// @file include/fes/tidal_model/cartesian.hpp
 /// @brief Cartesian tidal model
 #pragma once
+#include <cmath>
 #include <limits>
 #include <memory>
 #include <sstream>
@@ -144,9 +145,14 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   const auto y2 = lat_(j2);
   auto n = int64_t{0};
 
-  auto wxy = detail::math::bilinear_weights(
-      detail::math::normalize_angle(point.lon(), x1), point.lat(), x1, y1,
-      detail::math::normalize_angle(x2, x1), y2);
+  // Distances from the first longitude of the cell. On a circle, they are
+  // measured along the shortest way, whatever the order of the two longitudes.
+  auto distance = [this, x1](const double x) {
+    return lon_.is_circular() ? std::abs(std::remainder(x - x1, 360.0))
+                              : x - x1;
+  };
+  auto wxy = detail::math::bilinear_weights(distance(lon), point.lat(), 0.0, y1,
+                                            distance(x2), y2);
 
   auto grid = detail::Grid<std::complex<T>>(
       nullptr, static_cast<size_t>(lon_.size()),
-- 
2.43.0


From 562fb6f4bf11c8e817194db471db3d2f5372b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 14/51] fix: give the quality of the constituent interpolated
 with the fewest samples

---
 include/fes/tidal_model/cartesian.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index f877a17..c02d599 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -5,6 +5,7 @@
 /// @file include/fes/tidal_model/cartesian.hpp
 /// @brief Cartesian tidal model
 #pragma once
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <memory>
@@ -144,6 +145,8 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   const auto y1 = lat_(j1);
   const auto y2 = lat_(j2);
   auto n = int64_t{0};
+  // The lowest number of samples used to interpolate a constituent.
+  auto samples = this->data_.empty() ? int64_t{0} : int64_t{4};
 
   // Distances from the first longitude of the cell. On a circle, they are
   // measured along the shortest way, whatever the order of the two longitudes.
@@ -162,14 +165,15 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
     auto value = detail::math::bilinear_interpolation<std::complex<double>>(
         std::get<0>(wxy), std::get<1>(wxy), std::get<2>(wxy), std::get<3>(wxy),
         grid(i1, j1), grid(i1, j2), grid(i2, j1), grid(i2, j2), n);
+    samples = std::min(samples, n);
     acc->emplace_back(item.first, value);
   }
 
-  quality = (n == 4)   ? Quality::kInterpolated
-            : (n == 3) ? Quality::kExtrapolated3
-            : (n == 2) ? Quality::kExtrapolated2
-            : (n == 1) ? Quality::kExtrapolated1
-                       : Quality::kUndefined;
+  quality = (samples == 4)   ? Quality::kInterpolated
+            : (samples == 3) ? Quality::kExtrapolated3
+            : (samples == 2) ? Quality::kExtrapolated2
+            : (samples == 1) ? Quality::kExtrapolated1
+                             : Quality::kUndefined;
   return acc->values();
 }
 
-- 
2.43.0


From a5b67ac18fa543171df3f966442c91e7c836d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:05 +0000
Subject: [PATCH 15/51] fix: parallel loops over no item or on an unknown
 number of CPUs

---
 include/fes/detail/thread.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index e71add6..8f037b1 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -5,6 +5,8 @@
 /// @file include/fes/detail/thread.hpp
 /// @brief Parallelization
 #pragma once
+#include <algorithm>
+#include <exception>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -25,12 +27,18 @@ void parallel_for(const Lambda& callable, const size_t size,
                   size_t num_threads) {
   // If num_threads is 0, use all CPUs
   if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
+    // The number of CPUs may be unknown (0).
+    num_threads = std::max(std::thread::hardware_concurrency(), 1U);
   }
 
   // Adjust num_threads to not exceed the size
   num_threads = std::min(num_threads, static_cast<size_t>(size));
 
+  // Nothing to do
+  if (size == 0) {
+    return;
+  }
+
   // If num_threads is 1, no parallel computing code is used
   if (num_threads == 1) {
     callable(0, size);
-- 
2.43.0


From f1887b26158bdf0b66adbcaa43ae1ea013e82ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 16/51] fix: data race between the workers that fail in a
 parallel loop

---
 include/fes/detail/thread.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index 8f037b1..8ae1962 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -7,6 +7,7 @@
 #pragma once
 #include <algorithm>
 #include <exception>
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -48,6 +49,7 @@ void parallel_for(const Lambda& callable, const size_t size,
   // List of threads responsible for parallelizing the calculation
   std::vector<std::thread> threads;
   std::exception_ptr exception = nullptr;
+  std::mutex exception_mutex;
 
   // Access index to the vectors required for calculation
   size_t start = 0;
@@ -58,10 +60,12 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exception]() {
+    threads.emplace_back([&callable, start, end, &exception,
+                          &exception_mutex]() {
       try {
         callable(start, end);
       } catch (...) {
+        std::lock_guard<std::mutex> lock(exception_mutex);
         exception = std::current_exception();
       }
     });
-- 
2.43.0


From b6987c590b190caff335590ce2e50c4a89a40e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 17/51] fix: report the failure to create a thread of a
 parallel loop

---
 include/fes/detail/thread.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index 8ae1962..5f91768 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -60,15 +60,23 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exception,
-                          &exception_mutex]() {
-      try {
-        callable(start, end);
-      } catch (...) {
-        std::lock_guard<std::mutex> lock(exception_mutex);
-        exception = std::current_exception();
-      }
-    });
+    try {
+      threads.emplace_back([&callable, start, end, &exception,
+                            &exception_mutex]() {
+        try {
+          callable(start, end);
+        } catch (...) {
+          std::lock_guard<std::mutex> lock(exception_mutex);
+          exception = std::current_exception();
+        }
+      });
+    } catch (...) {
+      // The thread cannot be created: the threads launched must be joined
+      // before reporting this error.
+      std::lock_guard<std::mutex> lock(exception_mutex);
+      exception = std::current_exception();
+      break;
+    }
     start += shift;
   }
 
-- 
2.43.0


From 089a82d32aa3c7897fc6f306a10d829775a4059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 18/51] fix: containment in the triangles that cross the
 antimeridian

---
 include/fes/geometry/triangle.hpp |  4 +---
 src/library/geometry/triangle.cpp | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index a4dc4ea..6661fb3 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -83,9 +83,7 @@ class Triangle : public triangle_t {
   /// the calculation of the angles of the reference triangle is also carried
   /// out in this space. The search carried out in geodesic space can cause
   /// inconsistencies between these two spaces and generate erroneous values.
-  inline auto covered_by(const geometry::Point &point) const -> bool {
-    return boost::geometry::covered_by(point, *this);
-  }
+  auto covered_by(const geometry::Point &point) const -> bool;
 
   /// Check if the triangle is valid (in the OGC sense)
   inline auto is_valid() const -> bool {
diff --git a/src/library/geometry/triangle.cpp b/src/library/geometry/triangle.cpp
index fc99753..44597d6 100644
--- a/src/library/geometry/triangle.cpp
+++ b/src/library/geometry/triangle.cpp
@@ -4,6 +4,8 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/geometry/triangle.hpp"
 
+#include <cmath>
+
 #include "fes/detail/math.hpp"
 
 namespace fes {
@@ -25,6 +27,19 @@ inline auto shift(const Point& point, const Triangle& triangle) -> Triangle {
   return {Point(lon1, v1.lat()), Point(lon2, v2.lat()), Point(lon3, v3.lat())};
 }
 
+auto Triangle::covered_by(const Point& point) const -> bool {
+  // The longitudes are expressed relative to the point, because the algorithm
+  // used may consider that a triangle crossing the antimeridian covers points
+  // located on the meridian of a vertex but outside the triangle.
+  auto relative = [&point](const Point& vertex) {
+    return Point(std::remainder(vertex.lon() - point.lon(), 360.0),
+                 vertex.lat());
+  };
+  return boost::geometry::covered_by(
+      Point(0.0, point.lat()),
+      Triangle(relative(v1()), relative(v2()), relative(v3())));
+}
+
 auto Triangle::reference_right_angled(const Point& point) const
     -> std::tuple<double, double> {
   auto const vertices = shift(point, *this).outer();
-- 
2.43.0


From 44a07030d9abb76f321ecaf20c485cf290ee9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 19/51] fix: calculate the angles of a date that is not a
 number

---
 include/fes/abstract_tidal_model.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 641109a..8a7243c 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -55,7 +55,7 @@ class Accelerator {
   Accelerator(const angle::Formulae& formulae, const double time_tolerance,
               const size_t n_constituents)
       : time_tolerance_(time_tolerance),
-        angle_{std::numeric_limits<double>::max(),
+        angle_{std::numeric_limits<double>::quiet_NaN(),
                angle::Astronomic(formulae)} {
     values_.reserve(n_constituents);
   }
@@ -103,7 +103,9 @@ class Accelerator {
   /// @return The astronomic angle corresponding to the given UTC time.
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
-    if (std::abs(epoch - angle_.first) > time_tolerance_ ||
+    // The condition is also true if one of the dates is not a number: none have
+    // been calculated yet, or the angles of an undefined date are undefined.
+    if (!(std::abs(epoch - angle_.first) <= time_tolerance_) ||
         leap_seconds != leap_seconds_) {
       angle_.first = epoch;
       leap_seconds_ = leap_seconds;
-- 
2.43.0


From de68e29a4c6b3bd25f06d0ae54d409524196deac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:16 +0000
Subject: [PATCH 20/51] fix: distance to and projection on the triangles that
 cross the antimeridian

---
 include/fes/geometry/triangle.hpp | 16 +++++------
 src/library/geometry/triangle.cpp | 44 ++++++++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index 6661fb3..a67ab83 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -99,9 +99,7 @@ class Triangle : public triangle_t {
   ///
   /// @param[in] point The point.
   /// @return The distance between the triangle and the point in meters.
-  inline auto distance(const Point &point) const -> double {
-    return detail::geometry::distance(point, *this);
-  }
+  auto distance(const Point &point) const -> double;
 
   /// Calculate the area of the triangle.
   ///
@@ -137,12 +135,14 @@ class Triangle : public triangle_t {
   ///
   /// @param[in] point The point.
   /// @return The projection of the point on the triangle.
-  inline auto project(const Point &point) const -> Point {
-    boost::geometry::model::segment<Point> segment;
+  auto project(const Point &point) const -> Point;
 
-    detail::geometry::closest_points(point, *this, segment);
-    return point == segment.second ? segment.first : segment.second;
-  }
+ private:
+  /// Express the longitudes of the triangle relative to the given point.
+  ///
+  /// @param[in] point The point.
+  /// @return The triangle seen from the point.
+  auto relative_to(const Point &point) const -> Triangle;
 };
 
 }  // namespace geometry
diff --git a/src/library/geometry/triangle.cpp b/src/library/geometry/triangle.cpp
index 44597d6..b2dde81 100644
--- a/src/library/geometry/triangle.cpp
+++ b/src/library/geometry/triangle.cpp
@@ -27,17 +27,47 @@ inline auto shift(const Point& point, const Triangle& triangle) -> Triangle {
   return {Point(lon1, v1.lat()), Point(lon2, v2.lat()), Point(lon3, v3.lat())};
 }
 
-auto Triangle::covered_by(const Point& point) const -> bool {
-  // The longitudes are expressed relative to the point, because the algorithm
-  // used may consider that a triangle crossing the antimeridian covers points
-  // located on the meridian of a vertex but outside the triangle.
+auto Triangle::relative_to(const Point& point) const -> Triangle {
   auto relative = [&point](const Point& vertex) {
     return Point(std::remainder(vertex.lon() - point.lon(), 360.0),
                  vertex.lat());
   };
-  return boost::geometry::covered_by(
-      Point(0.0, point.lat()),
-      Triangle(relative(v1()), relative(v2()), relative(v3())));
+  return {relative(v1()), relative(v2()), relative(v3())};
+}
+
+// In the following methods, the longitudes are expressed relative to the point,
+// because the algorithms used may consider that a triangle crossing the
+// antimeridian covers points located on the meridian of a vertex, or on the
+// equator, but outside the triangle.
+
+auto Triangle::covered_by(const Point& point) const -> bool {
+  return boost::geometry::covered_by(Point(0.0, point.lat()),
+                                     relative_to(point));
+}
+
+auto Triangle::distance(const Point& point) const -> double {
+  return detail::geometry::distance(Point(0.0, point.lat()),
+                                    relative_to(point));
+}
+
+auto Triangle::project(const Point& point) const -> Point {
+  const auto origin = Point(0.0, point.lat());
+  const auto triangle = relative_to(point);
+  auto segment = boost::geometry::model::segment<Point>();
+
+  detail::geometry::closest_points(origin, triangle, segment);
+  const auto& closest =
+      origin == segment.second ? segment.first : segment.second;
+
+  if (closest == origin) {
+    return point;
+  }
+  const auto vertex_id = triangle.is_vertex(closest);
+  if (vertex_id != -1) {
+    return this->outer()[vertex_id];
+  }
+  return {detail::math::normalize_angle(point.lon() + closest.lon()),
+          closest.lat()};
 }
 
 auto Triangle::reference_right_angled(const Point& point) const
-- 
2.43.0


From 0dae4daa45e77b4833995e6ac31ec46df8f800be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:56 +0000
Subject: [PATCH 21/51] fix: points on the meridian of a vertex to within a few
 roundings

---
 src/library/geometry/triangle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/library/geometry/triangle.cpp b/src/library/geometry/triangle.cpp
index b2dde81..f56eb31 100644
--- a/src/library/geometry/triangle.cpp
+++ b/src/library/geometry/triangle.cpp
@@ -29,8 +29,10 @@ inline auto shift(const Point& point, const Triangle& triangle) -> Triangle {
 
 auto Triangle::relative_to(const Point& point) const -> Triangle {
   auto relative = [&point](const Point& vertex) {
-    return Point(std::remainder(vertex.lon() - point.lon(), 360.0),
-                 vertex.lat());
+    auto lon = std::remainder(vertex.lon() - point.lon(), 360.0);
+    // The algorithms used are inconsistent if the point and a vertex are on the
+    // same meridian to within a few roundings, but not exactly.
+    return Point(std::abs(lon) < 1e-12 ? 0.0 : lon, vertex.lat());
   };
   return {relative(v1()), relative(v2()), relative(v3())};
 }
-- 
2.43.0


From 3918dfa5f5b7e263dfd5e9d26180b46eb8b3ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 22/51] fix: save the dynamic constituents in the state of the
 models

---
 include/fes/detail/serialize.hpp      | 28 +++++++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp |  2 ++
 include/fes/tidal_model/lgp.hpp       |  2 ++
 3 files changed, 32 insertions(+)

diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 9671f1d..82e7284 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,8 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <string>
+#include <vector>
 
 #include "fes/detail/isviewstream.hpp"
 
@@ -115,6 +117,32 @@ auto read_constituent_map(detail::isviewstream& ss)
   return data;
 }
 
+/// @brief Write a vector to a stringstream
+/// @tparam T The type of the elements of the vector
+/// @param[in] ss The stringstream to write to
+/// @param[in] data The vector to write
+template <typename T>
+auto write_vector(std::stringstream& ss, const std::vector<T>& data) -> void {
+  write_data(ss, data.size());
+  for (const auto& item : data) {
+    write_data(ss, item);
+  }
+}
+
+/// @brief Read a vector from a stringstream
+/// @tparam T The type of the elements of the vector
+/// @param[in] ss The stringstream to read from
+/// @return The vector read
+template <typename T>
+auto read_vector(detail::isviewstream& ss) -> std::vector<T> {
+  auto size = read_data<size_t>(ss);
+  auto data = std::vector<T>{};
+  for (size_t ix = 0; ix < size; ++ix) {
+    data.emplace_back(read_data<T>(ss));
+  }
+  return data;
+}
+
 }  // namespace serialize
 }  // namespace detail
 }  // namespace fes
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index c02d599..509302d 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -186,6 +186,7 @@ auto Cartesian<T>::getstate() const -> std::string {
   detail::serialize::write_string(ss, lat_.getstate());
   detail::serialize::write_data(ss, this->tide_type_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -203,6 +204,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     model.data_ =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
+    model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index f13b1ac..552fb70 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -418,6 +418,7 @@ auto LGP<T, N>::getstate() const -> std::string {
   detail::serialize::write_data(ss, max_distance_);
   detail::serialize::write_matrix<int, Eigen::Dynamic, N * 3>(ss, codes_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -432,6 +433,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
+  this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From f9b1196c64b1fcb7fcad84af6e15834b714a15e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 23/51] fix: restore the size of the data expected by the LGP
 models

---
 include/fes/tidal_model/lgp.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 552fb70..6a61f32 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -194,6 +194,9 @@ class LGP : public fes::AbstractTidalModel<T> {
 
   /// %LGP codes for each triangles in the index
   codes_t codes_{};
+
+  /// Check the %LGP codes and determine the expected data size.
+  auto check_codes() -> void;
 };
 
 /// @brief %LGP1 tidal model.
@@ -311,6 +314,12 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
       index_(std::move(index)),
       max_distance_(max_distance),
       codes_(std::move(codes)) {
+  check_codes();
+}
+
+// /////////////////////////////////////////////////////////////////////////////
+template <typename T, int N>
+auto LGP<T, N>::check_codes() -> void {
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
@@ -431,6 +440,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
       mesh::Index::setstate(detail::serialize::read_string(ss)));
   this->max_distance_ = detail::serialize::read_data<double>(ss);
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
+  check_codes();
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
   this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
-- 
2.43.0


From c8c5ad750e34937f82f5f9e3ca0998ed31b27013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 24/51] fix: check the sizes read from a saved state

---
 include/fes/detail/isviewstream.hpp | 16 ++++++++++++----
 include/fes/detail/serialize.hpp    | 14 ++++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/fes/detail/isviewstream.hpp b/include/fes/detail/isviewstream.hpp
index 6641b14..7058769 100644
--- a/include/fes/detail/isviewstream.hpp
+++ b/include/fes/detail/isviewstream.hpp
@@ -47,7 +47,8 @@ class sviewbuf : public std::streambuf {
   auto seekoff(off_type off, std::ios_base::seekdir dir,
                std::ios_base::openmode /*which*/) -> pos_type override {
     if (dir == std::ios_base::cur) {
-      gbump(static_cast<int>(off));
+      // gbump takes an int: it cannot move by more than 2 GiB.
+      setg(eback(), gptr() + off, egptr());
     } else if (dir == std::ios_base::end) {
       setg(eback(), egptr() + off, egptr());
     } else if (dir == std::ios_base::beg) {
@@ -80,15 +81,22 @@ class isviewstream : private virtual sviewbuf, public std::istream {
   explicit isviewstream(const string_view& str)
       : sviewbuf(str), std::istream(static_cast<std::streambuf*>(this)) {}
 
+  /// @brief Get the number of characters that remain to be read.
+  /// @return The number of characters.
+  auto available() const -> std::streamsize {
+    return this->egptr() - this->gptr();
+  }
+
   /// @brief Extract a string_view from the stream.
   /// @param[in] count The number of characters to extract.
   /// @return The string_view.
   auto readview(const std::streamsize count) -> string_view {
-    auto avail = this->egptr() - this->gptr();
-    auto size = std::min(count, avail);
+    auto avail = this->available();
+    // A negative number of characters is never available.
+    auto size = std::max<std::streamsize>(0, std::min(count, avail));
     auto result = string_view(gptr(), size);
     seekoff(size, std::ios_base::cur, std::ios_base::in);
-    if (avail < count) {
+    if (size != count) {
       setstate(std::ios_base::badbit | std::ios_base::failbit);
     }
     return result;
diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 82e7284..adb6eb1 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,7 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -78,6 +79,16 @@ template <typename T, int ROWS, int COLS>
 auto read_matrix(detail::isviewstream& ss) -> Eigen::Matrix<T, ROWS, COLS> {
   auto rows = read_data<Eigen::Index>(ss);
   auto cols = read_data<Eigen::Index>(ss);
+  // The dimensions must be those of the type of matrix read, and the values
+  // must be in the stream, before any memory is allocated to store them.
+  if (rows < 0 || cols < 0 || (ROWS != Eigen::Dynamic && rows != ROWS) ||
+      (COLS != Eigen::Dynamic && cols != COLS)) {
+    throw std::invalid_argument("invalid dimensions of matrix");
+  }
+  if (cols != 0 &&
+      rows > ss.available() / static_cast<Eigen::Index>(sizeof(T)) / cols) {
+    throw std::invalid_argument("truncated matrix");
+  }
   auto data = Eigen::Matrix<T, ROWS, COLS>(rows, cols);
   ss.read(reinterpret_cast<char*>(data.data()), data.size() * sizeof(T));
   return data;
@@ -108,6 +119,9 @@ template <typename T, typename U>
 auto read_constituent_map(detail::isviewstream& ss)
     -> std::map<T, Eigen::Matrix<U, Eigen::Dynamic, 1>> {
   auto size = read_data<Eigen::Index>(ss);
+  if (size < 0) {
+    throw std::invalid_argument("invalid number of constituents");
+  }
   auto data = std::map<T, Eigen::Matrix<U, Eigen::Dynamic, 1>>{};
   for (auto ix = 0; ix < size; ++ix) {
     auto constituent = read_data<T>(ss);
-- 
2.43.0


From d8e1ea80f659bafe9610c4670efa19138692529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 25/51] fix: reject the booleans of a saved state that are
 neither false nor true

---
 include/fes/detail/serialize.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index adb6eb1..9ce062c 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -6,6 +6,7 @@
 /// @brief Serialization utilities.
 #pragma once
 #include <Eigen/Core>
+#include <cstdint>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -38,6 +39,20 @@ auto read_data(detail::isviewstream& ss) -> T {
   return data;
 }
 
+/// @brief Read a boolean from a stringstream
+/// @param[in] ss The stringstream to read from
+/// @return The boolean read
+/// @throw std::invalid_argument If the byte read is neither false nor true
+template <>
+inline auto read_data<bool>(detail::isviewstream& ss) -> bool {
+  static_assert(sizeof(bool) == sizeof(uint8_t), "bool must be one byte");
+  auto data = read_data<uint8_t>(ss);
+  if (data > 1) {
+    throw std::invalid_argument("invalid boolean value");
+  }
+  return data == 1;
+}
+
 /// @brief Write a string to a stringstream
 /// @param[in] ss The stringstream to write to
 /// @param[in] data The string to write
-- 
2.43.0


From 690fa2dffee5577f8597828c845732028a063e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 26/51] fix: reject the inconsistent properties of a saved axis

---
 src/library/axis.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index 2c235a4..7adc16f 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <limits>
 
 #include "fes/detail/isviewstream.hpp"
@@ -178,8 +179,16 @@ auto Axis::setstate(const string_view& data) -> Axis {
     auto start = detail::serialize::read_data<double>(ss);
     auto size = detail::serialize::read_data<int64_t>(ss);
     auto step = detail::serialize::read_data<double>(ss);
-    return Axis(is_circular, is_ascending, start, size, step);
-  } catch (const std::ios_base::failure&) {
+    auto axis = Axis(is_circular, is_ascending, start, size, step);
+    // Only the default axis has no step.
+    if (!(axis == Axis()) &&
+        (size < 2 || !std::isfinite(start) || !std::isfinite(step) ||
+         step == 0 || is_ascending != (step > 0) ||
+         !std::isfinite(axis.end()))) {
+      throw std::invalid_argument("inconsistent axis properties");
+    }
+    return axis;
+  } catch (const std::exception&) {
     throw std::invalid_argument("invalid axis state");
   }
 }
-- 
2.43.0


From 13e6ab842bc3fe661f0e755490571ddca0976d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 27/51] fix: check the constituents and the sizes of the data
 of a saved model

---
 include/fes/abstract_tidal_model.hpp  | 23 +++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp |  6 ++++++
 include/fes/tidal_model/lgp.hpp       |  4 ++++
 3 files changed, 33 insertions(+)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 8a7243c..4f0e68a 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -6,7 +6,9 @@
 /// @brief Abstract tidal model.
 #pragma once
 #include <complex>
+#include <cstdint>
 #include <map>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -256,6 +258,27 @@ class AbstractTidalModel
 
   /// Tide type
   TideType tide_type_{TideType::kTide};
+
+  /// @brief Check the properties restored from a saved state.
+  ///
+  /// @param[in] size The number of values expected for each constituent.
+  /// @throw std::invalid_argument If the tide type or a constituent is unknown,
+  /// or if the number of values of a constituent is not the one expected.
+  auto check_state(const int64_t size) const -> void {
+    if (tide_type_ != TideType::kTide && tide_type_ != TideType::kRadial) {
+      throw std::invalid_argument("unknown tide type");
+    }
+    for (const auto& item : data_) {
+      // Throws an exception if the constituent is unknown.
+      constituents::name(item.first);
+      if (item.second.size() != size) {
+        throw std::invalid_argument("wave size does not match expected size");
+      }
+    }
+    for (const auto& item : dynamic_) {
+      constituents::name(item);
+    }
+  }
 };
 
 }  // namespace fes
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 509302d..4d71182 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -205,6 +205,12 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
     model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
+    if (model.lat_.size() != 0 &&
+        model.lon_.size() >
+            std::numeric_limits<int64_t>::max() / model.lat_.size()) {
+      throw std::invalid_argument("too many grid points");
+    }
+    model.check_state(model.lon_.size() * model.lat_.size());
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 6a61f32..4b05d3d 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -340,6 +340,9 @@ auto LGP<T, N>::check_codes() -> void {
   if (min_index < 0) {
     throw std::invalid_argument("codes_t must be positive");
   }
+  if (max_index == std::numeric_limits<int>::max()) {
+    throw std::invalid_argument("codes_t must be smaller than 2^31 - 1");
+  }
 
   // Store the expected data size to interpolate
   expected_data_size_ = max_index + 1;
@@ -444,6 +447,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
   this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
+  this->check_state(expected_data_size_);
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From 3c642de5503cb884f618ac780ad6b7c2b3b3a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 28/51] fix: meshes with undefined vertices and searches of
 undefined positions

---
 src/library/mesh/index.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index bfaf9e3..4e649b4 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -5,6 +5,7 @@
 #include "fes/mesh/index.hpp"
 
 #include <algorithm>
+#include <cmath>
 #include <exception>
 #include <limits>
 #include <set>
@@ -47,6 +48,13 @@ static auto sanity_check(
     throw std::invalid_argument("triangle indices must be in range [0, " +
                                 std::to_string(lon.size()) + ")");
   }
+  // The vertices are sorted to build the index.
+  if (!std::all_of(triangles.data(), triangles.data() + triangles.size(),
+                   [&lon, &lat](int32_t id) {
+                     return std::isfinite(lon(id)) && std::isfinite(lat(id));
+                   })) {
+    throw std::invalid_argument("triangle vertices must be finite");
+  }
 }
 
 Index::Index(Eigen::VectorXd lon, Eigen::VectorXd lat,
@@ -131,7 +139,10 @@ auto Index::search(const geometry::Point& point,
         result.triangle = std::move(triangle);
       }
     }
-    result.point = result.triangle.project(point);
+    // No triangle is the nearest one if the position is undefined.
+    if (result.index != -1) {
+      result.point = result.triangle.project(point);
+    }
   }
   return result;
 }
-- 
2.43.0


From 57b4be88e9319173f375ba04c6c2d287b61db91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 29/51] fix: do not share the waves of the table between the
 computations

---
 include/fes/wave/table.hpp |  5 +++++
 src/library/wave/table.cpp | 21 ++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index 31ca1a8..d92faf5 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -334,6 +334,11 @@ class Table {
   /// is an identity mapping {0:0, 1:1, 2:2, ...}.
   std::vector<uint8_t> wave_index_{};
 
+  /// Get a copy of this table that does not share its waves with this instance
+  ///
+  /// @return The copy of this table
+  auto clone() const -> Table;
+
   /// Get a wave from the table
   ///
   /// @param[in] ident Wave identifier
diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 3c4536c..c2c28b0 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -9,6 +9,7 @@
 #include <memory>
 #include <stdexcept>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "fes/detail/broadcast.hpp"
@@ -226,6 +227,20 @@ Table::Table(const std::vector<Constituent>& waves) {
   *this = Table(wave_names);
 }
 
+auto Table::clone() const -> Table {
+  auto result = Table(*this);
+  for (auto& item : result.waves_) {
+    if (item) {
+      auto wave = wave_factory(item->ident());
+      wave->tide(item->tide());
+      wave->admittance(item->admittance());
+      wave->dynamic(item->dynamic());
+      item = std::move(wave);
+    }
+  }
+  return result;
+}
+
 void Table::admittance() {
   // Arrays who contains the spline coefficients needed to compute MU2, NU2,
   // L2, T2 and Lambda2 by admittance.
@@ -388,7 +403,7 @@ auto Table::tide_from_tide_series(
 
   // The wave properties of the object must be immutable for the provided
   // instance.
-  auto wt = Table(*this);
+  auto wt = clone();
 
   for (auto ix = 0; ix < epoch.rows(); ++ix) {
     double tide = 0;
@@ -421,7 +436,7 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
   auto worker = [&](const int64_t start, const int64_t end) {
     // The wave properties of the object must be immutable for the provided
     // instance.
-    auto wt = Table(*this);
+    auto wt = clone();
     wt.compute_nodal_corrections(
         angle::Astronomic(formulae, epoch, leap_seconds));
 
@@ -454,7 +469,7 @@ auto Table::compute_nodal_modulations(
 
   // The wave properties of the object must be immutable for the provided
   // instance.
-  auto wt = Table(*this);
+  auto wt = clone();
 
   for (auto ix = 0; ix < epoch.size(); ++ix) {
     angles.update(epoch(ix), leap_seconds(ix));
-- 
2.43.0


From 2e7172c3b75bc40b93e8b6e777ffe4d759b28edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 30/51] fix: sum the waves of each point in tide_from_mapping

---
 include/fes/wave/table.hpp | 1 +
 src/library/wave/table.cpp | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index d92faf5..43f8bad 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -295,6 +295,7 @@ class Table {
   /// @param[in] formulae The formulae used to compute the astronomical angles.
   /// @param[in] num_threads Number of threads to use for the computation. If
   /// set to 0, the number of threads is automatically determined.
+  /// @return The tide at each point of the grid (one row per point).
   auto tide_from_mapping(
       double epoch, uint16_t leap_seconds,
       const DynamicRef<const Eigen::MatrixXcd>& wave,
diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index c2c28b0..50522c3 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -432,7 +432,8 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
         "wave must contain as many elements as the number of waves in the "
         "table");
   }
-  auto result = Eigen::MatrixXd(wave.cols(), wave.rows());
+  // The tide of each point is the sum of its waves.
+  Eigen::MatrixXd result = Eigen::MatrixXd::Zero(wave.cols(), 1);
   auto worker = [&](const int64_t start, const int64_t end) {
     // The wave properties of the object must be immutable for the provided
     // instance.
@@ -445,8 +446,8 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
         const auto& item = wt[jx];
         double phi = item->vu();
 
-        result(ix, jx) += item->f() * (wave(jx, ix).real() * std::cos(phi) +
-                                       wave(jx, ix).imag() * std::sin(phi));
+        result(ix, 0) += item->f() * (wave(jx, ix).real() * std::cos(phi) +
+                                      wave(jx, ix).imag() * std::sin(phi));
       }
     }
   };
-- 
2.43.0


From 6d1001196b5ce946b31d96d64f7a83c1fd7eac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 31/51] fix: keep reduced angles below the end of their circle

---
 include/fes/detail/math.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index 104808a..70cb0c5 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -202,8 +202,13 @@ template <typename T, typename std::enable_if<std::is_floating_point<T>::value,
                                               T>::type* = nullptr>
 constexpr auto remainder(const T& x, const T& y) noexcept -> T {
   auto result = std::remainder(x, y);
-  if (result < T(0) && y > T(0)) {
+  if (result != T(0) && (result < T(0)) != (y < T(0))) {
     result += y;
+    // The sum of a tiny negative remainder and of the divisor is rounded to
+    // the divisor.
+    if (result == y) {
+      result = T(0);
+    }
   }
   return result;
 }
@@ -217,7 +222,9 @@ constexpr auto remainder(const T& x, const T& y) noexcept -> T {
 template <typename T>
 constexpr auto normalize_angle(const T& x, const T& min = T(-180),
                                const T& circle = T(360)) noexcept -> T {
-  return remainder(x - min, circle) + min;
+  auto result = remainder(x - min, circle) + min;
+  // The sum may be rounded to the excluded bound.
+  return result >= min + circle ? min : result;
 }
 
 /// True if a and b are two values identical to an epsilon.
-- 
2.43.0


From 7473eb6e2df92e3244d47c91f01a5b27b5d3dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 32/51] fix: close the triangle when its first vertex is set

---
 include/fes/geometry/triangle.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index a67ab83..56df521 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -48,7 +48,11 @@ class Triangle : public triangle_t {
   /// Set the first vertex.
   ///
   /// @param[in] v1 The first vertex.
-  inline auto v1(const Point &v1) -> void { this->outer()[0] = v1; }
+  inline auto v1(const Point &v1) -> void {
+    this->outer()[0] = v1;
+    // The first vertex also closes the ring.
+    this->outer()[3] = v1;
+  }
 
   /// Set the second vertex.
   ///
-- 
2.43.0


From a33b44a23a10044a5dc7914042c55f33d924a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 33/51] fix: reject the unknown waves of a table

---
 src/library/wave/table.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 50522c3..f961e83 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -190,12 +190,18 @@ inline auto create_sparse_table(
     const std::vector<std::string>& known_constituents,
     const std::vector<std::string>& waves,
     std::vector<std::shared_ptr<Wave>>& table) -> void {
+  // The search is not case sensitive, and throws an exception if the name is
+  // unknown.
+  auto selected = std::vector<Constituent>{};
+  selected.reserve(waves.size());
+  for (const auto& wave : waves) {
+    selected.emplace_back(constituents::parse(wave));
+  }
   for (const auto& constituent : known_constituents) {
-    auto selected =
-        std::find(waves.begin(), waves.end(), constituent) != waves.end();
-    table.emplace_back(
-        selected ? Table::wave_factory(constituents::parse(constituent))
-                 : nullptr);
+    auto ident = constituents::parse(constituent);
+    auto found =
+        std::find(selected.begin(), selected.end(), ident) != selected.end();
+    table.emplace_back(found ? Table::wave_factory(ident) : nullptr);
   }
 }
 
-- 
2.43.0


From 139957a9716efb9845454854189449803831af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 34/51] fix: keep the leap second table when its refresh fails

---
 src/python/pyfes/leap_seconds.py | 70 ++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 732b86a..36cc70f 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -11,6 +11,8 @@ from __future__ import annotations
 from collections.abc import Callable
 import datetime
 import functools
+import http.client
+import os
 import pathlib
 import re
 from re import Match
@@ -37,6 +39,13 @@ LEAP_SECOND_FILE = pathlib.Path(__file__).parent / 'data' / 'leap-seconds.txt'
 #: User agent used for downloading files.
 USER_AGENT = f'Python/{sys.version_info.major}.{sys.version_info.minor}'
 
+#: Timeout, in seconds, of the download of the leap second file.
+DOWNLOAD_TIMEOUT = 30
+
+#: Regex for matching leap second entries.
+RE_ENTRY: Callable[[str], Match[str] | None] = re.compile(
+    r'^(\d+)\s+(\d+)\s+#\s1\s\w{3}\s\d{4}$').match
+
 #: Month abbreviations.
 MONTH_ABBREVIATIONS = [
     'Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
@@ -63,28 +72,37 @@ def _download_leap_second_file() -> None:
                                      'Accept': '*/*'
                                  })
 
-    response = urlopener.open(req, timeout=None)
-    if response.status != 200:
+    try:
+        response = urlopener.open(req, timeout=DOWNLOAD_TIMEOUT)
+        if response.status != 200:
+            raise RuntimeError(
+                f'Failed to download leap second file: {response.status} '
+                f'{response.reason}')
+        contents: bytes = response.read()
+
+        # Only a valid file, entirely written, replaces the current one.
+        lines = contents.decode('utf-8').splitlines()
+        _parse_expiration_date(lines)
+        if not any(map(RE_ENTRY, lines)):
+            raise RuntimeError('The downloaded file has no leap second')
+        LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
+        temporary = LEAP_SECOND_FILE.with_suffix(f'.{os.getpid()}')
+        try:
+            with temporary.open('wb') as stream:
+                stream.write(contents)
+            temporary.replace(LEAP_SECOND_FILE)
+        finally:
+            temporary.unlink(missing_ok=True)
+    except (OSError, ValueError, http.client.HTTPException) as err:
         raise RuntimeError(
-            f'Failed to download leap second file: {response.status} '
-            f'{response.reason}')
-    LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
-    with LEAP_SECOND_FILE.open('wb') as stream:
-        stream.write(response.read())
+            f'Failed to download leap second file: {err}') from err
 
 
-def _read_leap_second_file(
-        download: bool = False) -> tuple[numpy.datetime64, list[str]]:
-    """Read the IERS leap second file."""
+def _parse_expiration_date(lines: list[str]) -> numpy.datetime64:
+    """Parse the expiration date of the IERS leap second file."""
     re_expires: Callable[[str], Match[str] | None] = re.compile(
         r'^#.*File expires on[:\s]+(\d+\s\w+\s\d+)\s*$').match
 
-    if not LEAP_SECOND_FILE.exists() or download:
-        _download_leap_second_file()
-
-    with LEAP_SECOND_FILE.open('r') as stream:
-        lines = stream.readlines()
-
     expires: numpy.datetime64 | None = None
     for line in lines:
         match = re_expires(line)
@@ -98,17 +116,25 @@ def _read_leap_second_file(
         raise RuntimeError(
             f'Did not find expiration date in {LEAP_SECOND_FILE.name}')
 
-    return expires, lines
+    return expires
+
+
+def _read_leap_second_file(
+        download: bool = False) -> tuple[numpy.datetime64, list[str]]:
+    """Read the IERS leap second file."""
+    if not LEAP_SECOND_FILE.exists() or download:
+        _download_leap_second_file()
+
+    with LEAP_SECOND_FILE.open('r', encoding='utf-8') as stream:
+        lines = stream.readlines()
+
+    return _parse_expiration_date(lines), lines
 
 
 @functools.lru_cache(maxsize=1)
 def _load_leap_second_file() -> NDArrayStructured:
     """Load the IERS leap second file."""
 
-    # Regex for matching leap second entries.
-    re_entry: Callable[[str], Match[str] | None] = re.compile(
-        r'^(\d+)\s+(\d+)\s+#\s1\s\w{3}\s\d{4}$').match
-
     expires: numpy.datetime64
     lines: list[str]
 
@@ -134,7 +160,7 @@ def _load_leap_second_file() -> NDArrayStructured:
     entries: list[tuple[numpy.datetime64, int]] = []
 
     for line in lines:
-        match = re_entry(line)
+        match = RE_ENTRY(line)
         if match:
             # Convert the epoch to a numpy.datetime64 object.
             epoch, leap_seconds = map(int, match.groups())
-- 
2.43.0


From 9a91c2f55c49388b021724b70a39b3674018b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 35/51] fix: leap seconds of single dates after 2262

---
 src/python/pyfes/leap_seconds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 36cc70f..ddfbc88 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -194,7 +194,7 @@ def get_leap_seconds(
     if isinstance(utc, datetime.datetime):
         utc = numpy.datetime64(utc)
     if isinstance(utc, numpy.datetime64):
-        utc = numpy.array([utc], dtype='datetime64[ns]')
+        utc = numpy.array([utc])
     if numpy.any(utc < numpy.datetime64('1972-01-01')):
         raise ValueError('Cannot compute leap seconds before 1972.')
 
-- 
2.43.0


From bcc486a84ae9a0bca2817ad8bec79c7828a953c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 36/51] fix: do not sort the leap second table with the dates

---
 src/python/pyfes/leap_seconds.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index ddfbc88..4ce33eb 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -185,8 +185,8 @@ def get_leap_seconds(
 
     Args:
         utc: The UTC times.
-        sorter: The indices which would sort the `utc` array. If not
-            given, the `utc` array is sorted internally.
+        sorter: The indices which would sort the `utc` array. The result does
+            not depend on it: it is always in the order of the `utc` array.
     Returns:
         The UTC-TAI difference for the given UTC times.
     """
@@ -199,8 +199,5 @@ def get_leap_seconds(
         raise ValueError('Cannot compute leap seconds before 1972.')
 
     table = _load_leap_second_file()
-    index: numpy.ndarray = numpy.searchsorted(table['utc'],
-                                              utc,
-                                              side='right',
-                                              sorter=sorter)
+    index: numpy.ndarray = numpy.searchsorted(table['utc'], utc, side='right')
     return table['seconds'][index - 1]
-- 
2.43.0


From b6439e596c3183e517984ba795957610755bb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 37/51] fix: load LGP1 models as such

---
 src/python/pyfes/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c2c843..7c20105 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -393,7 +393,7 @@ class LGP(Common):
 
     def _lgp_class(self, dtype: numpy.dtype) -> LGPModel:
         """Return the class of the LGP tidal model."""
-        if self.type == LGPType.LGP1.name:
+        if self.type == LGPType.LGP1.value:
             if dtype == numpy.complex64:
                 return core.tidal_model.LGP1Complex64
             if dtype == numpy.complex128:
-- 
2.43.0


From 36bbd55494cc746d4b008c1406f1d963876c5e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 38/51] fix: reject Cartesian files that differ by their grid

---
 src/python/pyfes/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c20105..8fb738c 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -256,9 +256,9 @@ class Cartesian(Common):
             def __ne__(self, other: Any) -> bool:
                 if not isinstance(other, GridProperties):
                     return NotImplemented
-                return (self.dtype != other.dtype and self.shape != other.shape
-                        and not numpy.allclose(self.lon, other.lon)
-                        and not numpy.allclose(self.lat, other.lat))
+                return (self.dtype != other.dtype or self.shape != other.shape
+                        or not numpy.allclose(self.lon, other.lon)
+                        or not numpy.allclose(self.lat, other.lat))
 
         # The tidal model instance consists of the tidal model and the grid
         # properties.
-- 
2.43.0


From 7b6922f26aca55a6974041c959408c644cbe09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 39/51] fix: expand any number of environment variables in a
 value

---
 src/python/pyfes/config.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 8fb738c..b68952d 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -13,7 +13,6 @@ by the numerical model.
 from __future__ import annotations
 
 from typing import Any, NamedTuple, Union
-from collections.abc import Callable
 import dataclasses
 import enum
 import os
@@ -36,7 +35,7 @@ from .typing import Matrix, Vector
 TidalModel = Union[AbstractTidalModelComplex64, AbstractTidalModelComplex128]
 
 #: Pattern to search for an environment variable.
-PATTERN: Callable[[str], Match | None] = re.compile(r'\${(\w+)}').search
+PATTERN = re.compile(r'\${(\w+)}')
 
 #: Maximum number of nested environment variables.
 MAX_INTERPOLATION_DEPTH = 10
@@ -82,29 +81,19 @@ def _expand(rawval: str) -> str:
             itself.
     """
     result: str = rawval
-    if '$' not in result:
-        return result
-    interpolation = False
-    depth = MAX_INTERPOLATION_DEPTH
-    while depth:
-        depth -= 1
-        match: Match[str] | None = PATTERN(result)
-        if not match:
-            break
 
-        istart: int
-        iend: int
-        istart, iend = match.span(0)
+    def replace(match: Match[str]) -> str:
+        """Return the value of the environment variable matched."""
         name: str = match.group(1)
         if name in os.environ:
-            interpolation = True
-            tail: str = result[iend:]
-            result = result[:istart] + os.environ[name]
-            result += tail
-        else:
-            raise InterpolationError(
-                f"The shell variable {name!r} doesn't exist.")
-    if '$' in result and interpolation:
+            return os.environ[name]
+        raise InterpolationError(f"The shell variable {name!r} doesn't exist.")
+
+    depth = MAX_INTERPOLATION_DEPTH
+    while depth and PATTERN.search(result):
+        depth -= 1
+        result = PATTERN.sub(replace, result)
+    if PATTERN.search(result):
         raise InterpolationDepthError(
             f'Value interpolation too deeply recursive: {rawval!r}.')
     return result
-- 
2.43.0


From 836b58e2b8224fb363bf187ef9f1dcb3a7aa7ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 40/51] fix: accept the numbers YAML reads as strings

---
 src/python/pyfes/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index b68952d..6fd202d 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -296,7 +296,9 @@ class Cartesian(Common):
 
                 # Create the tidal model instance.
                 instance: TidalModel = type_name(
-                    core.Axis(lon, epsilon=self.epsilon, is_circular=True),
+                    core.Axis(lon,
+                              epsilon=float(self.epsilon),
+                              is_circular=True),
                     core.Axis(lat),
                     tide_type=TideType[self.tidal_type.upper()].value,
                     longitude_major=wave.shape[0] == len(lon),
@@ -429,7 +431,7 @@ class LGP(Common):
                         core.mesh.Index(lon, lat, triangles),
                         codes=codes,
                         tide_type=TideType[self.tidal_type.upper()].value,
-                        max_distance=self.max_distance,
+                        max_distance=float(self.max_distance),
                     )
                 instance.add_constituent(item, wave)
         assert instance is not None, 'No tidal model loaded.'
-- 
2.43.0


From ebdeaa4acc8695d86b0bc393ba69302798a35c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 41/51] fix: load square grids stored by latitude

---
 src/python/pyfes/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 6fd202d..9b20f1e 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -148,8 +148,13 @@ def load_cartesian_model(
                 'degree', 'degrees', 'deg'
         ]:
             pha = numpy.radians(pha)
+        latitude_major: bool = (ds.variables[amp_name].dimensions[:1] ==
+                                ds.variables[lat_name].dimensions)
 
     wave: Matrix = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
+    # The axes of a square grid can only be told apart by their names.
+    if latitude_major and len(lon) == len(lat):
+        wave = wave.T
 
     return lon, lat, wave
 
-- 
2.43.0


From 4f9dde3e4024a8e6686c42a7dab8a3944e50cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 42/51] fix: read the units of the phases alike in both kinds
 of models

---
 src/python/pyfes/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 9b20f1e..d195ad1 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -423,7 +423,9 @@ class LGP(Common):
                 pha: Vector = numpy.ma.filled(ds.variables[pha_name][:],
                                               numpy.nan)
 
-                if ds.variables[pha_name].units in ['degree', 'degrees']:
+                if ds.variables[pha_name].units.lower() in [
+                        'degree', 'degrees', 'deg'
+                ]:
                     pha = numpy.radians(pha)
 
                 wave: Vector = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
-- 
2.43.0


From 1f4c263b243f5b80ee351a423135cf9cd0417978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 43/51] fix: name the keys of the configuration as the code
 does

---
 docs/source/pyfes.rst | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/docs/source/pyfes.rst b/docs/source/pyfes.rst
index fbe89fb..44ff184 100644
--- a/docs/source/pyfes.rst
+++ b/docs/source/pyfes.rst
@@ -59,9 +59,9 @@ Cartesian grid
 
 The section ``cartesian`` contains the following keys:
 
-* ``lat``: the name of the netCDF variable containing the latitude of the grid
+* ``latitude``: the name of the netCDF variable containing the latitude of the grid
   points. Optional, default: ``lat``.
-* ``lon``: the name of the netCDF variable containing the longitude of the grid
+* ``longitude``: the name of the netCDF variable containing the longitude of the grid
   points. Optional, default: ``lon``.
 * ``amplitude``: the name of the netCDF variable containing the amplitude of the
   tidal constituents. Optional, default: ``amplitude``.
@@ -87,9 +87,9 @@ LGP discretization
 
 The section ``lgp`` contains the following keys:
 
-* ``lat``: the name of the netCDF variable containing the latitude of the mesh
+* ``latitude``: the name of the netCDF variable containing the latitude of the mesh
   points. Optional, default: ``lat``.
-* ``lon``: the name of the netCDF variable containing the longitude of the mesh
+* ``longitude``: the name of the netCDF variable containing the longitude of the mesh
   points. Optional, default: ``lon``.
 * ``amplitude``: the pattern of the netCDF variable containing the amplitude of
   the tidal constituents. The pattern must contain the string ``{constituent}``,
@@ -111,7 +111,7 @@ The section ``lgp`` contains the following keys:
   estimation is undefined, otherwise the estimation is extrapolated. Optional,
   default: ``0.0`` (extrapolation is not allowed).
 * ``path``: the path to the netCDF file containing the tidal constituents.
-* ``triangles``: the name of the netCDF variable containing the vertices of the
+* ``triangle``: the name of the netCDF variable containing the vertices of the
   triangles of the mesh. Optional, default: ``triangle``
 * ``type``: the type of LPG discretization. The possible values are ``lgp1`` and
   ``lpg2``. Optional, default: ``lgp1``.
@@ -128,8 +128,8 @@ The configuration file ``fes2014b.yaml``:
 
     radial:
         cartesian:
-            lat: lat
-            lon: lon
+            latitude: lat
+            longitude: lon
             amplitude: amp
             phase: pha
             epsilon: 1e-6
@@ -142,15 +142,15 @@ The configuration file ``fes2014b.yaml``:
                 Q1: ${PATH}/Q1.nc
     tide:
         lgp:
-            lat: lat
-            lon: lon
+            latitude: lat
+            longitude: lon
             dynamic: ['A5']
             amplitude: amp_{constituent}
             phase: pha_{constituent}
             codes: codes
             max_distance: 0.0
             path: ${PATH}/fes2014b_elevations.nc
-            triangles: triangle
+            triangle: triangle
             type: lgp1
 
 The Python code to instantiate the tidal model and evaluate the tide elevation:
-- 
2.43.0


From 531a6273ff7dc0332fde2d81513dba91820882d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 44/51] fix: use the formulae asked for with a list of dates

---
 src/python/pyfes/wave_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index e1fe2fc..6e5bcbe 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -54,7 +54,8 @@ class WaveTable(core.WaveTable):
             datetime64: VectorDateTime64 = numpy.array(
                 [core.datemanip.as_int64(item) for item in dates],
                 dtype='datetime64[us]')
-            return super().compute_nodal_modulations(datetime64, leap_seconds)
+            return super().compute_nodal_modulations(datetime64, leap_seconds,
+                                                     formulae)
         # The method throws an error if the dates are not datetime64
         return super().compute_nodal_modulations(
             dates,  # type: ignore
-- 
2.43.0


From 7b672259728afbc34e127bd39962376d94ea23ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 45/51] fix: look for the waves of a WaveDict by name

---
 src/python/pyfes/wave_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index 6e5bcbe..36347bf 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -181,6 +181,6 @@ class WaveDict(WaveTable):
             raise ValueError('wave must contain as many items as tidal '
                              'constituents loaded')
         wave_properties: VectorComplex128 = numpy.array(
-            [wave[item] for item in self])
+            [wave[item] for item in self.keys()])
         return super().tide_from_tide_series(dates, leap_seconds,
                                              wave_properties, formulae)
-- 
2.43.0


From 1444103625d9d4553514d975aef336a22da39b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 46/51] fix: convert meshes without O1

---
 src/python/pyfes/console_script/fes_convert_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/console_script/fes_convert_mesh.py b/src/python/pyfes/console_script/fes_convert_mesh.py
index 4c21fdc..9eaf358 100644
--- a/src/python/pyfes/console_script/fes_convert_mesh.py
+++ b/src/python/pyfes/console_script/fes_convert_mesh.py
@@ -110,7 +110,7 @@ def main():
         ds.createDimension('triangles', triangles.shape[0])
         ds.createDimension('three', 3)
         ds.createDimension('six', 6)
-        ds.createDimension('lgp2_nodes', len(waves['O1'][0]))
+        ds.createDimension('lgp2_nodes', len(amp))
 
         x_var = ds.createVariable('lon', 'f8', ('coordinates', ), zlib=True)
         x_var.units = 'degrees_east'
-- 
2.43.0


From 54fbb74d76a097298775185645254e059496dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 47/51] fix: nodal phase correction of MK4 and MSK6

---
 docs/source/core/constituent.rst | 20 ++++++++++----------
 include/fes/wave.hpp             |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/docs/source/core/constituent.rst b/docs/source/core/constituent.rst
index e3a3a5f..5d5ec2d 100644
--- a/docs/source/core/constituent.rst
+++ b/docs/source/core/constituent.rst
@@ -673,11 +673,11 @@
 
         :math:`MK_4 = M_2 + K_2`
 
-        ==================== =================================== ===============
-        V                    u                                   Factor-f
-        ==================== =================================== ===============
-        :math:`4T - 2s + 4h` :math:`2\xi - 2\nu - 2\nu^{\prime}` :math:`f(MK_4)`
-        ==================== =================================== ===============
+        ==================== ========================================== ===============
+        V                    u                                          Factor-f
+        ==================== ========================================== ===============
+        :math:`4T - 2s + 4h` :math:`2\xi - 2\nu - 2\nu^{\prime \prime}` :math:`f(MK_4)`
+        ==================== ========================================== ===============
 
     .. autoattribute:: kS4
 
@@ -773,11 +773,11 @@
 
         :math:`MSK_6 = M_2 + K_2 + S_2`
 
-        ==================== =================== =======================
-        V                    u                   Factor-f
-        ==================== =================== =======================
-        :math:`6T - 2s + 4h` :math:`2\xi - 2\nu` :math:`f(M_2) × f(K_2)`
-        ==================== =================== =======================
+        ==================== ========================================== =======================
+        V                    u                                          Factor-f
+        ==================== ========================================== =======================
+        :math:`6T - 2s + 4h` :math:`2\xi - 2\nu - 2\nu^{\prime \prime}` :math:`f(M_2) × f(K_2)`
+        ==================== ========================================== =======================
 
     .. autoattribute:: kS6
 
diff --git a/include/fes/wave.hpp b/include/fes/wave.hpp
index 81a40c3..0f7495f 100644
--- a/include/fes/wave.hpp
+++ b/include/fes/wave.hpp
@@ -1063,13 +1063,13 @@ class MS4 : public Wave {
 /// <table>
 /// <tr><th>V</th><th>u</th><th>Factor-f</th></tr>
 /// <tr><td>@f$4T - 2s + 4h@f$</td>
-/// <td>@f$2\xi - 2\nu - 2\nu^{\prime}@f$</td>
+/// <td>@f$2\xi - 2\nu - 2\nu^{\prime \prime}@f$</td>
 /// <td>@f$f(MK_4)@f$</td></tr>
 /// </table>
 class MK4 : public Wave {
  public:
   constexpr MK4()
-      : Wave(kMK4, kShortPeriod, false, 4, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0,
+      : Wave(kMK4, kShortPeriod, false, 4, -2, 4, 0, 0, 0, 0, 2, -2, 0, -2,
              &angle::Astronomic::f_m2_k2) {}
 };
 
@@ -1213,13 +1213,13 @@ class _2SM6 : public Wave {
 /// <table>
 /// <tr><th>V</th><th>u</th><th>Factor-f</th></tr>
 /// <tr><td>@f$6T - 2s + 4h@f$</td>
-/// <td>@f$2\xi - 2\nu - 2\nu^{\prime}@f$</td>
+/// <td>@f$2\xi - 2\nu - 2\nu^{\prime \prime}@f$</td>
 /// <td>@f$f(M_2) ^times f(K_2)@f$</td></tr>
 /// </table>
 class MSK6 : public Wave {
  public:
   constexpr MSK6()
-      : Wave(kMSK6, kShortPeriod, false, 6, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0,
+      : Wave(kMSK6, kShortPeriod, false, 6, -2, 4, 0, 0, 0, 0, 2, -2, 0, -2,
              &angle::Astronomic::f_m2_k2) {}
 };
 
-- 
2.43.0


From 418f7baa46eb80cea3ed8c8175ffa7793dec0394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 48/51] fix: pass the formulae to the prediction of a series

---
 src/python/core/wave/table.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/core/wave/table.cpp b/src/python/core/wave/table.cpp
index 9175597..59301c4 100644
--- a/src/python/core/wave/table.cpp
+++ b/src/python/core/wave/table.cpp
@@ -73,7 +73,8 @@ Returns:
             auto epoch = fes::python::npdatetime64_to_epoch(dates);
             {
               py::gil_scoped_release gil;
-              return self.tide_from_tide_series(epoch, leap_seconds, wave);
+              return self.tide_from_tide_series(epoch, leap_seconds, wave,
+                                                formulae);
             }
           },
           py::arg("dates"), py::arg("leap_seconds"), py::arg("wave"),
-- 
2.43.0


From befddf999bbb19a490cee59e07fb105f3ec76416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 49/51] fix: undefined tide for undefined dates

---
 include/fes/python/datetime64.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fes/python/datetime64.hpp b/include/fes/python/datetime64.hpp
index 1888890..630a874 100644
--- a/include/fes/python/datetime64.hpp
+++ b/include/fes/python/datetime64.hpp
@@ -9,6 +9,8 @@
 #include <pybind11/pybind11.h>
 
 #include <Eigen/Core>
+#include <cstdint>
+#include <limits>
 #include <string>
 
 namespace fes {
@@ -67,7 +69,10 @@ static inline auto npdatetime64_to_epoch(const pybind11::array& array)
   {
     pybind11::gil_scoped_release release;
     for (pybind11::ssize_t ix = 0; ix < ptr.size(); ++ix) {
-      result(ix) = ptr(ix) * scale;
+      // NaT is stored as the smallest integer
+      result(ix) = ptr(ix) == std::numeric_limits<int64_t>::min()
+                       ? std::numeric_limits<double>::quiet_NaN()
+                       : ptr(ix) * scale;
     }
   }
   return result;
-- 
2.43.0


From 7efc3088c9d93ea6ae8dd3ce130f57bb1e4f26bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 50/51] fix: refuse null models and meshes

---
 include/fes/tidal_model/lgp.hpp | 3 +++
 include/fes/tide.hpp            | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 4b05d3d..0babb4a 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -320,6 +320,9 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
 // /////////////////////////////////////////////////////////////////////////////
 template <typename T, int N>
 auto LGP<T, N>::check_codes() -> void {
+  if (index_ == nullptr) {
+    throw std::invalid_argument("index must not be null");
+  }
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
diff --git a/include/fes/tide.hpp b/include/fes/tide.hpp
index 31480c2..75e4bf9 100644
--- a/include/fes/tide.hpp
+++ b/include/fes/tide.hpp
@@ -36,6 +36,7 @@
 #pragma once
 #include <Eigen/Core>
 #include <limits>
+#include <stdexcept>
 #include <tuple>
 #include <vector>
 
@@ -189,6 +190,9 @@ auto evaluate_tide(const AbstractTidalModel<T>* const tidal_model,
                    const size_t num_threads = 0)
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd, Vector<Quality>> {
   // Checks the input parameters
+  if (tidal_model == nullptr) {
+    throw std::invalid_argument("tidal_model must not be null");
+  }
   detail::check_eigen_shape("epoch", epoch, "leap_seconds", leap_seconds,
                             "longitude", longitude, "latitude", latitude);
 
-- 
2.43.0


From 8b3af70e5290a7dedc1899b3790514dbe7900213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 51/51] fix: document the values of the quality flag

---
 docs/source/core/tide.rst    |  2 +-
 src/python/pyfes/__init__.py | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/docs/source/core/tide.rst b/docs/source/core/tide.rst
index 0bec6ee..738da5d 100644
--- a/docs/source/core/tide.rst
+++ b/docs/source/core/tide.rst
@@ -37,5 +37,5 @@
 
         .. note::
 
-            The flag value ``2``, ``4`` or ``8`` are only possible if the
+            The flag values ``2`` and ``3`` are only possible if the
             tidal model used is a Cartesian grid.
diff --git a/src/python/pyfes/__init__.py b/src/python/pyfes/__init__.py
index ad35c64..895bfcf 100644
--- a/src/python/pyfes/__init__.py
+++ b/src/python/pyfes/__init__.py
@@ -105,20 +105,20 @@ def evaluate_tide(
           values are
 
             ======  ==========================================================
-            1       The tide is correctly estimated.
-            2       The tide is extrapolated with the nearest mesh point.
-            4       The tide is extrapolated using a linear interpolation
-                    with two surrounding grid points.
-            8       The tide is extrapolated using a linear interpolation
-                    with three surrounding grid points.
-            16      The tide is undefined because the position is outside the
+            0       The tide is undefined because the position is outside the
                     domain of the tidal model or the numerical model is
                     undefined for the requested spatial position.
+            1       The tide is extrapolated with the nearest mesh point.
+            2       The tide is extrapolated using a linear interpolation
+                    with two surrounding grid points.
+            3       The tide is extrapolated using a linear interpolation
+                    with three surrounding grid points.
+            4       The tide is correctly estimated.
             ======  ==========================================================
 
         .. note::
 
-            The flag value ``2``, ``4`` or ``8`` are only possible if the
+            The flag values ``2`` and ``3`` are only possible if the
             tidal model used is a Cartesian grid.
     """
     return core.evaluate_tide(
-- 
2.43.0

