From 2997e2fea2ad8272226949b3abfe3e3fe4828231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 01/78] fix: nearest index lookup on descending integer axes

The rounding term of the regular integral axis was half of the signed
step: on a descending axis (or after a flip) the lookup rounded away from
the nearest index.
---
 .../core/include/pyinterp/detail/axis/container.hpp        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 9a7301b..9ae05b9 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -546,9 +546,10 @@ class Regular<T, typename std::enable_if<std::is_integral_v<T>>::type>
   /// @copydoc AbstractRegular::AbstractRegular(const T start, const T stop,
   /// const T num)
   Regular(const T start, const T stop, const T num)
-      // The inverse step of this axis is stored in order to optimize the search
-      // for an index for a given value by avoiding a division.
-      : AbstractRegular<T>(start, stop, num), step_2_(this->step_ >> 1) {}
+      // Half of the absolute value of the step: the rounding to the nearest
+      // index must not depend on the direction of the axis.
+      : AbstractRegular<T>(start, stop, num),
+        step_2_((this->step_ < 0 ? -this->step_ : this->step_) >> 1) {}
 
   /// @copydoc Abstract::find_index(double,bool) const
   [[nodiscard]] constexpr auto find_index(T coordinate,
-- 
2.43.0


From f7a894b0f242484872cc9b9ffad13cafddaeb6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 02/78] fix: nearest index between the two ends of a circle

A coordinate located between the last and the first node of a circle got the
index of the farthest end on descending axes, and of the last node whatever
the distance when bounded is true.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 7e5e0a2..d4ddbc6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -294,11 +294,13 @@ class Axis {
                                                   const bool bounded) const
       -> int64_t {
     coordinate = normalize_coordinate(coordinate);
-    auto result = axis_->find_index(coordinate, bounded);
+    // A circle has no outside: a coordinate located between its two ends must
+    // not be clamped to one of them.
+    auto result = axis_->find_index(coordinate, bounded && !is_circle_);
     if (result == -1 && is_circle_) {
-      result = (coordinate - max_value()) < (min_value() + 360 - coordinate)
-                   ? this->size() - 1
-                   : 0;
+      const auto nearest_is_max =
+          (coordinate - max_value()) < (min_value() + circle_ - coordinate);
+      result = nearest_is_max == is_ascending() ? this->size() - 1 : 0;
     }
     return result;
   }
-- 
2.43.0


From 5c89569a352028389ac527338f12a3ae9b1faa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 03/78] fix: detection of a circle on descending irregular axes

The mean increment was negative for a descending axis, which was then never
recognized as a circle.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index d4ddbc6..57fecaf 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -514,7 +514,7 @@ class Axis {
         is_circle_ = math::is_same(
             static_cast<T>(std::fabs(ptr->step() * size())), circle_, epsilon);
       } else {
-        auto increment = (axis_->back() - axis_->front()) /
+        auto increment = (axis_->max_value() - axis_->min_value()) /
                          static_cast<T>(axis_->size() - 1);
         is_circle_ = std::fabs((axis_->max_value() - axis_->min_value()) -
                                circle_) <= increment;
-- 
2.43.0


From b248bb96b36b444b00c25a18dff02e4a2d4ad421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 04/78] fix: symmetric boundary returned an index out of the
 axis

When the window goes beyond the end of the axis by its length, the symmetric
position was -1.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 57fecaf..f39d3d5 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -427,7 +427,7 @@ class Axis {
               after = math::remainder(after, len);
               break;
             case ::pyinterp::axis::kSym:
-              after = len - 2 - math::remainder(after - len, len);
+              after = math::remainder(len - 2 - (after - len), len);
               break;
             default:
               return {};
-- 
2.43.0


From 7bb3e96896745b8c78185b36b04376ee4dd7b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 05/78] fix: pickled or flipped axes forgot that they represent
 an angle

The state of an axis only kept whether it represents a full circle: the copy
of an angular axis covering part of the circle did not normalize the
coordinates any more.
---
 src/pyinterp/core/include/pyinterp/axis.hpp        | 9 +++++----
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index b846c03..4084a3d 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -203,7 +203,7 @@ class Axis : public detail::Axis<T>,
       if (ptr != nullptr) {
         return pybind11::make_tuple(detail::axis::REGULAR, ptr->front(),
                                     ptr->back(), ptr->size(),
-                                    this->is_circle());
+                                    this->is_circle(), this->is_angle());
       }
     }
     // Irregular
@@ -217,7 +217,7 @@ class Axis : public detail::Axis<T>,
           _values[ix] = ptr->coordinate_value(ix);
         }
         return pybind11::make_tuple(detail::axis::IRREGULAR, values,
-                                    this->is_circle());
+                                    this->is_circle(), this->is_angle());
       }
     }
     // Undefined
@@ -246,14 +246,15 @@ class Axis : public detail::Axis<T>,
             std::unique_ptr<detail::axis::container::Abstract<T>>(
                 new detail::axis::container::Irregular<T>(Eigen::Map<Vector<T>>(
                     ndarray.mutable_data(), ndarray.size()))),
-            state[2].cast<bool>());
+            state[2].cast<bool>(), state[state.size() > 3 ? 3 : 2].cast<bool>());
       }
       case detail::axis::REGULAR:
         return Axis(std::unique_ptr<detail::axis::container::Abstract<T>>(
                         new detail::axis::container::Regular<T>(
                             state[1].cast<T>(), state[2].cast<T>(),
                             state[3].cast<T>())),
-                    state[4].cast<bool>());
+                    state[4].cast<bool>(),
+                    state[state.size() > 5 ? 5 : 4].cast<bool>());
       default:
         throw std::invalid_argument("invalid state");
     }
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index f39d3d5..3964238 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -464,10 +464,12 @@ class Axis {
   /// Construction of a serialized instance.
   ///
   /// @param axis Axis handler
-  /// @param is_circle True, if the axis can represent a circle.
-  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle)
+  /// @param is_circle True, if the axis represents a circle.
+  /// @param is_angle True, if the axis represents an angle.
+  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle,
+       const bool is_angle)
       : is_circle_(is_circle),
-        circle_(is_circle_ ? T(360) : math::Fill<T>::value()),
+        circle_(is_angle ? T(360) : math::Fill<T>::value()),
         axis_(std::move(axis)) {}
 
  private:
-- 
2.43.0


From 3bbfd1912330c757dab77ec216b0045f141ab2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 06/78] fix: membership of dates read past the end of the
 period list

The period was dereferenced before being compared to the end of the list.
---
 src/pyinterp/core/include/pyinterp/period.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 65e388f..6fbf101 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -326,7 +326,7 @@ class PeriodList {
 
       while (ix < dates.size()) {
         const auto date = dates(ix);
-        while (!it->contains(date) && !it->is_after(date) && it != end) {
+        while (it != end && !it->contains(date) && !it->is_after(date)) {
           ++it;
         }
         if (it == end) {
-- 
2.43.0


From a7875b427cabdc319d99fa340d0c8933aba426d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 07/78] fix: cross_a_period read before the beginning of an
 empty set of dates

---
 src/pyinterp/core/include/pyinterp/period.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 6fbf101..b1454ad 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -255,6 +255,11 @@ class PeriodList {
     auto flags = Eigen::Matrix<bool, -1, 1>(dates.size());
     flags.setConstant(false);
 
+    // No date, nothing to search for.
+    if (dates.size() == 0) {
+      return flags;
+    }
+
     // Index of the traversed date.
     auto ix = int64_t(0);
 
-- 
2.43.0


From 75ef7c1893b9a342a040e9113293f4b1f533f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 08/78] fix: merging period lists of different resolutions

A structured array cannot be cast to a datetime64 dtype: the merge raised a
TypeError.
---
 src/pyinterp/period.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index e13397f..c7794fa 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -431,7 +431,9 @@ class PeriodList:
             A new PeriodList with the periods merged.
         """
         if self._datetime64 != other._datetime64:
-            periods = other.periods.astype(self._datetime64)
+            periods = numpy.array(
+                [other.periods['begin'],
+                 other.periods['last']]).astype(self._datetime64)
             other = PeriodList(periods, dtype=self._datetime64)
         self._instance.merge(other._instance)
         return self
-- 
2.43.0


From a01f35621c4ffdc6d63f22d4e62b0eb48a15368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 09/78] fix: period lists compared to a period of another
 resolution

The integer bounds of the period were used as they are, whatever their unit.
---
 src/pyinterp/period.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index c7794fa..08b0cd1 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -370,6 +370,13 @@ class PeriodList:
             return self
         return PeriodList(instance, dtype=self._datetime64)
 
+    def _as_resolution(self, period: Period) -> Period:
+        """Converts the period to the resolution of the list."""
+        resolution = _time64_unit(self._datetime64)
+        if period.resolution != resolution:
+            return period.as_resolution(resolution)
+        return period
+
     def within(self, period: Period) -> PeriodList:
         """Returns a PeriodList containing only periods within the given
         period.
@@ -380,7 +387,8 @@ class PeriodList:
         Returns:
             A new PeriodList with only periods within the given period.
         """
-        return PeriodList(self._instance.within(period.as_base_class()),
+        return PeriodList(self._instance.within(
+            self._as_resolution(period).as_base_class()),
                           dtype=self._datetime64)
 
     def intersection(self, period: Period) -> PeriodList:
@@ -394,7 +402,8 @@ class PeriodList:
             A new PeriodList with only periods that intersect the given
             period.
         """
-        return PeriodList(self._instance.intersection(period.as_base_class()),
+        return PeriodList(self._instance.intersection(
+            self._as_resolution(period).as_base_class()),
                           dtype=self._datetime64)
 
     def duration(self) -> NDArrayTimeDelta:
-- 
2.43.0


From d9fb1a02956dbdd50dcbe48a4a00356a6f1490a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 10/78] fix: linear interpolation between the two ends of a
 circle

---
 .../core/include/pyinterp/bivariate.hpp       |  6 ++---
 src/pyinterp/core/include/pyinterp/grid.hpp   | 27 +++++++++++++++++++
 .../core/include/pyinterp/quadrivariate.hpp   |  7 ++---
 .../core/include/pyinterp/trivariate.hpp      |  7 ++---
 4 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index bc36a5a..1d3399b 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -83,10 +83,10 @@ inline auto _bivariate(
     auto [ix0, ix1] = *x_indexes;
     auto [iy0, iy1] = *y_indexes;
 
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y);
+    auto [px, x0, x1] = Grid2D<Type>::unroll(x_axis, x, ix0, ix1);
+    auto p = Point<Coordinate>(px, y);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1));
 
     return interpolator->evaluate(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0)),
diff --git a/src/pyinterp/core/include/pyinterp/grid.hpp b/src/pyinterp/core/include/pyinterp/grid.hpp
index 8256eda..2ac48a5 100644
--- a/src/pyinterp/core/include/pyinterp/grid.hpp
+++ b/src/pyinterp/core/include/pyinterp/grid.hpp
@@ -5,8 +5,10 @@
 #pragma once
 #include <pybind11/numpy.h>
 
+#include <algorithm>
 #include <memory>
 #include <string>
+#include <tuple>
 #include <utility>
 
 #include "pyinterp/axis.hpp"
@@ -83,6 +85,31 @@ class Grid2D {
     return ptr_(std::forward<Index>(index)...);
   }
 
+  /// Gets the coordinates of the two X nodes framing a position and the
+  /// position itself, unrolled so that the position is located between the two
+  /// nodes even if they are on either side of the bounds of a circle.
+  ///
+  /// @param axis X-Axis
+  /// @param x Position
+  /// @param ix0 Index of the first node
+  /// @param ix1 Index of the second node
+  /// @return a tuple that contains the position and the coordinates of the nodes
+  static auto unroll(const Axis<double> &axis, const double x,
+                     const int64_t ix0, const int64_t ix1)
+      -> std::tuple<double, double, double> {
+    auto x0 = axis(ix0);
+    auto x1 = axis(ix1);
+    const auto normalized = axis.normalize_coordinate(x);
+    if (axis.is_circle() && normalized > std::max(x0, x1)) {
+      if (x0 < x1) {
+        x0 = axis.normalize_coordinate(x0, x1);
+      } else {
+        x1 = axis.normalize_coordinate(x1, x0);
+      }
+    }
+    return {normalized, x0, x1};
+  }
+
   /// Throws an exception indicating that the value searched on the axis is
   /// outside the domain axis.
   ///
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index fa3b694..0eb295f 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -62,10 +62,11 @@ inline auto _quadrivariate(
     auto [iu0, iu1] = *u_indexes;
 
     // The fourth coordinate is not used by the 3D interpolator.
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto [px, x0, x1] =
+        Grid4D<Type, AxisType>::unroll(x_axis, x, ix0, ix1);
+    auto p = Point<Coordinate>(px, y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     auto u0 = pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0, iu0)),
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 8d53c30..15d6860 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -42,10 +42,11 @@ inline auto _trivariate(const Grid3D<Type, AxisType> &grid, const Coordinate &x,
     auto [iz0, iz1] = *z_indexes;
 
     // The fourth coordinate is not used by the 3D interpolator.
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto [px, x0, x1] =
+        Grid3D<Type, AxisType>::unroll(x_axis, x, ix0, ix1);
+    auto p = Point<Coordinate>(px, y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     return pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0)),
-- 
2.43.0


From 0e4b3aebad8198472f1172b2ed76cf6761631e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 11/78] fix: not a number has no index on an axis

---
 .../core/include/pyinterp/detail/axis.hpp     | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 3964238..89b828d 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -11,6 +11,7 @@
 #include <stdexcept>
 #include <string>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -275,6 +276,9 @@ class Axis {
   /// @return index of the grid point containing it or -1 if outside grid area
   [[nodiscard]] constexpr auto find_index(const T coordinate,
                                           const bool bounded) const -> int64_t {
+    if (is_undefined(coordinate)) {
+      return -1;
+    }
     return axis_->find_index(normalize_coordinate(coordinate), bounded);
   }
 
@@ -293,6 +297,9 @@ class Axis {
   [[nodiscard]] constexpr auto find_nearest_index(T coordinate,
                                                   const bool bounded) const
       -> int64_t {
+    if (is_undefined(coordinate)) {
+      return -1;
+    }
     coordinate = normalize_coordinate(coordinate);
     // A circle has no outside: a coordinate located between its two ends must
     // not be clamped to one of them.
@@ -316,6 +323,9 @@ class Axis {
   /// the tuple (i0, i1)
   [[nodiscard]] auto find_indexes(T coordinate) const
       -> std::optional<std::tuple<int64_t, int64_t>> {
+    if (is_undefined(coordinate)) {
+      return {};
+    }
     coordinate = normalize_coordinate(coordinate);
     auto length = size();
     auto i0 = find_index(coordinate, false);
@@ -484,6 +494,15 @@ class Axis {
   std::unique_ptr<axis::container::Abstract<T>> axis_{
       std::make_unique<axis::container::Undefined<T>>()};
 
+  /// True if the coordinate is not a number: no index matches it.
+  [[nodiscard]] static constexpr auto is_undefined(const T coordinate) noexcept
+      -> bool {
+    if constexpr (std::is_floating_point_v<T>) {
+      return std::isnan(coordinate);
+    }
+    return false;
+  }
+
   /// Clone the axis container
   [[nodiscard]] inline auto clone() const
       -> std::unique_ptr<axis::container::Abstract<T>> {
-- 
2.43.0


From 6ae65c8533551b279d9e7848283fe7bf6e33dd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 12/78] fix: nearest level of grids with a temporal axis

The squares of the differences between dates overflow.
---
 .../core/include/pyinterp/detail/math/nearest.hpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
index 0f3456c..9404e10 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
@@ -17,10 +17,10 @@ namespace pyinterp::detail::math {
 template <typename T, typename U = T>
 constexpr auto nearest(const T &x, const T &x0, const T &x1, const U &y0,
                        const U &y1) noexcept -> U {
-  // we use a comparable distance, there's no need to calculate the square root
-  // here
-  auto dx0 = sqr(x0 - x);
-  auto dx1 = sqr(x1 - x);
+  // The differences are compared, and not their squares which overflow for
+  // dates.
+  auto dx0 = x0 < x ? x - x0 : x0 - x;
+  auto dx1 = x1 < x ? x - x1 : x1 - x;
 
   return dx0 < dx1 ? y0 : y1;
 }
-- 
2.43.0


From 935fef7f8e16e660fd6f13ae5af98dabe9b29976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 13/78] fix: statistics along an axis of arrays holding a
 dimension of size one

numpy gives a null stride to the dimensions it inserts: division by zero.
---
 src/pyinterp/core/include/pyinterp/detail/numpy.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
index 3ac5482..e48924b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
@@ -63,10 +63,17 @@ template <typename T>
   // Preserved strides of the processed tensor.
   auto adjusted_strides = Vector<pybind11::ssize_t>(ndim);
 
+  // The tensor is contiguous, but numpy does not define the stride of a
+  // dimension of size one: strides are deduced from the shape.
+  auto stride = pybind11::ssize_t(1);
+  for (auto ix = ndim - 1; ix >= 0; --ix) {
+    strides[ix] = stride;
+    stride *= arr.shape(ix);
+  }
+
   // Calculation of the shape of the reduced tensor.
   for (pybind11::ssize_t ix = 0; ix < arr.ndim(); ++ix) {
     auto dim = arr.shape(ix);
-    strides[ix] = arr.strides(ix) / sizeof(T);
 
     // We keep this dimension?
     if (std::find(axes.begin(), axes.end(), ix) == axes.end()) {
-- 
2.43.0


From 86145324ea030124e6c8e061d0036cc5fd6df7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 14/78] fix: merge of descriptive statistics of empty or
 weightless samples

Merging the statistics of an empty set of samples changed the extrema (or gave
NaN), and the samples of null weight pushed first were forgotten.
---
 .../detail/math/descriptive_statistics.hpp        | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
index e0ac125..2515c60 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
@@ -51,7 +51,7 @@ class DescriptiveStatistics {
   constexpr auto operator()(const T &value) noexcept -> void {
     const auto r = acc_.sum_of_weights;
 
-    if (r == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, 1));
     } else {
       acc_.sum_of_weights += 1;
@@ -84,7 +84,7 @@ class DescriptiveStatistics {
 
   /// push a new value into the accumulator associated with a weight
   constexpr auto operator()(const T &value, const T &weight) noexcept -> void {
-    if (acc_.sum_of_weights == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, weight));
     } else {
       this->operator+=(DescriptiveStatistics(value, weight));
@@ -152,6 +152,15 @@ class DescriptiveStatistics {
   /// Combines two accumulators.
   constexpr auto operator+=(const DescriptiveStatistics &rhs) noexcept
       -> DescriptiveStatistics & {
+    // The extrema of an empty set of samples are not defined.
+    if (rhs.acc_.count == 0) {
+      return *this;
+    }
+    if (acc_.count == 0) {
+      acc_ = rhs.acc_;
+      return *this;
+    }
+
     auto w = acc_.sum_of_weights + rhs.acc_.sum_of_weights;
 
     if (rhs.acc_.min < acc_.min) {
@@ -163,7 +172,7 @@ class DescriptiveStatistics {
     }
 
     const auto delta = rhs.acc_.mean - acc_.mean;
-    const auto delta_w = delta / w;
+    const auto delta_w = w == 0 ? T(0) : delta / w;
     const auto delta2_w2 = delta_w * delta_w;
 
     const auto w2 = acc_.sum_of_weights * acc_.sum_of_weights;
-- 
2.43.0


From a1df57ca2259321e0cb643921815622c13891b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 15/78] fix: the sum of two descriptive statistics modified the
 first one

---
 src/pyinterp/statistics/descriptive_descriptive.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyinterp/statistics/descriptive_descriptive.py b/src/pyinterp/statistics/descriptive_descriptive.py
index 9c47d6d..bfdf3e1 100644
--- a/src/pyinterp/statistics/descriptive_descriptive.py
+++ b/src/pyinterp/statistics/descriptive_descriptive.py
@@ -16,7 +16,6 @@ if sys.version_info[:2] > (3, 10):
     from typing import Self
 else:
     Self = 'DescriptiveStatistics'
-import copy
 
 import dask.array.core
 import numpy
@@ -146,7 +145,7 @@ class DescriptiveStatistics:
             if type(self._instance) != type(other._instance):  # noqa: E721
                 raise TypeError(
                     'Descriptive statistics must have the same type')
-            result = copy.copy(self)
+            result = self.copy()
             result += other
             return result
         raise TypeError('unsupported operand type(s) for +='
-- 
2.43.0


From 4f66f00402b673da28c5acef2e2ee38ee610cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 16/78] fix: maximum of a streaming histogram of negative
 values

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 481e3ec..a48ee22 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -258,7 +258,7 @@ class StreamingHistogram {
   size_t bin_count_{100};
   uint64_t count_{0};
   T min_{std::numeric_limits<T>::max()};
-  T max_{std::numeric_limits<T>::min()};
+  T max_{std::numeric_limits<T>::lowest()};
   std::vector<Bin<T>> bins_{};
 
   /// Update the histogram with the provided value.
-- 
2.43.0


From 4db75b76c19ae02dc80a285785cb52c84a0ab3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 17/78] fix: a streaming histogram added to itself read its
 bins while updating them

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index a48ee22..914be55 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -162,6 +162,11 @@ class StreamingHistogram {
 
   /// Merges the provided histogram into the current one.
   inline auto operator+=(const StreamingHistogram<T> &other) -> void {
+    if (this == &other) {
+      // The bins cannot be read while they are modified.
+      *this += StreamingHistogram<T>(other);
+      return;
+    }
     count_ += other.count_;
     if (other.min_ < min_) {
       min_ = other.min_;
-- 
2.43.0


From aba17a7a9ac85c17e0c9f23bd33bcdb61cee7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 18/78] fix: streaming histograms without any bin, or with bins
 infinitely apart

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 914be55..3c9401a 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -61,7 +61,7 @@ class BinDifferences {
 
  private:
   std::function<T(const Bin<T> &, const Bin<T> &)> calculate_;
-  size_t index_{std::numeric_limits<size_t>::max()};
+  size_t index_{0};
   T diff_{std::numeric_limits<T>::max()};
 
   /// Simple difference calculation.
@@ -302,6 +302,10 @@ class StreamingHistogram {
 
   /// Compress the histogram if necessary.
   auto trim() -> void {
+    if (bin_count_ == 0) {
+      bins_.clear();
+      return;
+    }
     while (bins_.size() > bin_count_) {
       // Find a point qi that minimizes qi+1 - qi
       auto ix = BinDifferences<T>(bins_, weighted_diff_).index();
-- 
2.43.0


From 08a51963d67e0b7e1118853fbe78488e6958a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 19/78] fix: merging two bins of a streaming histogram with
 null weights

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 3c9401a..dc123ca 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -315,9 +315,12 @@ class StreamingHistogram {
       const auto &item1 = bins_[++ix];
 
       // by the bin ((qi * ki + qi+1 * ki+1) / (ki + ki+1), ki + ki+1)
-      item0 = {(item0.value * item0.weight + item1.value * item1.weight) /
-                   (item0.weight + item1.weight),
-               item0.weight + item1.weight};
+      const auto weight = item0.weight + item1.weight;
+      if (weight != 0) {
+        item0 = {
+            (item0.value * item0.weight + item1.value * item1.weight) / weight,
+            weight};
+      }
       bins_.erase(bins_.begin() + ix);
     }
   }
-- 
2.43.0


From 42f40d64503be4e391f208cfc9e8baeda9128a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 20/78] fix: quantiles of a streaming histogram read past its
 bins

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index dc123ca..fbdd008 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -201,7 +201,7 @@ class StreamingHistogram {
       return std::numeric_limits<T>::quiet_NaN();
     }
 
-    if (quantile < 0.0 || quantile > 1.0) {
+    if (!(quantile >= 0.0 && quantile <= 1.0)) {
       throw std::invalid_argument("Quantile must be in the range [0, 1]");
     }
 
@@ -221,8 +221,8 @@ class StreamingHistogram {
 
     auto ix = static_cast<size_t>(0);
     auto mb = qw - bins_.front().weight * 0.5;
-    while (mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0 &&
-           ix < bins_.size() - 1) {
+    while (ix + 2 < bins_.size() &&
+           mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0) {
       mb -= (bins_[ix].weight + bins_[ix + 1].weight) * 0.5;
       ix += 1;
     }
-- 
2.43.0


From ae8bcd306aa7e8bf6b71353f1d92025a73fdc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 21/78] fix: samples between the ends of a circle went to the
 last bin

---
 src/pyinterp/core/include/pyinterp/binning.hpp     | 6 +++---
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index adc2197..d78fb37 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -295,8 +295,8 @@ class Binning2D {
         auto value = _z(idx);
 
         if (!std::isnan(value)) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             acc_(ix, iy)(value);
@@ -405,7 +405,7 @@ class Binning1D : public Binning2D<T> {
         if (!std::isnan(value)) {
           auto xi = _x(idx);
           if (xi >= this->x_min_ && xi <= this->x_max_) {
-            auto ix = x_axis.find_index(xi, true);
+            auto ix = x_axis.find_nearest_index(xi, true);
 
             if (ix != -1) {
               auto weight = weights.has_value() ? _weights(idx) : 1;
diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index c53a5a4..352b9c7 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -93,8 +93,8 @@ class Histogram2D {
         auto value = _z(idx);
 
         if (!std::isnan(value)) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             histogram_(ix, iy)(value);
-- 
2.43.0


From 2fc50d42d32b97455092a0380a27b08de237f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 22/78] fix: linear binning of samples between the ends of a
 circle

---
 .../core/include/pyinterp/binning.hpp         | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index d78fb37..62055b6 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -6,6 +6,7 @@
 #include <pybind11/numpy.h>
 
 #include <Eigen/Core>
+#include <algorithm>
 #include <boost/geometry.hpp>
 #include <iostream>
 #include <limits>
@@ -315,6 +316,25 @@ class Binning2D {
     }
   }
 
+  /// Gets the position of a sample and the coordinates of the nodes framing it,
+  /// unrolled so that the sample is located between the two nodes even if they
+  /// are on either side of the bounds of a circle.
+  static auto unroll(const pyinterp::detail::Axis<double> &axis, const double x,
+                     const int64_t ix0, const int64_t ix1)
+      -> std::tuple<double, double, double> {
+    auto x0 = axis(ix0);
+    auto x1 = axis(ix1);
+    const auto normalized = axis.normalize_coordinate(x);
+    if (axis.is_circle() && normalized > std::max(x0, x1)) {
+      if (x0 < x1) {
+        x0 = axis.normalize_coordinate(x0, x1);
+      } else {
+        x1 = axis.normalize_coordinate(x1, x0);
+      }
+    }
+    return {normalized, x0, x1};
+  }
+
   /// Set bins with nearest binning.
   template <template <class> class Point, typename Strategy>
   void push_linear(const pybind11::array_t<T> &x, const pybind11::array_t<T> &y,
@@ -342,16 +362,12 @@ class Binning2D {
           auto [ix0, ix1] = *x_indexes;
           auto [iy0, iy1] = *y_indexes;
 
-          auto x0 = x_axis(ix0);
+          auto [xi, x0, x1] = unroll(x_axis, _x(idx), ix0, ix1);
+          auto [yi, y0, y1] = unroll(y_axis, _y(idx), iy0, iy1);
 
           auto weights = detail::math::binning_2d<Point, Strategy, double>(
-              Point<double>(x_axis.is_angle()
-                                ? detail::math::normalize_angle<double>(
-                                      _x(idx), x0, 360.0)
-                                : _x(idx),
-                            _y(idx)),
-              Point<double>(x0, y_axis(iy0)),
-              Point<double>(x_axis(ix1), y_axis(iy1)), strategy);
+              Point<double>(xi, yi), Point<double>(x0, y0),
+              Point<double>(x1, y1), strategy);
 
           update_acc(ix0, iy0, value, static_cast<T>(std::get<0>(weights)));
           update_acc(ix0, iy1, value, static_cast<T>(std::get<1>(weights)));
-- 
2.43.0


From 42cff645a578d1010dec1eaa4af26f0082f4abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 23/78] fix: a geodetic binning lost its spheroid when
 unpickled

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index 62055b6..ef1c986 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -192,7 +192,7 @@ class Binning2D {
     auto wgs = std::optional<geodetic::Spheroid>();
     auto wgs_state = state[2].cast<pybind11::tuple>();
     if (!wgs_state.empty()) {
-      *wgs = geodetic::Spheroid::setstate(wgs_state);
+      wgs = geodetic::Spheroid::setstate(wgs_state);
     }
 
     // Unmarshalling computed statistics
-- 
2.43.0


From bdedbe427b5fa539837f8aa1d585bca8cd3b6151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 24/78] fix: one-dimensional binning of arrays of different
 sizes read out of bounds

---
 src/pyinterp/binning.py                        | 2 ++
 src/pyinterp/core/include/pyinterp/binning.hpp | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index cf976c9..ba277dd 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -306,6 +306,8 @@ class Binning1D:
         """
         x = numpy.asarray(x).ravel()
         z = numpy.asarray(z).ravel()
+        if weights is not None:
+            weights = numpy.asarray(weights).ravel()
         self._instance.push(x, z, weights)
 
     def push_delayed(
diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index ef1c986..047123c 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -403,6 +403,13 @@ class Binning1D : public Binning2D<T> {
   /// @param z values of the points.
   void push(const pybind11::array_t<T> &x, const pybind11::array_t<T> &z,
             const std::optional<pybind11::array_t<T>> &weights = std::nullopt) {
+    detail::check_array_ndim("x", 1, x, "z", 1, z);
+    detail::check_ndarray_shape("x", x, "z", z);
+    if (weights.has_value()) {
+      detail::check_array_ndim("weights", 1, *weights);
+      detail::check_ndarray_shape("x", x, "weights", *weights);
+    }
+
     auto _x = x.template unchecked<1>();
     auto _z = z.template unchecked<1>();
     auto _weights = weights.has_value()
-- 
2.43.0


From 5d0797a19ca8fc45b4cdcd60058477c80528999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 25/78] fix: the copy of a one-dimensional binning was
 two-dimensional

---
 src/pyinterp/core/module/binning.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pyinterp/core/module/binning.cpp b/src/pyinterp/core/module/binning.cpp
index 80cc4e9..24d3ae4 100644
--- a/src/pyinterp/core/module/binning.cpp
+++ b/src/pyinterp/core/module/binning.cpp
@@ -194,6 +194,24 @@ Gets the range of the binning.
 Returns:
     Range of the binning.
 )__doc__")
+      .def(
+          "__iadd__",
+          [](pyinterp::Binning1D<Type> &self,
+             const pyinterp::Binning1D<Type> &other)
+              -> pyinterp::Binning1D<Type> & {
+            self += other;
+            return self;
+          },
+          py::arg("other"),
+          "Overrides the default behavior of the ``+=`` operator.",
+          py::call_guard<py::gil_scoped_release>())
+      .def(
+          "__copy__",
+          [](const pyinterp::Binning1D<Type> &self) {
+            return pyinterp::Binning1D<Type>(self);
+          },
+          "Implements the shallow copy operation.",
+          py::call_guard<py::gil_scoped_release>())
       .def(py::pickle(
           [](const pyinterp::Binning1D<Type> &self) { return self.getstate(); },
           [](const py::tuple &state) {
-- 
2.43.0


From bfff3ea4bbcf7301935b3047ede95e9c1159f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 26/78] fix: the sum of two binnings modified the first one

---
 src/pyinterp/binning.py     | 2 ++
 src/pyinterp/histogram2d.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index ba277dd..30554f1 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -95,6 +95,7 @@ class Binning2D:
         result = copy.copy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning2D instance must be of the same type')
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
@@ -286,6 +287,7 @@ class Binning1D:
         result = copy.copy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning1D instance must be of the same type')
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index f03c957..ee792a3 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -106,6 +106,7 @@ class Histogram2D:
         if self.dtype != other.dtype:
             raise ValueError('dtype mismatch')
         result = copy.copy(self)
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
-- 
2.43.0


From aa27c58f1c751254b2070434a80b5934bb4290b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 27/78] fix: delayed binning ignored the range and the data
 type of the instance

---
 src/pyinterp/binning.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index 30554f1..58e062f 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -180,8 +180,8 @@ class Binning2D:
         y = dask.array.core.asarray(y)
         z = dask.array.core.asarray(z)
 
-        def _process_block(x, y, z, x_axis, y_axis, wgs, simple):
-            binning = Binning2D(x_axis, y_axis, wgs)
+        def _process_block(x, y, z, x_axis, y_axis, wgs, simple, binning_type):
+            binning = Binning2D(x_axis, y_axis, wgs, binning_type)
             binning.push(x, y, z, simple)
             return numpy.array([binning], dtype='object')
 
@@ -193,6 +193,7 @@ class Binning2D:
                                           self.y,
                                           self.wgs,
                                           simple,
+                                          self.dtype,
                                           dtype='object').sum()
 
     def variable(self, statistics: str = 'mean') -> numpy.ndarray:
@@ -341,8 +342,8 @@ class Binning1D:
         if weights is not None:
             weights = dask.array.core.asarray(weights).ravel()
 
-        def _process_block(x, z, weights, x_axis):
-            binning = Binning1D(x_axis)
+        def _process_block(x, z, weights, x_axis, x_range, binning_type):
+            binning = Binning1D(x_axis, x_range, binning_type)
             binning.push(x, z, weights)
             return numpy.array([binning], dtype='object')
 
@@ -351,6 +352,8 @@ class Binning1D:
                                           z.ravel(),
                                           weights,
                                           self.x,
+                                          self.range(),
+                                          self.dtype,
                                           dtype='object').sum()
 
     def variable(self, statistics: str = 'mean') -> numpy.ndarray:
-- 
2.43.0


From 295a93c78dd9865b2f691a0d8823ae7250032aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 28/78] fix: merging 2D histograms changed the number of bins
 of empty pixels

---
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index 352b9c7..8814123 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -208,12 +208,9 @@ class Histogram2D {
         auto &lhs = histogram_(ix, iy);
         auto &rhs = other.histogram_(ix, iy);
 
-        // Statistics are defined only in the other instance.
-        if (lhs.size() == 0 && rhs.size() != 0) {
-          lhs = rhs;
-          // If the statistics are defined in both instances they can be
-          // combined.
-        } else if (lhs.size() != 0 && rhs.size() != 0) {
+        // Only the statistics of the other instance are taken: the maximum
+        // number of bins of this instance does not change.
+        if (rhs.size() != 0) {
           lhs += rhs;
         }
       }
-- 
2.43.0


From 8ca4dad42a6d79f637526c1974d0742e43f18f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 29/78] fix: delayed 2D histograms ignored the number of bins
 of the instance

---
 src/pyinterp/histogram2d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index ee792a3..a6da0d6 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -77,6 +77,7 @@ class Histogram2D:
         else:
             raise ValueError(f'dtype {dtype} not handled by the object')
         self.dtype = dtype
+        self.bin_counts = bin_counts
 
     @property
     def x(self) -> core.Axis:
@@ -150,8 +151,8 @@ class Histogram2D:
         y = dask.array.core.asarray(y)
         z = dask.array.core.asarray(z)
 
-        def _process_block(x, y, z, x_axis, y_axis, dtype):
-            hist2d = Histogram2D(x_axis, y_axis, dtype=dtype)
+        def _process_block(x, y, z, x_axis, y_axis, bin_counts, dtype):
+            hist2d = Histogram2D(x_axis, y_axis, bin_counts, dtype)
             hist2d.push(x, y, z)
             return numpy.array([hist2d], dtype='object')
 
@@ -161,6 +162,7 @@ class Histogram2D:
                                           z.ravel(),
                                           self.x,
                                           self.y,
+                                          self.bin_counts,
                                           self.dtype,
                                           dtype='object').sum()
 
-- 
2.43.0


From a3d8765fb60c4d9e1258d36f0e9b7e0cbf2432fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 30/78] fix: merging 2D histograms without any bin lost the
 count of their samples

---
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index 8814123..8bb54ce 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -210,7 +210,7 @@ class Histogram2D {
 
         // Only the statistics of the other instance are taken: the maximum
         // number of bins of this instance does not change.
-        if (rhs.size() != 0) {
+        if (rhs.count() != 0) {
           lhs += rhs;
         }
       }
-- 
2.43.0


From ba35cbbdf24753c007499e53d4973d7a6c71e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 31/78] fix: bounds of a RTree were wrong if all the
 coordinates are negative

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index c86cb38..954cd0d 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -104,11 +104,11 @@ class RTree : public detail::geometry::RTree<Point, Type> {
     }
 
     auto x0 = std::numeric_limits<coordinate_t>::max();
-    auto x1 = std::numeric_limits<coordinate_t>::min();
+    auto x1 = std::numeric_limits<coordinate_t>::lowest();
     auto y0 = std::numeric_limits<coordinate_t>::max();
-    auto y1 = std::numeric_limits<coordinate_t>::min();
+    auto y1 = std::numeric_limits<coordinate_t>::lowest();
     auto z0 = std::numeric_limits<coordinate_t>::max();
-    auto z1 = std::numeric_limits<coordinate_t>::min();
+    auto z1 = std::numeric_limits<coordinate_t>::lowest();
 
     std::for_each(this->tree_->begin(), this->tree_->end(),
                   [&](const auto &item) {
-- 
2.43.0


From a048b168ede9af0b8371086a065ccd999c689113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 32/78] fix: bounds of a RTree handling Cartesian coordinates
 were converted

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 954cd0d..7b3f201 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -103,6 +103,18 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       return pybind11::make_tuple();
     }
 
+    if (ecef_) {
+      // No conversion to the LLA system is performed.
+      auto box = base_t::bounds().value();
+      auto corner = [](const Point &point) {
+        return pybind11::make_tuple(boost::geometry::get<0>(point),
+                                    boost::geometry::get<1>(point),
+                                    boost::geometry::get<2>(point));
+      };
+      return pybind11::make_tuple(corner(box.min_corner()),
+                                  corner(box.max_corner()));
+    }
+
     auto x0 = std::numeric_limits<coordinate_t>::max();
     auto x1 = std::numeric_limits<coordinate_t>::lowest();
     auto y0 = std::numeric_limits<coordinate_t>::max();
-- 
2.43.0


From 0d1f3a9393140456ca200c58ed4ef8da62699b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 33/78] fix: a RTree handling Cartesian coordinates could not
 be unpickled

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 7b3f201..dfb3cfc 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -409,7 +409,10 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       }
       vector.emplace_back(std::make_pair(point, _u(ix)));
     }
-    auto result = RTree<Point, Type>(spheroid, ecef);
+    auto result =
+        ecef ? RTree<Point, Type>(std::nullopt, ecef)
+             : RTree<Point, Type>(
+                   std::optional<detail::geodetic::Spheroid>(spheroid), ecef);
     static_cast<base_t>(result).packing(vector);
     return result;
   }
-- 
2.43.0


From d21d3490106c89d8891b7ecf8aa4ae393bcb16fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 34/78] fix: wrong number of neighbors used when the position
 is a stored point

---
 src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
index 98dd7a6..28972c4 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
@@ -297,7 +297,7 @@ class RTree {
       const auto distance = item.first;
       if (distance < 1e-6) {
         // If the user has requested a grid point, the mesh value is returned.
-        return std::make_pair(item.second, k);
+        return std::make_pair(item.second, static_cast<uint32_t>(1));
       }
 
       if (distance <= radius) {
-- 
2.43.0


From ae62d7ed9394ccd27a56db0873dc5138a7aa2494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 35/78] fix: window function undefined if all the neighbors are
 at the position

---
 .../core/include/pyinterp/detail/geometry/rtree.hpp        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
index 28972c4..98a2485 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
@@ -563,7 +563,12 @@ class RTree {
         break;
       }
 
-      auto wk = wf(static_cast<coordinate_t>(distance), furthest_neighbor, arg);
+      // If the size of the window is null, all the selected points are at the
+      // requested position.
+      auto wk = furthest_neighbor > 0
+                    ? wf(static_cast<coordinate_t>(distance),
+                         furthest_neighbor, arg)
+                    : coordinate_t(1);
       total_weight += wk;
       result += item.second * wk;
       ++neighbors;
-- 
2.43.0


From 8f3114af8300c98e5d9860aa8b2ce35cb48b5af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 36/78] fix: universal kriging ignored the altitude of the
 positions

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index dfb3cfc..6f1be6b 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -348,7 +348,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       case dimension_t::value:
         return _universal_kriging<dimension_t::value>(
             ecef_ ? &RTree<Point, Type>::from_xyz
-                  : &RTree<Point, Type>::from_lon_lat,
+                  : &RTree<Point, Type>::from_lon_lat_alt,
             coordinates,
             radius.value_or(std::numeric_limits<coordinate_t>::max()), k, cov,
             sigma, lambda, within, num_threads);
-- 
2.43.0


From eb8fb68388c253c69c9a60bd3b309dc75ee3be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 37/78] fix: bounds of the geodetic RTree ignored the latitudes

---
 src/pyinterp/core/lib/geodetic/rtree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 0a6aedb..7a24719 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -34,9 +34,9 @@ auto RTree::equatorial_bounds() const -> std::optional<Box> {
   auto box = this->bounds();
   if (box.has_value()) {
     return Box(Point(boost::geometry::get<0>(box.value().min_corner()),
-                     boost::geometry::get<0>(box.value().min_corner())),
+                     boost::geometry::get<1>(box.value().min_corner())),
                Point(boost::geometry::get<0>(box.value().max_corner()),
-                     boost::geometry::get<0>(box.value().max_corner())));
+                     boost::geometry::get<1>(box.value().max_corner())));
   }
   return {};
 }
-- 
2.43.0


From af00c470bd10815d2f38200fe855f333d2628160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 38/78] fix: the linear covariance function was not a
 covariance

---
 src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp b/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp
index 508738f..8c5685e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp
@@ -119,7 +119,10 @@ inline auto linear_covariance(const Eigen::Ref<const Eigen::Vector3<T>>& p1,
                               const Eigen::Ref<const Eigen::Vector3<T>>& p2,
                               const T& sigma, const T& lambda) -> T {
   auto r = (p1 - p2).norm();
-  return math::sqr(sigma) * r;
+  if (r > lambda) {
+    return 0;
+  }
+  return math::sqr(sigma) * (1 - r / lambda);
 }
 
 /// Known Covariance functions.
-- 
2.43.0


From 5d6e56033ce4ca8427d43dd36f8782f989168fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 39/78] fix: the whittle_matern covariance function could not
 be selected

---
 src/pyinterp/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/interface.py b/src/pyinterp/interface.py
index 9ace82b..fad6294 100644
--- a/src/pyinterp/interface.py
+++ b/src/pyinterp/interface.py
@@ -108,6 +108,8 @@ def _core_covariance_function(
             'whittle_matern',
     ]:
         raise ValueError(f'Covariance function {covariance!r} is not defined')
+    if covariance == 'whittle_matern':
+        return core.CovarianceFunction.WhittleMatern
     covariance = '_'.join(item.capitalize() for item in covariance.split('_'))
     return getattr(core.CovarianceFunction, covariance)
 
-- 
2.43.0


From af24cdb8346d0b121cfa297f20be03bf9cd14a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 40/78] fix: the cauchy covariance function was refused

---
 src/pyinterp/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyinterp/interface.py b/src/pyinterp/interface.py
index fad6294..ea9d672 100644
--- a/src/pyinterp/interface.py
+++ b/src/pyinterp/interface.py
@@ -98,6 +98,7 @@ def _core_covariance_function(
     """Get the covariance function."""
     covariance = covariance or 'matern_32'
     if covariance not in [
+            'cauchy',
             'exponential',
             'gaussian',
             'linear',
-- 
2.43.0


From 7187f7289ce657a6dcad31ffea74390b44910ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 41/78] fix: radial basis functions were undefined or null with
 a single neighbor

---
 .../pyinterp/detail/math/radial_basis_functions.hpp       | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/radial_basis_functions.hpp b/src/pyinterp/core/include/pyinterp/detail/math/radial_basis_functions.hpp
index d4e09f1..a206d0d 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/radial_basis_functions.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/radial_basis_functions.hpp
@@ -81,6 +81,14 @@ class RBF {
                                  const Eigen::Ref<const Vector<T>> &yk,
                                  const Eigen::Ref<const Matrix<T>> &xi) const
       -> Vector<T> {
+    // With a single node, there is no distance between the nodes and the
+    // linear system is singular if the radial function is null at the node.
+    if (xk.cols() == 1 &&
+        (std::isnan(epsilon_) ||
+         function_(Matrix<T>::Zero(1, 1), epsilon_)(0, 0) == 0)) {
+      return Vector<T>::Constant(xi.cols(), yk(0));
+    }
+
     // Matrix of distances between the coordinates provided.
     const auto r = distance_matrix(xk, xk);
 
-- 
2.43.0


From dd68f99d091056601cf185304fcc76c017fe156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 42/78] fix: the default argument of the lanczos window
 function was not used

---
 src/pyinterp/geodetic/__init__.py | 8 +++++---
 src/pyinterp/rtree.py             | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/geodetic/__init__.py b/src/pyinterp/geodetic/__init__.py
index f972c8e..fb98558 100644
--- a/src/pyinterp/geodetic/__init__.py
+++ b/src/pyinterp/geodetic/__init__.py
@@ -352,6 +352,8 @@ class RTree(geodetic.RTree):
             The interpolated value and the number of neighbors used in the
             calculation.
         """
-        return super().window_function(
-            lon, lat, radius, k, interface._core_window_function(wf, arg), arg,
-            within, num_threads)
+        function = interface._core_window_function(wf, arg)
+        if wf == 'lanczos' and arg is None:
+            arg = 1
+        return super().window_function(lon, lat, radius, k, function, arg,
+                                       within, num_threads)
diff --git a/src/pyinterp/rtree.py b/src/pyinterp/rtree.py
index e22143c..12c5901 100644
--- a/src/pyinterp/rtree.py
+++ b/src/pyinterp/rtree.py
@@ -390,9 +390,11 @@ class RTree:
             The interpolated value and the number of neighbors used in the
             calculation.
         """
-        return self._instance.window_function(
-            coordinates, radius, k, interface._core_window_function(wf, arg),
-            arg, within, num_threads)
+        function = interface._core_window_function(wf, arg)
+        if wf == 'lanczos' and arg is None:
+            arg = 1
+        return self._instance.window_function(coordinates, radius, k, function,
+                                              arg, within, num_threads)
 
     def universal_kriging(
             self,
-- 
2.43.0


From 4428a13ea045a6aa3a8fbcf444d4c74f0982324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 43/78] fix: unpickled RTree were empty

---
 src/pyinterp/rtree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/rtree.py b/src/pyinterp/rtree.py
index 12c5901..5f3305a 100644
--- a/src/pyinterp/rtree.py
+++ b/src/pyinterp/rtree.py
@@ -490,5 +490,7 @@ class RTree:
             raise ValueError('invalid state')
         _class = RTree(None, state[0])
         self.dtype = _class.dtype
-        _class._instance.__setstate__(state[1])
-        self._instance = _class._instance
+        # The state of an instance already constructed cannot be replaced.
+        _type = type(_class._instance)
+        self._instance = _type.__new__(_type)
+        self._instance.__setstate__(state[1])
-- 
2.43.0


From 8e5091edbac664ee67fd039844f0e8113f4a3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 44/78] fix: box of the last cells of the geohash grid with 32
 bits per axis

---
 src/pyinterp/core/lib/geohash/int64.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 749c8a9..d9db03f 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -82,9 +82,6 @@ constexpr auto encode_range(const double x, const double r) -> uint32_t {
 
 // Decode the 32-bit range encoding X back to a value in the range -r to +r.
 constexpr auto decode_range(const uint32_t x, const double r) -> double {
-  if (x == std::numeric_limits<uint32_t>::max()) {
-    return r;
-  }
   auto p = static_cast<double>(x) * inv_exp232;
   return 2 * r * p - r;
 }
-- 
2.43.0


From b8f03a19903bc12a4d5f781276338cdf2eb5eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 45/78] fix: geohash neighbors beyond a pole

---
 src/pyinterp/core/lib/geohash/int64.cpp | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index d9db03f..5fcc779 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -271,27 +271,36 @@ auto neighbors(const uint64_t hash, const uint32_t precision)
   auto center = box.centroid();
   auto [lon_delta, lat_delta] = box.delta(false);
 
+  // Encodes a point that may be on the other side of the date line or of a
+  // pole.
+  auto encode = [precision](const geodetic::Point &point) -> uint64_t {
+    auto lon = point.lon();
+    auto lat = point.lat();
+    if (lat > 90 || lat < -90) {
+      lat = (lat > 0 ? 180 : -180) - lat;
+      lon += 180;
+    }
+    return int64::encode(
+        {detail::math::normalize_angle(lon, -180.0, 360.0), lat}, precision);
+  };
+
   return (Eigen::Matrix<uint64_t, 8, 1>() <<
               // N
-              encode({center.lon(), center.lat() + lat_delta}, precision),
+              encode({center.lon(), center.lat() + lat_delta}),
           // NE,
-          encode({center.lon() + lon_delta, center.lat() + lat_delta},
-                 precision),
+          encode({center.lon() + lon_delta, center.lat() + lat_delta}),
           // E,
-          encode({center.lon() + lon_delta, center.lat()}, precision),
+          encode({center.lon() + lon_delta, center.lat()}),
           // SE,
-          encode({center.lon() + lon_delta, center.lat() - lat_delta},
-                 precision),
+          encode({center.lon() + lon_delta, center.lat() - lat_delta}),
           // S,
-          encode({center.lon(), center.lat() - lat_delta}, precision),
+          encode({center.lon(), center.lat() - lat_delta}),
           // SW,
-          encode({center.lon() - lon_delta, center.lat() - lat_delta},
-                 precision),
+          encode({center.lon() - lon_delta, center.lat() - lat_delta}),
           // W,
-          encode({center.lon() - lon_delta, center.lat()}, precision),
+          encode({center.lon() - lon_delta, center.lat()}),
           // NW
-          encode({center.lon() - lon_delta, center.lat() + lat_delta},
-                 precision))
+          encode({center.lon() - lon_delta, center.lat() + lat_delta}))
       .finished();
 }
 
-- 
2.43.0


From ce15996966b4f15e14fe2150a9dd817115418370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 46/78] fix: geohash cells of the last row and column of a box
 were missing

---
 src/pyinterp/core/lib/geohash/int64.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 5fcc779..07ad9e2 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -316,8 +316,16 @@ auto grid_properties(const geodetic::Box &box, const uint32_t precision)
     return std::make_tuple(hash_sw, 1, 1);
   }
 
-  auto lon_offset = box.max_corner().lon() == 180 ? 1 : 0;
-  auto lat_offset = box.max_corner().lat() == 90 ? 1 : 0;
+  // The cell of the last corner is part of the grid, unless the box only
+  // touches its edge.
+  auto lon_offset = box.max_corner().lon() > box_ne.min_corner().lon() ||
+                            box.max_corner().lon() == box.min_corner().lon()
+                        ? 1
+                        : 0;
+  auto lat_offset = box.max_corner().lat() > box_ne.min_corner().lat() ||
+                            box.max_corner().lat() == box.min_corner().lat()
+                        ? 1
+                        : 0;
 
   auto lng_lat_err = error_with_precision(precision);
   auto lon_step = static_cast<size_t>(
-- 
2.43.0


From e176fe0d9aede78371e2d9b82b3e557054fbecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 47/78] fix: index ranges of the geohash codes of a table

---
 src/pyinterp/core/lib/geohash/string.cpp | 30 +++++-------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index eb86a5b..978f3de 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -340,12 +340,6 @@ auto bounding_boxes(const geodetic::MultiPolygon &polygons,
 auto where(const pybind11::array &hash) -> std::unordered_map<
     std::string,
     std::tuple<std::tuple<int64_t, int64_t>, std::tuple<int64_t, int64_t>>> {
-  // Index shifts of neighboring pixels
-  static const auto shift_row =
-      std::array<int64_t, 8>{-1, -1, -1, 0, 1, 0, 1, 1};
-  static const auto shift_col =
-      std::array<int64_t, 8>{-1, 1, 0, -1, -1, 1, 0, 1};
-
   auto result = std::unordered_map<
       std::string,
       std::tuple<std::tuple<int64_t, int64_t>, std::tuple<int64_t, int64_t>>>();
@@ -356,7 +350,6 @@ auto where(const pybind11::array &hash) -> std::unordered_map<
   auto chars = info.strides[1];
   auto *ptr = static_cast<char *>(info.ptr);
   std::string current_code;
-  std::string neighboring_code;
 
   assert(chars <= 12);
 
@@ -375,23 +368,12 @@ auto where(const pybind11::array &hash) -> std::unordered_map<
           continue;
         }
 
-        for (int64_t kx = 0; kx < 8; ++kx) {
-          const auto i = ix + shift_row[kx];
-          const auto j = jx + shift_col[kx];
-
-          if (i >= 0 && i < rows && j >= 0 && j < cols) {
-            neighboring_code = std::string(ptr + (i * cols + j) * chars, chars);
-            if (current_code == neighboring_code) {
-              auto &first = std::get<0>(it->second);
-              std::get<0>(first) = std::min(std::get<0>(first), i);
-              std::get<1>(first) = std::max(std::get<1>(first), i);
-
-              auto &second = std::get<1>(it->second);
-              std::get<0>(second) = std::min(std::get<0>(second), j);
-              std::get<1>(second) = std::max(std::get<1>(second), j);
-            }
-          }
-        }
+        auto &first = std::get<0>(it->second);
+        std::get<1>(first) = std::max(std::get<1>(first), ix);
+
+        auto &second = std::get<1>(it->second);
+        std::get<0>(second) = std::min(std::get<0>(second), jx);
+        std::get<1>(second) = std::max(std::get<1>(second), jx);
       }
     }
   }
-- 
2.43.0


From b0159da4ab8d20e6df4df1103255d5ee37e5e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 48/78] fix: zooming in a geohash array holding codes of
 different lengths

---
 src/pyinterp/core/lib/geohash/string.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 978f3de..2fb16b2 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -380,6 +380,15 @@ auto where(const pybind11::array &hash) -> std::unordered_map<
   return result;
 }
 
+// ---------------------------------------------------------------------------
+// Checks that a code has at least the given number of characters.
+static auto check_length(const char *const ptr, const uint32_t size,
+                         const uint32_t length) -> void {
+  if (static_cast<uint32_t>(std::find(ptr, ptr + size, '\0') - ptr) < length) {
+    throw std::invalid_argument("hash too short: " + std::string(ptr, size));
+  }
+}
+
 // ---------------------------------------------------------------------------
 static auto zoom_in(char *ptr, pybind11::ssize_t size, uint32_t from_precision,
                     uint32_t to_precision) -> pybind11::array {
@@ -398,6 +407,7 @@ static auto zoom_in(char *ptr, pybind11::ssize_t size, uint32_t from_precision,
     auto gil = pybind11::gil_scoped_release();
 
     for (auto ix = 0; ix < size; ++ix) {
+      check_length(ptr, from_precision, from_precision);
       auto codes =
           int64::bounding_boxes(bounding_box(ptr, from_precision), bits);
       for (uint64_t code : codes) {
@@ -420,6 +430,7 @@ static auto zoom_out(char *ptr, pybind11::ssize_t size, uint32_t from_precision,
     auto gil = pybind11::gil_scoped_release();
 
     for (auto ix = 0; ix < size; ++ix) {
+      check_length(ptr, from_precision, to_precision);
       encode(decode(ptr, from_precision, false), current_code.data(),
              to_precision);
       zoom_out_codes.emplace(current_code);
-- 
2.43.0


From 96cfe00886b759b0c962d88d987247d33051f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 49/78] fix: null precisions and characters were accepted by
 the geohash

---
 .../core/include/pyinterp/geohash.hpp         | 25 +++++++++++--------
 src/pyinterp/core/module/geohash/string.cpp   |  2 +-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geohash.hpp b/src/pyinterp/core/include/pyinterp/geohash.hpp
index 5a7f57f..48ead73 100644
--- a/src/pyinterp/core/include/pyinterp/geohash.hpp
+++ b/src/pyinterp/core/include/pyinterp/geohash.hpp
@@ -53,10 +53,7 @@ class GeoHash {
   /// @param[in] latitude Latitude of the point.
   /// @param[in] precision Number of characters in the geohash.
   GeoHash(double longitude, double latitude, uint32_t precision)
-      : code_(precision, '\0') {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+      : code_(check_precision(precision), '\0') {
     string::encode(
         {detail::math::normalize_angle(longitude, -180.0, 360.0), latitude},
         code_.data(), precision);
@@ -70,10 +67,9 @@ class GeoHash {
   /// @throw std::invalid_argument if the geohash is not valid.
   static auto from_string(const std::string &code, bool round) -> GeoHash {
     auto precision = static_cast<uint32_t>(code.size());
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
-    if (!Base32().validate(code.data(), precision)) {
+    check_precision(precision);
+    if (code.find('\0') != std::string::npos ||
+        !Base32().validate(code.data(), precision)) {
       throw std::invalid_argument("GeoHash is not valid");
     }
     auto result = GeoHash(precision);
@@ -143,6 +139,7 @@ class GeoHash {
   [[nodiscard]] static auto grid_properties(const geodetic::Box &box,
                                             uint32_t precision)
       -> std::tuple<GeoHash, size_t, size_t> {
+    check_precision(precision);
     auto [code, lng_boxes, lat_boxes] =
         int64::grid_properties(box, precision * 5);
     return std::make_tuple(
@@ -154,9 +151,7 @@ class GeoHash {
   /// precision
   [[nodiscard]] static auto error_with_precision(const uint32_t precision)
       -> std::tuple<double, double> {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+    check_precision(precision);
     return int64::error_with_precision(precision * 5);
   }
 
@@ -169,6 +164,14 @@ class GeoHash {
  private:
   std::string code_{};
 
+  /// Checks the number of characters of a geohash.
+  static auto check_precision(const uint32_t precision) -> uint32_t {
+    if (precision < 1 || precision > 12) {
+      throw std::invalid_argument("GeoHash precision must be within [1, 12]");
+    }
+    return precision;
+  }
+
   /// Default constructor.
   explicit GeoHash(const size_t precision) : code_(precision, '\0') {}
 
diff --git a/src/pyinterp/core/module/geohash/string.cpp b/src/pyinterp/core/module/geohash/string.cpp
index 4c42418..c979b6c 100644
--- a/src/pyinterp/core/module/geohash/string.cpp
+++ b/src/pyinterp/core/module/geohash/string.cpp
@@ -19,7 +19,7 @@ namespace geodetic = pyinterp::geodetic;
 
 // Checking the value defining the precision of a geohash.
 constexpr static auto check_range(uint32_t precision) -> void {
-  if (precision > 12) {
+  if (precision < 1 || precision > 12) {
     throw std::invalid_argument("precision must be within [1, 12]");
   }
 }
-- 
2.43.0


From 85e8ab52b524cc3b177836b0ae81962aea7360d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 50/78] fix: rounded point of a box could be outside the box

---
 src/pyinterp/core/include/pyinterp/geodetic/box.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
index 5e4d1fb..15f5e9c 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
@@ -81,8 +81,11 @@ class Box : public boost::geometry::model::box<Point> {
     const auto xy = delta(true);
     const auto x = std::get<0>(xy);
     const auto y = std::get<1>(xy);
-    return {std::ceil(this->min_corner().lon() / x) * x,
-            std::ceil(this->min_corner().lat() / y) * y};
+    // The rounded coordinates may be slightly less than the corner.
+    return {std::max(std::ceil(this->min_corner().lon() / x) * x,
+                     this->min_corner().lon()),
+            std::max(std::ceil(this->min_corner().lat() / y) * y,
+                     this->min_corner().lat())};
   }
 
   /// @brief Test if the given point is inside or on border of this instance
-- 
2.43.0


From d209ebeaa5b21b50f4d66a495a90cfe8adad67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 51/78] fix: unpickled grids lost their temporal axis

---
 src/pyinterp/core/include/pyinterp/axis.hpp    |  2 +-
 src/pyinterp/core/include/pyinterp/grid.hpp    | 18 ++++++++++++++----
 .../core/include/pyinterp/temporal_axis.hpp    |  2 +-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index 4084a3d..e692d0a 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -195,7 +195,7 @@ class Axis : public detail::Axis<T>,
   }
 
   /// Get a tuple that fully encodes the state of this instance
-  [[nodiscard]] auto getstate() const -> pybind11::tuple {
+  [[nodiscard]] virtual auto getstate() const -> pybind11::tuple {
     // Regular
     {
       auto ptr = dynamic_cast<detail::axis::container::Regular<T> *>(
diff --git a/src/pyinterp/core/include/pyinterp/grid.hpp b/src/pyinterp/core/include/pyinterp/grid.hpp
index 2ac48a5..aa8c20c 100644
--- a/src/pyinterp/core/include/pyinterp/grid.hpp
+++ b/src/pyinterp/core/include/pyinterp/grid.hpp
@@ -13,6 +13,7 @@
 
 #include "pyinterp/axis.hpp"
 #include "pyinterp/detail/broadcast.hpp"
+#include "pyinterp/temporal_axis.hpp"
 
 namespace pyinterp {
 
@@ -205,13 +206,23 @@ class Grid3D : public Grid2D<DataType, Dimension> {
                       Axis<double>::setstate(tuple[0].cast<pybind11::tuple>())),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[1].cast<pybind11::tuple>())),
-                  std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(
-                      tuple[2].cast<pybind11::tuple>())),
+                  z_setstate(tuple[2].cast<pybind11::tuple>()),
                   tuple[3].cast<pybind11::array_t<DataType>>());
   }
 
  protected:
   std::shared_ptr<Axis<AxisType>> z_;
+
+  /// Pickle support: rebuilds the Z axis, which may be a temporal axis.
+  static auto z_setstate(const pybind11::tuple &tuple)
+      -> std::shared_ptr<Axis<AxisType>> {
+    if constexpr (std::is_same_v<AxisType, int64_t>) {
+      if (tuple.size() == 2) {
+        return std::make_shared<TemporalAxis>(TemporalAxis::setstate(tuple));
+      }
+    }
+    return std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(tuple));
+  }
 };
 
 /// Cartesian Grid 4D
@@ -256,8 +267,7 @@ class Grid4D : public Grid3D<DataType, AxisType, 4> {
                       Axis<double>::setstate(tuple[0].cast<pybind11::tuple>())),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[1].cast<pybind11::tuple>())),
-                  std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(
-                      tuple[2].cast<pybind11::tuple>())),
+                  Grid4D::z_setstate(tuple[2].cast<pybind11::tuple>()),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[3].cast<pybind11::tuple>())),
                   tuple[4].cast<pybind11::array_t<DataType>>());
diff --git a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
index bfaa87c..3334207 100644
--- a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
@@ -200,7 +200,7 @@ class TemporalAxis : public Axis<int64_t> {
   }
 
   /// @copydoc detail::Axis::getstate() const
-  [[nodiscard]] auto getstate() const -> pybind11::tuple {
+  [[nodiscard]] auto getstate() const -> pybind11::tuple override {
     return pybind11::make_tuple(Axis<int64_t>::getstate(),
                                 static_cast<std::string>(dtype_));
   }
-- 
2.43.0


From 890515a2e91c08927823503ae9b0c67a97c327a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 52/78] fix: flipping in place an axis used for several
 dimensions of a grid

---
 src/pyinterp/grid.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/grid.py b/src/pyinterp/grid.py
index 1119313..08d1686 100644
--- a/src/pyinterp/grid.py
+++ b/src/pyinterp/grid.py
@@ -75,12 +75,16 @@ class Grid2D:
             inplace = increasing_axes == 'inplace'
             # Tuple does not support item assignment
             args = list(args)  # type: ignore[assignment]
+            # The same axis can be used for several dimensions.
+            flipped: dict[int, core.Axis | core.TemporalAxis] = {}
             for idx, item in enumerate(args):
                 if isinstance(item,
-                              (core.Axis,
-                               core.TemporalAxis)) and not item.is_ascending():
-                    args[idx] = item.flip(  # type: ignore[index]
-                        inplace=inplace)
+                              (core.Axis, core.TemporalAxis)) and (
+                                  id(item) in flipped
+                                  or not item.is_ascending()):
+                    if id(item) not in flipped:
+                        flipped[id(item)] = item.flip(inplace=inplace)
+                    args[idx] = flipped[id(item)]  # type: ignore[index]
                     args[-1] = numpy.flip(  # type: ignore[index]
                         args[-1], axis=idx)
         self._instance = getattr(core, _class)(*args)
-- 
2.43.0


From 406e4468128b6a7e5e3fd332ae44884d7d155707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 53/78] fix: order of the Z and U axes of a grid built from
 xarray was random

---
 src/pyinterp/backends/xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 84539d8..43aa5c5 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -347,7 +347,7 @@ class Grid4D(grid.Grid4D):
                  increasing_axes: bool = False,
                  geodetic: bool = True):
         x, y = _dims_from_data_array(data_array, geodetic, ndims=4)
-        z, u = tuple(set(data_array.dims) - {x, y})
+        z, u = (dim for dim in data_array.dims if dim not in (x, y))
 
         # Should the grid manage a time axis?
         self._datetime64 = None
-- 
2.43.0


From 2f2bdb8514cda128039517372727df0a496d8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 54/78] fix: time deltas refused on the axes of 4D grids built
 from xarray

---
 src/pyinterp/backends/xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 43aa5c5..89b4e2e 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -352,11 +352,11 @@ class Grid4D(grid.Grid4D):
         # Should the grid manage a time axis?
         self._datetime64 = None
         dtype = data_array.coords[z].dtype
-        if 'datetime64' in dtype.name:
+        if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             self._datetime64 = z, core.TemporalAxis(
                 data_array.coords[z].values)
         dtype = data_array.coords[u].dtype
-        if 'datetime64' in dtype.name:
+        if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             if self._datetime64 is not None:
                 raise ValueError('unable to handle two time axes')
             self._datetime64 = u, core.TemporalAxis(
-- 
2.43.0


From 4a1c4cf1c0d3c81485471e234401e423e76e52c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 55/78] fix: interpolators threw a number outside their data

---
 .../core/include/pyinterp/detail/interpolation/akima.hpp      | 4 ++--
 .../core/include/pyinterp/detail/interpolation/bicubic.hpp    | 2 +-
 .../core/include/pyinterp/detail/interpolation/bilinear.hpp   | 2 +-
 .../core/include/pyinterp/detail/interpolation/polynomial.hpp | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index bca47a6..2a7feb5 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -96,7 +96,7 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
                                       const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
@@ -113,7 +113,7 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
                                      const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
index 12f7ef9..7adca3f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
@@ -78,7 +78,7 @@ constexpr auto Bicubic<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   const auto [i0, i1] = *search_x;
   const auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
index 80fdc43..25b94fc 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
@@ -38,7 +38,7 @@ constexpr auto Bilinear<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search_x;
   auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 4fea5ea..60eddb6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -97,7 +97,7 @@ constexpr auto Polynomial<T>::interpolate_(const Vector<T> &xa,
                                            const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto size = xa.size();
   auto y = work_[size - 1];
@@ -112,7 +112,7 @@ auto Polynomial<T>::derivative_(const Vector<T> &xa, const Vector<T> &ya,
                                 const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto coefficients = taylor(xa, x);
   return coefficients(1);
-- 
2.43.0


From b936c3f23cbce22a2e8c65244049954ece4ca3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 56/78] fix: divided differences of the polynomial
 interpolation

---
 .../detail/interpolation/polynomial.hpp       | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 60eddb6..3801c5d 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -60,23 +60,21 @@ constexpr auto Polynomial<T>::compute_coefficients(const Vector<T> &xa,
   if (work_.size() < size) {
     work_.resize(size);
   }
-  work_[0] = ya[0];
-  work_.segment(1, size - 1) =
-      (ya.segment(1, size - 1) - ya.segment(0, size - 1)).array() /
-      (xa.segment(1, size - 1) - xa.segment(0, size - 1)).array();
-  for (Eigen::Index ix = 2; ix < size; ix++) {
-    work_.segment(ix, size - ix) =
-        (work_.segment(ix, size - ix) - work_.segment(ix - 1, size - ix))
-            .array() /
-        (xa.segment(ix, size - ix) - xa.segment(ix - 1, size - ix)).array();
+  // Newton's divided differences. For each order, the differences are computed
+  // from the last one, as each one depends on the previous of lower order.
+  work_.segment(0, size) = ya;
+  for (Eigen::Index ix = 1; ix < size; ix++) {
+    for (Eigen::Index jx = size - 1; jx >= ix; --jx) {
+      work_[jx] = (work_[jx] - work_[jx - 1]) / (xa[jx] - xa[jx - ix]);
+    }
   }
 }
 
 template <typename T>
 auto Polynomial<T>::taylor(const Vector<T> &xa, const T &x) const -> Vector<T> {
   auto size = xa.size();
-  auto c = Vector<T>(size);
-  auto w = Vector<T>(size);
+  Vector<T> c = Vector<T>::Zero(size);
+  Vector<T> w = Vector<T>::Zero(size);
   w(size - 1) = T(1);
   c(0) = work_(0);
   for (Eigen::Index ix = size - 1; ix--;) {
-- 
2.43.0


From ef344e94cf920ca186755336bfec17f65381e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 57/78] fix: akima interpolation used the slope of another
 interval

---
 .../core/include/pyinterp/detail/interpolation/akima.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index 2a7feb5..08d4777 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -103,8 +103,8 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
   const auto h = x - xa(i0);
   const auto ai = ya(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  const auto ci = (3 * m_[i0 + 2] - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0 + 2]) / (dx * dx);
   return ai + h * (bi + h * (ci + h * di));
 }
 
@@ -119,8 +119,8 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
   const auto dx = xa(i1) - xa(i0);
   const auto h = x - xa(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  const auto ci = (3 * m_[i0 + 2] - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0 + 2]) / (dx * dx);
   return bi + h * (2 * ci + h * 3 * di);
 }
 
-- 
2.43.0


From b47a2153df7829042e8e6a58873944955edf872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 58/78] fix: boundary conditions of the akima interpolation
 were not used

---
 .../core/include/pyinterp/detail/interpolation/akima.hpp    | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index 08d4777..ae79047 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -74,7 +74,7 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
   boundary_condition(m, size);
 
   // Compute the spline slopes of the lines between the points.
-  for (Eigen::Index ix = 2; ix < size - 2; ++ix) {
+  for (Eigen::Index ix = 0; ix < size; ++ix) {
     auto denominator =
         std::abs(m[ix + 1] - m[ix]) + std::abs(m[ix - 1] - m[ix - 2]);
     if (denominator != 0) {
@@ -85,10 +85,6 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
       s_(ix) = (m[ix - 1] + m[ix]) * 0.5;
     }
   }
-  s_(0) = m[0];
-  s_(1) = (m[0] + m[2]) * 0.5;
-  s_(size - 2) = (m[size - 3] + m[size - 1]) * 0.5;
-  s_(size - 1) = m[size - 1];
 }
 
 template <typename T>
-- 
2.43.0


From 88d353a1372ab29f6a55a1e1e77bdf916beb6aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 59/78] fix: periodic spline reused on fewer points

---
 .../include/pyinterp/detail/interpolation/cspline_periodic.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
index 2847961..fcccfce 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
@@ -96,7 +96,7 @@ auto CSplinePeriodic<T>::compute_coefficients(const Vector<T> &xa,
                                               const Vector<T> &ya) -> void {
   Interpolator1D<T>::compute_coefficients(xa, ya);
   auto size = xa.size();
-  if (this->x_.size() < size) {
+  if (this->x_.size() != size) {
     this->A_.resize(size - 1, size - 1);
     this->b_.resize(size - 1);
     this->x_.resize(size);
-- 
2.43.0


From 54e967dc4587b0b22866467bb059df8b6a0ba4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 60/78] fix: periodic spline of three points

---
 .../pyinterp/detail/interpolation/cspline_periodic.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
index fcccfce..7e77d1b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
@@ -47,6 +47,16 @@ constexpr auto CSplinePeriodic<T>::solve_symmetric_cyclic_tridiagonal(T *x)
     x[0] = this->b_(0) / this->A_(0, 0);
     return;
   }
+  if (size == 2) {
+    // Both off-diagonal terms link the same two unknowns.
+    const auto a = this->A_(0, 0);
+    const auto d = this->A_(1, 1);
+    const auto c = a / 2;
+    const auto det = a * d - c * c;
+    x[0] = (d * this->b_(0) - c * this->b_(1)) / det;
+    x[1] = (a * this->b_(1) - c * this->b_(0)) / det;
+    return;
+  }
 
   alpha_(0) = this->A_(0, 0);
   gamma_(0) = this->A_(0, 1) / alpha_(0);
-- 
2.43.0


From ef09bbe1e5c4577cc6fada6f94107b15f92484ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 61/78] fix: bounds were not checked by interpolate1d

---
 src/pyinterp/core/include/pyinterp/interpolate1d.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
index 4939501..22e529c 100644
--- a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
+++ b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
@@ -54,9 +54,11 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
 
   for (int64_t ix = 0; ix < xi.size(); ++ix) {
     // Nearest index of the current value
-    auto index = axis->find_index(xi(ix), true);
+    const auto coordinate = axis->normalize_coordinate(xi(ix));
+    auto index = axis->find_index(coordinate, false);
 
-    if (index == -1) {
+    if (index == -1 || coordinate < axis->min_value() ||
+        coordinate > axis->max_value()) {
       if (bounds_error) {
         throw std::out_of_range("The value is out of the range of the axis");
       } else {
@@ -73,7 +75,7 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
     const Vector<double> yw = y.segment(start, n);
 
     // Interpolation of the current value
-    result(ix) = (*interpolator)(axis->slice(start, n), yw, xi(ix));
+    result(ix) = (*interpolator)(axis->slice(start, n), yw, coordinate);
   }
   return result;
 }
-- 
2.43.0


From 2c7aec4201f9fb5a901d98f0323f6e37fc555154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 62/78] fix: useless threads were created for small or empty
 vectors

More threads than elements were launched (each with an empty range), and
nothing was done if the number of CPUs is unknown: std::end(threads) - 1 is
then before the beginning of an empty vector.
---
 .../core/include/pyinterp/detail/thread.hpp         | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/thread.hpp b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
index 2cd1dd3..1900c3e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/thread.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
@@ -3,6 +3,7 @@
 // All rights reserved. Use of this source code is governed by a
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
+#include <algorithm>
 #include <thread>
 #include <vector>
 
@@ -18,15 +19,19 @@ namespace pyinterp::detail {
 /// @tparam Lambda Lambda function
 template <typename Lambda>
 void dispatch(const Lambda &worker, size_t size, size_t num_threads) {
+  if (num_threads == 0) {
+    num_threads = std::thread::hardware_concurrency();
+  }
+
+  // Each thread processes at least one element. (The number of CPUs is null if
+  // it cannot be determined.)
+  num_threads = std::max<size_t>(std::min(num_threads, size), 1);
+
   if (num_threads == 1) {
     worker(0, size);
     return;
   }
 
-  if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
-  }
-
   // List of threads responsible for parallelizing the calculation
   std::vector<std::thread> threads(num_threads);
 
-- 
2.43.0


From 50ce80445444b6030263c697bc9e840420c521b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 63/78] fix: an exception raised in a thread terminated the
 process

The same happened if the system could not create the threads.
---
 .../core/include/pyinterp/detail/thread.hpp   | 41 ++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/thread.hpp b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
index 1900c3e..9f376b8 100644
--- a/src/pyinterp/core/include/pyinterp/detail/thread.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
@@ -4,6 +4,8 @@
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
 #include <algorithm>
+#include <exception>
+#include <system_error>
 #include <thread>
 #include <vector>
 
@@ -17,6 +19,9 @@ namespace pyinterp::detail {
 /// all CPUs are used. If 1 is given, no parallel computing code is used at all,
 /// which is useful for debugging.
 /// @tparam Lambda Lambda function
+///
+/// If the processing of a part of the vectors raises an exception, it is
+/// rethrown in the calling thread, once all the threads have been joined.
 template <typename Lambda>
 void dispatch(const Lambda &worker, size_t size, size_t num_threads) {
   if (num_threads == 0) {
@@ -39,15 +44,41 @@ void dispatch(const Lambda &worker, size_t size, size_t num_threads) {
   size_t start = 0;
   size_t shift = size / num_threads;
 
+  // Exceptions raised by each thread
+  std::vector<std::exception_ptr> excepts(num_threads);
+
+  auto task = [&worker, &excepts](const size_t index, const size_t first,
+                                  const size_t last) {
+    try {
+      worker(first, last);
+    } catch (...) {
+      excepts[index] = std::current_exception();
+    }
+  };
+
   // Launch and join threads
-  for (auto it = std::begin(threads); it != std::end(threads) - 1; ++it) {
-    *it = std::thread(worker, start, start + shift);
-    start += shift;
+  for (size_t ix = 0; ix < num_threads; ++ix) {
+    const auto end = ix == num_threads - 1 ? size : start + shift;
+    try {
+      threads[ix] = std::thread(task, ix, start, end);
+    } catch (const std::system_error &) {
+      // No more threads can be created: the part is processed by the calling
+      // thread.
+      task(ix, start, end);
+    }
+    start = end;
   }
-  threads.back() = std::thread(worker, start, size);
 
   for (auto &&item : threads) {
-    item.join();
+    if (item.joinable()) {
+      item.join();
+    }
+  }
+
+  for (auto &&item : excepts) {
+    if (item != nullptr) {
+      std::rethrow_exception(item);
+    }
   }
 }
 
-- 
2.43.0


From 894c365eccdc85ed42e4b1b7868b0e3e75edcb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 64/78] fix: the threads of the relaxation were not created by
 dispatch

The process was terminated if the threads could not be created, and the
number of threads was not bounded by the size of the grid.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 39 ++++++++-------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index d7c1305..fb4be40 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -13,6 +13,7 @@
 #include <boost/accumulators/statistics/mean.hpp>
 #include <boost/accumulators/statistics/stats.hpp>
 #include <limits>
+#include <mutex>
 #include <string>
 #include <tuple>
 #include <vector>
@@ -171,29 +172,22 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   // @param red_black Whether the band is red or black.
   // @return The maximum residual of the processed band.
   auto calculate = [&](const int red_black) -> Type {
-    int64_t start = 0;
-    int64_t shift = y_size / num_threads;
-
-    // Handled threads
-    std::vector<std::thread> threads;
-
-    // Maximum residual values for each thread.
-    std::vector<Type> max_residuals(num_threads);
-
-    for (size_t index = 0; index < num_threads - 1; ++index) {
-      threads.emplace_back(std::thread(worker, start, start + shift, red_black,
-                                       &max_residuals[index]));
-      start += shift;
-    }
-    threads.emplace_back(std::thread(worker, start, y_size, red_black,
-                                     &max_residuals[num_threads - 1]));
-    for (auto &&item : threads) {
-      item.join();
-    }
+    // Maximum residual of the bands processed by the threads.
+    auto max_residual = Type(0);
+    std::mutex mutex;
+
+    detail::dispatch(
+        [&](const size_t start, const size_t end) {
+          auto residual = Type(0);
+          worker(start, end, red_black, &residual);
+          std::lock_guard<std::mutex> lock(mutex);
+          max_residual = std::max(max_residual, residual);
+        },
+        y_size, num_threads);
     if (except != nullptr) {
       std::rethrow_exception(except);
     }
-    return *std::max_element(max_residuals.begin(), max_residuals.end());
+    return max_residual;
   };
   return std::max(calculate(0), calculate(1));
 }
@@ -305,11 +299,6 @@ auto gauss_seidel(pybind11::EigenDRef<Matrix<Type>> &grid,
     return std::make_tuple(0, Type(0));
   }
 
-  /// Calculation of the maximum number of threads if the user chooses.
-  if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
-  }
-
   /// Calculation of the position of the undefined values on the grid.
   auto mask = Matrix<bool>(grid.array().isNaN());
 
-- 
2.43.0


From 1944362bef77a3143db263add9ce3ceeb1513714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 65/78] fix: exceptions captured by the threads were stored
 concurrently

The exception pointer shared by the threads was assigned without any
synchronization.
---
 .../core/include/pyinterp/bivariate.hpp       |  6 ++--
 .../core/include/pyinterp/detail/thread.hpp   | 25 +++++++++++++
 src/pyinterp/core/include/pyinterp/fill.hpp   | 22 +++++-------
 .../include/pyinterp/geodetic/algorithm.hpp   | 12 +++----
 .../include/pyinterp/geodetic/coordinates.hpp | 18 ++++------
 .../core/include/pyinterp/quadrivariate.hpp   |  6 ++--
 src/pyinterp/core/include/pyinterp/rtree.hpp  | 36 +++++++------------
 .../core/include/pyinterp/trivariate.hpp      |  6 ++--
 .../core/lib/geodetic/line_string.cpp         |  6 ++--
 src/pyinterp/core/lib/geodetic/rtree.cpp      | 24 +++++--------
 src/pyinterp/core/lib/geohash/string.cpp      |  6 ++--
 src/pyinterp/core/module/bicubic.cpp          | 18 ++++------
 12 files changed, 79 insertions(+), 106 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index 1d3399b..b803a81 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -129,7 +129,7 @@ auto bivariate(const Grid2D<Type> &grid, const pybind11::array_t<Coordinate> &x,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
@@ -148,9 +148,7 @@ auto bivariate(const Grid2D<Type> &grid, const pybind11::array_t<Coordinate> &x,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
diff --git a/src/pyinterp/core/include/pyinterp/detail/thread.hpp b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
index 9f376b8..69bdba9 100644
--- a/src/pyinterp/core/include/pyinterp/detail/thread.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
@@ -5,12 +5,37 @@
 #pragma once
 #include <algorithm>
 #include <exception>
+#include <mutex>
 #include <system_error>
 #include <thread>
 #include <vector>
 
 namespace pyinterp::detail {
 
+/// Exception captured by the threads of a calculation: only the last exception
+/// captured is kept.
+class SharedException {
+ public:
+  /// Store the captured exception.
+  auto operator=(const std::exception_ptr &except) -> SharedException & {
+    std::lock_guard<std::mutex> lock(mutex_);
+    except_ = except;
+    return *this;
+  }
+
+  /// Rethrow the exception captured, if any. Must be called once all the threads
+  /// have been joined.
+  auto rethrow() const -> void {
+    if (except_ != nullptr) {
+      std::rethrow_exception(except_);
+    }
+  }
+
+ private:
+  std::mutex mutex_{};
+  std::exception_ptr except_{};
+};
+
 /// Automates the cutting of vectors to be processed in thread.
 ///
 /// @param worker Lambda function called in each thread launched
diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index fb4be40..e4afabc 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -40,7 +40,7 @@ void set_zonal_average(pybind11::EigenDRef<Matrix<Type>> &grid,
                        Matrix<bool> &mask, const size_t num_threads) {
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  detail::SharedException except;
 
   detail::dispatch(
       [&](size_t y_start, size_t y_end) {
@@ -75,9 +75,7 @@ void set_zonal_average(pybind11::EigenDRef<Matrix<Type>> &grid,
       },
       grid.cols(), num_threads);
 
-  if (except != nullptr) {
-    std::rethrow_exception(except);
-  }
+  except.rethrow();
 }
 
 ///  Replaces all undefined values (NaN) in a grid using the Gauss-Seidel
@@ -97,7 +95,7 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  detail::SharedException except;
 
   // Thread worker responsible for processing red or black cells.
   //
@@ -159,9 +157,7 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
     auto calculate = [&](int red_black) -> Type {
       auto max_residual = Type(0);
       worker(0, y_size, red_black, &max_residual);
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
       return max_residual;
     };
     return std::max(calculate(0), calculate(1));
@@ -184,9 +180,7 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
           max_residual = std::max(max_residual, residual);
         },
         y_size, num_threads);
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
     return max_residual;
   };
   return std::max(calculate(0), calculate(1));
@@ -407,7 +401,7 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  detail::SharedException except;
 
   auto worker = [&](const size_t start, const size_t end) {
     try {
@@ -563,7 +557,7 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  detail::SharedException except;
 
   auto worker = [&](const size_t start, const size_t end) {
     try {
@@ -619,7 +613,7 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  detail::SharedException except;
 
   auto worker = [&](const size_t start, const size_t end) {
     try {
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
index efbc60b..f92b415 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
@@ -83,7 +83,7 @@ template <typename Geometry1, typename Geometry2>
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -99,9 +99,7 @@ template <typename Geometry1, typename Geometry2>
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
@@ -158,7 +156,7 @@ template <typename Geometry, typename Strategy>
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -175,9 +173,7 @@ template <typename Geometry, typename Strategy>
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
index 4f7c368..5bf1f71 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
@@ -50,7 +50,7 @@ class Coordinates : public detail::geodetic::Coordinates {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      detail::SharedException except;
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -68,9 +68,7 @@ class Coordinates : public detail::geodetic::Coordinates {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(lon, lat, alt);
   }
@@ -97,7 +95,7 @@ class Coordinates : public detail::geodetic::Coordinates {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      detail::SharedException except;
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -116,9 +114,7 @@ class Coordinates : public detail::geodetic::Coordinates {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(x, y, z);
   }
@@ -145,7 +141,7 @@ class Coordinates : public detail::geodetic::Coordinates {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      detail::SharedException except;
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -164,9 +160,7 @@ class Coordinates : public detail::geodetic::Coordinates {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(lon2, lat2, alt2);
   }
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index 0eb295f..416b064 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -149,7 +149,7 @@ auto quadrivariate(const Grid4D<Type, AxisType> &grid,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
@@ -172,9 +172,7 @@ auto quadrivariate(const Grid4D<Type, AxisType> &grid,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 6f1be6b..eca6c21 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -561,7 +561,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      detail::SharedException except;
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -595,9 +595,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(distance, value);
   }
@@ -627,7 +625,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      detail::SharedException except;
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -679,9 +677,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(points, value);
   }
@@ -709,7 +705,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      detail::SharedException except;
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -734,9 +730,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(data, neighbors);
   }
@@ -770,7 +764,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      detail::SharedException except;
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -793,9 +787,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(data, neighbors);
   }
@@ -828,7 +820,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      detail::SharedException except;
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -852,9 +844,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(data, neighbors);
   }
@@ -886,7 +876,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
       // Captures the detected exceptions in the calculation function
       // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      detail::SharedException except;
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -910,9 +900,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(data, neighbors);
   }
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 15d6860..e4f77a7 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -106,7 +106,7 @@ auto trivariate(const Grid3D<Type, AxisType> &grid,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
@@ -127,9 +127,7 @@ auto trivariate(const Grid3D<Type, AxisType> &grid,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index 2340cc5..fd4b836 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -224,7 +224,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
   auto result_lon = Eigen::VectorXd(lon.size());
   auto result_lat = Eigen::VectorXd(lat.size());
-  auto except = std::exception_ptr(nullptr);
+  detail::SharedException except;
 
   if (wgs.has_value()) {
     auto worker = [&](size_t start, size_t end) {
@@ -254,9 +254,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
     detail::dispatch(worker, lon.size(), num_threads);
   }
 
-  if (except != nullptr) {
-    std::rethrow_exception(except);
-  }
+  except.rethrow();
   return std::make_tuple(result_lon, result_lat);
 }
 
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 7a24719..3823973 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -107,7 +107,7 @@ auto RTree::query(const Eigen::Ref<const Vector<double>> &lon,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -138,9 +138,7 @@ auto RTree::query(const Eigen::Ref<const Vector<double>> &lon,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return pybind11::make_tuple(distance, value);
 }
@@ -167,7 +165,7 @@ auto RTree::inverse_distance_weighting(
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -186,9 +184,7 @@ auto RTree::inverse_distance_weighting(
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return pybind11::make_tuple(data, neighbors);
 }
@@ -225,7 +221,7 @@ auto RTree::radial_basis_function(const Eigen::Ref<const Vector<double>> &lon,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -244,9 +240,7 @@ auto RTree::radial_basis_function(const Eigen::Ref<const Vector<double>> &lon,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return pybind11::make_tuple(data, neighbors);
 }
@@ -276,7 +270,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -295,9 +289,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return pybind11::make_tuple(data, neighbors);
 }
diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 2fb16b2..d93a36f 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -233,7 +233,7 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  detail::SharedException except;
 
   detail::dispatch(
       [&](size_t start, size_t end) {
@@ -252,9 +252,7 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
       },
       lat_step, num_threads);
 
-  if (except != nullptr) {
-    std::rethrow_exception(except);
-  }
+  except.rethrow();
 
   return result;
 }
diff --git a/src/pyinterp/core/module/bicubic.cpp b/src/pyinterp/core/module/bicubic.cpp
index a097442..9f2c245 100644
--- a/src/pyinterp/core/module/bicubic.cpp
+++ b/src/pyinterp/core/module/bicubic.cpp
@@ -58,7 +58,7 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto is_angle = grid.x()->is_angle();
@@ -87,9 +87,7 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
@@ -118,7 +116,7 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto is_angle = grid.x()->is_angle();
@@ -152,9 +150,7 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
@@ -185,7 +181,7 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    detail::SharedException except;
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto is_angle = grid.x()->is_angle();
@@ -231,9 +227,7 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
-- 
2.43.0


From b44951a641a4f8cf3967f021c7605933ab9430c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 66/78] fix: errors raised during the LOESS filter were ignored

An uninitialized array was returned instead.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index e4afabc..c3198a1 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -487,6 +487,7 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
   {
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.x()->size(), num_threads);
+    except.rethrow();
   }
   return result;
 }
@@ -598,6 +599,7 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
   {
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.z()->size(), num_threads);
+    except.rethrow();
   }
   return result;
 }
@@ -657,6 +659,7 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
   {
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.u()->size(), num_threads);
+    except.rethrow();
   }
   return result;
 }
-- 
2.43.0


From 71955a5882acd17a79acbcb3df43cdf26394b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:54 +0000
Subject: [PATCH 67/78] fix: geohash codes of a polygon crossing the date line

The number of columns of the grid was negative.
---
 src/pyinterp/core/lib/geohash/string.cpp | 83 +++++++++++++++---------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index d93a36f..8996c92 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -258,39 +258,30 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
 }
 
 // ---------------------------------------------------------------------------
-// Return all GeoHash codes selected by the mask.
+// Writes all GeoHash codes selected by the mask.
 static auto select_cell(const double lng_err, const double lat_err,
                         const geodetic::Point &point_sw, const size_t lon_step,
                         const size_t lat_step, const uint32_t bits,
-                        const uint32_t precision, const Matrix<bool> &mask)
-    -> pybind11::array {
-  // Count the number of cells that are enclosed by the polygon
-  auto size = std::count(mask.data(), mask.data() + mask.size(), true);
-
-  // Allocates the result array
-  auto result = allocate_array(size, precision);
-  auto *buffer = result.buffer();
+                        const uint32_t precision, const Matrix<bool> &mask,
+                        char *buffer) -> char * {
+  auto gil = pybind11::gil_scoped_release();
 
   // For each cell of the grid, if it is selected, we add the code to the
   // result array
-  {
-    auto gil = pybind11::gil_scoped_release();
+  for (size_t lat = 0; lat < lat_step; ++lat) {
+    auto point = geodetic::Point(
+        0, point_sw.lat() + static_cast<double>(lat) * lat_err);
 
-    for (size_t lat = 0; lat < lat_step; ++lat) {
-      auto point = geodetic::Point(
-          0, point_sw.lat() + static_cast<double>(lat) * lat_err);
-
-      for (size_t lon = 0; lon < lon_step; ++lon) {
-        if (mask(lon, lat)) {
-          point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+    for (size_t lon = 0; lon < lon_step; ++lon) {
+      if (mask(lon, lat)) {
+        point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
 
-          Base32::encode(int64::encode(point, bits), buffer, precision);
-          buffer += precision;
-        }
+        Base32::encode(int64::encode(point, bits), buffer, precision);
+        buffer += precision;
       }
     }
   }
-  return result.pyarray();
+  return buffer;
 }
 
 // ---------------------------------------------------------------------------
@@ -303,21 +294,49 @@ auto bounding_boxes(const Geometry &geometry, const uint32_t precision,
   // Bounding box of the grid to be created
   const auto envelope = geometry.envelope();
 
+  // An envelope crossing the date line is cut into two parts
+  const auto cut = envelope.max_corner().lon() > 180;
+  auto boxes = std::vector<geodetic::Box>{envelope};
+  if (cut) {
+    boxes.front().max_corner().lon(180);
+    boxes.emplace_back(
+        geodetic::Point(-180, envelope.min_corner().lat()),
+        geodetic::Point(envelope.max_corner().lon() - 360,
+                        envelope.max_corner().lat()));
+  }
+
   // Grid resolution in degrees
   const auto [lng_err, lat_err] = int64::error_with_precision(bits);
 
-  // Property of the grid
-  auto [hash_sw, lon_step, lat_step] = int64::grid_properties(envelope, bits);
-  const auto point_sw = int64::decode(hash_sw, bits, false);
-
-  // Calculates the intersection mask between the geometry and the GeoHash grid
-  auto mask =
-      mask_cell<Geometry>(envelope, geometry, lng_err, lat_err, point_sw,
-                          lon_step, lat_step, bits, num_threads);
+  // Properties of the grids, and intersection masks between the geometry and
+  // the GeoHash grids
+  auto points = std::vector<geodetic::Point>();
+  auto masks = std::vector<Matrix<bool>>();
+  auto size = static_cast<size_t>(0);
+
+  for (const auto &box : boxes) {
+    auto [hash_sw, lon_step, lat_step] = int64::grid_properties(box, bits);
+    points.emplace_back(int64::decode(hash_sw, bits, false));
+    if (points.size() == 2) {
+      // The columns of the first part must not be selected again
+      lon_step = std::min(
+          lon_step, static_cast<size_t>(std::round(
+                        (points.front().lon() + 180) / lng_err)));
+    }
+    masks.emplace_back(mask_cell<Geometry>(box, geometry, lng_err, lat_err,
+                                           points.back(), lon_step, lat_step,
+                                           bits, num_threads));
+    size += masks.back().count();
+  }
 
   // Finally, selects the geohashes that are enclosed in the geometry
-  return select_cell(lng_err, lat_err, point_sw, lon_step, lat_step, bits,
-                     precision, mask);
+  auto result = allocate_array(size, precision);
+  auto *buffer = result.buffer();
+  for (size_t ix = 0; ix < masks.size(); ++ix) {
+    buffer = select_cell(lng_err, lat_err, points[ix], masks[ix].rows(),
+                         masks[ix].cols(), bits, precision, masks[ix], buffer);
+  }
+  return result.pyarray();
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 2a8f5a74f4771b43d17f8ccaaaedfcd75d8eac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 68/78] fix: fill.matrix: single precision matrices are not
 processed twice

---
 src/pyinterp/fill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index 2c250dd..91658ca 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -164,7 +164,10 @@ def matrix(x: NDArray,
         x = numpy.copy(x)
     if dtype == numpy.float32:
         core.fill.matrix_float32(x, fill_value)
-    core.fill.matrix_float64(x, fill_value)
+    elif dtype == numpy.float64:
+        core.fill.matrix_float64(x, fill_value)
+    else:
+        raise ValueError(f'unsupported data type {dtype}')
     return x
 
 
-- 
2.43.0


From fb4ce55fc5d4615606584119e7cad662d5c20bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 69/78] fix: fill.matrix: a lonely defined cell of a row
 remains defined

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index c3198a1..d66cc5e 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -226,9 +226,9 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
     }
   }
 
-  // If there are no valid points, then we can't interpolate anything.
+  // If there are less than two valid points, then we can't interpolate
+  // anything.
   if (last_valid == first_valid) {
-    is_undefined.setOnes();
     return;
   }
 
-- 
2.43.0


From 40acda271f3e3153f928a9358b0052ad2a2f1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 70/78] fix: gauss_seidel: grids with a single row or column
 are not read out of bounds

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index d66cc5e..ab73aab 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -93,6 +93,11 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   auto x_size = grid.rows();
   auto y_size = grid.cols();
 
+  // Distance to the cell mirrored beyond an edge: an axis with a single cell
+  // is mirrored on itself.
+  const auto x_mirror = std::min<int64_t>(1, x_size - 1);
+  const auto y_mirror = std::min<int64_t>(1, y_size - 1);
+
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
   detail::SharedException except;
@@ -132,13 +137,14 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
 
     try {
       for (auto ix = 0; ix < x_size; ++ix) {
-        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : 1) : ix - 1;
-        auto ix1 = ix == x_size - 1 ? (is_circle ? 0 : x_size - 2) : ix + 1;
+        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : x_mirror) : ix - 1;
+        auto ix1 = ix == x_size - 1 ? (is_circle ? 0 : x_size - 1 - x_mirror)
+                                    : ix + 1;
 
         for (auto iy = y_start; iy < y_end; ++iy) {
           if (mask(ix, iy) && ((ix + iy) % 2) == red_black) {
-            auto iy0 = iy == 0 ? 1 : iy - 1;
-            auto iy1 = iy == y_size - 1 ? y_size - 2 : iy + 1;
+            auto iy0 = iy == 0 ? y_mirror : iy - 1;
+            auto iy1 = iy == y_size - 1 ? y_size - 1 - y_mirror : iy + 1;
 
             cell_fill(ix0, ix, ix1, iy0, iy, iy1);
           }
-- 
2.43.0


From 9b84ac67965a653af6bc12e8b00c80d81cf1e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 71/78] fix: loess: no division by zero along an axis with a
 single point

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index ab73aab..0476b41 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -346,7 +346,9 @@ inline auto frame_index(const int64_t index, const int64_t size,
     } else {
       // Otherwise, the symmetrical indexes are used if the indexes are outside
       // the domain definition.
-      if (idx < 0 || idx >= size) {
+      if (size == 1) {
+        idx = 0;
+      } else if (idx < 0 || idx >= size) {
         auto where = detail::math::remainder(idx, (size - 1) * 2);
         if (where >= size) {
           idx = size - 2 - detail::math::remainder(where, size);
-- 
2.43.0


From 15e507281dd3bb0548dc9300252dcf1e3153a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 72/78] fix: fill.vector: the greatest integer can be the fill
 value

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 0476b41..2300831 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -709,7 +709,7 @@ void matrix(pybind11::EigenDRef<Matrix<T>> x, const T &fill_value) {
 template <typename T>
 auto vector(Eigen::Ref<Vector<T>> array, const T &fill_value) {
   Vector<bool> mask;
-  if (detail::math::Fill<T>::is(fill_value)) {
+  if (fill_value != fill_value) {
     mask = Eigen::isnan(array.array());
   } else {
     mask = array.array() == fill_value;
-- 
2.43.0


From 2c525fd58705588135f868e50cbd4589036a06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 73/78] fix: fill.vector: rounding errors of dates are not
 accumulated along a gap

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 35 ++++++++++++++-------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 2300831..90545b4 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -16,6 +16,7 @@
 #include <mutex>
 #include <string>
 #include <tuple>
+#include <type_traits>
 #include <vector>
 
 #include "pyinterp/detail/math.hpp"
@@ -192,6 +193,23 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   return std::max(calculate(0), calculate(1));
 }
 
+/// Calculates the increment after a number of steps along a line.
+///
+/// @tparam T The type of the coordinates.
+/// @param dx Increment after size steps.
+/// @param size Number of steps needed to increase by dx.
+/// @param steps Number of steps performed.
+/// @return dx * steps / size, integers are truncated once only.
+template <typename T>
+constexpr auto line_increment(const T dx, const Eigen::Index size,
+                              const Eigen::Index steps) -> T {
+  if constexpr (std::is_integral<T>::value) {
+    return dx / size * steps + dx % size * steps / size;
+  } else {
+    return dx / size * steps;
+  }
+}
+
 /// Fills in the gaps between defined values in a line with interpolated
 /// values.
 ///
@@ -202,8 +220,6 @@ template <typename T>
 void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
   T x0;
   T x1;
-  T dx;
-  Eigen::Index di;
   Eigen::Index last_valid = -1;
   Eigen::Index first_valid = -1;
   const auto size = x.size();
@@ -216,11 +232,9 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
       if (last_valid != -1 && (ix - last_valid) > 1) {
         x0 = x[last_valid];
         x1 = x[ix];
-        di = ix - last_valid;
-        dx = (x1 - x0) / di;
         for (Eigen::Index jx = last_valid + 1; jx < ix; ++jx) {
-          di = jx - last_valid;
-          x[jx] = dx * di + x0;
+          x[jx] = x0 + line_increment<T>(x1 - x0, ix - last_valid,
+                                         jx - last_valid);
         }
       } else if (first_valid == -1) {
         // If this is the first valid point, then we can't interpolate the
@@ -241,22 +255,21 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
   // If the last valid point is not the last point, then we can't interpolate
   x0 = x[first_valid];
   x1 = x[last_valid];
-  dx = (x1 - x0) / (last_valid - first_valid);
+  const auto dx = static_cast<T>(x1 - x0);
+  const auto size_x = last_valid - first_valid;
 
   // If there is a gap between the last valid point and the end of the line,
   // then interpolate the gap.
   if (last_valid < (size - 1)) {
     for (Eigen::Index jx = last_valid + 1; jx < size; ++jx) {
-      di = jx - last_valid;
-      x[jx] = dx * di + x1;
+      x[jx] = x1 + line_increment<T>(dx, size_x, jx - last_valid);
     }
   }
   // If there is a gap between the first valid point and the beginning of the
   // line, then interpolate the gap.
   if (first_valid > 0) {
     for (Eigen::Index jx = 0; jx < first_valid; ++jx) {
-      di = first_valid - jx;
-      x[jx] = x0 - dx * di;
+      x[jx] = x0 - line_increment<T>(dx, size_x, first_valid - jx);
     }
   }
   // Mark all points as defined.
-- 
2.43.0


From 31e0912c4aee0be0ad940880a60aaeb2cde4a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 74/78] fix: fill.vector: the fill value is given in any unit
 of time

---
 src/pyinterp/fill.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index 91658ca..4373e4a 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -199,8 +199,9 @@ def vector(x: NDArray,
         core.fill.vector_int64(x, fill_value)
     elif numpy.issubdtype(dtype, numpy.datetime64) or numpy.issubdtype(
             dtype, numpy.timedelta64):
-        core.fill.vector_int64(x.view(numpy.int64),
-                               fill_value.view(numpy.int64))
+        core.fill.vector_int64(
+            x.view(numpy.int64),
+            numpy.array(fill_value, dtype=dtype).view(numpy.int64).item())
     else:
         raise ValueError(f'unsupported data type {dtype}')
     return x
-- 
2.43.0


From 9608c5ea15da732f8e4ba7b08db5976438a8bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 75/78] fix: the coordinates of an interpolation window beyond
 the edges continue the axis

---
 src/pyinterp/core/include/pyinterp/frame.hpp | 77 +++++++++++++-------
 1 file changed, 50 insertions(+), 27 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/frame.hpp b/src/pyinterp/core/include/pyinterp/frame.hpp
index ec7ba04..1cd2b26 100644
--- a/src/pyinterp/core/include/pyinterp/frame.hpp
+++ b/src/pyinterp/core/include/pyinterp/frame.hpp
@@ -4,8 +4,10 @@
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
 #include <Eigen/Core>
+#include <cmath>
 #include <cstdint>
 #include <string>
+#include <vector>
 
 #include "pyinterp/axis.hpp"
 #include "pyinterp/detail/math/frame.hpp"
@@ -21,6 +23,48 @@ inline auto index_error(const std::string &axis, const std::string &value,
                               " axis");
 }
 
+/// Get the coordinates of the points of a window along an axis
+///
+/// The points beyond the edges of the axis, designated by the indexes of the
+/// points replacing them, continue the axis: the coordinates of a window are
+/// always increasing.
+inline auto frame_coordinates(const Axis<double> &axis,
+                              const std::vector<int64_t> &indexes,
+                              Eigen::VectorXd &coordinates) -> void {
+  const auto size = static_cast<Eigen::Index>(indexes.size());
+
+  if (axis.is_circle()) {
+    const auto x0 = axis(indexes[0]);
+    for (Eigen::Index ix = 0; ix < size; ++ix) {
+      coordinates(ix) =
+          detail::math::normalize_angle(axis(indexes[ix]), x0, 360.0);
+    }
+    return;
+  }
+
+  // Sets the coordinates located on one side of the window
+  auto expand = [&](Eigen::Index ix, const Eigen::Index direction) {
+    auto step = axis(indexes[size / 2]) - axis(indexes[size / 2 - 1]);
+    auto inside = true;
+    for (; ix >= 0 && ix < size; ix += direction) {
+      const auto i0 = indexes[ix - direction];
+      const auto i1 = indexes[ix];
+      // The spacing is kept if these are not two consecutive points
+      if (i1 - i0 == 1 || i0 - i1 == 1) {
+        step = std::abs(axis(i1) - axis(i0));
+      }
+      inside = inside && i1 - i0 == direction;
+      coordinates(ix) = inside ? axis(i1)
+                               : coordinates(ix - direction) +
+                                     static_cast<double>(direction) * step;
+    }
+  };
+  coordinates(size / 2 - 1) = axis(indexes[size / 2 - 1]);
+  coordinates(size / 2) = axis(indexes[size / 2]);
+  expand(size / 2 + 1, 1);
+  expand(size / 2 - 2, -1);
+}
+
 /// Loads the interpolation frame into memory
 template <typename DataType>
 auto load_frame(const Grid2D<DataType> &grid, const double x, const double y,
@@ -43,19 +87,12 @@ auto load_frame(const Grid2D<DataType> &grid, const double x, const double y,
     return false;
   }
 
-  auto x0 = x_axis(x_indexes[0]);
-
-  for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
-  }
+  frame_coordinates(x_axis, x_indexes, *frame.x());
+  frame_coordinates(y_axis, y_indexes, *frame.y());
 
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle()
-                      ? detail::math::normalize_angle(x_axis(index), x0, 360.0)
-                      : x_axis(index);
-
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       frame.q(ix, jx) = static_cast<double>(grid.value(index, y_indexes[jx]));
     }
@@ -91,11 +128,8 @@ auto load_frame(const Grid3D<DataType, AxisType> &grid, const double x,
     return false;
   }
 
-  auto x0 = x_axis(x_indexes[0]);
-
-  for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
-  }
+  frame_coordinates(x_axis, x_indexes, *frame.x());
+  frame_coordinates(y_axis, y_indexes, *frame.y());
 
   for (Eigen::Index kx = 0; kx < frame.z().size(); ++kx) {
     frame.z(kx) = z_axis(z_indexes[kx]);
@@ -104,10 +138,6 @@ auto load_frame(const Grid3D<DataType, AxisType> &grid, const double x,
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto x_index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle() ? detail::math::normalize_angle(
-                                          x_axis(x_index), x0, 360.0)
-                                    : x_axis(x_index);
-
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       const auto y_index = y_indexes[jx];
 
@@ -154,11 +184,8 @@ auto load_frame(const Grid4D<DataType, AxisType> &grid, const double x,
     return false;
   }
 
-  auto x0 = x_axis(x_indexes[0]);
-
-  for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
-  }
+  frame_coordinates(x_axis, x_indexes, *frame.x());
+  frame_coordinates(y_axis, y_indexes, *frame.y());
 
   for (Eigen::Index kx = 0; kx < frame.z().size(); ++kx) {
     frame.z(kx) = z_axis(z_indexes[kx]);
@@ -171,10 +198,6 @@ auto load_frame(const Grid4D<DataType, AxisType> &grid, const double x,
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto x_index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle() ? detail::math::normalize_angle(
-                                          x_axis(x_index), x0, 360.0)
-                                    : x_axis(x_index);
-
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       const auto y_index = y_indexes[jx];
 
-- 
2.43.0


From 88cebe13838b4f5806f06e44ac5c2b0281adca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:18 +0000
Subject: [PATCH 76/78] fix: the interpolation windows can be larger than a
 circle

---
 src/pyinterp/core/include/pyinterp/detail/math/frame.hpp | 7 ++++---
 src/pyinterp/core/include/pyinterp/frame.hpp             | 8 +++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp b/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
index 6e21154..5223809 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
@@ -103,10 +103,11 @@ class CoordsXY {
   /// Get the ith y-axis.
   inline auto y(const Eigen::Index jx) -> double & { return (*y_)(jx); }
 
-  /// Normalizes the angle with respect to the first value of the X axis of this
-  /// array.
+  /// Normalizes the angle with respect to the X axis of this array: the two
+  /// central values of the axis frame the normalized angle.
   [[nodiscard]] inline auto normalize_angle(const double xi) const -> double {
-    return math::normalize_angle(xi, (*x_)(0), 360.0);
+    return math::normalize_angle(
+        xi, ((*x_)(nx() - 1) + (*x_)(nx())) * 0.5 - 180.0, 360.0);
   }
 
  private:
diff --git a/src/pyinterp/core/include/pyinterp/frame.hpp b/src/pyinterp/core/include/pyinterp/frame.hpp
index 1cd2b26..617d066 100644
--- a/src/pyinterp/core/include/pyinterp/frame.hpp
+++ b/src/pyinterp/core/include/pyinterp/frame.hpp
@@ -35,9 +35,15 @@ inline auto frame_coordinates(const Axis<double> &axis,
 
   if (axis.is_circle()) {
     const auto x0 = axis(indexes[0]);
+    auto turn = 0.0;
     for (Eigen::Index ix = 0; ix < size; ++ix) {
       coordinates(ix) =
-          detail::math::normalize_angle(axis(indexes[ix]), x0, 360.0);
+          detail::math::normalize_angle(axis(indexes[ix]), x0, 360.0) + turn;
+      // The window is larger than the circle
+      if (ix > 0 && coordinates(ix) <= coordinates(ix - 1)) {
+        coordinates(ix) += 360.0;
+        turn += 360.0;
+      }
     }
     return;
   }
-- 
2.43.0


From 7c22b9df042f6e935eb9b6f1663c54ad82c28e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:45 +0000
Subject: [PATCH 77/78] fix: symmetric boundary: windows larger than the axis

The indexes of the points beyond the first reflection were not symmetric.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 89b828d..e74e64e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -401,6 +401,14 @@ class Axis {
     auto result = std::vector<int64_t>(size << 1U);
     std::tie(result[size - 1], result[size]) = *indexes;
 
+    // Index of the point replacing the one located out of the axis when the
+    // axis is reflected at its edges, as many times as needed
+    auto reflect = [](const int64_t ix, const int64_t len) -> int64_t {
+      const auto period = len > 1 ? 2 * (len - 1) : 1;
+      const auto result = math::remainder(ix, period);
+      return result < len ? result : period - result;
+    };
+
     // Offset in relation to the first indexes found
     uint32_t shift = 1;
 
@@ -417,7 +425,7 @@ class Axis {
               before = math::remainder(len + before, len);
               break;
             case ::pyinterp::axis::kSym:
-              before = math::remainder(-before, len);
+              before = reflect(before, len);
               break;
             default:
               return {};
@@ -437,7 +445,7 @@ class Axis {
               after = math::remainder(after, len);
               break;
             case ::pyinterp::axis::kSym:
-              after = math::remainder(len - 2 - (after - len), len);
+              after = reflect(after, len);
               break;
             default:
               return {};
-- 
2.43.0


From 70a56fe91b0a9a41bc4f9f5ddb626ba1da7cdab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:38 +0000
Subject: [PATCH 78/78] fix: geodetic.RTree searched the neighbors with the
 WGS84 spheroid

The distances were calculated with the spheroid given to the constructor, but
the nearest neighbors were those of the default spheroid.
---
 .../pyinterp/detail/geometry/rtree.hpp        | 13 +++++++----
 .../core/include/pyinterp/geodetic/rtree.hpp  | 22 ++++++++++++++++---
 src/pyinterp/core/lib/geodetic/rtree.cpp      | 16 ++++++++------
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
index 98a2485..091033c 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geometry/rtree.hpp
@@ -24,7 +24,9 @@ namespace pyinterp::detail::geometry {
 ///
 /// @tparam Point point type
 /// @tparam Type of value associated to each point
-template <typename Point, typename Type>
+/// @tparam Parameters of the spatial index
+template <typename Point, typename Type,
+          typename Parameters = boost::geometry::index::rstar<16>>
 class RTree {
  public:
   using dimension_t = typename boost::geometry::traits::dimension<Point>;
@@ -44,8 +46,7 @@ class RTree {
   using value_t = std::pair<Point, Type>;
 
   /// Spatial index used
-  using rtree_t =
-      boost::geometry::index::rtree<value_t, boost::geometry::index::rstar<16>>;
+  using rtree_t = boost::geometry::index::rtree<value_t, Parameters>;
 
   /// Type of the implicit conversion between the type of coordinates and values
   using promotion_t =
@@ -54,6 +55,10 @@ class RTree {
   /// Default constructor
   RTree() : tree_(new rtree_t{}) {}
 
+  /// Constructor of an index using the given parameters
+  explicit RTree(const Parameters &parameters)
+      : tree_(new rtree_t{parameters}) {}
+
   /// Default destructor
   virtual ~RTree() = default;
 
@@ -99,7 +104,7 @@ class RTree {
   ///
   /// @param points
   inline auto packing(const std::vector<value_t> &points) -> void {
-    *tree_ = rtree_t(points);
+    *tree_ = rtree_t(points, tree_->parameters());
   }
 
   /// Insert new data into the search tree
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/rtree.hpp b/src/pyinterp/core/include/pyinterp/geodetic/rtree.hpp
index 3c91212..2ac8883 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/rtree.hpp
@@ -11,15 +11,25 @@
 
 namespace pyinterp::geodetic {
 
+/// Parameters of the spatial index: the distances between the geodetic points
+/// are those of a given spheroid.
+using RTreeStrategy = boost::geometry::strategies::index::geographic<
+    boost::geometry::strategy::andoyer, boost::geometry::srs::spheroid<double>>;
+using RTreeParameters =
+    boost::geometry::index::parameters<boost::geometry::index::rstar<16>,
+                                       RTreeStrategy>;
+
 /// RTree spatial index for geodetic point
-class RTree : public detail::geometry::RTree<
-                  detail::geometry::GeographicPoint2D<double>, double> {
+class RTree
+    : public detail::geometry::RTree<
+          detail::geometry::GeographicPoint2D<double>, double,
+          RTreeParameters> {
  public:
   /// Point type
   using point_t = detail::geometry::GeographicPoint2D<double>;
 
   /// Base class
-  using base_t = detail::geometry::RTree<point_t, double>;
+  using base_t = detail::geometry::RTree<point_t, double, RTreeParameters>;
 
   /// Type of point coordinates
   using coordinate_t = typename base_t::coordinate_t;
@@ -99,6 +109,12 @@ class RTree : public detail::geometry::RTree<
   static auto setstate(const pybind11::tuple &state) -> RTree;
 
  private:
+  /// Create a new RTree for the model of the Earth given.
+  explicit RTree(const boost::geometry::srs::spheroid<double> &model)
+      : base_t(RTreeParameters(boost::geometry::index::rstar<16>(),
+                               RTreeStrategy(model))),
+        strategy_(model) {}
+
   /// Strategy used to compute the distance between two points.
   strategy_t strategy_{};
 };
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 3823973..a576352 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -24,12 +24,16 @@ class RBF : public detail::math::RBF<T> {
   const Strategy &strategy_;
 };
 
-RTree::RTree(const std::optional<detail::geodetic::Spheroid> &wgs) : base_t() {
+/// Get the model of the Earth corresponding to the given spheroid.
+static auto make_model(const std::optional<detail::geodetic::Spheroid> &wgs)
+    -> boost::geometry::srs::spheroid<double> {
   auto spheroid = wgs.value_or(detail::geodetic::Spheroid());
-  strategy_ = strategy_t(boost::geometry::srs::spheroid<double>(
-      spheroid.semi_major_axis(), spheroid.semi_minor_axis()));
+  return {spheroid.semi_major_axis(), spheroid.semi_minor_axis()};
 }
 
+RTree::RTree(const std::optional<detail::geodetic::Spheroid> &wgs)
+    : RTree(make_model(wgs)) {}
+
 auto RTree::equatorial_bounds() const -> std::optional<Box> {
   auto box = this->bounds();
   if (box.has_value()) {
@@ -340,10 +344,8 @@ auto RTree::setstate(const pybind11::tuple &state) -> RTree {
     vector.emplace_back(point_t(_coordinates(ix, 0), _coordinates(ix, 1)),
                         _data(ix));
   }
-  auto result = RTree();
-  result.strategy_ = strategy_t({a, b});
-  static_cast<detail::geometry::RTree<RTree::point_t, double>>(result).packing(
-      vector);
+  auto result = RTree(boost::geometry::srs::spheroid<double>(a, b));
+  static_cast<RTree::base_t &>(result).packing(vector);
   return result;
 }
 
-- 
2.43.0

