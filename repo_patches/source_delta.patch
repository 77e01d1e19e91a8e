From c0aaec55d3079a8910f4abb9bb61d32dd1499389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:20 +0000
Subject: [PATCH 01/38] fix: trunc, and floor, ceil, round and mod with it,
 return the value for numbers outside of the int64 range

---
 include/vecmath/scalar.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 06245e3..8d68149 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -364,6 +364,13 @@ template <typename T> constexpr T smoothstep(const T e0, const T e1, const T v)
  * @return the truncated value
  */
 template <typename T> constexpr T trunc(const T v) {
+  if constexpr (std::is_floating_point<T>::value) {
+    // values of this magnitude have no fractional part, and they may not fit into an int64_t
+    constexpr auto limit = static_cast<T>(1) / std::numeric_limits<T>::epsilon();
+    if (!(v > -limit && v < limit)) {
+      return v;
+    }
+  }
   return static_cast<T>(static_cast<int64_t>(v));
 }
 
-- 
2.43.0


From 20ed88b2159c8269057d471750c56ca98a66ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 02/38] fix: round does not round up values whose sum with one
 half is inexact

---
 include/vecmath/scalar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 8d68149..b59b2af 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -449,7 +449,8 @@ template <typename T> constexpr T fract(const T v) {
  */
 template <typename T> constexpr T round(const T v) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  return v > static_cast<T>(0.0) ? floor(v + static_cast<T>(0.5)) : ceil(v - static_cast<T>(0.5));
+  const auto r = trunc(v);
+  return abs(v - r) < static_cast<T>(0.5) ? r : r + sign(v);
 }
 
 /**
-- 
2.43.0


From 9a2fd286aa44a50dc1b791978172ba2489602323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:42 +0000
Subject: [PATCH 03/38] fix: normalize_radians and normalize_degrees terminate
 and stay in range for every finite angle

---
 include/vecmath/scalar.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index b59b2af..e088f36 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -632,10 +632,11 @@ template <typename T> constexpr T normalize_radians(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = constants<T>::two_pi();
-  while (angle < z) {
+  angle = mod(angle, o);
+  if (angle < z) {
     angle += o;
   }
-  return mod(angle, o);
+  return angle < z || angle >= o ? z : angle;
 }
 
 /**
@@ -649,10 +650,11 @@ template <typename T> constexpr T normalize_degrees(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = static_cast<T>(360.0);
-  while (angle < z) {
+  angle = mod(angle, o);
+  if (angle < z) {
     angle += o;
   }
-  return mod(angle, o);
+  return angle < z || angle >= o ? z : angle;
 }
 
 /**
-- 
2.43.0


From dffbe0504121a031864c8032cb7a1578218b31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 04/38] fix: solve_quartic returns the roots of the second
 quadratic factor

---
 include/vecmath/scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index e088f36..b113910 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -947,10 +947,10 @@ std::tuple<size_t, T, T, T, T> solve_quartic(
       solutions[1] = std::get<2>(solutions2_1);
     }
 
-    if (num2_1 > 0u) {
+    if (num2_2 > 0u) {
       solutions[0 + num2_1] = std::get<1>(solutions2_2);
     }
-    if (num2_1 > 1u) {
+    if (num2_2 > 1u) {
       solutions[1 + num2_1] = std::get<2>(solutions2_2);
     }
   }
-- 
2.43.0


From b9cb6ea4791fa4642783d238e8b8e0054b993cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:34 +0000
Subject: [PATCH 05/38] fix: bbox::builder returns an empty box at the origin
 when nothing was added

---
 include/vecmath/bbox.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/bbox.h b/include/vecmath/bbox.h
index f59db5f..24a7e2d 100644
--- a/include/vecmath/bbox.h
+++ b/include/vecmath/bbox.h
@@ -58,7 +58,7 @@ public:
     /**
      * Returns the bounds. If the no point has been added, an empty bbox at the origin is returned.
      */
-    constexpr const bbox& bounds() const { return m_bounds; }
+    constexpr bbox bounds() const { return initialized() ? m_bounds : bbox(); }
 
     /**
      * Returns whether anything has been added to this builder.
-- 
2.43.0


From 8a3f6aa969b040d98906d6de9865481e528a6fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:42 +0000
Subject: [PATCH 06/38] fix: converting a segment to another component type
 keeps its points in order

---
 include/vecmath/segment.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index dcae42e..2876801 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -77,8 +77,7 @@ public:
    */
   template <typename U>
   explicit constexpr segment(const segment<U, S>& other)
-    : m_start(other.start())
-    , m_end(other.end()) {}
+    : segment(vec<T, S>(other.start()), vec<T, S>(other.end())) {}
 
   /**
    * Returns the origin of this segment.
-- 
2.43.0


From 9f29da1604d2cfe9d75d8ca1b8191788cf6f4c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:47 +0000
Subject: [PATCH 07/38] fix: segment::contains accepts exactly the points
 within the maximum distance

---
 include/vecmath/segment.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index 2876801..f6fbaf3 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -118,13 +118,11 @@ public:
    * @return true if the given point is contained in this segment and false otherwise
    */
   bool contains(const vec<T, S>& point, const T maxDistance) const {
-    const auto f = distance_to_projected_point(*this, point);
-    if (f < -maxDistance || f * f > squared_length() + maxDistance * maxDistance) {
-      return false;
-    } else {
-      const auto proj = point_at_distance(*this, f);
-      return squared_distance(proj, point) <= (maxDistance * maxDistance);
-    }
+    const auto dir = m_end - m_start;
+    const auto len2 = squared_length();
+    // the position of the point of this segment that is closest to the given point
+    const auto f = len2 > T(0) ? clamp(dot(point - m_start, dir) / len2, T(0), T(1)) : T(0);
+    return squared_distance(m_start + dir * f, point) <= maxDistance * maxDistance;
   }
 
   /**
-- 
2.43.0


From 15dec171dc7411ccb730bc06634045594d11daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:54 +0000
Subject: [PATCH 08/38] fix: from_points applies the given mapping function to
 the elements of the range

---
 include/vecmath/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index 0b96c53..fba2dfa 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -396,17 +396,17 @@ auto from_points(I cur, I end, const G& get = G())
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p1 = *cur;
+  const auto p1 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p2 = *cur;
+  const auto p2 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p3 = *cur;
+  const auto p3 = get(*cur);
 
   return from_points(p1, p2, p3);
 }
-- 
2.43.0


From 345f890a76e18c37efa7c3ab224b9c26ad8067d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:07 +0000
Subject: [PATCH 09/38] fix: the products of a vector and a non-square matrix
 have the matrix's other dimension

---
 include/vecmath/mat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index c511ec8..8ebd2d7 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -574,8 +574,8 @@ constexpr mat<T, R, C> operator/(const mat<T, R, C>& lhs, const T rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
-  vec<T, R> result;
+constexpr vec<T, C> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
+  vec<T, C> result;
   for (size_t c = 0; c < C; c++) {
     result[c] = dot(lhs, rhs[c]);
   }
@@ -594,7 +594,7 @@ constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
-  vec<T, C> result;
+  vec<T, R> result;
   for (size_t r = 0; r < R; r++) {
     for (size_t c = 0; c < C; ++c) {
       result[r] += lhs[c][r] * rhs[c];
-- 
2.43.0


From 9270e072286bcefc0fd19dce349c8bf0eaf3e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:21 +0000
Subject: [PATCH 10/38] fix: transpose accepts non-square matrices

---
 include/vecmath/mat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index 8ebd2d7..05a2b2d 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -664,10 +664,10 @@ constexpr mat<T, R, C> set(mat<T, R, C> m, const std::size_t r, const std::size_
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
-  mat<T, C, R> result(m);
+  mat<T, C, R> result;
   for (std::size_t c = 0u; c < C; ++c) {
-    for (std::size_t r = c + 1u; r < R; ++r) {
-      detail::swap(result[c][r], result[r][c]);
+    for (std::size_t r = 0u; r < R; ++r) {
+      result[r][c] = m[c][r];
     }
   }
   return result;
-- 
2.43.0


From ddfd474f2ff586304bc8d564311d9b8025b4be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:34 +0000
Subject: [PATCH 11/38] fix: slice checks its column count against the matrix's
 columns

---
 include/vecmath/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index 05a2b2d..1cd1b86 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -688,7 +688,7 @@ constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
  */
 template <std::size_t RR, std::size_t RC, typename T, std::size_t R, std::size_t C>
 constexpr mat<T, RR, RC> slice(const mat<T, R, C>& m, const size_t r, const size_t c) {
-  static_assert(RR <= R && RC <= R, "slice must not exceed matrix");
+  static_assert(RR <= R && RC <= C, "slice must not exceed matrix");
   assert(r <= R - RR && c <= C - RC);
   mat<T, RR, RC> result;
   for (std::size_t row = 0u; row < RR; ++row) {
-- 
2.43.0


From 46bafeee5b4cc27da1b683ef737d06e5914067a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:08 +0000
Subject: [PATCH 12/38] fix: rotation_matrix_to_euler_angles handles a pitch of
 90 degrees up to rounding

---
 include/vecmath/mat_ext.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 9c4bebc..180fb9e 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -324,7 +324,9 @@ template <typename T> vec<T, 3> rotation_matrix_to_euler_angles(const mat<T, 4,
 
   T theta, psi, phi;
 
-  if (abs(rotMat[0][2]) != T(1.0)) {
+  // With a pitch of +-90 degrees, the remaining elements of the row and the column are zero up to
+  // rounding, so that roll and yaw cannot be determined from them.
+  if (abs(rotMat[0][2]) < T(1.0) - T(8.0) * std::numeric_limits<T>::epsilon()) {
     theta = -std::asin(rotMat[0][2]);
     const auto cosTheta = std::cos(theta);
 
@@ -332,7 +334,7 @@ template <typename T> vec<T, 3> rotation_matrix_to_euler_angles(const mat<T, 4,
     phi = std::atan2(rotMat[0][1] / cosTheta, rotMat[0][0] / cosTheta);
   } else {
     phi = 0.0;
-    if (rotMat[0][2] == T(-1.0)) {
+    if (rotMat[0][2] < T(0.0)) {
       theta = vm::constants<T>::half_pi();
       psi = std::atan2(rotMat[1][0], rotMat[2][0]);
     } else {
-- 
2.43.0


From 164fb42523f891572b5a8d08a8efd90a58f2147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:00 +0000
Subject: [PATCH 13/38] fix: the quaternion between two directions is accurate
 for directions that are almost parallel or opposite

---
 include/vecmath/quat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index f193588..f7b9fc7 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -94,11 +94,14 @@ public:
     assert(is_unit(from, constants<T>::almost_zero()));
     assert(is_unit(to, constants<T>::almost_zero()));
 
+    const auto normal = cross(from, to);
+    const auto sin = length(normal);
     const auto cos = dot(from, to);
-    if (is_equal(+cos, T(1.0), constants<T>::almost_zero())) {
+    const auto colinear = sin < std::sqrt(std::numeric_limits<T>::epsilon());
+    if (colinear && cos > T(0.0)) {
       // `from` and `to` are equal.
       set_rotation(vec<T, 3>::pos_z(), T(0.0));
-    } else if (is_equal(-cos, T(1.0), constants<T>::almost_zero())) {
+    } else if (colinear) {
       // `from` and `to` are opposite.
       // We need to find a rotation axis that is perpendicular to `from`.
       auto axis = cross(from, vec<T, 3>::pos_z());
@@ -107,8 +110,8 @@ public:
       }
       set_rotation(normalize(axis), to_radians(T(180)));
     } else {
-      const auto axis = normalize(cross(from, to));
-      const auto angle = std::acos(cos);
+      const auto axis = normalize(normal);
+      const auto angle = std::atan2(sin, cos);
       set_rotation(axis, angle);
     }
   }
-- 
2.43.0


From ce8be90d1c5972fdd560352e2a23eb3d7f20c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:32 +0000
Subject: [PATCH 14/38] fix: the distance of a point and a degenerate segment
 is not NaN

---
 include/vecmath/distance.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index a708a71..c549271 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -129,6 +129,10 @@ template <typename T, size_t S>
 point_distance<T> squared_distance(const segment<T, S>& s, const vec<T, S>& p) {
   const auto vector = s.end() - s.start();
   const auto len = length(vector);
+  if (len == T(0.0)) {
+    return point_distance<T>(T(0.0), squared_length(p - s.start()));
+  }
+
   const auto dir = vector / len;
   const T scale = dot(p - s.start(), dir);
 
-- 
2.43.0


From 479cbd183abc56db5418a7ab76d87e7345cecd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:32 +0000
Subject: [PATCH 15/38] fix: the position of the closest point of a degenerate
 segment next to a ray origin is not NaN

---
 include/vecmath/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index c549271..881940d 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -296,7 +296,7 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     } else {
       // segment straddles ray origin
       const T perpendicular_dist_squared = squared_distance(point_at_distance(r, p1_on_r), p1);
-      const T r_origin_on_s = distance_to_projected_point(s, r.origin);
+      const T r_origin_on_s = abs(p1_on_r);
       return line_distance<T>::Parallel(0, perpendicular_dist_squared, r_origin_on_s);
     }
   }
-- 
2.43.0


From 165e05328168ddbd9bb6331b48f154142f03fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:32 +0000
Subject: [PATCH 16/38] fix: the distance of a ray and a segment is minimal if
 the ray origin is the closest point

---
 include/vecmath/distance.h | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 881940d..c40e9b6 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -301,25 +301,15 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     }
   }
 
-  T sN, sD = D;
-  T tN, tD = D;
-
-  sN = (b * e - c * d);
-  tN = (a * e - b * d);
-  if (sN < static_cast<T>(0.0)) {
-    sN = static_cast<T>(0.0);
-    tN = e;
-    tD = c;
-  } else if (sN > sD) {
-    sN = sD;
-    tN = e + b;
-    tD = c;
+  // closest points of the two lines, with the segment's point clamped to the segment
+  T sc = min(max((b * e - c * d) / D, static_cast<T>(0.0)), static_cast<T>(1.0));
+  T tc = (e + b * sc) / c;
+  if (tc < static_cast<T>(0.0)) {
+    // the ray origin is the closest point on the ray, find the closest point on the segment to it
+    tc = static_cast<T>(0.0);
+    sc = min(max(-d / a, static_cast<T>(0.0)), static_cast<T>(1.0));
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
-
   u = u * sc; // vector from p1 to the closest point on the segment
   v = v * tc; // vector from ray origin to closest point on the ray
   w = w + u;
-- 
2.43.0


From 7b341af3aeb91164f3a0c0a59f0727625cf95c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:32 +0000
Subject: [PATCH 17/38] fix: the distance of two rays is minimal if an origin
 is the closest point

---
 include/vecmath/distance.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index c40e9b6..5737d99 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -355,8 +355,6 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
   const auto d = dot(u, w); // other.direction.dot(origin delta)
   const auto e = dot(v, w); // this.direction.dot(origin delta)
   const auto D = a * c - b * b;
-  auto sD = D;
-  auto tD = D;
 
   if (is_zero(D, constants<T>::almost_zero())) {
     // parallel case
@@ -370,18 +368,15 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
       max(static_cast<T>(0), lhs_origin_on_rhs));
   }
 
-  auto sN = (b * e - c * d);
-  auto tN = (a * e - b * d);
-  if (sN < static_cast<T>(0.0)) {
-    sN = static_cast<T>(0.0);
-    tN = e;
-    tD = c;
+  // closest points of the two lines, with the point on rhs clamped to not lie behind its origin
+  auto sc = max((b * e - c * d) / D, static_cast<T>(0.0));
+  auto tc = (e + b * sc) / c;
+  if (tc < static_cast<T>(0.0)) {
+    // the origin of lhs is the closest point on lhs, find the closest point on rhs to it
+    tc = static_cast<T>(0.0);
+    sc = max(-d / a, static_cast<T>(0.0));
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
-
   u = u * sc; // vector from the second ray's origin to the closest point on first ray
   v = v * tc; // vector from the first ray's origin to closest point on the first ray
   w = w + u;
-- 
2.43.0


From c31a88e23ab4d890f840270dffe46cabdae75186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:32 +0000
Subject: [PATCH 18/38] fix: the distance of parallel rays with opposite
 directions

---
 include/vecmath/distance.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 5737d99..879a50b 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -363,9 +363,17 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     const T perpendicular_dist_squared =
       squared_distance(project_point(lhs, rhs.origin), rhs.origin);
 
-    return line_distance<T>::Parallel(
-      max(static_cast<T>(0), rhs_origin_on_lhs), perpendicular_dist_squared,
-      max(static_cast<T>(0), lhs_origin_on_rhs));
+    if (rhs_origin_on_lhs >= static_cast<T>(0)) {
+      return line_distance<T>::Parallel(
+        rhs_origin_on_lhs, perpendicular_dist_squared, static_cast<T>(0));
+    } else if (lhs_origin_on_rhs >= static_cast<T>(0)) {
+      return line_distance<T>::Parallel(
+        static_cast<T>(0), perpendicular_dist_squared, lhs_origin_on_rhs);
+    } else {
+      // the rays point away from each other
+      return line_distance<T>::Parallel(
+        static_cast<T>(0), squared_length(w), static_cast<T>(0));
+    }
   }
 
   // closest points of the two lines, with the point on rhs clamped to not lie behind its origin
-- 
2.43.0


From 5e85def2d8681670e5301ef65a00bc3a577e0f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:32 +0000
Subject: [PATCH 19/38] fix: the distance of a ray and a line is minimal if the
 ray origin is the closest point

---
 include/vecmath/distance.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 879a50b..5297dd0 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -435,8 +435,9 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& r, const line<T, S>
     return line_distance<T>::Parallel(0, perpendicular_dist_squared, r_origin_on_l);
   }
 
+  // the point on the line is the one that is closest to the clamped point on the ray
   const auto sc = max((b * e - c * d) / D, static_cast<T>(0.0));
-  const auto tc = (a * e - b * d) / D;
+  const auto tc = (e + b * sc) / c;
 
   const auto rp = r.origin + sc * r.direction; // point on ray
   const auto lp = l.point + tc * l.direction;  // point on line
-- 
2.43.0


From 84652ee750d91807a21cba344ccf28a4981d35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:05 +0000
Subject: [PATCH 20/38] fix: polygon_contains_point counts a vertex that is
 level with the point once

---
 include/vecmath/intersection.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 54a70d1..3352dec 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -61,11 +61,15 @@ constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T,
    * or zero.
    */
 
-  // Does Y segment covered by the given edge touch the X axis at all?
+  // Is the point on an edge that lies on the X axis?
   if (
-    (is_zero(v0.y(), constants<T>::almost_zero()) &&
-     is_zero(v1.y(), constants<T>::almost_zero())) ||
-    (v0.y() > T(0.0) && v1.y() > T(0.0)) || (v0.y() < T(0.0) && v1.y() < T(0.0))) {
+    is_zero(v0.y(), constants<T>::almost_zero()) && is_zero(v1.y(), constants<T>::almost_zero()) &&
+    (v0.x() > T(0.0)) != (v1.x() > T(0.0))) {
+    return -1;
+  }
+
+  // Does Y segment covered by the given edge touch the X axis at all?
+  if ((v0.y() > T(0.0)) == (v1.y() > T(0.0))) {
     return 0;
   }
 
-- 
2.43.0


From c6948fc97274bfb27f769ecc761ca0e8abcb61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:05 +0000
Subject: [PATCH 21/38] fix: intersect_ray_bbox finds the exit of an axis
 parallel ray that starts inside of the box

---
 include/vecmath/intersection.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 3352dec..f92a9e9 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -374,6 +374,9 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
   for (size_t i = 0; i < S; ++i) {
     if (r.direction[i] != static_cast<T>(0.0)) {
       distances[i] = (origins[i] - r.origin[i]) / r.direction[i];
+    } else if (inside[i]) {
+      // the ray never leaves the box through a plane that is parallel to it
+      distances[i] = std::numeric_limits<T>::infinity();
     } else {
       distances[i] = static_cast<T>(-1.0);
     }
-- 
2.43.0


From 0df2ddb22bf6b58c704d03c92aa0d9b2abc5ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:05 +0000
Subject: [PATCH 22/38] fix: intersect_ray_bbox does not miss a box that
 contains the ray origin

---
 include/vecmath/intersection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index f92a9e9..612442e 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -411,7 +411,7 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
   }
 
   for (size_t i = 0; i < S; ++i) {
-    if (bestPlane != i) {
+    if (bestPlane != i && !allInside) {
       const T coord = r.origin[i] + distances[bestPlane] * r.direction[i];
       if (coord < b.min[i] || coord > b.max[i]) {
         return nan<T>();
-- 
2.43.0


From 618c572da707f70748015fe32f43cb3842396fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:37 +0000
Subject: [PATCH 23/38] fix: intersect_plane_plane reports almost parallel
 planes as parallel regardless of rounding

---
 include/vecmath/intersection.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 612442e..485d183 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -553,9 +553,11 @@ constexpr T intersect_line_plane(const line<T, S>& l, const plane<T, 3>& p) {
  */
 template <typename T, size_t S>
 line<T, S> intersect_plane_plane(const plane<T, S>& p1, const plane<T, S>& p2) {
-  const auto lineDirection = normalize(cross(p1.normal, p2.normal));
+  const auto normalCross = cross(p1.normal, p2.normal);
+  const auto lineDirection = normalize(normalCross);
 
-  if (is_nan(lineDirection)) {
+  // the length of the cross product is the sine of the angle between the planes
+  if (is_nan(lineDirection) || is_zero(length(normalCross), constants<T>::almost_zero())) {
     // the planes are parallel
     return line<T, S>();
   }
-- 
2.43.0


From ffa48915eba81e180d312c2dc186cc7469ba8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:51 +0000
Subject: [PATCH 24/38] fix: convex_hull does not return points in the middle
 of an edge

---
 include/vecmath/convex_hull.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 1a51e6b..f6bea58 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -193,7 +193,7 @@ private:
       const auto& t1 = stack[stack.size() - 2];
       const auto& t2 = stack[stack.size() - 1];
       const auto side = is_left(t1, t2, p);
-      if (side < 0) {
+      if (side <= 0) {
         stack.pop_back();
         pop_stale_points(stack, p);
       }
-- 
2.43.0


From 6693a0e2314ee8408a4fc9bbef201ddc6ccc96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:51 +0000
Subject: [PATCH 25/38] fix: convex_hull accepts points of which the first two
 coincide

---
 include/vecmath/convex_hull.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index f6bea58..3c188ab 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -88,6 +88,7 @@ public:
       return;
     }
 
+    move_farthest_point_to_second();
     const auto thirdPointIndex = find_linearly_independent_point();
     if (thirdPointIndex >= m_points.size()) {
       m_points.clear();
@@ -111,6 +112,19 @@ public:
   const std::vector<vec<T, 3>>& result() const { return m_points; }
 
 private:
+  /**
+   * Ensures that the first two points do not coincide unless all points do.
+   */
+  void move_farthest_point_to_second() {
+    const auto& first = m_points.front();
+    const auto farthest = std::max_element(
+      std::next(std::begin(m_points)), std::end(m_points),
+      [&](const auto& lhs, const auto& rhs) {
+        return squared_distance(first, lhs) < squared_distance(first, rhs);
+      });
+    std::iter_swap(std::next(std::begin(m_points)), farthest);
+  }
+
   std::size_t find_linearly_independent_point() const {
     std::size_t index = 2;
     while (index < m_points.size() && is_colinear(m_points[0], m_points[1], m_points[index])) {
-- 
2.43.0


From 0d8b158f7b345a57c45902b181ef3dd5dae11cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:07 +0000
Subject: [PATCH 26/38] fix: convex_hull keeps the farthest of the points in
 one direction regardless of rounding

---
 include/vecmath/convex_hull.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 3c188ab..7317dd0 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -173,10 +173,14 @@ private:
     // now remove the duplicates
     auto i = std::begin(m_points) + 1;
     while (i != std::end(m_points)) {
-      const auto& p1 = *(i++);
+      auto& p1 = *(i++);
       while (i != std::end(m_points)) {
         const auto& p2 = *i;
         if (is_left(anchor, p1, p2) == 0) {
+          // keep the farther point, which is not always the first one due to rounding
+          if (squared_distance(anchor, p2) > squared_distance(anchor, p1)) {
+            p1 = p2;
+          }
           i = m_points.erase(i);
         } else {
           break;
-- 
2.43.0


From ac321960e0b1c24c7877c4b224d77fa3b8eb15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:45 +0000
Subject: [PATCH 27/38] fix: convex_hull does not project along an axis that is
 found from colinear points

---
 include/vecmath/convex_hull.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 7317dd0..e1a929e 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -125,12 +125,21 @@ private:
     std::iter_swap(std::next(std::begin(m_points)), farthest);
   }
 
+  /**
+   * Returns the index of the point with the greatest distance from the line through the first two
+   * points, or the number of points if all points are colinear.
+   */
   std::size_t find_linearly_independent_point() const {
-    std::size_t index = 2;
-    while (index < m_points.size() && is_colinear(m_points[0], m_points[1], m_points[index])) {
-      ++index;
-    }
-    return index;
+    const auto area = [&](const auto& p) {
+      return squared_length(cross(p - m_points[0], m_points[1] - m_points[0]));
+    };
+
+    const auto farthest = std::max_element(
+      std::next(std::begin(m_points), 2), std::end(m_points),
+      [&](const auto& lhs, const auto& rhs) { return area(lhs) < area(rhs); });
+    return is_colinear(m_points[0], m_points[1], *farthest)
+             ? m_points.size()
+             : static_cast<std::size_t>(std::distance(std::begin(m_points), farthest));
   }
 
   axis::type compute_axis(const std::size_t thirdPointIndex) const {
-- 
2.43.0


From 77c20d54aa0bd80208c9a29031b52e62114bc76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:20 +0000
Subject: [PATCH 28/38] fix: converting a polygon to another component type
 keeps the smallest vertex in front

---
 include/vecmath/polygon.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index f6d8158..74807f7 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -110,6 +110,7 @@ public:
     for (const auto& vertex : other.vertices()) {
       m_vertices.push_back(vec<T, S>(vertex));
     }
+    rotate_min_to_front();
   }
 
   /**
-- 
2.43.0


From 478ef7fb9de39d73755a501b0accc4e8ddb49328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:20 +0000
Subject: [PATCH 29/38] fix: compareUnoriented does not ignore the second
 vertices

---
 include/vecmath/polygon.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 74807f7..78abcbb 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -423,10 +423,9 @@ int compareUnoriented(
         const auto j = count - i;
         const auto cmp = compare(lhsVerts[i], rhsVerts[j], epsilon);
         if (cmp != 0) {
-          // Backward compare failed, so make a forward compare
-          return compare(
-            std::next(std::begin(lhsVerts), 2), std::end(lhsVerts),
-            std::next(std::begin(rhsVerts), 2), std::end(rhsVerts), epsilon);
+          // Backward compare failed, so return the result of the forward compare, which is
+          // determined by the second vertices
+          return cmp1;
         }
         ++i;
       }
-- 
2.43.0


From a87aa591e0c83730bc7ac2b32f6108d9c3d547cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:20 +0000
Subject: [PATCH 30/38] fix: rbegin and rend of a polygon iterate over the
 vertices in reverse

---
 include/vecmath/polygon.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 78abcbb..2549028 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -150,18 +150,18 @@ public:
   auto end() const { return std::end(m_vertices); }
 
   /**
-   * Returns an iterator to the beginning of the vertices.
+   * Returns a reverse iterator to the beginning of the reversed vertices.
    *
-   * @return an iterator to the beginning of the vertices
+   * @return a reverse iterator to the beginning of the reversed vertices
    */
-  auto rbegin() const { return std::begin(m_vertices); }
+  auto rbegin() const { return std::rbegin(m_vertices); }
 
   /**
-   * Returns an iterator to the end of the vertices.
+   * Returns a reverse iterator to the end of the reversed vertices.
    *
-   * @return an iterator to the end of the vertices
+   * @return a reverse iterator to the end of the reversed vertices
    */
-  auto rend() const { return std::end(m_vertices); }
+  auto rend() const { return std::rend(m_vertices); }
 
   /**
    * Returns the vertices of this polygon.
-- 
2.43.0


From dc1b0b7c993feb792a2e887de544001dff152265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:56 +0000
Subject: [PATCH 31/38] fix: parsing a vector does not read past the end of the
 given string view

---
 include/vecmath/vec_io.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index 17ec21a..e5f4be8 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -22,6 +22,7 @@
 
 #include "vec.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
 #include <string>
@@ -38,8 +39,10 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
     if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
       return std::nullopt;
     }
-    result[i] = static_cast<T>(std::atof(str.data() + pos));
-    if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+    const auto start = pos;
+    pos = str.find_first_of(blank, pos);
+    result[i] = static_cast<T>(std::atof(std::string(str.substr(start, pos - start)).c_str()));
+    if (pos == std::string::npos) {
       if (i < S - 1) {
         return std::nullopt;
       }
-- 
2.43.0


From 4fac79e020e5f68fb729e58d1424b2a30244b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:56 +0000
Subject: [PATCH 32/38] fix: parsing a matrix does not read past the end of the
 given string view

---
 include/vecmath/mat_io.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/mat_io.h b/include/vecmath/mat_io.h
index 3adf1cf..c92397d 100644
--- a/include/vecmath/mat_io.h
+++ b/include/vecmath/mat_io.h
@@ -22,8 +22,11 @@
 
 #include "mat.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
+#include <string>
+#include <string_view>
 
 namespace vm {
 /**
@@ -53,8 +56,10 @@ std::optional<mat<T, R, C>> parse(const std::string_view str) {
       if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
         return std::nullopt;
       }
-      result[c][r] = static_cast<T>(std::atof(str.data() + pos));
-      if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+      const auto start = pos;
+      pos = str.find_first_of(blank, pos);
+      result[c][r] = static_cast<T>(std::atof(std::string(str.substr(start, pos - start)).c_str()));
+      if (pos == std::string::npos) {
         if ((r * C) + c < R * C - 1u) {
           return std::nullopt;
         }
-- 
2.43.0


From 43c170e88872d597e57c5ce9c7750704cf79f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:20 +0000
Subject: [PATCH 33/38] fix: parse_all accepts separators that are not followed
 by a blank

---
 include/vecmath/vec_io.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index e5f4be8..d5f38b8 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -33,6 +33,7 @@ namespace detail {
 template <typename T, std::size_t S>
 std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
   constexpr auto blank = " \t\n\r()";
+  constexpr auto blankOrSeparator = " \t\n\r(),;";
 
   auto result = vec<T, S>{};
   for (std::size_t i = 0; i < S; ++i) {
@@ -40,7 +41,7 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
       return std::nullopt;
     }
     const auto start = pos;
-    pos = str.find_first_of(blank, pos);
+    pos = str.find_first_of(i < S - 1 ? blank : blankOrSeparator, pos);
     result[i] = static_cast<T>(std::atof(std::string(str.substr(start, pos - start)).c_str()));
     if (pos == std::string::npos) {
       if (i < S - 1) {
-- 
2.43.0


From bb385fa4cb730aca9107a55a511624d5c0b67f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:39 +0000
Subject: [PATCH 34/38] fix: parse_all skips parentheses next to separators

---
 include/vecmath/vec_io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index d5f38b8..ab304ef 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -89,7 +89,7 @@ template <typename T, std::size_t S> std::optional<vec<T, S>> parse(const std::s
  * @param out the output iterator add the parsed vectors to
  */
 template <typename T, std::size_t S, typename O> void parse_all(const std::string_view str, O out) {
-  constexpr auto blank = " \t\n\r,;";
+  constexpr auto blank = " \t\n\r(),;";
 
   std::size_t pos = 0;
   while (pos != std::string::npos) {
-- 
2.43.0


From bf854c08c5967e47ca6eced18edef9edf6784576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:48 +0000
Subject: [PATCH 35/38] fix: a vector can be compared with an approximate
 vector by >=

---
 include/vecmath/approx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/approx.h b/include/vecmath/approx.h
index 0f287c3..8aebfde 100644
--- a/include/vecmath/approx.h
+++ b/include/vecmath/approx.h
@@ -174,11 +174,11 @@ public:
   }
 
   friend constexpr bool operator>=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs >= (rhs.m_value - rhs.m_epsilon);
+    return lhs >= (rhs.m_value - vec<T, S>::fill(rhs.m_epsilon));
   }
 
   friend constexpr bool operator>=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value >= (rhs - lhs.m_epsilon);
+    return lhs.m_value >= (rhs - vec<T, S>::fill(lhs.m_epsilon));
   }
 
   friend std::ostream& operator<<(std::ostream& str, const approx<vec<T, S>>& a) {
-- 
2.43.0


From 5b0317a092f23f2c337cf9270938ca704bafe921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 36/38] fix: convex_hull does not lose corners to rounding in
 the order of the points by angle

---
 include/vecmath/convex_hull.h | 112 +++++++++-------------------------
 1 file changed, 29 insertions(+), 83 deletions(-)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index e1a929e..72efecb 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -48,36 +48,6 @@ private:
     }
   }
 
-private:
-  class less_than_by_angle {
-  private:
-    const vec<T, 3>& m_anchor;
-
-  public:
-    explicit less_than_by_angle(const vec<T, 3>& anchor)
-      : m_anchor(anchor) {}
-
-  public:
-    bool operator()(const vec<T, 3>& lhs, const vec<T, 3>& rhs) const {
-      const auto side = is_left(m_anchor, lhs, rhs);
-      if (side > 0) {
-        return true;
-      } else if (side < 0) {
-        return false;
-      } else {
-        // the points are colinear, the one that is further from the anchor is considered less
-        const auto dxl = abs(lhs.x() - m_anchor.x());
-        const auto dxr = abs(rhs.x() - m_anchor.x());
-        if (dxl == dxr) {
-          const auto dyl = abs(lhs.y() - m_anchor.y());
-          const auto dyr = abs(rhs.y() - m_anchor.y());
-          return dyl > dyr;
-        }
-        return dxl > dxr;
-      }
-    }
-  };
-
   std::vector<vec<T, 3>> m_points;
 
 public:
@@ -98,14 +68,13 @@ public:
     const auto axis = compute_axis(thirdPointIndex);
     swizzle(axis);
 
-    find_anchor();
     sort_points();
+    build_hull();
     if (m_points.size() <= 2u) {
       m_points.clear();
       return;
     }
 
-    build_hull();
     unswizzle(axis);
   }
 
@@ -159,71 +128,48 @@ private:
     }
   }
 
-  void find_anchor() {
-    std::size_t anchor = 0;
-    for (std::size_t i = 1; i < m_points.size(); ++i) {
-      if (
-        (m_points[i].y() < m_points[anchor].y()) ||
-        (m_points[i].y() == m_points[anchor].y() && m_points[i].x() > m_points[anchor].x())) {
-        anchor = i;
-      }
-    }
-
-    if (anchor > 0) {
-      using std::swap;
-      swap(m_points[0], m_points[anchor]);
-    }
-  }
-
+  /**
+   * Sorts the points from bottom to top and from right to left. Unlike the order by angle around a
+   * point, this order does not depend on rounding.
+   */
   void sort_points() {
-    const auto& anchor = m_points[0];
-    std::sort(std::next(std::begin(m_points)), std::end(m_points), less_than_by_angle(anchor));
-
-    // now remove the duplicates
-    auto i = std::begin(m_points) + 1;
-    while (i != std::end(m_points)) {
-      auto& p1 = *(i++);
-      while (i != std::end(m_points)) {
-        const auto& p2 = *i;
-        if (is_left(anchor, p1, p2) == 0) {
-          // keep the farther point, which is not always the first one due to rounding
-          if (squared_distance(anchor, p2) > squared_distance(anchor, p1)) {
-            p1 = p2;
-          }
-          i = m_points.erase(i);
-        } else {
-          break;
-        }
-      }
-    }
+    std::sort(std::begin(m_points), std::end(m_points), [](const auto& lhs, const auto& rhs) {
+      return lhs.y() != rhs.y() ? lhs.y() < rhs.y() : lhs.x() > rhs.x();
+    });
   }
 
   void build_hull() {
     auto stack = std::vector<vec<T, 3>>();
-    stack.reserve(m_points.size());
-    stack.push_back(m_points[0]);
-    stack.push_back(m_points[1]);
-
-    for (std::size_t i = 2; i < m_points.size(); ++i) {
-      const auto& p = m_points[i];
-      pop_stale_points(stack, p);
-      stack.push_back(p);
-    }
+    stack.reserve(m_points.size() + 1u);
+
+    // the right side of the hull from bottom to top, then its left side from top to bottom
+    add_points(stack, std::begin(m_points), std::end(m_points));
+    add_points(stack, std::next(std::rbegin(m_points)), std::rend(m_points));
+    stack.pop_back();
 
     using std::swap;
     swap(m_points, stack);
-    assert(m_points.size() > 2);
   }
 
-  void pop_stale_points(std::vector<vec<T, 3>>& stack, const vec<T, 3>& p) {
-    if (stack.size() > 1) {
+  template <typename I> static void add_points(std::vector<vec<T, 3>>& stack, I cur, I end) {
+    const auto first = stack.empty() ? 0u : stack.size() - 1u;
+    while (cur != end) {
+      pop_stale_points(stack, first, *cur);
+      stack.push_back(*cur);
+      ++cur;
+    }
+  }
+
+  static void pop_stale_points(
+    std::vector<vec<T, 3>>& stack, const std::size_t first, const vec<T, 3>& p) {
+    while (stack.size() > first + 1u) {
       const auto& t1 = stack[stack.size() - 2];
       const auto& t2 = stack[stack.size() - 1];
       const auto side = is_left(t1, t2, p);
-      if (side <= 0) {
-        stack.pop_back();
-        pop_stale_points(stack, p);
+      if (side > 0) {
+        return;
       }
+      stack.pop_back();
     }
   }
 };
-- 
2.43.0


From 1fffeceae0a66ce89becf0a836bd210ac38c0d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:29 +0000
Subject: [PATCH 37/38] fix: plane::project_vector keeps its precision for
 planes far from the origin

The vector was moved to the anchor, projected and moved back, which loses
the digits the anchor has in excess of the vector. intersect_plane_plane
uses the result as a direction and so missed the second plane: in single
precision by 1% for a plane 200000 units away.
---
 include/vecmath/plane.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index fba2dfa..70c1dd3 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -227,7 +227,7 @@ public:
    * @return the projected vector
    */
   constexpr vec<T, S> project_vector(const vec<T, S>& vector) const {
-    return project_point(anchor() + vector) - anchor();
+    return vector - dot(vector, normal) * normal;
   }
 
   /**
@@ -239,7 +239,11 @@ public:
    * @return the projected vector
    */
   constexpr vec<T, S> project_vector(const vec<T, S>& vector, const vec<T, S>& direction) const {
-    return project_point(anchor() + vector, direction) - anchor();
+    const auto cos = dot(direction, normal);
+    if (is_zero(cos, constants<T>::almost_zero())) {
+      return vec<T, S>::nan();
+    }
+    return vector - direction * (dot(vector, normal) / cos);
   }
 };
 
-- 
2.43.0


From d4945880b4bf8d83194fd3b35c3667f702c209a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:59 +0000
Subject: [PATCH 38/38] fix: shear_bbox_matrix could only be instantiated with
 double

The literals passed to shear_matrix made the deduction of its element type fail
for every other type, so shear_bbox_matrix<float> did not compile.
---
 include/vecmath/mat_ext.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 180fb9e..149638f 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -638,22 +638,22 @@ constexpr mat<T, 4, 4> shear_bbox_matrix(
   mat<T, 4, 4> shearMat;
   if (sideToShear == vec<T, 3>::pos_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(relativeDelta.y(), relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix<T>(relativeDelta.y(), relativeDelta.z(), T(0), T(0), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::neg_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(-relativeDelta.y(), -relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix<T>(-relativeDelta.y(), -relativeDelta.z(), T(0), T(0), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::pos_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., relativeDelta.x(), relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix<T>(T(0), T(0), relativeDelta.x(), relativeDelta.z(), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::neg_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix<T>(T(0), T(0), -relativeDelta.x(), -relativeDelta.z(), T(0), T(0));
   } else if (sideToShear == vec<T, 3>::pos_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., relativeDelta.x(), relativeDelta.y());
+    shearMat = shear_matrix<T>(T(0), T(0), T(0), T(0), relativeDelta.x(), relativeDelta.y());
   } else if (sideToShear == vec<T, 3>::neg_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., -relativeDelta.x(), -relativeDelta.y());
+    shearMat = shear_matrix<T>(T(0), T(0), T(0), T(0), -relativeDelta.x(), -relativeDelta.y());
   }
 
   // grab any vertex on side that is opposite the one being sheared.
-- 
2.43.0

