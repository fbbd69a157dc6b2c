From 8f6a6fe32ce7b8dab37a4233068ea4520653eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 01/53] fix: compute Range::GetSize() without overflowing the
 element type

---
 tachyon/base/range.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tachyon/base/range.h b/tachyon/base/range.h
index 039d6bd..938c3d6 100644
--- a/tachyon/base/range.h
+++ b/tachyon/base/range.h
@@ -158,14 +158,15 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
   template <typename U = T, std::enable_if_t<std::is_integral_v<U>>* = nullptr>
   constexpr size_t GetSize() const {
     if (IsEmpty()) return 0;
+    // NOTE: The subtraction is done in |size_t|, because |to| - |from| may not be
+    // representable in |T|.
+    size_t size = static_cast<size_t>(to) - static_cast<size_t>(from);
     if constexpr (IsStartInclusive && IsEndInclusive) {
-      return to - from + 1;
-    } else if constexpr (IsStartInclusive && !IsEndInclusive) {
-      return to - from;
-    } else if constexpr (!IsStartInclusive && IsEndInclusive) {
-      return to - from;
+      return size + 1;
+    } else if constexpr (IsStartInclusive != IsEndInclusive) {
+      return size;
     } else {
-      return to - from - 1;
+      return size - 1;
     }
   }
 
-- 
2.43.0


From b77c80b51d3efc01f0e40716273fbe218f572f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 02/53] fix: an open Range between adjacent integers is empty

---
 tachyon/base/range.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tachyon/base/range.h b/tachyon/base/range.h
index 938c3d6..8d14eff 100644
--- a/tachyon/base/range.h
+++ b/tachyon/base/range.h
@@ -175,6 +175,9 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
   constexpr bool IsEmpty() const {
     if constexpr (IsStartInclusive && IsEndInclusive) {
       return from > to;
+    } else if constexpr (!IsStartInclusive && !IsEndInclusive &&
+                         std::is_integral_v<T>) {
+      return from >= to || from + 1 == to;
     } else {
       return from >= to;
     }
-- 
2.43.0


From 337fb7d1b73556bd254f3967432a4e3e123e3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 03/53] fix: negative distance between Range iterators of
 unsigned types

---
 tachyon/base/range.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/range.h b/tachyon/base/range.h
index 8d14eff..933c3c2 100644
--- a/tachyon/base/range.h
+++ b/tachyon/base/range.h
@@ -97,7 +97,8 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
     }
 
     constexpr difference_type operator-(Iterator other) const {
-      return cur_ - other.cur_;
+      return static_cast<difference_type>(cur_) -
+             static_cast<difference_type>(other.cur_);
     }
 
     constexpr reference operator*() { return cur_; }
-- 
2.43.0


From 3a4de6c0b12362573437681b66f71b140e983d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 04/53] fix: postfix increment and decrement of Range iterators

---
 tachyon/base/range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/range.h b/tachyon/base/range.h
index 933c3c2..4718d75 100644
--- a/tachyon/base/range.h
+++ b/tachyon/base/range.h
@@ -61,7 +61,7 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
       return *this;
     }
 
-    constexpr Iterator operator++(int) const {
+    constexpr Iterator operator++(int) {
       Iterator it(*this);
       ++(*this);
       return it;
@@ -72,7 +72,7 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
       return *this;
     }
 
-    constexpr Iterator operator--(int) const {
+    constexpr Iterator operator--(int) {
       Iterator it(*this);
       --(*this);
       return it;
-- 
2.43.0


From 53745f29a2f8be18899cb1598e4537e894766fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 05/53] fix: copy the chunk size of ChunkedAdapter

---
 tachyon/base/containers/adapters.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/containers/adapters.h b/tachyon/base/containers/adapters.h
index 1c94d89..77afb31 100644
--- a/tachyon/base/containers/adapters.h
+++ b/tachyon/base/containers/adapters.h
@@ -43,7 +43,8 @@ template <typename T>
 class ChunkedAdapter {
  public:
   ChunkedAdapter(T& t, size_t chunk_size) : t_(t), chunk_size_(chunk_size) {}
-  ChunkedAdapter(const ChunkedAdapter& ca) : t_(ca.t_) {}
+  ChunkedAdapter(const ChunkedAdapter& ca)
+      : t_(ca.t_), chunk_size_(ca.chunk_size_) {}
 
   ChunkedAdapter& operator=(const ChunkedAdapter& ca) = delete;
 
-- 
2.43.0


From 79655221fd6bbd09d7502b885a617638c69ce9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 06/53] fix: shrink a container with
 ParallelizeResize(container, size, value)

---
 tachyon/base/parallelize.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/parallelize.h b/tachyon/base/parallelize.h
index 281898d..2be208d 100644
--- a/tachyon/base/parallelize.h
+++ b/tachyon/base/parallelize.h
@@ -311,6 +311,7 @@ void ParallelizeResize(Container& container, size_t size,
   if (container.capacity() > size) {
     size_t old_size = container.size();
     container.resize(size);
+    if (size <= old_size) return;
     auto init_span = absl::MakeSpan(container).last(size - old_size);
     Parallelize(
         init_span,
-- 
2.43.0


From c129c0cd1e3ee07b0bb3fc326068ca67ffbce614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:01 +0000
Subject: [PATCH 07/53] fix: ClampAdd of a negative and an unsigned operand
 saturates towards zero

---
 tachyon/base/numerics/clamped_math_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/numerics/clamped_math_impl.h b/tachyon/base/numerics/clamped_math_impl.h
index 31292f5..77a91b0 100644
--- a/tachyon/base/numerics/clamped_math_impl.h
+++ b/tachyon/base/numerics/clamped_math_impl.h
@@ -87,7 +87,8 @@ struct ClampedAddOp<T,
                       IsTypeInRangeForNumericType<U, V>::value,
                   "The saturation result cannot be determined from the "
                   "provided types.");
-    const V saturated = CommonMaxOrMin<V>(IsValueNegative(y));
+    const V saturated =
+        CommonMaxOrMin<V>(IsValueNegative(x) || IsValueNegative(y));
     V result = {};
     return BASE_NUMERICS_LIKELY((CheckedAddOp<T, U>::Do(x, y, &result)))
                ? result
-- 
2.43.0


From 3c9623a644ded40818d0d26e9bcbd1f25bd3c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:08 +0000
Subject: [PATCH 08/53] fix: refuse ReadPtrAt() whose size in bytes overflows

---
 tachyon/base/buffer/read_only_buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 1b39223..3899274 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -137,7 +137,9 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   template <typename T>
   [[nodiscard]] bool ReadPtrAt(size_t buffer_offset, T** ptr,
                                size_t ptr_num) const {
-    size_t size = sizeof(T) * ptr_num;
+    base::CheckedNumeric<size_t> checked_size = ptr_num;
+    size_t size;
+    if (!(checked_size * sizeof(T)).AssignIfValid(&size)) return false;
     base::CheckedNumeric<size_t> len = buffer_offset;
     size_t size_needed;
     if (!(len + size).AssignIfValid(&size_needed)) return false;
-- 
2.43.0


From e57f106c3b2b7a88693c8cdf2d9d299590e61d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:08 +0000
Subject: [PATCH 09/53] fix: serialize all the bytes of strings with wide
 characters

---
 tachyon/base/buffer/copyable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 398e299..18ef5f6 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -47,7 +47,7 @@ class Copyable<std::basic_string_view<CharTy>> {
                       Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -57,7 +57,7 @@ class Copyable<std::basic_string_view<CharTy>> {
   }
 
   static size_t EstimateSize(const std::basic_string_view<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -67,7 +67,7 @@ class Copyable<std::basic_string<CharTy>> {
   static bool WriteTo(const std::basic_string<CharTy>& value, Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -75,11 +75,12 @@ class Copyable<std::basic_string<CharTy>> {
     size_t size;
     if (!buffer.Read(&size)) return false;
     value->resize(size);
-    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()), size);
+    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
+                       size * sizeof(CharTy));
   }
 
   static size_t EstimateSize(const std::basic_string<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
-- 
2.43.0


From 46ae8b422b58fcb54bb37c734cad83160c2b115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:08 +0000
Subject: [PATCH 10/53] fix: refuse serialized strings and vectors that are
 longer than the buffer

---
 tachyon/base/buffer/copyable.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 18ef5f6..0480ddb 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_BASE_BUFFER_COPYABLE_H_
 #define TACHYON_BASE_BUFFER_COPYABLE_H_
 
+#include <algorithm>
 #include <array>
 #include <numeric>
 #include <string>
@@ -74,6 +75,9 @@ class Copyable<std::basic_string<CharTy>> {
                        std::basic_string<CharTy>* value) {
     size_t size;
     if (!buffer.Read(&size)) return false;
+    // The characters must be in the rest of the buffer.
+    if (size > (buffer.buffer_len() - buffer.buffer_offset()) / sizeof(CharTy))
+      return false;
     value->resize(size);
     return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
                        size * sizeof(CharTy));
@@ -148,9 +152,13 @@ class Copyable<std::vector<T>> {
   static bool ReadFrom(const ReadOnlyBuffer& buffer, std::vector<T>* values) {
     size_t size;
     if (!buffer.Read(&size)) return false;
-    values->resize(size);
-    for (T& value : (*values)) {
-      if (!buffer.Read(&value)) return false;
+    // NOTE: |size| is not trusted, so memory is only taken for the elements that
+    // the rest of the buffer may hold.
+    values->clear();
+    values->reserve(
+        std::min(size, buffer.buffer_len() - buffer.buffer_offset()));
+    for (size_t i = 0; i < size; ++i) {
+      if (!buffer.Read(&values->emplace_back())) return false;
     }
     return true;
   }
-- 
2.43.0


From 1507a3bdb3d7195aa9a312ebdcebcd4ffcae2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 11/53] fix: an open Range(n, n + 1) counts as non-empty, as
 RangeTest documents (reverts b77c80b)

---
 tachyon/base/range.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tachyon/base/range.h b/tachyon/base/range.h
index 4718d75..e98bba2 100644
--- a/tachyon/base/range.h
+++ b/tachyon/base/range.h
@@ -176,9 +176,6 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
   constexpr bool IsEmpty() const {
     if constexpr (IsStartInclusive && IsEndInclusive) {
       return from > to;
-    } else if constexpr (!IsStartInclusive && !IsEndInclusive &&
-                         std::is_integral_v<T>) {
-      return from >= to || from + 1 == to;
     } else {
       return from >= to;
     }
-- 
2.43.0


From 89708b930068bba0564805cb0a696b267c307cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:23 +0000
Subject: [PATCH 12/53] fix: refuse CheckMod whose operands do not fit the
 promoted type

---
 tachyon/base/numerics/checked_math_impl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tachyon/base/numerics/checked_math_impl.h b/tachyon/base/numerics/checked_math_impl.h
index 4f14430..28a3d77 100644
--- a/tachyon/base/numerics/checked_math_impl.h
+++ b/tachyon/base/numerics/checked_math_impl.h
@@ -281,6 +281,13 @@ struct CheckedModOp<T,
       return true;
     }
 
+    // This branch compiles away if the promoted type can hold both operands.
+    if (BASE_NUMERICS_UNLIKELY((!IsValueInRangeForNumericType<Promotion>(x) ||
+                                !IsValueInRangeForNumericType<Promotion>(y)) &&
+                               x)) {
+      return false;
+    }
+
     const Promotion presult =
         static_cast<Promotion>(x) % static_cast<Promotion>(y);
     if (!IsValueInRangeForNumericType<V>(presult))
-- 
2.43.0


From ec2bdfd5ce11824871f5c3ab31457602dd8ccb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:43 +0000
Subject: [PATCH 13/53] fix: XYZZ conversions with ZZ = 1 must also require ZZZ
 = 1

---
 .../math/elliptic_curves/short_weierstrass/point_xyzz.h   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
index 80333cf..e2709ad 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
@@ -149,7 +149,7 @@ class PointXYZZ<_Curve,
       const PointXYZZ& point_xyzz = point_xyzzs[i];
       if (point_xyzz.zz_.IsZero()) {
         (*affine_points)[i] = AffinePoint<Curve>::Zero();
-      } else if (point_xyzz.zz_.IsOne()) {
+      } else if (point_xyzz.zz_.IsOne() && point_xyzz.zzz_.IsOne()) {
         (*affine_points)[i] = {point_xyzz.x_, point_xyzz.y_};
       } else {
         const BaseField& z_inv_cubic = zzz_inverses[i];
@@ -199,7 +199,7 @@ class PointXYZZ<_Curve,
   constexpr AffinePoint<Curve> ToAffine() const {
     if (IsZero()) {
       return AffinePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_};
     } else {
       // NOTE(ashjeong): if |zzz_| is 0, |IsZero()| will also evaluate to true,
@@ -216,7 +216,7 @@ class PointXYZZ<_Curve,
   constexpr ProjectivePoint<Curve> ToProjective() const {
     if (IsZero()) {
       return ProjectivePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       return {x_ * zzz_, y_ * zz_, zz_ * zzz_};
@@ -228,7 +228,7 @@ class PointXYZZ<_Curve,
   constexpr JacobianPoint<Curve> ToJacobian() const {
     if (IsZero()) {
       return JacobianPoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       BaseField z = zz_ * zzz_;
-- 
2.43.0


From 862f65ce12d8c37961bd7cd2a9ad7f0a282b8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:43 +0000
Subject: [PATCH 14/53] fix: Jacobian doubling with non-zero a must compute Z3
 = 2 * Y1 * Z1

---
 .../elliptic_curves/short_weierstrass/jacobian_point_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
index 658e880..a3c2fb6 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
@@ -298,7 +298,7 @@ constexpr void CLASS::DoDoubleImpl(const JacobianPoint& a, JacobianPoint& b) {
 
     // Z3 = (Y1 + Z1)² - YY - ZZ
     // Can be calculated as Z3 = 2 * Y1 * Z1, and this is faster.
-    b.z_ = a.y_ + a.z_;
+    b.z_ = a.y_ * a.z_;
     b.z_.DoubleInPlace();
 
     // Y3 = M * (S - X3) - 8 * YYYY
-- 
2.43.0


From c34d5dee68add2ae526279a2f2a9fdfef8a6fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 15/53] fix: in-place self multiplication of quadratic towers
 must not read its own output

---
 .../finite_fields/quadratic_extension_field.h   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index 2887478..17b52a6 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -344,15 +344,16 @@ class QuadraticExtensionField
       // v1 = a.c1 * b.c1
       BaseField v1 = a.c1_ * b.c1_;
 
-      // c.c1 = a.c0 + a.c1
-      c.c1_ = a.c0_ + a.c1_;
-      // c.c1 = (a.c0 + a.c1) * (b.c0 + b.c1)
-      // c.c1 = a.c0 * b.c0 + a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
-      c.c1_ *= (b.c0_ + b.c1_);
-      // c.c1 = a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
-      c.c1_ -= v0;
+      // NOTE: |c| may alias |a| and |b|.
+      // c1 = a.c0 + a.c1
+      BaseField c1 = a.c0_ + a.c1_;
+      // c1 = (a.c0 + a.c1) * (b.c0 + b.c1)
+      // c1 = a.c0 * b.c0 + a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
+      c1 *= (b.c0_ + b.c1_);
+      // c1 = a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
+      c1 -= v0;
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0
-      c.c1_ -= v1;
+      c.c1_ = c1 - v1;
       // c.c0 = a.c0 * b.c0 + a.c1 * b.c1 * q
       c.c0_ = v0 + Config::MulByNonResidue(v1);
     }
-- 
2.43.0


From 2f4fb8b12088d396005ae1a5e5429ccaf4ae3a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:19 +0000
Subject: [PATCH 16/53] fix: UnivariateDenseCoefficients::Fold read past the
 end for an odd number of coefficients

---
 .../math/polynomials/univariate/univariate_dense_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0f60684..0c79a9a 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -184,7 +184,7 @@ class UnivariateDenseCoefficients {
     std::vector<F> coefficients((size + 1) >> 1);
     base::ParallelizeFill(coefficients, F::Zero(),
                           /*threshold=*/ParallelizeThreshold::kFieldInit);
-    OMP_PARALLEL_FOR(size_t i = 0; i < size; i += 2) {
+    OMP_PARALLEL_FOR(size_t i = 0; i < size - size % 2; i += 2) {
       coefficients[i >> 1] = coefficients_[i + 1] * r;
       coefficients[i >> 1] += coefficients_[i];
     }
-- 
2.43.0


From 698d112eeba9cbee61398cf9a2290cadf763763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 17/53] fix: MixedRadixEvaluationDomain::SerialFFT overwrote
 the base term it was still reading

---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 5331a8b..3e0420a 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -249,7 +249,7 @@ class MixedRadixEvaluationDomain
         for (size_t k = 0; k < n; k += q * m) {
           F w_j = F::One();  // ωⱼ is ωₘʲ
           for (size_t j = 0; j < m; ++j) {
-            const F& base_term = a[k + j];
+            const F base_term = a[k + j];
             F w_j_i = w_j;
             for (size_t i = 1; i < q; ++i) {
               terms[i - 1] = a[k + j + i * m];
-- 
2.43.0


From eee95b3ab4b7142451c9d21be37142b36c564724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 18/53] fix: EvaluateFilterPolynomial ignored the subdomain's
 coset offset

---
 .../math/polynomials/univariate/univariate_evaluation_domain.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
index e911a35..f3ddee9 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
@@ -426,7 +426,8 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
           EvaluateVanishingPolynomial(tau) /
           (size_as_field_element_ * v_subdomain_of_tau);
       if (LIKELY(div)) {
-        return subdomain.size_as_field_element_ * *div;
+        return subdomain.size_as_field_element_ * subdomain.offset_pow_size_ *
+               *div;
       }
       return std::nullopt;
     }
-- 
2.43.0


From 0a20c55bb5324ed80e3c3343b43bb5e2a0a75b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 19/53] fix: CosetLDEBatch on an lvalue ignored reverse_at_last

---
 tachyon/math/polynomials/univariate/radix2_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index aafcf3e..c4e78c7 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -123,7 +123,7 @@ class Radix2EvaluationDomain
       const Eigen::MatrixBase<Derived>& mat, size_t added_bits, F shift,
       Eigen::MatrixBase<Derived>& out, bool reverse_at_last = true) const {
     Derived mat_tmp = mat;
-    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out);
+    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out, reverse_at_last);
   }
 
   template <typename Derived>
-- 
2.43.0


From d8215d0098c57a600c3ad6cc10ebc1714072b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:44 +0000
Subject: [PATCH 20/53] fix: Radix2TwiddleCache handed out a partial item where
 a complete one was needed

---
 .../univariate/radix2_twiddle_cache.h         | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
index d3ae1d9..463b5fe 100644
--- a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
+++ b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
@@ -4,6 +4,7 @@
 #include <stddef.h>
 
 #include <memory>
+#include <tuple>
 #include <utility>
 #include <vector>
 
@@ -34,7 +35,6 @@ class Radix2TwiddleCache {
     // For all finite fields
     std::vector<std::vector<F>> roots_vec;
     std::vector<std::vector<F>> inv_roots_vec;
-    bool packed_vec_only;
 
     // clang-format off
     // Precompute |roots_vec| and |inv_roots_vec| for |OutInHelper()| and |InOutHelper()|.
@@ -59,8 +59,6 @@ class Radix2TwiddleCache {
       TRACE_EVENT("Utils", "Radix2TwiddleCache<F>::Item::Init");
       if (domain->log_size_of_group() == 0) return;
 
-      this->packed_vec_only = packed_vec_only;
-
       roots_vec.resize(domain->log_size_of_group());
       inv_roots_vec.resize(domain->log_size_of_group());
 
@@ -126,21 +124,22 @@ class Radix2TwiddleCache {
     static base::NoDestructor<Radix2TwiddleCache> twiddle_cache;
 
     absl::MutexLock lock(&twiddle_cache->mutex_);
-    auto it = twiddle_cache->items_.find(
-        std::make_pair(domain->size(), domain->group_gen()));
-    if (it == twiddle_cache->items_.end() ||
-        (it->second->packed_vec_only && !packed_vec_only)) {
+    // NOTE: Items that were created with |packed_vec_only| may still be in use,
+    // so they are never replaced by the complete ones.
+    auto key = std::make_tuple(domain->size(), domain->group_gen(),
+                               packed_vec_only);
+    auto it = twiddle_cache->items_.find(key);
+    if (it == twiddle_cache->items_.end()) {
       it = twiddle_cache->items_.insert(
-          it,
-          std::make_pair(std::make_pair(domain->size(), domain->group_gen()),
-                         std::make_unique<Item>(domain, packed_vec_only)));
+          it, std::make_pair(std::move(key), std::make_unique<Item>(
+                                                 domain, packed_vec_only)));
     }
     return it->second.get();
   }
 
  private:
   absl::Mutex mutex_;
-  absl::flat_hash_map<std::pair<size_t, F>, std::unique_ptr<Item>> items_
+  absl::flat_hash_map<std::tuple<size_t, F, bool>, std::unique_ptr<Item>> items_
       ABSL_GUARDED_BY(mutex_);
 };
 
-- 
2.43.0


From 2ace112dd5dcd9c5744450b06cb47ce31c5a9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 21/53] fix: literals of a multivariate polynomial that share
 their last element compared as equivalent

---
 .../multivariate/multivariate_sparse_coefficients.h        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 4aa522e..7f94e03 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -82,7 +82,12 @@ class MultivariateSparseCoefficients {
 
     bool operator<(const Literal& other) const {
       if (elements.back() == other.elements.back()) {
-        return elements.size() < other.elements.size();
+        if (elements.size() != other.elements.size()) {
+          return elements.size() < other.elements.size();
+        }
+        return std::lexicographical_compare(
+            elements.rbegin(), elements.rend(), other.elements.rbegin(),
+            other.elements.rend());
       } else {
         return elements.back() < other.elements.back();
       }
-- 
2.43.0


From 0c7edaed224203efbda4f66ad5a26614739f43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 22/53] fix: MultivariateSparseCoefficients::Degree returned
 the degree of the last term

---
 .../multivariate/multivariate_sparse_coefficients.h        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 7f94e03..5dad046 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -268,8 +268,11 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr size_t Degree() const {
-    if (IsConstant()) return 0;
-    return terms_.back().Degree();
+    size_t degree = 0;
+    for (const Term& term : terms_) {
+      degree = std::max(degree, term.Degree());
+    }
+    return degree;
   }
 
   constexpr F Evaluate(const Point& points) const {
-- 
2.43.0


From 93b2307376a0bdccf310dfbba31b8bdfe34a9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 23/53] fix: adding or subtracting multivariate polynomials
 lost the number of variables and compacted an empty term list

---
 .../polynomials/multivariate/multivariate_polynomial_ops.h     | 3 +++
 .../multivariate/multivariate_sparse_coefficients.h            | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
index c821869..3899796 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
@@ -6,6 +6,7 @@
 #ifndef TACHYON_MATH_POLYNOMIALS_MULTIVARIATE_MULTIVARIATE_POLYNOMIAL_OPS_H_
 #define TACHYON_MATH_POLYNOMIALS_MULTIVARIATE_MULTIVARIATE_POLYNOMIAL_OPS_H_
 
+#include <algorithm>
 #include <utility>
 #include <vector>
 
@@ -149,6 +150,8 @@ class MultivariatePolynomialOp<MultivariateSparseCoefficients<F, MaxDegree>> {
       }
     }
 
+    c.coefficients_.num_vars_ =
+        std::max(a.coefficients_.num_vars_, b.coefficients_.num_vars_);
     c.coefficients_.terms_ = std::move(c_terms);
     c.coefficients_.Compact();
   }
diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 5dad046..278bcd7 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -309,6 +309,7 @@ class MultivariateSparseCoefficients {
   }
 
   void Compact() {
+    if (terms_.empty()) return;
     auto write_itr = terms_.begin();
     for (auto read_itr = terms_.begin() + 1; read_itr != terms_.end();
          ++read_itr) {
@@ -354,7 +355,7 @@ class MultivariateSparseCoefficients {
         });
   }
 
-  size_t num_vars_;
+  size_t num_vars_ = 0;
   std::vector<Term> terms_;
 };
 
-- 
2.43.0


From 9aefc2664dc450ad1358005d49bd60bdc9367778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 24/53] fix: SumcheckProvingKey::operator== compared its
 evaluations with themselves

---
 tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
index 9e91e95..599a7ad 100644
--- a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
+++ b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
@@ -29,7 +29,7 @@ struct SumcheckProvingKey {
 
   bool operator==(const SumcheckProvingKey& other) const {
     return verifying_key == other.verifying_key && terms == other.terms &&
-           flattened_ml_evaluations == flattened_ml_evaluations;
+           flattened_ml_evaluations == other.flattened_ml_evaluations;
   }
   bool operator!=(const SumcheckProvingKey& other) const {
     return !operator==(other);
-- 
2.43.0


From 731f48f149e74b2317b262e1f048262d96fe36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:51 +0000
Subject: [PATCH 25/53] fix: MulMatVec sized its result by the vector instead
 of the matrix's rows

---
 tachyon/math/matrix/matrix_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/matrix/matrix_operations.h b/tachyon/math/matrix/matrix_operations.h
index 19fe5a6..b47b2a8 100644
--- a/tachyon/math/matrix/matrix_operations.h
+++ b/tachyon/math/matrix/matrix_operations.h
@@ -42,7 +42,7 @@ math::Vector<F> MulMatVec(const Eigen::MatrixBase<Derived>& matrix,
                           const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -57,7 +57,7 @@ math::Vector<F> MulMatVecSerial(const Eigen::MatrixBase<Derived>& matrix,
                                 const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -73,7 +73,7 @@ math::Vector<F> MulMatVec(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
@@ -99,7 +99,7 @@ math::Vector<F> MulMatVecSerial(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
-- 
2.43.0


From fd83b482bdbbdccd8ff4ec60053912e6887d4c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:51 +0000
Subject: [PATCH 26/53] fix: MaxCols of a sparse matrix read the last element
 of empty rows

---
 tachyon/math/matrix/sparse/sparse_matrix.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/matrix/sparse/sparse_matrix.h b/tachyon/math/matrix/sparse/sparse_matrix.h
index ae4f9bc..3bd6623 100644
--- a/tachyon/math/matrix/sparse/sparse_matrix.h
+++ b/tachyon/math/matrix/sparse/sparse_matrix.h
@@ -97,11 +97,12 @@ class ELLSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
-    auto it = std::max_element(elements_list_.begin(), elements_list_.end(),
-                               [](const Elements& a, const Elements& b) {
-                                 return a.back().index < b.back().index;
-                               });
-    return it->back().index + 1;
+    size_t max_cols = 0;
+    for (const Elements& elements : elements_list_) {
+      if (elements.empty()) continue;
+      max_cols = std::max(max_cols, elements.back().index + 1);
+    }
+    return max_cols;
   }
 
   size_t NonZeros() const {
@@ -250,6 +251,7 @@ class CSRSparseMatrix {
     auto it = std::max_element(
         elements_.begin(), elements_.end(),
         [](const Element& a, const Element& b) { return a.index < b.index; });
+    if (it == elements_.end()) return 0;
     return it->index + 1;
   }
 
-- 
2.43.0


From 71903e008d2fe50cbecd730b8ac5e5a12765d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 27/53] fix: GLV::Mul aligns the bits of k1 and k2 when their
 limb counts differ

---
 tachyon/math/elliptic_curves/msm/glv.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/elliptic_curves/msm/glv.h b/tachyon/math/elliptic_curves/msm/glv.h
index a9925d2..7061e2d 100644
--- a/tachyon/math/elliptic_curves/msm/glv.h
+++ b/tachyon/math/elliptic_curves/msm/glv.h
@@ -6,6 +6,10 @@
 #ifndef TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 #define TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 
+#include <stddef.h>
+
+#include <algorithm>
+
 #include "tachyon/math/base/bit_iterator.h"
 #include "tachyon/math/base/gmp/bit_traits.h"
 #include "tachyon/math/base/gmp/signed_value.h"
@@ -84,14 +88,19 @@ class GLV {
 
     RetPoint b1b2 = b1 + b2;
 
-    auto k1_begin = BitIteratorBE<mpz_class>::begin(&result.k1.abs_value);
+    // NOTE: |k1| and |k2| may have different numbers of limbs. Both iterators
+    // must start from the same bit index.
+    size_t num_bits =
+        std::max(BitTraits<mpz_class>::GetNumBits(result.k1.abs_value),
+                 BitTraits<mpz_class>::GetNumBits(result.k2.abs_value));
+    if (num_bits == 0) return RetPoint::Zero();
+
+    BitIteratorBE<mpz_class> k1_it(&result.k1.abs_value, num_bits - 1);
+    BitIteratorBE<mpz_class> k2_it(&result.k2.abs_value, num_bits - 1);
     auto k1_end = BitIteratorBE<mpz_class>::end(&result.k1.abs_value);
-    auto k2_begin = BitIteratorBE<mpz_class>::begin(&result.k2.abs_value);
 
     RetPoint ret = RetPoint::Zero();
     bool skip_zeros = true;
-    auto k1_it = k1_begin;
-    auto k2_it = k2_begin;
     while (k1_it != k1_end) {
       if (skip_zeros && !(*k1_it) && !(*k2_it)) {
         skip_zeros = false;
-- 
2.43.0


From 6678487f533e816ef9c1cf47ad90c5dbef98811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:14 +0000
Subject: [PATCH 28/53] fix: permute before every further block a sponge
 squeezes

Squeezing |kRate| elements from the middle of a block did not permute the state
between the blocks, so that elements that were already squeezed came out
again.
---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index e68f8b3..68c7ca4 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -227,9 +227,7 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
             state[Params::kCapacity + rate_start_index + i];
       }
 
-      if (output_remaining_size != Params::kRate) {
-        derived.Permute(state);
-      }
+      derived.Permute(state);
       output_idx += num_elements_squeezed;
       rate_start_index = 0;
     }
-- 
2.43.0


From df0db9482b498a1465fba8510441a2be00f79088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:14 +0000
Subject: [PATCH 29/53] fix: make absorbing nothing leave a sponge as it was

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index 68c7ca4..fccc669 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -35,6 +35,8 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
   bool Absorb(SpongeState<Params>& state, absl::Span<const F> input) const {
     const Derived& derived = static_cast<const Derived&>(*this);
 
+    if (input.empty()) return true;
+
     switch (state.mode.type) {
       case DuplexSpongeMode::Type::kAbsorbing: {
         size_t absorb_index = state.mode.next_index;
-- 
2.43.0


From 8ff56950d485f41b3a8ecde35289d28d285dccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 30/53] fix: define the round constants Poseidon2 does not use

The columns of the partial rounds that are never added were left uninitialized,
though they are compared and serialized.
---
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index ca0dfea..87f936b 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -40,6 +40,7 @@ void FindPoseidon2ARK(const PoseidonGrainLFSRConfig& config,
     if (i < partial_rounds_start || i >= partial_rounds_end) {
       ark.row(i) = lfsr.GetFieldElementsRejectionSampling(config.state_len);
     } else {
+      ark.row(i).setConstant(F::Zero());
       ark.row(i)[0] = lfsr.GetFieldElementsRejectionSampling(1)[0];
     }
   }
-- 
2.43.0


From 2be71a3a3dd8468a343bfaa20f2854513f1d7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 31/53] fix: compare the internal matrices of Poseidon2 configs

---
 .../crypto/hashes/sponge/poseidon2/poseidon2_config.h    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 87f936b..952eced 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -126,6 +126,15 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
     return Create(config_entry, internal_shifts, std::move(ark));
   }
 
+  bool operator==(const Poseidon2Config& other) const {
+    return PoseidonConfigBase<Params>::operator==(other) &&
+           internal_diagonal_minus_one == other.internal_diagonal_minus_one &&
+           internal_shifts == other.internal_shifts;
+  }
+  bool operator!=(const Poseidon2Config& other) const {
+    return !operator==(other);
+  }
+
  private:
   constexpr static Poseidon2Config Create(
       const Poseidon2ConfigEntry& config_entry,
-- 
2.43.0


From def7e7d08862ab105a4aa14f032db4be4f705c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:50 +0000
Subject: [PATCH 32/53] fix: serialize everything of a Poseidon2 config

The shifts of the internal matrix were dropped, so that a config that was read
back was another permutation.
---
 .../hashes/sponge/poseidon2/poseidon2_config.h      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 952eced..7e00078 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -176,25 +176,30 @@ class Copyable<crypto::Poseidon2Config<Params>> {
                       Buffer* buffer) {
     return Copyable<crypto::PoseidonConfigBase<Params>>::WriteTo(config,
                                                                  buffer) &&
-           buffer->WriteMany(config.internal_diagonal_minus_one);
+           buffer->WriteMany(config.internal_diagonal_minus_one,
+                             config.internal_shifts);
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
                        crypto::Poseidon2Config<Params>* config) {
     crypto::PoseidonConfigBase<Params> base;
-    math::Matrix<F> internal_diagonal_minus_one;
-    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one)) {
+    math::Vector<F> internal_diagonal_minus_one;
+    math::Vector<uint8_t> internal_shifts;
+    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one,
+                         &internal_shifts)) {
       return false;
     }
 
     *config = {std::move(base), std::move(internal_diagonal_minus_one)};
+    config->internal_shifts = std::move(internal_shifts);
     return true;
   }
 
   static size_t EstimateSize(const crypto::Poseidon2Config<Params>& config) {
     const crypto::PoseidonConfigBase<Params>& base =
         static_cast<const crypto::PoseidonConfigBase<Params>&>(config);
-    return base::EstimateSize(base, config.internal_diagonal_minus_one);
+    return base::EstimateSize(base, config.internal_diagonal_minus_one,
+                              config.internal_shifts);
   }
 };
 
-- 
2.43.0


From baa4452dea354c8f8fddf3bcbe9d04baab2260ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 33/53] fix: do not hash beyond the leaf of a Merkle tree with
 one leaf

A range of one node has no parent left to build. With one leaf, or when every
leaf is its own subtree, nodes outside of the tree were read and written.
---
 .../merkle_tree/binary_merkle_tree/binary_merkle_tree.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
index 7b5036f..3d44a70 100644
--- a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
@@ -143,13 +143,13 @@ class BinaryMerkleTree final
   }
 
   void BuildTreeFromLeaves(base::Range<size_t> range) const {
-    while (range.GetSize() > 0) {
+    while (range.GetSize() > 1) {
       for (size_t i = range.from; i < range.to; i += 2) {
         storage_->SetHash(i >> 1,
                           hasher_->ComputeParentHash(storage_->GetHash(i),
                                                      storage_->GetHash(i + 1)));
       }
-      range = base::Range<size_t>(range.from >> 1, (range.to >> 1) - 1);
+      range = base::Range<size_t>(range.from >> 1, range.to >> 1);
     }
   }
 
-- 
2.43.0


From 23e16300166ba01c831a324ec44f201a11564391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 34/53] fix: evaluate the selectors of a domain on a larger
 coset

---
 .../commitments/fri/two_adic_multiplicative_coset.h  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
index 976e352..0129909 100644
--- a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
+++ b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
@@ -87,26 +87,30 @@ class TwoAdicMultiplicativeCoset {
 
     CHECK_EQ(domain_->offset(), F::One());
     CHECK_NE(coset_shift, F::One());
-    CHECK_GE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
+    CHECK_LE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
     uint32_t rate_bits =
         coset.domain()->log_size_of_group() - domain_->log_size_of_group();
     F s_pow_n = coset_shift.ExpPowOfTwo(domain_->log_size_of_group());
+    // Generator of the subgroup of order 2^|rate_bits|.
+    F gen_pow_n = coset.domain()->group_gen().ExpPowOfTwo(
+        domain_->log_size_of_group());
 
     // Evals of Z_H(X) = Xⁿ - 1
     size_t evals_size = size_t{1} << rate_bits;
     std::vector<F> evals(evals_size);
     std::vector<F> inv_denoms_inv_zeroifier(evals_size);
     base::Parallelize(
-        evals_size, [this, &s_pow_n, &evals, &inv_denoms_inv_zeroifier](
+        evals_size, [&s_pow_n, &gen_pow_n, &evals, &inv_denoms_inv_zeroifier](
                         size_t len, size_t chunk_offset, size_t chunk_size) {
           size_t start = chunk_offset * chunk_size;
-          F eval = s_pow_n * domain_->group_gen().Pow(start);
+          F eval = s_pow_n * gen_pow_n.Pow(start);
           for (size_t i = start; i < start + len; ++i) {
             evals[i] = eval - F::One();
             inv_denoms_inv_zeroifier[i] = evals[i];
+            eval *= gen_pow_n;
           }
           absl::Span<F> inv_denoms_inv_zeroifier_chunk =
-              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], chunk_size);
+              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], len);
           CHECK(F::BatchInverseInPlaceSerial(inv_denoms_inv_zeroifier_chunk));
         });
 
-- 
2.43.0


From 020f521dc253c329d42a3d6f039a1e47e4564bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:43 +0000
Subject: [PATCH 35/53] fix: refuse a FRI proof with a wrong opening instead of
 aborting

---
 tachyon/crypto/commitments/fri/two_adic_fri.h | 37 ++++++++++++++--
 tachyon/crypto/commitments/fri/verify.h       | 44 +++++++++++++------
 2 files changed, 63 insertions(+), 18 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_fri.h b/tachyon/crypto/commitments/fri/two_adic_fri.h
index 96fb772..16ee897 100644
--- a/tachyon/crypto/commitments/fri/two_adic_fri.h
+++ b/tachyon/crypto/commitments/fri/two_adic_fri.h
@@ -234,6 +234,20 @@ class TwoAdicFRI {
     VLOG(2) << "FRI(alpha): " << alpha.ToHexString(true);
     uint32_t log_global_max_num_rows =
         proof.commit_phase_commits.size() + config_.log_blowup;
+    uint32_t expected_log_global_max_num_rows = 0;
+    for (const std::vector<Domain>& domains : domains_by_round) {
+      for (const Domain& domain : domains) {
+        expected_log_global_max_num_rows = std::max(
+            expected_log_global_max_num_rows,
+            domain.domain()->log_size_of_group() + config_.log_blowup);
+      }
+    }
+    if (log_global_max_num_rows != expected_log_global_max_num_rows) {
+      LOG(ERROR) << "number of commit phase commits doesn't match "
+                 << log_global_max_num_rows << " vs "
+                 << expected_log_global_max_num_rows;
+      return false;
+    }
     return fri::Verify(
         config_, proof, challenger,
         [this, alpha, log_global_max_num_rows, &commits_by_round,
@@ -254,6 +268,11 @@ class TwoAdicFRI {
 
           absl::btree_map<size_t, ReducedOpening> reduced_openings;
           size_t num_rounds = commits_by_round.size();
+          if (input_proof.size() != num_rounds) {
+            LOG(ERROR) << "number of input openings doesn't match "
+                       << input_proof.size() << " vs " << num_rounds;
+            return false;
+          }
           for (size_t round = 0; round < num_rounds; ++round) {
             const std::vector<Domain>& domains = domains_by_round[round];
             const OpeningPointsForRound& points = points_by_round[round];
@@ -276,9 +295,13 @@ class TwoAdicFRI {
             const std::vector<std::vector<F>>& opened_values_in =
                 input_proof[round].opened_values;
 
-            CHECK(mmcs_.VerifyOpeningProof(commits_by_round[round], batch_dims,
-                                           reduced_index, opened_values_in,
-                                           input_proof[round].opening_proof));
+            if (opened_values_in.size() != vals_size ||
+                !mmcs_.VerifyOpeningProof(commits_by_round[round], batch_dims,
+                                          reduced_index, opened_values_in,
+                                          input_proof[round].opening_proof)) {
+              LOG(ERROR) << "failed to verify opening of round " << round;
+              return false;
+            }
 
             for (size_t batch_idx = 0; batch_idx < vals_size; ++batch_idx) {
               const Domain& domain = domains[batch_idx];
@@ -304,7 +327,12 @@ class TwoAdicFRI {
                 const ExtF& z = cur_points[i];
                 ExtF denom = unwrap((x - z).Inverse());
                 const std::vector<ExtF>& ps_at_z = cur_values[i];
-                CHECK_EQ(ps_at_z.size(), cur_values_in.size());
+                if (ps_at_z.size() != cur_values_in.size()) {
+                  LOG(ERROR) << "number of opened values doesn't match "
+                             << ps_at_z.size() << " vs "
+                             << cur_values_in.size();
+                  return false;
+                }
                 for (size_t j = 0; j < ps_at_z.size(); ++j) {
                   ExtF quotient = (cur_values_in[j] - ps_at_z[j]) * denom;
                   reduced_opening.value += reduced_opening.pow * quotient;
@@ -320,6 +348,7 @@ class TwoAdicFRI {
             ro_num_rows.emplace_back(it->first);
             ro_values.emplace_back(std::move(it->second.value));
           }
+          return true;
         });
   }
 
diff --git a/tachyon/crypto/commitments/fri/verify.h b/tachyon/crypto/commitments/fri/verify.h
index f23bb33..3f21662 100644
--- a/tachyon/crypto/commitments/fri/verify.h
+++ b/tachyon/crypto/commitments/fri/verify.h
@@ -29,11 +29,12 @@ struct CommitStep {
 };
 
 template <typename PCS, typename MMCS, typename F>
-F VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
-              const FRIConfig<MMCS>& config,
-              const std::vector<CommitStep<PCS>>& steps,
-              const std::vector<size_t>& ro_num_rows,
-              const std::vector<F>& ro_values) {
+[[nodiscard]] bool VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
+                               const FRIConfig<MMCS>& config,
+                               const std::vector<CommitStep<PCS>>& steps,
+                               const std::vector<size_t>& ro_num_rows,
+                               const std::vector<F>& ro_values,
+                               F* folded_eval_out) {
   F folded_eval = F::Zero();
   size_t ro_idx = 0;
   size_t ro_size = ro_num_rows.size();
@@ -47,10 +48,13 @@ F VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
     size_t index_pair = index >> 1;
     std::vector<std::vector<F>> evals = {{folded_eval, folded_eval}};
     evals[0][index_sibling % 2] = steps[step_idx].opening.sibling_value;
-    CHECK(config.mmcs.VerifyOpeningProof(
-        steps[step_idx].commit,
-        {math::Dimensions(2, size_t{1} << log_folded_num_rows)}, index_pair,
-        evals, steps[step_idx].opening.opening_proof));
+    if (!config.mmcs.VerifyOpeningProof(
+            steps[step_idx].commit,
+            {math::Dimensions(2, size_t{1} << log_folded_num_rows)}, index_pair,
+            evals, steps[step_idx].opening.opening_proof)) {
+      LOG(ERROR) << "failed to verify opening of commit phase " << step_idx;
+      return false;
+    }
     folded_eval = FoldRow(index_pair, log_folded_num_rows, steps[step_idx].beta,
                           evals[0]);
     index = index_pair;
@@ -58,7 +62,8 @@ F VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
   CHECK_LT(index, config.Blowup()) << "index was " << index;
   CHECK_EQ(ro_idx, ro_size);
 
-  return folded_eval;
+  *folded_eval_out = std::move(folded_eval);
+  return true;
 }
 
 template <typename PCS, typename ChallengeMMCS, typename Challenger,
@@ -100,8 +105,16 @@ template <typename PCS, typename ChallengeMMCS, typename Challenger,
     std::vector<ExtF> ro_values;
     size_t index = challenger.SampleBits(log_max_num_rows);
     VLOG(2) << "FRI(index[" << i << "]): " << index;
-    open_input(index, proof.query_proofs[i].input_proof, ro_num_rows,
-               ro_values);
+    if (proof.query_proofs[i].commit_phase_openings.size() != num_commits) {
+      LOG(ERROR) << "number of commit phase openings doesn't match "
+                 << proof.query_proofs[i].commit_phase_openings.size() << " vs "
+                 << num_commits;
+      return false;
+    }
+    if (!open_input(index, proof.query_proofs[i].input_proof, ro_num_rows,
+                    ro_values)) {
+      return false;
+    }
 
 #if DCHECK_IS_ON()
     // Check reduced openings sorted by |num_rows| descending
@@ -114,8 +127,11 @@ template <typename PCS, typename ChallengeMMCS, typename Challenger,
               betas[j], proof.commit_phase_commits[j],
               proof.query_proofs[i].commit_phase_openings[j]};
         });
-    ExtF folded_eval = VerifyQuery(index, log_max_num_rows, config, steps,
-                                   ro_num_rows, ro_values);
+    ExtF folded_eval;
+    if (!VerifyQuery(index, log_max_num_rows, config, steps, ro_num_rows,
+                     ro_values, &folded_eval)) {
+      return false;
+    }
     if (folded_eval != proof.final_eval) {
       LOG(ERROR) << "final_eval is not matched: "
                  << folded_eval.ToHexString(true);
-- 
2.43.0


From 04473672cb94a396ab70a6d8062da4e407763c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 36/53] fix: refuse a SimpleFRI opening that is not at the
 queried index

---
 tachyon/crypto/commitments/fri/simple_fri.h | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/tachyon/crypto/commitments/fri/simple_fri.h b/tachyon/crypto/commitments/fri/simple_fri.h
index a631e05..55e27dd 100644
--- a/tachyon/crypto/commitments/fri/simple_fri.h
+++ b/tachyon/crypto/commitments/fri/simple_fri.h
@@ -133,6 +133,15 @@ class SimpleFRI final
       BinaryMerkleTreeStorage<F>* layer = storage_->GetLayer(i);
       BinaryMerkleTree<F, F, MaxDegree + 1> tree(layer, hasher_);
 
+      size_t leaf_index = index % domain_size;
+      size_t leaf_index_sym = (index + (domain_size >> 1)) % domain_size;
+      if (!IsPathOf(proof.paths[i], leaf_index, num_layers - i) ||
+          !IsPathOf(proof.paths_sym[i], leaf_index_sym, num_layers - i)) {
+        LOG(ERROR) << "Path doesn't lead to the queried leaf at layer [" << i
+                   << "]";
+        return false;
+      }
+
       if (!reader->ReadFromProof(&root)) return false;
       if (!tree.VerifyOpeningProof(root, proof.evaluations[i], proof.paths[i]))
         return false;
@@ -161,7 +170,6 @@ class SimpleFRI final
       // Substituting Pᵢ_even and Pᵢ_odd:
       // Pᵢ₊₁(ω²ʲ) = (Pᵢ(ωʲ) + Pᵢ(-ωʲ)) / 2 + β * (Pᵢ(ωʲ) - Pᵢ(-ωʲ)) / (2 * ωʲ)
       //           = ((1 + β * ω⁻ʲ) * Pᵢ(ωʲ) + (1 - β * ω⁻ʲ) * Pᵢ(-ωʲ)) / 2
-      size_t leaf_index = index % domain_size;
       if (i == 0) {
         evaluation = proof.evaluations[i];
         evaluation_sym = proof.evaluations_sym[i];
@@ -201,6 +209,18 @@ class SimpleFRI final
   }
 
  private:
+  // Returns true if |proof| is for the leaf at |leaf_index| of a tree whose
+  // height is |height|.
+  static bool IsPathOf(const BinaryMerkleProof<F>& proof, size_t leaf_index,
+                       uint32_t height) {
+    if (proof.paths.size() != height) return false;
+    for (uint32_t i = 0; i < height; ++i) {
+      bool left = (leaf_index >> i) & 1;
+      if (proof.paths[i].left != left) return false;
+    }
+    return true;
+  }
+
   // not owned
   const Domain* domain_ = nullptr;
   // not owned
-- 
2.43.0


From 9b40bcd0c0965ef458c0ecd9c7f1f5edb458b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:08 +0000
Subject: [PATCH 37/53] fix: SHPlonk and GWC built from a KZG and s_g2 pair
 with s_g2 and -G

The constructor that takes s_g2 (the one deserialisation uses) prepared G and
minus the moved-from argument, so such a scheme rejected every valid proof;
Setup() prepares {s_g2, -G}.
---
 tachyon/crypto/commitments/kzg/gwc.h     | 4 ++--
 tachyon/crypto/commitments/kzg/shplonk.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/gwc.h b/tachyon/crypto/commitments/kzg/gwc.h
index bb6ebb9..ec51448 100644
--- a/tachyon/crypto/commitments/kzg/gwc.h
+++ b/tachyon/crypto/commitments/kzg/gwc.h
@@ -55,8 +55,8 @@ class GWC final : public UnivariatePolynomialCommitmentScheme<
   GWC(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 41950c9..9c4d82b 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -56,8 +56,8 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
   SHPlonk(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
-- 
2.43.0


From e5d47b0ac5b6ffab43823356275a624ed2411532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:42 +0000
Subject: [PATCH 38/53] fix: BigInt::ToNAF keeps the carry out of the biggest
 limb

---
 tachyon/math/base/big_int.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 881af7a..9a494f9 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -879,6 +879,7 @@ struct BigInt {
     BigInt v(*this);
     std::vector<int8_t> ret;
     ret.reserve(8 * sizeof(uint64_t) * N);
+    uint64_t carry = 0;
     while (!v.IsZero()) {
       int8_t z;
       // v = v₀ * 2⁰ + v₁ * 2¹ + v₂ * 2² + ... + vₙ₋₁ * 2ⁿ⁻¹
@@ -896,13 +897,18 @@ struct BigInt {
         if (z >= 0) {
           v -= BigInt(z);
         } else {
-          v += BigInt(-z);
+          v.AddInPlace(BigInt(-z), carry);
         }
       } else {
         z = 0;
       }
       ret.push_back(z);
       v.DivBy2InPlace();
+      if (UNLIKELY(carry)) {
+        // |v| + 1 doesn't fit in |N| limbs, bring its top bit back.
+        v[kBiggestLimbIdx] |= uint64_t{1} << (kLimbBitNums - 1);
+        carry = 0;
+      }
     }
     return ret;
   }
-- 
2.43.0


From 84cbadd4b79d506b81caefaf68ed7293441691ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:42 +0000
Subject: [PATCH 39/53] fix: BigInt::ExtractBits of a whole word doesn't shift
 by the word size

---
 tachyon/math/base/big_int.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 9a494f9..dc4e29d 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1032,12 +1032,13 @@ struct BigInt {
     size_t bit_idx = bit_offset % bits;
 
     T ret;
-    if (bit_idx < bits - bit_count || limb_idx == nums - 1) {
+    if (bit_idx <= bits - bit_count || limb_idx == nums - 1) {
       ret = limbs_ptr[limb_idx] >> bit_idx;
     } else {
       ret = (limbs_ptr[limb_idx] >> bit_idx) |
             (limbs_ptr[1 + limb_idx] << (bits - bit_idx));
     }
+    if (bit_count >= bits) return ret;
     T mask = (T{1} << bit_count) - T{1};
     return ret & mask;
   }
-- 
2.43.0


From 8c54162b4dd291bf563ed9fd1d8ef001c60a17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:41 +0000
Subject: [PATCH 40/53] fix: refuse FRI opened values that don't match the
 opening points

---
 tachyon/crypto/commitments/fri/two_adic_fri.h | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tachyon/crypto/commitments/fri/two_adic_fri.h b/tachyon/crypto/commitments/fri/two_adic_fri.h
index 16ee897..f965d8e 100644
--- a/tachyon/crypto/commitments/fri/two_adic_fri.h
+++ b/tachyon/crypto/commitments/fri/two_adic_fri.h
@@ -248,6 +248,28 @@ class TwoAdicFRI {
                  << expected_log_global_max_num_rows;
       return false;
     }
+    if (opened_values_by_round.size() != points_by_round.size()) {
+      LOG(ERROR) << "number of opened rounds doesn't match "
+                 << opened_values_by_round.size() << " vs "
+                 << points_by_round.size();
+      return false;
+    }
+    for (size_t round = 0; round < points_by_round.size(); ++round) {
+      const OpeningPointsForRound& points = points_by_round[round];
+      const OpenedValuesForRound& opened_values = opened_values_by_round[round];
+      if (opened_values.size() != points.size()) {
+        LOG(ERROR) << "number of opened matrices doesn't match "
+                   << opened_values.size() << " vs " << points.size();
+        return false;
+      }
+      for (size_t i = 0; i < points.size(); ++i) {
+        if (opened_values[i].size() != points[i].size()) {
+          LOG(ERROR) << "number of opened points doesn't match "
+                     << opened_values[i].size() << " vs " << points[i].size();
+          return false;
+        }
+      }
+    }
     return fri::Verify(
         config_, proof, challenger,
         [this, alpha, log_global_max_num_rows, &commits_by_round,
-- 
2.43.0


From 4f215f966cc34fb72c683b8a1844fd87fdf6ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:22 +0000
Subject: [PATCH 41/53] fix: pad 64-bit binary field elements to 16 hex digits

---
 tachyon/math/finite_fields/binary_fields/binary_field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/finite_fields/binary_fields/binary_field.h b/tachyon/math/finite_fields/binary_fields/binary_field.h
index 56f87fd..c572e6c 100644
--- a/tachyon/math/finite_fields/binary_fields/binary_field.h
+++ b/tachyon/math/finite_fields/binary_fields/binary_field.h
@@ -206,7 +206,7 @@ class BinaryField final : public FiniteField<BinaryField<_Config>> {
     if constexpr (kBits <= 64) {
       std::string str = base::HexToString(value_);
       if (pad_zero) {
-        str = base::ToHexStringWithLeadingZero(str, 8);
+        str = base::ToHexStringWithLeadingZero(str, kBits <= 32 ? 8 : 16);
       }
       return base::MaybePrepend0x(str);
     } else {
-- 
2.43.0


From 314fd765cf9bf23c7bc8d2ae55b2126875108949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:06 +0000
Subject: [PATCH 42/53] fix: keep chunked lookup inputs with their own table

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 61fc823..1c37889 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -303,6 +303,8 @@ class ConstraintSystem {
     size_t minimum_degree = minimum_degree_.value();
 
     for (const auto& [_, lookup_tracker] : lookups_map_) {
+      // The arguments before |begin| look up other tables.
+      size_t begin = lookups_.size();
       std::vector<std::unique_ptr<Expression<F>>> cloned_input =
           Expression<F>::CloneExpressions(lookup_tracker.inputs[0]);
       std::vector<std::unique_ptr<Expression<F>>> cloned_table =
@@ -316,8 +318,9 @@ class ConstraintSystem {
         size_t cur_input_degree = ComputeColumnDegree(*input);
 
         bool added = false;
-        for (lookup::Argument<F>& lookup_argument : lookups_) {
+        for (size_t i = begin; i < lookups_.size(); ++i) {
           // Try to fit input into one of the |lookup_arguments|.
+          lookup::Argument<F>& lookup_argument = lookups_[i];
           size_t cur_argument_degree = lookup_argument.RequiredDegree();
           size_t new_potential_degree = cur_argument_degree + cur_input_degree;
           if (new_potential_degree <= minimum_degree) {
-- 
2.43.0


From ac48c157dc35201df5728f7fd389f8675cdf065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:47 +0000
Subject: [PATCH 43/53] fix: identify a scaled expression by the expression it
 scales as well

---
 tachyon/zk/plonk/expressions/evaluator/identifier.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/zk/plonk/expressions/evaluator/identifier.h b/tachyon/zk/plonk/expressions/evaluator/identifier.h
index ee471b4..678c5ea 100644
--- a/tachyon/zk/plonk/expressions/evaluator/identifier.h
+++ b/tachyon/zk/plonk/expressions/evaluator/identifier.h
@@ -50,6 +50,7 @@ class Identifier : public Evaluator<F, void> {
         ss_ << ")";
         return;
       case ExpressionType::kScaled:
+        Evaluate(input->ToScaled()->expr());
         ss_ << "*";
         ss_ << input->ToScaled()->scale().ToString();
         return;
-- 
2.43.0


From 9d2a2e294b98159d7dacf9a43963cf304aa8331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:04 +0000
Subject: [PATCH 44/53] fix: Value::operator!= compares instead of calling
 itself

---
 tachyon/zk/base/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/base/value.h b/tachyon/zk/base/value.h
index 2f9fca2..90aaa2d 100644
--- a/tachyon/zk/base/value.h
+++ b/tachyon/zk/base/value.h
@@ -62,7 +62,7 @@ class Value : public math::Field<Value<T>> {
     return *value_ == *other.value_;
   }
   constexpr bool operator!=(const Value& other) const {
-    return operator!=(other);
+    return !operator==(other);
   }
 
   const T& value() const { return *value_; }
-- 
2.43.0


From 5db70977c39dd0e93196dff9cecf259f53ac2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:27 +0000
Subject: [PATCH 45/53] fix: RationalField::IsOne and IsMinusOne look at the
 denominator

---
 tachyon/math/base/rational_field.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index eb1bc8f..6eb3721 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -80,12 +80,10 @@ class RationalField : public Field<RationalField<F>> {
 
   constexpr bool IsZero() const { return numerator_.IsZero(); }
 
-  constexpr bool IsOne() const {
-    return numerator_.IsOne() || numerator_ == denominator_;
-  }
+  constexpr bool IsOne() const { return numerator_ == denominator_; }
 
   constexpr bool IsMinusOne() const {
-    return numerator_.IsMinusOne() || (numerator_ + denominator_).IsZero();
+    return (numerator_ + denominator_).IsZero();
   }
 
   std::string ToString() const {
-- 
2.43.0


From f1f47ab6dbb1951993aef316e7cb9d10b8071717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:27 +0000
Subject: [PATCH 46/53] fix: RationalField::BatchEvaluate multiplies by its
 coefficient

---
 tachyon/math/base/rational_field.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index 6eb3721..21c9019 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -61,13 +61,14 @@ class RationalField : public Field<RationalField<F>> {
       return false;
     }
     base::Parallelize(*results,
-                      [&ration_fields](absl::Span<F> chunk, size_t chunk_offset,
-                                       size_t chunk_size) {
+                      [&ration_fields, &coeff](absl::Span<F> chunk,
+                                               size_t chunk_offset,
+                                               size_t chunk_size) {
                         size_t start = chunk_offset * chunk_size;
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] = ration_fields[start + i].denominator_;
                         }
-                        CHECK(F::BatchInverseInPlaceSerial(chunk));
+                        CHECK(F::BatchInverseInPlaceSerial(chunk, coeff));
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] *= ration_fields[start + i].numerator_;
                         }
-- 
2.43.0


From 2b44979a91962fc605bb5d2c5a5a0ce281ede3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:44 +0000
Subject: [PATCH 47/53] fix: combine selectors by the degree of the one that
 joins

---
 tachyon/zk/plonk/constraint_system/selector_compressor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/selector_compressor.h b/tachyon/zk/plonk/constraint_system/selector_compressor.h
index 923e744..9c168d3 100644
--- a/tachyon/zk/plonk/constraint_system/selector_compressor.h
+++ b/tachyon/zk/plonk/constraint_system/selector_compressor.h
@@ -220,7 +220,7 @@ class SelectorCompressor {
         // Can the new selector join the combination? Reminder: we use
         // |selector.max_degree() - 1| to omit the influence of the virtual
         // selector on the degree, as it will be substituted.
-        size_t new_d = std::max(d, selector.max_degree() - 1);
+        size_t new_d = std::max(d, selectors_[j].max_degree() - 1);
         if (new_d + combination.size() + 1 > max_degree) {
           // Guess not.
           continue;
-- 
2.43.0


From 71d7bfe55e4f5d7f9ff9da2695e8ac8bb9811e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:50 +0000
Subject: [PATCH 48/53] fix: leave the zero variable out of an R1CS row

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 5950f87..25babf1 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -78,7 +78,7 @@ class ConstraintSystem {
   std::vector<Cell<F>> MakeRow(const LinearCombination<F>& lc) const {
     std::vector<Cell<F>> row;
     for (const Term<F>& term : lc.terms()) {
-      if (!term.coefficient.IsZero()) {
+      if (!term.coefficient.IsZero() && !term.variable.IsZero()) {
         row.push_back({term.coefficient,
                        *term.variable.GetIndex(num_instance_variables_)});
       }
-- 
2.43.0


From c0fb2232244fe3dc16f5b240c26f683d9220beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:32 +0000
Subject: [PATCH 49/53] fix: refuse a prime field element that is not reduced
 when reading it

---
 tachyon/math/finite_fields/prime_field_base.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index 210045d..2f03020 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -215,6 +215,10 @@ class Copyable<
   static bool ReadFrom(const ReadOnlyBuffer& buffer, T* prime_field) {
     value_type v;
     if (!buffer.Read(&v)) return false;
+    if (v >= T::Config::kModulus) {
+      LOG(ERROR) << "value is greater than or equal to modulus";
+      return false;
+    }
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
         *prime_field = T::FromMontgomery(v);
-- 
2.43.0


From 3e6ce45be9517e70ec5506ca29ba8d5078b5f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:32 +0000
Subject: [PATCH 50/53] fix: refuse point encodings that are not the ones the
 writer produces

---
 tachyon/zk/plonk/halo2/proof_serializer.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tachyon/zk/plonk/halo2/proof_serializer.h b/tachyon/zk/plonk/halo2/proof_serializer.h
index 6f290b8..3c42755 100644
--- a/tachyon/zk/plonk/halo2/proof_serializer.h
+++ b/tachyon/zk/plonk/halo2/proof_serializer.h
@@ -59,8 +59,11 @@ class ProofSerializer<math::AffinePoint<Curve>> {
     if (s_use_legacy_serialization) {
       is_odd = bytes[kByteSize - 1] >> 7;
       bytes[kByteSize - 1] &= 0b01111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
+      BigInt x_big_int = BigInt::FromBytesLE(bytes);
+      if (x_big_int >= BaseField::Config::kModulus) return false;
+      x = BaseField::FromBigInt(x_big_int);
       if (x.IsZero()) {
+        if (is_odd) return false;
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
       }
@@ -68,8 +71,11 @@ class ProofSerializer<math::AffinePoint<Curve>> {
       bool is_inf = bytes[kByteSize - 1] >> 7;
       is_odd = (bytes[kByteSize - 1] >> 6) & 1;
       bytes[kByteSize - 1] &= 0b00111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
-      if (x.IsZero() && is_inf) {
+      BigInt x_big_int = BigInt::FromBytesLE(bytes);
+      if (x_big_int >= BaseField::Config::kModulus) return false;
+      x = BaseField::FromBigInt(x_big_int);
+      if (is_inf) {
+        if (!x.IsZero() || is_odd) return false;
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
       }
-- 
2.43.0


From 2f8a242d7159e0cec3a756ae6b27a5600822f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:32 +0000
Subject: [PATCH 51/53] fix: check the coordinates of the points Sha256Reader
 reads

---
 tachyon/zk/plonk/halo2/sha256_transcript.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/halo2/sha256_transcript.h b/tachyon/zk/plonk/halo2/sha256_transcript.h
index 0e4ad45..d87fd14 100644
--- a/tachyon/zk/plonk/halo2/sha256_transcript.h
+++ b/tachyon/zk/plonk/halo2/sha256_transcript.h
@@ -126,7 +126,12 @@ class Sha256Reader : public crypto::TranscriptReader<AffinePoint>,
     math::BigInt<4> x;
     math::BigInt<4> y;
     if (!this->buffer_.ReadMany(&x, &y)) return false;
-    *point = {BaseField(std::move(x)), BaseField(std::move(y))};
+    if (x >= BaseField::Config::kModulus || y >= BaseField::Config::kModulus) {
+      return false;
+    }
+    AffinePoint p(BaseField(std::move(x)), BaseField(std::move(y)));
+    if (!p.IsZero() && !p.IsOnCurve()) return false;
+    *point = std::move(p);
     return true;
   }
 
-- 
2.43.0


From 2515b2a435ee3929de8228ce0421136246865745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:32 +0000
Subject: [PATCH 52/53] fix: restart the ChaCha20 stream on SetSeed and refuse
 an index outside the block

---
 .../crypto/random/cha_cha20/cha_cha20_rng.h    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
index 044293c..b23fe50 100644
--- a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
+++ b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
@@ -59,6 +59,12 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     for (size_t i = 0; i < 8; ++i) {
       input_[i + 4] = absl::little_endian::Load32(&seed[4 * i]);
     }
+    // The stream of a seed starts at its first block, so that the numbers do
+    // not depend on what was drawn before.
+    for (size_t i = 12; i < 16; ++i) {
+      input_[i] = 0;
+    }
+    index_ = kMaxIndex;
     return true;
   }
 
@@ -69,6 +75,10 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     uint8_t output[kOutputSize];
     base::EndianAutoReset auto_reset(buffer, base::Endian::kLittle);
     if (!buffer.ReadMany(&index, input, output)) return false;
+    if (index > kMaxIndex) {
+      LOG(ERROR) << "Index must not be greater than " << kMaxIndex;
+      return false;
+    }
     index_ = index;
     memcpy(input_, input, kInputSize);
     memcpy(output_, output, kOutputSize);
@@ -90,14 +100,8 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     input_[2] = 0x79622D32;
     input_[3] = 0x6B206574;
 
-    // seed
+    // seed and counter
     CHECK(SetSeed(absl::Span<const uint8_t>(seed, kSeedSize)));
-
-    // counter
-    input_[12] = 0;
-    input_[13] = 0;
-    input_[14] = 0;
-    input_[15] = 0;
   }
 
   ChaCha20RNG(size_t index, const uint8_t input[kInputSize],
-- 
2.43.0


From 02dd17664ec2089d38c123cd8c4a625dc3ba0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:32 +0000
Subject: [PATCH 53/53] fix: replace the all-zero seed of XORShiftRNG

---
 tachyon/crypto/random/xor_shift/xor_shift_rng.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/random/xor_shift/xor_shift_rng.h b/tachyon/crypto/random/xor_shift/xor_shift_rng.h
index c11a2eb..1f002d8 100644
--- a/tachyon/crypto/random/xor_shift/xor_shift_rng.h
+++ b/tachyon/crypto/random/xor_shift/xor_shift_rng.h
@@ -48,6 +48,10 @@ class TACHYON_EXPORT XORShiftRNG final : public RNG {
     memcpy(&y_, &seed[4], sizeof(uint32_t));
     memcpy(&z_, &seed[8], sizeof(uint32_t));
     memcpy(&w_, &seed[12], sizeof(uint32_t));
+    // The all-zero state generates nothing but zeros.
+    if ((x_ | y_ | z_ | w_) == 0) {
+      x_ = y_ = z_ = w_ = kDefaultWord;
+    }
     return true;
   }
 
@@ -78,13 +82,15 @@ class TACHYON_EXPORT XORShiftRNG final : public RNG {
   }
 
  private:
+  constexpr static uint32_t kDefaultWord = 195911405;  // 0xBAD_5EED
+
   XORShiftRNG(uint32_t x, uint32_t y, uint32_t z, uint32_t w)
       : x_(x), y_(y), z_(z), w_(w) {}
 
-  uint32_t x_ = 195911405;  // 0xBAD_5EED
-  uint32_t y_ = 195911405;  // 0xBAD_5EED
-  uint32_t z_ = 195911405;  // 0xBAD_5EED
-  uint32_t w_ = 195911405;  // 0xBAD_5EED
+  uint32_t x_ = kDefaultWord;
+  uint32_t y_ = kDefaultWord;
+  uint32_t z_ = kDefaultWord;
+  uint32_t w_ = kDefaultWord;
 };
 
 }  // namespace tachyon::crypto
-- 
2.43.0

