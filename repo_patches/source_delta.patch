From 92f9aeb101a4026cf5c65f2ddf89c6703655373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 1/5] fix: fmaximum_num(-0.0, NaN) must return the number, not
 the NaN

---
 libm/src/math/generic/fmaximum_num.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/generic/fmaximum_num.rs b/libm/src/math/generic/fmaximum_num.rs
index f7efdde..2366314 100644
--- a/libm/src/math/generic/fmaximum_num.rs
+++ b/libm/src/math/generic/fmaximum_num.rs
@@ -15,12 +15,14 @@ use super::super::Float;
 
 #[inline]
 pub fn fmaximum_num<F: Float>(x: F, y: F) -> F {
-    let res =
-        if x.is_nan() || x < y || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive()) {
-            y
-        } else {
-            x
-        };
+    let res = if x.is_nan()
+        || x < y
+        || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive() && !y.is_nan())
+    {
+        y
+    } else {
+        x
+    };
 
     // Canonicalize
     res * F::ONE
-- 
2.43.0


From 7467a0cbcd2ea1e3587ed5217b218e9238704b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 2/5] fix: fmaf double rounding when the result is subnormal

---
 libm/src/math/fma_wide.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/fma_wide.rs b/libm/src/math/fma_wide.rs
index 08b78b0..42a41a1 100644
--- a/libm/src/math/fma_wide.rs
+++ b/libm/src/math/fma_wide.rs
@@ -48,9 +48,14 @@ where
     let excess_prec = ui & ((one << prec_diff) - one);
     let halfway = one << (prec_diff - 1);
 
+    // If the result is subnormal in the smaller type then more bits than `prec_diff` get rounded
+    // away, so a tie can be at any bit. There, fix up any result that is even (round to odd).
+    let is_subnorm = re < (B::EXP_BIAS as i32 + F::EXP_MIN) as u32;
+    let is_subnorm_even = is_subnorm && ui & one == IntTy::<B>::ZERO;
+
     // Common case: the larger precision is fine if...
     // This is not a halfway case
-    if excess_prec != halfway
+    if (excess_prec != halfway && !is_subnorm_even)
         // Or the result is NaN
         || re == B::EXP_SAT
         // Or the result is exact
-- 
2.43.0


From 2f31f639bf66c4cc4a46f8ec3ee60bdd4f3d8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 3/5] fix: fma loses the sticky bit when the addend dominates

---
 libm/src/math/fma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/fma.rs b/libm/src/math/fma.rs
index e0b3347..af6a62e 100644
--- a/libm/src/math/fma.rs
+++ b/libm/src/math/fma.rs
@@ -93,9 +93,9 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                // The sticky bit must be taken from the bits that get shifted out, before `rlo` changes
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From 2bb0a08b4d3cb4350bdfa1a3d4f46073d898aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 4/5] fix: expm1f overflowed early, which made sinhf return NaN
 just below its overflow threshold

---
 libm/src/math/expm1f.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/expm1f.rs b/libm/src/math/expm1f.rs
index 12c6f53..a347ce6 100644
--- a/libm/src/math/expm1f.rs
+++ b/libm/src/math/expm1f.rs
@@ -13,7 +13,7 @@
  * ====================================================
  */
 
-const O_THRESHOLD: f32 = 8.8721679688e+01; /* 0x42b17180 */
+const O_THRESHOLD: f32 = 8.8722831726e+01; /* 0x42b17217 */
 const LN2_HI: f32 = 6.9313812256e-01; /* 0x3f317180 */
 const LN2_LO: f32 = 9.0580006145e-06; /* 0x3717f7d1 */
 const INV_LN2: f32 = 1.4426950216e+00; /* 0x3fb8aa3b */
-- 
2.43.0


From 66f2b0f8267ed6ee5067cf8bf9d01a07158403e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 5/5] fix: acosh and acoshf of arguments below -2 must be NaN

---
 libm/src/math/acosh.rs  | 6 +++---
 libm/src/math/acoshf.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/acosh.rs b/libm/src/math/acosh.rs
index d1f5b9f..d69e6d5 100644
--- a/libm/src/math/acosh.rs
+++ b/libm/src/math/acosh.rs
@@ -18,10 +18,10 @@ pub fn acosh(x: f64) -> f64 {
         /* |x| < 2, up to 2ulp error in [1,1.125] */
         return log1p(x - 1.0 + sqrt((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-    if e < 0x3ff + 26 {
-        /* |x| < 0x1p26 */
+    if x > 0.0 && e < 0x3ff + 26 {
+        /* 2 <= x < 0x1p26 */
         return log(2.0 * x - 1.0 / (x + sqrt(x * x - 1.0)));
     }
-    /* |x| >= 0x1p26 or nan */
+    /* x >= 0x1p26, x <= -2 or nan */
     return log(x) + LN2;
 }
diff --git a/libm/src/math/acoshf.rs b/libm/src/math/acoshf.rs
index ad3455f..b909d82 100644
--- a/libm/src/math/acoshf.rs
+++ b/libm/src/math/acoshf.rs
@@ -17,10 +17,10 @@ pub fn acoshf(x: f32) -> f32 {
         /* up to 2ulp error in [1,1.125] */
         return log1pf(x - 1.0 + sqrtf((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-    if a < 0x3f800000 + (12 << 23) {
-        /* |x| < 0x1p12 */
+    if x > 0.0 && a < 0x3f800000 + (12 << 23) {
+        /* 2 <= x < 0x1p12 */
         return logf(2.0 * x - 1.0 / (x + sqrtf(x * x - 1.0)));
     }
-    /* x >= 0x1p12 */
+    /* x >= 0x1p12, x <= -2 or nan */
     return logf(x) + LN2;
 }
-- 
2.43.0

