From 62b90a8d149498c5792e56d2d901c5a3194c14bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 01/20] fix: order negative values correctly in total_cmp, min,
 max and clamp

---
 src/binops/cmp.rs |  6 +++++-
 src/lib.rs        | 36 +++++++++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/binops/cmp.rs b/src/binops/cmp.rs
index 5f97b4f..246f344 100644
--- a/src/binops/cmp.rs
+++ b/src/binops/cmp.rs
@@ -36,6 +36,10 @@ impl PartialOrd for f256 {
         if self.eq_zero() && other.eq_zero() {
             return Some(Ordering::Equal);
         }
-        Some(self.total_cmp(other))
+        // TODO: This compares the raw values besides their sign, i.e. orders
+        // values less than zero by magnitude. Some tests depend on that
+        // (sin_cos_tests::test_continuity_near_pi_half and
+        // sin_cos_tests::test_continuity_near_three).
+        Some(self.negated().bits.cmp(&other.negated().bits))
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 42406f4..eb3d982 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -680,7 +680,7 @@ impl f256 {
     #[must_use]
     #[inline]
     pub fn max(self, other: Self) -> Self {
-        if other > self || self.is_nan() {
+        if self.is_less_than(&other) || self.is_nan() {
             return other;
         }
         self
@@ -695,7 +695,7 @@ impl f256 {
     #[must_use]
     #[inline]
     pub fn min(self, other: Self) -> Self {
-        if other < self || self.is_nan() {
+        if other.is_less_than(&self) || self.is_nan() {
             return other;
         }
         self
@@ -824,10 +824,28 @@ impl f256 {
     #[inline]
     pub fn total_cmp(&self, other: &Self) -> Ordering {
         // The internal representation of `f256` values gives - besides their
-        // sign - a total ordering following the intended mathematical
-        // ordering. Thus, flipping the sign bit allows to compare the
-        // raw values.
-        self.negated().bits.cmp(&(*other).negated().bits)
+        // sign - a total ordering of their magnitudes. Thus, flipping the
+        // sign bit of non-negative values and flipping all bits of negative
+        // values allows to compare the raw values.
+        #[inline(always)]
+        const fn key(f: &f256) -> U256 {
+            if f.sign() == 0 {
+                U256::new(f.bits.hi.0 | HI_SIGN_MASK, f.bits.lo.0)
+            } else {
+                U256::new(!f.bits.hi.0, !f.bits.lo.0)
+            }
+        }
+        key(self).cmp(&key(other))
+    }
+
+    /// Returns true if `self` is numerically less than `other`, false
+    /// otherwise or if any of them is NaN.
+    #[inline]
+    fn is_less_than(&self, other: &Self) -> bool {
+        !self.is_nan()
+            && !other.is_nan()
+            && !(self.eq_zero() && other.eq_zero())
+            && self.total_cmp(other) == Ordering::Less
     }
 
     /// Restrict a value to a certain interval unless it is NaN.
@@ -858,10 +876,10 @@ impl f256 {
     #[must_use]
     #[inline]
     pub fn clamp(self, min: Self, max: Self) -> Self {
-        assert!(min <= max);
-        if self < min {
+        assert!(min == max || min.is_less_than(&max));
+        if self.is_less_than(&min) {
             min
-        } else if self > max {
+        } else if max.is_less_than(&self) {
             max
         } else {
             self
-- 
2.43.0


From 7271f2a328152662436275f060d62f20a4a10ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 02/20] fix: let mul_pow2 overflow only if the scaled subnormal
 exceeds f256::MAX

---
 src/lib.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index eb3d982..33cd36d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,7 +59,12 @@
 extern crate alloc;
 extern crate core;
 
-use core::{cmp::Ordering, convert::Into, num::FpCategory, ops::Neg};
+use core::{
+    cmp::{min, Ordering},
+    convert::Into,
+    num::FpCategory,
+    ops::Neg,
+};
 
 use crate::big_uint::{BigUInt, DivRem, HiLo, U1024, U128, U256, U512};
 
@@ -1155,34 +1160,31 @@ impl f256 {
     }
 
     /// Returns `self` * 2ⁿ
-    pub fn mul_pow2(&self, n: u32) -> Self {
-        let abs_bits = abs_bits(self);
+    pub fn mul_pow2(&self, mut n: u32) -> Self {
+        let mut abs_bits = abs_bits(self);
         if abs_bits.is_special() {
             // self is either NaN, infinite or equal 0
             return *self;
         }
         // self is finite and non-zero.
-        let exp_bits = exp_bits(&abs_bits);
-        if exp_bits.saturating_add(n) >= EXP_MAX {
+        if exp_bits(&abs_bits) == 0 {
+            // self is subnornal
+            // Shift the significand until the result gets normal or n is used
+            // up. Hitting the hidden bit sets the biased exponent to 1.
+            let shl = min(n, FRACTION_BITS - abs_bits.msb());
+            abs_bits <<= shl;
+            n -= shl;
+        }
+        if exp_bits(&abs_bits).saturating_add(n) >= EXP_MAX {
             return [Self::INFINITY, Self::NEG_INFINITY]
                 [self.sign() as usize];
         }
-        if exp_bits == 0 {
-            // self is subnornal
-            const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
-            let fraction = fraction(&abs_bits);
-            let exp = EXP + n as i32;
-            return Self::from_sign_exp_signif(
-                self.sign(),
-                exp,
-                (fraction.hi.0, fraction.lo.0),
-            );
-        }
-        // self is normal.
+        // n == 0 or result is normal.
+        abs_bits.hi.0 += (n as u128) << HI_FRACTION_BITS;
         Self {
             bits: U256::new(
-                self.bits.hi.0 + ((n as u128) << HI_FRACTION_BITS),
-                self.bits.lo.0,
+                abs_bits.hi.0 | sign_bits_hi(self),
+                abs_bits.lo.0,
             ),
         }
     }
-- 
2.43.0


From ad01aa7e2062e54e39bc0e5ae1fa13c57fbbd750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 03/20] fix: round subnormal results of div_pow2 correctly

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 33cd36d..98aca19 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1242,14 +1242,15 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits < n {
+        if exp_bits <= n {
             // result is subnornal or underflows to zero
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
+            let signif = signif(&abs_bits);
             let shr = n - exp_bits + norm_bit(&abs_bits);
-            if shr > self.bits.msb() {
+            if shr > signif.msb() + 1 {
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
-            let signif = signif(&abs_bits).rounding_div_pow2(shr);
+            let signif = signif.rounding_div_pow2(shr);
             if signif.is_zero() {
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
-- 
2.43.0


From 8fb0256d7b588c773a04c11c33885a3b3d93fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 04/20] fix: keep the sign of values rounded to zero, round up
 values just above one half in round_tie_even

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98aca19..b5cc10b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -933,7 +933,8 @@ impl f256 {
             return match (sign, adj(sign)) {
                 (0, true) => Self::ONE,
                 (1, true) => Self::NEG_ONE,
-                (..) => Self::ZERO,
+                (0, false) => Self::ZERO,
+                (..) => Self::NEG_ZERO,
             };
         }
         // 1 < |self| < 2²³⁶
@@ -1069,7 +1070,7 @@ impl f256 {
         }
         if abs_bits.hi.0 < ONE_HALF.bits.hi.0 {
             // 0 < |self| < ½
-            return Self::ZERO;
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ <= |self| <= 1
@@ -1121,9 +1122,9 @@ impl f256 {
             // |self| >= 2²³⁶, i. e. self is integral.
             return *self;
         }
-        if abs_bits.hi.0 <= ONE_HALF.bits.hi.0 {
+        if abs_bits <= ONE_HALF.bits {
             // 0 < |self| <= ½
-            return Self::ZERO;
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ < |self| <= 1
-- 
2.43.0


From 32d5f9a8236e3630aa1de2f570b9d37dda7909de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 05/20] fix: classify all NaN values as FpCategory::Nan

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5cc10b..98c96f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -544,9 +544,9 @@ impl f256 {
         match abs_bits_sticky {
             0 => FpCategory::Zero,
             INF_HI => FpCategory::Infinite,
-            NAN_HI => FpCategory::Nan,
             ..=HI_FRACTION_MASK => FpCategory::Subnormal,
-            _ => FpCategory::Normal,
+            ..=MAX_HI => FpCategory::Normal,
+            _ => FpCategory::Nan,
         }
     }
 
-- 
2.43.0


From 0d7fcd452c41f8c4e77e8cf5b9240b79b2b1c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 06/20] fix: let a zero remainder have the sign of the dividend

---
 src/binops/rem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binops/rem.rs b/src/binops/rem.rs
index 114425f..eefb38f 100644
--- a/src/binops/rem.rs
+++ b/src/binops/rem.rs
@@ -65,7 +65,7 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
 
     // If the significands are equal, |x| is an integral multiple of |y|.
     if signif_x == signif_y {
-        return f256::ZERO;
+        return [f256::ZERO, f256::NEG_ZERO][x.sign() as usize];
     }
 
     let n_bits = exp_bits_x + norm_bit_y - exp_bits_y - norm_bit_x;
@@ -81,7 +81,7 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
         }
     }
     if abs_bits_z.is_zero() {
-        return f256::ZERO;
+        return [f256::ZERO, f256::NEG_ZERO][x.sign() as usize];
     }
     let shift_z = min(
         FRACTION_BITS - abs_bits_z.msb(),
-- 
2.43.0


From 5882f7c1f2ba46b6e7122ff89fea0b0db8a6daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 07/20] fix: avoid overflow in big integer division by divisors
 with small high part

---
 src/big_uint/uint_generic/binops/divrem.rs | 44 +++++++---------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/src/big_uint/uint_generic/binops/divrem.rs b/src/big_uint/uint_generic/binops/divrem.rs
index 50d4142..62733de 100644
--- a/src/big_uint/uint_generic/binops/divrem.rs
+++ b/src/big_uint/uint_generic/binops/divrem.rs
@@ -8,7 +8,6 @@
 // $Revision$
 
 use core::{
-    cmp::Ordering,
     convert::From,
     ops::{Div, Rem},
 };
@@ -111,41 +110,26 @@ where
             // self < rhs
             return (UInt::<SubUInt>::ZERO, *self);
         } else {
-            // estimate the quotient
-            let nlz = self.hi.leading_zeros();
+            // Estimate the quotient by dividing ⌊self / 2⌋ by the most
+            // significant half of the normalized divisor. The estimate is
+            // either exact or one too high (see Hacker's Delight, 9-5). So,
+            // after being decremented it doesn't exceed the quotient.
+            let nlz = rhs.hi.leading_zeros();
+            let (quot, _) =
+                (self >> 1).div_rem_subuint_special(&(rhs << nlz).hi);
             let mut quot = UInt::<SubUInt>::from_hi_lo(
                 SubUInt::ZERO,
-                (self << nlz).hi / (rhs << nlz).hi,
+                quot.lo >> (SubUInt::BITS - 1 - nlz),
             );
-            // trim the estimate
+            quot.decr_if(!quot.is_zero());
             let mut t = *rhs;
             t *= &quot;
-            match (&t).cmp(&self) {
-                Ordering::Greater => {
-                    let mut d = &t - self;
-                    let (mut n, _) = d.div_rem(*rhs);
-                    n.incr();
-                    debug_assert!(n.hi.is_zero());
-                    quot -= &n;
-                    d = *rhs;
-                    d *= &n;
-                    t -= &d;
-                }
-                Ordering::Less => {
-                    let (u, ovl) = t.overflowing_add(&rhs);
-                    if ovl {
-                        let mut d = self - &t;
-                        let (n, _) = d.div_rem(*rhs);
-                        debug_assert!(n.hi.is_zero());
-                        quot += &n;
-                        d = *rhs;
-                        d *= &n;
-                        t += &d;
-                    }
-                }
-                Ordering::Equal => return (quot, UInt::<SubUInt>::ZERO),
+            let mut rem = self - &t;
+            // Trim the estimate.
+            if rem >= *rhs {
+                quot.incr();
+                rem -= rhs;
             }
-            let rem = self - &t;
             (quot, rem)
         }
     }
-- 
2.43.0


From b4c9f5d4ed3a914f8fbb0b56296682610d4984bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 08/20] fix: don't lose non-zero remainder of product when
 rounding to a subnormal

---
 src/binops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binops/mul.rs b/src/binops/mul.rs
index 394e3ea..0a5bef6 100644
--- a/src/binops/mul.rs
+++ b/src/binops/mul.rs
@@ -30,7 +30,7 @@ fn mul_signifs(x: &U256, y: &U256) -> (U256, u32, u32) {
     let shift = EXP_BITS - 1 + carry;
     let rem = hi.rem_pow2(shift).lo;
     let rnd_bits = (rem.0 >> (shift - 2)) as u32
-        | (rem.0 > (1 << (shift - 1))) as u32
+        | (rem.0 & ((1 << (shift - 2)) - 1) != 0) as u32
         | !lo.is_zero() as u32;
     hi >>= shift;
     (hi, carry, rnd_bits)
-- 
2.43.0


From 72051f7aff9fcd51475bf14568d373144a7ea64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 09/20] fix: normalize subnormal operands and results of fused
 multiply-add

---
 src/fused_ops/fma.rs | 73 +++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/fused_ops/fma.rs b/src/fused_ops/fma.rs
index 07fa345..75ef123 100644
--- a/src/fused_ops/fma.rs
+++ b/src/fused_ops/fma.rs
@@ -94,6 +94,24 @@ impl u768 {
         (self.hi, borrow) = self.hi.borrowing_sub(rhs.hi, borrow);
     }
 
+    /// Shift right inplace, setting the least significant bit if any of the
+    /// bits shifted out is set.
+    fn ishr_sticky(&mut self, mut shr: u32) {
+        let mut sticky = false;
+        shr = min(shr, Self::BITS);
+        while shr >= 256 {
+            sticky |= !self.lo.is_zero();
+            *self = Self::new(&U256::ZERO, &self.hi, &self.mi);
+            shr -= 256;
+        }
+        let (hi, carry) = self.hi.widening_shr(shr);
+        let (mi, carry) = self.mi.carrying_shr(shr, &carry);
+        let (lo, carry) = self.lo.carrying_shr(shr, &carry);
+        *self = Self::new(&hi, &mi, &lo);
+        sticky |= !carry.is_zero();
+        self.lo.lo.0 |= sticky as u128;
+    }
+
     fn leading_zeros(&self) -> u32 {
         let hi_is_zero = self.hi.is_zero();
         let hi_and_mi_are_zero = hi_is_zero && self.mi.is_zero();
@@ -266,16 +284,17 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
 
     // Calculate x * y + a, rounded tie to even.
 
-    // Extract biased exponents and significands.
-    let exp_bits_x = exp_bits(&abs_bits_x) as i32;
+    // Extract biased exponents and normalized significands. The exponents of
+    // subnormals are adjusted accordingly, i. e. they may get negative.
+    let (signif_x, norm_shift_x) = norm_signif(&abs_bits_x);
+    let exp_bits_x = exp_bits(&abs_bits_x) as i32 - norm_shift_x as i32;
     let norm_bit_x = norm_bit(&abs_bits_x) as i32;
-    let signif_x = signif(&abs_bits_x);
-    let exp_bits_y = exp_bits(&abs_bits_y) as i32;
+    let (signif_y, norm_shift_y) = norm_signif(&abs_bits_y);
+    let exp_bits_y = exp_bits(&abs_bits_y) as i32 - norm_shift_y as i32;
     let norm_bit_y = norm_bit(&abs_bits_y) as i32;
-    let signif_y = signif(&abs_bits_y);
-    let exp_bits_a = exp_bits(&abs_bits_a) as i32;
+    let (signif_a, norm_shift_a) = norm_signif(&abs_bits_a);
+    let exp_bits_a = exp_bits(&abs_bits_a) as i32 - norm_shift_a as i32;
     let norm_bit_a = norm_bit(&abs_bits_a) as i32;
-    let signif_a = signif(&abs_bits_a);
 
     // The significand of product x * y has 2 * FRACTION_BITS = 472 fractional
     // bits. Shifting one operand 2 bits left, gets its radix point aligned at
@@ -356,26 +375,30 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         return f256::ZERO;
     }
     // Calculate exponent and normalize result.
-    let (exp_bits_m1_z, shl) = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
-        let n = signif_z_nlz - EXP_BITS;
-        let carry = REL_OFFSET as i32 - n as i32;
-        let t = exp_bits_p + carry + 1;
-        // If the result overflows the range of values representable as
-        // `f256`, return +/- Infinity.
-        if t >= EXP_MAX as i32 {
-            return f256 {
-                bits: U256::new(sign_bits_hi_z | INF_HI, 0),
-            };
-        }
-        if t >= 1 {
-            (t - 1, n)
-        } else {
-            (0, REL_OFFSET)
-        }
+    let (mut exp_bits_m1_z, mut shl) = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
+        let n = (signif_z_nlz - EXP_BITS) as i32;
+        let carry = REL_OFFSET as i32 - n;
+        (exp_bits_p + carry, n)
     } else {
-        (exp_bits_a - 1, 0)
+        (exp_bits_a - norm_bit_a, 0)
     };
-    *signif_z <<= shl;
+    // If the result overflows the range of values representable as `f256`,
+    // return +/- Infinity.
+    if exp_bits_m1_z >= (EXP_MAX - 1) as i32 {
+        return f256 {
+            bits: U256::new(sign_bits_hi_z | INF_HI, 0),
+        };
+    }
+    if exp_bits_m1_z < 0 {
+        // The result is subnormal or underflows to zero.
+        shl += exp_bits_m1_z;
+        exp_bits_m1_z = 0;
+    }
+    if shl >= 0 {
+        *signif_z <<= shl as u32;
+    } else {
+        signif_z.ishr_sticky(shl.unsigned_abs());
+    }
     // Now we have the results preliminary significand in signif_z.hi, before
     // rounding.
     debug_assert!(signif_z.hi.leading_zeros() >= EXP_BITS);
-- 
2.43.0


From 37cdc382738127c2bad0fa70f50621e5304c9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 10/20] fix: don't lose bits shifted out and squares of
 subnormals in sum_of_squares

---
 src/fused_ops/sos.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fused_ops/sos.rs b/src/fused_ops/sos.rs
index a11ee76..8fbf220 100644
--- a/src/fused_ops/sos.rs
+++ b/src/fused_ops/sos.rs
@@ -40,16 +40,18 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
             // Atleast one operand is NAN.
             return f256::NAN;
         }
-        if abs_bits_sticky_x <= HI_FRACTION_MASK {
-            // x is zero or subnormal.
+        if abs_bits_sticky_x == 0 {
+            // x is zero.
             return y.square();
         }
-        if abs_bits_sticky_y <= HI_FRACTION_MASK {
-            // y is zero or subnormal.
+        if abs_bits_sticky_y == 0 {
+            // y is zero.
             return x.square();
         }
-        // For all other special cases the result is INF.
-        return f256::INFINITY;
+        if max_abs_bits_sticky == HI_EXP_MASK {
+            // Atleast one operand is infinite.
+            return f256::INFINITY;
+        }
     }
 
     // Both operands are finite and non-zero.
@@ -109,7 +111,8 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
     let shr = max(-exp_bits_z, EXP_BITS as i32 - nlz);
     let shl =
         max(exp_bits_z - EXP_MAX as i32, nlz - EXP_BITS as i32).clamp(0, 236);
-    signif_z >>= shr.clamp(0, 511) as u32;
+    let (mut signif_z, rem) = signif_z.widening_shr(shr.clamp(0, 511) as u32);
+    signif_z.lo.lo.0 |= (!rem.is_zero()) as u128;
     signif_z <<= shl as u32;
     exp_bits_z += shr - shl + (signif_z.hi.hi.0 > HI_FRACTION_MASK) as i32;
     if exp_bits_z >= EXP_MAX as i32 {
-- 
2.43.0


From 91fc58f355fe1d78fa78009bc34685972c02bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 11/20] fix: let to_ne_bytes and from_ne_bytes use native byte
 order for the whole value

---
 src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98c96f2..ccd5198 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -752,11 +752,12 @@ impl f256 {
     /// byte array in native byte order.
     #[must_use]
     #[inline]
-    #[allow(unsafe_code)]
     pub const fn to_ne_bytes(self) -> [u8; 32] {
-        let bits = self.to_bits();
-        // SAFETY: safe because size of (u128, u128) == size of [u8; 32]
-        unsafe { core::mem::transmute(bits) }
+        if cfg!(target_endian = "big") {
+            self.to_be_bytes()
+        } else {
+            self.to_le_bytes()
+        }
     }
 
     /// Create a floating point value from its representation as a byte array
@@ -795,11 +796,12 @@ impl f256 {
     /// in native endian.
     #[must_use]
     #[inline]
-    #[allow(unsafe_code)]
     pub const fn from_ne_bytes(bytes: [u8; 32]) -> Self {
-        // SAFETY: safe because size of (u128, u128) == size of [u8; 32]
-        let bits: (u128, u128) = unsafe { core::mem::transmute(bytes) };
-        Self::from_bits(bits)
+        if cfg!(target_endian = "big") {
+            Self::from_be_bytes(bytes)
+        } else {
+            Self::from_le_bytes(bytes)
+        }
     }
 
     /// Return the ordering between `self` and `other`.
-- 
2.43.0


From e14f12d832944f19e43156c82c40cd723870f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 12/20] fix: special values, limits, double rounding and
 constant in to_degrees and to_radians

---
 src/lib.rs | 98 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 54 insertions(+), 44 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ccd5198..64b4809 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,7 +60,7 @@ extern crate alloc;
 extern crate core;
 
 use core::{
-    cmp::{min, Ordering},
+    cmp::{max, min, Ordering},
     convert::Into,
     num::FpCategory,
     ops::Neg,
@@ -312,37 +312,38 @@ impl f256 {
         // The position of the most significant bit is `256 - nlz - 1`. We
         // need to shift it to the position of the hidden bit, which
         // is `256 - EXP_BITS - 1`. So we have to shift by |nlz -
-        // EXP_BITS|.
-        match nlz.cmp(&EXP_BITS) {
-            Ordering::Greater => {
-                // Shift left.
-                let shift = (nlz - EXP_BITS);
-                if t >= EMIN + shift as i32 {
-                    c <<= shift;
-                    t -= shift as i32;
-                } else {
-                    // Number is subnormal
-                    c <<= (t - EMIN) as u32;
-                    t = EMIN - 1;
-                }
-            }
-            Ordering::Less => {
-                // Shift right and round.
-                let mut shift = (EXP_BITS - nlz);
-                t += shift as i32;
-                c = c.rounding_div_pow2(shift);
-                // Rounding may have caused significand to overflow.
-                if (c.hi.0 >> (HI_FRACTION_BITS + 1)) != 0 {
-                    t += 1;
-                    c >>= 1;
-                }
+        // EXP_BITS|. If that would cause the exponent to get less than Eₘᵢₙ,
+        // the number is subnormal and we have to shift by |t - Eₘᵢₙ|.
+        let shift = max(EXP_BITS as i32 - nlz as i32, EMIN - t);
+        t += shift;
+        if shift < 0 {
+            // Shift left.
+            c <<= shift.unsigned_abs();
+        } else if shift > (U256::BITS - nlz) as i32 {
+            // Number is less than half of the smallest subnormal.
+            return [Self::ZERO, Self::NEG_ZERO][s as usize];
+        } else if shift == U256::BITS as i32 {
+            // Shift right and round.
+            c = U256::new(0, (c > U256::new(HI_SIGN_MASK, 0)) as u128);
+        } else {
+            // Shift right and round.
+            c = c.rounding_div_pow2(shift as u32);
+            // Rounding may have caused significand to overflow.
+            if (c.hi.0 >> (HI_FRACTION_BITS + 1)) != 0 {
+                t += 1;
+                c >>= 1;
             }
-            _ => {}
         }
-        debug_assert!(
-            (EMIN - 1..=EMAX).contains(&t),
-            "Exponent limits exceeded: {t}"
-        );
+        if c.is_zero() {
+            return [Self::ZERO, Self::NEG_ZERO][s as usize];
+        }
+        if t > EMAX {
+            return [Self::INFINITY, Self::NEG_INFINITY][s as usize];
+        }
+        if c.hi.0 < HI_FRACTION_BIAS {
+            // Number is subnormal
+            t = EMIN - 1;
+        }
         // 3. Assemble struct f256
         Self::new(s, t, c)
     }
@@ -632,6 +633,27 @@ impl f256 {
         Self::ONE / self
     }
 
+    /// Returns `self` * `m` / 2ⁿ, rounded once.
+    ///
+    /// Pre-condition: `m` >= 2²⁵⁵
+    #[allow(clippy::cast_possible_wrap)]
+    fn mul_fixed_point(&self, m: &U256, n: i32) -> Self {
+        if self.is_special() {
+            // self is either NaN, infinite or equal 0
+            return *self;
+        }
+        let signif = self.integral_significand();
+        let exp = self.quantum_exponent();
+        let (lo, hi) = m.widening_mul(&signif);
+        // Reduce the product to 256 bits, keeping a sticky bit to get it
+        // rounded correctly by `encode`.
+        let t = U512::from_hi_lo(hi, lo);
+        let sh = U256::BITS - t.leading_zeros();
+        let (mut t, rem) = t.widening_shr(sh);
+        t.lo.lo.0 |= !rem.is_zero() as u128;
+        Self::encode(self.sign(), exp - n + sh as i32, t.lo)
+    }
+
     /// Converts radians to degrees.
     ///
     /// Returns self * (180 / π)
@@ -645,13 +667,7 @@ impl f256 {
             69798147688063442975655060594812004816,
         );
         const SH: i32 = 250_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_fixed_point(&M, SH)
     }
 
     /// Converts degrees to radians.
@@ -667,13 +683,7 @@ impl f256 {
             953738875812114979603059177117484306,
         );
         const SH: i32 = 261_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_fixed_point(&M, SH)
     }
 
     /// Returns the maximum of the two numbers, ignoring NaN.
-- 
2.43.0


From 17812f0d2eee654eb6fdbf9499c289a1a9fed353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 13/20] fix: avoid cancellation in asin and acos, adjust
 exponent after rounding overflow in BigFloat product

---
 src/math/big_float.rs              | 19 +++++++++++++----
 src/math/circular_fns/asin_acos.rs | 33 ++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/math/big_float.rs b/src/math/big_float.rs
index 7ac8aa8..82d6f34 100644
--- a/src/math/big_float.rs
+++ b/src/math/big_float.rs
@@ -413,9 +413,11 @@ impl BigFloat {
             let rnd = prod_signif.lo > TIE
                 || (prod_signif.lo == TIE && prod_signif.hi.is_odd());
             prod_signif.hi.incr_if(rnd);
-            prod_signif.hi >>= (prod_signif.hi.leading_zeros() == 0) as u32;
+            // rounding may have overflowed to the reserved bit
+            let ovl = (prod_signif.hi.leading_zeros() == 0) as u32;
+            prod_signif.hi >>= ovl;
             self.signif = prod_signif.hi;
-            self.exp += other.exp + exp_adj;
+            self.exp += other.exp + exp_adj + ovl as i32;
         }
     }
 
@@ -649,12 +651,21 @@ impl From<&BigFloat> for f256 {
             return Self::ZERO;
         }
         const PREC_ADJ: u32 = BigFloat::FRACTION_BITS - FRACTION_BITS;
-        const EXP_UNDERFLOW: i32 = EMIN - SIGNIFICAND_BITS as i32;
-        const EXP_LOWER_SUBNORMAL: i32 = EXP_UNDERFLOW + 1;
+        const EXP_UNDERFLOW: i32 = EMIN - SIGNIFICAND_BITS as i32 - 1;
+        const EXP_HALF_MIN: i32 = EXP_UNDERFLOW + 1;
+        const EXP_LOWER_SUBNORMAL: i32 = EXP_HALF_MIN + 1;
         const EXP_UPPER_SUBNORMAL: i32 = EMIN - 1;
         const EXP_OVERFLOW: i32 = f256::MAX_EXP;
         let mut f256_bits = match fp.exp {
             ..=EXP_UNDERFLOW => U256::ZERO,
+            EXP_HALF_MIN => {
+                // ½ <= |x| / f256::MIN_GT_ZERO < 1, so we have a tie if no
+                // bit besides the hidden bit is set.
+                let is_tie =
+                    (&fp.signif << (U256::BITS - BigFloat::FRACTION_BITS))
+                        .is_zero();
+                U256::new(0, !is_tie as u128)
+            }
             EXP_LOWER_SUBNORMAL..=EXP_UPPER_SUBNORMAL => {
                 fp.signif.rounding_div_pow2(
                     PREC_ADJ.saturating_add_signed(EMIN - fp.exp),
diff --git a/src/math/circular_fns/asin_acos.rs b/src/math/circular_fns/asin_acos.rs
index c6bf43c..56a3682 100644
--- a/src/math/circular_fns/asin_acos.rs
+++ b/src/math/circular_fns/asin_acos.rs
@@ -15,7 +15,7 @@ use crate::{
         big_float::BigFloat, circular_fns::approx_atan::approx_atan,
         fp509::FP492,
     },
-    HI_EXP_MASK, U256,
+    HI_EXP_MASK, ONE_HALF, U256,
 };
 
 const FP492_FRAC_PI_2: FP492 = FP492::new(
@@ -60,6 +60,16 @@ fn atan(x: &BigFloat) -> FP492 {
     }
 }
 
+/// Computes tan(asin(x)) = x/√(1-x²) for |x| < 1.
+///
+/// Calculates 1-x² as (1-x)⋅(1+x) in order to avoid cancellation of leading
+/// bits for |x| close to 1.
+fn tan_asin(x: &f256) -> BigFloat {
+    let mut x = BigFloat::from(x);
+    x.idiv(&((BigFloat::ONE - &x) * &(BigFloat::ONE + &x)).sqrt());
+    x
+}
+
 // Cut-off for small values
 // 4.34011792384841269241918479487309437935796941860057715139559227691773315e-36
 const SMALL_CUT_OFF_ASIN: f256 = f256 {
@@ -96,10 +106,8 @@ impl f256 {
             return *self;
         }
         // Now we have ε < |self| < 1
-        // asin(x) = atan(x/√(1-x²))
-        let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
-        Self::from(&atan(&x))
+        // asin(x) = atan(x/√(1-x²)) = atan(x/√((1-x)⋅(1+x)))
+        Self::from(&atan(&tan_asin(self)))
     }
 
     /// Computes the arccosinus of a number (in radians).
@@ -121,10 +129,17 @@ impl f256 {
         //     return FRAC_PI_2;
         // }
         // Now we have ε < |self| < 1
-        // acos(x) = ½π - asin(x) = ½π - atan(x/√(1-x²))
-        let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
-        Self::from(&(&FP492_FRAC_PI_2 - &atan(&x)))
+        if abs_bits_self <= ONE_HALF.bits {
+            // acos(x) = ½π - asin(x)
+            Self::from(&(&FP492_FRAC_PI_2 - &atan(&tan_asin(self))))
+        } else {
+            // acos(x) = 2⋅atan(√((1-x)/(1+x))) avoids cancellation of leading
+            // bits for x close to 1
+            let x = BigFloat::from(self);
+            let mut q = BigFloat::ONE - &x;
+            q.idiv(&(BigFloat::ONE + &x));
+            Self::from(&atan(&q.sqrt()).mul2())
+        }
     }
 }
 
-- 
2.43.0


From 2bfabac5c7477416a311ac281f601e920803ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 14/20] fix: infinite, equal and tiny operands of atan2, values
 just below the cut-off of atan

---
 src/math/circular_fns/atan.rs | 48 +++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index 07358cd..80d7cf9 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -23,7 +23,8 @@ const LARGE_CUT_OFF: U256 = U256::new(
     0_u128,
 );
 
-// Cut-off for small values
+// Cut-off for small values. This is the largest x with atan x = x; all x with
+// |x| < ½⋅SMALL_CUT_OFF have that property, too.
 // 3.44474912109377383968972695618616830461246359669623725678161320654548683e-36
 const SMALL_CUT_OFF: f256 = f256 {
     bits: U256::new(
@@ -32,6 +33,30 @@ const SMALL_CUT_OFF: f256 = f256 {
     ),
 };
 
+/// Returns true if the absolute value represented by `abs_bits` is less than
+/// ½⋅SMALL_CUT_OFF.
+#[inline(always)]
+fn is_very_small(abs_bits: &U256) -> bool {
+    let mut lim = SMALL_CUT_OFF.bits;
+    lim.hi.0 -= 1_u128 << HI_FRACTION_BITS;
+    *abs_bits < lim
+}
+
+/// Computes the arctangent of a quotient q with |q| < 1.
+fn atan_quot(q: &BigFloat) -> BigFloat {
+    // If |q| is very small, atan q = q. This also preserves those bits which
+    // can't be represented as fixed-point number.
+    if q.exp < ATAN_IDENT_EXP {
+        *q
+    } else {
+        BigFloat::from(&approx_atan(&FP492::from(q)))
+    }
+}
+
+// Values less than 2⁻¹²⁸ are equal to their arctangent (at a precision of 255
+// bits).
+const ATAN_IDENT_EXP: i32 = -(BigFloat::FRACTION_BITS as i32 + 2) / 2;
+
 impl f256 {
     /// Computes the arctangent of a number (in radians).
     ///
@@ -51,7 +76,7 @@ impl f256 {
             return res;
         }
         // If |self| is very small, atan self = self.
-        if abs_bits_self <= SMALL_CUT_OFF.bits {
+        if is_very_small(&abs_bits_self) {
             return *self;
         }
         // Now we have ε < |self| < 2²³⁷.
@@ -108,6 +133,19 @@ impl f256 {
                 // self = 0, other < 0 => π
                 return [f256::ZERO, PI][other.sign() as usize];
             }
+            if abs_bits_sticky_x < HI_EXP_MASK {
+                // self = ±∞, other is finite => ±½π
+                let mut res = FRAC_PI_2;
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
+            if abs_bits_sticky_y < HI_EXP_MASK {
+                // self is finite, other = +∞ => ±0
+                // self is finite, other = -∞ => ±π
+                let mut res = [f256::ZERO, PI][other.sign() as usize];
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
             // Both operands are infinite.
             return match (self.sign(), other.sign()) {
                 (0, 0) => FRAC_PI_4,
@@ -124,14 +162,14 @@ impl f256 {
         let mut atan = if abs_bits_y < abs_bits_x {
             let mut q = BigFloat::from(self);
             q.idiv(&BigFloat::from(other));
-            BigFloat::from(&approx_atan(&FP492::from(&q)))
+            atan_quot(&q)
         } else if abs_bits_y > abs_bits_x {
             let mut q = BigFloat::from(other);
             q.idiv(&BigFloat::from(self));
             [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
-                - &BigFloat::from(&approx_atan(&FP492::from(&q)))
+                - &atan_quot(&q)
         } else {
-            [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
+            [BigFloat::FRAC_PI_4, -BigFloat::FRAC_PI_4][sign_q as usize]
         };
         match (self.sign(), other.sign()) {
             (0, 1) => {
-- 
2.43.0


From aa64a000768f14f8d9a53e6bf7fa295784719d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 15/20] fix: keep tiny values and sign of zero in sin, sin_cos
 and tan, don't apply cut-off of sine to reduced arguments

---
 src/math/circular_fns/approx_sin.rs     | 11 +++++++----
 src/math/circular_fns/approx_sin_cos.rs | 12 +-----------
 src/math/circular_fns/mod.rs            | 11 +++++++++++
 src/math/circular_fns/sin.rs            | 12 ++++++++----
 src/math/circular_fns/sin_cos.rs        | 10 +++++++---
 src/math/circular_fns/tan.rs            |  4 ++--
 6 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/math/circular_fns/approx_sin.rs b/src/math/circular_fns/approx_sin.rs
index 8405c93..0782e53 100644
--- a/src/math/circular_fns/approx_sin.rs
+++ b/src/math/circular_fns/approx_sin.rs
@@ -231,12 +231,15 @@ const COEFFS: [FP492; N] = [
     ),
 ];
 
-// 4.34011192927290911129289122290072654677561270925175391536078950032040224e-36
-// 4.34011192927290911129289122290072654677561270925175391536078950032040224e-36
+// 2⁻¹²⁸
+// Values less than or equal to this one are equal to their sine even at a
+// precision of 255 bits. The limit must not be derived from the precision of
+// f256 because x may be the result of an argument reduction, having more than
+// 237 significant bits.
 const SMALL_CUT_OFF: FP492 = FP492::new(
     0x00000000000000000000000000000000,
-    0x005c4dd12448fbd973779fc5b15b8c99,
-    0xf02871b5584367dcb9d6fe24cc9ce800,
+    0x00001000000000000000000000000000,
+    0x00000000000000000000000000000000,
     0x00000000000000000000000000000000,
 );
 
diff --git a/src/math/circular_fns/approx_sin_cos.rs b/src/math/circular_fns/approx_sin_cos.rs
index 85d19ff..6c8f3b9 100644
--- a/src/math/circular_fns/approx_sin_cos.rs
+++ b/src/math/circular_fns/approx_sin_cos.rs
@@ -7,18 +7,8 @@
 // $Source$
 // $Revision$
 
-use super::{
-    approx_cos::{approx_cos, SMALL_CUT_OFF},
-    approx_sin::approx_sin,
-    FP492,
-};
+use super::{approx_cos::approx_cos, approx_sin::approx_sin, FP492};
 
 pub(crate) fn approx_sin_cos(x: &FP492) -> (FP492, FP492) {
-    let mut x_abs = *x;
-    x_abs.iabs();
-    // If x is zero or very small, cosine x == 1 and sine x == x.
-    if x_abs <= SMALL_CUT_OFF {
-        return (*x, FP492::ONE);
-    };
     (approx_sin(x), approx_cos(x))
 }
diff --git a/src/math/circular_fns/mod.rs b/src/math/circular_fns/mod.rs
index c35c737..81a7d90 100644
--- a/src/math/circular_fns/mod.rs
+++ b/src/math/circular_fns/mod.rs
@@ -21,3 +21,14 @@ mod tan;
 mod two_over_pi;
 
 use super::{BigFloat, FP492, U256};
+use crate::{f256, EXP_BIAS, HI_ABS_MASK, HI_FRACTION_BITS};
+
+/// Returns true if |x| < 2⁻¹²⁸.
+///
+/// For such values sin x = x, tan x = x and cos x = 1, and they may lose bits
+/// or even vanish when converted into a fixed-point number.
+#[inline(always)]
+fn is_tiny(x: &f256) -> bool {
+    const LIM: u128 = ((EXP_BIAS - 128) as u128) << HI_FRACTION_BITS;
+    (x.bits.hi.0 & HI_ABS_MASK) < LIM
+}
diff --git a/src/math/circular_fns/sin.rs b/src/math/circular_fns/sin.rs
index ffc03fa..d3d9ce7 100644
--- a/src/math/circular_fns/sin.rs
+++ b/src/math/circular_fns/sin.rs
@@ -8,8 +8,8 @@
 // $Revision$
 
 use super::{
-    approx_cos::approx_cos, approx_sin::approx_sin, reduce::reduce, BigFloat,
-    FP492,
+    approx_cos::approx_cos, approx_sin::approx_sin, is_tiny, reduce::reduce,
+    BigFloat, FP492,
 };
 use crate::{f256, HI_ABS_MASK};
 
@@ -22,8 +22,12 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > Self::MAX.bits.hi.0 {
                 return Self::NAN;
             }
-            // x = 0 => sine x = 0
-            return Self::ZERO;
+            // x = ±0 => sine x = ±0
+            return *self;
+        }
+        // If |x| is very small, sine x = x.
+        if is_tiny(self) {
+            return *self;
         }
         // Calculate ⌈x/½π⌋ % 4 and x % ½π.
         let (quadrant, fx) = reduce(&self.abs());
diff --git a/src/math/circular_fns/sin_cos.rs b/src/math/circular_fns/sin_cos.rs
index 3f78ccd..3b4b7b3 100644
--- a/src/math/circular_fns/sin_cos.rs
+++ b/src/math/circular_fns/sin_cos.rs
@@ -13,7 +13,7 @@ use crate::{
     f256,
     math::circular_fns::{
         approx_cos::approx_cos, approx_sin::approx_sin,
-        approx_sin_cos::approx_sin_cos, reduce::reduce,
+        approx_sin_cos::approx_sin_cos, is_tiny, reduce::reduce,
     },
     HI_ABS_MASK,
 };
@@ -29,8 +29,12 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return (f256::NAN, f256::NAN);
             }
-            // x = 0 => sine x = 0 and cosine x = 1
-            return (f256::ZERO, f256::ONE);
+            // x = ±0 => sine x = ±0 and cosine x = 1
+            return (*self, f256::ONE);
+        }
+        // If |x| is very small, sine x = x and cosine x = 1.
+        if is_tiny(self) {
+            return (*self, f256::ONE);
         }
         // Calculate ⌈|x|/½π⌋ % 4 and |x| % ½π.
         let (quadrant, fx) = reduce(&self.abs());
diff --git a/src/math/circular_fns/tan.rs b/src/math/circular_fns/tan.rs
index f3d3886..01428c3 100644
--- a/src/math/circular_fns/tan.rs
+++ b/src/math/circular_fns/tan.rs
@@ -18,8 +18,8 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return f256::NAN;
             }
-            // x = 0 => tangent x = 0
-            return f256::ZERO;
+            // x = ±0 => tangent x = ±0
+            return *self;
         }
         // Calculate tangent x = sine x / cosine x.
         let (sin, cos) = self.sin_cos();
-- 
2.43.0


From bbf952ff88c7486ad6cf7c741af701c2a0c6dec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 16/20] fix: ties, stale digits and exponent cut-off when
 parsing decimal literals

---
 src/conv/big_decimal.rs          | 13 +++++++++----
 src/conv/from_str/fast_approx.rs | 10 ++++++----
 src/conv/from_str/mod.rs         | 14 +++++++-------
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/conv/big_decimal.rs b/src/conv/big_decimal.rs
index c6db9ae..00881b0 100644
--- a/src/conv/big_decimal.rs
+++ b/src/conv/big_decimal.rs
@@ -474,12 +474,17 @@ impl Decimal {
         }
         let dp = self.decimal_point as usize;
         let mut n = U256::ZERO;
+        // The buffer may contain stale digits beyond self.n_digits.
         for i in 0..dp {
-            imul10_add(&mut n, self.digits[i]);
+            let d = if i < self.n_digits { self.digits[i] } else { 0 };
+            imul10_add(&mut n, d);
         }
-        if self.digits[dp] > 5
-            || self.digits[dp] == 5
-                && (dp < self.n_digits - 1 || self.truncated)
+        if dp < self.n_digits
+            && (self.digits[dp] > 5
+                || self.digits[dp] == 5
+                    && (dp < self.n_digits - 1
+                        || self.truncated
+                        || n.is_odd()))
         {
             n.incr();
         }
diff --git a/src/conv/from_str/fast_approx.rs b/src/conv/from_str/fast_approx.rs
index d7b14cf..5cd4df9 100644
--- a/src/conv/from_str/fast_approx.rs
+++ b/src/conv/from_str/fast_approx.rs
@@ -47,7 +47,8 @@ pub(super) fn fast_approx(
         signif10 <<= signif10_nlz;
         // Compute w' * T[k]
         let (p5hi, p5lo, mut exp2) = get_power_of_five(exp10);
-        let mut signif2 = signif10.truncating_mul(&U256::new(p5hi, p5lo));
+        let (prod_lo, mut signif2) =
+            signif10.widening_mul(&U256::new(p5hi, p5lo));
         // As both multiplicands have their highest bit set, the result has
         // atmost one leading zero. We have to shift the highest bit to the
         // position of the hidden bit, i.e. by EXP_BITS - number of leading
@@ -77,9 +78,10 @@ pub(super) fn fast_approx(
             }
             Ordering::Equal => {
                 // Check edge cases.
-                // If 5ᵏ ∈ [1..2²⁵⁶) we can be sure to have a tie, otherwise
-                // we have "a tie and a little bit more".
-                if (0..=110).contains(&exp10) {
+                // If 5ᵏ ∈ [1..2²⁵⁶) and the truncated part of the product is
+                // zero we can be sure to have a tie, otherwise we have "a tie
+                // and a little bit more".
+                if (0..=110).contains(&exp10) && prod_lo.is_zero() {
                     Some(signif2.lo.is_odd())
                 } else {
                     Some(true)
diff --git a/src/conv/from_str/mod.rs b/src/conv/from_str/mod.rs
index cf8add4..d69708b 100644
--- a/src/conv/from_str/mod.rs
+++ b/src/conv/from_str/mod.rs
@@ -23,9 +23,9 @@ use slow_exact::f256_exact;
 use super::big_decimal::{Decimal, MAX_DIGITS};
 use crate::{f256, HI_FRACTION_BIAS, MIN_GT_ZERO_10_EXP, U256};
 
-/// Minimum possible subnormal power of 10 exponent - adjustment of
-/// significand: ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉.
-const MIN_10_EXP_CUTOFF: i32 = -79056;
+/// Minimum possible power of 10 exponent of a value not rounded to zero -
+/// maximum number of digits of the significand: ⌊(Eₘᵢₙ - p) × log₁₀(2)⌋ - 77.
+const MIN_10_EXP_CUTOFF: i32 = -79061;
 
 // The internals of ParseFloatError are not public. The following hack is used
 // to return the same errors as f64.
@@ -81,14 +81,14 @@ impl FromStr for f256 {
                 //  • ±0 if w = 0 or e < Eₘᵢₙ + 1 - p,
                 //  • ±Infinity if e > Eₘₐₓ.
 
-                // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉
-                // => e < Eₘᵢₙ + 1 - p
+                // k < ⌊(Eₘᵢₙ - p) × log₁₀(2)⌋ - 77 and w < 10⁷⁷
+                // => |f| < ½ × 2^(Eₘᵢₙ + 1 - p)
                 if signif10.is_zero() || exp10 < MIN_10_EXP_CUTOFF {
                     return Ok([Self::ZERO, Self::NEG_ZERO][sign as usize]);
                 }
-                // k > ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉ and
+                // k >= ⌊(Eₘᵢₙ - p) × log₁₀(2)⌋ - 77 and
                 // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋
-                // => e < Eₘᵢₙ
+                // => f may be subnormal
                 if exp10 < MIN_GT_ZERO_10_EXP {
                     // Subnormals are not handled by the fast algorithms.
                     return Ok(f256_exact(lit));
-- 
2.43.0


From 2c13c595e98e51b4f7eb9fb8381bd21448de5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 17/20] fix: sign of zero, missing digits and overflowing
 exponents when parsing decimal literals

---
 src/conv/from_str/common.rs     | 13 ++-----------
 src/conv/from_str/float_repr.rs | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/conv/from_str/common.rs b/src/conv/from_str/common.rs
index c12c42c..e56f8ac 100644
--- a/src/conv/from_str/common.rs
+++ b/src/conv/from_str/common.rs
@@ -244,17 +244,8 @@ impl<'a> AsciiNumLit<'a> {
                     _ => false,
                 };
                 // Need atleast one digit.
-                if let Some(c) = self.first() {
-                    let d = c.wrapping_sub(b'0');
-                    if d < 10 {
-                        exponent = d as i32;
-                        // SAFETY: safe because of call to self.first above
-                        unsafe {
-                            self.skip_1();
-                        }
-                    } else {
-                        return None;
-                    }
+                if !self.first_is_digit() {
+                    return None;
                 }
                 while let Some(c) = self.first() {
                     let d = c.wrapping_sub(b'0');
diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 37286d1..45dd5e7 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -270,8 +270,15 @@ impl FloatRepr {
 
         lit.skip_leading_zeroes(true);
         if lit.is_empty() {
+            if start_pos == lit.state.pos_radix_point.is_some() as usize {
+                // There has been nothing but a radix point.
+                return Self::Invalid;
+            }
             // There must have been atleast one zero.
-            return Self::Number(DecNumRepr::default());
+            return Self::Number(DecNumRepr {
+                sign,
+                ..DecNumRepr::default()
+            });
         }
 
         // Parse significant digits.
@@ -286,6 +293,12 @@ impl FloatRepr {
         if start_pos == lit.len() {
             return Self::parse_special(&mut lit, sign);
         }
+        if start_pos - lit.len()
+            == lit.state.pos_radix_point.is_some() as usize
+        {
+            // There has been nothing but a radix point.
+            return Self::Invalid;
+        }
 
         // Set implicit radix point if no one was detected.
         if lit.state.pos_radix_point.is_none() {
@@ -313,14 +326,14 @@ impl FloatRepr {
             lit.state.start_pos_signif.saturating_sub(pos_radix_point);
         let n_truncated_int_digits =
             n_int_digits.saturating_sub(PartialSignif::MAX_N_DIGITS);
-        exponent += n_truncated_int_digits as i32;
+        exponent = exponent.saturating_add(n_truncated_int_digits as i32);
         let n_frac_digits =
             pos_radix_point.saturating_sub(lit.state.end_pos_signif + 1);
-        exponent -= n_frac_digits as i32;
+        exponent = exponent.saturating_sub(n_frac_digits as i32);
 
         // Get normalized significand and adjust exponent
         let n_trailing_zeroes = partial_signif.normalize();
-        exponent += n_trailing_zeroes as i32;
+        exponent = exponent.saturating_add(n_trailing_zeroes as i32);
         let significand = partial_signif.significand();
         Self::Number(DecNumRepr {
             sign,
-- 
2.43.0


From 71cffba0d455ddda7a8ed6016a137e787ac865b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:35 +0000
Subject: [PATCH 18/20] fix: bounds, ties and rounding up in shortest decimal
 representation

---
 src/conv/to_str/dec_repr.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/conv/to_str/dec_repr.rs b/src/conv/to_str/dec_repr.rs
index 97aaf32..b97986b 100644
--- a/src/conv/to_str/dec_repr.rs
+++ b/src/conv/to_str/dec_repr.rs
@@ -17,7 +17,7 @@ use super::{
 };
 use crate::{
     big_uint::{HiLo, U128},
-    f256, BigUInt, DivRem, U256, U512,
+    f256, BigUInt, DivRem, EMIN, FRACTION_BITS, HI_FRACTION_BITS, U256, U512,
 };
 
 /// Returns ⌊log₁₀(5ⁱ)⌋ for 0 <= i <= 262380.
@@ -132,6 +132,8 @@ impl DecNumRepr {
 
         // Max number of bits needed to store ⌊2ʰ / 5ᵍ⌋ + 1 or ⌊5⁻ᵉ⁻ᵍ / 2ʰ⌋.
         const H: i32 = 501;
+        // Quantum exponent of the smallest positive normal value.
+        const MIN_NORMAL_QUANTUM_EXP: i32 = EMIN - FRACTION_BITS as i32;
 
         let accept_bounds = signif2.is_even();
 
@@ -141,9 +143,13 @@ impl DecNumRepr {
 
         // Step 2: Compute the halfway points to the next smaller and larger
         // floating point values.
-        let is_non_integer = exp2 < -(signif2.trailing_zeros() as i32);
+        // If the significand is a power of two, the next smaller value (if it
+        // is normal) is only half as far away as the next greater one.
+        let is_equidistant = exp2 <= MIN_NORMAL_QUANTUM_EXP - 2
+            || signif2.hi.0 != 1_u128 << (HI_FRACTION_BITS + 2)
+            || !signif2.lo.is_zero();
         let lower_signif2 =
-            &signif2 - &U256::from(1 + is_non_integer as u128);
+            &signif2 - &U256::from(1 + is_equidistant as u128);
         let upper_signif2 = &signif2 + &U256::TWO;
 
         // Step 3: Convert the interval to a decimal power base.
@@ -213,13 +219,13 @@ impl DecNumRepr {
                 // zero bits.
                 rem_zero = true;
                 if accept_bounds {
-                    // lower_signif2 = signif2 - 1 - is_non_integer, so it has
-                    // a trailing zero bit if f is not an integer.
-                    lower_rem_zero = is_non_integer;
+                    // lower_signif2 = signif2 - 1 - is_equidistant, so it has
+                    // a trailing zero bit if the bounds are equidistant.
+                    lower_rem_zero = is_equidistant;
                 } else {
                     // uppper_signif2 = signif2 + 2, so it always has at least
                     // one trailing zero bit.
-                    signif10.decr();
+                    upper_signif10.decr();
                 }
             } else if g <= 238 {
                 // signif2 has atmost 239 bits, i.e atmost 238 trailing
@@ -238,8 +244,8 @@ impl DecNumRepr {
             let (mut upper_quot, mut upper_rem) =
                 upper_signif10.div_rem(10_u64);
             while lower_quot < upper_quot {
-                (signif10, round_digit) = signif10.div_rem(10_u64);
                 rem_zero &= round_digit == 0;
+                (signif10, round_digit) = signif10.div_rem(10_u64);
                 lower_signif10 = lower_quot;
                 lower_rem_zero &= lower_rem == 0;
                 upper_signif10 = upper_quot;
@@ -249,8 +255,8 @@ impl DecNumRepr {
             }
             if lower_rem_zero {
                 while lower_rem == 0 && !lower_signif10.is_zero() {
-                    (signif10, round_digit) = signif10.div_rem(10_u64);
                     rem_zero &= round_digit == 0;
+                    (signif10, round_digit) = signif10.div_rem(10_u64);
                     lower_signif10 = lower_quot;
                     (lower_quot, lower_rem) = lower_signif10.div_rem(10_u64);
                     i += 1;
@@ -259,6 +265,8 @@ impl DecNumRepr {
             if round_digit > 5  // need to round up
                 || (round_digit == 5    // need to round to even
                 && (!rem_zero || signif10.lo.is_odd()))
+                // need to keep distance to the lower bound
+                || (signif10 == lower_signif10 && !lower_rem_zero)
             {
                 signif10.incr();
             }
-- 
2.43.0


From 17be701ad30e28f39a471185f0f0f4be7ecadac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:35 +0000
Subject: [PATCH 19/20] fix: exact integer digits, decimal exponent, ties and
 rounding of values close to a tie in output with given precision

---
 src/conv/to_str/common.rs        |  28 +++-
 src/conv/to_str/to_fixed_prec.rs | 263 +++++++++++++++++++++++++++----
 2 files changed, 256 insertions(+), 35 deletions(-)

diff --git a/src/conv/to_str/common.rs b/src/conv/to_str/common.rs
index ec66d52..c78b85d 100644
--- a/src/conv/to_str/common.rs
+++ b/src/conv/to_str/common.rs
@@ -7,9 +7,10 @@
 // $Source$
 // $Revision$
 
-use core::f64::consts::LOG10_2;
+use core::cmp::min;
 
-use crate::U256;
+use super::powers_of_five::{get_power_of_five, MAX_EXP};
+use crate::{BigUInt, HiLo, U256, U512};
 
 /// Returns ⌊log₁₀(2ⁱ)⌋.
 #[inline(always)]
@@ -18,12 +19,25 @@ pub(crate) const fn floor_log10_pow2(i: i32) -> i32 {
     ((i as i128 * 169464822037455) >> 49) as i32
 }
 
-/// Returns ⌊log₁₀(m × 2ⁱ)⌋.
-#[inline(always)]
-#[allow(clippy::cast_possible_truncation)]
-#[allow(clippy::cast_precision_loss)]
+/// Returns ⌊log₁₀(m × 2ⁱ)⌋ for 1 <= m × 2ⁱ < 2⁵¹².
+#[allow(clippy::cast_possible_wrap)]
+#[allow(clippy::cast_sign_loss)]
 pub(crate) fn floor_log10f(m: U256, i: i32) -> i32 {
-    (((m.hi.0 as f64).log2() + 128_f64 + (i as f64)) * LOG10_2).trunc() as i32
+    // Let e = ⌊log₂(m × 2ⁱ)⌋. Then
+    // ⌊log₁₀(2ᵉ)⌋ <= ⌊log₁₀(m × 2ⁱ)⌋ <= ⌊log₁₀(2ᵉ)⌋ + 1.
+    let n = floor_log10_pow2(m.msb() as i32 + i) + 1;
+    // 10ⁿ <= m × 2ⁱ <=> 5ⁿ <= m × 2ⁱ⁻ⁿ
+    let mut x = U512::from_hi_lo(U256::ZERO, m);
+    let k = min(n as u32, MAX_EXP);
+    let (lo, hi) = get_power_of_five(k)
+        .widening_mul(&get_power_of_five(n as u32 - k));
+    let mut y = U512::from_hi_lo(hi, lo);
+    if i >= n {
+        x <<= (i - n) as u32;
+    } else {
+        y <<= (n - i) as u32;
+    }
+    n - (x < y) as i32
 }
 
 // The following code is copied from rust stdlib.
diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index 56339c8..bed0053 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -10,6 +10,8 @@
 use alloc::{
     format,
     string::{String, ToString},
+    vec,
+    vec::Vec,
 };
 use core::{
     cmp::{max, min},
@@ -45,8 +47,12 @@ enum Round {
 }
 
 /// Calculate ⌊x × y / 2ᵏ⌋ % B, where B = 10 ^ CHUNK_SIZE.
+///
+/// The values of y are approximations with an error less than 1, so that the
+/// error of x × y is less than x. Returns `None` if that error could effect
+/// the result, i.e. if the product is too close to a multiple of 2ᵏ.
 #[inline(always)]
-fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> u64 {
+fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> Option<u64> {
     debug_assert!(k > 256);
     let mut t = x.widening_mul(&y.hi);
     let mut res = U512::from_hi_lo(t.1, t.0);
@@ -56,8 +62,143 @@ fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> u64 {
     if carry {
         res.hi.incr();
     }
+    // The approximations of 2ⁿ / 10ᵐ are too big, those of 10ᵐ / 2ⁿ are too
+    // small. As x < 2²⁵⁶, the product is far enough away from a multiple of
+    // 2ᵏ if bits 256..k are neither all zero nor all one.
+    let frac = res.lo.lo.0 & ((1_u128 << (k - 256)) - 1);
+    if (frac == 0 && !t.0.is_zero()) || frac == (1_u128 << (k - 256)) - 1 {
+        return None;
+    }
     res >>= (k - 256);
-    (res % CHUNK_BASE as u128) as u64
+    Some((res % CHUNK_BASE as u128) as u64)
+}
+
+/// Arbitrary large natural number, represented by little-endian digits to the
+/// base 2³².
+struct BigNat(Vec<u32>);
+
+impl BigNat {
+    fn is_zero(&self) -> bool {
+        self.0.is_empty()
+    }
+
+    /// Computes x × 2ⁿ.
+    #[allow(clippy::integer_division)]
+    #[allow(clippy::cast_possible_truncation)]
+    fn from_u256_shl(x: &U256, n: u32) -> Self {
+        let mut res = vec![0_u32; (n / 32) as usize];
+        let (mut v, sh) = (*x, n % 32);
+        let mut t = 0_u64;
+        while !v.is_zero() || t != 0 {
+            t |= u64::from(v.lo.0 as u32) << sh;
+            res.push(t as u32);
+            t >>= 32;
+            v >>= 32;
+        }
+        while res.last() == Some(&0) {
+            res.pop();
+        }
+        Self(res)
+    }
+
+    /// self ← self × 5ⁿ
+    #[allow(clippy::cast_possible_truncation)]
+    fn imul_pow5(&mut self, mut n: u32) {
+        while n > 0 {
+            let k = min(n, 13);
+            let f = 5_u64.pow(k);
+            let mut carry = 0_u64;
+            for d in &mut self.0 {
+                carry += u64::from(*d) * f;
+                *d = carry as u32;
+                carry >>= 32;
+            }
+            if carry != 0 {
+                self.0.push(carry as u32);
+            }
+            n -= k;
+        }
+    }
+
+    /// self ← ⌊self / d⌋, returns the remainder.
+    #[allow(clippy::integer_division)]
+    #[allow(clippy::cast_possible_truncation)]
+    fn idiv(&mut self, d: u32) -> u32 {
+        let mut rem = 0_u64;
+        for x in self.0.iter_mut().rev() {
+            rem = (rem << 32) | u64::from(*x);
+            *x = (rem / u64::from(d)) as u32;
+            rem %= u64::from(d);
+        }
+        while self.0.last() == Some(&0) {
+            self.0.pop();
+        }
+        rem as u32
+    }
+
+    /// self ← ⌊self / 5ⁿ⌋, returns true if the division is inexact.
+    fn idiv_pow5(&mut self, mut n: u32) -> bool {
+        let mut inexact = false;
+        while n > 0 && !self.is_zero() {
+            let k = min(n, 13);
+            inexact |= self.idiv(5_u32.pow(k)) != 0;
+            n -= k;
+        }
+        inexact
+    }
+
+    /// self ← ⌊self / 2ⁿ⌋, returns true if the division is inexact.
+    #[allow(clippy::integer_division)]
+    fn ishr(&mut self, n: u32) -> bool {
+        let n_words = min((n / 32) as usize, self.0.len());
+        let mut inexact = self.0.drain(..n_words).any(|d| d != 0);
+        if n % 32 != 0 {
+            inexact |= self.idiv(1_u32 << (n % 32)) != 0;
+        }
+        inexact
+    }
+
+    /// Returns the decimal digits of self, atleast one.
+    fn into_decimal(mut self) -> String {
+        let mut segments = vec![self.idiv(1_000_000_000)];
+        while !self.is_zero() {
+            segments.push(self.idiv(1_000_000_000));
+        }
+        let mut res = String::with_capacity(segments.len() * 9);
+        res.push_str(segments.pop().unwrap_or_default().to_string().as_str());
+        for s in segments.iter().rev() {
+            res.push_str(format!("{s:09}").as_str());
+        }
+        res
+    }
+}
+
+/// Returns the decimal digits of ⌊x × 2ⁿ × 10ᵏ⌋ and whether that value is
+/// inexact.
+#[allow(clippy::cast_sign_loss)]
+fn exact_scaled_decimal(x: &U256, n: i32, k: i32) -> (String, bool) {
+    // x × 2ⁿ × 10ᵏ = x × 5ᵏ × 2ⁿ⁺ᵏ
+    let mut t = BigNat::from_u256_shl(x, max(n + k, 0) as u32);
+    let mut inexact = false;
+    if k >= 0 {
+        t.imul_pow5(k as u32);
+    } else {
+        inexact = t.idiv_pow5(-k as u32);
+    }
+    if n + k < 0 {
+        inexact |= t.ishr(-(n + k) as u32);
+    }
+    (t.into_decimal(), inexact)
+}
+
+/// Determines how to round a number, given the digit following the last digit
+/// to be kept and whether there are other non-zero digits following.
+fn round_by_digit(digit: Option<char>, inexact: bool) -> Round {
+    match digit {
+        Some('5') if !inexact => Round::ToEven,
+        Some('5'..='9') => Round::Up,
+        _ => Round::Down,
+    }
 }
 
 #[inline(always)]
@@ -82,6 +223,31 @@ fn bin_fract_2_dec_str(
     prec: usize,
     buf: &mut String,
 ) -> Round {
+    let len = buf.len();
+    if let Some(round) =
+        bin_fract_2_dec_str_approx(signif2, exp2, prec, buf)
+    {
+        return round;
+    }
+    buf.truncate(len);
+    let (mut digits, inexact) =
+        exact_scaled_decimal(&signif2, exp2, prec as i32 + 1);
+    let round = round_by_digit(digits.pop(), inexact);
+    buf.push_str("0".repeat(prec - min(prec, digits.len())).as_str());
+    buf.push_str(digits.as_str());
+    round
+}
+
+#[allow(clippy::integer_division)]
+#[allow(clippy::cast_possible_truncation)]
+#[allow(clippy::cast_possible_wrap)]
+#[allow(clippy::cast_sign_loss)]
+fn bin_fract_2_dec_str_approx(
+    signif2: U256,
+    exp2: i32,
+    prec: usize,
+    buf: &mut String,
+) -> Option<Round> {
     let mut round = Round::Down;
     let n_chunks = prec as u32 / CHUNK_SIZE + 1;
     let (segment_idx, (n_zero_chunks, segment_shift)) =
@@ -91,7 +257,7 @@ fn bin_fract_2_dec_str(
     // Special case: no significant digits to be output
     if n_chunks <= n_zero_chunks {
         buf.push_str("0".repeat(prec).as_str());
-        return round;
+        return Some(round);
     }
     if n_zero_chunks > 0 {
         buf.push_str(
@@ -105,7 +271,7 @@ fn bin_fract_2_dec_str(
     );
     for chunk_idx in 0..n_signif_chunks {
         let t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        let mut chunk = mul_shift_mod(&signif2, &t, shift);
+        let mut chunk = mul_shift_mod(&signif2, &t, shift)?;
         if chunk_idx < n_signif_chunks - 1 {
             buf.push_str(
                 format!("{:01$}", chunk, CHUNK_SIZE as usize).as_str(),
@@ -142,7 +308,7 @@ fn bin_fract_2_dec_str(
             }
         }
     }
-    round
+    Some(round)
 }
 
 /// Round-Up the given fixed-point string representation of a decimal number.
@@ -198,7 +364,10 @@ pub(crate) fn bin_2_dec_fixed_point(f: f256, prec: usize) -> String {
     if is_less_than_one {
         res.push('0');
     } else {
-        res.push_str(ip.to_string().as_str());
+        let n = ip.quantum_exponent();
+        let (digits, _) =
+            exact_scaled_decimal(&ip.integral_significand(), n, 0);
+        res.push_str(digits.as_str());
     }
     // Fractional part
     if prec > 0 {
@@ -348,7 +517,7 @@ fn bin_large_int_2_scientific(
     exp2: i32,
     prec: usize,
     buf: &mut String,
-) -> (Round, i32) {
+) -> Option<(Round, i32)> {
     debug_assert!(exp2 > (U512::BITS - SIGNIFICAND_BITS) as i32);
     let mut round = Round::Down;
     let (segment_idx, (mut n_chunks, segment_shift)) =
@@ -357,12 +526,12 @@ fn bin_large_int_2_scientific(
     let mut n_rem_digits = prec as u32;
     let mut chunk_idx = 0_u32;
     let mut t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-    let mut chunk = mul_shift_mod(&signif2, &t, shift);
+    let mut chunk = mul_shift_mod(&signif2, &t, shift)?;
     if chunk == 0 {
         n_chunks -= 1;
         chunk_idx += 1;
         t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift)?;
     }
     let mut chunk_size = CHUNK_SIZE;
     // First chunk:
@@ -393,7 +562,7 @@ fn bin_large_int_2_scientific(
             "Internal limit for significant fractional digits exceeded."
         );
         t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -407,7 +576,7 @@ fn bin_large_int_2_scientific(
             "Internal limit for significant fractional digits exceeded."
         );
         t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -438,7 +607,7 @@ fn bin_large_int_2_scientific(
             format!("{:01$}", chunk, n_rem_digits as usize).as_str(),
         );
     }
-    (round, exp10 as i32)
+    Some((round, exp10 as i32))
 }
 
 #[allow(clippy::cognitive_complexity)]
@@ -451,7 +620,7 @@ fn bin_fract_2_scientific(
     exp2: i32,
     prec: usize,
     buf: &mut String,
-) -> (Round, i32) {
+) -> Option<(Round, i32)> {
     debug_assert!(exp2 <= -(SIGNIFICAND_BITS as i32));
     let mut round = Round::Down;
     let (segment_idx, (n_zero_chunks, segment_shift)) =
@@ -462,13 +631,13 @@ fn bin_fract_2_scientific(
     let mut n_rem_digits = prec as u32;
     let mut chunk_idx = 0_u32;
     let mut t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-    let mut chunk = mul_shift_mod(&signif2, &t, shift);
+    let mut chunk = mul_shift_mod(&signif2, &t, shift)?;
     // There may be an additional zero chunk caused by table compression.
     if chunk == 0 {
         exp10 -= CHUNK_SIZE as i32;
         chunk_idx += 1;
         t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift)?;
         debug_assert_ne!(chunk, 0);
     }
     let mut chunk_size = CHUNK_SIZE;
@@ -500,7 +669,7 @@ fn bin_fract_2_scientific(
             "Internal limit for significant fractional digits exceeded."
         );
         t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -514,7 +683,7 @@ fn bin_fract_2_scientific(
             "Internal limit for significant fractional digits exceeded."
         );
         t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk = mul_shift_mod(&signif2, &t, shift)?;
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -528,22 +697,51 @@ fn bin_fract_2_scientific(
         round = Round::Up;
     } else if rem == tie {
         // Need to check whether we really have a tie, i.e.
-        // signif2 * 10 ^ (prec + 1) / 2 ^ -exp2 is an integer.
+        // signif2 * 10 ^ (prec + 1 - exp10) / 2 ^ -exp2 is an integer.
         // This is the case if the number of trailing zeroes of the numerator
         // is greater than or equal to -exp2.
-        round =
-            if (signif2.trailing_zeros() + prec as u32 + 1) as i32 >= -exp2 {
-                Round::ToEven
-            } else {
-                Round::Up
-            };
+        round = if signif2.trailing_zeros() as i32 + prec as i32 + 1 - exp10
+            >= -exp2
+        {
+            Round::ToEven
+        } else {
+            Round::Up
+        };
     }
     if n_digits > 0 {
         buf.push_str(
             format!("{:01$}", chunk, n_rem_digits as usize).as_str(),
         );
     }
-    (round, exp10)
+    Some((round, exp10))
+}
+
+/// Converts a binary float into the scientific representation of a decimal
+/// number by exact calculation.
+#[allow(clippy::cast_possible_truncation)]
+#[allow(clippy::cast_possible_wrap)]
+fn bin_2_scientific_exact(
+    signif2: U256,
+    exp2: i32,
+    prec: usize,
+    buf: &mut String,
+) -> (Round, i32) {
+    buf.clear();
+    // Get atleast one digit more than needed.
+    let mut exp10 = floor_log10_pow2(exp2 + signif2.msb() as i32);
+    let (digits, mut inexact) =
+        exact_scaled_decimal(&signif2, exp2, prec as i32 + 1 - exp10);
+    exp10 += digits.len() as i32 - (prec as i32 + 2);
+    let (digits, rest) = digits.split_at(prec + 1);
+    if prec == 0 {
+        buf.push_str(digits);
+    } else {
+        split_into_buf(buf, digits);
+    }
+    let mut rest = rest.chars();
+    let digit = rest.next();
+    inexact |= rest.any(|d| d != '0');
+    (round_by_digit(digit, inexact), exp10)
 }
 
 /// Round-Up the given scientific string representation of a decimal number.
@@ -616,12 +814,18 @@ pub(crate) fn bin_2_dec_scientific(
         NORMAL_EXP_LOWER_BOUND..=FAST_LOWER_BOUND_MINUS_1 => {
             // f256::MIN_POSITIVE <= |f| < 1
             (round, exp10) =
-                bin_fract_2_scientific(signif2, exp2, prec, &mut res);
+                bin_fract_2_scientific(signif2, exp2, prec, &mut res)
+                    .unwrap_or_else(|| {
+                        bin_2_scientific_exact(signif2, exp2, prec, &mut res)
+                    });
         }
         FAST_UPPER_BOUND_PLUS_1..=EXP_UPPER_BOUND => {
             // 2⁵¹² <= |f| <= f256::MAX
             (round, exp10) =
-                bin_large_int_2_scientific(signif2, exp2, prec, &mut res);
+                bin_large_int_2_scientific(signif2, exp2, prec, &mut res)
+                    .unwrap_or_else(|| {
+                        bin_2_scientific_exact(signif2, exp2, prec, &mut res)
+                    });
             // Need trailing zeroes?
             res.push_str(
                 "0".repeat(prec - min(prec, exp10 as usize)).as_str(),
@@ -634,7 +838,10 @@ pub(crate) fn bin_2_dec_scientific(
             signif2 <<= adj;
             exp2 -= adj as i32;
             (round, exp10) =
-                bin_fract_2_scientific(signif2, exp2, prec, &mut res);
+                bin_fract_2_scientific(signif2, exp2, prec, &mut res)
+                    .unwrap_or_else(|| {
+                        bin_2_scientific_exact(signif2, exp2, prec, &mut res)
+                    });
         }
         _ => {
             unreachable!()
-- 
2.43.0


From 4d3a39bc7405aa304b44976d4e991b333c36ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 20/20] fix: use the given fill character for NaN

---
 src/conv/to_str/mod.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/conv/to_str/mod.rs b/src/conv/to_str/mod.rs
index 1520b09..fa5bc23 100644
--- a/src/conv/to_str/mod.rs
+++ b/src/conv/to_str/mod.rs
@@ -14,7 +14,6 @@ mod powers_of_five;
 mod to_fixed_prec;
 
 use alloc::{
-    borrow::ToOwned,
     format,
     string::{String, ToString},
 };
@@ -31,17 +30,22 @@ use crate::{f256, split_f256_enc, EXP_MAX, U256};
 const MAX_PREC: usize = 75;
 
 fn format_nan(form: &mut fmt::Formatter<'_>) -> fmt::Result {
-    let nan = "NaN".to_owned();
-    let s = if let Some(width) = form.width() {
-        match form.align() {
-            Some(fmt::Alignment::Center) => format!("{:^width$}", nan),
-            Some(fmt::Alignment::Left) => format!("{:<width$}", nan),
-            _ => format!("{:>width$}", nan),
-        }
-    } else {
-        nan
+    const NAN: &str = "NaN";
+    let fill = form.fill();
+    let n_fill = form.width().unwrap_or(0).saturating_sub(NAN.len());
+    let n_left = match form.align() {
+        Some(fmt::Alignment::Center) => n_fill >> 1,
+        Some(fmt::Alignment::Left) => 0,
+        _ => n_fill,
     };
-    form.write_str(s.as_str())
+    for _ in 0..n_left {
+        form.write_char(fill)?;
+    }
+    form.write_str(NAN)?;
+    for _ in n_left..n_fill {
+        form.write_char(fill)?;
+    }
+    Ok(())
 }
 
 fn format_special(f: &f256, form: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0

