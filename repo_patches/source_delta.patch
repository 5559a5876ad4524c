From 6627251853eb2965f0bbf8442ddea808f838cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 01/12] fix: complex += and -= update the imaginary part from
 the imaginary part

---
 src/complex/cartesian_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 530286f..9e64c57 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -310,7 +310,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn add_assign(&mut self, rhs: $T) {
                 self.re =  self.re+rhs.re;
-                self.im =  self.re+rhs.im;
+                self.im =  self.im+rhs.im;
             }
         }
         
@@ -326,7 +326,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn sub_assign(&mut self, rhs: $T) {
                 self.re =  self.re-rhs.re;
-                self.im =  self.re-rhs.im;
+                self.im =  self.im-rhs.im;
             }
         }
     }
-- 
2.43.0


From 053352a7032bd40426ebb3c0d785a3ae88830d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 02/12] fix: complex division uses the imaginary part of the
 divisor

---
 src/complex/cartesian_impl.rs | 4 ++--
 src/complex/ops.rs            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 9e64c57..bf5771b 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -388,7 +388,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));
             }
@@ -401,7 +401,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                 self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
diff --git a/src/complex/ops.rs b/src/complex/ops.rs
index 5539eb9..07ba67c 100644
--- a/src/complex/ops.rs
+++ b/src/complex/ops.rs
@@ -203,7 +203,7 @@ pub fn div_cartesian<T>( numerator: Cartesian<T>, denominator: Cartesian<T>  ) -
     let a = numerator.re;
     let b = numerator.im;
     let c = denominator.re;
-    let d = denominator.re;
+    let d = denominator.im;
 
     let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
     let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
-- 
2.43.0


From b7da469dc6b76b834f2332d704292828e0fdd103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 03/12] fix: complex /= by a real zero saturates like / does,
 instead of dividing by zero

---
 src/complex/cartesian_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index bf5771b..2202c95 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -458,6 +458,7 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
         if rhs == T1::mixed_zero() {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
+            return;
         }
         self.re = self.re/T2::mixed_from_num(rhs);
         self.im = self.im/T2::mixed_from_num(rhs);
-- 
2.43.0


From 38bbc561f96144b27af3180adb3b67a251822708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 04/12] fix: wrap_phase terminates for large and infinite
 phases, and works for types which cannot hold tau

---
 src/trigonometry.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index bf2b450..755d5b6 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -164,17 +164,29 @@ pub fn wrap_phase<T>( phi: T ) -> T
     where T: crate::MixedNum + crate::MixedOps + crate::MixedPi + crate::MixedNumSigned
 {
     let mixed_pi  = T::mixed_pi();
-    let tau = T::mixed_from_num(2)*mixed_pi;
- 
-    let mut temp_scalar = phi;
-    
-    while temp_scalar < -mixed_pi
+
+    if -mixed_pi <= phi && phi < mixed_pi
     {
-        temp_scalar = temp_scalar + tau;
+        return phi;
     }
-    while mixed_pi <= temp_scalar
+
+    // Remove one turn in two half-turn steps, as a full turn is not representable in types with a +-4 range.
+    let mut temp_scalar = if phi < -mixed_pi { phi + mixed_pi + mixed_pi } else { phi - mixed_pi - mixed_pi };
+
+    if temp_scalar < -mixed_pi || mixed_pi <= temp_scalar
     {
-        temp_scalar = temp_scalar - tau;
+        // Further turns are removed in a single step, as a loop does not terminate once `phi-tau` rounds to `phi`.
+        let tau = T::mixed_from_num(2)*mixed_pi;
+        temp_scalar = phi % tau;
+
+        if temp_scalar < -mixed_pi
+        {
+            temp_scalar = temp_scalar + tau;
+        }
+        else if mixed_pi <= temp_scalar
+        {
+            temp_scalar = temp_scalar - tau;
+        }
     }
     return temp_scalar;
 }
-- 
2.43.0


From 83b15121c9fcf05575c7ce32548170827ab9a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 05/12] fix: niirf terminates for infinity, and works for types
 which cannot hold four

---
 src/trigonometry/sqrt.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 8294bec..31542b7 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -68,16 +68,23 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     let mut x_ = x.mixed_abs();
 
     // First we normalize x to the range 0.25 =< x < 1.
+    // The factor four is applied as two factors of two, as four is not representable in types with a +-4 range.
+    let two = T::mixed_from_num(2);
     let mut norm = 0i32; // Number of normalizations.
     while x_< T::mixed_from_num(0.25)
     {
         norm -=1;
-        x_ = x_*T::mixed_from_num(4);
+        x_ = x_*two*two;
     }
     while T::mixed_from_num(1.0) <= x_
     {
         norm +=1;
-        x_ = x_/T::mixed_from_num(4);
+        let scaled = x_/two/two;
+        if scaled == x_
+        {
+            return x_; // Infinity cannot be normalized, and is its own square root.
+        }
+        x_ = scaled;
     }
 
     /// LUT for getting the acceleration factor β.
-- 
2.43.0


From 20db7c65501f0cc5ff0adae2e83f49138756fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:55 +0000
Subject: [PATCH 06/12] fix: mixed_powi of integer and fixed point types
 accepts negative exponents

---
 src/fixed_impl.rs   |  4 ++--
 src/int_impl.rs     |  2 +-
 src/trigonometry.rs | 14 +++++++++++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index e68dc8e..9c11f86 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -168,7 +168,7 @@ macro_rules! impl_mixed_num_for_fixed_unsigned{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return trigonometry::powi( *self, exp as usize );
+                return trigonometry::powi_signed( *self, exp );
             }
         }
 
@@ -222,7 +222,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return trigonometry::powi( *self, exp as usize );
+                return trigonometry::powi_signed( *self, exp );
             }
         }
 
diff --git a/src/int_impl.rs b/src/int_impl.rs
index 3ab4005..f92ccab 100644
--- a/src/int_impl.rs
+++ b/src/int_impl.rs
@@ -49,7 +49,7 @@ macro_rules! impl_mixed_num_for_primitive{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return trigonometry::powi( *self, exp as usize );
+                return trigonometry::powi_signed( *self, exp );
             }
         }
 
diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index 755d5b6..241f71e 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -222,4 +222,16 @@ pub fn powi<T>( base:T, power:usize ) -> T
         temp = temp*base;
     }
     return temp;
-}
\ No newline at end of file
+}
+
+/// Rase a number to a positive or negative integer-valued power.
+/// Negative powers are powers of the reciprocal.
+pub(crate) fn powi_signed<T>( base:T, power:i32 ) -> T
+    where T: crate::MixedNum + crate::MixedOps 
+{
+    if power < 0
+    {
+        return powi( T::mixed_from_num(1)/base, power.unsigned_abs() as usize );
+    }
+    return powi( base, power as usize );
+}
-- 
2.43.0


From c87eae07663addc4b1216a53c35252d53a18768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:55 +0000
Subject: [PATCH 07/12] fix: fixed point sin and cos wrap the phase first, as
 cordic subtracts one half turn at a time

---
 src/fixed_impl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 9c11f86..821d0af 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -263,13 +263,13 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the sin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_sin(&self) -> Self {
-                return cordic::sin(*self);
+                return cordic::sin(trigonometry::wrap_phase(*self));
             }
             #[inline(always)]
             fn mixed_sincos(&self) -> (Self, Self) 
                 where Self: Sized
             {
-                return cordic::sin_cos(*self);
+                return cordic::sin_cos(trigonometry::wrap_phase(*self));
             }
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
@@ -283,7 +283,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the cos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_cos(&self) -> Self {
-                return cordic::cos(*self);
+                return cordic::cos(trigonometry::wrap_phase(*self));
             }
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
-- 
2.43.0


From ed718f85adbec87aaf51390d855d5f791dcdfef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:55 +0000
Subject: [PATCH 08/12] fix: fixed point exp of a large negative number
 terminates

---
 src/fixed_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 821d0af..20bffe2 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -320,6 +320,11 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the exp() of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_exp(&self) -> Self {
+                // cordic divides by e once per unit, and the result is zero in every type long before this.
+                if *self < -64
+                {
+                    return Self::mixed_zero();
+                }
                 return cordic::exp(*self);
             }
         }
-- 
2.43.0


From 708fdd794bcb8dde6f3ca9b840eea2ba53a67316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:13 +0000
Subject: [PATCH 09/12] fix: niirf square root of unsigned fixed point
 overflowed when the estimate was above the root

---
 src/trigonometry/sqrt.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 31542b7..ee14e66 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -147,7 +147,16 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0
     for _n in 1..iterations
     {
-        y = beta(x_)*(x_-y.mixed_powi(2))+y;
+        let y_sqr = y.mixed_powi(2);
+        // The correction is never negative, as unsigned types cannot hold a negative difference.
+        if y_sqr <= x_
+        {
+            y = y + beta(x_)*(x_-y_sqr);
+        }
+        else
+        {
+            y = y - beta(x_)*(y_sqr-x_);
+        }
     }
 
     while norm.abs() != 0
-- 
2.43.0


From 67a91252dbbe55aff7ff653f4f4adf75288d7516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:02 +0000
Subject: [PATCH 10/12] fix: arcsine and arccosine of fixed point types no
 longer shift by more than the width of the type

---
 src/fixed_impl.rs   |  4 ++--
 src/trigonometry.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 20bffe2..2f7a234 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -274,7 +274,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_asin(&self) -> Self {
-                return cordic::asin(*self);
+                return trigonometry::asin_cordic(*self);
             }
         }
 
@@ -288,7 +288,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_acos(&self) -> Self {
-                return cordic::acos(*self);
+                return trigonometry::acos_cordic(*self);
             }
         }
 
diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index 241f71e..26218e2 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -224,6 +224,39 @@ pub fn powi<T>( base:T, power:usize ) -> T
     return temp;
 }
 
+/// Calculate asin(x) as the angle of a vector on the unit circle, using CORDIC.
+///
+/// The double-rotation `cordic::asin` shifts by up to twice the number of fractional bits, which exceeds the width of the type for most types.
+///
+/// `x` is limited to the -1=<x<=1 range.
+pub(crate) fn asin_cordic<T>( x: T ) -> T
+    where T: cordic::CordicNumber
+{
+    let one = T::one();
+    if x >= one
+    {
+        return T::frac_pi_2();
+    }
+    if x <= -one
+    {
+        return -T::frac_pi_2();
+    }
+
+    // tan(asin(x)/2), which is always within the -1=<x<=1 range.
+    let half_tan = x/( one + cordic::sqrt(one - x*x) );
+    let half = cordic::atan(half_tan);
+    return half + half;
+}
+
+/// Calculate acos(x) using CORDIC.
+///
+/// `x` is limited to the -1=<x<=1 range.
+pub(crate) fn acos_cordic<T>( x: T ) -> T
+    where T: cordic::CordicNumber
+{
+    return T::frac_pi_2() - asin_cordic(x);
+}
+
 /// Rase a number to a positive or negative integer-valued power.
 /// Negative powers are powers of the reciprocal.
 pub(crate) fn powi_signed<T>( base:T, power:i32 ) -> T
-- 
2.43.0


From b5c3af03b44d38f3cec10a7d98d3e78716c7a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:22 +0000
Subject: [PATCH 11/12] fix: polynomial sine and cosine work for fixed point
 types, which cannot hold 9! or the ninth power of x

---
 src/trigonometry.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index 26218e2..ff1be7c 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -85,11 +85,17 @@ pub fn sin<T>( x: T ) -> T
         x_ = mixed_pi_half-delta;
     }
 
-    // Calculate sine by using 
-    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
-    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
-    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
-    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
+    // Each term is calculated from the previous one, as the factorials and the high powers of x are not representable in most fixed point types.
+    let x_2 = x_*x_;
+    let x_3 = x_*x_2*T::mixed_from_num(1.0f64/6.0);
+    let x_5 = x_3*x_2*T::mixed_from_num(1.0f64/20.0);
+    let x_7 = x_5*x_2*T::mixed_from_num(1.0f64/42.0);
+    let x_9 = x_7*x_2*T::mixed_from_num(1.0f64/72.0);
+
+    let mut sinx = x_-x_3;
+    sinx += x_5;
+    sinx -= x_7;
+    sinx += x_9;
     return sinx;
 }
 
@@ -139,9 +145,13 @@ pub fn cos<T>( x: T ) -> T
     // shift to enable use of more accurate sinepolynomial method.
     let mixed_pi_half = T::mixed_pi()/T::mixed_from_num(2);
 
-    let mut x_shifted = x+mixed_pi_half;
-    x_shifted = wrap_phase(x_shifted);
-    return sin(x_shifted);
+    // Wrapped before the shift, which then stays within the range of types with a +-4 range.
+    let x_wrapped = wrap_phase(x);
+    if mixed_pi_half < x_wrapped
+    {
+        return sin(x_wrapped-T::mixed_pi()-mixed_pi_half);
+    }
+    return sin(x_wrapped+mixed_pi_half);
 }
 
 /// Wrapps θ to the -π=<x<π range.
-- 
2.43.0


From 6df8d11e9aba1d76f7ecc0245f94d13dc75bd96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:47 +0000
Subject: [PATCH 12/12] fix: integer powers of floats do not depend on the std
 feature

With the std feature self.powi resolved to the inherent method of the standard library, without it to num's, and the two round differently.
---
 src/float_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float_impl.rs b/src/float_impl.rs
index 66787e8..56724c2 100644
--- a/src/float_impl.rs
+++ b/src/float_impl.rs
@@ -108,7 +108,7 @@ macro_rules! impl_mixed_num_for_primitive{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return self.powi( exp );
+                return FloatCore::powi( *self, exp );
             }
         }
         
-- 
2.43.0

