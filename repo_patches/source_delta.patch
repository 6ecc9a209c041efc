From 85599d748a9b3d3084bf8979be1a5aa00a30f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:15 +0000
Subject: [PATCH 01/16] fix: complex division uses the imaginary part of the
 divisor

---
 src/complex/cartesian_impl.rs | 4 ++--
 src/complex/ops.rs            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 530286f..089f718 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -388,7 +388,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));
             }
@@ -401,7 +401,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                 self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
diff --git a/src/complex/ops.rs b/src/complex/ops.rs
index 5539eb9..07ba67c 100644
--- a/src/complex/ops.rs
+++ b/src/complex/ops.rs
@@ -203,7 +203,7 @@ pub fn div_cartesian<T>( numerator: Cartesian<T>, denominator: Cartesian<T>  ) -
     let a = numerator.re;
     let b = numerator.im;
     let c = denominator.re;
-    let d = denominator.re;
+    let d = denominator.im;
 
     let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
     let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
-- 
2.43.0


From fd8e977b078ec5dbca05aae68d6f91736f73dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 02/16] fix: complex += and -= update the imaginary part from
 the imaginary part

---
 src/complex/cartesian_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 089f718..bf5771b 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -310,7 +310,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn add_assign(&mut self, rhs: $T) {
                 self.re =  self.re+rhs.re;
-                self.im =  self.re+rhs.im;
+                self.im =  self.im+rhs.im;
             }
         }
         
@@ -326,7 +326,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn sub_assign(&mut self, rhs: $T) {
                 self.re =  self.re-rhs.re;
-                self.im =  self.re-rhs.im;
+                self.im =  self.im-rhs.im;
             }
         }
     }
-- 
2.43.0


From e23f65684ca912de10decc7e1e14bd7150db2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 03/16] fix: complex /= by real zero keeps the saturated value

---
 src/complex/cartesian_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index bf5771b..2202c95 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -458,6 +458,7 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
         if rhs == T1::mixed_zero() {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
+            return;
         }
         self.re = self.re/T2::mixed_from_num(rhs);
         self.im = self.im/T2::mixed_from_num(rhs);
-- 
2.43.0


From d797897ae105aadaf4070872963367ba1c76cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:08 +0000
Subject: [PATCH 04/16] fix: wrap_phase neither overflows in narrow types nor
 loops once per turn

---
 src/trigonometry.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index bf2b450..c592687 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -164,17 +164,33 @@ pub fn wrap_phase<T>( phi: T ) -> T
     where T: crate::MixedNum + crate::MixedOps + crate::MixedPi + crate::MixedNumSigned
 {
     let mixed_pi  = T::mixed_pi();
-    let tau = T::mixed_from_num(2)*mixed_pi;
  
     let mut temp_scalar = phi;
     
-    while temp_scalar < -mixed_pi
+    // The first turn is taken in two halves, as not all types that can represent π can represent 2π.
+    if temp_scalar < -mixed_pi
     {
-        temp_scalar = temp_scalar + tau;
+        temp_scalar = temp_scalar + mixed_pi + mixed_pi;
     }
-    while mixed_pi <= temp_scalar
+    else if mixed_pi <= temp_scalar
     {
-        temp_scalar = temp_scalar - tau;
+        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
+    }
+
+    // Any remaining turns are taken at once, as there may be very many of them. 2π is representable if there are any.
+    if temp_scalar < -mixed_pi || mixed_pi <= temp_scalar
+    {
+        let tau = mixed_pi + mixed_pi;
+        temp_scalar = phi % tau;
+
+        if temp_scalar < -mixed_pi
+        {
+            temp_scalar = temp_scalar + tau;
+        }
+        else if mixed_pi <= temp_scalar
+        {
+            temp_scalar = temp_scalar - tau;
+        }
     }
     return temp_scalar;
 }
-- 
2.43.0


From 0c20010521cd2d1b3062fdc880b9b03c3652703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:48 +0000
Subject: [PATCH 05/16] fix: niirf works in unsigned and narrow types and
 returns on infinity

---
 src/trigonometry/sqrt.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 8294bec..90ab73d 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -72,12 +72,18 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     while x_< T::mixed_from_num(0.25)
     {
         norm -=1;
-        x_ = x_*T::mixed_from_num(4);
+        // Multiplied by two twice, as not all types can represent 4.
+        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);
     }
     while T::mixed_from_num(1.0) <= x_
     {
+        let x_quarter = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
+        if x_quarter == x_
+        {
+            return x_; // Infinity cannot be normalized, it is its own root.
+        }
         norm +=1;
-        x_ = x_/T::mixed_from_num(4);
+        x_ = x_quarter;
     }
 
     /// LUT for getting the acceleration factor β.
@@ -140,7 +146,16 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0
     for _n in 1..iterations
     {
-        y = beta(x_)*(x_-y.mixed_powi(2))+y;
+        let y_sqr = y.mixed_powi(2);
+        // The difference is kept non-negative, as unsigned types cannot represent a negative one.
+        if y_sqr <= x_
+        {
+            y = y+beta(x_)*(x_-y_sqr);
+        }
+        else
+        {
+            y = y-beta(x_)*(y_sqr-x_);
+        }
     }
 
     while norm.abs() != 0
-- 
2.43.0


From 4f464c6674703695a745ea8d648cc32f316f97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:19 +0000
Subject: [PATCH 06/16] fix: fixed-point atan and atan2 do not overflow for
 large arguments and quotients

---
 src/fixed_impl.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index e68dc8e..5504ac7 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -301,12 +301,32 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_atan(&self) -> Self {
+                if Self::from_num(1) < *self || *self < Self::from_num(-1)
+                {
+                    return self.mixed_atan2(Self::from_num(1));
+                }
                 return cordic::atan(*self);
             }
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_atan2(&self, other:Self) -> Self {
-                return cordic::atan2(*self, other);
+                if *self == Self::from_num(0) || other == Self::from_num(0)
+                {
+                    return cordic::atan2(*self, other);
+                }
+
+                // The quotient is kept within -1 to 1, as greater ones may overflow, in the division as well as in cordic::atan.
+                if other.unsigned_abs() < self.unsigned_abs()
+                {
+                    let phi = cordic::atan(other / *self);
+                    return if self.is_positive() { Self::FRAC_PI_2 - phi } else { -Self::FRAC_PI_2 - phi };
+                }
+                let phi = cordic::atan(*self / other);
+                if other.is_positive()
+                {
+                    return phi;
+                }
+                return if self.is_positive() { phi + Self::PI } else { phi - Self::PI };
             }
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
-- 
2.43.0


From a3a939932bebb71cb66b98d0232767a84a97ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:56 +0000
Subject: [PATCH 07/16] fix: fixed-point asin and acos for types with more than
 half of the bits fractional

---
 src/fixed_impl.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 5504ac7..1ab6c32 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -1,6 +1,26 @@
 use crate::*;
 use fixed;
 
+/// Arccosine from the tangent of half the angle.
+/// The shifts in cordic::asin exceed the width of types with more than half of their bits after the point.
+/// The argument is limited to -1 to 1.
+fn acos<T: cordic::CordicNumber>( x:T, frac_1_sqrt_2:T ) -> T
+{
+    let one = T::one();
+    if x < T::zero()
+    {
+        return T::pi() - acos( if x < -one { one } else { -x }, frac_1_sqrt_2 );
+    }
+    let x = if one < x { one } else { x };
+
+    // sqrt((1-x)/2) and sqrt((1+x)/2), with all intermediate values within 0 to 1.
+    let sin_half = cordic::sqrt(one - x)*frac_1_sqrt_2;
+    let cos_half = cordic::sqrt(one - ((one - x) >> 1));
+
+    let half = cordic::atan(sin_half / cos_half);
+    return half + half;
+}
+
 macro_rules! impl_mixed_num_conversion{
     ( $T1:ty, $T2:ty ) => {
         impl MixedNumConversion<$T2> for $T1
@@ -274,7 +294,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_asin(&self) -> Self {
-                return cordic::asin(*self);
+                return Self::FRAC_PI_2 - acos(*self, Self::FRAC_1_SQRT_2);
             }
         }
 
@@ -288,7 +308,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_acos(&self) -> Self {
-                return cordic::acos(*self);
+                return acos(*self, Self::FRAC_1_SQRT_2);
             }
         }
 
-- 
2.43.0


From 80f45b9405199cb34f8de2f0111d7ab28a4c233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:10 +0000
Subject: [PATCH 08/16] fix: fixed-point sine and cosine of large angles take
 bounded time

---
 src/fixed_impl.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 1ab6c32..cf95aa9 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -1,6 +1,17 @@
 use crate::*;
 use fixed;
 
+/// Removes whole turns, as the time used by cordic::sin_cos is proportional to the number of them.
+fn remove_turns<T: cordic::CordicNumber + core::ops::Rem<Output = T>>( angle:T ) -> T
+{
+    let half = angle >> 1;
+    if half < -T::pi() || T::pi() < half
+    {
+        return angle % (T::pi() + T::pi());
+    }
+    return angle;
+}
+
 /// Arccosine from the tangent of half the angle.
 /// The shifts in cordic::asin exceed the width of types with more than half of their bits after the point.
 /// The argument is limited to -1 to 1.
@@ -283,13 +294,13 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the sin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_sin(&self) -> Self {
-                return cordic::sin(*self);
+                return cordic::sin(remove_turns(*self));
             }
             #[inline(always)]
             fn mixed_sincos(&self) -> (Self, Self) 
                 where Self: Sized
             {
-                return cordic::sin_cos(*self);
+                return cordic::sin_cos(remove_turns(*self));
             }
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
@@ -303,7 +314,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the cos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_cos(&self) -> Self {
-                return cordic::cos(*self);
+                return cordic::cos(remove_turns(*self));
             }
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
-- 
2.43.0


From 8ed2411e2e834c29d4adf50302a5787fb6f4f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:24 +0000
Subject: [PATCH 09/16] fix: fixed-point exponential of large negative
 arguments takes bounded time

---
 src/fixed_impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index cf95aa9..df7e9c7 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -371,6 +371,12 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the exp() of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_exp(&self) -> Self {
+                // Less than half of the smallest positive value of any supported type.
+                // cordic::exp would get there by one division per unit of the argument.
+                if self.to_num::<i64>() < -64
+                {
+                    return Self::from_num(0);
+                }
                 return cordic::exp(*self);
             }
         }
-- 
2.43.0


From 520341ed782a7c0e9e432d9016d62750bc0edaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:58 +0000
Subject: [PATCH 10/16] fix: negative integer powers of integers and
 fixed-point numbers are powers of the reciprocal

---
 src/fixed_impl.rs | 8 ++++++++
 src/int_impl.rs   | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index df7e9c7..f362973 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -199,6 +199,10 @@ macro_rules! impl_mixed_num_for_fixed_unsigned{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( Self::from_num(1) / *self, exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
@@ -253,6 +257,10 @@ macro_rules! impl_mixed_num_for_fixed_signed{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( Self::from_num(1) / *self, exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
diff --git a/src/int_impl.rs b/src/int_impl.rs
index 3ab4005..dd88670 100644
--- a/src/int_impl.rs
+++ b/src/int_impl.rs
@@ -49,6 +49,10 @@ macro_rules! impl_mixed_num_for_primitive{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( 1 / *self, exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
-- 
2.43.0


From 6d597efbd3e9c6c7a4970831f27dcbc50fef9ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:32 +0000
Subject: [PATCH 11/16] fix: polynomial sine does not overflow in fixed-point
 types

---
 src/trigonometry.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index c592687..d62233b 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -85,11 +85,19 @@ pub fn sin<T>( x: T ) -> T
         x_ = mixed_pi_half-delta;
     }
 
-    // Calculate sine by using 
-    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
-    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
-    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
-    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
+    // Calculate sine by using the tailor series, each term from the previous one.
+    // The powers of x and the factorials themselves are not representable in all types.
+    let x_sqr = x_*x_;
+    let mut term = x_;
+    let mut sinx = term;
+    term *= x_sqr*T::mixed_from_num(1.0/6.0);   // x^3/3!
+    sinx -= term;
+    term *= x_sqr*T::mixed_from_num(1.0/20.0);  // x^5/5!
+    sinx += term;
+    term *= x_sqr*T::mixed_from_num(1.0/42.0);  // x^7/7!
+    sinx -= term;
+    term *= x_sqr*T::mixed_from_num(1.0/72.0);  // x^9/9!
+    sinx += term;
     return sinx;
 }
 
-- 
2.43.0


From 48bf98740b725ec5aa915dc6a8fd81b68710af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:41 +0000
Subject: [PATCH 12/16] fix: polynomial arctangent does not overflow or divide
 by zero in fixed-point types

---
 src/trigonometry/atan.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/atan.rs b/src/trigonometry/atan.rs
index 7c12cff..fa56471 100644
--- a/src/trigonometry/atan.rs
+++ b/src/trigonometry/atan.rs
@@ -15,7 +15,9 @@
 fn atan_poly_1<T>( y: T, x: T ) -> T
     where T: crate::MixedNum + crate::MixedNumSigned + crate::MixedOps + crate::MixedPowi
 {
-    let phi = (x*y) / ( x.mixed_powi(2) + T::mixed_from_num( 0.28125 )*y.mixed_powi(2) );
+    // Calculated from the quotient, as the product and the squares may not be representable.
+    let ratio = y/x;
+    let phi = ratio / ( T::mixed_from_num( 1 ) + T::mixed_from_num( 0.28125 )*ratio.mixed_powi(2) );
     return phi;
 }
 
@@ -34,7 +36,8 @@ fn atan_poly_1<T>( y: T, x: T ) -> T
 fn atan_poly_2<T>( y: T, x: T ) -> T
     where T: crate::MixedNum + crate::MixedNumSigned + crate::MixedOps + crate::MixedPowi
 {
-    let phi     = (x*y) / ( y.mixed_powi(2) + T::mixed_from_num( 0.28125 )*x.mixed_powi(2) );
+    let ratio = x/y;
+    let phi     = ratio / ( T::mixed_from_num( 1 ) + T::mixed_from_num( 0.28125 )*ratio.mixed_powi(2) );
     return phi;
 }
 
-- 
2.43.0


From f358cffce69692aa90c2d38454fc3a3c181fca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:09 +0000
Subject: [PATCH 13/16] fix: documented accuracy of the polynomial arctangent
 is 0.29 degrees, not 0.028

---
 src/traits/math_traits.rs | 2 +-
 src/trigonometry/atan.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/math_traits.rs b/src/traits/math_traits.rs
index b737b76..6dd3f23 100644
--- a/src/traits/math_traits.rs
+++ b/src/traits/math_traits.rs
@@ -53,7 +53,7 @@ pub trait MixedAtan
     fn mixed_atan2(&self, other:Self) -> Self;
     /// Calculate atan2(y,x) using a selection of polynomial approximations, one for each octant in the unit circle.
     /// 
-    /// The method is accurat within 0.028 degrees.
+    /// The method is accurat within 0.29 degrees.
     /// 
     /// \[1\] R. G. Lyons, Streamlining Digital Signal Processing, Second Edition, IEEE Press, 2012.
     /// 
diff --git a/src/trigonometry/atan.rs b/src/trigonometry/atan.rs
index fa56471..111073d 100644
--- a/src/trigonometry/atan.rs
+++ b/src/trigonometry/atan.rs
@@ -44,7 +44,7 @@ fn atan_poly_2<T>( y: T, x: T ) -> T
 
 /// Calculate atan2(y,x) using a selection of polynomial approximations, one for each octant in the unit circle.
 /// 
-/// The method is accurat within 0.028 degrees.
+/// The method is accurat within 0.29 degrees.
 /// 
 /// \[1\] R. G. Lyons, Streamlining Digital Signal Processing, Second Edition, IEEE Press, 2012.
 /// 
-- 
2.43.0


From 251fe245fea58d0148a55bfb7a2897b728778d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:21 +0000
Subject: [PATCH 14/16] fix: fixed-point asin and acos keep their accuracy near
 -1 and 1

---
 src/fixed_impl.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index f362973..875a31f 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -25,7 +25,15 @@ fn acos<T: cordic::CordicNumber>( x:T, frac_1_sqrt_2:T ) -> T
     let x = if one < x { one } else { x };
 
     // sqrt((1-x)/2) and sqrt((1+x)/2), with all intermediate values within 0 to 1.
-    let sin_half = cordic::sqrt(one - x)*frac_1_sqrt_2;
+    // 1-x is scaled up for the square root, as that of a small number has few significant bits.
+    let mut square = one - x;
+    let mut scale = 0;
+    while T::zero() < square && square < one >> 2
+    {
+        square = square << 2;
+        scale += 1;
+    }
+    let sin_half = (cordic::sqrt(square)*frac_1_sqrt_2) >> scale;
     let cos_half = cordic::sqrt(one - ((one - x) >> 1));
 
     let half = cordic::atan(sin_half / cos_half);
-- 
2.43.0


From ba8d1fe7078b1fbe7ad0049d3b55944ffe015446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 15/16] fix: polar numbers can be multiplied by cartesian ones

The product asked for a scalar type that converts itself to polar form, which no scalar type does.
---
 src/complex/polar_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/polar_impl.rs b/src/complex/polar_impl.rs
index 0e30f4b..9c8de5e 100644
--- a/src/complex/polar_impl.rs
+++ b/src/complex/polar_impl.rs
@@ -141,7 +141,7 @@ impl <T: MixedNum + MixedNumSigned + MixedOps> core::ops::Mul<Polar<T>> for Pola
     }
 }
 
-impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan + ToPolar<T>> core::ops::Mul<Cartesian<T>> for Polar<T> {
+impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan> core::ops::Mul<Cartesian<T>> for Polar<T> {
     type Output = Self;
     #[inline]
     fn mul(self, rhs: Cartesian<T>) -> Self {
-- 
2.43.0


From 8fd0844f8ee9b935a408a04514f77bcb049d6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 16/16] fix: acosh of large negative floats is NaN

---
 src/float_impl/f32_impl.rs | 5 +++++
 src/float_impl/f64_impl.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/float_impl/f32_impl.rs b/src/float_impl/f32_impl.rs
index b46ac55..5ec6492 100644
--- a/src/float_impl/f32_impl.rs
+++ b/src/float_impl/f32_impl.rs
@@ -50,6 +50,11 @@ impl MixedCosh for f32
     }
     #[inline(always)]
     fn mixed_acosh(&self) -> Self {
+        // libm does not report all negative arguments as outside the domain.
+        if *self < 1f32
+        {
+            return f32::NAN;
+        }
         return libm::acoshf(*self);
     }
 }
diff --git a/src/float_impl/f64_impl.rs b/src/float_impl/f64_impl.rs
index b1005c1..0cfc089 100644
--- a/src/float_impl/f64_impl.rs
+++ b/src/float_impl/f64_impl.rs
@@ -50,6 +50,11 @@ impl MixedCosh for f64
     }
     #[inline(always)]
     fn mixed_acosh(&self) -> Self {
+        // libm does not report all negative arguments as outside the domain.
+        if *self < 1f64
+        {
+            return f64::NAN;
+        }
         return libm::acosh(*self);
     }
 }
-- 
2.43.0

