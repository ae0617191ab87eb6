From c84aa929073df54768f4f77eddd2107cb707dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:13 +0000
Subject: [PATCH 01/26] fix: floor/ceil/trunc/round return an integer for
 subnormal arguments

---
 include/gcem_incl/ceil.hpp  | 2 +-
 include/gcem_incl/floor.hpp | 2 +-
 include/gcem_incl/round.hpp | 2 +-
 include/gcem_incl/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/ceil.hpp b/include/gcem_incl/ceil.hpp
index ff1097b..6abe2b1 100644
--- a/include/gcem_incl/ceil.hpp
+++ b/include/gcem_incl/ceil.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 ceil_check_internal(x) );
diff --git a/include/gcem_incl/floor.hpp b/include/gcem_incl/floor.hpp
index 8b260ff..91bff75 100644
--- a/include/gcem_incl/floor.hpp
+++ b/include/gcem_incl/floor.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 floor_check_internal(x) );
diff --git a/include/gcem_incl/round.hpp b/include/gcem_incl/round.hpp
index 9ac4a09..e9e2d13 100644
--- a/include/gcem_incl/round.hpp
+++ b/include/gcem_incl/round.hpp
@@ -98,7 +98,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 sgn(x) * round_check_internal(abs(x)) );
diff --git a/include/gcem_incl/trunc.hpp b/include/gcem_incl/trunc.hpp
index af3f448..41564ab 100644
--- a/include/gcem_incl/trunc.hpp
+++ b/include/gcem_incl/trunc.hpp
@@ -94,7 +94,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 trunc_check_internal(x) );
-- 
2.43.0


From 1ad81666383b9543bf4244c0fdc288113d7cdaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 02/26] fix: find_exponent takes the same steps as mantissa, so
 log is right next to powers of ten

---
 include/gcem_incl/find_exponent.hpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/include/gcem_incl/find_exponent.hpp b/include/gcem_incl/find_exponent.hpp
index 200e4e9..95dceb1 100644
--- a/include/gcem_incl/find_exponent.hpp
+++ b/include/gcem_incl/find_exponent.hpp
@@ -34,20 +34,11 @@ llint_t
 find_exponent(const T x, const llint_t exponent)
 noexcept
 {
-    return( // < 1
-            x < T(1e-03)  ? \
-                find_exponent(x * T(1e+04), exponent - llint_t(4)) :
-            x < T(1e-01)  ? \
-                find_exponent(x * T(1e+02), exponent - llint_t(2)) :
+    return( // must take the same steps as mantissa(), so that the pair is consistent
             x < T(1)  ? \
                 find_exponent(x * T(10), exponent - llint_t(1)) :
-            // > 10
             x > T(10) ? \
                 find_exponent(x / T(10), exponent + llint_t(1)) :
-            x > T(1e+02) ? \
-                find_exponent(x / T(1e+02), exponent + llint_t(2)) :
-            x > T(1e+04) ? \
-                find_exponent(x / T(1e+04), exponent + llint_t(4)) :
             // else
                 exponent );
 }
-- 
2.43.0


From a7b419244051a757df96bd77cad088588e5294d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 03/26] fix: lcm with a zero argument divided by zero, and
 mixed signedness wrapped negative arguments

---
 include/gcem_incl/lcm.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index a7ca776..2125653 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -30,7 +30,9 @@ T
 lcm_compute(const T a, const T b)
 noexcept
 {
-    return abs(a * (b / gcd(a,b)));
+    return( (a == T(0) || b == T(0)) ? \
+                T(0) :
+                abs(a * (b / gcd(a,b))) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
@@ -39,7 +41,7 @@ TC
 lcm_type_check(const T1 a, const T2 b)
 noexcept
 {
-    return lcm_compute(static_cast<TC>(a),static_cast<TC>(b));
+    return lcm_compute(static_cast<TC>(abs(a)),static_cast<TC>(abs(b)));
 }
 
 }
-- 
2.43.0


From 9fcdcf36e1ac709ee9fdac2da1c878cdc7c923a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 04/26] fix: sqrt ran out of Newton iterations for very small
 arguments

---
 include/gcem_incl/sqrt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/sqrt.hpp b/include/gcem_incl/sqrt.hpp
index 1b2753c..741e09b 100644
--- a/include/gcem_incl/sqrt.hpp
+++ b/include/gcem_incl/sqrt.hpp
@@ -51,7 +51,9 @@ T
 sqrt_simplify(const T x, const T m_val)
 noexcept
 {
-    return( x > T(1e+08) ? \
+    return( x < T(1) / T(18446744073709551616.0L) ? \
+                sqrt_simplify(x * T(18446744073709551616.0L), m_val / T(4294967296.0L)) : // exact: 2^64 and 2^32
+            x > T(1e+08) ? \
                 sqrt_simplify(x / T(1e+08), T(1e+04) * m_val) :
             x > T(1e+06) ? \
                 sqrt_simplify(x / T(1e+06), T(1e+03) * m_val) :
-- 
2.43.0


From 9acf632e659d8c54f40588a4427878aff5dc13f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 05/26] fix: inv_sqrt ran out of Newton iterations for very
 small and very large arguments

---
 include/gcem_incl/inv_sqrt.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/inv_sqrt.hpp b/include/gcem_incl/inv_sqrt.hpp
index d0e33fb..e03efe5 100644
--- a/include/gcem_incl/inv_sqrt.hpp
+++ b/include/gcem_incl/inv_sqrt.hpp
@@ -43,6 +43,24 @@ noexcept
                 xn );
 }
 
+template<typename T>
+constexpr
+T
+inv_sqrt_simplify(const T x, const T m_val)
+noexcept
+{   // scale by exact powers of two into the range in which the recursion converges
+    return( x > T(18446744073709551616.0L) ? \
+                inv_sqrt_simplify(x / T(18446744073709551616.0L), m_val / T(4294967296.0L)) :
+            x > T(4294967296.0L) ? \
+                inv_sqrt_simplify(x / T(4294967296.0L), m_val / T(65536)) :
+            x < T(1) / T(18446744073709551616.0L) ? \
+                inv_sqrt_simplify(x * T(18446744073709551616.0L), m_val * T(4294967296.0L)) :
+            x < T(1) / T(4294967296.0L) ? \
+                inv_sqrt_simplify(x * T(4294967296.0L), m_val * T(65536)) :
+            // else
+                m_val * inv_sqrt_recur(x, x/T(2), 0) );
+}
+
 template<typename T>
 constexpr
 T
@@ -63,7 +81,7 @@ noexcept
             GCLIM<T>::min() > abs(T(1) - x) ? \
                 x :
             // else
-            inv_sqrt_recur(x, x/T(2), 0) );
+            inv_sqrt_simplify(x, T(1)) );
 }
 
 }
-- 
2.43.0


From 4f3e354fec56ea86ce3a68ff13c44be3f55a9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 06/26] fix: hypot overflowed when abs(y) is much larger than
 abs(x)

---
 include/gcem_incl/hypot.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/hypot.hpp b/include/gcem_incl/hypot.hpp
index 01ad4e9..cd5fa40 100644
--- a/include/gcem_incl/hypot.hpp
+++ b/include/gcem_incl/hypot.hpp
@@ -55,8 +55,10 @@ noexcept
                 abs(y) :
             GCLIM<T>::min() > abs(y) ? \
                 abs(x) :
-            // else
-            hypot_compute(x, y/x) );
+            // else, scale by the larger argument
+            abs(x) < abs(y) ? \
+                hypot_compute(y, x/y) :
+                hypot_compute(x, y/x) );
 }
 
 template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
-- 
2.43.0


From 47aa9bf53d30999ab31ea0c328d63d25f5645556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 07/26] fix: pow with the largest or smallest integral exponent
 ignored the base

---
 include/gcem_incl/pow_integral.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 4e67155..4de3094 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -83,11 +83,9 @@ noexcept
                 base :
             exp_term == T2(0) ? \
                 T1(1) :
-            // check for overflow
+            // negating the smallest exponent would overflow
             exp_term == GCLIM<T2>::min() ? \
-                T1(0) :
-            exp_term == GCLIM<T2>::max() ? \
-                GCLIM<T1>::infinity() :
+                pow_integral_sgn_check(base,exp_term + 1) / base :
             // else
             pow_integral_sgn_check(base,exp_term) );
 }
-- 
2.43.0


From f5eb0c7365e19d9d5ae166934b7553189eb751f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 08/26] fix: exp overflowed early near the top of its range and
 converted out-of-range values to integers

---
 include/gcem_incl/exp.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 595ffc2..bf5c381 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -82,7 +82,7 @@ T
 exp_split(const T x)
 noexcept
 {
-    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x))) * exp_cf(find_fraction(x)) );
+    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x)) * exp_cf(find_fraction(x))) );
 }
 
 template<typename T>
@@ -102,6 +102,11 @@ noexcept
             //
             is_posinf(x) ? \
                 GCLIM<T>::infinity() :
+            // out of range: the result overflows or underflows
+            x > T(GCLIM<T>::max_exponent) * T(GCEM_LOG_2) ? \
+                GCLIM<T>::infinity() :
+            x < T(GCLIM<T>::min_exponent - GCLIM<T>::digits - 1) * T(GCEM_LOG_2) ? \
+                T(0) :
             //
             abs(x) < T(2) ? \
                 exp_cf(x) : \
-- 
2.43.0


From 2b26610b5bc19041548db6a9f325d88fe817ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 09/26] fix: quadrature tables are constexpr, so
 incomplete_gamma can be a constant expression

---
 include/gcem_incl/quadrature/gauss_legendre_30.hpp | 4 ++--
 include/gcem_incl/quadrature/gauss_legendre_50.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/quadrature/gauss_legendre_30.hpp b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
index 295f43d..61f314b 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_30.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 30 points
  */
 
-static const long double gauss_legendre_30_points[30] = \
+static constexpr long double gauss_legendre_30_points[30] = \
 {
     -0.05147184255531769583302521316672L,
      0.05147184255531769583302521316672L,
@@ -56,7 +56,7 @@ static const long double gauss_legendre_30_points[30] = \
      0.99689348407464954027163005091870L\
 };
 
-static const long double gauss_legendre_30_weights[30] = \
+static constexpr long double gauss_legendre_30_weights[30] = \
 {
     0.10285265289355884034128563670542L,
     0.10285265289355884034128563670542L,
diff --git a/include/gcem_incl/quadrature/gauss_legendre_50.hpp b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
index d4e448c..89a9edc 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_50.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 50 points
  */
 
-static const long double gauss_legendre_50_points[50] = \
+static constexpr long double gauss_legendre_50_points[50] = \
 {
     -0.03109833832718887611232898966595L,
      0.03109833832718887611232898966595L,
@@ -76,7 +76,7 @@ static const long double gauss_legendre_50_points[50] = \
      0.99886640442007105018545944497422L\
 };
 
-static const long double gauss_legendre_50_weights[50] = \
+static constexpr long double gauss_legendre_50_weights[50] = \
 {
     0.06217661665534726232103310736061L,
     0.06217661665534726232103310736061L,
-- 
2.43.0


From 9fd0f3842aa23ee9f543cb9a64a5a34add795132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 10/26] fix: log of a negative integer is NaN, not zero

---
 include/gcem_incl/log.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/log.hpp b/include/gcem_incl/log.hpp
index 01b6a80..2a7f1d6 100644
--- a/include/gcem_incl/log.hpp
+++ b/include/gcem_incl/log.hpp
@@ -158,9 +158,9 @@ noexcept
     return( std::is_integral<T>::value ? \
                 x == T(0) ? \
                     - GCLIM<return_t<T>>::infinity() :
-                x > T(1) ? \
-                    log_check( static_cast<return_t<T>>(x) ) :
+                x == T(1) ? \
                     static_cast<return_t<T>>(0) :
+                    log_check( static_cast<return_t<T>>(x) ) :
             log_check( static_cast<return_t<T>>(x) ) );
 }
 
-- 
2.43.0


From 6b893050f8f0c760e3021a2e8c76dfc5280ab96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 11/26] fix: tanh diverged from one for large arguments

---
 include/gcem_incl/tanh.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/tanh.hpp b/include/gcem_incl/tanh.hpp
index 51fc908..c46065a 100644
--- a/include/gcem_incl/tanh.hpp
+++ b/include/gcem_incl/tanh.hpp
@@ -71,7 +71,11 @@ T
 tanh_begin(const T x)
 noexcept
 {
-    return( x/tanh_cf(x*x,1) );
+    return( x > T(23) ? \
+            // indistinguishable from one
+                T(1) :
+            // else
+                x/tanh_cf(x*x,1) );
 }
 
 template<typename T>
-- 
2.43.0


From 589a1d1d1176fb0af5c856a242940a8df55ffa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 12/26] fix: pow of an integer to a large negative power
 overflowed and divided by zero

---
 include/gcem_incl/pow_integral.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 4de3094..0dac74d 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -54,7 +54,9 @@ pow_integral_sgn_check(const T1 base, const T2 exp_term)
 noexcept
 {
     return( exp_term < T2(0) ? \
-            //
+            // the reciprocal of an integer beyond +/- one truncates to zero
+                (std::is_integral<T1>::value && (base > T1(1) || base + T1(1) < T1(0))) ? \
+                    T1(0) :
                 T1(1) / pow_integral_compute(base, - exp_term) : 
             //
                 pow_integral_compute_recur(base,T1(1),exp_term) );
-- 
2.43.0


From 2f541753fb83350e1eb107f00819cd03db26b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 13/26] fix: asinh lost all accuracy for large negative and
 overflowed for large arguments

---
 include/gcem_incl/asinh.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/gcem_incl/asinh.hpp b/include/gcem_incl/asinh.hpp
index a5f3ff6..f881473 100644
--- a/include/gcem_incl/asinh.hpp
+++ b/include/gcem_incl/asinh.hpp
@@ -40,6 +40,12 @@ noexcept
             // indistinguishable from zero
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+            // odd function: avoids cancellation for negative values
+            x < T(0) ? \
+                - asinh_compute(-x) :
+            // the one is negligible, and the square may overflow
+            x > T(1) / GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x + T(1)) ) );
 }
-- 
2.43.0


From 8a32208179339f25cc5fd36aa03115f6bc95814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 14/26] fix: acosh overflowed for large arguments

---
 include/gcem_incl/acosh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/acosh.hpp b/include/gcem_incl/acosh.hpp
index 8767200..71784fc 100644
--- a/include/gcem_incl/acosh.hpp
+++ b/include/gcem_incl/acosh.hpp
@@ -43,6 +43,9 @@ noexcept
             // indistinguishable from 1
             GCLIM<T>::min() > abs(x - T(1)) ? \
                 T(0) :
+            // the one is negligible, and the square may overflow
+            x > T(1) / GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x - T(1)) ) );
 }
-- 
2.43.0


From 1a5dd34160a1e3d8667e7e9f0cf44c63f56367a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 15/26] fix: lgamma (and tgamma) of infinity was NaN

---
 include/gcem_incl/lgamma.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 507c6d4..4a093bb 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -105,6 +105,8 @@ noexcept
                 T(0) :
             GCLIM<T>::min() > x ? \
                 GCLIM<T>::infinity() :
+            is_posinf(x) ? \
+                GCLIM<T>::infinity() :
             // else
                 lgamma_begin(x - T(1)) );
 }
-- 
2.43.0


From 58a31516b842e80f3d675d635f748ee085347041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:31 +0000
Subject: [PATCH 16/26] fix: atan of large arguments overflowed on the way and
 was not a constant expression

---
 include/gcem_incl/atan.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan.hpp b/include/gcem_incl/atan.hpp
index d2b7936..956436e 100644
--- a/include/gcem_incl/atan.hpp
+++ b/include/gcem_incl/atan.hpp
@@ -110,7 +110,8 @@ noexcept
             x < T(25)   ? atan_series_order(x,x,1U,5U)  :  // O(1/x^19)
             x < T(100)  ? atan_series_order(x,x,1U,4U)  :  // O(1/x^15)
             x < T(1000) ? atan_series_order(x,x,1U,3U)  :  // O(1/x^11)
-                          atan_series_order(x,x,1U,2U) );  // O(1/x^7)
+            x < T(1e+07) ? atan_series_order(x,x,1U,2U) :  // O(1/x^7)
+                          atan_series_order(x,x,1U,1U) );  // O(1/x^3); higher powers of x could overflow
 }
 
 // CF
-- 
2.43.0


From a9201718420c2c83ad089d99b3581cbf8162ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:48 +0000
Subject: [PATCH 17/26] fix: erf of large arguments overflowed on the way and
 was not a constant expression

---
 include/gcem_incl/erf.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/erf.hpp b/include/gcem_incl/erf.hpp
index ce920fb..5fe4989 100644
--- a/include/gcem_incl/erf.hpp
+++ b/include/gcem_incl/erf.hpp
@@ -137,7 +137,10 @@ T
 erf_begin(const T x)
 noexcept
 {
-    return( x > T(2.1) ? \
+    return( x > T(10) ? \
+            // indistinguishable from one, and the square may overflow
+                T(1) :
+            x > T(2.1) ? \
             // if
                 erf_cf_large_main(x) :
             // else
-- 
2.43.0


From d9f7a754efcbc59c97314ccf6b5825b1beeaa1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:00 +0000
Subject: [PATCH 18/26] fix: pow of integers of different types was computed in
 the base's type and could overflow

---
 include/gcem_incl/pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 3891ede..701314c 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -57,7 +57,7 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return pow_integral(base,exp_term);
+    return pow_integral(static_cast<TC>(base),exp_term);
 }
 
 }
-- 
2.43.0


From e1ef988790b9d112554e8981b47b8ba3530c32f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:30 +0000
Subject: [PATCH 19/26] fix: erf loses up to 12 bits to cancellation for
 arguments between 1.5 and 2.1

---
 include/gcem_incl/erf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/erf.hpp b/include/gcem_incl/erf.hpp
index 5fe4989..e81f2fc 100644
--- a/include/gcem_incl/erf.hpp
+++ b/include/gcem_incl/erf.hpp
@@ -140,7 +140,7 @@ noexcept
     return( x > T(10) ? \
             // indistinguishable from one, and the square may overflow
                 T(1) :
-            x > T(2.1) ? \
+            x > T(1.5) ? \
             // if
                 erf_cf_large_main(x) :
             // else
-- 
2.43.0


From 9dfaffb8f5d3eaa35a9f7a5e9880d415b243ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:48 +0000
Subject: [PATCH 20/26] fix: incomplete_gamma loses up to 17 bits to
 cancellation for z well above a

---
 include/gcem_incl/incomplete_gamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 9ee4146..df18aac 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -200,7 +200,7 @@ noexcept
             GCLIM<T>::min() > a ? \
                 T(1) : 
             // cf or quadrature
-            (a < T(10)) && (z - a < T(10)) ?
+            (a < T(10)) && (z - a < T(2)) ?
                 incomplete_gamma_cf_1(a,z) :
             (a < T(10)) || (z/a > T(3)) ?
                 incomplete_gamma_cf_2(a,z) :
-- 
2.43.0


From f1ed23fb7b218e189cec98cddb900c3c2172abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:48 +0000
Subject: [PATCH 21/26] fix: incomplete_gamma neglected tails of up to 1e-4 in
 its quadrature range for a below 100

---
 include/gcem_incl/incomplete_gamma.hpp | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index df18aac..2947803 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -79,18 +79,7 @@ T
 incomplete_gamma_quad_lb(const T a, const T z)
 noexcept
 {
-    return( a > T(1000) ? max(T(0),min(z,a) - 11*sqrt(a)) : // break integration into ranges
-            a > T(800)  ? max(T(0),min(z,a) - 11*sqrt(a)) :
-            a > T(500)  ? max(T(0),min(z,a) - 10*sqrt(a)) :
-            a > T(300)  ? max(T(0),min(z,a) - 10*sqrt(a)) : 
-            a > T(100)  ? max(T(0),min(z,a) -  9*sqrt(a)) :
-            a > T(90)   ? max(T(0),min(z,a) -  9*sqrt(a)) :
-            a > T(70)   ? max(T(0),min(z,a) -  8*sqrt(a)) :
-            a > T(50)   ? max(T(0),min(z,a) -  7*sqrt(a)) :
-            a > T(40)   ? max(T(0),min(z,a) -  6*sqrt(a)) :
-            a > T(30)   ? max(T(0),min(z,a) -  5*sqrt(a)) :
-            // else
-                max(T(0),min(z,a)-4*sqrt(a)) );
+    return max(T(0), min(z,a) - 11*sqrt(a));
 }
 
 template<typename T>
@@ -99,16 +88,7 @@ T
 incomplete_gamma_quad_ub(const T a, const T z)
 noexcept
 {
-    return( a > T(1000) ? min(z, a + 10*sqrt(a)) :
-            a > T(800)  ? min(z, a + 10*sqrt(a)) :
-            a > T(500)  ? min(z, a + 9*sqrt(a))  :
-            a > T(300)  ? min(z, a + 9*sqrt(a))  : 
-            a > T(100)  ? min(z, a + 8*sqrt(a))  :
-            a > T(90)   ? min(z, a + 8*sqrt(a))  :
-            a > T(70)   ? min(z, a + 7*sqrt(a))  :
-            a > T(50)   ? min(z, a + 6*sqrt(a))  :
-            // else
-                min(z, a + 5*sqrt(a)) );
+    return min(z, a + 12*sqrt(a));
 }
 
 template<typename T>
-- 
2.43.0


From f8361be5cb46a3083c2a8560e4b673b260a1d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:42 +0000
Subject: [PATCH 22/26] fix: incomplete_beta_inv started from the wrong end for
 a or b below one and diverged

---
 include/gcem_incl/incomplete_beta_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 9f575a3..c278845 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -153,7 +153,7 @@ incomplete_beta_inv_initial_val_2(const T alpha_par, const T beta_par, const T p
 noexcept
 {
     return( p <= s_1/(s_1 + s_2) ? pow(p*(s_1+s_2)*alpha_par,T(1)/alpha_par) :
-                                    T(1) - pow(p*(s_1+s_2)*beta_par,T(1)/beta_par) );
+                                    T(1) - pow((T(1)-p)*(s_1+s_2)*beta_par,T(1)/beta_par) );
 }
 
 // initial value
-- 
2.43.0


From 92a155ec445fb2894da25fa77a633b526bb864a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:55 +0000
Subject: [PATCH 23/26] fix: incomplete_gamma_inv used the derivative at the
 previous iterate and diverged to NaN in the upper tail

---
 include/gcem_incl/incomplete_gamma_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index e5976d0..1fa09f6 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -192,7 +192,7 @@ noexcept
     return( iter_count <= GCEM_INCML_GAMMA_INV_MAX_ITER ? \
             // if
                 incomplete_gamma_inv_recur(value-direc,a,p,
-                    incomplete_gamma_inv_deriv_1(value,a,lg_val),
+                    incomplete_gamma_inv_deriv_1(value-direc,a,lg_val),
                     lg_val,iter_count+1) :
             // else 
                 value - direc );
-- 
2.43.0


From 67407614554dbcb7fd3c9908a2b877f523f3939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:55 +0000
Subject: [PATCH 24/26] fix: incomplete_beta_inv used the derivative at the
 previous iterate and diverged to NaN in the tails

---
 include/gcem_incl/incomplete_beta_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index c278845..69325e7 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -274,7 +274,7 @@ noexcept
     return( iter_count <= GCEM_INCML_BETA_INV_MAX_ITER ?
             // if
                 incomplete_beta_inv_recur(value-direc,alpha_par,beta_par,p,
-                    incomplete_beta_inv_deriv_1(value,alpha_par,beta_par,lb_val),
+                    incomplete_beta_inv_deriv_1(value-direc,alpha_par,beta_par,lb_val),
                     lb_val, iter_count+1) :
             // else
                 value - direc );
-- 
2.43.0


From a64c592b2261b29838907524e528eef8da56fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 25/26] fix: tgamma of -infinity and of huge negative arguments
 recursed without end

---
 include/gcem_incl/tgamma.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index deffd3a..313c3fc 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -43,9 +43,11 @@ noexcept
             GCLIM<T>::min() > abs(x) ? \
                 GCLIM<T>::infinity() :
             // negative numbers
+            is_neginf(x) ? \
+                GCLIM<T>::quiet_NaN() :
             x < T(0) ? \
                 // check for integer
-                GCLIM<T>::min() > abs(x - find_whole(x)) ? \
+                GCLIM<T>::min() > abs(x - internal::floor_check(x)) ? \
                     GCLIM<T>::quiet_NaN() :
                 // else
                 tgamma_check(x+T(1)) / x :
-- 
2.43.0


From 22f24a282e9404c6397a9358dc2a1cf8887ddd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 26/26] fix: lgamma lost its accuracy for small positive
 arguments and divided by zero below epsilon

---
 include/gcem_incl/lgamma.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 4a093bb..967fe38 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -107,6 +107,9 @@ noexcept
                 GCLIM<T>::infinity() :
             is_posinf(x) ? \
                 GCLIM<T>::infinity() :
+            // x - 1 would lose the digits of a small x
+            x < T(0.5) ? \
+                lgamma_begin(x) - log(x) :
             // else
                 lgamma_begin(x - T(1)) );
 }
-- 
2.43.0

