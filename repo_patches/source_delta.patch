From 287519b5e46d4ddf938f40a2cf86df80649573f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 001/109] hook: guarded compile-time choice of the decimal
 precision (E_FLOAT_VERIF_DIGITS10)

---
 libs/e_float/src/e_float/e_float_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.h b/libs/e_float/src/e_float/e_float_base.h
index 6f5aea2..133f56e 100644
--- a/libs/e_float/src/e_float/e_float_base.h
+++ b/libs/e_float/src/e_float/e_float_base.h
@@ -25,7 +25,10 @@
   #define E_FLOAT_TEST_REAL_IMAG_TESTS
   #endif
 
-  #if defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
+  #if defined(E_FLOAT_VERIF_DIGITS10)
+  // Verification builds only: select the precision on the command line.
+  #define E_FLOAT_DIGITS10 E_FLOAT_VERIF_DIGITS10
+  #elif defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
   #define E_FLOAT_DIGITS10 1000001
   #elif defined(E_FLOAT_TEST_REAL_IMAG_TESTS)
   #define E_FLOAT_DIGITS10 101
-- 
2.43.0


From 37b90e3766dc7b5d28045bef3beda14770001e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 002/109] fix: efx square root stopped iterating before
 reaching full precision

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 39c99a3..a356a55 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1150,16 +1150,10 @@ efx::e_float& efx::e_float::calculate_sqrt()
     // Next iteration of *this
     const e_float iteration_term(vi * (-((*this) * (*this)) + x));
 
+    // Always run the iteration up to the full precision. A small iteration term
+    // alone does not show convergence because it is itself only computed
+    // with the (reduced) precision of this step.
     *this += iteration_term;
-
-    const std::int64_t order_check = order() - iteration_term.order();
-
-    if(   (digits      > static_cast<std::int32_t>(ef::tolerance() / 4))
-       && (order_check > static_cast<std::int64_t>(ef::tolerance() / 2))
-      )
-    {
-      break;
-    }
   }
 
   my_prec_elem = original_prec_elem;
-- 
2.43.0


From 0be75516e013787331213f6be9fe7ea9ee9ed157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 003/109] fix: subtracting an e_float from itself in place
 doubled and negated it (efx, gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 6 ++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index a356a55..935f4f1 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -659,6 +659,12 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
 {
+  if(this == &v)
+  {
+    // Do not negate the subtrahend together with *this.
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index cb9d9ab..6e9f38a 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -264,6 +264,12 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
 gmp::e_float& gmp::e_float::operator-=(const e_float& v)
 {
+  if(this == &v)
+  {
+    // Do not negate the subtrahend together with *this.
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
-- 
2.43.0


From b96ded6a729b3cfe924bc84afa5275dd51833cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 004/109] fix: adding an infinite or NaN right-hand operand to
 a finite e_float ignored it (efx, gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 10 ++++++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 935f4f1..b786b5b 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -419,6 +419,11 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(v.isnan())
+  {
+    return operator=(v);
+  }
+
   if(isinf())
   {
     if(v.isinf() && (isneg() != v.isneg()))
@@ -429,6 +434,11 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(v.isinf())
+  {
+    return operator=(v);
+  }
+
   if(iszero())
   {
     return operator=(v);
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 6e9f38a..68f356c 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -234,6 +234,11 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(v.isnan())
+  {
+    return operator=(v);
+  }
+
   if(isinf())
   {
     if(v.isinf() && (isneg() != v.isneg()))
@@ -244,6 +249,11 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(v.isinf())
+  {
+    return operator=(v);
+  }
+
   ::mpf_add(my_rop, my_rop, v.my_rop);
 
   // Check for overflow.
-- 
2.43.0


From 4fc865f0debd0be28883ac48887b9c707c564421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 005/109] fix: efx quotient of operands with equal magnitude
 had the wrong sign, and 0/0 was 1

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index b786b5b..081a349 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -812,13 +812,16 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 
   if(u_and_v_are_finite_and_identical)
   {
-    *this = ef::one();
-
-    if(my_neg != v.my_neg)
+    if(iszero())
     {
-      negate();
+      return (*this = std::numeric_limits<e_float>::quiet_NaN());
     }
 
+    // Evaluate the sign of the result before overwriting *this (which might be v).
+    const bool b_result_is_neg = (my_neg != v.my_neg);
+
+    *this = ((!b_result_is_neg) ? ef::one() : -ef::one());
+
     return *this;
   }
   else
-- 
2.43.0


From bd142983b2a9985096c8cbf35c44c68b617acecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 006/109] fix: minimum of signed long long overflowed in mixed
 arithmetic, and gmp/mpfr did not convert back to it

---
 libs/e_float/src/e_float/e_float_base.cpp      | 10 ++++++----
 libs/e_float/src/e_float/efx/e_float_efx.cpp   |  2 +-
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   |  4 ++--
 libs/e_float/src/e_float/gmp/e_float_gmp.h     |  2 +-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp |  4 ++--
 libs/e_float/src/e_float/mpfr/e_float_mpfr.h   |  2 +-
 6 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index f834a6b..f598714 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -100,7 +100,7 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
   if(n < static_cast<signed long long>(0))
   {
     negate();
-    add_unsigned_long_long(static_cast<unsigned long long>(-n));
+    add_unsigned_long_long(static_cast<unsigned long long>(0U) - static_cast<unsigned long long>(n));
     negate();
   }
   else
@@ -113,14 +113,16 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
 
 e_float& e_float_base::sub_signed_long_long(const signed long long n)
 {
-  return add_signed_long_long(static_cast<signed long long>(-n));
+  return ((n < static_cast<signed long long>(0))
+           ? add_unsigned_long_long(static_cast<unsigned long long>(0U) - static_cast<unsigned long long>(n))
+           : sub_unsigned_long_long(static_cast<unsigned long long>(n)));
 }
 
 e_float& e_float_base::mul_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(0U) - static_cast<unsigned long long>(n));
 
   if(b_neg)
   {
@@ -141,7 +143,7 @@ e_float& e_float_base::div_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(0U) - static_cast<unsigned long long>(n));
 
   if(b_neg)
   {
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 081a349..85021b1 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1556,7 +1556,7 @@ signed long long efx::e_float::extract_signed_long_long() const
     }
   }
 
-  return ((!b_neg) ? static_cast<signed long long>(val) : static_cast<signed long long>(-static_cast<signed long long>(val)));
+  return ((!b_neg) ? static_cast<signed long long>(val) : static_cast<signed long long>(static_cast<unsigned long long>(0U) - val));
 }
 
 unsigned long long efx::e_float::extract_unsigned_long_long() const
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 68f356c..9fb2b55 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -779,8 +779,8 @@ signed long long gmp::e_float::extract_signed_long_long() const
 
   if(nx > ef::signed_long_long_max())
   {
-    return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+    return ((!b_neg) ? (std::numeric_limits<signed long long>::max)()
+                     : (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index 8189b51..bc1ce8a 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -85,7 +85,7 @@
 
         const unsigned long long u =
           ((!is_neg) ? static_cast<unsigned long long>(n)
-                     : static_cast<unsigned long long>(-static_cast<signed long long>(n)));
+                     : static_cast<unsigned long long>(0U) - static_cast<unsigned long long>(n));
 
         from_unsigned_long_long(u);
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index e672225..7ee12ea 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -410,8 +410,8 @@ signed long long mpfr::e_float::extract_signed_long_long() const
 
   if(nx > ef::signed_long_long_max())
   {
-    return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+    return ((!b_neg) ? (std::numeric_limits<signed long long>::max)()
+                     : (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
index 907b5d5..e5649aa 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
@@ -62,7 +62,7 @@
 
         const unsigned long long u =
           ((!is_neg) ? static_cast<unsigned long long>(n)
-                     : static_cast<unsigned long long>(-static_cast<signed long long>(n)));
+                     : static_cast<unsigned long long>(0U) - static_cast<unsigned long long>(n));
 
         init();
 
-- 
2.43.0


From 4b83586f801be0ffebb62fd1b2545221651216ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 007/109] fix: efx multiply/divide by a small integer: no
 overflow to infinity, no underflow to zero, lost limb on left shift

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 85021b1..5106363 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -908,6 +908,14 @@ efx::e_float& efx::e_float::mul_unsigned_long_long(const unsigned long long n)
     my_data.front() = static_cast<std::uint32_t>(carry);
   }
 
+  // Check for overflow.
+  if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
+     && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)())
+    )
+  {
+    *this = std::numeric_limits<e_float>::infinity();
+  }
+
   // Set the sign.
   my_neg = b_neg;
 
@@ -981,7 +989,7 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
 
       // Shift result of the division one element to the left.
       std::copy(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
-                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem - 1),
+                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem),
                 my_data.begin());
 
       const array_type::size_type ip = static_cast<array_type::size_type>(my_prec_elem - 1);
@@ -991,7 +999,7 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
   }
 
   // Check for underflow.
-  if(iszero())
+  if(iszero() || (my_exp < std::numeric_limits<e_float>::min_exponent10))
   {
     return (*this = ef::zero());
   }
-- 
2.43.0


From 3f4edab323af86629e97e7978d99a0ac9187af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 008/109] fix: finite long double beyond the range of double
 became infinite; gmp copied NaN/inf into an uninitialised number

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 +++++--
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 5106363..572efdc 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -151,9 +151,12 @@ void efx::e_float::from_long_double(const long double l)
 {
   const bool b_neg = (l < static_cast<long double>(0.0L));
 
-  if(!ef::isfinite(static_cast<double>(l)))
+  using std::isfinite;
+  using std::isnan;
+
+  if(!isfinite(l))
   {
-    operator=(ef::isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    operator=(isnan(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 9fb2b55..e2b2847 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -180,11 +180,13 @@ void gmp::e_float::from_long_double(const long double l)
 
   using std::isfinite;
 
-  if(isfinite(static_cast<double>(l)) == 0)
+  if(!isfinite(l))
   {
     using std::isnan;
 
-    operator=(isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    ::mpf_init_set_ui(my_rop, 0U);
+
+    operator=(isnan(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
-- 
2.43.0


From 7a3ed76270f283ee77c67c84a91c9bd197628700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 009/109] fix: gmp treated infinity and NaN as zero and
 integer, dropping them in integer arithmetic and inversion

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 26 +++++++++++++++++---
 libs/e_float/src/e_float/gmp/e_float_gmp.h   |  4 +--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index e2b2847..34f7847 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -361,6 +361,11 @@ gmp::e_float& gmp::e_float::operator/=(const e_float& v)
 // TBD: This needs an overflow and underflow check.
 gmp::e_float& gmp::e_float::add_unsigned_long_long(const unsigned long long n)
 {
+  if(!isfinite())
+  {
+    return *this;
+  }
+
   if(n <= (std::numeric_limits<unsigned long>::max)())
   {
     ::mpf_add_ui(my_rop, my_rop, static_cast<unsigned long>(n));
@@ -376,6 +381,11 @@ gmp::e_float& gmp::e_float::add_unsigned_long_long(const unsigned long long n)
 // TBD: This needs an overflow and underflow check.
 gmp::e_float& gmp::e_float::sub_unsigned_long_long(const unsigned long long n)
 {
+  if(!isfinite())
+  {
+    return *this;
+  }
+
   if(n <= (std::numeric_limits<unsigned long>::max)())
   {
     ::mpf_sub_ui(my_rop, my_rop, static_cast<unsigned long>(n));
@@ -383,7 +393,7 @@ gmp::e_float& gmp::e_float::sub_unsigned_long_long(const unsigned long long n)
   }
   else
   {
-    return operator+=(e_float(n));
+    return operator-=(e_float(n));
   }
 }
 
@@ -589,7 +599,7 @@ std::int32_t gmp::e_float::cmp(const e_float& v) const
 
 bool gmp::e_float::iszero() const
 {
-  return (::mpf_sgn(my_rop) == 0);
+  return (isfinite() && (::mpf_sgn(my_rop) == 0));
 }
 
 bool gmp::e_float::isone() const
@@ -601,7 +611,7 @@ bool gmp::e_float::isone() const
 bool gmp::e_float::isint() const
 {
   // Check if the value of *this is pure integer or very close to pure integer.
-  return (::mpf_integer_p(my_rop) != 0);
+  return (isfinite() && (::mpf_integer_p(my_rop) != 0));
 }
 
 bool gmp::e_float::isneg() const
@@ -875,6 +885,11 @@ unsigned long long gmp::e_float::extract_unsigned_long_long() const
 
 gmp::e_float gmp::e_float::extract_integer_part() const
 {
+  if(!isfinite())
+  {
+    return *this;
+  }
+
   const bool b_neg = isneg();
 
   const e_float xx = ef::fabs(*this);
@@ -887,6 +902,11 @@ gmp::e_float gmp::e_float::extract_integer_part() const
 
 gmp::e_float gmp::e_float::extract_decimal_part() const
 {
+  if(!isfinite())
+  {
+    return *this;
+  }
+
   const bool b_neg = isneg();
 
   const e_float xx = ef::fabs(*this);
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index bc1ce8a..ceded50 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -224,8 +224,8 @@
       virtual bool isneg   () const;
 
       // Operators pre-increment and pre-decrement.
-      virtual e_float& operator++() { ::mpf_add_ui(my_rop, my_rop, 1U); return *this; }
-      virtual e_float& operator--() { ::mpf_sub_ui(my_rop, my_rop, 1U); return *this; }
+      virtual e_float& operator++() { return add_unsigned_long_long(1U); }
+      virtual e_float& operator--() { return sub_unsigned_long_long(1U); }
 
       // Operators post-increment and post-decrement.
       e_float operator++(int) { const e_float w(*this); static_cast<void>(++(*this)); return w; }
-- 
2.43.0


From a48a994fa0d90886454b8cf363afa9d269fd15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 010/109] fix: gmp multiplication by an unsigned integer did
 not overflow to infinity

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 34f7847..d3eb4ed 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -424,6 +424,17 @@ gmp::e_float& gmp::e_float::mul_unsigned_long_long(const unsigned long long n)
   else
   {
     ::mpf_mul_ui(my_rop, my_rop, static_cast<unsigned long>(n));
+
+    // Check for overflow.
+    long u_exp2_signed;
+    static_cast<void>(::mpf_get_d_2exp(&u_exp2_signed, my_rop));
+
+    if(   (u_exp2_signed   >= std::numeric_limits<e_float>::max_exponent)
+       && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)()))
+    {
+      *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
+                          : -std::numeric_limits<e_float>::infinity());
+    }
   }
 
   return *this;
-- 
2.43.0


From 70cc33765f6c50841596cdad26e64f7c0a718e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 011/109] fix: gmp and mpfr printed numbers just below a power
 of ten with the wrong exponent

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 33 +++++++++----------
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 29 +++++++---------
 2 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index d3eb4ed..f9a8d4c 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -929,27 +929,25 @@ gmp::e_float gmp::e_float::extract_decimal_part() const
 
 std::int64_t gmp::e_float::get_order_exact() const
 {
-  // Get the order-10 of the e_float. This is done using a partial
-  // string extraction with 10 decimal digits.
+  // Get the order-10 of the e_float. This is done using a string
+  // extraction with more decimal digits than the e_float can have,
+  // such that the order is not falsified by the rounding of the string.
 
-  // Create a format string for 10-digits and scientific notation.
-  std::string str_fmt = std::string("%.10Fe");
-
-  // Get the ten digits.
-  util::dynamic_array<char> buf(64U);
+  if(iszero())
+  {
+    return static_cast<std::int64_t>(0);
+  }
 
-  static_cast<void>(gmp_sprintf(buf.data(), str_fmt.c_str(), my_rop));
+  static const std::size_t number_of_digits =
+    static_cast<std::size_t>(static_cast<double>(my_default_prec + (4UL * 64UL)) * local::value_log2);
 
-  const std::string str = std::string(buf.data());
+  util::dynamic_array<char> buf(static_cast<std::size_t>(number_of_digits + 8U));
 
-  // Extract the base-10 exponent.
-  const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
+  mp_exp_t p10;
 
-  const std::int64_t my_exp = ((pos_letter_e != std::string::npos)
-    ? Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)))
-    : static_cast<std::int64_t>(0));
+  static_cast<void>(::mpf_get_str(buf.data(), &p10, 10, number_of_digits, my_rop));
 
-  return my_exp;
+  return static_cast<std::int64_t>(p10) - static_cast<std::int64_t>(1);
 }
 
 std::int64_t gmp::e_float::get_order_fast() const
@@ -980,8 +978,6 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   // In other words, first obtain the string in scientific notation,
   // then reduce it to raw digits (perhaps this can be improved).
 
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99Fe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -1006,6 +1002,9 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
 
   if(pos_letter_e != std::string::npos)
   {
+    // The rounding of the string can increment the order.
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 7ee12ea..0622204 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -505,27 +505,21 @@ mpfr::e_float mpfr::e_float::extract_decimal_part() const
 std::int64_t mpfr::e_float::get_order_exact() const
 {
   // Get the order-10 of the e_float. This is done using a partial
-  // string extraction with 10 decimal digits.
+  // string extraction with 10 decimal digits. These are truncated,
+  // such that the order is not falsified by the rounding of the string.
 
-  // Create a format string for 10-digits and scientific notation.
-  std::string str_fmt = std::string("%.10RNe");
+  if(iszero())
+  {
+    return static_cast<std::int64_t>(0);
+  }
 
-  // Get the ten digits.
   util::dynamic_array<char> buf(64U);
 
-  ::mpfr_sprintf(buf.data(), str_fmt.c_str(), my_rop);
-
-  const std::string str = std::string(buf.data());
-
-  // Extract the base-10 exponent.
-  const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
+  mp_exp_t p10;
 
-  const std::int64_t my_exp =
-    ((pos_letter_e != std::string::npos)
-      ? Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)))
-      : static_cast<std::int64_t>(0));
+  static_cast<void>(::mpfr_get_str(buf.data(), &p10, 10, 10U, my_rop, GMP_RNDZ));
 
-  return my_exp;
+  return static_cast<std::int64_t>(p10) - static_cast<std::int64_t>(1);
 }
 
 std::int64_t mpfr::e_float::get_order_fast() const
@@ -552,8 +546,6 @@ std::int64_t mpfr::e_float::get_order_fast() const
 
 void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, const std::size_t number_of_digits) const
 {
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99RNe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -587,6 +579,9 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
 
   if(pos_letter_e != std::string::npos)
   {
+    // The rounding of the string can increment the order.
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-- 
2.43.0


From 7030d909860bf8b2a5790cb6382a3a570f49c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 012/109] fix: fixed-format output of a number below the last
 requested decimal place threw (efx) or printed a wrong digit (gmp, mpfr)

---
 libs/e_float/src/e_float/e_float_base.cpp | 28 +++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index f598714..e7cd33b 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -254,8 +254,32 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
     the_number_of_digits_i_want_from_e_float = (std::min)(the_number_of_digits_i_want_from_e_float, max_digits);
   }
 
-  // Extract the rounded output string with the desired number of digits.
-  get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  if(the_number_of_digits_i_want_from_e_float == static_cast<std::size_t>(0U))
+  {
+    // This is a fixed-point number smaller than the last requested decimal place.
+    // There are no digits to extract, unless the number rounds up to this place.
+    str.clear();
+
+    if((the_exp + static_cast<std::int64_t>(1)) == -static_cast<std::int64_t>(os_precision))
+    {
+      std::string  str_all;
+      std::int64_t exp_all = the_exp;
+
+      get_output_string(str_all, exp_all, max10_plus_one);
+
+      if((exp_all > the_exp) || (str_all.at(static_cast<std::size_t>(0U)) >= static_cast<char>('5')))
+      {
+        str = "1";
+
+        ++the_exp;
+      }
+    }
+  }
+  else
+  {
+    // Extract the rounded output string with the desired number of digits.
+    get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  }
 
   // Obtain additional format information.
   const bool my_showpoint  = ((my_flags & std::ios::showpoint)  != static_cast<std::ios::fmtflags>(0U));
-- 
2.43.0


From 075a8e692983ed98f1949962152cb57b725bb0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 013/109] fix: output with showpoint threw if the integer part
 was wider than the precision

---
 libs/e_float/src/e_float/e_float_base.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index e7cd33b..8a5c9d9 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -532,9 +532,13 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
   else
   {
     // This is a number greater than or equal to 1 that needs zero extension.
-    const std::size_t u_pad = static_cast<std::size_t>(os_precision - static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U)));
+    // The integer part can be wider than the precision.
+    const std::size_t len_digits = static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U));
 
-    str.insert(str.cend(), u_pad, static_cast<char>('0'));
+    if(os_precision > len_digits)
+    {
+      str.insert(str.cend(), static_cast<std::size_t>(os_precision - len_digits), static_cast<char>('0'));
+    }
   }
 }
 
-- 
2.43.0


From 3ec44f93e66d7a2c99ba6af4714e2827f00ab36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 014/109] fix: efx constructor from mantissa and exponent never
 returned for an infinite mantissa

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 572efdc..bb5f41e 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -40,6 +40,12 @@ efx::e_float::e_float(const double mantissa,
   // Create an e_float from mantissa and exponent.
   // This ctor does not maintain the full precision of double.
 
+  if(!ef::isfinite(mantissa))
+  {
+    operator=(e_float(mantissa));
+    return;
+  }
+
   const bool mantissa_is_iszero = (::fabs(mantissa) < ((std::numeric_limits<double>::min)() * (1.0 + std::numeric_limits<double>::epsilon())));
 
   if(mantissa_is_iszero)
-- 
2.43.0


From 285b5ac2fc4de10b27f04f36a4652ca38ce1b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 015/109] fix: mpfr default precision was only set in the first
 thread that used it

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
index e5649aa..b3ec1f8 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
@@ -253,7 +253,8 @@
 
       static void init()
       {
-        static bool precision_is_initialized;
+        // The default precision of MPFR is thread-local if MPFR has been built thread-safe.
+        static thread_local bool precision_is_initialized;
 
         if(precision_is_initialized == false)
         {
-- 
2.43.0


From 63cfac80faef21e2c16cbad64757c790a5874c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 016/109] fix: gmp default precision was set with a data race

---
 libs/e_float/src/e_float/gmp/e_float_gmp.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index ceded50..90bc767 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -255,14 +255,10 @@
 
       static void init()
       {
-        static bool precision_is_initialized;
+        // Initialize once only, even if several threads create their first e_float.
+        static const bool precision_is_initialized = (::mpf_set_default_prec(my_default_prec), true);
 
-        if(precision_is_initialized == false)
-        {
-          precision_is_initialized = true;
-
-          ::mpf_set_default_prec(my_default_prec);
-        }
+        static_cast<void>(precision_is_initialized);
       }
 
       void from_unsigned_long_long(const unsigned long long u);
-- 
2.43.0


From 6ff2031936aa9925f7fe11e445d3c31e3986336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 017/109] fix: efx isone() was false for the exact value one

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 21 +++-----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index bb5f41e..61ba4fe 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1332,7 +1332,7 @@ bool efx::e_float::isone() const
     if((my_data[0U] == static_cast<std::uint32_t>(1U)) && (my_exp == static_cast<std::int64_t>(0)))
     {
       const array_type::const_iterator it_non_zero =
-        std::find_if(my_data.cbegin(),
+        std::find_if(my_data.cbegin() + 1U,
                      my_data.cend(),
                      [](const std::uint32_t& d) -> bool
                      {
@@ -2076,24 +2076,9 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // ...and check for underflow.
-  if(my_exp <= std::numeric_limits<e_float>::min_exponent10)
+  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
   {
-    if(my_exp == std::numeric_limits<e_float>::min_exponent10)
-    {
-      // Check for identity with the minimum value.
-      e_float test = *this;
-
-      test.my_exp = static_cast<std::int64_t>(0);
-
-      if(test.isone())
-      {
-        *this = ef::zero();
-      }
-    }
-    else
-    {
-      *this = ef::zero();
-    }
+    *this = ef::zero();
   }
 
   return true;
-- 
2.43.0


From 59d15cf4fd1d5a44c6185e52c8841678739b7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 018/109] fix: malformed numeric strings crashed, overflowed or
 gave arbitrary values instead of NaN; extraction kept or leaked the old value

---
 libs/e_float/src/e_float/e_float_base.cpp     | 85 ++++++++++++++++++-
 libs/e_float/src/e_float/e_float_base.h       |  4 +
 libs/e_float/src/e_float/efx/e_float_efx.cpp  | 11 ++-
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 39 +++++++--
 .../src/e_float/gmp/e_float_gmp_protos.h      |  2 +
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 24 +++++-
 6 files changed, 154 insertions(+), 11 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 8a5c9d9..dec9187 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -62,9 +62,19 @@ std::istream& operator>>(std::istream& is, e_float_base& f)
 {
   std::string str;
 
-  static_cast<void>(is >> str);
+  if(is >> str)
+  {
+    e_float tmp;
 
-  static_cast<void>(f.rd_string(str.c_str()));
+    if(static_cast<e_float_base&>(tmp).rd_string(str.c_str()))
+    {
+      f = tmp;
+    }
+    else
+    {
+      is.setstate(std::ios::failbit);
+    }
+  }
 
   return is;
 }
@@ -153,6 +163,77 @@ e_float& e_float_base::div_signed_long_long(const signed long long n)
   return static_cast<e_float&>(*this);
 }
 
+bool e_float_base::scan_string(const char* s, std::string& str, std::int64_t& order10, bool& is_zero)
+{
+  str = std::string(s);
+
+  // Remove spaces and tabs.
+  str.erase(std::remove(str.begin(), str.end(), static_cast<char>(' ')),  str.end());
+  str.erase(std::remove(str.begin(), str.end(), static_cast<char>('\t')), str.end());
+
+  const auto is_digit = [](const char c) -> bool { return ((c >= static_cast<char>('0')) && (c <= static_cast<char>('9'))); };
+  const auto is_sign  = [](const char c) -> bool { return ((c == static_cast<char>('+')) || (c == static_cast<char>('-'))); };
+
+  std::string::const_iterator it = str.cbegin();
+
+  if((it != str.cend()) && is_sign(*it)) { ++it; }
+
+  // Scan the mantissa.
+  std::size_t  count_of_digits = static_cast<std::size_t>(0U);
+  std::int64_t order           = static_cast<std::int64_t>(-1);
+  bool         b_has_point     = false;
+
+  is_zero = true;
+
+  for( ; (it != str.cend()) && (is_digit(*it) || ((*it == static_cast<char>('.')) && (!b_has_point))); ++it)
+  {
+    if(*it == static_cast<char>('.')) { b_has_point = true; continue; }
+
+    ++count_of_digits;
+
+    if     (!is_zero)                       { if(!b_has_point) { ++order; } }
+    else if(*it != static_cast<char>('0'))  { is_zero = false; if(!b_has_point) { ++order; } }
+    else if(b_has_point)                    { --order; }
+  }
+
+  if(count_of_digits == static_cast<std::size_t>(0U)) { return false; }
+
+  // Scan the exponent. Limit its size to more than sufficient.
+  if((it != str.cend()) && ((*it == static_cast<char>('e')) || (*it == static_cast<char>('E'))))
+  {
+    const std::string::const_iterator it_exp = ++it;
+
+    bool b_exp_is_neg = false;
+
+    if((it != str.cend()) && is_sign(*it)) { b_exp_is_neg = (*it == static_cast<char>('-')); ++it; }
+
+    if(it == str.cend()) { return false; }
+
+    static constexpr std::int64_t max_exp = INT64_C(1000000000000);
+
+    std::int64_t the_exp = static_cast<std::int64_t>(0);
+
+    for( ; (it != str.cend()) && is_digit(*it); ++it)
+    {
+      the_exp = (std::min)(max_exp, static_cast<std::int64_t>((the_exp * 10) + static_cast<std::int64_t>(*it - static_cast<char>('0'))));
+    }
+
+    if(it != str.cend()) { return false; }
+
+    if(b_exp_is_neg) { the_exp = -the_exp; }
+
+    str = std::string(str.cbegin(), it_exp) + Util::lexical_cast(the_exp);
+
+    order10 = order + the_exp;
+
+    return true;
+  }
+
+  order10 = order;
+
+  return (it == str.cend());
+}
+
 void e_float_base::wr_string(std::string& str, std::ostream& os) const
 {
   // Assess the format flags.
diff --git a/libs/e_float/src/e_float/e_float_base.h b/libs/e_float/src/e_float/e_float_base.h
index 133f56e..c47527c 100644
--- a/libs/e_float/src/e_float/e_float_base.h
+++ b/libs/e_float/src/e_float/e_float_base.h
@@ -178,6 +178,10 @@
   protected:
     constexpr e_float_base() noexcept { }
 
+    // Check the syntax of a decimal number and provide it without blanks. Also
+    // provide the order of its leading non-zero digit and if it is zero.
+    static bool scan_string(const char* s, std::string& str, std::int64_t& order10, bool& is_zero);
+
     // Emphasize: This template class can be used with native floating-point
     // types like float, double and long double. Note: For long double,
     // you need to verify that the mantissa fits in unsigned long long.
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 61ba4fe..8c500e2 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1836,7 +1836,16 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
 
 bool efx::e_float::rd_string(const char* const s)
 {
-  std::string str(s);
+  std::string  str;
+  std::int64_t order10;
+  bool         is_zero;
+
+  if(!scan_string(s, str, order10, is_zero))
+  {
+    return false;
+  }
+
+  my_fpclass = ef_finite;
 
   // Get a possible exponent and remove it.
   my_exp = static_cast<std::int64_t>(0);
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index f9a8d4c..327a8ba 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -1020,14 +1020,39 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
 
 bool gmp::e_float::rd_string(const char* const s)
 {
-  std::string str(s);
+  // Release the memory of a number that has already been initialized.
+  if(my_rop[0U]._mp_d != nullptr)
+  {
+    ::mpf_clear(my_rop);
+  }
+
+  ::mpf_init_set_ui(my_rop, 0U);
+
+  std::string  str;
+  std::int64_t order10;
+  bool         is_zero;
+
+  if(!scan_string(s, str, order10, is_zero))
+  {
+    my_fpclass = ef_NaN;
 
-  // Remove spaces and tabs
-  static const char spc = static_cast<char>(' ');
-  static const char tab = static_cast<char>('\t');
+    return false;
+  }
+
+  my_fpclass = ef_finite;
+
+  // Handle zero, underflow and overflow.
+  if(is_zero || (order10 < std::numeric_limits<e_float>::min_exponent10))
+  {
+    return true;
+  }
+
+  if(order10 > std::numeric_limits<e_float>::max_exponent10)
+  {
+    my_fpclass = ((str.at(0U) == static_cast<char>('-')) ? ef_inf_neg : ef_inf_pos);
 
-  str.erase(std::remove(str.begin(), str.end(), spc), str.end());
-  str.erase(std::remove(str.begin(), str.end(), tab), str.end());
+    return true;
+  }
 
   // Get possible + sign and remove it
   
@@ -1090,7 +1115,7 @@ bool gmp::e_float::rd_string(const char* const s)
   }
 
   // Set the e_float value.
-  const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_init_set_str(my_rop, str.c_str(), 10));
+  const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_set_str(my_rop, str.c_str(), 10));
 
   if(b_negate)
   {
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp_protos.h b/libs/e_float/src/e_float/gmp/e_float_gmp_protos.h
index 34dc63a..81e4a95 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp_protos.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp_protos.h
@@ -46,6 +46,7 @@
     void   __gmpf_init            (mpf_ptr);
     void   __gmpf_init_set        (mpf_ptr, mpf_srcptr);
     int    __gmpf_init_set_str    (mpf_ptr, const char*, int);
+    int    __gmpf_set_str         (mpf_ptr, const char*, int);
     void   __gmpf_init_set_ui     (mpf_ptr, unsigned long int);
     void   __gmpf_init_set_d      (mpf_ptr, double);
     void   __gmpf_clear           (mpf_ptr);
@@ -74,6 +75,7 @@
   inline void   mpf_init            (mpf_ptr dst)                                           {        ::__gmpf_init               (dst); }
   inline void   mpf_init_set        (mpf_ptr dst, mpf_srcptr src)                           {        ::__gmpf_init_set           (dst, src); }
   inline int    mpf_init_set_str    (mpf_ptr dst, const char* str, int n)                   { return ::__gmpf_init_set_str       (dst, str, n); }
+  inline int    mpf_set_str         (mpf_ptr dst, const char* str, int n)                   { return ::__gmpf_set_str            (dst, str, n); }
   inline void   mpf_init_set_ui     (mpf_ptr dst, unsigned long int u)                      {        ::__gmpf_init_set_ui        (dst, u); }
   inline void   mpf_init_set_d      (mpf_ptr dst, double d)                                 {        ::__gmpf_init_set_d         (dst, d); }
   inline void   mpf_clear           (mpf_ptr dst)                                           {        ::__gmpf_clear              (dst); }
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 0622204..d3f9c86 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -595,7 +595,29 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
   }
 }
 
-bool mpfr::e_float::rd_string(const char* const s) { return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 1); }
+bool mpfr::e_float::rd_string(const char* const s)
+{
+  // Release the memory of a number that has already been initialized.
+  if(my_rop[0U]._mpfr_d != nullptr)
+  {
+    ::mpfr_clear(my_rop);
+  }
+
+  std::string  str;
+  std::int64_t order10;
+  bool         is_zero;
+
+  static_cast<void>(scan_string(s, str, order10, is_zero));
+
+  const bool b_result_is_ok = (::mpfr_init_set_str(my_rop, str.c_str(), 10, GMP_RNDN) == 0);
+
+  if(!b_result_is_ok)
+  {
+    ::mpfr_set_nan(my_rop);
+  }
+
+  return b_result_is_ok;
+}
 
 e_float mpfr::e_float::my_own_cbrt         (const e_float& x) { e_float res; static_cast<void>(::mpfr_cbrt (res.my_rop, x.my_rop, GMP_RNDN)); return res; }
 e_float mpfr::e_float::my_own_rootn        (const e_float& x, const std::uint32_t p)
-- 
2.43.0


From 9319fc71ce11eaba73e29e76c242e6a1ca638c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 019/109] fix: dynamic_array assignment truncated to the old
 size (crash for a moved-from e_float) and self-move lost the elements

---
 libs/e_float/src/utility/util_dynamic_array.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index d52a331..86a2fb1 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -136,9 +136,17 @@
       {
         if(this != &other)
         {
-          std::copy(other.elems,
-                    other.elems + (std::min)(elem_count, other.elem_count),
-                    elems);
+          if(elem_count == other.elem_count)
+          {
+            std::copy(other.elems, other.elems + elem_count, elems);
+          }
+          else
+          {
+            // The sizes differ (for instance because *this has been moved-from).
+            dynamic_array tmp(other);
+
+            swap(tmp);
+          }
         }
 
         return *this;
@@ -147,6 +155,11 @@
       // Move assignment operator.
       dynamic_array& operator=(dynamic_array&& other)
       {
+        if(this == &other)
+        {
+          return *this;
+        }
+
         // Destroy the elements and deallocate the range.
         pointer p = elems;
 
-- 
2.43.0


From 7966b4bdc3160270e3212ded9bf801b87a795083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 020/109] fix: dynamic_array ordering ignored the elements
 beyond the shorter operand

---
 libs/e_float/src/utility/util_dynamic_array.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 86a2fb1..28c2658 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -303,12 +303,10 @@
         }
         else
         {
-          const size_type count = (std::min)(lhs.size(), rhs.size());
-
           return std::lexicographical_compare(lhs.cbegin(),
-                                              lhs.cbegin() + count,
+                                              lhs.cend(),
                                               rhs.cbegin(),
-                                              rhs.cbegin() + count);
+                                              rhs.cend());
         }
       }
     }
-- 
2.43.0


From 2d7cab344ea0ad670ebe82bab02c4c6af5832c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 021/109] fix: dynamic_array constructors assigned to elements
 that had not been constructed

---
 libs/e_float/src/utility/util_dynamic_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 28c2658..1d4b53c 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -69,7 +69,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(other.elems, other.elems + elem_count, elems);
+          std::uninitialized_copy(other.elems, other.elems + elem_count, elems);
         }
       }
 
@@ -86,7 +86,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(first, last, elems);
+          std::uninitialized_copy(first, last, elems);
         }
       }
 
@@ -101,7 +101,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(lst.begin(), lst.end(), elems);
+          std::uninitialized_copy(lst.begin(), lst.end(), elems);
         }
       }
 
-- 
2.43.0


From 12092964819f70225d4d70a74496db725668b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 022/109] fix: square root of positive infinity was NaN (efx,
 gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 ++++++-
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 8c500e2..3cb3e90 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1113,11 +1113,16 @@ efx::e_float& efx::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
-  if(isneg() || (!isfinite()))
+  if(isneg() || isnan())
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
   }
 
+  if(isinf())
+  {
+    return *this;
+  }
+
   if(iszero() || isone())
   {
     return *this;
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 327a8ba..4718b04 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -537,11 +537,16 @@ gmp::e_float& gmp::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
-  if(isneg() || !isfinite())
+  if(isneg() || isnan())
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
   }
 
+  if(isinf())
+  {
+    return *this;
+  }
+
   if(iszero() || isone())
   {
     return *this;
-- 
2.43.0


From 8ec4bde10d27cf6d0c0303d59dd2273532886f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 023/109] fix: efx product of the largest number and one (and
 the inverse of the smallest) was infinite

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 3cb3e90..d206615 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -734,7 +734,7 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
     const std::int64_t v_exp = ((!v_exp_is_neg) ? v.my_exp : static_cast<std::int64_t>(-v.my_exp));
 
     // Check the range of the upcoming multiplication.
-    const auto b_result_is_out_of_range = (v_exp >= static_cast<std::int64_t>(ef_max_exp10 - u_exp));
+    const auto b_result_is_out_of_range = (v_exp > static_cast<std::int64_t>(ef_max_exp10 - u_exp));
 
     if(b_result_is_out_of_range)
     {
@@ -805,6 +805,13 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
     }
   }
 
+  // Check for overflow of a result having the largest exponent.
+  if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
+     && (*this  > (std::numeric_limits<e_float>::max)()))
+  {
+    *this = std::numeric_limits<e_float>::infinity();
+  }
+
   // Set the sign of the result.
   my_neg = b_result_is_neg;
 
-- 
2.43.0


From 1db611c5112a68279c931c6c2e2022a50140efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 024/109] fix: multiplying NaN by a signed integer gave
 infinity

---
 libs/e_float/src/e_float/e_float_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index dec9187..2483774 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -140,7 +140,7 @@ e_float& e_float_base::mul_signed_long_long(const signed long long n)
   }
 
   // Check for overflow.
-  if(ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)())
+  if(isfinite() && (ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)()))
   {
     *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
                         : -std::numeric_limits<e_float>::infinity());
-- 
2.43.0


From ad6f0615a58564c646ff1ae9f36bfc63aaa822a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 025/109] fix: numeric_limits lowest() and denorm_min() were
 zero

---
 libs/e_float/src/e_float/e_float.cpp | 1 +
 libs/e_float/src/e_float/e_float.h   | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float.cpp b/libs/e_float/src/e_float/e_float.cpp
index efb5e53..547d116 100644
--- a/libs/e_float/src/e_float/e_float.cpp
+++ b/libs/e_float/src/e_float/e_float.cpp
@@ -32,6 +32,7 @@ bool operator> (const e_float& u, const e_float& v) { return (u.cmp(v) >  static
 const e_float& ef::value_nan() { static const e_float val = e_float().my_value_nan(); return val; }
 const e_float& ef::value_inf() { static const e_float val = e_float().my_value_inf(); return val; }
 const e_float& ef::value_max() { static const e_float val = e_float().my_value_max(); return val; }
+const e_float& ef::value_lowest() { static const e_float val = -ef::value_max(); return val; }
 const e_float& ef::value_min() { static const e_float val = e_float().my_value_min(); return val; }
 
 const e_float& ef::value_eps()
diff --git a/libs/e_float/src/e_float/e_float.h b/libs/e_float/src/e_float/e_float.h
index fd82ff4..3ac391d 100644
--- a/libs/e_float/src/e_float/e_float.h
+++ b/libs/e_float/src/e_float/e_float.h
@@ -37,6 +37,7 @@
     const e_float& half     ();
     const e_float& value_min();
     const e_float& value_max();
+    const e_float& value_lowest();
     const e_float& value_eps();
     const e_float& value_inf();
     const e_float& value_nan();
@@ -75,13 +76,13 @@
 
       static const e_float& (min)        () noexcept { return ef::value_min(); }
       static const e_float& (max)        () noexcept { return ef::value_max(); }
-      static const e_float& lowest       () noexcept { return ef::zero(); }
+      static const e_float& lowest       () noexcept { return ef::value_lowest(); }
       static const e_float& epsilon      () noexcept { return ef::value_eps(); }
       static const e_float& round_error  () noexcept { return ef::half(); }
       static const e_float& infinity     () noexcept { return ef::value_inf(); }
       static const e_float& quiet_NaN    () noexcept { return ef::value_nan(); }
       static const e_float& signaling_NaN() noexcept { return ef::zero(); }
-      static const e_float& denorm_min   () noexcept { return ef::zero(); }
+      static const e_float& denorm_min   () noexcept { return ef::value_min(); }
     };
   }
 
-- 
2.43.0


From 5038fc7de7a04dfb368d3cc45caa8da024ad21de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 026/109] fix: gmp assignment lowered the precision of the
 target so that a repeated assignment lost digits (y = x; y != x)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 4718b04..3a52093 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -663,8 +663,10 @@ e_float& gmp::e_float::operator=(const e_float& v)
     my_fpclass   = v.my_fpclass;
     my_prec_elem = v.my_prec_elem;
 
-    ::mpf_set         (my_rop, v.my_rop);
-    ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+    // Take over the precision before the value. Otherwise limbs of the value get lost.
+    my_rop[0U]._mp_prec = v.my_rop[0U]._mp_prec;
+
+    ::mpf_set(my_rop, v.my_rop);
   }
 
   return *this;
@@ -676,8 +678,9 @@ e_float& gmp::e_float::operator=(e_float&& v)
   my_fpclass   = v.my_fpclass;
   my_prec_elem = v.my_prec_elem;
 
-  ::mpf_set         (my_rop, v.my_rop);
-  ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+  my_rop[0U]._mp_prec = v.my_rop[0U]._mp_prec;
+
+  ::mpf_set(my_rop, v.my_rop);
 
   return *this;
 }
-- 
2.43.0


From 0e1464adb66d162780168ef3aecf63fb0855816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 027/109] fix: mpfr floor and ceil of numbers next to an
 integer were off by one

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 421bd06..0a283d3 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -44,7 +44,8 @@ e_float ef::floor(const e_float& x)
 {
   if(!ef::isfinite(x) || ef::isint(x)) { return x; }
 
-  return (ef::isneg(x) ? ef::integer_part(x - ef::one())
+  // Do not subtract before truncating. The difference could be rounded up to an integer.
+  return (ef::isneg(x) ? ef::integer_part(x) - ef::one()
                        : ef::integer_part(x));
 }
 
@@ -53,7 +54,7 @@ e_float ef::ceil(const e_float& x)
   if(!ef::isfinite(x) || ef::isint(x)) { return x; }
 
   return (ef::isneg(x) ? ef::integer_part(x)
-                       : ef::integer_part(x + ef::one()));
+                       : ef::integer_part(x) + ef::one());
 }
 
 std::int32_t ef::sgn(const e_float& x)
-- 
2.43.0


From 3bd1b7dc72ac622c110f10253433ec24f0fb8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 028/109] fix: fmod of a negative number by a negative number
 had the wrong sign and fmod(x, inf) was NaN

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 0a283d3..3eb6294 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -88,9 +88,12 @@ e_float ef::frexp(const e_float& v, int* expon)
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
 {
-  const e_float n = (ef::isneg(v1) ? ef::ceil(v1 / v2) : ef::floor(v1 / v2));
+  if(ef::isinf(v2) && ef::isfinite(v1))
+  {
+    return v1;
+  }
 
-  return v1 - (n * v2);
+  return v1 - (ef::integer_part(v1 / v2) * v2);
 }
 
 bool ef::isfinite(const double x)
-- 
2.43.0


From 548f657b6e951a30b97caf460001a781b0f4a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 029/109] fix: frexp used the base-10 exponent as base-2
 exponent so that its mantissa was not in [1/2, 1)

---
 .../functions/elementary/elementary_math.cpp  | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 3eb6294..a38ef64 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -76,14 +76,34 @@ e_float ef::ldexp(const e_float& v, int e)
 
 e_float ef::frexp(const e_float& v, int* expon)
 {
+  if((!ef::isfinite(v)) || ef::iszero(v))
+  {
+    *expon = 0;
+
+    return v;
+  }
+
   double d;
   std::int64_t i;
 
   v.extract_parts(d, i);
 
-  *expon = static_cast<int>(i);
+  using std::fabs;
+  using std::floor;
+  using std::log2;
+
+  // Estimate the base-2 exponent from the mantissa and the base-10 exponent.
+  std::int64_t n = static_cast<std::int64_t>(floor(log2(fabs(d)) + (static_cast<double>(i) * log2(10.0)))) + static_cast<std::int64_t>(1);
+
+  e_float m = v * ef::pow2(-n);
+
+  // Normalize the mantissa to the range [1/2, 1).
+  while(ef::fabs(m) >= ef::one())  { m /= static_cast<std::int32_t>(2); ++n; }
+  while(ef::fabs(m) <  ef::half()) { m *= static_cast<std::int32_t>(2); --n; }
+
+  *expon = static_cast<int>(n);
 
-  return v * ef::pow2(static_cast<std::int64_t>(-i));
+  return m;
 }
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
-- 
2.43.0


From 248aba2493758152a759f957bfc2505d502e45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 030/109] fix: mpfr conversion to 64-bit integers rounded
 numbers just below an integer instead of truncating

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index d3f9c86..4377a76 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -428,7 +428,7 @@ signed long long mpfr::e_float::extract_signed_long_long() const
 
   mp_exp_t p10;
 
-  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, nx.my_rop, GMP_RNDN));
+  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, nx.my_rop, GMP_RNDZ));
 
   std::string str_sll(static_cast<std::size_t>(p10), static_cast<char>('0'));
 
@@ -467,7 +467,7 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
 
   mp_exp_t p10;
 
-  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, my_rop, GMP_RNDN));
+  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, my_rop, GMP_RNDZ));
 
   std::string str_ull(static_cast<std::size_t>(p10), static_cast<char>('0'));
 
-- 
2.43.0


From 2bf263a1bda8abb26d6de259d2e737ba56c55568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 031/109] fix: fmod was one modulus off when the quotient
 rounds across an integer

---
 .../functions/elementary/elementary_math.cpp  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index a38ef64..aadc367 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -113,7 +113,26 @@ e_float ef::fmod(const e_float& v1, const e_float& v2)
     return v1;
   }
 
-  return v1 - (ef::integer_part(v1 / v2) * v2);
+  e_float r = v1 - (ef::integer_part(v1 / v2) * v2);
+
+  // The quotient might have been rounded across an integer. In this case,
+  // the remainder is one modulus off and has to be corrected.
+  if(ef::isfinite(r) && (!ef::iszero(r)))
+  {
+    const e_float m = ef::fabs(v2);
+
+    if(ef::isneg(r) != ef::isneg(v1))
+    {
+      r = (ef::isneg(v1) ? r - m : r + m);
+    }
+
+    if(ef::fabs(r) >= m)
+    {
+      r = (ef::isneg(r) ? r + m : r - m);
+    }
+  }
+
+  return r;
 }
 
 bool ef::isfinite(const double x)
-- 
2.43.0


From 4cfa38733b11a8524fec30361f7b3f7fd0036d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 032/109] fix: mpfr conversion of numbers between -2^63 and
 -2^63+1 to a 64-bit integer was off by one

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 4377a76..78a1535 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -406,7 +406,7 @@ signed long long mpfr::e_float::extract_signed_long_long() const
 {
   const bool b_neg = isneg();
 
-  const e_float nx = ef::fabs(*this);
+  const e_float nx = ef::fabs(extract_integer_part());
 
   if(nx > ef::signed_long_long_max())
   {
-- 
2.43.0


From fc094a14578193d341fdea470e53f8de7f05c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 033/109] fix: default (neither fixed nor scientific) output
 lost significant digits of numbers below 0.1

---
 libs/e_float/src/e_float/e_float_base.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 2483774..272e262 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -326,13 +326,11 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
     }
   }
 
-  // If the float field is not set, reduce the number of digits requested
-  // from e_float such that it neither exceeds the ostream's precision
-  // nor e_float's max_digits10.
+  // If the float field is not set, the number of significant digits requested
+  // from e_float is the ostream's precision, not to exceed e_float's max_digits10.
   if(my_float_field == local::os_float_field_none)
   {
-    const std::size_t max_digits = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
-    the_number_of_digits_i_want_from_e_float = (std::min)(the_number_of_digits_i_want_from_e_float, max_digits);
+    the_number_of_digits_i_want_from_e_float = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
   }
 
   if(the_number_of_digits_i_want_from_e_float == static_cast<std::size_t>(0U))
@@ -502,7 +500,8 @@ void local::wr_string_fixed(std::string& str,
     // The number is less than one in magnitude. Insert the decimal
     // point using "0." as well as the needed number of leading zeros.
     const std::size_t minus_exp_minus_one = static_cast<std::size_t>(-the_exp - 1);
-    const std::string str_zero_insert((std::min)(minus_exp_minus_one, os_precision), static_cast<char>('0'));
+    const std::size_t n_zero_insert = (trim_trailing_zeros ? minus_exp_minus_one : (std::min)(minus_exp_minus_one, os_precision));
+    const std::string str_zero_insert(n_zero_insert, static_cast<char>('0'));
 
     const std::int64_t n_pad = static_cast<std::int64_t>(static_cast<std::int64_t>(os_precision) - static_cast<std::int64_t>(str.length() + str_zero_insert.length()));
 
-- 
2.43.0


From 76f50a69bd8008b5b2410a51dd47fd31b2ffdbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 034/109] fix: gmp conversion to double truncated instead of
 rounding, e_float("0.1") did not convert to 0.1

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 3a52093..46e828f 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -742,9 +742,17 @@ double gmp::e_float::extract_double() const
                      : -std::numeric_limits<double>::infinity());
   }
 
-  const double dx = ::mpf_get_d(xx.my_rop);
+  // The function mpf_get_d() truncates. Use a string for a rounded conversion.
+  std::stringstream ss;
 
-  return ((!b_neg) ? dx : -dx);
+  ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<double>::digits10 + (2 + 1)))
+     << std::scientific
+     << *this;
+
+  double d;
+  ss >> d;
+
+  return d;
 }
 
 long double gmp::e_float::extract_long_double() const
-- 
2.43.0


From 7ab111ca404f9d9754164e3f1cca6456e56eff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 035/109] fix: gmp output with less than all digits was not
 correctly rounded in the last digit

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 39 +++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 46e828f..96dca10 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -996,7 +996,9 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
 
   // Create a format string such as "%+.99Fe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
-  const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
+  // Always extract all digits, since the last digit of a shorter string is not
+  // reliably rounded. The digits are subsequently rounded to the desired number.
+  const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(ef_max_digits10 + 1)) - static_cast<std::size_t>(1U));
 
   const std::string str_fmt = std::string("%.") + (Util::lexical_cast(the_number_of_digits_scientific) + "Fe");
 
@@ -1032,6 +1034,41 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     str.erase(str.cbegin() + (std::string::difference_type)  pos_decimal_point,
               str.cbegin() + (std::string::difference_type) (pos_decimal_point + 1U));
   }
+
+  // Round the digits to the desired number of digits.
+  const std::size_t n_digits = (std::max)(number_of_digits, static_cast<std::size_t>(1U));
+
+  if(str.length() > n_digits)
+  {
+    const bool round_up = (str.at(n_digits) >= static_cast<char>('5'));
+
+    str.resize(n_digits);
+
+    if(round_up)
+    {
+      std::size_t ix = n_digits;
+
+      // Every trailing 9 becomes 0.
+      while((ix > static_cast<std::size_t>(0U)) && (str.at(ix - 1U) == static_cast<char>('9')))
+      {
+        --ix;
+
+        str.at(ix) = static_cast<char>('0');
+      }
+
+      if(ix > static_cast<std::size_t>(0U))
+      {
+        ++str.at(ix - 1U);
+      }
+      else
+      {
+        // There were nothing but nines. Increment up to the next order.
+        str.at(0U) = static_cast<char>('1');
+
+        ++the_exp;
+      }
+    }
+  }
 }
 
 bool gmp::e_float::rd_string(const char* const s)
-- 
2.43.0


From 46a2550769b301d82963b07ff2cb8c9c11d4627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 036/109] fix: exp overflowed (underflowed) for arguments with
 a representable result, efx

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index d8c84cf..6965dd5 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -183,7 +183,8 @@ e_float ef::exp(const e_float& x)
   const e_float xx = ((!bo_x_is_neg) ? x : -x);
 
   // Check the range of the argument.
-  static const e_float maximum_arg_for_exp = std::numeric_limits<e_float>::max_exponent;
+  // Results up to the largest number (a bit less than 10^max_exponent10) can be represented.
+  static const e_float maximum_arg_for_exp = ef::ln10() * std::numeric_limits<e_float>::max_exponent10;
 
   if(xx > maximum_arg_for_exp)
   {
-- 
2.43.0


From 8528811fc06e18760f3d17a6b9eade4207466a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 037/109] fix: log1p was NaN for zero, near -1 and from about 1
 on

---
 .../src/functions/elementary/elementary_trans.cpp   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 6965dd5..1b08503 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -360,7 +360,18 @@ e_float ef::log(const e_float& x)
 
 e_float ef::log10(const e_float& x)                   { return ef::log(x) / ef::ln10(); }
 e_float ef::loga (const e_float& a, const e_float& x) { return ef::log(x) / ef::log(a); }
-e_float ef::log1p(const e_float& x)                   { return Log_Series::AtOne(x); }
+
+e_float ef::log1p(const e_float& x)
+{
+  if(ef::iszero(x))
+  {
+    return ef::zero();
+  }
+
+  // The series is only suited for small arguments. It does not converge (in reasonable time)
+  // if the absolute value of the argument is near one or larger than one.
+  return ((ef::fabs(x) < ef::tenth()) ? Log_Series::AtOne(x) : ef::log(ef::one() + x));
+}
 
 e_float ef::log1p1m2(const e_float& x)
 {
-- 
2.43.0


From 3996b540326f9672016dea69d208917ee3072455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 038/109] fix: log of positive infinity was NaN

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 1b08503..a78cd08 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -247,11 +247,16 @@ namespace Log_Series
 e_float ef::log(const e_float& x)
 {
   // Handle special arguments.
-  if(ef::isnan(x) || ef::isneg(x) || ef::isinf(x))
+  if(ef::isnan(x) || ef::isneg(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(ef::isinf(x))
+  {
+    return x;
+  }
+
   if(x.i_have_my_own_log())
   {
     return e_float::my_own_log(x);
-- 
2.43.0


From 1473e9a80a8a2ccdeb75294abbeaef9bb038a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 039/109] fix: pow of zero was one, pow of infinity or with a
 NaN exponent ignored the exponent

---
 .../functions/elementary/elementary_trans.cpp | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index a78cd08..e3f9600 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -426,23 +426,40 @@ e_float ef::log1p1m2(const e_float& x)
 
 e_float ef::pow(const e_float& x, const e_float& a)
 {
-  if((ef::isfinite(x) == false) || ef::isone(a))
+  if(ef::iszero(a))
   {
-    return x;
+    return ef::one();
   }
 
-  if(ef::iszero(x))
+  if(ef::isnan(x) || ef::isone(a))
   {
-    return ef::one();
+    return x;
   }
-  
-  if(ef::iszero(a))
+
+  if(ef::isnan(a))
   {
-    return ef::one();
+    return a;
   }
 
   const bool bo_a_isint = ef::isint(a);
 
+  if(ef::iszero(x))
+  {
+    return ((!ef::isneg(a)) ? ef::zero() : std::numeric_limits<e_float>::infinity());
+  }
+
+  if(!ef::isfinite(x))
+  {
+    if(ef::isneg(a))
+    {
+      return ef::zero();
+    }
+
+    const bool b_neg = (ef::isneg(x) && bo_a_isint && ef::isint(a / static_cast<std::int32_t>(2)) == false);
+
+    return ((!b_neg) ? std::numeric_limits<e_float>::infinity() : -std::numeric_limits<e_float>::infinity());
+  }
+
   if(ef::isneg(x) && !bo_a_isint)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
-- 
2.43.0


From e02000fc71929839b12eb2d46e3c9dd16c41f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 040/109] fix: rootn_inverse(x, 1) was x and rootn_inverse(x,
 -p) was the p-th power instead of the p-th root

---
 .../e_float/src/functions/elementary/elementary_trans.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index e3f9600..353c89e 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -132,16 +132,20 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
 
   if(p < static_cast<std::int32_t>(0))
   {
-    return detail::pown_template(x, static_cast<std::int32_t>(-p));
+    return ef::rootn(x, static_cast<std::int32_t>(-p));
   }
 
   if((p == static_cast<std::int32_t>(0)) || ef::isneg(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
+  else if(ef::iszero(x))
+  {
+    return std::numeric_limits<e_float>::infinity();
+  }
   else if(p == static_cast<std::int32_t>(1))
   {
-    return x;
+    return ef::one() / x;
   }
   else if(p == static_cast<std::int32_t>(2))
   {
-- 
2.43.0


From aeb43fbdc593f41f581ef7f89e67f8cc6a969442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 041/109] fix: cube and higher roots of zero were NaN

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 353c89e..1d38b27 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -104,7 +104,7 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-  else if(p == static_cast<std::int32_t>(1))
+  else if((p == static_cast<std::int32_t>(1)) || ef::iszero(x))
   {
     return x;
   }
-- 
2.43.0


From 07a1a7f9b5059bbd5ee90312f2425888212c036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 042/109] fix: pow with an exponent beyond 64 bits (or
 infinite) was wrong

---
 .../src/functions/elementary/elementary_trans.cpp  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 1d38b27..2a14218 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -469,6 +469,20 @@ e_float ef::pow(const e_float& x, const e_float& a)
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(ef::fabs(a) > ef::signed_long_long_max())
+  {
+    // The exponent (which can be infinite) does not fit in 64 bits.
+    const e_float x_abs = ef::fabs(x);
+
+    if(ef::isone(x_abs) && !ef::isfinite(a)) { return ef::one(); }
+
+    const bool b_is_odd = (ef::isint(a) && !ef::isint(a / static_cast<std::int32_t>(2)));
+
+    const e_float x_pow = ef::exp(a * ef::log(x_abs));
+
+    return ((ef::isneg(x) && b_is_odd) ? -x_pow : x_pow);
+  }
+
   if(a <= ef::one_minus())
   {
     return ef::one() / ef::pow(x, -a);
-- 
2.43.0


From eb53d39b6a324b81680a8d275900827f2dc7e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 043/109] fix: pow with the smallest 64-bit integer exponent
 recursed endlessly

---
 .../e_float/src/e_float/detail/e_float_detail_pown_template.h | 4 +++-
 libs/e_float/src/functions/elementary/elementary_trans.cpp    | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h b/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
index 31c59eb..7bf4bd1 100644
--- a/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
+++ b/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
@@ -11,6 +11,7 @@
   #define E_FLOAT_DETAIL_POWN_TEMPLATE_2017_08_23_HPP_
 
   #include <cstdint>
+  #include <limits>
 
   namespace ef { namespace detail {
 
@@ -29,7 +30,8 @@
     // Compute the pure power of typename T t^p. Binary splitting of the power is
     // used. The resulting computational complexity is proportional to O[log2(|p|)].
 
-    if     (p <  static_cast<std::int64_t>(0)) { return T(1) / pown_template(t, -p); }
+    if     (p == (std::numeric_limits<std::int64_t>::min)()) { return T(1) / (pown_template(t, -(p + 1)) * t); }
+    else if(p <  static_cast<std::int64_t>(0)) { return T(1) / pown_template(t, -p); }
     else if(p == static_cast<std::int64_t>(0)) { return T(1); }
     else if(p == static_cast<std::int64_t>(1)) { return t; }
     else if(p == static_cast<std::int64_t>(2)) { return (t * t); }
diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 2a14218..3a12661 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -531,7 +531,8 @@ e_float ef::pow(const e_float& b, const std::int64_t p)
 
   floating_point_type result;
 
-  if     (p <  0) { result = 1 / pow(b, -p); }
+  if     (p == (std::numeric_limits<std::int64_t>::min)()) { result = 1 / (pow(b, -(p + 1)) * b); }
+  else if(p <  0) { result = 1 / pow(b, -p); }
   else if(p == 0) { result = floating_point_type(1U); }
   else if(p == 1) { result = b; }
   else if(p == 2) { result = b; result *= b; }
-- 
2.43.0


From 723fdf90a0a90462a79c6ff90d47cd3f47faab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 044/109] fix: hypergeometric series with a vanishing term
 (zero argument, polynomial case) were NaN; also atan of numbers below about
 1e-1073741808

---
 .../functions/elementary/elementary_hyper_g.cpp    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
index f3e3c28..e51a1bd 100644
--- a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
@@ -36,7 +36,7 @@ e_float ef::hypergeometric_0f0(const e_float& x)
     {
       const std::int64_t order_check = static_cast<std::int64_t>(x_pow_n_div_n_fact.order() - H0F0.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(x_pow_n_div_n_fact) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -76,7 +76,7 @@ e_float ef::hypergeometric_0f1(const e_float& b, const e_float& x)
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H0F1.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -117,7 +117,7 @@ e_float ef::hypergeometric_1f0(const e_float& a, const e_float& x)
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F0.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -160,7 +160,7 @@ e_float ef::hypergeometric_1f1(const e_float& a, const e_float& b, const e_float
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F1.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -202,7 +202,7 @@ e_float ef::hypergeometric_2f0(const e_float& a, const e_float& b, const e_float
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F0.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -248,7 +248,7 @@ e_float ef::hypergeometric_2f1(const e_float& a, const e_float& b, const e_float
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F1.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -303,7 +303,7 @@ e_float ef::hypergeometric_pfq(const std::deque<e_float>& a, const  std::deque<e
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - HPFQ.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
-- 
2.43.0


From c7a386ffdb069d83d418a14a324505bd35b0ca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 045/109] fix: asin of small negative numbers was positive

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index c3e2077..2939c5e 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -305,7 +305,8 @@ e_float ef::asin(const e_float& x)
                                                           ef::three_half(),
                                                           (x * x));
 
-    return !b_neg ? asin_value : -asin_value;
+    // The argument x (and so the result) already has its sign.
+    return asin_value;
   }
   else if(ef::near_one(xx))
   {
-- 
2.43.0


From 9d8f6a190c6fe2ce00118bb5bc06d20afd47c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 046/109] fix: atan of large negative numbers was positive

---
 .../src/functions/elementary/elementary_trig.cpp       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 2939c5e..1c9abac 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -397,10 +397,12 @@ static e_float Atan_Series::AtZero(const e_float& x)
 static e_float Atan_Series::AtInfinity(const e_float& x)
 {
   // http://functions.wolfram.com/ElementaryFunctions/ArcTan/26/01/01/
-  return ef::pi_half() - ef::hypergeometric_2f1( ef::half(),
-                                                 ef::one(),
-                                                 ef::three_half(),
-                                                -ef::one() / (x * x)) / x;
+  const e_float delta = ef::hypergeometric_2f1( ef::half(),
+                                                ef::one(),
+                                                ef::three_half(),
+                                               -ef::one() / (x * x)) / x;
+
+  return ((!ef::isneg(x)) ? ef::pi_half() - delta : -ef::pi_half() - delta);
 }
 
 e_float ef::atan(const e_float& x)
-- 
2.43.0


From 5944b0dfcaa890511ea33c2927565f5ac53e84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 047/109] fix: atan and atan2 with infinite or NaN arguments,
 and atan2 with overflowing ratio

---
 .../functions/elementary/elementary_trig.cpp  | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 1c9abac..3f4b491 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -407,6 +407,11 @@ static e_float Atan_Series::AtInfinity(const e_float& x)
 
 e_float ef::atan(const e_float& x)
 {
+  if(ef::isinf(x))
+  {
+    return ((!ef::isneg(x)) ? ef::pi_half() : -ef::pi_half());
+  }
+
   if(ef::isfinite(x) == false)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
@@ -477,9 +482,19 @@ e_float ef::atan(const e_float& x)
 
 e_float ef::atan2(const e_float& y, const e_float& x)
 {
-  if((ef::isfinite(x) == false) || (ef::isfinite(y) == false))
+  if(ef::isnan(x) || ef::isnan(y))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  // x is infinite
+  if(ef::isinf(x))
+  {
+    // The angle of the ray is that of an axis or (if y is infinite also) that of a diagonal.
+    const e_float angle = ((!ef::isinf(y)) ? ((!ef::isneg(x)) ? ef::zero() : ef::pi())
+                                           : ((!ef::isneg(x)) ? (ef::pi() / static_cast<std::int32_t>(4)) : ef::pi() - (ef::pi() / static_cast<std::int32_t>(4))));
+
+    return ((!ef::isneg(y)) ? angle : -angle);
   }
 
   // y is zero
@@ -488,19 +503,10 @@ e_float ef::atan2(const e_float& y, const e_float& x)
     return (ef::isneg(x) ? ef::pi() : ef::zero());
   }
 
-  // x is zero
-  if(ef::iszero(x))
-  {
-    return ef::sgn(y) * ef::pi_half();
-  }
-  
-  // y is infinite
-  if(y.isinf())
+  // x is zero or y is infinite
+  if(ef::iszero(x) || ef::isinf(y))
   {
-    const bool b_pos = ((ef::ispos(x) && ef::ispos(y)) || (ef::isneg(x) && ef::isneg(y)));
-
-    return (b_pos ?  std::numeric_limits<e_float>::infinity()
-                  : -std::numeric_limits<e_float>::infinity());
+    return ((!ef::isneg(y)) ? ef::pi_half() : -ef::pi_half());
   }
 
   // Compute atan(y / x), ignoring sign.
-- 
2.43.0


From 1d81103f88b162e2941bc43324b69d937d9df16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 048/109] fix: asin and acos lost digits for arguments near one

---
 .../src/functions/elementary/elementary_trig.cpp      | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 3f4b491..97d13f7 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -322,6 +322,17 @@ e_float ef::asin(const e_float& x)
     return ((!b_neg) ? asin_value : -asin_value);
   }
 
+  static const e_float nine_tenths = ef::nine() / static_cast<std::int32_t>(10);
+
+  if(xx > nine_tenths)
+  {
+    // The Newton-Raphson iteration below converges badly near one.
+    const e_float asin_value =   ef::pi_half()
+                               - (ef::asin(ef::sqrt((ef::one() - xx) / static_cast<std::int32_t>(2))) * static_cast<std::int32_t>(2));
+
+    return ((!b_neg) ? asin_value : -asin_value);
+  }
+
   // Get initial estimate using standard math function asin.
   double        dd;
   std::int64_t  ne;
-- 
2.43.0


From 9b07f70df826577d01e41ebca45071a0353c2815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 049/109] fix: cosh(-inf), sinhcosh and tanh of infinity and
 NaN, and tanh of large arguments

---
 .../functions/elementary/elementary_trans.cpp | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 3a12661..b3f851c 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -584,7 +584,7 @@ e_float ef::cosh(const e_float& x)
 
   if(ef::isfinite(x) == false)
   {
-    return x;
+    return ef::fabs(x);
   }
 
   e_float c;
@@ -594,11 +594,19 @@ e_float ef::cosh(const e_float& x)
 
 void ef::sinhcosh(const e_float& x, e_float* const p_sinh, e_float* const p_cosh)
 {
-  if((ef::isfinite(x) == false) || ((p_sinh == nullptr) && (p_cosh == nullptr)))
+  if((p_sinh == nullptr) && (p_cosh == nullptr))
   {
     return;
   }
-  
+
+  if(!ef::isfinite(x))
+  {
+    if(p_sinh != nullptr) { *p_sinh = x; }
+    if(p_cosh != nullptr) { *p_cosh = ef::fabs(x); }
+
+    return;
+  }
+
   if(ef::iszero(x))
   {
     if(p_sinh != nullptr)
@@ -628,6 +636,18 @@ e_float ef::tanh(const e_float& x)
     return e_float::my_own_tanh(x);
   }
 
+  if(ef::isnan(x))
+  {
+    return x;
+  }
+
+  // The result can not be distinguished from one for large arguments (for which
+  // the hyperbolic sine and cosine could also overflow).
+  if(ef::fabs(x) > e_float(ef::tolerance() * static_cast<std::int64_t>(3)))
+  {
+    return ((!ef::isneg(x)) ? ef::one() : ef::one_minus());
+  }
+
   e_float c, s;
   ef::sinhcosh(x, &s, &c);
   return s * c.calculate_inv();
-- 
2.43.0


From 33fd24723e163e28633482914a24d8f56291a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 050/109] fix: sinh and tanh of small arguments lost digits
 (down to zero) by cancellation

---
 .../e_float/src/functions/elementary/elementary_trans.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index b3f851c..c1566d9 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -625,7 +625,13 @@ void ef::sinhcosh(const e_float& x, e_float* const p_sinh, e_float* const p_cosh
   const e_float e_px = ef::exp(x);
   const e_float e_mx = ef::one() / e_px;
 
-  if(p_sinh != nullptr) { *p_sinh  = (e_px - e_mx) / static_cast<std::int32_t>(2); }
+  if(p_sinh != nullptr)
+  {
+    // Avoid the cancellation for small arguments.
+    *p_sinh = ((ef::fabs(x) < ef::tenth()) ? x * ef::hypergeometric_0f1(ef::three_half(), (x * x) / static_cast<std::int32_t>(4))
+                                           : (e_px - e_mx) / static_cast<std::int32_t>(2));
+  }
+
   if(p_cosh != nullptr) { *p_cosh  = (e_px + e_mx) / static_cast<std::int32_t>(2); }
 }
 
-- 
2.43.0


From 15da313437df31d917d76e2c43324cfd079f3660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 051/109] fix: asinh of infinity, of arguments whose square
 overflows, and of small arguments (cancellation down to zero)

---
 .../functions/elementary/elementary_trans.cpp | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index c1566d9..ecc09ba 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -668,7 +668,7 @@ e_float ef::asinh(const e_float& x)
 
   if(!ef::isfinite(x))
   {
-    return std::numeric_limits<e_float>::quiet_NaN();
+    return x;
   }
 
   if(ef::iszero(x))
@@ -677,7 +677,23 @@ e_float ef::asinh(const e_float& x)
   }
   else
   {
-    const e_float value = ef::log(ef::fabs(x) + ef::sqrt((x * x) + ef::one()));
+    const e_float xx = ef::fabs(x);
+
+    e_float value;
+
+    if(xx < ef::one())
+    {
+      // Avoid the cancellation for small arguments.
+      const e_float x2 = xx * xx;
+
+      value = ef::log1p(xx + (x2 / (ef::one() + ef::sqrt(x2 + ef::one()))));
+    }
+    else
+    {
+      // Avoid the overflow of the square for large arguments.
+      value = ((xx.order() > ef::tolerance()) ? ef::log(xx) + ef::ln2()
+                                              : ef::log(xx + ef::sqrt((xx * xx) + ef::one())));
+    }
 
     return ((ef::isneg(x) == false) ? value : -value);
   }
-- 
2.43.0


From fe5cdf5b03ee961c45085909ab4dc9a01a8a240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 052/109] fix: acosh(1) was one, acosh of infinity and of
 arguments whose square overflows

---
 .../src/functions/elementary/elementary_trans.cpp  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index ecc09ba..db5b4aa 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -706,19 +706,25 @@ e_float ef::acosh(const e_float& x)
     return e_float::my_own_acosh(x);
   }
 
-  if(ef::isfinite(x) == false)
+  if(ef::isnan(x) || ef::isneg(x) || x < ef::one())
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
-  if(ef::isneg(x) || x < ef::one())
+  if(ef::isinf(x))
   {
-    return std::numeric_limits<e_float>::quiet_NaN();
+    return x;
   }
 
   if(ef::isone(x))
   {
-    return ef::one();
+    return ef::zero();
+  }
+
+  if(x.order() > ef::tolerance())
+  {
+    // Avoid the overflow of the square for large arguments.
+    return ef::log(x) + ef::ln2();
   }
 
   const e_float x_minus_one = x - ef::one();
-- 
2.43.0


From ea9899a6ef307b4155e41fe7c3c1bb00d419005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 053/109] fix: gamma of a complex number with integer real part
 dropped the imaginary part, and gamma(-inf) was -inf

---
 libs/e_float/src/functions/gamma/gamma.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 5d1f60c..e6c622f 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -77,6 +77,7 @@ namespace GammaTemplate
     using ef::exp;
     using ef::log;
     using ef::real;
+    using ef::imag;
     using ef::sin;
     using ef::factorial;
     using ef::bernoulli;
@@ -90,14 +91,14 @@ namespace GammaTemplate
     using ef::to_int64;
     using ef::order_of;
 
+    const bool b_neg = isneg(real(x));
+
     if(!isfinite(real(x)))
     {
-      return x;
+      return ((!b_neg) ? x : T(std::numeric_limits<TR>::quiet_NaN()));
     }
 
-    const bool b_neg = isneg(real(x));
-
-    if(isint(real(x)))
+    if(isint(real(x)) && iszero(imag(x)))
     {
       if(b_neg || iszero(real(x)))
       {
-- 
2.43.0


From 835ffcdcda8092f6047c0253c99aad708985486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 054/109] fix: factorial of the largest 32-bit integer wrapped
 around to zero and was NaN

---
 libs/e_float/src/functions/gamma/factorial.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/factorial.cpp b/libs/e_float/src/functions/gamma/factorial.cpp
index e0396e5..515eecf 100644
--- a/libs/e_float/src/functions/gamma/factorial.cpp
+++ b/libs/e_float/src/functions/gamma/factorial.cpp
@@ -16,10 +16,10 @@
 
 namespace Factorial_Series
 {
-  e_float AtInfinity(const std::uint32_t n);
+  e_float AtInfinity(const std::uint64_t n);
 }
 
-e_float Factorial_Series::AtInfinity(const std::uint32_t n)
+e_float Factorial_Series::AtInfinity(const std::uint64_t n)
 {
   const e_float x                              = e_float(n);
         e_float one_over_x_pow_two_n_minus_one = ef::one() / x;
@@ -66,7 +66,7 @@ e_float Factorial_Series::AtInfinity(const std::uint32_t n)
 e_float ef::factorial(const std::uint32_t n)
 {
   return (static_cast<std::size_t>(n) < Tables::A000142().size()) ? Tables::A000142()[n]()
-                                                                  : Factorial_Series::AtInfinity(static_cast<std::uint32_t>(n + static_cast<std::uint32_t>(1U)));
+                                                                  : Factorial_Series::AtInfinity(static_cast<std::uint64_t>(n) + static_cast<std::uint64_t>(1U));
 }
 
 e_float ef::binomial(const std::uint32_t n, const std::uint32_t k)
-- 
2.43.0


From f449aad536d6cb00af9f94a3ae826fc455b8c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 055/109] fix: double factorial of large odd integers
 overflowed prematurely or was NaN, and negated the smallest 32-bit integer

---
 libs/e_float/src/functions/gamma/factorial2.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/factorial2.cpp b/libs/e_float/src/functions/gamma/factorial2.cpp
index 16f8ad6..dc87a67 100644
--- a/libs/e_float/src/functions/gamma/factorial2.cpp
+++ b/libs/e_float/src/functions/gamma/factorial2.cpp
@@ -29,9 +29,11 @@ e_float Factorial2_Series::AtInfinity(const std::int32_t n)
   }
   else
   {
-    const std::int32_t n_plus_one = static_cast<std::int32_t>(static_cast<std::int32_t>(n) + static_cast<std::int32_t>(1));
+    // Use n!! = 2^((n + 1) / 2) * gamma((n / 2) + 1) / sqrt(pi).
+    // This neither overflows prematurely nor does it need (n + 1).
+    const std::int64_t n_plus_one_half = static_cast<std::int64_t>((static_cast<std::int64_t>(n) + static_cast<std::int64_t>(1)) / static_cast<std::int64_t>(2));
 
-    return ef::factorial(static_cast<std::uint32_t>(n_plus_one)) / ef::factorial2(n_plus_one);
+    return (ef::pow2(n_plus_one_half) * ef::gamma((e_float(n) / static_cast<std::int32_t>(2)) + ef::one())) / ef::sqrt_pi();
   }
 }
 
@@ -51,8 +53,7 @@ e_float ef::factorial2(const std::int32_t n)
       return ef::one();
     }
 
-    const std::int32_t nn        = (!n_is_neg ? n : static_cast<std::int32_t>(-n));
-    const bool  n_is_even = (static_cast<std::int32_t>(nn % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0U));
+    const bool  n_is_even = (static_cast<std::int32_t>(n % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0));
 
     if(n_is_even)
     {
@@ -61,6 +62,7 @@ e_float ef::factorial2(const std::int32_t n)
     else
     {
       // Double factorial for negative odd integers.
+      const std::int32_t nn                   = static_cast<std::int32_t>(-n);
       const std::int32_t n_minus_one_over_two = static_cast<std::int32_t>(static_cast<std::int32_t>(nn - static_cast<std::int32_t>(1)) / static_cast<std::int32_t>(2));
       const bool  b_negate             = static_cast<std::int32_t>(n_minus_one_over_two % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0);
 
-- 
2.43.0


From 8eb804e5da371d814fb1849e7e7b7f0d2a1f87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 056/109] fix: binomial coefficients of large n (real x) with
 small k were NaN because the factorials (gamma functions) overflow

---
 .../e_float/src/functions/gamma/factorial.cpp | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/factorial.cpp b/libs/e_float/src/functions/gamma/factorial.cpp
index 515eecf..473bc68 100644
--- a/libs/e_float/src/functions/gamma/factorial.cpp
+++ b/libs/e_float/src/functions/gamma/factorial.cpp
@@ -69,6 +69,24 @@ e_float ef::factorial(const std::uint32_t n)
                                                                   : Factorial_Series::AtInfinity(static_cast<std::uint64_t>(n) + static_cast<std::uint64_t>(1U));
 }
 
+namespace
+{
+  e_float Binomial_Product(const e_float& x, const std::uint32_t k)
+  {
+    // Evaluate x * (x - 1) * ... * (x - k + 1) / k!, whereby each
+    // intermediate result is a binomial coefficient itself.
+    e_float result = ef::one();
+
+    for(std::uint32_t i = static_cast<std::uint32_t>(0U); i < k; i++)
+    {
+      result *= (x - i);
+      result /= (i + static_cast<std::uint32_t>(1U));
+    }
+
+    return result;
+  }
+}
+
 e_float ef::binomial(const std::uint32_t n, const std::uint32_t k)
 {
   if(k > n)
@@ -87,7 +105,11 @@ e_float ef::binomial(const std::uint32_t n, const std::uint32_t k)
     }
     else
     {
-      return ef::factorial(n) / (ef::factorial(k) * ef::factorial(n - k));
+      const std::uint32_t k_min = (std::min)(k, static_cast<std::uint32_t>(n - k));
+
+      // Avoid the factorials of a large n if only a few factors are needed.
+      return ((k_min < static_cast<std::uint32_t>(50U)) ? Binomial_Product(e_float(n), k_min)
+                                                        : ef::factorial(n) / (ef::factorial(k) * ef::factorial(n - k)));
     }
   }
 }
@@ -99,7 +121,10 @@ e_float ef::binomial(const std::uint32_t n, const e_float& y)
 
 e_float ef::binomial(const e_float& x, const std::uint32_t k)
 {
-  return ef::gamma(x + ef::one()) / (ef::factorial(k) * ef::gamma((x - e_float(k)) + ef::one()));
+  // Avoid the gamma functions of a large x (or those near or at poles)
+  // if only a few factors are needed.
+  return (k < static_cast<std::uint32_t>(50U)) ? Binomial_Product(x, k) :
+         ef::gamma(x + ef::one()) / (ef::factorial(k) * ef::gamma((x - e_float(k)) + ef::one()));
 }
 
 e_float ef::binomial(const e_float& x, const e_float& y)
-- 
2.43.0


From a13b8896e98f5a59d91ccd691a70e38a6c2061d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 057/109] fix: Pochhammer symbols with 50 or more factors at
 negative x lost digits, or were NaN for nonpositive integers

---
 .../src/functions/gamma/pochhammer.cpp        | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/pochhammer.cpp b/libs/e_float/src/functions/gamma/pochhammer.cpp
index ede5a5c..78704b6 100644
--- a/libs/e_float/src/functions/gamma/pochhammer.cpp
+++ b/libs/e_float/src/functions/gamma/pochhammer.cpp
@@ -19,8 +19,9 @@ namespace Pochhammer_Series
   T Pochhammer_Template(const T& x, const std::uint32_t n)
   {
     using ef::real;
-    using ef::real;
-    using ef::gamma;
+    using ef::imag;
+    using ef::isint;
+    using ef::iszero;
     using ef::gamma;
     using ef::one;
 
@@ -52,6 +53,21 @@ namespace Pochhammer_Series
       {
         const TR nr(n);
 
+        if(isint(real(x)) && iszero(imag(x)) && (real(x) <= TR(0U)) && ((real(x) + nr) > TR(0U)))
+        {
+          // There is a vanishing factor.
+          return T(0U);
+        }
+
+        if((real(x) + nr) <= TR(0U))
+        {
+          // Avoid (the neighborhood of) the poles of the gamma functions
+          // with the reflection (x)_n = (-1)^n * (1 - x - n)_n.
+          const T result = Pochhammer_Template<T, TR>((TR(1U) - nr) - x, n);
+
+          return (((n % static_cast<std::uint32_t>(2U)) == static_cast<std::uint32_t>(0U)) ? result : -result);
+        }
+
         return gamma(x + nr) / gamma(x);
       }
     }
-- 
2.43.0


From 32f6a1fe4056d69adda7960f16a70949563db74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 058/109] fix: Riemann zeta of small negative arguments lost
 digits

---
 libs/e_float/src/functions/zeta/zeta.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index f7d6c72..3737057 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -76,7 +76,6 @@ namespace Zeta_Series
     using ef::real;
     using ef::tolerance;
     using ef::prime;
-    using ef::isneg;
     using ef::iszero;
     using ef::isint;
     using ef::to_int32;
@@ -105,10 +104,13 @@ namespace Zeta_Series
       }
     }
 
-    if(isneg(real(s)))
+    static const TR reflection_limit = TR(-1) / static_cast<std::int32_t>(10);
+
+    if(real(s) < reflection_limit)
     {
-      // Support negative arguments using the reflection formula.
-      // Support arguments with a real part which is less than 1/2.
+      // Support negative arguments using the reflection formula. Do not use
+      // it for small negative arguments because (1 - s) loses the digits of s
+      // near the pole of zeta at one. The series below converges there as well.
       return Zeta_Series::Reflection<T, TR>(s);
     }
 
@@ -141,7 +143,7 @@ namespace Zeta_Series
     static const double td             = static_cast<double>(static_cast<std::int32_t>(tolerance()));
            const double sd             = to_double(real(s));
 
-    if(s_is_pure_real && ((td / sd) < lg10_max_prime))
+    if(s_is_pure_real && (sd > 0.0) && ((td / sd) < lg10_max_prime))
     {
       // Perform the product of primes.
       T product(1U);
-- 
2.43.0


From bcc265174abfaf34269d7666d952c7470db3d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 059/109] fix: Riemann zeta of large (and infinite) arguments
 was NaN instead of one

---
 libs/e_float/src/functions/zeta/zeta.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index 3737057..cb58699 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -143,6 +143,12 @@ namespace Zeta_Series
     static const double td             = static_cast<double>(static_cast<std::int32_t>(tolerance()));
            const double sd             = to_double(real(s));
 
+    if(s_is_pure_real && (sd > (td * 4.0)))
+    {
+      // The result does not significantly differ from one.
+      return T(one());
+    }
+
     if(s_is_pure_real && (sd > 0.0) && ((td / sd) < lg10_max_prime))
     {
       // Perform the product of primes.
-- 
2.43.0


From fd9247beae66e15db19778bb1aee8d908d05a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 060/109] fix: Bernoulli numbers beyond the range were NaN, and
 Riemann zeta of the lowest 32-bit integers overflowed its index

---
 libs/e_float/src/functions/integer/bernoulli_b.cpp | 10 +++++++++-
 libs/e_float/src/functions/zeta/zeta.cpp           |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/integer/bernoulli_b.cpp b/libs/e_float/src/functions/integer/bernoulli_b.cpp
index babc2a0..1d66579 100644
--- a/libs/e_float/src/functions/integer/bernoulli_b.cpp
+++ b/libs/e_float/src/functions/integer/bernoulli_b.cpp
@@ -59,7 +59,15 @@ e_float ef::bernoulli(const std::uint32_t n)
 
       const bool b_neg = static_cast<std::uint32_t>(static_cast<std::uint32_t>(n / static_cast<std::uint32_t>(2U)) & static_cast<std::uint32_t>(1U)) == static_cast<std::uint32_t>(0U);
 
-      const e_float factor = ((ef::factorial(n) / ef::detail::pown_template(ef::two_pi(), static_cast<std::int64_t>(n))) * static_cast<std::int32_t>(2));
+      const e_float n_fact = ef::factorial(n);
+
+      if(ef::isinf(n_fact))
+      {
+        // The factorial overflows and so does the Bernoulli number.
+        return ((!b_neg) ? std::numeric_limits<e_float>::infinity() : -std::numeric_limits<e_float>::infinity());
+      }
+
+      const e_float factor = ((n_fact / ef::detail::pown_template(ef::two_pi(), static_cast<std::int64_t>(n))) * static_cast<std::int32_t>(2));
       const e_float bn     = sum * factor;
 
       return ((!b_neg) ? bn : -bn);
diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index cb58699..2d1281e 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -283,11 +283,11 @@ e_float ef::riemann_zeta(const std::int32_t n)
     {
       if(n < static_cast<std::int32_t>(0))
       {
-        const std::uint32_t two_n = static_cast<std::uint32_t>(static_cast<std::int32_t>(-n) + static_cast<std::int32_t>(1));
+        const std::uint32_t two_n = static_cast<std::uint32_t>(static_cast<std::int64_t>(1) - static_cast<std::int64_t>(n));
 
         const bool is_even = (n % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0);
 
-        return is_even ? ef::zero() : -ef::bernoulli(two_n) / static_cast<std::int32_t>(two_n);
+        return is_even ? ef::zero() : -ef::bernoulli(two_n) / two_n;
       }
       else
       {
-- 
2.43.0


From bfaac62b2cda2b5f7170712a14129abb03b76447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 061/109] fix: the table of Bernoulli numbers for n = 0 was
 written out of bounds

---
 libs/e_float/src/functions/integer/bernoulli_b.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/e_float/src/functions/integer/bernoulli_b.cpp b/libs/e_float/src/functions/integer/bernoulli_b.cpp
index 1d66579..f85fea7 100644
--- a/libs/e_float/src/functions/integer/bernoulli_b.cpp
+++ b/libs/e_float/src/functions/integer/bernoulli_b.cpp
@@ -81,6 +81,13 @@ void ef::bernoulli_table(std::vector<e_float>& bn, const std::uint32_t n)
   // Also see "Modern Computer Arithmetic", Richard P. Brent and Paul Zimmermann,
   // Cambridge University Press, 2010, 237 pp.
 
+  if(n == static_cast<std::uint32_t>(0U))
+  {
+    bn.assign(static_cast<std::vector<e_float>::size_type>(1U), ef::one());
+
+    return;
+  }
+
   const std::uint32_t nn = (((n % static_cast<std::uint32_t>(2)) != static_cast<std::uint32_t>(0U)) ? static_cast<std::uint32_t>(n + 1U) : n);
 
   const std::int32_t m = static_cast<std::int32_t>(nn / static_cast<std::uint32_t>(2U));
-- 
2.43.0


From 1163871e77d424983fd2828af219fc87448cce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 062/109] fix: prime_factors listed a spurious factor one

---
 libs/e_float/src/functions/integer/prime_factor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/integer/prime_factor.cpp b/libs/e_float/src/functions/integer/prime_factor.cpp
index 5072e60..985dbc6 100644
--- a/libs/e_float/src/functions/integer/prime_factor.cpp
+++ b/libs/e_float/src/functions/integer/prime_factor.cpp
@@ -64,7 +64,10 @@ namespace Primes
 
       if(static_cast<std::uint32_t>(np / p) <= p)
       {
-        pf.push_back(Util::point<std::uint32_t>(np, static_cast<std::uint32_t>(1U)));
+        if(np > static_cast<std::uint32_t>(1U))
+        {
+          pf.push_back(Util::point<std::uint32_t>(np, static_cast<std::uint32_t>(1U)));
+        }
 
         break;
       }
-- 
2.43.0


From 9abe3ad2fd9ea70cfc71dda1d21b19d6cf2b0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 063/109] fix: the complex conjugate was the product with the
 imaginary unit

---
 libs/e_float/src/e_float/e_float_complex.h | 29 +++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index da6c0e0..9dafce3 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1095,7 +1095,7 @@
 
     template<typename T> complex<T> conj(const complex<T>& c__my_z)
     {
-      return complex<T>(-c__my_z.imag(), c__my_z.real());
+      return complex<T>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<typename T> complex<T> proj(const complex<T>& c__my_z)
@@ -1126,19 +1126,20 @@
 
     template<typename T> complex<T> asin(const complex<T>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(T(1U) - (c__my_z * c__my_z))));
+      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
+
+      const complex<T> __log(log(__iz + sqrt(T(1U) - (c__my_z * c__my_z))));
+
+      return complex<T>(__log.imag(), -__log.real());
     }
 
     template<typename T> complex<T> atan(const complex<T>& c__my_z)
     {
-      const complex<T> __z_conj = conj(c__my_z);
+      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
 
-      complex<T> z__result = conj(log(T(1) - __z_conj) - log(T(1) + __z_conj));
-
-      z__result.real(z__result.real() / 2U);
-      z__result.imag(z__result.imag() / 2U);
+      const complex<T> __log(log(T(1) - __iz) - log(T(1) + __iz));
 
-      return z__result;
+      return complex<T>(-__log.imag() / 2U, __log.real() / 2U);
     }
 
     template<typename T> complex<T> acosh(const complex<T>& c__my_z)
@@ -1687,7 +1688,7 @@
 
     template<> inline complex<e_float> conj(const complex<e_float>& c__my_z)
     {
-      return complex<e_float>(-c__my_z.imag(), c__my_z.real());
+      return complex<e_float>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<> inline complex<e_float> proj(const complex<e_float>& c__my_z)
@@ -1713,14 +1714,18 @@
 
     template<> inline complex<e_float> asin(const complex<e_float>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(ef::one() - (c__my_z * c__my_z))));
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
+
+      const complex<e_float> c__my_log(log(c__my_iz + sqrt(ef::one() - (c__my_z * c__my_z))));
+
+      return complex<e_float>(c__my_log.imag(), -c__my_log.real());
     }
 
     template<> inline complex<e_float> atan(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_z_conj(conj(c__my_z));
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
 
-      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_z_conj) - log(ef::one() + c__my_z_conj));
+      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_iz) - log(ef::one() + c__my_iz));
 
       return complex<e_float>(-c__my_pre_result.imag() / 2U,
                                c__my_pre_result.real() / 2U);
-- 
2.43.0


From a2403e1698b82f64daef0e211f142f00ddb59d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 064/109] fix: the complex projection scaled finite numbers
 instead of returning them

---
 libs/e_float/src/e_float/e_float_complex.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 9dafce3..69acc32 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -15,6 +15,7 @@
   #include <array>
   #include <cmath>
   #include <istream>
+  #include <limits>
   #include <ostream>
   #include <regex>
   #include <sstream>
@@ -1100,10 +1101,10 @@
 
     template<typename T> complex<T> proj(const complex<T>& c__my_z)
     {
-      const T __denominator_half((norm(c__my_z) + T(1U)) / 2U);
+      const bool __is_inf = (   ((c__my_z.real() == c__my_z.real()) && (!(c__my_z.real() - c__my_z.real() == T(0U))))
+                             || ((c__my_z.imag() == c__my_z.imag()) && (!(c__my_z.imag() - c__my_z.imag() == T(0U)))));
 
-      return complex<T>(c__my_z.real() / __denominator_half,
-                        c__my_z.imag() / __denominator_half);
+      return (__is_inf ? complex<T>(std::numeric_limits<T>::infinity()) : c__my_z);
     }
 
     template<typename T> complex<T> polar(const T& c__my_rho, const T& c__my_theta)
@@ -1693,10 +1694,8 @@
 
     template<> inline complex<e_float> proj(const complex<e_float>& c__my_z)
     {
-      const e_float two_over_denom((norm(c__my_z) + ef::one()).calculate_inv() * 2U);
-
-      return complex<e_float>(c__my_z.real() * two_over_denom,
-                              c__my_z.imag() * two_over_denom);
+      return ((ef::isinf(c__my_z.real()) || ef::isinf(c__my_z.imag())) ? complex<e_float>(std::numeric_limits<e_float>::infinity())
+                                                                       : c__my_z);
     }
 
     template<> inline complex<e_float> polar(const e_float& c__my_rho, const e_float& c__my_theta)
-- 
2.43.0


From 8736c22d5ae1a7e23913f6372438c694f6ee7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 065/109] fix: the complex square root (and the generic norm)
 of zero was NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 69acc32..e23419c 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1084,6 +1084,10 @@
 
         c__my_result = (c__my_z.imag() * c__my_z.imag()) * (T(1U) + (c__my_a_over_b * c__my_a_over_b));
       }
+      else if(c__my_z.real() == T(0U))
+      {
+        c__my_result = T(0U);
+      }
       else
       {
         const T c__my_b_over_a = c__my_z.imag() / c__my_z.real();
@@ -1303,7 +1307,11 @@
       const T    __real_part_fabs  ((__real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const T    __s_part          (sqrt((__real_part_fabs + abs(c__my_z)) / 2U));
 
-      if(__real_part_is_neg == false)
+      if(__s_part == T(0U))
+      {
+        return complex<T>(T(0U));
+      }
+      else if(__real_part_is_neg == false)
       {
         return complex<T>(__s_part,
                           c__my_z.imag() / (__s_part * 2U));
@@ -1851,7 +1859,11 @@
       const e_float c__my_real_part_fabs((c__my_real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const e_float c__my_sqrt_part     (ef::sqrt((c__my_real_part_fabs + abs(c__my_z)) / 2U));
 
-      if(c__my_real_part_is_neg == false)
+      if(ef::iszero(c__my_sqrt_part))
+      {
+        return complex<e_float>(ef::zero());
+      }
+      else if(c__my_real_part_is_neg == false)
       {
         return complex<e_float>(c__my_sqrt_part,
                                 c__my_z.imag() / (c__my_sqrt_part * 2U));
-- 
2.43.0


From 02ece3056cd61bdf73c7066708d3578e1e2e695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 066/109] fix: the complex logarithm lost its digits near one

---
 libs/e_float/src/e_float/e_float_complex.h | 39 +++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index e23419c..af247b3 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1204,9 +1204,27 @@
     template<typename T> complex<T> log(const complex<T>& c__my_z)
     {
       using std::atan2;
+      using std::fabs;
       using std::log;
+      using std::log1p;
+
+      const T c__my_norm(norm(c__my_z));
+
+      T c__my_real_part;
+
+      if((c__my_norm * 2U > T(1U)) && (c__my_norm < T(2U)))
+      {
+        // Avoid the cancellation near the unit circle.
+        const T c__my_x((std::max)(T(fabs(c__my_z.real())), T(fabs(c__my_z.imag()))));
+        const T c__my_y((std::min)(T(fabs(c__my_z.real())), T(fabs(c__my_z.imag()))));
+
+        c__my_real_part = T(log1p(T(((c__my_x - T(1U)) * (c__my_x + T(1U))) + (c__my_y * c__my_y)))) / 2U;
+      }
+      else
+      {
+        c__my_real_part = T(log(c__my_norm)) / 2U;
+      }
 
-      const T c__my_real_part(log(norm(c__my_z)) / 2U);
       const T c__my_imag_part(atan2(c__my_z.imag(), c__my_z.real()));
 
       return complex<T>(c__my_real_part, c__my_imag_part);
@@ -1790,10 +1808,23 @@
 
     template<> inline complex<e_float> log(const complex<e_float>& c__my_z)
     {
-      using std::atan2;
-      using std::log;
+      const e_float c__my_norm(norm(c__my_z));
+
+      e_float c__my_real_part;
+
+      if((c__my_norm > ef::half()) && (c__my_norm < ef::two()))
+      {
+        // Avoid the cancellation near the unit circle.
+        const e_float c__my_x((std::max)(ef::fabs(c__my_z.real()), ef::fabs(c__my_z.imag())));
+        const e_float c__my_y((std::min)(ef::fabs(c__my_z.real()), ef::fabs(c__my_z.imag())));
+
+        c__my_real_part = ef::log1p(((c__my_x - ef::one()) * (c__my_x + ef::one())) + (c__my_y * c__my_y)) / 2U;
+      }
+      else
+      {
+        c__my_real_part = ef::log(c__my_norm) / 2U;
+      }
 
-      const e_float c__my_real_part(ef::log(norm(c__my_z)) / 2U);
       const e_float c__my_imag_part(ef::atan2(c__my_z.imag(), c__my_z.real()));
 
       return complex<e_float>(c__my_real_part, c__my_imag_part);
-- 
2.43.0


From b477d0616b3c42a93a4183e70874a80dc9efbfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 067/109] fix: complex atan and atanh lost the digits of small
 arguments

---
 libs/e_float/src/e_float/e_float_complex.h | 44 +++++++++++++---------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index af247b3..9bc7cb0 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1140,11 +1140,10 @@
 
     template<typename T> complex<T> atan(const complex<T>& c__my_z)
     {
-      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
-
-      const complex<T> __log(log(T(1) - __iz) - log(T(1) + __iz));
+      // Use atan(z) = -i * atanh(i * z).
+      const complex<T> __atanh_iz(atanh(complex<T>(-c__my_z.imag(), c__my_z.real())));
 
-      return complex<T>(-__log.imag() / 2U, __log.real() / 2U);
+      return complex<T>(__atanh_iz.imag(), -__atanh_iz.real());
     }
 
     template<typename T> complex<T> acosh(const complex<T>& c__my_z)
@@ -1162,12 +1161,20 @@
 
     template<typename T> complex<T> atanh(const complex<T>& c__my_z)
     {
-      complex<T> z__result = (log(T(1U) + c__my_z) - log(T(1U) - c__my_z));
+      using std::atan2;
+      using std::fabs;
+      using std::log1p;
 
-      z__result.real(z__result.real() / 2U);
-      z__result.imag(z__result.imag() / 2U);
+      const bool __real_part_is_neg(c__my_z.real() < T(0U));
+      const T    __x               (fabs(c__my_z.real()));
+      const T    __y               (c__my_z.imag());
+      const T    __one_minus_x     (T(1U) - __x);
+      const T    __y_squared       (__y * __y);
+
+      const T    __real_part(T(log1p(T((__x * 4U) / ((__one_minus_x * __one_minus_x) + __y_squared)))) / 4U);
+      const T    __imag_part(T(atan2(T(__y * 2U), T((__one_minus_x * (T(1U) + __x)) - __y_squared))) / 2U);
 
-      return z__result;
+      return complex<T>(((__real_part_is_neg == false) ? __real_part : T(-__real_part)), __imag_part);
     }
 
     template<typename T> complex<T> cos(const complex<T>& c__my_z)
@@ -1748,12 +1755,10 @@
 
     template<> inline complex<e_float> atan(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
+      // Use atan(z) = -i * atanh(i * z).
+      const complex<e_float> c__my_atanh_iz(atanh(complex<e_float>(-c__my_z.imag(), c__my_z.real())));
 
-      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_iz) - log(ef::one() + c__my_iz));
-
-      return complex<e_float>(-c__my_pre_result.imag() / 2U,
-                               c__my_pre_result.real() / 2U);
+      return complex<e_float>(c__my_atanh_iz.imag(), -c__my_atanh_iz.real());
     }
 
     template<> inline complex<e_float> acosh(const complex<e_float>& c__my_z)
@@ -1771,11 +1776,16 @@
 
     template<> inline complex<e_float> atanh(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_pre_result(  log(ef::one() + c__my_z)
-                                             - log(ef::one() - c__my_z));
+      const bool    c__my_real_part_is_neg(c__my_z.real() < 0U);
+      const e_float c__my_x               (ef::fabs(c__my_z.real()));
+      const e_float c__my_y               (c__my_z.imag());
+      const e_float c__my_one_minus_x     (ef::one() - c__my_x);
+      const e_float c__my_y_squared       (c__my_y * c__my_y);
+
+      const e_float c__my_real_part(ef::log1p((c__my_x * 4U) / ((c__my_one_minus_x * c__my_one_minus_x) + c__my_y_squared)) / 4U);
+      const e_float c__my_imag_part(ef::atan2(c__my_y * 2U, (c__my_one_minus_x * (ef::one() + c__my_x)) - c__my_y_squared) / 2U);
 
-      return complex<e_float>(c__my_pre_result.real() / 2U,
-                              c__my_pre_result.imag() / 2U);
+      return complex<e_float>(((c__my_real_part_is_neg == false) ? c__my_real_part : -c__my_real_part), c__my_imag_part);
     }
 
     template<> inline complex<e_float> cos(const complex<e_float>& c__my_z)
-- 
2.43.0


From 868382098477cd8769c0557960e700e96563a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 068/109] fix: complex asin, acos, asinh and acosh lost all
 digits of large and small arguments in parts of the plane

---
 libs/e_float/src/e_float/e_float_complex.h | 65 ++++++++++++++++------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 9bc7cb0..61cefaf 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1124,18 +1124,28 @@
 
     template<typename T> complex<T> acos(const complex<T>& c__my_z)
     {
-      using std::asin;
+      using std::asinh;
+      using std::atan2;
+
+      // Use the cancellation-free formulas of W. Kahan.
+      const complex<T> __sp(sqrt(T(1U) + c__my_z));
+      const complex<T> __sm(sqrt(T(1U) - c__my_z));
 
-      return T(asin(T(1U))) - asin(c__my_z);
+      return complex<T>(T(atan2(__sm.real(), __sp.real())) * 2U,
+                        T(asinh(T((__sp.real() * __sm.imag()) - (__sp.imag() * __sm.real())))));
     }
 
     template<typename T> complex<T> asin(const complex<T>& c__my_z)
     {
-      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
+      using std::asinh;
+      using std::atan2;
 
-      const complex<T> __log(log(__iz + sqrt(T(1U) - (c__my_z * c__my_z))));
+      // Use the cancellation-free formulas of W. Kahan.
+      const complex<T> __sp(sqrt(T(1U) + c__my_z));
+      const complex<T> __sm(sqrt(T(1U) - c__my_z));
 
-      return complex<T>(__log.imag(), -__log.real());
+      return complex<T>(T(atan2(c__my_z.real(), T((__sp.real() * __sm.real()) - (__sp.imag() * __sm.imag())))),
+                        T(asinh(T((__sm.real() * __sp.imag()) - (__sm.imag() * __sp.real())))));
     }
 
     template<typename T> complex<T> atan(const complex<T>& c__my_z)
@@ -1148,15 +1158,23 @@
 
     template<typename T> complex<T> acosh(const complex<T>& c__my_z)
     {
-      const complex<T> __zp(c__my_z.real() + T(1U), c__my_z.imag());
-      const complex<T> __zm(c__my_z.real() - T(1U), c__my_z.imag());
+      using std::asinh;
+      using std::atan2;
+
+      // Use the cancellation-free formulas of W. Kahan.
+      const complex<T> __sp(sqrt(c__my_z + T(1U)));
+      const complex<T> __sm(sqrt(c__my_z - T(1U)));
 
-      return log(c__my_z + (__zp * sqrt(__zm / __zp)));
+      return complex<T>(T(asinh(T((__sm.real() * __sp.real()) + (__sm.imag() * __sp.imag())))),
+                        T(atan2(__sm.imag(), __sp.real())) * 2U);
     }
 
     template<typename T> complex<T> asinh(const complex<T>& c__my_z)
     {
-      return log(c__my_z + sqrt(T(1U) + (c__my_z * c__my_z)));
+      // Use asinh(z) = i * asin(-i * z).
+      const complex<T> __asin_miz(asin(complex<T>(c__my_z.imag(), -c__my_z.real())));
+
+      return complex<T>(-__asin_miz.imag(), __asin_miz.real());
     }
 
     template<typename T> complex<T> atanh(const complex<T>& c__my_z)
@@ -1741,16 +1759,22 @@
 
     template<> inline complex<e_float> acos(const complex<e_float>& c__my_z)
     {
-      return complex<e_float>(ef::pi_half()) - asin(c__my_z);
+      // Use the cancellation-free formulas of W. Kahan.
+      const complex<e_float> c__my_sp(sqrt(ef::one() + c__my_z));
+      const complex<e_float> c__my_sm(sqrt(ef::one() - c__my_z));
+
+      return complex<e_float>(ef::atan2(c__my_sm.real(), c__my_sp.real()) * 2U,
+                              ef::asinh((c__my_sp.real() * c__my_sm.imag()) - (c__my_sp.imag() * c__my_sm.real())));
     }
 
     template<> inline complex<e_float> asin(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
+      // Use the cancellation-free formulas of W. Kahan.
+      const complex<e_float> c__my_sp(sqrt(ef::one() + c__my_z));
+      const complex<e_float> c__my_sm(sqrt(ef::one() - c__my_z));
 
-      const complex<e_float> c__my_log(log(c__my_iz + sqrt(ef::one() - (c__my_z * c__my_z))));
-
-      return complex<e_float>(c__my_log.imag(), -c__my_log.real());
+      return complex<e_float>(ef::atan2(c__my_z.real(), (c__my_sp.real() * c__my_sm.real()) - (c__my_sp.imag() * c__my_sm.imag())),
+                              ef::asinh((c__my_sm.real() * c__my_sp.imag()) - (c__my_sm.imag() * c__my_sp.real())));
     }
 
     template<> inline complex<e_float> atan(const complex<e_float>& c__my_z)
@@ -1763,15 +1787,20 @@
 
     template<> inline complex<e_float> acosh(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_zp = c__my_z + ef::one();
-      const complex<e_float> c__my_zm = c__my_z - ef::one();
+      // Use the cancellation-free formulas of W. Kahan.
+      const complex<e_float> c__my_sp(sqrt(c__my_z + ef::one()));
+      const complex<e_float> c__my_sm(sqrt(c__my_z - ef::one()));
 
-      return log(c__my_z + (c__my_zp * sqrt(c__my_zm / c__my_zp)));
+      return complex<e_float>(ef::asinh((c__my_sm.real() * c__my_sp.real()) + (c__my_sm.imag() * c__my_sp.imag())),
+                              ef::atan2(c__my_sm.imag(), c__my_sp.real()) * 2U);
     }
 
     template<> complex<e_float> asinh(const complex<e_float>& c__my_z)
     {
-      return log(c__my_z + sqrt((c__my_z * c__my_z) + ef::one()));
+      // Use asinh(z) = i * asin(-i * z).
+      const complex<e_float> c__my_asin_miz(asin(complex<e_float>(c__my_z.imag(), -c__my_z.real())));
+
+      return complex<e_float>(-c__my_asin_miz.imag(), c__my_asin_miz.real());
     }
 
     template<> inline complex<e_float> atanh(const complex<e_float>& c__my_z)
-- 
2.43.0


From a49ec459089017663336e50c1d8d5613c72eefc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 069/109] fix: complex powers of zero and of negative real
 numbers were NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 28 ++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 61cefaf..90f682b 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1298,19 +1298,28 @@
 
     template<typename T> complex<T> pow(const complex<T>& c__my_z, const T& c__my_a)
     {
+      if((c__my_z == complex<T>(T(0U))) && (c__my_a > T(0U)))
+      {
+        return complex<T>(T(0U));
+      }
+
       return exp(c__my_a * log(c__my_z));
     }
 
     template<typename T> complex<T> pow(const complex<T>& c__my_z, const complex<T>& c__my_a)
     {
+      if((c__my_z == complex<T>(T(0U))) && (c__my_a.real() > T(0U)))
+      {
+        return complex<T>(T(0U));
+      }
+
       return exp(c__my_a * log(c__my_z));
     }
 
     template<typename T> complex<T> pow(const T& c__my_z, const complex<T>& c__my_a)
     {
-      using std::log;
-
-      return exp(c__my_a * T(log(c__my_z)));
+      // Use the complex power, which has a value also for non-positive numbers.
+      return pow(complex<T>(c__my_z), c__my_a);
     }
 
     template<typename T> complex<T> sin(const complex<T>& c__my_z)
@@ -1881,17 +1890,28 @@
 
     template<> inline complex<e_float> pow(const complex<e_float>& c__my_z, const e_float& c__my_a)
     {
+      if((c__my_z == complex<e_float>(e_float(0U))) && (c__my_a > e_float(0U)))
+      {
+        return complex<e_float>(e_float(0U));
+      }
+
       return exp(c__my_a * log(c__my_z));
     }
 
     template<> inline complex<e_float> pow(const complex<e_float>& c__my_z, const complex<e_float>& c__my_a)
     {
+      if((c__my_z == complex<e_float>(e_float(0U))) && (c__my_a.real() > e_float(0U)))
+      {
+        return complex<e_float>(e_float(0U));
+      }
+
       return exp(c__my_a * log(c__my_z));
     }
 
     template<> inline complex<e_float> pow(const e_float& c__my_z, const complex<e_float>& c__my_a)
     {
-      return exp(c__my_a * log(c__my_z));
+      // Use the complex power, which has a value also for non-positive numbers.
+      return pow(complex<e_float>(c__my_z), c__my_a);
     }
 
     template<> inline complex<e_float> sin(const complex<e_float>& c__my_z)
-- 
2.43.0


From 330b27ea40b55d5396306aee339fb8a369ab7596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 070/109] fix: characters of malformed complex text were put
 back into the stream in reverse order

---
 libs/e_float/src/e_float/e_float_complex.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 90f682b..65fda51 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1028,8 +1028,8 @@
       {
         // Error case: Restore the characters in the input stream
         // and set the fail bit in the input stream.
-        std::for_each(c__my_input_str.cbegin(),
-                      c__my_input_str.cend(),
+        std::for_each(c__my_input_str.crbegin(),
+                      c__my_input_str.crend(),
                       [&c__my_istream](const char& c__my_c)
                       {
                         c__my_istream.putback(c__my_c);
@@ -2123,8 +2123,8 @@
       {
         // Error case: Restore the characters in the input stream
         // and set the fail bit in the input stream.
-        std::for_each(c__my_input_str.cbegin(),
-                      c__my_input_str.cend(),
+        std::for_each(c__my_input_str.crbegin(),
+                      c__my_input_str.crend(),
                       [&c__my_istream](const char& c__my_c)
                       {
                         c__my_istream.putback(c__my_c);
-- 
2.43.0


From 95bdfc399936010f433f7e8af0a5c9974bc48705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 071/109] fix: malformed complex text such as (1,) or () was
 accepted as zero, and complex input at the end of a stream overwrote the
 number

---
 libs/e_float/src/e_float/e_float_complex.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 65fda51..de1d7ff 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -983,6 +983,7 @@
 
             c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
             c__my_stringstream >> c__my_real_input;
+            c__my_input_has_error = (c__my_input_has_error || c__my_stringstream.fail() || (c__my_stringstream.peek() != std::char_traits<char>::eof()));
           }
 
           // Extract the imaginary part of the complex number.
@@ -991,6 +992,7 @@
 
             c__my_stringstream << c__my_mr[3U] << c__my_mr[4U];
             c__my_stringstream >> c__my_imag_input;
+            c__my_input_has_error = (c__my_input_has_error || c__my_stringstream.fail() || (c__my_stringstream.peek() != std::char_traits<char>::eof()));
           }
         }
       }
@@ -1019,6 +1021,7 @@
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
+          c__my_input_has_error = (c__my_input_has_error || c__my_stringstream.fail() || (c__my_stringstream.peek() != std::char_traits<char>::eof()));
 
           c__my_imag_input = T(0U);
         }
@@ -2078,6 +2081,7 @@
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
+          c__my_input_has_error = (c__my_input_has_error || c__my_stringstream.fail() || (c__my_stringstream.peek() != std::char_traits<char>::eof()));
 
           c__my_stringstream.str(std::string());
           c__my_stringstream.clear();
@@ -2086,6 +2090,7 @@
 
           c__my_stringstream << c__my_mr[3U] << c__my_mr[4U];
           c__my_stringstream >> c__my_imag_input;
+          c__my_input_has_error = (c__my_input_has_error || c__my_stringstream.fail() || (c__my_stringstream.peek() != std::char_traits<char>::eof()));
         }
       }
       else if(   (c__my_it_regex_match == (c__my_regexes.cbegin() + 1U))
@@ -2114,6 +2119,7 @@
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
+          c__my_input_has_error = (c__my_input_has_error || c__my_stringstream.fail() || (c__my_stringstream.peek() != std::char_traits<char>::eof()));
 
           c__my_imag_input = e_float(0U);
         }
-- 
2.43.0


From 5144829743ff9d67f2dce7e0c6a156dc60927d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 072/109] fix: division by a number at the very top of the
 exponent range gave zero or NaN (native engine)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 22 +++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index d206615..b531522 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -842,7 +842,27 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
   }
   else
   {
-    operator*=(e_float(v).calculate_inv());
+    e_float u(v);
+
+    // The inverse of a divisor at the upper end of the exponent range lies below
+    // the smallest representable number. Divide in two steps in this case.
+    constexpr std::int64_t shift = static_cast<std::int64_t>(2 * ef_elem_digits10);
+
+    const bool b_shift = (u.isfinite() && (u.my_exp > (static_cast<std::int64_t>(ef_max_exp10) - shift)));
+
+    if(b_shift)
+    {
+      u.my_exp -= shift;
+    }
+
+    operator*=(u.calculate_inv());
+
+    if(b_shift)
+    {
+      static const e_float one_shifted("1E-" + std::to_string(shift));
+
+      operator*=(one_shifted);
+    }
   }
 
   return *this;
-- 
2.43.0


From cc4c2d12601451c2321772a2837f06a9caec75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 073/109] fix: order() of infinity and NaN converted an
 infinite double to an integer (GMP and MPFR engines)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 2 +-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 96dca10..a39df5c 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -970,7 +970,7 @@ std::int64_t gmp::e_float::get_order_fast() const
 {
   const e_float xx = ef::fabs(*this);
 
-  if(xx.iszero() || xx.isone())
+  if(xx.iszero() || xx.isone() || (!xx.isfinite()))
   {
     return static_cast<std::int64_t>(0);
   }
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 78a1535..eb1918e 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -526,7 +526,7 @@ std::int64_t mpfr::e_float::get_order_fast() const
 {
   const e_float xx = ef::fabs(*this);
 
-  if(xx.iszero() || xx.isone())
+  if(xx.iszero() || xx.isone() || (!xx.isfinite()))
   {
     return static_cast<std::int64_t>(0);
   }
-- 
2.43.0


From 79a799152769b89fb6faa59e39f98b14a77cad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 074/109] fix: gamma_near_n of the smallest integer negated it
 with overflow

---
 libs/e_float/src/functions/gamma/gamma.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index e6c622f..76da57e 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -201,9 +201,9 @@ namespace GammaTemplate
     }
     else
     {
-      const std::int32_t nn = static_cast<std::int32_t>(-n);
+      const std::int64_t nn = -static_cast<std::int64_t>(n);
 
-      const bool b_neg = (static_cast<std::int32_t>(nn % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0));
+      const bool b_neg = (static_cast<std::int64_t>(nn % static_cast<std::int64_t>(2)) != static_cast<std::int64_t>(0));
 
       const T n_minus_x = nn - x;
       const T Gn        = pi() / (GammaTemplate::gamma<T, TR>(n_minus_x + one()) * sin(pi() * x));
-- 
2.43.0


From c661833ed74192d87c4fac955c51da563ea37d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 075/109] fix: rootn with a large root gave infinity, zero or
 NaN (or overflowed the stack for the smallest integer)

---
 .../functions/elementary/elementary_trans.cpp | 39 ++++++++++++++-----
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index db5b4aa..48307a1 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -44,25 +44,34 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
 
   ef::to_parts(x, dd, ne);
 
-  // Adjust exponent and mantissa such that ne is an even power of p.
-  while(ne % static_cast<std::int64_t>(p))
+  // Split the exponent in a multiple of p and a non-negative remainder.
+  std::int64_t ne_quot = ne / static_cast<std::int64_t>(p);
+  std::int64_t ne_rem  = ne % static_cast<std::int64_t>(p);
+
+  if(ne_rem < static_cast<std::int64_t>(0))
   {
-    ++ne;
-    dd /= 10.0;
+    ne_rem += static_cast<std::int64_t>(p);
+
+    --ne_quot;
   }
-  
+
   // Estimate the one over the root using simple manipulations.
-  const double one_over_rtn_d = ::pow(dd, -1.0 / static_cast<double>(p));
+  const double one_over_rtn_d = ::pow(10.0, -(::log10(dd) + static_cast<double>(ne_rem)) / static_cast<double>(p));
 
   // Set the result equal to the initial guess.
-  e_float result(one_over_rtn_d, static_cast<std::int64_t>(-ne / p));
+  e_float result(one_over_rtn_d, static_cast<std::int64_t>(-ne_quot));
 
   static const std::int32_t double_digits10_minus_a_few = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(3));
 
-  for(std::int32_t digits = double_digits10_minus_a_few; digits <= static_cast<std::int32_t>(ef::tolerance()); digits *= static_cast<std::int32_t>(2))
+  // The error of each iteration is proportional to p. So begin with fewer digits
+  // and use more guard digits for large p.
+  const std::int32_t digits_of_p    = static_cast<std::int32_t>(::log10(static_cast<double>(p)));
+  const std::int32_t digits_initial = static_cast<std::int32_t>(double_digits10_minus_a_few - digits_of_p);
+
+  for(std::int32_t digits = digits_initial; digits <= static_cast<std::int32_t>(ef::tolerance()); digits *= static_cast<std::int32_t>(2))
   {
     // Adjust precision of the terms.
-    const std::int32_t new_prec = static_cast<std::int32_t>(digits * 2) + 10;
+    const std::int32_t new_prec = static_cast<std::int32_t>(static_cast<std::int32_t>(digits + digits_of_p) * 2) + 10;
 
     result.precision(new_prec);
 
@@ -95,6 +104,12 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(p == (std::numeric_limits<std::int32_t>::min)())
+  {
+    // The negated value can not be represented.
+    return ef::sqrt(ef::rootn(x, p / static_cast<std::int32_t>(2)));
+  }
+
   if(p < static_cast<std::int32_t>(0))
   {
     return ef::rootn(ef::one() / x, static_cast<std::int32_t>(-p));
@@ -130,6 +145,12 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(p == (std::numeric_limits<std::int32_t>::min)())
+  {
+    // The negated value can not be represented.
+    return ef::sqrt(ef::rootn_inverse(x, p / static_cast<std::int32_t>(2)));
+  }
+
   if(p < static_cast<std::int32_t>(0))
   {
     return ef::rootn(x, static_cast<std::int32_t>(-p));
-- 
2.43.0


From ed4eb2687bbad929745e906b5b908de775ded9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 076/109] fix: frexp of the largest numbers did not terminate
 and ldexp with a large exponent went through infinity or zero

---
 .../src/functions/elementary/elementary_math.cpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index aadc367..334951f 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -71,7 +71,10 @@ std::int32_t ef::sgn(const e_float& x)
 
 e_float ef::ldexp(const e_float& v, int e)
 {
-  return v * ef::pow2(e);
+  // Scale in two steps because the power of two might be out of range.
+  const std::int64_t e_half = static_cast<std::int64_t>(e / 2);
+
+  return (v * ef::pow2(e_half)) * ef::pow2(static_cast<std::int64_t>(e) - e_half);
 }
 
 e_float ef::frexp(const e_float& v, int* expon)
@@ -95,7 +98,10 @@ e_float ef::frexp(const e_float& v, int* expon)
   // Estimate the base-2 exponent from the mantissa and the base-10 exponent.
   std::int64_t n = static_cast<std::int64_t>(floor(log2(fabs(d)) + (static_cast<double>(i) * log2(10.0)))) + static_cast<std::int64_t>(1);
 
-  e_float m = v * ef::pow2(-n);
+  // Scale in two steps because the power of two might be out of range for very large or small numbers.
+  const std::int64_t n_half = static_cast<std::int64_t>(n / static_cast<std::int64_t>(2));
+
+  e_float m = (v * ef::pow2(-n_half)) * ef::pow2(n_half - n);
 
   // Normalize the mantissa to the range [1/2, 1).
   while(ef::fabs(m) >= ef::one())  { m /= static_cast<std::int32_t>(2); ++n; }
-- 
2.43.0


From a15f2dd56d7442263ce1dcad984a15063c12cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 077/109] fix: pow2 of the smallest integer negated it with
 overflow

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 48307a1..5f28459 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -25,7 +25,8 @@ namespace ElementaryTrans_Series
 
 e_float ef::pow2(const std::int64_t p)
 {
-  if     (p <  -1) { return ef::pow(e_float( { UINT32_C(50000000) }, -8 ), -p); }
+  if     (p == (std::numeric_limits<std::int64_t>::min)()) { return ef::zero(); }
+  else if(p <  -1) { return ef::pow(e_float( { UINT32_C(50000000) }, -8 ), -p); }
   else if(p == -1) { return e_float( { UINT32_C(50000000) }, -8 ); }
   else if(p ==  0) { return e_float( { UINT32_C(1) } ); }
   else if(p ==  1) { return e_float( { UINT32_C(2) } ); }
-- 
2.43.0


From 2a75c421ad4ac1a77d3287385d2b021da78a1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 078/109] fix: lazily filled tables (primes, prime factors,
 logarithms) and computed pi and ln2 were filled without synchronization when
 several threads used them first

---
 .../src/functions/constants/constants.cpp     | 13 ++++----
 libs/e_float/src/functions/integer/prime.cpp  | 13 ++++----
 .../src/functions/integer/prime_factor.cpp    | 15 ++++++----
 libs/e_float/src/functions/zeta/zeta.cpp      | 13 ++++----
 .../constants/generic_functions_constants.h   | 30 ++++++++-----------
 .../src/utility/util_power_j_pow_x.cpp        |  3 +-
 6 files changed, 44 insertions(+), 43 deletions(-)

diff --git a/libs/e_float/src/functions/constants/constants.cpp b/libs/e_float/src/functions/constants/constants.cpp
index fa8d737..d573172 100644
--- a/libs/e_float/src/functions/constants/constants.cpp
+++ b/libs/e_float/src/functions/constants/constants.cpp
@@ -100,12 +100,10 @@ const e_float& ef::pi()
   }
   else
   {
-    static bool is_initialized = false;
-    static e_float val_pi;
-
-    if(!is_initialized)
+    // The initialization takes place once only, even if several threads request pi.
+    static const e_float val = []() -> e_float
     {
-      is_initialized = true;
+      e_float val_pi;
 
       e_float a(1U);
       e_float bB("0.5");
@@ -149,9 +147,10 @@ const e_float& ef::pi()
 
       val_pi += bB;
       val_pi *= s.calculate_inv();
-    }
 
-    static const e_float val(val_pi);
+      return val_pi;
+    }();
+
     return val;
   }
 }
diff --git a/libs/e_float/src/functions/integer/prime.cpp b/libs/e_float/src/functions/integer/prime.cpp
index 8469b58..5b01627 100644
--- a/libs/e_float/src/functions/integer/prime.cpp
+++ b/libs/e_float/src/functions/integer/prime.cpp
@@ -95,10 +95,11 @@ namespace Primes
   std::deque<std::uint32_t>& Data()
   {
     // Create a static data table of primes and return a reference to it.
-    static std::deque<std::uint32_t> primes;
-
-    if(primes.empty())
+    // The initialization takes place once only, even if several threads request the data.
+    static std::deque<std::uint32_t> primes = []() -> std::deque<std::uint32_t>
     {
+      std::deque<std::uint32_t> primes_data;
+
       // Select a maximum count of prime numbers to be stored
       // in the data table. This number is selected such that
       // the value of the highest prime will slightly exceed
@@ -107,8 +108,10 @@ namespace Primes
       // while computing the prime factors of unsigned 32-bit integers,
       // as done in the subroutine Factors(...).
 
-      Primes::Generator(static_cast<std::uint32_t>(6550U), primes);
-    }
+      Primes::Generator(static_cast<std::uint32_t>(6550U), primes_data);
+
+      return primes_data;
+    }();
 
     return primes;
   }
diff --git a/libs/e_float/src/functions/integer/prime_factor.cpp b/libs/e_float/src/functions/integer/prime_factor.cpp
index 985dbc6..e08912d 100644
--- a/libs/e_float/src/functions/integer/prime_factor.cpp
+++ b/libs/e_float/src/functions/integer/prime_factor.cpp
@@ -85,10 +85,11 @@ void ef::prime_factors(const std::uint32_t n, std::deque<Util::point<std::uint32
   // Factor the input integer into a list of primes. For small inputs less than 10,000
   // use the tabulated prime factors list. Calculate the prime factors for larger inputs
   // above 10,000.
-  static std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_list;
-
-  if(prime_factors_list.empty())
+  // The initialization takes place once only, even if several threads request the list.
+  static const std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_table = []() -> std::vector<std::deque<Util::point<std::uint32_t>>>
   {
+    std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_list;
+
     // Generate a table of the sets of the first 10,000 integer prime factorizations.
     prime_factors_list.resize(static_cast<std::size_t>(10000U));
 
@@ -120,11 +121,13 @@ void ef::prime_factors(const std::uint32_t n, std::deque<Util::point<std::uint32
         Primes::Factors(static_cast<std::uint32_t>(i), prime_factors_list[i]);
       }
     }
-  }
 
-  if(static_cast<std::size_t>(n) < prime_factors_list.size())
+    return prime_factors_list;
+  }();
+
+  if(static_cast<std::size_t>(n) < prime_factors_table.size())
   {
-    pf = prime_factors_list[static_cast<std::size_t>(n)];
+    pf = prime_factors_table[static_cast<std::size_t>(n)];
   }
   else
   {
diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index 2d1281e..4ace79b 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -124,14 +124,15 @@ namespace Zeta_Series
     std::map<std::uint32_t, T> n_pow_s_prime_factor_map;
 
     // Generate a list of the first 300 prime numbers.
-    static std::deque<std::uint32_t> prime_data;
-
-    if(prime_data.empty())
+    // The initialization takes place once only, even if several threads use the list.
+    static const std::vector<std::uint32_t> primes = []() -> std::vector<std::uint32_t>
     {
-      prime(static_cast<std::uint32_t>(300U), prime_data);
-    }
+      std::deque<std::uint32_t> prime_data;
+
+      ef::prime(static_cast<std::uint32_t>(300U), prime_data);
 
-    static const std::vector<std::uint32_t> primes(prime_data.cbegin(), prime_data.cend());
+      return std::vector<std::uint32_t>(prime_data.cbegin(), prime_data.cend());
+    }();
 
     using std::log10;
 
diff --git a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
index 9f24def..83fd09f 100644
--- a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
+++ b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
@@ -36,13 +36,10 @@
 
     template<typename T> const T& pi()
     {
-      static bool is_init = false;
-
-      static T val;
-
-      if(!is_init)
+      // The initialization takes place once only, even if several threads request pi.
+      static const T val_pi = []() -> T
       {
-        is_init = true;
+        T val;
 
         // Compute pi using a quadratically convergent AGM method.
         // Caution: This is slow, in particular since the generic
@@ -89,22 +86,19 @@
 
         val += bB;
         val /= s;
-      }
+
+        return val;
+      }();
 
       // This is pi.
-      return val;
+      return val_pi;
     }
 
     template<typename T> const T& ln2()
     {
-      static bool is_init = false;
-
-      static T val;
-
-      if(!is_init)
+      // The initialization takes place once only, even if several threads request ln2.
+      static const T val_ln2 = []() -> T
       {
-        is_init = true;
-
         // ln2 = pi / [2m * AGM(1, 4 / 2^m)], where m is chosen such that m > n / 2
         // and n is the number of bits of precision required in the result.
         // Chose m > N / (2 * log10(2)), in other words m > N * 1.661,
@@ -142,11 +136,11 @@
         // Note that a = b = AGM(...).
 
         // Get pi, invert a and divide by 2m.
-        val = generic_functions::pi<T>() / (ak * static_cast<std::int32_t>(static_cast<std::int32_t>(2) * m));
-      }
+        return generic_functions::pi<T>() / (ak * static_cast<std::int32_t>(static_cast<std::int32_t>(2) * m));
+      }();
 
       // This is ln2.
-      return val;
+      return val_ln2;
     }
 
     template<typename T> const T& euler_gamma()
diff --git a/libs/e_float/src/utility/util_power_j_pow_x.cpp b/libs/e_float/src/utility/util_power_j_pow_x.cpp
index c77826b..da5943a 100644
--- a/libs/e_float/src/utility/util_power_j_pow_x.cpp
+++ b/libs/e_float/src/utility/util_power_j_pow_x.cpp
@@ -19,7 +19,8 @@ namespace Util
 {
   static e_float logn(const std::uint32_t n)
   {
-    static std::map<std::uint32_t, e_float> ln_data;
+    // The table is kept per thread, since it grows with each new argument.
+    static thread_local std::map<std::uint32_t, e_float> ln_data;
 
     const std::map<std::uint32_t, e_float>::const_iterator it = ln_data.find(n);
 
-- 
2.43.0


From 053502745bf7a462ac9cea415f4188f4f918be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 079/109] fix: integral values converted from built-in floating
 point types were not exact at low precision (native engine)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index b531522..7849359 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -178,13 +178,24 @@ void efx::e_float::from_long_double(const long double l)
 
   const native_float_parts<long double> ld_parts(my_ld);
 
-  // Create an e_float from the fractional part of the
-  // mantissa expressed as an unsigned long long.
-  from_unsigned_long_long(ld_parts.get_mantissa());
+  unsigned long long mantissa = ld_parts.get_mantissa();
 
   // Scale the unsigned long long representation to the fractional
   // part of the long double and multiply with the base-2 exponent.
-  const int p2 = ld_parts.get_exponent() - (std::numeric_limits<long double>::digits - 1);
+  int p2 = ld_parts.get_exponent() - (std::numeric_limits<long double>::digits - 1);
+
+  // Remove factors of two which are common to the mantissa and the scale. This keeps
+  // integral values exact, even if the precision can not represent the whole scale.
+  while((p2 < 0) && (mantissa != 0ULL) && ((mantissa % 2ULL) == 0ULL))
+  {
+    mantissa /= 2ULL;
+
+    ++p2;
+  }
+
+  // Create an e_float from the fractional part of the
+  // mantissa expressed as an unsigned long long.
+  from_unsigned_long_long(mantissa);
 
   if(p2 != 0)
   {
-- 
2.43.0


From 8769834f41940a06f4899083fa9dd45a0db63329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 080/109] fix: log lost digits at precisions for which the
 Newton iteration had no digits to spare (such as 200)

---
 .../src/functions/elementary/elementary_trans.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 5f28459..942b244 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -372,14 +372,17 @@ e_float ef::log(const e_float& x)
   e_float log_val   = ((!ef::iszero(dlog)) ? e_float(dlog / pow(10.0, static_cast<double>(static_cast<std::int32_t>(p10))), p10)
                       : x_minus_one);
 
-  // Newton-Raphson iteration
-  static const std::int32_t double_digits10_minus_one = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(1));
+  // Newton-Raphson iteration. The logarithm can be as large as a few thousand here.
+  // Up to four digits of the double-precision estimate are thus lost in absolute terms.
+  static const std::int32_t double_digits10_minus_four = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(4));
 
-  for(std::int32_t digits = double_digits10_minus_one; digits <= static_cast<std::int32_t>(ef::tolerance()); digits *= static_cast<std::int32_t>(2))
+  for(std::int32_t digits = double_digits10_minus_four; digits <= static_cast<std::int32_t>(ef::tolerance()); digits *= static_cast<std::int32_t>(2))
   {
-    // Adjust precision of the terms.
-    log_val.precision(static_cast<std::int32_t>(digits * static_cast<std::int32_t>(2)));
-         xx.precision(static_cast<std::int32_t>(digits * static_cast<std::int32_t>(2)));
+    // Adjust precision of the terms. Include a few guard digits.
+    const std::int32_t new_prec = static_cast<std::int32_t>(static_cast<std::int32_t>(digits * 2) + 16);
+
+    log_val.precision(new_prec);
+         xx.precision(new_prec);
 
     const e_float exp_minus_log = ef::exp(-log_val);
 
-- 
2.43.0


From 81c48e90081446891d92326af97e98cf394fe7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 081/109] fix: atanh of small arguments lost digits at high
 precision

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 942b244..7a2acca 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -787,8 +787,10 @@ e_float ef::atanh(const e_float& x)
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
-  const e_float value = (ef::small_arg(x) ?  ef::log1p1m2(x)
-                                          : (ef::log((ef::one() + x) / (ef::one() - x)) / static_cast<std::int32_t>(2)));
+  // Use the series also for arguments which are moderately small, since
+  // the logarithm would lose the digits in which these differ from one.
+  const e_float value = ((xx < ef::tenth()) ?  ef::log1p1m2(x)
+                                            : (ef::log((ef::one() + x) / (ef::one() - x)) / static_cast<std::int32_t>(2)));
 
   return ((!ef::isneg(xx)) ? value : -value);
 }
-- 
2.43.0


From f5446a3ed195e56803e3dd2e57ff2c09c2b66ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 082/109] fix: pow of numbers between 0.1 and 0.9 gave NaN or
 wrong digits at high precision since the series did not converge

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 7a2acca..02e226d 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -524,7 +524,10 @@ e_float ef::pow(const e_float& x, const e_float& a)
 
   static const e_float nine_tenths = ef::nine() / static_cast<std::int32_t>(10);
 
-  if(ef::ispos(x) && (x > ef::tenth()) && (x < nine_tenths))
+  // The series needs about 22 terms per decimal digit if x is close to one tenth.
+  const bool b_series_converges = ((ef::tolerance() * INT64_C(22)) < static_cast<std::int64_t>(ef::max_iteration()));
+
+  if(b_series_converges && ef::ispos(x) && (x > ef::tenth()) && (x < nine_tenths))
   {
     if(ef::small_arg(a))
     {
-- 
2.43.0


From c03e99973a4d341c051ff034e78de68861256b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 083/109] fix: roots of numbers with large exponents lost
 digits at high precision (GMP engine)

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 02e226d..f4be6b2 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -66,13 +66,15 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
 
   // The error of each iteration is proportional to p. So begin with fewer digits
   // and use more guard digits for large p.
+  // The mantissa of a number with a large exponent can have fewer valid digits.
   const std::int32_t digits_of_p    = static_cast<std::int32_t>(::log10(static_cast<double>(p)));
-  const std::int32_t digits_initial = static_cast<std::int32_t>(double_digits10_minus_a_few - digits_of_p);
+  const std::int32_t digits_of_ne   = static_cast<std::int32_t>(::log10(::fabs(static_cast<double>(ne)) + 1.0));
+  const std::int32_t digits_initial = static_cast<std::int32_t>(double_digits10_minus_a_few - (std::max)(digits_of_p, digits_of_ne));
 
   for(std::int32_t digits = digits_initial; digits <= static_cast<std::int32_t>(ef::tolerance()); digits *= static_cast<std::int32_t>(2))
   {
     // Adjust precision of the terms.
-    const std::int32_t new_prec = static_cast<std::int32_t>(static_cast<std::int32_t>(digits + digits_of_p) * 2) + 10;
+    const std::int32_t new_prec = static_cast<std::int32_t>(static_cast<std::int32_t>(digits + digits_of_p) * 2) + 24;
 
     result.precision(new_prec);
 
-- 
2.43.0


From 2f4ac9133797ccbaf3de22c4b988bdfd0101c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 084/109] fix: gamma of small arguments lost digits at high
 precision

---
 libs/e_float/src/functions/gamma/gamma.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 76da57e..208852c 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -120,7 +120,9 @@ namespace GammaTemplate
 
     // Make a local, unsigned copy of the input argument.
 
-    T xx((!b_neg) ? x : -x);
+    const T xa((!b_neg) ? x : -x);
+
+    T xx(xa);
 
     T G;
 
@@ -173,17 +175,20 @@ namespace GammaTemplate
 
       G = exp(((((xx - half()) * log(xx)) - xx) + half_ln_two_pi) + sum);
 
-      // Rescale the result using downward recursion if necessary.
+      // Rescale the result using recursion if necessary. Start from the original
+      // argument, since small arguments have lost digits in the scaled argument.
+      xx = xa;
+
       for(std::int32_t k = static_cast<std::int32_t>(0); k < n_recur; k++)
       {
-        xx -= TR(1U);
-
         G /= xx;
+
+        xx += TR(1U);
       }
     }
 
     // Return the result, accounting for possible negative arguments.
-    return ((!b_neg) ? G : -pi() / ((xx * G) * sin(pi() * xx)));
+    return ((!b_neg) ? G : -pi() / ((xa * G) * sin(pi() * xa)));
   }
 
   template<typename T,
-- 
2.43.0


From 898bca5ad7e447e514233fb743a8090a46d191c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 085/109] fix: fmod of the Boost.Multiprecision binding was |y|
 (not zero) for multiples with unlike signs

---
 libs/math/include/boost/math/bindings/e_float.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index b13adfa..b1e026d 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -532,14 +532,7 @@
       //   |fractional_part| < |y|,
       // and fractional_part has the same sign as x.
 
-      const ::e_float integer_part = ::ef::floor(x.crepresentation() / y.crepresentation());
-
-      result.representation() = x.crepresentation() - (integer_part * y.crepresentation());
-
-      if(x.crepresentation().isneg() != y.crepresentation().isneg())
-      {
-        result.representation() -= y.crepresentation();
-      }
+      result.representation() = ::ef::fmod(x.crepresentation(), y.crepresentation());
     }
   }
 
-- 
2.43.0


From 046c6b96e17214d0a366efcbac840463591ea1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 086/109] fix: numeric_limits::lowest() of the
 Boost.Multiprecision binding was zero

---
 libs/math/include/boost/math/bindings/e_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index b1e026d..ae1043b 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -614,7 +614,7 @@
 
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> (min)        () { return boost::math::ef::e_float(ef::value_min()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> (max)        () { return boost::math::ef::e_float(ef::value_max()); }
-      static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> lowest       () { return boost::math::ef::e_float(ef::zero()); }
+      static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> lowest       () { return boost::math::ef::e_float(-ef::value_max()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> epsilon      () { return boost::math::ef::e_float(ef::value_eps()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> round_error  () { return boost::math::ef::e_float(ef::half()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> infinity     () { return boost::math::ef::e_float(ef::value_inf()); }
-- 
2.43.0


From 99710eb7f66eaa54255b9d719052568e442899ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 087/109] fix: str() of the Boost.Multiprecision binding gave 6
 digits instead of all digits

---
 libs/math/include/boost/math/bindings/e_float.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index ae1043b..95f1a04 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -148,7 +148,8 @@
 
       my_stream_str.flags(format_flags);
 
-      static_cast<void>(my_stream_str.precision(number_of_digits));
+      // A count of zero digits requests all digits.
+      static_cast<void>(my_stream_str.precision((number_of_digits > std::streamsize(0)) ? number_of_digits : std::streamsize(std::numeric_limits<::e_float>::max_digits10)));
 
       m_value.wr_string(my_result_str, my_stream_str);
 
-- 
2.43.0


From 07d7bf289a33a1029bfb39fb5f31a699b96ed5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 088/109] fix: comparison of the Boost.Multiprecision backend
 with built-in numbers did not compile

---
 libs/math/include/boost/math/bindings/e_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index 95f1a04..3054ce7 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -168,7 +168,7 @@
 
     template<typename ArithmeticType,
              typename std::enable_if<std::is_arithmetic<ArithmeticType>::value>::type const* = nullptr>
-    int compare(ArithmeticType x)
+    int compare(ArithmeticType x) const
     {
       return static_cast<int>(m_value.compare(::e_float(x)));
     }
-- 
2.43.0


From 8c8762252922646e530d5ed5aae6d9eabfc34017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 089/109] fix: ldexp of the Boost.Multiprecision binding
 truncated 64-bit exponents to int

---
 .../include/boost/math/bindings/e_float.hpp   | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index 3054ce7..117875b 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -334,7 +334,28 @@
   {
     using local_exponent_type = int;
 
-    result.representation() = ::ef::ldexp(x.crepresentation(), local_exponent_type(exp_value));
+    // The exponent might exceed the range of the local exponent type.
+    constexpr typename e_float::exponent_type max_step = (std::numeric_limits<local_exponent_type>::max)();
+
+    ::e_float r(x.crepresentation());
+
+    typename e_float::exponent_type n = exp_value;
+
+    while(((n > max_step) || (n < -max_step)) && ::ef::isfinite(r) && (!::ef::iszero(r)))
+    {
+      const typename e_float::exponent_type step = ((n > 0) ? max_step : -max_step);
+
+      r = ::ef::ldexp(r, local_exponent_type(step));
+
+      n -= step;
+    }
+
+    if((n <= max_step) && (n >= -max_step))
+    {
+      r = ::ef::ldexp(r, local_exponent_type(n));
+    }
+
+    result.representation() = r;
   }
 
   inline void eval_ldexp(      e_float& result,
-- 
2.43.0


From aa6551b916a80a2962113fdb05aafc645c036b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 090/109] fix: the bisection root finder could neither be
 derived from nor instantiated

---
 libs/e_float/src/utility/util_find_root_bisect.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/utility/util_find_root_bisect.h b/libs/e_float/src/utility/util_find_root_bisect.h
index 1bb0ec3..80af010 100644
--- a/libs/e_float/src/utility/util_find_root_bisect.h
+++ b/libs/e_float/src/utility/util_find_root_bisect.h
@@ -16,7 +16,7 @@
   namespace Util
   {
     template<typename T>
-    class FindRootBisect final : public FindRootBase<T>
+    class FindRootBisect : public FindRootBase<T>
     {
     public:
       virtual ~FindRootBisect() { }
@@ -38,12 +38,12 @@
         T lo = RangedFunctionOperation<T>::xlo;
         T hi = RangedFunctionOperation<T>::xhi;
 
-        const T f = function(lo);
+        const T f = Function<T>::function(lo);
 
         static const T t_zero = T(0);
 
         // Make sure that there is at least one root in the interval.
-        if(f * function(RangedFunctionOperation<T>::xhi) >= t_zero)
+        if(f * Function<T>::function(hi) >= t_zero)
         {
           return t_zero;
         }
@@ -69,7 +69,7 @@
           dx /= static_cast<std::int32_t>(2);
 
           const T x_mid = rt + dx;
-          const T f_mid = function(x_mid);
+          const T f_mid = Function<T>::function(x_mid);
 
           if(f_mid <= t_zero)
           {
@@ -79,7 +79,7 @@
           // Check for convergence to within a tolerance.
           const T dx_abs = ((dx < t_zero) ? -dx : dx);
 
-          if(dx_abs < RangedFunctionOperation<T>::eps || ef::iszero(f_mid))
+          if(dx_abs < RangedFunctionOperation<T>::eps || (f_mid == t_zero))
           {
             // Return root.
             return rt;
-- 
2.43.0


From b78e7452c8a86f1a31f9d7a3a8843f2efb6678ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 091/109] fix: bisection reported success for an interval
 without a change of sign, and missed roots at the ends

---
 libs/e_float/src/utility/util_find_root_bisect.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/utility/util_find_root_bisect.h b/libs/e_float/src/utility/util_find_root_bisect.h
index 80af010..20e465a 100644
--- a/libs/e_float/src/utility/util_find_root_bisect.h
+++ b/libs/e_float/src/utility/util_find_root_bisect.h
@@ -38,13 +38,20 @@
         T lo = RangedFunctionOperation<T>::xlo;
         T hi = RangedFunctionOperation<T>::xhi;
 
-        const T f = Function<T>::function(lo);
+        const T f    = Function<T>::function(lo);
+        const T f_hi = Function<T>::function(hi);
 
         static const T t_zero = T(0);
 
+        // Handle a root at one of the ends of the interval.
+        if(f    == t_zero) { return lo; }
+        if(f_hi == t_zero) { return hi; }
+
         // Make sure that there is at least one root in the interval.
-        if(f * Function<T>::function(hi) >= t_zero)
+        if((f < t_zero) == (f_hi < t_zero))
         {
+          FunctionOperation<T>::op_ok = false;
+
           return t_zero;
         }
 
-- 
2.43.0


From 48e48ffc4c2437b2f44067c692152725c30bbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 092/109] fix: the numerical derivative could neither be
 derived from nor instantiated

---
 libs/e_float/src/utility/util_function_derivative.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/utility/util_function_derivative.h b/libs/e_float/src/utility/util_function_derivative.h
index 5e355c6..447eacb 100644
--- a/libs/e_float/src/utility/util_function_derivative.h
+++ b/libs/e_float/src/utility/util_function_derivative.h
@@ -21,7 +21,7 @@
   namespace Util
   {
     template<typename T>
-    class FunctionDerivative final : public FunctionOperation<T>
+    class FunctionDerivative : public FunctionOperation<T>
     {
     public:
       virtual ~FunctionDerivative() { }
@@ -42,9 +42,9 @@
         const T dx2 = dx1 * static_cast<std::int32_t>(2);
         const T dx3 = dx1 * static_cast<std::int32_t>(3);
 
-        const T m1 = (function(my_x + dx1) - function(my_x - dx1)) / static_cast<std::int32_t>(2);
-        const T m2 = (function(my_x + dx2) - function(my_x - dx2)) / static_cast<std::int32_t>(4);
-        const T m3 = (function(my_x + dx3) - function(my_x - dx3)) / static_cast<std::int32_t>(6);
+        const T m1 = (Function<T>::function(my_x + dx1) - Function<T>::function(my_x - dx1)) / static_cast<std::int32_t>(2);
+        const T m2 = (Function<T>::function(my_x + dx2) - Function<T>::function(my_x - dx2)) / static_cast<std::int32_t>(4);
+        const T m3 = (Function<T>::function(my_x + dx3) - Function<T>::function(my_x - dx3)) / static_cast<std::int32_t>(6);
 
         const T fifteen_m1 = static_cast<std::int32_t>(15) * m1;
         const T six_m2     = static_cast<std::int32_t>( 6) * m2;
-- 
2.43.0


From 9639371c8babcc305f4daa4e597fe08e9a6d92de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 093/109] fix: the Newton-Raphson root finder reported success
 without convergence

---
 libs/e_float/src/utility/util_find_root_newton_raphson.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/utility/util_find_root_newton_raphson.h b/libs/e_float/src/utility/util_find_root_newton_raphson.h
index c0e8b54..3ec65dc 100644
--- a/libs/e_float/src/utility/util_find_root_newton_raphson.h
+++ b/libs/e_float/src/utility/util_find_root_newton_raphson.h
@@ -38,7 +38,7 @@
 
       virtual T my_operation() const
       {
-        FunctionOperation<T>::op_ok = true;
+        FunctionOperation<T>::op_ok = false;
 
         T x = (FindRootBase<T>::xlo + FindRootBase<T>::xhi) / static_cast<std::int32_t>(2);
 
@@ -53,7 +53,6 @@
 
           if((FindRootBase<T>::xlo - x) * (x - FindRootBase<T>::xhi) < ef::zero())
           {
-            FunctionOperation<T>::op_ok = false;
             break;
           }
 
@@ -61,6 +60,7 @@
           
           if(delta < FindRootBase<T>::eps)
           {
+            FunctionOperation<T>::op_ok = true;
             break;
           }
         }
-- 
2.43.0


From 378d3c3c1912c235cabd2ebb2a70d1beaf85a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 094/109] fix: the recursive trapezoid rule did not terminate
 for integrals of zero, and kept the success of an earlier operation

---
 libs/e_float/src/utility/util_trapezoid.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/utility/util_trapezoid.h b/libs/e_float/src/utility/util_trapezoid.h
index 65c3461..b9896cb 100644
--- a/libs/e_float/src/utility/util_trapezoid.h
+++ b/libs/e_float/src/utility/util_trapezoid.h
@@ -38,6 +38,8 @@
     private:
       virtual T my_operation() const
       {
+        FunctionOperation<T>::op_ok = false;
+
         std::int32_t n = static_cast<std::int32_t>(1);
 
         T a = RangedFunctionOperation<T>::xlo;
@@ -64,7 +66,8 @@
 
           I = (I0 * half) + (h * sum);
 
-          const T ratio = I0 / I;
+          // Do not form the ratio of integrals which agree exactly, as these might be zero.
+          const T ratio = ((I0 == I) ? one : T(I0 / I));
           const T delta = ((ratio > one) ? (ratio - one) : (one - ratio));
 
           if((k > static_cast<std::int32_t>(3)) && (delta < RangedFunctionOperation<T>::eps))
-- 
2.43.0


From 103bc4d34d3628f22ffc8d9a4c1364edbd87e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 095/109] fix: numeric_cast to float dropped the fraction

---
 libs/e_float/src/utility/util_numeric_cast.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index e4e7443..bf082a7 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -20,8 +20,9 @@
       constexpr bool numeric_cast_is_signed = std::numeric_limits<T>::is_signed;
 
       constexpr bool numeric_cast_is_small_type =
-        (   (  numeric_cast_is_signed  && (std::numeric_limits<T>::digits <= 31))
-         || ((!numeric_cast_is_signed) && (std::numeric_limits<T>::digits <= 32)));
+        std::numeric_limits<T>::is_integer
+        && (   (  numeric_cast_is_signed  && (std::numeric_limits<T>::digits <= 31))
+            || ((!numeric_cast_is_signed) && (std::numeric_limits<T>::digits <= 32)));
 
       using value_type = typename std::conditional<numeric_cast_is_small_type,
                                                    typename std::conditional<numeric_cast_is_signed,
-- 
2.43.0


From 4fa4458206ce8df1fa48767529868e5859c93c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 096/109] fix: generic rootn of built-in numbers was the power
 instead of the root, and generic sqrt, log and rootn of long double used
 double

---
 .../elementary/generic_functions_elementary.h          | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index 9313522..cf36814 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -40,17 +40,17 @@
 
     template<> float       sqrt<float>      (const float& x)       { return ::sqrtf(x); }
     template<> double      sqrt<double>     (const double& x)      { return ::sqrt(x); }
-    template<> long double sqrt<long double>(const long double& x) { return ::sqrt(x); }
+    template<> long double sqrt<long double>(const long double& x) { return ::sqrtl(x); }
     template<> e_float     sqrt<e_float>    (const e_float& x)     { return ef::sqrt(x); }
 
-    template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, static_cast<float>(p)); }
-    template<> double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, static_cast<double>(p)); }
-    template<> long double rootn<long double>(const long double& x, const std::int32_t p) { return ::pow(x, static_cast<long double>(p)); }
+    template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, 1.0F / static_cast<float>(p)); }
+    template<> double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, 1.0 / static_cast<double>(p)); }
+    template<> long double rootn<long double>(const long double& x, const std::int32_t p) { return ::powl(x, 1.0L / static_cast<long double>(p)); }
     template<> e_float     rootn<e_float>    (const e_float& x,     const std::int32_t p) { return ef::rootn(x, p); }
 
     template<> float       log<float>      (const float& x)       { return ::logf(x); }
     template<> double      log<double>     (const double& x)      { return ::log(x); }
-    template<> long double log<long double>(const long double& x) { return ::log(x); }
+    template<> long double log<long double>(const long double& x) { return ::logl(x); }
     template<> e_float     log<e_float>    (const e_float& x)     { return ef::log(x); }
 
     template<typename T>
-- 
2.43.0


From 33ccaeb665045821b4a8ff1613c7463fbfc49579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 097/109] fix: the headers of the generic functions could not
 be used in more than one translation unit, nor on their own

---
 .../constants/generic_functions_constants.h   | 25 ++++++++--------
 .../elementary/generic_functions_elementary.h | 29 +++++++++++--------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
index 83fd09f..9d6f737 100644
--- a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
+++ b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
@@ -12,6 +12,7 @@
   #define GENERIC_FUNCTIONS_CONSTANTS_2011_06_18_H_
 
   #include <e_float/e_float_functions.h>
+  #include <generic_functions/elementary/generic_functions_elementary.h>
 
   namespace generic_functions
   {
@@ -19,20 +20,20 @@
     template<typename T> const T& ln2        ();
     template<typename T> const T& euler_gamma();
 
-    template<> const float&       pi<float>      () { static const float val(3.14159265359f); return val; }
-    template<> const double&      pi<double>     () { static const double val(3.1415926535897932384626433832795028841971693993751); return val; }
-    template<> const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751); return val; }
-    template<> const e_float&     pi<e_float>    () { return ef::pi(); }
+    template<> inline const float&       pi<float>      () { static const float val(3.14159265359f); return val; }
+    template<> inline const double&      pi<double>     () { static const double val(3.1415926535897932384626433832795028841971693993751); return val; }
+    template<> inline const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751); return val; }
+    template<> inline const e_float&     pi<e_float>    () { return ef::pi(); }
 
-    template<> const float&       ln2<float>      () { static const float val(0.693147180560f); return val; }
-    template<> const double&      ln2<double>     () { static const double val(0.69314718055994530941723212145817656807550013436026); return val; }
-    template<> const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026); return val; }
-    template<> const e_float&     ln2<e_float>    () { return ef::ln2(); }
+    template<> inline const float&       ln2<float>      () { static const float val(0.693147180560f); return val; }
+    template<> inline const double&      ln2<double>     () { static const double val(0.69314718055994530941723212145817656807550013436026); return val; }
+    template<> inline const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026); return val; }
+    template<> inline const e_float&     ln2<e_float>    () { return ef::ln2(); }
 
-    template<> const float&       euler_gamma<float>      () { static const float val(0.577215664902f); return val; }
-    template<> const double&      euler_gamma<double>     () { static const double val(0.57721566490153286060651209008240243104215933593992); return val; }
-    template<> const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992); return val; }
-    template<> const e_float&     euler_gamma<e_float>    () { return ef::euler_gamma(); }
+    template<> inline const float&       euler_gamma<float>      () { static const float val(0.577215664902f); return val; }
+    template<> inline const double&      euler_gamma<double>     () { static const double val(0.57721566490153286060651209008240243104215933593992); return val; }
+    template<> inline const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992); return val; }
+    template<> inline const e_float&     euler_gamma<e_float>    () { return ef::euler_gamma(); }
 
     template<typename T> const T& pi()
     {
diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index cf36814..accbf8f 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -12,7 +12,12 @@
   #define GENERIC_FUNCTIONS_ELEMENTARY_2011_06_18_H_
 
   #include <cmath>
+  #include <cstdint>
+  #include <iomanip>
+  #include <limits>
   #include <regex>
+  #include <sstream>
+  #include <string>
 
   #include <e_float/e_float_functions.h>
 
@@ -38,20 +43,20 @@
     template<typename T> bool isone    (const T& x) { return  generic_functions::iszero<T>(1 - x); }
     template<typename T> bool isfinite (const T& x) { static_cast<void>(x); return true; } // TBD: Devise a sensible test for isfinite.
 
-    template<> float       sqrt<float>      (const float& x)       { return ::sqrtf(x); }
-    template<> double      sqrt<double>     (const double& x)      { return ::sqrt(x); }
-    template<> long double sqrt<long double>(const long double& x) { return ::sqrtl(x); }
-    template<> e_float     sqrt<e_float>    (const e_float& x)     { return ef::sqrt(x); }
+    template<> inline float       sqrt<float>      (const float& x)       { return ::sqrtf(x); }
+    template<> inline double      sqrt<double>     (const double& x)      { return ::sqrt(x); }
+    template<> inline long double sqrt<long double>(const long double& x) { return ::sqrtl(x); }
+    template<> inline e_float     sqrt<e_float>    (const e_float& x)     { return ef::sqrt(x); }
 
-    template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, 1.0F / static_cast<float>(p)); }
-    template<> double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, 1.0 / static_cast<double>(p)); }
-    template<> long double rootn<long double>(const long double& x, const std::int32_t p) { return ::powl(x, 1.0L / static_cast<long double>(p)); }
-    template<> e_float     rootn<e_float>    (const e_float& x,     const std::int32_t p) { return ef::rootn(x, p); }
+    template<> inline float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, 1.0F / static_cast<float>(p)); }
+    template<> inline double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, 1.0 / static_cast<double>(p)); }
+    template<> inline long double rootn<long double>(const long double& x, const std::int32_t p) { return ::powl(x, 1.0L / static_cast<long double>(p)); }
+    template<> inline e_float     rootn<e_float>    (const e_float& x,     const std::int32_t p) { return ef::rootn(x, p); }
 
-    template<> float       log<float>      (const float& x)       { return ::logf(x); }
-    template<> double      log<double>     (const double& x)      { return ::log(x); }
-    template<> long double log<long double>(const long double& x) { return ::logl(x); }
-    template<> e_float     log<e_float>    (const e_float& x)     { return ef::log(x); }
+    template<> inline float       log<float>      (const float& x)       { return ::logf(x); }
+    template<> inline double      log<double>     (const double& x)      { return ::log(x); }
+    template<> inline long double log<long double>(const long double& x) { return ::logl(x); }
+    template<> inline e_float     log<e_float>    (const e_float& x)     { return ef::log(x); }
 
     template<typename T>
     double frexp10(const T& x, std::int64_t* ptrexp10)
-- 
2.43.0


From c882206420c0cfd45fa4bdb3564d4a7dfdc764c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 098/109] fix: generic constants of type long double had the
 precision of double

---
 .../constants/generic_functions_constants.h                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
index 9d6f737..587c60e 100644
--- a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
+++ b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
@@ -22,17 +22,17 @@
 
     template<> inline const float&       pi<float>      () { static const float val(3.14159265359f); return val; }
     template<> inline const double&      pi<double>     () { static const double val(3.1415926535897932384626433832795028841971693993751); return val; }
-    template<> inline const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751); return val; }
+    template<> inline const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751L); return val; }
     template<> inline const e_float&     pi<e_float>    () { return ef::pi(); }
 
     template<> inline const float&       ln2<float>      () { static const float val(0.693147180560f); return val; }
     template<> inline const double&      ln2<double>     () { static const double val(0.69314718055994530941723212145817656807550013436026); return val; }
-    template<> inline const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026); return val; }
+    template<> inline const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026L); return val; }
     template<> inline const e_float&     ln2<e_float>    () { return ef::ln2(); }
 
     template<> inline const float&       euler_gamma<float>      () { static const float val(0.577215664902f); return val; }
     template<> inline const double&      euler_gamma<double>     () { static const double val(0.57721566490153286060651209008240243104215933593992); return val; }
-    template<> inline const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992); return val; }
+    template<> inline const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992L); return val; }
     template<> inline const e_float&     euler_gamma<e_float>    () { return ef::euler_gamma(); }
 
     template<typename T> const T& pi()
-- 
2.43.0


From c0109dd75236a768f59e2afaf6742553ba2b422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 099/109] fix: generic rootn of zero was not a number, of
 negative numbers did not compile for other types, and frexp10 of zero left
 the exponent undefined

---
 .../elementary/generic_functions_elementary.h          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index accbf8f..3b6e7e7 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -84,7 +84,9 @@
 
       if(!b_match)
       {
-        return false;
+        *ptrexp10 = static_cast<std::int64_t>(0);
+
+        return 0.0;
         // TBD: This is an impossible error condition.
         // TBD: Should we throw something?
       }
@@ -220,7 +222,7 @@
     {
       if(!generic_functions::isfinite<T>(x))
       {
-        return std::numeric_limits<e_float>::quiet_NaN();
+        return std::numeric_limits<T>::quiet_NaN();
       }
 
       if(p < static_cast<std::int32_t>(0))
@@ -230,9 +232,9 @@
 
       if((p == static_cast<std::int32_t>(0)) || generic_functions::isneg(x))
       {
-        return std::numeric_limits<e_float>::quiet_NaN();
+        return std::numeric_limits<T>::quiet_NaN();
       }
-      else if(p == static_cast<std::int32_t>(1))
+      else if((p == static_cast<std::int32_t>(1)) || generic_functions::iszero<T>(x))
       {
         return x;
       }
-- 
2.43.0


From 5e2b69c98d3dcccae992f45d7db30902c9666db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 100/109] fix: the function utilities (root finders,
 derivative, trapezoid rule) did not compile

---
 libs/e_float/src/utility/util_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/utility/util_function.h b/libs/e_float/src/utility/util_function.h
index 879c237..12245b1 100644
--- a/libs/e_float/src/utility/util_function.h
+++ b/libs/e_float/src/utility/util_function.h
@@ -16,7 +16,7 @@
   namespace Util
   {
     template<typename T>
-    class Function : private noncopyable
+    class Function : private util::noncopyable
     {
     public:
       virtual ~Function() { }
-- 
2.43.0


From cc650e93ee73fe0795a2675afbe5f078671f1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 101/109] fix: keep the trigonometric factors of the FFT
 multiplication in long double; products of some million digits were wrong

---
 .../src/e_float/detail/e_float_detail_fft.h   | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/libs/e_float/src/e_float/detail/e_float_detail_fft.h b/libs/e_float/src/e_float/detail/e_float_detail_fft.h
index b8f6c91..f5cc779 100644
--- a/libs/e_float/src/e_float/detail/e_float_detail_fft.h
+++ b/libs/e_float/src/e_float/detail/e_float_detail_fft.h
@@ -128,12 +128,17 @@
       danielson_lanczos<N / 2U, is_forward_fft, float_type>::apply(data);
       danielson_lanczos<N / 2U, is_forward_fft, float_type>::apply(data + N);
 
-      float_type real_part = float_type(1.0L);
-      float_type imag_part = float_type(0.0L);
+      // Use the widest type for the recurrence of the trigonometric factors, since
+      // its error grows with the length of the transform.
+      long double real_recur = 1.0L;
+      long double imag_recur = 0.0L;
 
       for(std::uint32_t i = static_cast<std::uint32_t>(0U); i < N; i += 2U)
       {
-              float_type tmp_real = (real_part * data[i + (N + 0U)]) - (imag_part * data[i + (N + 1U)]);
+        const float_type real_part = static_cast<float_type>(real_recur);
+        const float_type imag_part = static_cast<float_type>(imag_recur);
+
+        const float_type tmp_real = (real_part * data[i + (N + 0U)]) - (imag_part * data[i + (N + 1U)]);
         const float_type tmp_imag = (real_part * data[i + (N + 1U)]) + (imag_part * data[i + (N + 0U)]);
 
         data[i + (N + 0U)] = data[i + 0U] - tmp_real;
@@ -142,10 +147,10 @@
         data[i + 0U] += tmp_real;
         data[i + 1U] += tmp_imag;
 
-        tmp_real = real_part;
+        const long double tmp_recur = real_recur;
 
-        real_part += (((tmp_real  * const_unique_wp_real<N, is_forward_fft, float_type>()) - (imag_part * const_unique_wp_imag<N, is_forward_fft, float_type>())));
-        imag_part += (((imag_part * const_unique_wp_real<N, is_forward_fft, float_type>()) + (tmp_real  * const_unique_wp_imag<N, is_forward_fft, float_type>())));
+        real_recur += (((tmp_recur  * const_unique_wp_real<N, is_forward_fft, long double>()) - (imag_recur * const_unique_wp_imag<N, is_forward_fft, long double>())));
+        imag_recur += (((imag_recur * const_unique_wp_real<N, is_forward_fft, long double>()) + (tmp_recur  * const_unique_wp_imag<N, is_forward_fft, long double>())));
       }
     }
   };
@@ -253,8 +258,8 @@
         fft_lanczos<N / 2U, true, float_type>::fft(data);
       }
 
-      float_type real_part(float_type(1.0L) + const_unique_wp_real<N, is_forward_fft, float_type>());
-      float_type imag_part(const_unique_wp_imag<N, is_forward_fft, float_type>());
+      long double real_recur(1.0L + const_unique_wp_real<N, is_forward_fft, long double>());
+      long double imag_recur(const_unique_wp_imag<N, is_forward_fft, long double>());
 
       for(std::uint32_t i = static_cast<std::uint32_t>(1U); i < static_cast<std::uint32_t>(N >> 2U); ++i)
       {
@@ -264,6 +269,9 @@
         const std::uint32_t i2 = static_cast<std::uint32_t>(1U + i1);
         const std::uint32_t i4 = static_cast<std::uint32_t>(1U + i3);
 
+        const float_type real_part = static_cast<float_type>(real_recur);
+        const float_type imag_part = static_cast<float_type>(imag_recur);
+
         const float_type h1r = float_type(float_type(0.5L) * (data[i1] + data[i3]));
         const float_type h1i = float_type(float_type(0.5L) * (data[i2] - data[i4]));
 
@@ -275,10 +283,10 @@
         data[i3] = (+h1r - (real_part * h2r)) + (imag_part * h2i);
         data[i4] = (-h1i + (real_part * h2i)) + (imag_part * h2r);
 
-        const float_type tmp_real = real_part;
+        const long double tmp_recur = real_recur;
 
-        real_part += (((tmp_real  * const_unique_wp_real<N, is_forward_fft, float_type>()) - (imag_part * const_unique_wp_imag<N, is_forward_fft, float_type>())));
-        imag_part += (((imag_part * const_unique_wp_real<N, is_forward_fft, float_type>()) + (tmp_real  * const_unique_wp_imag<N, is_forward_fft, float_type>())));
+        real_recur += (((tmp_recur  * const_unique_wp_real<N, is_forward_fft, long double>()) - (imag_recur * const_unique_wp_imag<N, is_forward_fft, long double>())));
+        imag_recur += (((imag_recur * const_unique_wp_real<N, is_forward_fft, long double>()) + (tmp_recur  * const_unique_wp_imag<N, is_forward_fft, long double>())));
       }
 
       const float_type f0_tmp = data[0U];
-- 
2.43.0


From 6635a82f736997db597ffffd8d82df7ee593bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 102/109] fix: the generic pown did not return for the smallest
 integer power

---
 .../elementary/generic_functions_elementary.h               | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index 3b6e7e7..84d3702 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -112,6 +112,12 @@
       // Compute the pure power of typename T t^p. Binary splitting of the power is
       // used. The resulting computational complexity has the order of log2[abs(p)].
 
+      if(p == (std::numeric_limits<std::int64_t>::min)())
+      {
+        // The negative of the smallest integer can not be represented.
+        return T(1U) / (pown(t, -(p + 1)) * t);
+      }
+
       if(p < static_cast<std::int64_t>(0))
       {
         return T(1U) / pown(t, -p);
-- 
2.43.0


From 1c27735201b79d822f61241cef985389bfd0264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 103/109] fix: the generic complex integer power did not return
 for the smallest integer

---
 libs/e_float/src/e_float/e_float_complex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index de1d7ff..7e9f7d4 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1267,7 +1267,8 @@
 
     template<typename T> complex<T> pow(const complex<T>& c__my_z, int c__my_pn)
     {
-      if     (c__my_pn <  0) { return  T(1U) / pow(c__my_z, -c__my_pn); }
+      if     (c__my_pn == (std::numeric_limits<int>::min)()) { return  T(1U) / (pow(c__my_z, -(c__my_pn + 1)) * c__my_z); }
+      else if(c__my_pn <  0) { return  T(1U) / pow(c__my_z, -c__my_pn); }
       else if(c__my_pn == 0) { return  complex<T>(T(1U)); }
       else if(c__my_pn == 1) { return  c__my_z; }
       else if(c__my_pn == 2) { return  c__my_z * c__my_z; }
-- 
2.43.0


From e15870da29125fb4af3d09b3cb2afad2f431bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 104/109] fix: the text conversions inside the library depended
 on the global C++ locale; with digit grouping every number came out wrong

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp           |  6 ++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp           | 10 ++++++++++
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp         |  6 ++++++
 .../elementary/generic_functions_elementary.h          |  6 ++++++
 libs/e_float/src/utility/util_lexical_cast.h           |  2 ++
 libs/e_float/src/utility/util_numeric_cast.h           |  2 ++
 6 files changed, 32 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 7849359..1685886 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1520,6 +1520,8 @@ double efx::e_float::extract_double() const
 
   std::stringstream ss;
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
@@ -1566,6 +1568,8 @@ long double efx::e_float::extract_long_double() const
 
   std::stringstream ss;
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
@@ -1826,6 +1830,8 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   {
     std::stringstream ss;
 
+    ss.imbue(std::locale::classic());
+
     ss << std::setw(static_cast<std::streamsize>(ef_elem_digits10))
        << std::setfill(static_cast<char>('0'))
        << my_data[(typename array_type::size_type) i];
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index a39df5c..4b0ff9d 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -119,6 +119,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.imbue(std::locale::classic());
+
     strm << *it;
 
     ++it;
@@ -134,6 +136,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     {
       std::stringstream strm;
 
+      strm.imbue(std::locale::classic());
+
       strm << std::setw(8) << std::setfill('0') << *it;
 
       str += strm.str();
@@ -144,6 +148,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.imbue(std::locale::classic());
+
     strm << e;
 
     str += "e" + strm.str();
@@ -745,6 +751,8 @@ double gmp::e_float::extract_double() const
   // The function mpf_get_d() truncates. Use a string for a rounded conversion.
   std::stringstream ss;
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
@@ -792,6 +800,8 @@ long double gmp::e_float::extract_long_double() const
 
   std::stringstream ss;
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index eb1918e..40eb356 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -77,6 +77,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.imbue(std::locale::classic());
+
     strm << *it;
 
     ++it;
@@ -92,6 +94,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     {
       std::stringstream strm;
 
+      strm.imbue(std::locale::classic());
+
       strm << std::setw(8) << std::setfill('0') << *it;
 
       str += strm.str();
@@ -102,6 +106,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.imbue(std::locale::classic());
+
     strm << e;
 
     str += "e" + strm.str();
diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index 84d3702..d55ad5f 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -65,6 +65,8 @@
       // Caution: This is slow. It is generic, but has poor performance.
       // Comment: Any dedicated effort to standardize MP would specify a fast kind of frexp.
       std::stringstream ss;
+
+      ss.imbue(std::locale::classic());
       ss << std::scientific
          << std::showpos
          << std::uppercase
@@ -191,6 +193,8 @@
 
       std::stringstream ss;
 
+      ss.imbue(std::locale::classic());
+
       // Estimate the square root.
       ss << std::setprecision(std::numeric_limits<double>::digits10 + 1)
          << sqd
@@ -271,6 +275,8 @@
 
       // Estimate the square root.
       std::stringstream ss;
+
+      ss.imbue(std::locale::classic());
       ss << std::setprecision(std::numeric_limits<double>::digits10 + 1)
          << one_over_rtn_d
          << 'E'
diff --git a/libs/e_float/src/utility/util_lexical_cast.h b/libs/e_float/src/utility/util_lexical_cast.h
index 6365266..6317f85 100644
--- a/libs/e_float/src/utility/util_lexical_cast.h
+++ b/libs/e_float/src/utility/util_lexical_cast.h
@@ -20,6 +20,8 @@
     {
       std::stringstream ss;
 
+      ss.imbue(std::locale::classic());
+
       ss << t;
 
       return ss.str();
diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index bf082a7..3e00520 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -34,6 +34,8 @@
 
       std::stringstream strm;
 
+      strm.imbue(std::locale::classic());
+
       strm << str;
 
       value_type t;
-- 
2.43.0


From 50426cf08c85624b58593428993bd4df934cc166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 105/109] fix: the GMP engine read and wrote wrong numbers, and
 the MPFR engine wrote them, if the C locale has a decimal comma

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 35 ++++++++++++++-----
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 16 ++++-----
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 4b0ff9d..baaedb3 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -1036,14 +1036,14 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-  // Erase the decimal point.
-  const std::size_t pos_decimal_point = str.rfind(static_cast<char>('.'));
-
-  if(pos_decimal_point != std::string::npos)
-  {
-    str.erase(str.cbegin() + (std::string::difference_type)  pos_decimal_point,
-              str.cbegin() + (std::string::difference_type) (pos_decimal_point + 1U));
-  }
+  // Erase the decimal point (which depends on the C locale).
+  str.erase(std::remove_if(str.begin(),
+                           str.end(),
+                           [](const char c) -> bool
+                           {
+                             return ((c < static_cast<char>('0')) || (c > static_cast<char>('9')));
+                           }),
+            str.end());
 
   // Round the digits to the desired number of digits.
   const std::size_t n_digits = (std::max)(number_of_digits, static_cast<std::size_t>(1U));
@@ -1177,6 +1177,25 @@ bool gmp::e_float::rd_string(const char* const s)
     str += str_exp;
   }
 
+  // Remove the decimal point and correct the exponent accordingly,
+  // since mpf_set_str() expects the decimal point of the C locale.
+  const std::size_t pos_point = str.find(static_cast<char>('.'));
+
+  if(pos_point != std::string::npos)
+  {
+    const std::size_t pos_exp = (std::min)(str.find_first_of("eE"), str.length());
+
+    std::int64_t exp10 = ((pos_exp < str.length()) ? Util::numeric_cast<std::int64_t>(str.substr(pos_exp + 1U))
+                                                   : static_cast<std::int64_t>(0));
+
+    exp10 -= static_cast<std::int64_t>((pos_exp - pos_point) - 1U);
+
+    str =   str.substr(0U, pos_point)
+          + str.substr(pos_point + 1U, (pos_exp - pos_point) - 1U)
+          + "E"
+          + Util::lexical_cast(exp10);
+  }
+
   // Set the e_float value.
   const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_set_str(my_rop, str.c_str(), 10));
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 40eb356..4cbb978 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -591,14 +591,14 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-  // Erase the decimal point.
-  const std::size_t pos_decimal_point = str.rfind(static_cast<char>('.'));
-
-  if(pos_decimal_point != std::string::npos)
-  {
-    str.erase(str.cbegin() + (std::string::difference_type)  pos_decimal_point,
-              str.cbegin() + (std::string::difference_type) (pos_decimal_point + 1U));
-  }
+  // Erase the decimal point (which depends on the C locale).
+  str.erase(std::remove_if(str.begin(),
+                           str.end(),
+                           [](const char c) -> bool
+                           {
+                             return ((c < static_cast<char>('0')) || (c > static_cast<char>('9')));
+                           }),
+            str.end());
 }
 
 bool mpfr::e_float::rd_string(const char* const s)
-- 
2.43.0


From a9845ef4c332c916b2e1f8ab8905598b27db3de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 106/109] fix: the generic complex numbers were read with the
 global locale

---
 libs/e_float/src/e_float/e_float_complex.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 7e9f7d4..9a143f0 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -980,6 +980,7 @@
           // Extract the real part of the complex number.
           {
             std::stringstream c__my_stringstream;
+            c__my_stringstream.imbue(std::locale::classic());
 
             c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
             c__my_stringstream >> c__my_real_input;
@@ -989,6 +990,7 @@
           // Extract the imaginary part of the complex number.
           {
             std::stringstream c__my_stringstream;
+            c__my_stringstream.imbue(std::locale::classic());
 
             c__my_stringstream << c__my_mr[3U] << c__my_mr[4U];
             c__my_stringstream >> c__my_imag_input;
@@ -1018,6 +1020,7 @@
         {
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
+          c__my_stringstream.imbue(std::locale::classic());
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
-- 
2.43.0


From 8caa5afb578eb93254ff86f84cb053a32e4a2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 107/109] fix: zeta and integer powers used after main, from
 destructors of static objects, read a table of logarithms that was already
 gone

---
 .../src/utility/util_power_j_pow_x.cpp        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/utility/util_power_j_pow_x.cpp b/libs/e_float/src/utility/util_power_j_pow_x.cpp
index da5943a..ccb2267 100644
--- a/libs/e_float/src/utility/util_power_j_pow_x.cpp
+++ b/libs/e_float/src/utility/util_power_j_pow_x.cpp
@@ -8,6 +8,8 @@
 // "Algorithm 910: A Portable C++ Multiple-Precision System for Special-Function Calculations",
 // in ACM TOMS, {VOL 37, ISSUE 4, (February 2011)} (C) ACM, 2011. http://doi.acm.org/10.1145/1916461.1916469
 
+#include <mutex>
+
 #include <e_float/e_float_functions.h>
 #include <e_float/detail/e_float_detail_pown_template.h>
 
@@ -19,23 +21,28 @@ namespace Util
 {
   static e_float logn(const std::uint32_t n)
   {
-    // The table is kept per thread, since it grows with each new argument.
-    static thread_local std::map<std::uint32_t, e_float> ln_data;
-
-    const std::map<std::uint32_t, e_float>::const_iterator it = ln_data.find(n);
+    // The table grows with each new argument and it is shared by the threads.
+    static std::mutex ln_mutex;
+    static std::map<std::uint32_t, e_float> ln_data;
 
-    if(it == ln_data.cend())
     {
-      const e_float ln = ef::log(e_float(n));
+      const std::lock_guard<std::mutex> lock(ln_mutex);
 
-      ln_data[n] = ln;
+      const std::map<std::uint32_t, e_float>::const_iterator it = ln_data.find(n);
 
-      return ln;
-    }
-    else
-    {
-      return it->second;
+      if(it != ln_data.cend())
+      {
+        return it->second;
+      }
     }
+
+    const e_float ln = ef::log(e_float(n));
+
+    const std::lock_guard<std::mutex> lock(ln_mutex);
+
+    ln_data[n] = ln;
+
+    return ln;
   }
 
   template<typename T> inline T j_pow_x_template(const std::uint32_t j, const T& x, std::map<std::uint32_t, T>& n_pow_x_prime_factor_map)
-- 
2.43.0


From 6dc024c7b9b8c456a36267467c53231371bc6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 108/109] fix: A failed allocation while converting through
 text was turned into a wrong number, freed an mpfr number twice or lost a
 number being constructed.

---
 libs/e_float/src/e_float/e_float_complex.h    |  7 ++++
 libs/e_float/src/e_float/efx/e_float_efx.cpp  |  3 ++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 37 +++++--------------
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 33 ++++++++---------
 .../elementary/generic_functions_elementary.h |  3 ++
 libs/e_float/src/utility/util_lexical_cast.h  |  1 +
 libs/e_float/src/utility/util_numeric_cast.h  |  1 +
 7 files changed, 41 insertions(+), 44 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 9a143f0..3451427 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -980,6 +980,7 @@
           // Extract the real part of the complex number.
           {
             std::stringstream c__my_stringstream;
+            c__my_stringstream.exceptions(std::ios::badbit);
             c__my_stringstream.imbue(std::locale::classic());
 
             c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
@@ -990,6 +991,7 @@
           // Extract the imaginary part of the complex number.
           {
             std::stringstream c__my_stringstream;
+            c__my_stringstream.exceptions(std::ios::badbit);
             c__my_stringstream.imbue(std::locale::classic());
 
             c__my_stringstream << c__my_mr[3U] << c__my_mr[4U];
@@ -1020,6 +1022,7 @@
         {
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
+          c__my_stringstream.exceptions(std::ios::badbit);
           c__my_stringstream.imbue(std::locale::classic());
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
@@ -1055,6 +1058,7 @@
     std::basic_ostream<char_type, traits_type>& operator<<(std::basic_ostream<char_type, traits_type>& c__my_ostream, const complex<T>& c__my_z)
     {
       std::basic_ostringstream<char_type, traits_type> c__my_tmp_ostream;
+      c__my_tmp_ostream.exceptions(std::ios::badbit);
 
       c__my_tmp_ostream.flags    (c__my_ostream.flags());
       c__my_tmp_ostream.imbue    (c__my_ostream.getloc());
@@ -2082,6 +2086,7 @@
         {
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
+          c__my_stringstream.exceptions(std::ios::badbit);
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
@@ -2120,6 +2125,7 @@
         {
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
+          c__my_stringstream.exceptions(std::ios::badbit);
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
@@ -2154,6 +2160,7 @@
     std::basic_ostream<char_type, traits_type>& operator<<(std::basic_ostream<char_type, traits_type>& c__my_ostream, const complex<e_float>& c__my_z)
     {
       std::basic_ostringstream<char_type, traits_type> c__my_tmp_ostream;
+      c__my_tmp_ostream.exceptions(std::ios::badbit);
 
       c__my_tmp_ostream.flags    (c__my_ostream.flags());
       c__my_tmp_ostream.imbue    (c__my_ostream.getloc());
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 1685886..6ff7a98 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1519,6 +1519,7 @@ double efx::e_float::extract_double() const
   }
 
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit);
 
   ss.imbue(std::locale::classic());
 
@@ -1567,6 +1568,7 @@ long double efx::e_float::extract_long_double() const
   }
 
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit);
 
   ss.imbue(std::locale::classic());
 
@@ -1829,6 +1831,7 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   for(std::size_t i = static_cast<std::size_t>(1U); i < number_of_elements; i++)
   {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
 
     ss.imbue(std::locale::classic());
 
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index baaedb3..171cb1c 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -42,31 +42,19 @@ const std::int64_t& gmp::e_float::min_exp2()
   return val_min_exp2;
 }
 
-gmp::e_float::e_float(const char* const s) : my_rop      (),
-                                             my_fpclass  (ef_finite),
-                                             my_prec_elem(ef_max_digits10)
+gmp::e_float::e_float(const char* const s) : e_float()
 {
-  init();
-
   static_cast<void>(rd_string(s));
 }
 
-gmp::e_float::e_float(const std::string& str) : my_rop      (),
-                                                my_fpclass  (ef_finite),
-                                                my_prec_elem(ef_max_digits10)
+gmp::e_float::e_float(const std::string& str) : e_float()
 {
-  init();
-
   static_cast<void>(rd_string(str.c_str()));
 }
 
 gmp::e_float::e_float(const double mantissa,
-                      const std::int64_t exponent) : my_rop      (),
-                                                     my_fpclass  (ef_finite),
-                                                     my_prec_elem(ef_max_digits10)
+                      const std::int64_t exponent) : e_float()
 {
-  init();
-
   using std::fabs;
 
   const bool mantissa_is_iszero = (fabs(mantissa) < ((std::numeric_limits<double>::min)() * 2.0));
@@ -75,17 +63,11 @@ gmp::e_float::e_float(const double mantissa,
   {
     if(exponent == static_cast<std::int64_t>(0))
     {
-      ::mpf_init_set_ui(my_rop, 1U);
-    }
-    else
-    {
-      ::mpf_init_set_ui(my_rop, 0U);
+      operator=(e_float(1));
     }
   }
   else
   {
-    ::mpf_init_set_ui(my_rop, 0U);
-
     operator =(e_float(mantissa));
     operator*=(e_float("1E" + Util::lexical_cast(exponent)));
   }
@@ -102,9 +84,7 @@ gmp::e_float::e_float(const ::mpf_t& op) : my_rop      (),
 
 gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
                       const std::int64_t e,
-                      const bool is_neg) : my_rop      (),
-                                           my_fpclass  (ef_finite),
-                                           my_prec_elem(ef_max_digits10)
+                      const bool is_neg) : e_float()
 {
   std::string str;
 
@@ -118,6 +98,7 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(limb_values.size() > 0U)
   {
     std::stringstream strm;
+    strm.exceptions(std::ios::badbit);
 
     strm.imbue(std::locale::classic());
 
@@ -135,6 +116,7 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     for( ; it != limb_values.end(); ++it)
     {
       std::stringstream strm;
+      strm.exceptions(std::ios::badbit);
 
       strm.imbue(std::locale::classic());
 
@@ -147,6 +129,7 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(e != 0)
   {
     std::stringstream strm;
+    strm.exceptions(std::ios::badbit);
 
     strm.imbue(std::locale::classic());
 
@@ -155,8 +138,6 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     str += "e" + strm.str();
   }
 
-  init();
-
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -750,6 +731,7 @@ double gmp::e_float::extract_double() const
 
   // The function mpf_get_d() truncates. Use a string for a rounded conversion.
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit);
 
   ss.imbue(std::locale::classic());
 
@@ -799,6 +781,7 @@ long double gmp::e_float::extract_long_double() const
   }
 
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit);
 
   ss.imbue(std::locale::classic());
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 4cbb978..2da3586 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -29,13 +29,11 @@ namespace local
   }
 }
 
-mpfr::e_float::e_float(const char* s)          { init(); static_cast<void>(rd_string(s)); }
-mpfr::e_float::e_float(const std::string& str) { init(); static_cast<void>(rd_string(str.c_str())); }
+mpfr::e_float::e_float(const char* s)          : e_float() { static_cast<void>(rd_string(s)); }
+mpfr::e_float::e_float(const std::string& str) : e_float() { static_cast<void>(rd_string(str.c_str())); }
 
-mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
+mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent) : e_float()
 {
-  init();
-
   using std::fabs;
 
   const bool mantissa_is_iszero = (fabs(mantissa) < ((std::numeric_limits<double>::min)() * 2.0));
@@ -44,16 +42,16 @@ mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
   {
     if(exponent == static_cast<std::int64_t>(0))
     {
-      mpfr_init_set(my_rop, (ef::one()).my_rop, GMP_RNDN);
+      mpfr_set(my_rop, (ef::one()).my_rop, GMP_RNDN);
     }
     else
     {
-      mpfr_init_set(my_rop, (ef::zero()).my_rop, GMP_RNDN);
+      mpfr_set(my_rop, (ef::zero()).my_rop, GMP_RNDN);
     }
   }
   else
   {
-    mpfr_init_set(my_rop, (ef::zero()).my_rop, GMP_RNDN);
+    mpfr_set(my_rop, (ef::zero()).my_rop, GMP_RNDN);
 
     operator =(e_float(mantissa));
     operator*=(e_float("1E" + Util::lexical_cast(exponent)));
@@ -62,7 +60,7 @@ mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
 
 mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
                        const std::int64_t e,
-                       const bool is_neg)
+                       const bool is_neg) : e_float()
 {
   std::string str;
 
@@ -76,6 +74,7 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(limb_values.size() > 0U)
   {
     std::stringstream strm;
+    strm.exceptions(std::ios::badbit);
 
     strm.imbue(std::locale::classic());
 
@@ -93,6 +92,7 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     for( ; it != limb_values.end(); ++it)
     {
       std::stringstream strm;
+      strm.exceptions(std::ios::badbit);
 
       strm.imbue(std::locale::classic());
 
@@ -105,6 +105,7 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(e != 0)
   {
     std::stringstream strm;
+    strm.exceptions(std::ios::badbit);
 
     strm.imbue(std::locale::classic());
 
@@ -113,8 +114,6 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     str += "e" + strm.str();
   }
 
-  init();
-
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -603,18 +602,18 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
 
 bool mpfr::e_float::rd_string(const char* const s)
 {
-  // Release the memory of a number that has already been initialized.
-  if(my_rop[0U]._mpfr_d != nullptr)
-  {
-    ::mpfr_clear(my_rop);
-  }
-
   std::string  str;
   std::int64_t order10;
   bool         is_zero;
 
   static_cast<void>(scan_string(s, str, order10, is_zero));
 
+  // Release the memory of a number that has already been initialized.
+  if(my_rop[0U]._mpfr_d != nullptr)
+  {
+    ::mpfr_clear(my_rop);
+  }
+
   const bool b_result_is_ok = (::mpfr_init_set_str(my_rop, str.c_str(), 10, GMP_RNDN) == 0);
 
   if(!b_result_is_ok)
diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index d55ad5f..5509eff 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -65,6 +65,7 @@
       // Caution: This is slow. It is generic, but has poor performance.
       // Comment: Any dedicated effort to standardize MP would specify a fast kind of frexp.
       std::stringstream ss;
+      ss.exceptions(std::ios::badbit);
 
       ss.imbue(std::locale::classic());
       ss << std::scientific
@@ -192,6 +193,7 @@
       const double sqd = ::sqrt(dd);
 
       std::stringstream ss;
+      ss.exceptions(std::ios::badbit);
 
       ss.imbue(std::locale::classic());
 
@@ -275,6 +277,7 @@
 
       // Estimate the square root.
       std::stringstream ss;
+      ss.exceptions(std::ios::badbit);
 
       ss.imbue(std::locale::classic());
       ss << std::setprecision(std::numeric_limits<double>::digits10 + 1)
diff --git a/libs/e_float/src/utility/util_lexical_cast.h b/libs/e_float/src/utility/util_lexical_cast.h
index 6317f85..b69917e 100644
--- a/libs/e_float/src/utility/util_lexical_cast.h
+++ b/libs/e_float/src/utility/util_lexical_cast.h
@@ -19,6 +19,7 @@
     template<typename T> inline std::string lexical_cast(const T& t)
     {
       std::stringstream ss;
+      ss.exceptions(std::ios::badbit);
 
       ss.imbue(std::locale::classic());
 
diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index 3e00520..05bd3be 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -33,6 +33,7 @@
       // which is available in other projects such as wide-decimal.
 
       std::stringstream strm;
+      strm.exceptions(std::ios::badbit);
 
       strm.imbue(std::locale::classic());
 
-- 
2.43.0


From c410f1b5f778bc4d6cb90a1bcac0f0c1c4c8b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 109/109] fix: A dynamic_array whose elements could not be
 constructed lost its storage.

---
 libs/e_float/src/utility/util_dynamic_array.h | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 1d4b53c..367170f 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -48,14 +48,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          iterator it = begin();
-
-          while(it != end())
-          {
-            std::allocator_traits<allocator_type>::construct(my_a, it, v);
-
-            ++it;
-          }
+          fill_or_deallocate(my_a, [this, &v]() { std::uninitialized_fill(begin(), end(), v); });
         }
       }
 
@@ -69,7 +62,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::uninitialized_copy(other.elems, other.elems + elem_count, elems);
+          fill_or_deallocate(my_a, [this, &other]() { std::uninitialized_copy(other.elems, other.elems + elem_count, elems); });
         }
       }
 
@@ -86,7 +79,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::uninitialized_copy(first, last, elems);
+          fill_or_deallocate(my_a, [this, &first, &last]() { std::uninitialized_copy(first, last, elems); });
         }
       }
 
@@ -101,7 +94,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::uninitialized_copy(lst.begin(), lst.end(), elems);
+          fill_or_deallocate(my_a, [this, &lst]() { std::uninitialized_copy(lst.begin(), lst.end(), elems); });
         }
       }
 
@@ -252,6 +245,24 @@
     protected:
       mutable size_type elem_count;
       pointer           elems;
+
+    private:
+      // Fill the new elements. Deallocate them again if filling them throws an exception,
+      // since the destructor does not run for an incompletely constructed object.
+      template<typename fill_type>
+      void fill_or_deallocate(allocator_type& my_a, fill_type fill)
+      {
+        try
+        {
+          fill();
+        }
+        catch(...)
+        {
+          std::allocator_traits<allocator_type>::deallocate(my_a, elems, elem_count);
+
+          throw;
+        }
+      }
     };
 
     template<typename ValueType, typename AllocatorType>
-- 
2.43.0

