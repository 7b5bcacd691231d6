From f3e99a36fd663fa07be1a23a5cde1b3f74ec46c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 01/81] Add verification hooks guarded by MEEVAX_VERIF

---
 include/meevax/memory/allocator.hpp | 18 ++++++++++++++++++
 src/kernel/collector.cpp            | 15 +++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/include/meevax/memory/allocator.hpp b/include/meevax/memory/allocator.hpp
index 27c5f50..9782f0f 100644
--- a/include/meevax/memory/allocator.hpp
+++ b/include/meevax/memory/allocator.hpp
@@ -82,6 +82,10 @@ namespace meevax::inline memory
 
     static inline size_type count = 0;
 
+    #if defined(MEEVAX_VERIF) and defined(__SANITIZE_ADDRESS__)
+    static inline bool verification_bypass = false; // true: use the segregated storage itself.
+    #endif
+
     explicit segregated_storage_allocator()
     {
       ++count;
@@ -113,6 +117,13 @@ namespace meevax::inline memory
     {
       assert(n == 1);
 
+      #if defined(MEEVAX_VERIF) and defined(__SANITIZE_ADDRESS__) // Let the sanitizer see every chunk.
+      if (not verification_bypass)
+      {
+        return static_cast<value_type *>(::operator new(sizeof(chunk)));
+      }
+      #endif
+
       if (free_list)
       {
         return reinterpret_cast<value_type *>(std::exchange(free_list, free_list->tail));
@@ -132,6 +143,13 @@ namespace meevax::inline memory
     {
       assert(n == 1);
 
+      #if defined(MEEVAX_VERIF) and defined(__SANITIZE_ADDRESS__)
+      if (not verification_bypass)
+      {
+        return ::operator delete(static_cast<void *>(p));
+      }
+      #endif
+
       reinterpret_cast<chunk *>(p)->tail = std::exchange(free_list, reinterpret_cast<chunk *>(p));
     }
   };
diff --git a/src/kernel/collector.cpp b/src/kernel/collector.cpp
index 92f8793..cbf173c 100644
--- a/src/kernel/collector.cpp
+++ b/src/kernel/collector.cpp
@@ -19,6 +19,14 @@
 #include <meevax/memory/pointer_set.hpp>
 #include <vector>
 
+#ifdef MEEVAX_VERIF
+/*
+   Verification hook: decides, at every allocation request, whether a
+   collection takes place right now, regardless of the size of the heap.
+*/
+extern "C" auto meevax_verif_request(std::size_t) noexcept -> bool;
+#endif
+
 namespace meevax::inline kernel
 {
   /*
@@ -237,6 +245,13 @@ namespace meevax::inline kernel
 
   auto request(std::size_t n) noexcept -> void
   {
+    #ifdef MEEVAX_VERIF
+    if (meevax_verif_request(n))
+    {
+      collect();
+    }
+    #endif
+
     if (size += n; capacity < size)
     {
       collect();
-- 
2.43.0


From aad2246e5c54dcbc2a759dd887096c4c93dbb45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 02/81] fix: compute expt of exact rational bases and exact
 integer exponents exactly

---
 src/kernel/number/power.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/kernel/number/power.cpp b/src/kernel/number/power.cpp
index 0953a43..8cdd301 100644
--- a/src/kernel/number/power.cpp
+++ b/src/kernel/number/power.cpp
@@ -43,24 +43,26 @@ namespace meevax::inline kernel::number
         return complex(make<double>(z.real()),
                        make<double>(z.imag()));
       }
-      else if constexpr (std::is_same_v<T, widen_integer> and
-                         std::is_same_v<U, widen_integer>)
+      else if constexpr ((std::is_same_v<T, widen_integer> or
+                          std::is_same_v<T, large_integer> or
+                          std::is_same_v<T, ratio>) and std::is_same_v<U, widen_integer>)
       {
-        if (auto result = std::pow(x, y); std::numeric_limits<small_integer>::min() <= result and result <= std::numeric_limits<small_integer>::max())
-        {
-          return make<small_integer>(static_cast<small_integer>(result));
-        }
-        else
+        auto q = ratio(x);
+
+        if (y < 0)
         {
-          return make<large_integer>(result);
+          if (x == 0_i64)
+          {
+            throw error(make<string>("division by zero"), unit);
+          }
+
+          mpq_inv(q.value, q.value);
         }
-      }
-      else if constexpr (std::is_same_v<T, large_integer> and
-                         std::is_same_v<U, large_integer>)
-      {
-        large_integer result {};
-        mpz_pow_ui(result.value, x.value, static_cast<unsigned long>(y));
-        return result;
+
+        mpz_pow_ui(mpq_numref(q.value), mpq_numref(q.value), static_cast<unsigned long>(std::abs(y)));
+        mpz_pow_ui(mpq_denref(q.value), mpq_denref(q.value), static_cast<unsigned long>(std::abs(y)));
+
+        return q;
       }
       else
       {
-- 
2.43.0


From 19b2620b3d1e6b077da09df4fa4a504d4df81a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 03/81] fix: compute floor, ceiling, truncate and round of
 ratios exactly, and round ties to even

---
 src/kernel/number/nearest_integer.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/kernel/number/nearest_integer.cpp b/src/kernel/number/nearest_integer.cpp
index 9d2e5d7..3abcb35 100644
--- a/src/kernel/number/nearest_integer.cpp
+++ b/src/kernel/number/nearest_integer.cpp
@@ -18,7 +18,20 @@
 
 namespace meevax::inline kernel::number
 {
-  #define DEFINE(NAME, CMATH)                                                  \
+  static auto mpz_rdiv_q(mpz_t q, mpz_t const n, mpz_t const d) -> void // Rounds ties to even.
+  {
+    large_integer r;
+
+    mpz_fdiv_qr(q, r.value, n, d);
+    mpz_mul_2exp(r.value, r.value, 1);
+
+    if (auto const order = mpz_cmp(r.value, d); 0 < order or (order == 0 and mpz_odd_p(q)))
+    {
+      mpz_add_ui(q, q, 1);
+    }
+  }
+
+  #define DEFINE(NAME, CMATH, MPZ)                                             \
   auto NAME(object const& x) -> object                                         \
   {                                                                            \
     auto f = []<typename T>(T const& x)                                        \
@@ -29,7 +42,9 @@ namespace meevax::inline kernel::number
       }                                                                        \
       else if constexpr (std::is_same_v<T, ratio>)                             \
       {                                                                        \
-        return large_integer(CMATH(static_cast<double>(x)));                   \
+        large_integer q;                                                       \
+        MPZ(q.value, mpq_numref(x.value), mpq_denref(x.value));                \
+        return q;                                                              \
       }                                                                        \
       else if constexpr (std::is_same_v<T, large_integer> or std::is_integral_v<T>) \
       {                                                                        \
@@ -45,8 +60,8 @@ namespace meevax::inline kernel::number
     return apply_to<complex_number>(f, x);                                     \
   }
 
-  DEFINE(floor,    std::floor)
-  DEFINE(ceiling,  std::ceil)
-  DEFINE(truncate, std::trunc)
-  DEFINE(round,    std::round)
+  DEFINE(floor,    std::floor,     mpz_fdiv_q)
+  DEFINE(ceiling,  std::ceil,      mpz_cdiv_q)
+  DEFINE(truncate, std::trunc,     mpz_tdiv_q)
+  DEFINE(round,    std::nearbyint, mpz_rdiv_q)
 } // namespace meevax::kernel::number
-- 
2.43.0


From 0bbca4b6acd83a24841d06c4bf714978064cc63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 04/81] fix: raise an error instead of dying when dividing by
 exact zero or making a non-finite number exact

---
 src/kernel/number.cpp | 21 ++++++++++++++++++++-
 src/kernel/ratio.cpp  |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 78f6b73..b52c7b9 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -316,6 +316,17 @@ namespace meevax::inline kernel
     return apply_to<complex_numbers>(std::multiplies(), x, y);
   }
 
+  static auto check_divisor = []<typename T, typename U>(T const&, [[maybe_unused]] U const& y)
+  {
+    if constexpr (std::is_same_v<U, widen_integer> and not std::is_floating_point_v<T> and not std::is_same_v<T, complex>)
+    {
+      if (y == 0)
+      {
+        throw error(make<string>("division by zero"), unit);
+      }
+    }
+  };
+
   auto operator /(object const& x, object const& y) -> object
   {
     using namespace number;
@@ -325,11 +336,13 @@ namespace meevax::inline kernel
       if constexpr (std::is_same_v<T, widen_integer> and
                     std::is_same_v<U, widen_integer>)
       {
+        check_divisor(x, y);
         return make<ratio>(large_integer(x),
                            large_integer(y));
       }
       else
       {
+        check_divisor(x, y);
         return x / y;
       }
     };
@@ -350,6 +363,7 @@ namespace meevax::inline kernel
       }
       else
       {
+        check_divisor(x, y);
         return x % y;
       }
     };
@@ -542,6 +556,11 @@ namespace number
       }
       else if constexpr (std::is_floating_point_v<T>)
       {
+        if (not std::isfinite(x))
+        {
+          throw error(make<string>("no exact number is numerically closest to the given number"), make<T>(x));
+        }
+
         return ratio(std::forward<decltype(x)>(x));
       }
       else
@@ -803,7 +822,7 @@ namespace number
 
   auto lcm(object const& x, object const& y) -> object
   {
-    return abs(quotient(x * y, gcd(x, y)));
+    return is_zero(x) or is_zero(y) ? abs(x * y) : abs(quotient(x * y, gcd(x, y)));
   }
 
   auto real(object const& x) -> object
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 9842e7d..42cbd8c 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -67,7 +67,7 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix))
+    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From 200495201f5d1a9e27e944b72d0111d287c8c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 05/81] fix: read numeric literals with a plus sign, a D
 exponent marker or an out-of-range magnitude correctly

---
 src/kernel/number.cpp | 11 ++++++++---
 src/kernel/ratio.cpp  |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index b52c7b9..970beb6 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -375,6 +375,11 @@ namespace meevax::inline kernel
   {
     auto value = widen_integer(0);
 
+    if (1 < literal.size() and literal[0] == '+' and std::isalnum(static_cast<unsigned char>(literal[1]))) // std::from_chars does not recognize the plus sign.
+    {
+      return make_integer(literal.substr(1), radix);
+    }
+
     if (auto result = std::from_chars(literal.data(), literal.data() + literal.size(), value, radix); result.ec == std::errc())
     {
       if (result.ptr != literal.data() + literal.size())
@@ -466,15 +471,15 @@ namespace meevax::inline kernel
           case 'D': case 'd':
           case 'E': case 'e':
           default:
-            return make<double>(std::stod(literal));
+            return make<double>(std::strtod(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
 
           case 'F': case 'f':
-            return make<float>(std::stof(literal.substr().replace(result.position(1), 1, "e")));
+            return make<float>(std::strtof(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
           }
         }
         else
         {
-          return make<double>(std::stod(literal));
+          return make<double>(std::strtod(literal.c_str(), nullptr));
         }
       }
       else
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 42cbd8c..f71ade0 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -67,7 +67,7 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix) or mpz_sgn(mpq_denref(value)) == 0)
+    if (mpq_init(value); mpq_set_str(value, token.c_str() + (1 < token.size() and token[0] == '+' and token[1] != '-'), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From 3701d6c30443ffef1ebc6192881e38b2e094db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 06/81] fix: compare ratios with flonums exactly and do not
 pass NaN to GMP when comparing

---
 include/meevax/kernel/number.hpp |  8 +++++++
 src/kernel/number.cpp            | 36 ++++++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/number.hpp b/include/meevax/kernel/number.hpp
index f504ae1..2612a01 100644
--- a/include/meevax/kernel/number.hpp
+++ b/include/meevax/kernel/number.hpp
@@ -331,6 +331,14 @@ inline namespace kernel
         return std::abs(x - y) <= std::numeric_limits<R>::epsilon();
       }
     }
+    else if constexpr (std::is_floating_point_v<T> and std::is_same_v<U, large_integer>)
+    {
+      return not std::isnan(x) and x == y; // GMP does not accept NaN.
+    }
+    else if constexpr (std::is_floating_point_v<U> and std::is_same_v<T, large_integer>)
+    {
+      return not std::isnan(y) and x == y;
+    }
     else
     {
       return x == y;
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 970beb6..c8a0dea 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -515,6 +515,38 @@ namespace meevax::inline kernel
 
 namespace number
 {
+  static auto order = [](auto compare)
+  {
+    return [compare]<typename T, typename U>(T const& x, U const& y) -> bool
+    {
+      if constexpr (std::is_floating_point_v<T>)
+      {
+        if (std::isnan(x))
+        {
+          return false;
+        }
+        else if constexpr (std::is_same_v<U, ratio>)
+        {
+          return std::isinf(x) ? compare(x, 0.0) : compare(ratio(x), y);
+        }
+      }
+
+      if constexpr (std::is_floating_point_v<U>)
+      {
+        if (std::isnan(y))
+        {
+          return false;
+        }
+        else if constexpr (std::is_same_v<T, ratio>)
+        {
+          return std::isinf(y) ? compare(0.0, y) : compare(x, ratio(y));
+        }
+      }
+
+      return compare(x, y);
+    };
+  };
+
   auto equals(object const& x, object const& y) -> bool
   {
     return test<complex_numbers>(inexact_equals, x, y);
@@ -532,7 +564,7 @@ namespace number
 
   auto less_than(object const& x, object const& y) -> bool
   {
-    return test<real_numbers>(std::less(), x, y);
+    return test<real_numbers>(order(std::less()), x, y);
   }
 
   auto less_than_or_equals(object const& x, object const& y) -> bool
@@ -542,7 +574,7 @@ namespace number
 
   auto greater_than(object const& x, object const& y) -> bool
   {
-    return test<real_numbers>(std::greater(), x, y);
+    return test<real_numbers>(order(std::greater()), x, y);
   }
 
   auto greater_than_or_equals(object const& x, object const& y) -> bool
-- 
2.43.0


From 8d8ecc340eb3c3ad8f67efd031827a02755e38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 07/81] fix: make finite? false for NaN and integer? false for
 infinities

---
 src/kernel/number.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index c8a0dea..66db222 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -684,7 +684,7 @@ namespace number
       }
       else if constexpr (std::is_floating_point_v<T>)
       {
-        return x == std::trunc(x);
+        return std::isfinite(x) and x == std::trunc(x);
       }
       else if constexpr (std::is_same_v<T, ratio>)
       {
@@ -734,7 +734,7 @@ namespace number
 
   auto is_finite(object const& x) -> bool
   {
-    return not is_infinite(x);
+    return not is_infinite(x) and not is_nan(x);
   }
 
   auto is_infinite(object const& x) -> bool
-- 
2.43.0


From 2bbc9daac2be50b677d753b5298a361c34aa0afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 08/81] fix: compute magnitude of negative real numbers and
 angle of complex numbers correctly

---
 src/kernel/number.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 66db222..1559ade 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -898,24 +898,12 @@ namespace number
 
   auto magnitude(object const& x) -> object
   {
-    auto f = []<typename T>(T const& x)
-    {
-      if constexpr (std::is_same_v<T, complex>)
-      {
-        return sqrt(x.real() * x.real() + x.imag() * x.imag());
-      }
-      else
-      {
-        return x;
-      }
-    };
-
-    return apply_to<complex_number>(f, x);
+    return abs(x);
   }
 
   auto angle(object const& x) -> object
   {
-    return atan2(real(x), imag(x));
+    return atan2(imag(x), real(x));
   }
 
   auto numerator(object const& x) -> object
-- 
2.43.0


From 13b0b8d9a4b99e34de936620a06b5b65f6a3b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 09/81] fix: compute remainders of flonums and exact numbers as
 truncate remainders

---
 src/kernel/number.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 1559ade..68dc23d 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
   auto operator - (large_integer const& a, float b) -> float { return static_cast<float>(a) -  b; }
   auto operator * (large_integer const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (large_integer const& a, float b) -> float { return static_cast<float>(a) /  b; }
-  auto operator % (large_integer const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
+  auto operator % (large_integer const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) == 0; }
   auto operator !=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) != 0; }
   auto operator < (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <  0; }
@@ -112,7 +112,7 @@ namespace meevax::inline kernel
   auto operator - (large_integer const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (large_integer const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (large_integer const& a, double b) -> double { return static_cast<double>(a) /  b; }
-  auto operator % (large_integer const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
+  auto operator % (large_integer const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) == 0; }
   auto operator !=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) != 0; }
   auto operator < (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <  0; }
@@ -167,7 +167,7 @@ namespace meevax::inline kernel
   auto operator - (ratio const& a, float b) -> float { return static_cast<float>(a) -  b; }
   auto operator * (ratio const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (ratio const& a, float b) -> float { return static_cast<float>(a) /  b; }
-  auto operator % (ratio const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
+  auto operator % (ratio const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(ratio const& a, float b) -> bool  { return inexact_equals(static_cast<float>(a), b); }
   auto operator !=(ratio const& a, float b) -> bool  { return not (a == b); }
   auto operator < (ratio const& a, float b) -> bool  { return static_cast<float>(a) <  b; }
@@ -179,7 +179,7 @@ namespace meevax::inline kernel
   auto operator - (ratio const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (ratio const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (ratio const& a, double b) -> double { return static_cast<double>(a) /  b; }
-  auto operator % (ratio const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
+  auto operator % (ratio const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(ratio const& a, double b) -> bool   { return inexact_equals(static_cast<double>(a), b); }
   auto operator !=(ratio const& a, double b) -> bool   { return not (a == b); }
   auto operator < (ratio const& a, double b) -> bool   { return static_cast<double>(a) <  b; }
@@ -198,7 +198,7 @@ namespace meevax::inline kernel
   auto operator - (float a, large_integer const& b) -> float { return a -  static_cast<float>(b); }
   auto operator * (float a, large_integer const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, large_integer const& b) -> float { return a /  static_cast<float>(b); }
-  auto operator % (float a, large_integer const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
+  auto operator % (float a, large_integer const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, large_integer const& b) -> bool  { return 0 == mpz_cmp_d(b.value, a); }
   auto operator !=(float a, large_integer const& b) -> bool  { return 0 != mpz_cmp_d(b.value, a); }
   auto operator < (float a, large_integer const& b) -> bool  { return 0 <  mpz_cmp_d(b.value, a); }
@@ -210,7 +210,7 @@ namespace meevax::inline kernel
   auto operator - (float a, ratio const& b) -> float { return a -  static_cast<float>(b); }
   auto operator * (float a, ratio const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, ratio const& b) -> float { return a /  static_cast<float>(b); }
-  auto operator % (float a, ratio const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
+  auto operator % (float a, ratio const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, ratio const& b) -> bool  { return inexact_equals(a, static_cast<float>(b)); }
   auto operator !=(float a, ratio const& b) -> bool  { return not (a == b); }
   auto operator < (float a, ratio const& b) -> bool  { return a <  static_cast<float>(b); }
@@ -229,7 +229,7 @@ namespace meevax::inline kernel
   auto operator - (double a, large_integer const& b) -> double { return a - static_cast<double>(b); }
   auto operator * (double a, large_integer const& b) -> double { return a * static_cast<double>(b); }
   auto operator / (double a, large_integer const& b) -> double { return a / static_cast<double>(b); }
-  auto operator % (double a, large_integer const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
+  auto operator % (double a, large_integer const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, large_integer const& b) -> bool   { return 0 == mpz_cmp_d(b.value, a); }
   auto operator !=(double a, large_integer const& b) -> bool   { return 0 != mpz_cmp_d(b.value, a); }
   auto operator < (double a, large_integer const& b) -> bool   { return 0 <  mpz_cmp_d(b.value, a); }
@@ -241,7 +241,7 @@ namespace meevax::inline kernel
   auto operator - (double a, ratio const& b) -> double { return a -  static_cast<double>(b); }
   auto operator * (double a, ratio const& b) -> double { return a *  static_cast<double>(b); }
   auto operator / (double a, ratio const& b) -> double { return a /  static_cast<double>(b); }
-  auto operator % (double a, ratio const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
+  auto operator % (double a, ratio const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, ratio const& b) -> bool   { return inexact_equals(a, static_cast<double>(b)); }
   auto operator !=(double a, ratio const& b) -> bool   { return not (a == b); }
   auto operator < (double a, ratio const& b) -> bool   { return a <  static_cast<double>(b); }
-- 
2.43.0


From a44497feaf909b256db2bcae6b364fac22098ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 10/81] fix: shift fixnums right by 64 or more bits without
 undefined behavior

---
 src/kernel/number/bitwise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number/bitwise.cpp b/src/kernel/number/bitwise.cpp
index 0179196..395ac02 100644
--- a/src/kernel/number/bitwise.cpp
+++ b/src/kernel/number/bitwise.cpp
@@ -106,7 +106,7 @@ namespace meevax::inline kernel::number
       {
         if (c < 0)
         {
-          return canonicalize(x >> -c);
+          return canonicalize(x >> std::min(-c, 63));
         }
         else if (c == 0)
         {
-- 
2.43.0


From 30750c0b76485620c746cb120ea79747cced18c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 11/81] fix: leave room for the null terminator when converting
 fixnums to strings

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 68dc23d..0303edd 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -972,7 +972,7 @@ namespace number
       }
       else if constexpr (std::is_same_v<T, widen_integer>)
       {
-        char buffer[33] = {};
+        char buffer[66] = {}; // The sign, 64 binary digits, and the null terminator.
         std::to_chars(buffer, buffer + sizeof(buffer), x, radix);
         return string(buffer);
       }
-- 
2.43.0


From e317b82159567b4f0475a6157217e647214ef8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 12/81] fix: convert ratios, complex numbers and non-finite
 flonums to strings

---
 src/kernel/number.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 0303edd..280dc3b 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -948,6 +948,15 @@ namespace number
     {
       if constexpr (std::is_floating_point_v<T>)
       {
+        if (std::isnan(x))
+        {
+          return string("+nan.0");
+        }
+        else if (std::isinf(x))
+        {
+          return string(std::signbit(x) ? "-inf.0" : "+inf.0");
+        }
+
         switch (radix)
         {
         case 2:
@@ -980,9 +989,16 @@ namespace number
       {
         return string(std::unique_ptr<char, gmp_free>(mpz_get_str(nullptr, radix, x.value)).get());
       }
+      else if constexpr (std::is_same_v<T, ratio>)
+      {
+        return string(std::unique_ptr<char, gmp_free>(mpq_get_str(nullptr, radix, x.value)).get());
+      }
       else
       {
-        return string("TODO");
+        auto const real = number_to_string(x.real(), radix).template as<string>().utf8();
+        auto const imag = number_to_string(x.imag(), radix).template as<string>().utf8();
+
+        return string(real + (imag[0] == '+' or imag[0] == '-' ? "" : "+") + imag + "i");
       }
     };
 
-- 
2.43.0


From 4f0b10953434259923c0f480169b2e94f10d8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 13/81] fix: return #f from string->number when the string is
 not a number

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 898916c..5f8a1f4 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -265,7 +265,7 @@ namespace meevax::inline kernel
       { "bit-count",                     [](let const& xs) { return bit_count(car(xs)); } },
       { "bit-width",                     [](let const& xs) { return bit_width(car(xs)); } },
       { "number->string",                [](let const& xs) { switch (length(xs)) { case 1: return number_to_string(car(xs), 10); case 2: return number_to_string(car(xs), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure number->string takes one or two arugments, but got"), xs); } } },
-      { "string->number",                [](let const& xs) { switch (length(xs)) { case 1: return make_number(car(xs).as<string>().utf8(), 10); case 2: return make_number(car(xs).as<string>().utf8(), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure string->number takes one or two arugments, but got"), xs); } } },
+      { "string->number",                [](let const& xs) { try { switch (length(xs)) { case 1: return make_number(car(xs).as<string>().utf8(), 10); case 2: return make_number(car(xs).as<string>().utf8(), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure string->number takes one or two arugments, but got"), xs); } } catch (std::invalid_argument const&) { return f; } } },
 
       { "pair?",                         [](let const& xs) { return make<bool>(car(xs).is<pair>()); } },
       { "not-pair?",                     [](let const& xs) { return make<bool>(not car(xs).is<pair>()); } },
-- 
2.43.0


From 04ed7199b7bf56733ebf306daad73ba0700aafee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 14/81] fix: do not ignore white space inside numeric strings

---
 src/kernel/ratio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index f71ade0..3ec130f 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -67,7 +67,7 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); mpq_set_str(value, token.c_str() + (1 < token.size() and token[0] == '+' and token[1] != '-'), radix) or mpz_sgn(mpq_denref(value)) == 0)
+    if (mpq_init(value); token.find_first_of(" \f\n\r\t\v") != std::string::npos or mpq_set_str(value, token.c_str() + (1 < token.size() and token[0] == '+' and token[1] != '-'), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From 58429d3ed0a8d8b8ae6c770bff80ab136960cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 15/81] fix: run only the thunks of the extents entered and
 left when a continuation is invoked

---
 library/meevax.ss | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 81460e6..8a81e72 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -44,8 +44,9 @@
   (import (only (meevax context) emergency-exit)
           (only (meevax comparator) eq?)
           (only (meevax core) begin call-with-current-continuation! current define if install lambda)
-          (only (meevax pair) caar car cdar cdr cons pair?)
-          (only (meevax list) null?))
+          (only (meevax list) length)
+          (only (meevax number) <)
+          (only (meevax pair) caar car cdar cdr cons pair?))
 
   (export call-with-current-continuation dynamic-wind exit)
 
@@ -67,20 +68,16 @@
 
          (define (call-with-current-continuation procedure)
            (define (windup! from to)
-             (install-dynamic-extents! from)
              (if (eq? from to)
                  #t
-                 (if (null? from)
+                 (if (< (length from)
+                        (length to))
                      (begin (windup! from (cdr to))
-                            ((caar to)))
-                     (if (null? to)
-                         (begin ((cdar from))
-                                (windup! (cdr from) to))
-                         (begin ((cdar from))
-                                (windup! (cdr from)
-                                         (cdr to))
-                                ((caar to))))))
-             (install-dynamic-extents! to))
+                            ((caar to))
+                            (install-dynamic-extents! to))
+                     (begin (install-dynamic-extents! (cdr from))
+                            ((cdar from))
+                            (windup! (cdr from) to)))))
            ((lambda (dynamic-extents)
               (call-with-current-continuation!
                 (lambda (continue)
-- 
2.43.0


From ccd67e3f485a295023c741ec14c216fa6af2e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 16/81] fix: copy overlapping ranges of vectors and bytevectors
 correctly

---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 5f8a1f4..5174970 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -396,7 +396,7 @@ namespace meevax::inline kernel
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
-      { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); switch (length(xs)) { case 3: std::copy(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
+      { "vector-copy!",                  [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { auto const& from = caddr(xs).as<vector>().objects; auto & to = car(xs).as<vector>().objects; if (std::addressof(from) == std::addressof(to) and begin < at) { std::copy_backward(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at + end - begin)); } else { std::copy(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at)); } }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<vector>().objects.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<vector>().objects.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
       { "vector-fill!",                  [](let const& xs) { switch (length(xs)) { case 2: std::fill(car(xs).as_mutable<vector>().objects.begin(), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 3: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 4: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), cadr(xs)); return unspecified; default: return unspecified; } } },
 
@@ -408,7 +408,7 @@ namespace meevax::inline kernel
       { #TAG "vector-ref",               [](let const& xs) { return TAG##vector::output_cast(car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))]); } }, \
       { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
-      { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = caddr(xs).as<TAG##vector>().values[j]; }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
+      { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = TAG##vector::values_type(caddr(xs).as<TAG##vector>().values[j]); }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
       { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
-- 
2.43.0


From 23454273b5595b41c7253166a9feb27c80546d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 17/81] fix: make homogeneous vector append variadic

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 5174970..e3e7e53 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -409,7 +409,7 @@ namespace meevax::inline kernel
       { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
       { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = TAG##vector::values_type(caddr(xs).as<TAG##vector>().values[j]); }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
-      { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
+      { #TAG "vector-append",            [](let const& xs) { auto size = std::size_t(0); for (let const& x : xs | as_proper_list) { size += x.as<TAG##vector>().values.size(); } let const v = make<TAG##vector>(size); auto offset = std::size_t(0); for (let const& x : xs | as_proper_list) { auto const& values = x.as<TAG##vector>().values; v.as<TAG##vector>().values[std::slice(offset, values.size(), 1)] = values; offset += values.size(); } return v; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
 
-- 
2.43.0


From 97da502151ade0f20e83aaba681db042fd2d2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 18/81] fix: do not compare homogeneous vectors of different
 lengths element by element

---
 include/meevax/kernel/homogeneous_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 99eeeae..67f5306 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       return std::all_of(std::begin(xs), std::end(xs), [](auto x) { return x; });
     };
 
-    return check(a.values == b.values);
+    return a.values.size() == b.values.size() and check(a.values == b.values);
   }
 
   #define FOR_EACH_BITS(F) F(8) F(16) F(32) F(64)
-- 
2.43.0


From 3e2d8f1d06c3b3f4d046d4a9dbd82f3a4d1b28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 19/81] fix: resolve datum labels in cars and vectors and in
 the rest of the outermost datum

---
 include/meevax/kernel/textual_input_port.hpp |  2 +
 src/kernel/textual_input_port.cpp            | 63 ++++++++++++++++----
 2 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 0b06064..07dd0ee 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -60,6 +60,8 @@ namespace meevax::inline kernel
 
     std::unordered_map<std::string, object> datum_labels;
 
+    std::size_t depth = 0;
+
     bool fold_case = false;
 
     auto at_end_of_file() const -> bool;
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index fb3681e..de724b2 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -14,6 +14,8 @@
    limitations under the License.
 */
 
+#include <unordered_set>
+
 #include <meevax/iostream/lexical_cast.hpp>
 #include <meevax/kernel/boolean.hpp>
 #include <meevax/kernel/environment.hpp>
@@ -85,19 +87,37 @@ namespace meevax::inline kernel
     {}
   };
 
-  auto circulate(object & xs, object const& x, std::string const& n) -> void
+  auto circulate(object const& root, object const& label) -> void
   {
-    if (xs.is<pair>())
+    auto visited = std::unordered_set<void const*>();
+
+    auto unvisited = std::vector<object>();
+
+    auto visit = [&](object & x)
     {
-      circulate(car(xs), x, n);
+      if (x == label)
+      {
+        x = root;
+      }
+      else if ((x.is<pair>() or x.is<vector>()) and visited.insert(x.get()).second)
+      {
+        unvisited.push_back(x);
+      }
+    };
 
-      if (cdr(xs).is<datum_label>() and cdr(xs).as<datum_label>().n == n)
+    for (visited.insert(root.get()), unvisited.push_back(root); not unvisited.empty(); )
+    {
+      if (let x = unvisited.back(); unvisited.pop_back(), x.is<pair>())
       {
-        cdr(xs) = x;
+        visit(car(x));
+        visit(cdr(x));
       }
-      else
+      else if (x.is<vector>())
       {
-        circulate(cdr(xs), x, n);
+        for (object & y : x.as<vector>().objects)
+        {
+          visit(y);
+        }
       }
     }
   }
@@ -198,6 +218,27 @@ namespace meevax::inline kernel
 
   auto textual_input_port::read(character c0) -> object
   {
+    struct scope // The scope of a datum label is the outermost datum.
+    {
+      textual_input_port & port;
+
+      explicit scope(textual_input_port & port)
+        : port { port }
+      {
+        ++port.depth;
+      }
+
+      ~scope()
+      {
+        if (not --port.depth)
+        {
+          port.datum_labels.clear();
+        }
+      }
+    };
+
+    auto const _ = scope(*this);
+
     auto is_digit = [](auto c)
     {
       return std::isdigit(c);
@@ -336,12 +377,12 @@ namespace meevax::inline kernel
               }
 
             case '=':
-              if (auto [iter, success] = datum_labels.emplace(n, make<datum_label>(n)); success)
+              if (let const label = make<datum_label>(n); datum_labels.emplace(n, label).second)
               {
-                if (let xs = read(); xs != iter->second)
+                if (let const xs = read(); xs != label)
                 {
-                  circulate(xs, xs, n);
-                  datum_labels.erase(n);
+                  circulate(xs, label);
+                  datum_labels.insert_or_assign(n, xs);
                   return xs;
                 }
                 else
-- 
2.43.0


From 01f308f88979a21a46f89afddcab1bca053d189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 20/81] fix: return the eof object after the last datum and
 raise read errors for malformed or incomplete data

---
 include/meevax/kernel/textual_input_port.hpp |   2 +
 src/kernel/textual_input_port.cpp            | 195 ++++++++++++++-----
 2 files changed, 145 insertions(+), 52 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 07dd0ee..f919cb6 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -84,6 +84,8 @@ namespace meevax::inline kernel
 
     auto read(character = {}) -> object;
 
+    auto read_element(character = {}) -> object; // Also throws the delimiters ')' and '.' of a list.
+
     auto take_character() -> character;
 
     template <typename F>
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index de724b2..7c1f974 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -206,6 +206,11 @@ namespace meevax::inline kernel
   {
     auto c = take_character();
 
+    if (c.is_eof())
+    {
+      return c; // NOTE: std::istream::putback would clear the eofbit.
+    }
+
     auto const s = c.utf8();
 
     for (auto iter = std::rbegin(s); iter != std::rend(s); ++iter)
@@ -239,12 +244,55 @@ namespace meevax::inline kernel
 
     auto const _ = scope(*this);
 
+    try
+    {
+      return read_element(c0);
+    }
+    catch (std::integral_constant<char, ')'> const&)
+    {
+      throw read_error(make<string>("unexpected close parenthesis"), unit);
+    }
+    catch (std::integral_constant<char, '.'> const&)
+    {
+      throw read_error(make<string>("unexpected dot"), unit);
+    }
+  }
+
+  auto textual_input_port::read_element(character c0) -> object
+  {
+    auto incomplete = []()
+    {
+      return read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+    };
+
+    auto complete = [&](object const& x)
+    {
+      return x.is<eof>() and at_end_of_file() ? throw incomplete() : x;
+    };
+
+    auto to_number = [](std::string const& token, int radix)
+    {
+      try
+      {
+        return make_number(token, radix);
+      }
+      catch (std::invalid_argument const&)
+      {
+        throw read_error(make<string>("malformed number"), make<string>(token));
+      }
+    };
+
+    auto to_width = [](std::string const& digits)
+    {
+      return digits.size() == 1 or digits.size() == 2 ? std::stoi(digits) : 0;
+    };
+
     auto is_digit = [](auto c)
     {
       return std::isdigit(c);
     };
 
-    auto take_quoted = [this](character quotation_mark)
+    auto take_quoted = [&](character quotation_mark)
     {
       auto s = string();
 
@@ -285,7 +333,7 @@ namespace meevax::inline kernel
         }
       }
 
-      throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+      throw incomplete();
     };
 
     auto take_token = [this](character c)
@@ -305,7 +353,7 @@ namespace meevax::inline kernel
 
     while (get_ready())
     {
-      switch (auto const c1 = c0 ? c0 : take_character())
+      switch (auto const c1 = c0 ? std::exchange(c0, character()) : take_character())
       {
       case EOF:
         return eof_object;
@@ -338,14 +386,14 @@ namespace meevax::inline kernel
             take_character_until([](auto c) { return c == '\n'; });
           }
 
-          return read();
+          return read_element();
 
         case ',': // SRFI 10
-          return interaction_environment().as<environment>().evaluate(read());
+          return interaction_environment().as<environment>().evaluate(complete(read()));
 
         case ';': // SRFI 62
-          read(); // Discard an expression.
-          return read();
+          complete(read()); // Discard an expression.
+          return read_element();
 
         case '"':
           return make_symbol(take_quoted(c2).utf8());
@@ -379,7 +427,7 @@ namespace meevax::inline kernel
             case '=':
               if (let const label = make<datum_label>(n); datum_labels.emplace(n, label).second)
               {
-                if (let const xs = read(); xs != label)
+                if (let const xs = complete(read()); xs != label)
                 {
                   circulate(xs, label);
                   datum_labels.insert_or_assign(n, xs);
@@ -406,33 +454,33 @@ namespace meevax::inline kernel
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 2);
+            return to_number(lexical_cast(complete(read())), 2);
 
           default:
-            return make_number(take_token(c3), 2);
+            return to_number(take_token(c3), 2);
           }
 
         case 'd':
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 10);
+            return to_number(lexical_cast(complete(read())), 10);
 
           default:
-            return make_number(take_token(c3), 10);
+            return to_number(take_token(c3), 10);
           }
 
         case 'e':
-          return number::exact(read()); // NOTE: Same as #,(exact (read))
+          return number::exact(complete(read())); // NOTE: Same as #,(exact (read))
 
         case 'f':
-          switch (std::stoi(take_character_while(is_digit, character('0'))))
+          switch (to_width(take_character_while(is_digit)))
           {
           case 32:
-            return make<f32vector>(read() | as_proper_list);
+            return make<f32vector>(complete(read()) | as_proper_list);
 
           case 64:
-            return make<f64vector>(read() | as_proper_list);
+            return make<f64vector>(complete(read()) | as_proper_list);
 
           default:
             take_token(c2);
@@ -440,32 +488,32 @@ namespace meevax::inline kernel
           }
 
         case 'i':
-          return number::inexact(read()); // NOTE: Same as #,(inexact (read))
+          return number::inexact(complete(read())); // NOTE: Same as #,(inexact (read))
 
         case 'o':
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 8);
+            return to_number(lexical_cast(complete(read())), 8);
 
           default:
-            return make_number(take_token(c3), 8);
+            return to_number(take_token(c3), 8);
           }
 
         case 's':
-          switch (auto n = take_character_while(is_digit); std::stoi(n))
+          switch (auto n = take_character_while(is_digit); to_width(n))
           {
           case 8:
-            return make<s8vector>(read() | as_proper_list);
+            return make<s8vector>(complete(read()) | as_proper_list);
 
           case 16:
-            return make<s16vector>(read() | as_proper_list);
+            return make<s16vector>(complete(read()) | as_proper_list);
 
           case 32:
-            return make<s32vector>(read() | as_proper_list);
+            return make<s32vector>(complete(read()) | as_proper_list);
 
           case 64:
-            return make<s64vector>(read() | as_proper_list);
+            return make<s64vector>(complete(read()) | as_proper_list);
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -477,19 +525,19 @@ namespace meevax::inline kernel
           return t;
 
         case 'u':
-          switch (auto const n = take_character_while(is_digit); std::stoi(n))
+          switch (auto const n = take_character_while(is_digit); to_width(n))
           {
           case 8:
-            return make<u8vector>(read() | as_proper_list);
+            return make<u8vector>(complete(read()) | as_proper_list);
 
           case 16:
-            return make<u16vector>(read() | as_proper_list);
+            return make<u16vector>(complete(read()) | as_proper_list);
 
           case 32:
-            return make<u32vector>(read() | as_proper_list);
+            return make<u32vector>(complete(read()) | as_proper_list);
 
           case 64:
-            return make<u64vector>(read() | as_proper_list);
+            return make<u64vector>(complete(read()) | as_proper_list);
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -500,14 +548,14 @@ namespace meevax::inline kernel
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 16);
+            return to_number(lexical_cast(complete(read())), 16);
 
           default:
-            return make_number(take_token(c3), 16);
+            return to_number(take_token(c3), 16);
           }
 
         case '(':
-          return make<vector>(read(c2) | as_proper_list);
+          return make<vector>(read_element(c2) | as_proper_list);
 
         case '\\':
           if (auto c3 = take_character(); is_special_character(peek_character())) // #\<character>
@@ -551,7 +599,7 @@ namespace meevax::inline kernel
             switch (auto c1 = take_character())
             {
             case EOF:
-              throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+              throw incomplete();
 
             case '#':
               switch (peek_character())
@@ -582,31 +630,67 @@ namespace meevax::inline kernel
             }
           }
 
-          return read();
+          return read_element();
+
+        case EOF:
+          throw incomplete();
 
         default:
           throw read_error(make<string>("unknown discriminator"), make<character>(c2));
         }
 
       case '\'': // 0x27
-        return list(make_symbol("quote"), read());
+        return list(make_symbol("quote"), complete(read()));
 
       case '(':  // 0x28
-        try
         {
-          let const& x = read();
+          let list = nullptr;
 
-          return cons(x, read(c1));
-        }
-        catch (std::integral_constant<char, ')'> const&)
-        {
-          return nullptr;
-        }
-        catch (std::integral_constant<char, '.'> const&)
-        {
-          let const x = read();
-          take_character_until([](auto c) { return c == ')'; });
-          return x;
+          let last = nullptr;
+
+          try
+          {
+            while (true)
+            {
+              let const x = complete(read_element());
+
+              if (let const y = cons(x, nullptr); last.is<null>())
+              {
+                list = last = y;
+              }
+              else
+              {
+                last = cdr(last) = y;
+              }
+            }
+          }
+          catch (std::integral_constant<char, ')'> const&)
+          {
+            return list;
+          }
+          catch (std::integral_constant<char, '.'> const&)
+          {
+            let const tail = complete(read());
+
+            try
+            {
+              complete(read_element());
+            }
+            catch (std::integral_constant<char, ')'> const&)
+            {
+              if (last.is<null>())
+              {
+                return tail;
+              }
+              else
+              {
+                cdr(last) = tail;
+                return list;
+              }
+            }
+
+            throw read_error(make<string>("a dotted list has more than one datum after the dot"), unit);
+          }
         }
 
       case ')':  // 0x29
@@ -616,10 +700,10 @@ namespace meevax::inline kernel
         switch (auto c = take_character())
         {
         case '@':
-          return list(make_symbol("unquote-splicing"), read());
+          return list(make_symbol("unquote-splicing"), complete(read()));
 
         default:
-          return list(make_symbol("unquote"), read(c));
+          return list(make_symbol("unquote"), complete(read(c)));
         }
 
       case ';':  // 0x3B
@@ -627,7 +711,7 @@ namespace meevax::inline kernel
         break;
 
       case '`':  // 0x60
-        return list(make_symbol("quasiquote"), read());
+        return list(make_symbol("quasiquote"), complete(read()));
 
       case '|':  // 0x7C
         return make_symbol(take_quoted(c1).utf8());
@@ -655,7 +739,14 @@ namespace meevax::inline kernel
       }
     }
 
-    throw read_error(make<string>("underlying input stream went into a not good state"), unit);
+    if (at_end_of_file())
+    {
+      return eof_object;
+    }
+    else
+    {
+      throw read_error(make<string>("underlying input stream went into a not good state"), unit);
+    }
   }
 
   auto textual_input_port::take_character() -> character
-- 
2.43.0


From 1a27fbbd3a64dc2fde698152140cc70e007429f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 21/81] fix: make read-line return a last line without newline
 and non-ASCII characters

---
 include/meevax/kernel/textual_input_port.hpp | 4 ++--
 src/kernel/textual_input_port.cpp            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index f919cb6..546de12 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -95,7 +95,7 @@ namespace meevax::inline kernel
 
       while (get_ready() and not satisfy(c = take_character()))
       {
-        s += c;
+        s += c.utf8();
       }
 
       return s;
@@ -108,7 +108,7 @@ namespace meevax::inline kernel
 
       while (get_ready() and satisfy(peek_character()))
       {
-        s += take_character();
+        s += take_character().utf8();
       }
 
       return s;
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 7c1f974..a05ddb1 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -175,13 +175,13 @@ namespace meevax::inline kernel
 
   auto textual_input_port::get_line() -> object
   {
-    if (auto s = take_character_until([](auto c) { return c == '\n'; }); at_end_of_file())
+    if (peek_character().is_eof())
     {
       return eof_object;
     }
     else
     {
-      return make<string>(s);
+      return make<string>(take_character_until([](auto c) { return c.is_eof() or c == '\n'; }));
     }
   }
 
-- 
2.43.0


From 071a02271ae7931d2747a286a740636f5973e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 22/81] fix: do not drop null characters when encoding strings

---
 include/meevax/kernel/textual_input_port.hpp | 4 ++--
 src/kernel/character.cpp                     | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 546de12..6873bda 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -91,7 +91,7 @@ namespace meevax::inline kernel
     template <typename F>
     auto take_character_until(F satisfy, character c = {})
     {
-      auto s = c.utf8();
+      auto s = c ? c.utf8() : std::string();
 
       while (get_ready() and not satisfy(c = take_character()))
       {
@@ -104,7 +104,7 @@ namespace meevax::inline kernel
     template <typename F>
     auto take_character_while(F satisfy, character c = {})
     {
-      auto s = c.utf8();
+      auto s = c ? c.utf8() : std::string();
 
       while (get_ready() and satisfy(peek_character()))
       {
diff --git a/src/kernel/character.cpp b/src/kernel/character.cpp
index 9914347..95718b6 100644
--- a/src/kernel/character.cpp
+++ b/src/kernel/character.cpp
@@ -26,7 +26,11 @@ namespace meevax::inline kernel
   {
     auto chars = std::array<char, 5>();
 
-    if (codepoint <= 0x7F)
+    if (codepoint == 0)
+    {
+      return std::string(1, '\0');
+    }
+    else if (codepoint <= 0x7F)
     {
       chars[0] = (codepoint & 0x7F);
     }
-- 
2.43.0


From 6e126e851de717a1a85b687db8d3a069c0153811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 23/81] fix: skip malformed UTF-8 bytes instead of failing on
 them forever or misdecoding them

---
 src/kernel/textual_input_port.cpp | 38 +++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index a05ddb1..38136b1 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -759,31 +759,49 @@ namespace meevax::inline kernel
     */
     auto & source = istream();
 
+    auto malformed = [&]()
+    {
+      source.get(); // Skip the malformed byte so that the next attempt proceeds.
+
+      return read_error(make<string>("malformed UTF-8 byte sequence"), unit);
+    };
+
+    auto take_continuation_bytes = [&](auto codepoint, auto count)
+    {
+      while (count--)
+      {
+        if (auto const c = source.peek(); 0x80 <= c and c <= 0xBF)
+        {
+          codepoint = codepoint << 6 | (source.get() & 0b0011'1111);
+        }
+        else
+        {
+          throw character::is_eof(c) ? read_error(make<string>("an end of file is encountered in the middle of a UTF-8 byte sequence"), unit) : malformed();
+        }
+      }
+
+      return character(codepoint);
+    };
+
     if (auto const c = source.peek(); character::is_eof(c) or character::is_ascii(c))
     {
       return character(source.get());
     }
     else if (0xC2 <= c and c <= 0xDF) // 11 bit
     {
-      return character((source.get() & 0b0001'1111) << 6 |
-                       (source.get() & 0b0011'1111));
+      return take_continuation_bytes(source.get() & 0b0001'1111, 1);
     }
     else if (0xE0 <= c and c <= 0xEF) // 16 bit
     {
-      return character((source.get() & 0b0000'1111) << 12 |
-                       (source.get() & 0b0011'1111) <<  6 |
-                       (source.get() & 0b0011'1111));
+      return take_continuation_bytes(source.get() & 0b0000'1111, 2);
     }
     else if (0xF0 <= c and c <= 0xF4) // 21 bit
     {
-      return character((source.get() & 0b0000'0111) << 18 |
-                       (source.get() & 0b0011'1111) << 12 |
-                       (source.get() & 0b0011'1111) <<  6 |
-                       (source.get() & 0b0011'1111));
+      return take_continuation_bytes(source.get() & 0b0000'0111, 3);
     }
     else
     {
-      throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+      throw malformed();
     }
   }
 } // namespace meevax::kernel
-- 
2.43.0


From 36c56234a904799dd7550b15cbdec7c41ed10cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 24/81] fix: raise a read error for malformed hexadecimal
 scalar values

---
 src/kernel/textual_input_port.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 38136b1..64b6970 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -282,6 +282,21 @@ namespace meevax::inline kernel
       }
     };
 
+    auto to_character = [](std::string const& digits)
+    {
+      auto codepoint = character::int_type(0);
+
+      for (auto c : digits)
+      {
+        if (not std::isxdigit(static_cast<unsigned char>(c)) or 0x10FFFF < (codepoint = codepoint << 4 | (std::isdigit(static_cast<unsigned char>(c)) ? c - '0' : std::tolower(c) - 'a' + 10)))
+        {
+          throw read_error(make<string>("malformed hexadecimal scalar value"), make<string>(digits));
+        }
+      }
+
+      return character(codepoint);
+    };
+
     auto to_width = [](std::string const& digits)
     {
       return digits.size() == 1 or digits.size() == 2 ? std::stoi(digits) : 0;
@@ -314,7 +329,7 @@ namespace meevax::inline kernel
           case 'r': s.characters.emplace_back('\r'); break;
           case 't': s.characters.emplace_back('\t'); break;
           case 'v': s.characters.emplace_back('\v'); break;
-          case 'x': s.characters.emplace_back(lexical_cast<character::int_type>(std::hex, take_character_until([](auto c) { return c == ';'; }))); break;
+          case 'x': s.characters.emplace_back(to_character(take_character_until([](auto c) { return c == ';' or c.is_eof(); }))); break;
 
           case '\n':
           case '\r':
@@ -558,13 +573,17 @@ namespace meevax::inline kernel
           return make<vector>(read_element(c2) | as_proper_list);
 
         case '\\':
-          if (auto c3 = take_character(); is_special_character(peek_character())) // #\<character>
+          if (auto c3 = take_character(); c3.is_eof())
+          {
+            throw incomplete();
+          }
+          else if (is_special_character(peek_character())) // #\<character>
           {
             return make<character>(c3);
           }
           else if (c3 == 'x') // #\x<hex scalar value>
           {
-            return make<character>(lexical_cast<character::int_type>(std::hex, take_token(character('0'))));
+            return make<character>(to_character(take_token(character('0'))));
           }
           else // #\<character name>
           {
-- 
2.43.0


From 8369146370ed2f5c7551f07740f38df9ff4a01d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 25/81] fix: respect ranges in string->vector and string->utf8
 and convert empty bytevectors to empty strings

---
 src/kernel/boot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index e3e7e53..af88be6 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -394,7 +394,7 @@ namespace meevax::inline kernel
       { "vector->list",                  [](let const& xs) { switch (length(xs)) { case 1: return std::accumulate(car(xs).as<vector>().objects.rbegin(), car(xs).as<vector>().objects.rend(), unit, xcons); case 2: return std::accumulate(car(xs).as<vector>().objects.rbegin(), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); case 3: return std::accumulate(std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "list->vector",                  [](let const& xs) { return make<vector>(car(xs) | as_proper_list); } },
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
-      { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
+      { "string->vector",                [](let const& xs) { let v = make<vector>(); auto push_back = [&](character const& c) { v.as<vector>().objects.push_back(make<character>(c)); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<string>().characters.begin(), car(xs).as<string>().characters.end(), push_back); return v; case 2: std::for_each(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<string>().characters.end(), push_back); return v; case 3: std::for_each(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return v; default: throw error(make<string>("procedure string->vector takes one to three arugments, but got"), xs); } } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
       { "vector-copy!",                  [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { auto const& from = caddr(xs).as<vector>().objects; auto & to = car(xs).as<vector>().objects; if (std::addressof(from) == std::addressof(to) and begin < at) { std::copy_backward(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at + end - begin)); } else { std::copy(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at)); } }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<vector>().objects.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<vector>().objects.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
@@ -417,8 +417,8 @@ namespace meevax::inline kernel
       REGISTER_VECTOR(u8), REGISTER_VECTOR(u16), REGISTER_VECTOR(u32), REGISTER_VECTOR(u64),
                                                  REGISTER_VECTOR(f32), REGISTER_VECTOR(f64),
 
-      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return input_string_port(buffer.str()).get(std::numeric_limits<std::size_t>::max()); } },
-      { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; return convert(car(xs).as<string>().utf8()); } },
+      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return make<string>(buffer.str()); } },
+      { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; switch (auto const& characters = car(xs).as<string>().characters; length(xs)) { case 1: return convert(car(xs).as<string>().utf8()); case 2: return convert(string(std::next(characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), characters.end()).utf8()); case 3: return convert(string(std::next(characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(characters.begin(), exact_integer_cast<std::size_t>(caddr(xs)))).utf8()); default: throw error(make<string>("procedure string->u8vector takes one to three arguments, but got"), xs); } } },
 
       { "put-char",                      [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<character>()); return unspecified; } },
       { "put-string",                    [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<string>()); return unspecified; } },
-- 
2.43.0


From ac9ced6220a4080c01819fbbb1b9a04a6b75513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 26/81] fix: do not let a procedure called by apply share its
 argument list with the caller

---
 library/meevax.ss | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 8a81e72..32a1b8e 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -105,12 +105,14 @@
 
   (begin (define (apply f x . xs)
            (if (null? xs)
-               (f . x)
+               ((lambda (x)
+                  (f . x))
+                (reverse (reverse x)))
                ((lambda (xs)
                   ((lambda (x)
                      (f . x))
                    (append (reverse (cdr xs))
-                           (car xs))))
+                           (reverse (reverse (car xs))))))
                 (reverse (cons x xs)))))))
 
 (define-library (meevax map)
-- 
2.43.0


From 5b32dd88f7fb202bc0b585ff18a0d1e5d6d4ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 27/81] fix: process long lists without exhausting the native
 stack

---
 src/kernel/list.cpp | 86 +++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/src/kernel/list.cpp b/src/kernel/list.cpp
index 90f5abd..b6ac863 100644
--- a/src/kernel/list.cpp
+++ b/src/kernel/list.cpp
@@ -22,26 +22,26 @@ namespace meevax::inline kernel
 {
   auto make_list(std::size_t size, object const& x) -> object
   {
-    if (0 < size)
-    {
-      return cons(x, make_list(--size, x));
-    }
-    else
+    let xs = nullptr;
+
+    while (size--)
     {
-      return nullptr;
+      xs = cons(x, xs);
     }
+
+    return xs;
   }
 
   auto iota(std::size_t count, object const& start, object const& step) -> object
   {
-    if (0 < count)
-    {
-      return cons(start, iota(count - 1, start + step, step));
-    }
-    else
+    let xs = nullptr;
+
+    for (let x = start; count--; x = x + step)
     {
-      return nullptr;
+      xs = cons(x, xs);
     }
+
+    return reverse(xs);
   }
 
   auto is_proper_list(object const& x0, object const& y0) -> bool
@@ -127,14 +127,14 @@ namespace meevax::inline kernel
 
   auto list_copy(object const& xs) -> object
   {
-    if (xs.is<pair>())
-    {
-      return cons(car(xs), list_copy(cdr(xs)));
-    }
-    else
+    let x = xs;
+
+    while (x.is<pair>())
     {
-      return xs;
+      x = cdr(x);
     }
+
+    return append(xs, x);
   }
 
   auto take(object const& x, std::size_t k) -> object
@@ -252,14 +252,9 @@ namespace meevax::inline kernel
 
   auto append(object const& x, object const& y) -> object
   {
-    if (x.is<pair>())
-    {
-      return cons(car(x), append(cdr(x), y));
-    }
-    else
-    {
-      return y;
-    }
+    let z = reverse(x);
+
+    return append_reverse(z, y);
   }
 
   auto append(object & x, object const& y) -> object &
@@ -293,26 +288,32 @@ namespace meevax::inline kernel
 
   auto append_reverse(object & x, object const& y) -> object
   {
-    if (x.is<null>())
-    {
-      return y;
-    }
-    else
+    let from = x;
+
+    let to = y;
+
+    while (not from.is<null>())
     {
-      return append_reverse(std::exchange(cdr(x), y), x);
+      let const rest = std::exchange(cdr(from), to);
+      to = from;
+      from = rest;
     }
+
+    return to;
   }
 
   auto reverse(object const& xs, object const& a) -> object
   {
-    if (xs.is<pair>())
-    {
-      return reverse(cdr(xs), cons(car(xs), a));
-    }
-    else
+    let x = xs;
+
+    let y = a;
+
+    for (; x.is<pair>(); x = cdr(x))
     {
-      return a;
+      y = cons(car(x), y);
     }
+
+    return y;
   }
 
   auto reverse(object const& xs) -> object
@@ -322,14 +323,7 @@ namespace meevax::inline kernel
 
   auto reverse(object & xs, object const& a) -> object
   {
-    if (xs.is<null>())
-    {
-      return a;
-    }
-    else
-    {
-      return reverse(std::exchange(cdr(xs), a), xs);
-    }
+    return append_reverse(xs, a);
   }
 
   auto reverse(object & xs) -> object
-- 
2.43.0


From 9b919b6b7ed01e1c33531247406d326bb6278feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 28/81] fix: return the number of bytes read from
 read-bytevector!

---
 library/r7rs.ss | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/r7rs.ss b/library/r7rs.ss
index 209a5bf..4a51f30 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -311,7 +311,8 @@
                                           (current-input-port)))))
              (if (eof-object? v)
                  (eof-object)
-                 (bytevector-copy! x start v))))
+                 (begin (bytevector-copy! x start v)
+                        (bytevector-length v)))))
 
          (define (write-char x . xs)
            (%put-char x (if (pair? xs)
-- 
2.43.0


From aad4a65a905e0d62f505bc39223df4e2f1ab6d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 29/81] fix: return the bytes available or the eof object at
 the end of binary input ports

---
 .../meevax/kernel/input_homogeneous_vector_port.hpp   |  2 +-
 src/kernel/binary_input_file_port.cpp                 | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/meevax/kernel/input_homogeneous_vector_port.hpp b/include/meevax/kernel/input_homogeneous_vector_port.hpp
index e3e86e7..a9bdab8 100644
--- a/include/meevax/kernel/input_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/input_homogeneous_vector_port.hpp
@@ -53,7 +53,7 @@ namespace meevax::inline kernel
 
     auto get(std::size_t size) -> object override
     {
-      if (deque.size() < size)
+      if (size = std::min(size, deque.size()); deque.empty())
       {
         return eof_object;
       }
diff --git a/src/kernel/binary_input_file_port.cpp b/src/kernel/binary_input_file_port.cpp
index de8c9e5..ebdf653 100644
--- a/src/kernel/binary_input_file_port.cpp
+++ b/src/kernel/binary_input_file_port.cpp
@@ -48,11 +48,14 @@ namespace meevax::inline kernel
     {
       return make<u8vector>(buffer.data(), buffer.size());
     }
-    else
+    else if (buffer.resize(ifstream.gcount()); not buffer.empty())
     {
-      buffer.resize(ifstream.gcount());
       return make<u8vector>(buffer.data(), buffer.size());
     }
+    else
+    {
+      return eof_object;
+    }
   }
 
   auto binary_input_file_port::get_ready() const -> bool
@@ -62,9 +65,9 @@ namespace meevax::inline kernel
 
   auto binary_input_file_port::peek() -> object
   {
-    if (get_ready())
+    if (auto const c = ifstream.peek(); c != std::ifstream::traits_type::eof())
     {
-      return make<small_integer>(ifstream.peek());
+      return make<small_integer>(c);
     }
     else
     {
-- 
2.43.0


From d91c371da3f978f497a153ec827d74996199f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 30/81] fix: report closed string and bytevector ports as not
 open

---
 include/meevax/kernel/input_homogeneous_vector_port.hpp  | 8 ++++++--
 include/meevax/kernel/input_string_port.hpp              | 2 ++
 include/meevax/kernel/output_homogeneous_vector_port.hpp | 8 ++++++--
 include/meevax/kernel/output_string_port.hpp             | 2 ++
 src/kernel/input_string_port.cpp                         | 6 ++++--
 src/kernel/output_string_port.cpp                        | 6 ++++--
 6 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/meevax/kernel/input_homogeneous_vector_port.hpp b/include/meevax/kernel/input_homogeneous_vector_port.hpp
index a9bdab8..a436b1b 100644
--- a/include/meevax/kernel/input_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/input_homogeneous_vector_port.hpp
@@ -30,12 +30,16 @@ namespace meevax::inline kernel
   {
     std::deque<T> deque;
 
+    bool open = true;
+
     explicit input_homogeneous_vector_port(homogeneous_vector<T> const& v)
       : deque(std::begin(v.values), std::end(v.values))
     {}
 
     auto close() -> void override
-    {}
+    {
+      open = false;
+    }
 
     auto get() -> object override
     {
@@ -73,7 +77,7 @@ namespace meevax::inline kernel
 
     auto is_open() const -> bool override
     {
-      return true;
+      return open;
     }
 
     auto peek() -> object override
diff --git a/include/meevax/kernel/input_string_port.hpp b/include/meevax/kernel/input_string_port.hpp
index 6ae4486..83d1752 100644
--- a/include/meevax/kernel/input_string_port.hpp
+++ b/include/meevax/kernel/input_string_port.hpp
@@ -26,6 +26,8 @@ namespace meevax::inline kernel
   {
     std::istringstream istringstream;
 
+    bool open = true;
+
     explicit input_string_port(auto&&... xs)
       : istringstream { std::forward<decltype(xs)>(xs)... }
     {}
diff --git a/include/meevax/kernel/output_homogeneous_vector_port.hpp b/include/meevax/kernel/output_homogeneous_vector_port.hpp
index 02d4fd4..74cf47b 100644
--- a/include/meevax/kernel/output_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/output_homogeneous_vector_port.hpp
@@ -27,17 +27,21 @@ namespace meevax::inline kernel
   {
     std::vector<T> vector;
 
+    bool open = true;
+
     output_homogeneous_vector_port() = default;
 
     auto close() -> void override
-    {}
+    {
+      open = false;
+    }
 
     auto flush() -> void override
     {}
 
     auto is_open() const -> bool override
     {
-      return true;
+      return open;
     }
 
     auto put(std::uint8_t x) -> void override
diff --git a/include/meevax/kernel/output_string_port.hpp b/include/meevax/kernel/output_string_port.hpp
index dd8223b..372609a 100644
--- a/include/meevax/kernel/output_string_port.hpp
+++ b/include/meevax/kernel/output_string_port.hpp
@@ -26,6 +26,8 @@ namespace meevax::inline kernel
   {
     std::ostringstream ostringstream;
 
+    bool open = true;
+
     explicit output_string_port(auto&&... xs)
       : ostringstream { std::forward<decltype(xs)>(xs)... }
     {}
diff --git a/src/kernel/input_string_port.cpp b/src/kernel/input_string_port.cpp
index 8ada4da..d696f2f 100644
--- a/src/kernel/input_string_port.cpp
+++ b/src/kernel/input_string_port.cpp
@@ -20,11 +20,13 @@
 namespace meevax::inline kernel
 {
   auto input_string_port::close() -> void
-  {}
+  {
+    open = false;
+  }
 
   auto input_string_port::is_open() const -> bool
   {
-    return true;
+    return open;
   }
 
   auto input_string_port::istream() -> std::istream &
diff --git a/src/kernel/output_string_port.cpp b/src/kernel/output_string_port.cpp
index 47b9480..af7750f 100644
--- a/src/kernel/output_string_port.cpp
+++ b/src/kernel/output_string_port.cpp
@@ -20,11 +20,13 @@
 namespace meevax::inline kernel
 {
   auto output_string_port::close() -> void
-  {}
+  {
+    open = false;
+  }
 
   auto output_string_port::is_open() const -> bool
   {
-    return true;
+    return open;
   }
 
   output_string_port::operator std::ostream &()
-- 
2.43.0


From 78e6f90a7fbcb566778996a7dbe2abd9a8109da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 31/81] fix: do not pass non-ASCII code points to std::isprint

---
 src/kernel/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/string.cpp b/src/kernel/string.cpp
index 2ce1822..4ba1a1b 100644
--- a/src/kernel/string.cpp
+++ b/src/kernel/string.cpp
@@ -56,7 +56,7 @@ namespace meevax::inline kernel
   {
     auto put = [&](character const& c) -> decltype(auto)
     {
-      if (std::isprint(c.codepoint))
+      if (character::is_ascii(c) and std::isprint(c.codepoint))
       {
         switch (c.codepoint)
         {
-- 
2.43.0


From 3b91023f98ad08349148d171822df47a9fcd462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 32/81] fix: do not follow the tail of a dotted list in
 write-simple

---
 src/kernel/textual_output_port.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/textual_output_port.cpp b/src/kernel/textual_output_port.cpp
index 2b1c0ff..452fd3c 100644
--- a/src/kernel/textual_output_port.cpp
+++ b/src/kernel/textual_output_port.cpp
@@ -61,7 +61,7 @@ namespace meevax::inline kernel
 
           write_simple(rest);
 
-          os << magenta(")");
+          break;
         }
       }
 
-- 
2.43.0


From 19e8deb66fd3b249ca0ee237dfff37b9d92f1ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 33/81] fix: write symbols whose names look like numbers or a
 dot so that they are read back as symbols

---
 src/kernel/symbol.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/kernel/symbol.cpp b/src/kernel/symbol.cpp
index edfd965..6e433a4 100644
--- a/src/kernel/symbol.cpp
+++ b/src/kernel/symbol.cpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <meevax/kernel/collector.hpp>
 #include <meevax/kernel/error.hpp>
+#include <meevax/kernel/number.hpp>
 #include <meevax/kernel/string.hpp>
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/textual_input_port.hpp>
@@ -28,13 +29,44 @@ namespace meevax::inline kernel
     return a.name + b.name;
   }
 
+  auto is_confusable(std::string const& name) -> bool // Is it read as something other than a symbol?
+  {
+    switch (name.front())
+    {
+    case '+':
+    case '-':
+    case '.':
+    case '0':
+    case '1':
+    case '2':
+    case '3':
+    case '4':
+    case '5':
+    case '6':
+    case '7':
+    case '8':
+    case '9':
+      try
+      {
+        return name == "." or not make_number(name, 10).is<null>();
+      }
+      catch (std::invalid_argument const&)
+      {
+        return false;
+      }
+
+    default:
+      return false;
+    }
+  }
+
   auto operator <<(std::ostream & os, symbol const& datum) -> std::ostream &
   {
     if (datum.name.empty())
     {
       return os << "||";
     }
-    else if (std::find_if(datum.name.begin(), datum.name.end(), is_special_character) != datum.name.end())
+    else if (std::find_if(datum.name.begin(), datum.name.end(), is_special_character) != datum.name.end() or is_confusable(datum.name))
     {
       return os << cyan("#") << string(datum.name);
     }
-- 
2.43.0


From 17e7ca59ccefb43091def069fb3ca77168b69827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 34/81] fix: write pairs and vectors that contain themselves
 with datum labels

---
 include/meevax/kernel/datum_labels.hpp | 166 +++++++++++++++++++++++++
 src/kernel/pair.cpp                    |  75 ++---------
 src/kernel/vector.cpp                  |   8 ++
 3 files changed, 187 insertions(+), 62 deletions(-)
 create mode 100644 include/meevax/kernel/datum_labels.hpp

diff --git a/include/meevax/kernel/datum_labels.hpp b/include/meevax/kernel/datum_labels.hpp
new file mode 100644
index 0000000..914d987
--- /dev/null
+++ b/include/meevax/kernel/datum_labels.hpp
@@ -0,0 +1,166 @@
+/*
+   Copyright 2018-2025 Tatsuya Yamasaki.
+
+   Licensed under the Apache License, Version 2.0 (the "License");
+   you may not use this file except in compliance with the License.
+   You may obtain a copy of the License at
+
+       http://www.apache.org/licenses/LICENSE-2.0
+
+   Unless required by applicable law or agreed to in writing, software
+   distributed under the License is distributed on an "AS IS" BASIS,
+   WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+   See the License for the specific language governing permissions and
+   limitations under the License.
+*/
+
+#ifndef INCLUDED_MEEVAX_KERNEL_DATUM_LABELS_HPP
+#define INCLUDED_MEEVAX_KERNEL_DATUM_LABELS_HPP
+
+#include <algorithm>
+#include <unordered_map>
+
+#include <meevax/kernel/pair.hpp>
+#include <meevax/kernel/vector.hpp>
+
+namespace meevax::inline kernel
+{
+  /*
+     While a datum is written to a stream, datum_labels remembers which of its
+     pairs and vectors contain themselves, since only these need a label.
+  */
+  struct datum_labels
+  {
+    std::ostream & os;
+
+    auto static inline count_index = std::ios_base::xalloc();
+
+    auto static inline table_index = std::ios_base::xalloc();
+
+    struct table
+    {
+      std::unordered_map<void const*, std::size_t> labels {};
+
+      std::size_t size = 0;
+    };
+
+    template <typename T>
+    explicit datum_labels(std::ostream & os, T const& datum)
+      : os { os }
+    {
+      if (not os.iword(count_index)++)
+      {
+        os.pword(table_index) = new table();
+        scan(datum);
+      }
+    }
+
+    ~datum_labels()
+    {
+      if (not --os.iword(count_index))
+      {
+        delete static_cast<table *>(std::exchange(os.pword(table_index), nullptr));
+      }
+    }
+
+    auto current() const -> table &
+    {
+      return *static_cast<table *>(os.pword(table_index));
+    }
+
+    auto contains(void const* datum) const -> bool
+    {
+      return current().labels.contains(datum);
+    }
+
+    auto write(void const* datum) const -> bool // Returns true if the datum was written as a reference.
+    {
+      if (auto iter = current().labels.find(datum); iter == current().labels.end())
+      {
+        return false;
+      }
+      else if (iter->second)
+      {
+        os << magenta("#", iter->second, "#");
+        return true;
+      }
+      else
+      {
+        os << magenta("#", iter->second = ++current().size, "=");
+        return false;
+      }
+    }
+
+    template <typename T>
+    auto scan(T const& datum) const -> void
+    {
+      struct frame
+      {
+        void const* datum;
+
+        std::vector<object const*> unvisited;
+      };
+
+      auto is_open = std::unordered_map<void const*, bool>();
+
+      auto frames = std::vector<frame>();
+
+      auto open = [&](void const* datum, std::vector<object const*> elements)
+      {
+        if (auto [iter, success] = is_open.emplace(datum, true); success)
+        {
+          frames.push_back(frame { datum, std::move(elements) });
+        }
+        else if (iter->second)
+        {
+          current().labels.emplace(datum, 0);
+        }
+      };
+
+      auto visit = [&]<typename U>(U const& x)
+      {
+        if constexpr (std::is_same_v<U, pair>)
+        {
+          open(std::addressof(x), { std::addressof(x.second), std::addressof(x.first) });
+        }
+        else
+        {
+          auto elements = std::vector<object const*>();
+
+          for (auto const& element : x.objects)
+          {
+            elements.push_back(std::addressof(element));
+          }
+
+          open(std::addressof(x), std::move(elements));
+        }
+      };
+
+      for (visit(datum); not frames.empty(); )
+      {
+        if (auto & [datum, unvisited] = frames.back(); unvisited.empty())
+        {
+          is_open[datum] = false;
+          frames.pop_back();
+        }
+        else
+        {
+          auto const& x = *unvisited.back();
+
+          unvisited.pop_back();
+
+          if (x.template is<pair>())
+          {
+            visit(x.template as<pair>());
+          }
+          else if (x.template is<vector>())
+          {
+            visit(x.template as<vector>());
+          }
+        }
+      }
+    }
+  };
+} // namespace meevax::kernel
+
+#endif // INCLUDED_MEEVAX_KERNEL_DATUM_LABELS_HPP
diff --git a/src/kernel/pair.cpp b/src/kernel/pair.cpp
index 41a6bb8..34d1124 100644
--- a/src/kernel/pair.cpp
+++ b/src/kernel/pair.cpp
@@ -14,9 +14,8 @@
    limitations under the License.
 */
 
-#include <meevax/kernel/circular_list.hpp>
+#include <meevax/kernel/datum_labels.hpp>
 #include <meevax/kernel/list.hpp>
-#include <unordered_map>
 
 namespace meevax::inline kernel
 {
@@ -35,78 +34,30 @@ namespace meevax::inline kernel
     return o << static_cast<pair const&>(*this);
   }
 
-  struct datum_labels
+  auto operator <<(std::ostream & os, pair const& datum) -> std::ostream &
   {
-    std::ostream & os;
-
-    auto static inline count_index = std::ios_base::xalloc();
-
-    auto static inline table_index = std::ios_base::xalloc();
+    auto const labels = datum_labels(os, datum);
 
-    using table = std::unordered_map<pair const*, std::size_t>;
-
-    explicit datum_labels(std::ostream & os)
-      : os { os }
+    if (labels.write(&datum))
     {
-      if (not os.iword(count_index)++)
-      {
-        os.pword(table_index) = new table();
-      }
+      return os;
     }
 
-    ~datum_labels()
-    {
-      if (not --os.iword(count_index))
-      {
-        delete static_cast<table *>(std::exchange(os.pword(table_index), nullptr));
-      }
-    }
+    os << magenta("(") << datum.first;
 
-    auto static of(std::ostream & os)
+    for (let xs = datum.second; not xs.is<null>(); xs = cdr(xs))
     {
-      return static_cast<table *>(os.pword(table_index));
-    }
-  };
-
-  auto operator <<(std::ostream & os, pair const& datum) -> std::ostream &
-  {
-    auto _ = datum_labels(os);
-
-    if (is_circular_list(datum.second))
-    {
-      if (auto [iterator, success] = datum_labels::of(os)->emplace(&datum, datum_labels::of(os)->size() + 1); success)
+      if (xs.is<pair>() and not labels.contains(xs.get()))
       {
-        os << magenta("#", iterator->second, "=(");
-
-        for (auto&& x : datum | as_circular_list)
-        {
-          os << x << " ";
-        }
-
-        return os << magenta(". #", iterator->second, "#)");
+        os << " " << car(xs);
       }
-      else
+      else // xs is the last element of dotted-list.
       {
-        return os << magenta("#", iterator->second, "#");
+        os << magenta(" . ") << xs;
+        break;
       }
     }
-    else
-    {
-      os << magenta("(") << datum.first;
 
-      for (let xs = datum.second; not xs.is<null>(); xs = cdr(xs))
-      {
-        if (xs.is<pair>())
-        {
-          os << " " << car(xs);
-        }
-        else // xs is the last element of dotted-list.
-        {
-          return os << magenta(" . ") << xs << magenta(")");
-        }
-      }
-
-      return os << magenta(")");
-    }
+    return os << magenta(")");
   }
 } // namespace meevax::kernel
diff --git a/src/kernel/vector.cpp b/src/kernel/vector.cpp
index 8d0de4c..f8c8103 100644
--- a/src/kernel/vector.cpp
+++ b/src/kernel/vector.cpp
@@ -17,6 +17,7 @@
 #include <numeric>
 
 #include <meevax/kernel/comparator.hpp>
+#include <meevax/kernel/datum_labels.hpp>
 #include <meevax/kernel/vector.hpp>
 
 namespace meevax::inline kernel
@@ -28,6 +29,13 @@ namespace meevax::inline kernel
 
   auto operator <<(std::ostream & output, heterogeneous_vector const& datum) -> std::ostream &
   {
+    auto const labels = datum_labels(output, datum);
+
+    if (labels.write(&datum))
+    {
+      return output;
+    }
+
     output << magenta("#(");
 
     auto whitespace = "";
-- 
2.43.0


From dd2a455f5e4318e1b2d04d36029bf7482b67d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 35/81] fix: do not grow the native stack for each error raised
 by a primitive procedure

---
 src/kernel/dynamic_environment.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/kernel/dynamic_environment.cpp b/src/kernel/dynamic_environment.cpp
index d2c04e3..7224498 100644
--- a/src/kernel/dynamic_environment.cpp
+++ b/src/kernel/dynamic_environment.cpp
@@ -49,7 +49,7 @@ namespace meevax::inline kernel
     assert(last(c).template is<instruction>());
     assert(last(c).template as<instruction>() == instruction::secd_stop);
 
-    try
+    while (true) try
     {
     fetch:
       assert(c);
@@ -474,7 +474,11 @@ namespace meevax::inline kernel
     {
       if (exception_handler)
       {
-        return apply(exception_handler, list(thrown.make()));
+        s = list(exception_handler, list(thrown.make()));
+        e = nullptr;
+        c = list(make<instruction>(instruction::secd_call),
+                 make<instruction>(instruction::secd_stop));
+        d = nullptr;
       }
       else // In most cases, this clause will never be called.
       {
@@ -486,7 +490,11 @@ namespace meevax::inline kernel
     {
       if (auto thrown = error(make<string>(exception.what()), unit); exception_handler)
       {
-        return apply(exception_handler, list(thrown.make()));
+        s = list(exception_handler, list(thrown.make()));
+        e = nullptr;
+        c = list(make<instruction>(instruction::secd_call),
+                 make<instruction>(instruction::secd_stop));
+        d = nullptr;
       }
       else // In most cases, this clause will never be called.
       {
-- 
2.43.0


From 8951a05a8d0c5074a00456bf1564c8d309d9d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 36/81] fix: raise an error when dividing by zero that is
 represented as a large integer

---
 src/kernel/number.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 280dc3b..293ffd2 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -318,9 +318,9 @@ namespace meevax::inline kernel
 
   static auto check_divisor = []<typename T, typename U>(T const&, [[maybe_unused]] U const& y)
   {
-    if constexpr (std::is_same_v<U, widen_integer> and not std::is_floating_point_v<T> and not std::is_same_v<T, complex>)
+    if constexpr ((std::is_same_v<U, widen_integer> or std::is_same_v<U, large_integer>) and not std::is_floating_point_v<T> and not std::is_same_v<T, complex>)
     {
-      if (y == 0)
+      if (y == widen_integer(0))
       {
         throw error(make<string>("division by zero"), unit);
       }
-- 
2.43.0


From ddaebd85fb3fcbdb634eb812362821463ddfb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 37/81] fix: make exact quotients of small integers that are
 integers eqv? to those integers

---
 src/kernel/number.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 293ffd2..496b857 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -337,8 +337,8 @@ namespace meevax::inline kernel
                     std::is_same_v<U, widen_integer>)
       {
         check_divisor(x, y);
-        return make<ratio>(large_integer(x),
-                           large_integer(y));
+        return ratio(large_integer(x),
+                     large_integer(y));
       }
       else
       {
-- 
2.43.0


From 799afd3816f643a9baadc400fd6fb9e9c4b2f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 38/81] fix: return the absolute value from gcd and lcm of a
 single argument

---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index af88be6..912a175 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -213,8 +213,8 @@ namespace meevax::inline kernel
       { "quotient",                      [](let const& xs) { return quotient(car(xs), cadr(xs)); } },
       { "remainder",                     [](let const& xs) { return remainder(car(xs), cadr(xs)); } },
       { "modulo",                        [](let const& xs) { return modulo(car(xs), cadr(xs)); } },
-      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
-      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
+      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
+      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
       { "numerator",                     [](let const& xs) { return numerator(car(xs)); } },
       { "denominator",                   [](let const& xs) { return denominator(car(xs)); } },
       { "floor",                         [](let const& xs) { return floor(car(xs)); } },
-- 
2.43.0


From cdc74e7c9a8cdd10c3b39dfd63163eaef8ea1cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 39/81] fix: convert large integers and ratios to the nearest
 flonum

---
 include/meevax/kernel/large_integer.hpp |  4 +-
 include/meevax/kernel/ratio.hpp         |  2 +-
 src/kernel/large_integer.cpp            | 60 +++++++++++++++++++++++++
 3 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/large_integer.hpp b/include/meevax/kernel/large_integer.hpp
index 0ed1333..b9d948f 100644
--- a/include/meevax/kernel/large_integer.hpp
+++ b/include/meevax/kernel/large_integer.hpp
@@ -25,6 +25,8 @@
 
 namespace meevax::inline kernel
 {
+  auto nearest_double(mpz_srcptr n, mpz_srcptr d) -> double; // GMP's conversions to double truncate.
+
   struct large_integer
   {
     mpz_t value;
@@ -71,7 +73,7 @@ namespace meevax::inline kernel
     {
       if constexpr (std::is_floating_point_v<T>)
       {
-        return mpz_get_d(value);
+        return nearest_double(value, nullptr);
       }
       else if constexpr (std::is_signed_v<T>)
       {
diff --git a/include/meevax/kernel/ratio.hpp b/include/meevax/kernel/ratio.hpp
index 03daa0e..bdd52b0 100644
--- a/include/meevax/kernel/ratio.hpp
+++ b/include/meevax/kernel/ratio.hpp
@@ -50,7 +50,7 @@ namespace meevax::inline kernel
     template <typename T>
     explicit operator T() const
     {
-      return mpq_get_d(value);
+      return nearest_double(mpq_numref(value), mpq_denref(value));
     }
   };
 
diff --git a/src/kernel/large_integer.cpp b/src/kernel/large_integer.cpp
index b2df3d4..97a5c18 100644
--- a/src/kernel/large_integer.cpp
+++ b/src/kernel/large_integer.cpp
@@ -14,6 +14,9 @@
    limitations under the License.
 */
 
+#include <algorithm> // std::max, std::min
+#include <bit> // std::bit_width
+#include <cmath> // std::ldexp
 #include <cstring> // std::strlen
 #include <memory> // std::unique_ptr
 
@@ -26,6 +29,63 @@ namespace meevax::inline kernel
   let const e0 = make<small_integer>(0);
   let const e1 = make<small_integer>(1);
 
+  auto nearest_double(mpz_srcptr n, mpz_srcptr d) -> double
+  {
+    if (mpz_sgn(n) == 0)
+    {
+      return 0;
+    }
+
+    auto bits = [](mpz_srcptr z)
+    {
+      return static_cast<long>(mpz_sizeinbase(z, 2));
+    };
+
+    // The quotient below has 55 or 56 bits, or less if the result is subnormal.
+    auto const shift = std::min(55 - bits(n) + (d ? bits(d) : 1), 1076l);
+
+    large_integer numerator, denominator, remainder;
+
+    mpz_abs(numerator.value, n);
+
+    if (d)
+    {
+      mpz_set(denominator.value, d);
+    }
+    else
+    {
+      mpz_set_ui(denominator.value, 1);
+    }
+
+    if (0 < shift)
+    {
+      mpz_mul_2exp(numerator.value, numerator.value, shift);
+    }
+    else
+    {
+      mpz_mul_2exp(denominator.value, denominator.value, -shift);
+    }
+
+    mpz_tdiv_qr(numerator.value, remainder.value, numerator.value, denominator.value);
+
+    auto const quotient = mpz_get_ui(numerator.value) | (mpz_sgn(remainder.value) != 0);
+
+    auto const excess = std::max(static_cast<long>(std::bit_width(quotient)) - 53, std::max(shift - 1074, 1l));
+
+    auto const lower = quotient & ((1ul << excess) - 1);
+
+    auto upper = quotient >> excess;
+
+    if (auto const half = 1ul << (excess - 1); half < lower or (half == lower and upper % 2 == 1))
+    {
+      ++upper;
+    }
+
+    auto const magnitude = std::ldexp(static_cast<double>(upper), static_cast<int>(std::min(excess - shift, 2000l)));
+
+    return mpz_sgn(n) < 0 ? -magnitude : magnitude;
+  }
+
   large_integer::large_integer() noexcept
   {
     mpz_init(value);
-- 
2.43.0


From b86e48ca30fc70236dfbda4c767fb773a7338164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 40/81] fix: read a radix prefix followed by an exactness
 prefix

---
 src/kernel/textual_input_port.cpp | 63 +++++++++++++++----------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 64b6970..ec2a17e 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -366,6 +366,33 @@ namespace meevax::inline kernel
       return token.utf8();
     };
 
+    auto take_number = [&](int radix) -> object
+    {
+      if (auto c = take_character(); c == '#')
+      {
+        auto const exactness = take_character();
+
+        let const number = to_number(take_token(take_character()), radix);
+
+        switch (exactness)
+        {
+        case 'e':
+          return number::exact(number);
+
+        case 'i':
+          return number::inexact(number);
+
+        default:
+          throw read_error(make<string>("malformed number"),
+                           make<string>(lexical_cast('#', exactness, number)));
+        }
+      }
+      else
+      {
+        return to_number(take_token(c), radix);
+      }
+    };
+
     while (get_ready())
     {
       switch (auto const c1 = c0 ? std::exchange(c0, character()) : take_character())
@@ -466,24 +493,10 @@ namespace meevax::inline kernel
           }
 
         case 'b':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return to_number(lexical_cast(complete(read())), 2);
-
-          default:
-            return to_number(take_token(c3), 2);
-          }
+          return take_number(2);
 
         case 'd':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return to_number(lexical_cast(complete(read())), 10);
-
-          default:
-            return to_number(take_token(c3), 10);
-          }
+          return take_number(10);
 
         case 'e':
           return number::exact(complete(read())); // NOTE: Same as #,(exact (read))
@@ -506,14 +519,7 @@ namespace meevax::inline kernel
           return number::inexact(complete(read())); // NOTE: Same as #,(inexact (read))
 
         case 'o':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return to_number(lexical_cast(complete(read())), 8);
-
-          default:
-            return to_number(take_token(c3), 8);
-          }
+          return take_number(8);
 
         case 's':
           switch (auto n = take_character_while(is_digit); to_width(n))
@@ -560,14 +566,7 @@ namespace meevax::inline kernel
           }
 
         case 'x':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return to_number(lexical_cast(complete(read())), 16);
-
-          default:
-            return to_number(take_token(c3), 16);
-          }
+          return take_number(16);
 
         case '(':
           return make<vector>(read_element(c2) | as_proper_list);
-- 
2.43.0


From 4b07ac26049d4e350edfc4c43b6d38154b4bb77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 41/81] fix: accept upper case letters after the number sign

---
 src/kernel/textual_input_port.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index ec2a17e..6d18e14 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -376,9 +376,11 @@ namespace meevax::inline kernel
 
         switch (exactness)
         {
+        case 'E':
         case 'e':
           return number::exact(number);
 
+        case 'I':
         case 'i':
           return number::inexact(number);
 
@@ -492,15 +494,19 @@ namespace meevax::inline kernel
             }
           }
 
+        case 'B':
         case 'b':
           return take_number(2);
 
+        case 'D':
         case 'd':
           return take_number(10);
 
+        case 'E':
         case 'e':
           return number::exact(complete(read())); // NOTE: Same as #,(exact (read))
 
+        case 'F':
         case 'f':
           switch (to_width(take_character_while(is_digit)))
           {
@@ -515,12 +521,15 @@ namespace meevax::inline kernel
             return f;
           }
 
+        case 'I':
         case 'i':
           return number::inexact(complete(read())); // NOTE: Same as #,(inexact (read))
 
+        case 'O':
         case 'o':
           return take_number(8);
 
+        case 'S':
         case 's':
           switch (auto n = take_character_while(is_digit); to_width(n))
           {
@@ -541,10 +550,12 @@ namespace meevax::inline kernel
                              make<string>(lexical_cast(c1, c2, n)));
           }
 
+        case 'T':
         case 't':
           take_token(c2);
           return t;
 
+        case 'U':
         case 'u':
           switch (auto const n = take_character_while(is_digit); to_width(n))
           {
@@ -565,6 +576,7 @@ namespace meevax::inline kernel
                              make<string>(lexical_cast(c1, c2, n)));
           }
 
+        case 'X':
         case 'x':
           return take_number(16);
 
-- 
2.43.0


From 7ef6147cb225e0c2228dcec91b99e6c6239e3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 42/81] fix: do not accept decimals in radices other than ten

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 496b857..0882516 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -444,7 +444,7 @@ namespace meevax::inline kernel
       {
         return make<double>(iter->second);
       }
-      else if (auto result = std::smatch(); std::regex_match(literal, result, pattern))
+      else if (auto result = std::smatch(); radix == 10 and std::regex_match(literal, result, pattern))
       {
         /*
            R7RS 6.2.5. Syntax of numerical constants
-- 
2.43.0


From f527078593960b10b8c66393acd7ae27d401f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 43/81] fix: do not ignore white space inside numerals of large
 integers

---
 src/kernel/large_integer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/large_integer.cpp b/src/kernel/large_integer.cpp
index 97a5c18..89e7ecc 100644
--- a/src/kernel/large_integer.cpp
+++ b/src/kernel/large_integer.cpp
@@ -114,7 +114,7 @@ namespace meevax::inline kernel
 
   large_integer::large_integer(std::string const& s, int radix)
   {
-    if (mpz_init_set_str(value, (s.at(0) == '+' ? s.substr(1) : s).c_str(), radix))
+    if (mpz_init_set_str(value, (s.at(0) == '+' ? s.substr(1) : s).c_str(), radix) or s.find_first_of(" \f\n\r\t\v") != std::string::npos)
     {
       mpz_clear(value);
       throw std::invalid_argument("not an exact-integer");
-- 
2.43.0


From 59666c1044cb669251e4e7aa642fa094d0d572bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 44/81] fix: do not accept a sign in the denominator of a ratio

---
 src/kernel/ratio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 3ec130f..504bcbd 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -67,7 +67,7 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); token.find_first_of(" \f\n\r\t\v") != std::string::npos or mpq_set_str(value, token.c_str() + (1 < token.size() and token[0] == '+' and token[1] != '-'), radix) or mpz_sgn(mpq_denref(value)) == 0)
+    if (mpq_init(value); token.find_first_of(" \f\n\r\t\v") != std::string::npos or token.find("/-") != std::string::npos or mpq_set_str(value, token.c_str() + (1 < token.size() and token[0] == '+' and token[1] != '-'), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From 29c43f0227ae4974ae5ff373e15933f7ce3bbd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 45/81] fix: do not split complex literals at the sign of an
 exponent

---
 src/kernel/complex.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kernel/complex.cpp b/src/kernel/complex.cpp
index 22e8df4..7bfa562 100644
--- a/src/kernel/complex.cpp
+++ b/src/kernel/complex.cpp
@@ -27,9 +27,12 @@ namespace meevax::inline kernel
   {
     std::regex static const rectangular { R"(([+-]?.*)([+-].*)i)" };
 
+    // In radix ten, a sign that follows an exponent marker does not begin the imaginary part.
+    std::regex static const decimal_rectangular { R"((.*[^eE]|)([+-].*)i)" };
+
     std::regex static const polar { R"(([+-]?.*)@([+-]?.*))" };
 
-    if (std::smatch result; std::regex_match(token, result, rectangular))
+    if (std::smatch result; std::regex_match(token, result, radix == 10 ? decimal_rectangular : rectangular))
     {
       std::get<0>(*this) = make_real(result[1].length() == 0 ?                 "0" : result.str(1), radix);
       std::get<1>(*this) = make_real(result[2].length() == 1 ? result.str(2) + "1" : result.str(2), radix);
-- 
2.43.0


From 4e2efdf9d78cb3324ab33776700b305309f7e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 46/81] fix: do not ignore what follows a null character in a
 numeral

---
 src/kernel/large_integer.cpp | 2 +-
 src/kernel/ratio.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/large_integer.cpp b/src/kernel/large_integer.cpp
index 89e7ecc..4e2207f 100644
--- a/src/kernel/large_integer.cpp
+++ b/src/kernel/large_integer.cpp
@@ -114,7 +114,7 @@ namespace meevax::inline kernel
 
   large_integer::large_integer(std::string const& s, int radix)
   {
-    if (mpz_init_set_str(value, (s.at(0) == '+' ? s.substr(1) : s).c_str(), radix) or s.find_first_of(" \f\n\r\t\v") != std::string::npos)
+    if (mpz_init_set_str(value, (s.at(0) == '+' ? s.substr(1) : s).c_str(), radix) or s.find_first_of(" \f\n\r\t\v\0", 0, 7) != std::string::npos)
     {
       mpz_clear(value);
       throw std::invalid_argument("not an exact-integer");
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 504bcbd..5e7ced7 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -67,7 +67,7 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); token.find_first_of(" \f\n\r\t\v") != std::string::npos or token.find("/-") != std::string::npos or mpq_set_str(value, token.c_str() + (1 < token.size() and token[0] == '+' and token[1] != '-'), radix) or mpz_sgn(mpq_denref(value)) == 0)
+    if (mpq_init(value); token.find_first_of(" \f\n\r\t\v\0", 0, 7) != std::string::npos or token.find("/-") != std::string::npos or mpq_set_str(value, token.c_str() + (1 < token.size() and token[0] == '+' and token[1] != '-'), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From 15ede093c0c5af784e8e6e71aac4b081630d3827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 47/81] fix: raise the secondary exception in the dynamic
 environment of the handler

---
 library/srfi-34.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-34.ss b/library/srfi-34.ss
index 19cf15a..8f71a7a 100644
--- a/library/srfi-34.ss
+++ b/library/srfi-34.ss
@@ -52,7 +52,7 @@
                      (if (procedure? inner)
                          (inner x)
                          (throw x))
-                     (throw x))))
+                     (raise x))))
                (throw x)))
 
          (define (raise-continuable x)
-- 
2.43.0


From c79687a1aa6228c0e58949ab4f36d89ae449deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 48/81] fix: evaluate the initial values of a named let outside
 of the scope of its name

---
 library/r4rs.ss | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/library/r4rs.ss b/library/r4rs.ss
index f607d3e..2bc2958 100644
--- a/library/r4rs.ss
+++ b/library/r4rs.ss
@@ -188,9 +188,10 @@
            (er-macro-transformer
              (lambda (form rename compare)
                (if (identifier? (cadr form))
-                   `(,(rename 'letrec) ((,(cadr form)
-                                          (,(rename 'lambda) ,(map car (caddr form)) ,@(cdddr form))))
-                                       (,(cadr form) ,@(map cadr (caddr form))))
+                   `((,(rename 'letrec) ((,(cadr form)
+                                           (,(rename 'lambda) ,(map car (caddr form)) ,@(cdddr form))))
+                                        ,(cadr form))
+                     ,@(map cadr (caddr form)))
                    `((,(rename 'lambda) ,(map car (cadr form)) ,@(cddr form))
                      ,@(map cadr (cadr form)))))))
 
-- 
2.43.0


From 91c029855aae2fb1ba6e5c4cb41c6eeb0d30a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 49/81] fix: rename formals that shadow variadic formals in the
 alpha-conversion

---
 src/kernel/syntactic_closure.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index 62c319c..b4a9408 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -62,10 +62,20 @@ namespace meevax::inline kernel
     {
       assert(form.is_also<identifier>() or form.is<macro>() or form.is<null>());
 
-      if (form.is<symbol>() and std::ranges::any_of(bound_variables | as_proper_list, [&](let const& formals)
-                                                    {
-                                                      return memq(form, formals) != f; // TODO variadic arguments
-                                                    }))
+      auto is_bound_by = [&](let formals)
+      {
+        for (; formals.is<pair>(); formals = cdr(formals))
+        {
+          if (eq(car(formals), form))
+          {
+            return true;
+          }
+        }
+
+        return eq(formals, form);
+      };
+
+      if (form.is<symbol>() and std::ranges::any_of(bound_variables | as_proper_list, is_bound_by))
       {
         return make_syntactic_closure(form, length(bound_variables));
       }
-- 
2.43.0


From 5af500cb0dc0034d10dc2b18a6a362ea44223e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 50/81] fix: resolve a macro expansion that is a shadowing
 variable to that variable

---
 src/kernel/syntactic_environment.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 5ba72f1..0438cee 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -55,7 +55,14 @@ namespace meevax::inline kernel
   {
     if (not form.is<pair>())
     {
-      if (form.is<syntactic_closure>() and identify(form, bound_variables) == f)
+      auto is_renamed = [&](auto const& closure) // by the innermost scope in which the closure was made
+      {
+        let const& renaming = assq(closure.form, alpha.dictionary);
+        return eq(closure.syntactic_environment.template as<syntactic_environment>().first, bound_variables) and
+               renaming != f and 0 < cdr(renaming).template as<syntactic_closure>().de_bruijn_level;
+      };
+
+      if (form.is<syntactic_closure>() and (is_renamed(form.as<syntactic_closure>()) or identify(form, bound_variables) == f))
       {
         return form.as<syntactic_closure>().expand(bound_variables, alpha);
       }
-- 
2.43.0


From 365442d650f87d63dfee22a2a556f208602c9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 51/81] fix: do not expand definitions and expressions of a
 body before its variables are known

---
 src/kernel/syntactic_environment.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 0438cee..be18f74 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -227,7 +227,20 @@ namespace meevax::inline kernel
 
     if (sequence.is<pair>())
     {
-      if (car(sequence).is<syntactic_closure>() and identify(car(sequence), car(current_environment)) == f)
+      if (car(sequence).is<syntactic_closure>() and
+          car(sequence).as<syntactic_closure>().form.is<pair>() and
+          eq(car(sequence).as<syntactic_closure>().syntactic_environment, current_environment))
+      {
+        return sweep(form,
+                     cons(car(sequence).as<syntactic_closure>().form,
+                          cdr(sequence)),
+                     bound_variables,
+                     current_environment,
+                     alpha,
+                     formals,
+                     reversed_binding_specs);
+      }
+      else if (car(sequence).is<syntactic_closure>() and identify(car(sequence), car(current_environment)) == f)
       {
         return sweep(form,
                      cons(car(sequence).as<syntactic_closure>().expand(car(current_environment), alpha),
-- 
2.43.0


From db31bfb5ddea7181938eb571817e5965617e6ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 52/81] fix: rename the variables of letrec that shadow others
 consistently

---
 src/kernel/expander.cpp | 46 +++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index f043d3c..42a6d04 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -189,22 +189,36 @@ namespace meevax::inline kernel
 
   EXPANDER(expander::letrec)
   {
-    let const extended_bound_variables = cons(alpha.convert_formals(map(car, cadr(form)), bound_variables),
-                                              bound_variables);
-
-    return cons(car(form),
-                map([&](let const& binding)
-                    {
-                      return list(car(binding),
-                                  expander.expand(cadr(binding),
-                                                  extended_bound_variables,
-                                                  alpha));
-                    },
-                    cadr(form)),
-                body(expander,
-                     cddr(form),
-                     extended_bound_variables,
-                     alpha));
+    auto scoped_alpha = alpha;
+
+    let const variables = scoped_alpha.convert_formals(map(car, cadr(form)), bound_variables);
+
+    let const extended_bound_variables = cons(variables, bound_variables);
+
+    auto convert_bindings = [&](auto const& convert_bindings, let const& variables, let const& bindings) -> object
+    {
+      if (bindings.is<pair>())
+      {
+        return cons(list(car(variables),
+                         expander.expand(cadar(bindings),
+                                         extended_bound_variables,
+                                         scoped_alpha)),
+                    convert_bindings(convert_bindings,
+                                     cdr(variables),
+                                     cdr(bindings)));
+      }
+      else
+      {
+        return unit;
+      }
+    };
+
+    return cons(alpha.convert(car(form)),
+                cons(convert_bindings(convert_bindings, variables, cadr(form)),
+                     body(expander,
+                          cddr(form),
+                          extended_bound_variables,
+                          scoped_alpha)));
   }
 
   EXPANDER(expander::sequence)
-- 
2.43.0


From 02d65b4a5da78669fbc318d6e6f50de63fa2fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 53/81] fix: look up a renamed operator among the bound
 variables before taking it for a keyword

---
 src/kernel/syntactic_environment.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index be18f74..7e43c75 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -75,9 +75,7 @@ namespace meevax::inline kernel
     {
       let const identifier = alpha.convert(car(form));
 
-      if (let const& identity = identifier.is<syntactic_closure>() ? identifier.as<syntactic_closure>().identify(bound_variables)
-                                                                   : identify(car(form), bound_variables);
-          identity.is_also<absolute>())
+      if (let const& identity = identify(identifier, bound_variables); identity.is_also<absolute>())
       {
         if (let const& value = cdr(identity); value.is<transformer>())
         {
-- 
2.43.0


From ae8d102b561b3995b19fb7fe21b33942fa984965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 54/81] fix: hide outer renaming when inner scope binds the
 same name

---
 src/kernel/syntactic_closure.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index b4a9408..91d0066 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -81,6 +81,11 @@ namespace meevax::inline kernel
       }
       else
       {
+        if (let const& name = form.is<macro>() ? car(form) : form; assq(name, dictionary) != f)
+        {
+          dictionary = alist_cons(name, name, dictionary); // Hide the renaming of the outer scope.
+        }
+
         return form;
       }
     };
-- 
2.43.0


From e3e8ec27e94f8e2fa69bddf96810cab64984341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 55/81] fix: let inner syntax definition shadow outer one in
 internal definitions

---
 src/kernel/syntactic_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 7e43c75..1443ec1 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -251,7 +251,7 @@ namespace meevax::inline kernel
       }
       else if (car(sequence).is<pair>() and caar(sequence).is_also<identifier>())
       {
-        if (let const& identity = identify(caar(sequence), bound_variables); identity.is_also<absolute>())
+        if (let const& identity = identify(caar(sequence), car(current_environment)); identity.is_also<absolute>())
         {
           if (let const& value = cdr(identity); value.is<transformer>())
           {
-- 
2.43.0


From 30f3989f5ec6161b7a8c1ab1f09bf35702783d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 56/81] fix: strip syntactic closures from quoted compound
 datum

---
 src/kernel/generator.cpp | 58 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 54869fb..b3375db 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -14,11 +14,15 @@
    limitations under the License.
 */
 
+#include <algorithm>
+#include <unordered_set>
+
 #include <meevax/iostream/lexical_cast.hpp>
 #include <meevax/kernel/environment.hpp>
 #include <meevax/kernel/generator.hpp>
 #include <meevax/kernel/identity.hpp>
 #include <meevax/kernel/transformer.hpp>
+#include <meevax/kernel/vector.hpp>
 
 namespace meevax::inline kernel
 {
@@ -29,10 +33,60 @@ namespace meevax::inline kernel
             [[maybe_unused]] object const& continuation,                       \
             [[maybe_unused]] bool tail) -> object
 
+  static auto contains_syntactic_closure(object datum, std::unordered_set<object> & visited) -> bool
+  {
+    for (; datum.is<pair>() and visited.insert(datum).second; datum = cdr(datum))
+    {
+      if (contains_syntactic_closure(car(datum), visited))
+      {
+        return true;
+      }
+    }
+
+    if (datum.is<vector>() and visited.insert(datum).second)
+    {
+      return std::ranges::any_of(datum.as<vector>().objects, [&](let const& x)
+             {
+               return contains_syntactic_closure(x, visited);
+             });
+    }
+    else
+    {
+      return datum.is<syntactic_closure>();
+    }
+  }
+
+  static auto strip(object const& datum) -> object
+  {
+    if (auto visited = std::unordered_set<object>(); not contains_syntactic_closure(datum, visited))
+    {
+      return datum;
+    }
+    else if (datum.is<pair>())
+    {
+      return cons(strip(car(datum)),
+                  strip(cdr(datum)));
+    }
+    else if (datum.is<vector>())
+    {
+      let v = make<vector>();
+
+      for (let const& x : datum.as<vector>().objects)
+      {
+        v.as<vector>().objects.push_back(strip(x));
+      }
+
+      return v;
+    }
+    else
+    {
+      return strip(datum.as<syntactic_closure>().form);
+    }
+  }
+
   GENERATOR(generator::quote)
   {
-    return cons(make<instruction>(instruction::secd_load_constant), car(form).is<syntactic_closure>() ? car(form).as<syntactic_closure>().form
-                                                                                                      : car(form),
+    return cons(make<instruction>(instruction::secd_load_constant), strip(car(form)),
                 continuation);
   }
 
-- 
2.43.0


From 45a6e72ee1452af5e704af083af19682e70ec356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 57/81] fix: resolve a free identifier of a macro among renamed
 bindings too

---
 src/kernel/syntactic_closure.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index 91d0066..aed744d 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -136,9 +136,23 @@ namespace meevax::inline kernel
 
   auto syntactic_closure::identify(let const& bound_variables) -> object
   {
+    auto restore = [](auto const& restore, let const& formals) -> object // the names before α-conversion
+    {
+      if (formals.is<pair>())
+      {
+        return cons(restore(restore, car(formals)),
+                    restore(restore, cdr(formals)));
+      }
+      else
+      {
+        return formals.is<syntactic_closure>() and 0 < formals.as<syntactic_closure>().de_bruijn_level ? formals.as<syntactic_closure>().form
+                                                                                                      : formals;
+      }
+    };
+
     auto identify = [&]()
     {
-      let xs = syntactic_environment.as<struct syntactic_environment>().first;
+      let xs = restore(restore, syntactic_environment.as<struct syntactic_environment>().first);
 
       for (auto offset = length(bound_variables) - length(xs); 0 < offset; --offset)
       {
-- 
2.43.0


From 9177ef95f95d80dd4ee2bffa30d8c7c99b48f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 58/81] fix: match literals and underscore followed by ellipsis
 in syntax-rules patterns

---
 library/srfi-149.ss | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index aae4b25..7d61cb4 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -144,7 +144,9 @@
                                                                    (,_cons3 (,_car ,_ls)
                                                                             ,_res
                                                                             ,_ls))))))))))
-                          ((identifier? (car p))
+                          ((and (identifier? (car p))
+                                (not (compare (car p) _underscore))
+                                (not (any (lambda (l) (compare (car p) l)) lits)))
                            (list _and (list _list? v)
                                  (list _let (list (list (car p) v))
                                        (k (cons (cons (car p) (+ 1 dim)) vars)))))
@@ -209,7 +211,8 @@
              (define (all-vars x dim)
                (let lp ((x x) (dim dim) (vars '()))
                  (cond ((identifier? x)
-                        (if (any (lambda (lit) (compare x lit)) lits)
+                        (if (or (compare x _underscore)
+                                (any (lambda (lit) (compare x lit)) lits))
                             vars
                             (cons (cons x dim) vars)))
                        ((ellipsis? x) (lp (car x) (+ dim 1) (lp (cddr x) dim vars)))
-- 
2.43.0


From 46f0b67378348812a102b3d4e0bebf2324f335b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 59/81] fix: distribute all levels of a subtemplate followed by
 several ellipses

---
 library/srfi-149.ss | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index 7d61cb4..96c8447 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -271,7 +271,11 @@
                                                           ell-vars))))
                                     (many (do ((d depth (- d 1))
                                                (many nest
-                                                     (list _apply _append many)))
+                                                     (list _apply
+                                                           _append
+                                                           (cons _map
+                                                                 (cons (list _lambda ell-vars many)
+                                                                       ell-vars)))))
                                             ((= d 1) many))))
                                (if (null? (ellipsis-tail t))
                                    many ;; shortcut
-- 
2.43.0


From 18c059ef385b9eb7eed30af9b200c79b1bf5dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 60/81] fix: strip syntactic closures from self-evaluating
 vector literal

---
 src/kernel/syntactic_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 1443ec1..03e6f87 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -118,7 +118,7 @@ namespace meevax::inline kernel
       }
       else // is <self-evaluating>
       {
-        return cons(make<instruction>(instruction::secd_load_constant), form, continuation);
+        return generator::quote(*this, list(form), bound_variables, continuation);
       }
     }
     else if (car(form).is_also<identifier>())
-- 
2.43.0


From 5ed09d3005ed9211e35c2fbf22f6e18c6ed9741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 61/81] fix: do not bind identifiers by comparing them

---
 src/kernel/syntactic_closure.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index aed744d..abcec8e 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -184,10 +184,23 @@ namespace meevax::inline kernel
        cond clause. A macro definition for syntax-rules would use
        free-identifier=? to look for literals in the input.
     */
+    auto identify = [](syntactic_closure const& closure) -> object
+    {
+      auto const& environment = closure.syntactic_environment.as<struct syntactic_environment>();
+
+      if (let const& identity = std::as_const(environment).identify(closure.form, environment.first); identity != f)
+      {
+        return identity;
+      }
+      else
+      {
+        return make<absolute>(closure.form, undefined); // Do not let the comparison bind the identifier.
+      }
+    };
+
     return x.form.template is_also<identifier>() and
            y.form.template is_also<identifier>() and
-           eqv(x.syntactic_environment.as<struct syntactic_environment>().identify(x.form, x.syntactic_environment.as<struct syntactic_environment>().first),
-               y.syntactic_environment.as<struct syntactic_environment>().identify(y.form, y.syntactic_environment.as<struct syntactic_environment>().first));
+           eqv(identify(x), identify(y));
   }
 
   auto operator <<(std::ostream & os, syntactic_closure const& datum) -> std::ostream &
-- 
2.43.0


From da66e505d507b47c28c58e52c692295ca056411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 62/81] fix: resolve an alias of a variable not yet defined to
 that variable

---
 src/kernel/syntactic_environment.cpp | 29 +++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 03e6f87..46405b4 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -199,9 +199,30 @@ namespace meevax::inline kernel
          <variable> to a new location before performing the assignment, whereas
          it would be an error to perform a set! on an unbound variable.
       */
-      assert(not variable.is<syntactic_closure>());
+      if (variable.is<syntactic_closure>()) // is an alias of an unbound variable
+      {
+        return variable.as<syntactic_closure>().syntactic_environment.as<syntactic_environment>().identify(variable.as<syntactic_closure>().form, unit);
+      }
+
+      let const bindings = list(make<absolute>(variable, undefined));
+
+      if (second.is<pair>())
+      {
+        auto last = std::addressof(second);
+
+        while (cdr(*last).is<pair>())
+        {
+          last = std::addressof(cdr(*last));
+        }
+
+        cdr(*last) = bindings; // The syntactic environments captured by macros defined so far share the tail.
+      }
+      else
+      {
+        second = bindings;
+      }
 
-      return car(second = cons(make<absolute>(variable, undefined), second));
+      return car(bindings);
     }
   }
 
@@ -238,7 +259,9 @@ namespace meevax::inline kernel
                      formals,
                      reversed_binding_specs);
       }
-      else if (car(sequence).is<syntactic_closure>() and identify(car(sequence), car(current_environment)) == f)
+      else if (car(sequence).is<syntactic_closure>() and
+               not car(sequence).as<syntactic_closure>().form.is_also<identifier>() and
+               identify(car(sequence), car(current_environment)) == f)
       {
         return sweep(form,
                      cons(car(sequence).as<syntactic_closure>().expand(car(current_environment), alpha),
-- 
2.43.0


From 3ecd969e6f1ebe0bb46c9553be91b5b859559844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 63/81] fix: do not let a local variable capture a free
 identifier of a macro not yet defined

---
 src/kernel/syntactic_closure.cpp     | 2 +-
 src/kernel/syntactic_environment.cpp | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index abcec8e..09d9bcc 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -162,7 +162,7 @@ namespace meevax::inline kernel
       return syntactic_environment.as<struct syntactic_environment const>().identify(form, xs);
     };
 
-    if (let const& identity = identify(); identity != f)
+    if (let const& identity = identify(); identity != f or de_bruijn_level == 0)
     {
       return identity;
     }
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 46405b4..28f0f8b 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -62,7 +62,13 @@ namespace meevax::inline kernel
                renaming != f and 0 < cdr(renaming).template as<syntactic_closure>().de_bruijn_level;
       };
 
-      if (form.is<syntactic_closure>() and (is_renamed(form.as<syntactic_closure>()) or identify(form, bound_variables) == f))
+      auto is_alias = [](auto const& closure) // whose meaning the use environment does not affect
+      {
+        return closure.form.template is_also<identifier>() and closure.free_names.template is<null>();
+      };
+
+      if (form.is<syntactic_closure>() and (is_renamed(form.as<syntactic_closure>()) or
+                                            (not is_alias(form.as<syntactic_closure>()) and identify(form, bound_variables) == f)))
       {
         return form.as<syntactic_closure>().expand(bound_variables, alpha);
       }
-- 
2.43.0


From 861950ecb845688a54b63913b452a1ff0a23e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 64/81] =?UTF-8?q?fix:=20compare=20whole=20strings=20in=20s?=
 =?UTF-8?q?tring-ci=3D=3F=20and=20its=20relatives?=

---
 src/kernel/boot.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 912a175..cabb6e9 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -356,11 +356,11 @@ namespace meevax::inline kernel
       { "string>?",                      [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >  b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string<=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() <= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string>=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci=?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() == c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci=?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto downcase = [](auto const& c) { return c.downcase(); }; return not std::ranges::equal(s1.as<string>().characters, s2.as<string>().characters, {}, downcase, downcase); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto downcase = [](auto const& c) { return c.downcase(); }; return not std::ranges::lexicographical_compare(s1.as<string>().characters, s2.as<string>().characters, {}, downcase, downcase); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto downcase = [](auto const& c) { return c.downcase(); }; return not std::ranges::lexicographical_compare(s2.as<string>().characters, s1.as<string>().characters, {}, downcase, downcase); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto downcase = [](auto const& c) { return c.downcase(); }; return std::ranges::lexicographical_compare(s2.as<string>().characters, s1.as<string>().characters, {}, downcase, downcase); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto downcase = [](auto const& c) { return c.downcase(); }; return std::ranges::lexicographical_compare(s1.as<string>().characters, s2.as<string>().characters, {}, downcase, downcase); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string-append",                 [](let const& xs) { let s = make<string>(); for (let const& x : xs | as_proper_list) { s.as<string>().characters.insert(s.as<string>().characters.end(), x.as<string>().characters.begin(), x.as<string>().characters.end()); } return s; } },
       { "string->list",                  [](let const& xs) { auto push = [](let const& xs, character const& c) { return cons(make<character>(c), xs); }; switch (length(xs)) { case 1: return std::accumulate(car(xs).as<string>().characters.rbegin(), car(xs).as<string>().characters.rend(), unit, push); case 2: return std::accumulate(car(xs).as<string>().characters.rbegin(), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); case 3: return std::accumulate(std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); default: throw error(make<string>("procedure string->list takes one to three arugments, but got"), xs); } } },
       { "list->string",                  [](let const& xs) { return make<string>(car(xs) | as_proper_list); } },
-- 
2.43.0


From 854da0fc5fad0ef0159f51ae70a6e9241a96d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 65/81] fix: recognize control characters having the property
 White_Space as whitespace

---
 include/meevax/kernel/character.hpp | 7 ++++++-
 src/kernel/boot.cpp                 | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index f5f5bec..fa63162 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -113,7 +113,7 @@ namespace meevax::inline kernel
 
       constexpr auto is_whitespace() const noexcept
       {
-        return value == Zs;
+        return is_any_of(Zl, Zp, Zs);
       }
     };
 
@@ -180,6 +180,11 @@ namespace meevax::inline kernel
       return codepoint;
     }
 
+    auto constexpr is_whitespace() const noexcept
+    {
+      return (0x09 <= codepoint and codepoint <= 0x0D) or codepoint == 0x85 or property().is_whitespace(); // The controls having the property White_Space are of the category Cc.
+    }
+
     auto constexpr upcase() const noexcept
     {
       switch (codepoint)
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index cabb6e9..dadf56a 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       { "char-ci>=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() >= b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
       { "char-alphabetic?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_letter()); } },
       { "char-numeric?",                 [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_numeric()); } },
-      { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_whitespace()); } },
+      { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_whitespace()); } },
       { "char-upper-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_upper_case()); } },
       { "char-lower-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_lower_case()); } },
       { "digit-value",                   [](let const& xs) { if (auto digit_value = car(xs).as<character>().digit_value(); digit_value) { return make<small_integer>(*digit_value); } else { return f; } } },
-- 
2.43.0


From b29596174ef6e8661485834e89d43647bd48e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 66/81] fix: classify the characters within ranges of
 UnicodeData.txt

---
 include/meevax/kernel/character.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index fa63162..014171e 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -82,6 +82,30 @@ namespace meevax::inline kernel
         #include <meevax/unicode/property.hpp>
 
         default:
+          /*
+             UnicodeData.txt describes the following ranges only by their first
+             and last code points.
+          */
+          if (0xE000   <= codepoint and codepoint <= 0xF8FF  ) { return Co; } // Private Use
+          if (0xF0000  <= codepoint and codepoint <= 0xFFFFD ) { return Co; } // Plane 15 Private Use
+          if (0x100000 <= codepoint and codepoint <= 0x10FFFD) { return Co; } // Plane 16 Private Use
+          if (0xD800   <= codepoint and codepoint <= 0xDB7F  ) { return Cs; } // Non Private Use High Surrogate
+          if (0xDB80   <= codepoint and codepoint <= 0xDBFF  ) { return Cs; } // Private Use High Surrogate
+          if (0xDC00   <= codepoint and codepoint <= 0xDFFF  ) { return Cs; } // Low Surrogate
+          if (0x3400   <= codepoint and codepoint <= 0x4DBF  ) { return Lo; } // CJK Ideograph Extension A
+          if (0x4E00   <= codepoint and codepoint <= 0x9FFF  ) { return Lo; } // CJK Ideograph
+          if (0xAC00   <= codepoint and codepoint <= 0xD7A3  ) { return Lo; } // Hangul Syllable
+          if (0x17000  <= codepoint and codepoint <= 0x187F7 ) { return Lo; } // Tangut Ideograph
+          if (0x18D00  <= codepoint and codepoint <= 0x18D08 ) { return Lo; } // Tangut Ideograph Supplement
+          if (0x20000  <= codepoint and codepoint <= 0x2A6DF ) { return Lo; } // CJK Ideograph Extension B
+          if (0x2A700  <= codepoint and codepoint <= 0x2B739 ) { return Lo; } // CJK Ideograph Extension C
+          if (0x2B740  <= codepoint and codepoint <= 0x2B81D ) { return Lo; } // CJK Ideograph Extension D
+          if (0x2B820  <= codepoint and codepoint <= 0x2CEA1 ) { return Lo; } // CJK Ideograph Extension E
+          if (0x2CEB0  <= codepoint and codepoint <= 0x2EBE0 ) { return Lo; } // CJK Ideograph Extension F
+          if (0x2EBF0  <= codepoint and codepoint <= 0x2EE5D ) { return Lo; } // CJK Ideograph Extension I
+          if (0x30000  <= codepoint and codepoint <= 0x3134A ) { return Lo; } // CJK Ideograph Extension G
+          if (0x31350  <= codepoint and codepoint <= 0x323AF ) { return Lo; } // CJK Ideograph Extension H
+
           return Cn;
         }
       }
-- 
2.43.0


From bc6b2493ac47fef5211ad9518f2b8be98d3e4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 67/81] fix: answer #f to digit-value of a character that is
 not a decimal digit

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index dadf56a..35ace7f 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -103,7 +103,7 @@ namespace meevax::inline kernel
       { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_whitespace()); } },
       { "char-upper-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_upper_case()); } },
       { "char-lower-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_lower_case()); } },
-      { "digit-value",                   [](let const& xs) { if (auto digit_value = car(xs).as<character>().digit_value(); digit_value) { return make<small_integer>(*digit_value); } else { return f; } } },
+      { "digit-value",                   [](let const& xs) { if (auto digit_value = car(xs).as<character>().digit_value(); digit_value and car(xs).as<character>().property().is_numeric()) { return make<small_integer>(*digit_value); } else { return f; } } },
       { "char->integer",                 [](let const& xs) { return make<small_integer>(car(xs).as<character>().codepoint); } },
       { "integer->char",                 [](let const& xs) { return make<character>(exact_integer_cast<character::int_type>(car(xs))); } },
       { "char-upcase",                   [](let const& xs) { return make<character>(car(xs).as<character>().upcase()); } },
-- 
2.43.0


From 310b336078c6e8a4e661214e71839f8bf7e6e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:21 +0000
Subject: [PATCH 68/81] fix: do not expand a definition of an identifier
 introduced by a macro again

---
 src/kernel/syntactic_environment.cpp | 37 +++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 28f0f8b..4b92418 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -240,10 +240,35 @@ namespace meevax::inline kernel
                                     let const& formals,
                                     let const& reversed_binding_specs) const -> std::tuple<object, object, object>
   {
-    auto reset = [&](let const& formals)
+    auto reset = [&](let const& identifier, let const& formals)
     {
-      return sweep(form,
-                   form,
+      /*
+         An identifier introduced by a macro is a different one each time the
+         macro is expanded. Therefore, its definition is not expanded again.
+      */
+      auto expansion = [&]()
+      {
+        let definitions = sequence;
+
+        for (let const& binding_spec : reversed_binding_specs | as_proper_list)
+        {
+          if (car(binding_spec).is<macro>())
+          {
+            definitions = cons(list(default_rename("define-syntax"), caar(binding_spec), cdar(binding_spec)), definitions);
+          }
+          else
+          {
+            definitions = cons(cons(default_rename("define"), binding_spec), definitions);
+          }
+        }
+
+        return definitions;
+      };
+
+      let const definitions = identifier.is<syntactic_closure>() ? expansion() : form;
+
+      return sweep(definitions,
+                   definitions,
                    bound_variables,
                    make<syntactic_environment>(cons(formals, bound_variables), second),
                    alpha,
@@ -325,7 +350,7 @@ namespace meevax::inline kernel
                 }
                 else
                 {
-                  return reset(append(formals, list(variable)));
+                  return reset(variable, append(formals, list(variable)));
                 }
               }
               else // <form> = ((define <variable> <expression>) <definition or expression>*)
@@ -343,7 +368,7 @@ namespace meevax::inline kernel
                 }
                 else
                 {
-                  return reset(append(formals, list(variable)));
+                  return reset(variable, append(formals, list(variable)));
                 }
               }
             }
@@ -366,7 +391,7 @@ namespace meevax::inline kernel
               }
               else
               {
-                return reset(append(formals, list(make<macro>(cadar(sequence), caddar(sequence)))));
+                return reset(cadar(sequence), append(formals, list(make<macro>(cadar(sequence), caddar(sequence)))));
               }
             }
           }
-- 
2.43.0


From 6a4352b80f8f664d5d076e523f67ab8ad73ca2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 69/81] fix: pass every value given to a continuation

---
 library/r5rs.ss | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/library/r5rs.ss b/library/r5rs.ss
index 1fd994c..cc8f57c 100644
--- a/library/r5rs.ss
+++ b/library/r5rs.ss
@@ -2,7 +2,7 @@
   (import (only (meevax continuation) dynamic-wind)
           (only (meevax core) define-syntax let-syntax letrec-syntax)
           (only (meevax environment) environment eval)
-          (scheme r4rs)
+          (rename (scheme r4rs) (call-with-current-continuation call/cc))
           (srfi 149))
 
   (export quote lambda if set! cond case and or let let* letrec begin do delay
@@ -98,6 +98,12 @@
                  (apply consume (cdr vs))
                  (consume vs))))
 
+         (define (call-with-current-continuation procedure)
+           (call/cc
+             (lambda (continue)
+               (procedure (lambda xs
+                            (continue (apply values xs)))))))
+
          (define (scheme-report-environment version)
            (environment `(scheme ,(string->symbol (string-append "r" (number->string version) "rs")))))
 
-- 
2.43.0


From 01438d3bc3897aec794cf639e7ad46b4b9539e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 70/81] fix: do not read past the occupancy of a pointer set
 when searching from its end

---
 include/meevax/memory/pointer_set.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/meevax/memory/pointer_set.hpp b/include/meevax/memory/pointer_set.hpp
index f780a8d..12bf46d 100644
--- a/include/meevax/memory/pointer_set.hpp
+++ b/include/meevax/memory/pointer_set.hpp
@@ -123,6 +123,11 @@ namespace meevax::inline memory
         {
           auto [q, r] = qr64(i);
 
+          if (not (q < Q))
+          {
+            return N;
+          }
+
           if (auto word = p->occupancy[q] & (~0_u64 << r); word)
           {
             return q * 64 + std::countr_zero(word);
-- 
2.43.0


From 364b8bd85e71db5a9b902ba84e5d1097837bb855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 71/81] fix: let the promises of a chain of delay-force share
 their contents

---
 library/srfi-45.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-45.ss b/library/srfi-45.ss
index 5a550fe..3666edb 100644
--- a/library/srfi-45.ss
+++ b/library/srfi-45.ss
@@ -25,7 +25,7 @@
          (define (promise-update! new old)
            (set-car! (cdr old) (promise-done? new))
            (set-cdr! (cdr old) (promise-value new))
-           (set-car! new (cdr old)))
+           (set-cdr! new (cdr old)))
 
          (define (force promise)
            (if (promise-done? promise)
-- 
2.43.0


From 029a573668f5159761afe8a2669220df40f6833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 72/81] fix: do not pass characters outside of ASCII to
 std::isspace and std::isdigit

---
 src/kernel/textual_input_port.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 6d18e14..3fb311b 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -304,7 +304,7 @@ namespace meevax::inline kernel
 
     auto is_digit = [](auto c)
     {
-      return std::isdigit(c);
+      return character::is_ascii(c) and std::isdigit(c); // The argument of std::isdigit has to be representable as unsigned char.
     };
 
     auto take_quoted = [&](character quotation_mark)
@@ -333,7 +333,7 @@ namespace meevax::inline kernel
 
           case '\n':
           case '\r':
-            take_character_while([](auto c) { return std::isspace(c); });
+            take_character_while([](auto c) { return character::is_ascii(c) and std::isspace(c); });
             break;
 
           default:
-- 
2.43.0


From a4035199ec8c0132f8d4e24964884f5b3f703be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 73/81] fix: reject a hexadecimal escape without digits

---
 src/kernel/textual_input_port.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 3fb311b..c11f5ed 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -286,6 +286,11 @@ namespace meevax::inline kernel
     {
       auto codepoint = character::int_type(0);
 
+      if (digits.empty())
+      {
+        throw read_error(make<string>("malformed hexadecimal scalar value"), make<string>(digits));
+      }
+
       for (auto c : digits)
       {
         if (not std::isxdigit(static_cast<unsigned char>(c)) or 0x10FFFF < (codepoint = codepoint << 4 | (std::isdigit(static_cast<unsigned char>(c)) ? c - '0' : std::tolower(c) - 'a' + 10)))
-- 
2.43.0


From 29170e33f16cc3194bf245b12a7f7ab218e6211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 74/81] fix: write single precision numbers so that they can be
 read back

---
 include/meevax/memory/nan_boxing_pointer.hpp | 38 ++++++++++++--------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/meevax/memory/nan_boxing_pointer.hpp b/include/meevax/memory/nan_boxing_pointer.hpp
index 640bacf..2ca7bd9 100644
--- a/include/meevax/memory/nan_boxing_pointer.hpp
+++ b/include/meevax/memory/nan_boxing_pointer.hpp
@@ -237,6 +237,25 @@ namespace meevax::inline memory
       return reinterpret_cast<pointer>(payload());
     }
 
+    template <typename Real>
+    auto static write_floating_point(std::ostream & os, Real value) -> std::ostream &
+    {
+      if (std::isnan(value))
+      {
+        return os << cyan("+nan.0");
+      }
+      else if (std::isinf(value))
+      {
+        return os << cyan(0 < value ? '+' : '-', "inf.0");
+      }
+      else
+      {
+        char buffer[48] = {};
+        std::to_chars(buffer, buffer + sizeof(buffer), value, std::chars_format::general);
+        return os << cyan(buffer);
+      }
+    }
+
     template <any_of<T1, T2, T3, T4, T5, T*> Tn>
     auto static write(std::ostream & os, Tn x) -> std::ostream &
     {
@@ -244,6 +263,10 @@ namespace meevax::inline memory
       {
         return os << cyan('#', x ? 't' : 'f');
       }
+      else if constexpr (std::is_floating_point_v<decltype(x)>)
+      {
+        return write_floating_point(os, x);
+      }
       else if constexpr (std::is_arithmetic_v<decltype(x)>)
       {
         return os << std::dec << cyan(x);
@@ -269,20 +292,7 @@ namespace meevax::inline memory
         return os << magenta("()");
 
       default:
-        if (auto value = as<double>(); std::isnan(value))
-        {
-          return os << cyan("+nan.0");
-        }
-        else if (std::isinf(value))
-        {
-          return os << cyan(0 < value ? '+' : '-', "inf.0");
-        }
-        else
-        {
-          char buffer[48] = {};
-          std::to_chars(buffer, buffer + sizeof(buffer), value, std::chars_format::general);
-          return os << cyan(buffer);
-        }
+        return write_floating_point(os, as<double>());
       }
     }
   };
-- 
2.43.0


From 2c711aba834f53094cfefc4971abd170c8e851aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:42 +0000
Subject: [PATCH 75/81] fix: raise a read error when the datum after a prefix
 does not fit it

---
 src/kernel/textual_input_port.cpp | 43 +++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index c11f5ed..5593dce 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -302,6 +302,23 @@ namespace meevax::inline kernel
       return character(codepoint);
     };
 
+    auto convert = [](auto f, object const& x) -> object
+    {
+      try
+      {
+        return f(x);
+      }
+      catch (error const& e) // The datum that follows the prefix is not convertible.
+      {
+        throw read_error(e.message(), e.irritants());
+      }
+    };
+
+    auto elements = [](object const& xs) -> object const&
+    {
+      return is_proper_list(xs) ? xs : throw read_error(make<string>("the elements of a vector are not a proper list"), xs);
+    };
+
     auto to_width = [](std::string const& digits)
     {
       return digits.size() == 1 or digits.size() == 2 ? std::stoi(digits) : 0;
@@ -509,17 +526,17 @@ namespace meevax::inline kernel
 
         case 'E':
         case 'e':
-          return number::exact(complete(read())); // NOTE: Same as #,(exact (read))
+          return convert([](object const& x) { return number::exact(x); }, complete(read())); // NOTE: Same as #,(exact (read))
 
         case 'F':
         case 'f':
           switch (to_width(take_character_while(is_digit)))
           {
           case 32:
-            return make<f32vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<f32vector>(elements(x) | as_proper_list); }, complete(read()));
 
           case 64:
-            return make<f64vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<f64vector>(elements(x) | as_proper_list); }, complete(read()));
 
           default:
             take_token(c2);
@@ -528,7 +545,7 @@ namespace meevax::inline kernel
 
         case 'I':
         case 'i':
-          return number::inexact(complete(read())); // NOTE: Same as #,(inexact (read))
+          return convert([](object const& x) { return number::inexact(x); }, complete(read())); // NOTE: Same as #,(inexact (read))
 
         case 'O':
         case 'o':
@@ -539,16 +556,16 @@ namespace meevax::inline kernel
           switch (auto n = take_character_while(is_digit); to_width(n))
           {
           case 8:
-            return make<s8vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<s8vector>(elements(x) | as_proper_list); }, complete(read()));
 
           case 16:
-            return make<s16vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<s16vector>(elements(x) | as_proper_list); }, complete(read()));
 
           case 32:
-            return make<s32vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<s32vector>(elements(x) | as_proper_list); }, complete(read()));
 
           case 64:
-            return make<s64vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<s64vector>(elements(x) | as_proper_list); }, complete(read()));
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -565,16 +582,16 @@ namespace meevax::inline kernel
           switch (auto const n = take_character_while(is_digit); to_width(n))
           {
           case 8:
-            return make<u8vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<u8vector>(elements(x) | as_proper_list); }, complete(read()));
 
           case 16:
-            return make<u16vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<u16vector>(elements(x) | as_proper_list); }, complete(read()));
 
           case 32:
-            return make<u32vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<u32vector>(elements(x) | as_proper_list); }, complete(read()));
 
           case 64:
-            return make<u64vector>(complete(read()) | as_proper_list);
+            return convert([&](object const& x) { return make<u64vector>(elements(x) | as_proper_list); }, complete(read()));
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -586,7 +603,7 @@ namespace meevax::inline kernel
           return take_number(16);
 
         case '(':
-          return make<vector>(read_element(c2) | as_proper_list);
+          return convert([&](object const& x) { return make<vector>(elements(x) | as_proper_list); }, read_element(c2));
 
         case '\\':
           if (auto c3 = take_character(); c3.is_eof())
-- 
2.43.0


From 1b7ef6a95036455042fd6ba1269dca442464f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 76/81] fix: raise a file error when a file cannot be opened

---
 .../meevax/kernel/binary_input_file_port.hpp  |  2 +-
 include/meevax/kernel/input_file_port.hpp     |  2 +-
 src/kernel/boot.cpp                           | 24 +++++++++++++++----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/meevax/kernel/binary_input_file_port.hpp b/include/meevax/kernel/binary_input_file_port.hpp
index 27d650f..9e3e3c9 100644
--- a/include/meevax/kernel/binary_input_file_port.hpp
+++ b/include/meevax/kernel/binary_input_file_port.hpp
@@ -31,7 +31,7 @@ namespace meevax::inline kernel
     std::ifstream ifstream;
 
     explicit binary_input_file_port(std::filesystem::path const& name, auto&&... xs)
-      : name     { std::filesystem::canonical(name) }
+      : name     { std::filesystem::weakly_canonical(name) }
       , ifstream { name, (std::ios::binary | ... | std::forward<decltype(xs)>(xs)) }
     {}
 
diff --git a/include/meevax/kernel/input_file_port.hpp b/include/meevax/kernel/input_file_port.hpp
index d358b6e..62fdc17 100644
--- a/include/meevax/kernel/input_file_port.hpp
+++ b/include/meevax/kernel/input_file_port.hpp
@@ -30,7 +30,7 @@ namespace meevax::inline kernel
     std::ifstream ifstream;
 
     explicit input_file_port(std::filesystem::path const& name, auto&&... xs)
-      : name     { std::filesystem::canonical(name) }
+      : name     { std::filesystem::weakly_canonical(name) }
       , ifstream { name, std::forward<decltype(xs)>(xs)... }
     {
       textual_context::paths.emplace(name);
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 35ace7f..50f780d 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -56,6 +56,22 @@ extern char ** environ; // for procedure get-environment-variables
 
 namespace meevax::inline kernel
 {
+  template <typename Port>
+  auto open_file(object const& name) -> object
+  {
+    try
+    {
+      if (let const port = make<Port>(name.as<string>().utf8()); port.as<Port>().is_open())
+      {
+        return port;
+      }
+    }
+    catch (std::filesystem::filesystem_error const&)
+    {}
+
+    throw file_error(make<string>("failed to open file"), name);
+  }
+
   auto resolve(char const* name) -> void *
   {
     using namespace number;
@@ -314,10 +330,10 @@ namespace meevax::inline kernel
       { "standard-input-port",           [](let const&   ) { return make<standard_input_port>(); } },
       { "standard-output-port",          [](let const&   ) { return make<standard_output_port>(); } },
       { "standard-error-port",           [](let const&   ) { return make<standard_error_port>(); } },
-      { "open-input-file",               [](let const& xs) { return make<input_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-output-file",              [](let const& xs) { return make<output_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-binary-input-file",        [](let const& xs) { return make<binary_input_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-binary-output-file",       [](let const& xs) { return make<binary_output_file_port>(car(xs).as<string>().utf8()); } },
+      { "open-input-file",               [](let const& xs) { return open_file<input_file_port>(car(xs)); } },
+      { "open-output-file",              [](let const& xs) { return open_file<output_file_port>(car(xs)); } },
+      { "open-binary-input-file",        [](let const& xs) { return open_file<binary_input_file_port>(car(xs)); } },
+      { "open-binary-output-file",       [](let const& xs) { return open_file<binary_output_file_port>(car(xs)); } },
       { "close",                         [](let const& xs) { car(xs).as<port>().close(); return unspecified; } },
       { "open-input-string",             [](let const& xs) { return make<input_string_port>(car(xs).as<string>().utf8()); } },
       { "open-output-string",            [](let const&   ) { return make<output_string_port>(); } },
-- 
2.43.0


From c47a73eeda1fc9dff8387599f6918d4e368d10fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:54 +0000
Subject: [PATCH 77/81] fix: import what load needs to find its default
 environment

---
 library/r4rs.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/r4rs.ss b/library/r4rs.ss
index 2bc2958..58ec8a3 100644
--- a/library/r4rs.ss
+++ b/library/r4rs.ss
@@ -53,7 +53,7 @@
           (only (meevax vector) vector? make-vector vector vector-length vector-ref vector-set! vector->list list->vector vector-fill!)
           (prefix (meevax read) %)
           (prefix (meevax write) %)
-          (prefix (only (meevax environment) load) %)
+          (prefix (only (meevax environment) interaction-environment load) %)
           (only (srfi 39) make-parameter parameterize)
           (only (srfi 45) delay force))
 
-- 
2.43.0


From bb7c24d3b55f8e5a58f33472f765099974ae85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:29 +0000
Subject: [PATCH 78/81] fix: do not let a second dot in a dotted list escape to
 the enclosing list

---
 src/kernel/textual_input_port.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 5593dce..ce53fce 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -740,6 +740,8 @@ namespace meevax::inline kernel
                 return list;
               }
             }
+            catch (std::integral_constant<char, '.'> const&)
+            {} // Not the dot of the enclosing list.
 
             throw read_error(make<string>("a dotted list has more than one datum after the dot"), unit);
           }
-- 
2.43.0


From 047df59938772054c45a7852db4c56e48403ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 79/81] fix: reject overlong and out-of-range UTF-8 sequences,
 which cannot be put back

---
 src/kernel/textual_input_port.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index ce53fce..2695f0f 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -820,7 +820,7 @@ namespace meevax::inline kernel
       return read_error(make<string>("malformed UTF-8 byte sequence"), unit);
     };
 
-    auto take_continuation_bytes = [&](auto codepoint, auto count)
+    auto take_continuation_bytes = [&](auto codepoint, auto count, auto minimum)
     {
       while (count--)
       {
@@ -834,6 +834,11 @@ namespace meevax::inline kernel
         }
       }
 
+      if (codepoint < minimum or 0x10FFFF < codepoint)
+      {
+        throw read_error(make<string>("malformed UTF-8 byte sequence"), unit);
+      }
+
       return character(codepoint);
     };
 
@@ -843,15 +848,15 @@ namespace meevax::inline kernel
     }
     else if (0xC2 <= c and c <= 0xDF) // 11 bit
     {
-      return take_continuation_bytes(source.get() & 0b0001'1111, 1);
+      return take_continuation_bytes(source.get() & 0b0001'1111, 1, 0x80);
     }
     else if (0xE0 <= c and c <= 0xEF) // 16 bit
     {
-      return take_continuation_bytes(source.get() & 0b0000'1111, 2);
+      return take_continuation_bytes(source.get() & 0b0000'1111, 2, 0x800);
     }
     else if (0xF0 <= c and c <= 0xF4) // 21 bit
     {
-      return take_continuation_bytes(source.get() & 0b0000'0111, 3);
+      return take_continuation_bytes(source.get() & 0b0000'0111, 3, 0x10000);
     }
     else
     {
-- 
2.43.0


From 85c4fafa7e6998e6d095a1c0322b05bdd08bab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 80/81] fix: raise a read error when the number after #e has no
 exact counterpart

---
 src/kernel/textual_input_port.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 2695f0f..82777f2 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -400,7 +400,7 @@ namespace meevax::inline kernel
         {
         case 'E':
         case 'e':
-          return number::exact(number);
+          return convert(number::exact, number);
 
         case 'I':
         case 'i':
-- 
2.43.0


From d1b6560a8a736a52d59019ebede51ddfb602b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 81/81] fix: count the memory that strings and vectors own
 towards a collection

---
 include/meevax/kernel/collector.hpp          | 25 +++++++++++++++++++-
 include/meevax/kernel/homogeneous_vector.hpp |  5 ++++
 include/meevax/kernel/pair.hpp               |  2 ++
 include/meevax/kernel/string.hpp             |  5 ++++
 include/meevax/kernel/vector.hpp             |  5 ++++
 src/kernel/collector.cpp                     |  2 +-
 src/kernel/pair.cpp                          |  5 ++++
 7 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/collector.hpp b/include/meevax/kernel/collector.hpp
index 66286a4..56aff71 100644
--- a/include/meevax/kernel/collector.hpp
+++ b/include/meevax/kernel/collector.hpp
@@ -116,6 +116,18 @@ namespace meevax::inline kernel
       }
     }
 
+    auto footprint() const noexcept -> std::size_t override
+    {
+      if constexpr (not std::is_base_of_v<pair, Bound> and requires { Bound::footprint(); })
+      {
+        return Bound::footprint();
+      }
+      else
+      {
+        return 0;
+      }
+    }
+
     auto type() const noexcept -> std::type_info const& override
     {
       return typeid(Bound);
@@ -182,7 +194,18 @@ namespace meevax::inline kernel
       {
         insert(datum);
 
-        return datum;
+        if constexpr (not std::is_base_of_v<pair, T> and requires { datum->T::footprint(); })
+        {
+          object const x = datum;
+
+          request(datum->T::footprint());
+
+          return x;
+        }
+        else
+        {
+          return datum;
+        }
       }
       else [[unlikely]]
       {
diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 67f5306..5a509ab 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -48,6 +48,11 @@ namespace meevax::inline kernel
       }
     }
 
+    auto footprint() const noexcept
+    {
+      return values.size() * sizeof(T);
+    }
+
     static auto tag() -> auto const&
     {
       auto static const tag = (std::is_integral_v<T> ? std::is_signed_v<T> ? "s" : "u" : "f") + std::to_string(sizeof(T) * CHAR_BIT);
diff --git a/include/meevax/kernel/pair.hpp b/include/meevax/kernel/pair.hpp
index 153bd20..516e596 100644
--- a/include/meevax/kernel/pair.hpp
+++ b/include/meevax/kernel/pair.hpp
@@ -41,6 +41,8 @@ namespace meevax::inline kernel
 
     auto virtual eqv(pair const*) const -> bool;
 
+    auto virtual footprint() const noexcept -> std::size_t; // The size of the memory that the object owns in addition to itself.
+
     auto virtual type() const noexcept -> std::type_info const&;
 
     auto virtual write(std::ostream &) const -> std::ostream &;
diff --git a/include/meevax/kernel/string.hpp b/include/meevax/kernel/string.hpp
index 106fc4a..32a6beb 100644
--- a/include/meevax/kernel/string.hpp
+++ b/include/meevax/kernel/string.hpp
@@ -44,6 +44,11 @@ namespace meevax::inline kernel
       }
     }
 
+    auto footprint() const noexcept
+    {
+      return characters.size() * sizeof(character);
+    }
+
     auto utf8() const -> std::string;
   };
 
diff --git a/include/meevax/kernel/vector.hpp b/include/meevax/kernel/vector.hpp
index 2ad9c51..8e7e578 100644
--- a/include/meevax/kernel/vector.hpp
+++ b/include/meevax/kernel/vector.hpp
@@ -34,6 +34,11 @@ namespace meevax::inline kernel
     {
       std::ranges::copy(view, std::back_inserter(objects));
     }
+
+    auto footprint() const noexcept
+    {
+      return objects.size() * sizeof(object);
+    }
   };
 
   auto operator ==(heterogeneous_vector const&, heterogeneous_vector const&) -> bool;
diff --git a/src/kernel/collector.cpp b/src/kernel/collector.cpp
index cbf173c..d85fb32 100644
--- a/src/kernel/collector.cpp
+++ b/src/kernel/collector.cpp
@@ -185,7 +185,7 @@ namespace meevax::inline kernel
       {
         auto const datum = stack.back();
 
-        size += datum->size;
+        size += datum->size + datum->footprint();
 
         stack.pop_back();
 
diff --git a/src/kernel/pair.cpp b/src/kernel/pair.cpp
index 34d1124..6dd7d23 100644
--- a/src/kernel/pair.cpp
+++ b/src/kernel/pair.cpp
@@ -24,6 +24,11 @@ namespace meevax::inline kernel
     return static_cast<pair const*>(this) == x and static_cast<pair const&>(*this) == *x;
   }
 
+  auto pair::footprint() const noexcept -> std::size_t
+  {
+    return 0;
+  }
+
   auto pair::type() const noexcept -> std::type_info const&
   {
     return typeid(pair);
-- 
2.43.0

