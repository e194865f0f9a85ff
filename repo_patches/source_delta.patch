From 8d012d56fcbf47ce9c8a94f85f86961b3670638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 001/129] fix: rms started its sum of squares at one

---
 include/edsp/feature/temporal/rms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index 8249985..ac287f7 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -42,7 +42,7 @@ namespace edsp { namespace feature { inline namespace temporal {
     template <typename ForwardIt>
     constexpr auto rms(ForwardIt first, ForwardIt last) {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
-        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(1));
+        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(0));
         return std::sqrt(accumulated / static_cast<value_type>(std::distance(first, last)));
     }
 }}} // namespace edsp::feature::temporal
-- 
2.43.0


From 18aea74ecff4943bb0ec3607bbbed517310f05d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 002/129] fix: derivative had a template parameter that could
 not be deduced

---
 include/edsp/algorithm/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/derivative.hpp b/include/edsp/algorithm/derivative.hpp
index fd394f3..71025cf 100644
--- a/include/edsp/algorithm/derivative.hpp
+++ b/include/edsp/algorithm/derivative.hpp
@@ -42,7 +42,7 @@ namespace edsp { inline namespace algorithm {
          * @param last Forward iterator defining the end of the range to examine.
          * @param d_first Output iterator defining the beginning of the destination range.
          */
-    template <typename InputItr, typename OutputIt, typename Numeric>
+    template <typename InputItr, typename OutputIt>
     constexpr void derivative(InputItr first, InputItr last, OutputIt d_first) {
         std::adjacent_difference(first, last, d_first);
     }
-- 
2.43.0


From bd23f2fcf4036e88d0530919dc8e8d65e3c3d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 003/129] fix: silence had a template parameter that could not
 be deduced

---
 include/edsp/algorithm/silence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/silence.hpp b/include/edsp/algorithm/silence.hpp
index dfccec9..41523db 100644
--- a/include/edsp/algorithm/silence.hpp
+++ b/include/edsp/algorithm/silence.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace algorithm {
      * @param last Input iterator defining the ending of the input range.
      * @param threshold Threshold .
      */
-    template <typename InputIt, typename OutputIt, typename Numeric>
+    template <typename InputIt, typename Numeric>
     constexpr bool silence(InputIt first, InputIt last, Numeric threshold) {
         return feature::temporal::power(first, last) < threshold;
     }
-- 
2.43.0


From 818b4c368fc3bc07aa2e8a6b6378754570940f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 004/129] fix: peak2peak of data with negative samples is max -
 min

---
 include/edsp/converter/peak2peak.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/converter/peak2peak.hpp b/include/edsp/converter/peak2peak.hpp
index 25b35b0..9f09569 100644
--- a/include/edsp/converter/peak2peak.hpp
+++ b/include/edsp/converter/peak2peak.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace converter {
     template <typename ForwardIt>
     constexpr auto peak2peak(ForwardIt first, ForwardIt last) {
         const auto pair = std::minmax_element(first, last);
-        return std::abs(*pair.second) - std::abs(*pair.first);
+        return *pair.second - *pair.first;
     }
 
 }} // namespace edsp::converter
-- 
2.43.0


From 1abe4cf37e02d3f460f9c1d603f2c42337a6d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 005/129] fix: linspace and logspace accumulated rounding
 errors and missed the last point

---
 include/edsp/algorithm/linspace.hpp | 14 ++++++++------
 include/edsp/algorithm/logspace.hpp | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/edsp/algorithm/linspace.hpp b/include/edsp/algorithm/linspace.hpp
index 1e5061c..9ac0292 100644
--- a/include/edsp/algorithm/linspace.hpp
+++ b/include/edsp/algorithm/linspace.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_ALGORITHM_LINSPACE_H
 #define EDSP_ALGORITHM_LINSPACE_H
 
+#include <cstddef>
 #include <iterator>
 #include <cmath>
 
@@ -38,13 +39,14 @@ namespace edsp { inline namespace algorithm {
     template <typename OutputIt, typename Numeric, typename Integer>
     constexpr void linspace(OutputIt d_first, Numeric x1, Numeric x2, Integer N) {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
-        const auto size  = static_cast<value_type>(std::trunc(N));
+        const auto size  = static_cast<std::ptrdiff_t>(std::trunc(N));
 
-        auto _x1             = static_cast<value_type>(x1);
-        auto _x2             = static_cast<value_type>(x2);
-        const auto increment = (_x2 - _x1) / static_cast<value_type>(size - 1);
-        for (auto i = 0; i < size; ++i, ++d_first, _x1 += increment) {
-            *d_first = _x1;
+        const auto _x1       = static_cast<value_type>(x1);
+        const auto _x2       = static_cast<value_type>(x2);
+        const auto increment = size > 1 ? (_x2 - _x1) / static_cast<value_type>(size - 1) : static_cast<value_type>(0);
+        for (std::ptrdiff_t i = 0; i < size; ++i, ++d_first) {
+            const auto point = (i > 0 && i == size - 1) ? _x2 : _x1 + increment * static_cast<value_type>(i);
+            *d_first         = point;
         }
     }
 
diff --git a/include/edsp/algorithm/logspace.hpp b/include/edsp/algorithm/logspace.hpp
index 8641022..734defe 100644
--- a/include/edsp/algorithm/logspace.hpp
+++ b/include/edsp/algorithm/logspace.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_ALGORITHM_LOGSPACE_H
 #define EDSP_ALGORITHM_LOGSPACE_H
 
+#include <cstddef>
 #include <iterator>
 
 namespace edsp { inline namespace algorithm {
@@ -37,13 +38,14 @@ namespace edsp { inline namespace algorithm {
     template <typename OutputIt, typename Numeric, typename Integer>
     constexpr void logspace(OutputIt d_first, Numeric x1, Numeric x2, Integer N) {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
-        const auto size  = static_cast<value_type>(std::trunc(N));
+        const auto size  = static_cast<std::ptrdiff_t>(std::trunc(N));
 
-        auto _x1             = static_cast<value_type>(x1);
-        auto _x2             = static_cast<value_type>(x2);
-        const auto increment = (_x2 - _x1) / static_cast<value_type>(size - 1);
-        for (auto i = 0; i < size; ++i, ++d_first, _x1 += increment) {
-            *d_first = std::pow(static_cast<value_type>(10), _x1);
+        const auto _x1       = static_cast<value_type>(x1);
+        const auto _x2       = static_cast<value_type>(x2);
+        const auto increment = size > 1 ? (_x2 - _x1) / static_cast<value_type>(size - 1) : static_cast<value_type>(0);
+        for (std::ptrdiff_t i = 0; i < size; ++i, ++d_first) {
+            const auto point = (i > 0 && i == size - 1) ? _x2 : _x1 + increment * static_cast<value_type>(i);
+            *d_first         = std::pow(static_cast<value_type>(10), point);
         }
     }
 
-- 
2.43.0


From 170545586a60d0dd3f93cf90fe79def8b1d34635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 006/129] fix: snr measured the signal power over a mix of two
 ranges

---
 include/edsp/feature/temporal/snr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/snr.hpp b/include/edsp/feature/temporal/snr.hpp
index 2ec7912..23b3166 100644
--- a/include/edsp/feature/temporal/snr.hpp
+++ b/include/edsp/feature/temporal/snr.hpp
@@ -56,7 +56,7 @@ namespace edsp { namespace feature { inline namespace temporal {
         std::transform(first1, last1, first2, std::begin(noise),
                        [](const value_type left, const value_type right) { return left - right; });
 
-        const auto var_ref   = statistics::variance(first1, first2);
+        const auto var_ref   = statistics::variance(first1, last1);
         const auto var_noise = statistics::variance(std::cbegin(noise), std::cend(noise));
         return converter::pow2db(var_ref / var_noise);
     }
-- 
2.43.0


From 74c72835c3ac5a5a6b448ff977a7c1ced3226c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 007/129] fix: leq used power() without including it

---
 include/edsp/feature/temporal/leq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/leq.hpp b/include/edsp/feature/temporal/leq.hpp
index c7fdb72..8bfbf16 100644
--- a/include/edsp/feature/temporal/leq.hpp
+++ b/include/edsp/feature/temporal/leq.hpp
@@ -28,7 +28,7 @@
 #define EDSP_LEQ_HPP
 
 #include <edsp/filter/moving_average_filter.hpp>
-#include <edsp/feature/temporal/energy.hpp>
+#include <edsp/feature/temporal/power.hpp>
 #include <edsp/converter/pow2db.hpp>
 
 namespace edsp { namespace feature { inline namespace temporal {
-- 
2.43.0


From a9bb6ba8aaf38ba69f2ba2d267a40fe224333acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 008/129] fix: slope computed the number of elements after
 consuming the range

---
 include/edsp/feature/statistics/slope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/slope.hpp b/include/edsp/feature/statistics/slope.hpp
index 3789591..294cb7c 100644
--- a/include/edsp/feature/statistics/slope.hpp
+++ b/include/edsp/feature/statistics/slope.hpp
@@ -61,6 +61,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     template <typename ForwardIt>
     constexpr auto slope(ForwardIt first1, ForwardIt last1, ForwardIt first2) {
         using value_type = typename std::iterator_traits<ForwardIt>::value_type;
+        const auto N     = static_cast<value_type>(std::distance(first1, last1));
         auto m_sum       = static_cast<value_type>(0);
         auto f_sum       = static_cast<value_type>(0);
         auto ff_sum      = static_cast<value_type>(0);
@@ -71,7 +72,6 @@ namespace edsp { namespace feature { inline namespace statistics {
             mf_sum += (*first1) * (*first2);
             ff_sum += (*first2) * (*first2);
         }
-        const auto N = static_cast<value_type>(std::distance(first1, last1));
         return (1 / m_sum) * (N * mf_sum - f_sum * m_sum) / (N * ff_sum - (f_sum * f_sum));
     }
 
-- 
2.43.0


From e30ba6fc34430f89e26d7edc331f6a8e84b744c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 009/129] fix: variation ignored the cross product of the two
 spectra

---
 include/edsp/feature/statistics/variation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/variation.hpp b/include/edsp/feature/statistics/variation.hpp
index 5847d51..7cc48e8 100644
--- a/include/edsp/feature/statistics/variation.hpp
+++ b/include/edsp/feature/statistics/variation.hpp
@@ -65,7 +65,7 @@ namespace edsp { namespace feature { inline namespace statistics {
             sum_x2 += *first2;
             sum_x12 += *first1 * *first2;
         }
-        return 1 - sum_x2 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
+        return 1 - sum_x12 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
     }
 
 }}} // namespace edsp::feature::statistics
-- 
2.43.0


From 76498356ca7ba5b080e164e52670ac281a5d6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 010/129] fix: flux summed a range going from one frame to the
 other

---
 include/edsp/feature/statistics/flux.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/flux.hpp b/include/edsp/feature/statistics/flux.hpp
index d9ecc30..be01426 100644
--- a/include/edsp/feature/statistics/flux.hpp
+++ b/include/edsp/feature/statistics/flux.hpp
@@ -49,7 +49,7 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_type        = meta::value_type_t<InputIt>;
         const auto size         = std::distance(first1, last1);
         const auto current_sum  = std::accumulate(first1, last1, static_cast<value_type>(0));
-        const auto previous_sum = std::accumulate(first1, meta::advance(first2, size), static_cast<value_type>(0));
+        const auto previous_sum = std::accumulate(first2, meta::advance(first2, size), static_cast<value_type>(0));
         auto accumulated        = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
             accumulated += distance<d>(*first1 / current_sum, *first2 / previous_sum);
-- 
2.43.0


From 4157068c16500af43ba5e31f2be4ca0981a04cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 011/129] fix: spectral irregularity did not look at the
 adjacent partial

---
 include/edsp/feature/spectral/spectral_irregularity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/spectral/spectral_irregularity.hpp b/include/edsp/feature/spectral/spectral_irregularity.hpp
index 6063c46..ad6bd87 100644
--- a/include/edsp/feature/spectral/spectral_irregularity.hpp
+++ b/include/edsp/feature/spectral/spectral_irregularity.hpp
@@ -52,7 +52,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
         value_type square_diff = 0, square_ampl = 0;
         for (auto until = (last - 1); first != until; ++first) {
-            const value_type diff = (*first + 1) - (*first);
+            const value_type diff = *std::next(first) - *first;
             square_diff += diff * diff;
             square_ampl += (*first) * (*first);
         }
-- 
2.43.0


From 2a523c7e76d4527b253f0c953f4fac3ab458a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 012/129] fix: is_odd was false for negative odd numbers

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index f54e39c..e167f09 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -47,7 +47,7 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_odd(T x) {
-        return (x % 2) == 1;
+        return (x % 2) != 0;
     }
 
     /**
-- 
2.43.0


From 72c76b826a8ecd676af2c565111d4b695e8c72cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:34 +0000
Subject: [PATCH 013/129] fix: power of two helpers truncated their argument to
 32 bits and accepted INT_MIN

---
 include/edsp/math/numeric.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index e167f09..818d7d3 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -67,7 +67,10 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_power_two(T x) {
-        const auto tmp = static_cast<std::int32_t>(x);
+        if (is_negative(x)) {
+            return false;
+        }
+        const auto tmp = static_cast<std::uint64_t>(x);
         return tmp != 0 && !(tmp & (tmp - 1));
     }
 
@@ -168,13 +171,14 @@ namespace edsp { inline namespace math {
         } else if (is_power_two(x)) {
             return x;
         } else {
-            auto _x = static_cast<int32_t>(x);
+            auto _x = static_cast<std::uint64_t>(x);
             --_x;
             _x |= _x >> 1;
             _x |= _x >> 2;
             _x |= _x >> 4;
             _x |= _x >> 8;
             _x |= _x >> 16;
+            _x |= _x >> 32;
             return static_cast<T>(_x + 1);
         }
     }
-- 
2.43.0


From 26403fd785ef62c85ac64360912d0568bc60f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:34 +0000
Subject: [PATCH 014/129] fix: is_prime was false for every prime above three

---
 include/edsp/math/numeric.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 818d7d3..5b1f198 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -131,6 +131,8 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_prime(T x) {
+        if (is_negative(x))
+            return 0;
         auto n = static_cast<std::uint64_t>(x);
         if (n <= 1)
             return 0;
@@ -141,12 +143,12 @@ namespace edsp { inline namespace math {
         else if (!(n % 3))
             return 0;
         std::uint64_t r = 5;
-        while (r * r <= n) {
+        while (r <= n / r) {
             if ((n % r) == 0 || (n % (r + 2)) == 0)
                 return 0;
             r += 6;
         }
-        return false;
+        return true;
     }
 
     /**
-- 
2.43.0


From 8659691578e117fdf37ab935766b90e769fcc99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:34 +0000
Subject: [PATCH 015/129] fix: the manhattan distance could be negative

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 5b1f198..4a9a332 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -294,7 +294,7 @@ namespace edsp { inline namespace math {
         struct distance<distances::manhattan> {
             template <typename T>
             constexpr T operator()(T x, T y) noexcept {
-                return x - y;
+                return x < y ? y - x : x - y;
             }
         };
 
-- 
2.43.0


From 7051ba7c27e27c666bf24f3212dcd2b0e5d93d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:34 +0000
Subject: [PATCH 016/129] fix: equal compared every floating point type in
 single precision

---
 include/edsp/meta/equal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/meta/equal.hpp b/include/edsp/meta/equal.hpp
index a1b333c..f8f1807 100644
--- a/include/edsp/meta/equal.hpp
+++ b/include/edsp/meta/equal.hpp
@@ -33,8 +33,8 @@ namespace edsp { namespace meta {
 
         template <typename T, bool = std::is_floating_point<T>::value>
         struct _equal {
-            constexpr bool operator()(const float& lhs, const float& rhs) {
-                return std::abs(lhs - rhs) < std::numeric_limits<float>::epsilon();
+            constexpr bool operator()(const T& lhs, const T& rhs) {
+                return lhs == rhs || std::abs(lhs - rhs) < std::numeric_limits<T>::epsilon();
             }
         };
 
-- 
2.43.0


From 6b04b57947852322e892d53ed393a45b21a3c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:34 +0000
Subject: [PATCH 017/129] fix: decrease divided by zero at the first element

---
 include/edsp/feature/spectral/spectral_decrease.hpp | 2 +-
 include/edsp/feature/statistics/decrease.hpp        | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_decrease.hpp b/include/edsp/feature/spectral/spectral_decrease.hpp
index 0426ca6..a281d67 100644
--- a/include/edsp/feature/spectral/spectral_decrease.hpp
+++ b/include/edsp/feature/spectral/spectral_decrease.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace feature { inline namespace spectral {
      * The spectral decrease represents the amount of decreasing of the spectral amplitude. It is defined as:
      * \f[
      *
-     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(n-1)}{n}
+     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(0)}{n}
      *
      * \f]
      *
diff --git a/include/edsp/feature/statistics/decrease.hpp b/include/edsp/feature/statistics/decrease.hpp
index 6ad28d6..1578aba 100644
--- a/include/edsp/feature/statistics/decrease.hpp
+++ b/include/edsp/feature/statistics/decrease.hpp
@@ -37,7 +37,7 @@ namespace edsp { namespace feature { inline namespace statistics {
      * The decrease factor represents the amount of decreasing of the signal amplitude. It is defined as:
      * \f[
      *
-     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(n-1)}{n}
+     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(0)}{n}
      *
      * \f]
      *
@@ -51,7 +51,9 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_t       = typename std::iterator_traits<ForwardIt>::value_type;
         auto weighted_sum   = static_cast<value_t>(0);
         auto unweighted_sum = static_cast<value_t>(0);
-        for (value_t i = 0, initial = *first; first != last; ++first, ++i) {
+        const auto initial  = *first;
+        ++first;
+        for (value_t i = 1; first != last; ++first, ++i) {
             weighted_sum += ((*first) - initial) / i;
             unweighted_sum += *first;
         }
-- 
2.43.0


From 229a5f4c55540fcd5210bfecec94159aaae4a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:34 +0000
Subject: [PATCH 018/129] fix: entropy was NaN when an element is zero

---
 include/edsp/feature/spectral/spectral_entropy.hpp | 2 +-
 include/edsp/feature/statistics/entropy.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_entropy.hpp b/include/edsp/feature/spectral/spectral_entropy.hpp
index 6505010..e5285f6 100644
--- a/include/edsp/feature/spectral/spectral_entropy.hpp
+++ b/include/edsp/feature/spectral/spectral_entropy.hpp
@@ -58,7 +58,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         const auto sum       = std::accumulate(first, last, static_cast<input_t>(0));
         const auto predicate = [&](const input_t accumulated, const input_t current) {
             const auto normalized = current / sum;
-            return (accumulated + std::log2(normalized) * normalized);
+            return normalized == 0 ? accumulated : (accumulated + std::log2(normalized) * normalized);
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
diff --git a/include/edsp/feature/statistics/entropy.hpp b/include/edsp/feature/statistics/entropy.hpp
index 92bbcb9..ab5e5e9 100644
--- a/include/edsp/feature/statistics/entropy.hpp
+++ b/include/edsp/feature/statistics/entropy.hpp
@@ -51,7 +51,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     constexpr meta::value_type_t<ForwardIt> entropy(ForwardIt first, ForwardIt last) {
         using input_t        = meta::value_type_t<ForwardIt>;
         const auto predicate = [](const input_t accumulated, const input_t current) {
-            return (accumulated + std::log2(current) * current);
+            return current == 0 ? accumulated : (accumulated + std::log2(current) * current);
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
-- 
2.43.0


From 4787df688c251b1e88b3342c27be73547536c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:34 +0000
Subject: [PATCH 019/129] fix: audspace called the space generators with the
 wrong arguments

---
 include/edsp/auditory/audspace.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/auditory/audspace.hpp b/include/edsp/auditory/audspace.hpp
index 82397a9..4ed7659 100644
--- a/include/edsp/auditory/audspace.hpp
+++ b/include/edsp/auditory/audspace.hpp
@@ -55,16 +55,16 @@ namespace edsp { namespace auditory {
     constexpr void audspace(OutputIt d_first, Numeric min, Numeric max, Integer N, auditory_scale scale) {
         switch (scale) {
             case auditory_scale::mel:
-                melspace(d_first, min, max, N);
+                melspace(d_first, std::next(d_first, N), min, max);
                 break;
             case auditory_scale::erb:
-                erbspace(d_first, min, max, N);
+                erbspace(d_first, std::next(d_first, N), min, max);
                 break;
             case auditory_scale::bark:
-                barkspace(d_first, min, max, N);
+                barkspace(d_first, std::next(d_first, N), min, max);
                 break;
             case auditory_scale::cent:
-                centspace(d_first, min, max, N);
+                centspace(d_first, std::next(d_first, N), min, max);
                 break;
         }
     }
-- 
2.43.0


From 36d07053ddc9fab12de98b6c1b2a1ce08df1d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:34 +0000
Subject: [PATCH 020/129] fix: median always returned zero

---
 include/edsp/statistics/median.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/edsp/statistics/median.hpp b/include/edsp/statistics/median.hpp
index 2da6ad5..50b6219 100644
--- a/include/edsp/statistics/median.hpp
+++ b/include/edsp/statistics/median.hpp
@@ -23,7 +23,7 @@
 #define EDSP_STATISTICAL_MEDIANT_HPP
 
 #include <edsp/meta/iterator.hpp>
-#include <edsp/meta/unused.hpp>
+#include <vector>
 #include <algorithm>
 #include <numeric>
 
@@ -42,10 +42,15 @@ namespace edsp { namespace statistics {
      */
     template <typename ForwardIt>
     constexpr meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
-        // TODO: implement the median: do not use sorting algorithm.
-        meta::unused(first);
-        meta::unused(last);
-        return 0;
+        using value_type = meta::value_type_t<ForwardIt>;
+        std::vector<value_type> data(first, last);
+        const auto middle = std::begin(data) + static_cast<std::ptrdiff_t>(data.size() / 2);
+        std::nth_element(std::begin(data), middle, std::end(data));
+        if (data.size() % 2 != 0) {
+            return *middle;
+        }
+        const auto lower = *std::max_element(std::begin(data), middle);
+        return lower + (*middle - lower) / static_cast<value_type>(2);
     }
 
 }} // namespace edsp::statistics
-- 
2.43.0


From 3e09a1352fa49561ee1bed69a999fdafe6733113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:26 +0000
Subject: [PATCH 021/129] fix: the default percentage of spectral_rolloff could
 not be used

---
 include/edsp/feature/spectral/spectral_rolloff.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/spectral/spectral_rolloff.hpp b/include/edsp/feature/spectral/spectral_rolloff.hpp
index 57a1234..d6f9691 100644
--- a/include/edsp/feature/spectral/spectral_rolloff.hpp
+++ b/include/edsp/feature/spectral/spectral_rolloff.hpp
@@ -43,7 +43,7 @@ namespace edsp { namespace feature { inline namespace spectral {
      * @return Estimated roll-off index.
      * @see statistics::rolloff
      */
-    template <typename ForwardIt, typename Numeric>
+    template <typename ForwardIt, typename Numeric = double>
     constexpr auto spectral_rolloff(ForwardIt first, ForwardIt last, Numeric percentage = 0.95) {
         return statistics::rolloff(first, last, percentage);
     }
-- 
2.43.0


From 5f850a40baf06ae2700e81dcd563586af63f49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:49 +0000
Subject: [PATCH 022/129] fix: a moved ring buffer referred to the storage of
 the original and none could be copied

---
 include/edsp/types/fixed_ring_buffer.hpp | 25 ++++++++++++---
 include/edsp/types/ring_buffer.hpp       | 41 +++++++++++++++++-------
 2 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 726b8c1..7ba0894 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -58,11 +58,26 @@ namespace edsp { inline namespace types {
         typedef std::ptrdiff_t difference_type;
         typedef std::array<T, MaxSize> container_type;
 
-        fixed_ring_buffer()                             = default;
-        fixed_ring_buffer(const fixed_ring_buffer&)     = default;
-        fixed_ring_buffer(fixed_ring_buffer&&) noexcept = default;
-        fixed_ring_buffer& operator=(const fixed_ring_buffer&) = default;
-        fixed_ring_buffer& operator=(fixed_ring_buffer&&) noexcept = default;
+        fixed_ring_buffer() = default;
+
+        /**
+         *  @brief Creates a %fixed_ring_buffer with a copy of the elements of another one.
+         */
+        fixed_ring_buffer(const fixed_ring_buffer& other) {
+            for (const auto& element : other) {
+                push_back(element);
+            }
+        }
+
+        fixed_ring_buffer& operator=(const fixed_ring_buffer& other) {
+            if (this != &other) {
+                clear();
+                for (const auto& element : other) {
+                    push_back(element);
+                }
+            }
+            return *this;
+        }
 
         /**
          *  @brief Default destructor.
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index f3e6da6..bada4f9 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -28,6 +28,7 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <utility>
 #include <vector>
 
 namespace edsp { inline namespace types {
@@ -45,7 +46,6 @@ namespace edsp { inline namespace types {
      * @tparam T  Type of element.
      * @tparam Allocator  Allocator type, defaults to std::allocator<T>.
      */
-    // TODO: Check why the default copy constructor is disabled!
     template <typename T, typename Allocator = std::allocator<T>>
     class ring_buffer {
     public:
@@ -62,11 +62,30 @@ namespace edsp { inline namespace types {
         typedef std::ptrdiff_t difference_type;
         typedef std::vector<T, Allocator> container_type;
 
-        constexpr ring_buffer()                       = default;
-        constexpr ring_buffer(const ring_buffer&)     = default;
-        constexpr ring_buffer(ring_buffer&&) noexcept = default;
-        constexpr ring_buffer& operator=(const ring_buffer&) = default;
-        constexpr ring_buffer& operator=(ring_buffer&&) noexcept = default;
+        ring_buffer() = default;
+
+        /**
+         *  @brief Creates a %ring_buffer with the capacity and a copy of the elements of another one.
+         */
+        ring_buffer(const ring_buffer& other) : buffer_(other.capacity(), value_type(), other.buffer_.get_allocator()) {
+            for (const auto& element : other) {
+                push_back(element);
+            }
+        }
+
+        /**
+         *  @brief Creates a %ring_buffer with the storage of another one, which is left empty and without capacity.
+         */
+        ring_buffer(ring_buffer&& other) noexcept : buffer_(std::move(other.buffer_)), ring_(std::move(other.ring_)) {
+            other.buffer_.clear();
+            other.clear();
+        }
+
+        ring_buffer& operator=(ring_buffer other) noexcept {
+            buffer_.swap(other.buffer_);
+            ring_.swap(other.ring_);
+            return *this;
+        }
 
         /**
          *  @brief Creates a %ring_buffer with default constructed elements.
@@ -77,7 +96,7 @@ namespace edsp { inline namespace types {
          */
         explicit ring_buffer(size_type N) {
             buffer_.resize(N);
-            ring_ = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_));
+            ring_ = edsp::ring_span<T>(buffer_.data(), buffer_.data() + buffer_.size());
         }
 
         /**
@@ -88,7 +107,7 @@ namespace edsp { inline namespace types {
          */
         ring_buffer(size_type N, const value_type& value) {
             buffer_.resize(N);
-            ring_ = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_), std::begin(buffer_), N);
+            ring_ = edsp::ring_span<T>(buffer_.data(), buffer_.data() + N, buffer_.data(), N);
             std::fill(begin(), end(), value);
         }
 
@@ -108,7 +127,7 @@ namespace edsp { inline namespace types {
          */
         void resize(size_type size) {
             buffer_.resize(size);
-            ring_ = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_));
+            ring_ = edsp::ring_span<T>(buffer_.data(), buffer_.data() + buffer_.size());
         }
 
         /**
@@ -118,7 +137,7 @@ namespace edsp { inline namespace types {
          *  the user's responsibility.
          */
         void clear() {
-            ring_ = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_), std::begin(buffer_), 0);
+            ring_ = edsp::ring_span<T>(buffer_.data(), buffer_.data() + buffer_.size());
         }
 
         /**
@@ -469,7 +488,7 @@ namespace edsp { inline namespace types {
 
     private:
         container_type buffer_{};
-        edsp::ring_span<T> ring_{std::begin(buffer_), std::end(buffer_)};
+        edsp::ring_span<T> ring_{buffer_.data(), buffer_.data() + buffer_.size()};
     };
 
 }} // namespace edsp::types
-- 
2.43.0


From 9e7792f56eaa1bfe9cb272ca8773183847820476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:49 +0000
Subject: [PATCH 023/129] fix: the subscript and checked access of the ring
 buffers did not compile

---
 include/edsp/types/fixed_ring_buffer.hpp | 15 +++++++++++----
 include/edsp/types/ring_buffer.hpp       | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 7ba0894..0bde96b 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -25,6 +25,7 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <stdexcept>
 #include <array>
 
 namespace edsp { inline namespace types {
@@ -281,7 +282,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -296,7 +297,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -311,7 +312,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring buffer index out of range");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -326,7 +330,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring buffer index out of range");
+            }
+            return (*this)[i];
         }
 
         /**
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index bada4f9..2400209 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -28,6 +28,7 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -323,7 +324,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -338,7 +339,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -353,7 +354,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring buffer index out of range");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -368,7 +372,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring buffer index out of range");
+            }
+            return (*this)[i];
         }
 
         /**
-- 
2.43.0


From a1df03883b106ddb3042766a39586ec316cee38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:49 +0000
Subject: [PATCH 024/129] fix: data() of the ring buffers did not compile

---
 include/edsp/types/fixed_ring_buffer.hpp | 2 +-
 include/edsp/types/ring_buffer.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 0bde96b..5ab510f 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -448,7 +448,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index 2400209..901e410 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -489,7 +489,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
-- 
2.43.0


From ca0176b0ad13e5943d0c650102d4a77eb0d5d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:49 +0000
Subject: [PATCH 025/129] fix: reset and resize of the moving filters left
 stale state and an empty window

---
 include/edsp/filter/moving_average_filter.hpp | 5 +++--
 include/edsp/filter/moving_median_filter.hpp  | 4 ++--
 include/edsp/filter/moving_rms_filter.hpp     | 5 +++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 1df4456..0c3e91a 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -105,7 +105,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -116,7 +116,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_      = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_median_filter.hpp b/include/edsp/filter/moving_median_filter.hpp
index a8251b7..74147a2 100644
--- a/include/edsp/filter/moving_median_filter.hpp
+++ b/include/edsp/filter/moving_median_filter.hpp
@@ -100,7 +100,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -111,7 +111,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 92dde0f..8ada2f2 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -106,7 +106,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -117,7 +117,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_      = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
-- 
2.43.0


From 053d442984f430f5a6c8860121fd60068fde2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:49 +0000
Subject: [PATCH 026/129] fix: rounding could make moving_rms return NaN

---
 include/edsp/filter/moving_rms_filter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 8ada2f2..50d6316 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -23,6 +23,7 @@
 #define EDSP_MOVING_RMS_FILTER_HPP
 
 #include <edsp/types/ring_buffer.hpp>
+#include <algorithm>
 #include <cmath>
 
 namespace edsp { namespace filter {
@@ -127,7 +128,7 @@ namespace edsp { namespace filter {
         accumulated_ -= window_.front();
         accumulated_ += sqr;
         window_.push_back(sqr);
-        return std::sqrt(accumulated_ / static_cast<T>(window_.size()));
+        return std::sqrt(std::max(accumulated_, T()) / static_cast<T>(window_.size()));
     }
 
 }} // namespace edsp::filter
-- 
2.43.0


From 08cf4b471a07aa1dd01beb0edcd4e976174b2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:16 +0000
Subject: [PATCH 027/129] fix: a transform engine reused its first plan for
 other transforms, buffers and copies

---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 155 +++++++++++++++---
 1 file changed, 133 insertions(+), 22 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index f015ea7..0c0ba5f 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -35,6 +35,17 @@
 
 namespace edsp { inline namespace spectral {
     namespace internal {
+        enum class fftw_transform {
+            complex_forward,
+            complex_backward,
+            real_forward,
+            real_backward,
+            hartley,
+            cosine_forward,
+            cosine_backward
+        };
+        constexpr int fftw_transforms = 7;
+
         template <typename T>
         inline T* fftw_cast(const T* p) noexcept {
             return const_cast<T*>(p);
@@ -60,63 +71,79 @@ namespace edsp { inline namespace spectral {
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
-        ~fftw_impl() {
-            if (!meta::is_null(plan_)) {
-                fftwf_destroy_plan(plan_);
+        // The plans are not shared: a copy creates its own ones on demand.
+        fftw_impl(const fftw_impl& other) : nfft_(other.nfft_) {}
+
+        fftw_impl& operator=(const fftw_impl& other) {
+            if (this != &other) {
+                destroy_plans();
+                nfft_ = other.nfft_;
             }
+            return *this;
+        }
+
+        ~fftw_impl() {
+            destroy_plans();
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::complex_forward, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          flags(src, dst));
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::complex_backward, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          flags(src, dst));
             }
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::real_forward, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
-                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                              flags(src, dst));
             }
             fftwf_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::real_backward, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
-                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                              flags(src, dst));
             }
             fftwf_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::hartley, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          flags(src, dst));
             }
             fftwf_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dct(const value_type* src, value_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::cosine_forward, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          flags(src, dst));
             }
             fftwf_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idct(const value_type* src, value_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::cosine_backward, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          flags(src, dst));
             }
             fftwf_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -143,7 +170,41 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
-        ::fftwf_plan plan_{nullptr};
+        // A plan only applies to the kind of transform it was created for and to buffers that overlap and are aligned
+        // in the same way as the ones it was created with.
+        template <typename Src, typename Dst>
+        ::fftwf_plan& plan_for(internal::fftw_transform transform, const Src* src, const Dst* dst) {
+            const auto in_place = static_cast<const void*>(src) == static_cast<const void*>(dst);
+            return plans_[static_cast<int>(transform)][in_place ? 1 : 0][is_aligned(src, dst) ? 1 : 0];
+        }
+
+        template <typename Src, typename Dst>
+        static bool is_aligned(const Src* src, const Dst* dst) {
+            const auto alignment = [](const void* p) {
+                return fftwf_alignment_of(const_cast<value_type*>(static_cast<const value_type*>(p)));
+            };
+            return alignment(src) == 0 && alignment(dst) == 0;
+        }
+
+        template <typename Src, typename Dst>
+        static unsigned flags(const Src* src, const Dst* dst) {
+            return FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | (is_aligned(src, dst) ? 0u : FFTW_UNALIGNED);
+        }
+
+        void destroy_plans() {
+            for (auto& transform : plans_) {
+                for (auto& placement : transform) {
+                    for (auto& plan : placement) {
+                        if (!meta::is_null(plan)) {
+                            fftwf_destroy_plan(plan);
+                            plan = nullptr;
+                        }
+                    }
+                }
+            }
+        }
+
+        ::fftwf_plan plans_[internal::fftw_transforms][2][2]{};
         size_type nfft_;
     };
 
@@ -155,60 +216,76 @@ namespace edsp { inline namespace spectral {
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
-        ~fftw_impl() {
-            if (!meta::is_null(plan_)) {
-                fftw_destroy_plan(plan_);
+        // The plans are not shared: a copy creates its own ones on demand.
+        fftw_impl(const fftw_impl& other) : nfft_(other.nfft_) {}
+
+        fftw_impl& operator=(const fftw_impl& other) {
+            if (this != &other) {
+                destroy_plans();
+                nfft_ = other.nfft_;
             }
+            return *this;
+        }
+
+        ~fftw_impl() {
+            destroy_plans();
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::complex_forward, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         flags(src, dst));
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::complex_backward, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         flags(src, dst));
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::real_forward, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
-                                             FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                             flags(src, dst));
             fftw_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::real_backward, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
-                                             FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                             flags(src, dst));
             fftw_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::hartley, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         flags(src, dst));
             }
             fftw_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dct(const value_type* src, value_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::cosine_forward, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         flags(src, dst));
             }
             fftw_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idct(const value_type* src, value_type* dst) {
+            auto& plan_ = plan_for(internal::fftw_transform::cosine_backward, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         flags(src, dst));
             }
             fftw_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -235,7 +312,41 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
-        ::fftw_plan plan_{nullptr};
+        // A plan only applies to the kind of transform it was created for and to buffers that overlap and are aligned
+        // in the same way as the ones it was created with.
+        template <typename Src, typename Dst>
+        ::fftw_plan& plan_for(internal::fftw_transform transform, const Src* src, const Dst* dst) {
+            const auto in_place = static_cast<const void*>(src) == static_cast<const void*>(dst);
+            return plans_[static_cast<int>(transform)][in_place ? 1 : 0][is_aligned(src, dst) ? 1 : 0];
+        }
+
+        template <typename Src, typename Dst>
+        static bool is_aligned(const Src* src, const Dst* dst) {
+            const auto alignment = [](const void* p) {
+                return fftw_alignment_of(const_cast<value_type*>(static_cast<const value_type*>(p)));
+            };
+            return alignment(src) == 0 && alignment(dst) == 0;
+        }
+
+        template <typename Src, typename Dst>
+        static unsigned flags(const Src* src, const Dst* dst) {
+            return FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | (is_aligned(src, dst) ? 0u : FFTW_UNALIGNED);
+        }
+
+        void destroy_plans() {
+            for (auto& transform : plans_) {
+                for (auto& placement : transform) {
+                    for (auto& plan : placement) {
+                        if (!meta::is_null(plan)) {
+                            fftw_destroy_plan(plan);
+                            plan = nullptr;
+                        }
+                    }
+                }
+            }
+        }
+
+        ::fftw_plan plans_[internal::fftw_transforms][2][2]{};
         size_type nfft_;
     };
 }} // namespace edsp::spectral
-- 
2.43.0


From 20a73aa448025ae6d125957d118d5fd634857e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:49 +0000
Subject: [PATCH 028/129] fix: the real inverse DFT of a single bin crashed

---
 include/edsp/spectral/dft.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/edsp/spectral/dft.hpp b/include/edsp/spectral/dft.hpp
index e67865f..781bf01 100644
--- a/include/edsp/spectral/dft.hpp
+++ b/include/edsp/spectral/dft.hpp
@@ -115,6 +115,9 @@ namespace edsp { inline namespace spectral {
     void idft(InputIt first, InputIt last, OutputIt d_first) {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
         const auto nfft  = make_ifft_size(std::distance(first, last));
+        if (nfft < 1) {
+            return;
+        }
         fft_engine<value_type> plan((typename fft_engine<value_type>::size_type) nfft);
         plan.idft(&(*first), &(*d_first));
         plan.idft_scale(&(*d_first));
-- 
2.43.0


From 82aec23e0790bd884c4294de8a577c684b803488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:50 +0000
Subject: [PATCH 029/129] fix: the biased correlation was scaled twice and the
 unbiased one not at all

---
 include/edsp/spectral/correlation.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/edsp/spectral/correlation.hpp b/include/edsp/spectral/correlation.hpp
index b67dfeb..1ec0efc 100644
--- a/include/edsp/spectral/correlation.hpp
+++ b/include/edsp/spectral/correlation.hpp
@@ -33,8 +33,8 @@ namespace edsp { inline namespace spectral {
     */
     enum class CorrelationScale {
         None,    /*!< Raw, unscaled cross-correlation. */
-        Biased,  /*!< Biased estimate of the cross-correlation. */
-        Unbiased /*!< Unbiased estimate of the cross-correlation. */
+        Biased,  /*!< Biased estimate of the cross-correlation: the raw one over the number of samples. */
+        Unbiased /*!< Unbiased estimate of the cross-correlation: the raw one over the samples that overlap. */
     };
 
     /**
@@ -75,9 +75,15 @@ namespace edsp { inline namespace spectral {
             [](const std::complex<value_type>& val) -> std::complex<value_type> { return val * std::conj(val); });
 
         ifft_.idft(meta::data(fft_data_), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
+        auto lag = decltype(size){0};
         std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+                       [nfft, size, scale, &lag](value_type val) {
+                           const auto overlap = size - lag++;
+                           const auto divisor = scale == CorrelationScale::Biased
+                                                    ? size
+                                                    : (scale == CorrelationScale::Unbiased ? overlap : 1);
+                           return val / static_cast<value_type>(nfft) / static_cast<value_type>(divisor);
+                       });
     }
 
     /**
@@ -126,9 +132,15 @@ namespace edsp { inline namespace spectral {
                            -> std::complex<value_type> { return left * std::conj(right); });
 
         ifft_.idft(meta::data(fft_data1), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
+        auto lag = decltype(size){0};
         std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+                       [nfft, size, scale, &lag](value_type val) {
+                           const auto overlap = size - lag++;
+                           const auto divisor = scale == CorrelationScale::Biased
+                                                    ? size
+                                                    : (scale == CorrelationScale::Unbiased ? overlap : 1);
+                           return val / static_cast<value_type>(nfft) / static_cast<value_type>(divisor);
+                       });
     }
 
 }}     // namespace edsp::spectral
-- 
2.43.0


From 05f3f9f4c99ee8385ef25839e959cb223cc8473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:10 +0000
Subject: [PATCH 030/129] fix: some window headers did not include the
 constants they use

---
 include/edsp/windowing/blackman_harris.hpp  | 1 +
 include/edsp/windowing/blackman_nuttall.hpp | 1 +
 include/edsp/windowing/hanning.hpp          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/edsp/windowing/blackman_harris.hpp b/include/edsp/windowing/blackman_harris.hpp
index 0731ea7..0042828 100644
--- a/include/edsp/windowing/blackman_harris.hpp
+++ b/include/edsp/windowing/blackman_harris.hpp
@@ -23,6 +23,7 @@
 #define EDSP_BLACKMANHARRIS_HARRIS_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <cmath>
 
diff --git a/include/edsp/windowing/blackman_nuttall.hpp b/include/edsp/windowing/blackman_nuttall.hpp
index 21fdab2..b1fd35d 100644
--- a/include/edsp/windowing/blackman_nuttall.hpp
+++ b/include/edsp/windowing/blackman_nuttall.hpp
@@ -23,6 +23,7 @@
 #define EDSP_BLACKMAN_NUTTAL_HARRIS_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 
 namespace edsp { namespace windowing {
diff --git a/include/edsp/windowing/hanning.hpp b/include/edsp/windowing/hanning.hpp
index 82c3fa1..166373f 100644
--- a/include/edsp/windowing/hanning.hpp
+++ b/include/edsp/windowing/hanning.hpp
@@ -23,6 +23,7 @@
 #define EDSP_HANNING_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <cmath>
 
-- 
2.43.0


From ad644c0cbd644588de53f607baf251070f7df6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:10 +0000
Subject: [PATCH 031/129] fix: the welch window was not symmetric for even
 lengths

---
 include/edsp/windowing/welch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/welch.hpp b/include/edsp/windowing/welch.hpp
index bbc3461..c7d5e14 100644
--- a/include/edsp/windowing/welch.hpp
+++ b/include/edsp/windowing/welch.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type   = meta::value_type_t<OutputIt>;
         using size_type    = meta::diff_type_t<OutputIt>;
         const auto size    = static_cast<size_type>(std::distance(first, last));
-        const value_type L = size / 2;
+        const value_type L = static_cast<value_type>(size - 1) / 2;
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - math::square(static_cast<value_type>(i - L) / L);
         }
-- 
2.43.0


From 059805943960753cfc05cb0dfacf5f127ff25857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:10 +0000
Subject: [PATCH 032/129] fix: the triangular window was wrong for lengths of
 the form 4k+3

---
 include/edsp/windowing/triangular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/triangular.hpp b/include/edsp/windowing/triangular.hpp
index 415b0af..73d0f79 100644
--- a/include/edsp/windowing/triangular.hpp
+++ b/include/edsp/windowing/triangular.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type     = meta::value_type_t<OutputIt>;
         using size_type      = meta::diff_type_t<OutputIt>;
         const auto size      = static_cast<size_type>(std::distance(first, last));
-        const value_type rem = size + std::remainder(size, 2);
+        const value_type rem = size + size % 2;
         value_type initial   = -(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - std::abs(initial / rem);
-- 
2.43.0


From db8531d07863a95f5cee50f544fe07f65fea4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 033/129] fix: place the zero of a single pole/zero biquad
 where it was asked for

biquad(pole, zero) built -zero + z^-1, whose zero lies at 1/zero (and whose
polarity is inverted for a zero at one) instead of 1 - zero*z^-1.
---
 include/edsp/filter/biquad.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 52b5be2..28bcdca 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -232,8 +232,8 @@ namespace edsp { namespace filter {
     template <typename T>
     constexpr biquad<T>::biquad(const std::complex<T>& pole, const std::complex<T>& zero) :
         b2_(0),
-        b1_(1),
-        b0_(-zero.real()),
+        b1_(-zero.real()),
+        b0_(1),
         a2_(0),
         a1_(-pole.real()),
         a0_(1) {
-- 
2.43.0


From d2a21c7ca0fb51b53b7e68b567658f5cd5e5a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 034/129] fix: honour the biquad coefficient a0 set with set_a0

The documented difference equation divides by a0, but neither tick nor
stability looked at it, so set_a0 had no effect on the filter.
---
 include/edsp/filter/biquad.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 28bcdca..1b8c7ae 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -275,7 +275,7 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr bool biquad<T>::stability() const noexcept {
-        return std::abs(a2_) < 1 && (std::abs(a1_) < (1 + a2_));
+        return std::abs(a2_ / a0_) < 1 && (std::abs(a1_ / a0_) < (1 + a2_ / a0_));
     }
 
     template <typename T>
@@ -324,7 +324,7 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr typename biquad<T>::value_type biquad<T>::tick(const value_type value) noexcept {
-        const auto out = b0_ * value + w0_;
+        const auto out = (b0_ * value + w0_) / a0_;
         w0_            = b1_ * value - a1_ * out + w1_;
         w1_            = b2_ * value - a2_ * out;
         return out;
-- 
2.43.0


From 042ae6000b3ef1bc12a637bd529f1f9a9c2d7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 035/129] fix: make the Zoelzer shelving filters cut

The cut branches expect V to be the magnitude of the gain, so a negative gain
boosted instead, and the high shelf passed its coefficients to the biquad in
the wrong order.
---
 include/edsp/filter/internal/zoelzer_designer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/filter/internal/zoelzer_designer.hpp b/include/edsp/filter/internal/zoelzer_designer.hpp
index acaab1d..3fd9a26 100644
--- a/include/edsp/filter/internal/zoelzer_designer.hpp
+++ b/include/edsp/filter/internal/zoelzer_designer.hpp
@@ -82,7 +82,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::LowShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -108,7 +108,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::HighShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -125,7 +125,7 @@ namespace edsp { namespace filter {
                 const auto b2   = (1 - constants<T>::root_two * K + K * K) * norm;
                 const auto a1   = 2 * (K * K - V) * norm;
                 const auto a2   = (V - std::sqrt(2 * V) * K + K * K) * norm;
-                return biquad<T>(b0, b1, b2, a1, a1, a2);
+                return biquad<T>(1, a1, a2, b0, b1, b2);
             }
         }
     };
-- 
2.43.0


From 17bcc2f4d5ed568732eacb32389316024de7ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 036/129] fix: normalise band-pass designs at their centre
 frequency

The centre of a bilinear band-pass is the geometric mean of the pre-warped band
edges; the gain was set at the root of their sum, far off the centre, which left
the pass band with tens of decibels of gain.
---
 include/edsp/filter/internal/bilinear/bandpass_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
index 79d29d0..849d642 100644
--- a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
@@ -76,7 +76,7 @@ namespace edsp { namespace filter {
             }
 
             const auto wn = analog.w();
-            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) + std::tan((wc2 + wn) * 0.5))));
+            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) * std::tan((wc2 + wn) * 0.5))));
             digital.set_gain(analog.gain());
         }
 
-- 
2.43.0


From f8f83097dcb6a3a0b859cc560686b40dbd9c2be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 037/129] fix: give odd-order analog prototypes a real zero at
 infinity

The single zero of an odd-order layout has to be real; the complex infinity
violated the expectation of complex_pair, which logs two errors per design and
aborts when assertions are enabled.
---
 include/edsp/filter/internal/butterworth_designer.hpp  | 2 +-
 include/edsp/filter/internal/chebyshev_II_designer.hpp | 2 +-
 include/edsp/filter/internal/chebyshev_I_designer.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/filter/internal/butterworth_designer.hpp b/include/edsp/filter/internal/butterworth_designer.hpp
index 52ab5c8..20ad547 100644
--- a/include/edsp/filter/internal/butterworth_designer.hpp
+++ b/include/edsp/filter/internal/butterworth_designer.hpp
@@ -54,7 +54,7 @@ namespace edsp { namespace filter {
                 }
 
                 if (math::is_odd(num_poles)) {
-                    analog.insert(std::complex<T>(-1, 0), math::infinity<T>());
+                    analog.insert(std::complex<T>(-1, 0), std::complex<T>(std::numeric_limits<T>::infinity(), 0));
                 }
             }
         };
diff --git a/include/edsp/filter/internal/chebyshev_II_designer.hpp b/include/edsp/filter/internal/chebyshev_II_designer.hpp
index b1b6dd0..2274aa4 100644
--- a/include/edsp/filter/internal/chebyshev_II_designer.hpp
+++ b/include/edsp/filter/internal/chebyshev_II_designer.hpp
@@ -57,7 +57,7 @@ namespace edsp { namespace filter {
                 }
 
                 if (math::is_odd(num_poles)) {
-                    analog.insert(std::complex<T>(math::inv(sinh_v0), 0), math::infinity<T>());
+                    analog.insert(std::complex<T>(math::inv(sinh_v0), 0), std::complex<T>(std::numeric_limits<T>::infinity(), 0));
                 }
             }
         };
diff --git a/include/edsp/filter/internal/chebyshev_I_designer.hpp b/include/edsp/filter/internal/chebyshev_I_designer.hpp
index ab4e35a..84b4921 100644
--- a/include/edsp/filter/internal/chebyshev_I_designer.hpp
+++ b/include/edsp/filter/internal/chebyshev_I_designer.hpp
@@ -55,7 +55,7 @@ namespace edsp { namespace filter {
                 }
 
                 if (math::is_odd(num_poles)) {
-                    analog.insert(std::complex<T>(sinh_v0, 0), math::infinity<T>());
+                    analog.insert(std::complex<T>(sinh_v0, 0), std::complex<T>(std::numeric_limits<T>::infinity(), 0));
                     analog.set_w(0);
                     analog.set_gain(1);
                 } else {
-- 
2.43.0


From 1b6eea933257b37f14128ab60f6146314b308167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:42 +0000
Subject: [PATCH 038/129] fix: design a flat Chebyshev shelf for a gain of 0 dB

A zero gain made eps zero and every coefficient NaN. Any other eps places the
zeros on the poles, which is the requested flat response.
---
 include/edsp/filter/internal/chebyshev_II_designer.hpp | 2 +-
 include/edsp/filter/internal/chebyshev_I_designer.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/internal/chebyshev_II_designer.hpp b/include/edsp/filter/internal/chebyshev_II_designer.hpp
index 2274aa4..0896999 100644
--- a/include/edsp/filter/internal/chebyshev_II_designer.hpp
+++ b/include/edsp/filter/internal/chebyshev_II_designer.hpp
@@ -83,7 +83,7 @@ namespace edsp { namespace filter {
                 const auto g0 = std::pow(G0, math::inv(static_cast<T>(num_poles)));
                 const auto eps =
                     (Gb != G0) ? std::sqrt((math::square(G) - math::square(Gb)) / (math::square(Gb) - math::square(G0)))
-                               : G - 1;
+                               : (G != G0 ? G - 1 : 1);
                 const auto exponent = std::sqrt(1 + math::inv(math::square(eps)));
                 const auto b        = std::pow(G / eps + Gb * exponent, math::inv(static_cast<T>(num_poles)));
                 const auto v      = std::log(std::pow(math::inv(eps) + exponent, math::inv(static_cast<T>(num_poles))));
diff --git a/include/edsp/filter/internal/chebyshev_I_designer.hpp b/include/edsp/filter/internal/chebyshev_I_designer.hpp
index 84b4921..880a921 100644
--- a/include/edsp/filter/internal/chebyshev_I_designer.hpp
+++ b/include/edsp/filter/internal/chebyshev_I_designer.hpp
@@ -86,7 +86,7 @@ namespace edsp { namespace filter {
                 const auto g0 = std::pow(G0, math::inv(num_poles));
                 const auto eps =
                     (Gb != G0) ? std::sqrt((math::square(G) - math::square(Gb)) / (math::square(Gb) - math::square(G0)))
-                               : G - 1;
+                               : (G != G0 ? G - 1 : 1);
                 const auto exponent = std::sqrt(1 + math::inv(math::square(eps)));
                 const auto b        = std::pow(G / eps + Gb * exponent, math::inv(static_cast<T>(num_poles)));
                 const auto u        = std::log(b / g0);
-- 
2.43.0


From c87a3a4060ef57cd5ad71ad2cc3a00fd06cb1836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:18 +0000
Subject: [PATCH 039/129] fix: use the bandwidth, not its inverse, in the
 band-stop transform

The low-pass to band-stop substitution takes tan of half the bandwidth; with the
cotangent of the band-pass the stop band came out as wide as the pass band
should have been (-20 dB instead of -3 dB at the edges of a first order filter).
---
 include/edsp/filter/internal/bilinear/bandstop_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
index 909fc0d..3cddf91 100644
--- a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
@@ -47,7 +47,7 @@ namespace edsp { namespace filter {
                 wc = constants<T>::pi - 1e-8;
 
             a  = std::cos((wc + wc2) * 0.5) / std::cos((wc - wc2) * 0.5);
-            b  = math::inv(std::tan((wc - wc2) * 0.5));
+            b  = std::tan((wc - wc2) * 0.5);
             a2 = a * a;
             b2 = b * b;
         }
-- 
2.43.0


From 5f2d4d280bdb3db8b585a53e3e43136c87ca84e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:33 +0000
Subject: [PATCH 040/129] fix: let a square oscillator follow set_frequency

set_frequency() left the inverse frequency, and the duty kept in seconds, at the
values of the old frequency, so the wave kept its old period and duty.
---
 include/edsp/oscillators/sinusoidal.hpp | 2 --
 include/edsp/oscillators/square.hpp     | 8 ++++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/edsp/oscillators/sinusoidal.hpp b/include/edsp/oscillators/sinusoidal.hpp
index aa93f17..b9500eb 100644
--- a/include/edsp/oscillators/sinusoidal.hpp
+++ b/include/edsp/oscillators/sinusoidal.hpp
@@ -136,7 +136,6 @@ namespace edsp { namespace oscillators {
         value_type sample_rate_{0.};
         value_type sampling_period_{0.};
         value_type frequency_{1.};
-        value_type inverse_frequency_{1.};
         value_type phase_{0.};
     };
 
@@ -147,7 +146,6 @@ namespace edsp { namespace oscillators {
         sample_rate_(sample_rate),
         sampling_period_(math::inv(sample_rate)),
         frequency_(frequency),
-        inverse_frequency_(math::inv(frequency)),
         phase_(phase) {}
 
     template <typename T>
diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index af62169..a123c82 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -98,19 +98,19 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr void square_oscillator<T>::set_duty(value_type duty) noexcept {
         meta::expects(duty >= 0 && duty <= 1, "duty must be a real number between 0 and 1.");
-        duty_ = duty * oscillator<T>::inverse_frequency_;
+        duty_ = duty;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::duty() const noexcept {
-        return duty_ * oscillator<T>::frequency_;
+        return duty_;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
-        const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
+        const auto t = std::fmod(oscillator<T>::frequency_ * oscillator<T>::timestamp_, 1);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (current_t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From 651aedd1edaadca76aac4a8f2d8e8750d80d103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:33 +0000
Subject: [PATCH 041/129] fix: make a square oscillator active during its duty
 cycle

The wave was low during the duty part and high during the rest, the opposite of
the documentation and of scipy's square().
---
 include/edsp/oscillators/square.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index a123c82..090fb81 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -110,7 +110,7 @@ namespace edsp { namespace oscillators {
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
         const auto t = std::fmod(oscillator<T>::frequency_ * oscillator<T>::timestamp_, 1);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (t < duty_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From dd5e63693faae4a5a32463e6c63922a6d2080957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:33 +0000
Subject: [PATCH 042/129] fix: keep the clock of an oscillator in double
 precision

A float oscillator accumulated its time in float: it drifted by several percent
within a minute at 44.1 kHz and stopped for good after 512 seconds, when the
sampling period falls below half an ulp of the time.
---
 include/edsp/oscillators/sawtooth.hpp   |  2 +-
 include/edsp/oscillators/sinusoidal.hpp | 18 ++++++++++--------
 include/edsp/oscillators/square.hpp     |  2 +-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/edsp/oscillators/sawtooth.hpp b/include/edsp/oscillators/sawtooth.hpp
index 16371eb..51a08f5 100644
--- a/include/edsp/oscillators/sawtooth.hpp
+++ b/include/edsp/oscillators/sawtooth.hpp
@@ -100,7 +100,7 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr typename sawtooth_oscillator<T>::value_type sawtooth_oscillator<T>::operator()() {
         const auto t = std::fmod(oscillator<T>::frequency_ * oscillator<T>::timestamp_, 1);
-        oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
+        oscillator<T>::timestamp_ += oscillator<T>::sampling_period_;
         if (width_ != 0 and t < width_) {
             return oscillator<T>::amplitude_ * (2 * t / width_ - 1);
         } else if (width_ != 1 and t >= width_) {
diff --git a/include/edsp/oscillators/sinusoidal.hpp b/include/edsp/oscillators/sinusoidal.hpp
index b9500eb..320c4b5 100644
--- a/include/edsp/oscillators/sinusoidal.hpp
+++ b/include/edsp/oscillators/sinusoidal.hpp
@@ -25,6 +25,7 @@
 #include <edsp/math/constant.hpp>
 #include <edsp/math/numeric.hpp>
 #include <cmath>
+#include <type_traits>
 
 namespace edsp { namespace oscillators {
 
@@ -47,6 +48,7 @@ namespace edsp { namespace oscillators {
     class oscillator {
     public:
         using value_type = T;
+        using time_type  = typename std::common_type<T, double>::type;
 
         /**
          * @brief Creates an oscillator that generates a waveform with the configuration.
@@ -132,9 +134,9 @@ namespace edsp { namespace oscillators {
 
     protected:
         value_type amplitude_{0.};
-        value_type timestamp_{0.};
+        time_type timestamp_{0.};
         value_type sample_rate_{0.};
-        value_type sampling_period_{0.};
+        time_type sampling_period_{0.};
         value_type frequency_{1.};
         value_type phase_{0.};
     };
@@ -144,13 +146,13 @@ namespace edsp { namespace oscillators {
                                         value_type phase) noexcept :
         amplitude_(amplitude),
         sample_rate_(sample_rate),
-        sampling_period_(math::inv(sample_rate)),
+        sampling_period_(math::inv(static_cast<time_type>(sample_rate))),
         frequency_(frequency),
         phase_(phase) {}
 
     template <typename T>
     constexpr typename oscillator<T>::value_type oscillator<T>::timestamp() const noexcept {
-        return timestamp_;
+        return static_cast<value_type>(timestamp_);
     }
 
     template <typename T>
@@ -171,7 +173,7 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr void oscillator<T>::set_sample_rate(value_type sample_rate) noexcept {
         sample_rate_     = sample_rate;
-        sampling_period_ = math::inv(sample_rate_);
+        sampling_period_ = math::inv(static_cast<time_type>(sample_rate_));
     }
 
     template <typename T>
@@ -206,7 +208,7 @@ namespace edsp { namespace oscillators {
 
     template <typename T>
     constexpr typename oscillator<T>::value_type oscillator<T>::sampling_period() const noexcept {
-        return sampling_period_;
+        return static_cast<value_type>(sampling_period_);
     }
 
     /**
@@ -263,9 +265,9 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr typename sin_oscillator<T>::value_type sin_oscillator<T>::operator()() {
         const value_type result =
-            std::sin(constants<value_type>::two_pi * oscillator<T>::frequency_ * oscillator<T>::timestamp_ +
+            std::sin(constants<typename oscillator<T>::time_type>::two_pi * oscillator<T>::frequency_ * oscillator<T>::timestamp_ +
                      oscillator<T>::phase_);
-        oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
+        oscillator<T>::timestamp_ += oscillator<T>::sampling_period_;
         return result * oscillator<T>::amplitude_;
     }
 
diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index 090fb81..d307139 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -109,7 +109,7 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
         const auto t = std::fmod(oscillator<T>::frequency_ * oscillator<T>::timestamp_, 1);
-        oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
+        oscillator<T>::timestamp_ += oscillator<T>::sampling_period_;
         return (t < duty_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
-- 
2.43.0


From b3bd1ae92800ed24b27bda9d805fce78e3cccd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:31 +0000
Subject: [PATCH 043/129] fix: make random_generator usable

No distribution could be instantiated: the implementation named a member type
the standard distributions do not have, forwarded its arguments wrongly, passed
the value type as the engine of the Bernoulli case and did not inherit the
constructors.
---
 include/edsp/random/random_generator.hpp | 77 ++++++++++++++++++------
 1 file changed, 57 insertions(+), 20 deletions(-)

diff --git a/include/edsp/random/random_generator.hpp b/include/edsp/random/random_generator.hpp
index e98d5ea..22ad57b 100644
--- a/include/edsp/random/random_generator.hpp
+++ b/include/edsp/random/random_generator.hpp
@@ -56,12 +56,12 @@ namespace edsp { namespace random {
 
         template <typename Distribution, typename Engine = std::mt19937>
         struct RandomGeneratorImpl {
-            using value_type = typename Distribution::value_type;
+            using value_type = typename Distribution::result_type;
             template <typename... Args>
             explicit RandomGeneratorImpl(Args... arg) :
                 generator_(
                     Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-                distribution_(Distribution(std::forward(arg...))) {}
+                distribution_(Distribution(arg...)) {}
 
             inline value_type operator()() {
                 return static_cast<value_type>(distribution_(generator_));
@@ -77,73 +77,110 @@ namespace edsp { namespace random {
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Uniform, T>
-            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {};
+            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {
+            using RandomGeneratorImpl<std::uniform_real_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Bernoulli, T>
-            : public RandomGeneratorImpl<std::bernoulli_distribution, T> {};
+            : public RandomGeneratorImpl<std::bernoulli_distribution> {
+            using RandomGeneratorImpl<std::bernoulli_distribution>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Binomial, T>
-            : public RandomGeneratorImpl<std::binomial_distribution<T>> {};
+            : public RandomGeneratorImpl<std::binomial_distribution<T>> {
+            using RandomGeneratorImpl<std::binomial_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Geometric, T>
-            : public RandomGeneratorImpl<std::geometric_distribution<T>> {};
+            : public RandomGeneratorImpl<std::geometric_distribution<T>> {
+            using RandomGeneratorImpl<std::geometric_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Poisson, T>
-            : public RandomGeneratorImpl<std::poisson_distribution<T>> {};
+            : public RandomGeneratorImpl<std::poisson_distribution<T>> {
+            using RandomGeneratorImpl<std::poisson_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Exponential, T>
-            : public RandomGeneratorImpl<std::exponential_distribution<T>> {};
+            : public RandomGeneratorImpl<std::exponential_distribution<T>> {
+            using RandomGeneratorImpl<std::exponential_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
-        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {};
+        struct _RandomGenerator<DistributionType::Gamma, T>
+            : public RandomGeneratorImpl<std::gamma_distribution<T>> {
+            using RandomGeneratorImpl<std::gamma_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Weibull, T>
-            : public RandomGeneratorImpl<std::weibull_distribution<T>> {};
+            : public RandomGeneratorImpl<std::weibull_distribution<T>> {
+            using RandomGeneratorImpl<std::weibull_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ExtremeValue, T>
-            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {};
+            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {
+            using RandomGeneratorImpl<std::extreme_value_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
-        struct _RandomGenerator<DistributionType::Normal, T> : public RandomGeneratorImpl<std::normal_distribution<T>> {
+        struct _RandomGenerator<DistributionType::Normal, T>
+            : public RandomGeneratorImpl<std::normal_distribution<T>> {
+            using RandomGeneratorImpl<std::normal_distribution<T>>::RandomGeneratorImpl;
         };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::LogNormal, T>
-            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {};
+            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {
+            using RandomGeneratorImpl<std::lognormal_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ChiSquared, T>
-            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {};
+            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {
+            using RandomGeneratorImpl<std::chi_squared_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Fisher, T>
-            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {};
+            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {
+            using RandomGeneratorImpl<std::fisher_f_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Student, T>
-            : public RandomGeneratorImpl<std::student_t_distribution<T>> {};
+            : public RandomGeneratorImpl<std::student_t_distribution<T>> {
+            using RandomGeneratorImpl<std::student_t_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Discrete, T>
-            : public RandomGeneratorImpl<std::discrete_distribution<T>> {};
+            : public RandomGeneratorImpl<std::discrete_distribution<T>> {
+            using RandomGeneratorImpl<std::discrete_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseConstant, T>
-            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_constant_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseLinear, T>
-            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_linear_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
-        struct _RandomGenerator<DistributionType::Cauchy, T> : public RandomGeneratorImpl<std::cauchy_distribution<T>> {
+        struct _RandomGenerator<DistributionType::Cauchy, T>
+            : public RandomGeneratorImpl<std::cauchy_distribution<T>> {
+            using RandomGeneratorImpl<std::cauchy_distribution<T>>::RandomGeneratorImpl;
         };
 
     } // namespace internal
-- 
2.43.0


From c69986627ff1850405b1c8b137fe0558a4aabe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:32 +0000
Subject: [PATCH 044/129] fix: let the white noise generator produce floating
 point samples

---
 include/edsp/random/noise/white_noise_generator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/random/noise/white_noise_generator.hpp b/include/edsp/random/noise/white_noise_generator.hpp
index 02d2cd4..5252bd4 100644
--- a/include/edsp/random/noise/white_noise_generator.hpp
+++ b/include/edsp/random/noise/white_noise_generator.hpp
@@ -24,6 +24,7 @@
 
 #include <random>
 #include <chrono>
+#include <type_traits>
 
 namespace edsp { namespace random {
 
@@ -40,7 +41,7 @@ namespace edsp { namespace random {
          */
         inline white_noise_generator(value_type min, value_type max) :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(min, max)) {}
+            distribution_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -52,7 +53,8 @@ namespace edsp { namespace random {
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
+        typename std::conditional<std::is_floating_point<T>::value, std::uniform_real_distribution<T>,
+                                  std::uniform_int_distribution<T>>::type distribution_;
     };
 
 }} // namespace edsp::random
-- 
2.43.0


From 5815a3d02f0c5d3fc46177bb3a26ea9d775beb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:32 +0000
Subject: [PATCH 045/129] fix: let brown and pink noise use another engine

---
 include/edsp/random/noise/brown_noise_generator.hpp | 2 +-
 include/edsp/random/noise/pink_noise_generator.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/random/noise/brown_noise_generator.hpp b/include/edsp/random/noise/brown_noise_generator.hpp
index 9f57e8d..3048041 100644
--- a/include/edsp/random/noise/brown_noise_generator.hpp
+++ b/include/edsp/random/noise/brown_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a brown noise sequence generator.
          */
         inline brown_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
diff --git a/include/edsp/random/noise/pink_noise_generator.hpp b/include/edsp/random/noise/pink_noise_generator.hpp
index 7f9410f..8dbc305 100644
--- a/include/edsp/random/noise/pink_noise_generator.hpp
+++ b/include/edsp/random/noise/pink_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a pink noise sequence generator.
          */
         inline pink_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
-- 
2.43.0


From 36aee7182003b80cdf40eb828af1b2f172fb8c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:32 +0000
Subject: [PATCH 046/129] fix: make the Perlin noise generator compile

---
 include/edsp/random/noise/perlin_noise_generator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index 124f112..73cbaf6 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -23,6 +23,8 @@
 #define EDSP_PERLIN_NOISE_GENERATOR_HPP
 
 #include <array>
+#include <cmath>
+#include <cstdint>
 #include <random>
 #include <chrono>
 
@@ -59,7 +61,7 @@ namespace edsp { namespace random {
          */
         inline perlin_noise_generator() :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(0, 511)) {}
+            distribution_(0, 511) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -77,7 +79,7 @@ namespace edsp { namespace random {
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
+        std::uniform_real_distribution<T> distribution_;
         static constexpr const std::array<T, 512> permutation = {
             {151, 160, 137, 91,  90,  15,  131, 13,  201, 95,  96,  53,  194, 233, 7,   225, 140, 36,  103, 30,
              69,  142, 8,   99,  37,  240, 21,  10,  23,  190, 6,   148, 247, 120, 234, 75,  0,   26,  197, 62,
-- 
2.43.0


From ade1b6f519ba39a7ccbbe9ddc951da6c207d7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:32 +0000
Subject: [PATCH 047/129] fix: interpolate Perlin noise at the fractional
 position

The fade curve was applied to the whole coordinate, up to 511, instead of its
fractional part: the samples reached 1e14 instead of staying in [-1, 1].
---
 include/edsp/random/noise/perlin_noise_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index 73cbaf6..bc5705f 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -71,7 +71,7 @@ namespace edsp { namespace random {
             const auto random_value = distribution_(generator_);
             const auto index        = static_cast<std::int64_t>(random_value) & 0xFF;
             const auto floor_value  = random_value - std::floor(random_value);
-            const auto fade_value   = fade(random_value);
+            const auto fade_value   = fade(floor_value);
             return lerp(fade_value, grad(permutation[index], floor_value),
                         grad(permutation[index + 1], floor_value - 1)) *
                    2;
-- 
2.43.0


From d4e3ff8a8fee952903729f7f8f9662613cc5faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:32 +0000
Subject: [PATCH 048/129] fix: take the probability of a binary generator as a
 real number

With an integer or bool sample type every probability below one became zero.
---
 include/edsp/random/binary_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/random/binary_generator.hpp b/include/edsp/random/binary_generator.hpp
index 2f5d951..cc0a5ca 100644
--- a/include/edsp/random/binary_generator.hpp
+++ b/include/edsp/random/binary_generator.hpp
@@ -44,7 +44,7 @@ namespace edsp { namespace random {
          * @brief Creates a binary sequence generator.
          * @param probability The p distribution parameter (probability of generating true)
          */
-        explicit binary_generator(value_type probability) :
+        explicit binary_generator(double probability) :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
             distribution_(std::bernoulli_distribution(probability)) {}
 
-- 
2.43.0


From 92b0e3f14d882e1c280154b224cb5517424d5258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:41 +0000
Subject: [PATCH 049/129] fix: keep the Perlin permutation as integers

The gradient is chosen by the lowest bit, which a floating point element has not.
---
 include/edsp/random/noise/perlin_noise_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index bc5705f..2fc19aa 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -80,7 +80,7 @@ namespace edsp { namespace random {
     private:
         Engine generator_;
         std::uniform_real_distribution<T> distribution_;
-        static constexpr const std::array<T, 512> permutation = {
+        static constexpr const std::array<int, 512> permutation = {
             {151, 160, 137, 91,  90,  15,  131, 13,  201, 95,  96,  53,  194, 233, 7,   225, 140, 36,  103, 30,
              69,  142, 8,   99,  37,  240, 21,  10,  23,  190, 6,   148, 247, 120, 234, 75,  0,   26,  197, 62,
              94,  252, 219, 203, 117, 35,  11,  32,  57,  177, 33,  88,  237, 149, 56,  87,  174, 20,  125, 136,
-- 
2.43.0


From 67acc318b04377420d67c4c15225f343406c9f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:41 +0000
Subject: [PATCH 050/129] fix: wrap the Perlin permutation at its end

Only the first 256 of the 512 entries are filled.
---
 include/edsp/random/noise/perlin_noise_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index 2fc19aa..6d72c68 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -73,7 +73,7 @@ namespace edsp { namespace random {
             const auto floor_value  = random_value - std::floor(random_value);
             const auto fade_value   = fade(floor_value);
             return lerp(fade_value, grad(permutation[index], floor_value),
-                        grad(permutation[index + 1], floor_value - 1)) *
+                        grad(permutation[(index + 1) & 0xFF], floor_value - 1)) *
                    2;
         }
 
-- 
2.43.0


From fe9b790648522e6ad39418285505a807378b5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:52 +0000
Subject: [PATCH 051/129] fix: define the Perlin permutation for C++14

Before C++17 a static constexpr member that is indexed at run time needs a
definition; without it the generator did not link.
---
 include/edsp/random/noise/perlin_noise_generator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index 6d72c68..8a980cb 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -96,5 +96,8 @@ namespace edsp { namespace random {
              222, 114, 67,  29,  24,  72,  243, 141, 128, 195, 78,  66,  215, 61,  156, 180}};
     };
 
+    template <typename T, typename Engine>
+    constexpr const std::array<int, 512> perlin_noise_generator<T, Engine>::permutation;
+
 }}     // namespace edsp::random
 #endif // EDSP_PERLIN_NOISE_GENERATOR_HPP
-- 
2.43.0


From 0d611ee45f5a498ba7318bc309ed8dee7f03a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 052/129] fix: capture the compression factor of the mu-law
 functions

They could not be instantiated.
---
 include/edsp/experimental/quantizer/mu_law_compressor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/quantizer/mu_law_compressor.hpp b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
index 98fc255..b64db68 100644
--- a/include/edsp/experimental/quantizer/mu_law_compressor.hpp
+++ b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
@@ -51,7 +51,7 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    std::log(static_cast<value_type>(1 + compression_factor * ratio)) /
@@ -83,7 +83,7 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    (std::pow(static_cast<value_type>(1 + compression_factor), ratio) - 1) /
-- 
2.43.0


From 18509e4e2f85e9baa3dd6684f5deaf25fba93d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 053/129] fix: divide by mu in the inverse mu-law

The documented expansion is ((1 + mu)^|y| - 1) / mu; dividing by ln(1 + mu)
instead did not invert the compression.
---
 include/edsp/experimental/quantizer/mu_law_compressor.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/edsp/experimental/quantizer/mu_law_compressor.hpp b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
index b64db68..8c20ec1 100644
--- a/include/edsp/experimental/quantizer/mu_law_compressor.hpp
+++ b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
@@ -86,8 +86,7 @@ namespace edsp { namespace quantizer {
         const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
-                   (std::pow(static_cast<value_type>(1 + compression_factor), ratio) - 1) /
-                   std::log(static_cast<value_type>(1 + compression_factor));
+                   (std::pow(static_cast<value_type>(1 + compression_factor), ratio) - 1) / compression_factor;
         };
         std::transform(first, last, d_first, std::cref(lambda));
     }
-- 
2.43.0


From 2f99dcd36adbe43764b260747dcea9caea1bb534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 054/129] fix: compute the gains of the attack/release follower

reset() only computed a gain that was already positive, and both start at zero:
the follower returned its input unchanged whatever its times.
---
 include/edsp/experimental/envelope/ar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/envelope/ar.hpp b/include/edsp/experimental/envelope/ar.hpp
index 1333b07..24bd6e3 100644
--- a/include/edsp/experimental/envelope/ar.hpp
+++ b/include/edsp/experimental/envelope/ar.hpp
@@ -197,9 +197,9 @@ namespace edsp { namespace envelope {
 
     template <typename T>
     constexpr void ar<T>::reset() noexcept {
-        attack_gain_ = (attack_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
+        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
         release_gain_ =
-            (release_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
+            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
         last_ = 0;
     }
 
-- 
2.43.0


From 2a426f7f384c10587b78595ba7c03679dac6170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 055/129] fix: take the times of the attack/release follower in
 milliseconds

They are documented in msecs, but were used as seconds.
---
 include/edsp/experimental/envelope/ar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/envelope/ar.hpp b/include/edsp/experimental/envelope/ar.hpp
index 24bd6e3..d27e55f 100644
--- a/include/edsp/experimental/envelope/ar.hpp
+++ b/include/edsp/experimental/envelope/ar.hpp
@@ -197,9 +197,9 @@ namespace edsp { namespace envelope {
 
     template <typename T>
     constexpr void ar<T>::reset() noexcept {
-        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
+        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (attack_time_ * sample_rate_))) : 0;
         release_gain_ =
-            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
+            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (release_time_ * sample_rate_))) : 0;
         last_ = 0;
     }
 
-- 
2.43.0


From 19b3db302834f3a854419a0b0180fc74fd45d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 056/129] fix: return the release rate of an ADSR envelope from
 release_rate()

---
 include/edsp/experimental/envelope/adsr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/experimental/envelope/adsr.hpp b/include/edsp/experimental/envelope/adsr.hpp
index d7b0659..a625fc9 100644
--- a/include/edsp/experimental/envelope/adsr.hpp
+++ b/include/edsp/experimental/envelope/adsr.hpp
@@ -68,7 +68,7 @@ namespace edsp { namespace envelope {
         }
 
         constexpr value_type release_rate() const {
-            return release_time_;
+            return release_rate_;
         }
 
         constexpr value_type decay_rate() const {
-- 
2.43.0


From 0f2e8bc45c3ce4b5956bb157cf4b69c4d2d8197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 057/129] fix: keep embedded NULs when joining strings

The result went through c_str() and was cut at the first NUL; the stream is now
of the character type of the strings as well.
---
 include/edsp/string/join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/string/join.hpp b/include/edsp/string/join.hpp
index 476e5c9..8556798 100644
--- a/include/edsp/string/join.hpp
+++ b/include/edsp/string/join.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace string {
 
     template <typename InputIt, typename Char>
     inline void join(InputIt first, InputIt last, std::basic_string<Char>& d_str, Char delimiter = ' ') {
-        std::stringstream ss;
+        std::basic_ostringstream<Char> ss;
         const auto size = std::distance(first, last);
         if (size) {
             for (auto i = 0; i < size - 1; ++i, ++first) {
@@ -46,7 +46,7 @@ namespace edsp { namespace string {
             }
             ss << *first;
         }
-        d_str = ss.str().c_str();
+        d_str = ss.str();
     }
 
 }} // namespace edsp::string
-- 
2.43.0


From 70b5014f38173fc338f60f1ee845d307266f7b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 058/129] fix: split strings of any character type

---
 include/edsp/string/split.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/string/split.hpp b/include/edsp/string/split.hpp
index ccc6577..8ae5fa8 100644
--- a/include/edsp/string/split.hpp
+++ b/include/edsp/string/split.hpp
@@ -36,7 +36,7 @@ namespace edsp { namespace string {
 
     template <typename Char, typename OutputIt>
     inline void split(const std::basic_string<Char>& str, OutputIt d_first, Char character = ' ') {
-        std::stringstream test(str);
+        std::basic_istringstream<Char> test(str);
         std::basic_string<Char> segment;
         while (std::getline(test, segment, character)) {
             if (!segment.empty()) {
-- 
2.43.0


From 215536271c111353899f696353961f94e5dbfc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 059/129] fix: do not pass negative characters to the ctype
 functions

The behaviour of tolower(), toupper() and isspace() is undefined for them.
---
 include/edsp/string/to_lower.hpp | 5 ++++-
 include/edsp/string/to_upper.hpp | 5 ++++-
 include/edsp/string/trim.hpp     | 6 ++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/edsp/string/to_lower.hpp b/include/edsp/string/to_lower.hpp
index 9dc97f7..690d78d 100644
--- a/include/edsp/string/to_lower.hpp
+++ b/include/edsp/string/to_lower.hpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <type_traits>
 
 namespace edsp { namespace string {
 
@@ -36,7 +37,9 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void tolower(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::tolower(element); });
+        std::transform(first, last, d_first, [](const auto element) {
+            return std::tolower(static_cast<typename std::make_unsigned<std::decay_t<decltype(element)>>::type>(element));
+        });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/to_upper.hpp b/include/edsp/string/to_upper.hpp
index 0149fe0..3f27117 100644
--- a/include/edsp/string/to_upper.hpp
+++ b/include/edsp/string/to_upper.hpp
@@ -25,6 +25,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <type_traits>
 
 namespace edsp { namespace string {
 
@@ -38,7 +39,9 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void toupper(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::toupper(element); });
+        std::transform(first, last, d_first, [](const auto element) {
+            return std::toupper(static_cast<typename std::make_unsigned<std::decay_t<decltype(element)>>::type>(element));
+        });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/trim.hpp b/include/edsp/string/trim.hpp
index 16fffa9..7a23f49 100644
--- a/include/edsp/string/trim.hpp
+++ b/include/edsp/string/trim.hpp
@@ -25,6 +25,8 @@
 #include <edsp/meta/iterator.hpp>
 #include <sstream>
 #include <algorithm>
+#include <cctype>
+#include <type_traits>
 
 namespace edsp { namespace string {
 
@@ -36,7 +38,7 @@ namespace edsp { namespace string {
     inline void ltrim(String& str) {
         str.erase(
             std::begin(str), std::find_if(std::begin(str), std::end(str),
-                                [](auto character) { return !std::isspace(character); }));
+                                [](auto character) { return !std::isspace(static_cast<typename std::make_unsigned<std::decay_t<decltype(character)>>::type>(character)); }));
     }
 
     /**
@@ -47,7 +49,7 @@ namespace edsp { namespace string {
     inline void rtrim(String& str) {
         str.erase(
             std::find_if(std::rbegin(str), std::rend(str),
-                         [](auto character) { return !std::isspace(character); })
+                         [](auto character) { return !std::isspace(static_cast<typename std::make_unsigned<std::decay_t<decltype(character)>>::type>(character)); })
                 .base(), std::end(str));
     }
 
-- 
2.43.0


From 97733c0b0d261abb78b55cdf09e2d8c309b00255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 060/129] fix: return the major version from major_version()

---
 include/edsp/core/library_info.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index dbea03a..92a95ee 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -79,7 +79,7 @@ namespace edsp { inline namespace core {
         }
 
         static constexpr std::int32_t major_version() noexcept {
-            return E_VERSION_MINOR;
+            return E_VERSION_MAJOR;
         }
 
         static constexpr std::int32_t patch_version() noexcept {
-- 
2.43.0


From 2ccfb52943c4de5962c782991f586af48a02d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 061/129] fix: report the PFFFT and Accelerate back ends as
 themselves

---
 include/edsp/core/library_info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index 92a95ee..a51d4d1 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -102,9 +102,9 @@ namespace edsp { inline namespace core {
 #if defined(USE_LIBFFTW)
             return fft_lib::fftw;
 #elif defined(USE_LIBPFFFT)
-            return fft_lib::fftw;
+            return fft_lib::pffft;
 #elif defined(USE_LIBACCELERATE)
-            return fft_lib::fftw;
+            return fft_lib::accelerate;
 #else
             return fft_lib::unknown;
 #endif
-- 
2.43.0


From 53152dcabdae4024e22f0f3e2f25d69173011e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 062/129] fix: do not read environment names and values past
 their end

A string_view need not be followed by a NUL.
---
 include/edsp/core/system.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 05b9a14..cd9f6f1 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -30,6 +30,7 @@
 #include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
 #include <mutex>
+#include <string>
 
 namespace edsp { inline namespace core {
 
@@ -184,10 +185,10 @@ namespace edsp { inline namespace core {
         static edsp::expected<edsp::string_view, error>
             get_env(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            const char* env_p = std::getenv(variable_name.data());
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
             } else {
+                const char* env_p = std::getenv(std::string(variable_name).c_str());
                 if (!meta::is_null(env_p)) {
                     return env_p;
                 } else {
@@ -209,7 +210,7 @@ namespace edsp { inline namespace core {
             if (meta::empty(variable_name)) {
                 return error::empty;
             } else {
-                const auto result = setenv(meta::data(variable_name), meta::data(variable_value), overwrite);
+                const auto result = setenv(std::string(variable_name).c_str(), std::string(variable_value).c_str(), overwrite);
                 return static_cast<error>(result);
             }
         }
@@ -221,7 +222,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(meta::data(variable_name)));
+            return !meta::is_null(std::getenv(std::string(variable_name).c_str()));
         }
 
     private:
-- 
2.43.0


From 75f9733306b22abda8f6c3d65c73b2e9e0bfc40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 063/129] fix: tell why an environment variable could not be
 set

setenv() returns -1 and leaves the reason in errno, so that every failure was
reported as unknown.
---
 include/edsp/core/system.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index cd9f6f1..14a4b2f 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -29,6 +29,8 @@
 #include <edsp/meta/expects.hpp>
 #include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
+#include <cerrno>
+#include <cstdlib>
 #include <mutex>
 #include <string>
 
@@ -211,7 +213,7 @@ namespace edsp { inline namespace core {
                 return error::empty;
             } else {
                 const auto result = setenv(std::string(variable_name).c_str(), std::string(variable_value).c_str(), overwrite);
-                return static_cast<error>(result);
+                return result == 0 ? error::no_error : static_cast<error>(errno);
             }
         }
 
-- 
2.43.0


From 3fa4d7d2af3f742f9182e4a196c88e6d0a90dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 064/129] fix: test the platform macros that config.hpp defines

Windows, MSVC and ARM were reported as unknown.
---
 include/edsp/core/internal/config.hpp | 2 +-
 include/edsp/core/system.hpp          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/core/internal/config.hpp b/include/edsp/core/internal/config.hpp
index f3af01a..35acbdc 100644
--- a/include/edsp/core/internal/config.hpp
+++ b/include/edsp/core/internal/config.hpp
@@ -67,7 +67,7 @@
 #endif
 
 // Define export qualifier
-#if defined(COMPILER_MVSC)
+#if defined(COMPILER_MSVC)
 #    define DLLEXPORT __declspec(dllexport)
 #    define DLLIMPORT __declspec(dllimport)
 #    define DLLHIDE
diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 14a4b2f..06e82e1 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -122,7 +122,7 @@ namespace edsp { inline namespace core {
                 return compilers::gcc;
             #elif defined(COMPILER_CLANG)
                 return compilers::clang;
-            #elif defined(COMPILER_MVSC)
+            #elif defined(COMPILER_MSVC)
                 return compilers::mvsc;
             #else
                 return compilers::unknown;
@@ -132,7 +132,7 @@ namespace edsp { inline namespace core {
 
         // clang-format off
         static constexpr systems os() noexcept {
-            #if defined(OS_WINDOWS)
+            #if defined(OS_WIN32)
                return systems::windows;
             #elif defined(OS_LINUX)
                return systems::linux;
@@ -156,7 +156,7 @@ namespace edsp { inline namespace core {
                return processors::x86;
             #elif defined(PROCESSOR_X86_64)
                return processors::x64;
-            #elif defined(PROCESSOR_ARM)
+            #elif defined(PROCESSOR_ARM_32) || defined(PROCESSOR_ARM_64)
                return processors::arm;
             #else
                return processors::unknown;
-- 
2.43.0


From 48b4d91cef5ce1e085f576cb97884f8067ab8263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 065/129] fix: log strings up to their size

A string was cut at its first NUL and a string_view read past its end.
---
 include/edsp/core/logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 0f52df8..c6eca35 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -483,13 +483,13 @@ namespace edsp { inline namespace core {
 
     template <typename Char>
     logger& logger::operator<<(const std::basic_string<Char>& str) {
-        msg_ << str.data();
+        msg_.write(str.data(), static_cast<std::streamsize>(str.size()));
         return space();
     }
 
     template <typename Char>
     logger& logger::operator<<(const edsp::basic_string_view<Char>& str) {
-        msg_ << str.data();
+        msg_.write(str.data(), static_cast<std::streamsize>(str.size()));
         return space();
     }
 
-- 
2.43.0


From bc748ce85cd3b2d86c84c2774600a3810f68bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 066/129] fix: honour the default level of the logger

Messages below the minimum level, and all of them when it is off, were printed.
---
 include/edsp/core/logger.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index c6eca35..55c71e2 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -427,8 +427,10 @@ namespace edsp { inline namespace core {
     logger::logger(logger::levels message_type) : logger(global_name(), "", message_type) {}
 
     logger::~logger() {
-        edsp::endc(*this);
-        std::cout << msg_.str();
+        if (type_ >= global_level() && type_ != levels::off) {
+            edsp::endc(*this);
+            std::cout << msg_.str();
+        }
     }
 
     logger& logger::space() {
-- 
2.43.0


From 7f802b7bafbc66a6190c159803a06e11d5b44bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 067/129] fix: log characters, tabs and new lines as characters

A char was promoted to int: tab printed "9" and endl "10".
---
 include/edsp/core/logger.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 55c71e2..4fc0eab 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -168,6 +168,7 @@ namespace edsp { inline namespace core {
         inline logger& operator<<(std::int16_t);
         inline logger& operator<<(std::int32_t);
         inline logger& operator<<(std::int64_t);
+        inline logger& operator<<(char);
         inline logger& operator<<(float);
         inline logger& operator<<(double);
         inline logger& operator<<(const char*);
@@ -224,11 +225,13 @@ namespace edsp { inline namespace core {
     inline namespace internal {
         struct logger_impl {
             inline static logger& tab(logger& stream) {
-                return stream << '\t';
+                stream.msg_ << '\t';
+                return stream;
             }
 
             inline static logger& endl(logger& stream) {
-                return stream << '\n';
+                stream.msg_ << '\n';
+                return stream;
             }
 
             inline static logger& red(logger& stream) {
@@ -535,6 +538,11 @@ namespace edsp { inline namespace core {
         return space();
     }
 
+    logger& logger::operator<<(char value) {
+        msg_ << value;
+        return space();
+    }
+
     logger& logger::operator<<(float value) {
         msg_ << value;
         return space();
-- 
2.43.0


From 2b05e76c501676f1c4839e18db2d9e6270316fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:47 +0000
Subject: [PATCH 068/129] fix: an environment variable holding an empty string
 exists

---
 include/edsp/core/system.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 06e82e1..5dc0eb9 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -27,7 +27,6 @@
 #include <edsp/types/string_view.hpp>
 #include <edsp/types/expected.hpp>
 #include <edsp/meta/expects.hpp>
-#include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
 #include <cerrno>
 #include <cstdlib>
@@ -191,7 +190,7 @@ namespace edsp { inline namespace core {
                 return edsp::make_unexpected(error::empty);
             } else {
                 const char* env_p = std::getenv(std::string(variable_name).c_str());
-                if (!meta::is_null(env_p)) {
+                if (env_p != nullptr) {
                     return env_p;
                 } else {
                     return edsp::make_unexpected(error::not_found);
@@ -224,7 +223,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(std::string(variable_name).c_str()));
+            return std::getenv(std::string(variable_name).c_str()) != nullptr;
         }
 
     private:
-- 
2.43.0


From 870474838479c69624906bd6d260d719b2797e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:07 +0000
Subject: [PATCH 069/129] fix: the C peak_abs finds the largest magnitude

---
 bindings/c/src/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/statistics.c b/bindings/c/src/statistics.c
index 74f23ef..9e106c7 100644
--- a/bindings/c/src/statistics.c
+++ b/bindings/c/src/statistics.c
@@ -99,7 +99,7 @@ Peak peak(const real_t* data, int size) {
 }
 
 Peak peak_abs(const real_t* data, int size) {
-    const auto peak = edsp::statistics::peak(data, data + size);
+    const auto peak = edsp::statistics::peakabs(data, data + size);
     return Peak{static_cast<int>(peak.first), peak.second};
 }
 
-- 
2.43.0


From d28c2dfb133d73d33d761a803a74c39fd499fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:07 +0000
Subject: [PATCH 070/129] fix: the C get_build_date returns the date

---
 bindings/c/src/core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/core.c b/bindings/c/src/core.c
index a9c6dcc..008c021 100644
--- a/bindings/c/src/core.c
+++ b/bindings/c/src/core.c
@@ -43,7 +43,7 @@ const char *get_version() {
 }
 
 const char *get_build_date() {
-    return edsp::library_info::build_time();
+    return edsp::library_info::build_date();
 }
 
 const char *get_build_time() {
-- 
2.43.0


From 5688879df8dc87942b1974dcb8bfebede51e9ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 071/129] fix: a closed decoder forgets its file

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 328cb8f..b87dc1e 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -105,6 +105,8 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
+            info_ = SF_INFO{};
         }
 
         const edsp::string_view& error() const {
-- 
2.43.0


From c9c8cd407c25e93a0b9364d1c94c8a134326ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 072/129] fix: seeking a closed decoder fails

---
 .../edsp/io/internal/decoder/libsndfile_decoder_impl.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index b87dc1e..d2c9846 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -130,10 +130,16 @@ namespace edsp { namespace io {
         }
 
         index_type seek(libsndfile_decoder::index_type position) noexcept {
+            if (!is_open()) {
+                return -1;
+            }
             return sf_seek(file_, position, SEEK_SET);
         }
 
         index_type current() const noexcept {
+            if (!is_open()) {
+                return -1;
+            }
             return sf_seek(file_, 0, SEEK_CUR);
         }
 
-- 
2.43.0


From 610f29ed882cac9d67f656cdbbcd3e757be42a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 073/129] fix: the decoder reads whole frames of any number of
 channels

---
 .../edsp/io/internal/decoder/libsndfile_decoder_impl.hpp  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index d2c9846..80bf98d 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -152,11 +152,17 @@ namespace edsp { namespace io {
             using value_type = meta::value_type_t<OutputIt>;
             static_assert(std::is_same<value_type, underlying_t>::value, "Expecting iterator of the same type");
 
+            if (!is_open()) {
+                return 0;
+            }
+
+            // libsndfile reads whole frames only
             index_type total        = std::distance(first, last);
             index_type remaining    = total;
             index_type samples_read = 0;
             do {
-                const auto counter = (remaining > N) ? N : remaining;
+                const auto available = (remaining > N) ? N : remaining;
+                const auto counter   = available - available % channels();
                 samples_read       = internal::reader<T>{}.read(file_, meta::data(buffer_), counter);
                 remaining -= samples_read;
                 first = std::copy(std::cbegin(buffer_), std::cbegin(buffer_) + samples_read, first);
-- 
2.43.0


From 690f63ae466149d8de921e81c112b49317965551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 074/129] fix: a closed encoder forgets its file

---
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c84c887..c0c9cbc 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -121,6 +121,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
-- 
2.43.0


From 26a0b714e0729c4e19269d01e4cd759dae5f3ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 075/129] fix: writing nothing does not touch the input

---
 .../edsp/io/internal/encoder/libsndfile_encoder_impl.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c0c9cbc..67ee1bf 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -142,7 +142,11 @@ namespace edsp { namespace io {
             static_assert(std::is_same<value_type, T>::value, "Expecting iterator of the same type");
 
             const auto length = std::distance(first, last);
-            const auto* data  = &(*first);
+            if (length == 0 || !is_open()) {
+                return std::ptrdiff_t{0};
+            }
+
+            const auto* data = &(*first);
             return internal::writer<T>{}.write(file_, data, length);
         }
 
-- 
2.43.0


From 7dc8aa49f6a73fd0f23df1fd6794edbed9d756a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 076/129] fix: a file without metadata has empty metadata

---
 include/edsp/io/internal/metadata/libtag_impl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/edsp/io/internal/metadata/libtag_impl.hpp b/include/edsp/io/internal/metadata/libtag_impl.hpp
index efba48d..aab6cd7 100644
--- a/include/edsp/io/internal/metadata/libtag_impl.hpp
+++ b/include/edsp/io/internal/metadata/libtag_impl.hpp
@@ -32,27 +32,27 @@ namespace edsp { namespace io {
         explicit libtag_metadata(const std::string& file) : ref_(meta::data(file)) {}
 
         std::string title() const {
-            return ref_.tag()->title().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->title().to8Bit();
         }
 
         std::string artist() const {
-            return ref_.tag()->artist().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->artist().to8Bit();
         }
 
         std::string album() const {
-            return ref_.tag()->album().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->album().to8Bit();
         }
 
         std::string genre() const {
-            return ref_.tag()->genre().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->genre().to8Bit();
         }
 
         size_t track() const {
-            return ref_.tag()->track();
+            return ref_.isNull() ? 0 : ref_.tag()->track();
         }
 
         size_t year() const {
-            return ref_.tag()->year();
+            return ref_.isNull() ? 0 : ref_.tag()->year();
         }
 
     private:
-- 
2.43.0


From 3c2d6cf9036f68e5e719197bbde088ba6754e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 077/129] fix: metadata text is UTF-8

---
 include/edsp/io/internal/metadata/libtag_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/io/internal/metadata/libtag_impl.hpp b/include/edsp/io/internal/metadata/libtag_impl.hpp
index aab6cd7..ee16b51 100644
--- a/include/edsp/io/internal/metadata/libtag_impl.hpp
+++ b/include/edsp/io/internal/metadata/libtag_impl.hpp
@@ -32,19 +32,19 @@ namespace edsp { namespace io {
         explicit libtag_metadata(const std::string& file) : ref_(meta::data(file)) {}
 
         std::string title() const {
-            return ref_.isNull() ? std::string() : ref_.tag()->title().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->title().to8Bit(true);
         }
 
         std::string artist() const {
-            return ref_.isNull() ? std::string() : ref_.tag()->artist().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->artist().to8Bit(true);
         }
 
         std::string album() const {
-            return ref_.isNull() ? std::string() : ref_.tag()->album().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->album().to8Bit(true);
         }
 
         std::string genre() const {
-            return ref_.isNull() ? std::string() : ref_.tag()->genre().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->genre().to8Bit(true);
         }
 
         size_t track() const {
-- 
2.43.0


From 50006e17c40e7b655e8af2a02672afde2b5c142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 078/129] fix: a resampler that could not be created processes
 nothing

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 0ef7745..fab3985 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -51,6 +51,10 @@ namespace edsp { namespace io {
 
         template <typename InputIt, typename OutputIt>
         std::pair<size_type, size_type> process(InputIt first, InputIt last, OutputIt d_first) {
+            if (state_ == nullptr) {
+                return {0, 0};
+            }
+
             const auto size          = std::distance(first, last);
             const auto input_frames  = size / channels_;
             const auto output_frames = static_cast<std::size_t>(ratio_ * input_frames);
-- 
2.43.0


From a287a11af46403f421bdd86e8637041eadb3c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:16 +0000
Subject: [PATCH 079/129] fix: a failed resampling reports no frames

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index fab3985..bbc6b6f 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -64,6 +64,8 @@ namespace edsp { namespace io {
             data_.data_out           = &(*d_first);
             data_.src_ratio          = ratio_;
             data_.end_of_input       = 0;
+            data_.input_frames_used  = 0;
+            data_.output_frames_gen  = 0;
             error_                   = src_process(state_, &data_);
             report_error(__PRETTY_FUNCTION__);
             return {data_.input_frames_used, data_.output_frames_gen};
-- 
2.43.0


From 0c64fe920fa4bb95044d75d53b6459fc6ed8c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:48 +0000
Subject: [PATCH 080/129] fix: the decoder does not return parts of a frame at
 the end of a file

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 80bf98d..a30cb5e 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -164,6 +164,7 @@ namespace edsp { namespace io {
                 const auto available = (remaining > N) ? N : remaining;
                 const auto counter   = available - available % channels();
                 samples_read       = internal::reader<T>{}.read(file_, meta::data(buffer_), counter);
+                samples_read -= samples_read % channels(); // the rest of a frame that the file does not have
                 remaining -= samples_read;
                 first = std::copy(std::cbegin(buffer_), std::cbegin(buffer_) + samples_read, first);
             } while (remaining > 0 && samples_read > 0);
-- 
2.43.0


From 353376e52adfbed9de43edef3d1ca34490e8f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:30 +0000
Subject: [PATCH 081/129] fix: the number of samples of a file of unknown
 length does not overflow

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index a30cb5e..1576d87 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -30,6 +30,7 @@
 #include <edsp/meta/iterator.hpp>
 #include <sndfile.h>
 #include <cmath>
+#include <limits>
 #include <edsp/meta/is_null.hpp>
 
 namespace edsp { namespace io {
@@ -114,7 +115,9 @@ namespace edsp { namespace io {
         }
 
         index_type samples() const noexcept {
-            return info_.channels * info_.frames;
+            // libsndfile reports a length that is not known, as in some FLAC streams, as the largest one
+            constexpr auto max = std::numeric_limits<index_type>::max();
+            return (info_.channels > 0 && info_.frames > max / info_.channels) ? max : info_.channels * info_.frames;
         }
 
         index_type frames() const noexcept {
-- 
2.43.0


From 1e06bdee26c6f003edc6c99f905720cd857a6d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:00 +0000
Subject: [PATCH 082/129] fix: the linear and zero order hold resamplers do not
 read before a single frame

---
 .../internal/resampler/libsamplerate_impl.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index bbc6b6f..793ada5 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -25,6 +25,7 @@
 
 #include <edsp/core/logger.hpp>
 #include <samplerate.h>
+#include <vector>
 
 namespace edsp { namespace io {
 
@@ -66,8 +67,22 @@ namespace edsp { namespace io {
             data_.end_of_input       = 0;
             data_.input_frames_used  = 0;
             data_.output_frames_gen  = 0;
-            error_                   = src_process(state_, &data_);
+            if (input_frames == 1 && quality_ >= SRC_ZERO_ORDER_HOLD) {
+                // these converters read the frame before a single one, so it has to be there
+                const auto frame = data_.data_in;
+                auto pair        = last_.empty() ? std::vector<value_type>(frame, frame + channels_) : last_;
+                pair.insert(pair.end(), frame, frame + channels_);
+                data_.data_in = pair.data() + channels_;
+                error_        = src_process(state_, &data_);
+                data_.data_in = frame;
+            } else {
+                error_ = src_process(state_, &data_);
+            }
             report_error(__PRETTY_FUNCTION__);
+            if (data_.input_frames_used > 0) {
+                const auto end = data_.data_in + data_.input_frames_used * channels_;
+                last_.assign(end - channels_, end);
+            }
             return {data_.input_frames_used, data_.output_frames_gen};
         }
 
@@ -85,6 +100,7 @@ namespace edsp { namespace io {
 
         error_type reset() {
             error_ = src_reset(state_);
+            last_.clear();
             report_error(__PRETTY_FUNCTION__);
             return error_;
         }
@@ -109,6 +125,7 @@ namespace edsp { namespace io {
         }
 
         SRC_DATA data_{};
+        std::vector<value_type> last_{}; // the last frame that was used
         SRC_STATE* state_{nullptr};
         error_type error_{0};
         size_type channels_{0};
-- 
2.43.0


From 0e9975cad247f51d6b0bf350193d3b285c35add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:02 +0000
Subject: [PATCH 083/129] fix: a resampler of no channels reports an error
 instead of aborting

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 793ada5..adcbf01 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -42,7 +42,11 @@ namespace edsp { namespace io {
             channels_(channels),
             quality_(quality),
             ratio_(factor) {
-            state_ = src_new(quality, static_cast<int>(channels), &error_);
+            if (channels > 0) { // the library asserts it
+                state_ = src_new(quality, static_cast<int>(channels), &error_);
+            } else {
+                error_ = 11; // SRC_ERR_BAD_CHANNEL_COUNT, not in the public header
+            }
             report_error(__PRETTY_FUNCTION__);
         }
 
-- 
2.43.0


From 908ee441c1361c2e98af50c3167f6b7a2aeb587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 084/129] fix: the Python module takes arrays of any element
 type and layout for what they hold

The data of an array was read as contiguous values of the type of the module, whatever the array held, beyond its end where those are smaller.
---
 .../include/boost_numpy_dependencies.hpp      | 15 +++++++
 bindings/python/src/algorithm.cpp             | 32 ++++++--------
 bindings/python/src/converter.cpp             | 31 +++++--------
 bindings/python/src/feature_spectral.cpp      | 13 +++---
 bindings/python/src/feature_statistics.cpp    | 13 +++---
 bindings/python/src/feature_temporal.cpp      | 12 ++----
 bindings/python/src/filter.cpp                |  6 +--
 bindings/python/src/io.cpp                    | 12 ++----
 bindings/python/src/spectral.cpp              | 43 +++++++------------
 bindings/python/src/statistics.cpp            |  6 +--
 10 files changed, 75 insertions(+), 108 deletions(-)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index 0a5bd0c..9f8db87 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -40,4 +40,19 @@ namespace bp = boost::python;
 namespace bn = boost::python::numpy;
 #endif
 
+#include <stdexcept>
+
+/**
+ * @brief Returns the elements of a one-dimensional array as a contiguous array of the type T.
+ *
+ * The array itself is returned if its elements are already stored that way.
+ */
+template <typename T>
+bn::ndarray as_array(const bn::ndarray& input) {
+    if (input.get_nd() != 1) {
+        throw std::invalid_argument("Expected one-dimensional arrays");
+    }
+    return bn::from_object(input, bn::dtype::get_builtin<T>(), 1, 1, bn::ndarray::CARRAY_RO);
+}
+
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index 9cf43b0..48c8f42 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -26,10 +26,8 @@
 #include <edsp/algorithm.hpp>
 
 template <typename Functor, typename... Args>
-bn::ndarray execute_inplace(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray execute_inplace(Functor&& f, bn::ndarray& array, Args... arg) {
+    const auto input = as_array<real_t>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
@@ -41,10 +39,8 @@ bn::ndarray execute_inplace(Functor&& f, bn::ndarray& input, Args... arg) {
 }
 
 template <typename Functor, typename... Args>
-auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
+    const auto input = as_array<real_t>(array);
 
     const auto size = input.shape(0);
     auto in         = reinterpret_cast<real_t*>(input.get_data());
@@ -116,10 +112,9 @@ auto index_of_python(bn::ndarray& input, real_t value) {
     return execute(index_of, input, value);
 }
 
-bool equal_python(bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 || second.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bool equal_python(bn::ndarray& first_array, bn::ndarray& second_array) {
+    const auto first = as_array<real_t>(first_array);
+    const auto second = as_array<real_t>(second_array);
 
     const auto size  = first.shape(0);
     const auto size2 = second.shape(0);
@@ -132,10 +127,9 @@ bool equal_python(bn::ndarray& first, bn::ndarray& second) {
     return equal(first_in, size, second_in);
 }
 
-bn::ndarray concatenate_python(bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 || second.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray concatenate_python(bn::ndarray& first_array, bn::ndarray& second_array) {
+    const auto first = as_array<real_t>(first_array);
+    const auto second = as_array<real_t>(second_array);
 
     const auto first_size  = first.shape(0);
     const auto second_size = second.shape(0);
@@ -149,10 +143,8 @@ bn::ndarray concatenate_python(bn::ndarray& first, bn::ndarray& second) {
     return result;
 }
 
-bn::ndarray padder_python(bn::ndarray& input, long size) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray padder_python(bn::ndarray& array, long size) {
+    const auto input = as_array<real_t>(array);
 
     const auto input_size = input.shape(0);
     Py_intptr_t shape[1]  = {size};
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 265f9dd..1bde581 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -24,30 +24,24 @@
 #include "boost_numpy_dependencies.hpp"
 #include <cedsp/converter.h>
 
-real_t peak2rms_python(bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+real_t peak2rms_python(bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
 
     return peak2rms(data, size);
 }
 
-real_t peak2peak_python(bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+real_t peak2peak_python(bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
 
     return peak2peak(data, size);
 }
 
-bn::ndarray real2complex_python(bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray real2complex_python(bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
@@ -59,10 +53,9 @@ bn::ndarray real2complex_python(bn::ndarray& input) {
     return result;
 }
 
-bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
-    if (real.get_nd() != 1 || imag.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray ri2complex_python(bn::ndarray& real_array, bn::ndarray& imag_array) {
+    const auto real = as_array<real_t>(real_array);
+    const auto imag = as_array<real_t>(imag_array);
 
     const auto size      = real.shape(0);
     Py_intptr_t shape[1] = {size};
@@ -75,10 +68,8 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
     return result;
 }
 
-bp::tuple complex2real_python(bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bp::tuple complex2real_python(bn::ndarray& array) {
+    const auto input = as_array<std::complex<real_t>>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 201a045..e768c7d 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -36,20 +36,17 @@
 #include <edsp/feature/spectral/spectral_variation.hpp>
 
 template <class Functor, typename... Args>
-auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
+    const auto input = as_array<real_t>(array);
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
     return f(data, data + size, arg...);
 }
 
 template <class Functor>
-auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+auto execute(Functor&& f, bn::ndarray& first_array, bn::ndarray& second_array) {
+    const auto first = as_array<real_t>(first_array);
+    const auto second = as_array<real_t>(second_array);
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index aa7e70b..d83a4d1 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -33,20 +33,17 @@
 #include <edsp/feature/statistics/variation.hpp>
 
 template <class Functor, typename... Args>
-auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
+    const auto input = as_array<real_t>(array);
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
     return f(data, data + size, arg...);
 }
 
 template <class Functor>
-auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+auto execute_two_inputs(Functor&& f, bn::ndarray& first_array, bn::ndarray& second_array) {
+    const auto first = as_array<real_t>(first_array);
+    const auto second = as_array<real_t>(second_array);
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index ceedb3c..761518e 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -32,10 +32,8 @@
 #include <edsp/feature/temporal/amdf.hpp>
 
 template <class Functor, typename... Args>
-auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
+    const auto input = as_array<real_t>(array);
 
     const auto size = input.shape(0);
     auto in         = reinterpret_cast<real_t*>(input.get_data());
@@ -43,10 +41,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 }
 
 template <class Functor, typename... Args>
-bn::ndarray execute_numpy(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray execute_numpy(Functor&& f, bn::ndarray& array, Args... arg) {
+    const auto input = as_array<real_t>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
diff --git a/bindings/python/src/filter.cpp b/bindings/python/src/filter.cpp
index 2d813af..fd99802 100644
--- a/bindings/python/src/filter.cpp
+++ b/bindings/python/src/filter.cpp
@@ -23,10 +23,8 @@
 #include <edsp/filter.hpp>
 
 template <typename Class>
-auto wrapper_filter(Class& obj, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+auto wrapper_filter(Class& obj, bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 1199587..333beec 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -32,10 +32,8 @@ using encoder   = edsp::io::encoder<real_t>;
 using decoder   = edsp::io::decoder<real_t>;
 using resampler = edsp::io::resampler<real_t>;
 
-auto encoder_wrapper(encoder& enc, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+auto encoder_wrapper(encoder& enc, bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
 
     const auto size = input.shape(0);
     auto in         = reinterpret_cast<real_t*>(input.get_data());
@@ -56,10 +54,8 @@ std::string resampler_error_string_wrapper(resampler& res) {
     return res.error_string().to_string();
 }
 
-auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+auto resampler_process_wrapper(resampler& res, bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
 
     const auto size          = input.shape(0);
     const auto expected_size = static_cast<unsigned int>(size * res.ratio());
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index 8f3bd56..7c7212d 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -25,10 +25,9 @@
 #include <cedsp/spectral.h>
 
 template <typename Functor>
-bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
-    if (left.get_nd() != 1 || right.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray execute(Functor&& f, bn::ndarray& left_array, bn::ndarray& right_array) {
+    const auto left = as_array<real_t>(left_array);
+    const auto right = as_array<real_t>(right_array);
 
     const auto size      = left.shape(0);
     Py_intptr_t shape[1] = {size};
@@ -42,10 +41,8 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
 }
 
 template <typename Functor>
-bn::ndarray execute(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray execute(Functor&& f, bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
@@ -58,10 +55,8 @@ bn::ndarray execute(Functor&& f, bn::ndarray& input) {
 }
 
 template <typename Functor>
-bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {get_fft_size(size)};
@@ -74,10 +69,8 @@ bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& input) {
 }
 
 template <typename Functor>
-bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
@@ -90,10 +83,8 @@ bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& input) {
 }
 
 template <typename Functor>
-bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {get_fft_size(size)};
@@ -106,10 +97,8 @@ bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& input) {
 }
 
 template <typename Functor>
-bn::ndarray execute_c2r(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray execute_c2r(Functor&& f, bn::ndarray& array) {
+    const auto input = as_array<std::complex<real_t>>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {get_ifft_size(size)};
@@ -122,10 +111,8 @@ bn::ndarray execute_c2r(Functor&& f, bn::ndarray& input) {
 }
 
 template <typename Functor>
-bn::ndarray execute_c2c(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+bn::ndarray execute_c2c(Functor&& f, bn::ndarray& array) {
+    const auto input = as_array<std::complex<real_t>>(array);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index cf684e0..57c0597 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -25,10 +25,8 @@
 #include <cedsp/statistics.h>
 
 template <class Functor, typename... Arg>
-inline auto execute(Functor&& f, bn::ndarray& input, Arg... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
-    }
+inline auto execute(Functor&& f, bn::ndarray& array, Arg... arg) {
+    const auto input = as_array<real_t>(array);
 
     const auto size = input.shape(0);
     auto in         = reinterpret_cast<real_t*>(input.get_data());
-- 
2.43.0


From 6b5fdf0ec058f32b3bd75f95d2c0be3d7e4d92f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 085/129] fix: the Python module does not read past the shorter
 one of two arrays

---
 bindings/python/include/boost_numpy_dependencies.hpp | 9 +++++++++
 bindings/python/src/converter.cpp                    | 1 +
 bindings/python/src/feature_spectral.cpp             | 1 +
 bindings/python/src/feature_statistics.cpp           | 1 +
 bindings/python/src/spectral.cpp                     | 1 +
 5 files changed, 13 insertions(+)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index 9f8db87..bd972b4 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -55,4 +55,13 @@ bn::ndarray as_array(const bn::ndarray& input) {
     return bn::from_object(input, bn::dtype::get_builtin<T>(), 1, 1, bn::ndarray::CARRAY_RO);
 }
 
+/**
+ * @brief Checks that two arrays, to be read together, have the same size.
+ */
+inline void expect_same_size(const bn::ndarray& first, const bn::ndarray& second) {
+    if (first.shape(0) != second.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
+}
+
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 1bde581..ff2f87e 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -56,6 +56,7 @@ bn::ndarray real2complex_python(bn::ndarray& array) {
 bn::ndarray ri2complex_python(bn::ndarray& real_array, bn::ndarray& imag_array) {
     const auto real = as_array<real_t>(real_array);
     const auto imag = as_array<real_t>(imag_array);
+    expect_same_size(real, imag);
 
     const auto size      = real.shape(0);
     Py_intptr_t shape[1] = {size};
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index e768c7d..31e2051 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -47,6 +47,7 @@ template <class Functor>
 auto execute(Functor&& f, bn::ndarray& first_array, bn::ndarray& second_array) {
     const auto first = as_array<real_t>(first_array);
     const auto second = as_array<real_t>(second_array);
+    expect_same_size(first, second);
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index d83a4d1..4e5c8ff 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -44,6 +44,7 @@ template <class Functor>
 auto execute_two_inputs(Functor&& f, bn::ndarray& first_array, bn::ndarray& second_array) {
     const auto first = as_array<real_t>(first_array);
     const auto second = as_array<real_t>(second_array);
+    expect_same_size(first, second);
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index 7c7212d..c25c6a4 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -28,6 +28,7 @@ template <typename Functor>
 bn::ndarray execute(Functor&& f, bn::ndarray& left_array, bn::ndarray& right_array) {
     const auto left = as_array<real_t>(left_array);
     const auto right = as_array<real_t>(right_array);
+    expect_same_size(left, right);
 
     const auto size      = left.shape(0);
     Py_intptr_t shape[1] = {size};
-- 
2.43.0


From 6cda6c6a45d9713fc846a9b4f9a9767d3c24a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 086/129] fix: real2complex of the Python module reads its
 argument

---
 bindings/python/src/converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index ff2f87e..11b83d5 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -47,7 +47,7 @@ bn::ndarray real2complex_python(bn::ndarray& array) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real        = reinterpret_cast<real_t*>(result.get_data());
+    auto* real        = reinterpret_cast<real_t*>(input.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     real2complex(real, size, result_data);
     return result;
-- 
2.43.0


From 15b09fd9e2129a41382bac69ee02f1e63bdafc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 087/129] fix: get_environment of the Python module reports a
 variable that does not exist

---
 bindings/python/src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/core.cpp b/bindings/python/src/core.cpp
index 18de363..1e24e99 100644
--- a/bindings/python/src/core.cpp
+++ b/bindings/python/src/core.cpp
@@ -27,7 +27,7 @@
 bp::tuple get_environment_python(const char* tag) {
     int error = 0;
     const char* data = get_environment(tag, &error);
-    return bp::make_tuple(std::string(data), error);
+    return bp::make_tuple(std::string(data != nullptr ? data : ""), error);
 }
 
 void add_core_package() {
-- 
2.43.0


From 9c62d551c24a36f5a80cc9d834d0f5ad98d2cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 088/129] fix: reading in Python with a closed decoder, or at
 the end of a file, returns what was read

---
 bindings/python/src/io.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 333beec..2ce40f7 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -45,9 +45,7 @@ auto decoder_wrapper(decoder& dec, unsigned int size) {
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
     const auto sizes     = dec.read(data, data + size);
-    const auto frames    = sizes / dec.channels();
-    result.reshape(bp::make_tuple(frames, dec.channels()));
-    return result;
+    return bp::object(result[bp::slice(0, sizes)]);
 }
 
 std::string resampler_error_string_wrapper(resampler& res) {
-- 
2.43.0


From 1ad3b67cdf47be8009f66bb8d0359eff2f5bdeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 089/129] fix: resampling several channels in Python does not
 write past its result

---
 bindings/python/src/io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 2ce40f7..528ac0b 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -64,12 +64,11 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& array) {
     auto in              = reinterpret_cast<real_t*>(input.get_data());
     const auto sizes     = res.process(in, in + size, data);
 
-    Py_intptr_t final_shape[2] = {sizes.second, res.channels()};
     const auto final_samples   = sizes.second * res.channels();
+    Py_intptr_t final_shape[1] = {final_samples};
     auto final_result          = bn::empty(1, final_shape, bn::dtype::get_builtin<real_t>());
     auto final_data            = reinterpret_cast<real_t*>(final_result.get_data());
     std::copy(data, data + final_samples, final_data);
-    final_result.reshape(bp::make_tuple(sizes.second, res.channels()));
     return bp::make_tuple(final_result, sizes.first);
 }
 
-- 
2.43.0


From 236623fe0a2870d5b468ce93085430b00a48bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 090/129] fix: a negative size of an auditory space raises an
 exception in Python

---
 bindings/python/src/auditory.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/src/auditory.cpp b/bindings/python/src/auditory.cpp
index 323e508..b8e694d 100644
--- a/bindings/python/src/auditory.cpp
+++ b/bindings/python/src/auditory.cpp
@@ -37,7 +37,7 @@ constexpr auto converter_python(Functor&& f, T frequency) noexcept {
 }
 
 template <class Functor, typename T, typename Integer>
-bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) noexcept {
+bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
@@ -77,19 +77,19 @@ real_t erb2hertz(real_t frequency) noexcept {
     return converter_python(edsp::auditory::erb2hertz<real_t>, frequency);
 }
 
-bn::ndarray erbspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray erbspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::erbspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray barkspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray barkspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::barkspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray centspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray centspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::centspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray melspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray melspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::melspace<real_t*, real_t>, min, max, size);
 }
 
-- 
2.43.0


From 9f7f60919646aad8c57a314d10fbaef355d51ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 091/129] fix: Python functions without a value for an empty
 array raise a ValueError

They read past the end of the array (max, min, peak, median, crest, decrease,
irregularity, zero crossings, ...) or crashed in FFTW.
---
 .../include/boost_numpy_dependencies.hpp      |  9 +++++++
 bindings/python/src/converter.cpp             |  2 ++
 bindings/python/src/feature_spectral.cpp      |  2 ++
 bindings/python/src/feature_statistics.cpp    |  2 ++
 bindings/python/src/feature_temporal.cpp      | 16 ++++++++++---
 bindings/python/src/spectral.cpp              |  7 ++++++
 bindings/python/src/statistics.cpp            | 24 +++++++++++++------
 7 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index bd972b4..e2ca372 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -64,4 +64,13 @@ inline void expect_same_size(const bn::ndarray& first, const bn::ndarray& second
     }
 }
 
+/**
+ * @brief Raises a ValueError if the given array has no element.
+ */
+inline void expect_not_empty(const bn::ndarray& array) {
+    if (array.shape(0) == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
+}
+
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 11b83d5..db3d33b 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -26,6 +26,7 @@
 
 real_t peak2rms_python(bn::ndarray& array) {
     const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
 
@@ -34,6 +35,7 @@ real_t peak2rms_python(bn::ndarray& array) {
 
 real_t peak2peak_python(bn::ndarray& array) {
     const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
 
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 31e2051..a250925 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -38,6 +38,7 @@
 template <class Functor, typename... Args>
 auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
     const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
     return f(data, data + size, arg...);
@@ -48,6 +49,7 @@ auto execute(Functor&& f, bn::ndarray& first_array, bn::ndarray& second_array) {
     const auto first = as_array<real_t>(first_array);
     const auto second = as_array<real_t>(second_array);
     expect_same_size(first, second);
+    expect_not_empty(first);
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index 4e5c8ff..595478d 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -35,6 +35,7 @@
 template <class Functor, typename... Args>
 auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
     const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
     return f(data, data + size, arg...);
@@ -45,6 +46,7 @@ auto execute_two_inputs(Functor&& f, bn::ndarray& first_array, bn::ndarray& seco
     const auto first = as_array<real_t>(first_array);
     const auto second = as_array<real_t>(second_array);
     expect_same_size(first, second);
+    expect_not_empty(first);
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index 761518e..9f92cd9 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -40,6 +40,16 @@ auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
     return f(in, in + size, arg...);
 }
 
+template <class Functor, typename... Args>
+auto execute_not_empty(Functor&& f, bn::ndarray& array, Args... arg) {
+    const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
+
+    const auto size = input.shape(0);
+    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    return f(in, in + size, arg...);
+}
+
 template <class Functor, typename... Args>
 bn::ndarray execute_numpy(Functor&& f, bn::ndarray& array, Args... arg) {
     const auto input = as_array<real_t>(array);
@@ -81,8 +91,8 @@ real_t duration_python(bn::ndarray& input, real_t sample_rate) {
 
 real_t effective_duration_python(bn::ndarray& input, real_t sample_rate, real_t threshold) {
     using callback_type = decltype(edsp::feature::temporal::effective_duration<real_t*, real_t>);
-    return execute<callback_type>(edsp::feature::temporal::effective_duration<real_t*, real_t>, input, sample_rate,
-                                  threshold);
+    return execute_not_empty<callback_type>(edsp::feature::temporal::effective_duration<real_t*, real_t>, input,
+                                            sample_rate, threshold);
 }
 
 real_t leq_python(bn::ndarray& input) {
@@ -92,7 +102,7 @@ real_t leq_python(bn::ndarray& input) {
 
 real_t azcr_python(bn::ndarray& input) {
     using callback_type = decltype(edsp::feature::temporal::azcr<real_t*>);
-    return execute<callback_type>(edsp::feature::temporal::azcr<real_t*>, input);
+    return execute_not_empty<callback_type>(edsp::feature::temporal::azcr<real_t*>, input);
 }
 
 bn::ndarray amdf_python(bn::ndarray& input) {
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index c25c6a4..d3717dc 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -29,6 +29,7 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left_array, bn::ndarray& right_arr
     const auto left = as_array<real_t>(left_array);
     const auto right = as_array<real_t>(right_array);
     expect_same_size(left, right);
+    expect_not_empty(left);
 
     const auto size      = left.shape(0);
     Py_intptr_t shape[1] = {size};
@@ -44,6 +45,7 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left_array, bn::ndarray& right_arr
 template <typename Functor>
 bn::ndarray execute(Functor&& f, bn::ndarray& array) {
     const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
@@ -58,6 +60,7 @@ bn::ndarray execute(Functor&& f, bn::ndarray& array) {
 template <typename Functor>
 bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& array) {
     const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {get_fft_size(size)};
@@ -72,6 +75,7 @@ bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& array) {
 template <typename Functor>
 bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& array) {
     const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
@@ -86,6 +90,7 @@ bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& array) {
 template <typename Functor>
 bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& array) {
     const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {get_fft_size(size)};
@@ -100,6 +105,7 @@ bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& array) {
 template <typename Functor>
 bn::ndarray execute_c2r(Functor&& f, bn::ndarray& array) {
     const auto input = as_array<std::complex<real_t>>(array);
+    expect_not_empty(input);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {get_ifft_size(size)};
@@ -114,6 +120,7 @@ bn::ndarray execute_c2r(Functor&& f, bn::ndarray& array) {
 template <typename Functor>
 bn::ndarray execute_c2c(Functor&& f, bn::ndarray& array) {
     const auto input = as_array<std::complex<real_t>>(array);
+    expect_not_empty(input);
 
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index 57c0597..3ea3aa1 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -33,6 +33,16 @@ inline auto execute(Functor&& f, bn::ndarray& array, Arg... arg) {
     return f(in, size, arg...);
 }
 
+template <class Functor>
+inline auto execute_not_empty(Functor&& f, bn::ndarray& array) {
+    const auto input = as_array<real_t>(array);
+    expect_not_empty(input);
+
+    const auto size = input.shape(0);
+    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    return f(in, size);
+}
+
 real_t kurtosis_python(bn::ndarray& input) {
     return execute(kurtosis, input);
 }
@@ -58,28 +68,28 @@ real_t harmonic_mean_python(bn::ndarray& input) {
 }
 
 real_t max_python(bn::ndarray& input) {
-    return execute(max, input);
+    return execute_not_empty(max, input);
 }
 
 real_t min_python(bn::ndarray& input) {
-    return execute(min, input);
+    return execute_not_empty(min, input);
 }
 
 bp::tuple peak_python(bn::ndarray& input) {
-    const auto elem = execute(peak, input);
+    const auto elem = execute_not_empty(peak, input);
     return bp::make_tuple(elem.index, elem.value);
 }
 
 real_t max_abs_python(bn::ndarray& input) {
-    return execute(max_abs, input);
+    return execute_not_empty(max_abs, input);
 }
 
 real_t min_abs_python(bn::ndarray& input) {
-    return execute(min_abs, input);
+    return execute_not_empty(min_abs, input);
 }
 
 bp::tuple peak_abs_python(bn::ndarray& input) {
-    const auto elem = execute(peak_abs, input);
+    const auto elem = execute_not_empty(peak_abs, input);
     return bp::make_tuple(elem.index, elem.value);
 }
 
@@ -88,7 +98,7 @@ real_t mean_python(bn::ndarray& input) {
 }
 
 real_t median_python(bn::ndarray& input) {
-    return execute(median, input);
+    return execute_not_empty(median, input);
 }
 
 real_t variance_python(bn::ndarray& input) {
-- 
2.43.0


From 7cea5dde6fa9515256899c66b53d45f292a6e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 092/129] fix: padding to fewer elements than given raises a
 ValueError in Python

It wrote past the end of the result.
---
 bindings/python/src/algorithm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index 48c8f42..ce98530 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -147,6 +147,9 @@ bn::ndarray padder_python(bn::ndarray& array, long size) {
     const auto input = as_array<real_t>(array);
 
     const auto input_size = input.shape(0);
+    if (size < input_size) {
+        throw std::invalid_argument("Expected a size not smaller than the array");
+    }
     Py_intptr_t shape[1]  = {size};
     auto result           = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* in              = reinterpret_cast<real_t*>(input.get_data());
-- 
2.43.0


From d06478be58c78b56a2999d94fc63ede43575b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:48 +0000
Subject: [PATCH 093/129] fix: the helpers of the Python modules do not clash
 when they are linked

The feature modules define templates with the same name and signature and
different bodies, and the linker kept one of them for all.
---
 bindings/python/src/feature_spectral.cpp   | 4 ++--
 bindings/python/src/feature_statistics.cpp | 4 ++--
 bindings/python/src/feature_temporal.cpp   | 4 ++--
 bindings/python/src/statistics.cpp         | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index a250925..fe08c7f 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -36,7 +36,7 @@
 #include <edsp/feature/spectral/spectral_variation.hpp>
 
 template <class Functor, typename... Args>
-auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
+static auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
     const auto input = as_array<real_t>(array);
     expect_not_empty(input);
     const auto size = input.shape(0);
@@ -45,7 +45,7 @@ auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
 }
 
 template <class Functor>
-auto execute(Functor&& f, bn::ndarray& first_array, bn::ndarray& second_array) {
+static auto execute(Functor&& f, bn::ndarray& first_array, bn::ndarray& second_array) {
     const auto first = as_array<real_t>(first_array);
     const auto second = as_array<real_t>(second_array);
     expect_same_size(first, second);
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index 595478d..a87c3a8 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -33,7 +33,7 @@
 #include <edsp/feature/statistics/variation.hpp>
 
 template <class Functor, typename... Args>
-auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
+static auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
     const auto input = as_array<real_t>(array);
     expect_not_empty(input);
     const auto size = input.shape(0);
@@ -42,7 +42,7 @@ auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
 }
 
 template <class Functor>
-auto execute_two_inputs(Functor&& f, bn::ndarray& first_array, bn::ndarray& second_array) {
+static auto execute_two_inputs(Functor&& f, bn::ndarray& first_array, bn::ndarray& second_array) {
     const auto first = as_array<real_t>(first_array);
     const auto second = as_array<real_t>(second_array);
     expect_same_size(first, second);
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index 9f92cd9..88d6b8c 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -32,7 +32,7 @@
 #include <edsp/feature/temporal/amdf.hpp>
 
 template <class Functor, typename... Args>
-auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
+static auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
     const auto input = as_array<real_t>(array);
 
     const auto size = input.shape(0);
@@ -41,7 +41,7 @@ auto execute(Functor&& f, bn::ndarray& array, Args... arg) {
 }
 
 template <class Functor, typename... Args>
-auto execute_not_empty(Functor&& f, bn::ndarray& array, Args... arg) {
+static auto execute_not_empty(Functor&& f, bn::ndarray& array, Args... arg) {
     const auto input = as_array<real_t>(array);
     expect_not_empty(input);
 
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index 3ea3aa1..6a91ff8 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -25,7 +25,7 @@
 #include <cedsp/statistics.h>
 
 template <class Functor, typename... Arg>
-inline auto execute(Functor&& f, bn::ndarray& array, Arg... arg) {
+static auto execute(Functor&& f, bn::ndarray& array, Arg... arg) {
     const auto input = as_array<real_t>(array);
 
     const auto size = input.shape(0);
@@ -34,7 +34,7 @@ inline auto execute(Functor&& f, bn::ndarray& array, Arg... arg) {
 }
 
 template <class Functor>
-inline auto execute_not_empty(Functor&& f, bn::ndarray& array) {
+static auto execute_not_empty(Functor&& f, bn::ndarray& array) {
     const auto input = as_array<real_t>(array);
     expect_not_empty(input);
 
-- 
2.43.0


From c95a2429d3fc118fbdc11ce11f57e3c3f5d77964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:33 +0000
Subject: [PATCH 094/129] fix: normalizing an empty range does not read past
 its end

---
 include/edsp/algorithm/normalize.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/edsp/algorithm/normalize.hpp b/include/edsp/algorithm/normalize.hpp
index 42a7a52..18b1e27 100644
--- a/include/edsp/algorithm/normalize.hpp
+++ b/include/edsp/algorithm/normalize.hpp
@@ -44,6 +44,10 @@ namespace edsp { inline namespace algorithm {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void normalize(InputIt first, InputIt last, OutputIt d_first) {
+        if (first == last) {
+            return;
+        }
+
         const auto factor = statistics::maxabs(first, last);
         std::transform(first, last, d_first,
                        [factor](const meta::value_type_t<InputIt> value) -> meta::value_type_t<OutputIt> {
-- 
2.43.0


From 2cd266d075a477fabc7c69cc2da7e315d56a92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:48 +0000
Subject: [PATCH 095/129] fix: a moving filter of no sample raises a ValueError
 in Python

Its first call ended the interpreter with a division by zero.
---
 bindings/python/src/filter.cpp | 60 ++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/bindings/python/src/filter.cpp b/bindings/python/src/filter.cpp
index fd99802..925fb5c 100644
--- a/bindings/python/src/filter.cpp
+++ b/bindings/python/src/filter.cpp
@@ -21,6 +21,30 @@
 #include "boost_numpy_dependencies.hpp"
 #include <cedsp/types.h>
 #include <edsp/filter.hpp>
+#include <limits>
+
+// A filter whose window holds one sample at least
+template <typename Filter>
+struct checked : Filter {
+    explicit checked(real_t window) : Filter(checked_window(window)) {}
+
+    void resize(std::size_t window) {
+        Filter::resize(checked_window(window));
+    }
+
+private:
+    template <typename T>
+    static std::size_t checked_window(T window) {
+        if (!(window >= 1 && window <= std::numeric_limits<int>::max())) {
+            throw std::invalid_argument("Expected a window of one sample at least");
+        }
+        return static_cast<std::size_t>(window);
+    }
+};
+
+using median_filter  = checked<edsp::filter::moving_median<real_t>>;
+using average_filter = checked<edsp::filter::moving_average<real_t>>;
+using rms_filter     = checked<edsp::filter::moving_rms<real_t>>;
 
 template <typename Class>
 auto wrapper_filter(Class& obj, bn::ndarray& array) {
@@ -34,15 +58,15 @@ auto wrapper_filter(Class& obj, bn::ndarray& array) {
     return result;
 }
 
-auto wrapper_median_filter(edsp::filter::moving_median<real_t>& obj, bn::ndarray& input) {
+auto wrapper_median_filter(median_filter& obj, bn::ndarray& input) {
     return wrapper_filter(obj, input);
 }
 
-auto wrapper_average_filter(edsp::filter::moving_average<real_t>& obj, bn::ndarray& input) {
+auto wrapper_average_filter(average_filter& obj, bn::ndarray& input) {
     return wrapper_filter(obj, input);
 }
 
-auto wrapper_rms_filter(edsp::filter::moving_rms<real_t>& obj, bn::ndarray& input) {
+auto wrapper_rms_filter(rms_filter& obj, bn::ndarray& input) {
     return wrapper_filter(obj, input);
 }
 
@@ -52,24 +76,24 @@ void add_filter_package() {
     bp::scope().attr("filter") = nested_module;
     bp::scope parent           = nested_module;
 
-    bp::class_<edsp::filter::moving_median<real_t>, boost::noncopyable>("MovingMedianFilter", bp::init<real_t>())
-        .def("size", &edsp::filter::moving_median<real_t>::size)
-        .def("resize", &edsp::filter::moving_median<real_t>::resize)
-        .def("reset", &edsp::filter::moving_median<real_t>::reset)
-        .def("__call__", &edsp::filter::moving_median<real_t>::operator())
+    bp::class_<median_filter, boost::noncopyable>("MovingMedianFilter", bp::init<real_t>())
+        .def("size", &median_filter::size)
+        .def("resize", &median_filter::resize)
+        .def("reset", &median_filter::reset)
+        .def("__call__", &median_filter::operator())
         .def("filter", wrapper_median_filter);
 
-    bp::class_<edsp::filter::moving_average<real_t>, boost::noncopyable>("MovingAverageFilter", bp::init<real_t>())
-        .def("size", &edsp::filter::moving_average<real_t>::size)
-        .def("resize", &edsp::filter::moving_average<real_t>::resize)
-        .def("reset", &edsp::filter::moving_average<real_t>::reset)
-        .def("__call__", &edsp::filter::moving_average<real_t>::operator())
+    bp::class_<average_filter, boost::noncopyable>("MovingAverageFilter", bp::init<real_t>())
+        .def("size", &average_filter::size)
+        .def("resize", &average_filter::resize)
+        .def("reset", &average_filter::reset)
+        .def("__call__", &average_filter::operator())
         .def("filter", wrapper_average_filter);
 
-    bp::class_<edsp::filter::moving_rms<real_t>, boost::noncopyable>("MovingRmsFilter", bp::init<real_t>())
-        .def("size", &edsp::filter::moving_rms<real_t>::size)
-        .def("resize", &edsp::filter::moving_rms<real_t>::resize)
-        .def("reset", &edsp::filter::moving_rms<real_t>::reset)
-        .def("__call__", &edsp::filter::moving_rms<real_t>::operator())
+    bp::class_<rms_filter, boost::noncopyable>("MovingRmsFilter", bp::init<real_t>())
+        .def("size", &rms_filter::size)
+        .def("resize", &rms_filter::resize)
+        .def("reset", &rms_filter::reset)
+        .def("__call__", &rms_filter::operator())
         .def("filter", wrapper_rms_filter);
 }
\ No newline at end of file
-- 
2.43.0


From 727d4db3af89d3b60c2f7572f21292a6d1e70e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 096/129] fix: pushing onto a ring buffer of no capacity
 divided by zero

---
 include/edsp/thirdparty/nonstd/ring_span.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/edsp/thirdparty/nonstd/ring_span.hpp b/include/edsp/thirdparty/nonstd/ring_span.hpp
index 1485ff7..68f483e 100644
--- a/include/edsp/thirdparty/nonstd/ring_span.hpp
+++ b/include/edsp/thirdparty/nonstd/ring_span.hpp
@@ -494,6 +494,9 @@ namespace nonstd {
         void push_back(value_type const& value)
 #    endif
         {
+            if (m_capacity == 0)
+                return; // there is nowhere to keep it
+
             if (full())
                 increment_front_and_back_();
             else
@@ -505,6 +508,9 @@ namespace nonstd {
 #    if nsrs_CPP11_OR_GREATER
         template <bool b = true, typename = nonstd::enable_if_t<b && std::is_move_assignable<T>::value>>
         void push_back(value_type&& value) nsrs_noexcept_op((std::is_nothrow_move_assignable<T>::value)) {
+            if (m_capacity == 0)
+                return; // there is nowhere to keep it
+
             if (full())
                 increment_front_and_back_();
             else
@@ -516,6 +522,9 @@ namespace nonstd {
         template <class... Args>
         void emplace_back(Args&&... args) nsrs_noexcept_op((std::is_nothrow_constructible<T, Args...>::value &&
                                                             std::is_nothrow_move_assignable<T>::value)) {
+            if (m_capacity == 0)
+                return; // there is nowhere to keep it
+
             if (full())
                 increment_front_and_back_();
             else
@@ -534,6 +543,9 @@ namespace nonstd {
         void push_front(T const& value)
 #        endif
         {
+            if (m_capacity == 0)
+                return; // there is nowhere to keep it
+
             if (full())
                 decrement_front_and_back_();
             else
@@ -545,6 +557,9 @@ namespace nonstd {
 #        if nsrs_CPP11_OR_GREATER
         template <bool b = true, typename = nonstd::enable_if_t<b && std::is_move_assignable<T>::value>>
         void push_front(T&& value) nsrs_noexcept_op((std::is_nothrow_move_assignable<T>::value)) {
+            if (m_capacity == 0)
+                return; // there is nowhere to keep it
+
             if (full())
                 decrement_front_and_back_();
             else
@@ -556,6 +571,9 @@ namespace nonstd {
         template <typename... Args>
         void emplace_front(Args&&... args) nsrs_noexcept_op((std::is_nothrow_constructible<T, Args...>::value &&
                                                              std::is_nothrow_move_assignable<T>::value)) {
+            if (m_capacity == 0)
+                return; // there is nowhere to keep it
+
             if (full())
                 decrement_front_and_back_();
             else
-- 
2.43.0


From ff0433658647a29d64527476c84f663233654d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:46 +0000
Subject: [PATCH 097/129] fix: assigning a variant holding the same type leaked
 the value it held

---
 include/edsp/thirdparty/nonstd/variant.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 8cf0139..2072bb6 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -1651,8 +1651,6 @@ namespace nonstd {
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::copy(other.type_index, other.ptr(), ptr());
                 } else {
                     // alas exception safety with pre-C++11 needs an extra copy:
 
@@ -1660,9 +1658,9 @@ namespace nonstd {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
 #        if variant_CPP11_OR_GREATER
-                    type_index = helper_type::move(other.type_index, tmp.ptr(), ptr());
+                    type_index = helper_type::move(tmp.type_index, tmp.ptr(), ptr());
 #        else
-                    type_index = helper_type::copy(other.type_index, tmp.ptr(), ptr());
+                    type_index = helper_type::copy(tmp.type_index, tmp.ptr(), ptr());
 #        endif
                 }
                 return *this;
@@ -1676,9 +1674,7 @@ namespace nonstd {
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::move(other.type_index, other.ptr(), ptr());
-                } else {
+                } else if (this != &other) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
                     type_index = helper_type::move(other.type_index, other.ptr(), ptr());
-- 
2.43.0


From fc32345988f6b4af3cf6585f7d32dd98d6d33a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 098/129] fix: finding an empty text at the end of a string
 view reported it missing

---
 include/edsp/thirdparty/nonstd/string_view.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/string_view.hpp b/include/edsp/thirdparty/nonstd/string_view.hpp
index 37e8e40..a5f31cd 100644
--- a/include/edsp/thirdparty/nonstd/string_view.hpp
+++ b/include/edsp/thirdparty/nonstd/string_view.hpp
@@ -627,8 +627,10 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr14 size_type find(basic_string_view v, size_type pos = 0) const nssv_noexcept // (1)
             {
                 return assert(v.size() == 0 || v.data() != nssv_nullptr),
-                       pos >= size() ? npos
-                                     : to_pos(std::search(cbegin() + pos, cend(), v.cbegin(), v.cend(), Traits::eq));
+                       v.size() == 0
+                           ? (pos > size() ? npos : pos)
+                           : pos >= size() ? npos
+                                           : to_pos(std::search(cbegin() + pos, cend(), v.cbegin(), v.cend(), Traits::eq));
             }
 
             nssv_constexpr14 size_type find(CharT c, size_type pos = 0) const nssv_noexcept // (2)
-- 
2.43.0


From 95ce04aade1ed36f340564b82274ffcc84b6109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 099/129] fix: searching an empty string view from its end
 never returned

---
 include/edsp/thirdparty/nonstd/string_view.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/string_view.hpp b/include/edsp/thirdparty/nonstd/string_view.hpp
index a5f31cd..fcf1dda 100644
--- a/include/edsp/thirdparty/nonstd/string_view.hpp
+++ b/include/edsp/thirdparty/nonstd/string_view.hpp
@@ -707,7 +707,8 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
 
             nssv_constexpr size_type find_last_of(basic_string_view v, size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size() ? find_last_of(v, size() - 1)
+                return empty() ? npos
+                               : pos >= size() ? find_last_of(v, size() - 1)
                                      : to_pos(std::find_first_of(const_reverse_iterator(cbegin() + pos + 1), crend(),
                                                                  v.cbegin(), v.cend(), Traits::eq));
             }
@@ -755,7 +756,9 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr size_type find_last_not_of(basic_string_view v,
                                                       size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size()
+                return empty()
+                           ? npos
+                           : pos >= size()
                            ? find_last_not_of(v, size() - 1)
                            : to_pos(std::find_if(const_reverse_iterator(cbegin() + pos + 1), crend(), not_in_view(v)));
             }
-- 
2.43.0


From 12c3f7a9678cc08ad187b6bcab5718413dbe7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 100/129] fix: assigning an expected returned a copy instead of
 the object assigned to

---
 include/edsp/thirdparty/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index bbf4631..835bcf1 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -926,7 +926,7 @@ namespace nonstd {
             //        std::is_copy_constructible<E>::value &&
             //        std::is_copy_assignable<E>::value )
 
-            expected operator=(expected const& other) {
+            expected& operator=(expected const& other) {
                 expected(other).swap(*this);
                 return *this;
             }
-- 
2.43.0


From 8839d8fd14de15299f9bc92eedd0c441928271b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 101/129] fix: swapping or assigning an expected<void> leaked
 the error it held

---
 include/edsp/thirdparty/nonstd/expected.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 835bcf1..58e2176 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1265,6 +1265,7 @@ namespace nonstd {
                     swap(contained.error(), other.contained.error());
                 } else if (bool(*this) && !bool(other)) {
                     contained.construct_error(std::move(other.error()));
+                    other.contained.destruct_error();
                     swap(has_value_, other.has_value_);
                 } else if (!bool(*this) && bool(other)) {
                     other.swap(*this);
-- 
2.43.0


From 41606faa6e125fd15312d95883a4b37be0cc0036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 102/129] fix: value() of an expected<void> holding an error
 did not throw

---
 include/edsp/thirdparty/nonstd/expected.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 58e2176..84f7e4c 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1282,7 +1282,10 @@ namespace nonstd {
                 return has_value_;
             }
 
-            void value() const {}
+            void value() const {
+                if (!has_value())
+                    error_traits<error_type>::rethrow(contained.error());
+            }
 
             constexpr error_type const& error() const& {
                 return assert(!has_value()), contained.error();
-- 
2.43.0


From bb29f3239c5f1b2b602aae9da25b0da8f8515132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 103/129] fix: emplace() of an expected<void> kept the error it
 held

---
 include/edsp/thirdparty/nonstd/expected.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 84f7e4c..b13eccd 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1244,7 +1244,9 @@ namespace nonstd {
                 return *this;
             }
 
-            void emplace() {}
+            void emplace() {
+                expected().swap(*this);
+            }
 
             // x.x.4.4 swap
 
-- 
2.43.0


From b99a327d81c03d9325b24a88cb31c5e7d2b6c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 104/129] fix: assigning a constant to a variant could store it
 as another type

---
 include/edsp/thirdparty/nonstd/variant.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 2072bb6..deda013 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -1472,7 +1472,8 @@ namespace nonstd {
                 return move_assign_value<T15, 15>(std::forward<T15>(t15));
             }
 
-#        else
+#        endif
+
             variant& operator=(T0 const& t0) {
                 return copy_assign_value<T0, 0>(t0);
             }
@@ -1522,8 +1523,6 @@ namespace nonstd {
                 return copy_assign_value<T15, 15>(t15);
             }
 
-#        endif
-
             std::size_t index() const {
                 return variant_npos_internal() == type_index ? variant_npos : type_index;
             }
@@ -1694,7 +1693,9 @@ namespace nonstd {
                 }
                 return *this;
             }
-#        else
+
+#        endif // variant_CPP11_OR_GREATER
+
             template <class T, std::size_t K>
             variant& copy_assign_value(T const& value) {
                 if (index() == K) {
@@ -1708,8 +1709,6 @@ namespace nonstd {
                 return *this;
             }
 
-#        endif // variant_CPP11_OR_GREATER
-
             void swap_value(std::size_t index, variant& other) {
                 using std::swap;
                 switch (index) {
-- 
2.43.0


From afd4b78ffb199e98154424fd9f27a6bdb0f5cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 105/129] fix: two expected objects holding different errors
 compared equal

---
 include/edsp/thirdparty/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index b13eccd..369541e 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1344,7 +1344,7 @@ namespace nonstd {
 
         template <typename T, typename E>
         constexpr bool operator==(expected<T, E> const& x, expected<T, E> const& y) {
-            return bool(x) != bool(y) ? false : bool(x) == false ? true : *x == *y;
+            return bool(x) != bool(y) ? false : bool(x) == false ? x.error() == y.error() : *x == *y;
         }
 
         template <typename T, typename E>
-- 
2.43.0


From 8ccd4f0cf6746d222bd9b8d42e3145bb710b69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:20 +0000
Subject: [PATCH 106/129] fix: any_cast to a reference did not compile

---
 include/edsp/thirdparty/nonstd/any.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/any.hpp b/include/edsp/thirdparty/nonstd/any.hpp
index eee470f..4651a32 100644
--- a/include/edsp/thirdparty/nonstd/any.hpp
+++ b/include/edsp/thirdparty/nonstd/any.hpp
@@ -549,13 +549,14 @@ namespace nonstd {
 #        endif
                   >
         any_nodiscard inline ValueType any_cast(any& operand) {
-            const ValueType* result = any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
+            typename detail::remove_reference<ValueType>::type* result =
+                any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
 
             if (!result) {
                 throw bad_any_cast();
             }
 
-            return *result;
+            return static_cast<ValueType>(*result);
         }
 
 #        if any_CPP11_OR_GREATER
@@ -568,13 +569,14 @@ namespace nonstd {
 #            endif
                   >
         any_nodiscard inline ValueType any_cast(any&& operand) {
-            const ValueType* result = any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
+            typename detail::remove_reference<ValueType>::type* result =
+                any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
 
             if (!result) {
                 throw bad_any_cast();
             }
 
-            return *result;
+            return static_cast<ValueType>(*result);
         }
 
 #        endif // any_CPP11_OR_GREATER
-- 
2.43.0


From 7657423d5db05d149f8f4f584db3cd6a03295e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:03 +0000
Subject: [PATCH 107/129] fix: logspace.hpp could not be included on its own

---
 include/edsp/algorithm/logspace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/algorithm/logspace.hpp b/include/edsp/algorithm/logspace.hpp
index 734defe..870e969 100644
--- a/include/edsp/algorithm/logspace.hpp
+++ b/include/edsp/algorithm/logspace.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_ALGORITHM_LOGSPACE_H
 #define EDSP_ALGORITHM_LOGSPACE_H
 
+#include <cmath>
 #include <cstddef>
 #include <iterator>
 
-- 
2.43.0


From cd37e7bab7e0173b6bc542aa5aca0eedca90294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:03 +0000
Subject: [PATCH 108/129] fix: rms.hpp and peak2rms.hpp could not be included
 on their own

---
 include/edsp/feature/temporal/rms.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index ac287f7..4d07950 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -24,6 +24,7 @@
 
 #include <numeric>
 #include <cmath>
+#include <iterator>
 
 namespace edsp { namespace feature { inline namespace temporal {
 
-- 
2.43.0


From 988792bccc371e941a972249aaf4a2cccd26dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:03 +0000
Subject: [PATCH 109/129] fix: moving_average_filter.hpp and leq.hpp could not
 be included on their own

---
 include/edsp/filter/moving_average_filter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 0c3e91a..e14eb59 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_FILTER_MOVING_AVERAGE_FILTER_H
 #define EDSP_FILTER_MOVING_AVERAGE_FILTER_H
 
+#include <algorithm>
 #include <edsp/types/ring_buffer.hpp>
 
 namespace edsp { namespace filter {
-- 
2.43.0


From 5b16f2c8ad85da05f3b38d2d9fce6f5dc2fca9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 110/129] fix: span.hpp could not be included on its own

---
 include/edsp/thirdparty/nonstd/span.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/span.hpp b/include/edsp/thirdparty/nonstd/span.hpp
index 44c9fe5..cfc17dc 100644
--- a/include/edsp/thirdparty/nonstd/span.hpp
+++ b/include/edsp/thirdparty/nonstd/span.hpp
@@ -401,9 +401,7 @@ span_DISABLE_MSVC_WARNINGS(26439 26440 26472 26473 26481 26490)
 #        include <cstdio>
 #    endif
 
-#    if span_CONFIG(CONTRACT_VIOLATION_THROWS_V)
-#        include <stdexcept>
-#    endif
+#    include <stdexcept>
 
 // Contract violation
 
-- 
2.43.0


From b8844b14371bcf9e41d0b24dce6d0c933f261857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:41 +0000
Subject: [PATCH 111/129] fix: ring_span.hpp could not be included after
 optional.hpp, any.hpp or variant.hpp

---
 include/edsp/thirdparty/nonstd/ring_span.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/ring_span.hpp b/include/edsp/thirdparty/nonstd/ring_span.hpp
index 68f483e..cc295b3 100644
--- a/include/edsp/thirdparty/nonstd/ring_span.hpp
+++ b/include/edsp/thirdparty/nonstd/ring_span.hpp
@@ -339,8 +339,8 @@ namespace nonstd {
 
         typedef ring_span<T, Popper> type;
 
-        typedef detail::ring_iterator<type, false> iterator;
-        typedef detail::ring_iterator<type, true> const_iterator;
+        typedef nonstd::detail::ring_iterator<type, false> iterator;
+        typedef nonstd::detail::ring_iterator<type, true> const_iterator;
 
 #    if nsrs_RING_SPAN_LITE_EXTENSION
         typedef std::reverse_iterator<iterator> reverse_iterator;
@@ -597,8 +597,8 @@ namespace nonstd {
         }
 
     private:
-        friend class detail::ring_iterator<ring_span, true>;  // const_iterator;
-        friend class detail::ring_iterator<ring_span, false>; // iterator;
+        friend class nonstd::detail::ring_iterator<ring_span, true>;  // const_iterator;
+        friend class nonstd::detail::ring_iterator<ring_span, false>; // iterator;
 
         size_type normalize_(size_type const idx) const nsrs_noexcept {
             return idx % m_capacity;
-- 
2.43.0


From 0716de6ffd8b1e674f6e9994053b24ea48386bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:00 +0000
Subject: [PATCH 112/129] fix: snr.hpp could not be included after the
 statistical features

---
 include/edsp/feature/temporal/snr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/temporal/snr.hpp b/include/edsp/feature/temporal/snr.hpp
index 23b3166..cd7496b 100644
--- a/include/edsp/feature/temporal/snr.hpp
+++ b/include/edsp/feature/temporal/snr.hpp
@@ -56,8 +56,8 @@ namespace edsp { namespace feature { inline namespace temporal {
         std::transform(first1, last1, first2, std::begin(noise),
                        [](const value_type left, const value_type right) { return left - right; });
 
-        const auto var_ref   = statistics::variance(first1, last1);
-        const auto var_noise = statistics::variance(std::cbegin(noise), std::cend(noise));
+        const auto var_ref   = edsp::statistics::variance(first1, last1);
+        const auto var_noise = edsp::statistics::variance(std::cbegin(noise), std::cend(noise));
         return converter::pow2db(var_ref / var_noise);
     }
 
-- 
2.43.0


From ef6dbfc5d96f1caeb081fb250f7ed1b910b2c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:00 +0000
Subject: [PATCH 113/129] fix: random_generator.hpp and
 perlin_noise_generator.hpp could not be included together

---
 include/edsp/random/random_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/random/random_generator.hpp b/include/edsp/random/random_generator.hpp
index 22ad57b..6dc1c14 100644
--- a/include/edsp/random/random_generator.hpp
+++ b/include/edsp/random/random_generator.hpp
@@ -52,7 +52,7 @@ namespace edsp { namespace random {
         PieceWiseLinear    /*<! Produces real values distributed on defined subintervals.  */
     };
 
-    namespace internal {
+    inline namespace internal {
 
         template <typename Distribution, typename Engine = std::mt19937>
         struct RandomGeneratorImpl {
-- 
2.43.0


From f9067a577f6982a8ced2f13a104748ca017abc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 114/129] fix: meta::data() of an array was ambiguous

---
 include/edsp/meta/data.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/edsp/meta/data.hpp b/include/edsp/meta/data.hpp
index decb273..7d3f56b 100644
--- a/include/edsp/meta/data.hpp
+++ b/include/edsp/meta/data.hpp
@@ -23,7 +23,9 @@
 #ifndef EDSP_META_DATA_HPP
 #define EDSP_META_DATA_HPP
 
+#include <cstddef>
 #include <initializer_list>
+#include <type_traits>
 
 namespace edsp { namespace meta {
 
@@ -37,13 +39,8 @@ namespace edsp { namespace meta {
         return c.data();
     }
 
-    template <class T>
-    constexpr const T* data(const T* ptr) {
-        return ptr;
-    }
-
-    template <class T>
-    constexpr T* data(T* ptr) {
+    template <class T, typename = typename std::enable_if<std::is_pointer<T>::value>::type>
+    constexpr T data(const T& ptr) {
         return ptr;
     }
 
-- 
2.43.0


From f8724a485c6c1d0846c0a2057503749565c7cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 115/129] fix: two engines could not create their FFTW plans at
 the same time

---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 39 ++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index 0c0ba5f..1cb7388 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -32,6 +32,7 @@
 #include <complex>
 #include <fftw3.h>
 #include <algorithm>
+#include <mutex>
 
 namespace edsp { inline namespace spectral {
     namespace internal {
@@ -46,6 +47,13 @@ namespace edsp { inline namespace spectral {
         };
         constexpr int fftw_transforms = 7;
 
+        // The planner of FFTW, which creates and destroys the plans, is not thread-safe: one call at a time, whatever the
+        // engine. Executing a plan is.
+        inline std::mutex& fftw_planner() {
+            static std::mutex planner;
+            return planner;
+        }
+
         template <typename T>
         inline T* fftw_cast(const T* p) noexcept {
             return const_cast<T*>(p);
@@ -88,15 +96,18 @@ namespace edsp { inline namespace spectral {
 
         inline void dft(const complex_type* src, complex_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::complex_forward, src, dst);
-            if (meta::is_null(plan_))
+            if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                           flags(src, dst));
+            }
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::complex_backward, src, dst);
             if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                           flags(src, dst));
             }
@@ -106,6 +117,7 @@ namespace edsp { inline namespace spectral {
         inline void dft(const value_type* src, complex_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::real_forward, src, dst);
             if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               flags(src, dst));
             }
@@ -115,6 +127,7 @@ namespace edsp { inline namespace spectral {
         inline void idft(const complex_type* src, value_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::real_backward, src, dst);
             if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               flags(src, dst));
             }
@@ -124,6 +137,7 @@ namespace edsp { inline namespace spectral {
         inline void dht(const value_type* src, value_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::hartley, src, dst);
             if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                           flags(src, dst));
             }
@@ -133,6 +147,7 @@ namespace edsp { inline namespace spectral {
         inline void dct(const value_type* src, value_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::cosine_forward, src, dst);
             if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                           flags(src, dst));
             }
@@ -142,6 +157,7 @@ namespace edsp { inline namespace spectral {
         inline void idct(const value_type* src, value_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::cosine_backward, src, dst);
             if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                           flags(src, dst));
             }
@@ -192,6 +208,7 @@ namespace edsp { inline namespace spectral {
         }
 
         void destroy_plans() {
+            const std::lock_guard<std::mutex> lock(internal::fftw_planner());
             for (auto& transform : plans_) {
                 for (auto& placement : transform) {
                     for (auto& plan : placement) {
@@ -233,39 +250,48 @@ namespace edsp { inline namespace spectral {
 
         inline void dft(const complex_type* src, complex_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::complex_forward, src, dst);
-            if (meta::is_null(plan_))
+            if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                          flags(src, dst));
+            }
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::complex_backward, src, dst);
-            if (meta::is_null(plan_))
+            if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                          flags(src, dst));
+            }
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::real_forward, src, dst);
-            if (meta::is_null(plan_))
+            if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              flags(src, dst));
+            }
             fftw_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::real_backward, src, dst);
-            if (meta::is_null(plan_))
+            if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              flags(src, dst));
+            }
             fftw_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::hartley, src, dst);
             if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                          flags(src, dst));
             }
@@ -275,6 +301,7 @@ namespace edsp { inline namespace spectral {
         inline void dct(const value_type* src, value_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::cosine_forward, src, dst);
             if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                          flags(src, dst));
             }
@@ -284,6 +311,7 @@ namespace edsp { inline namespace spectral {
         inline void idct(const value_type* src, value_type* dst) {
             auto& plan_ = plan_for(internal::fftw_transform::cosine_backward, src, dst);
             if (meta::is_null(plan_)) {
+                const std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                          flags(src, dst));
             }
@@ -334,6 +362,7 @@ namespace edsp { inline namespace spectral {
         }
 
         void destroy_plans() {
+            const std::lock_guard<std::mutex> lock(internal::fftw_planner());
             for (auto& transform : plans_) {
                 for (auto& placement : transform) {
                     for (auto& plan : placement) {
-- 
2.43.0


From 1c70369921b14a72a3d6e459d96dd2e2ba4a252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 116/129] fix: dft(), idft(), cdft() and cidft() read and wrote
 past a range that is not contiguous

---
 include/edsp/spectral/dft.hpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/edsp/spectral/dft.hpp b/include/edsp/spectral/dft.hpp
index 781bf01..4110abf 100644
--- a/include/edsp/spectral/dft.hpp
+++ b/include/edsp/spectral/dft.hpp
@@ -24,6 +24,10 @@
 #define EDSP_DFT_HPP
 
 #include <edsp/spectral/fft_engine.hpp>
+#include <edsp/meta/data.hpp>
+#include <algorithm>
+#include <iterator>
+#include <vector>
 
 namespace edsp { inline namespace spectral {
 
@@ -49,7 +53,11 @@ namespace edsp { inline namespace spectral {
         using underlying_t = typename complex_t::value_type;
         const auto nfft    = std::distance(first, last);
         fft_engine<underlying_t> plan((typename fft_engine<underlying_t>::size_type) nfft);
-        plan.dft(&(*first), &(*d_first));
+
+        const std::vector<complex_t> input(first, last);
+        std::vector<complex_t> output(input.size());
+        plan.dft(meta::data(input), meta::data(output));
+        std::copy(std::cbegin(output), std::cend(output), d_first);
     }
 
     /**
@@ -73,8 +81,12 @@ namespace edsp { inline namespace spectral {
         using underlying_t = typename complex_t::value_type;
         const auto nfft    = std::distance(first, last);
         fft_engine<underlying_t> plan((typename fft_engine<underlying_t>::size_type) nfft);
-        plan.idft(&(*first), &(*d_first));
-        plan.idft_scale(&(*d_first));
+
+        const std::vector<complex_t> input(first, last);
+        std::vector<complex_t> output(input.size());
+        plan.idft(meta::data(input), meta::data(output));
+        plan.idft_scale(meta::data(output));
+        std::copy(std::cbegin(output), std::cend(output), d_first);
     }
 
     /**
@@ -95,7 +107,11 @@ namespace edsp { inline namespace spectral {
         using value_type = typename std::iterator_traits<InputIt>::value_type;
         const auto nfft  = std::distance(first, last);
         fft_engine<value_type> plan((typename fft_engine<value_type>::size_type) nfft);
-        plan.dft(&(*first), &(*d_first));
+
+        const std::vector<value_type> input(first, last);
+        std::vector<std::complex<value_type>> output(make_fft_size(input.size()));
+        plan.dft(meta::data(input), meta::data(output));
+        std::copy(std::cbegin(output), std::cend(output), d_first);
     }
 
     /**
@@ -119,8 +135,12 @@ namespace edsp { inline namespace spectral {
             return;
         }
         fft_engine<value_type> plan((typename fft_engine<value_type>::size_type) nfft);
-        plan.idft(&(*first), &(*d_first));
-        plan.idft_scale(&(*d_first));
+
+        const std::vector<meta::value_type_t<InputIt>> input(first, last);
+        std::vector<value_type> output(static_cast<std::size_t>(nfft));
+        plan.idft(meta::data(input), meta::data(output));
+        plan.idft_scale(meta::data(output));
+        std::copy(std::cbegin(output), std::cend(output), d_first);
     }
 
 }} // namespace edsp::spectral
-- 
2.43.0


From 57c69adc63c94b578b91041c03b68f92646f887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 117/129] fix: dct() and idct() read and wrote past a range
 that is not contiguous

---
 include/edsp/spectral/dct.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/edsp/spectral/dct.hpp b/include/edsp/spectral/dct.hpp
index 8fc38b9..96ee18c 100644
--- a/include/edsp/spectral/dct.hpp
+++ b/include/edsp/spectral/dct.hpp
@@ -24,6 +24,10 @@
 #define EDSP_DCT_HPP
 
 #include <edsp/spectral/fft_engine.hpp>
+#include <edsp/meta/data.hpp>
+#include <algorithm>
+#include <iterator>
+#include <vector>
 
 namespace edsp { inline namespace spectral {
 
@@ -42,10 +46,14 @@ namespace edsp { inline namespace spectral {
      */
     template <typename InputIt, typename OutputIt>
     inline void dct(InputIt first, InputIt last, OutputIt d_first) {
-        const auto nfft =
-            static_cast<typename fft_engine<meta::value_type_t<InputIt>>::size_type>(std::distance(first, last));
-        fft_engine<meta::value_type_t<InputIt>> plan(nfft);
-        plan.dct(&(*first), &(*d_first));
+        using value_type = meta::value_type_t<InputIt>;
+        const auto nfft  = static_cast<typename fft_engine<value_type>::size_type>(std::distance(first, last));
+        fft_engine<value_type> plan(nfft);
+
+        const std::vector<value_type> input(first, last);
+        std::vector<value_type> output(input.size());
+        plan.dct(meta::data(input), meta::data(output));
+        std::copy(std::cbegin(output), std::cend(output), d_first);
     }
 
     /**
@@ -65,11 +73,15 @@ namespace edsp { inline namespace spectral {
      */
     template <typename InputIt, typename OutputIt>
     inline void idct(InputIt first, InputIt last, OutputIt d_first) {
-        const auto nfft =
-            static_cast<typename fft_engine<meta::value_type_t<InputIt>>::size_type>(std::distance(first, last));
-        fft_engine<meta::value_type_t<InputIt>> plan(nfft);
-        plan.idct(&(*first), &(*d_first));
-        plan.idct_scale(&(*d_first));
+        using value_type = meta::value_type_t<InputIt>;
+        const auto nfft  = static_cast<typename fft_engine<value_type>::size_type>(std::distance(first, last));
+        fft_engine<value_type> plan(nfft);
+
+        const std::vector<value_type> input(first, last);
+        std::vector<value_type> output(input.size());
+        plan.idct(meta::data(input), meta::data(output));
+        plan.idct_scale(meta::data(output));
+        std::copy(std::cbegin(output), std::cend(output), d_first);
     }
 
 }} // namespace edsp::spectral
-- 
2.43.0


From 8e11a0ccd72684d25808cab0e0e2610686bda337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 118/129] fix: hartley() read and wrote past a range that is
 not contiguous

---
 include/edsp/spectral/hartley.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/edsp/spectral/hartley.hpp b/include/edsp/spectral/hartley.hpp
index 9f12cb3..ec0cd71 100644
--- a/include/edsp/spectral/hartley.hpp
+++ b/include/edsp/spectral/hartley.hpp
@@ -24,6 +24,10 @@
 #define EDSP_HARTLEY_HPP
 
 #include <edsp/spectral/fft_engine.hpp>
+#include <edsp/meta/data.hpp>
+#include <algorithm>
+#include <iterator>
+#include <vector>
 
 namespace edsp { inline namespace spectral {
 
@@ -48,7 +52,11 @@ namespace edsp { inline namespace spectral {
         using value_type = meta::value_type_t<InputIt>;
         const auto nfft  = static_cast<typename fft_engine<value_type>::size_type>(std::distance(first, last));
         fft_engine<value_type> plan(nfft);
-        plan.dht(&(*first), &(*d_first));
+
+        const std::vector<value_type> input(first, last);
+        std::vector<value_type> output(input.size());
+        plan.dht(meta::data(input), meta::data(output));
+        std::copy(std::cbegin(output), std::cend(output), d_first);
     }
 
 }} // namespace edsp::spectral
-- 
2.43.0


From f8e3f1e3ffc322486f3415024d700fdbc1b24377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 119/129] fix: hilbert() wrote past a range that is not
 contiguous

---
 include/edsp/spectral/hilbert.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/edsp/spectral/hilbert.hpp b/include/edsp/spectral/hilbert.hpp
index 8b2058f..018f043 100644
--- a/include/edsp/spectral/hilbert.hpp
+++ b/include/edsp/spectral/hilbert.hpp
@@ -25,6 +25,8 @@
 #include <edsp/spectral/fft_engine.hpp>
 #include <edsp/converter/real2complex.hpp>
 #include <edsp/math/numeric.hpp>
+#include <algorithm>
+#include <iterator>
 #include <vector>
 
 namespace edsp { inline namespace spectral {
@@ -72,8 +74,9 @@ namespace edsp { inline namespace spectral {
         }
 
         fft_engine<value_type> ifft(nfft);
-        ifft.idft(meta::data(complex_data), &(*d_first));
-        ifft.idft_scale(&(*d_first));
+        ifft.idft(meta::data(complex_data), meta::data(input_data));
+        ifft.idft_scale(meta::data(input_data));
+        std::copy(std::cbegin(input_data), std::cend(input_data), d_first);
     }
 
 }} // namespace edsp::spectral
-- 
2.43.0


From ecfc8084c4a20359ada719f4d62ee9b659af8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 120/129] fix: amdf() and asdf() read past a range that is not
 contiguous

---
 include/edsp/feature/temporal/amdf.hpp | 8 ++++----
 include/edsp/feature/temporal/asdf.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/edsp/feature/temporal/amdf.hpp b/include/edsp/feature/temporal/amdf.hpp
index 6e5a989..d402d81 100644
--- a/include/edsp/feature/temporal/amdf.hpp
+++ b/include/edsp/feature/temporal/amdf.hpp
@@ -51,11 +51,11 @@ namespace edsp { namespace feature { inline namespace temporal {
     constexpr void amdf(InputIt first, InputIt last, OutputIt d_first) {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
         const auto N     = std::distance(first, last);
-        auto* array      = &(*first);
-        for (auto i = 0; i < N; ++i, ++d_first) {
+        auto lagged      = first;
+        for (auto i = 0; i < N; ++i, ++d_first, ++lagged) {
             *d_first = static_cast<value_type>(0);
-            for (auto j = 0; j < (N - i); ++j) {
-                *d_first += std::abs(array[j] - array[j + i]);
+            for (auto left = first, right = lagged; right != last; ++left, ++right) {
+                *d_first += std::abs(*left - *right);
             }
             *d_first /= static_cast<value_type>(N);
         }
diff --git a/include/edsp/feature/temporal/asdf.hpp b/include/edsp/feature/temporal/asdf.hpp
index 0327531..df44153 100644
--- a/include/edsp/feature/temporal/asdf.hpp
+++ b/include/edsp/feature/temporal/asdf.hpp
@@ -65,11 +65,11 @@ namespace edsp { namespace feature { inline namespace temporal {
     constexpr void asdf(InputIt first, InputIt last, OutputIt d_first) {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
         const auto N     = std::distance(first, last);
-        auto* array      = &(*first);
-        for (auto i = 0; i < N; ++i, ++d_first) {
+        auto lagged      = first;
+        for (auto i = 0; i < N; ++i, ++d_first, ++lagged) {
             *d_first = static_cast<value_type>(0);
-            for (auto j = 0; j < (N - i); ++j) {
-                *d_first += math::square(array[j] - array[j + i]);
+            for (auto left = first, right = lagged; right != last; ++left, ++right) {
+                *d_first += math::square(*left - *right);
             }
             *d_first /= static_cast<value_type>(N);
         }
-- 
2.43.0


From aa8054797185d478743955682152a18db96b7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 121/129] fix: padder() did not take the forward iterators it
 documents

---
 include/edsp/algorithm/padder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/padder.hpp b/include/edsp/algorithm/padder.hpp
index 7e71d3a..bb44a9f 100644
--- a/include/edsp/algorithm/padder.hpp
+++ b/include/edsp/algorithm/padder.hpp
@@ -53,7 +53,7 @@ namespace edsp { inline namespace algorithm {
         const auto d_size = std::distance(d_first, d_last);
         meta::expects(d_size >= i_size, "Output size should be greater or equal than the input size");
         std::copy(first, last, d_first);
-        std::fill(d_first + i_size, d_last, static_cast<meta::value_type_t<OutputIt>>(0));
+        std::fill(std::next(d_first, i_size), d_last, static_cast<meta::value_type_t<OutputIt>>(0));
     }
 
 }} // namespace edsp::algorithm
-- 
2.43.0


From 716f4e8a89e3cd3d2c792098d6f55a7d38105af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 122/129] fix: spectral_irregularity() did not take the forward
 iterators it documents

---
 include/edsp/feature/spectral/spectral_irregularity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_irregularity.hpp b/include/edsp/feature/spectral/spectral_irregularity.hpp
index ad6bd87..9bfd116 100644
--- a/include/edsp/feature/spectral/spectral_irregularity.hpp
+++ b/include/edsp/feature/spectral/spectral_irregularity.hpp
@@ -51,8 +51,8 @@ namespace edsp { namespace feature { inline namespace spectral {
         // TODO: implement the irregularity function outside this.
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
         value_type square_diff = 0, square_ampl = 0;
-        for (auto until = (last - 1); first != until; ++first) {
-            const value_type diff = *std::next(first) - *first;
+        for (auto next = first; first != last && ++next != last; ++first) {
+            const value_type diff = *next - *first;
             square_diff += diff * diff;
             square_ampl += (*first) * (*first);
         }
-- 
2.43.0


From 23b999131cadea136f692e0d12fcab6e2594bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 123/129] fix: azcr() went backwards with iterators that cannot

---
 include/edsp/feature/temporal/azcr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/temporal/azcr.hpp b/include/edsp/feature/temporal/azcr.hpp
index 0d605f5..ce65215 100644
--- a/include/edsp/feature/temporal/azcr.hpp
+++ b/include/edsp/feature/temporal/azcr.hpp
@@ -53,8 +53,8 @@ namespace edsp { namespace feature { inline namespace temporal {
         using value_type = typename std::iterator_traits<InputIt>::value_type;
         const auto N     = std::distance(first, last);
         auto accumulated = static_cast<value_type>(0);
-        for (first = std::next(first); first != last; ++first) {
-            accumulated += static_cast<value_type>(math::sign(*first) != math::sign(*std::prev(first)));
+        for (auto previous = first++; first != last; ++first, ++previous) {
+            accumulated += static_cast<value_type>(math::sign(*first) != math::sign(*previous));
         }
         return accumulated / static_cast<value_type>(N - 1);
     }
-- 
2.43.0


From 4a236f7564c6d5f81a774e3d3d32536c08c1ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 124/129] fix: encoder::write() read past a range that is not
 contiguous

---
 .../edsp/io/internal/encoder/libsndfile_encoder_impl.hpp    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index 67ee1bf..6e210d3 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -27,11 +27,13 @@
 #include <edsp/core/logger.hpp>
 #include <edsp/meta/is_signed.hpp>
 #include <edsp/meta/advance.hpp>
+#include <edsp/meta/data.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <edsp/meta/is_null.hpp>
 
 #include <sndfile.h>
 #include <cmath>
+#include <vector>
 
 namespace edsp { namespace io {
 
@@ -146,8 +148,8 @@ namespace edsp { namespace io {
                 return std::ptrdiff_t{0};
             }
 
-            const auto* data = &(*first);
-            return internal::writer<T>{}.write(file_, data, length);
+            const std::vector<T> data(first, last);
+            return internal::writer<T>{}.write(file_, meta::data(data), length);
         }
 
     private:
-- 
2.43.0


From dfa7f993e8a665853f68863269d630c376c7ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 125/129] fix: resampler::process() read and wrote past a range
 that is not contiguous

---
 .../edsp/io/internal/resampler/libsamplerate_impl.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index adcbf01..62f2d7e 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -25,6 +25,8 @@
 
 #include <edsp/core/logger.hpp>
 #include <samplerate.h>
+#include <algorithm>
+#include <iterator>
 #include <vector>
 
 namespace edsp { namespace io {
@@ -62,11 +64,13 @@ namespace edsp { namespace io {
 
             const auto size          = std::distance(first, last);
             const auto input_frames  = size / channels_;
-            const auto output_frames = static_cast<std::size_t>(ratio_ * input_frames);
+            const auto output_frames = valid_ratio(ratio_) ? static_cast<std::size_t>(ratio_ * input_frames) : 0;
+            const std::vector<value_type> input(first, last);
+            std::vector<value_type> output(output_frames * static_cast<std::size_t>(channels_));
             data_.input_frames       = input_frames;
             data_.output_frames      = output_frames;
-            data_.data_in            = const_cast<value_type*>(&(*first));
-            data_.data_out           = &(*d_first);
+            data_.data_in            = input.data();
+            data_.data_out           = output.data();
             data_.src_ratio          = ratio_;
             data_.end_of_input       = 0;
             data_.input_frames_used  = 0;
@@ -83,6 +87,7 @@ namespace edsp { namespace io {
                 error_ = src_process(state_, &data_);
             }
             report_error(__PRETTY_FUNCTION__);
+            std::copy_n(output.data(), data_.output_frames_gen * channels_, d_first);
             if (data_.input_frames_used > 0) {
                 const auto end = data_.data_in + data_.input_frames_used * channels_;
                 last_.assign(end - channels_, end);
-- 
2.43.0


From e35e95e26c5464d38b38db37f5ee23089d13a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 126/129] fix: headers include what their own code uses
 (cstdint, algorithm, array)

---
 include/edsp/algorithm/indexof.hpp                           | 2 ++
 include/edsp/core/logger.hpp                                 | 1 +
 include/edsp/filter/internal/abstract_designer.hpp           | 1 +
 include/edsp/filter/internal/chebyshev_II_designer.hpp       | 1 +
 include/edsp/filter/internal/chebyshev_I_designer.hpp        | 1 +
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 2 ++
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 1 +
 7 files changed, 9 insertions(+)

diff --git a/include/edsp/algorithm/indexof.hpp b/include/edsp/algorithm/indexof.hpp
index 0810692..0083262 100644
--- a/include/edsp/algorithm/indexof.hpp
+++ b/include/edsp/algorithm/indexof.hpp
@@ -24,6 +24,8 @@
 #define EDSP_INDEX_OF_HPP
 
 #include <iterator>
+#include <algorithm>
+#include <cstdint>
 
 namespace edsp { inline namespace algorithm {
 
diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 4fc0eab..fac1c98 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -29,6 +29,7 @@
 #include <type_traits>
 #include <sstream>
 #include <functional>
+#include <cstdint>
 
 namespace edsp { inline namespace core {
 
diff --git a/include/edsp/filter/internal/abstract_designer.hpp b/include/edsp/filter/internal/abstract_designer.hpp
index bb1ec10..b2cb5d1 100644
--- a/include/edsp/filter/internal/abstract_designer.hpp
+++ b/include/edsp/filter/internal/abstract_designer.hpp
@@ -25,6 +25,7 @@
 #include <edsp/filter/internal/bilinear/layout_base.hpp>
 #include <edsp/filter/biquad_cascade.hpp>
 #include <complex>
+#include <cstdint>
 
 namespace edsp { namespace filter {
 
diff --git a/include/edsp/filter/internal/chebyshev_II_designer.hpp b/include/edsp/filter/internal/chebyshev_II_designer.hpp
index 0896999..53b5069 100644
--- a/include/edsp/filter/internal/chebyshev_II_designer.hpp
+++ b/include/edsp/filter/internal/chebyshev_II_designer.hpp
@@ -31,6 +31,7 @@
 #include <edsp/filter/internal/bilinear/lowpass_transformer.hpp>
 #include <edsp/filter/internal/bilinear/highpass_transformer.hpp>
 #include <edsp/filter/internal/abstract_designer.hpp>
+#include <cstdint>
 
 namespace edsp { namespace filter {
 
diff --git a/include/edsp/filter/internal/chebyshev_I_designer.hpp b/include/edsp/filter/internal/chebyshev_I_designer.hpp
index 880a921..fe692fe 100644
--- a/include/edsp/filter/internal/chebyshev_I_designer.hpp
+++ b/include/edsp/filter/internal/chebyshev_I_designer.hpp
@@ -31,6 +31,7 @@
 #include <edsp/filter/internal/bilinear/lowpass_transformer.hpp>
 #include <edsp/filter/internal/bilinear/highpass_transformer.hpp>
 #include <edsp/filter/internal/abstract_designer.hpp>
+#include <cstdint>
 
 namespace edsp { namespace filter {
 
diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 1576d87..7eceaf2 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -32,6 +32,8 @@
 #include <cmath>
 #include <limits>
 #include <edsp/meta/is_null.hpp>
+#include <array>
+#include <cstdint>
 
 namespace edsp { namespace io {
 
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index 6e210d3..ec94963 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -34,6 +34,7 @@
 #include <sndfile.h>
 #include <cmath>
 #include <vector>
+#include <cstdint>
 
 namespace edsp { namespace io {
 
-- 
2.43.0


From ab2cae7fc63bc245e93476488a297eda38ac6d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 127/129] fix: a decoder hands its open file over instead of
 sharing it with copies

---
 bindings/python/src/io.cpp                    |  2 +-
 include/edsp/io/decoder.hpp                   |  4 ++++
 .../decoder/libsndfile_decoder_impl.hpp       | 20 +++++++++++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 528ac0b..cb3b3ce 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -94,7 +94,7 @@ void add_io_package() {
         .def("samplerate", &encoder::sample_rate)
         .def("write", encoder_wrapper);
 
-    bp::class_<decoder>("Decoder", bp::init<>())
+    bp::class_<decoder, boost::noncopyable>("Decoder", bp::init<>())
         .def("open", &decoder::open)
         .def("is_open", &decoder::is_open)
         .def("close", &decoder::close)
diff --git a/include/edsp/io/decoder.hpp b/include/edsp/io/decoder.hpp
index cbd0d86..3054584 100644
--- a/include/edsp/io/decoder.hpp
+++ b/include/edsp/io/decoder.hpp
@@ -44,6 +44,10 @@ namespace edsp { namespace io {
         explicit decoder() = default;
         ~decoder()         = default;
 
+        // The open file is handed over, it cannot be shared.
+        decoder(decoder&&) = default;
+        decoder& operator=(decoder&&) = default;
+
         /**
          * @brief Opens an audio file.
          * @param file_path Path to the file to be opened.
diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 7eceaf2..f916f6d 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -88,6 +88,26 @@ namespace edsp { namespace io {
             close();
         }
 
+        // One object owns the open file: it can be handed over, not shared.
+        libsndfile_decoder(const libsndfile_decoder&) = delete;
+        libsndfile_decoder& operator=(const libsndfile_decoder&) = delete;
+
+        libsndfile_decoder(libsndfile_decoder&& other) noexcept : file_(other.file_), info_(other.info_) {
+            other.file_ = nullptr;
+            other.info_ = SF_INFO{};
+        }
+
+        libsndfile_decoder& operator=(libsndfile_decoder&& other) noexcept {
+            if (this != &other) {
+                close();
+                file_       = other.file_;
+                info_       = other.info_;
+                other.file_ = nullptr;
+                other.info_ = SF_INFO{};
+            }
+            return *this;
+        }
+
         bool open(const std::string& filepath) {
             close();
 
-- 
2.43.0


From 6a3ae55c814b216c85db9f3628ed908d4601e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 128/129] fix: an encoder hands its open file over instead of
 sharing it with copies

---
 bindings/python/src/io.cpp                     |  2 +-
 include/edsp/io/encoder.hpp                    |  4 ++++
 .../encoder/libsndfile_encoder_impl.hpp        | 18 ++++++++++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index cb3b3ce..179a10b 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -86,7 +86,7 @@ void add_io_package() {
         .def("artist", &edsp::io::metadata::artist)
         .def("track", &edsp::io::metadata::track);
 
-    bp::class_<encoder>("Encoder", bp::init<std::size_t, std::size_t>())
+    bp::class_<encoder, boost::noncopyable>("Encoder", bp::init<std::size_t, std::size_t>())
         .def("open", &encoder::open)
         .def("is_open", &encoder::is_open)
         .def("close", &encoder::close)
diff --git a/include/edsp/io/encoder.hpp b/include/edsp/io/encoder.hpp
index 54c94ff..1785016 100644
--- a/include/edsp/io/encoder.hpp
+++ b/include/edsp/io/encoder.hpp
@@ -43,6 +43,10 @@ namespace edsp { namespace io {
         encoder(size_t sample_rate, size_t channels) : impl_(sample_rate, channels) {}
         ~encoder() = default;
 
+        // The open file is handed over, it cannot be shared.
+        encoder(encoder&&) = default;
+        encoder& operator=(encoder&&) = default;
+
         /**
          * @brief Opens an audio file.
          * @param file_path Path to the file to be opened.
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index ec94963..9e77921 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -104,6 +104,24 @@ namespace edsp { namespace io {
             close();
         }
 
+        // One object owns the open file: it can be handed over, not shared.
+        libsndfile_encoder(const libsndfile_encoder&) = delete;
+        libsndfile_encoder& operator=(const libsndfile_encoder&) = delete;
+
+        libsndfile_encoder(libsndfile_encoder&& other) noexcept : file_(other.file_), info_(other.info_) {
+            other.file_ = nullptr;
+        }
+
+        libsndfile_encoder& operator=(libsndfile_encoder&& other) noexcept {
+            if (this != &other) {
+                close();
+                file_       = other.file_;
+                info_       = other.info_;
+                other.file_ = nullptr;
+            }
+            return *this;
+        }
+
         bool open(const std::string& file_path) {
             close();
 
-- 
2.43.0


From 7bee7fafb2f71b2fea0026ade06bf483d79f87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 129/129] fix: a resampler hands its state over instead of
 sharing it with copies

---
 bindings/python/src/io.cpp                    |  2 +-
 .../internal/resampler/libsamplerate_impl.hpp | 21 +++++++++++--------
 include/edsp/io/resampler.hpp                 |  4 ++++
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 179a10b..f379937 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -112,7 +112,7 @@ void add_io_package() {
         .value("Fastest", edsp::io::resample_quality::sinc_fastest)
         .value("ZeroOrderHold", edsp::io::resample_quality::zero_order_hold);
 
-    bp::class_<resampler>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
+    bp::class_<resampler, boost::noncopyable>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
         .def("process", resampler_process_wrapper)
         .def("error_string", resampler_error_string_wrapper)
         .def("quality", &resampler::quality)
diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 62f2d7e..6bb09f9 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -27,6 +27,7 @@
 #include <samplerate.h>
 #include <algorithm>
 #include <iterator>
+#include <memory>
 #include <vector>
 
 namespace edsp { namespace io {
@@ -45,17 +46,13 @@ namespace edsp { namespace io {
             quality_(quality),
             ratio_(factor) {
             if (channels > 0) { // the library asserts it
-                state_ = src_new(quality, static_cast<int>(channels), &error_);
+                state_.reset(src_new(quality, static_cast<int>(channels), &error_));
             } else {
                 error_ = 11; // SRC_ERR_BAD_CHANNEL_COUNT, not in the public header
             }
             report_error(__PRETTY_FUNCTION__);
         }
 
-        ~libsamplerate_impl() {
-            src_delete(state_);
-        }
-
         template <typename InputIt, typename OutputIt>
         std::pair<size_type, size_type> process(InputIt first, InputIt last, OutputIt d_first) {
             if (state_ == nullptr) {
@@ -81,10 +78,10 @@ namespace edsp { namespace io {
                 auto pair        = last_.empty() ? std::vector<value_type>(frame, frame + channels_) : last_;
                 pair.insert(pair.end(), frame, frame + channels_);
                 data_.data_in = pair.data() + channels_;
-                error_        = src_process(state_, &data_);
+                error_        = src_process(state_.get(), &data_);
                 data_.data_in = frame;
             } else {
-                error_ = src_process(state_, &data_);
+                error_ = src_process(state_.get(), &data_);
             }
             report_error(__PRETTY_FUNCTION__);
             std::copy_n(output.data(), data_.output_frames_gen * channels_, d_first);
@@ -108,7 +105,7 @@ namespace edsp { namespace io {
         }
 
         error_type reset() {
-            error_ = src_reset(state_);
+            error_ = src_reset(state_.get());
             last_.clear();
             report_error(__PRETTY_FUNCTION__);
             return error_;
@@ -127,6 +124,12 @@ namespace edsp { namespace io {
         }
 
     private:
+        struct state_deleter {
+            void operator()(SRC_STATE* state) const {
+                src_delete(state);
+            }
+        };
+
         void report_error(const char* function_name) {
             if (error_ != 0) {
                 eError() << "Error while running" << function_name << ":" << error_string();
@@ -135,7 +138,7 @@ namespace edsp { namespace io {
 
         SRC_DATA data_{};
         std::vector<value_type> last_{}; // the last frame that was used
-        SRC_STATE* state_{nullptr};
+        std::unique_ptr<SRC_STATE, state_deleter> state_{};
         error_type error_{0};
         size_type channels_{0};
         int quality_{SRC_SINC_MEDIUM_QUALITY};
diff --git a/include/edsp/io/resampler.hpp b/include/edsp/io/resampler.hpp
index 1d54730..e8386c6 100644
--- a/include/edsp/io/resampler.hpp
+++ b/include/edsp/io/resampler.hpp
@@ -64,6 +64,10 @@ namespace edsp { namespace io {
          */
         ~resampler() = default;
 
+        // The state of the process is handed over, it cannot be shared.
+        resampler(resampler&&) = default;
+        resampler& operator=(resampler&&) = default;
+
         /**
          * @brief Resamples the input elements in the range [first, last) and stores the result in another range,
          * beginning at d_first.
-- 
2.43.0

