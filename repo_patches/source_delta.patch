From 8743c5b81f42fc93eb7ceec21d98130f4b697ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 01/22] fix: include <cstring> for std::memcpy in
 floating_point.hpp

---
 include/ieme/floating_point.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index d481bc3..ed7a2bd 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -9,6 +9,7 @@
 
 #include <bit>
 #include <cstdint>
+#include <cstring>
 #include <limits>
 #include <string>
 #include <string_view>
-- 
2.43.0


From c368555de6f1bf68856fbc80ff8ea2ced2bf5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 02/22] fix: floor and ceil (and so round) of fractions
 strictly between -1 and 0

---
 include/ieme/fraction_math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0e58a5d..0b790d3 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -162,8 +162,8 @@ constexpr Rep ceil(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated < _0<Rep>) ? truncated
-                                                    : truncated + _1<Rep>;
+  return (is_integer(value) || is_negative(value)) ? truncated
+                                                   : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
@@ -171,8 +171,8 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated >= _0<Rep>) ? truncated
-                                                     : truncated - _1<Rep>;
+  return (is_integer(value) || is_positive(value)) ? truncated
+                                                   : truncated - _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 2fd11fd60ecd2db6c8c1db94483d2f432f46882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 03/22] fix: round overflows when twice the denominator is not
 representable

---
 include/ieme/fraction_math.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0b790d3..12d9901 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -180,9 +180,16 @@ constexpr Rep round(fraction<Rep, Ops> const& value) noexcept
 {
   auto const floored = floor(value);
 
-  return (value - floored < fraction<Rep, Ops>(_1<Rep>, _2<Rep>))
-           ? floored
-           : floored + _1<Rep>;
+  // Compare the distance from floored with the distance from floored + 1, in
+  // units of 1/denominator, neither of which can overflow
+  auto const denominator = math_utilities::abs(value.denominator());
+  auto const remainder
+    = math_utilities::abs(static_cast<Rep>(value.numerator() % denominator));
+  auto const distance = (remainder != _0<Rep> && is_negative(value))
+                          ? denominator - remainder
+                          : remainder;
+
+  return (distance < denominator - distance) ? floored : floored + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 034e15d7e480953bb74e8320e3d6df9dcda70d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 04/22] fix: order comparisons of fractions with a negative
 denominator

---
 include/ieme/ops.hpp | 45 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 6feaece..9e5e8aa 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -733,6 +733,9 @@ template <typename Rep>
 constexpr bool safe::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return right * left.denominator < left.numerator;
+
   return left.numerator < right * left.denominator && is_defined(left);
 }
 
@@ -740,6 +743,9 @@ template <typename Rep>
 constexpr bool safe::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return right.numerator < left * right.denominator;
+
   return left * right.denominator < right.numerator && is_defined(right);
 }
 
@@ -760,6 +766,9 @@ template <typename Rep>
 constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return right * left.denominator <= left.numerator;
+
   return left.numerator <= right * left.denominator && is_defined(left);
 }
 
@@ -767,6 +776,9 @@ template <typename Rep>
 constexpr bool safe::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return right.numerator <= left * right.denominator;
+
   return left * right.denominator <= right.numerator && is_defined(right);
 }
 
@@ -984,14 +996,23 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator < right.numerator * left.denominator
-         && is_defined(left) && is_defined(right);
+  auto const left_scaled = left.numerator * right.denominator;
+  auto const right_scaled = right.numerator * left.denominator;
+
+  if ((left.denominator < _0<Rep>) != (right.denominator < _0<Rep>))
+    return right_scaled < left_scaled && is_defined(left)
+           && is_defined(right);
+
+  return left_scaled < right_scaled && is_defined(left) && is_defined(right);
 }
 
 template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return right * left.denominator < left.numerator;
+
   return left.numerator < right * left.denominator && is_defined(left);
 }
 
@@ -999,6 +1020,9 @@ template <typename Rep>
 constexpr bool fast::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return right.numerator < left * right.denominator;
+
   return left * right.denominator < right.numerator && is_defined(right);
 }
 
@@ -1006,15 +1030,23 @@ template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator
-           <= right.numerator * left.denominator
-         && is_defined(left) && is_defined(right);
+  auto const left_scaled = left.numerator * right.denominator;
+  auto const right_scaled = right.numerator * left.denominator;
+
+  if ((left.denominator < _0<Rep>) != (right.denominator < _0<Rep>))
+    return right_scaled <= left_scaled && is_defined(left)
+           && is_defined(right);
+
+  return left_scaled <= right_scaled && is_defined(left) && is_defined(right);
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return right * left.denominator <= left.numerator;
+
   return left.numerator <= right * left.denominator && is_defined(left);
 }
 
@@ -1022,6 +1054,9 @@ template <typename Rep>
 constexpr bool fast::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return right.numerator <= left * right.denominator;
+
   return left * right.denominator <= right.numerator && is_defined(right);
 }
 
-- 
2.43.0


From cbfc7f1c96edbd7653d6aa9e9de68f82cc83d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 05/22] fix: arithmetic with an undefined operand, and modulo
 zero, trap instead of being undefined

---
 include/ieme/ops.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 9e5e8aa..04f88c0 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -550,6 +550,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -575,6 +578,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::minus(raw_fraction<Rep> const& left,
                                         raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -647,6 +653,9 @@ constexpr raw_fraction<Rep>
 safe::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {(lcm / left.denominator * left.numerator)
@@ -658,6 +667,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (left.denominator * right), left.denominator};
 }
 
@@ -665,6 +677,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(right.denominator * left) % right.numerator, right.denominator};
 }
 
@@ -929,6 +944,9 @@ constexpr raw_fraction<Rep>
 fast::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left.numerator * right.denominator)
             % (right.numerator * left.denominator),
           left.denominator * right.denominator};
@@ -938,6 +956,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> fast::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (right * left.denominator), left.denominator};
 }
 
@@ -945,6 +966,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left * right.denominator) % right.numerator, right.denominator};
 }
 
-- 
2.43.0


From 77c23c393c80dfa0d07f9f4eac0a48ccb769c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 06/22] fix: dividing by an undefined fraction yields a defined
 zero

---
 include/ieme/ops.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 04f88c0..534d41d 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -630,6 +630,9 @@ constexpr raw_fraction<Rep>
 safe::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -645,6 +648,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -921,6 +927,9 @@ constexpr raw_fraction<Rep>
 fast::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -936,6 +945,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
-- 
2.43.0


From 252274d5cf68772195f171b3297dbfae2c004394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 07/22] fix: is_reduced accepts a negative denominator when the
 numerator is positive

---
 include/ieme/raw_fraction_queries.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 4e84b7e..65dab3a 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -132,8 +132,7 @@ constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 {
-  auto const signs_are_normalized
-    = value.numerator > _0<Rep> || value.denominator > _0<Rep>;
+  auto const signs_are_normalized = value.denominator > _0<Rep>;
 
   return signs_are_normalized && is_reduced_ignore_signs(value);
 }
-- 
2.43.0


From 6092bc139ce99a7d3c79afe67a051a53a586afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 08/22] fix: equal fractions hash differently

---
 include/ieme/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieme/hash.hpp b/include/ieme/hash.hpp
index b033e8b..e936674 100644
--- a/include/ieme/hash.hpp
+++ b/include/ieme/hash.hpp
@@ -67,7 +67,7 @@ std::size_t hash(raw_fraction<Rep> const& value) noexcept
 template <typename Rep, typename Ops>
 std::size_t hash(fraction<Rep, Ops> const& value) noexcept
 {
-  return hash(value.raw());
+  return hash(reduce(value.raw()));
 }
 
 template <typename WRep, typename FRep, typename Ops>
-- 
2.43.0


From 1c2de8e1df0834e1f2891b4108c1733fdb0d940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 09/22] fix: to_fraction of zero, infinities and values that do
 not fit the intermediates

Zero, subnormals and infinities were decoded as if they were normal, and a
double with an int representation overflowed on 2^52. Every value is now
converted exactly, and what has no exact fraction becomes undefined.
---
 include/ieme/floating_point.hpp | 55 +++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index ed7a2bd..8c3cf9a 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -185,29 +185,58 @@ fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept
       extract_bit_field(offsets.mantissa_bits, num_mantissa_bits));
   }();
 
-  if (auto const is_NaN = exponent_part == make_repeating_1s(NumExponentBits)
-                          && mantissa_part != _0<UintRep>;
-      is_NaN)
-    return limits<fraction<Rep, Ops>>::undefined();
+  static constexpr auto undefined = limits<fraction<Rep, Ops>>::undefined();
+
+  if (auto const is_infinite_or_NaN
+      = exponent_part == make_repeating_1s(NumExponentBits);
+      is_infinite_or_NaN)
+    return undefined;
+
+  if (exponent_part == _0<UintRep> && mantissa_part == _0<UintRep>)
+    return _0<Rep>;
+
+  auto const is_negative = sign_part != _0<UintRep>;
 
-  auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
+  if (is_negative && !std::numeric_limits<Rep>::is_signed)
+    return undefined;
 
   static constexpr auto exponent_bias
     = math_utilities::pow2(number<NumExponentBits, int> - 1) - 1;
 
-  auto const exponent = static_cast<int>(exponent_part) - exponent_bias;
+  auto const is_subnormal = exponent_part == _0<UintRep>;
+
+  // The magnitude of the value is significand * 2^exponent
+  auto significand = is_subnormal
+                       ? mantissa_part
+                       : mantissa_part + (_1<UintRep> << NumMantissaBits);
+  auto exponent = (is_subnormal ? 1 : static_cast<int>(exponent_part))
+                  - exponent_bias - number<NumMantissaBits, int>;
+
+  for (; significand % _2<UintRep> == _0<UintRep>; significand /= _2<UintRep>)
+    ++exponent;
+
+  static constexpr auto num_digits = std::numeric_limits<Rep>::digits;
+
+  auto const num_significand_digits
+    = std::numeric_limits<UintRep>::digits - std::countl_zero(significand);
 
-  static constexpr auto mantissa_fraction_denominator
-    = math_utilities::pow2(number<NumMantissaBits, Rep>);
+  auto const is_representable
+    = exponent > -num_digits
+      && num_significand_digits + (exponent > 0 ? exponent : 0) <= num_digits;
 
-  auto const mantissa_fraction_numerator = static_cast<Rep>(mantissa_part);
+  if (!is_representable)
+    return undefined;
 
-  auto const mantissa_fraction = fraction<Rep, Ops>(
-    mantissa_fraction_numerator, mantissa_fraction_denominator);
+  auto const signed_significand
+    = static_cast<Rep>(is_negative ? -static_cast<Rep>(significand)
+                                   : static_cast<Rep>(significand));
 
-  auto const mantissa = _1<Rep> + mantissa_fraction;
+  if (exponent < 0)
+    return {signed_significand,
+            math_utilities::pow2(static_cast<Rep>(-exponent))};
 
-  return sign * mantissa * pow2<Rep, Ops>(exponent);
+  return static_cast<Rep>(signed_significand
+                          * math_utilities::pow2(static_cast<Rep>(exponent)));
 }
 
 template <typename Float, typename Rep, typename Ops>
-- 
2.43.0


From 49c5e8488fe9175d1e5d519bb01b5ed71e491126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 10/22] fix: decimal literals with an exponent but no radix
 separator are rejected

1e5_dec did not compile and "0x1p3" was reported as undefined: the whole part
was taken to extend past the exponent.
---
 include/ieme/parse_utilities.hpp | 33 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 1ae63f8..07b1158 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -62,9 +62,23 @@ scan_floating_point_string(std::string_view const string) noexcept
     }
   }
 
+  auto const find_exponent_separator = [&]() {
+    auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
+                                                     : std::make_pair('p', 'P');
+
+    if (auto const lower_pos = remaining_string.find(lower);
+        lower_pos != std::string_view::npos)
+      return lower_pos;
+
+    return remaining_string.find(upper);
+  };
+
   auto const radix_separator_pos = remaining_string.find('.');
 
-  results.whole = remaining_string.substr(0, radix_separator_pos);
+  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
+
+  results.whole = remaining_string.substr(
+    0, no_radix_separator ? find_exponent_separator() : radix_separator_pos);
 
   auto const no_whole = results.whole.empty();
 
@@ -79,21 +93,10 @@ scan_floating_point_string(std::string_view const string) noexcept
     return std::nullopt;
   }
 
-  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
-
-  if (!no_radix_separator)
-    remaining_string.remove_prefix(radix_separator_pos + 1);
-
-  auto const exponent_separator_pos = [&]() {
-    auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
-                                                     : std::make_pair('p', 'P');
+  remaining_string.remove_prefix(
+    no_radix_separator ? results.whole.size() : radix_separator_pos + 1);
 
-    if (auto const lower_pos = remaining_string.find(lower);
-        lower_pos != std::string_view::npos)
-      return lower_pos;
-
-    return remaining_string.find(upper);
-  }();
+  auto const exponent_separator_pos = find_exponent_separator();
 
   if (exponent_separator_pos == last_pos())
     return std::nullopt;
-- 
2.43.0


From a59b3ccd01c681fcaa718f886176feb6e7658532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 11/22] fix: parsing a digit sequence overflows on the power
 after its last digit

---
 include/ieme/parse_utilities.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 07b1158..19004b3 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -1,6 +1,8 @@
 #ifndef IEME_PARSE_UTILITIES_HPP
 #define IEME_PARSE_UTILITIES_HPP
 
+#include <ieme/numbers.hpp>
+
 #include <optional>
 #include <string_view>
 #include <utility>
@@ -188,25 +190,23 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
                                     Int const base) noexcept
 {
   auto result = _0<Int>;
-  auto base_power = _1<Int>;
 
-  for (auto it = sequence.rbegin(); it != sequence.rend(); ++it)
+  for (auto const digit : sequence)
   {
-    if (*it == '\'')
+    if (digit == '\'')
       continue;
 
     auto const digit_as_int = [&]() {
-      if (*it >= 'A' && *it <= 'F')
-        return static_cast<Int>(*it - 'A' + 10);
+      if (digit >= 'A' && digit <= 'F')
+        return static_cast<Int>(digit - 'A' + 10);
 
-      if (*it >= 'a' && *it <= 'f')
-        return static_cast<Int>(*it - 'a' + 10);
+      if (digit >= 'a' && digit <= 'f')
+        return static_cast<Int>(digit - 'a' + 10);
 
-      return static_cast<Int>(*it - '0');
+      return static_cast<Int>(digit - '0');
     }();
 
-    result += digit_as_int * base_power;
-    base_power *= base;
+    result = static_cast<Int>(result * base + digit_as_int);
   }
 
   return result;
-- 
2.43.0


From a74fc71242636f9bdd3ed48870d01cd942b016fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 12/22] fix: stream operators terminate when the stream throws

A stream whose exceptions() mask is set reports failures by throwing, which
the noexcept on the operators turned into std::terminate.
---
 include/ieme/fraction.hpp     | 12 ++++++------
 include/ieme/raw_fraction.hpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ieme/fraction.hpp b/include/ieme/fraction.hpp
index 33b1062..abc0cad 100644
--- a/include/ieme/fraction.hpp
+++ b/include/ieme/fraction.hpp
@@ -18,11 +18,11 @@ class fraction;
 
 template <typename Rep, typename Ops>
 std::ostream& operator<<(std::ostream& stream,
-                         fraction<Rep, Ops> const& value) noexcept;
+                         fraction<Rep, Ops> const& value);
 
 template <typename Rep, typename Ops>
 std::istream& operator>>(std::istream& stream,
-                         fraction<Rep, Ops>& value) noexcept;
+                         fraction<Rep, Ops>& value);
 
 
 template <typename Rep, typename Ops = ops::defaults>
@@ -68,10 +68,10 @@ private:
   raw_fraction_type raw_ = {_0<rep_type>, _1<rep_type>};
 
   friend std::ostream& operator<< <>(std::ostream& stream,
-                                     fraction<Rep, Ops> const& value) noexcept;
+                                     fraction<Rep, Ops> const& value);
 
   friend std::istream& operator>><>(std::istream& stream,
-                                    fraction<Rep, Ops>& value) noexcept;
+                                    fraction<Rep, Ops>& value);
 };
 
 template <typename Rep, typename Ops>
@@ -498,14 +498,14 @@ operator>=(fraction<LeftRep, LeftOps> const& left,
 
 template <typename Rep, typename Ops>
 std::ostream& operator<<(std::ostream& stream,
-                         fraction<Rep, Ops> const& value) noexcept
+                         fraction<Rep, Ops> const& value)
 {
   return stream << value.raw_;
 }
 
 template <typename Rep, typename Ops>
 std::istream& operator>>(std::istream& stream,
-                         fraction<Rep, Ops>& value) noexcept
+                         fraction<Rep, Ops>& value)
 {
   return stream >> value.raw_;
 }
diff --git a/include/ieme/raw_fraction.hpp b/include/ieme/raw_fraction.hpp
index 86f96c1..e12cddd 100644
--- a/include/ieme/raw_fraction.hpp
+++ b/include/ieme/raw_fraction.hpp
@@ -27,11 +27,11 @@ struct raw_fraction {
 
 template <typename Rep>
 std::ostream& operator<<(std::ostream& stream,
-                         raw_fraction<Rep> const& value) noexcept;
+                         raw_fraction<Rep> const& value);
 
 template <typename Rep>
 std::istream& operator>>(std::istream& stream,
-                         raw_fraction<Rep>& value) noexcept;
+                         raw_fraction<Rep>& value);
 
 
 // =============================================================================
@@ -56,14 +56,14 @@ constexpr raw_fraction<Rep>::raw_fraction(
 
 template <typename Rep>
 std::ostream& operator<<(std::ostream& stream,
-                         raw_fraction<Rep> const& value) noexcept
+                         raw_fraction<Rep> const& value)
 {
   return stream << value.numerator << '/' << value.denominator;
 }
 
 template <typename Rep>
 std::istream& operator>>(std::istream& stream,
-                         raw_fraction<Rep>& value) noexcept
+                         raw_fraction<Rep>& value)
 {
   stream >> value.numerator;
   stream.ignore(std::numeric_limits<std::streamsize>::max(), '/');
-- 
2.43.0


From 07b6b3b83ca014bedbfc46a19171bac1e832ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 13/22] fix: a mixed number made from an undefined fraction
 traps

Truncating an undefined fraction divides by zero; the undefined fraction is
now kept as the fractional part.
---
 include/ieme/mixed_number.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ieme/mixed_number.hpp b/include/ieme/mixed_number.hpp
index 9562c6e..837f771 100644
--- a/include/ieme/mixed_number.hpp
+++ b/include/ieme/mixed_number.hpp
@@ -106,7 +106,7 @@ template <typename WRep, typename FRep, typename Ops>
 template <typename OtherFRep>
 constexpr mixed_number<WRep, FRep, Ops>::mixed_number(
   fraction<OtherFRep, ops_type> const& value) noexcept :
-  whole_ {whole_type(trunc(value))},
+  whole_ {is_defined(value) ? whole_type(trunc(value)) : _0<whole_type>},
   fractional_ {fractional_type(value - static_cast<OtherFRep>(whole_))}
 {
 }
@@ -152,6 +152,9 @@ constexpr auto mixed_number<WRep, FRep, Ops>::fractional() const noexcept
 template <typename WRep, typename FRep, typename Ops>
 constexpr void mixed_number<WRep, FRep, Ops>::fix() noexcept
 {
+  if (is_undefined(fractional_))
+    return;
+
   if (is_improper(fractional_))
   {
     auto const truncated_fractional = trunc(fractional_);
-- 
2.43.0


From fec0fa366913ecb82bf8cb40f6075ca252ccd49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 14/22] fix: limits and numeric_limits of mixed numbers do not
 compile

---
 include/ieme/limits.hpp | 112 ++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 55 deletions(-)

diff --git a/include/ieme/limits.hpp b/include/ieme/limits.hpp
index 4e0389a..87a4776 100644
--- a/include/ieme/limits.hpp
+++ b/include/ieme/limits.hpp
@@ -29,14 +29,15 @@ public:
   static constexpr fraction_type undefined() noexcept;
 };
 
-template <typename Rep, typename Ops>
-class limits<mixed_number<Rep, Ops>> {
+template <typename WRep, typename FRep, typename Ops>
+class limits<mixed_number<WRep, FRep, Ops>> {
 
 public:
-  using rep_type = Rep;
+  using whole_type = WRep;
+  using fractional_rep_type = FRep;
   using ops_type = Ops;
-  using mixed_number_type = mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = mixed_number<WRep, FRep, Ops>;
+  using fractional_type = typename mixed_number_type::fractional_type;
 
   static constexpr mixed_number_type min() noexcept;
   static constexpr mixed_number_type max() noexcept;
@@ -93,12 +94,12 @@ public:
   static constexpr fraction_type denorm_min() noexcept;
 };
 
-template <typename Rep, typename Ops>
-class numeric_limits<ieme::mixed_number<Rep, Ops>> {
+template <typename WRep, typename FRep, typename Ops>
+class numeric_limits<ieme::mixed_number<WRep, FRep, Ops>> {
 
 public:
-  using mixed_number_type = ieme::mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = ieme::mixed_number<WRep, FRep, Ops>;
+  using fraction_type = ieme::fraction<WRep, Ops>;
   using fraction_limits_type = numeric_limits<fraction_type>;
 
   static constexpr bool is_specialized = fraction_limits_type::is_specialized;
@@ -106,8 +107,9 @@ public:
   static constexpr bool is_integer = fraction_limits_type::is_integer;
   static constexpr bool is_exact = fraction_limits_type::is_exact;
   static constexpr bool has_infinity = fraction_limits_type::has_infinity;
-  static constexpr bool has_quiet_ = fraction_limits_type::has_quiet_;
-  static constexpr bool has_signaling_ = fraction_limits_type::has_signaling_;
+  static constexpr bool has_quiet_NaN = fraction_limits_type::has_quiet_NaN;
+  static constexpr bool has_signaling_NaN
+    = fraction_limits_type::has_signaling_NaN;
   static constexpr float_denorm_style has_denorm
     = fraction_limits_type::has_denorm;
   static constexpr bool has_denorm_loss = fraction_limits_type::has_denorm_loss;
@@ -172,32 +174,32 @@ constexpr auto limits<fraction<Rep, Ops>>::undefined() noexcept -> fraction_type
   return {_0<Rep>, _0<Rep>};
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::max() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::max() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::max();
+  return std::numeric_limits<whole_type>::max();
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::min() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::min() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::min();
+  return std::numeric_limits<whole_type>::min();
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::smallest() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::smallest() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::smallest();
+  return {_0<whole_type>, limits<fractional_type>::smallest()};
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::undefined() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::undefined() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::undefined();
+  return {_0<whole_type>, limits<fractional_type>::undefined()};
 }
 
 
@@ -270,65 +272,65 @@ numeric_limits<ieme::fraction<Rep, Ops>>::denorm_min() noexcept
   return rep_limits_type::denorm_min();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::min() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::min() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::min();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::lowest() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::lowest() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::min();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::max() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::max() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::max();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::max();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::epsilon() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::epsilon() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::smallest();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::smallest();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::round_error() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::round_error() noexcept
 {
   return fraction_limits_type::round_error();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::infinity() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::infinity() noexcept
 {
   return fraction_limits_type::infinity();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::quiet_NaN() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::quiet_NaN() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::undefined();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::undefined();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::signaling_NaN() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::signaling_NaN() noexcept
 {
   return fraction_limits_type::signaling_NaN();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::denorm_min() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::denorm_min() noexcept
 {
   return fraction_limits_type::denorm_min();
 }
-- 
2.43.0


From 5ccbe9d730ea231f493d1b67594cdb24516dbbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 15/22] fix: reduce is undefined for the lowest representable
 numerator

std::gcd requires the magnitude of its arguments to be representable, so any
operation on limits<fraction<Rep>>::min() under a reducing policy was
undefined behaviour.
---
 include/ieme/math_utilities.hpp       | 20 ++++++++++++++++++++
 include/ieme/raw_fraction_math.hpp    |  5 ++---
 include/ieme/raw_fraction_queries.hpp |  2 +-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/ieme/math_utilities.hpp b/include/ieme/math_utilities.hpp
index 4d97345..e937b05 100644
--- a/include/ieme/math_utilities.hpp
+++ b/include/ieme/math_utilities.hpp
@@ -3,6 +3,7 @@
 
 #include <ieme/numbers.hpp>
 
+#include <numeric>
 #include <type_traits>
 
 
@@ -13,6 +14,9 @@ namespace math_utilities {
 template <typename Int>
 constexpr Int abs(Int value) noexcept;
 
+template <typename Int>
+constexpr Int gcd(Int left, Int right) noexcept;
+
 template <typename Int>
 constexpr Int pow2(Int exponent) noexcept;
 
@@ -29,6 +33,22 @@ constexpr Int abs(Int const value) noexcept
   return (value >= _0<Int>) ? value : -value;
 }
 
+template <typename Int>
+constexpr Int gcd(Int const left, Int const right) noexcept
+{
+  using unsigned_type = std::make_unsigned_t<Int>;
+
+  // std::gcd is undefined for values whose magnitude isn't representable
+  auto const magnitude = [](Int const value) {
+    return static_cast<unsigned_type>((value >= _0<Int>)
+                                        ? unsigned_type(value)
+                                        : _0<unsigned_type>
+                                            - unsigned_type(value));
+  };
+
+  return static_cast<Int>(std::gcd(magnitude(left), magnitude(right)));
+}
+
 template <typename Int>
 constexpr Int pow2(Int const exponent) noexcept
 {
diff --git a/include/ieme/raw_fraction_math.hpp b/include/ieme/raw_fraction_math.hpp
index 4c6fd85..07bc27f 100644
--- a/include/ieme/raw_fraction_math.hpp
+++ b/include/ieme/raw_fraction_math.hpp
@@ -1,12 +1,11 @@
 #ifndef IEME_RAW_FRACTION_MATH_HPP
 #define IEME_RAW_FRACTION_MATH_HPP
 
+#include <ieme/math_utilities.hpp>
 #include <ieme/numbers.hpp>
 #include <ieme/raw_fraction.hpp>
 #include <ieme/reduce_mode.hpp>
 
-#include <numeric>
-
 
 namespace ieme {
 
@@ -79,7 +78,7 @@ reduce_ignore_signs(raw_fraction<Rep> const& value) noexcept
   if (is_undefined(value))
     return {_0<Rep>, _0<Rep>};
 
-  auto const gcd = std::gcd(value.numerator, value.denominator);
+  auto const gcd = math_utilities::gcd(value.numerator, value.denominator);
 
   return {value.numerator / gcd, value.denominator / gcd};
 }
diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 65dab3a..fb8d5ed 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -126,7 +126,7 @@ template <typename Rep>
 constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 {
   return is_defined(value)
-         && std::gcd(value.numerator, value.denominator) == _1<Rep>;
+         && math_utilities::gcd(value.numerator, value.denominator) == _1<Rep>;
 }
 
 template <typename Rep>
-- 
2.43.0


From 045b6ea8497f150dbae35484aee13490907fa804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 16/22] fix: raw_fraction_math.hpp uses the queries without
 including them

---
 include/ieme/raw_fraction_math.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ieme/raw_fraction_math.hpp b/include/ieme/raw_fraction_math.hpp
index 07bc27f..5b0a3ea 100644
--- a/include/ieme/raw_fraction_math.hpp
+++ b/include/ieme/raw_fraction_math.hpp
@@ -4,6 +4,7 @@
 #include <ieme/math_utilities.hpp>
 #include <ieme/numbers.hpp>
 #include <ieme/raw_fraction.hpp>
+#include <ieme/raw_fraction_queries.hpp>
 #include <ieme/reduce_mode.hpp>
 
 
-- 
2.43.0


From 0d3329b3da1ce0cc4f17e0c3e260507b0fcff6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 17/22] fix: redenominating an undefined fraction traps instead
 of staying undefined

---
 include/ieme/fraction_math.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 12d9901..887e93f 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -216,6 +216,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> trunc_redenominate(fraction<Rep, Ops> const& value,
                                                 Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return {_0<Rep>, _0<Rep>};
+
   return {trunc(value * denominator), denominator};
 }
 
@@ -223,6 +226,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> ceil_redenominate(fraction<Rep, Ops> const& value,
                                                Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return {_0<Rep>, _0<Rep>};
+
   return {(denominator >= _0<Rep>) ? ceil(value * denominator)
                                    : -ceil(value * -denominator),
           denominator};
@@ -232,6 +238,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> floor_redenominate(fraction<Rep, Ops> const& value,
                                                 Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return {_0<Rep>, _0<Rep>};
+
   return {(denominator >= _0<Rep>) ? floor(value * denominator)
                                    : -floor(value * -denominator),
           denominator};
@@ -241,6 +250,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> round_redenominate(fraction<Rep, Ops> const& value,
                                                 Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return {_0<Rep>, _0<Rep>};
+
   return {round(value * denominator), denominator};
 }
 
-- 
2.43.0


From 89ef4314829586fbcff32876bf585479ea8623ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 18/22] fix: pow negates the lowest exponent in int, which
 overflows

---
 include/ieme/fraction_math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 887e93f..692ec9f 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -273,7 +273,9 @@ constexpr fraction<Rep, Ops> pow(Rep const& base, int const exponent) noexcept
            ? fraction<Rep, Ops>(
              math_utilities::pow(base, static_cast<Rep>(exponent)))
            : fraction<Rep, Ops>(
-             _1<Rep>, math_utilities::pow(base, static_cast<Rep>(-exponent)));
+             _1<Rep>,
+             math_utilities::pow(
+               base, static_cast<Rep>(-static_cast<Rep>(exponent))));
 }
 
 
-- 
2.43.0


From 12f4033f1be8e778744ca4c784fb8ba6e696e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 19/22] fix: limits of mixed numbers leave out the fractional
 part

---
 include/ieme/limits.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ieme/limits.hpp b/include/ieme/limits.hpp
index 87a4776..c0b9b8f 100644
--- a/include/ieme/limits.hpp
+++ b/include/ieme/limits.hpp
@@ -178,14 +178,19 @@ template <typename WRep, typename FRep, typename Ops>
 constexpr auto limits<mixed_number<WRep, FRep, Ops>>::max() noexcept
   -> mixed_number_type
 {
-  return std::numeric_limits<whole_type>::max();
+  // The greatest fractional part is the one closest to 1
+  return {std::numeric_limits<whole_type>::max(),
+          fractional_type {std::numeric_limits<FRep>::max() - _1<FRep>,
+                           std::numeric_limits<FRep>::max()}};
 }
 
 template <typename WRep, typename FRep, typename Ops>
 constexpr auto limits<mixed_number<WRep, FRep, Ops>>::min() noexcept
   -> mixed_number_type
 {
-  return std::numeric_limits<whole_type>::min();
+  return {std::numeric_limits<whole_type>::min(),
+          std::numeric_limits<FRep>::is_signed ? -max().fractional()
+                                               : fractional_type {}};
 }
 
 template <typename WRep, typename FRep, typename Ops>
-- 
2.43.0


From ba54fa5011ec40ee19619e2d25422946f5c023c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 20/22] fix: pow2 without an explicit type, as documented, does
 not compile

---
 include/ieme/fraction_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 692ec9f..3578c0f 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -81,7 +81,7 @@ constexpr fraction<Rep, Ops>
 round_redenominate(fraction<Rep, Ops> const& value,
                    Rep const& new_denominator) noexcept;
 
-template <typename Rep, typename Ops = ops::defaults>
+template <typename Rep = int, typename Ops = ops::defaults>
 constexpr fraction<Rep, Ops> pow2(int exponent) noexcept;
 
 template <typename Rep, typename Ops = ops::defaults>
-- 
2.43.0


From 049ff7113b294fbc3cdcdd2832383ba2d387821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 21/22] fix: reduced_input::negate ignored the reduction mode

---
 include/ieme/ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 534d41d..4fa1e51 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -1144,7 +1144,7 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 reduced_input<Ops, Mode>::negate(raw_fraction<Rep> const& value) noexcept
 {
-  return ops_type::negate(reduce(value));
+  return ops_type::negate(reduce(value, mode));
 }
 
 template <typename Ops, reduce_mode Mode>
-- 
2.43.0


From 96493d8499538bbe01aa5644497281c02a1798fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:36 +0000
Subject: [PATCH 22/22] fix: queries of a fraction with a lowest component

is_integer and is_unit_fraction trap on the lowest value modulo -1, and
is_proper compares magnitudes that overflow, e.g. is_proper(5/INT_MIN)
is false. Compare unsigned magnitudes instead, as gcd does.
---
 include/ieme/math_utilities.hpp       | 21 +++++++++++++--------
 include/ieme/raw_fraction_queries.hpp | 16 ++++++++++------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/ieme/math_utilities.hpp b/include/ieme/math_utilities.hpp
index e937b05..ff4e417 100644
--- a/include/ieme/math_utilities.hpp
+++ b/include/ieme/math_utilities.hpp
@@ -14,6 +14,9 @@ namespace math_utilities {
 template <typename Int>
 constexpr Int abs(Int value) noexcept;
 
+template <typename Int>
+constexpr std::make_unsigned_t<Int> magnitude(Int value) noexcept;
+
 template <typename Int>
 constexpr Int gcd(Int left, Int right) noexcept;
 
@@ -34,18 +37,20 @@ constexpr Int abs(Int const value) noexcept
 }
 
 template <typename Int>
-constexpr Int gcd(Int const left, Int const right) noexcept
+constexpr std::make_unsigned_t<Int> magnitude(Int const value) noexcept
 {
   using unsigned_type = std::make_unsigned_t<Int>;
 
-  // std::gcd is undefined for values whose magnitude isn't representable
-  auto const magnitude = [](Int const value) {
-    return static_cast<unsigned_type>((value >= _0<Int>)
-                                        ? unsigned_type(value)
-                                        : _0<unsigned_type>
-                                            - unsigned_type(value));
-  };
+  return static_cast<unsigned_type>((value >= _0<Int>)
+                                      ? unsigned_type(value)
+                                      : _0<unsigned_type>
+                                          - unsigned_type(value));
+}
 
+template <typename Int>
+constexpr Int gcd(Int const left, Int const right) noexcept
+{
+  // std::gcd is undefined for values whose magnitude isn't representable
   return static_cast<Int>(std::gcd(magnitude(left), magnitude(right)));
 }
 
diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index fb8d5ed..c3759df 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -111,15 +111,19 @@ constexpr bool is_negative(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_integer(raw_fraction<Rep> const& value) noexcept
 {
-  return is_defined(value) && value.numerator % value.denominator == _0<Rep>;
+  using math_utilities::magnitude;
+
+  return is_defined(value)
+         && magnitude(value.numerator) % magnitude(value.denominator) == 0;
 }
 
 template <typename Rep>
 constexpr bool is_unit_fraction(raw_fraction<Rep> const& value) noexcept
 {
-  return is_defined(value)
-         && value.numerator
-              != _0<Rep> && value.denominator % value.numerator == _0<Rep>;
+  using math_utilities::magnitude;
+
+  return is_defined(value) && value.numerator != _0<Rep>
+         && magnitude(value.denominator) % magnitude(value.numerator) == 0;
 }
 
 template <typename Rep>
@@ -140,8 +144,8 @@ constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_proper(raw_fraction<Rep> const& value) noexcept
 {
-  return math_utilities::abs(value.numerator)
-         < math_utilities::abs(value.denominator);
+  return math_utilities::magnitude(value.numerator)
+         < math_utilities::magnitude(value.denominator);
 }
 
 template <typename Rep>
-- 
2.43.0

