From aa334f40f23b4f57f9b0b18d80c94b55df6f64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 01/16] fix: include the standard headers each floaxie header
 relies on

cached_power.h, default_fallback.h and powers_ten_*.h did not compile when
included on their own (missing <cstdint>, <utility>, <cerrno>).
---
 include/floaxie/bit_ops.h           | 1 +
 include/floaxie/default_fallback.h  | 1 +
 include/floaxie/grisu.h             | 1 +
 include/floaxie/krosh.h             | 3 +++
 include/floaxie/memwrap.h           | 1 +
 include/floaxie/powers_ten_double.h | 2 ++
 include/floaxie/powers_ten_single.h | 2 ++
 include/floaxie/static_pow.h        | 1 +
 8 files changed, 12 insertions(+)

diff --git a/include/floaxie/bit_ops.h b/include/floaxie/bit_ops.h
index 12b9841..5801ab7 100644
--- a/include/floaxie/bit_ops.h
+++ b/include/floaxie/bit_ops.h
@@ -26,6 +26,7 @@
 
 #include <limits>
 #include <algorithm>
+#include <type_traits>
 #include <cstddef>
 #include <cassert>
 
diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index bd305ef..d2bb98e 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -17,6 +17,7 @@
 #ifndef FLOAXIE_DEFAULT_FALLBACK_H
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
+#include <cerrno>
 #include <cstdlib>
 #include <cwchar>
 
diff --git a/include/floaxie/grisu.h b/include/floaxie/grisu.h
index 76664fb..db67967 100644
--- a/include/floaxie/grisu.h
+++ b/include/floaxie/grisu.h
@@ -31,6 +31,7 @@
 #include <limits>
 #include <cstring>
 #include <cstddef>
+#include <cstdint>
 #include <cassert>
 
 #include <floaxie/diy_fp.h>
diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c002459..fcaa774 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -17,8 +17,11 @@
 #ifndef FLOAXIE_CROSH_H
 #define FLOAXIE_CROSH_H
 
+#include <array>
 #include <vector>
 #include <locale>
+#include <limits>
+#include <algorithm>
 #include <cstddef>
 #include <cmath>
 #include <cassert>
diff --git a/include/floaxie/memwrap.h b/include/floaxie/memwrap.h
index 65d0c66..3770f94 100644
--- a/include/floaxie/memwrap.h
+++ b/include/floaxie/memwrap.h
@@ -17,6 +17,7 @@
 #ifndef FLOAXIE_MEMWRAP_H
 #define FLOAXIE_MEMWRAP_H
 
+#include <cstddef>
 #include <cstring>
 #include <cwchar>
 
diff --git a/include/floaxie/powers_ten_double.h b/include/floaxie/powers_ten_double.h
index cac7efe..782f24a 100644
--- a/include/floaxie/powers_ten_double.h
+++ b/include/floaxie/powers_ten_double.h
@@ -25,7 +25,9 @@
 #define FLOAXIE_POWERS_TEN_DOUBLE_H
 
 #include <cstddef>
+#include <cstdint>
 #include <array>
+#include <utility>
 
 #include <floaxie/powers_ten.h>
 
diff --git a/include/floaxie/powers_ten_single.h b/include/floaxie/powers_ten_single.h
index 3b67d8b..f2eb0f3 100644
--- a/include/floaxie/powers_ten_single.h
+++ b/include/floaxie/powers_ten_single.h
@@ -25,6 +25,8 @@
 #define FLOAXIE_POWERS_TEN_SINGLE_H
 
 #include <cstddef>
+#include <cstdint>
+#include <utility>
 
 #include <floaxie/powers_ten.h>
 
diff --git a/include/floaxie/static_pow.h b/include/floaxie/static_pow.h
index 2024786..872f7b8 100644
--- a/include/floaxie/static_pow.h
+++ b/include/floaxie/static_pow.h
@@ -19,6 +19,7 @@
 #define FLOAXIE_STATIC_POW_H
 
 #include <array>
+#include <cstddef>
 #include <utility>
 
 namespace floaxie
-- 
2.43.0


From 53a0914aeebad008cdc5838a6068834fc6f0741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 02/16] fix: let the headers be included in several translation
 units under C++14

powers_ten<> members were defined as static members of explicit
specializations, i.e. as ordinary strong symbols, so that two translation units
including the library failed to link.
---
 include/floaxie/powers_ten_double.h | 19 +++++++++++++------
 include/floaxie/powers_ten_single.h | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/floaxie/powers_ten_double.h b/include/floaxie/powers_ten_double.h
index 782f24a..f352ece 100644
--- a/include/floaxie/powers_ten_double.h
+++ b/include/floaxie/powers_ten_double.h
@@ -33,7 +33,7 @@
 
 namespace floaxie
 {
-	/** \brief Specialization of **powers_ten** for double precision
+	/** \brief Storage of **powers_ten** values for double precision
 	 * floating point type (`double`).
 	 *
 	 * Significand (mantissa) type is `std::uint64_t`, exponent type is
@@ -42,7 +42,7 @@ namespace floaxie
 	 * Values are calculated for powers of 10 in the range of [-343, 343]
 	 * exponent.
 	 */
-	template<> struct powers_ten<double>
+	template<typename FloatType> struct powers_ten_double
 	{
 		/** \brief Pre-calculated binary 64-bit representation of mantissa of
 		 * powers of 10 in the range of [-343, 343] for single precision
@@ -412,10 +412,17 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -343, 343 };
 	};
 
-	constexpr decltype(powers_ten<double>::f) powers_ten<double>::f;
-	constexpr decltype(powers_ten<double>::e) powers_ten<double>::e;
-	constexpr std::size_t powers_ten<double>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<double>::boundaries;
+	template<typename FloatType> constexpr std::uint64_t powers_ten_double<FloatType>::f[];
+	template<typename FloatType> constexpr int powers_ten_double<FloatType>::e[];
+	template<typename FloatType> constexpr std::size_t powers_ten_double<FloatType>::pow_0_offset;
+	template<typename FloatType> constexpr std::pair<int, int> powers_ten_double<FloatType>::boundaries;
+
+	/** \brief Specialization of **powers_ten** for `double`.
+	 *
+	 * The values are inherited from the class template above, since definitions
+	 * of static members of class template may appear in many translation units.
+	 */
+	template<> struct powers_ten<double> : powers_ten_double<double> { };
 }
 
 #endif // FLOAXIE_POWERS_TEN_DOUBLE_H
diff --git a/include/floaxie/powers_ten_single.h b/include/floaxie/powers_ten_single.h
index f2eb0f3..1629f39 100644
--- a/include/floaxie/powers_ten_single.h
+++ b/include/floaxie/powers_ten_single.h
@@ -32,7 +32,7 @@
 
 namespace floaxie
 {
-	/** \brief Specialization of **powers_ten** for single precision
+	/** \brief Storage of **powers_ten** values for single precision
 	 * floating point type (`float`).
 	 *
 	 * Significand (mantissa) type is `std::uint32_t`, exponent type is
@@ -41,7 +41,7 @@ namespace floaxie
 	 * Values are calculated for powers of 10 in the range of [-50, 50]
 	 * exponent.
 	 */
-	template<> struct powers_ten<float>
+	template<typename FloatType> struct powers_ten_single
 	{
 		/** \brief Pre-calculated binary 32-bit representation of mantissa of
 		 * powers of 10 in the range of [-50, 50] for single precision
@@ -269,10 +269,17 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -50, 50 };
 	};
 
-	constexpr decltype(powers_ten<float>::f) powers_ten<float>::f;
-	constexpr decltype(powers_ten<float>::e) powers_ten<float>::e;
-	constexpr std::size_t powers_ten<float>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<float>::boundaries;
+	template<typename FloatType> constexpr std::uint32_t powers_ten_single<FloatType>::f[];
+	template<typename FloatType> constexpr int powers_ten_single<FloatType>::e[];
+	template<typename FloatType> constexpr std::size_t powers_ten_single<FloatType>::pow_0_offset;
+	template<typename FloatType> constexpr std::pair<int, int> powers_ten_single<FloatType>::boundaries;
+
+	/** \brief Specialization of **powers_ten** for `float`.
+	 *
+	 * The values are inherited from the class template above, since definitions
+	 * of static members of class template may appear in many translation units.
+	 */
+	template<> struct powers_ten<float> : powers_ten_single<float> { };
 }
 
 #endif // FLOAXIE_POWERS_TEN_SINGLE_H
-- 
2.43.0


From ea1c34c3d732228bc30faf3fec442e1ef2971815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 03/16] fix: provide memset/memmove wrappers for every
 character type

to_u16string() and to_u32string() could not be linked, since only char and
wchar_t versions of the wrappers were defined.
---
 include/floaxie/memwrap.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/memwrap.h b/include/floaxie/memwrap.h
index 3770f94..e93b5fa 100644
--- a/include/floaxie/memwrap.h
+++ b/include/floaxie/memwrap.h
@@ -20,6 +20,7 @@
 #include <cstddef>
 #include <cstring>
 #include <cwchar>
+#include <string>
 
 namespace floaxie
 {
@@ -29,7 +30,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		*/
-		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count);
+		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count)
+		{
+			return std::char_traits<CharType>::assign(dest, count, ch);
+		}
 
 		template<> inline char* memset(char* dest, char ch, std::size_t count)
 		{
@@ -45,7 +49,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		 */
-		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count);
+		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count)
+		{
+			return std::char_traits<CharType>::move(dest, src, count);
+		}
 
 		template<> inline char* memmove(char* dest, const char* src, std::size_t count)
 		{
-- 
2.43.0


From a8065065aa81a3d88f29f71324274a0297c29f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 04/16] fix: don't use locale dependent and throwing
 std::tolower() parsing inf and NaN

The spelling accepted depended on the global locale (e.g. "INFINITY" in
Turkish one) and std::bad_cast thrown for char16_t/char32_t escaped from
noexcept functions.
---
 include/floaxie/krosh.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index fcaa774..f5a5734 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -19,7 +19,6 @@
 
 #include <array>
 #include <vector>
-#include <locale>
 #include <limits>
 #include <algorithm>
 #include <cstddef>
@@ -51,6 +50,21 @@ namespace floaxie
 	/** \brief Maximum number of decimal digits in the exponent value. */
 	constexpr std::size_t exponent_decimal_digits(3);
 
+	/** \brief Converts ASCII upper case letter to lower case.
+	 *
+	 * In contrast to `std::tolower()` doesn't depend on the current locale and
+	 * is defined for any character type.
+	 *
+	 * \param c character to convert.
+	 *
+	 * \return lower case letter, if \p **c** is ASCII upper case letter,
+	 * \p **c** itself otherwise.
+	 */
+	template<typename CharType> constexpr CharType ascii_tolower(CharType c) noexcept
+	{
+		return c >= 'A' && c <= 'Z' ? static_cast<CharType>(c - 'A' + 'a') : c;
+	}
+
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
 	 * Searches for either "NAN" or "NAN(<character sequence>)" form of NaN
@@ -77,7 +91,7 @@ namespace floaxie
 				do
 					++cp;
 				while ((*cp >= '0' && *cp <= '9') ||
-					   (std::tolower(*cp, std::locale()) >= 'a' && std::tolower(*cp, std::locale()) <= 'z') ||
+					   (ascii_tolower(*cp) >= 'a' && ascii_tolower(*cp) <= 'z') ||
 						*cp == '_');
 
 				if (*cp == ')')
@@ -114,7 +128,7 @@ namespace floaxie
 				const std::array<CharType, 4> suffix {{ 'n', 'i', 't', 'y' }};
 				auto it = suffix.cbegin();
 
-				while (it != suffix.cend() && std::tolower(*cp, std::locale()) == *it)
+				while (it != suffix.cend() && ascii_tolower(*cp) == *it)
 				{
 					++cp;
 					++it;
-- 
2.43.0


From 7f97d418f3b6d597ca11cdea75e753aa06520030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 05/16] fix: keep the sign of the value when its exponent is
 out of the powers of ten table

Values like -1e400 were converted to positive infinity.
---
 include/floaxie/krosh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index f5a5734..58a4759 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -592,6 +592,9 @@ namespace floaxie
 						ret.status = conversion_status::overflow;
 					}
 
+					if (!mp.sign)
+						ret.value = -ret.value;
+
 					ret.str_end = ep.str_end;
 					ret.is_accurate = true;
 
-- 
2.43.0


From d8f38a2373b45a80ef618f41f99273ab5c2cf01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 06/16] fix: handle rounding carry, overflow and underflow
 limits in diy_fp::downsample()

The carry of rounding up an all ones mantissa was lost (9007199254740991.6,
2.2250738585072013e-308), values a bit greater than the maximum one (1e309)
produced garbage instead of overflow and values between a half of the minimum
subnormal and the minimum subnormal one were flushed to zero. The possible error
of the mantissa is taken into account to decide, if rounding is accurate.
---
 include/floaxie/diy_fp.h | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 0a643f4..b08059b 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -181,9 +181,13 @@ namespace floaxie
 		 * and the whole `diy_fp` value is normalized, otherwise the behaviour is
 		 * undefined.
 		 *
+		 * \param error upper bound of the absolute error of the current mantissa
+		 * value (in its units of the last place), which is used to decide, if the
+		 * direction of rounding is certain.
+		 *
 		 * \return result structure with floating point value of the specified type.
 		 */
-		downsample_result downsample()
+		downsample_result downsample(mantissa_storage_type error = 1)
 		{
 			downsample_result ret;
 
@@ -197,40 +201,48 @@ namespace floaxie
 			constexpr auto full_mantissa_bit_size(std::numeric_limits<FloatType>::digits);
 			constexpr auto mantissa_bit_size(full_mantissa_bit_size - 1); // remember hidden bit
 			constexpr mantissa_storage_type my_mantissa_size(bit_size<mantissa_storage_type>());
-			constexpr mantissa_storage_type mantissa_mask(mask<mantissa_storage_type>(mantissa_bit_size));
 			constexpr exponent_storage_type exponent_bias(std::numeric_limits<FloatType>::max_exponent - 1 + mantissa_bit_size);
 			constexpr std::size_t lsb_pow(my_mantissa_size - full_mantissa_bit_size);
 
 			const auto f(m_f);
 
-			if (m_e >= std::numeric_limits<FloatType>::max_exponent)
+			if (m_e + int(my_mantissa_size) > std::numeric_limits<FloatType>::max_exponent)
 			{
 				ret.value = huge_value<FloatType>();
 				ret.status = conversion_status::overflow;
 				return ret;
 			}
 
-			if (m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size))
+			const std::size_t denorm_exp(positive_part(std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - m_e - 1));
+
+			if (denorm_exp > my_mantissa_size)
 			{
+				// less, than a half of the least subnormal value
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
+				ret.is_accurate = denorm_exp > my_mantissa_size + 1 || mantissa_storage_type(0) - f >= error;
 				return ret;
 			}
 
-			const std::size_t denorm_exp(positive_part(std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - m_e - 1));
-
-			assert(denorm_exp < my_mantissa_size);
-
 			const std::size_t shift_amount(std::max(denorm_exp, lsb_pow));
 
-			mantissa_storage_type parts = m_e + shift_amount + exponent_bias - (denorm_exp > lsb_pow);
+			const auto& round(round_up(f, shift_amount));
+
+			// hidden bit of normal values and the carry of rounding, if any, fall into the exponent part
+			mantissa_storage_type parts = m_e + shift_amount + exponent_bias - 1;
 			parts <<= mantissa_bit_size;
+			parts += (shift_amount < my_mantissa_size ? f >> shift_amount : 0) + round.value;
 
-			const auto& round(round_up(f, shift_amount));
-			parts |= ((f >> shift_amount) + round.value) & mantissa_mask;
+			const mantissa_storage_type tail(f & mask<mantissa_storage_type>(shift_amount));
+			const mantissa_storage_type half(raised_bit<mantissa_storage_type>(shift_amount - 1));
 
 			ret.value = type_punning_cast<FloatType>(parts);
-			ret.is_accurate = round.is_accurate;
+			ret.is_accurate = (tail > half ? tail - half : half - tail) >= error;
+
+			if (!parts)
+				ret.status = conversion_status::underflow;
+			else if (ret.value == huge_value<FloatType>())
+				ret.status = conversion_status::overflow;
 
 			return ret;
 		}
-- 
2.43.0


From aeddafbb753bd25d2263caa6c6fa65d12978a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 07/16] fix: don't flush representable float values below the
 powers of ten table to zero

Values like 1.23456789e-43f have decimal exponent of the digit sequence less, than
the least power in the single precision table, but are still representable.
---
 include/floaxie/krosh.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 58a4759..db177a4 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -596,7 +596,10 @@ namespace floaxie
 						ret.value = -ret.value;
 
 					ret.str_end = ep.str_end;
-					ret.is_accurate = true;
+
+					// the range of the table can be narrower, than the range of the type (including subnormals)
+					ret.is_accurate = b1 || mp.K + int(decimal_q<FloatType>) <=
+						std::numeric_limits<FloatType>::min_exponent10 - std::numeric_limits<FloatType>::max_digits10;
 
 					return ret;
 				}
-- 
2.43.0


From d09af211f1754ce70c015f84ee9f340e85e39986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 08/16] fix: don't allocate memory in noexcept parse_digits()

Failed allocation terminated the program.
---
 include/floaxie/krosh.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index db177a4..6fed5f7 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -18,7 +18,6 @@
 #define FLOAXIE_CROSH_H
 
 #include <array>
-#include <vector>
 #include <limits>
 #include <algorithm>
 #include <cstddef>
@@ -252,8 +251,8 @@ namespace floaxie
 
 		constexpr std::size_t kappa = decimal_q<FloatType>;
 
-		std::vector<unsigned char> parsed_digits;
-		parsed_digits.reserve(kappa);
+		std::array<unsigned char, kappa> parsed_digits;
+		std::size_t parsed_digits_count(0);
 
 		bool dot_set(false);
 		bool sign_set(false);
@@ -270,7 +269,7 @@ namespace floaxie
 			switch (c)
 			{
 			case '0':
-				if (!parsed_digits.empty() || dot_set)
+				if (parsed_digits_count || dot_set)
 				{
 					++zero_substring_length;
 					pow_gain += !dot_set;
@@ -286,18 +285,19 @@ namespace floaxie
 			case '7':
 			case '8':
 			case '9':
-				if (zero_substring_length && parsed_digits.size() < kappa)
+				if (zero_substring_length && parsed_digits_count < kappa)
 				{
-					const std::size_t spare_digits { kappa - parsed_digits.size() };
+					const std::size_t spare_digits { kappa - parsed_digits_count };
 					auto zero_copy_count = zero_substring_length;
 					auto pow_gain_reduced = pow_gain;
 
-					if (!parsed_digits.empty())
+					if (parsed_digits_count)
 					{
 						zero_copy_count = std::min(zero_substring_length, spare_digits);
 						pow_gain_reduced = std::min(pow_gain, spare_digits);
 
-						parsed_digits.insert(parsed_digits.end(), zero_copy_count, 0);
+						std::fill_n(parsed_digits.begin() + parsed_digits_count, zero_copy_count, 0);
+						parsed_digits_count += zero_copy_count;
 					}
 
 					fraction_digits_count += zero_copy_count - pow_gain_reduced;
@@ -305,16 +305,16 @@ namespace floaxie
 					pow_gain -= pow_gain_reduced;
 				}
 
-				if (parsed_digits.size() < kappa)
+				if (parsed_digits_count < kappa)
 				{
-					parsed_digits.push_back(c - '0');
+					parsed_digits[parsed_digits_count++] = c - '0';
 					fraction_digits_count += dot_set;
 				}
 				else
 				{
 					if (!frac_calculated)
 					{
-						const std::size_t frac_suffix_size = parsed_digits.size() + zero_substring_length - kappa;
+						const std::size_t frac_suffix_size = parsed_digits_count + zero_substring_length - kappa;
 						auto tail = extract_fraction_digits<fraction_decimal_digits>(str + pos - frac_suffix_size);
 						ret.frac = convert_numerator<fraction_decimal_digits, fraction_binary_digits>(tail);
 
@@ -379,8 +379,8 @@ namespace floaxie
 		}
 
 		std::size_t pow(0);
-		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
-			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
+		while (parsed_digits_count)
+			ret.value += parsed_digits[--parsed_digits_count] * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
 		ret.str_end = str + (pos - 1);
 		ret.K = pow_gain - fraction_digits_count;
-- 
2.43.0


From b1961c6d2bd47e04c7ee3cdf0f84d75b27958b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 09/16] fix: fall back when digits, which didn't fit the
 mantissa, make rounding uncertain

Long inputs like 87971760864715624671e-265 were rounded incorrectly, but
reported to be accurate.
---
 include/floaxie/krosh.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 6fed5f7..c70a14b 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -43,6 +43,11 @@ namespace floaxie
 	/** \brief Maximum number of decimal digits of fraction part, which can be observed. */
 	constexpr std::size_t fraction_decimal_digits(4);
 
+	/** \brief Upper bound of the error of mantissa (in its units of the last
+	 * place), which doesn't hold all the digits of the parsed value.
+	 */
+	constexpr unsigned int truncation_error(8);
+
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
@@ -202,7 +207,7 @@ namespace floaxie
 	template<typename FloatType, typename CharType> struct digit_parse_result
 	{
 		/** \brief Pre-initializes members to sane values. */
-		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true) { }
+		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true), truncated(false) { }
 
 		/** \brief Parsed mantissa value. */
 		typename diy_fp<FloatType>::mantissa_storage_type value;
@@ -223,6 +228,9 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Flag indicating if any non-zero digit didn't fit the mantissa. */
+		bool truncated;
 	};
 
 	/** \brief Unified method to extract and parse digits in one pass.
@@ -319,6 +327,7 @@ namespace floaxie
 						ret.frac = convert_numerator<fraction_decimal_digits, fraction_binary_digits>(tail);
 
 						frac_calculated = true;
+						ret.truncated = true;
 					}
 
 					pow_gain += !dot_set;
@@ -409,6 +418,9 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Flag indicating if any non-zero digit didn't fit the mantissa. */
+		bool truncated;
 	};
 
 	/** \brief Tides up results of `parse_digits` for **Krosh** to use.
@@ -436,6 +448,7 @@ namespace floaxie
 		ret.special = digits_parts.special;
 		ret.str_end = digits_parts.str_end;
 		ret.sign = digits_parts.sign;
+		ret.truncated = digits_parts.truncated;
 
 		if (digits_parts.special == speciality::no)
 		{
@@ -605,8 +618,12 @@ namespace floaxie
 				}
 			}
 
+			// the product can be one bit less, than the normalized value
+			typename diy_fp<FloatType>::mantissa_storage_type error(mp.truncated ? truncation_error : 1);
+			error <<= !w.is_normalized();
+
 			w.normalize();
-			const auto& v(w.downsample());
+			const auto& v(w.downsample(error));
 			ret.value = v.value;
 			ret.str_end = ep.str_end;
 			ret.is_accurate = v.is_accurate;
-- 
2.43.0


From 81ad0768680b04e9b54609daf72b1e080d1b9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 10/16] fix: parse exponent part as a plain optionally signed
 integer

Reusing parse_digits() led to reading out of bounds of the powers of ten for 1e10000
or 1e1.5, wrapping of big exponents (1e4294967296) and accepting 'e' without digits
and special values as exponents (1enan).
---
 include/floaxie/krosh.h | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c70a14b..905d04c 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -51,8 +51,10 @@ namespace floaxie
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
-	/** \brief Maximum number of decimal digits in the exponent value. */
-	constexpr std::size_t exponent_decimal_digits(3);
+	/** \brief Value of decimal exponent, reaching which it's treated as
+	 * infinitely big (regardless of the mantissa, which length is limited).
+	 */
+	constexpr int maximum_exponent(10000);
 
 	/** \brief Converts ASCII upper case letter to lower case.
 	 *
@@ -515,16 +517,29 @@ namespace floaxie
 		}
 		else
 		{
-			++str;
+			const CharType* cp = str + 1;
+
+			const bool sign = *cp != '-';
+
+			if (*cp == '-' || *cp == '+')
+				++cp;
 
-			const auto& digit_parts(parse_digits<float>(str));
+			const CharType* const digits_begin = cp;
 
-			ret.value = digit_parts.value * seq_pow<int, 10, exponent_decimal_digits>(digit_parts.K);
+			ret.value = 0;
+
+			for (; *cp >= '0' && *cp <= '9'; ++cp)
+			{
+				// further digits can't bring the value back to the range of any type
+				if (ret.value < maximum_exponent)
+					ret.value = ret.value * 10 + static_cast<int>(*cp - '0');
+			}
 
-			if (!digit_parts.sign)
+			if (!sign)
 				ret.value = -ret.value;
 
-			ret.str_end = digit_parts.str_end;
+			// 'e' is not a part of the value, if no digits follow it
+			ret.str_end = cp != digits_begin ? cp : str;
 		}
 
 		return ret;
-- 
2.43.0


From 98f47c0e42276c26808313e4f1d6acc9667a6989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 11/16] fix: don't consume anything, if the string doesn't
 start with a number

A sole sign, a decimal point or a prefix of a special value (e.g. "nope" or "-")
were reported as a successfully parsed zero.
---
 include/floaxie/krosh.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 905d04c..bf09afc 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -266,6 +266,7 @@ namespace floaxie
 
 		bool dot_set(false);
 		bool sign_set(false);
+		bool digit_set(false);
 		bool frac_calculated(false);
 		std::size_t pow_gain(0);
 		std::size_t zero_substring_length(0), fraction_digits_count(0);
@@ -279,6 +280,8 @@ namespace floaxie
 			switch (c)
 			{
 			case '0':
+				digit_set = true;
+
 				if (parsed_digits_count || dot_set)
 				{
 					++zero_substring_length;
@@ -295,6 +298,8 @@ namespace floaxie
 			case '7':
 			case '8':
 			case '9':
+				digit_set = true;
+
 				if (zero_substring_length && parsed_digits_count < kappa)
 				{
 					const std::size_t spare_digits { kappa - parsed_digits_count };
@@ -346,10 +351,12 @@ namespace floaxie
 				if (pos == sign_set)
 				{
 					const std::size_t eaten = eat_nan(str + pos + 1);
-					pos += eaten + 1;
 
 					if (eaten)
+					{
+						pos += eaten + 1;
 						ret.special = speciality::nan;
+					}
 				}
 
 				go_to_beach = true;
@@ -360,10 +367,12 @@ namespace floaxie
 				if (pos == sign_set)
 				{
 					const std::size_t eaten = eat_inf(str + pos + 1);
-					pos += eaten + 1;
 
 					if (eaten)
+					{
+						pos += eaten + 1;
 						ret.special = speciality::inf;
+					}
 				}
 
 				go_to_beach = true;
@@ -393,7 +402,8 @@ namespace floaxie
 		while (parsed_digits_count)
 			ret.value += parsed_digits[--parsed_digits_count] * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
-		ret.str_end = str + (pos - 1);
+		// without any digit or special value there's nothing parsed (including the sign)
+		ret.str_end = digit_set || ret.special != speciality::no ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
 
 		return ret;
-- 
2.43.0


From b0da68f75776b0d976b35e977d2925fdb7af1183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 12/16] fix: consume exponent part of zero

Parsing of e.g. 0e5 stopped before the exponent.
---
 include/floaxie/krosh.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index bf09afc..c9e3f2c 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -656,6 +656,8 @@ namespace floaxie
 		}
 		else
 		{
+			ret.str_end = mp.str_end;
+
 			switch (mp.special)
 			{
 			case speciality::nan:
@@ -668,10 +670,14 @@ namespace floaxie
 
 			default:
 				ret.value = 0;
+
+				// exponent of zero doesn't matter, but it's still a part of the value
+				if (mp.str_end != str)
+					ret.str_end = parse_exponent(mp.str_end).str_end;
+
 				break;
 			}
 
-			ret.str_end = mp.str_end;
 			ret.is_accurate = true;
 			ret.status = conversion_status::success;
 		}
-- 
2.43.0


From e3f02865be746d0a765c4d80ca05714cd76548fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 13/16] fix: don't report stale errno as the status of the
 conversion by fallback function

---
 include/floaxie/atof.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 4181536..391b7fd 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -17,6 +17,7 @@
 #ifndef FLOAXIE_ATOF_H
 #define FLOAXIE_ATOF_H
 
+#include <cerrno>
 #include <string>
 
 #include <floaxie/krosh.h>
@@ -112,9 +113,16 @@ namespace floaxie
 			}
 			else
 			{
+				// don't take errors of the previous calls for the current one's
+				const int saved_errno(errno);
+				errno = 0;
+
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
+				if (!errno)
+					errno = saved_errno;
+
 				return result;
 			}
 		}
-- 
2.43.0


From c9fefd81ee211006ad545c9e0d752b865c3a6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 14/16] fix: don't report overflow for subnormal results of
 fallback function

The C library sets ERANGE for inexact subnormal results, too.
---
 include/floaxie/default_fallback.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index d2bb98e..f1371d6 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -22,6 +22,7 @@
 #include <cwchar>
 
 #include <floaxie/conversion_status.h>
+#include <floaxie/huge_val.h>
 
 namespace floaxie
 {
@@ -88,7 +89,13 @@ namespace floaxie
 		if (errno != ERANGE)
 			return conversion_status::success;
 
-		return returned_value ? conversion_status::overflow : conversion_status::underflow;
+		if (!returned_value)
+			return conversion_status::underflow;
+
+		const FloatType huge(huge_value<FloatType>());
+
+		// ERANGE may be also set for subnormal results, which are not an error
+		return returned_value == huge || returned_value == -huge ? conversion_status::overflow : conversion_status::success;
 	}
 }
 
-- 
2.43.0


From ed3eb508f6249b76cc9c1beacd58b794441c0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 15/16] fix: lower boundary of the least normal value

The value below the least normal one is the largest subnormal value, which is
as far from it, as the value above. The lower boundary was calculated, as if
it was twice closer.
---
 include/floaxie/diy_fp.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index b08059b..1c05a0e 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -462,7 +462,9 @@ namespace floaxie
 
 			pl.normalize_from_ieee754(); // as we increase precision of IEEE-754 type by 1
 
-			const unsigned char shift_amount(1 + (mi.m_f == hidden_bit()));
+			// the value below the least normal one (of the largest subnormal) is not closer, than the one above
+			constexpr exponent_storage_type min_exponent(std::numeric_limits<FloatType>::min_exponent - std::numeric_limits<FloatType>::digits);
+			const unsigned char shift_amount(1 + (mi.m_f == hidden_bit() && mi.m_e > min_exponent));
 
 			mi.m_f <<= shift_amount;
 			mi.m_f -= 1;
-- 
2.43.0


From 5c62cc7aa7365066636ff4cdb839c466256b622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 16/16] fix: don't subtract from wide characters, which aren't
 digits

The difference of a non-digit wchar_t and '0' may not be representable
(signed overflow), when such a character follows digits beyond the mantissa.
---
 include/floaxie/krosh.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c9e3f2c..2252ddb 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -174,9 +174,9 @@ namespace floaxie
 
 		for (std::size_t pos = 0; pos < kappa; ++pos)
 		{
-			const auto c = str[pos] - '0';
-			if (c >= 0 && c <= 9)
-				parsed_digits[pos] = c;
+			const auto c = str[pos];
+			if (c >= '0' && c <= '9')
+				parsed_digits[pos] = c - '0';
 			else
 				break;
 		}
-- 
2.43.0

