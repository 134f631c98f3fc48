From 30adca3aa8ad93edcacd8fa80fa2773fa2bc7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 01/66] fix: copy whole native vectors only inside the element
 range and accept non-const sources in simd::copy_from/copy_to

---
 dpm/detail/x86/type.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 65fc5c9..5a632ae 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -649,8 +649,8 @@ namespace dpm
 			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
 				if (!std::is_constant_evaluated())
 				{
-					const auto src = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					const U *src = std::to_address(mem);
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
 			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
@@ -664,7 +664,7 @@ namespace dpm
 				if (!std::is_constant_evaluated())
 				{
 					const auto dst = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<U, T>(dst + i, _data[j]);
 				}
 			for (; i < size(); ++i) mem[i] = static_cast<U>(operator[](i));
-- 
2.43.0


From 4c91bfacd26afbdd67573ca5a6bf65350a89f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 02/66] fix: increment and decrement operators for element
 types other than int

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 17f8359..4d0d8fb 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -724,10 +724,10 @@ namespace dpm
 	}
 	/** Increments elements of vector \a x, and returns reference to it. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + static_cast<T>(1); }
 	/** Decrements elements of vector \a x. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - static_cast<T>(1); }
 
 	/** Adds elements of vector \a b to elements of vector \a a. */
 	template<typename T, typename Abi>
-- 
2.43.0


From a49096be88cde2471ba0817106ccff018efbd6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 03/66] fix: mask and masked vector copies access elements
 instead of whole native vectors

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 5a632ae..2442f3e 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -137,14 +137,14 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				_data[i] = static_cast<value_type>(mem[i]);
+				operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		/** Copies the underlying elements from \a mem if the corresponding element of mask \a m evaluates to `true`. */
@@ -152,14 +152,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
@@ -675,14 +675,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
-- 
2.43.0


From a705b8cff499b49082016a6ab86203816d209d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 04/66] fix: construction of masks and vectors from arrays and
 spans of native vectors

---
 dpm/detail/x86/type.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 2442f3e..09dc27a 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -99,9 +99,9 @@ namespace dpm
 		/** Initializes the SIMD mask with a native mask vector. */
 		constexpr simd_mask(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD mask with an array of native mask vectors. */
-		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD mask with a span of native mask vectors. */
-		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -596,9 +596,9 @@ namespace dpm
 		/** Initializes the SIMD vector with a native vector. */
 		constexpr simd(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD vector with an array of native vectors. */
-		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD vector with a span of native mask vectors. */
-		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
-- 
2.43.0


From 0a596b81aa6a9ecc5a50caa42492454691a7f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 05/66] fix: logical AND of masks starts from all lanes set

---
 dpm/detail/x86/type.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 09dc27a..9243ee4 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -344,8 +344,7 @@ namespace dpm
 			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
 			detail::vectorize([z = zero](auto &res, auto a, auto b)
 			{
-				res = detail::bit_andnot(detail::cmp_eq<T>(a, z), res);
-				res = detail::bit_andnot(detail::cmp_eq<T>(b, z), res);
+				res = detail::bit_andnot(detail::mask_eq<T>(a, z), detail::bit_not(detail::mask_eq<T>(b, z)));
 			}, result, a, b);
 			return result;
 		}
-- 
2.43.0


From a1b82dbb3a7c3a80b5ca5e712c46651ba5188eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 06/66] fix: constrain the x86 none_of overload to x86 masks

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 9243ee4..fd85950 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -428,7 +428,7 @@ namespace dpm
 		}
 	}
 	/** Returns `true` if at none of the elements of the \a mask is `true`. Otherwise returns `false`. */
-	template<typename T, std::size_t N, std::size_t A>
+	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE bool none_of(const detail::x86_mask<T, N, A> &mask) noexcept
 	{
 		if (std::is_constant_evaluated())
-- 
2.43.0


From 5fc3d11759cdd8ee5925a499685d52bde4b6941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 07/66] fix: AVX2 byte movemask must not sign-extend

---
 dpm/detail/x86/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 24fb686..5cf95d3 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -248,7 +248,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE std::size_t movemask(V x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		return static_cast<std::size_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
+		return static_cast<std::uint32_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
 #else
 		const auto ml = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 0));
 		const auto mh = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 1));
-- 
2.43.0


From 760d1e1b1da417f9ca7761b9d6d7075a251b3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 08/66] fix: generic mask complement

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 4d0d8fb..c406975 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -302,7 +302,7 @@ namespace dpm
 	{
 		std::array<bool, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd_mask<T, Abi>::size(); ++i)
-			result[i] = ~x[i];
+			result[i] = !x[i];
 		return {result.data(), element_aligned};
 	}
 	/** Preforms a bitwise AND on the elements of the masks \a a and \a b. */
-- 
2.43.0


From 5154e6ab2a5349ec3a4e638e1f885935b70c2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 09/66] fix: first and last set lane of a mask ignore the
 padding lanes

---
 dpm/detail/x86/type.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index fd85950..f6c112d 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -523,7 +523,8 @@ namespace dpm
 			const auto zero = detail::setzero<ext::native_data_type_t<mask_t>>();
 			for (std::size_t i = 0; i < ext::native_data_size_v<mask_t>; ++i)
 			{
-				const auto bits = detail::movemask<T>(detail::cmp_ne<T>(mask_data[i], zero));
+				const auto vm = detail::maskzero<T>(mask_data[i], mask_t::size() - i * sizeof(mask_data[i]) / sizeof(T));
+				const auto bits = detail::movemask<T>(detail::cmp_ne<T>(vm, zero));
 				if (bits) return std::countr_zero(bits) / detail::movemask_bits_v<T> + i * sizeof(mask_data[i]) / sizeof(T);
 			}
 			DPM_UNREACHABLE();
@@ -535,7 +536,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			for (std::size_t i = N; --i != 0;)
+			for (std::size_t i = N; i-- != 0;)
 				if (mask[i]) return i;
 			return N;
 		}
@@ -544,11 +545,12 @@ namespace dpm
 			using mask_t = detail::x86_mask<T, N, A>;
 			const auto mask_data = ext::to_native_data(mask);
 			const auto zero = detail::setzero<ext::native_data_type_t<mask_t>>();
-			for (std::size_t i = ext::native_data_size_v<mask_t>, j; (j = i--) != 0;)
+			for (std::size_t i = ext::native_data_size_v<mask_t>; i-- != 0;)
 			{
 				constexpr auto native_extent = sizeof(mask_data[i]) / sizeof(T);
-				const auto bits = detail::movemask_l<T>(detail::cmp_ne<T>(mask_data[i], zero), mask_t::size() - i * native_extent);
-				if (bits) return (j * native_extent - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
+				const auto vm = detail::maskzero<T>(mask_data[i], mask_t::size() - i * native_extent);
+				const auto bits = detail::movemask_l<T>(detail::cmp_ne<T>(vm, zero), native_extent);
+				if (bits) return ((i + 1) * native_extent - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
 			}
 			DPM_UNREACHABLE();
 		}
-- 
2.43.0


From 65d0ed14156fc429a6acc6ab2e1ae0002c64a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 10/66] fix: AVX blending of padding lanes when at most half of
 the vector is in use

---
 dpm/detail/x86/transform.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 4dff8f4..86b7e2a 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -593,14 +593,16 @@ namespace dpm::detail
 	template<integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16);
+		const auto bh = _mm256_extractf128_si256(b, 1);
+		const auto h = n > 16 ? maskblend<T>(_mm256_extractf128_si256(a, 1), bh, n - 16) : bh;
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
 	template<integral_of_size<2> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8);
+		const auto bh = _mm256_extractf128_si256(b, 1);
+		const auto h = n > 8 ? maskblend<T>(_mm256_extractf128_si256(a, 1), bh, n - 8) : bh;
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
-- 
2.43.0


From 9540896164798b006690dfecfcc45bca2b0ec793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 11/66] fix: conversion of 64-bit signed integers to double
 with SSE4.1

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 3497659..58181c5 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -87,7 +87,7 @@ namespace dpm::detail
 #else
 		const auto tmp = _mm_undefined_si128();
 		const auto zero = _mm_xor_si128(tmp, tmp);
-		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0x33);
+		const auto a = _mm_blend_epi16(_mm_srai_epi32(x, 16), zero, 0x33);
 		const auto b = _mm_blend_epi16(x, exp52, 0x88);
 #endif
 		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
-- 
2.43.0


From 1a4589be63c8cfeef2a4053369a7e75068cf4b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 12/66] fix: conversion of 32-bit unsigned integers to float
 rounds once

---
 dpm/detail/x86/cvt.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 58181c5..e1a46a5 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -37,9 +37,10 @@ namespace dpm::detail
 
 	[[nodiscard]] DPM_FORCEINLINE __m128 cvt_u32_f32(__m128i x) noexcept
 	{
-		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(1)));
-		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 1));
-		return _mm_add_ps(_mm_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		/* Both halves are exactly representable, only the final addition rounds. */
+		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(0xffff)));
+		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 16));
+		return _mm_add_ps(_mm_mul_ps(b, _mm_set1_ps(65536.0f)), a); /* (x >> 16) * 2^16 + x & 0xffff */
 	}
 	[[nodiscard]] DPM_FORCEINLINE __m128i cvt_f32_u32(__m128 x) noexcept
 	{
@@ -235,9 +236,10 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256 cvt_u32_f32(__m256i x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(1)));
-		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 1));
-		return _mm256_add_ps(_mm256_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		/* Both halves are exactly representable, only the final addition rounds. */
+		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(0xffff)));
+		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 16));
+		return _mm256_add_ps(_mm256_mul_ps(b, _mm256_set1_ps(65536.0f)), a); /* (x >> 16) * 2^16 + x & 0xffff */
 #else
 		const auto l = cvt_u32_f32(_mm256_extractf128_si256(x, 0));
 		const auto h = cvt_u32_f32(_mm256_extractf128_si256(x, 1));
-- 
2.43.0


From ac00e4c320b8f3ca1c44e99fb5263b79be31ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 13/66] fix: vectorised copies convert elements only when the
 native conversion equals the scalar one

---
 dpm/detail/x86/type.hpp    | 4 ++--
 dpm/detail/x86/utility.hpp | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index f6c112d..996750f 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -647,7 +647,7 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<U, T>
 		{
 			std::size_t i = 0;
-			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
+			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && detail::native_castable<T, U>)
 				if (!std::is_constant_evaluated())
 				{
 					const U *src = std::to_address(mem);
@@ -661,7 +661,7 @@ namespace dpm
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<T, U>
 		{
 			std::size_t i = 0;
-			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
+			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && detail::native_castable<U, T>)
 				if (!std::is_constant_evaluated())
 				{
 					const auto dst = std::to_address(mem);
diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 5cf95d3..2cc313f 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -310,6 +310,10 @@ namespace dpm::detail
 	template<typename V, typename T0, std::convertible_to<T0>... Ts>
 	[[nodiscard]] DPM_FORCEINLINE V set(T0 v0, Ts... vs) noexcept { return set<V>({v0, static_cast<T0>(vs)...}); }
 
+	/* Native casts must give the same result as `static_cast`. Casts from floating-point round instead of truncating, and casts to `bool` must test for zero. */
+	template<typename To, typename From>
+	concept native_castable = sizeof(To) == sizeof(From) && (std::same_as<To, From> || (std::integral<From> && !std::same_as<To, bool>));
+
 	template<typename To, typename From, typename VTo, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::same_as<To, From> || (std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = src; }
 	template<typename To, typename From, typename VTo, typename VFrom>
-- 
2.43.0


From 46be45aeb35824907483c029135463792b8558b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 14/66] fix: shuffles between different widths

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 996750f..9bc8f9a 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -217,7 +217,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_mask<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
@@ -729,7 +729,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_simd<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
-- 
2.43.0


From d21dd1b7a1daf322d736deff9f9f2c524152393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 15/66] fix: shuffles do not read past the source when the
 indices do not fill a register

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 86b7e2a..167b0fc 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -646,7 +646,7 @@ namespace dpm::detail
 			shuffle<T, J>(extract_sequence_t<next_pos, sizeof...(Is) - native_extent, Is...>{}, dst + 1, src);
 		}
 		else
-			shuffle<T, J>(pad_sequence_t<native_extent, 1, Is...>{}, dst, src);
+			shuffle<T, J>(pad_sequence_t<native_extent, 0, Is...>{}, dst, src);
 	}
 
 	template<typename T, std::size_t N, typename V, typename Op>
-- 
2.43.0


From d5720ba8764c56877a516b17d0878dad4c8843ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 16/66] fix: generic reduction combines every element of the
 first half

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index c406975..f5a5498 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -604,7 +604,7 @@ namespace dpm
 
 				/* Separate `value` into halves and reduce them separately. */
 				for (std::size_t i = 0; i < a.size(); ++i)
-					a[i] = data[0];
+					a[i] = data[i];
 				for (std::size_t i = 0, j = a.size(); i < b.size(); ++i, ++j)
 					b[i] = data[j];
 
-- 
2.43.0


From dfd09f58876f3805015762a138e673cb6c7c338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 17/66] fix: reductions of 32- and 64-bit integers with
 operations that have no vector implementation

---
 dpm/detail/x86/type.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 9bc8f9a..e021d64 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1421,11 +1421,11 @@ namespace dpm
 			if constexpr (std::floating_point<T>)
 				return detail::reduce_mul<T, size>(x_data);
 #ifdef DPM_HAS_SSE4_1
-			if (detail::integral_of_size<T, 4>)
+			if constexpr (detail::integral_of_size<T, 4>)
 				return detail::reduce_mul<T, size>(x_data);
 #endif
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-			if (detail::integral_of_size<T, 8>)
+			if constexpr (detail::integral_of_size<T, 8>)
 				return detail::reduce_mul<T, size>(x_data);
 #endif
 		}
@@ -1438,8 +1438,7 @@ namespace dpm
 			if constexpr (detail::template_instance<Op, std::bit_or>)
 				return detail::reduce_or<T, size>(x_data);
 		}
-		else
-			return detail::reduce_impl<size>(x, op);
+		return detail::reduce_impl<size>(x, op);
 	}
 #ifdef DPM_HAS_SSSE3
 	/** @copydoc reduce */
-- 
2.43.0


From eec8614e27bee5ddc4cebd5815ac4f9edfd0d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 18/66] fix: minimum and maximum reductions in constant
 evaluation convert the vector, not a mask

---
 dpm/detail/x86/type.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index e021d64..45067de 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1470,7 +1470,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1479,7 +1479,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1489,7 +1489,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1498,7 +1498,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1508,7 +1508,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1517,7 +1517,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1526,7 +1526,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1535,7 +1535,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1546,7 +1546,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1555,7 +1555,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
-- 
2.43.0


From f09663d21784b4ab527a6fec29236b5e55df573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 19/66] fix: AVX2 reductions of 8- and 16-bit integers

---
 dpm/detail/x86/transform.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 167b0fc..5d34ed9 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -589,6 +589,11 @@ namespace dpm::detail
 		b = op(b, a);
 		return std::bit_cast<T>(_mm256_cvtsd_f64(std::bit_cast<__m256d>(b)));
 	}
+	template<std::integral T, typename Op>
+	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept requires(sizeof(T) <= 2)
+	{
+		return reduce<T>(op(_mm256_extracti128_si256(v, 0), _mm256_extracti128_si256(v, 1)), op);
+	}
 #else
 	template<integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
-- 
2.43.0


From 7f3ef80a022996f435852f1f21283f2cff1aeafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 20/66] fix: minimum and maximum reductions of padded
 floating-point vectors of infinities

---
 dpm/detail/x86/type.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 45067de..ce139ed 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1372,10 +1372,16 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE T reduce_add(const V *data) noexcept { return reduce<T, N>(data, setzero<V>(), [](auto a, auto b) { return add<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
 		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept { return reduce<T, N>(data, fill<V>(T{1}), [](auto a, auto b) { return mul<T>(a, b); }); }
+		/* Padding must never be selected, not even when every element is infinite. */
+		template<typename T>
+		inline constexpr T min_identity_v = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
+		template<typename T>
+		inline constexpr T max_identity_v = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest();
+
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::max()), [](auto a, auto b) { return min<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(min_identity_v<T>), [](auto a, auto b) { return min<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::lowest()), [](auto a, auto b) { return max<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(max_identity_v<T>), [](auto a, auto b) { return max<T>(a, b); }); }
 
 #ifdef DPM_HAS_SSE2
 		template<typename T, std::size_t N, typename V>
-- 
2.43.0


From 569cbd635a3fc969906ea40a8b35d449989b6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 21/66] fix: minmax does not refer to temporaries and aligns
 both results

---
 dpm/detail/generic/type.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index f5a5498..1810e3e 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1197,27 +1197,29 @@ namespace dpm
 	template<typename T, typename Abi>
 	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result_min = {}, result_max = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b[i]);
-			result[0][i] = min;
-			result[1][i] = max;
+			const T a_value = a[i], b_value = b[i];
+			const auto [min, max] = std::minmax(a_value, b_value);
+			result_min[i] = min;
+			result_max[i] = max;
 		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
+		return {simd<T, Abi>{result_min.data(), vector_aligned}, simd<T, Abi>{result_max.data(), vector_aligned}};
 	}
 	/** Returns a pair of SIMD vectors of minimum and maximum elements of \a a and scalar \a b. */
 	template<typename T, typename Abi>
 	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, T b) noexcept
 	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result_min = {}, result_max = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b);
-			result[0][i] = min;
-			result[1][i] = max;
+			const T a_value = a[i];
+			const auto [min, max] = std::minmax(a_value, b);
+			result_min[i] = min;
+			result_max[i] = max;
 		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
+		return {simd<T, Abi>{result_min.data(), vector_aligned}, simd<T, Abi>{result_max.data(), vector_aligned}};
 	}
 
 	/** Clamps elements of \a x between corresponding elements of \a min and \a max. */
-- 
2.43.0


From 2f50c00996b4308a5e6c182467695953bb77dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 22/66] fix: fmin and fmax of vectors compile

---
 dpm/detail/generic/math.hpp | 2 +-
 dpm/detail/x86/mbase.hpp    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index a730493..a1c789b 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -200,7 +200,7 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::fmin(a[i], b[i]);
+			result[i] = std::fmin(a[i], b);
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 460cffb..5b4d810 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -308,7 +308,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -326,7 +326,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -362,7 +362,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
@@ -380,7 +380,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From 4b9e3e8889fbb5b2286d4aa379434019d1beaec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 23/66] fix: floating-point minimum and maximum select the
 operand that the scalar functions select

---
 dpm/detail/x86/mbase.hpp  |  4 ++--
 dpm/detail/x86/minmax.hpp | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 5b4d810..a036cf3 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -343,7 +343,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a, b);
+			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::max<T>(detail::sub<T>(a, b), detail::setzero<V>()); }, result, a, b);
 			return result;
 		}
 	}
@@ -397,7 +397,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a);
+			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::max<T>(detail::sub<T>(a, b), detail::setzero<V>()); }, result, a);
 			return result;
 		}
 	}
diff --git a/dpm/detail/x86/minmax.hpp b/dpm/detail/x86/minmax.hpp
index 2faa4ad..20f977e 100644
--- a/dpm/detail/x86/minmax.hpp
+++ b/dpm/detail/x86/minmax.hpp
@@ -9,15 +9,15 @@
 namespace dpm::detail
 {
 	template<std::same_as<float> T>
-	[[nodiscard]] DPM_FORCEINLINE __m128 min(__m128 a, __m128 b) noexcept { return _mm_min_ps(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m128 min(__m128 a, __m128 b) noexcept { return _mm_min_ps(b, a); }
 	template<std::same_as<float> T>
-	[[nodiscard]] DPM_FORCEINLINE __m128 max(__m128 a, __m128 b) noexcept { return _mm_max_ps(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m128 max(__m128 a, __m128 b) noexcept { return _mm_max_ps(b, a); }
 
 #ifdef DPM_HAS_SSE2
 	template<std::same_as<double> T>
-	[[nodiscard]] DPM_FORCEINLINE __m128d min(__m128d a, __m128d b) noexcept { return _mm_min_pd(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m128d min(__m128d a, __m128d b) noexcept { return _mm_min_pd(b, a); }
 	template<std::same_as<double> T>
-	[[nodiscard]] DPM_FORCEINLINE __m128d max(__m128d a, __m128d b) noexcept { return _mm_max_pd(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m128d max(__m128d a, __m128d b) noexcept { return _mm_max_pd(b, a); }
 
 	template<unsigned_integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i min(__m128i a, __m128i b) noexcept { return _mm_min_epu8(a, b); }
@@ -50,13 +50,13 @@ namespace dpm::detail
 
 #ifdef DPM_HAS_AVX
 	template<std::same_as<float> T>
-	[[nodiscard]] DPM_FORCEINLINE __m256 min(__m256 a, __m256 b) noexcept { return _mm256_min_ps(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m256 min(__m256 a, __m256 b) noexcept { return _mm256_min_ps(b, a); }
 	template<std::same_as<float> T>
-	[[nodiscard]] DPM_FORCEINLINE __m256 max(__m256 a, __m256 b) noexcept { return _mm256_max_ps(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m256 max(__m256 a, __m256 b) noexcept { return _mm256_max_ps(b, a); }
 	template<std::same_as<double> T>
-	[[nodiscard]] DPM_FORCEINLINE __m256d min(__m256d a, __m256d b) noexcept { return _mm256_min_pd(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m256d min(__m256d a, __m256d b) noexcept { return _mm256_min_pd(b, a); }
 	template<std::same_as<double> T>
-	[[nodiscard]] DPM_FORCEINLINE __m256d max(__m256d a, __m256d b) noexcept { return _mm256_max_pd(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m256d max(__m256d a, __m256d b) noexcept { return _mm256_max_pd(b, a); }
 #endif
 
 #ifdef DPM_HAS_AVX2
-- 
2.43.0


From 637fe6a31ac99a85cf592e18714c24e3712edb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 24/66] fix: 256-bit integer minimum and maximum without AVX2

---
 dpm/detail/x86/minmax.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/minmax.hpp b/dpm/detail/x86/minmax.hpp
index 20f977e..96a4908 100644
--- a/dpm/detail/x86/minmax.hpp
+++ b/dpm/detail/x86/minmax.hpp
@@ -84,6 +84,11 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return _mm256_min_epu32(a, b); }
 	template<unsigned_integral_of_size<4> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return _mm256_max_epu32(a, b); }
+#elif defined(DPM_HAS_AVX)
+	template<std::integral T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<std::integral T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
 #endif
 
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-- 
2.43.0


From c446900c0b1f36f645d8feb7dd692ae90397e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 25/66] fix: right shift by a vector, compound vector shifts
 and generic logical right shifts

---
 dpm/detail/generic/type.hpp | 22 ++++------------------
 dpm/detail/x86/type.hpp     |  2 +-
 2 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 1810e3e..d744575 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -623,22 +623,8 @@ namespace dpm
 			return reduce_impl(buff, binary_op);
 		}
 
-		template<std::size_t N, std::unsigned_integral T>
-		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
-		{
-			if constexpr (T{-1} >> N == T{-1})
-				return (x >> N) & (T{1} << (std::numeric_limits<T>::digits - 1));
-			else
-				return x >> N;
-		}
-		template<std::size_t N, std::signed_integral T>
-		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
-		{
-			if constexpr (T{-1} >> N == T{-1})
-				return lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x));
-			else
-				return x >> N;
-		}
+		template<std::size_t N, std::integral T>
+		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept { return static_cast<T>(static_cast<std::make_unsigned_t<T>>(x) >> N); }
 		template<std::size_t N, typename T>
 		constexpr DPM_FORCEINLINE T asr_impl(T x) noexcept
 		{
@@ -956,10 +942,10 @@ namespace dpm
 	}
 	/** Shifts elements of vector \a a left by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a >> b; }
+	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a << b; }
 	/** Shifts elements of vector \a a right by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a << b; }
+	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a >> b; }
 
 	/** Shifts elements of vector \a a left by \a n. */
 	template<typename T, typename Abi, std::integral I>
diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index ce139ed..552ef50 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1123,7 +1123,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
+			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 		}
 	}
 
-- 
2.43.0


From 86bc0022877fe50666f6bf7fa9275bdfecd5b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 26/66] fix: constant shifts of vectors compile

---
 dpm/detail/x86/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 552ef50..a94bb56 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1303,8 +1303,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsl<N>(packed));
 			}
 			else
 			{
@@ -1319,8 +1319,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsr<N>(packed));
 			}
 			else
 			{
@@ -1336,8 +1336,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asl<N>(packed));
 			}
 			else
 			{
@@ -1352,8 +1352,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asr<N>(packed));
 			}
 			else
 			{
-- 
2.43.0


From 743c1b011cde3cd079595be8e499468b2339fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 27/66] fix: right shifts of vectors of signed integers are
 arithmetic

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index a94bb56..15ae7d3 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1108,11 +1108,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
@@ -1153,11 +1153,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
-- 
2.43.0


From 1ebf27ac4eb3c180328110106d19d8e52008a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 28/66] fix: arithmetic right shift of 64-bit integers by less
 than 32 bits keeps the bits of the upper half

---
 dpm/detail/x86/bitwise.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/bitwise.hpp b/dpm/detail/x86/bitwise.hpp
index f74bc62..0cc2aa5 100644
--- a/dpm/detail/x86/bitwise.hpp
+++ b/dpm/detail/x86/bitwise.hpp
@@ -226,7 +226,7 @@ namespace dpm::detail
 		{
 			xh = _mm_srai_epi32(xh, N);
 			xh = _mm_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm_srli_epi32(xl, N);
+			xl = _mm_srli_epi64(xl, N);
 			xl = _mm_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm_unpacklo_epi32(xl, xh);
@@ -249,7 +249,7 @@ namespace dpm::detail
 		{
 			xh = _mm256_srai_epi32(xh, N);
 			xh = _mm256_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm256_srli_epi32(xl, N);
+			xl = _mm256_srli_epi64(xl, N);
 			xl = _mm256_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm256_unpacklo_epi32(xl, xh);
-- 
2.43.0


From 8325f776e9892ba8a889923b26c4c5b61be33529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 29/66] fix: isnormal is false for NaN

---
 dpm/detail/x86/class.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index d68d270..36d9978 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -27,7 +27,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm_cmpnle_ps(inf, x), _mm_cmpnlt_ps(x, norm_min));
+			return bit_and(_mm_cmplt_ps(x, inf), _mm_cmpge_ps(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 isinf(__m128 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm_cmpnle_pd(inf, x), _mm_cmpnlt_pd(x, norm_min));
+			return bit_and(_mm_cmplt_pd(x, inf), _mm_cmpge_pd(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d isinf(__m128d x) noexcept { return isinf_abs(abs<double>(x)); }
@@ -73,7 +73,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm256_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm256_cmp_ps(inf, x, _CMP_NLE_UQ), _mm256_cmp_ps(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_ps(x, inf, _CMP_LT_OQ), _mm256_cmp_ps(x, norm_min, _CMP_GE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 isinf(__m256 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -92,7 +92,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm256_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm256_cmp_pd(inf, x, _CMP_NLE_UQ), _mm256_cmp_pd(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_pd(x, inf, _CMP_LT_OQ), _mm256_cmp_pd(x, norm_min, _CMP_GE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256d isinf(__m256d x) noexcept { return isinf_abs(abs<double>(x)); }
-- 
2.43.0


From e732ad433cbaaa1c2f214cfe8425fcaccf62f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 30/66] fix: islessgreater is false for equal operands

---
 dpm/detail/x86/class.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 36d9978..44a6e25 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -263,7 +263,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_le<T>(b, a), detail::cmp_ge<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From 3d2605f709c93488ba85d5879bd5ec94e6c6da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 31/66] fix: signbit returns a mask

---
 dpm/detail/x86/class.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 44a6e25..866afaf 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -10,6 +10,14 @@ namespace dpm
 {
 	namespace detail
 	{
+		/* A mask lane is either all-clear or all-set, the sign bit alone is not a valid mask. */
+		template<typename T, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V signbit(V x) noexcept
+		{
+			using I = int_of_size_t<sizeof(T)>;
+			return std::bit_cast<V>(bit_ashiftr<I, sizeof(T) * 8 - 1>(std::bit_cast<select_vector_t<I, sizeof(V)>>(x)));
+		}
+
 		[[nodiscard]] DPM_FORCEINLINE __m128 isinf_abs(__m128 x) noexcept
 		{
 			return _mm_cmpeq_ps(x, _mm_set1_ps(std::numeric_limits<float>::infinity()));
@@ -177,7 +185,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto x) { res = detail::masksign<T>(x); }, result, x);
+			detail::vectorize([](auto &res, auto x) { res = detail::signbit<T>(x); }, result, x);
 			return result;
 		}
 	}
-- 
2.43.0


From b72eb82775ac6706211e6df6929a0af1df870389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 32/66] fix: generic abs compiles

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index a1c789b..421e214 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -32,7 +32,7 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::abs(x[i]);
-		return result;
+		return {result.data(), vector_aligned};
 	}
 	/** @copydoc abs */
 	template<std::floating_point T, typename Abi>
-- 
2.43.0


From 66e53df3700ad705a164acd804bdae4a9c72df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 33/66] fix: frexp gives the exponent of subnormal numbers

---
 dpm/detail/x86/frexp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/frexp.cpp b/dpm/detail/x86/frexp.cpp
index 6b9be4c..26daf16 100644
--- a/dpm/detail/x86/frexp.cpp
+++ b/dpm/detail/x86/frexp.cpp
@@ -20,7 +20,7 @@ namespace dpm::detail
 		const auto is_zero = cmp_eq<T>(x, setzero<V>());
 
 		/* off = is_subn ? mant_bits + 2 : 0 */
-		const auto off = bit_and(is_subn, fill<Vi>(std::numeric_limits<I>::digits));
+		const auto off = bit_and(is_subn, fill<Vi>(mant_bits<I> + 2));
 		auto norm_x = mul<T>(bit_and(std::bit_cast<V>(is_subn), x), fill<V>(exp_mult<T>));
 		norm_x = blendv<T>(x, norm_x, std::bit_cast<V>(is_subn));
 		auto norm_exp = bit_and(std::bit_cast<Vi>(norm_x), fill<Vi>(exp_ones));
-- 
2.43.0


From dad97414464cdcb1741e7e1f8a40844c8c848a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 34/66] fix: ilogb of an infinite double is INT_MAX

---
 dpm/detail/x86/logb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/logb.cpp b/dpm/detail/x86/logb.cpp
index efca565..a25acfd 100644
--- a/dpm/detail/x86/logb.cpp
+++ b/dpm/detail/x86/logb.cpp
@@ -44,7 +44,7 @@ namespace dpm::detail
 		auto y = eval_ilogb<T, I>(abs_x);
 #ifdef DPM_HANDLE_ERRORS
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGB0)), std::bit_cast<decltype(y)>(cmp_eq<T>(abs_x, setzero<V>())));
-		y = blendv<I>(y, fill<decltype(y)>(std::numeric_limits<I>::max()), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
+		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(std::numeric_limits<int>::max())), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
 #endif
 #ifdef DPM_PROPAGATE_NAN
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGBNAN)), std::bit_cast<decltype(y)>(isunord(x, x)));
-- 
2.43.0


From 128de144d2d4b790190c51851aec1b3d14bbd89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 35/66] fix: modf gives the integral part of large numbers and
 of fractions

---
 dpm/detail/x86/modf.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/x86/modf.cpp b/dpm/detail/x86/modf.cpp
index 383d15b..48df9a6 100644
--- a/dpm/detail/x86/modf.cpp
+++ b/dpm/detail/x86/modf.cpp
@@ -27,7 +27,8 @@ namespace dpm::detail
 		const auto fract_ip = bit_and(x, fill<V>(sign_bit<T>));
 		const auto fract_x = x;
 
-		/* mask = -1 >> (exp_bits + 1) >> e */
+		/* mask = -1 >> (exp_bits + 1) >> e, where 0 <= e < mant_bits */
+		e = bit_andnot(std::bit_cast<Vi>(bit_or(int_mask, fract_mask)), e);
 		const auto mask = std::bit_cast<V>(bit_shiftr<I>(bit_shiftr<I, exp_bits<I> + 1>(fill<Vi>(I{-1})), e));
 
 		/* mask_zero = (ix & mask) == 0 */
@@ -39,10 +40,10 @@ namespace dpm::detail
 		const auto x1 = bit_and(x, fill<V>(sign_bit<T>));   /* x1 = x & -0.0 */
 		const auto x2 = bit_andnot(mask, x);                /* x2 = x & ~mask */
 
-		/* i = e < 0 ? x : x & -0.0 */
-		auto i = blendv<T>(x, fract_ip, fract_mask);
-		/* i = ix & mask ? x2 : i */
-		i = blendv<T>(x2, i, mask_zero);
+		/* i = e >= mant_bits || !(ix & mask) ? x : x2 */
+		auto i = blendv<T>(x2, x, bit_or(int_mask, mask_zero));
+		/* i = e < 0 ? x & -0.0 : i */
+		i = blendv<T>(i, fract_ip, fract_mask);
 
 		/* x = mask_zero ? x1 : (x - x2) */
 		auto y = blendv<T>(sub<T>(x, x2), x1, mask_zero);
-- 
2.43.0


From f0d4e0a70973d8874448fb0f5e7a3d1e3385ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 36/66] fix: scalbn and ldexp of 256-bit double vectors apply
 the exponents of their own lanes

---
 dpm/detail/x86/fmanip.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 072768d..8efe0ab 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -128,26 +128,17 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn32(__m256 x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = exp[i + 1];
-			const auto expl = exp[i];
+			const auto exp32 = exp[i];
+			const auto sign = _mm_srai_epi32(exp32, 31);
 			const auto xh = _mm256_castpd256_pd128(_mm256_permute2f128_pd(x, x, 1));
 			const auto xl = _mm256_castpd256_pd128(x);
-			const auto h = scalbn(xh, _mm_unpackhi_epi32(exph, _mm_srai_epi32(exph, 31)));
-			const auto l = scalbn(xl, _mm_unpackhi_epi32(expl, _mm_srai_epi32(expl, 31)));
+			const auto h = scalbn(xh, _mm_unpackhi_epi32(exp32, sign));
+			const auto l = scalbn(xl, _mm_unpacklo_epi32(exp32, sign));
 			return _mm256_set_m128d(h, l);
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m256i *exp, std::size_t i) noexcept
 		{
-#ifdef DPM_HAS_AVX2
-			auto exp64 = exp[i / 2];
-			if (const auto sign = _mm256_srai_epi32(exp64, 31); i % 2)
-				exp64 = _mm256_unpackhi_epi32(exp64, sign);
-			else
-				exp64 = _mm256_unpacklo_epi32(exp64, sign);
-			return scalbn(x, exp64);
-#else
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
-#endif
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
-- 
2.43.0


From 40503da130149dd9b6cc8b1991901e8dd65b7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 37/66] fix: scalbln of float vectors stays inside its operand,
 and exponents beyond the range of int saturate

---
 dpm/detail/x86/fmanip.hpp | 42 ++++++---------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 8efe0ab..95f101e 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -62,14 +62,6 @@ namespace dpm
 			return scalbn(x, exp64);
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i) noexcept
-		{
-			const auto exph = std::bit_cast<__m128>(exp[i * 2 + 1]);
-			const auto expl = std::bit_cast<__m128>(exp[i * 2]);
-			return scalbn(x, std::bit_cast<__m128i>(_mm_shuffle_ps(expl, exph, _MM_SHUFFLE(2, 0, 2, 0))));
-		}
-		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
-
 		[[nodiscard]] vec2_return_t<__m128, __m128> DPM_API_PUBLIC DPM_MATHFUNC modf_f32x4(__m128 x) noexcept;
 		[[nodiscard]] vec2_return_t<__m128d, __m128d> DPM_API_PUBLIC DPM_MATHFUNC modf_f64x2(__m128d x) noexcept;
 
@@ -141,15 +133,6 @@ namespace dpm
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
-		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
-		{
-			const auto exph = cvt_i64_i32(exp[i]);
-			const auto expl = cvt_i64_i32(exp[i]);
-			return scalbn(x, _mm256_set_m128i(exph, expl));
-		}
-		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
-
 		[[nodiscard]] vec2_return_t<__m256, __m256> DPM_API_PUBLIC DPM_MATHFUNC modf_f32x8(__m256 x) noexcept;
 		[[nodiscard]] vec2_return_t<__m256d, __m256d> DPM_API_PUBLIC DPM_MATHFUNC modf_f64x4(__m256d x) noexcept;
 
@@ -234,7 +217,7 @@ namespace dpm
 		}
 	}
 	/** @copydoc ldexp */
-	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long, N, A>
+	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long, N, A> && detail::x86_overload_any<int, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> scalbln(const detail::x86_simd<T, N, A> &x, const detail::x86_simd<long, N, A> &exp) noexcept
 	{
 		if (std::is_constant_evaluated())
@@ -245,18 +228,9 @@ namespace dpm
 		}
 		else
 		{
-			detail::x86_simd <T, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto exp_data = ext::to_native_data(exp);
-			const auto x_data = ext::to_native_data(x);
-			for (std::size_t i = 0; i < ext::native_data_size_v < detail::x86_simd < T, N, A >>; ++i)
-			{
-				if constexpr (sizeof(long) == sizeof(std::int64_t))
-					result_data[i] = detail::scalbn64(x_data[i], exp_data.data(), i);
-				else
-					result_data[i] = detail::scalbn32(x_data[i], exp_data.data(), i);
-			}
-			return result;
+			/* Results saturate way before the limits of `int`. */
+			const auto exp32 = clamp(exp, -detail::max_scalbn<long>, detail::max_scalbn<long>);
+			return scalbn(x, static_cast<detail::x86_simd<int, N, A>>(exp32));
 		}
 	}
 
@@ -355,12 +329,8 @@ namespace dpm
 		}
 		else
 		{
-			using exp_t = int_of_size_t<sizeof(T)>;
-			using exp_vector = detail::select_vector_t<exp_t, sizeof(ext::native_data_type_t < detail::x86_simd < T, N, A >>)>;
-
-			detail::x86_simd <T, N, A> result = {};
-			detail::vectorize([exp = detail::fill<exp_vector>(static_cast<exp_t>(exp))](auto &res, auto x) { res = detail::scalbn(x, exp); }, result, x);
-			return result;
+			/* Results saturate way before the limits of `int`. */
+			return scalbn(x, static_cast<int>(std::clamp(exp, -detail::max_scalbn<long>, detail::max_scalbn<long>)));
 		}
 	}
 #endif
-- 
2.43.0


From babc38809d0cde95f0ce0397405a461acbd8364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 38/66] fix: scalbn and ldexp of a large exponent overflow

---
 dpm/detail/x86/scalbn.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/scalbn.cpp b/dpm/detail/x86/scalbn.cpp
index eaec43e..e419413 100644
--- a/dpm/detail/x86/scalbn.cpp
+++ b/dpm/detail/x86/scalbn.cpp
@@ -36,8 +36,10 @@ namespace dpm::detail
 		norm_exp = add<I>(norm_exp, n);
 
 #ifdef DPM_HANDLE_ERRORS
-		const auto has_overflow = bit_andnot(fwd_mask, bit_or(cmp_gt_l32<I>(n, fill<Vi>(max_scalbn<I>)), cmp_gt_l32<I>(norm_exp, fill<Vi>(exp_mask<I> - 1))));
-		const auto has_underflow = bit_andnot(fwd_mask, bit_or(cmp_gt_l32<I>(fill<Vi>(-max_scalbn<I>), n), cmp_gt_l32<I>(fill<Vi>(-mant_bits<I> - 1), norm_exp)));
+		/* Exponent sum of a large n may wrap around, in which case only n decides. */
+		const auto n_large = cmp_gt_l32<I>(n, fill<Vi>(max_scalbn<I>));
+		const auto has_overflow = bit_andnot(fwd_mask, bit_or(n_large, cmp_gt_l32<I>(norm_exp, fill<Vi>(exp_mask<I> - 1))));
+		const auto has_underflow = bit_andnot(bit_or(fwd_mask, n_large), bit_or(cmp_gt_l32<I>(fill<Vi>(-max_scalbn<I>), n), cmp_gt_l32<I>(fill<Vi>(-mant_bits<I> - 1), norm_exp)));
 #endif
 
 		/* Handle subnormal result for norm_exp <= 0. */
-- 
2.43.0


From ccb7162d70771a3dd069da9bc8fd29e0aef96cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 39/66] fix: generic rint stored its results as long

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 421e214..f34fa42 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -904,7 +904,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> rint(const simd<T, Abi> &x) noexcept
 	{
-		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::rint(x[i]);
 		return {result.data(), vector_aligned};
-- 
2.43.0


From 0da26a5b0376046d87a2863e5e54d505032829eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 40/66] fix: generic lrint did not compile

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index f34fa42..4fae5da 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -916,7 +916,7 @@ namespace dpm
 		rebind_simd_t<long, simd<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::lrint(x[i]);
-		return {result.data(), vector_aligned};
+		return result;
 	}
 	/** Casts elements of vector \a x to `long long` using current rounding mode with exceptions. */
 	template<std::floating_point T, typename Abi>
-- 
2.43.0


From dffb7beb3e46b8e3ef68a0d8f333725ee8de1c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 41/66] fix: rounding functions returned wrong values for
 large, signed-zero, NaN and integer-result lanes

---
 dpm/detail/x86/round.hpp | 483 ++++++++-------------------------------
 1 file changed, 97 insertions(+), 386 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 445c84a..99c6316 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -16,18 +16,20 @@ namespace dpm
 {
 	namespace detail
 	{
-#ifndef DPM_HAS_SSE4_1
-		[[nodiscard]] DPM_FORCEINLINE auto mask_domain([[maybe_unused]] auto x, auto result) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128 trunc(__m128 x) noexcept
 		{
-#ifdef DPMDPM_HANDLE_ERRORS
-			const auto fin_mask = isfinite(x);
-			return bit_or(bit_andnot(fin_mask, x), bit_and(fin_mask, result));
+#if defined(DPM_HAS_SSE4_1)
+			return _mm_round_ps(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+#elif defined(DPM_USE_SVML)
+			return _mm_svml_trunc_ps(x);
 #else
-			return result;
+			/* Values with no fraction bits (and non-finite values) are returned as-is, otherwise the sign of x is preserved. */
+			const auto sign_mask = _mm_set1_ps(-0.0f);
+			const auto small_mask = _mm_cmplt_ps(_mm_andnot_ps(sign_mask, x), _mm_set1_ps(8388608.0f));
+			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
+			return _mm_or_ps(_mm_andnot_ps(small_mask, x), _mm_and_ps(small_mask, _mm_or_ps(tx, _mm_and_ps(sign_mask, x))));
 #endif
 		}
-#endif
-
 		[[nodiscard]] DPM_FORCEINLINE __m128 ceil(__m128 x) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
@@ -35,8 +37,9 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			return mask_domain(x, _mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f))));
+			const auto tx = trunc(x);
+			const auto result = _mm_add_ps(tx, _mm_and_ps(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f)));
+			return _mm_or_ps(result, _mm_and_ps(x, _mm_set1_ps(-0.0f)));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 floor(__m128 x) noexcept
@@ -46,218 +49,101 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			return mask_domain(x, _mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))));
+			const auto tx = trunc(x);
+			return _mm_sub_ps(tx, _mm_and_ps(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f)));
 #endif
 		}
-		[[nodiscard]] DPM_FORCEINLINE __m128 trunc(__m128 x) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128 round(__m128 x) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			return _mm_round_ps(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-#elif defined(DPM_USE_SVML)
-			return _mm_trunc_ps(x);
+#if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
+			return _mm_svml_round_ps(x);
 #else
-			return mask_domain(x, _mm_cvtepi32_ps(_mm_cvttps_epi32(x)));
+			/* Largest value less than 0.5 is used to prevent 0.5 - ulp from being rounded up. */
+			const auto sign = _mm_and_ps(x, _mm_set1_ps(-0.0f));
+			const auto off = _mm_or_ps(sign, _mm_set1_ps(std::bit_cast<float>(0x3effffff)));
+			return trunc(_mm_add_ps(x, off));
 #endif
 		}
-
-		[[nodiscard]] DPM_FORCEINLINE __m128d ceil(__m128d x) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128 rint(__m128 x) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			return _mm_ceil_pd(x);
-#elif defined(DPM_USE_SVML)
-			return _mm_svml_ceil_pd(x);
+#ifdef DPM_HAS_SSE4_1
+			return _mm_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto sign_x = _mm_and_ps(x, _mm_set1_ps(-0.0f));
+			const auto x_offset = _mm_set1_ps(8388608.0f);
+			const auto abs_x = _mm_xor_ps(x, sign_x);
+
+			const auto tmp_mask = _mm_cmpge_ps(abs_x, x_offset);
+			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(abs_x, x_offset), x_offset), sign_x);
+			return _mm_or_ps(_mm_andnot_ps(tmp_mask, tmp), _mm_and_ps(tmp_mask, x));
 #endif
 		}
-		[[nodiscard]] DPM_FORCEINLINE __m128d floor(__m128d x) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128 nearbyint(__m128 x) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			return _mm_floor_pd(x);
-#elif defined(DPM_USE_SVML)
-			return _mm_svml_floor_pd(x);
+#ifdef DPM_HAS_SSE4_1
+			return _mm_round_ps(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto exc = _MM_GET_EXCEPTION_STATE();
+			x = rint(x);
+			_MM_SET_EXCEPTION_STATE(exc);
+			return x;
 #endif
 		}
+
 		[[nodiscard]] DPM_FORCEINLINE __m128d trunc(__m128d x) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
 			return _mm_round_pd(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 #elif defined(DPM_USE_SVML)
-			return _mm_trunc_pd(x);
-#else
-			return trunc_sse2(x);
-#endif
-		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m128 x, __m128i *dst) noexcept { *dst = cvtt<T, float>(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
-			dst[0] = _mm_cvttps_epi64(x);
-#else
-			const auto tmp = cvtt<std::int32_t, float>(x);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
-		{
-			const auto ix = _mm_cvttps_epi32(x);
-			const auto tx = _mm_cvtepi32_ps(ix);
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm_cvttps_epi32(rem));
-		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			auto ih = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
-			auto il = _mm_cvttps_epi64(x);
-			const auto th = _mm_cvtepi64_ps(ih);
-			const auto tl = _mm_cvtepi64_ps(il);
-			const auto tx = _mm_movelh_ps(tl, th);
-
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
-			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
+			return _mm_svml_trunc_pd(x);
 #else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
+			/* Values with no fraction bits (and non-finite values) are returned as-is, otherwise the sign of x is preserved. */
+			const auto sign_mask = _mm_set1_pd(-0.0);
+			const auto small_mask = _mm_cmplt_pd(_mm_andnot_pd(sign_mask, x), _mm_set1_pd(4503599627370496.0));
+			const auto ax = _mm_andnot_pd(sign_mask, x), offset = _mm_set1_pd(4503599627370496.0);
+			const auto ix = _mm_sub_pd(_mm_add_pd(ax, offset), offset);
+			const auto tx = _mm_sub_pd(ix, _mm_and_pd(_mm_cmpgt_pd(ix, ax), _mm_set1_pd(1.0)));
+			return _mm_or_pd(_mm_andnot_pd(small_mask, x), _mm_and_pd(small_mask, _mm_or_pd(tx, _mm_and_pd(sign_mask, x))));
 #endif
 		}
-		template<std::same_as<float> T>
-		inline void round(__m128 x, __m128 *dst) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128d ceil(__m128d x) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128>(_mm_set1_epi32(0x3effffff)));
-			*dst = _mm_round_ps(_mm_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			return _mm_ceil_pd(x);
 #elif defined(DPM_USE_SVML)
-			*dst = _mm_svml_round_ps(x);
-#else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_ps(tx, _mm_cvtepi32_ps(_mm_cvttps_epi32(rem))));
-#endif
-		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept { *dst = _mm_cvtps_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm_cvtps_epi64(_mm_movehl_ps(x, x));
-			dst[0] = _mm_cvtps_epi64(x);
-#else
-			const auto tmp = _mm_cvtps_epi32(x);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
-		template<std::same_as<float> T>
-		inline void rint(__m128 x, __m128 *dst) noexcept
-		{
-#ifdef DPM_HAS_SSE4_1
-			*dst = _mm_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
+			return _mm_svml_ceil_pd(x);
 #else
-			const auto sign_x = _mm_and_ps(x, _mm_set1_ps(-0.0));
-			const auto x_offset = _mm_set1_ps(8388608.0);
-			const auto abs_x = _mm_xor_ps(x, sign_x);
-
-			const auto tmp_mask = _mm_cmpge_ps(abs_x, x_offset);
-			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(abs_x, x_offset), x_offset), sign_x);
-			*dst = _mm_or_ps(_mm_andnot_ps(tmp_mask, tmp), _mm_and_ps(tmp_mask, x));
+			const auto tx = trunc(x);
+			const auto result = _mm_add_pd(tx, _mm_and_pd(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0)));
+			return _mm_or_pd(result, _mm_and_pd(x, _mm_set1_pd(-0.0)));
 #endif
 		}
-
-		[[nodiscard]] DPM_FORCEINLINE __m128 nearbyint(__m128 x) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128d floor(__m128d x) noexcept
 		{
-#ifdef DPM_HAS_SSE4_1
-			return _mm_round_ps(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION);
-#else
-			const auto exc = _MM_GET_EXCEPTION_STATE();
-			rint<float>(x, &x);
-			_MM_SET_EXCEPTION_STATE(exc);
-			return x;
-#endif
-		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m128d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m128d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m128d x, __m128i *dst) noexcept
-		{
-			const auto ix = _mm_cvttpd_epi32(x);
-			const auto tx = _mm_cvtepi32_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm_cvttpd_epi32(rem));
-		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m128d x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ix = _mm_cvttpd_epi64(x);
-			const auto tx = _mm_cvtepi64_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi64(ix, _mm_cvttpd_epi64(rem));
+#if defined(DPM_HAS_SSE4_1)
+			return _mm_floor_pd(x);
+#elif defined(DPM_USE_SVML)
+			return _mm_svml_floor_pd(x);
 #else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto zero = bit_xor(tmp, tmp);
-			dst[0] = _mm_unpacklo_epi32(tmp, zero);
-			dst[1] = _mm_unpackhi_epi32(tmp, zero);
+			const auto tx = trunc(x);
+			return _mm_sub_pd(tx, _mm_and_pd(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0)));
 #endif
 		}
-		template<std::same_as<double> T>
-		inline void round(__m128d x, __m128d *dst) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128d round(__m128d x) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128d>(_mm_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm_round_pd(_mm_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-#elif defined(DPM_USE_SVML)
-			*dst = _mm_svml_round_pd(x);
+#if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
+			return _mm_svml_round_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_pd(tx, _mm_cvtepi32_pd(_mm_cvttpd_epi32(rem))));
+			/* Largest value less than 0.5 is used to prevent 0.5 - ulp from being rounded up. */
+			const auto sign = _mm_and_pd(x, _mm_set1_pd(-0.0));
+			const auto off = _mm_or_pd(sign, _mm_set1_pd(std::bit_cast<double>(0x3fdfffff'ffffffff)));
+			return trunc(_mm_add_pd(x, off));
 #endif
 		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m128d x, __m128i *dst) noexcept { *dst = _mm_cvtpd_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m128d x, __m128i *dst) noexcept { *dst = cvt_f64_i64(x); }
-		template<std::same_as<double> T>
-		inline void rint(__m128d x, __m128d *dst) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128d rint(__m128d x) noexcept
 		{
 #ifdef DPM_HAS_SSE4_1
-			*dst = _mm_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
+			return _mm_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
 			const auto sign_x = _mm_and_pd(x, _mm_set1_pd(-0.0));
 			const auto x_offset = _mm_set1_pd(4503599627370496.0);
@@ -265,17 +151,16 @@ namespace dpm
 
 			const auto tmp_mask = _mm_cmpge_pd(abs_x, x_offset);
 			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_x, x_offset), x_offset), sign_x);
-			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, tmp));
+			return _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
-
 		[[nodiscard]] DPM_FORCEINLINE __m128d nearbyint(__m128d x) noexcept
 		{
 #ifdef DPM_HAS_SSE4_1
 			return _mm_round_pd(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
 			const auto exc = _MM_GET_EXCEPTION_STATE();
-			rint<double>(x, &x);
+			x = rint(x);
 			_MM_SET_EXCEPTION_STATE(exc);
 			return x;
 #endif
@@ -285,163 +170,27 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 ceil(__m256 x) noexcept { return _mm256_ceil_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 floor(__m256 x) noexcept { return _mm256_floor_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 trunc(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC); }
-		[[nodiscard]] DPM_FORCEINLINE __m256 nearbyint(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m256 x, __m256i *dst) noexcept { *dst = cvtt<T, float>(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m256 x, __m256i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			dst[0] = _mm256_cvttps_epi64(x);
-#else
-			const auto tmp = cvtt<std::int32_t, float>(x);
-			const auto sign = _mm256_srai_epi32(tmp, 31);
-			const auto ih = std::bit_cast<__m256>(_mm256_unpackhi_epi32(tmp, sign));
-			const auto il = std::bit_cast<__m256>(_mm256_unpacklo_epi32(tmp, sign));
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
-#endif
-		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
-		{
-			const auto ix = _mm256_cvttps_epi32(x);
-			const auto tx = _mm256_cvtepi32_ps(ix);
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-#ifdef DPM_HAS_AVX2
-			*dst = _mm256_add_epi32(ix, _mm256_cvttps_epi32(rem));
-#else
-			*dst = mux_128x2<__m256i>([](auto i) { return _mm_add_epi32(i); }, _mm256_cvttps_epi32(rem));
-#endif
-		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m256 round(__m256 x) noexcept
 		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ih = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			const auto il = _mm256_cvttps_epi64(x);
-			const auto th = _mm256_cvtepi64_ps(ih);
-			const auto tl = _mm256_cvtepi64_ps(il);
-			const auto tx = _mm256_permute2f128_ps(tl, th, 0x20);
-
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-			dst[1] = _mm256_add_epi64(th, _mm256_cvttps_epi64(_mm256_permute2f128_ps(rem, rem, 0x11)));
-			dst[0] = _mm256_add_epi64(tl, _mm256_cvttps_epi64(rem));
-#else
-			__m256i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = std::bit_cast<__m256>(_mm256_srai_epi32(tmp, 31));
-			const auto ih = _mm256_unpackhi_ps(std::bit_cast<__m256>(tmp), sign);
-			const auto il = _mm256_unpacklo_ps(std::bit_cast<__m256>(tmp), sign);
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
-#endif
-		}
-		template<std::same_as<float> T>
-		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
-		{
-			const auto sign = bit_and(x, _mm256_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256>(_mm256_set1_epi32(0x3effffff)));
-			*dst = _mm256_round_ps(bit_and(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			const auto sign = _mm256_and_ps(x, _mm256_set1_ps(-0.0f));
+			const auto off = _mm256_or_ps(sign, _mm256_set1_ps(std::bit_cast<float>(0x3effffff)));
+			return trunc(_mm256_add_ps(x, off));
 		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m256 x, __m256i *dst) noexcept { *dst = _mm256_cvtps_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m256 x, __m256i *dst) noexcept
-		{
-			const auto tmp = _mm256_cvtps_epi32(x);
-			const auto sign = std::bit_cast<__m256>(_mm256_srai_epi32(tmp, 31));
-			const auto ih = _mm256_unpackhi_ps(std::bit_cast<__m256>(tmp), sign);
-			const auto il = _mm256_unpacklo_ps(std::bit_cast<__m256>(tmp), sign);
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
-		}
-		template<std::same_as<float> T>
-		DPM_FORCEINLINE void rint(__m256 x, __m256 *dst) noexcept { *dst = _mm256_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
+		[[nodiscard]] DPM_FORCEINLINE __m256 rint(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
+		[[nodiscard]] DPM_FORCEINLINE __m256 nearbyint(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
 
 		[[nodiscard]] DPM_FORCEINLINE __m256d ceil(__m256d x) noexcept { return _mm256_ceil_pd(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d floor(__m256d x) noexcept { return _mm256_floor_pd(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d trunc(__m256d x) noexcept { return _mm256_round_pd(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC); }
-		[[nodiscard]] DPM_FORCEINLINE __m256d nearbyint(__m256d x) noexcept { return _mm256_round_pd(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m256i *dst) noexcept { itrunc<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m256i *dst) noexcept { *dst = cvtt<T, double>(x); }
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m256d x, __m128i *dst) noexcept
-		{
-			const auto ix = _mm256_cvttpd_epi32(x);
-			const auto tx = _mm256_cvtepi32_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm256_cvttpd_epi32(rem));
-		}
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m256d x, __m256i *dst) noexcept { round<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m256d x, __m256i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ix = _mm256_cvttpd_epi64(x);
-			const auto tx = _mm256_cvtepi64_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
-			*dst = _mm256_add_epi64(ix, _mm256_cvttpd_epi64(rem));
-#else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			reinterpret_cast<__m128i *>(dst)[0] = _mm_unpacklo_epi32(tmp, sign);
-			reinterpret_cast<__m128i *>(dst)[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
-		template<std::same_as<double> T>
-		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m256d round(__m256d x) noexcept
 		{
-			const auto sign = bit_and(x, _mm256_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256d>(_mm256_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm256_round_pd(_mm256_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			const auto sign = _mm256_and_pd(x, _mm256_set1_pd(-0.0));
+			const auto off = _mm256_or_pd(sign, _mm256_set1_pd(std::bit_cast<double>(0x3fdfffff'ffffffff)));
+			return trunc(_mm256_add_pd(x, off));
 		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m128i *dst) noexcept { *dst = _mm256_cvtpd_epi32(x); }
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m256i *dst) noexcept { rint<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m256i *dst) noexcept { *dst = cvt_f64_i64(x); }
-		template<std::same_as<double> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m256d *dst) noexcept { *dst = _mm256_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
+		[[nodiscard]] DPM_FORCEINLINE __m256d rint(__m256d x) noexcept { return _mm256_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
+		[[nodiscard]] DPM_FORCEINLINE __m256d nearbyint(__m256d x) noexcept { return _mm256_round_pd(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
 #endif
-
-		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256d *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128d *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
-
-		DPM_FORCEINLINE void lround(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llround(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
-
-		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256d *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128d *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
-
-		DPM_FORCEINLINE void lrint(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llrint(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
 	}
 
 	/** Rounds elements of vector \a x to nearest integer not less than the element's value. */
@@ -521,7 +270,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto x) { detail::round<T>(x, &res); }, result, x);
+			detail::vectorize([](auto &res, auto x) { res = detail::round(x); }, result, x);
 			return result;
 		}
 	}
@@ -536,16 +285,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
+			/* Rounded values are integral, conversion is exact for every representable value. */
+			return static_cast<detail::x86_simd<long, N, A>>(round(x));
 		}
 	}
 	/** Casts elements of vector \a x to `long long` rounding away from zero. */
@@ -559,16 +300,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
+			/* Rounded values are integral, conversion is exact for every representable value. */
+			return static_cast<detail::x86_simd<long long, N, A>>(round(x));
 		}
 	}
 
@@ -584,7 +317,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto x) { detail::rint<T>(x, &res); }, result, x);
+			detail::vectorize([](auto &res, auto x) { res = detail::rint(x); }, result, x);
 			return result;
 		}
 	}
@@ -599,16 +332,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
+			/* Rounded values are integral, conversion is exact for every representable value. */
+			return static_cast<detail::x86_simd<long, N, A>>(rint(x));
 		}
 	}
 	/** Casts elements of vector \a x to `long long` using current rounding mode with exceptions. */
@@ -622,16 +347,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
+			/* Rounded values are integral, conversion is exact for every representable value. */
+			return static_cast<detail::x86_simd<long long, N, A>>(rint(x));
 		}
 	}
 
@@ -648,9 +365,7 @@ namespace dpm
 			}
 			else
 			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { res = detail::itrunc<I>(x); }, result, x);
-				return result;
+				return static_cast<detail::x86_simd<I, N, A>>(x);
 			}
 		}
 		/** Casts elements of vector \a x to integer of type \a I rounding away from zero. */
@@ -664,9 +379,7 @@ namespace dpm
 			}
 			else
 			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::round<I>(x, &res); }, result, x);
-				return result;
+				return static_cast<detail::x86_simd<I, N, A>>(round(x));
 			}
 		}
 		/** Casts elements of vector \a x to integer of type \a I using current rounding mode with exceptions. */
@@ -680,9 +393,7 @@ namespace dpm
 			}
 			else
 			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::rint<I>(x, &res); }, result, x);
-				return result;
+				return static_cast<detail::x86_simd<I, N, A>>(rint(x));
 			}
 		}
 	}
-- 
2.43.0


From 4c907f952cfdad8e346d99ed8f5a3a56ab419d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:32 +0000
Subject: [PATCH 42/66] fix: hypot of double vectors distinguishes zero from
 tiny operands and infinity from NaN

---
 dpm/detail/x86/hypot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/hypot.cpp b/dpm/detail/x86/hypot.cpp
index bfd5933..63aa316 100644
--- a/dpm/detail/x86/hypot.cpp
+++ b/dpm/detail/x86/hypot.cpp
@@ -101,7 +101,7 @@ namespace dpm::detail
 		/* hypot(a, b) ~= a + b * b / a / 2 for small a & b */
 		constexpr std::int64_t hypot_small = (65ull << 20) - 1;
 		auto ab_small = std::bit_cast<V>(cmp_gt_l32<std::int64_t>(sub<std::int64_t>(ia, ib), fill<Vi>(hypot_small)));
-		ab_small = bit_or(std::bit_cast<V>(cmp_eq<std::int64_t>(ia, setzero<Vi>())), ab_small);
+		ab_small = bit_or(cmp_eq<T>(b, setzero<V>()), ab_small);
 
 		/* Evaluate result without overflow. Bitwise-and with ~ab_small to ensure no fp exceptions are triggered.  */
 		const auto [hx, lx] = split(bit_andnot(ab_small, mul<T>(a, ab_mult)));
@@ -112,7 +112,7 @@ namespace dpm::detail
 		/* hypot(inf, NaN) = inf */
 		constexpr std::uint64_t inf_mant = 0x7ffull << 20;
 		const auto inf_a = std::bit_cast<V>(cmp_gt<std::int64_t>(ia, fill<Vi>(inf_mant - 1)));
-		const auto inf_b = std::bit_cast<V>(cmp_eq<std::int64_t>(ib, fill<Vi>(inf_mant)));
+		const auto inf_b = cmp_eq<T>(b, fill<V>(std::numeric_limits<T>::infinity())); /* The top 32 bits do not tell inf & NaN apart. */
 
 		auto c1 = blendv<T>(a, b, inf_b);
 		c1 = add<T>(c1, bit_and(b, ab_small));
-- 
2.43.0


From d7a1623ba52b6cb561f35a683738d91a07041de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 43/66] fix: log of zero and log1p of -1 are negative infinity

---
 dpm/detail/x86/exp.hpp   | 4 ++--
 dpm/detail/x86/log1p.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index d456c65..cfc56bc 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -77,9 +77,9 @@ namespace dpm
 			y = blendv<T>(x, y, isfinite_abs(x));
 #endif
 #ifdef DPM_HANDLE_ERRORS
-			/* log(0) == inf + FE_DIVBYZERO */
+			/* log(0) == -inf + FE_DIVBYZERO */
 			const auto zero_mask = cmp_eq<T>(x, setzero<V>());
-			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 			/* log(-x) == NaN + FE_INVALID */
 			const auto minus_mask = cmp_lt<T>(x, setzero<V>());
 			if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index 790cf19..aa58153 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -34,9 +34,9 @@ namespace dpm::detail
 		/* log1p(subnormal x) == x */
 		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(x));
 		y = blendv<T>(y, x, std::bit_cast<V>(cmp_eq<I>(exp, setzero<Vi>())));
-		/* log1p(-1) == inf + FE_DIVBYZERO */
+		/* log1p(-1) == -inf + FE_DIVBYZERO */
 		const auto zero_mask = cmp_eq<T>(x, fill<V>(-one<T>));
-		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 		/* log1p(x < -1) == NaN + FE_INVALID */
 		const auto minus_mask = cmp_lt<T>(x, fill<V>(-one<T>));
 		if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
-- 
2.43.0


From 5bf82825672735f40d9baa04e3992e7b39e891ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 44/66] fix: log1p of negative zero and negative subnormals is
 its argument

---
 dpm/detail/x86/log1p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index aa58153..315823d 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -32,7 +32,7 @@ namespace dpm::detail
 #endif
 #ifdef DPM_HANDLE_ERRORS
 		/* log1p(subnormal x) == x */
-		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(x));
+		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(abs<T>(x)));
 		y = blendv<T>(y, x, std::bit_cast<V>(cmp_eq<I>(exp, setzero<Vi>())));
 		/* log1p(-1) == -inf + FE_DIVBYZERO */
 		const auto zero_mask = cmp_eq<T>(x, fill<V>(-one<T>));
-- 
2.43.0


From 25bc79a2f5a9b5cace4557561466cff62d34c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 45/66] fix: log10 of subnormal float corrects the exponent in
 every lane

---
 dpm/detail/x86/log10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index 077a319..fac5ead 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -19,7 +19,7 @@ namespace dpm::detail
 		{
 			/* Normalize x. */
 			const auto ix_norm = std::bit_cast<Vi>(mul<T>(x, fill<V>(0x1p25f)));
-			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25ull)));
+			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25)));
 			ix = blendv<I>(ix, ix_norm, is_subnorm);
 		}
 
-- 
2.43.0


From 613fb2d14d01c7a769a86a87b9da77e6ecfc8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 46/66] fix: log10 of double normalises subnormals only

---
 dpm/detail/x86/log10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index fac5ead..74dc921 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -49,7 +49,7 @@ namespace dpm::detail
 		auto k = setzero<Vi>();
 
 		const auto top16 = bit_shiftr<I, 48>(ix);
-		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull << 48), top16);
+		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull), top16);
 		if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^54 */
 		{
 			/* Normalize x. */
-- 
2.43.0


From 09cccd2a956a6ad68cb0a21aacfb4002639bf9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 47/66] fix: log and log2 normalise subnormal arguments

---
 dpm/detail/x86/exp.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index cfc56bc..fb6c60a 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -90,12 +90,10 @@ namespace dpm
 		template<std::same_as<float> T, typename V, typename Vi = select_vector_t<std::int32_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7f00'0000;
-			constexpr std::int32_t sub_off = 0x80'0000;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal or not finite. */
-			const auto is_subnorm = cmp_gt<std::int32_t>(sub<std::int32_t>(ix, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			/* x is subnormal or negative. Infinity & NaN are handled by log_excepts. */
+			const auto is_subnorm = cmp_gt<std::int32_t>(fill<Vi>(0x80'0000), ix);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^23 */
 			{
 				/* Normalize x. */
@@ -108,13 +106,11 @@ namespace dpm
 		template<std::same_as<double> T, typename V, typename Vi = select_vector_t<std::int64_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7fe0;
-			constexpr std::int32_t sub_off = 0x10;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal, negative or not finite. */
+			/* x is subnormal or zero. Infinity, NaN & negative x are handled by log_excepts. */
 			const auto top16 = bit_shiftr<std::int64_t, 48>(ix);
-			const auto is_subnorm = cmp_gt_l32<std::int64_t>(sub<std::int64_t>(top16, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			const auto is_subnorm = cmp_gt_l32<std::int64_t>(fill<Vi>(0x10ull), top16);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^52 */
 			{
 				/* Normalize x. */
-- 
2.43.0


From b803d1ee10048c94297e2d45b61000165a292fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 48/66] fix: order of the coefficients of the polynomial of tan
 near zero

---
 dpm/detail/fconst.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 4987658..b23cd25 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -93,7 +93,7 @@ namespace dpm::detail
 	};
 
 	template<std::floating_point T>
-	static constexpr T tancof[] = {T{1.0}, T{3.3333333332780246e-1}, T{1.3333333883976731e-1}, T{5.3966541627173827e-2}, T{2.2079624737833755e-2}};
+	static constexpr T tancof[] = {T{2.2079624737833755e-2}, T{5.3966541627173827e-2}, T{1.3333333883976731e-1}, T{3.3333333332780246e-1}, T{1.0}};
 
 	template<std::floating_point T>
 	static constexpr T asin_r[] = {T{2.967721961301243206100e-3}, T{-5.634242780008963776856e-1}, T{6.968710824104713396794e0}, T{-2.556901049652824852289e1}, T{2.853665548261061424989e1}};
-- 
2.43.0


From 74bc24d4498da4c5d4742fa6944b43c013c94fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 49/66] fix: log1p applies its correction term near zero

---
 dpm/detail/x86/log1p.cpp | 42 ++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index 315823d..b7a928e 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -11,14 +11,12 @@ namespace dpm::detail
 	/* log(1 + x) - log(u) ~= c / u; where u = 1 + x rounded, and c = (1 + x) - u.
 	 * As such, log(1 + x) ~= log(u) + c / u. When c == 0, log(1 + x) is exact.
 	 *
-	 * It is important to avoid underflow in c / u. As such,
-	 * when u is in range [sqrt(2) / 2, sqrt(2)), c == 0.
-	 * Otherwise, let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x3fd;
-	 * if k < 52, c == 1 - (u - x) for k >= 0 and x - (u - 1) for k < 0.
-	 * Otherwise (for k >= 52), c == 0.
+	 * Let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x3ff;
+	 * if k < 54, c == 1 - (u - x) for k >= 2 and x - (u - 1) for k < 2.
+	 * Otherwise (for k >= 54), c / u is negligible and c == 0 avoids its underflow.
 	 *
-	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d,
-	 * and k threshold is 23 instead of 52 (threshold is mantissa bits).
+	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x7f,
+	 * and k threshold is 25 instead of 54.
 	 *
 	 * Use eval_log to calculate log(u), as there is no need for
 	 * normalization since denormal x results in underflow condition. */
@@ -47,23 +45,20 @@ namespace dpm::detail
 	template<std::same_as<float> T, typename V, typename I = std::int32_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0f));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbe95f61a), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d */
+		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x7f */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x4afb0d));
-		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x7d));
+		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x7f));
 
-		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
-		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
+		/* c = k < 2 ? x - (u - 1) : 1 - (u - x) */
+		const auto c_mask = cmp_gt<I>(fill<Vi>(2), k);
 		const auto c0 = sub<T>(fill<V>(1.0f), sub<T>(u, x));
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0f)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 23 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(22)), range_mask);
+		/* c = k >= 25 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(24));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
@@ -76,23 +71,20 @@ namespace dpm::detail
 	template<std::same_as<double> T, typename V, typename I = std::int64_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbfd2bec4ull), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x3fd */
+		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x3ff */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x95f62ull << 32));
-		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x3fdull));
+		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x3ffull));
 
-		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
-		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
+		/* c = k < 2 ? x - (u - 1) : 1 - (u - x) */
+		const auto c_mask = cmp_gt<I>(fill<Vi>(2ull), k);
 		const auto c0 = sub<T>(fill<V>(1.0), sub<T>(u, x));
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 52 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(51ull)), range_mask);
+		/* c = k >= 54 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(53ull));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
-- 
2.43.0


From 890dc3d9bcf59d3d965e34ab8c83efc6fb734437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:00 +0000
Subject: [PATCH 50/66] fix: lerp of vectors compiles

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index a036cf3..72655a4 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -411,7 +411,7 @@ namespace dpm
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
 			const auto packed_f = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(f);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, packed_f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, packed_f));
 		}
 		else
 		{
@@ -428,7 +428,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, f));
 		}
 		else
 		{
-- 
2.43.0


From 9bd36742a78be638fb7b017f4e07d1bd3a9db2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 51/66] fix: abs of integer vectors gives the magnitude

---
 dpm/detail/x86/mbase.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 72655a4..7949f56 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -127,20 +127,30 @@ namespace dpm
 		template<std::integral T, typename V>
 		[[nodiscard]] DPM_FORCEINLINE V abs(V x) noexcept
 		{
-			const auto t = bit_shiftr<T, std::numeric_limits<T>::digits - 1>(x);
-			return sub<T>(bit_xor(x, t), t);
+			if constexpr (std::unsigned_integral<T>)
+				return x;
+			else if constexpr (sizeof(T) == 1)
+			{
+				const auto t = cmp_gt<T>(setzero<V>(), x);
+				return sub<T>(bit_xor(x, t), t);
+			}
+			else
+			{
+				const auto t = bit_ashiftr<T, std::numeric_limits<T>::digits>(x);
+				return sub<T>(bit_xor(x, t), t);
+			}
 		}
 
 #ifdef DPM_HAS_SSSE3
-		template<integral_of_size<1> T>
+		template<signed_integral_of_size<1> T>
 		[[nodiscard]] DPM_FORCEINLINE __m128i abs(__m128i x) noexcept { return _mm_abs_epi8(x); }
-		template<integral_of_size<2> T>
+		template<signed_integral_of_size<2> T>
 		[[nodiscard]] DPM_FORCEINLINE __m128i abs(__m128i x) noexcept { return _mm_abs_epi16(x); }
-		template<integral_of_size<4> T>
+		template<signed_integral_of_size<4> T>
 		[[nodiscard]] DPM_FORCEINLINE __m128i abs(__m128i x) noexcept { return _mm_abs_epi32(x); }
 #endif
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-		template<integral_of_size<8> T>
+		template<signed_integral_of_size<8> T>
 		[[nodiscard]] DPM_FORCEINLINE __m128i abs(__m128i x) noexcept { return _mm_abs_epi64(x); }
 #endif
 #endif
@@ -259,15 +269,15 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256d abs(__m256d x) noexcept { return _mm256_and_pd(x, _mm256_set1_pd(std::bit_cast<T>(0x7fff'ffff'ffff'ffff))); }
 
 #ifdef DPM_HAS_AVX2
-		template<integral_of_size<1> T>
+		template<signed_integral_of_size<1> T>
 		[[nodiscard]] DPM_FORCEINLINE __m256i abs(__m256i x) noexcept { return _mm256_abs_epi8(x); }
-		template<integral_of_size<2> T>
+		template<signed_integral_of_size<2> T>
 		[[nodiscard]] DPM_FORCEINLINE __m256i abs(__m256i x) noexcept { return _mm256_abs_epi16(x); }
-		template<integral_of_size<4> T>
+		template<signed_integral_of_size<4> T>
 		[[nodiscard]] DPM_FORCEINLINE __m256i abs(__m256i x) noexcept { return _mm256_abs_epi32(x); }
 
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-		template<integral_of_size<8> T>
+		template<signed_integral_of_size<8> T>
 		[[nodiscard]] DPM_FORCEINLINE __m256i abs(__m256i x) noexcept { return _mm256_abs_epi64(x); }
 #endif
 #endif
-- 
2.43.0


From 1c5efb376773dd134b2ede6cbc57fb8953bb2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 52/66] fix: fnmsub without FMA keeps the sign of a zero result

---
 dpm/detail/x86/mbase.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 7949f56..f5c0129 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -25,8 +25,8 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128 fnmsub_sse(__m128 a, __m128 b, __m128 c) noexcept
 		{
-			const auto zero = setzero<__m128>();
-			return _mm_sub_ps(zero, fmadd_sse(a, b, c));
+			const auto sign = _mm_set1_ps(-0.0f);
+			return _mm_sub_ps(_mm_xor_ps(_mm_mul_ps(a, b), sign), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 fmadd(__m128 a, __m128 b, __m128 c) noexcept
@@ -82,9 +82,8 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128d fnmsub_sse(__m128d a, __m128d b, __m128d c) noexcept
 		{
-			const auto tmp = _mm_undefined_pd();
-			const auto zero = _mm_xor_pd(tmp, tmp);
-			return _mm_sub_pd(zero, fmadd_sse(a, b, c));
+			const auto sign = _mm_set1_pd(-0.0);
+			return _mm_sub_pd(_mm_xor_pd(_mm_mul_pd(a, b), sign), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d fmadd(__m128d a, __m128d b, __m128d c) noexcept
@@ -170,9 +169,8 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256 fnmsub_avx(__m256 a, __m256 b, __m256 c) noexcept
 		{
-			const auto tmp = _mm256_undefined_ps();
-			const auto zero = _mm256_xor_ps(tmp, tmp);
-			return _mm256_sub_ps(zero, fmadd_avx(a, b, c));
+			const auto sign = _mm256_set1_ps(-0.0f);
+			return _mm256_sub_ps(_mm256_xor_ps(_mm256_mul_ps(a, b), sign), c);
 		}
 
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fmadd_avx(__m256d a, __m256d b, __m256d c) noexcept
@@ -189,9 +187,8 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fnmsub_avx(__m256d a, __m256d b, __m256d c) noexcept
 		{
-			const auto tmp = _mm256_undefined_pd();
-			const auto zero = _mm256_xor_pd(tmp, tmp);
-			return _mm256_sub_pd(zero, fmadd_avx(a, b, c));
+			const auto sign = _mm256_set1_pd(-0.0);
+			return _mm256_sub_pd(_mm256_xor_pd(_mm256_mul_pd(a, b), sign), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 fmadd(__m256 a, __m256 b, __m256 c) noexcept
-- 
2.43.0


From 3e843ee670ed9a6f292ea0b38871df774d4a66c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 53/66] fix: fdim of equal infinities is zero

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index f5c0129..843b6b5 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -350,7 +350,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::max<T>(detail::sub<T>(a, b), detail::setzero<V>()); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a, b);
 			return result;
 		}
 	}
@@ -404,7 +404,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::max<T>(detail::sub<T>(a, b), detail::setzero<V>()); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From 37bfaa7f240ee064c4619e5d6aaad3e68e532bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 54/66] fix: ext::remquo is not ambiguous

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 4fae5da..2f809af 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -276,8 +276,8 @@ namespace dpm
 		/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 		 * at least 3 last bits of the division result in elements of \a quo. Equivalent to the regular `remquo`, except
 		 * that the quotent out parameter is taken by reference. */
-		template<typename T, typename Abi>
-		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, rebind_simd_t<int, simd<T, Abi>> &quo) noexcept { return dpm::remquo(a, b, &quo); }
+		template<typename T, typename Abi, typename QAbi>
+		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> &quo) noexcept { return dpm::remquo(a, b, &quo); }
 		/** Returns a result of fused multiply-add operation on elements of \a a, \a b, and \a c. Equivalent to `a * b + c`. */
 		template<typename T, typename Abi>
 		[[nodiscard]] constexpr simd<T, Abi> fmadd(const simd<T, Abi> &a, const simd<T, Abi> &b, const simd<T, Abi> &c) noexcept { return a * b + c; }
-- 
2.43.0


From e0027ae00fce3248358ee6a42d722c59c8383f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:17 +0000
Subject: [PATCH 55/66] fix: constant-evaluated element access past the first
 native vector

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 15ae7d3..c758a0b 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -169,7 +169,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
@@ -693,7 +693,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
-- 
2.43.0


From 4f1a6fd227c32441e69d7218396ded2063742e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 56/66] fix: constant-evaluated copies of vectors and masks
 from memory

---
 dpm/detail/x86/type.hpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index c758a0b..922334f 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -136,8 +136,11 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd_mask([&](std::size_t i) { return static_cast<value_type>(mem[i]); });
+			else
+				for (std::size_t i = 0; i < size(); ++i)
+					operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -151,8 +154,11 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd_mask([&](std::size_t i) { return m[i] ? static_cast<value_type>(mem[i]) : std::as_const(*this)[i]; });
+			else
+				for (std::size_t i = 0; i < size(); ++i)
+					if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -646,14 +652,19 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags, typename U = std::iter_value_t<I>>
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<U, T>
 		{
+			if (std::is_constant_evaluated())
+			{
+				*this = simd([&](std::size_t i) { return static_cast<T>(mem[i]); });
+				return;
+			}
+
 			std::size_t i = 0;
 			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && detail::native_castable<T, U>)
-				if (!std::is_constant_evaluated())
-				{
-					const U *src = std::to_address(mem);
-					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
-						detail::native_vec_cast<T, U>(_data[j], src + i);
-				}
+			{
+				const U *src = std::to_address(mem);
+				for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
+					detail::native_vec_cast<T, U>(_data[j], src + i);
+			}
 			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
@@ -675,8 +686,11 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd([&](std::size_t i) { return m[i] ? static_cast<value_type>(mem[i]) : std::as_const(*this)[i]; });
+			else
+				for (std::size_t i = 0; i < size(); ++i)
+					if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
-- 
2.43.0


From 7bee11ddd8a5e791ac05a2ce4feeebc1504a73da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:09 +0000
Subject: [PATCH 57/66] fix: constant-evaluated integer multiplication and
 shifts

---
 dpm/detail/x86/type.hpp | 170 +++++++++++++++++++---------------------
 1 file changed, 82 insertions(+), 88 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 922334f..2e1a77b 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -940,45 +940,43 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator*(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4)
+		if constexpr (sizeof(T) == 2 || sizeof(T) == 4)
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2)
+		if constexpr (sizeof(T) == 2)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::mul<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a * packed_b);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::mul<T>(a, b); }, result, a, b);
+				return result;
+			}
+
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a * packed_b);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator*(const detail::x86_simd<T, N, A> &a, T b) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4)
+		if constexpr (sizeof(T) == 2 || sizeof(T) == 4)
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2)
+		if constexpr (sizeof(T) == 2)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::mul<T>(a, b); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed * b);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
+				detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::mul<T>(a, b); }, result, a);
+				return result;
+			}
+
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed * b);
 	}
 
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
@@ -1100,90 +1098,86 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator<<(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
-#elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+#elif defined(DPM_HAS_AVX2)
+		if constexpr (sizeof(T) == 4 || sizeof(T) == 8)
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr (sizeof(T) == 8)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftl<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftl<T>(a, b); }, result, a, b);
+				return result;
+			}
+
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
-#elif defined(DPM_HAS_SSE4_1)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
+		if constexpr (std::unsigned_integral<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
+#elif defined(DPM_HAS_AVX2)
+		if constexpr (std::unsigned_integral<T> && (sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr (std::unsigned_integral<T> && sizeof(T) == 8)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftr<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftr<T>(a, b); }, result, a, b);
+				return result;
+			}
+
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 	}
 
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator<<(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
-#elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+#elif defined(DPM_HAS_AVX2)
+		if constexpr (sizeof(T) == 4 || sizeof(T) == 8)
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr (sizeof(T) == 8)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
-			detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftl<T>(a, n); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed << n);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
+				detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftl<T>(a, n); }, result, a);
+				return result;
+			}
+
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed << n);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
-#elif defined(DPM_HAS_SSE4_1)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
+		if constexpr (std::unsigned_integral<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
+#elif defined(DPM_HAS_AVX2)
+		if constexpr (std::unsigned_integral<T> && (sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr (std::unsigned_integral<T> && sizeof(T) == 8)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
-			detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftr<T>(a, n); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed >> n);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
+				detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftr<T>(a, n); }, result, a);
+				return result;
+			}
+
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed >> n);
 	}
 
 	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
-- 
2.43.0


From 3d70ae0c6fa5b5db3bf5d22b7caed4548a7b5571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:09 +0000
Subject: [PATCH 58/66] fix: reductions of odd numbers of 64-bit integers
 compile with GCC

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 5d34ed9..732cb40 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -207,7 +207,7 @@ namespace dpm::detail
 			return std::bit_cast<V>(_mm_or_pd(_mm_andnot_pd(vm, va), _mm_and_pd(vm, vb)));
 #endif
 		}
-		return va;
+		return a;
 	}
 
 	template<integral_of_size<1> T>
-- 
2.43.0


From 22b6f62820be849292700552fd5da35ea198c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:32 +0000
Subject: [PATCH 59/66] fix: constant-evaluated copysign takes the sign of its
 second operand

---
 dpm/detail/x86/fmanip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 95f101e..c71e46f 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -360,7 +360,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(sign);
 			const auto packed_x = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
 			return static_cast<detail::x86_simd<T, N, A>>(copysign(packed_x, packed_sign));
 		}
-- 
2.43.0


From 741061abae9a435546555f64491c8fd7f27c468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:14 +0000
Subject: [PATCH 60/66] fix: float sine, cosine and tangent without FMA lost
 the low bits of the reduced argument

---
 dpm/detail/fconst.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index b23cd25..3292b98 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -78,6 +78,11 @@ namespace dpm::detail
 
 	template<std::floating_point T>
 	static constexpr T dp_sincos[] = {T{-7.85398125648498535156e-1}, T{-3.77489470793079817668e-8}, T{-2.69515142907905952645e-15}};
+#ifndef DPM_HAS_FMA
+	/* Without a fused multiply-add, the products of the quadrant and the leading terms have to be exact in single precision. */
+	template<>
+	constexpr float dp_sincos<float>[] = {-0.78515625f, -2.4187564849853515625e-4f, -3.77489497744594108e-8f};
+#endif
 
 	template<std::floating_point T>
 	static constexpr T sincof[] = {
-- 
2.43.0


From 94a1f003bce4f9bed5947db4025ad363a4df56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:22 +0000
Subject: [PATCH 61/66] fix: log2 of double looks its table up with the offset
 the table was made for

---
 dpm/detail/x86/log2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/log2.cpp b/dpm/detail/x86/log2.cpp
index dc71893..a7619a4 100644
--- a/dpm/detail/x86/log2.cpp
+++ b/dpm/detail/x86/log2.cpp
@@ -48,12 +48,12 @@ namespace dpm::detail
 		auto ix = log_normalize<T>(x);
 
 		/* Load invc & logc constants from the lookup table. */
-		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'9009'0000'0000));
+		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'0000'0000'0000));
 		auto i = bit_shiftr<I, 52 - log2tab_bits_f64>(tmp);
 		i = bit_and(i, fill<Vi>((1 << log2tab_bits_f64) - 1));
 		const auto [invc, logc] = log_get_table<V>(i, log2tab_v<T>, DPM_SOURCE_LOC_CURRENT);
 
-		/* x = 2^k z; where z is in range [0x3fe6'9009'0000'0000, 2 * 0x3fe6'9009'0000'0000] and exact.  */
+		/* x = 2^k z; where z is in range [0x3fe6'0000'0000'0000, 2 * 0x3fe6'0000'0000'0000] and exact.  */
 		const auto k = bit_ashiftr<I, 52>(tmp);
 		const auto z = std::bit_cast<V>(sub<I>(ix, bit_and(tmp, fill<Vi>(0xfffull << 52))));
 
-- 
2.43.0


From 22b4171f07c19156ad21fad48f19c89e7adede6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:22 +0000
Subject: [PATCH 62/66] fix: tan of small doubles is only accurate to about ten
 digits

---
 dpm/detail/fconst.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 3292b98..bd3a17d 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -99,6 +99,12 @@ namespace dpm::detail
 
 	template<std::floating_point T>
 	static constexpr T tancof[] = {T{2.2079624737833755e-2}, T{5.3966541627173827e-2}, T{1.3333333883976731e-1}, T{3.3333333332780246e-1}, T{1.0}};
+	/* Double precision needs the Taylor series up to x^15 for |x| < Pi / 32. */
+	template<>
+	constexpr double tancof<double>[] = {
+			929569.0 / 638512875.0, 21844.0 / 6081075.0, 1382.0 / 155925.0, 62.0 / 2835.0,
+			17.0 / 315.0, 2.0 / 15.0, 1.0 / 3.0, 1.0
+	};
 
 	template<std::floating_point T>
 	static constexpr T asin_r[] = {T{2.967721961301243206100e-3}, T{-5.634242780008963776856e-1}, T{6.968710824104713396794e0}, T{-2.556901049652824852289e1}, T{2.853665548261061424989e1}};
-- 
2.43.0


From ab465fe65414b598bff40600c3d56c743507be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:22 +0000
Subject: [PATCH 63/66] fix: sine, cosine and tangent of large arguments are
 reduced by the C library

---
 dpm/detail/fconst.hpp     | 9 +++++++++
 dpm/detail/x86/sincos.cpp | 2 +-
 dpm/detail/x86/tan.cpp    | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index bd3a17d..bfe0841 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -84,6 +84,15 @@ namespace dpm::detail
 	constexpr float dp_sincos<float>[] = {-0.78515625f, -2.4187564849853515625e-4f, -3.77489497744594108e-8f};
 #endif
 
+	/* Largest argument for which the products of the quadrant and the leading terms of dp_sincos are accurate. */
+#ifdef DPM_HAS_FMA
+	template<std::floating_point T>
+	static constexpr T max_sincos = std::same_as<T, float> ? T{0x1p22} : T{0x1p47};
+#else
+	template<std::floating_point T>
+	static constexpr T max_sincos = std::same_as<T, float> ? T{0x1p13} : T{0x1p30};
+#endif
+
 	template<std::floating_point T>
 	static constexpr T sincof[] = {
 			T{1.58962301576546568060e-10}, T{-2.50507477628578072866e-8},
diff --git a/dpm/detail/x86/sincos.cpp b/dpm/detail/x86/sincos.cpp
index 861eff7..4ae3eca 100644
--- a/dpm/detail/x86/sincos.cpp
+++ b/dpm/detail/x86/sincos.cpp
@@ -25,7 +25,7 @@ namespace dpm::detail
 #endif
 
 		/* Check for over & underflow conditions. */
-		const auto oflow_mask = cvt_has_overflow<I>(abs_x);
+		const auto oflow_mask = cmp_gt<T>(abs_x, fill<V>(max_sincos<T>));
 		/* Handle exceptional cases later. */
 		auto y = eval_sincos<T, Op>(sign_x, bit_andnot(oflow_mask, abs_x));
 
diff --git a/dpm/detail/x86/tan.cpp b/dpm/detail/x86/tan.cpp
index b2c05c8..c5a99d9 100644
--- a/dpm/detail/x86/tan.cpp
+++ b/dpm/detail/x86/tan.cpp
@@ -45,7 +45,7 @@ namespace dpm::detail
 		auto y = blendv<T>(p1, p2, p_mask);
 
 		/* Handle exceptional cases. */
-		if (const auto m = movemask<I>(cvt_has_overflow<I>(abs_x)); m) [[unlikely]]
+		if (const auto m = movemask<I>(cmp_gt<T>(abs_x, fill<V>(max_sincos<T>))); m) [[unlikely]]
 		{
 			constexpr auto special = [](T &y, T x) { y = std::tan(x); };
 			mask_invoke<T, V, T &, T>(special, m, y, x);
-- 
2.43.0


From 0935c9d7b078ff83d35b190f8a077f29eb8c3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:38 +0000
Subject: [PATCH 64/66] fix: sincos compiles with compilers that have
 __builtin_sincos

---
 dpm/detail/generic/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 2f809af..eb58453 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -662,7 +662,7 @@ namespace dpm
 					if constexpr (std::same_as<T, float>)
 					{
 #if __has_builtin(__builtin_sincosf)
-						__builtin_sincosf(x, &sin, &cos);
+						__builtin_sincosf(x[i], &sin, &cos);
 #else
 						::sincosf(x[i], &sin, &cos);
 #endif
@@ -670,7 +670,7 @@ namespace dpm
 					else if constexpr (std::same_as<T, long double>)
 					{
 #if __has_builtin(__builtin_sincosl)
-						__builtin_sincosl(x, &sin, &cos);
+						__builtin_sincosl(x[i], &sin, &cos);
 #else
 						::sincosl(x[i], &sin, &cos);
 #endif
@@ -678,7 +678,7 @@ namespace dpm
 					else
 					{
 #if __has_builtin(__builtin_sincos)
-						__builtin_sincos(x, &sin, &cos);
+						__builtin_sincos(x[i], &sin, &cos);
 #else
 						::sincos(x[i], &sin, &cos);
 #endif
-- 
2.43.0


From 15a101879ce101f843cb3829db9ce4283f402b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:15 +0000
Subject: [PATCH 65/66] fix: cpuid reads subleaf 0 of the extended feature
 flags

The subleaf register was left as it happened to be, so AVX2 and AVX-512 were reported as missing on processors that have them.
---
 dpm/detail/x86/cpuid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 8b1a053..c37bb21 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -41,7 +41,7 @@ namespace dpm
 #if defined(_MSC_VER) || defined(__CYGWIN__)
 		static DPM_FORCEINLINE void platform_cpuid(std::uint32_t leaf, cpuid_regs &regs) noexcept
 		{
-			__cpuid(reinterpret_cast<int *>(regs), static_cast<int>(leaf));
+			__cpuidex(reinterpret_cast<int *>(regs), static_cast<int>(leaf), 0);
 		}
 		static DPM_FORCEINLINE std::uint32_t platrofm_xcr0() noexcept
 		{
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			__asm("xchgq  %%rbx,%q1\n\tcpuid\n\txchgq  %%rbx,%q1"
 					: "=a"(regs[0]), "=r" (regs[1]), "=c"(regs[2]), "=d"(regs[3])
-					: "0"(leaf));
+					: "0"(leaf), "2"(0));
 		}
 		static std::uint32_t DPM_FORCEINLINE platrofm_xcr0() noexcept
 		{
-- 
2.43.0


From aaaf1fa94ce83b181b85a4da1ed4c6f32e524208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:29 +0000
Subject: [PATCH 66/66] fix: cpuid does not report AVX when the system does not
 save its registers

F16C was not masked by XCR0, and nothing of AVX was when XSAVE is off.
---
 dpm/detail/x86/cpuid.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index c37bb21..0fc05e2 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -122,6 +122,7 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, avx_bit, avx_mask);
 				detail::mask_bit(m_flags_l7_ebx, avx2_bit, avx_mask);
 				detail::mask_bit(m_flags_l1_ecx, fma_bit, avx_mask);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, avx_mask);
 
 #ifdef __APPLE__
 				const bool avx512_mask = get_sysctl("hw.optional.avx512f"sv);
@@ -218,6 +219,17 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, ssse3_bit, ssse3_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_1_bit, sse4_1_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_2_bit, sse4_2_mask);
+
+				/* AVX state can only be enabled via XSAVE. */
+				detail::mask_bit(m_flags_l1_ecx, avx_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx2_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, fma_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512f_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512cd_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512bw_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512dq_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512vl_bit, false);
 			}
 		}
 
-- 
2.43.0

