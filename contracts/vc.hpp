// Contract vocabulary: ghost inputs, requires, ensures. Compiled twice: by clang to IR for the verifier
// (irvc), and by g++ natively (rt/vc_rt.cpp) to replay a counterexample against the real code.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cfloat>
#include <climits>
#include <cmath>
#include <concepts>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <ranges>
#include <span>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <immintrin.h>
#ifdef __clang__
#define VC_IRVC 1
// dpm selects its GCC code paths (the ones the shipped build compiles) when __clang__ is absent
#undef __clang__
#endif
#ifdef VC_IRVC
#define _mm_cvtsi128_si64x _mm_cvtsi128_si64 // GCC spelling of the same intrinsic
#endif
#include <dpm/simd.hpp>
#ifdef VC_IRVC
// GCC has these builtins and dpm then calls them; clang 18 has not, and their meaning is that of the library functions
#undef __has_builtin
#define __has_builtin(x) vc_has_##x
#define vc_has___builtin_sincosf 1
#define vc_has___builtin_sincos 1
#define vc_has___builtin_sincosl 1
#define __builtin_sincosf(x, s, c) ::sincosf(x, s, c)
#define __builtin_sincos(x, s, c) ::sincos(x, s, c)
#define __builtin_sincosl(x, s, c) ::sincosl(x, s, c)
#endif
#include <dpm/math.hpp>

extern "C" {
uint8_t vc_any8(const char *); uint16_t vc_any16(const char *); uint32_t vc_any32(const char *); uint64_t vc_any64(const char *);
void vc_assume(bool); void vc_assert(bool, const char *); void vc_cover(const char *); void vc_rounding(uint8_t); // sets an arbitrary rounding direction
void *vc_alloc(size_t size, size_t align, const char *name);
bool vc_same32(uint32_t, uint32_t); bool vc_same64(uint64_t, uint64_t);   // equal bits, or both NaN
// r is a sum (mul: product), in some order, in which each of x[0..n) occurs exactly once and nothing else does
bool vc_fold32(uint32_t mul, uint32_t r, const uint32_t *x, size_t n); bool vc_fold64(uint64_t mul, uint64_t r, const uint64_t *x, size_t n);
}

namespace vc {
using namespace dpm;
using i8 = int8_t; using u8 = uint8_t; using i16 = int16_t; using u16 = uint16_t; using i32 = int32_t; using u32 = uint32_t; using i64 = int64_t; using u64 = uint64_t; using f32 = float; using f64 = double;
template<size_t S> struct bits_; template<> struct bits_<1> { using type = u8; }; template<> struct bits_<2> { using type = u16; }; template<> struct bits_<4> { using type = u32; }; template<> struct bits_<8> { using type = u64; };
template<class T> using bits_t = typename bits_<sizeof(T)>::type;

template<class T> inline bits_t<T> bits(T x) { return std::bit_cast<bits_t<T>>(x); }
template<class T> inline T any(const char *n) {
	if constexpr (std::same_as<T, bool>) return vc_any8(n) & 1;
	else if constexpr (sizeof(T) == 1) return std::bit_cast<T>(vc_any8(n));
	else if constexpr (sizeof(T) == 2) return std::bit_cast<T>(vc_any16(n));
	else if constexpr (sizeof(T) == 4) return std::bit_cast<T>(vc_any32(n));
	else return std::bit_cast<T>(vc_any64(n));
}
/** Same value: same bits, except that any NaN equals any NaN. */
template<class T> inline bool same(T a, T b) {
	if constexpr (std::same_as<T, float>) return vc_same32(bits(a), bits(b));
	else if constexpr (std::same_as<T, double>) return vc_same64(bits(a), bits(b));
	else return a == b;
}
template<class T> inline bool isnan_(T x) { if constexpr (std::floating_point<T>) return x != x; else return false; }

/** 2^digits of an integer type, the first value above its range. */
template<class T, class I> inline constexpr T above = (T)((u64)1 << (std::numeric_limits<I>::digits - 1)) * 2;

// ABIs under contract ------------------------------------------------------------------------------------------
#ifdef __AVX__
inline constexpr size_t native_bytes = 32;
#else
inline constexpr size_t native_bytes = 16;
#endif
template<class T> using v128 = simd_abi::ext::aligned_vector<16 / sizeof(T), 16>;
template<class T> using v256 = simd_abi::ext::aligned_vector<32 / sizeof(T), 32>;
template<class T> using pad = simd_abi::fixed_size<sizeof(T) <= 2 ? 5 : 3>;
template<class T> using multi = simd_abi::fixed_size<native_bytes / sizeof(T) + 3>;
template<class T> using a16 = simd_abi::ext::aligned_vector<16 / sizeof(T) + (sizeof(T) == 8 ? 1 : 3), 16>;
template<class T> using w256 = simd_abi::fixed_size<32 / sizeof(T) - 1>;
template<class T> using gen = simd_abi::ext::packed_buffer<3>;
template<class T> using scal = simd_abi::scalar;
// every width of one register (ABI group `widths`)
#define VC_F(n) template<class T> using fx##n = simd_abi::fixed_size<n>;
VC_F(1) VC_F(2) VC_F(3) VC_F(4) VC_F(5) VC_F(6) VC_F(7) VC_F(8) VC_F(9) VC_F(10) VC_F(11) VC_F(12) VC_F(13) VC_F(14) VC_F(15) VC_F(16)
VC_F(17) VC_F(18) VC_F(19) VC_F(20) VC_F(21) VC_F(22) VC_F(23) VC_F(24) VC_F(25) VC_F(26) VC_F(27) VC_F(28) VC_F(29) VC_F(30) VC_F(31) VC_F(32)

// Storage view ---------------------------------------------------------------------------------------------------
template<class V> struct vt; template<class T, class A> struct vt<simd<T, A>> { using elem = T; using abi = A; using mask = simd_mask<T, A>; static constexpr bool is_mask = false; };
template<class T, class A> struct vt<simd_mask<T, A>> { using elem = T; using abi = A; using mask = simd_mask<T, A>; static constexpr bool is_mask = true; };
template<class V> using elem_t = typename vt<V>::elem;
template<class V> inline constexpr size_t width = vt<V>::abi::size;
template<class V> using span_t = decltype(ext::to_native_data(std::declval<V &>()));
template<class V> inline constexpr size_t store_bytes = span_t<V>::extent * sizeof(typename span_t<V>::element_type);
template<class V> inline constexpr bool is_generic = sizeof(typename span_t<V>::element_type) <= 8;
/** Number of element slots in the storage, padding lanes included. */
template<class V> inline constexpr size_t slots = store_bytes<V> / (vt<V>::is_mask && is_generic<V> ? 1 : sizeof(elem_t<V>));

template<class V> inline void raw_in(V &v, const void *p) { auto s = ext::to_native_data(v); std::memcpy((void *)s.data(), p, store_bytes<V>); }
template<class V> inline void raw_out(const V &v, void *p) { auto s = ext::to_native_data(v); std::memcpy(p, (const void *)s.data(), store_bytes<V>); }

/** Arbitrary vector: every slot (padding included) unconstrained. */
template<class V> struct in {
	using T = elem_t<V>;
	T x[slots<V>]; V v;
	explicit in(const char *n) { for (size_t i = 0; i < slots<V>; ++i) x[i] = any<T>(n); raw_in(v, x); }
	T operator[](size_t i) const { return x[i]; }
	/** Frame condition: the operand was not written. */
	void unchanged(const char *label = "operand unchanged") const { T y[slots<V>]; raw_out(v, y); bool ok = true; for (size_t i = 0; i < width<V>; ++i) ok &= bits(x[i]) == bits(y[i]); vc_assert(ok, label); }
};
/** Mask whose slots each hold false (all bits clear) or true (all bits set). Padding slots are arbitrary masks too. */
template<class M> struct min_ {
	using T = elem_t<M>;
	bool b[slots<M>]; M v;
	explicit min_(const char *n) {
		for (size_t i = 0; i < slots<M>; ++i) b[i] = any<bool>(n);
		if constexpr (is_generic<M>) raw_in(v, b);
		else { bits_t<T> r[slots<M>]; for (size_t i = 0; i < slots<M>; ++i) r[i] = (bits_t<T>)-(bits_t<T>)b[i]; raw_in(v, r); }
	}
	bool operator[](size_t i) const { return b[i]; }
	void unchanged(const char *label = "mask operand unchanged") const {
		if constexpr (is_generic<M>) { u8 t[slots<M>]; raw_out(v, t); bool ok = true; for (size_t i = 0; i < width<M>; ++i) ok &= t[i] == (u8)b[i]; vc_assert(ok, label); }
		else { bits_t<T> r[slots<M>]; raw_out(v, r); bool ok = true; for (size_t i = 0; i < width<M>; ++i) ok &= r[i] == (bits_t<T>)-(bits_t<T>)b[i]; vc_assert(ok, label); }
	}
};
template<class V> struct out {
	using T = elem_t<V>; T x[slots<V>];
	explicit out(const V &v) { raw_out(v, x); }
	T operator[](size_t i) const { return x[i]; }
};
/** Reads a result mask and checks the representation invariant: a lane is all-clear or all-set. */
template<class M> struct mout {
	using T = elem_t<M>; bits_t<T> r[slots<M>]; bool b8[slots<M>];
	explicit mout(const M &m) {
		if constexpr (is_generic<M>) { u8 t[slots<M>]; raw_out(m, t); for (size_t i = 0; i < width<M>; ++i) r[i] = t[i]; }
		else raw_out(m, r);
	}
	bool is(size_t i, bool e) const { if constexpr (is_generic<M>) return r[i] == (bits_t<T>)e; else return r[i] == (bits_t<T>)-(bits_t<T>)e; }
	/** Truth value only (any set bit). */
	bool truth(size_t i) const { return r[i] != 0; }
};
template<class T> inline void lane(T got, T want, const char *label = "lane result") { vc_assert(same(got, want), label); }

template<class V, class F> inline void ensures_lanes(const V &v, F f, const char *label) { out<V> o(v); for (size_t i = 0; i < width<V>; ++i) vc_assert(same<elem_t<V>>(o[i], f(i)), label); vc_cover(label); }
template<class M, class F> inline void ensures_mask(const M &m, F f, const char *label) { mout<M> o(m); for (size_t i = 0; i < width<M>; ++i) vc_assert(o.is(i, f(i)), label); vc_cover(label); }

// Wrap-around scalar reference operations --------------------------------------------------------------------------
template<class T> inline T s_add(T a, T b) { if constexpr (std::integral<T>) return (T)(bits_t<T>)((u64)a + (u64)b); else return a + b; }
template<class T> inline T s_sub(T a, T b) { if constexpr (std::integral<T>) return (T)(bits_t<T>)((u64)a - (u64)b); else return a - b; }
template<class T> inline T s_mul(T a, T b) { if constexpr (std::integral<T>) return (T)(bits_t<T>)((u64)a * (u64)b); else return a * b; }
template<class T> inline T s_neg(T a) { if constexpr (std::integral<T>) return (T)(bits_t<T>)(0 - (u64)a); else return -a; }
}
using namespace vc;
