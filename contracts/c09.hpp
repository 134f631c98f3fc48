// C09  Horizontal reductions combine every lane exactly once
#include "vc.hpp"
namespace C09 {
template<class V> inline bool is_sum(elem_t<V> r, const in<V> &a, bool mul = false) {
	bits_t<elem_t<V>> b[width<V>]; for (size_t i = 0; i < width<V>; ++i) b[i] = bits(a[i]);
	if constexpr (sizeof(elem_t<V>) == 4) return vc_fold32(mul, bits(r), b, width<V>); else return vc_fold64(mul, bits(r), b, width<V>);
}
template<class V, class F> inline elem_t<V> fold(const in<V> &a, F f) { auto r = a[0]; for (size_t i = 1; i < width<V>; ++i) r = (elem_t<V>)f(r, a[i]); return r; }

//@ add_ all any
//@ add_ all widths
template<class T, class A> void add_() { using V = simd<T, A>; in<V> a("a"); T r = reduce(a.v); T r2 = reduce(a.v, std::plus<>{}); T r3 = reduce(a.v, std::plus<T>{}); a.unchanged();
	if constexpr (std::integral<T>) { T e = fold(a, s_add<T>); vc_assert(r == e && r2 == e && r3 == e, "sum of every lane"); } else vc_assert(is_sum(r, a) && is_sum(r2, a) && is_sum(r3, a), "sum of every lane"); vc_cover("add"); }
//@ mul_ all any
//@ mul_ i16,f32,f64 widths
template<class T, class A> void mul_() { using V = simd<T, A>; in<V> a("a"); T r = reduce(a.v, std::multiplies<>{}); a.unchanged();
	if constexpr (std::integral<T>) vc_assert(r == fold(a, s_mul<T>), "product of every lane"); else vc_assert(is_sum(r, a, true), "product of every lane"); vc_cover("mul"); }
//@ bit_ int any
//@ bit_ sint widths
template<class T, class A> void bit_() { using V = simd<T, A>; in<V> a("a"); T x = reduce(a.v, std::bit_and<>{}), y = reduce(a.v, std::bit_or<>{}), z = reduce(a.v, std::bit_xor<>{}); a.unchanged();
	vc_assert(x == fold(a, [](T p, T q) { return p & q; }), "bitwise and of every lane"); vc_assert(y == fold(a, [](T p, T q) { return p | q; }), "bitwise or of every lane"); vc_assert(z == fold(a, [](T p, T q) { return p ^ q; }), "bitwise xor of every lane"); vc_cover("bit"); }
// an operation the library does not know
struct other { template<class X> auto operator()(X a, X b) const { return a ^ b; } };
struct otherf { template<class X> auto operator()(X a, X b) const { return a + b; } };
//@ custom all any
template<class T, class A> void custom() { using V = simd<T, A>; in<V> a("a"); if constexpr (std::integral<T>) { T r = reduce(a.v, other{}); vc_assert(r == fold(a, [](T p, T q) { return p ^ q; }), "user operation over every lane"); } else { T r = reduce(a.v, otherf{}); vc_assert(is_sum(r, a), "user operation over every lane"); } a.unchanged(); vc_cover("custom"); }
template<class V> inline void minmax_(bool mx) { using T = elem_t<V>; in<V> a("a"); if constexpr (std::floating_point<T>) for (size_t i = 0; i < width<V>; ++i) vc_assume(a[i] == a[i]);
	T r = mx ? reduce_max(a.v) : reduce_min(a.v); a.unchanged(); bool isl = false; for (size_t i = 0; i < width<V>; ++i) { isl |= bits(a[i]) == bits(r); vc_assert(mx ? a[i] <= r : r <= a[i], mx ? "no lane is larger" : "no lane is smaller"); }
	vc_assert(isl, "the result is a lane"); vc_cover("minmax"); }
//@ min_ all any
//@ min_ all widths
template<class T, class A> void min_() { minmax_<simd<T, A>>(false); }
//@ max_ all any
//@ max_ all widths
template<class T, class A> void max_() { minmax_<simd<T, A>>(true); }
}
