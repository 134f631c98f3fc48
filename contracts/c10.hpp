// C10  Minimum, maximum and clamp select the right operand in every lane
#include "vc.hpp"
namespace C10 {
template<class T> inline bool eq(T a, T b) { return bits(a) == bits(b); }
/** Floating-point minmax: equal operands (+0, -0) may be told apart either way, unordered operands give operands. */
template<class T> inline bool is_min(T r, T a, T b) { if constexpr (std::integral<T>) return r == (b < a ? b : a); else if (a == b || a != a || b != b) return eq(r, a) || eq(r, b); else return eq(r, b < a ? b : a); }
template<class T> inline bool is_max(T r, T a, T b) { if constexpr (std::integral<T>) return r == (a < b ? b : a); else if (a == b || a != a || b != b) return eq(r, a) || eq(r, b); else return eq(r, a < b ? b : a); }
/** The number where exactly one operand is a NaN, a NaN where both are. */
template<class T> inline bool is_fmin(T r, T a, T b) { return a != a ? (b != b ? r != r : eq(r, b)) : b != b ? eq(r, a) : (a == b ? r == a : eq(r, b < a ? b : a)); }
template<class T> inline bool is_fmax(T r, T a, T b) { return a != a ? (b != b ? r != r : eq(r, b)) : b != b ? eq(r, a) : (a == b ? r == a : eq(r, a < b ? b : a)); }
//@ min_ all any
//@ min_ sint,f32 widths
template<class T, class A> void min_() { using V = simd<T, A>; in<V> a("a"), b("b"); V r = min(a.v, b.v); a.unchanged(); b.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(eq(o[i], b[i] < a[i] ? b[i] : a[i]), "min: lane"); vc_cover("min"); }
//@ max_ all any
//@ max_ sint,f32 widths
template<class T, class A> void max_() { using V = simd<T, A>; in<V> a("a"), b("b"); V r = max(a.v, b.v); a.unchanged(); b.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(eq(o[i], a[i] < b[i] ? b[i] : a[i]), "max: lane"); vc_cover("max"); }
//@ min_s all any
template<class T, class A> void min_s() { using V = simd<T, A>; in<V> a("a"); T b = any<T>("b"); V r = min(a.v, b); a.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(eq(o[i], b < a[i] ? b : a[i]), "min with scalar: lane"); vc_cover("min"); }
//@ max_s all any
template<class T, class A> void max_s() { using V = simd<T, A>; in<V> a("a"); T b = any<T>("b"); V r = max(a.v, b); a.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(eq(o[i], a[i] < b ? b : a[i]), "max with scalar: lane"); vc_cover("max"); }
//@ minmax_ all any
template<class T, class A> void minmax_() { using V = simd<T, A>; in<V> a("a"), b("b"); auto r = minmax(a.v, b.v); a.unchanged(); b.unchanged();
	out<V> l(r.first), h(r.second); for (size_t i = 0; i < width<V>; ++i) { vc_assert(is_min(l[i], a[i], b[i]), "minmax: smaller"); vc_assert(is_max(h[i], a[i], b[i]), "minmax: larger"); } vc_cover("minmax"); }
//@ minmax_s all any
template<class T, class A> void minmax_s() { using V = simd<T, A>; in<V> a("a"); T b = any<T>("b"); auto r = minmax(a.v, b); a.unchanged();
	out<V> l(r.first), h(r.second); for (size_t i = 0; i < width<V>; ++i) { vc_assert(is_min(l[i], a[i], b), "minmax with scalar: smaller"); vc_assert(is_max(h[i], a[i], b), "minmax with scalar: larger"); } vc_cover("minmax"); }
// Requires lo <= hi; a NaN element comes back unchanged.
//@ clamp_ all any
template<class T, class A> void clamp_() { using V = simd<T, A>; in<V> a("a"), lo("lo"), hi("hi"); for (size_t i = 0; i < width<V>; ++i) vc_assume(lo[i] <= hi[i]);
	V r = clamp(a.v, lo.v, hi.v); a.unchanged(); lo.unchanged(); hi.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(eq(o[i], a[i] < lo[i] ? lo[i] : hi[i] < a[i] ? hi[i] : a[i]), "clamp: lane"); vc_cover("clamp"); }
//@ clamp_s all any
template<class T, class A> void clamp_s() { using V = simd<T, A>; in<V> a("a"); T lo = any<T>("lo"), hi = any<T>("hi"); vc_assume(lo <= hi);
	V r = clamp(a.v, lo, hi); a.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(eq(o[i], a[i] < lo ? lo : hi < a[i] ? hi : a[i]), "clamp with scalars: lane"); vc_cover("clamp"); }
//@ fmin_ fp any
//@ fmin_ fp widths
template<class T, class A> void fmin_() { using V = simd<T, A>; in<V> a("a"), b("b"); V r = fmin(a.v, b.v); a.unchanged(); b.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is_fmin(o[i], a[i], b[i]), "fmin: lane"); vc_cover("fmin"); }
//@ fmax_ fp any
//@ fmax_ fp widths
template<class T, class A> void fmax_() { using V = simd<T, A>; in<V> a("a"), b("b"); V r = fmax(a.v, b.v); a.unchanged(); b.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is_fmax(o[i], a[i], b[i]), "fmax: lane"); vc_cover("fmax"); }
//@ fmin_s fp any
template<class T, class A> void fmin_s() { using V = simd<T, A>; in<V> a("a"); T b = any<T>("b"); V r = fmin(a.v, b); a.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is_fmin(o[i], a[i], b), "fmin with scalar: lane"); vc_cover("fmin"); }
//@ fmax_s fp any
template<class T, class A> void fmax_s() { using V = simd<T, A>; in<V> a("a"); T b = any<T>("b"); V r = fmax(a.v, b); a.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is_fmax(o[i], a[i], b), "fmax with scalar: lane"); vc_cover("fmax"); }
}
