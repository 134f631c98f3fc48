// C22  Fused multiply-add and elementary arithmetic functions compute their documented formula
#include "ieee.hpp"
namespace C22 {
using namespace ieee;
// a * b + c, rounded once where the processor fuses, otherwise after the product and after the sum.
template<class T> inline bool madd(T r, T a, T b, T c) { return same(r, (T)std::fma(a, b, c)) || same(r, (T)((T)(a * b) + c)); }
#define VC_FMA(N, F, EXPR) template<class T, class A> void N() { using V = simd<T, A>; in<V> a("a"), b("b"), c("c"); const auto r = F(a.v, b.v, c.v); static_assert(std::same_as<decltype(r), const V>); a.unchanged(); b.unchanged(); c.unchanged(); \
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(EXPR, #N ": lane"); vc_cover(#N); }
//@ fma_ fp any
//@ fma_ fp widths
VC_FMA(fma_, fma, madd(o[i], a[i], b[i], c[i]))
//@ fmadd_ fp any
//@ fmadd_ fp widths
VC_FMA(fmadd_, dpm::ext::fmadd, madd(o[i], a[i], b[i], c[i]))
//@ fmsub_ fp any
//@ fmsub_ fp widths
VC_FMA(fmsub_, dpm::ext::fmsub, (same(o[i], (T)std::fma(a[i], b[i], -c[i])) || same(o[i], (T)((T)(a[i] * b[i]) - c[i]))))
//@ fnmadd_ fp any
//@ fnmadd_ fp widths
VC_FMA(fnmadd_, dpm::ext::fnmadd, (same(o[i], (T)std::fma(-a[i], b[i], c[i])) || same(o[i], (T)(c[i] - (T)(a[i] * b[i])))))
//@ fnmsub_ fp any
//@ fnmsub_ fp widths
VC_FMA(fnmsub_, dpm::ext::fnmsub, (same(o[i], (T)std::fma(-a[i], b[i], -c[i])) || same(o[i], (T)(-(T)(a[i] * b[i]) - c[i]))))
// a + f * (b - a), in one of the documented ways of rounding it, or what the C++ function returns
template<class T> inline bool interp(T r, T a, T b, T f) { const T d = b - a; return madd(r, d, f, a) || same(r, (T)std::lerp(a, b, f)); }
//@ lerp_ fp any
//@ lerp_ fp widths
VC_FMA(lerp_, lerp, interp(o[i], a[i], b[i], c[i]))
//@ lerp_s fp any
template<class T, class A> void lerp_s() { using V = simd<T, A>; in<V> a("a"), b("b"); const T f = any<T>("f"); const auto r = lerp(a.v, b.v, f); a.unchanged(); b.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(interp(o[i], a[i], b[i], f), "lerp with a scalar factor: lane"); vc_cover("lerp"); }
// NaN for unordered operands, +0 unless a > b
template<class T> inline bool posdiff(T r, T a, T b) { return nan(a) || nan(b) ? r != r : a > b ? same(r, (T)(a - b)) : bits(r) == 0; }
//@ fdim_ fp any
//@ fdim_ fp widths
template<class T, class A> void fdim_() { using V = simd<T, A>; in<V> a("a"), b("b"); const auto r = fdim(a.v, b.v); a.unchanged(); b.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(posdiff(o[i], a[i], b[i]) || same(o[i], (T)std::fdim(a[i], b[i])), "fdim: lane"); vc_cover("fdim"); }
//@ fdim_s fp any
template<class T, class A> void fdim_s() { using V = simd<T, A>; in<V> a("a"); const T b = any<T>("b"); const auto r = fdim(a.v, b); a.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(posdiff(o[i], a[i], b) || same(o[i], (T)std::fdim(a[i], b)), "fdim with a scalar: lane"); vc_cover("fdim"); }
//@ sqrt_ fp any
//@ sqrt_ fp widths
template<class T, class A> void sqrt_() { using V = simd<T, A>; in<V> x("x"); const auto r = sqrt(x.v); x.unchanged(); out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(o[i], (T)std::sqrt(x[i])), "sqrt: lane"); vc_cover("sqrt"); }
//@ rcp_ f64 any
template<class T, class A> void rcp_() { using V = simd<T, A>; in<V> x("x"); const auto r = dpm::ext::rcp(x.v); x.unchanged(); out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(o[i], T(1) / x[i]), "rcp: lane"); vc_cover("rcp"); }
// The magnitude of an integer; the least value wraps onto itself.
//@ abs_u u8,u16 x86
template<class T, class A> void abs_u() { using V = simd<T, A>; in<V> x("x"); const auto r = abs(x.v); x.unchanged(); out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(o[i] == x[i], "abs of an unsigned lane"); vc_cover("abs"); }
//@ abs_ sint any
//@ abs_ sint widths
template<class T, class A> void abs_() { using V = simd<T, A>; in<V> x("x"); const auto r = abs(x.v); static_assert(std::same_as<decltype(r), const V>); x.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(o[i] == (x[i] < 0 ? s_neg(x[i]) : x[i]), "abs: lane"); vc_cover("abs"); }
}
