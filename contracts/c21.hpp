// C21  Portable math functions give the C++ library result of each lane
#include "ieee.hpp"
#include <dpm/detail/fconst.cpp>
#include <dpm/detail/x86/sincos.cpp>
#include <dpm/detail/x86/tan.cpp>
#include <dpm/detail/x86/asincos.cpp>
#include <dpm/detail/x86/atan.cpp>
#include <dpm/detail/x86/log.cpp>
#include <dpm/detail/x86/log2.cpp>
#include <dpm/detail/x86/log10.cpp>
#include <dpm/detail/x86/log1p.cpp>
#include <dpm/detail/x86/hypot.cpp>
namespace C21 {
using namespace ieee;
// The C library's function is the specification: an opaque function of its arguments.
#define VC_P1(F) template<class T, class A> void F##_() { using V = simd<T, A>; in<V> x("x"); const auto r = F(x.v); static_assert(std::same_as<decltype(r), const V>); x.unchanged(); \
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(o[i], (T)std::F(x[i])), #F ": the C++ result of the lane"); vc_cover(#F); }
#define VC_P2(F) template<class T, class A> void F##_() { using V = simd<T, A>; in<V> x("x"), y("y"); const auto r = F(x.v, y.v); static_assert(std::same_as<decltype(r), const V>); x.unchanged(); y.unchanged(); \
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(o[i], (T)std::F(x[i], y[i])), #F ": the C++ result of the lane"); vc_cover(#F); }
#define VC_P2S(F) template<class T, class A> void F##_s() { using V = simd<T, A>; in<V> x("x"); const T y = any<T>("y"); const auto r = F(x.v, y); static_assert(std::same_as<decltype(r), const V>); x.unchanged(); \
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(o[i], (T)std::F(x[i], y)), #F " with a scalar: the C++ result of the lane"); vc_cover(#F); }
// Functions without a vector kernel, every storage kind
//@ exp_ fp any
VC_P1(exp)
//@ exp2_ fp any
VC_P1(exp2)
//@ expm1_ fp any
VC_P1(expm1)
//@ cbrt_ fp any
VC_P1(cbrt)
//@ sinh_ fp any
VC_P1(sinh)
//@ cosh_ fp any
VC_P1(cosh)
//@ tanh_ fp any
VC_P1(tanh)
//@ asinh_ fp any
VC_P1(asinh)
//@ acosh_ fp any
VC_P1(acosh)
//@ atanh_ fp any
VC_P1(atanh)
//@ erf_ fp any
VC_P1(erf)
//@ erfc_ fp any
VC_P1(erfc)
//@ tgamma_ fp any
VC_P1(tgamma)
//@ lgamma_ fp any
VC_P1(lgamma)
//@ pow_ fp any
VC_P2(pow)
//@ atan2_ fp any
VC_P2(atan2)
//@ fmod_ fp any
VC_P2(fmod)
//@ remainder_ fp any
VC_P2(remainder)
//@ pow_s fp any
VC_P2S(pow)
//@ fmod_s fp any
VC_P2S(fmod)
//@ remainder_s fp any
VC_P2S(remainder)
//@ remquo_ fp any
template<class T, class A> void remquo_() { using V = simd<T, A>; using E = simd<int, A>; in<V> x("x"), y("y"); E q{}; const auto r = remquo(x.v, y.v, &q); x.unchanged(); y.unchanged();
	out<V> o(r); out<E> oq(q); for (size_t i = 0; i < width<V>; ++i) { int lq; const T l = std::remquo(x[i], y[i], &lq); vc_assert(same(o[i], l), "remquo: the C++ remainder of the lane"); vc_assert(oq[i] == lq, "remquo: the C++ quotient bits of the lane"); } vc_cover("remquo"); }
//@ remquo_kind fp any
template<class T, class A> void remquo_kind() { using V = simd<T, A>; using E = rebind_simd_t<int, V>; in<V> x("x"), y("y"); E q{}; const auto r = dpm::ext::remquo(x.v, y.v, q);
	out<V> o(r); out<E> oq(q); for (size_t i = 0; i < width<V>; ++i) { int lq; const T l = std::remquo(x[i], y[i], &lq); vc_assert(same(o[i], l), "remquo: the C++ remainder of the lane"); vc_assert(oq[i] == lq, "remquo: the C++ quotient bits of the lane"); } vc_cover("remquo"); }
// Functions with a vector kernel: the portable storage kinds use the C library
//@ sin_ fp gen,scal
VC_P1(sin)
//@ cos_ fp gen,scal
VC_P1(cos)
//@ tan_ fp gen,scal
VC_P1(tan)
//@ asin_ fp gen,scal
VC_P1(asin)
//@ acos_ fp gen,scal
VC_P1(acos)
//@ atan_ fp gen,scal
VC_P1(atan)
//@ log_ fp gen,scal
VC_P1(log)
//@ log2_ fp gen,scal
VC_P1(log2)
//@ log10_ fp gen,scal
VC_P1(log10)
//@ log1p_ fp gen,scal
VC_P1(log1p)
//@ sqrt_ fp gen,scal
VC_P1(sqrt)
//@ hypot_ fp gen,scal
VC_P2(hypot)
//@ sincos_ fp gen,scal
template<class T, class A> void sincos_() { using V = simd<T, A>; in<V> x("x"); V s{}, c{}; dpm::ext::sincos(x.v, s, c); x.unchanged(); out<V> os(s), oc(c);
	for (size_t i = 0; i < width<V>; ++i) { vc_assert(same(os[i], (T)std::sin(x[i])), "sincos: the C++ sine of the lane"); vc_assert(same(oc[i], (T)std::cos(x[i])), "sincos: the C++ cosine of the lane"); } vc_cover("sincos"); }
// Integral (and mixed) arguments are converted to double first; the function on double vectors is used through its own contract.
template<class A, class T> using D = rebind_simd_t<double, simd<T, A>>;
template<class T, class A> inline D<A, T> widen(const in<simd<T, A>> &x) { alignas(D<A, T>) double d[width<D<A, T>>]; for (size_t i = 0; i < width<D<A, T>>; ++i) d[i] = (double)x[i]; return D<A, T>{d, vector_aligned}; }
template<class V> inline void same_lanes(const V &r, const V &e, const char *what) { out<V> o(r), w(e); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(o[i], w[i]), what); }
#define VC_PR1(F) { const auto r = F(x.v); static_assert(std::same_as<decltype(r), const W>); same_lanes(r, W(F(w)), #F " of an integral argument: the function of the converted lanes"); }
#define VC_PR2(F) { const auto r = F(x.v, y.v); static_assert(std::same_as<decltype(r), const W>); same_lanes(r, W(F(w, u)), #F " of integral arguments: the function of the converted lanes"); }
//@ promote1 i8,u16,i32,u64 v128,multi,gen
template<class T, class A> void promote1() { in<simd<T, A>> x("x"); using W = D<A, T>; const W w = widen<T, A>(x);
	VC_PR1(exp) VC_PR1(exp2) VC_PR1(expm1) VC_PR1(cbrt) VC_PR1(sinh) VC_PR1(cosh) VC_PR1(tanh) VC_PR1(asinh) VC_PR1(acosh) VC_PR1(atanh) VC_PR1(erf) VC_PR1(erfc) VC_PR1(tgamma) VC_PR1(lgamma) x.unchanged(); vc_cover("promote"); }
//@ promote1k i32,u64 v128,gen
template<class T, class A> void promote1k() { in<simd<T, A>> x("x"); using W = D<A, T>; const W w = widen<T, A>(x);
	VC_PR1(sin) VC_PR1(cos) VC_PR1(tan) VC_PR1(asin) VC_PR1(acos) VC_PR1(atan) VC_PR1(log) VC_PR1(log2) VC_PR1(log10) VC_PR1(log1p) VC_PR1(sqrt) x.unchanged(); vc_cover("promote"); }
//@ promote2 i8,u16,i32,u64 v128,multi,gen
template<class T, class A> void promote2() { in<simd<T, A>> x("x"), y("y"); using W = D<A, T>; const W w = widen<T, A>(x), u = widen<T, A>(y);
	VC_PR2(pow) VC_PR2(atan2) VC_PR2(fmod) VC_PR2(hypot) x.unchanged(); y.unchanged(); vc_cover("promote"); }
}
