// C16  Math functions treat every lane alike and independently
#include "ieee.hpp"
#include <dpm/detail/fconst.cpp>
#include <dpm/detail/x86/sincos.cpp>
#include <dpm/detail/x86/tan.cpp>
#include <dpm/detail/x86/asincos.cpp>
#include <dpm/detail/x86/atan.cpp>
#include <dpm/detail/x86/log.cpp>
#include <dpm/detail/x86/log2.cpp>
#include <dpm/detail/x86/log10.cpp>
#include <dpm/detail/x86/log1p.cpp>
#include <dpm/detail/x86/hypot.cpp>
namespace C16 {
using namespace ieee;
/** One 128-bit register, every element x: the reference for the lane that holds x. */
template<class T> using R = simd<T, v128<T>>;
template<class T> inline R<T> bc(T x) { T y[16 / sizeof(T)]; for (auto &e : y) e = x; R<T> v; raw_in(v, y); return v; }
template<class T> inline T at0(const R<T> &v) { return out<R<T>>(v)[0]; }
// result lane i == lane 0 of the same function applied to a register filled with element i
#define VC_L1(N, F) template<class T, class A> void lane_##N() { using V = simd<T, A>; in<V> x("x"); out<V> r(F(x.v)); x.unchanged(); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(r[i], at0<T>(F(bc<T>(x[i])))), #N " of a lane depends on the element in the lane only"); vc_cover(#N); }
#define VC_L2(N, F) template<class T, class A> void lane_##N() { using V = simd<T, A>; in<V> x("x"), y("y"); out<V> r(F(x.v, y.v)); x.unchanged(); y.unchanged(); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(r[i], at0<T>(F(bc<T>(x[i]), bc<T>(y[i])))), #N " of a lane depends on the elements in the lane only"); vc_cover(#N); }
#define VC_L3(N, F) template<class T, class A> void lane_##N() { using V = simd<T, A>; in<V> x("x"), y("y"), z("z"); out<V> r(F(x.v, y.v, z.v)); x.unchanged(); y.unchanged(); z.unchanged(); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(r[i], at0<T>(F(bc<T>(x[i]), bc<T>(y[i]), bc<T>(z[i])))), #N " of a lane depends on the elements in the lane only"); vc_cover(#N); }
//@ lane_sin fp x86
VC_L1(sin, sin)
//@ lane_cos fp x86
VC_L1(cos, cos)
//@ lane_tan fp x86
VC_L1(tan, tan)
//@ lane_asin fp x86
VC_L1(asin, asin)
//@ lane_acos fp x86
VC_L1(acos, acos)
//@ lane_atan fp x86
VC_L1(atan, atan)
//@ lane_log fp x86
VC_L1(log, log)
//@ lane_log2 fp x86
VC_L1(log2, log2)
//@ lane_log10 fp x86
VC_L1(log10, log10)
//@ lane_log1p fp x86
VC_L1(log1p, log1p)
//@ lane_sqrt fp x86
VC_L1(sqrt, sqrt)
//@ lane_rcp fp x86
VC_L1(rcp, dpm::ext::rcp)
//@ lane_rsqrt f32 x86
VC_L1(rsqrt, dpm::ext::rsqrt)
//@ lane_hypot fp x86
VC_L2(hypot, hypot)
//@ lane_fmadd fp x86
VC_L3(fmadd, dpm::ext::fmadd)
//@ lane_fmsub fp x86
VC_L3(fmsub, dpm::ext::fmsub)
//@ lane_fnmadd fp x86
VC_L3(fnmadd, dpm::ext::fnmadd)
//@ lane_fnmsub fp x86
VC_L3(fnmsub, dpm::ext::fnmsub)
//@ lane_fma fp x86
VC_L3(fma, fma)
//@ lane_lerp fp x86
VC_L3(lerp, lerp)
//@ lane_lerp1 fp x86
template<class T, class A> void lane_lerp1() { using V = simd<T, A>; in<V> x("x"), y("y"); const T f = any<T>("f"); out<V> r(lerp(x.v, y.v, f)); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(r[i], at0<T>(lerp(bc<T>(x[i]), bc<T>(y[i]), f))), "lerp of a lane depends on the elements in the lane only"); vc_cover("lerp"); }
//@ lane_sincos fp x86
template<class T, class A> void lane_sincos() { using V = simd<T, A>; in<V> x("x"); V s, c; dpm::ext::sincos(x.v, s, c); out<V> rs(s), rc(c); x.unchanged();
	for (size_t i = 0; i < width<V>; ++i) { R<T> ts, tc; dpm::ext::sincos(bc<T>(x[i]), ts, tc); vc_assert(same(rs[i], at0<T>(ts)), "sine of sincos depends on the element in the lane only"); vc_assert(same(rc[i], at0<T>(tc)), "cosine of sincos depends on the element in the lane only"); }
	vc_cover("sincos"); }
//@ sincos_is_sin_cos fp x86
template<class T, class A> void sincos_is_sin_cos() { using V = simd<T, A>; in<V> x("x"); V s, c; dpm::ext::sincos(x.v, s, c); out<V> rs(s), rc(c), es(sin(x.v)), ec(cos(x.v));
	for (size_t i = 0; i < width<V>; ++i) { vc_assert(same(rs[i], es[i]), "sincos gives the sine"); vc_assert(same(rc[i], ec[i]), "sincos gives the cosine"); } vc_cover("sincos"); }
}
