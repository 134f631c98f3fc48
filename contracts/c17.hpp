// C17  Table look-ups and intermediate storage stay in bounds for every input
// The obligations are those irvc attaches to every access, shift, division and unreachable path of the functions executed:
// the access lies inside one live object, is aligned as its instruction requires, writes no constant, and so on. The explicit
// ensures clauses add the frame condition (the operands and their neighbours are not written).
#include "ieee.hpp"
#include <dpm/detail/fconst.cpp>
#include <dpm/detail/x86/sincos.cpp>
#include <dpm/detail/x86/tan.cpp>
#include <dpm/detail/x86/asincos.cpp>
#include <dpm/detail/x86/atan.cpp>
#include <dpm/detail/x86/log.cpp>
#include <dpm/detail/x86/log2.cpp>
#include <dpm/detail/x86/log10.cpp>
#include <dpm/detail/x86/log1p.cpp>
#include <dpm/detail/x86/hypot.cpp>
#include <dpm/detail/x86/frexp.cpp>
#include <dpm/detail/x86/modf.cpp>
#include <dpm/detail/x86/scalbn.cpp>
#include <dpm/detail/x86/logb.cpp>
#include <dpm/detail/x86/nextafter.cpp>
namespace C17 {
using namespace ieee;
/** A result in storage of exactly its own size: writing past it, or misaligned, fails an obligation. */
template<class V> struct res { V *p = new (vc_alloc(sizeof(V), alignof(V), "result")) V; };
template<class V> struct arg { in<V> x; V *p; explicit arg(const char *n) : x(n), p(new (vc_alloc(sizeof(V), alignof(V), n)) V) { *p = x.v; } void same_() const { out<V> y(*p); bool ok = true; for (size_t i = 0; i < width<V>; ++i) ok &= bits(y[i]) == bits(x[i]); vc_assert(ok, "argument storage is read only"); } };
#define VC_M1(N, F) template<class T, class A> void mem_##N() { using V = simd<T, A>; arg<V> x("x"); res<V> r; *r.p = F(*x.p); x.same_(); vc_cover(#N); }
#define VC_M2(N, F) template<class T, class A> void mem_##N() { using V = simd<T, A>; arg<V> x("x"), y("y"); res<V> r; *r.p = F(*x.p, *y.p); x.same_(); y.same_(); vc_cover(#N); }
#define VC_M3(N, F) template<class T, class A> void mem_##N() { using V = simd<T, A>; arg<V> x("x"), y("y"), z("z"); res<V> r; *r.p = F(*x.p, *y.p, *z.p); x.same_(); y.same_(); z.same_(); vc_cover(#N); }
//@ mem_sin fp any
//@ mem_sin fp widths
VC_M1(sin, sin)
//@ mem_cos fp any
//@ mem_cos fp widths
VC_M1(cos, cos)
//@ mem_tan fp any
//@ mem_tan fp widths
VC_M1(tan, tan)
//@ mem_asin fp any
//@ mem_asin fp widths
VC_M1(asin, asin)
//@ mem_acos fp any
//@ mem_acos fp widths
VC_M1(acos, acos)
//@ mem_atan fp any
//@ mem_atan fp widths
VC_M1(atan, atan)
//@ mem_log fp any
//@ mem_log fp widths
VC_M1(log, log)
//@ mem_log2 fp any
//@ mem_log2 fp widths
VC_M1(log2, log2)
//@ mem_log10 fp any
//@ mem_log10 fp widths
VC_M1(log10, log10)
//@ mem_log1p fp any
//@ mem_log1p fp widths
VC_M1(log1p, log1p)
//@ mem_sqrt fp any
//@ mem_sqrt fp widths
VC_M1(sqrt, sqrt)
//@ mem_ceil fp any
//@ mem_ceil fp widths
VC_M1(ceil, ceil)
//@ mem_floor fp any
//@ mem_floor fp widths
VC_M1(floor, floor)
//@ mem_trunc fp any
//@ mem_trunc fp widths
VC_M1(trunc, trunc)
//@ mem_round fp any
//@ mem_round fp widths
VC_M1(round, round)
//@ mem_rint fp any
//@ mem_rint fp widths
VC_M1(rint, rint)
//@ mem_nearbyint fp any
//@ mem_nearbyint fp widths
VC_M1(nearbyint, nearbyint)
//@ mem_logb fp any
//@ mem_logb fp widths
VC_M1(logb, logb)
//@ mem_rcp fp x86
VC_M1(rcp, dpm::ext::rcp)
//@ mem_rsqrt f32 x86
VC_M1(rsqrt, dpm::ext::rsqrt)
//@ mem_hypot fp any
//@ mem_hypot fp widths
VC_M2(hypot, hypot)
//@ mem_nextafter fp any
//@ mem_nextafter fp widths
VC_M2(nextafter, nextafter)
//@ mem_copysign fp any
//@ mem_copysign fp widths
VC_M2(copysign, copysign)
//@ mem_fmin fp any
//@ mem_fmin fp widths
VC_M2(fmin, fmin)
//@ mem_fmax fp any
//@ mem_fmax fp widths
VC_M2(fmax, fmax)
//@ mem_fdim fp any
//@ mem_fdim fp widths
VC_M2(fdim, fdim)
//@ mem_fma fp any
//@ mem_fma fp widths
VC_M3(fma, fma)
//@ mem_lerp fp any
//@ mem_lerp fp widths
VC_M3(lerp, lerp)
//@ mem_ilogb fp any
//@ mem_ilogb fp widths
template<class T, class A> void mem_ilogb() { using V = simd<T, A>; arg<V> x("x"); res<simd<int, A>> r; *r.p = ilogb(*x.p); x.same_(); vc_cover("ilogb"); }
//@ mem_lround fp any
//@ mem_lround fp widths
template<class T, class A> void mem_lround() { using V = simd<T, A>; arg<V> x("x"); res<simd<long, A>> r; *r.p = lround(*x.p); x.same_(); vc_cover("lround"); }
//@ mem_lrint fp any
//@ mem_lrint fp widths
template<class T, class A> void mem_lrint() { using V = simd<T, A>; arg<V> x("x"); res<simd<long, A>> r; *r.p = lrint(*x.p); x.same_(); vc_cover("lrint"); }
//@ mem_frexp fp any
//@ mem_frexp fp widths
template<class T, class A> void mem_frexp() { using V = simd<T, A>; arg<V> x("x"); res<V> r; res<simd<int, A>> e; *r.p = frexp(*x.p, e.p); x.same_(); vc_cover("frexp"); }
//@ mem_modf fp any
//@ mem_modf fp widths
template<class T, class A> void mem_modf() { using V = simd<T, A>; arg<V> x("x"); res<V> r, i; *r.p = modf(*x.p, i.p); x.same_(); vc_cover("modf"); }
//@ mem_ldexp fp any
//@ mem_ldexp fp widths
template<class T, class A> void mem_ldexp() { using V = simd<T, A>; arg<V> x("x"); arg<simd<int, A>> n("n"); res<V> r; *r.p = ldexp(*x.p, *n.p); x.same_(); n.same_(); vc_cover("ldexp"); }
//@ mem_scalbln fp any
//@ mem_scalbln fp widths
template<class T, class A> void mem_scalbln() { using V = simd<T, A>; arg<V> x("x"); arg<simd<long, A>> n("n"); res<V> r; *r.p = scalbln(*x.p, *n.p); x.same_(); n.same_(); vc_cover("scalbln"); }
//@ mem_sincos fp x86
template<class T, class A> void mem_sincos() { using V = simd<T, A>; arg<V> x("x"); res<V> s, c; dpm::ext::sincos(*x.p, *s.p, *c.p); x.same_(); vc_cover("sincos"); }
//@ sincos_alias fp x86
template<class T, class A> void sincos_alias() { using V = simd<T, A>; arg<V> x("x"); res<V> c; out<V> e(sin(*x.p)); dpm::ext::sincos(*x.p, *x.p, *c.p); out<V> r(*x.p), rc(*c.p), ec(cos(x.x.v)); for (size_t i = 0; i < width<V>; ++i) { vc_assert(same(r[i], e[i]), "sincos into its own argument: sine"); vc_assert(same(rc[i], ec[i]), "sincos into its own argument: cosine"); } vc_cover("sincos"); }
}
