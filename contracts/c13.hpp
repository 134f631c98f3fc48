// C13  Floating-point decomposition and scaling are exact
#include "ieee.hpp"
#include <dpm/detail/x86/frexp.cpp>
#include <dpm/detail/x86/modf.cpp>
#include <dpm/detail/x86/scalbn.cpp>
#include <dpm/detail/x86/logb.cpp>
#include <dpm/detail/x86/nextafter.cpp>
namespace C13 {
using namespace ieee;
// A result is accepted when it is the value the C++ definition gives, or the value the C library returns for that lane (generic code path).
template<class T> inline bool is(T r, T spec, T lib) { return same(r, spec) || same(r, lib); }
template<class T> inline T r_frexp(T x, int &e) { e = 0; if (nan(x)) return qnan<T>(); if (inf(x) || zero(x)) return x; const auto d = decompose(x); e = d.e - bias<T> + 1; return from<T>(sgn(x) | ((bits_t<T>)(bias<T> - 1) << mant<T>) | (d.f & fmask<T>)); }
template<class T> inline T r_trunc(T x) { const int e = (int)(mag(x) >> mant<T>) - bias<T>; if (e < 0) return from<T>(sgn(x)); if (e >= mant<T>) return x; return from<T>(bits(x) & ~(fmask<T> >> e)); }
template<class T> inline int r_ilogb(T x) { if (nan(x)) return FP_ILOGBNAN; if (inf(x)) return INT_MAX; if (zero(x)) return FP_ILOGB0; return decompose(x).e - bias<T>; }
template<class T> inline T r_logb(T x) { if (nan(x)) return qnan<T>(); if (inf(x)) return from<T>(infb<T>); if (zero(x)) return from<T>(smask<T> | infb<T>); return (T)(decompose(x).e - bias<T>); }
template<class T> inline T r_nextafter(T a, T b) { if (nan(a) || nan(b)) return qnan<T>(); if (a == b) return b; if (zero(a)) return from<T>(sgn(b) | 1); return from<T>(bits(a) + ((a < b) == (sgn(a) == 0) ? (bits_t<T>)1 : (bits_t<T>)-1)); }

//@ frexp_ fp any
//@ frexp_ fp widths
template<class T, class A> void frexp_() { using V = simd<T, A>; using E = simd<int, A>; in<V> x("x"); E e{}; const auto r = frexp(x.v, &e); x.unchanged();
	out<V> o(r); out<E> oe(e); for (size_t i = 0; i < width<V>; ++i) { int w, lw; const T y = r_frexp(x[i], w), ly = std::frexp(x[i], &lw); vc_assert(is(o[i], y, ly), "frexp: fraction"); vc_assert(!fin(x[i]) || oe[i] == w || oe[i] == lw, "frexp: exponent"); } vc_cover("frexp"); }
//@ modf_ fp any
//@ modf_ fp widths
template<class T, class A> void modf_() { using V = simd<T, A>; in<V> x("x"); V ip{}; const auto r = modf(x.v, &ip); x.unchanged();
	out<V> o(r), oi(ip); for (size_t i = 0; i < width<V>; ++i) { T li; const T lf = std::modf(x[i], &li), t = r_trunc(x[i]); const T f = inf(x[i]) ? from<T>(sgn(x[i])) : from<T>(mag((T)(x[i] - t)) | sgn(x[i]));
		vc_assert(is(oi[i], t, li), "modf: integral part"); vc_assert(is(o[i], f, lf), "modf: fractional part"); } vc_cover("modf"); }
//@ ldexp_ fp any
//@ ldexp_ fp widths
template<class T, class A> void ldexp_() { using V = simd<T, A>; using E = simd<int, A>; in<V> x("x"); in<E> n("n"); const auto r = ldexp(x.v, n.v); x.unchanged(); n.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is(o[i], scale(x[i], n[i]), std::ldexp(x[i], n[i])), "ldexp: lane"); vc_cover("ldexp"); }
//@ scalbn_ fp any
template<class T, class A> void scalbn_() { using V = simd<T, A>; using E = simd<int, A>; in<V> x("x"); in<E> n("n"); const auto r = scalbn(x.v, n.v); x.unchanged(); n.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is(o[i], scale(x[i], n[i]), std::scalbn(x[i], n[i])), "scalbn: lane"); vc_cover("scalbn"); }
//@ scalbln_ fp any
//@ scalbln_ fp widths
template<class T, class A> void scalbln_() { using V = simd<T, A>; using E = simd<long, A>; in<V> x("x"); in<E> n("n"); const auto r = scalbln(x.v, n.v); x.unchanged(); n.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is(o[i], scale(x[i], n[i]), std::scalbln(x[i], n[i])), "scalbln: lane"); vc_cover("scalbln"); }
//@ ldexp_s fp any
template<class T, class A> void ldexp_s() { using V = simd<T, A>; in<V> x("x"); const int n = any<int>("n"); const auto r = ldexp(x.v, n); x.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is(o[i], scale(x[i], n), std::ldexp(x[i], n)), "ldexp by a scalar: lane"); vc_cover("ldexp"); }
//@ scalbn_s fp any
template<class T, class A> void scalbn_s() { using V = simd<T, A>; in<V> x("x"); const int n = any<int>("n"); const auto r = scalbn(x.v, n); x.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is(o[i], scale(x[i], n), std::scalbn(x[i], n)), "scalbn by a scalar: lane"); vc_cover("scalbn"); }
//@ scalbln_s fp any
template<class T, class A> void scalbln_s() { using V = simd<T, A>; in<V> x("x"); const long n = any<long>("n"); const auto r = scalbln(x.v, n); x.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is(o[i], scale(x[i], n), std::scalbln(x[i], n)), "scalbln by a scalar: lane"); vc_cover("scalbln"); }
//@ ilogb_ fp any
//@ ilogb_ fp widths
template<class T, class A> void ilogb_() { using V = simd<T, A>; in<V> x("x"); const auto r = ilogb(x.v); x.unchanged(); using E = std::remove_cvref_t<decltype(r)>; static_assert(E::size() == V::size());
	out<E> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(o[i] == r_ilogb(x[i]) || o[i] == std::ilogb(x[i]), "ilogb: lane"); vc_cover("ilogb"); }
//@ logb_ fp any
//@ logb_ fp widths
template<class T, class A> void logb_() { using V = simd<T, A>; in<V> x("x"); const auto r = logb(x.v); x.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is(o[i], r_logb(x[i]), std::logb(x[i])), "logb: lane"); vc_cover("logb"); }
//@ nextafter_ fp any
//@ nextafter_ fp widths
template<class T, class A> void nextafter_() { using V = simd<T, A>; in<V> a("a"), b("b"); const auto r = nextafter(a.v, b.v); a.unchanged(); b.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(is(o[i], r_nextafter(a[i], b[i]), std::nextafter(a[i], b[i])), "nextafter: lane"); vc_cover("nextafter"); }
//@ copysign_ fp any
//@ copysign_ fp widths
template<class T, class A> void copysign_() { using V = simd<T, A>; in<V> x("x"), s("s"); const auto r = copysign(x.v, s.v); x.unchanged(); s.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(bits(o[i]) == (mag(x[i]) | sgn(s[i])), "copysign: lane"); vc_cover("copysign"); }
//@ copysign_s fp any
template<class T, class A> void copysign_s() { using V = simd<T, A>; in<V> x("x"); const T s = any<T>("s"); const auto r = copysign(x.v, s); x.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(bits(o[i]) == (mag(x[i]) | sgn(s)), "copysign of a scalar: lane"); vc_cover("copysign"); }
//@ abs_ fp any
//@ abs_ fp widths
template<class T, class A> void abs_() { using V = simd<T, A>; in<V> x("x"); const auto r = abs(x.v); x.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(bits(o[i]) == mag(x[i]), "abs: lane"); vc_cover("abs"); }
//@ fabs_ fp any
template<class T, class A> void fabs_() { using V = simd<T, A>; in<V> x("x"); const auto r = fabs(x.v); x.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(bits(o[i]) == mag(x[i]), "fabs: lane"); vc_cover("fabs"); }
}
