// C15  NaN propagates and domain errors give the values the standard names
#include "ieee.hpp"
#include <dpm/detail/fconst.cpp>
#include <dpm/detail/x86/sincos.cpp>
#include <dpm/detail/x86/tan.cpp>
#include <dpm/detail/x86/asincos.cpp>
#include <dpm/detail/x86/atan.cpp>
#include <dpm/detail/x86/log.cpp>
#include <dpm/detail/x86/log2.cpp>
#include <dpm/detail/x86/log10.cpp>
#include <dpm/detail/x86/log1p.cpp>
#include <dpm/detail/x86/hypot.cpp>
namespace C15 {
using namespace ieee;
template<class T> inline constexpr T inf_ = std::numeric_limits<T>::infinity();
template<class T> inline constexpr T pio2_ = (T)1.57079632679489661923;
/** x with lane i replaced by s: s meets every combination of the other lanes. */
template<class V> inline V with(const in<V> &x, size_t i, elem_t<V> s) { elem_t<V> y[slots<V>]; for (size_t j = 0; j < slots<V>; ++j) y[j] = j == i ? s : x[j]; V v; raw_in(v, y); return v; }
// A lane is accepted when it has the value the C++ standard names, or the value the C library returns for it (generic code path).
template<class T> inline bool is(T r, T spec, T lib) { return same(r, spec) || same(r, lib); }
#define VC_SIN(V, f) [](const V &v) { V s, c; dpm::ext::sincos(v, s, c); return f; }
#define VC_NAN(N, F) template<class T, class A> void nan_##N() { using V = simd<T, A>; in<V> x("x"); out<V> r(F(x.v)); x.unchanged(); for (size_t i = 0; i < width<V>; ++i) vc_assert(!nan(x[i]) || is(r[i], qnan<T>(), (T)std::N(x[i])), #N "(NaN) is NaN"); vc_cover(#N); }
#define VC_DOM(N, F, COND, WHAT) template<class T, class A> void domain_##N() { using V = simd<T, A>; in<V> x("x"); out<V> r(F(x.v)); x.unchanged(); for (size_t i = 0; i < width<V>; ++i) { const T a = x[i]; vc_assert(!(COND) || is(r[i], qnan<T>(), (T)std::N(a)), #N "(x) is NaN for " WHAT); } vc_cover(#N); }
#define VC_VAL(C, N, F, ARG, WANT) template<class T, class A> void C() { using V = simd<T, A>; in<V> x("x"); for (size_t i = 0; i < width<V>; ++i) { const T a = ARG; out<V> r(F(with(x, i, a))); vc_assert(is(r[i], (T)(WANT), (T)std::N(a)), #N "(" #ARG ") == " #WANT); } vc_cover(#N); }

//@ nan_sin fp x86
VC_NAN(sin, sin)
//@ nan_cos fp x86
VC_NAN(cos, cos)
//@ nan_tan fp x86
VC_NAN(tan, tan)
//@ nan_asin fp x86
VC_NAN(asin, asin)
//@ nan_acos fp x86
VC_NAN(acos, acos)
//@ nan_atan fp x86
VC_NAN(atan, atan)
//@ nan_log fp x86
VC_NAN(log, log)
//@ nan_log2 fp x86
VC_NAN(log2, log2)
//@ nan_log10 fp x86
VC_NAN(log10, log10)
//@ nan_log1p fp x86
VC_NAN(log1p, log1p)
//@ nan_sqrt fp x86
VC_NAN(sqrt, sqrt)

//@ domain_sin fp x86
VC_DOM(sin, sin, inf(a), "an infinity")
//@ domain_cos fp x86
VC_DOM(cos, cos, inf(a), "an infinity")
//@ domain_tan fp x86
VC_DOM(tan, tan, inf(a), "an infinity")
//@ domain_asin fp x86
VC_DOM(asin, asin, a > 1 || a < -1, "|x| > 1")
//@ domain_acos fp x86
VC_DOM(acos, acos, a > 1 || a < -1, "|x| > 1")
//@ domain_log fp x86
VC_DOM(log, log, a < 0, "x < 0")
//@ domain_log2 fp x86
VC_DOM(log2, log2, a < 0, "x < 0")
//@ domain_log10 fp x86
VC_DOM(log10, log10, a < 0, "x < 0")
//@ domain_log1p fp x86
VC_DOM(log1p, log1p, a < -1, "x < -1")
//@ domain_sqrt fp x86
VC_DOM(sqrt, sqrt, a < 0, "x < 0")

//@ zero_sin fp x86
VC_VAL(zero_sin, sin, sin, (T)0, (T)0)
//@ mzero_sin fp x86
VC_VAL(mzero_sin, sin, sin, -(T)0, -(T)0)
//@ zero_cos fp x86
VC_VAL(zero_cos, cos, cos, (T)0, 1)
//@ mzero_cos fp x86
VC_VAL(mzero_cos, cos, cos, -(T)0, 1)
//@ zero_tan fp x86
VC_VAL(zero_tan, tan, tan, (T)0, (T)0)
//@ mzero_tan fp x86
VC_VAL(mzero_tan, tan, tan, -(T)0, -(T)0)
//@ zero_asin fp x86
VC_VAL(zero_asin, asin, asin, (T)0, (T)0)
//@ mzero_asin fp x86
VC_VAL(mzero_asin, asin, asin, -(T)0, -(T)0)
//@ one_acos fp x86
VC_VAL(one_acos, acos, acos, (T)1, (T)0)
//@ zero_atan fp x86
VC_VAL(zero_atan, atan, atan, (T)0, (T)0)
//@ mzero_atan fp x86
VC_VAL(mzero_atan, atan, atan, -(T)0, -(T)0)
//@ inf_atan fp x86
VC_VAL(inf_atan, atan, atan, inf_<T>, pio2_<T>)
//@ minf_atan fp x86
VC_VAL(minf_atan, atan, atan, -inf_<T>, -pio2_<T>)
#define VC_LOG(N) VC_VAL(zero_##N, N, N, (T)0, -inf_<T>) VC_VAL(mzero_##N, N, N, -(T)0, -inf_<T>) VC_VAL(one_##N, N, N, (T)1, (T)0) VC_VAL(inf_##N, N, N, inf_<T>, inf_<T>)
//@ zero_log fp x86
//@ mzero_log fp x86
//@ one_log fp x86
//@ inf_log fp x86
VC_LOG(log)
//@ zero_log2 fp x86
//@ mzero_log2 fp x86
//@ one_log2 fp x86
//@ inf_log2 fp x86
VC_LOG(log2)
//@ zero_log10 fp x86
//@ mzero_log10 fp x86
//@ one_log10 fp x86
//@ inf_log10 fp x86
VC_LOG(log10)
//@ zero_log1p fp x86
VC_VAL(zero_log1p, log1p, log1p, (T)0, (T)0)
//@ mzero_log1p fp x86
VC_VAL(mzero_log1p, log1p, log1p, -(T)0, -(T)0)
//@ mone_log1p fp x86
VC_VAL(mone_log1p, log1p, log1p, -(T)1, -inf_<T>)
//@ inf_log1p fp x86
VC_VAL(inf_log1p, log1p, log1p, inf_<T>, inf_<T>)
//@ zero_sqrt fp x86
VC_VAL(zero_sqrt, sqrt, sqrt, (T)0, (T)0)
//@ mzero_sqrt fp x86
VC_VAL(mzero_sqrt, sqrt, sqrt, -(T)0, -(T)0)
//@ inf_sqrt fp x86
VC_VAL(inf_sqrt, sqrt, sqrt, inf_<T>, inf_<T>)

//@ sincos_ fp x86
template<class T, class A> void sincos_() { using V = simd<T, A>; in<V> x("x"); V s, c; ext::sincos(x.v, s, c); x.unchanged(); out<V> os(s), oc(c);
	for (size_t i = 0; i < width<V>; ++i) { T ls, lc; ls = std::sin(x[i]); lc = std::cos(x[i]); vc_assert(!(nan(x[i]) || inf(x[i])) || (is(os[i], qnan<T>(), ls) && is(oc[i], qnan<T>(), lc)), "sincos of a NaN or an infinity is NaN"); vc_assert(!zero(x[i]) || (is(os[i], x[i], ls) && is(oc[i], (T)1, lc)), "sincos(+-0) is +-0 and 1"); } vc_cover("sincos"); }
//@ nan_hypot fp x86
template<class T, class A> void nan_hypot() { using V = simd<T, A>; in<V> a("a"), b("b"); out<V> r(hypot(a.v, b.v)); a.unchanged(); b.unchanged();
	for (size_t i = 0; i < width<V>; ++i) { const T l = std::hypot(a[i], b[i]); vc_assert(!(nan(a[i]) || nan(b[i])) || inf(a[i]) || inf(b[i]) || is(r[i], qnan<T>(), l), "hypot with a NaN operand is NaN unless the other is infinite"); vc_assert(!(inf(a[i]) || inf(b[i])) || is(r[i], inf_<T>, l), "hypot of an infinity is +infinity"); } vc_cover("hypot"); }
}
