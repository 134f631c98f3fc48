// C19  Compile-time evaluation agrees with run-time evaluation
// Each operation is executed twice on the same operands: once with std::is_constant_evaluated() true (the branches the compiler takes
// in a constant expression) and once with it false, and both results are compared.
namespace vc { inline bool constant = false; }
#define __builtin_is_constant_evaluated() (__builtin_is_constant_evaluated() || ::vc::constant)
#include "ieee.hpp"
#include <dpm/detail/fconst.cpp>
#include <dpm/detail/x86/sincos.cpp>
#include <dpm/detail/x86/tan.cpp>
#include <dpm/detail/x86/asincos.cpp>
#include <dpm/detail/x86/atan.cpp>
#include <dpm/detail/x86/log.cpp>
#include <dpm/detail/x86/log2.cpp>
#include <dpm/detail/x86/log10.cpp>
#include <dpm/detail/x86/log1p.cpp>
#include <dpm/detail/x86/hypot.cpp>
#include <dpm/detail/x86/frexp.cpp>
#include <dpm/detail/x86/modf.cpp>
#include <dpm/detail/x86/scalbn.cpp>
#include <dpm/detail/x86/logb.cpp>
#include <dpm/detail/x86/nextafter.cpp>
namespace C19 {
using namespace ieee;
template<class F> inline auto ce(F f) { constant = true; auto r = f(); constant = false; return r; }
template<class T, class A> inline void equal(const simd<T, A> &c, const simd<T, A> &r, const char *label) { out<simd<T, A>> x(c), y(r); for (size_t i = 0; i < A::size; ++i) vc_assert(same<T>(x[i], y[i]), label); }
template<class T, class A> inline void equal(const simd_mask<T, A> &c, const simd_mask<T, A> &r, const char *label) { mout<simd_mask<T, A>> x(c), y(r); for (size_t i = 0; i < A::size; ++i) { vc_assert(x.is(i, x.truth(i)), "a mask computed in a constant expression is canonical"); vc_assert(x.truth(i) == y.truth(i), label); } }
template<class X> requires std::is_arithmetic_v<X> inline void equal(X c, X r, const char *label) { vc_assert(same<X>(c, r), label); }
template<class X, size_t N> inline void equal(const std::array<X, N> &c, const std::array<X, N> &r, const char *label) { for (size_t i = 0; i < N; ++i) equal(c[i], r[i], label); }
template<class X, class Y> inline void equal(const std::pair<X, Y> &c, const std::pair<X, Y> &r, const char *label) { equal(c.first, r.first, label); equal(c.second, r.second, label); }
/** The operation f gives the same value in a constant expression and at run time. */
template<class F> inline void agree(F f, const char *label) { const auto c = ce(f); const auto r = f(); equal(c, r, label); vc_cover(label); }
#define C19_E(e, ...) agree([&]() { return e; }, #e ": lane at compile time")
// Vectors --------------------------------------------------------------------------------------------------------
//@ arith all x86 cfg=sse2,avx2-fma
//@ arith all gen,scal cfg=sse2
template<class T, class A> void arith() { using V = simd<T, A>; in<V> a("a"), b("b"); const T s = any<T>("s"); const V &x = a.v, &y = b.v;
	C19_E(x + y); C19_E(x - y); C19_E(-x); C19_E(+x); C19_E(x + s); C19_E(x - s);
	agree([&]() { V v = x; v += y; return v; }, "a += b: lane at compile time"); agree([&]() { V v = x; v -= y; return v; }, "a -= b: lane at compile time");
	agree([&]() { V v = x; ++v; return v; }, "++a: lane at compile time"); agree([&]() { V v = x; v--; return v; }, "a--: lane at compile time");
	a.unchanged(); b.unchanged(); }
//@ mul all x86 cfg=sse2,sse4.2,avx2-fma
template<class T, class A> void mul() { using V = simd<T, A>; in<V> a("a"), b("b"); const T s = any<T>("s"); const V &x = a.v, &y = b.v;
	C19_E(x * y); C19_E(x * s); agree([&]() { V v = x; v *= y; return v; }, "a *= b: lane at compile time"); a.unchanged(); b.unchanged(); }
//@ div all x86 cfg=sse2,avx2-fma
template<class T, class A> void div() { using V = simd<T, A>; in<V> a("a"), b("b"); const T s = any<T>("s"); const V &x = a.v, &y = b.v;
	if constexpr (std::integral<T>) { for (size_t i = 0; i < width<V>; ++i) { vc_assume(b[i] != 0); if constexpr (std::signed_integral<T>) vc_assume(b[i] != T(-1)); } vc_assume(s != 0); if constexpr (std::signed_integral<T>) vc_assume(s != T(-1)); C19_E(x % y); C19_E(x % s); }
	C19_E(x / y); C19_E(x / s); a.unchanged(); b.unchanged(); }
//@ bits_ int x86 cfg=sse2,avx2-fma
template<class T, class A> void bits_() { using V = simd<T, A>; in<V> a("a"), b("b"); const T s = any<T>("s"); const V &x = a.v, &y = b.v;
	C19_E(x & y); C19_E(x | y); C19_E(x ^ y); C19_E(~x); C19_E(x & s); C19_E(x | s); C19_E(x ^ s);
	agree([&]() { V v = x; v &= y; v |= s; v ^= y; return v; }, "compound bitwise operators: lane at compile time"); a.unchanged(); b.unchanged(); }
//@ shifts int x86 cfg=sse2,sse4.2,avx2-fma
template<class T, class A> void shifts() { using V = simd<T, A>; in<V> a("a"), b("b"); const T s = any<T>("s"); const V &x = a.v, &y = b.v; constexpr u64 n = sizeof(T) * 8;
	for (size_t i = 0; i < width<V>; ++i) vc_assume(b[i] >= 0 && (u64)b[i] < n); vc_assume(s >= 0 && (u64)s < n);
	C19_E(x << y); C19_E(x >> y); C19_E(x << s); C19_E(x >> s); C19_E(lsl<3>(x)); C19_E(lsr<5>(x)); if constexpr (std::signed_integral<T>) { C19_E(asl<2>(x)); C19_E(asr<5>(x)); } a.unchanged(); b.unchanged(); }
//@ compare all x86 cfg=sse2,sse4.2,avx2-fma
template<class T, class A> void compare() { using V = simd<T, A>; in<V> a("a"), b("b"); const V &x = a.v, &y = b.v;
	C19_E(x == y); C19_E(x != y); C19_E(x < y); C19_E(x <= y); C19_E(x > y); C19_E(x >= y); C19_E(!x);
	a.unchanged(); b.unchanged(); }
//@ select all x86 cfg=sse2,avx2-fma
template<class T, class A> void select() { using V = simd<T, A>; using M = simd_mask<T, A>; in<V> a("a"), b("b"); min_<M> m("m"), p("p"), q("q");
	C19_E(blend(m.v, a.v, b.v)); C19_E(blend(m.v, p.v, q.v)); a.unchanged(); b.unchanged(); m.unchanged(); p.unchanged(); q.unchanged(); }
//@ build all x86 cfg=sse2,avx2-fma
template<class T, class A> void build() { using V = simd<T, A>; using M = simd_mask<T, A>; constexpr size_t N = width<V>; T g[N]; bool h[N]; for (auto &x : g) x = any<T>("g"); for (auto &x : h) x = any<bool>("h"); in<V> a("a"); min_<M> m("m"); const auto f = any<bool>("f");
	agree([&]() { return V(g[0]); }, "broadcast: lane at compile time"); agree([&]() { return V([&](auto i) -> T { return g[i]; }); }, "generator: lane at compile time");
	agree([&]() { return M(f); }, "mask broadcast: lane at compile time"); agree([&]() { return M([&](auto i) -> bool { return h[i]; }); }, "mask generator: lane at compile time");
	agree([&]() { return V((const T *)g, element_aligned); }, "load constructor: lane at compile time"); agree([&]() { return M((const bool *)h, element_aligned); }, "mask load constructor: lane at compile time");
	agree([&]() { V v = a.v; v.copy_from((const T *)g, m.v, element_aligned); return v; }, "masked copy_from: lane at compile time");
	agree([&]() { M v = m.v; v.copy_from((const bool *)h, m.v, element_aligned); return v; }, "mask masked copy_from: lane at compile time");
	agree([&]() { std::array<T, N> r = {}; a.v.copy_to(r.data(), element_aligned); return r; }, "copy_to: element at compile time"); agree([&]() { std::array<bool, N> r = {}; m.v.copy_to(r.data(), element_aligned); return r; }, "mask copy_to: element at compile time");
	agree([&]() { std::array<T, N> r = {}; a.v.copy_to(r.data(), m.v, element_aligned); return r; }, "masked copy_to: element at compile time");
	agree([&]() { std::array<T, N> r = {}; for (size_t i = 0; i < N; ++i) r[i] = std::as_const(a.v)[i]; return r; }, "element: compile time"); agree([&]() { std::array<bool, N> r = {}; for (size_t i = 0; i < N; ++i) r[i] = std::as_const(m.v)[i]; return r; }, "mask element: compile time");
	a.unchanged(); m.unchanged(); }
//@ convert all x86 targs=i8;u16;i32;u64;f32;f64 qtargs=i8;i32;u64;f64 cfg=sse2,avx2-fma
template<class T, class A, class U> void convert() { using V = simd<T, A>; using M = simd_mask<T, A>; in<V> a("a"); min_<M> m("m"); constexpr size_t N = width<V>;
	if constexpr (std::floating_point<T> && std::integral<U>) for (size_t i = 0; i < N; ++i) vc_assume(a[i] > T(-1) && a[i] < T(127));
	agree([&]() { return static_cast<simd<U, simd_abi::fixed_size<N>>>(a.v); }, "conversion: lane at compile time"); agree([&]() { return static_cast<simd_mask<U, simd_abi::fixed_size<N>>>(m.v); }, "mask conversion: lane at compile time");
	agree([&]() { return static_cast<simd<U, simd_abi::ext::packed_buffer<N>>>(a.v); }, "conversion to an array: lane at compile time"); a.unchanged(); m.unchanged(); }
template<size_t N, class X, size_t... Is> inline auto rot(const X &x, std::index_sequence<Is...>) { return ext::shuffle<(Is + 1) % N...>(x); }
template<size_t N, class X, size_t... Is> inline auto rev(const X &x, std::index_sequence<Is...>) { return ext::shuffle<(N - 1 - Is)...>(x); }
//@ shuffles all x86 cfg=sse2,sse4.2,avx2-fma
template<class T, class A> void shuffles() { using V = simd<T, A>; using M = simd_mask<T, A>; in<V> a("a"); min_<M> m("m"); constexpr size_t N = width<V>; constexpr auto s = std::make_index_sequence<N>{};
	agree([&]() { return rot<N>(a.v, s); }, "shuffle: lane at compile time"); agree([&]() { return rev<N>(a.v, s); }, "shuffle: lane at compile time"); agree([&]() { return rot<N>(m.v, s); }, "mask shuffle: lane at compile time"); a.unchanged(); m.unchanged(); }
// Masks ----------------------------------------------------------------------------------------------------------
//@ masks all x86 cfg=sse2,avx2-fma
template<class T, class A> void masks() { using M = simd_mask<T, A>; min_<M> a("a"), b("b"); const bool s = any<bool>("s"); const M &x = a.v, &y = b.v;
	C19_E(x & y); C19_E(x | y); C19_E(x ^ y); C19_E(~x); C19_E(!x); C19_E(x && y); C19_E(x || y); C19_E(x == y); C19_E(x != y); C19_E(x & M(s)); C19_E(x | M(s)); C19_E(x ^ M(s));
	agree([&]() { M v = x; v &= y; return v; }, "mask &=: lane at compile time"); agree([&]() { M v = x; v |= y; return v; }, "mask |=: lane at compile time"); agree([&]() { M v = x; v ^= y; return v; }, "mask ^=: lane at compile time"); a.unchanged(); b.unchanged(); }
//@ queries all x86 cfg=sse2,avx2-fma
template<class T, class A> void queries() { using M = simd_mask<T, A>; min_<M> m("m"); const M &x = m.v; C19_E(all_of(x)); C19_E(any_of(x)); C19_E(none_of(x)); C19_E(some_of(x)); C19_E(reduce_count(x)); m.unchanged();
	bool e = false; for (size_t i = 0; i < width<M>; ++i) e |= m[i]; vc_assume(e); C19_E(reduce_min_index(x)); C19_E(reduce_max_index(x)); }
// Reductions -----------------------------------------------------------------------------------------------------
//@ reductions int x86 cfg=sse2,avx2-fma
template<class T, class A> void reductions() { using V = simd<T, A>; in<V> a("a"); V x = a.v; C19_E(reduce(x)); C19_E(reduce(x, std::bit_and<>{})); C19_E(reduce(x, std::bit_or<>{})); C19_E(reduce(x, std::bit_xor<>{})); 
	// smallest and largest lane: either execution gives a lane that bounds all lanes, hence the same value
	for (int k = 0; k < 4; ++k) { auto f = [&]() { return k & 1 ? reduce_max(x) : reduce_min(x); }; const T c = k & 2 ? ce(f) : f(); bool lane = false;
		for (size_t i = 0; i < width<V>; ++i) { lane |= a[i] == c; vc_assert(k & 1 ? a[i] <= c : c <= a[i], k & 1 ? "reduce_max(x): no lane is larger, at compile time as at run time" : "reduce_min(x): no lane is smaller, at compile time as at run time"); }
		vc_assert(lane, "reduce_min(x), reduce_max(x): a lane, at compile time as at run time"); }
	a.unchanged(); }
//@ product int x86 cfg=sse2
template<class T, class A> void product() { using V = simd<T, A>; in<V> a("a"); V x = a.v; C19_E(reduce(x, std::multiplies<>{})); }
//@ fp_minmax fp full,pad cfg=sse2,avx2-fma
template<class T, class A> void fp_minmax() { using V = simd<T, A>; in<V> a("a"); for (size_t i = 0; i < width<V>; ++i) vc_assume(a[i] == a[i]); V x = a.v; for (int k = 0; k < 2; ++k) { auto f = [&]() { return k ? reduce_max(x) : reduce_min(x); }; const T c = ce(f), r = f(); vc_assert(c == r, k ? "largest lane at compile time" : "smallest lane at compile time"); } }
//@ extrema all x86 cfg=sse2,sse4.2,avx2-fma
template<class T, class A> void extrema() { using V = simd<T, A>; in<V> a("a"), b("b"); const V &x = a.v, &y = b.v; const T s = any<T>("s"); C19_E(min(x, y)); C19_E(max(x, y)); C19_E(min(x, s)); C19_E(max(x, s)); a.unchanged(); b.unchanged(); }
//@ bounded all x86 cfg=sse2,sse4.2,avx2-fma
template<class T, class A> void bounded() { using V = simd<T, A>; in<V> a("a"), b("b"), c("c"); for (size_t i = 0; i < width<V>; ++i) vc_assume(b[i] <= c[i]); const V &x = a.v, &y = b.v, &z = c.v; C19_E(clamp(x, y, z)); C19_E(clamp(x, T(1), T(5)));
	agree([&]() { const auto p = minmax(x, y); return min(V(p.first), V(p.second)); }, "minmax: lane at compile time"); }
// Floating-point functions ---------------------------------------------------------------------------------------
//@ classify fp x86 cfg=sse2,avx2-fma
template<class T, class A> void classify() { using V = simd<T, A>; in<V> a("a"), b("b"); const V &x = a.v, &y = b.v; C19_E(isnan(x)); C19_E(isinf(x)); C19_E(isfinite(x)); C19_E(isnormal(x)); C19_E(signbit(x));
	C19_E(isgreater(x, y)); C19_E(isgreaterequal(x, y)); C19_E(isless(x, y)); C19_E(islessequal(x, y)); C19_E(islessgreater(x, y)); C19_E(isunordered(x, y)); C19_E(abs(x)); C19_E(fabs(x)); C19_E(copysign(x, y)); C19_E(fpclassify(x));
	a.unchanged(); b.unchanged(); }
// The remaining functions delegate to the C library in a constant expression; what they compute at run time is compared with its definition by C13, C14, C15, C18 and C22.
template<class V, class G> inline void lanes(const V &c, G g, const char *label) { out<V> o(c); for (size_t i = 0; i < width<V>; ++i) vc_assert(same<elem_t<V>>(o[i], g(i)), label); vc_cover(label); }
#define C19_1(F) lanes(ce([&]() { return F(x); }), [&](size_t i) { return (T)std::F(a[i]); }, #F ": lane at compile time")
//@ library fp x86 cfg=sse2,avx2-fma
template<class T, class A> void library() { using V = simd<T, A>; in<V> a("a"), b("b"); const V &x = a.v, &y = b.v; const T s = any<T>("s");
	C19_1(sin); C19_1(cos); C19_1(tan); C19_1(asin); C19_1(acos); C19_1(atan); C19_1(log); C19_1(log2); C19_1(log10); C19_1(log1p); C19_1(exp); C19_1(sqrt);
	C19_1(ceil); C19_1(floor); C19_1(trunc); C19_1(round); C19_1(rint); C19_1(nearbyint); C19_1(logb);
	lanes(ce([&]() { return hypot(x, y); }), [&](size_t i) { return (T)std::hypot(a[i], b[i]); }, "hypot: lane at compile time");
	lanes(ce([&]() { return nextafter(x, y); }), [&](size_t i) { return (T)std::nextafter(a[i], b[i]); }, "nextafter: lane at compile time");
	lanes(ce([&]() { return fmax(x, y); }), [&](size_t i) { return (T)std::fmax(a[i], b[i]); }, "fmax: lane at compile time"); lanes(ce([&]() { return fmin(x, y); }), [&](size_t i) { return (T)std::fmin(a[i], b[i]); }, "fmin: lane at compile time");
	lanes(ce([&]() { return fdim(x, y); }), [&](size_t i) { return (T)std::fdim(a[i], b[i]); }, "fdim: lane at compile time"); lanes(ce([&]() { return fdim(x, s); }), [&](size_t i) { return (T)std::fdim(a[i], s); }, "fdim with a scalar: lane at compile time");
	lanes(ce([&]() { return fmax(x, s); }), [&](size_t i) { return (T)std::fmax(a[i], s); }, "fmax with a scalar: lane at compile time"); lanes(ce([&]() { return fmin(x, s); }), [&](size_t i) { return (T)std::fmin(a[i], s); }, "fmin with a scalar: lane at compile time");
	lanes(ce([&]() { return copysign(x, s); }), [&](size_t i) { return (T)std::copysign(a[i], s); }, "copysign with a scalar: lane at compile time");
	constant = true; V sn, cs; ext::sincos(x, sn, cs); constant = false; lanes(sn, [&](size_t i) { return (T)std::sin(a[i]); }, "sincos: sine at compile time"); lanes(cs, [&](size_t i) { return (T)std::cos(a[i]); }, "sincos: cosine at compile time");
	a.unchanged(); b.unchanged(); }
//@ scaling fp x86 cfg=sse2,avx2-fma
template<class T, class A> void scaling() { using V = simd<T, A>; using E = simd<int, A>; using L = simd<long, A>; in<V> a("a"); in<E> e("e"); in<L> l("l"); const int n = any<int>("n"); const long k = any<long>("k"); const V &x = a.v;
	lanes(ce([&]() { return ldexp(x, e.v); }), [&](size_t i) { return (T)std::scalbn(a[i], e[i]); }, "ldexp: lane at compile time"); lanes(ce([&]() { return scalbn(x, e.v); }), [&](size_t i) { return (T)std::scalbn(a[i], e[i]); }, "scalbn: lane at compile time");
	lanes(ce([&]() { return scalbln(x, l.v); }), [&](size_t i) { return (T)std::scalbln(a[i], l[i]); }, "scalbln: lane at compile time"); lanes(ce([&]() { return scalbn(x, n); }), [&](size_t i) { return (T)std::scalbn(a[i], n); }, "scalbn by a scalar: lane at compile time");
	lanes(ce([&]() { return scalbln(x, k); }), [&](size_t i) { return (T)std::scalbln(a[i], k); }, "scalbln by a scalar: lane at compile time");
	lanes(ce([&]() { return ilogb(x); }), [&](size_t i) { return std::ilogb(a[i]); }, "ilogb: lane at compile time");
	E oe; V oi; constant = true; const V f = frexp(x, &oe), g = modf(x, &oi); constant = false;
	int w[width<V>]; T ip[width<V>]; lanes(f, [&](size_t i) { return (T)std::frexp(a[i], &w[i]); }, "frexp: fraction at compile time"); lanes(oe, [&](size_t i) { return w[i]; }, "frexp: exponent at compile time");
	lanes(g, [&](size_t i) { return (T)std::modf(a[i], &ip[i]); }, "modf: fraction at compile time"); lanes(oi, [&](size_t i) { return ip[i]; }, "modf: integral part at compile time"); a.unchanged(); e.unchanged(); l.unchanged(); }
//@ to_integer fp x86 cfg=sse2,avx2-fma
template<class T, class A> void to_integer() { using V = simd<T, A>; in<V> a("a"); const V &x = a.v; for (size_t i = 0; i < width<V>; ++i) vc_assume(a[i] > T(-0x1p30) && a[i] < T(0x1p30));
	lanes(ce([&]() { return lround(x); }), [&](size_t i) { return (long)std::lround(a[i]); }, "lround: lane at compile time"); lanes(ce([&]() { return llround(x); }), [&](size_t i) { return (long)std::llround(a[i]); }, "llround: lane at compile time");
	lanes(ce([&]() { return lrint(x); }), [&](size_t i) { return (long)std::lrint(a[i]); }, "lrint: lane at compile time"); lanes(ce([&]() { return llrint(x); }), [&](size_t i) { return (long)std::llrint(a[i]); }, "llrint: lane at compile time"); a.unchanged(); }
}
