// C11  Shifts move the bits of each lane by the requested amount
#include "vc.hpp"
namespace C11 {
template<class T> inline constexpr size_t nbits = sizeof(T) * 8;
/** Scalar shifts of an element of type T, result converted back to T. */
template<class T> inline T shl(T x, u64 n) { return (T)(bits_t<T>)((u64)x << n); }
template<class T> inline T shr(T x, u64 n) { if constexpr (std::signed_integral<T>) return (T)((i64)x >> n); else return (T)((u64)x >> n); }
template<class T> inline T lshr(T x, u64 n) { return (T)(bits_t<T>)((u64)bits(x) >> n); }
template<class V> inline void ensures(const V &r, auto f, const char *label) { out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(o[i] == f(i), label); }
template<class V> struct counts : in<V> { explicit counts(const char *n) : in<V>(n) { for (size_t i = 0; i < width<V>; ++i) vc_assume((*this)[i] >= 0 && (u64)(*this)[i] < nbits<elem_t<V>>); } };
template<class T> inline T count(const char *n) { T c = any<T>(n); vc_assume(c >= 0 && (u64)c < nbits<elem_t<simd<T>>>); return c; }
//@ left int any
template<class T, class A> void left() { using V = simd<T, A>; in<V> a("a"); counts<V> n("n"); V r = a.v << n.v; a.unchanged(); n.unchanged(); ensures(r, [&](size_t i) { return shl(a[i], n[i]); }, "a << n: lane"); vc_cover("shift"); }
//@ right int any
template<class T, class A> void right() { using V = simd<T, A>; in<V> a("a"); counts<V> n("n"); V r = a.v >> n.v; a.unchanged(); n.unchanged(); ensures(r, [&](size_t i) { return shr(a[i], n[i]); }, "a >> n: lane"); vc_cover("shift"); }
//@ left_assign int any
template<class T, class A> void left_assign() { using V = simd<T, A>; in<V> a("a"); counts<V> n("n"); V r = a.v; V &q = (r <<= n.v); n.unchanged(); vc_assert(&q == &r, "<<= returns the vector"); ensures(r, [&](size_t i) { return shl(a[i], n[i]); }, "a <<= n: lane"); }
//@ right_assign int any
template<class T, class A> void right_assign() { using V = simd<T, A>; in<V> a("a"); counts<V> n("n"); V r = a.v; V &q = (r >>= n.v); n.unchanged(); vc_assert(&q == &r, ">>= returns the vector"); ensures(r, [&](size_t i) { return shr(a[i], n[i]); }, "a >>= n: lane"); }
//@ scalar int any
template<class T, class A> void scalar() { using V = simd<T, A>; in<V> a("a"); T n = any<T>("n"); vc_assume(n >= 0 && (u64)n < nbits<T>);
	V l = a.v << n, r = a.v >> n; a.unchanged(); ensures(l, [&](size_t i) { return shl(a[i], n); }, "a << scalar: lane"); ensures(r, [&](size_t i) { return shr(a[i], n); }, "a >> scalar: lane");
	V x = a.v; x <<= n; ensures(x, [&](size_t i) { return shl(a[i], n); }, "a <<= scalar: lane"); V y = a.v; y >>= n; ensures(y, [&](size_t i) { return shr(a[i], n); }, "a >>= scalar: lane"); vc_cover("shift"); }
//@ scalar_as int any targs=int;u64
template<class T, class A, class I> void scalar_as() { using V = simd<T, A>; in<V> a("a"); I n = any<I>("n"); vc_assume(n >= 0 && (u64)n < nbits<T>);
	V l = a.v << n, r = a.v >> n; a.unchanged(); ensures(l, [&](size_t i) { return shl(a[i], n); }, "a << scalar: lane"); ensures(r, [&](size_t i) { return shr(a[i], n); }, "a >> scalar: lane");
	V x = a.v; x <<= n; ensures(x, [&](size_t i) { return shl(a[i], n); }, "a <<= scalar: lane"); V y = a.v; y >>= n; ensures(y, [&](size_t i) { return shr(a[i], n); }, "a >>= scalar: lane"); vc_cover("shift"); }
// Every constant the functions accept.
template<class T, class F> inline void each(F f) { [&]<size_t... N>(std::index_sequence<N...>) { (f(std::integral_constant<size_t, N>{}), ...); }(std::make_index_sequence<std::numeric_limits<T>::digits>{}); }
//@ lsl_ int any
template<class T, class A> void lsl_() { using V = simd<T, A>; in<V> a("a"); each<T>([&]<size_t N>(std::integral_constant<size_t, N>) { ensures(dpm::lsl<N>(a.v), [&](size_t i) { return shl(a[i], N); }, "lsl: lane"); }); a.unchanged(); }
//@ lsr_ int any
template<class T, class A> void lsr_() { using V = simd<T, A>; in<V> a("a"); each<T>([&]<size_t N>(std::integral_constant<size_t, N>) { ensures(dpm::lsr<N>(a.v), [&](size_t i) { return lshr(a[i], N); }, "lsr: lane"); }); a.unchanged(); }
//@ asl_ sint any
template<class T, class A> void asl_() { using V = simd<T, A>; in<V> a("a"); each<T>([&]<size_t N>(std::integral_constant<size_t, N>) { ensures(dpm::asl<N>(a.v), [&](size_t i) { return shl(a[i], N); }, "asl: lane"); }); a.unchanged(); }
//@ asr_ sint any
template<class T, class A> void asr_() { using V = simd<T, A>; in<V> a("a"); each<T>([&]<size_t N>(std::integral_constant<size_t, N>) { ensures(dpm::asr<N>(a.v), [&](size_t i) { return shr(a[i], N); }, "asr: lane"); }); a.unchanged(); }
}
