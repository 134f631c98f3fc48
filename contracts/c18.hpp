// C18  Hypotenuse is symmetric, sign-blind and exact at its special values
#include "ieee.hpp"
#include <dpm/detail/fconst.cpp>
#include <dpm/detail/x86/hypot.cpp>
namespace C18 {
using namespace ieee;
template<class V> inline V negated(const in<V> &x) { elem_t<V> y[slots<V>]; for (size_t i = 0; i < slots<V>; ++i) y[i] = from<elem_t<V>>(bits(x[i]) ^ smask<elem_t<V>>); V v; raw_in(v, y); return v; }
//@ symmetric fp x86
template<class T, class A> void symmetric() { using V = simd<T, A>; in<V> a("a"), b("b"); out<V> p(hypot(a.v, b.v)), q(hypot(b.v, a.v)); a.unchanged(); b.unchanged();
	for (size_t i = 0; i < width<V>; ++i) { const bool n = nan(a[i]) || nan(b[i]); vc_assert(!n || same(p[i], q[i]), "hypot(a, b) == hypot(b, a), NaN operand"); vc_assert(n || same(p[i], q[i]), "hypot(a, b) == hypot(b, a)"); } vc_cover("hypot"); }
//@ sign_first fp x86
template<class T, class A> void sign_first() { using V = simd<T, A>; in<V> a("a"), b("b"); out<V> p(hypot(a.v, b.v)), q(hypot(negated(a), b.v));
	for (size_t i = 0; i < width<V>; ++i) vc_assert(same(p[i], q[i]), "hypot(-a, b) == hypot(a, b)"); vc_cover("hypot"); }
//@ sign_second fp x86
template<class T, class A> void sign_second() { using V = simd<T, A>; in<V> a("a"), b("b"); out<V> p(hypot(a.v, b.v)), q(hypot(a.v, negated(b)));
	for (size_t i = 0; i < width<V>; ++i) vc_assert(same(p[i], q[i]), "hypot(a, -b) == hypot(a, b)"); vc_cover("hypot"); }
//@ special fp x86
//@ special fp widths
template<class T, class A> void special() { using V = simd<T, A>; in<V> a("a"), b("b"); out<V> r(hypot(a.v, b.v)); a.unchanged(); b.unchanged();
	for (size_t i = 0; i < width<V>; ++i) { const T x = a[i], y = b[i]; const bool lib = same(r[i], (T)std::hypot(x, y)); // the generic code path hands the lane to the C library
		vc_assert(lib || !(inf(x) || inf(y)) || bits(r[i]) == infb<T>, "hypot of an infinity is +infinity, even if the other operand is NaN");
		vc_assert(lib || inf(x) || inf(y) || !(nan(x) || nan(y)) || nan(r[i]), "hypot of a NaN and a number is NaN");
		vc_assert(lib || !zero(x) || nan(y) || bits(r[i]) == mag(y), "hypot(0, y) == |y|");
		vc_assert(lib || !zero(y) || nan(x) || bits(r[i]) == mag(x), "hypot(x, 0) == |x|"); }
	vc_cover("hypot"); }
//@ range f32 x86
template<class T, class A> void range() { using V = simd<T, A>; in<V> a("a"), b("b"); out<V> r(hypot(a.v, b.v));
	for (size_t i = 0; i < width<V>; ++i) { const T x = a[i], y = b[i]; vc_assert(nan(x) || nan(y) || (!nan(r[i]) && sgn(r[i]) == 0), "hypot of two numbers is a number and not negative"); }
	vc_cover("hypot"); }
}
