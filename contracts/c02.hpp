// C02  Vector comparisons decide each lane like the scalar comparison
#include "vc.hpp"
namespace C02 {
#define VC_CMP(NAME, OP) \
template<class T, class A> void NAME() { \
	using V = simd<T, A>; in<V> a("a"), b("b"); \
	auto m = a.v OP b.v; a.unchanged(); b.unchanged(); \
	ensures_mask(m, [&](size_t i) { return a[i] OP b[i]; }, #NAME ": lane"); }
//@ eq all any
//@ eq all widths
VC_CMP(eq, ==)
//@ ne all any
VC_CMP(ne, !=)
//@ lt all any
//@ lt all widths
VC_CMP(lt, <)
//@ le all any
VC_CMP(le, <=)
//@ gt all any
VC_CMP(gt, >)
//@ ge all any
VC_CMP(ge, >=)
// Comparison with a scalar: the scalar is broadcast.
#define VC_CMPS(NAME, OP) \
template<class T, class A> void NAME() { \
	using V = simd<T, A>; in<V> a("a"); T s = any<T>("s"); \
	auto m = a.v OP V{s}; auto n = V{s} OP a.v; a.unchanged(); \
	ensures_mask(m, [&](size_t i) { return a[i] OP s; }, #NAME ": lane"); \
	ensures_mask(n, [&](size_t i) { return s OP a[i]; }, #NAME ": lane (scalar on the left)"); }
//@ eq_s all any
VC_CMPS(eq_s, ==)
//@ lt_s all any
VC_CMPS(lt_s, <)
//@ ge_s all any
VC_CMPS(ge_s, >=)
//@ not_ all any
template<class T, class A> void not_() {
	using V = simd<T, A>; in<V> a("a"); auto m = !a.v; a.unchanged();
	ensures_mask(m, [&](size_t i) { return !a[i]; }, "logical not: lane"); }
// Aliased operands.
//@ self all any
template<class T, class A> void self() {
	using V = simd<T, A>; in<V> a("a");
	ensures_mask(a.v == a.v, [&](size_t i) { return !isnan_(a[i]); }, "self ==: lane");
	ensures_mask(a.v != a.v, [&](size_t i) { return isnan_(a[i]); }, "self !=: lane");
	ensures_mask(a.v <= a.v, [&](size_t i) { return !isnan_(a[i]); }, "self <=: lane");
	ensures_mask(a.v < a.v, [&](size_t) { return false; }, "self <: lane"); }
}
