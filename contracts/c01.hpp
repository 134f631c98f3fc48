// C01  Arithmetic and bitwise operators act lane by lane
#include "vc.hpp"
//@ types: all=i8,u8,i16,u16,i32,u32,i64,u64,f32,f64
namespace C01 {
#define VC_BINOP(NAME, EXPR, SPEC) \
template<class T, class A> void NAME() { \
	using V = simd<T, A>; in<V> a("a"), b("b"); \
	V r = EXPR; a.unchanged(); b.unchanged(); \
	ensures_lanes(r, [&](size_t i) -> T { return SPEC; }, #NAME ": lane"); }
#define VC_ASGOP(NAME, STMT, SPEC) \
template<class T, class A> void NAME() { \
	using V = simd<T, A>; in<V> a("a"), b("b"); T s = any<T>("s"); (void)s; \
	V r = a.v; V &q = (STMT); vc_assert(&q == &r, #NAME ": returns its left operand"); a.unchanged(); b.unchanged(); \
	ensures_lanes(r, [&](size_t i) -> T { return SPEC; }, #NAME ": lane"); }
#define VC_SCALOP(NAME, EXPR, SPEC) \
template<class T, class A> void NAME() { \
	using V = simd<T, A>; in<V> a("a"); T s = any<T>("s"); \
	V r = EXPR; a.unchanged(); \
	ensures_lanes(r, [&](size_t i) -> T { return SPEC; }, #NAME ": lane"); }
#define VC_UNOP(NAME, EXPR, SPEC) \
template<class T, class A> void NAME() { \
	using V = simd<T, A>; in<V> a("a"); V r = EXPR; a.unchanged(); \
	ensures_lanes(r, [&](size_t i) -> T { return SPEC; }, #NAME ": lane"); }

//@ add all any
VC_BINOP(add, a.v + b.v, s_add<T>(a[i], b[i]))
//@ sub all any
VC_BINOP(sub, a.v - b.v, s_sub<T>(a[i], b[i]))
//@ mul all any
VC_BINOP(mul, a.v * b.v, s_mul<T>(a[i], b[i]))
//@ band int any
VC_BINOP(band, a.v & b.v, (T)(a[i] & b[i]))
//@ bor int any
VC_BINOP(bor, a.v | b.v, (T)(a[i] | b[i]))
//@ bxor int any
VC_BINOP(bxor, a.v ^ b.v, (T)(a[i] ^ b[i]))
//@ fdiv fp any
VC_BINOP(fdiv, a.v / b.v, a[i] / b[i])
//@ add_s all any
VC_SCALOP(add_s, a.v + s, s_add<T>(a[i], s))
//@ sub_s all any
VC_SCALOP(sub_s, a.v - s, s_sub<T>(a[i], s))
//@ mul_s all any
VC_SCALOP(mul_s, a.v * s, s_mul<T>(a[i], s))
//@ fdiv_s fp any
VC_SCALOP(fdiv_s, a.v / s, a[i] / s)
//@ and_s int any
VC_SCALOP(and_s, a.v & s, (T)(a[i] & s))
//@ or_s int any
VC_SCALOP(or_s, a.v | s, (T)(a[i] | s))
//@ xor_s int any
VC_SCALOP(xor_s, a.v ^ s, (T)(a[i] ^ s))
//@ neg all any
VC_UNOP(neg, -a.v, s_neg<T>(a[i]))
//@ plus all any
VC_UNOP(plus, +a.v, a[i])
//@ compl_ int any
VC_UNOP(compl_, ~a.v, (T)~a[i])
//@ add_assign all any
VC_ASGOP(add_assign, r += b.v, s_add<T>(a[i], b[i]))
//@ sub_assign all any
VC_ASGOP(sub_assign, r -= b.v, s_sub<T>(a[i], b[i]))
//@ mul_assign all any
VC_ASGOP(mul_assign, r *= b.v, s_mul<T>(a[i], b[i]))
//@ div_assign fp any
VC_ASGOP(div_assign, r /= b.v, a[i] / b[i])
//@ and_assign int any
VC_ASGOP(and_assign, r &= b.v, (T)(a[i] & b[i]))
//@ or_assign int any
VC_ASGOP(or_assign, r |= b.v, (T)(a[i] | b[i]))
//@ xor_assign int any
VC_ASGOP(xor_assign, r ^= b.v, (T)(a[i] ^ b[i]))
//@ add_eq_s all any
VC_ASGOP(add_eq_s, r += s, s_add<T>(a[i], s))
//@ sub_eq_s all any
VC_ASGOP(sub_eq_s, r -= s, s_sub<T>(a[i], s))
//@ mul_eq_s all any
VC_ASGOP(mul_eq_s, r *= s, s_mul<T>(a[i], s))
//@ div_eq_s fp any
VC_ASGOP(div_eq_s, r /= s, a[i] / s)
//@ and_eq_s int any
VC_ASGOP(and_eq_s, r &= s, (T)(a[i] & s))
//@ or_eq_s int any
VC_ASGOP(or_eq_s, r |= s, (T)(a[i] | s))
//@ xor_eq_s int any
VC_ASGOP(xor_eq_s, r ^= s, (T)(a[i] ^ s))
//@ preinc all any
VC_ASGOP(preinc, ++r, s_add<T>(a[i], T(1)))
//@ predec all any
VC_ASGOP(predec, --r, s_sub<T>(a[i], T(1)))
//@ postinc all any
template<class T, class A> void postinc() {
	using V = simd<T, A>; in<V> a("a"); V r = a.v; V q = r++;
	ensures_lanes(q, [&](size_t i) { return a[i]; }, "postinc: returns the old value");
	ensures_lanes(r, [&](size_t i) { return s_add<T>(a[i], T(1)); }, "postinc: lane"); }
//@ postdec all any
template<class T, class A> void postdec() {
	using V = simd<T, A>; in<V> a("a"); V r = a.v; V q = r--;
	ensures_lanes(q, [&](size_t i) { return a[i]; }, "postdec: returns the old value");
	ensures_lanes(r, [&](size_t i) { return s_sub<T>(a[i], T(1)); }, "postdec: lane"); }
// Integer division and remainder: requires a non-zero divisor in every lane and no INT_MIN / -1.
//@ idiv int any
template<class T, class A> void idiv() {
	using V = simd<T, A>; in<V> a("a"), b("b");
	for (size_t i = 0; i < width<V>; ++i) vc_assume(b[i] != 0 && !(std::signed_integral<T> && b[i] == T(-1) && a[i] == std::numeric_limits<T>::min()));
	V r = a.v / b.v; a.unchanged(); b.unchanged();
	ensures_lanes(r, [&](size_t i) -> T { return a[i] / b[i]; }, "idiv: lane"); }
//@ imod int any
template<class T, class A> void imod() {
	using V = simd<T, A>; in<V> a("a"), b("b");
	for (size_t i = 0; i < width<V>; ++i) vc_assume(b[i] != 0 && !(std::signed_integral<T> && b[i] == T(-1) && a[i] == std::numeric_limits<T>::min()));
	V r = a.v % b.v; a.unchanged(); b.unchanged();
	ensures_lanes(r, [&](size_t i) -> T { return a[i] % b[i]; }, "imod: lane"); }
//@ idiv_s int any
template<class T, class A> void idiv_s() {
	using V = simd<T, A>; in<V> a("a"); T s = any<T>("s");
	vc_assume(s != 0); for (size_t i = 0; i < width<V>; ++i) vc_assume(!(std::signed_integral<T> && s == T(-1) && a[i] == std::numeric_limits<T>::min()));
	V r = a.v / s; V q = a.v; q /= s; V m = a.v % s; V n = a.v; n %= s; a.unchanged();
	ensures_lanes(r, [&](size_t i) -> T { return a[i] / s; }, "idiv_s: lane");
	ensures_lanes(q, [&](size_t i) -> T { return a[i] / s; }, "idiv_eq_s: lane");
	ensures_lanes(m, [&](size_t i) -> T { return a[i] % s; }, "imod_s: lane");
	ensures_lanes(n, [&](size_t i) -> T { return a[i] % s; }, "imod_eq_s: lane"); }
}
