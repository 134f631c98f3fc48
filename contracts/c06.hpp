// C06  Copies to and from memory touch exactly the elements of the vector
#include "vc.hpp"
namespace C06 {
struct ea { static constexpr auto flag = element_aligned; template<class V, class U> static constexpr size_t align = alignof(U); };
struct va { static constexpr auto flag = vector_aligned; template<class V, class U> static constexpr size_t align = memory_alignment_v<V, U>; };
template<size_t N> struct oa { static constexpr auto flag = overaligned<N>; template<class V, class U> static constexpr size_t align = N > alignof(U) ? N : alignof(U); };
struct own {};
using oa16 = oa<16>; using oa64 = oa<64>;
/** The scalar conversion From -> To is defined for x. */
template<class To, class From> inline bool convertible(From x) {
	if constexpr (std::floating_point<From> && std::integral<To> && !std::same_as<To, bool>) {
		const auto lo = (From)std::numeric_limits<To>::lowest(); const From hi = above<From, To>;
		if constexpr (std::unsigned_integral<To>) return x > (From)-1 && x < hi; else return x >= lo && x < hi;
	} else return true;
}
/** Exactly N elements of unconstrained content, at the alignment the flag asks for and no more. */
template<class F, class V, class U, size_t N> inline U *buffer(U (&e)[N], const char *n) {
	auto *p = (U *)vc_alloc(sizeof(U) * N, F::template align<V, U>, n);
	for (size_t i = 0; i < N; ++i) { e[i] = any<U>(n); p[i] = e[i]; }
	return p;
}
template<class U, size_t N> inline void content(const U *p, const U (&e)[N], const char *label) { for (size_t i = 0; i < N; ++i) vc_assert(bits(p[i]) == bits(e[i]), label); }

//@ load all any targs=ea;va;oa16;oa64
//@ load sint,f32,f64 widths targs=ea;va
template<class T, class A, class F> void load() { using V = simd<T, A>; constexpr size_t N = width<V>; T e[N]; T *p = buffer<F, V>(e, "mem");
	V v; v.copy_from(p, F::flag); ensures_lanes(v, [&](size_t i) { return e[i]; }, "copy_from: lane"); content(p, e, "copy_from: memory unchanged");
	V w((const T *)p, F::flag); ensures_lanes(w, [&](size_t i) { return e[i]; }, "load constructor: lane"); }
//@ store all any targs=ea;va;oa16;oa64
//@ store sint,f32,f64 widths targs=ea;va
template<class T, class A, class F> void store() { using V = simd<T, A>; constexpr size_t N = width<V>; T e[N]; T *p = buffer<F, V>(e, "mem"); in<V> a("a");
	a.v.copy_to(p, F::flag); a.unchanged(); for (size_t i = 0; i < N; ++i) vc_assert(bits(p[i]) == bits(a[i]), "copy_to: element");
	V r; r.copy_from((const T *)p, F::flag); out<V> o(r); for (size_t i = 0; i < N; ++i) vc_assert(bits(o[i]) == bits(a[i]), "store then load: lane"); }
//@ load_as all any targs=ea,i8;va,i8;ea,u8;va,u8;ea,i16;va,i16;ea,u16;va,u16;ea,i32;va,i32;ea,u32;va,u32;ea,i64;va,i64;ea,u64;va,u64;ea,f32;va,f32;oa64,f32;ea,f64;va,f64;oa64,f64;va,bool quick=pad,multi,gen qtargs=va,i8;va,u8;va,u16;va,i32;va,u32;va,i64;va,u64;va,f32;va,f64;va,bool;ea,f32
template<class T, class A, class F, class U> void load_as() { using V = simd<T, A>; constexpr size_t N = width<V>; U e[N]; U *p = buffer<F, V>(e, "mem");
	for (size_t i = 0; i < N; ++i) vc_assume(convertible<T>(e[i]));
	V v; v.copy_from((const U *)p, F::flag); ensures_lanes(v, [&](size_t i) { return static_cast<T>(e[i]); }, "converting copy_from: lane"); }
//@ store_as all any targs=ea,i8;va,i8;ea,u8;va,u8;ea,i16;va,i16;ea,u16;va,u16;ea,i32;va,i32;ea,u32;va,u32;ea,i64;va,i64;ea,u64;va,u64;ea,f32;va,f32;oa64,f32;ea,f64;va,f64;oa64,f64;va,bool quick=pad,multi,gen qtargs=va,i8;va,u8;va,u16;va,i32;va,u32;va,i64;va,u64;va,f32;va,f64;va,bool;ea,f32
template<class T, class A, class F, class U> void store_as() { using V = simd<T, A>; constexpr size_t N = width<V>; U e[N]; U *p = buffer<F, V>(e, "mem"); in<V> a("a");
	for (size_t i = 0; i < N; ++i) vc_assume(convertible<U>(a[i]));
	a.v.copy_to(p, F::flag); a.unchanged(); for (size_t i = 0; i < N; ++i) vc_assert(same<U>(p[i], static_cast<U>(a[i])), "converting copy_to: element"); vc_cover("store"); }
//@ masked_load all any targs=ea,own;va,own;ea,f32;va,f64;va,i32;ea,i64
//@ masked_load sint,f32,f64 widths targs=ea,own
template<class T, class A, class F, class U0> void masked_load() { using U = std::conditional_t<std::same_as<U0, own>, T, U0>; using V = simd<T, A>; constexpr size_t N = width<V>; U e[N]; U *p = buffer<F, V>(e, "mem"); in<V> a("a"); min_<simd_mask<T, A>> m("m");
	for (size_t i = 0; i < N; ++i) vc_assume(!m[i] || convertible<T>(e[i]));
	V v = a.v; v.copy_from((const U *)p, m.v, F::flag); m.unchanged();
	ensures_lanes(v, [&](size_t i) { return m[i] ? static_cast<T>(e[i]) : a[i]; }, "masked copy_from: lane"); content(p, e, "masked copy_from: memory unchanged"); }
//@ masked_store all any targs=ea,own;va,own;ea,f32;va,f64;va,i32;ea,i64
//@ masked_store sint,f32,f64 widths targs=ea,own
template<class T, class A, class F, class U0> void masked_store() { using U = std::conditional_t<std::same_as<U0, own>, T, U0>; using V = simd<T, A>; constexpr size_t N = width<V>; U e[N]; U *p = buffer<F, V>(e, "mem"); in<V> a("a"); min_<simd_mask<T, A>> m("m");
	for (size_t i = 0; i < N; ++i) vc_assume(!m[i] || convertible<U>(a[i]));
	a.v.copy_to(p, m.v, F::flag); a.unchanged(); m.unchanged();
	for (size_t i = 0; i < N; ++i) vc_assert(m[i] ? same<U>(p[i], static_cast<U>(a[i])) : bits(p[i]) == bits(e[i]), "masked copy_to: element"); vc_cover("store"); }
// Unselected elements need not exist: the first and the last one lie outside the buffer.
//@ masked_partial all wide
template<class T, class A> void masked_partial() { using V = simd<T, A>; constexpr size_t N = width<V>, L = N > 2 ? N - 1 : N; T e[L - 1]; T *p = buffer<ea, V>(e, "mem") - 1; in<V> a("a"); min_<simd_mask<T, A>> m("m");
	vc_assume(!m[0] && (L == N || !m[N - 1]));
	V v = a.v; v.copy_from((const T *)p, m.v, element_aligned); ensures_lanes(v, [&](size_t i) { return m[i] ? e[i - 1] : a[i]; }, "masked copy_from: lane");
	a.v.copy_to(p, m.v, element_aligned); for (size_t i = 1; i < L; ++i) vc_assert(bits(p[i]) == (m[i] ? bits(a[i]) : bits(e[i - 1])), "masked copy_to: element"); }
//@ masked_ctor all any
template<class T, class A> void masked_ctor() { using V = simd<T, A>; constexpr size_t N = width<V>; T e[N]; T *p = buffer<ea, V>(e, "mem"); min_<simd_mask<T, A>> m("m");
	V v((const T *)p, m.v, element_aligned); out<V> o(v); for (size_t i = 0; i < N; ++i) vc_assert(!m[i] || bits(o[i]) == bits(e[i]), "masked load constructor: selected lane"); }
//@ index all any
template<class T, class A> void index() { using V = simd<T, A>; in<V> a("a"); V v = a.v; T b = any<T>("b"); size_t k = any<u32>("k"); vc_assume(k < width<V>);
	T e{}; for (size_t i = 0; i < width<V>; ++i) if (i == k) e = a[i];
	vc_assert(bits((T)std::as_const(v)[k]) == bits(e), "const index: reads the lane"); vc_assert(bits((T)v[k]) == bits(e), "index: reads the lane");
	v[k] = b; out<V> o(v); for (size_t i = 0; i < width<V>; ++i) vc_assert(bits(o[i]) == (i == k ? bits(b) : bits(a[i])), "index: writes that lane only"); }
//@ index_const all any
template<class T, class A> void index_const() { using V = simd<T, A>; in<V> a("a"); V v = a.v;
	for (size_t i = 0; i < width<V>; ++i) { vc_assert(bits((T)std::as_const(v)[i]) == bits(a[i]), "const index: reads the lane"); vc_assert(bits((T)v[i]) == bits(a[i]), "index: reads the lane"); }
	T b[width<V>]; for (size_t i = 0; i < width<V>; ++i) { b[i] = any<T>("b"); v[i] = b[i]; vc_assert(bits((T)v[i]) == bits(b[i]), "index: reads back"); }
	out<V> o(v); for (size_t i = 0; i < width<V>; ++i) vc_assert(bits(o[i]) == bits(b[i]), "index: writes the lane"); }
// Masks: memory holds bool.
//@ mask_load all any targs=ea;va;oa16;oa64
template<class T, class A, class F> void mask_load() { using M = simd_mask<T, A>; constexpr size_t N = width<M>; bool e[N]; bool *p = buffer<F, M>(e, "mem");
	M m; m.copy_from((const bool *)p, F::flag); ensures_mask(m, [&](size_t i) { return e[i]; }, "mask copy_from: lane");
	M n((const bool *)p, F::flag); ensures_mask(n, [&](size_t i) { return e[i]; }, "mask load constructor: lane"); content(p, e, "mask copy_from: memory unchanged"); }
//@ mask_store all any targs=ea;va;oa16;oa64
template<class T, class A, class F> void mask_store() { using M = simd_mask<T, A>; constexpr size_t N = width<M>; bool e[N]; bool *p = buffer<F, M>(e, "mem"); min_<M> a("a");
	a.v.copy_to(p, F::flag); a.unchanged(); for (size_t i = 0; i < N; ++i) vc_assert(((u8 *)p)[i] == (u8)a[i], "mask copy_to: element");
	M m; m.copy_from((const bool *)p, F::flag); ensures_mask(m, [&](size_t i) { return a[i]; }, "mask store then load: lane"); }
//@ mask_partial all wide
template<class T, class A> void mask_partial() { using M = simd_mask<T, A>; constexpr size_t N = width<M>, L = N > 2 ? N - 1 : N; bool e[L - 1]; bool *p = buffer<ea, M>(e, "mem") - 1; min_<M> a("a"), m("m");
	vc_assume(!m[0] && (L == N || !m[N - 1]));
	M v = a.v; v.copy_from((const bool *)p, m.v, element_aligned); ensures_mask(v, [&](size_t i) -> bool { return m[i] ? e[i - 1] : a[i]; }, "masked mask copy_from: lane");
	a.v.copy_to(p, m.v, element_aligned); for (size_t i = 1; i < L; ++i) vc_assert(((u8 *)p)[i] == (u8)(m[i] ? a[i] : e[i - 1]), "masked mask copy_to: element"); }
}
