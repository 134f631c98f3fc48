// C07  Conversions between vector types keep lane order and scalar meaning
#include "vc.hpp"
namespace C07 {
// Storage kinds of the destination
struct fixed { template<size_t N> using abi = simd_abi::fixed_size<N>; };
struct buffer { template<size_t N> using abi = simd_abi::ext::packed_buffer<N>; };
struct al16 { template<size_t N> using abi = simd_abi::ext::aligned_vector<N, 16>; };
struct al32 { template<size_t N> using abi = simd_abi::ext::aligned_vector<N, 32>; };
template<class To, class From> inline bool convertible(From x) {
	if constexpr (std::floating_point<From> && std::integral<To> && !std::same_as<To, bool>) {
		const auto lo = (From)std::numeric_limits<To>::lowest(); const From hi = above<From, To>;
		if constexpr (std::unsigned_integral<To>) return x > (From)-1 && x < hi; else return x >= lo && x < hi;
	} else return true;
}
template<class V, class U> inline void defined(const in<V> &a) { for (size_t i = 0; i < width<V>; ++i) vc_assume(convertible<U>(a[i])); }

//@ broadcast all any
template<class T, class A> void broadcast() { using V = simd<T, A>; T s = any<T>("s"); V v(s); ensures_lanes(v, [&](size_t) { return s; }, "broadcast: lane"); V w = s; ensures_lanes(w, [&](size_t) { return s; }, "implicit broadcast: lane"); w = V(T(0)); w = s; ensures_lanes(w, [&](size_t) { return s; }, "assigned broadcast: lane"); }
//@ broadcast_as all any targs=i32;u32;i8;u8;i64;f32;f64
template<class T, class A, class U> void broadcast_as() { using V = simd<T, A>; U s = any<U>("s"); vc_assume(convertible<T>(s)); V v(s); ensures_lanes(v, [&](size_t) { return static_cast<T>(s); }, "converting broadcast: lane"); }
//@ generate all any
template<class T, class A> void generate() { using V = simd<T, A>; T g[width<V>]; for (auto &x : g) x = any<T>("g");
	V v([&](auto i) -> T { return g[i]; }); ensures_lanes(v, [&](size_t i) { return g[i]; }, "generator: lane"); }
//@ native all x86
template<class T, class A> void native() { using V = simd<T, A>; in<V> a("a"); auto s = ext::to_native_data(std::as_const(a.v)); using N = std::remove_const_t<typename decltype(s)::element_type>;
	V v(s); ensures_lanes(v, [&](size_t i) { return a[i]; }, "construction from a span of native vectors: lane");
	N n[decltype(s)::extent]; for (size_t i = 0; i < s.size(); ++i) n[i] = s[i];
	V w(n); ensures_lanes(w, [&](size_t i) { return a[i]; }, "construction from an array of native vectors: lane");
	V x(n[0]); ensures_lanes(x, [&](size_t i) { return a[i % (sizeof(N) / sizeof(T))]; }, "construction from one native vector: lane"); }
//@ native_mask all x86
template<class T, class A> void native_mask() { using M = simd_mask<T, A>; min_<M> a("a"); auto s = ext::to_native_data(std::as_const(a.v)); using N = std::remove_const_t<typename decltype(s)::element_type>;
	M v(s); ensures_mask(v, [&](size_t i) { return a[i]; }, "mask construction from a span of native vectors: lane");
	N n[decltype(s)::extent]; for (size_t i = 0; i < s.size(); ++i) n[i] = s[i];
	M w(n); ensures_mask(w, [&](size_t i) { return a[i]; }, "mask construction from an array of native vectors: lane");
	M x(n[0]); ensures_mask(x, [&](size_t i) { return a[i % (sizeof(N) / sizeof(T))]; }, "mask construction from one native vector: lane"); }
//@ convert all any targs=i8,fixed;u8,buffer;i16,fixed;u16,fixed;i32,fixed;i32,buffer;i32,al16;u32,fixed;u32,al32;i64,fixed;u64,fixed;f32,fixed;f32,buffer;f32,al16;f32,al32;f64,fixed;f64,buffer;f64,al32 quick=v128,v256,pad,gen qtargs=i8,fixed;u16,fixed;i32,al16;u32,al32;i64,fixed;u64,buffer;f32,fixed;f32,buffer;f64,fixed
//@ convert sint,f32,f64 widths targs=i16,fixed;f32,fixed;f64,fixed;i64,fixed;i8,fixed qtypes=i16,i32,f32,f64 qtargs=f32,fixed;i8,fixed;i64,fixed
template<class T, class A, class U, class K> void convert() { using V = simd<T, A>; using W = simd<U, typename K::template abi<width<V>>>; in<V> a("a"); defined<V, U>(a);
	W w = static_cast<W>(a.v); a.unchanged(); ensures_lanes(w, [&](size_t i) { return static_cast<U>(a[i]); }, "conversion: lane"); }
//@ rewrap all any targs=fixed;buffer;al16;al32
template<class T, class A, class K> void rewrap() { using V = simd<T, A>; using W = simd<T, typename K::template abi<width<V>>>; in<V> a("a");
	W w = a.v; a.unchanged(); out<W> o(w); for (size_t i = 0; i < width<W>; ++i) vc_assert(bits(o[i]) == bits(a[i]), "storage conversion: lane");
	V v = w; out<V> p(v); for (size_t i = 0; i < width<W>; ++i) vc_assert(bits(p[i]) == bits(a[i]), "storage round trip: lane"); }
//@ cast all any targs=i8;u8;i16;u16;i32;u32;i64;u64;f32;f64 quick=v128,v256,pad,multi,gen qtargs=i8;u16;i32;u32;i64;f32;f64
//@ cast sint,f32,f64 widths targs=i16;f32;f64;i64;i8 qtypes=i32,i64,f32,f64 qtargs=f32;i64;f64
template<class T, class A, class U> void cast() { using V = simd<T, A>; in<V> a("a"); defined<V, U>(a);
	auto s = static_simd_cast<U>(a.v); a.unchanged(); static_assert(std::same_as<typename decltype(s)::value_type, U> && decltype(s)::size() == V::size());
	ensures_lanes(s, [&](size_t i) { return static_cast<U>(a[i]); }, "static_simd_cast: lane");
	auto w = simd_cast<U>(a.v); a.unchanged(); static_assert(std::same_as<typename decltype(w)::value_type, U> && decltype(w)::size() == V::size());
	ensures_lanes(w, [&](size_t i) { return static_cast<U>(a[i]); }, "simd_cast: lane"); }
//@ cast_to all any targs=i32,buffer;f32,fixed;u8,al16;f64,al32;i64,fixed
template<class T, class A, class U, class K> void cast_to() { using V = simd<T, A>; using W = simd<U, typename K::template abi<width<V>>>; in<V> a("a"); defined<V, U>(a);
	W w = static_simd_cast<W>(a.v); ensures_lanes(w, [&](size_t i) { return static_cast<U>(a[i]); }, "static_simd_cast to a vector type: lane");
	W x = simd_cast<W>(a.v); a.unchanged(); ensures_lanes(x, [&](size_t i) { return static_cast<U>(a[i]); }, "simd_cast to a vector type: lane"); }
//@ to_fixed all any
template<class T, class A> void to_fixed() { using V = simd<T, A>; in<V> a("a"); auto r = to_fixed_size(a.v); a.unchanged(); ensures_lanes(r, [&](size_t i) { return a[i]; }, "to_fixed_size: lane"); }
// to_native / to_compatible go to the widest and the baseline register of the build.
//@ to_kind all v128,v256
template<class T, class A> void to_kind() { using V = simd<T, A>; in<V> a("a"); min_<simd_mask<T, A>> m("m");
	if constexpr (width<V> == native_simd<T>::size()) { auto r = to_native(a.v); ensures_lanes(r, [&](size_t i) { return a[i]; }, "to_native: lane"); auto q = to_native(m.v); ensures_mask(q, [&](size_t i) { return m[i]; }, "mask to_native: lane"); }
	if constexpr (width<V> == simd<T>::size()) { auto r = to_compatible(a.v); ensures_lanes(r, [&](size_t i) { return a[i]; }, "to_compatible: lane"); auto q = to_compatible(m.v); ensures_mask(q, [&](size_t i) { return m[i]; }, "mask to_compatible: lane"); }
	a.unchanged(); m.unchanged(); }
//@ mask_convert all any targs=i8,fixed;u8,buffer;i16,al16;u16,fixed;i32,fixed;u32,al32;i64,fixed;f32,fixed;f64,buffer;f64,al32 quick=v128,v256,pad,multi,gen
template<class T, class A, class U, class K> void mask_convert() { using M = simd_mask<T, A>; using W = simd_mask<U, typename K::template abi<width<M>>>; min_<M> a("a");
	W w = static_cast<W>(a.v); a.unchanged(); ensures_mask(w, [&](size_t i) { return a[i]; }, "mask conversion: lane"); }
//@ mask_to_fixed all any
template<class T, class A> void mask_to_fixed() { using M = simd_mask<T, A>; min_<M> a("a"); auto r = to_fixed_size(a.v); a.unchanged(); ensures_mask(r, [&](size_t i) { return a[i]; }, "mask to_fixed_size: lane"); }
}
