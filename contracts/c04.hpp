// C04  Mask queries count exactly the lanes of the mask
#include "vc.hpp"
namespace C04 {
// Storage beyond the last lane is arbitrary bits, not a canonical mask.
template<class M> struct mraw : min_<M> {
	explicit mraw(const char *n) : min_<M>(n) {
		if constexpr (!is_generic<M>) { using B = bits_t<elem_t<M>>; B r[slots<M>]; raw_out(this->v, r); for (size_t i = width<M>; i < slots<M>; ++i) r[i] = any<B>("padding"); raw_in(this->v, r); } }
};
//@ all_of_ all any
//@ all_of_ sint,f32 widths
template<class T, class A> void all_of_() { using M = simd_mask<T, A>; mraw<M> a("a"); bool r = all_of(a.v), e = true; a.unchanged();
	for (size_t i = 0; i < width<M>; ++i) e &= a[i]; vc_assert(r == e, "all_of: result"); vc_cover("all_of"); }
//@ any_of_ all any
//@ any_of_ sint,f32 widths
template<class T, class A> void any_of_() { using M = simd_mask<T, A>; mraw<M> a("a"); bool r = any_of(a.v), e = false; a.unchanged();
	for (size_t i = 0; i < width<M>; ++i) e |= a[i]; vc_assert(r == e, "any_of: result"); vc_cover("any_of"); }
//@ none_of_ all any
//@ none_of_ sint,f32 widths
template<class T, class A> void none_of_() { using M = simd_mask<T, A>; mraw<M> a("a"); bool r = none_of(a.v), e = false; a.unchanged();
	for (size_t i = 0; i < width<M>; ++i) e |= a[i]; vc_assert(r == !e, "none_of: result"); vc_cover("none_of"); }
//@ some_of_ all any
//@ some_of_ sint,f32 widths
template<class T, class A> void some_of_() { using M = simd_mask<T, A>; mraw<M> a("a"); bool r = some_of(a.v), e = false, l = true; a.unchanged();
	for (size_t i = 0; i < width<M>; ++i) e |= a[i], l &= a[i]; vc_assert(r == (e && !l), "some_of: result"); vc_cover("some_of"); }
//@ count all any
//@ count sint,f32 widths
template<class T, class A> void count() { using M = simd_mask<T, A>; mraw<M> a("a"); size_t r = reduce_count(a.v), e = 0; a.unchanged();
	for (size_t i = 0; i < width<M>; ++i) e += a[i]; vc_assert(r == e, "reduce_count: result"); vc_cover("count"); }
// Requires at least one lane set.
//@ min_index all any
//@ min_index sint,f32 widths
template<class T, class A> void min_index() { using M = simd_mask<T, A>; mraw<M> a("a"); bool s = false; for (size_t i = 0; i < width<M>; ++i) s |= a[i]; vc_assume(s);
	size_t r = reduce_min_index(a.v), e = 0; a.unchanged(); for (size_t i = width<M>; i-- > 0;) e = a[i] ? i : e; vc_assert(r == e, "reduce_min_index: result"); vc_cover("min_index"); }
//@ max_index all any
//@ max_index sint,f32 widths
template<class T, class A> void max_index() { using M = simd_mask<T, A>; mraw<M> a("a"); bool s = false; for (size_t i = 0; i < width<M>; ++i) s |= a[i]; vc_assume(s);
	size_t r = reduce_max_index(a.v), e = 0; a.unchanged(); for (size_t i = 0; i < width<M>; ++i) e = a[i] ? i : e; vc_assert(r == e, "reduce_max_index: result"); vc_cover("max_index"); }
// Queries of a mask computed by the library itself: whatever a comparison or a complement leaves in the padding.
//@ derived all any
template<class T, class A> void derived() { using M = simd_mask<T, A>; using V = simd<T, A>; in<V> a("a"), b("b"); auto m = a.v == b.v; auto n = !m;
	size_t c = 0, d = 0; for (size_t i = 0; i < width<M>; ++i) { c += a[i] == b[i]; d += !(a[i] == b[i]); }
	vc_assert(reduce_count(m) == c, "count of a comparison"); vc_assert(reduce_count(n) == d, "count of a complement");
	vc_assert(all_of(m) == (c == width<M>), "all_of a comparison"); vc_assert(any_of(n) == (d != 0), "any_of a complement"); vc_cover("derived"); }
// bool overloads
//@ scalar_ i8 scal
template<class T, class A> void scalar_() { bool b = any<bool>("b");
	vc_assert(all_of(b) == b && any_of(b) == b && none_of(b) == !b && !some_of(b) && reduce_count(b) == (size_t)b && reduce_min_index(b) == 0 && reduce_max_index(b) == 0, "bool queries"); }
}
