// C05  Masked selection takes each lane from exactly one operand
#include "vc.hpp"
namespace C05 {
//@ blend_ all any
//@ blend_ sint,f32,f64 widths
template<class T, class A> void blend_() { using V = simd<T, A>; using M = simd_mask<T, A>; in<V> a("a"), b("b"); min_<M> m("m");
	V r = blend(m.v, a.v, b.v); a.unchanged(); b.unchanged(); m.unchanged();
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(bits(o[i]) == (m[i] ? bits(a[i]) : bits(b[i])), "blend: lane"); vc_cover("blend"); }
//@ blend_mask all any
//@ blend_mask sint,f32,f64 widths
template<class T, class A> void blend_mask() { using M = simd_mask<T, A>; min_<M> m("m"), a("a"), b("b"); M r = blend(m.v, a.v, b.v); m.unchanged(); a.unchanged(); b.unchanged();
	ensures_mask(r, [&](size_t i) { return m[i] ? a[i] : b[i]; }, "mask blend: lane"); }
// The mask of the library's own comparison selects the lanes it holds for.
//@ blend_cmp all any
template<class T, class A> void blend_cmp() { using V = simd<T, A>; in<V> a("a"), b("b");
	V r = blend(a.v < b.v, a.v, b.v);
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(bits(o[i]) == (a[i] < b[i] ? bits(a[i]) : bits(b[i])), "blend by comparison: lane"); vc_cover("blend"); }
//@ blend_bool all scal
template<class T, class A> void blend_bool() { T a = any<T>("a"), b = any<T>("b"); bool m = any<bool>("m"); vc_assert(bits(blend(m, a, b)) == (m ? bits(a) : bits(b)), "bool blend"); }
}
