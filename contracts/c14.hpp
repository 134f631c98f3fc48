// C14  Rounding functions return the correctly rounded integral value
#include "ieee.hpp"
namespace C14 {
// Integer results are specified where the rounded value is representable.
template<class I, class T> inline bool rep(T x) { return x >= (T)std::numeric_limits<I>::min() && x < above<T, I>; }
#define VC_ROUND(F) template<class T, class A> void F##_() { using V = simd<T, A>; in<V> x("x"); const auto r = F(x.v); static_assert(std::same_as<decltype(r), const V>); x.unchanged(); \
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(o[i], (T)std::F(x[i])), #F ": lane"); vc_cover(#F); }
// Modular: the function of the same library that rounds to a floating-point value is used through its own contract (round_, rint_, trunc_ below).
#define VC_IROUND(F, N, I, R) template<class T, class A> void N() { using V = simd<T, A>; in<V> x("x"); const auto r = F(x.v); x.unchanged(); using E = std::remove_cvref_t<decltype(r)>; static_assert(E::size() == V::size() && std::same_as<typename E::value_type, I>); \
	out<V> c(R(x.v)); out<E> o(r); for (size_t i = 0; i < width<V>; ++i) { const T w = std::R(x[i]); vc_assume(same(c[i], w)); vc_assert(!rep<I>(w) || o[i] == (I)w, #F ": lane"); } vc_cover(#N); }

//@ ceil_ fp any
//@ ceil_ fp widths
VC_ROUND(ceil)
//@ floor_ fp any
//@ floor_ fp widths
VC_ROUND(floor)
//@ trunc_ fp any
//@ trunc_ fp widths
VC_ROUND(trunc)
//@ round_ fp any
//@ round_ fp widths
VC_ROUND(round)
//@ rint_ fp any
//@ rint_ fp widths
VC_ROUND(rint)
//@ nearbyint_ fp any
//@ nearbyint_ fp widths
VC_ROUND(nearbyint)
// The functions that round in the current direction, whatever it is (the SSE2 emulation computes it by additions and is specified for the default direction only).
#define VC_RDIR(F) template<class T, class A> void F##_dir() { using V = simd<T, A>; vc_rounding(any<uint8_t>("direction")); in<V> x("x"); const auto r = F(x.v); x.unchanged(); \
	out<V> o(r); for (size_t i = 0; i < width<V>; ++i) vc_assert(same(o[i], (T)std::F(x[i])), #F " in the current direction: lane"); vc_cover(#F); }
//@ rint_dir fp any cfg=sse4.2,avx,avx2-fma
//@ rint_dir fp widths cfg=sse4.2,avx,avx2-fma
//@ rint_dir fp gen cfg=sse2
VC_RDIR(rint)
//@ nearbyint_dir fp any cfg=sse4.2,avx,avx2-fma
//@ nearbyint_dir fp widths cfg=sse4.2,avx,avx2-fma
//@ nearbyint_dir fp gen cfg=sse2
VC_RDIR(nearbyint)
//@ lround_ fp any
//@ lround_ fp widths
VC_IROUND(lround, lround_, long, round)
//@ llround_ fp any
VC_IROUND(llround, llround_, long long, round)
//@ lrint_ fp any
//@ lrint_ fp widths
VC_IROUND(lrint, lrint_, long, rint)
//@ llrint_ fp any
VC_IROUND(llrint, llrint_, long long, rint)
//@ itrunc_i32 fp any
//@ itrunc_i32 fp widths
VC_IROUND(ext::itrunc<i32>, itrunc_i32, i32, trunc)
//@ itrunc_i64 fp any
VC_IROUND(ext::itrunc<i64>, itrunc_i64, i64, trunc)
//@ iround_i32 fp any
//@ iround_i32 fp widths
VC_IROUND(ext::iround<i32>, iround_i32, i32, round)
//@ iround_i64 fp any
VC_IROUND(ext::iround<i64>, iround_i64, i64, round)
//@ irint_i32 fp any
//@ irint_i32 fp widths
VC_IROUND(ext::irint<i32>, irint_i32, i32, rint)
//@ irint_i64 fp any
VC_IROUND(ext::irint<i64>, irint_i64, i64, rint)
//@ ltrunc_ fp any
VC_IROUND(ext::ltrunc, ltrunc_, long, trunc)
//@ lltrunc_ fp any
VC_IROUND(ext::lltrunc, lltrunc_, long long, trunc)
}
