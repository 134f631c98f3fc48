// C08  Shuffle moves lanes exactly where stated
#include "vc.hpp"
namespace C08 {
// Families of index lists: M output lanes over N input lanes, at(i) names the input lane of output lane i.
struct identity { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t) { return i; } };
struct reversed { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { return n - 1 - i; } };
template<size_t K> struct rotate { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { return (i + K) % n; } };
using rot1 = rotate<1>; using rot2 = rotate<2>; using rot5 = rotate<5>;
struct rotb { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { return (i + n - 1) % n; } };
struct halves { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { return (i + n / 2) % n; } };
struct first { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t, size_t) { return 0; } };
struct last { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t, size_t n) { return n - 1; } };
struct dup { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t) { return i & ~(size_t)1; } };
struct dupo { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { return (i | 1) % n; } };
struct swap2 { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { return (i ^ 1) % n; } };
struct unpacklo { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t) { return i / 2; } };
struct unpackhi { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { return n / 2 + i / 2; } };
struct evens { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { return i * 2 % n; } };
struct odds { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { return (i * 2 + 1) % n; } };
// arbitrary lists from a fixed congruential sequence
template<size_t S> struct lcg { static constexpr size_t m(size_t n) { return n; } static constexpr size_t at(size_t i, size_t n) { uint64_t x = S * 0x9e3779b97f4a7c15ull + 12345; for (size_t k = 0; k <= i; ++k) x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % n; } };
using rnd1 = lcg<1>; using rnd2 = lcg<2>; using rnd3 = lcg<3>; using rnd4 = lcg<4>; using rnd5 = lcg<5>; using rnd6 = lcg<6>; using rnd7 = lcg<7>; using rnd8 = lcg<8>;
// fewer or more output lanes than input lanes
struct low { static constexpr size_t m(size_t n) { return n > 2 ? n / 2 + (n & 1) : 1; } static constexpr size_t at(size_t i, size_t) { return i; } };
struct high { static constexpr size_t m(size_t n) { return n > 2 ? n / 2 : 1; } static constexpr size_t at(size_t i, size_t n) { return n - m(n) + i; } };
struct one { static constexpr size_t m(size_t) { return 1; } static constexpr size_t at(size_t, size_t n) { return n - 1; } };
struct wide { static constexpr size_t m(size_t n) { return n + 3; } static constexpr size_t at(size_t i, size_t n) { return (n + 2 - i) % n; } };
struct twice { static constexpr size_t m(size_t n) { return 2 * n; } static constexpr size_t at(size_t i, size_t n) { return i % n; } };
struct narrow { static constexpr size_t m(size_t n) { return n > 3 ? n - 1 : n; } static constexpr size_t at(size_t i, size_t n) { return (i * 3 + 1) % n; } };

template<class P, size_t N, class X, size_t... Js> inline auto go(const X &x, std::index_sequence<Js...>) { return ext::shuffle<P::at(Js, N)...>(x); }
template<class P, class X> inline auto apply(const X &x) { constexpr size_t N = width<X>; return go<P, N>(x, std::make_index_sequence<P::m(N)>{}); }

//@ shuffle_ all any targs=identity;reversed;rot1;rot2;rot5;rotb;halves;first;last;dup;dupo;swap2;unpacklo;unpackhi;evens;odds;rnd1;rnd2;rnd3;rnd4;rnd5;rnd6;rnd7;rnd8;low;high;one;wide;twice;narrow qtargs=identity;reversed;rot1;rotb;halves;last;dup;unpacklo;odds;rnd1;rnd2;rnd3;low;high;one;wide;narrow
template<class T, class A, class P> void shuffle_() { using V = simd<T, A>; constexpr size_t N = width<V>; in<V> a("a"); auto r = apply<P>(a.v); a.unchanged(); static_assert(decltype(r)::size() == P::m(N));
	out<decltype(r)> o(r); for (size_t i = 0; i < P::m(N); ++i) vc_assert(bits(o[i]) == bits(a[P::at(i, N)]), "shuffle: lane"); vc_cover("shuffle"); }
//@ shuffle_mask all any targs=identity;reversed;rot1;rot2;rot5;rotb;halves;first;last;dup;dupo;swap2;unpacklo;unpackhi;evens;odds;rnd1;rnd2;rnd3;rnd4;low;high;one;wide;twice;narrow qtargs=identity;reversed;rot1;halves;last;unpacklo;odds;rnd1;rnd2;low;high;one;wide;narrow qtypes=i8,u16,i32,u64,f32,f64
template<class T, class A, class P> void shuffle_mask() { using M = simd_mask<T, A>; constexpr size_t N = width<M>; min_<M> a("a"); auto r = apply<P>(a.v); a.unchanged(); static_assert(decltype(r)::size() == P::m(N));
	ensures_mask(r, [&](size_t i) -> bool { return a[P::at(i, N)]; }, "mask shuffle: lane"); }
}
