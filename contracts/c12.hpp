// C12  Floating-point classification and quiet comparisons agree with C++
#include "vc.hpp"
namespace C12 {
// The C++ definitions, stated on the bit pattern (IEEE-754 binary32 / binary64).
template<class T> inline constexpr int mant = std::numeric_limits<T>::digits - 1;
template<class T> inline constexpr bits_t<T> inf_bits = std::same_as<T, float> ? (bits_t<T>)0x7f800000u : (bits_t<T>)0x7ff0000000000000ull;
template<class T> inline bits_t<T> mag(T x) { return bits(x) & (bits_t<T>)~((bits_t<T>)1 << (sizeof(T) * 8 - 1)); }
template<class T> inline bool r_nan(T x) { return mag(x) > inf_bits<T>; }
template<class T> inline bool r_inf(T x) { return mag(x) == inf_bits<T>; }
template<class T> inline bool r_finite(T x) { return mag(x) < inf_bits<T>; }
template<class T> inline bool r_normal(T x) { return mag(x) < inf_bits<T> && mag(x) >= ((bits_t<T>)1 << mant<T>); }
template<class T> inline bool r_sign(T x) { return mag(x) != bits(x); }
template<class T> inline int r_class(T x) { return r_nan(x) ? FP_NAN : r_inf(x) ? FP_INFINITE : mag(x) == 0 ? FP_ZERO : r_normal(x) ? FP_NORMAL : FP_SUBNORMAL; }

#define C12_1(fn, ref) \
template<class T, class A> void fn##_() { using V = simd<T, A>; in<V> x("x"); const auto m = fn(x.v); x.unchanged(); \
	ensures_mask(m, [&](size_t i) { return ref(x[i]); }, #fn ": lane"); }
//@ isnan_ fp any
//@ isnan_ fp widths
C12_1(isnan, r_nan)
//@ isinf_ fp any
//@ isinf_ fp widths
C12_1(isinf, r_inf)
//@ isfinite_ fp any
//@ isfinite_ fp widths
C12_1(isfinite, r_finite)
//@ isnormal_ fp any
//@ isnormal_ fp widths
C12_1(isnormal, r_normal)
//@ signbit_ fp any
//@ signbit_ fp widths
C12_1(signbit, r_sign)
//@ fpclassify_ fp any
template<class T, class A> void fpclassify_() { using V = simd<T, A>; in<V> x("x"); const auto r = fpclassify(x.v); x.unchanged();
	static_assert(std::remove_cvref_t<decltype(r)>::size() == V::size());
	for (size_t i = 0; i < V::size(); ++i) vc_assert((int)r[i] == r_class(x[i]), "fpclassify: lane"); vc_cover("fpclassify"); }

#define C12_2(fn, ref) \
template<class T, class A> void fn##_() { using V = simd<T, A>; in<V> a("a"), b("b"); const auto m = fn(a.v, b.v); a.unchanged(); b.unchanged(); \
	ensures_mask(m, [&](size_t i) { const T x = a[i], y = b[i]; return ref; }, #fn ": lane"); }
//@ isgreater_ fp any
//@ isgreater_ fp widths
C12_2(isgreater, x > y)
//@ isgreaterequal_ fp any
//@ isgreaterequal_ fp widths
C12_2(isgreaterequal, x >= y)
//@ isless_ fp any
//@ isless_ fp widths
C12_2(isless, x < y)
//@ islessequal_ fp any
//@ islessequal_ fp widths
C12_2(islessequal, x <= y)
//@ islessgreater_ fp any
//@ islessgreater_ fp widths
C12_2(islessgreater, (x < y || x > y))
//@ isunordered_ fp any
//@ isunordered_ fp widths
C12_2(isunordered, (r_nan(x) || r_nan(y)))
}
