// Bit-level statements of the IEEE-754 / C++ functions used as specifications. Loop-free integer code.
#pragma once
#include "vc.hpp"
namespace ieee {
template<class T> inline constexpr int mant = std::numeric_limits<T>::digits - 1;
template<class T> inline constexpr int expbits = sizeof(T) * 8 - 1 - mant<T>;
template<class T> inline constexpr int bias = (1 << (expbits<T> - 1)) - 1;
template<class T> inline constexpr int emax = (1 << expbits<T>) - 1;              // biased exponent of infinities and NaNs
template<class T> inline constexpr bits_t<T> fmask = ((bits_t<T>)1 << mant<T>) - 1;
template<class T> inline constexpr bits_t<T> smask = (bits_t<T>)1 << (sizeof(T) * 8 - 1);
template<class T> inline constexpr bits_t<T> infb = (bits_t<T>)emax<T> << mant<T>;
template<class T> inline T from(bits_t<T> b) { return std::bit_cast<T>(b); }
template<class T> inline bits_t<T> mag(T x) { return bits(x) & ~smask<T>; }
template<class T> inline bits_t<T> sgn(T x) { return bits(x) & smask<T>; }
template<class T> inline bool nan(T x) { return mag(x) > infb<T>; }
template<class T> inline bool inf(T x) { return mag(x) == infb<T>; }
template<class T> inline bool zero(T x) { return mag(x) == 0; }
template<class T> inline bool fin(T x) { return mag(x) < infb<T>; }
template<class T> inline T qnan() { return std::numeric_limits<T>::quiet_NaN(); }
/** Significand with the leading bit set and biased exponent (below 1 for subnormals) of a finite non-zero number. */
template<class T> struct dec { bits_t<T> f; int e; };
template<class T> inline dec<T> decompose(T x) {
	const bits_t<T> m = mag(x); const int e = (int)(m >> mant<T>); const bits_t<T> f = m & fmask<T>;
	const int s = std::countl_zero((bits_t<T>)(f | 1)) - expbits<T>;
	return e == 0 ? dec<T>{(bits_t<T>)(f << s), 1 - s} : dec<T>{(bits_t<T>)(f | ((bits_t<T>)1 << mant<T>)), e};
}
/** x * 2^n rounded to nearest, ties to even: the exponent moves exactly; a result below the normal range is the exact number x * 2^(n+K) times 2^-K,
    which is the one place where the product is rounded (K = mant + 2, so that x * 2^(n+K) is normal). Multiplying a subnormal x by 2^K is exact. */
template<class T> inline constexpr int K = mant<T> + 2;
template<class T> inline constexpr T twoK = (T)((bits_t<T>)1 << K<T>);
template<class T> inline T scale(T x, i64 n) {
	if (nan(x)) return qnan<T>();
	if (inf(x) || zero(x)) return x;
	const bool sub = mag(x) <= fmask<T>; const T x1 = sub ? x * twoK<T> : x;
	const bits_t<T> f = bits(x1) & fmask<T>;
	const int e = (int)(mag(x1) >> mant<T>) - (sub ? K<T> : 0) + (int)(n > 5000 ? 5000 : n < -5000 ? -5000 : n);
	if (e >= emax<T>) return from<T>(sgn(x) | infb<T>);
	if (e >= 1) return from<T>(sgn(x) | (bits_t<T>)e << mant<T> | f);
	if (e + K<T> < 1) return from<T>(sgn(x)); // below half of the least subnormal
	return from<T>(sgn(x) | (bits_t<T>)(e + K<T>) << mant<T> | f) * ((T)1 / twoK<T>);
}
}
