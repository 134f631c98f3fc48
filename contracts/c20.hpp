// C20  Transcendental results stay within a few units of the true value
//
// Contract of every function f below, for both floating-point types and every instruction-set build:
//   requires  x finite and in the domain of f
//   ensures   |f(x) - F(x)| <= ulps * ulp(F(x)),  F the real function, ulp(y) the unit in the last place of y in the type of x
// C16 proves that the value in a lane depends on the element in this lane alone (not on its position, the other lanes or the storage),
// so the obligation is one about a function of one scalar.
//   binary32: decided for every value in the domain, by evaluating the compiled function at each of them (no bound).
//   binary64: BOUNDED stand-in: evaluated at sampled arguments only (their number is in the evidence).
#pragma once
#include <cmath>
#include <cstring>
namespace C20
{
	struct row
	{
		const char *name;
		double lo, hi;				// domain: lo <= x <= hi
		double ulps32, ulps64;		// allowed error
		long double (*exact)(long double);
	};
	// logarithms: positive arguments; log1p: x > -1; inverse sine and cosine: [-1, 1]
	inline constexpr row rows[] = {
		{"sin", -INFINITY, INFINITY, 6, 3, &sinl}, {"cos", -INFINITY, INFINITY, 6, 3, &cosl}, {"tan", -INFINITY, INFINITY, 8, 7, &tanl},
		{"asin", -1, 1, 3.5, 3.5, &asinl}, {"acos", -1, 1, 2.5, 2.5, &acosl}, {"atan", -INFINITY, INFINITY, 2.5, 2.5, &atanl},
		{"log", 0, INFINITY, 5, 5, &logl}, {"log2", 0, INFINITY, 5, 5, &log2l}, {"log10", 0, INFINITY, 5, 5, &log10l}, {"log1p", -1, INFINITY, 5, 5, &log1pl},
	};
	// ... or, close to a zero of the function other than the origin,
	//           |f(x) - F(x)| <= eps  (sine, cosine; eps (1 + F(x)^2) for the tangent; 2 eps for the logarithms), eps the unit in the last place of 1
	inline bool near_zero(const char *fn, bool f32, long double x, long double y, long double err)
	{
		const long double eps = f32 ? 0x1p-23L : 0x1p-52L;
		if (fn[0] == 's' || fn[0] == 'c') return std::fabs(x) > 1 && err <= eps;
		if (fn[0] == 't') return std::fabs(x) > 1 && err <= eps * (1 + y * y);
		if (fn[0] == 'l') return std::fabs(y) < 1 && err <= 2 * eps && (std::strcmp(fn, "log1p") || std::fabs(x) > (f32 ? 0x1p-8L : 0x1p-11L));
		return false;
	}
}
