// C20: reference values for binary32 arguments, in double precision (error below 2^-26 units of the binary32 result).
// Compiled with -ffast-math, so that the loops use the vector functions of the C library; every argument is finite and in the domain.
#include <cmath>
#define L(N) void N(const double *x, double *r, long n) { for (long i = 0; i < n; ++i) r[i] = std::N(x[i]); }
namespace reference { L(sin) L(cos) L(tan) L(asin) L(acos) L(atan) L(log) L(log2) L(log10) L(log1p) }
