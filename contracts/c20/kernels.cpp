// C20: the code under contract, one shared object per instruction-set build. Only the public functions are called.
#include <dpm/simd.hpp>
#include <dpm/math.hpp>
#include <dpm/detail/fconst.cpp>
#include <dpm/detail/x86/sincos.cpp>
#include <dpm/detail/x86/tan.cpp>
#include <dpm/detail/x86/asincos.cpp>
#include <dpm/detail/x86/atan.cpp>
#include <dpm/detail/x86/log.cpp>
#include <dpm/detail/x86/log2.cpp>
#include <dpm/detail/x86/log10.cpp>
#include <dpm/detail/x86/log1p.cpp>
#include <dpm/detail/x86/hypot.cpp>
#ifdef __AVX__
constexpr std::size_t bytes = 32;
#else
constexpr std::size_t bytes = 16;
#endif
template<class T, class F> static void each(const T *x, T *r, long n, F f)
{
	using V = dpm::simd<T, dpm::simd_abi::ext::aligned_vector<bytes / sizeof(T), bytes>>;
	for (long i = 0; i < n; i += long(V::size()))
	{
		V v;
		v.copy_from(x + i, dpm::element_aligned);
		f(v).copy_to(r + i, dpm::element_aligned);
	}
}
// n is a multiple of the register width
template<class T> static void call(int fn, const T *x, T *r, long n)
{
	switch (fn)
	{
	case 0: return each(x, r, n, [](auto v) { return sin(v); });
	case 1: return each(x, r, n, [](auto v) { return cos(v); });
	case 2: return each(x, r, n, [](auto v) { return tan(v); });
	case 3: return each(x, r, n, [](auto v) { return asin(v); });
	case 4: return each(x, r, n, [](auto v) { return acos(v); });
	case 5: return each(x, r, n, [](auto v) { return atan(v); });
	case 6: return each(x, r, n, [](auto v) { return log(v); });
	case 7: return each(x, r, n, [](auto v) { return log2(v); });
	case 8: return each(x, r, n, [](auto v) { return log10(v); });
	case 9: return each(x, r, n, [](auto v) { return log1p(v); });
	}
}
extern "C" __attribute__((visibility("default"))) void c20_f32(int fn, const float *x, float *r, long n) { call(fn, x, r, n); }
extern "C" __attribute__((visibility("default"))) void c20_f64(int fn, const double *x, double *r, long n) { call(fn, x, r, n); }
