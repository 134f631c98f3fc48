// C20: evaluates the functions under contract and reports every kind of miss.  usage: c20 SEED POINTS64 SECONDS CFG=lib.so...  |  c20 point CFG=lib.so FN f32|f64 HEXBITS
#include "../c20.hpp"
#include <atomic>
#include <bit>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
using namespace C20;
namespace reference { using L = void(const double *, double *, long); L sin, cos, tan, asin, acos, atan, log, log2, log10, log1p; }
static reference::L *const refs[] = {reference::sin, reference::cos, reference::tan, reference::asin, reference::acos, reference::atan, reference::log, reference::log2, reference::log10, reference::log1p};
struct build { std::string cfg; void (*f32)(int, const float *, float *, long); void (*f64)(int, const double *, double *, long); };
static std::vector<build> builds;
static std::mutex lock;
struct stat { double worst = 0; double at = 0; uint64_t n = 0, misses = 0, near = 0; double bad_x = 0, bad_r = 0, bad_y = 0, bad_ulps = -1; };
static void merge(stat &a, const stat &b)
{
	if (b.worst > a.worst) a.worst = b.worst, a.at = b.at;
	a.n += b.n; a.misses += b.misses; a.near += b.near;
	if (b.bad_ulps > a.bad_ulps) a.bad_ulps = b.bad_ulps, a.bad_x = b.bad_x, a.bad_r = b.bad_r, a.bad_y = b.bad_y;
}
template<class T> long double ulp_of(long double y) { int e; if (y == 0) e = -100000; else { std::frexp(y, &e); } const int p = sizeof(T) == 4 ? 24 : 53, m = sizeof(T) == 4 ? -149 : -1074; return std::ldexp(1.0L, std::max(e - p, m)); }
template<class T> bool hit(stat &s, const row &f, T x, T r, long double y)
{
	const long double err = std::fabs((long double)r - y), u = ulp_of<T>(y);
	double ulps = r == T(y) ? 0 : std::isfinite(r) ? double(err / u) : 1e300;
	const double max = sizeof(T) == 4 ? f.ulps32 : f.ulps64;
	if (ulps <= max) { if (ulps > s.worst) s.worst = ulps, s.at = x; return true; }
	if (std::isfinite(r) && near_zero(f.name, sizeof(T) == 4, x, y, err)) { ++s.near; return true; }
	++s.misses;
	if (ulps > s.bad_ulps) s.bad_ulps = ulps, s.bad_x = x, s.bad_r = r, s.bad_y = double(y);
	return false;
}
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9; z = (z ^ (z >> 27)) * 0x94d049bb133111eb; return z ^ (z >> 31); }
static double sample(uint64_t seed, uint64_t i)
{
	const uint64_t h = mix(seed * 0x100000001b3 + i), g = mix(h);
	const uint64_t mant = g & 0xfffffffffffff, sign = (g >> 63) << 63;
	const auto mk = [&](int e) { return std::bit_cast<double>(sign | (uint64_t(e + 1023) << 52) | mant); };
	const auto near = [&](double c) { return std::bit_cast<double>(std::bit_cast<uint64_t>(c) + int64_t(g % 65) - 32); };
	switch (h % 10)
	{
	case 0: return std::bit_cast<double>(g);										// any bit pattern
	case 1: case 2: return mk(int((h >> 8) % 20) - 10);
	case 3: { const int e = int((h >> 8) % 52) + 1; return 1.0 + std::ldexp(double(int64_t(g) >> 11), -52 - e); }	// around 1
	case 4: { const double k = double((h >> 8) & ((1ull << ((h >> 40) % 40)) - 1)); return near(k * 0.785398163397448309616) * (sign ? -1 : 1); }	// around multiples of pi / 4
	case 5: return std::bit_cast<double>(sign | (uint64_t(int((h >> 8) % 6) - 3 + 1023) << 52) | (((g >> 3) & 0xfff) << 40)) * (1 + ((h >> 20) % 5 - 2.0) * 0x1p-52);	// ends of table intervals
	case 6: { static const double c[] = {0.5, 0.625, 0.66, 1, 2.41421356237309504880, 0.41421356237309504880, 0.0981747704246810387, 1e-8, 0x1p-1022, 0x1p52, 0x1p53, 0x1p31, 0x1p32, 0x1p-54, 0x1p-29}; return near(c[(h >> 8) % 15]) * (sign ? -1 : 1); }
	case 7: return mk(int((h >> 8) % 120) - 60);
	case 8: return mk(int((h >> 8) % 3) - 2);										// 1/4 .. 2
	default: return mk(-int((h >> 8) % 40));
	}
}
int main(int argc, char **argv)
{
	const bool point = argc > 1 && !std::strcmp(argv[1], "point");
	int a = point ? 2 : 4;
	for (; a < argc && std::strchr(argv[a], '='); ++a)
	{
		std::string s = argv[a]; const auto p = s.find('=');
		void *h = dlopen(s.c_str() + p + 1, RTLD_NOW | RTLD_LOCAL);
		if (!h) { std::fprintf(stderr, "%s\n", dlerror()); return 2; }
		builds.push_back({s.substr(0, p), (decltype(build::f32))dlsym(h, "c20_f32"), (decltype(build::f64))dlsym(h, "c20_f64")});
	}
	if (point)
	{
		for (int f = 0; f < 10; ++f) if (argv[a] == std::string(rows[f].name))
		{
			const uint64_t bits = std::strtoull(argv[a + 2], nullptr, 16); stat s; bool ok; double x, r; long double y;
			if (argv[a + 1] == std::string("f32")) { alignas(32) float v[8], o[8]; for (auto &e : v) e = std::bit_cast<float>(uint32_t(bits)); builds[0].f32(f, v, o, 8); x = v[0]; r = o[0]; y = rows[f].exact(v[0]); ok = hit<float>(s, rows[f], v[0], o[0], y); }
			else { alignas(32) double v[8], o[8]; for (auto &e : v) e = std::bit_cast<double>(bits); builds[0].f64(f, v, o, 8); x = v[0]; r = o[0]; y = rows[f].exact(v[0]); ok = hit<double>(s, rows[f], v[0], o[0], y); }
			std::printf("%s %s(%a) = %a, exact value %.20Lg: %s\n", builds[0].cfg.c_str(), rows[f].name, x, r, y, ok ? "within the contract" : "VIOLATED");
			return ok ? 0 : 1;
		}
		return 2;
	}
	const uint64_t seed = std::strtoull(argv[1], nullptr, 0), points = std::strtoull(argv[2], nullptr, 0), seconds = std::strtoull(argv[3], nullptr, 0);
	// binary32 arguments are enumerated in 16 passes, one per value of the low four bits; no pass is begun after SECONDS
	constexpr uint64_t stride = 16; uint64_t passes = 0;
	const auto begin = std::chrono::steady_clock::now();
	std::vector<stat> st(10 * 2 * builds.size());
	constexpr long B = 4096;
	const uint64_t chunks32 = ((1ull << 32) / stride + B * 16 - 1) / (B * 16), chunks64 = (points + B * 16 - 1) / (B * 16);
	const auto worker = [&](int f, int ty, std::atomic<uint64_t> &next)
	{
		std::vector<stat> my(builds.size());
		alignas(64) static thread_local float x32[B], r32[B]; alignas(64) static thread_local double xd[B], yd[B], rd[B]; static thread_local long double yl[B];
		const row &row = rows[f];
		for (uint64_t c; (c = next++) < (ty ? chunks64 : chunks32); )
			for (int sub = 0; sub < 16; ++sub)
			{
				const uint64_t base = (c * 16 + sub) * B; long n = 0;
				if (!ty)
				{
					for (long i = 0; i < B; ++i)
					{
						const uint64_t b = (base + i) * stride + (passes * 11 + seed) % stride; if (b >> 32) break;
						const float x = std::bit_cast<float>(uint32_t(b));
						if (std::isfinite(x) && x >= row.lo && x <= row.hi && !(row.lo == 0 && x == 0) && !(row.lo == -1 && row.hi > 1 && x == -1)) x32[n] = x, xd[n++] = x;
					}
					if (!n) continue;
					const long m = (n + 7) / 8 * 8; for (long i = n; i < m; ++i) x32[i] = x32[0];
					refs[f](xd, yd, n);
					for (size_t k = 0; k < builds.size(); ++k)
					{
						builds[k].f32(f, x32, r32, m); double worst = my[k].worst; my[k].n += uint64_t(n);
						for (long i = 0; i < n; ++i)
						{
							const double y = yd[i]; uint64_t e = (std::bit_cast<uint64_t>(y) >> 52) & 0x7ff; e = std::max<uint64_t>(e, 1023 - 126);
							const double err = std::fabs(double(r32[i]) - y), q = err * std::bit_cast<double>((2046 + 23 - e) << 52);
							if (!(q <= worst)) { if (q <= row.ulps32) { worst = my[k].worst = q; my[k].at = xd[i]; } else hit<float>(my[k], row, x32[i], r32[i], row.exact(xd[i])); }
						}
					}
				}
				else
				{
					for (long i = 0; i < B; ++i) { const double x = sample(seed, base + i); if (std::isfinite(x) && x >= row.lo && x <= row.hi && !(row.lo == 0 && x == 0) && !(row.lo == -1 && row.hi > 1 && x == -1)) xd[n++] = x; }
					const long m = (n + 7) / 8 * 8; for (long i = n; i < m; ++i) xd[i] = xd[0];
					for (long i = 0; i < n; ++i) yl[i] = row.exact(xd[i]);
					for (size_t k = 0; k < builds.size(); ++k) { builds[k].f64(f, xd, rd, m); my[k].n += uint64_t(n); for (long i = 0; i < n; ++i) hit<double>(my[k], row, xd[i], rd[i], yl[i]); }
				}
			}
		std::lock_guard g(lock);
		for (size_t k = 0; k < builds.size(); ++k) merge(st[(f * 2 + ty) * builds.size() + k], my[k]);
	};
	const auto run = [&](int f, int ty)
	{
		std::atomic<uint64_t> next{0}; std::vector<std::thread> th;
		for (unsigned t = 0; t < std::max(1u, std::thread::hardware_concurrency()); ++t) th.emplace_back([&] { worker(f, ty, next); });
		for (auto &t : th) t.join();
	};
	const auto missed = [&] { for (auto &s : st) if (s.misses) return true; return false; };
	for (int f = 0; f < 10; ++f) run(f, 1);
	for (; passes < stride && !(passes && (missed() || std::chrono::steady_clock::now() - begin > std::chrono::seconds(seconds))); ++passes)
		for (int f = 0; f < 10; ++f) run(f, 0);
	bool first = true; std::printf("{\"passes\":%d,\"of\":%d,\"results\":[", (int)passes, (int)stride);
	for (int f = 0; f < 10; ++f) for (int ty = 0; ty < 2; ++ty) for (size_t k = 0; k < builds.size(); ++k)
	{
		const stat &s = st[(f * 2 + ty) * builds.size() + k];
		const auto hex = [&](double x) { char t[32]; if (ty) std::snprintf(t, 32, "%016llx", (unsigned long long)std::bit_cast<uint64_t>(x)); else std::snprintf(t, 32, "%08x", std::bit_cast<uint32_t>(float(x))); return std::string(t); };
		std::printf("%s\n{\"fn\":\"%s\",\"type\":\"%s\",\"cfg\":\"%s\",\"bound_ulps\":%g,\"evaluations\":%llu,\"worst_ulps\":%.4g,\"worst_at\":\"%s\",\"misses\":%llu", first ? "" : ",", rows[f].name, ty ? "f64" : "f32", builds[k].cfg.c_str(), ty ? rows[f].ulps64 : rows[f].ulps32, (unsigned long long)s.n, s.worst, hex(s.at).c_str(), (unsigned long long)s.misses);
		first = false;
		if (s.misses) std::printf(",\"bad\":{\"bits\":\"%s\",\"x\":\"%a\",\"result\":\"%a\",\"exact\":\"%.17g\",\"ulps\":%.6g}", hex(s.bad_x).c_str(), s.bad_x, s.bad_r, s.bad_y, s.bad_ulps);
		std::printf(",\"near_zero\":%llu}", (unsigned long long)s.near);
	}
	std::printf("\n]}\n");
}
