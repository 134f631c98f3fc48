// Native runtime for replaying a counterexample against the real code (built by g++ with the shipped code paths).
//   prog inputs FILE         replay the recorded input values, in the order the contract asks for them
//   prog search N SECONDS SEED   look for an input that breaks an ensures clause
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <chrono>
#include <vector>
extern "C" void VC_HARNESS();
static std::vector<uint64_t> given; static size_t pos; static bool searching; static uint64_t rs = 88172645463325252ull;
static uint64_t used[1 << 16]; static int usedw[1 << 16]; static size_t nused; static jmp_buf jb; static const char *only = nullptr;
static std::vector<std::pair<void *, size_t>> maps;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static void dump(const char *why, const char *label) {
	char b[256]; int n = snprintf(b, sizeof b, "FAIL %s: %s\nINPUTS", why, label); (void)!write(1, b, n);
	for (size_t i = 0; i < nused; i++) { n = snprintf(b, sizeof b, " %d:%llx", usedw[i], (unsigned long long)used[i]); (void)!write(1, b, n); }
	(void)!write(1, "\n", 1);
}
static uint64_t specials(int w) {
	static const double fs[] = {0, 1, -1, 0.5, 1.5, 2.5, -0.5, -1.5, 2, 3, 10, 0.1, 1e-3, 1e3, 1e5, 1e10, 3.4e38, 1.2e-38, 1e-45, 1e-40, 4.2e9, 2147483648.0, 2147483647.0, -2147483648.0, 9.3e18, 0.785398, 3.14159265, 88.8, 709.8, 745.2, 1e300, 2.3e-308, 5e-324, 8388608, 4503599627370496.0, 16777217.0};
	uint64_t r = rnd(), m = w == 64 ? ~0ull : (1ull << w) - 1, v;
	switch (r >> 60) {
		case 0: v = 0; break; case 1: v = 1ull << ((r >> 8) % w); break; case 2: v = ~0ull; break; case 3: v = (r >> 8) % 20; break; case 4: v = -(int64_t)((r >> 8) % 20); break;
		case 5: v = (1ull << (w - 1)) - 1; break; case 6: v = 1ull << (w - 1); break; case 7: v = (r & 0xffff) << (w > 16 ? (r >> 20) % (w - 15) : 0); break;
		case 8: if (w == 32) { float f = INFINITY; uint32_t u; memcpy(&u, &f, 4); v = u | (uint32_t)(r & 0x80000000u); } else if (w == 64) { double f = INFINITY; memcpy(&v, &f, 8); v |= (r & 1) << 63; } else v = r; break;
		case 9: if (w == 32) v = 0x7fc00000u | (r & 0x80000000u); else if (w == 64) v = 0x7ff8000000000000ull | (r & 1) << 63; else v = r; break;
		case 10: case 11: case 12: case 13: { double d = fs[(r >> 8) % (sizeof fs / sizeof *fs)]; if (r & 1) d = -d; if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); v = u + ((r >> 2) & 3) - 1; } else if (w == 64) { memcpy(&v, &d, 8); v += ((r >> 2) & 3) - 1; } else v = r; break; }
		default: { double d = std::ldexp((double)(int64_t)rnd(), (int)((r >> 8) % 130) - 110); if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); v = u; } else if (w == 64) memcpy(&v, &d, 8); else v = r >> 3; }
	}
	return v & m;
}
static uint64_t get(int w) {
	uint64_t v = 0;
	if (!searching) { if (pos < given.size()) v = given[pos]; pos++; }
	else { uint64_t r = rnd() % 10; if (r < 4) v = rnd(); else if (r < 8) v = specials(w); else if (nused && r < 9) { v = used[rnd() % nused]; } else if (nused) { v = used[rnd() % nused] ^ (1ull << (rnd() % w)); } if (w < 64) v &= (1ull << w) - 1; }
	if (nused < (1 << 16)) { used[nused] = v; usedw[nused++] = w; }
	return v;
}
static bool odd; // see vc_alloc
extern "C" {
uint8_t vc_any8(const char *) { return (uint8_t)get(8); }
uint16_t vc_any16(const char *) { return (uint16_t)get(16); }
uint32_t vc_any32(const char *) { return (uint32_t)get(32); }
uint64_t vc_any64(const char *) { return get(64); }
void vc_assume(bool b) { if (!b) longjmp(jb, 1); }
void vc_assert(bool b, const char *l) { if (!b) { dump("ensures", l); _exit(1); } }
void vc_cover(const char *) {}
void vc_rounding(uint8_t d) { static const int dir[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; fesetround(dir[d & 3]); }
bool vc_same32(uint32_t a, uint32_t b) { float x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return a == b || (x != x && y != y); }
bool vc_same64(uint64_t a, uint64_t b) { double x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return a == b || (x != x && y != y); }
}
template<class F, class U> static bool fold(bool mul, U r, const U *x, size_t n) {
	long double e = mul ? 1 : 0, s = 0; F f; for (size_t i = 0; i < n; i++) { memcpy(&f, x + i, sizeof f); long double v = f; if (mul) { e *= v; if (v != 0 && (fabsl(e) < std::ldexp(1.0L, sizeof(F) == 4 ? -100 : -900) || fabsl(e) > std::ldexp(1.0L, sizeof(F) == 4 ? 100 : 900))) return true; } else e += v; s += fabsl(v); }
	if (!std::isfinite((double)s) || s > std::ldexp(1.0L, sizeof(F) == 4 ? 120 : 1000)) return true;
	memcpy(&f, &r, sizeof f); return fabsl((long double)f - e) <= (n + 2) * std::ldexp(1.0L, sizeof(F) == 4 ? -23 : -52) * (mul ? fabsl(e) : s) + 1e-300L;
}
extern "C" {
bool vc_fold32(uint32_t mul, uint32_t r, const uint32_t *x, size_t n) { return fold<float>(mul, r, x, n); }
bool vc_fold64(uint64_t mul, uint64_t r, const uint64_t *x, size_t n) { return fold<double>(mul, r, x, n); }
// Object whose end touches an inaccessible page, so an access past it faults; in every other run it is aligned as promised and no more.
void *vc_alloc(size_t size, size_t align, const char *) {
	size_t pg = 4096, body = (size + pg - 1) / pg * pg; if (!body) body = pg;
	char *p = (char *)mmap(nullptr, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + pg, body, PROT_READ | PROT_WRITE);
	maps.push_back({p, body + 2 * pg}); size_t off = body - size; if (align) { off -= off % align; if (odd && off % (2 * align) == 0 && off >= align) off -= align; } memset(p + pg, 0xA5, body); return p + pg + off;
}
uint32_t vc_cpuid(uint32_t leaf, uint32_t subleaf, uint32_t reg) { uint32_t r[4]; asm volatile("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "0"(leaf), "2"(subleaf)); return r[reg & 3]; }
uint32_t vc_xcr0() { if (!(vc_cpuid(1, 0, 2) >> 27 & 1)) return 0; uint32_t a, d; asm volatile("xgetbv" : "=a"(a), "=d"(d) : "c"(0)); return a; }
void __asan_on_error() { dump("memory", "address sanitizer report"); }
void __ubsan_on_report(void) { }
}
static void sig(int s) { dump("signal", s == SIGSEGV ? "invalid memory access" : s == SIGFPE ? "arithmetic trap" : s == SIGILL ? "unreachable code" : "abort"); _exit(1); }
static void run() { nused = 0; pos = 0; fesetround(FE_TONEAREST); if (!setjmp(jb)) VC_HARNESS(); for (auto &m : maps) munmap(m.first, m.second); maps.clear(); }
int main(int c, char **v) {
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, sig);
	if (c > 2 && !strcmp(v[1], "inputs")) { FILE *f = fopen(v[2], "r"); unsigned long long x; while (f && fscanf(f, "%llx", &x) == 1) given.push_back(x); run(); odd = true; run(); printf("OK\n"); return 0; }
	searching = true; long n = c > 2 ? atol(v[2]) : 100000; double secs = c > 3 ? atof(v[3]) : 10; if (c > 4) rs ^= strtoull(v[4], 0, 10) * 0x9E3779B97F4A7C15ull;
	auto t0 = std::chrono::steady_clock::now(); long i = 0;
	for (; i < n; i++) { odd = i & 1; run(); if ((i & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break; }
	printf("OK %ld\n", i); return 0;
}
