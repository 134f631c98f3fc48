// C23  Processor feature queries report what the processor offers and the system enables
#include "vc.hpp"
#include <string>
#include <string_view>
#include <fcntl.h>
#include <unistd.h>
#include <dpm/detail/alias.hpp>
#define private public   // the contract runs the constructor of the class itself
#include <dpm/detail/x86/cpuid.hpp>
#undef private
#include <dpm/detail/x86/cpuid.cpp>
extern "C" { uint32_t vc_cpuid(uint32_t leaf, uint32_t subleaf, uint32_t reg); uint32_t vc_xcr0(); }
namespace C23 {
using dpm::ext::cpuid;
enum : u32 { eax, ebx, ecx, edx };
inline u32 leaves() { return vc_cpuid(0, 0, eax); }
inline bool offers(u32 leaf, u32 reg, u32 bit) { return (leaves() >= leaf) & (vc_cpuid(leaf, 0, reg) >> bit & 1); }
/** The system has enabled XSAVE, so that XCR0 tells which registers it saves. */
inline bool osxsave() { return offers(1, ecx, 27); }
inline bool saves(u32 components) { return osxsave() & ((vc_xcr0() & components) == components); }
/** Runs the constructor, as the initialisation of the program does. */
inline void init() { new ((void *)&cpuid::cpu_info) cpuid(); }

//@ vendor f32 v128
template<class T, class A> void vendor() { init();
	u32 r[3] = {vc_cpuid(0, 0, ebx), vc_cpuid(0, 0, edx), vc_cpuid(0, 0, ecx)};
	vc_assert(cpuid::is_intel() == (r[0] == 0x756e6547 && r[1] == 0x49656e69 && r[2] == 0x6c65746e), "is_intel: vendor is GenuineIntel");
	vc_assert(cpuid::is_amd() == (r[0] == 0x68747541 && r[1] == 0x69746e65 && r[2] == 0x444d4163), "is_amd: vendor is AuthenticAMD"); }
//@ base f32 v128
template<class T, class A> void base() { init();
	vc_assert(cpuid::has_msr() == offers(1, edx, 5), "has_msr"); vc_assert(cpuid::has_cx8() == offers(1, edx, 8), "has_cx8"); vc_assert(cpuid::has_sep() == offers(1, edx, 11), "has_sep");
	vc_assert(cpuid::has_cmov() == offers(1, edx, 15), "has_cmov"); vc_assert(cpuid::has_clfsh() == offers(1, edx, 19), "has_clfsh");
	vc_assert(cpuid::has_xsave() == osxsave(), "has_xsave: enabled by the system"); vc_assert(cpuid::has_cmpxchg16b() == offers(1, ecx, 13), "has_cmpxchg16b"); }
// Without XSAVE the SSE queries depend on what the system reports by other means: then only "not reported unless offered" is claimed.
//@ sse f32 v128
template<class T, class A> void sse() { init();
	const auto ok = [](bool q, bool offered, const char *l) { vc_assert(!q || offered, l); vc_assert(!osxsave() || q == (offered & saves(0x2)), l); };
	ok(cpuid::has_sse(), offers(1, edx, 25), "has_sse"); ok(cpuid::has_sse2(), offers(1, edx, 26), "has_sse2"); ok(cpuid::has_sse3(), offers(1, ecx, 0), "has_sse3");
	ok(cpuid::has_ssse3(), offers(1, ecx, 9), "has_ssse3"); ok(cpuid::has_sse4_1(), offers(1, ecx, 19), "has_sse4_1"); ok(cpuid::has_sse4_2(), offers(1, ecx, 20), "has_sse4_2"); }
//@ avx f32 v128
template<class T, class A> void avx() { init(); const bool s = saves(0x6);
	vc_assert(cpuid::has_avx() == (offers(1, ecx, 28) & s), "has_avx: offered, and YMM state enabled"); vc_assert(cpuid::has_fma() == (offers(1, ecx, 12) & s), "has_fma: offered, and YMM state enabled");
	vc_assert(cpuid::has_f16c() == (offers(1, ecx, 29) & s), "has_f16c: offered, and YMM state enabled"); vc_assert(cpuid::has_avx2() == (offers(7, ebx, 5) & s), "has_avx2: offered, and YMM state enabled"); }
//@ avx512 f32 v128
template<class T, class A> void avx512() { init(); const bool s = saves(0xe6);
	vc_assert(cpuid::has_avx512f() == (offers(7, ebx, 16) & s), "has_avx512f: offered, and ZMM state enabled"); vc_assert(cpuid::has_avx512dq() == (offers(7, ebx, 17) & s), "has_avx512dq: offered, and ZMM state enabled");
	vc_assert(cpuid::has_avx512cd() == (offers(7, ebx, 28) & s), "has_avx512cd: offered, and ZMM state enabled"); vc_assert(cpuid::has_avx512bw() == (offers(7, ebx, 30) & s), "has_avx512bw: offered, and ZMM state enabled");
	vc_assert(cpuid::has_avx512vl() == (offers(7, ebx, 31) & s), "has_avx512vl: offered, and ZMM state enabled"); }
}
