#!/usr/bin/env python3
"""Compares the verifier's models of the x86 intrinsics with this CPU: every expression below is evaluated natively on pseudo-random
and boundary operands, and irvc must prove that the modelled intrinsic gives the same bits (NaN: any NaN) on those operands."""
import os, re, subprocess, sys, tempfile, random, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run

K = int(os.environ.get('SELFTEST_K', '12'))
# (build flags, operand kinds, result kind, expression over a b c); kinds: p=float s=single lane d=double i=integer, 1=128-bit 2=256-bit, w=int
P, D, I, P2, D2, I2 = 'p1', 'd1', 'i1', 'p2', 'd2', 'i2'
E = []
def add(flags, ops, res, *exprs):
    for e in exprs:
        E.append((flags, ops, res, e))
S2, S4, AV, A2 = '-msse2', '-msse4.2', '-mavx', '-mavx2 -mfma'
for o in 'add sub mul div min max and or xor andnot unpacklo unpackhi'.split():
    add(S2, [P, P], P, f'_mm_{o}_ps(a,b)'); add(S2, [D, D], D, f'_mm_{o}_pd(a,b)'); add(AV, [P2, P2], P2, f'_mm256_{o}_ps(a,b)'); add(AV, [D2, D2], D2, f'_mm256_{o}_pd(a,b)')
for o in 'min max add sub mul div'.split():
    add(S2, [P, P], P, f'_mm_{o}_ss(a,b)'); add(S2, [D, D], D, f'_mm_{o}_sd(a,b)')
for o in 'eq lt le gt ge neq nlt nle ngt nge ord unord'.split():
    add(S2, [P, P], 'I1', f'_mm_castps_si128(_mm_cmp{o}_ps(a,b))', f'_mm_castps_si128(_mm_cmp{o}_ss(a,b))'); add(S2, [D, D], 'I1', f'_mm_castpd_si128(_mm_cmp{o}_pd(a,b))', f'_mm_castpd_si128(_mm_cmp{o}_sd(a,b))')
for k in range(32):
    add(AV, [P2, P2], 'I2', f'_mm256_castps_si256(_mm256_cmp_ps(a,b,{k}))'); add(AV, [D2, D2], 'I2', f'_mm256_castpd_si256(_mm256_cmp_pd(a,b,{k}))')
    if k % 5 == 0: add(AV, [P, P], 'I1', f'_mm_castps_si128(_mm_cmp_ps(a,b,{k}))', f'_mm_castps_si128(_mm_cmp_ss(a,b,{k}))')
for o in 'eq lt le gt ge neq'.split():
    add(S2, [P, P], 'w', f'_mm_comi{o}_ss(a,b)', f'_mm_ucomi{o}_ss(a,b)'); add(S2, [D, D], 'w', f'_mm_comi{o}_sd(a,b)', f'_mm_ucomi{o}_sd(a,b)')
I128 = {S2: ['add_epi8 add_epi16 add_epi32 add_epi64 sub_epi8 sub_epi16 sub_epi32 sub_epi64 adds_epi8 adds_epi16 adds_epu8 adds_epu16 subs_epi8 subs_epi16 subs_epu8 subs_epu16 mullo_epi16 mulhi_epi16 mulhi_epu16 mul_epu32 madd_epi16 '
             'avg_epu8 avg_epu16 max_epu8 min_epu8 max_epi16 min_epi16 sad_epu8 packs_epi16 packs_epi32 packus_epi16 cmpeq_epi8 cmpeq_epi16 cmpeq_epi32 cmpgt_epi8 cmpgt_epi16 cmpgt_epi32 unpacklo_epi8 unpackhi_epi8 unpacklo_epi16 unpackhi_epi16 unpacklo_epi32 unpackhi_epi32 unpacklo_epi64 unpackhi_epi64',
             'sll_epi16 sll_epi32 sll_epi64 srl_epi16 srl_epi32 srl_epi64 sra_epi16 sra_epi32'],
        S4: ['max_epi8 min_epi8 max_epu16 min_epu16 max_epi32 min_epi32 max_epu32 min_epu32 mullo_epi32 mul_epi32 packus_epi32 cmpeq_epi64 cmpgt_epi64 shuffle_epi8 sign_epi8 sign_epi16 sign_epi32 hadd_epi16 hadd_epi32 hsub_epi16 hsub_epi32 hadds_epi16 hsubs_epi16 maddubs_epi16 mulhrs_epi16', '']}
for f, (ops, sh) in I128.items():
    for o in ops.split():
        add(f, [I, I], I, f'_mm_{o}(a,b)'); add(A2, [I2, I2], I2, f'_mm256_{o}(a,b)')
    for o in sh.split():
        add(f, [I, 'n1'], I, f'_mm_{o}(a,b)'); add(A2, [I2, 'n1'], I2, f'_mm256_{o}(a,b)')
add(S2, [I, I], I, '_mm_and_si128(a,b)', '_mm_or_si128(a,b)', '_mm_xor_si128(a,b)', '_mm_andnot_si128(a,b)')
for w, n in (('16', 16), ('32', 32), ('64', 64)):
    for k in (0, 1, n // 2 + 1, n - 1, n, 200):
        for o in ('slli', 'srli') + (('srai',) if w != '64' else ()):
            add(S2, [I], I, f'_mm_{o}_epi{w}(a,{k})'); add(A2, [I2], I2, f'_mm256_{o}_epi{w}(a,{k})')
for k in (0, 1, 5, 8, 15, 16):
    add(S2, [I], I, f'_mm_slli_si128(a,{k})', f'_mm_srli_si128(a,{k})'); add(A2, [I2], I2, f'_mm256_slli_si256(a,{k})', f'_mm256_srli_si256(a,{k})'); add(S4, [I, I], I, f'_mm_alignr_epi8(a,b,{k})'); add(A2, [I2, I2], I2, f'_mm256_alignr_epi8(a,b,{k})')
add(S4, [I], I, '_mm_abs_epi8(a)', '_mm_abs_epi16(a)', '_mm_abs_epi32(a)'); add(A2, [I2], I2, '_mm256_abs_epi8(a)', '_mm256_abs_epi16(a)', '_mm256_abs_epi32(a)')
for s, d in ('epi8 epi16', 'epi8 epi32', 'epi8 epi64', 'epi16 epi32', 'epi16 epi64', 'epi32 epi64', 'epu8 epi16', 'epu8 epi32', 'epu8 epi64', 'epu16 epi32', 'epu16 epi64', 'epu32 epi64') and [x.split() for x in ('epi8 epi16', 'epi8 epi32', 'epi8 epi64', 'epi16 epi32', 'epi16 epi64', 'epi32 epi64', 'epu8 epi16', 'epu8 epi32', 'epu8 epi64', 'epu16 epi32', 'epu16 epi64', 'epu32 epi64')]:
    add(S4, [I], I, f'_mm_cvt{s}_{d}(a)'); add(A2, [I], I2, f'_mm256_cvt{s}_{d}(a)')
for w in ('32', '64'):
    add(A2, [I, 'm1'], I, f'_mm_sllv_epi{w}(a,b)', f'_mm_srlv_epi{w}(a,b)'); add(A2, [I2, 'm2'], I2, f'_mm256_sllv_epi{w}(a,b)', f'_mm256_srlv_epi{w}(a,b)')
add(A2, [I, 'm1'], I, '_mm_srav_epi32(a,b)'); add(A2, [I2, 'm2'], I2, '_mm256_srav_epi32(a,b)')
for k in (0, 0x1b, 0x4e, 0xe4, 0x93, 0xb1):
    add(S2, [I], I, f'_mm_shuffle_epi32(a,{k})', f'_mm_shufflelo_epi16(a,{k})', f'_mm_shufflehi_epi16(a,{k})'); add(S2, [P, P], P, f'_mm_shuffle_ps(a,b,{k})'); add(S2, [D, D], D, f'_mm_shuffle_pd(a,b,{k & 3})')
    add(A2, [I2], I2, f'_mm256_shuffle_epi32(a,{k})', f'_mm256_permute4x64_epi64(a,{k})', f'_mm256_shufflelo_epi16(a,{k})'); add(AV, [P2, P2], P2, f'_mm256_shuffle_ps(a,b,{k})', f'_mm256_permute2f128_ps(a,b,{k})', f'_mm256_blend_ps(a,b,{k})')
    add(AV, [P], P, f'_mm_permute_ps(a,{k})'); add(AV, [D2, D2], D2, f'_mm256_shuffle_pd(a,b,{k & 15})', f'_mm256_blend_pd(a,b,{k & 15})'); add(A2, [I2, I2], I2, f'_mm256_permute2x128_si256(a,b,{k})', f'_mm256_blend_epi32(a,b,{k})', f'_mm256_blend_epi16(a,b,{k})')
    add(S4, [P, P], P, f'_mm_blend_ps(a,b,{k & 15})', f'_mm_insert_ps(a,b,{k})'); add(S4, [D, D], D, f'_mm_blend_pd(a,b,{k & 3})'); add(S4, [I, I], I, f'_mm_blend_epi16(a,b,{k})')
add(AV, [P, 'm1'], P, '_mm_permutevar_ps(a,b)'); add(AV, [D, 'm1'], D, '_mm_permutevar_pd(a,b)'); add(AV, [P2, 'm2'], P2, '_mm256_permutevar_ps(a,b)'); add(A2, [I2, 'm2'], I2, '_mm256_permutevar8x32_epi32(a,b)'); add(A2, [P2, 'm2'], P2, '_mm256_permutevar8x32_ps(a,b)')
add(S4, [P, P, P], P, '_mm_blendv_ps(a,b,c)'); add(S4, [D, D, D], D, '_mm_blendv_pd(a,b,c)'); add(S4, [I, I, I], I, '_mm_blendv_epi8(a,b,c)'); add(AV, [P2, P2, P2], P2, '_mm256_blendv_ps(a,b,c)'); add(AV, [D2, D2, D2], D2, '_mm256_blendv_pd(a,b,c)'); add(A2, [I2, I2, I2], I2, '_mm256_blendv_epi8(a,b,c)')
add(S2, [P], 'w', '_mm_movemask_ps(a)'); add(S2, [D], 'w', '_mm_movemask_pd(a)'); add(S2, [I], 'w', '_mm_movemask_epi8(a)'); add(AV, [P2], 'w', '_mm256_movemask_ps(a)'); add(AV, [D2], 'w', '_mm256_movemask_pd(a)'); add(A2, [I2], 'w', '_mm256_movemask_epi8(a)')
add(S4, [I, I], 'w', '_mm_testz_si128(a,b)', '_mm_testc_si128(a,b)', '_mm_testnzc_si128(a,b)', '_mm_testz_si128(a,_mm_setzero_si128())', '_mm_testc_si128(a,a)'); add(AV, [I2, I2], 'w', '_mm256_testz_si256(a,b)', '_mm256_testc_si256(a,a)', '_mm256_testnzc_si256(a,b)')
add(AV, [P, P], 'w', '_mm_testz_ps(a,b)', '_mm_testc_ps(a,b)', '_mm_testnzc_ps(a,b)'); add(AV, [D2, D2], 'w', '_mm256_testz_pd(a,b)', '_mm256_testc_pd(a,b)', '_mm256_testnzc_pd(a,b)')
add(S2, [P], I, '_mm_cvttps_epi32(a)', '_mm_cvtps_epi32(a)'); add(S2, [D], I, '_mm_cvttpd_epi32(a)', '_mm_cvtpd_epi32(a)'); add(AV, [P2], I2, '_mm256_cvttps_epi32(a)', '_mm256_cvtps_epi32(a)'); add(AV, [D2], I, '_mm256_cvttpd_epi32(a)', '_mm256_cvtpd_epi32(a)')
add(S2, [D], P, '_mm_cvtpd_ps(a)'); add(S2, [P], D, '_mm_cvtps_pd(a)'); add(S2, [I], P, '_mm_cvtepi32_ps(a)'); add(S2, [I], D, '_mm_cvtepi32_pd(a)'); add(AV, [I2], P2, '_mm256_cvtepi32_ps(a)'); add(AV, [I], D2, '_mm256_cvtepi32_pd(a)'); add(AV, [D2], P, '_mm256_cvtpd_ps(a)'); add(AV, [P], D2, '_mm256_cvtps_pd(a)')
add(S2, [P], 'w', '_mm_cvtss_si32(a)', '_mm_cvttss_si32(a)'); add(S2, [D], 'w', '_mm_cvtsd_si32(a)', '_mm_cvttsd_si32(a)'); add(S2, [D], 'x', '_mm_cvtsd_si64(a)', '_mm_cvttsd_si64(a)'); add(S2, [P], 'x', '_mm_cvtss_si64(a)', '_mm_cvttss_si64(a)'); add(S2, [P, D], P, '_mm_cvtsd_ss(a,b)'); add(S2, [D, P], D, '_mm_cvtss_sd(a,b)')
for k in (0, 1, 2, 3, 8, 9, 10, 11, 4, 12):
    add(S4, [P], P, f'_mm_round_ps(a,{k})', f'_mm_round_ss(a,a,{k})'); add(S4, [D], D, f'_mm_round_pd(a,{k})', f'_mm_round_sd(a,a,{k})'); add(AV, [P2], P2, f'_mm256_round_ps(a,{k})'); add(AV, [D2], D2, f'_mm256_round_pd(a,{k})')
add(S2, [P], P, '_mm_sqrt_ps(a)', '_mm_sqrt_ss(a)'); add(S2, [D], D, '_mm_sqrt_pd(a)'); add(AV, [P2], P2, '_mm256_sqrt_ps(a)'); add(AV, [D2], D2, '_mm256_sqrt_pd(a)')
for o in 'fmadd fmsub fnmadd fnmsub fmaddsub fmsubadd'.split():
    add(A2, [P, P, P], P, f'_mm_{o}_ps(a,b,c)'); add(A2, [D, D, D], D, f'_mm_{o}_pd(a,b,c)'); add(A2, [P2, P2, P2], P2, f'_mm256_{o}_ps(a,b,c)'); add(A2, [D2, D2, D2], D2, f'_mm256_{o}_pd(a,b,c)')
for o in 'hadd hsub addsub'.split():
    add(S4, [P, P], P, f'_mm_{o}_ps(a,b)'); add(S4, [D, D], D, f'_mm_{o}_pd(a,b)'); add(AV, [P2, P2], P2, f'_mm256_{o}_ps(a,b)'); add(AV, [D2, D2], D2, f'_mm256_{o}_pd(a,b)')
add(S4, [P], P, '_mm_movehdup_ps(a)', '_mm_moveldup_ps(a)'); add(S2, [P, P], P, '_mm_movehl_ps(a,b)', '_mm_movelh_ps(a,b)', '_mm_move_ss(a,b)'); add(S2, [D, D], D, '_mm_move_sd(a,b)'); add(S2, [I], I, '_mm_move_epi64(a)')
add(S4, [I], I, '_mm_minpos_epu16(a)')
add(AV, [P, I], P, '_mm_maskload_ps((const float*)&a,b)'); add(AV, [D2, I2], D2, '_mm256_maskload_pd((const double*)&a,b)'); add(A2, [I2, I2], I2, '_mm256_maskload_epi32((const int*)&a,b)')
add(A2, [P, 'j4'], P, '_mm_i32gather_ps((const float*)&a,b,4)'); add(A2, [P2, 'j8'], P2, '_mm256_i32gather_ps((const float*)&a,b,4)'); add(A2, [D2, 'k4'], D2, '_mm256_i64gather_pd((const double*)&a,b,8)')
add(A2, [I], I2, '_mm256_broadcastd_epi32(a)', '_mm256_broadcastb_epi8(a)', '_mm256_broadcastsi128_si256(a)', '_mm256_zextsi128_si256(a)'); add(AV, [I2, I], I2, '_mm256_insertf128_si256(a,b,1)'); add(AV, [I2], I, '_mm256_extractf128_si256(a,1)')

LANE = {'p': 32, 's': 32, 'd': 64, 'i': 32, 'I': 32}
CT = {'p1': '__m128', 'p2': '__m256', 'd1': '__m128d', 'd2': '__m256d', 'i1': '__m128i', 'i2': '__m256i', 'I1': '__m128i', 'I2': '__m256i', 'n1': '__m128i', 'm1': '__m128i', 'm2': '__m256i', 'j4': '__m128i', 'j8': '__m256i', 'k4': '__m256i', 'w': 'int', 'x': 'long long'}
FS = [0, 0x80000000, 1, 0x80000001, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 0x3f800000, 0xbf800000, 0x3f000000, 0xbf000000, 0x3fc00000, 0xc0200000, 0x4b000001, 0xcb7fffff, 0x4f000000, 0xcf000000, 0x7f7fffff, 0x00800000]
DS = [0, 1 << 63, 1, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 0x3ff << 52, 0xbff << 52, 0x3fe << 52, 0x3ff8 << 48, 0xc004 << 48, 0x4330000000000001, 0x41dfffffffc00000, 0x41e0000000000000, 0xc1e0000000000000, 0x43e0000000000000, 0x7fefffffffffffff, 0x0010000000000000, 0x47efffffe0000001, 0x36a0000000000000]
rnd = random.Random(7)
def word(kind, k):
    """Operand as a list of 32-bit words."""
    n = 4 if kind in ('p1', 'd1', 'i1', 'n1', 'm1', 'j4') else 8
    t = kind[0]
    if t == 'p':
        return [rnd.choice(FS) if rnd.random() < .6 else rnd.getrandbits(32) if rnd.random() < .5 else (rnd.randrange(0x3e000000, 0x4f800000) | rnd.getrandbits(1) << 31) for _ in range(n)]
    if t == 'd':
        o = []
        for _ in range(n // 2):
            x = rnd.choice(DS) if rnd.random() < .6 else rnd.getrandbits(64) if rnd.random() < .5 else (rnd.randrange(0x3fc0 << 48, 0x4400 << 48) | rnd.getrandbits(1) << 63)
            o += [x & 0xffffffff, x >> 32]
        return o
    if t == 'n':
        return [rnd.choice([0, 1, 7, 15, 16, 31, 32, 63, 64, 255]), rnd.choice([0, 0, 1]), rnd.getrandbits(32), rnd.getrandbits(32)]
    if t == 'm':
        return [rnd.choice([0, 1, 2, 3, 5, 31, 32, 33, 63, 64, 255, 1 << 31, 0xffffffff]) for _ in range(n)]
    if t == 'j':
        return [rnd.randrange(n) for _ in range(n)]
    if t == 'k':
        return [x for _ in range(4) for x in (rnd.randrange(4), 0)]
    return [rnd.choice([0, 0xffffffff, 0x80000000, 0x7fffffff, 0x80008000, 0x7f807f80, 0x00010001]) if rnd.random() < .4 else rnd.getrandbits(32) for _ in range(n)]

def main():
    work = tempfile.mkdtemp(prefix='vc-self-')
    irvc = run.ensure_irvc()
    cpu = open('/proc/cpuinfo').read()
    bad = total = unmodelled = 0
    for flags in (S2, S4, AV, A2):
        if 'avx2' in flags and ' avx2 ' not in cpu or 'avx' in flags and ' avx ' not in cpu:
            print('skipped (not supported by this CPU):', flags)
            continue
        ex = [e for e in E if e[0] == flags]
        nat = ['#include <immintrin.h>\n#include <cstdio>\n#include <cstring>\n']
        fns, calls = [], []
        for n, (_, ops, res, e) in enumerate(ex):
            args = ', '.join(f'{CT[k]} {v}' for k, v in zip(ops, 'abc'))
            fns.append(f'static inline {CT[res]} f{n}({args}) {{ return {e}; }}')
            for k in range(K):
                data = [word(o, k) for o in ops]
                calls.append((n, data))
        mk = lambda d, i: f'alignas(32) static const unsigned w{i}[] = {{{",".join(hex(x) + "u" for x in d)}}};'
        nat += fns
        nat.append('#define R(...) { auto r = __VA_ARGS__; unsigned o[8] = {}; memcpy(o, &r, sizeof r); printf("%u", (unsigned)(sizeof r / 4)); for (unsigned i = 0; i < sizeof r / 4; ++i) printf(" %x", o[i]); puts(""); }')
        nat.append('int main() {')
        for n, data in calls:
            ld = ''.join(f' alignas(32) static const volatile unsigned v{j}[] = {{{",".join(hex(x) + "u" for x in d)}}}; {CT[ex[n][1][j]]} x{j}; memcpy(&x{j}, (const void*)v{j}, sizeof x{j});' for j, d in enumerate(data))
            nat.append(f'{{{ld} R(f{n}({", ".join(f"x{j}" for j in range(len(data)))})) }}')
        nat.append('}')
        open(f'{work}/n.cpp', 'w').write('\n'.join(nat))
        subprocess.run(['g++', '-std=c++20', '-O0', '-w'] + flags.split() + [f'{work}/n.cpp', '-o', f'{work}/n'], check=True)
        out = subprocess.run([f'{work}/n'], capture_output=True, text=True, check=True).stdout.splitlines()
        tu = ['#include <immintrin.h>\n#include <cstring>\n#include <cstdint>\nextern "C" { void vc_assert(bool, const char*); bool vc_same32(uint32_t, uint32_t); bool vc_same64(uint64_t, uint64_t); }'] + fns
        by = {}
        for (n, data), l in zip(calls, out):
            by.setdefault(n, []).append((data, [int(x, 16) for x in l.split()[1:]]))
        for n, cs in by.items():
            res = ex[n][2]
            b = []
            for data, w in cs:
                ld = ''.join(f' alignas(32) const unsigned v{j}[] = {{{",".join(hex(x) + "u" for x in d)}}}; {CT[ex[n][1][j]]} x{j}; memcpy(&x{j}, v{j}, sizeof x{j});' for j, d in enumerate(data))
                b.append(f'{{{ld} {CT[res]} r = f{n}({", ".join(f"x{j}" for j in range(len(data)))}); ')
                if res[0] == 'd':
                    b.append(f'uint64_t o[4]; memcpy(o, &r, sizeof r); ' + ' '.join(f'vc_assert(vc_same64(o[{i}], {w[2 * i] | w[2 * i + 1] << 32}ull), "lane {i}");' for i in range(len(w) // 2)))
                else:
                    eq = 'vc_same32(o[{i}], {w}u)' if res[0] == 'p' else 'o[{i}] == {w}u'
                    b.append(f'uint32_t o[8]; memcpy(o, &r, sizeof r); ' + ' '.join(f'vc_assert({eq.format(i=i, w=x)}, "lane {i}");' for i, x in enumerate(w)))
                b.append('}')
            tu.append(f'extern "C" void vc__t{n}() {{ {"".join(b)} }}')
        open(f'{work}/t.cpp', 'w').write('\n'.join(tu))
        r = subprocess.run([run.CLANG] + run.IRFLAGS + ['-w'] + flags.split() + [f'{work}/t.cpp', '-o', f'{work}/t.bc'], capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[:3000])
            return 2
        subprocess.run([irvc, f'{work}/t.bc', '--out', f'{work}/t.json', '--fast', '2000', '--ext', '20'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for f in json.load(open(f'{work}/t.json'))['functions']:
            total += 1
            n = int(f['name'][5:])
            if f.get('error'):
                print('no model:', flags, ex[n][3], f['error'][:100])
                unmodelled += 1
            elif f['failed'] or f['unknown']:
                bad += 1
                x = (f.get('failures') or [{}])[0]
                print('MISMATCH', flags, ex[n][3], f['failed'], f['unknown'], x.get('kind'), x.get('label'), x.get('status'), str(x.get('cond'))[:120])
    shutil.rmtree(work)
    print(f'{total} intrinsic expressions x {K} operand tuples, {bad} disagree with the CPU, {unmodelled} without a model')
    return 1 if bad else 0

sys.exit(main())
