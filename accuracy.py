"""C20: decides the accuracy contracts of contracts/c20.hpp by evaluating the compiled functions (see DESIGN.md, C20)."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

POINTS64 = {'quick': 40_000_000, 'thorough': 300_000_000}
SECONDS = {'quick': 200, 'thorough': 600}   # no further pass over binary32 is begun after this
BASE = ['-std=c++20', '-O2', '-w']


def supported(flags):
    have = next((l for l in open('/proc/cpuinfo') if l.startswith('flags')), '').split()
    return all(f[2:].replace('.', '_') in have for f in flags)


def build(run, work, cfgs):
    src = os.path.join(run.V, 'contracts', 'c20')
    gen = run.ensure_export(work)

    def cc(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise run.CheckError(' '.join(cmd[-4:]) + ': ' + r.stderr[-1500:])
    jobs = [['g++', *BASE, *run.CONFIGS[c], *[d for d in run.DEFS], '-fPIC', '-shared', '-fvisibility=hidden', '-Wl,-Bsymbolic', '-I' + run.REPO, *gen,
             os.path.join(src, 'kernels.cpp'), '-o', os.path.join(work, f'k-{c}.so')] for c in cfgs]
    fast = run.CONFIGS['avx2-fma'] if supported(run.CONFIGS['avx2-fma']) else []
    jobs.append(['g++', *BASE, '-O3', '-ffast-math', *fast, '-c', os.path.join(src, 'reference.cpp'), '-o', os.path.join(work, 'ref.o')])
    jobs.append(['g++', *BASE, '-c', os.path.join(src, 'main.cpp'), '-o', os.path.join(work, 'main.o')])
    with ThreadPoolExecutor(8) as p:
        list(p.map(cc, jobs))
    exe = os.path.join(work, 'c20')
    cc(['g++', os.path.join(work, 'main.o'), os.path.join(work, 'ref.o'), '-o', exe, '-lmvec', '-lm', '-ldl', '-lpthread'])
    return exe


def check(run, tier):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vc20')
    try:
        cfgs = [c for c, f in run.CONFIGS.items() if supported(f)]
        exe = build(run, work, cfgs)
        seed = int(os.environ.get('VERIF_SEED') or 1)
        p = subprocess.run([exe, str(seed), str(POINTS64[tier]), str(SECONDS[tier])] + [f'{c}={work}/k-{c}.so' for c in cfgs], capture_output=True, text=True)
        crash = 0
        if p.returncode:
            if p.returncode > 0:
                raise run.CheckError(f'evaluation ended with {p.returncode}: {p.stderr[-500:]}')
            crash = -p.returncode
        d = {'passes': 0, 'of': 16, 'results': []} if crash else json.loads(p.stdout)
        res = d['results']
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out = []
    rdir = os.path.join(run.V, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith('C20-'):
            os.unlink(os.path.join(rdir, f))
    if crash:
        path = os.path.join(rdir, 'C20-crash.json')
        json.dump({'property': 'C20', 'failed_obligation': 'every function under contract returns a value for every argument in its domain', 'verifier_output': f'evaluation was ended by signal {crash}'}, open(path, 'w'), indent=1)
        print(f'VIOLATION property=C20 replay={path} no-failing-input-found')
        out.append(path)
    for r in res:
        if r['misses']:
            path = os.path.join(rdir, f"C20-{r['fn']}-{r['type']}-{r['cfg']}.json")
            b = r['bad']
            json.dump({'property': 'C20', 'accuracy': True, 'function': r['fn'], 'type': r['type'], 'config': r['cfg'], 'input_bits': b['bits'], 'input': b['x'], 'result': b['result'],
                       'exact': b['exact'], 'error_ulps': b['ulps'], 'allowed_ulps': r['bound_ulps'], 'inputs_that_miss': r['misses'],
                       'failed_obligation': f"ensures |{r['fn']}(x) - exact| within the bound of contracts/c20.hpp", 'replay': f'python3 run.py replay {path}'}, open(path, 'w'), indent=1)
            print(f'VIOLATION property=C20 replay={path}')
            out.append(path)
            if len(out) >= 8:
                break
    f32 = [r for r in res if r['type'] == 'f32']
    f64 = [r for r in res if r['type'] == 'f64']
    ev = {'property': 'C20', 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(r['evaluations'] for r in res), 'distinct_nontrivial': sum(r['evaluations'] for r in f32 if r['cfg'] == cfgs[0]),
                       'binary32_passes': f"{d['passes']} of {d['of']}",
                       'rule': 'binary32: every finite argument in the domain of each function, in every instruction-set build, in 16 passes (one per value of the low four bits) as far as the time goes (complete when 16 of 16; distinct_nontrivial counts these arguments once); '
                               'binary64: BOUNDED, seeded arguments: all exponents, around 1, around multiples of pi/4, ends of the table intervals, branch thresholds. Each result is compared with the C library in double (binary32) or extended precision (binary64).',
                       'samples': [f"{r['cfg']} {r['fn']} {r['type']}: worst {r['worst_ulps']} of {r['bound_ulps']} ulps at bits {r['worst_at']}" for r in res],
                       'binary32_arguments_enumerated': sum(r['evaluations'] for r in f32), 'binary64_arguments_sampled': sum(r['evaluations'] for r in f64),
                       'decided_by_near_zero_clause': sum(r['near_zero'] for r in res), 'contracts': sorted({r['fn'] for r in res}), 'configs': cfgs, 'configs_without_cpu_support': [c for c in run.CONFIGS if c not in cfgs]},
          'assumptions': ['lane independence (C16) reduces the vector functions to one scalar function', 'binary64: only the sampled arguments are decided', 'the C library functions in double and long double are accurate to far less than an ulp of the narrower type',
                          'sincos agrees with sin and cos (C15, C16)', 'functions without a vector kernel delegate to the C library (C21)'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(out)}
    os.makedirs(os.path.join(run.V, 'evidence'), exist_ok=True)
    tmp = os.path.join(run.V, 'evidence', f'.C20.{os.getpid()}')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(run.V, 'evidence', 'C20.json'))
    if out:
        return 1
    print(f"C20: {len(res)} function/type/build contracts, {ev['coverage']['evaluations']} evaluations, {time.time() - t0:.1f}s")
    return 0


def replay(run, d):
    work = tempfile.mkdtemp(prefix='vc20')
    try:
        exe = build(run, work, [d['config']])
        p = subprocess.run([exe, 'point', f"{d['config']}={work}/k-{d['config']}.so", d['function'], d['type'], d['input_bits']])
        return p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
