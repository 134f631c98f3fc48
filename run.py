#!/usr/bin/env python3
"""Contract checker for dpm.

  run.py check C01 [--tier quick|thorough]   verify every contract of a property, write evidence/C01.json
  run.py dev C01 [--types ..] [--abis ..] [--cfg ..] [--only substr] [-v]   the same without evidence or replay
  run.py replay FILE                         re-run a recorded counterexample against the real code
"""
import argparse, fcntl, fnmatch, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = 'clang++-18'
CONFIGS = {'sse2': ['-msse2'], 'sse4.2': ['-msse4.2'], 'avx': ['-mavx'], 'avx2-fma': ['-mavx2', '-mfma']}
DEFS = ['-DDPM_INLINE_EXTENSIONS', '-DDPM_HANDLE_ERRORS', '-DDPM_PROPAGATE_NAN', '-DNDEBUG']
IRFLAGS = ['-std=c++20', '-O0', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-exceptions', '-gline-tables-only',
           '-emit-llvm', '-c', '-w', '-Wno-builtin-macro-redefined', '-ferror-limit=0']
NATFLAGS = ['-std=c++20', '-O1', '-g1', '-w', '-ffp-contract=off', '-fno-strict-aliasing']
INTS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
TYPES = {'all': INTS + ['f32', 'f64'], 'int': INTS, 'fp': ['f32', 'f64'], 'sint': INTS[::2], 'uint': INTS[1::2]}
ABIS = {'any': ['v128', 'v256', 'pad', 'multi', 'a16', 'gen', 'scal'], 'x86': ['v128', 'v256', 'pad', 'multi', 'a16'],
        'full': ['v128', 'v256'], 'kern': ['v128', 'v256', 'multi', 'gen'], 'wide': ['v128', 'v256', 'pad', 'multi', 'a16', 'gen']}
AVXONLY = {'v256', 'a16', 'w256'}
FP_CLAUSE = 'IEEE operations modelled exactly for equality of results; NaN payloads not distinguished'


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def ensure_irvc():
    exe = os.path.join(V, 'irvc', 'irvc')
    lock = open(os.path.join(V, 'irvc', '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        src = [os.path.join(V, 'irvc', f) for f in ('irvc.cpp', 'exec.hpp', 'smt.hpp', 'term.hpp', 'sweep.hpp', 'build.sh')]
        if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
            tmp = exe + f'.{os.getpid()}'
            r = subprocess.run([os.path.join(V, 'irvc', 'build.sh'), tmp], capture_output=True, text=True)
            if r.returncode:
                raise CheckError('building the verifier failed: ' + r.stderr[-2000:])
            os.replace(tmp, exe)
    finally:
        lock.close()
    return exe


def ensure_export(work):
    """dpm/detail/export.gen.hpp is generated by CMake into the source tree (git-ignored); provide it when absent."""
    if os.path.exists(os.path.join(REPO, 'dpm/detail/export.gen.hpp')):
        return []
    d = os.path.join(work, 'gen', 'dpm', 'detail')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'export.gen.hpp'), 'w') as f:
        f.write('#pragma once\n#define DPM_PUBLIC\n#define DPM_PRIVATE\n#define DPM_API_PUBLIC\n#define DPM_API_HIDDEN\n')
    return ['-I' + d]


class Harness:
    __slots__ = ('prop', 'contract', 'type', 'abi', 'targs', 'cfg', 'name', 'line')

    def __init__(s, prop, contract, t, abi, targs, cfg):
        s.prop, s.contract, s.type, s.abi, s.targs, s.cfg = prop, contract, t, abi, targs, cfg
        tg = '' if not targs else '__' + re.sub(r'\W+', '_', targs)
        s.name = f'vc__{prop}__{contract}__{t}__{abi}{tg}'
        ta = ', ' + targs if targs else ''
        s.line = f'namespace {prop} {{ extern "C" void {s.name}() {{ {contract}<{t}, {abi}<{t}>{ta}>(); }} }}'

    def id(s):
        return f'{s.name[4:]}@{s.cfg}'


def registry(prop, tier, opts):
    """Contract annotations:  //@ name types abis [key=value..]
    keys: cfg=a,b  targs=x;y  quick=<abis> (abis used in the quick tier)  tier=thorough."""
    hdr = os.path.join(V, 'contracts', prop.lower() + '.hpp')
    out = []
    for m in re.finditer(r'^//@ (\w+) (\S+) (\S+)(.*)$', open(hdr).read(), re.M):
        name, ts, abis, rest = m.groups()
        kv = dict(x.split('=', 1) for x in rest.split())
        types = [t for x in ts.split(',') for t in TYPES.get(x, [x])]
        if tier == 'quick' and kv.get('tier') == 'thorough':
            continue
        if tier == 'quick' and 'quick' in kv:
            abis = kv['quick']
        if tier == 'quick' and 'qtypes' in kv:
            types = [t for x in kv['qtypes'].split(',') for t in TYPES.get(x, [x])]
        ab = [a for x in abis.split(',') for a in ABIS.get(x, [x])]
        cfgs = kv['cfg'].split(',') if 'cfg' in kv else list(CONFIGS)
        targs = kv['targs'].split(';') if 'targs' in kv else ['']
        if tier == 'quick' and 'qtargs' in kv:
            targs = kv['qtargs'].split(';')
        for cfg in cfgs:
            for t in types:
                full = (32 if cfg.startswith('avx') else 16) * 8 // int(t[1:])
                for a in [f'fx{n}' for x in ab for n in range(1, full + 1) if x == 'widths'] + [x for x in ab if x != 'widths']:
                    if a in AVXONLY and not cfg.startswith('avx'):
                        continue
                    for tg in targs:
                        out.append(Harness(prop, name, t, a, tg, cfg))
    if opts.get('types'):
        out = [h for h in out if h.type in opts['types'].split(',')]
    if opts.get('abis'):
        out = [h for h in out if h.abi in opts['abis'].split(',')]
    if opts.get('cfg'):
        out = [h for h in out if h.cfg in opts['cfg'].split(',')]
    if opts.get('contract'):
        out = [h for h in out if any(fnmatch.fnmatch(h.contract, c) for c in opts['contract'].split(','))]
    return out


def exclusions():
    """Contract instances that are not part of the deciding run, each with its reason (contracts/excluded.txt)."""
    ex = []
    p = os.path.join(V, 'contracts', 'excluded.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                pat, _, why = l.partition(' ')
                ex.append((pat, why.strip()))
    return ex


class Runner:
    def __init__(s, prop, tier, opts):
        s.prop, s.tier, s.opts = prop, tier, opts
        s.work = tempfile.mkdtemp(prefix=f'vc-{prop}-')
        s.cache = os.path.join(s.work, 'proved')
        os.mkdir(s.cache)
        s.inc = ensure_export(s.work) + ['-I' + REPO, '-I' + os.path.join(V, 'contracts')]
        s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.compile_errors = []
        s.stop, s.lock, s.tried, s.confirmed = threading.Event(), threading.Lock(), {}, []
        s.jobs = int(os.environ.get('VC_JOBS', '8'))

    def close(s):
        if s.opts.get('keep'):
            log('work directory kept:', s.work)
        else:
            shutil.rmtree(s.work, ignore_errors=True)

    def write_tu(s, path, hs):
        with open(path, 'w') as f:
            f.write(f'#include "{s.prop.lower()}.hpp"\n')
            for h in hs:
                f.write(h.line + '\n')

    def unit(s, key, hs):
        """Compile one group of contract instances to IR and discharge its obligations."""
        base = os.path.join(s.work, key)
        cpp, bc, js = base + '.cpp', base + '.bc', base + '.json'
        t0 = time.time()
        hs = list(hs)
        for attempt in range(40):
            s.write_tu(cpp, hs)
            r = subprocess.run([CLANG] + IRFLAGS + DEFS + CONFIGS[hs[0].cfg] + s.inc + [cpp, '-o', bc], capture_output=True, text=True)
            if r.returncode == 0:
                break
            bad = {}
            last = None
            for l in r.stderr.splitlines():
                m = re.search(r'error: (.*)', l)
                if m:
                    last = l[:400]
                m = re.match(re.escape(cpp) + r':(\d+):', l)
                if m and last:
                    bad.setdefault(int(m.group(1)) - 2, last)
            if not bad:
                raise CheckError('compiling the contracts failed: ' + r.stderr[:3000])
            for i in sorted(bad, reverse=True):
                if 0 <= i < len(hs):
                    s.compile_errors.append((hs[i], bad[i]))
                    del hs[i]
            if not hs:
                return []
        t1 = time.time()
        if s.stop.is_set():
            return []
        cmd = [s.irvc, bc, '--out', js, '--fast', str(s.fast), '--ext', str(s.ext), '--budget', str(max(5, int(s.deadline - time.time())))]
        if s.opts.get('v'):
            cmd += ['-v']
        if s.opts.get('only'):
            cmd += ['--only', s.opts['only']]
        err = None if s.opts.get('v') else open(base + '.err', 'w+')
        pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=dict(os.environ, IRVC_CACHE=s.cache))
        seen = 0
        while True:
            try:
                pr.wait(0.3)
                break
            except subprocess.TimeoutExpired:
                pass
            seen = s.watch(js + '.fail', seen, {h.name: h for h in hs})
            if s.stop.is_set():
                pr.kill()
                pr.wait()
                return []
        s.watch(js + '.fail', seen, {h.name: h for h in hs})
        if pr.returncode or not os.path.exists(js):
            raise CheckError(f'verifier failed on {key}: rc={pr.returncode} {open(base + ".err").read()[-2000:] if err else ""}')
        d = json.load(open(js))['functions']
        by = {h.name: h for h in hs}
        for f in d:
            f['h'] = by[f['name']]
            f['id'] = by[f['name']].id()
            f['compile_s'] = t1 - t0
        if not s.opts.get('only') and len(d) != len(hs):
            raise CheckError(f'{key}: {len(hs)} contract instances, {len(d)} verified')
        if not s.opts.get('keep'):
            for p in (bc, cpp):
                os.unlink(p)
        return d

    def watch(s, path, seen, by):
        """Replay the first refuted obligation of each kind while the rest is still being proved; one that is confirmed ends the run."""
        if s.opts.get('cmd') == 'dev' or not os.path.exists(path):
            return seen
        for l in open(path).read().split('\n')[seen:-1]:
            seen += 1
            d = json.loads(l)
            h, x = by[d['name']], d['failure']
            with s.lock:
                n = s.tried.get((h.contract, x['label']), 0)
                s.tried[h.contract, x['label']] = n + 1
            f = {'h': h, 'id': h.id()}
            if n >= 2 or s.stop.is_set() or known(s.prop, f, x):
                continue
            ok, inp, o = s.replay(f, x, 4)
            if ok:
                with s.lock:
                    s.confirmed.append((f, x, inp, o, True))
                s.stop.set()
        return seen

    def verify(s, hs):
        groups = {}
        for h in hs:
            groups.setdefault((h.cfg, h.type), []).append(h)
        lim = int(s.opts.get('chunk') or CHUNK.get(s.prop, 80))
        units = []
        for (cfg, t), l in groups.items():
            n = -(-len(l) // lim)
            for i in range(n):
                units.append((f'{cfg}-{t}-{i}', l[i::n]))
        units.sort(key=lambda u: -len(u[1]))
        res = []
        with ThreadPoolExecutor(s.jobs) as ex:
            for r in ex.map(lambda u: s.unit(*u), units):
                res += r
        return res if s.opts.get('cmd') == 'dev' or s.stop.is_set() else s.retry(res)

    def retry(s, res):
        """Solver time limits are wall-clock limits: undecided instances get a second run with long limits, unless something failed anyway."""
        und = [f for f in res if f['unknown'] and not f['failed']]
        if not und or len(und) > 64 or any(f['failed'] for f in res) or s.opts.get('v'):
            return res
        left = s.deadline - time.time()
        if left < 60:
            return res
        s.fast, s.ext, s.budget = 60000, int(min(300, left / 2)), int(left)
        log(f'{len(und)} instances undecided, second run')
        new = {}
        with ThreadPoolExecutor(max(1, s.jobs // 2)) as ex:
            for r in ex.map(lambda p: s.unit(f'retry-{p[0]}', [p[1]['h']]), list(enumerate(und))):
                for f in r:
                    new[f['id']] = f
        return [new.get(f['id'], f) for f in res]

    # -- replay ---------------------------------------------------------------------------------------------
    def native(s, h):
        exe = os.path.join(s.work, 'nat-' + re.sub(r'\W', '_', h.id()))
        if os.path.exists(exe):
            return exe
        cpp = exe + '.cpp'
        s.write_tu(cpp, [h])
        cmd = ['g++'] + NATFLAGS + DEFS + CONFIGS[h.cfg] + s.inc + ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=signed-integer-overflow,float-cast-overflow,float-divide-by-zero',
               f'-DVC_HARNESS={h.name}', cpp, os.path.join(V, 'rt', 'vc_rt.cpp'), '-o', exe]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('native replay build failed: ' + r.stderr[:1500])
        return exe

    def run_native(s, exe, args, timeout):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1')
        try:
            r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            return 0, 'timeout'
        return r.returncode, r.stdout + r.stderr

    def replay(s, f, fail, budget):
        """Returns (confirmed, inputs, output)."""
        h = f['h']
        try:
            exe = s.native(h)
        except CheckError as e:
            return False, None, str(e)
        if fail['model'] and fail['status'] == 'sat':
            p = exe + '.in'
            open(p, 'w').write('\n'.join(format(int(v), 'x') for _, _, v in fail['model']) + '\n')
            rc, o = s.run_native(exe, ['inputs', p], 60)
            if rc:
                return True, [format(int(v), 'x') for _, _, v in fail['model']], o
        rc, o = s.run_native(exe, ['search', '100000000', str(budget), str(s.seed)], budget + 60)
        if rc:
            m = re.search(r'INPUTS(.*)', o)
            return True, [x.split(':')[1] for x in m.group(1).split()] if m else None, o
        return False, None, o


# units with heavier contracts are split finer
CHUNK = {}
# wall-clock limit of one external query, where the exact floating-point obligations need more than the default
EXT = {'C14': 150}
BUDGET = {'quick': 560, 'thorough': 840}


def known_findings():
    k = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) label="([^"]*)" (.*)', l)
            if m:
                k.append(m.groups())
    return k


def check(prop, tier, opts, dev=False):
    t0 = time.time()
    R = Runner(prop, tier, opts)
    R.irvc = ensure_irvc()
    R.fast = int(opts.get('fast') or 10000)
    R.ext = int(opts.get('ext') or EXT.get(prop, 30 if tier == 'quick' else 120))
    R.budget = BUDGET[tier]
    R.deadline = t0 + BUDGET[tier]
    try:
        hs = registry(prop, tier, opts)
        ex = exclusions()
        skipped = {}
        keep = []
        for h in hs:
            why = next((w for p, w in ex if fnmatch.fnmatch(h.id(), p)), None)
            if why is None or opts.get('noskip'):
                keep.append(h)
            else:
                skipped.setdefault(why, []).append(h.id())
        res = R.verify(keep)
        if dev:
            tot = dict(proved=0, failed=0, unknown=0)
            fagg = {}
            for f in sorted(res, key=lambda f: f['id']):
                for k in tot:
                    tot[k] += f[k]
                if f.get('error'):
                    fagg.setdefault((f['h'].contract, 'ERROR', f['error'], '', ''), []).append((f, None))
                for x in f['failures']:
                    fagg.setdefault((f['h'].contract, x['status'], x['kind'] + ': ' + x['label'], x['where'].split(' <- ')[0], ''), []).append((f, x))
            for k, l in sorted(fagg.items(), key=lambda p: p[0]):
                ids = sorted({f['id'] for f, x in l})
                by = {}
                for i in ids:
                    h = i.split('__', 2)[2]
                    by.setdefault(h.split('@')[1], []).append(h.split('@')[0])
                print(f"{k[0]} {k[1]} {k[2]} at {k[3]}: {len(l)} obligations in {len(ids)} instances:", '; '.join(f"{c}: {','.join(v[:14])}{'..' if len(v) > 14 else ''}" for c, v in by.items()))
                f, x = l[0]
                if x and opts.get('model'):
                    print('      cond', x['cond'][:1500]); print('      model', ' '.join(f'{n}={int(v):x}' for n, w, v in x['model']))
                if x and opts.get('rp'):
                    ok, inp, o = R.replay(f, x, 5)
                    print('    replay:', 'CONFIRMED' if ok else 'not reproduced', (o or '')[:300].replace('\n', ' | '))
            agg = {}
            for h, e in R.compile_errors:
                m = re.match(r'(\S+?): error: (.*)', e)
                agg.setdefault(m.group(1) if m and R.work not in m.group(1) else e.split('error: ')[-1][:80], []).append((h, m.group(2) if m else e))
            for k, l in sorted(agg.items()):
                cs = {}
                for h, e in l:
                    cs.setdefault(h.contract, set()).add(f'{h.type}/{h.abi}/{h.cfg}')
                print(f'{len(l)} instances DO NOT COMPILE: {k}: {l[0][1][:160]} ::', '; '.join(f'{c}({len(v)}) e.g. {sorted(v)[0]}' for c, v in sorted(cs.items()))[:500])
            slow = sorted(res, key=lambda f: -f['time_s'])[:5]
            print(tot, len(res), 'instances', f'{time.time() - t0:.1f}s wall; slowest:', ', '.join(f"{f['id']} {f['time_s']:.1f}s" for f in slow))
            return 0
        return conclude(R, prop, tier, hs, res, skipped, t0)
    finally:
        R.close()


def known(prop, f, x):
    return next((k for k in known_findings() if k[0] == prop and fnmatch.fnmatch(f['id'], k[1]) and fnmatch.fnmatch(x['label'], k[2])), None)


def conclude(R, prop, tier, hs, res, skipped, t0):
    kf = [k for k in known_findings() if k[0] == prop]
    kf_hit = {}
    fail = []
    for h, e in R.compile_errors:
        fail.append(({'h': h, 'id': h.id()}, {'kind': 'wellformed', 'label': 'does not compile', 'where': e, 'status': 'error', 'by': 'clang', 'fp': False, 'cond': e, 'model': []}))
    for f in res:
        if f.get('error'):
            fail.append((f, {'kind': 'verifier', 'label': 'not accepted by the verifier', 'where': f['error'], 'status': 'error', 'by': 'irvc', 'fp': False, 'cond': f['error'], 'model': []}))
        fail += [(f, x) for x in f['failures']]
    errors = []
    bad = []
    for f, x in fail:
        k = next((k for k in kf if fnmatch.fnmatch(f['id'], k[1]) and fnmatch.fnmatch(x['label'], k[2])), None)
        if k:
            kf_hit.setdefault(k, []).append((f, x))
        else:
            bad.append((f, x))
    violations = list(R.confirmed)
    unknowns = []
    rdir = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    # replay: one representative per contract and label first
    reps = {}
    for f, x in bad:
        reps.setdefault((f['h'].contract, x['kind'], x['label']), []).append((f, x))
    t_r = time.time()
    for key, l in [] if violations else list(reps.items()):
        l.sort(key=lambda p: (p[1]['status'] != 'sat', p[1]['fp'], len(p[1]['model'])))
        left = 200 - (time.time() - t_r)
        done = None
        o = ''
        for f, x in l[:3]:
            if left <= 0 and violations or x['kind'] == 'wellformed':
                break
            ok, inp, o = R.replay(f, x, max(5, min(15, left / 3)))
            if ok:
                done = (f, x, inp, o)
                break
        if done:
            f, x, inp, o = done
            violations.append((f, x, inp, o, True))
        else:
            f, x = next(((f, x) for f, x in l if x['status'] == 'sat'), l[0])
            violations.append((f, x, None, o, False))
            if x['status'] != 'sat':
                unknowns.append(f"{f['id']}: {x['kind']} '{x['label']}' at {x['where']} ({x['by']})")
        if len(violations) >= 4:
            break
    # a confirmed failure makes unreproduced ones redundant
    if any(v[4] for v in violations):
        violations = [v for v in violations if v[4]]
    for k in kf:
        if k in kf_hit:
            print(f'KNOWN-FINDING: property={prop} {k[3]}')
    out = []
    for i, (f, x, inp, o, ok) in enumerate(violations):
        p = os.path.join(rdir, f'{prop}-{i}.json')
        json.dump({'property': prop, 'harness': f['h'].name, 'config': f['h'].cfg, 'contract': f['h'].contract, 'type': f['h'].type, 'abi': f['h'].abi, 'targs': f['h'].targs,
                   'obligation': {'kind': x['kind'], 'label': x['label'], 'where': x['where'], 'status': x['status'], 'backend': x['by'], 'condition': x['cond']},
                   'inputs_in_order_hex': inp, 'native_output': (o or '')[:4000], 'reproduced': ok,
                   'how': f'python3 {V}/run.py replay {p}'}, open(p, 'w'), indent=1)
        print(f"failed obligation: {f['id']} {x['kind']}: {x['label']} at {x['where']}")
        line = f'VIOLATION property={prop} replay={p}' + ('' if ok else ' no-failing-input-found')
        print(line)
        out.append(line)
    write_evidence(R, prop, tier, hs, res, skipped, kf_hit, out, errors, unknowns, t0)
    if out:
        return 1
    if errors or unknowns:
        for e in (errors + unknowns)[:20]:
            log('ERROR:', e)
        log(f'{len(errors)} errors, {len(unknowns)} undecided')
        return 2
    n = sum(f['proved'] for f in res)
    print(f'{prop}: {len(res)} contract instances, {n} obligations discharged, {time.time() - t0:.1f}s')
    return 0


def write_evidence(R, prop, tier, hs, res, skipped, kf_hit, out, errors, unknowns, t0):
    by, kinds = {}, {}
    called, intr, ext = set(), set(), set()
    for f in res:
        for k, v in f['by'].items():
            by[k] = by.get(k, 0) + v
        for k, v in f.get('kinds', {}).items():
            kinds[k] = kinds.get(k, 0) + v
        called.update(f.get('called', []))
        intr.update(f['intrinsics'])
        ext.update(f['external'])
    contracts = sorted({f['h'].contract for f in res})
    ob = sum(f['proved'] + f['failed'] + f['unknown'] for f in res)
    known = sum(len(v) for v in kf_hit.values())
    proved = sum(f['proved'] for f in res)
    trusted = ['clang 18 front end (C++ to LLVM IR, -O0) in place of the shipped GCC build', 'irvc symbolic execution and its models of the x86 intrinsics listed under intrinsics_modelled (compared with the CPU by tools/intrinsics_selftest)',
               'z3 4.8.12 / z3 5.3.2 / cvc5 1.1.2 as back ends', 'IEEE-754 round-to-nearest, no flush-to-zero, no floating-point contraction; NaN payloads not distinguished',
               'signed overflow treated as two\'s-complement wrap-around', 'AVX-512 and SVML code paths are not built here and not covered']
    if ext:
        trusted.append('external functions assumed total, pure and deterministic (uninterpreted): ' + ', '.join(sorted(ext)))
    ev = {'property': prop, 'tier': tier, 'seed': R.seed, 'level': 'proof',
          'coverage': {'obligations': ob, 'discharged': proved, 'checker_cmd': f'python3 run.py check {prop} --tier {tier}',
                       'trusted_base': trusted, 'contracts': contracts, 'contract_instances': len(res), 'instances_by_config': {c: sum(f['h'].cfg == c for f in res) for c in CONFIGS},
                       'obligations_by_kind': kinds, 'discharged_by_backend': by, 'solver_s': round(sum(f['solver_s'] for f in res), 2), 'solver_queries': sum(f['queries'] for f in res),
                       'vacuity_covers_reached': sum(f.get('covers', 0) for f in res),
                       'functions_executed': len(called), 'functions_under_contract_or_inlined_in_one': sorted(called)[:4000],
                       'intrinsics_modelled': sorted(intr), 'external_functions': sorted(ext),
                       'not_in_deciding_run': {k: v[:50] for k, v in skipped.items()},
                       'known_finding_obligations': known},
          'assumptions': trusted + ['widths: the listed ABIs instantiate each template; other lane counts are not separately verified'],
          'wall_s': round(time.time() - t0, 2), 'violations': out}
    if errors or unknowns:
        ev['coverage']['errors'] = (errors + unknowns)[:50]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tmp = os.path.join(V, 'evidence', f'.{prop}.{os.getpid()}')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(V, 'evidence', f'{prop}.json'))


def replay_cmd(path):
    d = json.load(open(path))
    if d.get('accuracy'):
        import accuracy
        return accuracy.replay(sys.modules[__name__], d)
    R = Runner(d['property'], 'quick', {})
    try:
        h = Harness(d['property'], d['contract'], d['type'], d['abi'], d['targs'], d['config'])
        exe = R.native(h)
        if not d['inputs_in_order_hex']:
            print('no failing input recorded; failed obligation:', json.dumps(d['obligation'], indent=1))
            return 1
        p = exe + '.in'
        open(p, 'w').write('\n'.join(d['inputs_in_order_hex']) + '\n')
        rc, o = R.run_native(exe, ['inputs', p], 60)
        print(o)
        return 1 if rc else 0
    finally:
        R.close()


def main():
    a = argparse.ArgumentParser()
    a.add_argument('cmd', choices=['check', 'dev', 'replay', 'build'])
    a.add_argument('arg', nargs='?')
    a.add_argument('--tier', default=None)
    for o in ('types', 'abis', 'cfg', 'contract', 'only', 'fast', 'ext', 'chunk'):
        a.add_argument('--' + o)
    for o in ('v', 'keep', 'model', 'all', 'rp', 'noskip'):
        a.add_argument('-' + o if len(o) == 1 else '--' + o, action='store_true', dest=o)
    n = a.parse_args()
    tier = n.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        if n.cmd == 'build':
            ensure_irvc()
            return 0
        if n.cmd == 'replay':
            return replay_cmd(n.arg)
        if n.arg == 'C20':
            import accuracy
            return accuracy.check(sys.modules[__name__], tier)
        return check(n.arg, tier, vars(n), dev=n.cmd == 'dev')
    except CheckError as e:
        log('ERROR:', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
