#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current sources.

usage: check.py ID            (tier from VERIF_TIER, seed from VERIF_SEED)
       check.py --setup       pre-builds the engine and the bitcode of the current tree
       check.py --replay FILE re-runs a recorded counterexample against the real code
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
R = '/repo'
B = os.path.join(V, 'build')
CACHE = os.path.join(B, 'cache')
sys.path.insert(0, V)
import checks as C

COMMON = ['-std=c++17', '-w', '-DNDEBUG', '-DHAVE_PNG', '-DHAVE_JPEG', '-include', 'array', '-include', 'limits', '-include', 'cstdint',
          '-include', f'{V}/stubs/dw_rng.hpp', f'-I{V}/stubs/include', f'-I{V}/rt', f'-I{V}/harness', f'-I{R}/include', f'-I{R}/src', f'-I{R}/samples', '-isystem', '/usr/include/eigen3']
BC = [f'-I{V}/stubs/bcinclude', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-math-errno', '-g', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DDW_BC', '-emit-llvm', '-c']
OMP = ['-fopenmp', '-DEIGEN_DONT_PARALLELIZE', f'-I{V}/stubs/omp']
NAT = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address', '-c']
TSAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-c']


class Inconclusive(Exception):
    pass


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def digest(paths, *extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(repr(e).encode())
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def files(pat):
    return sorted(p for p in glob.glob(pat, recursive=True) if os.path.isfile(p))


def engine():
    src = files(f'{V}/engine/*.?pp') + [f'{V}/engine/build.sh']
    d = f'{B}/engine-{digest(src)}'
    if not os.path.exists(d + '/dwsym'):
        os.makedirs(B, exist_ok=True)
        t = tempfile.mkdtemp(prefix='engine-', dir=B)
        r = sh(['bash', f'{V}/engine/build.sh', t])
        if r.returncode or not os.path.exists(t + '/dwsym'):
            shutil.rmtree(t, ignore_errors=True)
            raise Inconclusive('the engine does not build:\n' + r.stdout[-3000:])
        for o in glob.glob(t + '/*.o'):
            os.unlink(o)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d + '/dwsym'


class Build:
    def __init__(self, thorough):
        self.thorough = thorough
        self.hdr = files(f'{R}/include/**/*.hpp') + files(f'{R}/src/**/*.hpp') + files(f'{R}/include/**/*.h') + files(f'{R}/src/**/*.h') + files(f'{V}/stubs/**/*') + files(f'{V}/rt/*.h') + files(f'{V}/harness/*.hpp') + files(f'{R}/samples/**/*.?pp')
        self.hh = digest(self.hdr, COMMON)
        os.makedirs(CACHE, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(os.cpu_count() or 4)
        self.dw = self.pool.submit(engine)
        self.hits = 0

    def obj(self, src, kind, flags, omp=False):
        fl = COMMON + list(flags) + (['-DDW_THOROUGH=1'] if self.thorough and src.startswith(V) else [])
        if omp:
            fl = fl + OMP
        suffix = '.bc' if kind == 'bc' else '.o'
        pre = digest(files(f'{V}/engine/main.cpp')) if kind == 'bc' else ''
        out = f'{CACHE}/{digest([src], self.hh, fl, kind, pre)}{suffix}'
        if os.path.exists(out):
            os.utime(out)
            self.hits += 1
            return out
        fd, t = tempfile.mkstemp(suffix=suffix, dir=CACHE)
        os.close(fd)
        try:
            r = sh(['clang++'] + fl + [src, '-o', t])
            if r.returncode:
                raise Inconclusive(f'{src} does not compile:\n{r.stdout[-3000:]}')
            if kind == 'bc':
                r = sh([self.dw.result(), 'prep', t, t + '.p'])
                if r.returncode:
                    raise Inconclusive(f'{src}: bitcode preparation failed:\n{r.stdout[-2000:]}')
                os.rename(t + '.p', out)
            else:
                os.rename(t, out)
        finally:
            for x in (t, t + '.p'):
                if os.path.exists(x):
                    os.unlink(x)
        return out

    def sources(self):
        return files(f'{R}/src/**/*.cpp')

    def submit(self, srcs, kind, flags, omp=False):
        # the Eigen-heavy file first
        srcs = sorted(srcs, key=lambda s: (-os.path.getsize(s), s))
        return [self.pool.submit(self.obj, s, kind, flags, omp) for s in srcs]


def link_native(objs, flavour):
    exe = f'{CACHE}/{hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]}.exe'
    if not os.path.exists(exe):
        t = exe + f'.{os.getpid()}'
        san = '-fsanitize=thread' if flavour == 'tsan' else '-fsanitize=address'
        r = sh(['clang++', san, '-rdynamic', '-o', t] + objs + ['-ldl', '-lpthread', '-Wl,--unresolved-symbols=ignore-all'])
        if r.returncode:
            raise Inconclusive('the native harness does not link:\n' + r.stdout[-3000:])
        os.rename(t, exe)
    return exe


def replay(exe, entry, inputs, obs=None, runs=1):
    with tempfile.TemporaryDirectory(prefix='dwreplay-') as d:
        p = d + '/in'
        with open(p, 'w') as f:
            f.write(inputs)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000', TSAN_OPTIONS='exitcode=98:halt_on_error=1', LANG='C')
        try:
            r = subprocess.run([exe, entry, p, d + '/obs'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = 124, 'timeout'
        o = []
        if os.path.exists(d + '/obs'):
            o = [float(x) for x in open(d + '/obs').read().split()]
        return rc, err, o


def prune():
    fs = [(os.path.getmtime(p), p) for p in glob.glob(CACHE + '/*')]
    if len(fs) > 900:
        for _, p in sorted(fs)[:len(fs) - 500]:
            try:
                os.unlink(p)
            except OSError:
                pass


def known(pid):
    p = f'{V}/known_findings.json'
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k['status'] == 'known'] if os.path.exists(p) else []


def run(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = C.CHECKS[pid]
    thorough = tier == 'thorough'
    omp = bool(spec.get('omp'))
    b = Build(thorough)
    srcs = b.sources()
    har = f'{V}/harness/{spec["harness"]}'
    extra = [f'{V}/harness/{x}' for x in spec.get('extra', [])]
    bcf = b.submit([har] + extra + srcs + [f'{V}/rt/runtime.cpp'] + [f'{V}/stubs/image_stub.cpp'], 'bc', BC, omp)
    flavour = 'tsan' if omp else 'asan'
    nf = b.submit([har] + extra + srcs + [f'{V}/rt/native.cpp'] + ([f'{V}/rt/omp_native.cpp'] if omp else []) + [f'{V}/stubs/image_stub.cpp'], 'o', TSAN if omp else NAT, omp)
    skipped = []

    def got(futs):
        r = []
        for f in futs:
            try:
                r.append(f.result())
            except Inconclusive as e:
                # a source file the stand-in headers do not cover matters only to the properties that reach it
                if not (str(e).startswith(R) or str(e).startswith(f'{V}/harness/wrap')) or skipped.count(str(e)) > 1:
                    raise
                skipped.append(str(e))
        return r
    bcs = got(bcf)
    dw = b.dw.result()
    tb = time.time()
    ents = list(spec['entries']) + (list(spec.get('thorough_entries', [])) if thorough else [])
    out = tempfile.mkdtemp(prefix='dwsym-')
    try:
        limit = spec.get('time', {}).get(tier, 240 if tier == 'quick' else 3000)
        r = sh([dw, 'run', '--out', out, '--entries', ','.join(ents), '--time', str(limit), '--jobs', str(os.cpu_count() or 4), '--wit', str(spec.get('wit', 24)), '--seed', str(seed)] + bcs, timeout=limit * 3 + 300)
        if r.returncode or not os.path.exists(out + '/summary.json'):
            raise Inconclusive('the engine failed:\n' + r.stdout[-3000:])
        s = json.load(open(out + '/summary.json'))
        load = lambda n: [json.loads(l) for l in open(f'{out}/{n}')] if os.path.exists(f'{out}/{n}') else []
        cands, wits = load('cand.jsonl'), load('wit.jsonl')
        notes = sorted(set(open(out + '/notes.txt').read().split('\n')) - {''}) if os.path.exists(out + '/notes.txt') else []
    finally:
        shutil.rmtree(out, ignore_errors=True)
    te = time.time()
    exe = link_native(got(nf), flavour)
    # counterexamples are believed only when the real code shows them
    kn, shown, unconf, viol, nkn = known(pid), set(), [], 0, 0
    lines = []
    jobs = [(c, i) for c in cands for i in c['inputs']]
    res = list(b.pool.map(lambda ci: replay(exe, ci[0]['entry'], ci[1]), jobs))
    by = {}
    for (c, i), (rc, err, _) in zip(jobs, res):
        if rc in (42, 43, 98, 99) or rc < 0 or rc == 124:
            by.setdefault(c['id'], (c, i, rc, err))
    for c in cands:
        if c['id'] not in by:
            unconf.append(f'{c["entry"]}: {c["kind"]}: {c["msg"]} @ {c["where"]}')
    for c, i, rc, err in by.values():
        text = f'{c["entry"]}: {c["kind"]}: {c["msg"]}'
        if text in shown:
            continue
        shown.add(text)
        k = next((k for k in kn if k['entry'] == c['entry'] and k['msg'] == c['msg']), None)
        if k:
            nkn += 1
            lines.append(f'KNOWN-FINDING: property={pid} {k["what"]}')
            continue
        viol += 1
        os.makedirs(f'{B}/replays', exist_ok=True)
        p = f'{B}/replays/{pid}-{viol}.json'
        first = next((l for l in err.split('\n') if 'DWFAIL' in l or 'ERROR: ' in l or 'WARNING: Thread' in l), '')
        json.dump({'property': pid, 'tier': tier, 'entry': c['entry'], 'kind': c['kind'], 'msg': c['msg'], 'where': c['where'], 'inputs': i, 'exit': rc, 'native': first, 'stderr': err[-4000:]}, open(p, 'w'), indent=1)
        lines.append(f'VIOLATION property={pid} replay={p}')
        lines.append(f'  {text} @ {c["where"]}')
        lines.append(f'  real code: exit {rc}: {first}')
    # existential claims: some input has to reach the named outcome; its absence counts only when every path was decided
    for name in spec.get('reach', []):
        if name not in s['reached'] and s['incomplete'] == 0 and not cands:
            viol += 1
            os.makedirs(f'{B}/replays', exist_ok=True)
            p = f'{B}/replays/{pid}-{viol}.json'
            json.dump({'property': pid, 'tier': tier, 'kind': 'unreachable', 'msg': name, 'entries': ents, 'what': 'every path within the bounds was decided and none reaches this outcome'}, open(p, 'w'), indent=1)
            lines.append(f'VIOLATION property={pid} replay={p}')
            lines.append(f'  no input within the bounds reaches: {name}')
    # completed paths are replayed too: the executor and the real code have to agree
    def wit(w):
        rc, err, o = replay(exe, w['entry'], w['inputs'])
        if rc != 0:
            return 'rc %d %s' % (rc, next((l for l in err.split('\n') if 'DW' in l or 'ERROR' in l or 'WARNING' in l), err[:200]))
        e = w['expect']
        if len(o) < len(e):
            return f'{len(o)} observations, {len(e)} expected'
        for k, (x, y) in enumerate(zip(o, e)):
            if y is not None and not abs(x - y) <= 2e-3 + 2e-3 * max(abs(x), abs(y)):
                return f'observation {k}: real code {x}, executor {y}'
        return None
    wr = list(b.pool.map(wit, wits))
    agree = sum(1 for x in wr if x is None)
    disag = [f'{w["entry"]}: {x} | {w["inputs"][:300]!r}' for w, x in zip(wits, wr) if x is not None]
    reasons = {}
    for x in s['reasons']:
        reasons[x] = reasons.get(x, 0) + 1
    dur = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(dur, 2), 'violations': viol,
        'coverage': {
            'states': s['paths'], 'transitions': s['instructions'], 'traces_validated_against_impl': agree,
            'exhaustive': s['incomplete'] == 0 and not unconf and not notes,
            'samples': [{'entry': w['entry'], 'inputs': w['inputs'][:1200], 'observed': w['expect'][:12]} for w in wits[:3]],
            'meaning': 'states: feasible symbolic paths completed; transitions: IR instructions of the real code executed symbolically; traces: path witnesses re-run natively with the same observations',
            'entries': ents, 'functions_encoded': s['repo_functions'], 'functions_executed_in_all': s['functions_executed'],
            'bounds': spec['bounds'], 'outside_the_bounds': spec['outside'],
            'assertions': s['checks'], 'assertions_closed_by_term_rewriting': s['checks_by_normal_form'], 'assertions_equal_up_to_constant_rounding': s['checks_within_rounding'],
            'assertions_decided_by_solver': s['checks'] - s['checks_by_normal_form'] - s['checks_within_rounding'],
            'path_forks': s['forks'], 'infeasible_paths_cut': s['infeasible'],
            'solver_queries': s['queries'], 'solver_sat': s['sat'], 'solver_unsat': s['unsat'], 'solver_unknown': s['unknown'], 'solver_seconds': s['solver_s'], 'longest_query_s': s['max_query_s'],
            'undecided': s['incomplete'], 'undecided_reasons': reasons, 'notes': notes,
            'counterexamples_proposed': len(cands), 'counterexamples_not_reproduced_natively': unconf, 'known_findings_reported': nkn,
            'witness_disagreements': disag, 'sources_not_encoded': skipped, 'reached': s['reached'], 'seconds': {'build': round(tb - t0, 2), 'explore': round(te - tb, 2), 'replay': round(t0 + dur - te, 2), 'per_entry': s['entry_s']},
        },
        'assumptions': C.TRUST + spec.get('assumes', []),
    }
    os.makedirs(f'{V}/evidence', exist_ok=True)
    with open(f'{V}/evidence/{pid}.json.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(f'{V}/evidence/{pid}.json.tmp', f'{V}/evidence/{pid}.json')
    prune()
    for l in lines:
        print(l)
    print(f'{pid} [{tier}] paths={s["paths"]} instr={s["instructions"]} assertions={s["checks"]} (rewritten {s["checks_by_normal_form"]}) queries={s["queries"]} solver={s["solver_s"]:.1f}s '
          f'undecided={s["incomplete"]} candidates={len(cands)} confirmed={viol + nkn} witnesses={agree}/{len(wits)} build={tb - t0:.1f}s explore={te - tb:.1f}s total={dur:.1f}s')
    for x, n in list(reasons.items())[:8]:
        print(f'  INCOMPLETE x{n}: {x}')
    for x in unconf[:8]:
        print(f'  NOT REPRODUCED: {x}')
    for x in disag[:5]:
        print(f'  WITNESS DISAGREES: {x}')
    for x in skipped[:3]:
        print('  SKIPPED: ' + x[:400])
    for x in notes[:5]:
        print(f'  NOTE: {x}')
    if viol:
        return 1
    if s['paths'] == 0 and not nkn:
        raise Inconclusive('no path was completed')
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        b = Build(False)
        for f in b.submit(b.sources() + [f'{V}/rt/runtime.cpp'] + files(f'{V}/harness/*.cpp'), 'bc', BC):
            try:
                f.result()
            except Inconclusive as e:
                print(e)
        return 0
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        if d['kind'] == 'unreachable':
            print(d)
            return 1
        spec = C.CHECKS[d['property']]
        b = Build(d['tier'] == 'thorough')
        omp = bool(spec.get('omp'))
        fs = b.submit([f'{V}/harness/{x}' for x in [spec["harness"]] + spec.get('extra', [])] + b.sources() + [f'{V}/rt/native.cpp'] + ([f'{V}/rt/omp_native.cpp'] if omp else []) + [f'{V}/stubs/image_stub.cpp'], 'o', TSAN if omp else NAT, omp)
        rc, err, _ = replay(link_native([f.result() for f in fs], 'tsan' if omp else 'asan'), d['entry'], d['inputs'])
        print(err)
        return 1 if rc else 0
    if len(a) != 1 or a[0] not in C.CHECKS:
        print(__doc__)
        return 2
    try:
        return run(a[0])
    except Inconclusive as e:
        print(f'{a[0]}: no verdict: {e}')
        return 2


if __name__ == '__main__':
    sys.exit(main())
