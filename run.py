#!/usr/bin/env python3
"""Driver of the checks: builds the bitcode of /repo's current tree, runs the symbolic executor on a
property's harness, replays what it reports against a native build of the same tree, writes the evidence.

  run.py setup                       build the symbolic executor
  run.py check ID [--tier quick|thorough]
  run.py replay FILE                 replay a recorded counterexample natively
"""
import sys, os, json, subprocess, hashlib, time, re, shutil, fcntl, concurrent.futures as cf, glob
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
LL = '/usr/lib/llvm-18/bin'
NJ = int(os.environ.get('VERIF_JOBS', '8'))
INC = [f'-I{HERE}/rt/include', f'-I{HERE}/harness'] + [f'-I{REPO}{s}' for s in ('', '/Narsese', '/Narsese/Parser', '/Interpreter', '/utils')] + ['-I/usr/include/python3.12']
BCF = ['-std=gnu++20', '-O1', '-fno-pie', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-include', f'{HERE}/rt/include/sx_pre.h',
       '-DFMT_CONSTEVAL=', '-DFMT_HEADER_ONLY', '-w', '-emit-llvm']
RTF = ['-std=gnu++20', '-O1', '-fno-builtin', '-D__NO_INLINE__', '-w', '-include', f'{HERE}/rt/include/sx_pre.h', f'-I{HERE}/rt/include', '-emit-llvm']
NATF = {'asan': ['-std=gnu++20', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment,enum,bool,null,float-divide-by-zero', '-fno-sanitize-recover=all', '-w', '-DFMT_SHARED', '-DFMT_CONSTEVAL='],
        'plain': ['-std=gnu++20', '-O1', '-g1', '-w', '-DFMT_SHARED', '-DFMT_CONSTEVAL=']}

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class Fail(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')

def units():
    fs = []
    for g in ('Narsese/src/*.cpp', 'Narsese/Parser/*.cpp', 'Interpreter/src/*.cpp', 'utils/*.cpp', 'Config.cpp', 'Global.cpp'):
        fs += sorted(glob.glob(os.path.join(REPO, g)))
    return [f for f in fs if os.path.getsize(f)]

def repo_sources():
    out = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in ('.git', '_build', 'build', 'pybind11', 'Tests', 'examples', 'doc')]
        out += [os.path.join(root, f) for f in fs if f.endswith(('.h', '.hpp', '.inl', '.cpp', '.c', '.hh', '.cc', '.cxx', '.ipp', '.def', '.inc'))]
    return out

def lock(name):
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, name + '.lock'), 'w'); fcntl.flock(f, fcntl.LOCK_EX); return f

def build_symx():
    l = lock('symx')
    rc, o, e = sh(['make', '-j8', '-C', os.path.join(HERE, 'symx'), f'B={B}'])
    if rc: raise Fail('building symx failed: ' + e[-2000:])
    l.close()
    return os.path.join(B, 'symx')

# ---- compilation cache: an object is reused only if the source and every header of /repo and /verif it was built from
# ---- have the same content, the command is the same, and the set of source files of the tree is the same
_fh = {}
def fhash(p):
    if p not in _fh:
        try: _fh[p] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
        except OSError: _fh[p] = ''
    return _fh[p]

_tree = []
def tree_files():
    if not _tree: _tree.append(hashlib.sha256('\n'.join(sorted(repo_sources())).encode()).hexdigest())
    return _tree[0]

def gc_cache():
    d = os.path.join(B, 'cache'); fs = [os.path.join(d, f) for f in os.listdir(d)] if os.path.isdir(d) else []
    if sum(os.path.getsize(f) for f in fs) > 4 << 30:
        for f in sorted(fs, key=os.path.getmtime)[:len(fs) // 2]: os.unlink(f)

def compile_all(jobs):
    """jobs: (command without -o and without the source, source); returns the objects"""
    d = os.path.join(B, 'cache'); os.makedirs(d, exist_ok=True); out = []; todo = []
    for cmd, src in jobs:
        key = hashlib.sha256(' '.join(cmd + [src, tree_files()]).encode()).hexdigest()[:24]; ent = os.path.join(d, key + '.json'); obj = None
        try: ents = json.load(open(ent))
        except (OSError, ValueError): ents = []
        for e in ents:
            if os.path.exists(e['obj']) and all(fhash(f) == h for f, h in e['deps'].items()): obj = e['obj']; os.utime(obj); break
        if obj is None: todo.append((len(out), cmd, src, ent, ents))
        out.append(obj)
    def one(t):
        i, cmd, src, ent, ents = t; tmp = os.path.join(d, f'tmp{os.getpid()}_{i}_{time.time_ns()}')
        rc, o, e = sh(cmd + ['-MD', '-MF', tmp + '.d', '-c', src, '-o', tmp])
        if rc: return t, None, f'compiling {src} failed:\n' + e[-3000:]
        deps = open(tmp + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split(); os.unlink(tmp + '.d')
        deps = sorted({os.path.realpath(x) for x in deps}); deps = {x: fhash(x) for x in deps if x.startswith(os.path.realpath(REPO) + '/') or x.startswith(HERE + '/')}
        obj = os.path.join(d, hashlib.sha256(json.dumps([ent, deps]).encode()).hexdigest()[:24] + '.o'); os.rename(tmp, obj)
        return t, {'deps': deps, 'obj': obj}, ''
    with cf.ThreadPoolExecutor(NJ) as ex: res = list(ex.map(one, todo))
    for (i, cmd, src, ent, ents), e, err in res:
        if e is None: raise Fail(err)
        out[i] = e['obj']; tmp = ent + f'.{os.getpid()}'; json.dump([x for x in ents if os.path.exists(x['obj'])][-6:] + [e], open(tmp, 'w')); os.replace(tmp, ent)
    return out

def no_main(objs):
    ok = []
    for o in objs:
        rc, so, e = sh([f'{LL}/llvm-nm', '--defined-only', o])
        if not re.search(r' [TW] main$', so, re.M): ok.append(o)
    return ok

def incs(mock): return ([f'-I{HERE}/mock/{mock}'] if mock else []) + INC

def bc_jobs(harness, defs, mock):
    inc = incs(mock); srcs = units() + ([f'{REPO}/Narsese.cpp'] if mock else []); rts = sorted(glob.glob(f'{HERE}/rt/rt*.cpp'))
    return [([f'{LL}/clang++', *BCF, *inc], s) for s in srcs] + [([f'{LL}/clang++', *RTF], s) for s in rts] + [([f'{LL}/clang++', *BCF, *inc, *defs], harness)]

def native_jobs(harness, defs, mock, mode):
    inc = incs(mock); fl = NATF[mode]; srcs = units() + ([f'{REPO}/Narsese.cpp'] if mock else [])
    return [([f'{LL}/clang++', *fl, *inc], s) for s in srcs] + [([f'{LL}/clang++', *fl, *inc], f'{HERE}/rt/sx_native.cpp'), ([f'{LL}/clang++', *fl, *inc, *defs], harness)]

def prebuild(runs, modes=('plain',)):
    """compiles and links what several runs need, in parallel; failures show when a run is built"""
    l = lock('build')
    try:
        jobs = {}
        for h, d, m in runs:
            for j in bc_jobs(h, d, m) + [x for mode in modes for x in native_jobs(h, d, m, mode)]: jobs[json.dumps(j)] = j
        try: compile_all(list(jobs.values()))
        except Fail: return
        def one(r):
            try:
                build_bc(*r, locked=True)
                for mode in modes: build_native(*r, mode, locked=True)
            except Fail: pass
        with cf.ThreadPoolExecutor(NJ) as ex: list(ex.map(one, list({json.dumps(r): r for r in runs}.values())))
    finally: l.close()

def build_bc(harness, defs, mock, locked=False):
    """bitcode of the whole project plus the harness, from the current tree; returns the linked module."""
    l = None if locked else lock('build')
    n = len(units()) + bool(mock); objs = compile_all(bc_jobs(harness, defs, mock))
    key = hashlib.sha256('\n'.join(objs).encode()).hexdigest()[:24]; d = os.path.join(B, 'cache'); lk = os.path.join(d, key + '.linked.bc')
    if not os.path.exists(lk):
        rc, so, e = sh([f'{LL}/llvm-link', *no_main(objs[:n]), *objs[n:], '-o', lk + '.t'])
        if rc: raise Fail('llvm-link failed: ' + e[-2000:])
        rc, so, e = sh([f'{LL}/opt', '-passes=internalize,globaldce', '--internalize-public-api-list=sx_main', lk + '.t', '-o', lk + '.u'])
        if rc: raise Fail('opt failed: ' + e[-2000:])
        os.unlink(lk + '.t'); os.rename(lk + '.u', lk)
    else: os.utime(lk)
    if l: l.close()
    return lk

def build_native(harness, defs, mock, mode, locked=False):
    l = None if locked else lock('build'); fl = NATF[mode]
    n = len(units()) + bool(mock); objs = compile_all(native_jobs(harness, defs, mock, mode))
    key = hashlib.sha256('\n'.join(objs).encode()).hexdigest()[:24]; exe = os.path.join(B, 'cache', key + '.exe')
    if not os.path.exists(exe):
        rc, so, e = sh([f'{LL}/clang++', *fl, *no_main(objs[:n]), *objs[n:], '-lfmt', '-lpython3.12', '-o', exe + '.t'])
        if rc: raise Fail('native link failed: ' + e[-2000:])
        os.rename(exe + '.t', exe)
    else: os.utime(exe)
    if l: l.close()
    return exe

def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for r in inputs: f.write(('A' if r['k'] == 'A' else 'S') + ' ' + str(int(r['value'])) + '\n')

def run_native(exe, inputs, tmp, wrap=(), timeout=60):
    p = os.path.join(tmp, f'in{os.getpid()}_{time.time_ns()}'); write_inputs(p, inputs)
    env = dict(os.environ, SX_REPLAY=p, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        r = subprocess.run([*wrap, exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = r.returncode, r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        rc, err = -99, (e.stderr or b'').decode(errors='replace') + '\nSX_TIMEOUT'
    os.unlink(p)
    return rc, err

def merge(out):
    t = None
    for p in [out['main']] + out['parts']:
        if t is None: t = json.loads(json.dumps(p)); continue
        for k, v in p.items():
            if isinstance(v, (int, float)): t[k] = max(t[k], v) if k in ('wall_s', 'max_query_s', 'max_depth') else t[k] + v
            elif isinstance(v, dict):
                for a, b in v.items(): t[k][a] = t[k].get(a, 0) + b
            elif isinstance(v, list): t[k] += v
    return t

def known():
    r = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'): r.append(json.loads(l))
    return r

def show_inputs(inputs):
    """inputs grouped by name, bytes as text"""
    out = []; buf = ''; base = None
    for r in inputs:
        m = re.match(r'(.*)\[\d+\]$', r['name']); v = int(r['value'])
        if m and r['bits'] == 8:
            if base not in (None, m.group(1)): out.append(f'{base}={buf!r}'); buf = ''
            base = m.group(1); buf += chr(v & 255)
        else:
            if base is not None: out.append(f'{base}={buf!r}'); buf = ''; base = None
            out.append(f"{r['name']}={v}")
    if base is not None: out.append(f'{base}={buf!r}')
    return ' '.join(out)

def check(pid, tier):
    t0 = time.time()
    spec = json.load(open(os.path.join(HERE, 'harness', 'specs.json')))[pid]
    runs = spec['runs']
    symx = build_symx()
    tmp = os.path.join(B, 'tmp', pid); os.makedirs(tmp, exist_ok=True)
    kf = [k for k in known() if k.get('status') == 'known' and k['property'] == pid]
    reported = []; found = []; unconf = []; confirmed = set()
    tot = None; per = []; problems = []; incomplete = []; validated = 0; disagree = 0
    outd = os.path.join(B, 'replays'); os.makedirs(outd, exist_ok=True)
    dtier = '-DSX_TIER=%d' % (2 if tier == 'thorough' else 1)
    prebuild([(os.path.join(HERE, 'harness', r['harness']), [dtier] + r.get('defs', []), r.get('mock')) for r in runs if tier == 'thorough' or r.get('tier') != 'thorough'])
    for ri, run in enumerate(runs):
        if run.get('tier') == 'thorough' and tier != 'thorough': continue
        harness = os.path.join(HERE, 'harness', run['harness']); mock = run.get('mock')
        defs = [dtier] + run.get('defs', [])
        tb = time.time(); bc = build_bc(harness, defs, mock); tb = time.time() - tb
        of = os.path.join(tmp, f'out{ri}.json')
        lim = run.get('time_thorough' if tier == 'thorough' else 'time', 1500 if tier == 'thorough' else 420)
        if tier == 'quick': lim = min(lim, max(20, 700 - (time.time() - t0)))   # the whole check stays below its 900 s
        cmd = [symx, bc, '-o', of, '-t', str(lim), '-j', str(NJ), '-i', str(run.get('instr', 60000000)), '-m', '40', '--grace', '60' if tier == 'quick' else '600'] + run.get('opts', []) + [x for k in kf for x in ('--known', k['match'])]
        rc, o, e = sh(cmd)
        if not os.path.exists(of): raise Fail(f'symx failed ({rc}): ' + e[-2000:])
        r = merge(json.load(open(of))); os.unlink(of)
        if rc: incomplete.append(f'{run["harness"]}: engine worker ended abnormally: ' + e[-300:])
        for k in ('unsupported', 'unknown', 'timeouts'):
            if r[k]: incomplete.append(f'{run["harness"]}: {k}={r[k]} ' + (json.dumps(r['unsupp'])[:400] if k == 'unsupported' else ''))
        miss = [l for l in run.get('reach', []) if not r['reach'].get(l)]
        if miss: problems.append(f'{run["harness"]}: labels never reached: {miss}')
        seen = {}; viols = []
        for v in r['violations']:
            k = (v['kind'], v['msg'], v['where'].split(' < ')[0] if v['kind'] != 'check' else '')
            if seen.get(k, 0) >= 4: continue   # up to four representatives: the first that a native run reproduces is reported
            seen[k] = seen.get(k, 0) + 1; viols.append((run, harness, defs, mock, v, (ri,) + k))
        # translation check: some explored paths are run natively; the labels they pass must agree
        if r['samples'] and not r['violations']:
            exe = build_native(harness, defs, mock, 'plain')
            sm = r['samples']; n = 24 if tier == 'quick' else 96
            sm = sm[:: max(1, len(sm) // n)][:n]
            for s in sm:
                nrc, nerr = run_native(exe, s['inputs'], tmp)
                tr = re.findall(r'^SX_REACH (.*)$', nerr, re.M)
                if nrc == 0 and tr == s['trace'] and 'SX_DONE' in nerr: validated += 1
                else:
                    disagree += 1; incomplete.append(f'{run["harness"]}: a native run of an explored path differs (rc {nrc}): {show_inputs(s["inputs"])} engine={s["trace"]} native={tr} {nerr[-300:]}')
        per.append({'harness': run['harness'], 'what': run.get('what', ''), 'bounds': run.get('bounds', ''), 'paths': r['paths'], 'forks': r['forks'], 'instructions': r['instr'], 'queries': r['queries'], 'sat': r['sat'], 'unsat': r['unsat'], 'cache_hits': r['cache_hits'], 'fp_queries': r['fp_queries'], 'decided_by_truth_table': r['table_queries'], 'truth_tables_compared_with_z3': r['cross_checked'], 'decided_over_the_reals': r.get('relaxed', 0),
                    'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall_s'], 2), 'build_s': round(tb, 1), 'checks_symbolic': r['checks_symbolic'], 'checks_concrete': r['checks_concrete'], 'assume_dead': r['assume_dead'], 'hash_collisions_excluded': r['collisions_excluded'], 'reach': r['reach'], 'unknown': r['unknown'], 'unsupported': r['unsupported'], 'timeouts': r['timeouts'],
                    'functions': sorted(f for f in r['functions'] if re.match(r'(?!.*\bstd::|.*fmt::v|.*__gnu|sx_|void std|operator)', f))[:400], 'samples': r['samples'][:3]})
        tot = r if tot is None else merge({'main': tot, 'parts': [r]})
        # violations: replay, match known findings
        for run, harness, defs, mock, v, key in viols:
            if key in confirmed: continue
            hit = next((k for k in kf if k['match'] == v['msg']), None)
            ok, rc, err = False, None, ''
            try:
                mode = 'plain' if v['kind'] == 'uninit' else 'asan'
                exe = build_native(harness, defs, mock, mode)
                if mode == 'plain':
                    rc, err = run_native(exe, v['inputs'], tmp, wrap=('valgrind', '-q', '--error-exitcode=43', '--exit-on-first-error=yes'), timeout=120)
                else:
                    rc, err = run_native(exe, v['inputs'], tmp, timeout=60)
                ok = rc != 0
                if not ok and v['kind'] == 'check':   # optimisation may differ: try the plain build as well
                    exe = build_native(harness, defs, mock, 'plain'); rc, err = run_native(exe, v['inputs'], tmp); ok = rc != 0
            except Fail as f:
                err = 'native build failed: ' + str(f)[-800:]
            if ok: confirmed.add(key)
            if hit:
                if ok: found.append(hit)
                continue
            if not ok:
                unconf.append((key, v, rc, err)); continue
            rp = os.path.join(outd, f'{pid}_{len(reported)}.json')
            json.dump({'property': pid, 'harness': os.path.basename(harness), 'defs': defs, 'mock': mock, 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'inputs': v['inputs'], 'native_rc': rc, 'native_stderr': err[-3000:]}, open(rp, 'w'), indent=1)
            reported.append((v, rp, err))
        if reported and tier == 'quick' and ri + 1 < len(runs): incomplete.append('stopped after the first run with a violation'); break
    for key, v, rc, err in unconf:
        if key in confirmed: continue
        incomplete.append(f'not reproduced natively (rc {rc}): {v["kind"]}: {v["msg"]} at {v["where"][:200]} with {show_inputs(v["inputs"])[:400]} {err[-300:]}')
    wall = time.time() - t0
    cov = {'states': tot['paths'], 'transitions': tot['instr'], 'traces_validated_against_impl': validated, 'samples': [{'inputs': show_inputs(s['inputs'])[:600], 'labels': s['trace']} for s in tot['samples'][:8]] or ['none'],
           'meaning': 'states: completed symbolic paths; transitions: LLVM instructions executed symbolically; traces_validated: explored paths re-run in a native build with equal labels',
           'forks': tot['forks'], 'queries_discharged': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'query_cache_hits': tot['cache_hits'], 'fp_queries': tot['fp_queries'], 'decided_by_truth_table': tot['table_queries'], 'truth_tables_compared_with_z3': tot['cross_checked'], 'decided_over_the_reals': tot.get('relaxed', 0), 'solver_s': round(tot['solver_s'], 2), 'max_query_s': round(tot['max_query_s'], 2),
           'checks': tot['check_hits'], 'runs': per, 'complete_within_bounds': not incomplete, 'incomplete': incomplete, 'bounds': spec.get('bounds', ''), 'outside': spec.get('outside', ''), 'native_disagreements': disagree,
           'known_findings': [k['id'] for k in found], 'exhaustive': not incomplete}
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec.get('level', 'model_checking'), 'coverage': cov, 'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 1), 'violations': len(reported)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in {k['id']: k for k in found}.values(): print(f'KNOWN-FINDING: property={pid} {k["what"]}', flush=True)
    for v, rp, err in reported:
        m = re.search(r'(SX_FAIL .*|ERROR: AddressSanitizer: \S+|runtime error: .*|terminate called.*|SX_TIMEOUT)', err)
        print(f'{v["kind"]}: {v["msg"]}\n  at {v["where"][:300]}\n  inputs: {show_inputs(v["inputs"])[:800]}\n  native: {m.group(1) if m else err[-200:]}')
        print(f'VIOLATION property={pid} replay={rp}', flush=True)
    for p in incomplete: log('INCOMPLETE', p)
    print(f'{pid} {tier}: {tot["paths"]} paths, {tot["instr"]} instructions, {tot["queries"]} queries ({tot["solver_s"]:.1f} s solver), {validated} paths re-run natively, {len(reported)} violations, {wall:.0f} s' + (' [incomplete]' if incomplete else ''), flush=True)
    if reported: return 1
    if problems:
        for p in problems: log('PROBLEM', p)
        return 2
    if os.environ.get('VERIF_STRICT') and incomplete: return 3
    return 0

def warm():
    """compiles the current tree and the harnesses ahead of the checks (a check compiles what is missing or has changed)"""
    specs = json.load(open(os.path.join(HERE, 'harness', 'specs.json'))); gc_cache()
    prebuild([(os.path.join(HERE, 'harness', r['harness']), ['-DSX_TIER=1'] + r.get('defs', []), r.get('mock')) for spec in specs.values() for r in spec['runs'] if r.get('tier') != 'thorough'])
    h = os.path.join(HERE, 'harness', 'C01.cpp')
    try: build_native(h, ['-DSX_TIER=1', '-DMODE=0', '-DNSYM=1'], None, 'asan')
    except Fail as f: log('setup:', f)

def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'setup':
            build_symx()
            if '--fast' not in a: warm()
            return 0
        if a[0] == 'check':
            tier = os.environ.get('VERIF_TIER', 'quick')
            if '--tier' in a: tier = a[a.index('--tier') + 1]
            return check(a[1], tier)
        if a[0] == 'replay':
            r = json.load(open(a[1])); h = os.path.join(HERE, 'harness', r['harness'])
            exe = build_native(h, r['defs'], r['mock'], 'asan'); rc, err = run_native(exe, r['inputs'], B)
            print(err); print('exit', rc); return 1 if rc else 0
    except Fail as f:
        log('ERROR', f); return 2
    return 2

sys.exit(main())
