#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current source.

  check.py PROPERTY [--tier quick|thorough] [--unit REGEX] [-v]

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line(s) on stdout.
"""
import argparse, concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PGBN_REPO', '/repo')
BUILD = os.path.join(V, 'build')
OUT = os.path.join(V, 'out')
sys.path.insert(0, V)
import units as UN

CXX = 'clang++'
BCFLAGS = ['-std=gnu++17', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
           '-gline-tables-only', '-emit-llvm', '-c', '-Wno-everything', '-fno-strict-aliasing', '-fno-pic', '-fno-pie']
INC = [f'-I{REPO}/src', f'-I{REPO}/c/src', f'-I{V}/runtime', f'-I{V}/harness']
UBS = 'signed-integer-overflow,shift,integer-divide-by-zero,bounds,null,pointer-overflow,returns-nonnull-attribute,nonnull-attribute,unreachable,return,bool,enum,vla-bound,builtin'
CONFIGS = {  # compiler flags of the library and of the harness for the encoded configurations
    'debug': ['-DPGBN_DEBUG', '-DPGZXB_DEBUG'],
    'release': [],
    'ndebug': ['-DNDEBUG'],
    'ub': ['-D_GLIBCXX_ASSERTIONS', f'-fsanitize={UBS}', '-fsanitize-trap=all', '-fno-sanitize=alignment'],
}
CONFIGS['kara'] = CONFIGS['debug'] + ['-DPGBN_VERIF_KARATSUBA_THRESHOLD=2']
GXX = {'debug': ['-DPGBN_DEBUG', '-DPGZXB_DEBUG'], 'release': [], 'ndebug': ['-DNDEBUG'], 'ub': ['-D_GLIBCXX_ASSERTIONS'],
       'kara': ['-DPGBN_DEBUG', '-DPGZXB_DEBUG', '-DPGBN_VERIF_KARATSUBA_THRESHOLD=2']}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg):
    print('ERROR', msg, file=sys.stderr)
    sys.exit(2)

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')
    def __enter__(self):
        self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def engine():
    with Lock('engine'):
        r = sh(['make', '-s', '-C', os.path.join(V, 'engine'), '-j8'])
        if r.returncode: die('engine does not build:\n' + r.stdout)
    return os.path.join(BUILD, 'symx')

def lib_sources():
    fs = sorted(glob.glob(f'{REPO}/src/**/*.cpp', recursive=True)) + sorted(glob.glob(f'{REPO}/c/src/*.cpp'))
    return fs

def repo_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(f'{REPO}/src/**/*', recursive=True) + glob.glob(f'{REPO}/c/src/*') + glob.glob(f'{REPO}/include/**/*', recursive=True)):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def fhash(*items):
    h = hashlib.sha256()
    for i in items:
        h.update(str(i).encode())
    return h.hexdigest()[:20]

def rd(p): return open(p).read()

def parallel(cmds):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for c, r in zip(cmds, ex.map(sh, cmds)):
            if r.returncode: return c, r.stdout
    return None

def prune():
    ds = sorted(glob.glob(BUILD + '/c_*'), key=os.path.getmtime)
    for d in ds[:-40]:
        shutil.rmtree(d, ignore_errors=True)

class Compile(Exception): pass

def harness_deps(h):
    return rd(f'{V}/harness/{h}.cpp') + ''.join(rd(f) for f in sorted(glob.glob(f'{V}/harness/*.h') + glob.glob(f'{V}/runtime/*.h')))

def bitcode(config, harness, rh):
    """library + runtime models + harness as one bitcode file, rebuilt whenever a source changes"""
    flags = BCFLAGS + INC + CONFIGS[config]
    lib = os.path.join(BUILD, 'c_' + fhash('lib', rh, flags))
    with Lock('bc_' + config):
        if not os.path.exists(lib + '/lib.bc'):
            os.makedirs(lib, exist_ok=True)
            objs, cmds = [], []
            for f in lib_sources():
                o = os.path.join(lib, fhash(f) + '.bc'); objs.append(o)
                cmds.append([CXX] + flags + [f, '-o', o])
            bad = parallel(cmds)
            if bad: raise Compile('library does not compile: ' + bad[1][-2000:])
            r = sh(['llvm-link-18'] + objs + ['-o', lib + '/lib.tmp'])
            if r.returncode: raise Compile('llvm-link: ' + r.stdout)
            os.rename(lib + '/lib.tmp', lib + '/lib.bc')
    rtf = BCFLAGS + [f'-I{V}/runtime', '-fno-builtin']
    rt = os.path.join(BUILD, 'rt_' + fhash(rd(f'{V}/runtime/rt.cpp'), rd(f'{V}/runtime/sym.h'), rtf) + '.bc')
    with Lock('bc_rt'):
        if not os.path.exists(rt):
            r = sh([CXX] + rtf + [f'{V}/runtime/rt.cpp', '-o', rt + '.tmp'])
            if r.returncode: raise Compile('runtime model: ' + r.stdout)
            os.rename(rt + '.tmp', rt)
    out = os.path.join(lib, harness + '_' + fhash(harness_deps(harness), rt) + '.bc')
    with Lock('bc_' + config + '_' + harness):
        if not os.path.exists(out):
            hf = [f for f in flags if not f.startswith('-fsanitize') and not f.startswith('-fno-sanitize')]
            hb = out + '.h.bc'
            r = sh([CXX] + hf + [f'{V}/harness/{harness}.cpp', '-o', hb])
            if r.returncode: raise Compile('harness does not compile against the library: ' + r.stdout[-3000:])
            r = sh(['llvm-link-18', lib + '/lib.bc', rt, hb, '-o', out + '.tmp'])
            if r.returncode: raise Compile('llvm-link: ' + r.stdout[-3000:])
            os.rename(out + '.tmp', out)
    return out

def native(config, harness, rh, san):
    """the same harness over the library compiled for this machine: g++ as in the real build, or clang with ASan+UBSan"""
    conc = harness in getattr(UN, 'CONCURRENT', ())
    tsan = ['-fsanitize=thread'] + sum((['-mllvm', '-tsan-instrument-' + x + '=0'] for x in ('memory-accesses', 'func-entry-exit', 'memintrinsics')), [])
    if conc: # atomics become callbacks of the scheduler in sched.cpp
        cc, lf = 'clang++', ['-std=gnu++17', '-O2', '-g', '-w'] + GXX[config] + tsan
    elif san:
        cc, lf = 'clang++', ['-std=gnu++17', '-O1', '-g', '-w'] + GXX[config] + ['-fsanitize=address,' + UBS, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    else:
        cc, lf = 'g++', ['-std=gnu++17', '-O1', '-g', '-w'] + GXX[config]
    lib = os.path.join(BUILD, 'c_' + fhash('native', rh, cc, lf))
    with Lock('nat_%s_%d' % (config, san)):
        if not os.path.exists(lib + '/ok'):
            os.makedirs(lib, exist_ok=True)
            cmds = [[cc] + lf + INC + ['-c', f, '-o', os.path.join(lib, fhash(f) + '.o')] for f in lib_sources()]
            bad = parallel(cmds)
            if bad: raise Compile('native library: ' + bad[1][-2000:])
            open(lib + '/ok', 'w').close()
    exe = os.path.join(lib, harness + '_' + fhash(harness_deps(harness), rd(f'{V}/runtime/native.cpp'), rd(f'{V}/runtime/sched.cpp') if conc else ''))
    with Lock('nat_%s_%d_%s' % (config, san, harness)):
        if not os.path.exists(exe):
            hf = ['-std=gnu++17', '-O1', '-g', '-w'] + GXX[config] + (['-fsanitize=address'] if san else [])
            if conc: hf = lf
            srcs = [f'{V}/harness/{harness}.cpp', f'{V}/runtime/native.cpp'] + ([f'{V}/runtime/sched.cpp'] if conc else [])
            wrap = ['-Wl,--wrap=exit']
            objs = sorted(glob.glob(lib + '/*.o'))
            hobjs, cmds = [], []
            for s in srcs:
                o = exe + '.' + os.path.basename(s) + '.obj'; hobjs.append(o)
                cmds.append(['clang++'] + [x for x in hf if 'tsan' not in x and x != '-mllvm' and 'thread' not in x or not s.startswith(V + '/runtime')] + INC + ['-c', s, '-o', o])
            bad = parallel(cmds)
            if bad: raise Compile('native harness: ' + bad[1][-2000:])
            r = sh(['clang++'] + hobjs + objs + ['-rdynamic', '-ldl', '-lpthread', '-o', exe + '.tmp'] + wrap + (['-fsanitize=address,undefined'] if san else []))
            if r.returncode: raise Compile('native link: ' + r.stdout[-2000:])
            os.rename(exe + '.tmp', exe)
    return exe

def quiet_native(config, harness, rh):
    try: native(config, harness, rh, 0)
    except Compile: pass # reported when a replay needs it

def write_inputs(path, inputs, params, sched):
    with open(path, 'w') as f:
        for n, v in inputs: f.write(f'i {n} {v}\n')
        for n, v in params.items(): f.write(f'p {n} {v}\n')
        if sched: f.write('s ' + ' '.join(map(str, sched)) + '\n')

def run_native(exe, unit, path, timeout=20, valgrind=False):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1')
    cmd = [exe, unit, path]
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=97'] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return 'timeout', '', [], ''
    so, se = r.stdout.decode('latin1'), r.stderr.decode('latin1')
    obs = [tuple(l.split()[1:3]) for l in so.splitlines() if l.startswith('OBS ')]
    last = [l for l in so.splitlines() if not l.startswith('OBS ')]
    last = last[-1] if last else ''
    m = None
    if r.returncode == 0: k = 'ok'
    elif r.returncode == 3 and last.startswith('VIOLATED'): k = 'violated'
    elif r.returncode == 4: k = 'assume'
    elif r.returncode == 5: k = 'exit'
    elif r.returncode == 6: k = 'deadlock'
    elif r.returncode == 7: k = 'diverged'
    elif r.returncode == 97 and valgrind: k = 'valgrind'
    elif r.returncode in (98, 99): k = 'sanitizer'
    elif r.returncode < 0: k = 'signal%d' % -r.returncode
    else: k = 'rc%d' % r.returncode
    return k, last, obs, se[-3000:]

DEFOPT = {'quick': ['--long-ms', '15000', '--lia-ms', '8000'], 'thorough': ['--long-ms', '120000', '--lia-ms', '60000']}
class Unit:
    def __init__(self, d, tier):
        self.d = d; self.tier = tier; self.harness = d['h']; self.unit = 'unit_' + d['u']; self.config = d.get('c', 'debug')
        self.params = d.get('p', {}); self.opts = d.get('o', []); self.time = d.get('t', 60 if tier == 'quick' else 700)
        self.id = d['u'] + ('' if self.config == 'debug' else '@' + self.config) + ''.join(f' {k}={v}' for k, v in self.params.items())

def run_unit(sx, u, bc, tmp, verbose, deadline):
    left = deadline - time.time()
    if left < 5:
        return dict(unit=u.unit, wall=0, incomplete=['not started: the time of this check was used up'], violations=[], samples=[], reached={}, assert_ids={}, functions=[], paths=0, completed=0, asserts=0, crashed=True)
    u.time = int(max(5, min(u.time, left)))
    out = os.path.join(tmp, fhash(u.id, u.harness) + '.json')
    cmd = [sx, bc, '--unit', u.unit, '--out', out, '--time', str(u.time), '--max-viol', '40'] + DEFOPT[u.tier] + sum((['--param', f'{k}={v}'] for k, v in u.params.items()), []) + list(u.opts)
    if verbose: cmd.append('-v')
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if verbose else subprocess.PIPE, timeout=u.time * 1.25 + 70)
        err = '' if verbose else r.stderr.decode('latin1')[-500:]
        rc = r.returncode
    except subprocess.TimeoutExpired:
        err, rc = 'hard timeout', -1
    try:
        res = json.load(open(out))
    except Exception:
        res = dict(unit=u.unit, wall=time.time() - t0, incomplete=['engine did not finish: rc %s %s' % (rc, err)], violations=[], samples=[], reached={}, assert_ids={}, functions=[], paths=0, completed=0, asserts=0, crashed=True)
    return res

def known_findings(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']

def matches(k, v, u):
    """a known finding names the unit, the kind/assertion and optionally the source location or conditions on the inputs"""
    if k.get('unit') and not re.fullmatch(k['unit'], u.d['u']): return False
    if k.get('kind') and k['kind'] != v['kind']: return False
    if k.get('id') and not re.fullmatch(k['id'], v['id']): return False
    if k.get('loc') and not re.search(k['loc'], v['loc'] + ' ' + ' '.join(v['stack'])): return False
    if k.get('inputs'):
        d = dict((a, b) for a, b in v['inputs'])
        for n, want in k['inputs'].items():
            if d.get(n) != want: return False
    return True

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit'); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    P = UN.PROPS[a.prop]
    lst = P['quick'] if a.tier == 'quick' else P['quick'] + P.get('thorough', []) if not P.get('thorough_only') else P['thorough']
    us = [Unit(d, a.tier) for d in lst]
    assert len({(u.harness, u.id) for u in us}) == len(us), 'duplicate units'
    if a.unit: us = [u for u in us if re.search(a.unit, u.id)]
    rh = repo_hash()
    pid = a.prop
    deadline = t0 + (430 if a.tier == 'quick' else 3600)
    od = os.path.join(OUT, pid)
    shutil.rmtree(od, ignore_errors=True)
    tmp = os.path.join(od, 'tmp'); os.makedirs(tmp)
    notes, compile_fail = [], None
    bcs = {}
    try:
        combos = sorted({(u.config, u.harness) for u in us})
        with concurrent.futures.ThreadPoolExecutor(10) as ex:
            fe = ex.submit(engine)
            fn = [ex.submit(quiet_native, k[0], k[1], rh) for k in combos]
            for k, f in [(k, ex.submit(bitcode, k[0], k[1], rh)) for k in combos]: bcs[k] = f.result()
            sx = fe.result()
    except Compile as e:
        die(str(e))
    prune()
    # longest first
    order = sorted(us, key=lambda u: -u.d.get('w', u.time))
    results = {}
    natf = {}
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        futs = {ex.submit(run_unit, sx, u, bcs[(u.config, u.harness)], tmp, a.v, deadline): u for u in order}
        for f in concurrent.futures.as_completed(futs): results[futs[f].id + '|' + futs[f].harness] = f.result()
    res = [(u, results[u.id + '|' + u.harness]) for u in us]

    known = known_findings(pid)
    hit_known, viols, unconfirmed = {}, [], []
    traces = mism = 0
    samples_out = []
    exes = {}
    def exe(u, san):
        k = (u.config, u.harness, san)
        if k not in exes: exes[k] = native(u.config, u.harness, rh, san)
        return exes[k]
    n = 0
    tracejobs = []
    for u, r in res:
        for v in r['violations']:
            n += 1
            rp = os.path.join(od, f'{n:03d}.in')
            write_inputs(rp, v['inputs'], u.params, v['sched'])
            meta = dict(property=pid, unit=u.unit, harness=u.harness, config=u.config, params=u.params, inputs_file=rp, violation=v)
            conf = None
            conc = u.harness in getattr(UN, 'CONCURRENT', ())
            try:
                if v['kind'] == 'race' and conc:
                    conf = 'engine-only (a data race is a property of the ordering, no build confirms it)'
                else:
                    k, last, obs, se = run_native(exe(u, 0), u.unit, rp)
                    meta['native'] = [k, last, se[-800:]]
                    if k not in ('ok', 'assume', 'diverged'): conf = f'g++ build: {k} {last}'
                    if conf is None and not conc:
                        k, last, obs, se = run_native(exe(u, 1), u.unit, rp)
                        meta['sanitizer'] = [k, last, se[-1500:]]
                        if k not in ('ok', 'assume'): conf = f'clang ASan/UBSan build: {k} {last} ' + ' '.join(l for l in se.splitlines() if 'ERROR' in l or 'runtime error' in l)[:300]
                    if conf is None and v['kind'] == 'uninit':
                        k, last, obs, se = run_native(exe(u, 0), u.unit, rp, 60, True)
                        meta['valgrind'] = [k, last, se[-1500:]]
                        if k not in ('ok', 'assume'): conf = f'valgrind: {k} {last}'
            except Compile as e:
                meta['replay_error'] = str(e)[-500:]
            meta['confirmed'] = conf
            jp = os.path.join(od, f'{n:03d}.json')
            json.dump(meta, open(jp, 'w'), indent=1)
            desc = f"{u.id}: {v['kind']} {v['id']}: {v['msg']} at {v['loc']}"
            kf = next((k for k in known if matches(k, v, u)), None)
            if not conf: unconfirmed.append(desc); notes.append('not reproduced on the real build, not reported: ' + desc)
            elif kf: hit_known.setdefault(kf['what'], 0); hit_known[kf['what']] += 1
            else: viols.append((desc, jp, conf))
    # sampled completed paths are replayed against the real build and every observed value compared
    def trace(u, s, i):
        p = os.path.join(tmp, fhash(u.id, u.harness, i) + '.in')
        write_inputs(p, s['inputs'], u.params, s['sched'])
        k, last, obs, se = run_native(native(u.config, u.harness, rh, 0), u.unit, p)
        good = k == 'ok' and [list(o) for o in obs] == [list(map(str, o)) for o in s['obs']] if not any(False for _ in ()) else False
        return good, k, last, obs
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        jobs = []
        for u, r in res:
            if u.d.get('nosample'): continue
            for i, s in enumerate(r['samples']):
                jobs.append((u, s, ex.submit(trace, u, s, i)))
        for u, s, f in jobs:
            try:
                good, k, last, obs = f.result()
            except Compile as e:
                notes.append('sample replay not possible: ' + str(e)[-300:]); continue
            if good: traces += 1
            elif k == 'diverged': pass
            else:
                mism += 1
                notes.append(f'sample path of {u.id} differs on the real build ({k} {last}): inputs {s["inputs"]} expected {s["obs"]} got {obs}'[:1500])
            if len(samples_out) < 6: samples_out.append(dict(unit=u.id, inputs=dict(s['inputs'][:24]), observed=s['obs'][:16], schedule=s['sched'][:64]))
    tot = lambda k: sum(r.get(k, 0) or 0 for _, r in res)
    incomplete = [f'{u.id}: {x}' for u, r in res for x in r['incomplete'] if x != 'stopped after violations']
    vac = [u.id for u, r in res if not r['violations'] and (not r.get('completed') or not r.get('asserts'))]
    for x in vac: incomplete.append(x + ': no completed path reached an assertion')
    fns = sorted({f for _, r in res for f in r['functions']})
    files = sorted({f.split(':')[0] for f in fns})
    wall = time.time() - t0
    done = [u.id for u, r in res if not r['incomplete'] and r.get('completed')]
    ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', wall_s=round(wall, 2),
              coverage=dict(states=max(1, tot('forks') + len(res)), transitions=max(1, tot('steps')), traces_validated_against_impl=traces, samples=samples_out,
                            bounds=P['bounds'], rule='every path of the harness over the real code is executed symbolically; every branch and every assertion is decided by the solver for all values of the symbolic inputs on that path',
                            paths=tot('paths'), paths_completed=tot('completed'), paths_excluded_by_assumptions=tot('assumed_away'), paths_of_undecided_feasibility=tot('unsure'),
                            instructions=tot('steps'), assertions_checked=tot('asserts'), assertions_over_symbolic_values=tot('asserts_symbolic'), assertions_undecided=tot('asserts_unknown'),
                            branches_decided_by_solver=tot('branches'), schedule_choices=tot('schedule_choices'),
                            solver=dict(queries=tot('queries'), sat=tot('sat'), unsat=tot('unsat'), unknown=tot('unknown'), cached=tot('cache_hits') + tot('model_hits'), bitvector=tot('bv_queries'), integer=tot('lia_queries'), seconds=round(tot('solver_time'), 2), longest_query_s=max([r.get('max_query', 0) or 0 for _, r in res] + [0]), name='z3 5.3.2 (bit-vector and integer-polynomial encodings)'),
                            units=[dict(unit=u.id, harness=f'harness/{u.harness}.cpp', config=u.config, complete=not r['incomplete'], paths=r.get('paths'), completed=r.get('completed'), assertions=r.get('assert_ids'), reached=r.get('reached'), queries=r.get('queries'), solver_s=r.get('solver_time'), wall_s=r.get('wall'), incomplete=r['incomplete']) for u, r in res],
                            units_fully_explored=len(done), incomplete=incomplete, functions_encoded=fns, sample_mismatches=mism, notes=notes,
                            known_findings=hit_known),
              assumptions=UN.COMMON_ASSUMPTIONS + P.get('assumptions', []),
              violations=len(viols))
    ev['coverage']['violations_found'] = [dict(what=d, replay=os.path.relpath(j, V), confirmed=c) for d, j, c in viols]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if not a.unit: json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f"{pid} [{a.tier}] {len(res)} units, {len(done)} fully explored, paths {tot('paths')}, assertions {tot('asserts')} ({tot('asserts_symbolic')} symbolic), queries {tot('queries')}, solver {tot('solver_time'):.1f}s, traces {traces}/{traces + mism}, functions {len(fns)} in {len(files)} files, wall {wall:.1f}s")
    for x in incomplete: print('INCOMPLETE', x)
    for x in notes: print('NOTE', x)
    for w, c in hit_known.items(): print(f'KNOWN-FINDING: property={pid} {w}')
    for d, j, c in viols[:20]:
        print('  ', d); print('     confirmed:', c)
        print(f'VIOLATION property={pid} replay={j}')
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(1 if viols else 0)

main()
