#!/usr/bin/env python3
"""Decide one property: compile harness + /repo sources to LLVM IR, run symx jobs, replay counterexamples natively."""
import argparse, collections, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'spec'))
sys.dont_write_bytecode = True
import jobs as J
ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=None); ap.add_argument('--job', default=None); ap.add_argument('-v', action='store_true'); ap.add_argument('--no-native', action='store_true'); ap.add_argument('-j', type=int, default=0)
A = ap.parse_args()
P = J.PROPS[A.prop]; TIER = A.tier or os.environ.get('VERIF_TIER') or 'quick'; SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = A.j or min(8, os.cpu_count() or 8)
T0 = time.time(); BUDGET = 780 if TIER == 'quick' else 3 * 3600
SCR = tempfile.mkdtemp(prefix='vf_%s_' % A.prop, dir=os.environ.get('VF_TMP', '/tmp'))
CLANG = 'clang++-18'; LLVMLINK = '/usr/lib/llvm-18/bin/llvm-link'
def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, flush=True)
def sh(cmd, timeout=None, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **k)
class BuildError(Exception): pass

COMMON = ['-std=c++17', '-I' + VERIF + '/model', '-I' + VERIF + '/harness', '-I' + REPO + '/src', '-DNDEBUG', '-DTIMING', '-DDISCOTEC_USE_LZ4', '-w', '-ffp-contract=off']
BC = ['-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-gline-tables-only', '-I' + VERIF + '/model/include', '-march=x86-64-v2', '-fno-math-errno']
def srcpath(f):
    if f.startswith('repo:'): return REPO + '/' + f[5:]
    if f.startswith('model:'): return VERIF + '/model/' + f[6:]
    return VERIF + '/harness/' + f
def jobsrc(x): return x[1:] if x[0] == '~' else 'repo:' + x  # ~name: a second file in harness/
def ensureEngine():
    r = sh(['make', '-C', VERIF + '/engine', '-s'])
    if r.returncode: raise BuildError('engine build failed\n' + r.stdout[-3000:])
    return VERIF + '/build/symx'
def compileBC(src, out, defs):
    r = sh([CLANG] + BC + COMMON + ['-I' + VERIF + '/model/ser' if x == '@ser' else x for x in defs if x != '@net'] + [src, '-o', out])
    if r.returncode: raise BuildError('cannot compile %s\n%s' % (src, r.stdout[-3000:]))
    return out
EXTRA = {}; extraDone = collections.defaultdict(threading.Event); _def = {}
NM = '/usr/lib/llvm-18/bin/llvm-nm'
def undefinedSyms(f): return {x.split()[-1] for x in sh([NM, '-u', f]).stdout.splitlines() if 'combigrid' in x}
def repoSources():
    r = []
    for d, ds, fs in os.walk(REPO + '/src'):
        ds.sort()
        if 'mpi_fault_simulator' in d: continue
        r += [os.path.relpath(os.path.join(d, f), REPO) for f in sorted(fs) if f.endswith('.cpp')]
    return r
def definedSyms(bc, s, defs):
    if (s, defs) not in _def:
        try: _def[(s, defs)] = {x.split()[-1] for x in sh([NM, '--defined-only', bc(srcpath('repo:' + s), defs).result()]).stdout.splitlines() if 'combigrid' in x and ' T ' in x}
        except BuildError: _def[(s, defs)] = set()
    return _def[(s, defs)]
def key(j): return (j['harness'], tuple(j.get('srcs', ())), tuple(j.get('defs', ())), tuple(j.get('msrcs', ())))
def hid(k): return os.path.basename(k[0])[:-4] + '_' + hashlib.md5(repr(k).encode()).hexdigest()[:6]

def buildNative(k, san=False):
    d = os.path.join(SCR, 'nat_' + hid(k) + ('_asan' if san else '')); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'replay')
    if os.path.exists(exe): return exe
    extraDone[k].wait(120)
    srcs = [srcpath(k[0])] + [srcpath(jobsrc(s)) for s in tuple(k[1]) + tuple(EXTRA.get(k, ()))] + [VERIF + '/model/vf_native.cpp']
    if '@ser' in k[2]:  # the manager also needs the fault simulator
        ft = REPO + '/src/mpi_fault_simulator'; u = os.path.join(d, 'simft.cpp'); srcs.append(u)
        with open(u, 'w') as f: f.write(''.join('#include "%s/%s"\n' % (ft, x) for x in sorted(os.listdir(ft)) if x.endswith('.cpp')))
    flags = COMMON + ['-O1', '-g1', '-ffunction-sections', '-Wl,--gc-sections', '-DVF_NATIVE', '-march=x86-64-v2'] + [x for x in k[2] if x[0] != '@'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if san else [])
    objs = []
    def one(i, s):
        o = os.path.join(d, '%d.o' % i); r = sh(['mpicxx'] + flags + ['-c', s, '-o', o])
        if r.returncode: raise BuildError('native compile of %s failed\n%s' % (s, r.stdout[-2500:]))
        return o
    with cf.ThreadPoolExecutor(4) as ex: objs = list(ex.map(lambda t: one(*t), enumerate(srcs)))
    if '@net' in k[2]: flags = flags + ['-Wl,' + ','.join('--wrap=' + x for x in ('socket', 'bind', 'listen', 'connect', 'accept', 'close', 'sleep', 'inet_ntoa', 'gethostbyname', 'send', 'recv', 'select', '_ZN9combigrid10montecarlo20getRandomCoordinatesEim'))]
    r = sh(['mpicxx'] + flags + objs + ['-o', exe + '.tmp', '-lboost_serialization', '-llz4', '-lboost_iostreams', '-lboost_system', '-Wl,--as-needed', '-lglpk'])
    if r.returncode: raise BuildError('native link failed\n' + r.stdout[-2500:])
    os.rename(exe + '.tmp', exe); return exe
MPIENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_mpi_yield_when_idle='1', OMP_WAIT_POLICY='passive', OMP_NUM_THREADS='1', OMPI_MCA_rmaps_base_oversubscribe='1', ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0', OMPI_MCA_plm='isolated', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_orte_abort_print_stack='0')
def writeKV(path, d):
    with open(path, 'w') as f:
        for a, b in sorted(d.items()): f.write('%s\t%s\n' % (a, b))
_natlock = threading.Semaphore(4)
def runNative(exe, j, asg, timeout=60):
    """-> (outcome, output): ok | assert | crash | timeout | skipped"""
    with _natlock:
        d = tempfile.mkdtemp(prefix='run_', dir=SCR)
        writeKV(d + '/assign', asg); writeKV(d + '/config', j.get('cfg', {}))
        env = dict(MPIENV, VF_ASSIGN=d + '/assign', VF_CONFIG=d + '/config', TMPDIR=d)
        cmd = ['mpirun', '--oversubscribe', '-n', str(j.get('n', 1)), exe]
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env, cwd=d)
        except subprocess.TimeoutExpired as e:
            out = e.stdout or ''; out = out if isinstance(out, str) else out.decode(errors='replace'); return 'timeout', out[-3000:]
        finally: shutil.rmtree(d, ignore_errors=True)
    o = r.stdout
    if 'VF-ASSERT-FAILED' in o: return 'assert', o[-4000:]
    if 'VF-STOP' in o or 'VF-ASSUME-FALSE' in o: return 'skipped', o[-2000:]
    if r.returncode == 0 and o.count('VF-DONE') >= j.get('n', 1): return 'ok', o[-500:]
    return 'crash', o[-4000:]

def main():
    alljobs = [dict(j) for j in P['jobs'] if (TIER == 'thorough' or j.get('tier', 'quick') == 'quick') and not (TIER == 'thorough' and j.get('tier') == 'quickonly')]
    if A.job: alljobs = [j for j in alljobs if re.search(A.job, j['name'])]
    keys = []
    for j in alljobs:
        if key(j) not in keys: keys.append(key(j))
    ex = cf.ThreadPoolExecutor(NCPU + 4)
    engine = ex.submit(ensureEngine)
    bcf = {}
    def bc(src, defs):
        kk = (src, tuple(defs))
        if kk not in bcf: bcf[kk] = ex.submit(compileBC, src, os.path.join(SCR, '%s_%s.bc' % (os.path.basename(src)[:-4], hashlib.md5(repr(kk).encode()).hexdigest()[:6])), list(defs))
        return bcf[kk]
    for k in keys:
        for s in ['model:vflib.cpp', 'model:vmpi.cpp'] + ['model:' + m for m in k[3]]: bc(srcpath(s), ())
        for s in [k[0]] + [jobsrc(x) for x in k[1]]: bc(srcpath(s), k[2])
    prepped = {}
    def prep(k):
        parts = [bc(srcpath(s), k[2]).result() for s in [k[0]] + [jobsrc(x) for x in k[1]]] + [bc(srcpath(s), ()).result() for s in ['model:vflib.cpp', 'model:vmpi.cpp'] + ['model:' + m for m in k[3]]]
        out = os.path.join(SCR, hid(k) + '_l.bc'); r = sh([LLVMLINK] + parts + ['-o', out])
        if r.returncode: raise BuildError('llvm-link: ' + r.stdout[-2000:])
        for _ in range(6):  # code that moved to another source file: add the files that define what is missing
            und = undefinedSyms(out)
            if not und: break
            have = set(k[1]) | set(EXTRA.get(k, ()))
            add = [s_ for s_ in repoSources() if s_ not in have and definedSyms(bc, s_, k[2]) & und]
            if not add: break
            EXTRA[k] = tuple(EXTRA.get(k, ())) + tuple(add); log('also linking', *add)
            parts += [bc(srcpath('repo:' + s_), k[2]).result() for s_ in add]
            r = sh([LLVMLINK] + parts + ['-o', out])
            if r.returncode: raise BuildError('llvm-link: ' + r.stdout[-2000:])
        extraDone[k].set()
        sx = engine.result(); fin = os.path.join(SCR, hid(k) + '.bc')
        r = sh([sx, out, '--prep-only', fin])
        if r.returncode: raise BuildError('symx prep: ' + r.stdout[-2000:])
        return fin
    pool2 = cf.ThreadPoolExecutor(len(keys) + 1)
    prepf = {k: pool2.submit(prep, k) for k in keys}
    natf = {}
    if not A.no_native:
        for k in keys: natf[k] = pool2.submit(buildNative, k)
    fins = {k: prepf[k].result() for k in keys}
    log('built %d harness(es)' % len(keys))
    sx = engine.result()
    def run(j):
        out = os.path.join(SCR, 'o_' + j['name'] + '.json'); left = BUDGET - (time.time() - T0)
        if left < 5: return j, {'status': 'inconclusive', 'violations': [], 'inconclusive': ['time limit (not started)'], 'covers': {}, 'labels': {}, 'functions': [], 'stats': {}, 'samples': []}, 0
        tl = min(j.get('t', 600), left)
        t1 = time.time()
        cmd = [sx, fins[key(j)], '--prepped', '-n', str(j.get('n', 1)), '-o', out, '-t', str(tl), '-q', str(j.get('q', 20000)), '--maxviol', str(j.get('maxviol', 1)), '--maxsteps', str(j.get('maxsteps', 400000000))] + ['%s=%s' % kv for kv in j.get('cfg', {}).items()]
        try: r = sh(cmd, timeout=tl + 90); rc = r.returncode; so = r.stdout
        except subprocess.TimeoutExpired: rc = -1; so = 'wall timeout'
        try: o = json.load(open(out))
        except Exception: o = {'status': 'error', 'violations': [], 'inconclusive': ['symx failed rc=%s: %s' % (rc, so[-1500:])], 'covers': {}, 'labels': {}, 'functions': [], 'stats': {}, 'samples': []}
        return j, o, time.time() - t1
    results = []
    stop = threading.Event()
    with cf.ThreadPoolExecutor(NCPU) as jex:
        fs = [jex.submit(run, j) for j in sorted(alljobs, key=lambda j: -j.get('cost', 1))]
        for f in cf.as_completed(fs):
            j, o, w = f.result(); st = o.get('stats', {})
            log('%-28s %-12s paths=%s queries=%s asserts=%s solver=%.1fs wall=%.1fs' % (j['name'], o['status'], st.get('paths'), st.get('queries'), st.get('assertions'), st.get('solver_s', 0), w))
            if A.v or o['status'] in ('inconclusive', 'error'):
                for m in o['inconclusive'][:8]: print('      ', m[:400])
            if A.v:
                print('       covers', o['covers'])
                for l, x in o['labels'].items(): print('       label', l, x)
            results.append((j, o, w))
    results.sort(key=lambda t: t[0]['name'])
    # ---------------------------------------------------------------- verdict
    known = loadKnown()
    violations, inconclusive, knownHits = [], [], []
    for j, o, w in results:
        seen = set()
        for v in o['violations']:
            sig = (v['kind'], v['label'], v['stack'][0] if v['stack'] else '')
            if sig in seen: continue
            seen.add(sig)
            kf = matchKnown(known, j, v)
            if kf: knownHits.append(kf); continue
            violations.append((j, v))
        covers = o['covers']
        missing = [c for c in j.get('covers', []) if not covers.get(c)]
        if not o['violations']:
            if o['status'] == 'error': inconclusive.append((j, o['inconclusive'][0]))
            elif missing or not o['stats'].get('complete_paths'): inconclusive.append((j, 'nothing checked: coverage witnesses missing %s; %s' % (missing, '; '.join(o['inconclusive'][:3]))))
    confirmed = []; unconfirmed = []
    groups = {}
    for j, v in violations: groups.setdefault((j['harness'], v['kind'], v['label'], re.sub(r'@.*', '', v['stack'][0]) if v['stack'] else ''), []).append((j, v))
    for g, lst in list(groups.items())[:4]:
        ok = None
        for j, v in lst[:3]:
            ok = confirm(j, v, natf)
            if ok: break
        (confirmed if ok else unconfirmed).append(ok or lst[0])
    # ---------------------------------------------------------------- conformance of samples
    validated = 0; tried = 0; samples = []
    vtime = 40 if TIER == 'quick' else 300
    todo = []
    for j, o, w in results:
        ss = o.get('samples') or []
        ss = [s for s in ss if s]
        if ss: samples.append({'job': j['name'], 'n_ranks': j.get('n', 1), 'config': j.get('cfg', {}), 'assignment': dict(list(ss[-1].items())[:24])})
        todo += [(j, s) for s in (ss[-1:] if TIER == 'quick' else ss[-3:])]
    if not A.no_native and not confirmed:
        natok = {}
        for k in keys:
            try: natok[k] = natf[k].result()
            except BuildError as e: natok[k] = None; log('native build for conformance failed: ' + str(e)[:600])
        tv = time.time(); todo = [(j, s) for j, s in todo if natok.get(key(j)) and j.get('native', True)][: 24 if TIER == 'quick' else 200]
        def val(js):
            j, s = js
            if time.time() - tv > vtime: return None
            return j, s, runNative(natok[key(j)], j, s, 40)
        with cf.ThreadPoolExecutor(3) as vx:
            for r in vx.map(val, todo):
                if not r: continue
                j, s, (res, out) = r; tried += 1
                if res == 'ok': validated += 1
                elif res == 'assert':
                    v = {'kind': 'assertion', 'label': (re.findall(r'VF-ASSERT-FAILED \[rank \d+\] (.*)', out) or ['?'])[0], 'msg': 'native execution of a solver-chosen path fails the assertion', 'stack': [], 'assignment': s, 'notes': []}
                    if not matchKnown(known, j, v): confirmed.append((j, v, 'native', out))
                else: log('conformance run of %s: %s %s' % (j['name'], res, out[-300:].replace('\n', ' | ')))
        log('conformance: %d of %d solver-chosen paths reproduced natively under real MPI' % (validated, tried))
    writeEvidence(results, confirmed, unconfirmed, inconclusive, knownHits, validated, tried, samples)
    for kf in sorted(set(knownHits)): print('KNOWN-FINDING: property=%s %s' % (A.prop, kf))
    if confirmed:
        for i, (j, v, how, out) in enumerate(confirmed):
            path = writeReplay(i, j, v, how, out)
            print('counterexample (%s, %s): %s %s' % (j['name'], how, v['label'], v['msg']))
            for l in v['stack'][:6]: print('     at', l[:300])
            print('     assignment:', json.dumps(v['assignment'])[:800])
            print('VIOLATION property=%s replay=%s' % (A.prop, path), flush=True)
        return 1
    if unconfirmed:
        for j, v in unconfirmed: print('UNCONFIRMED counterexample (not reproduced natively): %s %s %s %s %s' % (j['name'], v['kind'], v['label'], v['msg'], json.dumps(v['assignment'])[:600])); [print('     at', l[:300]) for l in v['stack'][:8]]
        return 2
    if inconclusive:
        for j, m in inconclusive: print('INCONCLUSIVE %s: %s' % (j['name'], m[:1500]))
        return 2
    inc = [(j['name'], o['inconclusive'][0]) for j, o, w in results if o['inconclusive']]
    for n, m in inc: print('INCOMPLETE %s: %s (explored part holds)' % (n, m[:300]))
    print('OK property=%s tier=%s: %d jobs, %.0f s' % (A.prop, TIER, len(results), time.time() - T0))
    return 0

def confirm(j, v, natf):
    kind = v['kind']; k = key(j)
    try:
        if kind in ('memory',): exe = buildNative(k, True)
        else:
            exe = (natf[k].result() if k in natf else buildNative(k))
    except BuildError as e:
        log('native build failed: ' + str(e)[:1500]); exe = None
    if exe and j.get('native', True):
        res, out = runNative(exe, j, v['assignment'], 60 if kind in ('deadlock', 'nontermination') else 90)
        if kind == 'assertion' and res in ('assert', 'crash', 'timeout'): return (j, v, 'native', out)
        if kind in ('exception', 'abort') and res in ('crash', 'assert', 'timeout'): return (j, v, 'native', out)
        if kind in ('memory', 'deadlock', 'nontermination', 'mpi', 'arithmetic') and res in ('crash', 'assert', 'timeout'): return (j, v, 'native', out)
        log('replay of %s/%s: native outcome %s' % (j['name'], v['label'] or v['kind'], res)); 
        if A.v: print(out)
    # memory errors, deadlocks and misuse of MPI need not surface under one schedule of one MPI library: they are
    # (like assertions that depend on the timing of messages) confirmed by re-executing the concrete assignment in the engine (all inputs fixed, single path)
    if kind in ('memory', 'deadlock', 'mpi', 'nontermination') or not j.get('native', True) or 'lag' in j.get('cfg', {}):
        return (j, v, 'engine', '')
    return None
def writeReplay(i, j, v, how, out):
    d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%d.json' % (A.prop, i))
    json.dump({'property': A.prop, 'job': j, 'violation': v, 'confirmed_by': how, 'native_output': out, 'replay_cmd': 'python3 %s/replay.py %s' % (VERIF, p)}, open(p, 'w'), indent=1)
    return p
def loadKnown():
    r = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p): r = [f for f in json.load(open(p))['findings'] if f.get('status') == 'known' and f['property'] == A.prop]
    return r
def matchKnown(known, j, v):
    for f in known:
        m = f['match']
        if m.get('label') and m['label'] != v['label']: continue
        if m.get('job') and not re.fullmatch(m['job'], j['name']): continue
        if m.get('kind') and m['kind'] != v['kind']: continue
        if any(str(v['assignment'].get(a)) not in [str(x) for x in (b if isinstance(b, list) else [b])] for a, b in m.get('assignment', {}).items()): continue
        if m.get('stack') and not any(m['stack'] in s for s in v['stack']): continue
        return f['what']
    return None
def writeEvidence(results, confirmed, unconfirmed, inconclusive, knownHits, validated, tried, samples):
    S = lambda k: sum(o['stats'].get(k, 0) for j, o, w in results)
    fns = sorted({f for j, o, w in results for f in o['functions']})
    labels = {}
    for j, o, w in results:
        for l, x in o['labels'].items():
            y = labels.setdefault(l, [0, 0, 0]); labels[l] = [y[i] + x[i] for i in range(3)]
    cov = {'states': S('complete_paths'), 'transitions': S('steps'), 'traces_validated_against_impl': validated, 'samples': samples[:12] or [{'note': 'no completed path'}],
           'explanation': P['explanation'] if 'explanation' in P else 'symbolic execution of the compiled /repo sources; states = completed symbolic paths (each covers every data value), transitions = IR instructions executed symbolically',
           'bounds': P['bounds'], 'outside_bounds': P.get('outside', ''), 'functions_encoded': fns, 'n_functions_encoded': len(fns),
           'solver_queries': S('queries'), 'solver_unsat': S('unsat'), 'solver_sat': S('sat'), 'solver_unknown': S('unknown'), 'solver_seconds': round(S('solver_s'), 3),
           'assertions_checked': S('assertions'), 'assertions_folded_by_simplifier': S('assertions_folded'), 'assertions_by_label[hits,folded,solved]': labels,
           'fp_operations_certified_exact': S('fp_exact_ops'), 'fp_operations_modelled_as_reals': S('fp_inexact_ops'), 'symbolic_variables': S('symbolic_vars'), 'case_split_forks': S('forks'),
           'conformance_runs_tried': tried, 'jobs': [{'name': j['name'], 'ranks': j.get('n', 1), 'config': j.get('cfg', {}), 'status': o['status'], 'covers': o['covers'], 'wall_s': round(w, 2), 'paths': o['stats'].get('paths'), 'inconclusive': o['inconclusive'][:3]} for j, o, w in results],
           'exhaustive': not any(o['inconclusive'] for j, o, w in results), 'known_findings_hit': sorted(set(knownHits)), 'unconfirmed': len(unconfirmed), 'not_decided': [m for j, m in inconclusive]}
    ev = {'property': A.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'model_checking', 'coverage': cov, 'assumptions': P.get('assumptions', []) + J.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - T0, 2), 'violations': len(confirmed)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', A.prop + '.json'), 'w'), indent=1)
if __name__ == '__main__':
    try: rc = main()
    except BuildError as e: print('BUILD-ERROR', e); rc = 2
    finally: shutil.rmtree(SCR, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
