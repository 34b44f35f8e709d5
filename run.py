#!/usr/bin/env python3
"""Decides one property: encode /repo's current source, explore symbolically, replay counterexamples natively, write evidence.
usage: run.py PROPERTY [quick|thorough] [-v] [--only fn[:case]]      run.py --replay FILE"""
import sys, os, json, subprocess, shutil, time, hashlib, re, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SX_REPO', '/repo'); B = V + '/build'
sys.path.insert(0, V + '/harness')
import registry
CC = 'clang++-18'
INC = ['-std=c++17', '-include', V + '/stubs/prelude.hpp', '-I' + V + '/stubs', '-I' + REPO + '/include', '-I' + V + '/harness']
COMMON = INC + ['-DNDEBUG', '-Wno-everything', '-fno-threadsafe-statics', '-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR']
BC = COMMON + ['-O1', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-inline-functions-called-once', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSX_SYMBOLIC', '-g1', '-emit-llvm']
NAT = COMMON + ['-O1', '-g1', '-fsanitize=address,integer-divide-by-zero,unreachable,return,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-rdynamic']
TMP = None

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def sources(mod):
    return [V + '/harness/' + mod['harness']] + [REPO + '/' + s for s in mod['srcs']]

def compile_all(files, flags, ext, outdir):
    def one(a):
        i, f = a; o = '%s/%d_%s%s' % (outdir, i, os.path.basename(f), ext)
        r = sh([CC] + flags + ['-c', f, '-o', o]); return (f, o, r)
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, enumerate(files)))
    for f, o, r in res:
        if r.returncode: raise BuildError(f, r.stdout)
    return [o for _, o, _ in res]

class BuildError(Exception):
    def __init__(s, f, out): s.f = f; s.out = out

def build_module(mod, work):
    r = sh([V + '/engine/build.sh'])
    if r.returncode: print(r.stdout[-3000:]); sys.exit(2)
    objs = compile_all(sources(mod), BC + mod.get('flags', []), '.bc', work)
    out = work + '/module.bc'
    r = sh(['llvm-link-18', '-o', out] + objs + [B + '/rt.bc'])
    if r.returncode: raise BuildError('link', r.stdout)
    return out

def build_native(mod, work):
    exe = work + '/replay'
    if os.path.exists(exe): return exe
    objs = compile_all(sources(mod) + [V + '/harness/replay_rt.cpp'], [f for f in NAT if f != '-rdynamic'] + mod.get('flags', []), '.o', work)
    r = sh([CC, '-fsanitize=address,integer-divide-by-zero,unreachable,return,bounds', '-rdynamic', '-o', exe] + objs + ['-ldl', '-lpthread'])
    if r.returncode: raise BuildError('replay link', r.stdout)
    return exe

def write_inputs(path, inputs):
    with open(path, 'wb') as f:
        for name, hx in inputs:
            b = bytes.fromhex(hx); f.write(len(b).to_bytes(4, 'little') + b)

def native_replay(exe, work, fn, case, inputs):
    ip = work + '/in.bin'; write_inputs(ip, inputs)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=66:malloc_fill_byte=190:max_malloc_fill_size=1048576:allocator_may_return_null=1:detect_stack_use_after_return=0')
    try: r = sh([exe, ip, fn, str(case)], env=env, timeout=90)
    except subprocess.TimeoutExpired: return True, 'no termination within 90 s'
    out = r.stdout.strip()
    if r.returncode == 0: return False, out[-300:]
    if r.returncode == 78 or r.returncode == 2: return False, out[-300:]
    m = re.search(r'(ERROR: AddressSanitizer:[^\n]*|REPLAY assertion failed:[^\n]*|runtime error:[^\n]*|terminate called[^\n]*)', out)
    what = m.group(1) if m else ('killed by signal %d' % -r.returncode if r.returncode < 0 else 'exit %d' % r.returncode)
    return True, what

def known_findings():
    p = V + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    global TMP
    if sys.argv[1] == '--replay': return do_replay(sys.argv[2])
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    verbose = '-v' in sys.argv; only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    P = registry.PROPS[pid]; t0 = time.time()
    work = '/tmp/sx.%s.%d' % (pid, os.getpid()); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try: rc = run(pid, tier, P, work, verbose, only, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, P, work, verbose, only, t0):
    budget = P.get('budget', {}).get(tier, 150 if tier == 'quick' else 3000)
    parts = P['parts']; results = []
    kf_defs = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'open']
    deaths = 0; confirmed, unconfirmed, kf_seen, per, stopped = [], [], {}, {}, []
    def consider(mi, d, v, w):
        is_kf = [k for k in kf_defs if k['harness'] == d['job'] and re.search(k['match'], v['kind'] + ': ' + v['msg'] + ' @ ' + v['where'])]
        if is_kf: kf_seen.setdefault(is_kf[0]['id'], (is_kf[0], d, v)); return
        key = (d['job'], v['kind'], v['msg'], v['where'])
        per[key] = per.get(key, 0) + 1
        if per[key] > 3 or len(confirmed) >= 3: return
        try: exe = build_native(registry.MODULES[parts[mi]['module']], w)
        except BuildError as e: unconfirmed.append((d, v, 'the replay program does not build: %s %s' % (e.f, e.out[-400:]))); return
        ok, what = native_replay(exe, w, d['job'], d['case'], v['inputs'])
        if ok: confirmed.append((mi, d, v, what))
        else: unconfirmed.append((d, v, what))
    for mi, part in enumerate(parts):
        mod = registry.MODULES[part['module']]; w = '%s/m%d' % (work, mi); os.makedirs(w)
        try: bc = build_module(mod, w)
        except BuildError as e:
            print('BUILD-FAILED %s\n%s' % (e.f, e.out[-2500:])); return 2
        jobs = []
        for fn, cases in part['jobs'].items():
            cs = cases[tier] if isinstance(cases, dict) else cases
            for c in cs: jobs.append('%s:%d' % (fn, c))
        if only: jobs = [j for j in jobs if j == only or j.split(':')[0] == only]
        if not jobs: continue
        out = w + '/out'; os.makedirs(out)
        left = max(10, budget - (time.time() - t0))
        cmd = [B + '/symx', bc, '--out', out, '--jobs', '8', '--time', str(P.get('job_time', {}).get(tier, left)), '--total', str(left), '--mem', str(P.get('mem', 3000)), '--qt', str(P.get('qt', 20000))] + (['-v'] if verbose else []) + jobs
        # results are replayed as they arrive: one violation reproduced natively ends the run
        logf = open(w + '/log', 'w+')
        pr = subprocess.Popen(cmd, stdout=None if verbose else logf, stderr=None if verbose else subprocess.STDOUT, start_new_session=True)
        seenf = set()
        def scan():
            for f in sorted(os.listdir(out)):
                if not f.endswith('.json') or f in seenf: continue
                try: d = json.load(open(out + '/' + f))
                except ValueError: continue
                seenf.add(f); d['part'] = mi; results.append(d)
                for v in d['violations']: consider(mi, d, v, w)
        while pr.poll() is None and not stopped:
            time.sleep(0.2); scan()
            if confirmed and not only:
                stopped.append(1)
                try: os.killpg(pr.pid, 9)
                except ProcessLookupError: pass
        pr.wait(); scan()
        if not verbose: logf.seek(0); o = logf.read()
        else: o = ''
        if not stopped and pr.returncode not in (0, 4): print('ENGINE-FAILED rc=%d\n%s' % (pr.returncode, o[-3000:])); return 2
        if stopped: print('stopped after the first reproduced violation'); break
        have = {(d['job'], d['case']) for d in results if d['part'] == mi}
        for j in jobs:
            fn, c = j.split(':')
            if (fn, int(c)) not in have: deaths += 1; results.append(dict(job=fn, case=int(c), incomplete={'job ended without a result (time or memory)': 1}, died=True, part=mi, reached={}, expected={}, functions=[], violations=[]))
        if o and not verbose:
            o = '\n'.join(l for l in o.split('\n') if l.strip())
            if o: print(o[-1500:])
    # vacuity: every expected tag must be reached by some job of the same harness function
    reached = {}; expected = {}
    for d in results:
        for t in d['reached']: reached.setdefault(d['job'], set()).add(t)
        for t in d['expected']: expected.setdefault(d['job'], set()).add(t)
    vac = ['%s:%s' % (f, t) for f in expected for t in expected[f] if t not in reached.get(f, set())]
    inc = {}
    for d in results:
        for k, n in d['incomplete'].items(): inc.setdefault(k, []).append('%s:%d' % (d['job'], d['case']))
    def tot(k): return sum(d.get(k, 0) for d in results)
    fns = sorted({f for d in results for f in d['functions']})
    complete = not inc and not unconfirmed and not vac
    level = P.get('level', 'model_checking')
    def sample(d): return {'harness': d['job'], 'case': d['case'], 'paths': d.get('paths', 0), 'symbolic_bytes_decided': d.get('z3calls', 0)}
    samples = [sample(d) for d in results if not d.get('died')][:12]
    ev = {'property': pid, 'tier': tier, 'level': level, 'claim': P['claim'], 'complete': complete, 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'wall_s': round(time.time() - t0, 1), 'technique': 'symbolic execution of the LLVM IR compiled from /repo; branch feasibility, bounds and assertions decided by Z3',
          'bounds': P['bounds'].get(tier, P['bounds'].get('quick')) if isinstance(P['bounds'], dict) else P['bounds'], 'outside_bounds': P.get('outside', ''),
          'functions_encoded': [f[:110] for f in fns[:150]], 'functions_encoded_total': len(fns),
          'jobs': len(results), 'jobs_died': deaths, 'paths': tot('paths'), 'error_paths': tot('err_paths'), 'instructions_executed': tot('steps'), 'path_forks': tot('forks'),
          'assertions_checked': tot('asserts'), 'assertion_solver_queries': tot('assert_queries'), 'solver_queries': tot('queries'), 'solver_calls': tot('z3calls'), 'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'),
          'solver_time_s': round(tot('z3_s'), 2), 'symbolic_time_s': round(tot('wall_s'), 2),
          'states': max(1, tot('paths') + tot('err_paths')), 'transitions': max(1, tot('steps')), 'traces_validated_against_impl': len(confirmed) + len(unconfirmed),
          'witnesses_reached': sorted({'%s:%s' % (f, t) for f in expected for t in expected[f] if t in reached.get(f, set())})[:60], 'witnesses_missing': vac,
          'incomplete': {k[:200]: v[:8] for k, v in list(inc.items())[:20]}, 'unreproduced': [{'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'replay': w} for d, v, w in unconfirmed][:10],
          'known_findings_seen': sorted(kf_seen), 'samples': samples or [{'none': 1}], 'violations': []}
    rc = 0
    for kid, (k, d, v) in kf_seen.items(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for k in kf_defs:
        if k['id'] not in kf_seen and not only: print('note: known finding %s was not observed in this run' % k['id'])
    seen = set()
    for mi, d, v, what in confirmed:
        sig = (d['job'], v['kind'], v['msg'], v['where'])
        if sig in seen: continue
        seen.add(sig)
        rd = V + '/replays'; os.makedirs(rd, exist_ok=True)
        rp = '%s/%s-%s.json' % (rd, pid, hashlib.sha1(json.dumps([d['job'], d['case'], v['inputs']]).encode()).hexdigest()[:10])
        json.dump({'property': pid, 'module': parts[mi]['module'], 'harness': d['job'], 'case': d['case'], 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'native': what, 'inputs': v['inputs'], 'stack': v['stack'],
                   'how': 'python3 %s/run.py --replay %s' % (V, rp)}, open(rp, 'w'), indent=1)
        print('%s: %s at %s\n  failing input: %s\n  native replay: %s' % (v['kind'], v['msg'], v['where'], '; '.join('%s=%s' % (n, h[:160]) for n, h in v['inputs'])[:1500], what))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        ev['violations'].append({'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'replay': rp}); rc = 1
    for d, v, w in unconfirmed: print('UNREPRODUCED %s:%d %s: %s at %s (%s)' % (d['job'], d['case'], v['kind'], v['msg'], v['where'], w))
    if rc == 0 and vac and not inc and not only and not stopped: print('VACUOUS: expected witnesses not reached: %s' % ', '.join(vac)); rc = 2
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only:
        with open('%s/evidence/%s.json' % (V, pid), 'w') as f: json.dump(ev, f, indent=1)
    if inc: print('INCOMPLETE: ' + '; '.join('%s [%s]' % (k[:150], ','.join(v[:4])) for k, v in list(inc.items())[:8]))
    print('%s %s: %s  jobs=%d paths=%d instr=%d asserts=%d queries=%d z3=%d (%.1fs) wall=%.1fs functions=%d' % (pid, tier, 'HELD' if rc == 0 and complete else 'HELD-ON-EXPLORED' if rc == 0 else 'FAILED', len(results), tot('paths'), tot('steps'), tot('asserts'), tot('queries'), tot('z3calls'), tot('z3_s'), time.time() - t0, len(fns)))
    if verbose or os.environ.get('SX_PERJOB'):
        for d in sorted(results, key=lambda d: -d.get('wall_s', 0))[:40]: print('   %-32s %7.1fs paths=%d z3=%.1fs steps=%d rss=%d' % ('%s:%d' % (d['job'], d['case']), d.get('wall_s', 0), d.get('paths', 0), d.get('z3_s', 0), d.get('steps', 0), d.get('rss_mb', 0)))
    return rc

def do_replay(path):
    r = json.load(open(path)); work = '/tmp/sx.replay.%d' % os.getpid(); os.makedirs(work)
    try:
        exe = build_native(registry.MODULES[r['module']], work); ok, what = native_replay(exe, work, r['harness'], r['case'], r['inputs'])
    finally: shutil.rmtree(work, ignore_errors=True)
    print(('REPRODUCED: ' if ok else 'not reproduced: ') + what); sys.exit(1 if ok else 0)

main()
