#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current source (see DESIGN.md).

  check.py ID [--tier quick|thorough] [--keep] [--only RUN]
exit 0: held within the bounds; 1: VIOLATION printed; 2: no verdict (error, incomplete exploration)."""
import sys, os, subprocess, tempfile, shutil, json, time, glob, re, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KEYD_REPO', '/repo')
sys.path.insert(0, V)
import props
KSE = V + '/kse/kse'
NCPU = os.cpu_count() or 4

BASE = ['-DVERSION="v"', '-DSOCKET_PATH="/s"', '-DCONFIG_DIR="/etc/keyd"', '-DDATA_DIR="/d"', '-D_DEFAULT_SOURCE',
        '-std=gnu11', '-iquote', REPO + '/src', '-iquote', V + '/lib', '-iquote', V + '/harness', '-w']
CF = ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-builtin', '-fwrapv', '-fno-strict-aliasing',
      '-fno-delete-null-pointer-checks', '-ffp-contract=off', '-fno-discard-value-names', '-fsanitize=array-bounds',
      '-fsanitize-trap=all', '-fstrict-flex-arrays=3', '-emit-llvm', '-c']
PASSES = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),function(early-cse)'
SAN = ['-g', '-O1', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fwrapv', '-fno-strict-aliasing', '-fsanitize=address,bounds-strict,null', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

class Fail(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode: raise Fail('command failed: %s\n%s' % (' '.join(cmd)[:400], r.stdout[:600]))
    return r.stdout

def srcs(run):
    """(path, object name, defines) of every translation unit of a run"""
    red = ['-D%s=env_%s' % (n, n) for n in run.get('redir', [])]
    defs = ['-D%s=%s' % (k, v) for k, v in run.get('defs', {}).items()]
    out = []
    for f in run.get('repo', []): out.append((REPO + '/src/' + f + '.c', f, red + run.get('repo_flags', [])))
    for f in run.get('lib', []): out.append((V + '/lib/' + f + '.c', 'lib_' + f, []))
    h = run['src']; out.append((V + '/harness/' + h + '.c', 'h_' + h, red + defs + run.get('flags', [])))
    return out

def gen(run, tmp):
    if run.get('gen') and not run.get('gendone'):
        props.GEN[run['gen']](REPO, tmp, run); run['flags'] = run.get('flags', []) + ['-iquote', tmp]; run['gendone'] = 1

def build_ir(run, tmp, cache, ex):
    gen(run, tmp)
    futs = []; objs = []
    for path, name, fl in srcs(run) + [(V + '/lib/rt.c', 'rt', [])]:
        key = (path, tuple(fl))
        if key not in cache:
            o = '%s/%s_%d.bc' % (tmp, name, len(cache)); cache[key] = (o, ex.submit(sh, ['/usr/bin/clang-18'] + CF + BASE + fl + [path, '-o', o]))
        objs.append(cache[key][0]); futs.append(cache[key][1])
    for f in futs: f.result()
    n = run['name']; bc = '%s/%s.bc' % (tmp, n); opt = '%s/%s.opt.bc' % (tmp, n)
    sh(['llvm-link-18'] + objs + ['-o', bc]); sh(['opt-18', '-passes=' + PASSES, bc, '-o', opt])
    return opt

def build_native(run, tmp, cache, ex):
    gen(run, tmp)
    objs = []; futs = []
    for path, name, fl in srcs(run) + [(V + '/lib/native.c', 'native', [])]:
        key = ('n', path, tuple(fl))
        if key not in cache:
            o = '%s/%s_%d.o' % (tmp, name, len(cache)); cache[key] = (o, ex.submit(sh, ['/usr/bin/gcc'] + SAN + BASE + ['-DKSE_NATIVE'] + fl + ['-c', path, '-o', o]))
        objs.append(cache[key][0]); futs.append(cache[key][1])
    for f in futs: f.result()
    exe = '%s/%s.native' % (tmp, run['name'])
    sh(['/usr/bin/gcc'] + SAN + objs + ['-o', exe]); return exe

def run_native(exe, path, tier, timeout=15):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=43:detect_stack_use_after_return=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=44', KSE_TIER=str(tier))
    try: r = subprocess.run([exe, path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', env=env, timeout=timeout, cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired: return 'timeout', ''
    return r.returncode, r.stderr

def confirm(kind, rc, err, loc):
    if kind == 'check': return rc == 42
    if kind == 'memory': return rc in (43, 44, -11, -4, -5, -8, -7) or rc == 1 and 'runtime error' in err
    if kind == 'assert': return rc == -6
    if kind == 'hang': return rc == 'timeout'
    if kind == 'exit': return isinstance(rc, int) and rc not in (0, 77, 78, 79)
    return False

def parse(prefix):
    R = dict(stat={}, cover={}, check={}, func={}, incomplete={}, viol=[], sample=[], max={})
    for p in glob.glob(prefix + '.*'):
        if not re.search(r'\.\d+$', p): continue
        for line in open(p, errors='replace'):
            f = line.rstrip('\n').split('\t'); t = f[0]
            if t == 'STAT': R['stat'][f[1]] = R['stat'].get(f[1], 0) + float(f[2])
            elif t == 'MAX': R['max'][f[1]] = max(R['max'].get(f[1], 0), int(f[2]))
            elif t in ('COVER', 'CHECK', 'FUNC', 'INCOMPLETE'): d = R[t.lower()]; d[f[1]] = d.get(f[1], 0) + int(f[2])
            elif t == 'SAMPLE': R['sample'].append((f[1], f[2] if len(f) > 2 else '', f[3] if len(f) > 3 else ''))
            elif t == 'VIOL': R['viol'].append(dict(kind=f[1], msg=f[2], loc=f[3], stack=f[4], tag=f[5], inp=f[6]))
        os.unlink(p)
    R['viol'].sort(key=lambda v: len(v['inp'].split(';')))
    return R

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    if props.PROPS[pid].get('mapper'): os.execvp('python3-vt', ['python3-vt', V + '/py/mapper.py'] + a)
    T = 1 if tier == 'thorough' else 0
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time(); P = props.PROPS[pid]
    if not os.path.exists(KSE): sh(['make', '-C', V + '/kse', 'kse'])
    known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == pid]
    tmp = tempfile.mkdtemp(prefix='keydv_', dir='/tmp'); cache = {}; ncache = {}; ex = ThreadPoolExecutor(NCPU)
    budget = P.get('budget', (240, 780))[T]
    bad = []; errors = []; knownhit = {}; tot = {}; runs_ev = []; funcs = {}; samples = []; validated = 0; unconfirmed = 0
    try:
        runs = [r for r in P['runs'] if (T or not r.get('thorough_only')) and (not only or r['name'] == only)]
        for run in runs:
            run = dict(run); run['defs'] = dict(run.get('defs', {})); run['defs'].update(run.get('tdefs', {}) if T else run.get('qdefs', {}))
            tb = time.time(); opt = build_ir(run, tmp, cache, ex)
            natf = ThreadPoolExecutor(1).submit(build_native, run, tmp, ncache, ThreadPoolExecutor(2))
            left = budget - (time.time() - t0)
            lim = max(20, min(left, run.get('timeout', (200, 600))[T])); out = '%s/%s.out' % (tmp, run['name']); tk = time.time()
            r = subprocess.run([KSE, '--timeout', str(lim), '--jobs', str(NCPU), '--tier', str(T), '--out', out, '--max-steps', str(run.get('max_steps', 30000000)), '--max-viol', '12'] + (['--fork-select'] if run.get('fork_select') else []) + (['--sym-store'] if run.get('sym_store') else []) + [opt],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            tk2 = time.time(); R = parse(out)
            if r.returncode: errors.append('%s: kse exit %d: %s' % (run['name'], r.returncode, r.stdout[-600:]))
            exe = natf.result()
            # ---- violations: replay against the real code
            seen = {}
            for v in R['viol']:
                k = (v['kind'], v['msg'], v['loc'], v['tag']); seen.setdefault(k, 0)
                if seen[k] == 'ok' or seen[k] >= 6: continue
                body = '# property %s run %s tier %s\n# %s: %s\n# at %s\n' % (pid, run['name'], tier, v['kind'], v['msg'], v['stack'])
                body += '\n'.join(x.strip() for x in v['inp'].split(';') if x.strip()) + '\n'
                rp = tmp + '/viol.txt'; open(rp, 'w').write(body)
                rc, err = run_native(exe, rp, T)
                if not confirm(v['kind'], rc, err, v['loc']):
                    seen[k] += 1
                    if seen[k] >= 3 or sum(1 for w in R['viol'] if (w['kind'], w['msg'], w['loc'], w['tag']) == k) <= seen[k]:
                        unconfirmed += 1; errors.append('%s: counterexample not reproduced natively (rc %s): %s %s at %s [%s] %s' % (run['name'], rc, v['kind'], v['msg'], v['loc'], v['inp'], err[-300:]))
                    continue
                seen[k] = 'ok'
                kf = next((f for f in known if f['tag'] == v['tag'] and v['tag'] and f.get('run', run['name']) == run['name'] and v['kind'] in f.get('kinds', [v['kind']]) and re.search(f.get('msg', ''), v['msg'])), None)
                if kf: knownhit[kf['id']] = (kf, v); continue
                d = V + '/evidence/replay'; os.makedirs(d, exist_ok=True)
                h = hashlib.sha1((str(k)).encode()).hexdigest()[:8]; dst = '%s/%s_%s_%s.txt' % (d, pid, run['name'], h)
                open(dst, 'w').write(body + '# replay: check.py --replay %s %s\n' % (pid, dst)); bad.append((dst, run['name'], v, err))
            # ---- vacuity
            for c in run.get('covers', []):
                if not R['cover'].get(c) and not R['viol']: errors.append('%s: expected situation never reached: %s' % (run['name'], c))
            if not R['stat'].get('checks') and not R['viol']: errors.append('%s: no check was reached' % run['name'])
            for k, n in R['incomplete'].items(): errors.append('%s: incomplete: %s (%d)' % (run['name'], k, n))
            if R['stat'].get('z3_mismatch'): errors.append('%s: solver disagreement' % run['name'])
            # ---- encoding validation: sampled paths natively
            import random
            rnd = random.Random(seed); ss = R['sample']; rnd.shuffle(ss); nval = 0
            for pretty, inp, obs in ss[:24 if T else 12]:
                rp = tmp + '/s.txt'; open(rp, 'w').write('\n'.join(x for x in inp.split(';') if x) + '\n')
                rc, err = run_native(exe, rp, T)
                no = re.findall(r'^OBS (\d+)$', err, re.M); eo = [x for x in obs.split(',') if x]
                if rc == 42 or (isinstance(rc, int) and rc in (43, 44, -6, -11)): # native disagrees although the path is claimed fine
                    if not R['viol']: errors.append('%s: sampled path behaves differently natively (rc %s): %s %s' % (run['name'], rc, inp, err[-300:]))
                elif rc != 0: errors.append('%s: sampled path does not replay (rc %s): %s %s' % (run['name'], rc, inp, err[-300:]))
                elif no != eo: errors.append('%s: observations differ: %s native %s encoded %s' % (run['name'], inp, no[:40], eo[:40]))
                else: nval += 1
            validated += nval
            for k, n in R['stat'].items(): tot[k] = tot.get(k, 0) + n
            for k, n in R['func'].items(): funcs[k] = funcs.get(k, 0) + n
            samples += ['%s: %s' % (run['name'], p) for p, _, _ in ss[:3]]
            runs_ev.append(dict(run=run['name'], bounds=run.get('bounds', ''), defines=run['defs'], paths=int(R['stat'].get('paths', 0)), checks=int(R['stat'].get('checks', 0)), queries=int(R['stat'].get('queries', 0)), solver_time_s=round(R['stat'].get('solver_time', 0), 2), wall_s=round(tk2 - tk, 2), situations_reached={k: R['cover'][k] for k in sorted(R['cover'])}, assertions={k: R['check'][k] for k in sorted(R['check'])}, incomplete=R['incomplete'], inputs_per_path_max=R['max'].get('inputs_per_path', 0), sampled_paths_replayed=nval))
            if '-v' in a: print('%s: build %.1f kse %.1f paths %d checks %d queries %d solver %.1f covers %s' % (run['name'], tk - tb, tk2 - tk, R['stat'].get('paths', 0), R['stat'].get('checks', 0), R['stat'].get('queries', 0), R['stat'].get('solver_time', 0), R['cover']))
            if bad and not '--all' in a: break
    except Fail as e: errors.append(str(e))
    finally:
        if '--keep' in a: print('kept', tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)
    I = lambda k: int(tot.get(k, 0))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(bad),
        coverage=dict(states=I('paths'), transitions=I('steps'), traces_validated_against_impl=validated, samples=samples,
            explanation='states = symbolic paths explored to their end (each covers every value of its symbolic inputs); transitions = IR instructions executed symbolically; traces_validated = sampled paths replayed on the natively compiled code (ASan/UBSan) with identical observations.',
            paths_completed=I('ended'), paths_cut_by_assumption=I('assume_cut'), assertions_checked=I('checks'), assertions_proved=I('checks_proved'),
            queries_discharged=I('queries'), queries_decided_by_linear_arithmetic=I('linear'), queries_unsat=I('unsat'), queries_sat=I('sat'), queries_unknown=I('unknown'), decided_by_domain=I('domain_decided'), query_cache_hits=I('cache_hits'),
            solver_time_s=round(tot.get('solver_time', 0), 3), z3_cross_checks=I('z3_checks'), z3_disagreements=I('z3_mismatch'), z3_time_s=round(tot.get('z3_time', 0), 3),
            functions_encoded=sorted(k for k in funcs), runs=runs_ev, outside_the_claim=P.get('outside', ''), not_reproduced=unconfirmed, errors=errors,
            known_findings=[k for k in knownhit]),
        assumptions=P.get('assumptions', []) + props.COMMON_ASSUMPTIONS)
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for k, (kf, v) in sorted(knownhit.items()): print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    for dst, rn, v, err in bad:
        print('%s [%s] %s at %s' % (v['kind'], rn, v['msg'], v['stack'])); print('VIOLATION property=%s replay=%s' % (pid, dst))
    for e in errors: print('NOTE:' if bad else 'ERROR:', e)
    if bad: return 1
    if errors: return 2
    print('OK property=%s paths=%d assertions=%d queries=%d solver=%.1fs wall=%.1fs validated=%d' % (pid, I('paths'), I('checks'), I('queries'), tot.get('solver_time', 0), time.time() - t0, validated))
    return 0

def replay():
    if props.PROPS[sys.argv[2]].get('mapper'): os.execvp('python3-vt', ['python3-vt', V + '/py/mapper.py'] + sys.argv[1:])
    pid, path = sys.argv[2], os.path.abspath(sys.argv[3]); m = re.match(r'# property \S+ run (\S+) tier (\S+)', open(path).read())
    T = m.group(2) == 'thorough'; run = dict(next(r for r in props.PROPS[pid]['runs'] if r['name'] == m.group(1)))
    run['defs'] = dict(run.get('defs', {})); run['defs'].update(run.get('tdefs', {}) if T else run.get('qdefs', {}))
    tmp = tempfile.mkdtemp(prefix='keydv_', dir='/tmp')
    try:
        os.environ['KSE_TRACE'] = '1'; rc, err = run_native(build_native(run, tmp, {}, ThreadPoolExecutor(NCPU)), path, int(T)); print(err); print('native exit status', rc)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return 0
if __name__ == '__main__': sys.exit(replay() if sys.argv[1] == '--replay' else main())
