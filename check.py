#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current tree.
   check.py --dev harness entry [params...] [-D ZP=Zera]   run one symbolic job and print a summary."""
import sys, os, json, subprocess, hashlib, time, threading, shutil, signal, re, fcntl
from concurrent.futures import ThreadPoolExecutor, as_completed
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ZS_REPO', '/repo')
BUILD = os.environ.get('ZS_BUILD', os.path.join(ROOT, '.build'))
EVID = os.path.join(ROOT, 'evidence')
sys.path.insert(0, ROOT)
CPUS = int(os.environ.get('ZS_CPUS', os.cpu_count() or 4))
INC = ['-I' + os.path.join(ROOT, 'lib'), '-I' + os.path.join(ROOT, 'stubs'), '-I' + os.path.join(REPO, 'include'), '-I/opt/vp/compat',
       '-isystem', '/usr/include/eigen3', '-include', 'memory']
BCF = ['-std=c++20', '-O1', '-gline-tables-only', '-w', '-Xclang', '-disable-llvm-passes', '-fno-builtin-strlen', '-emit-llvm', '-c',
       '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_DEBUG', '-DEIGEN_MAX_ALIGN_BYTES=0', '-DZS_SYMBOLIC']
NATF = ['-std=c++20', '-O1', '-g1', '-w', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_DEBUG', '-DEIGEN_MAX_ALIGN_BYTES=0']
ASAN = ['-fsanitize=address,alignment,integer-divide-by-zero', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

def sh(cmd, timeout=None, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode('utf8', 'replace')
def must(cmd):
    rc, out = sh(cmd)
    if rc: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), out[-4000:]))
def fhash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
def lst(d, ext): return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(ext))

_lock = threading.Lock()
def engine():
    src = lst(os.path.join(ROOT, 'engine'), ('.cpp', '.h', '.inc', '.sh'))
    d = os.path.join(BUILD, 'engine-' + fhash(src))
    z = os.path.join(d, 'zsym')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(z): must(['bash', os.path.join(ROOT, 'engine', 'build.sh'), d])
    return z
def runtime():
    a, b = os.path.join(ROOT, 'lib', 'zrt.cpp'), os.path.join(ROOT, 'lib', 'zrtc.c')
    d = os.path.join(BUILD, 'rt-' + fhash([a, b]))
    x, y = os.path.join(d, 'zrt.bc'), os.path.join(d, 'zrtc.bc')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
      fcntl.flock(lk, fcntl.LOCK_EX)
      if not (os.path.exists(x) and os.path.exists(y)):
        must(['clang++', '-std=c++20', '-O1', '-fno-builtin', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', a, '-o', x + '.t'])
        must(['clang', '-O1', '-fno-builtin', '-emit-llvm', '-c', b, '-o', y + '.t'])
        os.rename(x + '.t', x); os.rename(y + '.t', y)
    return [x, y]

class Unit:
    """one harness compiled with one set of defines"""
    def __init__(self, harness, defs, work):
        self.harness, self.defs = harness, defs
        self.src = os.path.join(ROOT, 'harness', harness + '.cpp')
        tag = harness + ''.join('-' + re.sub(r'\W', '_', d) for d in defs)
        self.base = os.path.join(work, tag)
        self.lock = threading.Lock(); self.nat = {}; self.bc = None; self.err = None; self.bclock = threading.Lock()
    def D(self): return ['-D' + d for d in self.defs]
    def bitcode(self):
        with self.bclock:
            if self.err: raise RuntimeError(self.err)
            if self.bc: return self.bc
            try:
                b = self.base
                must(['clang++'] + BCF + INC + self.D() + [self.src, '-o', b + '.0.bc'])
                must(['llvm-link', b + '.0.bc'] + runtime() + ['-o', b + '.1.bc'])
                must([engine(), '--prep', b + '.1.bc', '--out', b + '.2.bc'])
                must(['opt', '-O1', '-vectorize-loops=false', '-vectorize-slp=false', b + '.2.bc', '-o', b + '.bc'])
                for s in ('.0.bc', '.1.bc', '.2.bc'): os.unlink(b + s)
                self.bc = b + '.bc'
                return self.bc
            except Exception as e:
                self.err = str(e); raise
    def native(self, kind):
        with self.lock:
            if kind not in self.nat:
                out = self.base + '.' + kind
                fl = ASAN if kind == 'asan' else ['-fsanitize=thread'] if kind == 'tsan' else []
                must(['clang++'] + NATF + fl + INC + self.D() + [self.src, os.path.join(ROOT, 'lib', 'replay_rt.cpp'), '-o', out, '-rdynamic', '-ldl', '-pthread', '-lmsgpack-c' if os.path.exists('/usr/lib/x86_64-linux-gnu/libmsgpack-c.so') else '-lmsgpackc', '-lflatbuffers'])
                self.nat[kind] = out
            return self.nat[kind]

ASANENV = dict(os.environ, ASAN_OPTIONS='exitcode=86:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=256:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1:new_delete_type_mismatch=0:handle_abort=0', TSAN_OPTIONS='exitcode=84:halt_on_error=1:report_signal_unsafe=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=86:print_stacktrace=1')
def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, h in inputs: f.write(n + '\t' + h + '\n')
def native_run(unit, job, inputsfile, kind='asan', timeout=40):
    exe = unit.native(kind)
    cmd = [exe, job['entry'], inputsfile] + [str(p) for p in job['params']]
    if kind == 'plain': cmd = ['valgrind', '-q', '--error-exitcode=85', '--leak-check=no'] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ASANENV)
        return p.returncode, p.stdout.decode('utf8', 'replace'), cmd
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace'), cmd
def confirm(unit, job, v, rdir, idx):
    """replay a solver counterexample on the real code; None if it does not reproduce"""
    os.makedirs(rdir, exist_ok=True)
    f = os.path.join(rdir, '%s-%s-%d.inputs' % (job['prop'], job['entry'], idx))
    write_inputs(f, v['inputs'])
    for kind in (['tsan'] if v['kind'] == 'shared' else ['plain', 'asan'] if v['kind'] == 'uninit' else ['asan', 'plain'] if v['kind'] in ('memory', 'leak') else ['asan']):
        rc, out, cmd = native_run(unit, job, f, kind, timeout=20 if v['kind'] == 'hang' else 60)
        bad = (rc == 'timeout' and v['kind'] == 'hang') or (rc not in (0, 76, 77, 'timeout', 70, 71, 72))
        if bad:
            r = f[:-7] + '.replay'
            with open(r, 'w') as g:
                g.write('property: %s\nharness: %s %s params=%s\nsolver finding: %s: %s\n at %s\nnative replay (%s build): exit %s\nreproduce: compile %s with lib/replay_rt.cpp against /repo/include (see check.py native()) and run: PROG %s %s %s\n\n--- inputs\n%s\n--- native output\n%s\n' % (
                    job['prop'], unit.harness, unit.defs, job['params'], v['kind'], v['msg'], v['loc'], kind, rc, unit.src, job['entry'], f, ' '.join(map(str, job['params'])),
                    '\n'.join('%s = %s' % (a, b) for a, b in v['inputs']), out[-6000:]))
            return r, out
    return None, 'native exit %s: %s' % (rc, out[-300:])

procs = set(); plock = threading.Lock(); stop = threading.Event()
def run_job(unit, job, work, deadline, seed):
    res = {'job': job}
    if stop.is_set(): res['skipped'] = True; return res
    bc = unit.bitcode()
    left = deadline - time.time()
    if stop.is_set() or left < 2: res['skipped'] = True; res['late'] = left < 2; return res
    out = os.path.join(work, 'job%d.json' % job['n'])
    cmd = [engine(), bc, '--entry', job['entry'], '--out', out, '--timeout', str(int(min(job['timeout'], left))), '--seed', str(seed), '--samples', str(job.get('samples', 4))]
    for p in job['params']: cmd += ['--param', str(p)]
    cmd += job.get('opts', [])
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with plock: procs.add(p)
    try: o, _ = p.communicate(timeout=min(job['timeout'], left) + 60)
    except subprocess.TimeoutExpired: p.kill(); o, _ = p.communicate()
    with plock: procs.discard(p)
    res['wall'] = time.time() - t; res['rc'] = p.returncode
    res['log'] = o.decode('utf8', 'replace')[-2000:]
    if os.path.exists(out):
        try: res['data'] = json.load(open(out))
        except Exception as e: res['log'] += '\nbad json: %s' % e
    return res

def load_known():
    p = os.path.join(ROOT, 'known-findings.txt'); k = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '): k.append(dict(x.split('=', 1) for x in re.findall(r'(\w+=(?:"[^"]*"|\S+))', l)))
    return k
def match_known(known, job, v):
    for k in known:
        if k.get('property') == job['prop'] and k.get('entry') == job['entry'] and k.get('kind') == v['kind'] and k.get('match', '').strip('"') in v['msg'] + ' ' + v['loc']: return k
    return None

def main():
    if sys.argv[1] == '--setup':
        engine(); runtime(); return 0
    if sys.argv[1] == '--dev': return dev()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import jobs
    spec = jobs.PROPS[prop]
    t0 = time.time()
    deadline = t0 + (float(os.environ.get('ZS_BUDGET', 0)) or (660 if tier == 'quick' else 6 * 3600))
    os.makedirs(EVID, exist_ok=True); os.makedirs(BUILD, exist_ok=True)
    work = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try: return check(prop, tier, seed, spec, work, deadline, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def check(prop, tier, seed, spec, work, deadline, t0):
    known = load_known()
    units = {}; js = []
    for j in spec['jobs']:
        if j['tier'] == 't' and tier == 'quick': continue
        if j['tier'] == 'q' and tier != 'quick': continue
        j = dict(j, prop=prop, n=len(js))
        key = (j['harness'], tuple(j['defs']))
        if key not in units: units[key] = Unit(j['harness'], list(j['defs']), work)
        j['unit'] = key; js.append(j)
    engine(); runtime()
    rdir = os.path.join(EVID, 'replay')
    for f in (os.listdir(rdir) if os.path.isdir(rdir) else []):
        if f.startswith(prop + '-'): os.unlink(os.path.join(rdir, f))
    # compile everything first (in parallel), then run the jobs
    pre = ThreadPoolExecutor(CPUS)
    fb = {k: pre.submit(u.bitcode) for k, u in units.items()}
    fn = {k: pre.submit(u.native, 'asan') for k, u in units.items()}
    errors = []
    for k, f in fb.items():
        try: f.result()
        except Exception as e: errors.append('cannot encode %s: %s' % (k, str(e)[-1500:]))
    if errors:
        for e in errors: print('ERROR property=%s %s' % (prop, e))
        return 2
    tot = dict(paths=0, forks=0, insts=0, asserts=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, cache_hits=0, branches=0, oob_checks=0)
    covers, funcs, incomplete, jrec, viols, unconf, samples, knownhits = {}, {}, [], [], [], [], [], []
    validated = mismatched = 0; other = 0
    ex = ThreadPoolExecutor(CPUS)
    order = sorted(js, key=lambda j: -j.get('weight', j['timeout'] if False else 0))
    fut = [ex.submit(run_job, units[j['unit']], j, work, deadline, seed) for j in order]
    vidx = 0; sampq = []
    for f in as_completed(fut):
        r = f.result(); j = r['job']; u = units[j['unit']]
        name = '%s[%s] %s(%s)' % (j['harness'], ','.join(j['defs']), j['entry'], ','.join(map(str, j['params'])))
        if r.get('skipped'):
            if not stop.is_set() or r.get('late'): incomplete.append(name + ': not started, time budget used up')
            continue
        d = r.get('data')
        if d is None:
            if not stop.is_set(): incomplete.append(name + ': engine gave no result (rc %s) %s' % (r.get('rc'), r.get('log', '')[-300:]))
            continue
        for k in tot: tot[k] += d.get(k, 0)
        for k, v in d['covers'].items(): covers[k] = covers.get(k, 0) + v
        for k, v in d['functions'].items(): funcs.setdefault(k, set()).update(v)
        other = max(other, d.get('other_functions', 0))
        for x in d['incomplete']: incomplete.append(name + ': ' + str(x))
        miss = [c for c in j.get('need', []) if not d['covers'].get(c)]
        if miss and not d['violations'] and not d['incomplete']: incomplete.append(name + ': vacuous, never reached ' + ','.join(miss))
        jrec.append({'job': name, 'paths': d['paths'], 'queries': d['queries'], 'unsat': d['unsat'], 'sat': d['sat'], 'solver_s': d['solver_s'], 'wall_s': round(r['wall'], 2), 'insts': d['insts']})
        for v in d['violations']:
            vidx += 1
            kf = match_known(known, j, v)
            rp, o = confirm(u, j, v, rdir, vidx)
            if rp is None: unconf.append({'job': name, 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'native': o[-300:]}); continue
            if kf: knownhits.append((kf, v)); continue
            viols.append({'job': name, 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'replay': rp, 'inputs': v['inputs'][:40]})
            if not os.environ.get('ZS_ALL'):
                stop.set()
                with plock:
                    for p in list(procs): p.kill()
            break
        if not stop.is_set():
            for s in d['samples'][:j.get('samples', 4)]: sampq.append((u, j, s, name))
    # validate sample paths of the encoding against the real code
    def val(t):
        u, j, s, name = t
        k = hashlib.sha1((name + json.dumps(s['inputs'])).encode()).hexdigest()[:12]
        f = os.path.join(work, 's' + k); write_inputs(f, s['inputs'])
        rc, o, _ = native_run(u, j, f)
        obs = [l[4:] for l in o.splitlines() if l.startswith('OBS ')]
        return rc == 0 and obs == s['obs'], rc, o, obs
    if not viols:
        lim = 64 if tier == 'quick' else 400
        if len(sampq) > lim: sampq = sampq[::max(1, len(sampq) // lim)][:lim]
        for t, (ok, rc, o, obs) in zip(sampq, ex.map(val, sampq)):
            if ok:
                validated += 1
                if len(samples) < 6: samples.append({'job': t[3], 'inputs': t[2]['inputs'][:30], 'observations': t[2]['obs'][:20]})
            else:
                mismatched += 1
                print('SAMPLE-MISMATCH property=%s %s rc=%s inputs=%s want=%s got=%s %s' % (prop, t[3], rc, t[2]['inputs'][:12], t[2]['obs'][:8], obs[:8], o[-300:] if rc else ''))
    if not samples and viols: samples = [{'job': v['job'], 'inputs': v['inputs']} for v in viols]
    wall = time.time() - t0
    lib = {os.path.relpath(k, REPO) if k.startswith(REPO) else k: sorted(v) for k, v in funcs.items()}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'), 'wall_s': round(wall, 2),
          'coverage': {'states': tot['paths'], 'transitions': tot['forks'], 'traces_validated_against_impl': validated, 'samples': samples,
                       'bounds': spec['bounds'], 'technique': 'path-exhaustive symbolic execution of the LLVM IR of the real code, Z3 verdict per branch/assertion',
                       'paths': tot['paths'], 'instructions_executed': tot['insts'], 'assertions_checked': tot['asserts'], 'bounds_checks_with_symbolic_address': tot['oob_checks'],
                       'queries': tot['queries'], 'queries_unsat': tot['unsat'], 'queries_sat': tot['sat'], 'queries_unknown': tot['unknown'], 'query_cache_hits': tot['cache_hits'], 'solver_s': round(tot['solver_s'], 2),
                       'functions_encoded': lib, 'functions_encoded_elsewhere': other, 'cover_points': covers, 'jobs': jrec, 'incomplete': incomplete, 'unconfirmed': unconf, 'sample_mismatches': mismatched},
          'assumptions': spec.get('assumptions', []) + ['behaviour outside the stated bounds is not decided', 'x86-64 little-endian, clang 18 IR at -O1, libstdc++ 13; libstdc++/msgpack-c/flatbuffers header code is executed too, out-of-line libstdc++ pieces by lib/zrt.cpp'],
          'violations': [{k: v[k] for k in ('job', 'kind', 'msg', 'loc', 'replay')} for v in viols]}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('property=%s tier=%s jobs=%d paths=%d queries=%d (unsat %d) solver=%.1fs validated=%d wall=%.1fs' % (prop, tier, len(jrec), tot['paths'], tot['queries'], tot['unsat'], tot['solver_s'], validated, wall))
    for x in incomplete: print('INCOMPLETE property=%s %s' % (prop, x))
    for x in unconf: print('UNCONFIRMED property=%s %s %s: %s at %s (%s)' % (prop, x['job'], x['kind'], x['msg'], x['loc'][:300], x['native']))
    for kf, v in {k[0].get('id', k[0].get('match')): k for k in knownhits}.values(): print('KNOWN-FINDING: property=%s %s' % (prop, v['msg']))
    for v in viols:
        print('%s: %s: %s\n  at %s' % (v['job'], v['kind'], v['msg'], v['loc'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    return 1 if viols else 0

def dev():
    a = sys.argv[2:]; defs = []; pos = []; opts = []
    i = 0
    while i < len(a):
        if a[i] == '-D': defs.append(a[i + 1]); i += 2
        elif a[i].startswith('--'): opts += [a[i], a[i + 1]]; i += 2
        else: pos.append(a[i]); i += 1
    work = os.path.join(BUILD, 'dev', str(os.getpid())); os.makedirs(work, exist_ok=True)
    u = Unit(pos[0], defs, work)
    j = {'prop': 'DEV', 'n': os.getpid(), 'harness': pos[0], 'entry': pos[1], 'params': pos[2:], 'timeout': float(os.environ.get('TO', 60)), 'opts': opts, 'defs': defs}
    t = time.time(); u.bitcode(); tb = time.time() - t
    r = run_job(u, j, work, time.time() + 36000, 1)
    d = r.get('data')
    if d is None: print(r); return 3
    print('build %.1fs wall %.1fs' % (tb, r['wall']), {k: d[k] for k in ('paths', 'forks', 'insts', 'asserts', 'queries', 'unsat', 'sat', 'unknown', 'fp_queries', 'solver_s', 'max_query_s', 'rss_mb', 'exprs')})
    print('covers', d['covers']); print('incomplete', d['incomplete'], d['unknown_ext'])
    if r['log'].strip(): print('LOG', r['log'][-600:])
    for n, v in enumerate(d['violations']):
        print('VIOL', v['kind'], v['msg'], '\n   at', v['loc'][:500], '\n   ', str(v['inputs'])[:600])
        if not os.environ.get('NOCONF'): rp, o = confirm(u, j, v, work, n); print('   CONFIRMED' if rp else '   UNCONFIRMED', o[-1200:] if not rp or os.environ.get('VERB') else '')
    bad = 0
    if not os.environ.get('NOCONF'):
        for n, s in enumerate(d['samples']):
            f = os.path.join(work, 'smp%d' % n); write_inputs(f, s['inputs'])
            rc, o, _ = native_run(u, j, f)
            obs = [l[4:] for l in o.splitlines() if l.startswith('OBS ')]
            if rc != 0 or obs != s['obs']: bad += 1; print('MISMATCH', rc, s['inputs'][:10], s['obs'][:10], obs[:10], o[-800:] if rc else '')
        print('samples', len(d['samples']), 'bad', bad)
    if os.environ.get('FN'): print(json.dumps(d['functions'], indent=1))
    if not d['violations']: shutil.rmtree(work)
    return 0
if __name__ == '__main__': sys.exit(main())
