#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--jobs N] [--only SUBSTR] [--keep]

Decides one property of tools/props.py by symbolic execution of the code in /repo:
translates the current sources to LLVM IR, explores every harness of the property
with the engine, replays every counterexample (and a sample of the explored paths)
natively against the real code, and writes evidence/PROPERTY.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V + '/tools')
import normsrc, props
B = V + '/build'
NCPU = os.cpu_count() or 4
T0 = time.time()
IRF = '-O1 -Xclang -disable-llvm-passes -gline-tables-only -DVP_SYM -DFRN_VERIF -w'.split()
CXXF = '-std=gnu++17 -fno-builtin-memcmp -include cstdint -msse4.1 -maes -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-threadsafe-statics'.split()
NATF = '-std=gnu++17 -include cstdint -msse4.1 -maes -DFRN_VERIF -w -g1 -O1 -fno-omit-frame-pointer -fsanitize=address -ftrivial-auto-var-init=pattern'.split()
def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, flush=True)
def run(cmd, timeout=None, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = (e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else e.stdout) or ''
        return R
def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:20]
def tree_digest(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d): h.update(open(d, 'rb').read()); continue
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs): h.update((r + '/' + f).encode()); h.update(open(os.path.join(r, f), 'rb').read())
    return h.hexdigest()[:20]
class Build(Exception): pass
class Builder:
    """IR and native objects, cached under build/ by content."""
    def __init__(self):
        self.srcd = tree_digest(REPO + '/src'); self.tool = tree_digest(V + '/rt', V + '/shim', V + '/harness', V + '/replay', V + '/tools/check.py', V + '/tools/normsrc.py')
        self.key = digest(self.srcd, self.tool)
        self.dir = B + '/t-' + self.key; os.makedirs(self.dir, exist_ok=True)
        self.src = self.dir + '/src'; normsrc.main(REPO + '/src', self.src)
        # keep the cache small: drop the oldest trees
        ts = sorted((d for d in os.listdir(B) if d.startswith('t-') and d != 't-' + self.key), key=lambda d: os.path.getmtime(B + '/' + d))
        for d in ts[:-3]: shutil.rmtree(B + '/' + d, ignore_errors=True)
        self.cc = sorted(os.path.join(r, f) for r, _, fs in os.walk(self.src + '/frn') for f in fs if f.endswith('.cc') and not f.startswith('exp_'))
        self.rcc = [REPO + '/src' + c[len(self.src):] for c in self.cc]
        self.pool = cf.ThreadPoolExecutor(NCPU); self.fut = {}; self.locks = {}; self.lk = threading.Lock()
    def memo(self, key, fn):
        if key not in self.fut: self.fut[key] = self.pool.submit(fn)
        return self.fut[key]
    def obj(self, cmd, out):
        if os.path.exists(out): return out
        t = out + '.%d.tmp' % random.randrange(1 << 40)
        r = run(cmd + ['-o', t])
        if r.returncode: raise Build('%s\n%s' % (' '.join(cmd[-1:]), '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:3000] or r.stdout[-3000:]))
        os.replace(t, out); return out
    def ir_obj(self, f, defs=()):
        o = self.dir + '/' + digest('ir', f, defs) + '.bc'
        if f.endswith('.c'): cmd = ['clang'] + IRF + ['-ffreestanding', '-fno-builtin', '-c', '-emit-llvm', f]
        else: cmd = ['clang++'] + IRF + CXXF + list(defs) + ['-I' + V + '/harness', '-I' + V + '/shim/io', '-I' + V + '/shim/thr', '-I' + self.src, '-c', '-emit-llvm', f]
        return self.memo(o, lambda: self.obj(cmd, o))
    def nat_obj(self, f, defs=(), thr=False, san='address'):
        o = self.dir + '/' + digest('nat', f, defs, thr, san) + '.o'
        fl = [x.replace('=address', '=' + san) for x in NATF]
        cmd = ['g++'] + fl + list(defs) + ['-I' + V + '/harness'] + (['-I' + V + '/shim/thr'] if thr else []) + ['-I' + REPO + '/src', '-c', f]
        return self.memo(o, lambda: self.obj(cmd, o))
    def parts(self, j):
        cc = self.cc if j.srcs is None else [c for c in self.cc if any(s in c[len(self.src):] for s in j.srcs)]
        return cc
    def start_ir(self, j):
        for f in [V + '/rt/rtc.c', V + '/rt/rt.cc']: self.ir_obj(f)
        for f in self.parts(j): self.ir_obj(f, j.rdefs)
        self.ir_obj(V + '/harness/' + j.harness + '.cc', tuple(j.defs) + tuple(j.rdefs))
    def ir(self, j):
        fs = [self.ir_obj(V + '/rt/rtc.c'), self.ir_obj(V + '/rt/rt.cc')] + [self.ir_obj(f, j.rdefs) for f in self.parts(j)] + [self.ir_obj(V + '/harness/' + j.harness + '.cc', tuple(j.defs) + tuple(j.rdefs))]
        objs = [f.result() for f in fs]
        o = self.dir + '/' + digest('prep', objs, engine_key()) + '.bc'
        with self.lock(o):
            if not os.path.exists(o):
                r = run([ENGINE, 'prep', o + '.tmp'] + objs)
                if r.returncode: raise Build('linking the IR failed: ' + r.stdout[-2000:])
                os.replace(o + '.tmp', o)
        return o
    def lock(self, o):
        with self.lk: return self.locks.setdefault(o, threading.Lock())
    def start_native(self, j):
        self.nat_obj(V + '/replay/vprt.cc')
        for f in self.parts(j): self.nat_obj(REPO + '/src' + f[len(self.src):], j.rdefs, j.threads)
        self.nat_obj(V + '/harness/' + j.harness + '.cc', tuple(j.defs) + tuple(j.rdefs), j.threads)
    def race_exe(self, j):
        D = ('-DVP_REAL',)
        fs = [self.nat_obj(V + '/replay/vprt.cc', D, san='thread')] + [self.nat_obj(REPO + '/src' + f[len(self.src):], j.rdefs, san='thread') for f in self.parts(j)] + [self.nat_obj(V + '/harness/' + j.harness + '.cc', tuple(j.defs) + tuple(j.rdefs) + D, san='thread')]
        objs = [f.result() for f in fs]; o = self.dir + '/' + digest('exe', objs) + '.exe'
        with self.lock(o):
            if os.path.exists(o): return o
            r = run(['g++', '-fsanitize=thread', '-pthread'] + objs + ['-o', o + '.tmp'])
            if r.returncode: raise Build('linking the replay program failed: ' + r.stdout[-2000:])
            os.replace(o + '.tmp', o); return o
    def native(self, j):
        fs = [self.nat_obj(V + '/replay/vprt.cc')] + [self.nat_obj(REPO + '/src' + f[len(self.src):], j.rdefs, j.threads) for f in self.parts(j)] + [self.nat_obj(V + '/harness/' + j.harness + '.cc', tuple(j.defs) + tuple(j.rdefs), j.threads)]
        objs = [f.result() for f in fs]
        o = self.dir + '/' + digest('exe', objs) + '.exe'
        with self.lock(o):
            if os.path.exists(o): return o
            r = run(['g++', '-fsanitize=address', '-pthread'] + objs + ['-o', o + '.tmp'])
            if r.returncode: raise Build('linking the replay program failed: ' + r.stdout[-2000:])
            os.replace(o + '.tmp', o); return o
ENGINE = B + '/symir'
_ek = []
def engine_key():
    if not _ek: _ek.append(tree_digest(V + '/engine'))
    return _ek[0]
def ensure_engine():
    os.makedirs(B, exist_ok=True)
    st = B + '/symir.key'
    if os.path.exists(ENGINE) and os.path.exists(st) and open(st).read() == engine_key(): return
    log('building the engine'); r = run(['bash', V + '/engine/build.sh', ENGINE])
    if r.returncode: print(r.stdout); sys.exit(2)
    open(st, 'w').write(engine_key())
NENV = dict(os.environ, TSAN_OPTIONS='exitcode=66:halt_on_error=0', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1048576:malloc_fill_byte=183:detect_stack_use_after_return=1:max_allocation_size_mb=1000')
def write_model(path, j, v, model=None):
    with open(path, 'w') as f:
        f.write('# property %s harness %s defs %s\n# %s: %s\n' % (PID, j.harness, ' '.join(list(j.defs) + list(j.rdefs)), v.get('kind', ''), str(v.get('msg', '')).replace('\n', ' ')))
        for k, x in sorted(j.params.items()): f.write('P %s %s\n' % (k, x))
        for n, x in (model if model is not None else v['model']): f.write('V %s %s\n' % (n, x))
        if v.get('sched'): f.write('S %s\n' % ' '.join(map(str, v['sched'])))
        if v.get('lam'): f.write('L %s\n' % ' '.join(v['lam']))
        for r in (v.get('weak') or {}).get('rows', []): f.write('L %s\n' % r['lam'])
def run_native(exe, model, timeout=60):
    d = tempfile.mkdtemp(prefix='vprun')
    try:
        r = run([exe, model, d + '/out'], timeout=timeout, cwd=d, env=NENV)
        o = open(d + '/out').read() if os.path.exists(d + '/out') else ''
        return r.returncode, r.stdout[-30000:], o
    finally: shutil.rmtree(d, ignore_errors=True)
def replay_violation(bld, j, v, base):
    """returns (reproduced?, text, path)"""
    path = base + '.model'; write_model(path, j, v)
    if v['kind'] == 'race': # real threads: ThreadSanitizer has to see two unordered accesses of the code under test
        exe = bld.race_exe(j); last = ''
        for k in range(12):
            rc, txt, out = run_native(exe, path, 30); last = txt
            for rep in txt.split('WARNING: ThreadSanitizer: data race')[1:]:
                tops = [next((l for l in blk.splitlines() if re.match(r'\s+#\d+ ', l) and not re.search(r'libsanitizer| /usr/|<null>', l)), '') for blk in re.split(r'\n\s*\n', rep)[:2]]
                if sum(REPO + '/src/' in l for l in tops) == 2: return True, rep[:1500], path
        return False, 'no data race reported in 12 runs: ' + last[-300:], path
    exe = bld.native(j)
    if v['kind'] == 'leak' and v.get('weak'): # what the view says about the random values, under each hypothesis about the secrets
        W, p = v['weak'], (1 << 127) - 1 if int(j.params.get('field', 61)) == 127 else (1 << 61) - 1
        def fits(view, which): # are the random values that would explain the view possible ones?
            cand = []
            for r, x in zip(W['rows'], view):
                a = (int(x, 16) - int(r[which], 16)) % p; m, val = int(r['mask'], 16), int(r['val'], 16)
                cand.append([y for y in range(a, 1 << r['w'], p) if y & m == val])
                if not cand[-1]: return False
            pairs = {}
            for a, i, b, k in W['ties']: pairs.setdefault((a, b), []).append((i, k))
            return all(any(all(y >> i & 1 == z >> k & 1 for i, k in ps) for y in cand[a] for z in cand[b]) for (a, b), ps in pairs.items())
        good, told, n = True, 0, 8
        for k in range(n):
            rnd = random.Random(k)
            for which, mod in (('ga', v['model']), ('gb', v['model2'])):
                p3 = base + '.rnd.model'; write_model(p3, j, v, [(n_, x) if n_.startswith('secret') or int(x, 16) < 1 << 32 else (n_, '%x' % rnd.randrange(1 << 60)) for n_, x in mod]); c = run_native(exe, p3); vc = re.findall(r'^VIEW (\S+)', c[2], re.M)
                if c[0]: return c[0] not in (4, 5), 'exit code %d\n%s' % (c[0], c[1]), path
                good &= len(vc) == len(W['rows']) and fits(vc, which); told += not fits(vc, 'gb' if which == 'ga' else 'ga')
        return good and told > n, 'in %d of %d runs with fresh randomness, two choices of the secrets are told apart by what the view implies about predictable bits of the random values' % (told, 2 * n), path
    if v['kind'] == 'leak':
        p2 = base + '.other.model'; write_model(p2, j, v, v.get('model2'))
        a, b = run_native(exe, path), run_native(exe, p2)
        va = re.findall(r'^VIEW (\S+)', a[2], re.M); vb = re.findall(r'^VIEW (\S+)', b[2], re.M)
        if a[0] or b[0]: return (a[0] not in (0, 4, 5) or b[0] not in (0, 4, 5)), 'exit codes %d/%d\n' % (a[0], b[0]) + a[1], path
        # the same secrets with other randomness must give the same combination of the view
        same = True
        for k in range(3):
            rnd = random.Random(k); m3 = [(n, x) if n.startswith('secret') or int(x, 16) < 1 << 32 else (n, '%x' % rnd.randrange(1 << 60)) for n, x in v['model']]
            p3 = base + '.rnd.model'; write_model(p3, j, v, m3); c = run_native(exe, p3); vc = re.findall(r'^VIEW (\S+)', c[2], re.M)
            if c[0] == 0 and vc != va: same = False
        ok = bool(va) and bool(vb) and va != vb and same
        return ok, 'a fixed linear combination of the view is %s for one choice of secrets and %s for another, whatever the randomness' % (va, vb), path
    rc, txt, out = run_native(exe, path, 60)
    if rc == 124: return True, 'the run does not terminate within 60 s', path
    return rc not in (0, 4, 5), 'exit code %d\n%s' % (rc, txt), path
def sample_model(s): return [(k, x) for k, x in s['model'].items()]
def main():
    global PID
    a = sys.argv[1:]
    if a[0] == '--setup': ensure_engine(); return 0
    PID = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; nj = NCPU
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--only' in a: only = a[a.index('--only') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); random.seed(seed)
    ensure_engine()
    P = props.PROPS[PID]
    jobs = [j for j in P.jobs if (tier == 'thorough' or not j.thorough) and (not only or only in j.name)]
    if tier == 'thorough': jobs = [j for j in jobs if not j.quickonly]
    total = P.quick_s if tier == 'quick' else P.thorough_s
    bld = Builder(); log('%s (%s): %d jobs' % (PID, tier, len(jobs)))
    rdir = V + '/evidence/replay-' + PID; shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    results = {}; errors = []; hangs = []
    for j in jobs: bld.start_ir(j)
    def stub(why):
        d = dict.fromkeys('paths paths_assumed_away paths_error instructions forks deduped preempt_cut asserts assert_trivial assert_solver assert_unknown branch_unknown pending queries unsat sat unknown sweep_lemmas solver_time solver_max_ms terms wall'.split(), 0)
        d.update(violations=[], incomplete=1, unsupported=[], functions=[], samples=[], reach={}, notes=[why], log='')
        return d
    def one(j):
        bc = bld.ir(j)
        left = total - (time.time() - T0); bud = max(20, min(j.budget, left))
        if left <= 0: log('%-40s not run: the time for this check is used up' % j.name); return stub('not run: the time for this check was used up')
        if len(hangs) >= 4: log('%-40s not run: several jobs do not end' % j.name); return stub('not run: several other jobs met executions that do not end')
        out = '%s/%s.json' % (bld.dir, digest(j.name, PID, os.getpid()))
        cmd = [ENGINE, 'run', bc, out, 'repo=' + bld.src + '/', 'budget=%d' % bud] + ['%s=%s' % kv for kv in j.params.items()]
        r = run(['bash', '-c', 'ulimit -v %d; exec "$@"' % (j.mem << 20), 'x'] + cmd, timeout=bud + 120)
        if not os.path.exists(out):
            if r.returncode == 2 or 'no vp_main' in r.stdout: raise Build('the engine failed on %s: %s' % (j.name, r.stdout[-1500:]))
            log('%-40s no result (exit %s): out of time or memory' % (j.name, r.returncode)); errs = r.stdout[-600:]
            return stub('no result within the time and memory limits: ' + errs)
        d = json.load(open(out)); os.remove(out); d['log'] = r.stdout[-3000:]; hangs.extend(1 for v in d['violations'] if v['kind'] == 'hang')
        log('%-40s paths %-7d asserts %-8d queries %-7d viol %d %s%.1fs' % (j.name, d['paths'], d['asserts'], d['queries'], len([v for v in d['violations'] if v['kind'] != 'unsupported']), 'INCOMPLETE ' if d['incomplete'] or d['unsupported'] else '', d['wall']))
        return d
    order = sorted(jobs, key=lambda j: -j.weight)
    with cf.ThreadPoolExecutor(nj) as ex:
        futs = {ex.submit(one, j): j for j in order}
        for j in jobs: bld.start_native(j) if j.replay else None
        for f in cf.as_completed(futs):
            j = futs[f]
            try: results[j.name] = (j, f.result())
            except Build as e: errors.append((j.name, str(e))); log('ERROR', j.name, str(e)[:1500])
    # counterexamples
    viols, unrep, notes, seen = [], [], [], {}
    todo = []
    for name, (j, d) in results.items():
        for v in d['violations']:
            if v['kind'] == 'unsupported': notes.append('%s: %s' % (name, v['msg'])); d['incomplete'] = 1; continue
            todo.append((j, v))
        for n in d['notes']: notes.append('%s: %s' % (name, n))
    val, valbad = 0, []
    samples = []
    def do_samples(j, d):
        k = 0; bad = []
        exe = bld.native(j); ss = d['samples'][:j.validate]
        for i, s in enumerate(ss):
            base = '%s/sample-%s-%d' % (rdir, re.sub(r'\W+', '_', j.name), i); sm = {'model': sample_model(s), 'sched': s.get('sched'), 'kind': 'sample', 'msg': 'an explored path'}
            write_model(base + '.model', j, sm); rc, txt, out = run_native(exe, base + '.model', 120)
            if rc == 0:
                obs = re.findall(r'^OBS (\S+) (\S+)', out, re.M); want = [(n, '%x' % int(x, 16)) for n, x in s.get('obs', [])]
                if obs != want: bad.append((base + '.model', 'observed values differ: code %s, encoding %s' % (obs[:6], want[:6]), False))
                else: k += 1; os.remove(base + '.model')
            elif rc in (4, 5): bad.append((base + '.model', 'sample not accepted by the native run (%d) %s' % (rc, txt[-200:]), False))
            else: bad.append((base + '.model', 'exit code %d\n%s' % (rc, txt), True))
        return j, k, bad
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rf = []
        slow = []
        def rv(bld, j, v, base): # a few runs that do not end are enough, and a check has to answer in time
            if (v['kind'] == 'hang' and len(slow) >= 2) or time.time() - T0 > total + 250: return False, 'not replayed: enough others, or no time', base
            r = replay_violation(bld, j, v, base)
            if r[0] and v['kind'] == 'hang': slow.append(1)
            return r
        for i, (j, v) in enumerate(todo): rf.append((j, v, ex.submit(rv, bld, j, v, '%s/%s-%d' % (rdir, re.sub(r'\W+', '_', j.name), i))))
        sf = [ex.submit(do_samples, j, d) for j, d in results.values() if j.replay and d['samples'] and j.validate]
        for j, v, f in rf:
            try: ok, txt, path = f.result()
            except Build as e: errors.append((j.name, str(e))); continue
            if ok:
                viols.append((j, v, txt, path)); open(path, 'a').write(''.join('# ' + l + '\n' for l in ('engine: %s at %s' % (v['msg'], v['where'])).splitlines() + txt.splitlines()[:40]))
            else: unrep.append('%s: %s: %s — not reproduced natively, not reported (%s)' % (j.name, v['kind'], v['msg'], txt[:300].replace('\n', ' ')))
        for f in sf:
            try: j, k, bad = f.result()
            except Build as e: errors.append(('replay', str(e))); continue
            val += k
            for p, t, hard in bad:
                if hard: viols.append((j, {'kind': 'native', 'msg': 'the code fails on a path the encoding completed', 'where': ''}, t, p))
                else: valbad.append('%s: %s' % (j.name, t))
    # evidence
    R = [d for _, d in results.values()]; S = lambda k: sum(d[k] for d in R)
    fns = sorted({f for d in R for f in d['functions']})
    bounds = {j.name: j.note + (' ' if j.note else '') + ' '.join('%s=%s' % kv for kv in sorted(j.params.items())) for j in jobs}
    per = {n: {'paths': d['paths'], 'instructions': d['instructions'], 'asserts': d['asserts'], 'asserts_by_evaluation': d['assert_trivial'], 'asserts_by_solver': d['assert_solver'], 'asserts_undecided': d['assert_unknown'], 'queries': d['queries'], 'solver_s': round(d['solver_time'], 2), 'incomplete': bool(d['incomplete'] or d['unsupported']), 'reached': d['reach']} for n, (j, d) in results.items()}
    for n, (j, d) in list(results.items())[:6]:
        for s in d['samples'][:1]: samples.append({'job': n, 'model': dict(list(s['model'].items())[:40]), 'schedule': s.get('sched', [])[:60], 'constraints': s['constraints'], 'instructions': s['instructions']})
    vac = [n for n, (j, d) in results.items() if not d['violations'] and not d['reach'].get('end')]
    ev = {'property': PID, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 1), 'violations': len(viols),
          'coverage': {'states': S('paths') + S('paths_error'), 'transitions': S('instructions'), 'traces_validated_against_impl': val, 'samples': samples,
                       'explanation': 'states = symbolic paths explored to the end, transitions = IR instructions executed symbolically; every assertion on a path is decided for all values satisfying its path condition (z3), loops are unrolled as far as the paths go.',
                       'functions_encoded': fns, 'bounds': bounds, 'queries': S('queries'), 'queries_unsat': S('unsat'), 'queries_sat': S('sat'), 'queries_unknown': S('unknown'), 'sweeping_lemmas': S('sweep_lemmas'), 'solver_s': round(S('solver_time'), 2), 'assertions': S('asserts'), 'assertions_closed_by_term_normalisation': S('assert_trivial'), 'assertions_by_solver': S('assert_solver'), 'assertions_undecided': S('assert_unknown'), 'paths_cut_by_assumption': S('paths_assumed_away'), 'states_merged': S('deduped'),
                       'jobs': per, 'jobs_that_reached_the_end': len([1 for d in R if d['reach'].get('end')]), 'notes': notes[:60], 'unreproduced_counterexamples': unrep[:40], 'validation_differences': valbad[:20], 'errors': ['%s: %s' % e for e in errors][:20], 'outside_the_bounds': P.outside},
          'assumptions': props.COMMON + P.assume}
    json.dump(ev, open('%s/evidence/%s.json' % (V, PID), 'w'), indent=1)
    for n in notes[:12]: log('note:', n)
    for n in unrep[:12]: log('unreproduced:', n)
    for n in valbad[:12]: log('validation:', n)
    if vac: log('no end reached in:', ', '.join(vac))
    log('%s: %d paths, %d assertions, %d queries (%.1fs in the solver), %d traces validated' % (PID, S('paths'), S('asserts'), S('queries'), S('solver_time'), val))
    known = []
    kf = V + '/known_findings.txt'
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'known: property=(\S+) harness=(\S+) msg=(.*)$', l.strip())
            if m and m.group(1) == PID: known.append((m.group(2), m.group(3)))
    rest = []
    for j, v, txt, path in viols:
        k = [x for x in known if x[0] == j.name and x[1] == v['msg']]
        if k: print('KNOWN-FINDING: property=%s %s: %s' % (PID, j.name, v['msg']))
        else: rest.append((j, v, txt, path))
    for j, v, txt, path in rest[:10]:
        print('VIOLATION property=%s replay=%s' % (PID, path)); print('  %s: %s: %s\n  at %s' % (j.name, v['kind'], v['msg'], v.get('where', ''))); ls = txt.splitlines(); ls = [l for l in ls if re.search(r'ASSERTION|ERROR|DEADLOCK|FAILED|terminate|what\(\)', l)][:4] + ls[:10]; print('\n'.join('  | ' + l for l in ls))
    if rest: return 1
    if errors or not R or len(vac) == len(results): print('no answer: ' + '; '.join('%s: %s' % (n, e[:300]) for n, e in errors[:5])); return 2
    return 0
if __name__ == '__main__':
    rc = main(); sys.stdout.flush(); os._exit(rc)
