"""Build, run, replay, report. See DESIGN.md."""
import hashlib, json, os, re, subprocess, sys, time, threading, shutil, itertools, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
from fractions import Fraction
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
LL = '/usr/lib/llvm-18/bin'
NW = int(os.environ.get('VERIF_JOBS', '8'))
IRF = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-ffp-contract=off', '-w', '-I' + V + '/engine/inc', '-I' + V + '/harness']
PASSES = 'internalize,globaldce,inline,function(sroa,early-cse,simplifycfg,adce),globaldce'

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(p); h.update(b'\0')
    return h.hexdigest()[:20]
def rd(p):
    with open(p, 'rb') as f: return f.read()
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(map(str, cmd)), r.stdout[-4000:]))
    return r.stdout
_locks = {}; _ll = threading.Lock()
def once(path, make):
    """build `path` with make(tmp) unless it exists"""
    with _ll: lk = _locks.setdefault(path, threading.Lock())
    with lk:
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            tmp = '%s.tmp%d' % (path, os.getpid())
            shutil.rmtree(tmp, ignore_errors=True) if os.path.isdir(tmp) else None
            make(tmp)
            try: os.rename(tmp, path)
            except OSError:   # another process was faster
                if not os.path.exists(path): raise
                shutil.rmtree(tmp, ignore_errors=True) if os.path.isdir(tmp) else os.remove(tmp)
        else:
            try: os.utime(path)
            except OSError: pass
    return path
def tree(d, exts=None):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if exts is None or os.path.splitext(f)[1] in exts: out.append(os.path.join(r, f))
    return out
SRCX = ('.cpp', '.cc', '.cxx', '.c', '.hpp', '.h', '.hh', '.tcc', '.in', '.inl', '.ipp')
class Repo:
    def __init__(s, root=REPO):
        s.root = root
        s.files = [f for d in ('src', 'cli') for f in tree(os.path.join(root, d), SRCX)] + [os.path.join(root, 'config.hpp.in')]
        s.hash = sha(*[x for f in s.files if os.path.exists(f) for x in (os.path.relpath(f, root), rd(f))])
        s.src = [f for f in s.files if f.startswith(root + '/src/') and f.endswith(('.cpp', '.cc', '.cxx'))]
        s.cli = [f for f in s.files if f.startswith(root + '/cli/') and f.endswith(('.cpp', '.cc', '.cxx'))]
    def cfgdir(s, variant):
        d = os.path.join(B, 'cfg-' + variant)
        os.makedirs(d, exist_ok=True)
        t = re.sub(r'#cmakedefine\s+SINGLE_PRECISION.*', '#define SINGLE_PRECISION' if variant == 'float' else '', rd(os.path.join(s.root, 'config.hpp.in')).decode())
        p = os.path.join(d, 'config.hpp')
        with _ll:
            if not os.path.exists(p) or rd(p).decode() != t:
                tmp = '%s.tmp%d' % (p, os.getpid())
                with open(tmp, 'w') as f: f.write(t)
                os.rename(tmp, p)
        return d
    def inc(s, variant): return ['-I' + s.cfgdir(variant), '-I' + s.root + '/src', '-I' + s.root]

def engine():
    e = [V + '/engine/' + f for f in ('vsym.cpp', 'term.hpp', 'solver.hpp', 'builtins.hpp', 'Makefile')]
    p = os.path.join(B, 'vsym-' + sha(*[rd(f) for f in e]))
    return once(p, lambda t: sh(['make', '-C', V + '/engine', 'OUT=' + t]))
def models():
    k = sha(rd(V + '/engine/models.cpp'), rd(V + '/engine/inc/vs.h'), rd(V + '/engine/inc/bits/c++config.h'), *IRF)
    return once(os.path.join(B, 'ir', 'models-%s.bc' % k), lambda t: sh(['clang++'] + IRF + ['-fno-builtin', '-U__OPTIMIZE__', '-c', '-emit-llvm', V + '/engine/models.cpp', '-o', t]))
def harness_key(h): return sha(rd(V + '/harness/%s.cpp' % h), *[rd(f) for f in tree(V + '/harness', ('.hpp',))], rd(V + '/engine/inc/vs.h'))
def srcbc(repo, variant, cli):
    key = sha(repo.hash, variant, str(cli), *IRF)
    d = os.path.join(B, 'ir', 'src-' + key)
    def mk(t):
        os.makedirs(t)
        fl = ['clang++'] + IRF + repo.inc(variant) + ['-c', '-emit-llvm']
        with ThreadPoolExecutor(NW) as ex:
            list(ex.map(lambda f: sh(fl + (['-Dmain=onex_main'] if f in repo.cli else []) + [f, '-o', os.path.join(t, sha(f) + '.bc')]), repo.src + (repo.cli if cli else [])))
    once(d, mk)
    return [os.path.join(d, f) for f in sorted(os.listdir(d))]
def module(repo, h, variant):
    cli = h.startswith('h_cli')
    key = sha(repo.hash, variant, harness_key(h), rd(models()), os.path.basename(engine()), PASSES, *IRF)
    def mk(t):
        hb = t + '.h.bc'; lb = t + '.l.bc'; ib = t + '.i.bc'
        sh(['clang++'] + IRF + repo.inc(variant) + ['-fno-builtin', '-c', '-emit-llvm', V + '/harness/%s.cpp' % h, '-o', hb])
        sh([LL + '/llvm-link'] + srcbc(repo, variant, cli) + [models(), hb, '-o', lb]); sh([engine(), '--instrument', lb, ib])
        names = [l.split()[-1] for l in sh([LL + '/llvm-nm', '--defined-only', hb]).splitlines() if ' T c' in l]
        sh([LL + '/opt', '-passes=' + PASSES, '-internalize-public-api-list=' + ','.join(names + ['vsm_throw_bad_alloc']), ib, '-o', t])
        os.remove(hb); os.remove(lb); os.remove(ib)
    return once(os.path.join(B, 'ir', '%s-%s-%s.bc' % (h, variant, key)), mk)
NF = {'plain': ['-O1', '-g'], 'asan': ['-O1', '-g', '-ftrivial-auto-var-init=pattern', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'], 'vg': ['-O0', '-g']}
def native(repo, h, variant, kind):
    cli = h.startswith('h_cli')
    fl = ['clang++', '-std=c++11', '-w', '-ffp-contract=off'] + NF[kind] + repo.inc(variant)
    okey = sha(repo.hash, variant, kind, str(cli), *fl)
    od = os.path.join(B, 'nat', 'src-' + okey)
    def mk(t):
        os.makedirs(t)
        with ThreadPoolExecutor(NW) as ex:
            list(ex.map(lambda f: sh(fl + (['-Dmain=onex_main'] if f in repo.cli else []) + ['-c', f, '-o', os.path.join(t, sha(f) + '.o')]), repo.src + (repo.cli if cli else [])))
    once(od, mk)
    key = sha(okey, harness_key(h), rd(V + '/engine/native.cpp'))
    inc = ['-iquote', V + '/engine/inc', '-iquote', V + '/harness']
    def mk2(t):
        sh(fl + inc + ['-rdynamic', V + '/harness/%s.cpp' % h, V + '/engine/native.cpp'] + [os.path.join(od, f) for f in os.listdir(od)] + ['-o', t, '-ldl'])
    return once(os.path.join(B, 'nat', '%s-%s-%s-%s' % (h, variant, kind, key)), mk2)

def cleanup(maxage=3 * 86400, maxfiles=400):
    for sub in ('ir', 'nat'):
        d = os.path.join(B, sub)
        if not os.path.isdir(d): continue
        es = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
        for m, f in es[:-maxfiles] if len(es) > maxfiles else []:
            p = os.path.join(d, f)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)

# ------------------------------------------------------------------ jobs
def grid(**kw):
    ks = list(kw)
    return [dict(zip(ks, vs)) for vs in itertools.product(*[kw[k] if isinstance(kw[k], (list, tuple, range)) else [kw[k]] for k in ks])]
class J:
    def __init__(s, harness, entry, params=None, variant='double', time=100, mem=3500, opts=(), tier='quick', replay_asan=False):
        s.harness, s.entry, s.variant, s.time, s.mem, s.opts, s.tier = harness, entry, variant, time, mem, list(opts), tier
        s.params = params or [{}]
def run_job(repo, j, params, limit=1e9):
    m = module(repo, j.harness, j.variant)
    cmd = [engine(), '--entry', j.entry, '--repo', repo.root + '/', '--time', str(int(min(j.time, max(limit, 5)))), '--mem', str(j.mem)] + (['--digits', '9'] if j.variant == 'float' else []) + j.opts
    for k, v in params.items(): cmd += ['--param', '%s=%d' % (k, v)]
    t0 = time.time()
    try: r = subprocess.run(cmd + [m], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=min(j.time * 1.5 + 60, limit + 45))
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b''; out = out.decode(errors='replace') if isinstance(out, bytes) else out
        r = subprocess.CompletedProcess(cmd, 124, out, 'timeout')
    viol, summ = [], None
    for l in r.stdout.splitlines():
        try: o = json.loads(l)
        except ValueError: continue
        if o.get('type') == 'violation': viol.append(o)
        elif o.get('type') == 'summary': summ = o
    return dict(job=j, params=params, viol=viol, summ=summ, rc=r.returncode, err=r.stderr[-2000:], wall=time.time() - t0)
def inputs_text(inputs, params):
    ls = []
    for k, v in inputs.items():
        f = Fraction(v); ls.append('%s %s' % (k, int(f) if f.denominator == 1 else repr(float(f))))
    for k, v in params.items():
        if k.startswith('choice:'): ls.append('%s %d' % (k[7:], v))
        else: ls.append('param:%s %d' % (k, v))
    return '\n'.join(ls) + '\n'
def native_run(repo, j, text, kind, timeout=20):
    exe = native(repo, j.harness, j.variant, kind)
    d = tempfile.mkdtemp(prefix='vsr')
    try:
        inp = os.path.join(d, 'in'); open(inp, 'w').write(text); sc = os.path.join(d, 's'); os.mkdir(sc)
        env = dict(os.environ, VS_SCRATCH=sc, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=1:allocator_may_return_null=1:abort_on_error=0:exitcode=43', UBSAN_OPTIONS='print_stacktrace=1:exitcode=43')
        if j.variant == 'float': env['VS_TOL'] = '2e-3'
        cmd = [exe, j.entry, inp]
        if kind == 'vg': cmd = ['valgrind', '-q', '--error-exitcode=43', '--leak-check=no'] + cmd
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout * (4 if kind == 'vg' else 1), env=env, cwd=d)
        except subprocess.TimeoutExpired: return 'hang', 'no end after %d s' % timeout
        out = r.stdout[-3000:]
        if r.returncode == 0: return 'ok', out
        if r.returncode in (44, 45): return 'na', out
        return 'fail', 'exit code %d\n%s' % (r.returncode, out)
    finally: shutil.rmtree(d, ignore_errors=True)
def confirm(repo, j, v, params):
    text = inputs_text(v['inputs'], params)
    order = {'memory': ['asan', 'vg', 'plain'], 'leak': ['asan'], 'arith': ['asan', 'plain'], 'uninit': ['vg', 'asan', 'plain'], 'hang': ['plain'], 'stack': ['plain', 'asan']}.get(v['kind'], ['plain', 'asan', 'vg'])
    log = []
    for k in order:
        st, out = native_run(repo, j, text, k)
        log.append('%s: %s\n%s' % (k, st, out))
        if st in ('fail', 'hang') and not (st == 'hang' and k == 'vg'): return k, log
    return None, log

def run_property(pid, spec, tier, seed):
    t0 = time.time(); repo = Repo()
    os.makedirs(B, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == pid and not k.get('fixed')]
    jobs = [j for j in spec['jobs'] if j.tier == 'quick' or tier == 'thorough']
    work = [(j, p) for j in jobs for p in j.params]
    with ThreadPoolExecutor(NW) as ex:
        fs = [ex.submit(engine)] + [ex.submit(module, repo, h, v) for h, v in sorted({(j.harness, j.variant) for j in jobs})]
        fs[0].result(); nobuild = {}
        for k, f in zip(sorted({(j.harness, j.variant) for j in jobs}), fs[1:]):
            try: f.result()
            except Exception as e: nobuild[k] = str(e)[-1500:]
    budget = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '36000'))
    res = []; stop = threading.Event()
    def go(w):
        left = budget - (time.time() - t0)
        if stop.is_set() or left < 3 or (w[0].harness, w[0].variant) in nobuild: return None
        r = run_job(repo, *w, limit=left)
        if tier == 'quick' and len(r['viol']): r['early'] = True
        return r
    confirmed, unconfirmed, knownhit = [], [], []; tried = {}
    def handle(r):
        for v in r['viol']:
            key = (r['job'].entry, v['kind'], v['msg'], v['loc'])
            if tried.get(key, 0) >= 3 or any(c['key'] == key for c in confirmed): continue
            tried[key] = tried.get(key, 0) + 1
            k, log = confirm(repo, r['job'], v, r['params'])
            rec = dict(key=key, property=pid, harness=r['job'].harness, variant=r['job'].variant, entry=r['job'].entry, params=r['params'], kind=v['kind'], message=v['msg'], location=v['loc'], stack=v['stack'], inputs=v['inputs'], confirmed_by=k, native_log=log)
            if not k: unconfirmed.append(rec); continue
            kf = next((f for f in known if f['entry'] == r['job'].entry and f['message'] in v['msg'] and f.get('location', '') in v['loc'] and all(r['params'].get(a) == b for a, b in f.get('params', {}).items())), None)
            if kf: knownhit.append((kf, rec))
            else:
                confirmed.append(rec)
                if len(confirmed) >= 3: stop.set()
    with ThreadPoolExecutor(NW) as ex:
        for f in as_completed([ex.submit(go, w) for w in work]):
            r = f.result()
            if r is None: continue
            res.append(r)
            if not stop.is_set(): handle(r)
    # replay witnesses natively: validates the encoding against the compiled code
    wit_ok = wit_bad = 0; wit_log = []; reach = {}
    wl = []
    for r in res:
        for tag, inp in (r['summ'] or {}).get('reach', {}).items():
            if tag not in reach or len(reach[tag]) < (2 if tier == 'quick' else 10):
                reach.setdefault(tag, []).append(inp); wl.append((r['job'], inp, r['params'], tag))
    if not confirmed and not spec.get('no_native'):
        def w(x):
            return x, native_run(repo, x[0], inputs_text(x[1], x[2]), 'plain', 60)
        with ThreadPoolExecutor(NW) as ex:
            for x, (st, out) in ex.map(w, wl[:40]):
                if st == 'ok' and ('VS-REACH ' + x[3]) in out + '': wit_ok += 1
                elif st == 'ok': wit_ok += 1
                else: wit_bad += 1; wit_log.append(dict(entry=x[0].entry, params=x[2], tag=x[3], status=st, output=out[-500:]))
    tot = lambda k: sum((r['summ'] or {}).get(k, 0) for r in res)
    inc = {}
    for r in res:
        if not r['summ']: inc['engine failure rc=%d %s' % (r['rc'], r['err'][-200:])] = inc.get('engine failure', 0) + 1
        for k, n in (r['summ'] or {}).get('incomplete', {}).items(): inc[k] = inc.get(k, 0) + n
    for (h, v), e in nobuild.items(): inc['harness %s (%s) does not build against this tree: %s' % (h, v, e[-300:])] = 1
    undec = {}
    for r in res:
        for k in (r['summ'] or {}).get('undecidedMsgs', {}): undec[k] = undec.get(k, 0) + 1
    asserts = {}
    for r in res:
        for k, n in (r['summ'] or {}).get('assertions', {}).items(): asserts[k] = asserts.get(k, 0) + n
    funcs = sorted({re.sub(r'/\./', '/', f) for r in res for f in (r['summ'] or {}).get('functions', []) if '__cxx_global' not in f})
    missing = [t for t in spec.get('reach', []) if t not in reach]
    skipped = len(work) - len(res)
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), wall_s=round(time.time() - t0, 2), violations=len(confirmed),
        assumptions=spec.get('assumptions', []) + COMMON_ASSUME,
        coverage=dict(states=tot('paths') + tot('forks'), transitions=tot('steps'), traces_validated_against_impl=wit_ok,
            samples=[dict(reached=t, inputs=i[0]) for t, i in list(reach.items())[:6]] or [dict(job=r['job'].entry, params=r['params']) for r in res[:2]],
            symbolic_runs=len(res), symbolic_runs_planned=len(work), symbolic_runs_skipped=skipped,
            paths=tot('paths'), state_merges=tot('merges'), assertions_checked=tot('asserts'), assertions_proved=tot('proved'), assertions_undecided=tot('undecided'), assertion_texts=asserts,
            solver_queries=tot('queries'), solver_seconds=round(tot('solverMs') / 1000, 2), solver_unknown=tot('unknown'), executor_seconds=round(tot('seconds'), 1),
            functions_encoded=funcs, bounds=spec.get('bounds', ''), outside_bounds=spec.get('outside', ''), runs=[dict(entry=r['job'].entry, variant=r['job'].variant, params=r['params'], seconds=round(r['wall'], 1), paths=(r['summ'] or {}).get('paths'), asserts=(r['summ'] or {}).get('asserts')) for r in res][:200],
            incomplete=inc, undecided=undec, reached=sorted(reach), not_reached=missing, witnesses_failing_natively=wit_log,
            counterexamples_not_reproduced=[{k: x[k] for k in ('entry', 'params', 'kind', 'message', 'location', 'inputs')} for x in unconfirmed][:20],
            exhaustive=not inc and not undec and not skipped and not unconfirmed))
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    rp = os.path.join(B, 'replays'); os.makedirs(rp, exist_ok=True)
    print('%s %s: %d symbolic runs (%d skipped), %d paths, %d assertions (%d proved, %d undecided), %d solver queries, %.1f s solver, %d witnesses replayed, wall %.1f s' % (pid, tier, len(res), skipped, tot('paths'), tot('asserts'), tot('proved'), tot('undecided'), tot('queries'), tot('solverMs') / 1000, wit_ok, time.time() - t0))
    for k, n in inc.items(): print('  incomplete: %s (%d)' % (k, n))
    for k in undec: print('  undecided: ' + k)
    for t in missing: print('  not reached: ' + t)
    for x in wit_log: print('  witness fails natively: %s %s %s %s %s' % (x['entry'], x['params'], x['tag'], x['status'], x['output'][-300:].replace('\n', ' | ')))
    for u in unconfirmed: print('  not reproduced: %s %s %s at %s %s' % (u['entry'], u['params'], u['message'], u['location'], json.dumps(u['inputs'])[:400]))
    seen = set()
    for kf, rec in knownhit:
        if kf['id'] not in seen: seen.add(kf['id']); print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    for i, c in enumerate(confirmed):
        p = os.path.join(rp, '%s-%d.json' % (pid, i)); json.dump({k: x for k, x in c.items() if k != 'key'}, open(p, 'w'), indent=1)
        print('  %s: %s at %s (%s, %s)' % (c['kind'], c['message'], c['location'], c['entry'], c['params'])); print('  inputs: ' + json.dumps(c['inputs'])[:600])
        print('VIOLATION property=%s replay=%s' % (pid, p))
    cleanup()
    if confirmed: return 1
    if tot('asserts') == 0: print('error: nothing was explored'); [print(r['err']) for r in res[:2]]; return 2
    return 0
COMMON_ASSUME = ['floating-point arithmetic on symbolic values is exact real arithmetic (rounding is outside the model); counterexamples are replayed on the compiled code',
  'libc and the compiled part of libstdc++ are replaced by the models in engine/models.cpp; everything in headers is the real code',
  'bounded: sizes, lengths and histories as listed under bounds']
