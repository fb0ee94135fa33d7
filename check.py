#!/usr/bin/env python3
"""Solver-based checks of larsbs/id3v2lib.  usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--only ENTRY] [--keep] | --replay FILE
Every run compiles the library from the working tree to LLVM IR, executes it symbolically together with the harnesses
(engine/symx.cpp, z3), replays what the solver finds (and samples of what it did not object to) against a native build, and
writes evidence/PROPERTY.json.  exit 0: held, 1: violation, 2: no answer."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import cases as CASES
T0 = time.time()
SYMX = os.path.join(HERE, 'build', 'symx')
CLANG = 'clang'
REDEF = ['reallocarray', 'asprintf', 'vasprintf', 'aligned_alloc', 'posix_memalign', 'malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'exit']
REDEF_FS = ['fopen', 'tmpfile', 'fclose', 'fwrite', 'putc', 'fputc', 'open', 'creat', 'mkstemp', 'close', 'write', 'remove', 'unlink', 'rename', 'freopen']

def log(*a): print(*a, flush=True)
def sh(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    if r.returncode != 0: raise RuntimeError('command failed: %s\n%s%s' % (' '.join(cmd), r.stdout[-3000:], r.stderr[-3000:]))
    return r.stdout

class Build:
    """Everything is derived from the repository's working tree, in a scratch directory."""
    def __init__(self, repo, harnesses):
        self.repo = repo; self.dir = tempfile.mkdtemp(prefix='id3chk.'); self.lock = threading.Lock(); self.native_cache = {}
        self.srcs = []
        for d, dn, fs in os.walk(os.path.join(repo, 'src')):
            dn.sort()
            self.srcs += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.c')]
        if not self.srcs: raise RuntimeError('no sources in %s/src' % repo)
        self.inc = ['-I' + os.path.join(repo, 'include'), '-I' + os.path.join(repo, 'src'), '-I' + HERE + '/rt', '-I' + HERE + '/harness']
        self.harnesses = harnesses
    def cc(self, jobs):
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: sh(j), jobs))
    def bitcode(self):
        F = ['-g', '-std=gnu99', '-fno-builtin', '-w', '-emit-llvm', '-c'] + self.inc
        O0 = ['-O0', '-fno-inline', '-Xclang', '-disable-O0-optnone']
        jobs, lib = [], []
        for i, s in enumerate(self.srcs): o = '%s/lib%d.bc' % (self.dir, i); lib.append(o); jobs.append([CLANG] + O0 + F + [s, '-o', o])
        for h in self.harnesses: jobs.append([CLANG] + O0 + F + ['%s/harness/%s.c' % (HERE, h), '-o', '%s/%s.hbc' % (self.dir, h)])
        rt = []
        for r in ('fs', 'models'): o = '%s/rt_%s.bc' % (self.dir, r); rt.append(o); jobs.append([CLANG] + (['-O1', '-fno-vectorize', '-fno-unroll-loops'] if r == 'fs' else O0) + F + ['%s/rt/%s.c' % (HERE, r), '-o', o])
        self.cc(jobs)
        sh(['llvm-link-18'] + lib + ['-o', self.dir + '/lib.bc'])
        self.libfuncs = set(); names = []
        for l in sh(['llvm-nm-18', '--defined-only', self.dir + '/lib.bc']).splitlines():
            p = l.split()
            if len(p) >= 2 and p[-2] in 'Tt': self.libfuncs.add(p[-1])
            if len(p) >= 2: names.append(p[-1])
        open(self.dir + '/lib.names', 'w').write('\n'.join(names))
        for h in self.harnesses: sh(['llvm-link-18', self.dir + '/lib.bc', '%s/%s.hbc' % (self.dir, h)] + rt + ['-o', '%s/%s.bc' % (self.dir, h)])
    def module(self, h): return '%s/%s.bc' % (self.dir, h)
    def native(self, h, san, model, threads=False):
        with self.lock:
            k = (h, san, model, threads)
            if k in self.native_cache: return self.native_cache[k]
            d = '%s/n_%s_%s_%d%d' % (self.dir, h, san, model, threads); os.makedirs(d)
            S = {'asan': ['-fsanitize=address'], 'msan': ['-fsanitize=memory', '-fsanitize-memory-track-origins=1'], 'plain': []}[san]
            F = ['-g', '-O0', '-std=gnu99', '-w', '-fno-omit-frame-pointer', '-c'] + S + self.inc
            objs, jobs = [], []
            for i, s in enumerate(self.srcs + ['%s/harness/%s.c' % (HERE, h)]): o = '%s/o%d.o' % (d, i); objs.append(o); jobs.append([CLANG] + F + (['-fno-builtin', '-fsanitize-coverage=bb,no-prune,trace-pc-guard'] if threads and i < len(self.srcs) else []) + [s, '-o', o])
            jobs.append([CLANG] + F + (['-DFS_MODEL'] if model else []) + [HERE + '/rt/native.c', '-o', d + '/native.o'])
            if model: jobs.append([CLANG] + F + [HERE + '/rt/fs.c', '-o', d + '/fs.o'])
            self.cc(jobs)
            rd = ['--redefine-sym=%s=rt_%s' % (n, n) for n in REDEF]
            if model:
                names = [l.split()[-1] for l in sh(['nm', '--defined-only', d + '/fs.o']).splitlines()]
                rd += ['--redefine-sym=%s=%s' % (n[4:], n) for n in names if n.startswith('sxm_')]
            else: rd += ['--redefine-sym=%s=rt_%s' % (n, n) for n in REDEF_FS]
            self.cc([['objcopy'] + rd + [o] for o in objs])
            b = d + '/replay'; sh([CLANG] + S + objs + [d + '/native.o'] + ([d + '/fs.o'] if model else []) + ['-rdynamic', '-ldl', '-lpthread', '-o', b])
            self.native_cache[k] = b; return b
    def run_native(self, case, data, san='asan', timeout=20, sched=None):
        """-> (outcome, detail, obs, reach); outcome: ok, violation, assume, error"""
        b = self.native(case['h'], san, case.get('model', False), bool(sched)); d = tempfile.mkdtemp(dir=self.dir); w = d + '/w'; os.makedirs(w)
        open(d + '/in', 'wb').write(data); env = dict(os.environ, ASAN_OPTIONS='exitcode=66:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_segv=1:hard_rss_limit_mb=6000', MSAN_OPTIONS='exit_code=66:hard_rss_limit_mb=6000:allocator_may_return_null=1', TMPDIR=d)
        for k, v in case.get('p', {}).items(): env['SX_P_' + k] = str(v)
        if sched: env['SX_SCHED'] = ','.join(map(str, sched))
        try: r = subprocess.run(['bash', '-c', 'ulimit -s 8192; ulimit -c 0; ulimit -f 4000000;%s ' % (' ulimit -v 8000000;' if san == 'plain' else '') + 'exec "$@"', 'x', b, case['e'], d + '/in'], cwd=w, env=env, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired: shutil.rmtree(d, ignore_errors=True); return 'violation', 'does not end within %d s' % timeout, [], []
        shutil.rmtree(d, ignore_errors=True); out = r.stdout.decode('latin1'); err = r.stderr.decode('latin1')
        obs = [tuple(l.split(' ')[1:3]) if len(l.split(' ')) == 3 else (l.split(' ')[1], '') for l in out.splitlines() if l.startswith('SX-OBS ')]
        reach = sorted({l[9:] for l in out.splitlines() if l.startswith('SX-REACH ')})
        if r.returncode == 0 and 'SX-DONE' in out: return 'ok', '', obs, reach
        if r.returncode == 77: return 'assume', '', obs, reach
        if r.returncode == 9: return 'error', err[-500:], obs, reach
        m = re.search(r'SX-(ASSERT|LEAK|ABORT) .*', out) or re.search(r'(ERROR: AddressSanitizer|WARNING: MemorySanitizer)[^\n]*', err)
        return 'violation', (m.group(0) if m else 'terminated with status %d' % r.returncode), obs, reach
    def clean(self): shutil.rmtree(self.dir, ignore_errors=True)

def known_findings():
    r = []
    for l in open(HERE + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) entry=(\S+) msg="([^"]*)" (.*)', l.strip())
        if m: r.append(m.groups())
    return r

def expand(cases):
    """cases with shards become several runs"""
    out = []
    for i, c in enumerate(cases):
        n = c.get('shards', 1)
        for k in range(n): out.append((i, dict(c, shard=(k, n))))
    return out

def run_symx(b, c, n, seed, limit, dump=None):
    out = '%s/out_%d.json' % (b.dir, n); cmd = [SYMX, b.module(c['h']), '-entry', c['e'], '-time', str(limit), '-seed', str(seed), '-samples', str(c.get('samples', 4)), '-maxinstr', str(c.get('maxinstr', 30000000)), '-maxviol', str(c.get('maxviol', 6)), '-out', out, '-lib', b.dir + '/lib.names']
    for k, v in c.get('p', {}).items(): cmd += ['-p', '%s=%d' % (k, v)]
    if c['shard'][1] > 1: cmd += ['-shard', str(c['shard'][0]), str(c['shard'][1]), str(c.get('depth', 2))]
    if dump: cmd += ['-dump', dump, '12']
    p = subprocess.Popen(['bash', '-c', 'ulimit -s unlimited; ulimit -v 12000000; exec "$@"', 'x'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    PROCS.add(p)
    try: o, e = p.communicate(timeout=limit + 60)
    except subprocess.TimeoutExpired: p.kill(); o, e = p.communicate(); return {'status': 'killed', 'error': 'time'}
    finally: PROCS.discard(p)
    if p.returncode != 0 or not os.path.exists(out): return {'status': 'error', 'error': (e or o)[-800:] + ' rc=%d' % p.returncode}
    return json.load(open(out))
PROCS = set()
def data_of(inputs): return b''.join(bytes.fromhex(h) for _, h in inputs)

def confirm(b, case, v):
    """does the counterexample violate the property in the real code?"""
    data = data_of(v['inputs'])
    sans = ['msan', 'asan'] if v['kind'] == 'uninitialised' else ['asan', 'plain']
    if v['kind'] == 'stack': sans = ['plain', 'asan']
    for s in sans:
        o, d, _, _ = b.run_native(case, data, s, 20, v.get('sched'))
        if o == 'violation': return s, d
    if v['kind'] == 'uninitialised':
        o, d, _, _ = b.run_native(case, data, 'plain', 20)
        if o == 'violation': return 'plain', d
    return None, None

def save_replay(prop, case, v, san, detail):
    d = HERE + '/replays'; os.makedirs(d, exist_ok=True); data = data_of(v['inputs'])
    name = '%s_%s_%s' % (prop, case['e'], hashlib.sha1(data + v['msg'].encode()).hexdigest()[:10]); f = '%s/%s.json' % (d, name)
    json.dump({'property': prop, 'harness': case['h'], 'entry': case['e'], 'params': case.get('p', {}), 'model': case.get('model', False), 'sanitizer': san, 'kind': v['kind'], 'message': v['msg'], 'where': v['stack'], 'native': detail, 'inputs': v['inputs'], 'data': data.hex(), 'schedule': v.get('sched', [])}, open(f, 'w'), indent=1)
    return f

def replay(f, repo):
    r = json.load(open(f)); c = {'h': r['harness'], 'e': r['entry'], 'p': r['params'], 'model': r['model']}; b = Build(repo, [c['h']])
    try: o = b.run_native(c, bytes.fromhex(r['data']), r['sanitizer'], 20, r.get('schedule'))
    finally: b.clean()
    log(o[0], o[1]); return 1 if o[0] == 'violation' else 0

def cvc5_check(d):
    """a second solver on queries of this run"""
    n = same = 0
    for f in sorted(os.listdir(d))[:40] if os.path.isdir(d) else []:
        if not f.endswith('.smt2'): continue
        m = re.search(r'_(sat|unsat)\.smt2$', f)
        if not m: continue
        r = subprocess.run(['cvc5', '--tlimit=20000', d + '/' + f], capture_output=True, text=True); a = r.stdout.strip().splitlines()
        if a and a[0] in ('sat', 'unsat'): n += 1; same += a[0] == m.group(1)
    return n, same

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--only'); ap.add_argument('--replay'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--no-evidence', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay: return replay(a.replay, a.repo)
    P = CASES.PROPS[a.prop]; tier = 'thorough' if a.tier == 'thorough' else 'quick'; seed = int(os.environ.get('VERIF_SEED') or 1)
    cs = [c for c in P['cases'] if tier in c.get('tiers', ('quick', 'thorough'))]
    if a.only: cs = [c for c in cs if c['e'] in a.only.split(',')]
    deadline = T0 + (820 if tier == 'quick' else P.get('thorough_s', 3000))
    if not os.path.exists(SYMX): os.makedirs(HERE + '/build', exist_ok=True); sh(['make', '-s', '-C', HERE + '/engine', 'OUT=' + HERE + '/build'])
    ev = HERE + '/evidence/%s.json' % a.prop
    b = Build(a.repo, sorted({c['h'] for c in cs})); rc = 2; problems = []; confirmed = []; known = {}; results = []; validated = 0; mismatches = []; cross = (0, 0); samples = []
    KF = known_findings(); stop = threading.Event()
    try:
        b.bitcode(); runs = expand(cs)
        runs.sort(key=lambda r: -r[1].get('cost', 1))
        def one(n, i, c):
            nonlocal validated
            if stop.is_set(): return
            limit = min(c.get('limit', 700 if tier == 'quick' else 2400), deadline - time.time() - 30)
            if limit < 5: problems.append('%s: no time left' % c['e']); return
            dump = '%s/q%d' % (b.dir, n) if tier == 'thorough' else None
            if dump: os.makedirs(dump)
            r = run_symx(b, c, n, seed, limit, dump); tag = '%s %s%s' % (c['e'], c.get('p', {}) or '', ' shard %d/%d' % c['shard'] if c['shard'][1] > 1 else '')
            if r['status'] == 'error' or r['status'] == 'killed':
                if not stop.is_set(): problems.append('%s: %s' % (tag, r['error'].strip()))
                return
            results.append((i, c, r))
            if a.v: log('  %-50s %s paths=%d instr=%d q=%d z3=%d %.1fs viol=%d' % (tag, r['status'], r['paths'], r['instructions'], r['queries'], r['z3_queries'], r['wall_s'], len(r['violations'])))
            for v in r['violations']:
                if stop.is_set(): return
                if v['msg'].startswith('model:'): problems.append('%s: beyond the model: %s' % (tag, v['msg'])); continue
                k = [x for x in KF if x[0] == a.prop and x[1] == c['e'] and x[2] == v['msg']]
                san, detail = confirm(b, c, v)
                if san is None: problems.append('%s: counterexample not confirmed natively: %s %s at %s input %s' % (tag, v['kind'], v['msg'], v['stack'][:3], data_of(v['inputs']).hex()[:200])); continue
                if k: known[k[0]] = detail; continue
                confirmed.append((c, v, san, detail)); f = save_replay(a.prop, c, v, san, detail)
                log('violation: %s: %s: %s at %s; native (%s): %s' % (tag, v['kind'], v['msg'], v['stack'][:2], san, detail)); log('VIOLATION property=%s replay=%s' % (a.prop, f))
                stop.set()
                for p in list(PROCS):
                    try: p.kill()
                    except OSError: pass
                return
            if r['status'] != 'complete' and not (r['status'].startswith('stopped') and c.get('known')): problems.append('%s: incomplete (%s, %d paths pending)' % (tag, r['status'], r['pending']))
            # samples of the paths the solver did not object to, on the native build
            for s in r['samples'][:c.get('replays', 6)]:
                if stop.is_set() or r['violations']: break
                o, d, obs, reach = b.run_native(c, data_of(s['inputs']), 'asan', 60, s.get('sched'))
                want = [tuple(x) for x in s['obs']]
                if o == 'ok' and obs == want and reach == sorted(set(s['reach'])): validated += 1
                else: mismatches.append('%s: native %s %s obs %s want %s reach %s want %s input %s' % (tag, o, d, obs, want, reach, s['reach'], data_of(s['inputs']).hex()[:300]) + (' schedule %s' % s['sched'] if s.get('sched') else ''))
            for s in r['samples'][:1]: samples.append({'entry': c['e'], 'params': c.get('p', {}), 'inputs': [[n_, h[:80]] for n_, h in s['inputs']][:12], 'reached': s['reach']})
            if dump:
                nonlocal cross
                x = cvc5_check(dump); cross = (cross[0] + x[0], cross[1] + x[1]); shutil.rmtree(dump, ignore_errors=True)
                if x[0] != x[1]: problems.append('%s: cvc5 disagrees with z3 on %d queries' % (tag, x[0] - x[1]))
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(one, n, i, c) for n, (i, c) in enumerate(runs)]
            for f in fs: f.result()
        # vacuity: every expected situation was reached by some path
        for i, c in enumerate(cs):
            if stop.is_set() or c.get('known'): continue
            got = set(); seen = False
            for j, _, r in results:
                if j == i: seen = True; got |= set(r['reach'])
            miss = set(c.get('reach', ['done'])) - got
            if seen and miss: problems.append('%s: never reached: %s' % (c['e'], ', '.join(sorted(miss))))
        problems += ['encoding and native run differ: ' + m for m in mismatches]
        rc = 1 if confirmed else 2 if problems else 0
        for k in known: log('KNOWN-FINDING: property=%s %s' % (a.prop, k[3]))
        for p in problems:
            if rc != 1: log('problem: ' + p)
    except Exception as e:
        log('error: %s' % e); problems.append(str(e))
    finally:
        S = lambda k: sum(r[k] for _, _, r in results)
        funcs = {}
        for _, _, r in results:
            for f, n in r['functions'].items():
                if f in getattr(b, 'libfuncs', ()): funcs[f] = funcs.get(f, 0) + n
        labels = {}
        for _, _, r in results:
            for l, n in r['reach'].items(): labels[l] = labels.get(l, 0) + n
        cov = {'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': validated, 'samples': samples[:8] or [{'note': 'none'}],
               'exhaustive': bool(results) and not problems and not confirmed,
               'runs': [{'entry': c['e'], 'bounds': dict(c.get('p', {})), 'what': c.get('what', ''), 'shard': '%d/%d' % (c['shard'][0] + 1, c['shard'][1]), 'status': r['status'], 'paths': r['paths'], 'forks': r['forks'], 'instructions': r['instructions'], 'queries': r['queries'], 'solver_queries': r['z3_queries'], 'solver_s': r['solver_s'], 'assertions_checked': r['asserts'], 'input_bytes': r['max_input_bytes'], 'wall_s': r['wall_s'], 'violations': r['violations_total']} for _, c, r in results],
               'queries': S('queries'), 'solver_queries': S('z3_queries'), 'sat': S('sat'), 'unsat': S('unsat'), 'solver_s': round(S('solver_s'), 3), 'assertions_checked': S('asserts'), 'memory_checks': S('checks'),
               'functions_encoded': funcs, 'situations_reached': labels, 'bounds': P['bounds'][tier] if isinstance(P['bounds'], dict) else P['bounds'], 'outside': P['outside'], 'cross_checked_with_cvc5': {'queries': cross[0], 'agreed': cross[1]}, 'problems': problems}
        if not a.no_evidence and not a.only:
            os.makedirs(HERE + '/evidence', exist_ok=True)
            json.dump({'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': CASES.ASSUMPTIONS + P.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': len(confirmed)}, open(ev, 'w'), indent=1)
        if not a.keep: b.clean()
        else: log('kept', b.dir)
    log('%s %s: %s; %d paths, %d instructions, %d queries (%d to z3, %.1f s), %d native replays, %.1f s' % (a.prop, tier, {0: 'held', 1: 'VIOLATED', 2: 'no answer'}[rc], S('paths'), S('instructions'), S('queries'), S('z3_queries'), S('solver_s'), validated, time.time() - T0))
    return rc
if __name__ == '__main__': sys.exit(main())
