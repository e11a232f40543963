#!/usr/bin/env python3
"""Driver: compiles /repo's current sources and a property's harnesses to LLVM bitcode, has the symbolic executor
(engine/) decide them with Z3, replays every counterexample against the natively built code, and writes the evidence.

  vp.py setup                 build the engine
  vp.py check ID [--tier quick|thorough]
"""
import sys, os, json, hashlib, subprocess, time, shutil, tempfile, glob, re, signal
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
NCPU = os.cpu_count() or 4
sys.path.insert(0, ROOT)
import checks  # noqa: E402

CLANG, LINK = 'clang++-18', 'llvm-link-18'
CXX17 = ['-std=c++17', '-D_GLIBCXX_ASSERTIONS', '-w', '-I' + ROOT + '/include', '-I' + ROOT + '/harness', '-I' + REPO + '/include']
BCFLAGS = CXX17 + ['-fno-pie', '-fno-pic', '-O1', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c']
NATFLAGS = CXX17 + ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-allocation-dce', '-c']


class Inconclusive(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        fs = [d] if os.path.isfile(d) else sorted(f for f in glob.glob(d + '/**/*', recursive=True) if os.path.isfile(f))
        for f in fs:
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()


def engine():
    exe = os.path.join(BUILD, 'vpsym'); key = tree_hash(ROOT + '/engine')
    stamp = exe + '.key'
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='eng', dir=BUILD)
    try:
        def one(n):
            r = sh(['g++', '-std=c++17', '-O2', '-I/usr/lib/llvm-18/include', '-c', f'{ROOT}/engine/{n}.cpp', '-o', f'{tmp}/{n}.o'])
            if r.returncode:
                raise Inconclusive('engine does not build: ' + r.stderr[:2000])
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, ['expr', 'module', 'exec']))
        r = sh(['g++'] + [f'{tmp}/{n}.o' for n in ('expr', 'module', 'exec')] + ['-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-o', f'{tmp}/vpsym'])
        if r.returncode:
            raise Inconclusive('engine does not link: ' + r.stderr[:2000])
        os.replace(f'{tmp}/vpsym', exe)
        open(stamp, 'w').write(key)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


CORE = ['actor_base', 'address_mapping', 'error_code', 'extended_error', 'handler', 'message', 'message_stringifier', 'messages', 'registry', 'spawner',
        'subscription', 'subscription_point', 'supervisor', 'system_context']


def repo_sources(backends):
    src = REPO + '/src/rotor'
    fs = sorted(glob.glob(src + '/*.cpp') + glob.glob(src + '/plugin/*.cpp') + glob.glob(src + '/detail/*.cpp') + glob.glob(src + '/misc/*.cpp'))
    for b in backends:
        fs += sorted(glob.glob(f'{src}/{b}/*.cpp'))
    return fs


_inc_key = None


def inc_key():
    global _inc_key
    if _inc_key is None:
        _inc_key = tree_hash(REPO + '/include', ROOT + '/include', ROOT + '/harness', ROOT + '/rt', ROOT + '/engine/race.h')
    return _inc_key


def compile_one(job):
    """(source, flags, extension) -> object in the cache, which is keyed by everything the object is made from"""
    src, flags, ext, cxx = job
    h = hashlib.sha256()
    h.update(inc_key().encode()); h.update(' '.join([cxx] + flags).encode()); h.update(src.encode()); h.update(open(src, 'rb').read())
    out = os.path.join(BUILD, 'cache', h.hexdigest()[:40] + ext)
    if os.path.exists(out):
        try:
            os.utime(out)
        except OSError:
            pass
        return out, None
    tmp = out + f'.{os.getpid()}.tmp'
    r = sh([cxx] + flags + [src, '-o', tmp])
    if r.returncode:
        return None, f'{src}: {r.stderr[:3000]}'
    os.replace(tmp, out)
    return out, None


def compile_all(jobs):
    os.makedirs(os.path.join(BUILD, 'cache'), exist_ok=True)
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(compile_one, jobs))
    errs = [e for _, e in res if e]
    if errs:
        raise Inconclusive('compilation failed: ' + '\n'.join(errs)[:6000])
    return [o for o, _ in res]


def prune_cache(limit=3 << 30):
    fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(BUILD + '/cache/*')]
    tot = sum(x[1] for x in fs)
    for _, sz, f in sorted(fs):
        if tot <= limit:
            break
        try:
            os.remove(f)
        except OSError:
            pass
        tot -= sz


class Harness:
    def __init__(self, prop, h, tier):
        self.prop, self.h, self.tier = prop, h, tier
        self.name = h['name']
        self.defs = ['-DVP_THOROUGH=%d' % (tier == 'thorough')] + ['-D' + d for d in h.get('defs', [])]
        self.incs = [f.replace('@', ROOT) for f in h.get('flags', [])]
        self.backends = h.get('backends', [])
        self.src = [ROOT + '/harness/' + s for s in h['src']]
        self.extra_repo = [REPO + '/' + s for s in h.get('repo_src', [])]
        self.threads = h.get('threads', False)

    def opt(self, k, d=None):
        v = self.h.get(k, d)
        if isinstance(v, dict):
            v = v[self.tier]
        return v

    def bc_jobs(self):
        fl = self.incs + BCFLAGS
        jobs = [(f, fl, '.bc', CLANG) for f in repo_sources(self.backends) + self.extra_repo]
        jobs += [(f, self.defs + fl, '.bc', CLANG) for f in self.src]
        jobs += [(ROOT + '/rt/runtime.cpp', BCFLAGS + ['-fno-builtin'], '.bc', CLANG)]
        return jobs

    def nat_jobs(self):
        if self.threads:  # the bitcode itself is instrumented and compiled
            plain = CXX17 + ['-O1', '-g', '-c']
            return [(ROOT + '/rt/native.cpp', ['-DVP_THREADS=1'] + plain, '.o', 'g++'), (ROOT + '/rt/native_threads.cpp', plain, '.o', 'g++')]
        fl = self.incs + NATFLAGS
        jobs = [(f, fl, '.o', 'g++') for f in repo_sources(self.backends) + self.extra_repo]
        jobs += [(f, self.defs + ['-DVP_NATIVE=1'] + fl, '.o', 'g++') for f in self.src]
        jobs += [(ROOT + '/rt/native.cpp', NATFLAGS, '.o', 'g++')]
        return jobs

    def link_bc(self, work):
        objs = compile_all(self.bc_jobs())
        self.bc = f'{work}/{self.name}.bc'
        r = sh([LINK] + objs + ['-o', self.bc])
        if r.returncode:
            raise Inconclusive('llvm-link: ' + r.stderr[:3000])

    def link_native(self, work):
        objs = compile_all(self.nat_jobs())
        self.exe = f'{work}/{self.name}.exe'
        cmds = []
        if self.threads:
            b = f'{work}/{self.name}'
            cmds += [[LINK] + compile_all(self.bc_jobs()[:-1]) + ['-o', b + '.n.bc'], [engine(), '--instrument', b + '.n.bc', b + '.i.bc'] + ([self.opt('quiet')] if self.opt('quiet') else []),
                     [CLANG, '-w', '-O1', '-c', b + '.i.bc', '-o', b + '.i.o'], [CLANG, '-no-pie', b + '.i.o'] + objs + ['-o', self.exe, '-lpthread']]
        else:
            cmds += [['g++', '-fsanitize=address'] + objs + ['-o', self.exe, '-lpthread']]
        for cmd in cmds:
            r = sh(cmd)
            if r.returncode:
                raise Inconclusive('native link: ' + r.stderr[:3000])

    def run_engine(self, exe, work, budget):
        out = f'{work}/{self.name}.out'
        cmd = [exe, self.bc, '--out', out, '--workers', str(NCPU), '--max-time', str(int(budget)), '--repo', REPO + '/', '--seed', os.environ.get('VERIF_SEED', '1')]
        for k, o in (('preempt', '--preempt'), ('samples', '--samples'), ('max_instr', '--max-instr'), ('max_depth', '--max-depth'), ('frontier', '--frontier'), ('quiet', '--quiet')):
            v = self.opt(k)
            if v is not None and v != '':
                cmd += [o, str(v)]
        if self.h.get('no_atomic_sched'):
            cmd += ['--no-atomic-sched']
        # the memory of each worker is bounded: running out is an inconclusive result, never a pass
        pre = ['bash', '-c', 'ulimit -v 12000000; exec "$@"', 'x']
        t = time.time()
        r = sh(pre + cmd, timeout=budget + 120)
        self.wall = time.time() - t
        res = {}
        files = sorted(glob.glob(out + '.*'))
        if r.returncode or not files:
            res['crash'] = f'engine failed ({r.returncode}): {r.stderr[-3000:]}'
        sums = ['paths', 'infeasible', 'forks', 'instrs', 'limit', 'errors', 'branches', 'checks', 'checks_symbolic', 'left', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'solver_s']
        for k in sums:
            res[k] = 0
        maps = {k: {} for k in ('reached', 'engine_errors', 'check_counts')}
        viols, fns, lines, samples, hashes, timeout, smax = {}, set(), {}, [], set(), False, 0
        for f in files:
            d = json.load(open(f))
            for k in sums:
                res[k] += d[k]
            for k in maps:
                for a, b in d[k].items():
                    maps[k][a] = maps[k].get(a, 0) + b
            for v in d['violations']:
                viols.setdefault(v['key'], []).append(v)
            fns |= set(d['functions']); timeout = timeout or d['timeout']; smax = max(smax, d['solver_max_s'])
            for a, b in d['lines'].items():
                lines.setdefault(a, set()).update(b)
            samples += d['samples']; hashes |= set(d['trace_hashes'])
        res.update(maps); res.update(violations=viols, functions=fns, lines=lines, samples=samples, traces=len(hashes), timeout=timeout, solver_max_s=smax)
        self.res = res
        return res

    def native(self, inputs, work, tag, timeout=30):
        """runs the natively compiled harness on the given inputs; returns (class, message, log)"""
        fi, fl = f'{work}/{self.name}.{tag}.in', f'{work}/{self.name}.{tag}.log'
        open(fi, 'w').write(''.join(f'{v} {n}\n' for n, v in inputs))
        if os.path.exists(fl):
            os.remove(fl)
        env = dict(os.environ, VP_INPUTS=fi, VP_LOG=fl, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1', ROTOR_INSPECT_DELIVERY='0')
        env.pop('ROTOR_INSPECT_DELIVERY')
        env['VP_PREEMPT'] = str(self.opt('preempt', 2))
        try:
            r = sh([self.exe], timeout=timeout, env=env, cwd=work)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            return 'timeout', 'the program does not end', []
        log = []
        if os.path.exists(fl):
            for l in open(fl):
                p = l.rsplit(None, 1)
                if len(p) == 2 and p[0] != 'END':
                    log.append([p[0], int(p[1])])
        if rc == 0:
            return 'ok', '', log
        if rc == 42:
            m = re.search(r'VPCHECK: (.*)', err)
            return 'check', m.group(1) if m else '', log
        if rc in (43, 44):
            m = re.search(r'(DIVERGED|ASSUME): (.*)', err)
            return 'diverged', m.group(0) if m else '', log
        if rc == 45:
            m = re.search(r'DEADLOCK.*', err)
            return 'deadlock', m.group(0) if m else '', log
        if rc == 46:
            m = re.search(r'RACE: (.*)', err)
            return 'race', m.group(1) if m else '', log
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|ERROR: replay[^\n]*|[^\n]*Assertion[^\n]*failed[^\n]*|terminate called[^\n]*|pure virtual[^\n]*)', err)
        return 'crash', (m.group(1) if m else f'exit {rc}: {err[-300:]}').strip(), log


def load_known():
    p = ROOT + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def matches_known(k, prop, harness, v):
    if k['property'] != prop:
        return False
    if k.get('harness') and k['harness'] != harness:
        return False
    if k.get('kind') and k['kind'] != v['kind']:
        return False
    if k.get('msg') and not re.search(k['msg'], v['msg']):
        return False
    if k.get('stack') and not any(re.search(k['stack'], s) for s in v['stack']):
        return False
    for n, val in k.get('inputs', {}).items():
        got = [x[1] for x in v['inputs'] if x[0] == n]
        if not got or (got[0] not in val if isinstance(val, list) else got[0] != val):
            return False
    return True


def check(prop, tier):
    t0 = time.time()
    spec = checks.CHECKS[prop]
    known = load_known()
    total = spec.get('budget', {}).get(tier, 240 if tier == 'quick' else 780)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp-' + prop + '-')
    problems, confirmed, unconfirmed, findings = [], [], [], []
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': {}, 'assumptions': spec['assumptions'] + checks.COMMON_ASSUMPTIONS, 'violations': []}
    agg = {}; per = {}; fns = set(); lines = {}; validated = 0; mism = 0; samples_out = []; queries_by = {}
    try:
        exe = engine()
        hs = [Harness(prop, h, tier) for h in spec['harnesses'] if tier in h.get('tiers', ['quick', 'thorough'])]
        compile_all(list({(j[0], ' '.join(j[1])): j for h in hs for j in h.bc_jobs() + h.nat_jobs()}.values()))
        for h in hs:
            h.link_bc(work)
            left = total - (time.time() - t0)
            if left < 5:
                problems.append(f'{h.name}: no time left'); continue
            res = h.run_engine(exe, work, min(left, h.opt('budget', 600)))
            for k in ('paths', 'infeasible', 'forks', 'instrs', 'branches', 'checks', 'checks_symbolic', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'solver_s', 'traces'):
                agg[k] = agg.get(k, 0) + res[k]
            agg['solver_max_s'] = max(agg.get('solver_max_s', 0), res['solver_max_s'])
            fns |= res['functions']
            for a, b in res['lines'].items():
                lines.setdefault(a, set()).update(b)
            per[h.name] = {'bounds': h.h.get('bounds', ''), 'paths': res['paths'], 'instructions': res['instrs'], 'queries': res['queries'], 'sat': res['sat'], 'unsat': res['unsat'], 'solver_s': round(res['solver_s'], 3), 'checks_evaluated': res['checks'], 'distinct_traces': res['traces'],
                           'symbolic_branches': res['branches'], 'wall_s': round(h.wall, 2), 'checks': res['check_counts'], 'witnesses': res['reached'], 'exhausted': not (res['left'] or res['timeout'])}
            if res.get('crash'):
                problems.append(f'{h.name}: {res["crash"]}')
            for e, n in res['engine_errors'].items():
                problems.append(f'{h.name}: engine: {e} (x{n})')
            if res['unknown']:
                problems.append(f'{h.name}: {res["unknown"]} solver queries undecided')
            if res['violations'] or res['samples']:
                h.link_native(work)
            fatal = False
            for key, vs in res['violations'].items():
                ok = None
                tries = 0
                for v in vs[:4]:
                    rounds = 6 if v['kind'] != 'non-termination' else 1
                    for i in range(rounds):
                        tries += 1
                        kind, msg, _ = h.native(v['inputs'], work, 'v', 25)
                        if kind in ('check', 'crash', 'timeout', 'deadlock', 'race') and not (v['kind'] == 'check' and kind == 'check' and msg != v['msg']):
                            ok = (v, kind, msg); break
                        last = (kind, msg)
                    if ok:
                        break
                v = vs[0]
                rec = {'harness': h.name, 'kind': v['kind'], 'msg': v['msg'], 'inputs': v['inputs'], 'stack': v['stack'][:12]}
                if ok:
                    v = ok[0]
                    rec.update(inputs=v['inputs'], stack=v['stack'][:12], native=f'{ok[1]}: {ok[2]}')
                    kf = [k for k in known['findings'] if matches_known(k, prop, h.name, v)]
                    if kf:
                        findings.append((kf[0], rec))
                    else:
                        confirmed.append(rec); fatal = True
                else:
                    rec['native'] = f'{last[0]}: {last[1]}'
                    unconfirmed.append(rec)
                    problems.append(f'{h.name}: counterexample not reproduced natively: {v["kind"]}: {v["msg"]} inputs={v["inputs"]} native={last}')
            # the encoding is validated against the real build: sampled paths must behave identically
            if not fatal and not res['violations']:
                sm = res['samples'][:: max(1, len(res['samples']) // spec.get('validate', 24))][:spec.get('validate', 24)]
                with ThreadPoolExecutor(NCPU) as ex:
                    outs = list(ex.map(lambda p: h.native(p[1]['inputs'], work, f's{p[0]}'), enumerate(sm)))
                for s, (kind, msg, log) in zip(sm, outs):
                    if kind == 'ok' and (log == [list(x) for x in s['log']] or h.h.get('unordered') and sorted(log) == sorted([list(x) for x in s['log']])):
                        validated += 1
                    else:
                        mism += 1
                        problems.append(f'{h.name}: a path behaves differently in the native build: inputs={s["inputs"]} engine={s["log"][:40]} native={kind} {msg} {log[:40]}')
                for s in sm[:6]:
                    samples_out.append({'harness': h.name, 'inputs': s['inputs'][:40], 'trace': s['log'][:40], 'path_condition': s['cond'][:600]})
            if (res['left'] or res['timeout']) and not fatal:
                problems.append(f'{h.name}: exploration not finished within the budget ({res["left"]} states left)')
            for w in h.h.get('witness', ['end']):
                if not res['reached'].get(w) and not res['violations']:
                    problems.append(f'{h.name}: witness `{w}\' is never reached: the check would be vacuous')
            for c in h.h.get('must_check', []):
                if not res['check_counts'].get(c) and not res['violations']:
                    problems.append(f'{h.name}: assertion `{c}\' is never evaluated')
            if fatal:
                break
    except Inconclusive as e:
        problems.append(str(e))
    except subprocess.TimeoutExpired as e:
        problems.append('timeout: ' + str(e)[:300])
    rc = 0
    for kf, rec in findings:
        print(f'KNOWN-FINDING: property={prop} {kf["title"]}')
    if confirmed:
        rc = 1
        for i, rec in enumerate(confirmed):
            path = f'{ROOT}/evidence/{prop}.replay{i}.json'
            json.dump(dict(rec, property=prop), open(path, 'w'), indent=1)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  {rec["harness"]}: {rec["kind"]}: {rec["msg"]}')
            print(f'  native: {rec["native"]}')
            print(f'  inputs: {rec["inputs"]}')
            for s in rec['stack'][:8]:
                print('    ' + s)
    elif problems:
        rc = 2
    for p in problems:
        print('INCONCLUSIVE: ' + p)
    nlines = {a.replace(REPO + '/', ''): len(b) for a, b in sorted(lines.items()) if REPO + '/' in a or a.startswith(REPO)}
    ev['coverage'] = {'states': agg.get('forks', 0) + agg.get('paths', 0), 'transitions': agg.get('instrs', 0), 'traces_validated_against_impl': validated, 'samples': samples_out or [{'note': 'no completed path'}],
                      'paths': agg.get('paths', 0), 'distinct_traces': agg.get('traces', 0), 'functions_encoded': len(fns), 'functions': sorted(fns), 'repo_lines_executed': nlines,
                      'solver': {'name': 'z3 4.8.12 (QF_BV)', 'queries': agg.get('queries', 0), 'sat': agg.get('sat', 0), 'unsat': agg.get('unsat', 0), 'unknown': agg.get('unknown', 0), 'cache_hits': agg.get('cache_hits', 0), 'time_s': round(agg.get('solver_s', 0), 3), 'max_query_s': agg.get('solver_max_s', 0)},
                      'checks_evaluated': agg.get('checks', 0), 'checks_sent_to_solver': agg.get('checks_symbolic', 0), 'harnesses': per, 'trace_mismatches': mism,
                      'inconclusive': problems, 'known_findings': [k['title'] for k, _ in findings]}
    ev['violations'] = [{'harness': c['harness'], 'kind': c['kind'], 'msg': c['msg'], 'inputs': c['inputs'], 'native': c['native']} for c in confirmed]
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(f'{ROOT}/evidence/{prop}.json', 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    prune_cache()
    c = ev['coverage']
    print(f'{prop} {tier}: {"PASS" if rc == 0 else "VIOLATION" if rc == 1 else "INCONCLUSIVE"} paths={c["paths"]} instructions={c["transitions"]} queries={c["solver"]["queries"]} (sat {c["solver"]["sat"]}, unsat {c["solver"]["unsat"]}) solver={c["solver"]["time_s"]}s checks={c["checks_evaluated"]} validated={validated} wall={ev["wall_s"]}s')
    return rc


if __name__ == '__main__':
    if len(sys.argv) >= 2 and sys.argv[1] == 'setup':
        try:
            engine()
            import itertools
            for b in [[]]:
                pass
        except Inconclusive as e:
            print(e); sys.exit(2)
        sys.exit(0)
    if len(sys.argv) >= 3 and sys.argv[1] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in sys.argv:
            tier = sys.argv[sys.argv.index('--tier') + 1]
        sys.exit(check(sys.argv[2], tier))
    print(__doc__); sys.exit(2)
