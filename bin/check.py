#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--jobs REGEX] [--keep] [-v]

Decides property ID: compiles /repo's current sources and the property's harness to LLVM IR, executes every
harness entry symbolically (build/symex, bit-blasted to z3), replays every counterexample natively and validates
path witnesses natively.  Exit 0 held, 1 violated (VIOLATION line), 2 no answer.
"""
import sys, os, json, time, subprocess, tempfile, shutil, glob, re, signal, threading, queue
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF + '/harness')
T0 = time.time()
CXX = 'clang++'
NCPU = os.cpu_count() or 4
BASE = ('-std=gnu++20 -w -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -I%s/include -I%s/rt -I%s/harness'
        % (REPO, VERIF, VERIF)).split()
UB = 'shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,return,bool,float-cast-overflow'
IRF = ('-O1 -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fsanitize=%s -fsanitize-trap=all -emit-llvm -c' % UB).split()
ASANF = ('-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,%s -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -c' % UB).split()
LIBS = ['-lspdlog', '-lfmt', '-ldl', '-lpthread']


class Fail(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise Fail('%s\n%s' % (' '.join(cmd)[:300], r.stdout[-3000:]))
    return r.stdout


def tool(n):
    return shutil.which(n + '-18') or shutil.which(n) or '/usr/lib/llvm-18/bin/' + n


def ensure_engine():
    eng = VERIF + '/build/symex'
    srcs = glob.glob(VERIF + '/engine/*')
    if not os.path.exists(eng) or os.path.getmtime(eng) < max(os.path.getmtime(s) for s in srcs):
        os.makedirs(VERIF + '/build', exist_ok=True)
        tmp = eng + '.%d' % os.getpid()
        sh([VERIF + '/engine/build.sh', tmp])
        os.rename(tmp, eng)
    return eng


def repo_sources():
    out = []
    for r, d, f in os.walk(REPO + '/src'):
        for x in sorted(f):
            if x.endswith(('.cpp', '.cc', '.cxx')):
                p = os.path.join(r, x)
                if '/cli/' in p or '/tool/' in p:
                    continue
                out.append(p)
    return sorted(out)


class Build:
    def __init__(self, work, harness):
        self.w = work
        self.harness = harness
        self.pool = ThreadPoolExecutor(NCPU)
        self.asan_bin = None
        self.native_bin = None
        self.lock = threading.Lock()

    def unity(self):
        src = repo_sources()
        n = 8
        groups = [[] for _ in range(n)]
        load = [0] * n
        for s in sorted(src, key=lambda p: -os.path.getsize(p)):
            i = load.index(min(load))
            groups[i].append(s)
            load[i] += os.path.getsize(s) + 3000
        self.groups = [g for g in groups if g]
        us = []
        for i, g in enumerate(self.groups):
            u = '%s/u%d.cpp' % (self.w, i)
            with open(u, 'w') as f:
                for s in g:
                    f.write('#include "%s"\n' % s)
            us.append(u)
        return us

    def cc(self, src, out, flags, extra=()):
        sh([CXX] + BASE + flags + list(extra) + [src, '-o', out])

    def compile_units(self, flags, suffix):
        """unity files when they compile, otherwise one file each"""
        def one(i, u):
            out = '%s/u%d%s' % (self.w, i, suffix)
            try:
                self.cc(u, out, flags)
                return [out]
            except Fail:
                outs = []
                for j, s in enumerate(self.groups[i]):
                    o = '%s/u%d_%d%s' % (self.w, i, j, suffix)
                    self.cc(s, o, flags)
                    outs.append(o)
                return outs
        return [self.pool.submit(one, i, u) for i, u in enumerate(self.us)]

    def build_ir(self):
        self.us = self.unity()
        fs = []
        for i, h in enumerate(self.harness):
            fs.append(self.pool.submit(lambda h=h, i=i: (self.cc(h, '%s/h%d.bc' % (self.w, i), IRF), ['%s/h%d.bc' % (self.w, i)])[1]))
        nh = len(fs)
        env = self.pool.submit(lambda: self.cc(VERIF + '/rt/env.cpp', self.w + '/env.bc', IRF, ['-fno-builtin']))
        rt = self.pool.submit(lambda: self.cc(VERIF + '/rt/rt.cpp', self.w + '/rt.bc', '-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -emit-llvm -c'.split(), ['-fno-access-control', '-fno-builtin']))
        fs += self.compile_units(IRF, '.bc')
        outs = [f.result() for f in fs]
        self.bcs = [x for o in outs for x in o]
        env.result(); rt.result()
        sh([tool('llvm-link')] + self.bcs + [self.w + '/rt.bc', self.w + '/env.bc', '-o', self.w + '/full.bc'])
        return self.w + '/full.bc'

    def redefs(self):
        nm = sh([tool('llvm-nm'), '--defined-only', '--just-symbol-name', self.w + '/env.bc'])
        return [x.strip() for x in nm.split() if x.strip().startswith('__ovr_')]

    def link(self, objs, out, extra):
        red = []
        for x in self.redefs():
            red += ['--redefine-sym', '%s=%s' % (x[len('__ovr_'):], x)]
        fs = [self.pool.submit(sh, ['objcopy'] + red + [o]) for o in objs if not o.endswith(('env.o', 'nat.o'))]
        [f.result() for f in fs]
        sh([CXX, '-rdynamic', '-no-pie'] + extra + objs + LIBS + ['-o', out])

    def native(self):
        """fast native build from the same IR: replays witnesses and counterexamples"""
        with self.lock:
            if self.native_bin:
                return self.native_bin
            objs = []
            fs = []
            for b in self.bcs + [self.w + '/env.bc']:
                o = b[:-3] + '.o'
                objs.append(o)
                fs.append(self.pool.submit(sh, [CXX, '-w', '-O1', '-c', b, '-o', o]))
            fs.append(self.pool.submit(lambda: self.cc(VERIF + '/rt/native.cpp', self.w + '/nat.o', ['-O1', '-c'])))
            objs.append(self.w + '/nat.o')
            [f.result() for f in fs]
            self.link(objs, self.w + '/native', [])
            self.native_bin = self.w + '/native'
            return self.native_bin

    def asan(self):
        with self.lock:
            if self.asan_bin:
                return self.asan_bin
            fs = [self.pool.submit(lambda h=h, i=i: (self.cc(h, '%s/h%d.as.o' % (self.w, i), ASANF), ['%s/h%d.as.o' % (self.w, i)])[1]) for i, h in enumerate(self.harness)]
            fs += self.compile_units(ASANF, '.as.o')
            self.cc(VERIF + '/rt/env.cpp', self.w + '/as_env.o', ASANF)
            self.cc(VERIF + '/rt/native.cpp', self.w + '/as_nat.o', ASANF)
            objs = [x for f in fs for x in f.result()] + [self.w + '/as_env.o', self.w + '/as_nat.o']
            self.link(objs, self.w + '/native_asan', ['-fsanitize=address,undefined'])
            self.asan_bin = self.w + '/native_asan'
            return self.asan_bin


def replay_text(params, inputs):
    r = ''
    for p in params:
        r += 'param %d\n' % p
    for n, h in inputs:
        if n == '!refuse':
            r += 'refuse %d\n' % int.from_bytes(bytes.fromhex(h), 'little')
        else:
            r += 'in %s %s\n' % (n, h)
    return r


def run_native(binary, entry, path, timeout=20, fill=None):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1'
    env['UBSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:print_stacktrace=1'
    if fill is not None:
        env['REPLAY_FILL'] = str(fill)
    try:
        r = subprocess.run([binary, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return 'hang', '', ''
    out = r.stdout.decode('latin1')
    err = r.stderr.decode('latin1')
    if r.returncode == 0:
        return 'ok', out, err
    if r.returncode == 1 and 'ASSERTFAIL' in out:
        return 'assert:' + re.findall(r'ASSERTFAIL (.*)', out)[-1], out, err
    if r.returncode == 3:
        return 'uncaught', out, err
    if r.returncode == 77:
        return 'assume', out, err
    if r.returncode == 78:
        return 'mismatch', out, err
    if r.returncode == 99:
        m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)', err)
        return 'sanitizer:' + (m.group(1) if m else '?'), out, err
    if r.returncode < 0:
        return 'signal:%d' % -r.returncode, out, err
    return 'exit:%d' % r.returncode, out, err


BADRES = ('assert:', 'uncaught', 'sanitizer:', 'signal:', 'hang')


def load_known():
    out = []
    p = VERIF + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                out.append(json.loads(l))
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', default='')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--deadline', type=float, default=0)
    a = ap.parse_args()
    global J
    import jobs as J
    P = J.PROPS[a.id]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    deadline = a.deadline or (780 if tier == 'quick' else 4 * 3600)
    work = tempfile.mkdtemp(prefix='vf_%s_' % a.id, dir=os.environ.get('VERIF_WORK', '/tmp'))
    try:
        rc = run(a, P, tier, deadline, work)
    except Fail as e:
        print('ERROR: %s' % e)
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work', work)
    sys.stdout.flush()
    os._exit(rc)


def run(a, P, tier, deadline, work):
    eng = ensure_engine()
    jobs = [j for j in P['jobs'] if tier in j['tiers'] and re.search(a.jobs, j['name'])]
    jobs.sort(key=lambda j: -j['weight'])
    files = sorted(set(VERIF + '/harness/' + f for j in jobs for f in ([j['file']] if j['file'] else P['files'])))
    B = Build(work, files)
    full = B.build_ir()
    tb = time.time() - T0
    natf = ThreadPoolExecutor(1).submit(B.native)
    known = [k for k in load_known() if k.get('property') == a.id and k.get('status', 'known') == 'known']
    procs = set()
    stop = threading.Event()

    def one(idx, j):
        if stop.is_set():
            return None
        out = '%s/r%d.json' % (work, idx)
        left = deadline - (time.time() - T0)
        tmax = max(5, min(j['time'], left))
        cmd = [eng, full, '--entry', j['entry'], '--out', out, '--max-time', str(int(tmax)), '--sym-alloc', str(j['sym_alloc']), '--max-wit', str(j['wit'])]
        for p in j['params']:
            cmd += ['--param', str(p)]
        cmd += j['opts']
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        procs.add(p)
        try:
            _, err = p.communicate(timeout=tmax + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            err = b'killed: over time'
        procs.discard(p)
        try:
            return json.load(open(out))
        except Exception:
            return {'crash': err.decode('latin1')[-400:] + ' rc=%s' % p.returncode}

    res = {}
    violations, knownhits, unconfirmed, problems = [], {}, [], []
    rdir = '%s/evidence/replays/%s' % (VERIF, a.id)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    validated = 0
    samples = []
    cnt = [0]

    def handle(j, r):
        nonlocal validated
        if 'crash' in r:
            problems.append('%s: engine: %s' % (j['name'], r['crash']))
            return
        for v in r['violations']:
            kk = [k for k in known if re.fullmatch(k.get('entry', '.*'), j['entry']) and k.get('kind', v['kind']) == v['kind'] and re.fullmatch(k['label'], v['label'])
                  and ('where' not in k or re.search(k['where'], v['where']))]
            path = '%s/%s-%d.txt' % (rdir, j['name'].replace('/', '_'), cnt[0])
            cnt[0] += 1
            with open(path, 'w') as f:
                f.write('# property %s entry %s kind %s label %s\n' % (a.id, j['entry'], v['kind'], v['label']))
                f.write(''.join('# at %s\n' % l for l in v['where'].split('\n') if l))
                f.write(replay_text(j['params'], v['inputs']))
            st, o, e = run_native(natf.result(), j['entry'], path)
            if not st.startswith(BADRES):
                for fill in (None, 0, 255, 0xbe):
                    st, o, e = run_native(B.asan(), j['entry'], path, fill=fill, timeout=60)
                    if st.startswith(BADRES):
                        break
            with open(path, 'a') as f:
                f.write('# native: %s\n' % st)
            desc = '%s %s [%s] native replay: %s' % (v['kind'], v['label'], j['name'], st)
            if st.startswith(BADRES):
                if kk:
                    knownhits.setdefault(kk[0]['id'], (kk[0], path))
                else:
                    violations.append((desc, path, v))
            else:
                unconfirmed.append((desc, path, v))
        n = 0
        for w in r['witnesses']:
            if stop.is_set():
                break
            path = '%s/w.txt' % work
            with open(path, 'w') as f:
                f.write(replay_text(j['params'], w['inputs']))
            st, o, e = run_native(natf.result(), j['entry'], path)
            obs = ''.join(re.findall(r'\nOBS ([0-9a-f]*)', o))
            if st == 'ok' and obs == w['obs']:
                validated += 1
                n += 1
                if n <= 1 and len(samples) < 8:
                    samples.append({'entry': j['entry'], 'params': j['params'], 'reached': w['label'],
                                    'inputs': [[x, y[:200]] for x, y in w['inputs']][:12], 'observed': w['obs'][:160]})
            elif st.startswith(BADRES):
                vp = '%s/%s-wit%d.txt' % (rdir, j['name'].replace('/', '_'), cnt[0])
                cnt[0] += 1
                shutil.copy(path, vp)
                violations.append(('native execution of a solver-chosen path input: %s [%s]' % (st, j['name']), vp, None))
            elif w.get('refused'):
                pass
            else:
                problems.append('%s: native replay of a path witness disagrees: %s obs %s vs %s' % (j['name'], st, obs[:80], w['obs'][:80]))
                shutil.copy(path, '%s/%s-disagree.txt' % (rdir, j['name'].replace('/', '_')))
        if r['incomplete']:
            problems.append('%s: incomplete: %s' % (j['name'], r['incomplete']))
        if r['unsupported']:
            problems.append('%s: unsupported: %s' % (j['name'], list(r['unsupported'])[:3]))
        if r['unknown']:
            problems.append('%s: solver answered unknown %d times' % (j['name'], r['unknown']))
        if not r['violations']:
            for l in j['reach']:
                if not r['reach'].get(l):
                    problems.append('%s: vacuous: %s never reached' % (j['name'], l))
            if r['paths'] == 0:
                problems.append('%s: no path' % j['name'])

    with ThreadPoolExecutor(NCPU) as ex:
        fut = {ex.submit(one, i, j): j for i, j in enumerate(jobs)}
        for f in as_completed(fut):
            r = f.result()
            if r is None:
                continue
            j = fut[f]
            res[j['name']] = r
            if a.v:
                print('%-28s paths %-6s wall %-7s unsat %-5s viol %d %s %s' % (j['name'], r.get('paths'), r.get('wall_s'), r.get('unsat'), len(r.get('violations', [])), r.get('incomplete', ''), list(r.get('unsupported', {}))[:1] or r.get('crash', '')))
                sys.stdout.flush()
            handle(j, r)
            if violations and not a.all and not stop.is_set():
                stop.set()
                for p in list(procs):
                    p.kill()
    ok = [r for r in res.values() if 'crash' not in r]
    S = lambda k: sum(r[k] for r in ok)
    fns = sorted(set(x for r in ok for x in r['functions']))
    ev = {
        'property': a.id, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'model_checking',
        'coverage': {
            'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': validated, 'samples': samples[:8],
            'exhaustive': False,
            'explanation': 'symbolic execution of /repo\'s LLVM IR; states = completed symbolic paths (each stands for every input satisfying its path condition), transitions = IR instructions interpreted; within the bounds every path is explored and every assertion decided by z3',
            'jobs': {n: {'paths': r['paths'], 'queries': r['queries'], 'unsat': r['unsat'], 'sat': r['sat'], 'asserts': r['asserts'], 'assert_labels': sorted(r['assert_labels'])[:40], 'solver_s': round(r['solver_s'], 2), 'wall_s': r['wall_s']} for n, r in sorted(res.items()) if 'crash' not in r},
            'queries_discharged': S('queries'), 'queries_unsat': S('unsat'), 'queries_sat': S('sat'), 'queries_unknown': S('unknown'),
            'assertions_checked': S('asserts'), 'assertions_decided_by_simplification': S('asserts_folded'),
            'solver_s': round(S('solver_s'), 2), 'max_query_s': max([r['max_query_s'] for r in ok] or [0]),
            'forks': S('forks'), 'merged_regions': S('merges'),
            'paths_with_refused_allocation': S('refused_alloc_paths'),
            'functions_encoded': len(fns), 'functions': fns[:150],
            'bounds': P['bounds'], 'outside': P.get('outside', ''), 'build_s': round(tb, 1),
        },
        'assumptions': J.COMMON_ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(time.time() - T0, 2), 'violations': len(violations),
    }
    if not a.jobs:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, a.id), 'w') as f:
            json.dump(ev, f, indent=1)
    for k, (kf, path) in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s' % (a.id, kf['what']))
    print('%s %s: %d jobs, %d paths, %d assertions, %d queries (%d unsat), solver %.1fs, %d witnesses validated, wall %.1fs' % (a.id, tier, len(res), S('paths'), S('asserts'), S('queries'), S('unsat'), S('solver_s'), validated, time.time() - T0))
    for d, p, v in violations[:6]:
        print('VIOLATION property=%s replay=%s' % (a.id, p))
        print('  ' + d)
        if v:
            print('    at ' + ' < '.join(v['where'].split('\n')[:4]))
    if violations:
        return 1
    for d, p, v in unconfirmed[:6]:
        print('UNCONFIRMED (engine only): %s %s' % (d, p))
        print('    at ' + ' < '.join(v['where'].split('\n')[:4]))
    for p in problems[:12]:
        print('PROBLEM: ' + p)
    if unconfirmed or problems:
        return 2
    return 0


if __name__ == '__main__':
    main()
