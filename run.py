#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current sources.

  run.py <ID> [quick|thorough]

1. compiles the library sources of /repo's working tree (plus the harness checks/<ID>.c and the libc model
   engine/rt.c) to LLVM IR, links them;
2. runs the symbolic executor (engine/symex.cpp, SMT back end: z3) on every job (entry + bound) of the harness,
   8 in parallel;
3. builds the same sources natively (clang, AddressSanitizer) and replays every counterexample, and some witnesses
   of explored paths; only a counterexample that fails on the native build is reported;
4. writes evidence/<ID>.json.
Exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import sys, os, re, json, subprocess, hashlib, itertools, time, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
T0 = time.time()
IRFLAGS = ('-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fno-builtin-malloc '
           '-fno-builtin-calloc -fno-builtin-printf -fno-builtin-fprintf -fno-builtin-sprintf -mlong-double-64 -g -w -emit-llvm -c').split()
NATFLAGS = '-O1 -g -w -fsanitize=address -fno-omit-frame-pointer -c'.split()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


def lib_sources():
    t = open(f'{REPO}/src/Makefile.am', errors='replace').read().replace('\\\n', ' ')
    out = []
    for v in ('libplCurve_la_SOURCES', 'libnplCurve_la_SOURCES'):
        m = re.search(r'^' + v + r'\s*=(.*)$', t, re.M)
        if m:
            out += [w for w in m.group(1).split() if w.endswith('.c')]
    skip = ('arg_', 'argtable2', 'getopt', 'kascentpermutation')
    res = []
    for f in out:
        if f.startswith(skip) or f in res or not os.path.exists(f'{REPO}/src/{f}'):
            continue
        res.append(f)
    return res


def hdr_digest():
    h = hashlib.sha256()
    for d in (f'{REPO}/src', f'{REPO}/judy/src', f'{V}/cfg', f'{V}/engine', f'{V}/checks'):
        for r, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.h'):
                    h.update(f.encode())
                    h.update(open(os.path.join(r, f), 'rb').read())
    return h.hexdigest()


class Prop:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.src = f'{V}/checks/{pid}.c'
        self.text = open(self.src).read()
        self.jobs, self.extra, self.stubs, self.bounds, self.omit, self.defs = [], [], [], [], [], []
        self.natomit = []
        for line in self.text.splitlines():
            m = re.match(r'//(JOB|FILES|STUB|BOUND|OMIT|DEFS|NATOMIT)\s+(.*)', line)
            if not m:
                continue
            k, r = m.groups()
            if k == 'FILES': self.extra += r.split()
            elif k == 'STUB': self.stubs.append(r.strip())
            elif k == 'BOUND': self.bounds.append(r.strip())
            elif k == 'OMIT': self.omit += r.split()
            elif k == 'NATOMIT': self.natomit += r.split()
            elif k == 'DEFS': self.defs += r.split()
            else: self.add_job(r)

    def add_job(self, r):
        w = r.split()
        entry, opts, axes = w[0], {'tier': 'both', 'time': None, 'steps': 150000000}, []
        for kv in w[1:]:
            k, v = kv.split('=', 1)
            if k in ('tier', 'time', 'steps', 'qtime', 'btime', 'enum', 'noend', 'cost', 'witness'):
                opts[k] = v
            else:
                vals = []
                for p in v.split(','):
                    m = re.match(r'^(-?\d+)\.\.(-?\d+)$', p)
                    vals += list(range(int(m.group(1)), int(m.group(2)) + 1)) if m else [int(p)]
                axes.append((k, vals))
        if opts['tier'] == 'thorough' and self.tier == 'quick': return
        if opts['tier'] == 'quick' and self.tier == 'thorough': return
        for combo in itertools.product(*[v for _, v in axes]):
            self.jobs.append((entry, [(k, x) for (k, _), x in zip(axes, combo)], opts))


class Build:
    def __init__(self, P, scratch):
        self.P, self.scratch = P, scratch
        self.cache = f'{V}/build/cache'
        os.makedirs(self.cache, exist_ok=True)
        self.hd = hdr_digest()
        self.inc = [f'-I{V}/cfg', f'-I{REPO}/src', f'-I{REPO}/judy/src', f'-I{V}/engine', f'-I{V}/checks', '-DHAVE_CONFIG_H'] + P.defs
        self.nat = None
        self.natlock = threading.Lock()

    def _cc(self, cmd, src, tag, ext):
        h = hashlib.sha256()
        h.update((' '.join(cmd) + self.hd).encode())
        h.update(open(src, 'rb').read())
        # sources that include other .c files
        for inc in re.findall(r'#\s*include\s*[<"]([^">]+\.c)[">]', open(src, errors='replace').read()):
            p = os.path.join(os.path.dirname(src), inc)
            if os.path.exists(p): h.update(open(p, 'rb').read())
        out = f'{self.cache}/{h.hexdigest()[:32]}.{ext}'
        if not os.path.exists(out):
            tmp = f'{out}.{os.getpid()}.{threading.get_ident()}'
            r = sh(cmd + [src, '-o', tmp])
            if r.returncode != 0:
                return None, r.stdout
            os.replace(tmp, out)
        return out, ''

    def sources(self):
        s = [f'{REPO}/src/{f}' for f in lib_sources() if f not in self.P.omit]
        s += [f'{REPO}/{f}' for f in self.P.extra]
        return s

    def ir(self):
        r = sh(['bash', f'{V}/engine/build_engine.sh', f'{V}/build/symex'])
        if r.returncode: die('engine build failed\n' + r.stdout)
        tasks = [(['clang'] + IRFLAGS + self.inc, s) for s in self.sources()]
        tasks.append((['clang'] + IRFLAGS + self.inc, self.P.src))
        rt = ['clang', '-O1', '-fno-builtin', '-emit-llvm', '-c', '-w', f'-I{V}/engine']
        tasks.append((rt, f'{V}/engine/rt.c'))
        bcs = []
        with ThreadPoolExecutor(NCPU) as ex:
            for (o, log), (c, s) in zip(ex.map(lambda t: self._cc(t[0], t[1], 'ir', 'bc'), tasks), tasks):
                if o is None: die(f'cannot compile {s} to IR\n{log}')
                bcs.append(o)
        self.bc = f'{self.scratch}/all.bc'
        # harness and runtime definitions override library ones (stubs)
        lib, har = bcs[:-2], bcs[-2:]
        r = sh(['llvm-link-18'] + lib + ['-o', f'{self.scratch}/lib.bc'])
        if r.returncode: die('llvm-link failed\n' + r.stdout)
        r = sh(['llvm-link-18', f'{self.scratch}/lib.bc', '--override', har[0], '--override', har[1], '-o', self.bc])
        if r.returncode: die('llvm-link failed\n' + r.stdout)

    def native(self):
        with self.natlock:
            if self.nat is not None: return self.nat
            tasks = [(['clang'] + NATFLAGS + self.inc, s) for s in self.sources() if os.path.basename(s) not in self.P.natomit]
            objs = []
            with ThreadPoolExecutor(NCPU) as ex:
                for (o, log), (c, s) in zip(ex.map(lambda t: self._cc(t[0], t[1], 'nat', 'o'), tasks), tasks):
                    if o is None: die(f'cannot compile {s} natively\n{log}')
                    objs.append(o)
            lib = f'{self.scratch}/libnat.a'
            sh(['ar', 'rcs', lib] + objs)
            self.nat = {'lib': lib, 'exe': {}}
            return self.nat

    def exe(self, entry):
        n = self.native()
        with self.natlock:
            if entry in n['exe']: return n['exe'][entry]
            out = f'{self.scratch}/replay_{entry}'
            # the harness comes first; symbols it defines win over the archive (-z muldefs for stubs of library functions)
            r = sh(['clang', '-g', '-O1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-Wl,-z,muldefs', f'-DSYM_ENTRY={entry}'] + self.inc +
                   [self.P.src, f'{V}/engine/replay.c', n['lib'], '-o', out, '-lgsl', '-lgslcblas', '-lm'])
            if r.returncode: die('native replay build failed\n' + r.stdout)
            n['exe'][entry] = out
            return out

    def replay(self, entry, args, inputs, timeout=30):
        exe = self.exe(entry)
        d = tempfile.mkdtemp(dir=self.scratch)
        f = f'{d}/in.txt'
        with open(f, 'w') as o:
            for n, v in inputs: o.write(f'{n.replace(" ", "_")} {v}\n')
        env = dict(os.environ, SYM_REPLAY=f, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0')
        for k, v in args: env[f'SYMARG_{k}'] = str(v)
        try:
            r = subprocess.run([exe], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', stdin=subprocess.DEVNULL)
            rc, txt = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, txt = 'timeout', ''
        shutil.rmtree(d, ignore_errors=True)
        return rc, txt


def load_known():
    p = f'{V}/known_findings.json'
    return [k for k in json.load(open(p)) if isinstance(k, dict)] if os.path.exists(p) else []


def known_match(known, pid, entry, v):
    for k in known:
        if k.get('status') != 'known' or k['property'] != pid: continue
        if k.get('entry') == entry and k.get('msg', '') in v['msg'] and k.get('where', '') in v['where']:
            return k
    return None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('VERIF_ENTRY')
    os.makedirs(f'{V}/evidence', exist_ok=True)
    P = Prop(pid, tier)
    if only: P.jobs = [j for j in P.jobs if re.fullmatch(only, j[0])]
    scratch = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    rc = 3
    try:
        rc = run(P, pid, tier, seed, scratch)
    finally:
        if os.environ.get('VERIF_KEEP'): print('scratch', scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(P, pid, tier, seed, scratch):
    known = load_known()
    B = Build(P, scratch)
    B.ir()
    natfut = ThreadPoolExecutor(1).submit(B.native)
    tbuild = time.time() - T0
    budget = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '3000'))
    deflt = 150 if tier == 'quick' else 1500
    stopped = threading.Event()
    results, confirmed, unconfirmed, knowns, validated, witfail = [], [], [], [], [0], []
    lock = threading.Lock()
    ents = {}
    ctr = itertools.count()

    def one(job):
        entry, args, opts = job
        left = budget - (time.time() - T0 - tbuild)
        if stopped.is_set(): return None
        if left < 2: return {'entry': entry, 'args': args, 'complete': False, 'stop': 'budget', 'paths': 0}
        out = f'{scratch}/res_{next(ctr)}.json'
        tl = min(float(opts['time'] or deflt), left)
        cmd = [f'{V}/build/symex', B.bc, '--entry', entry, '--out', out, '--time', str(tl), '--steps', str(opts['steps']), '--seed', str(seed)]
        for k in ('qtime', 'btime', 'enum', 'witness'):
            if k in opts: cmd += ['--' + k, opts[k]]
        for k, v in args: cmd += ['--arg', f'{k}={v}']
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tl + 60, text=True, errors='replace', preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (12 << 30, 12 << 30)))
        except subprocess.TimeoutExpired:
            return {'entry': entry, 'args': args, 'complete': False, 'stop': 'hard timeout', 'paths': 0}
        if not os.path.exists(out):
            return {'entry': entry, 'args': args, 'complete': False, 'stop': 'engine: ' + p.stdout[-300:], 'paths': 0}
        r = json.load(open(out))
        r['args'] = args
        natfut.result()
        for v in r['violations']:
            if stopped.is_set(): break
            rc, txt = B.replay(entry, args, v['inputs'])
            bad = (rc == 77) or (rc == 99) or rc == 'timeout' or (isinstance(rc, int) and rc < 0) or rc in (134, 139)
            if v['kind'] == 'hang': bad = bad and rc == 'timeout'
            v['replay_rc'], v['replay_txt'] = rc, txt[-1500:]
            with lock:
                if bad:
                    k = known_match(known, pid, entry, v)
                    if k: knowns.append(k)
                    else:
                        confirmed.append((entry, args, v))
                        if not os.environ.get('VERIF_ALL'): stopped.set()
                else: unconfirmed.append((entry, args, v))
        for w in r['witnesses']:
            if stopped.is_set(): break
            rc, txt = B.replay(entry, args, w)
            if rc == 0:
                with lock: validated[0] += 1
            elif rc == 5: pass
            else:
                real = any('.' in x or '/' in x for _, x in w)
                v = {'kind': 'witness', 'msg': 'input of an explored path fails on the native build: ' + txt[-400:], 'where': 'native', 'inputs': w, 'replay_rc': rc, 'replay_txt': txt[-1500:]}
                with lock:
                    if real and rc in (77, ): witfail.append((entry, args, v))
                    else:
                        k = known_match(known, pid, entry, v)
                        if k: knowns.append(k)
                        else:
                            confirmed.append((entry, args, v))
                            if not os.environ.get('VERIF_ALL'): stopped.set()
        return r

    jobs = sorted(P.jobs, key=lambda j: -float(j[2].get('cost', 0)))
    with ThreadPoolExecutor(NCPU) as ex:
        for f in as_completed([ex.submit(one, j) for j in jobs]):
            r = f.result()
            if r:
                results.append(r)
                if os.environ.get('VERIF_LOG'):
                    print(r['entry'], dict(r['args']), 'complete' if r['complete'] else 'INCOMPLETE ' + r.get('stop', ''), 'paths', r['paths'], 'wall', r.get('wall_s'), 'solver', r.get('solver_s'), 'queries', r.get('queries'), 'undec', r.get('undecided'), 'kills', r.get('kills'), 'reach', r.get('reach'),
                          'viol', [(v['kind'], v['msg'], v['where'], v.get('replay_rc'), v['inputs'][:40]) for v in r.get('violations', [])], flush=True)
    # vacuity: every job must have reached its end marker on some path
    vac = [(r['entry'], dict(r['args'])) for r in results if not r.get('reach', {}).get('end') and not r.get('violations')]
    jobopts = {(j[0], tuple(j[1])): j[2] for j in P.jobs}
    vac = [x for x in vac if not jobopts.get((x[0], tuple(x[1].items())), {}).get('noend')]
    nq = sum(r.get('queries', 0) for r in results)
    fns = sorted({f for r in results for f in r.get('functions', []) if not f.endswith('@')})
    cov = {
        'explanation': 'Bounded symbolic execution of the LLVM IR compiled from /repo\'s current sources; the solver (z3) decides every branch and every assertion over all values of the symbolic inputs within the stated bounds.',
        'states': sum(r['paths'] for r in results), 'transitions': sum(r.get('steps', 0) for r in results),
        'traces_validated_against_impl': validated[0],
        'samples': [{'entry': r['entry'], 'args': dict(r['args']), 'inputs': dict_inputs(r['witnesses'][-1])} for r in results if r.get('witnesses')][:6],
        'jobs': len(P.jobs), 'jobs_complete': sum(1 for r in results if r['complete']),
        'incomplete': [{'entry': r['entry'], 'args': dict(r['args']), 'stop': r.get('stop'), 'kills': {k: v for k, v in r.get('kills', {}).items() if not k.startswith(('assume', 'infeasible', 'unreachable'))}} for r in results if not r['complete']][:40],
        'exhaustive': all(r['complete'] and not r.get('undecided') for r in results) and len(results) == len(P.jobs),
        'paths': sum(r['paths'] for r in results), 'ir_instructions': sum(r.get('steps', 0) for r in results),
        'assertions_evaluated': sum(r.get('asserts', 0) for r in results), 'assertion_queries': sum(r.get('assert_queries', 0) for r in results), 'undecided_assertions': sum(r.get('undecided', 0) for r in results),
        'solver_queries': nq, 'solver_sat': sum(r.get('sat', 0) for r in results), 'solver_unsat': sum(r.get('unsat', 0) for r in results), 'solver_unknown': sum(r.get('unknown', 0) for r in results),
        'solver_cache_hits': sum(r.get('cache_hits', 0) for r in results), 'solver_seconds': round(sum(r.get('solver_s', 0) for r in results), 3),
        'functions_encoded': fns, 'bounds': P.bounds, 'vacuous_jobs': vac,
        'unconfirmed_counterexamples': [{'entry': e, 'args': dict(a), 'msg': v['msg'], 'where': v['where'], 'replay_rc': v['replay_rc']} for e, a, v in unconfirmed[:10]],
        'witness_mismatches_rounding': [{'entry': e, 'args': dict(a), 'msg': v['msg'][:200]} for e, a, v in witfail[:10]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['stub: ' + s for s in P.stubs] + ['outside the bounds: larger sizes than stated under coverage.bounds', 'libc is modelled by engine/rt.c (stdio in memory, glibc-like mergesort qsort); allocation never fails', 'symbolic doubles are exact reals; concrete doubles are IEEE'],
          'wall_s': round(time.time() - T0, 2), 'violations': len(confirmed)}
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    seen = set()
    for k in knowns:
        if k['what'] not in seen:
            seen.add(k['what'])
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    summ = f'{pid}: {len(results)}/{len(P.jobs)} jobs, {cov["jobs_complete"]} complete, {cov["paths"]} paths, {nq} queries, {cov["assertions_evaluated"]} assertions, {cov["undecided_assertions"]} undecided, {len(unconfirmed)} unconfirmed, {len(witfail)} witness rounding mismatches, {validated[0]} traces replayed, {ev["wall_s"]} s'
    print(summ)
    if confirmed:
        entry, args, v = confirmed[0]
        rp = f'{V}/evidence/replay_{pid}.txt'
        with open(rp, 'w') as o:
            o.write(f'# property {pid} entry {entry} args {dict(args)}\n# {v["kind"]}: {v["msg"]}\n# at {v["where"]}\n# native replay: {v["replay_rc"]}\n')
            o.write(''.join('# ' + l + '\n' for l in v['replay_txt'].splitlines()[-25:]))
            for n, x in v['inputs']: o.write(f'{n} {x}\n')
        print(f'  {v["kind"]}: {v["msg"]} at {v["where"]} (entry {entry} {dict(args)})')
        print(f'VIOLATION property={pid} replay={rp}', flush=True)
        return 1
    if vac:
        print(f'WARNING {pid}: no path of these jobs reached its end (vacuous): {vac[:5]}')
    return 0


def dict_inputs(w):
    return [f'{a}={b}' for a, b in w][:40]


main()
