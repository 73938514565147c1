"""check <ID>: decides one property on the current tree of /repo."""
import ctypes
import glob
import hashlib
import json
import os
import pickle
import re
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import *          # noqa
import core

SPEC = os.path.join(VERIF, 'spec')
NCPU = 8


def spec_files(pid):
    main, lib = [], []
    for f in sorted(glob.glob(SPEC + '/**/*.go', recursive=True)):
        b = os.path.basename(f)
        if b.startswith('gen_'):
            continue
        if b.startswith('lib_') or b.startswith('contract_'):
            lib.append(f)
        elif re.search(r'^func [PN]_%s_' % pid, open(f).read(), re.M):
            main.append(f)
    return main, lib


def harness_names(files):
    out = {}
    for f in files:
        for m in re.finditer(r'^func ([PN]_\w+)\(', open(f).read(), re.M):
            out[m.group(1)] = f
    return out


class Deadline(Exception):
    pass


def prove_harness(prog, full, budget, jobs, limit, spec):
    """runs in a child process"""
    def boom(*_):
        raise Deadline()
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(int(limit))
    t0 = time.time()
    out = dict(harness=full, error=None, obls=[], functions=[], assumed=[], exec_s=0, solver_s=0.0, unroll=0)
    try:
        try:
            r = run_harness(prog, full, spec)
        finally:
            signal.alarm(0)
        out['exec_s'] = r.time
        out['functions'] = sorted(r.ex.inlined)
        out['contracts'] = sorted(getattr(r.ex, 'used_contracts', ()))
        out['assumed'] = sorted(r.ex.assumed)
        out['loops'] = len(r.ex.allloops)
        qs = to_queries(r, full)
        n = len(qs)
        vac = [dict(name='reachable: ' + q['name'], kind='vacuity', hyps=q['hyps'], goal=None, vacuity=True, pos='') for q in qs if q['kind'] == 'ensures']
        if r.end:
            vac.append(dict(name='reachable: end of harness', kind='vacuity', hyps=r.facts + r.end[1].pc, goal=None, vacuity=True, pos=''))
        elif not qs:
            out['error'] = 'no path reaches an obligation'
        rs = prove_all(qs + vac, budget, jobs)
        for q, x in zip(qs + vac, rs):
            out['obls'].append(dict(name=q['name'], kind=q['kind'], pos=q['pos'], **x))
            out['solver_s'] += x['time']
    except Unsupported as e:
        out['error'] = 'outside the verified subset: %s' % (e,)
        out['trace'] = traceback.format_exc()[-1500:]
    except Deadline:
        out['error'] = 'verification-condition generation exceeded %d s' % limit
    except RecursionError:
        out['error'] = 'recursion outside the verified subset'
    except Exception as e:
        out['error'] = 'generator error: %r' % (e,)
        out['trace'] = traceback.format_exc()[-1500:]
    out['wall_s'] = time.time() - t0
    return out


class Pool:
    def __init__(self, n, last=None):
        self.n = n
        self.last = last
        self.run = {}
        self.todo = []
        self.done = {}

    def add(self, key, fn):
        self.todo.append((key, fn))

    def wait(self):
        while self.todo or self.run:
            if self.last and time.time() > self.last:
                late = dict(error='not decided within the time of the check', obls=[], functions=[], assumed=[], exec_s=0, solver_s=0.0)
                for fd, (key, pid, buf) in self.run.items():
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(fd)
                    self.done[key] = late
                for key, fn in self.todo:
                    self.done[key] = late
                self.run, self.todo = {}, []
                break
            while self.todo and len(self.run) < self.n:
                key, fn = self.todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.setpgid(0, 0)
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                    os.close(r)
                    try:
                        data = pickle.dumps(fn())
                    except BaseException as e:
                        data = pickle.dumps(dict(error='worker: %r' % (e,), obls=[], functions=[], assumed=[], exec_s=0, solver_s=0.0))
                    try:
                        with os.fdopen(w, 'wb') as f:
                            f.write(data)
                    finally:
                        os._exit(0)
                os.close(w)
                try:
                    os.setpgid(pid, pid)
                except OSError:
                    pass
                self.run[r] = (key, pid, [])
            rl, _, _ = select.select(list(self.run), [], [], 1)
            for fd in rl:
                b = os.read(fd, 1 << 16)
                key, pid, buf = self.run[fd]
                if b:
                    buf.append(b)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del self.run[fd]
                data = b''.join(buf)
                self.done[key] = pickle.loads(data) if data else dict(error='worker died (memory?)', obls=[], functions=[], assumed=[], exec_s=0, solver_s=0.0)
        return self.done


# ---------------------------------------------------------------- native
class Native:
    def __init__(self, load, files, work):
        self.work = work
        self.bins = {}
        self.procs = {}
        self.load = load
        env = goenv(work)
        ov = dict(load.overlay)
        tmpl = open(os.path.join(SPEC, 'native_test.go.tmpl')).read()
        dirs = sorted({os.path.dirname(os.path.relpath(f, SPEC)) for f in files})
        for d in dirs:
            fs = [f for f in load.files if os.path.dirname(os.path.relpath(f, SPEC)) == d]
            hs = sorted(harness_names(fs))
            gens = []
            for g in sorted(glob.glob(os.path.join(SPEC, d, 'gen_*.go'))):
                ok = True
                src = open(g).read()
                m = re.search(r'^// for: (.*)$', src, re.M)
                if m and not any(os.path.basename(x) in m.group(1).split() for x in fs):
                    continue
                ov[os.path.join(REPO, d, 'zz_verif_' + os.path.basename(g)[:-3] + '_test.go')] = g
                gens += re.findall(r'^func Gen_([PN]_\w+)\(', src, re.M)
            pn = pkgname(os.path.join(REPO, d))
            t = os.path.join(work, 'native_%s_test.go' % (d.replace('/', '_') or 'root'))
            s = tmpl.replace('package PKG', 'package ' + str(pn), 1)
            s = s.replace('/*HARNESSES*/', '\n\t'.join('"%s": %s,' % (h, h) for h in hs))
            s = s.replace('/*GENS*/', '\n\t'.join('"%s": Gen_%s,' % (h, h) for h in gens if h in hs))
            open(t, 'w').write(s)
            ov[os.path.join(REPO, d, 'zz_verif_native_test.go')] = t
        # hide the repository's own tests: they are not part of the check
        for d in dirs:
            for f in glob.glob(os.path.join(REPO, d, '*_test.go')):
                ov[f] = ''
        ovf = os.path.join(work, 'overlay_native.json')
        json.dump({'Replace': ov}, open(ovf, 'w'))
        for d in dirs:
            b = os.path.join(work, 'native_%s.bin' % (d.replace('/', '_') or 'root'))
            log = open(b + '.log', 'w')
            self.procs[d] = (b, subprocess.Popen(['go', 'test', '-c', '-vet=off', '-overlay', ovf, '-o', b, './' + d], cwd=REPO,
                                                 env=env, stdout=log, stderr=subprocess.STDOUT))

    def ready(self, d):
        if d not in self.bins:
            b, p = self.procs[d]
            p.wait()
            self.bins[d] = b if os.path.exists(b) else None
            if self.bins[d] is None:
                self.log = open(b + '.log').read()
        return self.bins[d]

    def start(self, d, cfg, tag):
        b = self.ready(d)
        if b is None:
            return None
        path = os.path.join(self.work, 'nat_%s.json' % tag)
        json.dump(cfg, open(path, 'w'))
        env = dict(os.environ, VERIF_NATIVE=path, GOMEMLIMIT='2GiB', GODEBUG='')
        cwd = os.path.join(self.work, 'cwd_' + tag)
        os.makedirs(cwd, exist_ok=True)
        lim = int(cfg['Secs'] + 60)

        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        p = subprocess.Popen([b, '-test.run', '^TestVerifNative$', '-test.timeout', '%ds' % lim], cwd=cwd, env=env,
                             stdout=open(path + '.log', 'w'), stderr=subprocess.STDOUT, preexec_fn=pre)
        return (p, path, lim)

    def finish(self, h):
        if h is None:
            return None
        p, path, lim = h
        try:
            p.wait(timeout=lim + 20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            return json.load(open(path + '.out'))
        except Exception:
            return dict(crash=open(path + '.log').read()[-3000:])


def consts_of(prog, funcs):
    ss, ii = set(), set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'const':
                if x.get('ck') == 'string':
                    try:
                        s = bytes(__import__('base64').b64decode(x['bytes'])).decode() if isinstance(x.get('bytes'), str) else x['v']
                    except Exception:
                        s = x['v']
                    if len(s) < 200:
                        ss.add(s)
                elif x.get('ck') == 'int':
                    try:
                        v = int(x['v'])
                        if -2**62 < v < 2**62:
                            ii.add(v)
                    except ValueError:
                        pass
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for f in funcs:
        if f in prog.funcs:
            walk(prog.funcs[f].get('blocks'))
    return sorted(ss), sorted(ii)


def closure_funcs(prog, roots):
    seen = set()
    todo = list(roots)

    def refs(x, out):
        if isinstance(x, dict):
            if x.get('k') == 'func':
                out.append(x['n'])
            for v in x.values():
                refs(v, out)
        elif isinstance(x, list):
            for v in x:
                refs(v, out)
    while todo:
        f = todo.pop()
        if f in seen or f not in prog.funcs:
            continue
        seen.add(f)
        out = []
        refs(prog.funcs[f].get('blocks'), out)
        todo += out
        ini = prog.funcs[f].get('pkg', '') + '.init'
        todo.append(ini)
    return seen


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    try:
        d = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except FileNotFoundError:
        return []
    return [k for k in d.get('known', []) if k['property'] == pid]


def replay(path):
    """runs the recorded inputs on the current tree; exit 1 if one still fails"""
    doc = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif-replay-')
    bad = 0
    try:
        for v in doc['violations']:
            print('%s / %s' % (v['harness'], v['obligation']))
            if not v.get('native'):
                print('  no failing input recorded; verifier output: %s' % v['reason'])
                continue
            main_files, libs = spec_files(doc['property'])
            L = Load(main_files + libs, work)
            n = Native(L, main_files, work)
            r = n.finish(n.start(v['native']['dir'], dict(v['native']['cfg'], Seed=v['failing_input']['Seed'], Cases=1, One=True), 'replay'))
            for x in r if isinstance(r, list) else []:
                for f in x['Fails']:
                    bad = 1
                    print('  REPRODUCED %s\n  input: %s\n  %s' % (f['Obligation'], ' | '.join(f['Args']), f['Detail']))
            if not bad:
                print('  not reproduced: %s' % (r,))
        return bad
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    if argv[0] == '--replay':
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    only = None
    for a in argv[1:]:
        if a.startswith('--only='):
            only = a[7:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return check(pid, tier, seed, work, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def short(full, prog):
    return full.split('.')[-1]


def check(pid, tier, seed, work, t0, only=None):
    main_files, libs = spec_files(pid)
    if not main_files:
        print('no specification for %s' % pid)
        return 2
    L = Load(main_files + libs, work)
    if L.prog is None:
        print('the repository does not load with the specifications:\n' + (L.error or ''))
        return 2
    prog = L.prog
    violations = []       # (harness, obligation, reason)
    wanted = harness_names(main_files)
    have = {}
    for n in prog.funcs:
        s = n.split('.')[-1]
        if re.match(r'[PN]_%s_' % pid, s) and s in wanted and '$' not in s:
            have[s] = n
    if only:
        have = {k: v for k, v in have.items() if re.search(only, k)}
    else:
        for f, msg in L.dropped:
            for h, hf in wanted.items():
                if hf == f and re.match(r'[PN]_%s_' % pid, h):
                    violations.append(dict(harness=h, obligation='specification applies to the code', reason=msg))
    native = Native(L, [f for f in main_files if f in L.files], work)
    budget = 15 if tier == 'quick' else 60
    limit = 200 if tier == 'quick' else 900
    proofs = {s: full for s, full in have.items() if s.startswith('P_')}
    # native cross-check (bounded, never counted as proof)
    secs = 3 if tier == 'quick' else 30
    reps = {}
    cfgs = {}
    for s, full in sorted(have.items()):
        d = os.path.dirname(os.path.relpath(wanted[s], SPEC))
        funcs = closure_funcs(prog, [full])
        ss, ii = consts_of(prog, funcs)
        cfgs[s] = (d, dict(Harness=[s], Seed=seed, Cases=200000, Secs=secs, Pool=ss, Ints=ii, Known=[]))

    def batch(items):
        """items: list of (key, d, cfg)"""
        out = {}
        todo = list(items)
        run = []
        while todo or run:
            while todo and len(run) < NCPU:
                k, d, c = todo.pop(0)
                run.append((k, native.start(d, c, re.sub(r'\W', '_', str(k)))))
            k, h = run.pop(0)
            out[k] = native.finish(h)
        return out
    reps = batch([(s, d, c) for s, (d, c) in cfgs.items()])
    natfail = {}
    nat_cases = nat_ok = nat_skip = nat_panic = 0
    samples, nat_notes = [], []
    for s, r in reps.items():
        if r is None:
            nat_notes.append('%s: native build failed: %s' % (s, getattr(native, 'log', '')[-1500:]))
            continue
        if isinstance(r, dict):
            nat_notes.append('%s: native run crashed: %s' % (s, r.get('crash', '')[-600:]))
            continue
        for x in r:
            nat_cases += x['Ran']
            nat_ok += x['OK']
            nat_skip += x['Skipped']
            nat_panic += x['Panics']
            if x.get('Sample'):
                samples.append('%s(%s)' % (s, x['Sample'][:400]))
            if x['OK'] == 0 and not x['Fails']:
                nat_notes.append('%s: no generated input satisfied the precondition (%d tried)' % (s, x['Ran']))
            if x['Fails']:
                natfail[s] = x['Fails'][0]

    # a failing input decides the check: the proofs then only say which obligations fail
    last = t0 + (780 if tier == 'quick' else 4 * 3600)
    if natfail:
        budget, limit, last = 5, 60, min(last, time.time() + 240)
    pool = Pool(NCPU, last)
    jobs = max(2, NCPU // max(1, len(proofs)))
    for s, full in sorted(proofs.items()):
        pool.add(s, lambda full=full: prove_harness(prog, full, budget, jobs, limit, None))
    res = pool.wait()
    # the contracts the callers relied on are proved against the callees' bodies
    cres = {}
    while True:
        need = set()
        for r in list(res.values()) + list(cres.values()):
            need |= set(r.get('contracts') or ())
        need -= set(cres)
        if not need:
            break
        pool.done = {}
        for full in sorted(need):
            pool.add(full, lambda full=full: prove_harness(prog, full, budget, 2, limit, None))
        cres.update(pool.wait())
    for full, r in cres.items():
        res[full.split('/')[-1]] = r

    # proof results
    obl_total = obl_ok = vac_total = 0
    by_backend, solver_s = {}, 0.0
    functions, assumed, contracts = set(), set(), set()
    failed_h = {}
    rows = []
    for s, r in sorted(res.items()):
        functions |= set(r.get('functions', ()))
        contracts |= set(r.get('contracts', ()) or ())
        assumed |= set(r.get('assumed', ()))
        solver_s += r.get('solver_s', 0)
        if r.get('error'):
            obl_total += 1
            failed_h.setdefault(s, []).append(dict(obligation='verification conditions of ' + s, reason=r['error'] + '\n' + r.get('trace', '')))
        for o in r['obls']:
            if o['kind'] == 'vacuity':
                vac_total += 1
                if o['status'] == 'vacuous':
                    failed_h.setdefault(s, []).append(dict(obligation=o['name'], reason='the hypotheses are contradictory'))
                continue
            obl_total += 1
            rows.append((s, o['name'], o['status'], o['backend'], round(o['time'], 2)))
            if o['status'] == 'proved':
                obl_ok += 1
                by_backend[o['backend']] = by_backend.get(o['backend'], 0) + 1
            else:
                failed_h.setdefault(s, []).append(dict(obligation=o['name'], reason='; '.join(o['tried']), pos=o['pos']))
    if not res and not violations:
        failed_h.setdefault('-', []).append(dict(obligation='at least one obligation', reason='no harness found'))

    # search for a failing input where the proof failed
    todo = []
    for s in failed_h:
        if s in cfgs and s not in natfail:
            d, c = cfgs[s]
            per = max(1, NCPU // max(1, len([x for x in failed_h if x in cfgs and x not in natfail])))
            for j in range(per):
                c2 = dict(c, Seed=seed + 100 + j, Secs=25 if tier == 'quick' else 120, Cases=10**9)
                todo.append(((s, j), d, c2))
    for (s, j), r in batch(todo).items():
        if isinstance(r, list):
            for x in r:
                nat_cases += x['Ran']
                if x['Fails'] and s not in natfail:
                    natfail[s] = x['Fails'][0]
    for s, f in natfail.items():
        fl = failed_h.pop(s, [])
        violations.append(dict(harness=s, obligation=f['Obligation'], failing_input=f, failed_obligations=fl,
                               reason='the real code fails the obligation on the recorded input', native=dict(dir=cfgs[s][0], cfg=cfgs[s][1])))
    for s, fl in failed_h.items():
        for x in fl:
            violations.append(dict(harness=s, obligation=x['obligation'], reason=x['reason'], pos=x.get('pos', '')))

    # known findings: demonstrated on every run
    kf = []
    for k in known_findings(pid):
        if k.get('harness'):
            r = batch([(k['harness'], k['dir'], dict(Harness=[k['harness']], Seed=seed, Cases=200000, Secs=secs, Pool=[], Ints=[], Known=[]))])[k['harness']]
            if not isinstance(r, list) or not any(x['Fails'] for x in r):
                continue
            k = dict(k, example=[x['Fails'][0] for x in r if x['Fails']][0])
        kf.append(k)
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    if violations:
        found = [v for v in violations if v.get('failing_input')]
        path = os.path.join(rdir, '%s.json' % pid)
        json.dump(dict(property=pid, tier=tier, violations=violations,
                       replay='cd %s && ./check --replay %s' % (VERIF, path)), open(path, 'w'), indent=1)
        for v in violations:
            print('FAILED %s / %s%s' % (v['harness'], v['obligation'], ' at ' + v['pos'] if v.get('pos') else ''))
            if v.get('failing_input'):
                print('  failing input (seed %s): %s' % (v['failing_input']['Seed'], ' | '.join(v['failing_input']['Args'])[:1500]))
                if v['failing_input'].get('Detail'):
                    print('  ' + v['failing_input']['Detail'][:300])
            print('  ' + str(v['reason'])[:700])
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
    real = sorted(f for f in functions if not re.search(r'(^|[./])(P_C\d|vOld|vForall|vRequire)', f) and is_repo_func(prog, f))
    wall = time.time() - t0
    trusted = ['z3 5.3 (python3-vt) as the deciding solver', 'vc/ (this verification-condition generator) and front/ (golang.org/x/tools/go/ssa)',
               'Go toolchain: type checker and SSA construction preserve the meaning of the source']
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(wall, 2), violations=len(violations),
              coverage=dict(obligations=obl_total, discharged=obl_ok,
                            checker_cmd='/verif/check %s' % pid,
                            trusted_base=trusted + sorted('assumed contract: ' + a for a in assumed),
                            discharged_by_backend=by_backend, solver_s=round(solver_s, 2),
                            reachability_queries=vac_total,
                            functions_under_contract=real,
                            contracts_used_at_call_sites=sorted(contracts),
                            harnesses=sorted(proofs.values()),
                            bounded_only_harnesses=sorted(n for s, n in have.items() if s not in proofs),
                            obligation_list=['%s / %s: %s %s %.2fs' % r for r in rows],
                            bounded_native_crosscheck=dict(label='bounded: generated inputs run on the compiled code; not counted as proof',
                                                           cases=nat_cases, satisfied=nat_ok, precondition_false=nat_skip,
                                                           panicked_outside_claim=nat_panic, notes=nat_notes, samples=samples[:5]),
                            known_findings=kf),
              assumptions=ASSUMPTIONS + sorted(assumed))
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(edir, pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d functions of the code under contract, native %d cases (%d satisfied the precondition), %.1f s'
          % (pid, obl_ok, obl_total, len(real), nat_cases, nat_ok, wall))
    for n in nat_notes:
        print('  note: ' + n[:1500])
    if only:
        for r in rows:
            print('   %s / %s: %s %s %.2fs' % r)
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if violations else 0


def is_repo_func(prog, f):
    fn = prog.funcs.get(f)
    if not fn:
        return False
    pos = fn.get('pos') or ''
    return 'zz_verif' not in pos and '/verif/spec' not in pos and fn.get('pkg', '').startswith(prog.module)


ASSUMPTIONS = [
    'machine integers are treated as mathematical integers (no overflow), floats as uninterpreted values',
    'a slice is a value: append never writes through spare capacity shared with another slice',
    'partial correctness: a path that panics or does not terminate satisfies a postcondition, unless the obligation says "does not panic"',
    'arguments are finite well-typed object graphs existing before the call; nothing else runs concurrently',
    'map iteration visits every key exactly once in an arbitrary order',
    'package variables are only written by package initialisation (checked for the functions under contract)',
    'callback parameters are deterministic and do not write to the objects they are given',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
