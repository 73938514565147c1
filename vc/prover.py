"""Discharging obligations: z3 (two configurations), then cvc5; one forked
process per obligation."""
import itertools
import os
import pickle
import select
import signal
import subprocess
import sys
import tempfile
import time
import z3
from core import *
import relev


class Prover:
    def __init__(self):
        self.nquick = 0
        self.tquick = 0.0

    def quick(self, hyps, goal, ms=1500):
        """one-step induction check (in process); True only if proved"""
        t = time.time()
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check() == z3.unsat
        self.nquick += 1
        self.tquick += time.time() - t
        if os.environ.get('VQ'):
            print('quick', r, round(time.time() - t, 2), len(hyps), str(goal)[:150].replace('\n', ' '))
        return r


def mk(cfg, hyps, goal, ms, seed=0):
    s = z3.Solver()
    s.set('timeout', ms)
    if cfg == 'pat':
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        s.set('random_seed', seed)
    elif cfg == 'ext':
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('random_seed', seed)
    elif cfg == 'arith2':
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        s.set('arith.solver', 2)
        s.set('random_seed', seed + 7)
    elif cfg == 'qi20':
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        s.set('qi.eager_threshold', 20.0)
        s.set('random_seed', seed + 13)
    elif cfg in ('qi5', 'qi6'):
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        s.set('qi.eager_threshold', float(cfg[2:]))
        s.set('random_seed', seed)
    elif cfg == 'case':
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('array.extensional', False)
        s.set('case_split', 3)
        s.set('relevancy', 2)
        s.set('random_seed', seed + 29)
    for h in hyps:
        s.add(h)
    if goal is not None:
        s.add(z3.Not(goal))
    return s


VARIANTS = [('pat', 0, 11), ('case', 4, 0), ('qi5', 4, 0), ('pat', 0, 12), ('arith2', 0, 3), ('qi20', 0, 1), ('case', 0, 1), ('ext', 3, 0), ('pat', 1, 5), ('arith2', 1, 6), ('pat', 2, 7)]


def attempt1(o, secs):
    """one configuration"""
    t0 = time.time()
    cfg, lvl, seed = o['variant']
    rel = o.get('relev')
    if lvl == 4:
        o = dict(o, goal=o.get('plain', o['goal']))
    hy = filt(o, lvl)
    r = mk(cfg, hy, o['goal'], int(secs * 1000), seed).check()
    tried = ['%s/%d/%d:%s %.1fs' % (cfg, seed, len(hy), r, time.time() - t0)]
    if r == z3.unsat:
        return dict(status='proved', backend='z3-' + z3.get_version_string() + '/' + cfg, time=time.time() - t0, tried=tried)
    return dict(status='failed', backend='', time=time.time() - t0, tried=tried)


def run_cvc5(smt, secs):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n')
        f.write(smt)
        path = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000), path], capture_output=True, text=True,
                           timeout=secs + 5)
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'error'
    except Exception:
        return 'error'
    finally:
        os.unlink(path)


def witnesses(lens, fs, idxfs=()):
    """index terms for existential goals: the position at which a list was
    appended to in the iterations named by the goal's skolem constants"""
    ex = lens and any(hasexists(f) for f in fs)
    if not ex and not idxfs:
        return []
    keys = []
    sk, seen, stack = [], set(), list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_SELECT and z3.is_app(x.arg(1)) and x.arg(1).num_args() == 0 and x.arg(1).decl().name().startswith('str!'):
                for f in idxfs:
                    if f.arity() == 1 and f.domain(0) == x.arg(1).sort():
                        keys.append((f.name()[3:], f(x.arg(1))))
            if z3.is_eq(x) and (hasvar(x.arg(0)) != hasvar(x.arg(1))):
                t = x.arg(1) if hasvar(x.arg(0)) else x.arg(0)
                for f in idxfs:
                    if not z3.is_int(t) and f.arity() == 1 and f.domain(0) == t.sort():
                        keys.append((f.name()[3:], f(t)))
            if x.num_args() == 0 and x.decl().name().startswith('sk!'):
                if z3.is_int(x):
                    sk.append(x)
                else:
                    # a map key: the iterations that range over it
                    for f in idxfs:
                        if f.arity() == 1 and f.domain(0) == x.sort():
                            sk.append(f(x))
                            keys.append((f.name()[3:], f(x)))
            stack += x.children()
    jx = z3.Function('Jx', z3.IntSort(), z3.BoolSort())
    ix = z3.Function('Ix', z3.IntSort(), z3.BoolSort())
    keys = {t.get_id(): (k, t) for k, t in keys}
    out = [(k, ix(t)) for k, t in keys.values()]
    for d in lens if ex else ():
        if len(sk) ** d.arity() <= 16:
            for t in itertools.product(sk, repeat=d.arity()):
                out.append((d.name(), jx(d(*t))))
    return out


def exits(fs):
    """the iterations at which loops were left, as index terms"""
    out, seen, stack = {}, set(), list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().name().startswith('nL') and z3.is_int(x):
                out[x.decl().name()] = x
            stack += x.children()
    jx = z3.Function('Jx', z3.IntSort(), z3.BoolSort())
    return [(k, jx(out[k])) for k in sorted(out, key=lambda k: int(k[2:].split('#')[0]))][-4:]


def spelt(g, terms):
    if z3.is_or(g):
        return z3.Or([spelt(x, terms) for x in g.children()])
    if z3.is_quantifier(g) and g.is_exists() and g.num_vars() == 1 and g.var_sort(0) == z3.IntSort():
        return z3.Or([z3.substitute_vars(g.body(), t) for t in terms] + [g])
    return g


def hasvar(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x) or z3.is_quantifier(x):
            return True
        stack += x.children()
    return False


def hasexists(f):
    stack, seen = [f], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_forall():
                return True
            stack.append(x.body())
        elif z3.is_app(x):
            stack += x.children()
    return False


def filt(o, lvl):
    late = o.get('late') or []
    if o.get('relev') is None or lvl == 2:
        return o['hyps'] + [f for _, f in late]
    h, R = o['relev'].filter(o['hyps'], o['goal'], lvl)
    return h + [f for n, f in late if n in R]


def attempt(o, budget, dump=None):
    """returns dict(status, backend, time)"""
    t0 = time.time()
    tried = []
    rel = o.get('relev')
    stages = []
    if rel is not None:
        h0 = filt(o, 0)
        h1 = filt(o, 1)
        stages = [('pat', h0, 0.2), ('arith2', h0, 0.15), ('pat', h1, 0.15), ('ext', h0, 0.1), ('pat', filt(o, 2), 0.2)]
        h4 = filt(o, 4)
        if len(h4) != len(h0):
            stages.insert(2, ('qi5', h4, 0.4))
        sizes = (len(h0), len(h1), len(o['hyps']))
        small = h0
    else:
        stages = [('pat', o['hyps'], 0.3), ('arith2', o['hyps'], 0.2), ('ext', o['hyps'], 0.3)]
        sizes, small = (), o['hyps']
    for q, (cfg, hy, frac) in enumerate(stages):
        s = mk(cfg, hy, o['goal'], int(budget * frac * 1000), q)
        r = s.check()
        why = s.reason_unknown() if r == z3.unknown else ''
        tried.append('%s/%d:%s %.1fs %s' % (cfg, len(hy), r, time.time() - t0, why))
        if r == z3.unsat:
            return dict(status='proved', backend='z3-' + z3.get_version_string() + '/' + cfg, time=time.time() - t0, tried=tried)
    s = mk('pat', small, o['goal'], 1000)
    r = run_cvc5(s.to_smt2(), budget * 0.2)
    tried.append('cvc5:%s %.1fs' % (r, time.time() - t0))
    if r == 'unsat':
        return dict(status='proved', backend='cvc5', time=time.time() - t0, tried=tried)
    return dict(status='failed', backend='', time=time.time() - t0, tried=tried)


def prove_all(obls, budget=20, jobs=8, check_vacuity=()):
    """splits goals into conjuncts, proves them in parallel, merges results"""
    parts, own = [], []
    for i, o in enumerate(obls):
        if o.get('vacuity') or o.get('goal') is None:
            parts.append(o)
            own.append(i)
            continue
        sp = relev.split_goal(o['goal'])
        for h, g in sp:
            o2 = dict(o)
            o2['goal'] = g
            o2['hyps'] = list(o['hyps']) + h
            o2['late'] = late = witnesses(o.get('lens') or [], h + [g], o.get('idxfs') or ())
            if hasexists(g):
                late += exits(o2['hyps'])
            if late:
                # the candidates, spelt out
                o2['plain'] = g
                o2['goal'] = spelt(g, [f.arg(0) for _, f in late[-8:]])
            parts.append(o2)
            own.append(i)
        if not sp:
            raise ValueError('empty goal')
    rs = prove_parts(parts, budget, jobs)
    # second round: the parts still open, every configuration in parallel
    bad = [i for i, r in enumerate(rs) if r['status'] == 'failed']
    if bad and len(bad) <= 8:
        trial = [dict(parts[i], variant=v, group=i) for i in bad for v in VARIANTS]
        for o, r in zip(trial, prove_parts(trial, budget * 2, max(jobs, 4))):
            i = o['group']
            if r['status'] == 'proved' and rs[i]['status'] != 'proved':
                r['tried'] = rs[i]['tried'] + r['tried']
                rs[i] = r
            elif rs[i]['status'] != 'proved':
                rs[i]['tried'] += r['tried']
            rs[i]['time'] += r['time']
    out = [None] * len(obls)
    for i, p, r in zip(own, parts, rs):
        if out[i] is None:
            out[i] = dict(r)
            out[i]['parts'] = 1
            continue
        t = out[i]
        t['time'] += r['time']
        t['parts'] += 1
        if r['backend'] not in t['backend']:
            t['backend'] += ('+' if t['backend'] else '') + r['backend']
        if r['status'] != 'proved' and t['status'] == 'proved':
            t['status'] = r['status']
            t['tried'] = r['tried']
            t['part'] = str(p['goal'])[:600]
    return out


def prove_parts(obls, budget=20, jobs=8):
    """obls: list of dict(hyps, goal).  Returns list of results, in order."""
    res = [None] * len(obls)
    todo = list(range(len(obls)))
    running = {}
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    o = obls[i]
                    if o.get('vacuity'):
                        t0 = time.time()
                        s = mk('pat', o['hyps'], None, 3000)
                        rr = s.check()
                        out = dict(status='vacuous' if rr == z3.unsat else 'ok', backend='z3', time=time.time() - t0, tried=[str(rr)])
                    elif 'variant' in o:
                        out = attempt1(o, budget)
                    else:
                        out = attempt(o, budget)
                    os.write(w, pickle.dumps(out))
                except BaseException as e:
                    try:
                        os.write(w, pickle.dumps(dict(status='failed', backend='', time=0, tried=['error: %r' % (e,)])))
                    except BaseException:
                        pass
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (i, pid, time.time())
        rl, _, _ = select.select(list(running), [], [], 0.5)
        for fd in rl:
            data = b''
            while True:
                b = os.read(fd, 65536)
                if not b:
                    break
                data += b
            os.close(fd)
            i, pid, t = running.pop(fd)
            os.waitpid(pid, 0)
            res[i] = pickle.loads(data) if data else dict(status='failed', backend='', time=time.time() - t, tried=['solver process died'])
            if 'group' in obls[i] and res[i]['status'] == 'proved':
                # the other configurations of this part are not needed any more
                g = obls[i]['group']
                for j in [j for j in todo if obls[j]['group'] == g]:
                    todo.remove(j)
                    res[j] = dict(status='skipped', backend='', time=0, tried=[])
                for f2 in [f2 for f2, x in running.items() if obls[x[0]]['group'] == g]:
                    j, p2, t2 = running.pop(f2)
                    os.kill(p2, signal.SIGKILL)
                    os.waitpid(p2, 0)
                    os.close(f2)
                    res[j] = dict(status='skipped', backend='', time=0, tried=[])
                rl = [x for x in rl if x in running]
                break
        now = time.time()
        for fd in list(running):
            i, pid, t = running[fd]
            if now - t > budget * 2 + 30:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                res[i] = dict(status='failed', backend='', time=now - t, tried=['killed'])
    return res
