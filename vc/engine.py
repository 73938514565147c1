"""Front end invocation, package initialisation, harness execution."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import z3
import core
from core import *
from externs import Exec4
import relev
from prover import Prover, prove_all
import step
import sym

sys.setrecursionlimit(100000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def goenv(work):
    env = dict(os.environ)
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOSUMDB='off')
    env['GOFLAGS'] = ''
    mod = os.path.join(work, 'drone-yaml.mod')
    if not os.path.exists(mod):
        shutil.copy(os.path.join(REPO, 'go.mod'), mod)
        shutil.copy(os.path.join(REPO, 'go.sum'), os.path.join(work, 'drone-yaml.sum'))
        subprocess.run(['go', 'mod', 'edit', '-exclude=docker.io/go-docker@v1.0.0', mod], env=env, check=True)
    env['GOFLAGS'] = '-modfile=%s -mod=readonly' % mod
    return env


def front_binary():
    out = os.path.join(VERIF, 'bin', 'front')
    src = os.path.join(VERIF, 'front', 'main.go')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    env = dict(os.environ)
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOSUMDB='off', GOFLAGS='-mod=mod')
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.join(VERIF, 'front'), env=env, check=True)
    os.replace(tmp, out)
    return out


def pkgname(dirpath):
    for f in sorted(glob.glob(os.path.join(dirpath, '*.go'))):
        if f.endswith('_test.go'):
            continue
        m = re.search(r'^package\s+(\w+)', open(f).read(), re.M)
        if m:
            return m.group(1)
    return None


class Load:
    """overlay + SSA of the current tree"""

    def __init__(self, specfiles, work):
        """specfiles: paths below VERIF/spec"""
        self.work = work
        self.dropped = []
        self.files = list(specfiles)
        self.error = None
        env = goenv(work)
        front = front_binary()
        for _ in range(len(self.files) + 2):
            self.overlay = self.mkoverlay()
            ov = os.path.join(work, 'overlay.json')
            json.dump({'Replace': self.overlay}, open(ov, 'w'))
            out = os.path.join(work, 'prog.json')
            r = subprocess.run([front, '-dir', REPO, '-overlay', ov, '-o', out, './...'], env=env,
                               capture_output=True, text=True, cwd=REPO)
            if r.returncode == 0:
                self.prog = Program(out)
                return
            bad = set(re.findall(r'zz_verif_(\w+)\.go', r.stderr))
            bad.discard('rt')
            drop = [f for f in self.files if os.path.basename(f)[:-3] in bad]
            self.stderr = r.stderr
            if not drop:
                self.error = r.stderr
                self.prog = None
                return
            for f in drop:
                self.files.remove(f)
                self.dropped.append((f, '\n'.join(l for l in r.stderr.split('\n') if 'zz_verif_' in l)[:2000]))
        self.prog = None
        self.error = 'specification files do not load'

    def mkoverlay(self):
        ov = {}
        tmpl = open(os.path.join(VERIF, 'spec', 'rt.go.tmpl')).read()
        dirs = {}
        for f in self.files:
            rel = os.path.relpath(f, os.path.join(VERIF, 'spec'))
            d = os.path.dirname(rel)
            dirs[d] = True
            ov[os.path.join(REPO, d, 'zz_verif_' + os.path.basename(f))] = f
        self.dirs = sorted(dirs)
        for d in dirs:
            pn = pkgname(os.path.join(REPO, d))
            rt = os.path.join(self.work, 'rt_%s.go' % d.replace('/', '_'))
            open(rt, 'w').write(tmpl.replace('package PKG', 'package ' + str(pn), 1))
            ov[os.path.join(REPO, d, 'zz_verif_rt.go')] = rt
        return ov


class Result:
    pass


def new_exec(prog, opts=None):
    ex = Exec4(prog, opts)
    ex.prover = Prover()
    return ex


def initial_state(ex):
    return sym.State([], {}, {}, ex.alloc0)


def run_init(ex, pkg, st):
    """symbolically executes the package initialisers (module packages only)"""
    ex.initdone = set()
    name = pkg + '.init'
    if name in ex.p.funcs and ex.p.funcs[name].get('blocks'):
        fake = {'t': None, 'args': [], 'pos': ''}
        ex.specmode += 1
        r = ex.exec_func(name, [], (), st)
        ex.specmode -= 1
        if r is None:
            raise Unsupported('package initialisation panics')
        st = r[1]
    return st


def run_harness(prog, name, opts=None, setup=None):
    t0 = time.time()
    ex = new_exec(prog, opts)
    if setup:
        setup(ex)
    fn = prog.funcs[name]
    st = initial_state(ex)
    st = run_init(ex, fn['pkg'], st)
    ex.harness = name
    ex.find_contracts()
    ex.start_state = st.copy()
    args = []
    for p in fn['params']:
        args.append(ex.freshval('arg.' + p['name'], p['t'], st.alloc))
    ex.cur_alloc = st.alloc
    ex.argrefs = [a.base for a in args if isinstance(a, sym.PtrV)]
    ex.inlined = set()
    ex.assumed = set()
    r = ex.exec_func(name, args, (), st)
    res = Result()
    res.ex = ex
    res.obls = ex.scope.obls
    res.facts = ex.scope.facts
    res.time = time.time() - t0
    res.end = r
    return res


def to_queries(res, harness):
    out = []
    rel = relev.Relev(res.ex.subj)
    rel.cref = res.ex.constrefs
    for o in res.obls:
        hyps = res.facts[:o.nfacts] + o.hyps
        out.append(dict(name=o.name, kind=o.kind, harness=harness, hyps=hyps, goal=o.goal, pos=o.pos, relev=rel, lens=res.ex.condlens,
                        idxfs=[r[1] for r in getattr(res.ex, 'ranges', []) if not r[2]]))
    return out


def reset_harness():
    core.reset()
