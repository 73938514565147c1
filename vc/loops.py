"""Iteration-indexed loop summaries.

A loop with iteration index k and exit iteration n is summarised by
  * a function of k for every carried item (closed form if one is found),
  * for all k in [0,n): the path condition of the back edge, the facts and the
    recurrence s(k+1) = next(k),
  * at n: the facts and the path condition of the exit taken,
  * lemmas that hold for every sequence whose one-step relation is reflexive
    and transitive (monotone counters, growing slices and sets, preserved heap
    frames) or for every sequence at all (last change before n).
No user annotation; every lemma is an induction on k whose step is checked
syntactically or by the solver on the recurrence generated from the code.
"""
import os
import z3
import core
import relev
from core import *
from step import Exec2, Panic
from sym import *


class Item:
    def __init__(self, kind, key, app, init, group=None, pos=0):
        self.kind, self.key, self.app, self.init = kind, key, app, init
        self.nxt = None
        self.solved = None
        self.group, self.pos = group, pos


class LoopSum:
    pass


def contains(t, pred, memo=None):
    if memo is None:
        memo = {}
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if pred(x):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def subterms(ts):
    stack = list(ts)
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield x
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())


def subst(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


class Exec3(Exec2):
    cur_loop = None

    Ix = z3.Function('Ix', IntS, BoolS)

    # ------------------------------------------------------------ value maps
    def mapv(self, v, f):
        if isinstance(v, SliceV):
            return SliceV(f(v.ln), f(v.arr), f(v.nil), v.t, v.snap,
                          None if v.cell is None else (f(v.cell[0]), v.cell[1]))
        if isinstance(v, StructV):
            return StructV(v.t, [self.mapv(x, f) for x in v.fs])
        if isinstance(v, IfV):
            return IfV(f(v.tag), f(v.pay), v.snap)
        if isinstance(v, PtrV):
            return PtrV(f(v.base), v.root, self.mappath(v.path, f), v.t, v.snap)
        if isinstance(v, CellV):
            return CellV(v.cid, self.mappath(v.path, f), v.t)
        if isinstance(v, ElemV):
            return ElemV(self.mapv(v.val, f), v.vt, self.mappath(v.path, f), v.t, v.snap)
        if isinstance(v, MapV):
            return MapV(f(v.ref), v.t, v.snap)
        if isinstance(v, FuncV):
            if v.fn is None:
                return self.funcval(f(v.ref), v.t)
            nb = [self.mapv(b, f) for b in v.binds]
            return FuncV(v.fn, nb, None, v.t)
        if isinstance(v, TupleV):
            return TupleV([self.mapv(x, f) for x in v.vs])
        if isinstance(v, ByteCellV):
            return ByteCellV(f(v.ref), v.t, None if v.lo is None else f(v.lo), None if v.hi is None else f(v.hi))
        if isinstance(v, MapIterV):
            return v
        if v is None:
            return None
        return f(v)

    def mappath(self, p, f):
        return tuple(('i', f(e[1])) if isinstance(e, tuple) else e for e in p)

    def setsnap(self, v, like):
        s = getattr(like, 'snap', None)
        if s is not None and hasattr(v, 'snap'):
            v.snap = s
        if isinstance(v, StructV) and isinstance(like, StructV):
            for a, b in zip(v.fs, like.fs):
                self.setsnap(a, b)
        return v

    def typeof(self, v, t):
        return t

    # ------------------------------------------------------------ the loop rule
    def exec_loop(self, act, loop, incoming):
        from sym import loops_of
        blocks = loops_of(act.fn)[0]
        hdr = blocks[loop.header]
        phis, items0 = self.set_phis(act, hdr, incoming)
        items0 = [(s, [self.mat(s, v) for v in vs]) for s, vs in items0]
        m = self.merge(items0)
        if m is None:
            return {'exits': [], 'returns': []}
        st0, phi0 = m
        self.n += 1
        tag = 'L%d' % self.n
        outer = list(self.idx)
        k = z3.Const('k' + tag, IntS)
        n = self.fresh('n' + tag, IntS)
        d = len(outer) + 1
        itf = z3.Function('it' + tag, *([IntS] * d + [BoolS]))
        itwf = z3.Function('itw' + tag, *([IntS] * d + [BoolS]))
        saved = dict(act.regs)
        saved_loop, saved_scope = self.cur_loop, self.scope
        modheap, modcells, modalloc = set(), set(), False
        base_n = self.n
        for attempt in range(10):
            act.regs.clear()
            act.regs.update(saved)
            self.idx = outer + [k]
            self.scope = Scope(parent=saved_scope)
            self.cur_loop = loop
            # fresh symbols must not clash across discarded attempts
            self.pcstack.append(st0.pc)
            try:
                r = self._body(act, loop, hdr, phis, phi0, st0, modheap, modcells, modalloc, tag, k, n, d)
            finally:
                self.pcstack.pop()
            self.idx = outer
            scope, self.scope = self.scope, saved_scope
            self.cur_loop = saved_loop
            if r is None:
                continue_ = False
            items, start, B, nphis, reg, inv_bad = r
            grew = False
            if B is not None:
                for key, a in B.heap.items():
                    if key in modheap:
                        continue
                    b = start.heap.get(key)
                    if b is None:
                        b = self.h0[key]
                    if not a.eq(b):
                        modheap.add(key)
                        grew = True
                for cid, v in B.cells.items():
                    if cid in modcells or cid not in st0.cells:
                        continue
                    if not self.sameval(v, start.cells[cid]):
                        modcells.add(cid)
                        grew = True
                if not modalloc and not B.alloc.eq(start.alloc):
                    modalloc = True
                    grew = True
            if not grew:
                break
        else:
            raise Unsupported('loop did not stabilise')
        return self.summarise(act, loop, saved, scope, items, start, B, reg, st0, tag, k, n, outer, itf, itwf)

    def sameval(self, a, b):
        try:
            fa, fb = self.flatten(a), self.flatten(b)
        except Unsupported:
            return a is b
        return len(fa) == len(fb) and all(x.eq(y) for x, y in zip(fa, fb))

    def _body(self, act, loop, hdr, phis, phi0, st0, modheap, modcells, modalloc, tag, k, n, d):
        idx = list(self.idx)
        items = []
        st = State([], dict(st0.heap), dict(st0.cells), st0.alloc)

        def new(kind, key, init, group=None, pos=0):
            nm = '%s.%s' % (tag, key)
            f = z3.Function(nm, *([IntS] * d + [init.sort()]))
            app = f(*idx)
            it = Item(kind, key, app, init, group, pos)
            items.append(it)
            return app
        if modalloc:
            a = new('alloc', 'alloc', st0.alloc)
            BND.parent['%s.alloc' % tag] = (idx, st0.alloc)
            st.alloc = a
            self.fact(a >= st0.alloc)
        self.cur_alloc = st.alloc

        def newval(kind, key, v0, t):
            ts = self.flatten(v0)
            grp = {}
            apps = []
            for j, x in enumerate(ts):
                nm = '%s.%d' % (key, j)
                apps.append(new(kind, nm, x))
                BND.epoch['%s.%s' % (tag, nm)] = (idx, st.alloc)
            v = self.unflatten(apps, t)
            self.mark_groups(v, items)
            self.wellformed(v, t)
            return self.setsnap(v, v0)
        invs = []
        for ph, v0 in zip(phis, phi0):
            if v0 is None:
                continue
            t = ph['t']
            try:
                act.regs[ph['reg']] = newval('phi', ph['reg'], v0, t)
            except Unsupported:
                act.regs[ph['reg']] = v0
                invs.append((ph, v0))
        for key in sorted(modheap):
            init = st0.heap.get(key)
            if init is None:
                init = self.h0[key]
            app = new('heap', key, init)
            BND.epoch['%s.%s' % (tag, key)] = (idx, st.alloc)
            st.heap[key] = app
            if key.startswith('dom:'):
                self.fact(z3.Select(app, z3.IntVal(0)) == z3.K(init.sort().range().domain(), core._false))
        for cid in sorted(modcells, key=str):
            v0 = self.mat(st0, st0.cells[cid])
            st.cells[cid] = newval('cell', 'c%s_%s' % cid, v0, self.celltype[cid])
        start = st.copy()
        res = self.run_region(act, loop, [(-1, st)], loop.header)
        backs = []
        for frm, s in res['backs']:
            vals = []
            pi = hdr['preds'].index(frm)
            for ph, v0 in zip(phis, phi0):
                if v0 is None:
                    vals.append(None)
                    continue
                vals.append(self.mat(s, self.val(act, ph['edges'][pi], s)))
            cs = dict(s.cells)
            for cid in modcells:
                cs[cid] = self.mat(s, cs[cid])
            backs.append((State(s.pc, s.heap, cs, s.alloc), vals))
        m = self.merge(backs)
        B = None
        nphis = []
        bad = False
        if m is not None:
            B, nphis = m
            for (ph, v0), nv in zip(zip(phis, phi0), nphis):
                if any(p is ph for p, _ in invs):
                    if not self.sameptr(v0, nv):
                        raise Unsupported('loop-carried value %s of unsupported kind' % ph['reg'])
                    continue
            byapp = {}
            for (ph, v0), nv in zip(zip(phis, phi0), nphis):
                if v0 is None or any(p is ph for p, _ in invs):
                    continue
                for j, x in enumerate(self.flatten(nv)):
                    byapp['%s.%s.%d' % (tag, ph['reg'], j)] = x
            for key in modheap:
                byapp['%s.%s' % (tag, key)] = B.heap[key]
            for cid in modcells:
                for j, x in enumerate(self.flatten(B.cells[cid])):
                    byapp['%s.c%s_%s.%d' % (tag, cid[0], cid[1], j)] = x
            if modalloc:
                byapp['%s.alloc' % tag] = B.alloc
            for it in items:
                it.nxt = byapp[it.app.decl().name()]
        return items, start, B, nphis, res, bad

    def sameptr(self, a, b):
        if a is b:
            return True
        if isinstance(a, (PtrV, CellV, ElemV)) and type(a) is type(b):
            try:
                if isinstance(a, PtrV):
                    return a.base.eq(b.base) and self.samepath(a.path, b.path)
                if isinstance(a, CellV):
                    return a.cid == b.cid and self.samepath(a.path, b.path)
            except Exception:
                return False
        return False

    def mark_groups(self, v, items):
        if isinstance(v, SliceV):
            by = {it.app.get_id(): it for it in items}
            g = [by.get(v.ln.get_id()), by.get(v.arr.get_id()), by.get(v.nil.get_id())]
            if all(g):
                for i, it in enumerate(g):
                    it.group, it.pos = g, i
        elif isinstance(v, StructV):
            for x in v.fs:
                self.mark_groups(x, items)

    def wellformed(self, v, t):
        u = self.p.under(t)
        if isinstance(v, StructV):
            for x, f in zip(v.fs, u['fields'] or []):
                self.wellformed(x, f['type'])
        elif isinstance(v, SliceV):
            self.fact(v.ln >= 0)
            self.fact(z3.Implies(v.nil, v.ln == 0))
        elif isinstance(v, IfV):
            self.fact(v.tag >= 0)
            self.fact(z3.Implies(v.tag == 0, v.pay == 0))
        elif isinstance(v, PtrV):
            self.boundref(v.base)
        elif isinstance(v, MapV):
            self.boundref(v.ref)
        elif not isinstance(v, Val) and u['k'] == 'basic':
            self.intfact(v, u['name'])

    # ------------------------------------------------------------ closed forms
    def solve(self, items, k, tag):
        """returns the list of substitution rounds; mutates items"""
        rounds = []
        decls = {it.app.decl().name(): it for it in items}

        def dep(t, names):
            return contains(t, lambda x: z3.is_app(x) and opkind(x) == z3.Z3_OP_UNINTERPRETED and
                            x.decl().name() in names)

        def hask(t):
            return contains(t, lambda x: x.eq(k))
        changed = True
        memo = {}
        while changed:
            changed = False
            pairs = []
            un = set(i.app.decl().name() for i in items if i.solved is None)
            for it in list(items):
                if it.solved is not None:
                    continue
                nx = it.nxt
                cl = None
                last = False
                if nx.eq(it.app):
                    cl = it.init
                elif it.app.sort() == IntS and sub_lin(nx, it.app) is not None:
                    c = sub_lin(nx, it.app)
                    cl = add(z3.simplify(k * c) if c != 1 else k, it.init)
                elif it.kind != 'alloc' and not z3.is_array(nx) and not dep(nx, un):
                    prev = subst(nx, [(k, k - 1)]) if hask(nx) else nx
                    cl = ite(k <= 0, it.init, prev)
                    if nx.eq(it.init):
                        cl = it.init
                    last = True
                elif not pairs and it.kind == 'heap' and z3.is_array(nx):
                    cl = self.scalarize(it, items, k, tag, dep)
                    last = True
                if cl is not None:
                    it.solved = cl
                    pairs.append((it.app, cl))
                    if last:
                        break
            if pairs:
                changed = True
                rounds.append(pairs)
                for it in items:
                    if it.solved is None and it.nxt is not None:
                        nn = subst(it.nxt, pairs)
                        if not nn.eq(it.nxt):
                            it.nxt = self.resimp(nn, memo)
        return rounds

    def prune(self, items, rounds, scope, st0, B, k, n, it_k):
        """branches of a conditional append that are always or never taken"""
        if self.prover is None or self.specmode:
            return False
        changed = False
        hyps = None
        for it in items:
            if it.solved is not None or it.nxt is None or not (it.group and it.pos == 0) or not isite(it.nxt):
                continue
            while isite(it.nxt):
                c, a, b = it.nxt.children()
                if hyps is None:
                    cl = lambda t: t
                    hyps = self.visible_facts() + [c for p in self.pcstack for c in p] + list(st0.pc)
                    body = list(scope.facts) + list(B.pc)
                    for r in rounds:
                        body = [subst(x, r) for x in body]
                    hyps += body + [k >= 0, k < n, it_k, self.Ix(k)]
                if self.prover.quick(hyps, c, 700):
                    it.nxt = a
                elif self.prover.quick(hyps, z3.Not(c), 700):
                    it.nxt = b
                else:
                    break
                changed = True
        return changed

    def resimp(self, t, memo=None):
        """cheap re-simplification after substitution (selects over stores,
        datatype accessors)"""
        if memo is None:
            memo = {}

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i][1]
            r = x
            if z3.is_app(x) and x.num_args() > 0:
                ch = [go(c) for c in x.children()]
                kd = opkind(x)
                if kd == z3.Z3_OP_SELECT:
                    r = sel(ch[0], ch[1])
                elif kd == z3.Z3_OP_STORE:
                    r = core.store(ch[0], ch[1], ch[2])
                elif kd == z3.Z3_OP_ITE:
                    r = merge_arr(ch[0], ch[1], ch[2]) if z3.is_array(ch[1]) else mite(ch[0], ch[1], ch[2])
                elif kd == z3.Z3_OP_DT_ACCESSOR:
                    s = ch[0].sort()
                    for q in range(s.constructor(0).arity()):
                        if s.accessor(0, q).eq(x.decl()):
                            r = acc(s, q, ch[0])
                            break
                elif kd == z3.Z3_OP_ADD and x.sort() == IntS:
                    r = ch[0]
                    for c in ch[1:]:
                        r = add(r, c)
                elif kd == z3.Z3_OP_AND:
                    r = conj(ch)
                elif kd == z3.Z3_OP_OR:
                    r = disj(ch)
                elif kd == z3.Z3_OP_NOT:
                    r = nt(ch[0])
                elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch)
            memo[i] = (x, r)
            return r
        return go(t)

    def decompose(self, t, base):
        """array term as base + writes: {ref: fn() -> value} or None.  Only
        stores and ites over the same base."""
        refs = []

        def go(x):
            if x.eq(base):
                return True
            if is_store(x):
                if not go(x.arg(0)):
                    return False
                if not any(q.eq(x.arg(1)) for q in refs):
                    refs.append(x.arg(1))
                return True
            if isite(x):
                return go(x.arg(1)) and go(x.arg(2))
            return False
        return refs if go(t) else None

    def scalarize(self, it, items, k, tag, dep):
        refs = self.decompose(it.nxt, it.app)
        if not refs:
            return None
        names = set(i.app.decl().name() for i in items if i.solved is None)
        for r in refs:
            if contains(r, lambda x: x.eq(k)) or dep(r, names):
                return None
        for i in range(len(refs)):
            for j in range(i):
                if not BND.distinct(refs[i], refs[j]):
                    return None
        out = it.init
        idx = [it.app.arg(i) for i in range(it.app.num_args())]
        news = []
        for q, r in enumerate(refs):
            init = sel(it.init, r)
            val = sel(it.nxt, r)
            news.append((r, init, val, q))
        for r, init, val, q in news:
            s = init.sort()
            key = '%s@%d' % (it.key, q)
            if s.kind() == z3.Z3_DATATYPE_SORT:
                ar = s.constructor(0).arity()
                apps, grp = [], []
                for a in range(ar):
                    x = acc(s, a, init)
                    f = z3.Function('%s.%s.%d' % (tag, key, a), *([IntS] * len(idx) + [x.sort()]))
                    app = f(*idx)
                    BND.epoch[f.name()] = BND.epoch.get(it.app.decl().name(), ([], self.alloc0))
                    ni = Item('loc', '%s.%d' % (key, a), app, x)
                    ni.nxt = acc(s, a, val)
                    ni.loc = (it.key, r)
                    items.append(ni)
                    apps.append(app)
                    grp.append(ni)
                if s.name().startswith('Slice<'):
                    for i2, g in enumerate(grp):
                        g.group, g.pos = grp, i2
                    self.fact_extra.append(apps[0] >= 0)
                    self.fact_extra.append(z3.Implies(apps[2], apps[0] == 0))
                out = core.store(out, r, s.constructor(0)(*apps))
            else:
                f = z3.Function('%s.%s' % (tag, key), *([IntS] * len(idx) + [s]))
                app = f(*idx)
                BND.epoch[f.name()] = BND.epoch.get(it.app.decl().name(), ([], self.alloc0))
                ni = Item('loc', key, app, init)
                ni.nxt = val
                ni.loc = (it.key, r)
                items.append(ni)
                out = core.store(out, r, app)
        return out

    # ------------------------------------------------------------ tags
    def tagged(self, names, f):
        """a fact that only says something about the named sequences"""
        self.subj[f.get_id()] = (f, (names,) if isinstance(names, str) else tuple(names))
        self.fact(f)

    def retag(self, old, new):
        r = self.subj.get(old.get_id())
        if r is not None:
            self.subj[new.get_id()] = (new, r[1])
        return new

    def conjuncts(self, f):
        if z3.is_and(f) and f.get_id() not in self.subj:
            return [y for x in f.children() for y in self.conjuncts(x)]
        return [f]

    # ------------------------------------------------------------ summary
    def summarise(self, act, loop, saved, scope, items, start, B, res, st0, tag, k, n, outer, itf, itwf):
        idx = outer + [k]
        self.fact_extra = []
        facts = list(scope.facts)
        rounds = []
        if B is not None:
            rounds = self.solve(items, k, tag)
            if self.prune(items, rounds, scope, st0, B, k, n, itf(*idx)):
                rounds += self.solve(items, k, tag)
        facts += self.fact_extra

        def closed(t):
            t0 = t
            for r in rounds:
                t = subst(t, r)
            return t if t.eq(t0) else self.resimp(t, clmemo)
        clmemo = {}
        cmemo = {}

        def cl(t):
            i = t.get_id()
            if i not in cmemo:
                cmemo[i] = (t, closed(t))
            return cmemo[i][1]

        def at(t, j):
            return subst(t, [(k, j)])
        facts = [self.retag(f, cl(f)) for f in facts]
        live = [it for it in items if it.solved is None]
        for it in live:
            if it.nxt is not None:
                it.nxt = cl(it.nxt)
            it.init = cl(it.init)
        S = LoopSum()
        S.tag, S.k, S.n, S.outer, S.itf, S.itwf = tag, k, n, outer, itf, itwf
        S.facts, S.items, S.allitems = facts, live, items
        S.pos = act.fn['name'].split('/')[-1]
        S.children = scope.loops
        S.spec = self.specmode > 0
        S.st0pc = list(st0.pc)
        S.backpc = [cl(c) for c in B.pc] if B is not None else [core._false]
        it_k = itf(*idx)
        itw_k = itwf(*idx)
        S.rec = [at(it.app, k + 1) == it.nxt for it in live if it.nxt is not None]
        self.fact(n >= 0)
        if B is None:
            self.fact(n == 0)
        for it in live:
            self.tagged(it.app.decl().name(), at(it.app, z3.IntVal(0)) == it.init)
        guard = z3.And(k >= 0, k < n)
        body = conj(facts + S.backpc + S.rec)
        S.natural = self.natural(facts + S.backpc + [it.nxt for it in live if it.nxt is not None], k, live, idx)
        if B is not None and not z3.is_true(body):
            pats = [it_k, itw_k] + S.natural
            for x in [y for f in facts + S.backpc for y in self.conjuncts(f)]:
                if not z3.is_true(x):
                    self.fact(self.retag(x, forall([k], z3.Implies(guard, x), patterns=pats)))
            for it, x in zip([it for it in live if it.nxt is not None], S.rec):
                self.tagged(it.app.decl().name(), forall([k], z3.Implies(guard, x), patterns=pats))
            if True:
                self.fact(z3.Implies(n > 0, z3.And(at(it_k, n - 1), at(it_k, z3.IntVal(0)))))
        for f in facts:
            self.fact(self.retag(f, at(f, n)))
        vs = outer + [k]
        for x in S.natural:
            if x.decl().name().startswith('key#'):
                self.fact(forall([k], it_k, patterns=[x]))
        gi = [z3.Const('x!%d' % q, IntS) for q in range(len(vs))]
        self.root.facts.append(forall(gi, z3.Implies(conj([self.Ix(g) for g in gi]), itf(*gi)),
                                      patterns=[MP(*[self.Ix(g) for g in gi])]))
        # exits
        exn = {}

        def atn(t):
            i = t.get_id()
            if i not in exn:
                x = at(cl(t), n)
                exn[i] = (t, x if t.eq(x) else self.resimp(x))
            return exn[i][1]

        def state_at(s):
            heap = {}
            for key, a in s.heap.items():
                b = st0.heap.get(key)
                heap[key] = a if (b is not None and a.eq(b)) else atn(a)
            cells = {}
            for cid, v in s.cells.items():
                cells[cid] = v if (cid in st0.cells and v is st0.cells[cid]) else self.mapv(v, atn)
            s2 = State(list(st0.pc), heap, cells, atn(s.alloc))
            for c in s.pc:
                self.addpc(s2, atn(c))
            return s2
        S.exitpcs = []
        exits = []
        for frm, to, s in res['exits']:
            s2 = state_at(s)
            S.exitpcs.append(conj([atn(c) for c in s.pc]))
            exits.append((frm, to, s2))
        returns = []
        for s, vals in res['returns']:
            s2 = state_at(s)
            S.exitpcs.append(conj([atn(c) for c in s.pc]))
            returns.append((s2, [self.mapv(v, atn) for v in vals]))
        for rg, v in list(act.regs.items()):
            if rg in saved and saved[rg] is v:
                continue
            act.regs[rg] = self.mapv(v, atn)
        # obligations raised inside the body: the first failing iteration
        for o in scope.obls:
            hy = list(st0.pc) + [k == n, it_k] + facts[:max(o.nfacts, 0)] + [cl(h) for h in o.hyps]
            o2 = Obl(o.name, o.kind, hy, cl(o.goal), o.pos, None)
            o2.pending = self.scope
            o2.idx = [k] + o.idx
            self.scope.obls.append(o2)
        S.start_alloc, S.st0alloc = start.alloc, st0.alloc
        S.cl = cl
        if B is not None:
            self.lemmas(S, live, at, cl, start, st0, res)
        for o in self.scope.obls:
            if getattr(o, 'pending', None) is self.scope:
                o.nfacts = len(self.scope.facts)
                o.pending = None
        S.code, S.where, S.parentscope = self.incode(), (act.fn['name'], loop.header), self.scope
        if B is not None:
            self.couple(S, at)
        self.scope.loops.append(S)
        self.allloops.append(S)
        for it in live:
            if it.group and it.pos == 0 and it.solved is None and self.specmode == 0:
                self.condlens.append(it.app.decl())
        self.cur_alloc = exits[0][2].alloc if exits else st0.alloc
        return {'exits': exits, 'returns': returns}

    def natural(self, ts, k, live, idx):
        """trigger terms X[k] / key(k) with nothing else depending on k"""
        lv = {it.app.decl().name() for it in live}
        out, seen = [], set()
        kid = k.get_id()
        hk = {}

        def hask(x):
            i = x.get_id()
            if i not in hk:
                hk[i] = (x, contains(x, lambda y: y.get_id() == kid))
            return hk[i][1]
        for x in subterms(ts):
            if not z3.is_app(x):
                continue
            if contains(x, z3.is_var):
                continue
            kd = opkind(x)
            if kd == z3.Z3_OP_SELECT and x.arg(1).get_id() == kid and not hask(x.arg(0)):
                pass
            elif kd == z3.Z3_OP_UNINTERPRETED and x.num_args() >= 1 and x.decl().name() not in lv and \
                    (x.decl().name().startswith('key#') or x.decl().name() in ('byteat', 'runeval', 'runepos')) and \
                    x.arg(x.num_args() - 1).get_id() == kid and \
                    not any(hask(x.arg(i)) for i in range(x.num_args() - 1)):
                pass
            else:
                continue
            if isinstance(x, z3.ArrayRef) and False:
                continue
            if z3.is_app(x) and kd == z3.Z3_OP_SELECT and (isite(x.arg(0)) or is_store(x.arg(0)) or z3.is_K(x.arg(0))):
                continue
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            out.append(x)
        out.sort(key=lambda x: (len(str(x)), str(x)))
        return out[:5]

    # ------------------------------------------------------------ lemmas
    def writes(self, t, base, out, seen=None):
        """collect (ref, value) of stores in array term t over base; returns
        False if t has another shape.  Inner loop arrays are looked through
        with their recorded write sets ('range' entries)."""
        if seen is None:
            seen = set()
        if t.get_id() in seen:
            return True
        seen.add(t.get_id())
        if t.eq(base):
            return True
        if is_store(t):
            out.append((t.arg(1), t.arg(2)))
            return self.writes(t.arg(0), base, out, seen)
        if isite(t):
            return self.writes(t.arg(1), base, out, seen) and self.writes(t.arg(2), base, out, seen)
        if z3.is_app(t) and t.decl().name() in self.wset:
            formals, init, ws, fresh_after = self.wset[t.decl().name()]
            ps = [(f, t.arg(i)) for i, f in enumerate(formals)]
            if ws is None:
                return False
            for r in ws:
                out.append((subst(r, ps), None))
            if fresh_after is not None:
                out.append((('fresh', subst(fresh_after, ps)), None))
            return self.writes(subst(init, ps), base, out, seen)
        return False

    def lemmas(self, S, live, at, cl, start, st0, res):
        k, n, outer, itf = S.k, S.n, S.outer, S.itf
        idx = outer + [k]
        i, j = z3.Const('i' + S.tag, IntS), z3.Const('j' + S.tag, IntS)

        def IT(x):
            return itf(*(outer + [x]))

        def ITW(x):
            return S.itwf(*(outer + [x]))
        S.lem = []
        S.cursubj = ()

        def lem(f):
            self.tagged(S.cursubj, f)
        done = set()

        def wfun(name, sorts, rng=IntS):
            self.n += 1
            return z3.Function('%s!%s%d' % (name, S.tag, self.n), *([IntS] * len(outer) + sorts + [rng]))
        # values of the previous iteration that keep below a bound
        for it in S.allitems:
            if it.solved is None or it.nxt is None or it.app.sort() != IntS or it.kind != 'phi':
                continue
            N = S.cl(it.nxt)
            cs = self.bounds.get(N.decl().name(), ()) if z3.is_app(N) else ()
            V, V0 = S.cl(it.app), S.cl(it.init)
            if cs:
                S.cursubj = (N.decl().name(),)
                if self.istep(S, V <= N):
                    lem(forall([k], z3.Implies(z3.And(0 <= k, k <= n), V0 <= V), patterns=[IT(k)]))
            for c in sorted(cs)[:3]:
                if self.istep(S, z3.Implies(V < c, N < c)):
                    lem(forall([k], z3.Implies(z3.And(0 <= k, k <= n, V0 < c), V < c), patterns=[IT(k)]))
                    lem(z3.Implies(V0 < c, at(V, n) < c))
        # byte buffers keep their length
        for it in S.allitems:
            if it.nxt is None or it.app.sort() != StrS and not (it.kind == 'heap' and it.key == 'cell:bytes' and it.solved is not None):
                continue
            N, V, V0 = S.cl(it.nxt), S.cl(it.app), S.cl(it.init)
            tr = [(N, V, V0)]
            if it.app.sort() != StrS:
                tr = [(sel(N, r), v, sel(V0, r)) for r, v in chain_of(V)[1]] if is_store(V) else []
            for N, V, V0 in tr:
                if V.eq(V0) or not self.keepslen(N, V, S.cl):
                    continue
                S.cursubj = tuple(x.decl().name() for x in (N, it.app) if z3.is_app(x))
                if it.solved is None:
                    self.keeplen[it.app.decl().name()] = (outer + [k], it.init)
                lem(forall([k], z3.Implies(z3.And(0 <= k, k <= n), slen(V) == self.strlen(V0)), patterns=[IT(k)]))
                lem(slen(at(V, n)) == self.strlen(V0))
        # integers and booleans
        def subj(it):
            S.cursubj = tuple(g.app.decl().name() for g in it.group) if it.group else (it.app.decl().name(),)
        for it in live:
            subj(it)
            s = it.app.sort()
            if s == IntS:
                up = BND.le(it.app, it.nxt) or self.sge(it.nxt, it.app)
                dn = False if up else self.sge(it.app, it.nxt)
                if not up and not dn and it.kind in ('phi', 'cell') and not it.group and self.small(it.nxt):
                    up = self.istep(S, it.app <= it.nxt)
                    dn = False if up else self.istep(S, it.app >= it.nxt)
                if up:
                    self.upmono[it.app.decl().name()] = (outer + [k], it.init)
                    if self.sge(it.init, z3.IntVal(0)):
                        self.nonneg_apps.add(it.app.decl().name())
                for flag, op in ((up, lambda a, b: a <= b), (dn, lambda a, b: a >= b)):
                    if not flag:
                        continue
                    lem(forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), op(at(it.app, i), at(it.app, j))),
                                  patterns=[MP(IT(i), IT(j))]))
                    lem(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                        op(it.init, at(it.app, i)), op(at(it.app, i), at(it.nxt, i)), op(at(it.nxt, i), at(it.app, n)))),
                        patterns=[IT(i), ITW(i)]))
                    lem(op(it.init, at(it.app, n)))
                it.up = up
                if up and it.kind in ('phi', 'cell') and not it.group and it.solved is None:
                    # an upper bound that the loop tests for: it holds on the way
                    # if it held at the start
                    cs = set()
                    for t in subterms(list(S.backpc)):
                        if opkind(t) in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and t.arg(0).sort() == IntS:
                            for c, o in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                                if z3.is_int_value(c) and contains(o, lambda x: x.eq(it.app)):
                                    cs.add(c.as_long())
                    if z3.is_app(it.nxt):
                        cs |= self.bounds.get(it.nxt.decl().name(), set())
                    for c in sorted(cs)[:4]:
                        if c > 0 and self.istep(S, z3.Implies(it.app < c, it.nxt < c)):
                            self.bounds.setdefault(it.app.decl().name(), set()).add(c)
                            lem(z3.Implies(it.init < c, at(it.app, n) < c))
                            lem(forall([i], z3.Implies(z3.And(0 <= i, i <= n, it.init < c), at(it.app, i) < c), patterns=[IT(i)]))
            if s in (BoolS, StrS, IntS) and it.kind != 'alloc' and not (it.group and it.pos == 0):
                w = wfun('lc', [])(*outer)
                ap_n = at(it.app, n)
                lem(z3.And(w >= -1, w < n,
                           z3.Implies(w == -1, ap_n == it.init),
                           z3.Implies(w >= 0, z3.And(ITW(w), ap_n == at(it.nxt, w), at(it.app, w) != ap_n))))
                lem(forall([i], z3.Implies(z3.And(w < i, i <= n), at(it.app, i) == ap_n), patterns=[IT(i)]))
                if s == StrS and self.selfdep(it.nxt, it.app):
                    f = wfun('fc', [])(*outer)
                    lem(z3.And(f >= -1, f < n, z3.Implies(f == -1, ap_n == it.init),
                               z3.Implies(f >= 0, z3.And(ITW(f), at(it.app, f) == it.init, at(it.nxt, f) != it.init))))
                    lem(forall([i], z3.Implies(z3.And(i <= f, i >= 0), at(it.app, i) == it.init), patterns=[IT(i)]))
                lem(forall([i], z3.Implies(z3.And(w <= i, i < n, i >= 0), at(it.nxt, i) == ap_n), patterns=[IT(i)]))
                if s == BoolS:
                    for val in (True, False):
                        lit = (lambda x: x) if val else z3.Not
                        if self.imp(lit(it.app), lit(it.nxt)) or (
                                it.kind in ('phi', 'cell') and not it.group and self.small(it.nxt) and
                                self.istep(S, z3.Implies(lit(it.app), lit(it.nxt)))):
                            lem(forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n, lit(at(it.app, i))),
                                                             lit(at(it.app, j))),
                                          patterns=[MP(IT(i), IT(j))]))
        # slices
        for it in live:
            if it.group and it.pos == 1 and id(it) not in done:
                done.add(id(it))
                subj(it)
                L = it.group[0]
                ln = L.solved if L.solved is not None else L.app
                nln = L.nxt if L.solved is None else at(L.solved, k + 1)
                self.slice_lemmas(S, at, ln, nln, it.app, it.nxt, it.init, L.init, lem, IT, wfun, ITW)
        # arrays
        for it in live:
            if not z3.is_array(it.app) or id(it) in done:
                continue
            subj(it)
            if it.kind == 'heap':
                self.heap_lemmas(S, at, it, start, st0, lem, IT, ITW, wfun)
            elif it.group and it.pos == 1:
                pass
            else:
                self.array_lemmas(S, at, it.app, it.nxt, it.init, lem, IT, ITW, wfun)

    # syntactic one-step checks (sound, incomplete)
    def imp(self, a, b, memo=None, d=0):
        """does boolean term a imply boolean term b?"""
        if a.eq(b) or z3.is_true(b) or z3.is_false(a):
            return True
        if memo is None:
            memo = {}
        key = (a.get_id(), b.get_id())
        if key in memo:
            return memo[key]
        memo[key] = False
        if d > 60 or len(memo) > 4000:
            return False
        go = lambda x, y: self.imp(x, y, memo, d + 1)
        ka, kb = opkind(a), opkind(b)
        r = False
        if ka == z3.Z3_OP_ITE:
            c, x, y = a.children()
            r = (go(x, b) or go(c, b)) and (go(y, b) or go(nt(c), b))
        elif kb == z3.Z3_OP_AND:
            r = all(go(a, y) for y in b.children())
        elif ka == z3.Z3_OP_OR:
            r = all(go(x, b) for x in a.children())
        if not r and kb == z3.Z3_OP_ITE:
            c, x, y = b.children()
            r = go(a, x) and go(a, y)
        if not r and kb == z3.Z3_OP_OR:
            r = any(go(a, y) for y in b.children())
        if not r and ka == z3.Z3_OP_AND:
            r = any(go(x, b) for x in a.children())
        if not r and ka == z3.Z3_OP_NOT and kb == z3.Z3_OP_NOT:
            r = go(b.arg(0), a.arg(0))
        memo[key] = r
        return r

    def linsum(self, t, c, out):
        kd = opkind(t)
        if z3.is_int_value(t):
            out[None] = (None, out.get(None, (None, 0))[1] + c * t.as_long())
        elif kd == z3.Z3_OP_ADD:
            for x in t.children():
                self.linsum(x, c, out)
        elif kd == z3.Z3_OP_SUB:
            ch = t.children()
            self.linsum(ch[0], c, out)
            for x in ch[1:]:
                self.linsum(x, -c, out)
        elif kd == z3.Z3_OP_UMINUS:
            self.linsum(t.arg(0), -c, out)
        elif kd == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            self.linsum(t.arg(1), c * t.arg(0).as_long(), out)
        else:
            i = t.get_id()
            out[i] = (t, out.get(i, (None, 0))[1] + c)
        return out

    def nonneg_atom(self, t):
        if z3.is_app(t):
            nm = t.decl().name()
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if nm.startswith('nL') or nm == 'slen':
                    return True
                if nm in self.nonneg_apps:
                    return True
            if opkind(t) == z3.Z3_OP_DT_ACCESSOR and nm.startswith('len_'):
                return True
        return False

    def ge0(self, m, d=0):
        """is the linear sum m (a dict) >= 0?"""
        m = {i: v for i, v in m.items() if v[1] != 0}
        neg = [v for i, v in m.items() if i is not None and v[1] < 0]
        if not neg and m.get(None, (0, 0))[1] >= 0 and all(self.nonneg_atom(v[0]) for i, v in m.items() if i is not None):
            return True
        if d > 12:
            return False

        def repl(i, t, c):
            m2 = dict(m)
            del m2[i]
            return self.linsum(t, c, m2)
        for i, (t, c) in m.items():
            if i is not None and opkind(t) == z3.Z3_OP_ITE:
                return self.ge0(repl(i, t.arg(1), c), d + 1) and self.ge0(repl(i, t.arg(2), c), d + 1)
        for i, (t, c) in m.items():
            if i is None or c < 0:
                continue
            nm = t.decl().name() if z3.is_app(t) else ''
            if nm in self.upmono:
                formals, init = self.upmono[nm]
                ps = [(f, t.arg(q)) for q, f in enumerate(formals)]
                if self.ge0(repl(i, subst(init, ps), c), d + 1):
                    return True
        return False

    def sge(self, a, b):
        if a.eq(b):
            return True
        return self.ge0(self.linsum(b, -1, self.linsum(a, 1, {})))

    def grows(self, t, base, d=0):
        """is the set (Bool array) t a superset of base?"""
        if t.eq(base):
            return True
        if d > 200:
            return False
        if is_store(t):
            v = t.arg(2)
            return (z3.is_true(v) or (opkind(v) == z3.Z3_OP_SELECT and v.arg(1).eq(t.arg(1)) and
                                      v.arg(0).eq(t.arg(0)))) and self.grows(t.arg(0), base, d + 1)
        if isite(t):
            return self.grows(t.arg(1), base, d + 1) and self.grows(t.arg(2), base, d + 1)
        if z3.is_app(t) and t.decl().name() in self.growset:
            formals, init = self.growset[t.decl().name()]
            return self.grows(subst(init, [(f, t.arg(i)) for i, f in enumerate(formals)]), base, d + 1)
        return False

    def grows2(self, t, base, d=0):
        """does every inner set of t contain the one of base?"""
        if t.eq(base):
            return True
        if d > 200:
            return False
        if is_store(t):
            r, v = t.arg(1), t.arg(2)
            return self.grows(v, z3.Select(t.arg(0), r), d + 1) and self.grows2(t.arg(0), base, d + 1) or \
                self.grows(v, sel(base, r), d + 1) and self.grows2(t.arg(0), base, d + 1)
        if isite(t):
            return self.grows2(t.arg(1), base, d + 1) and self.grows2(t.arg(2), base, d + 1)
        if z3.is_app(t) and t.decl().name() in self.growset:
            formals, init = self.growset[t.decl().name()]
            return self.grows2(subst(init, [(f, t.arg(i)) for i, f in enumerate(formals)]), base, d + 1)
        return False

    def istep(self, S, goal):
        """is the one-step relation valid?  quick solver query"""
        if self.prover is None:
            return False
        hyps = self.visible_facts() + [c for p in self.pcstack for c in p] + S.st0pc + S.facts + S.backpc + [S.k >= 0, S.k < S.n]
        return self.prover.quick(hyps, goal)

    def small(self, t, lim=60):
        for c, _ in enumerate(subterms([t])):
            if c > lim:
                return False
        return True

    def visible_facts(self):
        out = []
        s = self.scope
        while s is not None:
            out = s.facts + out
            s = s.parent
        return out

    def slice_lemmas(self, S, at, ln, nln, arr, narr, arr0, ln0, lem, IT, wfun, ITW=None):
        ITW = ITW or IT
        k, n = S.k, S.n
        p = z3.Const('p' + S.tag, IntS)
        i = z3.Const('i' + S.tag, IntS)
        ws = []
        ok = self.writes(narr, arr, ws)
        synt = False
        if ok:
            synt = True
            for r, v in ws:
                if isinstance(r, tuple):
                    synt = False
                    break
                dl = sub_lin(r, ln)
                if dl is None or dl < 0:
                    synt = False
        if not synt:
            q = z3.Const('q!pf', IntS)
            synt = self.istep(S, z3.And(ln <= nln, forall([q], z3.Implies(z3.And(q >= 0, q < ln),
                                                                             sel(narr, q) == sel(arr, q)))))
        elif not (sub_lin(nln, ln) is not None and sub_lin(nln, ln) >= 0):
            synt = self.sge(nln, ln) or self.istep(S, ln <= nln)
        arr_n = at(arr, n)
        ln_n = at(ln, n)
        if not synt:
            # in-place updates: last change per position
            self.array_lemmas(S, at, arr, narr, arr0, lem, IT, IT, wfun)
            return
        w = wfun('stair', [IntS])
        wp = w(*(S.outer + [p]))
        lem(forall([p], z3.And(
            z3.Implies(z3.And(p >= 0, p < ln0), z3.Select(arr_n, p) == sel(arr0, p)),
            z3.Implies(z3.And(p >= ln0, p < ln_n), z3.And(
                wp >= 0, wp < n, at(ln, wp) <= p, p < at(nln, wp), IT(wp),
                z3.Select(arr_n, p) == sel(at(narr, wp), p)))), patterns=[z3.Select(arr_n, p)]))
        fw = []
        for c in range(2):
            pos = add(ln, c)
            fw.append(z3.Implies(pos < nln, z3.Select(arr_n, pos) == sel(narr, pos)))
        lem(forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
            at(conj(fw), i), at(nln, i) <= ln_n, at(ln, i) <= at(nln, i), ln0 <= at(ln, i))), patterns=[IT(i)]))
        # generic forward lemma for longer appends
        lem(forall([i, p], z3.Implies(z3.And(i >= 0, i < n, p >= 0, p < at(nln, i)),
                                         z3.Select(arr_n, p) == sel(at(narr, i), p)),
                      patterns=[MP(IT(i), z3.Select(arr_n, p))]))
        if not is_store(arr0) and not z3.is_K(arr0) and not isite(arr0):
            lem(forall([p], z3.Implies(z3.And(p >= 0, p < ln0), z3.Select(arr_n, p) == z3.Select(arr0, p)),
                          patterns=[z3.Select(arr0, p)]))
        elif is_store(arr0):
            B, ch = chain_of(arr0)
            for r, v in ch:
                lem(z3.Implies(z3.And(r >= 0, r < ln0), z3.Select(arr_n, r) == sel(arr0, r)))
        # reads at a generic iteration
        site = z3.Const('s' + S.tag, IntS)
        lem(forall([i, site, p], z3.Implies(z3.And(i >= 0, i < site, site <= n, p >= 0, p < at(nln, i)),
                                               z3.Select(at(arr, site), p) == sel(at(narr, i), p)),
                      patterns=[MP(IT(i), IT(site), z3.Select(at(arr, site), p))]))

    def heap_lemmas(self, S, at, it, start, st0, lem, IT, ITW, wfun):
        k, n = S.k, S.n
        app, nxt, init = it.app, it.nxt, it.init
        nm = app.decl().name()
        formals = S.outer + [k]
        ws = []
        ok = self.writes(nxt, app, ws)
        consts, other, fresh = [], [], False

        def isfresh(r):
            if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE:
                return isfresh(r.arg(1)) and isfresh(r.arg(2))
            return BND.is_alloc(r) and BND.le(add(start.alloc, 1), r)
        lv = {x.app.decl().name() for x in S.items}
        if ok:
            for r, v in ws:
                if isinstance(r, tuple):
                    if BND.le(start.alloc, r[1]):
                        fresh = True
                    else:
                        other.append(r)
                    continue
                if isfresh(r):
                    fresh = True
                    continue
                hask = contains(r, lambda x: x.eq(k) or (z3.is_app(x) and x.decl().name() in lv))
                if not hask:
                    if not any(c.eq(r) for c in consts):
                        consts.append(r)
                else:
                    other.append((r, v))
        r = z3.Const('r' + S.tag, IntS)
        i = z3.Const('i' + S.tag, IntS)
        A_n = at(app, n)
        if ok and not other:
            # everything written is freshly allocated or one of consts
            self.wset[nm] = (formals, init, list(consts), st0.alloc)
            exc = [r != c for c in consts]
            alloc_k = start.alloc
            nalloc = z3.simplify(at(S.cl(alloc_k), k + 1)) if False else at(S.cl(alloc_k), k + 1)
            lem(forall([r], z3.Implies(z3.And(*([r <= st0.alloc] + exc)), z3.Select(A_n, r) == sel(init, r)),
                          patterns=[z3.Select(A_n, r)]))
            lem(forall([i, r], z3.Implies(z3.And(*([i >= 0, i < n, r <= at(nalloc, i)] + exc)),
                                             z3.Select(A_n, r) == sel(at(nxt, i), r)),
                          patterns=[MP(IT(i), z3.Select(A_n, r))]))
            site = z3.Const('s' + S.tag, IntS)
            lem(forall([i, site, r], z3.Implies(z3.And(*([i >= 0, i < site, site <= n, r <= at(nalloc, i)] + exc)),
                                                   z3.Select(at(app, site), r) == sel(at(nxt, i), r)),
                          patterns=[MP(IT(i), IT(site), z3.Select(at(app, site), r))]))
            for c in consts:
                x, nx = sel(app, c), sel(nxt, c)
                x0 = sel(init, c)
                s = x.sort()
                subj0 = S.cursubj
                if not any(contains(c, lambda y: y.eq(o)) for o in S.outer):
                    self.constrefs.setdefault(nm, []).append(c)
                    S.cursubj = tuple(subj0) + (relev.constname(nm, c),)
                if z3.is_array(x):
                    self.array_lemmas(S, at, x, nx, x0, lem, IT, ITW, wfun)
                elif s.kind() == z3.Z3_DATATYPE_SORT and s.name().startswith('Slice<'):
                    self.slice_lemmas(S, at, acc(s, 0, x), acc(s, 0, nx), acc(s, 1, x), acc(s, 1, nx),
                                      acc(s, 1, x0), acc(s, 0, x0), lem, IT, wfun, ITW)
                    lem(forall([i], z3.Implies(z3.And(i >= 0, i < n), acc(s, 0, at(x, i)) <= acc(s, 0, at(x, n))),
                                  patterns=[IT(i)]))
                S.cursubj = subj0
            return
        # maps that are ranged over: not written by the loop at all?
        for ref, keys in self.rangerefs:
            if it.key in keys and not contains(ref, lambda x: x.eq(k)):
                if self.istep(S, sel(app, ref) == sel(nxt, ref)):
                    lem(forall([k], z3.Implies(z3.And(k >= 0, k <= n), sel(app, ref) == sel(init, ref)), patterns=[app]))
        # arbitrary updates: for every ref the last iteration that changed it
        if ok:
            self.wset[nm] = (formals, init, None, None)
        # only objects made by the loop are written
        if ok and not consts and other and self.prover is not None and all(isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], tuple) for x in other):
            vars_ = [x for x in S.items if x.kind in ('phi', 'cell', 'loc') and x.app.sort() == IntS and x.nxt is not None and x.solved is None and
                     any(contains(r_, lambda y: y.eq(x.app)) for r_, _ in other)]
            new = lambda t: z3.Or(t == 0, t > st0.alloc)
            inv = []
            hyps0 = self.visible_facts() + [c for p in self.pcstack for c in p] + S.st0pc
            for x in vars_:
                if self.prover.quick(hyps0, new(x.init), 500):
                    inv.append(x)
            while inv:
                bad = [x for x in inv if not self.istep(S, z3.Implies(conj([new(y.app) for y in inv]), new(x.nxt)))]
                if not bad:
                    break
                inv = [x for x in inv if not any(x is y for y in bad)]
            q = z3.Const('q!nw', IntS)
            if self.istep(S, z3.Implies(conj([new(y.app) for y in inv]), forall([q], z3.Implies(q <= st0.alloc, sel(nxt, q) == sel(app, q))))):
                self.wset[nm] = (formals, init, [], st0.alloc)
                lem(forall([r], z3.Implies(r <= st0.alloc, z3.Select(A_n, r) == sel(init, r)), patterns=[z3.Select(A_n, r)]))
        # every iteration writes an object of its own
        refs = []
        for x in other if ok else ():
            if isinstance(x[0], tuple) or isinstance(x, tuple) and len(x) != 2 or x[1] is None:
                refs = []
                break
            if not any(x[0].eq(y) for y in refs):
                refs.append(x[0])
        if len(refs) == 1 and not consts:
            ref = refs[0]
            a, b = z3.Const('a!ow', IntS), z3.Const('b!ow', IntS)
            loc = S.facts + S.backpc
            hyps = self.visible_facts() + [c for p in self.pcstack for c in p] + S.st0pc
            for q in (a, b):
                hyps += [subst(f, [(k, q)]) for f in loc] + [self.Ix(q)]
            g = subst(ref, [(k, a)]) != subst(ref, [(k, b)])
            if fresh:
                g = z3.And(g, subst(ref, [(k, b)]) <= st0.alloc)
            if self.prover is not None and self.prover.quick(hyps + [a >= 0, a < b, b < n], g):
                w = wfun('ow', [IntS])
                wr, wk = w(*(S.outer + [r])), w(*(S.outer + [ref]))
                rd = z3.Select(A_n, r)
                site = z3.Const('s' + S.tag, IntS)
                x = z3.Select(at(app, site), r)
                lem(forall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(sel(app, ref) == sel(init, ref),
                    z3.Select(A_n, ref) == sel(nxt, ref), wk == k)), patterns=[IT(k)]))
                old = r <= st0.alloc if fresh else z3.BoolVal(True)
                lem(forall([r], z3.And(wr >= -1, wr < n, z3.Implies(z3.And(wr == -1, old), rd == sel(init, r)),
                    z3.Implies(wr >= 0, z3.And(r == subst(ref, [(k, wr)]), ITW(wr)))), patterns=[rd]))
                lem(forall([site, r], z3.Implies(z3.And(site >= 0, site <= n, old),
                    z3.And(z3.Implies(wr < site, x == rd), z3.Implies(wr >= site, x == sel(init, r)))), patterns=[x]))
                if z3.is_array(rd):
                    self.grow2_lemmas(S, at, app, nxt, init, lem, IT)
                if not fresh:
                    return
        # writes to old objects only: heap above the entry counter
        self.array_lemmas(S, at, app, nxt, init, lem, IT, ITW, wfun)
        # fields that are set once: a value other than nil stays
        if A_n.sort().range() == IntS and self.small(nxt, 300):
            q = z3.Const('q!so', IntS)
            if self.istep(S, forall([q], z3.Implies(z3.And(q <= S.cl(start.alloc), sel(app, q) != 0), sel(nxt, q) == sel(app, q)))):
                nal = at(S.cl(start.alloc), k + 1)
                rd = z3.Select(A_n, r)
                x = sel(at(nxt, i), r)
                lem(forall([i, r], z3.Implies(z3.And(i >= 0, i < n, r <= at(nal, i), x != 0), rd == x),
                           patterns=[MP(IT(i), rd)]))
        if z3.is_array(z3.Select(app, r)):
            # two-level (map contents): last change per (object, key)
            self.array2_lemmas(S, at, app, nxt, init, lem, IT, wfun, ITW)

    def array2_lemmas(self, S, at, app, nxt, init, lem, IT, wfun, ITW=None):
        ITW = ITW or IT
        k, n = S.k, S.n
        dom2 = app.sort().range().domain()
        r = z3.Const('r2' + S.tag, IntS)
        s = z3.Const('s2' + S.tag, dom2)
        i = z3.Const('i' + S.tag, IntS)
        A_n = at(app, n)
        w = wfun('lc2', [IntS, dom2])(*(S.outer + [r, s]))
        rd = z3.Select(z3.Select(A_n, r), s)
        lem(forall([r, s], z3.And(
            w >= -1, w < n,
            z3.Implies(w == -1, rd == sel(sel(init, r), s)),
            z3.Implies(w >= 0, z3.And(ITW(w), rd == sel(sel(at(nxt, w), r), s), sel(sel(at(app, w), r), s) != rd))),
            patterns=[rd]))
        lem(forall([r, s, i], z3.Implies(z3.And(w <= i, i < n, i >= 0), sel(sel(at(nxt, i), r), s) == rd),
                      patterns=[MP(IT(i), rd)]))
        lem(forall([r, s, i], z3.Implies(z3.And(w < i, i <= n), sel(sel(at(app, i), r), s) == rd),
                      patterns=[MP(IT(i), rd)]))
        ws = []
        if self.writes(nxt, app, ws):
            for (ref, v) in ws:
                if isinstance(ref, tuple) or v is None:
                    continue
                inner = chain_of(v)[1] if z3.is_array(v) else []
                for key, val in inner:
                    # a key written in iteration i is read at n
                    t = z3.Select(z3.Select(A_n, ref), key)
                    lem(forall([k], z3.Implies(z3.And(k >= 0, k < n), t == t), patterns=[IT(k)])) if False else None
                    lem(forall([k], z3.Implies(z3.And(k >= 0, k < n),
                                                  z3.Or(t == sel(sel(nxt, ref), key),
                                                        subst(w, [(r, ref), (s, key)]) > k)), patterns=[IT(k)]))
                    same = all(z3.is_true(v2) or (v2.sort() != BoolS) for _, v2 in inner)
        self.grow2_lemmas(S, at, app, nxt, init, lem, IT)

    def grow2_lemmas(self, S, at, app, nxt, init, lem, IT):
        A_n = at(app, S.n)
        # sets that only grow
        k, n = S.k, S.n
        dom2 = app.sort().range().domain()
        r = z3.Const('r2' + S.tag, IntS)
        s = z3.Const('s2' + S.tag, dom2)
        i = z3.Const('i' + S.tag, IntS)
        rd = z3.Select(z3.Select(at(app, n), r), s)
        if app.sort().range().range() == BoolS:
            allt = True
            ws2 = []
            if self.writes(nxt, app, ws2):
                for ref, v in ws2:
                    if v is None or not z3.is_array(v) or not all(z3.is_true(y) for _, y in chain_of(v)[1]):
                        allt = False
            else:
                allt = False
            allt = allt or self.grows2(nxt, app)
            if not allt and self.small(nxt):
                q1, q2 = z3.Const('q1!g', IntS), z3.Const('q2!g', dom2)
                allt = self.istep(S, forall([q1, q2], z3.Implies(sel(sel(app, q1), q2), sel(sel(nxt, q1), q2))))
            if allt:
                self.growset[app.decl().name()] = (S.outer + [k], init)
                lem(forall([i, r, s], z3.Implies(z3.And(i >= 0, i < n, sel(sel(at(nxt, i), r), s)), rd),
                              patterns=[MP(IT(i), rd)]))
                lem(forall([r, s], z3.Implies(sel(sel(init, r), s), rd), patterns=[rd]))
                for (ref, v) in ws2:
                    if isinstance(ref, tuple) or v is None:
                        continue
                    for key, val in chain_of(v)[1]:
                        t = z3.Select(z3.Select(A_n, ref), key)
                        lem(forall([k], z3.Implies(z3.And(k >= 0, k < n, sel(sel(nxt, ref), key)), t), patterns=[IT(k)]))

    def keepslen(self, t, base, cl, d=0):
        """is t the buffer base with some bytes changed?"""
        if t.eq(base):
            return True
        if d > 20:
            return False
        if is_app_of(t, 'bset'):
            return self.keepslen(t.arg(0), base, cl, d + 1)
        if opkind(t) == z3.Z3_OP_ITE:
            return self.keepslen(t.arg(1), base, cl, d + 1) and self.keepslen(t.arg(2), base, cl, d + 1)
        if z3.is_app(t) and t.decl().name() in self.keeplen:
            formals, init = self.keeplen[t.decl().name()]
            return self.keepslen(self.selsimp(cl(subst(init, [(f, t.arg(i)) for i, f in enumerate(formals)]))), base, cl, d + 1)
        return False

    def selsimp(self, t):
        if opkind(t) == z3.Z3_OP_SELECT:
            return sel(t.arg(0), t.arg(1))
        return t

    def selfdep(self, nxt, app):
        """does what is assigned (or whether it is) depend on the old value?"""
        if nxt.eq(app):
            return False
        if opkind(nxt) == z3.Z3_OP_ITE:
            c, a, b = nxt.children()
            return contains(c, lambda x: x.eq(app)) or self.selfdep(a, app) or self.selfdep(b, app)
        return False

    def rereads(self, nxt, app, S):
        """is the new value of the array computed from its old contents?"""
        if app.sort().domain() != IntS or app.sort().range() == BoolS or z3.is_array_sort(app.sort().range()):
            return False
        for t in subterms([nxt]):
            if z3.is_app(t) and t.num_args() and any(c.eq(app) for c in t.children()):
                if opkind(t) == z3.Z3_OP_SELECT or opkind(t) == z3.Z3_OP_UNINTERPRETED:
                    return True
        for c in S.children:
            for it in c.items:
                if it.app.sort() == app.sort().range() and contains(S.cl(it.init), lambda x: x.eq(app)) and \
                        contains(nxt, lambda x: z3.is_app(x) and x.decl().name() == it.app.decl().name()):
                    return True
        return False

    def array_lemmas(self, S, at, app, nxt, init, lem, IT, ITW, wfun):
        k, n = S.k, S.n
        ds = app.sort().domain()
        A_n = at(app, n)
        s = z3.Const('x' + S.tag, ds)
        i = z3.Const('i' + S.tag, IntS)
        j = z3.Const('j' + S.tag, IntS)
        ws = []
        ok = self.writes(nxt, app, ws)
        rd = z3.Select(A_n, s)
        setlike = app.sort().range() == BoolS
        grow = False
        if setlike:
            grow = (ok and all(v is not None and z3.is_true(v) for _, v in ws)) or self.grows(nxt, app)
            if not grow and not (ds == IntS and not opkind(app) == z3.Z3_OP_SELECT):
                q = z3.Const('q!gr', ds)
                grow = self.istep(S, forall([q], z3.Implies(sel(app, q), sel(nxt, q))))
        if not grow:
            w = wfun('lca', [ds])(*(S.outer + [s]))
            lem(forall([s], z3.And(
                w >= -1, w < n,
                z3.Implies(w == -1, rd == sel(init, s)),
                z3.Implies(w >= 0, z3.And(ITW(w), rd == sel(at(nxt, w), s), sel(at(app, w), s) != rd))),
                patterns=[rd]))
            lem(forall([s, i], z3.Implies(z3.And(w <= i, i < n, i >= 0), sel(at(nxt, i), s) == rd),
                       patterns=[MP(IT(i), rd)]))
            if self.rereads(nxt, app, S):
                # what is written depends on what was there: the first change
                # starts from the initial value
                f = wfun('fca', [ds])(*(S.outer + [s]))
                x0 = sel(init, s)
                lem(forall([s], z3.And(f >= -1, f < n, z3.Implies(f == -1, rd == x0),
                    z3.Implies(f >= 0, z3.And(ITW(f), sel(at(app, f), s) == x0, sel(at(nxt, f), s) != x0))), patterns=[rd]))
            return
        # a set that only grows: members come from init or from one iteration
        if z3.is_app(app) and opkind(app) == z3.Z3_OP_UNINTERPRETED:
            self.growset[app.decl().name()] = (S.outer + [k], init)
        app_i, app_j = at(app, i), at(app, j)
        lem(forall([i, s], z3.Implies(z3.And(i >= 0, i <= n, sel(init, s)), z3.Select(app_i, s)),
                   patterns=[z3.Select(app_i, s)]))
        lem(forall([s], z3.Implies(sel(init, s), rd), patterns=[rd]))
        B, ch = chain_of(init)
        for key, v in ch:
            lem(z3.Implies(sel(init, key), z3.Select(A_n, key)))
            lem(forall([i], z3.Implies(z3.And(i >= 0, i <= n, sel(init, key)), z3.Select(app_i, key)),
                       patterns=[IT(i)]))
        if ok:
            for key, v in ws:
                if isinstance(key, tuple):
                    continue
                lem(forall([k], z3.Implies(z3.And(k >= 0, k < n, sel(nxt, key)), z3.Select(A_n, key)), patterns=[IT(k)]))
                ki = subst(key, [(k, i)])
                lem(forall([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= n, sel(at(nxt, i), ki)), z3.Select(app_j, ki)),
                           patterns=[MP(IT(i), IT(j))]))
        lem(forall([i, s], z3.Implies(z3.And(i >= 0, i < n, sel(at(nxt, i), s)), rd), patterns=[MP(IT(i), rd)]))
        lem(forall([i, j, s], z3.Implies(z3.And(i >= 0, i < j, j <= n, z3.Select(app_i, s)), z3.Select(app_j, s)),
                   patterns=[MP(z3.Select(app_i, s), IT(i), IT(j))]))
        # where does a member come from?
        wn = wfun('wsn', [ds])(*(S.outer + [s]))
        lem(forall([s], z3.Implies(rd, z3.Or(sel(init, s), z3.And(
            wn >= 0, wn < n, z3.Not(sel(at(app, wn), s)), sel(at(nxt, wn), s), ITW(wn)))), patterns=[rd]))
        wg = wfun('wset', [IntS, ds])(*(S.outer + [k, s]))
        lem(forall([k, s], z3.Implies(z3.And(k >= 0, k <= n, z3.Select(app, s)),
                                      z3.Or(sel(init, s), z3.And(wg >= 0, wg < k, z3.Not(sel(at(app, wg), s)),
                                                                 sel(at(nxt, wg), s), ITW(wg)))),
                   patterns=[MP(IT(k), z3.Select(app, s))]))

    # ------------------------------------------------------------ two loops in step
    def renorm(self, t, memo=None):
        """concatenations in the form self.cat gives them"""
        memo = {} if memo is None else memo
        if t.get_id() in memo:
            return memo[t.get_id()][1]
        r = t
        if z3.is_app(t) and t.num_args():
            cs = [self.renorm(c, memo) for c in t.children()]
            if t.decl().eq(scat):
                r = self.cat(cs[0], cs[1])
            elif not all(a.eq(b) for a, b in zip(cs, t.children())):
                r = t.decl()(*cs)
        memo[t.get_id()] = (t, r)
        return r

    def couple(self, S, at):
        """A loop of the repository and a loop of the specification (or two runs
        of the same loop) that do the same thing in step: the largest set of
        item pairs whose equality is kept by every iteration, by Houdini."""
        if self.prover is None:
            return
        for P in self.allloops:
            if len(P.outer) != len(S.outer) or not all(a.eq(b) for a, b in zip(P.outer, S.outer)):
                continue
            if P.code == S.code and P.where != S.where:
                continue
            if P.parentscope is not self.scope:
                continue
            self.couple2(P, S, at)

    def couple2(self, P, S, at):
        empty = self.strc('')
        k = S.k
        kk = z3.Const('kk!' + S.tag, IntS)
        base = self.visible_facts() + [c for p in self.pcstack for c in p] + S.st0pc + P.st0pc
        N = z3.If(P.n <= S.n, P.n, S.n)
        p_, q_ = z3.Const('p!cpl', IntS), z3.Const('q!cpl', IntS)

        def usable(it):
            s = it.app.sort()
            return it.kind not in ('alloc', 'heap') and it.nxt is not None and it.solved is None and (
                it.pos == 1 if it.group else s in (StrS, BoolS, IntS) or it.kind == 'loc' and z3.is_array(it.app))

        def val(it, kv, j, nxt):
            if it.solved is not None:
                return subst(it.solved, [(kv, j + 1 if nxt else j)])
            return subst(it.nxt if nxt else it.app, [(kv, j)])

        class Cand:
            def __init__(self, items, rel, init=None, sub=None):
                self.names = tuple(x.app.decl().name() for x in items)
                self.rel, self.init, self.sub = rel, init, sub
        cands = []

        def eqcand(a, b, ca, cb):
            def rel(j1, j2, nxt=False):
                x, y = val(a, P.k, j1, nxt), val(b, k, j2, nxt)
                return x == y if ca is None else self.cat(ca, x) == self.cat(cb, y)
            x, y = a.init, b.init
            if ca is not None:
                x, y = self.cat(ca, x), self.cat(cb, y)
            sub = None
            if ca is not None:
                x1, y1 = subst(a.app, [(P.k, kk)]), subst(b.app, [(k, kk)])
                sub = (x1, self.cat(cb, y1)) if ca.eq(empty) else (y1, self.cat(ca, x1))
            return Cand([a, b], rel, x == y, sub)

        def slcand(a, b):
            def rel(j1, j2, nxt=False):
                at1 = [val(x, P.k, j1, nxt) for x in a.group[:2]]
                at2 = [val(x, k, j2, nxt) for x in b.group[:2]]
                nil = z3.BoolVal(True)
                if len(a.group) > 2 and len(b.group) > 2:
                    nil = val(a.group[2], P.k, j1, nxt) == val(b.group[2], k, j2, nxt)
                return z3.And(at1[0] == at2[0], z3.BoolVal(True) if P.code != S.code else nil, forall([p_], z3.Implies(z3.And(p_ >= 0, p_ < at1[0]),
                              z3.Select(at1[1], p_) == z3.Select(at2[1], p_)), patterns=[z3.Select(at1[1], p_), z3.Select(at2[1], p_)]))
            return Cand(a.group[:2] + b.group[:2], rel, z3.And(a.group[0].init == b.group[0].init, z3.Or(a.group[0].init == 0, a.init == b.init), z3.BoolVal(True) if P.code != S.code or len(a.group) < 3 else a.group[2].init == b.group[2].init))
        for a in P.items:
            if not usable(a):
                continue
            for b in S.items:
                if not usable(b) or not a.app.sort().eq(b.app.sort()) or bool(a.group) != bool(b.group):
                    continue
                if a.group:
                    if len(a.group) >= 2 and len(b.group) >= 2:
                        cands.append(slcand(a, b))
                elif a.app.sort() == StrS:
                    if b.init.eq(empty) and not a.init.eq(empty):
                        cands.append(eqcand(a, b, empty, a.init))
                    elif a.init.eq(empty) and not b.init.eq(empty):
                        cands.append(eqcand(a, b, b.init, empty))
                    else:
                        cands.append(eqcand(a, b, empty, empty))
                elif a.kind == 'loc' or b.kind == 'loc' or a.app.sort() != IntS or a.kind == b.kind:
                    cands.append(eqcand(a, b, None, None))
        plain = len([c for c in cands if len(c.names) == 4 or c.sub is not None])
        code, spec = (P, S) if P.code else (S, P)
        if code.code != spec.code:
            cands += self.refcands(code, spec, code is P, usable, val, Cand, p_, q_)
        if not plain and len(cands) < 3:
            return
        hyps = base + [subst(f, [(P.k, kk)]) for f in P.facts + P.backpc] + [subst(f, [(k, kk)]) for f in S.facts + S.backpc]
        hyps += [P.itf(*(P.outer + [kk])), S.itf(*(S.outer + [kk])), kk >= 0, kk < P.n, kk < S.n]

        def goal(c, cs):
            # equalities of strings by substitution, so that concatenations line up
            sub = [x.sub for x in cs if x.sub is not None]
            g = c.rel(kk, kk, True)
            return self.renorm(subst(g, sub)) if c.sub is not None else g
        dbg = os.environ.get('VCPL')
        keep = []
        for c in cands:
            g = z3.simplify(c.init if c.init is not None else c.rel(z3.IntVal(0), z3.IntVal(0)))
            if z3.is_true(g) or self.prover.quick(base, g, 700):
                keep.append(c)
        if dbg:
            print('couple', P.tag, S.tag, [c.names for c in keep], 'of', len(cands))
        while keep:
            drop = [c for c in keep if not self.prover.quick(hyps + [x.rel(kk, kk) for x in keep], goal(c, keep))]
            if dbg:
                print('   drop', [c.names for c in drop])
            if not drop:
                break
            keep = [c for c in keep if not any(c is d for d in drop)]
        if not keep or all(c.sub is None and len(c.names) < 4 for c in keep) and not any(c.names[-1:] for c in keep if len(c.names) > 2):
            return
        g = conj([c for c in P.st0pc if not any(c.eq(x) for x in S.st0pc)] + list(S.st0pc))
        pats = [P.itf(*(P.outer + [k])), S.itf(*(S.outer + [k]))]
        for c in keep:
            self.tagged(c.names, z3.Implies(g, forall([k], z3.Implies(z3.And(k >= 0, k <= P.n, k <= S.n), c.rel(k, k)), patterns=pats)))
        # do they stop together?
        ends = base + [c.rel(N, N) for c in keep] + [P.itf(*(P.outer + [N])), S.itf(*(S.outer + [N])), disj(P.exitpcs), disj(S.exitpcs)]
        ok = self.prover.quick(ends, P.n == S.n)
        if dbg:
            print('   same end', ok)
        if ok:
            self.tagged(tuple(x for c in keep for x in c.names), z3.Implies(g, P.n == S.n))
            for c in keep:
                self.tagged(c.names, z3.Implies(g, c.rel(P.n, S.n)))

    def refcands(self, C, G, codefirst, usable, val, Cand, p_, q_):
        """candidates that relate a list of objects built by the code (C) to a
        list of values built by the specification (G)"""
        def mk(f):
            # f(valC, valG): formula; order the indices as rel expects them
            def rel(j1, j2, nxt=False):
                jc, jg = (j1, j2) if codefirst else (j2, j1)
                return f(lambda it: val(it, C.k, jc, nxt), lambda it: val(it, G.k, jg, nxt))
            return rel
        lists = [it for it in C.items if it.group and it.pos == 1 and it.nxt is not None and it.app.sort().range() == IntS and len(it.group) >= 2]
        glists = [it for it in G.items if it.group and it.pos == 1 and it.nxt is not None and len(it.group) >= 2]
        heaps = [it for it in C.items if it.kind == 'heap' and it.nxt is not None and it.solved is None and z3.is_array(it.app)]
        gstr = [it for it in G.items if it.nxt is not None and it.solved is None and not it.group and it.app.sort() == StrS]
        gbool = [it for it in G.allitems if it.nxt is not None and it.kind != 'loc' and not it.group and it.app.sort() == BoolS]
        refs = [it for it in C.items if it.kind in ('phi', 'cell') and it.nxt is not None and it.solved is None and not it.group and it.app.sort() == IntS]
        alloc = [it for it in C.allitems if it.kind == 'alloc']
        allheaps = [h for h in heaps if not z3.is_array(h.nxt) or self.small(h.nxt, 300)][:8]
        heaps = [h for h in heaps if any(h.app.sort().range() == b.app.sort().range() for b in glists)]
        if os.environ.get('VCPL'):
            print('   refcands', C.tag, G.tag, [(str(x.app), x.kind, str(x.solved)[:200]) for x in C.allitems+G.allitems if x.solved is not None], [[str(x.app) for x in l] for l in (lists, glists, heaps, gstr, gbool, refs, alloc)])
        if not lists or not glists or not heaps or not alloc or len(lists) * len(glists) * len(heaps) > 12:
            return []
        al = alloc[0]
        out = []
        st0 = C.st0alloc
        for a in lists:
            L = a.group[0]
            out.append(Cand([L, a, al], mk(lambda c, g, a=a, L=L: forall([p_], z3.Implies(z3.And(p_ >= 0, p_ < c(L)), z3.And(
                z3.Select(c(a), p_) > st0, z3.Select(c(a), p_) <= c(al))), patterns=[z3.Select(c(a), p_)]))))
            out.append(Cand([L, a], mk(lambda c, g, a=a, L=L: forall([p_, q_], z3.Implies(z3.And(p_ >= 0, p_ < q_, q_ < c(L)),
                z3.Select(c(a), p_) < z3.Select(c(a), q_)), patterns=[MP(z3.Select(c(a), p_), z3.Select(c(a), q_))]))))
            for r in refs:
                out.append(Cand([L, a, r], mk(lambda c, g, a=a, L=L, r=r: z3.Or(c(r) == 0, z3.And(c(L) > 0, c(r) == z3.Select(c(a), c(L) - 1))))))
            for h in allheaps:
                zero = {StrS: self.strc(''), IntS: z3.IntVal(0), BoolS: core._false}.get(h.app.sort().range())
                if zero is not None:
                    out.append(Cand([L, a, h], mk(lambda c, g, L=L, a=a, h=h, zero=zero: forall([p_], z3.Implies(
                        z3.And(p_ >= 0, p_ < c(L)), z3.Select(c(h), z3.Select(c(a), p_)) == zero), patterns=[z3.Select(c(a), p_)]))))
            for b in glists:
                M = b.group[0]
                out.append(Cand([L, M], mk(lambda c, g, L=L, M=M: c(L) == g(M))))
                for x in gbool:
                    out.append(Cand([L, M, x], mk(lambda c, g, L=L, M=M, x=x: c(L) == g(M) + z3.If(g(x), z3.IntVal(1), z3.IntVal(0)))))
                for h in heaps:
                    if h.app.sort().range() == b.app.sort().range():
                        out.append(Cand([L, a, M, b, h], mk(lambda c, g, L=L, a=a, M=M, b=b, h=h: forall([p_], z3.Implies(
                            z3.And(p_ >= 0, p_ < c(L), p_ < g(M)), z3.Select(c(h), z3.Select(c(a), p_)) == z3.Select(g(b), p_)),
                            patterns=[z3.Select(c(a), p_), z3.Select(g(b), p_)]))))
        for r in refs:
            out.append(Cand([r, al], mk(lambda c, g, r=r: z3.And(c(r) >= 0, c(r) <= c(al)))))
            for x in gbool:
                out.append(Cand([r, x], mk(lambda c, g, r=r, x=x: g(x) == (c(r) != 0))))
            for h in heaps:
                for s in gstr:
                    if h.app.sort().range() == StrS:
                        out.append(Cand([r, h, s], mk(lambda c, g, r=r, h=h, s=s: z3.Or(c(r) == 0, z3.Select(c(h), c(r)) == g(s)))))
        return out
