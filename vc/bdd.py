"""Small ROBDD package used to simplify path conditions (propositional
equivalence only; no semantic assumption about the atoms)."""
import z3
from fastz3 import opkind


class TooBig(Exception):
    pass


class Bdd:
    def __init__(self, limit=4000, maxvars=40):
        self.limit, self.maxvars = limit, maxvars
        self.vars = {}       # atom id -> index
        self.atoms = []
        self.node = {}       # (v, lo, hi) -> id
        self.info = {0: None, 1: None}
        self.memo = {}
        self.neg = {}
        self.tmemo = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.node.get(k)
        if r is None:
            r = len(self.info)
            if r > self.limit:
                raise TooBig()
            self.node[k] = r
            self.info[r] = k
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.info[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x > 1 and self.info[x][0] == v:
                return self.info[x][2 if b else 1]
            return x
        lo = self.ite(co(f, 0), co(g, 0), co(h, 0))
        hi = self.ite(co(f, 1), co(g, 1), co(h, 1))
        r = self.mk(v, lo, hi)
        self.memo[k] = r
        return r

    def of(self, t):
        i = t.get_id()
        r = self.tmemo.get(i)
        if r is not None:
            return r[1]
        k = opkind(t)
        if k == z3.Z3_OP_TRUE:
            r = 1
        elif k == z3.Z3_OP_FALSE:
            r = 0
        elif k == z3.Z3_OP_NOT:
            r = self.ite(self.of(t.arg(0)), 0, 1)
        elif k == z3.Z3_OP_AND:
            r = 1
            for c in t.children():
                r = self.ite(r, self.of(c), 0)
        elif k == z3.Z3_OP_OR:
            r = 0
            for c in t.children():
                r = self.ite(r, 1, self.of(c))
        elif k == z3.Z3_OP_IMPLIES:
            r = self.ite(self.of(t.arg(0)), self.of(t.arg(1)), 1)
        elif k == z3.Z3_OP_ITE:
            r = self.ite(self.of(t.arg(0)), self.of(t.arg(1)), self.of(t.arg(2)))
        else:
            if i not in self.vars:
                if len(self.atoms) >= self.maxvars:
                    raise TooBig()
                self.vars[i] = len(self.atoms)
                self.atoms.append(t)
            r = self.mk(self.vars[i], 0, 1)
        self.tmemo[i] = (t, r)
        return r

    def isop(self, L, U, cubes, prefix):
        """irredundant cubes covering L, contained in U; returns the BDD of the cover"""
        if L == 0:
            return 0
        if U == 1:
            cubes.append(tuple(prefix))
            if len(cubes) > 64:
                raise TooBig()
            return 1
        v = min(self.info[x][0] for x in (L, U) if x > 1)

        def co(x, b):
            if x > 1 and self.info[x][0] == v:
                return self.info[x][2 if b else 1]
            return x
        L0, L1, U0, U1 = co(L, 0), co(L, 1), co(U, 0), co(U, 1)

        def diff(a, b):
            return self.ite(b, 0, a)
        f0 = self.isop(diff(L0, U1), U0, cubes, prefix + [(v, False)])
        f1 = self.isop(diff(L1, U0), U1, cubes, prefix + [(v, True)])
        Ln = self.ite(diff(L0, f0), 1, diff(L1, f1))
        fn = self.isop(Ln, self.ite(U0, U1, 0), cubes, prefix)
        return self.ite(self.mk(v, 0, 1), self.ite(f1, 1, fn), self.ite(f0, 1, fn))

    def cover(self, L, U):
        cubes = []
        self.isop(L, U, cubes, [])
        return cubes

    def terms(self, cubes):
        """list of conjunctions (lists of literals)"""
        return [[self.atoms[v] if b else z3.Not(self.atoms[v]) for v, b in c] for c in cubes]
