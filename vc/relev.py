"""Relevance filter: dropping hypotheses is always sound.  A fact tagged with
the loop sequences it constrains is used only if one of them is reachable from
the goal; an untagged fact only if all loop sequences in it are."""
import re
import z3
from fastz3 import opkind

SEQ = re.compile(r'^L\d+\.')


def constname(d, c):
    return '%s!c%d' % (d, c.get_id())


class Relev:
    def __init__(self, subj, constrefs=None):
        self.subj = subj
        self.memo = {}
        self.constrefs = constrefs
        self.fine = None

    def syms(self, t):
        """names of the loop sequences occurring in t"""
        m = self.memo
        i = t.get_id()
        if i in m:
            return m[i][1]
        stack = [t]
        while stack:
            x = stack[-1]
            j = x.get_id()
            if j in m:
                stack.pop()
                continue
            ks = x.children()
            if self.constrefs and opkind(x) == z3.Z3_OP_SELECT and z3.is_app(x.arg(0)) and opkind(x.arg(0)) == z3.Z3_OP_UNINTERPRETED:
                # a read of one known object
                d = x.arg(0).decl().name()
                if any(c.eq(x.arg(1)) for c in self.constrefs.get(d, ())):
                    ks = x.arg(0).children() + [x.arg(1)]
                    n0 = constname(d, x.arg(1))
                else:
                    n0 = None
            else:
                n0 = None
            todo = [c for c in ks if c.get_id() not in m]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            out = None
            sets = [m[c.get_id()][1] for c in ks]
            sets = [s for s in sets if s]
            if n0:
                sets.append(frozenset([n0]))
            elif z3.is_app(x) and opkind(x) == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith('idxkey#'):
                    n = n[3:]
                if SEQ.match(n) or '#' in n and not n.startswith('arg.') and not n.startswith('nL') and not n.startswith('mapn#'):
                    sets.append(frozenset([n]))
            if not sets:
                out = frozenset()
            elif len(sets) == 1:
                out = sets[0]
            else:
                out = frozenset().union(*sets)
            m[j] = (x, out)
        return m[i][1]

    @staticmethod
    def isalloc(n):
        return n.endswith('.alloc') or n.startswith('alloc#')

    def filter(self, hyps, goal, level=0):
        """level 0: strict; level 1: any reachable symbol may be constrained;
        level 4: as 3, reads of known objects apart; level 3: as 0, and where the keys of a map that is ranged over come from"""
        if level == 4:
            if self.fine is None:
                self.fine = Relev(self.subj, self.cref or {})
            return self.fine.filter(hyps, goal, 3)
        R = set(self.syms(goal))
        for h in hyps:
            if h.get_id() in SEEDS:
                R |= self.syms(h)
        tag, free = [], []
        for h in hyps:
            r = self.subj.get(h.get_id())
            (tag if r else free).append((h, r[1] if r else None))
        used = set()
        grown = True
        while grown:
            grown = False
            for i, (h, names) in enumerate(tag):
                if i in used or not any(n in R for n in names):
                    continue
                used.add(i)
                s = self.syms(h)
                if level in (0, 3) and all(self.isalloc(n) for n in names):
                    s = {n for n in s if self.isalloc(n)}
                if not s <= R:
                    R |= s
                    grown = True
            for h, _ in free if level == 3 else ():
                s = self.syms(h)
                if not s <= R and any(n in R and n.startswith('key#') for n in s):
                    R |= s
                    grown = True
        out = [h for i, (h, _) in enumerate(tag) if i in used]
        for h, _ in free:
            s = self.syms(h)
            if s <= R or (level == 1 and any(n in R for n in s)):
                out.append(h)
        return out, R

    def size(self, t, lim):
        n, stack = 0, [t]
        while stack:
            n += 1
            if n > lim:
                return False
            stack.extend(stack.pop().children())
        return True


SK = [0]
SEEDS = {}      # guards of the goal's own quantifiers


def hassk(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().name().startswith('sk!') and not z3.is_int(x):
            return True
        stack.extend(x.children())
    return False


def hasq(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def split_goal(g, hyps=()):
    """conjuncts of a goal, as (extra hypotheses, goal)"""
    if z3.is_and(g):
        # A and B: A, then B given A (only quantifier-free A are worth keeping)
        out, have = [], list(hyps)
        for c in g.children():
            out += split_goal(c, have)
            if not hasq(c):
                have.append(c)
        return out
    if z3.is_implies(g):
        h = list(hyps) + [g.arg(0)]
        if hassk(g.arg(0)):
            SEEDS[g.arg(0).get_id()] = g.arg(0)
        return split_goal(g.arg(1), h)
    if z3.is_or(g):
        cs = g.children()
        qs = [c for c in cs if hasq(c)]
        if len(qs) == 1 and (z3.is_and(qs[0]) or z3.is_quantifier(qs[0]) and qs[0].is_forall()):
            return split_goal(qs[0], list(hyps) + [z3.Not(c) for c in cs if c is not qs[0]])
    if z3.is_quantifier(g) and g.is_forall():
        b = g.body()
        if z3.is_implies(b) or z3.is_and(b):
            SK[0] += 1
            vs = [z3.Const('sk!%d!%s' % (SK[0], g.var_name(i)), g.var_sort(i)) for i in range(g.num_vars())]
            return split_goal(z3.substitute_vars(b, *reversed(vs)), hyps)
    if opkind(g) == z3.Z3_OP_ITE and z3.is_bool(g):
        return split_goal(g.arg(1), list(hyps) + [g.arg(0)]) + split_goal(g.arg(2), list(hyps) + [z3.Not(g.arg(0))])
    return [(list(hyps), g)]
