"""Symbolic execution of Go SSA with contracts and iteration-indexed loop
summaries.  Produces facts and obligations (z3 terms)."""
import z3
import bdd
import core
from core import *

V_PREFIX = 'v'


class State:
    __slots__ = ('pc', 'heap', 'cells', 'alloc')

    def __init__(self, pc, heap, cells, alloc):
        self.pc, self.heap, self.cells, self.alloc = pc, heap, cells, alloc

    def copy(self):
        return State(list(self.pc), dict(self.heap), dict(self.cells), self.alloc)


class Snap:
    __slots__ = ('heap', 'alloc')

    def __init__(self, heap, alloc):
        self.heap, self.alloc = heap, alloc


class Scope:
    def __init__(self, parent=None):
        self.facts = []
        self.obls = []
        self.loops = []
        self.seen = set()
        self.parent = parent

    def has(self, i):
        s = self
        while s is not None:
            if i in s.seen:
                return True
            s = s.parent
        return False


class Obl:
    """hyps/goal; nfacts limits which facts of the root scope may be used"""

    def __init__(self, name, kind, hyps, goal, pos, nfacts):
        self.name, self.kind, self.hyps, self.goal, self.pos = name, kind, hyps, goal, pos
        self.nfacts = nfacts
        self.idx = []


class Act:
    def __init__(self, fn, aid):
        self.fn, self.id = fn, aid
        self.regs = {}
        self.defers = []
        self.free = {}


class Loop:
    def __init__(self, header, blocks, parent):
        self.header, self.blocks, self.parent = header, blocks, parent


def loops_of(fn):
    """natural loop nest of an SSA function (cached on the dict)"""
    if '_loops' in fn:
        return fn['_loops']
    bl = {b['i']: b for b in fn['blocks']}
    idom = {i: b['idom'] for i, b in bl.items()}

    def dominates(a, b):
        while b != -1:
            if a == b:
                return True
            b = idom.get(b, -1)
        return False
    heads = {}
    for b in bl.values():
        for s in b['succs']:
            if dominates(s, b['i']):
                body = heads.setdefault(s, {s})
                stack = [b['i']]
                while stack:
                    x = stack.pop()
                    if x in body:
                        continue
                    body.add(x)
                    stack.extend(bl[x]['preds'])
    loops = {h: Loop(h, blocks, None) for h, blocks in heads.items()}
    for h, l in loops.items():
        best = None
        for h2, l2 in loops.items():
            if h2 != h and h in l2.blocks and (best is None or len(l2.blocks) < len(best.blocks)):
                best = l2
        l.parent = best
    # reverse postorder ignoring back edges
    order, seen = [], set()

    def dfs(i):
        stack = [(i, iter(bl[i]['succs']))]
        seen.add(i)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(bl[s]['succs'])))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(0)
    order.reverse()
    # make the order compatible with loop nesting (loop exits after the loop):
    # a DFS order may place exit blocks before body blocks; compute a
    # topological order on the acyclic graph obtained by dropping back edges.
    indeg = {i: 0 for i in seen}
    for i in seen:
        for s in bl[i]['succs']:
            if not (s in loops and i in loops[s].blocks):
                indeg[s] += 1
    innermost = {}
    for i in seen:
        c = None
        for l in loops.values():
            if i in l.blocks and (c is None or len(l.blocks) < len(c.blocks)):
                c = l
        innermost[i] = c
    fn['_loops'] = (bl, loops, order, innermost)
    return fn['_loops']


class Exec:
    def __init__(self, prog, options=None):
        self.p = prog
        core.reset()
        self.S = Sorts(prog)
        core.LITS[0] = self.S.lit_of
        self.opt = options or {}
        self.n = 0
        self.idx = []
        self.scope = Scope()
        self.root = self.scope
        self.alloc0 = z3.Const('alloc0', IntS)
        self.init_facts = [self.alloc0 >= 0]
        self.typetags = {}
        self.iptrs = {}
        self.funcids = {}
        self.functab = []
        self.depth = 0
        self.loopinfo = {}       # loop decl tag -> summary info
        self.allloops = []
        self.pcstack = []       # path conditions of the enclosing loops
        self.rangerefs = []     # maps that are ranged over
        self.condlens = []       # lengths of lists appended to under a condition
        self.contracts = {}      # callee name -> Contract
        self.contract_used = {}
        self.callstack = []
        self.nopanic = False
        self.mode = 'verify'
        self.harness_target = None
        self.assumed = set()     # externs used
        self.inlined = set()
        self.ensures_names = []
        self.warn = []
        self.prover = None
        self.wset = {}           # array decl name -> (formals, info)
        self.bounds = {}
        self.keeplen = {}
        self.upmono = {}         # integer sequences known to be >= their first value
        self.nonneg_apps = set()
        self.growset = {}
        self.guardmemo = {}
        self.constrefs = {}     # sequence -> objects the loop writes
        self.subj = {}          # fact id -> (fact, sequences it constrains)
        self.base_of = {}        # array decl name -> (formals, init array)
        self.covers = []
        self.specmode = 0
        self.h0 = {}
        self.sub_heap_roots = {}
        self.target_hook = None

    # ------------------------------------------------------------ symbols
    def fresh(self, name, sort, register_epoch=None):
        self.n += 1
        nm = '%s#%d' % (name, self.n)
        if self.idx:
            f = z3.Function(nm, *([IntS] * len(self.idx) + [sort]))
            t = f(*self.idx)
        else:
            t = z3.Const(nm, sort)
        if register_epoch is not None:
            BND.epoch[nm] = (list(self.idx), register_epoch)
        return t

    def fact(self, f, dedupe=True):
        if z3.is_true(f):
            return
        if dedupe:
            i = f.get_id()
            if self.scope.has(i):
                return
            self.scope.seen.add(i)
        self.scope.facts.append(f)

    def obligation(self, name, kind, st, goal, pos=''):
        if z3.is_true(goal) and kind != 'ensures':
            return
        o = Obl(name, kind, list(st.pc), goal, pos, len(self.scope.facts))
        self.scope.obls.append(o)
        return o

    def uf(self, name, args, sort):
        f = z3.Function(name, *([a.sort() for a in args] + [sort]))
        return f(*args) if args else z3.Const(name, sort)

    def tag(self, t):
        """interface tag of a concrete dynamic type"""
        k = self.p.tname(t)
        if k not in self.typetags:
            self.typetags[k] = (len(self.typetags) + 1, t)
        return z3.IntVal(self.typetags[k][0])

    # ------------------------------------------------------------ strings
    def strc(self, s):
        new = s not in self.S.strs
        c = self.S.strconst(s)
        if new:
            i = self.S.strlist.index(s) if False else len(self.S.strlist) - 1
            self.root.facts.append(sid(c) == i)
            self.init_facts.append(sid(c) == i)
            ln = len(s.encode('utf-8', 'surrogateescape'))
            self.init_facts.append(slen(c) == ln)
            self.root.facts.append(slen(c) == ln)
            if ln == 1:
                self.init_facts.append(schar(z3.IntVal(s.encode('utf-8', 'surrogateescape')[0])) == c)
        return c

    def strlen(self, s):
        l = self.S.lit_of(s)
        if l is not None:
            return z3.IntVal(len(l.encode('utf-8', 'surrogateescape')))
        if is_app_of(s, 'scat'):
            return add(self.strlen(s.arg(0)), self.strlen(s.arg(1)))
        if is_app_of(s, 'schar'):
            return z3.IntVal(1)
        if is_app_of(s, 'mkbytes'):
            return s.arg(0)
        if is_app_of(s, 'bset'):
            return self.strlen(s.arg(0))
        if isite(s) and self.S.lit_of(s.arg(1)) is not None and self.S.lit_of(s.arg(2)) is not None:
            return ite(s.arg(0), self.strlen(s.arg(1)), self.strlen(s.arg(2)))
        t = slen(s)
        self.fact(t >= 0)
        e = self.strc('')
        self.fact((t == 0) == (s == e))
        return t

    def cat(self, a, b):
        la, lb = self.S.lit_of(a), self.S.lit_of(b)
        if la == '':
            return b
        if lb == '':
            return a
        if la is not None and lb is not None:
            return self.strc(la + lb)
        if is_app_of(a, 'scat'):
            return self.cat(a.arg(0), self.cat(a.arg(1), b))
        if la is not None and is_app_of(b, 'scat'):
            l2 = self.S.lit_of(b.arg(0))
            if l2 is not None:
                return scat(self.strc(la + l2), b.arg(1))
        return scat(a, b)

    # ------------------------------------------------------------ zero / fresh / flatten
    def zero(self, t):
        p = self.p
        u = p.under(t)
        k = u['k']
        if k == 'struct':
            return StructV(t, [self.zero(f['type']) for f in u['fields'] or []])
        if k == 'slice':
            if p.is_bytes(t):
                return self.strc('')
            es = self.S.sort(u['elem'])
            return SliceV(z3.IntVal(0), z3.K(IntS, self.zterm(u['elem'])), core._true, t)
        if k == 'iface':
            return IfV(z3.IntVal(0), z3.IntVal(0))
        if k == 'ptr':
            return PtrV(z3.IntVal(0), u['elem'], (), t)
        if k == 'map':
            return MapV(z3.IntVal(0), t)
        if k == 'sig':
            return FuncV(ref=z3.IntVal(0), t=t)
        if k == 'array':
            return z3.K(IntS, self.zterm(u['elem']))
        s = self.S.sort(t)
        if s == BoolS:
            return core._false
        if s == IntS:
            return z3.IntVal(0)
        if s == StrS:
            return self.strc('')
        if s == FltS:
            return z3.Const('flt!0', FltS)
        raise Unsupported('zero of ' + p.tname(t))

    def zterm(self, t):
        if t not in self.S.zero_cache:
            self.S.zero_cache[t] = self.term(self.zero(t), t)
        return self.S.zero_cache[t]

    def freshval(self, name, t, alloc=None, facts=True):
        """arbitrary well-formed value of type t"""
        p = self.p
        u = p.under(t)
        k = u['k']
        if k == 'struct':
            return StructV(t, [self.freshval(name + '.' + f['name'], f['type'], alloc) for f in u['fields'] or []])
        if k == 'slice' and not p.is_bytes(t):
            s = self.S.sort(t)
            ln = self.fresh(name + '.len', IntS)
            arr = self.fresh(name + '.arr', z3.ArraySort(IntS, self.S.sort(u['elem'])), register_epoch=alloc)
            nil = self.fresh(name + '.nil', BoolS)
            self.fact(ln >= 0)
            self.fact(z3.Implies(nil, ln == 0))
            return SliceV(ln, arr, nil, t)
        if k == 'iface':
            tg = self.fresh(name + '.tag', IntS)
            pay = self.fresh(name + '.pay', IntS, register_epoch=alloc)
            self.fact(tg >= 0)
            self.fact(z3.Implies(tg == 0, pay == 0))
            return IfV(tg, pay)
        if k in ('ptr', 'map'):
            b = self.fresh(name, IntS, register_epoch=alloc)
            self.reffact(b, alloc)
            return PtrV(b, u['elem'], (), t) if k == 'ptr' else MapV(b, t)
        if k == 'sig':
            b = self.fresh(name, IntS)
            self.fact(b >= 0)
            return FuncV(ref=b, t=t)
        if k == 'tuple':
            return TupleV([self.freshval('%s.%d' % (name, i), e, alloc) for i, e in enumerate(u['elems'])])
        s = self.S.sort(t)
        v = self.fresh(name, s)
        if k == 'basic':
            self.intfact(v, u['name'])
        return v

    def intfact(self, v, n):
        if n in ('uint8', 'byte'):
            self.fact(z3.And(v >= 0, v <= 255))
        elif n in ('uint', 'uint16', 'uint32', 'uint64', 'uintptr'):
            self.fact(v >= 0)

    def reffact(self, b, alloc):
        if alloc is None:
            alloc = self.cur_alloc
        self.fact(z3.And(b >= 0, b <= alloc))

    def flatten(self, v):
        if isinstance(v, StructV):
            out = []
            for f in v.fs:
                out += self.flatten(f)
            return out
        if isinstance(v, SliceV):
            return [v.ln, v.arr, v.nil]
        if isinstance(v, IfV):
            return [v.tag, v.pay]
        if isinstance(v, PtrV):
            if v.path:
                raise Unsupported('interior pointer as a value')
            return [v.base]
        if isinstance(v, MapV):
            return [v.ref]
        if isinstance(v, FuncV):
            return [self.functerm(v)]
        if isinstance(v, TupleV):
            out = []
            for f in v.vs:
                out += self.flatten(f)
            return out
        if isinstance(v, Val):
            raise Unsupported('flatten ' + type(v).__name__)
        return [v]

    def unflatten(self, ts, t):
        v, rest = self._unfl(list(ts), t)
        return v

    def _unfl(self, ts, t):
        u = self.p.under(t)
        k = u['k']
        if k == 'struct':
            fs = []
            for f in u['fields'] or []:
                v, ts = self._unfl(ts, f['type'])
                fs.append(v)
            return StructV(t, fs), ts
        if k == 'slice' and not self.p.is_bytes(t):
            return SliceV(ts[0], ts[1], ts[2], t), ts[3:]
        if k == 'iface':
            return IfV(ts[0], ts[1]), ts[2:]
        if k == 'ptr':
            return PtrV(ts[0], u['elem'], (), t), ts[1:]
        if k == 'map':
            return MapV(ts[0], t), ts[1:]
        if k == 'sig':
            return self.funcval(ts[0], t), ts[1:]
        if k == 'tuple':
            vs = []
            for e in u['elems']:
                v, ts = self._unfl(ts, e)
                vs.append(v)
            return TupleV(vs), ts
        return ts[0], ts[1:]

    def functerm(self, v):
        if v.fn is None:
            return v.ref
        key = (v.fn, tuple(id(b) for b in v.binds))
        for b in v.binds:
            if isinstance(b, CellV) and self.idx:
                raise Unsupported('closure over a local stored inside a loop')
        if key not in self.funcids:
            self.funcids[key] = len(self.functab)
            self.functab.append(v)
        return z3.IntVal(-1000 - self.funcids[key])

    def funcval(self, term, t):
        if z3.is_int_value(term):
            n = term.as_long()
            if n <= -1000:
                return self.functab[-1000 - n]
        return FuncV(ref=term, t=t)

    def term(self, v, t):
        """value as a single z3 term of sort(t)"""
        if isinstance(v, SliceV):
            s = self.S.sort(v.t)
            # re-use the original datatype term if the parts are its accessors
            l, a, n = v.ln, v.arr, v.nil
            if z3.is_app(l) and opkind(l) == z3.Z3_OP_DT_ACCESSOR and z3.is_app(a) and \
                    opkind(a) == z3.Z3_OP_DT_ACCESSOR and l.arg(0).eq(a.arg(0)) and \
                    z3.is_app(n) and opkind(n) == z3.Z3_OP_DT_ACCESSOR and n.arg(0).eq(a.arg(0)):
                return l.arg(0)
            return s.constructor(0)(l, a, n)
        if isinstance(v, StructV):
            fs = self.p.under(v.t)['fields'] or []
            if not fs:
                return z3.IntVal(0)
            return self.S.sort(v.t).constructor(0)(*[self.term(x, f['type']) for x, f in zip(v.fs, fs)])
        if isinstance(v, IfV):
            if z3.is_app(v.tag) and opkind(v.tag) == z3.Z3_OP_DT_ACCESSOR and z3.is_app(v.pay) and \
                    opkind(v.pay) == z3.Z3_OP_DT_ACCESSOR and v.tag.arg(0).eq(v.pay.arg(0)):
                return v.tag.arg(0)
            return self.S.ifs.constructor(0)(v.tag, v.pay)
        if isinstance(v, PtrV):
            if v.path:
                raise Unsupported('interior pointer stored')
            return v.base
        if isinstance(v, MapV):
            return v.ref
        if isinstance(v, FuncV):
            return self.functerm(v)
        if isinstance(v, Val):
            raise Unsupported('term of ' + type(v).__name__)
        return v

    def unterm(self, x, t, snap=None):
        """value from a z3 term of sort(t); records well-formedness facts"""
        p = self.p
        u = p.under(t)
        k = u['k']
        if k == 'struct':
            fs = u['fields'] or []
            if not fs:
                return StructV(t, [])
            s = self.S.sort(t)
            return StructV(t, [self.unterm(acc(s, i, x), f['type'], snap) for i, f in enumerate(fs)])
        if k == 'slice' and not p.is_bytes(t):
            s = self.S.sort(t)
            ln, arr, nil = acc(s, 0, x), acc(s, 1, x), acc(s, 2, x)
            if not z3.is_int_value(ln):
                self.fact(z3.And(ln >= 0, z3.Implies(nil, ln == 0)))
            return SliceV(ln, arr, nil, t, snap)
        if k == 'iface':
            tg, pay = acc(self.S.ifs, 0, x), acc(self.S.ifs, 1, x)
            if not z3.is_int_value(tg):
                self.fact(z3.And(tg >= 0, z3.Implies(tg == 0, pay == 0)))
            return IfV(tg, pay, snap)
        if k in ('ptr', 'map'):
            if not z3.is_int_value(x):
                self.boundref(x)
            if k == 'ptr':
                return PtrV(x, u['elem'], (), t, snap)
            return MapV(x, t, snap)
        if k == 'sig':
            return self.funcval(x, t)
        if k == 'basic':
            self.intfact(x, u['name']) if not z3.is_int_value(x) and u['name'].startswith(('u', 'b')) and \
                u['name'] != 'bool' else None
        return x

    def boundref(self, x):
        if isite(x):
            self.boundref(x.arg(1))
            self.boundref(x.arg(2))
            return
        if z3.is_int_value(x):
            return
        u = BND.ub(x)
        if u is None:
            if BND.is_alloc(x):
                return
            u = self.cur_alloc
        self.fact(z3.And(x >= 0, x <= u))

    # ------------------------------------------------------------ heap
    def fieldt(self, t, i):
        return self.p.under(t)['fields'][i]

    def typeat(self, root, path):
        t = root
        for e in path:
            if isinstance(e, tuple):
                u = self.p.under(t)
                t = u['elem']
            else:
                t = self.fieldt(t, e)['type']
        return t

    def comp(self, root, path):
        names = []
        t = root
        for e in path:
            f = self.fieldt(t, e)
            names.append(f['name'])
            t = f['type']
        return (self.p.tname(root) + ''.join('.' + n for n in names)), t

    def arr(self, heap, key, elsort, idxsort=IntS):
        a = heap.get(key)
        if a is None:
            a = self.h0.get(key)
            if a is None:
                nm = 'H0!' + key
                a = z3.Const(nm, z3.ArraySort(IntS, elsort))
                BND.epoch[nm] = ([], self.alloc0)
                self.h0[key] = a
                if key.startswith('dom:'):
                    f = z3.Select(a, z3.IntVal(0)) == z3.K(elsort.domain(), core._false)
                    self.root.facts.append(f)
                    self.init_facts.append(f)
            heap[key] = a
        return a

    def hp(self, st, snap):
        return snap.heap if snap is not None else st.heap

    def load(self, st, ptr):
        if isinstance(ptr, CellV):
            v = st.cells[ptr.cid]
            return self.getpath(st, v, self.celltype[ptr.cid], ptr.path)
        if isinstance(ptr, ElemV):
            return self.getpath(st, ptr.val, ptr.vt, ptr.path, ptr.snap)
        if not isinstance(ptr, PtrV):
            raise Unsupported('load through ' + type(ptr).__name__)
        if ptr.root == 'cell':
            key, es, et = ptr.t
            a = self.arr(st.heap, key, es)
            t = sel(a, ptr.base)
            if key == 'cell:bytes':
                return self.byteat(t, ptr.path[0][1])
            return self.unterm(sel(t, ptr.path[0][1]), et)
        for i, e in enumerate(ptr.path):
            if isinstance(e, tuple):
                t = self.typeat(ptr.root, ptr.path[:i])
                v = self.loadt(st, ptr.base, ptr.root, ptr.path[:i], t, ptr.snap)
                return self.getpath(st, v, t, ptr.path[i:], ptr.snap)
        t = self.typeat(ptr.root, ptr.path)
        return self.loadt(st, ptr.base, ptr.root, ptr.path, t, ptr.snap)

    def loadt(self, st, base, root, path, t, snap):
        u = self.p.under(t)
        if u['k'] == 'struct':
            return StructV(t, [self.loadt(st, base, root, path + (i,), f['type'], snap)
                               for i, f in enumerate(u['fields'] or [])])
        key, _ = self.comp(root, path)
        a = self.arr(self.hp(st, snap), key, self.S.sort(t))
        return self.unterm(sel(a, base), t, snap)

    def byteat(self, s, i):
        l = self.S.lit_of(s)
        if l is not None and z3.is_int_value(i):
            b = l.encode('utf-8', 'surrogateescape')
            n = i.as_long()
            if 0 <= n < len(b):
                return z3.IntVal(b[n])
        if l is not None:
            b = l.encode('utf-8', 'surrogateescape')
            if len(b) <= 64:
                for n, c in enumerate(b):
                    self.fact(byteat(s, z3.IntVal(n)) == c)
        if is_app_of(s, 'bset'):
            if s.arg(1).eq(i):
                return s.arg(2)
            d = sub_lin(s.arg(1), i)
            if d is not None and d != 0:
                return self.byteat(s.arg(0), i)
            return ite(s.arg(1) == i, s.arg(2), self.byteat(s.arg(0), i))
        t = byteat(s, i)
        self.fact(z3.And(t >= 0, t <= 255))
        return t

    def getpath(self, st, v, t, path, snap=None):
        for e in path:
            if isinstance(e, tuple):
                u = self.p.under(t)
                if isinstance(v, SliceV):
                    v = self.unterm(sel(v.arr, e[1]), u['elem'], snap)
                elif self.p.is_bytes(t):
                    v = self.byteat(v, e[1])
                else:
                    v = self.unterm(sel(v, e[1]), u['elem'], snap)
                t = u['elem']
            else:
                v = v.fs[e]
                t = self.fieldt(t, e)['type']
        return v

    def setpath(self, v, t, path, x):
        if not path:
            return x
        e = path[0]
        if isinstance(e, tuple):
            u = self.p.under(t)
            if isinstance(v, SliceV):
                raise Unsupported('store into slice value')
            if len(path) == 1:
                return core.store(v, e[1], self.term(x, u['elem']))
            inner = self.unterm(sel(v, e[1]), u['elem'])
            return core.store(v, e[1], self.term(self.setpath(inner, u['elem'], path[1:], x), u['elem']))
        fs = list(v.fs)
        fs[e] = self.setpath(fs[e], self.fieldt(t, e)['type'], path[1:], x)
        return StructV(v.t, fs)

    def storev(self, st, ptr, v):
        if isinstance(ptr, CellV):
            st.cells[ptr.cid] = self.setpath(st.cells[ptr.cid], self.celltype[ptr.cid], ptr.path, v)
            return
        if isinstance(ptr, ElemV):
            raise Unsupported('store into slice element')
        if not isinstance(ptr, PtrV):
            raise Unsupported('store through ' + type(ptr).__name__)
        if ptr.snap is not None:
            raise Unsupported('store through old()')
        if ptr.root == 'cell':
            key, es, et = ptr.t
            a = self.arr(st.heap, key, es)
            c = sel(a, ptr.base)
            if key == 'cell:bytes':
                nv = bset(c, ptr.path[0][1], v)
                self.fact(slen(nv) == self.strlen(c))
            else:
                nv = core.store(c, ptr.path[0][1], self.term(v, et))
            st.heap[key] = core.store(a, ptr.base, nv)
            return
        for i, e in enumerate(ptr.path):
            if isinstance(e, tuple):
                t = self.typeat(ptr.root, ptr.path[:i])
                old = self.loadt(st, ptr.base, ptr.root, ptr.path[:i], t, None)
                self.storet(st, ptr.base, ptr.root, ptr.path[:i], t, self.setpath(old, t, ptr.path[i:], v))
                return
        self.storet(st, ptr.base, ptr.root, ptr.path, self.typeat(ptr.root, ptr.path), v)

    def storet(self, st, base, root, path, t, v):
        u = self.p.under(t)
        if u['k'] == 'struct':
            for i, f in enumerate(u['fields'] or []):
                self.storet(st, base, root, path + (i,), f['type'], v.fs[i])
            return
        key, _ = self.comp(root, path)
        a = self.arr(st.heap, key, self.S.sort(t))
        v = self.mat(st, v)
        st.heap[key] = core.store(a, base, self.term(v, t))

    def newref(self, st):
        r = add(st.alloc, 1)
        st.alloc = r
        self.cur_alloc = r
        return r

    # maps
    def mapkeys(self, t):
        u = self.p.under(t)
        kn, en = self.p.tname(u['key']), self.p.tname(u['elem'])
        nm = 'map[%s]%s' % (kn, en)
        return nm, u['key'], u['elem']

    def mapdom(self, st, m):
        nm, kt, et = self.mapkeys(m.t)
        a = self.arr(self.hp(st, m.snap), 'dom:' + nm, z3.ArraySort(self.S.sort(kt), BoolS))
        return sel(a, m.ref)

    def mapval(self, st, m):
        nm, kt, et = self.mapkeys(m.t)
        a = self.arr(self.hp(st, m.snap), 'val:' + nm, z3.ArraySort(self.S.sort(kt), self.S.sort(et)))
        return sel(a, m.ref)

    def card(self, dom):
        s = dom.sort()
        c = z3.Function('card<%s>' % s.domain(), s, IntS)
        w = z3.Function('cardwit<%s>' % s.domain(), s, s.domain())

        def rec(d):
            if z3.is_app(d) and opkind(d) == z3.Z3_OP_CONST_ARRAY and z3.is_false(d.arg(0)):
                self.fact(c(d) == 0)
                return z3.IntVal(0)
            if is_store(d) and z3.is_true(d.arg(2)):
                b = rec(d.arg(0))
                self.fact(c(d) == b + z3.If(sel(d.arg(0), d.arg(1)), 0, 1))
            self.fact(c(d) >= 0)
            x = z3.Const('x!card', s.domain())
            self.fact(forall([x], z3.Implies(z3.Select(d, x), c(d) > 0), patterns=[z3.Select(d, x)]))
            self.fact(z3.Implies(c(d) > 0, z3.Select(d, w(d))))
            return c(d)
        if isite(dom):
            return ite(dom.arg(0), self.card(dom.arg(1)), self.card(dom.arg(2)))
        return rec(dom)

    # ------------------------------------------------------------ merge
    def mergeval(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            if a.snap is not b.snap:
                raise Unsupported('merge of old and new slice')
            return SliceV(mite(c, a.ln, b.ln), mite(c, a.arr, b.arr), mite(c, a.nil, b.nil), a.t, a.snap)
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV(a.t, [self.mergeval(c, x, y) for x, y in zip(a.fs, b.fs)])
        if isinstance(a, IfV) and isinstance(b, IfV):
            sn = a.snap
            if a.snap is not b.snap:
                if z3.is_int_value(a.tag) and a.tag.as_long() == 0:
                    sn = b.snap
                elif not (z3.is_int_value(b.tag) and b.tag.as_long() == 0):
                    raise Unsupported('merge of old and new interface')
            return IfV(mite(c, a.tag, b.tag), mite(c, a.pay, b.pay), sn)
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.root == b.root and self.samepath(a.path, b.path):
                sn = a.snap
                if a.snap is not b.snap:
                    if z3.is_int_value(a.base):
                        sn = b.snap
                    elif not z3.is_int_value(b.base):
                        raise Unsupported('merge of old and new pointer')
                return PtrV(mite(c, a.base, b.base), a.root, a.path, a.t, sn)
            if z3.is_int_value(a.base) and not a.path and z3.is_true(c):
                return a
            raise Unsupported('merge of interior pointers')
        if isinstance(a, MapV) and isinstance(b, MapV):
            return MapV(mite(c, a.ref, b.ref), a.t, a.snap if a.snap is b.snap else self._badsnap(a, b))
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            ta, tb = self.functerm(a), self.functerm(b)
            if ta.eq(tb):
                return a
            return FuncV(ref=ite(c, ta, tb), t=a.t)
        if isinstance(a, TupleV):
            return TupleV([self.mergeval(c, x, y) for x, y in zip(a.vs, b.vs)])
        if isinstance(a, CellV) and isinstance(b, CellV) and a.cid == b.cid and self.samepath(a.path, b.path):
            return a
        if isinstance(a, Val) or isinstance(b, Val):
            if a is None or b is None:
                return a if b is None else b
            raise Unsupported('merge %s/%s' % (type(a).__name__, type(b).__name__))
        if a is None or b is None:
            return a if b is None else b
        return mite(c, a, b)

    def _badsnap(self, a, b):
        if z3.is_int_value(a.ref):
            return b.snap
        if z3.is_int_value(b.ref):
            return a.snap
        raise Unsupported('merge of old and new map')

    def samepath(self, p, q):
        if len(p) != len(q):
            return False
        for x, y in zip(p, q):
            if isinstance(x, tuple) != isinstance(y, tuple):
                return False
            if isinstance(x, tuple):
                if not x[1].eq(y[1]):
                    return False
            elif x != y:
                return False
        return True

    def merge(self, items):
        """items: [(State, [vals])] -> (State, [vals])"""
        items = [it for it in items if not any(z3.is_false(c) for c in it[0].pc)]
        if not items:
            return None
        if len(items) == 1:
            return items[0]
        # common prefix of path conditions (as sets)
        common = set(c.get_id() for c in items[0][0].pc)
        for st, _ in items[1:]:
            common &= set(c.get_id() for c in st.pc)
        pc = [c for c in items[0][0].pc if c.get_id() in common]
        guards = [conj([c for c in st.pc if c.get_id() not in common]) for st, _ in items]
        ks = set()
        for g in guards:
            for c in (g.children() if z3.is_and(g) else [g]):
                ks.add(c.get_id())
        d = disj(guards)
        if not z3.is_true(d) or len(guards) > 2:
            d, guards = self.simp_guards(guards, d)
        pc = pc + (list(d.children()) if z3.is_and(d) else ([] if z3.is_true(d) else [d]))
        st, vals = items[-1]
        heap, cells, alloc = dict(st.heap), dict(st.cells), st.alloc
        vals = list(vals)
        for (s2, v2), g in reversed(list(zip(items[:-1], guards[:-1]))):
            g = self.guard_simplify(g)
            for key in set(heap) | set(s2.heap):
                a, b = s2.heap.get(key), heap.get(key)
                if a is None:
                    a = self.h0.get(key, b)
                if b is None:
                    b = self.h0.get(key, a)
                heap[key] = a if a.eq(b) else merge_arr(g, a, b)
            for cid in list(cells):
                if cid in s2.cells:
                    cells[cid] = self.mergeval(g, s2.cells[cid], cells[cid])
            for cid in s2.cells:
                if cid not in cells:
                    cells[cid] = s2.cells[cid]
            alloc = self.merge_alloc(g, s2.alloc, alloc)
            vals = [self.mergeval(g, x, y) for x, y in zip(v2, vals)]
        return State(pc, heap, cells, alloc), vals

    def simp_guards(self, guards, d):
        """propositional simplification: the disjunction, and each guard up to
        what is outside the disjunction or taken by an earlier guard"""
        key = tuple(g.get_id() for g in guards)
        r = self.guardmemo.get(key)
        if r is not None:
            return r[1]
        try:
            B = bdd.Bdd()
            gs = [B.of(g) for g in guards]
            D = 0
            for g in gs:
                D = B.ite(D, 1, g)
            cb = B.cover(D, D)
            if D == 1:
                nd = core._true
            else:
                nd = self.factor(B.terms(cb))
            ng = []
            care = D
            for g, t in zip(gs, guards):
                # callers test the guards in order: earlier ones are false here
                c = B.cover(B.ite(g, care, 0), B.ite(g, 1, B.ite(care, 0, 1)))
                x = disj([conj(ts) for ts in B.terms(c)])
                ng.append(x if self.litcount(x) <= self.litcount(t) else t)
                care = B.ite(g, 0, care)
            if not z3.is_true(nd) and self.litcount(nd) > self.litcount(d):
                nd = self.simp_disj(guards, d)
            res = (nd, ng)
        except bdd.TooBig:
            res = (d if z3.is_true(d) else self.simp_disj(guards, d), guards)
        self.guardmemo[key] = (guards, res)
        return res

    def litcount(self, t):
        k = opkind(t)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            return sum(self.litcount(c) for c in t.children())
        return 1

    def factor(self, cubes):
        """disjunction of conjunctions with common literals pulled out"""
        if any(not c for c in cubes):
            return core._true
        com = set.intersection(*[set(x.get_id() for x in c) for c in cubes])
        pre = [x for x in cubes[0] if x.get_id() in com]
        rest = disj([conj([x for x in c if x.get_id() not in com]) for c in cubes])
        return conj(pre + ([] if z3.is_true(rest) else list(rest.children()) if z3.is_and(rest) else [rest]))

    def guard_simplify(self, g):
        return g

    def simp_disj(self, guards, d):
        # factor: each guard is a conjunction; try resolution on two guards that
        # differ by one complementary literal
        gs = [frozenset(c.get_id() for c in (g.children() if z3.is_and(g) else [g])) for g in guards]
        by = {}
        for g in guards:
            for c in (g.children() if z3.is_and(g) else [g]):
                by[c.get_id()] = c
        neg = {}
        for i, c in list(by.items()):
            n = nt(c)
            by[n.get_id()] = n
            neg[i] = n.get_id()
            neg[n.get_id()] = i
        work = list(dict.fromkeys(gs))
        changed = True
        while changed:
            changed = False
            for i in range(len(work)):
                for j in range(len(work)):
                    if i == j:
                        continue
                    a, b = work[i], work[j]
                    for l in a:
                        if neg[l] in b and (b - {neg[l]}) <= (a - {l}):
                            # (X & l) | (Y & ~l) with Y <= X  ->  drop l from a
                            work[i] = a - {l}
                            changed = True
                            break
                    if changed:
                        break
                if changed:
                    break
            # absorption
            new = []
            for i, a in enumerate(work):
                if any((b < a) or (b == a and j < i) for j, b in enumerate(work) if j != i):
                    continue
                new.append(a)
            work = new
        return disj([conj([by[l] for l in sorted(w)]) for w in work])

    def merge_alloc(self, g, a, b):
        if a.eq(b):
            return a
        if BND.le(a, b):
            lo = a
        elif BND.le(b, a):
            lo = b
        else:
            lo = None
        d = sub_lin(a, b)
        # allocation is a high-water mark: taking the larger value is sound (it only skips refs)
        if d is not None:
            return a if d > 0 else b
        if lo is not None:
            return b if lo is a else a
        # coefficientwise maximum (loop counts are nonnegative)
        ma, mb = BND.linm(a), BND.linm(b)
        out, ok = z3.IntVal(0), True
        for i in sorted(set(ma) | set(mb), key=lambda i: (i is None, i or 0)):
            t, ca = ma.get(i, (None, 0))
            t2, cb = mb.get(i, (None, 0))
            t = t if t is not None else t2
            if ca != cb and i is not None and not (z3.is_app(t) and t.decl().name().startswith('nL')):
                ok = False
                break
            c = max(ca, cb)
            if i is None:
                out = add(out, c)
            elif c:
                out = add(out, t if c == 1 else z3.IntVal(c) * t)
        if ok:
            return out
        nm = self.fresh('alloc', IntS)
        self.tagged(nm.decl().name(), z3.And(nm >= a, nm >= b))
        # only one parent can be recorded syntactically; use the common older one
        BND.parent[nm.decl().name()] = (list(self.idx), self.common_alloc(a, b))
        return nm

    def common_alloc(self, a, b):
        chain = [a]
        x = a
        for _ in range(64):
            s, c = lin(x)
            if s is None or s.decl().name() not in BND.parent:
                break
            x = BND.inst(BND.parent[s.decl().name()], s)
            chain.append(x)
        for x in chain:
            if BND.le(x, b):
                return x
        return self.alloc0
