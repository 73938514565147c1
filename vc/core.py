"""Sorts, symbolic values and term-level simplification for the VC generator."""
import json
import z3
import fastz3
from fastz3 import opkind

IntS, BoolS = z3.IntSort(), z3.BoolSort()
StrS = z3.DeclareSort('Str')
FltS = z3.DeclareSort('Flt')


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.module = d['module']
        self.types = d['types']
        self.funcs = d['funcs']
        self.globals = d['globals']
        for f in self.funcs.values():
            for k in ('params', 'freevars', 'blocks'):
                if f.get(k) is None:
                    f[k] = []
            for b in f['blocks']:
                for k in ('succs', 'preds', 'instrs'):
                    if b.get(k) is None:
                        b[k] = []
                for i in b['instrs']:
                    for k in ('args', 'edges'):
                        if k in i and i[k] is None:
                            i[k] = []
                    if i['op'] in ('call', 'defer', 'go', 'return', 'makeclosure') and 'args' not in i:
                        i['args'] = []
        for t in self.types:
            for k in ('fields', 'elems', 'methods', 'results'):
                if k in t and t[k] is None:
                    t[k] = {} if (k == 'methods' and t['k'] == 'named') else []
        self.by_str = {}
        for t in self.types:
            self.by_str.setdefault(t['str'], t['id'])
        self._short = {}

    def under(self, t):
        ty = self.types[t]
        while ty['k'] == 'named':
            ty = self.types[ty['under']]
        return ty

    def kind(self, t):
        return self.under(t)['k']

    def tname(self, t):
        return self.types[t]['str']

    def is_bytes(self, t):
        u = self.under(t)
        if u['k'] != 'slice':
            return False
        e = self.under(u['elem'])
        return e['k'] == 'basic' and e['name'] in ('uint8', 'byte')

    def is_string(self, t):
        u = self.under(t)
        return u['k'] == 'basic' and u['name'] in ('string', 'untyped string')


INT_NAMES = {'int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64',
             'uintptr', 'byte', 'rune', 'untyped int', 'untyped rune'}
FLT_NAMES = {'float32', 'float64', 'untyped float', 'complex128', 'complex64'}


# ---------------------------------------------------------------- sorts
class Sorts:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.slices = {}
        self.structs = {}
        self.ifc = None
        d = z3.Datatype('Iface')
        d.declare('mk_if', ('if_tag', IntS), ('if_pay', IntS))
        self.ifs = d.create()
        self.strs = {}
        self.strlist = []
        self.unfloat = {}
        self.zero_cache = {}

    def slice_sort(self, es):
        key = es.sexpr()
        if key not in self.slices:
            d = z3.Datatype('Slice<%s>' % key.replace(' ', '_').replace('(', '[').replace(')', ']'))
            n = d.name
            d.declare('mk_' + n, ('len_' + n, IntS), ('arr_' + n, z3.ArraySort(IntS, es)), ('nil_' + n, BoolS))
            self.slices[key] = d.create()
        return self.slices[key]

    def sort(self, t):
        if t in self.cache:
            return self.cache[t]
        u = self.p.under(t)
        k = u['k']
        if k == 'basic':
            n = u['name']
            if n in ('bool', 'untyped bool'):
                s = BoolS
            elif n in ('string', 'untyped string'):
                s = StrS
            elif n in INT_NAMES:
                s = IntS
            elif n in FLT_NAMES:
                s = FltS
            elif n in ('untyped nil', 'unsafe.Pointer', 'Pointer', 'invalid type'):
                s = IntS
            else:
                raise Unsupported('basic ' + n)
        elif k in ('ptr', 'map', 'chan', 'sig'):
            s = IntS
        elif k == 'iface':
            s = self.ifs
        elif k == 'slice':
            if self.p.is_bytes(t):
                s = StrS
            else:
                s = self.slice_sort(self.sort(u['elem']))
        elif k == 'array':
            s = z3.ArraySort(IntS, self.sort(u['elem']))
        elif k == 'struct':
            fs = u['fields'] or []
            if not fs:
                s = IntS
            else:
                nm = 'S<%s>' % self.p.tname(t)
                if nm not in self.structs:
                    d = z3.Datatype(nm)
                    d.declare('mk_' + nm, *[('%s.%d' % (nm, i), self.sort(f['type'])) for i, f in enumerate(fs)])
                    self.structs[nm] = d.create()
                s = self.structs[nm]
        elif k == 'tuple':
            raise Unsupported('tuple sort')
        else:
            raise Unsupported('sort of ' + k)
        self.cache[t] = s
        return s

    def strconst(self, s):
        if s not in self.strs:
            self.strs[s] = z3.Const('str!%d' % len(self.strlist), StrS)
            self.strlist.append(s)
        return self.strs[s]

    def lit_of(self, term):
        """the literal of a string-constant term, or None"""
        if z3.is_const(term) and opkind(term) == z3.Z3_OP_UNINTERPRETED:
            n = term.decl().name()
            if n.startswith('str!'):
                return self.strlist[int(n[4:])]
        return None


slen = z3.Function('slen', StrS, IntS)
sid = z3.Function('sid', StrS, IntS)
scat = z3.Function('scat', StrS, StrS, StrS)
byteat = z3.Function('byteat', StrS, IntS, IntS)
bset = z3.Function('bset', StrS, IntS, IntS, StrS)
ssub = z3.Function('ssub', StrS, IntS, IntS, StrS)
schar = z3.Function('schar', IntS, StrS)          # one-byte string
sisnil = z3.Function('sisnil', StrS, BoolS)
mkbytes = z3.Function('mkbytes', IntS, StrS)      # n zero bytes


# ---------------------------------------------------------------- term helpers
def is_app_of(t, name):
    return z3.is_app(t) and t.decl().name() == name


def ctor_fields(t):
    """if t is a datatype constructor application return its args"""
    if z3.is_app(t) and opkind(t) == z3.Z3_OP_DT_CONSTRUCTOR:
        return [t.arg(i) for i in range(t.num_args())]
    return None


def acc(sort, i, t):
    """i-th accessor of single-constructor datatype term t, simplified"""
    f = ctor_fields(t)
    if f is not None:
        return f[i]
    if z3.is_app(t) and opkind(t) == z3.Z3_OP_ITE:
        a, b = acc(sort, i, t.arg(1)), acc(sort, i, t.arg(2))
        return ite(t.arg(0), a, b)
    return sort.accessor(0, i)(t)


_true, _false = z3.BoolVal(True), z3.BoolVal(False)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def nt(t):
    if z3.is_true(t):
        return _false
    if z3.is_false(t):
        return _true
    if z3.is_not(t):
        return t.arg(0)
    return z3.Not(t)


def conj(ts):
    out, seen = [], set()
    for t in ts:
        if z3.is_true(t):
            continue
        if z3.is_false(t):
            return _false
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        out.append(t)
    if not out:
        return _true
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def disj(ts):
    out, seen = [], set()
    for t in ts:
        if z3.is_false(t):
            continue
        if z3.is_true(t):
            return _true
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        out.append(t)
    ids = {t.get_id() for t in out}
    for t in out:
        if nt(t).get_id() in ids:
            return _true
    if not out:
        return _false
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return _true
    return z3.Implies(a, b)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() == BoolS:
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return nt(c)
        if z3.is_true(a):
            return disj([c, b])
        if z3.is_false(b):
            return conj([c, a])
        if z3.is_false(a):
            return conj([nt(c), b])
        if z3.is_true(b):
            return disj([nt(c), a])
    if z3.is_not(c):
        return ite(c.arg(0), b, a)
    return z3.If(c, a, b)


def isite(t):
    return z3.is_app(t) and opkind(t) == z3.Z3_OP_ITE


def add(a, n):
    """a + n with constant folding"""
    if isinstance(n, int):
        if n == 0:
            return a
        n = z3.IntVal(n)
    s, c = lin(a)
    s2, c2 = lin(n)
    if s is None and s2 is None:
        return z3.IntVal(c + c2)
    if s2 is None:
        return s if c + c2 == 0 else s + (c + c2)
    if s is None:
        return s2 if c + c2 == 0 else s2 + (c + c2)
    r = z3.simplify(a + n)
    s, c = lin(r)
    if s is None:
        return z3.IntVal(c)
    return s if c == 0 else s + c


def lin(a):
    """decompose integer term into (symbolic part or None, constant)"""
    if z3.is_int_value(a):
        return None, a.as_long()
    if z3.is_app(a) and opkind(a) == z3.Z3_OP_ADD:
        c, rest = 0, []
        for i in range(a.num_args()):
            s, k = lin(a.arg(i))
            c += k
            if s is not None:
                rest.append(s)
        if not rest:
            return None, c
        if len(rest) == 1:
            return rest[0], c
        r = rest[0]
        for x in rest[1:]:
            r = r + x
        return r, c
    return a, 0


def sub_lin(a, b):
    """constant a-b, or None"""
    if a.eq(b):
        return 0
    sa, ca = lin(a)
    sb, cb = lin(b)
    if sa is None and sb is None:
        return ca - cb
    if sa is None or sb is None:
        return None
    if sa.eq(sb):
        return ca - cb
    return None


class Bounds:
    """syntactic knowledge about reference terms, keyed by the declaration at
    the root of a term: epoch = allocation counter when the symbol's contents
    were fixed (every reference read out of it is <= that counter); parent =
    older counter a counter symbol is known to be >= of."""

    def __init__(self):
        self.epoch = {}    # decl name -> (formals, alloc term)
        self.parent = {}   # decl name -> (formals, alloc term)
        self.memo = {}
        self.lmemo = {}
        self.keep = []

    def clear(self):
        self.epoch.clear()
        self.parent.clear()
        self.memo.clear()
        self.lmemo.clear()
        del self.keep[:]

    @staticmethod
    def inst(ent, app):
        formals, term = ent
        if not formals:
            return term
        ps = [(f, app.arg(i)) for i, f in enumerate(formals) if not f.eq(app.arg(i))]
        return z3.substitute(term, *ps) if ps else term

    def root(self, t):
        """the symbol application a term is read out of, or None"""
        while z3.is_app(t):
            k = opkind(t)
            if k == z3.Z3_OP_SELECT or k == z3.Z3_OP_DT_ACCESSOR:
                t = t.arg(0)
                continue
            if k == z3.Z3_OP_UNINTERPRETED:
                return t
            return None
        return None

    def ub(self, t):
        if z3.is_int_value(t):
            return t
        r = self.root(t)
        if r is None:
            return None
        e = self.epoch.get(r.decl().name())
        return None if e is None else self.inst(e, r)

    def linm(self, t):
        """integer term as {id: [atom, coefficient]} with the constant at None"""
        m = self.lmemo.get(t.get_id())
        if m is None:
            m = {}
            self._linm(t, 1, m)
            m = {i: v for i, v in m.items() if v[1] != 0}
            self.lmemo[t.get_id()] = m
            self.keep.append(t)
        return m

    def _linm(self, t, c, out):
        k = opkind(t)
        if z3.is_int_value(t):
            out[None] = (None, out.get(None, (None, 0))[1] + c * t.as_long())
        elif k == z3.Z3_OP_ADD:
            for x in t.children():
                self._linm(x, c, out)
        elif k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            self._linm(t.arg(1), c * t.arg(0).as_long(), out)
        else:
            i = t.get_id()
            out[i] = (t, out.get(i, (None, 0))[1] + c)

    def le(self, a, b):
        """alloc terms: is a <= b known?"""
        key = (a.get_id(), b.get_id())
        m = self.memo.get(key)
        if m is not None:
            return m[0]
        d = dict(self.linm(b))
        for i, (t, c) in self.linm(a).items():
            d[i] = (t, d.get(i, (None, 0))[1] - c)
        res = False
        for _ in range(64):
            d = {i: v for i, v in d.items() if v[1] != 0}
            rest = [(i, t, c) for i, (t, c) in d.items() if i is not None and
                    not (c > 0 and z3.is_app(t) and t.decl().name().startswith(('nL', 'made')))]
            if not rest:
                res = d.get(None, (None, 0))[1] >= 0
                break
            nxt = None
            for i, t, c in rest:
                if c > 0 and z3.is_app(t) and t.decl().name() in self.parent:
                    nxt = (i, t, c)
                    break
            if nxt is None:
                break
            i, t, c = nxt
            del d[i]
            for j, (u, e) in self.linm(self.inst(self.parent[t.decl().name()], t)).items():
                d[j] = (u, d.get(j, (None, 0))[1] + c * e)
        self.keep += [a, b]
        self.memo[key] = (res,)
        return res

    def is_alloc(self, t):
        if z3.is_int_value(t):
            return False
        for i, (x, c) in self.linm(t).items():
            if i is not None and c == 1 and z3.is_app(x) and (x.decl().name() in self.parent or x.decl().name() == 'alloc0'):
                return True
        return False

    def distinct(self, r1, r2, depth=0):
        d = sub_lin(r1, r2)
        if d is not None:
            return d != 0
        if depth < 4:
            for x, y in ((r1, r2), (r2, r1)):
                if isite(x):
                    return self.distinct(x.arg(1), y, depth + 1) and self.distinct(x.arg(2), y, depth + 1)
        for x, y in ((r1, r2), (r2, r1)):
            if not self.is_alloc(y):
                continue
            u = self.ub(x)
            if u is not None and self.le(add(u, 1), y):
                return True
            if self.is_alloc(x) and self.le(add(x, 1), y):
                return True
        return False


BND = Bounds()


def reset():
    fastz3.reset()
    BND.clear()


def is_store(t):
    return z3.is_app(t) and opkind(t) == z3.Z3_OP_STORE


def is_select(t):
    return z3.is_app(t) and opkind(t) == z3.Z3_OP_SELECT


def distinct_idx(r1, r2, lits=None):
    if r1.sort() == IntS:
        return BND.distinct(r1, r2)
    if r1.sort() == StrS and lits is not None:
        a, b = lits(r1), lits(r2)
        return a is not None and b is not None and a != b
    return False


LITS = [None]


def sel(A, r, depth=0):
    while True:
        if is_store(A):
            r2 = A.arg(1)
            if r2.eq(r):
                return A.arg(2)
            if distinct_idx(r2, r, LITS[0]):
                A = A.arg(0)
                continue
            return z3.Select(A, r)
        if z3.is_app(A) and opkind(A) == z3.Z3_OP_CONST_ARRAY:
            return A.arg(0)
        if isite(A) and depth < 6:
            return ite(A.arg(0), sel(A.arg(1), r, depth + 1), sel(A.arg(2), r, depth + 1))
        return z3.Select(A, r)


def store(A, r, v):
    if is_select(v) and v.arg(0).eq(A) and v.arg(1).eq(r):
        return A
    # overwrite an earlier store at the same index, skipping distinct ones
    chain, B = [], A
    while is_store(B):
        if B.arg(1).eq(r):
            base = B.arg(0)
            for (q, w) in reversed(chain):
                base = z3.Store(base, q, w)
            return z3.Store(base, r, v)
        if not distinct_idx(B.arg(1), r, LITS[0]):
            break
        chain.append((B.arg(1), B.arg(2)))
        B = B.arg(0)
    return z3.Store(A, r, v)


def chain_of(A):
    out = []
    while is_store(A):
        out.append((A.arg(1), A.arg(2)))
        A = A.arg(0)
    return A, out


def merge_arr(c, a, b):
    if a.eq(b):
        return a
    ba, ca = chain_of(a)
    bb, cb = chain_of(b)
    if ba.eq(bb):
        # longest common tail
        n = 0
        while n < len(ca) and n < len(cb) and ca[-1 - n][0].eq(cb[-1 - n][0]) and ca[-1 - n][1].eq(cb[-1 - n][1]):
            n += 1
        ca2, cb2 = ca[:len(ca) - n], cb[:len(cb) - n]
        base = ba
        for (q, w) in reversed(ca[len(ca) - n:]):
            base = z3.Store(base, q, w)
        refs, seen = [], set()
        for q, _ in list(reversed(ca2)) + list(reversed(cb2)):
            if q.get_id() not in seen:
                seen.add(q.get_id())
                refs.append(q)
        if len(refs) <= 12:
            out = base
            for q in refs:
                va, vb = sel(a, q), sel(b, q)
                if z3.is_array(va) and not va.eq(vb):
                    v = merge_arr(c, va, vb)
                else:
                    v = ite(c, va, vb)
                out = store(out, q, v)
            return out
    return z3.If(c, a, b)


def mite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if z3.is_array(a):
        return merge_arr(c, a, b)
    fa, fb = ctor_fields(a), ctor_fields(b)
    if fa is not None and fb is not None and len(fa):
        if a.eq(b):
            return a
        return a.decl()(*[mite(c, x, y) for x, y in zip(fa, fb)])
    if (fa is not None or fb is not None) and (fa or fb):
        s = a.sort()
        n = s.constructor(0).arity()
        return s.constructor(0)(*[mite(c, acc(s, i, a), acc(s, i, b)) for i in range(n)])
    return ite(c, a, b)


BADPAT = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE,
          z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_IFF if hasattr(z3, 'Z3_OP_IFF') else z3.Z3_OP_EQ}


def goodpat(p):
    """patterns must be quantifier-free and free of logical connectives"""
    stack = list(p) if isinstance(p, tuple) else [p]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            if opkind(x) in BADPAT:
                return False
            stack.extend(x.children())
    return True


def MP(*ts):
    return tuple(ts)


def _quant(mk, vs, body, patterns):
    pats = [p for p in patterns if goodpat(p)]
    ids = {v.get_id() for v in vs}
    out = []
    for p in pats:
        need = set(ids)
        stack = list(p) if isinstance(p, tuple) else [p]
        seen = set()
        if any(not z3.is_app(x) or x.num_args() == 0 for x in stack):
            continue
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            need.discard(x.get_id())
            stack.extend(x.children())
        if not need:
            out.append(z3.MultiPattern(*p) if isinstance(p, tuple) else p)
    import sys
    f = sys._getframe(2)
    qid = '%s_%d_%s' % (f.f_code.co_name, f.f_lineno, vs[0])
    return mk(vs, body, patterns=out, qid=qid) if out else mk(vs, body, qid=qid)


def forall(vs, body, patterns=()):
    if z3.is_true(body):
        return body
    return _quant(z3.ForAll, vs, body, patterns)


def exists_(vs, body, patterns=()):
    return _quant(z3.Exists, vs, body, patterns)


# ---------------------------------------------------------------- values
class Val:
    snap = None


class SliceV(Val):
    __slots__ = ('ln', 'arr', 'nil', 't', 'snap', 'cell')

    def __init__(self, ln, arr, nil, t, snap=None, cell=None):
        self.ln, self.arr, self.nil, self.t, self.snap, self.cell = ln, arr, nil, t, snap, cell


class StructV(Val):
    __slots__ = ('t', 'fs')

    def __init__(self, t, fs):
        self.t, self.fs = t, fs


class IfV(Val):
    __slots__ = ('tag', 'pay', 'snap')

    def __init__(self, tag, pay, snap=None):
        self.tag, self.pay, self.snap = tag, pay, snap


class PtrV(Val):
    """pointer: base ref term into objects of type root, then a path of field
    indices / ('i', term).  t = pointer type id"""
    __slots__ = ('base', 'root', 'path', 't', 'snap')

    def __init__(self, base, root, path, t, snap=None):
        self.base, self.root, self.path, self.t, self.snap = base, root, path, t, snap


class CellV(Val):
    __slots__ = ('cid', 'path', 't')

    def __init__(self, cid, path, t):
        self.cid, self.path, self.t = cid, path, t


class ElemV(Val):
    """read-only pointer into a slice/array value"""
    __slots__ = ('val', 'vt', 'path', 't', 'snap')

    def __init__(self, val, vt, path, t, snap=None):
        self.val, self.vt, self.path, self.t, self.snap = val, vt, path, t, snap


class MapV(Val):
    __slots__ = ('ref', 't', 'snap')

    def __init__(self, ref, t, snap=None):
        self.ref, self.t, self.snap = ref, t, snap


class FuncV(Val):
    __slots__ = ('fn', 'binds', 'ref', 't', 'recv')

    def __init__(self, fn=None, binds=(), ref=None, t=None):
        self.fn, self.binds, self.ref, self.t = fn, binds, ref, t


class TupleV(Val):
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = vs


class MapIterV(Val):
    __slots__ = ('m', 'dom', 'key', 'n', 'loop', 't', 'isstr', 's', 'idx')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class ByteCellV(Val):
    """a []byte created by make: content lives in a heap cell"""
    __slots__ = ('ref', 't', 'lo', 'hi')

    def __init__(self, ref, t, lo=None, hi=None):
        self.ref, self.t, self.lo, self.hi = ref, t, lo, hi
