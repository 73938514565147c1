"""Speeds up term traversal through the z3 Python API (no semantic change):
memoised children/ids/kinds, error checks skipped for pure getters."""
import z3
import z3.z3 as zz
import z3.z3core as zc

zz.Z3_DEBUG = False
zz.z3_debug = lambda: False
for _n in ('Z3_get_ast_kind', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_sort', 'Z3_get_sort_kind',
           'Z3_is_finite_set_sort', 'Z3_get_ast_id', 'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_inc_ref', 'Z3_dec_ref',
           'Z3_is_eq_ast', 'Z3_get_ast_hash'):
    if hasattr(zz, _n):
        _f = getattr(zc, _n).__defaults__
        if _f:
            setattr(zz, _n, _f[0].f)

KIDS, KIND, SKIND = {}, {}, {}
_oid = z3.AstRef.get_id


def get_id(self):
    try:
        return self.__dict__['_vid']
    except KeyError:
        i = self._vid = _oid(self)
        return i


z3.AstRef.get_id = get_id
for c in (z3.ExprRef, z3.QuantifierRef, z3.SortRef, z3.FuncDeclRef):
    if 'get_id' in c.__dict__:
        c.get_id = get_id
_oarg = z3.ExprRef.arg


def _kids(self):
    i = get_id(self)
    r = KIDS.get(i)
    if r is None:
        if isinstance(self, z3.QuantifierRef):
            ks = [self.body()]
        elif isinstance(self, z3.PatternRef):
            raise TypeError('children of a pattern')
        elif zz.Z3_get_ast_kind(self.ctx.ref(), self.as_ast()) == z3.Z3_APP_AST:
            n = zz.Z3_get_app_num_args(self.ctx.ref(), self.as_ast())
            ks = [_oarg(self, j) for j in range(n)]
        else:
            ks = []
        r = KIDS[i] = (self, ks)
    return r[1]


def children(self):
    return _kids(self)


def arg(self, j):
    return _kids(self)[j]


def num_args(self):
    return len(_kids(self))


z3.ExprRef.children = children
z3.QuantifierRef.children = children
z3.ExprRef.arg = arg
z3.ExprRef.num_args = num_args


def akind(a):
    d = a.__dict__
    k = d.get('_vak')
    if k is None:
        k = d['_vak'] = zz.Z3_get_ast_kind(a.ctx.ref(), a.as_ast())
    return k


def is_app(a):
    if not isinstance(a, z3.ExprRef) or isinstance(a, z3.QuantifierRef):
        return False
    k = akind(a)
    return k == z3.Z3_NUMERAL_AST or k == z3.Z3_APP_AST


zz.is_app = z3.is_app = is_app


def opkind(x):
    d = x.__dict__
    k = d.get('_vok')
    if k is None:
        k = d['_vok'] = zz.Z3_get_decl_kind(x.ctx.ref(), zz.Z3_get_app_decl(x.ctx.ref(), x.as_ast()))
    return k


def is_app_of(a, k):
    return is_app(a) and opkind(a) == k


zz.is_app_of = z3.is_app_of = is_app_of


def reset():
    KIDS.clear()
