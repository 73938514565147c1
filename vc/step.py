"""Instruction semantics, calls and region execution."""
import z3
import core
from core import *
from sym import *
import sym

MAXDEPTH = 60


def written_params(fn):
    """slice parameters whose elements the function assigns"""
    if '_wparams' not in fn:
        ps = {p['name'] for p in fn['params']}
        out = set()
        for b in fn['blocks'] or []:
            for i in b['instrs']:
                if i['op'] == 'indexaddr' and i['x'].get('n') in ps and i['x'].get('k') == 'reg':
                    if any(j['op'] == 'store' and j['addr'].get('n') == i['reg'] for c in fn['blocks'] for j in c['instrs']):
                        out.add(i['x']['n'])
        fn['_wparams'] = out
    return fn['_wparams']


class Panic(Exception):
    """execution certainly panics here (path ends)"""


class Exec2(sym.Exec):
    # ------------------------------------------------------------ operands
    def val(self, act, v, st):
        k = v['k']
        if k == 'reg':
            n = v['n']
            if n not in act.regs:
                raise Unsupported('unset register %s in %s' % (n, act.fn['name']))
            return act.regs[n]
        if k == 'const':
            t = v['t']
            if v.get('nil'):
                return self.zero(t)
            ck = v['ck']
            u = self.p.under(t)
            if ck == 'bool':
                return z3.BoolVal(bool(v['v']))
            if ck == 'string':
                return self.strc(self.conststr(v))
            if u['k'] == 'basic' and u['name'] in FLT_NAMES:
                return self.fltconst(v['v'])
            if ck == 'int':
                if u['k'] == 'basic' and u['name'] in INT_NAMES:
                    return z3.IntVal(int(v['v']))
            raise Unsupported('constant %r' % (v,))
        if k == 'func':
            return FuncV(fn=v['n'], t=v['t'])
        if k == 'global':
            g = v['n']
            pt = v['t']
            et = self.p.under(pt)['elem']
            return PtrV(self.globref(g), et, (), pt)
        raise Unsupported('operand ' + k)

    def conststr(self, v):
        import base64
        if v.get('bytes') is not None:
            return base64.b64decode(v['bytes']).decode('utf-8', 'surrogateescape')
        return v['v']

    def fltconst(self, s):
        s = str(s)
        return z3.Const('flt!' + s, FltS)

    def eoftag(self):
        if 'io.EOF' not in self.typetags:
            self.typetags['io.EOF'] = (len(self.typetags) + 1, None)
        return self.typetags['io.EOF'][0]

    def globref(self, g):
        if not hasattr(self, 'globs'):
            self.globs = {}
        if g not in self.globs:
            # globals live at negative references, never equal to heap objects
            self.globs[g] = z3.IntVal(-10 - len(self.globs))
        return self.globs[g]

    def mat(self, st, v):
        """materialise cell-backed slices"""
        if isinstance(v, ByteCellV):
            t = sel(self.arr(st.heap, 'cell:bytes', StrS), v.ref)
            if v.lo is None and v.hi is None:
                return t
            lo = v.lo if v.lo is not None else z3.IntVal(0)
            hi = v.hi if v.hi is not None else self.strlen(t)
            return self.substr(t, lo, hi)
        if isinstance(v, SliceV) and v.cell is not None:
            key, es, et = v.cell[1]
            t = sel(self.arr(st.heap, key, es), v.cell[0])
            return SliceV(v.ln, t, v.nil, v.t)
        return v

    def arg(self, act, v, st):
        return self.mat(st, self.val(act, v, st))

    # ------------------------------------------------------------ functions
    def exec_func(self, name, args, free, st, site=''):
        fn = self.p.funcs[name]
        if self.depth > MAXDEPTH or self.callstack.count(name) > 2:
            raise Unsupported('recursion through ' + name)
        self.depth += 1
        self.callstack.append(name)
        self.n += 1
        act = Act(fn, self.n)
        try:
            for pr, a in zip(fn['params'], args):
                if isinstance(a, SliceV) and a.cell is None and a.snap is None and pr['name'] in written_params(fn):
                    # elements are assigned in place: in this activation the slice is an array of its own
                    st = st.copy()
                    u = self.p.under(a.t)
                    r = self.newref(st)
                    key = 'cell:%s' % self.p.tname(u['elem'])
                    es = z3.ArraySort(IntS, self.S.sort(u['elem']))
                    st.heap[key] = core.store(self.arr(st.heap, key, es), r, a.arr)
                    a = SliceV(a.ln, a.arr, a.nil, a.t, None, (r, (key, es, u['elem'])))
                act.regs[pr['name']] = a
            for fv, b in zip(fn['freevars'] or [], free):
                act.regs[fv['name']] = b
            self.cur_alloc = st.alloc
            blocks, loops, order, inner = loops_of(fn)
            res = self.run_region(act, None, [(-1, st)], 0)
            rets = res['returns']
            m = self.merge(rets)
            if m is None:
                return None
            st2, vals = m
            self.cur_alloc = st2.alloc
            sig = self.p.types[fn['sig']]
            n = len(sig['results'] or [])
            if n == 0:
                r = TupleV([])
            elif n == 1:
                r = vals[0]
            else:
                r = TupleV(vals)
            return r, st2
        finally:
            self.depth -= 1
            self.callstack.pop()

    def run_region(self, act, loop, incoming, entry):
        """executes the blocks of a region (function body or loop body).
        incoming: [(pred, State)] for the entry block (for a loop body the
        header's phis are already set).  Returns exits/backs/returns."""
        blocks, loops, order, inner = loops_of(act.fn)
        inc = {entry: list(incoming)}
        exits, backs, returns = [], [], []
        region = loop.blocks if loop is not None else set(order)
        topo = self.topo(act.fn, loop)

        def deliver(frm, to, st):
            if any(z3.is_false(c) for c in st.pc):
                return
            if loop is not None and to == loop.header:
                backs.append((frm, st))
            elif to not in region:
                exits.append((frm, to, st))
            else:
                inc.setdefault(to, []).append((frm, st))
        for b in topo:
            if b not in inc:
                continue
            l = loops.get(b)
            if l is not None and l is not loop:
                r = self.exec_loop(act, l, inc[b])
                for (frm, to, st) in r['exits']:
                    deliver(frm, to, st)
                returns.extend(r['returns'])
                continue
            blk = blocks[b]
            self.exec_block(act, blk, inc[b], deliver, returns, skip_phis=(loop is not None and b == loop.header))
        return {'exits': exits, 'backs': backs, 'returns': returns}

    def topo(self, fn, loop):
        """topological order of the region's blocks with inner loops collapsed
        onto their headers"""
        cache = fn.setdefault('_topo', {})
        key = loop.header if loop is not None else None
        if key in cache:
            return cache[key]
        blocks, loops, order, inner = loops_of(fn)
        region = loop.blocks if loop is not None else set(order)

        def rep(b):
            # the outermost loop strictly inside the region containing b
            best = b
            l = inner.get(b)
            while l is not None and l is not loop:
                if l.blocks <= region and (loop is None or l.blocks < loop.blocks):
                    best = l.header
                l = l.parent
            return best
        nodes = {rep(b) for b in region if b in set(order)}
        succ = {n: set() for n in nodes}
        for b in region:
            if b not in blocks:
                continue
            for s in blocks[b]['succs']:
                if s in region and not (loop is not None and s == loop.header):
                    if rep(b) in succ and rep(s) in nodes and rep(b) != rep(s):
                        succ[rep(b)].add(rep(s))
        entry = rep(loop.header) if loop is not None else 0
        entry = loop.header if loop is not None else rep(0)
        out, state = [], {}

        def dfs(n):
            stack = [(n, iter(sorted(succ[n])))]
            state[n] = 1
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in state:
                        state[s] = 1
                        stack.append((s, iter(sorted(succ[s]))))
                        break
                else:
                    out.append(x)
                    stack.pop()
        dfs(entry)
        out.reverse()
        cache[key] = out
        return out

    def set_phis(self, act, blk, incoming):
        """returns per-incoming list of phi values"""
        phis = [i for i in blk['instrs'] if i['op'] == 'phi']
        items = []
        for frm, st in incoming:
            vals = []
            if phis:
                pi = blk['preds'].index(frm)
                for ph in phis:
                    e = ph['edges'][pi]
                    if e['k'] == 'reg' and e['n'] not in act.regs:
                        vals.append(None)
                    else:
                        vals.append(self.mat_phi(st, self.val(act, e, st)))
            items.append((st, vals))
        return phis, items

    def mat_phi(self, st, v):
        return v

    def exec_block(self, act, blk, incoming, deliver, returns, skip_phis=False):
        if skip_phis:
            assert len(incoming) == 1
            st = incoming[0][1]
        else:
            phis, items = self.set_phis(act, blk, incoming)
            if len(items) > 1:
                items = [(s.copy() if False else s, [self.mat(s, v) if (isinstance(v, (SliceV, ByteCellV)) and not self.allsame(items, j)) else v
                                                    for j, v in enumerate(vs)]) for s, vs in items]
            m = self.merge(items)
            if m is None:
                return
            st, vals = m
            if len(items) == 1:
                st = st.copy()
            for ph, v in zip(phis, vals):
                if v is not None:
                    act.regs[ph['reg']] = v
        self.cur_alloc = st.alloc
        b = blk['i']
        for ins in blk['instrs']:
            op = ins['op']
            if op == 'phi':
                continue
            if op == 'jump':
                deliver(b, blk['succs'][0], st)
                return
            if op == 'if':
                c = self.val(act, ins['x'], st)
                s1, s2 = blk['succs']
                if z3.is_true(c):
                    deliver(b, s1, st)
                elif z3.is_false(c):
                    deliver(b, s2, st)
                elif s1 == s2:
                    deliver(b, s1, st)
                else:
                    a = st.copy()
                    self.addpc(a, c)
                    self.assume_heap(a, c, True)
                    deliver(b, s1, a)
                    self.addpc(st, nt(c))
                    self.assume_heap(st, c, False)
                    deliver(b, s2, st)
                return
            if op == 'return':
                returns.append((st, [self.arg(act, a, st) for a in ins['args']]))
                return
            if op == 'panic':
                if self.nopanic and self.specmode == 0 and self.incode():
                    self.obligation('no explicit panic', 'nopanic', st, core._false, ins.get('pos', ''))
                return
            try:
                st = self.exec_instr(act, ins, st)
            except Panic:
                return
            except Unsupported as e:
                if not getattr(e, 'where', None):
                    e.where = True
                    e.args = ('%s [%s %s in %s]' % (e.args[0] if e.args else '', op, ins.get('pos', ''), ' < '.join(x.split('/')[-1] for x in reversed(self.callstack))),)
                raise
            if st is None:
                return

    def assume_heap(self, st, c, val):
        """simplify heap and cells under a branch condition just taken"""
        sub, ids = [], set()

        def collect(c, val):
            if z3.is_not(c):
                collect(c.arg(0), not val)
                return
            if c.get_id() in ids or z3.is_true(c) or z3.is_false(c):
                return
            ids.add(c.get_id())
            sub.append((c, z3.BoolVal(val)))
            if (val and z3.is_and(c)) or (not val and z3.is_or(c)):
                for x in c.children():
                    collect(x, val)
        collect(c, val)
        if not sub:
            return
        memo = {}

        def has(t):
            i = t.get_id()
            if i in ids:
                return True
            r = memo.get(i)
            if r is None:
                r = False
                for x in t.children():
                    if has(x):
                        r = True
                        break
                memo[i] = r
            return r

        def simp(t):
            return self.resimp(z3.substitute(t, *sub)) if has(t) else t
        for key, a in list(st.heap.items()):
            if is_store(a) or isite(a):
                st.heap[key] = simp(a)
        for cell, v in list(st.cells.items()):
            try:
                ts = self.flatten(v)
            except Unsupported:
                continue
            if any(has(t) for t in ts):
                st.cells[cell] = self.mapv(v, simp)

    def allsame(self, items, j):
        v0 = items[0][1][j]
        return all(vs[j] is v0 for _, vs in items)

    def addpc(self, st, c):
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.addpc(st, x)
            return
        i = c.get_id()
        n = nt(c).get_id()
        for x in st.pc:
            if x.get_id() == i:
                return
            if x.get_id() == n:
                st.pc.append(core._false)
                return
        # simplification: (a or b) with not a known
        if z3.is_or(c):
            ids = {x.get_id() for x in st.pc}
            ch = [x for x in c.children() if nt(x).get_id() not in ids]
            if any(x.get_id() in ids for x in ch):
                return
            if len(ch) < c.num_args():
                self.addpc(st, disj(ch))
                return
        st.pc.append(c)
        if not z3.is_or(c):
            # unit propagation into earlier disjunctions
            keep, more = [], []
            for x in st.pc[:-1]:
                if z3.is_or(x):
                    chs = x.children()
                    if any(y.get_id() == i for y in chs):
                        continue
                    if any(y.get_id() == n for y in chs):
                        more.append(disj([y for y in chs if y.get_id() != n]))
                        continue
                keep.append(x)
            if len(keep) < len(st.pc) - 1:
                st.pc[:] = keep + [c]
                for x in more:
                    self.addpc(st, x)

    def incode(self):
        """the innermost function on the call stack is repository code"""
        return 'zz_verif' not in (self.p.funcs[self.callstack[-1]].get('pos') or 'zz_verif')

    def need(self, st, c, what, ins, kind='nopanic'):
        """run-time check: the path continues only if c holds"""
        if z3.is_true(c):
            return
        if self.nopanic and self.specmode == 0 and self.incode():
            self.obligation('%s [%s]' % (what, self.callstack[-1].split('/')[-1]), 'nopanic', st, c,
                            ins.get('pos', '') if ins else '')
        if z3.is_false(c):
            raise Panic()
        self.addpc(st, c)
        if any(z3.is_false(x) for x in st.pc):
            raise Panic()

    def nonnil(self, st, ptr, ins):
        """nil check; returns the pointer, simplified under the check"""
        return self._nonnil(st, ptr, ins) or ptr

    def _nonnil(self, st, ptr, ins):
        if isinstance(ptr, PtrV) and not ptr.path and ptr.root != 'cell':
            b = ptr.base
            if z3.is_int_value(b):
                if b.as_long() == 0:
                    self.need(st, core._false, 'nil dereference', ins)
                return
            if BND.is_alloc(b) and BND.le(add(self.alloc0, 1), b):
                return
            while isite(b):
                c, x, y = b.arg(0), b.arg(1), b.arg(2)
                if z3.is_int_value(y) and y.as_long() == 0:
                    self.need(st, c, 'nil dereference', ins)
                    b = x
                elif z3.is_int_value(x) and x.as_long() == 0:
                    self.need(st, nt(c), 'nil dereference', ins)
                    b = y
                elif any(q.get_id() == c.get_id() for q in st.pc):
                    b = x
                elif any(q.get_id() == nt(c).get_id() for q in st.pc):
                    b = y
                else:
                    break
            if not b.eq(ptr.base):
                r = PtrV(b, ptr.root, ptr.path, ptr.t, ptr.snap)
                if not (z3.is_int_value(b) or (BND.is_alloc(b) and BND.le(add(self.alloc0, 1), b))):
                    self.need(st, nt(b == 0), 'nil dereference', ins)
                return r
            self.need(st, nt(b == 0), 'nil dereference', ins)
        elif isinstance(ptr, PtrV) and ptr.path and ptr.root != 'cell':
            pass
        elif isinstance(ptr, FuncV):
            pass

    # ------------------------------------------------------------ instructions
    def exec_instr(self, act, ins, st):
        op = ins['op']
        m = getattr(self, 'op_' + op.replace(':', '_').split('*')[0], None)
        if m is None:
            raise Unsupported('instruction ' + op)
        r = m(act, ins, st)
        if isinstance(r, State):
            return r
        return st

    def setreg(self, act, ins, v):
        if 'reg' in ins:
            act.regs[ins['reg']] = v

    def op_alloc(self, act, ins, st):
        et = self.p.under(ins['t'])['elem']
        if not hasattr(self, 'celltype'):
            self.celltype = {}
        if self.cell_ok(act.fn, ins):
            cid = (act.id, ins['reg'])
            self.celltype[cid] = et
            st.cells[cid] = self.zero(et)
            self.setreg(act, ins, CellV(cid, (), ins['t']))
            return
        r = self.newref(st)
        self.storet(st, r, et, (), et, self.zero(et))
        self.setreg(act, ins, PtrV(r, et, (), ins['t']))

    def cell_ok(self, fn, ins):
        cache = fn.setdefault('_cells', {})
        reg = ins['reg']
        if reg not in cache:
            cache[reg] = self._cell_ok(fn, reg, set())
        return cache[reg]

    def _cell_ok(self, fn, reg, seen):
        if reg in seen:
            return True
        seen.add(reg)

        def is_(v):
            return v.get('k') == 'reg' and v.get('n') == reg
        for b in fn['blocks']:
            for i in b['instrs']:
                op = i['op']
                if op == 'store':
                    if is_(i['val']):
                        return False
                    continue
                if op in ('fieldaddr', 'indexaddr'):
                    if is_(i['x']) and not self._cell_ok(fn, i['reg'], seen):
                        return False
                    continue
                if op == 'unop':
                    continue
                if op == 'slice':
                    continue
                if op == 'makeclosure':
                    for n, a in enumerate(i['args']):
                        if is_(a):
                            inner = self.p.funcs.get(i['fn']['n'])
                            if inner is None or not inner.get('blocks'):
                                return False
                            if not self._cell_ok(inner, inner['freevars'][n]['name'], set()):
                                return False
                    continue
                for key in ('x', 'y', 'val', 'key', 'm', 'addr', 'fn', 'recv'):
                    if key in i and isinstance(i[key], dict) and is_(i[key]):
                        return False
                for a in i.get('args', []) + i.get('edges', []):
                    if is_(a):
                        return False
        return True

    def op_store(self, act, ins, st):
        if ins['addr'].get('k') == 'global' and ins['addr']['n'].endswith('.init$guard'):
            return
        p = self.val(act, ins['addr'], st)
        p = self.nonnil(st, p, ins)
        self.storev(st, p, self.val(act, ins['val'], st) if isinstance(p, CellV) else self.arg(act, ins['val'], st))

    def op_unop(self, act, ins, st):
        op = ins['uop']
        x = self.val(act, ins['x'], st)
        if op == '*':
            if ins['x'].get('k') == 'global' and ins['x']['n'].endswith('.init$guard'):
                # package initialisers run once
                done = ins['x']['n'] in self.initdone
                self.initdone.add(ins['x']['n'])
                self.setreg(act, ins, z3.BoolVal(done))
                return
            if ins['x'].get('k') == 'global' and ins['x']['n'] == 'io.EOF':
                self.setreg(act, ins, IfV(z3.IntVal(self.eoftag()), z3.IntVal(1)))
                return
            x = self.nonnil(st, x, ins)
            v = self.load(st, x)
        elif op == '!':
            v = nt(x)
        elif op == '-':
            if x.sort() == FltS:
                v = self.uf('fneg', [x], FltS)
            else:
                v = z3.simplify(-x)
        elif op == '^':
            v = self.uf('bitnot', [x], IntS)
        else:
            raise Unsupported('unop ' + op)
        self.setreg(act, ins, v)

    def op_fieldaddr(self, act, ins, st):
        p = self.val(act, ins['x'], st)
        p = self.nonnil(st, p, ins)
        self.setreg(act, ins, self.fieldptr(p, ins['i'], ins['t']))

    def fieldptr(self, p, i, t):
        if isinstance(p, PtrV):
            return PtrV(p.base, p.root, p.path + (i,), t, p.snap)
        if isinstance(p, CellV):
            return CellV(p.cid, p.path + (i,), t)
        if isinstance(p, ElemV):
            return ElemV(p.val, p.vt, p.path + (i,), t, p.snap)
        raise Unsupported('fieldaddr of ' + type(p).__name__)

    def op_field(self, act, ins, st):
        v = self.val(act, ins['x'], st)
        self.setreg(act, ins, v.fs[ins['i']])

    def inrange(self, st, i, n, ins):
        if z3.is_int_value(i) and z3.is_int_value(n):
            c = z3.BoolVal(0 <= i.as_long() < n.as_long())
        else:
            c = z3.And(i >= 0, i < n)
        self.need(st, c, 'index in range', ins)

    def op_indexaddr(self, act, ins, st):
        x = self.val(act, ins['x'], st)
        i = self.val(act, ins['y'], st)
        xt = self.optype(ins['x'])
        if isinstance(x, ByteCellV):
            if x.lo is not None:
                i = add(i, x.lo)
            t = sel(self.arr(st.heap, 'cell:bytes', StrS), x.ref)
            self.inrange(st, i, x.hi if x.hi is not None else self.strlen(t), ins)
            self.setreg(act, ins, PtrV(x.ref, 'cell', (('i', i),), ('cell:bytes', StrS, None)))
            return
        if isinstance(x, SliceV):
            self.inrange(st, i, x.ln, ins)
            if x.cell is not None:
                self.setreg(act, ins, PtrV(x.cell[0], 'cell', (('i', i),), x.cell[1]))
                return
            self.setreg(act, ins, ElemV(x, x.t, (('i', i),), ins['t'], x.snap))
            return
        if isinstance(x, PtrV):
            x = self.nonnil(st, x, ins)
            at = self.p.under(self.p.under(xt)['elem'])
            self.inrange(st, i, z3.IntVal(at['len']), ins)
            self.setreg(act, ins, PtrV(x.base, x.root, x.path + (('i', i),), ins['t'], x.snap))
            return
        if isinstance(x, CellV):
            at = self.p.under(self.p.under(xt)['elem'])
            self.inrange(st, i, z3.IntVal(at['len']), ins)
            self.setreg(act, ins, CellV(x.cid, x.path + (('i', i),), ins['t']))
            return
        if isinstance(x, ElemV):
            at = self.p.under(self.p.under(xt)['elem'])
            self.inrange(st, i, z3.IntVal(at['len']), ins)
            self.setreg(act, ins, ElemV(x.val, x.vt, x.path + (('i', i),), ins['t'], x.snap))
            return
        if not isinstance(x, Val) and x.sort() == StrS:     # []byte value
            self.inrange(st, i, self.strlen(x), ins)
            self.setreg(act, ins, ElemV(x, xt, (('i', i),), ins['t']))
            return
        raise Unsupported('indexaddr of ' + type(x).__name__)

    def optype(self, v):
        return v['t']

    def op_index(self, act, ins, st):
        x = self.arg(act, ins['x'], st)
        i = self.val(act, ins['y'], st)
        t = self.optype(ins['x'])
        u = self.p.under(t)
        if self.p.is_string(t):
            self.inrange(st, i, self.strlen(x), ins)
            self.setreg(act, ins, self.byteat(x, i))
            return
        if u['k'] == 'array':
            self.inrange(st, i, z3.IntVal(u['len']), ins)
            self.setreg(act, ins, self.unterm(sel(x, i), u['elem']))
            return
        if u['k'] == 'slice':
            self.inrange(st, i, x.ln, ins)
            self.setreg(act, ins, self.unterm(sel(x.arr, i), u['elem']))
            return
        raise Unsupported('index')

    def op_lookup(self, act, ins, st):
        x = self.arg(act, ins['x'], st)
        i = self.arg(act, ins['y'], st)
        t = self.optype(ins['x'])
        if self.p.is_string(t):
            self.inrange(st, i, self.strlen(x), ins)
            self.setreg(act, ins, self.byteat(x, i))
            return
        v, ok = self.maplookup(st, x, i)
        self.setreg(act, ins, TupleV([v, ok]) if ins['commaok'] else v)

    def maplookup(self, st, m, key):
        nm, kt, et = self.mapkeys(m.t)
        kterm = self.term(key, kt)
        dom = self.mapdom(st, m)
        ok = sel(dom, kterm)
        raw = sel(self.mapval(st, m), kterm)
        v = mite(ok, raw, self.zterm(et))
        return self.unterm(v, et, m.snap), ok

    def op_mapupdate(self, act, ins, st):
        m = self.val(act, ins['m'], st)
        k = self.arg(act, ins['key'], st)
        v = self.arg(act, ins['val'], st)
        if not (BND.is_alloc(m.ref) and BND.le(add(self.alloc0, 1), m.ref)):
            self.need(st, nt(m.ref == 0), 'assignment to nil map', ins)
        self.mapstore(st, m, k, v, core._true)

    def mapstore(self, st, m, k, v, present):
        if m.snap is not None:
            raise Unsupported('store to old map')
        nm, kt, et = self.mapkeys(m.t)
        kterm = self.term(k, kt)
        ds, vs = z3.ArraySort(self.S.sort(kt), BoolS), z3.ArraySort(self.S.sort(kt), self.S.sort(et))
        da = self.arr(st.heap, 'dom:' + nm, ds)
        st.heap['dom:' + nm] = core.store(da, m.ref, core.store(sel(da, m.ref), kterm, present))
        if v is not None and not (self.p.kind(et) == 'struct' and not self.p.under(et)['fields']):
            va = self.arr(st.heap, 'val:' + nm, vs)
            st.heap['val:' + nm] = core.store(va, m.ref, core.store(sel(va, m.ref), kterm, self.term(v, et)))

    def op_makemap(self, act, ins, st):
        r = self.newref(st)
        m = MapV(r, ins['t'])
        nm, kt, et = self.mapkeys(m.t)
        ds = z3.ArraySort(self.S.sort(kt), BoolS)
        da = self.arr(st.heap, 'dom:' + nm, ds)
        st.heap['dom:' + nm] = core.store(da, r, z3.K(self.S.sort(kt), core._false))
        self.setreg(act, ins, m)

    def op_makeslice(self, act, ins, st):
        n = self.val(act, ins['len'], st)
        t = ins['t']
        u = self.p.under(t)
        if self.p.is_bytes(t):
            if z3.is_int_value(n) and n.as_long() == 0:
                self.setreg(act, ins, self.strc(''))
                return
            self.need(st, n >= 0 if not z3.is_int_value(n) else core._true, 'makeslice length', ins)
            r = self.newref(st)
            z = mkbytes(n)
            self.fact(slen(z) == n)
            st.heap['cell:bytes'] = core.store(self.arr(st.heap, 'cell:bytes', StrS), r, z)
            self.setreg(act, ins, ByteCellV(r, t))
            return
        es = self.S.sort(u['elem'])
        zarr = z3.K(IntS, self.zterm(u['elem']))
        if z3.is_int_value(n) and n.as_long() == 0:
            self.setreg(act, ins, SliceV(z3.IntVal(0), zarr, core._false, t))
            return
        if not z3.is_int_value(n):
            self.need(st, n >= 0, 'makeslice length', ins)
        r = self.newref(st)
        key = 'cell:%s' % self.p.tname(u['elem'])
        s = z3.ArraySort(IntS, es)
        st.heap[key] = core.store(self.arr(st.heap, key, s), r, zarr)
        self.setreg(act, ins, SliceV(n, zarr, core._false, t, None, (r, (key, s, u['elem']))))

    def uses(self, fn, reg):
        n = 0

        def walk(x):
            nonlocal n
            if isinstance(x, dict):
                if x.get('k') == 'reg' and x.get('n') == reg:
                    n += 1
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(fn['blocks'])
        return n

    def op_slice(self, act, ins, st):
        x = self.val(act, ins['x'], st)
        xt = self.optype(ins['x'])
        lo = self.val(act, ins['lo'], st) if 'lo' in ins else None
        hi = self.val(act, ins['hi'], st) if 'hi' in ins else None
        u = self.p.under(xt)
        if u['k'] == 'ptr':
            at = self.p.under(u['elem'])
            n = z3.IntVal(at['len'])
            if self.p.is_bytes(ins['t']):
                # make([]byte, const): the array is reachable through the slice only
                if self.uses(act.fn, ins['x'].get('n')) != 1 or lo is not None or (hi is not None and not hi.eq(n)):
                    if lo is not None or hi is not None or at['len'] > 16 or isinstance(x, ByteCellV):
                        raise Unsupported('slice of byte array')
                    # a literal or the arguments of append: the elements are set before
                    a = self.load(st, self.nonnil(st, x, ins))
                    if not z3.is_array(a):
                        raise Unsupported('slice of byte array')
                    v = self.strc('')
                    for q in range(at['len']):
                        c = z3.simplify(sel(a, z3.IntVal(q)))
                        v = self.cat(v, self.strc(chr(c.as_long())) if z3.is_int_value(c) and c.as_long() < 128 else schar(c))
                    self.setreg(act, ins, v)
                    return
                r = self.newref(st)
                z = mkbytes(n)
                self.fact(slen(z) == n)
                st.heap['cell:bytes'] = core.store(self.arr(st.heap, 'cell:bytes', StrS), r, z)
                self.setreg(act, ins, ByteCellV(r, ins['t']))
                return
            x = self.nonnil(st, x, ins)
            a = self.load(st, x)
            v = SliceV(n, a, core._false, ins['t'])
        elif isinstance(x, ByteCellV):
            if x.lo is None and lo is None:
                self.setreg(act, ins, ByteCellV(x.ref, x.t, None, hi))
                return
            v = self.mat(st, x)
        else:
            v = self.mat(st, x)
        if lo is None and hi is None:
            self.setreg(act, ins, v)
            return
        if not isinstance(v, Val):
            n = self.strlen(v)
            l, h = lo if lo is not None else z3.IntVal(0), hi if hi is not None else n
            self.need(st, conj([z3.simplify(c) for c in (l >= 0, l <= h, h <= n)]), 'slice bounds', ins)
            self.setreg(act, ins, self.substr(v, l, h))
            return
        l = lo if lo is not None else z3.IntVal(0)
        h = hi if hi is not None else v.ln
        # (capacity is not modelled: h <= len is demanded)
        self.need(st, conj([z3.simplify(c) for c in (l >= 0, l <= h, h <= v.ln)]), 'slice bounds', ins)
        if z3.is_int_value(l) and l.as_long() == 0:
            arr = v.arr
        else:
            f = z3.Function('ashift<%s>' % v.arr.sort().range(), v.arr.sort(), IntS, v.arr.sort())
            arr = f(v.arr, l)
            q = z3.Const('q!sh', IntS)
            self.fact(forall([q], z3.Select(arr, q) == z3.Select(v.arr, q + l), patterns=[z3.Select(arr, q)]))
        ln = z3.simplify(h - l)
        nil = v.nil
        self.setreg(act, ins, SliceV(ln, arr, nil if z3.is_false(nil) else conj([nil]), v.t, v.snap))

    def substr(self, s, lo, hi):
        n = self.strlen(s)
        l = self.S.lit_of(s)
        if l is not None and z3.is_int_value(lo) and z3.is_int_value(hi):
            return self.strc(l.encode('utf-8', 'surrogateescape')[lo.as_long():hi.as_long()].decode('utf-8', 'surrogateescape'))
        if z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(n):
            return s
        t = ssub(s, lo, hi)
        self.fact(z3.Implies(z3.And(lo >= 0, lo <= hi, hi <= n), slen(t) == hi - lo))
        self.fact(z3.Implies(z3.And(lo == 0, hi == n), t == s))
        return t

    def op_makeiface(self, act, ins, st):
        xt = self.optype(ins['x'])
        v = self.arg(act, ins['x'], st)
        self.setreg(act, ins, self.mkiface(v, xt))

    def mkiface(self, v, t):
        tg = self.tag(t)
        snap = getattr(v, 'snap', None)
        if isinstance(v, PtrV):
            if v.path:
                if v.root == 'cell' or any(isinstance(e, tuple) for e in v.path):
                    raise Unsupported('interior pointer boxed')
                f = z3.Function('iptr<%s%s>' % (self.p.tname(v.root), '.'.join(map(str, v.path))), IntS, IntS)
                self.iptrs[f.name()] = (v.root, v.path)
                self.fact(f(v.base) > 0)
                return IfV(tg, f(v.base), snap)
            return IfV(tg, v.base, snap)
        if isinstance(v, CellV):
            raise Unsupported('cell boxed')
        term = self.term(v, t)
        if term.sort() == IntS:
            return IfV(tg, term, snap)
        b = z3.Function('box<%s>' % term.sort(), term.sort(), IntS)
        ub = z3.Function('unbox<%s>' % term.sort(), IntS, term.sort())
        self.fact(ub(b(term)) == term)
        return IfV(tg, b(term), snap)

    def unbox(self, pay, t, snap):
        s = self.S.sort(t)
        u = self.p.under(t)
        if s == IntS:
            if self.iptrs and u['k'] == 'ptr':
                # pointer to a field of a struct: found again through the name of its box
                if z3.is_app(pay) and pay.decl().name() in self.iptrs:
                    root, path = self.iptrs[pay.decl().name()]
                    return PtrV(pay.arg(0), root, path, t, snap)
                if 'iptr<' in pay.sexpr():
                    raise Unsupported('interior pointer in a merged interface')
            return self.unterm(pay, t, snap)
        b = z3.Function('box<%s>' % s, s, IntS)
        if z3.is_app(pay) and pay.decl().eq(b):
            return self.unterm(pay.arg(0), t, snap)
        ub = z3.Function('unbox<%s>' % s, IntS, s)
        # boxes are faithful: equal payloads of one type are equal values
        self.fact(b(ub(pay)) == pay) if False else None
        return self.unterm(ub(pay), t, snap)

    def op_typeassert(self, act, ins, st):
        x = self.val(act, ins['x'], st)
        to = ins['to']
        u = self.p.under(to)
        if u['k'] == 'iface':
            ok = self.implements(x, to)
            v = x
            z = self.zero(to)
        else:
            ok = z3.simplify(x.tag == self.tag(to))
            if z3.is_eq(ok) and isite(x.tag):
                ok = self.eqtag(x.tag, self.tag(to))
            v = self.unbox(x.pay, to, x.snap)
            z = self.zero(to)
        if ins['commaok'] and (z3.is_true(ok) or z3.is_false(ok)) and isinstance(v, PtrV) and v.path:
            self.setreg(act, ins, TupleV([v if z3.is_true(ok) else z, ok]))
        elif ins['commaok']:
            self.setreg(act, ins, TupleV([self.mergeval(ok, v, self.zsnap(z, v)), ok]))
        else:
            self.need(st, ok, 'type assertion', ins)
            self.setreg(act, ins, v)

    def eqtag(self, tag, c):
        if isite(tag):
            return ite(tag.arg(0), self.eqtag(tag.arg(1), c), self.eqtag(tag.arg(2), c))
        return z3.simplify(tag == c)

    def zsnap(self, z, v):
        if hasattr(v, 'snap') and hasattr(z, 'snap'):
            z.snap = v.snap
        return z

    def implements(self, x, to):
        """dynamic type implements interface `to`"""
        u = self.p.under(to)
        ms = set(u.get('methods') or [])
        if not ms:
            return z3.simplify(x.tag != 0)
        f = z3.Function('impl<%s>' % self.p.tname(to), IntS, BoolS)
        for nm, (i, t) in list(self.typetags.items()):
            has = self.methodset(t)
            if has is not None:
                self.fact(f(z3.IntVal(i)) == z3.BoolVal(ms <= has))
        self.fact(z3.Not(f(z3.IntVal(0))))
        if z3.is_int_value(x.tag):
            for nm, (i, t) in self.typetags.items():
                if i == x.tag.as_long() and self.methodset(t) is not None:
                    return z3.BoolVal(ms <= self.methodset(t))
            if x.tag.as_long() == 0:
                return core._false
        return f(x.tag)

    def methodset(self, t):
        ty = self.p.types[t]
        ptr = False
        if ty['k'] == 'ptr':
            ptr = True
            ty = self.p.types[ty['elem']]
        if ty['k'] != 'named':
            return set()
        if 'methods' not in ty or not ty.get('pkg', '').startswith(self.p.module):
            return None
        out = set()
        for k in ty['methods']:
            if ptr or not k.startswith('*'):
                out.add(k.lstrip('*'))
        return out

    def op_changeiface(self, act, ins, st):
        self.setreg(act, ins, self.val(act, ins['x'], st))

    def op_changetype(self, act, ins, st):
        v = self.val(act, ins['x'], st)
        self.setreg(act, ins, self.retype(v, ins['t']))

    def retype(self, v, t):
        if isinstance(v, SliceV):
            return SliceV(v.ln, v.arr, v.nil, t, v.snap, v.cell)
        if isinstance(v, StructV):
            return self.restruct(v, t)
        if isinstance(v, PtrV):
            return PtrV(v.base, v.root if v.path or v.root == 'cell' else self.p.under(t)['elem'], v.path, t, v.snap)
        if isinstance(v, MapV):
            return MapV(v.ref, t, v.snap)
        if isinstance(v, FuncV):
            return FuncV(v.fn, v.binds, v.ref, t)
        if isinstance(v, ByteCellV):
            return ByteCellV(v.ref, t, v.lo, v.hi)
        return v

    def restruct(self, v, t):
        fs = self.p.under(t)['fields'] or []
        return StructV(t, [self.restruct(x, f['type']) if isinstance(x, StructV) else x for x, f in zip(v.fs, fs)])

    def op_convert(self, act, ins, st):
        v = self.arg(act, ins['x'], st)
        f, t = self.optype(ins['x']), ins['t']
        uf_, ut = self.p.under(f), self.p.under(t)
        if isinstance(v, Val):
            self.setreg(act, ins, self.retype(v, t))
            return
        fs, ts = self.S.sort(f), self.S.sort(t)
        if fs == StrS and ts == StrS:
            self.setreg(act, ins, v)
            return
        if fs == IntS and ts == IntS:
            n = ut['name']
            m = uf_['name']
            if n in ('uint8', 'byte') and m not in ('uint8', 'byte'):
                v = v % 256 if not z3.is_int_value(v) else z3.IntVal(v.as_long() % 256)
            self.setreg(act, ins, v)
            return
        if fs == IntS and ts == StrS:
            self.setreg(act, ins, self.uf('runestr', [v], StrS))
            return
        if fs == IntS and ts == FltS:
            self.setreg(act, ins, self.uf('int2flt', [v], FltS))
            return
        if fs == FltS and ts == IntS:
            self.setreg(act, ins, self.uf('flt2int_' + ut['name'], [v], IntS))
            return
        if fs == FltS and ts == FltS:
            self.setreg(act, ins, v if uf_['name'] == ut['name'] else self.uf('flt_' + ut['name'], [v], FltS))
            return
        raise Unsupported('convert %s -> %s' % (self.p.tname(f), self.p.tname(t)))

    def op_extract(self, act, ins, st):
        v = self.val(act, ins['x'], st)
        self.setreg(act, ins, v.vs[ins['i']])

    def op_makeclosure(self, act, ins, st):
        self.setreg(act, ins, FuncV(fn=ins['fn']['n'], binds=[self.val(act, a, st) for a in ins['args']], t=ins['t']))

    def op_range(self, act, ins, st):
        x = self.arg(act, ins['x'], st)
        if isinstance(x, MapV):
            dom = self.mapdom(st, x)
            ks = self.S.sort(self.mapkeys(x.t)[1])
            n = self.fresh('mapn', IntS)
            self.n += 1
            nm = 'key#%d' % self.n
            keyf = z3.Function(nm, *([IntS] * (len(self.idx) + 1) + [ks]))
            idxf = z3.Function('idx' + nm, *([IntS] * len(self.idx) + [ks, IntS]))
            ix = list(self.idx)
            i = z3.Const('i!' + nm, IntS)
            s = z3.Const('s!' + nm, ks)
            ki = keyf(*(ix + [i]))
            is_ = idxf(*(ix + [s]))
            self.fact(n >= 0)
            self.fact(n == self.card(dom))
            self.fact(forall([i], z3.Implies(z3.And(i >= 0, i < n),
                                                z3.And(sel(dom, ki), idxf(*(ix + [ki])) == i)), patterns=[ki]))
            kis = keyf(*(ix + [is_]))
            pats = [is_]
            self.fact(forall([s], z3.Implies(sel(dom, s), z3.And(is_ >= 0, is_ < n, kis == s)),
                                patterns=[z3.Select(dom, s)] if not z3.is_store(dom) and not isite(dom) and
                                not z3.is_K(dom) else [is_]))
            if z3.is_K(dom) and z3.is_false(dom.arg(0)):
                self.fact(n == 0)
            if not hasattr(self, 'ranges'):
                self.ranges = []
            self.ranges.append((dom, idxf, ix, n))
            mk = self.mapkeys(x.t)[0]
            if not any(r.eq(x.ref) for r, _ in self.rangerefs):
                self.rangerefs.append((x.ref, ('dom:' + mk, 'val:' + mk)))
            it = MapIterV(m=x, dom=dom, key=keyf, n=n, loop=None, t=x.t, isstr=False, s=None, idx=ix)
            self.setreg(act, ins, it)
            return
        self.setreg(act, ins, MapIterV(m=None, dom=None, key=None, n=None, loop=None, t=None, isstr=True, s=x,
                                       idx=list(self.idx)))

    def op_next(self, act, ins, st):
        it = self.val(act, ins['x'], st)
        if not self.idx or self.cur_loop is None:
            raise Unsupported('next outside of a loop')
        k = self.idx[-1]
        if len(it.idx) != len(self.idx) - 1:
            raise Unsupported('map iterator used in a nested loop')
        if it.isstr:
            nr = z3.Function('nrunes', StrS, IntS)
            at = z3.Function('runepos', StrS, IntS, IntS)
            rn = z3.Function('runeval', StrS, IntS, IntS)
            self.fact(nr(it.s) >= 0)
            self.fact((nr(it.s) == 0) == (self.strlen(it.s) == 0))
            self.setreg(act, ins, TupleV([k < nr(it.s), at(it.s, k), rn(it.s, k)]))
            return
        nm, kt, et = self.mapkeys(it.t)
        key = it.key(*(it.idx + [k]))
        ok = k < it.n
        v = self.unterm(sel(self.mapval(st, it.m), key), et, it.m.snap)
        now = self.mapdom(st, it.m)
        if not now.eq(it.dom) and self.specmode == 0:
            s = z3.Const('s!same', key.sort())
            self.obligation('a map keeps its keys while it is ranged over [%s]' % self.callstack[-1].split('/')[-1], 'range', st,
                            z3.Implies(ok, forall([s], sel(now, s) == sel(it.dom, s))), ins.get('pos', ''))
        self.setreg(act, ins, TupleV([ok, self.unterm(key, kt), v]))

    # ------------------------------------------------------------ operators
    def op_binop(self, act, ins, st):
        a, b = self.arg(act, ins['x'], st), self.arg(act, ins['y'], st)
        op = ins['bop']
        t = self.optype(ins['x'])
        self.setreg(act, ins, self.binop(op, a, b, t, st, ins))

    def binop(self, op, a, b, t, st, ins):
        if op == '==':
            return self.eq(a, b, ins)
        if op == '!=':
            return nt(self.eq(a, b, ins))
        s = a.sort()
        if s == BoolS:
            raise Unsupported('bool op ' + op)
        if s == StrS:
            if op == '+':
                return self.cat(a, b)
            lt = z3.Function('strlt', StrS, StrS, BoolS)
            if op in ('<', '>', '<=', '>='):
                if op in ('>', '<='):
                    a, b = b, a
                f = lt(a, b)
                self.fact(nt(z3.And(f, lt(b, a))))
                self.fact(nt(lt(a, a)))
                return f if op in ('<', '>') else nt(f)
            raise Unsupported('string op ' + op)
        if s == FltS:
            names = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}
            if op in names:
                if op in '+*' and b.get_id() < a.get_id():
                    a, b = b, a         # commutative
                return self.uf(names[op], [a, b], FltS)
            if op in ('<', '>'):
                if op == '>':
                    a, b = b, a
                return self.uf('flt', [a, b], BoolS)
            if op in ('<=', '>='):
                if op == '>=':
                    a, b = b, a
                return self.uf('fle', [a, b], BoolS)
            raise Unsupported('float op ' + op)
        if op == '+':
            return add(a, b)
        if op == '-':
            return add(a, z3.simplify(-b)) if z3.is_int_value(b) else z3.simplify(a - b)
        if op == '*':
            return z3.simplify(a * b)
        if op in ('<', '<=', '>', '>='):
            d = sub_lin(a, b)
            if d is not None:
                return z3.BoolVal({'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op])
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if op in ('/', '%'):
            self.need(st, z3.simplify(b != 0), 'division by zero', ins)
            # Go truncates; for a non-negative dividend and positive divisor
            # this is SMT-LIB div/mod
            if op == '/':
                f = z3.Function('tdiv', IntS, IntS, IntS)
                r = f(a, b)
                self.fact(z3.Implies(z3.And(a >= 0, b > 0), r == a / b))
            else:
                f = z3.Function('tmod', IntS, IntS, IntS)
                r = f(a, b)
                self.fact(z3.Implies(z3.And(a >= 0, b > 0), r == a % b))
            if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() >= 0 and b.as_long() > 0:
                return z3.IntVal(a.as_long() // b.as_long() if op == '/' else a.as_long() % b.as_long())
            return r
        names = {'&': 'bitand', '|': 'bitor', '^': 'bitxor', '<<': 'bitshl', '>>': 'bitshr', '&^': 'bitclr'}
        if op in names:
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                return z3.IntVal({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y, '&^': x & ~y}[op])
            return self.uf(names[op], [a, b], IntS)
        raise Unsupported('binop ' + op)

    def eq(self, a, b, ins=None):
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            # only legal against nil
            if z3.is_true(b.nil):
                return a.nil
            if z3.is_true(a.nil):
                return b.nil
            raise Unsupported('slice ==')
        if isinstance(a, IfV) and isinstance(b, IfV):
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y.tag) and y.tag.as_long() == 0:
                    return self.eqtag(x.tag, y.tag)
            return conj([self.eqterm(a.tag, b.tag), self.eqterm(a.pay, b.pay)])
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if not a.path and not b.path:
                return self.eqterm(a.base, b.base)
            for x, y in ((a, b), (b, a)):
                if x.path and not y.path and z3.is_int_value(y.base) and y.base.as_long() == 0:
                    return core._false
            raise Unsupported('interior pointer ==')
        if isinstance(a, CellV) or isinstance(b, CellV) or isinstance(a, ElemV) or isinstance(b, ElemV):
            for y in (a, b):
                if isinstance(y, PtrV) and z3.is_int_value(y.base):
                    return core._false
            raise Unsupported('pointer ==')
        if isinstance(a, MapV) and isinstance(b, MapV):
            return self.eqterm(a.ref, b.ref)
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            for x, y in ((a, b), (b, a)):
                if x.fn is not None and y.fn is None and z3.is_int_value(y.ref) and y.ref.as_long() == 0:
                    return core._false
            return self.eqterm(self.fref(a), self.fref(b))
        if isinstance(a, StructV):
            return conj([self.eq(x, y) for x, y in zip(a.fs, b.fs)])
        if isinstance(a, Val) or isinstance(b, Val):
            raise Unsupported('== on %s/%s' % (type(a).__name__, type(b).__name__))
        if a.sort() == StrS and ins is not None and \
                self.p.under(self.optype(ins['x']))['k'] == 'slice':
            e = self.strc('')
            x = a if b.eq(e) else b
            if x.eq(e):
                return core._true
            self.fact(z3.Implies(sisnil(x), x == e))
            return sisnil(x)
        return self.eqterm(a, b)

    def fref(self, f):
        return f.ref if f.fn is None else self.functerm(f)

    def eqterm(self, a, b):
        if a.eq(b):
            return core._true
        if a.sort() == IntS:
            d = sub_lin(a, b)
            if d is not None:
                return z3.BoolVal(d == 0)
            for x, y in ((a, b), (b, a)):
                if isite(x) and z3.is_int_value(y):
                    return ite(x.arg(0), self.eqterm(x.arg(1), y), self.eqterm(x.arg(2), y))
            if (BND.is_alloc(a) or BND.is_alloc(b)) and BND.distinct(a, b):
                return core._false
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y) and y.as_long() == 0 and BND.is_alloc(x) and BND.le(add(self.alloc0, 1), x):
                    return core._false
        if a.sort() == StrS:
            la, lb = self.S.lit_of(a), self.S.lit_of(b)
            if la is not None and lb is not None:
                return z3.BoolVal(la == lb)
            for x, y in ((a, b), (b, a)):
                if isite(x) and self.S.lit_of(y) is not None and (self.S.lit_of(x.arg(1)) is not None or
                                                                   self.S.lit_of(x.arg(2)) is not None):
                    return ite(x.arg(0), self.eqterm(x.arg(1), y), self.eqterm(x.arg(2), y))
        if a.sort() == BoolS:
            if z3.is_true(a):
                return b
            if z3.is_true(b):
                return a
            if z3.is_false(a):
                return nt(b)
            if z3.is_false(b):
                return nt(a)
        return a == b

    # ------------------------------------------------------------ calls
    def op_call(self, act, ins, st):
        r = self.do_call(act, ins, st)
        if r is None:
            raise Panic()
        v, st2 = r
        self.cur_alloc = st2.alloc
        self.setreg(act, ins, v)
        return st2

    def op_defer(self, act, ins, st):
        act.defers.append(ins)

    def op_rundefers(self, act, ins, st):
        for d in reversed(act.defers):
            if 'invoke' in d or d['fn']['k'] == 'func' and not self.p.funcs[d['fn']['n']].get('blocks'):
                self.assumed.add('defer ' + (d.get('invoke') or d['fn']['n']))
                continue
            r = self.do_call(act, d, st)
            if r is None:
                raise Panic()
            st = r[1]
        return st

    def op_go(self, act, ins, st):
        raise Unsupported('go statement')

    def do_call(self, act, ins, st):
        args = [self.val(act, a, st) for a in ins['args']]
        if 'invoke' in ins:
            recv = self.val(act, ins['recv'], st)
            return self.invoke(recv, ins['invoke'], [self.mat(st, a) for a in args], ins, st)
        f = ins['fn']
        if f['k'] == 'builtin':
            return self.builtin(f['n'], args, ins, st), st
        fv = self.val(act, f, st)
        return self.call_value(fv, args, ins, st)

    def rettype(self, ins):
        return ins.get('t')

    def call_value(self, fv, args, ins, st):
        if not isinstance(fv, FuncV):
            raise Unsupported('call of ' + type(fv).__name__)
        if fv.fn is not None:
            return self.call_static(fv.fn, list(args), fv.binds, ins, st)
        # unknown function value
        args = [self.mat(st, a) for a in args]
        ref = fv.ref
        if isite(ref):
            # case split over the candidates
            s1, s2 = st.copy(), st.copy()
            self.addpc(s1, ref.arg(0))
            self.addpc(s2, nt(ref.arg(0)))
            outs = []
            for s, r in ((s1, ref.arg(1)), (s2, ref.arg(2))):
                try:
                    if any(z3.is_false(c) for c in s.pc):
                        continue
                    o = self.call_value(self.funcval(r, fv.t), args, ins, s)
                except Panic:
                    o = None
                if o is not None:
                    outs.append((o[1], [o[0]]))
            m = self.merge(outs) if outs else None
            return None if m is None else (m[1][0], m[0])
        self.need(st, z3.simplify(nt(ref == 0)), 'call of nil function', ins)
        return self.callback(fv, args, ins, st), st

    def callback(self, fv, args, ins, st):
        """function-valued parameter: an uninterpreted pure function"""
        self.assumed.add('callback parameters are pure functions of their arguments (uninterpreted)')
        terms = [fv.ref]
        for a in args:
            terms += self.flatten(a)
        rt = self.rettype(ins)
        sig = self.p.types[ins['sig']]
        return self.ufval('callback<%s>' % self.p.tname(ins['sig']), terms, rt, sig)

    def ufval(self, name, terms, rt, sig=None):
        """value of type rt whose leaves are uninterpreted functions of terms"""
        p = self.p
        if sig is not None and not (sig['results'] or []):
            return TupleV([])
        cnt = [0]

        def mk(t):
            u = p.under(t)
            k = u['k']
            if k == 'struct':
                return StructV(t, [mk(f['type']) for f in u['fields'] or []])
            if k == 'tuple':
                return TupleV([mk(e) for e in u['elems']])

            def leaf(s):
                cnt[0] += 1
                return self.uf('%s@%d' % (name, cnt[0]), terms, s)
            if k == 'slice' and not p.is_bytes(t):
                ln, arr, nil = leaf(IntS), leaf(z3.ArraySort(IntS, self.S.sort(u['elem']))), leaf(BoolS)
                self.fact(z3.And(ln >= 0, z3.Implies(nil, ln == 0)))
                return SliceV(ln, arr, nil, t)
            if k == 'iface':
                tg, pay = leaf(IntS), leaf(IntS)
                self.fact(z3.And(tg >= 0, z3.Implies(tg == 0, pay == 0)))
                return IfV(tg, pay)
            if k == 'ptr':
                b = leaf(IntS)
                self.fact(z3.And(b >= 0, b <= self.cur_alloc))
                return PtrV(b, u['elem'], (), t)
            if k == 'map':
                b = leaf(IntS)
                self.fact(z3.And(b >= 0, b <= self.cur_alloc))
                return MapV(b, t)
            if k == 'sig':
                return FuncV(ref=leaf(IntS), t=t)
            v = leaf(self.S.sort(t))
            if k == 'basic':
                self.intfact(v, u['name'])
            return v
        return mk(rt)

    def call_static(self, name, args, binds, ins, st):
        fn = self.p.funcs.get(name)
        short = fn['short'] if fn else name
        h = self.vfuncs.get(self.origin(name))
        if h is not None:
            return h(args, ins, st)
        if self.target_hook is not None:
            r = self.target_hook(name, args, ins, st)
            if r is not None:
                return r
        if name in self.contracts and self.contracts[name].usable and name != self.harness_target:
            r = self.apply_contract(self.contracts[name], args, ins, st)
            if r is not NotImplemented:
                return r
        e = self.externs.get(name) or self.externs.get(self.origin(name))
        if e is not None:
            self.assumed.add(name)
            return e(args, ins, st)
        if fn is not None and fn.get('blocks'):
            if name.endswith('.init') or '.init#' in name:
                pass
            elif self.specmode == 0:
                self.inlined.add(name)
            return self.exec_func(name, args, binds, st, ins.get('pos', ''))
        return self.extern_default(name, [self.mat(st, a) for a in args], ins, st)

    def origin(self, name):
        fn = self.p.funcs.get(name)
        if fn and fn.get('origin'):
            name = fn['origin']
        i = name.find('[')
        if i > 0 and not name.startswith('('):
            name = name[:i]
        return name.split('.')[-1] if self.is_v(name) else name

    def is_v(self, name):
        s = name.split('.')[-1]
        return len(s) > 1 and s[0] == 'v' and s[1].isupper() and name.startswith(self.p.module)

    def invoke(self, recv, meth, args, ins, st):
        if isinstance(recv, IfV) and z3.is_int_value(recv.tag):
            n = recv.tag.as_long()
            if n == 0:
                self.need(st, core._false, 'nil interface call', ins)
            for nm, (i, t) in self.typetags.items():
                if i == n and t is None:
                    return self.extern_method(recv, self.optype(ins['recv']), meth, args, ins, st)
                if i == n:
                    return self.invoke_on(t, recv, meth, args, ins, st)
        it = self.optype(ins['recv'])
        if not (isinstance(recv.tag, z3.ExprRef) and z3.is_int_value(recv.tag)):
            self.need(st, nt(recv.tag == 0), 'nil interface call', ins)
        # dispatch over the module's implementations
        cands = self.candidates(it)
        if not cands:
            return self.extern_method(recv, it, meth, args, ins, st)
        outs = []
        rest = st.copy()
        for t in cands:
            s = st.copy()
            c = self.eqtag(recv.tag, self.tag(t))
            self.addpc(s, c)
            self.addpc(rest, nt(c))
            if any(z3.is_false(x) for x in s.pc):
                continue
            try:
                o = self.invoke_on(t, recv, meth, args, ins, s)
            except Panic:
                o = None
            if o is not None:
                outs.append((o[1], [o[0]]))
        if not any(z3.is_false(x) for x in rest.pc):
            o = self.extern_method(recv, it, meth, args, ins, rest)
            if o is not None:
                outs.append((o[1], [o[0]]))
        m = self.merge(outs) if outs else None
        return None if m is None else (m[1][0], m[0])

    def candidates(self, it):
        ty = self.p.types[it]
        if not ty.get('pkg', '').startswith(self.p.module):
            return []
        ms = set(self.p.under(it).get('methods') or [])
        out = []
        for t in self.p.types:
            if t['k'] == 'named' and t.get('pkg', '').startswith(self.p.module) and self.p.kind(t['id']) != 'iface':
                have = {k.lstrip('*') for k in t.get('methods', {})}
                if ms and ms <= have and not t['name'].startswith('v'):
                    pt = self.p.by_str.get('*' + t['str'])
                    if pt is not None:
                        out.append(pt)
        return out

    def invoke_on(self, t, recv, meth, args, ins, st):
        ty = self.p.types[t]
        nm = ty
        if ty['k'] == 'ptr':
            nm = self.p.types[ty['elem']]
        if nm['k'] == 'named' and nm.get('methods'):
            key = ('*' if ty['k'] == 'ptr' else '') + meth
            fn = nm['methods'].get(key)
            if fn:
                rv = self.unbox(recv.pay, t, recv.snap)
                return self.call_static(fn, [rv] + args, (), ins, st)
        return self.extern_method(recv, t, meth, args, ins, st)

    # ------------------------------------------------------------ builtins
    def builtin(self, n, args, ins, st):
        if n == 'len':
            x = args[0]
            if isinstance(x, SliceV):
                return x.ln
            if isinstance(x, MapV):
                return self.card(self.mapdom(st, x))
            if isinstance(x, ByteCellV):
                if x.hi is not None and x.lo is None:
                    return x.hi
                return self.strlen(self.mat(st, x))
            if not isinstance(x, Val):
                if z3.is_array(x):
                    return z3.IntVal(self.p.under(self.optype(ins['args'][0]))['len'])
                return self.strlen(x)
            if isinstance(x, (PtrV, CellV)):
                return z3.IntVal(self.p.under(self.p.under(self.optype(ins['args'][0]))['elem'])['len'])
            raise Unsupported('len')
        if n == 'cap':
            x = self.mat(st, args[0])
            c = self.fresh('cap', IntS)
            ln = x.ln if isinstance(x, SliceV) else self.strlen(x)
            self.fact(c >= ln)
            return c
        if n == 'append':
            return self.append(self.mat(st, args[0]), self.mat(st, args[1]), st)
        if n == 'delete':
            self.mapstore(st, args[0], self.mat(st, args[1]), None, core._false)
            return TupleV([])
        if n in ('print', 'println'):
            return TupleV([])
        if n == 'ssa:wrapnilchk':
            self.nonnil(st, args[0], ins)
            return args[0]
        if n == 'copy':
            return self.copy_(args, ins, st)
        if n in ('min', 'max'):
            r = args[0]
            for a in args[1:]:
                r = ite((a < r) if n == 'min' else (a > r), a, r)
            return r
        raise Unsupported('builtin ' + n)

    def copy_(self, args, ins, st):
        d, s = args[0], self.mat(st, args[1])
        if isinstance(d, ByteCellV) and d.lo is None and d.hi is None:
            key = 'cell:bytes'
            a = self.arr(st.heap, key, StrS)
            cur = sel(a, d.ref)
            nl, ol = self.strlen(s), self.strlen(cur)
            r = self.fresh('copied', StrS)
            n = ite(nl < ol, nl, ol)
            self.fact(slen(r) == ol)
            self.fact(z3.Implies(nl == ol, r == s))
            st.heap[key] = core.store(a, d.ref, r)
            return n
        if isinstance(d, SliceV) and d.cell is not None and isinstance(s, SliceV):
            key, es, et = d.cell[1]
            a = self.arr(st.heap, key, es)
            cur = sel(a, d.cell[0])
            n = ite(s.ln < d.ln, s.ln, d.ln)
            r = self.fresh('copied', es)
            q = z3.Const('q!cp', IntS)
            self.fact(forall([q], z3.Select(r, q) == z3.If(z3.And(q >= 0, q < n), z3.Select(s.arr, q), z3.Select(cur, q)),
                                patterns=[z3.Select(r, q)]))
            st.heap[key] = core.store(a, d.cell[0], r)
            return n
        raise Unsupported('copy')

    def append(self, x, y, st):
        if not isinstance(x, Val):          # []byte
            return self.cat(x, y)
        t = x.t
        if not isinstance(y, Val):
            raise Unsupported('append string to slice')
        if z3.is_int_value(y.ln) and y.ln.as_long() <= 16:
            n = y.ln.as_long()
            if n == 0:
                return x
            arr, ln = x.arr, x.ln
            for i in range(n):
                arr = core.store(arr, add(ln, i), sel(y.arr, z3.IntVal(i)))
            return SliceV(add(ln, n), arr, core._false, t)
        if z3.is_int_value(x.ln) and x.ln.as_long() == 0:
            return SliceV(y.ln, y.arr, conj([x.nil, y.ln == 0]), t)
        f = z3.Function('acat<%s>' % x.arr.sort().range(), x.arr.sort(), IntS, y.arr.sort(), IntS, x.arr.sort())
        arr = f(x.arr, x.ln, y.arr, y.ln)
        q = z3.Const('q!cat', IntS)
        ln = z3.simplify(x.ln + y.ln)
        self.fact(forall([q], z3.And(
            z3.Implies(q < x.ln, z3.Select(arr, q) == sel(x.arr, q)),
            z3.Implies(z3.And(q >= x.ln, q < ln), z3.Select(arr, q) == sel(y.arr, q - x.ln))),
            patterns=[z3.Select(arr, q)]))
        if not z3.is_store(y.arr) and not isite(y.arr) and not z3.is_K(y.arr):
            self.fact(forall([q], z3.Implies(z3.And(q >= 0, q < y.ln), z3.Select(arr, q + x.ln) == z3.Select(y.arr, q)),
                                patterns=[z3.Select(y.arr, q)]))
        # existing elements remain visible through the old array's terms
        if not z3.is_store(x.arr) and not isite(x.arr) and not z3.is_K(x.arr):
            self.fact(forall([q], z3.Implies(z3.And(q >= 0, q < x.ln), z3.Select(arr, q) == z3.Select(x.arr, q)),
                                patterns=[z3.Select(x.arr, q)]))
        return SliceV(ln, arr, conj([x.nil, y.ln == 0]), t)
