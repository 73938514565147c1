"""Models of functions outside the module (the trusted base) and the symbolic
meaning of the specification runtime (v* functions)."""
import re
import z3
import core
from core import *
from step import Panic
from loops import Exec3, contains, subterms
from sym import *

PURE = {
    'strings.Contains', 'strings.EqualFold', 'strings.HasPrefix', 'strings.HasSuffix', 'strings.Join',
    'strings.Replace', 'strings.ReplaceAll', 'strings.Split', 'strings.SplitN', 'strings.ToLower', 'strings.ToUpper',
    'strings.TrimPrefix', 'strings.TrimSpace', 'strings.TrimSuffix', 'strings.Trim', 'strings.TrimLeft',
    'strings.TrimRight', 'strings.Index', 'strings.Fields', 'strings.Repeat', 'strings.IndexByte', 'strings.LastIndex',
    'strings.ContainsAny', 'strings.ContainsRune', 'strings.Count', 'strings.Title', 'strings.IndexAny',
    'strconv.FormatBool', 'strconv.FormatFloat', 'strconv.FormatInt', 'strconv.Itoa', 'strconv.Atoi',
    'strconv.ParseInt', 'strconv.ParseBool', 'strconv.ParseFloat', 'strconv.Quote', 'strconv.ParseUint',
    'bytes.Contains', 'bytes.HasPrefix', 'bytes.TrimSpace',
    'path.Join', 'path.Match', 'path/filepath.Join', 'path.Base', 'path.Clean', 'path/filepath.Base',
    'path/filepath.Match', 'path.Dir', 'path.IsAbs',
    '(*encoding/base64.Encoding).EncodeToString', '(*encoding/base64.Encoding).DecodeString',
    'encoding/hex.DecodeString', 'encoding/hex.EncodeToString',
    'crypto/sha256.Sum256',
    'github.com/bmatcuk/doublestar.Match', 'github.com/docker/distribution/reference.Domain',
    'github.com/docker/distribution/reference.FamiliarName',
    'github.com/docker/distribution/reference.ParseAnyReference',
    'github.com/docker/distribution/reference.ParseNamed',
    'github.com/docker/distribution/reference.ParseNormalizedNamed',
    'github.com/docker/distribution/reference.TagNameOnly', 'github.com/docker/distribution/reference.TrimNamed',
    'github.com/docker/distribution/reference.FamiliarString',
    'github.com/docker/distribution/reference.IsNameOnly',
    'github.com/docker/go-units.BytesSize', 'github.com/docker/go-units.RAMInBytes',
    '(*strings.Replacer).Replace', '(*net/url.URL).Hostname', '(*net/url.URL).String', 'net/url.Parse',
    '(*net/url.Userinfo).Username', '(*net/url.Userinfo).Password', 'os.Getenv', '(*os.File).Name',
    'fmt.Sprint', 'fmt.Sprintln', 'github.com/ghodss/yaml.YAMLToJSON', '(*regexp.Regexp).FindAll',
    '(*regexp.Regexp).MatchString', '(*regexp.Regexp).Match',
    'unicode.IsSpace', 'unicode.IsLetter', 'unicode.IsDigit', 'unicode.IsUpper', 'unicode.ToLower', 'unicode.ToUpper',
    'unicode/utf8.RuneCountInString', 'unicode/utf8.ValidString',
}
NOEFFECT = {'(*os.File).Close', 'log.Println', 'fmt.Println', 'fmt.Printf', 'log.Printf', 'fmt.Print'}


from loops import subterms as core_subterms


def hasquant(f):
    stack, seen = [f], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack += x.children()
    return False


class Contract:
    usable = True
    functional = False      # the result is a function of the arguments
    nopanic = False

    def __init__(self, target, fn):
        self.target, self.fn = target, fn


class Exec4(Exec3):
    cur_alloc = None

    def __init__(self, prog, options=None):
        super().__init__(prog, options)
        self.cur_alloc = self.alloc0
        self.celltype = {}
        self.hashids = {}
        self.vfuncs = {}
        self.externs = {}
        for n in dir(self):
            if n.startswith('vf_'):
                self.vfuncs[n[3:]] = getattr(self, n)
        for n in PURE:
            self.externs[n] = self.mkpure(n)
        for n in ('github.com/docker/distribution/reference.ParseAnyReference', 'github.com/docker/distribution/reference.ParseNamed',
                  'net/url.Parse'):
            self.externs[n] = self.mkok(n)
        for n in ('github.com/docker/distribution/reference.TrimNamed', 'github.com/docker/distribution/reference.TagNameOnly'):
            self.externs[n] = self.mknonnil(n)
        for n in NOEFFECT:
            self.externs[n] = lambda a, i, s: (TupleV([]) if self.p.kind(i['t']) == 'tuple' and
                                               not self.p.under(i['t'])['elems'] else self.freshval('ne', i['t']), s)
        E = self.externs
        E['errors.New'] = self.x_errors_new
        E['bytes.Equal'] = E['crypto/hmac.Equal'] = lambda a, i, s: (self.mat(s, a[0]) == self.mat(s, a[1]), s)
        E['crypto/subtle.ConstantTimeCompare'] = lambda a, i, s: (ite(self.mat(s, a[0]) == self.mat(s, a[1]), z3.IntVal(1), z3.IntVal(0)), s)
        E['fmt.Errorf'] = self.x_errorf
        E['fmt.Sprintf'] = self.x_sprintf
        E['fmt.Fprintf'] = self.x_fprintf
        for m in ('Write', 'WriteString', 'WriteByte', 'WriteRune', 'Bytes', 'String', 'Len', 'Reset'):
            E['(*bytes.Buffer).' + m] = self.mkbuf(m)
            E['(*strings.Builder).' + m] = self.mkbuf(m)
        E['bytes.NewBuffer'] = self.x_newbuffer
        E['bytes.NewBufferString'] = self.x_newbuffer
        E['bytes.NewReader'] = self.x_newreader
        E['strings.NewReader'] = self.x_newreader
        E['io/ioutil.ReadAll'] = self.x_readall
        E['io.ReadAll'] = self.x_readall
        E['io.Copy'] = self.x_copy
        E['os.Open'] = self.x_osopen
        E['os.ReadFile'] = self.x_readfile
        E['io/ioutil.ReadFile'] = self.x_readfile
        E['bufio.NewScanner'] = self.x_newscanner
        E['(*bufio.Scanner).Scan'] = self.x_scan
        E['(*bufio.Scanner).Text'] = self.x_text
        E['(*bufio.Scanner).Err'] = self.x_scanerr
        E['(*bufio.Scanner).Buffer'] = self.x_scanbuf
        E['crypto/hmac.New'] = self.x_hmac
        E['crypto/rand.Read'] = self.x_randread
        E['sort.Strings'] = self.x_sort
        for y in ('github.com/buildkite/yaml', 'github.com/vinzenz/yaml', 'encoding/json', 'gopkg.in/yaml.v2',
                  'github.com/ghodss/yaml'):
            E[y + '.Unmarshal'] = self.mkunmarshal(y)
            E[y + '.Marshal'] = self.mkmarshal(y)

    # ------------------------------------------------------------ helpers
    def flatargs(self, args, st):
        out = []
        for a in args:
            a = self.mat(st, a)
            if isinstance(a, FuncV) and a.fn is not None:
                out.append(self.uf('fn:' + a.fn, [], IntS))
                continue
            if isinstance(a, CellV):
                a = self.mat(st, self.load(st, a))
                out += self.flatargs([a], st)
                continue
            out += self.flatten(a)
        return out

    def mkpure(self, name):
        def f(args, ins, st):
            return self.pure(name, args, ins, st), st
        return f

    def mkok(self, name):
        """pure (value, error): the value is not nil when there is no error"""
        def f(args, ins, st):
            r = self.pure(name, args, ins, st)
            v, e = r.vs
            self.fact(z3.Implies(e.tag == 0, (v.tag if isinstance(v, IfV) else v.base) != 0))
            return r, st
        return f

    def mknonnil(self, name):
        def f(args, ins, st):
            r = self.pure(name, args, ins, st)
            self.fact(r.tag != 0)
            return r, st
        return f

    def pure(self, name, args, ins, st):
        args = [self.mat(st, a) for a in args]
        m = getattr(self, 'simp_' + name.replace('.', '_').replace('/', '_'), None)
        if m is not None:
            r = m(args, ins, st)
            if r is not None:
                return r
        if name in ('path.Join', 'path/filepath.Join', 'fmt.Sprint'):
            a = self.staticargs(args[0])
            if a is not None:
                return self.ufval('%s/%d' % (name, len(a)), [x for v in a for x in self.flatten(v)], ins['t'])
        terms = self.flatargs(args, st)
        return self.ufval(name, terms, ins['t'])

    def simp_strconv_FormatBool(self, args, ins, st):
        return ite(args[0], self.strc('true'), self.strc('false'))

    def simp_strings_Replace(self, args, ins, st):
        if z3.is_int_value(args[3]) and args[3].as_long() < 0:
            return self.pure('strings.ReplaceAll', args[:3], ins, st)

    def staticargs(self, sl):
        if isinstance(sl, SliceV) and z3.is_int_value(sl.ln) and sl.ln.as_long() <= 16:
            et = self.p.under(sl.t)['elem']
            return [self.unterm(sel(sl.arr, z3.IntVal(i)), et) for i in range(sl.ln.as_long())]
        return None

    def newerr(self, kind, st, msg=None):
        st = st.copy()
        r = self.newref(st)
        k = '*' + kind
        if k not in self.typetags:
            self.typetags[k] = (len(self.typetags) + 1, None)
        if msg is not None:
            st.heap['errmsg'] = core.store(self.arr(st.heap, 'errmsg', StrS), r, msg)
        return IfV(z3.IntVal(self.typetags[k][0]), r), st

    def x_errors_new(self, args, ins, st):
        return self.newerr('errors.errorString', st, args[0])

    def sprintf(self, args, ins, st):
        a = self.staticargs(self.mat(st, args[1]))
        if a is None:
            terms = self.flatargs(args, st)
            return self.uf('sprintf*', terms, StrS)
        fm = self.S.lit_of(args[0])
        terms = []
        for v in a:
            terms += [v.tag, v.pay]
        if fm is None:
            return self.uf('sprintf/%d' % len(a), [args[0]] + terms, StrS)
        # split the format on simple %s verbs with string arguments
        out = self.fmtsplit(fm, a)
        if out is not None:
            return out
        return self.uf('sprintf:%s/%d' % (fm, len(a)), terms, StrS)

    def fmtsplit(self, fm, a):
        import re
        parts = re.split(r'(%[a-zA-Z%])', fm)
        n, res = 0, self.strc('')
        strt = self.p.by_str.get('string')
        for q in parts:
            if q == '%%':
                res = self.cat(res, self.strc('%'))
            elif q.startswith('%') and len(q) == 2:
                if n >= len(a):
                    return None
                v = a[n]
                n += 1
                if q not in ('%s', '%v') or not z3.is_int_value(v.tag) or strt is None or \
                        v.tag.as_long() != self.tag(strt).as_long():
                    # opaque piece: a function of the verb and the argument
                    piece = self.fmtstd(q, v)
                    if piece is None:
                        piece = self.uf('fmtverb:%s' % q, [v.tag, v.pay], StrS)
                else:
                    piece = self.unbox(v.pay, strt, None)
                res = self.cat(res, piece)
            elif '%' in q:
                return None
            else:
                res = self.cat(res, self.strc(q))
        return res if n == len(a) else None

    def fmtstd(self, q, v):
        """verbs with the meaning of a function of strconv"""
        strt = self.p.by_str.get('string')
        if not z3.is_int_value(v.tag) or strt is None:
            return None
        for ty, verbs, fn in (('string', ('%q',), 'strconv.Quote'), ('int', ('%d', '%v'), 'strconv.Itoa'),
                              ('bool', ('%t', '%v'), 'strconv.FormatBool')):
            t = self.p.by_str.get(ty)
            if t is not None and q in verbs and v.tag.as_long() == self.tag(t).as_long():
                x = self.unbox(v.pay, t, None)
                return self.simp_strconv_FormatBool([x], None, None) if ty == 'bool' else self.ufval(fn, [x], strt)
        return None

    def x_sprintf(self, args, ins, st):
        return self.sprintf(args, ins, st), st

    def x_errorf(self, args, ins, st):
        return self.newerr('fmt.wrapError', st, self.sprintf(args, ins, st))

    def x_fprintf(self, args, ins, st):
        s = self.sprintf(args[1:], ins, st)
        w = args[0]
        return self.write_to(w, s, ins, st)

    # ---- buffers: content lives in field 0 of the struct
    def bufptr(self, p):
        return self.fieldptr(p, 0, None)

    def bufget(self, st, p):
        return self.load(st, self.bufptr(p))

    def bufset(self, st, p, v):
        self.storev(st, self.bufptr(p), v)

    def mkbuf(self, m):
        def f(args, ins, st):
            p = args[0]
            self.nonnil(st, p, ins)
            if m in ('Bytes', 'String'):
                return self.bufget(st, p), st
            if m == 'Len':
                return self.strlen(self.bufget(st, p)), st
            if m == 'Reset':
                self.bufset(st, p, self.strc(''))
                return TupleV([]), st
            x = self.mat(st, args[1])
            if m == 'WriteByte':
                x = self.bytestr(x)
            elif m == 'WriteRune':
                x = self.uf('runestr', [x], StrS)
            self.bufset(st, p, self.cat(self.bufget(st, p), x))
            nil = IfV(z3.IntVal(0), z3.IntVal(0))
            if m == 'WriteByte':
                return nil, st
            return TupleV([self.strlen(x), nil]), st
        return f

    def bytestr(self, b):
        if z3.is_int_value(b):
            return self.strc(bytes([b.as_long()]).decode('utf-8', 'surrogateescape'))
        return schar(b)

    def x_newbuffer(self, args, ins, st):
        st = st.copy()
        r = self.newref(st)
        et = self.p.under(ins['t'])['elem']
        self.storet(st, r, et, (), et, self.zero(et))
        p = PtrV(r, et, (), ins['t'])
        self.bufset(st, p, self.mat(st, args[0]))
        return p, st

    # ---- readers: content is a function of the reader object
    def readerkey(self):
        return 'reader.content', StrS

    def x_newreader(self, args, ins, st):
        st = st.copy()
        r = self.newref(st)
        a = self.arr(st.heap, 'reader.content', StrS)
        st.heap['reader.content'] = core.store(a, r, self.mat(st, args[0]))
        return PtrV(r, self.p.under(ins['t'])['elem'], (), ins['t']), st

    def rcontent(self, rd, st):
        """remaining content of an io.Reader interface value"""
        for nm in ('*bytes.Buffer', '*strings.Builder'):
            if nm in self.typetags and z3.is_int_value(rd.tag) and rd.tag.as_long() == self.typetags[nm][0]:
                t = self.typetags[nm][1]
                return self.bufget(st, self.unbox(rd.pay, t, None))
        a = self.arr(st.heap, 'reader.content', StrS)
        return sel(a, rd.pay)

    def memreader(self, rd):
        """a reader that cannot fail"""
        return any(nm in self.typetags and z3.is_int_value(rd.tag) and rd.tag.as_long() == self.typetags[nm][0]
                   for nm in ('*bytes.Buffer', '*bytes.Reader', '*strings.Reader'))

    def readererr(self, rd):
        if self.memreader(rd):
            return z3.IntVal(0)
        e = z3.Function('readererr', IntS, IntS, IntS)(rd.tag, rd.pay)
        self.fact(z3.And(e >= 0, e != self.eoftag()))
        return e

    def x_readall(self, args, ins, st):
        rd = args[0]
        c = self.rcontent(rd, st)
        f = z3.Function('readfails', IntS, IntS, BoolS)
        fail = core._false if self.memreader(rd) else f(rd.tag, rd.pay)
        err = IfV(ite(fail, z3.IntVal(99999), z3.IntVal(0)), z3.IntVal(0))
        part = self.uf('partread', [rd.tag, rd.pay], StrS)
        return TupleV([ite(fail, part, c), err]), st

    def x_osopen(self, args, ins, st):
        r = self.ufval('os.Open', self.flatargs(args, st), ins['t'])
        f, e = r.vs
        self.fact(z3.Implies(e.tag == 0, f.base != 0))
        return r, st

    def x_readfile(self, args, ins, st):
        return self.ufval('ReadFile', self.flatargs(args, st), ins['t']), st

    def write_to(self, w, s, ins, st):
        for nm in ('*bytes.Buffer', '*strings.Builder'):
            if nm in self.typetags and isinstance(w, IfV) and z3.is_int_value(w.tag) and \
                    w.tag.as_long() == self.typetags[nm][0]:
                p = self.unbox(w.pay, self.typetags[nm][1], None)
                st = st.copy()
                self.bufset(st, p, self.cat(self.bufget(st, p), s))
                return TupleV([self.strlen(s), IfV(z3.IntVal(0), z3.IntVal(0))]), st
        # an unknown writer: appends to its (ghost) written content, may fail
        st = st.copy()
        a = self.arr(st.heap, 'writer.content', StrS)
        st.heap['writer.content'] = core.store(a, w.pay, self.cat(sel(a, w.pay), s))
        err = self.freshval('werr', ins['t']).vs[1]
        n = self.fresh('wn', IntS)
        return TupleV([n, err]), st

    def x_copy(self, args, ins, st):
        w, rd = args
        return self.write_to(w, self.rcontent(rd, st), ins, st)

    # ---- bufio.Scanner (line mode): lines are a function of the content
    def x_newscanner(self, args, ins, st):
        st = st.copy()
        rd = args[0]
        r = self.newref(st)
        c = self.rcontent(rd, st)
        a = self.arr(st.heap, 'scan.src', StrS)
        st.heap['scan.src'] = core.store(a, r, c)
        a = self.arr(st.heap, 'scan.pos', IntS)
        st.heap['scan.pos'] = core.store(a, r, z3.IntVal(0))
        a = self.arr(st.heap, 'scan.rd', IntS)
        st.heap['scan.rd'] = core.store(a, r, rd.pay)
        a = self.arr(st.heap, 'scan.max', IntS)
        st.heap['scan.max'] = core.store(a, r, z3.IntVal(64 * 1024))
        # an error of the reader itself
        a = self.arr(st.heap, 'scan.rerr', IntS)
        st.heap['scan.rerr'] = core.store(a, r, self.readererr(rd))
        return PtrV(r, self.p.under(ins['t'])['elem'], (), ins['t']), st

    def scanl(self, p, st):
        src = sel(self.arr(st.heap, 'scan.src', StrS), p.base)
        mx = sel(self.arr(st.heap, 'scan.max', IntS), p.base)
        nl = z3.Function('scanlines', StrS, IntS, IntS)
        ln = z3.Function('scanline', StrS, IntS, StrS)
        er = z3.Function('scanerr', StrS, IntS, IntS)(src, mx)
        self.fact(nl(src, mx) >= 0)
        self.fact(er >= 0)
        re = sel(self.arr(st.heap, 'scan.rerr', IntS), p.base)
        return src, nl(src, mx), ln, er if z3.is_int_value(re) and re.as_long() == 0 else ite(er != 0, er, re)

    def x_scan(self, args, ins, st):
        p = args[0]
        src, n, ln, er = self.scanl(p, st)
        st = st.copy()
        a = self.arr(st.heap, 'scan.pos', IntS)
        pos = sel(a, p.base)
        st.heap['scan.pos'] = core.store(a, p.base, add(pos, 1))
        return pos < n, st

    def x_text(self, args, ins, st):
        p = args[0]
        src, n, ln, er = self.scanl(p, st)
        pos = sel(self.arr(st.heap, 'scan.pos', IntS), p.base)
        return ln(src, add(pos, -1)), st

    def x_scanerr(self, args, ins, st):
        src, n, ln, er = self.scanl(args[0], st)
        # before the end of the input: unknown, but never io.EOF
        pos = sel(self.arr(st.heap, 'scan.pos', IntS), args[0].base)
        mid = z3.Function('scanerrmid', StrS, IntS, IntS)(src, pos)
        self.fact(z3.And(er != self.eoftag(), mid != self.eoftag(), mid >= 0))
        return IfV(ite(pos > n, er, mid), z3.IntVal(0)), st

    def x_scanbuf(self, args, ins, st):
        st = st.copy()
        a = self.arr(st.heap, 'scan.max', IntS)
        st.heap['scan.max'] = core.store(a, args[0].base, args[2])
        return TupleV([]), st

    # ---- hmac
    def x_hmac(self, args, ins, st):
        st = st.copy()
        r = self.newref(st)
        st.heap['hmac.key'] = core.store(self.arr(st.heap, 'hmac.key', StrS), r, self.mat(st, args[1]))
        st.heap['hmac.data'] = core.store(self.arr(st.heap, 'hmac.data', StrS), r, self.strc(''))
        if '*hmac' not in self.typetags:
            self.typetags['*hmac'] = (len(self.typetags) + 1, None)
        h = args[0]
        nm = h.fn if isinstance(h, FuncV) and h.fn is not None and not h.binds else None
        if nm is None:
            raise Unsupported('hmac with an unknown hash')
        st.heap['hmac.hash'] = core.store(self.arr(st.heap, 'hmac.hash', IntS), r, z3.IntVal(self.hashid(nm)))
        return IfV(z3.IntVal(self.typetags['*hmac'][0]), r), st

    def hashid(self, nm):
        return self.hashids.setdefault(nm, len(self.hashids) + 1)

    def x_randread(self, args, ins, st):
        d = args[0]
        st = st.copy()
        if isinstance(d, ByteCellV):
            a = self.arr(st.heap, 'cell:bytes', StrS)
            old = sel(a, d.ref)
            r = self.fresh('random', StrS)
            self.fact(slen(r) == self.strlen(old))
            st.heap['cell:bytes'] = core.store(a, d.ref, r)
        else:
            raise Unsupported('rand.Read into a shared slice')
        # it never returns an error and fills its argument (documented since go 1.24)
        v = self.freshval('randres', ins['t'])
        return TupleV([v.vs[0], IfV(z3.IntVal(0), z3.IntVal(0))]), st

    # ---- sort.Strings: the elements become a sorted permutation
    def x_sort(self, args, ins, st):
        x = args[0]
        if isinstance(x, SliceV) and x.cell is None and x.snap is None:
            new, f = self.sorted_arr(x)
            x.arr = new
            return TupleV([]), st
        raise Unsupported('sort.Strings of a shared slice')

    def sorted_arr(self, x):
        A, n = x.arr, x.ln
        f = z3.Function('sorted', A.sort(), IntS, A.sort())
        pm = z3.Function('sortperm', A.sort(), IntS, IntS, IntS)
        iv = z3.Function('sortinv', A.sort(), IntS, IntS, IntS)
        B = f(A, n)
        q, q2 = z3.Const('q!so', IntS), z3.Const('q!so2', IntS)
        p = pm(A, n, q)
        self.fact(forall([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(
            p >= 0, p < n, z3.Select(B, q) == sel(A, p), iv(A, n, p) == q)), patterns=[z3.Select(B, q)]))
        v = iv(A, n, q)
        body = z3.Implies(z3.And(q >= 0, q < n), z3.And(v >= 0, v < n, pm(A, n, v) == q, z3.Select(B, v) == sel(A, q)))
        pats = [v]
        if not is_store(A) and not isite(A) and not z3.is_K(A):
            pats.append(z3.Select(A, q))
        self.fact(forall([q], body, patterns=pats))
        lt = z3.Function('strlt', StrS, StrS, BoolS)
        self.fact(forall([q, q2], z3.Implies(z3.And(0 <= q, q < q2, q2 < n), z3.Not(lt(z3.Select(B, q2), z3.Select(B, q)))),
                            patterns=[MP(z3.Select(B, q), z3.Select(B, q2))]))
        return B, f

    # ---- (un)marshalling: deterministic, otherwise arbitrary
    def mkunmarshal(self, lib):
        def f(args, ins, st):
            data = self.mat(st, args[0])
            return self.decode_into('unmarshal:' + lib, [data], args[1], ins, st)
        return f

    def decode_into(self, name, terms, tgt, ins, st):
        if not isinstance(tgt, IfV):
            raise Unsupported('decode target')
        if isite(tgt.tag) or not z3.is_int_value(tgt.tag):
            # several possible dynamic types: unknown effect on that object
            tys = self.tagchoices(tgt.tag)
            if tys is None:
                raise Unsupported('decode into an unknown type')
            outs = []
            for (tg, cond) in tys:
                s = st.copy()
                self.addpc(s, cond)
                if any(z3.is_false(c) for c in s.pc):
                    continue
                v, s = self.decode_into(name, terms, IfV(tg, self.underite(tgt.pay, tgt.tag, tg)), ins, s)
                outs.append((s, [v]))
            m = self.merge(outs)
            return m[1][0], m[0]
        pt = None
        for nm, (i, t) in self.typetags.items():
            if i == tgt.tag.as_long():
                pt = t
        if pt is None or self.p.kind(pt) != 'ptr':
            raise Unsupported('decode into a non-pointer')
        p = self.unbox(tgt.pay, pt, None)
        et = self.p.under(pt)['elem']
        tn = self.p.tname(et)
        old, zeros = self.flatten_old(st, p, et, name)

        def val(nm, t):
            v = self.ufval(nm, terms + old, t)
            if zeros is not None:
                # decoding into a zero value depends on the data only
                w = self.ufval(nm, terms, t)
                try:
                    eqs = [x == y for x, y in zip(self.flatten(v), self.flatten(w))]
                except Unsupported:
                    return v
                self.fact(z3.Implies(conj([x == z for x, z in zip(old, zeros)]), conj(eqs)))
            return v
        save = self.cur_alloc
        self.cur_alloc = self.alloc0
        e = val('%s<%s>err' % (name, tn), ins['t'])
        u = self.p.under(et)
        skip = [self.nodecode(f, name) for f in u['fields'] or []] if u['k'] == 'struct' else []
        if any(skip):
            # fields the decoder does not touch keep their value
            for i, f in enumerate(u['fields']):
                if not skip[i]:
                    self.storev(st, self.fieldptr(p, i, None), val('%s<%s.%s>val' % (name, tn, f['name']), f['type']))
        else:
            self.storev(st, p, val('%s<%s>val' % (name, tn), et))
        self.cur_alloc = save
        return e, st

    def nodecode(self, f, name):
        import re
        m = re.search(r'(?:^| )%s:"([^"]*)"' % ('json' if 'json' in name else 'yaml'), f.get('tag') or '')
        return m is not None and m.group(1) == '-' or f['name'][:1].islower() or f['name'][:1] == '_'

    def flatten_old(self, st, p, et, name):
        """decoding starts from the value already there"""
        u = self.p.under(et)
        skip = [self.nodecode(f, name) for f in u['fields'] or []] if u['k'] == 'struct' else []
        try:
            v = self.load(st, p)
            if any(skip):
                z0 = self.zero(et)
                fl = [y for i, x in enumerate(v.fs) if not skip[i] for y in self.flatten(self.mat(st, x))]
                z = [y for i, x in enumerate(z0.fs) if not skip[i] for y in self.flatten(x)]
            else:
                fl = self.flatten(self.mat(st, v))
                z = self.flatten(self.zero(et))
        except Unsupported:
            return [self.fresh('old', IntS)], None
        fl = [self.underpc(st.pc, x) for x in fl]
        if len(z) == len(fl) and all(a.eq(b) for a, b in zip(z, fl)):
            return [], None
        return fl, z if len(z) == len(fl) and all(a.sort().eq(b.sort()) for a, b in zip(z, fl)) else None

    def underpc(self, pc, t):
        """t on the path with these conditions: conditional terms are resolved"""
        known = {}

        def note(c, v):
            if z3.is_not(c):
                note(c.arg(0), not v)
            elif z3.is_and(c) and v or z3.is_or(c) and not v:
                for x in c.children():
                    note(x, v)
            known[c.get_id()] = v

        def val(c):
            v = known.get(c.get_id())
            if v is not None:
                return v
            if z3.is_not(c):
                v = val(c.arg(0))
                return None if v is None else not v
            if z3.is_and(c) or z3.is_or(c):
                vs = [val(x) for x in c.children()]
                d = z3.is_or(c)
                return d if d in vs else (None if None in vs else not d)
            return None
        for c in pc:
            note(c, True)

        def res(t):
            while isite(t):
                v = val(t.arg(0))
                if v is None:
                    return t
                t = t.arg(1) if v else t.arg(2)
            if t.sort() == z3.BoolSort():
                v = val(t)
                if v is not None:
                    return z3.BoolVal(v)
                if z3.is_or(t):
                    return disj([res(c) for c in t.children()])
                if z3.is_and(t):
                    return conj([res(c) for c in t.children()])
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and t.num_args():
                return t.decl()(*[res(c) for c in t.children()])
            return t
        return res(t)

    def tagchoices(self, tag):
        if z3.is_int_value(tag):
            return [(tag, core._true)]
        if isite(tag):
            a, b = self.tagchoices(tag.arg(1)), self.tagchoices(tag.arg(2))
            if a is None or b is None:
                return None
            return [(t, conj([tag.arg(0), c])) for t, c in a] + [(t, conj([nt(tag.arg(0)), c])) for t, c in b]
        return None

    def underite(self, pay, tag, tg):
        while isite(pay) and isite(tag) and pay.arg(0).eq(tag.arg(0)):
            if contains(tag.arg(1), lambda x: x.eq(tg)) and not contains(tag.arg(2), lambda x: x.eq(tg)):
                pay, tag = pay.arg(1), tag.arg(1)
            elif contains(tag.arg(2), lambda x: x.eq(tg)) and not contains(tag.arg(1), lambda x: x.eq(tg)):
                pay, tag = pay.arg(2), tag.arg(2)
            else:
                break
        return pay

    def mkmarshal(self, lib):
        def f(args, ins, st):
            x = args[0]
            return self.ufval('marshal:' + lib, self.marshalkey(x, st), ins['t']), st
        return f

    def marshalkey(self, x, st):
        if isinstance(x, IfV) and z3.is_int_value(x.tag):
            for nm, (i, t) in self.typetags.items():
                if i == x.tag.as_long() and t is not None:
                    v = self.unbox(x.pay, t, None)
                    return [x.tag] + self.deepkey(v, t, st, 0)
        h = [x.tag, x.pay]
        return h

    def deepkey(self, v, t, st, d):
        """terms the encoding of v depends on (pointers followed one level,
        maps by contents)"""
        out = []
        u = self.p.under(t)
        if isinstance(v, StructV):
            for x, f in zip(v.fs, u['fields'] or []):
                out += self.deepkey(x, f['type'], st, d)
            return out
        if isinstance(v, MapV):
            return [self.mapdom(st, v), self.mapval(st, v)]
        if isinstance(v, PtrV) and not v.path and d < 2 and self.p.kind(u['elem']) == 'struct':
            return [v.base] + self.deepkey(self.load(st, v), u['elem'], st, d + 1)
        return self.flatten(v)

    # ------------------------------------------------------------ defaults
    def extern_default(self, name, args, ins, st):
        if name.endswith('.init'):
            return TupleV([]), st
        self.assumed.add(name + ' (unmodelled: arbitrary result, no effect on module data)')
        return self.freshval('x:' + name, ins['t']), st

    def extern_method(self, recv, it, meth, args, ins, st):
        nm = '(%s).%s' % (self.p.tname(it), meth)
        self.assumed.add(nm)
        tn = self.p.tname(it)
        if meth == 'Write' and len(args) == 1:
            if self.ishmac(recv):
                st = st.copy()
                a = self.arr(st.heap, 'hmac.data', StrS)
                st.heap['hmac.data'] = core.store(a, recv.pay, self.cat(sel(a, recv.pay), args[0]))
                return self.freshval('hw', ins['t']), st
            return self.write_to(recv, args[0], ins, st)
        if meth == 'Sum' and self.ishmac(recv):
            k = sel(self.arr(st.heap, 'hmac.key', StrS), recv.pay)
            d = sel(self.arr(st.heap, 'hmac.data', StrS), recv.pay)
            hh = sel(self.arr(st.heap, 'hmac.hash', IntS), recv.pay)
            s = self.uf('hmacsum', [hh, k, d], StrS)
            self.fact(z3.Implies(hh == self.hashid('crypto/sha256.New'), slen(s) == 32))
            return self.cat(args[0], s), st
        if meth == 'Error':
            return sel(self.arr(st.heap, 'errmsg', StrS), recv.pay), st
        # read-only methods of unknown implementations: functions of the value
        terms = [recv.tag, recv.pay] if isinstance(recv, IfV) else self.flatten(recv)
        return self.ufval(nm, terms + self.flatargs(args, st), ins['t']), st

    def ishmac(self, recv):
        return '*hmac' in self.typetags and isinstance(recv, IfV) and z3.is_int_value(recv.tag) and \
            recv.tag.as_long() == self.typetags['*hmac'][0]

    # ------------------------------------------------------------ string simplifications
    def simp_strings_HasPrefix(self, args, ins, st):
        a, b = self.S.lit_of(args[0]), self.S.lit_of(args[1])
        if a is not None and b is not None:
            return z3.BoolVal(a.startswith(b))

    def simp_strings_HasSuffix(self, args, ins, st):
        a, b = self.S.lit_of(args[0]), self.S.lit_of(args[1])
        if a is not None and b is not None:
            return z3.BoolVal(a.endswith(b))

    @staticmethod
    def asciilit(*xs):
        return all(x is not None and all(ord(c) < 128 for c in x) for x in xs)

    def simp_strings_EqualFold(self, args, ins, st):
        a, b = self.S.lit_of(args[0]), self.S.lit_of(args[1])
        if self.asciilit(a, b):
            return z3.BoolVal(a.lower() == b.lower())

    def simp_strings_ToLower(self, args, ins, st):
        a = self.S.lit_of(args[0])
        if self.asciilit(a):
            return self.strc(a.lower())

    def simp_encoding_hex_EncodeToString(self, args, ins, st):
        a = self.S.lit_of(args[0])
        if a is not None and all(ord(c) < 128 for c in a):
            return self.strc(a.encode().hex())
        r = self.ufval('encoding/hex.EncodeToString', [args[0]], ins['t'])
        self.fact(z3.And(slen(r) == 2 * self.strlen(args[0]), (slen(r) == 0) == (r == self.strc(''))))
        return r

    def simp_strings_ToUpper(self, args, ins, st):
        a = self.S.lit_of(args[0])
        if self.asciilit(a):
            return self.strc(a.upper())

    # ------------------------------------------------------------ spec runtime
    def find_contracts(self):
        """Contract_<name> functions of the specification, by the function they specify"""
        nens = {}
        for n, f in self.p.funcs.items():
            b = n.split('.')[-1]
            if not b.startswith('Contract_') or '$' in b:
                continue
            want = b.split('_')[-1]
            for blk in f['blocks']:
                for i in blk['instrs']:
                    fn = i.get('fn') or {}
                    if i['op'] == 'call' and fn.get('k') == 'func' and fn['n'].split('.')[-1] == want and 'Contract' not in fn['n']:
                        self.contracts.setdefault(fn['n'], Contract(fn['n'], n))
            c = [c for c in self.contracts.values() if c.fn == n]
            for blk in f['blocks']:
                for i in blk['instrs']:
                    fn = i.get('fn') or {}
                    if i['op'] == 'call' and fn.get('k') == 'func' and c:
                        b = self.origin(fn['n']).split('.')[-1]
                        if b == 'vFunctional':
                            c[0].functional = True
                        elif b == 'vNoPanic':
                            c[0].nopanic = True
                        elif b == 'vEnsure':
                            nens[n] = nens.get(n, 0) + 1
            for x in c:
                x.extra = nens.get(n, 0) > 2      # more than vFunctional and the frame
        self.used_contracts = set()

    def apply_contract(self, c, args, ins, st):
        """call site: the callee is known by its contract only"""
        if self.harness == c.fn or (self.nopanic and not c.nopanic):
            return NotImplemented
        if c.functional and not self.abstract and self.p.funcs[self.harness]['pkg'] == self.p.funcs[c.target]['pkg']:
            return NotImplemented       # the package of the function looks inside
        ufres = None
        if c.functional:
            ufres = self.ufval('fn:' + c.target, self.contentargs(args, st), ins['t'])
            if self.specmode or not c.extra:
                self.used_contracts.add(c.fn)
                return ufres, st
        if self.specmode:
            return NotImplemented
        self.used_contracts.add(c.fn)
        out = []

        def hook(name, a, ins2, st2):
            if name != c.target:
                return None
            r = ufres
            if r is None:
                if self.newobjects(ins2['t']):
                    # objects the callee made
                    k = self.fresh('made', IntS)
                    self.fact(k >= 0)
                    st2 = st2.copy()
                    st2.alloc = add(st2.alloc, k)
                    self.cur_alloc = st2.alloc
                r = self.freshval('r:' + name.split('.')[-1], ins2['t'], st2.alloc)
            out.append(r)
            return r, st2
        saved = (self.target_hook, self.assume_mode, self.nopanic, self.start_state)
        self.target_hook, self.assume_mode, self.nopanic, self.start_state = hook, True, False, st.copy()
        try:
            r = self.exec_func(c.fn, args, (), st.copy(), ins.get('pos', ''))
        finally:
            self.target_hook, self.assume_mode, self.nopanic, self.start_state = saved
        if r is None:
            return None
        return out[0], r[1]

    def newobjects(self, t):
        """a result that refers to objects; these hold no references of their own"""
        refs = []

        def walk(t, deep):
            u = self.p.under(t)
            k = u['k']
            if k == 'struct':
                for f in u['fields'] or []:
                    walk(f['type'], deep)
            elif k == 'tuple':
                for e in u['elems']:
                    walk(e, deep)
            elif k == 'slice' and not self.p.is_bytes(t):
                if deep:
                    raise Unsupported('contract whose result holds references')
                walk(u['elem'], deep)
            elif k == 'ptr':
                if deep:
                    raise Unsupported('contract whose result holds references')
                refs.append(t)
                walk(u['elem'], True)
            elif k in ('map', 'sig', 'chan') or k == 'iface' and deep:
                raise Unsupported('contract whose result holds references')
        walk(t, False)
        return bool(refs)

    def vf_vSame(self, args, ins, st):
        """equal, component by component (stronger than the deep equality of
        the run: to be used in conclusions only)"""
        fl = [self.flatten(self.mat(st, a)) for a in args]
        if len(fl[0]) != len(fl[1]):
            raise Unsupported('vSame')
        return conj([a == b for a, b in zip(*fl)]), st

    def vf_vReadable(self, args, ins, st):
        """reading does not fail (the text may still not be acceptable)"""
        return self.readererr(args[0]) == 0, st

    def vf_vReader(self, args, ins, st):
        return self.rcontent(args[0], st), st

    def vf_vRequire(self, args, ins, st):
        if self.assume_mode:
            self.obligation('precondition of ' + self.callstack[-1].split('.')[-1], 'requires', st, args[0], ins.get('pos', ''))
        st = st.copy()
        self.addpc(st, args[0])
        if any(z3.is_false(c) for c in st.pc):
            return None
        return TupleV([]), st

    def vf_vEnsure(self, args, ins, st):
        name = self.S.lit_of(args[0]) or 'ensures'
        self.ensures_names.append(name)
        if self.assume_mode:
            if hasquant(args[1]):
                # not part of the path condition, which may end up inside
                # conditional expressions
                self.fact(z3.Implies(conj(st.pc), args[1]))
                return TupleV([]), st
            if z3.is_or(args[1]):
                self.fact(z3.Implies(conj(st.pc), args[1]))     # kept apart: merges of paths lose it
            st = st.copy()
            self.addpc(st, args[1])
            return TupleV([]), st
        self.obligation(name, 'ensures', st, args[1], ins.get('pos', ''))
        return TupleV([]), st

    assume_mode = False
    abstract = False

    def vf_vAbstract(self, args, ins, st):
        """from here on, functions with a functional contract are known by it,
        those of the package too"""
        self.abstract = True
        return TupleV([]), st

    def vf_vLemma(self, args, ins, st):
        r, st = self.vf_vEnsure(args, ins, st)
        if not self.assume_mode:
            st = st.copy()
            self.addpc(st, args[1])
        return r, st

    def vf_vFresh(self, args, ins, st):
        # the object did not exist when the harness started
        return self.mat(st, args[0]).base > self.start_state.alloc, st

    def vtarget(self, x, st):
        """the object a decoder is given, behind pointers, and its type"""
        if not z3.is_int_value(x.tag):
            raise Unsupported('decoding into a value of unknown type')
        t = [t for i, t in self.typetags.values() if i == x.tag.as_long()][0]
        if self.p.under(t)['k'] != 'ptr':
            raise Unsupported('decoding into a value')
        p = self.unbox(x.pay, t, x.snap)
        t = self.p.under(t)['elem']
        while self.p.under(t)['k'] == 'ptr':
            p = self.load(st, p)
            t = self.p.under(t)['elem']
        u = self.p.under(t)
        k = u['k']
        if k == 'basic' and u['name'] == 'string':
            return p, t, 'text'
        if k == 'basic' and u['name'] in ('int', 'int64'):
            return p, t, 'number'
        if k == 'slice' and self.p.under(u['elem']).get('name') == 'string':
            return p, t, 'list'
        if k == 'iface' and not u.get('methods'):
            return p, t, 'any'
        if k == 'struct':
            return p, t, 'fields'
        raise Unsupported('decoding into a %s' % k)

    def vf_vShape(self, args, ins, st):
        return self.strc(self.vtarget(args[0], st)[2]), st

    def vf_vFill(self, args, ins, st):
        p, t, shape = self.vtarget(args[0], st)
        n, nt_, _ = self.vtarget(args[1], st)
        st = st.copy()

        def fields(t):
            out = {}
            for i, f in enumerate(self.p.under(t)['fields'] or []):
                m = re.search('yaml:"([^",]*)', f.get('tag') or '')
                out[m and m.group(1) or f['name'].lower()] = (i, f)
            return out
        src = fields(nt_)
        i, f = src[shape]
        q = self.fieldptr(n, i, f['type'])
        if shape != 'fields':
            self.storev(st, p, self.retype(self.mat(st, self.load(st, q)), t))
            return TupleV([]), st
        for k, (j, g) in fields(f['type']).items():
            if k not in fields(t):
                continue
            i, to = fields(t)[k]
            if not to['name'][:1].isupper():
                continue
            a, b = self.p.under(to['type']), self.p.under(g['type'])
            if a['k'] != b['k'] or a.get('name') != b.get('name') and {a.get('name'), b.get('name')} != {'int', 'int64'}:
                raise Unsupported('decoding a %s into a %s' % (b['k'], a['k']))
            v = self.mat(st, self.load(st, self.fieldptr(q, j, g['type'])))
            self.storev(st, self.fieldptr(p, i, to['type']), self.retype(v, to['type']))
        return TupleV([]), st

    def vf_vApart(self, args, ins, st):
        a, b = [self.mat(st, x) for x in args]
        f = (lambda v: v.ref) if isinstance(a, MapV) else (lambda v: v.base)
        return disj([f(a) == 0, f(b) == 0, f(a) != f(b)]), st

    def vf_vNoPanic(self, args, ins, st):
        self.nopanic = True
        return TupleV([]), st

    def vf_vMayPanic(self, args, ins, st):
        self.nopanic = False
        return TupleV([]), st

    def vf_vUnchanged(self, args, ins, st):
        if self.assume_mode:
            return core._true, st
        """frame: no object that existed when the harness started has changed"""
        r = z3.Const('r!frame', IntS)
        out = []
        for key, a in st.heap.items():
            b = self.start_state.heap.get(key)
            if b is None:
                b = self.h0[key]
            if a.eq(b) or key.startswith('errmsg'):
                continue
            out.append(forall([r], z3.Implies(r <= self.start_state.alloc, sel(a, r) == sel(b, r)), patterns=[z3.Select(b, r)] if not is_store(b) and not isite(b) else []))
        return conj(out), st

    def contentargs(self, args, st):
        """the arguments; of a pointer to a struct, the struct it points to"""
        out = []
        for a in args:
            a = self.mat(st, a)
            if isinstance(a, PtrV) and self.p.kind(self.typeat(a.root, a.path)) == 'struct':
                out.append(a.base == 0 if not a.path else core._false)
                out += self.flatten(self.mat(st, self.load(st, a)))
            else:
                out += self.flatargs([a], st)
        return out

    def vf_vFunctional(self, args, ins, st):
        """args: the results of two calls.  They must be equal (obligation), and
        the code must read no memory but the structs its pointer parameters
        point to (footprint of the symbolic execution)."""
        if self.assume_mode:
            return core._true, st
        a, b = self.flatten(self.mat(st, args[0])), self.flatten(self.mat(st, args[1]))
        argrefs = {x.get_id() for x in self.argrefs}
        ok = True
        seen = set()
        todo = list(self.scope.facts) + list(st.pc) + a + b
        for L in self.allloops:
            todo += [f for f in getattr(L, 'facts', [])]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if not z3.is_app(x):
                continue
            if x.decl().kind() == z3.Z3_OP_SELECT and self.isheap0(x.arg(0)) and x.arg(1).get_id() in argrefs:
                continue
            if self.isheap0(x):
                ok = False
                self.footprint = str(x)
            todo += x.children()
        x, y = self.mat(st, args[0]), self.mat(st, args[1])
        if isinstance(x, SliceV):
            # what is beyond the length cannot be observed
            q = z3.Const('q!fn', IntS)
            u, v = sel(x.arr, q), sel(y.arr, q)
            eq = z3.And(x.ln == y.ln, x.nil == y.nil, forall([q], z3.Implies(z3.And(q >= 0, q < x.ln), u == v)))
        else:
            eq = conj([u == v for u, v in zip(a, b)])
        return (eq if ok else core._false), st

    def isheap0(self, x):
        return z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('H0!')

    def vf_vOld(self, args, ins, st):
        return self.snapshot(args[0], Snap(dict(st.heap), st.alloc)), st

    def snapshot(self, v, sn):
        v = self.mapv(v, lambda x: x)
        self.settosnap(v, sn)
        return v

    def settosnap(self, v, sn):
        if isinstance(v, StructV):
            for x in v.fs:
                self.settosnap(x, sn)
        elif isinstance(v, (SliceV, IfV, PtrV, MapV, ElemV)):
            v.snap = sn

    def closure_body(self, fv, mkargs, st, name, sorts, ins):
        """runs a pure closure on symbolic bound variables; returns
        (vars, facts, pc, value)"""
        self.n += 1
        tag = '%s%d' % (name, self.n)
        q = z3.Const('q' + tag, IntS)
        saved_idx, saved_scope, saved_loop = self.idx, self.scope, self.cur_loop
        saved_alloc = self.cur_alloc
        self.idx = saved_idx + [q]
        self.scope = Scope(parent=saved_scope)
        self.cur_loop = None
        self.specmode += 1
        try:
            s0 = st.copy()
            s0.pc = []
            qargs = mkargs(q)
            r = self.call_value(fv, qargs, ins, s0)
        finally:
            self.specmode -= 1
            self.idx = saved_idx
            scope, self.scope = self.scope, saved_scope
            self.cur_loop = saved_loop
            self.cur_alloc = saved_alloc
        if r is None:
            return tag, q, scope, [core._false], core._false
        v, s1 = r
        return tag, q, scope, list(s1.pc), v

    def quant(self, args, ins, st, exists):
        n, f = args[0], args[1]
        bt = self.boolins(ins)
        tag, q, scope, pc, v = self.closure_body(f, lambda q: [q], st, 'F', None, bt)
        b = conj(pc + [v])
        return self.mkquant(tag, q, z3.And(q >= 0, q < n), scope, b, exists), st

    def boolins(self, ins):
        return {'t': self.p.by_str['bool'], 'pos': ins.get('pos', ''), 'args': [], 'sig': None}

    def mkquant(self, tag, q, guard, scope, b, exists):
        idx = list(self.idx)
        itf = z3.Function('itF' + tag, *([IntS] * (len(idx) + 1) + [BoolS]))
        it = itf(*(idx + [q]))
        nat = self.natural(scope.facts + [b], q, [], idx + [q])
        # definitional facts about the body's fresh symbols
        fs = conj(scope.facts)
        self.fact(forall([q], z3.And(it, self.Ix(q)), patterns=[it]))
        if exists:
            jx = z3.Function('Jx', IntS, BoolS)
            gi = [z3.Const('x!j%d' % i, IntS) for i in range(len(idx) + 1)]
            self.root.facts.append(forall(gi, z3.Implies(z3.And([self.Ix(g) for g in gi[:-1]] + [jx(gi[-1])]), itf(*gi)),
                                          patterns=[MP(*([self.Ix(g) for g in gi[:-1]] + [jx(gi[-1])]))]))
        if not z3.is_true(fs):
            self.fact(forall([q], z3.Implies(guard, fs), patterns=[it] + nat))
        for o in scope.obls:
            raise Unsupported('obligation inside a specification closure')
        for L in scope.loops:
            self.scope.loops.append(L)
        pats = [it] + nat
        if exists:
            return exists_([q], z3.And(guard, it, b), patterns=pats)
        if z3.is_true(b):
            return core._true
        return forall([q], z3.Implies(z3.And(guard, it), b), patterns=pats)

    def vf_vForall(self, args, ins, st):
        return self.quant(args, ins, st, False)

    def vf_vExists(self, args, ins, st):
        return self.quant(args, ins, st, True)

    def quantkey(self, args, ins, st, exists):
        m, f = args[0], args[1]
        nm, kt, et = self.mapkeys(m.t)
        dom = self.mapdom(st, m)
        return self.quantsort(kt, f, dom, ins, st, exists), st

    def quantsort(self, kt, f, dom, ins, st, exists):
        """quantifier over all values of a map key / string type"""
        ks = self.S.sort(kt)
        self.n += 1
        s = z3.Const('s!K%d' % self.n, ks)
        bt = self.boolins(ins)
        # the body is executed for the code of the key, so that its fresh
        # symbols are indexed by it
        code = z3.Function('keycode<%s>' % ks, ks, IntS)
        dec = z3.Function('keydec<%s>' % ks, IntS, ks)
        tag, q, scope, pc, v = self.closure_body(f, lambda q: [self.unterm(dec(q), kt)], st, 'K', None, bt)
        x = z3.Const('x!kc', ks)
        self.fact(forall([x], dec(code(x)) == x, patterns=[code(x)]))
        b = conj(pc + [v])
        facts = [self.resimp_key(z3.substitute(t, (q, code(s))), dec, code) for t in scope.facts]
        b = self.resimp_key(z3.substitute(b, (q, code(s))), dec, code)
        idx = list(self.idx)
        itf = z3.Function('itK' + tag, *([IntS] * len(idx) + [ks, BoolS]))
        it = itf(*(idx + [s]))
        self.fact(forall([s], z3.And(it, self.Ix(code(s))), patterns=[it]))
        guard = sel(dom, s) if dom is not None else core._true
        fs = conj(facts)
        pats = [it]
        if dom is not None and not is_store(dom) and not isite(dom) and not z3.is_K(dom):
            pats.append(z3.Select(dom, s))
        seen = set()
        for t in subterms(facts + [b]):
            if is_select(t) and t.arg(1).eq(s) and not is_store(t.arg(0)) and not isite(t.arg(0)) and \
                    not z3.is_K(t.arg(0)) and not contains(t.arg(0), lambda y: y.eq(s) or z3.is_var(y)) and \
                    t.get_id() not in seen:
                seen.add(t.get_id())
                pats.append(t)
        pats = pats[:6]
        if not z3.is_true(fs):
            self.fact(forall([s], fs, patterns=pats))
        for o in scope.obls:
            raise Unsupported('obligation inside a specification closure')
        for L in scope.loops:
            self.scope.loops.append(L)
        if exists:
            return exists_([s], conj([guard, it, b]), patterns=pats)
        if z3.is_true(b):
            return core._true
        return forall([s], z3.Implies(conj([guard, it]), b), patterns=pats)

    def resimp_key(self, t, dec, code):
        memo = {}

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i][1]
            r = x
            if z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                if x.decl().eq(dec) and z3.is_app(ch[0]) and ch[0].decl().eq(code):
                    r = ch[0].arg(0)
                elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch)
            elif z3.is_quantifier(x):
                ps = []
                vs = [z3.Const('%s!b%d' % (x.var_name(j), self.bumpn()), x.var_sort(j)) for j in range(x.num_vars())]
                body = z3.substitute_vars(x.body(), *reversed(vs))
                nb = go(body)
                if not nb.eq(body):
                    for j in range(x.num_patterns()):
                        pt = z3.substitute_vars(x.pattern(j), *reversed(vs)) if False else None
                    pats = [self.patinst(x.pattern(j), vs, go) for j in range(x.num_patterns())]
                    r = forall(vs, nb, pats) if x.is_forall() else exists_(vs, nb, pats)
            memo[i] = (x, r)
            return r
        return go(t)

    def bumpn(self):
        self.n += 1
        return self.n

    def patinst(self, p, vs, go):
        n = z3.Z3_get_pattern_num_terms(p.ctx_ref(), p.as_ast())
        ts = []
        for j in range(n):
            c = z3.z3._to_expr_ref(z3.Z3_get_pattern(p.ctx_ref(), p.as_ast(), j), p.ctx)
            ts.append(go(z3.substitute_vars(c, *reversed(vs))))
        return MP(*ts)

    def vf_vForallKey(self, args, ins, st):
        return self.quantkey(args, ins, st, False)

    def vf_vExistsKey(self, args, ins, st):
        return self.quantkey(args, ins, st, True)

    def vf_vForallStr(self, args, ins, st):
        return self.quantsort(self.p.by_str['string'], args[0], None, ins, st, False), st
