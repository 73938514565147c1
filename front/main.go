// Command front loads Go packages (with overlay files), builds SSA form and
// dumps every function reachable in the analysed module as JSON for the
// verification-condition generator in ../vc.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

type dumper struct {
	prog    *ssa.Program
	fset    *token.FileSet
	typeIDs map[string][]typeEnt
	types   []J
	modpath string
	funcs   map[string]J
	queue   []*ssa.Function
	seen    map[*ssa.Function]bool
	names   map[*ssa.Function]string
	globals map[string]J
	root    string
}
type typeEnt struct {
	t  types.Type
	id int
}

func qual(p *types.Package) string { return p.Path() }

func (d *dumper) typ(t types.Type) int {
	if t == nil {
		return -1
	}
	t = types.Unalias(t)
	key := types.TypeString(t, qual)
	for _, e := range d.typeIDs[key] {
		if types.Identical(e.t, t) {
			return e.id
		}
	}
	id := len(d.types)
	d.types = append(d.types, nil)
	d.typeIDs[key] = append(d.typeIDs[key], typeEnt{t, id})
	j := J{"id": id, "str": key}
	d.types[id] = j
	switch t := t.(type) {
	case *types.Named:
		j["k"] = "named"
		j["name"] = t.Obj().Name()
		if t.Obj().Pkg() != nil {
			j["pkg"] = t.Obj().Pkg().Path()
		}
		j["under"] = d.typ(t.Underlying())
		ms := J{}
		for _, recv := range []types.Type{t, types.NewPointer(t)} {
			mset := d.prog.MethodSets.MethodSet(recv)
			for i := 0; i < mset.Len(); i++ {
				sel := mset.At(i)
				if types.IsInterface(recv.Underlying()) {
					continue
				}
				if !d.inModule(t.Obj().Pkg()) {
					continue
				}
				fn := d.prog.MethodValue(sel)
				if fn == nil {
					continue
				}
				pref := ""
				if _, ok := recv.(*types.Pointer); ok {
					pref = "*"
				}
				ms[pref+sel.Obj().Name()] = d.fn(fn)
			}
		}
		j["methods"] = ms
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = t.Name()
	case *types.Pointer:
		j["k"] = "ptr"
		j["elem"] = d.typ(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["elem"] = d.typ(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["elem"] = d.typ(t.Elem())
		j["len"] = t.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = d.typ(t.Key())
		j["elem"] = d.typ(t.Elem())
	case *types.Chan:
		j["k"] = "chan"
	case *types.Struct:
		j["k"] = "struct"
		var fs []J
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, J{"name": f.Name(), "type": d.typ(f.Type()), "emb": f.Embedded(), "tag": t.Tag(i)})
		}
		j["fields"] = fs
	case *types.Interface:
		j["k"] = "iface"
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		j["methods"] = ms
	case *types.Signature:
		j["k"] = "sig"
		var ps, rs []int
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, d.typ(t.Params().At(i).Type()))
		}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, d.typ(t.Results().At(i).Type()))
		}
		j["params"] = ps
		j["results"] = rs
		j["variadic"] = t.Variadic()
	case *types.Tuple:
		j["k"] = "tuple"
		var es []int
		for i := 0; i < t.Len(); i++ {
			es = append(es, d.typ(t.At(i).Type()))
		}
		j["elems"] = es
	case *types.TypeParam:
		j["k"] = "typeparam"
	default:
		j["k"] = "other"
	}
	return id
}

func (d *dumper) inModule(p *types.Package) bool {
	return p != nil && (p.Path() == d.modpath || strings.HasPrefix(p.Path(), d.modpath+"/"))
}

func (d *dumper) fname(f *ssa.Function) string {
	if n, ok := d.names[f]; ok {
		return n
	}
	n := f.String()
	d.names[f] = n
	return n
}

// fn registers the function and returns its name.
func (d *dumper) fn(f *ssa.Function) string {
	n := d.fname(f)
	if !d.seen[f] {
		d.seen[f] = true
		d.queue = append(d.queue, f)
	}
	return n
}

func (d *dumper) val(v ssa.Value) J {
	switch v := v.(type) {
	case *ssa.Const:
		j := J{"k": "const", "t": d.typ(v.Type())}
		if v.Value == nil {
			j["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["v"] = constant.BoolVal(v.Value)
				j["ck"] = "bool"
			case constant.String:
				j["v"] = constant.StringVal(v.Value)
				j["bytes"] = []byte(constant.StringVal(v.Value))
				j["ck"] = "string"
			case constant.Int:
				j["v"] = v.Value.ExactString()
				j["ck"] = "int"
			default:
				j["v"] = v.Value.ExactString()
				j["ck"] = "float"
			}
		}
		return j
	case *ssa.Global:
		d.global(v)
		return J{"k": "global", "n": v.String(), "t": d.typ(v.Type())}
	case *ssa.Function:
		return J{"k": "func", "n": d.fn(v), "t": d.typ(v.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": v.Name()}
	default:
		return J{"k": "reg", "n": v.Name(), "t": d.typ(v.Type())}
	}
}

func (d *dumper) global(g *ssa.Global) {
	n := g.String()
	if _, ok := d.globals[n]; ok {
		return
	}
	pkg := ""
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
	}
	d.globals[n] = J{"name": n, "t": d.typ(g.Type()), "pkg": pkg}
	if g.Pkg != nil && d.inModule(g.Pkg.Pkg) {
		if init := g.Pkg.Func("init"); init != nil {
			d.fn(init)
		}
	}
}

func (d *dumper) vals(vs []ssa.Value) []J {
	out := []J{}
	for _, v := range vs {
		out = append(out, d.val(v))
	}
	return out
}

func (d *dumper) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := d.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(d.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (d *dumper) call(j J, c *ssa.CallCommon) {
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = d.val(c.Value)
	} else {
		j["fn"] = d.val(c.Value)
	}
	j["args"] = d.vals(c.Args)
	j["sig"] = d.typ(c.Signature())
}

func (d *dumper) instr(i ssa.Instruction) J {
	j := J{}
	if p := d.pos(i.Pos()); p != "" {
		j["pos"] = p
	}
	if v, ok := i.(ssa.Value); ok {
		j["reg"] = v.Name()
		j["t"] = d.typ(v.Type())
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		j["op"] = "alloc"
		j["heap"] = i.Heap
		j["comment"] = i.Comment
	case *ssa.BinOp:
		j["op"] = "binop"
		j["bop"] = i.Op.String()
		j["x"] = d.val(i.X)
		j["y"] = d.val(i.Y)
	case *ssa.Call:
		j["op"] = "call"
		d.call(j, &i.Call)
	case *ssa.Defer:
		j["op"] = "defer"
		d.call(j, &i.Call)
	case *ssa.Go:
		j["op"] = "go"
		d.call(j, &i.Call)
	case *ssa.ChangeInterface:
		j["op"] = "changeiface"
		j["x"] = d.val(i.X)
	case *ssa.ChangeType:
		j["op"] = "changetype"
		j["x"] = d.val(i.X)
	case *ssa.Convert:
		j["op"] = "convert"
		j["x"] = d.val(i.X)
	case *ssa.MultiConvert:
		j["op"] = "convert"
		j["x"] = d.val(i.X)
	case *ssa.DebugRef:
		return nil
	case *ssa.Extract:
		j["op"] = "extract"
		j["x"] = d.val(i.Tuple)
		j["i"] = i.Index
	case *ssa.Field:
		j["op"] = "field"
		j["x"] = d.val(i.X)
		j["i"] = i.Field
	case *ssa.FieldAddr:
		j["op"] = "fieldaddr"
		j["x"] = d.val(i.X)
		j["i"] = i.Field
	case *ssa.If:
		j["op"] = "if"
		j["x"] = d.val(i.Cond)
	case *ssa.Index:
		j["op"] = "index"
		j["x"] = d.val(i.X)
		j["y"] = d.val(i.Index)
	case *ssa.IndexAddr:
		j["op"] = "indexaddr"
		j["x"] = d.val(i.X)
		j["y"] = d.val(i.Index)
	case *ssa.Jump:
		j["op"] = "jump"
	case *ssa.Lookup:
		j["op"] = "lookup"
		j["x"] = d.val(i.X)
		j["y"] = d.val(i.Index)
		j["commaok"] = i.CommaOk
	case *ssa.MakeChan:
		j["op"] = "makechan"
	case *ssa.MakeClosure:
		j["op"] = "makeclosure"
		j["fn"] = d.val(i.Fn)
		j["args"] = d.vals(i.Bindings)
	case *ssa.MakeInterface:
		j["op"] = "makeiface"
		j["x"] = d.val(i.X)
	case *ssa.MakeMap:
		j["op"] = "makemap"
	case *ssa.MakeSlice:
		j["op"] = "makeslice"
		j["len"] = d.val(i.Len)
		j["cap"] = d.val(i.Cap)
	case *ssa.MapUpdate:
		j["op"] = "mapupdate"
		j["m"] = d.val(i.Map)
		j["key"] = d.val(i.Key)
		j["val"] = d.val(i.Value)
	case *ssa.Next:
		j["op"] = "next"
		j["x"] = d.val(i.Iter)
		j["isstring"] = i.IsString
	case *ssa.Panic:
		j["op"] = "panic"
		j["x"] = d.val(i.X)
	case *ssa.Phi:
		j["op"] = "phi"
		j["edges"] = d.vals(i.Edges)
		j["comment"] = i.Comment
	case *ssa.Range:
		j["op"] = "range"
		j["x"] = d.val(i.X)
	case *ssa.Return:
		j["op"] = "return"
		j["args"] = d.vals(i.Results)
	case *ssa.RunDefers:
		j["op"] = "rundefers"
	case *ssa.Slice:
		j["op"] = "slice"
		j["x"] = d.val(i.X)
		if i.Low != nil {
			j["lo"] = d.val(i.Low)
		}
		if i.High != nil {
			j["hi"] = d.val(i.High)
		}
		if i.Max != nil {
			j["max"] = d.val(i.Max)
		}
	case *ssa.Store:
		j["op"] = "store"
		j["addr"] = d.val(i.Addr)
		j["val"] = d.val(i.Val)
	case *ssa.TypeAssert:
		j["op"] = "typeassert"
		j["x"] = d.val(i.X)
		j["to"] = d.typ(i.AssertedType)
		j["commaok"] = i.CommaOk
	case *ssa.UnOp:
		j["op"] = "unop"
		j["uop"] = i.Op.String()
		j["x"] = d.val(i.X)
		j["commaok"] = i.CommaOk
	default:
		j["op"] = "unsupported:" + fmt.Sprintf("%T", i)
	}
	return j
}

func (d *dumper) dumpFn(f *ssa.Function) {
	n := d.fname(f)
	if _, ok := d.funcs[n]; ok {
		return
	}
	j := J{"name": n, "sig": d.typ(f.Signature), "short": f.Name()}
	if f.Origin() != nil {
		j["origin"] = f.Origin().String()
	}
	d.funcs[n] = j
	var pkg *types.Package
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg
	} else if f.Object() != nil {
		pkg = f.Object().Pkg()
	} else if f.Parent() != nil && f.Parent().Pkg != nil {
		pkg = f.Parent().Pkg.Pkg
	}
	if pkg != nil {
		j["pkg"] = pkg.Path()
	}
	j["synthetic"] = f.Synthetic
	j["pos"] = d.pos(f.Pos())
	if f.Syntax() != nil {
		j["end"] = d.pos(f.Syntax().End())
	}
	if f.Parent() != nil {
		j["parent"] = d.fname(f.Parent())
	}
	var ps []J
	for _, p := range f.Params {
		ps = append(ps, J{"name": p.Name(), "t": d.typ(p.Type())})
	}
	j["params"] = ps
	var fv []J
	for _, p := range f.FreeVars {
		fv = append(fv, J{"name": p.Name(), "t": d.typ(p.Type())})
	}
	j["freevars"] = fv
	if !d.inModule(pkg) || len(f.Blocks) == 0 {
		j["extern"] = true
		return
	}
	var bs []J
	for _, b := range f.Blocks {
		bj := J{"i": b.Index, "comment": b.Comment}
		ss, pp := []int{}, []int{}
		for _, s := range b.Succs {
			ss = append(ss, s.Index)
		}
		for _, s := range b.Preds {
			pp = append(pp, s.Index)
		}
		bj["succs"] = ss
		bj["preds"] = pp
		if b.Idom() != nil {
			bj["idom"] = b.Idom().Index
		} else {
			bj["idom"] = -1
		}
		ins := []J{}
		for _, i := range b.Instrs {
			if x := d.instr(i); x != nil {
				ins = append(ins, x)
			}
		}
		bj["instrs"] = ins
		bs = append(bs, bj)
	}
	j["blocks"] = bs
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	overlay := flag.String("overlay", "", "JSON overlay file {\"Replace\":{...}}")
	out := flag.String("o", "-", "output")
	tags := flag.String("tags", "", "build tags")
	flag.Parse()

	ov := map[string][]byte{}
	if *overlay != "" {
		b, err := os.ReadFile(*overlay)
		check(err)
		var o struct{ Replace map[string]string }
		check(json.Unmarshal(b, &o))
		for k, v := range o.Replace {
			c, err := os.ReadFile(v)
			check(err)
			ov[k] = c
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     *dir,
		Overlay: ov,
	}
	if *tags != "" {
		cfg.BuildFlags = []string{"-tags=" + *tags}
	}
	pkgs, err := packages.Load(cfg, flag.Args()...)
	check(err)
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	d := &dumper{prog: prog, fset: prog.Fset, typeIDs: map[string][]typeEnt{}, funcs: map[string]J{},
		seen: map[*ssa.Function]bool{}, names: map[*ssa.Function]string{}, globals: map[string]J{}, root: *dir}
	for _, p := range pkgs {
		if p.Module != nil {
			d.modpath = p.Module.Path
		}
	}
	// build all module packages (dependencies too, when inside the module)
	for _, p := range prog.AllPackages() {
		if d.inModule(p.Pkg) {
			p.Build()
		}
	}
	_ = spkgs
	var ps []*ssa.Package
	for _, p := range prog.AllPackages() {
		if d.inModule(p.Pkg) {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	for _, p := range ps {
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				if m.TypeParams().Len() == 0 {
					d.fn(m)
				}
			case *ssa.Type:
				d.typ(m.Type())
			case *ssa.Global:
				d.global(m)
			}
		}
	}
	for len(d.queue) > 0 {
		f := d.queue[0]
		d.queue = d.queue[1:]
		d.dumpFn(f)
	}
	res := J{"types": d.types, "funcs": d.funcs, "globals": d.globals, "module": d.modpath}
	b, err := json.Marshal(res)
	check(err)
	if *out == "-" {
		os.Stdout.Write(b)
	} else {
		check(os.WriteFile(*out, b, 0644))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "front:", err)
		os.Exit(3)
	}
}
