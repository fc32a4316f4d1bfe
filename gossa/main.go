// gossa loads the Go packages of a repository, builds their SSA form with
// golang.org/x/tools/go/ssa and writes it as JSON.  It is the mechanical
// extraction step of the verifier: every function body verified comes from
// this dump of the current source, nothing is written by hand.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var (
	typeIDs  = map[string]int{}
	typeList []J
	prog     *ssa.Program
	tcache   = map[types.Type]int{}
)

func qual(p *types.Package) string { return p.Path() }

func tkey(t types.Type) string { return types.TypeString(t, qual) }

func typeID(t types.Type) int {
	if id, ok := tcache[t]; ok {
		return id
	}
	t0 := t
	t = types.Unalias(t)
	k := tkey(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Parent() != nil && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope() {
		k = fmt.Sprintf("%s@%d", k, n.Obj().Pos()) // local named type
	}
	if id, ok := typeIDs[k]; ok {
		tcache[t0] = id
		return id
	}
	id := len(typeList)
	typeIDs[k] = id
	tcache[t0] = id
	j := J{"id": id, "str": tkey(t)}
	typeList = append(typeList, j)
	switch t := t.(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = t.Name()
		if t.Kind() == types.UnsafePointer {
			j["name"] = "unsafe.Pointer"
		}
	case *types.Named:
		j["k"] = "named"
		j["name"] = t.Obj().Name()
		if t.Obj().Pkg() != nil {
			j["pkg"] = t.Obj().Pkg().Path()
		}
		j["under"] = typeID(t.Underlying())
	case *types.Pointer:
		j["k"] = "ptr"
		j["elem"] = typeID(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["elem"] = typeID(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["elem"] = typeID(t.Elem())
		j["len"] = t.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = typeID(t.Key())
		j["elem"] = typeID(t.Elem())
	case *types.Chan:
		j["k"] = "chan"
		j["elem"] = typeID(t.Elem())
	case *types.Struct:
		j["k"] = "struct"
		var fs []J
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, J{"name": f.Name(), "type": typeID(f.Type()), "tag": t.Tag(i), "emb": f.Embedded(), "exp": f.Exported()})
		}
		j["fields"] = fs
	case *types.Signature:
		j["k"] = "func"
		var ps, rs []int
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, typeID(t.Params().At(i).Type()))
		}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, typeID(t.Results().At(i).Type()))
		}
		j["params"] = ps
		j["results"] = rs
		j["variadic"] = t.Variadic()
	case *types.Interface:
		j["k"] = "iface"
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		j["methods"] = ms
	case *types.Tuple:
		j["k"] = "tuple"
		var es []int
		for i := 0; i < t.Len(); i++ {
			es = append(es, typeID(t.At(i).Type()))
		}
		j["elems"] = es
	case *types.TypeParam:
		j["k"] = "typeparam"
	default:
		j["k"] = "other"
	}
	return id
}

var wantFuncs []*ssa.Function
var seenFunc = map[*ssa.Function]bool{}
var expand func(*ssa.Function) bool

func needFunc(f *ssa.Function) {
	if seenFunc[f] {
		return
	}
	seenFunc[f] = true
	wantFuncs = append(wantFuncs, f)
}

func ref(v ssa.Value) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		j := J{"k": "const", "t": typeID(v.Type())}
		if v.Value == nil {
			j["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Int:
				j["int"] = v.Value.ExactString()
			case constant.Bool:
				j["bool"] = constant.BoolVal(v.Value)
			case constant.String:
				s := constant.StringVal(v.Value)
				bs := make([]int, len(s))
				for i := 0; i < len(s); i++ {
					bs[i] = int(s[i])
				}
				j["str"] = bs
			case constant.Float:
				if i := constant.ToInt(v.Value); i.Kind() == constant.Int {
					j["int"] = i.ExactString()
				}
				j["float"] = v.Value.ExactString()
			default:
				j["other"] = v.Value.ExactString()
			}
		}
		return j
	case *ssa.Global:
		return J{"k": "global", "n": v.RelString(nil), "t": typeID(v.Type())}
	case *ssa.Function:
		needFunc(v)
		return J{"k": "func", "n": v.RelString(nil), "t": typeID(v.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": v.Name()}
	default:
		return J{"k": "reg", "n": v.Name(), "t": typeID(v.Type())}
	}
}

func refs(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, ref(v))
	}
	return r
}

func call(c *ssa.CallCommon) J {
	j := J{"args": refs(c.Args)}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = ref(c.Value)
	} else {
		j["fn"] = ref(c.Value)
	}
	return j
}

func dumpInstr(fset *token.FileSet, in ssa.Instruction) J {
	j := J{}
	if p := in.Pos(); p.IsValid() {
		pp := fset.Position(p)
		j["line"] = pp.Line
	}
	if v, ok := in.(ssa.Value); ok {
		j["name"] = v.Name()
		j["t"] = typeID(v.Type())
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		j["op"] = "Alloc"
		j["comment"] = in.Comment
		j["heap"] = in.Heap
	case *ssa.BinOp:
		j["op"] = "BinOp"
		j["tok"] = in.Op.String()
		j["x"] = ref(in.X)
		j["y"] = ref(in.Y)
	case *ssa.UnOp:
		j["op"] = "UnOp"
		j["tok"] = in.Op.String()
		j["x"] = ref(in.X)
		j["commaok"] = in.CommaOk
	case *ssa.Call:
		j["op"] = "Call"
		j["call"] = call(&in.Call)
	case *ssa.Defer:
		j["op"] = "Defer"
		j["call"] = call(&in.Call)
	case *ssa.Go:
		j["op"] = "Go"
		j["call"] = call(&in.Call)
	case *ssa.RunDefers:
		j["op"] = "RunDefers"
	case *ssa.Panic:
		j["op"] = "Panic"
		j["x"] = ref(in.X)
	case *ssa.ChangeInterface:
		j["op"] = "ChangeInterface"
		j["x"] = ref(in.X)
	case *ssa.ChangeType:
		j["op"] = "ChangeType"
		j["x"] = ref(in.X)
	case *ssa.Convert:
		j["op"] = "Convert"
		j["x"] = ref(in.X)
	case *ssa.MultiConvert:
		j["op"] = "Convert"
		j["x"] = ref(in.X)
	case *ssa.SliceToArrayPointer:
		j["op"] = "SliceToArrayPointer"
		j["x"] = ref(in.X)
	case *ssa.MakeInterface:
		j["op"] = "MakeInterface"
		j["x"] = ref(in.X)
	case *ssa.Extract:
		j["op"] = "Extract"
		j["x"] = ref(in.Tuple)
		j["i"] = in.Index
	case *ssa.Field:
		j["op"] = "Field"
		j["x"] = ref(in.X)
		j["i"] = in.Field
	case *ssa.FieldAddr:
		j["op"] = "FieldAddr"
		j["x"] = ref(in.X)
		j["i"] = in.Field
	case *ssa.Index:
		j["op"] = "Index"
		j["x"] = ref(in.X)
		j["y"] = ref(in.Index)
	case *ssa.IndexAddr:
		j["op"] = "IndexAddr"
		j["x"] = ref(in.X)
		j["y"] = ref(in.Index)
	case *ssa.Lookup:
		j["op"] = "Lookup"
		j["x"] = ref(in.X)
		j["y"] = ref(in.Index)
		j["commaok"] = in.CommaOk
	case *ssa.If:
		j["op"] = "If"
		j["x"] = ref(in.Cond)
	case *ssa.Jump:
		j["op"] = "Jump"
	case *ssa.MakeClosure:
		j["op"] = "MakeClosure"
		j["fn"] = ref(in.Fn)
		j["bindings"] = refs(in.Bindings)
	case *ssa.MakeMap:
		j["op"] = "MakeMap"
	case *ssa.MakeChan:
		j["op"] = "MakeChan"
	case *ssa.MakeSlice:
		j["op"] = "MakeSlice"
		j["len"] = ref(in.Len)
		j["cap"] = ref(in.Cap)
	case *ssa.MapUpdate:
		j["op"] = "MapUpdate"
		j["x"] = ref(in.Map)
		j["y"] = ref(in.Key)
		j["v"] = ref(in.Value)
	case *ssa.Next:
		j["op"] = "Next"
		j["x"] = ref(in.Iter)
		j["isstring"] = in.IsString
	case *ssa.Range:
		j["op"] = "Range"
		j["x"] = ref(in.X)
	case *ssa.Phi:
		j["op"] = "Phi"
		j["comment"] = in.Comment
		j["edges"] = refs(in.Edges)
	case *ssa.Return:
		j["op"] = "Return"
		j["results"] = refs(in.Results)
	case *ssa.Select:
		j["op"] = "Select"
	case *ssa.Send:
		j["op"] = "Send"
	case *ssa.Slice:
		j["op"] = "Slice"
		j["x"] = ref(in.X)
		j["low"] = ref(in.Low)
		j["high"] = ref(in.High)
		j["max"] = ref(in.Max)
	case *ssa.Store:
		j["op"] = "Store"
		j["addr"] = ref(in.Addr)
		j["x"] = ref(in.Val)
	case *ssa.TypeAssert:
		j["op"] = "TypeAssert"
		j["x"] = ref(in.X)
		j["asserted"] = typeID(in.AssertedType)
		j["commaok"] = in.CommaOk
	default:
		j["op"] = fmt.Sprintf("Unsupported:%T", in)
	}
	return j
}

func dumpFunc(f *ssa.Function) J {
	fset := prog.Fset
	j := J{"name": f.RelString(nil), "t": typeID(f.Signature), "synthetic": f.Synthetic}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
	}
	if p := f.Pos(); p.IsValid() {
		pp := fset.Position(p)
		j["file"] = pp.Filename
		j["line"] = pp.Line
	}
	var ps []interface{}
	for _, p := range f.Params {
		ps = append(ps, ref(p))
	}
	j["params"] = ps
	var fv []interface{}
	for _, p := range f.FreeVars {
		fv = append(fv, ref(p))
	}
	j["freevars"] = fv
	var rn []string
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rn = append(rn, f.Signature.Results().At(i).Name())
	}
	j["resnames"] = rn
	j["recv"] = f.Signature.Recv() != nil
	if f.Blocks == nil {
		j["external"] = true
		return j
	}
	var bs []J
	for _, b := range f.Blocks {
		bj := J{"i": b.Index, "comment": b.Comment}
		succ := []int{}
		pred := []int{}
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		bj["succs"] = succ
		bj["preds"] = pred
		ins := []J{}
		for _, in := range b.Instrs {
			if d := dumpInstr(fset, in); d != nil {
				ins = append(ins, d)
			}
		}
		bj["instrs"] = ins
		bs = append(bs, bj)
	}
	j["blocks"] = bs
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	return j
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	out := flag.String("o", "-", "output file")
	extra := flag.String("extra", "", "comma separated extra packages to load from source")
	tags := flag.String("tags", "", "build tags")
	flag.Parse()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: *dir,
		Env: os.Environ(),
	}
	if *tags != "" {
		cfg.BuildFlags = []string{"-tags", *tags}
	}
	pats := []string{"./..."}
	ex := map[string]bool{}
	if *extra != "" {
		for _, e := range strings.Split(*extra, ",") {
			pats = append(pats, e)
			ex[e] = true
		}
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "error:", e)
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
	var spkgs []*ssa.Package
	prog, spkgs = ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	repo := map[*ssa.Package]bool{}
	var names []string
	for i, p := range pkgs {
		if spkgs[i] == nil {
			continue
		}
		if !ex[p.PkgPath] {
			repo[spkgs[i]] = true
			names = append(names, p.PkgPath)
		}
	}
	inRepo := func(f *ssa.Function) bool {
		for f != nil {
			if f.Pkg != nil {
				return repo[f.Pkg] || ex[f.Pkg.Pkg.Path()]
			}
			if o := f.Origin(); o != nil && o != f {
				f = o
				continue
			}
			if f.Object() != nil && f.Object().Pkg() != nil {
				pp := f.Object().Pkg().Path()
				return ex[pp] || prog.ImportedPackage(pp) != nil && repo[prog.ImportedPackage(pp)]
			}
			f = f.Parent()
		}
		return false
	}
	all := ssautil.AllFunctions(prog)
	var fl []*ssa.Function
	for f := range all {
		if inRepo(f) {
			fl = append(fl, f)
		}
	}
	// methods of all named types of the repo (also via pointer)
	methods := []J{}
	for p := range repo {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f == nil {
							continue
						}
						if !seenFunc[f] {
							fl = append(fl, f)
						}
						methods = append(methods, J{"type": typeID(T), "name": ms.At(i).Obj().Name(), "fn": f.RelString(nil)})
					}
				}
			}
		}
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].RelString(nil) < fl[j].RelString(nil) })
	for _, f := range fl {
		needFunc(f)
	}
	funcs := J{}
	for i := 0; i < len(wantFuncs); i++ {
		f := wantFuncs[i]
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		funcs[f.RelString(nil)] = dumpFunc(f)
	}
	globals := []J{}
	for p := range repo {
		for n, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				globals = append(globals, J{"name": g.RelString(nil), "n": n, "pkg": p.Pkg.Path(), "t": typeID(g.Type())})
			}
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i]["name"].(string) < globals[j]["name"].(string) })
	sort.Strings(names)
	res := J{"packages": names, "types": typeList, "funcs": funcs, "globals": globals, "methods": methods}
	w := os.Stdout
	if *out != "-" {
		w, err = os.Create(*out)
		if err != nil {
			panic(err)
		}
	}
	if err := json.NewEncoder(w).Encode(res); err != nil {
		panic(err)
	}
	w.Close()
}
