// gossa: loads /repo's packages from source, builds go/ssa, and dumps the
// typed SSA of every function the verifier may execute as JSON.
// Nothing is dropped: every instruction of every dumped function is emitted;
// instruction kinds the verifier does not understand are rejected there.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	prog    *ssa.Program
	typeIDs = map[string]int{}
	typeTab []M
	fset    *token.FileSet
	queue   []*ssa.Function
	seen    = map[*ssa.Function]bool{}
	globals = map[string]M{}
	inline  = map[string]bool{}
)

func qual(p *types.Package) string { return p.Path() }

func typeID(t types.Type) int {
	key := types.TypeString(t, qual)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	m := M{"s": key}
	typeTab = append(typeTab, m)
	switch t := t.(type) {
	case *types.Named:
		m["k"] = "named"
		m["name"] = key
		m["u"] = typeID(t.Underlying())
	case *types.Alias:
		m["k"] = "alias"
		m["u"] = typeID(types.Unalias(t))
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = t.Name()
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = typeID(t.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = typeID(t.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = typeID(t.Elem())
		m["n"] = t.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = typeID(t.Key())
		m["e"] = typeID(t.Elem())
	case *types.Struct:
		m["k"] = "struct"
		var fs []M
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"n": f.Name(), "t": typeID(f.Type()), "tag": t.Tag(i), "emb": f.Embedded(), "exp": f.Exported()})
		}
		m["f"] = fs
	case *types.Interface:
		m["k"] = "iface"
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		m["m"] = ms
	case *types.Signature:
		m["k"] = "func"
	case *types.Tuple:
		m["k"] = "tuple"
		var fs []int
		for i := 0; i < t.Len(); i++ {
			fs = append(fs, typeID(t.At(i).Type()))
		}
		m["f"] = fs
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = typeID(t.Elem())
	default:
		m["k"] = "other"
	}
	return id
}

func want(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	p := pkgOf(f)
	return p == "" || inline[p] || strings.HasPrefix(p, "github.com/greymass/")
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Origin() != nil && f.Origin() != f {
		return pkgOf(f.Origin())
	}
	return ""
}

func enqueue(f *ssa.Function) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	queue = append(queue, f)
}

func val(v ssa.Value) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": typeID(v.Type())}
		if v.Value == nil {
			m["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.String:
				s := constant.StringVal(v.Value)
				b := make([]int, len(s))
				for i := 0; i < len(s); i++ {
					b[i] = int(s[i])
				}
				m["str"] = b
			case constant.Bool:
				m["bool"] = constant.BoolVal(v.Value)
			case constant.Int:
				m["int"] = v.Value.ExactString()
			default:
				m["other"] = v.Value.ExactString()
			}
		}
		return m
	case *ssa.Global:
		n := v.String()
		if _, ok := globals[n]; !ok {
			globals[n] = M{"t": typeID(v.Type())}
		}
		return M{"k": "global", "n": n, "t": typeID(v.Type())}
	case *ssa.Function:
		if want(v) {
			enqueue(v)
		}
		return M{"k": "func", "n": v.String(), "t": typeID(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name(), "t": typeID(v.Type())}
	default:
		return M{"k": "reg", "n": v.Name(), "t": typeID(v.Type())}
	}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon, m M) {
	m["args"] = vals(c.Args)
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["x"] = val(c.Value)
	} else {
		m["fn"] = val(c.Value)
	}
	m["sig"] = c.Signature().String()
}

func instr(in ssa.Instruction) M {
	m := M{}
	if v, ok := in.(ssa.Value); ok {
		m["d"] = v.Name()
		m["t"] = typeID(v.Type())
	}
	if p := in.Pos(); p.IsValid() {
		m["line"] = fset.Position(p).Line
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = in.Heap
		m["e"] = typeID(in.Type().Underlying().(*types.Pointer).Elem())
		m["c"] = in.Comment
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["o"] = in.Op.String()
		m["x"], m["y"] = val(in.X), val(in.Y)
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["o"] = in.Op.String()
		m["x"] = val(in.X)
		m["ok"] = in.CommaOk
	case *ssa.Call:
		m["op"] = "Call"
		call(&in.Call, m)
	case *ssa.Defer:
		m["op"] = "Defer"
		call(&in.Call, m)
	case *ssa.Go:
		m["op"] = "Go"
		call(&in.Call, m)
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = val(in.X)
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = val(in.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = val(in.X)
	case *ssa.MultiConvert:
		m["op"] = "MultiConvert"
		m["x"] = val(in.X)
	case *ssa.DebugRef:
		m["op"] = "DebugRef"
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = val(in.Tuple)
		m["i"] = in.Index
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = val(in.X)
		m["i"] = in.Field
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = val(in.X)
		m["i"] = in.Field
	case *ssa.If:
		m["op"] = "If"
		m["x"] = val(in.Cond)
	case *ssa.Index:
		m["op"] = "Index"
		m["x"], m["y"] = val(in.X), val(in.Index)
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"], m["y"] = val(in.X), val(in.Index)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"], m["y"] = val(in.X), val(in.Index)
		m["ok"] = in.CommaOk
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = val(in.Fn)
		m["args"] = vals(in.Bindings)
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = val(in.X)
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["x"], m["y"] = val(in.Len), val(in.Cap)
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["m"], m["x"], m["y"] = val(in.Map), val(in.Key), val(in.Value)
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = val(in.Iter)
		m["str"] = in.IsString
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = val(in.X)
	case *ssa.Phi:
		m["op"] = "Phi"
		m["args"] = vals(in.Edges)
		m["c"] = in.Comment
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = val(in.X)
	case *ssa.Return:
		m["op"] = "Return"
		m["args"] = vals(in.Results)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = val(in.X)
		if in.Low != nil {
			m["lo"] = val(in.Low)
		}
		if in.High != nil {
			m["hi"] = val(in.High)
		}
		if in.Max != nil {
			m["max"] = val(in.Max)
		}
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
		m["x"] = val(in.X)
	case *ssa.Store:
		m["op"] = "Store"
		m["x"], m["y"] = val(in.Addr), val(in.Val)
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = val(in.X)
		m["at"] = typeID(in.AssertedType)
		m["ok"] = in.CommaOk
	default:
		m["op"] = fmt.Sprintf("%T", in)
	}
	return m
}

func fn(f *ssa.Function) M {
	m := M{"name": f.String(), "pkg": pkgOf(f), "short": f.Name()}
	if f.Pos().IsValid() {
		p := fset.Position(f.Pos())
		m["file"] = p.Filename
		m["line"] = p.Line
	}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": typeID(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": typeID(p.Type())})
	}
	m["freevars"] = fv
	rs := []M{}
	sr := f.Signature.Results()
	for i := 0; i < sr.Len(); i++ {
		rs = append(rs, M{"n": sr.At(i).Name(), "t": typeID(sr.At(i).Type())})
	}
	m["results"] = rs
	m["recv"] = f.Signature.Recv() != nil
	m["variadic"] = f.Signature.Variadic()
	if f.Synthetic != "" {
		m["synthetic"] = f.Synthetic
	}
	bs := []M{}
	for _, b := range f.Blocks {
		bm := M{"c": b.Comment}
		pr, su := []int{}, []int{}
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		bm["preds"], bm["succs"] = pr, su
		is := []M{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			is = append(is, instr(in))
		}
		bm["i"] = is
		bs = append(bs, bm)
	}
	m["blocks"] = bs
	m["recover"] = f.Recover != nil
	return m
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	for _, p := range strings.Split(os.Args[3], ",") {
		inline[p] = true
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./pkg/...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	p, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog = p
	fset = prog.Fset
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if inline[path] || strings.HasPrefix(path, "github.com/greymass/") {
			sp.Build()
		}
	}
	methods := M{}
	addMethods := func(t types.Type) {
		ms := prog.MethodSets.MethodSet(t)
		if ms.Len() == 0 {
			return
		}
		mm := M{}
		for i := 0; i < ms.Len(); i++ {
			f := prog.MethodValue(ms.At(i))
			if f != nil && want(f) {
				enqueue(f)
				mm[ms.At(i).Obj().Name()] = f.String()
			} else if f != nil {
				mm[ms.At(i).Obj().Name()] = f.String()
			}
		}
		methods[types.TypeString(t, qual)] = mm
		typeID(t)
	}
	var list []*ssa.Package
	list = append(list, prog.AllPackages()...)
	sort.Slice(list, func(i, j int) bool { return list[i].Pkg.Path() < list[j].Pkg.Path() })
	consts := M{}
	for _, sp := range list {
		path := sp.Pkg.Path()
		repo := strings.HasPrefix(path, "github.com/greymass/")
		if !repo && !inline[path] {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch mem := sp.Members[n].(type) {
			case *ssa.Function:
				if repo {
					enqueue(mem)
				}
			case *ssa.Type:
				nt := mem.Type()
				if nn, ok := nt.(*types.Named); ok && nn.TypeParams().Len() > 0 {
					continue
				}
				if _, isI := nt.Underlying().(*types.Interface); isI {
					typeID(nt)
					continue
				}
				addMethods(nt)
				addMethods(types.NewPointer(nt))
			case *ssa.Global:
				val(mem)
			case *ssa.NamedConst:
				if repo {
					consts[path+"."+n] = mem.Value.Value.ExactString()
				}
			}
		}
	}
	fns := M{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		fns[f.String()] = fn(f)
	}
	o, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	e := json.NewEncoder(o)
	if err := e.Encode(M{"types": typeTab, "funcs": fns, "methods": methods, "globals": globals, "consts": consts}); err != nil {
		panic(err)
	}
	o.Close()
}
