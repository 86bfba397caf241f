// ssadump loads the packages of the Go module in -dir (the real, current
// source), builds their SSA form with golang.org/x/tools/go/ssa and writes it
// as JSON.  Nothing is dropped except source comments and the bodies of
// functions outside the module (standard library), which the verifier
// replaces by the contracts in models.py.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	typeIDs = map[string]bool{}
	typeTab = M{}
	queue   []types.Type
	fset    *token.FileSet
	modpath string
	dir     string
)

func qual(p *types.Package) string { return p.Path() }

func tstr(t types.Type) string {
	s := types.TypeString(t, qual)
	if !typeIDs[s] {
		typeIDs[s] = true
		queue = append(queue, t)
	}
	return s
}

func tuple(t *types.Tuple) []any {
	r := []any{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, M{"name": t.At(i).Name(), "type": tstr(t.At(i).Type())})
	}
	return r
}

func describe(t types.Type) M {
	switch t := t.(type) {
	case *types.Named:
		m := M{"kind": "named", "under": tstr(t.Underlying()), "name": t.Obj().Name()}
		if t.Obj().Pkg() != nil {
			m["pkg"] = t.Obj().Pkg().Path()
		}
		return m
	case *types.Alias:
		return M{"kind": "alias", "to": tstr(types.Unalias(t))}
	case *types.Basic:
		return M{"kind": "basic", "name": t.Name(), "info": int(t.Info())}
	case *types.Pointer:
		return M{"kind": "pointer", "elem": tstr(t.Elem())}
	case *types.Slice:
		return M{"kind": "slice", "elem": tstr(t.Elem())}
	case *types.Array:
		return M{"kind": "array", "elem": tstr(t.Elem()), "len": t.Len()}
	case *types.Map:
		return M{"kind": "map", "key": tstr(t.Key()), "elem": tstr(t.Elem())}
	case *types.Chan:
		return M{"kind": "chan", "elem": tstr(t.Elem())}
	case *types.Struct:
		fs := []any{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": tstr(f.Type()), "embedded": f.Embedded()})
		}
		return M{"kind": "struct", "fields": fs}
	case *types.Interface:
		ms := []any{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, M{"name": t.Method(i).Name(), "type": tstr(t.Method(i).Type())})
		}
		return M{"kind": "interface", "methods": ms}
	case *types.Signature:
		return M{"kind": "func", "params": tuple(t.Params()), "results": tuple(t.Results()), "variadic": t.Variadic()}
	case *types.Tuple:
		return M{"kind": "tuple", "elems": tuple(t)}
	}
	return M{"kind": "other", "str": fmt.Sprintf("%T", t)}
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, dir+"/"), q.Line)
}

func val(v ssa.Value) M {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": tstr(v.Type())}
		if v.Value == nil {
			m["nil"] = true
			return m
		}
		switch v.Value.Kind() {
		case constant.Bool:
			m["v"] = constant.BoolVal(v.Value)
		case constant.String:
			m["v"] = []byte(constant.StringVal(v.Value))
			m["str"] = true
		case constant.Int:
			m["v"] = v.Value.ExactString()
			m["int"] = true
		default:
			if iv := constant.ToInt(v.Value); iv.Kind() == constant.Int {
				m["v"] = iv.ExactString()
				m["int"] = true
			} else {
				m["v"] = v.Value.ExactString()
				m["float"] = true
			}
		}
		return m
	case *ssa.Global:
		n := v.Name()
		if v.Pkg != nil {
			n = v.Pkg.Pkg.Path() + "." + n
		}
		return M{"k": "global", "n": n, "t": tstr(v.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": fname(v), "t": tstr(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name()}
	case *ssa.Parameter:
		return M{"k": "reg", "n": "p$" + v.Name() + "$" + fmt.Sprint(paramIndex(v)), "t": tstr(v.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": "f$" + v.Name(), "t": tstr(v.Type())}
	}
	return M{"k": "reg", "n": v.Name(), "t": tstr(v.Type())}
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if p == q {
			return i
		}
	}
	return -1
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func fname(f *ssa.Function) string { return f.String() }

func call(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["iface"] = tstr(c.Value.Type())
		m["sig"] = tstr(c.Method.Type())
	} else {
		m["fn"] = val(c.Value)
		m["sig"] = tstr(c.Signature())
	}
	return m
}

func instr(i ssa.Instruction) M {
	m := M{"pos": pos(i.Pos())}
	if v, ok := i.(ssa.Value); ok {
		m["reg"] = v.Name()
		m["type"] = tstr(v.Type())
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		m["op"], m["heap"], m["elem"], m["comment"] = "Alloc", i.Heap, tstr(i.Type().Underlying().(*types.Pointer).Elem()), i.Comment
	case *ssa.Phi:
		m["op"], m["edges"], m["comment"] = "Phi", vals(i.Edges), i.Comment
	case *ssa.Call:
		m["op"], m["call"] = "Call", call(&i.Call)
	case *ssa.BinOp:
		m["op"], m["tok"], m["x"], m["y"] = "BinOp", i.Op.String(), val(i.X), val(i.Y)
	case *ssa.UnOp:
		m["op"], m["tok"], m["x"], m["commaok"] = "UnOp", i.Op.String(), val(i.X), i.CommaOk
	case *ssa.ChangeType:
		m["op"], m["x"] = "ChangeType", val(i.X)
	case *ssa.Convert:
		m["op"], m["x"] = "Convert", val(i.X)
	case *ssa.MultiConvert:
		m["op"], m["x"] = "Convert", val(i.X)
	case *ssa.ChangeInterface:
		m["op"], m["x"] = "ChangeInterface", val(i.X)
	case *ssa.MakeInterface:
		m["op"], m["x"] = "MakeInterface", val(i.X)
	case *ssa.MakeClosure:
		m["op"], m["fn"], m["bindings"] = "MakeClosure", val(i.Fn), vals(i.Bindings)
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeChan:
		m["op"], m["size"] = "MakeChan", val(i.Size)
	case *ssa.MakeSlice:
		m["op"], m["len"], m["cap"] = "MakeSlice", val(i.Len), val(i.Cap)
	case *ssa.Slice:
		m["op"], m["x"], m["low"], m["high"], m["max"] = "Slice", val(i.X), nv(i.Low), nv(i.High), nv(i.Max)
	case *ssa.SliceToArrayPointer:
		m["op"], m["x"] = "SliceToArrayPointer", val(i.X)
	case *ssa.FieldAddr:
		m["op"], m["x"], m["field"] = "FieldAddr", val(i.X), i.Field
	case *ssa.Field:
		m["op"], m["x"], m["field"] = "Field", val(i.X), i.Field
	case *ssa.IndexAddr:
		m["op"], m["x"], m["index"] = "IndexAddr", val(i.X), val(i.Index)
	case *ssa.Index:
		m["op"], m["x"], m["index"] = "Index", val(i.X), val(i.Index)
	case *ssa.Lookup:
		m["op"], m["x"], m["index"], m["commaok"] = "Lookup", val(i.X), val(i.Index), i.CommaOk
	case *ssa.Select:
		st := []any{}
		for _, s := range i.States {
			st = append(st, M{"dir": int(s.Dir), "chan": val(s.Chan), "send": nv(s.Send)})
		}
		m["op"], m["states"], m["blocking"] = "Select", st, i.Blocking
	case *ssa.Range:
		m["op"], m["x"] = "Range", val(i.X)
	case *ssa.Next:
		m["op"], m["x"], m["isstring"] = "Next", val(i.Iter), i.IsString
	case *ssa.TypeAssert:
		m["op"], m["x"], m["asserted"], m["commaok"] = "TypeAssert", val(i.X), tstr(i.AssertedType), i.CommaOk
	case *ssa.Extract:
		m["op"], m["x"], m["index"] = "Extract", val(i.Tuple), i.Index
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.If:
		m["op"], m["cond"] = "If", val(i.Cond)
	case *ssa.Return:
		m["op"], m["results"] = "Return", vals(i.Results)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.Panic:
		m["op"], m["x"] = "Panic", val(i.X)
	case *ssa.Go:
		m["op"], m["call"] = "Go", call(&i.Call)
	case *ssa.Defer:
		m["op"], m["call"] = "Defer", call(&i.Call)
	case *ssa.Send:
		m["op"], m["chan"], m["x"] = "Send", val(i.Chan), val(i.X)
	case *ssa.Store:
		m["op"], m["addr"], m["x"] = "Store", val(i.Addr), val(i.Val)
	case *ssa.MapUpdate:
		m["op"], m["map"], m["key"], m["x"] = "MapUpdate", val(i.Map), val(i.Key), val(i.Value)
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = fmt.Sprintf("?%T", i)
	}
	return m
}

func nv(v ssa.Value) any {
	if v == nil {
		return nil
	}
	return val(v)
}

func function(f *ssa.Function) M {
	ps := []any{}
	for _, p := range f.Params {
		ps = append(ps, M{"name": p.Name(), "reg": val(p)["n"], "type": tstr(p.Type())})
	}
	fv := []any{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"name": p.Name(), "type": tstr(p.Type())})
	}
	bs := []any{}
	for _, b := range f.Blocks {
		is := []any{}
		for _, i := range b.Instrs {
			if m := instr(i); m != nil {
				is = append(is, m)
			}
		}
		pr, su := []int{}, []int{}
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		for _, p := range b.Succs {
			su = append(su, p.Index)
		}
		bs = append(bs, M{"i": b.Index, "instrs": is, "preds": pr, "succs": su, "comment": b.Comment})
	}
	m := M{"name": fname(f), "params": ps, "freevars": fv, "blocks": bs,
		"results": tuple(f.Signature.Results()), "variadic": f.Signature.Variadic(), "pos": pos(f.Pos()),
		"synthetic": f.Synthetic, "exported": f.Object() != nil && f.Object().Exported()}
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	if r := f.Signature.Recv(); r != nil {
		m["recv"] = tstr(r.Type())
	}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	return m
}

func main() {
	out := flag.String("o", "", "output")
	flag.StringVar(&dir, "dir", "/repo", "module directory")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	fset = prog.Fset
	mine := map[string]bool{}
	for i, p := range spkgs {
		if p == nil {
			fmt.Fprintln(os.Stderr, "no ssa for", pkgs[i].PkgPath)
			os.Exit(2)
		}
		p.Build()
		mine[p.Pkg.Path()] = true
		if pkgs[i].Module != nil {
			modpath = pkgs[i].Module.Path
		}
	}
	// method sets of the module's named types
	methods := M{}
	addMethods := func(t types.Type) {
		ms := prog.MethodSets.MethodSet(t)
		if ms.Len() == 0 {
			return
		}
		m := M{}
		for i := 0; i < ms.Len(); i++ {
			f := prog.MethodValue(ms.At(i))
			if f != nil {
				m[ms.At(i).Obj().Name()] = fname(f)
			}
		}
		methods[tstr(t)] = m
	}
	globals := []any{}
	for _, p := range spkgs {
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch mem := p.Members[n].(type) {
			case *ssa.Type:
				if _, ok := mem.Type().Underlying().(*types.Interface); !ok {
					addMethods(mem.Type())
					addMethods(types.NewPointer(mem.Type()))
				}
				tstr(mem.Type())
			case *ssa.Global:
				globals = append(globals, M{"name": p.Pkg.Path() + "." + n, "type": tstr(mem.Type().(*types.Pointer).Elem())})
			}
		}
	}
	funcs := M{}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if len(f.Blocks) == 0 {
			continue
		}
		in := f.Pkg != nil && mine[f.Pkg.Pkg.Path()]
		if f.Pkg == nil {
			in = true // wrapper, thunk or bound method
			if f.Origin() != nil && f.Origin().Pkg != nil && !mine[f.Origin().Pkg.Pkg.Path()] {
				in = false
			}
		}
		if in {
			funcs[fname(f)] = function(f)
		}
	}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		typeTab[types.TypeString(t, qual)] = describe(t)
	}
	res := M{"funcs": funcs, "types": typeTab, "methods": methods, "globals": globals, "module": modpath}
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if *out == "" {
		os.Stdout.Write(b)
	} else if err := os.WriteFile(*out, b, 0o644); err != nil {
		panic(err)
	}
}
