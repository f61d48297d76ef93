// exporter: loads /repo's packages, builds go/ssa (naive form, generic bodies kept
// generic) from the *current* working tree and dumps every function of the module as
// JSON.  Nothing is dropped: an instruction the verifier does not understand is still
// exported and makes the verifier report the function as unsupported.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	modPath  string
	typeIDs  = map[string]string{}
	typeDefs = map[string]M{}
	fset     *token.FileSet
	queue    []*ssa.Function
	seen     = map[*ssa.Function]bool{}
	names    = map[*ssa.Function]string{}
	globals  = map[string]M{}
	repoDir  string
)

func short(p string) string {
	if p == modPath {
		return "."
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func qual(p *types.Package) string { return short(p.Path()) }

func tstr(t types.Type) string { return types.TypeString(t, qual) }

// tid returns an id for a type, registering a structural definition.
func tid(t types.Type) string {
	t = types.Unalias(t)
	var key string
	if tp, ok := t.(*types.TypeParam); ok {
		key = "$" + tp.Obj().Name()
	} else {
		key = tkey(t)
	}
	if _, ok := typeDefs[key]; ok {
		return key
	}
	d := M{}
	typeDefs[key] = d
	switch t := t.(type) {
	case *types.Basic:
		d["k"] = "basic"
		d["name"] = t.Name()
	case *types.TypeParam:
		d["k"] = "tparam"
		d["name"] = t.Obj().Name()
		d["constraint"] = tstr(t.Constraint())
	case *types.Named:
		d["k"] = "named"
		o := t.Origin()
		name := o.Obj().Name()
		if o.Obj().Pkg() != nil {
			name = short(o.Obj().Pkg().Path()) + "." + name
		}
		d["name"] = name
		targs := []string{}
		if t.TypeArgs() != nil {
			for i := 0; i < t.TypeArgs().Len(); i++ {
				targs = append(targs, tid(t.TypeArgs().At(i)))
			}
		} else if t.TypeParams() != nil {
			for i := 0; i < t.TypeParams().Len(); i++ {
				targs = append(targs, tid(t.TypeParams().At(i)))
			}
		}
		d["targs"] = targs
		if o.Obj().Pkg() != nil && (strings.HasPrefix(o.Obj().Pkg().Path(), modPath)) || name == "error" {
			d["under"] = tid(t.Underlying())
		} else {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				d["opaque"] = "struct"
				if strings.HasPrefix(name, "gorm.io") && o.Obj().Name() == "DB" {
					d["under"] = tid(u)
				}
			case *types.Interface:
				d["opaque"] = "iface"
			default:
				d["under"] = tid(u)
			}
		}
	case *types.Pointer:
		d["k"] = "ptr"
		d["elem"] = tid(t.Elem())
	case *types.Slice:
		d["k"] = "slice"
		d["elem"] = tid(t.Elem())
	case *types.Array:
		d["k"] = "array"
		d["elem"] = tid(t.Elem())
		d["len"] = t.Len()
	case *types.Map:
		d["k"] = "map"
		d["key"] = tid(t.Key())
		d["elem"] = tid(t.Elem())
	case *types.Chan:
		d["k"] = "chan"
		d["elem"] = tid(t.Elem())
	case *types.Struct:
		d["k"] = "struct"
		fs := []M{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": tid(f.Type()), "emb": f.Embedded()})
		}
		d["fields"] = fs
	case *types.Signature:
		d["k"] = "func"
		ps, rs := []string{}, []string{}
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, tid(t.Params().At(i).Type()))
		}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, tid(t.Results().At(i).Type()))
		}
		d["params"], d["results"], d["variadic"] = ps, rs, t.Variadic()
	case *types.Interface:
		d["k"] = "iface"
		d["name"] = tstr(t)
	case *types.Tuple:
		d["k"] = "tuple"
		es := []string{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, tid(t.At(i).Type()))
		}
		d["elems"] = es
	default:
		d["k"] = "other"
		d["name"] = fmt.Sprintf("%T:%s", t, t)
	}
	return key
}

func terms(t *types.TypeParam) []string {
	ts := []string{}
	if iface, ok := t.Constraint().Underlying().(*types.Interface); ok {
		seen := map[string]bool{}
		var walk func(it *types.Interface)
		walk = func(it *types.Interface) {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				switch e := it.EmbeddedType(i).(type) {
				case *types.Union:
					for j := 0; j < e.Len(); j++ {
						if inner, ok := e.Term(j).Type().Underlying().(*types.Interface); ok {
							walk(inner)
							continue
						}
						s := tstr(e.Term(j).Type())
						if !seen[s] {
							seen[s] = true
							ts = append(ts, s)
						}
					}
				default:
					if inner, ok := e.Underlying().(*types.Interface); ok {
						walk(inner)
					}
				}
			}
		}
		walk(iface)
	}
	return ts
}

// tkey: canonical key in which type parameters appear as $Name
func tkey(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.TypeParam:
		return "$" + t.Obj().Name()
	case *types.Named:
		o := t.Origin()
		n := o.Obj().Name()
		if o.Obj().Pkg() != nil {
			n = short(o.Obj().Pkg().Path()) + "." + n
		}
		var l []string
		if t.TypeArgs() != nil {
			for i := 0; i < t.TypeArgs().Len(); i++ {
				l = append(l, tkey(t.TypeArgs().At(i)))
			}
		} else if t.TypeParams() != nil {
			for i := 0; i < t.TypeParams().Len(); i++ {
				l = append(l, tkey(t.TypeParams().At(i)))
			}
		}
		if len(l) > 0 {
			n += "[" + strings.Join(l, ",") + "]"
		}
		return n
	case *types.Pointer:
		return "*" + tkey(t.Elem())
	case *types.Slice:
		return "[]" + tkey(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), tkey(t.Elem()))
	case *types.Map:
		return "map[" + tkey(t.Key()) + "]" + tkey(t.Elem())
	case *types.Chan:
		return "chan " + tkey(t.Elem())
	case *types.Struct:
		var l []string
		for i := 0; i < t.NumFields(); i++ {
			l = append(l, t.Field(i).Name()+" "+tkey(t.Field(i).Type()))
		}
		return "struct{" + strings.Join(l, ";") + "}"
	case *types.Signature:
		var ps, rs []string
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, tkey(t.Params().At(i).Type()))
		}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, tkey(t.Results().At(i).Type()))
		}
		v := ""
		if t.Variadic() {
			v = "..."
		}
		return "func(" + strings.Join(ps, ",") + v + ")(" + strings.Join(rs, ",") + ")"
	case *types.Tuple:
		var l []string
		for i := 0; i < t.Len(); i++ {
			l = append(l, tkey(t.At(i).Type()))
		}
		return "(" + strings.Join(l, ",") + ")"
	case *types.Interface:
		return "iface " + tstr(t)
	}
	return tstr(t)
}

func fname(f *ssa.Function) string {
	if n, ok := names[f]; ok {
		return n
	}
	g := f
	if o := f.Origin(); o != nil {
		g = o
	}
	var n string
	if g.Parent() != nil {
		n = fname(g.Parent()) + "$" + strings.TrimPrefix(g.Name(), g.Parent().Name()+"$")
	} else {
		recv := g.Signature.Recv()
		pkg := ""
		if g.Pkg != nil {
			pkg = short(g.Pkg.Pkg.Path())
		} else if g.Object() != nil && g.Object().Pkg() != nil {
			pkg = short(g.Object().Pkg().Path())
		}
		if recv != nil {
			rt := types.Unalias(recv.Type())
			if p, ok := rt.(*types.Pointer); ok {
				rt = types.Unalias(p.Elem())
			}
			if nt, ok := rt.(*types.Named); ok {
				if pkg == "" && nt.Obj().Pkg() != nil {
					pkg = short(nt.Obj().Pkg().Path())
				}
				n = pkg + "." + nt.Origin().Obj().Name() + "." + g.Name()
			} else {
				n = pkg + "." + rt.String() + "." + g.Name()
			}
		} else if g.Synthetic != "" && strings.HasSuffix(g.Name(), "$bound") {
			// bound method wrapper
			fv := g.FreeVars[0].Type()
			n = "bound:" + tkey(fv) + "." + g.Name()
		} else {
			n = pkg + "." + g.Name()
		}
	}
	names[f] = n
	return n
}

func targs(f *ssa.Function) []string {
	r := []string{}
	for _, t := range f.TypeArgs() {
		r = append(r, tid(t))
	}
	return r
}

func cval(c *ssa.Const) M {
	m := M{"k": "const", "t": tid(c.Type())}
	if c.Value == nil {
		m["v"] = nil
		m["ck"] = "nil"
		return m
	}
	switch c.Value.Kind() {
	case constant.Bool:
		m["ck"] = "bool"
		m["v"] = constant.BoolVal(c.Value)
	case constant.String:
		m["ck"] = "string"
		b := []int{}
		for _, x := range []byte(constant.StringVal(c.Value)) {
			b = append(b, int(x))
		}
		m["v"] = b
	case constant.Int:
		m["ck"] = "int"
		m["v"] = c.Value.ExactString()
	case constant.Float:
		m["ck"] = "float"
		m["v"] = c.Value.ExactString()
	default:
		m["ck"] = "other"
		m["v"] = c.Value.ExactString()
	}
	return m
}

func val(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return cval(v)
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return M{"k": "param", "i": i, "t": tid(v.Type())}
			}
		}
		panic("param")
	case *ssa.FreeVar:
		for i, p := range v.Parent().FreeVars {
			if p == v {
				return M{"k": "free", "i": i, "t": tid(v.Type())}
			}
		}
		panic("freevar")
	case *ssa.Function:
		addFn(v)
		return M{"k": "func", "n": fname(v), "targs": targs(v), "t": tid(v.Type())}
	case *ssa.Global:
		n := v.Name()
		if v.Pkg != nil {
			n = short(v.Pkg.Pkg.Path()) + "." + n
		}
		globals[n] = M{"t": tid(v.Type())}
		return M{"k": "global", "n": n, "t": tid(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name(), "t": tid(v.Type())}
	default:
		return M{"k": "reg", "n": v.Name(), "t": tid(v.Type())}
	}
}

func addFn(f *ssa.Function) {
	if o := f.Origin(); o != nil {
		f = o
	}
	if seen[f] {
		return
	}
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if f.Parent() == nil && f.Synthetic == "" {
		return
	}
	if f.Pkg != nil && !strings.HasPrefix(p, modPath) {
		return
	}
	seen[f] = true
	queue = append(queue, f)
}

func call(c *ssa.CallCommon) M {
	m := M{}
	args := []any{}
	for _, a := range c.Args {
		args = append(args, val(a))
	}
	m["args"] = args
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["itype"] = tid(c.Value.Type())
		m["fn"] = val(c.Value)
	} else {
		m["fn"] = val(c.Value)
	}
	m["sig"] = tid(c.Signature())
	return m
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

func instr(in ssa.Instruction) M {
	m := M{"pos": pos(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		m["reg"] = v.Name()
		m["t"] = tid(v.Type())
	}
	set := func(op string, kv ...any) {
		m["op"] = op
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
	}
	switch i := in.(type) {
	case *ssa.Alloc:
		set("Alloc", "name", i.Comment, "heap", i.Heap)
	case *ssa.BinOp:
		set("BinOp", "o", i.Op.String(), "x", val(i.X), "y", val(i.Y))
	case *ssa.UnOp:
		set("UnOp", "o", i.Op.String(), "x", val(i.X), "commaok", i.CommaOk)
	case *ssa.Call:
		set("Call", "call", call(&i.Call))
	case *ssa.Defer:
		set("Defer", "call", call(&i.Call))
	case *ssa.Go:
		set("Go", "call", call(&i.Call))
	case *ssa.ChangeInterface:
		set("ChangeInterface", "x", val(i.X))
	case *ssa.ChangeType:
		set("ChangeType", "x", val(i.X))
	case *ssa.Convert:
		set("Convert", "x", val(i.X))
	case *ssa.MultiConvert:
		set("Convert", "x", val(i.X))
	case *ssa.SliceToArrayPointer:
		set("SliceToArrayPointer", "x", val(i.X))
	case *ssa.Extract:
		set("Extract", "x", val(i.Tuple), "i", i.Index)
	case *ssa.Field:
		set("Field", "x", val(i.X), "i", i.Field)
	case *ssa.FieldAddr:
		set("FieldAddr", "x", val(i.X), "i", i.Field)
	case *ssa.If:
		set("If", "x", val(i.Cond))
	case *ssa.Index:
		set("Index", "x", val(i.X), "y", val(i.Index))
	case *ssa.IndexAddr:
		set("IndexAddr", "x", val(i.X), "y", val(i.Index))
	case *ssa.Jump:
		set("Jump")
	case *ssa.Lookup:
		set("Lookup", "x", val(i.X), "y", val(i.Index), "commaok", i.CommaOk)
	case *ssa.MakeChan:
		set("MakeChan", "x", val(i.Size))
	case *ssa.MakeClosure:
		bs := []any{}
		for _, b := range i.Bindings {
			bs = append(bs, val(b))
		}
		set("MakeClosure", "fn", val(i.Fn), "b", bs)
	case *ssa.MakeInterface:
		set("MakeInterface", "x", val(i.X))
	case *ssa.MakeMap:
		set("MakeMap")
	case *ssa.MakeSlice:
		set("MakeSlice", "len", val(i.Len), "cap", val(i.Cap))
	case *ssa.MapUpdate:
		set("MapUpdate", "m", val(i.Map), "x", val(i.Key), "y", val(i.Value))
	case *ssa.Next:
		set("Next", "x", val(i.Iter), "str", i.IsString)
	case *ssa.Panic:
		set("Panic", "x", val(i.X))
	case *ssa.Phi:
		es := []any{}
		for _, e := range i.Edges {
			es = append(es, val(e))
		}
		set("Phi", "e", es, "name", i.Comment)
	case *ssa.Range:
		set("Range", "x", val(i.X))
	case *ssa.Return:
		rs := []any{}
		for _, r := range i.Results {
			rs = append(rs, val(r))
		}
		set("Return", "r", rs)
	case *ssa.RunDefers:
		set("RunDefers")
	case *ssa.Select:
		ss := []any{}
		for _, s := range i.States {
			ss = append(ss, M{"dir": int(s.Dir), "ch": val(s.Chan), "send": val(s.Send)})
		}
		set("Select", "states", ss, "blocking", i.Blocking)
	case *ssa.Send:
		set("Send", "ch", val(i.Chan), "x", val(i.X))
	case *ssa.Slice:
		set("Slice", "x", val(i.X), "lo", val(i.Low), "hi", val(i.High), "max", val(i.Max))
	case *ssa.Store:
		set("Store", "a", val(i.Addr), "x", val(i.Val))
	case *ssa.TypeAssert:
		set("TypeAssert", "x", val(i.X), "at", tid(i.AssertedType), "commaok", i.CommaOk)
	case *ssa.DebugRef:
		return nil
	default:
		set(fmt.Sprintf("%T", in))
	}
	return m
}

func export(f *ssa.Function) M {
	m := M{"name": fname(f), "pos": pos(f.Pos()), "synthetic": f.Synthetic}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"name": p.Name(), "t": tid(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"name": p.Name(), "t": tid(p.Type())})
	}
	m["free"] = fv
	rs := []M{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		r := f.Signature.Results().At(i)
		rs = append(rs, M{"name": r.Name(), "t": tid(r.Type())})
	}
	m["results"] = rs
	tps := []M{}
	if l := f.TypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			tps = append(tps, M{"n": "$" + l.At(i).Obj().Name(), "terms": terms(l.At(i))})
			tid(l.At(i))
		}
	}
	m["tparams"] = tps
	m["method"] = f.Signature.Recv() != nil
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	m["exported"] = f.Object() != nil && f.Object().Exported()
	bs := []M{}
	for _, b := range f.Blocks {
		is := []M{}
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				is = append(is, x)
			}
		}
		succ, pred := []int{}, []int{}
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		idom := -1
		if b.Idom() != nil {
			idom = b.Idom().Index
		}
		bs = append(bs, M{"i": b.Index, "succ": succ, "pred": pred, "idom": idom, "ins": is, "c": b.Comment})
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	return m
}

func main() {
	repoDir = os.Args[1]
	out := os.Args[2]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repoDir, Tests: false}
	pats := []string{"./..."}
	if len(os.Args) > 3 {
		pats = os.Args[3:]
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
		}
		fset = p.Fset
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.NaiveForm)
	prog.Build()
	var all []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		all = append(all, f)
	}
	_ = spkgs
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		var ms []string
		for n := range sp.Members {
			ms = append(ms, n)
		}
		sort.Strings(ms)
		for _, n := range ms {
			switch x := sp.Members[n].(type) {
			case *ssa.Function:
				addFn(x)
			case *ssa.Type:
				tid(x.Type())
				if nt, ok := types.Unalias(x.Type()).(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						if fn := prog.FuncValue(nt.Method(i)); fn != nil {
							addFn(fn)
						}
					}
				}
			}
		}
	}
	fns := M{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
		if len(f.Blocks) == 0 {
			continue
		}
		e := export(f)
		fns[e["name"].(string)] = e
	}
	b, err := json.MarshalIndent(M{"module": modPath, "types": typeDefs, "funcs": fns, "globals": globals}, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
}
