// ssagen dumps the SSA form of the packages under /repo as JSON.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J map[string]interface{}

var typeTab = map[string]J{}

func typ(t types.Type) string {
	if t == nil {
		return ""
	}
	id := types.TypeString(t, nil)
	if _, ok := typeTab[id]; ok {
		return id
	}
	typeTab[id] = J{}
	d := J{}
	switch u := t.(type) {
	case *types.Named:
		d["k"] = "named"
		d["u"] = typ(u.Underlying())
	case *types.Alias:
		d["k"] = "named"
		d["u"] = typ(types.Unalias(u))
	case *types.Basic:
		d["k"] = "basic"
		d["n"] = u.Name()
	case *types.Pointer:
		d["k"] = "ptr"
		d["e"] = typ(u.Elem())
	case *types.Slice:
		d["k"] = "slice"
		d["e"] = typ(u.Elem())
	case *types.Array:
		d["k"] = "array"
		d["e"] = typ(u.Elem())
		d["len"] = u.Len()
	case *types.Struct:
		d["k"] = "struct"
		var fs []J
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, J{"n": u.Field(i).Name(), "t": typ(u.Field(i).Type())})
		}
		d["f"] = fs
	case *types.Tuple:
		d["k"] = "tuple"
		var es []string
		for i := 0; i < u.Len(); i++ {
			es = append(es, typ(u.At(i).Type()))
		}
		d["es"] = es
	case *types.Signature:
		d["k"] = "func"
	case *types.Interface:
		d["k"] = "iface"
	default:
		d["k"] = "other"
	}
	typeTab[id] = d
	return id
}

func val(v ssa.Value) J {
	switch x := v.(type) {
	case nil:
		return J{"k": "nil"}
	case *ssa.Const:
		r := J{"k": "const", "t": typ(x.Type())}
		if x.Value == nil {
			r["v"] = nil
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				r["v"] = constant.BoolVal(x.Value)
			case constant.String:
				r["v"] = constant.StringVal(x.Value)
				r["s"] = true
			case constant.Int:
				r["v"] = x.Value.ExactString()
			default:
				r["v"] = x.Value.ExactString()
			}
		}
		return r
	case *ssa.Global:
		return J{"k": "global", "n": x.String(), "t": typ(x.Type())}
	case *ssa.Function:
		need(x)
		return J{"k": "func", "n": fname(x)}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": x.Name()}
	default:
		return J{"k": "reg", "n": v.Name(), "t": typ(v.Type())}
	}
}

func fname(f *ssa.Function) string { return f.String() }

var done = map[*ssa.Function]bool{}
var queue []*ssa.Function

func need(f *ssa.Function) {
	if !done[f] {
		done[f] = true
		queue = append(queue, f)
	}
}

var bodyPkgs = map[string]bool{}

func dump(f *ssa.Function) J {
	fn := J{"n": fname(f), "short": f.Name(), "res": typ(f.Signature.Results())}
	if f.Pkg != nil {
		fn["pkg"] = f.Pkg.Pkg.Path()
	}
	var ps []J
	for _, p := range f.Params {
		ps = append(ps, J{"n": p.Name(), "t": typ(p.Type())})
	}
	if f.Params == nil && f.Blocks == nil {
		sig := f.Signature
		if sig.Recv() != nil {
			ps = append(ps, J{"n": "recv", "t": typ(sig.Recv().Type())})
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, J{"n": sig.Params().At(i).Name(), "t": typ(sig.Params().At(i).Type())})
		}
	}
	fn["params"] = ps
	var fvs []J
	for _, p := range f.FreeVars {
		fvs = append(fvs, J{"n": p.Name(), "t": typ(p.Type())})
	}
	fn["freevars"] = fvs
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		pk = f.Origin().Pkg.Pkg.Path()
	} else if f.Parent() != nil {
		pk = f.Parent().Pkg.Pkg.Path()
	}
	if f.Synthetic != "" && pk == "" {
		pk = "synthetic"
	}
	if f.Blocks == nil || !(bodyPkgs[pk] || pk == "synthetic") {
		fn["ext"] = true
		return fn
	}
	fset := f.Prog.Fset
	var blocks []J
	for _, b := range f.Blocks {
		var ins []J
		for _, in := range b.Instrs {
			d := J{}
			if v, ok := in.(ssa.Value); ok {
				d["r"] = v.Name()
				d["t"] = typ(v.Type())
			}
			if in.Pos().IsValid() {
				p := fset.Position(in.Pos())
				d["pos"] = fmt.Sprintf("%s:%d", p.Filename, p.Line)
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				d["op"] = "alloc"
				d["heap"] = x.Heap
			case *ssa.BinOp:
				d["op"] = "binop"
				d["o"] = x.Op.String()
				d["x"], d["y"] = val(x.X), val(x.Y)
			case *ssa.UnOp:
				d["op"] = "unop"
				d["o"] = x.Op.String()
				d["x"] = val(x.X)
				d["ok"] = x.CommaOk
			case *ssa.Call, *ssa.Defer, *ssa.Go:
				switch in.(type) {
				case *ssa.Call:
					d["op"] = "call"
				case *ssa.Defer:
					d["op"] = "defer"
				default:
					d["op"] = "go"
				}
				c := in.(ssa.CallInstruction).Common()
				if c.IsInvoke() {
					d["invoke"] = c.Method.Name()
				}
				d["f"] = val(c.Value)
				var as []J
				for _, a := range c.Args {
					as = append(as, val(a))
				}
				d["args"] = as
			case *ssa.ChangeType:
				d["op"] = "changetype"
				d["x"] = val(x.X)
			case *ssa.ChangeInterface:
				d["op"] = "changetype"
				d["x"] = val(x.X)
			case *ssa.Convert:
				d["op"] = "convert"
				d["x"] = val(x.X)
			case *ssa.MakeInterface:
				d["op"] = "makeiface"
				d["x"] = val(x.X)
			case *ssa.Extract:
				d["op"] = "extract"
				d["x"] = val(x.Tuple)
				d["i"] = x.Index
			case *ssa.Field:
				d["op"] = "field"
				d["x"] = val(x.X)
				d["i"] = x.Field
			case *ssa.FieldAddr:
				d["op"] = "fieldaddr"
				d["x"] = val(x.X)
				d["i"] = x.Field
			case *ssa.Index:
				d["op"] = "index"
				d["x"], d["y"] = val(x.X), val(x.Index)
			case *ssa.IndexAddr:
				d["op"] = "indexaddr"
				d["x"], d["y"] = val(x.X), val(x.Index)
			case *ssa.Phi:
				d["op"] = "phi"
				var es []J
				for _, e := range x.Edges {
					es = append(es, val(e))
				}
				d["es"] = es
			case *ssa.Slice:
				d["op"] = "slice"
				d["x"] = val(x.X)
				d["lo"], d["hi"], d["max"] = val(x.Low), val(x.High), val(x.Max)
			case *ssa.SliceToArrayPointer:
				d["op"] = "slice2arr"
				d["x"] = val(x.X)
			case *ssa.Store:
				d["op"] = "store"
				d["a"], d["x"] = val(x.Addr), val(x.Val)
			case *ssa.If:
				d["op"] = "if"
				d["x"] = val(x.Cond)
			case *ssa.Jump:
				d["op"] = "jump"
			case *ssa.Return:
				d["op"] = "return"
				var rs []J
				for _, e := range x.Results {
					rs = append(rs, val(e))
				}
				d["rs"] = rs
			case *ssa.Panic:
				d["op"] = "panic"
				d["x"] = val(x.X)
			case *ssa.MakeSlice:
				d["op"] = "makeslice"
				d["len"], d["cap"] = val(x.Len), val(x.Cap)
			case *ssa.MakeClosure:
				d["op"] = "makeclosure"
				d["f"] = val(x.Fn)
				var bs []J
				for _, b := range x.Bindings {
					bs = append(bs, val(b))
				}
				d["bs"] = bs
			case *ssa.TypeAssert:
				d["op"] = "typeassert"
				d["x"] = val(x.X)
				d["at"] = typ(x.AssertedType)
				d["ok"] = x.CommaOk
			case *ssa.RunDefers:
				d["op"] = "rundefers"
			case *ssa.DebugRef:
				continue
			case *ssa.Range:
				d["op"] = "range"
				d["x"] = val(x.X)
			case *ssa.Next:
				d["op"] = "next"
				d["x"] = val(x.Iter)
				d["str"] = x.IsString
			default:
				d["op"] = "unsupported"
				d["what"] = fmt.Sprintf("%T", in)
			}
			ins = append(ins, d)
		}
		var succ, pred []int
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		blocks = append(blocks, J{"i": ins, "s": succ, "p": pred})
	}
	fn["blocks"] = blocks
	return fn
}

func main() {
	dir := flag.String("dir", "/repo", "")
	tags := flag.String("tags", "", "")
	extra := flag.String("bodies", "encoding/binary,math/bits,internal/byteorder", "")
	instrOut := flag.String("instr", "", "write an instrumented copy of the sources into this directory instead")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir}
	if *tags != "" {
		cfg.BuildFlags = []string{"-tags=" + *tags}
	}
	pkgs, err := packages.Load(cfg, ".", "./edwards25519")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	if *instrOut != "" {
		instrument(pkgs, *dir, *instrOut, "github.com/bwesterb/go-ristretto/edwards25519")
		return
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	var names []string
	for _, p := range spkgs {
		p.Build()
		bodyPkgs[p.Pkg.Path()] = true
		names = append(names, p.Pkg.Path())
	}
	for _, e := range strings.Split(*extra, ",") {
		if p := prog.ImportedPackage(e); p != nil {
			p.Build()
			bodyPkgs[e] = true
		}
	}
	// all members and methods of the repository's packages
	for _, p := range spkgs {
		var ms []string
		for n := range p.Members {
			ms = append(ms, n)
		}
		sort.Strings(ms)
		for _, n := range ms {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				need(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					if f := prog.FuncValue(nt.Method(i)); f != nil {
						need(f)
					}
				}
			}
		}
	}
	funcs := J{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		funcs[fname(f)] = dump(f)
	}
	globals := J{}
	for _, p := range prog.AllPackages() {
		if !bodyPkgs[p.Pkg.Path()] {
			continue
		}
		for n, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				globals[g.String()] = typ(g.Type().(*types.Pointer).Elem())
				_ = n
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(J{"funcs": funcs, "types": typeTab, "globals": globals, "pkgs": names, "tags": *tags})
}
