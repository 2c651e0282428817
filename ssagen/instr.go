// Instrumentation of the packages for trace comparison: every condition, short-circuit
// operand, non-constant index, aggregate comparison and big.Int operand is reported.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

const sinkSrc = `
// VerifTrace is the trace of the current execution.
var VerifTrace []uint64
var VerifOn bool

func verifEv(site int, v uint64) {
	if VerifOn && len(VerifTrace) < 1<<24 {
		VerifTrace = append(VerifTrace, uint64(site)<<48^v&0xffffffffffff)
	}
}

func VerifVC(site int, c bool) bool {
	v := uint64(0)
	if c {
		v = 1
	}
	verifEv(site, v)
	return c
}

func VerifVI(site int, i int) int { verifEv(site, uint64(i)); return i }

func VerifVB(site int, x *big.Int) *big.Int {
	if VerifOn && x != nil {
		h := uint64(14695981039346656037)
		for _, c := range x.Bytes() {
			h = (h ^ uint64(c)) * 1099511628211
		}
		verifEv(site, h)
	}
	return x
}
`

type edit struct {
	off, depth int
	post       bool
	text       string
}

type instr struct {
	info  *types.Info
	fset  *token.FileSet
	src   []byte
	edits []edit
	sites *[]string
	root  string
}

func (p *instr) site(pos token.Pos) int {
	q := p.fset.Position(pos)
	f, _ := filepath.Rel(p.root, q.Filename)
	*p.sites = append(*p.sites, fmt.Sprintf("%s:%d", f, q.Line))
	return len(*p.sites) - 1
}

func (p *instr) wrap(e ast.Expr, depth int, pre, post string) {
	p.edits = append(p.edits, edit{p.fset.Position(e.Pos()).Offset, depth, false, pre}, edit{p.fset.Position(e.End()).Offset, depth, true, post})
}

func (p *instr) insert(pos token.Pos, depth int, text string) {
	p.edits = append(p.edits, edit{p.fset.Position(pos).Offset, depth, false, text})
}

func (p *instr) isConst(e ast.Expr) bool {
	return p.info.Types[e].Value != nil
}

func (p *instr) cond(e ast.Expr, depth int, what string) {
	if e == nil || p.isConst(e) {
		return
	}
	p.wrap(e, depth, fmt.Sprintf("verifVC(%d, bool(", p.site(e.Pos())), "))")
}

func (p *instr) idx(e ast.Expr, depth int) {
	if e == nil || p.isConst(e) {
		return
	}
	p.wrap(e, depth, fmt.Sprintf("verifVI(%d, int(", p.site(e.Pos())), "))")
}

func isBig(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "*math/big.Int"
}

type visitor struct {
	p     *instr
	depth int
}

func (v visitor) Visit(n ast.Node) ast.Visitor {
	p, d := v.p, v.depth*4
	switch x := n.(type) {
	case nil:
		return nil
	case *ast.GenDecl:
		if x.Tok == token.CONST || x.Tok == token.TYPE || x.Tok == token.IMPORT {
			return nil
		}
	case *ast.ArrayType:
		return nil
	case *ast.IfStmt:
		p.cond(x.Cond, d, "if")
	case *ast.ForStmt:
		p.cond(x.Cond, d, "for")
	case *ast.RangeStmt:
		p.insert(x.Body.Lbrace+1, d, fmt.Sprintf(" verifVC(%d, true); ", p.site(x.Pos())))
	case *ast.CaseClause:
		if len(x.Body) > 0 {
			p.insert(x.Body[0].Pos(), d, fmt.Sprintf("verifVC(%d, true); ", p.site(x.Pos())))
		}
	case *ast.BinaryExpr:
		if p.isConst(x) {
			return nil
		}
		switch x.Op {
		case token.LAND, token.LOR:
			p.cond(x.X, d+1, "left")
		case token.EQL, token.NEQ:
			t := p.info.TypeOf(x.X)
			if t != nil {
				switch u := t.Underlying().(type) {
				case *types.Array, *types.Struct:
					p.wrap(x, d+1, fmt.Sprintf("verifVC(%d, bool(", p.site(x.Pos())), "))")
				case *types.Basic:
					if u.Info()&types.IsString != 0 {
						p.wrap(x, d+1, fmt.Sprintf("verifVC(%d, bool(", p.site(x.Pos())), "))")
					}
				}
			}
		}
	case *ast.IndexExpr:
		t := p.info.TypeOf(x.X)
		if t == nil {
			return v.next()
		}
		u := t.Underlying()
		if q, ok := u.(*types.Pointer); ok {
			u = q.Elem().Underlying()
		}
		switch b := u.(type) {
		case *types.Array, *types.Slice:
			p.idx(x.Index, d+2)
		case *types.Basic:
			if b.Info()&types.IsString != 0 {
				p.idx(x.Index, d+2)
			}
		}
	case *ast.SliceExpr:
		for _, e := range []ast.Expr{x.Low, x.High, x.Max} {
			p.idx(e, d+2)
		}
	case *ast.CallExpr:
		var obj types.Object
		switch f := x.Fun.(type) {
		case *ast.SelectorExpr:
			obj = p.info.Uses[f.Sel]
			if fn, ok := obj.(*types.Func); ok && fn.Pkg() != nil && fn.Pkg().Path() == "math/big" {
				for _, a := range x.Args {
					if isBig(p.info.TypeOf(a)) {
						p.wrap(a, d+3, fmt.Sprintf("verifVB(%d, ", p.site(a.Pos())), ")")
					}
				}
			}
		}
		if fn, ok := obj.(*types.Func); ok && fn.Pkg() != nil && (fn.Pkg().Path() == "bytes" || fn.Pkg().Path() == "strings" || fn.Pkg().Path() == "reflect") {
			if res := fn.Type().(*types.Signature).Results(); res.Len() == 1 {
				switch types.TypeString(res.At(0).Type(), nil) {
				case "bool":
					p.wrap(x, d+3, fmt.Sprintf("verifVC(%d, ", p.site(x.Pos())), ")")
				case "int":
					p.wrap(x, d+3, fmt.Sprintf("verifVI(%d, ", p.site(x.Pos())), ")")
				}
			}
		}
	}
	return v.next()
}

func (v visitor) next() ast.Visitor { return visitor{v.p, v.depth + 1} }

func instrument(pkgs []*packages.Package, root, out, edpath string) {
	var sites []string
	repl := map[string]string{}
	for _, pk := range pkgs {
		if len(pk.GoFiles) == 0 || (pk.PkgPath != edpath && !strings.HasSuffix(edpath, pk.PkgPath+"/edwards25519")) {
			continue
		}
		for i, f := range pk.Syntax {
			name := pk.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			p := &instr{pk.TypesInfo, pk.Fset, src, nil, &sites, root}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					ast.Walk(visitor{p, 1}, fd.Body)
				}
			}
			sort.SliceStable(p.edits, func(a, b int) bool {
				x, y := p.edits[a], p.edits[b]
				if x.off != y.off {
					return x.off < y.off
				}
				if x.post != y.post {
					return x.post
				}
				if x.post {
					return x.depth > y.depth
				}
				return x.depth < y.depth
			})
			var o strings.Builder
			last := 0
			for _, e := range p.edits {
				o.Write(src[last:e.off])
				o.WriteString(e.text)
				last = e.off
			}
			o.Write(src[last:])
			w := filepath.Join(out, fmt.Sprintf("i_%d_%s", len(repl), filepath.Base(name)))
			if err := os.WriteFile(w, []byte(o.String()), 0644); err != nil {
				panic(err)
			}
			repl[name] = w
		}
		dir := filepath.Dir(pk.GoFiles[0])
		w := filepath.Join(out, "trace_"+pk.Name+".go")
		s := "package " + pk.Name + "\n\n"
		if pk.PkgPath == edpath {
			s += "import \"math/big\"\n" + sinkSrc + "\nvar verifVC, verifVI, verifVB = VerifVC, VerifVI, VerifVB\n"
		} else {
			s += "import verifed \"" + edpath + "\"\n\nvar verifVC, verifVI, verifVB = verifed.VerifVC, verifed.VerifVI, verifed.VerifVB\n"
		}
		os.WriteFile(w, []byte(s), 0644)
		repl[filepath.Join(dir, "zz_verif_trace.go")] = w
	}
	b, _ := json.Marshal(J{"Replace": repl, "Sites": sites})
	os.WriteFile(filepath.Join(out, "instr.json"), b, 0644)
}
