package main

// Instrumentation of concurrent packages, on every run and from the current source: package sync is replaced by
// zz_verif/vs, and the fields behind pointers and package variables that each statement reads and writes are reported to
// it. Only text is inserted, on the lines as they are.

import (
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

func instrument(c *Check, ov map[string]string, scratch string) {
	if len(c.Instrument) == 0 {
		return
	}
	vs := filepath.Join(verifDir, "harness", "vs")
	ents, err := os.ReadDir(vs)
	if err != nil {
		fatalf("%v", err)
	}
	for _, e := range ents {
		ov[filepath.Join(repoDir, "zz_verif", "vs", e.Name())] = filepath.Join(vs, e.Name())
	}
	var pats []string
	for _, p := range c.Instrument {
		pats = append(pats, repoModule+"/"+p)
	}
	overlay := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			fatalf("overlay: %v", err)
		}
		overlay[k] = b
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: repoDir, Env: goEnv(), Overlay: overlay}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fatalf("loading packages: %v", err)
	}
	if n := packages.PrintErrors(pkgs); n > 0 {
		fatalf("%d errors loading the code under test (does /repo build?)", n)
	}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.File(f.Pos()).Name()
			src, ok := overlay[name]
			if !ok {
				if src, err = os.ReadFile(name); err != nil {
					fatalf("%v", err)
				}
			}
			out := filepath.Join(scratch, "vs-"+strings.ReplaceAll(strings.TrimPrefix(name, repoDir+"/"), "/", "-"))
			x := &instr{p: p, f: f, src: src}
			if err := os.WriteFile(out, x.do(), 0o644); err != nil {
				fatalf("%v", err)
			}
			ov[name] = out
		}
	}
}

type instr struct {
	p   *packages.Package
	f   *ast.File
	src []byte
	ins []insertion
}

type insertion struct {
	at, end int
	text    string
}

func (x *instr) off(p token.Pos) int { return x.p.Fset.Position(p).Offset }

func (x *instr) do() []byte {
	const vsPath = repoModule + "/zz_verif/vs"
	x.ins = append(x.ins, insertion{x.off(x.f.Name.End()), x.off(x.f.Name.End()), "; import zz_vs \"" + vsPath + "\""})
	for _, im := range x.f.Imports {
		if im.Path.Value == `"sync"` {
			t := `"` + vsPath + `"`
			if im.Name == nil {
				t = "sync " + t
			}
			x.ins = append(x.ins, insertion{x.off(im.Path.Pos()), x.off(im.Path.End()), t})
		}
	}
	used := len(x.ins)
	ast.Inspect(x.f, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.BlockStmt:
			x.list(s.List)
		case *ast.CaseClause:
			x.list(s.Body)
		case *ast.CommClause:
			x.list(s.Body)
		}
		return true
	})
	out := []byte{}
	if used == len(x.ins) {
		x.ins = x.ins[1:] // nothing refers to vs
	}
	sort.SliceStable(x.ins, func(i, j int) bool { return x.ins[i].at < x.ins[j].at })
	last := 0
	for _, i := range x.ins {
		out = append(out, x.src[last:i.at]...)
		out = append(out, i.text...)
		last = i.end
	}
	return append(out, x.src[last:]...)
}

func (x *instr) list(l []ast.Stmt) {
	for _, s := range l {
		a := &accesses{x: x, seen: map[string]bool{}}
		inner := s
		for {
			ls, ok := inner.(*ast.LabeledStmt)
			if !ok {
				break
			}
			inner = ls.Stmt
		}
		a.from, a.to = s.Pos(), s.End()
		a.stmt(inner)
		if len(a.out) > 0 {
			x.ins = append(x.ins, insertion{x.off(s.Pos()), x.off(s.Pos()), strings.Join(a.out, "; ") + "; "})
		}
	}
}

// accesses collects what one statement, without the blocks in it, certainly reads and writes.
type accesses struct {
	x        *instr
	from, to token.Pos
	out      []string
	seen     map[string]bool
}

func (a *accesses) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, r := range s.Rhs {
			a.read(r)
		}
		for _, l := range s.Lhs {
			if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
				a.read(l)
			}
			if s.Tok != token.DEFINE {
				a.write(l)
			}
		}
	case *ast.IncDecStmt:
		a.read(s.X)
		a.write(s.X)
	case *ast.ExprStmt:
		a.read(s.X)
	case *ast.SendStmt:
		a.read(s.Chan)
		a.read(s.Value)
	case *ast.ReturnStmt:
		for _, r := range s.Results {
			a.read(r)
		}
	case *ast.DeferStmt:
		a.call(s.Call)
	case *ast.GoStmt:
		a.call(s.Call)
	case *ast.DeclStmt:
		if d, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range d.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					for _, e := range v.Values {
						a.read(e)
					}
				}
			}
		}
	case *ast.IfStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		a.read(s.Cond)
	case *ast.ForStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		if s.Cond != nil {
			a.read(s.Cond)
		}
	case *ast.RangeStmt:
		a.read(s.X)
	case *ast.SwitchStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		if s.Tag != nil {
			a.read(s.Tag)
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			a.stmt(s.Init)
		}
		a.stmt(s.Assign)
	}
}

// call is a call that happens later: its operands are evaluated now.
func (a *accesses) call(c *ast.CallExpr) {
	for _, e := range c.Args {
		a.read(e)
	}
}

func (a *accesses) read(e ast.Expr) {
	switch e := e.(type) {
	case nil:
	case *ast.Ident:
		a.mark("R", e)
	case *ast.ParenExpr:
		a.read(e.X)
	case *ast.SelectorExpr:
		if a.x.p.TypesInfo.Selections[e] == nil {
			a.mark("R", e)
			return
		}
		a.read(e.X)
		a.mark("R", e)
	case *ast.IndexExpr:
		a.read(e.X)
		a.read(e.Index)
	case *ast.SliceExpr:
		a.read(e.X)
		a.read(e.Low)
		a.read(e.High)
		a.read(e.Max)
	case *ast.StarExpr:
		a.read(e.X)
	case *ast.TypeAssertExpr:
		a.read(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			// the address is taken: nothing is read but what leads to it
			if s, ok := e.X.(*ast.SelectorExpr); ok {
				a.read(s.X)
				return
			}
			if _, ok := e.X.(*ast.Ident); ok {
				return
			}
		}
		a.read(e.X)
	case *ast.BinaryExpr:
		a.read(e.X)
		if e.Op != token.LAND && e.Op != token.LOR {
			a.read(e.Y)
		}
	case *ast.KeyValueExpr:
		a.read(e.Value)
	case *ast.CompositeLit:
		for _, v := range e.Elts {
			a.read(v)
		}
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok {
			if b, ok := a.x.p.TypesInfo.Uses[id].(*types.Builtin); ok && b.Name() == "delete" && len(e.Args) == 2 {
				a.mark("W", e.Args[0])
			}
		}
		if a.atomic(e) {
			a.add("zz_vs.A()")
			return
		}
		if s, ok := e.Fun.(*ast.SelectorExpr); ok {
			if sel := a.x.p.TypesInfo.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
				// a method with a pointer receiver takes the address of its receiver
				if sig, ok := sel.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
					_, ptr := sig.Recv().Type().(*types.Pointer)
					_, isPtr := a.x.p.TypesInfo.TypeOf(s.X).Underlying().(*types.Pointer)
					if ptr && !isPtr {
						if s2, ok := s.X.(*ast.SelectorExpr); ok {
							a.read(s2.X)
						}
					} else {
						a.read(s.X)
					}
				}
			} else {
				a.read(s)
			}
		}
		for _, v := range e.Args {
			a.read(v)
		}
	}
}

func (a *accesses) atomic(e *ast.CallExpr) bool {
	s, ok := e.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	o := a.x.p.TypesInfo.Uses[s.Sel]
	return o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic"
}

func (a *accesses) write(e ast.Expr) {
	switch e := e.(type) {
	case *ast.Ident:
		a.mark("W", e)
	case *ast.ParenExpr:
		a.write(e.X)
	case *ast.SelectorExpr:
		if a.x.p.TypesInfo.Selections[e] != nil {
			a.read(e.X)
		}
		a.mark("W", e)
	case *ast.IndexExpr:
		a.read(e.X)
		a.read(e.Index)
		if t := a.x.p.TypesInfo.TypeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Map); ok {
				a.mark("W", e.X)
			}
		}
	case *ast.StarExpr:
		a.read(e.X)
	}
}

// mark reports an access to a package variable or to a field of a struct behind a pointer.
func (a *accesses) mark(op string, e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	tv, ok := a.x.p.TypesInfo.Types[e]
	if ok && !tv.Addressable() || a.ofSync(a.x.p.TypesInfo.TypeOf(e)) {
		return
	}
	if !a.shared(e) || !a.simple(e) {
		return
	}
	var sb strings.Builder
	printer.Fprint(&sb, a.x.p.Fset, e)
	a.add("zz_vs." + op + "(&" + sb.String() + ")")
}

func (a *accesses) add(t string) {
	if !a.seen[t] {
		a.seen[t] = true
		a.out = append(a.out, t)
	}
}

func (a *accesses) ofSync(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return t == nil
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

func (a *accesses) pkgVar(id *ast.Ident) bool {
	v, ok := a.x.p.TypesInfo.Uses[id].(*types.Var)
	return ok && !v.IsField() && v.Parent() == a.x.p.Types.Scope()
}

func (a *accesses) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return a.pkgVar(e)
	case *ast.ParenExpr:
		return a.shared(e.X)
	case *ast.SelectorExpr:
		sel := a.x.p.TypesInfo.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		return sel.Indirect() || a.shared(e.X)
	}
	return false
}

// simple reports whether the expression can be evaluated before the statement: it names no variable that the statement
// declares, and has no calls.
func (a *accesses) simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		o := a.x.p.TypesInfo.Uses[e]
		return o != nil && (o.Pos() < a.from || o.Pos() >= a.to)
	case *ast.ParenExpr:
		return a.simple(e.X)
	case *ast.StarExpr:
		return a.simple(e.X)
	case *ast.SelectorExpr:
		return a.x.p.TypesInfo.Selections[e] != nil && a.simple(e.X)
	}
	return false
}

var _ = fmt.Sprint
