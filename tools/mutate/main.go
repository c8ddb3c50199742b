// mutate FILE...: lists small changes of Go files, one JSON object a line: file, start, end, new text, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, New, What, Func string
	Line, Start, End      int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(a, b token.Pos, s, what string) {
				enc.Encode(mut{file, s, what + ": " + string(src[off(a):off(b)]), fd.Name.Name, fs.Position(a).Line, off(a), off(b)})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CallExpr: // texts of errors and panics
					if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || s.Sel.Name == "Fatalf" || s.Sel.Name == "Printf" || s.Sel.Name == "Logf") {
						return false
					}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						if x, ok := s.X.(*ast.Ident); ok && x.Name == "errors" {
							return false
						}
					}
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return false
					}
				case *ast.BinaryExpr:
					for _, r := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}}[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "operator")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), "number")
							if v > 0 {
								emit(n.Pos(), n.End(), fmt.Sprint(v-1), "number")
							}
						}
					}
					if n.Kind == token.STRING && len(n.Value) > 2 {
						emit(n.Pos(), n.End(), `""`, "string")
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "!("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")", "condition")
					if n.Else == nil {
						emit(n.Cond.Pos(), n.Cond.End(), "("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+") && false", "never")
					}
				case *ast.BranchStmt:
					if n.Label == nil {
						if n.Tok == token.BREAK {
							emit(n.Pos(), n.End(), "continue", "branch")
						} else if n.Tok == token.CONTINUE {
							emit(n.Pos(), n.End(), "break", "branch")
						}
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
					emit(n.Pos(), n.End(), "", "statement")
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN {
						emit(n.Pos(), n.End(), "", "statement")
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok {
							if id.Name == "true" {
								emit(id.Pos(), id.End(), "false", "result")
							} else if id.Name == "false" {
								emit(id.Pos(), id.End(), "true", "result")
							} else if id.Name == "err" {
								emit(id.Pos(), id.End(), "nil", "result")
							}
						}
					}
				case *ast.CaseClause:
					for i, e := range n.List {
						if len(n.List) > 1 {
							a, b := e.Pos(), e.End()
							if i == 0 {
								b = n.List[1].Pos()
							} else {
								a = n.List[i-1].End()
							}
							emit(a, b, "", "case")
						}
					}
				}
				return true
			})
		}
	}
}
