// Command mutate lists single-edit mutants of the non-test Go files of a tree, one JSON object per line
// (development aid: see tools/mutants.py).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File string
	Line int
	Off  int
	Len  int
	New  string
	Old  string
	Kind string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"}, token.AND_NOT: {"&"},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(root, p)
		emit := func(kind string, pos, end token.Pos, repl string) {
			a, b := fset.Position(pos).Offset, fset.Position(end).Offset
			enc.Encode(mutant{rel, fset.Position(pos).Line, a, b - a, repl, string(src[a:b]), kind})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseUint(x.Value, 0, 64)
					if err == nil {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				emit("iftrue", x.Cond.Pos(), x.Cond.End(), "("+string(src[fset.Position(x.Cond.Pos()).Offset:fset.Position(x.Cond.End()).Offset])+") || true")
				emit("iffalse", x.Cond.Pos(), x.Cond.End(), "("+string(src[fset.Position(x.Cond.Pos()).Offset:fset.Position(x.Cond.End()).Offset])+") && false")
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					emit("branch", x.Pos(), x.End(), "continue")
				} else if x.Label == nil && x.Tok == token.CONTINUE {
					emit("branch", x.Pos(), x.End(), "break")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
						emit("del", s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							emit("del", s.Pos(), s.End(), "")
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						emit("del", s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							emit("del", s.Pos(), s.End(), "")
						}
					}
				}
			}
			return true
		})
		return nil
	})
}
