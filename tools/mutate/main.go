// mutate lists small changes of Go source files as JSON lines {file,start,end,new,desc}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Desc  string `json:"desc"`
}

var swap = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, n, d string) {
			s, e := off(a), off(b)
			old := string(src[s:e])
			if len(old) > 60 {
				old = old[:60]
			}
			enc.Encode(mut{file, fs.Position(a).Line, s, e, n, fmt.Sprintf("%s: `%s` -> `%s`", d, strings.ReplaceAll(old, "\n", " "), strings.ReplaceAll(n, "\n", " "))})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var loops []string
		var walk func(n ast.Node)
		visit := func(n ast.Node) {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
				}
				if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL {
					emit(x.Pos(), x.End(), text(x.X), "drop right")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x.Pos(), x.End(), strconv.Itoa(v+1), "int")
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.Itoa(v-1), "int")
						}
					}
				} else if x.Kind == token.FLOAT {
					if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
						if v == 0 {
							emit(x.Pos(), x.End(), "1.0", "float")
						} else {
							emit(x.Pos(), x.End(), fmt.Sprint(v*2)+"", "float")
						}
					}
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "delete")
					switch x.Tok {
					case token.ADD_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "-=", "assign")
						emit(x.TokPos, x.TokPos+2, "=", "assign")
					case token.SUB_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "+=", "assign")
					case token.MUL_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "/=", "assign")
						emit(x.TokPos, x.TokPos+2, "=", "assign")
					case token.QUO_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "*=", "assign")
					}
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.BranchStmt:
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.UnaryExpr:
				if x.Op == token.SUB || x.Op == token.NOT {
					emit(x.OpPos, x.OpPos+1, "", "unary")
				}
			case *ast.IndexExpr:
				if id, ok := x.Index.(*ast.Ident); ok {
					for _, l := range loops {
						if l != id.Name && l != "_" {
							emit(x.Index.Pos(), x.Index.End(), l, "index")
						}
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					if text(a) != text(b) {
						emit(a.Pos(), b.End(), text(b)+", "+text(a), "swap args")
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 && text(x.Results[0]) == "nil" {
					return
				}
			}
		}
		walk = func(n ast.Node) {
			ast.Inspect(n, func(m ast.Node) bool {
				if m == nil {
					return false
				}
				if _, ok := m.(*ast.ImportSpec); ok {
					return false
				}
				if m != n {
					var vars []string
					switch x := m.(type) {
					case *ast.ForStmt:
						if a, ok := x.Init.(*ast.AssignStmt); ok {
							for _, l := range a.Lhs {
								vars = append(vars, text(l))
							}
						}
					case *ast.RangeStmt:
						if x.Key != nil {
							vars = append(vars, text(x.Key))
						}
					}
					if vars != nil {
						old := loops
						loops = append(append([]string{}, loops...), vars...)
						visit(m)
						walk(m)
						loops = old
						return false
					}
					visit(m)
				}
				return true
			})
		}
		walk(f)
	}
}
