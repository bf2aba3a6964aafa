// Command mutate lists small syntactic changes of Go files as JSON lines: {file, line, off, end, old, new}.
// It measures how well the checks see what the code does; see mutate.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	Off, End int
	Old, New string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, repl string) {
			old := string(src[off(a):off(b)])
			if old == repl {
				return
			}
			enc.Encode(mutant{f, fs.Position(a).Line, off(a), off(b), old, repl})
		}
		skip := func(n ast.Node) bool { // logging
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return false
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if ok {
				if x, ok := s.X.(*ast.Ident); ok && (x.Name == "log" || x.Name == "errors" || x.Name == "fmt" && strings.HasPrefix(s.Sel.Name, "Print")) {
					return true
				}
			}
			if x, ok := c.Fun.(*ast.Ident); ok && x.Name == "println" {
				return true
			}
			return false
		}
		ast.Inspect(af, func(n ast.Node) bool {
			if n == nil {
				return true
			}
			if skip(n) {
				return false
			}
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				var alt []string
				switch x.Op {
				case token.EQL:
					alt = []string{"!="}
				case token.NEQ:
					alt = []string{"=="}
				case token.LSS:
					alt = []string{"<=", ">="}
				case token.LEQ:
					alt = []string{"<", ">"}
				case token.GTR:
					alt = []string{">=", "<="}
				case token.GEQ:
					alt = []string{">", "<"}
				case token.LAND:
					alt = []string{"||"}
				case token.LOR:
					alt = []string{"&&"}
				case token.ADD:
					alt = []string{"-"}
				case token.SUB:
					alt = []string{"+"}
				case token.MUL:
					alt = []string{"/"}
				case token.QUO:
					alt = []string{"*"}
				case token.REM:
					alt = []string{"*"}
				case token.AND:
					alt = []string{"|"}
				case token.OR:
					alt = []string{"&"}
				case token.SHL:
					alt = []string{">>"}
				case token.SHR:
					alt = []string{"<<"}
				}
				for _, a := range alt {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
				}
				if x.Op == token.LAND || x.Op == token.LOR { // drop one side
					emit(x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]))
					emit(x.Pos(), x.End(), string(src[off(x.Y.Pos()):off(x.Y.End())]))
				}
			case *ast.IfStmt:
				if x.Init == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil {
						if v == "" {
							emit(x.Pos(), x.End(), `"x"`)
						} else {
							emit(x.Pos(), x.End(), strconv.Quote(v+"x"))
						}
					}
				case token.CHAR:
					emit(x.Pos(), x.End(), "'~'")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), "("+string(src[off(x.X.Pos()):off(x.X.End())])+")")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true")
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break")
				} else if x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "continue")
				}
			case *ast.ExprStmt:
				if !skip(x.X) {
					emit(x.Pos(), x.End(), "")
				}
			case *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				emit(n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), "")
				}
			case *ast.ReturnStmt:
				// return nil instead of an error
				if k := len(x.Results); k > 0 {
					l := x.Results[k-1]
					s := string(src[off(l.Pos()):off(l.End())])
					if s == "err" || strings.HasPrefix(s, "errors.New") || s == "errorInfo" {
						emit(l.Pos(), l.End(), "nil")
					}
				}
			}
			return true
		})
	}
}
