// Command mutate lists small changes of Go files as JSON lines: {"file","start","end","text","op","line"}.
// It is used to find behaviour that no check looks at (see DESIGN.md); no check depends on it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mutant struct {
	File       string `json:"file"`
	Start, End int
	Text       string
	Op         string
	Line       int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, text, op string) {
			if string(src[off(a):off(b)]) == text {
				return
			}
			enc.Encode(mutant{f, off(a), off(b), text, op, fset.Position(a).Line})
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.Field:
				return false
			case *ast.BinaryExpr:
				end := n.OpPos + token.Pos(len(n.Op.String()))
				for _, r := range map[token.Token][]string{
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.GTR: {">=", "<="},
					token.LEQ: {"<", ">"}, token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
					token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"&"},
				}[n.Op] {
					emit(n.OpPos, end, r, "op "+n.Op.String()+" to "+r)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), str(n.X), "left operand only")
					emit(n.Pos(), n.End(), str(n.Y), "right operand only")
				}
				if n.Op == token.ADD {
					emit(n.Pos(), n.End(), str(n.X), "left operand only")
					emit(n.Pos(), n.End(), str(n.Y), "right operand only")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), str(n.X), "drop !")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+str(n.Cond)+")", "negate if")
				emit(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") && false", "if false")
				emit(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") || true", "if true")
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "", "drop else")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") && false", "for false")
				}
			case *ast.RangeStmt:
				emit(n.Body.Lbrace+1, n.Body.Lbrace+1, "\nbreak\n", "range once: none")
				emit(n.Body.Rbrace, n.Body.Rbrace, "\nbreak\n", "range once")
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					emit(n.Pos(), n.End(), "("+n.Value+"+1)", "int +1")
					emit(n.Pos(), n.End(), "("+n.Value+"-1)", "int -1")
				case token.STRING:
					if len(n.Value) > 2 {
						emit(n.Pos(), n.End(), `""`, "empty string")
					} else {
						emit(n.Pos(), n.End(), `"x"`, "non-empty string")
					}
				case token.CHAR:
					emit(n.Pos(), n.End(), `'x'`, "other char")
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					emit(n.Pos(), n.End(), "false", "true to false")
				case "false":
					emit(n.Pos(), n.End(), "true", "false to true")
				}
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "{}", "drop call")
			case *ast.DeferStmt:
				emit(n.Pos(), n.End(), "{}", "drop defer")
			case *ast.SendStmt, *ast.GoStmt:
				emit(n.Pos(), n.End(), "{}", "drop statement")
			case *ast.IncDecStmt:
				emit(n.Pos(), n.End(), "{}", "drop ++/--")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), blank(n, str), "drop assignment")
					if n.Tok == token.ADD_ASSIGN || n.Tok == token.OR_ASSIGN || n.Tok == token.SUB_ASSIGN {
						emit(n.TokPos, n.TokPos+2, "=", "op= to =")
					}
				}
			case *ast.BranchStmt:
				if n.Label == nil {
					switch n.Tok {
					case token.BREAK:
						emit(n.Pos(), n.End(), "{}", "drop break")
					case token.CONTINUE:
						emit(n.Pos(), n.End(), "{}", "drop continue")
						emit(n.Pos(), n.End(), "break", "continue to break")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch s := str(r); s {
					case "err", "nil", "true", "false":
						if s == "err" {
							emit(r.Pos(), r.End(), "nil", "return nil error")
						}
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) > 1 {
					emit(n.Pos(), n.End(), str(n.Args[0]), "drop append")
				}
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
					if x, ok := sel.X.(*ast.Ident); ok && x.Name == "strings" && len(n.Args) >= 1 &&
						(strings.HasPrefix(sel.Sel.Name, "Trim") || strings.HasPrefix(sel.Sel.Name, "To") || strings.HasPrefix(sel.Sel.Name, "Replace")) {
						emit(n.Pos(), n.End(), str(n.Args[0]), "drop "+sel.Sel.Name)
					}
					if len(n.Args) == 0 { // x.Method() to x: only compiles where types agree
						emit(n.Pos(), n.End(), str(sel.X), "drop method "+sel.Sel.Name)
					}
				}
				if len(n.Args) == 2 && n.Ellipsis == token.NoPos {
					emit(n.Args[0].Pos(), n.Args[1].End(), str(n.Args[1])+", "+str(n.Args[0]), "swap arguments")
				}
			case *ast.CaseClause:
				for i, e := range n.List {
					if len(n.List) > 1 {
						if i+1 < len(n.List) {
							emit(e.Pos(), n.List[i+1].Pos(), "", "drop case value")
						} else {
							emit(n.List[i-1].End(), e.End(), "", "drop case value")
						}
					}
				}
				if len(n.Body) > 0 && n.List != nil {
					var bl []string
					for _, s := range n.Body {
						bl = append(bl, str(s))
					}
					_ = bl
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "", "drop low bound")
				}
				if n.High != nil && n.Max == nil {
					emit(n.High.Pos(), n.High.End(), "", "drop high bound")
				}
			case *ast.KeyValueExpr:
				emit(n.Pos(), n.End(), "", "drop element")
			}
			return true
		})
	}
}

// blank evaluates the right side so that imports and variables stay in use.
func blank(n *ast.AssignStmt, str func(ast.Node) string) string {
	var l, r []string
	for range n.Lhs {
		l = append(l, "_")
	}
	for _, e := range n.Rhs {
		r = append(r, str(e))
	}
	return fmt.Sprintf("%s = %s", strings.Join(l, ", "), strings.Join(r, ", "))
}
