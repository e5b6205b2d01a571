// Command mutate lists small source changes ("mutants") of the Go files it is
// given, one JSON object per line: file, byte range, replacement, function.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	File, Func, What string
	Line, From, To   int
	New              string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		fs := token.NewFileSet()
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range file.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			name := filepath.Base(filepath.Dir(f))
			if fn.Recv != nil {
				b, e := fn.Recv.List[0].Type.Pos(), fn.Recv.List[0].Type.End()
				name += ".(" + string(src[pos(b):pos(e)]) + ")"
			}
			name += "." + fn.Name.Name
			emit := func(b, e token.Pos, repl, what string) {
				enc.Encode(mutant{f, name, what, fs.Position(b).Line, pos(b), pos(e), repl})
			}
			text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alts := map[token.Token][]string{
						token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
						token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
					}[x.Op]
					for _, a := range alts {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, x.Op.String()+" -> "+a)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" + 1")
						if x.Value != "0" {
							emit(x.Pos(), x.End(), "("+x.Value+"-1)", x.Value+" - 1")
						}
					}
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						emit(x.TokPos, x.TokPos+2, "--", "++ -> --")
					} else {
						emit(x.TokPos, x.TokPos+2, "++", "-- -> ++")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "true -> false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "false -> true")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.X.Pos(), "", "drop !")
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN {
						emit(x.Pos(), x.End(), strings.Repeat("_, ", len(x.Lhs)-1)+"_ = "+rhs(x, text), "drop assignment "+text(x))
					}
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "drop call "+text(x))
				case *ast.IfStmt:
					if x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
						emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
					}
				case *ast.SelectorExpr:
					sw := map[string]string{"left": "right", "right": "left", "Left": "Right", "Right": "Left", "prev": "next", "next": "prev", "Prev": "Next", "Next": "Prev", "head": "tail", "tail": "head", "Head": "Tail", "Tail": "Head", "Key": "Value"}
					if y, ok := sw[x.Sel.Name]; ok {
						emit(x.Sel.Pos(), x.Sel.End(), y, x.Sel.Name+" -> "+y)
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						emit(x.Pos(), x.End(), "", "drop break")
					} else if x.Tok == token.CONTINUE && x.Label == nil {
						emit(x.Pos(), x.End(), "", "drop continue")
					}
				}
				return true
			})
		}
	}
	fmt.Fprint(os.Stderr, "")
}

func rhs(x *ast.AssignStmt, text func(ast.Node) string) string {
	var s []string
	for _, r := range x.Rhs {
		s = append(s, text(r))
	}
	return strings.Join(s, ", ")
}
