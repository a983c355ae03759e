// mutate FILE: writes, as JSON, every mutant of a Go file: {line, what, offset, end, text}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	Line     int
	What     string
	Off, End int
	Text     string
	Func     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var out []mutant
	fn := ""
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(what string, a, b token.Pos, text string) {
		out = append(out, mutant{fset.Position(a).Line, what + ": " + string(src[off(a):off(b)]) + " -> " + text, off(a), off(b), text, fn})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ops := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
	}
	asg := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add("drop right", x.Pos(), x.End(), txt(x.X))
					add("drop left", x.Pos(), x.End(), txt(x.Y))
				}
			case *ast.IfStmt:
				add("cond", x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")")
				if x.Else != nil {
					add("no else", x.Body.End(), x.Else.End(), "")
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					switch x.Tok {
					case token.BREAK:
						add("branch", x.Pos(), x.End(), "continue")
						add("branch", x.Pos(), x.End(), "")
					case token.CONTINUE:
						add("branch", x.Pos(), x.End(), "break")
						add("branch", x.Pos(), x.End(), "")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						add("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							add("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.AssignStmt:
				if o, ok := asg[x.Tok]; ok {
					add("assign", x.TokPos, x.TokPos+2, o)
				}
				if x.Tok != token.DEFINE {
					s := ""
					for i, r := range x.Rhs { // keep the variables used
						if i > 0 {
							s += "; "
						}
						s += "_ = " + txt(r)
					}
					add("delete", x.Pos(), x.End(), s)
				}
			case *ast.IncDecStmt:
				add("delete", x.Pos(), x.End(), "")
				if x.Tok == token.INC {
					add("incdec", x.TokPos, x.TokPos+2, "--")
				} else {
					add("incdec", x.TokPos, x.TokPos+2, "++")
				}
			case *ast.ExprStmt:
				add("delete", x.Pos(), x.End(), "")
			case *ast.DeferStmt:
				add("delete", x.Pos(), x.End(), "")
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					add("delete", x.Pos(), x.End(), "")
				}
				for _, r := range x.Results {
					switch txt(r) {
					case "err":
						add("return", r.Pos(), r.End(), "nil")
					case "true":
						add("return", r.Pos(), r.End(), "false")
					case "false":
						add("return", r.Pos(), r.End(), "true")
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add("slice", x.Low.Pos(), x.Low.End(), txt(x.Low)+"+1")
				}
				if x.High != nil {
					add("slice", x.High.Pos(), x.High.End(), txt(x.High)+"-1")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					add("unary", x.Pos(), x.X.Pos(), "")
				}
			case *ast.RangeStmt:
			}
			return true
		})
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}
