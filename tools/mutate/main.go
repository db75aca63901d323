// mutate lists or writes small mutations of a Go file: mutate FILE list | mutate FILE N > out.go
// It is only used while developing the checks (see tools/mutants.sh).
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos   token.Pos
	what  string
	apply func()
}

var muts []mut
var fset = token.NewFileSet()

func add(pos token.Pos, what string, f func()) { muts = append(muts, mut{pos, what, f}) }

func src(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, n)
	s := b.String()
	if len(s) > 70 {
		s = s[:70] + "..."
	}
	for i, c := range s {
		if c == '\n' {
			return s[:i] + "..."
		}
	}
	return s
}

func stmts(list []ast.Stmt) {
	for i := range list {
		i := i
		switch s := list[i].(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
			add(s.Pos(), "delete "+src(s), func() { list[i] = &ast.EmptyStmt{} })
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				add(s.Pos(), "delete "+src(s), func() { list[i] = &ast.EmptyStmt{} })
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 0 {
				add(s.Pos(), "delete return", func() { list[i] = &ast.EmptyStmt{} })
			}
		case *ast.IfStmt:
			add(s.Pos(), "if never "+src(s.Cond), func() {
				s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
			})
			add(s.Pos(), "if always "+src(s.Cond), func() {
				s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
			})
		}
	}
}

func main() {
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.BinaryExpr:
				old := x.Op
				var ops []token.Token
				switch old {
				case token.LSS:
					ops = []token.Token{token.LEQ, token.GTR}
				case token.LEQ:
					ops = []token.Token{token.LSS}
				case token.GTR:
					ops = []token.Token{token.GEQ, token.LSS}
				case token.GEQ:
					ops = []token.Token{token.GTR}
				case token.EQL:
					ops = []token.Token{token.NEQ}
				case token.NEQ:
					ops = []token.Token{token.EQL}
				case token.LAND:
					ops = []token.Token{token.LOR}
				case token.LOR:
					ops = []token.Token{token.LAND}
				case token.ADD:
					ops = []token.Token{token.SUB}
				case token.SUB:
					ops = []token.Token{token.ADD}
				case token.MUL:
					ops = []token.Token{token.QUO}
				case token.QUO:
					ops = []token.Token{token.MUL}
				case token.REM:
					ops = []token.Token{token.QUO}
				}
				for _, op := range ops {
					op := op
					add(x.OpPos, fmt.Sprintf("%s -> %s in %s", old, op, src(x)), func() { x.Op = op })
				}
				if old == token.LAND || old == token.LOR {
					add(x.OpPos, "left only of "+src(x), func() { x.Y = ast.NewIdent(map[bool]string{true: "true", false: "false"}[old == token.LAND]) })
					add(x.OpPos, "right only of "+src(x), func() { x.X = ast.NewIdent(map[bool]string{true: "true", false: "false"}[old == token.LAND]) })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x.Pos(), fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = fmt.Sprint(v + 1) })
						if v > 0 {
							add(x.Pos(), fmt.Sprintf("%d -> %d", v, v-1), func() { x.Value = fmt.Sprint(v - 1) })
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					o := x.Name
					add(x.Pos(), "flip "+o, func() { x.Name = map[string]string{"true": "false", "false": "true"}[o] })
				}
				if x.Name == "nil" {
				}
			case *ast.UnaryExpr:
				if x.Op == token.SUB {
					add(x.Pos(), "drop - of "+src(x), func() { x.Op = token.ADD })
				}
				if x.Op == token.NOT {
					add(x.Pos(), "drop ! of "+src(x), func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
				}
			case *ast.CallExpr:
				// x.F(a, b) with two arguments that can be swapped is left out: few compile
			}
			return true
		})
	}
	if os.Args[2] == "list" {
		for i, m := range muts {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(m.pos).Line, m.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	muts[n].apply()
	if err := format.Node(os.Stdout, fset, f); err != nil {
		panic(err)
	}
}
