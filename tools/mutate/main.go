// mutate lists the mutants of the Go files it is given, or writes one of them.
//
//	mutate list FILE...          one line per mutant: FILE N LINE WHAT
//	mutate put FILE N            FILE is overwritten by its mutant N
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	line int
	what string
	do   func()
}

func src(fs *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fs, n)
	s := strings.Join(strings.Fields(b.String()), " ")
	if len(s) > 70 {
		s = s[:70]
	}
	return s
}

func mutants(fs *token.FileSet, f *ast.File) (out []mutant) {
	add := func(n ast.Node, what string, do func()) {
		out = append(out, mutant{fs.Position(n.Pos()).Line, what, do})
	}
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
		token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
		token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.OR: {token.AND}, token.AND: {token.OR},
	}
	block := func(list []ast.Stmt) {
		for i := range list {
			i := i
			s := list[i]
			del := false
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				del = true
			case *ast.AssignStmt:
				del = x.Tok != token.DEFINE
			case *ast.IfStmt:
				del = x.Else == nil
			case *ast.RangeStmt, *ast.ForStmt:
				del = true
			}
			if del {
				add(s, "delete: "+src(fs, s), func() { list[i] = &ast.EmptyStmt{Implicit: false} })
			}
			if i+1 < len(list) {
				if _, ok := list[i+1].(*ast.ReturnStmt); !ok && del {
					add(s, "swap with next: "+src(fs, s), func() { list[i], list[i+1] = list[i+1], list[i] })
				}
			}
		}
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if ok && g.Tok != token.VAR {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				block(x.List)
			case *ast.CaseClause:
				block(x.Body)
				if x.List != nil {
					add(x, "drop case: "+src(fs, x), func() { x.Body = nil })
				}
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					t := t
					add(x, fmt.Sprintf("%s -> %s: %s", x.Op, t, src(fs, x)), func() { x.Op = t })
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x, "drop !: "+src(fs, x), func() { x.Op, x.X = token.NOT, &ast.UnaryExpr{Op: token.NOT, X: x.X} })
				}
			case *ast.IfStmt:
				c := x.Cond
				add(x, "negate if: "+src(fs, c), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} })
				add(x, "if false: "+src(fs, c), func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LAND, Y: ast.NewIdent("false")}
				})
				add(x, "if true: "+src(fs, c), func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LOR, Y: ast.NewIdent("true")}
				})
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					i := i
					id, ok := r.(*ast.Ident)
					switch {
					case ok && (id.Name == "true" || id.Name == "false"):
						add(x, "flip: "+src(fs, x), func() {
							x.Results[i] = ast.NewIdent(strconv.FormatBool(id.Name == "false"))
						})
					case ok && id.Name == "err" || ok && strings.HasPrefix(id.Name, "Err"):
						add(x, "return nil error: "+src(fs, x), func() { x.Results[i] = ast.NewIdent("nil") })
					default:
						if c, ok := r.(*ast.CallExpr); ok && strings.Contains(src(fs, c.Fun), "Err") {
							add(x, "return nil error: "+src(fs, x), func() { x.Results[i] = ast.NewIdent("nil") })
						}
					}
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.CONTINUE {
					add(x, "continue -> break", func() { x.Tok = token.BREAK })
				}
				if x.Label == nil && x.Tok == token.BREAK {
					add(x, "break -> continue", func() { x.Tok = token.CONTINUE })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x, fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = strconv.Itoa(v + 1) })
						if v > 0 {
							add(x, fmt.Sprintf("%d -> %d", v, v-1), func() { x.Value = strconv.Itoa(v - 1) })
						}
					}
				}
			case *ast.KeyValueExpr:
				if id, ok := x.Value.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					add(x, "flip: "+src(fs, x), func() { x.Value = ast.NewIdent(strconv.FormatBool(id.Name == "false")) })
				}
			case *ast.CompositeLit:
				for i := range x.Elts {
					i := i
					if kv, ok := x.Elts[i].(*ast.KeyValueExpr); ok {
						add(kv, "drop field: "+src(fs, kv), func() { x.Elts = append(append([]ast.Expr{}, x.Elts[:i]...), x.Elts[i+1:]...) })
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					i := i
					if src(fs, x.Args[i]) != src(fs, x.Args[i+1]) {
						add(x, "swap arguments: "+src(fs, x), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
					}
				}
			}
			return true
		})
	}
	return
}

func load(name string) (*token.FileSet, *ast.File) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, nil, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return fs, f
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, name := range os.Args[2:] {
			for i, m := range mutants(load(name)) {
				fmt.Printf("%s\t%d\t%d\t%s\n", name, i, m.line, m.what)
			}
		}
	case "put":
		fs, f := load(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		mutants(fs, f)[n].do()
		var b bytes.Buffer
		if err := format.Node(&b, fs, f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.WriteFile(os.Args[2], b.Bytes(), 0o644)
	}
}
