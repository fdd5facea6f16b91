// weave SRC DST MODPATH [-- PKG...]
//
// copies the non-test Go packages of a module and puts the operations which
// goroutines synchronise with under the control of the scheduler verif/vs:
// go statements, channel operations, select, sync, sync/atomic, timers and the
// clock, context cancellation, runtime.Gosched. What the code does with them is
// left as it is.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listed struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	EmbedFiles []string
	Standard   bool
	Module     *struct{ Path, Dir string }
}

func die(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"weave:"}, a...)...)
	os.Exit(3)
}

// weave LISTDIR OUT MOD=NAME...  : LISTDIR is a module that imports what is
// woven; every package of each MOD that it depends upon ends up in OUT/NAME.
func main() {
	if len(os.Args) < 4 {
		die("usage: weave LISTDIR OUT MOD=NAME...")
	}
	out := os.Args[2]
	mods := map[string]string{}
	for _, a := range os.Args[3:] {
		m, n, _ := strings.Cut(a, "=")
		mods[m] = n
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,EmbedFiles,Standard,Module", ".")
	cmd.Dir = os.Args[1]
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	pkgs := map[string]*listed{}
	var order []*listed
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		pkgs[l.ImportPath] = &l
		order = append(order, &l)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	roots := map[string]string{}
	for _, l := range order {
		if l.Module == nil || mods[l.Module.Path] == "" {
			continue
		}
		roots[l.Module.Path] = l.Module.Dir
		rel, err := filepath.Rel(l.Module.Dir, l.Dir)
		if err != nil {
			die(err)
		}
		dst := filepath.Join(out, mods[l.Module.Path], rel)
		if err := os.MkdirAll(dst, 0o755); err != nil {
			die(err)
		}
		var files []*ast.File
		for _, f := range l.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(l.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die(err)
			}
			files = append(files, a)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		conf := types.Config{Importer: imp, GoVersion: ""}
		if _, err := conf.Check(l.ImportPath, fset, files, info); err != nil {
			die(err)
		}
		for i, a := range files {
			w := &weaver{fset: fset, info: info, file: a}
			text := w.weave()
			if err := os.WriteFile(filepath.Join(dst, l.GoFiles[i]), text, 0o644); err != nil {
				die(err)
			}
		}
		for _, f := range l.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(l.Dir, f))
			if err != nil {
				die(err)
			}
			os.MkdirAll(filepath.Dir(filepath.Join(dst, f)), 0o755)
			os.WriteFile(filepath.Join(dst, f), b, 0o644)
		}
	}
	for m, dir := range roots {
		b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
		if err != nil {
			die(err)
		}
		// the woven packages import the scheduler
		s := string(b) + "\nrequire verif/vs v0.0.0\n"
		os.WriteFile(filepath.Join(out, mods[m], "go.mod"), []byte(s), 0o644)
		if b, err := os.ReadFile(filepath.Join(dir, "go.sum")); err == nil {
			os.WriteFile(filepath.Join(out, mods[m], "go.sum"), b, 0o644)
		}
	}
}

// what is replaced, by package and name
var shims = map[string]map[string]bool{
	"sync": set("Mutex RWMutex WaitGroup Once Cond NewCond Pool Map OnceFunc OnceValue OnceValues"),
	"sync/atomic": set("AddInt32 AddInt64 AddUint32 AddUint64 AddUintptr CompareAndSwapInt32 CompareAndSwapInt64 CompareAndSwapUint32 CompareAndSwapUint64 " +
		"LoadInt32 LoadInt64 LoadUint32 LoadUint64 StoreInt32 StoreInt64 StoreUint32 StoreUint64 SwapInt32 SwapInt64 SwapUint32 SwapUint64 " +
		"Bool Int32 Int64 Uint32 Uint64 Uintptr Pointer Value LoadUintptr StoreUintptr SwapUintptr CompareAndSwapUintptr"),
	"time":    set("After AfterFunc NewTimer NewTicker Tick Sleep Now Since Until Timer Ticker"),
	"context": set("WithCancel WithCancelCause WithTimeout WithTimeoutCause WithDeadline WithDeadlineCause AfterFunc"),
	"runtime": set("Gosched NumCPU GOMAXPROCS"),
}

var shimPkg = map[string]string{
	"sync": "vsync", "sync/atomic": "vatomic", "time": "vtime", "context": "vctx", "runtime": "vrt",
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

type weaver struct {
	fset   *token.FileSet
	info   *types.Info
	file   *ast.File
	shim   map[string]bool // shims which are used
	vs     bool
	n      int
	labels map[ast.Stmt]string
}

func (w *weaver) fresh(p string) string {
	w.n++
	return fmt.Sprintf("vs_%s%d", p, w.n)
}

func (w *weaver) weave() []byte {
	w.shim = map[string]bool{}
	w.labels = map[ast.Stmt]string{}
	for _, d := range w.file.Decls {
		w.decl(d)
	}
	// imports
	left := map[string]bool{} // import names still in use
	ast.Inspect(w.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				left[id.Name] = true
			}
		}
		return true
	})
	for _, d := range w.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		specs := g.Specs[:0]
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if shims[path] != nil {
				name := filepath.Base(path)
				if is.Name != nil {
					name = is.Name.Name
				}
				if !left[name] && name != "_" && name != "." {
					continue
				}
			}
			specs = append(specs, s)
		}
		g.Specs = specs
	}
	decls := w.file.Decls[:0]
	for _, d := range w.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && len(g.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	w.file.Decls = decls
	var add []string
	for s := range w.shim {
		add = append(add, "verif/vs/"+s)
	}
	if w.vs {
		add = append(add, "verif/vs")
	}
	sort.Strings(add)
	if len(add) > 0 {
		g := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1}
		for _, a := range add {
			is := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(a)}}
			if a == "verif/vs" {
				is.Name = ident("vs__")
			}
			g.Specs = append(g.Specs, is)
		}
		w.file.Decls = append([]ast.Decl{g}, w.file.Decls...)
	}
	// comments would end up in the wrong places; directives are kept
	keep := directives(w.file)
	w.file.Comments = nil
	stripDocs(w.file)
	var buf bytes.Buffer
	if err := format.Node(&buf, token.NewFileSet(), w.file); err != nil {
		die(w.fset.Position(w.file.Pos()), err)
	}
	text := buf.Bytes()
	if len(keep) > 0 {
		// go:embed and friends: re-attach by the text of the declaration
		s := string(text)
		for decl, dir := range keep {
			s = strings.Replace(s, "\n"+decl, "\n"+dir+"\n"+decl, 1)
		}
		text = []byte(s)
	}
	return text
}

// directives finds //go: comments in front of var declarations.
func directives(f *ast.File) map[string]string {
	m := map[string]string{}
	for _, d := range f.Decls {
		switch g := d.(type) {
		case *ast.GenDecl:
			if g.Doc == nil || len(g.Specs) != 1 {
				continue
			}
			v, ok := g.Specs[0].(*ast.ValueSpec)
			if !ok {
				continue
			}
			for _, c := range g.Doc.List {
				if strings.HasPrefix(c.Text, "//go:embed") {
					m["var "+v.Names[0].Name] = c.Text
				}
			}
		}
	}
	return m
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func (w *weaver) decl(d ast.Decl) {
	switch x := d.(type) {
	case *ast.FuncDecl:
		w.fields(x.Recv)
		w.expr(x.Type)
		if x.Body != nil {
			w.block(x.Body)
		}
	case *ast.GenDecl:
		for _, s := range x.Specs {
			w.spec(s)
		}
	}
}

func (w *weaver) spec(s ast.Spec) {
	switch y := s.(type) {
	case *ast.ValueSpec:
		y.Type = w.expr(y.Type)
		if len(y.Names) == 2 && len(y.Values) == 1 {
			if r := w.recv2(y.Values[0]); r != nil {
				y.Values[0] = r
				return
			}
		}
		w.exprs(y.Values)
	case *ast.TypeSpec:
		w.fields(y.TypeParams)
		y.Type = w.expr(y.Type)
	}
}

func (w *weaver) fields(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.List {
		x.Type = w.expr(x.Type)
	}
}

func (w *weaver) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = w.expr(es[i])
	}
}

func (w *weaver) isChan(e ast.Expr) bool {
	t := w.info.TypeOf(e)
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return true
	case *types.Interface: // a type parameter, the core type of which is a channel
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			for i := 0; i < u.NumEmbeddeds(); i++ {
				e := u.EmbeddedType(i)
				if un, ok := e.(*types.Union); ok {
					for j := 0; j < un.Len(); j++ {
						if _, ok := un.Term(j).Type().Underlying().(*types.Chan); ok {
							return true
						}
					}
				}
				if _, ok := e.Underlying().(*types.Chan); ok {
					return true
				}
			}
		}
	}
	return false
}

func ident(s string) *ast.Ident { return ast.NewIdent(s) }

func sel(p, n string) ast.Expr { return &ast.SelectorExpr{X: ident(p), Sel: ident(n)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (w *weaver) rt(n string, args ...ast.Expr) *ast.CallExpr {
	w.vs = true
	return call(sel("vs__", n), args...)
}

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

func (w *weaver) where(n ast.Node) ast.Expr {
	p := w.fset.Position(n.Pos())
	return str(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
}

// recv2 weaves a receive expression of which both values are used.
func (w *weaver) recv2(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return nil
	}
	return w.rt("Recv2", w.where(u), w.expr(u.X))
}

func (w *weaver) builtin(f ast.Expr, name string) bool {
	id, ok := f.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = w.info.Uses[id].(*types.Builtin)
	return ok
}

func (w *weaver) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		// a dot import of a package which is replaced
		if o := w.info.Uses[x]; o != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() && shims[o.Pkg().Path()][x.Name] {
			p := shimPkg[o.Pkg().Path()]
			w.shim[p] = true
			return sel(p, x.Name)
		}
		return x
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := w.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if shims[path][x.Sel.Name] {
					w.shim[shimPkg[path]] = true
					return sel(shimPkg[path], x.Sel.Name)
				}
				return x
			}
		}
		x.X = w.expr(x.X)
		return x
	case *ast.Ellipsis:
		x.Elt = w.expr(x.Elt)
	case *ast.FuncLit:
		w.expr(x.Type)
		w.block(x.Body)
	case *ast.CompositeLit:
		x.Type = w.expr(x.Type)
		w.exprs(x.Elts)
	case *ast.ParenExpr:
		x.X = w.expr(x.X)
	case *ast.IndexExpr:
		x.X, x.Index = w.expr(x.X), w.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = w.expr(x.X)
		w.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = w.expr(x.X), w.expr(x.Low), w.expr(x.High), w.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X, x.Type = w.expr(x.X), w.expr(x.Type)
	case *ast.CallExpr:
		if len(x.Args) == 1 && w.builtin(x.Fun, "close") {
			return w.rt("Close", w.where(x), w.expr(x.Args[0]))
		}
		if len(x.Args) == 1 && w.builtin(x.Fun, "len") && w.isChan(x.Args[0]) {
			return w.rt("Len", w.where(x), w.expr(x.Args[0]))
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Err" && len(x.Args) == 0 {
			if t := w.info.TypeOf(s.X); t != nil && t.String() == "context.Context" {
				return w.rt("CtxErr", w.where(x), w.expr(s.X))
			}
		}
		x.Fun = w.expr(x.Fun)
		w.exprs(x.Args)
	case *ast.StarExpr:
		x.X = w.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return w.rt("Recv", w.where(x), w.expr(x.X))
		}
		x.X = w.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = w.expr(x.X), w.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = w.expr(x.Key), w.expr(x.Value)
	case *ast.ArrayType:
		x.Len, x.Elt = w.expr(x.Len), w.expr(x.Elt)
	case *ast.StructType:
		w.embedded(x.Fields)
	case *ast.FuncType:
		w.fields(x.TypeParams)
		w.fields(x.Params)
		w.fields(x.Results)
	case *ast.InterfaceType:
		w.fields(x.Methods)
	case *ast.MapType:
		x.Key, x.Value = w.expr(x.Key), w.expr(x.Value)
	case *ast.ChanType:
		x.Value = w.expr(x.Value)
	}
	return e
}

func (w *weaver) embedded(f *ast.FieldList) { w.fields(f) }

func (w *weaver) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = w.stmts(b.List)
	}
}

func (w *weaver) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		out = append(out, w.stmt(s))
	}
	return out
}

func define(lhs string, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ident(lhs)}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (w *weaver) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.SelectStmt:
			return w.selectStmt(y, x.Label)
		case *ast.RangeStmt:
			if w.isChan(y.X) {
				return w.rangeChan(y, x.Label)
			}
		}
		x.Stmt = w.stmt(x.Stmt)
		return x
	case *ast.DeclStmt:
		w.decl(x.Decl)
	case *ast.ExprStmt:
		x.X = w.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(w.rt("Send", w.where(x), w.expr(x.Chan)), w.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = w.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if r := w.recv2(x.Rhs[0]); r != nil {
				x.Rhs[0] = r
				w.exprs(x.Lhs)
				return x
			}
		}
		w.exprs(x.Lhs)
		w.exprs(x.Rhs)
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.DeferStmt:
		// builtins of which the call is replaced need no wrapping: the
		// arguments are evaluated when the statement is
		if c, ok := w.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.ReturnStmt:
		w.exprs(x.Results)
	case *ast.BlockStmt:
		w.block(x)
	case *ast.IfStmt:
		x.Init = w.stmt(x.Init)
		x.Cond = w.expr(x.Cond)
		w.block(x.Body)
		x.Else = w.stmt(x.Else)
	case *ast.CaseClause:
		w.exprs(x.List)
		x.Body = w.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = w.stmt(x.Init)
		x.Tag = w.expr(x.Tag)
		w.block(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = w.stmt(x.Init)
		x.Assign = w.stmt(x.Assign)
		w.block(x.Body)
	case *ast.SelectStmt:
		return w.selectStmt(x, nil)
	case *ast.ForStmt:
		x.Init = w.stmt(x.Init)
		x.Cond = w.expr(x.Cond)
		x.Post = w.stmt(x.Post)
		w.block(x.Body)
	case *ast.RangeStmt:
		if w.isChan(x.X) {
			return w.rangeChan(x, nil)
		}
		x.Key, x.Value = w.expr(x.Key), w.expr(x.Value)
		x.X = w.expr(x.X)
		w.block(x.Body)
	}
	return s
}

func (w *weaver) rangeChan(x *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	ch, v, ok := w.fresh("r"), w.fresh("v"), w.fresh("ok")
	where := w.where(x)
	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ident(v), ident(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{w.rt("Recv2", where, ident(ch))}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ident(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	blank := true
	if x.Key != nil {
		if id, isID := x.Key.(*ast.Ident); !isID || id.Name != "_" {
			blank = false
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{w.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{ident(v)}})
		}
	}
	if blank {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ident("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(v)}})
	}
	c := define(ch, w.expr(x.X))
	w.block(x.Body)
	var loop ast.Stmt = &ast.ForStmt{Body: &ast.BlockStmt{List: append(body, x.Body.List...)}}
	if label != nil {
		loop = &ast.LabeledStmt{Label: label, Stmt: loop}
	}
	return &ast.BlockStmt{List: []ast.Stmt{c, loop}}
}

func (w *weaver) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	var clauses []ast.Stmt
	args := []ast.Expr{w.where(x), ident("false")}
	hasDefault := false
	i := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			args[1] = ident("true")
			clauses = append(clauses, &ast.CaseClause{Body: w.stmts(cc.Body)})
			continue
		}
		name := w.fresh("c")
		var first ast.Stmt
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(name, call(w.rt("SendCase", w.expr(y.Chan)), w.expr(y.Value))))
		case *ast.ExprStmt:
			u := unparen(y.X).(*ast.UnaryExpr)
			pre = append(pre, define(name, w.rt("RecvCase", w.expr(u.X))))
		case *ast.AssignStmt:
			u := unparen(y.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define(name, w.rt("RecvCase", w.expr(u.X))))
			rhs := []ast.Expr{sel(name, "V")}
			if len(y.Lhs) == 2 {
				rhs = append(rhs, sel(name, "OK"))
			}
			w.exprs(y.Lhs)
			first = &ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: rhs}
		}
		args = append(args, ident(name))
		body := w.stmts(cc.Body)
		if first != nil {
			body = append([]ast.Stmt{first}, body...)
		}
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}, Body: body})
		i++
	}
	if !hasDefault {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ident("panic"), str("unreachable"))}}})
	}
	var sw ast.Stmt = &ast.SwitchStmt{Tag: w.rt("Select", args...), Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (w *weaver) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	var pre []ast.Stmt
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args[i] = w.expr(a)
			continue
		}
		n := w.fresh("a")
		pre = append(pre, define(n, w.expr(a)))
		args[i] = ident(n)
	}
	fun := c.Fun
	where := w.where(x)
	switch f := unparen(fun).(type) {
	case *ast.SelectorExpr:
		if _, ok := w.info.Selections[f]; ok {
			// method value or field: evaluated now
			n := w.fresh("f")
			pre = append(pre, define(n, w.expr(f)))
			fun = ident(n)
		} else {
			fun = w.expr(f)
		}
	case *ast.Ident:
		if _, ok := w.info.Uses[f].(*types.Var); ok {
			n := w.fresh("f")
			pre = append(pre, define(n, w.expr(f)))
			fun = ident(n)
		} else {
			fun = w.expr(f)
		}
	case *ast.CallExpr:
		n := w.fresh("f")
		pre = append(pre, define(n, w.expr(f)))
		fun = ident(n)
	default:
		fun = w.expr(fun)
	}
	body := call(fun, args...)
	body.Ellipsis = c.Ellipsis
	if c.Ellipsis != token.NoPos {
		body.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}}
	// the statement's position in the source identifies the goroutine in reports
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: w.rt("Go", where, lit)})}
}
