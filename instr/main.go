// instr rewrites the non-test sources of a Go module so that goroutines, channels and
// package sync go through the controlled scheduler of sched/.
//
// usage: instr REPO MODULE OUTDIR    writes changed files to OUTDIR and prints "original<TAB>new" lines
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const pkgName = "zzsched"

type pkgT struct {
	path  string
	dir   string
	files []*ast.File
	names []string
	types *types.Package
	info  *types.Info
	busy  bool
}

var (
	fset = token.NewFileSet()
	pkgs = map[string]*pkgT{}
	std  = importer.Default()
)

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p := pkgs[path]; p != nil {
		check(p)
		if p.types == nil {
			return nil, fmt.Errorf("import cycle")
		}
		return p.types, nil
	}
	return std.Import(path)
}

func check(p *pkgT) {
	if p.types != nil || p.busy {
		return
	}
	p.busy = true
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp{}, Error: func(error) {}, FakeImportC: true}
	p.types, _ = conf.Check(p.path, fset, p.files, p.info)
}

func main() {
	repo, module, out := os.Args[1], os.Args[2], os.Args[3]
	filepath.Walk(repo, func(fn string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if b := filepath.Base(fn); fn != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(fn, ".go") || strings.HasSuffix(fn, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(fn)
		if err != nil || bytes.Contains(src, []byte("//go:build")) || bytes.Contains(src, []byte("// +build")) {
			return nil
		}
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		rel, _ := filepath.Rel(repo, filepath.Dir(fn))
		path := module
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		p := pkgs[path]
		if p == nil {
			p = &pkgT{path: path, dir: filepath.Dir(fn)}
			pkgs[path] = p
		}
		p.files = append(p.files, f)
		p.names = append(p.names, fn)
		return nil
	})
	var paths []string
	for k := range pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	n := 0
	for _, k := range paths {
		p := pkgs[k]
		check(p)
		for i, f := range p.files {
			r := &rw{p: p}
			r.file(f, module)
			if !r.changed {
				continue
			}
			var b bytes.Buffer
			b.WriteString("//go:build go1.21\n\n")
			if err := printer.Fprint(&b, fset, f); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			n++
			fn := filepath.Join(out, fmt.Sprintf("%03d_%s", n, filepath.Base(p.names[i])))
			if err := os.WriteFile(fn, b.Bytes(), 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			fmt.Printf("%s\t%s\n", p.names[i], fn)
		}
	}
}

type rw struct {
	p       *pkgT
	changed bool
	need    bool // the scheduler package is used
	n       int
}

func (r *rw) sel(name string) ast.Expr {
	r.changed, r.need = true, true
	return &ast.SelectorExpr{X: ast.NewIdent(pkgName), Sel: ast.NewIdent(name)}
}

func (r *rw) fresh(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", s, r.n))
}

func (r *rw) isChan(e ast.Expr) bool {
	t := r.p.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// isPkg: is the identifier the name of this imported package?
func (r *rw) isPkg(e ast.Expr, path string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := r.p.info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == path
}

func (r *rw) file(f *ast.File, module string) {
	usesRuntime, usesTime := "", ""
	for _, d := range f.Decls {
		r.walk(reflect.ValueOf(d))
	}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		switch path {
		case "sync":
			r.changed = true
			im.Name, im.Path.Value = ast.NewIdent(name), strconv.Quote(module+"/zzsched")
		case "sync/atomic":
			r.changed = true
			im.Name, im.Path.Value = ast.NewIdent(name), strconv.Quote(module+"/zzsched/atomic")
		case "runtime":
			usesRuntime = name
		case "time":
			usesTime = name
		}
	}
	if !r.changed {
		return
	}
	if usesRuntime != "" && usesRuntime != "_" {
		f.Decls = append(f.Decls, blankVar(usesRuntime, "Version"))
	}
	if usesTime != "" && usesTime != "_" {
		f.Decls = append(f.Decls, blankVar(usesTime, "Now"))
	}
	if r.need {
		spec := &ast.ImportSpec{Name: ast.NewIdent(pkgName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(module + "/zzsched")}}
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
	}
}

func blankVar(pkg, name string) ast.Decl {
	return &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(name)}}}}}
}

// walk rewrites everything below v; settable expressions and statements are replaced.
func (r *rw) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if n, ok := v.Interface().(ast.Node); ok {
			if nn := r.node(n); nn != nil && v.CanSet() {
				v.Set(reflect.ValueOf(nn))
			}
			return
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.Comment:
			return
		}
		if n, ok := v.Interface().(ast.Node); ok {
			if nn := r.node(n); nn != nil && v.CanSet() && reflect.TypeOf(nn).AssignableTo(v.Type()) {
				v.Set(reflect.ValueOf(nn))
			}
			return
		}
		r.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

func (r *rw) children(n ast.Node) { r.walk(reflect.ValueOf(n).Elem()) }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: &ast.ParenExpr{X: x}, Sel: ast.NewIdent(name)}, args...)
}

// node returns the replacement of n after its children are rewritten.
func (r *rw) node(n ast.Node) ast.Node {
	switch n := n.(type) {
	case *ast.ChanType:
		r.children(n)
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.sel("Chan"), Index: n.Value}}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok {
			if _, ok := r.p.info.Uses[id].(*types.Builtin); ok && len(n.Args) > 0 {
				switch id.Name {
				case "make":
					if ct, ok := n.Args[0].(*ast.ChanType); ok {
						r.children(n)
						return call(&ast.IndexExpr{X: r.sel("MakeChan"), Index: ct.Value}, n.Args[1:]...)
					}
				case "close":
					r.children(n)
					r.changed = true
					return method(n.Args[0], "Close")
				case "len", "cap":
					if r.isChan(n.Args[0]) {
						r.children(n)
						r.changed = true
						return method(n.Args[0], map[string]string{"len": "Len", "cap": "Cap"}[id.Name])
					}
				}
			}
		}
		r.children(n)
		return n
	case *ast.SelectorExpr:
		if r.isPkg(n.X, "runtime") {
			switch n.Sel.Name {
			case "NumCPU", "GOMAXPROCS", "Gosched":
				return r.sel(n.Sel.Name)
			}
		}
		if r.isPkg(n.X, "time") && n.Sel.Name == "Sleep" {
			return r.sel("Sleep")
		}
		r.walk(reflect.ValueOf(n).Elem().FieldByName("X"))
		return n
	case *ast.UnaryExpr:
		r.children(n)
		if n.Op == token.ARROW {
			r.changed = true
			return method(n.X, "Recv")
		}
		return n
	case *ast.SendStmt:
		r.children(n)
		r.changed = true
		return &ast.ExprStmt{X: method(n.Chan, "Send", n.Value)}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.children(u)
				for i := range n.Lhs {
					r.walk(reflect.ValueOf(n.Lhs).Index(i))
				}
				r.changed = true
				n.Rhs[0] = method(u.X, "Recv2")
				return n
			}
		}
		r.children(n)
		return n
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.children(u)
				r.changed = true
				n.Values[0] = method(u.X, "Recv2")
				return n
			}
		}
		r.children(n)
		return n
	case *ast.RangeStmt:
		if !r.isChan(n.X) {
			r.children(n)
			return n
		}
		r.children(n)
		c, ok, z := r.fresh("c"), r.fresh("ok"), ast.NewIdent("_")
		f := &ast.ForStmt{Body: n.Body}
		lhs := ast.Expr(ast.NewIdent("_"))
		if n.Key != nil {
			lhs = n.Key
			if id, isID := n.Key.(*ast.Ident); isID && n.Tok == token.DEFINE && id.Name != "_" {
				z = ast.NewIdent(id.Name)
			}
		}
		f.Init = &ast.AssignStmt{Lhs: []ast.Expr{c, z}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.sel("Range"), n.X)}}
		pre := []ast.Stmt{
			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{lhs, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{method(c, "Recv2")}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		f.Body.List = append(pre, f.Body.List...)
		return f
	case *ast.GoStmt:
		consts := map[int]bool{}
		for i, a := range n.Call.Args {
			tv := r.p.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				consts[i] = true
			}
		}
		builtin := false
		if id, ok := n.Call.Fun.(*ast.Ident); ok {
			_, builtin = r.p.info.Uses[id].(*types.Builtin)
		}
		nn := r.node(n.Call)
		cl, ok := nn.(*ast.CallExpr)
		if !ok || builtin {
			return &ast.ExprStmt{X: call(r.sel("Go"), thunk(nn.(ast.Expr)))}
		}
		as := &ast.AssignStmt{Tok: token.DEFINE}
		f := r.fresh("f")
		as.Lhs, as.Rhs = append(as.Lhs, f), append(as.Rhs, cl.Fun)
		inner := &ast.CallExpr{Fun: f, Ellipsis: cl.Ellipsis}
		for i, a := range cl.Args {
			if consts[i] {
				inner.Args = append(inner.Args, a)
				continue
			}
			v := r.fresh("a")
			as.Lhs, as.Rhs = append(as.Lhs, v), append(as.Rhs, a)
			inner.Args = append(inner.Args, v)
		}
		return &ast.BlockStmt{List: []ast.Stmt{as, &ast.ExprStmt{X: call(r.sel("Go"), thunk(inner))}}}
	case *ast.SelectStmt:
		return r.selectStmt(n)
	}
	r.children(n)
	return n
}

func thunk(e ast.Expr) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) selectStmt(n *ast.SelectStmt) ast.Node {
	idx, val, ok := r.fresh("i"), r.fresh("v"), r.fresh("ok")
	var args []ast.Expr
	hasDefault := "false"
	sw := &ast.SwitchStmt{Tag: idx, Body: &ast.BlockStmt{}}
	use := func() ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val, ok}}
	}
	k := 0
	sawDefault := false
	for _, st := range n.Body.List {
		cc := st.(*ast.CommClause)
		body := []ast.Stmt{use()}
		var lab []ast.Expr
		switch comm := cc.Comm.(type) {
		case nil:
			hasDefault, sawDefault = "true", true
		case *ast.SendStmt:
			r.children(comm)
			args = append(args, method(comm.Chan, "SendCase", comm.Value))
			lab = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}
			k++
		default:
			var ch ast.Expr
			var pre ast.Stmt
			switch c := comm.(type) {
			case *ast.ExprStmt:
				u := unparen(c.X).(*ast.UnaryExpr)
				r.children(u)
				ch = u.X
			case *ast.AssignStmt:
				u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
				r.children(u)
				ch = u.X
				rhs := []ast.Expr{call(r.sel("RecvVal"), ch, val)}
				if len(c.Lhs) == 2 {
					rhs = append(rhs, ok)
				}
				pre = &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: rhs}
			}
			args = append(args, method(ch, "RecvCase"))
			lab = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}
			k++
			if pre != nil {
				body = append(body, pre)
			}
		}
		for i := range cc.Body {
			r.walk(reflect.ValueOf(cc.Body).Index(i))
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: lab, Body: append(body, cc.Body...)})
	}
	if !sawDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{use(), &ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	sw.Init = &ast.AssignStmt{Lhs: []ast.Expr{idx, val, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.sel("Select"), append([]ast.Expr{ast.NewIdent(hasDefault)}, args...)...)}}
	return sw
}
