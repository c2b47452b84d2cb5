package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const self = "github.com/takenet/deckard/internal/verifx/"
const module = "github.com/takenet/deckard/"

// swapped functions and types, by import path and name.
var swapped = map[string]map[string]string{
	"time": {
		"After": "After", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Sleep": "Sleep",
		"AfterFunc": "AfterFunc", "Tick": "TickChan", "Timer": "Timer", "Ticker": "Ticker",
	},
	module + "internal/queue/storage": {"CreateStorage": "vhook.CreateStorage"},
	module + "internal/queue/cache":   {"CreateCache": "vhook.CreateCache"},
	module + "internal/logger":        {"ConfigureLogger": "vhook.ConfigureLogger"},
}

// rewriteRepo overlays the repository's own packages with copies that use the
// checker's stand-ins for package sync and, with "chan", for channel operations,
// go statements, timers and the creation of the engines. The engines themselves
// keep the real ones then: what they do is one step.
func rewriteRepo(repo, work, what string, ov map[string]string) error {
	chans := strings.Contains(what, "chan")
	dirs := map[string][]string{}
	err := filepath.Walk(filepath.Join(repo, "internal"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		d := filepath.Dir(p)
		if chans {
			switch rel, _ := filepath.Rel(repo, d); rel {
			case "internal/queue/cache", "internal/queue/storage", "internal/mocks", "internal/metrics", "internal/service":
				return nil
			}
		}
		dirs[d] = append(dirs[d], p)
		return nil
	})
	if err != nil {
		return err
	}
	for _, ps := range dirs {
		fs := token.NewFileSet()
		var files []*ast.File
		for _, p := range ps {
			f, err := parser.ParseFile(fs, p, nil, 0)
			if err != nil {
				return err
			}
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		if chans {
			conf := types.Config{Error: func(error) {}, Importer: nothing{}, FakeImportC: true}
			conf.Check(ps[0], fs, files, info)
		}
		for i, f := range files {
			r := &rewriter{info: info, chans: chans, names: map[string]string{}, used: map[string]bool{}}
			if !r.file(f) {
				continue
			}
			var b bytes.Buffer
			src, err := os.ReadFile(ps[i])
			if err != nil {
				return err
			}
			for _, l := range strings.Split(string(src), "\n") {
				if strings.HasPrefix(l, "package ") {
					break
				}
				if strings.HasPrefix(l, "//go:build") {
					b.WriteString(l + "\n\n")
				}
			}
			if strings.Contains(string(src), "//go:embed") || strings.Contains(string(src), "import \"C\"") {
				return fmt.Errorf("%s: cannot rewrite a file with embed or cgo", ps[i])
			}
			if err := format.Node(&b, token.NewFileSet(), f); err != nil {
				return fmt.Errorf("%s: %v", ps[i], err)
			}
			rel, _ := filepath.Rel(repo, ps[i])
			dst := filepath.Join(work, "rw_"+strings.ReplaceAll(rel, "/", "_"))
			if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
				return err
			}
			ov[ps[i]] = dst
		}
	}
	return nil
}

// nothing imports empty packages: enough to recognise channels.
type nothing struct{}

func (nothing) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

type rewriter struct {
	info    *types.Info
	chans   bool
	names   map[string]string // local name -> import path
	used    map[string]bool   // packages of the checker needed
	keep    []string          // local names that must stay used
	changed bool
	n       int
}

func (r *rewriter) sel(pkg, name string) ast.Expr {
	r.used[pkg] = true
	r.changed = true
	return &ast.SelectorExpr{X: ast.NewIdent("mc_" + pkg), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel("vsync", name), Args: args}
}

func (r *rewriter) fresh() string {
	r.n++
	return fmt.Sprintf("mc_c%d", r.n)
}

// file rewrites f and tells whether it changed.
func (r *rewriter) file(f *ast.File) bool {
	kept := map[string]bool{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		r.names[name] = path
		if path == "sync" {
			im.Path.Value = strconv.Quote(self + "vsync")
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
			r.changed = true
		}
		if path == "sync/atomic" && r.chans {
			im.Path.Value = strconv.Quote(self + "vsync/atomic")
			r.changed = true
		}
	}
	if r.chans {
		for _, d := range f.Decls {
			r.walk(reflect.ValueOf(d))
		}
		for _, k := range r.keep {
			kept[k] = true
		}
	}
	for pkg := range r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("mc_" + pkg), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(self + pkg)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	for k := range kept {
		loc, name, _ := strings.Cut(k, ".")
		v := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(loc), Sel: ast.NewIdent(name)}}}}}
		f.Decls = append(f.Decls, v)
	}
	return r.changed
}

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()

// walk rewrites below v, children first.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.CanSet() && (v.Type() == exprT || v.Type() == stmtT) {
			if v.Type() == stmtT {
				// Statements whose operands are not ordinary expressions.
				if s, ok := v.Interface().(*ast.SelectStmt); ok {
					v.Set(reflect.ValueOf(r.selectStmt(s)))
					return
				}
				if a, ok := v.Interface().(*ast.AssignStmt); ok && len(a.Lhs) == 2 && len(a.Rhs) == 1 {
					if ch := arrow(a.Rhs[0]); ch != nil {
						r.walk(reflect.ValueOf(&a.Lhs).Elem())
						a.Rhs[0] = r.call("Recv2", r.expr(ch))
						return
					}
				}
			}
			r.walk(v.Elem())
			switch n := v.Interface().(type) {
			case ast.Expr:
				v.Set(reflect.ValueOf(r.rewriteExpr(n)))
			case ast.Stmt:
				v.Set(reflect.ValueOf(r.rewriteStmt(n)))
			}
			return
		}
		r.walk(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch n := v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.Ident, *ast.BasicLit:
			return
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if ch := arrow(n.Values[0]); ch != nil {
					n.Values[0] = r.call("Recv2", r.expr(ch))
					return
				}
			}
		}
		r.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

// expr rewrites one expression.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	r.walk(reflect.ValueOf(&e).Elem())
	return e
}

func arrow(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X
	}
	return nil
}

func (r *rewriter) rewriteExpr(e ast.Expr) ast.Expr {
	switch n := e.(type) {
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return r.call("Recv", n.X)
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(n.Args) == 1 {
			return r.call("Close", n.Args[0])
		}
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok && id.Obj == nil {
			path := r.names[id.Name]
			if to, ok := swapped[path][n.Sel.Name]; ok {
				pkg, name := "vsync", to
				if p, q, ok := strings.Cut(to, "."); ok {
					pkg, name = p, q
					r.keep = append(r.keep, id.Name+"."+n.Sel.Name)
				} else {
					r.keep = append(r.keep, id.Name+".Now")
				}
				return r.sel(pkg, name)
			}
		}
	}
	return e
}

func (r *rewriter) rewriteStmt(s ast.Stmt) ast.Stmt {
	switch n := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("Send", n.Chan), Args: []ast.Expr{n.Value}}}
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.RangeStmt:
		if t := r.info.Types[n.X].Type; t != nil {
			if _, ok := t.Underlying().(*types.Chan); ok {
				n.X = r.call("Range", n.X)
				return n
			}
		}
		if x, ok := n.X.(*ast.SelectorExpr); ok && x.Sel.Name == "C" && n.Value == nil {
			n.X = r.call("Range", n.X)
		}
		if c, ok := n.X.(*ast.CallExpr); ok && n.Value == nil {
			if x, ok := c.Fun.(*ast.SelectorExpr); ok && (x.Sel.Name == "Done" || x.Sel.Name == "TickChan" || x.Sel.Name == "After") {
				n.X = r.call("Range", n.X)
			}
		}
	}
	return s
}

// goStmt evaluates the call's operands now and runs it in a new thread.
func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	var list []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		switch x := e.(type) {
		case *ast.BasicLit, *ast.FuncLit:
			return e
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
				return e
			}
		}
		if tv, ok := r.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsBuiltin() || tv.IsType()) {
			return e
		}
		name := r.fresh()
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(name)
	}
	call := &ast.CallExpr{Fun: g.Call.Fun, Ellipsis: g.Call.Ellipsis}
	if x, ok := g.Call.Fun.(*ast.SelectorExpr); ok {
		id, ok := x.X.(*ast.Ident)
		if !ok || r.names[id.Name] == "" || id.Obj != nil {
			call.Fun = hoist(g.Call.Fun)
		}
	}
	for _, a := range g.Call.Args {
		call.Args = append(call.Args, hoist(a))
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	list = append(list, &ast.ExprStmt{X: r.call("Go", body)})
	return &ast.BlockStmt{List: list}
}

// selectStmt becomes a switch over vsync.Select.
func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	def := false
	var names, vals []ast.Expr
	args := []ast.Expr{ast.NewIdent("false")}
	out := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	comms := 0
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm != nil {
			comms++
		} else {
			def = true
		}
	}
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		clause := &ast.CaseClause{}
		if cc.Comm != nil {
			name := r.fresh()
			var first ast.Stmt
			var ch ast.Expr
			switch x := cc.Comm.(type) {
			case *ast.SendStmt:
				names = append(names, ast.NewIdent(name))
				vals = append(vals, &ast.CallExpr{Fun: r.call("S", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}})
			case *ast.ExprStmt:
				ch = arrow(x.X)
			case *ast.AssignStmt:
				ch = arrow(x.Rhs[0])
				a := &ast.AssignStmt{Tok: x.Tok}
				for i, l := range x.Lhs {
					a.Lhs = append(a.Lhs, r.expr(l))
					a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent([]string{"V", "OK"}[i])})
				}
				first = a
			}
			if ch != nil {
				names = append(names, ast.NewIdent(name))
				vals = append(vals, r.call("R", r.expr(ch)))
			}
			args = append(args, ast.NewIdent(name))
			if def || n+1 < comms {
				clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
			}
			n++
			if first != nil {
				clause.Body = append(clause.Body, first)
			}
		}
		body := cc.Body
		r.walk(reflect.ValueOf(&body).Elem())
		clause.Body = append(clause.Body, body...)
		out.Body.List = append(out.Body.List, clause)
	}
	if def {
		args[0] = ast.NewIdent("true")
	}
	if len(names) > 0 {
		out.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	out.Tag = r.call("Select", args...)
	return out
}
