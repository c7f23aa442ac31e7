// gen copies the non-test sources of Go packages to an output tree,
// replacing the concurrency constructs (package sync, sync/atomic, channels,
// select, go statements, time.Sleep, runtime.Gosched) by calls of the
// controlled scheduler in verif/sched. Nothing else is altered.
//
//	gen OUTDIR MODULE_DIR...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles, CgoFiles             []string
	OtherFiles                    []string `json:"SFiles"`
	Standard, DepOnly             bool
	Module                        *struct{ Path, Dir, GoVersion string }
	Imports                       []string
	Error                         *struct{ Err string }
	EmbedFiles                    []string
}

func fatal(f string, a ...any) { fmt.Fprintf(os.Stderr, "gen: "+f+"\n", a...); os.Exit(3) }

func main() {
	src, out := os.Args[1], os.Args[2]
	mods := map[string]string{} // module path -> output subdirectory
	for _, a := range os.Args[3:] {
		kv := strings.SplitN(a, "=", 2)
		mods[kv[0]] = kv[1]
	}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,CgoFiles,SFiles,Standard,DepOnly,Module,Imports,Error,EmbedFiles", "./...")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var todo []*pkg
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && !p.Standard {
			if _, ok := mods[p.Module.Path]; ok {
				todo = append(todo, p)
			}
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	goVer := map[string]bool{}
	for _, p := range todo {
		if p.Name == "main" || len(p.GoFiles)+len(p.CgoFiles) == 0 {
			continue
		}
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			fatal("%v", err)
		}
		root := filepath.Join(out, mods[p.Module.Path])
		dir := filepath.Join(root, rel)
		os.MkdirAll(dir, 0o755)
		if !goVer[root] {
			goVer[root] = true
			writeMod(p.Module.Dir, p.Module.Path, root)
		}
		rewritePkg(fset, imp, p, dir)
		for _, f := range append(append([]string{}, p.OtherFiles...), p.EmbedFiles...) {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				fatal("%v", err)
			}
			os.MkdirAll(filepath.Dir(filepath.Join(dir, f)), 0o755)
			os.WriteFile(filepath.Join(dir, f), b, 0o644)
		}
	}
}

// writeMod writes the go.mod of a generated module: that of the original with
// the language version raised so that generics may be used (1.21 keeps the
// per-loop scope of loop variables of the older versions).
func writeMod(dir, path, root string) {
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	var o []string
	seen := false
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			seen = true
			v := strings.SplitN(f[1], ".", 3)
			if minor, _ := strconv.Atoi(v[1]); minor < 21 {
				l = "go 1.21"
			}
		}
		if len(f) >= 1 && f[0] == "toolchain" {
			continue
		}
		o = append(o, l)
	}
	if !seen {
		o = append(o, "go 1.21")
	}
	o = append(o, "require verif/sched v0.0.0", "")
	os.WriteFile(filepath.Join(root, "go.mod"), []byte(strings.Join(o, "\n")), 0o644)
}

func rewritePkg(fset *token.FileSet, imp types.Importer, p *pkg, dir string) {
	var files []*ast.File
	var names []string
	for _, n := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
		b, err := os.ReadFile(filepath.Join(p.Dir, n))
		if err != nil {
			fatal("%v", err)
		}
		mode := parser.SkipObjectResolution
		if bytes.Contains(b, []byte("\n//go:")) && !onlyBuildTags(b) || len(p.CgoFiles) > 0 {
			mode |= parser.ParseComments
		}
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), b, mode)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, f)
		names = append(names, n)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, FakeImportC: true, Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fmt.Fprintf(os.Stderr, "gen: type errors in %s (first: %v)\n", p.ImportPath, err)
	}
	for i, f := range files {
		r := &rw{info: info, file: f, pkg: tp}
		r.run()
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&buf, fset, f); err != nil {
			fatal("printing %s: %v", names[i], err)
		}
		if err := os.WriteFile(filepath.Join(dir, names[i]), buf.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

func onlyBuildTags(b []byte) bool {
	for _, l := range bytes.Split(b, []byte("\n")) {
		if bytes.HasPrefix(l, []byte("//go:")) && !bytes.HasPrefix(l, []byte("//go:build")) && !bytes.HasPrefix(l, []byte("//go:generate")) {
			return false
		}
	}
	return true
}

type rw struct {
	info *types.Info
	pkg  *types.Package
	file *ast.File
	n    int
	need bool
}

const schedName = "sched__"

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(schedName), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func meth(x ast.Expr, m string, a ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: &ast.ParenExpr{X: x}, Sel: ast.NewIdent(m)}, a...)
}

func (r *rw) s(name string) ast.Expr { r.need = true; return sel(name) }
func (r *rw) tmp() *ast.Ident        { r.n++; return ast.NewIdent(fmt.Sprintf("sched__%d", r.n)) }

var importMap = map[string]string{
	"sync":        "verif/sched/sync",
	"sync/atomic": "verif/sched/atomic",
}

func (r *rw) run() {
	for _, d := range r.file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			for _, s := range gd.Specs {
				is := s.(*ast.ImportSpec)
				path, _ := strconv.Unquote(is.Path.Value)
				if to, ok := importMap[path]; ok {
					is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
				}
			}
			continue
		}
	}
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					s.Type = r.exprN(s.Type)
					if len(s.Names) == 2 && len(s.Values) == 1 {
						s.Values[0] = r.expr2(s.Values[0])
					} else {
						r.exprs(s.Values)
					}
				case *ast.TypeSpec:
					r.fields(s.TypeParams)
					s.Type = r.expr(s.Type)
				}
			}
		case *ast.FuncDecl:
			r.fields(d.Recv)
			r.funcType(d.Type)
			if d.Body != nil {
				r.block(d.Body)
			}
		}
	}
	if r.need {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent(schedName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/sched"`}}}}
		r.file.Decls = append([]ast.Decl{imp}, r.file.Decls...)
	}
}

func (r *rw) isChan(e ast.Expr) (*types.Chan, bool) {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil, false
	}
	c, ok := t.Underlying().(*types.Chan)
	return c, ok
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rw) isFunc(e ast.Expr, path, name string) bool {
	se, ok := ast.Unparen(e).(*ast.SelectorExpr)
	if !ok || se.Sel.Name != name {
		return false
	}
	o := r.info.Uses[se.Sel]
	return o != nil && o.Pkg() != nil && o.Pkg().Path() == path
}

func (r *rw) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}

func (r *rw) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = r.expr(es[i])
	}
}

func (r *rw) exprN(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}

// expr2 rewrites an expression used in a two-value context.
func (r *rw) expr2(e ast.Expr) ast.Expr {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		if _, ok := r.isChan(u.X); ok {
			return meth(r.expr(u.X), "Recv2")
		}
	}
	return r.expr(e)
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.s("Chan"), Index: r.expr(x.Value)}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return meth(r.expr(x.X), "Recv")
		}
		x.X = r.expr(x.X)
	case *ast.CallExpr:
		if len(x.Args) > 0 {
			switch {
			case r.isBuiltin(x.Fun, "make"):
				if c, ok := r.isChan(x.Args[0]); ok {
					var elem ast.Expr
					if ct, ok := ast.Unparen(x.Args[0]).(*ast.ChanType); ok {
						elem = r.expr(ct.Value)
					} else {
						// a named channel type
						elem = r.typeExpr(c.Elem())
					}
					var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
					if len(x.Args) > 1 {
						size = r.expr(x.Args[1])
					}
					return call(&ast.IndexExpr{X: r.s("MakeChan"), Index: elem}, call(ast.NewIdent("int"), size))
				}
			case r.isBuiltin(x.Fun, "close"):
				if _, ok := r.isChan(x.Args[0]); ok {
					return meth(r.expr(x.Args[0]), "Close")
				}
			case r.isBuiltin(x.Fun, "len"):
				if _, ok := r.isChan(x.Args[0]); ok {
					return meth(r.expr(x.Args[0]), "Len")
				}
			case r.isBuiltin(x.Fun, "cap"):
				if _, ok := r.isChan(x.Args[0]); ok {
					return meth(r.expr(x.Args[0]), "Cap")
				}
			case r.isFunc(x.Fun, "time", "Sleep"):
				// keep the import of time in use
				se := ast.Unparen(x.Fun).(*ast.SelectorExpr)
				return call(r.s("Sleep"), call(&ast.SelectorExpr{X: se.X, Sel: ast.NewIdent("Duration")}, r.expr(x.Args[0])))
			}
		}
		if r.isFunc(x.Fun, "runtime", "Gosched") {
			se := ast.Unparen(x.Fun).(*ast.SelectorExpr)
			return call(r.s("Gosched"), &ast.SelectorExpr{X: se.X, Sel: se.Sel})
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.exprN(x.Low), r.exprN(x.High), r.exprN(x.Max)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.CompositeLit:
		x.Type = r.exprN(x.Type)
		r.exprs(x.Elts)
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
	case *ast.TypeAssertExpr:
		x.X, x.Type = r.expr(x.X), r.exprN(x.Type)
	case *ast.ArrayType:
		x.Len, x.Elt = r.exprN(x.Len), r.expr(x.Elt)
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.StructType:
		r.fields(x.Fields)
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.FuncType:
		r.funcType(x)
	case *ast.Ellipsis:
		x.Elt = r.exprN(x.Elt)
	}
	return e
}

// typeExpr spells a type; only used for make of a named channel type.
func (r *rw) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		fatal("type %s: %v", s, err)
	}
	return e
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	r.stmts(b.List)
}

func (r *rw) stmts(l []ast.Stmt) {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
}

func (r *rw) stmtN(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt(s)
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			switch sp := sp.(type) {
			case *ast.ValueSpec:
				sp.Type = r.exprN(sp.Type)
				if len(sp.Names) == 2 && len(sp.Values) == 1 {
					sp.Values[0] = r.expr2(sp.Values[0])
				} else {
					r.exprs(sp.Values)
				}
			case *ast.TypeSpec:
				sp.Type = r.expr(sp.Type)
			}
		}
	case *ast.LabeledStmt:
		inner := r.stmt(x.Stmt)
		x.Stmt = inner
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: meth(r.expr(x.Chan), "Send", r.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		r.exprs(x.Lhs)
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			x.Rhs[0] = r.expr2(x.Rhs[0])
		} else {
			r.exprs(x.Rhs)
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if e, ok := r.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = e
		}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.stmtN(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.stmtN(x.Else)
	case *ast.CaseClause:
		r.exprs(x.List)
		r.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.stmtN(x.Init)
		x.Tag = r.exprN(x.Tag)
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.stmtN(x.Init)
		x.Assign = r.stmt(x.Assign)
		r.block(x.Body)
	case *ast.ForStmt:
		x.Init = r.stmtN(x.Init)
		x.Cond = r.exprN(x.Cond)
		x.Post = r.stmtN(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		if _, ok := r.isChan(x.X); ok {
			return r.rangeChan(x)
		}
		if r.isMap(x.X) {
			return r.rangeMap(x)
		}
		x.Key, x.Value = r.exprN(x.Key), r.exprN(x.Value)
		x.X = r.expr(x.X)
		r.block(x.Body)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	}
	return s
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(r.s("Go"), r.expr(fl))}
	}
	// function value and arguments are evaluated before the goroutine starts
	pre := &ast.BlockStmt{}
	bind := func(e ast.Expr) ast.Expr {
		tv, ok := r.info.Types[e]
		if ok && (tv.IsNil() || tv.Value != nil || tv.IsBuiltin() || tv.IsType()) {
			return r.expr(e)
		}
		id := r.tmp()
		pre.List = append(pre.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return ast.NewIdent(id.Name)
	}
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if r.isBuiltin(c.Fun, "close") {
		ch := bind(c.Args[0])
		pre.List = append(pre.List, &ast.ExprStmt{X: call(r.s("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: meth(ch, "Close")}}}})})
		return pre
	}
	nc.Fun = bind(c.Fun)
	for _, a := range c.Args {
		nc.Args = append(nc.Args, bind(a))
	}
	pre.List = append(pre.List, &ast.ExprStmt{X: call(r.s("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return pre
}

func (r *rw) rangeChan(x *ast.RangeStmt) ast.Stmt {
	ch, ok := r.tmp(), r.tmp()
	v := ast.Expr(ast.NewIdent("_"))
	tok := token.DEFINE
	body := &ast.BlockStmt{}
	if x.Key != nil {
		if x.Tok == token.DEFINE {
			v = x.Key
			body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: tok, Rhs: []ast.Expr{meth(ch, "Recv2")}})
		} else {
			body.List = append(body.List,
				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key), ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{meth(ch, "Recv2")}})
		}
	} else {
		body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: tok, Rhs: []ast.Expr{meth(ch, "Recv2")}})
	}
	body.List = append(body.List, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	r.block(x.Body)
	body.List = append(body.List, x.Body.List...)
	return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}, Body: body}
}

func (r *rw) isMap(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

// rangeMap fixes the order in which a map is visited.
func (r *rw) rangeMap(x *ast.RangeStmt) ast.Stmt {
	lit := false
	ast.Inspect(x.Body, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			lit = true
		}
		return true
	})
	r.block(x.Body)
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	if lit && x.Tok == token.DEFINE {
		// a function might hold on to the loop's variables
		x.X = r.expr(x.X)
		return x
	}
	it := r.tmp()
	var lhs, rhs []ast.Expr
	for i, e := range []ast.Expr{x.Key, x.Value} {
		if !blank(e) {
			if x.Tok != token.DEFINE {
				e = r.expr(e)
			}
			lhs = append(lhs, e)
			rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent([]string{"K", "V"}[i])})
		}
	}
	body := &ast.BlockStmt{}
	if len(lhs) > 0 {
		body.List = append(body.List, &ast.AssignStmt{Lhs: lhs, Tok: x.Tok, Rhs: rhs})
	}
	body.List = append(body.List, x.Body.List...)
	return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.s("RangeMap"), r.expr(x.X))}},
		Cond: meth(ast.NewIdent(it.Name), "Next"), Body: body}
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	iv, vv, ov := r.tmp(), r.tmp(), r.tmp()
	hasDefault := "false"
	args := []ast.Expr{nil}
	sw := &ast.BlockStmt{}
	k := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			r.stmts(cc.Body)
			sw.List = append(sw.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		var pre []ast.Stmt
		switch st := cc.Comm.(type) {
		case *ast.SendStmt:
			args = append(args, meth(r.expr(st.Chan), "SendCase", r.expr(st.Value)))
		case *ast.ExprStmt:
			u := ast.Unparen(st.X).(*ast.UnaryExpr)
			args = append(args, meth(r.expr(u.X), "RecvCase"))
		case *ast.AssignStmt:
			u := ast.Unparen(st.Rhs[0]).(*ast.UnaryExpr)
			c, ok := r.isChan(u.X)
			if !ok {
				fatal("select on something that is no channel")
			}
			args = append(args, meth(r.expr(u.X), "RecvCase"))
			val := call(&ast.IndexExpr{X: r.s("As"), Index: r.expr(r.typeExpr(c.Elem()))}, vv)
			r.exprs(st.Lhs)
			as := &ast.AssignStmt{Tok: st.Tok, Lhs: st.Lhs, Rhs: []ast.Expr{val}}
			if len(st.Lhs) == 2 {
				as.Rhs = append(as.Rhs, ov)
			}
			pre = append(pre, as)
		}
		r.stmts(cc.Body)
		sw.List = append(sw.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}},
			Body: append(pre, cc.Body...)})
		k++
	}
	args[0] = ast.NewIdent(hasDefault)
	return &ast.SwitchStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{iv, vv, ov}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.s("Select"), args...)}},
		Tag:  call(r.s("Use"), iv, vv, ov),
		Body: sw,
	}
}
