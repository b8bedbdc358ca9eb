// Command vrewrite translates the non-test Go packages of a module into
// packages whose every source of nondeterminism (goroutines, channels, locks,
// atomics, clocks, sockets, serial ports, randomness) goes through the virtual
// runtime in verifmc/vrt.  The translation is purely syntactic: it never looks
// for particular functions or types of the module.
//
//	vrewrite -repo DIR -out DIR -virtual DIR -overlay FILE
//
// writes the translated files below -out and a "go build -overlay" file that
// places them below -virtual (import path verifmc/modbus/...).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"sync":                       "verifmc/shim/sync",
	"sync/atomic":                "verifmc/shim/atomic",
	"time":                       "verifmc/shim/time",
	"net":                        "verifmc/shim/net",
	"context":                    "verifmc/shim/context",
	"crypto/tls":                 "verifmc/shim/tls",
	"math/rand":                  "verifmc/shim/rand",
	"math/rand/v2":               "verifmc/shim/randv2",
	"runtime":                    "verifmc/shim/runtime",
	"github.com/goburrow/serial": "verifmc/shim/serial",
}

const vrtPath = "verifmc/vrt"
const vrtName = "vrt_"

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	DepOnly    bool
	Module     *struct{ Path, Dir string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vrewrite: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	virt := flag.String("virtual", "", "")
	overlay := flag.String("overlay", "", "")
	flag.Parse()

	cmd := exec.Command("go", "list", "-export", "-deps", "-json", "./...")
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	var pkgs []*pkgInfo
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	modPath := ""
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard && !p.DepOnly {
			pkgs = append(pkgs, p)
		}
	}
	// the root package of the module
	for _, p := range pkgs {
		if p.Module != nil {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		die("no module package found")
	}
	repl := map[string]string{}
	for _, p := range pkgs {
		if p.Name == "main" {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		rewritePkg(p, modPath, exports, filepath.Join(*out, rel), func(name, file string) {
			repl[filepath.Join(*virt, rel, name)] = file
		})
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err := os.WriteFile(*overlay, js, 0o644); err != nil {
		die("%v", err)
	}
}

type rw struct {
	fset    *token.FileSet
	info    *types.Info
	usesVrt bool
	n       int
}

func rewritePkg(p *pkgInfo, modPath string, exports map[string]string, outDir string, add func(name, file string)) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	if len(p.CgoFiles) > 0 {
		die("cgo in %s", p.ImportPath)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		die("type check: %v", err)
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		die("%v", err)
	}

	// translate bodies first; package initialisers share the translated AST
	r := &rw{fset: fset, info: info}
	uses := make([]bool, len(files))
	for i, f := range files {
		r.usesVrt = false
		r.file(f, modPath)
		uses[i] = r.usesVrt
	}

	// package-variable reset, per file (initialisers need that file's imports)
	type zeroVar struct{ name, typ string }
	nInit := 0
	resets := make([][]ast.Stmt, len(files))
	zeros := make([][]ast.Stmt, len(files))
	inits := make([][]ast.Stmt, len(files))
	type initStep struct {
		file int
		st   ast.Stmt
	}
	specOf := map[types.Object]struct {
		file int
		spec *ast.ValueSpec
		idx  int
	}{}
	for i, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for k, nm := range vs.Names {
						if nm.Name == "_" {
							continue
						}
						specOf[info.Defs[nm]] = struct {
							file int
							spec *ast.ValueSpec
							idx  int
						}{i, vs, k}
						if len(vs.Values) == 0 {
							zeros[i] = append(zeros[i], assign([]ast.Expr{ast.NewIdent(nm.Name)},
								&ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{vs.Type}}}))
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					nm := fmt.Sprintf("vrtInit%d_", nInit)
					nInit++
					d.Name = ast.NewIdent(nm)
					inits[i] = append(inits[i], &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(nm)}})
				}
			}
		}
	}
	var order []string
	stepNo := 0
	addFunc := func(i int, body []ast.Stmt) string {
		nm := fmt.Sprintf("vrtReset%d_", stepNo)
		stepNo++
		files[i].Decls = append(files[i].Decls, &ast.FuncDecl{Name: ast.NewIdent(nm), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
		return nm
	}
	for i := range files {
		if len(zeros[i]) > 0 {
			order = append(order, addFunc(i, zeros[i]))
		}
	}
	_ = resets
	for _, in := range info.InitOrder {
		fi := -1
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			if v.Name() == "_" {
				lhs = append(lhs, ast.NewIdent("_"))
				continue
			}
			fi = specOf[v].file
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		if fi < 0 {
			continue
		}
		// the initialiser expression was possibly replaced by the translation: find it again
		var rhs ast.Expr
		sp := specOf[in.Lhs[0]]
		for _, v := range in.Lhs {
			if v.Name() != "_" {
				sp = specOf[v]
			}
		}
		if len(sp.spec.Values) == len(sp.spec.Names) {
			rhs = sp.spec.Values[sp.idx]
		} else {
			rhs = sp.spec.Values[0]
		}
		order = append(order, addFunc(fi, []ast.Stmt{assign(lhs, rhs)}))
	}
	var initCalls []string
	for i := range files {
		for _, s := range inits[i] {
			initCalls = append(initCalls, s.(*ast.ExprStmt).X.(*ast.CallExpr).Fun.(*ast.Ident).Name)
		}
	}

	for i, f := range files {
		addImport(f, uses[i])
		var buf bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), f); err != nil {
			die("print: %v", err)
		}
		name := filepath.Base(p.GoFiles[i])
		// file name suffixes must not be read as build constraints twice
		name = "v_" + strings.TrimSuffix(name, ".go") + "_x.go"
		path := filepath.Join(outDir, name)
		if err := os.WriteFile(path, buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
		add(name, path)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport %s %q\n\nfunc init() {\n\t%s.OnReset(func() {\n", p.Name, vrtName, vrtPath, vrtName)
	for _, o := range order {
		fmt.Fprintf(&sb, "\t\t%s()\n", o)
	}
	for _, o := range initCalls {
		fmt.Fprintf(&sb, "\t\t%s()\n", o)
	}
	sb.WriteString("\t})\n")
	for _, o := range initCalls {
		fmt.Fprintf(&sb, "\t%s()\n", o)
	}
	sb.WriteString("}\n")
	path := filepath.Join(outDir, "vrt_reset_x.go")
	if err := os.WriteFile(path, []byte(sb.String()), 0o644); err != nil {
		die("%v", err)
	}
	add("vrt_reset_x.go", path)
}

func assign(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}
}

func define(rhs ast.Expr, names ...string) ast.Stmt {
	var l []ast.Expr
	for _, n := range names {
		l = append(l, ast.NewIdent(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func addImport(f *ast.File, vrt bool) {
	if !vrt {
		return
	}
	spec := &ast.ImportSpec{Name: ast.NewIdent(vrtName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vrtPath)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

func (r *rw) file(f *ast.File, modPath string) {
	f.Comments = nil
	f.Doc = nil
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if n, ok := shims[path]; ok {
			if path == "math/rand/v2" && s.Name == nil {
				s.Name = ast.NewIdent("rand")
			}
			s.Path.Value = strconv.Quote(n)
		} else if path == modPath || strings.HasPrefix(path, modPath+"/") {
			s.Path.Value = strconv.Quote("verifmc/modbus" + strings.TrimPrefix(path, modPath))
		}
	}
	r.walk(reflect.ValueOf(f))
}

// walk rewrites children first, then the node held in each interface slot.
func (r *rw) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch n := v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.ImportSpec, *ast.Ident, *ast.BasicLit:
			return
		case *ast.GoStmt, *ast.SelectStmt, *ast.RangeStmt:
			_ = n
		}
		r.walk(v.Elem())
	case reflect.Struct:
		if ce, ok := v.Addr().Interface().(*ast.CallExpr); ok {
			_ = ce
		}
		// "v, ok := <-ch" needs the two-value form
		switch n := v.Addr().Interface().(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := recvOf(n.Rhs[0]); u != nil {
					r.walk(reflect.ValueOf(n.Lhs))
					r.walkExprSlot(&u.X)
					n.Rhs[0] = r.call("Recv2", u.X)
					return
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := recvOf(n.Values[0]); u != nil {
					r.walkExprSlot(&u.X)
					n.Values[0] = r.call("Recv2", u.X)
					return
				}
			}
		case *ast.SelectStmt:
			r.walkSelectChildren(n)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			r.walk(f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		r.walk(v.Elem())
		switch n := v.Interface().(type) {
		case ast.Expr:
			if x := r.expr(n); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		case ast.Stmt:
			if x := r.stmt(n); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		}
	}
}

func (r *rw) walkExprSlot(e *ast.Expr) { r.walk(reflect.ValueOf(e).Elem()) }

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
		}
		return nil
	}
}

func (r *rw) vrt(name string) ast.Expr {
	r.usesVrt = true
	return &ast.SelectorExpr{X: ast.NewIdent(vrtName), Sel: ast.NewIdent(name)}
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vrt(name), Args: args}
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rw) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rw) isMap(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv", x.X)
		}
	case *ast.CallExpr:
		if len(x.Args) == 1 {
			if r.isBuiltin(x.Fun, "close") {
				return r.call("Close", x.Args[0])
			}
			if r.isBuiltin(x.Fun, "len") && r.isChan(x.Args[0]) {
				return r.call("Len", x.Args[0])
			}
		}
	}
	return nil
}

func (r *rw) tmp(p string) string {
	r.n++
	return fmt.Sprintf("vrt_%s%d", p, r.n)
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("Send", x.Chan), Args: []ast.Expr{x.Value}}}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt: // the call is not held in an interface slot
		if c, ok := r.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeChan(x)
		}
		if r.isMap(x.X) {
			return r.rangeMap(x)
		}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	}
	return nil
}

func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: r.call("Go", fl)}
		}
	}
	var list []ast.Stmt
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if c.Ellipsis != token.NoPos {
		nc.Ellipsis = 1
	}
	if _, isLit := c.Fun.(*ast.FuncLit); isLit {
		nc.Fun = c.Fun
	} else if tv, ok := r.info.Types[c.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		nc.Fun = c.Fun
	} else {
		f := r.tmp("f")
		list = append(list, define(c.Fun, f))
		nc.Fun = ast.NewIdent(f)
	}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			nc.Args = append(nc.Args, a)
			continue
		}
		if _, isLit := a.(*ast.FuncLit); isLit {
			nc.Args = append(nc.Args, a)
			continue
		}
		n := r.tmp("a")
		list = append(list, define(a, n))
		nc.Args = append(nc.Args, ast.NewIdent(n))
	}
	if r.isBuiltin(c.Fun, "close") {
		nc = r.call("Close", nc.Args...)
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	list = append(list, &ast.ExprStmt{X: r.call("Go", fl)})
	return &ast.BlockStmt{List: list}
}

func (r *rw) rangeChan(x *ast.RangeStmt) ast.Stmt {
	ch := r.tmp("c")
	v, ok := r.tmp("v"), r.tmp("ok")
	var pre []ast.Stmt
	brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	if x.Key == nil {
		pre = append(pre, define(r.call("Recv2", ast.NewIdent(ch)), "_", ok), brk)
	} else {
		pre = append(pre, define(r.call("Recv2", ast.NewIdent(ch)), v, ok), brk)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}})
	}
	init := define(x.X, ch)
	if id, ok := x.Key.(*ast.Ident); ok && x.Tok == token.DEFINE && id.Name != "_" {
		// the variable is declared where a range clause would declare it
		init = define(r.call("RangeChan", x.X), ch, id.Name)
	}
	return &ast.ForStmt{Init: init, Body: &ast.BlockStmt{List: append(pre, x.Body)}}
}

// rangeMap makes the order of a walk over a map reproducible.
func (r *rw) rangeMap(x *ast.RangeStmt) ast.Stmt {
	it := r.tmp("m")
	get := func(f string) ast.Expr {
		return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent(f)}}
	}
	var lhs, rhs []ast.Expr
	decl := []string{it, "_", "_"}
	for i, e := range []ast.Expr{x.Key, x.Value} {
		id, ok := e.(*ast.Ident)
		if e == nil || ok && id.Name == "_" {
			continue
		}
		if x.Tok == token.DEFINE { // declared where the range clause declared it
			decl[i+1] = id.Name
		}
		lhs, rhs = append(lhs, e), append(rhs, get([]string{"Key", "Val"}[i]))
	}
	var pre []ast.Stmt
	if len(lhs) > 0 {
		pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs})
	}
	return &ast.ForStmt{Init: define(r.call("RangeMap", x.X), decl...), Cond: get("Next"),
		Body: &ast.BlockStmt{List: append(pre, x.Body)}}
}

func (r *rw) walkSelectChildren(s *ast.SelectStmt) {
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			r.walkExprSlot(&m.Chan)
			r.walkExprSlot(&m.Value)
		case *ast.ExprStmt:
			u := recvOf(m.X)
			r.walkExprSlot(&u.X)
		case *ast.AssignStmt:
			u := recvOf(m.Rhs[0])
			r.walkExprSlot(&u.X)
			r.walk(reflect.ValueOf(m.Lhs))
		}
		r.walk(reflect.ValueOf(cc.Body))
	}
}

func (r *rw) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("Select", ast.NewIdent("false"))}}}}
	}
	var names []ast.Expr
	var vals []ast.Expr
	var clauses []ast.Stmt
	hasDefault := "false"
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		cl := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDefault = "true"
			cl.Body = cc.Body
			clauses = append(clauses, cl)
			continue
		}
		n := r.tmp("s")
		names = append(names, ast.NewIdent(n))
		cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		var pre []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, &ast.CallExpr{Fun: r.call("SendCase", m.Chan), Args: []ast.Expr{m.Value}})
		case *ast.ExprStmt:
			vals = append(vals, r.call("RecvCase", recvOf(m.X).X))
		case *ast.AssignStmt:
			vals = append(vals, r.call("RecvCase", recvOf(m.Rhs[0]).X))
			rhs := []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent("Val")}}}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent("Ok")}})
			}
			pre = append(pre, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rhs})
		}
		cl.Body = append(pre, cc.Body...)
		clauses = append(clauses, cl)
	}
	if hasDefault == "false" {
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil // keeps the statement terminating
	}
	sel := r.call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, names...)...)
	sw := &ast.SwitchStmt{Tag: sel, Body: &ast.BlockStmt{List: clauses}}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	return sw
}
