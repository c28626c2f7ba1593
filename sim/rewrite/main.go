// Command rewrite prepares a simulated build of the program under test: it type-checks the
// current sources, writes copies in which goroutines, locks, channels, files, clocks and map
// iteration go through the simulator, and writes the overlay file that puts the copies, the
// simulator and the driver in place.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const base = "ecksbee.com/telefacts/vsim"

// shims maps a package to its stand-in.
var shims = map[string]string{
	"sync":          "ssync",
	"sync/atomic":   "satomic",
	"os":            "sos",
	"io/ioutil":     "sioutil",
	"path/filepath": "sfilepath",
	"time":          "stime",
	"context":       "scontext",
	"os/signal":     "ssignal",
	"net/http":      "shttp",
	"net":           "snet",
	"runtime":       "sruntime",
	"maps":          "smaps",
	"math/rand":     "srand",
	"math/rand/v2":  "srand",
	"crypto/rand":   "scrand",
	"io":            "sio",
	"log":           "slog",
}

// moved maps a dependency that is rewritten too to its place in the overlay.
var moved = map[string]string{"github.com/patrickmn/go-cache": base + "/gocache"}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	rt := flag.String("runtime", "", "")
	drv := flag.String("driver", "", "")
	flag.Parse()

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Module,Error", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var own []*pkgInfo
	var deps []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Path == "ecksbee.com/telefacts" {
			if p.Error != nil {
				die("package %s: %s", p.ImportPath, p.Error.Err)
			}
			if len(p.GoFiles) > 0 {
				q := p
				own = append(own, &q)
			}
		} else if moved[p.ImportPath] != "" {
			q := p
			deps = append(deps, &q)
		}
	}
	names := shimNames(*rt)
	os.RemoveAll(filepath.Join(*out, "src"))
	overlay := map[string]string{}
	imp := importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var resetPkgs []string
	for _, p := range append(own, deps...) {
		destDir := p.Dir
		name := p.Name
		asApp := false
		if m := moved[p.ImportPath]; m != "" {
			destDir = filepath.Join(*repo, strings.TrimPrefix(m, "ecksbee.com/telefacts/"))
		}
		if p.Name == "main" {
			if p.ImportPath != "ecksbee.com/telefacts/cmd/telefacts" {
				continue
			}
			destDir = filepath.Join(*repo, "vsim", "app")
			name = "app"
			asApp = true
		}
		files, err := rewritePkg(p, imp, names, name, asApp, *repo)
		if err != nil {
			die("%s: %v", p.ImportPath, err)
		}
		for fn, src := range files {
			gen := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_"), fn)
			os.MkdirAll(filepath.Dir(gen), 0755)
			if err := os.WriteFile(gen, src, 0644); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(destDir, fn)] = gen
		}
		resetPkgs = append(resetPkgs, p.ImportPath)
	}
	plainPool(overlay, *out)
	addTree(overlay, *rt, filepath.Join(*repo, "vsim"))
	addTree(overlay, *drv, filepath.Join(*repo, "vsim", "drv"))
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0644); err != nil {
		die("%v", err)
	}
}

// plainPool takes the reuse out of sync.Pool. Under the race detector the pool drops values at
// random and orders the goroutines that share one, so that libraries (fmt, regexp) would hide a
// race in one run and not in the next.
func plainPool(overlay map[string]string, out string) {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env: %v", err)
	}
	file := filepath.Join(strings.TrimSpace(string(root)), "src", "sync", "pool.go")
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	put, get := "func (p *Pool) Put(x any) {\n", "func (p *Pool) Get() any {\n"
	s := string(b)
	if !strings.Contains(s, put) || !strings.Contains(s, get) {
		die("sync.Pool does not look as expected")
	}
	s = strings.Replace(s, put, put+"\tif race.Enabled {\n\t\treturn\n\t}\n", 1)
	s = strings.Replace(s, get, get+"\tif race.Enabled {\n\t\tif p.New == nil {\n\t\t\treturn nil\n\t\t}\n\t\treturn p.New()\n\t}\n", 1)
	gen := filepath.Join(out, "pool.go")
	if err := os.WriteFile(gen, []byte(s), 0644); err != nil {
		die("%v", err)
	}
	overlay[file] = gen
}

func addTree(overlay map[string]string, from, to string) {
	filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			rel, _ := filepath.Rel(from, p)
			overlay[filepath.Join(to, rel)] = p
		}
		return nil
	})
}

// shimNames lists the exported package-level names of each stand-in.
func shimNames(rt string) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for _, s := range shims {
		if out[s] != nil {
			continue
		}
		out[s] = map[string]bool{}
		fset := token.NewFileSet()
		pkgs, err := parser.ParseDir(fset, filepath.Join(rt, s), nil, 0)
		if err != nil {
			die("stand-in %s: %v", s, err)
		}
		for _, p := range pkgs {
			for _, f := range p.Files {
				for _, d := range f.Decls {
					switch d := d.(type) {
					case *ast.FuncDecl:
						if d.Recv == nil && d.Name.IsExported() {
							out[s][d.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, sp := range d.Specs {
							switch sp := sp.(type) {
							case *ast.TypeSpec:
								if sp.Name.IsExported() {
									out[s][sp.Name.Name] = true
								}
							case *ast.ValueSpec:
								for _, n := range sp.Names {
									if n.IsExported() {
										out[s][n.Name] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

type rewriter struct {
	fset   *token.FileSet
	info   *types.Info
	names  map[string]map[string]bool
	rel    string
	used   map[string]bool // stand-ins used in this file
	kind   map[ast.Node]string
	blocks map[*ast.BlockStmt]bool
	n      int
	err    error
}

func rewritePkg(p *pkgInfo, imp types.Importer, names map[string]map[string]bool, newName string, asApp bool, repo string) (map[string][]byte, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, fn := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, fn), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.22", Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return nil, fmt.Errorf("type check: %v", err)
	}
	// package variables and init functions, for the simulated restart
	varFn := map[*types.Var]string{} // variable -> function that sets it again
	nInit := 0
	nSet := 0
	var initFns []string
	out := map[string][]byte{}
	type extra struct{ decls []ast.Decl }
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, names: names, used: map[string]bool{}, kind: map[ast.Node]string{}, blocks: map[*ast.BlockStmt]bool{}}
		r.rel, _ = filepath.Rel(repo, fset.Position(f.Pos()).Filename)
		if strings.HasPrefix(r.rel, "..") {
			r.rel = p.Name + "/" + p.GoFiles[i]
		}
		r.walk(reflect.ValueOf(f))
		if r.err != nil {
			return nil, r.err
		}
		var add []ast.Decl
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					nInit++
					fn := fmt.Sprintf("vsimInitFn%d", nInit)
					d.Name = ast.NewIdent(fn)
					initFns = append(initFns, fn)
				}
				if asApp && d.Recv == nil && d.Name.Name == "main" {
					d.Name = ast.NewIdent("Main")
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					var real []*ast.Ident
					for _, n := range vs.Names {
						if n.Name != "_" {
							real = append(real, n)
						}
					}
					if len(real) == 0 {
						continue
					}
					mk := func(body ast.Stmt, vars ...*ast.Ident) {
						nSet++
						fn := fmt.Sprintf("vsimSetVar%d", nSet)
						add = append(add, &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}})
						for _, v := range vars {
							if o, ok := info.Defs[v].(*types.Var); ok {
								varFn[o] = fn
							}
						}
					}
					switch {
					case len(vs.Values) == 0:
						for _, n := range real {
							mk(&ast.ExprStmt{X: r.call("Zero", &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n.Name)})}, n)
						}
					case len(vs.Values) == len(vs.Names):
						for k, n := range vs.Names {
							if n.Name != "_" {
								mk(&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{vs.Values[k]}}, n)
							}
						}
					default:
						var lhs []ast.Expr
						for _, n := range vs.Names {
							lhs = append(lhs, ast.NewIdent(n.Name))
						}
						mk(&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vs.Values}, real...)
					}
				}
			}
		}
		f.Decls = append(f.Decls, add...)
		if newName != p.Name {
			f.Name = ast.NewIdent(newName)
		}
		r.fixImports(f)
		f.Comments = nil
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			return nil, err
		}
		out[p.GoFiles[i]] = buf.Bytes()
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport vsim %q\n\nfunc init() {\n", newName, base)
	fmt.Fprintf(&b, "\tvsim.RegisterReset(func() {\n")
	done := map[string]bool{}
	initialised := map[*types.Var]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			initialised[v] = true
		}
	}
	var zero []string
	for v, fn := range varFn {
		if !initialised[v] {
			zero = append(zero, fn)
		}
	}
	sort.Strings(zero)
	for _, fn := range zero {
		if !done[fn] {
			done[fn] = true
			fmt.Fprintf(&b, "\t\t%s()\n", fn)
		}
	}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			if fn := varFn[v]; fn != "" && !done[fn] {
				done[fn] = true
				fmt.Fprintf(&b, "\t\t%s()\n", fn)
			}
		}
	}
	for _, fn := range initFns {
		fmt.Fprintf(&b, "\t\t%s()\n", fn)
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	out["zz_vsim_reset.go"] = []byte(b.String())
	return out, nil
}

// walk rewrites the tree bottom up.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
			return
		}
		if v.Elem().Kind() == reflect.Struct {
			r.walkStruct(v.Elem())
		}
		r.after(v.Interface())
	case reflect.Interface:
		if !v.IsNil() {
			r.walk(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.slot(v.Index(i))
		}
	}
}

func (r *rewriter) walkStruct(s reflect.Value) {
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		switch f.Kind() {
		case reflect.Pointer, reflect.Interface, reflect.Slice:
			r.slot(f)
		}
	}
}

func (r *rewriter) slot(f reflect.Value) {
	if f.Kind() != reflect.Slice && !f.IsValid() {
		return
	}
	r.walk(f)
	if f.Kind() == reflect.Interface && !f.IsNil() {
		if n, ok := f.Interface().(ast.Node); ok {
			if m := r.replace(n); m != nil && f.CanSet() {
				f.Set(reflect.ValueOf(m))
			}
		}
	}
}

// after adjusts a node in place once its children are done.
func (r *rewriter) after(x any) {
	step := func() ast.Stmt { return &ast.ExprStmt{X: r.call("Step")} }
	switch n := x.(type) {
	case *ast.BlockStmt:
		n.List = r.points(n.List)
	case *ast.CaseClause:
		n.Body = r.points(n.Body)
	case *ast.CommClause:
		n.Body = r.points(n.Body)
	case *ast.FuncDecl:
		if n.Body != nil {
			n.Body.List = append([]ast.Stmt{step()}, n.Body.List...)
		}
	case *ast.FuncLit:
		n.Body.List = append([]ast.Stmt{step()}, n.Body.List...)
	case *ast.ForStmt:
		n.Body.List = append([]ast.Stmt{step()}, n.Body.List...)
	case *ast.DeferStmt:
		if m, ok := r.replace(n.Call).(*ast.CallExpr); ok {
			n.Call = m
		}
	case *ast.GoStmt:
		if m, ok := r.replace(n.Call).(*ast.CallExpr); ok {
			n.Call = m
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			r.toRecv2(n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			r.toRecv2(n.Values[0])
		}
	}
}

// points puts a possible preemption before every statement of a list.
func (r *rewriter) points(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return list
		}
		out = append(out, &ast.ExprStmt{X: r.call("At")}, s)
		if v := r.grown(s); v != nil {
			out = append(out, &ast.ExprStmt{X: r.call("Grown", v)})
		}
	}
	return out
}

// grown names the string variable that a statement makes longer, which costs as much as the
// string is long.
func (r *rewriter) grown(s ast.Stmt) *ast.Ident {
	a, ok := s.(*ast.AssignStmt)
	if !ok || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
		return nil
	}
	v, ok := a.Lhs[0].(*ast.Ident)
	if !ok || v.Name == "_" {
		return nil
	}
	if a.Tok != token.ADD_ASSIGN {
		b, ok := a.Rhs[0].(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD {
			return nil
		}
	}
	t := r.typeOf(v)
	if t == nil {
		return nil
	}
	if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return nil
	}
	return &ast.Ident{Name: v.Name}
}

func (r *rewriter) toRecv2(e ast.Expr) {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if c, ok := e.(*ast.CallExpr); ok && r.kind[c] == "recv" {
		c.Fun = r.sel("Recv2")
		r.kind[c] = "recv2"
	}
}

func (r *rewriter) sel(name string) ast.Expr {
	r.used["vsim"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsim__rt"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel(name), Args: args}
}

func (r *rewriter) tmp(prefix string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vsim__%s%d", prefix, r.n))
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) builtin(e ast.Expr) string {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if id, ok := e.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// replace returns the node that takes the place of n, or nil.
func (r *rewriter) replace(n ast.Node) ast.Node {
	switch n := n.(type) {
	case *ast.SelectorExpr:
		id, ok := n.X.(*ast.Ident)
		if !ok {
			return nil
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return nil
		}
		s := shims[pn.Imported().Path()]
		if s == "" || !r.names[s][n.Sel.Name] {
			return nil
		}
		r.used[s] = true
		m := &ast.SelectorExpr{X: ast.NewIdent("vsim__" + s), Sel: ast.NewIdent(n.Sel.Name)}
		r.copyType(n, m)
		return m
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.SendStmt:
		inner := r.call("Sender", n.Chan)
		c := &ast.CallExpr{Fun: inner, Args: []ast.Expr{n.Value}}
		r.kind[c] = "send"
		return &ast.ExprStmt{X: c}
	case *ast.UnaryExpr:
		if n.Op != token.ARROW {
			return nil
		}
		c := r.call("Recv", n.X)
		r.kind[c] = "recv"
		r.copyType(n, c)
		return c
	case *ast.CallExpr:
		switch r.builtin(n.Fun) {
		case "make":
			ch, ok := under(r.typeOf(n.Args[0])).(*types.Chan)
			if !ok || ch.Dir() != types.SendRecv {
				return nil
			}
			var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
			if len(n.Args) > 1 {
				size = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{n.Args[1]}}
			}
			c := &ast.CallExpr{Fun: &ast.IndexExpr{X: r.sel("MakeChanAs"), Index: n.Args[0]}, Args: []ast.Expr{size}}
			r.copyType(n, c)
			return c
		case "close":
			return r.call("Close", n.Args[0])
		case "len":
			if _, ok := under(r.typeOf(n.Args[0])).(*types.Chan); ok {
				return r.call("ChanLen", n.Args[0])
			}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(n)
	case *ast.SelectStmt:
		return r.selectStmt(n)
	case *ast.LabeledStmt:
		if b, ok := n.Stmt.(*ast.BlockStmt); ok && r.blocks[b] {
			last := len(b.List) - 1
			b.List[last] = &ast.LabeledStmt{Label: n.Label, Stmt: b.List[last]}
			return b
		}
	}
	return nil
}

func (r *rewriter) copyType(from, to ast.Expr) {
	if tv, ok := r.info.Types[from]; ok {
		r.info.Types[to] = tv
	}
}

func (r *rewriter) goStmt(n *ast.GoStmt) ast.Node {
	pos := r.fset.Position(n.Pos())
	site := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", r.rel, pos.Line))}
	c := n.Call
	var names, vals []ast.Expr
	hold := func(e ast.Expr) ast.Expr {
		id := r.tmp("a")
		names = append(names, id)
		vals = append(vals, e)
		return ast.NewIdent(id.Name)
	}
	fun := c.Fun
	inline := r.builtin(c.Fun) != ""
	switch f := c.Fun.(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Func); ok {
			inline = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				inline = true
			}
			if strings.HasPrefix(id.Name, "vsim__") {
				inline = true
			}
		}
	case *ast.FuncLit:
		inline = true
	case *ast.IndexExpr, *ast.IndexListExpr:
		inline = true
	}
	if !inline {
		fun = hold(c.Fun)
	}
	args := make([]ast.Expr, len(c.Args))
	sig, _ := under(r.typeOf(c.Fun)).(*types.Signature)
	_ = sig
	for i, a := range c.Args {
		tv, ok := r.info.Types[a]
		if ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			args[i] = a
			continue
		}
		args[i] = hold(a)
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
		&ast.ExprStmt{X: &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}}}}}
	goCall := &ast.ExprStmt{X: r.call("Go", site, body)}
	if len(names) == 0 {
		return goCall
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}, goCall}}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) ast.Node {
	t := under(r.typeOf(n.X))
	step := &ast.ExprStmt{X: r.call("Step")}
	switch t.(type) {
	case *types.Map:
		e := r.tmp("e")
		use := func() ast.Expr { return ast.NewIdent(e.Name) }
		meth := func(m string) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: use(), Sel: ast.NewIdent(m)}}
		}
		list := []ast.Stmt{step,
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: meth("Live")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}}
		if !isBlank(n.Key) {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: n.Tok, Rhs: []ast.Expr{meth("K")}})
		}
		if !isBlank(n.Value) {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{n.Value}, Tok: n.Tok, Rhs: []ast.Expr{meth("V")}})
		}
		list = append(list, n.Body)
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE, X: r.call("Entries", n.X), Body: &ast.BlockStmt{List: list}}
	case *types.Chan:
		ch, ok := r.tmp("c"), r.tmp("ok")
		v := ast.Expr(ast.NewIdent("_"))
		recv := r.call("Recv2", ast.NewIdent(ch.Name))
		var list []ast.Stmt
		list = append(list, step)
		if isBlank(n.Key) {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
		} else if n.Tok == token.DEFINE {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{n.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
		} else {
			tv := r.tmp("v")
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{tv, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
		}
		list = append(list, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if !isBlank(n.Key) && n.Tok != token.DEFINE {
			tv := list[1].(*ast.AssignStmt).Lhs[0].(*ast.Ident)
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(tv.Name)}})
		}
		list = append(list, n.Body)
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}}, Body: &ast.BlockStmt{List: list}}
	}
	n.Body.List = append([]ast.Stmt{step}, n.Body.List...)
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) ast.Node {
	var pre []ast.Stmt
	var cases []ast.Expr
	var clauses []ast.Stmt
	sel := r.tmp("s")
	hasDefault := false
	var defBody []ast.Stmt
	idx := 0
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			defBody = cc.Body
			continue
		}
		c := r.tmp("c")
		var body []ast.Stmt
		take := func(call *ast.CallExpr) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Args[0]}})
			cases = append(cases, r.call("CaseRecv", ast.NewIdent(c.Name)))
		}
		switch s := cc.Comm.(type) {
		case *ast.ExprStmt:
			call := unparen(s.X).(*ast.CallExpr)
			if r.kind[call] == "send" {
				inner := call.Fun.(*ast.CallExpr)
				cs := r.tmp("k")
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cs}, Tok: token.DEFINE, Rhs: []ast.Expr{
					&ast.CallExpr{Fun: r.call("CaseSender", inner.Args[0]), Args: call.Args}}})
				cases = append(cases, ast.NewIdent(cs.Name))
			} else {
				take(call)
			}
		case *ast.AssignStmt:
			call := unparen(s.Rhs[0]).(*ast.CallExpr)
			take(call)
			val := ast.Expr(r.call("As", ast.NewIdent(c.Name), ast.NewIdent(sel.Name)))
			rhs := []ast.Expr{val}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(sel.Name), Sel: ast.NewIdent("OK")})
			}
			body = append(body, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs})
		default:
			r.err = fmt.Errorf("unsupported select case %T", cc.Comm)
			return nil
		}
		body = append(body, cc.Body...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	if !hasDefault {
		defBody = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"vsim: select"`}}}}}
	}
	clauses = append(clauses, &ast.CaseClause{Body: defBody})
	args := append([]ast.Expr{ast.NewIdent(fmt.Sprint(hasDefault))}, cases...)
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{sel}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Select", args...)}})
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: ast.NewIdent(sel.Name), Sel: ast.NewIdent("Idx")}, Body: &ast.BlockStmt{List: clauses}}
	b := &ast.BlockStmt{List: append(pre, sw)}
	r.blocks[b] = true
	return b
}

// fixImports drops imports that are no longer used and adds the stand-ins.
func (r *rewriter) fixImports(f *ast.File) {
	usedNames := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.PkgName); ok {
					usedNames[id.Name] = true
				}
			}
		}
		return true
	})
	var specs []ast.Spec
	var keep []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			keep = append(keep, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else if o, ok := r.info.Implicits[is].(*types.PkgName); ok {
				name = o.Name()
			}
			if name != "_" && name != "." && !usedNames[name] {
				continue
			}
			if m := moved[p]; m != "" {
				p = m
			}
			specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
		}
	}
	var us []string
	for u := range r.used {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		if u == "vsim" {
			specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("vsim__rt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base)}})
			continue
		}
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("vsim__" + u), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "/" + u)}})
	}
	f.Imports = nil
	if len(specs) > 0 {
		g := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1}
		keep = append([]ast.Decl{g}, keep...)
	}
	f.Decls = keep
}
