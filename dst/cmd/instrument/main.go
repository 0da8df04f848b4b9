// Command instrument copies the non-test Go sources of the repository under test
// into a scratch module and puts its sources of nondeterminism behind the
// simulator's seams: package sync, the entropy sources, the clock and the go
// statement are redirected, and a scheduling point is inserted before every
// statement.
//
//	instrument -src /repo -out DIR -sim /verif/dst -level 2
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	src   = flag.String("src", "/repo", "repository")
	out   = flag.String("out", "", "output directory")
	simd  = flag.String("sim", "", "simulator module directory")
	level = flag.Int("level", 3, "0: seams only, 1: + statement yields, 2: + operand yields, 3: + map accesses")
)

const module = "github.com/keyfuse/tokucore"

var redirect = map[string]string{
	"sync":        "vsim/simsync",
	"crypto/rand": "vsim/simrand",
	"math/rand":   "vsim/simmrand",
}

type site struct{ name string }

var sites []string
var pkgs []string

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	flag.Parse()
	ctx := build.Default
	var dirs []string
	filepath.Walk(*src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != *src && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || (b == "examples" && filepath.Dir(p) == filepath.Clean(*src))) {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	sort.Strings(dirs)
	goVersion := "1.21"
	if b, err := os.ReadFile(filepath.Join(*src, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
				goVersion = f[1]
			}
		}
	}
	for _, d := range dirs {
		rel, _ := filepath.Rel(*src, d)
		ents, _ := os.ReadDir(d)
		var files []string
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := ctx.MatchFile(d, n); err != nil || !ok {
				continue
			}
			files = append(files, n)
		}
		od := filepath.Join(*out, rel)
		// embedded assets, if a package ever has any
		for _, e := range ents {
			if fi, err := e.Info(); err == nil && fi.Mode().IsRegular() && fi.Size() < 8<<20 && !strings.HasSuffix(e.Name(), ".go") && rel != "." {
				if b, err := os.ReadFile(filepath.Join(d, e.Name())); err == nil {
					os.MkdirAll(od, 0o755)
					os.WriteFile(filepath.Join(od, e.Name()), b, 0o644)
				}
			}
		}
		if len(files) == 0 {
			continue
		}
		pkgs = append(pkgs, rel)
		pi := len(pkgs) - 1
		if err := os.MkdirAll(od, 0o755); err != nil {
			fatal("%v", err)
		}
		var pkgName string
		var vars []string
		maps := mapNames(d, files)
		for _, n := range files {
			b, err := os.ReadFile(filepath.Join(d, n))
			if err != nil {
				fatal("%v", err)
			}
			if f, err := parser.ParseFile(token.NewFileSet(), n, b, parser.SkipObjectResolution); err == nil {
				pkgName = f.Name.Name
				vars = append(vars, pkgVars(f)...)
			}
			res, err := instrument(filepath.Join(rel, n), b, pi, maps)
			if err != nil {
				fatal("%s: %v", filepath.Join(rel, n), err)
			}
			if err := os.WriteFile(filepath.Join(od, n), res, 0o644); err != nil {
				fatal("%v", err)
			}
		}
		// package-level state is brought back to its initial value before every run
		if len(vars) > 0 && pkgName != "main" {
			var w bytes.Buffer
			fmt.Fprintf(&w, "package %s\n\nimport vsim__ \"vsim/sim\"\n\nfunc init() {\n", pkgName)
			for _, v := range vars {
				fmt.Fprintf(&w, "\tvsim__.RegisterVar(&%s)\n", v)
			}
			w.WriteString("}\n")
			if err := os.WriteFile(filepath.Join(od, "zz_simvars.go"), w.Bytes(), 0o644); err != nil {
				fatal("%v", err)
			}
		}
	}
	mod := fmt.Sprintf("module %s\n\ngo %s\n\nrequire vsim v0.0.0\n", module, goVersion)
	os.WriteFile(filepath.Join(*out, "go.mod"), []byte(mod), 0o644)
	os.MkdirAll(filepath.Join(*out, "vsites"), 0o755)
	var w bytes.Buffer
	fmt.Fprintf(&w, "// Package vsites names the scheduling points.\npackage vsites\n\nimport \"vsim/sim\"\n\n// Packages lists the instrumented packages.\nvar Packages = %#v\n\nfunc init() { sim.RegisterSites(%#v) }\n", pkgs, sites)
	os.WriteFile(filepath.Join(*out, "vsites", "sites.go"), w.Bytes(), 0o644)
	fmt.Printf("instrumented %d packages, %d scheduling points, level %d\n", len(pkgs), len(sites), *level)
}

// pkgVars lists the package-level variables a file declares.
func pkgVars(f *ast.File) (o []string) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			for _, n := range sp.(*ast.ValueSpec).Names {
				if n.Name != "_" {
					o = append(o, n.Name)
				}
			}
		}
	}
	return
}

type inst struct {
	fset    *token.FileSet
	rel     string
	pkg     int
	timePkg string
	tmp     int
	usedSim bool
	usedNow bool
	fn      string
	maps    map[string]bool
}

func instrument(rel string, b []byte, pkg int, maps map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	raw := bytes.Contains(b, []byte("//go:embed")) || bytes.Contains(b, []byte("import \"C\"")) || bytes.Contains(b, []byte("//go:linkname"))
	if raw {
		return b, nil
	}
	f, err := parser.ParseFile(fset, rel, b, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	in := &inst{fset: fset, rel: rel, pkg: pkg, maps: maps}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		if p == "time" {
			in.timePkg = name
		}
		if r, ok := redirect[p]; ok {
			im.Path.Value = strconv.Quote(r)
			im.EndPos = 0
			if im.Name == nil {
				im.Name = ast.NewIdent(name)
			}
		}
	}
	// clock
	if in.timePkg != "" && in.timePkg != "_" && in.timePkg != "." {
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := s.X.(*ast.Ident)
			if !ok || x.Name != in.timePkg {
				return true
			}
			switch s.Sel.Name {
			case "Now", "Since", "Until":
				s.X = ast.NewIdent("vsim__")
				in.usedSim, in.usedNow = true, true
			}
			return true
		})
	}
	if *level >= 3 && len(maps) > 0 {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				in.fn = fd.Name.Name
				in.mapAccesses(fd.Body)
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			in.fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				in.fn = recvName(fd.Recv.List[0].Type) + "." + in.fn
			}
			in.block(fd.Body)
		} else if gd, ok := d.(*ast.GenDecl); ok {
			in.fn = "init"
			ast.Inspect(gd, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					in.block(fl.Body)
					return false
				}
				return true
			})
		}
	}
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	res := buf.Bytes()
	if in.usedSim {
		// after the package clause
		i := bytes.Index(res, []byte("\npackage "))
		if bytes.HasPrefix(res, []byte("package ")) {
			i = -1
		}
		j := i + 1 + bytes.IndexByte(res[i+1:], '\n')
		var o bytes.Buffer
		o.Write(res[:j+1])
		o.WriteString("\nimport vsim__ \"vsim/sim\"\n")
		o.Write(res[j+1:])
		if in.usedNow {
			fmt.Fprintf(&o, "\nvar _ = %s.Second\n", in.timePkg)
		}
		res = o.Bytes()
	}
	return res, nil
}

func recvName(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.StarExpr:
		return recvName(t.X)
	case *ast.Ident:
		return t.Name
	case *ast.IndexExpr:
		return recvName(t.X)
	}
	return "?"
}

func (in *inst) site(n ast.Node) *ast.BasicLit {
	line := 0
	if n != nil && n.Pos().IsValid() {
		line = in.fset.Position(n.Pos()).Line
	}
	sites = append(sites, fmt.Sprintf("%s:%d(%s)", in.rel, line, in.fn))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(in.pkg<<20 | (len(sites) - 1))}
}

func (in *inst) call(name string, args ...ast.Expr) *ast.CallExpr {
	in.usedSim = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsim__"), Sel: ast.NewIdent(name)}, Args: args}
}

func (in *inst) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.list(b.List)
	}
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		if *level >= 1 {
			switch s.(type) {
			case *ast.EmptyStmt:
			default:
				o = append(o, &ast.ExprStmt{X: in.call("Yield", in.site(s))})
			}
		}
		o = append(o, in.stmt(s)...)
	}
	return o
}

func one(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }

// stmt rewrites one statement, returning its replacement(s).
func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	switch t := s.(type) {
	case *ast.BlockStmt:
		in.block(t)
	case *ast.IfStmt:
		in.simple(t.Init)
		in.expr(t.Cond)
		in.block(t.Body)
		if t.Else != nil {
			r := in.stmt(t.Else)
			if len(r) == 1 {
				t.Else = r[0]
			}
		}
	case *ast.ForStmt:
		in.simple(t.Init)
		in.expr(t.Cond)
		in.simple(t.Post)
		in.block(t.Body)
		if *level >= 1 && len(t.Body.List) == 0 {
			t.Body.List = []ast.Stmt{&ast.ExprStmt{X: in.call("Yield", in.site(t))}}
		}
	case *ast.RangeStmt:
		in.expr(t.X)
		in.block(t.Body)
	case *ast.SwitchStmt:
		in.simple(t.Init)
		in.expr(t.Tag)
		in.cases(t.Body)
	case *ast.TypeSwitchStmt:
		in.simple(t.Init)
		in.cases(t.Body)
	case *ast.SelectStmt:
		in.cases(t.Body)
	case *ast.LabeledStmt:
		r := in.stmt(t.Stmt)
		t.Stmt = r[len(r)-1]
		return append(r[:len(r)-1:len(r)-1], t)
	case *ast.GoStmt:
		return in.goStmt(t)
	case *ast.IncDecStmt:
		in.expr(t.X)
		if *level >= 2 && shared(t.X) {
			op := token.ADD
			if t.Tok == token.DEC {
				op = token.SUB
			}
			return one(&ast.AssignStmt{Lhs: []ast.Expr{t.X}, Tok: token.ASSIGN,
				Rhs: []ast.Expr{&ast.BinaryExpr{X: in.call("Y", t.X, in.site(t)), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
		}
	case *ast.AssignStmt:
		for _, e := range t.Rhs {
			in.expr(e)
		}
		for _, e := range t.Lhs {
			in.expr(e)
		}
		if *level >= 2 && len(t.Lhs) == 1 && len(t.Rhs) == 1 && shared(t.Lhs[0]) {
			lhs := t.Lhs[0]
			if t.Tok == token.ASSIGN {
				if be, ok := t.Rhs[0].(*ast.BinaryExpr); ok && same(in.fset, lhs, be.X) && be.Op != token.SHL && be.Op != token.SHR {
					be.X = in.call("Y", be.X, in.site(t))
				} else if c, ok := t.Rhs[0].(*ast.CallExpr); ok && isAppendTo(in.fset, c, lhs) {
					t.Rhs[0] = in.call("Y", c, in.site(t))
				}
			}
		}
	default:
		ast.Inspect(s, in.visit)
	}
	return one(s)
}

func isAppendTo(fs *token.FileSet, c *ast.CallExpr, lhs ast.Expr) bool {
	id, ok := c.Fun.(*ast.Ident)
	return ok && id.Name == "append" && len(c.Args) > 0 && same(fs, c.Args[0], lhs)
}

func same(fs *token.FileSet, a, b ast.Expr) bool {
	var x, y bytes.Buffer
	format.Node(&x, fs, a)
	format.Node(&y, fs, b)
	return x.String() == y.String()
}

// shared: an operand that other tasks may reach (a field or an element), whose
// own evaluation has no side effect.
func shared(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.SelectorExpr:
		return pure(t.X)
	}
	return false
}

func pure(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(t.X)
	case *ast.StarExpr:
		return pure(t.X)
	case *ast.ParenExpr:
		return pure(t.X)
	}
	return false
}

func (in *inst) simple(s ast.Stmt) {
	if s != nil {
		ast.Inspect(s, in.visit)
	}
}

func (in *inst) expr(e ast.Expr) {
	if e != nil {
		ast.Inspect(e, in.visit)
	}
}

func (in *inst) visit(n ast.Node) bool {
	if fl, ok := n.(*ast.FuncLit); ok {
		in.block(fl.Body)
		return false
	}
	return true
}

func (in *inst) cases(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch t := c.(type) {
		case *ast.CaseClause:
			t.Body = in.list(t.Body)
		case *ast.CommClause:
			t.Body = in.list(t.Body)
		}
	}
}

// goStmt turns "go f(a, b)" into "{ f, a, b evaluated now; sim.GoStmt(func(){...}) }".
func (in *inst) goStmt(g *ast.GoStmt) []ast.Stmt {
	c := g.Call
	in.expr(c)
	var pre []ast.Stmt
	mk := func(e ast.Expr) ast.Expr {
		in.tmp++
		id := ast.NewIdent(fmt.Sprintf("vgo%d__", in.tmp))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(id.Name)
	}
	if _, ok := c.Fun.(*ast.FuncLit); !ok {
		builtin := false
		if id, ok := c.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "close", "panic", "print", "println", "delete", "copy", "recover":
				builtin = true
			}
		}
		if !builtin {
			c.Fun = mk(c.Fun)
		}
	}
	for i, a := range c.Args {
		switch x := a.(type) {
		case *ast.BasicLit:
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
				continue
			}
			c.Args[i] = mk(a)
		default:
			c.Args[i] = mk(a)
		}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	pre = append(pre, &ast.ExprStmt{X: in.call("GoStmt", lit)})
	if len(pre) == 1 {
		return pre
	}
	return one(&ast.BlockStmt{List: pre})
}

// mapNames finds the names a package uses for maps and for nothing else.
func mapNames(dir string, files []string) map[string]bool {
	yes, no, types := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var fs []*ast.File
	for _, n := range files {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		fs = append(fs, f)
		ast.Inspect(f, func(n ast.Node) bool {
			if t, ok := n.(*ast.TypeSpec); ok {
				if _, ok := t.Type.(*ast.MapType); ok {
					types[t.Name.Name] = true
				}
			}
			return true
		})
	}
	isMap := func(e ast.Expr) bool {
		switch t := e.(type) {
		case *ast.MapType:
			return true
		case *ast.Ident:
			return types[t.Name]
		}
		return false
	}
	makesMap := func(e ast.Expr) bool {
		switch t := e.(type) {
		case *ast.CompositeLit:
			return t.Type != nil && isMap(t.Type)
		case *ast.CallExpr:
			id, ok := t.Fun.(*ast.Ident)
			return ok && id.Name == "make" && len(t.Args) > 0 && isMap(t.Args[0])
		}
		return false
	}
	note := func(id *ast.Ident, m bool) {
		if m {
			yes[id.Name] = true
		} else {
			no[id.Name] = true
		}
	}
	for _, f := range fs {
		ast.Inspect(f, func(n ast.Node) bool {
			switch t := n.(type) {
			case *ast.ValueSpec:
				for i, id := range t.Names {
					note(id, t.Type != nil && isMap(t.Type) || t.Type == nil && i < len(t.Values) && makesMap(t.Values[i]))
				}
			case *ast.Field:
				for _, id := range t.Names {
					note(id, isMap(t.Type))
				}
			case *ast.AssignStmt:
				if t.Tok == token.DEFINE {
					for i, e := range t.Lhs {
						if id, ok := e.(*ast.Ident); ok {
							note(id, len(t.Lhs) == len(t.Rhs) && makesMap(t.Rhs[i]))
						}
					}
				}
			case *ast.RangeStmt:
				if t.Tok == token.DEFINE {
					for _, e := range []ast.Expr{t.Key, t.Value} {
						if id, ok := e.(*ast.Ident); ok {
							note(id, false)
						}
					}
				}
			case *ast.FuncDecl:
				note(t.Name, false)
			}
			return true
		})
	}
	for n := range no {
		delete(yes, n)
	}
	return yes
}

func (in *inst) mapExpr(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.Ident:
		return in.maps[t.Name]
	case *ast.SelectorExpr:
		return in.maps[t.Sel.Name] && pure(t.X)
	}
	return false
}

// mapAccesses puts the map accesses of a function behind sim.RM and sim.WM.
func (in *inst) mapAccesses(b ast.Node) {
	write := map[ast.Expr]bool{}
	ast.Inspect(b, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.AssignStmt:
			for _, e := range t.Lhs {
				if t.Tok != token.DEFINE {
					write[e] = true
				}
			}
		case *ast.IncDecStmt:
			write[t.X] = true
		}
		return true
	})
	ast.Inspect(b, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.IndexExpr:
			if in.mapExpr(t.X) {
				name := "RM"
				if write[t] {
					name = "WM"
				}
				t.X = in.call(name, t.X, in.site(t))
			}
		case *ast.RangeStmt:
			if in.mapExpr(t.X) {
				t.X = in.call("RM", t.X, in.site(t))
			}
		case *ast.CallExpr:
			if id, ok := t.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(t.Args) > 0 && in.mapExpr(t.Args[0]) {
				t.Args[0] = in.call("WM", t.Args[0], in.site(t))
			}
		}
		return true
	})
}
