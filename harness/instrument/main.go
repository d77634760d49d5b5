// instrument writes copies of the sources of mint with scheduling points, and
// the overlay that puts them, and the scheduler, into a build.
//
// In mode "all" there is a point before every statement; in mode "shared" only
// before those that can touch what connections share: configurations and what
// they hold, caches, and package variables.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const vschedPath = "github.com/bifurcation/mint/vsched"

type edit struct {
	at  int
	del int
	txt string
}

func main() {
	mode := flag.String("mode", "all", "all or shared")
	repo := flag.String("repo", "/repo", "")
	vs := flag.String("vsched", "", "directory of the scheduler")
	out := flag.String("out", "", "directory for the results")
	flag.Parse()
	overlay := map[string]string{}
	for _, f := range []string{"vsched.go", "signal.go", "signal_race.go", "vsync/vsync.go"} {
		overlay[filepath.Join(*repo, "vsched", f)] = filepath.Join(*vs, f)
	}
	points := 0
	for _, dir := range []string{".", "syntax"} {
		fset := token.NewFileSet()
		names, err := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		check(err)
		sort.Strings(names)
		var files []*ast.File
		var paths []string
		srcs := map[string][]byte{}
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			b, err := os.ReadFile(n)
			check(err)
			f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
			check(err)
			files, paths = append(files, f), append(paths, n)
			srcs[n] = b
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		cfg := types.Config{Importer: stub{}, Error: func(error) {}, FakeImportC: true}
		pkg, _ := cfg.Check("github.com/bifurcation/mint", fset, files, info)
		written := writtenVars(files, info, pkg)
		for i, f := range files {
			in := &instr{fset: fset, info: info, pkg: pkg, shared: *mode == "shared", written: written}
			in.file(f)
			for _, im := range f.Imports {
				if im.Path.Value == `"sync"` {
					name := "sync "
					if im.Name != nil {
						name = ""
					}
					in.edits = append(in.edits, edit{fset.Position(im.Path.Pos()).Offset, len(im.Path.Value), name + `"` + vschedPath + `/vsync"`})
				}
			}
			if len(in.edits) == 0 {
				continue
			}
			if in.clock {
				in.edits = append(in.edits, edit{len(srcs[paths[i]]), 0, "\nvar _ time.Time\n"})
			}
			if in.n > 0 || in.clock {
				in.edits = append(in.edits, edit{fset.Position(f.Name.End()).Offset, 0, `; import vsched "` + vschedPath + `"`})
			}
			points += in.n
			dst := filepath.Join(*out, fmt.Sprintf("%s_%s", strings.ReplaceAll(dir, ".", "root"), filepath.Base(paths[i])))
			check(os.WriteFile(dst, apply(srcs[paths[i]], in.edits), 0644))
			overlay[paths[i]] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644))
	fmt.Printf("%d scheduling points\n", points)
}

// stub knows no other package: types of theirs are invalid, which is no matter.
type stub struct{}

func (stub) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

type instr struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	shared bool
	// written are the package's variables that may change after initialisation
	written map[*types.Var]bool
	edits   []edit
	n       int
	clock   bool // the clock is read
}

func (in *instr) file(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if in.shared && n.Recv == nil && n.Name.Name == "logf" {
				return false // its settings do not change
			}
		case *ast.SelectorExpr:
			// The clock stands still during an execution.
			if x, ok := n.X.(*ast.Ident); ok && x.Name == "time" && (n.Sel.Name == "Now" || n.Sel.Name == "Since" || n.Sel.Name == "Until") {
				if p, ok := in.info.Uses[x].(*types.PkgName); ok && p.Imported().Path() == "time" {
					in.edits = append(in.edits, edit{in.fset.Position(x.Pos()).Offset, len("time"), "vsched"})
					in.clock = true
				}
			}
		case *ast.BlockStmt:
			in.list(n.List)
		case *ast.CaseClause:
			in.list(n.Body)
		case *ast.CommClause:
			in.list(n.Body)
		case *ast.GoStmt:
			// What mint starts itself is not under control.
			if l, ok := n.Call.Fun.(*ast.FuncLit); ok {
				in.insert(l.Body.Lbrace+1, " vsched.Detach();")
			}
		}
		return true
	})
}

func (in *instr) insert(p token.Pos, s string) {
	in.edits = append(in.edits, edit{in.fset.Position(p).Offset, 0, s})
	in.n++
}

func (in *instr) list(l []ast.Stmt) {
	for _, s := range l {
		switch t := s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.BlockStmt, *ast.EmptyStmt:
			continue // a switch's clauses are statements of a block, too
		case *ast.DeclStmt:
			if g, ok := t.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				continue
			}
		case *ast.BranchStmt:
			continue
		}
		if in.interesting(s) {
			in.insert(s.Pos(), "vsched.Point(); ")
		}
	}
}

// own visits what executing s itself evaluates, without the statements inside.
func own(s ast.Node, f func(n ast.Node)) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		}
		if n != nil {
			f(n)
		}
		return true
	})
}

func (in *instr) interesting(s ast.Stmt) bool {
	if x, ok := s.(*ast.ExprStmt); ok {
		if c, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "logf" {
				return false
			}
		}
	}
	found := false
	own(s, func(n ast.Node) {
		switch n := n.(type) {
		case *ast.StarExpr, *ast.IndexExpr:
			if !in.shared {
				found = true
			}
			if x, ok := n.(*ast.IndexExpr); ok && in.sharedType(x.X) {
				found = true
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if _, pkg := in.info.Uses[id].(*types.PkgName); pkg {
					return
				}
			}
			if !in.shared || in.sharedType(n.X) {
				found = true
			}
		case *ast.Ident:
			if v, ok := in.info.Uses[n].(*types.Var); ok && in.pkg != nil && v.Parent() == in.pkg.Scope() && (!in.shared || in.written[v]) {
				found = true
			}
		}
	})
	return found
}

// sharedType tells if x is a configuration, something configurations hold, or
// anything else that may be the same for several connections.
func (in *instr) sharedType(x ast.Expr) bool {
	tv, ok := in.info.Types[x]
	if !ok || tv.Type == nil {
		return false
	}
	t := tv.Type
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	switch n.Obj().Name() {
	case "Config", "PSKMapCache", "PreSharedKeyCache", "PreSharedKey", "Certificate", "CookieProtector", "AppExtensionHandler":
		return true
	}
	if _, ok := n.Underlying().(*types.Map); ok {
		return true
	}
	return in.inConfig(n)
}

// inConfig: implementations of what a configuration holds.
func (in *instr) inConfig(n *types.Named) bool {
	if in.pkg == nil {
		return false
	}
	for _, name := range []string{"PreSharedKeyCache", "CookieProtector"} {
		o := in.pkg.Scope().Lookup(name)
		if o == nil {
			continue
		}
		i, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		// Types of other packages are unknown here: go by the names.
		all := i.NumMethods() > 0
		for k := 0; k < i.NumMethods(); k++ {
			has := false
			for l := 0; l < n.NumMethods(); l++ {
				has = has || n.Method(l).Name() == i.Method(k).Name()
			}
			all = all && has
		}
		if all {
			return true
		}
	}
	return false
}

// writtenVars: a package-level variable counts as written if a function other
// than init assigns to it or to a part of it, takes its address, calls a method
// of it, or passes it on as something that can be written through.
func writtenVars(files []*ast.File, info *types.Info, pkg *types.Package) map[*types.Var]bool {
	w := map[*types.Var]bool{}
	if pkg == nil {
		return w
	}
	var root func(x ast.Expr) *types.Var
	root = func(x ast.Expr) *types.Var {
		switch x := x.(type) {
		case *ast.Ident:
			if v, ok := info.Uses[x].(*types.Var); ok && v.Parent() == pkg.Scope() {
				return v
			}
		case *ast.ParenExpr:
			return root(x.X)
		case *ast.SelectorExpr:
			return root(x.X)
		case *ast.IndexExpr:
			return root(x.X)
		case *ast.SliceExpr:
			return root(x.X)
		case *ast.StarExpr:
			return root(x.X)
		case *ast.UnaryExpr:
			return root(x.X)
		}
		return nil
	}
	mark := func(x ast.Expr) {
		if v := root(x); v != nil {
			w[v] = true
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || (fd.Recv == nil && fd.Name.Name == "init") {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.RangeStmt:
					if n.Key != nil {
						mark(n.Key)
					}
					if n.Value != nil {
						mark(n.Value)
					}
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
					}
				case *ast.SendStmt:
					mark(n.Chan)
				case *ast.CallExpr:
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						mark(s.X)
					}
					for _, a := range n.Args {
						if tv, ok := info.Types[a]; ok && tv.Type != nil {
							switch tv.Type.Underlying().(type) {
							case *types.Basic, *types.Struct, *types.Interface, *types.Signature:
								continue
							}
						}
						mark(a)
					}
				}
				return true
			})
		}
	}
	return w
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var out []byte
	last := 0
	for _, e := range edits {
		out = append(out, src[last:e.at]...)
		out = append(out, e.txt...)
		last = e.at + e.del
	}
	return append(out, src[last:]...)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
