// Package realfmt lets the real imports.Process merge, sort and format inside the engine; only the decision which imports are
// unused or missing is replaced.
package realfmt

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ast/astutil"

	"verif.local/zv/world"
)

//verif:replace golang.org/x/tools/internal/imports.fixImportsDefault
func fixImports(fset *token.FileSet, f *ast.File, filename string, env unsafe.Pointer) error {
	used := map[string][]string{}
	var order []string
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				if len(used[x.Name]) == 0 && x.Obj == nil {
					order = append(order, x.Name)
				}
				used[x.Name] = append(used[x.Name], s.Sel.Name)
			}
		}
		return true
	})
	var drop []*ast.ImportSpec
	bound := map[string]bool{}
	for _, i := range f.Imports {
		name := Name(i)
		if name != "_" && name != "." && len(used[name]) == 0 {
			drop = append(drop, i)
			continue
		}
		bound[name] = true
	}
	for _, i := range drop {
		name := ""
		if i.Name != nil {
			name = i.Name.Name
		}
		astutil.DeleteNamedImport(fset, f, name, strings.Trim(i.Path.Value, "\""))
	}
	for _, i := range f.Imports {
		if n := Name(i); i.Name == nil && n != assumed(strings.Trim(i.Path.Value, "\"")) {
			i.Name = &ast.Ident{Name: n, NamePos: i.Path.Pos()}
		}
	}
	for _, x := range order {
		if !bound[x] {
			if p := search(x, used[x]); p != "" {
				name := ""
				if assumed(p) != x {
					name = x
				}
				astutil.AddNamedImport(fset, f, name, p)
			}
		}
	}
	return nil
}

// assumed is the name goimports expects a package to have.
func assumed(p string) string {
	base := strings.TrimPrefix(path.Base(p), "go-")
	if i := strings.IndexAny(base, "-."); i >= 0 {
		base = base[:i]
	}
	return base
}

// search finds a package for an unknown selector like goimports does: one of the standard library or the first of the module's
// packages with that name and those declarations in a directory of a like name.
func search(sel string, names []string) string {
	for _, s := range []string{"context", "errors", "fmt", "io", "os", "sort", "strings", "sync", "time"} {
		if s == sel {
			return s
		}
	}
	for _, w := range world.Files() {
		dir := path.Dir(w.Path)
		near := path.Base(path.Dir(dir)) + "/" + path.Base(dir)
		if !strings.Contains(strings.ReplaceAll(strings.ToLower(near), "-", ""), strings.ToLower(sel)) {
			continue
		}
		g, err := parser.ParseFile(token.NewFileSet(), "", w.Src, 0)
		if err != nil || g.Name.Name != sel {
			continue
		}
		all := true
		for _, n := range names {
			all = all && g.Scope.Lookup(n) != nil
		}
		if all {
			return world.ModPath + "/" + dir
		}
	}
	return ""
}

// Name is the name an import declares.
func Name(i *ast.ImportSpec) string {
	if i.Name != nil {
		return i.Name.Name
	}
	p := strings.Trim(i.Path.Value, "\"")
	if strings.HasPrefix(p, world.ModPath+"/") {
		for _, w := range world.Files() {
			if path.Dir(w.Path) == p[len(world.ModPath)+1:] {
				if g, err := parser.ParseFile(token.NewFileSet(), "", w.Src, parser.PackageClauseOnly); err == nil {
					return g.Name.Name
				}
			}
		}
	}
	return path.Base(p)
}
