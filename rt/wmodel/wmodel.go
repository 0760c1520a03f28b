// Package wmodel replaces go/packages.Load, go/parser.ParseDir and file access inside the engine.
package wmodel

import (
	"errors"
	"flag"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"verif.local/zv/world"
)

const root = "/world" // see world.Root

//verif:replace os.ReadFile
func readFile(name string) ([]byte, error) { return world.ReadFile(name) }

//verif:replace os.WriteFile
func writeFile(name string, data []byte, perm fs.FileMode) error {
	return world.WriteFile(name, data, perm)
}

//verif:replace os.MkdirAll
func mkdirAll(name string, perm fs.FileMode) error { return world.MkdirAll(name, perm) }

//verif:replace os.Mkdir
func mkdir(name string, perm fs.FileMode) error {
	if _, err := world.Stat(name); err == nil {
		return &fs.PathError{Op: "mkdir", Path: name, Err: fs.ErrExist}
	}
	if _, err := world.Stat(path.Dir(name)); err != nil {
		return err
	}
	return world.MkdirAll(name, perm)
}

//verif:replace os.Remove
func remove(name string) error { return world.Remove(name) }

//verif:replace os.RemoveAll
func removeAll(name string) error { return world.RemoveAll(name) }

//verif:replace os.Rename
func rename(from, to string) error { return world.Rename(from, to) }

//verif:replace os.Chmod
func chmod(name string, mode fs.FileMode) error { return world.Chmod(name, mode) }

type open struct {
	f *os.File
	h *world.Handle
}

var (
	handles []open
	temps   int
)

// Std takes what is written to the standard streams.
var Std func(f *os.File, b []byte)

func handle(f *os.File) *world.Handle {
	for _, o := range handles {
		if o.f == f {
			return o.h
		}
	}
	panic("wmodel: unexpected file")
}

//verif:replace os.OpenFile
func openFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	h, err := world.Open(name, flag, perm)
	if err != nil {
		return nil, err
	}
	f := new(os.File)
	handles = append(handles, open{f, h})
	return f, nil
}

//verif:replace os.CreateTemp
func createTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
		world.MkdirAll(dir, 0o777)
	}
	temps++
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return openFile(path.Join(dir, pre+string(rune('0'+temps))+suf), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

//verif:replace (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	if (f == os.Stdout || f == os.Stderr) && Std != nil {
		Std(f, b)
		return len(b), nil
	}
	return handle(f).Write(b)
}

//verif:replace (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//verif:replace (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) { return handle(f).Read(b) }

//verif:replace (*os.File).ReadFrom
func fileReadFrom(f *os.File, r io.Reader) (n int64, err error) {
	b, err := io.ReadAll(r)
	if len(b) > 0 {
		if _, werr := fileWrite(f, b); werr != nil {
			return 0, werr
		}
	}
	return int64(len(b)), err
}

//verif:replace (*os.File).Close
func fileClose(f *os.File) error { return handle(f).Close() }

//verif:replace (*os.File).Name
func fileName(f *os.File) string { return handle(f).Name() }

//verif:replace (*os.File).Sync
func fileSync(f *os.File) error { return nil }

//verif:replace (*os.File).Chmod
func fileChmod(f *os.File, m fs.FileMode) error { return world.Chmod(handle(f).Name(), m) }

//verif:replace (*os.File).Truncate
func fileTruncate(f *os.File, n int64) error { return handle(f).Truncate(n) }

//verif:replace (*os.File).Stat
func fileStat(f *os.File) (fs.FileInfo, error) { return world.Stat(handle(f).Name()) }

//verif:replace os.Lstat
func lstat(name string) (fs.FileInfo, error) { return world.Stat(name) }

//verif:replace os.Stat
func stat(name string) (fs.FileInfo, error) { return world.Stat(name) }

//verif:replace os.Getwd
func getwd() (string, error) { return world.Getwd() }

//verif:replace os.ReadDir
func readDir(name string) ([]fs.DirEntry, error) { return world.ReadDir(name) }

//verif:replace golang.org/x/tools/go/packages.Load
func Load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if len(patterns) != 1 {
		return nil, errors.New("world: one pattern expected")
	}
	pat := patterns[0]
	dir := ""
	switch {
	case pat == world.ModPath:
		dir = "."
	case strings.HasPrefix(pat, world.ModPath+"/"):
		dir = pat[len(world.ModPath)+1:]
	case pat == "" || pat == "." || pat == ".." || strings.HasPrefix(pat, "./") || strings.HasPrefix(pat, "../"):
		wd, _ := world.Getwd()
		full := path.Join(wd, pat)
		if full != root && !strings.HasPrefix(full, root+"/") {
			return []*packages.Package{{ID: pat, PkgPath: pat, Errors: []packages.Error{{Msg: "directory outside the module"}}}}, nil
		}
		dir = "."
		if full != root {
			dir = full[len(root)+1:]
		}
	case strings.HasPrefix(pat, root+"/"):
		dir = pat[len(root)+1:]
	case pat == root:
		dir = "."
	default:
		return []*packages.Package{{ID: pat, PkgPath: pat, Errors: []packages.Error{{Msg: "package " + pat + " is not in std"}}}}, nil
	}
	p := loadDir(dir)
	if p == nil {
		return []*packages.Package{{ID: pat, PkgPath: pat, Errors: []packages.Error{{Msg: "no Go files in " + dir}}}}, nil
	}
	return []*packages.Package{p}, nil
}

func loadDir(dir string) *packages.Package {
	var p *packages.Package
	first, tested := "", ""
	for _, f := range world.Files() {
		if path.Dir(f.Path) != dir || !strings.HasSuffix(f.Path, ".go") {
			continue
		}
		if strings.HasSuffix(f.Path, "_test.go") {
			if af, err := parser.ParseFile(token.NewFileSet(), f.Path, f.Src, parser.PackageClauseOnly); err == nil && !excluded(f) {
				tested = strings.TrimSuffix(af.Name.Name, "_test")
			}
			continue
		}
		if p == nil {
			pp := world.ModPath
			if dir != "." {
				pp += "/" + dir
			}
			p = &packages.Package{ID: pp, PkgPath: pp, Imports: map[string]*packages.Package{}}
		}
		if excluded(f) {
			p.IgnoredFiles = append(p.IgnoredFiles, path.Join(root, f.Path))
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), f.Path, f.Src, parser.ImportsOnly)
		if err != nil {
			p.Errors = append(p.Errors, packages.Error{Msg: err.Error()})
			continue
		}
		p.Name = af.Name.Name
		if first != "" && first != p.Name {
			p.Errors = append(p.Errors, packages.Error{Msg: "found packages " + first + " and " + p.Name})
		}
		first = p.Name
		p.GoFiles = append(p.GoFiles, path.Join(root, f.Path))
		for _, im := range af.Imports {
			ip := strings.Trim(im.Path.Value, "\"")
			if strings.HasPrefix(ip, world.ModPath+"/") {
				if d := loadDir(ip[len(world.ModPath)+1:]); d != nil {
					p.Imports[ip] = d
				} else {
					p.Imports[ip] = &packages.Package{ID: ip, PkgPath: ip, Errors: []packages.Error{{Msg: "no package"}}}
				}
				continue
			}
			p.Imports[ip] = &packages.Package{ID: ip, PkgPath: ip, Name: path.Base(ip)}
		}
	}
	if p == nil && tested != "" {
		p = &packages.Package{ID: world.ModPath + "/" + dir, PkgPath: world.ModPath + "/" + dir, Name: tested, Imports: map[string]*packages.Package{}}
	}
	if p != nil && p.Name == "" {
		return nil
	}
	return p
}

// excluded says whether build constraints exclude the file; the constraints used are listed here.
func excluded(f world.File) bool {
	return strings.HasSuffix(f.Path, "_windows.go") || strings.HasSuffix(f.Path, "_darwin.go") ||
		strings.HasPrefix(f.Src, "//go:build !linux\n") || strings.HasPrefix(f.Src, "//go:build ignore\n")
}

//verif:replace go/parser.ParseDir
func ParseDir(fset *token.FileSet, dir string, filter func(fs.FileInfo) bool, mode parser.Mode) (pkgs map[string]*ast.Package, first error) {
	pkgs = map[string]*ast.Package{}
	all := append([]world.File(nil), world.Files()...)
	sort.Slice(all, func(i, j int) bool { return all[i].Path < all[j].Path })
	n := 0
	for _, f := range all {
		full := path.Join(root, f.Path)
		if path.Dir(full) != path.Clean(dir) || !strings.HasSuffix(f.Path, ".go") {
			continue
		}
		n++
		src, err := parser.ParseFile(fset, full, f.Src, mode)
		if err != nil {
			if first == nil {
				first = err
			}
			continue
		}
		name := src.Name.Name
		pkg, found := pkgs[name]
		if !found {
			pkg = &ast.Package{Name: name, Files: map[string]*ast.File{}}
			pkgs[name] = pkg
		}
		pkg.Files[full] = src
	}
	if n == 0 {
		return nil, errors.New("open " + dir + ": no such file or directory")
	}
	return
}

// isZeroValue says whether a flag's default is worth showing; reflection is not modelled.
//
//verif:replace flag.isZeroValue
func isZeroValue(f *flag.Flag, value string) (bool, error) {
	return value == "" || value == "false" || value == "0" || strings.HasSuffix(value, "(nil)"), nil
}
