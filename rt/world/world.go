// Package world gives the harnesses a small Go module made of source files. Natively it is written to a scratch
// directory; inside the symbolic engine the loader boundary is replaced by the functions of the model file.
package world

import (
	"os"
	"path/filepath"

	"verif.local/zv/v"
)

// ModPath is the import path of the module.
const ModPath = "world.local"

// File is one file of the module, named by its slash-separated path below the module root.
type File struct{ Path, Src string }

var files []File

// Files lists the module.
func Files() []File { return files }

// Setup installs the module and makes its root the current directory.
func Setup(fs ...File) {
	files = fs
	if v.Symbolic() {
		return
	}
	root := scratch()
	must(os.MkdirAll(root, 0o755))
	must(os.WriteFile(filepath.Join(root, "go.mod"), []byte("module "+ModPath+"\n\ngo 1.24\n"), 0o644))
	for _, f := range fs {
		p := filepath.Join(root, filepath.FromSlash(f.Path))
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(f.Src), 0o644))
	}
	must(os.Chdir(root))
	os.Setenv("GOFLAGS", "-mod=mod")
}

func symbolic() bool { return v.Symbolic() }

func scratch() string {
	root := os.Getenv("VERIF_SCRATCH")
	if root == "" {
		panic("VERIF_SCRATCH not set")
	}
	return filepath.Join(root, "world")
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
