package world

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"
)

// The engine's file system: the module's files, empty directories and what the code under test writes.

// root is where the module lives inside the engine.
const root = "/world"

var (
	dirs   []string // absolute
	cwd    = root
	writes []string                   // what was written, relative to the root
	modes  = map[string]fs.FileMode{} // of the files created, relative to the root
)

// Tree returns the module's files with their contents, ordered by path.
func Tree() (r []File) {
	if symbolic() {
		for _, f := range files {
			at := len(r)
			for at > 0 && r[at-1].Path > f.Path {
				at--
			}
			r = append(r, File{})
			copy(r[at+1:], r[at:])
			r[at] = f
		}
		return r
	}
	must(filepath.WalkDir(scratch(), func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		rel, err := filepath.Rel(scratch(), p)
		if err != nil {
			return err
		}
		b, err := os.ReadFile(p)
		if rel != "go.mod" {
			r = append(r, File{filepath.ToSlash(rel), string(b)})
		}
		return err
	}))
	return r
}

// Mode returns the permissions of a file the code under test wrote.
func Mode(rel string) fs.FileMode {
	if symbolic() {
		if m, ok := modes[rel]; ok {
			return m
		}
		return 0o644
	}
	i, err := os.Stat(path.Join(scratch(), rel))
	must(err)
	return i.Mode().Perm()
}

// Chmod is os.Chmod.
func Chmod(name string, mode fs.FileMode) error {
	k, i, err := find(name)
	if err != nil {
		return &fs.PathError{Op: "chmod", Path: name, Err: err}
	}
	if k == 'f' {
		modes[files[i].Path] = mode
	}
	return nil
}

// Root is the module's root directory.
func Root() string {
	if symbolic() {
		return root
	}
	return scratch()
}

// Writes counts how often the file was written; it is known inside the engine only.
func Writes(rel string) (n int) {
	for _, w := range writes {
		if w == rel {
			n++
		}
	}
	return n
}

func written(name string) { writes = append(writes, strings.TrimPrefix(abs(name), root+"/")) }

// Chdir changes the current directory to one below the module root.
func Chdir(rel string) {
	if symbolic() {
		cwd = path.Join(root, rel)
		return
	}
	must(os.Chdir(path.Join(scratch(), rel)))
}

// Mkdir makes a directory below the module root.
func Mkdir(rel string) {
	if symbolic() {
		dirs = append(dirs, path.Join(root, rel))
		return
	}
	must(os.MkdirAll(path.Join(scratch(), rel), 0o755))
}

// Read returns a file below the module root.
func Read(rel string) (string, bool) {
	if symbolic() {
		for _, f := range files {
			if f.Path == rel {
				return f.Src, true
			}
		}
		return "", false
	}
	b, err := os.ReadFile(path.Join(scratch(), rel))
	return string(b), err == nil
}

// Put writes a file below the module root without counting it.
func Put(rel, src string) {
	if symbolic() {
		n := writes[:len(writes):len(writes)]
		must(WriteFile(path.Join(root, rel), []byte(src), 0o644))
		writes = n
		return
	}
	must(os.WriteFile(path.Join(scratch(), rel), []byte(src), 0o644))
}

func abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = cwd + "/" + name
	}
	return path.Clean(name)
}

// errENOENT and the others stand for the system's errors.
var (
	errENOENT  = fs.ErrNotExist
	errNotDir  = errors.New("not a directory")
	errIsDir   = errors.New("is a directory")
	errNoEntry = fs.ErrNotExist

	errNotEmpty = errors.New("directory not empty")
)

// find says what a path is: 'f' for a file, 'd' for a directory, or an error.
func find(name string) (byte, int, error) {
	p := abs(name)
	for i, f := range files {
		full := path.Join(root, f.Path)
		if full == p {
			if strings.HasSuffix(name, "/") || strings.HasSuffix(name, "/.") {
				return 0, 0, errNotDir
			}
			return 'f', i, nil
		}
		if strings.HasPrefix(p, full+"/") {
			return 0, 0, errNotDir
		}
		if strings.HasPrefix(full, p+"/") || p == "/" {
			return 'd', 0, nil
		}
	}
	for _, d := range dirs {
		if d == p || strings.HasPrefix(d, p+"/") {
			return 'd', 0, nil
		}
	}
	if p == root || p == "/" {
		return 'd', 0, nil
	}
	return 0, 0, errENOENT
}

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	k, i, err := find(name)
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	if k == 'd' {
		return nil, &fs.PathError{Op: "read", Path: name, Err: errIsDir}
	}
	return []byte(files[i].Src), nil
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	k, i, err := find(name)
	if name == "" {
		err = errNoEntry
	}
	switch {
	case k == 'd':
		return &fs.PathError{Op: "open", Path: name, Err: errIsDir}
	case err == nil:
		files[i].Src = string(data)
	case err != errENOENT || name == "":
		return &fs.PathError{Op: "open", Path: name, Err: err}
	default:
		p := abs(name)
		if d, _, err := find(path.Dir(p)); err != nil || d != 'd' || strings.HasSuffix(name, "/") {
			return &fs.PathError{Op: "open", Path: name, Err: errNoEntry}
		}
		rel := strings.TrimPrefix(p, root+"/")
		files = append(files[:len(files):len(files)], File{rel, string(data)})
		modes[rel] = perm &^ 0o022
	}
	written(name)
	return nil
}

// Remove is os.Remove.
func Remove(name string) error {
	k, i, err := find(name)
	if err != nil {
		return &fs.PathError{Op: "remove", Path: name, Err: err}
	}
	if k == 'f' {
		files = append(files[:i:i], files[i+1:]...)
		return nil
	}
	p := abs(name)
	for _, f := range files {
		if strings.HasPrefix(path.Join(root, f.Path), p+"/") {
			return &fs.PathError{Op: "remove", Path: name, Err: errNotEmpty}
		}
	}
	removeDirs(p)
	return nil
}

func removeDirs(p string) {
	var keep []string
	for _, d := range dirs {
		if d != p && !strings.HasPrefix(d, p+"/") {
			keep = append(keep, d)
		}
	}
	dirs = keep
}

// RemoveAll is os.RemoveAll.
func RemoveAll(name string) error {
	p := abs(name)
	var keep []File
	for _, f := range files {
		if full := path.Join(root, f.Path); full != p && !strings.HasPrefix(full, p+"/") {
			keep = append(keep, f)
		}
	}
	files = keep
	removeDirs(p)
	return nil
}

// Rename is os.Rename for files.
func Rename(from, to string) error {
	k, i, err := find(from)
	if err == nil && k != 'f' {
		err = errIsDir
	}
	if err != nil {
		return &fs.PathError{Op: "rename", Path: from, Err: err}
	}
	src, mode := files[i].Src, Mode(files[i].Path)
	if err := WriteFile(to, []byte(src), 0); err != nil {
		return err
	}
	modes[strings.TrimPrefix(abs(to), root+"/")] = mode
	if abs(from) != abs(to) {
		return Remove(from)
	}
	return nil
}

// Handle is an open file.
type Handle struct {
	Path   string
	name   string
	off    int
	wr, rd bool
	app    bool
	closed bool
}

// Open is os.OpenFile.
func Open(name string, flag int, perm fs.FileMode) (*Handle, error) {
	k, i, err := find(name)
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case err == nil && flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0:
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrExist}
	case err == nil && k == 'd' && wr:
		return nil, &fs.PathError{Op: "open", Path: name, Err: errIsDir}
	case err == nil && wr && flag&os.O_TRUNC != 0:
		files[i].Src = ""
	case err != nil && flag&os.O_CREATE != 0:
		if err := WriteFile(name, nil, perm); err != nil {
			return nil, err
		}
		writes = writes[:len(writes)-1]
	case err != nil:
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	if wr {
		written(name)
	}
	return &Handle{Path: strings.TrimPrefix(abs(name), root+"/"), name: name, wr: wr, rd: flag&os.O_WRONLY == 0, app: flag&os.O_APPEND != 0}, nil
}

// Name is (*os.File).Name.
func (h *Handle) Name() string { return h.name }

func (h *Handle) file() (*File, error) {
	if h.closed {
		return nil, &fs.PathError{Op: "use", Path: h.name, Err: fs.ErrClosed}
	}
	for i := range files {
		if files[i].Path == h.Path {
			return &files[i], nil
		}
	}
	return nil, nil // removed or a directory
}

func (h *Handle) Write(b []byte) (int, error) {
	f, err := h.file()
	if err == nil && !h.wr {
		err = &fs.PathError{Op: "write", Path: h.name, Err: errors.New("bad file descriptor")}
	}
	if err != nil || f == nil {
		return 0, err
	}
	if h.app {
		h.off = len(f.Src)
	}
	end := h.off + len(b)
	rest := ""
	if end < len(f.Src) {
		rest = f.Src[end:]
	}
	f.Src = f.Src[:h.off] + string(b) + rest
	h.off = end
	return len(b), nil
}

func (h *Handle) Read(b []byte) (int, error) {
	f, err := h.file()
	if err == nil && f == nil {
		err = &fs.PathError{Op: "read", Path: h.name, Err: errIsDir}
	}
	if err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(f.Src) {
		return 0, io.EOF
	}
	n := copy(b, f.Src[h.off:])
	h.off += n
	return n, nil
}

// Truncate is (*os.File).Truncate.
func (h *Handle) Truncate(n int64) error {
	f, err := h.file()
	if err != nil || f == nil {
		return err
	}
	if int(n) <= len(f.Src) {
		f.Src = f.Src[:n]
	}
	return nil
}

// Close is (*os.File).Close.
func (h *Handle) Close() error {
	if h.closed {
		return &fs.PathError{Op: "close", Path: h.name, Err: fs.ErrClosed}
	}
	h.closed = true
	return nil
}

// MkdirAll is os.MkdirAll.
func MkdirAll(name string, perm fs.FileMode) error {
	k, _, err := find(name)
	switch {
	case k == 'f' || err == errNotDir:
		return &fs.PathError{Op: "mkdir", Path: name, Err: errNotDir}
	case k == 0:
		dirs = append(dirs, abs(name))
	}
	return nil
}

// Stat is os.Stat.
func Stat(name string) (fs.FileInfo, error) {
	k, i, err := find(name)
	if err != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
	}
	in := info{name: path.Base(abs(name)), dir: k == 'd'}
	in.mode = fs.ModeDir | 0o755
	if k == 'f' {
		in.size, in.mode = int64(len(files[i].Src)), Mode(files[i].Path)
	}
	return in, nil
}

// Getwd is os.Getwd.
func Getwd() (string, error) { return cwd, nil }

// ReadDir is os.ReadDir.
func ReadDir(name string) (r []fs.DirEntry, err error) {
	k, _, err := find(name)
	if err != nil || k != 'd' {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errENOENT}
	}
	p := abs(name) + "/"
	seen := map[string]bool{}
	add := func(full string) {
		if !strings.HasPrefix(full, p) {
			return
		}
		n, _, sub := strings.Cut(full[len(p):], "/")
		if seen[n] {
			return
		}
		seen[n] = true
		at := len(r)
		for at > 0 && r[at-1].Name() > n {
			at--
		}
		r = append(r, nil)
		copy(r[at+1:], r[at:])
		r[at] = info{name: n, dir: sub, mode: 0o644}
		if sub {
			r[at] = info{name: n, dir: sub, mode: fs.ModeDir | 0o755}
		}
	}
	for _, f := range files {
		add(path.Join(root, f.Path))
	}
	for _, d := range dirs {
		add(d + "/.")
	}
	return r, nil
}

type info struct {
	name string
	dir  bool
	size int64
	mode fs.FileMode
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return i.size }
func (i info) IsDir() bool                { return i.dir }
func (i info) Mode() fs.FileMode          { return i.mode }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) Sys() any                   { return nil }
