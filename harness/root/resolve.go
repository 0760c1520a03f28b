package gowrap

import (
	"errors"
	"io"
	iofs "io/fs"
	"path"
	"strings"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// Any template name over local files, directories and remote templates.
//
//verif:opt paths=400000
//verif:reach local,remote,unreadable,failed
func Verif_C24_local() {
	module(world.File{Path: "t/a", Src: "\nvar From = \"t/a\"\n"}, world.File{Path: "t/bc", Src: "\nvar From = \"t/bc\"\n"}, world.File{Path: "t/d/x", Src: "no Go"}, world.File{Path: "a", Src: "\nvar From = \"a\"\n"})
	name := v.StrOf("name", 1+v.Choice("len", v.Bound(3, 4)), "ad..//zz")
	tpl := v.OneOf("dir", "t/", "", "./t/", "../world/t/") + name
	r := &remote{names: map[string]string{}}
	remoteErr := errors.New("no network")
	if v.Bool("fails") {
		r.err = remoteErr
	}
	r.names[tpl] = "\nvar From = \"remote\"\n"
	r.urls = map[string]string{tpl: "https://home/" + tpl}
	out := v.OneOf("out", "dst/out.go", "dst/sub/out.go")
	err := run(NewGenerateCommand(r), &sink{}, "-p", "./src", "-i", "I", "-o", out, "-t", tpl)
	src, written := world.Read(out)
	// what the name stands for
	p := path.Join("/r/world", tpl)
	full := p
	if !strings.HasPrefix(tpl, ".") && strings.HasPrefix(tpl, "/") {
		full = path.Clean(tpl)
	}
	kind := "absent"
	for _, f := range []string{"t/a", "t/bc", "a"} {
		g := "/r/world/" + f
		switch {
		case full == g && !strings.HasSuffix(tpl, "/") && !strings.HasSuffix(tpl, "/."):
			kind = f
		case full == g:
			kind = "error" // a file taken for a directory
		case strings.HasPrefix(full, g+"/"):
			kind = "error"
		}
	}
	// ".." below a file or a missing directory is left open, like paths outside the module
	v.Assume(!strings.Contains(name, "..") && !strings.HasPrefix(tpl, "/") && !strings.Contains(tpl, "z/.") && !strings.Contains(tpl, "//"))
	for _, d := range []string{"/r/world/t", "/r/world/t/d", "/r/world", "/r"} {
		if full == d {
			kind = "error"
		}
	}
	if written {
		v.Assert(strings.Contains(src, "\n// template: "+reference(src)+"\n"), "the header names the template like the go:generate line")
	}
	switch kind {
	case "absent":
		v.Assert(len(r.asked) == 1 && r.asked[0] == tpl, "the remote loader is asked once for what is not there locally")
		if r.err != nil {
			v.Assert(err != nil && !written && strings.Contains(err.Error(), remoteErr.Error()), "a remote failure is reported")
			v.Reach("failed")
			return
		}
		v.Assert(err == nil && strings.Contains(src, "\"remote\""), "the remote template is used")
		v.Assert(reference(src) == "https://home/"+tpl, "a remote template is recorded by its URL")
		v.Reach("remote")
	case "error":
		v.Assert(err != nil && !written, "a read failure is reported")
		v.Assert(len(r.asked) == 0, "a read failure is not masked by a remote template")
		v.Reach("unreadable")
	default:
		v.Assert(err == nil && strings.Contains(src, "From = \""+kind+"\""), "the local template is used")
		v.Assert(len(r.asked) == 0, "a local template needs no network")
		v.Assert(path.Join(path.Dir(out), reference(src)) == kind, "a local template is recorded relative to the output directory")
		v.Reach("local")
	}
}

// Any outcome of the local read and of the remote one: only a missing file leads to the remote template.
//
//verif:reach local,remote,reported
func Verif_C24_outcomes() {
	name, body, far, url := v.StrUpTo("name", 3), v.StrUpTo("body", 3), v.StrUpTo("far", 3), v.StrUpTo("url", 3)
	kinds := []error{
		nil, iofs.ErrNotExist, iofs.ErrPermission, iofs.ErrExist, iofs.ErrClosed, iofs.ErrInvalid, io.EOF, io.ErrUnexpectedEOF, errors.New("file does not exist"),
		errors.New("permission denied"), errors.New(""),
	}
	n := v.Choice("outcome", len(kinds))
	readErr := kinds[n]
	if n > 0 && v.Bool("path") {
		readErr = &iofs.PathError{Op: "open", Path: name, Err: kinds[n]}
	}
	var remoteErr error
	if v.Bool("fails") {
		remoteErr = errors.New("no network")
	}
	r := &remote{names: map[string]string{name: far}, urls: map[string]string{name: url}, err: remoteErr}
	var read []string
	l := loader{
		fileReader: func(p string) ([]byte, error) {
			read = append(read, p)
			if readErr != nil {
				return nil, readErr
			}
			return []byte(body), nil
		},
		remoteLoader: r,
	}
	tmpl, from, err := l.Load(name)
	v.Assert(len(read) > 0 && v.Eq(read[0], name), "the local file is read first")
	switch {
	case n == 0:
		v.Assert(err == nil && v.Eq(string(tmpl), body) && v.Eq(from, name), "a local template is used as it is")
		v.Assert(len(r.asked) == 0, "a local template needs no network")
		v.Reach("local")
	case n == 1:
		v.Assert(len(r.asked) == 1 && v.Eq(r.asked[0], name), "the remote loader is asked once for what is not there locally")
		v.Assert(err == remoteErr, "the remote loader's failure is reported")
		if url == "" {
			url = name
		}
		if err == nil {
			v.Assert(v.Eq(string(tmpl), far) && v.Eq(from, url), "the remote template is used")
		}
		v.Reach("remote")
	default:
		v.Assert(len(r.asked) == 0, "an unreadable file is not replaced by a remote template")
		v.Assert(errors.Is(err, readErr), "any other read failure is reported")
		v.Reach("reported")
	}
}

// Any URL or path a remote template comes from.
//
//verif:reach url,path
func Verif_C24_recorded() {
	module(world.File{Path: "near/by", Src: "x"})
	from := v.OneOf("from", "https://h/x", "http://h/x", "near/by", "./near/../near/by", "https://", "https:/near", "httpsx", world.Root()+"/near/by")
	r := &remote{names: map[string]string{"remote": "\nvar X int\n"}, urls: map[string]string{"remote": from}}
	out := v.OneOf("out", "dst/out.go", "out.go", "./dst/a/b/out.go", world.Root()+"/src/out.go")
	v.Assume(out != "out.go" || from != "")
	var args []string
	if out == "out.go" {
		world.Chdir("dst")
		out = "dst/out.go"
		if from == "near/by" {
			from = "../near/by"
			r.urls["remote"] = from
		}
		v.Assume(from != "./near/../near/by" && from[0] != 'h' || strings.Contains(from, "//"))
		args = []string{"-p", "../src", "-o", "out.go"}
	} else {
		args = []string{"-p", "./src", "-o", out}
	}
	err := run(NewGenerateCommand(r), &sink{}, append(args, "-i", "I", "-t", "remote")...)
	v.Assert(err == nil, "the command succeeds")
	file := path.Clean(strings.TrimPrefix(out, world.Root()+"/"))
	src, _ := world.Read(file)
	ref := reference(src)
	v.Assert(strings.Contains(src, "\n// template: "+ref+"\n"), "the header names the template like the go:generate line")
	if strings.HasPrefix(from, "https://") || strings.HasPrefix(from, "http://") {
		v.Assert(ref == from, "a remote template is recorded by its URL")
		v.Reach("url")
		return
	}
	want := from
	if strings.HasPrefix(from, "../") {
		want = from[3:]
	}
	want = path.Clean(strings.TrimPrefix(want, world.Root()+"/"))
	v.Assert(!path.IsAbs(ref) && path.Join(path.Dir(file), ref) == want, "a local template is recorded relative to the output directory")
	v.Reach("path")
}
