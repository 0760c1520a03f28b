package gowrap

import (
	"errors"
	"os"
	"strings"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// Any step of the gen command may fail, with or without a file at the output's place.
//
//verif:reach success,failure,overwritten,created,writefailed
func Verif_C25_steps() {
	module(
		world.File{Path: "tpl/parse", Src: "{{if}}"},
		world.File{Path: "tpl/exec", Src: "\ntype D int\n{{.Missing}}"},
		world.File{Path: "tpl/late", Src: "\ntype D int\n{{range $m := .Interface.Methods}}{{fail \"stop\"}}{{end}}"},
		world.File{Path: "tpl/func", Src: "{{nosuchfunc}}"},
		world.File{Path: "tpl/format", Src: "\nfunc broken( {\n// END\n"},
		world.File{Path: "tpl/ok", Src: "\ntype D{{.Vars.n}} struct{ base {{.Interface.Type}} }\n// END\n"},
		world.File{Path: "src/more.go", Src: "package src\n\ntype Empty interface{}\n\ntype Bad interface { Missing }\n\ntype hidden interface { m() }\n\ntype St struct{}\n"},
		world.File{Path: "bad/bad.go", Src: "package bad\n\nfunc {\n"},
		world.File{Path: "plain", Src: "a file"},
	)
	const old = "package other\n\n// old\n"
	out := v.OneOf("out", "dst/gen.go", "new/dir/gen.go", "plain/gen.go", "dst", "gen.go", "dst/../dst/gen.go")
	at := out
	if out == "dst/../dst/gen.go" {
		at = "dst/gen.go"
	}
	r := &remote{names: map[string]string{"ok": "\ntype R struct{}\n// END\n"}, urls: map[string]string{"ok": "https://x/ok"}}
	i := v.OneOf("interface", "I", "Empty", "Bad", "hidden", "St", "Nope")
	t := v.OneOf("template", "tpl/ok", "ok", "tpl/parse", "tpl/exec", "tpl/late", "tpl/func", "tpl/format", "tpl", "gone")
	p := v.OneOf("package", "./src", "./nope", "./bad", "./tpl")
	// one thing goes wrong at a time, or two
	v.Assume(i == "I" || p == "./src" && (t == "tpl/ok" || t == "gone"))
	v.Assume(p == "./src" || t == "tpl/ok" || t == "tpl/late")
	if v.Bool("remotefails") {
		v.Assume(t == "ok")
		r.err = errors.New("no network")
	}
	before, had := "", false
	if v.Bool("exists") {
		v.Assume(at == "dst/gen.go")
		before, had = old, true
		world.Put(at, old)
	}
	args := []string{"-i", i, "-p", p, "-o", out, "-t", t, "-v", "n=1"}
	flags := v.Choice("flags", 4)
	switch flags {
	case 1:
		args = append(args, "-nosuch")
	case 2:
		args = append(args, "-o")
	case 3:
		args = append(args, "-g=maybe")
	}
	bad := i != "I" || p != "./src" || (t != "tpl/ok" && t != "ok") || r.err != nil || flags != 0
	tree := world.Tree()
	err := run(NewGenerateCommand(r), &sink{}, args...)
	v.Assert(others(tree, at), "no file but the output is written")
	after, has := world.Read(at)
	if bad || out == "plain/gen.go" || out == "dst" || out == "gen.go" {
		v.Assert(err != nil, "a failing step is reported")
		if out == "dst" {
			_, has = world.Read("dst/dst.go")
			v.Assert(has, "a failed command leaves the output as it was")
		} else {
			v.Assert(has == had && after == before, "a failed command leaves the output as it was")
		}
		if v.Symbolic() {
			v.Assert(world.Writes(at) == 0, "a failed command does not touch the output")
		}
		_, missing := os.Stat("new")
		v.Assert(os.IsNotExist(missing), "a failed command leaves no directories behind")
		if flags != 0 {
			_, ok := err.(CommandLineError)
			v.Assert(ok, "bad flags are a command line error")
		}
		if r.err != nil && flags == 0 && i == "I" {
			v.Assert(strings.Contains(err.Error(), "no network"), "the step's error is reported")
		}
		if !bad && out != "gen.go" {
			v.Reach("writefailed")
		}
		v.Reach("failure")
		return
	}
	v.Assert(err == nil && has, "a command without failing steps succeeds")
	v.Assert(strings.HasPrefix(after, "// Code generated") && strings.HasSuffix(after, "// END\n") && strings.Contains(after, "package "), "the output is complete")
	if v.Symbolic() {
		v.Assert(world.Writes(at) == 1, "the output is written once")
	}
	v.Assert(usable(at), "the output can be read and replaced by its owner")
	if had {
		v.Reach("overwritten")
	} else {
		v.Reach("created")
	}
	v.Reach("success")
}

// Any of the required flags may be missing or empty.
//
//verif:reach missing,complete
func Verif_C25_required() {
	module()
	r := theRemote()
	var args []string
	complete := true
	for _, f := range [][2]string{{"-o", "dst/gen.go"}, {"-i", "I"}, {"-t", "tpl/wrap"}} {
		switch v.Choice(f[0], 3) {
		case 0:
			args = append(args, f[0], f[1])
		case 1:
			args = append(args, f[0], "")
			complete = false
		case 2:
			complete = false
		}
	}
	if v.Bool("package") {
		args = append(args, "-p", "./src")
	} else {
		world.Chdir("src")
		for i := range args {
			if args[i] == "dst/gen.go" || args[i] == "tpl/wrap" {
				args[i] = "../" + args[i]
			}
		}
	}
	err := run(NewGenerateCommand(r), &sink{}, args...)
	_, has := world.Read("dst/gen.go")
	if complete {
		v.Assert(err == nil && has, "a complete command succeeds")
		v.Reach("complete")
		return
	}
	_, ok := err.(CommandLineError)
	v.Assert(ok && err.Error() != "", "a missing flag is a command line error")
	v.Assert(!has, "a failed command leaves the output as it was")
	v.Assert(len(r.asked) == 0, "nothing is loaded for an incomplete command")
	v.Reach("missing")
}
