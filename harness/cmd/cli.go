package main

import (
	"strings"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !v.Eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func anyArg(label string, letters bool) string {
	n := 8
	if letters {
		n++
	}
	switch v.Choice(label+".kind", n) {
	case 0:
		return "help"
	case 1:
		return "stub"
	case 2:
		return "--"
	case 3:
		return "-"
	case 4:
		return ""
	case 5:
		return "-x=1"
	case 6:
		return "gen"
	case 7:
		return "template"
	}
	return v.StrOf(label, 1+v.Choice(label+".len", v.Bound(2, 3)), " ~")
}

// dispatch checks a run against what the command line asks for.
func dispatch(s *stub, args []string) {
	o := program(s, args...)
	v.Assert(o.Crashed == "", "the program does not panic")
	v.Assert(o.Code >= 0 && o.Code <= 2, "the exit status is 0, 1 or 2")
	v.Assert(o.Code == 0 || o.Err != "", "a failure comes with a message")
	rest := args
	if len(rest) > 0 {
		switch first := rest[0]; {
		case first == "--":
			rest = rest[1:]
		case len(first) > 1 && first[0] == '-':
			v.Assert(o.Code == 2 && o.Ran == 0, "an unknown flag is a usage error")
			v.Reach("flag")
			return
		}
	}
	if len(rest) == 0 {
		v.Assert(o.Code == 2 && o.Ran == 0, "a missing command is a usage error")
		v.Reach("none")
		return
	}
	switch rest[0] {
	case "help":
		v.Assert(o.Ran == 0, "help runs no command")
		known := len(rest) == 2 && (rest[1] == "stub" || rest[1] == "gen" || rest[1] == "template")
		switch {
		case len(rest) == 1:
			v.Assert(o.Code == 0, "help is no failure")
			for _, w := range []string{"gen", "template", "stub", "does nothing"} {
				v.Assert(strings.Contains(o.Out, w), "help lists the command "+w)
			}
			v.Reach("help")
		case known:
			v.Assert(o.Code == 0, "help is no failure")
			v.Assert(strings.Contains(o.Out, rest[1]), "help describes the command")
			if rest[1] == "stub" {
				v.Assert(strings.Contains(o.Out, "usage-of-stub") && strings.Contains(o.Out, "help-of-stub"), "help describes the command")
				v.Assert(!s.Flags || strings.Contains(o.Out, "-knob") && strings.Contains(o.Out, "turns the knob"), "help describes the flags")
			}
			v.Reach("help command")
		default:
			v.Assert(o.Code == 2, "too many or unknown help arguments are a usage error")
			v.Reach("help misuse")
		}
	case "stub":
		v.Assert(o.Ran == 1 && same(o.Args, rest[1:]), "the command runs once with the rest of the arguments")
		v.Assert(o.Out == "output-of-stub", "the command writes to the standard output")
		switch s.Kind {
		case "":
			v.Assert(o.Code == 0, "success is exit status 0")
			v.Reach("success")
		case "usage":
			v.Assert(o.Code == 2, "wrong usage of a command is exit status 2")
			v.Assert(v.Contains(o.Err, s.Text), "the error's text is shown")
			v.Reach("usage")
		default:
			v.Assert(o.Code == 1, "a failing command is exit status 1")
			v.Assert(v.Eq(o.Err, s.Text+"\n"), "the error's own text is shown")
			v.Reach("failure")
		}
	case "gen", "template":
		v.Assert(o.Code == 2, "wrong usage of a command is exit status 2")
		v.Assert(o.Ran == 0, "no other command runs")
	default:
		v.Assert(o.Code == 2 && o.Ran == 0, "an unknown command is a usage error")
		v.Reach("unknown")
	}
}

// Any command line of up to three arguments.
//
//verif:opt paths=200000
//verif:reach flag,none,help,help command,help misuse,unknown,success
func Verif_C27_args() {
	s := &stub{Flags: v.Bool("flags")}
	var args []string
	n := v.Choice("n", v.Bound(4, 5))
	letters := v.Choice("letters", n) // one argument may be any string
	for i := 0; i < n; i++ {
		args = append(args, anyArg("arg", i == letters))
	}
	for _, a := range args { // -h and its like are left open
		v.Assume(!strings.HasPrefix(a, "-h") && !strings.HasPrefix(a, "--h"))
	}
	r := args
	if len(r) > 0 && r[0] == "--" {
		r = r[1:]
	}
	// the real commands have no arguments that could be right
	if len(r) > 1 && (r[0] == "gen" || r[0] == "template") {
		v.Assume(r[1] != "list" && r[1] != "copy")
	}
	dispatch(s, args)
}

// Any outcome of a command.
//
//verif:reach success,usage,failure
func Verif_C27_outcome() {
	s := &stub{Kind: v.OneOf("kind", "", "error", "usage"), Flags: v.Bool("flags")}
	s.Text = v.StrUpTo("text", v.Bound(4, 6))
	args := []string{"stub"}
	if v.Bool("dashes") {
		args = []string{"--", "stub"}
	}
	for i, n := 0, v.Choice("n", 3); i < n; i++ {
		args = append(args, v.StrUpTo("arg", 2))
	}
	dispatch(s, args)
}

// The real commands.
//
//verif:reach good,bad
func Verif_C27_real() {
	world.Setup(world.File{Path: "src/src.go", Src: "package src\n\ntype I interface { M() }\n"}, world.File{Path: "tpl", Src: "type Dec struct{}\n"}, world.File{Path: "bad", Src: "type Dec struct{ }}{{\n"}, world.File{Path: "pct", Src: "{{ index .Vars 5 \"%d%s\" }}"})
	type run struct {
		args []string
		code int
		text string
	}
	runs := []run{
		{[]string{"gen", "-p", "./src", "-i", "I", "-t", "tpl", "-o", "src/out.go"}, 0, ""},
		{[]string{"gen", "-p", "./src", "-i", "I", "-t", "bad", "-o", "src/out.go"}, 1, ""},
		{[]string{"gen", "-p", "./src", "-i", "I", "-t", "pct", "-o", "src/out.go"}, 1, ""},
		{[]string{"gen", "-p", "./src%d", "-i", "I", "-t", "tpl", "-o", "src/out.go"}, 1, "src%d"},
		{[]string{"gen", "-p", "./src", "-i", "I%s", "-t", "tpl", "-o", "src/out.go"}, 1, "I%s"},
		{[]string{"gen", "-p", "./src", "-t", "tpl", "-o", "src/out.go"}, 2, ""},
		{[]string{"gen", "-p", "./src", "-i", "I", "-o", "src/out.go"}, 2, ""},
		{[]string{"gen", "-p", "./src", "-i", "I", "-t", "tpl"}, 2, ""},
		{[]string{"gen", "-p", "./src", "-i", "I", "-t", "remote", "-o", "src/out.go"}, 1, ""},
		{[]string{"template", "list"}, 1, ""},
		{[]string{"template", "copy", "log", "x"}, 1, ""},
		{[]string{"template", "copy", "log"}, 2, ""},
		{[]string{"template", "copy"}, 2, ""},
		{[]string{"template", "%d"}, 2, ""},
	}
	r := runs[v.Choice("run", len(runs))]
	o := program(&stub{}, r.args...)
	v.Assert(o.Crashed == "", "the program does not panic")
	v.Assert(o.Code == r.code, "the exit status tells how the command ended")
	if r.code == 0 {
		src, ok := world.Read("src/out.go")
		v.Assert(ok && strings.Contains(src, "type Dec struct"), "the file is generated")
		v.Reach("good")
		return
	}
	v.Assert(o.Err != "" && strings.Contains(o.Err, r.text) && !strings.Contains(o.Err, "%!"), "the error's own text is shown")
	v.Reach("bad")
}
