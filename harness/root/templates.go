package gowrap

import (
	"errors"
	"strings"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// Any list of names, or a failure.
//
//verif:reach listed,none,failed
func Verif_C26_list() {
	world.Setup()
	r := &remote{}
	var names []string
	for i := v.Choice("n", v.Bound(4, 5)); i > 0; i-- {
		names = append(names, v.OneOf("prefix", "", "%s/")+v.StrOf("name", v.Choice("len", 2)+1, "azAZ09__%%"))
	}
	r.list = append(r.list, names...)
	if v.Bool("fails") {
		r.err = errors.New("no network")
	}
	args := []string{"list"}
	if v.Bool("extra") {
		args = append(args, "more")
	}
	w := &sink{}
	err := run(NewTemplateCommand(r), w, args...)
	switch {
	case r.err != nil:
		v.Assert(err != nil && strings.Contains(err.Error(), "no network"), "a failure to list is reported")
		v.Assert(len(w.b) == 0, "a failed list prints nothing")
		v.Reach("failed")
	case len(names) == 0:
		v.Assert(err != nil, "an empty list is a failure")
		_, ok := err.(CommandLineError)
		v.Assert(!ok, "an empty list is not the user's fault")
		v.Reach("none")
	default:
		v.Assert(err == nil, "listing succeeds")
		ls := strings.Split(string(w.b), "\n")
		v.Assert(len(ls) >= len(names)+1 && ls[len(ls)-1] == "", "every name has its line")
		if len(ls) < len(names)+1 {
			return
		}
		tail := ls[len(ls)-1-len(names):]
		for i, n := range names {
			v.Assert(v.Eq(strings.TrimLeft(tail[i], " \t"), n), "the names are printed in order")
		}
		v.Assert(len(ls) <= len(names)+2, "nothing else is listed")
		v.Reach("listed")
	}
}

// Any template body and destination.
//
//verif:reach copied,unloaded,unwritten
func Verif_C26_copy() {
	world.Setup(world.File{Path: "d/old", Src: "old"}, world.File{Path: "plain", Src: "file"})
	bodies := []string{v.StrUpTo("body", v.Bound(2, 4)), "%s %d {{.X}}\n", "a\x00b\xff\r\n"}
	body := bodies[v.Choice("form", 3)]
	name := v.OneOf("name", "wrapped", "https://h/x%20y", "")
	r := &remote{names: map[string]string{name: body}, urls: map[string]string{name: "https://home/t%s"}}
	if v.Bool("fails") {
		r.err = errors.New("no network")
	}
	dst := v.OneOf("dst", "new", "d/new", "d/old", "d", "plain/x", "nodir/x", "./d/../d/old", "")
	before, had := world.Read("d/old")
	tree := world.Tree()
	w := &sink{}
	err := run(NewTemplateCommand(r), w, "copy", name, dst)
	v.Assert(len(r.asked) == 1 && r.asked[0] == name, "the named template is loaded")
	at := dst
	if dst == "./d/../d/old" {
		at = "d/old"
	}
	v.Assert(others(tree, at), "no file but the destination is written")
	got, ok := world.Read(at)
	if r.err != nil {
		v.Assert(err != nil && strings.Contains(err.Error(), "no network"), "a failure to load is reported")
		v.Assert(len(w.b) == 0, "a failed copy reports no success")
		now, has := world.Read("d/old")
		v.Assert(now == before && has == had && (!ok || at == "d/old"), "nothing is written when loading fails")
		v.Reach("unloaded")
		return
	}
	if dst == "d" || dst == "plain/x" || dst == "nodir/x" || dst == "" {
		v.Assert(err != nil, "a failure to write is reported")
		v.Assert(len(w.b) == 0, "a failed copy reports no success")
		v.Reach("unwritten")
		return
	}
	v.Assert(err == nil && ok, "copying succeeds")
	v.Assert(v.Eq(got, body), "exactly the loaded body is written")
	v.Assert(strings.Contains(string(w.b), "https://home/t%s"), "the URL is named")
	if v.Symbolic() {
		v.Assert(world.Writes(at) == 1, "the body is written once")
	}
	v.Assert(usable(at), "the copy can be read and replaced by its owner")
	v.Reach("copied")
}

// Any arguments that are not a complete subcommand.
//
//verif:reach short,unknown
func Verif_C26_usage() {
	world.Setup()
	r := &remote{names: map[string]string{"x": "body"}, list: []string{"x"}}
	var args []string
	switch v.Choice("args", 4) {
	case 0:
		v.Reach("short")
	case 1:
		args = []string{"copy"}
	case 2:
		args = []string{"copy", "x"}
	case 3:
		s := v.StrUpTo("sub", v.Bound(4, 5))
		v.Assume(v.And(!v.Eq(s, "list"), !v.Eq(s, "copy")))
		args = []string{s, "x", "y"}
		v.Reach("unknown")
	}
	w := &sink{}
	err := run(NewTemplateCommand(r), w, args...)
	_, ok := err.(CommandLineError)
	v.Assert(ok && err.Error() != "", "incomplete and unknown subcommands are command line errors")
	v.Assert(len(r.asked) == 0 && len(w.b) == 0, "nothing is done for them")
}
