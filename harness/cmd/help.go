package main

import (
	"flag"
	"strings"

	"github.com/hexdigest/gowrap"

	"verif.local/zv/v"
)

// The texts of a command appear as they are, whatever they are.
//
//verif:reach list,command,flags
func Verif_C34_texts() {
	s := &stub{Flags: v.Bool("flags")}
	n := v.Bound(2, 3)
	s.Short = "sh" + v.StrOf("short", n, " ~")
	s.Usage = "us" + v.StrOf("usage", n, " ~")
	s.Help = "he" + v.StrOf("help", n, " ~") + "\n"
	s.Knob = "kn" + v.StrOf("knob", n, "!_az") // back quotes would name the value
	s.Default = "de"
	if v.Bool("list") {
		o := program(s, "help")
		v.Assert(o.Crashed == "" && o.Code == 0 && o.Err == "", "help is no failure")
		at := 0
		for _, name := range []string{"gen", "stub", "template"} {
			i := strings.Index(o.Out[at:], "\n\t"+name+" ")
			v.Assert(i >= 0, "the commands are listed once, in order")
			at += i + 2
			v.Assert(!strings.Contains(o.Out[at:], "\n\t"+name+" "), "the commands are listed once, in order")
		}
		v.Assert(v.Contains(o.Out, s.Short+"\n"), "a command is listed with its description")
		for _, name := range []string{"gen", "template"} {
			v.Assert(strings.Contains(o.Out, gowrap.GetCommand(name).ShortDescription()), "a command is listed with its description")
		}
		v.Reach("list")
		return
	}
	o := program(s, "help", "stub")
	v.Assert(o.Crashed == "" && o.Code == 0 && o.Err == "", "help is no failure")
	v.Assert(v.Contains(o.Out, "gowrap stub "+s.Usage+"\n"), "the command's usage line is shown")
	v.Assert(strings.HasSuffix(o.Out, "\n") && v.Eq(o.Out[len(o.Out)-len(s.Help):], s.Help), "the command's help comes last")
	if s.Flags {
		v.Assert(v.Contains(o.Out, s.Knob+" (default \"de\")"), "flags are shown with their description and default")
		for _, t := range []string{"-knob", "-b\t", "bee", "-count int", "how many (default 3)"} {
			v.Assert(strings.Contains(o.Out, t), "every flag is shown")
		}
		v.Reach("flags")
		return
	}
	v.Assert(!strings.Contains(o.Out, "-knob"), "no flags but the command's own")
	v.Reach("command")
}

// The texts of a command made of the library's parts appear as they are, whatever they are.
//
//verif:reach list,command,flags
func Verif_C34_parts() {
	c := &stub{Parts: true, Flags: v.Bool("flags"), Knob: "turns 50% of it", Default: "de"}
	n := v.Bound(2, 3)
	c.Short = v.StrOf("short", 1, " ~") + v.OneOf("short.word", "", "100% {{.}} \\n", "%s %d")
	c.Usage = "us" + v.StrOf("usage", n, " ~")
	c.Help = "he" + v.StrOf("help", n, " ~") + v.OneOf("help.word", "", "{{.}}", "%!d") + "\n"
	if v.Bool("list") {
		o := program(c, "help")
		v.Assert(o.Crashed == "" && o.Code == 0 && o.Err == "", "help is no failure")
		v.Assert(strings.Contains(o.Out, "\n\tstub ") && v.Contains(o.Out, c.Short+"\n"), "a command is listed with its description")
		v.Reach("list")
		return
	}
	o := program(c, "help", "stub")
	v.Assert(o.Crashed == "" && o.Code == 0 && o.Err == "", "help is no failure")
	v.Assert(v.Contains(o.Out, "gowrap stub "+c.Usage+"\n"), "the command's usage line is shown")
	v.Assert(len(o.Out) > len(c.Help) && v.Eq(o.Out[len(o.Out)-len(c.Help):], c.Help), "the command's help comes last")
	if c.Flags {
		v.Assert(strings.Contains(o.Out, "turns 50% of it (default \"de\")\n"), "every flag is shown with its description")
		v.Reach("flags")
		return
	}
	v.Reach("command")
}

// The real commands.
//
//verif:reach gen,template
func Verif_C34_real() {
	name := v.OneOf("command", "gen", "template")
	o := program(&stub{}, "help", name)
	v.Assert(o.Crashed == "" && o.Code == 0 && o.Err == "", "help is no failure")
	c := gowrap.GetCommand(name)
	v.Assert(strings.Contains(o.Out, "gowrap "+name+" "+c.UsageLine()+"\n"), "the command's usage line is shown")
	n := 0
	if fs := c.FlagSet(); fs != nil {
		fs.VisitAll(func(f *flag.Flag) {
			n++
			v.Assert(strings.Contains(o.Out, "\n  -"+f.Name), "every flag is shown")
			_, usage := flag.UnquoteUsage(f)
			for _, l := range strings.Split(usage, "\n") {
				v.Assert(strings.Contains(o.Out, l), "every flag is shown with its description")
			}
		})
	}
	if name == "gen" {
		v.Assert(n >= 7, "gen has its flags")
		for _, f := range []string{"g", "i", "l", "o", "p", "t", "v"} {
			v.Assert(strings.Contains(o.Out, "\n  -"+f), "every flag is shown")
		}
		v.Reach("gen")
		return
	}
	var b strings.Builder
	v.Assert(c.HelpMessage(&b) == nil && b.Len() > 0 && strings.HasSuffix(o.Out, b.String()), "the command's help comes last")
	v.Assert(strings.Contains(o.Out, "list") && strings.Contains(o.Out, "copy"), "the subcommands are described")
	v.Reach("template")
}
