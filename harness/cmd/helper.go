package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"io"
	"net/http"
	"os"
	"os/exec"
	"strings"

	"github.com/hexdigest/gowrap"

	_ "verif.local/zv/netmodel"
	_ "verif.local/zv/plainfmt"
	"verif.local/zv/v"
	"verif.local/zv/wmodel"
	"verif.local/zv/world"
)

// stub is a command that does what it is told.
type stub struct {
	Kind, Text string // what Run returns: "", "error" or "usage", and its text
	Flags      bool

	Parts                             bool   // made of the library's parts
	Short, Usage, Help, Knob, Default string // texts of its own instead of the usual ones

	ran  int
	args []string
}

func (s *stub) FlagSet() *flag.FlagSet {
	if !s.Flags {
		return nil
	}
	fs := &flag.FlagSet{}
	if s.Knob != "" {
		fs.String("knob", s.Default, s.Knob)
		fs.Bool("b", false, "bee")
		fs.Int("count", 3, "how many")
		return fs
	}
	fs.String("knob", "dflt", "turns the knob")
	return fs
}

func or(s, usual string) string {
	if s != "" {
		return s
	}
	return usual
}
func (s *stub) ShortDescription() string { return or(s.Short, "does nothing") }
func (s *stub) UsageLine() string        { return or(s.Usage, "usage-of-stub") }
func (s *stub) HelpMessage(w io.Writer) error {
	_, err := io.WriteString(w, or(s.Help, "help-of-stub"))
	return err
}
func (s *stub) Run(args []string, w io.Writer) error {
	s.ran++
	s.args = args
	io.WriteString(w, "output-of-stub")
	switch s.Kind {
	case "error":
		return errors.New(s.Text)
	case "usage":
		return gowrap.CommandLineError(s.Text)
	}
	return nil
}

// plain is a command made of the library's parts.
type plain struct {
	gowrap.BaseCommand
	run func([]string, io.Writer) error
}

func (p *plain) Run(args []string, w io.Writer) error { return p.run(args, w) }

// command is the command a stub stands for.
func command(s interface {
	gowrap.Command
	self() *stub
}) gowrap.Command {
	t := s.self()
	if !t.Parts {
		return s
	}
	return &plain{gowrap.BaseCommand{Flags: s.FlagSet(), Short: t.Short, Usage: t.Usage, Help: t.Help}, s.Run}
}

func (s *stub) self() *stub { return s }

// outcome is how the program ended.
type outcome struct {
	Code     int
	Out, Err string
	Ran      int
	Args     []string
	Crashed  string
}

type exitCode int

var wout, werr []byte

//verif:replace os.Exit
func exit(code int) { panic(exitCode(code)) }

func write(f *os.File, b []byte) {
	if f == os.Stdout {
		wout = append(wout, b...)
	} else {
		werr = append(werr, b...)
	}
}

//verif:replace (*net/http.Client).Do
func do(c *http.Client, r *http.Request) (*http.Response, error) {
	return nil, errors.New("no network")
}

// program runs the program with the arguments; the command "stub" is among its commands.
func program(s *stub, args ...string) (o outcome) {
	if !v.Symbolic() {
		return native(s, args)
	}
	gowrap.RegisterCommand("stub", command(s))
	os.Args = append([]string{"gowrap"}, args...)
	wout, werr = nil, nil
	wmodel.Std = write
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case exitCode:
				o.Code = int(x)
			case error:
				o.Crashed = x.Error()
			default:
				o.Crashed = "panic"
			}
		}()
		main()
	}()
	o.Out, o.Err, o.Ran, o.Args = string(wout), string(werr), s.ran, s.args
	return o
}

type childJob struct {
	Stub stub
	Args []string
}

func native(s *stub, args []string) (o outcome) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	b, _ := json.Marshal(childJob{*s, args})
	log := os.Getenv("VERIF_SCRATCH") + "/ran"
	os.Remove(log)
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(b), "VERIF_LOG="+log)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic(err)
		}
	}
	o.Code, o.Out, o.Err = cmd.ProcessState.ExitCode(), so.String(), se.String()
	if strings.Contains(o.Err, "goroutine 1 [") {
		o.Crashed = o.Err
	}
	if b, err := os.ReadFile(log); err == nil {
		for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			o.Ran++
			json.Unmarshal([]byte(l), &o.Args)
		}
	}
	return o
}

// logged is the stub in the program's own process.
type logged struct{ *stub }

func (l logged) Run(args []string, w io.Writer) error {
	f, err := os.OpenFile(os.Getenv("VERIF_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	json.NewEncoder(f).Encode(args)
	f.Close()
	return l.stub.Run(args, w)
}

func init() {
	if v.Symbolic() {
		return
	}
	job := os.Getenv("VERIF_CHILD")
	if job == "" {
		return
	}
	var j childJob
	if err := json.Unmarshal([]byte(job), &j); err != nil {
		panic(err)
	}
	gowrap.RegisterCommand("stub", command(logged{&j.Stub}))
	os.Args = append([]string{"gowrap"}, j.Args...)
	main()
	os.Exit(0)
}

var _ = world.Root
