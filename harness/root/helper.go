package gowrap

import (
	"errors"
	"io"
	"os"
	"strconv"
	"strings"

	_ "verif.local/zv/plainfmt"
	_ "verif.local/zv/wmodel"
	"verif.local/zv/world"
)

// remote is the templates' home page.
type remote struct {
	names map[string]string // content by name or URL
	urls  map[string]string // URL by name
	list  []string
	err   error
	asked []string
}

func (r *remote) List() ([]string, error) { return r.list, r.err }

func (r *remote) Load(path string) ([]byte, string, error) {
	r.asked = append(r.asked, path)
	if r.err != nil {
		return nil, "", r.err
	}
	b, ok := r.names[path]
	if !ok {
		return nil, "", errors.New("remote template not found")
	}
	url := r.urls[path]
	if url == "" {
		url = path
	}
	return []byte(b), url, nil
}

// run makes a command the way the program does and runs it.
func run(c Command, w io.Writer, args ...string) error {
	RegisterCommand("x", c)
	return c.Run(args, w)
}

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

// lines finds the go:generate instructions of a file like the go command does.
func lines(src string) (r []string) {
	for _, l := range strings.Split(src, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, "//go:generate ") || strings.HasPrefix(l, "//go:generate\t") {
			r = append(r, l[len("//go:generate "):])
		}
	}
	return
}

// words splits an instruction like the go command does.
func words(line string) (r []string, ok bool) {
	for {
		line = strings.TrimLeft(line, " \t")
		if len(line) == 0 {
			break
		}
		if line[0] == '"' {
			end := 0
			for i := 1; i < len(line) && end == 0; i++ {
				switch line[i] {
				case '\\':
					i++
				case '"':
					end = i + 1
				}
			}
			if end == 0 {
				return nil, false
			}
			w, err := strconv.Unquote(line[:end])
			if err != nil {
				return nil, false
			}
			r = append(r, w)
			line = line[end:]
			if len(line) > 0 && line[0] != ' ' && line[0] != '\t' {
				return nil, false
			}
			continue
		}
		i := strings.IndexAny(line, " \t")
		if i < 0 {
			i = len(line)
		}
		r = append(r, line[:i])
		line = line[i:]
	}
	for i := range r {
		r[i] = os.Expand(r[i], func(n string) string {
			if n == "DOLLAR" {
				return "$"
			}
			return "other(" + n + ")"
		})
	}
	return r, true
}

const body = `
type {{or .Vars.Name "Dec"}} struct { base {{.Interface.Type}} }
{{range $k, $v := .Vars}}
const V_{{$k}} = {{printf "%#v" $v}}
{{end}}
{{range $m := .Interface.Methods}}
func (d {{or $.Vars.Name "Dec"}}) {{$m.Declaration}} { {{$m.Pass "d.base."}} }
{{end}}
`

// module is a module with an interface and templates.
func module(extra ...world.File) {
	world.Setup(append([]world.File{
		{Path: "src/src.go", Src: "package src\n\nimport \"context\"\n\ntype I interface {\n\tM(ctx context.Context, n int) error\n}\n"},
		{Path: "tpl/wrap", Src: body},
		{Path: "tpl/my wrap", Src: body},
		{Path: "dst/dst.go", Src: "package other\n"},
	}, extra...)...)
}

func theRemote() *remote {
	return &remote{
		names: map[string]string{"wrapped": body, "https://host/wrapped": body, "http://host/x/wrapped?a=b c&$d": body},
		urls:  map[string]string{"wrapped": "https://host/wrapped"},
	}
}

// reference finds the template reference recorded for regeneration.
func reference(src string) string {
	for _, l := range lines(src) {
		ws, ok := words(l)
		for i := range ws {
			if ok && ws[i] == "-t" && i+1 < len(ws) {
				return ws[i+1]
			}
		}
	}
	return ""
}

// others says whether the module's files are as before, the one at the given place left out.
func others(before []world.File, at string) bool {
	without := func(fs []world.File) (r []world.File) {
		for _, f := range fs {
			if f.Path != at {
				r = append(r, f)
			}
		}
		return r
	}
	a, b := without(before), without(world.Tree())
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// usable says whether the owner of a file can read and replace it.
func usable(rel string) bool { return world.Mode(rel)&0o600 == 0o600 }
