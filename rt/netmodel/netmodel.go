// Package netmodel replaces encoding/json decoding and running git inside the engine.
package netmodel

import (
	"encoding/json"
	"errors"
	"io"
	"os/exec"
	"path"
	"strings"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// node is a JSON value; its kind is one of n, t, f, 0 (number), ", [ and {.
type node struct {
	kind byte
	s    string
	keys []string
	kids []node
}

type parser struct {
	b []byte
	i int
}

var errSyntax = errors.New("invalid character in JSON input")

func (p *parser) space() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\n' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) eat(c byte) bool {
	p.space()
	if p.i < len(p.b) && p.b[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *parser) word(w string, k byte) (node, error) {
	if len(p.b)-p.i < len(w) || string(p.b[p.i:p.i+len(w)]) != w {
		return node{}, errSyntax
	}
	p.i += len(w)
	return node{kind: k}, nil
}

func (p *parser) str() (string, error) {
	if !p.eat('"') {
		return "", errSyntax
	}
	var r []byte
	for p.i < len(p.b) {
		c := p.b[p.i]
		p.i++
		switch {
		case c == '"':
			return string(r), nil
		case c < 0x20:
			return "", errSyntax
		case c != '\\':
			r = append(r, c)
			continue
		}
		if p.i == len(p.b) {
			break
		}
		c = p.b[p.i]
		p.i++
		switch c {
		case '"', '\\', '/':
			r = append(r, c)
		case 'n':
			r = append(r, '\n')
		case 't':
			r = append(r, '\t')
		case 'r':
			r = append(r, '\r')
		case 'b':
			r = append(r, '\b')
		case 'f':
			r = append(r, '\f')
		default:
			return "", errSyntax // \u escapes are outside the harnesses
		}
	}
	return "", errSyntax
}

func (p *parser) value() (n node, err error) {
	p.space()
	if p.i == len(p.b) {
		return n, errors.New("unexpected end of JSON input")
	}
	c := p.b[p.i]
	switch {
	case c == 'n':
		return p.word("null", 'n')
	case c == 't':
		return p.word("true", 't')
	case c == 'f':
		return p.word("false", 'f')
	case c == '"':
		n.kind = '"'
		n.s, err = p.str()
		return n, err
	case c == '[' || c == '{':
		n.kind = c
		end := c + 2
		p.i++
		if p.eat(end) {
			return n, nil
		}
		for {
			if c == '{' {
				p.space()
				k, err := p.str()
				if err != nil || !p.eat(':') {
					return n, errSyntax
				}
				n.keys = append(n.keys, k)
			}
			kid, err := p.value()
			if err != nil {
				return n, err
			}
			n.kids = append(n.kids, kid)
			if p.eat(end) {
				return n, nil
			}
			if !p.eat(',') {
				return n, errSyntax
			}
		}
	case c == '-' || c >= '0' && c <= '9':
		n.kind = '0'
		at := p.i
		if c == '-' {
			p.i++
		}
		digits := p.i
		for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
			p.i++
		}
		if p.i == digits || p.b[digits] == '0' && p.i > digits+1 {
			return n, errSyntax
		}
		n.s = string(p.b[at:p.i]) // fractions and exponents are outside the harnesses
		return n, nil
	}
	return n, errSyntax
}

// assign stores a value the way json.Unmarshal does; it is part of the engine.
func assign(dst any, n node) string { panic("engine") }

//verif:replace encoding/json.Unmarshal
func Unmarshal(data []byte, dst any) error {
	p := &parser{b: data}
	n, err := p.value()
	if err != nil {
		return err
	}
	p.space()
	if p.i < len(p.b) {
		return errSyntax
	}
	if s := assign(dst, n); s != "" {
		return errors.New(s)
	}
	return nil
}

var decoders = map[*json.Decoder]*decoder{}

type decoder struct {
	r io.Reader
	p *parser
}

//verif:replace encoding/json.NewDecoder
func NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decoders[d] = &decoder{r: r}
	return d
}

//verif:replace (*encoding/json.Decoder).Decode
func Decode(d *json.Decoder, dst any) error {
	x := decoders[d]
	if x.p == nil {
		b, err := io.ReadAll(x.r)
		if err != nil {
			return err
		}
		x.p = &parser{b: b}
	}
	x.p.space()
	if x.p.i == len(x.p.b) {
		return io.EOF
	}
	n, err := x.p.value()
	if err != nil {
		return err
	}
	if s := assign(dst, n); s != "" {
		return errors.New(s)
	}
	return nil
}

//verif:replace os/exec.Command
func Command(name string, args ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, args...)}
}

// Output runs git as far as the repository's root is asked for.
//
//verif:replace (*os/exec.Cmd).Output
func Output(c *exec.Cmd) ([]byte, error) {
	if path.Base(c.Path) != "git" || strings.Join(c.Args[1:], " ") != "rev-parse --show-toplevel" {
		panic("netmodel: unexpected command")
	}
	dir := c.Dir
	if dir == "" {
		dir, _ = world.Getwd()
	}
	for dir != "/" {
		if i, err := world.Stat(dir + "/.git"); err == nil && i.IsDir() {
			return []byte(dir + "\n"), nil
		}
		dir = path.Dir(dir)
	}
	return nil, errors.New("exit status 128")
}

//verif:replace (*os/exec.Cmd).CombinedOutput
func CombinedOutput(c *exec.Cmd) ([]byte, error) { return Output(c) }

// GitInit makes the directory below the module root the root of a repository.
func GitInit(rel string) {
	if v.Symbolic() {
		world.Mkdir(path.Join(rel, ".git"))
		return
	}
	cmd := exec.Command("git", "init", "-q", path.Join(world.Root(), rel))
	if err := cmd.Run(); err != nil {
		panic(err)
	}
}
