package loader

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"strings"

	"verif.local/zv/netmodel"
	"verif.local/zv/v"
	_ "verif.local/zv/wmodel"
	"verif.local/zv/world"
)

// answer is what the network does with one request.
type answer struct {
	err      error // Do fails
	status   int
	body     []byte
	readErr  error // after the body
	closeErr error
	together bool // the last bytes arrive along with io.EOF
	chunk    int
	length   int64 // the length the response announces, 0 for none

	pos    int
	closed int
	done   bool // read to the end
}

func (a *answer) Read(p []byte) (int, error) {
	if a.closed > 0 {
		return 0, errors.New("read after close")
	}
	n := len(a.body) - a.pos
	if n > a.chunk {
		n = a.chunk
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, a.body[a.pos:a.pos+n])
	a.pos += n
	if a.pos < len(a.body) {
		return n, nil
	}
	if n > 0 && !a.together {
		return n, nil
	}
	a.done = true
	if a.readErr != nil {
		return n, a.readErr
	}
	return n, io.EOF
}

func (a *answer) Close() error {
	a.closed++
	return a.closeErr
}

// ok says whether the answer delivers a body.
func (a *answer) ok() bool {
	return a.err == nil && a.status == 200 && a.readErr == nil && a.closeErr == nil
}

// network answers requests in turn.
type network struct {
	answers []*answer
	urls    []string
	bad     string
}

func (n *network) Do(r *http.Request) (*http.Response, error) {
	i := len(n.urls)
	n.urls = append(n.urls, r.URL.String())
	if r.Method != "GET" {
		n.bad = "method " + r.Method
	}
	if r.URL.Host != r.Host && r.Host != "" {
		n.bad = "host"
	}
	if i > 0 && n.answers[i-1].err == nil && n.answers[i-1].closed == 0 {
		n.bad = "a request before the previous body was closed"
	}
	if i >= len(n.answers) {
		n.bad = "too many requests"
		return nil, errors.New("too many requests")
	}
	a := n.answers[i]
	if a.err != nil {
		return nil, a.err
	}
	length := a.length
	if length == 0 {
		length = -1
	}
	return &http.Response{StatusCode: a.status, Status: "status", Body: a, ContentLength: length, Header: http.Header{}, Request: r}, nil
}

// asked says that every body handed out was closed once.
func (n *network) tidy() bool {
	for i := range n.urls {
		if i < len(n.answers) && n.answers[i].err == nil && n.answers[i].closed != 1 {
			return false
		}
	}
	return n.bad == ""
}

var (
	errDo    = errors.New("no route to host")
	errRead  = errors.New("connection reset")
	errClose = errors.New("close failed")
)

// any network behaviour with the body.
func anyAnswer(label string, body []byte) *answer {
	a := &answer{status: 200, body: body, chunk: 512}
	if v.Bool(label + ".sized") {
		a.length = int64(len(body))
	}
	switch v.Choice(label+".kind", 6) {
	case 1:
		a.err = errDo
	case 2:
		a.status = int(v.I64(label+".status", 100, 599))
		v.Assume(a.status != 200)
	case 3:
		a.readErr = errRead
		a.body = body[:v.Choice(label+".cut", len(body)+1)]
	case 4:
		a.closeErr = errClose
	case 5:
		a.status = int(v.I64(label+".status", 100, 599))
		a.closeErr = errClose
	}
	if v.Bool(label + ".small") {
		a.chunk = 1 + v.Choice(label+".chunk", 3)
	}
	a.together = v.Bool(label + ".together")
	return a
}

// URLs are fetched as they are.
//
//verif:opt paths=200000
//verif:reach ok,failed
func Verif_C23_url() {
	body := []byte(v.StrUpTo("body", v.Bound(4, 6)))
	url := v.OneOf("scheme", "https://", "http://") + v.OneOf("rest", "host/templates/log", "host:8080/x?ref=a%20b&c=d", "raw.githubusercontent.com/hexdigest/gowrap/v1/templates/log", "h/file://x")
	n := &network{answers: []*answer{anyAnswer("a", body)}}
	got, name, err := New(n).Load(url)
	v.Assert(len(n.urls) == 1 && n.urls[0] == url, "a URL is fetched once, as it is")
	v.Assert(n.tidy(), "every body is closed exactly once")
	if n.answers[0].ok() {
		v.Assert(err == nil, "a successful load is no error")
		v.Assert(v.Eq(string(got), string(body)), "the whole body is returned")
		v.Assert(name == url, "the URL is returned")
		v.Reach("ok")
		return
	}
	v.Assert(err != nil, "a failure is an error")
	v.Reach("failed")
}

func anyName() string {
	name := v.OneOf("name", "x", "retry", "circuit_breaker", "sub/log.v2", "https", "file:/x", "http:/x", "a-b")
	switch v.Choice("letters", 3) {
	case 1:
		name = v.StrOf("letters", 1+v.Choice("n", v.Bound(2, 3)), "azAZ09--__")
	case 2:
		name = "t/" + v.StrOf("letters", 1, "azAZ09..--__")
	}
	return name
}

// Bare names are resolved to the latest commit of the template.
//
//verif:opt paths=200000
//verif:reach ok,commits,contents,none
func Verif_C23_name() {
	trouble := v.Bool("trouble")
	name := "retry"
	if !trouble {
		name = anyName()
	}
	sha := v.StrOf("sha", 1+v.Choice("shalen", v.Bound(2, 4)), "af09")
	commits := 1
	var meta []byte
	kind := 0
	if trouble {
		kind = 3 * v.Choice("meta", 2)
	} else {
		kind = v.Choice("meta", 9)
	}
	switch kind {
	case 0:
		meta = []byte(`[{"sha":"` + sha + `"}]`)
	case 1:
		meta = []byte("[\n  {\n    \"node_id\": \"n\", \"sha\": \"" + sha + "\", \"commit\": {\"sha\": \"tree\", \"n\": [1, -2, null, true, false, \"s\\\"\\n\"]}, \"parents\": [{\"sha\": \"p\"}]\n  }\n]\n")
	case 2:
		meta = []byte(`[{"sha":"` + sha + `"},{"sha":"other"}]`)
	case 3:
		meta, commits = []byte(`[]`), 0
	case 4:
		meta, commits = []byte(`{"message":"API rate limit exceeded"}`), -1
	case 5:
		meta, commits = []byte(``), -1
	case 6:
		meta, commits = []byte(`[{"sha":"`+sha+`"}`), -1
	case 7:
		meta, commits = []byte(`[{"sha":5}]`), -1
	case 8:
		meta, commits = []byte("null"), 0
	}
	body := []byte(v.StrUpTo("body", 2))
	first, second := &answer{status: 200, body: meta, chunk: 512}, &answer{status: 200, body: body, chunk: 512}
	if trouble {
		if v.Bool("first") {
			first = anyAnswer("a", meta)
		} else {
			second = anyAnswer("b", body)
		}
	}
	n := &network{answers: []*answer{first, second}}
	got, url, err := New(n).Load(name)
	v.Assert(n.tidy(), "every body is closed exactly once")
	v.Assert(len(n.urls) >= 1 && n.urls[0] == "https://api.github.com/repos/hexdigest/gowrap/commits?path=templates/"+name+"&per_page=1", "the latest commit of the template is asked for")
	switch {
	case !first.ok():
		v.Assert(err != nil && len(n.urls) == 1, "a failure to find the commit is an error")
		v.Reach("commits")
	case commits <= 0:
		v.Assert(err != nil && len(n.urls) == 1, "a template without commits is an error")
		v.Reach("none")
	default:
		want := "https://raw.githubusercontent.com/hexdigest/gowrap/" + sha + "/templates/" + name
		v.Assert(len(n.urls) == 2 && v.Eq(n.urls[1], want), "the template is fetched from its latest commit")
		if !second.ok() {
			v.Assert(err != nil, "a failure to fetch the template is an error")
			v.Reach("contents")
			return
		}
		v.Assert(err == nil, "a successful load is no error")
		v.Assert(v.Eq(string(got), string(body)), "the whole body is returned")
		v.Assert(v.Eq(url, want), "the template's URL is returned")
		v.Reach("ok")
	}
}

// The names of the remote templates.
//
//verif:opt paths=200000
//verif:reach ok,failed
func Verif_C23_list() {
	var want []string
	tree := `{"sha":"5e","url":"u","tree":[`
	trouble := v.Bool("trouble")
	k := 1
	if !trouble {
		k = v.Choice("entries", v.Bound(4, 5))
	}
	for i := 0; i < k; i++ {
		if i > 0 {
			tree += ","
		}
		var p string
		switch v.Choice("entry", 5) {
		case 0:
			p = "templates/" + v.StrOf("p", 2, "az09__")
			want = append(want, p[len("templates/"):])
		case 1:
			p = "templates/templates/x"
			want = append(want, "templates/x")
		case 2:
			p = v.OneOf("other", "README.md", "templates_tests/a.go", "x/templates/log", "templates", "templates/", "Templates/x", "template/x")
		case 3:
			p = "templates/" + v.StrOf("p", 1, "az") + "/" + v.StrOf("q", 1, "az..")
			want = append(want, p[len("templates/"):])
		case 4:
			p = "templates/a b-c.tpl"
			want = append(want, p[len("templates/"):])
		}
		tree += `{"path":"` + p + `","mode":"100644","type":"blob","size":12,"url":"templates/no"}`
	}
	tree += `],"truncated":false}`
	good := true
	switch v.Choice("meta", 4) {
	case 1:
		tree, good = tree[:len(tree)-1], false
	case 2:
		tree, good = "", false
	case 3:
		tree, good = "[]", false
	}
	a := &answer{status: 200, body: []byte(tree), chunk: 512}
	if trouble {
		a = anyAnswer("a", a.body)
	}
	n := &network{answers: []*answer{a}}
	got, err := New(n).List()
	v.Assert(n.tidy(), "every body is closed exactly once")
	if !a.ok() || !good {
		v.Assert(err != nil, "a failure is an error")
		v.Reach("failed")
		return
	}
	v.Assert(err == nil, "a successful list is no error")
	v.Assert(len(got) == len(want), "every template is listed once")
	for i := range want {
		v.Assert(i >= len(got) || v.Eq(got[i], want[i]), "templates are listed by name in order")
	}
	v.Reach("ok")
}

// file:// paths are read directly or below the root of the git repository.
//
//verif:reach direct,root,absent,directory
func Verif_C23_file() {
	body := v.StrUpTo("body", 2)
	world.Setup(world.File{Path: "repo/tpl/both", Src: "root" + body}, world.File{Path: "repo/tpl/far", Src: "far" + body}, world.File{Path: "repo/sub/tpl/both", Src: "near" + body}, world.File{Path: "repo/sub/near", Src: "near" + body})
	inRepo := v.Bool("repository")
	if inRepo {
		netmodel.GitInit("repo")
	}
	world.Chdir("repo/sub")
	n := &network{}
	p := v.OneOf("path", "tpl/both", "tpl/far", "near", "tpl/none", "tpl", "./tpl/far", "../tpl/far", "/tpl/far", "ABS")
	if p == "ABS" {
		p = world.Root() + "/repo/tpl/far"
	}
	got, name, err := New(n).Load("file://" + p)
	v.Assert(len(n.urls) == 0, "local files need no network")
	var want string
	switch {
	case p == "tpl/both" || p == "near":
		want = "near" + body
		v.Assert(err != nil || name == p, "the path read is returned")
		v.Reach("direct")
	case p == "../tpl/far" || len(p) > 12:
		want = "far" + body
		v.Assert(err != nil || name == p, "the path read is returned")
		v.Reach("direct")
	case inRepo && (p == "tpl/far" || p == "./tpl/far" || p == "/tpl/far"):
		want = "far" + body
		v.Assert(err != nil || strings.HasSuffix(name, "/repo/tpl/far") && strings.HasPrefix(name, "/"), "the path read is returned")
		v.Reach("root")
	case p == "tpl":
		v.Assert(err != nil, "a directory is no template")
		v.Reach("directory")
		return
	default:
		v.Assert(err != nil, "a missing template is an error")
		v.Reach("absent")
		return
	}
	v.Assert(err == nil, "a template that is there is no error")
	v.Assert(v.Eq(string(bytes.Clone(got)), want), "the whole file is returned")
}
