package gowrap

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// text is any short string: bytes, letters with unusual cases and broken encodings.
func text(label string, n int) string {
	s := ""
	for i := v.Choice(label+".len", n+1); i > 0; i-- {
		if v.Bool(label + ".ascii") {
			b := v.Byte(label)
			v.Assume(b < 128)
			s += string([]byte{b})
		} else {
			s += v.OneOf(label+".rune", "é", "É", "ß", "ŉ", "İ", "ı", "ſ", "K", "ǆ", "世", "𐐀", "𐐨", "\u0301", "\xff", "\xc3", "\xe4\xb8", "\ufffd", "Ⅷ", "ⓐ")
		}
	}
	return s
}

// Any string: the first letter changes its case and nothing else changes.
//
//verif:reach letter,broken,empty
func Verif_C28_first() {
	s := text("s", v.Bound(3, 4))
	f, conv := upFirst, unicode.ToUpper
	if v.Bool("down") {
		f, conv = downFirst, unicode.ToLower
	}
	var got string
	p, _ := v.Catch(func() { got = f(s) })
	v.Assert(!p, "no string makes the function fail")
	if s == "" {
		v.Assert(got == "", "nothing stays nothing")
		v.Reach("empty")
		return
	}
	r, n := utf8.DecodeRuneInString(s)
	if r == utf8.RuneError {
		v.Assert(v.Eq(got, s), "what is no letter stays")
		v.Reach("broken")
		return
	}
	v.Assert(v.Eq(got, string(conv(r))+s[n:]), "only the case of the first letter changes")
	v.Reach("letter")
}

// Any string: the snake form is the lower case form with underscores between words.
//
//verif:opt paths=400000 time=120
//verif:reach inserted,plain
func Verif_C28_snake() {
	var s string
	switch v.Choice("form", 3) {
	case 0:
		s = v.StrOf("s", v.Choice("len", v.Bound(6, 9)), "azAZ09__  ")
	case 1:
		s = text("t", v.Bound(3, 4))
	case 2:
		s = v.OneOf("first", "User", "HTTP", "a", "x1", "") + v.StrOf("mid", 1, "azAZ09__") + v.OneOf("last", "ID", "Server", "JSONData", "b")
	}
	var got string
	p, _ := v.Catch(func() { got = toSnakeCase(s) })
	v.Assert(!p, "no string makes the function fail")
	low := strings.ToLower(s)
	// match the result against the lower case form
	i, inserted := 0, 0
	for j := 0; j < len(got); j++ {
		if i < len(low) && got[j] == low[i] {
			i++
			continue
		}
		v.Assert(got[j] == '_', "nothing but underscores is inserted")
		v.Assert(i > 0 && i < len(low), "underscores are inserted between words only")
		if len(low) == len(s) && i < len(s) {
			v.Assert(v.In(s[i], "AZ"), "an underscore is inserted before a capital")
		}
		inserted++
	}
	v.Assert(i == len(low), "no letter is lost")
	if len(low) == len(s) {
		// a capital after a small letter or a digit starts a word
		want := 0
		for k := 1; k < len(s); k++ {
			if v.And(v.In(s[k], "AZ"), v.In(s[k-1], "az09")) {
				want++
			}
		}
		v.Assert(inserted >= want, "every capital after a small letter or a digit starts a word")
	}
	if inserted > 0 {
		v.Reach("inserted")
	} else {
		v.Reach("plain")
	}
}

// Templates find the functions under their names.
//
//verif:reach done
func Verif_C28_names() {
	c := v.StrOf("c", 2, "azAZ")
	module(world.File{Path: "tpl/f", Src: `
const A = {{printf "%#v" (up .Vars.c)}}
const B = {{printf "%#v" (down .Vars.c)}}
const C = {{printf "%#v" (upFirst .Vars.c)}}
const D = {{printf "%#v" (downFirst .Vars.c)}}
const E = {{printf "%#v" (replace (print .Vars.c "." .Vars.c "..") "." "+-")}}
const F = {{printf "%#v" (snake "HTTPServerID2Go")}}
`})
	err := run(NewGenerateCommand(theRemote()), &sink{}, "-p", "./src", "-i", "I", "-o", "dst/out.go", "-t", "tpl/f", "-v", "c="+c)
	v.Assert(err == nil, "the functions are known to templates")
	out, _ := world.Read("dst/out.go")
	up, down := strings.ToUpper(c), strings.ToLower(c)
	for _, l := range []string{"A = \"" + up, "B = \"" + down, "C = \"" + up[:1] + c[1:], "D = \"" + down[:1] + c[1:], "E = \"" + c + "+-" + c + "+-+-", "F = \"http_server_id2_go"} {
		v.Assert(v.Contains(out, "const "+l+"\"\n"), "the function does what it is documented to do")
	}
	v.Reach("done")
}
