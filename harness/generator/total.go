package generator

import (
	"verif.local/zv/v"
	"verif.local/zv/world"
)

// Things that may stand in an interface or behind a type's name, sensible or not.
var oddities = []string{"A", "B", "I", "pk.X", "pk.Y", "pk.Gone", "gone.X", "G[A]", "G[I]", "G[G[A]]", "H[A, int]", "pk.G[A]", "(A)", "interface{ A }", "interface{ I }",
	"*A", "[]A", "[2]A", "map[A]I", "chan A", "struct{ A }", "error", "any", "comparable", "A | pk.X", "~int", "func(A) I"}

func oddity(label string) string { return v.OneOf(label, oddities...) }

// declaration is a declaration of the type.
func declaration(label, name string) string {
	switch v.OneOf(label+".kind", "interface", "methods", "named", "alias", "generic") {
	case "interface":
		return "type " + name + " interface { " + oddity(label) + " }\n"
	case "methods":
		return "type " + name + " interface { M(" + oddity(label) + "); N() }\n"
	case "named":
		return "type " + name + " " + oddity(label) + "\n"
	case "alias":
		return "type " + name + " = " + oddity(label) + "\n"
	}
	return "type " + name + "[T any] interface { " + oddity(label) + " }\n"
}

// Whatever the package declares, generation ends with a file or an error.
//
//verif:opt paths=400000
//verif:reach made,refused
func Verif_C38_total() {
	i, a := declaration("i", "I"), declaration("a", "A")
	world.Setup(
		world.File{Path: "src/src.go", Src: "package src\n\nimport \"world.local/pk\"\n\n" + i + "type G[T any] interface { G(T) }\ntype H[K comparable, V any] interface { G[V] }\n"},
		world.File{Path: "src/a.go", Src: "package src\n\nimport \"world.local/pk\"\n\n" + a + "type B struct{}\n"},
		world.File{Path: "pk/pk.go", Src: "package pk\n\ntype X interface { X(Y) }\ntype Y int\ntype G[T any] interface { X\n\tQ(T) }\n"},
	)
	file := v.OneOf("out", "src/out.go", "dst/out.go")
	var in TemplateInputs
	var out string
	var err error
	panicked, _ := v.Catch(func() {
		in, out, err = capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: file})
	})
	v.Assert(!panicked, "generation ends with a file or an error")
	if err != nil {
		v.Reach("refused")
		return
	}
	v.Assert(len(in.Interface.Methods) > 0 && out != "", "a generated file has the methods of the interface")
	v.Reach("made")
}

// One byte of a sensible file is anything.
//
//verif:opt paths=400000
//verif:reach made,refused
func Verif_C38_bytes() {
	src := "package src\nimport p \"world.local/pk\"\ntype I interface { A; G[p.Y]\nM(x, y p.Y, z ...A) (e error) }\ntype A = interface{ N() }\ntype G[T ~int|A] interface { Q(map[T]*G[T]) }\n"
	i := v.Choice("at", len(src))
	src = src[:i] + string([]byte{v.Byte("byte")}) + src[i+1:]
	world.Setup(
		world.File{Path: "src/src.go", Src: src},
		world.File{Path: "pk/pk.go", Src: "package pk\n\ntype X interface { X(Y) }\ntype Y int\n"},
	)
	file := v.OneOf("out", "src/out.go", "dst/out.go")
	var out string
	var err error
	panicked, _ := v.Catch(func() {
		_, out, err = capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: file})
	})
	v.Assert(!panicked, "generation ends with a file or an error")
	if err != nil {
		v.Reach("refused")
		return
	}
	v.Assert(out != "", "a generated file is not empty")
	v.Reach("made")
}

// Expressions that may stand where a type is expected, whether or not the compiler would take them there.
var expressions = []string{"[N]A", "[N + 1]A", "[len(s)]A", "[1 << 3]A", "[...]A", "[pk.N]A", "[-1]A", "['a']A", "[\"a\"[0]]A", "[2]struct{}", "func()", "func(...A)", "func(a, b A, c ...pk.X) (d A, err error)", "func(func(A)) func() A",
	"struct{}", "struct{ A; *pk.X; a, b A `tag`; _ int }", "interface{}", "interface{ M(A); pk.X }", "interface{ ~int | A }", "<-chan A", "chan<- A", "chan (<-chan A)", "(((A)))", "(*A)", "*(*A)", "**A",
	"G[A]", "pk.G[A]", "H[A, pk.X]", "G[func(A)]", "G[struct{ A }]", "G[G[H[A, A]]]", "G[[]A][A]", "map[[2]A]map[A]func(A)", "A.B", "pk.X.Y", "1", "\"s\"", "A{}", "A()", "A + A", "A | A", "~A", "!A", "-A", "<-A", "func() {}", "[]A{A{}}", "A.(B)", "a[1:2]", "...A", "_", "unsafe.Pointer", "C.int"}

// Whatever stands for a type in a signature, a constraint or a type argument, generation ends with a file or an error.
//
//verif:opt paths=400000
//verif:reach made,refused
func Verif_C38_types() {
	e, f := v.OneOf("e", expressions...), v.OneOf("f", "int", "A", "pk.X", "E", "interface{ E }")
	var i string
	switch v.OneOf("place", "parameter", "variadic", "result", "both", "constraint", "argument", "deep", "alias") {
	case "parameter":
		i = "type I interface { M(a " + e + ", b, c " + f + ") }\n"
	case "variadic":
		i = "type I interface { M(a " + f + ", b ..." + e + ") }\n"
	case "result":
		i = "type I interface { M() (" + e + ", " + f + ") }\n"
	case "both":
		i = "type I interface { M(" + e + ") " + e + "; N(_ " + f + ") (_ " + f + ") }\n"
	case "constraint":
		i = "type I[T " + e + ", U " + f + "] interface { M(T, U) }\n"
	case "argument":
		i = "type I interface { G[" + e + "]; pk.G[" + f + "] }\n"
	case "deep":
		i = "type I interface { M(map[" + f + "][]func(*" + e + ")) }\n"
	case "alias":
		i = "type I = interface { M(" + e + "); E }\ntype E2 = " + f + "\n"
	}
	world.Setup(
		world.File{Path: "src/src.go", Src: "package src\n\nimport \"world.local/pk\"\n\n" + i + "type G[T any] interface { G(T) }\ntype H[K comparable, V any] interface { G[V] }\ntype E interface { E(T) }\n"},
		world.File{Path: "src/a.go", Src: "package src\n\ntype A struct{}\nconst N = 3\n"},
		world.File{Path: "pk/pk.go", Src: "package pk\n\ntype X interface { X() }\nconst N = 2\ntype G[T any] interface { X\n\tQ(T) }\n"},
	)
	file := v.OneOf("out", "src/out.go", "dst/out.go")
	var in TemplateInputs
	var out string
	var err error
	panicked, _ := v.Catch(func() {
		in, out, err = capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: file})
	})
	v.Assert(!panicked, "generation ends with a file or an error")
	if err != nil {
		v.Reach("refused")
		return
	}
	v.Assert(len(in.Interface.Methods) > 0 && out != "", "a generated file has the methods of the interface")
	v.Reach("made")
}
