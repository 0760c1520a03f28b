From 87bd8fdac34183f38d351a8532b8cbd51fdd07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 01/33] fix: fallback template did not compile for methods that
 return an error and take no context

The non-context branch received one result only and had no terminating statement when it was an error. Such methods
now wait for the remaining implementations the way methods with a context do.
---
 templates/fallback | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/templates/fallback b/templates/fallback
index fbd321c..dac8d3f 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -66,7 +66,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
         }
       }()
 
-        {{if $method.AcceptsContext}}
+        {{if (or $method.AcceptsContext $method.ReturnsError)}}
           for {
               select {
               case {{if $method.HasResults}}_res := {{end}} <- _ch:
@@ -93,14 +93,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
           }
         {{else}}
           {{if $method.HasResults}}_res := {{end}} <- _ch
-          {{- if $method.ReturnsError}}
-            if _res.err == nil {
-              {{ $method.ReturnStruct "_res" }}
-            }
-            _errorsList = append(_errorsList, _res.err.Error())
-          {{else}}
-            {{ $method.ReturnStruct "_res" }}
-          {{end -}}
+          {{ $method.ReturnStruct "_res" }}
         {{end}}
   }
 {{end}}
-- 
2.43.0


From 47737097bf9d876d7ee5b9b25b16fa29d7bc70bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 02/33] fix: fallback template lost results of methods without
 a context

Results were dropped when the caller was not yet receiving, which could leave the caller blocked forever. The channel
now has room for every implementation's result.
---
 templates/fallback | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/templates/fallback b/templates/fallback
index dac8d3f..d8afa9d 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -23,7 +23,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
       type _resultStruct {{$method.ResultsStruct}}
-      var _ch = make(chan _resultStruct, 0)
+      var _ch = make(chan _resultStruct, len(_d.implementations))
       var _next = make(chan struct{}, len(_d.implementations))
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d.interval)
@@ -50,10 +50,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
                 case <-ctx.Done():
               }
             {{else}}
-              select {
-                case _ch <- _resultStruct{ {{$method.ResultsNames}} }:
-                default:
-              }
+              _ch <- _resultStruct{ {{$method.ResultsNames}} }
             {{end}}
           }(_d.implementations[_i])
 
-- 
2.43.0


From 70330fc3bab52f26ddd9e7c941381ffa941d30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 03/33] fix: fallback template leaked a goroutine per call

The goroutine that starts the implementations kept waiting for the next tick after the call had returned and the
ticker was stopped.
---
 templates/fallback | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/fallback b/templates/fallback
index d8afa9d..9344b76 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -25,6 +25,8 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
       type _resultStruct {{$method.ResultsStruct}}
       var _ch = make(chan _resultStruct, len(_d.implementations))
       var _next = make(chan struct{}, len(_d.implementations))
+      var _done = make(chan struct{})
+      defer close(_done)
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d.interval)
       defer _ticker.Stop()
@@ -58,6 +60,8 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
             select {
               case <-_next:
               case <-_ticker.C:
+              case <-_done:
+                return
             }
           }
         }
-- 
2.43.0


From 28090b650361b6abc8044220e13471a565b0cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 04/33] fix: elasticapm decorators lacked the methods that take
 no context

The template skipped such methods although the decorator does not embed the interface, so the decorator did not
implement the interface it was generated for. They are now passed through untraced.
---
 templates/elasticapm | 2 --
 1 file changed, 2 deletions(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index c29f78a..8700a57 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -57,7 +57,6 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
 }
 
 {{range $method := .Interface.Methods}}
-  {{if $method.AcceptsContext}}
     {{ $span_name := (printf "%s.%s" $component $method.Name) }}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
@@ -79,5 +78,4 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
         {{ end }}
         {{$method.Pass "_d.base."}}
     }
-  {{end}}
 {{end}}
-- 
2.43.0


From c45cae9ab4d2b3765668cd51c19f1509aee04dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 05/33] fix: elasticapm template did not compile with the
 DecoratorName variable

The option type got the same name as the decorator itself.
---
 templates/elasticapm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index 8700a57..1422325 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -4,7 +4,7 @@ import (
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sAPMTracing" .Interface.Name)) }}
-{{ $decorator_option := (or .Vars.DecoratorName (printf "%sAPMTracingOption" .Interface.Name)) }}
+{{ $decorator_option := (printf "%sOption" $decorator) }}
 {{ $component := (or .Vars.ComponentName (printf "%s" (down .Interface.Name))) }}
 
 // {{$decorator}} implements {{.Interface.Type}} interface with all methods wrapped
-- 
2.43.0


From 831c7f3f8ecf706bf7606050683f58c9cd143e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 06/33] fix: struct tags were dropped from rendered types

---
 printer/printer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index c98bf05..7bd388f 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -237,7 +237,12 @@ func (p *Printer) fieldList(fl *ast.FieldList) ([]string, error) {
 			return nil, err
 		}
 
-		params = append(params, strings.Join(names, ", ")+" "+paramType)
+		field := strings.Join(names, ", ") + " " + paramType
+		if param.Tag != nil {
+			field += " " + param.Tag.Value
+		}
+
+		params = append(params, field)
 	}
 
 	return params, nil
-- 
2.43.0


From a80c1f752de31aee0c9f2de0eeaccd4d249da8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 07/33] fix: types inside parentheses and inline interfaces
 were not qualified

---
 printer/printer.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 7bd388f..eb1ab7d 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -71,6 +71,10 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 		return p.printGeneric(t)
 	case *ast.IndexListExpr:
 		return p.printGenericList(t)
+	case *ast.ParenExpr:
+		return p.printParen(t)
+	case *ast.InterfaceType:
+		return p.printInterface(t)
 	}
 
 	err := printer.Fprint(p.buf, p.fs, node)
@@ -210,6 +214,37 @@ func (p *Printer) printStruct(s *ast.StructType) (string, error) {
 	return "struct{\n" + strings.Join(fields, "\n") + "\n}", nil
 }
 
+func (p *Printer) printParen(pe *ast.ParenExpr) (string, error) {
+	t, err := p.PrintType(pe.X)
+	if err != nil {
+		return "", err
+	}
+
+	return "(" + t + ")", nil
+}
+
+func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
+	if it.Methods == nil || len(it.Methods.List) == 0 {
+		return "interface{}", nil
+	}
+
+	elems := []string{}
+	for _, field := range it.Methods.List {
+		elem, err := p.PrintType(field.Type)
+		if err != nil {
+			return "", err
+		}
+
+		if len(field.Names) > 0 {
+			elem = field.Names[0].Name + strings.TrimPrefix(elem, "func")
+		}
+
+		elems = append(elems, elem)
+	}
+
+	return "interface{\n" + strings.Join(elems, "\n") + "\n}", nil
+}
+
 func (p *Printer) printVariadicParam(e *ast.Ellipsis) (string, error) {
 	sliceType, err := p.PrintType(e.Elt)
 	if err != nil {
-- 
2.43.0


From d2b2903e824117f52ba0c3df298684100ca22155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 08/33] fix: panic on methods with an empty result list

---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 1fa0eee..629b229 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -90,7 +90,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 	usedNames := map[string]bool{}
 
 	//Always name the last return parameter as an "err" if it's of type "error"
-	if f.Results != nil {
+	if f.Results != nil && len(f.Results.List) > 0 {
 		ident, ok := f.Results.List[len(f.Results.List)-1].Type.(*ast.Ident)
 		m.ReturnsError = ok && ident.Name == "error"
 		usedNames["err"] = true
-- 
2.43.0


From caaf5933f9263433e435db18d7ad03f6a41ba51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 09/33] fix: blank parameters were passed on as _

---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 629b229..3dc0bcd 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -128,7 +128,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 // NewParam returns Param struct
 func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (*Param, error) {
 	typ := fi.Type
-	if name == "" || usedNames[name] {
+	if name == "" || name == "_" || usedNames[name] {
 		name = genName(typePrefix(typ), 1, usedNames)
 	}
 
-- 
2.43.0


From 6add43b3bd3791e09c2e75b9d0abd18e6c4bd9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 10/33] fix: invalid parameter names for types whose name
 starts with a multi-byte letter

---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 3dc0bcd..b27e0e4 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -212,7 +212,7 @@ func typePrefix(e ast.Expr) string {
 	case *ast.FuncType:
 		return "f"
 	case *ast.Ident:
-		return strings.ToLower(t.Name[0:1])
+		return strings.ToLower(string([]rune(t.Name)[:1]))
 	}
 
 	return "p"
-- 
2.43.0


From f5c74ae5a0d94e45eec7f95e4822c1ec59320c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 11/33] fix: upper case letters without a lower case were taken
 for unexported

---
 generator/generator.go | 2 +-
 printer/printer.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index c94e826..1f17b7c 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -239,7 +239,7 @@ func NewGenerator(options Options) (*Generator, error) {
 	}
 
 	for _, m := range output.methods {
-		if srcPackageAST.Name != "" && []rune(m.Name)[0] == []rune(strings.ToLower(m.Name))[0] {
+		if srcPackageAST.Name != "" && !ast.IsExported(m.Name) {
 			return nil, errors.Wrap(errUnexportedMethod, m.Name)
 		}
 	}
diff --git a/printer/printer.go b/printer/printer.go
index eb1ab7d..be042bd 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -145,7 +145,7 @@ func (p *Printer) printIdent(i *ast.Ident) (string, error) {
 				//destination file is in another package
 				//if the found type matches one of the types declared in a source package and
 				//this type is unexported
-				if []rune(ts.Name.Name)[0] == []rune(strings.ToLower(ts.Name.Name))[0] {
+				if !ast.IsExported(ts.Name.Name) {
 					return "", errors.Wrap(errUnexportedType, ts.Name.Name)
 				}
 				return p.typesPrefix + "." + i.Name, nil
-- 
2.43.0


From 8de59eff66b05b68a3d4926c85be4f23f8782a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 12/33] fix: selectors of interfaces embedded from another file
 were resolved with the wrong imports

---
 generator/generator.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 1f17b7c..0bbd339 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -660,9 +660,31 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 	}
 
 	input.genericTypes = genericsTypes
+	input.imports = importsOf(embeddedInterface, input)
 	return processInterface(embeddedInterface, input)
 }
 
+// importsOf returns imports of the file that declares the given interface type
+func importsOf(it *ast.InterfaceType, input targetProcessInput) []*ast.ImportSpec {
+	if input.astPackage == nil {
+		return input.imports
+	}
+
+	for _, f := range input.astPackage.Files {
+		if f == nil {
+			continue
+		}
+
+		for _, ts := range typeSpecs(f) {
+			if ts.Type == it {
+				return f.Imports
+			}
+		}
+	}
+
+	return input.imports
+}
+
 var errUnknownSelector = errors.New("unknown selector")
 
 func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackage *packages.Package) (string, error) {
-- 
2.43.0


From facd513ec77d83a3a22c00b9256369745db8e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 13/33] fix: packages were looked up in other files' imports
 before the own ones

---
 generator/generator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 0bbd339..cb98f49 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -694,6 +694,13 @@ func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackag
 		}
 	}
 
+	for _, i := range imports {
+		path := unquote(i.Path.Value)
+		if pkg, ok := currentPackage.Imports[path]; ok && i.Name == nil && pkg.Name == name {
+			return path, nil
+		}
+	}
+
 	for path, pkg := range currentPackage.Imports {
 		if pkg.Name == name {
 			return path, nil
-- 
2.43.0


From a737201910dd93296f70e9f9aa6f163d5e56810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 14/33] fix: embedding an unexported interface was refused as
 if it were a parameter type

---
 generator/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index cb98f49..a92c021 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -468,8 +468,9 @@ func typeSpecs(f *ast.File) []*ast.TypeSpec {
 }
 
 func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, checkInterface bool) (param genericParam, methods methodsList, err error) {
-	param.Name, err = pr.PrintType(t)
-	if err != nil {
+	if !checkInterface {
+		// type arguments are only named, their methods don't belong to the embedding interface
+		param.Name, err = pr.PrintType(t)
 		return
 	}
 
-- 
2.43.0


From f1f8bb23f39e0c4ef36ea7fd9bff25496f13250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 15/33] fix: inline, parenthesized and predeclared embedded
 interfaces and embedded non-interfaces were silently dropped

---
 generator/generator.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index a92c021..01c884a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -483,6 +483,8 @@ func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, ch
 		methods, err = processIdent(v, input, checkInterface)
 		return
 	}
+
+	err = errNotAnInterface
 	return
 }
 
@@ -492,6 +494,16 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 	var genericParams genericParams
 
 	switch v := t.(type) {
+	case *ast.ParenExpr:
+		return processEmbedded(v.X, pr, input, checkInterface)
+
+	case *ast.InterfaceType:
+		if checkInterface {
+			embeddedMethods, err = processInterface(v, input)
+			return
+		}
+		x = v
+
 	case *ast.IndexExpr:
 		x = v.X
 		hasGenericsParams = true
@@ -611,8 +623,15 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		targetName:     selectedName,
 		genericParams:  input.genericParams,
 	})
+	if err != nil {
+		return nil, err
+	}
 
-	return output.methods, err
+	if output.methods == nil {
+		return nil, errors.Wrapf(errNotAnInterface, "%s.%s", packageSelector, selectedName)
+	}
+
+	return output.methods, nil
 }
 
 // mergeMethods merges two methods list. Retains overlapping methods from the
@@ -657,6 +676,10 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 	}
 
 	if embeddedInterface == nil {
+		if checkInterface {
+			return predeclaredMethods(i.Name)
+		}
+
 		return nil, nil
 	}
 
@@ -665,6 +688,22 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 	return processInterface(embeddedInterface, input)
 }
 
+// predeclaredMethods returns methods of the interface types that don't have a declaration
+func predeclaredMethods(name string) (methodsList, error) {
+	switch name {
+	case "any":
+		return nil, nil
+	case "error":
+		return methodsList{"Error": Method{
+			Name:    "Error",
+			Params:  ParamsSlice{},
+			Results: ParamsSlice{{Name: "s1", Type: "string"}},
+		}}, nil
+	}
+
+	return nil, errors.Wrap(errNotAnInterface, name)
+}
+
 // importsOf returns imports of the file that declares the given interface type
 func importsOf(it *ast.InterfaceType, input targetProcessInput) []*ast.ImportSpec {
 	if input.astPackage == nil {
-- 
2.43.0


From a74aa7a1fd9bd1c9017c0b33efb61c0a2460d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 16/33] fix: interfaces declared through a package whose name
 differs from its path were not found

---
 generator/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 01c884a..34d44ce 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -376,6 +376,12 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 			return
 		}
 		srcPackagePath := findSourcePackage(ident, input.imports)
+		if srcPackagePath == "" {
+			srcPackagePath, err = findImportPathForName(ident.Name, input.imports, input.currentPackage)
+			if err != nil {
+				return nil, err
+			}
+		}
 
 		return getMethods(t, srcPackagePath)
 	case *ast.Ident:
-- 
2.43.0


From cf28c0b1881680263cea5f5cbe3c4fe047573adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:38 +0000
Subject: [PATCH 17/33] fix: type parameters of embedded generic interfaces
 were replaced only when they were the whole type

---
 generator/generator.go |  5 +++-
 generator/generics.go  | 58 ++++++++++++++++++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 34d44ce..c0f217f 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -477,6 +477,7 @@ func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, ch
 	if !checkInterface {
 		// type arguments are only named, their methods don't belong to the embedding interface
 		param.Name, err = pr.PrintType(t)
+		param.Name = buildGenericParamsString(param.Name, input.genericTypes, input.genericParams)
 		return
 	}
 
@@ -550,7 +551,9 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 		x = v
 	}
 
-	input.genericParams = genericParams
+	if checkInterface {
+		input.genericParams = genericParams
+	}
 	genericParam, embeddedMethods, err = getEmbeddedMethods(x, pr, input, checkInterface)
 	if err != nil {
 		return
diff --git a/generator/generics.go b/generator/generics.go
index 7d22c27..765bd0e 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -2,6 +2,7 @@ package generator
 
 import (
 	"go/ast"
+	"go/parser"
 	"go/token"
 	"strings"
 )
@@ -151,17 +152,64 @@ func getPrefix(t *ast.Ident, allTypes []*ast.TypeSpec, typesPrefix string) (pref
 	return
 }
 
+// buildGenericParamsString replaces type parameters mentioned in typeStr by the corresponding type arguments
 func buildGenericParamsString(typeStr string, genericTypes genericTypes, genericParams genericParams) string {
+	args := map[string]string{}
 	i := 0
 	for _, genType := range genericTypes {
 		for _, name := range genType.Names {
-			if name == typeStr {
-				if len(genericParams) > i {
-					return genericParams[i].String()
-				}
+			if len(genericParams) > i {
+				args[name] = genericParams[i].String()
 			}
 			i++
 		}
 	}
-	return typeStr
+
+	if len(args) == 0 {
+		return typeStr
+	}
+
+	prefix := ""
+	if strings.HasPrefix(typeStr, "...") {
+		prefix, typeStr = typeStr[:3], typeStr[3:]
+	}
+
+	expr, err := parser.ParseExpr(typeStr)
+	if err != nil {
+		return prefix + typeStr
+	}
+
+	var result strings.Builder
+	last := 0
+	for _, id := range typeNames(expr) {
+		if arg, ok := args[id.Name]; ok {
+			start := int(id.Pos()) - 1
+			result.WriteString(typeStr[last:start])
+			if strings.HasPrefix(arg, "<-") && strings.HasSuffix(typeStr[:start], "chan ") {
+				arg = "(" + arg + ")"
+			}
+			result.WriteString(arg)
+			last = start + len(id.Name)
+		}
+	}
+
+	return prefix + result.String() + typeStr[last:]
+}
+
+// typeNames returns unqualified names that stand for types in the type expression in the order they appear
+func typeNames(expr ast.Expr) (names []*ast.Ident) {
+	ast.Inspect(expr, func(n ast.Node) bool {
+		switch t := n.(type) {
+		case *ast.Ident:
+			names = append(names, t)
+		case *ast.SelectorExpr:
+			return false
+		case *ast.Field:
+			names = append(names, typeNames(t.Type)...)
+			return false
+		}
+		return true
+	})
+
+	return names
 }
-- 
2.43.0


From 92febaf8efe4ffb31ed2738dcf7dc6283a1a112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 18/33] fix: constraints of type parameters other than names
 and simple unions were dropped

---
 generator/generics.go | 15 ++++++++++-----
 printer/printer.go    | 29 +++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/generator/generics.go b/generator/generics.go
index 765bd0e..ebce696 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -4,7 +4,10 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"strings"
+
+	"github.com/hexdigest/gowrap/printer"
 )
 
 const (
@@ -122,16 +125,18 @@ func parseGenericType(exprPart ast.Expr, allTypes []*ast.TypeSpec, typesPrefix s
 	case *ast.Ident:
 		prefix := getPrefix(expr, allTypes, typesPrefix)
 		part = prefix + expr.Name
-	case *ast.SelectorExpr:
-		part = expr.X.(*ast.Ident).Name + "." + expr.Sel.Name
 	case *ast.UnaryExpr:
 		if expr.Op == token.TILDE {
-			if id, ok := expr.X.(*ast.Ident); ok {
-				part = "~" + id.Name
-			}
+			part = "~" + parseGenericType(expr.X, allTypes, typesPrefix)
 		}
 	case *ast.BinaryExpr:
 		part = parseBinaryExpr(expr, allTypes, typesPrefix)
+	default:
+		var err error
+		part, err = printer.New(token.NewFileSet(), allTypes, typesPrefix).PrintType(expr)
+		if err != nil {
+			part = types.ExprString(expr)
+		}
 	}
 
 	return
diff --git a/printer/printer.go b/printer/printer.go
index be042bd..6d6e560 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -75,6 +75,10 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 		return p.printParen(t)
 	case *ast.InterfaceType:
 		return p.printInterface(t)
+	case *ast.UnaryExpr:
+		return p.printUnary(t)
+	case *ast.BinaryExpr:
+		return p.printBinary(t)
 	}
 
 	err := printer.Fprint(p.buf, p.fs, node)
@@ -245,6 +249,31 @@ func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
 	return "interface{\n" + strings.Join(elems, "\n") + "\n}", nil
 }
 
+// printUnary prints an element of a type constraint like ~int
+func (p *Printer) printUnary(u *ast.UnaryExpr) (string, error) {
+	t, err := p.PrintType(u.X)
+	if err != nil {
+		return "", err
+	}
+
+	return u.Op.String() + t, nil
+}
+
+// printBinary prints a union of types
+func (p *Printer) printBinary(b *ast.BinaryExpr) (string, error) {
+	x, err := p.PrintType(b.X)
+	if err != nil {
+		return "", err
+	}
+
+	y, err := p.PrintType(b.Y)
+	if err != nil {
+		return "", err
+	}
+
+	return x + " " + b.Op.String() + " " + y, nil
+}
+
 func (p *Printer) printVariadicParam(e *ast.Ellipsis) (string, error) {
 	sliceType, err := p.PrintType(e.Elt)
 	if err != nil {
-- 
2.43.0


From 7840720039cebc0e4e1e3e54a48631da49b3ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 19/33] fix: type parameters named like a type of the source
 package were qualified as that type

---
 generator/generator.go |  2 +-
 generator/generics.go  | 29 ++++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index c0f217f..1c9799b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -573,7 +573,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 	methods = make(methodsList, len(it.Methods.List))
 
-	pr := printer.New(targetInput.fileSet, targetInput.types, targetInput.typesPrefix)
+	pr := printer.New(targetInput.fileSet, targetInput.genericTypes.visible(targetInput.types), targetInput.typesPrefix)
 
 	for _, field := range it.Methods.List {
 		var embeddedMethods methodsList
diff --git a/generator/generics.go b/generator/generics.go
index ebce696..294d1e6 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -87,13 +87,12 @@ func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, types
 		return
 	}
 
+	var constraints []ast.Expr
 	for _, param := range ts.TypeParams.List {
 		if param == nil {
 			continue
 		}
 
-		typeIdentifier := parseGenericType(param.Type, allTypes, typesPrefix)
-
 		var paramNames []string
 		for _, name := range param.Names {
 			if name != nil {
@@ -101,14 +100,38 @@ func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, types
 			}
 		}
 		types = append(types, genericType{
-			Type:  typeIdentifier,
 			Names: paramNames,
 		})
+		constraints = append(constraints, param.Type)
+	}
+
+	allTypes = types.visible(allTypes)
+	for i, constraint := range constraints {
+		types[i].Type = parseGenericType(constraint, allTypes, typesPrefix)
 	}
 
 	return
 }
 
+// visible returns the types that are not hidden by type parameters of the same name
+func (g genericTypes) visible(types []*ast.TypeSpec) []*ast.TypeSpec {
+	hidden := map[string]bool{}
+	for _, genType := range g {
+		for _, name := range genType.Names {
+			hidden[name] = true
+		}
+	}
+
+	var result []*ast.TypeSpec
+	for _, ts := range types {
+		if !hidden[ts.Name.Name] {
+			result = append(result, ts)
+		}
+	}
+
+	return result
+}
+
 func parseBinaryExpr(expr *ast.BinaryExpr, allTypes []*ast.TypeSpec, typesPrefix string) string {
 	if expr.Op != token.OR {
 		return ""
-- 
2.43.0


From 4c23448c58e73701b7cce3589d6a1ca3b13e9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 20/33] fix: a result type that becomes error by instantiation
 was not taken for an error

---
 generator/types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/types.go b/generator/types.go
index b27e0e4..7af2428 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -114,6 +114,11 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 		return nil, err
 	}
 
+	//the type of the last result may have been a type parameter
+	if len(m.Results) > 0 && m.Results[len(m.Results)-1].Type == "error" {
+		m.ReturnsError = true
+	}
+
 	if m.ReturnsError {
 		m.Results[len(m.Results)-1].Name = "err"
 	}
-- 
2.43.0


From 0eca2971f8d25dc6afa4fa7a58405b5e6de1032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 21/33] fix: blank imports requested by a template caused a
 panic

---
 generator/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 1c9799b..2052d74 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -55,12 +55,12 @@ func (t TemplateInputs) Import(imports ...string) string {
 	}
 
 	for _, i := range imports {
+		i = strings.TrimSpace(i)
+
 		if len(i) == 0 {
 			continue
 		}
 
-		i = strings.TrimSpace(i)
-
 		if i[len(i)-1] != '"' {
 			i += `"`
 		}
-- 
2.43.0


From 1359addadf717774ed43a0ea89a7b8025f2ee3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 22/33] fix: arguments with spaces, quotes or dollar signs were
 not quoted in go:generate instructions

---
 cmd_generate.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 5ab5220..faa1f0a 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"text/template"
 	"unicode"
@@ -130,8 +131,9 @@ func (gc *GenerateCommand) getOptions() (*generator.Options, error) {
 		HeaderTemplate: headerTemplate,
 		HeaderVars: map[string]interface{}{
 			"DisableGoGenerate": gc.noGenerate,
-			"OutputFileName":    filepath.Base(gc.outputFile),
+			"OutputFileName":    goGenerateArg(filepath.Base(gc.outputFile)),
 			"VarsArgs":          varsToArgs(gc.vars),
+			"LocalPrefixArg":    strings.ReplaceAll(strconv.Quote(gc.localPrefix), "$", "${DOLLAR}"),
 		},
 		Vars:        gc.vars.toMap(),
 		LocalPrefix: gc.localPrefix,
@@ -153,7 +155,10 @@ func (gc *GenerateCommand) getOptions() (*generator.Options, error) {
 
 	options.SourcePackage = sourcePackage.PkgPath
 	options.SourcePackageInstance = sourcePackage // Pass the loaded package
-	options.BodyTemplate, options.HeaderVars["Template"], err = gc.loadTemplate(outputFileDir)
+	var templateURL string
+	options.BodyTemplate, templateURL, err = gc.loadTemplate(outputFileDir)
+	options.HeaderVars["Template"] = templateURL
+	options.HeaderVars["TemplateArg"] = goGenerateArg(templateURL)
 
 	return &options, err
 }
@@ -255,15 +260,26 @@ func varsToArgs(v vars) string {
 	for _, vf := range v {
 		switch typedValue := vf.value.(type) {
 		case string:
-			ss = append(ss, vf.name+"="+typedValue)
+			ss = append(ss, goGenerateArg(vf.name+"="+typedValue))
 		case bool:
-			ss = append(ss, vf.name)
+			ss = append(ss, goGenerateArg(vf.name))
 		}
 	}
 
 	return " -v " + strings.Join(ss, " -v ")
 }
 
+// goGenerateArg returns the argument the way it has to be written in a go:generate instruction
+func goGenerateArg(s string) string {
+	quoted := strconv.Quote(s)
+	if s == "" || strings.ContainsAny(s, " $") || quoted[1:len(quoted)-1] != s {
+		//environment variables are substituted in quoted arguments as well
+		return strings.ReplaceAll(quoted, "$", "${DOLLAR}")
+	}
+
+	return s
+}
+
 var helperFuncs template.FuncMap
 
 func init() {
@@ -307,7 +323,7 @@ const headerTemplate = `// Code generated by gowrap. DO NOT EDIT.
 package {{.Package.Name}}
 
 {{if (not .Options.HeaderVars.DisableGoGenerate)}}
-//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{.Options.HeaderVars.Template}} -o {{.Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l "{{.Options.LocalPrefix}}"
+//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{.Options.HeaderVars.TemplateArg}} -o {{.Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l {{.Options.HeaderVars.LocalPrefixArg}}
 {{end}}
 import(
 {{range $import := .Options.Imports}}{{$import}}
-- 
2.43.0


From 37a08c3b7b0f0c12a9a22afc2eaf32b1b9cabfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:01 +0000
Subject: [PATCH 23/33] fix: http template URLs were turned into relative paths

---
 cmd_generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index faa1f0a..a849fc7 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -176,7 +176,7 @@ func (gc *GenerateCommand) loadTemplate(outputFileDir string) (contents, url str
 		return "", "", errors.Wrap(err, "failed to load template")
 	}
 
-	if !strings.HasPrefix(url, "https://") {
+	if !strings.HasPrefix(url, "https://") && !strings.HasPrefix(url, "http://") {
 		templatePath, err := gc.filepath.Abs(url)
 		if err != nil {
 			return "", "", err
-- 
2.43.0


From 062a071e748e347d6787ebe787ed7f586d33fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 24/33] fix: upFirst and downFirst panicked on strings that are
 not valid UTF-8

---
 cmd_generate.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index a849fc7..c4a36d1 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -12,6 +12,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/pkg/errors"
@@ -294,17 +295,19 @@ func init() {
 }
 
 func upFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToUpper(v)) + s[len(string(v)):]
+	r, size := utf8.DecodeRuneInString(s)
+	if r == utf8.RuneError {
+		return s
 	}
-	return ""
+	return string(unicode.ToUpper(r)) + s[size:]
 }
 
 func downFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToLower(v)) + s[len(string(v)):]
+	r, size := utf8.DecodeRuneInString(s)
+	if r == utf8.RuneError {
+		return s
 	}
-	return ""
+	return string(unicode.ToLower(r)) + s[size:]
 }
 
 var matchFirstCap = regexp.MustCompile("(.)([A-Z][a-z]+)")
-- 
2.43.0


From 7c89e9e0456c926eb919087510e981ff3166b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 25/33] fix: gowrap -- caused a panic and percent signs in
 error messages were garbled

---
 cmd/gowrap/gowrap.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index a59d991..9a9f370 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -19,13 +19,6 @@ func init() {
 }
 
 func main() {
-	if len(os.Args) < 2 {
-		if err := gowrap.Usage(os.Stderr); err != nil {
-			die(1, err.Error())
-		}
-		os.Exit(2)
-	}
-
 	flag.CommandLine.Usage = func() {
 		die(2, "Run 'gowrap help' for usage.")
 	}
@@ -33,9 +26,16 @@ func main() {
 	flag.Parse()
 	args := flag.Args()
 
+	if len(args) == 0 {
+		if err := gowrap.Usage(os.Stderr); err != nil {
+			die(1, "%s", err.Error())
+		}
+		os.Exit(2)
+	}
+
 	if args[0] == "help" {
 		if err := help(args[1:], os.Stdout); err != nil {
-			die(2, err.Error())
+			die(2, "%s", err.Error())
 		}
 		return
 	}
@@ -49,7 +49,7 @@ func main() {
 		if _, ok := err.(gowrap.CommandLineError); ok {
 			die(2, "%s\nRun 'gowrap help %s' for usage.\n", err.Error(), args[0])
 		}
-		die(1, err.Error())
+		die(1, "%s", err.Error())
 	}
 }
 
-- 
2.43.0


From fda41fd3068dce5dfc474ee1f2f2eee662ba0722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 26/33] fix: of types declared by files for different platforms
 a random one was used

---
 pkg/package.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/pkg/package.go b/pkg/package.go
index 73f1548..4766508 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -48,13 +48,62 @@ func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 	if ap, ok := pkgs[p.Name]; ok {
 		return &Package{
 			Name:  p.Name,
-			Files: ap.Files,
+			Files: dropAlternatives(ap.Files, p.IgnoredFiles),
 		}, nil
 	}
 
 	return &Package{Name: p.Name}, nil
 }
 
+// dropAlternatives removes types declared in files excluded by build constraints
+// when the other files of the package declare types with the same names
+func dropAlternatives(files map[string]*ast.File, ignored []string) map[string]*ast.File {
+	declared := map[string]bool{}
+	excluded := make(map[string]bool, len(ignored))
+	for _, name := range ignored {
+		excluded[name] = true
+	}
+
+	for name, f := range files {
+		if !excluded[name] {
+			filterTypes(f, func(ts *ast.TypeSpec) bool {
+				declared[ts.Name.Name] = true
+				return true
+			})
+		}
+	}
+
+	for _, name := range ignored {
+		if f, ok := files[name]; ok {
+			filterTypes(f, func(ts *ast.TypeSpec) bool {
+				redeclared := declared[ts.Name.Name]
+				declared[ts.Name.Name] = true
+				return !redeclared
+			})
+		}
+	}
+
+	return files
+}
+
+// filterTypes leaves in the file only type declarations selected by the given function
+func filterTypes(f *ast.File, keep func(*ast.TypeSpec) bool) {
+	for _, decl := range f.Decls {
+		gd, ok := decl.(*ast.GenDecl)
+		if !ok || gd.Tok != token.TYPE {
+			continue
+		}
+
+		var specs []ast.Spec
+		for _, spec := range gd.Specs {
+			if ts, ok := spec.(*ast.TypeSpec); !ok || keep(ts) {
+				specs = append(specs, spec)
+			}
+		}
+		gd.Specs = specs
+	}
+}
+
 // Dir returns absolute path of the package in a filesystem
 func Dir(p *packages.Package) string {
 	files := append(p.GoFiles, p.OtherFiles...)
-- 
2.43.0


From c4014f8d61ba7c8e2cc4612c8a96a95d5ff84e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 27/33] fix: imports made by both the source file and the
 template under a name were declared twice

---
 generator/generator.go | 57 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 2052d74..f4c09bc 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/ast"
+	"go/parser"
 	"go/token"
 	"io"
 	"path/filepath"
@@ -330,7 +331,7 @@ func (g Generator) Generate(w io.Writer) error {
 	}
 
 	imports.LocalPrefix = g.localPrefix
-	processedSource, err := imports.Process(g.Options.OutputFile, buf.Bytes(), nil)
+	processedSource, err := imports.Process(g.Options.OutputFile, g.dropRepeatedImports(buf.Bytes()), nil)
 	if err != nil {
 		return errors.Wrapf(err, "failed to format generated code:\n%s", buf)
 	}
@@ -339,6 +340,60 @@ func (g Generator) Generate(w io.Writer) error {
 	return err
 }
 
+// dropRepeatedImports removes imports that declare the same name for the same package again,
+// named imports that come both from the source file and from the template are not merged by imports.Process
+func (g Generator) dropRepeatedImports(src []byte) []byte {
+	fs := token.NewFileSet()
+
+	f, err := parser.ParseFile(fs, g.Options.OutputFile, src, parser.ImportsOnly)
+	if err != nil {
+		return src
+	}
+
+	result := append([]byte{}, src...)
+	seen := map[string]bool{}
+
+	for _, decl := range f.Decls {
+		gd, ok := decl.(*ast.GenDecl)
+		if !ok {
+			continue
+		}
+
+		for _, spec := range gd.Specs {
+			is, ok := spec.(*ast.ImportSpec)
+			if !ok {
+				continue
+			}
+
+			var name string
+			if is.Name != nil {
+				name = is.Name.Name
+			} else if g.srcPackage != nil {
+				if p, ok := g.srcPackage.Imports[unquote(is.Path.Value)]; ok {
+					name = p.Name
+				}
+			}
+
+			key := name + " " + is.Path.Value
+			if !seen[key] {
+				seen[key] = true
+				continue
+			}
+
+			var repeated ast.Node = is
+			if !gd.Lparen.IsValid() {
+				repeated = gd
+			}
+
+			for i := fs.Position(repeated.Pos()).Offset; i < fs.Position(repeated.End()).Offset; i++ {
+				result[i] = ' '
+			}
+		}
+	}
+
+	return result
+}
+
 var errTargetNotFound = errors.New("target declaration not found")
 
 func findTarget(input processInput) (output processOutput, err error) {
-- 
2.43.0


From a7b5868facb1a9f93425e0140ab1c23501471c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 28/33] fix: packages mentioned only by embedded interfaces'
 signatures were not imported

---
 generator/generator.go | 67 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 65 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index f4c09bc..bedf95b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -8,7 +8,9 @@ import (
 	"go/token"
 	"io"
 	"path/filepath"
+	"slices"
 	"sort"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -143,6 +145,7 @@ type processInput struct {
 	astPackage     *pkg.Package
 	targetName     string
 	genericParams  genericParams
+	usedImports    *[]*ast.ImportSpec
 }
 
 type targetProcessInput struct {
@@ -225,11 +228,13 @@ func NewGenerator(options Options) (*Generator, error) {
 		options.Imports = append(options.Imports, srcPackageAST.Name+` "`+srcPackage.PkgPath+`"`)
 	}
 
+	var usedImports []*ast.ImportSpec
 	output, err := findTarget(processInput{
 		fileSet:        fs,
 		currentPackage: srcPackage,
 		astPackage:     srcPackageAST,
 		targetName:     options.InterfaceName,
+		usedImports:    &usedImports,
 	})
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to parse interface declaration")
@@ -246,6 +251,11 @@ func NewGenerator(options Options) (*Generator, error) {
 	}
 
 	options.Imports = append(options.Imports, makeImports(output.imports)...)
+	for _, i := range makeImports(usedImports) {
+		if !slices.Contains(options.Imports, i) {
+			options.Imports = append(options.Imports, i)
+		}
+	}
 
 	genericTypes, genericParams := output.genericTypes.buildVars()
 
@@ -438,7 +448,7 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 			}
 		}
 
-		return getMethods(t, srcPackagePath)
+		return getMethods(t, srcPackagePath, input.usedImports)
 	case *ast.Ident:
 		if t.Obj == nil {
 			return
@@ -451,7 +461,7 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 	return
 }
 
-func getMethods(sel *ast.SelectorExpr, srcPackagePath string) (methods methodsList, err error) {
+func getMethods(sel *ast.SelectorExpr, srcPackagePath string, usedImports *[]*ast.ImportSpec) (methods methodsList, err error) {
 	srcPkg, err := pkg.Load(srcPackagePath)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cant load %s package", srcPackagePath)
@@ -468,6 +478,7 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string) (methods methodsLi
 		currentPackage: srcPkg,
 		astPackage:     srcAst,
 		targetName:     sel.Sel.Name,
+		usedImports:    usedImports,
 	})
 	if err != nil {
 		return nil, errors.Wrapf(err, "failed to find target in %s package", srcPackagePath)
@@ -531,6 +542,7 @@ func typeSpecs(f *ast.File) []*ast.TypeSpec {
 func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, checkInterface bool) (param genericParam, methods methodsList, err error) {
 	if !checkInterface {
 		// type arguments are only named, their methods don't belong to the embedding interface
+		addUsedImports(t, input)
 		param.Name, err = pr.PrintType(t)
 		param.Name = buildGenericParamsString(param.Name, input.genericTypes, input.genericParams)
 		return
@@ -641,6 +653,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 			method, err = NewMethod(field.Names[0].Name, field, pr, targetInput.genericTypes, targetInput.genericParams)
 			if err == nil {
 				methods[field.Names[0].Name] = *method
+				addUsedImports(v, targetInput)
 				continue
 			}
 
@@ -686,6 +699,7 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		astPackage:     astPkg,
 		targetName:     selectedName,
 		genericParams:  input.genericParams,
+		usedImports:    input.usedImports,
 	})
 	if err != nil {
 		return nil, err
@@ -768,6 +782,55 @@ func predeclaredMethods(name string) (methodsList, error) {
 	return nil, errors.Wrap(errNotAnInterface, name)
 }
 
+// addUsedImports collects imports of the packages mentioned in the signature of a method or in a type argument,
+// an embedded interface may be declared by a file or a package with imports of its own
+func addUsedImports(t ast.Expr, input targetProcessInput) {
+	if input.usedImports == nil || input.currentPackage == nil {
+		return
+	}
+
+	for _, e := range typeNames(t) {
+		for _, ts := range input.genericTypes.visible(input.types) {
+			if input.typesPrefix != "" && ts.Name.Name == e.Name {
+				*input.usedImports = append(*input.usedImports, &ast.ImportSpec{
+					Name: ast.NewIdent(input.typesPrefix),
+					Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(input.currentPackage.PkgPath)},
+				})
+			}
+		}
+	}
+
+	ast.Inspect(t, func(n ast.Node) bool {
+		se, ok := n.(*ast.SelectorExpr)
+		if !ok {
+			return true
+		}
+
+		if selector, ok := se.X.(*ast.Ident); ok {
+			for _, i := range input.imports {
+				if importName(i, input.currentPackage) == selector.Name {
+					*input.usedImports = append(*input.usedImports, i)
+				}
+			}
+		}
+
+		return false
+	})
+}
+
+// importName returns the name under which the file refers to the imported package
+func importName(i *ast.ImportSpec, currentPackage *packages.Package) string {
+	if i.Name != nil {
+		return i.Name.Name
+	}
+
+	if p, ok := currentPackage.Imports[unquote(i.Path.Value)]; ok {
+		return p.Name
+	}
+
+	return ""
+}
+
 // importsOf returns imports of the file that declares the given interface type
 func importsOf(it *ast.InterfaceType, input targetProcessInput) []*ast.ImportSpec {
 	if input.astPackage == nil {
-- 
2.43.0


From f9c73ca4d0a12166efc526e8b06f58a6880d80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 29/33] fix: an interface of a package whose name is the last
 element of another import's path was looked up there

---
 generator/generator.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index bedf95b..62054d8 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -440,7 +440,7 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 		if !ok {
 			return
 		}
-		srcPackagePath := findSourcePackage(ident, input.imports)
+		srcPackagePath := findSourcePackage(ident, input.imports, input.currentPackage)
 		if srcPackagePath == "" {
 			srcPackagePath, err = findImportPathForName(ident.Name, input.imports, input.currentPackage)
 			if err != nil {
@@ -487,7 +487,7 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string, usedImports *[]*as
 	return out.methods, nil
 }
 
-func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec) string {
+func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec, currentPackage *packages.Package) string {
 	for _, imp := range imports {
 		cleanPath := strings.Trim(imp.Path.Value, "\"")
 		if imp.Name != nil {
@@ -499,7 +499,15 @@ func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec) string {
 		}
 
 		slash := strings.LastIndex(cleanPath, "/")
-		if ident.Name == cleanPath[slash+1:] {
+		packageName := cleanPath[slash+1:]
+		if currentPackage != nil {
+			if imported, ok := currentPackage.Imports[cleanPath]; ok && imported.Name != "" {
+				//the name of a package may differ from the last element of its path
+				packageName = imported.Name
+			}
+		}
+
+		if ident.Name == packageName {
 			return cleanPath
 		}
 	}
-- 
2.43.0


From fd1ae657a6d1067cb1b10798dc07e56cc6dd535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 30/33] fix: generators made with one list of imports could
 overwrite each other's imports

---
 generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 62054d8..30ace71 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -185,6 +185,9 @@ func NewGenerator(options Options) (*Generator, error) {
 		options.Vars = make(map[string]interface{})
 	}
 
+	//imports are appended below, the caller's slice may have room for them
+	options.Imports = slices.Clip(options.Imports)
+
 	fs := token.NewFileSet()
 
 	var srcPackage *packages.Package
-- 
2.43.0


From 3caeb83abe24a38ada7db8cf1a2d1d4f90224585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 31/33] fix: twirp_error decorators of two interfaces in one
 package declared the same function

---
 templates/twirp_error | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/twirp_error b/templates/twirp_error
index 067befa..2fc4fbe 100644
--- a/templates/twirp_error
+++ b/templates/twirp_error
@@ -22,7 +22,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
     {{- if $method.ReturnsError}}
       {{range $param := $method.Params}}
         {{if not ( and $method.AcceptsContext (eq $param.Name "ctx")) }}
-          defer injectRequestDataToError({{$param.Name}} ,&err)
+          defer _d.injectRequestDataToError({{$param.Name}} ,&err)
         {{end}}
       {{end}}
     {{end}}
@@ -30,7 +30,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
   }
 {{end}}
 
-func injectRequestDataToError(req interface{}, perr *error) {
+func (_d {{$decorator}}) injectRequestDataToError(req interface{}, perr *error) {
 	err := *perr
 	if err != nil {
 		twerr, ok := err.(twirp.Error)
-- 
2.43.0


From de6bc8a33590ec53466e50fa4b107bc5b195a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 32/33] fix: an interface that embeds itself or a type declared
 as itself made generation run out of stack

---
 generator/generator.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 30ace71..d845475 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -154,6 +154,7 @@ type targetProcessInput struct {
 	typesPrefix  string
 	imports      []*ast.ImportSpec
 	genericTypes genericTypes
+	visited      []*ast.TypeSpec //declarations that lead to the one being processed
 }
 
 type processOutput struct {
@@ -162,6 +163,17 @@ type processOutput struct {
 	imports      []*ast.ImportSpec
 }
 
+// visit returns the input for processing of the declaration that the current one refers to
+func (input targetProcessInput) visit(ts *ast.TypeSpec) (targetProcessInput, error) {
+	if slices.Contains(input.visited, ts) {
+		return targetProcessInput{}, errors.Wrap(errRecursiveType, ts.Name.Name)
+	}
+
+	input.visited = append(append([]*ast.TypeSpec{}, input.visited...), ts)
+	return input, nil
+}
+
+var errRecursiveType = errors.New("type refers to itself")
 var errEmptyInterface = errors.New("interface has no methods")
 var errUnexportedMethod = errors.New("unexported method")
 
@@ -423,6 +435,7 @@ func findTarget(input processInput) (output processOutput, err error) {
 		typesPrefix:  input.astPackage.Name,
 		imports:      output.imports,
 		genericTypes: output.genericTypes,
+		visited:      []*ast.TypeSpec{ts},
 	})
 	if err != nil {
 		return processOutput{}, err
@@ -457,6 +470,11 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 			return
 		}
 		if ts, ok := t.Obj.Decl.(*ast.TypeSpec); ok {
+			input, err = input.visit(ts)
+			if err != nil {
+				return nil, err
+			}
+
 			return findMethods(ts, input)
 		}
 	}
@@ -752,6 +770,12 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 			var ok bool
 			embeddedInterface, ok = t.Type.(*ast.InterfaceType)
 			if ok {
+				var err error
+				input, err = input.visit(t)
+				if err != nil {
+					return nil, err
+				}
+
 				genericsTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
 				break
 			}
-- 
2.43.0


From d1a84c096c3d1a8d4f48869290b8883ced2a2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 33/33] fix: a function type embedded in an interface made
 generation panic

---
 generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index d845475..66b5c8a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -679,6 +679,10 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		case *ast.FuncType:
 			var method *Method
 
+			if len(field.Names) == 0 {
+				return nil, errNotAnInterface
+			}
+
 			method, err = NewMethod(field.Names[0].Name, field, pr, targetInput.genericTypes, targetInput.genericParams)
 			if err == nil {
 				methods[field.Names[0].Name] = *method
-- 
2.43.0

