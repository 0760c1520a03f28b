// Package plainfmt replaces imports.Process by a check of the syntax inside the engine.
package plainfmt

import (
	"go/parser"
	"go/token"

	"golang.org/x/tools/imports"
)

//verif:replace golang.org/x/tools/imports.Process
func Process(filename string, src []byte, opt *imports.Options) ([]byte, error) {
	if _, err := parser.ParseFile(token.NewFileSet(), filename, src, parser.ParseComments); err != nil {
		return nil, err
	}
	return src, nil
}
