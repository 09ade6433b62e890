package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"

	"golang.org/x/tools/go/packages"
)

// testNames: identifiers in the package's test files.
func testNames(p *packages.Package) map[string]bool {
	out := map[string]bool{}
	if len(p.GoFiles) == 0 {
		return out
	}
	l, _ := filepath.Glob(filepath.Join(filepath.Dir(p.GoFiles[0]), "*_test.go"))
	for _, n := range l {
		f, err := parser.ParseFile(token.NewFileSet(), n, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(x ast.Node) bool {
			if i, ok := x.(*ast.Ident); ok {
				out[i.Name] = true
			}
			return true
		})
	}
	return out
}
