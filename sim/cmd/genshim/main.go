// genshim writes forwards.go of a shim package: everything the standard package exports and the shim
// does not override itself. It is run by hand when the Go version changes; its output is committed.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	std, dir := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	fs := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "forwards.go") {
			continue
		}
		af, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					skip[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						skip[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							skip[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(std)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	base := filepath.Base(std)
	fmt.Fprintf(&b, "// Code generated by cmd/genshim from %s; DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", std, base, std)
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o.(type) {
		case *types.TypeName:
			fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
		case *types.Var, *types.Func:
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		}
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "forwards.go"), src, 0o644); err != nil {
		panic(err)
	}
}
