// Command genalias writes aliases for every exported identifier of a standard
// package that a shim directory does not define itself.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"strings"
)

func main() {
	std, dir, name := os.Args[1], os.Args[2], os.Args[3]
	skip := map[string]bool{}
	for _, s := range os.Args[4:] {
		skip[s] = true
	}
	fset := token.NewFileSet()
	os.Remove(dir + "/alias.go")
	pk, err := parser.ParseDir(fset, dir, nil, 0)
	if err != nil {
		panic(err)
	}
	for _, p := range pk {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						skip[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							skip[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								skip[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		b, err := exec.Command("go", "list", "-export", "-f", "{{.Export}}", path).Output()
		if err != nil {
			return nil, err
		}
		return os.Open(strings.TrimSpace(string(b)))
	})
	p, err := imp.Import(std)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by cmd/genalias. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, std)
	for _, n := range p.Scope().Names() {
		if !token.IsExported(n) || skip[n] {
			continue
		}
		switch o := p.Scope().Lookup(n).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.TypeName:
			if nm, ok := o.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	if err := os.WriteFile(dir+"/alias.go", b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}
