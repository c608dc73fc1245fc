// aliasgen (development time only) writes zz_alias.go into each shim package: re-exports of the
// real package's remaining symbols.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var pkgs = map[string][]string{ // import path -> symbols never aliased
	"time":          nil,
	"sync":          nil,
	"sync/atomic":   nil,
	"crypto/rand":   nil,
	"crypto/sha256": nil,
	"math/rand":     nil,
	"crypto/ecdsa":  nil,
	"fmt":           nil,
	"runtime/debug": nil,
	"runtime":       nil,
	"log":           {"Default", "New", "Writer", "SetOutput", "Logger"},
	"net/http":      {"Serve", "ServeTLS", "ListenAndServeTLS", "DefaultServeMux"},
}

func main() {
	root := os.Args[1]
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	for path, skip := range pkgs {
		dir := filepath.Join(root, strings.ReplaceAll(path, "/", "_"))
		os.Remove(filepath.Join(dir, "zz_alias.go"))
		have := map[string]bool{}
		for _, s := range skip {
			have[s] = true
		}
		ps, err := parser.ParseDir(fset, dir, nil, 0)
		if err != nil {
			panic(err)
		}
		name := ""
		for n, p := range ps {
			name = n
			for _, f := range p.Files {
				for _, d := range f.Decls {
					switch d := d.(type) {
					case *ast.FuncDecl:
						if d.Recv == nil {
							have[d.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, s := range d.Specs {
							switch s := s.(type) {
							case *ast.TypeSpec:
								have[s.Name.Name] = true
							case *ast.ValueSpec:
								for _, i := range s.Names {
									have[i.Name] = true
								}
							}
						}
					}
				}
			}
		}
		pk, err := imp.Import(path)
		if err != nil {
			panic(err)
		}
		var lines []string
		for _, n := range pk.Scope().Names() {
			o := pk.Scope().Lookup(n)
			if !o.Exported() || have[n] {
				continue
			}
			switch o := o.(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				lines = append(lines, fmt.Sprintf("type %s = real.%s", n, n))
			case *types.Const:
				lines = append(lines, fmt.Sprintf("const %s = real.%s", n, n))
			case *types.Var:
				lines = append(lines, fmt.Sprintf("var %s = real.%s", n, n))
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				lines = append(lines, fmt.Sprintf("var %s = real.%s", n, n))
			}
		}
		sort.Strings(lines)
		src := fmt.Sprintf("// Code generated by aliasgen. DO NOT EDIT.\npackage %s\n\nimport real %q\n\n%s\n", name, path, strings.Join(lines, "\n"))
		if len(lines) == 0 {
			continue
		}
		if err := os.WriteFile(filepath.Join(dir, "zz_alias.go"), []byte(src), 0644); err != nil {
			panic(err)
		}
	}
}
