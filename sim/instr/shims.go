package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// genShims writes zsim/shim/<pkg>: a package with the same exported API as the
// standard one, where everything not overridden in sim/shim/<pkg>/override.go is
// a re-export of the real thing.
func genShims(dst, sim string) {
	std := map[string]string{}
	pk := list(dst, "sync", "maps", "math/rand", "math/rand/v2", "time", "os", "fmt", "log", "os/signal", "io/ioutil", "flag")
	for ip, p := range pk {
		std[ip] = p.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if std[path] == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(std[path])
	})
	for _, path := range []string{"sync", "maps", "math/rand", "math/rand/v2", "time", "os", "fmt", "log", "os/signal", "io/ioutil"} {
		out := filepath.Join(dst, "zsim/shim", path)
		if err := os.MkdirAll(out, 0o755); err != nil {
			die("%v", err)
		}
		p, err := imp.Import(path)
		if err != nil {
			die("shim %s: %v", path, err)
		}
		over := map[string]bool{}
		ov := filepath.Join(sim, "shim", path, "override.go")
		if b, err := os.ReadFile(ov); err == nil {
			f, err := parser.ParseFile(token.NewFileSet(), ov, b, 0)
			if err != nil {
				die("%v", err)
			}
			for _, d := range f.Decls {
				switch v := d.(type) {
				case *ast.FuncDecl:
					if v.Recv == nil {
						over[v.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range v.Specs {
						switch w := s.(type) {
						case *ast.TypeSpec:
							over[w.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range w.Names {
								over[n.Name] = true
							}
						}
					}
				}
			}
			os.WriteFile(filepath.Join(out, "override.go"), b, 0o644)
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "// Code generated by instr; re-exports %s.\npackage %s\n\nimport real %q\n\n", path, p.Name(), path)
		names := p.Scope().Names()
		sort.Strings(names)
		n := 0
		for _, nm := range names {
			o := p.Scope().Lookup(nm)
			if !o.Exported() || over[nm] {
				continue
			}
			switch v := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", nm, nm)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", nm, nm)
			case *types.TypeName:
				if named, ok := v.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
					continue // generic: must be overridden by hand
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", nm, nm)
			case *types.Func:
				if v.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", nm, nm)
			}
			n++
		}
		if n == 0 {
			b.Reset()
			fmt.Fprintf(&b, "package %s\n", p.Name())
		}
		os.WriteFile(filepath.Join(out, "reexport.go"), b.Bytes(), 0o644)
	}
	// flag: a copy of the standard source on top of the simulated os and fmt.
	fd := filepath.Join(dst, "zsim/shim/flag")
	os.MkdirAll(fd, 0o755)
	b, err := os.ReadFile(filepath.Join(pk["flag"].Dir, "flag.go"))
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for _, im := range []string{"os", "fmt"} {
		s = strings.Replace(s, "\t\""+im+"\"\n", "\t"+im+" \""+shimPath+im+"\"\n", 1)
	}
	os.WriteFile(filepath.Join(fd, "flag.go"), []byte(s), 0o644)
}
