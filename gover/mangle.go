package main

// Names declared in contract files get a prefix, so that they cannot clash
// with anything the verified packages declare.

import (
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strings"
)

const manglePrefix = "gover_"

var mangleExempt = map[string]bool{"trig": true, "sameVals": true, "sameStrs": true, "applyBuiltin": true, "anyError": true, "wfv": true, "wfvs": true, "init": true, "_": true}

func demangle(s string) string { return strings.ReplaceAll(s, manglePrefix, "") }

type mangled struct {
	fset *token.FileSet
	file *ast.File
	src  []byte
	name string
}

// mangle renames the lower-case top-level names declared in the files of one
// package; only files in declare contribute names.
func mangle(files map[string][]byte, declare func(string) bool) (map[string][]byte, error) {
	var ms []*mangled
	names := map[string]bool{}
	for n, src := range files {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, n, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		ms = append(ms, &mangled{fs, f, src, n})
		if !declare(n) {
			continue
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					names[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.ValueSpec:
						for _, i := range y.Names {
							names[i.Name] = true
						}
					case *ast.TypeSpec:
						names[y.Name.Name] = true
					}
				}
			}
		}
	}
	out := map[string][]byte{}
	for _, m := range ms {
		skip := map[*ast.Ident]bool{}
		unres := map[*ast.Ident]bool{}
		for _, u := range m.file.Unresolved {
			unres[u] = true
		}
		ast.Inspect(m.file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CompositeLit:
				switch x.Type.(type) {
				case *ast.MapType, *ast.ArrayType:
					return true
				}
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if id, ok := kv.Key.(*ast.Ident); ok {
							skip[id] = true
						}
					}
				}
			case *ast.SelectorExpr:
				skip[x.Sel] = true
			}
			return true
		})
		var at []int
		ast.Inspect(m.file, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok || skip[id] || !names[id.Name] || mangleExempt[id.Name] || ast.IsExported(id.Name) {
				return true
			}
			top := id.Obj != nil && m.file.Scope.Lookup(id.Name) == id.Obj
			if top || unres[id] {
				at = append(at, m.fset.Position(id.Pos()).Offset)
			}
			return true
		})
		sort.Ints(at)
		var b strings.Builder
		last := 0
		for i, o := range at {
			if i > 0 && at[i-1] == o {
				continue
			}
			b.Write(m.src[last:o])
			b.WriteString(manglePrefix)
			last = o
		}
		b.Write(m.src[last:])
		out[m.name] = []byte(b.String())
	}
	return out, nil
}
