package main

// A contract file may mention an internal function or type of the repository
// that a change has renamed, removed or given another signature. The
// declarations that no longer type-check are taken out, so that everything
// else is still verified: a caller of the function is then checked against
// its body. (An exported function that is no longer there stays a failure.)

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"
)

// declKeys names one top-level declaration.
func declKeys(d ast.Decl) []string {
	switch x := d.(type) {
	case *ast.FuncDecl:
		n := demangle(x.Name.Name)
		if x.Recv != nil && len(x.Recv.List) > 0 {
			t := x.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if id, ok := t.(*ast.Ident); ok {
				n = demangle(id.Name) + "." + n
			}
		}
		return []string{n}
	case *ast.GenDecl:
		var out []string
		for _, s := range x.Specs {
			switch y := s.(type) {
			case *ast.ValueSpec:
				for _, i := range y.Names {
					out = append(out, demangle(i.Name))
				}
			case *ast.TypeSpec:
				out = append(out, demangle(y.Name.Name))
			case *ast.ImportSpec:
				out = append(out, "import "+y.Path.Value)
			}
		}
		return out
	}
	return nil
}

// declAt returns the key of the declaration (or import) on a line.
func declAt(src []byte, line int) string {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return ""
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok {
			for _, s := range g.Specs {
				if fs.Position(s.Pos()).Line <= line && line <= fs.Position(s.End()).Line {
					if im, ok := s.(*ast.ImportSpec); ok {
						return "import " + im.Path.Value
					}
				}
			}
		}
		if fs.Position(d.Pos()).Line <= line && line <= fs.Position(d.End()).Line {
			if ks := declKeys(d); len(ks) > 0 {
				return ks[0]
			}
		}
	}
	return ""
}

// pruneText blanks the named declarations, keeping line numbers.
func pruneText(src []byte, keys map[string]bool) []byte {
	if len(keys) == 0 {
		return src
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return src
	}
	out := append([]byte{}, src...)
	blank := func(from, to token.Pos) {
		for i := fs.Position(from).Offset; i < fs.Position(to).Offset && i < len(out); i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			for _, s := range g.Specs {
				im := s.(*ast.ImportSpec)
				if keys["import "+im.Path.Value] {
					if g.Lparen == token.NoPos {
						blank(g.Pos(), g.End())
					} else {
						blank(s.Pos(), s.End())
					}
				}
			}
			continue
		}
		for _, k := range declKeys(d) {
			if !keys[k] {
				continue
			}
			from := d.Pos()
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Doc != nil {
					from = x.Doc.Pos()
				}
			case *ast.GenDecl:
				if x.Doc != nil {
					from = x.Doc.Pos()
				}
			}
			blank(from, d.End())
		}
	}
	return out
}

// contractOf returns the contract target a declaration stated, if any.
func contractOf(src []byte, key string) string {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return ""
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || declKeys(d)[0] != key {
			continue
		}
		for _, dir := range directives(fd) {
			if len(dir) > 1 && dir[0] == "contract" {
				return dir[1]
			}
		}
	}
	return ""
}

// splitPos splits "file:line:col".
func splitPos(p string) (string, int) {
	parts := strings.Split(p, ":")
	if len(parts) < 2 {
		return "", 0
	}
	n, err := strconv.Atoi(parts[1])
	if err != nil {
		return "", 0
	}
	return parts[0], n
}
