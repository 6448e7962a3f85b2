// Command extract cuts the Falcon precompile, with what it needs of its file, out of geth's contracts.go.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path"
	"strconv"
	"strings"
)

func die(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(1)
}

// the type registered at address 0x13
func registered(f *ast.File) string {
	name := ""
	ast.Inspect(f, func(n ast.Node) bool {
		kv, ok := n.(*ast.KeyValueExpr)
		if !ok {
			return true
		}
		call, ok := kv.Key.(*ast.CallExpr)
		if !ok || len(call.Args) != 1 {
			return true
		}
		cl, ok := call.Args[0].(*ast.CompositeLit)
		if !ok || len(cl.Elts) == 0 {
			return true
		}
		var v uint64
		for _, e := range cl.Elts {
			b, ok := e.(*ast.BasicLit)
			if !ok {
				return true
			}
			x, err := strconv.ParseUint(b.Value, 0, 64)
			if err != nil {
				return true
			}
			v = v<<8 | x
		}
		if v != 0x13 {
			return true
		}
		var t ast.Expr = kv.Value
		if u, ok := t.(*ast.UnaryExpr); ok {
			t = u.X
		}
		if c, ok := t.(*ast.CompositeLit); ok {
			if id, ok := c.Type.(*ast.Ident); ok && name == "" {
				name = id.Name
			}
		}
		return true
	})
	return name
}

func recvName(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) == 0 {
		return ""
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, 0)
	if err != nil {
		die(err)
	}
	root := registered(f)
	decl := map[string][]ast.Decl{} // by name; a type also brings its methods
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			n := d.Name.Name
			if d.Recv != nil {
				n = recvName(d)
			}
			decl[n] = append(decl[n], d)
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			for _, s := range d.Specs {
				one := &ast.GenDecl{Tok: d.Tok, Specs: []ast.Spec{s}}
				switch s := s.(type) {
				case *ast.TypeSpec:
					decl[s.Name.Name] = append(decl[s.Name.Name], one)
				case *ast.ValueSpec:
					for _, id := range s.Names {
						if d.Tok == token.CONST && len(s.Values) == 0 {
							decl[id.Name] = append(decl[id.Name], d) // iota
						} else {
							decl[id.Name] = append(decl[id.Name], one)
						}
					}
				}
			}
		}
	}
	if root == "" {
		root = "falconvrfy"
	}
	if decl[root] == nil {
		die("no precompile")
	}
	imports := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := path.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[n] = p
	}
	seen, used := map[string]bool{}, map[string]bool{}
	emitted := map[ast.Decl]bool{}
	var out []ast.Decl
	todo := []string{root}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		for _, d := range decl[n] {
			if emitted[d] {
				continue
			}
			emitted[d] = true
			out = append(out, d)
			ast.Inspect(d, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok {
					if imports[id.Name] != "" {
						used[id.Name] = true
					}
					if decl[id.Name] != nil {
						todo = append(todo, id.Name)
					}
				}
				return true
			})
		}
	}
	var b bytes.Buffer
	b.WriteString("package pre\n\nimport (\n")
	for n := range used {
		if n == path.Base(imports[n]) {
			fmt.Fprintf(&b, "\t%q\n", imports[n])
		} else {
			fmt.Fprintf(&b, "\t%s %q\n", n, imports[n])
		}
	}
	b.WriteString(")\n\n")
	for _, d := range out {
		printer.Fprint(&b, fset, d)
		b.WriteString("\n\n")
	}
	fmt.Fprintf(&b, "// New returns the precompile.\nfunc New() interface{ Run([]byte) ([]byte, error) } { return &%s{} }\n", root)
	fmt.Print(strings.ReplaceAll(b.String(), "\r", ""))
}
