// points PKG SRC DST [SRC DST …]: copies Go sources, putting a call to PKG's P before every
// statement, and a declaration of the package-level variables to PKG's Own. What the code
// does stays the same.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

func main() {
	pkg := os.Args[1]
	for i := 2; i+1 < len(os.Args); i += 2 {
		src, err := os.ReadFile(os.Args[i])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		out, err := instrument(src, pkg)
		if err != nil {
			fmt.Fprintln(os.Stderr, os.Args[i], err)
			out = src
		}
		if err := os.WriteFile(os.Args[i+1], out, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
}

// instrument inserts text at the positions of statements, everything else is left alone.
func instrument(src []byte, pkg string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	at := map[int]bool{}
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at[fset.Position(s.Pos()).Offset] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// the clauses of a switch or select are no statements
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	vars := globals(f)
	asks, keep := environment(fset, f)
	if len(at) == 0 && len(vars) == 0 && len(asks) == 0 {
		return src, nil
	}
	var b bytes.Buffer
	name := fset.Position(f.Name.End()).Offset
	for i := 0; i <= len(src); i++ {
		if i == name {
			fmt.Fprintf(&b, "; import simpoint_ %q", pkg)
		}
		if at[i] {
			b.WriteString("simpoint_.P(); ")
		}
		if n := asks[i]; n > 0 {
			b.WriteString("simpoint_")
			i += n
		}
		if i < len(src) {
			b.WriteByte(src[i])
		}
	}
	b.WriteString("\n\nfunc init() {\n")
	for _, v := range vars {
		fmt.Fprintf(&b, "\tsimpoint_.Own(&%s)\n", v)
	}
	for _, k := range keep {
		fmt.Fprintf(&b, "\t_ = %s\n", k)
	}
	b.WriteString("\t_ = simpoint_.P\n}\n")
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", b.Bytes(), 0); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// what a process can learn about itself and its machine
var environs = map[string]map[string]bool{
	"os":      {"Hostname": true, "Getpid": true, "Getppid": true, "Getwd": true, "Executable": true, "UserHomeDir": true, "Getenv": true, "LookupEnv": true},
	"runtime": {"NumCPU": true, "NumGoroutine": true},
}

// environment finds the questions: the offsets and lengths of the package names, and
// something which keeps the imports used.
func environment(fset *token.FileSet, f *ast.File) (asks map[int]int, keep []string) {
	asks = map[int]int{}
	names := map[string]string{}
	for _, i := range f.Imports {
		p := i.Path.Value[1 : len(i.Path.Value)-1]
		if environs[p] != nil {
			n := p
			if i.Name != nil {
				n = i.Name.Name
			}
			names[n] = p
		}
	}
	kept := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := s.X.(*ast.Ident)
		if ok && x.Obj == nil && environs[names[x.Name]][s.Sel.Name] {
			asks[fset.Position(x.Pos()).Offset] = len(x.Name)
			if k := x.Name + "." + s.Sel.Name; !kept[k] {
				kept[k] = true
				keep = append(keep, k)
			}
		}
		return true
	})
	return asks, keep
}

// globals are the package-level variables, none if the file uses C.
func globals(f *ast.File) []string {
	for _, i := range f.Imports {
		if i.Path.Value == `"C"` {
			return nil
		}
	}
	var out []string
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			for _, n := range s.(*ast.ValueSpec).Names {
				if n.Name != "_" {
					out = append(out, n.Name)
				}
			}
		}
	}
	return out
}
