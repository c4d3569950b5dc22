// yieldify copies the Go files of a package directory with a call to yield.Y() before every
// statement, and prints a JSON map original path -> copy for `go build -overlay`.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	dir, out := os.Args[1], os.Args[2]
	ents, err := os.ReadDir(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	m := map[string]string{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(dir, n)
		src, err := os.ReadFile(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		var offs []int
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				offs = append(offs, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.SwitchStmt:
				for _, c := range b.Body.List {
					add(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range b.Body.List {
					add(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range b.Body.List {
					add(c.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(b.List)
			}
			return true
		})
		if len(offs) == 0 {
			continue
		}
		sort.Ints(offs)
		imp := fset.Position(f.Name.End()).Offset
		var b strings.Builder
		b.Write(src[:imp])
		b.WriteString("; import verifyield \"verif.local/harness/yield\"")
		last := imp
		for i, o := range offs {
			if i > 0 && offs[i-1] == o {
				continue
			}
			b.Write(src[last:o])
			b.WriteString("verifyield.Y(); ")
			last = o
		}
		b.Write(src[last:])
		op := filepath.Join(out, n)
		if err := os.WriteFile(op, []byte(b.String()), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		m[p] = op
	}
	json.NewEncoder(os.Stdout).Encode(m)
}
