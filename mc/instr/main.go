// Command instr writes an instrumented copy of a Go package and an overlay
// file for it: a call of verifStep before every statement of every function,
// so that a controlled scheduler can stop a computation there.
//
//	instr PKGDIR OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package linear

// VerifHook is called before every statement of the instrumented package.
var VerifHook func()

func verifStep() {
	if h := VerifHook; h != nil {
		h()
	}
}
`

func main() {
	pkg, out := os.Args[1], os.Args[2]
	if err := os.MkdirAll(out, 0o755); err != nil {
		fail(err)
	}
	files, _ := filepath.Glob(filepath.Join(pkg, "*.go"))
	repl := map[string]string{}
	points := 0
	blocking := false
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			fail(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			fail(err)
		}
		for _, im := range af.Imports {
			if strings.HasPrefix(im.Path.Value, "\"sync") {
				blocking = true
			}
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at = append(at, fs.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				// the blocks of switch and select hold clauses, not statements
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(b.List)
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			}
			return true
		})
		sort.Ints(at)
		var sb strings.Builder
		last := 0
		for _, o := range at {
			sb.Write(src[last:o])
			sb.WriteString("verifStep(); ")
			last = o
		}
		sb.Write(src[last:])
		points += len(at)
		dst := filepath.Join(out, filepath.Base(f))
		if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
			fail(err)
		}
		repl[f] = dst
	}
	h := filepath.Join(out, "verif_hook_overlay.go")
	if err := os.WriteFile(h, []byte(hook+fmt.Sprintf("\nconst VerifBlocking = %v\n", blocking)), 0o644); err != nil {
		fail(err)
	}
	repl[filepath.Join(pkg, "verif_hook_overlay.go")] = h
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fail(err)
	}
	fmt.Println(points)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
