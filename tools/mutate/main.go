// Command mutate measures the checks: it makes single-point mutants of a copy
// of the library, drops those the repository's tests catch, and runs the
// checks on the rest. It is a development tool; no check uses it.
//
//	mutate -repo /repo -mc /verif/mc -work /tmp/mut -out result.txt [-every N] [-file name]
package main

import (
	"bytes"
	"context"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type mutant struct {
	file     string
	from, to int
	text     string
	what     string
	line     int
}

func main() {
	repo := flag.String("repo", "/repo", "")
	mc := flag.String("mc", "/verif/mc", "")
	work := flag.String("work", "/tmp/mut", "")
	out := flag.String("out", "/tmp/mut.txt", "")
	every := flag.Int("every", 1, "")
	offset := flag.Int("offset", 0, "")
	only := flag.String("file", "", "")
	par := flag.Int("par", 4, "")
	flag.Parse()
	var ms []mutant
	files, _ := filepath.Glob(*repo + "/*.go")
	for _, f := range files {
		b := filepath.Base(f)
		if strings.HasSuffix(b, "_test.go") || *only != "" && b != *only {
			continue
		}
		ms = append(ms, mutants(f)...)
	}
	var sel []mutant
	for i, m := range ms {
		if i%*every == *offset {
			sel = append(sel, m)
		}
	}
	fmt.Println(len(ms), "mutants,", len(sel), "selected")
	o, err := os.OpenFile(*out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	count := map[string]int{}
	ch := make(chan mutant)
	var wg sync.WaitGroup
	for w := 0; w < *par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			dir := fmt.Sprintf("%s/%d", *work, w)
			os.MkdirAll(dir, 0o755)
			run(dir, 60, "cp", "-a", *repo, dir+"/repo")
			run(dir, 60, "cp", "-a", *mc, dir+"/mc")
			gm, _ := os.ReadFile(dir + "/mc/go.mod")
			os.WriteFile(dir+"/mc/go.mod", bytes.ReplaceAll(gm, []byte("=> "+*repo), []byte("=> "+dir+"/repo")), 0o644)
			if !bytes.Contains(gm, []byte("=> "+*repo)) {
				lines := strings.Split(string(gm), "\n")
				for i, l := range lines {
					if k := strings.Index(l, "=> "); k >= 0 {
						lines[i] = l[:k] + "=> " + dir + "/repo"
					}
				}
				os.WriteFile(dir+"/mc/go.mod", []byte(strings.Join(lines, "\n")), 0o644)
			}
			for m := range ch {
				r := try(dir, m)
				mu.Lock()
				count[strings.Fields(r)[0]]++
				if !strings.HasPrefix(r, "tests") && !strings.HasPrefix(r, "build") {
					fmt.Fprintf(o, "%s\t%s:%d\t%s\n", r, filepath.Base(m.file), m.line, m.what)
				}
				mu.Unlock()
			}
		}()
	}
	for i, m := range sel {
		ch <- m
		if i%50 == 49 {
			mu.Lock()
			fmt.Println(i+1, count)
			mu.Unlock()
		}
	}
	close(ch)
	wg.Wait()
	fmt.Println(count)
}

func run(dir string, secs int, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, args[0], args[1:]...)
	c.Dir = dir
	c.WaitDelay = time.Second
	b, err := c.CombinedOutput()
	return string(b), err
}

var checksFor = map[string]string{
	"array_2d_row_real_matrix.go":           "C01 C02 C03 C05 C12 C14 C04 C07 C28 C26 C06 C27",
	"block_real_matrix.go":                  "C01 C02 C03 C05 C12 C14 C28 C04 C07 C26 C06 C27",
	"diagonal_matrix.go":                    "C13 C01 C02 C03 C05 C12 C14 C04 C07 C28 C26 C06 C27",
	"real_matrix.go":                        "C02 C03 C05 C12 C14 C28 C04 C07 C26 C06 C27 C01",
	"array_real_vector.go":                  "C09 C10 C11 C28 C26 C07 C06",
	"real_vector.go":                        "C09 C10 C11 C28 C26 C07 C06",
	"lu_decomposition.go":                   "C15 C24 C25 C26 C27 C07",
	"cholesky_decomposition.go":             "C16 C24 C25 C26 C27 C07",
	"rectangular_cholesky_decomposition.go": "C17 C25 C26 C27 C07",
	"qr_decomposition.go":                   "C18 C24 C19 C25 C26 C27 C07",
	"rrqr_decomposition.go":                 "C19 C24 C25 C26 C27 C07",
	"singular_value_decomposition.go":       "C20 C24 C25 C26 C27 C07",
	"eigen_decomposition.go":                "C21 C22 C24 C25 C26 C27 C07",
	"schur_transformer.go":                  "C23 C22 C25 C26 C27 C07",
	"hessenberg_transformer.go":             "C23 C22 C25 C26 C27 C07",
	"tridiagonal_transformer.go":            "C23 C21 C25 C26 C27 C07",
	"bidiagonal_transformer.go":             "C23 C25 C26 C27 C07",
	"decomposition_solver.go":               "C24 C26",
}

const rest = "C01 C02 C03 C04 C05 C07 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28"

func try(dir string, m mutant) string {
	dst := filepath.Join(dir, "repo", filepath.Base(m.file))
	src, _ := os.ReadFile(m.file)
	mut := string(src[:m.from]) + m.text + string(src[m.to:])
	os.WriteFile(dst, []byte(mut), 0o644)
	defer os.WriteFile(dst, src, 0o644)
	if _, err := run(dir+"/repo", 60, "go", "build", "./..."); err != nil {
		return "build"
	}
	if _, err := run(dir+"/repo", 40, "go", "test", "-count=1", "-timeout", "30s", "./..."); err != nil {
		return "tests"
	}
	if out, err := run(dir+"/mc", 120, "go", "build", "-o", dir+"/mcbin", "."); err != nil {
		return "mcbuild " + strings.ReplaceAll(out, "\n", " ")
	}
	cs := checksFor[filepath.Base(m.file)]
	if cs == "" {
		cs = rest
	}
	for _, c := range strings.Fields(cs) {
		out, err := run(dir, 400, dir+"/mcbin", "-prop", c, "-verif", dir, "-max", "1", "-workers", "3")
		if err != nil {
			if strings.Contains(out, "VIOLATION") {
				return "killed " + c
			}
			return "crashed " + c + " " + err.Error()
		}
	}
	return "SURVIVED"
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
	token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.REM: {token.QUO},
	token.ADD_ASSIGN: {token.SUB_ASSIGN}, token.SUB_ASSIGN: {token.ADD_ASSIGN}, token.MUL_ASSIGN: {token.QUO_ASSIGN}, token.QUO_ASSIGN: {token.MUL_ASSIGN},
	token.INC: {token.DEC}, token.DEC: {token.INC},
}

func mutants(f string) []mutant {
	fs := token.NewFileSet()
	src, _ := os.ReadFile(f)
	af, err := parser.ParseFile(fs, f, src, 0)
	if err != nil {
		panic(err)
	}
	var out []mutant
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(from, to token.Pos, text, what string) {
		out = append(out, mutant{f, off(from), off(to), text, what + " [" + firstLine(src, off(from)) + "]", fs.Position(from).Line})
	}
	op := func(pos token.Pos, t token.Token) {
		for _, n := range swaps[t] {
			add(pos, pos+token.Pos(len(t.String())), n.String(), t.String()+" -> "+n.String())
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			op(x.OpPos, x.Op)
		case *ast.AssignStmt:
			op(x.TokPos, x.Tok)
			if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
				add(x.Pos(), x.End(), "_ = 0", "delete assignment")
			}
		case *ast.IncDecStmt:
			op(x.TokPos, x.Tok)
		case *ast.ExprStmt:
			if strings.HasPrefix(string(src[off(x.Pos()):off(x.End())]), "panic(err)") {
				return true
			}
			add(x.Pos(), x.End(), "_ = 0", "delete call")
		case *ast.IfStmt:
			if c := string(src[off(x.Cond.Pos()):off(x.Cond.End())]); c == "err != nil" || strings.Contains(c, ".cached") {
				return true
			}
			add(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if false")
			add(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if true")
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "_ = 0", "delete break")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.Atoi(x.Value); err == nil {
					add(x.Pos(), x.End(), strconv.Itoa(v+1), fmt.Sprintf("%d -> %d", v, v+1))
				}
			case token.FLOAT:
				add(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" + 1")
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				ta, tb := string(src[off(a.Pos()):off(a.End())]), string(src[off(b.Pos()):off(b.End())])
				if ta != tb {
					add(a.Pos(), b.End(), tb+", "+ta, "swap arguments "+ta+", "+tb)
				}
			}
		}
		return true
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].from < out[j].from })
	return out
}

func firstLine(src []byte, o int) string {
	a, b := o, o
	for a > 0 && src[a-1] != '\n' {
		a--
	}
	for b < len(src) && src[b] != '\n' {
		b++
	}
	return strings.TrimSpace(string(src[a:b]))
}
