package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

func init() {
	register("C08", "concurrent reads",
		"every schedule with one preemption (before every executed statement) of every ordered pair of non-mutating operations on shared objects, every schedule with two preemptions of the pairs within the stated step limit, and every pair under the race detector; a case is distinct by world, pair and preemption points",
		checkC08)
}

// partial is what a child process reports to the process that started it.
type partial struct {
	States, Transitions, Traces, Evals int64
	Truncated                          bool
	Violations                         []Violation
	Extra                              map[string]int64
	Samples                            []any
}

var jsonOut, shard string

func (r *Run) writePartial(path string) {
	b, _ := json.Marshal(partial{r.states.Load(), r.transitions.Load(), r.traces.Load(), r.evals.Load(), r.truncated.Load(), r.violations, r.extra, r.samples})
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func checkError(what string, out []byte, err error) {
	fmt.Fprintf(os.Stderr, "check error: %s: %v\n%s\n", what, err, out)
	os.Exit(2)
}

func checkC08(r *Run) {
	work := os.Getenv("VERIF_WORK")
	if work == "" {
		var err error
		if work, err = os.MkdirTemp("", "c08"); err != nil {
			checkError("scratch directory", nil, err)
		}
	}
	src := filepath.Join(verifDir, "mc")
	if s := os.Getenv("VERIF_SRC"); s != "" {
		src = s
	}
	gocmd := func(args ...string) ([]byte, error) {
		c := exec.Command("go", args...)
		c.Dir = src
		return c.CombinedOutput()
	}
	out, err := gocmd("list", "-m", "-f", "{{.Dir}}", "github.com/jtejido/linear")
	if err != nil {
		checkError("locating the package", out, err)
	}
	pkg := strings.TrimSpace(string(out))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		ov := filepath.Join(work, "instrumented")
		if out, err := gocmd("run", "./instr", pkg, ov); err != nil {
			checkError("instrumenting", out, err)
		}
		if out, err := gocmd("build", "-tags", "sched", "-overlay", filepath.Join(ov, "overlay.json"), "-o", filepath.Join(work, "mc.sched"), "."); err != nil {
			checkError("building the instrumented checker", out, err)
		}
	}()
	go func() {
		defer wg.Done()
		if out, err := gocmd("build", "-race", "-tags", "racepass", "-o", filepath.Join(work, "mc.race"), "."); err != nil {
			checkError("building with the race detector", out, err)
		}
	}()
	wg.Wait()
	left := int(r.deadline.Sub(start).Seconds())
	child := func(t *T, bin, prop, shard string) {
		js := filepath.Join(work, prop+"."+strings.ReplaceAll(shard, "/", "-")+".json")
		c := exec.Command(filepath.Join(work, bin), "-prop", prop, "-tier", r.tier, "-verif", verifDir, "-json", js, "-shard", shard, "-soft", fmt.Sprint(left))
		if prop == "C08S" {
			c.Args = append(c.Args, "-workers", "1")
		}
		c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=8")
		var buf bytes.Buffer
		c.Stdout, c.Stderr = &buf, &buf
		err := c.Run()
		if c.ProcessState != nil && c.ProcessState.ExitCode() == 66 {
			t.Do(func() string { return "race detector" }, func() { t.Failf("data race between non-mutating operations:\n%s", trim(buf.String(), 6000)) })
			return
		}
		if err != nil && strings.Contains(buf.String(), "concurrent map") {
			t.Do(func() string { return "concurrent map access" }, func() { t.Failf("%s", trim(buf.String(), 6000)) })
			return
		}
		b, rerr := os.ReadFile(js)
		if rerr != nil {
			checkError(prop+" "+shard, buf.Bytes(), err)
		}
		var p partial
		if err := json.Unmarshal(b, &p); err != nil {
			checkError(prop+" "+shard, b, err)
		}
		r.states.Add(p.States)
		r.transitions.Add(p.Transitions)
		r.traces.Add(p.Traces)
		r.evals.Add(p.Evals)
		if p.Truncated {
			r.truncated.Store(true)
		}
		for k, v := range p.Extra {
			r.Extra(k, v)
		}
		for _, v := range p.Violations {
			t.reportIn(v.Group, v.Case, v.Message)
		}
		t.mu.Lock()
		if len(t.samples) < 6 && len(p.Samples) > 0 {
			t.samples = append(t.samples, p.Samples[0])
		}
		t.mu.Unlock()
	}
	r.Group("races", func(t *T) { child(t, "mc.race", "C08R", "0/1") })
	const n = 8
	for i := 0; i < n; i++ {
		r.Group(fmt.Sprintf("interleavings/%d", i), func(t *T) { child(t, "mc.sched", "C08S", fmt.Sprintf("%d/%d", i, n)) })
	}
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
