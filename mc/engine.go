// Package main is the bounded explicit-state / exhaustive-execution model
// checker for github.com/jtejido/linear.
//
// A property is a function that registers groups; a group enumerates cases
// completely (no sampling), runs every case on the real implementation, and
// compares it with a reference model or an exact oracle.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type prop struct {
	id    string
	title string
	rule  string
	f     func(r *Run)
}

var props = map[string]*prop{}

func register(id, title, rule string, f func(r *Run)) {
	props[id] = &prop{id, title, rule, f}
}

// Violation is one failing case.
type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Group    string `json:"group"`
	Case     string `json:"case"`
	Message  string `json:"message"`
}

func (v Violation) sig() string { return v.Group + " | " + v.Case }

// Finding is an entry of known_findings.json.
type Finding struct {
	Property string   `json:"property"`
	Status   string   `json:"status"` // "known" or "fixed"
	Cases    []string `json:"cases,omitempty"`
	Commit   string   `json:"commit,omitempty"`
	What     string   `json:"what"`
}

type group struct {
	id string
	f  func(t *T)
}

// Run is one execution of one property check.
type Run struct {
	prop     string
	tier     string
	thorough bool // level 1 bounds: the thorough tier, and the quick tier where they are cheap
	heavy    int  // properties with several decompositions per matrix leave out the largest domains
	deep     bool // level 2 bounds: the thorough tier only
	seed     int
	groups   []group
	deadline time.Time
	maxViol  int

	mu         sync.Mutex
	violations []Violation
	known      map[string]int
	findings   []Finding
	samples    []any
	stop       atomic.Bool
	truncated  atomic.Bool

	states, transitions, traces, evals atomic.Int64
	extraMu                            sync.Mutex
	extra                              map[string]int64
	notes                              []string
}

// Extra accumulates an additional named counter for the evidence file.
func (r *Run) Extra(name string, n int64) {
	r.extraMu.Lock()
	if r.extra == nil {
		r.extra = map[string]int64{}
	}
	r.extra[name] += n
	r.extraMu.Unlock()
}

// Group registers a group of cases.
func (r *Run) Group(id string, f func(t *T)) {
	r.groups = append(r.groups, group{id, f})
}

// T is the context of one group being executed by one worker.
type T struct {
	*Run
	group   string
	caseFn  func() string
	caseMu  sync.Mutex
	started atomic.Int64 // unix nanos of the start of the current case
	seen    map[uint64]struct{}
	h       maphash.Seed
	nTrans  int64
	nTraces int64
	nEvals  int64
	nFresh  int64
	sampled bool
	nViol   int
}

var hseed = maphash.MakeSeed()

type failPanic struct{ msg string }

// Failf reports a violation of the property in the current case and leaves it.
func (t *T) Failf(format string, args ...any) {
	panic(failPanic{fmt.Sprintf(format, args...)})
}

// Check is Failf unless ok.
func (t *T) Check(ok bool, format string, args ...any) {
	if !ok {
		t.Failf(format, args...)
	}
}

// Op counts n executed operations of the implementation (transitions).
func (t *T) Op(n int) { t.nTrans += int64(n) }

// Trace counts one completed execution compared against model or oracle.
func (t *T) Trace() { t.nTraces++ }

// State records a distinct state (model state or input configuration).
func (t *T) State(key string) bool {
	k := maphash.String(hseed, key)
	if _, ok := t.seen[k]; ok {
		return false
	}
	t.seen[k] = struct{}{}
	return true
}

// Fresh records a state that is distinct from all others by construction.
func (t *T) Fresh() { t.nFresh++ }

// StateF records a distinct state given by numbers.
func (t *T) StateF(vals []float64) bool {
	var h maphash.Hash
	h.SetSeed(hseed)
	for _, v := range vals {
		maphash.WriteComparable(&h, v)
	}
	k := h.Sum64()
	if _, ok := t.seen[k]; ok {
		return false
	}
	t.seen[k] = struct{}{}
	return true
}

// Stopped tells enumeration loops to end early (deadline or enough violations).
func (t *T) Stopped() bool { return t.stop.Load() || t.nViol >= 5 }

// Do runs one case. id is formatted lazily.
func (t *T) Do(id func() string, f func()) {
	if t.Stopped() {
		return
	}
	t.caseMu.Lock()
	t.caseFn = id
	t.caseMu.Unlock()
	t.started.Store(time.Now().UnixNano())
	t.nEvals++
	if t.nEvals&0x3ff == 0 && time.Now().After(t.deadline) {
		t.truncated.Store(true)
		t.stop.Store(true)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				var msg string
				if fp, ok := e.(failPanic); ok {
					msg = fp.msg
				} else {
					msg = fmt.Sprintf("unexpected panic: %v\n%s", e, trimStack(debug.Stack()))
				}
				t.report(id(), msg)
			}
		}()
		f()
		t.nTraces++
	}()
	t.started.Store(0)
	if !t.sampled {
		t.sampled = true
		t.mu.Lock()
		if len(t.samples) < 6 {
			t.samples = append(t.samples, map[string]string{"group": t.group, "case": id()})
		}
		t.mu.Unlock()
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		_ = i
		if len(out) > 5 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (r *Run) isKnown(v Violation) bool {
	for i, f := range r.findings {
		if f.Property != v.Property || f.Status != "known" {
			continue
		}
		for _, c := range f.Cases {
			if c == v.sig() {
				r.known[fmt.Sprint(i)]++
				return true
			}
		}
	}
	return false
}

func (t *T) report(id, msg string) { t.reportIn(t.group, id, msg) }

func (t *T) reportIn(group, id, msg string) {
	v := Violation{t.prop, t.tier, group, id, msg}
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.isKnown(v) {
		return
	}
	t.nViol++
	t.violations = append(t.violations, v)
	if len(t.violations) >= t.maxViol {
		t.stop.Store(true)
	}
}

func (r *Run) execute(workers int, onlyGroup string) {
	var list []group
	for _, g := range r.groups {
		if onlyGroup == "" || g.id == onlyGroup {
			list = append(list, g)
		}
	}
	ch := make(chan group)
	var wg sync.WaitGroup
	active := make([]atomic.Pointer[T], workers)
	done := make(chan struct{})
	go func() { // watchdog: a case that does not terminate is a violation
		limit := caseLimit
		if r.prop == "C29" {
			limit = 45 * time.Second // its cases take milliseconds at most
		}
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			now := time.Now().UnixNano()
			for i := range active {
				t := active[i].Load()
				if t == nil {
					continue
				}
				st := t.started.Load()
				if st != 0 && time.Duration(now-st) > limit {
					t.caseMu.Lock()
					id := t.caseFn()
					t.caseMu.Unlock()
					v := Violation{r.prop, r.tier, t.group, id, fmt.Sprintf("operation did not terminate within %v", limit)}
					r.mu.Lock()
					if !r.isKnown(v) {
						r.violations = append(r.violations, v)
					}
					r.mu.Unlock()
					r.finish(true)
				}
			}
		}
	}()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for g := range ch {
				if r.stop.Load() {
					continue
				}
				if time.Now().After(r.deadline) {
					r.truncated.Store(true)
					r.stop.Store(true)
					continue
				}
				t := &T{Run: r, group: g.id, seen: map[uint64]struct{}{}}
				active[w].Store(t)
				func() {
					defer func() { // a failure while a group prepares or between its cases
						if e := recover(); e != nil {
							msg := fmt.Sprint(e)
							if fp, ok := e.(failPanic); ok {
								msg = fp.msg
							}
							t.started.Store(0)
							t.report("outside the cases of the group", fmt.Sprintf("%s\n%s", msg, trimStack(debug.Stack())))
						}
					}()
					g.f(t)
				}()
				active[w].Store(nil)
				r.states.Add(int64(len(t.seen)) + t.nFresh)
				r.transitions.Add(t.nTrans)
				r.traces.Add(t.nTraces)
				r.evals.Add(t.nEvals)
			}
		}(w)
	}
	for _, g := range list {
		ch <- g
	}
	close(ch)
	wg.Wait()
	close(done)
}

var (
	start      = time.Now()
	verifDir   string
	caseLimit  = 120 * time.Second
	replayMode bool
)

func (r *Run) finish(abort bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if jsonOut != "" {
		r.writePartial(jsonOut)
		os.Exit(0)
	}
	var keys []string
	for k := range r.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var i int
		fmt.Sscan(k, &i)
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, r.findings[i].What)
	}
	rc := 0
	if len(r.violations) > 0 {
		rc = 1
		sort.SliceStable(r.violations, func(i, j int) bool {
			a, b := r.violations[i], r.violations[j]
			if a.Group != b.Group {
				return a.Group < b.Group
			}
			return len(a.Case) < len(b.Case)
		})
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, r.prop+".json")
		b, _ := json.MarshalIndent(r.violations[0], "", " ")
		os.WriteFile(path, b, 0o644)
		for i, v := range r.violations {
			if i >= 10 {
				fmt.Printf("... %d more\n", len(r.violations)-i)
				break
			}
			fmt.Printf("violation: [%s] %s\n    %s\n", v.Group, v.Case, strings.ReplaceAll(v.Message, "\n", "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
	}
	if !replayMode {
		r.writeEvidence(abort)
	}
	fmt.Printf("%s %s: groups=%d states=%d transitions=%d traces=%d violations=%d complete=%v wall=%.1fs\n", r.prop, r.tier, len(r.groups), r.states.Load(), r.transitions.Load(), r.traces.Load(), len(r.violations), !r.truncated.Load(), time.Since(start).Seconds())
	os.Exit(rc)
}

func (r *Run) writeEvidence(abort bool) {
	cov := map[string]any{
		"states":                        r.states.Load(),
		"transitions":                   r.transitions.Load(),
		"traces_validated_against_impl": r.traces.Load(),
		"evaluations":                   r.evals.Load(),
		"distinct_nontrivial":           r.states.Load(),
		"rule":                          props[r.prop].rule,
		"samples":                       r.samples,
		"groups":                        len(r.groups),
		"exhaustive":                    !r.truncated.Load() && !abort && len(r.violations) == 0,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(r.violations),
		"assumptions": append([]string{"the reference models and exact oracles in /verif/mc are right", "amd64 IEEE-754 arithmetic; bounds as stated in DESIGN.md"}, r.notes...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", r.prop+".json"), append(b, '\n'), 0o644)
}

func main() {
	p := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("group", "", "only this group")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	maxv := flag.Int("max", 20, "stop after this many violations")
	soft := flag.Int("soft", 0, "soft deadline in seconds")
	list := flag.Bool("list", false, "list properties")
	dir := flag.String("verif", "/verif", "verif dir")
	flag.StringVar(&jsonOut, "json", "", "write a partial report here (child process)")
	flag.StringVar(&shard, "shard", "0/1", "run only this part of the groups")
	flag.Parse()
	verifDir = *dir
	if *list {
		for id := range props {
			fmt.Println(id)
		}
		return
	}
	var rep Violation
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &rep)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*p, *tier, *only = rep.Property, rep.Tier, rep.Group
		replayMode = true
	}
	pr := props[*p]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *p)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	deep := *tier == "thorough"
	r := &Run{prop: *p, tier: *tier, thorough: deep || quickWide[*p], deep: deep, maxViol: *maxv, known: map[string]int{}}
	if *p == "C19" || *p == "C20" || *p == "C23" {
		r.heavy = 1
	}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &r.seed)
	s := *soft
	if s == 0 {
		s = 400
		if r.deep {
			s = 780
		}
	}
	r.deadline = time.Now().Add(time.Duration(s) * time.Second)
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &r.findings); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	pr.f(r)
	var si, sn int
	fmt.Sscanf(shard, "%d/%d", &si, &sn)
	if sn > 1 {
		var g []group
		for i := range r.groups {
			if i%sn == si {
				g = append(g, r.groups[i])
			}
		}
		r.groups = g
	}
	r.execute(*workers, *only)
	r.finish(false)
}

// quickWide lists the properties whose quick tier affords the level 1 bounds.
var quickWide = map[string]bool{"C02": true, "C07": true, "C09": true, "C10": true, "C11": true, "C12": true, "C13": true, "C15": true, "C16": true,
	"C17": true, "C18": true, "C19": true, "C20": true, "C21": true, "C22": true, "C23": true, "C24": true, "C26": true}

func sortStrings(s []string) { sort.Strings(s) }
