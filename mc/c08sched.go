//go:build sched

package main

import (
	"fmt"
	"iter"
	"strings"
	"time"

	"github.com/jtejido/linear"
)

func init() {
	register("C08S", "interleavings", "", checkC08Sched)
}

// solo runs an operation alone and counts its steps.
func solo(op *ConcOp) (res concRes, steps int) {
	linear.VerifHook = func() { steps++ }
	res = runConc(op)
	linear.VerifHook = nil
	return
}

// one preempts a before its step k, runs b to the end, then finishes a.
func one(a, b *ConcOp, k int) (ra, rb concRes, hit bool) {
	n := 0
	var done chan struct{} // used when the package synchronises, so that b may block
	linear.VerifHook = func() {
		if n++; n == k {
			linear.VerifHook = nil
			hit = true
			if linear.VerifBlocking {
				done = make(chan struct{})
				go func() { defer close(done); rb = runConc(b) }()
				select {
				case <-done:
				case <-time.After(50 * time.Millisecond): // b waits for a
				}
				return
			}
			rb = runConc(b)
		}
	}
	ra = runConc(a)
	linear.VerifHook = nil
	if done != nil {
		<-done
	}
	return
}

// two preempts a before its step k, then b before its step j, finishes a, then b.
func two(a, b *ConcOp, k, j int) (ra, rb concRes, hit bool) {
	n := 0
	var next func() (struct{}, bool)
	var stop func()
	linear.VerifHook = func() {
		if n++; n != k {
			return
		}
		next, stop = iter.Pull(func(yield func(struct{}) bool) {
			m := 0
			linear.VerifHook = func() {
				if m++; m == j {
					linear.VerifHook = nil
					hit = true
					yield(struct{}{})
				}
			}
			rb = runConc(b)
		})
		next()
		linear.VerifHook = nil
	}
	ra = runConc(a)
	linear.VerifHook = nil
	if next != nil {
		next()
		stop()
	}
	return
}

func (t *T) concSame(what string, ref, got concRes) {
	if s := ref.diff(got); s != "" {
		t.Failf("%s: %s", what, s)
	}
}

func checkC08Sched(r *Run) {
	for _, sp := range concSpecs(r.thorough) {
		parts := 1
		if !strings.HasPrefix(sp.name, "read") {
			parts = 4
			if r.thorough {
				parts = 16
			}
		}
		for part := 0; part < parts; part++ {
			r.Group(fmt.Sprintf("%s/%d", sp.name, part), func(t *T) { exploreWorld(t, sp, part, parts) })
		}
	}
}

func exploreWorld(t *T, sp concSpec, part, parts int) {
	w := sp.build()
	ref := make([]concRes, len(w.ops))
	steps := make([]int, len(w.ops))
	for i := range w.ops {
		ref[i], _ = solo(&w.ops[i])
		_, steps[i] = solo(&w.ops[i])
	}
	before := flatAll(w.objects())
	// pairs of different operations are interleaved up to limit1 steps, equal
	// ones always; two preemptions up to the products limit2 and same2
	limit1, limit2, same2 := 200, 200, 9000
	top := 2500
	if sp.large {
		limit1, same2, top = 120, 3000, 1500
	}
	if t.thorough {
		limit1, limit2, same2, top = 600, 400, 20000, 6000
		if sp.large {
			limit1, same2, top = 200, 4000, 2500
		}
	}
	for i := range w.ops {
		if i%parts != part {
			continue
		}
		for j := range w.ops {
			a, b := &w.ops[i], &w.ops[j]
			if i != j && steps[i] > limit1 || max(steps[i], steps[j]) > top {
				t.Extra("pairs_beyond_step_limit", 1)
				continue
			}
			for k := 1; k <= steps[i]; k++ {
				t.Do(func() string { return fmt.Sprintf("%s | %s, preempted before step %d", a.name, b.name, k) }, func() {
					ra, rb, hit := one(a, b, k)
					if !hit { // a took fewer steps this time: a sequential execution
						rb = ref[j]
					}
					t.Op(steps[i] + steps[j])
					t.State(fmt.Sprint(i, "/", j, "/", k))
					t.concSame("preempted "+a.name, ref[i], ra)
					t.concSame("preempting "+b.name, ref[j], rb)
				})
				if t.Stopped() {
					return
				}
			}
			t.Extra("schedules_with_1_preemption", int64(steps[i]))
			// the same on fresh objects, on which nothing has been computed before
			if i == j && !sp.read {
				for k := 1; ; k++ {
					more := true
					t.Do(func() string { return fmt.Sprintf("first use: %s | %s, preempted before step %d", a.name, b.name, k) }, func() {
						fresh := sp.build()
						ra, rb, hit := one(&fresh.ops[i], &fresh.ops[j], k)
						if more = hit; !hit {
							return
						}
						t.Op(steps[i] + steps[j])
						t.State(fmt.Sprint("fresh/", i, "/", k))
						t.concSame("preempted "+a.name, ref[i], ra)
						t.concSame("preempting "+b.name, ref[j], rb)
					})
					if !more || t.Stopped() {
						break
					}
					t.Extra("schedules_on_fresh_objects", 1)
				}
			}
			prod := steps[i] * steps[j]
			if !linear.VerifBlocking && (prod <= limit2 || i == j && prod <= same2) {
				for k := 1; k <= steps[i]; k++ {
					for l := 2; l <= steps[j]; l++ {
						t.Do(func() string {
							return fmt.Sprintf("%s | %s, preempted before step %d, back before step %d", a.name, b.name, k, l)
						}, func() {
							ra, rb, hit := two(a, b, k, l)
							if !hit {
								return
							}
							t.Op(steps[i] + steps[j])
							t.State(fmt.Sprint(i, "/", j, "/", k, "/", l))
							t.concSame("preempted "+a.name, ref[i], ra)
							t.concSame("preempting "+b.name, ref[j], rb)
						})
						if t.Stopped() {
							return
						}
					}
				}
				t.Extra("schedules_with_2_preemptions", int64(max(prod-steps[i], 0)))
			}
			t.Do(func() string { return "operands after " + a.name + " | " + b.name }, func() {
				d := diffFlat(before, flatAll(w.objects()))
				t.Check(d < 0, "operand %d changed", d)
			})
			t.Extra("operation_pairs", 1)
		}
	}
}
