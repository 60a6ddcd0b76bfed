//go:build racepass

package main

import (
	"fmt"
	"sync"
)

func init() {
	register("C08R", "races", "", checkC08Race)
}

// checkC08Race runs every unordered pair concurrently under the race detector.
func checkC08Race(r *Run) {
	for _, sp := range concSpecs(r.thorough) {
		r.Group(sp.name, func(t *T) {
			w := sp.build()
			ref := make([]concRes, len(w.ops))
			for i := range w.ops {
				ref[i] = runConc(&w.ops[i])
			}
			for i := range w.ops {
				for j := i; j < len(w.ops); j++ {
					a, b := &w.ops[i], &w.ops[j]
					if sp.large && !t.thorough && i != j && a.heavy && b.heavy {
						continue
					}
					// fresh objects: nothing has been computed on them before
					fresh := sp.build()
					a, b = &fresh.ops[i], &fresh.ops[j]
					t.State(fmt.Sprint(i, "/", j))
					t.Do(func() string { return a.name + " | " + b.name }, func() {
						var ra, rb concRes
						var wg sync.WaitGroup
						wg.Add(2)
						go func() { defer wg.Done(); ra = runConc(a) }()
						go func() { defer wg.Done(); rb = runConc(b) }()
						wg.Wait()
						t.Op(2)
						if s := ref[i].diff(ra); s != "" {
							t.Failf("%s: %s", a.name, s)
						}
						if s := ref[j].diff(rb); s != "" {
							t.Failf("%s: %s", b.name, s)
						}
						t.Extra("race_checked_pairs", 1)
					})
					if t.Stopped() {
						return
					}
				}
			}
		})
	}
}
