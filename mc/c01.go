package main

import (
	"fmt"
	"math"
	"strings"
)

func init() {
	register("C01", "mutation histories",
		"explicit-state breadth-first search over all table contents reachable by the full mutator alphabet on small shapes (each state reached by replaying its history on a fresh object, each transition executed on it and every reading interface compared); plus all depth-1 and depth-2 mutator histories on labelled tables of shapes around storage-block boundaries. A state is distinct by its contents, shape and representation.",
		checkC01)
	register("C13", "diagonal invariant",
		"explicit-state search over all histories of accepted and rejected updates of diagonal matrices; exhaustive thresholds and entries for inverse and singularity",
		checkC13)
}

// smallMuts is the full mutator alphabet of a small shape with values in {-1,0,1}.
func smallMuts(r, c int) []Mut {
	var out []Mut
	al := []float64{-1, 0, 1}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			out = append(out, entryMuts(i, j, al, []float64{-1, 1}, []float64{-1, 0})...)
		}
	}
	pats := []struct {
		n string
		v vals
	}{{"1-1", cycleVals(1, -1)}, {"01", cycleVals(0, 1)}}
	for _, p := range pats {
		for i := 0; i < r; i++ {
			out = append(out, rowMuts(i, c, p.n, p.v)...)
		}
		for j := 0; j < c; j++ {
			out = append(out, colMuts(j, r, p.n, p.v)...)
		}
		for _, q := range allRects(r, c) {
			out = append(out, subMut(q, p.n, p.v))
		}
	}
	neg := func(i, j int, v float64) float64 { return -v }
	pos := func(i, j int, v float64) float64 { return float64((i+2*j)%3 - 1) }
	out = append(out, walkMuts(nil, "neg", neg)...)
	out = append(out, walkMuts(nil, "pos", pos)...)
	for _, q := range allRects(r, c) {
		out = append(out, walkMuts(&q, "neg", neg)...)
		out = append(out, walkMuts(&q, "pos", pos)...)
	}
	return out
}

func canon(m *Mat) { // -0 and 0 are one model state; the implementation is compared after canonicalisation too
	for i := range m.a {
		if m.a[i] == 0 {
			m.a[i] = 0
		}
	}
}

func inAlpha(m *Mat) bool {
	for _, v := range m.a {
		if v < -1 || v > 1 {
			return false
		}
	}
	return true
}

// bfs explores all contents reachable with muts within the alphabet {-1,0,1}.
func bfs(t *T, kind Kind, init *Mat, muts []Mut, part, parts int, level int) {
	type node struct {
		parent int
		op     int
		m      *Mat
	}
	key := func(m *Mat) string {
		var sb strings.Builder
		for _, v := range m.a {
			sb.WriteByte(byte('1' + int(v)))
		}
		return sb.String()
	}
	nodes := []node{{-1, -1, init}}
	seen := map[string]bool{key(init): true}
	pathOf := func(n int) []int {
		var p []int
		for n > 0 {
			p = append([]int{nodes[n].op}, p...)
			n = nodes[n].parent
		}
		return p
	}
	for n := 0; n < len(nodes) && !t.Stopped(); n++ {
		cur := nodes[n].m
		path := pathOf(n)
		t.State(kind.String() + key(cur))
		for oi := range muts {
			nx := cur.clone()
			muts[oi].model(nx)
			if !inAlpha(nx) {
				continue
			}
			k := key(nx)
			if !seen[k] {
				seen[k] = true
				nodes = append(nodes, node{n, oi, nx})
			}
			if (n*31+oi)%parts != part {
				continue // another group executes this transition
			}
			t.Do(func() string {
				var s []string
				for _, p := range path {
					s = append(s, muts[p].name)
				}
				s = append(s, muts[oi].name)
				return fmt.Sprintf("%v %v: %s", kind, init, strings.Join(s, "; "))
			}, func() {
				x := mk(kind, init)
				for _, p := range path {
					muts[p].impl(x)
				}
				muts[oi].impl(x)
				t.Op(len(path) + 1)
				// exact replay of the model (keeps signs of zero)
				m := init.clone()
				for _, p := range path {
					muts[p].model(m)
				}
				muts[oi].model(m)
				t.readAll(x, m, level)
			})
		}
	}
}

var boundDims = []int{1, 2, 3, 51, 52, 53, 103, 104, 105}

func checkC01(r *Run) {
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 5}, {4, 1}}
	if r.thorough {
		shapes = append(shapes, [2]int{2, 4}, [2]int{4, 2}, [2]int{1, 8}, [2]int{7, 1})
	}
	for _, k := range denseKinds {
		for _, s := range shapes {
			parts := 1
			if s[0]*s[1] >= 4 {
				parts = 8
			}
			for p := 0; p < parts; p++ {
				r.Group(fmt.Sprintf("bfs/%v/%dx%d/%d", k, s[0], s[1], p), func(t *T) {
					bfs(t, k, newMat(s[0], s[1]), smallMuts(s[0], s[1]), p, parts, 2)
				})
			}
		}
	}
	// all depth-2 histories over the full alphabet on somewhat bigger small shapes, labelled contents
	d2 := [][2]int{{2, 3}, {3, 2}, {3, 3}, {3, 4}}
	if r.thorough {
		d2 = append(d2, [2]int{4, 3}, [2]int{4, 4}, [2]int{5, 4}, [2]int{5, 5})
	}
	for _, k := range denseKinds {
		for _, s := range d2 {
			ms := labelMuts(s[0], s[1], false)
			const parts = 12
			for p := 0; p < parts; p++ {
				r.Group(fmt.Sprintf("depth2/%v/%dx%d/%d", k, s[0], s[1], p), func(t *T) {
					for a := p; a < len(ms); a += parts {
						for b := range ms {
							t.Do(func() string {
								return fmt.Sprintf("%v %dx%d: %s; %s", k, s[0], s[1], ms[a].name, ms[b].name)
							}, func() {
								m := label(s[0], s[1], 100)
								x := mk(k, m)
								ms[a].impl(x)
								ms[a].model(m)
								ms[b].impl(x)
								ms[b].model(m)
								t.Op(2)
								t.StateF(m.a)
								t.readAll(x, m, 1)
							})
						}
						if t.Stopped() {
							return
						}
					}
				})
			}
		}
	}
	// block-boundary shapes: every mutator at every position near a boundary, and chained histories
	dims := boundDims
	if r.thorough {
		dims = []int{1, 2, 3, 4, 5, 7, 25, 26, 27, 49, 50, 51, 52, 53, 54, 55, 77, 78, 79, 102, 103, 104, 105, 106, 130, 155, 156, 157, 158}
	}
	var bshapes [][3]int
	for _, nr := range dims {
		for _, nc := range dims {
			bshapes = append(bshapes, [3]int{nr, nc, 0})
		}
	}
	for _, s := range sweepShapes(r.thorough) {
		if s[0] != s[1] || s[0] <= 72 {
			bshapes = append(bshapes, [3]int{s[0], s[1], 1})
		}
	}
	for _, k := range []Kind{KBlock, KArray, KShared} {
		for _, s := range bshapes {
			nr, nc, swept := s[0], s[1], s[2] == 1
			if nr <= 3 && nc <= 3 || (swept && k == KShared) {
				continue
			}
			r.Group(fmt.Sprintf("blocks/%v/%dx%d", k, nr, nc), func(t *T) {
				ms := labelMuts(nr, nc, true)
				for i := range ms {
					if swept && nr*nc > 600 && i%5 != nr%5 && !t.thorough {
						continue
					}
					mu := ms[i]
					t.Do(func() string { return fmt.Sprintf("%v %dx%d: %s", k, nr, nc, mu.name) }, func() {
						m := label(nr, nc, 1)
						x := mk(k, m)
						mu.impl(x)
						mu.model(m)
						t.Op(1)
						t.State(mu.name)
						t.readAll(x, m, 0)
					})
				}
				// one long history of all mutators, in three orders; full reading at the end of each prefix chunk
				for _, stride := range []int{1, 7, 13} {
					t.Do(func() string { return fmt.Sprintf("%v %dx%d: history of all mutators, stride %d", k, nr, nc, stride) }, func() {
						m := label(nr, nc, 1)
						x := mk(k, m)
						for n := 0; n < len(ms); n++ {
							mu := ms[(n*stride)%len(ms)]
							mu.impl(x)
							mu.model(m)
							t.Op(1)
							if n%16 == 15 {
								t.expectMat("after "+mu.name, x, m)
							}
						}
						t.readAll(x, m, 2)
					})
				}
			})
		}
	}
	// special values survive storage bit for bit through every mutator
	for _, k := range denseKinds {
		for _, s := range [][2]int{{1, 1}, {2, 3}, {3, 2}, {53, 2}, {2, 53}} {
			r.Group(fmt.Sprintf("special/%v/%dx%d", k, s[0], s[1]), func(t *T) {
				for off := range specials {
					ms := specialMuts(s[0], s[1], off)
					for _, mu := range ms {
						t.Do(func() string { return fmt.Sprintf("%v %dx%d specials+%d: %s", k, s[0], s[1], off, mu.name) }, func() {
							m := special(s[0], s[1], off)
							x := mk(k, m)
							t.readAll(x, m, 0)
							mu.impl(x)
							mu.model(m)
							t.Op(1)
							t.State(fmt.Sprint(off, mu.name))
							t.readAll(x, m, 2)
						})
					}
				}
			})
		}
	}
}

// labelMuts is the mutator alphabet with distinguishable values.
func labelMuts(r, c int, edgeOnly bool) []Mut {
	var out []Mut
	ri, ci := edges(r), edges(c)
	rects := edgeRects(r, c)
	if !edgeOnly {
		ri, ci = nil, nil
		for i := 0; i < r; i++ {
			ri = append(ri, i)
		}
		for j := 0; j < c; j++ {
			ci = append(ci, j)
		}
		rects = allRects(r, c)
	}
	for _, i := range ri {
		for _, j := range ci {
			out = append(out, entryMuts(i, j, []float64{-7}, []float64{1000}, []float64{3})...)
		}
	}
	for _, i := range ri {
		out = append(out, rowMuts(i, c, "L", labelVals(-90000))...)
	}
	for _, j := range ci {
		out = append(out, colMuts(j, r, "L", labelVals(-80000))...)
	}
	w := func(i, j int, v float64) float64 { return v*2 + float64(i*1000+j) }
	for n, q := range rects {
		out = append(out, subMut(q, "L", labelVals(-70000)))
		if edgeOnly && n%3 != 0 && r*c > 3000 {
			continue
		}
		out = append(out, walkMuts(&q, "2v+p", w)...)
	}
	out = append(out, walkMuts(nil, "2v+p", w)...)
	return out
}

func specialMuts(r, c, off int) []Mut {
	var out []Mut
	sv := func(n int) []float64 { return special(1, n, off+3).a }
	for _, i := range edges(r) {
		for _, j := range edges(c) {
			out = append(out, entryMuts(i, j, specials, []float64{0, math.Copysign(0, -1), math.Inf(1)}, []float64{0, -1, math.NaN()})...)
		}
	}
	for _, i := range edges(r) {
		out = append(out, rowMuts(i, c, "S", sv)...)
	}
	for _, j := range edges(c) {
		out = append(out, colMuts(j, r, "S", sv)...)
	}
	for _, q := range edgeRects(r, c) {
		out = append(out, subMut(q, "S", sv))
		out = append(out, walkMuts(&q, "S", func(i, j int, v float64) float64 { return specials[(i+3*j+off)%len(specials)] })...)
	}
	return out
}
