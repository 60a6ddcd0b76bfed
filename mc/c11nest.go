package main

import (
	"fmt"

	"github.com/jtejido/linear"
)

// Re-entrant use of one vector: walks started inside a visit, iterators
// advanced inside a visit, and every interleaving of two iterators with
// updates.

func vecNested(r *Run) {
	lens := []int{1, 2, 3, 5}
	if r.thorough {
		lens = append(lens, 8, 53)
	}
	for _, k := range allVKinds {
		for _, n := range lens {
			r.Group(fmt.Sprintf("nested/%v/%d", k, n), func(t *T) {
				for wo := range vwalks {
					for wi := range vwalks {
						for mode := 0; mode < 8; mode++ {
							for at := 0; at < n; at++ {
								vecNestedCase(t, k, n, &vwalks[wo], &vwalks[wi], mode, at)
							}
						}
					}
				}
			})
		}
		maxLen := 7
		if r.deep {
			maxLen = 9
		}
		for n := 0; n <= 4; n++ {
			r.Group(fmt.Sprintf("iterator words/%v/%d", k, n), func(t *T) { vecWords(t, k, n, maxLen) })
		}
	}
}

// mode: bit 0 outer walk updates, bit 1 inner walk updates, bit 2 another vector.
func vecNestedCase(t *T, k VKind, n int, wo, wi *vwalk, mode, at int) {
	t.State(fmt.Sprint("nested", k, n, wo.name, wi.name, mode, at))
	t.Do(func() string {
		return fmt.Sprintf("%v n=%d: walk %s (update %v), at visit %d walk %s (update %v, of another vector %v)", k, n, wo.name, mode&1 != 0, at, wi.name, mode&2 != 0, mode&4 != 0)
	}, func() {
		cx, cy := labelVec(n, 10), labelVec(n, 10)
		x, y := mkv(k, cx), mkv(k, cy)
		walk := func(w *vwalk, v linear.RealVector, cur []float64, upd bool, a, b int, base, end float64, inside func(step int)) {
			if !w.bounded {
				a, b = 0, n-1
			}
			step, ends := 0, 0
			vis := make([]int, n)
			var res float64
			visit := func(i int, e float64) float64 {
				t.Check(i >= a && i <= b && ends == 0, "%s visits %d", w.name, i)
				t.Check(!w.ordered || i == a+step, "%s visits %d at step %d", w.name, i, step)
				t.Check(same(e, cur[i]), "%s gives %v at %d, has %v", w.name, e, i, cur[i])
				vis[i]++
				if inside != nil {
					inside(step)
				}
				step++
				if upd {
					cur[i] = base - float64(i)
				}
				return base - float64(i)
			}
			if upd {
				res = w.upd(v, &chVec{f: visit, end: end, ended: &ends}, a, b)
			} else {
				res = w.prs(v, &prVec{f: func(i int, e float64) { visit(i, e) }, end: end, ended: &ends}, a, b)
			}
			t.Op(1)
			for i := range vis {
				want := 0
				if i >= a && i <= b {
					want = 1
				}
				t.Check(vis[i] == want, "%s visited %d %d times", w.name, i, vis[i])
			}
			t.Check(ends == 1 && same(res, end), "%s ended %d times with %v, want %v", w.name, ends, res, end)
		}
		ito, iti := x.Iterator(), x.Iterator()
		walk(wo, x, cx, mode&1 != 0, 0, n-1, -1000, 1.5, func(step int) {
			e := ito.Next() // advanced once per outer visit
			t.Check(e.Index() == step && same(e.Value(), cx[step]), "iterator inside a walk gives (%d,%v) at step %d", e.Index(), e.Value(), step)
			if step != at {
				return
			}
			v, c := x, cx
			if mode&4 != 0 {
				v, c = y, cy
			}
			walk(wi, v, c, mode&2 != 0, n/2, n-1, -7000, -2.5, func(s int) {
				if s == 0 {
					e := iti.Next()
					t.Check(e.Index() == 0 && same(e.Value(), cx[0]), "iterator inside a nested walk gives (%d,%v)", e.Index(), e.Value())
				}
			})
		})
		t.Check(!ito.HasNext(), "iterator is not at the end")
		t.expectVec("after the walks", x, cx)
		t.expectVec("second vector after the walks", y, cy)
	})
}

// vecWords: every sequence of steps of two iterators, queries and updates.
func vecWords(t *T, k VKind, n, maxLen int) {
	word := make([]int, 0, maxLen)
	const letters = 5
	var rec func(pos [2]int)
	rec = func(pos [2]int) {
		if len(word) == maxLen {
			t.Fresh()
			w := append([]int{}, word...)
			t.Do(func() string { return fmt.Sprintf("%v n=%d word %v", k, n, w) }, func() {
				m := labelVec(n, 5)
				x := mkv(k, m)
				it := [2]linear.EntryIterator{x.Iterator(), x.Iterator()}
				p := [2]int{}
				for s, a := range w {
					switch a {
					case 0, 1:
						t.Check(it[a].HasNext(), "step %d: iterator %d at %d has no next", s, a, p[a])
						e := it[a].Next()
						t.Check(e.Index() == p[a] && same(e.Value(), m[p[a]]), "step %d: iterator %d gives (%d,%v), want (%d,%v)", s, a, e.Index(), e.Value(), p[a], m[p[a]])
						p[a]++
					case 2:
						m[0] = float64(-100 - s)
						x.SetEntry(0, m[0])
					case 3:
						m[n-1] = float64(-200 - s)
						x.SetEntry(n-1, m[n-1])
					case 4:
						for i := range m {
							m[i] = float64(300*s + i)
						}
						v := append([]float64{}, m...)
						x.SetSubVector(0, mkv(VArray, v))
					}
					t.Op(1)
				}
				for a := range it {
					t.Check(it[a].HasNext() == (p[a] < n), "HasNext of iterator %d at %d of %d is %v", a, p[a], n, it[a].HasNext())
				}
				t.expectVec("afterwards", x, m)
			})
			return
		}
		any := false
		for a := 0; a < letters; a++ {
			if a < 2 && pos[a] >= n || a >= 2 && n == 0 || a == 3 && n == 1 {
				continue
			}
			np := pos
			if a < 2 {
				np[a]++
			}
			any = true
			word = append(word, a)
			rec(np)
			word = word[:len(word)-1]
		}
		if !any { // nothing left to do on an empty vector
			x := mkv(k, nil)
			t.Check(!x.Iterator().HasNext(), "iterator of an empty vector has a next")
		}
	}
	rec([2]int{})
}
