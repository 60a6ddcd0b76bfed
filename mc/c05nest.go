package main

import (
	"fmt"

	"github.com/jtejido/linear"
)

// Nested walks: a visitor starts another walk of the same matrix (or of a
// second one) in the middle of a walk. Both walks must keep the promises,
// with the values current at the time of each visit.

type flavour struct {
	order, upd int
	bounded    bool
}

func (f flavour) String() string {
	s := updWalks[f.order].name
	if f.upd == 1 {
		s = "Update" + s
	}
	if f.bounded {
		s += "Bounded"
	}
	return s
}

func flavours() []flavour {
	var out []flavour
	for o := range updWalks {
		for u := 0; u < 2; u++ {
			out = append(out, flavour{o, u, false}, flavour{o, u, true})
		}
	}
	return out
}

// hooked is a visitor whose visits are delegated.
type hooked struct {
	*recorder
	at func(i, j int, v float64) float64
}

type hookCh struct{ hooked }

func (h hookCh) Visit(i, j int, v float64) float64 { return h.at(i, j, v) }

type hookPr struct{ hooked }

func (h hookPr) Visit(i, j int, v float64) { h.at(i, j, v) }

// run starts one walk of the flavour; cur is the model of the matrix and is
// advanced with every stored value.
func (f flavour) run(t *T, x linear.RealMatrix, m *Mat, q rect, cur *Mat, val func(i, j int, v float64) float64, inside func(n, i, j int)) {
	w := &recorder{result: float64(7*f.order + f.upd)}
	n := 0
	var vals []float64
	at := func(i, j int, v float64) float64 {
		w.visit(i, j, v)
		t.Check(i >= 0 && j >= 0 && i < cur.r && j < cur.c, "visit outside the matrix at (%d,%d)", i, j)
		if c := cur.at(i, j); !same(v, c) {
			t.Failf("%v: cell (%d,%d) visited with value %v, has %v", f, i, j, v, c)
		}
		vals = append(vals, v)
		if inside != nil {
			inside(n, i, j)
		}
		n++
		if f.upd == 1 {
			nv := val(i, j, v)
			cur.set(i, j, nv)
			return nv
		}
		return 0
	}
	var res float64
	switch {
	case f.upd == 1 && f.bounded:
		res = updWalks[f.order].b(x, hookCh{hooked{w, at}}, q)
	case f.upd == 1:
		res = updWalks[f.order].u(x, hookCh{hooked{w, at}})
	case f.bounded:
		res = prsWalks[f.order].b(x, hookPr{hooked{w, at}}, q)
	default:
		res = prsWalks[f.order].u(x, hookPr{hooked{w, at}})
	}
	t.Op(1)
	t.Check(res == w.result, "%v returned %v, visitor returned %v", f, res, w.result)
	// positions: as checkTrace, with the values already compared above
	probe := newMat(m.r, m.c)
	for k, c := range w.cells {
		if c[0] >= 0 && c[0] < m.r && c[1] >= 0 && c[1] < m.c {
			probe.set(c[0], c[1], w.values[k])
		}
	}
	if !f.bounded {
		q = rect{0, m.r - 1, 0, m.c - 1}
	}
	t.checkTrace(w, probe, q, updWalks[f.order].name)
}

func nestedWalks(r *Run) {
	type shp struct{ r, c int }
	shapes := []shp{{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 3}}
	big := []shp{{2, 53}, {53, 2}, {53, 53}, {1, 105}}
	if r.thorough {
		shapes = append(shapes, shp{4, 4}, shp{3, 2})
		big = append(big, shp{105, 3}, shp{52, 104})
	}
	if r.deep {
		shapes = append(shapes, shp{5, 4})
		big = append(big, shp{105, 105})
	}
	fl := flavours()
	for _, k := range allKinds {
		for _, s := range append(append([]shp{}, shapes...), big...) {
			if !shapeOK(k, s.r, s.c) {
				continue
			}
			r.Group(fmt.Sprintf("nested/%v/%dx%d", k, s.r, s.c), func(t *T) {
				m := contents(k, s.r, s.c)
				lim := func(v int) int { return max(v, 0) }
				qo := rect{0, s.r - 1, lim(s.c - 2), s.c - 1}
				qi := rect{lim(s.r - 2), s.r - 1, 0, (s.c - 1) / 2}
				for _, fo := range fl {
					total := s.r * s.c
					if fo.bounded {
						total = s.r * (s.c - qo.c0)
					}
					at := seqInts(total)
					if total > 12 {
						at = []int{0, total / 2, total - 1}
					}
					if total > 1000 && !t.deep {
						at = at[1:2]
					}
					for _, fi := range fl {
						for _, n := range at {
							for _, other := range []bool{false, true} {
								nestedCase(t, k, m, fo, fi, qo, qi, n, other)
							}
						}
					}
				}
			})
		}
	}
}

func nestedCase(t *T, k Kind, m *Mat, fo, fi flavour, qo, qi rect, n int, other bool) {
	t.State(fmt.Sprint("nested", k, m.r, m.c, fo, fi, n, other))
	t.Do(func() string {
		return fmt.Sprintf("%v %dx%d: walk %v, at visit %d walk %v (of another matrix: %v)", k, m.r, m.c, fo, n, fi, other)
	}, func() {
		keep := func(i, j int) bool { return k == KDiag && i != j }
		vo := func(i, j int, v float64) float64 {
			if keep(i, j) {
				return v
			}
			return float64(5000 + 100*i + j)
		}
		vi := func(i, j int, v float64) float64 {
			if keep(i, j) {
				return v
			}
			return float64(-9000 - 100*i - j)
		}
		x, y := mk(k, m), mk(k, m)
		cx, cy := m.clone(), m.clone()
		fo.run(t, x, m, qo, cx, vo, func(at, _, _ int) {
			if at != n {
				return
			}
			if other {
				fi.run(t, y, m, qi, cy, vi, nil)
			} else {
				fi.run(t, x, m, qi, cx, vi, nil)
			}
		})
		t.expectMat("after the walks", x, cx)
		t.expectMat("second matrix after the walks", y, cy)
	})
}
