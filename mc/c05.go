package main

import (
	"fmt"
)

func init() {
	register("C05", "matrix walk protocol",
		"every walk interface (3 orders x changing/preserving x bounded/unbounded) over every bounded region of the small shapes and every boundary region of block-boundary shapes, for every representation; the full event trace (start, visits with positions and values, end) is compared with the specified trace",
		checkC05)
}

// event trace recorder: a visitor protocol automaton
type recorder struct {
	starts, ends int
	dims         [6]int
	cells        [][2]int
	values       []float64
	afterEnd     int
	beforeStart  int
	upd          func(i, j int, v float64) float64
	result       float64
}

func (w *recorder) Start(a, b, c, d, e, f int) {
	w.starts++
	if len(w.cells) > 0 || w.ends > 0 {
		w.afterEnd++
	}
	w.dims = [6]int{a, b, c, d, e, f}
}
func (w *recorder) visit(i, j int, v float64) {
	if w.starts == 0 {
		w.beforeStart++
	}
	if w.ends > 0 {
		w.afterEnd++
	}
	w.cells = append(w.cells, [2]int{i, j})
	w.values = append(w.values, v)
}
func (w *recorder) End() float64 { w.ends++; return w.result }

type chRec struct{ *recorder }

func (c chRec) Visit(i, j int, v float64) float64 { c.visit(i, j, v); return c.upd(i, j, v) }

type prRec struct{ *recorder }

func (c prRec) Visit(i, j int, v float64) { c.visit(i, j, v) }

func (t *T) checkTrace(w *recorder, m *Mat, q rect, order string) {
	t.Check(w.starts == 1, "start announced %d times", w.starts)
	t.Check(w.dims == [6]int{m.r, m.c, q.r0, q.r1, q.c0, q.c1}, "announced %v, want [%d %d %d %d %d %d]", w.dims, m.r, m.c, q.r0, q.r1, q.c0, q.c1)
	t.Check(w.ends == 1, "end announced %d times", w.ends)
	t.Check(w.beforeStart == 0, "%d visits before start", w.beforeStart)
	t.Check(w.afterEnd == 0, "%d events out of order", w.afterEnd)
	h, wd := q.r1-q.r0+1, q.c1-q.c0+1
	t.Check(len(w.cells) == h*wd, "%d visits, want %d", len(w.cells), h*wd)
	seen := make([]bool, h*wd)
	for n, c := range w.cells {
		i, j := c[0]-q.r0, c[1]-q.c0
		t.Check(i >= 0 && j >= 0 && i < h && j < wd, "visit outside the region at %v", c)
		t.Check(!seen[i*wd+j], "cell %v visited twice", c)
		seen[i*wd+j] = true
		if v := m.at(c[0], c[1]); !same(w.values[n], v) {
			t.Failf("cell %v visited with value %v, has %v", c, w.values[n], v)
		}
		switch order {
		case "Row":
			t.Check(n == i*wd+j, "row order broken: visit %d is cell %v", n, c)
		case "Column":
			t.Check(n == j*h+i, "column order broken: visit %d is cell %v", n, c)
		}
	}
}

func walkCase(t *T, k Kind, m *Mat, q *rect, label string, f func(i, j int, v float64) float64) {
	full := rect{0, m.r - 1, 0, m.c - 1}
	reg := full
	what := "all"
	if q != nil {
		reg = *q
		what = q.String()
	}
	for wi := range updWalks {
		name := updWalks[wi].name
		t.State(fmt.Sprint(k, m.r, m.c, what, name, label))
		t.Do(func() string {
			return fmt.Sprintf("%v %dx%d WalkInUpdate%sOrder %s %s", k, m.r, m.c, name, what, label)
		}, func() {
			x := mk(k, m)
			w := &recorder{result: 12.5 + float64(wi), upd: f}
			var res float64
			if q == nil {
				res = updWalks[wi].u(x, chRec{w})
			} else {
				res = updWalks[wi].b(x, chRec{w}, *q)
			}
			t.Op(1)
			t.checkTrace(w, m, reg, name)
			t.Check(res == w.result, "walk returned %v, visitor returned %v", res, w.result)
			want := m.clone()
			for i := reg.r0; i <= reg.r1; i++ {
				for j := reg.c0; j <= reg.c1; j++ {
					want.set(i, j, f(i, j, m.at(i, j)))
				}
			}
			t.expectMat("after the walk", x, want)
		})
		t.Do(func() string {
			return fmt.Sprintf("%v %dx%d WalkIn%sOrder %s", k, m.r, m.c, name, what)
		}, func() {
			x := mk(k, m)
			w := &recorder{result: -3.25 - float64(wi)}
			var res float64
			if q == nil {
				res = prsWalks[wi].u(x, prRec{w})
			} else {
				res = prsWalks[wi].b(x, prRec{w}, *q)
			}
			t.Op(1)
			t.checkTrace(w, m, reg, name)
			t.Check(res == w.result, "walk returned %v, visitor returned %v", res, w.result)
			t.expectMat("after the walk", x, m)
		})
	}
}

func checkC05(r *Run) {
	nestedWalks(r)
	f := func(i, j int, v float64) float64 { return -v + float64(1000*i+j) }
	fd := func(i, j int, v float64) float64 {
		if i != j {
			return v
		}
		return -v + float64(1000*i+j)
	}
	pick := func(k Kind) func(i, j int, v float64) float64 {
		if k == KDiag {
			return fd
		}
		return f
	}
	max := 4
	if r.thorough {
		max = 7
	}
	for _, k := range allKinds {
		for nr := 1; nr <= max; nr++ {
			for nc := 1; nc <= max; nc++ {
				if !shapeOK(k, nr, nc) {
					continue
				}
				r.Group(fmt.Sprintf("small/%v/%dx%d", k, nr, nc), func(t *T) {
					m := contents(k, nr, nc)
					walkCase(t, k, m, nil, "2v+p", pick(k))
					for _, q := range allRects(nr, nc) {
						walkCase(t, k, m, &q, "2v+p", pick(k))
					}
					if k != KDiag {
						for off := range specials {
							sp := func(i, j int, v float64) float64 { return specials[(i*3+j+off)%len(specials)] }
							walkCase(t, k, special(nr, nc, off), nil, fmt.Sprint("special", off), sp)
						}
					}
				})
			}
		}
	}
	dims := boundDims
	if r.thorough {
		dims = []int{1, 2, 3, 25, 50, 51, 52, 53, 54, 78, 103, 104, 105, 106, 155, 156, 157}
	}
	for _, k := range allKinds {
		for _, s := range sweepShapes(r.thorough) {
			nr, nc := s[0], s[1]
			if !shapeOK(k, nr, nc) || nr*nc > 5200 {
				continue
			}
			r.Group(fmt.Sprintf("sweep/%v/%dx%d", k, nr, nc), func(t *T) {
				m := contents(k, nr, nc)
				walkCase(t, k, m, nil, "2v+p", pick(k))
				for _, q := range []rect{{0, nr - 1, 0, nc - 1}, {nr / 2, nr - 1, 0, nc / 2}, {0, nr / 2, nc / 2, nc - 1}, {nr / 3, nr / 2, nc / 3, nc / 2}, {nr - 1, nr - 1, nc - 1, nc - 1}} {
					walkCase(t, k, m, &q, "2v+p", pick(k))
				}
			})
		}
	}
	for _, k := range allKinds {
		for _, nr := range dims {
			for _, nc := range dims {
				if !shapeOK(k, nr, nc) || (nr <= max && nc <= max) || (k != KBlock && nr*nc > 3000 && !r.thorough) {
					continue
				}
				r.Group(fmt.Sprintf("blocks/%v/%dx%d", k, nr, nc), func(t *T) {
					m := contents(k, nr, nc)
					walkCase(t, k, m, nil, "2v+p", pick(k))
					for n, q := range edgeRects(nr, nc) {
						if nr*nc > 3000 && !t.thorough && n%4 != 0 && k != KBlock {
							continue
						}
						walkCase(t, k, m, &q, "2v+p", pick(k))
					}
				})
			}
		}
	}
}
