package main

import (
	"fmt"
	"math"
)

func init() {
	register("C27", "storage independence",
		"every decomposition, solve and query for every combination of representations of the same contents (input, second operand and right-hand side), compared with the row-storage result; a case is distinct by contents, representations and operation",
		checkC27)
}

// worldContents are the plain contents of a World.
type worldContents struct {
	r, c             int
	A, B, C, S, N, R *Mat
	u, w, v, z       []float64
}

func (wc *worldContents) build(k1, k2 Kind, vk VKind) *World {
	w := &World{k1: k1, k2: k2, vk: vk, r: wc.r, c: wc.c}
	w.A, w.S, w.N = mk(k1, wc.A), mk(k1, wc.S), mk(k1, wc.N)
	w.B, w.C, w.R = mk(k2, wc.B), mk(k2, wc.C), mk(k2, wc.R)
	w.u, w.w = mkv(vk, wc.u), mkv(VArray, wc.w)
	w.v, w.z = mkv(vk, wc.v), mkv(VArray, wc.z)
	w.us, w.vs = append([]float64{}, wc.u...), append([]float64{}, wc.v...)
	w.tbl = wc.B.rows()
	w.ri, w.ci = rev(edges(wc.r)), rev(edges(wc.c))
	return w
}

func largeContents(r, c int) *worldContents {
	wc := &worldContents{r: r, c: c, A: ints(r, c, 1), B: ints(r, c, 2), C: ints(c, r, 3), S: spd(r), N: nonsing(r), R: ints(r, c, 5),
		u: intVec(c, 1), w: intVec(c, 2), v: intVec(r, 3), z: intVec(r, 4)}
	for i := 0; i < min(r, c); i++ { // full rank
		wc.A.set(i, i, wc.A.at(i, i)+float64(8+i%5))
	}
	wc.u[0], wc.w[0], wc.v[0] = 3, -2, 1
	return wc
}

func diagContents(n int) *worldContents {
	wc := largeContents(n, n)
	for i := range wc.u {
		if wc.u[i] == 0 {
			wc.u[i] = 4
		}
	}
	wc.A, wc.B, wc.C = diagMat(labelVec(n, 2)), diagMat(intVec(n, 6)), diagMat(intVec(n, 7))
	wc.R = diagMat(intVec(n, 8))
	wc.S, wc.N = diagMat(labelVec(n, 3)), diagMat(labelVec(n, -30.5))
	return wc
}

// opRef is the reference outcome of an operation.
type opRef struct {
	rej *Rej
	out [][]float64
}

func outcome(op *PureOp, w *World) (o opRef) {
	o.rej = tryDo(func() { o.out = flatAll(op.run(w)) })
	return
}

// closeFlat compares flattened objects up to a relative tolerance.
func closeFlat(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	s := 1.0
	for _, v := range a {
		if !math.IsInf(v, 0) && !math.IsNaN(v) {
			s = math.Max(s, math.Abs(v))
		}
	}
	for i := range a {
		if eq(a[i], b[i]) {
			continue
		}
		if !(math.Abs(a[i]-b[i]) <= tol*s) {
			return false
		}
	}
	return true
}

func (t *T) sameOutcome(op *PureOp, ref, got opRef) {
	t.Op(len(got.out))
	if (ref.rej == nil) != (got.rej == nil) {
		t.Failf("%s: %v, but %v for row storage", op.name, got.rej, ref.rej)
	}
	if ref.rej != nil {
		t.Check(ref.rej.Status == got.rej.Status && ref.rej.Typed == got.rej.Typed, "%s: rejected with %v, but %v for row storage", op.name, got.rej, ref.rej)
		return
	}
	t.Check(len(ref.out) == len(got.out), "%s: %d results, %d for row storage", op.name, len(got.out), len(ref.out))
	for i := range ref.out {
		if !closeFlat(ref.out[i], got.out[i], 1e-8) {
			t.Failf("%s: result %d is %s, but %s for row storage", op.name, i, short(got.out[i]), short(ref.out[i]))
		}
	}
}

// generic tells whether every decomposition of m is determined up to rounding.
func generic(m *Mat) bool {
	if m.r == m.c {
		c := charPoly(m)
		if c[0] == 0 || !distinctRoots(c) {
			return false
		}
	}
	g := m
	if m.r >= m.c {
		g = m.T().mul(m)
	} else {
		g = m.mul(m.T())
	}
	c := charPoly(g)
	return c[0] != 0 && distinctRoots(c)
}

func checkC27(r *Run) {
	ops := pureOps()
	exclude := map[string]bool{"diagonal queries": true, "A.WalkInOptimized": true} // the optimized order is the storage's own
	var all, plain []*PureOp
	for i := range ops {
		if exclude[ops[i].name] {
			continue
		}
		all = append(all, &ops[i])
		if !ops[i].shared {
			plain = append(plain, &ops[i])
		}
	}
	compare := func(t *T, wc *worldContents, name string, k1s, k2s []Kind, list []*PureOp) {
		ref := make([]opRef, len(list))
		base := wc.build(KArray, KArray, VArray)
		for i, op := range list {
			if op.applies(base) {
				ref[i] = outcome(op, base)
			}
		}
		for _, k1 := range k1s {
			for _, k2 := range k2s {
				for _, vk := range allVKinds {
					if k1 == KArray && k2 == KArray && vk == VArray {
						continue
					}
					w := wc.build(k1, k2, vk)
					for i, op := range list {
						if !op.applies(w) {
							continue
						}
						t.State(fmt.Sprint(name, k1, k2, vk, i))
						t.Do(func() string { return fmt.Sprintf("%s %v/%v/%v %s", name, k1, k2, vk, op.name) }, func() {
							t.sameOutcome(op, ref[i], outcome(op, w))
						})
					}
					if t.Stopped() {
						return
					}
				}
			}
		}
	}
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {2, 3}, {4, 4}, {5, 7}, {7, 5}, {52, 3}, {3, 52}, {53, 2}, {2, 53}, {52, 52}, {53, 53}, {64, 64}, {64, 65}, {65, 64}, {65, 65}, {40, 105}, {105, 40}, {1, 60}, {60, 1}}
	if r.thorough {
		for a := 1; a <= 20; a++ {
			for b := 1; b <= 20; b++ {
				shapes = append(shapes, [2]int{a, b})
			}
		}
		shapes = append(shapes, [][2]int{{51, 51}, {51, 53}, {54, 52}, {63, 63}, {63, 66}, {66, 63}, {66, 66}, {70, 70}, {104, 104}, {105, 105}, {105, 106}, {30, 150}, {150, 30}}...)
	}
	for _, s := range shapes {
		for _, k1 := range denseKinds {
			r.Group(fmt.Sprintf("shape/%dx%d/%v", s[0], s[1], k1), func(t *T) {
				compare(t, largeContents(s[0], s[1]), fmt.Sprintf("%dx%d", s[0], s[1]), []Kind{k1}, denseKinds, all)
			})
		}
		if s[0] == s[1] {
			for _, k1 := range allKinds {
				r.Group(fmt.Sprintf("diagonal/%d/%v", s[0], k1), func(t *T) {
					compare(t, diagContents(s[0]), fmt.Sprintf("diagonal %d", s[0]), []Kind{k1}, allKinds, all)
				})
			}
		}
	}
	// small integer inputs: every operation on each, decompositions when determined
	enum := func(n, c int, al []float64) {
		r.forAllMats("small", n, c, al, func(t *T, m *Mat) {
			wc := largeContents(n, c)
			wc.A, wc.B = m, m.mapf(func(x float64) float64 { return 1 - x })
			list := plain
			if generic(m) {
				list = all
				if n == c {
					wc.N = m
					wc.S = m.mul(m.T())
				}
			}
			compare(t, wc, m.String(), denseKinds[1:], []Kind{KArray, KBlock}, list)
		})
	}
	enum(2, 2, rangeAlpha(-1, 2))
	enum(1, 3, rangeAlpha(-1, 1))
	enum(3, 2, rangeAlpha(0, 1))
	enum(2, 3, rangeAlpha(0, 1))
	enum(3, 3, rangeAlpha(0, 1))
	if r.thorough {
		enum(2, 2, rangeAlpha(-4, 4))
		enum(3, 2, rangeAlpha(-1, 2))
		enum(2, 3, rangeAlpha(-1, 2))
		enum(3, 3, rangeAlpha(-1, 1))
	}
}
