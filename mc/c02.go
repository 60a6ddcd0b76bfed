package main

import (
	"fmt"
	"math"

	"github.com/jtejido/linear"
)

func init() {
	register("C02", "extraction",
		"every extraction interface at every position/range/selection, for every representation and every shape of the boundary shape set, on tables whose entries are pairwise distinct; a case is distinct by representation, shape, interface and argument",
		checkC02)
	register("C14", "norms and trace",
		"every shape of the boundary set x every representation x integer contents (exhaustive over {-1,0,2} up to 3x3), compared with exact integer sums",
		checkC14)
}

// contents gives labelled contents representable by kind k.
func contents(k Kind, r, c int) *Mat {
	if k == KDiag {
		return diagMat(labelVec(r, 5))
	}
	return label(r, c, 5)
}

func shapeOK(k Kind, r, c int) bool { return k != KDiag || r == c }

func indexLists(n, maxLen int) [][]int {
	var out [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			out = append(out, append([]int(nil), cur...))
		}
		if len(cur) == maxLen {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(cur, i))
		}
	}
	rec(nil)
	return out
}

func rev(a []int) []int {
	o := make([]int, len(a))
	for i := range a {
		o[len(a)-1-i] = a[i]
	}
	return o
}

func seqInts(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func sentinel(r, c int) [][]float64 {
	o := make([][]float64, r)
	for i := range o {
		o[i] = make([]float64, c)
		for j := range o[i] {
			o[i][j] = -12345
		}
	}
	return o
}

func checkC02(r *Run) {
	dims := []int{1, 2, 3, 4, 51, 52, 53, 104, 105}
	if r.thorough {
		dims = []int{1, 2, 3, 4, 5, 6, 25, 26, 27, 50, 51, 52, 53, 54, 78, 103, 104, 105, 106, 156, 157}
	}
	for _, k := range allKinds {
		for _, nr := range dims {
			for _, nc := range dims {
				if !shapeOK(k, nr, nc) {
					continue
				}
				if (k == KShared || k == KForeign) && nr*nc > 3000 && !r.thorough {
					continue
				}
				r.Group(fmt.Sprintf("extract/%v/%dx%d", k, nr, nc), func(t *T) { extractAll(t, k, nr, nc, contents(k, nr, nc)) })
			}
		}
	}
	for _, k := range allKinds {
		for _, s := range sweepShapes(r.thorough) {
			if shapeOK(k, s[0], s[1]) && (s[0]*s[1] <= 600 || k == KArray || k == KBlock || k == KDiag) {
				r.Group(fmt.Sprintf("sweep/%v/%dx%d", k, s[0], s[1]), func(t *T) { extractAll(t, k, s[0], s[1], contents(k, s[0], s[1])) })
			}
		}
	}
	for _, k := range denseKinds {
		for off := range specials {
			r.Group(fmt.Sprintf("special/%v/%d", k, off), func(t *T) {
				for _, s := range [][2]int{{1, 1}, {2, 3}, {3, 2}, {53, 2}, {2, 53}} {
					extractAll(t, k, s[0], s[1], special(s[0], s[1], off))
				}
			})
		}
	}
	// every small shape, every rectangle of every rectangle (depth 2), every index selection
	maxD := 5
	if r.thorough {
		maxD = 7
	}
	for _, k := range allKinds {
		for nr := 1; nr <= maxD; nr++ {
			for nc := 1; nc <= maxD; nc++ {
				if !shapeOK(k, nr, nc) {
					continue
				}
				r.Group(fmt.Sprintf("nested/%v/%dx%d", k, nr, nc), func(t *T) {
					m := contents(k, nr, nc)
					x := mk(k, m)
					for _, q := range allRects(nr, nc) {
						for _, p := range allRects(q.r1-q.r0+1, q.c1-q.c0+1) {
							t.Do(func() string { return fmt.Sprintf("%v %dx%d SubMatrix%v.SubMatrix%v", k, nr, nc, q, p) }, func() {
								t.Op(2)
								y := x.SubMatrix(q.r0, q.r1, q.c0, q.c1).SubMatrix(p.r0, p.r1, p.c0, p.c1)
								t.expectMat("nested submatrix", y, m.sub(q.r0, q.r1, q.c0, q.c1).sub(p.r0, p.r1, p.c0, p.c1))
							})
						}
					}
					t.State("nested")
				})
			}
		}
	}
	for _, k := range allKinds {
		for nr := 1; nr <= 3; nr++ {
			for nc := 1; nc <= 3; nc++ {
				if !shapeOK(k, nr, nc) {
					continue
				}
				r.Group(fmt.Sprintf("select/%v/%dx%d", k, nr, nc), func(t *T) {
					m := contents(k, nr, nc)
					x := mk(k, m)
					for _, ri := range indexLists(nr, 3) {
						for _, ci := range indexLists(nc, 3) {
							selectCase(t, k, x, m, ri, ci)
						}
					}
				})
			}
		}
	}
}

func selectModel(m *Mat, ri, ci []int) *Mat {
	o := newMat(len(ri), len(ci))
	for i, a := range ri {
		for j, b := range ci {
			o.set(i, j, m.at(a, b))
		}
	}
	return o
}

func selectCase(t *T, k Kind, x linear.RealMatrix, m *Mat, ri, ci []int) {
	t.Do(func() string { return fmt.Sprintf("%v %dx%d select %v x %v", k, m.r, m.c, ri, ci) }, func() {
		want := selectModel(m, ri, ci)
		a, b := append([]int(nil), ri...), append([]int(nil), ci...)
		t.State(fmt.Sprint("sel", k, m.r, m.c, ri, ci))
		t.expectMat("SubMatrix(selection)", linear.SubMatrix(x, a, b), want)
		dst := sentinel(len(ri)+1, len(ci)+1)
		linear.CopySubMatrixFromIndices(x, a, b, dst)
		t.Op(2)
		for i := range dst {
			for j := range dst[i] {
				w := -12345.0
				if i < want.r && j < want.c {
					w = want.at(i, j)
				}
				t.Check(same(dst[i][j], w), "CopySubMatrixFromIndices wrote %v at (%d,%d), want %v", dst[i][j], i, j, w)
			}
		}
		for i := range a {
			t.Check(a[i] == ri[i], "row selection changed")
		}
		for i := range b {
			t.Check(b[i] == ci[i], "column selection changed")
		}
		t.expectMat("source", x, m)
	})
}

func extractAll(t *T, k Kind, nr, nc int, m *Mat) {
	x := mk(k, m)
	id := func(what string, a ...any) func() string {
		return func() string { return fmt.Sprintf("%v %dx%d %s%v", k, nr, nc, what, a) }
	}
	do := func(what string, arg any, f func()) {
		t.State(fmt.Sprint(what, arg))
		t.Do(id(what, arg), func() { t.Op(1); f() })
	}
	do("dims", "", func() {
		t.Check(x.RowDimension() == nr && x.ColumnDimension() == nc, "dimensions %dx%d", x.RowDimension(), x.ColumnDimension())
	})
	do("At", "", func() { t.expectMat("At", x, m) })
	do("Data", "", func() { t.expectRows("Data", x.Data(), m) })
	do("Copy", "", func() { t.expectMat("Copy", x.Copy(), m) })
	do("Transpose", "", func() { t.expectMat("Transpose", x.Transpose(), m.T()) })
	do("Transpose.Transpose", "", func() { t.expectMat("Transpose twice", x.Transpose().Transpose(), m) })
	for i := 0; i < nr; i++ {
		do("RowAt", i, func() { t.expectSlice("RowAt", x.RowAt(i), m.row(i)) })
		do("RowMatrixAt", i, func() { t.expectMat("RowMatrixAt", x.RowMatrixAt(i), m.sub(i, i, 0, nc-1)) })
		do("RowVectorAt", i, func() { t.expectVec("RowVectorAt", x.RowVectorAt(i), m.row(i)) })
	}
	for j := 0; j < nc; j++ {
		do("ColumnAt", j, func() { t.expectSlice("ColumnAt", x.ColumnAt(j), m.col(j)) })
		do("ColumnMatrixAt", j, func() { t.expectMat("ColumnMatrixAt", x.ColumnMatrixAt(j), m.sub(0, nr-1, j, j)) })
		do("ColumnVectorAt", j, func() { t.expectVec("ColumnVectorAt", x.ColumnVectorAt(j), m.col(j)) })
	}
	rects := edgeRects(nr, nc)
	if nr*nc <= 36 {
		rects = allRects(nr, nc)
	} else {
		// also windows that straddle a boundary off the edge list
		for _, q := range edgeRects(nr, nc) {
			p := rect{(q.r0 + q.r1) / 2, q.r1, (q.c0 + q.c1) / 2, q.c1}
			rects = append(rects, p)
		}
	}
	for _, q := range rects {
		want := m.sub(q.r0, q.r1, q.c0, q.c1)
		do("SubMatrix", q, func() { t.expectMat("SubMatrix", x.SubMatrix(q.r0, q.r1, q.c0, q.c1), want) })
		if nr*nc > 3000 && (q.r0+q.c0+q.r1+q.c1)%3 != 0 {
			continue
		}
		for extra := 0; extra <= 1; extra++ {
			do("CopySubMatrix", []any{q, extra}, func() {
				dst := sentinel(want.r+extra, want.c+extra)
				linear.CopySubMatrix(x, q.r0, q.r1, q.c0, q.c1, dst)
				for i := range dst {
					for j := range dst[i] {
						w := -12345.0
						if i < want.r && j < want.c {
							w = want.at(i, j)
						}
						t.Check(same(dst[i][j], w), "CopySubMatrix wrote %v at (%d,%d), want %v", dst[i][j], i, j, w)
					}
				}
			})
		}
	}
	er, ec := edges(nr), edges(nc)
	for _, ri := range [][]int{er, rev(er), {er[len(er)-1]}, append(append([]int{}, er...), er...), seqInts(nr)} {
		for _, ci := range [][]int{ec, rev(ec), {ec[0]}, append(append([]int{}, ec...), ec...), seqInts(nc)} {
			selectCase(t, k, x, m, ri, ci)
		}
	}
	do("source unchanged", "", func() { t.expectMat("source", x, m) })
}

func checkC14(r *Run) {
	check := func(t *T, k Kind, m *Mat) {
		t.Do(func() string { return fmt.Sprintf("%v %dx%d %v", k, m.r, m.c, m) }, func() {
			x := mk(k, m)
			t.Op(3)
			if m.r*m.c <= 16 {
				t.StateF(append([]float64{float64(k), float64(m.r), float64(m.c)}, m.a...))
			} else {
				t.State(fmt.Sprint(k, m.r, m.c, m.a[0], m.a[1]))
			}
			odd := 0.0 // an infinite or not-a-number entry decides both norms
			for _, y := range m.a {
				if y-y != 0 {
					odd = math.Abs(y)
				}
			}
			mx, sq := 0.0, 0.0
			for j := 0; j < m.c; j++ {
				s := 0.0
				for i := 0; i < m.r; i++ {
					s += math.Abs(m.at(i, j))
					sq += m.at(i, j) * m.at(i, j)
				}
				mx = math.Max(mx, s)
			}
			if odd != 0 {
				mx, sq = odd, odd
			}
			if g := linear.MatLInfNorm(x); !eq(g, mx) {
				t.Failf("column-sum norm is %v, want %v", g, mx)
			}
			f := math.Sqrt(sq)
			if g := linear.MatFrobeniusNorm(x); math.Abs(g-f) > 4e-16*f || odd != 0 && !eq(g, odd) {
				t.Failf("Frobenius norm is %v, want %v", g, f)
			}
			if m.r == m.c {
				tr := 0.0
				for i := 0; i < m.r; i++ {
					tr += m.at(i, i)
				}
				if g := x.Trace(); !eq(g, tr) {
					t.Failf("trace is %v, want %v", g, tr)
				}
			} else {
				rej := tryDo(func() { x.Trace() })
				t.Check(rej != nil, "trace of a non-square matrix accepted")
				t.Check(rej.Typed, "trace of a non-square matrix: %v", rej)
			}
			t.Check(linear.IsSquare(x) == (m.r == m.c), "IsSquare")
			t.expectMat("operand", x, m)
		})
	}
	dims := boundDims
	if r.thorough {
		dims = nil
		for i := 1; i <= 110; i++ {
			dims = append(dims, i)
		}
	}
	for _, s := range sweepShapes(r.thorough) {
		r.Group(fmt.Sprintf("sweep/%dx%d", s[0], s[1]), func(t *T) {
			for _, k := range allKinds {
				if !shapeOK(k, s[0], s[1]) {
					continue
				}
				m := contents(k, s[0], s[1])
				check(t, k, m)
				for n := 0; n < max(s[0], s[1]); n++ { // a dominant entry in every row and column
					i, j := min(n, s[0]-1), min(n, s[1]-1)
					mm := m.clone()
					mm.set(i, j, -1e6)
					check(t, k, mm)
				}
			}
		})
	}
	for _, nr := range dims {
		for _, nc := range dims {
			r.Group(fmt.Sprintf("bound/%dx%d", nr, nc), func(t *T) {
				for _, k := range allKinds {
					for salt := 0; salt < 3; salt++ {
						m := ints(nr, nc, salt)
						if k == KDiag {
							if nr != nc {
								continue
							}
							m = diagMat(intVec(nr, salt))
						}
						check(t, k, m)
						if k != KDiag {
							// one dominant entry near each edge: a missed cell or column shows
							for _, i := range edges(nr) {
								for _, j := range edges(nc) {
									mm := m.clone()
									mm.set(i, j, -1e6)
									check(t, k, mm)
									if salt == 0 {
										for _, o := range []float64{math.Inf(1), math.Inf(-1), math.NaN()} {
											mo := m.clone()
											mo.set(i, j, o)
											check(t, k, mo)
										}
									}
								}
							}
						} else {
							for i := range m.diag() {
								mm := m.clone()
								mm.set(i, i, 1e6)
								check(t, k, mm)
							}
						}
					}
				}
			})
		}
	}
	for nr := 1; nr <= 3; nr++ {
		for nc := 1; nc <= 3; nc++ {
			al := []float64{-1, 0, 2}
			if nr*nc <= 6 {
				al = []float64{-2, -1, 0, 1, 3}
			}
			r.forAllMats("small", nr, nc, al, func(t *T, m *Mat) {
				for _, k := range allKinds {
					if fits(k, m) {
						check(t, k, m)
					}
				}
			})
		}
	}
}
