package main

import (
	"fmt"
	"math"

	"github.com/jtejido/linear"
)

func init() {
	register("C04", "invalid accesses",
		"every matrix operation with every combination of valid, boundary and invalid arguments from index/shape alphabets, for every representation and shape; validity is decided by a predicate on the arguments; a case is distinct by representation, shape and call",
		checkC04)
}

// Acc is one call with its validity.
type Acc struct {
	name string
	st   []int // allowed error statuses; nil means the call is valid
	prep func() (call func(x linear.RealMatrix), verify func(t *T))
}

var (
	stDim   = []int{linear.EDIM, linear.EMATDIM, linear.EMULTIDIM}
	stRange = []int{linear.ERANGE}
	stOrder = []int{linear.ENSMALL, linear.ERANGE}
	stNil   = []int{linear.EINV}
	stEmpty = []int{linear.ENODAT}
	stSq    = []int{linear.ESQMAT, linear.EDIM}
)

func union(a ...[]int) []int {
	var o []int
	for _, x := range a {
		o = append(o, x...)
	}
	return o
}

func inSet(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func freezeSlice(v []float64) func(t *T) {
	c := append([]float64(nil), v...)
	return func(t *T) { t.expectSlice("argument slice", v, c) }
}
func freezeMat(x linear.RealMatrix) func(t *T) {
	m := rd(x)
	return func(t *T) { t.expectMat("argument matrix", x, m) }
}
func freezeVec(x linear.RealVector) func(t *T) {
	m := rdv(x)
	return func(t *T) { t.expectVec("argument vector", x, m) }
}
func freezeRows(x [][]float64) func(t *T) {
	c := make([][]float64, len(x))
	for i := range x {
		c[i] = append([]float64(nil), x[i]...)
	}
	return func(t *T) {
		t.Check(len(x) == len(c), "argument table length")
		for i := range c {
			t.expectSlice("argument table row", x[i], c[i])
		}
	}
}
func freezeInts(x []int) func(t *T) {
	c := append([]int(nil), x...)
	return func(t *T) {
		for i := range c {
			t.Check(x[i] == c[i], "argument index list changed")
		}
	}
}

func idxAlpha(n int) []int {
	o := []int{math.MinInt, -1}
	for i := 0; i < n; i++ {
		if n <= 4 || i == 0 || i == n-1 || i%52 == 0 || i%52 == 51 {
			o = append(o, i)
		}
	}
	return append(o, n, n+1, math.MaxInt)
}

func lenAlpha(n int) []int {
	o := []int{0, n, n + 1, 2 * n}
	if n > 1 {
		o = append(o, n-1)
	}
	if n > 2 {
		o = append(o, 1)
	}
	return o
}

type watchVisitor struct{ calls int }

func (w *watchVisitor) Start(a, b, c, d, e, f int)        { w.calls++ }
func (w *watchVisitor) Visit(i, j int, v float64) float64 { w.calls++; return v }
func (w *watchVisitor) End() float64                      { w.calls++; return 7 }

type watchPVisitor struct{ calls int }

func (w *watchPVisitor) Start(a, b, c, d, e, f int) { w.calls++ }
func (w *watchPVisitor) Visit(i, j int, v float64)  { w.calls++ }
func (w *watchPVisitor) End() float64               { w.calls++; return 7 }

// accesses enumerates calls on an r x c matrix of kind k. fill is the value
// written by mutators (zero keeps a diagonal matrix legal).
func accesses(k Kind, r, c int, fill float64) []Acc {
	var out []Acc
	in := func(i, n int) bool { return i >= 0 && i < n }
	add := func(st []int, name string, prep func() (func(linear.RealMatrix), func(*T))) {
		out = append(out, Acc{name, st, prep})
	}
	simple := func(st []int, name string, f func(x linear.RealMatrix)) {
		add(st, name, func() (func(linear.RealMatrix), func(*T)) { return f, func(*T) {} })
	}
	vs := func(n int) []float64 { return constVals(fill)(n) }
	stIJ := func(i, j int) []int {
		if in(i, r) && in(j, c) {
			return nil
		}
		return stRange
	}
	for _, i := range idxAlpha(r) {
		for _, j := range idxAlpha(c) {
			simple(stIJ(i, j), fmt.Sprintf("At(%d,%d)", i, j), func(x linear.RealMatrix) { x.At(i, j) })
			simple(stIJ(i, j), fmt.Sprintf("SetEntry(%d,%d)", i, j), func(x linear.RealMatrix) { x.SetEntry(i, j, fill) })
			simple(stIJ(i, j), fmt.Sprintf("AddToEntry(%d,%d)", i, j), func(x linear.RealMatrix) { x.AddToEntry(i, j, fill) })
			simple(stIJ(i, j), fmt.Sprintf("MultiplyEntry(%d,%d)", i, j), func(x linear.RealMatrix) { x.MultiplyEntry(i, j, fill) })
		}
	}
	for _, i := range idxAlpha(r) {
		var st []int
		if !in(i, r) {
			st = stRange
		}
		simple(st, fmt.Sprintf("RowAt(%d)", i), func(x linear.RealMatrix) { x.RowAt(i) })
		simple(st, fmt.Sprintf("RowMatrixAt(%d)", i), func(x linear.RealMatrix) { x.RowMatrixAt(i) })
		simple(st, fmt.Sprintf("RowVectorAt(%d)", i), func(x linear.RealMatrix) { x.RowVectorAt(i) })
		for _, n := range lenAlpha(c) {
			s2 := st
			if n != c {
				s2 = union(st, stDim)
			}
			add(s2, fmt.Sprintf("SetRow(%d,len %d)", i, n), func() (func(linear.RealMatrix), func(*T)) {
				a := vs(n)
				return func(x linear.RealMatrix) { x.SetRow(i, a) }, freezeSlice(a)
			})
			for _, vk := range allVKinds {
				add(s2, fmt.Sprintf("SetRowVector(%d,%v len %d)", i, vk, n), func() (func(linear.RealMatrix), func(*T)) {
					a := mkv(vk, vs(n))
					return func(x linear.RealMatrix) { x.SetRowVector(i, a) }, freezeVec(a)
				})
			}
			if n == 0 {
				continue
			}
			for _, h := range []int{1, 2, c} {
				s3 := s2
				if h != 1 {
					s3 = union(s2, stDim)
				}
				for _, mkd := range []Kind{KArray, KBlock, KForeign} {
					add(s3, fmt.Sprintf("SetRowMatrix(%d,%v %dx%d)", i, mkd, h, n), func() (func(linear.RealMatrix), func(*T)) {
						a := mk(mkd, reshape(vs(h*n), h, n))
						return func(x linear.RealMatrix) { x.SetRowMatrix(i, a) }, freezeMat(a)
					})
				}
			}
		}
	}
	for _, j := range idxAlpha(c) {
		var st []int
		if !in(j, c) {
			st = stRange
		}
		simple(st, fmt.Sprintf("ColumnAt(%d)", j), func(x linear.RealMatrix) { x.ColumnAt(j) })
		simple(st, fmt.Sprintf("ColumnMatrixAt(%d)", j), func(x linear.RealMatrix) { x.ColumnMatrixAt(j) })
		simple(st, fmt.Sprintf("ColumnVectorAt(%d)", j), func(x linear.RealMatrix) { x.ColumnVectorAt(j) })
		for _, n := range lenAlpha(r) {
			s2 := st
			if n != r {
				s2 = union(st, stDim)
			}
			add(s2, fmt.Sprintf("SetColumn(%d,len %d)", j, n), func() (func(linear.RealMatrix), func(*T)) {
				a := vs(n)
				return func(x linear.RealMatrix) { x.SetColumn(j, a) }, freezeSlice(a)
			})
			for _, vk := range allVKinds {
				add(s2, fmt.Sprintf("SetColumnVector(%d,%v len %d)", j, vk, n), func() (func(linear.RealMatrix), func(*T)) {
					a := mkv(vk, vs(n))
					return func(x linear.RealMatrix) { x.SetColumnVector(j, a) }, freezeVec(a)
				})
			}
			if n == 0 {
				continue
			}
			for _, w := range []int{1, 2, r} {
				s3 := s2
				if w != 1 {
					s3 = union(s2, stDim)
				}
				for _, mkd := range []Kind{KArray, KBlock, KForeign} {
					add(s3, fmt.Sprintf("SetColumnMatrix(%d,%v %dx%d)", j, mkd, n, w), func() (func(linear.RealMatrix), func(*T)) {
						a := mk(mkd, reshape(vs(n*w), n, w))
						return func(x linear.RealMatrix) { x.SetColumnMatrix(j, a) }, freezeMat(a)
					})
				}
			}
		}
	}
	// ranges
	for _, r0 := range idxAlpha(r) {
		for _, r1 := range idxAlpha(r) {
			for _, c0 := range idxAlpha(c) {
				for _, c1 := range idxAlpha(c) {
					if r*c > 30 && !in(r0, r) && !in(c0, c) {
						continue
					}
					var st []int
					if !in(r0, r) || !in(r1, r) || !in(c0, c) || !in(c1, c) {
						st = union(st, stRange)
					}
					if r1 < r0 || c1 < c0 {
						st = union(st, stOrder)
					}
					q := rect{r0, r1, c0, c1}
					simple(st, "SubMatrix"+q.String(), func(x linear.RealMatrix) { x.SubMatrix(r0, r1, c0, c1) })
					for _, w := range updWalks {
						add(st, "WalkInUpdate"+w.name+q.String(), func() (func(linear.RealMatrix), func(*T)) {
							v := &watchVisitor{}
							return func(x linear.RealMatrix) { w.b(x, v, q) }, func(t *T) {
								if st != nil {
									t.Check(v.calls == 0, "rejected walk called the visitor %d times", v.calls)
								}
							}
						})
					}
					for _, w := range prsWalks {
						add(st, "WalkIn"+w.name+q.String(), func() (func(linear.RealMatrix), func(*T)) {
							v := &watchPVisitor{}
							return func(x linear.RealMatrix) { w.b(x, v, q) }, func(t *T) {
								if st != nil {
									t.Check(v.calls == 0, "rejected walk called the visitor %d times", v.calls)
								}
							}
						})
					}
					hs, ws := []int{1}, []int{1}
					if st == nil {
						h, w := r1-r0+1, c1-c0+1
						hs, ws = []int{0, h - 1, h, h + 1}, []int{0, w - 1, w, w + 1}
					}
					for _, h := range hs {
						for _, w := range ws {
							s2 := st
							if st == nil && (h < r1-r0+1 || w < c1-c0+1) {
								s2 = union(stDim, stEmpty)
							}
							add(s2, fmt.Sprintf("CopySubMatrix%v to %dx%d", q, h, w), func() (func(linear.RealMatrix), func(*T)) {
								d := sentinel(h, w)
								fz := freezeRows(d)
								if s2 == nil {
									fz = func(*T) {}
								}
								return func(x linear.RealMatrix) { linear.CopySubMatrix(x, r0, r1, c0, c1, d) }, fz
							})
						}
					}
					if st == nil && r1-r0 >= 1 && c1-c0 >= 1 { // ragged destination
						add(stDim, fmt.Sprintf("CopySubMatrix%v to ragged", q), func() (func(linear.RealMatrix), func(*T)) {
							d := sentinel(r1-r0+1, c1-c0+1)
							d[r1-r0] = d[r1-r0][:c1-c0]
							return func(x linear.RealMatrix) { linear.CopySubMatrix(x, r0, r1, c0, c1, d) }, freezeRows(d)
						})
					}
				}
			}
		}
	}
	// replacing a submatrix
	for _, i := range idxAlpha(r) {
		for _, j := range idxAlpha(c) {
			for _, h := range []int{1, 2, r, r + 1} {
				for _, w := range []int{1, 2, c, c + 1} {
					var st []int
					if !in(i, r) || !in(j, c) || i > r-h || j > c-w {
						st = union(stRange, stDim)
					}
					add(st, fmt.Sprintf("SetSubMatrix(%dx%d at %d,%d)", h, w, i, j), func() (func(linear.RealMatrix), func(*T)) {
						a := reshape(vs(h*w), h, w).rows()
						return func(x linear.RealMatrix) { x.SetSubMatrix(a, i, j) }, freezeRows(a)
					})
				}
			}
		}
	}
	sub := func(st []int, what string, mkrows func() [][]float64) {
		for _, ij := range [][2]int{{0, 0}, {r - 1, c - 1}} {
			s := st
			if ij[0] > 0 || ij[1] > 0 {
				s = union(st, stRange)
			}
			add(s, fmt.Sprintf("SetSubMatrix(%s at %d,%d)", what, ij[0], ij[1]), func() (func(linear.RealMatrix), func(*T)) {
				a := mkrows()
				return func(x linear.RealMatrix) { x.SetSubMatrix(a, ij[0], ij[1]) }, freezeRows(a)
			})
		}
	}
	sub(stNil, "nil", func() [][]float64 { return nil })
	sub(stEmpty, "no rows", func() [][]float64 { return [][]float64{} })
	sub(stEmpty, "no columns", func() [][]float64 { return [][]float64{{}} })
	if r >= 2 {
		for bad := 1; bad < min(r, 3); bad++ {
			for _, d := range []int{-1, 1} {
				if c+d < 0 {
					continue
				}
				sub(union(stDim, stEmpty), fmt.Sprintf("ragged at %d by %d", bad, d), func() [][]float64 {
					a := reshape(vs(r*c), r, c).rows()
					a[bad] = make([]float64, c+d)
					for x := range a[bad] {
						a[bad][x] = fill
					}
					return a
				})
			}
		}
		sub(union(stDim, stEmpty), "ragged at last", func() [][]float64 {
			a := reshape(vs(r*c), r, c).rows()
			a[r-1] = append(a[r-1], fill)
			return a
		})
	}
	// selections
	sels := func(n int) [][]int {
		o := [][]int{nil, {}, {0}, {n - 1, 0}, {-1}, {n}, {0, n}, {n - 1, -1, 0}, {math.MaxInt}, {math.MinInt, 0}}
		return o
	}
	selSt := func(s []int, n int) []int {
		if s == nil {
			return stNil
		}
		if len(s) == 0 {
			return stEmpty
		}
		for _, i := range s {
			if !in(i, n) {
				return stRange
			}
		}
		return nil
	}
	for _, ri := range sels(r) {
		for _, ci := range sels(c) {
			st := union(selSt(ri, r), selSt(ci, c))
			if len(st) == 0 {
				st = nil
			}
			lab := fmt.Sprintf("(rows %#v, columns %#v)", ri, ci)
			add(st, "SubMatrix"+lab, func() (func(linear.RealMatrix), func(*T)) {
				a, b := append([]int(nil), ri...), append([]int(nil), ci...)
				if ri != nil && a == nil {
					a = []int{}
				}
				if ci != nil && b == nil {
					b = []int{}
				}
				fa, fb := freezeInts(a), freezeInts(b)
				return func(x linear.RealMatrix) { linear.SubMatrix(x, a, b) }, func(t *T) { fa(t); fb(t) }
			})
			if st == nil && len(ri) > 1 { // a short row anywhere in the destination
				for short := range ri {
					add(union(stDim, stEmpty), fmt.Sprintf("CopySubMatrixFromIndices%s to rows of which %d is short", lab, short), func() (func(linear.RealMatrix), func(*T)) {
						d := sentinel(len(ri), len(ci))
						d[short] = d[short][:len(ci)-1]
						return func(x linear.RealMatrix) { linear.CopySubMatrixFromIndices(x, ri, ci, d) }, freezeRows(d)
					})
				}
			}
			for _, hw := range [][2]int{{0, 0}, {len(ri), len(ci)}, {len(ri), len(ci) - 1}, {len(ri) - 1, len(ci)}, {len(ri), 0}} {
				h, w := hw[0], hw[1]
				if h < 0 || w < 0 {
					continue
				}
				s2 := st
				if st == nil && (h < len(ri) || w < len(ci)) {
					s2 = union(stDim, stEmpty)
				}
				add(s2, fmt.Sprintf("CopySubMatrixFromIndices%s to %dx%d", lab, h, w), func() (func(linear.RealMatrix), func(*T)) {
					d := sentinel(h, w)
					fz := freezeRows(d)
					if s2 == nil {
						fz = func(*T) {}
					}
					return func(x linear.RealMatrix) { linear.CopySubMatrixFromIndices(x, ri, ci, d) }, fz
				})
			}
		}
	}
	// operand shapes
	for _, kb := range allKinds {
		for _, s := range [][2]int{{r, c}, {c, r}, {r + 1, c}, {r, c + 1}, {c, c}, {r, r}, {c + 1, 1}, {1, 1}, {1, r + 1}, {r * c, 1}, {1, r}, {c, 1}} {
			if kb == KDiag && s[0] != s[1] {
				continue
			}
			bin := func(op string, ok bool, f func(x, y linear.RealMatrix)) {
				var st []int
				if !ok {
					st = stDim
				}
				add(st, fmt.Sprintf("%s(%v %dx%d)", op, kb, s[0], s[1]), func() (func(linear.RealMatrix), func(*T)) {
					y := mk(kb, newMat(s[0], s[1]))
					return func(x linear.RealMatrix) { f(x, y) }, freezeMat(y)
				})
			}
			bin("Add", s[0] == r && s[1] == c, func(x, y linear.RealMatrix) { x.Add(y) })
			bin("Subtract", s[0] == r && s[1] == c, func(x, y linear.RealMatrix) { x.Subtract(y) })
			bin("Multiply", s[0] == c, func(x, y linear.RealMatrix) { x.Multiply(y) })
			bin("PreMultiplyMatrix", s[1] == r, func(x, y linear.RealMatrix) { x.PreMultiplyMatrix(y) })
			bin("Equals", true, func(x, y linear.RealMatrix) { x.Equals(y) })
		}
	}
	for _, n := range union(lenAlpha(r), lenAlpha(c)) {
		var so, sp []int
		if n != c {
			so = stDim
		}
		if n != r {
			sp = stDim
		}
		add(so, fmt.Sprintf("Operate(len %d)", n), func() (func(linear.RealMatrix), func(*T)) {
			a := vs(n)
			return func(x linear.RealMatrix) { x.Operate(a) }, freezeSlice(a)
		})
		add(sp, fmt.Sprintf("PreMultiply(len %d)", n), func() (func(linear.RealMatrix), func(*T)) {
			a := vs(n)
			return func(x linear.RealMatrix) { x.PreMultiply(a) }, freezeSlice(a)
		})
		for _, vk := range allVKinds {
			add(so, fmt.Sprintf("OperateVector(%v %d)", vk, n), func() (func(linear.RealMatrix), func(*T)) {
				a := mkv(vk, vs(n))
				return func(x linear.RealMatrix) { x.OperateVector(a) }, freezeVec(a)
			})
			add(sp, fmt.Sprintf("PreMultiplyVector(%v %d)", vk, n), func() (func(linear.RealMatrix), func(*T)) {
				a := mkv(vk, vs(n))
				return func(x linear.RealMatrix) { x.PreMultiplyVector(a) }, freezeVec(a)
			})
		}
	}
	var sq []int
	if r != c {
		sq = stSq
	}
	simple(sq, "Trace", func(x linear.RealMatrix) { x.Trace() })
	for _, p := range []int{math.MinInt, -2, -1, 0, 1, 2, 3} {
		st := sq
		if p < 0 {
			st = union(sq, []int{linear.ENOTPOS, linear.ENSMALL})
		}
		simple(st, fmt.Sprintf("Power(%d)", p), func(x linear.RealMatrix) { linear.Power(x, p) })
	}
	// the object itself as operand
	simple(nil, "Add(itself)", func(x linear.RealMatrix) { x.Add(x) })
	simple(nil, "Subtract(itself)", func(x linear.RealMatrix) { x.Subtract(x) })
	var sm []int
	if r != c {
		sm = stDim
	}
	simple(sm, "Multiply(itself)", func(x linear.RealMatrix) { x.Multiply(x) })
	simple(sm, "PreMultiplyMatrix(itself)", func(x linear.RealMatrix) { x.PreMultiplyMatrix(x) })
	for _, i := range idxAlpha(r) {
		var st []int
		if !in(i, r) {
			st = stRange
		}
		if r != 1 {
			st = union(st, stDim)
		}
		simple(st, fmt.Sprintf("SetRowMatrix(%d,itself)", i), func(x linear.RealMatrix) { x.SetRowMatrix(i, x) })
	}
	for _, j := range idxAlpha(c) {
		var st []int
		if !in(j, c) {
			st = stRange
		}
		if c != 1 {
			st = union(st, stDim)
		}
		simple(st, fmt.Sprintf("SetColumnMatrix(%d,itself)", j), func(x linear.RealMatrix) { x.SetColumnMatrix(j, x) })
	}
	// never rejected
	simple(nil, "Copy", func(x linear.RealMatrix) { x.Copy() })
	simple(nil, "Data", func(x linear.RealMatrix) { x.Data() })
	simple(nil, "Transpose", func(x linear.RealMatrix) { x.Transpose() })
	simple(nil, "ScalarAdd", func(x linear.RealMatrix) { x.ScalarAdd(2) })
	simple(nil, "ScalarMultiply", func(x linear.RealMatrix) { x.ScalarMultiply(-2) })
	simple(nil, "Equals(other)", func(x linear.RealMatrix) { x.Equals(3); x.Equals(nil) })
	simple(nil, "norms", func(x linear.RealMatrix) { linear.MatLInfNorm(x); linear.MatFrobeniusNorm(x); linear.IsSquare(x) })
	for _, w := range updWalks {
		simple(nil, "WalkInUpdate"+w.name, func(x linear.RealMatrix) { w.u(x, &watchVisitor{}) })
	}
	for _, w := range prsWalks {
		simple(nil, "WalkIn"+w.name, func(x linear.RealMatrix) { w.u(x, &watchPVisitor{}) })
	}
	return out
}

// runAccess executes one call on a fresh object and checks how it was treated.
func runAccess(t *T, k Kind, m *Mat, a Acc, statuses bool) {
	t.State(fmt.Sprint(k, m.r, m.c, a.name))
	t.Do(func() string { return fmt.Sprintf("%v %dx%d %s", k, m.r, m.c, a.name) }, func() {
		x := mk(k, m)
		call, verify := a.prep()
		t.Op(1)
		rej := tryDo(func() { call(x) })
		if statuses {
			if a.st == nil {
				return
			}
			t.cause(rej, a.st)
			return
		}
		if a.st == nil {
			t.Check(rej == nil, "valid call rejected: %v", rej)
			verify(t)
			return
		}
		t.Check(rej != nil, "invalid call accepted")
		t.Check(rej.Typed, "rejected without the library's error type: %v", rej)
		t.expectMat("receiver after rejected call", x, m)
		verify(t)
	})
}

func accessShapes(thorough bool) [][2]int {
	s := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {1, 52}, {53, 1}, {52, 2}, {2, 53}, {53, 53}}
	if thorough {
		s = append(s, [][2]int{{4, 3}, {3, 4}, {4, 4}, {51, 3}, {3, 105}, {104, 2}, {52, 52}, {52, 53}, {105, 53}, {105, 105}}...)
	}
	return s
}

func checkC04(r *Run) { registerAccess(r, false) }

func registerAccess(r *Run, statuses bool) {
	for _, k := range allKinds {
		for _, s := range accessShapes(r.thorough) {
			if !shapeOK(k, s[0], s[1]) {
				continue
			}
			parts := 1
			if s[0]*s[1] >= 4 {
				parts = 8
			}
			for p := 0; p < parts; p++ {
				r.Group(fmt.Sprintf("access/%v/%dx%d/%d", k, s[0], s[1], p), func(t *T) {
					fill := 3.0
					if k == KDiag {
						fill = 0
					}
					m := contents(k, s[0], s[1])
					for i, a := range accesses(k, s[0], s[1], fill) {
						if i%parts == p {
							runAccess(t, k, m, a, statuses)
						}
					}
				})
			}
		}
	}
}
