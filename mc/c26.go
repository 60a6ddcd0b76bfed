package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/jtejido/linear"
)

func init() {
	register("C26", "error kinds",
		"every rejecting call of a catalogue covering all operations, representations, constructors, decompositions and solvers over argument alphabets; a case is distinct by operation, representation, shape and arguments",
		checkC26)
}

// cause checks that a rejection identifies one of the given causes.
func (t *T) cause(rej *Rej, st []int) {
	t.Check(rej != nil, "invalid call accepted")
	t.Check(rej.Typed, "rejected without the library's error type: %v", rej)
	t.Check(inSet(st, rej.Status), "error kind %d, want one of %v: %v", rej.Status, st, rej)
	t.Check(strings.TrimSpace(rej.Msg) != "", "empty error message")
	t.Check(!strings.Contains(rej.Msg, "%!"), "garbled error message: %s", rej.Msg)
	if rej.Status == linear.ERANGE {
		if e, ok := rej.err.(interface {
			Argument() float64
			Low() float64
			High() float64
		}); ok {
			t.Check(e.Argument() < e.Low() || e.Argument() > e.High(), "out-of-range error names %v, which lies in [%v,%v]", e.Argument(), e.Low(), e.High())
		}
	}
	if e, ok := rej.err.(interface {
		WrongRowDimension() int
		WrongColumnDimension() int
		ExpectedRowDimension() int
		ExpectedColumnDimension() int
	}); ok {
		t.Check(e.WrongRowDimension() != e.ExpectedRowDimension() || e.WrongColumnDimension() != e.ExpectedColumnDimension(),
			"dimension mismatch error names the same dimensions %dx%d twice", e.WrongRowDimension(), e.WrongColumnDimension())
	}
	if e, ok := rej.err.(interface {
		Argument() float64
		Min() float64
		IsBoundAllowed() bool
	}); ok {
		t.Check(!(e.Argument() > e.Min() || e.IsBoundAllowed() && e.Argument() == e.Min()), "error says that %v is too small, with minimum %v (allowed: %v)", e.Argument(), e.Min(), e.IsBoundAllowed())
	}
	if e, ok := rej.err.(interface {
		Argument() float64
		Max() float64
		IsBoundAllowed() bool
	}); ok {
		t.Check(!(e.Argument() < e.Max()), "error says that %v is too large, with maximum %v (allowed: %v)", e.Argument(), e.Max(), e.IsBoundAllowed())
	}
}

// bare reduces a concrete pointer and error to (usable, error).
func bare[P any](p *P, err error) (bool, error)          { return p != nil, err }
func bareM(m linear.RealMatrix, err error) (bool, error) { return usable(m), err }
func bareV(v linear.RealVector, err error) (bool, error) {
	return v != nil && tryDo(func() { v.Dimension() }) == nil, err
}
func usable(m linear.RealMatrix) bool {
	return m != nil && tryDo(func() { m.RowDimension(); m.ColumnDimension() }) == nil
}

var (
	stPositive = []int{linear.ENOTSPOS, linear.ENOTPOS}
	stData     = []int{linear.ENODAT}
)

// Ctor is a constructor call.
type Ctor struct {
	name string
	st   []int // nil: valid
	run  func() (bool, error)
}

// badCtors enumerates rejecting constructor calls.
func badCtors(thorough bool) []Ctor {
	var out []Ctor
	add := func(st []int, name string, run func() (bool, error)) { out = append(out, Ctor{name, st, run}) }
	sizes := []int{math.MinInt, -4097, -65, -52, -1, 0, 1, 3, 64, 65}
	for _, a := range sizes {
		for _, b := range sizes {
			if a > 0 && b > 0 {
				continue
			}
			l := fmt.Sprintf("(%d,%d)", a, b)
			add(stPositive, "NewRealMatrixWithDimension"+l, func() (bool, error) { return bareM(linear.NewRealMatrixWithDimension(a, b)) })
			add(stPositive, "NewArray2DRowRealMatrix"+l, func() (bool, error) { return bare(linear.NewArray2DRowRealMatrix(a, b)) })
			add(stPositive, "NewBlockRealMatrix"+l, func() (bool, error) { return bare(linear.NewBlockRealMatrix(a, b)) })
			add(stPositive, "NewBlockRealMatrixFromBlockData"+l, func() (bool, error) {
				return bare(linear.NewBlockRealMatrixFromBlockData(a, b, [][]float64{{1}}))
			})
		}
		if a <= 0 {
			l := fmt.Sprintf("(%d)", a)
			add(stPositive, "NewRealIdentityMatrix"+l, func() (bool, error) { return bareM(linear.NewRealIdentityMatrix(a)) })
			add(stPositive, "NewDiagonalMatrixWithDimension"+l, func() (bool, error) { return bare(linear.NewDiagonalMatrixWithDimension(a)) })
		}
		if a < 0 {
			l := fmt.Sprintf("(%d)", a)
			add(stPositive, "NewSizedArrayRealVector"+l, func() (bool, error) { return bare(linear.NewSizedArrayRealVector(a)) })
			add(stPositive, "NewSizedArrayRealVectorWithPreset"+l, func() (bool, error) { return bare(linear.NewSizedArrayRealVectorWithPreset(a, 2)) })
		}
	}
	// tables
	tables := func(st []int, name string, mkt func() [][]float64) {
		fr := func(f func(a [][]float64) (bool, error)) func() (bool, error) {
			return func() (bool, error) { return f(mkt()) }
		}
		add(st, "NewRealMatrixFromSlices "+name, fr(func(a [][]float64) (bool, error) { return bareM(linear.NewRealMatrixFromSlices(a)) }))
		add(st, "NewBlockRealMatrixFromSlices "+name, fr(func(a [][]float64) (bool, error) { return bare(linear.NewBlockRealMatrixFromSlices(a)) }))
		for _, cp := range []bool{true, false} {
			add(st, fmt.Sprintf("NewArray2DRowRealMatrixFromSlices %s copy=%v", name, cp), fr(func(a [][]float64) (bool, error) {
				return bare(linear.NewArray2DRowRealMatrixFromSlices(a, cp))
			}))
		}
	}
	empty := union(stData, stPositive, stNil)
	tables(stNil, "nil", func() [][]float64 { return nil })
	tables(stData, "no rows", func() [][]float64 { return [][]float64{} })
	tables(empty, "one empty row", func() [][]float64 { return [][]float64{{}} })
	tables(empty, "one nil row", func() [][]float64 { return [][]float64{nil} })
	tables(empty, "three empty rows", func() [][]float64 { return [][]float64{{}, {}, {}} })
	shapes := [][2]int{{2, 1}, {2, 2}, {3, 2}, {2, 3}, {4, 3}, {53, 2}, {2, 53}, {64, 64}, {65, 64}, {105, 53}}
	if thorough {
		shapes = append(shapes, [][2]int{{3, 3}, {5, 4}, {52, 52}, {53, 53}, {104, 52}, {64, 65}, {2, 4097}, {4097, 2}}...)
	}
	for _, s := range shapes {
		r, c := s[0], s[1]
		rows := edges(r)
		if r <= 5 {
			rows = seqFrom(0, r-1)
		}
		for _, i := range rows {
			for _, w := range []int{0, 1, c - 1, c + 1, 2 * c} {
				if w == c || w < 0 {
					continue
				}
				st := stDim
				if i == 0 && w == 0 || w == 0 {
					st = union(stDim, empty)
				}
				tables(st, fmt.Sprintf("%dx%d with row %d of length %d", r, c, i, w), func() [][]float64 {
					a := label(r, c, 1).rows()
					a[i] = labelVec(w, 1)
					return a
				})
			}
			if i > 0 {
				tables(union(stDim, empty), fmt.Sprintf("%dx%d with nil row %d", r, c, i), func() [][]float64 {
					a := label(r, c, 1).rows()
					a[i] = nil
					return a
				})
			}
		}
	}
	// block layouts
	for _, s := range [][2]int{{1, 1}, {2, 3}, {52, 52}, {53, 2}, {53, 53}, {104, 52}, {105, 106}} {
		r, c := s[0], s[1]
		good := blockLayout(label(r, c, 1))
		l := fmt.Sprintf("NewBlockRealMatrixFromBlockData %dx%d", r, c)
		add(stDim, l+" without the last block", func() (bool, error) {
			return bare(linear.NewBlockRealMatrixFromBlockData(r, c, good[:len(good)-1]))
		})
		add(union(stDim, stNil), l+" nil", func() (bool, error) { return bare(linear.NewBlockRealMatrixFromBlockData(r, c, nil)) })
		for k := 1; k <= 3; k++ {
			add(stDim, fmt.Sprintf("%s with %d surplus blocks", l, k), func() (bool, error) {
				g := blockLayout(label(r, c, 1))
				for x := 0; x < k; x++ {
					g = append(g, g[len(g)-1])
				}
				return bare(linear.NewBlockRealMatrixFromBlockData(r, c, g))
			})
		}
		for b := range good {
			for _, d := range []int{-len(good[b]), -1, 1, len(good[b])} {
				add(stDim, fmt.Sprintf("%s with block %d of %+d entries", l, b, d), func() (bool, error) {
					g := blockLayout(label(r, c, 1))
					g[b] = make([]float64, len(g[b])+d)
					return bare(linear.NewBlockRealMatrixFromBlockData(r, c, g))
				})
			}
		}
		add(stDim, l+" for another shape", func() (bool, error) {
			return bare(linear.NewBlockRealMatrixFromBlockData(r+1, c, good))
		})
	}
	// slices
	for _, z := range []struct {
		n  string
		d  []float64
		st []int
	}{{"nil", nil, stNil}, {"empty", []float64{}, union(stData, stPositive)}} {
		add(z.st, "NewArray2DRowRealMatrixFromSlice "+z.n, func() (bool, error) { return bare(linear.NewArray2DRowRealMatrixFromSlice(z.d)) })
		add(z.st, "NewDiagonalMatrix copy "+z.n, func() (bool, error) { return bare(linear.NewDiagonalMatrix(z.d, true)) })
		add(z.st, "NewDiagonalMatrix "+z.n, func() (bool, error) { return bare(linear.NewDiagonalMatrix(z.d, false)) })
		add(z.st, "NewDiagonalMatrixFromSlice "+z.n, func() (bool, error) { return bare(linear.NewDiagonalMatrixFromSlice(z.d)) })
		add(z.st, "NewRealDiagonalMatrix "+z.n, func() (bool, error) { return bareM(linear.NewRealDiagonalMatrix(z.d)) })
		add(union(z.st, stPositive), "NewRealMatrixWithDiagonal "+z.n, func() (bool, error) { return bareM(linear.NewRealMatrixWithDiagonal(z.d)) })
	}
	add(stNil, "NewRealVector nil", func() (bool, error) { return bareV(linear.NewRealVector(nil)) })
	add(stNil, "NewArrayRealVectorFromSlice nil", func() (bool, error) { return bare(linear.NewArrayRealVectorFromSlice(nil)) })
	add(stNil, "NewArrayRealVector nil copy", func() (bool, error) { return bare(linear.NewArrayRealVector(nil, true)) })
	add(stNil, "NewArrayRealVector nil", func() (bool, error) { return bare(linear.NewArrayRealVector(nil, false)) })
	add(stNil, "NewArrayRealVectorCopy nil", func() (bool, error) { return bare(linear.NewArrayRealVectorCopy(nil)) })
	v := must(linear.NewArrayRealVectorFromSlice([]float64{1, 2}))
	add(stNil, "FromTwoArrayRealVector(nil,v)", func() (bool, error) { return bare(linear.NewArrayRealVectorFromTwoArrayRealVector(nil, v)) })
	add(stNil, "FromTwoArrayRealVector(v,nil)", func() (bool, error) { return bare(linear.NewArrayRealVectorFromTwoArrayRealVector(v, nil)) })
	add(stNil, "FromTwoRealVector(nil,v)", func() (bool, error) { return bare(linear.NewArrayRealVectorFromTwoRealVector(nil, v)) })
	add(stNil, "FromTwoRealVector(v,nil)", func() (bool, error) { return bare(linear.NewArrayRealVectorFromTwoRealVector(v, nil)) })
	return out
}

// blockLayout cuts a table into the documented block layout.
func blockLayout(m *Mat) [][]float64 {
	const b = 52
	var out [][]float64
	for i := 0; i < m.r; i += b {
		for j := 0; j < m.c; j += b {
			out = append(out, m.sub(i, min(i+b, m.r)-1, j, min(j+b, m.c)-1).a)
		}
	}
	return out
}

func (t *T) rejects(name string, st []int, f func() (bool, error)) {
	t.State(name)
	t.Do(func() string { return name }, func() {
		t.Op(1)
		ok := false
		rej := try(func() (err error) { ok, err = f(); return })
		t.Check(rej != nil || ok, "no object and no error")
		t.cause(rej, st)
	})
}

func checkC26(r *Run) {
	registerAccess(r, true)
	for _, k := range allVKinds {
		for n := 1; n <= 4; n++ {
			r.Group(fmt.Sprintf("vector/%v/%d", k, n), func(t *T) { vecAccesses(t, k, n, true) })
		}
	}
	r.Group("constructors", func(t *T) {
		for _, c := range badCtors(r.thorough) {
			t.rejects(c.name, c.st, c.run)
		}
	})
	// non-square input
	shapes := rectShapes(r.thorough)
	for _, k := range denseKinds {
		r.Group(fmt.Sprintf("non-square/%v", k), func(t *T) {
			for _, s := range shapes {
				if s[0] == s[1] {
					continue
				}
				m := ints(s[0], s[1], 3)
				l := fmt.Sprintf(" of %v %dx%d", k, s[0], s[1])
				x := mk(k, m)
				t.rejects("LU"+l, stSq, func() (bool, error) { return bare(linear.NewLUDecomposition(x)) })
				t.rejects("LU with threshold"+l, stSq, func() (bool, error) { return bare(linear.NewLUDecompositionWithThreshold(x, 1e-3)) })
				t.rejects("Cholesky"+l, stSq, func() (bool, error) { return bare(linear.NewDefaultCholeskyDecomposition(x)) })
				t.rejects("Cholesky with thresholds"+l, stSq, func() (bool, error) { return bare(linear.NewCholeskyDecomposition(x, 1, 1e-3)) })
				t.rejects("RectangularCholesky"+l, stSq, func() (bool, error) { return bare(linear.NewRectangularCholeskyDecomposition(x)) })
				t.rejects("Eigen"+l, stSq, func() (bool, error) { return bare(linear.NewEigenDecomposition(x)) })
				t.rejects("Hessenberg"+l, stSq, func() (bool, error) { return bare(linear.NewHessenbergTransformer(x)) })
				t.rejects("Schur"+l, stSq, func() (bool, error) { return bare(linear.NewSchurTransformer(x)) })
				t.rejects("TriDiagonal"+l, stSq, func() (bool, error) { return bare(linear.NewTriDiagonalTransformer(x)) })
				t.rejects("Trace"+l, stSq, func() (bool, error) { x.Trace(); return true, nil })
				t.rejects("Power"+l, stSq, func() (bool, error) { linear.Power(x, 2); return true, nil })
				t.Do(func() string { return "input after rejections" + l }, func() { t.expectMat("input", x, m) })
			}
		})
	}
	// tridiagonal input
	r.Group("tridiagonal input", func(t *T) {
		t.rejects("nil", stNil, func() (bool, error) { return bare(linear.NewEigenDecompositionFromTridiagonal(nil, nil)) })
		t.rejects("empty", stData, func() (bool, error) {
			return bare(linear.NewEigenDecompositionFromTridiagonal([]float64{}, []float64{}))
		})
		for n := 2; n <= 6; n++ {
			for l := 0; l < n-1; l++ {
				t.rejects(fmt.Sprintf("%d and %d", n, l), stDim, func() (bool, error) {
					return bare(linear.NewEigenDecompositionFromTridiagonal(labelVec(n, 1), labelVec(l, 1)))
				})
			}
		}
	})
	// Cholesky: every off-diagonal position broken; every leading minor non-positive
	ns := []int{2, 3, 4, 5, 53, 66}
	for _, n := range ns {
		for _, k := range denseKinds {
			r.Group(fmt.Sprintf("cholesky/%v/%d", k, n), func(t *T) {
				pos := seqFrom(0, n-1)
				if n > 5 {
					pos = edges(n)
				}
				for _, i := range pos {
					for _, j := range pos {
						for _, d := range []float64{-0.5, 1e-6, 3} {
							m := spd(n)
							m.set(i, j, m.at(i, j)+d)
							st := []int{linear.ESYMM}
							if i == j {
								// diagonal: subtracting more than the entry breaks positivity
								m = spd(n)
								m.set(i, i, m.at(i, i)*-math.Abs(d))
								st = []int{linear.ENSMALL}
							}
							t.rejects(fmt.Sprintf("(%d,%d) by %v", i, j, d), st, func() (bool, error) {
								return bare(linear.NewDefaultCholeskyDecomposition(mk(k, m)))
							})
							t.Do(func() string { return fmt.Sprintf("%v (%d,%d) by %v: error details", k, i, j, d) }, func() {
								_, err := linear.NewDefaultCholeskyDecomposition(mk(k, m))
								e, ok := err.(interface {
									Row() int
									Column() int
									Threshold() float64
								})
								if !ok {
									return
								}
								t.Op(1)
								t.Check(e.Row() == i && e.Column() == j || e.Row() == j && e.Column() == i, "error names entry (%d,%d), want (%d,%d)", e.Row(), e.Column(), i, j)
								want := linear.DEFAULT_RELATIVE_SYMMETRY_THRESHOLD
								if i == j {
									want = linear.DEFAULT_ABSOLUTE_POSITIVITY_THRESHOLD
								}
								t.Check(e.Threshold() == want, "error names threshold %v, want %v", e.Threshold(), want)
							})
							if i == j {
								t.rejects(fmt.Sprintf("rectangular (%d,%d) by %v", i, j, d), st, func() (bool, error) {
									return bare(linear.NewRectangularCholeskyDecomposition(mk(k, m)))
								})
							}
						}
					}
				}
				t.rejects("zero", []int{linear.ENSMALL}, func() (bool, error) { return bare(linear.NewDefaultCholeskyDecomposition(mk(k, newMat(n, n)))) })
				t.rejects("rectangular zero", []int{linear.ENSMALL}, func() (bool, error) {
					return bare(linear.NewRectangularCholeskyDecomposition(mk(k, newMat(n, n))))
				})
			})
		}
	}
	// rectangular Cholesky: the error names a row with an unusable pivot
	for n := 1; n <= 4; n++ {
		r.forAllMats("rectangular cholesky details", 1, n, []float64{-2, -0.25, 0, 0.5, 3}, func(t *T, dm *Mat) {
			d := dm.a
			t.Do(func() string { return fmt.Sprintf("rectangular Cholesky of diagonal %v", d) }, func() { rectDetails(t, n, d) })
		})
	}
	// tables without rows or columns: the message says which
	r.Group("missing rows or columns", func(t *T) {
		for _, k := range allKinds {
			for _, n := range []int{1, 2, 53} {
				for _, rows := range [][][]float64{{}, {{}}, {{}, {}}, {{}, {1}}} {
					t.State(fmt.Sprint(k, n, rows))
					t.Do(func() string { return fmt.Sprintf("%v %dx%d SetSubMatrix(%v)", k, n, n, rows) }, func() {
						x := mk(k, diagMat(labelVec(n, 1)))
						t.Op(1)
						rej := tryDo(func() { x.SetSubMatrix(rows, 0, 0) })
						t.cause(rej, stData)
						if k != KForeign {
							word := "column"
							if len(rows) == 0 {
								word = "row"
							}
							t.Check(strings.Contains(rej.Msg, "one "+word), "the message does not name the missing %s: %s", word, rej.Msg)
						}
						t.expectMat("receiver", x, diagMat(labelVec(n, 1)))
					})
				}
			}
		}
	})
	// singular systems and wrong heights, for every solver
	sing := func(t *T, k Kind, m *Mat, name string) {
		n := m.r
		stS := []int{linear.ESING}
		for _, s := range singularSolvers(mk(k, m), m) {
			l := s.name + " " + name
			t.Do(func() string { return l + " flag" }, func() {
				t.Check(!s.s.IsNonSingular(), "singular system reported non-singular")
			})
			for _, vk := range allVKinds {
				t.rejects(fmt.Sprintf("%s SolveVector(%v)", l, vk), stS, func() (bool, error) { s.s.SolveVector(mkv(vk, intVec(n, 1))); return true, nil })
				t.rejects(fmt.Sprintf("%s SolveVector(%v wrong)", l, vk), union(stS, stDim), func() (bool, error) { s.s.SolveVector(mkv(vk, intVec(n+1, 1))); return true, nil })
			}
			for _, kb := range denseKinds {
				t.rejects(fmt.Sprintf("%s SolveMatrix(%v)", l, kb), stS, func() (bool, error) { s.s.SolveMatrix(mk(kb, ints(n, 2, 1))); return true, nil })
				t.rejects(fmt.Sprintf("%s SolveMatrix(%v wrong)", l, kb), union(stS, stDim), func() (bool, error) { s.s.SolveMatrix(mk(kb, ints(n+2, 2, 1))); return true, nil })
			}
			t.rejects(l+" Inverse", stS, func() (bool, error) { s.s.Inverse(); return true, nil })
		}
	}
	for _, k := range allKinds {
		alpha := []float64{-1, 0, 1, 2}
		for n := 1; n <= 3; n++ {
			al := alpha
			if n == 3 {
				al = []float64{-1, 0, 1}
				if r.thorough {
					al = []float64{-1, 0, 1, 2}
				}
			}
			r.forAllMats("singular/"+k.String(), n, n, al, func(t *T, m *Mat) {
				if !fits(k, m) || det(m) != 0 {
					return
				}
				sing(t, k, m, m.String())
			})
		}
		r.Group("singular/"+k.String()+"/large", func(t *T) {
			for _, n := range []int{5, 52, 53, 66} {
				d := diagMat(labelVec(n, 2))
				d.set(n-1, n-1, 0)
				sing(t, k, d, fmt.Sprint("diag ", n))
				if k == KDiag {
					continue
				}
				sing(t, k, newMat(n, n), fmt.Sprint("zero ", n))
				z := ints(n, n, 4)
				for i := 0; i < n; i++ {
					z.set(i, n/2, 0)
				}
				sing(t, k, z, fmt.Sprint("zero column ", n))
			}
		})
		r.Group("height/"+k.String(), func(t *T) {
			for _, n := range []int{1, 2, 3, 5, 52, 53, 66} {
				m := nonsing(n)
				if k == KDiag {
					m = diagMat(labelVec(n, 2))
				}
				for _, h := range []int{1, n - 1, n + 1, 2 * n, n + 52} {
					if h == n || h < 1 {
						continue
					}
					for _, s := range allSolvers(mk(k, m), m) {
						l := fmt.Sprintf("%s n=%d height=%d", s.name, n, h)
						for _, vk := range allVKinds {
							t.rejects(fmt.Sprintf("%s %v", l, vk), stDim, func() (bool, error) { s.s.SolveVector(mkv(vk, intVec(h, 1))); return true, nil })
						}
						for _, kb := range denseKinds {
							t.rejects(fmt.Sprintf("%s %v", l, kb), stDim, func() (bool, error) { s.s.SolveMatrix(mk(kb, ints(h, n, 1))); return true, nil })
						}
					}
				}
			}
		})
	}
	// diagonal matrices refuse off-diagonal values, and singular inversion
	for _, n := range []int{2, 3, 53} {
		r.Group(fmt.Sprintf("diagonal/%d", n), func(t *T) {
			stBig := []int{linear.ENBIG}
			m := diagMat(labelVec(n, 2))
			pos := edges(n)
			for _, i := range pos {
				for _, j := range pos {
					if i == j {
						continue
					}
					for _, v := range []float64{1, -1, 1e-10, math.Inf(1), math.Inf(-1), math.NaN()} {
						do := func(name string, f func(x linear.RealMatrix)) {
							x := mk(KDiag, m)
							t.rejects(fmt.Sprintf("%s(%d,%d,%v)", name, i, j, v), stBig, func() (bool, error) { f(x); return true, nil })
							t.Do(func() string { return fmt.Sprintf("receiver after %s(%d,%d,%v)", name, i, j, v) }, func() { t.expectMat("receiver", x, m) })
						}
						do("SetEntry", func(x linear.RealMatrix) { x.SetEntry(i, j, v) })
						do("AddToEntry", func(x linear.RealMatrix) { x.AddToEntry(i, j, v) })
						row := m.row(i)
						row[j] = v
						do("SetRow", func(x linear.RealMatrix) { x.SetRow(i, row) })
						do("SetRowVector", func(x linear.RealMatrix) { x.SetRowVector(i, mkv(VArray, row)) })
						do("SetRowMatrix", func(x linear.RealMatrix) { x.SetRowMatrix(i, mk(KArray, fromRows([][]float64{row}))) })
						col := m.col(j)
						col[i] = v
						do("SetColumn", func(x linear.RealMatrix) { x.SetColumn(j, col) })
						do("SetColumnVector", func(x linear.RealMatrix) { x.SetColumnVector(j, mkv(VArray, col)) })
						do("SetColumnMatrix", func(x linear.RealMatrix) { x.SetColumnMatrix(j, mk(KArray, fromRows([][]float64{col}).T())) })
						sub := m.clone()
						sub.set(i, j, v)
						do("SetSubMatrix", func(x linear.RealMatrix) { x.SetSubMatrix(sub.rows(), 0, 0) })
					}
				}
				z := m.clone()
				z.set(i, i, 0)
				t.rejects(fmt.Sprintf("Inverse with zero at %d", i), []int{linear.ESING}, func() (bool, error) { mk(KDiag, z).(*linear.DiagonalMatrix).Inverse(); return true, nil })
				t.rejects(fmt.Sprintf("InverseWithThreshold with small at %d", i), []int{linear.ESING}, func() (bool, error) {
					z.set(i, i, -0.5)
					mk(KDiag, z).(*linear.DiagonalMatrix).InverseWithThreshold(0.75)
					return true, nil
				})
			}
		})
	}
	// unsupported queries of decompositions
	r.forAllMats("eigen queries", 2, 2, rangeAlpha(-2, 2), func(t *T, m *Mat) {
		e, err := linear.NewEigenDecomposition(mk(KArray, m))
		if err != nil {
			t.Do(func() string { return m.String() }, func() { t.Failf("rejected: %v", err) })
			return
		}
		tr, d := m.at(0, 0)+m.at(1, 1), det(m)
		if tr*tr-4*d < 0 {
			t.rejects("Solver of "+m.String(), []int{linear.EUNSUP}, func() (bool, error) { return e.Solver() != nil, nil })
		}
		if m.at(0, 1) != m.at(1, 0) || d < 0 || tr < 0 {
			t.rejects("SquareRoot of "+m.String(), []int{linear.EUNSUP}, func() (bool, error) { return e.SquareRoot() != nil, nil })
		}
	})
	r.Group("covariance", func(t *T) {
		for _, s := range [][2]int{{1, 1}, {2, 2}, {3, 2}, {2, 3}, {53, 4}} {
			m := ints(s[0], s[1], 5)
			m.set(0, 0, 7)
			d := must(linear.NewSingularValueDecomposition(mk(KArray, m)))
			for _, f := range []float64{1.001, 2, math.Inf(1)} {
				t.rejects(fmt.Sprintf("Covariance of %v with cutoff %v times the norm", m, f), []int{linear.ENBIG}, func() (bool, error) {
					d.Covariance(d.SingularValues()[0] * f)
					return true, nil
				})
			}
		}
	})
}

type namedSolver struct {
	name string
	s    linear.DecompositionSolver
}

// allSolvers gives every solver that applies to a square matrix.
func allSolvers(x linear.RealMatrix, m *Mat) []namedSolver {
	out := singularSolvers(x, m)
	out = append(out, namedSolver{"SVD", must(linear.NewSingularValueDecomposition(x)).Solver()})
	if isSym(m) && posDef(m) {
		out = append(out, namedSolver{"Cholesky", must(linear.NewDefaultCholeskyDecomposition(x)).Solver()})
	}
	return out
}

// singularSolvers gives the solvers that reject singular systems.
func singularSolvers(x linear.RealMatrix, m *Mat) []namedSolver {
	out := []namedSolver{
		{"LU", must(linear.NewLUDecomposition(x)).Solver()},
		{"QR", must(linear.NewQRDecompositionWithThreshold(x, 1e-9)).Solver()},
		{"RRQR", must(linear.NewRRQRDecompositionWithThreshold(x, 1e-9)).Solver()},
	}
	if isSym(m) {
		out = append(out, namedSolver{"Eigen", must(linear.NewEigenDecomposition(x)).Solver()})
	}
	return out
}

// rectDetails: the error of a refused diagonal matrix names a negative entry
// (or, with nothing positive, an entry that is not positive), its value and
// the threshold.
func rectDetails(t *T, n int, d []float64) {
	_, err := linear.NewRectangularCholeskyDecompositionWithThreshold(mk(KArray, diagMat(d)), 0.125)
	t.Op(1)
	neg, pos := false, false
	for _, v := range d {
		neg = neg || v < 0
		pos = pos || v > 0
	}
	if !neg && pos {
		t.Check(err == nil, "%v rejected: %v", d, err)
		return
	}
	e, ok := err.(interface {
		Row() int
		Column() int
		Argument() float64
		Threshold() float64
	})
	if !ok {
		return
	}
	i := e.Row()
	t.Check(i >= 0 && i < n && e.Column() == i && d[i] <= 0 && (!pos || d[i] < 0), "diagonal %v: the error names row %d", d, i)
	t.Check(e.Argument() == d[i] && e.Threshold() == 0.125, "diagonal %v: the error names value %v and threshold %v for row %d", d, e.Argument(), e.Threshold(), i)
}
