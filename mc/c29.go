package main

import (
	"fmt"
	"math"

	"github.com/jtejido/linear"
)

func init() {
	register("C29", "termination",
		"every matrix up to the stated order over alphabets of non-finite, huge, tiny, subnormal and ordinary values, one extreme value at every position of larger structured matrices, every tridiagonal pair of diagonals; every decomposition, reduction, accessor and solve must end with a result of the promised dimensions or a rejection of the library's type",
		checkC29)
}

// ends runs f, which must return or be rejected with the library's error type.
func (t *T) ends(name string, f func() error) {
	rej := try(f)
	t.Op(1)
	t.Check(rej == nil || rej.Typed, "%s fails: %v", name, rej)
}

func (t *T) shape(what string, m linear.RealMatrix, r, c int) error {
	t.Check(m != nil && m.RowDimension() == r && m.ColumnDimension() == c, "%s is not %dx%d", what, r, c)
	return nil
}

// endsAll drives everything that accepts the matrix.
func (t *T) endsAll(k Kind, m *Mat) {
	r, c := m.r, m.c
	p := min(r, c)
	x := mk(k, m)
	b := ints(r, 2, 3)
	solver := func(name string, f func() linear.DecompositionSolver) {
		var s linear.DecompositionSolver
		t.ends(name, func() error { s = f(); return nil })
		if s == nil {
			return
		}
		t.ends(name+" IsNonSingular", func() error { s.IsNonSingular(); return nil })
		t.ends(name+" SolveVector", func() error {
			v := s.SolveVector(mkv(VArray, b.col(0)))
			t.Check(v.Dimension() == c, "%s SolveVector has dimension %d, want %d", name, v.Dimension(), c)
			return nil
		})
		t.ends(name+" SolveMatrix", func() error { return t.shape(name+" SolveMatrix", s.SolveMatrix(mk(KArray, b)), c, 2) })
		t.ends(name+" Inverse", func() error { return t.shape(name+" Inverse", s.Inverse(), c, r) })
	}
	t.ends("SVD", func() error {
		d, err := linear.NewSingularValueDecomposition(x)
		if err != nil {
			return err
		}
		t.shape("SVD U", d.U(), r, p)
		t.shape("SVD S", d.S(), p, p)
		t.shape("SVD V", d.V(), c, p)
		d.Rank()
		d.Norm()
		d.ConditionNumber()
		d.InverseConditionNumber()
		t.ends("SVD Covariance", func() error { return t.shape("SVD Covariance", d.Covariance(0), c, c) })
		solver("SVD solver", d.Solver)
		return nil
	})
	t.ends("QR", func() error {
		d, err := linear.NewQRDecomposition(x)
		if err != nil {
			return err
		}
		t.shape("QR Q", d.Q(), r, r)
		t.shape("QR R", d.R(), r, c)
		t.shape("QR H", d.H(), r, c)
		if r >= c {
			solver("QR solver", d.Solver)
		}
		return nil
	})
	t.ends("RRQR", func() error {
		d, err := linear.NewRRQRDecomposition(x)
		if err != nil {
			return err
		}
		t.shape("RRQR Q", d.Q(), r, r)
		t.shape("RRQR R", d.R(), r, c)
		t.shape("RRQR P", d.P(), c, c)
		n := d.Rank(1e-9)
		t.Check(n >= 0 && n <= p, "RRQR rank is %d", n)
		if r >= c {
			solver("RRQR solver", d.Solver)
		}
		return nil
	})
	t.ends("BiDiagonal", func() error {
		d, err := linear.NewBiDiagonalTransformer(x)
		if err != nil {
			return err
		}
		t.shape("BiDiagonal U", d.U(), r, r)
		t.shape("BiDiagonal B", d.B(), r, c)
		return t.shape("BiDiagonal V", d.V(), c, c)
	})
	if r == c {
		t.endsSquare(x, r, solver)
	}
	t.expectMat("input", x, m)
}

func (t *T) endsSquare(x linear.RealMatrix, n int, solver func(string, func() linear.DecompositionSolver)) {
	t.ends("LU", func() error {
		d, err := linear.NewLUDecomposition(x)
		if err != nil {
			return err
		}
		for _, f := range []linear.RealMatrix{d.L(), d.U(), d.P()} {
			if usable(f) {
				t.shape("LU factor", f, n, n)
			}
		}
		d.Determinant()
		solver("LU solver", d.Solver)
		return nil
	})
	t.ends("Cholesky", func() error {
		d, err := linear.NewDefaultCholeskyDecomposition(x)
		if err != nil {
			return err
		}
		t.shape("Cholesky L", d.L(), n, n)
		d.Determinant()
		solver("Cholesky solver", d.Solver)
		return nil
	})
	t.ends("RectangularCholesky", func() error {
		d, err := linear.NewRectangularCholeskyDecomposition(x)
		if err != nil {
			return err
		}
		return t.shape("RectangularCholesky root", d.RootMatrix(), n, d.Rank())
	})
	t.ends("Hessenberg", func() error {
		d, err := linear.NewHessenbergTransformer(x)
		if err != nil {
			return err
		}
		t.shape("Hessenberg P", d.P(), n, n)
		return t.shape("H", d.H(), n, n)
	})
	t.ends("Schur", func() error {
		d, err := linear.NewSchurTransformer(x)
		if err != nil {
			return err
		}
		t.shape("Schur P", d.P(), n, n)
		return t.shape("Schur T", d.T(), n, n)
	})
	t.ends("TriDiagonal", func() error {
		d, err := linear.NewTriDiagonalTransformer(x)
		if err != nil {
			return err
		}
		t.shape("TriDiagonal Q", d.Q(), n, n)
		return t.shape("TriDiagonal T", d.T(), n, n)
	})
	t.ends("Eigen", func() error {
		d, err := linear.NewEigenDecomposition(x)
		return t.endsEigen(d, err, n, solver)
	})
}

func (t *T) endsEigen(d *linear.EigenDecomposition, err error, n int, solver func(string, func() linear.DecompositionSolver)) error {
	if err != nil {
		return err
	}
	t.shape("Eigen V", d.V(), n, n)
	t.shape("Eigen D", d.D(), n, n)
	t.Check(len(d.RealEigenvalues()) == n && len(d.ImagEigenvalues()) == n, "%d and %d eigenvalue parts", len(d.RealEigenvalues()), len(d.ImagEigenvalues()))
	d.Determinant()
	t.ends("Eigen SquareRoot", func() error { return t.shape("Eigen SquareRoot", d.SquareRoot(), n, n) })
	solver("Eigen solver", d.Solver)
	return nil
}

func checkC29(r *Run) {
	nan, inf, mx, sub := math.NaN(), math.Inf(1), math.MaxFloat64, 5e-324
	one := func(k Kind) func(t *T, m *Mat) {
		return func(t *T, m *Mat) {
			if !fits(k, m) {
				return
			}
			t.Fresh()
			t.Do(func() string { return fmt.Sprintf("%v %v", k, m) }, func() { t.endsAll(k, m) })
		}
	}
	all := []float64{0, 1, -2, nan, inf, -inf, mx, -mx, 1e200, -1e-200, sub, 0x1p-1022}
	type sp struct {
		r, c int
		al   []float64
	}
	list := []sp{{1, 1, all}, {1, 2, all}, {2, 1, all}, {1, 3, all}, {3, 1, all}, {2, 2, all}}
	for i, al := range [][]float64{{0, 1, nan, inf}, {0, 1, mx, -mx}, {0, 1, -inf, sub}, {0, -1, 1e200, -1e-200}, {1, 0, nan, sub}} {
		list = append(list, sp{2, 3, al}, sp{3, 2, al})
		if i < 3 || r.deep {
			list = append(list, sp{3, 3, al})
		} else {
			list = append(list, sp{3, 3, al[:3]})
		}
		if r.deep {
			list = append(list, sp{2, 4, al}, sp{4, 2, al}, sp{3, 4, al[1:]}, sp{4, 3, al[1:]})
		}
	}
	for _, v := range []float64{nan, inf, mx, sub, 1e170, 0x1p-540} {
		list = append(list, sp{4, 4, []float64{0, v}})
		if r.deep {
			list = append(list, sp{4, 4, []float64{1, v}}, sp{4, 5, []float64{0, v}}, sp{5, 4, []float64{0, v}})
		}
	}
	for i, s := range list {
		r.forAllMats(fmt.Sprintf("extreme %d", i), s.r, s.c, s.al, one(KArray))
		if s.r*s.c <= 4 {
			for _, k := range []Kind{KBlock, KDiag, KForeign} {
				r.forAllMats(fmt.Sprintf("extreme %v %d", k, i), s.r, s.c, s.al, one(k))
			}
		}
	}
	// symmetric matrices (the symmetric eigendecomposition and Cholesky)
	forAllSym(r, "symmetric extreme", 3, []float64{0, 1, -2, nan, inf, mx, sub}, func(t *T, m *Mat) {
		t.Fresh()
		t.Do(func() string { return m.String() }, func() { t.endsSquare(mk(KArray, m), 3, func(string, func() linear.DecompositionSolver) {}) })
	})
	al4 := [][]float64{{0, 1, nan}, {0, inf, 1}}
	if r.deep {
		al4 = append(al4, []float64{0, mx, sub}, []float64{1, -mx, nan})
	}
	for i, al := range al4 {
		forAllSym(r, fmt.Sprintf("symmetric extreme %d", i), 4, al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return m.String() }, func() { t.endsSquare(mk(KArray, m), 4, func(string, func() linear.DecompositionSolver) {}) })
		})
	}
	// the same pattern at every position of larger matrices
	for _, n := range []int{5, 8, 53} {
		for _, c := range []int{n, n - 2, n + 2} {
			for _, v := range []float64{nan, inf, -inf, mx, -mx, sub, 1e160} {
				r.Group(fmt.Sprintf("one %v in %dx%d", v, n, c), func(t *T) {
					for fi, base := range []*Mat{ints(n, c, 7), newMat(n, c), spdLike(n, c)} {
						is, js := seqInts(n), seqInts(c)
						if n > 8 {
							is, js = edges(n), edges(c)
							if fi > 0 && !r.deep {
								is, js = is[:2], js[len(js)-2:]
							}
						}
						for _, i := range is {
							for _, j := range js {
								for _, symm := range []bool{false, true} {
									if symm && (c != n || i == j) {
										continue
									}
									m := base.clone()
									m.set(i, j, v)
									if symm {
										m.set(j, i, v)
									}
									t.Fresh()
									t.Do(func() string {
										return fmt.Sprintf("family %d %dx%d with %v at (%d,%d) symmetric=%v", fi, n, c, v, i, j, symm)
									}, func() { t.endsAll(KArray, m) })
								}
							}
						}
					}
				})
			}
		}
	}
	// tridiagonal diagonals
	for n := 1; n <= 3; n++ {
		al := all
		if n == 3 {
			al = []float64{0, 1, nan, inf, mx, sub}
			if r.deep {
				al = all
			}
		}
		r.forAllMats("tridiagonal", 1, 2*n-1, al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return fmt.Sprintf("main %v secondary %v", m.a[:n], m.a[n:]) }, func() {
				t.ends("Eigen of tridiagonal", func() error {
					d, err := linear.NewEigenDecompositionFromTridiagonal(append([]float64{}, m.a[:n]...), append([]float64{}, m.a[n:]...))
					return t.endsEigen(d, err, n, func(name string, f func() linear.DecompositionSolver) {
						t.ends(name, func() error { f().IsNonSingular(); return nil })
					})
				})
			})
		})
	}
}

// forAllSym enumerates every symmetric matrix over an alphabet.
func forAllSym(r *Run, name string, n int, alphabet []float64, f func(t *T, m *Mat)) {
	r.forAllMats(name, 1, n*(n+1)/2, alphabet, func(t *T, v *Mat) {
		m := newMat(n, n)
		k := 0
		for i := 0; i < n; i++ {
			for j := 0; j <= i; j++ {
				m.set(i, j, v.a[k])
				m.set(j, i, v.a[k])
				k++
			}
		}
		f(t, m)
	})
}

// spdLike is positive definite where square.
func spdLike(r, c int) *Mat {
	m := newMat(r, c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			m.set(i, j, 1)
			if i == j {
				m.set(i, j, float64(r+3))
			}
		}
	}
	return m
}
