package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/jtejido/linear"
)

func init() {
	register("C21", "symmetric eigendecomposition",
		"every symmetric integer matrix up to the stated order and alphabet, every tridiagonal pair of diagonals over an alphabet, power-of-two scalings, structured families past two storage blocks in every representation; oracle: orthonormality, reconstruction, order, exact characteristic polynomial, exact determinant, square of the root",
		checkC21)
	register("C22", "general eigendecomposition",
		"every square integer matrix up to the stated order and alphabet (defective, nilpotent, permutation, repeated eigenvalues included), scalings from 2^-200 to 2^200, structured families; oracle: exact characteristic polynomial, A*V = V*D, conjugate pairs, exact discriminant, exact determinant",
		checkC22)
	register("C23", "orthogonal reductions",
		"every integer matrix up to the stated shape and alphabet, scalings, structured families past two storage blocks in every representation; oracle: orthogonality, the promised pattern, reconstruction; rejection of non-square input",
		checkC23)
}

// eigBasics reads and cross-checks the accessors of a decomposition of order n.
func (t *T) eigBasics(e *linear.EigenDecomposition, n int) (re, im []float64, v, d *Mat) {
	re, im = e.RealEigenvalues(), e.ImagEigenvalues()
	t.Check(len(re) == n && len(im) == n, "%d real and %d imaginary parts, want %d", len(re), len(im), n)
	v, d = t.dims("V", e.V(), n, n), t.dims("D", e.D(), n, n)
	vt := t.dims("VT", e.VT(), n, n)
	t.transposeOf("VT", vt, v)
	t.Op(6)
	for i := 0; i < n; i++ {
		t.Check(e.RealEigenvalueAt(i) == re[i] && e.ImagEigenvalue(i) == im[i], "eigenvalue %d differs between accessors", i)
		t.Check(!math.IsNaN(re[i]) && !math.IsInf(re[i], 0) && !math.IsNaN(im[i]) && !math.IsInf(im[i], 0), "eigenvalue %d is %v + %vi", i, re[i], im[i])
		t.expectVec(fmt.Sprintf("eigenvector %d", i), e.EigenvectorAt(i), v.col(i))
	}
	return
}

func (t *T) charMatch(re, im []float64, c []float64, scale, tol float64) {
	q := polyOf(re, im)
	n := len(re)
	for k := range c {
		w := math.Max(math.Pow(scale, float64(n-k)), 1e-300)
		t.Check(math.Abs(real(q[k])-c[k]) <= tol*w && math.Abs(imag(q[k])) <= tol*w,
			"eigenvalues %v + %vi: characteristic coefficient %d is %v, want %v", re, im, k, q[k], c[k])
	}
}

func rowSumNorm(m *Mat) float64 {
	mx := 0.0
	for i := 0; i < m.r; i++ {
		s := 0.0
		for _, v := range m.row(i) {
			s += math.Abs(v)
		}
		mx = math.Max(mx, s)
	}
	return mx
}

// symForm checks order, orthonormality and reconstruction.
func (t *T) symForm(e *linear.EigenDecomposition, m *Mat) []float64 {
	n := m.r
	re, im, v, d := t.eigBasics(e, n)
	s := rowSumNorm(m)
	tol := 1e-14 * float64(n+5)
	for i := 0; i < n; i++ {
		t.Check(im[i] == 0, "a symmetric matrix has the eigenvalue %v + %vi", re[i], im[i])
		t.Check(i == 0 || re[i] <= re[i-1], "eigenvalues are not in decreasing order: %v", re)
	}
	t.Check(!e.HasComplexEigenvalues(), "a symmetric matrix has complex eigenvalues")
	t.near("D", d, diagMat(re), 0)
	t.orthoCols("V", v, tol)
	t.near("V*D*VT", v.mul(d).mul(v.T()), m, tol*s)
	return re
}

func (t *T) symEig(e *linear.EigenDecomposition, m *Mat, name string) {
	n, s := m.r, rowSumNorm(m)
	re := t.symForm(e, m)
	unit := smallestNonzero(m)
	mi := scaled(m, 1/unit)
	if n <= 5 {
		sre := make([]float64, n)
		for i := range re {
			sre[i] = re[i] / unit
		}
		c := charPoly(mi)
		t.charMatch(sre, make([]float64, n), c, math.Max(s/unit, 1), 1e-11)
		w := math.Pow(s, float64(n))
		if dd := c[0]; w > 0 && !math.IsInf(w, 0) {
			if n%2 == 1 {
				dd = -dd
			}
			dd *= math.Pow(unit, float64(n))
			t.Check(math.Abs(e.Determinant()-dd) <= 1e-11*w, "determinant is %v, want %v", e.Determinant(), dd)
		}
		// definiteness, exactly: all signs alternate strictly / weakly
		pd, psd := true, true
		for k := 0; k < n; k++ {
			x := c[k]
			if (n-k)%2 == 1 {
				x = -x
			}
			pd = pd && x > 0
			psd = psd && x >= 0
		}
		t.rootCheck(e, m, s, pd, psd)
	} else {
		switch name {
		case "spd", "tri", "identity":
			t.rootCheck(e, m, s, true, true)
			if n <= 65 {
				dd := det(m)
				t.Check(math.Abs(e.Determinant()-dd) <= 1e-9*math.Abs(dd), "determinant is %v, want %v", e.Determinant(), dd)
			}
		case "negspd", "antidiag":
			t.rootCheck(e, m, s, false, false)
		}
	}
}

func (t *T) rootCheck(e *linear.EigenDecomposition, m *Mat, s float64, pd, psd bool) {
	var root linear.RealMatrix
	rej := tryDo(func() { root = e.SquareRoot() })
	t.Op(1)
	switch {
	case pd:
		t.Check(rej == nil, "square root of a positive definite matrix: %v", rej)
		q := t.dims("square root", root, m.r, m.r)
		t.near("square of the root", q.mul(q), m, 1e-13*float64(m.r+5)*s)
		t.near("transposed root", q.T(), q, 1e-13*float64(m.r+5)*math.Sqrt(s))
	case !psd:
		t.Check(rej != nil && rej.Typed && rej.Status == linear.EUNSUP, "square root of an indefinite matrix: %v", rej)
	default:
		// singular: the sign of the eigenvalue zero is decided by rounding
		neg := false
		for _, l := range e.RealEigenvalues() {
			neg = neg || l <= 0
		}
		if neg {
			t.Check(rej != nil && rej.Typed && rej.Status == linear.EUNSUP, "square root in spite of the eigenvalues %v: %v", e.RealEigenvalues(), rej)
		} else {
			t.Check(rej == nil, "no square root in spite of the eigenvalues %v: %v", e.RealEigenvalues(), rej)
		}
	}
}

func checkC21(r *Run) {
	r.symInputs(func(t *T, name string, k Kind, m *Mat) {
		x := mk(k, m)
		e, err := linear.NewEigenDecomposition(x)
		t.Op(1)
		t.Check(err == nil, "rejected: %v", err)
		t.symEig(e, m, name)
		t.expectMat("input", x, m)
	})
	gradedSym(r)
	type sp struct {
		n  int
		al []float64
	}
	list := []sp{{1, rangeAlpha(-3, 3)}, {2, rangeAlpha(-3, 3)}, {3, rangeAlpha(-2, 2)}, {4, rangeAlpha(-1, 1)}}
	if r.thorough {
		list = append(list, sp{5, rangeAlpha(-1, 1)}, sp{6, []float64{0, 1}}, sp{4, []float64{-2, 0, 1, 2}})
	}
	one := func(t *T, main, sec []float64, scale float64) {
		n := len(main)
		m := newMat(n, n)
		for i := range main {
			m.set(i, i, main[i]*scale)
			if i > 0 {
				m.set(i, i-1, sec[i-1]*scale)
				m.set(i-1, i, sec[i-1]*scale)
			}
		}
		a, b := make([]float64, n), make([]float64, n-1)
		for i := range a {
			a[i] = main[i] * scale
		}
		for i := range b {
			b[i] = sec[i] * scale
		}
		a0, b0 := append([]float64{}, a...), append([]float64{}, b...)
		e, err := linear.NewEigenDecompositionFromTridiagonal(a, b)
		t.Op(1)
		t.Check(err == nil, "rejected: %v", err)
		t.symEig(e, m, "")
		t.Check(sameSlice(a, a0) && sameSlice(b, b0), "the diagonals were modified")
	}
	for _, s := range list {
		r.forAllMats(fmt.Sprintf("tridiagonal/%d", s.n), 1, 2*s.n-1, s.al, func(t *T, v *Mat) {
			t.Fresh()
			t.Do(func() string { return v.String() }, func() { one(t, v.a[:s.n], v.a[s.n:], 1) })
		})
	}
	for _, sc := range r.scales() {
		r.forAllMats(fmt.Sprintf("tridiagonal-scaled/%g", sc), 1, 5, rangeAlpha(-1, 1), func(t *T, v *Mat) {
			t.Do(func() string { return fmt.Sprintf("%v * %g", v, sc) }, func() { one(t, v.a[:3], v.a[3:], sc) })
		})
	}
	for _, n := range numSizes(r.thorough) {
		r.Group(fmt.Sprintf("tridiagonal-families/%d", n), func(t *T) {
			for f := 0; f < 4; f++ {
				t.Do(func() string { return fmt.Sprintf("family %d size %d", f, n) }, func() {
					a, b := make([]float64, n), make([]float64, n-1)
					for i := range a {
						switch f {
						case 0:
							a[i] = 2
						case 1:
							a[i] = float64(i % 3)
						case 2:
							a[i] = math.Abs(float64(n/2 - i)) // Wilkinson
						}
					}
					for i := range b {
						switch f {
						case 0:
							b[i] = -1
						case 1:
							b[i] = float64(i % 2) // splits
						case 2:
							b[i] = 1
						case 3:
							b[i] = 1
						}
					}
					one(t, a, b, 1)
				})
			}
		})
	}
}

// gradedSym explores symmetric matrices whose entries span many orders of
// magnitude, given as a matrix and (where tridiagonal) by the two diagonals.
func gradedSym(r *Run) {
	h := []float64{0, 1, -1, 0x1p-20, -0x1.8p-39, 0x1p-43, 0x1p-60}
	for _, n := range []int{2, 3} {
		al := h
		if n == 3 && !r.thorough {
			al = []float64{0, 1, 0x1p-20, -0x1.8p-39, 0x1p-43}
		}
		r.forSym(fmt.Sprintf("graded/%d", n), n, al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return "graded " + m.String() }, func() {
				e, err := linear.NewEigenDecomposition(mk(KArray, m))
				t.Op(1)
				t.Check(err == nil, "rejected: %v", err)
				t.symForm(e, m)
				if n == 2 || m.at(0, 2) == 0 {
					var main, sec []float64
					for i := 0; i < n; i++ {
						main = append(main, m.at(i, i))
						if i > 0 {
							sec = append(sec, m.at(i, i-1))
						}
					}
					e, err := linear.NewEigenDecompositionFromTridiagonal(main, sec)
					t.Op(1)
					t.Check(err == nil, "rejected: %v", err)
					t.symForm(e, m)
				}
			})
		})
	}
	// long tridiagonals with one weak link at every place, and graded ones
	for _, n := range []int{4, 7, 12} {
		r.Group(fmt.Sprintf("graded/links/%d", n), func(t *T) {
			for _, w := range []float64{0, 0x1p-10, 0x1p-30, 0x1.4p-40, 0x1p-43, 0x1p-49, 0x1p-60, 0x1p-300} {
				for at := 0; at < n-1; at++ {
					for f := 0; f < 4; f++ {
						main, sec := make([]float64, n), make([]float64, n-1)
						for i := range main {
							main[i] = []float64{2, float64(i % 3), math.Ldexp(1, -6*i), math.Ldexp(-3, 6*(i-n))}[f]
						}
						for i := range sec {
							sec[i] = []float64{-1, 1, math.Ldexp(1, -6*i-3), math.Ldexp(1, 6*(i-n)+2)}[f]
						}
						sec[at] = w
						m := newMat(n, n)
						for i := range main {
							m.set(i, i, main[i])
							if i > 0 {
								m.set(i, i-1, sec[i-1])
								m.set(i-1, i, sec[i-1])
							}
						}
						t.StateF(m.a)
						t.Do(func() string { return fmt.Sprintf("family %d link %d is %v: %v", f, at, w, m) }, func() {
							e, err := linear.NewEigenDecompositionFromTridiagonal(main, sec)
							t.Op(2)
							t.Check(err == nil, "rejected: %v", err)
							t.symForm(e, m)
							e, err = linear.NewEigenDecomposition(mk(KArray, m))
							t.Check(err == nil, "rejected: %v", err)
							t.symForm(e, m)
						})
					}
				}
			}
		})
	}
}

// ---------------------------------------------------------------- C22

// nearlySym explores matrices that are symmetric but for entries of many small
// sizes: whether they count as symmetric is up to the implementation, but what
// is returned must be a decomposition of the matrix that was given.
func nearlySym(r *Run) {
	for _, n := range []int{2, 3} {
		al := rangeAlpha(-1, 2)
		if n == 3 && !r.thorough {
			al = rangeAlpha(0, 2)
		}
		r.forSym(fmt.Sprintf("nearly-symmetric/%d", n), n, al, func(t *T, b *Mat) {
			t.Fresh()
			for k := 8; k <= 56; k += 4 {
				for at := 0; at < n*n; at++ {
					if at/n == at%n {
						continue
					}
					m := b.clone()
					m.a[at] += math.Ldexp(1, -k)
					t.Do(func() string { return fmt.Sprintf("%v with entry %d off by 2^-%d", b, at, k) }, func() {
						e, err := linear.NewEigenDecomposition(mk(KArray, m))
						t.Op(1)
						t.Check(err == nil, "rejected: %v", err)
						t.genForm(e, m, 2e-12)
					})
				}
			}
		})
	}
}

func isSym(m *Mat) bool {
	for i := 0; i < m.r; i++ {
		for j := 0; j < i; j++ {
			if m.at(i, j) != m.at(j, i) {
				return false
			}
		}
	}
	return true
}

// hasComplexExact decides by discriminant whether the spectrum has a
// non-real pair; sure is false on repeated roots (decided by rounding).
func hasComplexExact(m *Mat) (complexPair, sure bool) {
	c := charPoly(m)
	switch m.r {
	case 1:
		return false, true
	case 2:
		d := c[1]*c[1] - 4*c[0]
		return d < 0, d != 0
	case 3:
		b, cc, d := c[2], c[1], c[0]
		disc := 18*b*cc*d - 4*b*b*b*d + b*b*cc*cc - 4*cc*cc*cc - 27*d*d
		return disc < 0, disc != 0
	}
	return false, false
}

// genForm checks pairs, block form and A*V = V*D with the given relative tolerance.
func (t *T) genForm(e *linear.EigenDecomposition, m *Mat, tol float64) (re, im []float64) {
	n := m.r
	var v, d *Mat
	re, im, v, d = t.eigBasics(e, n)
	s := math.Max(rowSumNorm(m), rowSumNorm(m.T()))
	// conjugate pairs are adjacent, positive imaginary part first; D holds the
	// blocks, in which an imaginary part that is rounding noise may be omitted
	want := diagMat(re)
	low, high := 0.9e-12*math.Min(1, s/float64(n)), 1.1e-12*math.Min(1, float64(n*n)*s)
	has := false
	for i := 0; i < n; i++ {
		if im[i] > 0 {
			t.Check(i+1 < n && im[i+1] == -im[i] && re[i+1] == re[i], "eigenvalue %v + %vi at %d lacks its conjugate neighbour (%v, %v)", re[i], im[i], i, re, im)
			if im[i] > high || im[i] > low && d.at(i, i+1) != 0 {
				has = true
				want.set(i, i+1, im[i])
				want.set(i+1, i, -im[i])
			}
			i++
		} else {
			t.Check(im[i] == 0, "eigenvalue %v + %vi at %d lacks its conjugate neighbour (%v, %v)", re[i], im[i], i, re, im)
		}
	}
	t.near("D", d, want, 0)
	t.Check(e.HasComplexEigenvalues() == has, "HasComplexEigenvalues is %v for the imaginary parts %v", e.HasComplexEigenvalues(), im)
	av, vd := m.mul(v), v.mul(d)
	for j := 0; j < n; j++ {
		cn := 0.0
		for i := 0; i < n; i++ {
			cn = math.Max(cn, math.Abs(v.at(i, j)))
		}
		pairn := cn
		if im[j] != 0 {
			o := j + 1
			if im[j] < 0 {
				o = j - 1
			}
			for i := 0; i < n; i++ {
				pairn = math.Max(pairn, math.Abs(v.at(i, o)))
			}
		}
		t.Check(pairn > 0, "eigenvector %d is zero", j)
		for i := 0; i < n; i++ {
			t.Check(math.Abs(av.at(i, j)-vd.at(i, j)) <= tol*s*pairn, "A*V and V*D differ at (%d,%d): %v against %v (column norm %v)", i, j, av.at(i, j), vd.at(i, j), pairn)
		}
	}
	return re, im
}

func (t *T) genEig(e *linear.EigenDecomposition, m *Mat, scale float64) {
	n := m.r
	s := math.Max(rowSumNorm(m), rowSumNorm(m.T()))
	re, im := t.genForm(e, m, 1e-10)
	if n <= 5 {
		mi := scaled(m, 1/scale)
		c := charPoly(mi)
		sre, sim := make([]float64, n), make([]float64, n)
		for i := range re {
			sre[i], sim[i] = re[i]/scale, im[i]/scale
		}
		ns := math.Max(s/scale, 1)
		t.charMatch(sre, sim, c, ns, 1e-10)
		dd := c[0]
		if n%2 == 1 {
			dd = -dd
		}
		t.Check(math.Abs(math.Log2(scale))*float64(n) > 1000 || math.Abs(e.Determinant()/math.Pow(scale, float64(n))-dd) <= 1e-10*math.Pow(ns, float64(n)), "determinant is %v, want %v times %g^%d", e.Determinant(), dd, scale, n)
		if cx, sure := hasComplexExact(mi); sure && n <= 3 {
			t.Check(e.HasComplexEigenvalues() == cx, "HasComplexEigenvalues is %v, the discriminant says %v (%v + %vi)", !cx, cx, re, im)
		}
	}
	_ = cmplx.Abs
}

func checkC22(r *Run) {
	one := func(t *T, k Kind, m *Mat, scale float64) {
		x := mk(k, m)
		var e *linear.EigenDecomposition
		rej := try(func() (err error) { e, err = linear.NewEigenDecomposition(x); return })
		t.Op(1)
		if rej != nil {
			t.Check(false, "rejected: %v", rej)
			return
		}
		t.genEig(e, m, scale)
		t.expectMat("input", x, m)
	}
	nearlySym(r)
	r.gradedSquare(func(t *T, m *Mat) {
		e, err := linear.NewEigenDecomposition(mk(KArray, m))
		t.Op(1)
		t.Check(err == nil, "rejected: %v", err)
		t.genForm(e, m, 2e-12)
	})
	type sp struct {
		n  int
		al []float64
	}
	list := []sp{{1, rangeAlpha(-5, 5)}, {2, rangeAlpha(-5, 5)}, {3, rangeAlpha(-1, 1)}, {3, []float64{0, 1, 2}}, {4, []float64{0, 1}}}
	if r.thorough {
		list = append(list, sp{3, rangeAlpha(-2, 2)}, sp{4, []float64{-1, 1}}, sp{2, []float64{-7, -2, -1, 0, 1, 3, 5, 10, 100}})
	}
	if r.deep {
		list = append(list, sp{4, rangeAlpha(-1, 1)}, sp{2, rangeAlpha(-12, 12)})
	}
	for li, s := range list {
		r.forAllMats(fmt.Sprintf("exhaustive%d", li), s.n, s.n, s.al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return m.String() }, func() { one(t, KArray, m, 1) })
		})
	}
	r.blockMatrices(func(t *T, name string, m *Mat) {
		t.Fresh()
		t.Do(func() string { return name + " " + m.String() }, func() { one(t, KArray, m, 1) })
	})
	for _, sc := range []float64{math.Ldexp(1, -450), math.Ldexp(1, 450), math.Ldexp(1, -200), math.Ldexp(1, -80), math.Ldexp(1, -40), 1.0 / (1 << 20), 1.0 / 1024, 1.0 / 16, 16, 1024, 1 << 20, 1 << 40, math.Ldexp(1, 200)} {
		r.forAllMats(fmt.Sprintf("scaled%g", sc), 2, 2, rangeAlpha(-2, 2), func(t *T, m *Mat) {
			t.Do(func() string { return fmt.Sprintf("%v * %g", m, sc) }, func() { one(t, KArray, scaled(m, sc), sc) })
		})
		r.forAllMats(fmt.Sprintf("scaled%g", sc), 3, 3, []float64{-1, 0, 2}, func(t *T, m *Mat) {
			t.Do(func() string { return fmt.Sprintf("%v * %g", m, sc) }, func() { one(t, KArray, scaled(m, sc), sc) })
		})
	}
	for _, n := range numSizes(r.thorough) {
		for _, k := range denseKinds {
			if k == KShared {
				continue
			}
			r.Group(fmt.Sprintf("families/%v/%d", k, n), func(t *T) {
				for _, fm := range squareFamilies(n) {
					t.State(fm.name)
					t.Do(func() string { return fmt.Sprintf("%v %s %d", k, fm.name, n) }, func() { one(t, k, fm.m, 1) })
				}
			})
		}
	}
}

// ---------------------------------------------------------------- C23

// gradedSquare enumerates matrices whose entries span many orders of magnitude.
func (r *Run) gradedSquare(f func(t *T, m *Mat)) {
	type sp struct {
		n  int
		al []float64
	}
	list := []sp{{2, []float64{0, 1, -1, 0x1p-20, -0x1.8p-39, 0x1p-43, 0x1p-60, 0x1p-300}}, {3, []float64{0, 1, -0x1.8p-39}}, {3, []float64{-1, 2, 0x1.4p-42}}}
	if r.thorough {
		list = append(list, sp{3, []float64{1, 0x1p-20, 0x1p-300}}, sp{3, []float64{1, -1, 0x1p-43}})
	}
	if r.deep {
		list = append(list, sp{3, []float64{0, 1, -0x1p-20, 0x1.8p-41}})
	}
	for li, s := range list {
		r.forAllMats(fmt.Sprintf("graded%d", li), s.n, s.n, s.al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return "graded " + m.String() }, func() { f(t, m) })
		})
	}
	// one weak sub-diagonal entry in a matrix of order 4 to 6 in Hessenberg form
	for n := 4; n <= 6; n++ {
		r.Group(fmt.Sprintf("graded/link/%d", n), func(t *T) {
			for _, w := range []float64{0, 0x1p-20, 0x1p-33, 0x1.4p-40, 0x1p-43, 0x1p-49, 0x1p-60} {
				for at := 0; at < n-1; at++ {
					for salt := 0; salt < 12; salt++ {
						m := ints(n, n, 70+salt)
						for i := 0; i < n; i++ {
							for j := 0; j+1 < i; j++ {
								m.set(i, j, 0)
							}
						}
						if salt%3 == 0 { // equal diagonal
							for i := 0; i < n; i++ {
								m.set(i, i, 1)
							}
						}
						m.set(at+1, at, w)
						t.StateF(m.a)
						t.Do(func() string { return "graded " + m.String() }, func() { f(t, m) })
					}
				}
			}
		})
	}
}

// gradedSym is gradedSquare for symmetric matrices.
func (r *Run) gradedSym(f func(t *T, m *Mat)) {
	for i, al := range [][]float64{{0, 1, -1, 0x1p-20, -0x1.8p-39, 0x1p-43, 0x1p-60, 0x1p-300}, {0, 1, 0x1p-20, -0x1.8p-39, 0x1p-43}, {0, 1, 0x1.4p-40}} {
		n := i + 2
		if n == 4 && !r.thorough {
			continue
		}
		r.forSym("graded", n, al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return "graded " + m.String() }, func() { f(t, m) })
		})
	}
}

// blockMatrices enumerates matrices of order 4 to 6 composed of 2x2 (and 1x1)
// diagonal blocks, with and without coupling, plain and under a unimodular
// similarity transformation, and companion matrices: repeated and clustered
// complex pairs, and real eigenvalues between complex ones, occur throughout.
func (r *Run) blockMatrices(f func(t *T, name string, m *Mat)) {
	two := func(t *T, a []float64, b []float64, c float64) *Mat {
		n := 2 + len(b)/2
		if len(b) == 1 {
			n = 3
		}
		m := newMat(n, n)
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				m.set(i, j, a[2*i+j])
			}
		}
		k := n - 2
		for i := 0; i < k; i++ {
			for j := 0; j < k; j++ {
				m.set(2+i, 2+j, b[k*i+j])
			}
			m.set(0, 2+i, c)
			m.set(1, 2+i, -c)
		}
		return m
	}
	sim := func(m *Mat) *Mat { // P*m*P^-1 with P unit lower times unit upper, all integer
		o := m.clone()
		for i := 1; i < o.r; i++ { // row i += row i-1, column i-1 -= column i
			for j := 0; j < o.r; j++ {
				o.set(i, j, o.at(i, j)+o.at(i-1, j))
			}
			for j := 0; j < o.r; j++ {
				o.set(j, i-1, o.at(j, i-1)-o.at(j, i))
			}
		}
		for i := o.r - 2; i >= 0; i-- {
			for j := 0; j < o.r; j++ {
				o.set(i, j, o.at(i, j)+o.at(i+1, j))
			}
			for j := 0; j < o.r; j++ {
				o.set(j, i+1, o.at(j, i+1)-o.at(j, i))
			}
		}
		return o
	}
	al := rangeAlpha(-1, 1)
	if r.deep {
		al = rangeAlpha(-2, 2)
	}
	r.forAllMats("blocks", 1, 8, al, func(t *T, v *Mat) {
		for _, c := range []float64{0, 1} {
			m := two(t, v.a[:4], v.a[4:], c)
			f(t, "direct sum", m)
			f(t, "similar to a direct sum", sim(m))
		}
	})
	for _, n := range []int{3, 4, 5} {
		ca := rangeAlpha(-3, 3)
		if n == 5 {
			ca = rangeAlpha(-1, 1)
		}
		if r.deep {
			ca = rangeAlpha(-5, 5)
			if n == 5 {
				ca = rangeAlpha(-3, 3)
			}
		}
		r.forAllMats("companion", 1, n, ca, func(t *T, v *Mat) {
			m := newMat(n, n)
			for i := 0; i < n; i++ {
				m.set(0, i, v.a[i])
				if i > 0 {
					m.set(i, i-1, 1)
				}
			}
			f(t, "companion", m)
			f(t, "companion transposed", m.T())
		})
	}
	// three blocks, the same block twice or thrice
	r.forAllMats("blocks3", 1, 6, rangeAlpha(-1, 1), func(t *T, v *Mat) {
		a := v.a[:4]
		for _, c := range []float64{0, 1} {
			m := newMat(5, 5)
			for b := 0; b < 2; b++ {
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						m.set(2*b+i, 2*b+j, a[2*i+j])
					}
				}
			}
			m.set(4, 4, v.a[4])
			m.set(0, 4, c)
			m.set(1, 3, v.a[5])
			f(t, "block twice", m)
			f(t, "similar to block twice", sim(m))
		}
	})
}

func checkC23(r *Run) {
	tol := func(m *Mat) float64 { return 2e-14 * float64(m.r+m.c+4) }
	square := func(t *T, name string, k Kind, m *Mat) {
		n := m.r
		s := math.Max(rowSumNorm(m), rowSumNorm(m.T()))
		x := mk(k, m)
		h, err := linear.NewHessenbergTransformer(x)
		t.Check(err == nil, "Hessenberg: rejected: %v", err)
		p, pt, hm := t.dims("Hessenberg P", h.P(), n, n), t.dims("Hessenberg PT", h.PT(), n, n), t.dims("H", h.H(), n, n)
		t.Op(4)
		t.transposeOf("Hessenberg PT", pt, p)
		t.orthoCols("Hessenberg P", p, tol(m))
		t.zeroWhere("H", hm, 0, func(i, j int) bool { return i > j+1 })
		t.near("P*H*PT", p.mul(hm).mul(pt), m, tol(m)*s)
		var sh *linear.SchurTransformer
		if rej := try(func() (err error) { sh, err = linear.NewSchurTransformer(x); return }); rej != nil {
			t.Check(false, "Schur: rejected: %v", rej)
			return
		}
		p, pt, tm := t.dims("Schur P", sh.P(), n, n), t.dims("Schur PT", sh.PT(), n, n), t.dims("T", sh.T(), n, n)
		t.Op(4)
		t.transposeOf("Schur PT", pt, p)
		t.orthoCols("Schur P", p, tol(m)*4)
		small := 1e-13 * float64(n+4) * s
		t.zeroWhere("T", tm, small, func(i, j int) bool { return i > j+1 })
		for i := 0; i+2 < n; i++ {
			t.Check(math.Abs(tm.at(i+1, i)) <= small || math.Abs(tm.at(i+2, i+1)) <= small, "T has two consecutive sub-diagonal entries (%v, %v)", tm.at(i+1, i), tm.at(i+2, i+1))
		}
		for i := 0; i+1 < n; i++ { // a 2x2 block holds a conjugate pair
			if math.Abs(tm.at(i+1, i)) > small {
				d := (tm.at(i, i) - tm.at(i+1, i+1)) / 2
				t.Check(d*d+tm.at(i+1, i)*tm.at(i, i+1) <= small*s, "T has a 2x2 block with real eigenvalues at %d", i)
			}
		}
		t.near("P*T*PT", p.mul(tm).mul(pt), m, 4*tol(m)*s)
		t.expectMat("input", x, m)
	}
	r.squareInputs(square)
	r.gradedSquare(func(t *T, m *Mat) { square(t, "graded", KArray, m) })
	r.blockMatrices(func(t *T, name string, m *Mat) {
		t.Fresh()
		t.Do(func() string { return name + " " + m.String() }, func() { square(t, name, KArray, m) })
	})
	tri := func(t *T, name string, k Kind, m *Mat) {
		n := m.r
		s := rowSumNorm(m)
		x := mk(k, m)
		tr, err := linear.NewTriDiagonalTransformer(x)
		t.Check(err == nil, "tridiagonal: rejected: %v", err)
		q, qt, tm := t.dims("Q", tr.Q(), n, n), t.dims("QT", tr.QT(), n, n), t.dims("T", tr.T(), n, n)
		t.Op(4)
		t.transposeOf("QT", qt, q)
		t.orthoCols("Q", q, tol(m))
		t.zeroWhere("T", tm, 0, func(i, j int) bool { return i > j+1 || j > i+1 })
		t.expectMat("T transposed", tr.T().Transpose(), tm)
		t.near("Q*T*QT", q.mul(tm).mul(qt), m, tol(m)*s)
		md, sd := tr.MainDiagonalRef(), tr.SecondaryDiagonalRef()
		t.Check(len(md) == n && len(sd) == n-1, "diagonals of length %d and %d", len(md), len(sd))
		for i := range md {
			t.Check(md[i] == tm.at(i, i) && (i == 0 || sd[i-1] == tm.at(i, i-1)), "diagonals differ from T at %d", i)
		}
		t.expectMat("input", x, m)
	}
	r.symInputs(tri)
	r.gradedSym(func(t *T, m *Mat) { tri(t, "graded", KArray, m) })
	bi := func(t *T, name string, k Kind, m *Mat) {
		x := mk(k, m)
		b, err := linear.NewBiDiagonalTransformer(x)
		t.Check(err == nil, "bidiagonal: rejected: %v", err)
		u, bm, v := t.dims("U", b.U(), m.r, m.r), t.dims("B", b.B(), m.r, m.c), t.dims("V", b.V(), m.c, m.c)
		t.Op(4)
		t.orthoCols("U", u, tol(m))
		t.orthoCols("V", v, tol(m))
		t.Check(b.IsUpperBiDiagonal() == (m.r >= m.c), "IsUpperBiDiagonal is %v for %dx%d", b.IsUpperBiDiagonal(), m.r, m.c)
		up := m.r >= m.c
		t.zeroWhere("B", bm, 0, func(i, j int) bool {
			if up {
				return j < i || j > i+1
			}
			return j > i || j < i-1
		})
		t.near("U*B*VT", u.mul(bm).mul(v.T()), m, tol(m)*math.Max(rowSumNorm(m), rowSumNorm(m.T())))
		md, sd := b.MainDiagonalRef(), b.SecondaryDiagonalRef()
		p := min(m.r, m.c)
		t.Check(len(md) == p && len(sd) == p-1, "diagonals of length %d and %d", len(md), len(sd))
		for i := range md {
			t.Check(md[i] == bm.at(i, i), "main diagonal differs from B at %d", i)
			if i > 0 {
				w := bm.at(i-1, i)
				if !up {
					w = bm.at(i, i-1)
				}
				t.Check(sd[i-1] == w, "secondary diagonal differs from B at %d", i)
			}
		}
		t.expectMat("input", x, m)
	}
	r.rectInputs(bi)
	r.gradedSquare(func(t *T, m *Mat) { bi(t, "graded", KArray, m) })
	for _, s := range [][2]int{{2, 3}, {3, 2}} {
		r.forAllMats("graded", s[0], s[1], []float64{0, 1, -1, -0x1.8p-39, 0x1p-300}, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return "graded " + m.String() }, func() { bi(t, "graded", KArray, m) })
		})
	}
	for _, s := range [][2]int{{1, 2}, {2, 1}, {2, 3}, {3, 2}, {53, 52}, {1, 60}} {
		r.Group(fmt.Sprintf("nonsquare/%dx%d", s[0], s[1]), func(t *T) {
			for _, k := range denseKinds {
				t.Do(func() string { return fmt.Sprintf("%v", k) }, func() {
					x := mk(k, ints(s[0], s[1], 3))
					for _, f := range []func() error{func() error { _, e := linear.NewHessenbergTransformer(x); return e },
						func() error { _, e := linear.NewSchurTransformer(x); return e },
						func() error { _, e := linear.NewTriDiagonalTransformer(x); return e }} {
						rej := try(f)
						t.Op(1)
						t.Check(rej != nil && rej.Typed && rej.Status == linear.ESQMAT, "non-square matrix: %v", rej)
					}
				})
			}
		})
	}
}
