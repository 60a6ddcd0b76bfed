package main

import (
	"fmt"
	"math"

	"github.com/jtejido/linear"
)

func init() {
	register("C15", "LU",
		"every square integer matrix up to the stated order and alphabet, power-of-two scalings, thresholds around the pivots, and structured families up to 2+ storage blocks in every representation; oracle: exact integer determinant, P*A = L*U, pivot rule, singularity by exact determinant / enumerated pivot sequences",
		checkC15)
	register("C16", "Cholesky",
		"every symmetric integer matrix up to the stated order and alphabet (decision by exact leading minors), every position and size of a symmetry defect around the threshold, positivity thresholds around the smallest pivot, structured families up to 2+ storage blocks in every representation",
		checkC16)
	register("C17", "rectangular Cholesky",
		"Gram matrices of every integer matrix up to the stated shape (exact rank), every indefinite symmetric matrix with a negative diagonal entry, several thresholds, all symmetric permutations of structured matrices; oracle: root*rootT = input, exact rank",
		checkC17)
}

// ---------------------------------------------------------------- C15

// minPivots enumerates the smallest pivot magnitude of partial-pivoting
// elimination for every way of breaking ties between equally large pivots.
func minPivots(m *Mat, f func(v float64)) {
	n := m.r
	var rec func(a *Mat, col int, low float64)
	rec = func(a *Mat, col int, low float64) {
		if col == n {
			f(low)
			return
		}
		best := 0.0
		for i := col; i < n; i++ {
			best = math.Max(best, math.Abs(a.at(i, col)))
		}
		if best <= 1e-13*m.maxAbs() {
			f(best)
			return
		}
		for p := col; p < n; p++ {
			if math.Abs(a.at(p, col)) < best*(1-1e-12) {
				continue
			}
			b := a.clone()
			for j := 0; j < n; j++ {
				x, y := b.at(p, j), b.at(col, j)
				b.set(col, j, x)
				b.set(p, j, y)
			}
			for i := col + 1; i < n; i++ {
				q := b.at(i, col) / b.at(col, col)
				for j := col; j < n; j++ {
					b.set(i, j, b.at(i, j)-q*b.at(col, j))
				}
			}
			rec(b, col+1, math.Min(low, best))
		}
	}
	rec(m, 0, math.Inf(1))
}

func hadamard(m *Mat) float64 {
	h := 1.0
	for i := 0; i < m.r; i++ {
		s := 0.0
		for _, v := range m.row(i) {
			s += v * v
		}
		h *= math.Sqrt(s)
	}
	return h
}

// luFactors checks the factors of a decomposition reported non-singular.
func (t *T) luFactors(lu *linear.LUDecomposition, m *Mat) {
	n := m.r
	l, u, p := t.dims("L", lu.L(), n, n), t.dims("U", lu.U(), n, n), t.dims("P", lu.P(), n, n)
	piv := lu.Pivot()
	t.Op(4)
	t.Check(len(piv) == n, "pivot has %d entries, want %d", len(piv), n)
	seen := make([]bool, n)
	for i, x := range piv {
		t.Check(x >= 0 && x < n && !seen[x], "pivot %v is not a permutation", piv)
		seen[x] = true
		for j := 0; j < n; j++ {
			w := 0.0
			if j == x {
				w = 1
			}
			t.Check(p.at(i, j) == w, "P(%d,%d) is %v, pivot is %v", i, j, p.at(i, j), piv)
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			x := l.at(i, j)
			switch {
			case i == j:
				t.Check(x == 1, "L(%d,%d) is %v, want 1", i, j, x)
			case j > i:
				t.Check(x == 0, "L(%d,%d) is %v, want 0", i, j, x)
			default:
				t.Check(math.Abs(x) <= 1+1e-12, "multiplier L(%d,%d) is %v, above 1", i, j, x)
			}
			if j < i {
				t.Check(u.at(i, j) == 0, "U(%d,%d) is %v, want 0", i, j, u.at(i, j))
			}
		}
	}
	pa := newMat(n, n)
	for i, x := range piv {
		for j := 0; j < n; j++ {
			pa.set(i, j, m.at(x, j))
		}
	}
	lu1 := l.mul(u)
	t.near("L*U against P*A", lu1, pa, 1e-14*float64(n*n)*math.Max(m.maxAbs(), u.maxAbs()))
	abs := l.mapf(math.Abs).mul(u.mapf(math.Abs))
	for i, v := range lu1.a { // entry by entry, in the unit of each entry
		t.Check(math.Abs(v-pa.a[i]) <= 1e-14*float64(n+2)*abs.a[i]+1e-300, "L*U against P*A: entry (%d,%d) is %v, want %v (terms up to %v)", i/n, i%n, v, pa.a[i], abs.a[i])
	}
}

func (t *T) luSingular(lu *linear.LUDecomposition, n int) {
	t.Check(lu.L() == nil && lu.U() == nil && lu.P() == nil, "a singular decomposition offers factors")
	t.Check(lu.Determinant() == 0, "determinant of a singular decomposition is %v", lu.Determinant())
	s := lu.Solver()
	t.Check(!s.IsNonSingular(), "a singular decomposition claims to be non-singular")
	b := make([]float64, n)
	for name, f := range map[string]func(){
		"SolveVector": func() { s.SolveVector(mkv(VArray, b)) },
		"SolveMatrix": func() { s.SolveMatrix(mk(KArray, newMat(n, 1))) },
		"Inverse":     func() { s.Inverse() }} {
		rej := tryDo(f)
		t.Check(rej != nil && rej.Typed && rej.Status == linear.ESING, "%s on a singular decomposition: %v", name, rej)
	}
	t.Op(8)
}

func checkC15(r *Run) {
	r.squareInputs(func(t *T, name string, k Kind, m *Mat) {
		n := m.r
		sc := 1.0
		if name == "scaled" {
			for sc = 1; m.maxAbs() != 0 && m.maxAbs()*sc > 2; sc /= 2 {
			}
			for ; m.maxAbs() != 0 && m.maxAbs()*sc < 1; sc *= 2 {
			}
		}
		x := mk(k, m)
		th := 1e-11 / sc
		lu, err := linear.NewLUDecompositionWithThreshold(x, th)
		t.Check(err == nil, "square matrix rejected: %v", err)
		t.Op(1)
		d := det(scaled(m, sc)) // exact: integers (scaling by powers of two)
		if name == "scaled" {   // entries are integers times 2^k after normalisation: compute on the integers
			mi := scaled(m, 1/smallestNonzero(m))
			d = det(mi)
			for i := 0; i < n; i++ {
				d *= smallestNonzero(m) * sc
			}
		}
		sing := !lu.Solver().IsNonSingular()
		if n <= 8 || name == "spd" || name == "tri" || name == "nonsing" || name == "identity" || name == "cyclic" {
			t.Check(sing == (d == 0), "reported singular=%v but the determinant is %v", sing, d)
		}
		if sing {
			t.luSingular(lu, n)
		} else {
			t.luFactors(lu, m)
			for i := 0; i < n; i++ {
				d /= sc
			}
			g := lu.Determinant()
			if !math.IsInf(d, 0) {
				t.Check(math.Abs(g-d) <= 1e-9*math.Abs(d)+1e-13*hadamard(m), "determinant is %v, want %v", g, d)
			}
		}
		if n <= 3 {
			minPivotsAt(t, x, m)
			// default threshold
			lo, hi := pivotRange(m)
			if lu, err := linear.NewLUDecomposition(x); err != nil {
				t.Failf("square matrix rejected: %v", err)
			} else {
				t.decided(lu, "default", 1e-11, lo, hi)
			}
		}
		t.expectMat("input", x, m)
	})
	// rows or columns in different units
	unitList := []struct {
		n  int
		al []float64
	}{{2, rangeAlpha(-3, 3)}, {3, []float64{0, 1}}}
	if r.deep {
		unitList = append(unitList, unitList[1])
		unitList[2].al = rangeAlpha(-1, 1)
	}
	for li, s := range unitList {
		r.forAllMats(fmt.Sprintf("units%d", li), s.n, s.n, s.al, func(t *T, mi *Mat) {
			d := det(mi)
			if d == 0 {
				return
			}
			for _, p := range unitPatterns(s.n, 60) {
				for _, m := range []*Mat{inUnits(mi, nil, p), inUnits(mi, p, nil)} {
					t.Fresh()
					t.Do(func() string { return fmt.Sprintf("%v scaled by 2^%v: %v", mi, p, m) }, func() {
						lu, err := linear.NewLUDecompositionWithThreshold(mk(KArray, m), 0)
						t.Check(err == nil, "rejected: %v", err)
						t.Check(lu.Solver().IsNonSingular(), "reported singular with threshold 0")
						t.luFactors(lu, m)
						want := d
						for _, e := range p {
							want = math.Ldexp(want, e)
						}
						g := lu.Determinant()
						t.Check(math.Abs(g-want) <= 1e-9*math.Abs(want), "determinant is %v, want %v", g, want)
						t.Op(2)
					})
				}
			}
		})
	}
	// both ends of the number range: small integers times a power of two
	// (the last one leaves 14 bits below the unit)
	for _, e := range []int{1000, -1000, -1060} {
		list := []struct {
			n  int
			al []float64
		}{{1, rangeAlpha(-3, 3)}, {2, rangeAlpha(-4, 4)}, {3, rangeAlpha(-1, 1)}}
		if r.deep {
			list = append(list, list[2])
			list[3].al = rangeAlpha(-1, 2)
		}
		for li, s := range list {
			r.forAllMats(fmt.Sprintf("extreme%d/%d", e, li), s.n, s.n, s.al, func(t *T, mi *Mat) {
				if det(mi) == 0 {
					return
				}
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%v * 2^%d", mi, e) }, func() {
					m := mi.mapf(func(v float64) float64 { return math.Ldexp(v, e) })
					lu, err := linear.NewLUDecompositionWithThreshold(mk(KArray, m), 0)
					t.Check(err == nil, "rejected: %v", err)
					t.Check(lu.Solver().IsNonSingular(), "reported singular with threshold 0")
					n := m.r
					l, u := t.dims("L", lu.L(), n, n), t.dims("U", lu.U(), n, n)
					pa, piv := newMat(n, n), lu.Pivot()
					for i, x := range piv {
						for j := 0; j < n; j++ {
							t.Check(j >= i || math.Abs(l.at(i, j)) <= 1+1e-3, "multiplier L(%d,%d) is %v, above 1", i, j, l.at(i, j))
							pa.set(i, j, m.at(x, j))
						}
					}
					t.near("L*U against P*A", l.mul(u), pa, 1e-13*m.maxAbs()+64*5e-324)
					x0 := ints(n, 1, 17)
					b := m.mul(x0)
					got := rdv(lu.Solver().SolveVector(mkv(VArray, b.a)))
					t.nearVec("solution", got, x0.a, map[bool]float64{true: 0.05, false: 1e-9}[e < -1050])
					t.near("solution", rd(lu.Solver().SolveMatrix(mk(KArray, b))), x0, map[bool]float64{true: 0.05, false: 1e-9}[e < -1050])
					t.Op(6)
				})
			})
		}
	}
	for _, s := range [][2]int{{1, 2}, {2, 1}, {2, 3}, {3, 2}, {53, 52}, {1, 60}} {
		r.Group(fmt.Sprintf("nonsquare/%dx%d", s[0], s[1]), func(t *T) {
			for _, k := range denseKinds {
				t.Do(func() string { return fmt.Sprintf("%v", k) }, func() {
					x := mk(k, ints(s[0], s[1], 3))
					for _, f := range []func() error{func() error { _, e := linear.NewLUDecomposition(x); return e },
						func() error { _, e := linear.NewLUDecompositionWithThreshold(x, 0.5); return e }} {
						rej := try(f)
						t.Op(1)
						t.Check(rej != nil && rej.Typed && rej.Status == linear.ESQMAT, "non-square matrix: %v", rej)
					}
				})
			}
		})
	}
}

func smallestNonzero(m *Mat) float64 {
	// the common power-of-two unit of a scaled integer matrix
	if m.maxAbs() == 0 {
		return 1
	}
	u := math.Ldexp(1, 1000)
	for {
		ok := true
		for _, v := range m.a {
			if q := v / u; q != math.Trunc(q) || q == 0 && v != 0 {
				ok = false
				break
			}
		}
		if ok {
			return u
		}
		u /= 2
	}
}

func pivotRange(m *Mat) (lo, hi float64) {
	lo, hi = math.Inf(1), 0
	minPivots(m, func(v float64) { lo, hi = math.Min(lo, v), math.Max(hi, v) })
	return
}

// decided checks the verdict when every admissible pivot sequence gives the same one.
func (t *T) decided(lu *linear.LUDecomposition, what string, th, lo, hi float64) {
	t.Op(1)
	sing := !lu.Solver().IsNonSingular()
	if hi < th*(1-1e-9) {
		t.Check(sing, "threshold %s %v: smallest pivot %v, reported non-singular", what, th, hi)
	}
	if lo > th*(1+1e-9) {
		t.Check(!sing, "threshold %s %v: smallest pivot %v, reported singular", what, th, lo)
	}
}

func minPivotsAt(t *T, x linear.RealMatrix, m *Mat) {
	lo, hi := pivotRange(m)
	if hi == 0 || math.IsInf(lo, 1) {
		return
	}
	for _, th := range []float64{lo * 0.5, lo * 0.999, hi * 1.001, hi * 2, hi, lo} {
		lu, err := linear.NewLUDecompositionWithThreshold(x, th)
		t.Check(err == nil, "square matrix rejected: %v", err)
		t.decided(lu, "", th, lo, hi)
		if m.r == 1 && th == lo {
			t.Check(lu.Solver().IsNonSingular(), "a pivot equal to the threshold is not below it")
		}
		if lu.Solver().IsNonSingular() {
			t.luFactors(lu, m)
		} else {
			t.luSingular(lu, m.r)
		}
	}
}

// ---------------------------------------------------------------- C16

// leading minors of an integer matrix
func minors(m *Mat) []float64 {
	out := make([]float64, m.r)
	for k := 1; k <= m.r; k++ {
		out[k-1] = det(m.sub(0, k-1, 0, k-1))
	}
	return out
}

// pivotsOf gives the Cholesky pivots (ratios of leading minors) up to and including the first non-positive one.
func pivotsOf(m *Mat) []float64 {
	var out []float64
	prev := 1.0
	for k := 1; k <= m.r; k++ {
		d := det(m.sub(0, k-1, 0, k-1))
		out = append(out, d/prev)
		if d <= 0 {
			break
		}
		prev = d
	}
	return out
}

func (t *T) cholFactors(c *linear.CholeskyDecomposition, m *Mat) {
	n := m.r
	l, lt := t.dims("L", c.L(), n, n), t.dims("LT", c.LT(), n, n)
	t.Op(2)
	t.transposeOf("LT", lt, l)
	t.zeroWhere("L", l, 0, func(i, j int) bool { return j > i })
	for i := 0; i < n; i++ {
		t.Check(l.at(i, i) > 0, "L(%d,%d) is %v, not positive", i, i, l.at(i, i))
	}
	ll := l.mul(lt)
	t.near("L*LT", ll, m, 1e-14*float64(n+2)*m.maxAbs())
	for i := 0; i < n; i++ { // entry by entry, in the units of its row and column
		for j := 0; j < n; j++ {
			t.Check(math.Abs(ll.at(i, j)-m.at(i, j)) <= 1e-14*float64(n+2)*math.Sqrt(m.at(i, i))*math.Sqrt(m.at(j, j))+1e-300, "L*LT: entry (%d,%d) is %v, want %v", i, j, ll.at(i, j), m.at(i, j))
		}
	}
	p := 1.0
	for i := 0; i < n; i++ {
		p *= l.at(i, i) * l.at(i, i)
	}
	g := c.Determinant()
	t.Check(g == p || math.Abs(g-p) <= 1e-12*float64(n)*math.Abs(p), "determinant is %v, the squared diagonal gives %v", g, p)
	s := c.Solver()
	t.Check(s.IsNonSingular(), "a positive definite matrix is reported singular")
}

func checkC16(r *Run) {
	r.symInputs(func(t *T, name string, k Kind, m *Mat) {
		x := mk(k, m)
		u := smallestNonzero(m)
		mi := scaled(m, 1/u)
		n := m.r
		if n > 8 && name != "spd" && name != "tri" && name != "identity" && name != "zero" && name != "negspd" && name != "antidiag" {
			t.expectMat("input", x, m)
			c, err := linear.NewCholeskyDecomposition(x, 1e-15, 1e-10)
			if err == nil {
				t.cholFactors(c, m)
			}
			return
		}
		var piv []float64
		if n <= 8 {
			piv = pivotsOf(mi)
		} else if name == "spd" || name == "tri" || name == "identity" {
			c, err := linear.NewDefaultCholeskyDecomposition(x)
			t.Check(err == nil, "positive definite matrix rejected: %v", err)
			t.cholFactors(c, m)
			t.expectMat("input", x, m)
			if n <= 60 {
				d := det(m)
				t.Check(c.Determinant() == d || math.Abs(c.Determinant()-d) <= 1e-9*d, "determinant is %v, want %v", c.Determinant(), d)
			}
			return
		} else {
			piv = []float64{mi.at(0, 0)}
		}
		pd, low := true, math.Inf(1)
		for _, p := range piv {
			pd = pd && p > 0
			low = math.Min(low, p)
		}
		try1 := func(th float64, want bool) {
			c, err := linear.NewCholeskyDecomposition(x, 1e-15, th)
			t.Op(1)
			if !want {
				t.Check(err != nil, "threshold %v: accepted, pivots %v (unit %v)", th, piv, u)
				rej := rejOf(err, false)
				t.Check(rej.Typed && rej.Status == linear.ENSMALL, "not positive definite: %v", rej)
				return
			}
			t.Check(err == nil, "threshold %v: rejected (%v), pivots %v (unit %v)", th, err, piv, u)
			t.cholFactors(c, m)
			d := det(mi)
			for i := 0; i < n; i++ {
				d *= u
			}
			t.Check(c.Determinant() == d || math.Abs(c.Determinant()-d) <= 1e-9*d, "determinant is %v, want %v", c.Determinant(), d)
		}
		if pd {
			try1(low*u*0.5, true)
			try1(low*u*1.5, false)
			if n == 1 || m.isDiag() {
				try1(low*u, false) // at the threshold
				try1(math.Nextafter(low*u, 0), true)
			}
			if u == 1 {
				c, err := linear.NewDefaultCholeskyDecomposition(x)
				t.Check(err == nil && c != nil, "positive definite matrix rejected: %v", err)
				t.cholFactors(c, m)
			}
		} else {
			try1(1e-10*u, false)
			if low < -0.01 && m.isDiag() {
				// a negative threshold admits negative pivots no further than the square root: only the decision is specified
				try1(-1e-10*u, false)
			}
			if u == 1 {
				_, err := linear.NewDefaultCholeskyDecomposition(x)
				t.Check(err != nil && rejOf(err, false).Status == linear.ENSMALL, "not positive definite: %v", err)
			}
		}
		t.expectMat("input", x, m)
	})
	// rows and columns in different units
	unitList := []struct {
		n  int
		al []float64
	}{{2, rangeAlpha(-3, 3)}, {3, rangeAlpha(-1, 2)}}
	if r.deep {
		unitList = append(unitList, unitList[0])
		unitList[2].n, unitList[2].al = 4, []float64{0, 1, 2}
	}
	for li, s := range unitList {
		r.forSym(fmt.Sprintf("units%d", li), s.n, s.al, func(t *T, mi *Mat) {
			if !posDef(mi) {
				return
			}
			for _, p := range unitPatterns(s.n, 60) {
				m := inUnits(mi, p, p)
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%v with rows and columns times 2^%v", mi, p) }, func() {
					c, err := linear.NewCholeskyDecomposition(mk(KArray, m), 1e-15, 0)
					t.Check(err == nil, "positive definite matrix rejected: %v", err)
					t.cholFactors(c, m)
				})
			}
		})
	}
	// symmetry threshold: every position, both triangles, both sides of the decision
	for n := 2; n <= 5; n++ {
		r.Group(fmt.Sprintf("asymmetry/%d", n), func(t *T) { asymmetry(t, n, KArray) })
		r.Group(fmt.Sprintf("asymmetry-block/%d", n), func(t *T) { asymmetry(t, n, KBlock) })
	}
	for _, n := range []int{53, 66} {
		r.Group(fmt.Sprintf("asymmetry/%d", n), func(t *T) { asymmetry(t, n, KBlock) })
	}
	for _, s := range [][2]int{{1, 2}, {2, 1}, {2, 3}, {3, 2}, {53, 52}, {1, 60}} {
		r.Group(fmt.Sprintf("nonsquare/%dx%d", s[0], s[1]), func(t *T) {
			for _, k := range denseKinds {
				t.Do(func() string { return fmt.Sprintf("%v", k) }, func() {
					_, err := linear.NewDefaultCholeskyDecomposition(mk(k, ints(s[0], s[1], 3)))
					t.Op(1)
					t.Check(err != nil, "non-square matrix accepted")
					rej := rejOf(err, false)
					t.Check(rej.Typed && rej.Status == linear.ESQMAT, "non-square matrix: %v", rej)
				})
			}
		})
	}
}

func asymmetry(t *T, n int, k Kind) {
	base := spd(n)
	pos := [][2]int{}
	for _, i := range edges(n) {
		for _, j := range edges(n) {
			if i < j {
				pos = append(pos, [2]int{i, j})
			}
		}
	}
	for _, p := range pos {
		for _, v := range []float64{1, -2, 0} {
			for _, th := range []float64{1e-15, 1e-10, 1e-3, 0.25} {
				for _, rel := range []float64{-2, 0.5, 0.99, 1.01, 2} { // defect in multiples of the threshold; -2: opposite signs
					for side := 0; side < 2; side++ {
						t.Do(func() string {
							return fmt.Sprintf("%v n=%d at %v value %v threshold %v defect %v side %d", k, n, p, v, th, rel, side)
						}, func() {
							m := base.clone()
							lo, hi := v, v+math.Abs(v)*th*rel
							if rel == -2 {
								hi = -v
							}
							if v == 0 {
								hi = rel * th // max(|0|,|hi|)*th < |hi| : always asymmetric
							}
							a, b := p[0], p[1]
							if side == 1 {
								a, b = b, a
							}
							m.set(a, b, lo)
							m.set(b, a, hi)
							want := math.Abs(lo-hi) > th*math.Max(math.Abs(lo), math.Abs(hi))
							edge := th * math.Max(math.Abs(lo), math.Abs(hi))
							if lo != hi && math.Abs(math.Abs(lo-hi)-edge) < 1e-18 {
								return // on the boundary up to rounding
							}
							x := mk(k, m)
							c, err := linear.NewCholeskyDecomposition(x, th, 1e-10)
							t.Op(1)
							t.expectMat("input", x, m)
							if want {
								t.Check(err != nil, "asymmetric matrix accepted")
								rej := rejOf(err, false)
								t.Check(rej.Typed && rej.Status == linear.ESYMM, "asymmetric matrix: %v", rej)
								return
							}
							t.Check(err == nil, "matrix symmetric within the threshold rejected: %v", err)
							l := rd(c.L())
							t.near("L*LT", l.mul(l.T()), m, 1e-13*m.maxAbs()*float64(n)+math.Abs(lo-hi)*1.01)
						})
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C17

func (t *T) rectChol(x linear.RealMatrix, m *Mat, small float64, rank int) {
	c, err := linear.NewRectangularCholeskyDecompositionWithThreshold(x, small)
	t.Op(1)
	t.Check(err == nil, "positive semidefinite matrix rejected (threshold %v): %v", small, err)
	if rank >= 0 {
		t.Check(c.Rank() == rank, "rank is %d, want %d (threshold %v)", c.Rank(), rank, small)
	}
	root := t.dims("root", c.RootMatrix(), m.r, c.Rank())
	t.near("root*rootT", root.mul(root.T()), m, small+1e-13*float64(m.r)*m.maxAbs())
}

func checkC17(r *Run) {
	type sp struct {
		n, k int
		al   []float64
	}
	list := []sp{{1, 1, rangeAlpha(-4, 4)}, {2, 1, rangeAlpha(-3, 3)}, {2, 2, rangeAlpha(-3, 3)}, {3, 1, rangeAlpha(-2, 2)}, {3, 2, rangeAlpha(-2, 2)}, {3, 3, rangeAlpha(-1, 1)}, {4, 2, rangeAlpha(-1, 1)}, {4, 3, []float64{0, 1}}}
	if r.thorough {
		list = append(list, sp{3, 3, []float64{-2, 0, 1, 3}}, sp{4, 3, rangeAlpha(-1, 1)}, sp{4, 4, []float64{0, 1}}, sp{5, 2, rangeAlpha(-1, 1)}, sp{2, 3, rangeAlpha(-2, 2)})
	}
	for li, s := range list {
		for _, sc := range []float64{1, math.Ldexp(1, -30), math.Ldexp(1, 30)} {
			if sc != 1 && s.n*s.k > 4 {
				continue
			}
			r.forAllMats(fmt.Sprintf("gram%d/%g", li, sc), s.n, s.k, s.al, func(t *T, a *Mat) {
				g := a.mul(a.T())
				if g.maxAbs() == 0 {
					return
				}
				t.StateF(g.a)
				t.Do(func() string { return fmt.Sprintf("Gram of %v times %g", a, sc) }, func() {
					rank := smallRank(a)
					m := scaled(g, sc)
					for _, k := range []Kind{KArray, KForeign} {
						x := mk(k, m)
						t.rectChol(x, m, 1e-9*sc, rank)
						if rank == s.n {
							t.rectChol(x, m, 0, rank)
							if c, err := linear.NewRectangularCholeskyDecomposition(x); err != nil || c.Rank() != rank {
								t.Failf("default threshold: positive definite matrix: %v", err)
							}
						}
						t.expectMat("input", x, m)
					}
				})
			})
		}
	}
	// a clearly negative diagonal entry is rejected
	for n := 1; n <= 3; n++ {
		al := rangeAlpha(-2, 2)
		if n == 1 {
			al = rangeAlpha(-5, 0)
		}
		r.forSym(fmt.Sprintf("negative/%d", n), n, al, func(t *T, m *Mat) {
			neg := false
			for _, d := range m.diag() {
				neg = neg || d < 0
			}
			if !neg && m.maxAbs() != 0 {
				return
			}
			t.StateF(m.a)
			t.Do(func() string { return m.String() }, func() {
				for _, th := range []float64{0, 1e-9, 0.01} {
					x := mk(KArray, m)
					c, err := linear.NewRectangularCholeskyDecompositionWithThreshold(x, th)
					t.Op(1)
					t.Check(err != nil, "matrix with a negative diagonal entry (or zero) accepted with threshold %v, rank %v", th, c)
					rej := rejOf(err, false)
					t.Check(rej.Typed && rej.Status == linear.ENSMALL, "not positive semidefinite: %v", rej)
					t.expectMat("input", x, m)
				}
			})
		})
	}
	sizes := []int{1, 2, 3, 5, 8, 20, 52, 53, 65}
	if r.thorough {
		sizes = numSizes(true)
	}
	for _, n := range sizes {
		for _, k := range allKinds {
			r.Group(fmt.Sprintf("families/%v/%d", k, n), func(t *T) {
				type c struct {
					name string
					m    *Mat
					rank int
				}
				gram := func(rk int) *Mat { a := ints(n, rk, 41); return a.mul(a.T()) }
				perm := func(m *Mat) *Mat { // reversal
					o := newMat(n, n)
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							o.set(i, j, m.at(n-1-i, n-1-j))
						}
					}
					return o
				}
				list := []c{{"spd", spd(n), n}, {"spd reversed", perm(spd(n)), n}, {"tri", triToeplitz(n), n}, {"identity", eye(n), n}, {"ones", constMat(n, n, 3), 1}}
				for _, rk := range []int{1, 2, 3, n / 2, n - 1} {
					if rk >= 1 && rk < n {
						a := ints(n, rk, 41)
						rank := exactRank(a)
						g := gram(rk)
						list = append(list, c{fmt.Sprintf("gram%d", rk), g, rank}, c{fmt.Sprintf("gram%d reversed", rk), perm(g), rank})
					}
				}
				d := newMat(n, n)
				rk := 0
				for i := 0; i < n; i++ {
					d.set(i, i, float64((i*7)%5))
					if (i*7)%5 != 0 {
						rk++
					}
				}
				if rk > 0 {
					list = append(list, c{"diag", d, rk})
				}
				for _, e := range list {
					if !fits(k, e.m) {
						continue
					}
					t.State(e.name)
					t.Do(func() string { return fmt.Sprintf("%v %s %d", k, e.name, n) }, func() {
						x := mk(k, e.m)
						t.rectChol(x, e.m, 1e-9*e.m.maxAbs(), e.rank)
						if e.rank == n {
							t.rectChol(x, e.m, 0, n)
						}
						t.expectMat("input", x, e.m)
					})
				}
			})
		}
	}
}
