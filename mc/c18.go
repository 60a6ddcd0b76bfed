package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/jtejido/linear"
)

func init() {
	register("C18", "QR",
		"every integer matrix up to the stated shape and alphabet (square, tall, wide, rank deficient), power-of-two scalings, structured families past two storage blocks in every representation; oracle: orthogonality, shape, Q*R = input, reflectors reproduce Q",
		checkC18)
	register("C19", "rank-revealing QR",
		"every integer matrix up to the stated shape and alphabet, power-of-two scalings, structured families past two storage blocks in every representation; oracle: orthogonality, shape, permutation, A*P = Q*R, pivot ordering, exact integer rank",
		checkC19)
	register("C20", "SVD",
		"every integer matrix up to the stated shape and alphabet, power-of-two scalings over 80 binary orders of magnitude, structured families past two storage blocks in every representation; oracle: orthonormality, ordering, U*S*VT = input, exact characteristic polynomial of the Gram matrix, exact rank, defining equations of norm, condition and covariance",
		checkC20)
}

// qrForm checks the factors common to QR and rank-revealing QR; want is Q*R.
func (t *T) qrForm(q, qt, rr, h linear.RealMatrix, m *Mat, want *Mat) (qm, rm *Mat) {
	mr, mc := m.r, m.c
	k := min(mr, mc)
	qm = t.dims("Q", q, mr, mr)
	qtm := t.dims("QT", qt, mr, mr)
	rm = t.dims("R", rr, mr, mc)
	hm := t.dims("H", h, mr, mc)
	t.Op(4)
	t.transposeOf("QT", qtm, qm)
	t.orthoCols("Q", qm, 1e-13*float64(mr+2))
	t.zeroWhere("R", rm, 0, func(i, j int) bool { return i > j })
	t.zeroWhere("H", hm, 0, func(i, j int) bool { return j > i })
	s := m.maxAbs() * math.Sqrt(float64(mr))
	qr := qm.mul(rm)
	t.near("Q*R", qr, want, 1e-13*float64(k+2)*s)
	t.nearCols("Q*R", qr, want, 1e-13*float64(k+2)*math.Sqrt(float64(mr)))
	// Q = prod (I - h_j h_jT / h_jj)
	p := eye(mr)
	for j := 0; j < k; j++ {
		hj := hm.at(j, j)
		if hj == 0 {
			for i := 0; i < mr; i++ {
				t.Check(hm.at(i, j) == 0, "reflector %d has a zero leading entry but is not zero", j)
			}
			continue
		}
		// p = p (I - h hT / hj)
		for i := 0; i < mr; i++ {
			d := 0.0
			for l := j; l < mr; l++ {
				d += p.at(i, l) * hm.at(l, j)
			}
			d /= hj
			for l := j; l < mr; l++ {
				p.set(i, l, p.at(i, l)-d*hm.at(l, j))
			}
		}
	}
	t.near("product of the reflectors of H", p, qm, 1e-12*float64(mr+2))
	return
}

func checkC18(r *Run) {
	r.rectInputs(func(t *T, name string, k Kind, m *Mat) {
		x := mk(k, m)
		for _, th := range []float64{-1, 0, 1e-3} {
			var qr *linear.QRDecomposition
			var err error
			if th < 0 {
				qr, err = linear.NewQRDecomposition(x)
			} else {
				if m.r*m.c > 64 {
					continue
				}
				qr, err = linear.NewQRDecompositionWithThreshold(x, th)
			}
			t.Op(1)
			t.Check(err == nil, "rejected: %v", err)
			t.qrForm(qr.Q(), qr.QT(), qr.R(), qr.H(), m, m)
		}
		t.expectMat("input", x, m)
	})
	r.unitInputs(func(t *T, m *Mat) {
		qr, err := linear.NewQRDecomposition(mk(KArray, m))
		t.Op(1)
		t.Check(err == nil, "rejected: %v", err)
		t.qrForm(qr.Q(), qr.QT(), qr.R(), qr.H(), m, m)
	})
}

func permOf(t *T, p *Mat) []int {
	n := p.c
	out := make([]int, n)
	used := make([]bool, n)
	for j := 0; j < n; j++ {
		c := -1
		for i := 0; i < n; i++ {
			switch p.at(i, j) {
			case 0:
			case 1:
				t.Check(c < 0 && !used[i], "P is not a permutation")
				c = i
				used[i] = true
			default:
				t.Failf("P(%d,%d) is %v", i, j, p.at(i, j))
			}
		}
		t.Check(c >= 0, "P is not a permutation: column %d is zero", j)
		out[j] = c
	}
	return out
}

func colPerm(m *Mat, p []int) *Mat {
	o := newMat(m.r, m.c)
	for j, s := range p {
		for i := 0; i < m.r; i++ {
			o.set(i, j, m.at(i, s))
		}
	}
	return o
}

func rankKnown(name string, m *Mat) (int, bool) {
	if m.r*m.c <= 200 {
		return exactRank(scaled(m, 1/smallestNonzero(m))), true
	}
	switch name {
	case "identity", "cyclic", "spd", "nonsing", "diag":
		return min(m.r, m.c), true
	case "zero":
		return 0, true
	case "ones":
		return 1, true
	case "rank2":
		return 2, true
	}
	return 0, false
}

func checkC19(r *Run) {
	r.rectInputs(func(t *T, name string, k Kind, m *Mat) {
		x := mk(k, m)
		for _, th := range []float64{-1, 1e-3} {
			var qr *linear.RRQRDecomposition
			var err error
			if th < 0 {
				qr, err = linear.NewRRQRDecomposition(x)
			} else {
				if m.r*m.c > 64 {
					continue
				}
				qr, err = linear.NewRRQRDecompositionWithThreshold(x, th)
			}
			t.Op(1)
			t.Check(err == nil, "rejected: %v", err)
			p := permOf(t, t.dims("P", qr.P(), m.c, m.c))
			ap := colPerm(m, p)
			_, rm := t.qrForm(qr.Q(), qr.QT(), qr.R(), qr.H(), m, ap)
			kk := min(m.r, m.c)
			f := m.frob()
			for i := 0; i+1 < kk; i++ {
				t.Check(math.Abs(rm.at(i+1, i+1)) <= math.Abs(rm.at(i, i))+1e-13*f, "diagonal of R grows: |%v| then |%v|", rm.at(i, i), rm.at(i+1, i+1))
			}
			for i := 0; i < kk; i++ { // each pivot dominates the rest of its trailing columns
				for j := i + 1; j < m.c; j++ {
					s := 0.0
					for l := i; l <= min(j, m.r-1); l++ {
						s += rm.at(l, j) * rm.at(l, j)
					}
					t.Check(math.Sqrt(s) <= math.Abs(rm.at(i, i))+1e-12*f, "column %d of R (norm %v below row %d) exceeds the pivot %v", j, math.Sqrt(s), i, rm.at(i, i))
				}
			}
			if m.r*m.c <= 64 && f > 0 { // the documented rule, at thresholds of every order of magnitude
				trail := make([]float64, kk)
				for i := range trail {
					trail[i] = rm.sub(i, m.r-1, i, m.c-1).frob()
				}
				for e := 1; e <= 40; e += 3 {
					th := math.Ldexp(f, -e)
					want, tie := 1, false
					for want < kk {
						drop := trail[want] / trail[want-1] * f
						tie = tie || math.Abs(drop-th) <= 1e-6*th
						if trail[want] == 0 || drop < th {
							break
						}
						want++
					}
					if tie {
						continue
					}
					got := qr.Rank(th)
					t.Op(1)
					t.Check(got == want, "rank is %d at threshold %v, the first large fall of the trailing norms %v says %d", got, th, trail, want)
				}
			}
			if rank, ok := rankKnown(name, m); ok {
				for _, g := range []float64{1e-6, 1e-9} {
					// the rule compares (this/last)*whole with the threshold
					if got := qr.Rank(g * f); got != rank {
						t.Failf("rank is %d, want %d (threshold %v)", got, rank, g*f)
					}
					t.Op(1)
				}
			}
		}
		t.expectMat("input", x, m)
	})
	r.unitInputs(func(t *T, m *Mat) {
		qr, err := linear.NewRRQRDecomposition(mk(KArray, m))
		t.Op(1)
		t.Check(err == nil, "rejected: %v", err)
		t.qrForm(qr.Q(), qr.QT(), qr.R(), qr.H(), m, colPerm(m, permOf(t, t.dims("P", qr.P(), m.c, m.c))))
	})
	// a fall exactly to the threshold is not below it: diagonal matrices whose
	// norms are exact (Pythagorean pairs), signed, in several units and shapes
	r.Group("rank/boundary", func(t *T) {
		for _, ab := range [][2]float64{{4, 3}, {12, 5}, {15, 8}, {24, 7}, {21, 20}, {35, 12}, {40, 9}, {3, 0}} {
			for _, sh := range [][2]int{{2, 2}, {3, 2}, {2, 3}, {3, 3}} {
				for bits := 0; bits < 8; bits++ {
					for _, e := range []int{0, -1, 7, -40, 60} {
						a, b := math.Ldexp(ab[0], e), math.Ldexp(ab[1], e)
						f := math.Hypot(a, b)
						if b/f*f != b || b*f/f != b {
							continue // the fall itself is rounded
						}
						m := newMat(sh[0], sh[1])
						x, y := a, b
						if bits&1 != 0 {
							x = -x
						}
						if bits&2 != 0 {
							y = -y
						}
						if bits&4 != 0 {
							x, y = y, x
						}
						m.set(0, 0, x)
						m.set(1, 1, y)
						t.Do(func() string { return fmt.Sprintf("diag(%v,%v) %dx%d", x, y, sh[0], sh[1]) }, func() {
							qr, err := linear.NewRRQRDecomposition(mk(KArray, m))
							t.Check(err == nil, "rejected: %v", err)
							full := 2
							if b == 0 {
								full = 1
							}
							for _, c := range []struct {
								th   float64
								want int
							}{{0, full}, {-1, full}, {b / 2, full}, {b, full}, {math.Nextafter(b, f), 1}, {f, 1}, {math.Inf(1), 1}} {
								if c.th == math.Nextafter(b, f) && b == 0 {
									continue
								}
								got := qr.Rank(c.th)
								t.Op(1)
								t.Check(got == c.want, "rank is %d at threshold %v, want %d", got, c.th, c.want)
							}
						})
					}
				}
			}
		}
	})
}

// svdForm checks everything a singular value decomposition reports about m.
func (t *T) svdForm(s *linear.SingularValueDecomposition, m *Mat, name string) {
	mr, mc := m.r, m.c
	p := min(mr, mc)
	u, ut := t.dims("U", s.U(), mr, p), t.dims("UT", s.UT(), p, mr)
	v, vt := t.dims("V", s.V(), mc, p), t.dims("VT", s.VT(), p, mc)
	sm := t.dims("S", s.S(), p, p)
	sv := s.SingularValues()
	t.Op(6)
	t.Check(len(sv) == p, "%d singular values, want %d", len(sv), p)
	t.transposeOf("UT", ut, u)
	t.transposeOf("VT", vt, v)
	for i := range sv {
		t.Check(sv[i] >= 0 && !math.IsInf(sv[i], 0), "singular value %d is %v", i, sv[i])
		t.Check(i == 0 || sv[i] <= sv[i-1], "singular values increase: %v", sv)
	}
	t.near("S", sm, diagMat(sv), 0)
	tol := 2e-14 * float64(p+mr+mc)
	t.orthoCols("U", u, tol)
	t.orthoCols("V", v, tol)
	sc := math.Max(sv[0], m.maxAbs())
	t.near("U*S*VT", u.mul(sm).mul(vt), m, tol*sc)
	// spectrum of the exact Gram matrix (of the integer matrix)
	unit := smallestNonzero(m)
	mi := scaled(m, 1/unit)
	if p <= 4 && max(mr, mc) <= 8 {
		g := mi.mul(mi.T())
		if mr > mc {
			g = mi.T().mul(mi)
		}
		c := charPoly(g)
		re := make([]float64, p)
		for i := range sv {
			re[i] = (sv[i] / unit) * (sv[i] / unit)
		}
		q := polyOf(re, make([]float64, p))
		for kx := range c {
			w := math.Pow(math.Max(re[0], 1), float64(p-kx))
			t.Check(math.Abs(real(q[kx])-c[kx]) <= 1e-11*w, "singular values %v: characteristic coefficient %d of the Gram matrix is %v, want %v", sv, kx, real(q[kx]), c[kx])
		}
	}
	t.Check(s.Norm() == sv[0], "norm is %v, singular values %v", s.Norm(), sv)
	cn, icn := s.ConditionNumber(), s.InverseConditionNumber()
	if sv[p-1] > 0 {
		t.Check(math.Abs(cn-sv[0]/sv[p-1]) <= 1e-14*cn, "condition number is %v, singular values %v", cn, sv)
	} else {
		t.Check(math.IsInf(cn, 1) || sv[0] == 0, "condition number of a rank deficient matrix is %v", cn)
	}
	if sv[0] > 0 {
		t.Check(math.Abs(icn-sv[p-1]/sv[0]) <= 1e-14, "inverse condition number is %v, singular values %v", icn, sv)
	}
	extreme := sv[0] > 0x1p480 || sv[0] > 0 && sv[0] < 0x1p-480 // squares leave the number range
	if rank, ok := rankKnown(name, m); ok && !extreme {
		t.Check(s.Rank() == rank, "rank is %d, want %d (singular values %v)", s.Rank(), rank, sv)
		t.Check(s.Solver().IsNonSingular() == (rank == max(mr, mc)), "IsNonSingular is %v for a %dx%d matrix of rank %d", s.Solver().IsNonSingular(), mr, mc, rank)
		t.Op(2)
		// covariance over all significant singular values: G C G = G and C symmetric with the row space of A
		for cut := 1; cut <= rank && mr*mc <= 200; cut++ {
			if cut < rank && sv[cut-1]-sv[cut] < 1e-6*sv[0] {
				continue
			}
			limit := sv[cut-1] * (1 - 1e-12)
			if cut < len(sv) && cut < rank {
				limit = (sv[cut-1] + sv[cut]) / 2
			}
			cov := t.dims("covariance", s.Covariance(limit), mc, mc)
			t.Op(1)
			want := newMat(mc, mc)
			for i := 0; i < cut; i++ {
				for a := 0; a < mc; a++ {
					for b := 0; b < mc; b++ {
						want.set(a, b, want.at(a, b)+v.at(a, i)*v.at(b, i)/sv[i]/sv[i])
					}
				}
			}
			t.near("covariance", cov, want, 1e-11*want.maxAbs()+1e-14/sv[cut-1]/sv[cut-1])
			if cut == rank {
				g := m.T().mul(m)
				t.near("G*C*G", g.mul(cov).mul(g), g, 1e-9*g.maxAbs()*math.Max(1, sv[0]/sv[cut-1]))
			}
		}
		// a cutoff that is exactly a singular value includes it
		for i := 0; i < rank && mr*mc <= 200; i++ {
			cut := i
			for cut < rank && sv[cut] >= sv[i] {
				cut++
			}
			if cut < len(sv) && cut == rank && sv[cut] >= sv[i] {
				continue
			}
			cov := t.dims("covariance", s.Covariance(sv[i]), mc, mc)
			t.Op(1)
			want := newMat(mc, mc)
			for q := 0; q < cut; q++ {
				for a := 0; a < mc; a++ {
					for b := 0; b < mc; b++ {
						want.set(a, b, want.at(a, b)+v.at(a, q)*v.at(b, q)/sv[q]/sv[q])
					}
				}
			}
			t.near(fmt.Sprintf("covariance with cutoff %v of %v", sv[i], sv), cov, want, 1e-11*want.maxAbs())
		}
		rej := tryDo(func() { s.Covariance(sv[0]*(1+1e-9) + 5e-324) })
		t.Check(rej != nil && rej.Typed, "covariance with a cutoff above every singular value: %v", rej)
	}
}

func checkC20(r *Run) {
	f := func(t *T, name string, k Kind, m *Mat) {
		x := mk(k, m)
		s, err := linear.NewSingularValueDecomposition(x)
		t.Op(1)
		t.Check(err == nil, "rejected: %v", err)
		t.svdForm(s, m, name)
		t.expectMat("input", x, m)
	}
	r.rectInputs(f)
	gradedSVD(r)
	// the whole number range
	for _, e := range []int{-900, -540, 540, 900} {
		sc := math.Ldexp(1, e)
		for _, s := range [][2]int{{3, 3}, {4, 3}, {3, 4}} {
			r.forAllMats(fmt.Sprintf("range%d", e), s[0], s[1], []float64{0, 1}, func(t *T, m *Mat) {
				t.StateF(m.a)
				t.Do(func() string { return fmt.Sprintf("%v * 2^%d", m, e) }, func() { f(t, "scaled", KArray, scaled(m, sc)) })
			})
		}
	}
	// many orders of magnitude
	for _, e := range []int{-300, -200, -120, -60, 60, 120, 200, 300} {
		sc := math.Ldexp(1, e)
		for _, s := range [][2]int{{1, 1}, {2, 2}, {2, 3}, {3, 2}} {
			if s[0]*s[1] == 6 && !r.thorough && e != -120 && e != 120 {
				continue
			}
			r.forAllMats(fmt.Sprintf("magnitude%d", e), s[0], s[1], rangeAlpha(-1, 1), func(t *T, m *Mat) {
				t.StateF(m.a)
				t.Do(func() string { return fmt.Sprintf("%v * 2^%d", m, e) }, func() { f(t, "scaled", KArray, scaled(m, sc)) })
			})
		}
	}
}

// gradedSVD explores signed permutations of prescribed values over many orders
// of magnitude: the singular values are known exactly, so the rank threshold,
// the cutoff of the covariance and of the pseudo-inverse are decided sharply.
func gradedSVD(r *Run) {
	ulp := func(v float64) float64 { return math.Nextafter(v, math.Inf(1)) - v }
	type sh struct{ m, n int }
	shapes := []sh{{1, 1}, {2, 2}, {3, 3}, {3, 2}, {2, 3}, {5, 2}, {4, 4}}
	if r.thorough {
		shapes = append(shapes, sh{4, 3}, sh{3, 5}, sh{7, 3}, sh{5, 5}, sh{53, 2}, sh{2, 54})
	}
	for _, s := range shapes {
		p, big := min(s.m, s.n), max(s.m, s.n)
		for _, top := range []float64{1, 1.5, 1.9375, 0x1p-200, 0x1.8p300, 3} {
			r.Group(fmt.Sprintf("graded/%dx%d/%g", s.m, s.n, top), func(t *T) {
				u := float64(big) * ulp(top)
				alpha := []float64{top, top / 4, top * 0x1p-30, 2.2 * u, 0.95 * u, u / 4, top * 0x1p-70, top * 0x1p-130, 0}
				if p >= 4 {
					alpha = []float64{top, top * 0x1p-30, 2.2 * u, 0.95 * u, 0}
				}
				idx := make([]int, p)
				for {
					vals := make([]float64, p)
					has := false
					for i, q := range idx {
						vals[i] = alpha[q]
						has = has || q == 0
					}
					if has {
						for rot := 0; rot < p; rot++ {
							a := newMat(s.m, s.n)
							for i := 0; i < p; i++ {
								v := vals[i]
								if (i+rot)%2 == 1 {
									v = -v
								}
								a.set((i+s.m-p)%s.m, (i+rot)%p, v)
							}
							t.StateF(a.a)
							t.Do(func() string { return fmt.Sprintf("graded %v", a) }, func() { gradedOne(t, a, vals, u) })
						}
					}
					i := 0
					for i < p && idx[i] == len(alpha)-1 {
						idx[i] = 0
						i++
					}
					if i == p {
						break
					}
					idx[i]++
				}
			})
		}
	}
}

func gradedOne(t *T, a *Mat, vals []float64, u float64) {
	s, err := linear.NewSingularValueDecomposition(mk(KArray, a))
	t.Check(err == nil, "rejected: %v", err)
	want := append([]float64(nil), vals...)
	sort.Sort(sort.Reverse(sort.Float64Slice(want)))
	sv := s.SingularValues()
	t.Op(3)
	t.Check(len(sv) == len(want), "%d singular values", len(sv))
	rank := 0
	for i, w := range want {
		t.Check(math.Abs(sv[i]-w) <= 1e-13*w, "singular values %v, want %v", sv, want)
		if w > 1.5*u {
			rank++
		}
	}
	t.Check(s.Rank() == rank, "rank is %d, want %d: singular values %v, threshold %v", s.Rank(), rank, sv, u)
	pinv := t.dims("pseudo-inverse", s.Solver().Inverse(), a.c, a.r)
	cov := func(min float64) {
		want := newMat(a.c, a.c)
		any := false
		for i := 0; i < a.r; i++ {
			for j := 0; j < a.c; j++ {
				if v := math.Abs(a.at(i, j)); v != 0 && v >= min {
					want.set(j, j, 1/v/v)
					any = true
				}
			}
		}
		if !any {
			return
		}
		t.Op(1)
		c := t.dims("covariance", s.Covariance(min), a.c, a.c)
		for i := 0; i < a.c; i++ {
			for j := 0; j < a.c; j++ {
				w := want.at(i, j)
				t.Check(math.Abs(c.at(i, j)-w) <= 1e-12*w, "Covariance(%v) is %v at (%d,%d), want %v", min, c.at(i, j), i, j, w)
			}
		}
	}
	for i := 0; i < a.r; i++ {
		for j := 0; j < a.c; j++ {
			v, w := a.at(i, j), 0.0
			if math.Abs(v) > 1.5*u {
				w = 1 / v
			}
			t.Check(math.Abs(pinv.at(j, i)-w) <= 1e-13*math.Abs(w), "pseudo-inverse is %v at (%d,%d), want %v", pinv.at(j, i), j, i, w)
		}
	}
	for _, w := range want {
		if w > 0 {
			cov(w / 1.5)
		}
	}
	if want[len(want)-1] > 0 {
		cov(0)
		cov(-1)
	}
}
