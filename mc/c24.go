package main

import (
	"fmt"
	"math"

	"github.com/jtejido/linear"
)

func init() {
	register("C24", "solvers",
		"every integer system up to the stated order (and tall, wide and rank-deficient shapes) times every applicable solver times the basis and pattern right-hand sides as vectors and matrices; large well-conditioned families times right-hand-side widths straddling two storage blocks times representations; oracle: exact integer adjugate and determinant, exact normal equations, Moore-Penrose conditions, exact rank for the singularity verdict",
		checkC24)
}

// adjDet gives the adjugate and determinant of a small integer matrix exactly.
func adjDet(m *Mat) (*Mat, float64) {
	n := m.r
	a := toInts(m)
	adj := newMat(n, n)
	sub := make([]int64, (n-1)*(n-1))
	for r := 0; r < n; r++ {
		for c := 0; c < n; c++ {
			k := 0
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i != r && j != c {
						sub[k] = a[i*n+j]
						k++
					}
				}
			}
			d := intDet(sub, n-1)
			if (r+c)%2 == 1 {
				d = -d
			}
			adj.set(c, r, float64(d))
		}
	}
	return adj, float64(intDet(a, n))
}

type solverSpec struct {
	name string
	// make decomposes and returns the solver
	make func(x linear.RealMatrix) (linear.DecompositionSolver, error)
	// which systems it is defined for
	rect, sym, pd bool
	ls            bool // least squares / basic solutions of rectangular systems
	pinv          bool // never refuses: pseudo-inverse
}

const solverThreshold = 1e-9

var solverSpecs = []solverSpec{
	{name: "LU", make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewLUDecomposition(x)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
	{name: "QR", rect: true, ls: true, make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewQRDecompositionWithThreshold(x, solverThreshold)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
	{name: "RRQR", rect: true, ls: true, make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewRRQRDecompositionWithThreshold(x, solverThreshold)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
	{name: "SVD", rect: true, pinv: true, make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewSingularValueDecomposition(x)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
	{name: "Eigen", sym: true, make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewEigenDecomposition(x)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
	{name: "Cholesky", sym: true, pd: true, make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewDefaultCholeskyDecomposition(x)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
}

// posDef decides definiteness of a small symmetric integer matrix exactly.
func posDef(m *Mat) bool {
	a := toInts(m)
	for k := 1; k <= m.r; k++ {
		sub := make([]int64, 0, k*k)
		for i := 0; i < k; i++ {
			sub = append(sub, a[i*m.c:i*m.c+k]...)
		}
		if intDet(sub, k) <= 0 {
			return false
		}
	}
	return true
}

// rhsFor is the basis, an irregular integer column and a zero column.
func rhsFor(n int) *Mat {
	b := newMat(n, n+2)
	for i := 0; i < n; i++ {
		b.set(i, i, 1)
		b.set(i, n, float64((i*7)%5-2))
	}
	return b
}

type rejOp struct {
	name string
	f    func(s linear.DecompositionSolver)
}

// wrongHeight: right-hand sides of a wrong height are rejected as such.
func (t *T) wrongHeight(s linear.DecompositionSolver, n int) {
	for _, h := range []int{n - 1, n + 1} {
		if h < 1 {
			continue
		}
		for _, vk := range allVKinds {
			v := mkv(vk, intVec(h, 4))
			rej := tryDo(func() { s.SolveVector(v) })
			t.Op(1)
			t.Check(rej != nil && rej.Typed && dimStatus(rej.Status), "vector of height %d for %d rows: %v", h, n, rej)
			t.expectVec("vector right-hand side", v, intVec(h, 4))
		}
		for _, k := range []Kind{KArray, KBlock, KForeign} {
			bm := ints(h, 2, 5)
			b := mk(k, bm)
			rej := tryDo(func() { s.SolveMatrix(b) })
			t.Op(1)
			t.Check(rej != nil && rej.Typed && dimStatus(rej.Status), "%v right-hand side of height %d for %d rows: %v", k, h, n, rej)
			t.expectMat("matrix right-hand side", b, bm)
		}
	}
}

func dimStatus(s int) bool {
	return s == linear.EDIM || s == linear.EMATDIM || s == linear.EMULTIDIM
}

// solveAll runs the solver on every column of b as a vector and on b as a
// matrix, twice, and compares with want.
func (t *T) solveAll(name string, s linear.DecompositionSolver, kb Kind, b, want *Mat, tol float64) {
	x := mk(kb, b)
	got := t.dims(name+" SolveMatrix", s.SolveMatrix(x), want.r, want.c)
	t.near(name+" SolveMatrix", got, want, tol)
	t.Op(1)
	for j := 0; j < b.c; j++ {
		vk := allVKinds[j%2]
		v := mkv(vk, b.col(j))
		g := rdv(s.SolveVector(v))
		t.Op(1)
		t.nearVec(fmt.Sprintf("%s SolveVector, column %d", name, j), g, want.col(j), tol)
		t.expectVec("right-hand side", v, b.col(j))
	}
	again := rd(s.SolveMatrix(x))
	t.expectSliceEq(name+" SolveMatrix repeated", again.a, got.a)
	t.expectMat("right-hand side", x, b)
	t.Op(1)
}

func (t *T) squareSystem(k Kind, m *Mat) {
	n := m.r
	adj, det := adjDet(m)
	sym := isSym(m)
	x := mk(k, m)
	b := rhsFor(n)
	var inv, want *Mat
	tol := 0.0
	if det != 0 {
		inv = adj.mapf(func(v float64) float64 { return v / det })
		want = adj.mul(b).mapf(func(v float64) float64 { return v / det })
		tol = 1e-13 * float64(n+2) * rowSumNorm(m) * rowSumNorm(inv) * math.Max(rowSumNorm(inv), 1)
	}
	for _, sp := range solverSpecs {
		if sp.sym && !sym || sp.pd && !posDef(m) {
			continue
		}
		s, err := sp.make(x)
		t.Op(1)
		t.Check(err == nil, "%s: rejected: %v", sp.name, err)
		t.Check(s.IsNonSingular() == (det != 0), "%s: IsNonSingular is %v for determinant %v", sp.name, s.IsNonSingular(), det)
		if det != 0 {
			t.solveAll(sp.name, s, KArray, b, want, tol)
			t.near(sp.name+" Inverse", t.dims(sp.name+" Inverse", s.Inverse(), n, n), inv, tol)
			t.Op(1)
		} else if sp.pinv {
			t.pseudo(sp.name, s, m, b)
		} else {
			t.refuses(sp.name, s, b)
		}
	}
	t.expectMat("input", x, m)
}

// refuses: a singular system is rejected as singular by every entry point.
func (t *T) refuses(name string, s linear.DecompositionSolver, b *Mat) {
	for _, op := range []rejOp{
		{"SolveVector", func(s linear.DecompositionSolver) { s.SolveVector(mkv(VArray, b.col(b.c-2))) }},
		{"SolveMatrix", func(s linear.DecompositionSolver) { s.SolveMatrix(mk(KArray, b)) }},
		{"Inverse", func(s linear.DecompositionSolver) { s.Inverse() }}} {
		rej := tryDo(func() { op.f(s) })
		t.Op(1)
		t.Check(rej != nil && rej.Typed && rej.Status == linear.ESING, "%s %s of a singular system: %v", name, op.name, rej)
	}
}

// pseudo: the SVD inverse satisfies the Moore-Penrose conditions and the
// solutions are the pseudo-inverse times the right-hand side.
func (t *T) pseudo(name string, s linear.DecompositionSolver, m, b *Mat) {
	g := t.dims(name+" Inverse", s.Inverse(), m.c, m.r)
	t.Op(1)
	sa, sg := math.Max(rowSumNorm(m), 1e-300), rowSumNorm(g)
	tol := 1e-12 * float64(m.r+m.c) * (sa*sg + 1)
	ag, ga := m.mul(g), g.mul(m)
	t.near(name+": A*G*A against A", ag.mul(m), m, tol*sa)
	t.near(name+": G*A*G against G", ga.mul(g), g, tol*sg)
	t.near(name+": A*G symmetric", ag.T(), ag, tol)
	t.near(name+": G*A symmetric", ga.T(), ga, tol)
	t.solveAll(name, s, KBlock, b, g.mul(b), tol*math.Max(sg, 1)*5)
	if want := pinv(m); want != nil { // the conditions above are relative to what was returned
		sw := rowSumNorm(want)
		t.near(name+": Inverse against the exact pseudo-inverse", g, want, 1e-12*float64(m.r+m.c)*(1+sa*sw)*sw)
	}
}

// pinv: the pseudo-inverse of a small integer matrix, through integer
// matrices alone: with B the pivot columns of A, A = B*C/d for the integer
// matrix C = adj(B'B)*B'*A, d = det(B'B). nil if the numbers grow too large.
func pinv(m *Mat) *Mat {
	var cols []int
	sel := func(c []int) *Mat {
		o := newMat(m.r, len(c))
		for j, x := range c {
			for i := 0; i < m.r; i++ {
				o.set(i, j, m.at(i, x))
			}
		}
		return o
	}
	for j := 0; j < m.c; j++ {
		if c := append(cols[:len(cols):len(cols)], j); smallRank(sel(c)) == len(c) {
			cols = c
		}
	}
	if len(cols) == 0 {
		return newMat(m.c, m.r)
	}
	fits := func(x *Mat) bool { // determinants of x*x' stay exact
		v := x.maxAbs() * x.maxAbs() * float64(x.c*x.r)
		return math.Pow(v, float64(x.r)) < 1<<60
	}
	b := sel(cols)
	bt := b.T()
	if !fits(bt) {
		return nil
	}
	left, _ := adjDet(bt.mul(b))
	left = left.mul(bt) // d * pseudo-inverse of B
	c := left.mul(m)
	g := int64(0)
	for _, v := range c.a {
		g = gcd(g, int64(v))
	}
	f := float64(g)
	c = c.mapf(func(v float64) float64 { return v / f })
	if !fits(c) {
		return nil
	}
	adj, dc := adjDet(c.mul(c.T()))
	// A = B*(f*C/d), so the pseudo-inverse is (d/f)*pinv(C)*left/d
	return c.T().mul(adj).mul(left).mapf(func(v float64) float64 { return v / (dc * f) })
}

func (t *T) rectSystem(k Kind, m *Mat) {
	rank := smallRank(m)
	x := mk(k, m)
	b := rhsFor(m.r)
	var want *Mat
	tol := 0.0
	if rank == m.c { // full column rank: unique least-squares solution
		gram := m.T().mul(m)
		adj, det := adjDet(gram)
		want = adj.mul(m.T().mul(b)).mapf(func(v float64) float64 { return v / det })
		inv := adj.mapf(func(v float64) float64 { return v / det })
		tol = 1e-13 * float64(m.r+2) * rowSumNorm(gram) * rowSumNorm(inv) * math.Max(1, rowSumNorm(inv)*rowSumNorm(m.T()))
	}
	for _, sp := range solverSpecs {
		if !sp.rect {
			continue
		}
		s, err := sp.make(x)
		t.Op(1)
		t.Check(err == nil, "%s: rejected: %v", sp.name, err)
		switch {
		case sp.pinv:
			t.pseudo(sp.name, s, m, b)
			if rank == m.c {
				t.solveAll(sp.name, s, KForeign, b, want, tol)
			} else if rank == m.r { // minimum-norm solution
				t.near(sp.name+": A times the solution", m.mul(rd(s.SolveMatrix(mk(KArray, b)))), b, 1e-11*float64(m.r+m.c))
			}
		case rank == m.c:
			t.Check(s.IsNonSingular(), "%s: full column rank reported as singular", sp.name)
			t.solveAll(sp.name, s, KArray, b, want, tol)
			id := newMat(m.c, m.r)
			copyCols(id, want, m.r)
			t.near(sp.name+" Inverse", t.dims(sp.name+" Inverse", s.Inverse(), m.c, m.r), id, tol)
			t.Op(1)
		case m.r > m.c: // tall and rank deficient
			t.Check(!s.IsNonSingular(), "%s: rank %d of %d columns reported as non-singular", sp.name, rank, m.c)
			t.refuses(sp.name, s, b)
		case s.IsNonSingular(): // wide: any accepted solution satisfies the equations
			t.Check(rank == m.r, "%s: rank %d of %d rows reported as non-singular", sp.name, rank, m.r)
			t.near(sp.name+": A times the solution", m.mul(t.dims(sp.name, s.SolveMatrix(mk(KArray, b)), m.c, b.c)), b, 1e-11*float64(m.r+m.c))
			for j := 0; j < b.c; j++ {
				v := rdv(s.SolveVector(mkv(VArray, b.col(j))))
				t.nearVec(sp.name+": A times the solution vector", m.mulVec(v), b.col(j), 1e-11*float64(m.r+m.c))
			}
			t.Op(b.c + 1)
		default:
			t.refuses(sp.name, s, b)
			t.Check(!(sp.name == "RRQR" && rank == m.r), "RRQR: wide matrix of full rank %d reported as singular", rank)
		}
		if sp.name != "SVD" || m.r != m.c {
			t.wrongHeight(s, m.r)
		}
	}
	t.expectMat("input", x, m)
}

var exactSpecs = []solverSpec{
	{name: "LU", make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewLUDecompositionWithThreshold(x, 0)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
	{name: "QR", rect: true, make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewQRDecompositionWithThreshold(x, 0)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
	{name: "RRQR", rect: true, make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewRRQRDecompositionWithThreshold(x, 0)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
	solverSpecs[3], solverSpecs[4],
	{name: "Cholesky", sym: true, pd: true, make: func(x linear.RealMatrix) (linear.DecompositionSolver, error) {
		d, err := linear.NewCholeskyDecomposition(x, linear.DEFAULT_RELATIVE_SYMMETRY_THRESHOLD, 0)
		if err != nil {
			return nil, err
		}
		return d.Solver(), nil
	}},
}

// scaledSystem: the solvers of a small integer matrix times 2^e solve the
// scaled system, without a threshold that depends on the unit.
func (t *T) scaledSystem(mi *Mat, e int) {
	m := mi.mapf(func(v float64) float64 { return math.Ldexp(v, e) })
	back := func(x *Mat) *Mat { return x.mapf(func(v float64) float64 { return math.Ldexp(v, e) }) }
	rank := smallRank(mi)
	inv := pinv(mi)
	t.Check(inv != nil, "harness: no exact pseudo-inverse")
	b := rhsFor(mi.r)
	want := inv.mul(b)
	sa, sw := rowSumNorm(mi), rowSumNorm(inv)
	tol := 1e-12 * float64(mi.r+mi.c) * (1 + sa*sw) * (1 + sa*sw) * sw
	sym := mi.r == mi.c && isSym(mi)
	x := mk(KArray, m)
	for _, sp := range exactSpecs {
		if sp.sym && !sym || sp.pd && !posDef(mi) || !sp.rect && mi.r != mi.c || !sp.pinv && rank < mi.c {
			continue
		}
		s, err := sp.make(x)
		t.Check(err == nil, "%s: rejected: %v", sp.name, err)
		if rank == mi.c {
			t.Check(s.IsNonSingular() || sp.pinv && mi.r != mi.c, "%s: reported singular", sp.name)
		} else if mi.r == mi.c {
			t.Check(!s.IsNonSingular(), "%s: rank %d reported as non-singular", sp.name, rank)
		}
		t.near(sp.name+" Inverse, scaled back", back(t.dims("inverse", s.Inverse(), mi.c, mi.r)), inv, tol)
		t.near(sp.name+" SolveMatrix, scaled back", back(t.dims("solution", s.SolveMatrix(mk(KForeign, b)), mi.c, b.c)), want, tol*4)
		for j := 0; j < b.c; j++ {
			g := rdv(s.SolveVector(mkv(VForeign, b.col(j))))
			for i := range g {
				g[i] = math.Ldexp(g[i], e)
			}
			t.nearVec(fmt.Sprintf("%s SolveVector %d, scaled back", sp.name, j), g, want.col(j), tol*4)
		}
		t.Op(b.c + 3)
	}
	t.expectMat("input", x, m)
}

// unitSystem: the unknowns in other units are the same solution in those units.
func (t *T) unitSystem(mi *Mat, p []int) {
	inv := pinv(mi)
	t.Check(inv != nil, "harness: no exact pseudo-inverse")
	b := rhsFor(mi.r)
	want := inv.mul(b)
	sa, sw := rowSumNorm(mi), rowSumNorm(inv)
	tol := 1e-12 * float64(mi.r+mi.c) * (1 + sa*sw) * (1 + sa*sw) * sw
	for _, sp := range exactSpecs {
		m, bb := inUnits(mi, nil, p), b
		if sp.pd {
			if mi.r != mi.c || !isSym(mi) || !posDef(mi) {
				continue
			}
			m, bb = inUnits(mi, p, p), inUnits(b, p, nil)
		} else if sp.pinv || sp.sym || !sp.rect && mi.r != mi.c {
			continue
		}
		s, err := sp.make(mk(KArray, m))
		t.Check(err == nil, "%s: rejected: %v", sp.name, err)
		t.Check(s.IsNonSingular(), "%s: reported singular with threshold 0", sp.name)
		t.near(sp.name+" SolveMatrix, in the common unit", inUnits(t.dims("solution", s.SolveMatrix(mk(KBlock, bb)), mi.c, b.c), p, nil), want, tol*4)
		for j := 0; j < b.c; j++ {
			g := rdv(s.SolveVector(mkv(VArray, bb.col(j))))
			for i := range g {
				g[i] = math.Ldexp(g[i], p[i])
			}
			t.nearVec(fmt.Sprintf("%s SolveVector %d, in the common unit", sp.name, j), g, want.col(j), tol*4)
		}
		iv := t.dims("inverse", s.Inverse(), mi.c, mi.r)
		if sp.pd {
			iv = inUnits(iv, p, p)
		} else {
			iv = inUnits(iv, p, nil)
		}
		t.near(sp.name+" Inverse, in the common unit", iv, inv, tol)
		t.Op(b.c + 3)
	}
}

// extremeSystem solves diag(d)*2^e * X = B*2^e.
func (t *T) extremeSystem(d []float64, e int) {
	n := len(d)
	m := newMat(n, n)
	sing, pd := false, true
	for i, v := range d {
		m.set(i, i, math.Ldexp(v, e))
		sing = sing || v == 0
		pd = pd && v > 0
	}
	x := ints(n, 2, 3)
	b := m.mul(x)
	for _, sp := range []solverSpec{
		{name: "LU", make: func(m linear.RealMatrix) (linear.DecompositionSolver, error) {
			d, err := linear.NewLUDecompositionWithThreshold(m, math.SmallestNonzeroFloat64)
			return d.Solver(), err
		}},
		{name: "Cholesky", pd: true, make: func(m linear.RealMatrix) (linear.DecompositionSolver, error) {
			d, err := linear.NewCholeskyDecomposition(m, 1e-15, 0)
			if err != nil {
				return nil, err
			}
			return d.Solver(), err
		}},
		{name: "Eigen", make: func(m linear.RealMatrix) (linear.DecompositionSolver, error) {
			d, err := linear.NewEigenDecomposition(m)
			if err != nil {
				return nil, err
			}
			return d.Solver(), err
		}},
	} {
		if sp.pd && !pd {
			continue
		}
		s, err := sp.make(mk(KArray, m))
		t.Check(err == nil, "%s: rejected: %v", sp.name, err)
		t.Op(5)
		if sing {
			t.Check(!s.IsNonSingular(), "%s: singular matrix reported non-singular", sp.name)
			if sp.name == "SVD" {
				continue
			}
			rej := tryDo(func() { s.SolveMatrix(mk(KArray, b)) })
			t.Check(rej != nil && rej.Typed, "%s: SolveMatrix of a singular system: %v", sp.name, rej)
			rej = tryDo(func() { s.SolveVector(mkv(VArray, b.col(0))) })
			t.Check(rej != nil && rej.Typed, "%s: SolveVector of a singular system: %v", sp.name, rej)
			rej = tryDo(func() { s.Inverse() })
			t.Check(rej != nil && rej.Typed, "%s: Inverse of a singular matrix: %v", sp.name, rej)
			continue
		}
		t.Check(s.IsNonSingular(), "%s: reported singular", sp.name)
		t.near(sp.name+" solution", t.dims("solution", s.SolveMatrix(mk(KBlock, b)), n, 2), x, 1e-12)
		for j := 0; j < 2; j++ {
			t.nearVec(fmt.Sprintf("%s solution %d", sp.name, j), rdv(s.SolveVector(mkv(VForeign, b.col(j)))), x.col(j), 1e-12)
		}
		iv := t.dims("inverse", s.Inverse(), n, n)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				w := 0.0
				if i == j {
					w = 1
				}
				t.Check(math.Abs(iv.at(i, j)*m.at(j, j)-w) <= 1e-12, "%s: inverse times matrix is %v at (%d,%d)", sp.name, iv.at(i, j)*m.at(j, j), i, j)
			}
		}
	}
}

// gradedSystem: singular values 1 and 2^-k (and one between), in several
// bases; the inverse is that of the part of the reported rank.
func (t *T) gradedSystem(n, shape, k int) {
	d := newMat(n, n)
	for i := 0; i < n; i++ {
		e := -k * i / (n - 1)
		if shape%2 == 1 {
			e = -k * (n - 1 - i) / (n - 1)
		}
		d.set(i, i, math.Ldexp(1, e))
	}
	h := eye(n)
	h.set(0, 0, 1)
	h.set(0, n-1, 1)
	h.set(n-1, 0, 1)
	h.set(n-1, n-1, -1)
	m := d
	if shape >= 2 {
		m = h.mul(m)
	}
	if shape >= 4 {
		m = m.mul(h.T())
	}
	sv, err := linear.NewSingularValueDecomposition(mk(KArray, m))
	t.Check(err == nil, "rejected: %v", err)
	rank := sv.Rank()
	t.Check(rank >= 1 && rank <= n, "rank %d", rank)
	u, v, s := rd(sv.U()), rd(sv.V()), sv.SingularValues()
	want := newMat(n, n)
	for x := 0; x < rank; x++ {
		t.Check(s[x] > 0, "singular value %d within the rank %d is %v", x, rank, s[x])
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				want.a[i*n+j] += v.at(i, x) * u.at(j, x) / s[x]
			}
		}
	}
	solver := sv.Solver()
	g := t.dims("inverse", solver.Inverse(), n, n)
	t.near("inverse against the part within the rank", g, want, 1e-10*rowSumNorm(want))
	t.Check(solver.IsNonSingular() == (rank == n), "IsNonSingular is %v with rank %d of %d", solver.IsNonSingular(), rank, n)
	b := rhsFor(n)
	t.near("solution", rd(solver.SolveMatrix(mk(KBlock, b))), want.mul(b), 1e-9*rowSumNorm(want))
	t.Op(5)
}

func copyCols(dst, src *Mat, n int) {
	for i := 0; i < dst.r; i++ {
		for j := 0; j < n; j++ {
			dst.set(i, j, src.at(i, j))
		}
	}
}

func checkC24(r *Run) {
	type sp struct {
		r, c int
		al   []float64
	}
	a1, a2 := rangeAlpha(-1, 1), rangeAlpha(-2, 2)
	list := []sp{{1, 1, rangeAlpha(-5, 5)}, {2, 2, rangeAlpha(-4, 4)}, {3, 3, a1}, {3, 3, []float64{0, 1, 2}}, {4, 4, []float64{0, 1}},
		{2, 1, a2}, {3, 1, a2}, {3, 2, a2}, {4, 2, a1}, {4, 3, []float64{0, 1}}, {1, 2, a2}, {1, 3, a2}, {2, 3, a2}, {2, 4, a1}, {3, 4, []float64{0, 1}}}
	if r.thorough {
		list = append(list, sp{4, 4, []float64{-1, 1}}, sp{5, 2, a1}, sp{2, 5, a1}, sp{5, 3, []float64{0, 1}}, sp{3, 5, []float64{0, 1}})
	}
	if r.deep {
		list = append(list, sp{3, 3, a2}, sp{4, 3, a1}, sp{3, 4, a1})
	}
	for li, s := range list {
		r.forAllMats(fmt.Sprintf("exhaustive%d", li), s.r, s.c, s.al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return m.String() }, func() {
				if m.r == m.c {
					t.squareSystem(KArray, m)
				} else {
					t.rectSystem(KArray, m)
				}
			})
		})
	}
	if r.deep {
		// order 5, zeros below the first sub-diagonal
		r.forAllMats("hessenberg5", 1, 19, []float64{0, 1}, func(t *T, v *Mat) {
			m, x := newMat(5, 5), 0
			for i := 0; i < 5; i++ {
				for j := max(i-1, 0); j < 5; j++ {
					m.set(i, j, v.a[x])
					x++
				}
			}
			t.Fresh()
			t.Do(func() string { return m.String() }, func() { t.squareSystem(KArray, m) })
		})
	}
	symList := []sp{{3, 3, a2}, {4, 4, []float64{0, 1, 2}}}
	if r.thorough {
		symList = append(symList, sp{5, 5, []float64{0, 1}})
	}
	if r.deep {
		symList = append(symList, sp{3, 3, rangeAlpha(-3, 4)}, sp{4, 4, rangeAlpha(-1, 2)})
	}
	for li, s := range symList {
		r.forSym(fmt.Sprintf("symmetric%d", li), s.r, s.al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return m.String() }, func() { t.squareSystem(KArray, m) })
		})
	}
	// small systems times powers of two, thresholds that reject only exact zeros
	scaledList := []sp{{1, 1, a2}, {2, 2, a2}, {3, 3, []float64{0, 1}}, {3, 2, a1}, {2, 3, a1}, {4, 2, []float64{0, 1}}, {2, 4, []float64{0, 1}}}
	if r.thorough {
		scaledList = append(scaledList, sp{3, 3, a1}, sp{3, 1, a2}, sp{1, 3, a2}, sp{2, 2, rangeAlpha(-3, 3)})
	}
	if r.deep {
		scaledList = append(scaledList, sp{4, 4, []float64{0, 1}}, sp{3, 2, a2}, sp{2, 3, a2})
	}
	for _, e := range []int{-450, -140, -60, -40, 40, 60, 140, 450} {
		for li, s := range scaledList {
			r.forAllMats(fmt.Sprintf("scaled%d/%d", e, li), s.r, s.c, s.al, func(t *T, m *Mat) {
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%v * 2^%d", m, e) }, func() { t.scaledSystem(m, e) })
			})
		}
	}
	// diagonal systems in units whose squares overflow or underflow, for the
	// solvers that need not square the entries of such a matrix
	for _, n := range []int{1, 2, 3, 4} {
		r.forAllMats(fmt.Sprintf("extreme-units/%d", n), 1, n, []float64{-3, 1, 2, 0}, func(t *T, d *Mat) {
			for _, e := range []int{-1010, -900, -700, -560, 560, 700, 900, 1010} {
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("diag(%v) * 2^%d", d.a, e) }, func() { t.extremeSystem(d.a, e) })
			}
		})
	}
	// columns (for Cholesky rows and columns) in different units
	unitList := []sp{{2, 2, a2}, {3, 2, a1}, {3, 3, []float64{0, 1}}}
	if r.deep {
		unitList = append(unitList, sp{3, 3, a1}, sp{4, 2, a1})
	}
	for li, s := range unitList {
		r.forAllMats(fmt.Sprintf("units%d", li), s.r, s.c, s.al, func(t *T, m *Mat) {
			if smallRank(m) < m.c {
				return
			}
			for _, p := range unitPatterns(m.c, 60) {
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%v with columns times 2^%v", m, p) }, func() { t.unitSystem(m, p) })
			}
		})
	}
	// graded matrices: the SVD solver drops exactly the directions its rank drops
	for _, n := range []int{2, 3} {
		r.Group(fmt.Sprintf("graded/%d", n), func(t *T) {
			for k := 0; k <= 70; k++ {
				for shape := 0; shape < 6; shape++ {
					t.Fresh()
					t.Do(func() string { return fmt.Sprintf("order %d, shape %d, 2^-%d", n, shape, k) }, func() { t.gradedSystem(n, shape, k) })
				}
			}
		})
	}
	// wrong heights, all solvers, all sizes
	for _, n := range numSizes(r.thorough) {
		r.Group(fmt.Sprintf("heights/%d", n), func(t *T) {
			m := spd(n)
			for _, sp := range solverSpecs {
				t.Do(func() string { return fmt.Sprintf("%s %d", sp.name, n) }, func() {
					s, err := sp.make(mk(KArray, m))
					t.Check(err == nil, "%s: rejected: %v", sp.name, err)
					t.wrongHeight(s, n)
				})
			}
		})
	}
	// large systems: B = A*X0 for an integer X0
	widths := []int{1, 2, 51, 52, 53, 104, 105}
	for _, n := range numSizes(r.thorough) {
		for _, ka := range denseKinds {
			if ka == KShared {
				continue
			}
			r.Group(fmt.Sprintf("large/%v/%d", ka, n), func(t *T) {
				fams := []namedMat{{"spd", spd(n)}, {"nonsing", nonsing(n)}, {"cyclic", cyclic(n)}, {"tri", triToeplitz(n)}}
				for _, fm := range fams {
					sym := isSym(fm.m)
					for _, sp := range solverSpecs {
						if sp.sym && !sym || sp.pd && fm.name == "cyclic" {
							continue
						}
						var s linear.DecompositionSolver
						t.Do(func() string { return fmt.Sprintf("%s of %v %s %d", sp.name, ka, fm.name, n) }, func() {
							var err error
							s, err = sp.make(mk(ka, fm.m))
							t.Op(1)
							t.Check(err == nil, "%s: rejected: %v", sp.name, err)
							t.Check(s.IsNonSingular(), "%s: reported as singular", sp.name)
							inv := t.dims("inverse", s.Inverse(), n, n)
							t.near("A times the inverse", fm.m.mul(inv), eye(n), 1e-9)
							t.near("inverse times A", inv.mul(fm.m), eye(n), 1e-9)
						})
						if s == nil {
							continue
						}
						for wi, w := range widths {
							kb := denseKinds[wi%len(denseKinds)]
							t.State(fmt.Sprint(fm.name, sp.name, w, kb))
							t.Do(func() string {
								return fmt.Sprintf("%s of %v %s %d, %v rhs of width %d", sp.name, ka, fm.name, n, kb, w)
							}, func() {
								x0 := ints(n, w, 17)
								b := mk(kb, fm.m.mul(x0))
								got := t.dims("solution", s.SolveMatrix(b), n, w)
								t.near("solution", got, x0, 1e-9)
								j := w - 1
								t.nearVec("vector solution", rdv(s.SolveVector(mkv(allVKinds[wi%2], fm.m.mul(x0).col(j)))), x0.col(j), 1e-9)
								t.expectMat("right-hand side", b, fm.m.mul(x0))
								t.Op(2)
							})
						}
					}
				}
			})
		}
	}
	// diagonal operands on either side
	for _, n := range []int{1, 2, 3, 7, 52, 53, 64} {
		r.Group(fmt.Sprintf("diagonal/%d", n), func(t *T) {
			d := make([]float64, n)
			for i := range d {
				d[i] = math.Ldexp(1, i%4)
			}
			dm := diagMat(d)
			for _, sp := range solverSpecs {
				t.Do(func() string { return fmt.Sprintf("%s of diagonal %d", sp.name, n) }, func() {
					s, err := sp.make(mk(KDiag, dm))
					t.Check(err == nil, "%s: rejected: %v", sp.name, err)
					t.near("solution", t.dims("solution", s.SolveMatrix(mk(KDiag, dm)), n, n), eye(n), 1e-12)
					t.near("inverse", rd(s.Inverse()), diagMat(mapv(d, func(v float64) float64 { return 1 / v })), 1e-12)
					t.Op(2)
				})
			}
		})
	}
	// large tall systems with an exact solution, and tall/wide rank-deficient ones
	for _, s := range [][2]int{{5, 3}, {20, 7}, {53, 52}, {60, 10}, {105, 53}, {70, 64}, {130, 5}, {65, 1}} {
		r.Group(fmt.Sprintf("tall/%dx%d", s[0], s[1]), func(t *T) {
			m := newMat(s[0], s[1])
			base := ints(s[0], s[1], 23)
			for i := range m.a {
				m.a[i] = base.a[i]
			}
			for j := 0; j < s[1]; j++ {
				m.set(j, j, m.at(j, j)+float64(8*s[1]))
			}
			for _, ka := range []Kind{KArray, KBlock, KForeign} {
				for _, sp := range solverSpecs {
					if !sp.rect {
						continue
					}
					for _, w := range []int{1, 3, 52, 53, 105} {
						t.Do(func() string { return fmt.Sprintf("%s of %v, width %d", sp.name, ka, w) }, func() {
							sv, err := sp.make(mk(ka, m))
							t.Check(err == nil, "%s: rejected: %v", sp.name, err)
							x0 := ints(s[1], w, 19)
							b := m.mul(x0)
							t.near("solution", t.dims("solution", sv.SolveMatrix(mk(ka, b)), s[1], w), x0, 1e-9)
							t.nearVec("vector solution", rdv(sv.SolveVector(mkv(VForeign, b.col(w-1)))), x0.col(w-1), 1e-9)
							// a residual orthogonal to the columns leaves the solution unchanged
							rnd := ints(s[0], w, 29)
							x := rd(sv.SolveMatrix(mk(KArray, rnd)))
							res := rnd.zip(m.mul(x), func(a, b float64) float64 { return a - b })
							t.near("columns times the residual", m.T().mul(res), newMat(s[1], w), 1e-6)
							t.Op(4)
						})
					}
					t.Do(func() string { return fmt.Sprintf("%s of %v, inverse", sp.name, ka) }, func() {
						sv, err := sp.make(mk(ka, m))
						t.Check(err == nil, "%s: rejected: %v", sp.name, err)
						inv := t.dims("inverse", sv.Inverse(), s[1], s[0])
						t.near("inverse times A", inv.mul(m), eye(s[1]), 1e-9)
						p := m.mul(inv)
						t.near("A times the inverse is symmetric", p.T(), p, 1e-9)
						t.Op(2)
					})
				}
			}
		})
	}
}

func mapv(v []float64, f func(float64) float64) []float64 {
	o := make([]float64, len(v))
	for i := range v {
		o[i] = f(v[i])
	}
	return o
}
