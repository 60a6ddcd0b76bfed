package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/jtejido/linear"
)

// ---------------------------------------------------------------- exact oracles (integer matrices)

// exactDet is the determinant of a small-integer matrix (fraction-free).
func exactDet(m *Mat) *big.Int {
	n := m.r
	a := make([][]*big.Int, n)
	for i := range a {
		a[i] = make([]*big.Int, n)
		for j := range a[i] {
			a[i][j] = big.NewInt(int64(m.at(i, j)))
		}
	}
	sign := 1
	prev := big.NewInt(1)
	for k := 0; k < n-1; k++ {
		if a[k][k].Sign() == 0 {
			p := -1
			for i := k + 1; i < n; i++ {
				if a[i][k].Sign() != 0 {
					p = i
					break
				}
			}
			if p < 0 {
				return big.NewInt(0)
			}
			a[k], a[p] = a[p], a[k]
			sign = -sign
		}
		for i := k + 1; i < n; i++ {
			for j := k + 1; j < n; j++ {
				x := new(big.Int).Mul(a[i][j], a[k][k])
				y := new(big.Int).Mul(a[i][k], a[k][j])
				x.Sub(x, y)
				a[i][j] = x.Quo(x, prev)
			}
		}
		prev = a[k][k]
	}
	d := new(big.Int).Set(a[n-1][n-1])
	if sign < 0 {
		d.Neg(d)
	}
	return d
}

// intDet is exactDet for small sizes in machine integers (no overflow for the
// alphabets used: n <= 5 and entries of magnitude at most 5).
func intDet(a []int64, n int) int64 {
	switch n {
	case 0:
		return 1
	case 1:
		return a[0]
	case 2:
		return a[0]*a[3] - a[1]*a[2]
	case 3:
		return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6])
	}
	var d int64
	sub := make([]int64, (n-1)*(n-1))
	for c := 0; c < n; c++ {
		if a[c] == 0 {
			continue
		}
		k := 0
		for i := 1; i < n; i++ {
			for j := 0; j < n; j++ {
				if j != c {
					sub[k] = a[i*n+j]
					k++
				}
			}
		}
		x := a[c] * intDet(sub, n-1)
		if c%2 == 1 {
			x = -x
		}
		d += x
	}
	return d
}

func toInts(m *Mat) []int64 {
	o := make([]int64, len(m.a))
	for i, v := range m.a {
		o[i] = int64(v)
	}
	return o
}

func det(m *Mat) float64 {
	if m.r <= 5 {
		return float64(intDet(toInts(m), m.r))
	}
	f, _ := new(big.Float).SetInt(exactDet(m)).Float64()
	return f
}

// exactRank is the rank of an integer matrix.
func exactRank(m *Mat) int {
	a := make([][]*big.Rat, m.r)
	for i := range a {
		a[i] = make([]*big.Rat, m.c)
		for j := range a[i] {
			a[i][j] = new(big.Rat).SetInt64(int64(m.at(i, j)))
		}
	}
	rank := 0
	for c := 0; c < m.c && rank < m.r; c++ {
		p := -1
		for i := rank; i < m.r; i++ {
			if a[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		a[rank], a[p] = a[p], a[rank]
		for i := rank + 1; i < m.r; i++ {
			if a[i][c].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Quo(a[i][c], a[rank][c])
			for j := c; j < m.c; j++ {
				a[i][j].Sub(a[i][j], new(big.Rat).Mul(f, a[rank][j]))
			}
		}
		rank++
	}
	return rank
}

// smallRank is exactRank by minors for tiny matrices (fast path).
func smallRank(m *Mat) int {
	// fraction-free Gaussian elimination in int64
	a := toInts(m)
	r, c := m.r, m.c
	rank := 0
	for col := 0; col < c && rank < r; col++ {
		p := -1
		for i := rank; i < r; i++ {
			if a[i*c+col] != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		for j := 0; j < c; j++ {
			a[rank*c+j], a[p*c+j] = a[p*c+j], a[rank*c+j]
		}
		pv := a[rank*c+col]
		for i := rank + 1; i < r; i++ {
			f := a[i*c+col]
			if f == 0 {
				continue
			}
			var g int64
			for j := col; j < c; j++ {
				a[i*c+j] = a[i*c+j]*pv - a[rank*c+j]*f
				g = gcd(g, a[i*c+j])
			}
			if g > 1 {
				for j := col; j < c; j++ {
					a[i*c+j] /= g
				}
			}
		}
		rank++
	}
	return rank
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// charPoly gives the coefficients c[0..n] of det(xI-A) = sum c[k] x^k
// (Faddeev-LeVerrier; exact for the integer alphabets used).
func charPoly(m *Mat) []float64 {
	n := m.r
	c := make([]float64, n+1)
	c[n] = 1
	M := newMat(n, n)
	for k := 1; k <= n; k++ {
		// M = A M + c[n-k+1] I
		M = m.mul(M)
		for i := 0; i < n; i++ {
			M.set(i, i, M.at(i, i)+c[n-k+1])
		}
		am := m.mul(M)
		tr := 0.0
		for i := 0; i < n; i++ {
			tr += am.at(i, i)
		}
		c[n-k] = -tr / float64(k)
	}
	return c
}

// polyOf gives the coefficients of prod (x - lambda_i).
func polyOf(re, im []float64) []complex128 {
	p := []complex128{1}
	for i := range re {
		l := complex(re[i], im[i])
		q := make([]complex128, len(p)+1)
		for k, v := range p {
			q[k+1] += v
			q[k] -= l * v
		}
		p = q
	}
	return p
}

// ---------------------------------------------------------------- numeric checks

func (t *T) finite(what string, m *Mat) {
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			if v := m.at(i, j); math.IsNaN(v) || math.IsInf(v, 0) {
				t.Failf("%s: entry (%d,%d) is %v", what, i, j, v)
			}
		}
	}
}

// near fails unless |got-want| <= tol everywhere.
func (t *T) near(what string, got, want *Mat, tol float64) {
	if got.r != want.r || got.c != want.c {
		t.Failf("%s: dimensions %dx%d, want %dx%d", what, got.r, got.c, want.r, want.c)
	}
	for i := range got.a {
		if !(math.Abs(got.a[i]-want.a[i]) <= tol) {
			t.Failf("%s: entry (%d,%d) is %v, want %v (tolerance %g)", what, i/got.c, i%got.c, got.a[i], want.a[i], tol)
		}
	}
}

// nearCols fails unless every column of got is within rel of the largest entry
// of that column of want: the backward error of an orthogonal reduction, which
// does not mix the units of the columns.
func (t *T) nearCols(what string, got, want *Mat, rel float64) {
	for j := 0; j < want.c; j++ {
		s := 0.0
		for i := 0; i < want.r; i++ {
			s = math.Max(s, math.Abs(want.at(i, j)))
		}
		for i := 0; i < want.r; i++ {
			if !(math.Abs(got.at(i, j)-want.at(i, j)) <= rel*s) {
				t.Failf("%s: entry (%d,%d) is %v, want %v (the column has entries up to %v)", what, i, j, got.at(i, j), want.at(i, j), s)
			}
		}
	}
}

// unitPatterns are the exponents given to n rows or columns: every vector over
// {-e, 0, e} that is not constant.
func unitPatterns(n, e int) [][]int {
	var out [][]int
	for code := 0; code < int(math.Pow(3, float64(n))); code++ {
		v, c, same := make([]int, n), code, true
		for i := range v {
			v[i] = (c%3 - 1) * e
			c /= 3
			same = same && v[i] == v[0]
		}
		if !same {
			out = append(out, v)
		}
	}
	return out
}

// inUnits scales the rows and columns of m by powers of two (nil: none).
func inUnits(m *Mat, rows, cols []int) *Mat {
	o := newMat(m.r, m.c)
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			e := 0
			if rows != nil {
				e += rows[i]
			}
			if cols != nil {
				e += cols[j]
			}
			o.set(i, j, math.Ldexp(m.at(i, j), e))
		}
	}
	return o
}

// unitInputs registers small integer matrices whose columns (or rows) are
// measured in different units.
func (r *Run) unitInputs(f func(t *T, m *Mat)) {
	type sp struct {
		r, c int
		al   []float64
	}
	a1 := rangeAlpha(-1, 1)
	list := []sp{{2, 2, rangeAlpha(-2, 2)}, {3, 2, a1}, {2, 3, a1}, {3, 3, []float64{0, 1}}, {1, 3, a1}}
	if r.deep {
		list = append(list, sp{3, 3, a1}, sp{4, 2, a1})
	}
	for li, s := range list {
		r.forAllMats(fmt.Sprintf("units%d", li), s.r, s.c, s.al, func(t *T, m *Mat) {
			for _, p := range unitPatterns(s.c, 60) {
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%v with columns times 2^%v", m, p) }, func() { f(t, inUnits(m, nil, p)) })
			}
			for _, p := range unitPatterns(s.r, 60) {
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%v with rows times 2^%v", m, p) }, func() { f(t, inUnits(m, p, nil)) })
			}
		})
	}
}

func (t *T) nearVec(what string, got, want []float64, tol float64) {
	if len(got) != len(want) {
		t.Failf("%s: length %d, want %d", what, len(got), len(want))
	}
	for i := range got {
		if !(math.Abs(got[i]-want[i]) <= tol) {
			t.Failf("%s: entry %d is %v, want %v (tolerance %g)", what, i, got[i], want[i], tol)
		}
	}
}

// orthoCols fails unless the columns of q are orthonormal.
func (t *T) orthoCols(what string, q *Mat, tol float64) {
	t.finite(what, q)
	t.near(what+"ᵀ·"+what, q.T().mul(q), eye(q.c), tol)
}

func (t *T) dims(what string, m linear.RealMatrix, r, c int) *Mat {
	if m == nil {
		t.Failf("%s is nil", what)
	}
	if m.RowDimension() != r || m.ColumnDimension() != c {
		t.Failf("%s is %dx%d, want %dx%d", what, m.RowDimension(), m.ColumnDimension(), r, c)
	}
	o := rd(m)
	t.finite(what, o)
	return o
}

// shapeZero fails unless all entries with pred are exactly zero (tol 0) or small.
func (t *T) zeroWhere(what string, m *Mat, tol float64, pred func(i, j int) bool) {
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			if pred(i, j) && !(math.Abs(m.at(i, j)) <= tol) {
				t.Failf("%s: entry (%d,%d) is %v, want 0", what, i, j, m.at(i, j))
			}
		}
	}
}

func (t *T) transposeOf(what string, a, b *Mat) {
	x := b.T()
	t.Check(a.r == x.r && a.c == x.c, "%s: %dx%d is not the transpose of %dx%d", what, a.r, a.c, b.r, b.c)
	t.expectSliceEq(what, a.a, x.a)
}

// ---------------------------------------------------------------- input families

type namedMat struct {
	name string
	m    *Mat
}

func triToeplitz(n int) *Mat {
	m := newMat(n, n)
	for i := 0; i < n; i++ {
		m.set(i, i, 2)
		if i > 0 {
			m.set(i, i-1, -1)
			m.set(i-1, i, -1)
		}
	}
	return m
}

func symInts(n, salt int) *Mat {
	m := ints(n, n, salt)
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			m.set(i, j, m.at(j, i))
		}
	}
	return m
}

func constMat(r, c int, v float64) *Mat {
	m := newMat(r, c)
	for i := range m.a {
		m.a[i] = v
	}
	return m
}

func cyclic(n int) *Mat {
	m := newMat(n, n)
	for i := 0; i < n; i++ {
		m.set(i, (i+1)%n, 1)
	}
	return m
}

func lowRank(r, c, k int) *Mat { return ints(r, k, 31).mul(ints(k, c, 32)) }

// rectFamilies gives structured integer matrices of shape r x c.
func rectFamilies(r, c int) []namedMat {
	out := []namedMat{{"ints", ints(r, c, 1)}, {"ints2", ints(r, c, 8)}, {"ones", constMat(r, c, 1)}, {"zero", newMat(r, c)}}
	k := min(r, c)
	if k > 2 {
		out = append(out, namedMat{"rank2", lowRank(r, c, 2)}, namedMat{"rankhalf", lowRank(r, c, (k+1)/2)})
	}
	e := newMat(r, c)
	for i := 0; i < k; i++ {
		e.set(i, i, float64(k-i))
	}
	out = append(out, namedMat{"diag", e})
	z := ints(r, c, 5) // zero first and last columns and rows
	for i := 0; i < r; i++ {
		z.set(i, 0, 0)
		z.set(i, c-1, 0)
	}
	out = append(out, namedMat{"zerocols", z})
	y := ints(r, c, 6)
	for j := 0; j < c; j++ {
		y.set(0, j, 0)
	}
	out = append(out, namedMat{"zerorow", y})
	if r > 1 {
		d := ints(r, c, 7)
		for j := 0; j < c; j++ {
			d.set(r-1, j, d.at(0, j))
		}
		out = append(out, namedMat{"duprow", d})
	}
	if c > 1 {
		d := ints(r, c, 13)
		for i := 0; i < r; i++ {
			d.set(i, c/2, d.at(i, 0))
		}
		out = append(out, namedMat{"dupcol", d})
	}
	if k > 1 {
		g, h, w := ints(r, c, 14), newMat(r, c), newMat(r, c)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				g.set(i, j, math.Ldexp(g.at(i, j), min(k-1-min(i, j, k-1), 9)*2)) // graded, large entries first
				if i == j {
					g.set(i, j, math.Ldexp(3, min(k-1-i, 9)*2))
					h.set(i, j, math.Ldexp(1, min(i, 20))) // graded diagonal, small entries first
				}
				b := 0
				for q := i & j; q > 0; q &= q - 1 {
					b++
				}
				w.set(i, j, float64(1-2*(b%2))) // Walsh signs
			}
		}
		out = append(out, namedMat{"graded", g}, namedMat{"gradeddiag", h}, namedMat{"walsh", w})
	}
	return out
}

// squareFamilies gives structured integer square matrices.
func squareFamilies(n int) []namedMat {
	out := rectFamilies(n, n)
	up, lo := ints(n, n, 11), ints(n, n, 12)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i > j {
				up.set(i, j, 0)
			}
			if i < j {
				lo.set(i, j, 0)
			}
		}
		up.set(i, i, float64(i%3+1))
		lo.set(i, i, float64(-(i%2 + 1)))
	}
	return append(out, namedMat{"identity", eye(n)}, namedMat{"cyclic", cyclic(n)}, namedMat{"tri", triToeplitz(n)}, namedMat{"spd", spd(n)},
		namedMat{"nonsing", nonsing(n)}, namedMat{"sym", symInts(n, 3)}, namedMat{"upper", up}, namedMat{"lower", lo})
}

func symFamilies(n int) []namedMat {
	return []namedMat{{"sym", symInts(n, 3)}, {"sym2", symInts(n, 4)}, {"spd", spd(n)}, {"tri", triToeplitz(n)}, {"identity", eye(n)}, {"zero", newMat(n, n)},
		{"ones", constMat(n, n, 1)}, {"diag", diagMat(intVec(n, 9))}, {"negspd", spd(n).mapf(func(x float64) float64 { return -x })}, {"gramrank2", func() *Mat { a := ints(n, min(n, 2), 41); return a.mul(a.T()) }()},
		{"antidiag", func() *Mat {
			m := newMat(n, n)
			for i := 0; i < n; i++ {
				m.set(i, n-1-i, 1)
			}
			return m
		}()},
		{"arrow", func() *Mat {
			m := newMat(n, n)
			for i := 0; i < n; i++ {
				m.set(i, i, float64(i+1))
				m.set(0, i, 1)
				m.set(i, 0, 1)
			}
			return m
		}()}}
}

func numSizes(thorough bool) []int {
	if thorough {
		return append(seqFrom(1, 70), 79, 103, 104, 105, 110)
	}
	return append(seqFrom(1, 53), 64, 65)
}

func seqFrom(a, b int) []int {
	var o []int
	for ; a <= b; a++ {
		o = append(o, a)
	}
	return o
}

// sweepSizes are sizes away from the storage-block boundaries as well: every
// size up to 72 and a selection of larger ones.
func sweepSizes(thorough bool) []int {
	o := append(seqFrom(4, 72), 80, 96, 100, 110, 111, 119, 120, 127, 128, 129, 130, 155, 156, 157, 158, 208, 209, 257)
	if thorough {
		o = append(seqFrom(4, 160), 208, 209, 255, 256, 257, 300)
	}
	return o
}

// sweepShapes are tall, wide and square shapes of the sweep sizes.
func sweepShapes(thorough bool) [][2]int {
	var o [][2]int
	for _, n := range sweepSizes(thorough) {
		o = append(o, [2]int{n, 2}, [2]int{2, n}, [2]int{n, 1}, [2]int{1, n})
		if n <= 72 || n == 110 || n == 130 || n == 157 {
			o = append(o, [2]int{n, n})
		}
	}
	return o
}

func rectShapes(thorough bool) [][2]int {
	out := [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 5}, {5, 1}, {2, 3}, {3, 2}, {4, 7}, {7, 4}, {8, 8}, {52, 53}, {53, 52}, {53, 3}, {3, 53}, {60, 70}, {70, 60}, {1, 60}, {60, 1}, {105, 2}, {2, 105}}
	for n := 9; n <= 51 && !thorough; n++ { // every order once tall, once wide
		out = append(out, [2]int{n, n - 1}, [2]int{n, n + 2})
	}
	if thorough {
		for r := 1; r <= 12; r++ {
			for c := 1; c <= 12; c++ {
				out = append(out, [2]int{r, c})
			}
		}
		for _, d := range []int{51, 52, 53, 54, 63, 64, 65, 66, 104, 105} {
			for _, e := range []int{1, 2, 5, 52, 53, 64, 65, 105} {
				out = append(out, [2]int{d, e}, [2]int{e, d})
			}
		}
		for n := 13; n <= 70; n++ { // every size
			out = append(out, [2]int{n, n}, [2]int{n, n + 1}, [2]int{n + 2, n - 1})
		}
	}
	return out
}

// forSym registers groups enumerating all symmetric n x n matrices over the alphabet.
func (r *Run) forSym(name string, n int, al []float64, f func(t *T, m *Mat)) {
	k := n * (n + 1) / 2
	r.forAllMats(name, 1, k, al, func(t *T, v *Mat) {
		m := newMat(n, n)
		x := 0
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				m.set(i, j, v.a[x])
				m.set(j, i, v.a[x])
				x++
			}
		}
		f(t, m)
	})
}

var pow2scales = []float64{1, 1.0 / (1 << 20), 1 << 20, math.Ldexp(1, -40), math.Ldexp(1, 40), math.Ldexp(1, -200), math.Ldexp(1, 200)}

// scales are the scalings of the exhaustive domains; determinants need some room.
func (r *Run) scales() []float64 {
	out := pow2scales[1:]
	if r.prop != "C15" {
		out = append(append([]float64{}, out...), math.Ldexp(1, -450), math.Ldexp(1, 450))
	}
	switch r.prop {
	case "C20":
		out = append(out, math.Ldexp(1, -960), math.Ldexp(1, 960))
	case "C16", "C17":
		out = append(out, math.Ldexp(1, -1000), math.Ldexp(1, 1000))
	}
	return out
}

func scaled(m *Mat, s float64) *Mat { return m.mapf(func(x float64) float64 { return x * s }) }

// eachInput registers the standard inputs of a rectangular decomposition:
// exhaustive small alphabets, scaled ones, structured families, all kinds.
func (r *Run) rectInputs(f func(t *T, name string, k Kind, m *Mat)) {
	type sp struct {
		r, c int
		al   []float64
	}
	a1, a2 := rangeAlpha(-1, 1), rangeAlpha(-2, 2)
	list := []sp{{1, 1, rangeAlpha(-3, 3)}, {1, 2, rangeAlpha(-3, 3)}, {2, 1, rangeAlpha(-3, 3)}, {2, 2, rangeAlpha(-3, 3)}, {1, 3, a2}, {3, 1, a2}, {2, 3, a2}, {3, 2, a2}, {3, 3, a1}, {2, 4, a1}, {4, 2, a1}, {3, 4, []float64{0, 1}}, {4, 3, []float64{0, 1}}, {4, 4, []float64{0, 1}}}
	if r.thorough {
		list = append(list, sp{3, 3, a2}, sp{3, 4, []float64{0, 1, -1}}, sp{4, 3, []float64{0, 1, -1}}, sp{4, 4, []float64{-1, 1}}, sp{2, 5, a1}, sp{5, 2, a1})
	}
	if r.deep {
		list = append(list, sp{2, 4, a2}, sp{4, 2, a2}, sp{3, 4, []float64{0, 1, 2}}, sp{4, 3, []float64{0, 1, 2}}, sp{2, 2, rangeAlpha(-9, 9)}, sp{3, 2, rangeAlpha(-4, 4)}, sp{2, 3, rangeAlpha(-4, 4)})
		if r.heavy == 0 {
			list = append(list, sp{5, 3, a1}, sp{3, 5, a1}, sp{4, 4, a1})
		}
	}
	for li, s := range list {
		r.forAllMats(fmt.Sprintf("exhaustive%d", li), s.r, s.c, s.al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return m.String() }, func() { f(t, "", KArray, m) })
		})
	}
	for _, sc := range r.scales() {
		for _, s := range []sp{{2, 2, a2}, {2, 3, a1}, {3, 2, a1}} {
			r.forAllMats(fmt.Sprintf("scaled%g", sc), s.r, s.c, s.al, func(t *T, m *Mat) {
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%v * %g", m, sc) }, func() { f(t, "scaled", KArray, scaled(m, sc)) })
			})
		}
	}
	for _, s := range rectShapes(r.thorough) {
		for ki, k := range allKinds {
			if k == KShared || s[0] > 12 && s[0] < 71 && !r.deep && s[0]%len(allKinds) != ki && k != KArray {
				continue
			}
			r.Group(fmt.Sprintf("families/%v/%dx%d", k, s[0], s[1]), func(t *T) {
				for _, fm := range rectFamilies(s[0], s[1]) {
					if !fits(k, fm.m) {
						continue
					}
					t.State(fm.name)
					t.Do(func() string { return fmt.Sprintf("%v %s %dx%d", k, fm.name, s[0], s[1]) }, func() { f(t, fm.name, k, fm.m) })
				}
			})
		}
	}
}

func (r *Run) squareInputs(f func(t *T, name string, k Kind, m *Mat)) {
	type sp struct {
		n  int
		al []float64
	}
	a1 := rangeAlpha(-1, 1)
	list := []sp{{1, rangeAlpha(-5, 5)}, {2, rangeAlpha(-4, 4)}, {3, a1}, {3, []float64{0, 1, 2}}, {4, []float64{0, 1}}, {4, []float64{-1, 1}}}
	if r.thorough {
		list = append(list, sp{3, rangeAlpha(-2, 2)}, sp{2, []float64{-100, -7, -2, -1, 0, 1, 3, 5, 10, 1000}})
	}
	if r.deep {
		list = append(list, sp{3, []float64{-5, -1, 0, 3, 4}}, sp{2, rangeAlpha(-12, 12)})
		if r.heavy == 0 {
			list = append(list, sp{4, a1}, sp{5, []float64{0, 1}}, sp{3, rangeAlpha(-3, 3)})
		}
	}
	for li, s := range list {
		r.forAllMats(fmt.Sprintf("exhaustive%d", li), s.n, s.n, s.al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return m.String() }, func() { f(t, "", KArray, m) })
		})
	}
	for _, sc := range r.scales() {
		for _, s := range []sp{{2, rangeAlpha(-2, 2)}, {3, []float64{0, 1}}} {
			r.forAllMats(fmt.Sprintf("scaled%g", sc), s.n, s.n, s.al, func(t *T, m *Mat) {
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%v * %g", m, sc) }, func() { f(t, "scaled", KArray, scaled(m, sc)) })
			})
		}
	}
	for _, n := range numSizes(r.thorough) {
		for _, k := range allKinds {
			if k == KShared {
				continue
			}
			r.Group(fmt.Sprintf("families/%v/%d", k, n), func(t *T) {
				for _, fm := range squareFamilies(n) {
					if !fits(k, fm.m) {
						continue
					}
					t.State(fm.name)
					t.Do(func() string { return fmt.Sprintf("%v %s %d", k, fm.name, n) }, func() { f(t, fm.name, k, fm.m) })
				}
			})
		}
	}
}

func (r *Run) symInputs(f func(t *T, name string, k Kind, m *Mat)) {
	type sp struct {
		n  int
		al []float64
	}
	list := []sp{{1, rangeAlpha(-5, 5)}, {2, rangeAlpha(-6, 6)}, {3, rangeAlpha(-2, 2)}, {4, []float64{0, 1, 2}}}
	if r.thorough {
		list = append(list, sp{3, rangeAlpha(-3, 3)}, sp{4, rangeAlpha(-2, 1)}, sp{5, []float64{0, 1}})
	}
	if r.deep {
		list = append(list, sp{3, rangeAlpha(-5, 5)}, sp{2, rangeAlpha(-30, 30)}, sp{6, []float64{0, 1}}, sp{4, rangeAlpha(-2, 2)})
		if r.heavy == 0 {
			list = append(list, sp{5, rangeAlpha(-1, 1)})
		}
	}
	for li, s := range list {
		r.forSym(fmt.Sprintf("exhaustive%d/%d", li, s.n), s.n, s.al, func(t *T, m *Mat) {
			t.Fresh()
			t.Do(func() string { return m.String() }, func() { f(t, "", KArray, m) })
		})
	}
	for _, sc := range r.scales() {
		for _, s := range []sp{{2, rangeAlpha(-2, 2)}, {3, []float64{0, 1, -1}}} {
			r.forSym(fmt.Sprintf("scaled%g/%d", sc, s.n), s.n, s.al, func(t *T, m *Mat) {
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%v * %g", m, sc) }, func() { f(t, "scaled", KArray, scaled(m, sc)) })
			})
		}
	}
	for _, n := range numSizes(r.thorough) {
		for _, k := range allKinds {
			if k == KShared {
				continue
			}
			r.Group(fmt.Sprintf("families/%v/%d", k, n), func(t *T) {
				for _, fm := range symFamilies(n) {
					if !fits(k, fm.m) {
						continue
					}
					t.State(fm.name)
					t.Do(func() string { return fmt.Sprintf("%v %s %d", k, fm.name, n) }, func() { f(t, fm.name, k, fm.m) })
				}
			})
		}
	}
}

// distinctRoots decides exactly whether a polynomial with integer
// coefficients (lowest first) has only simple roots: gcd(p, p') is constant.
func distinctRoots(c []float64) bool {
	a := make([]*big.Rat, len(c))
	var b []*big.Rat
	for i, v := range c {
		a[i] = new(big.Rat).SetFloat64(v)
		if i > 0 {
			b = append(b, new(big.Rat).Mul(a[i], new(big.Rat).SetInt64(int64(i))))
		}
	}
	trim := func(p []*big.Rat) []*big.Rat {
		for len(p) > 0 && p[len(p)-1].Sign() == 0 {
			p = p[:len(p)-1]
		}
		return p
	}
	a, b = trim(a), trim(b)
	for len(b) > 0 {
		// a mod b
		rem := make([]*big.Rat, len(a))
		for i := range a {
			rem[i] = new(big.Rat).Set(a[i])
		}
		for len(rem) >= len(b) {
			q := new(big.Rat).Quo(rem[len(rem)-1], b[len(b)-1])
			off := len(rem) - len(b)
			for i := range b {
				rem[off+i].Sub(rem[off+i], new(big.Rat).Mul(q, b[i]))
			}
			rem = trim(rem[:len(rem)-1])
		}
		a, b = b, rem
	}
	return len(a) <= 1
}
