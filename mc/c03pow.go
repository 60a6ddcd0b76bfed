package main

import (
	"fmt"
	"math/big"

	"github.com/jtejido/linear"
)

// Powers with large exponents. The families below have powers that stay small
// (or exactly representable) whatever the exponent, so the value is known
// exactly for every exponent an int can hold.

// hugeExponents are all exponents around the powers of two, those whose binary
// forms have a single zero, and regular bit patterns.
func hugeExponents(deep bool) []int {
	seen := map[int]bool{}
	var out []int
	add := func(p int) {
		if p >= 0 && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	for p := 0; p <= 70; p++ {
		add(p)
	}
	const maxInt = int(^uint(0) >> 1)
	for k := 5; k <= 62; k++ {
		q := 1 << k
		for d := -3; d <= 3; d++ {
			add(q + d)
		}
		for j := 0; j < k; j++ {
			if deep || j%7 == k%7 {
				add(q + 1<<j + 1) // two bits of p-1
				add(q - 1<<j + 1)
			}
		}
		add(0x5555555555555555 & (q - 1))
		add(0x3333333333333333 & (q - 1))
	}
	for d := 0; d <= 3; d++ {
		add(maxInt - d)
	}
	return out
}

// powBig is the exact power of an integer matrix, entries taken as they are;
// nil if an entry leaves the exactly representable range.
func powBig(a *Mat, p int) *Mat {
	n := a.r
	if n > 10 { // at most one entry per row other than zero: exact as it is
		res, sq := eye(n), a
		for q := p; q > 0; q >>= 1 {
			if q&1 == 1 {
				res = res.mul(sq)
			}
			sq = sq.mul(sq)
		}
		return res
	}
	type M []*big.Int
	conv := func(m *Mat) M {
		o := make(M, n*n)
		for i, v := range m.a {
			o[i] = big.NewInt(int64(v))
		}
		return o
	}
	mul := func(x, y M) M {
		o := make(M, n*n)
		var s big.Int
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				o[i*n+j] = new(big.Int)
				for k := 0; k < n; k++ {
					o[i*n+j].Add(o[i*n+j], s.Mul(x[i*n+k], y[k*n+j]))
				}
			}
		}
		return o
	}
	lim := new(big.Int).Lsh(big.NewInt(1), 52)
	ok := func(x M) bool {
		for _, v := range x {
			if v.CmpAbs(lim) > 0 {
				return false
			}
		}
		return true
	}
	res, sq := conv(eye(n)), conv(a)
	for q := p; q > 0; {
		if q&1 == 1 {
			res = mul(res, sq)
			if !ok(res) {
				return nil
			}
		}
		if q >>= 1; q > 0 {
			sq = mul(sq, sq)
			if !ok(sq) {
				return nil
			}
		}
	}
	m := newMat(n, n)
	for i, v := range res {
		m.a[i] = float64(v.Int64())
	}
	return m
}

// boundedPowers are matrices with exactly known powers: every signed cyclic
// permutation pattern of the size, an idempotent, a nilpotent, unipotents.
func boundedPowers(n int) []*Mat {
	var out []*Mat
	cyc := n
	signs := 1 << n
	if n > 4 {
		signs = 2
	}
	for s := 0; s < signs; s++ {
		m := newMat(n, n)
		d := newMat(n, n)
		for i := 0; i < cyc; i++ {
			v := 1.0
			if s>>min(i, 4)&1 == 1 {
				v = -1
			}
			m.set(i, (i+1)%cyc, v)
			d.set(i, i, v)
		}
		out = append(out, m, d)
	}
	id, nil1, uni := newMat(n, n), newMat(n, n), eye(n)
	for i := 0; i < n; i++ {
		id.set(i, 0, float64(1)) // first column of ones: idempotent
		if i+1 < n {
			nil1.set(i, i+1, 1)
		}
	}
	if n > 1 {
		uni.set(0, n-1, 1)
		lo := eye(n)
		lo.set(n-1, 0, -1)
		out = append(out, lo, uni)
	}
	zo := newMat(n, n) // diagonal of 0, 1, -1
	for i := 0; i < n; i++ {
		zo.set(i, i, float64(i%3-1))
	}
	return append(out, id, nil1, zo, eye(n), newMat(n, n))
}

// countMat is a caller-supplied matrix which counts the products formed with it.
type countMat struct {
	linear.RealMatrix
	n *int
}

const mulBudget = 1000

func (c *countMat) wrap(m linear.RealMatrix) linear.RealMatrix {
	*c.n++
	if *c.n > mulBudget {
		panic(failPanic{fmt.Sprintf("more than %d products for one power", mulBudget)})
	}
	return &countMat{m, c.n}
}

func (c *countMat) Copy() linear.RealMatrix { return &countMat{c.RealMatrix.Copy(), c.n} }
func (c *countMat) Multiply(m linear.RealMatrix) linear.RealMatrix {
	return c.wrap(c.RealMatrix.Multiply(m))
}
func (c *countMat) PreMultiplyMatrix(m linear.RealMatrix) linear.RealMatrix {
	return c.wrap(c.RealMatrix.PreMultiplyMatrix(m))
}

func hugePowers(r *Run) {
	sizes := []int{1, 2, 3, 4, 5, 53}
	if r.thorough {
		sizes = []int{1, 2, 3, 4, 5, 6, 7, 52, 53}
	}
	for _, n := range sizes {
		for mi, a := range boundedPowers(n) {
			if n > 10 && mi > 3 {
				break
			}
			r.Group(fmt.Sprintf("hugepower/%d/%d", n, mi), func(t *T) {
				exps := hugeExponents(t.thorough)
				for ei, p := range exps {
					if n > 10 && ei%23 != mi%23 && !(t.deep && ei%5 == 0) {
						continue
					}
					want := powBig(a, p)
					if want == nil {
						continue
					}
					ok := false
					t.Do(func() string { return fmt.Sprintf("Power(counting(%v),%d)", a, p) }, func() {
						n := 0
						t.Op(1)
						t.expectMatEq("power", linear.Power(&countMat{mk(KArray, a), &n}, p), want)
						ok = true
					})
					if !ok {
						continue // might not end
					}
					for _, k := range allKinds {
						if !shapeOK(k, a.r, a.c) || (k == KDiag && !a.isDiag()) {
							continue
						}
						t.State(fmt.Sprint("hugepower", k, p))
						t.Do(func() string { return fmt.Sprintf("Power(%v(%v),%d)", k, a, p) }, func() {
							x := mk(k, a)
							t.Op(1)
							t.expectMatEq("power", linear.Power(x, p), want)
							t.expectMat("matrix", x, a)
						})
					}
				}
			})
		}
	}
}
