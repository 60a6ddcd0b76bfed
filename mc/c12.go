package main

import (
	"fmt"
	"math"

	"github.com/jtejido/linear"
)

func init() {
	register("C12", "equality",
		"exhaustive enumeration of pairs of matrix (and vector) contents over an alphabet with NaN, infinities and signed zeros for every pair of implementations; for shapes around storage-block boundaries every single-cell difference; objects of other types and shapes. A state is a distinct pair of contents, shapes and implementations.",
		checkC12)
}

// vecTwin wraps the same matrix under another identity (equal dynamic contents).
func wantMatEq(a, b *Mat) bool {
	if a.r != b.r || a.c != b.c {
		return false
	}
	for i := range a.a {
		if a.a[i] != b.a[i] {
			return false
		}
	}
	return true
}

func wantVecEq(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	n1, n2, diff := false, false, false
	for i := range a {
		n1 = n1 || a[i] != a[i]
		n2 = n2 || b[i] != b[i]
		diff = diff || a[i] != b[i]
	}
	if n1 || n2 {
		return n1 && n2
	}
	return !diff
}

func checkC12(r *Run) {
	al := []float64{0, math.Copysign(0, -1), 1, math.NaN(), math.Inf(1)}
	al4 := []float64{0, 1, math.NaN()}
	if r.thorough {
		al4 = []float64{0, 1, math.NaN(), -1, math.Inf(-1)}
	}
	shapes := []struct {
		r, c int
		al   []float64
	}{{1, 1, append(al, math.Inf(-1), -1, 5e-324, math.MaxFloat64)}, {1, 2, al}, {2, 1, al}, {2, 2, al4}}
	if r.thorough {
		shapes = append(shapes, struct {
			r, c int
			al   []float64
		}{1, 3, al}, struct {
			r, c int
			al   []float64
		}{3, 1, al})
	}
	for _, k1 := range allKinds {
		for _, k2 := range allKinds {
			for _, s := range shapes {
				r.forAllMats(fmt.Sprintf("mat/%v-%v", k1, k2), s.r, s.c, s.al, func(t *T, a *Mat) {
					if !fits(k1, a) {
						return
					}
					x := mk(k1, a)
					forAll(s.r*s.c, s.al, func(bv []float64) bool {
						b := &Mat{s.r, s.c, bv}
						if !fits(k2, b) {
							return true
						}
						t.State(fmt.Sprint(a.a, bv))
						t.Do(func() string { return fmt.Sprintf("%v %v Equals %v %v", k1, a, k2, b) }, func() {
							y := mk(k2, b)
							w := wantMatEq(a, b)
							t.Op(2)
							t.Check(x.Equals(y) == w, "Equals is %v, want %v", !w, w)
							t.Check(y.Equals(x) == w, "reverse Equals is %v, want %v", !w, w)
						})
						return !t.Stopped()
					})
				})
			}
			// shapes: all pairs of shapes
			r.Group(fmt.Sprintf("shapes/%v-%v", k1, k2), func(t *T) {
				var all [][2]int
				for a := 1; a <= 4; a++ {
					for b := 1; b <= 4; b++ {
						all = append(all, [2]int{a, b})
					}
				}
				for _, s := range [][2]int{{52, 53}, {53, 52}, {53, 53}, {52, 104}, {104, 52}, {65, 64}} {
					all = append(all, s)
				}
				for _, s1 := range all {
					for _, s2 := range all {
						a, b := newMat(s1[0], s1[1]), newMat(s2[0], s2[1])
						if !fits(k1, a) || !fits(k2, b) {
							continue
						}
						t.State(fmt.Sprint(s1, s2))
						t.Do(func() string { return fmt.Sprintf("zero %v %v Equals zero %v %v", k1, s1, k2, s2) }, func() {
							x, y := mk(k1, a), mk(k2, b)
							t.Check(x.Equals(y) == (s1 == s2) && y.Equals(x) == (s1 == s2), "wrong for shapes %v %v", s1, s2)
							t.Op(2)
						})
					}
				}
			})
			// every single-cell difference at boundary shapes
			big := append([][2]int{{3, 5}, {7, 2}, {52, 52}, {53, 54}}, sweepShapes(r.thorough)...)
			if r.thorough {
				big = append(big, [2]int{105, 104}, [2]int{66, 66}, [2]int{1, 157})
			}
			for _, s := range big {
				if (k1 == KDiag || k2 == KDiag) && s[0] != s[1] {
					continue
				}
				if s[0] == s[1] && s[0] > 16 && s[0] != 52 && s[0] != 66 && s[0]%10 != 0 {
					continue
				}
				r.Group(fmt.Sprintf("cell/%v-%v/%dx%d", k1, k2, s[0], s[1]), func(t *T) {
					base := label(s[0], s[1], 1)
					if k1 == KDiag || k2 == KDiag {
						base = diagMat(labelVec(s[0], 1))
					}
					x, y := mk(k1, base), mk(k2, base)
					t.Do(func() string { return "equal contents" }, func() {
						t.Check(x.Equals(y) && y.Equals(x) && x.Equals(x), "equal matrices compare unequal")
					})
					for i := 0; i < s[0]; i++ {
						for j := 0; j < s[1]; j++ {
							if s[0] == s[1] && s[0] > 54 && i != j && i%7 != 0 && j != s[1]-1 {
								continue
							}
							if k2 == KDiag && i != j {
								continue
							}
							t.State(fmt.Sprint(i, j))
							t.Do(func() string { return fmt.Sprintf("%v vs %v differing at (%d,%d)", k1, k2, i, j) }, func() {
								y.SetEntry(i, j, -1)
								e1, e2 := x.Equals(y), y.Equals(x)
								y.SetEntry(i, j, base.at(i, j))
								t.Op(2)
								t.Check(!e1 && !e2, "unequal matrices compare equal")
							})
						}
					}
				})
			}
		}
		r.Group(fmt.Sprintf("others/%v", k1), func(t *T) {
			x := mk(k1, diagMat([]float64{1, 2}))
			y := mk(k1, diagMat([]float64{3}))
			others := []any{nil, 1, 1.0, "x", true, []float64{1, 2}, [][]float64{{1, 0}, {0, 2}}, map[string]int{}, struct{}{}, struct{ a []int }{}, mkv(VArray, []float64{1, 2}), mkv(VForeign, []float64{1, 2}), func() {}, linear.RealVector(nil), &[]float64{1}, x.Data()}
			for i, o := range others {
				t.State(fmt.Sprint(i))
				t.Do(func() string { return fmt.Sprintf("%v Equals %T", k1, o) }, func() {
					t.Check(!x.Equals(o) && !y.Equals(o), "a matrix equals a %T", o)
					t.Op(2)
				})
			}
		})
	}
	// vectors
	vmax := 2
	if r.thorough {
		vmax = 3
	}
	val := append(al, -1)
	for _, k1 := range allVKinds {
		for _, k2 := range allVKinds {
			for n := 0; n <= vmax; n++ {
				for l := 0; l <= vmax; l++ {
					r.Group(fmt.Sprintf("vec/%v-%v/%d-%d", k1, k2, n, l), func(t *T) {
						eachVec(n, val, func(a []float64) bool {
							x := mkv(k1, a)
							eachVec(l, val, func(b []float64) bool {
								t.State(fmt.Sprint(a, b))
								t.Do(func() string { return fmt.Sprintf("%v %v Equals %v %v", k1, a, k2, b) }, func() {
									y := mkv(k2, b)
									w := wantVecEq(a, b)
									t.Op(2)
									t.Check(x.Equals(y) == w, "Equals is %v, want %v", !w, w)
									t.Check(y.Equals(x) == w, "reverse Equals is %v, want %v", !w, w)
									t.Check(x.Equals(x), "a vector does not equal itself")
								})
								return !t.Stopped()
							})
							return !t.Stopped()
						})
					})
				}
			}
			for _, n := range sweepSizes(r.thorough) {
				r.Group(fmt.Sprintf("veccell/%v-%v/%d", k1, k2, n), func(t *T) {
					for i := 0; i < n; i++ {
						for _, v := range []float64{-1, math.NaN(), math.Inf(1)} {
							t.State(fmt.Sprint(i, v))
							t.Do(func() string { return fmt.Sprintf("%v vs %v n=%d differing at %d (%v)", k1, k2, n, i, v) }, func() {
								x, y := mkv(k1, labelVec(n, 1)), mkv(k2, labelVec(n, 1))
								t.Check(x.Equals(y) && y.Equals(x), "equal vectors compare unequal")
								y.SetEntry(i, v)
								t.Check(!x.Equals(y) && !y.Equals(x), "unequal vectors compare equal")
								x.SetEntry(n-1-i, v)
								w := wantVecEq(rdv(x), rdv(y))
								t.Check(x.Equals(y) == w && y.Equals(x) == w, "Equals is %v, want %v", x.Equals(y), w)
								t.Op(6)
							})
						}
					}
				})
			}
		}
		r.Group(fmt.Sprintf("vecothers/%v", k1), func(t *T) {
			x := mkv(k1, []float64{1, 2})
			z := mkv(k1, []float64{math.NaN(), 2})
			others := []any{nil, 1, 1.0, "x", true, []float64{1, 2}, map[string]int{}, struct{ a []int }{}, mk(KArray, reshape([]float64{1, 2}, 2, 1)), mk(KBlock, reshape([]float64{1, 2}, 1, 2)), mk(KDiag, diagMat([]float64{1, 2})), func() {}, x.ToArray()}
			for i, o := range others {
				t.State(fmt.Sprint(i))
				t.Do(func() string { return fmt.Sprintf("%v Equals %T", k1, o) }, func() {
					t.Check(!x.Equals(o) && !z.Equals(o), "a vector equals a %T", o)
					t.Op(2)
				})
			}
		})
	}
}

func eachVec(n int, al []float64, f func(a []float64) bool) {
	if n == 0 {
		f(nil)
		return
	}
	forAll(n, al, f)
}
