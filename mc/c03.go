package main

import (
	"fmt"
	"math"

	"github.com/jtejido/linear"
)

func init() {
	register("C03", "exact arithmetic",
		"all pairs of representations x all operand shapes of the boundary set (and all small shapes) x integer contents, exhaustive contents for 2x2 operands; every result compared with exact integer arithmetic on the reference table",
		checkC03)
}

func kindInts(k Kind, r, c, salt int) *Mat {
	if k == KDiag {
		return diagMat(intVec(r, salt))
	}
	return ints(r, c, salt)
}

func addCases(t *T, ka, kb Kind, a, b *Mat) {
	id := func(op string) func() string {
		return func() string {
			return fmt.Sprintf("%v(%v) %s %v(%v)", ka, a, op, kb, b)
		}
	}
	x, y := mk(ka, a), mk(kb, b)
	t.Do(id("Add"), func() {
		t.Op(1)
		t.expectMatEq("sum", x.Add(y), a.zip(b, func(p, q float64) float64 { return p + q }))
	})
	t.Do(id("Subtract"), func() {
		t.Op(1)
		t.expectMatEq("difference", x.Subtract(y), a.zip(b, func(p, q float64) float64 { return p - q }))
	})
	t.Do(id("operands after"), func() { t.expectMat("left", x, a); t.expectMat("right", y, b) })
}

func mulCases(t *T, ka, kb Kind, a, b *Mat) {
	id := func(op string) func() string {
		return func() string { return fmt.Sprintf("%v(%v) %s %v(%v)", ka, a, op, kb, b) }
	}
	x, y := mk(ka, a), mk(kb, b)
	want := a.mul(b)
	t.Do(id("Multiply"), func() { t.Op(1); t.expectMatEq("product", x.Multiply(y), want) })
	t.Do(id("PreMultiplyMatrix"), func() { t.Op(1); t.expectMatEq("product", y.PreMultiplyMatrix(x), want) })
	t.Do(id("operands after"), func() { t.expectMat("left", x, a); t.expectMat("right", y, b) })
}

// selfCases uses one object on both sides of an operation.
func selfCases(t *T, k Kind, a *Mat, products bool) {
	x := mk(k, a)
	id := func(op string) func() string {
		return func() string { return fmt.Sprintf("%v(%v) %s itself", k, a, op) }
	}
	t.Do(id("Add"), func() {
		t.Op(1)
		t.expectMatEq("sum", x.Add(x), a.mapf(func(v float64) float64 { return v + v }))
	})
	t.Do(id("Subtract"), func() {
		t.Op(1)
		t.expectMatEq("difference", x.Subtract(x), a.mapf(func(v float64) float64 { return v - v }))
	})
	if products && a.r == a.c {
		sq := a.mul(a)
		t.Do(id("Multiply"), func() { t.Op(1); t.expectMatEq("square", x.Multiply(x), sq) })
		t.Do(id("PreMultiplyMatrix"), func() { t.Op(1); t.expectMatEq("square", x.PreMultiplyMatrix(x), sq) })
	}
	t.Do(id("after use with"), func() { t.expectMat("operand", x, a) })
}

// outerSelf multiplies a vector object with itself.
func outerSelf(t *T, k VKind, u []float64) {
	t.Do(func() string { return fmt.Sprintf("OuterProduct of one %v vector %v with itself", k, u) }, func() {
		v := mkv(k, u)
		want := newMat(len(u), len(u))
		for i := range u {
			for j := range u {
				want.set(i, j, u[i]*u[j])
			}
		}
		t.Op(1)
		t.expectMatEq("outer", linear.OuterProduct(v, v), want)
		t.expectVec("operand", v, u)
	})
}

func vecCases(t *T, k Kind, a *Mat, salt int) {
	x := mk(k, a)
	id := func(op string) func() string {
		return func() string { return fmt.Sprintf("%v(%v).%s salt %d", k, a, op, salt) }
	}
	v, u := intVec(a.c, salt), intVec(a.r, salt+1)
	v0, u0 := append([]float64(nil), v...), append([]float64(nil), u...)
	t.Do(id("Operate"), func() { t.Op(1); t.expectSliceEq("A*v", x.Operate(v), a.mulVec(v0)); t.expectSlice("argument", v, v0) })
	t.Do(id("PreMultiply"), func() {
		t.Op(1)
		t.expectSliceEq("v*A", x.PreMultiply(u), a.preVec(u0))
		t.expectSlice("argument", u, u0)
	})
	for _, vk := range allVKinds {
		t.Do(id("OperateVector/"+vk.String()), func() {
			t.Op(1)
			vv := mkv(vk, v)
			t.expectVecEq("A*v", x.OperateVector(vv), a.mulVec(v0))
			t.expectVec("argument", vv, v0)
		})
		t.Do(id("PreMultiplyVector/"+vk.String()), func() {
			t.Op(1)
			uu := mkv(vk, u)
			t.expectVecEq("v*A", x.PreMultiplyVector(uu), a.preVec(u0))
			t.expectVec("argument", uu, u0)
		})
	}
	t.Do(id("operand after"), func() { t.expectMat("matrix", x, a) })
}

func scalarCases(t *T, k Kind, a *Mat) {
	x := mk(k, a)
	for _, d := range []float64{0, 1, -1, 2, -3, 1048576, 0.5, math.Copysign(0, -1)} {
		t.Do(func() string { return fmt.Sprintf("%v(%v) ScalarAdd %v", k, a, d) }, func() {
			t.Op(1)
			t.expectMatEq("A+d", x.ScalarAdd(d), a.mapf(func(v float64) float64 { return v + d }))
		})
		t.Do(func() string { return fmt.Sprintf("%v(%v) ScalarMultiply %v", k, a, d) }, func() {
			t.Op(1)
			t.expectMatEq("A*d", x.ScalarMultiply(d), a.mapf(func(v float64) float64 { return v * d }))
		})
	}
	t.Do(func() string { return fmt.Sprintf("%v(%v) after scalar ops", k, a) }, func() { t.expectMat("matrix", x, a) })
}

// edgesOrAll gives every index below n, or for large n those of the first and
// last rows of the given length.
func edgesOrAll(n, row int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if n <= 220 || i < row || i >= n-row {
			out = append(out, i)
		}
	}
	return out
}

func exact(m *Mat) bool { return m.maxAbs() < 1<<52 }

func powerCases(t *T, k Kind, a *Mat, maxP int) {
	want := eye(a.r)
	x := mk(k, a)
	for p := 0; p <= maxP; p++ {
		if p > 0 {
			want = want.mul(a)
		}
		// the binary algorithm also forms a^(2^i) for 2^i < p; those divide p-1 in magnitude terms,
		// so bounded powers of the same matrix bound them
		if !exact(want) {
			return
		}
		w := want
		t.Do(func() string { return fmt.Sprintf("Power(%v(%v),%d)", k, a, p) }, func() {
			t.Op(1)
			t.expectMatEq("power", linear.Power(x, p), w)
		})
	}
	t.Do(func() string { return fmt.Sprintf("Power(%v(%v)) operand", k, a) }, func() { t.expectMat("matrix", x, a) })
}

func checkC03(r *Run) {
	small := []int{1, 2, 3, 4, 5, 6, 7, 8, 9}
	bound := []int{1, 2, 3, 4, 5, 51, 52, 53, 104, 105}
	// matrix products
	type tri struct{ a, b, c int }
	var tris []tri
	for _, m := range small {
		for _, k := range small {
			for _, n := range small {
				tris = append(tris, tri{m, k, n})
			}
		}
	}
	bd := []int{1, 3, 4, 51, 52, 53, 55, 104, 105}
	if r.thorough {
		bd = []int{1, 2, 3, 4, 5, 6, 7, 50, 51, 52, 53, 54, 55, 56, 57, 103, 104, 105, 107, 156, 157}
	}
	for _, m := range bd {
		for _, k := range bd {
			for _, n := range bd {
				if m < 10 && k < 10 && n < 10 {
					continue
				}
				tris = append(tris, tri{m, k, n})
			}
		}
	}
	for _, s := range tris {
		r.Group(fmt.Sprintf("mul/%dx%dx%d", s.a, s.b, s.c), func(t *T) {
			big := s.a*s.b*s.c > 20000
			for _, ka := range allKinds {
				for _, kb := range allKinds {
					if !shapeOK(ka, s.a, s.b) || !shapeOK(kb, s.b, s.c) || ka == KShared || (kb == KShared && ka != KArray) {
						continue
					}
					if big && (ka == KForeign || kb == KShared) {
						continue
					}
					if big && s.a*s.b*s.c > 600000 && !t.thorough && kb == KForeign {
						continue
					}
					salts := 2
					if big {
						salts = 1
					}
					for salt := 0; salt < salts; salt++ {
						t.State(fmt.Sprint(ka, kb, salt))
						mulCases(t, ka, kb, kindInts(ka, s.a, s.b, salt), kindInts(kb, s.b, s.c, salt+50))
					}
				}
			}
		})
	}
	// every size, away from the block boundaries too
	for _, n := range sweepSizes(r.thorough) {
		r.Group(fmt.Sprintf("sweep/%d", n), func(t *T) {
			for _, ka := range allKinds {
				for _, s := range [][2]int{{n, 2}, {2, n}, {n, n}} {
					if !shapeOK(ka, s[0], s[1]) || (s[0] == s[1] && n > 72 && ka != KDiag) {
						continue
					}
					t.State(fmt.Sprint(ka, s))
					a := kindInts(ka, s[0], s[1], 1)
					vecCases(t, ka, a, n%3)
					selfCases(t, ka, a, s[0] < 60)
					if ka != KForeign && ka != KShared {
						scalarCases(t, ka, a)
					}
					for _, kb := range allKinds {
						if shapeOK(kb, s[0], s[1]) {
							addCases(t, ka, kb, a, kindInts(kb, s[0], s[1], 2))
						}
						for _, c := range []int{2, n} {
							if !shapeOK(kb, s[1], c) || s[0]*s[1]*c > 20000 && (ka == KShared || kb == KShared || ka == KForeign || n%4 != 0) {
								continue
							}
							mulCases(t, ka, kb, a, kindInts(kb, s[1], c, 3))
						}
					}
				}
			}
			outerSelf(t, VArray, intVec(n, 1))
			for _, s := range [][2]int{{n, 3}, {3, n}, {n, n}} {
				t.Do(func() string { return fmt.Sprintf("OuterProduct of lengths %v", s) }, func() {
					u, v := intVec(s[0], 1), intVec(s[1], 2)
					t.Op(1)
					t.expectMatEq("outer product", linear.OuterProduct(mkv(VArray, u), mkv(VArray, v)), (&Mat{s[0], 1, u}).mul(&Mat{1, s[1], v}))
				})
			}
		})
	}
	// sums and differences, vectors, scalars
	dims := append(append([]int{}, small[:6]...), 51, 52, 53, 104, 105)
	if r.thorough {
		dims = append(dims, 50, 54, 103, 106, 156, 157)
	}
	for _, nr := range dims {
		for _, nc := range dims {
			r.Group(fmt.Sprintf("add/%dx%d", nr, nc), func(t *T) {
				for _, ka := range allKinds {
					if shapeOK(ka, nr, nc) {
						selfCases(t, ka, kindInts(ka, nr, nc, 5), true)
						if ka != KDiag {
							selfCases(t, ka, special(nr, nc, 2), false)
						}
					}
					for _, kb := range allKinds {
						if !shapeOK(ka, nr, nc) || !shapeOK(kb, nr, nc) {
							continue
						}
						t.State(fmt.Sprint("add", ka, kb))
						addCases(t, ka, kb, kindInts(ka, nr, nc, 3), kindInts(kb, nr, nc, 4))
						if ka != KDiag && kb != KDiag {
							addCases(t, ka, kb, special(nr, nc, 0), special(nr, nc, 3))
							addCases(t, ka, kb, special(nr, nc, 1), ints(nr, nc, 6))
						}
					}
				}
			})
			r.Group(fmt.Sprintf("vec/%dx%d", nr, nc), func(t *T) {
				for _, k := range allKinds {
					if !shapeOK(k, nr, nc) {
						continue
					}
					for salt := 0; salt < 3; salt++ {
						t.State(fmt.Sprint("vec", k, salt))
						vecCases(t, k, kindInts(k, nr, nc, salt), salt)
					}
					scalarCases(t, k, kindInts(k, nr, nc, 9))
				}
				// unit vectors pick out single columns and rows
				for _, k := range []Kind{KArray, KBlock} {
					m := label(nr, nc, 3)
					x := mk(k, m)
					for j := 0; j < nc; j++ {
						t.Do(func() string { return fmt.Sprintf("%v %dx%d Operate(e%d)", k, nr, nc, j) }, func() {
							e := make([]float64, nc)
							e[j] = 1
							t.Op(1)
							t.expectSliceEq("column", x.Operate(e), m.col(j))
						})
					}
					for i := 0; i < nr; i++ {
						t.Do(func() string { return fmt.Sprintf("%v %dx%d PreMultiply(e%d)", k, nr, nc, i) }, func() {
							e := make([]float64, nr)
							e[i] = 1
							t.Op(1)
							t.expectSliceEq("row", x.PreMultiply(e), m.row(i))
						})
					}
				}
			})
		}
	}
	// outer products
	for _, n := range dims {
		for _, m := range dims {
			r.Group(fmt.Sprintf("outer/%dx%d", n, m), func(t *T) {
				for _, ka := range allVKinds {
					if n == m {
						outerSelf(t, ka, intVec(n, 3))
						outerSelf(t, ka, special(1, n, 1).a)
					}
					for _, kb := range allVKinds {
						t.Do(func() string { return fmt.Sprintf("OuterProduct(%v %d,%v %d)", ka, n, kb, m) }, func() {
							u, v := intVec(n, 1), intVec(m, 2)
							a, b := mkv(ka, u), mkv(kb, v)
							want := newMat(n, m)
							for i := range u {
								for j := range v {
									want.set(i, j, u[i]*v[j])
								}
							}
							t.Op(1)
							t.State(fmt.Sprint("outer", ka, kb))
							t.expectMatEq("outer", linear.OuterProduct(a, b), want)
							t.expectVec("left", a, u)
							t.expectVec("right", b, v)
						})
					}
				}
			})
		}
	}
	_ = bound
	// infinities and NaN reach exactly the entries they must, whatever the summation order:
	// one such entry at every position of the left operand, zeros and signs elsewhere
	odd := []float64{math.Inf(1), math.Inf(-1), math.NaN()}
	for _, s := range []tri{{1, 1, 1}, {2, 2, 2}, {1, 5, 1}, {3, 6, 2}, {2, 7, 3}, {5, 8, 5}, {4, 9, 1}, {1, 53, 2}, {2, 54, 1}, {2, 105, 2}, {1, 107, 1}, {53, 5, 2}, {2, 5, 53}, {53, 2, 53}} {
		r.Group(fmt.Sprintf("nonfinite/%dx%dx%d", s.a, s.b, s.c), func(t *T) {
			b := ints(s.b, s.c, 50)
			for _, pos := range edgesOrAll(s.a*s.b, s.b) {
				for oi, o := range odd {
					a := ints(s.a, s.b, oi)
					a.a[pos] = o
					at, bt := a.T(), b.T()
					for _, ka := range allKinds {
						if ka == KDiag || ka == KShared {
							continue
						}
						t.State(fmt.Sprint("nonfinite", ka, pos, oi))
						for _, kb := range allKinds {
							if kb == KDiag || kb == KShared {
								continue
							}
							mulCases(t, ka, kb, a, b)
							mulCases(t, kb, ka, bt, at)
						}
						vecCases(t, ka, a, 5)
						vecCases(t, ka, at, 6)
						x, w := mk(ka, b), intVec(s.b, 3)
						w[pos%s.b] = o
						t.Do(func() string { return fmt.Sprintf("%v(%v) PreMultiply %v", ka, b, w) }, func() {
							t.Op(4)
							t.expectSliceEq("v*A", x.PreMultiply(w), b.preVec(w))
							y := mk(ka, bt)
							t.expectSliceEq("A*v", y.Operate(w), bt.mulVec(w))
							for _, vk := range allVKinds {
								t.expectVecEq("v*A", x.PreMultiplyVector(mkv(vk, w)), b.preVec(w))
								t.expectVecEq("A*v", y.OperateVector(mkv(vk, w)), bt.mulVec(w))
							}
						})
					}
				}
			}
		})
	}
	// a diagonal operand: the zeros off its diagonal may or may not be multiplied,
	// but the entries on it must be, zeros included
	for _, s := range [][2]int{{1, 1}, {1, 3}, {2, 2}, {3, 2}, {4, 5}, {5, 1}, {52, 2}, {53, 3}} {
		r.Group(fmt.Sprintf("nonfinite-diagonal/%dx%d", s[0], s[1]), func(t *T) {
			for salt := 0; salt < 4; salt++ {
				d := intVec(s[0], salt)
				for i := range d {
					if (i+salt)%2 == 0 {
						d[i] = 0
					}
				}
				dm := diagMat(d)
				for _, pos := range edgesOrAll(s[0]*s[1], s[1]) {
					for oi, o := range odd {
						b := ints(s[0], s[1], oi)
						b.a[pos] = o
						bt := b.T()
						t.State(fmt.Sprint("nonfinite-diagonal", salt, pos, oi))
						for _, kb := range allKinds {
							if kb == KDiag || kb == KShared {
								continue
							}
							t.Do(func() string { return fmt.Sprintf("diag(%v) times %v(%v)", d, kb, b) }, func() {
								t.Op(4)
								x, y, yt := mk(KDiag, dm), mk(kb, b), mk(kb, bt)
								left, plainL := newMat(s[0], s[1]), dm.mul(b)
								right, plainR := newMat(s[1], s[0]), bt.mul(dm)
								for i := 0; i < s[0]; i++ {
									for j := 0; j < s[1]; j++ {
										left.set(i, j, d[i]*b.at(i, j))
										right.set(j, i, d[i]*b.at(i, j))
									}
								}
								for _, g := range []struct {
									what         string
									got          linear.RealMatrix
									short, plain *Mat
								}{{"D*B", x.Multiply(y), left, plainL}, {"D*B by PreMultiplyMatrix", y.PreMultiplyMatrix(x), left, plainL}, {"B*D", yt.Multiply(x), right, plainR}, {"B*D by PreMultiplyMatrix", x.PreMultiplyMatrix(yt), right, plainR}} {
									w := g.short.clone()
									for i := 0; i < w.r; i++ {
										for j := 0; j < w.c; j++ {
											if v := g.got.At(i, j); eq(v, g.plain.at(i, j)) {
												w.set(i, j, v)
											}
										}
									}
									t.expectMatEq(g.what, g.got, w)
								}
							})
						}
					}
				}
			}
		})
	}
	for _, nr := range []int{1, 2, 5, 53} {
		for _, nc := range []int{1, 3, 8, 53} {
			r.Group(fmt.Sprintf("special-scalars/%dx%d", nr, nc), func(t *T) {
				for off := range specials {
					a := special(nr, nc, off)
					for _, k := range allKinds {
						if k == KDiag {
							continue
						}
						x := mk(k, a)
						t.State(fmt.Sprint("scalars", k, off))
						for _, d := range specials {
							t.Do(func() string { return fmt.Sprintf("%v(%v) scalar %v", k, a, d) }, func() {
								t.Op(2)
								t.expectMatEq("A+d", x.ScalarAdd(d), a.mapf(func(v float64) float64 { return v + d }))
								t.expectMatEq("A*d", x.ScalarMultiply(d), a.mapf(func(v float64) float64 { return v * d }))
							})
						}
					}
					u, v := special(1, nr, off).a, special(1, nc, off+1).a
					t.Do(func() string { return fmt.Sprintf("OuterProduct(%v,%v)", u, v) }, func() {
						want := newMat(nr, nc)
						for i := range u {
							for j := range v {
								want.set(i, j, u[i]*v[j])
							}
						}
						for _, ka := range allVKinds {
							for _, kb := range allVKinds {
								t.Op(1)
								t.expectMatEq("outer", linear.OuterProduct(mkv(ka, u), mkv(kb, v)), want)
							}
						}
					})
				}
			})
		}
	}
	// exhaustive small contents: all pairs of 2x2 over {-1,0,1}; 1x2 * 2x1 over {-2..2}
	al := rangeAlpha(-1, 1)
	r.forAllMats("pairs2x2", 2, 2, al, func(t *T, a *Mat) {
		for _, k := range allKinds {
			if fits(k, a) {
				selfCases(t, k, a, true)
			}
		}
		forAll(4, al, func(bv []float64) bool {
			b := &Mat{2, 2, append([]float64(nil), bv...)}
			t.StateF(append(append([]float64{}, a.a...), b.a...))
			for _, ka := range allKinds {
				for _, kb := range allKinds {
					if !fits(ka, a) || !fits(kb, b) || ka == KShared || kb == KShared {
						continue
					}
					mulCases(t, ka, kb, a, b)
					addCases(t, ka, kb, a, b)
				}
			}
			return !t.Stopped()
		})
	})
	// powers
	r.forAllMats("power2x2", 2, 2, rangeAlpha(-2, 2), func(t *T, a *Mat) {
		for _, k := range allKinds {
			if fits(k, a) {
				t.StateF(append([]float64{float64(k)}, a.a...))
				powerCases(t, k, a, 34)
			}
		}
	})
	for n := 1; n <= 6; n++ {
		r.Group(fmt.Sprintf("power/perm%d", n), func(t *T) {
			p := newMat(n, n)
			for i := 0; i < n; i++ {
				p.set(i, (i+1)%n, 1)
			}
			u := eye(n)
			if n > 1 {
				u.set(0, n-1, 1)
			}
			d := diagMat(labelVec(n, 2))
			neg := diagMat(cycleVals(-1, 1)(n))
			for _, k := range allKinds {
				for _, a := range []*Mat{p, u, d, neg, newMat(n, n), eye(n)} {
					if fits(k, a) {
						t.State(fmt.Sprint(k, a))
						powerCases(t, k, a, 140)
					}
				}
			}
		})
	}
	hugePowers(r)
	for _, n := range []int{52, 53, 65} {
		r.Group(fmt.Sprintf("power/big%d", n), func(t *T) {
			p := newMat(n, n)
			for i := 0; i < n; i++ {
				p.set(i, (i+7)%n, 1)
			}
			for _, k := range []Kind{KArray, KBlock, KDiag} {
				a := p
				if k == KDiag {
					a = diagMat(cycleVals(-1, 1, 0)(n))
				}
				t.State(k.String())
				powerCases(t, k, a, 11)
			}
		})
	}
}
