package main

import (
	"fmt"

	"github.com/jtejido/linear"
)

func init() {
	register("C06", "independence of storage",
		"every non-mutating operation and copying constructor of the catalogue x every pairing of representations x shapes; then every object involved (receiver, arguments, all results of two runs) is mutated in every cell with every mutator style and all others compared; chained two operations deep on small shapes. A case is distinct by configuration, operation(s) and mutated object",
		checkC06)
	register("C07", "purity",
		"every non-mutating operation of the catalogue, alone twice and in every ordered pair, x every pairing of representations x shapes; all objects compared bit for bit before and after, and results compared with the results on fresh objects",
		checkC07)
}

// mutateStyles returns the ways to overwrite an object's cells.
func mutateStyles(o any) []func() {
	switch x := o.(type) {
	case linear.RealMatrix:
		r, c := x.RowDimension(), x.ColumnDimension()
		each := func(f func(i, j int)) func() {
			return func() {
				for i := 0; i < r; i++ {
					for j := 0; j < c; j++ {
						if i != j {
							tryDo(func() { f(i, j) }) // a diagonal matrix refuses
						} else {
							f(i, j)
						}
					}
				}
			}
		}
		st := []func(){
			each(func(i, j int) { x.SetEntry(i, j, 4711+float64(i*c+j)) }),
			each(func(i, j int) { x.AddToEntry(i, j, 13) }),
			func() {
				for i := 0; i < r; i++ {
					tryDo(func() { x.SetRow(i, labelVec(c, 3000)) })
				}
			},
			func() {
				for j := 0; j < c; j++ {
					tryDo(func() { x.SetColumn(j, labelVec(r, 4000)) })
				}
			},
			func() { tryDo(func() { x.SetSubMatrix(label(r, c, 5000).rows(), 0, 0) }) },
			func() {
				x.WalkInUpdateOptimizedOrder(&chVisitor{f: func(i, j int, v float64) float64 {
					if i == j {
						return v - 77
					}
					if _, ok := x.(*linear.DiagonalMatrix); ok {
						return 0
					}
					return v - 78
				}})
			},
			func() { x.MultiplyEntry(r-1, min(r-1, c-1), 1.5) },
		}
		return st
	case linear.RealVector:
		n := x.Dimension()
		return []func(){
			func() {
				for i := 0; i < n; i++ {
					x.SetEntry(i, 4711+float64(i))
				}
			},
			func() { x.MapAdd(5) },
			func() { x.SetSubVector(0, mkv(VArray, labelVec(n, 600))) },
			func() { x.Set(8) },
		}
	case []float64:
		return []func(){func() {
			x = x[:cap(x)]
			for i := range x {
				x[i] = 4711 + float64(i)
			}
		}}
	case [][]float64:
		return []func(){func() {
			for _, row := range x {
				row = row[:cap(row)]
				for i := range row {
					row[i] += 4711 + float64(i)
				}
			}
		}, func() {
			for i := range x {
				x[i] = nil
			}
		}}
	case []int:
		return []func(){func() {
			x = x[:cap(x)]
			for i := range x {
				x[i] += 4711
			}
		}}
	}
	return nil
}

type named struct {
	n string
	o any
}

func independence(t *T, desc string, objs []named) {
	for mi := range objs {
		styles := mutateStyles(objs[mi].o)
		if styles == nil {
			continue
		}
		t.State(desc + objs[mi].n)
		t.Do(func() string { return fmt.Sprintf("%s; mutate %s", desc, objs[mi].n) }, func() {
			prints := make([][]float64, len(objs))
			for i := range objs {
				prints[i] = flat(objs[i].o)
			}
			for si, f := range styles {
				f()
				t.Op(1)
				for i := range objs {
					if i == mi {
						continue
					}
					if p := flat(objs[i].o); !sameSlice(p, prints[i]) {
						t.Failf("mutating %s (style %d) changed %s: %v, was %v", objs[mi].n, si, objs[i].n, short(p), short(prints[i]))
					}
				}
			}
		})
	}
}

func worldShapes(thorough bool) [][2]int {
	s := [][2]int{{1, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}}
	if thorough {
		s = append(s, [][2]int{{1, 3}, {3, 1}, {4, 3}, {4, 4}, {3, 5}, {5, 5}}...)
	}
	return s
}

func collect(w *World, res ...[]any) []named {
	var objs []named
	for i, o := range w.objects() {
		objs = append(objs, named{worldNames[i], o})
	}
	for n, rs := range res {
		for i, o := range rs {
			if mutateStyles(o) != nil {
				objs = append(objs, named{fmt.Sprintf("result%d.%d", n+1, i), o})
			}
		}
	}
	return objs
}

func checkC06(r *Run) {
	ops := pureOps()
	shapes := worldShapes(r.thorough)
	big := [][2]int{{53, 53}, {3, 54}, {66, 66}}
	for _, k1 := range allKinds {
		for _, k2 := range allKinds {
			for _, vk := range allVKinds {
				for si, s := range append(append([][2]int{}, shapes...), big...) {
					isBig := si >= len(shapes)
					if !worldFits(k1, k2, s[0], s[1]) || (isBig && (vk != VArray || k2 == KShared || k2 == KForeign || k1 == KShared)) {
						continue
					}
					r.Group(fmt.Sprintf("ops/%v-%v-%v/%dx%d", k1, k2, vk, s[0], s[1]), func(t *T) {
						for oi := range ops {
							op := &ops[oi]
							if isBig && op.shared && !t.thorough && s[0] != 53 {
								continue
							}
							w := newWorld(k1, k2, vk, s[0], s[1])
							if !op.applies(w) {
								continue
							}
							var r1, r2 []any
							if tryDo(func() { r1 = op.run(w); r2 = op.run(w) }) != nil {
								continue // rejected calls are the subject of C04/C24
							}
							independence(t, fmt.Sprintf("%v,%v,%v %dx%d %s", k1, k2, vk, s[0], s[1], op.name), collect(w, r1, r2))
							if t.Stopped() {
								return
							}
						}
					})
				}
			}
		}
	}
	// contents for which a shortcut is tempting
	for mood := 1; mood < len(moods); mood++ {
		for _, k1 := range allKinds {
			for _, k2 := range allKinds {
				for _, vk := range allVKinds {
					for _, s := range shapes {
						if !worldFits(k1, k2, s[0], s[1]) || (moods[mood] == "symmetric" && s[0] != s[1]) {
							continue
						}
						if !r.thorough && (k2 == KShared || k1 == KForeign || (vk != VArray && (k1 != KArray || k2 != KArray))) {
							continue
						}
						r.Group(fmt.Sprintf("%s/%v-%v-%v/%dx%d", moods[mood], k1, k2, vk, s[0], s[1]), func(t *T) {
							for oi := range ops {
								op := &ops[oi]
								w := newWorldMood(k1, k2, vk, s[0], s[1], mood)
								if !op.applies(w) || (op.shared && !t.thorough && vk != VArray) {
									continue
								}
								var r1, r2 []any
								if tryDo(func() { r1 = op.run(w); r2 = op.run(w) }) != nil {
									continue
								}
								independence(t, fmt.Sprintf("%s: %v,%v,%v %dx%d %s", moods[mood], k1, k2, vk, s[0], s[1], op.name), collect(w, r1, r2))
								if t.Stopped() {
									return
								}
							}
						})
					}
				}
			}
		}
	}
	// two operations deep: the first result replaces A (or u) before the second operation
	for _, k1 := range allKinds {
		for _, k2 := range []Kind{KArray, KBlock, KDiag} {
			for _, s := range [][2]int{{2, 2}, {3, 3}, {2, 3}} {
				if !worldFits(k1, k2, s[0], s[1]) {
					continue
				}
				r.Group(fmt.Sprintf("chain/%v-%v/%dx%d", k1, k2, s[0], s[1]), func(t *T) {
					for ai := range ops {
						if (ops[ai].shared || ops[ai].wide) && !t.thorough {
							continue
						}
						for bi := range ops {
							if ((ops[bi].shared && s[0] > 2) || ops[bi].wide) && !t.thorough {
								continue
							}
							w := newWorld(k1, k2, VArray, s[0], s[1])
							if !ops[ai].applies(w) {
								continue
							}
							var r1, r2 []any
							if tryDo(func() { r1 = ops[ai].run(w) }) != nil {
								continue
							}
							old := w.A
							subst := false
							for _, o := range r1 {
								if m, ok := o.(linear.RealMatrix); ok && m.RowDimension() == s[0] && m.ColumnDimension() == s[1] {
									w.A = m
									subst = true
									break
								}
								if v, ok := o.(linear.RealVector); ok && v.Dimension() == s[1] {
									w.u = v
									subst = true
									break
								}
							}
							if !subst {
								break
							}
							if ops[bi].name == "diagonal queries" {
								continue
							}
							if tryDo(func() { r2 = ops[bi].run(w) }) != nil {
								continue
							}
							objs := collect(w, r2)
							objs = append(objs, named{"first receiver", old})
							independence(t, fmt.Sprintf("%v,%v %dx%d %s then %s", k1, k2, s[0], s[1], ops[ai].name, ops[bi].name), dedup(objs))
							if t.Stopped() {
								return
							}
						}
					}
				})
			}
		}
	}
	r.Group("promised sharing", promisedSharing)
}

func dedup(objs []named) []named {
	var out []named
next:
	for _, o := range objs {
		for _, p := range out {
			if m, ok := o.o.(linear.RealMatrix); ok {
				if q, ok := p.o.(linear.RealMatrix); ok && m == q {
					continue next
				}
			}
			if m, ok := o.o.(linear.RealVector); ok {
				if q, ok := p.o.(linear.RealVector); ok && m == q {
					continue next
				}
			}
		}
		out = append(out, o)
	}
	return out
}

func promisedSharing(t *T) {
	do := func(name string, f func()) {
		t.State(name)
		t.Do(func() string { return name }, func() { t.Op(1); f() })
	}
	for _, s := range [][2]int{{1, 1}, {2, 3}, {3, 2}, {53, 54}} {
		r, c := s[0], s[1]
		for i := range edges(r) {
			for j := range edges(c) {
				i, j := edges(r)[i], edges(c)[j]
				do(fmt.Sprintf("array by reference %dx%d (%d,%d)", r, c, i, j), func() {
					rows := label(r, c, 1).rows()
					x := must(linear.NewArray2DRowRealMatrixFromSlices(rows, false))
					x.SetEntry(i, j, -5)
					t.Check(rows[i][j] == -5, "write to the matrix did not reach the referenced rows")
					rows[i][j] = -6
					t.Check(x.At(i, j) == -6, "write to the referenced rows did not reach the matrix")
					x.DataRef()[i][j] = -7
					t.Check(x.At(i, j) == -7 && rows[i][j] == -7, "DataRef is not the storage")
				})
				do(fmt.Sprintf("DataRef %dx%d (%d,%d)", r, c, i, j), func() {
					x := must(linear.NewArray2DRowRealMatrix(r, c))
					d := x.DataRef()
					d[i][j] = 9
					t.Check(x.At(i, j) == 9, "write to DataRef did not reach the matrix")
					x.SetEntry(i, j, 10)
					t.Check(d[i][j] == 10, "write to the matrix did not reach DataRef")
				})
			}
		}
	}
	for n := 1; n <= 5; n++ {
		for i := 0; i < n; i++ {
			do(fmt.Sprintf("diagonal by reference %d at %d", n, i), func() {
				d := labelVec(n, 1)
				x := must(linear.NewDiagonalMatrix(d, false))
				x.SetEntry(i, i, -5)
				t.Check(d[i] == -5, "write to the matrix did not reach the referenced slice")
				d[i] = -6
				t.Check(x.At(i, i) == -6, "write to the referenced slice did not reach the matrix")
				x.DataRef()[i] = -7
				t.Check(x.At(i, i) == -7, "DataRef is not the storage")
			})
			do(fmt.Sprintf("vector by reference %d at %d", n, i), func() {
				d := labelVec(n, 1)
				x := must(linear.NewArrayRealVector(d, false))
				x.SetEntry(i, -5)
				t.Check(d[i] == -5, "write to the vector did not reach the referenced slice")
				d[i] = -6
				t.Check(x.At(i) == -6, "write to the referenced slice did not reach the vector")
				x.DataRef()[i] = -7
				t.Check(x.At(i) == -7 && d[i] == -7, "DataRef is not the storage")
			})
		}
	}
}

func checkC07(r *Run) {
	ops := pureOps()
	shapes := worldShapes(r.thorough)
	for mood := 1; mood < len(moods); mood++ {
		for _, k1 := range allKinds {
			for _, k2 := range allKinds {
				for _, vk := range allVKinds {
					for _, s := range shapes {
						if !worldFits(k1, k2, s[0], s[1]) || (moods[mood] == "symmetric" && s[0] != s[1]) {
							continue
						}
						r.Group(fmt.Sprintf("%s/%v-%v-%v/%dx%d", moods[mood], k1, k2, vk, s[0], s[1]), func(t *T) {
							for oi := range ops {
								w := newWorldMood(k1, k2, vk, s[0], s[1], mood)
								if ops[oi].applies(w) {
									pureTwice(t, &ops[oi], w, fmt.Sprintf("%s: %v,%v,%v %dx%d %s", moods[mood], k1, k2, vk, s[0], s[1], ops[oi].name))
								}
							}
						})
					}
				}
			}
		}
	}
	big := [][2]int{{53, 53}, {3, 54}, {66, 66}}
	for _, k1 := range allKinds {
		for _, k2 := range allKinds {
			for _, vk := range allVKinds {
				for si, s := range append(append([][2]int{}, shapes...), big...) {
					isBig := si >= len(shapes)
					if !worldFits(k1, k2, s[0], s[1]) || (isBig && (vk != VArray || k1 == KShared || k2 == KShared)) {
						continue
					}
					r.Group(fmt.Sprintf("once/%v-%v-%v/%dx%d", k1, k2, vk, s[0], s[1]), func(t *T) {
						for oi := range ops {
							op := &ops[oi]
							w := newWorld(k1, k2, vk, s[0], s[1])
							if !op.applies(w) {
								continue
							}
							pureTwice(t, op, w, fmt.Sprintf("%v,%v,%v %dx%d %s", k1, k2, vk, s[0], s[1], op.name))
						}
					})
					if isBig || (!r.thorough && (s[0] > 2 || s[1] > 2) && (vk != VArray || k2 == KForeign || k2 == KShared)) {
						continue
					}
					r.Group(fmt.Sprintf("pairs/%v-%v-%v/%dx%d", k1, k2, vk, s[0], s[1]), func(t *T) {
						fresh := make([][][]float64, len(ops))
						rejd := make([]bool, len(ops))
						for i := range ops {
							w := newWorld(k1, k2, vk, s[0], s[1])
							if ops[i].applies(w) {
								rejd[i] = tryDo(func() { fresh[i] = flatAll(ops[i].run(w)) }) != nil
							}
						}
						for ai := range ops {
							w := newWorld(k1, k2, vk, s[0], s[1])
							if !ops[ai].applies(w) {
								continue
							}
							before := flatAll(w.objects())
							for bi := range ops {
								if !ops[bi].applies(w) {
									continue
								}
								t.State(fmt.Sprint(k1, k2, vk, s, ops[ai].name, ops[bi].name))
								t.Do(func() string {
									return fmt.Sprintf("%v,%v,%v %dx%d %s then %s", k1, k2, vk, s[0], s[1], ops[ai].name, ops[bi].name)
								}, func() {
									tryDo(func() { ops[ai].run(w) })
									var b [][]float64
									rej := tryDo(func() { b = flatAll(ops[bi].run(w)) })
									t.Op(2)
									t.Check((rej != nil) == rejd[bi], "result depends on history: %v", rej)
									if d := diffFlat(fresh[bi], b); d >= 0 {
										t.Failf("result %d differs from the result on fresh objects", d)
									}
									if d := diffFlat(before, flatAll(w.objects())); d >= 0 {
										t.Failf("operations changed %s", worldNames[d])
									}
								})
								if t.Stopped() {
									return
								}
							}
						}
					})
				}
			}
		}
	}
}

// pureTwice runs an operation twice: nothing it was given may change and the
// second answer must be the first one.
func pureTwice(t *T, op *PureOp, w *World, desc string) {
	t.State(desc)
	t.Do(func() string { return desc }, func() {
		before := flatAll(w.objects())
		var a, b [][]float64
		r1 := tryDo(func() { a = flatAll(op.run(w)) })
		t.Op(1)
		if d := diffFlat(before, flatAll(w.objects())); d >= 0 {
			t.Failf("operation changed %s", worldNames[d])
		}
		r2 := tryDo(func() { b = flatAll(op.run(w)) })
		t.Op(1)
		t.Check((r1 == nil) == (r2 == nil), "first call: %v, repeated: %v", r1, r2)
		if d := diffFlat(a, b); d >= 0 {
			t.Failf("repeated call gives a different result %d", d)
		}
		if d := diffFlat(before, flatAll(w.objects())); d >= 0 {
			t.Failf("repeated operation changed %s", worldNames[d])
		}
	})
}
