package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/jtejido/linear"
)

func init() {
	register("C09", "vector histories",
		"explicit-state breadth-first search over all contents in {-1,0,1}^n reachable by the full vector mutator alphabet (each transition replayed on a fresh vector, every reading interface compared); all depth-2 (thorough: depth-3) histories with distinguishable and special values; all derived vectors for every operand implementation, length, index and count. A state is distinct by contents, length and storage.",
		checkC09)
	register("C10", "vector metrics",
		"exhaustive enumeration of vectors over small alphabets (including NaN, infinities and signed zeros) and of all pairs, against the definitions; a state is a distinct vector or pair of vectors and implementations.",
		checkC10)
	register("C11", "vector walks",
		"exhaustive enumeration of lengths, bounds (valid and invalid), walk kinds and contents, each driving a protocol automaton; all prefixes of iteration with interleaved updates",
		checkC11)
}

// vec under test kinds: array copied, array by reference.
type vmut struct {
	name  string
	model func(v []float64)
	impl  func(x *linear.ArrayRealVector)
}

type chVec struct {
	start func(n, a, b int)
	f     func(i int, v float64) float64
	end   float64
	ended *int
}

func (c *chVec) Start(n, a, b int) {
	if c.start != nil {
		c.start(n, a, b)
	}
}
func (c *chVec) Visit(i int, v float64) float64 { return c.f(i, v) }
func (c *chVec) End() float64 {
	if c.ended != nil {
		*c.ended++
	}
	return c.end
}

type prVec struct {
	start func(n, a, b int)
	f     func(i int, v float64)
	end   float64
	ended *int
}

func (c *prVec) Start(n, a, b int) {
	if c.start != nil {
		c.start(n, a, b)
	}
}
func (c *prVec) Visit(i int, v float64) { c.f(i, v) }
func (c *prVec) End() float64 {
	if c.ended != nil {
		*c.ended++
	}
	return c.end
}

type vwalk struct {
	name    string
	bounded bool
	ordered bool
	upd     func(x linear.RealVector, v linear.RealVectorChangingVisitor, a, b int) float64
	prs     func(x linear.RealVector, v linear.RealVectorPreservingVisitor, a, b int) float64
}

var vwalks = []vwalk{
	{"Default", false, true,
		func(x linear.RealVector, v linear.RealVectorChangingVisitor, a, b int) float64 {
			return x.WalkInUpdateDefaultOrder(v)
		},
		func(x linear.RealVector, v linear.RealVectorPreservingVisitor, a, b int) float64 {
			return x.WalkInDefaultOrder(v)
		}},
	{"DefaultBounded", true, true,
		func(x linear.RealVector, v linear.RealVectorChangingVisitor, a, b int) float64 {
			return x.WalkInUpdateDefaultOrderBounded(v, a, b)
		},
		func(x linear.RealVector, v linear.RealVectorPreservingVisitor, a, b int) float64 {
			return x.WalkInDefaultOrderBounded(v, a, b)
		}},
	{"Optimized", false, false,
		func(x linear.RealVector, v linear.RealVectorChangingVisitor, a, b int) float64 {
			return x.WalkInUpdateOptimizedOrder(v)
		},
		func(x linear.RealVector, v linear.RealVectorPreservingVisitor, a, b int) float64 {
			return x.WalkInOptimizedOrder(v)
		}},
	{"OptimizedBounded", true, false,
		func(x linear.RealVector, v linear.RealVectorChangingVisitor, a, b int) float64 {
			return x.WalkInUpdateOptimizedOrderBounded(v, a, b)
		},
		func(x linear.RealVector, v linear.RealVectorPreservingVisitor, a, b int) float64 {
			return x.WalkInOptimizedOrderBounded(v, a, b)
		}},
}

func each(v []float64, f func(i int, x float64) float64) {
	for i := range v {
		v[i] = f(i, v[i])
	}
}

// vecMuts is the mutator alphabet for length n; fresh gives operand contents.
func vecMuts(n int, consts []float64, fresh []vals) []vmut {
	return vecMutsAt(n, seqFrom(0, n-1), consts, fresh)
}

// vecMutsAt is the mutator alphabet for length n with every index and every
// window bound taken from idx (ascending).
func vecMutsAt(n int, idx []int, consts []float64, fresh []vals) []vmut {
	var out []vmut
	ends := func(i int) []int { // lengths of the windows that start at i
		var ls []int
		for _, e := range idx {
			if e >= i {
				ls = append(ls, e-i+1)
			}
		}
		return ls
	}
	add := func(name string, model func(v []float64), impl func(x *linear.ArrayRealVector)) {
		out = append(out, vmut{name, model, impl})
	}
	for _, i := range idx {
		for _, c := range consts {
			add(fmt.Sprintf("SetEntry(%d,%v)", i, c), func(v []float64) { v[i] = c }, func(x *linear.ArrayRealVector) { x.SetEntry(i, c) })
			add(fmt.Sprintf("AddToEntry(%d,%v)", i, c), func(v []float64) { v[i] += c }, func(x *linear.ArrayRealVector) { x.AddToEntry(i, c) })
		}
	}
	for _, c := range consts {
		add(fmt.Sprintf("Set(%v)", c), func(v []float64) { each(v, func(int, float64) float64 { return c }) }, func(x *linear.ArrayRealVector) { x.Set(c) })
		add(fmt.Sprintf("MapAdd(%v)", c), func(v []float64) { each(v, func(_ int, y float64) float64 { return y + c }) }, func(x *linear.ArrayRealVector) { x.MapAdd(c) })
		add(fmt.Sprintf("MapSubtract(%v)", c), func(v []float64) { each(v, func(_ int, y float64) float64 { return y - c }) }, func(x *linear.ArrayRealVector) { x.MapSubtract(c) })
		add(fmt.Sprintf("MapMultiply(%v)", c), func(v []float64) { each(v, func(_ int, y float64) float64 { return y * c }) }, func(x *linear.ArrayRealVector) { x.MapMultiply(c) })
		if c != 0 {
			add(fmt.Sprintf("MapDivide(%v)", c), func(v []float64) { each(v, func(_ int, y float64) float64 { return y / c }) }, func(x *linear.ArrayRealVector) { x.MapDivide(c) })
		}
	}
	add("Map(-x)", func(v []float64) { each(v, func(_ int, y float64) float64 { return -y }) }, func(x *linear.ArrayRealVector) { x.Map(func(y float64) float64 { return -y }) })
	for _, ab := range [][2]float64{{2, 3}, {-1, -1}, {0, 1}, {1, 0}, {-1, 2}, {3, -1}} {
		for _, k := range allVKinds {
			add(fmt.Sprintf("Combine(%v,%v,self as %v)", ab[0], ab[1], k), func(v []float64) { each(v, func(_ int, y float64) float64 { return ab[0]*y + ab[1]*y }) },
				func(x *linear.ArrayRealVector) {
					if k == VArray {
						x.Combine(ab[0], ab[1], x)
					} else {
						x.Combine(ab[0], ab[1], &foreignVec{x})
					}
				})
		}
	}
	add("Combine(1,-1,self)", func(v []float64) { each(v, func(_ int, y float64) float64 { return y - y }) }, func(x *linear.ArrayRealVector) { x.Combine(1, -1, x) })
	add("CopyFrom(self)", func(v []float64) {}, func(x *linear.ArrayRealVector) { x.CopyFrom(x) })
	add("SetSubVector(0,self)", func(v []float64) {}, func(x *linear.ArrayRealVector) { x.SetSubVector(0, x) })
	for _, i := range idx { // operands which share storage with the receiver
		for _, a := range idx {
			for _, l := range ends(max(i, a)) {
				for _, k := range allVKinds {
					add(fmt.Sprintf("SetSubVector(%d,%v view %d len %d)", i, k, a, l), func(v []float64) { copy(v[i:], v[a:a+l]) }, func(x *linear.ArrayRealVector) {
						view := must(linear.NewArrayRealVector(x.DataRef()[a:a+l], false))
						if k == VArray {
							x.SetSubVector(i, view)
						} else if i <= a { // read entry by entry
							x.SetSubVector(i, &foreignVec{view})
						} else {
							x.SetSubVector(i, &foreignVec{view.Copy().(*linear.ArrayRealVector)})
						}
					})
				}
				add(fmt.Sprintf("SetSubVectorWithSlice(%d,view %d len %d)", i, a, l), func(v []float64) { copy(v[i:], v[a:a+l]) }, func(x *linear.ArrayRealVector) {
					x.SetSubVectorWithSlice(i, x.DataRef()[a:a+l])
				})
			}
		}
	}
	for fi, fr := range fresh {
		for _, k := range allVKinds {
			full := fr(n)
			add(fmt.Sprintf("CopyFrom(%v#%d)", k, fi), func(v []float64) { copy(v, full) }, func(x *linear.ArrayRealVector) { x.CopyFrom(mkv(k, full)) })
			for _, ab := range [][2]float64{{1, 1}, {-1, 1}, {0, -1}, {1, 0}, {2, -3}} {
				add(fmt.Sprintf("Combine(%v,%v,%v#%d)", ab[0], ab[1], k, fi), func(v []float64) {
					each(v, func(i int, y float64) float64 { return ab[0]*y + ab[1]*full[i] })
				}, func(x *linear.ArrayRealVector) { x.Combine(ab[0], ab[1], mkv(k, full)) })
			}
			for _, i := range idx {
				for _, l := range ends(i) {
					part := fr(l)
					add(fmt.Sprintf("SetSubVector(%d,%v#%d len %d)", i, k, fi, l), func(v []float64) { copy(v[i:], part) }, func(x *linear.ArrayRealVector) { x.SetSubVector(i, mkv(k, part)) })
					if k == VArray {
						add(fmt.Sprintf("SetSubVectorWithSlice(%d,#%d len %d)", i, fi, l), func(v []float64) { copy(v[i:], part) }, func(x *linear.ArrayRealVector) {
							x.SetSubVectorWithSlice(i, append([]float64{}, part...))
						})
					}
				}
			}
		}
		for wi := range vwalks {
			w := &vwalks[wi]
			full := fr(n)
			f := func(i int, y float64) float64 { return full[i] - y }
			if !w.bounded {
				add(fmt.Sprintf("WalkInUpdate%s(#%d-x)", w.name, fi), func(v []float64) { each(v, f) }, func(x *linear.ArrayRealVector) { w.upd(x, &chVec{f: f}, 0, 0) })
				continue
			}
			for _, a := range idx {
				for _, l := range ends(a) {
					b := a + l - 1
					add(fmt.Sprintf("WalkInUpdate%s(%d..%d,#%d-x)", w.name, a, b, fi), func(v []float64) {
						for i := a; i <= b; i++ {
							v[i] = f(i, v[i])
						}
					}, func(x *linear.ArrayRealVector) { w.upd(x, &chVec{f: f}, a, b) })
				}
			}
		}
	}
	return out
}

// readVec compares every reading interface of x with the plain array v.
func (t *T) readVec(x linear.RealVector, v []float64) {
	t.expectVec("At", x, v)
	t.expectSlice("ToArray", x.ToArray(), v)
	if a, ok := x.(*linear.ArrayRealVector); ok {
		t.expectSlice("DataRef", a.DataRef(), v)
	}
	t.expectVec("Copy", x.Copy(), v)
	n := len(v)
	if n > 0 {
		t.expectVec("SubVector(all)", x.SubVector(0, n), v)
	}
	var got []float64
	k := 0
	for it := x.Iterator(); it.HasNext(); k++ {
		e := it.Next()
		t.Check(e.Index() == k, "iterator index %d at step %d", e.Index(), k)
		got = append(got, e.Value())
		t.Check(k <= n, "iterator does not end")
	}
	t.expectSlice("Iterator", got, v)
	for wi := range vwalks {
		w := &vwalks[wi]
		got := make([]float64, n)
		cnt := 0
		if n == 0 && w.bounded {
			continue
		}
		w.prs(x, &prVec{f: func(i int, y float64) {
			cnt++
			if i >= 0 && i < n {
				got[i] = y
			}
		}}, 0, n-1)
		t.Check(cnt == n, "Walk%s: %d visits", w.name, cnt)
		t.expectSlice("Walk"+w.name, got, v)
	}
	nan, inf := false, false
	for _, y := range v {
		nan = nan || y != y
		inf = inf || math.IsInf(y, 0)
	}
	t.Check(x.IsNaN() == nan, "IsNaN is %v for %v", x.IsNaN(), v)
	t.Check(x.IsInf() == (inf && !nan), "IsInf is %v for %v", x.IsInf(), v)
	t.Op(10)
}

func newVec(byRef bool, v []float64) *linear.ArrayRealVector {
	return must(linear.NewArrayRealVector(append([]float64{}, v...), !byRef))
}

func vecBfs(t *T, byRef bool, n int, muts []vmut) {
	type node struct {
		parent, op int
		v          []float64
	}
	key := func(v []float64) string {
		var sb strings.Builder
		for _, y := range v {
			sb.WriteByte(byte('1' + int(y)))
		}
		return sb.String()
	}
	ok := func(v []float64) bool {
		for _, y := range v {
			if y < -1 || y > 1 || y != math.Trunc(y) {
				return false
			}
		}
		return true
	}
	init := make([]float64, n)
	nodes := []node{{-1, -1, init}}
	seen := map[string]bool{key(init): true}
	for ni := 0; ni < len(nodes) && !t.Stopped(); ni++ {
		var path []int
		for k := ni; k > 0; k = nodes[k].parent {
			path = append([]int{nodes[k].op}, path...)
		}
		t.State(fmt.Sprint(byRef, key(nodes[ni].v)))
		for oi := range muts {
			nx := append([]float64{}, nodes[ni].v...)
			muts[oi].model(nx)
			if !ok(nx) {
				continue
			}
			if k := key(nx); !seen[k] {
				seen[k] = true
				nodes = append(nodes, node{ni, oi, nx})
			}
			t.Do(func() string {
				var s []string
				for _, p := range append(path, oi) {
					s = append(s, muts[p].name)
				}
				return fmt.Sprintf("byRef=%v n=%d: %s", byRef, n, strings.Join(s, "; "))
			}, func() {
				x := newVec(byRef, init)
				m := append([]float64{}, init...)
				for _, p := range path {
					muts[p].impl(x)
					muts[p].model(m)
				}
				muts[oi].impl(x)
				muts[oi].model(m)
				t.Op(len(path) + 1)
				t.readVec(x, m)
			})
		}
	}
}

func checkC09(r *Run) {
	maxN := 4
	if r.thorough {
		maxN = 6
	}
	for n := 1; n <= maxN; n++ {
		for _, ref := range []bool{false, true} {
			r.Group(fmt.Sprintf("bfs/%v/%d", ref, n), func(t *T) {
				vecBfs(t, ref, n, vecMuts(n, []float64{-1, 0, 1}, []vals{cycleVals(1, -1), cycleVals(0, 1, -1)}))
			})
		}
	}
	spec := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 2.5}
	d2 := 5
	if r.thorough {
		d2 = 7
	}
	for n := 1; n <= d2; n++ {
		for _, ini := range []int{0, 1} {
			name := [...]string{"label", "special"}[ini]
			var ms []vmut
			if ini == 0 {
				ms = vecMuts(n, []float64{-7, 4}, []vals{labelVals(-900)})
			} else {
				ms = vecMuts(n, spec, []vals{cycleVals(specials...)})
			}
			start := labelVec(n, 100)
			if ini == 1 {
				start = special(1, n, 2).a
			}
			const parts = 8
			for p := 0; p < parts; p++ {
				r.Group(fmt.Sprintf("depth2/%s/%d/%d", name, n, p), func(t *T) {
					for a := p; a < len(ms); a += parts {
						for b := range ms {
							t.Do(func() string { return fmt.Sprintf("%v: %s; %s", start, ms[a].name, ms[b].name) }, func() {
								x := newVec(b%2 == 0, start)
								m := append([]float64{}, start...)
								ms[a].impl(x)
								ms[a].model(m)
								ms[b].impl(x)
								ms[b].model(m)
								t.Op(2)
								t.State(fmt.Sprint(m))
								t.readVec(x, m)
							})
						}
						if t.Stopped() {
							return
						}
					}
				})
			}
			if r.thorough && n <= 3 && ini == 0 {
				for p := 0; p < parts; p++ {
					r.Group(fmt.Sprintf("depth3/%d/%d", n, p), func(t *T) {
						for a := p; a < len(ms); a += parts {
							for b := range ms {
								for c := range ms {
									t.Do(func() string {
										return fmt.Sprintf("%v: %s; %s; %s", start, ms[a].name, ms[b].name, ms[c].name)
									}, func() {
										x := newVec(false, start)
										m := append([]float64{}, start...)
										for _, q := range []int{a, b, c} {
											ms[q].impl(x)
											ms[q].model(m)
										}
										t.Op(3)
										t.StateF(m)
										t.expectVec("At", x, m)
									})
								}
								if t.Stopped() {
									return
								}
							}
						}
					})
				}
			}
		}
	}
	// long vectors: every length, indexes and windows at the ends and the middle
	var lens []int
	for n := d2 + 1; n <= 70; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 100, 127, 128, 129, 130, 255, 256, 257)
	if r.thorough {
		lens = append(lens, seqFrom(71, 140)...)
		lens = append(lens, 511, 512, 513, 1000, 1023, 1024, 1025)
	}
	for _, n := range lens {
		r.Group(fmt.Sprintf("long/%d", n), func(t *T) {
			idx := []int{0, 1, n / 2, n - 2, n - 1}
			for k, ms := range [][]vmut{vecMutsAt(n, idx, []float64{-7, 4}, []vals{labelVals(-900)}), vecMutsAt(n, idx[:4], spec, []vals{cycleVals(specials...)})} {
				for a := range ms {
					t.Do(func() string { return fmt.Sprintf("length %d: %s", n, ms[a].name) }, func() {
						m := labelVec(n, 100)
						if k == 1 {
							m = special(1, n, 2).a
						}
						x := newVec(a%2 == 0, m)
						m = append([]float64{}, m...)
						ms[a].impl(x)
						ms[a].model(m)
						t.Op(1)
						t.Fresh()
						t.readVec(x, m)
					})
				}
			}
			for i := 0; i < n; i++ {
				for _, c := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)} {
					t.Do(func() string { return fmt.Sprintf("length %d: %v at %d", n, c, i) }, func() {
						m := labelVec(n, 100)
						x := newVec(i%2 == 0, m)
						m = append([]float64{}, m...)
						m[i] = c
						x.SetEntry(i, c)
						t.Op(1)
						t.Fresh()
						t.readVec(x, m)
					})
				}
			}
		})
	}
	derived(r)
}

// derived: every vector produced from others.
func derived(r *Run) {
	max := 6
	if r.thorough {
		max = 12
	}
	lens := []int{0}
	for n := 1; n <= max; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 53, 105, 200)
	contents := func(n, salt int) [][]float64 {
		return [][]float64{labelVec(n, float64(1+salt*1000)), intVec(n, salt), special(1, n, salt+1).a}
	}
	for _, k1 := range allVKinds {
		for _, k2 := range allVKinds {
			for _, n := range lens {
				for _, l := range lens {
					r.Group(fmt.Sprintf("append/%v-%v/%d+%d", k1, k2, n, l), func(t *T) {
						for ci := range contents(n, 1) {
							a, b := contents(n, 1)[ci], contents(l, 2)[ci]
							t.State(fmt.Sprint(k1, k2, n, l, ci))
							t.Do(func() string { return fmt.Sprintf("%v(%d).AppendVector(%v(%d)) contents %d", k1, n, k2, l, ci) }, func() {
								x, y := mkv(k1, a), mkv(k2, b)
								want := append(append([]float64{}, a...), b...)
								t.expectVec("AppendVector", x.AppendVector(y), want)
								t.expectVec("receiver", x, a)
								t.expectVec("argument", y, b)
								t.expectVec("FromTwoRealVector", must(linear.NewArrayRealVectorFromTwoRealVector(x, y)), want)
								if k1 == VArray && k2 == VArray {
									t.expectVec("FromTwoArrayRealVector", must(linear.NewArrayRealVectorFromTwoArrayRealVector(x.(*linear.ArrayRealVector), y.(*linear.ArrayRealVector))), want)
								}
								t.expectVec("x.AppendVector(x)", x.AppendVector(x), append(append([]float64{}, a...), a...))
								t.Op(4)
							})
						}
					})
				}
				r.Group(fmt.Sprintf("binary/%v-%v/%d", k1, k2, n), func(t *T) {
					for ci := range contents(n, 1) {
						for cj := range contents(n, 2) {
							a, b := contents(n, 1)[ci], contents(n, 2)[cj]
							t.State(fmt.Sprint(k1, k2, n, ci, cj))
							t.Do(func() string { return fmt.Sprintf("%v op %v n=%d contents %d,%d", k1, k2, n, ci, cj) }, func() {
								for _, self := range []bool{false, true} {
									x, y := mkv(k1, a), mkv(k2, b)
									bb := b
									if self {
										y, bb = x, a
									}
									z := func(f func(p, q float64) float64) []float64 {
										o := make([]float64, n)
										for i := range o {
											o[i] = f(a[i], bb[i])
										}
										return o
									}
									t.expectVecEq("Add", x.Add(y), z(func(p, q float64) float64 { return p + q }))
									t.expectVecEq("Subtract", x.Subtract(y), z(func(p, q float64) float64 { return p - q }))
									t.expectVecEq("EBEMultiply", x.EBEMultiply(y), z(func(p, q float64) float64 { return p * q }))
									t.expectVecEq("EBEDivide", x.EBEDivide(y), z(func(p, q float64) float64 { return p / q }))
									t.expectVec("receiver", x, a)
									t.expectVec("argument", y, bb)
									t.Op(4)
								}
							})
						}
					}
				})
			}
		}
		for _, n := range lens {
			r.Group(fmt.Sprintf("unary/%v/%d", k1, n), func(t *T) {
				for ci, a := range contents(n, 1) {
					t.Do(func() string { return fmt.Sprintf("%v n=%d contents %d", k1, n, ci) }, func() {
						x := mkv(k1, a)
						for _, v := range specials {
							t.expectVec(fmt.Sprintf("Append(%v)", v), x.Append(v), append(append([]float64{}, a...), v))
						}
						t.expectVec("NewArrayRealVectorCopy", must(linear.NewArrayRealVectorCopy(x)), a)
						t.readVec(x, a)
						t.Op(8)
					})
					es := edges(n)
					if n <= 12 {
						es = seqInts(n)
					}
					for _, i := range es {
						for l := 1; i+l <= n; l++ {
							if n > 12 && l > 2 && i+l < n-1 && l%52 > 1 {
								continue
							}
							t.State(fmt.Sprint(k1, n, ci, i, l))
							t.Do(func() string { return fmt.Sprintf("%v n=%d contents %d SubVector(%d,%d)", k1, n, ci, i, l) }, func() {
								x := mkv(k1, a)
								t.expectVec("SubVector", x.SubVector(i, l), a[i:i+l])
								t.expectVec("receiver", x, a)
								t.Op(1)
							})
						}
					}
				}
			})
		}
	}
	// invalid arguments are rejected without effect, valid ones are not
	for _, k1 := range allVKinds {
		for n := 1; n <= 4; n++ {
			r.Group(fmt.Sprintf("rejections/%v/%d", k1, n), func(t *T) { vecAccesses(t, k1, n, false) })
		}
	}
}

// vecAccesses runs every vector access with valid and invalid arguments.
func vecAccesses(t *T, k1 VKind, n int, statuses bool) {
	a := labelVec(n, 1)
	one := func(name string, valid bool, st []int, f func(x linear.RealVector)) {
		t.State(fmt.Sprint(k1, n, name))
		t.Do(func() string { return fmt.Sprintf("%v n=%d %s", k1, n, name) }, func() {
			x := mkv(k1, a)
			rej := tryDo(func() { f(x) })
			t.Op(1)
			if valid {
				t.Check(rej == nil, "valid call rejected: %v", rej)
				return
			}
			t.Check(rej != nil, "invalid call accepted")
			t.Check(rej.Typed, "rejection does not carry the library's error type: %v", rej)
			t.expectVec("receiver after rejection", x, a)
			if statuses {
				t.cause(rej, st)
			}
		})
	}
	in := func(i int) bool { return i >= 0 && i < n }
	idx := []int{-1 << 62, -3, -1, 0, 1, 2, 3, 4, 5, 1 << 62}
	for _, i := range idx {
		one(fmt.Sprintf("At(%d)", i), in(i), stRange, func(x linear.RealVector) { x.At(i) })
		if n > 0 {
			one(fmt.Sprintf("SetSubVector(%d,itself)", i), i == 0, stRange, func(x linear.RealVector) { x.SetSubVector(i, x) })
		}
		one(fmt.Sprintf("SetEntry(%d)", i), in(i), stRange, func(x linear.RealVector) { x.SetEntry(i, 5) })
		one(fmt.Sprintf("AddToEntry(%d)", i), in(i), stRange, func(x linear.RealVector) { x.AddToEntry(i, 5) })
		for _, l := range []int{-1 << 62, -5, -1, 1, 2, 3, 4, 5, 9, 1 << 62, math.MaxInt} {
			st := stRange
			if l < 0 {
				st = union(stRange, []int{linear.ENOTPOS, linear.ENSMALL, linear.ENOTSPOS})
			}
			one(fmt.Sprintf("SubVector(%d,%d)", i, l), l > 0 && in(i) && in(i+l-1), st, func(x linear.RealVector) { x.SubVector(i, l) })
			if l == 1 && !in(i) { // nothing to read or write, but the index is wrong
				one(fmt.Sprintf("SubVector(%d,0)", i), false, st, func(x linear.RealVector) { x.SubVector(i, 0) })
				for _, k2 := range allVKinds {
					one(fmt.Sprintf("SetSubVector(%d,empty %v)", i, k2), false, st, func(x linear.RealVector) { x.SetSubVector(i, mkv(k2, nil)) })
				}
			}
			if l < 1 || l > 9 {
				continue
			}
			for _, k2 := range allVKinds {
				one(fmt.Sprintf("SetSubVector(%d,%v len %d)", i, k2, l), in(i) && in(i+l-1), stRange, func(x linear.RealVector) { x.SetSubVector(i, mkv(k2, labelVec(l, 70))) })
			}
			if k1 == VArray {
				one(fmt.Sprintf("SetSubVectorWithSlice(%d,len %d)", i, l), in(i) && in(i+l-1), stRange, func(x linear.RealVector) {
					x.(*linear.ArrayRealVector).SetSubVectorWithSlice(i, labelVec(l, 70))
				})
			}
		}
		for _, j := range idx {
			ok := in(i) && in(j) && i <= j
			st := stRange
			if in(i) && in(j) {
				st = stOrder
			}
			for wi := range vwalks {
				w := &vwalks[wi]
				if !w.bounded {
					continue
				}
				one(fmt.Sprintf("Walk%s(%d,%d)", w.name, i, j), ok, st, func(x linear.RealVector) {
					w.prs(x, &prVec{f: func(int, float64) {
						if !ok {
							t.Failf("visit before rejection")
						}
					}, start: func(int, int, int) {
						if !ok {
							t.Failf("start before rejection")
						}
					}}, i, j)
				})
				one(fmt.Sprintf("WalkUpdate%s(%d,%d)", w.name, i, j), ok, st, func(x linear.RealVector) {
					w.upd(x, &chVec{f: func(_ int, v float64) float64 {
						if !ok {
							t.Failf("visit before rejection")
						}
						return v
					}, start: func(int, int, int) {
						if !ok {
							t.Failf("start before rejection")
						}
					}}, i, j)
				})
			}
		}
	}
	for l := 0; l <= 5; l++ {
		for _, k2 := range allVKinds {
			y := mkv(k2, labelVec(l, 50))
			ok := l == n
			nm := func(s string) string { return fmt.Sprintf("%s(%v len %d)", s, k2, l) }
			one(nm("Add"), ok, stDim, func(x linear.RealVector) { x.Add(y) })
			one(nm("Subtract"), ok, stDim, func(x linear.RealVector) { x.Subtract(y) })
			one(nm("EBEMultiply"), ok, stDim, func(x linear.RealVector) { x.EBEMultiply(y) })
			one(nm("EBEDivide"), ok, stDim, func(x linear.RealVector) { x.EBEDivide(y) })
			one(nm("Combine"), ok, stDim, func(x linear.RealVector) { x.Combine(2, 3, y) })
			one(nm("CopyFrom"), ok, stDim, func(x linear.RealVector) { x.CopyFrom(y) })
			one(nm("VecDotProduct"), ok, stDim, func(x linear.RealVector) { linear.VecDotProduct(x, y) })
			one(nm("VecDistance"), ok, stDim, func(x linear.RealVector) { linear.VecDistance(x, y) })
			one(nm("VecL1Distance"), ok, stDim, func(x linear.RealVector) { linear.VecL1Distance(x, y) })
			one(nm("VecLInfDistance"), ok, stDim, func(x linear.RealVector) { linear.VecLInfDistance(x, y) })
			if l > 0 {
				one(nm("VecCosine"), ok, stDim, func(x linear.RealVector) { linear.VecCosine(x, y) })
				one(nm("Projection"), ok, stDim, func(x linear.RealVector) { linear.Projection(x, y) })
			}
			one(nm("AppendVector"), true, nil, func(x linear.RealVector) { x.AppendVector(y) })
		}
	}
	for _, o := range []struct {
		name string
		f    func(x linear.RealVector)
	}{
		{"Add", func(x linear.RealVector) { x.Add(x) }},
		{"Subtract", func(x linear.RealVector) { x.Subtract(x) }},
		{"EBEMultiply", func(x linear.RealVector) { x.EBEMultiply(x) }},
		{"EBEDivide", func(x linear.RealVector) { x.EBEDivide(x) }},
		{"Combine", func(x linear.RealVector) { x.Combine(2, 3, x) }},
		{"CopyFrom", func(x linear.RealVector) { x.CopyFrom(x) }},
		{"AppendVector", func(x linear.RealVector) { x.AppendVector(x) }},
		{"VecDotProduct", func(x linear.RealVector) { linear.VecDotProduct(x, x) }},
		{"VecDistance", func(x linear.RealVector) { linear.VecDistance(x, x) }},
		{"VecL1Distance", func(x linear.RealVector) { linear.VecL1Distance(x, x) }},
		{"VecLInfDistance", func(x linear.RealVector) { linear.VecLInfDistance(x, x) }},
	} {
		one(o.name+"(itself)", true, nil, o.f)
	}
	zero := mkv(VArray, make([]float64, n))
	if n > 0 {
		one("VecCosine(zero,zero)", false, []int{linear.EARITH}, func(x linear.RealVector) { linear.VecCosine(zero, zero) })
		one("Projection(zero,zero)", false, []int{linear.EARITH}, func(x linear.RealVector) { linear.Projection(zero, zero) })
	}
	stZero := []int{linear.EARITH}
	one("VecCosine(zero)", false, stZero, func(x linear.RealVector) { linear.VecCosine(x, zero) })
	one("VecCosine(zero,x)", false, stZero, func(x linear.RealVector) { linear.VecCosine(zero, x) })
	one("Projection(zero)", false, stZero, func(x linear.RealVector) { linear.Projection(x, zero) })
	one("Projection(zero,x)", true, nil, func(x linear.RealVector) { linear.Projection(zero, x) })
	one("UnitVector(zero)", false, stZero, func(x linear.RealVector) { linear.UnitVector(zero) })
	one("zero.Unitize", false, stZero, func(x linear.RealVector) { mkv(k1, make([]float64, n)).Unitize() })
	one("Unitize", true, nil, func(x linear.RealVector) { x.Unitize() })
	one("AppendVector(nil)", false, stNil, func(x linear.RealVector) { x.AppendVector(nil) })
	one("NewArrayRealVectorCopy(nil)", false, stNil, func(x linear.RealVector) { reraise(linear.NewArrayRealVectorCopy(nil)) })
	one("NewArrayRealVectorFromTwoRealVector(x,nil)", false, stNil, func(x linear.RealVector) { reraise(linear.NewArrayRealVectorFromTwoRealVector(x, nil)) })
	one("NewArrayRealVectorFromTwoRealVector(nil,x)", false, stNil, func(x linear.RealVector) { reraise(linear.NewArrayRealVectorFromTwoRealVector(nil, x)) })
	one("NewArrayRealVectorFromTwoArrayRealVector(nil,nil)", false, stNil, func(x linear.RealVector) { reraise(linear.NewArrayRealVectorFromTwoArrayRealVector(nil, nil)) })
}

// reraise turns a returned error into a panic carrying it, and a nil object
// without an error into a failure.
func reraise[T any](v *T, err error) {
	if err != nil {
		panic(err)
	}
	if v == nil {
		panic(failPanic{"constructor returned nil without an error"})
	}
}

// ---------------------------------------------------------------- C10

func closeTo(a, b, tol float64) bool {
	if eq(a, b) {
		return true
	}
	return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b))
}

const rel = 1e-12

// metricsOne checks the single-vector metrics.
func (t *T) metricsOne(x linear.RealVector, a []float64) {
	var ss, l1, li float64
	nan := false
	for _, v := range a {
		ss += v * v
		l1 += math.Abs(v)
		li = math.Max(li, math.Abs(v))
		nan = nan || v != v
	}
	t.Check(closeTo(linear.VecNorm(x), math.Sqrt(ss), rel), "VecNorm is %v, want %v", linear.VecNorm(x), math.Sqrt(ss))
	t.Check(closeTo(linear.VecL1Norm(x), l1, rel), "VecL1Norm is %v, want %v", linear.VecL1Norm(x), l1)
	t.Check(closeTo(linear.VecLInfNorm(x), li, rel), "VecLInfNorm is %v, want %v", linear.VecLInfNorm(x), li)
	mn, mx := math.NaN(), math.NaN()
	for _, v := range a {
		if v == v {
			if mn != mn || v < mn {
				mn = v
			}
			if mx != mx || v > mx {
				mx = v
			}
		}
	}
	t.Check(eq(linear.MinValue(x), mn), "MinValue is %v, want %v", linear.MinValue(x), mn)
	t.Check(eq(linear.MaxValue(x), mx), "MaxValue is %v, want %v", linear.MaxValue(x), mx)
	if i := linear.MinIndex(x); mn != mn {
		t.Check(i == -1, "MinIndex is %d although there is no entry other than NaN", i)
	} else {
		t.Check(i >= 0 && i < len(a) && a[i] == mn, "MinIndex is %d, which does not hold the minimum %v", i, mn)
	}
	if i := linear.MaxIndex(x); mx != mx {
		t.Check(i == -1, "MaxIndex is %d although there is no entry other than NaN", i)
	} else {
		t.Check(i >= 0 && i < len(a) && a[i] == mx, "MaxIndex is %d, which does not hold the maximum %v", i, mx)
	}
	t.Op(7)
	norm := math.Sqrt(ss)
	if nan || math.IsInf(norm, 0) || (norm > 0 && norm < 1e-150) {
		return
	}
	u, un := x.Copy(), x.Copy()
	r1 := tryDo(func() { u = linear.UnitVector(x) })
	r2 := tryDo(func() { un.Unitize() })
	t.Op(2)
	t.expectVec("argument of UnitVector", x, a)
	if norm == 0 {
		t.Check(r1 != nil && r1.Typed, "UnitVector of zero vector: %v", r1)
		t.Check(r2 != nil && r2.Typed, "Unitize of zero vector: %v", r2)
		t.expectVec("after rejected Unitize", un, a)
		return
	}
	t.Check(r1 == nil && r2 == nil, "normalisation rejected: %v %v", r1, r2)
	for i := range a {
		t.Check(closeTo(u.At(i), a[i]/norm, rel), "UnitVector[%d] is %v, want %v", i, u.At(i), a[i]/norm)
		t.Check(closeTo(un.At(i), a[i]/norm, rel), "Unitize[%d] is %v, want %v", i, un.At(i), a[i]/norm)
	}
}

func (t *T) metricsTwo(x, y linear.RealVector, a, b []float64) {
	var dot, dd, l1, li, na, nb, mag float64
	for i := range a {
		dot += a[i] * b[i]
		mag += math.Abs(a[i] * b[i])
		d := a[i] - b[i]
		dd += d * d
		l1 += math.Abs(d)
		li = math.Max(li, math.Abs(d))
		na += a[i] * a[i]
		nb += b[i] * b[i]
	}
	tol := 1e-13 * mag
	near := func(g, w float64) bool { return eq(g, w) || math.Abs(g-w) <= tol }
	t.Check(near(linear.VecDotProduct(x, y), dot), "VecDotProduct is %v, want %v", linear.VecDotProduct(x, y), dot)
	t.Check(closeTo(linear.VecDistance(x, y), math.Sqrt(dd), rel), "VecDistance is %v, want %v", linear.VecDistance(x, y), math.Sqrt(dd))
	t.Check(closeTo(linear.VecL1Distance(x, y), l1, rel), "VecL1Distance is %v, want %v", linear.VecL1Distance(x, y), l1)
	t.Check(closeTo(linear.VecLInfDistance(x, y), li, rel), "VecLInfDistance is %v, want %v", linear.VecLInfDistance(x, y), li)
	t.Op(4)
	fin := func(v float64) bool { return v == v && !math.IsInf(v, 0) && (v == 0 || v > 1e-290) }
	if !fin(na) || !fin(nb) || !fin(mag) {
		return
	}
	var cos float64
	rc := tryDo(func() { cos = linear.VecCosine(x, y) })
	if na == 0 || nb == 0 {
		t.Check(rc != nil && rc.Typed, "VecCosine with a zero vector: %v", rc)
	} else {
		t.Check(rc == nil, "VecCosine rejected: %v", rc)
		w := dot / (math.Sqrt(na) * math.Sqrt(nb))
		t.Check(math.Abs(cos-w) <= 1e-12, "VecCosine is %v, want %v", cos, w)
	}
	var pr linear.RealVector
	rp := tryDo(func() { pr = linear.Projection(x, y) })
	t.Op(2)
	if nb == 0 {
		t.Check(rp != nil && rp.Typed, "Projection onto zero: %v", rp)
	} else {
		t.Check(rp == nil, "Projection rejected: %v", rp)
		t.Check(pr.Dimension() == len(a), "Projection has length %d", pr.Dimension())
		for i := range b {
			w := dot / nb * b[i]
			t.Check(math.Abs(pr.At(i)-w) <= 1e-12*(math.Abs(w)+mag/nb*math.Abs(b[i])), "Projection[%d] is %v, want %v", i, pr.At(i), w)
		}
	}
	t.expectVec("first argument", x, a)
	t.expectVec("second argument", y, b)
}

func checkC10(r *Run) {
	al := []float64{-2, -1, 0, 1, 3}
	full := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, 1, -3.5, 1e-5}
	maxPair, maxOne, maxSpec := 3, 6, 4
	if r.thorough {
		maxPair, maxOne, maxSpec = 4, 8, 5
	}
	for _, k := range allVKinds {
		for n := 0; n <= maxOne; n++ {
			if n == 0 {
				r.Group(fmt.Sprintf("one/%v/0", k), func(t *T) {
					t.Do(func() string { return "empty vector" }, func() { t.metricsOne(mkv(k, nil), nil) })
				})
				continue
			}
			r.forAllMats(fmt.Sprintf("one/%v", k), 1, n, al, func(t *T, m *Mat) {
				t.StateF(m.a)
				t.Do(func() string { return fmt.Sprintf("%v %v", k, m.a) }, func() { t.metricsOne(mkv(k, m.a), m.a) })
				t.Do(func() string { return fmt.Sprintf("%v %v with itself", k, m.a) }, func() {
					x := mkv(k, m.a)
					t.metricsTwo(x, x, m.a, m.a)
				})
			})
		}
		for n := 1; n <= maxSpec; n++ {
			r.forAllMats(fmt.Sprintf("special/%v", k), 1, n, full, func(t *T, m *Mat) {
				t.State(fmt.Sprint(m.a))
				t.Do(func() string { return fmt.Sprintf("%v %v", k, m.a) }, func() { t.metricsOne(mkv(k, m.a), m.a) })
			})
		}
		for _, k2 := range allVKinds {
			for n := 1; n <= maxPair; n++ {
				r.forAllMats(fmt.Sprintf("two/%v-%v", k, k2), 2, n, al, func(t *T, m *Mat) {
					t.StateF(m.a)
					t.Do(func() string { return fmt.Sprintf("%v %v, %v %v", k, m.row(0), k2, m.row(1)) }, func() {
						t.metricsTwo(mkv(k, m.row(0)), mkv(k2, m.row(1)), m.row(0), m.row(1))
					})
				})
			}
			for n := 1; n <= 2; n++ {
				r.forAllMats(fmt.Sprintf("twospecial/%v-%v", k, k2), 2, n, full, func(t *T, m *Mat) {
					t.State(fmt.Sprint(m.a))
					t.Do(func() string { return fmt.Sprintf("%v %v, %v %v", k, m.row(0), k2, m.row(1)) }, func() {
						t.metricsTwo(mkv(k, m.row(0)), mkv(k2, m.row(1)), m.row(0), m.row(1))
					})
				})
			}
			r.Group(fmt.Sprintf("long/%v-%v", k, k2), func(t *T) {
				for _, n := range append(sweepSizes(t.thorough), 1000) {
					for _, sc := range []float64{1, 1e-6, 1e6, 1e-100, 1e100, 0x1p-478, 0x1p+478} {
						ps := edges(n)
						if n <= 257 && (sc == 1 || n <= 16) {
							ps = seqFrom(0, n-1)
						}
						for _, p := range ps {
							t.State(fmt.Sprint(n, sc, p))
							t.Do(func() string { return fmt.Sprintf("%v,%v n=%d scale %v extreme at %d", k, k2, n, sc, p) }, func() {
								a, b := intVec(n, 3), intVec(n, 4)
								a[p], b[p] = 17, -19
								for i := range a {
									a[i] *= sc
									b[i] *= sc
								}
								t.metricsOne(mkv(k, a), a)
								t.metricsOne(mkv(k, b), b)
								t.metricsTwo(mkv(k, a), mkv(k2, b), a, b)
								x := mkv(k, a)
								t.metricsTwo(x, x, a, a)
							})
						}
					}
				}
			})
		}
	}
}

// ---------------------------------------------------------------- C11

func checkC11(r *Run) {
	vecNested(r)
	maxN := 7
	if r.thorough {
		maxN = 14
	}
	lens := seqInts(maxN + 1)
	for _, n := range sweepSizes(r.thorough) {
		if n > maxN {
			lens = append(lens, n)
		}
	}
	lens = append(lens, 1000)
	for _, k := range allVKinds {
		for _, n := range lens {
			r.Group(fmt.Sprintf("walks/%v/%d", k, n), func(t *T) { vecWalks(t, k, n) })
			if n >= 1 && n <= 5 {
				r.Group(fmt.Sprintf("rejections/%v/%d", k, n), func(t *T) { vecAccesses(t, k, n, false) })
			}
			if n <= 130 {
				r.Group(fmt.Sprintf("iterator/%v/%d", k, n), func(t *T) { vecIter(t, k, n) })
			}
		}
	}
}

func vecWalks(t *T, k VKind, n int) {
	for wi := range vwalks {
		w := &vwalks[wi]
		var bs [][2]int
		if !w.bounded {
			bs = [][2]int{{0, n - 1}}
		} else {
			ix := edges(n)
			if n <= 14 {
				ix = seqInts(n)
			}
			for ai, a := range ix {
				for _, b := range ix[ai:] {
					bs = append(bs, [2]int{a, b})
				}
			}
		}
		for _, ab := range bs {
			a, b := ab[0], ab[1]
			for ci := 0; ci < 2; ci++ {
				start := labelVec(n, 10)
				if ci == 1 {
					start = special(1, n, 0).a
				}
				for _, end := range []float64{0, 42.5, math.NaN(), math.Inf(-1)} {
					for _, upd := range []bool{false, true} {
						t.State(fmt.Sprint(k, n, w.name, ab, ci, end, upd))
						t.Do(func() string {
							return fmt.Sprintf("%v n=%d walk %s update=%v [%d..%d] contents %d end %v", k, n, w.name, upd, a, b, ci, end)
						}, func() {
							x := mkv(k, start)
							starts, ends := 0, 0
							next := a
							vis := make([]int, n)
							st := func(gn, ga, gb int) {
								starts++
								t.Check(gn == n && ga == a && gb == b, "announced n=%d [%d..%d]", gn, ga, gb)
							}
							visit := func(i int, v float64) {
								t.Check(starts == 1, "visit before start")
								t.Check(ends == 0, "visit after end")
								t.Check(i >= a && i <= b, "visited %d outside the bounds", i)
								if w.ordered {
									t.Check(i == next, "visited %d, expected %d", i, next)
								}
								next++
								vis[i]++
								t.Check(same(v, start[i]), "value %v at %d, want %v", v, i, start[i])
							}
							var res float64
							want := append([]float64{}, start...)
							if upd {
								for i := a; i <= b; i++ {
									want[i] = float64(-1000 - i)
								}
								res = w.upd(x, &chVec{start: st, f: func(i int, v float64) float64 { visit(i, v); return float64(-1000 - i) }, end: end, ended: &ends}, a, b)
							} else {
								res = w.prs(x, &prVec{start: st, f: visit, end: end, ended: &ends}, a, b)
							}
							t.Op(1)
							t.Check(starts == 1 && ends == 1, "start called %d times, end %d times", starts, ends)
							for i := a; i <= b; i++ {
								t.Check(vis[i] == 1, "entry %d visited %d times", i, vis[i])
							}
							t.Check(same(res, end), "walk returned %v, visitor %v", res, end)
							t.expectVec("contents afterwards", x, want)
						})
					}
				}
			}
		}
	}
}

// vecIter: all interleavings of iteration steps with single-entry updates
// placed at every step, and the behaviour at and after the end.
func vecIter(t *T, k VKind, n int) {
	for at := -1; at < n; at++ { // update after step at
		for target := 0; target < max(n, 1); target++ {
			for hn := 0; hn < 3; hn++ { // extra HasNext calls per step
				t.State(fmt.Sprint(k, n, at, target, hn))
				t.Do(func() string {
					return fmt.Sprintf("%v n=%d: SetEntry(%d) after step %d, %d HasNext calls per step", k, n, target, at, hn)
				}, func() {
					m := labelVec(n, 5)
					x := mkv(k, m)
					upd := func() {
						if n > 0 {
							m[target] = -9
							x.SetEntry(target, -9)
						}
					}
					var kept []linear.Entry
					var keptV []float64
					it := x.Iterator()
					other := x.Iterator()
					if at < 0 {
						upd()
					}
					for s := 0; s < n; s++ {
						for q := 0; q < hn; q++ {
							t.Check(it.HasNext(), "HasNext is false at step %d", s)
						}
						e := it.Next()
						t.Check(e != nil, "nil entry")
						t.Check(e.Index() == s && same(e.Value(), m[s]), "step %d gives (%d,%v), want (%d,%v)", s, e.Index(), e.Value(), s, m[s])
						kept = append(kept, e)
						keptV = append(keptV, m[s])
						t.Op(1)
						if s == at {
							upd()
						}
					}
					t.Check(!it.HasNext(), "HasNext is true at the end")
					for q, e := range kept {
						t.Check(e.Index() == q && (same(e.Value(), keptV[q]) || same(e.Value(), m[q])), "entry %d of the iteration has become (%d,%v), was %v", q, e.Index(), e.Value(), keptV[q])
					}
					rej := tryDo(func() {
						if e := it.Next(); e != nil {
							t.Failf("Next past the end returned an entry (%d,%v)", e.Index(), e.Value())
						}
					})
					_ = rej
					t.Check(!it.HasNext(), "HasNext is true after the end")
					if n > 0 {
						t.Check(other.HasNext() && other.Next().Index() == 0, "iterators of one vector are not independent")
					}
				})
			}
		}
	}
}
