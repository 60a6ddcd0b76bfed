package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/jtejido/linear"
)

// dmut is an update of a diagonal matrix: the cells it writes and the call.
// Cells are (row, column, function of the old value).
type dcell struct {
	i, j int
	f    func(old float64) float64
}
type dmut struct {
	name  string
	cells func(n int, at func(i, j int) float64) []dcell
	impl  func(x linear.RealMatrix)
	one   bool // writes a single entry
	mult  bool // multiplication: off the diagonal it keeps the zero whatever the factor
}

func diagMuts(n int, vs []float64, bulk []vals) []dmut {
	var out []dmut
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for _, v := range vs {
				out = append(out,
					dmut{name: fmt.Sprintf("SetEntry(%d,%d,%v)", i, j, v), one: true,
						cells: func(int, func(i, j int) float64) []dcell {
							return []dcell{{i, j, func(float64) float64 { return v }}}
						},
						impl: func(x linear.RealMatrix) { x.SetEntry(i, j, v) }},
					dmut{name: fmt.Sprintf("AddToEntry(%d,%d,%v)", i, j, v), one: true,
						cells: func(int, func(i, j int) float64) []dcell {
							return []dcell{{i, j, func(o float64) float64 { return o + v }}}
						},
						impl: func(x linear.RealMatrix) { x.AddToEntry(i, j, v) }},
					dmut{name: fmt.Sprintf("MultiplyEntry(%d,%d,%v)", i, j, v), one: true, mult: true,
						cells: func(int, func(i, j int) float64) []dcell {
							return []dcell{{i, j, func(o float64) float64 { return o * v }}}
						},
						impl: func(x linear.RealMatrix) { x.MultiplyEntry(i, j, v) }})
			}
		}
	}
	put := func(name string, q rect, a []float64, impl func(x linear.RealMatrix)) {
		w := q.c1 - q.c0 + 1
		out = append(out, dmut{name: name, cells: func(int, func(i, j int) float64) []dcell {
			var cs []dcell
			for i := q.r0; i <= q.r1; i++ {
				for j := q.c0; j <= q.c1; j++ {
					v := a[(i-q.r0)*w+j-q.c0]
					cs = append(cs, dcell{i, j, func(float64) float64 { return v }})
				}
			}
			return cs
		}, impl: impl})
	}
	walk := func(name string, q rect, f func(i, j int, v float64) float64, impl func(x linear.RealMatrix)) {
		out = append(out, dmut{name: name, cells: func(int, func(i, j int) float64) []dcell {
			var cs []dcell
			for i := q.r0; i <= q.r1; i++ {
				for j := q.c0; j <= q.c1; j++ {
					cs = append(cs, dcell{i, j, func(o float64) float64 { return f(i, j, o) }})
				}
			}
			return cs
		}, impl: impl})
	}
	for bi, b := range bulk {
		// bulk contents with zeros off the diagonal (accepted) and dense (rejected unless zero)
		for _, dense := range []bool{false, true} {
			full := newMat(n, n)
			src := b(n * n)
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if dense || i == j {
						full.set(i, j, src[i*n+j])
					} else if (i+j)%2 == 0 {
						full.set(i, j, math.Copysign(0, -1))
					}
				}
			}
			tag := fmt.Sprintf("#%d dense=%v", bi, dense)
			for i := 0; i < n; i++ {
				row, col := full.row(i), full.col(i)
				rq, cq := rect{i, i, 0, n - 1}, rect{0, n - 1, i, i}
				put(fmt.Sprintf("SetRow(%d,%s)", i, tag), rq, row, func(x linear.RealMatrix) { x.SetRow(i, row) })
				put(fmt.Sprintf("SetColumn(%d,%s)", i, tag), cq, col, func(x linear.RealMatrix) { x.SetColumn(i, col) })
				put(fmt.Sprintf("SetRowVector(%d,%s)", i, tag), rq, row, func(x linear.RealMatrix) { x.SetRowVector(i, mkv(VArray, row)) })
				put(fmt.Sprintf("SetColumnVector(%d,%s)", i, tag), cq, col, func(x linear.RealMatrix) { x.SetColumnVector(i, mkv(VForeign, col)) })
				put(fmt.Sprintf("SetRowMatrix(%d,%s)", i, tag), rq, row, func(x linear.RealMatrix) { x.SetRowMatrix(i, mk(KArray, reshape(row, 1, n))) })
				put(fmt.Sprintf("SetColumnMatrix(%d,%s)", i, tag), cq, col, func(x linear.RealMatrix) { x.SetColumnMatrix(i, mk(KBlock, reshape(col, n, 1))) })
			}
			for _, q := range allRects(n, n) {
				s := full.sub(q.r0, q.r1, q.c0, q.c1)
				put(fmt.Sprintf("SetSubMatrix(%v,%s)", q, tag), q, s.a, func(x linear.RealMatrix) { x.SetSubMatrix(s.rows(), q.r0, q.c0) })
				f := func(i, j int, v float64) float64 { return full.at(i, j) }
				for _, w := range updWalks {
					walk(fmt.Sprintf("WalkInUpdate%sBounded(%v,%s)", w.name, q, tag), q, f, func(x linear.RealMatrix) { w.b(x, &chVisitor{f: f}, q) })
				}
			}
			f := func(i, j int, v float64) float64 { return full.at(i, j) }
			for _, w := range updWalks {
				walk(fmt.Sprintf("WalkInUpdate%s(%s)", w.name, tag), rect{0, n - 1, 0, n - 1}, f, func(x linear.RealMatrix) { w.u(x, &chVisitor{f: f}) })
			}
		}
	}
	neg := func(i, j int, v float64) float64 { return -v }
	for _, w := range updWalks {
		walk("WalkInUpdate"+w.name+"(neg)", rect{0, n - 1, 0, n - 1}, neg, func(x linear.RealMatrix) { w.u(x, &chVisitor{f: neg}) })
	}
	return out
}

// stepDiag applies mu to x, checks the outcome against the model diagonal d
// and returns the resulting diagonal.
func (t *T) stepDiag(x linear.RealMatrix, d []float64, mu *dmut) []float64 {
	n := len(d)
	at := func(i, j int) float64 {
		if i == j {
			return d[i]
		}
		return 0
	}
	bad := false
	want := append([]float64{}, d...)
	for _, c := range mu.cells(n, at) {
		v := c.f(at(c.i, c.j))
		if c.i == c.j {
			want[c.i] = v
		} else if v != 0 && !mu.mult {
			bad = true
		}
	}
	rej := tryDo(func() { mu.impl(x) })
	t.Op(1)
	if !bad {
		t.Check(rej == nil, "%s: rejected although it keeps the matrix diagonal: %v", mu.name, rej)
	} else {
		t.Check(rej != nil && rej.Typed, "%s: non-zero value off the diagonal: %v", mu.name, rej)
	}
	got := rd(x)
	t.Check(got.r == n && got.c == n, "%s: dimensions are now %dx%d", mu.name, got.r, got.c)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j {
				t.Check(got.at(i, j) == 0, "%s: off-diagonal entry (%d,%d) reads %v", mu.name, i, j, got.at(i, j))
				continue
			}
			g := got.at(i, i)
			switch {
			case !bad || same(want[i], d[i]):
				t.Check(same(g, want[i]), "%s: entry (%d,%d) is %v, want %v", mu.name, i, i, g, want[i])
			case mu.one:
				t.Check(same(g, d[i]), "%s: rejected update changed (%d,%d) to %v", mu.name, i, i, g)
			default:
				t.Check(same(g, d[i]) || same(g, want[i]), "%s: entry (%d,%d) is %v, neither %v nor %v", mu.name, i, i, g, d[i], want[i])
			}
		}
	}
	return got.diag()
}

func checkC13(r *Run) {
	maxN := 3
	for n := 1; n <= maxN; n++ {
		for _, ref := range []bool{false, true} {
			parts := 1
			if n == 3 {
				parts = 8
			}
			for p := 0; p < parts; p++ {
				r.Group(fmt.Sprintf("bfs/%d/ref=%v/%d", n, ref, p), func(t *T) { diagBfs(t, n, ref, p, parts) })
			}
		}
	}
	// depth-2 histories with special values
	sv := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, 2.5, 1e-300}
	d2 := 2
	if r.thorough {
		d2 = 3
	}
	for n := 1; n <= d2; n++ {
		ms := diagMuts(n, sv, []vals{cycleVals(math.NaN(), 1, math.Inf(-1)), labelVals(50)})
		const parts = 8
		for p := 0; p < parts; p++ {
			r.Group(fmt.Sprintf("depth2/%d/%d", n, p), func(t *T) {
				start := []float64{2, math.Inf(1), -3}[:n]
				for a := p; a < len(ms); a += parts {
					for b := range ms {
						t.Do(func() string { return fmt.Sprintf("diag %v: %s; %s", start, ms[a].name, ms[b].name) }, func() {
							x := mk(KDiag, diagMat(start))
							d := t.stepDiag(x, start, &ms[a])
							d = t.stepDiag(x, d, &ms[b])
							t.State(fmt.Sprint(d))
						})
					}
					if t.Stopped() {
						return
					}
				}
			})
		}
	}
	// reading a large diagonal through every interface after writes at every position
	for _, n := range sweepSizes(r.thorough) {
		r.Group(fmt.Sprintf("large/%d", n), func(t *T) {
			for i := 0; i < n; i++ {
				if n > 60 && len(edges(n)) > 0 && i%13 != 0 && i%52 > 1 {
					continue
				}
				t.State(fmt.Sprint(i))
				t.Do(func() string { return fmt.Sprintf("n=%d write at %d", n, i) }, func() {
					m := diagMat(labelVec(n, 1))
					x := mk(KDiag, m)
					x.SetEntry(i, i, -5)
					m.set(i, i, -5)
					for j := 0; j < n; j++ {
						if j == i {
							continue
						}
						rej := tryDo(func() { x.SetEntry(i, j, 1) })
						t.Check(rej != nil && rej.Typed, "SetEntry(%d,%d,1): %v", i, j, rej)
						x.SetEntry(j, i, math.Copysign(0, -1))
						x.AddToEntry(i, j, 0)
						x.MultiplyEntry(j, i, 3)
					}
					x.AddToEntry(i, i, 7)
					x.MultiplyEntry(i, i, 3)
					m.set(i, i, 6)
					t.Op(4 * n)
					t.expectMatEq("contents", x, m)
				})
			}
		})
	}
	// inverse and singularity
	al := []float64{0, math.Copysign(0, -1), 1, -2, 1e-12, -1e-12, 0.5, 3e-9, 1e300, 1e-300, math.Inf(1), math.NaN()}
	ths := []float64{0, 1e-12, 1e-9, 1e-8, 0.5, 0.75, 2, 1e301}
	maxI := 3
	if r.thorough {
		maxI = 4
	}
	for n := 1; n <= maxI; n++ {
		r.forAllMats("inverse", 1, n, al, func(t *T, m *Mat) {
			d := m.a
			t.State(fmt.Sprint(d))
			for ti := -1; ti < len(ths); ti++ {
				t.Do(func() string { return fmt.Sprintf("diag %v threshold #%d", d, ti) }, func() {
					x := must(linear.NewDiagonalMatrix(append([]float64{}, d...), ti%2 == 0))
					th := 0.0
					if ti >= 0 {
						th = ths[ti]
					}
					sing := false
					for _, v := range d {
						if math.Abs(v) <= th {
							sing = true
						}
					}
					t.Check(x.IsSingular(th) == sing, "IsSingular(%v) is %v, want %v", th, !sing, sing)
					var inv *linear.DiagonalMatrix
					rej := tryDo(func() {
						if ti < 0 {
							inv = x.Inverse()
						} else {
							inv = x.InverseWithThreshold(th)
						}
					})
					t.Op(2)
					t.expectMat("after inverse", x, diagMat(d))
					if sing {
						t.Check(rej != nil && rej.Typed && rej.Status == linear.ESING, "singular matrix: inverse %v", rej)
						return
					}
					t.Check(rej == nil, "inverse rejected: %v", rej)
					got := rd(inv)
					t.Check(got.r == n && got.c == n, "inverse has dimensions %dx%d", got.r, got.c)
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							w := 0.0
							if i == j {
								w = 1 / d[i]
							}
							t.Check(closeTo(got.at(i, j), w, 1e-15), "inverse entry (%d,%d) is %v, want %v", i, j, got.at(i, j), w)
						}
					}
				})
			}
		})
	}
	for _, n := range []int{10, 53, 66} {
		r.Group(fmt.Sprintf("inverse/pos/%d", n), func(t *T) {
			for i := 0; i < n; i++ {
				for _, v := range []float64{0, 1e-10, 4} {
					t.State(fmt.Sprint(i, v))
					t.Do(func() string { return fmt.Sprintf("n=%d entry %d = %v", n, i, v) }, func() {
						d := labelVec(n, 1)
						d[i] = v
						x := must(linear.NewDiagonalMatrix(d, true))
						t.Check(x.IsSingular(0) == (v == 0), "IsSingular(0) wrong")
						t.Check(x.IsSingular(1e-9) == (v < 1), "IsSingular(1e-9) wrong")
						t.Check((tryDo(func() { x.Inverse() }) != nil) == (v == 0), "Inverse acceptance wrong")
						rej := tryDo(func() {
							t.expectMatEq("product with inverse", x.Multiply(x.InverseWithThreshold(1e-9)).Subtract(x.InverseWithThreshold(1e-9).Multiply(x)), newMat(n, n))
						})
						t.Check((rej != nil) == (v < 1), "InverseWithThreshold acceptance wrong: %v", rej)
						t.Op(5)
					})
				}
			}
		})
	}
}

func diagBfs(t *T, n int, ref bool, part, parts int) {
	ms := diagMuts(n, []float64{-1, 0, 1, math.Copysign(0, -1)}, []vals{cycleVals(1, -1), cycleVals(0, 1, 1, 0, -1)})
	type node struct {
		parent, op int
		d          []float64
	}
	key := func(v []float64) string {
		var sb strings.Builder
		for _, y := range v {
			sb.WriteByte(byte('1' + int(y)))
		}
		return sb.String()
	}
	ok := func(v []float64) bool {
		for _, y := range v {
			if y < -1 || y > 1 {
				return false
			}
		}
		return true
	}
	init := make([]float64, n)
	nodes := []node{{-1, -1, init}}
	seen := map[string]bool{key(init): true}
	for ni := 0; ni < len(nodes) && !t.Stopped(); ni++ {
		var path []int
		for k := ni; k > 0; k = nodes[k].parent {
			path = append([]int{nodes[k].op}, path...)
		}
		t.State(fmt.Sprint(ref, key(nodes[ni].d)))
		for oi := range ms {
			var d []float64
			t.Do(func() string {
				var s []string
				for _, p := range append(path, oi) {
					s = append(s, ms[p].name)
				}
				return fmt.Sprintf("n=%d ref=%v: %s", n, ref, strings.Join(s, "; "))
			}, func() {
				x := must(linear.NewDiagonalMatrix(append([]float64{}, init...), !ref))
				d = init
				for _, p := range path {
					d = t.stepDiag(x, d, &ms[p])
				}
				d = t.stepDiag(x, d, &ms[oi])
				if (ni*31+oi)%parts != part {
					return
				}
				m := diagMat(d)
				t.expectRows("Data", x.Data(), m)
				for i := 0; i < n; i++ {
					t.expectSlice("RowAt", x.RowAt(i), m.row(i))
					t.expectSlice("ColumnAt", x.ColumnAt(i), m.col(i))
				}
				t.expectSlice("DataRef", x.DataRef(), d)
				t.expectMat("Copy", x.Copy(), m)
				t.expectMat("Transpose", x.Transpose(), m)
			})
			if d != nil && ok(d) {
				if k := key(d); !seen[k] {
					seen[k] = true
					nodes = append(nodes, node{ni, oi, append([]float64{}, d...)})
				}
			}
		}
	}
}
