package main

import (
	"fmt"
	"strings"

	"github.com/jtejido/linear"
)

func init() {
	register("C30", "failures inside caller-supplied code",
		"every catalogue operation, copying update, walk, map and solve x every representation x every point at which caller-supplied code (operand implementation, visitor, function) is entered: it fails there by a panic. A case is distinct by operation, configuration and failure point",
		checkC30)
}

// faultSignal is what the failing caller-supplied code raises.
type faultSignal struct{ at int }

// fuse counts the entries into caller-supplied code and fails at one of them.
// It fires once: the code is healthy again afterwards.
type fuse struct {
	n, at int
	armed bool
}

func (f *fuse) tick() {
	if !f.armed {
		return
	}
	f.n++
	if f.n == f.at {
		f.armed = false
		panic(faultSignal{f.at})
	}
}

// faultMat and faultVec are caller-supplied implementations that tick.
type faultMat struct {
	linear.RealMatrix
	f *fuse
}

func (m *faultMat) wrap(x linear.RealMatrix) linear.RealMatrix { return &faultMat{x, m.f} }
func (m *faultMat) RowDimension() int                          { m.f.tick(); return m.RealMatrix.RowDimension() }
func (m *faultMat) ColumnDimension() int                       { m.f.tick(); return m.RealMatrix.ColumnDimension() }
func (m *faultMat) At(i, j int) float64                        { m.f.tick(); return m.RealMatrix.At(i, j) }
func (m *faultMat) Copy() linear.RealMatrix                    { m.f.tick(); return m.wrap(m.RealMatrix.Copy()) }
func (m *faultMat) Transpose() linear.RealMatrix {
	m.f.tick()
	return m.wrap(m.RealMatrix.Transpose())
}
func (m *faultMat) Data() [][]float64        { m.f.tick(); return m.RealMatrix.Data() }
func (m *faultMat) RowAt(i int) []float64    { m.f.tick(); return m.RealMatrix.RowAt(i) }
func (m *faultMat) ColumnAt(j int) []float64 { m.f.tick(); return m.RealMatrix.ColumnAt(j) }
func (m *faultMat) RowMatrixAt(i int) linear.RealMatrix {
	m.f.tick()
	return m.wrap(m.RealMatrix.RowMatrixAt(i))
}
func (m *faultMat) ColumnMatrixAt(j int) linear.RealMatrix {
	m.f.tick()
	return m.wrap(m.RealMatrix.ColumnMatrixAt(j))
}
func (m *faultMat) RowVectorAt(i int) linear.RealVector {
	m.f.tick()
	return &faultVec{m.RealMatrix.RowVectorAt(i), m.f}
}
func (m *faultMat) ColumnVectorAt(j int) linear.RealVector {
	m.f.tick()
	return &faultVec{m.RealMatrix.ColumnVectorAt(j), m.f}
}
func (m *faultMat) SubMatrix(a, b, c, d int) linear.RealMatrix {
	m.f.tick()
	return m.wrap(m.RealMatrix.SubMatrix(a, b, c, d))
}
func (m *faultMat) Add(x linear.RealMatrix) linear.RealMatrix {
	m.f.tick()
	return m.wrap(m.RealMatrix.Add(x))
}
func (m *faultMat) Subtract(x linear.RealMatrix) linear.RealMatrix {
	m.f.tick()
	return m.wrap(m.RealMatrix.Subtract(x))
}
func (m *faultMat) Multiply(x linear.RealMatrix) linear.RealMatrix {
	m.f.tick()
	return m.wrap(m.RealMatrix.Multiply(x))
}
func (m *faultMat) ScalarMultiply(d float64) linear.RealMatrix {
	m.f.tick()
	return m.wrap(m.RealMatrix.ScalarMultiply(d))
}
func (m *faultMat) Operate(v []float64) []float64     { m.f.tick(); return m.RealMatrix.Operate(v) }
func (m *faultMat) PreMultiply(v []float64) []float64 { m.f.tick(); return m.RealMatrix.PreMultiply(v) }
func (m *faultMat) WalkInRowOrder(v linear.RealMatrixPreservingVisitor) float64 {
	m.f.tick()
	return m.RealMatrix.WalkInRowOrder(tickPr{v, m.f})
}
func (m *faultMat) WalkInColumnOrder(v linear.RealMatrixPreservingVisitor) float64 {
	m.f.tick()
	return m.RealMatrix.WalkInColumnOrder(tickPr{v, m.f})
}
func (m *faultMat) WalkInOptimizedOrder(v linear.RealMatrixPreservingVisitor) float64 {
	m.f.tick()
	return m.RealMatrix.WalkInOptimizedOrder(tickPr{v, m.f})
}

// tickPr and tickCh fail between the calls of a visitor.
type tickPr struct {
	linear.RealMatrixPreservingVisitor
	f *fuse
}

func (p tickPr) Start(a, b, c, d, e, g int) {
	p.f.tick()
	p.RealMatrixPreservingVisitor.Start(a, b, c, d, e, g)
}
func (p tickPr) Visit(i, j int, v float64) {
	p.f.tick()
	p.RealMatrixPreservingVisitor.Visit(i, j, v)
}
func (p tickPr) End() float64 { p.f.tick(); return p.RealMatrixPreservingVisitor.End() }

type tickCh struct {
	linear.RealMatrixChangingVisitor
	f *fuse
}

func (p tickCh) Start(a, b, c, d, e, g int) {
	p.f.tick()
	p.RealMatrixChangingVisitor.Start(a, b, c, d, e, g)
}
func (p tickCh) Visit(i, j int, v float64) float64 {
	p.f.tick()
	return p.RealMatrixChangingVisitor.Visit(i, j, v)
}
func (p tickCh) End() float64 { p.f.tick(); return p.RealMatrixChangingVisitor.End() }

type faultVec struct {
	linear.RealVector
	f *fuse
}

func (v *faultVec) Dimension() int          { v.f.tick(); return v.RealVector.Dimension() }
func (v *faultVec) At(i int) float64        { v.f.tick(); return v.RealVector.At(i) }
func (v *faultVec) ToArray() []float64      { v.f.tick(); return v.RealVector.ToArray() }
func (v *faultVec) Copy() linear.RealVector { v.f.tick(); return &faultVec{v.RealVector.Copy(), v.f} }
func (v *faultVec) IsNaN() bool             { v.f.tick(); return v.RealVector.IsNaN() }
func (v *faultVec) Iterator() linear.EntryIterator {
	v.f.tick()
	return &faultIter{v.RealVector.Iterator(), v.f}
}
func (v *faultVec) SubVector(i, n int) linear.RealVector {
	v.f.tick()
	return &faultVec{v.RealVector.SubVector(i, n), v.f}
}

type faultIter struct {
	linear.EntryIterator
	f *fuse
}

func (i *faultIter) HasNext() bool      { i.f.tick(); return i.EntryIterator.HasNext() }
func (i *faultIter) Next() linear.Entry { i.f.tick(); return i.EntryIterator.Next() }

// ending tells how a call with a failing part ended.
func ending(f func()) (what string, cause any) {
	defer func() {
		if e := recover(); e != nil {
			what, cause = "panic", e
		}
	}()
	f()
	return "", nil
}

// interrupt runs f with the fuse set to fail at k and tells whether it failed;
// a call that returns although the failure was raised is a violation.
func (t *T) interrupt(fu *fuse, k int, f func()) bool {
	*fu = fuse{at: k, armed: true}
	what, _ := ending(f)
	fired := fu.n >= k
	fu.armed = false
	t.Op(1)
	t.Check(!fired || what != "", "failure %d was swallowed: the operation returned normally", k)
	t.Check(fired || what == "", "operation rejected without a failure")
	return fired
}

// count runs f and returns the number of entries into caller-supplied code,
// or -1 if f is rejected.
func countEntries(fu *fuse, f func()) int {
	*fu = fuse{armed: true}
	what, _ := ending(f)
	fu.armed = false
	if what != "" {
		return -1
	}
	return fu.n
}

func faultPoints(n, all int) []int {
	var out []int
	if n <= all {
		for k := 1; k <= n; k++ {
			out = append(out, k)
		}
		return out
	}
	seen := map[int]bool{}
	for _, k := range append(edges(n), 0, 1, 2, 3, n/4, n/3, n/2, 2*n/3, n-2, n-1) {
		if k >= 0 && k < n && !seen[k] {
			seen[k] = true
			out = append(out, k+1)
		}
	}
	for k := all; k < n; k += max(1, n/all) {
		if !seen[k] {
			seen[k] = true
			out = append(out, k+1)
		}
	}
	return out
}

func faultWorld(k1, k2 Kind, r, c int, fu *fuse) *World {
	w := newWorld(k1, k2, VArray, r, c)
	wm := func(m linear.RealMatrix) linear.RealMatrix { return &faultMat{m, fu} }
	wv := func(v linear.RealVector) linear.RealVector { return &faultVec{v, fu} }
	if k1 == KForeign {
		w.A, w.S, w.N = wm(w.A), wm(w.S), wm(w.N)
	}
	w.B, w.C, w.R = wm(w.B), wm(w.C), wm(w.R)
	w.u, w.v = wv(w.u), wv(w.v)
	return w
}

func checkC30(r *Run) {
	all := 60
	if r.thorough {
		all = 150
	}
	if r.deep {
		all = 5000
	}
	shapes := worldShapes(r.thorough)
	big := [][2]int{{53, 53}, {3, 54}}
	if r.deep {
		big = append(big, [2]int{66, 66}, [2]int{105, 2})
	}
	ops := pureOps()
	for _, k1 := range allKinds {
		for _, k2 := range []Kind{KArray, KBlock, KDiag} {
			for si, s := range append(append([][2]int{}, shapes...), big...) {
				isBig := si >= len(shapes)
				if !worldFits(k1, k2, s[0], s[1]) || (isBig && (k1 == KShared || k2 == KBlock)) {
					continue
				}
				r.Group(fmt.Sprintf("operations/%v-%v/%dx%d", k1, k2, s[0], s[1]), func(t *T) {
					for oi := range ops {
						op := &ops[oi]
						if op.name == "diagonal queries" || (isBig && (op.shared || strings.HasPrefix(op.name, "Power")) && !t.deep) {
							continue
						}
						faultOp(t, op, k1, k2, s[0], s[1], all, isBig)
						if t.Stopped() {
							return
						}
					}
				})
			}
		}
	}
	for _, k := range allKinds {
		for _, s := range append([][2]int{{1, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 4}, {2, 54}, {53, 2}, {53, 53}}, edgeShapes(r)...) {
			if shapeOK(k, s[0], s[1]) {
				r.Group(fmt.Sprintf("walks/%v/%dx%d", k, s[0], s[1]), func(t *T) { faultWalks(t, k, s[0], s[1], all) })
			}
			if k != KForeign {
				if shapeOK(k, s[0], s[1]) {
					r.Group(fmt.Sprintf("updates/%v/%dx%d", k, s[0], s[1]), func(t *T) { faultUpdates(t, k, s[0], s[1], all) })
				}
			}
		}
	}
	for _, n := range []int{0, 1, 2, 3, 5, 8, 53, 105} {
		r.Group(fmt.Sprintf("vectors/%d", n), func(t *T) { faultVectors(t, n, all) })
	}
	for _, dt := range decTypes() {
		if dt.input == nil {
			continue
		}
		for _, n := range []int{1, 2, 3, 5} {
			r.Group(fmt.Sprintf("solves/%s/%d", dt.name, n), func(t *T) { faultSolves(t, &dt, n, all) })
		}
		if r.thorough {
			r.Group(fmt.Sprintf("solves/%s/%d", dt.name, 54), func(t *T) { faultSolves(t, &dt, 54, all) })
		}
	}
}

func edgeShapes(r *Run) [][2]int {
	if !r.thorough {
		return nil
	}
	return [][2]int{{1, 53}, {54, 1}, {52, 104}, {105, 3}, {5, 5}}
}

// faultOp fails every entry into the operands of one non-mutating operation.
func faultOp(t *T, op *PureOp, k1, k2 Kind, r, c, all int, isBig bool) {
	fu := &fuse{}
	w := faultWorld(k1, k2, r, c, fu)
	if !op.applies(w) {
		return
	}
	n := countEntries(fu, func() { op.run(w) })
	if n <= 0 {
		return
	}
	if isBig {
		all = min(all, 4)
	}
	var ref [][]float64
	w = faultWorld(k1, k2, r, c, fu)
	ref = flatAll(op.run(w))
	before := flatAll(w.objects())
	for _, k := range faultPoints(n, all) {
		t.Fresh()
		t.Do(func() string {
			return fmt.Sprintf("%v,%v %dx%d %s, failure at entry %d of %d", k1, k2, r, c, op.name, k, n)
		}, func() {
			// the same world is used for all points: nothing may accumulate either
			t.interrupt(fu, k, func() { op.run(w) })
			if d := diffFlat(before, flatAll(w.objects())); d >= 0 {
				t.Failf("the interrupted operation changed %s", worldNames[d])
			}
			if isBig && k > 2 {
				return
			}
			got := flatAll(op.run(w))
			t.Op(1)
			if d := diffFlat(ref, got); d >= 0 {
				t.Failf("after the failure the operation gives another result %d: %v, want %v", d, short(got[d]), short(ref[d]))
			}
		})
	}
}

// faultWalks fails every callback of every walk.
func faultWalks(t *T, k Kind, r, c, all int) {
	m := contents(k, r, c)
	val := func(i, j int, v float64) float64 {
		if k == KDiag && i != j {
			return v
		}
		return 1000 + float64(i*c+j)
	}
	q := rect{r / 2, r - 1, c / 2, c - 1}
	for _, f := range flavours() {
		total := r*c + 2
		if f.bounded {
			total = (q.r1-q.r0+1)*(q.c1-q.c0+1) + 2
		}
		for _, at := range faultPoints(total, all) {
			t.Fresh()
			t.Do(func() string {
				return fmt.Sprintf("%v %dx%d walk %v, visitor fails at call %d of %d", k, r, c, f, at, total)
			}, func() {
				x := mk(k, m)
				want := m.clone()
				fu := &fuse{}
				var rec recorder
				ch := tickCh{chRec{&rec}, fu}
				rec.upd = func(i, j int, v float64) float64 {
					want.set(i, j, val(i, j, v))
					return val(i, j, v)
				}
				pr := tickPr{prRec{&rec}, fu}
				fired := t.interrupt(fu, at, func() {
					switch {
					case f.upd == 1 && f.bounded:
						updWalks[f.order].b(x, ch, q)
					case f.upd == 1:
						updWalks[f.order].u(x, ch)
					case f.bounded:
						prsWalks[f.order].b(x, pr, q)
					default:
						prsWalks[f.order].u(x, pr)
					}
				})
				t.Check(fired, "the visitor was called less than %d times", at)
				wantVisits := at - 2
				t.Check(len(rec.cells) == max(0, wantVisits), "%d completed visits before the failure at call %d", len(rec.cells), at)
				t.expectMat("matrix after the interrupted walk", x, want)
				// the matrix is as usable as before
				cur := want.clone()
				f.run(t, x, m, q, cur, func(i, j int, v float64) float64 {
					if k == KDiag && i != j {
						return v
					}
					return v + 1
				}, nil)
				t.expectMat("matrix after a further walk", x, cur)
			})
			if t.Stopped() {
				return
			}
		}
	}
}

// oldOrNew requires every entry to be the old or the new one.
func (t *T) oldOrNew(what string, got, old, new []float64) {
	t.Check(len(got) == len(old), "%s: %d entries, want %d", what, len(got), len(old))
	for i := range got {
		t.Check(same(got[i], old[i]) || same(got[i], new[i]), "%s: entry %d is %v, neither the old %v nor the new %v", what, i, got[i], old[i], new[i])
	}
}

// faultUpdates fails every entry into the source of a copying update.
func faultUpdates(t *T, k Kind, r, c, all int) {
	m := contents(k, r, c)
	type upd struct {
		name string
		mat  *Mat // matrix source
		vec  []float64
		do   func(x linear.RealMatrix, sm linear.RealMatrix, sv linear.RealVector)
	}
	var us []upd
	for _, i := range []int{0, r - 1} {
		row := labelVec(c, 500)
		if k == KDiag {
			row = make([]float64, c)
			row[i] = 500
		}
		rm := &Mat{1, c, row}
		us = append(us,
			upd{fmt.Sprintf("SetRowMatrix(%d)", i), rm, nil, func(x, s linear.RealMatrix, _ linear.RealVector) { x.SetRowMatrix(i, s) }},
			upd{fmt.Sprintf("SetRowVector(%d)", i), nil, row, func(x, _ linear.RealMatrix, s linear.RealVector) { x.SetRowVector(i, s) }})
	}
	for _, j := range []int{0, c - 1} {
		col := labelVec(r, 600)
		if k == KDiag {
			col = make([]float64, r)
			col[j] = 600
		}
		cm := &Mat{r, 1, col}
		us = append(us,
			upd{fmt.Sprintf("SetColumnMatrix(%d)", j), cm, nil, func(x, s linear.RealMatrix, _ linear.RealVector) { x.SetColumnMatrix(j, s) }},
			upd{fmt.Sprintf("SetColumnVector(%d)", j), nil, col, func(x, _ linear.RealMatrix, s linear.RealVector) { x.SetColumnVector(j, s) }})
	}
	for _, u := range us {
		for _, sk := range []Kind{KArray, KBlock} {
			if u.mat == nil && sk != KArray {
				continue
			}
			fu := &fuse{}
			var sm linear.RealMatrix
			var sv linear.RealVector
			if u.mat != nil {
				sm = &faultMat{mk(sk, u.mat), fu}
			} else {
				sv = &faultVec{mkv(VArray, u.vec), fu}
			}
			x := mk(k, m)
			n := countEntries(fu, func() { u.do(x, sm, sv) })
			after := rd(x)
			for _, at := range faultPoints(n, all) {
				t.Fresh()
				t.Do(func() string {
					return fmt.Sprintf("%v %dx%d %s from %v, failure at entry %d of %d", k, r, c, u.name, sk, at, n)
				}, func() {
					x := mk(k, m)
					t.interrupt(fu, at, func() { u.do(x, sm, sv) })
					got := rd(x)
					t.Check(got.r == r && got.c == c, "matrix became %dx%d", got.r, got.c)
					t.oldOrNew("after the failure", got.a, m.a, after.a)
					u.do(x, sm, sv)
					t.Op(1)
					t.expectMat("repeated without failure", x, after)
				})
			}
		}
	}
	// copying into a caller's table
	if k == KArray {
		fu := &fuse{}
		src := &faultMat{mk(KArray, m), fu}
		ri, ci := rev(seqInts(r)), rev(seqInts(c))
		for which := 0; which < 2; which++ {
			run := func(d [][]float64) {
				if which == 0 {
					linear.CopySubMatrix(src, 0, r-1, 0, c-1, d)
				} else {
					linear.CopySubMatrixFromIndices(src, ri, ci, d)
				}
			}
			full := sentinel(r+1, c+1)
			n := countEntries(fu, func() { run(full) })
			for _, at := range faultPoints(n, all) {
				t.Fresh()
				t.Do(func() string { return fmt.Sprintf("%dx%d copy %d, failure at entry %d of %d", r, c, which, at, n) }, func() {
					d, old := sentinel(r+1, c+1), sentinel(r+1, c+1)
					t.interrupt(fu, at, func() { run(d) })
					for i := range d {
						t.oldOrNew(fmt.Sprintf("row %d", i), d[i], old[i], full[i])
					}
				})
			}
		}
	}
}

// faultVectors fails every entry into the source, function or visitor of a
// vector operation.
func faultVectors(t *T, n, all int) {
	start := labelVec(n+2, 10)
	type act struct {
		name string
		run  func(x linear.RealVector, fu *fuse)
	}
	src := func(fu *fuse, n int) linear.RealVector { return &faultVec{mkv(VArray, labelVec(n, 700)), fu} }
	acts := []act{
		{"CopyFrom", func(x linear.RealVector, fu *fuse) { x.CopyFrom(src(fu, n+2)) }},
		{"Combine", func(x linear.RealVector, fu *fuse) { x.Combine(2, 3, src(fu, n+2)) }},
		{"Map", func(x linear.RealVector, fu *fuse) { x.Map(func(v float64) float64 { fu.tick(); return 5*v + 1 }) }},
	}
	if n > 0 {
		acts = append(acts, act{"SetSubVector(0)", func(x linear.RealVector, fu *fuse) { x.SetSubVector(0, src(fu, n)) }},
			act{"SetSubVector(2)", func(x linear.RealVector, fu *fuse) { x.SetSubVector(2, src(fu, n)) }})
	}
	for _, a := range acts {
		x := mkv(VArray, start)
		fu := &fuse{}
		cnt := countEntries(fu, func() { a.run(x, fu) })
		after := rdv(x)
		for _, at := range faultPoints(cnt, all) {
			t.Fresh()
			t.Do(func() string { return fmt.Sprintf("n=%d %s, failure at entry %d of %d", n+2, a.name, at, cnt) }, func() {
				x := mkv(VArray, start)
				fu := &fuse{}
				t.interrupt(fu, at, func() { a.run(x, fu) })
				t.oldOrNew("after the failure", rdv(x), start, after)
				x.CopyFrom(mkv(VArray, start))
				a.run(x, &fuse{})
				t.expectVec("repeated without failure", x, after)
			})
		}
	}
	// walks
	for wi := range vwalks {
		w := &vwalks[wi]
		lo, hi := 0, n+1
		if w.bounded {
			lo, hi = 1, n
		}
		if lo > hi {
			continue
		}
		total := hi - lo + 3
		for _, upd := range []bool{false, true} {
			for _, at := range faultPoints(total, all) {
				t.Fresh()
				t.Do(func() string {
					return fmt.Sprintf("n=%d walk %s update=%v, visitor fails at call %d of %d", n+2, w.name, upd, at, total)
				}, func() {
					x := mkv(VArray, start)
					want := append([]float64{}, start...)
					fu := &fuse{}
					visits := 0
					fired := t.interrupt(fu, at, func() {
						if upd {
							w.upd(x, &faultCh{fu, func(i int, v float64) float64 { visits++; want[i] = v * 9; return v * 9 }}, lo, hi)
						} else {
							w.prs(x, &faultPr{fu, func(i int, v float64) { visits++ }}, lo, hi)
						}
					})
					t.Check(fired && visits == max(0, at-2), "%d completed visits before the failure at call %d", visits, at)
					t.expectVec("vector after the interrupted walk", x, want)
				})
			}
		}
	}
}

type faultCh struct {
	fu *fuse
	f  func(i int, v float64) float64
}

func (c *faultCh) Start(n, a, b int)              { c.fu.tick() }
func (c *faultCh) Visit(i int, v float64) float64 { c.fu.tick(); return c.f(i, v) }
func (c *faultCh) End() float64                   { c.fu.tick(); return 0 }

type faultPr struct {
	fu *fuse
	f  func(i int, v float64)
}

func (c *faultPr) Start(n, a, b int)      { c.fu.tick() }
func (c *faultPr) Visit(i int, v float64) { c.fu.tick(); c.f(i, v) }
func (c *faultPr) End() float64           { c.fu.tick(); return 0 }

// faultSolves fails every entry into the right-hand side of the solves of one
// kept decomposition; afterwards all its answers are those of a fresh one.
func faultSolves(t *T, dt *decType, n, all int) {
	fresh := func() *inst {
		w := &inst{}
		m := dt.input(n)
		w.x = mk(KArray, m)
		w.b = mk(KBlock, ints(m.r, 3, 5))
		w.v = mkv(VArray, intVec(m.r, 6))
		dt.build(w)
		return w
	}
	var ref [][][]float64
	for _, o := range dt.ops {
		var obs []any
		if what, _ := ending(func() { obs = o.run(fresh()) }); what == "" && obs != nil {
			ref = append(ref, flatAll(obs))
		} else {
			ref = append(ref, nil)
		}
	}
	probe := fresh()
	if probe.s == nil {
		return
	}
	fu := &fuse{}
	fb, fv := &faultMat{probe.b, fu}, &faultVec{probe.v, fu}
	for mode := 0; mode < 2; mode++ {
		solve := func(w *inst) {
			if mode == 0 {
				w.s.SolveVector(fv)
			} else {
				w.s.SolveMatrix(fb)
			}
		}
		cnt := countEntries(fu, func() { solve(probe) })
		if cnt < 0 {
			continue
		}
		kept := fresh() // one object for all failure points: nothing may accumulate
		for _, at := range faultPoints(cnt, all) {
			t.Fresh()
			t.Do(func() string {
				return fmt.Sprintf("%s order %d, right-hand side (mode %d) fails at entry %d of %d", dt.name, n, mode, at, cnt)
			}, func() {
				t.interrupt(fu, at, func() { solve(kept) })
				for i, o := range dt.ops {
					if ref[i] == nil || o.name == modifyInput.name {
						continue
					}
					got := flatAll(o.run(kept))
					t.Op(1)
					if d := diffFlat(got, ref[i]); d >= 0 {
						t.Failf("%s reports something else (result %d) than on a fresh object", o.name, d)
					}
				}
			})
			if t.Stopped() {
				return
			}
		}
	}
}
