package main

import (
	"fmt"

	"github.com/jtejido/linear"
)

// chVisitor is a changing matrix visitor defined by a function.
type chVisitor struct {
	f      func(i, j int, v float64) float64
	end    float64
	starts int
}

func (c *chVisitor) Start(rows, columns, startRow, endRow, startColumn, endColumn int) { c.starts++ }
func (c *chVisitor) Visit(i, j int, v float64) float64                                 { return c.f(i, j, v) }
func (c *chVisitor) End() float64                                                      { return c.end }

// Mut is one mutating operation: its effect on the model and the call.
type Mut struct {
	name  string
	model func(m *Mat)
	impl  func(x linear.RealMatrix)
}

type rect struct{ r0, r1, c0, c1 int }

func (q rect) String() string { return fmt.Sprintf("[%d..%d,%d..%d]", q.r0, q.r1, q.c0, q.c1) }

func allRects(r, c int) []rect {
	var out []rect
	for a := 0; a < r; a++ {
		for b := a; b < r; b++ {
			for d := 0; d < c; d++ {
				for e := d; e < c; e++ {
					out = append(out, rect{a, b, d, e})
				}
			}
		}
	}
	return out
}

// edges gives the indexes of [0,n) near storage-block boundaries.
func edges(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if i < 1 || i == n-1 || (i%52) == 51 || (i%52) == 0 || (n <= 4) {
			out = append(out, i)
		}
	}
	return out
}

func edgeRects(r, c int) []rect {
	var out []rect
	er, ec := edges(r), edges(c)
	for a, r0 := range er {
		for _, r1 := range er[a:] {
			for b, c0 := range ec {
				for _, c1 := range ec[b:] {
					out = append(out, rect{r0, r1, c0, c1})
				}
			}
		}
	}
	return out
}

// vals produces n fresh values.
type vals func(n int) []float64

func constVals(v float64) vals {
	return func(n int) []float64 {
		o := make([]float64, n)
		for i := range o {
			o[i] = v
		}
		return o
	}
}
func cycleVals(a ...float64) vals {
	return func(n int) []float64 {
		o := make([]float64, n)
		for i := range o {
			o[i] = a[i%len(a)]
		}
		return o
	}
}
func labelVals(base float64) vals { return func(n int) []float64 { return labelVec(n, base) } }

func reshape(a []float64, r, c int) *Mat { return &Mat{r, c, append([]float64(nil), a...)} }

// entryMuts: SetEntry/AddToEntry/MultiplyEntry at the given cell.
func entryMuts(i, j int, set, add, mul []float64) []Mut {
	var out []Mut
	for _, v := range set {
		out = append(out, Mut{fmt.Sprintf("SetEntry(%d,%d,%v)", i, j, v),
			func(m *Mat) { m.set(i, j, v) }, func(x linear.RealMatrix) { x.SetEntry(i, j, v) }})
	}
	for _, v := range add {
		out = append(out, Mut{fmt.Sprintf("AddToEntry(%d,%d,%v)", i, j, v),
			func(m *Mat) { m.set(i, j, m.at(i, j)+v) }, func(x linear.RealMatrix) { x.AddToEntry(i, j, v) }})
	}
	for _, v := range mul {
		out = append(out, Mut{fmt.Sprintf("MultiplyEntry(%d,%d,%v)", i, j, v),
			func(m *Mat) { m.set(i, j, m.at(i, j)*v) }, func(x linear.RealMatrix) { x.MultiplyEntry(i, j, v) }})
	}
	return out
}

func rowMuts(i, c int, label string, vs vals) []Mut {
	v := vs(c)
	mod := func(m *Mat) { copy(m.a[i*m.c:(i+1)*m.c], v) }
	out := []Mut{
		{fmt.Sprintf("SetRow(%d,%s)", i, label), mod, func(x linear.RealMatrix) { x.SetRow(i, append([]float64(nil), v...)) }},
	}
	for _, k := range []Kind{KArray, KBlock, KForeign} {
		out = append(out, Mut{fmt.Sprintf("SetRowMatrix(%d,%v:%s)", i, k, label), mod, func(x linear.RealMatrix) { x.SetRowMatrix(i, mk(k, reshape(v, 1, c))) }})
	}
	for _, k := range allVKinds {
		out = append(out, Mut{fmt.Sprintf("SetRowVector(%d,%v:%s)", i, k, label), mod, func(x linear.RealMatrix) { x.SetRowVector(i, mkv(k, v)) }})
	}
	return out
}

func colMuts(j, r int, label string, vs vals) []Mut {
	v := vs(r)
	mod := func(m *Mat) {
		for i := range v {
			m.set(i, j, v[i])
		}
	}
	out := []Mut{
		{fmt.Sprintf("SetColumn(%d,%s)", j, label), mod, func(x linear.RealMatrix) { x.SetColumn(j, append([]float64(nil), v...)) }},
	}
	for _, k := range []Kind{KArray, KBlock, KForeign} {
		out = append(out, Mut{fmt.Sprintf("SetColumnMatrix(%d,%v:%s)", j, k, label), mod, func(x linear.RealMatrix) { x.SetColumnMatrix(j, mk(k, reshape(v, r, 1))) }})
	}
	for _, k := range allVKinds {
		out = append(out, Mut{fmt.Sprintf("SetColumnVector(%d,%v:%s)", j, k, label), mod, func(x linear.RealMatrix) { x.SetColumnVector(j, mkv(k, v)) }})
	}
	return out
}

func subMut(q rect, label string, vs vals) Mut {
	h, w := q.r1-q.r0+1, q.c1-q.c0+1
	s := reshape(vs(h*w), h, w)
	return Mut{fmt.Sprintf("SetSubMatrix(%v,%s)", q, label), func(m *Mat) {
		for i := 0; i < h; i++ {
			for j := 0; j < w; j++ {
				m.set(q.r0+i, q.c0+j, s.at(i, j))
			}
		}
	}, func(x linear.RealMatrix) { x.SetSubMatrix(s.rows(), q.r0, q.c0) }}
}

var updWalks = []struct {
	name string
	b    func(x linear.RealMatrix, v linear.RealMatrixChangingVisitor, q rect) float64
	u    func(x linear.RealMatrix, v linear.RealMatrixChangingVisitor) float64
}{
	{"Row", func(x linear.RealMatrix, v linear.RealMatrixChangingVisitor, q rect) float64 {
		return x.WalkInUpdateRowOrderBounded(v, q.r0, q.r1, q.c0, q.c1)
	}, func(x linear.RealMatrix, v linear.RealMatrixChangingVisitor) float64 {
		return x.WalkInUpdateRowOrder(v)
	}},
	{"Column", func(x linear.RealMatrix, v linear.RealMatrixChangingVisitor, q rect) float64 {
		return x.WalkInUpdateColumnOrderBounded(v, q.r0, q.r1, q.c0, q.c1)
	}, func(x linear.RealMatrix, v linear.RealMatrixChangingVisitor) float64 {
		return x.WalkInUpdateColumnOrder(v)
	}},
	{"Optimized", func(x linear.RealMatrix, v linear.RealMatrixChangingVisitor, q rect) float64 {
		return x.WalkInUpdateOptimizedOrderBounded(v, q.r0, q.r1, q.c0, q.c1)
	}, func(x linear.RealMatrix, v linear.RealMatrixChangingVisitor) float64 {
		return x.WalkInUpdateOptimizedOrder(v)
	}},
}

var prsWalks = []struct {
	name string
	b    func(x linear.RealMatrix, v linear.RealMatrixPreservingVisitor, q rect) float64
	u    func(x linear.RealMatrix, v linear.RealMatrixPreservingVisitor) float64
}{
	{"Row", func(x linear.RealMatrix, v linear.RealMatrixPreservingVisitor, q rect) float64 {
		return x.WalkInRowOrderBounded(v, q.r0, q.r1, q.c0, q.c1)
	}, func(x linear.RealMatrix, v linear.RealMatrixPreservingVisitor) float64 { return x.WalkInRowOrder(v) }},
	{"Column", func(x linear.RealMatrix, v linear.RealMatrixPreservingVisitor, q rect) float64 {
		return x.WalkInColumnOrderBounded(v, q.r0, q.r1, q.c0, q.c1)
	}, func(x linear.RealMatrix, v linear.RealMatrixPreservingVisitor) float64 { return x.WalkInColumnOrder(v) }},
	{"Optimized", func(x linear.RealMatrix, v linear.RealMatrixPreservingVisitor, q rect) float64 {
		return x.WalkInOptimizedOrderBounded(v, q.r0, q.r1, q.c0, q.c1)
	}, func(x linear.RealMatrix, v linear.RealMatrixPreservingVisitor) float64 {
		return x.WalkInOptimizedOrder(v)
	}},
}

// walkMuts: in-place visitor updates over q (bounded) or everything (q nil).
func walkMuts(q *rect, label string, f func(i, j int, v float64) float64) []Mut {
	var out []Mut
	mod := func(m *Mat) {
		p := rect{0, m.r - 1, 0, m.c - 1}
		if q != nil {
			p = *q
		}
		for i := p.r0; i <= p.r1; i++ {
			for j := p.c0; j <= p.c1; j++ {
				m.set(i, j, f(i, j, m.at(i, j)))
			}
		}
	}
	for _, w := range updWalks {
		if q == nil {
			out = append(out, Mut{fmt.Sprintf("WalkInUpdate%sOrder(%s)", w.name, label), mod, func(x linear.RealMatrix) { w.u(x, &chVisitor{f: f}) }})
		} else {
			out = append(out, Mut{fmt.Sprintf("WalkInUpdate%sOrderBounded(%v,%s)", w.name, *q, label), mod, func(x linear.RealMatrix) { w.b(x, &chVisitor{f: f}, *q) }})
		}
	}
	return out
}

// readAll compares every reading interface of x with the model. Level 0: At and
// Data; 1: also rows and columns; 2: also walks, submatrix and copy.
func (t *T) readAll(x linear.RealMatrix, m *Mat, level int) {
	t.expectMat("At", x, m)

	if level == 0 {
		return
	}
	t.expectRows("Data", x.Data(), m)
	for i := 0; i < m.r; i++ {
		t.expectSlice(fmt.Sprintf("RowAt(%d)", i), x.RowAt(i), m.row(i))
	}
	for j := 0; j < m.c; j++ {
		t.expectSlice(fmt.Sprintf("ColumnAt(%d)", j), x.ColumnAt(j), m.col(j))
	}
	t.Op(m.r + m.c + 1)
	if level == 1 {
		return
	}
	for _, w := range prsWalks {
		got := newMat(m.r, m.c)
		n := 0
		w.u(x, &prVisitor{f: func(i, j int, v float64) {
			if i >= 0 && j >= 0 && i < m.r && j < m.c {
				got.set(i, j, v)
			}
			n++
		}})
		if n != m.r*m.c || !sameSlice(got.a, m.a) {
			t.Failf("WalkIn%sOrder read %v (%d visits), want %v", w.name, got, n, m)
		}
	}
	t.expectMat("Copy", x.Copy(), m)
	t.expectMat("SubMatrix(all)", x.SubMatrix(0, m.r-1, 0, m.c-1), m)
	t.expectMat("Transpose", x.Transpose(), m.T())
	for i := 0; i < m.r; i++ {
		t.expectVec("RowVectorAt", x.RowVectorAt(i), m.row(i))
	}
	for j := 0; j < m.c; j++ {
		t.expectVec("ColumnVectorAt", x.ColumnVectorAt(j), m.col(j))
	}
	t.Op(6 + m.r + m.c)
}

type prVisitor struct {
	f   func(i, j int, v float64)
	end float64
}

func (c *prVisitor) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {}
func (c *prVisitor) Visit(i, j int, v float64)                                         { c.f(i, j, v) }
func (c *prVisitor) End() float64                                                      { return c.end }
