package main

import (
	"fmt"
	"math"

	"github.com/jtejido/linear"
)

// World is a set of objects that non-mutating operations are applied to.
type World struct {
	k1, k2 Kind
	vk     VKind
	r, c   int
	A, B   linear.RealMatrix // r x c
	C      linear.RealMatrix // c x r
	S, N   linear.RealMatrix // r x r: symmetric positive definite, general non-singular
	R      linear.RealMatrix // r x c right-hand side
	u, w   linear.RealVector // length c
	v, z   linear.RealVector // length r
	us, vs []float64
	tbl    [][]float64
	ri, ci []int
	dst    [][]float64
}

func (k Kind) content(r, c, salt int) *Mat {
	if k == KDiag {
		d := intVec(r, salt)
		for i := range d {
			if d[i] == 0 {
				d[i] = 7
			}
		}
		return diagMat(d)
	}
	return ints(r, c, salt)
}

// spd is a symmetric positive definite integer matrix (diagonally dominant).
func spd(n int) *Mat {
	m := newMat(n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			v := float64((i*3+j*5)%5 - 2)
			m.set(i, j, v)
			m.set(j, i, v)
		}
	}
	for i := 0; i < n; i++ {
		m.set(i, i, float64(2*n+3+i))
	}
	return m
}

// nonsing is a non-symmetric, diagonally dominant integer matrix.
func nonsing(n int) *Mat {
	m := ints(n, n, 21)
	for i := 0; i < n; i++ {
		m.set(i, i, float64(5*n+3+i))
	}
	return m
}

func worldFits(k1, k2 Kind, r, c int) bool {
	return (k1 != KDiag && k2 != KDiag) || r == c
}

func newWorld(k1, k2 Kind, vk VKind, r, c int) *World {
	w := &World{k1: k1, k2: k2, vk: vk, r: r, c: c}
	w.A = mk(k1, k1.content(r, c, 1))
	w.B = mk(k2, k2.content(r, c, 2))
	w.C = mk(k2, k2.content(c, r, 3))
	if k1 == KDiag {
		w.S = mk(k1, diagMat(labelVec(r, 2)))
		w.N = mk(k1, diagMat(labelVec(r, -30)))
	} else {
		w.S = mk(k1, spd(r))
		w.N = mk(k1, nonsing(r))
	}
	w.R = mk(k2, k2.content(r, c, 5))
	w.u, w.w = mkv(vk, intVec(c, 1)), mkv(VArray, intVec(c, 2))
	w.v, w.z = mkv(vk, intVec(r, 3)), mkv(VArray, intVec(r, 4))
	w.u.SetEntry(0, 3)
	w.w.SetEntry(0, -2)
	w.v.SetEntry(0, 1)
	w.us, w.vs = intVec(c, 5), intVec(r, 6)
	w.tbl = ints(r, c, 7).rows()
	w.ri, w.ci = rev(edges(r)), rev(edges(c))
	return w
}

// Moods are special contents of a world for which a shortcut is tempting:
// zero, unit, equal and symmetric operands. Mood 0 is the ordinary world.
var moods = []string{"plain", "zero operands", "unit operands", "unit receiver", "zero receiver", "equal operands", "symmetric"}

func newWorldMood(k1, k2 Kind, vk VKind, r, c, mood int) *World {
	w := newWorld(k1, k2, vk, r, c)
	eyeOf := func(r, c int) *Mat {
		m := newMat(r, c)
		for i := 0; i < min(r, c); i++ {
			m.set(i, i, 1)
		}
		return m
	}
	constVec := func(n int, v float64) []float64 {
		d := make([]float64, n)
		for i := range d {
			d[i] = v
		}
		return d
	}
	unitVec := func(n int) []float64 {
		d := make([]float64, n)
		d[0] = 1
		return d
	}
	switch moods[mood] {
	case "zero operands":
		w.B, w.C, w.R = mk(k2, newMat(r, c)), mk(k2, newMat(c, r)), mk(k2, newMat(r, c))
		w.w, w.z = mkv(VArray, constVec(c, 0)), mkv(VArray, constVec(r, 0))
		w.us, w.vs, w.tbl = constVec(c, 0), constVec(r, 0), newMat(r, c).rows()
	case "unit operands":
		w.B, w.C, w.R = mk(k2, eyeOf(r, c)), mk(k2, eyeOf(c, r)), mk(k2, eyeOf(r, c))
		w.w, w.z = mkv(VArray, constVec(c, 1)), mkv(VArray, constVec(r, 1))
		w.us, w.vs, w.tbl = constVec(c, 1), unitVec(r), eyeOf(r, c).rows()
		w.ri, w.ci = rev(rev(edges(r))), rev(rev(edges(c)))
	case "unit receiver":
		w.A, w.S, w.N = mk(k1, eyeOf(r, c)), mk(k1, eyeOf(r, r)), mk(k1, eyeOf(r, r))
		w.u, w.v = mkv(vk, unitVec(c)), mkv(vk, unitVec(r))
	case "zero receiver":
		w.A = mk(k1, newMat(r, c))
		w.u, w.v = mkv(vk, constVec(c, 0)), mkv(vk, constVec(r, 0))
	case "equal operands":
		a := rd(w.A)
		if k2 == KDiag {
			a = rd(w.B)
			w.A = mk(k1, a)
		}
		w.B, w.R, w.tbl = mk(k2, a), mk(k2, a), a.rows()
		if r == c {
			w.C = mk(k2, a)
		}
		w.w, w.z = mkv(VArray, rdv(w.u)), mkv(VArray, rdv(w.v))
		w.us, w.vs = rdv(w.u), rdv(w.v)
	case "symmetric":
		if r != c {
			return nil
		}
		tri := newMat(r, r)
		dg := newMat(r, r)
		for i := 0; i < r; i++ {
			for j := i; j < r; j++ {
				tri.set(i, j, float64(1+(i+2*j)%3))
			}
			tri.set(i, i, float64(3+i))
			dg.set(i, i, float64(2*i+1))
		}
		if k1 != KDiag {
			w.A, w.N, w.S = mk(k1, spd(r)), mk(k1, tri), mk(k1, dg)
		}
		if k2 != KDiag {
			w.B, w.C, w.R = mk(k2, tri), mk(k2, spd(r)), mk(k2, tri)
		}
	}
	return w
}

func (w *World) objects() []any {
	return []any{w.A, w.B, w.C, w.S, w.N, w.R, w.u, w.w, w.v, w.z, w.us, w.vs, w.tbl, w.ri, w.ci}
}

var worldNames = []string{"A", "B", "C", "S", "N", "R", "u", "w", "v", "z", "us", "vs", "table", "rows", "columns"}

// print flattens an object to numbers.
func flat(o any) []float64 {
	switch x := o.(type) {
	case nil:
		return []float64{math.Pi}
	case linear.RealMatrix:
		m := rd(x)
		return append([]float64{float64(m.r), float64(m.c)}, m.a...)
	case linear.RealVector:
		return append([]float64{float64(x.Dimension())}, rdv(x)...)
	case []float64:
		return append([]float64{float64(len(x))}, x...)
	case [][]float64:
		out := []float64{float64(len(x))}
		for _, r := range x {
			out = append(out, float64(len(r)))
			out = append(out, r...)
		}
		return out
	case []int:
		out := []float64{float64(len(x))}
		for _, v := range x {
			out = append(out, float64(v))
		}
		return out
	case float64:
		return []float64{x}
	case int:
		return []float64{float64(x)}
	case bool:
		if x {
			return []float64{1}
		}
		return []float64{0}
	}
	panic(fmt.Sprintf("flat %T", o))
}

func flatAll(os []any) [][]float64 {
	out := make([][]float64, len(os))
	for i, o := range os {
		out[i] = flat(o)
	}
	return out
}

func diffFlat(a, b [][]float64) int {
	if len(a) != len(b) {
		return len(a)
	}
	for i := range a {
		if !sameSlice(a[i], b[i]) {
			return i
		}
	}
	return -1
}

// PureOp is a non-mutating operation; results are everything it hands out.
type PureOp struct {
	name   string
	ok     func(w *World) bool // nil: always
	shared bool                // results are reference accessors of a decomposition (see C06)
	wide   bool                // many results; not combined with other operations at quick bounds
	run    func(w *World) []any
}

func pureOps() []PureOp {
	var ops []PureOp
	add := func(name string, run func(w *World) []any) { ops = append(ops, PureOp{name: name, run: run}) }
	addIf := func(name string, ok func(w *World) bool, run func(w *World) []any) {
		ops = append(ops, PureOp{name: name, ok: ok, run: run})
	}
	sq := func(w *World) bool { return w.r == w.c }
	// matrices
	add("A.Copy", func(w *World) []any { return []any{w.A.Copy()} })
	add("A.Data", func(w *World) []any { return []any{w.A.Data()} })
	add("A.Transpose", func(w *World) []any { return []any{w.A.Transpose()} })
	add("A.Add(B)", func(w *World) []any { return []any{w.A.Add(w.B)} })
	add("A.Subtract(B)", func(w *World) []any { return []any{w.A.Subtract(w.B)} })
	add("B.Add(A)", func(w *World) []any { return []any{w.B.Add(w.A)} })
	add("A.Subtract(A)", func(w *World) []any { return []any{w.A.Subtract(w.A)} })
	add("A.ScalarAdd(2)", func(w *World) []any { return []any{w.A.ScalarAdd(2)} })
	add("A.ScalarAdd(0)", func(w *World) []any { return []any{w.A.ScalarAdd(0)} })
	add("A.ScalarMultiply(-3)", func(w *World) []any { return []any{w.A.ScalarMultiply(-3)} })
	add("A.ScalarMultiply(1)", func(w *World) []any { return []any{w.A.ScalarMultiply(1)} })
	add("A.ScalarMultiply(0)", func(w *World) []any { return []any{w.A.ScalarMultiply(0)} })
	add("A.Multiply(C)", func(w *World) []any { return []any{w.A.Multiply(w.C)} })
	add("A.PreMultiplyMatrix(C)", func(w *World) []any { return []any{w.A.PreMultiplyMatrix(w.C)} })
	add("C.Multiply(A)", func(w *World) []any { return []any{w.C.Multiply(w.A)} })
	addIf("A.Multiply(A)", sq, func(w *World) []any { return []any{w.A.Multiply(w.A)} })
	add("A.SubMatrix(all)", func(w *World) []any { return []any{w.A.SubMatrix(0, w.r-1, 0, w.c-1)} })
	add("A.SubMatrix(corner)", func(w *World) []any { return []any{w.A.SubMatrix(w.r/2, w.r-1, w.c/2, w.c-1)} })
	add("A.SubMatrix(top)", func(w *World) []any { return []any{w.A.SubMatrix(0, 0, 0, w.c-1)} })
	add("SubMatrix(A,rows,columns)", func(w *World) []any { return []any{linear.SubMatrix(w.A, w.ri, w.ci)} })
	add("CopySubMatrix(A)", func(w *World) []any {
		d := sentinel(w.r, w.c)
		linear.CopySubMatrix(w.A, 0, w.r-1, 0, w.c-1, d)
		return []any{d}
	})
	add("CopySubMatrixFromIndices(A)", func(w *World) []any {
		d := sentinel(w.r, w.c)
		linear.CopySubMatrixFromIndices(w.A, w.ri, w.ci, d)
		return []any{d}
	})
	add("A.RowMatrixAt", func(w *World) []any { return []any{w.A.RowMatrixAt(w.r - 1)} })
	add("A.ColumnMatrixAt", func(w *World) []any { return []any{w.A.ColumnMatrixAt(w.c - 1)} })
	add("A.RowAt", func(w *World) []any { return []any{w.A.RowAt(0)} })
	add("A.ColumnAt", func(w *World) []any { return []any{w.A.ColumnAt(0)} })
	add("A.RowVectorAt", func(w *World) []any { return []any{w.A.RowVectorAt(w.r - 1)} })
	add("A.ColumnVectorAt", func(w *World) []any { return []any{w.A.ColumnVectorAt(w.c - 1)} })
	add("A.Operate(us)", func(w *World) []any { return []any{w.A.Operate(w.us)} })
	add("A.PreMultiply(vs)", func(w *World) []any { return []any{w.A.PreMultiply(w.vs)} })
	add("A.OperateVector(u)", func(w *World) []any { return []any{w.A.OperateVector(w.u)} })
	add("A.PreMultiplyVector(v)", func(w *World) []any { return []any{w.A.PreMultiplyVector(w.v)} })
	add("A.Equals", func(w *World) []any { return []any{w.A.Equals(w.B), w.A.Equals(w.A), w.A.Equals(w.C), w.B.Equals(w.A)} })
	add("norms(A)", func(w *World) []any {
		return []any{linear.MatLInfNorm(w.A), linear.MatFrobeniusNorm(w.A), linear.IsSquare(w.A)}
	})
	addIf("A.Trace", sq, func(w *World) []any { return []any{w.A.Trace()} })
	for p := 0; p <= 6; p++ {
		addIf(fmt.Sprintf("Power(A,%d)", p), sq, func(w *World) []any { return []any{linear.Power(w.A, p)} })
	}
	for i := range prsWalks {
		add("A.WalkIn"+prsWalks[i].name, func(w *World) []any {
			var seen []float64
			prsWalks[i].u(w.A, &prVisitor{f: func(a, b int, v float64) { seen = append(seen, float64(a), float64(b), v) }})
			prsWalks[i].b(w.A, &prVisitor{f: func(a, b int, v float64) { seen = append(seen, float64(a), float64(b), v) }}, rect{w.r / 2, w.r - 1, w.c / 2, w.c - 1})
			return []any{seen}
		})
	}
	add("OuterProduct(v,u)", func(w *World) []any { return []any{linear.OuterProduct(w.v, w.u)} })
	add("RealMatrixFromSlices(table)", func(w *World) []any { return []any{must(linear.NewRealMatrixFromSlices(w.tbl))} })
	add("Array2DFromSlices(table,copy)", func(w *World) []any { return []any{must(linear.NewArray2DRowRealMatrixFromSlices(w.tbl, true))} })
	add("BlockFromSlices(table)", func(w *World) []any { return []any{must(linear.NewBlockRealMatrixFromSlices(w.tbl))} })
	add("Array2DFromSlice(us)", func(w *World) []any { return []any{must(linear.NewArray2DRowRealMatrixFromSlice(w.us))} })
	add("Diagonal(us)", func(w *World) []any {
		return []any{must(linear.NewDiagonalMatrix(w.us, true)), must(linear.NewDiagonalMatrixFromSlice(w.us)), must(linear.NewRealDiagonalMatrix(w.us)), must(linear.NewRealMatrixWithDiagonal(w.us))}
	})
	// matrix updates that copy in: the source must stay independent (target is a copy of A)
	add("copy.SetSubMatrix(table)", func(w *World) []any {
		x := mk(denseOf(w.k1), rd(w.A))
		x.SetSubMatrix(w.tbl, 0, 0)
		return []any{x}
	})
	add("copy.SetRow(us)", func(w *World) []any { x := mk(denseOf(w.k1), rd(w.A)); x.SetRow(0, w.us); return []any{x} })
	add("copy.SetColumn(vs)", func(w *World) []any { x := mk(denseOf(w.k1), rd(w.A)); x.SetColumn(0, w.vs); return []any{x} })
	add("copy.SetRowVector(u)", func(w *World) []any { x := mk(denseOf(w.k1), rd(w.A)); x.SetRowVector(0, w.u); return []any{x} })
	add("copy.SetColumnVector(v)", func(w *World) []any {
		x := mk(denseOf(w.k1), rd(w.A))
		x.SetColumnVector(0, w.v)
		return []any{x}
	})
	add("copy.SetRowMatrix", func(w *World) []any {
		x, y := mk(denseOf(w.k1), rd(w.A)), mk(denseOf(w.k2), ints(1, w.c, 9))
		x.SetRowMatrix(w.r-1, y)
		return []any{x, y}
	})
	add("copy.SetColumnMatrix", func(w *World) []any {
		x, y := mk(denseOf(w.k1), rd(w.A)), mk(denseOf(w.k2), ints(w.r, 1, 9))
		x.SetColumnMatrix(w.c-1, y)
		return []any{x, y}
	})
	// vectors
	add("u.Copy", func(w *World) []any { return []any{w.u.Copy(), must(linear.NewArrayRealVectorCopy(w.u))} })
	add("u.ToArray", func(w *World) []any { return []any{w.u.ToArray()} })
	add("u.Add(w)", func(w *World) []any { return []any{w.u.Add(w.w), w.w.Add(w.u)} })
	add("u.Subtract(w)", func(w *World) []any { return []any{w.u.Subtract(w.w), w.w.Subtract(w.u)} })
	add("u.EBEMultiply(w)", func(w *World) []any { return []any{w.u.EBEMultiply(w.w), w.w.EBEMultiply(w.u)} })
	add("u.EBEDivide(w)", func(w *World) []any { return []any{w.u.EBEDivide(w.w), w.w.EBEDivide(w.u)} })
	add("u.Append(1)", func(w *World) []any { return []any{w.u.Append(1)} })
	add("u.AppendVector(w)", func(w *World) []any {
		return []any{w.u.AppendVector(w.w), w.w.AppendVector(w.u), w.w.AppendVector(w.w)}
	})
	add("u.SubVector", func(w *World) []any { return []any{w.u.SubVector(0, w.c), w.u.SubVector(w.c-1, 1)} })
	add("u.Equals(w)", func(w *World) []any {
		return []any{w.u.Equals(w.w), w.w.Equals(w.u), w.u.Equals(w.u), w.u.IsNaN(), w.u.IsInf()}
	})
	add("vector norms", func(w *World) []any {
		return []any{linear.VecNorm(w.u), linear.VecL1Norm(w.u), linear.VecLInfNorm(w.u), linear.VecDistance(w.u, w.w), linear.VecL1Distance(w.u, w.w), linear.VecLInfDistance(w.u, w.w), linear.VecDotProduct(w.u, w.w), linear.VecCosine(w.u, w.w),
			linear.MinIndex(w.u), linear.MinValue(w.u), linear.MaxIndex(w.u), linear.MaxValue(w.u)}
	})
	add("Projection(u,w)", func(w *World) []any { return []any{linear.Projection(w.u, w.w)} })
	add("Projection(w,u)", func(w *World) []any { return []any{linear.Projection(w.w, w.u)} })
	add("UnitVector(u)", func(w *World) []any { return []any{linear.UnitVector(w.u)} })
	add("u walks and iteration", func(w *World) []any {
		var seen []float64
		pv := vecPr{f: func(i int, x float64) { seen = append(seen, float64(i), x) }}
		w.u.WalkInDefaultOrder(pv)
		w.u.WalkInOptimizedOrder(pv)
		w.u.WalkInDefaultOrderBounded(pv, 0, w.c-1)
		w.u.WalkInOptimizedOrderBounded(pv, 0, w.c-1)
		for it := w.u.Iterator(); it.HasNext(); {
			e := it.Next()
			seen = append(seen, float64(e.Index()), e.Value())
		}
		return []any{seen}
	})
	add("vector constructors", func(w *World) []any {
		return []any{must(linear.NewArrayRealVectorFromSlice(w.us)), must(linear.NewArrayRealVector(w.us, true)), must(linear.NewRealVector(w.us)), must(linear.NewArrayRealVectorFromTwoRealVector(w.u, w.w))}
	})
	add("target.SetSubVector(u)", func(w *World) []any {
		x := mkv(VArray, labelVec(w.c+2, 1))
		x.SetSubVector(1, w.u)
		return []any{x}
	})
	add("target.CopyFrom(u)", func(w *World) []any { x := mkv(VArray, labelVec(w.c, 1)); x.CopyFrom(w.u); return []any{x} })
	add("target.Combine(u)", func(w *World) []any {
		x := mkv(VArray, labelVec(w.c, 1))
		x.Combine(2, 3, w.u)
		return []any{x}
	})
	// empty vectors
	for _, ek := range allVKinds {
		add(fmt.Sprintf("u.AppendVector(empty %v)", ek), func(w *World) []any {
			e := mkv(ek, nil)
			return []any{w.u.AppendVector(e), e.AppendVector(w.u), w.w.AppendVector(e), e.AppendVector(w.w),
				must(linear.NewArrayRealVectorFromTwoRealVector(w.u, e)), must(linear.NewArrayRealVectorFromTwoRealVector(e, w.w))}
		})
	}
	small := func(w *World) bool { return w.r*w.c <= 25 }
	addWide := func(name string, run func(w *World) []any) {
		ops = append(ops, PureOp{name: name, ok: small, wide: true, run: run})
	}
	addWide("A.SubMatrix(bands)", func(w *World) []any {
		var out []any
		for i := 0; i < w.r; i++ {
			out = append(out, w.A.SubMatrix(i, w.r-1, 0, w.c-1), w.A.SubMatrix(0, i, 0, w.c-1))
		}
		for j := 0; j < w.c; j++ {
			out = append(out, w.A.SubMatrix(0, w.r-1, j, w.c-1), w.A.SubMatrix(0, w.r-1, 0, j))
		}
		return out
	})
	addWide("u.SubVector(ranges)", func(w *World) []any {
		var out []any
		for i := 0; i < w.c; i++ {
			for n := 1; i+n <= w.c; n++ {
				out = append(out, w.u.SubVector(i, n), w.w.SubVector(i, n))
			}
		}
		return out
	})
	add("A.Add(B) reversed", func(w *World) []any { return []any{w.B.Subtract(w.A), w.B.Multiply(w.A.Transpose())} })
	add("A.PreMultiplyMatrix", func(w *World) []any { return []any{w.C.PreMultiplyMatrix(w.A)} })
	addWide("A.RowAt(all)", func(w *World) []any {
		var out []any
		for i := range edges(w.r) {
			i := edges(w.r)[i]
			out = append(out, w.A.RowAt(i), w.A.RowVectorAt(i))
		}
		for j := range edges(w.c) {
			j := edges(w.c)[j]
			out = append(out, w.A.ColumnAt(j), w.A.ColumnVectorAt(j))
		}
		return out
	})
	add("Projection(u,u)", func(w *World) []any { return []any{linear.Projection(w.u, w.u), linear.Projection(w.w, w.w)} })
	add("UnitVector(w)", func(w *World) []any { return []any{linear.UnitVector(w.w)} })
	// decompositions
	dec := func(name string, run func(w *World) []any) {
		ops = append(ops, PureOp{name: name, run: run, shared: true})
	}
	solve := func(w *World, s linear.DecompositionSolver) []any {
		return []any{s.IsNonSingular(), s.SolveVector(w.v), s.SolveMatrix(w.R), s.Inverse()}
	}
	dec("LU(N)", func(w *World) []any {
		d := must(linear.NewLUDecomposition(w.N))
		return append([]any{d.L(), d.U(), d.P(), d.Pivot(), d.Determinant()}, solve(w, d.Solver())...)
	})
	dec("Cholesky(S)", func(w *World) []any {
		d := must(linear.NewDefaultCholeskyDecomposition(w.S))
		return append([]any{d.L(), d.LT(), d.Determinant()}, solve(w, d.Solver())...)
	})
	dec("RectangularCholesky(S)", func(w *World) []any {
		d := must(linear.NewRectangularCholeskyDecomposition(w.S))
		return []any{d.RootMatrix(), d.Rank()}
	})
	dec("QR(A)", func(w *World) []any {
		d := must(linear.NewQRDecomposition(w.A))
		out := []any{d.Q(), d.QT(), d.R(), d.H(), d.Solver().IsNonSingular()}
		if w.r >= w.c && d.Solver().IsNonSingular() {
			out = append(out, solve(w, d.Solver())...)
		}
		return out
	})
	dec("QR(N)", func(w *World) []any {
		d := must(linear.NewQRDecomposition(w.N))
		return solve(w, d.Solver())
	})
	dec("RRQR(A)", func(w *World) []any {
		d := must(linear.NewRRQRDecomposition(w.A))
		out := []any{d.Q(), d.QT(), d.R(), d.H(), d.P(), d.Rank(1e-9), d.Solver().IsNonSingular()}
		if w.r >= w.c && d.Solver().IsNonSingular() {
			out = append(out, solve(w, d.Solver())...)
		}
		return out
	})
	dec("RRQR(N)", func(w *World) []any {
		d := must(linear.NewRRQRDecomposition(w.N))
		return solve(w, d.Solver())
	})
	dec("SVD(A)", func(w *World) []any {
		d := must(linear.NewSingularValueDecomposition(w.A))
		s := d.Solver()
		return []any{d.U(), d.UT(), d.S(), d.V(), d.VT(), d.SingularValues(), d.Norm(), d.ConditionNumber(), d.InverseConditionNumber(), d.Rank(), d.Covariance(0), s.IsNonSingular(), s.SolveVector(w.v), s.SolveMatrix(w.R), s.Inverse()}
	})
	dec("Eigen(S)", func(w *World) []any {
		d := must(linear.NewEigenDecomposition(w.S))
		return append([]any{d.V(), d.D(), d.VT(), d.RealEigenvalues(), d.ImagEigenvalues(), d.EigenvectorAt(0), d.RealEigenvalueAt(0), d.ImagEigenvalue(0), d.HasComplexEigenvalues(), d.Determinant(), d.SquareRoot()}, solve(w, d.Solver())...)
	})
	dec("Eigen(N)", func(w *World) []any {
		d := must(linear.NewEigenDecomposition(w.N))
		return []any{d.V(), d.D(), d.VT(), d.RealEigenvalues(), d.ImagEigenvalues(), d.EigenvectorAt(0), d.HasComplexEigenvalues(), d.Determinant()}
	})
	dec("EigenTridiagonal(us,us)", func(w *World) []any {
		if w.c < 2 {
			return nil
		}
		d := must(linear.NewEigenDecompositionFromTridiagonal(w.us, w.us[1:]))
		return []any{d.V(), d.D(), d.VT(), d.RealEigenvalues(), d.ImagEigenvalues(), d.EigenvectorAt(0)}
	})
	dec("Hessenberg(N)", func(w *World) []any {
		d := must(linear.NewHessenbergTransformer(w.N))
		return []any{d.P(), d.PT(), d.H()}
	})
	dec("Schur(N)", func(w *World) []any {
		d := must(linear.NewSchurTransformer(w.N))
		return []any{d.P(), d.PT(), d.T()}
	})
	dec("TriDiagonal(S)", func(w *World) []any {
		d := must(linear.NewTriDiagonalTransformer(w.S))
		return []any{d.Q(), d.QT(), d.T()}
	})
	dec("BiDiagonal(A)", func(w *World) []any {
		d := must(linear.NewBiDiagonalTransformer(w.A))
		return []any{d.U(), d.B(), d.V(), d.IsUpperBiDiagonal()}
	})
	// diagonal-only
	addIf("diagonal queries", func(w *World) bool { return w.k1 == KDiag }, func(w *World) []any {
		d := w.A.(*linear.DiagonalMatrix)
		return []any{d.Inverse(), d.InverseWithThreshold(1e-3), d.IsSingular(0.5)}
	})
	return ops
}

func denseOf(k Kind) Kind {
	if k == KDiag {
		return KArray
	}
	return k
}

type vecPr struct{ f func(i int, x float64) }

func (p vecPr) Start(d, s, e int)      {}
func (p vecPr) Visit(i int, x float64) { p.f(i, x) }
func (p vecPr) End() float64           { return 0 }

func (o *PureOp) applies(w *World) bool { return o.ok == nil || o.ok(w) }
