package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/jtejido/linear"
)

func init() {
	register("C25", "decomposition accessors",
		"every sequence of accessor, solve, result-modification and input-modification steps up to the stated length on every decomposition, reduction and solver, over inputs of each representation below and above the storage switch; oracle: bitwise the answer of a fresh object asked only once",
		checkC25)
}

// inst is one decomposition under exploration.
type inst struct {
	x    linear.RealMatrix // the input it was built from
	d    any
	s    linear.DecompositionSolver
	b    linear.RealMatrix
	v    linear.RealVector
	main []float64 // tridiagonal input
	sec  []float64
}

type decOp struct {
	name string
	// run returns what is observed; nil for pure disturbances
	run func(w *inst) []any
}

type decType struct {
	name  string
	input func(n int) *Mat
	build func(w *inst)
	ops   []decOp
}

func get[D any](f func(d D) []any) func(w *inst) []any {
	return func(w *inst) []any { return f(w.d.(D)) }
}

func spoil(s []float64) {
	for i := range s {
		s[i] = math.Pi * float64(i+3)
	}
}

// solverOps are the steps on the solver kept since construction, on a new
// solver, and on their results.
func solverOps(newSolver func(d any) linear.DecompositionSolver) []decOp {
	return []decOp{
		{"SolveVector", func(w *inst) []any { return []any{w.s.SolveVector(w.v)} }},
		{"SolveMatrix", func(w *inst) []any { return []any{w.s.SolveMatrix(w.b)} }},
		{"Inverse", func(w *inst) []any { return []any{w.s.Inverse()} }},
		{"IsNonSingular", func(w *inst) []any { return []any{w.s.IsNonSingular()} }},
		{"new solver", func(w *inst) []any {
			s := newSolver(w.d)
			return []any{s.IsNonSingular(), s.SolveVector(w.v), s.Inverse()}
		}},
		{"rejected solves", func(w *inst) []any { // C26 says how they are refused
			for _, n := range []int{w.v.Dimension() + 1, w.v.Dimension() - 1} {
				n := max(n, 1)
				tryDo(func() { w.s.SolveVector(mkv(VArray, intVec(n, 6))) })
				for _, k := range []Kind{KArray, KBlock} {
					tryDo(func() { w.s.SolveMatrix(mk(k, ints(n, 2, 6))) })
				}
			}
			return nil
		}},
		{"modify solutions", func(w *inst) []any {
			w.s.SolveVector(w.v).Set(math.Pi)
			m := w.s.SolveMatrix(w.b)
			for i := 0; i < m.RowDimension(); i++ {
				m.SetEntry(i, 0, math.E)
			}
			return nil
		}},
	}
}

var modifyInput = decOp{"modify input", func(w *inst) []any {
	if w.x != nil {
		for i := 0; i < w.x.RowDimension(); i++ {
			for j := 0; j < w.x.ColumnDimension(); j++ {
				if w.x.At(i, j) != 0 || i == j { // diagonal storage refuses the rest
					w.x.SetEntry(i, j, float64(100+7*i-3*j))
				}
			}
		}
	}
	spoil(w.main)
	spoil(w.sec)
	return nil
}}

func decTypes() []decType {
	var out []decType
	add := func(name string, input func(n int) *Mat, build func(w *inst), ops ...decOp) {
		out = append(out, decType{name, input, build, append(ops, modifyInput)})
	}
	op := func(name string, run func(w *inst) []any) decOp { return decOp{name, run} }
	tall := func(n int) *Mat { m := ints(n+1, n, 21); bump(m, 9); return m }
	wide := func(n int) *Mat { m := ints(n, n+1, 22); bump(m, 9); return m }
	// LU
	luOps := []decOp{
		op("L", get(func(d *linear.LUDecomposition) []any { return []any{d.L()} })),
		op("U", get(func(d *linear.LUDecomposition) []any { return []any{d.U()} })),
		op("P", get(func(d *linear.LUDecomposition) []any { return []any{d.P()} })),
		op("Pivot", get(func(d *linear.LUDecomposition) []any { return []any{d.Pivot()} })),
		op("Determinant", get(func(d *linear.LUDecomposition) []any { return []any{d.Determinant()} })),
		op("modify pivot", get(func(d *linear.LUDecomposition) []any {
			p := d.Pivot()
			for i := range p {
				p[i] = 0
			}
			return nil
		})),
	}
	luSolver := func(d any) linear.DecompositionSolver { return d.(*linear.LUDecomposition).Solver() }
	add("LU", nonsing, func(w *inst) {
		d := must(linear.NewLUDecomposition(w.x))
		w.d, w.s = d, d.Solver()
	}, append(luOps, solverOps(luSolver)...)...)
	add("LU singular", func(n int) *Mat { return constMat(n, n, 2) }, func(w *inst) { w.d = must(linear.NewLUDecomposition(w.x)) }, luOps...)
	// Cholesky
	add("Cholesky", spd, func(w *inst) {
		d := must(linear.NewDefaultCholeskyDecomposition(w.x))
		w.d, w.s = d, d.Solver()
	}, append([]decOp{
		op("L", get(func(d *linear.CholeskyDecomposition) []any { return []any{d.L()} })),
		op("LT", get(func(d *linear.CholeskyDecomposition) []any { return []any{d.LT()} })),
		op("Determinant", get(func(d *linear.CholeskyDecomposition) []any { return []any{d.Determinant()} })),
	}, solverOps(func(d any) linear.DecompositionSolver { return d.(*linear.CholeskyDecomposition).Solver() })...)...)
	add("RectangularCholesky", spd, func(w *inst) { w.d = must(linear.NewRectangularCholeskyDecomposition(w.x)) },
		op("RootMatrix", get(func(d *linear.RectangularCholeskyDecomposition) []any { return []any{d.RootMatrix()} })),
		op("Rank", get(func(d *linear.RectangularCholeskyDecomposition) []any { return []any{d.Rank()} })))
	// QR, rank-revealing QR
	for _, in := range []struct {
		n string
		f func(n int) *Mat
	}{{"square", nonsing}, {"tall", tall}, {"wide", wide}} {
		qrOps := []decOp{
			op("Q", get(func(d *linear.QRDecomposition) []any { return []any{d.Q()} })),
			op("QT", get(func(d *linear.QRDecomposition) []any { return []any{d.QT()} })),
			op("R", get(func(d *linear.QRDecomposition) []any { return []any{d.R()} })),
			op("H", get(func(d *linear.QRDecomposition) []any { return []any{d.H()} })),
		}
		rrOps := []decOp{
			op("Q", get(func(d *linear.RRQRDecomposition) []any { return []any{d.Q()} })),
			op("QT", get(func(d *linear.RRQRDecomposition) []any { return []any{d.QT()} })),
			op("R", get(func(d *linear.RRQRDecomposition) []any { return []any{d.R()} })),
			op("H", get(func(d *linear.RRQRDecomposition) []any { return []any{d.H()} })),
			op("P", get(func(d *linear.RRQRDecomposition) []any { return []any{d.P()} })),
			op("Rank", get(func(d *linear.RRQRDecomposition) []any { return []any{d.Rank(1e-9)} })),
		}
		add("QR "+in.n, in.f, func(w *inst) {
			d := must(linear.NewQRDecomposition(w.x))
			w.d, w.s = d, d.Solver()
		}, append(qrOps, solverOps(func(d any) linear.DecompositionSolver { return d.(*linear.QRDecomposition).Solver() })...)...)
		add("RRQR "+in.n, in.f, func(w *inst) {
			d := must(linear.NewRRQRDecomposition(w.x))
			w.d, w.s = d, d.Solver()
		}, append(rrOps, solverOps(func(d any) linear.DecompositionSolver { return d.(*linear.RRQRDecomposition).Solver() })...)...)
		// SVD
		add("SVD "+in.n, in.f, func(w *inst) {
			d := must(linear.NewSingularValueDecomposition(w.x))
			w.d, w.s = d, d.Solver()
		}, append([]decOp{
			op("U", get(func(d *linear.SingularValueDecomposition) []any { return []any{d.U()} })),
			op("UT", get(func(d *linear.SingularValueDecomposition) []any { return []any{d.UT()} })),
			op("S", get(func(d *linear.SingularValueDecomposition) []any { return []any{d.S()} })),
			op("V", get(func(d *linear.SingularValueDecomposition) []any { return []any{d.V()} })),
			op("VT", get(func(d *linear.SingularValueDecomposition) []any { return []any{d.VT()} })),
			op("SingularValues", get(func(d *linear.SingularValueDecomposition) []any { return []any{d.SingularValues()} })),
			op("Covariance", get(func(d *linear.SingularValueDecomposition) []any { return []any{d.Covariance(0)} })),
			op("Norm..Rank", get(func(d *linear.SingularValueDecomposition) []any {
				return []any{d.Norm(), d.ConditionNumber(), d.InverseConditionNumber(), d.Rank()}
			})),
			op("modify singular values", get(func(d *linear.SingularValueDecomposition) []any { spoil(d.SingularValues()); return nil })),
		}, solverOps(func(d any) linear.DecompositionSolver { return d.(*linear.SingularValueDecomposition).Solver() })...)...)
		add("BiDiagonal "+in.n, in.f, func(w *inst) { w.d = must(linear.NewBiDiagonalTransformer(w.x)) },
			op("U", get(func(d *linear.BiDiagonalTransformer) []any { return []any{d.U()} })),
			op("B", get(func(d *linear.BiDiagonalTransformer) []any { return []any{d.B()} })),
			op("V", get(func(d *linear.BiDiagonalTransformer) []any { return []any{d.V()} })),
			op("diagonals", get(func(d *linear.BiDiagonalTransformer) []any {
				return []any{d.MainDiagonalRef(), d.SecondaryDiagonalRef(), d.HouseholderVectorsRef(), d.IsUpperBiDiagonal()}
			})))
	}
	// eigen
	eigOps := []decOp{
		op("V", get(func(d *linear.EigenDecomposition) []any { return []any{d.V()} })),
		op("D", get(func(d *linear.EigenDecomposition) []any { return []any{d.D()} })),
		op("VT", get(func(d *linear.EigenDecomposition) []any { return []any{d.VT()} })),
		op("eigenvalues", get(func(d *linear.EigenDecomposition) []any {
			return []any{d.RealEigenvalues(), d.ImagEigenvalues(), d.RealEigenvalueAt(0), d.ImagEigenvalue(0), d.HasComplexEigenvalues()}
		})),
		op("EigenvectorAt", get(func(d *linear.EigenDecomposition) []any { return []any{d.EigenvectorAt(0)} })),
		op("Determinant", get(func(d *linear.EigenDecomposition) []any { return []any{d.Determinant()} })),
		op("modify eigenvalues", get(func(d *linear.EigenDecomposition) []any {
			spoil(d.RealEigenvalues())
			spoil(d.ImagEigenvalues())
			d.EigenvectorAt(0).Set(5)
			return nil
		})),
	}
	root := op("SquareRoot", get(func(d *linear.EigenDecomposition) []any { return []any{d.SquareRoot()} }))
	eigSolver := func(d any) linear.DecompositionSolver { return d.(*linear.EigenDecomposition).Solver() }
	add("Eigen symmetric", spd, func(w *inst) {
		d := must(linear.NewEigenDecomposition(w.x))
		w.d, w.s = d, d.Solver()
	}, append(append(eigOps[:len(eigOps):len(eigOps)], root), solverOps(eigSolver)...)...)
	add("Eigen general", nonsing, func(w *inst) { w.d = must(linear.NewEigenDecomposition(w.x)) }, eigOps...)
	add("Eigen complex", cyclic, func(w *inst) { w.d = must(linear.NewEigenDecomposition(w.x)) }, eigOps...)
	add("Eigen tridiagonal", nil, func(w *inst) {
		w.d = must(linear.NewEigenDecompositionFromTridiagonal(w.main, w.sec))
	}, eigOps...)
	// reductions
	add("Schur", nonsing, func(w *inst) { w.d = must(linear.NewSchurTransformer(w.x)) },
		op("P", get(func(d *linear.SchurTransformer) []any { return []any{d.P()} })),
		op("PT", get(func(d *linear.SchurTransformer) []any { return []any{d.PT()} })),
		op("T", get(func(d *linear.SchurTransformer) []any { return []any{d.T()} })))
	add("Hessenberg", nonsing, func(w *inst) { w.d = must(linear.NewHessenbergTransformer(w.x)) },
		op("P", get(func(d *linear.HessenbergTransformer) []any { return []any{d.P()} })),
		op("PT", get(func(d *linear.HessenbergTransformer) []any { return []any{d.PT()} })),
		op("H", get(func(d *linear.HessenbergTransformer) []any { return []any{d.H()} })),
		op("HouseholderVectorsRef", get(func(d *linear.HessenbergTransformer) []any { return []any{d.HouseholderVectorsRef()} })))
	add("TriDiagonal", spd, func(w *inst) { w.d = must(linear.NewTriDiagonalTransformer(w.x)) },
		op("Q", get(func(d *linear.TriDiagonalTransformer) []any { return []any{d.Q()} })),
		op("QT", get(func(d *linear.TriDiagonalTransformer) []any { return []any{d.QT()} })),
		op("T", get(func(d *linear.TriDiagonalTransformer) []any { return []any{d.T()} })),
		op("diagonals", get(func(d *linear.TriDiagonalTransformer) []any {
			return []any{d.MainDiagonalRef(), d.SecondaryDiagonalRef(), d.HouseholderVectorsRef()}
		})))
	return out
}

func bump(m *Mat, v float64) {
	for i := 0; i < min(m.r, m.c); i++ {
		m.set(i, i, m.at(i, i)+v*float64(min(m.r, m.c)))
	}
}

func checkC25(r *Run) {
	type size struct{ n, depth, kinds int }
	sizes := []size{{1, 3, 1}, {2, 3, 1}, {3, 3, 4}, {4, 2, 1}, {53, 2, 1}, {65, 2, 2}}
	if r.thorough {
		sizes = []size{{1, 4, 1}, {2, 4, 1}, {3, 4, 4}, {4, 4, 1}, {7, 3, 4}, {52, 2, 4}, {53, 3, 1}, {64, 2, 2}, {65, 2, 4}, {105, 2, 1}}
	}
	kinds := []Kind{KArray, KBlock, KForeign, KShared}
	for _, dt := range decTypes() {
		for _, sz := range sizes {
			for _, k := range append(kinds[:sz.kinds:sz.kinds], KDiag) {
				if k == KDiag && sz.n != 3 || dt.input == nil && k != KArray {
					continue
				}
				in := dt.input
				if k == KDiag {
					if strings.Contains(dt.name, "tall") || strings.Contains(dt.name, "wide") || strings.Contains(dt.name, "singular") || strings.Contains(dt.name, "complex") {
						continue
					}
					in = func(n int) *Mat { return diagMat([]float64{3, 5, 2}) }
				}
				fresh := func() *inst {
					w := &inst{}
					if in != nil {
						m := in(sz.n)
						w.x = mk(k, m)
						w.b = mk(KBlock, ints(m.r, 3, 5))
						w.v = mkv(VArray, intVec(m.r, 6))
					} else {
						w.main, w.sec = intVec(sz.n, 3), make([]float64, sz.n-1)
						for i := range w.sec {
							w.sec[i] = float64(i%3 + 1)
						}
					}
					dt.build(w)
					return w
				}
				for first := range dt.ops {
					r.Group(fmt.Sprintf("%s/%v/%d/%s", dt.name, k, sz.n, dt.ops[first].name), func(t *T) {
						ref := make([][][]float64, len(dt.ops))
						t.Do(func() string { return "each step alone" }, func() {
							for i, o := range dt.ops {
								if obs := o.run(fresh()); obs != nil {
									ref[i] = flatAll(obs)
								}
							}
						})
						seq := make([]int, 0, sz.depth)
						name := func() string {
							var s []string
							for _, i := range seq {
								s = append(s, dt.ops[i].name)
							}
							return strings.Join(s, "; ")
						}
						var explore func()
						explore = func() {
							// only maximal sequences need to be run: every prefix is observed on the way
							if len(seq) == sz.depth {
								t.State(fmt.Sprint(seq))
								t.Do(name, func() {
									w := fresh()
									for p, i := range seq {
										obs := dt.ops[i].run(w)
										t.Op(1)
										if obs == nil {
											continue
										}
										if d := diffFlat(flatAll(obs), ref[i]); d >= 0 {
											t.Failf("step %d (%s) reports something else (result %d) than on a fresh object", p, dt.ops[i].name, d)
										}
									}
								})
								return
							}
							for i := range dt.ops {
								if t.Stopped() {
									return
								}
								seq = append(seq, i)
								explore()
								seq = seq[:len(seq)-1]
							}
						}
						seq = append(seq, first)
						explore()
					})
				}
			}
		}
	}
}
