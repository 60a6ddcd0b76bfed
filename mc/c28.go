package main

import (
	"fmt"
	"math"

	"github.com/jtejido/linear"
)

func init() {
	register("C28", "constructors",
		"every constructor for every size of a complete size range on both sides of the storage threshold, with labelled and special contents, plus every malformed input of the rejection catalogue; a case is distinct by constructor, size and contents",
		checkC28)
}

// sizeOf reads dimensions through the interface and requires coherent queries.
func (t *T) built(what string, x linear.RealMatrix, err error, want *Mat) {
	t.Op(1)
	if err != nil {
		t.Failf("%s: rejected: %v", what, err)
	}
	t.expectMat(what, x, want)
	t.Check(linear.IsSquare(x) == (want.r == want.c), "%s: IsSquare is %v", what, linear.IsSquare(x))
}

func (t *T) builtVec(what string, x linear.RealVector, err error, want []float64) {
	t.Op(1)
	if err != nil {
		t.Failf("%s: rejected: %v", what, err)
	}
	t.expectVec(what, x, want)
}

// shapesAll gives every shape up to n x n plus long shapes around the threshold.
func ctorShapes(thorough bool) map[string][][2]int {
	out := map[string][][2]int{}
	top := 110
	if thorough {
		top = 260
	}
	for r := 1; r <= top; r++ {
		for c := 1; c <= top; c++ {
			k := fmt.Sprintf("height %d", r)
			out[k] = append(out[k], [2]int{r, c})
		}
	}
	var long [][2]int
	for _, a := range []int{1, 2, 3, 7, 13, 31, 51, 52, 53} {
		for _, d := range []int{-1, 0, 1, 2} {
			b := 4096/a + d
			long = append(long, [2]int{a, b}, [2]int{b, a})
		}
	}
	for _, a := range []int{103, 104, 105, 155, 156, 157} {
		for _, b := range []int{1, 2, 39, 40, 51, 52, 53, 103, 104, 105} {
			long = append(long, [2]int{a, b}, [2]int{b, a})
		}
	}
	for i, s := range long {
		k := fmt.Sprintf("long %d", i%16)
		out[k] = append(out[k], s)
	}
	return out
}

// zeroValue: a row matrix that was declared but not constructed is empty until
// its first table is set, which rejected tables do not do.
func zeroValue(t *T) {
	type bad struct {
		name     string
		rows     [][]float64
		row, col int
	}
	bads := []bad{{"nil", nil, 0, 0}, {"no rows", [][]float64{}, 0, 0}, {"no columns", [][]float64{{}}, 0, 0},
		{"long second row", [][]float64{{1, 2}, {3, 4, 5}}, 0, 0}, {"short second row", [][]float64{{1, 2}, {3}}, 0, 0},
		{"nil third row", [][]float64{{1}, {2}, nil}, 0, 0},
		{"at row 1", [][]float64{{1}}, 1, 0}, {"at column 1", [][]float64{{1}}, 0, 1},
		{"at row -1", [][]float64{{1, 2}, {3, 4}}, -1, 0}, {"at column -1", [][]float64{{1, 2}, {3, 4}}, 0, -1}}
	empty := func(x *linear.Array2DRowRealMatrix) {
		t.Check(x.RowDimension() == 0 && x.ColumnDimension() == 0, "dimensions %dx%d of an empty matrix", x.RowDimension(), x.ColumnDimension())
		rej := tryDo(func() { x.At(0, 0) })
		t.Op(1)
		t.Check(rej != nil && rej.Typed, "entry (0,0) of an empty matrix: %v", rej)
	}
	// every sequence of up to two rejected tables, then a good one
	for i := -1; i < len(bads); i++ {
		for j := -1; j < len(bads); j++ {
			for _, s := range [][2]int{{1, 1}, {2, 3}, {3, 2}, {53, 54}} {
				t.State(fmt.Sprint(i, j, s))
				t.Do(func() string { return fmt.Sprintf("declared matrix: tables %d, %d, then %dx%d", i, j, s[0], s[1]) }, func() {
					x := new(linear.Array2DRowRealMatrix)
					empty(x)
					for _, q := range []int{i, j} {
						if q < 0 {
							continue
						}
						b := bads[q]
						rej := tryDo(func() { x.SetSubMatrix(b.rows, b.row, b.col) })
						t.Op(1)
						t.Check(rej != nil && rej.Typed, "table (%s): %v", b.name, rej)
						empty(x)
					}
					m := label(s[0], s[1], 3)
					a := m.rows()
					x.SetSubMatrix(a, 0, 0)
					t.Op(1)
					t.expectMat("declared matrix", x, m)
					a[0][0] = -1
					t.expectMat("declared matrix after a change of the table", x, m)
					x.SetSubMatrix([][]float64{{9}}, s[0]-1, s[1]-1)
					m.set(s[0]-1, s[1]-1, 9)
					t.expectMat("declared matrix after an update", x, m)
				})
			}
		}
	}
}

func checkC28(r *Run) {
	r.Group("declared matrix", zeroValue)
	shapes := ctorShapes(r.thorough)
	keys := []string{}
	for k := range shapes {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		list := shapes[k]
		r.Group("matrix/"+k, func(t *T) {
			for _, s := range list {
				t.State(fmt.Sprint(s))
				t.Do(func() string { return fmt.Sprintf("%dx%d", s[0], s[1]) }, func() { t.shapeCtors(s[0], s[1]) })
			}
		})
	}
	top := 160
	if r.thorough {
		top = 400
	}
	for n := 1; n <= top; n++ {
		r.Group(fmt.Sprintf("order/%d", n), func(t *T) {
			t.State(fmt.Sprint("order", n))
			t.Do(func() string { return fmt.Sprint("order ", n) }, func() { t.squareCtors(n) })
		})
	}
	r.Group("values", func(t *T) { // contents are taken over bit by bit
		for _, s := range [][2]int{{1, 1}, {2, 3}, {8, 8}, {64, 64}, {64, 65}, {53, 105}} {
			for off := range specials {
				m := special(s[0], s[1], off)
				t.Do(func() string { return fmt.Sprintf("special %v %d", s, off) }, func() {
					x, err := linear.NewRealMatrixFromSlices(m.rows())
					t.built("NewRealMatrixFromSlices", x, err, m)
					a, err := linear.NewArray2DRowRealMatrixFromSlices(m.rows(), false)
					t.built("NewArray2DRowRealMatrixFromSlices", a, err, m)
					b, err := linear.NewBlockRealMatrixFromSlices(m.rows())
					t.built("NewBlockRealMatrixFromSlices", b, err, m)
					b, err = linear.NewBlockRealMatrixFromBlockData(m.r, m.c, blockLayout(m))
					t.built("NewBlockRealMatrixFromBlockData", b, err, m)
					c, err := linear.NewArray2DRowRealMatrixFromSlice(m.col(0))
					t.built("NewArray2DRowRealMatrixFromSlice", c, err, m.sub(0, m.r-1, 0, 0))
					w := diagMat(m.row(0))
					d, err := linear.NewRealMatrixWithDiagonal(m.row(0))
					t.built("NewRealMatrixWithDiagonal", d, err, w)
					d, err = linear.NewRealDiagonalMatrix(m.row(0))
					t.built("NewRealDiagonalMatrix", d, err, w)
					for _, p := range specials {
						v, err := linear.NewSizedArrayRealVectorWithPreset(5, p)
						t.builtVec("preset", v, err, []float64{p, p, p, p, p})
					}
				})
			}
		}
	})
	vtop := 80
	if r.thorough {
		vtop = 600
	}
	r.Group("vectors", func(t *T) {
		for n := 0; n <= vtop; n++ {
			t.State(fmt.Sprint("vector", n))
			t.Do(func() string { return fmt.Sprint("vector ", n) }, func() { t.vecCtors(n) })
		}
	})
	r.Group("concatenation", func(t *T) {
		for n := 0; n <= 12; n++ {
			for m := 0; m <= 12; m++ {
				t.State(fmt.Sprint("concat", n, m))
				t.Do(func() string { return fmt.Sprintf("concatenation %d+%d", n, m) }, func() {
					a, b := labelVec(n, 1), labelVec(m, 100)
					want := append(append([]float64{}, a...), b...)
					x, y := mkv(VArray, a).(*linear.ArrayRealVector), mkv(VArray, b).(*linear.ArrayRealVector)
					v, err := linear.NewArrayRealVectorFromTwoArrayRealVector(x, y)
					t.builtVec("FromTwoArrayRealVector", v, err, want)
					for i := 0; i < v.Dimension(); i++ {
						v.SetEntry(i, -7)
					}
					t.expectVec("first part after editing the concatenation", x, a)
					t.expectVec("second part after editing the concatenation", y, b)
					for _, k1 := range allVKinds {
						for _, k2 := range allVKinds {
							x, y := mkv(k1, a), mkv(k2, b)
							v, err := linear.NewArrayRealVectorFromTwoRealVector(x, y)
							t.builtVec(fmt.Sprintf("FromTwoRealVector(%v,%v)", k1, k2), v, err, want)
							for i := 0; i < v.Dimension(); i++ {
								v.SetEntry(i, -7)
							}
							t.expectVec("first part after editing the concatenation", x, a)
							t.expectVec("second part after editing the concatenation", y, b)
						}
					}
				})
			}
		}
	})
	r.Group("malformed", func(t *T) {
		for _, c := range badCtors(r.thorough) {
			t.State(c.name)
			t.Do(func() string { return c.name }, func() {
				t.Op(1)
				ok := false
				rej := try(func() (err error) { ok, err = c.run(); return })
				t.Check(rej != nil, "malformed input accepted (usable object: %v)", ok)
				t.Check(rej.Typed, "rejected without the library's error type: %v", rej)
			})
		}
	})
}

func (t *T) shapeCtors(r, c int) {
	zero := newMat(r, c)
	x, err := linear.NewRealMatrixWithDimension(r, c)
	t.built("NewRealMatrixWithDimension", x, err, zero)
	a, err := linear.NewArray2DRowRealMatrix(r, c)
	t.built("NewArray2DRowRealMatrix", a, err, zero)
	b, err := linear.NewBlockRealMatrix(r, c)
	t.built("NewBlockRealMatrix", b, err, zero)
	m := label(r, c, 1)
	tbl := m.rows()
	x, err = linear.NewRealMatrixFromSlices(tbl)
	t.built("NewRealMatrixFromSlices", x, err, m)
	a, err = linear.NewArray2DRowRealMatrixFromSlices(tbl, true)
	t.built("NewArray2DRowRealMatrixFromSlices copying", a, err, m)
	b, err = linear.NewBlockRealMatrixFromSlices(tbl)
	t.built("NewBlockRealMatrixFromSlices", b, err, m)
	bd, err := linear.NewBlockRealMatrixFromBlockData(r, c, blockLayout(m))
	t.built("NewBlockRealMatrixFromBlockData", bd, err, m)
	t.expectRows("input table", tbl, m)
	sh, err := linear.NewArray2DRowRealMatrixFromSlices(tbl, false)
	t.built("NewArray2DRowRealMatrixFromSlices sharing", sh, err, m)
	// copies stay as built when the table changes; the sharing matrix follows it
	for i := range tbl {
		for j := range tbl[i] {
			tbl[i][j] = -1
		}
	}
	t.expectMat("NewRealMatrixFromSlices after editing the table", x, m)
	t.expectMat("NewArray2DRowRealMatrixFromSlices after editing the table", a, m)
	t.expectMat("NewBlockRealMatrixFromSlices after editing the table", b, m)
	t.expectMat("sharing matrix after editing the table", sh, constMat(r, c, -1))
	// what was built takes writes at its corners only
	x.SetEntry(r-1, c-1, -5)
	x.SetEntry(0, 0, -6)
	w := m.clone()
	w.set(r-1, c-1, -5)
	w.set(0, 0, -6)
	t.expectMat("NewRealMatrixFromSlices after writes", x, w)
	b.SetEntry(r-1, c-1, -5)
	b.SetEntry(0, 0, -6)
	t.expectMat("NewBlockRealMatrixFromSlices after writes", b, w)
}

func (t *T) squareCtors(n int) {
	x, err := linear.NewRealIdentityMatrix(n)
	t.built("NewRealIdentityMatrix", x, err, eye(n))
	d := labelVec(n, 3)
	d[n/2] = math.Inf(1)
	src := append([]float64(nil), d...)
	want := diagMat(d)
	x, err = linear.NewRealMatrixWithDiagonal(src)
	t.built("NewRealMatrixWithDiagonal", x, err, want)
	y, err := linear.NewRealDiagonalMatrix(src)
	t.built("NewRealDiagonalMatrix", y, err, want)
	z, err := linear.NewDiagonalMatrixFromSlice(src)
	t.built("NewDiagonalMatrixFromSlice", z, err, want)
	a, err := linear.NewDiagonalMatrix(src, true)
	t.built("NewDiagonalMatrix copying", a, err, want)
	e, err := linear.NewDiagonalMatrixWithDimension(n)
	t.built("NewDiagonalMatrixWithDimension", e, err, newMat(n, n))
	c, err := linear.NewArray2DRowRealMatrixFromSlice(src)
	t.built("NewArray2DRowRealMatrixFromSlice", c, err, &Mat{n, 1, d})
	sh, err := linear.NewDiagonalMatrix(src, false)
	t.built("NewDiagonalMatrix sharing", sh, err, want)
	for i := range src {
		src[i] = -1
	}
	t.expectMat("NewRealMatrixWithDiagonal after editing the slice", x, want)
	t.expectMat("NewRealDiagonalMatrix after editing the slice", y, want)
	t.expectMat("NewDiagonalMatrixFromSlice after editing the slice", z, want)
	t.expectMat("NewDiagonalMatrix copying after editing the slice", a, want)
	t.expectMat("NewArray2DRowRealMatrixFromSlice after editing the slice", c, &Mat{n, 1, d})
	t.expectMat("sharing diagonal after editing the slice", sh, diagMat(src))
	e.SetEntry(n-1, n-1, 4)
	w := newMat(n, n)
	w.set(n-1, n-1, 4)
	t.expectMat("NewDiagonalMatrixWithDimension after a write", e, w)
}

func (t *T) vecCtors(n int) {
	v, err := linear.NewSizedArrayRealVector(n)
	t.builtVec("NewSizedArrayRealVector", v, err, make([]float64, n))
	for _, p := range []float64{0, 1.5, math.NaN()} {
		want := make([]float64, n)
		for i := range want {
			want[i] = p
		}
		v, err := linear.NewSizedArrayRealVectorWithPreset(n, p)
		t.builtVec("NewSizedArrayRealVectorWithPreset", v, err, want)
	}
	want := labelVec(n, 1)
	src := append([]float64{}, want...)
	a, err := linear.NewArrayRealVectorFromSlice(src)
	t.builtVec("NewArrayRealVectorFromSlice", a, err, want)
	b, err := linear.NewArrayRealVector(src, true)
	t.builtVec("NewArrayRealVector copying", b, err, want)
	c, err := linear.NewRealVector(src)
	t.builtVec("NewRealVector", c, err, want)
	s, err := linear.NewArrayRealVector(src, false)
	t.builtVec("NewArrayRealVector sharing", s, err, want)
	for _, k := range allVKinds {
		o := mkv(k, want)
		d, err := linear.NewArrayRealVectorCopy(o)
		t.builtVec("NewArrayRealVectorCopy", d, err, want)
		for i := 0; i < n; i++ {
			d.SetEntry(i, -3)
		}
		t.expectVec("original after editing the copy", o, want)
	}
	for i := range src {
		src[i] = -1
	}
	t.expectVec("NewArrayRealVectorFromSlice after editing the slice", a, want)
	t.expectVec("NewArrayRealVector copying after editing the slice", b, want)
	t.expectVec("NewRealVector after editing the slice", c, want)
	t.expectVec("sharing vector after editing the slice", s, src)
}
