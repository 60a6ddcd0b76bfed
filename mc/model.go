package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/jtejido/linear"
)

// ---------------------------------------------------------------- reference model

// Mat is the reference model of a matrix: a plain table.
type Mat struct {
	r, c int
	a    []float64
}

func newMat(r, c int) *Mat { return &Mat{r, c, make([]float64, r*c)} }

func (m *Mat) at(i, j int) float64     { return m.a[i*m.c+j] }
func (m *Mat) set(i, j int, v float64) { m.a[i*m.c+j] = v }
func (m *Mat) clone() *Mat             { return &Mat{m.r, m.c, append([]float64(nil), m.a...)} }
func (m *Mat) rows() [][]float64 {
	out := make([][]float64, m.r)
	for i := range out {
		out[i] = append([]float64(nil), m.a[i*m.c:(i+1)*m.c]...)
	}
	return out
}
func (m *Mat) row(i int) []float64 { return append([]float64(nil), m.a[i*m.c:(i+1)*m.c]...) }
func (m *Mat) col(j int) []float64 {
	out := make([]float64, m.r)
	for i := range out {
		out[i] = m.at(i, j)
	}
	return out
}
func (m *Mat) sub(r0, r1, c0, c1 int) *Mat {
	o := newMat(r1-r0+1, c1-c0+1)
	for i := 0; i < o.r; i++ {
		for j := 0; j < o.c; j++ {
			o.set(i, j, m.at(r0+i, c0+j))
		}
	}
	return o
}
func (m *Mat) T() *Mat {
	o := newMat(m.c, m.r)
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			o.set(j, i, m.at(i, j))
		}
	}
	return o
}
func (m *Mat) mul(b *Mat) *Mat {
	o := newMat(m.r, b.c)
	finite := true
	for _, v := range b.a {
		finite = finite && v-v == 0
	}
	for i := 0; i < m.r; i++ {
		for k := 0; k < m.c; k++ {
			v := m.at(i, k)
			if v == 0 && finite {
				continue
			}
			br := b.a[k*b.c : (k+1)*b.c]
			or := o.a[i*o.c : (i+1)*o.c]
			for j := range br {
				or[j] += v * br[j]
			}
		}
	}
	return o
}
func (m *Mat) mapf(f func(float64) float64) *Mat {
	o := m.clone()
	for i := range o.a {
		o.a[i] = f(o.a[i])
	}
	return o
}
func (m *Mat) zip(b *Mat, f func(x, y float64) float64) *Mat {
	o := m.clone()
	for i := range o.a {
		o.a[i] = f(o.a[i], b.a[i])
	}
	return o
}
func (m *Mat) mulVec(v []float64) []float64 {
	out := make([]float64, m.r)
	for i := range out {
		s := 0.0
		for j := 0; j < m.c; j++ {
			s += m.at(i, j) * v[j]
		}
		out[i] = s
	}
	return out
}
func (m *Mat) preVec(v []float64) []float64 {
	out := make([]float64, m.c)
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			out[j] += m.at(i, j) * v[i]
		}
	}
	return out
}
func (m *Mat) maxAbs() float64 {
	x := 0.0
	for _, v := range m.a {
		x = math.Max(x, math.Abs(v))
	}
	return x
}
func (m *Mat) frob() float64 {
	mx := m.maxAbs()
	if mx == 0 || math.IsInf(mx, 0) || math.IsNaN(mx) {
		return mx
	}
	s := 0.0
	for _, v := range m.a {
		s += (v / mx) * (v / mx)
	}
	return mx * math.Sqrt(s)
}
func (m *Mat) isDiag() bool {
	if m.r != m.c {
		return false
	}
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			if i != j && m.at(i, j) != 0 {
				return false
			}
		}
	}
	return true
}
func (m *Mat) diag() []float64 {
	n := min(m.r, m.c)
	d := make([]float64, n)
	for i := range d {
		d[i] = m.at(i, i)
	}
	return d
}
func (m *Mat) String() string {
	if m.r*m.c > 64 {
		return fmt.Sprintf("%dx%d", m.r, m.c)
	}
	var sb strings.Builder
	sb.WriteByte('[')
	for i := 0; i < m.r; i++ {
		if i > 0 {
			sb.WriteByte(';')
		}
		for j := 0; j < m.c; j++ {
			if j > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(&sb, "%v", m.at(i, j))
		}
	}
	sb.WriteByte(']')
	return sb.String()
}

func eye(n int) *Mat {
	m := newMat(n, n)
	for i := 0; i < n; i++ {
		m.set(i, i, 1)
	}
	return m
}
func diagMat(d []float64) *Mat {
	m := newMat(len(d), len(d))
	for i, v := range d {
		m.set(i, i, v)
	}
	return m
}
func fromRows(a [][]float64) *Mat {
	m := newMat(len(a), len(a[0]))
	for i := range a {
		copy(m.a[i*m.c:(i+1)*m.c], a[i])
	}
	return m
}

// same is bit equality (all NaNs are equal).
func same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

// eq is numerical equality (NaN equals NaN, -0 equals 0).
func eq(a, b float64) bool { return a == b || (a != a && b != b) }

func sameSlice(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}
func eqSlice(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- implementation objects

// Kind is a matrix representation of the implementation.
type Kind int

const (
	KArray Kind = iota
	KShared
	KBlock
	KDiag
	KForeign
)

func (k Kind) String() string { return [...]string{"array", "shared", "block", "diag", "foreign"}[k] }

// foreignMat is a caller-supplied implementation: it is none of the library's
// concrete types, so every type-switched fast path must take its general branch.
type foreignMat struct{ linear.RealMatrix }

func (f *foreignMat) Copy() linear.RealMatrix { return &foreignMat{f.RealMatrix.Copy()} }

// foreignVec is a caller-supplied vector implementation.
type foreignVec struct{ linear.RealVector }

func (f *foreignVec) Copy() linear.RealVector { return &foreignVec{f.RealVector.Copy()} }

func must[T any](v T, err error) T {
	if err != nil {
		panic(failPanic{"constructor rejected valid input: " + err.Error()})
	}
	return v
}

// mk builds an implementation matrix of the given kind with the model's contents.
func mk(k Kind, m *Mat) linear.RealMatrix {
	switch k {
	case KArray:
		return must(linear.NewArray2DRowRealMatrixFromSlices(m.rows(), true))
	case KShared: // rows cut out of one backing array, not copied
		back := append([]float64(nil), m.a...)
		rows := make([][]float64, m.r)
		for i := range rows {
			rows[i] = back[i*m.c : (i+1)*m.c]
		}
		return must(linear.NewArray2DRowRealMatrixFromSlices(rows, false))
	case KBlock:
		return must(linear.NewBlockRealMatrixFromSlices(m.rows()))
	case KDiag:
		return must(linear.NewDiagonalMatrix(m.diag(), true))
	case KForeign:
		return &foreignMat{must(linear.NewArray2DRowRealMatrixFromSlices(m.rows(), true))}
	}
	panic("kind")
}

// fits tells whether the kind can hold the contents.
func fits(k Kind, m *Mat) bool { return k != KDiag || m.isDiag() }

var allKinds = []Kind{KArray, KShared, KBlock, KDiag, KForeign}
var denseKinds = []Kind{KArray, KShared, KBlock, KForeign}

// VKind is a vector representation.
type VKind int

const (
	VArray VKind = iota
	VForeign
)

func (k VKind) String() string { return [...]string{"arrayvec", "foreignvec"}[k] }

var allVKinds = []VKind{VArray, VForeign}

func mkv(k VKind, v []float64) linear.RealVector {
	a := must(linear.NewArrayRealVector(append([]float64{}, v...), true))
	if k == VForeign {
		return &foreignVec{a}
	}
	return a
}

// rd reads an implementation matrix entry by entry.
func rd(m linear.RealMatrix) *Mat {
	o := newMat(m.RowDimension(), m.ColumnDimension())
	for i := 0; i < o.r; i++ {
		for j := 0; j < o.c; j++ {
			o.a[i*o.c+j] = m.At(i, j)
		}
	}
	return o
}

func rdv(v linear.RealVector) []float64 {
	o := make([]float64, v.Dimension())
	for i := range o {
		o[i] = v.At(i)
	}
	return o
}

// expectMat fails unless got has exactly the contents of want (bitwise).
func (t *T) expectMat(what string, got linear.RealMatrix, want *Mat) {
	if got == nil {
		t.Failf("%s: nil matrix, want %v", what, want)
	}
	if got.RowDimension() != want.r || got.ColumnDimension() != want.c {
		t.Failf("%s: dimensions %dx%d, want %dx%d", what, got.RowDimension(), got.ColumnDimension(), want.r, want.c)
	}
	for i := 0; i < want.r; i++ {
		for j := 0; j < want.c; j++ {
			if g := got.At(i, j); !same(g, want.at(i, j)) {
				t.Failf("%s: entry (%d,%d) is %v, want %v", what, i, j, g, want.at(i, j))
			}
		}
	}
}

// expectMatEq is expectMat up to the sign of zero.
func (t *T) expectMatEq(what string, got linear.RealMatrix, want *Mat) {
	if got == nil {
		t.Failf("%s: nil matrix, want %v", what, want)
	}
	if got.RowDimension() != want.r || got.ColumnDimension() != want.c {
		t.Failf("%s: dimensions %dx%d, want %dx%d", what, got.RowDimension(), got.ColumnDimension(), want.r, want.c)
	}
	for i := 0; i < want.r; i++ {
		for j := 0; j < want.c; j++ {
			if g := got.At(i, j); !eq(g, want.at(i, j)) {
				t.Failf("%s: entry (%d,%d) is %v, want %v", what, i, j, g, want.at(i, j))
			}
		}
	}
}

func (t *T) expectRows(what string, got [][]float64, want *Mat) {
	if len(got) != want.r {
		t.Failf("%s: %d rows, want %d", what, len(got), want.r)
	}
	for i := range got {
		if !sameSlice(got[i], want.a[i*want.c:(i+1)*want.c]) {
			t.Failf("%s: row %d is %v, want %v", what, i, short(got[i]), short(want.row(i)))
		}
	}
}

func (t *T) expectSlice(what string, got, want []float64) {
	if !sameSlice(got, want) {
		t.Failf("%s: got %v, want %v%s", what, short(got), short(want), firstDiff(got, want))
	}
}

func (t *T) expectSliceEq(what string, got, want []float64) {
	if !eqSlice(got, want) {
		t.Failf("%s: got %v, want %v%s", what, short(got), short(want), firstDiff(got, want))
	}
}

func firstDiff(a, b []float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf(" (lengths %d and %d)", len(a), len(b))
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return fmt.Sprintf(" (first at %d: %v, want %v)", i, a[i], b[i])
		}
	}
	return ""
}

func short(v []float64) string {
	if len(v) <= 12 {
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("%v...(%d)", v[:12], len(v))
}

func (t *T) expectVec(what string, got linear.RealVector, want []float64) {
	if got == nil {
		t.Failf("%s: nil vector", what)
	}
	if got.Dimension() != len(want) {
		t.Failf("%s: length %d, want %d", what, got.Dimension(), len(want))
	}
	t.expectSlice(what, rdv(got), want)
}

func (t *T) expectVecEq(what string, got linear.RealVector, want []float64) {
	if got == nil {
		t.Failf("%s: nil vector", what)
	}
	if got.Dimension() != len(want) {
		t.Failf("%s: length %d, want %d", what, got.Dimension(), len(want))
	}
	t.expectSliceEq(what, rdv(got), want)
}

// ---------------------------------------------------------------- rejections

// Rej describes how a call was rejected.
type Rej struct {
	Panic  bool
	Typed  bool // carries the library's error type
	Status int
	Msg    string
	err    any
}

func (r *Rej) String() string {
	if r == nil {
		return "accepted"
	}
	how := "error"
	if r.Panic {
		how = "panic"
	}
	return fmt.Sprintf("%s (typed=%v status=%d): %s", how, r.Typed, r.Status, r.Msg)
}

func rejOf(e any, pan bool) *Rej {
	r := &Rej{Panic: pan, err: e}
	if le, ok := e.(linear.LinearMathError); ok {
		r.Typed = true
		r.Status = le.Status()
	}
	if er, ok := e.(error); ok {
		func() {
			defer func() {
				if recover() != nil {
					r.Msg = ""
				}
			}()
			r.Msg = er.Error()
		}()
	} else {
		r.Msg = fmt.Sprint(e)
	}
	return r
}

// try runs f and reports how it was rejected, or nil.
func try(f func() error) (rej *Rej) {
	defer func() {
		if e := recover(); e != nil {
			if fp, ok := e.(failPanic); ok {
				panic(fp)
			}
			rej = rejOf(e, true)
		}
	}()
	if err := f(); err != nil {
		return rejOf(err, false)
	}
	return nil
}

// tryDo is try for functions without error result.
func tryDo(f func()) *Rej { return try(func() error { f(); return nil }) }

// ---------------------------------------------------------------- content patterns

// label gives a matrix of distinct small integers (every cell distinguishable).
func label(r, c int, base float64) *Mat {
	m := newMat(r, c)
	for i := range m.a {
		m.a[i] = base + float64(i)
	}
	return m
}

// ints gives small pseudo-irregular integers in [-5,5] (exact products and sums).
func ints(r, c, salt int) *Mat {
	m := newMat(r, c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			h := uint32(i*7919+j*104729+salt*15485863) * 2654435761
			h ^= h >> 15
			m.set(i, j, float64(int(h%11)-5))
		}
	}
	return m
}

func intVec(n, salt int) []float64 { return ints(1, n, salt+77).a }

func labelVec(n int, base float64) []float64 { return label(1, n, base).a }

var specials = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, 5e-324, math.MaxFloat64, 1.5}

// special gives contents cycling through IEEE special values.
func special(r, c, off int) *Mat {
	m := newMat(r, c)
	for i := range m.a {
		m.a[i] = specials[(i+off)%len(specials)]
	}
	return m
}

// forAll calls f for every assignment of n cells from the alphabet.
func forAll(n int, alphabet []float64, f func(a []float64) bool) {
	a := make([]float64, n)
	idx := make([]int, n)
	for i := range a {
		a[i] = alphabet[0]
	}
	for {
		if !f(a) {
			return
		}
		k := n - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < len(alphabet) {
				a[k] = alphabet[idx[k]]
				break
			}
			idx[k] = 0
			a[k] = alphabet[0]
			k--
		}
		if k < 0 {
			return
		}
	}
}

func rangeAlpha(lo, hi int) []float64 {
	var out []float64
	for i := lo; i <= hi; i++ {
		out = append(out, float64(i))
	}
	return out
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

// forAllSplit registers groups that together enumerate all r x c matrices over
// the alphabet, split by the assignment of the leading cells.
func (r *Run) forAllMats(name string, rows, cols int, alphabet []float64, f func(t *T, m *Mat)) {
	n := rows * cols
	lead := 0
	for lead < n && pow(len(alphabet), lead) < 48 && pow(len(alphabet), n-lead) > 200 {
		lead++
	}
	gi := 0
	forAll(lead, alphabet, func(pre []float64) bool {
		p := append([]float64(nil), pre...)
		r.Group(fmt.Sprintf("%s/%dx%d/%d", name, rows, cols, gi), func(t *T) {
			forAll(n-lead, alphabet, func(a []float64) bool {
				m := newMat(rows, cols)
				copy(m.a, p)
				copy(m.a[lead:], a)
				f(t, m)
				return !t.Stopped()
			})
		})
		gi++
		return true
	})
}
