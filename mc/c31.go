package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/jtejido/linear"
)

func init() {
	register("C31", "history independence",
		"every matrix and vector handed out by every operation of the catalogue (every pairing of representations, ordinary and special contents, shapes up to and across storage blocks), and every object changed by every kind of update before and after use, is put in every role of every operation of the catalogue and of every update; each answer is compared bit for bit with the answer for an object of the same representation built directly from the same entries. States are heap shapes: an object whose whole reachable memory (values, lengths, capacities, sharing) was met before is not explored again",
		checkC31)
}

// ---------------------------------------------------------------- heap states

type heapSeg struct{ lo, hi uintptr }

// heapState prints everything reachable from x: values, and for every pointer,
// slice and map which other one it shares storage with. Two objects with the
// same print are indistinguishable to any deterministic operation.
func heapState(x any) string {
	var segs []heapSeg
	collectSegs(reflect.ValueOf(x), &segs, map[uintptr]bool{})
	sort.Slice(segs, func(i, j int) bool {
		return segs[i].lo < segs[j].lo || (segs[i].lo == segs[j].lo && segs[i].hi > segs[j].hi)
	})
	var merged []heapSeg
	for _, s := range segs {
		if n := len(merged); n > 0 && s.lo < merged[n-1].hi {
			merged[n-1].hi = max(merged[n-1].hi, s.hi)
		} else {
			merged = append(merged, s)
		}
	}
	p := &heapPrinter{segs: merged, no: map[int]int{}, ptr: map[uintptr]int{}}
	p.print(reflect.ValueOf(x), 0)
	return p.b.String()
}

func collectSegs(v reflect.Value, segs *[]heapSeg, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			collectSegs(v.Elem(), segs, seen)
		}
	case reflect.Interface:
		if !v.IsNil() {
			collectSegs(v.Elem(), segs, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			collectSegs(v.Field(i), segs, seen)
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			p := v.Pointer()
			*segs = append(*segs, heapSeg{p, p + uintptr(v.Cap())*v.Type().Elem().Size()})
			switch v.Type().Elem().Kind() {
			case reflect.Float64, reflect.Int, reflect.Bool:
			default:
				for i := 0; i < v.Len(); i++ {
					collectSegs(v.Index(i), segs, seen)
				}
			}
		}
	}
}

type heapPrinter struct {
	b    strings.Builder
	segs []heapSeg
	no   map[int]int     // merged segment -> number by first visit
	ptr  map[uintptr]int // pointer -> number by first visit
}

func (p *heapPrinter) print(v reflect.Value, depth int) {
	b := &p.b
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		if n, ok := p.ptr[v.Pointer()]; ok {
			fmt.Fprintf(b, "*%d;", n)
			return
		}
		p.ptr[v.Pointer()] = len(p.ptr)
		fmt.Fprintf(b, "*%d=", len(p.ptr)-1)
		p.print(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		p.print(v.Elem(), depth+1)
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type())
		for i := 0; i < v.NumField(); i++ {
			p.print(v.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil[];")
			return
		}
		if v.Cap() > 0 {
			a := v.Pointer()
			k := sort.Search(len(p.segs), func(i int) bool { return p.segs[i].hi > a })
			n, ok := p.no[k]
			if !ok {
				n = len(p.no)
				p.no[k] = n
			}
			fmt.Fprintf(b, "s%d+%d", n, a-p.segs[k].lo)
		}
		fmt.Fprintf(b, "[%d/%d:", v.Len(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			p.print(v.Index(i), depth+1)
		}
		b.WriteString("];")
	case reflect.Array:
		b.WriteString("(")
		for i := 0; i < v.Len(); i++ {
			p.print(v.Index(i), depth+1)
		}
		b.WriteString(")")
	case reflect.Float64, reflect.Float32:
		fmt.Fprintf(b, "%x,", v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d,", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d,", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(b, "%v,", v.Bool())
	case reflect.String:
		fmt.Fprintf(b, "%q,", v.String())
	case reflect.Func:
		fmt.Fprintf(b, "func%v,", v.IsNil())
	default: // maps, channels, unsafe pointers: never considered equal
		fmt.Fprintf(b, "odd%d,", heapOdd.Add(1))
	}
}

var heapOdd atomic.Int64 // only makes prints differ

// ---------------------------------------------------------------- fresh twins

// twin builds an object of x's representation directly from x's entries.
func twin(x any) any {
	switch y := x.(type) {
	case *linear.Array2DRowRealMatrix:
		return mk(KArray, rd(y))
	case *linear.BlockRealMatrix:
		return mk(KBlock, rd(y))
	case *linear.DiagonalMatrix:
		return mk(KDiag, rd(y))
	case *foreignMat:
		return mk(KForeign, rd(y))
	case *linear.ArrayRealVector:
		return mkv(VArray, rdv(y))
	case *foreignVec:
		return mkv(VForeign, rdv(y))
	}
	return nil
}

type role struct {
	name string
	w    func() *World
	put  func(w *World, x any)
}

// roles lists the places an object can take in a world of other objects.
func roles(x any, partners []Kind, all bool) []role {
	var out []role
	if v, ok := x.(linear.RealVector); ok {
		n := v.Dimension()
		if n == 0 {
			return nil
		}
		for _, k := range partners {
			if k == KDiag {
				continue
			}
			m := min(n, 3)
			out = append(out,
				role{fmt.Sprintf("u beside %v", k), func() *World { return newWorld(k, k, VArray, m, n) }, func(w *World, x any) { w.u = x.(linear.RealVector) }},
				role{fmt.Sprintf("v beside %v", k), func() *World { return newWorld(k, k, VArray, n, m) }, func(w *World, x any) { w.v = x.(linear.RealVector) }})
			if k == partners[0] || all {
				out = append(out,
					role{fmt.Sprintf("w beside %v", k), func() *World { return newWorld(k, k, VArray, m, n) }, func(w *World, x any) { w.w = x.(linear.RealVector) }})
			}
		}
		return out
	}
	x0 := x.(linear.RealMatrix)
	r, c := x0.RowDimension(), x0.ColumnDimension()
	kx := KArray // what the world believes A is
	switch x.(type) {
	case *linear.DiagonalMatrix:
		kx = KDiag
	case *linear.BlockRealMatrix:
		kx = KBlock
	case *foreignMat:
		kx = KForeign
	}
	for _, k := range partners {
		if k == KDiag && r != c {
			continue
		}
		mat := func(n string, ka, kb Kind, put func(w *World, m linear.RealMatrix)) {
			if worldFits(ka, kb, r, c) {
				out = append(out, role{fmt.Sprintf("%s beside %v", n, k), func() *World { return newWorld(ka, kb, VArray, r, c) },
					func(w *World, x any) { put(w, x.(linear.RealMatrix)) }})
			}
		}
		mat("A", kx, k, func(w *World, m linear.RealMatrix) { w.A = m })
		mat("B", k, kx, func(w *World, m linear.RealMatrix) { w.B = m })
		if worldFits(k, kx, c, r) {
			out = append(out, role{fmt.Sprintf("C beside %v", k), func() *World { return newWorld(k, kx, VArray, c, r) },
				func(w *World, x any) { w.C = x.(linear.RealMatrix) }})
		}
		if k != partners[0] && !all {
			continue
		}
		mat("R", k, kx, func(w *World, m linear.RealMatrix) { w.R = m })
		if r == c {
			mat("S", kx, k, func(w *World, m linear.RealMatrix) { w.S = m })
			mat("N", kx, k, func(w *World, m linear.RealMatrix) { w.N = m })
			mat("A and B", kx, kx, func(w *World, m linear.RealMatrix) { w.A, w.B, w.C = m, m, m })
		}
	}
	return out
}

type answer struct {
	rej  *Rej
	vals [][]float64
}

func ask(op *PureOp, w *World) answer {
	res, rej := produce(op, w)
	if rej != nil {
		return answer{rej: rej}
	}
	return answer{vals: flatAll(res)}
}

// produce runs an operation; a refusal by a constructor counts as a rejection.
func produce(op *PureOp, w *World) (res []any, rej *Rej) {
	defer func() {
		if e := recover(); e != nil {
			fp, ok := e.(failPanic)
			if !ok {
				panic(e)
			}
			rej = &Rej{Msg: fp.msg}
		}
	}()
	rej = tryDo(func() { res = op.run(w) })
	return
}

func (t *T) sameAnswer(what string, a, b answer) {
	if (a.rej == nil) != (b.rej == nil) || (a.rej != nil && (a.rej.Status != b.rej.Status || a.rej.Typed != b.rej.Typed)) {
		t.Failf("%s: %v, for a directly built twin: %v", what, a.rej, b.rej)
	}
	if d := diffFlat(a.vals, b.vals); d >= 0 {
		if d < len(a.vals) && d < len(b.vals) {
			t.Failf("%s: result %d differs from the one for a directly built twin: %s", what, d, firstDiff(a.vals[d], b.vals[d]))
		}
		t.Failf("%s: %d results, for a directly built twin %d", what, len(a.vals), len(b.vals))
	}
}

type historian struct {
	t        *T
	ops      []PureOp
	seen     map[string]bool
	partners []Kind
	all      bool
	skipSame bool // do not explore an object whose heap state is its twin's
	light    bool // no decompositions
}

func newHistorian(t *T, partners []Kind) *historian {
	return &historian{t: t, ops: pureOps(), seen: map[string]bool{}, partners: partners, all: t.thorough}
}

// explore puts x in every role of every operation, then through every update.
func (h *historian) explore(desc string, x any) {
	t := h.t
	f := twin(x)
	if f == nil {
		return
	}
	key := heapState(x)
	if h.seen[key] {
		return
	}
	h.seen[key] = true
	if !t.State(key) && !h.t.thorough {
		return
	}
	if h.skipSame && key == heapState(f) {
		t.Op(1)
		return
	}
	t.Do(func() string { return desc + ": read" }, func() { h.read(x) })
	rs := roles(x, h.partners, h.all)
	for ri := range rs {
		ro := &rs[ri]
		h.answers(desc, "", ro, x)
		if t.Stopped() {
			return
		}
	}
	// updates; the catalogue was answered before, so anything remembered is stale now
	for si := range mutateStyles(x) {
		t.Do(func() string { return fmt.Sprintf("%s: update %d", desc, si) }, func() {
			y := twin(x)
			mutateStyles(y)[si]()
			mutateStyles(x)[si]()
			t.Op(2)
			if a, b := flat(x), flat(y); !sameSlice(a, b) {
				t.Failf("update %d left %s, a directly built twin %s", si, short(a), short(b))
			}
			h.read(x)
		})
		if len(rs) > 0 && (si%2 == 0 || t.thorough) {
			h.answers(desc, fmt.Sprintf("after update %d, ", si), &rs[si%len(rs)], x)
			if si%len(rs) != 0 {
				h.answers(desc, fmt.Sprintf("after update %d, ", si), &rs[0], x)
			}
		}
		if t.Stopped() {
			return
		}
	}
}

// read compares every reading interface with the entries.
func (h *historian) read(x any) {
	t := h.t
	switch y := x.(type) {
	case linear.RealMatrix:
		m := rd(y)
		lv := 2
		if m.r*m.c > 400 {
			lv = 1
		}
		t.readAll(y, m, lv)
	case linear.RealVector:
		t.readVec(y, rdv(y))
	}
}

func (h *historian) answers(desc, when string, ro *role, x any) {
	t := h.t
	w1, w2 := ro.w(), ro.w()
	f := twin(x)
	ro.put(w1, x)
	ro.put(w2, f)
	for oi := range h.ops {
		op := &h.ops[oi]
		if !op.applies(w1) || !op.applies(w2) || (h.light && op.shared) {
			continue
		}
		t.Do(func() string { return fmt.Sprintf("%s: %sas %s in %s", desc, when, ro.name, op.name) }, func() {
			a, b := ask(op, w1), ask(op, w2)
			t.Op(2)
			t.sameAnswer(op.name, a, b)
		})
		if t.Stopped() {
			return
		}
	}
}

func checkC31(r *Run) {
	ops := pureOps()
	type prod struct {
		k1, k2 Kind
		vk     VKind
		s      [2]int
		mood   int
	}
	var ps []prod
	shapes := worldShapes(r.thorough)
	big := [][2]int{{53, 2}, {2, 53}, {53, 53}}
	if r.thorough {
		big = append(big, [2]int{54, 105}, [2]int{105, 3})
	}
	for mood := range moods {
		for _, k1 := range allKinds {
			for _, k2 := range allKinds {
				for _, vk := range allVKinds {
					for si, s := range append(append([][2]int{}, shapes...), big...) {
						isBig := si >= len(shapes)
						if !worldFits(k1, k2, s[0], s[1]) || (moods[mood] == "symmetric" && s[0] != s[1]) {
							continue
						}
						if isBig && (vk != VArray || k1 == KShared || k2 == KShared || k1 == KForeign || k2 == KForeign) {
							continue
						}
						if (k2 == KShared && !r.thorough) || (vk != VArray && (k1 != KArray || k2 != KArray)) || (mood > 0 && (k2 == KForeign || k2 == KShared)) {
							continue
						}
						if mood > 0 && si >= 5 && si < len(shapes) {
							continue // the larger small shapes of the thorough tier: ordinary contents only
						}
						ps = append(ps, prod{k1, k2, vk, s, mood})
					}
				}
			}
		}
	}
	for _, p := range ps {
		big := p.s[0] > 50 || p.s[1] > 50
		r.Group(fmt.Sprintf("results/%s/%v-%v-%v/%dx%d", moods[p.mood], p.k1, p.k2, p.vk, p.s[0], p.s[1]), func(t *T) {
			h := newHistorian(t, []Kind{KArray, KBlock, KDiag})
			h.skipSame = big || (!t.thorough && p.mood > 0)
			h.light = big
			desc := fmt.Sprintf("%s %v,%v,%v %dx%d", moods[p.mood], p.k1, p.k2, p.vk, p.s[0], p.s[1])
			for oi := range ops {
				op := &ops[oi]
				w := newWorldMood(p.k1, p.k2, p.vk, p.s[0], p.s[1], p.mood)
				if !op.applies(w) || (op.wide && big) {
					continue
				}
				res, rej := produce(op, w)
				if rej != nil {
					continue
				}
				for i, o := range res {
					h.explore(fmt.Sprintf("%s result %d of %s", desc, i, op.name), o)
					if t.Stopped() {
						return
					}
				}
			}
		})
	}
	// used, changed, used again: nothing may be remembered across an update
	for _, k := range allKinds {
		for _, s := range shapes {
			if !worldFits(k, KArray, s[0], s[1]) && s[0] != s[1] {
				continue
			}
			r.Group(fmt.Sprintf("reuse/%v/%dx%d", k, s[0], s[1]), func(t *T) { reuse(t, ops, k, s[0], s[1]) })
		}
	}
}

// reuse lets one operation see an object, changes the object through each kind
// of update, and compares every operation with the one on a twin.
func reuse(t *T, ops []PureOp, k Kind, r, c int) {
	k2 := KArray
	mkWorld := func() *World { return newWorld(k, k2, VArray, r, c) }
	targets := []struct {
		name string
		get  func(w *World) any
		put  func(w *World, x any)
	}{
		{"A", func(w *World) any { return w.A }, func(w *World, x any) { w.A = x.(linear.RealMatrix) }},
		{"B", func(w *World) any { return w.B }, func(w *World, x any) { w.B = x.(linear.RealMatrix) }},
		{"C", func(w *World) any { return w.C }, func(w *World, x any) { w.C = x.(linear.RealMatrix) }},
		{"N", func(w *World) any { return w.N }, func(w *World, x any) { w.N = x.(linear.RealMatrix) }},
		{"S", func(w *World) any { return w.S }, func(w *World, x any) { w.S = x.(linear.RealMatrix) }},
		{"u", func(w *World) any { return w.u }, func(w *World, x any) { w.u = x.(linear.RealVector) }},
		{"v", func(w *World) any { return w.v }, func(w *World, x any) { w.v = x.(linear.RealVector) }},
	}
	for _, tg := range targets {
		for ai := range ops {
			w := mkWorld()
			if !ops[ai].applies(w) {
				continue
			}
			x := tg.get(w)
			for si := range mutateStyles(x) {
				produce(&ops[ai], w)
				mutateStyles(x)[si]()
				w2 := mkWorld()
				f := twin(x)
				if f == nil {
					t.Failf("no twin for %T", x)
				}
				tg.put(w2, f)
				t.State(fmt.Sprint(k, r, c, tg.name, ai, si))
				for bi := range ops {
					if !ops[bi].applies(w) || !ops[bi].applies(w2) || (ops[bi].shared && bi != ai && !t.thorough && r*c > 4) {
						continue
					}
					t.Do(func() string {
						return fmt.Sprintf("%v %dx%d: %s, update %d of %s, %s", k, r, c, ops[ai].name, si, tg.name, ops[bi].name)
					}, func() {
						a, b := ask(&ops[bi], w), ask(&ops[bi], w2)
						t.Op(2)
						t.sameAnswer(ops[bi].name, a, b)
					})
					if t.Stopped() {
						return
					}
				}
			}
		}
	}
}
