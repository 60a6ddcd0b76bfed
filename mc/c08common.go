package main

import (
	"fmt"
	"strings"
)

// ConcOp is a non-mutating operation on the objects of a ConcWorld.
type ConcOp struct {
	name  string
	heavy bool // builds a decomposition
	run   func() []any
}

// ConcWorld is a set of shared objects with the operations applied to them.
type ConcWorld struct {
	ops     []ConcOp
	objects func() []any
}

// concSpec names a world and builds fresh instances of it.
type concSpec struct {
	name  string
	large bool
	read  bool // a decomposition that has been read
	build func() *ConcWorld
}

func worldOps(w *World) *ConcWorld {
	cw := &ConcWorld{objects: w.objects}
	ops := pureOps()
	for i := range ops {
		op := &ops[i]
		if op.applies(w) {
			cw.ops = append(cw.ops, ConcOp{op.name, op.shared, func() []any { return op.run(w) }})
		}
	}
	return cw
}

// decWorld shares one decomposition all of whose accessors have been read.
func decWorld(dt decType, k Kind, n int) *ConcWorld {
	w := &inst{}
	if dt.input != nil {
		m := dt.input(n)
		w.x = mk(k, m)
		w.b, w.v = mk(KArray, ints(m.r, 2, 5)), mkv(VArray, intVec(m.r, 5))
	} else {
		w.main, w.sec = labelVec(n, 3), labelVec(max(n-1, 0), 1)
	}
	dt.build(w)
	cw := &ConcWorld{objects: func() []any {
		if w.x == nil {
			return []any{w.main, w.sec}
		}
		return []any{w.x, w.b, w.v}
	}}
	for _, op := range dt.ops {
		if strings.HasPrefix(op.name, "modify") {
			continue
		}
		op.run(w) // reading everything once fills the caches
		cw.ops = append(cw.ops, ConcOp{op.name, false, func() []any { return op.run(w) }})
	}
	return cw
}

func concSpecs(thorough bool) []concSpec {
	var out []concSpec
	shapes := [][2]int{{2, 2}, {2, 3}}
	if thorough {
		shapes = append(shapes, [][2]int{{1, 1}, {1, 3}, {3, 1}, {3, 2}, {3, 3}}...)
	}
	big := [][2]int{{53, 2}, {2, 53}}
	if thorough {
		big = append(big, [][2]int{{53, 53}, {1, 53}, {64, 65}}...)
	}
	for _, s := range append(shapes, big...) {
		for _, k1 := range allKinds {
			for _, k2 := range []Kind{KArray, KBlock, KDiag} {
				if !worldFits(k1, k2, s[0], s[1]) || k2 == KDiag && k1 == KForeign {
					continue
				}
				for _, vk := range allVKinds {
					if vk == VForeign && (k2 != KArray || k1 == KShared) && !thorough {
						continue
					}
					out = append(out, concSpec{fmt.Sprintf("%v/%v/%v/%dx%d", k1, k2, vk, s[0], s[1]), s[0]*s[1] > 20, false,
						func() *ConcWorld { return worldOps(newWorld(k1, k2, vk, s[0], s[1])) }})
				}
			}
		}
	}
	ns := []int{2, 3}
	if thorough {
		ns = []int{1, 2, 3, 4, 5, 53}
	}
	for _, dt := range decTypes() {
		for _, n := range ns {
			for _, k := range []Kind{KArray, KBlock} {
				if dt.input == nil && k != KArray || dt.name == "Eigen complex" && n == 1 {
					continue
				}
				out = append(out, concSpec{fmt.Sprintf("read %s/%v/%d", dt.name, k, n), n > 20, true, func() *ConcWorld { return decWorld(dt, k, n) }})
			}
		}
	}
	return out
}

// concRes is what an operation returned, or how it was rejected.
type concRes struct {
	rej *Rej
	out [][]float64
}

func runConc(op *ConcOp) (r concRes) {
	defer func() {
		if e := recover(); e != nil {
			r.rej = rejOf(e, true)
		}
	}()
	r.out = flatAll(op.run())
	return
}

// diff describes a difference to another outcome (bitwise), or is empty.
func (r concRes) diff(o concRes) string {
	if (r.rej == nil) != (o.rej == nil) || r.rej != nil && r.rej.String() != o.rej.String() {
		return fmt.Sprintf("%v, alone %v", o.rej, r.rej)
	}
	if r.rej != nil {
		return ""
	}
	if d := diffFlat(r.out, o.out); d >= 0 {
		if d >= len(r.out) || d >= len(o.out) {
			return "number of results differs"
		}
		return fmt.Sprintf("result %d is %s, alone %s", d, short(o.out[d]), short(r.out[d]))
	}
	return ""
}
