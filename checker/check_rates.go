package main

// P04: bitrates of samples and segments.

import (
	"fmt"
	"go/types"
)

func init() {
	checks["P04"] = func(c *Check) { runCodec(c, rateCases(c), 115) }
}

func rateCases(c *Check) []ccase {
	var out []ccase
	for n := 0; n <= 4; n++ {
		n := n
		out = append(out, ccase{"rate", fmt.Sprintf("Samples.GetBitrate of %d", n), func(k *codec) string { return k.sampleRate(n) }})
		for m := 0; m < 1<<uint(n); m++ {
			m := m
			if n == 4 && m != 11 && m != 5 && m != 8 {
				continue
			}
			out = append(out, ccase{"rate", fmt.Sprintf("Segments.GetBitrate of %d, of the track %b", n, m), func(k *codec) string { return k.segmentRate("GetBitrate", n, m) }})
			out = append(out, ccase{"rate", fmt.Sprintf("Segments.GetMaxBitrate of %d, of the track %b", n, m), func(k *codec) string { return k.segmentRate("GetMaxBitrate", n, m) }})
		}
	}
	for n := 0; n <= 4; n++ {
		for _, c := range []struct{ each, period uint64 }{{1, 1}, {1, 2}, {1, 3}, {1, 5}, {1, 6}, {1, 0}, {3, 1}, {3, 4}, {3, 6}, {3, 7}, {3, 1 << 40}, {512, 1000}, {512, 1024}, {0, 1}, {0, 0}, {1 << 31, 1<<32 + 1}} {
			n, c := n, c
			out = append(out, ccase{"rate", fmt.Sprintf("Samples.GetMaxBitrate of %d lasting %d each, period of %d", n, c.each, c.period), func(k *codec) string { return k.maxRate(n, c.each, c.period) }})
		}
	}
	return out
}

// maxRate: samples of equal duration, so that every run of as many as the period takes is a candidate.
func (k *codec) maxRate(n int, each, period uint64) string {
	e := k.e
	st, _ := k.object()
	l, t, el := k.pointers(st, "Samples", n)
	if l == nil {
		return "Samples is not a list of pointers to structures"
	}
	k.facts, k.divs = nil, nil
	old := e.b.SymMajor
	e.b.SymMajor = false
	defer func() { e.b.SymMajor = old }()
	scale := e.bvN(k.symBits(32, k.fresh("scale")))
	ts := e.convInt(scale, 32, false, 64)
	var sizes []*Node
	for i := 0; i < n; i++ {
		q, ft := pathTo(el, "TimeDelta")
		p := e.load(st, e.sliceElem(st, l.alts[0].n, e.intN(uint64(i), 64)), types.NewPointer(el)).single()
		if p == nil || ft == nil {
			return "TimeDelta is missing"
		}
		e.store(st, e.ptrN(p.Name, p.Path+q), ft, e.intV(each, 32), e.b.T)
		x := k.field64(st, l, el, i, "Size")
		if x == nil {
			return "Size is missing"
		}
		sizes = append(sizes, x)
	}
	best := e.intV(0, 64)
	if each != 0 && period != 0 {
		run := n
		if r := (period + each - 1) / each; r < uint64(n) {
			run = int(r)
		}
		for i := 0; i+run <= n && run > 0; i++ {
			size := e.intN(0, 64)
			for _, x := range sizes[i : i+run] {
				size = e.add(size, x, 64)
			}
			r := k.rateOf(size, ts, e.intN(each*uint64(run), 64))
			more := e.b.F
			for _, a := range best.alts {
				for _, b := range r.alts {
					more = e.b.Or(more, e.b.And(e.b.And(a.g, b.g), e.ltInt(a.n, b.n, 64, false)))
				}
			}
			best = k.ite(more, r, best)
		}
	}
	return k.rateDone(k.recv(st, t, "GetMaxBitrate", l, e.v(scale), e.intV(period, 64)), best)
}

// pointers builds a slice of pointers to structures.
func (k *codec) pointers(st *State, name string, n int) (*V, types.Type, types.Type) {
	e := k.e
	t := k.gtype(name)
	if t == nil {
		return nil, nil, nil
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, nil, nil
	}
	p, ok := sl.Elem().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil, nil
	}
	obj := k.fresh("w:list") + "\x00"
	for i := 0; i < n; i++ {
		o := k.fresh("w:el") + "\x00"
		st.base[o] = k.fresh("el")
		e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), sl.Elem(), e.v(e.ptrN(o, "")), e.b.T)
	}
	return e.v(e.sliceN(obj, n, t)), t, p.Elem()
}

// recv calls a method of a value type.
func (k *codec) recv(st *State, t types.Type, name string, args ...*V) *outcome {
	e := k.e
	fn := k.r.Prog.LookupMethod(t, k.r.Root.Pkg, name)
	if fn == nil {
		k.und("%s has no method %s", t, name)
		return nil
	}
	e.steps = 0
	e.Events = nil
	k.last = ""
	v, end := e.joinRets(e.Run(fn, st, args, nil, nil, k.fresh("m")+"/"))
	if end == nil || v == nil {
		return nil
	}
	return &outcome{st: end, pc: e.b.T, vals: []*V{v}}
}

// field reads a field of an element of a list made by pointers, as a 64-bit number.
func (k *codec) field64(st *State, l *V, el types.Type, i int, name string) *Node {
	e := k.e
	p := e.load(st, e.sliceElem(st, l.alts[0].n, e.intN(uint64(i), 64)), types.NewPointer(el)).single()
	q, ft := pathTo(el, name)
	if p == nil || ft == nil {
		return nil
	}
	n := e.load(st, e.ptrN(p.Name, p.Path+q), ft).single()
	if n == nil {
		return nil
	}
	w, signed, _ := intWidth(ft)
	return e.convInt(n, w, signed, 64)
}

// rateOf is 8 bits per byte of a size, times the time scale, by a duration.
func (k *codec) rateOf(size, scale, dur *Node) *V {
	e := k.e
	if e.eqInt(dur, e.intN(0, 64), 64) == e.b.T {
		return e.intV(0, 64)
	}
	r := e.v(e.divrem("div", e.mul(e.mul(e.intN(8, 64), size, 64), scale, 64), dur, 64, false))
	zero := e.intN(0, 64)
	if r.alts[0].n.Op == "div" {
		k.divs = append(k.divs, r.alts[0].n)
	}
	none := e.b.Or(e.eqInt(size, zero, 64), e.eqInt(scale, zero, 64))
	k.facts = append(k.facts, e.b.Or(e.b.Not(none), e.eqInt(r.alts[0].n, zero, 64)))
	return k.ite(e.eqInt(dur, e.intN(0, 64), 64), e.intV(0, 64), r)
}

// possible tells whether a condition is consistent with what is known about the quotients.
func (k *codec) possible(st *State, g *B) bool {
	e := k.e
	fact := g
	for _, f := range k.facts {
		fact = e.b.And(fact, f)
	}
	divs := k.divs
	for i, x := range divs {
		for _, y := range divs[:i] {
			if fact == e.b.F {
				return false
			}
			fact = e.b.And(fact, e.b.Or(e.b.Not(e.eqDiv(x, y)), k.eqV(st, e.v(x), e.v(y), 64)))
		}
	}
	le := func(x, y *Node) *B { return e.b.Not(e.ltInt(y, x, 64, false)) }
	for _, x := range divs {
		for _, y := range divs {
			for _, z := range divs {
				if x != y && y != z && x != z {
					fact = e.b.And(fact, e.b.Or(e.b.Not(e.b.And(le(x, y), le(y, z))), le(x, z)))
				}
			}
		}
	}
	return fact != e.b.F
}

func (k *codec) rateDone(o *outcome, want *V) string {
	if o == nil || o.st.pc != k.e.b.T {
		return "does not return for some values" + k.why()
	}
	if k.panicking() {
		return "may panic" + k.why()
	}
	if len(o.vals) != 1 {
		return "the result is not determined" + k.why()
	}
	e := k.e
	for _, a := range o.vals[0].alts {
		for _, b := range want.alts {
			g := e.b.And(a.g, b.g)
			if g == e.b.F {
				continue
			}
			if g = e.b.And(g, e.b.Not(k.eqV(o.st, e.v(a.n), e.v(b.n), 64))); g != e.b.F && k.possible(o.st, g) {
				return "the bitrate differs" + k.why()
			}
		}
	}
	if len(k.undec) > 0 {
		return "not decided" + k.why()
	}
	return ""
}

func (k *codec) sampleRate(n int) string {
	e := k.e
	st, _ := k.object()
	l, t, el := k.pointers(st, "Samples", n)
	if l == nil {
		return "Samples is not a list of pointers to structures"
	}
	k.facts, k.divs = nil, nil
	old := e.b.SymMajor
	e.b.SymMajor = false
	defer func() { e.b.SymMajor = old }()
	scale := e.bvN(k.symBits(32, k.fresh("scale")))
	size, dur := e.intN(0, 64), e.intN(0, 64)
	for i := 0; i < n; i++ {
		x, y := k.field64(st, l, el, i, "Size"), k.field64(st, l, el, i, "TimeDelta")
		if x == nil || y == nil {
			return "Size or TimeDelta is missing"
		}
		size, dur = e.add(size, x, 64), e.add(dur, y, 64)
	}
	o := k.recv(st, t, "GetBitrate", l, e.v(scale))
	return k.rateDone(o, k.rateOf(size, e.convInt(scale, 32, false, 64), dur))
}

func (k *codec) segmentRate(name string, n, mine int) string {
	e := k.e
	st, _ := k.object()
	l, t, el := k.pointers(st, "Segments", n)
	if l == nil {
		return "Segments is not a list of pointers to structures"
	}
	k.facts, k.divs = nil, nil
	old := e.b.SymMajor
	e.b.SymMajor = false
	defer func() { e.b.SymMajor = old }()
	scale := e.bvN(k.symBits(32, k.fresh("scale")))
	track := k.symBits(32, k.fresh("track"))
	id := e.bvN(revBits(track))
	ts := e.convInt(scale, 32, false, 64)
	size, dur := e.intN(0, 64), e.intN(0, 64)
	best := e.intV(0, 64)
	for i := 0; i < n; i++ {
		q, ft := pathTo(el, "TrackID")
		p := e.load(st, e.sliceElem(st, l.alts[0].n, e.intN(uint64(i), 64)), types.NewPointer(el)).single()
		if p == nil || ft == nil {
			return "TrackID is missing"
		}
		// another track differs in one bit, which one is unknown
		own := id
		if mine>>uint(i)&1 == 0 {
			bs := append([]*B{}, revBits(track)...)
			bs[i*7+1] = e.b.Not(bs[i*7+1])
			own = e.bvN(bs)
		}
		e.store(st, e.ptrN(p.Name, p.Path+q), ft, e.v(own), e.b.T)
		x, y := k.field64(st, l, el, i, "Size"), k.field64(st, l, el, i, "Duration")
		if x == nil || y == nil {
			return "Size or Duration is missing"
		}
		if mine>>uint(i)&1 == 0 {
			continue
		}
		size, dur = e.add(size, x, 64), e.add(dur, y, 64)
		r := k.rateOf(x, ts, y)
		more := e.b.F
		for _, a := range best.alts {
			for _, b := range r.alts {
				more = e.b.Or(more, e.b.And(e.b.And(a.g, b.g), e.ltInt(a.n, b.n, 64, false)))
			}
		}
		best = k.ite(more, r, best)
	}
	o := k.recv(st, t, name, l, e.v(id), e.v(scale))
	if name == "GetBitrate" {
		return k.rateDone(o, k.rateOf(size, ts, dur))
	}
	return k.rateDone(o, best)
}
