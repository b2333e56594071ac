package main

// P03: which samples FindIDRFrames reports.

import (
	"fmt"
	"go/token"
	"go/types"
)

func init() {
	checks["P03"] = func(c *Check) { runCodec(c, idrCases(c), 70) }
}

type idrShape struct {
	length int    // bytes of a NAL length
	per    []int  // samples of each chunk
	sizes  []int  // of the samples
	offs   []int  // of the chunks
	base   int    // added to the offsets of the chunks
	mask   uint64 // bits of the first length that are unknown; 0: all data is unknown
	short  bool   // the file ends inside the last sample
}

func idrCases(c *Check) []ccase {
	var out []ccase
	add := func(s idrShape) {
		out = append(out, ccase{"shape", fmt.Sprintf("lengths of %d, chunks of %v at %v, samples of %v, short %v, data at %d, mask %x", s.length, s.per, s.offs, s.sizes, s.short, s.base, s.mask), func(k *codec) string { return k.idr(s) }})
	}
	for l := 1; l <= 4; l++ {
		for n := 0; n <= 4+2*l; n++ {
			add(idrShape{l, []int{1}, []int{n}, []int{3}, 0, 0, false})
		}
		add(idrShape{l, []int{1}, []int{l + 2}, []int{3}, 0, 0, true})
		add(idrShape{l, []int{2, 1}, []int{l + 5, l + 1, l + 2}, []int{0, 40}, 0, 0, false})
		add(idrShape{l, []int{1, 2}, []int{l + 1, l + 2, l + 1}, []int{2, 17}, 1 << 32, 0, false})
		add(idrShape{l, []int{1, 2}, []int{l + 1, l + 2, l + 1}, []int{9, 0}, 1<<32 - 3, 0, false})
		add(idrShape{l, []int{2}, []int{l + 1, l + 2}, []int{0}, 0, 0, false})
		add(idrShape{l, []int{1, 1}, []int{l + 2, l + 1}, []int{9, 1}, 0, 0, false})
		add(idrShape{l, []int{2, 1}, []int{l + 1, 0, l + 1}, []int{8, 0}, 0, 0, false})
		add(idrShape{l, []int{1, 0, 2}, []int{l + 1, l + 1, l + 1}, []int{8, 0, 20}, 0, 0, false})
	}
	for l, mask := range []uint64{2: 0x1ff, 3: 0x10107, 4: 0x1030f} {
		if mask != 0 {
			add(idrShape{l, []int{1}, []int{int(mask) + 40}, []int{0}, 0, mask, false})
			add(idrShape{l, []int{1}, []int{int(mask>>1) + 40}, []int{0}, 0, mask, false})
		}
	}
	add(idrShape{2, []int{3}, []int{3, 3}, []int{1}, 0, 0, false})
	add(idrShape{2, []int{1}, []int{3, 3}, []int{1}, 0, 0, false})
	add(idrShape{2, nil, []int{3, 3}, nil, 0, 0, false})
	add(idrShape{2, []int{2}, nil, []int{0}, 0, 0, false})
	out = append(out, ccase{"shape", "no AVC configuration", func(k *codec) string {
		return k.idr(idrShape{length: 0, per: []int{1}, sizes: []int{5}, offs: []int{0}})
	}})
	return out
}

func (k *codec) idr(s idrShape) string {
	e := k.e
	e.WideLt, e.WideMax = true, 64
	if s.mask != 0 {
		e.WideMax = 2048
	}
	defer func() { e.WideLt = false }()
	st, p := k.object()
	f := &vfile{k: k, st: st}
	t := k.gtype("Track")
	ct, smt, at := k.gtype("Chunk"), k.gtype("Sample"), k.gtype("AVCDecConfigInfo")
	if t == nil || ct == nil || smt == nil || at == nil {
		return "Track, Chunk, Sample or AVCDecConfigInfo is missing"
	}
	ptr := func(path string, n int) {
		q, ft := pathTo(t, path)
		if ft == nil {
			f.wrong("Track.%s is missing", path)
			return
		}
		obj := k.fresh("w:ptrs") + "\x00"
		el := ft.Underlying().(*types.Slice).Elem()
		for i := 0; i < n; i++ {
			o := k.fresh("w:el") + "\x00"
			st.base[o] = k.fresh("el")
			e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), el, e.v(e.ptrN(o, "")), e.b.T)
		}
		e.store(st, e.ptrN(p.Name, p.Path+q), ft, e.v(e.sliceN(obj, n, ft)), e.b.T)
	}
	ptr("Chunks", len(s.per))
	ptr("Samples", len(s.sizes))
	if len(f.bad) > 0 {
		return f.bad[0]
	}
	last := 0
	at0 := make([]int, len(s.sizes)) // where the samples are; -1: in no chunk
	for i := range at0 {
		at0[i] = -1
	}
	si := 0
	for i, n := range s.per {
		f.set(st, p, t, e.intV(uint64(s.base+s.offs[i]), 64), "Chunks", i, "DataOffset")
		f.set(st, p, t, e.intV(uint64(n), 32), "Chunks", i, "SamplesPerChunk")
		at := s.offs[i]
		for j := 0; j < n && si < len(s.sizes); j++ {
			at0[si] = at
			at += s.sizes[si]
			si++
		}
		last = max(last, at)
	}
	for i, n := range s.sizes {
		f.set(st, p, t, e.intV(uint64(n), 32), "Samples", i, "Size")
	}
	q, aft := pathTo(t, "AVC")
	if aft == nil {
		return "Track.AVC is missing"
	}
	if s.length == 0 {
		e.store(st, e.ptrN(p.Name, p.Path+q), aft, e.nilV(), e.b.T)
	} else {
		o := k.fresh("w:avc") + "\x00"
		st.base[o] = k.fresh("avc")
		e.store(st, e.ptrN(p.Name, p.Path+q), aft, e.v(e.ptrN(o, "")), e.b.T)
		f.set(st, p, t, e.intV(uint64(s.length), 16), "AVC", "LengthSize")
	}
	if len(f.bad) > 0 {
		return f.bad[0]
	}
	var bits []*B
	if s.mask == 0 {
		bits = k.symBits(8*last, k.fresh("data"))
	} else {
		// one unit with an unknown header; every later length leads out of the sample
		for i := 8*s.length - 1; i >= 0; i-- {
			if s.mask>>uint(i)&1 != 0 {
				bits = append(bits, k.symBits(1, k.fresh("data"))...)
			} else {
				bits = append(bits, e.b.F)
			}
		}
		bits = append(bits, e.b.T, e.b.T, e.b.T)
		bits = append(bits, k.symBits(5, k.fresh("data"))...)
		r := uint32(1)
		for len(bits) < 8*last {
			r = r*1664525 + 1013904223
			c := 0xe1 | byte(r>>24&4)
			for i := 7; i >= 0; i-- {
				bits = append(bits, e.b.Bool(c>>uint(i)&1 != 0))
			}
		}
	}
	k.input = k.bytes(bits)
	k.inBase = s.base
	defer func() { k.inBase = 0 }()
	if s.short {
		k.input = k.input[:last-2]
	}
	st.ghost["rpos"] = e.intV(0, 64)
	rd := e.v(e.mk(Node{Op: "sym", Name: inName, T: types.Typ[types.Invalid]}))
	o := k.call("FindIDRFrames", st, e.b.T, rd, e.v(p))
	if o == nil || o.st == nil || o.st.pc != e.b.T {
		return "does not return for some data" + k.why()
	}
	if k.panicking() {
		return "may panic" + k.why()
	}
	if len(o.vals) != 2 {
		return "the results are not determined" + k.why()
	}
	fails := k.failing(o, 1)
	if s.short {
		if fails != e.b.T {
			return "does not fail though a sample is cut off" + k.why()
		}
		return ""
	}
	if fails != e.b.F {
		return "may fail" + k.why()
	}
	// the walk over the NAL units of a sample
	var walk func(at, off, size int, memo map[int]*B) *B
	walk = func(at, off, size int, memo map[int]*B) *B {
		if off+s.length+1 > size {
			return e.b.F
		}
		if r, ok := memo[off]; ok {
			return r
		}
		pos := 8 * (at + off)
		length := bits[pos : pos+8*s.length]
		typ := bits[pos+8*s.length+3 : pos+8*s.length+8]
		r := k.isConst(typ, 5)
		for l := 0; l <= size; l++ {
			if l>>uint(8*s.length) != 0 {
				break
			}
			if s.mask != 0 && (off != 0 || uint64(l)&^s.mask != 0) {
				continue
			}
			if nx := off + s.length + l; nx < size {
				r = e.b.Or(r, e.b.And(k.isConst(length, uint64(l)), walk(at, nx, size, memo)))
			}
		}
		memo[off] = r
		return r
	}
	var is []*B
	for i, n := range s.sizes {
		if at0[i] < 0 || s.length == 0 || n == 0 {
			is = append(is, e.b.F)
			continue
		}
		is = append(is, walk(at0[i], 0, n, map[int]*B{}))
	}
	for m := 0; m < 1<<uint(len(is)); m++ {
		g := e.b.T
		var want []int
		for i, x := range is {
			if m>>uint(i)&1 != 0 {
				g = e.b.And(g, x)
				want = append(want, i)
			} else {
				g = e.b.And(g, e.b.Not(x))
			}
		}
		if g == e.b.F {
			continue
		}
		s2 := o.st.clone()
		s2.pc = g
		for _, a := range e.under(o.vals[0], g).alts {
			s3 := s2.clone()
			if s3.pc = e.b.And(g, a.g); s3.pc == e.b.F {
				continue
			}
			n, ok := e.constLen(s3, e.v(a.n))
			if !ok || n != len(want) {
				return fmt.Sprintf("reports %d samples where %v have an IDR picture", n, want) + k.why()
			}
			for i, w := range want {
				got := e.load(s3, e.sliceElem(s3, a.n, e.intN(uint64(i), 64)), types.Typ[types.Int])
				if e.b.And(s3.pc, e.b.Not(k.eqV(s3, got, e.intV(uint64(w), 64), 64))) != e.b.F {
					return fmt.Sprintf("does not report %v", want) + k.why()
				}
			}
		}
	}
	if len(k.undec) > 0 {
		return "not decided" + k.why()
	}
	return ""
}

var _ = token.EQL
