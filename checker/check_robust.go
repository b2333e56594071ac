package main

// B01: no payload makes decoding panic, loop for ever or allocate beyond its size.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	checks["B01"] = func(c *Check) { runCodec(c, robustCases(c), 2300) }
}

func robustCases(c *Check) []ccase {
	l, err := parseLayout(layoutText)
	if err != nil {
		c.Bad("table", "-", "%v", err)
		return nil
	}
	var out []ccase
	seen := map[string]bool{}
	for _, r := range l.Regs {
		r := r
		if seen[r.Type] {
			continue
		}
		seen[r.Type] = true
		sizes := []int{0, 1, 3, 4, 5, 7, 8, 9, 12, 13, 16}
		for ver := 0; ver < 2; ver++ {
			if f := fixedBytes(l, r.Type, ver, map[string]bool{}); f > 16 && r.Type != "Emsg" && f > sizes[len(sizes)-1] {
				sizes = append(sizes, f-1, f, f+1, f+4)
			}
		}
		if r.Type == "Emsg" {
			sizes = append(sizes, 19, 20)
		}
		fixed := sizes[11:]
		if r.Type == "Emsg" {
			fixed = nil
		}
		prefixes := map[int][][]int{}
		switch r.Type {
		case "AVCDecoderConfiguration":
			// one of the two lists of parameter sets is empty in long payloads
			empty, one, two := []int{-1, -1, -1, -1, -1, 0xe0}, []int{-1, -1, -1, -1, -1, 0xe1, 0, 1, -1, 0}, []int{-1, -1, -1, -1, -1, 0xe1, 0, 2, -1, -1, 1, 0, 0}
			prefixes[12] = [][]int{empty, one}
			prefixes[13] = [][]int{one, two}
			prefixes[16] = [][]int{one, two}
		case "Esds":
			// the first descriptor of a long payload begins in a known way
			es, url, other, long := []int{0, 0, 0, 0, 3, 3, 0, 1, -1}, []int{0, 0, 0, 0, 3, 0x80, 0x80, 3, 0, 1, 0x40}, []int{0, 0, 0, 0, 5, 0x80, 1, -1, 6}, []int{0, 0, 0, 0, 6, 0xff, 0xff, 0xff, 0x7f}
			prefixes[12] = [][]int{es, url, other, long}
			prefixes[13] = [][]int{url, other, long}
			prefixes[16] = [][]int{url, long}
			prefixes[19] = [][]int{{0, 0, 0, 0, 4, 13}}
			prefixes[22] = prefixes[19]
			sizes = append(sizes, 19, 22)
		}
		for _, n := range sizes {
			n := n
			ps := prefixes[n]
			if ps == nil {
				ps = [][]int{nil}
			}
			for i, p := range ps {
				p := p
				name := fmt.Sprintf("%s of %d bytes", r.Type, n)
				if i > 0 {
					name += fmt.Sprintf(", form %d", i+1)
				}
				out = append(out, ccase{"payload", name, func(k *codec) string { return k.robust(r, n, n, p) }})
			}
		}
		out = append(out, ccase{"claimed size", r.Type + " of 2^40 bytes, read from beyond the end", func(k *codec) string {
			k.beyond = 3
			defer func() { k.beyond = 0 }()
			return k.robust(r, 0, 1<<40, nil)
		}})
		for _, n := range []int{0, 5, 8, 12} {
			n := n
			if n > 5 && len(prefixes) > 0 {
				continue
			}
			out = append(out, ccase{"claimed size", fmt.Sprintf("%s of %d bytes, more behind", r.Type, n), func(k *codec) string { return k.robust(r, n+4, n, nil) }})
		}
		for _, n := range append([]int{0, 4, 8, 12}, fixed...) {
			n := n
			if n > 8 && len(prefixes) > 0 {
				continue
			}
			out = append(out, ccase{"claimed size", fmt.Sprintf("%s of 2^40 bytes, %d of them there", r.Type, n), func(k *codec) string { return k.robust(r, n, 1<<40, nil) }})
			out = append(out, ccase{"claimed size", fmt.Sprintf("%s of %d bytes, %d of them there", r.Type, n+4, n), func(k *codec) string { return k.robust(r, n, n+4, nil) }})
		}
	}
	return out
}

// fixedBytes is the size of the part of a type that is always there.
func fixedBytes(l *specLayout, t string, ver int, busy map[string]bool) int {
	if busy[t] {
		return 0
	}
	busy[t] = true
	defer delete(busy, t)
	bits := 0
	for _, f := range l.Types[t] {
		switch f.If {
		case "", fmt.Sprintf("ver==%d", ver):
		case "ver!=0", "ver>0":
			if ver == 0 {
				continue
			}
		default:
			continue
		}
		if f.Len != "" {
			continue
		}
		count, elem := 1, f.Type
		if strings.HasPrefix(elem, "[") {
			i := strings.Index(elem, "]")
			c, err := strconv.Atoi(elem[1:i])
			if err != nil {
				continue
			}
			count, elem = c, elem[i+1:]
		}
		if w, err := strconv.Atoi(f.Size); err == nil {
			bits += count * w
		} else if f.Embed && elem == "FullBox" {
			bits += 32
		} else if f.Embed {
			bits += 8 * fixedBytes(l, elem, ver, busy)
		}
	}
	return bits / 8
}

// anyContext is a context of which nothing is known.
func (k *codec) anyContext() *V {
	e := k.e
	t := k.r.Root.Pkg.Scope().Lookup("Context").Type()
	s := t.Underlying().(*types.Struct)
	n := Node{Op: "struct", T: t}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); isBool(f.Type()) {
			n.Elems = append(n.Elems, e.boolV(k.symBits(1, k.fresh("ctx"))[0]))
		} else {
			n.Elems = append(n.Elems, e.intV(1, 64))
		}
	}
	return e.v(e.mk(n))
}

func (k *codec) robust(r specReg, n, claimed int, prefix []int) string {
	e := k.e
	gt := goType(k.r, r.Type)
	if gt == nil {
		return "the type " + r.Type + " is missing"
	}
	b := k.realBox(gt.(*types.Named), r.Code, nil)
	b.ctx = k.anyContext()
	sizes := types.SizesFor("gc", "amd64")
	big := ""
	e.OnMake = func(st *State, fr *frame, v *V, elem types.Type) {
		limit := uint64(64*(n+k.lead)+4096) / uint64(max(1, sizes.Sizeof(elem)))
		for _, a := range v.alts {
			g := e.b.And(st.pc, a.g)
			if g != e.b.F && e.b.And(g, e.ltInt(e.intN(limit, 64), e.convInt(a.n, 64, true, 64), 64, false)) != e.b.F {
				big = fmt.Sprintf("%s (%s)", fr.fn, k.r.Pos(fr.fn.Pos()))
			}
		}
	}
	defer func() { e.OnMake = nil }()
	bits := k.symBits(8*n, k.fresh("in"))
	for i, x := range prefix {
		for j := 0; x >= 0 && j < 8; j++ {
			bits[8*i+j] = e.b.Bool(x>>uint(7-j)&1 != 0)
		}
	}
	pc := e.b.T
	if r.Type == "Trun" && n >= 4 {
		// a run whose samples have no field of their own takes no bytes
		pc = e.b.Not(k.isConst(bits[20:24], 0))
	}
	if d := k.beyond; d > 0 {
		prep := b.prep
		b.prep = func(st *State, p *Node) {
			if prep != nil {
				prep(st, p)
			}
			st.ghost["rpos"] = e.intV(uint64(k.lead+n+d), 64)
		}
	}
	_, bad, _ := k.unmarshal(b, bits, pc, claimed, 0)
	if big != "" {
		return "may allocate far more memory than there are bytes, in " + big
	}
	if k.panicking() {
		return "may panic" + k.why()
	}
	if bad != "" {
		return bad
	}
	if len(k.undec) > 0 {
		return "not decided" + k.why()
	}
	return ""
}
