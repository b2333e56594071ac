package main

// Box headers: what is written where, and what is read back.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["W01"] = checkWriterNesting
	checks["W02"] = checkHeaders
	checks["W03"] = checkCopyBox
}

// wbyte is one byte put into the writer.
type wbyte struct {
	pc  *B
	at  *V // position
	val *V
	pos token.Pos
}

type wio struct {
	c      *Check
	e      *Eng
	r      *Repo
	biT    types.Type
	wrV    *V
	wr     *stream
	rdV    *V
	rd     *stream
	bytes  []wbyte
	odd    []string // writes whose content is not understood
	copies []copyEv
	raw    []rawWrite
	u64    types.Type
}

type rawWrite struct {
	pc   *B
	data *V
}

func newWio(c *Check) *wio {
	w := &wio{c: c, e: newEng(c.R), r: c.R, u64: types.Typ[types.Uint64]}
	w.biT = lookupType(c.R, "BoxInfo")
	wb, rb := c.R.Root.Func("WriteBoxInfo"), c.R.Root.Func("ReadBoxInfo")
	if w.biT == nil || wb == nil || rb == nil {
		c.Bad("anchor", "-", "the exported BoxInfo, WriteBoxInfo and ReadBoxInfo are expected")
		return nil
	}
	w.e.b.SymMajor = true
	w.e.Success = true
	w.e.initGlobals()
	w.wrV = w.e.symVal("w", wb.Params[0].Type())
	w.wr = &stream{"wpos", w.wrV.single()}
	w.rdV = w.e.symVal("r", rb.Params[0].Type())
	w.rd = &stream{"rpos", w.rdV.single()}
	w.e.OnCall = w.hook
	w.e.Mark = func() func() {
		a, b, d, f := len(w.bytes), len(w.odd), len(w.copies), len(w.raw)
		return func() { w.bytes, w.odd, w.copies, w.raw = w.bytes[:a], w.odd[:b], w.copies[:d], w.raw[:f] }
	}
	return w
}

func (w *wio) reset() { w.bytes, w.odd, w.copies, w.raw, w.e.Events = nil, nil, nil, nil, nil }

// input byte at a position of the reader
func (w *wio) in(st *State, at *V) *V {
	return w.e.map1(at, st.pc, func(n *Node) *V {
		return w.e.symVal(fmt.Sprintf("in[%s]#%d", n, n.id), types.Typ[types.Uint8])
	})
}

// put records the bytes of a slice written at the current position.
func (w *wio) put(cc *CallCtx, data *V) {
	e, st := w.e, cc.st
	at := e.pos(st, w.wr)
	w.raw = append(w.raw, rawWrite{st.pc, data})
	total := e.lenV(st, data)
	for _, a := range data.alts {
		g := e.b.And(st.pc, a.g)
		if g == e.b.F {
			continue
		}
		ln := e.lenOf(a.n)
		if a.n.Op == "slice" {
			if ln = a.n.Elems[0].single(); ln == nil {
				ln = e.mk(Node{Op: "len", W: 64, Args: []*Node{a.n}})
			}
		}
		if ln.Op != "int" || ln.C > 64 {
			w.odd = append(w.odd, fmt.Sprintf("%s: writes %s", w.r.Pos(cc.in.Pos()), data))
			continue
		}
		for i := uint64(0); i < ln.C; i++ {
			v := e.load(st, e.sliceElem(st, a.n, e.intN(i, 64)), types.Typ[types.Uint8])
			w.bytes = append(w.bytes, wbyte{g, e.add64(st, at, e.intV(i, 64)), v, cc.in.Pos()})
		}
	}
	st.ghost[w.wr.name] = e.add64(st, at, total)
}

// bytes.Buffer as ghost content: a node "blist" with the bytes.
func bufKey(n *Node) string { return "buf:" + n.Name + n.Path }

func (w *wio) bufOf(st *State, v *V) (*Node, *Node, bool) {
	p := v.single()
	if p == nil || p.Op != "ptr" {
		return nil, nil, false
	}
	c := st.ghost[bufKey(p)]
	if c == nil {
		return p, w.e.mk(Node{Op: "blist"}), true
	}
	n := c.single()
	return p, n, n != nil && n.Op == "blist"
}

func isBufPtr(t types.Type) bool { return types.TypeString(t, nil) == "*bytes.Buffer" }

func (w *wio) hook(cc *CallCtx) (*V, bool) {
	e, st := w.e, cc.st
	name := cc.Name
	if cc.Fn == nil && strings.HasSuffix(name, ").Write") && len(cc.Args) == 2 && w.wr.is(cc.Args[0]) {
		w.put(cc, cc.Args[1])
		return e.tuple(e.lenV(st, cc.Args[1]), e.nilV()), true
	}
	switch name {
	case "bytes.NewBuffer":
		obj := "a:" + e.site(cc.fr, cc.in) + "\x00"
		p := e.ptrN(obj, "")
		n := Node{Op: "blist"}
		s := cc.Args[0].single()
		ln := (*Node)(nil)
		if s != nil {
			ln = e.lenV(st, cc.Args[0]).single()
		}
		if ln == nil || ln.Op != "int" || ln.C > 64 {
			return nil, false
		}
		for i := uint64(0); i < ln.C; i++ {
			n.Elems = append(n.Elems, e.load(st, e.sliceElem(st, s, e.intN(i, 64)), types.Typ[types.Uint8]))
		}
		st.ghost[bufKey(p)] = e.v(e.mk(n))
		return e.v(p), true
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len":
		p, c, ok := w.bufOf(st, cc.Args[0])
		if !ok {
			return nil, false
		}
		if name == "(*bytes.Buffer).Len" {
			return e.intV(uint64(len(c.Elems)), 64), true
		}
		obj := "a:bytes:" + e.site(cc.fr, cc.in) + strings.ReplaceAll(p.Name, "\x00", "") + "\x00"
		for i, b := range c.Elems {
			e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), types.Typ[types.Uint8], b, e.b.T)
		}
		return e.v(e.mk(Node{Op: "slice", Args: []*Node{e.ptrN(obj, "")}, Elems: []*V{e.intV(uint64(len(c.Elems)), 64)},
			T: types.NewSlice(types.Typ[types.Uint8])})), true
	case "(*bytes.Buffer).Reset":
		if p, _, ok := w.bufOf(st, cc.Args[0]); ok {
			st.ghost[bufKey(p)] = e.v(e.mk(Node{Op: "blist"}))
			return nil, true
		}
	case "(*bytes.Buffer).Write":
		p, c, ok := w.bufOf(st, cc.Args[0])
		ln := e.lenV(st, cc.Args[1]).single()
		s := cc.Args[1].single()
		if ok && s != nil && ln != nil && ln.Op == "int" && ln.C <= 64 {
			n := Node{Op: "blist", Elems: append([]*V{}, c.Elems...)}
			for i := uint64(0); i < ln.C; i++ {
				n.Elems = append(n.Elems, e.load(st, e.sliceElem(st, s, e.intN(i, 64)), types.Typ[types.Uint8]))
			}
			st.ghost[bufKey(p)] = e.v(e.mk(n))
			return e.tuple(e.v(ln), e.nilV()), true
		}
	case "encoding/binary.Write":
		if !w.wr.is(cc.Args[0]) {
			break
		}
		if bs, ok := w.bigEndian(st, cc.Args[1], cc.Args[2]); ok {
			at := e.pos(st, w.wr)
			for i, b := range bs {
				w.bytes = append(w.bytes, wbyte{st.pc, e.add64(st, at, e.intV(uint64(i), 64)), b, cc.in.Pos()})
			}
			st.ghost[w.wr.name] = e.add64(st, at, e.intV(uint64(len(bs)), 64))
			return e.nilV(), true
		}
		w.odd = append(w.odd, w.r.Pos(cc.in.Pos())+": binary.Write of "+cc.Args[2].String())
	case "io.CopyN", "io.Copy":
		if name == "io.CopyN" && w.rd.is(cc.Args[1]) {
			n := cc.Args[2].single()
			dst := cc.Args[0].single()
			if dst != nil && dst.Op == "iface" && isBufPtr(dst.T) && n != nil && n.Op == "int" && n.C <= 64 {
				p, c, ok := w.bufOf(st, dst.Elems[0])
				if !ok {
					return nil, false
				}
				m := Node{Op: "blist", Elems: append([]*V{}, c.Elems...)}
				at := e.pos(st, w.rd)
				for i := uint64(0); i < n.C; i++ {
					m.Elems = append(m.Elems, w.in(st, e.add64(st, at, e.intV(i, 64))))
				}
				st.ghost[bufKey(p)] = e.v(e.mk(m))
				st.ghost[w.rd.name] = e.add64(st, at, cc.Args[2])
				return e.tuple(cc.Args[2], e.nilV()), true
			}
			w.copies = append(w.copies, copyEv{st.pc, cc.Args[0], e.pos(st, w.rd), cc.Args[2], cc.in.Pos()})
		}
		if name == "io.Copy" {
			if l := cc.Args[1].single(); l != nil && l.Op == "app" && l.Name == "io.LimitReader" && l.Args[0] == w.rd.node {
				w.copies = append(w.copies, copyEv{st.pc, cc.Args[0], e.pos(st, w.rd), e.v(l.Args[1]), cc.in.Pos()})
				st.ghost[w.rd.name] = e.add64(st, e.pos(st, w.rd), e.v(l.Args[1]))
				return e.tuple(e.v(l.Args[1]), e.nilV()), true
			}
		}
	case "io.LimitReader":
		return e.app(name, cc.Args, cc.Fn.Signature.Results()), true
	case "io.ReadFull":
		ln := e.lenV(st, cc.Args[1]).single()
		s := cc.Args[1].single()
		if w.rd.is(cc.Args[0]) && s != nil && ln != nil && ln.Op == "int" && ln.C <= 64 {
			at := e.pos(st, w.rd)
			for i := uint64(0); i < ln.C; i++ {
				e.store(st, e.sliceElem(st, s, e.intN(i, 64)), types.Typ[types.Uint8], w.in(st, e.add64(st, at, e.intV(i, 64))), e.b.T)
			}
			st.ghost[w.rd.name] = e.add64(st, at, e.v(ln))
			return e.tuple(e.v(ln), e.nilV()), true
		}
	case "encoding/binary.Read":
		if dst := cc.Args[2].single(); w.rd.is(cc.Args[0]) && dst != nil && dst.Op == "iface" {
			pt, ok := dst.T.Underlying().(*types.Pointer)
			p := dst.Elems[0].single()
			if !ok || p == nil || p.Op != "ptr" {
				break
			}
			at := e.pos(st, w.rd)
			if wd, _, isInt := intWidth(pt.Elem()); isInt && w.isBE(cc.Args[1]) {
				v := e.intV(0, wd)
				for i := 0; i < wd/8; i++ {
					x := w.in(st, e.add64(st, at, e.intV(uint64(i), 64)))
					sh := uint64(wd - 8 - 8*i)
					v = e.map2(v, x, st.pc, func(a, b *Node) *V {
						return e.v(e.bit2("or", a, e.shift("shl", b, e.intN(sh, wd), wd), wd))
					})
				}
				e.store(st, p, pt.Elem(), v, e.b.T)
				st.ghost[w.rd.name] = e.add64(st, at, e.intV(uint64(wd/8), 64))
				return e.nilV(), true
			}
		}
	}
	if v, ok := e.streamCall(cc, w.wr); ok {
		return v, ok
	}
	return e.streamCall(cc, w.rd)
}

func (w *wio) isBE(order *V) bool {
	o := order.single()
	return o != nil && o.Op == "iface" && strings.HasSuffix(types.TypeString(o.T, nil), "binary.bigEndian")
}

// bigEndian is the encoding of an integer, array or slice of bytes.
func (w *wio) bigEndian(st *State, order, v *V) ([]*V, bool) {
	e := w.e
	n := v.single()
	if n == nil || n.Op != "iface" || !w.isBE(order) {
		return nil, false
	}
	if wd, _, ok := intWidth(n.T); ok {
		return w.beBytes(n.Elems[0], wd), true
	}
	a := n.Elems[0].single()
	if at, ok := n.T.Underlying().(*types.Array); ok && a != nil && a.Op == "array" {
		if wd, _, ok := intWidth(at.Elem()); ok && wd == 8 {
			return a.Elems, true
		}
	}
	if a != nil {
		if ln := e.lenOf(a); ln.Op == "int" && ln.C <= 64 && a.Op == "slice" {
			var out []*V
			for i := uint64(0); i < ln.C; i++ {
				out = append(out, e.load(st, e.sliceElem(st, a, e.intN(i, 64)), types.Typ[types.Uint8]))
			}
			return out, true
		}
	}
	return nil, false
}

func (w *wio) beBytes(v *V, wd int) []*V {
	e := w.e
	var out []*V
	for i := 0; i < wd/8; i++ {
		sh := uint64(wd - 8 - 8*i)
		out = append(out, e.map1(v, e.b.T, func(x *Node) *V {
			return e.v(e.trunc(e.shift("lshr", x, e.intN(sh, wd), wd), 8))
		}))
	}
	return out
}

// content is what the recorded writes leave at offsets 0.. from a position: per offset the condition
// under which it was written and the value. ok is false when a write is not at a constant distance.
func (w *wio) content(base *V, from int) (cond []*B, val []*V, bad string) {
	e := w.e
	cond, val = make([]*B, 32), make([]*V, 32)
	for i := range cond {
		cond[i] = e.b.F
	}
	if len(w.odd) > 0 {
		return nil, nil, w.odd[0]
	}
	for _, x := range w.bytes[from:] {
		d := e.map2(x.at, base, x.pc, func(a, b *Node) *V { return e.v(e.sub(a, b, 64)) })
		for _, a := range d.alts {
			g := e.b.And(x.pc, a.g)
			if g == e.b.F {
				continue
			}
			if a.n.Op != "int" || a.n.C >= 32 {
				return nil, nil, fmt.Sprintf("%s: a byte is written at %s, which is not inside the header at %s", w.r.Pos(x.pos), x.at, base)
			}
			i := a.n.C
			nv := x.val
			if val[i] != nil {
				var as []alt
				for _, y := range x.val.alts {
					as = append(as, alt{e.b.And(g, y.g), y.n})
				}
				for _, y := range val[i].alts {
					as = append(as, alt{e.b.And(e.b.Not(g), y.g), y.n})
				}
				nv = e.norm(as, e.b.Or(cond[i], g))
			}
			cond[i], val[i] = e.b.Or(cond[i], g), nv
		}
	}
	return
}

// wantHeader: the header bytes of a box, and the conditions of its forms.
func (w *wio) wantHeader(size, hs, typ *V, ext *B, pc *B) (n *V, at func(i int) *V, large *B) {
	e, b := w.e, w.e.b
	small := b.F
	for _, s := range size.alts {
		for _, h := range hs.alts {
			fits := b.Not(e.ltInt(e.intN(0xFFFFFFFF, 64), s.n, 64, false))
			k := b.And(fits, b.Not(e.eqInt(h.n, e.intN(16, 64), 64)))
			small = b.Or(small, b.And(b.And(s.g, h.g), k))
		}
	}
	large = b.And(b.Not(small), b.Not(ext))
	ite3 := func(i int, onExt, onSmall, onLarge *V) *V {
		var as []alt
		for _, x := range []struct {
			g *B
			v *V
		}{{ext, onExt}, {b.And(small, b.Not(ext)), onSmall}, {large, onLarge}} {
			for _, y := range x.v.alts {
				as = append(as, alt{b.And(x.g, y.g), y.n})
			}
		}
		return e.norm(as, pc)
	}
	n = ite3(0, e.intV(8, 64), e.intV(8, 64), e.intV(16, 64))
	sb := w.beBytes(size, 64)
	at = func(i int) *V {
		z := e.intV(0, 8)
		switch {
		case i < 4:
			one := z
			if i == 3 {
				one = e.intV(1, 8)
			}
			return ite3(i, z, sb[4+i], one)
		case i < 8:
			return e.map1(typ, pc, func(t *Node) *V {
				return e.elem(e.newState(), t, i-4, fmt.Sprintf("[%d]", i-4), types.Typ[types.Uint8])
			})
		default:
			return sb[i-8]
		}
	}
	return
}

// header compares what was written with the header of a box.
func (w *wio) header(key, what string, fn *ssa.Function, from int, base, size, hs, typ *V, ext *B, pc *B) (n *V) {
	e, b := w.e, w.e.b
	n, at, large := w.wantHeader(size, hs, typ, ext, pc)
	cond, val, bad := w.content(base, from)
	if bad != "" {
		w.c.Bad(key, w.r.Pos(fn.Pos()), "%s: %s", what, bad)
		return
	}
	for i := 0; i < 32; i++ {
		want := b.F
		if i < 8 {
			want = pc
		} else if i < 16 {
			want = b.And(pc, large)
		}
		if got := b.And(cond[i], pc); got != want {
			w.c.Bad(fmt.Sprintf("%s[%d]", key, i), w.r.Pos(fn.Pos()), "%s: byte %d of the header is written under %s, must be under %s", what, i, b.Cond(got), b.Cond(want))
			continue
		}
		if want == b.F {
			continue
		}
		if exp := at(i); !e.sameV(val[i], exp, want) {
			w.c.Bad(fmt.Sprintf("%s[%d]", key, i), w.r.Pos(fn.Pos()), "%s: byte %d of the header is %s, must be %s", what, i, val[i], exp)
			continue
		}
		w.c.OK("%s byte %d", key, i)
	}
	return
}

func (w *wio) must(key string, fn *ssa.Function, cond bool, format string, a ...interface{}) {
	if cond {
		w.c.OK("%s", key)
	} else {
		w.c.Bad(key, w.r.Pos(fn.Pos()), format, a...)
	}
}

// boxInfo makes an unknown BoxInfo.
func (w *wio) boxInfo(st *State, name string) *V {
	obj := name + "\x00"
	st.base[obj] = name
	return w.e.v(w.e.ptrN(obj, ""))
}

func (w *wio) call(fn *ssa.Function, st *State, path string, args ...*V) ([]*V, *State) {
	st.env = map[ssa.Value]*V{}
	w.c.Unit(fn.String())
	v, end := w.e.joinRets(w.e.Run(fn, st, args, nil, nil, path))
	if end == nil {
		return nil, nil
	}
	if v == nil {
		return nil, end
	}
	if n := v.single(); n != nil && n.Op == "tuple" {
		return n.Elems, end
	}
	return []*V{v}, end
}

func (w *wio) fields(st *State, p *V) (off, size, hs, typ *V, ext *B) {
	e := w.e
	off, size, hs = e.get(st, p, w.biT, "Offset"), e.get(st, p, w.biT, "Size"), e.get(st, p, w.biT, "HeaderSize")
	typ, ext = e.get(st, p, w.biT, "Type"), e.toB(e.get(st, p, w.biT, "ExtendToEOF"))
	return
}

// ---------------------------------------------------------------- W02

func checkHeaders(c *Check) {
	c.Rule = "WriteBoxInfo and ReadBoxInfo, interpreted for every size, type, header size and position over an unknown stream whose bytes and position are tracked: each written byte, each reported field and the final position equal the box header of ISO/IEC 14496-12 (4.2), in all three forms"
	w := newWio(c)
	if w == nil {
		return
	}
	e, b := w.e, w.e.b
	// writing
	fn := w.r.Root.Func("WriteBoxInfo")
	st := e.newState()
	p0 := e.symVal("p0", w.u64)
	st.ghost["wpos"] = p0
	arg := w.boxInfo(st, "bi")
	off, size, hs, typ, ext := w.fields(st, arg)
	_ = off
	before := e.load(st, arg.single(), w.biT)
	res, end := w.call(fn, st, "write/", w.wrV, arg)
	if end == nil || len(res) != 2 {
		c.Bad("write", w.r.Pos(fn.Pos()), "WriteBoxInfo never succeeds")
		return
	}
	n := w.header("write", "WriteBoxInfo", fn, 0, p0, size, hs, typ, ext, end.pc)
	w.must("write-refuses", fn, end.pc == b.T, "WriteBoxInfo refuses boxes (it succeeds only under %s)", b.Cond(end.pc))
	w.must("write-argument", fn, e.sameV(e.load(end, arg.single(), w.biT), before, end.pc), "WriteBoxInfo changes the BoxInfo it is given")
	if n != nil {
		w.must("write-position", fn, e.sameV(e.pos(end, w.wr), e.add64(end, p0, n), end.pc), "the writer is left at %s, not behind the header", e.pos(end, w.wr))
		o, s, h, ty, ex := w.fields(end, res[0])
		w.must("write-offset", fn, e.sameV(o, p0, end.pc), "the returned Offset is %s, must be where the header was written", o)
		w.must("write-headersize", fn, e.sameV(h, n, end.pc), "the returned HeaderSize is %s", h)
		want := e.add64(end, e.sub64(end, size, hs), n)
		w.must("write-size", fn, e.sameV(s, want, end.pc), "the returned Size is %s, must be the size for the header written (%s)", s, want)
		w.must("write-type", fn, e.sameV(ty, typ, end.pc), "the returned Type is %s", ty)
		w.must("write-eof", fn, b.And(end.pc, b.Xor(ex, ext)) == b.F, "the returned ExtendToEOF is %s", b.Cond(ex))
	}
	// reading, for an unknown position
	fn = w.r.Root.Func("ReadBoxInfo")
	w.reset()
	st = e.newState()
	st.ghost["rpos"] = p0
	res, end = w.call(fn, st, "read/", w.rdV)
	if end == nil || len(res) != 2 {
		c.Bad("read", w.r.Pos(fn.Pos()), "ReadBoxInfo never succeeds")
		return
	}
	w.readFields(fn, "read", p0, res[0], end)
	// which headers are refused, for some positions
	for _, p := range []uint64{0, 8, 1000, 1<<32 + 5, 1<<63 - 17} {
		w.reset()
		st = e.newState()
		pv := e.intV(p, 64)
		st.ghost["rpos"] = pv
		res, end = w.call(fn, st, fmt.Sprintf("read%d/", p), w.rdV)
		key := fmt.Sprintf("read-refuses@%d", p)
		if end == nil || len(res) != 2 {
			c.Bad(key, w.r.Pos(fn.Pos()), "at position %d ReadBoxInfo never succeeds", p)
			continue
		}
		w.readFields(fn, fmt.Sprintf("read@%d", p), pv, res[0], end)
		size, hs, _, _ := w.expectRead(end, pv)
		ok := b.F
		for _, s := range size.alts {
			for _, h := range hs.alts {
				k := b.And(b.Not(e.ltInt(s.n, h.n, 64, false)), b.Not(e.ltInt(e.intN(1<<63-1-p, 64), s.n, 64, false)))
				ok = b.Or(ok, b.And(b.And(s.g, h.g), k))
			}
		}
		w.must(key, fn, end.pc == ok, "at position %d ReadBoxInfo accepts a header exactly if %s, must be exactly if its size covers the header and its end is a valid offset (%s)", p, b.Cond(end.pc), b.Cond(ok))
	}
	c.AtLeastUnits("functions interpreted", len(e.Visited), 3)
}

func (c *Check) AtLeastUnits(name string, got, n int) {
	c.Count(name, got)
	c.AtLeast(name, n)
}

// expectRead: the box a header at p describes.
func (w *wio) expectRead(st *State, p *V) (size, hs, n *V, ext *B) {
	e, b := w.e, w.e.b
	get := func(from, cnt, wd int) *V {
		v := e.intV(0, wd)
		for i := 0; i < cnt; i++ {
			x := w.in(st, e.add64(st, p, e.intV(uint64(from+i), 64)))
			sh := uint64(8 * (cnt - 1 - i))
			v = e.map2(v, x, b.T, func(a, c *Node) *V { return e.v(e.bit2("or", a, e.shift("shl", c, e.intN(sh, wd), wd), wd)) })
		}
		return v
	}
	s32 := e.map1(get(0, 4, 32), b.T, func(n *Node) *V { return e.v(e.convInt(n, 32, false, 64)) }).single()
	s64 := get(8, 8, 64)
	isExt, isLarge := e.eqInt(s32, e.intN(0, 64), 64), e.eqInt(s32, e.intN(1, 64), 64)
	eof := e.sub64(st, e.symVal("end("+w.rd.name+")", w.u64), p)
	mix := func(x, y, z *V) *V {
		var as []alt
		for _, q := range []struct {
			g *B
			v *V
		}{{isExt, x}, {isLarge, y}, {b.Not(b.Or(isExt, isLarge)), z}} {
			for _, a := range q.v.alts {
				as = append(as, alt{b.And(q.g, a.g), a.n})
			}
		}
		return e.norm(as, b.T)
	}
	return mix(eof, s64, e.v(s32)), mix(e.intV(8, 64), e.intV(16, 64), e.intV(8, 64)), get(4, 4, 32), isExt
}

func (w *wio) readFields(fn *ssa.Function, key string, p, res *V, end *State) {
	e, b := w.e, w.e.b
	size, hs, _, ext := w.expectRead(end, p)
	o, s, h, ty, ex := w.fields(end, res)
	w.must(key+"-offset", fn, e.sameV(o, p, end.pc), "the Offset read is %s, must be the position of the header", o)
	w.must(key+"-size", fn, e.sameV(s, size, end.pc), "the Size read is %s, must be %s", s, size)
	w.must(key+"-headersize", fn, e.sameV(h, hs, end.pc), "the HeaderSize read is %s, must be %s", h, hs)
	w.must(key+"-eof", fn, b.And(end.pc, b.Xor(ex, ext)) == b.F, "ExtendToEOF is %s, must be set exactly for size 0", b.Cond(ex))
	okT := true
	for i := 0; i < 4; i++ {
		i := i
		el := e.map1(ty, end.pc, func(t *Node) *V { return e.elem(end, t, i, fmt.Sprintf("[%d]", i), types.Typ[types.Uint8]) })
		okT = okT && e.sameV(el, w.in(end, e.add64(end, p, e.intV(uint64(4+i), 64))), end.pc)
	}
	w.must(key+"-type", fn, okT, "the Type read is %s, must be bytes 4 to 7 of the header", ty)
	w.must(key+"-position", fn, e.sameV(e.pos(end, w.rd), e.add64(end, p, hs), end.pc), "the reader is left at %s, must be behind the header", e.pos(end, w.rd))
	bad := b.F
	for _, x := range size.alts {
		for _, y := range hs.alts {
			bad = b.Or(bad, b.And(b.And(x.g, y.g), e.ltInt(x.n, y.n, 64, false)))
		}
	}
	w.must(key+"-covers-header", fn, b.And(end.pc, bad) == b.F, "a box smaller than its header is accepted (under %s)", b.Cond(b.And(end.pc, bad)))
	if cp, ct := e.pathOf(w.biT, "Context"); ct != nil {
		q := res.single()
		w.must(key+"-context", fn, q != nil && e.sameV(e.load(end, e.ptrN(q.Name, q.Path+cp), ct), e.zeroVal(ct), end.pc), "the context of a box just read is not empty")
	}
}

// ---------------------------------------------------------------- W01

func checkWriterNesting(c *Check) {
	c.Rule = "the methods of Writer, interpreted over sequences of nested boxes with an unknown writer position before each call: every EndBox rewrites exactly the header of the innermost open box at its own start with the size up to the current end, and returns to that end"
	c.Assume = append(c.Assume, "the write-seeker reports positions truthfully", "the caller does not modify the BoxInfo that StartBox returned")
	w := newWio(c)
	if w == nil {
		return
	}
	e, b := w.e, w.e.b
	wt := lookupType(w.r, "Writer")
	nw := w.r.Root.Func("NewWriter")
	if wt == nil || nw == nil {
		c.Bad("anchor:Writer", "-", "the exported Writer and NewWriter are expected")
		return
	}
	m := map[string]*ssa.Function{}
	for _, n := range []string{"StartBox", "EndBox", "Write", "Seek"} {
		if m[n] = e.method(wt, n); m[n] == nil {
			c.Bad("anchor:Writer."+n, "-", "the exported method Writer.%s is expected", n)
			return
		}
	}
	type open struct {
		info         *V
		off, hs, typ *V
		ext          *B
		name         string
		ptr          *V
	}
	for _, seq := range []string{"SE", "SSEE", "SSESEE", "SSSEESEE", "SESE"} {
		st := e.newState()
		st.ghost["wpos"] = e.symVal("p0", w.u64)
		w.reset()
		res, st2 := w.call(nw, st, "new/", w.wrV)
		if st2 == nil || len(res) != 1 {
			c.Bad("anchor:NewWriter", w.r.Pos(nw.Pos()), "NewWriter does not return a writer")
			return
		}
		st = st2
		wp := res[0]
		var stack []open
		for i, ch := range seq {
			st.ghost["wpos"] = e.symVal(fmt.Sprintf("p%d", i+1), w.u64)
			here := e.pos(st, w.wr)
			from := len(w.bytes)
			path := fmt.Sprintf("%s.%d/", seq, i)
			key := fmt.Sprintf("%s.%d", seq, i)
			switch ch {
			case 'S':
				name := fmt.Sprintf("b%d", i)
				arg := w.boxInfo(st, name)
				_, size, hs, typ, ext := w.fields(st, arg)
				fn := m["StartBox"]
				res, end := w.call(fn, st, path, wp, arg)
				if end == nil || len(res) != 2 {
					c.Bad("start", w.r.Pos(fn.Pos()), "StartBox never succeeds")
					return
				}
				n := w.header("start", "StartBox", fn, from, here, size, hs, typ, ext, end.pc)
				if n == nil {
					return
				}
				o, _, h, ty, ex := w.fields(end, res[0])
				w.must("start-info", fn, e.sameV(o, here, end.pc) && e.sameV(h, n, end.pc) && e.sameV(ty, typ, end.pc) && b.And(end.pc, b.Xor(ex, ext)) == b.F,
					"StartBox returns another BoxInfo than that of the header it wrote")
				w.must("start-position", fn, e.sameV(e.pos(end, w.wr), e.add64(end, here, n), end.pc), "after StartBox the writer is at %s, must be behind the header", e.pos(end, w.wr))
				stack = append(stack, open{res[0], here, n, typ, ext, name, res[0]})
				st = end
			case 'E':
				fn := m["EndBox"]
				o := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				res, end := w.call(fn, st, path, wp)
				if end == nil || len(res) != 2 {
					c.Bad("end", w.r.Pos(fn.Pos()), "EndBox never succeeds")
					return
				}
				size := e.sub64(end, here, o.off)
				w.header("end", "EndBox", fn, from, o.off, size, o.hs, o.typ, o.ext, end.pc)
				n, _, _ := w.wantHeader(size, o.hs, o.typ, o.ext, end.pc)
				w.must("end-header-size", fn, e.sameV(n, o.hs, end.pc), "EndBox succeeds although the header needs another size than the one reserved by StartBox (%s, reserved %s)", n, o.hs)
				w.must("end-position", fn, e.sameV(e.pos(end, w.wr), here, end.pc), "after EndBox the writer is at %s, must be back at the end of the box", e.pos(end, w.wr))
				of, s, h, ty, _ := w.fields(end, res[0])
				w.must("end-info", fn, e.sameV(of, o.off, end.pc) && e.sameV(s, size, end.pc) && e.sameV(h, o.hs, end.pc) && e.sameV(ty, o.typ, end.pc),
					"EndBox (%s) returns offset %s, size %s, header size %s; must be those of the innermost open box (offset %s, size %s)", key, of, s, h, o.off, size)
				st = end
			}
		}
		c.Count("call sequences", 1)
	}
	// every box whose header keeps its size is accepted
	for _, hsz := range []uint64{8, 16} {
		w.reset()
		st := e.newState()
		st.ghost["wpos"] = e.intV(100, 64)
		res, st := w.call(nw, st, "new/", w.wrV)
		arg := w.boxInfo(st, "b")
		hp, ht := e.pathOf(w.biT, "HeaderSize")
		sp, stt := e.pathOf(w.biT, "Size")
		ep, et := e.pathOf(w.biT, "ExtendToEOF")
		e.store(st, e.ptrN(arg.single().Name, hp), ht, e.intV(hsz, 64), b.T)
		e.store(st, e.ptrN(arg.single().Name, sp), stt, e.intV(hsz, 64), b.T)
		e.store(st, e.ptrN(arg.single().Name, ep), et, e.boolV(b.F), b.T)
		_, st = w.call(m["StartBox"], st, "acc/s/", res[0], arg)
		if st == nil {
			c.Bad("start", "-", "StartBox never succeeds")
			return
		}
		endPos := e.symVal("pe", w.u64)
		st.ghost["wpos"] = endPos
		_, end := w.call(m["EndBox"], st, "acc/e/", res[0])
		if end == nil {
			c.Bad("end", "-", "EndBox never succeeds")
			return
		}
		want := b.T
		if hsz == 8 {
			want = b.Not(e.ltInt(e.intN(0xFFFFFFFF, 64), e.sub(endPos.single(), e.intN(100, 64), 64), 64, false))
		}
		w.must(fmt.Sprintf("end-accepts-%d", hsz), m["EndBox"], end.pc == want, "with a %d-byte header EndBox succeeds exactly if %s, must be exactly if %s", hsz, b.Cond(end.pc), b.Cond(want))
	}
	// plain writes and seeks go to the writer unchanged
	w.reset()
	st := e.newState()
	st.ghost["wpos"] = e.symVal("p0", w.u64)
	res, st := w.call(nw, st, "new/", w.wrV)
	data := e.symVal("data", m["Write"].Params[1].Type())
	_, end := w.call(m["Write"], st.clone(), "w/", res[0], data)
	w.must("plain-write", m["Write"], end != nil && end.pc == b.T && len(w.raw) == 1 && e.sameV(w.raw[0].data, data, end.pc) && w.raw[0].pc == b.T, "Write does not pass its data on unchanged")
	offs, wh := e.symVal("offset", types.Typ[types.Int64]), e.intV(0, 64)
	for k := uint64(0); k < 3; k++ {
		wh = e.intV(k, 64)
		_, end = w.call(m["Seek"], st.clone(), fmt.Sprintf("s%d/", k), res[0], offs, wh)
		want := offs
		if k == 1 {
			want = e.add64(st, e.symVal("p0", w.u64), offs)
		} else if k == 2 {
			want = e.add64(st, e.symVal("end(wpos)", w.u64), offs)
		}
		w.must("plain-seek", m["Seek"], end != nil && e.sameV(e.pos(end, w.wr), want, end.pc), "Seek does not pass its arguments on unchanged")
	}
	c.AtLeast("call sequences", 5)
}

// ---------------------------------------------------------------- W03

func checkCopyBox(c *Check) {
	c.Rule = "CopyBox, interpreted for every box and reader position: the only transfer copies exactly Size bytes from Offset of the reader to the writer's current position, and everything else is left alone"
	w := newWio(c)
	if w == nil {
		return
	}
	e, b := w.e, w.e.b
	wt := lookupType(w.r, "Writer")
	nw := w.r.Root.Func("NewWriter")
	var fn *ssa.Function
	if wt != nil {
		fn = e.method(wt, "CopyBox")
	}
	if nw == nil || fn == nil {
		c.Bad("anchor:CopyBox", "-", "the exported method Writer.CopyBox is expected")
		return
	}
	st := e.newState()
	st.ghost["wpos"] = e.symVal("p0", w.u64)
	st.ghost["rpos"] = e.symVal("q0", w.u64)
	res, st := w.call(nw, st, "new/", w.wrV)
	arg := w.boxInfo(st, "bi")
	off, size, _, _, _ := w.fields(st, arg)
	_, end := w.call(fn, st, "copy/", res[0], w.rdV, arg)
	if end == nil {
		c.Bad("copy", w.r.Pos(fn.Pos()), "CopyBox never succeeds")
		return
	}
	w.must("copy-refuses", fn, end.pc == b.T, "CopyBox refuses boxes (it succeeds only under %s)", b.Cond(end.pc))
	w.must("copy-once", fn, len(w.copies) == 1 && len(w.raw) == 0, "CopyBox makes %d copies and %d other writes, must be one copy", len(w.copies), len(w.raw))
	for _, x := range w.copies {
		w.must("copy-from", fn, e.sameV(x.at, off, x.pc), "CopyBox copies from position %s, must be the start of the box", x.at)
		w.must("copy-size", fn, e.sameV(x.n, size, x.pc), "CopyBox copies %s bytes, must be the size of the box", x.n)
		d := x.w.single()
		okW := d == w.wr.node
		if d != nil && d.Op == "iface" {
			okW = types.Identical(d.T, types.NewPointer(wt)) && e.sameV(d.Elems[0], res[0], x.pc)
		}
		w.must("copy-to", fn, okW, "CopyBox copies to %s, must be its own writer", x.w)
		w.must("copy-always", fn, x.pc == b.T, "CopyBox copies only under %s", b.Cond(x.pc))
	}
	w.must("copy-writer", fn, e.sameV(e.pos(end, w.wr), e.symVal("p0", w.u64), end.pc) || len(w.copies) == 1, "CopyBox moves the writer")
}
