package main

// R10: the structures whose wire format a field list cannot describe: they look at the data first.

import (
	"fmt"
	"go/token"
	"go/types"
)

func init() {
	checks["R10"] = func(c *Check) { runCodec(c, specialCases(c), 60) }
}

// plainBox is a registered structure with nothing known about its fields.
func (k *codec) plainBox(name, code string) *wbox {
	t := goType(k.r, name)
	if t == nil {
		return nil
	}
	b := k.realBox(t.(*types.Named), code, nil)
	b.ctx = k.context(nil)
	return b
}

func (k *codec) loadField(st *State, p *Node, t types.Type, name string) *V {
	ft := fieldType(t, name)
	if ft == nil {
		return nil
	}
	return k.e.load(st, k.e.ptrN(p.Name, p.Path+"."+name), ft)
}

// isStr: the string field holds exactly these bytes.
func (k *codec) isStr(st *State, v *V, want []*V) *B {
	e := k.e
	r := e.b.F
	for _, a := range e.under(v, st.pc).alts {
		if got, ok := e.bytesOf(st, a.n); ok {
			r = e.b.Or(r, e.b.And(a.g, e.eqBytes(got, want)))
		}
	}
	return r
}

func (k *codec) konstBits(n int, c uint64) []*B {
	out := make([]*B, n)
	for i := range out {
		out[i] = k.e.b.Bool(c>>uint(n-1-i)&1 != 0)
	}
	return out
}

func (k *codec) isConst(bits []*B, c uint64) *B { // stream order
	r := k.e.b.T
	for i := range bits {
		r = k.e.b.And(r, k.e.b.Eq(bits[i], k.e.b.Bool(c>>uint(len(bits)-1-i)&1 != 0)))
	}
	return r
}

func specialCases(c *Check) []ccase {
	var out []ccase
	add := func(kind, name string, f func(k *codec) string) { out = append(out, ccase{kind, name, f}) }
	done := func(k *codec) string {
		if len(k.undec) > 0 {
			return "not decided" + k.why()
		}
		return ""
	}
	// meta: a full box, or directly its children (QuickTime)
	for _, n := range []int{4, 5, 12} {
		n := n
		add("meta", fmt.Sprintf("payload of %d bytes", n), func(k *codec) string {
			e := k.e
			b := k.plainBox("Meta", "meta")
			if b == nil {
				return "the type Meta is missing"
			}
			bits := k.symBits(8*n, k.fresh("in"))
			o, bad, p := k.unmarshal(b, bits, e.b.T, n, 2)
			if bad != "" {
				return bad
			}
			if k.failing(o, 1) != e.b.F {
				return "Unmarshal may return an error" + k.why()
			}
			iso := k.isConst(bits[:32], 0)
			pick := func(x, y uint64) *V {
				return e.norm([]alt{{iso, e.intN(x, 64)}, {e.b.Not(iso), e.intN(y, 64)}}, e.b.T)
			}
			if !k.must(o, k.eqV(o.st, o.vals[0], pick(4, 0), 64)) {
				return "does not report 4 bytes when the payload starts with four zero bytes and none otherwise" + k.why()
			}
			if !k.must(o, k.eqV(o.st, k.ghost(o.st, "rpos"), pick(uint64(k.lead+4), uint64(k.lead)), 64)) {
				return "does not leave the reader behind the version and flags, or at the first child without them" + k.why()
			}
			zero := k.eqV(o.st, e.load(o.st, e.ptrN(p.Name, p.Path+".FullBox.Version"), byteT), e.intV(0, 8), 8)
			for i := 0; i < 3; i++ {
				zero = e.b.And(zero, k.eqV(o.st, e.load(o.st, e.ptrN(p.Name, fmt.Sprintf("%s.FullBox.Flags[%d]", p.Path, i)), byteT), e.intV(0, 8), 8))
			}
			if !k.must(o, zero) {
				return "version and flags are not zero afterwards" + k.why()
			}
			return done(k)
		})
	}
	for n := 0; n < 4; n++ {
		n := n
		add("meta", fmt.Sprintf("input of %d bytes", n), func(k *codec) string {
			b := k.plainBox("Meta", "meta")
			if b == nil {
				return "the type Meta is missing"
			}
			return k.refuses(b, k.symBits(8*n, k.fresh("in")), k.e.b.T, n, 0, "")
		})
	}
	// hdlr: the name is counted (QuickTime) or ends with NUL or with the box
	hdlr := func(k *codec, name []*B, counted string) string {
		e := k.e
		b := k.plainBox("Hdlr", "hdlr")
		if b == nil {
			return "the type Hdlr is missing"
		}
		pre := k.symBits(32, k.fresh("pre"))
		if counted == "no" {
			pre = k.konstBits(32, 0)
		}
		bits := append(append(k.konstBits(32, 0), pre...), k.symBits(128, k.fresh("rest"))...)
		bits = append(bits, name...)
		n := len(name) / 8
		o, bad, p := k.unmarshal(b, bits, e.b.T, 24+n, 3)
		if bad != "" {
			return bad
		}
		if k.failing(o, 1) != e.b.F {
			return "Unmarshal may return an error" + k.why()
		}
		if !k.must(o, k.eqV(o.st, o.vals[0], e.intV(uint64(24+n), 64), 64)) || !k.must(o, k.eqV(o.st, k.ghost(o.st, "rpos"), e.intV(uint64(k.lead+24+n), 64), 64)) {
			return "does not consume the whole payload" + k.why()
		}
		got := k.loadField(o.st, p, b.named, "Name")
		if got == nil {
			return "Hdlr has no Name"
		}
		bs := k.bytes(name)
		pascal := e.b.F
		if n >= 2 {
			pascal = e.b.And(e.b.Not(k.isConst(pre, 0)), k.isConst(name[:8], uint64(n-1)))
			if n-1 > 255 {
				pascal = e.b.F
			}
			if e.b.And(pascal, e.b.Not(k.isStr(o.st, got, bs[1:]))) != e.b.F {
				return "a counted name is not the bytes behind its count" + k.why()
			}
		}
		c := e.b.Not(pascal) // no NUL so far
		for i := 0; i <= n; i++ {
			here := c
			if i < n {
				nul := k.isConst(name[8*i:8*i+8], 0)
				here = e.b.And(c, nul)
				c = e.b.And(c, e.b.Not(nul))
			}
			if e.b.And(here, e.b.Not(k.isStr(o.st, got, bs[:i]))) != e.b.F {
				return fmt.Sprintf("a name that is not counted and ends after %d bytes is decoded differently", i) + k.why()
			}
		}
		return done(k)
	}
	for _, n := range []int{0, 1, 2, 3, 4, 6} {
		n := n
		add("hdlr", fmt.Sprintf("name of %d bytes", n), func(k *codec) string { return hdlr(k, k.symBits(8*n, k.fresh("name")), "") })
	}
	for _, n := range []int{17, 128, 255, 256, 257} {
		for _, first := range []uint64{uint64(n-1) & 255, 'a', uint64(n) & 255} {
			n, first := n, first
			add("hdlr", fmt.Sprintf("name of %d bytes starting with %#02x", n, first), func(k *codec) string {
				name := k.konstBits(8, first)
				for i := 1; i < n; i++ {
					name = append(name, k.konstBits(8, uint64('a'+i%20))...)
				}
				return hdlr(k, name, "")
			})
		}
	}
	for _, n := range []int{1, 5} {
		n := n
		add("hdlr", fmt.Sprintf("name of %d bytes beyond the end of the input", n), func(k *codec) string {
			b := k.plainBox("Hdlr", "hdlr")
			if b == nil {
				return "the type Hdlr is missing"
			}
			bits := append(k.konstBits(32, 0), k.symBits(160+8*(n-1), k.fresh("in"))...)
			return k.refuses(b, bits, k.e.b.T, 24+n, 0, "")
		})
	}
	// avcC: the part for high profiles only with these
	for _, high := range []bool{false, true} {
		high := high
		add("avcC", fmt.Sprintf("writing with high profile fields: %v, any profile", high), func(k *codec) string {
			e := k.e
			t := goType(k.r, "AVCDecoderConfiguration")
			if t == nil {
				return "the type AVCDecoderConfiguration is missing"
			}
			b := k.realBox(t.(*types.Named), "avcC", nil)
			b.ctx = k.context(nil)
			prof := k.symBits(8, k.fresh("profile"))
			set := func(st *State, p *Node, f string, v *V) {
				e.store(st, e.ptrN(p.Name, p.Path+"."+f), fieldType(t, f), v, e.b.T)
			}
			prep := b.prep
			b.prep = func(st *State, p *Node) {
				if prep != nil {
					prep(st, p)
				}
				for _, f := range []string{"ConfigurationVersion", "ProfileCompatibility", "Level", "NumOfSequenceParameterSets", "NumOfPictureParameterSets", "NumOfSequenceParameterSetExt"} {
					set(st, p, f, e.intV(0, 8))
				}
				for _, f := range []string{"SequenceParameterSets", "PictureParameterSets", "SequenceParameterSetsExt"} {
					set(st, p, f, e.nilV())
				}
				set(st, p, "Profile", e.v(e.bvN(prof)))
				set(st, p, "HighProfileFieldsEnabled", e.boolV(e.b.Bool(high)))
			}
			o, bad := k.tryMarshal(b)
			if bad != "" {
				return bad
			}
			ok := e.b.F
			for _, x := range []uint64{100, 110, 122, 144} {
				ok = e.b.Or(ok, k.isConst(revBits(prof), x))
			}
			want := e.b.F
			if high {
				want = e.b.Not(ok)
			}
			if k.failing(o, 1) != want {
				return "fails for other profiles than those without these fields" + k.why()
			}
			return done(k)
		})
	}
	// emsg version 1: strings up to their NUL, inside the payload
	for n := 0; n <= 6; n++ {
		n := n
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				i, j := i, j
				add("emsg", fmt.Sprintf("version 1, %d bytes behind the fixed part, terminators %d and %d", n, i, j), func(k *codec) string {
					e := k.e
					b := k.plainBox("Emsg", "emsg")
					if b == nil {
						return "the type Emsg is missing"
					}
					var in []*B
					here := e.b.T
					for x := 0; x < n; x++ {
						if x == i || x == j {
							in = append(in, k.konstBits(8, 0)...)
							continue
						}
						c := k.symBits(8, k.fresh("in"))
						if x < j {
							here = e.b.And(here, e.b.Not(k.isConst(c, 0)))
						}
						in = append(in, c...)
					}
					bits := append(k.konstBits(32, 1<<24), k.symBits(160, k.fresh("fixed"))...)
					o, bad, p := k.unmarshal(b, append(bits, in...), here, 24+n, 0)
					if bad != "" {
						return bad
					}
					bs := k.bytes(in)
					s := k.isStr(o.st, k.loadField(o.st, p, b.named, "SchemeIdUri"), bs[:i])
					v := k.isStr(o.st, k.loadField(o.st, p, b.named, "Value"), bs[i+1:j])
					d := k.isStr(o.st, k.loadField(o.st, p, b.named, "MessageData"), bs[j+1:])
					if e.b.And(here, e.b.Not(e.b.And(s, e.b.And(v, d)))) != e.b.F {
						return "scheme, value and data are not the bytes between the terminators" + k.why()
					}
					if e.b.And(here, k.failing(o, 1)) != e.b.F {
						return "is refused although both strings are terminated" + k.why()
					}
					if e.b.And(here, e.b.Not(k.eqV(o.st, o.vals[0], e.intV(uint64(24+n), 64), 64))) != e.b.F {
						return "does not report the whole payload" + k.why()
					}
					return done(k)
				})
			}
		}
		add("emsg", fmt.Sprintf("version 1, strings not terminated within the payload (%d bytes left)", n), func(k *codec) string {
			b := k.plainBox("Emsg", "emsg")
			if b == nil {
				return "the type Emsg is missing"
			}
			bits := append(k.konstBits(32, 1<<24), k.symBits(160, k.fresh("fixed"))...)
			for i := 0; i < n; i++ {
				bits = append(bits, k.konstBits(8, uint64('a'+i))...)
			}
			bits = append(bits, k.konstBits(32, 0)...)
			return k.refuses(b, bits, k.e.b.T, 24+n, 0, "")
		})
	}
	// items of metadata with keys
	for _, id := range []uint64{1, 2, 256, 0x01020304} {
		for _, d := range []int64{0, 5, -1} {
			id, count := id, int64(id)+d
			if count < 0 {
				continue
			}
			add("item", fmt.Sprintf("number %d of %d", id, count), func(k *codec) string {
				e := k.e
				code := string([]byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)})
				t := goType(k.r, "Item")
				if t == nil {
					return "the type Item is missing"
				}
				g := &bgen{r: k.r, k: k, ctx: map[string]uint64{}}
				var err error
				if g.l, err = parseLayout(layoutText); err != nil {
					return err.Error()
				}
				v := &benv{t: "Item", num: map[string]uint64{}, str: map[string]string{}, limit: -1}
				v.root = v
				g.free = 1
				fs := g.fields("Item", t, v)
				if g.err != "" {
					return g.err
				}
				b := k.realBox(t.(*types.Named), code, fs)
				b.ctx = k.context(map[string]uint64{"UnderIlst": 1, "QuickTimeKeysMetaEntryCount": uint64(count)})
				if id <= uint64(count) {
					return k.roundTrip(b, true)
				}
				if r := k.refusesEnc(b, "ErrBoxInfoNotFound"); r != "" {
					return r
				}
				_ = e
				return k.refuses(b, b.bits, b.pc, len(b.bits)/8, 0, "ErrBoxInfoNotFound")
			})
		}
	}
	// a box made for its type carries that type
	l, err := parseLayout(layoutText)
	if err != nil {
		c.Bad("table", "-", "%v", err)
		return nil
	}
	done2 := map[string]bool{}
	for _, r := range l.Regs {
		r := r
		if done2[r.Code+r.Target] {
			continue
		}
		done2[r.Code+r.Target] = true
		add("new", fmt.Sprintf("%q (%s)", r.Code, r.Type), func(k *codec) string {
			e := k.e
			g := &bgen{l: l, r: k.r}
			g.box(r)
			st := e.newState()
			st.pc = e.b.T
			k.undec, k.panics = nil, nil
			fn := e.r.Method("", "BoxType", "New")
			if fn == nil {
				return "BoxType.New is missing"
			}
			e.steps = 0
			e.Events = nil
			v, end := e.joinRets(e.Run(fn, st, []*V{k.typeV(r.Code), k.context(g.ctx)}, nil, nil, k.fresh("new")+"/"))
			if end == nil || v == nil || v.single() == nil || v.single().Op != "tuple" {
				return "New never returns" + k.why()
			}
			o := &outcome{st: end, vals: v.single().Elems}
			if k.failing(o, 1) != e.b.F {
				return "New may return an error" + k.why()
			}
			box := e.under(o.vals[0], end.pc).single()
			if box == nil || box.Op != "iface" {
				return "New returns no determined structure" + k.why()
			}
			if n, ok := deref(box.T).(*types.Named); !ok || n.Obj().Name() != r.Type {
				return fmt.Sprintf("New returns a %s", box.T)
			}
			gt := e.r.Prog.LookupMethod(box.T, k.r.Root.Pkg, "GetType")
			if gt == nil {
				return "the structure has no GetType"
			}
			ty, end2 := e.joinRets(e.Run(gt, end, []*V{box.Elems[0]}, nil, nil, k.fresh("type")+"/"))
			if end2 == nil || ty == nil {
				return "GetType never returns" + k.why()
			}
			same := e.b.F
			for _, a := range ty.alts {
				same = e.b.Or(same, e.b.And(a.g, e.cmp(end2, token.EQL, a.n, k.typeV(r.Code).single(), k.r.Root.Pkg.Scope().Lookup("BoxType").Type(), 0, false, false)))
			}
			if e.b.And(end2.pc, e.b.Not(same)) != e.b.F {
				return "GetType of the new structure is another type" + k.why()
			}
			return done(k)
		})
	}
	return out
}
