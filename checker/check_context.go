package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// ctxVals is a Context as one value per field.
type ctxVals map[string]*V

var ctxFlags = []string{"IsQuickTimeCompatible", "UnderWave", "UnderIlst", "UnderIlstMeta", "UnderIlstFreeMeta", "UnderUdta"}

const ctxCount = "QuickTimeKeysMetaEntryCount"

func (t *trav) ctxOf(st *State, info *V) ctxVals {
	r := ctxVals{}
	for _, n := range append([]string{ctxCount}, ctxFlags...) {
		r[n] = t.f(st, info, n)
	}
	return r
}

func (e *Eng) ite(g *B, x, y *V, pc *B) *V {
	var as []alt
	for _, a := range x.alts {
		as = append(as, alt{e.b.And(a.g, g), a.n})
	}
	for _, a := range y.alts {
		as = append(as, alt{e.b.And(a.g, e.b.Not(g)), a.n})
	}
	return e.norm(as, pc)
}

// below gives the context of the boxes directly below a box of the given type and context.
func (t *trav) below(p ctxVals, typ *V, root bool) ctxVals {
	e, b := t.e, t.e.b
	r := ctxVals{}
	for k, v := range p {
		r[k] = v
	}
	or := func(name string, g *B) {
		r[name] = e.boolV(b.Or(e.toB(p[name]), g))
	}
	meta := t.metaAtom(typ)
	item := b.And(meta, b.And(e.toB(p["UnderIlst"]), b.Not(e.toB(p["UnderIlstMeta"]))))
	or("UnderWave", t.typeIs(typ, "wave"))
	or("UnderIlst", t.typeIs(typ, "ilst"))
	or("UnderUdta", t.typeIs(typ, "udta"))
	or("UnderIlstMeta", item)
	or("UnderIlstFreeMeta", b.And(item, t.typeIs(typ, "----")))
	return r
}

func (t *trav) metaAtom(typ *V) *B {
	b := t.e.b
	m := b.F
	for _, a := range typ.alts {
		m = b.Or(m, b.And(a.g, t.isMeta(a.n)))
	}
	return m
}

// facts about the table of item types that the atom above does not carry (decided by R07).
func (t *trav) metaFacts(typ *V) *B {
	b := t.e.b
	m := t.metaAtom(typ)
	other := b.Or(t.typeIs(typ, "wave"), b.Or(t.typeIs(typ, "ilst"), t.typeIs(typ, "udta")))
	return b.And(b.Not(b.And(m, other)), b.Or(m, b.Not(t.typeIs(typ, "----"))))
}

func (t *trav) sameCtx(key string, vi *visit, want ctxVals, facts *B) {
	e, b := t.e, t.e.b
	got := t.ctxOf(vi.st, vi.info)
	pc := b.And(vi.pc, facts)
	for _, n := range append([]string{ctxCount}, ctxFlags...) {
		if got[n] == nil || want[n] == nil {
			t.c.Notes = append(t.c.Notes, "Context has no field "+n)
			continue
		}
		if n == ctxCount {
			t.must(key+":"+n, vi.pos, e.sameV(got[n], want[n], pc), "the handler of the %s gets %s = %s, must be %s", key, n, got[n], want[n])
			continue
		}
		d := b.And(pc, b.Xor(e.toB(got[n]), e.toB(want[n])))
		t.must(key+":"+n, vi.pos, d == b.F, "the handler of the %s gets a wrong %s when%s", key, n, b.Witness(d))
	}
}

// own gives the context of the box itself: that of its surroundings and what its payload says.
func (t *trav) own(key string, p ctxVals, typ *V, root bool, decs []decEv, brands []brandEv, payload, psize *V, vi *visit) ctxVals {
	e, b := t.e, t.e.b
	r := ctxVals{}
	for k, v := range p {
		r[k] = v
	}
	isKeys := b.And(t.typeIs(typ, "keys"), vi.pc)
	found := false
	for _, d := range decs {
		if d.any || d.count == nil || b.And(d.pc, isKeys) == b.F {
			continue
		}
		found = true
		t.must(key+":keys-decode", d.pos, e.sameV(d.at, payload, d.pc) && e.sameV(d.size, psize, d.pc) && b.Implies(isKeys, d.pc),
			"the entry count of a keys box is read at %s, must be its payload at %s", d.at, payload)
		n := e.map1(d.count, isKeys, func(n *Node) *V { return e.v(e.convInt(n, 32, false, 64)) })
		ni := e.map1(d.count, isKeys, func(n *Node) *V { return e.v(e.convInt(n, 32, true, 64)) })
		got := t.f(vi.st, vi.info, ctxCount)
		if e.sameV(got, ni, isKeys) {
			n = ni // EntryCount of a signed type
		}
		r[ctxCount] = e.ite(isKeys, n, p[ctxCount], vi.pc)
	}
	if !found && isKeys != b.F {
		t.c.Bad(key+":keys", t.r.Pos(vi.pos), "the entry count of a keys box is not taken over into the context")
	}
	isFtyp := b.And(t.typeIs(typ, "ftyp"), vi.pc)
	if root && isFtyp != b.F {
		ok := false
		for _, x := range brands {
			if b.And(x.pc, isFtyp) == b.F {
				continue
			}
			for _, d := range decs {
				if d.obj != nil && d.typName == "Ftyp" && x.recv.single() == d.obj {
					ok = true
					t.must(key+":ftyp-decode", d.pos, e.sameV(d.at, payload, d.pc) && e.sameV(d.size, psize, d.pc) && b.Implies(isFtyp, d.pc),
						"the brands of an ftyp box are read at %s, must be its payload at %s", d.at, payload)
				}
			}
			r["IsQuickTimeCompatible"] = e.boolV(b.Or(e.toB(p["IsQuickTimeCompatible"]), b.And(isFtyp, x.b)))
		}
		t.must(key+":ftyp", vi.pos, ok, "the compatible brands of a root ftyp box are not looked up for \"qt  \"")
	}
	return r
}

func checkContext(c *Check) {
	c.Rule = "the context handed to the handler for every box (root boxes, children, siblings; interpreted with unknown boxes) equals the one defined by its ancestors, the file type box and the preceding keys box"
	c.Assume = append(c.Assume, "which types are iTunes items is decided by R07", "the file type box precedes the boxes it governs")
	t := newTrav(c)
	if t == nil {
		return
	}
	e, b := t.e, t.e.b
	e.Peel = 3
	bi, vi, _, _ := t.oneBox()
	if vi == nil {
		return
	}
	st0 := e.newState()
	btT := lookupType(t.r, "BoxType")
	orig := e.load(st0, e.ptrOf(st0, bi.single()), t.biT)
	p := t.ctxOf(st0, orig)
	typ := e.get(st0, bi, t.biT, "Type")
	pp := func(o *V, st *State) (*V, *V) {
		off, size, hs := t.f(st, o, "Offset"), t.f(st, o, "Size"), t.f(st, o, "HeaderSize")
		return e.add64(st, off, hs), e.sub64(st, size, hs)
	}
	pay, ps := pp(orig, st0)
	want := t.own("root box", p, typ, true, t.decs, t.brand, pay, ps, vi)
	t.sameCtx("root box", vi, want, b.T)
	_ = btT
	// children
	vi0 := *vi
	if cl, ok := t.closure(&vi0, "Expand"); ok {
		parent := t.ctxOf(vi0.st, vi0.info)
		t.reset()
		s0 := vi0.st.clone()
		s0.ghost["pos"] = e.symVal("anywhere", types.Typ[types.Uint64])
		t.runClosure(cl, s0, "Expand/", e.symVal("params", cl.Fn.Params[0].Type()))
		cur := t.below(parent, typ, true)
		facts := t.metaFacts(typ)
		n := 0
		for i := range t.visits {
			w := &t.visits[i]
			if i >= 3 {
				break
			}
			ct := t.f(w.st, w.info, "Type")
			key := fmt.Sprintf("child %d", i+1)
			pay, ps := pp(w.info, w.st)
			own := t.own(key, cur, ct, false, t.between(i), nil, pay, ps, w)
			t.sameCtx(key, w, own, facts)
			n++
			// what later siblings see
			nx := ctxVals{}
			for k, v := range cur {
				nx[k] = v
			}
			nx[ctxCount] = e.ite(b.And(t.typeIs(ct, "keys"), w.pc), own[ctxCount], cur[ctxCount], b.T)
			cur = nx
		}
		t.c.Count("children compared", n)
	}
	c.AtLeast("children compared", 3)
	// root siblings
	fn := t.r.Root.Func("ReadBoxStructure")
	if fn == nil {
		c.Bad("anchor:ReadBoxStructure", "-", "the exported function ReadBoxStructure is expected")
		return
	}
	t.reset()
	t.budget = 3
	args := e.symArgs(fn)
	args[0], args[1] = t.rdV, t.handler
	e.joinRets(e.Run(fn, e.newState(), args, nil, nil, "root/"))
	t.budget = -1
	zero := ctxVals{ctxCount: e.intV(0, 64)}
	for _, n := range ctxFlags {
		zero[n] = e.boolV(b.F)
	}
	cur := zero
	for i := range t.visits {
		w := &t.visits[i]
		ct := t.f(w.st, w.info, "Type")
		key := fmt.Sprintf("root box %d", i+1)
		pay, ps := pp(w.info, w.st)
		own := t.own(key, cur, ct, true, t.between(i), t.brandsOf(i), pay, ps, w)
		t.sameCtx(key, w, own, b.T)
		nx := ctxVals{}
		for k, v := range cur {
			nx[k] = v
		}
		nx["IsQuickTimeCompatible"] = own["IsQuickTimeCompatible"]
		nx[ctxCount] = e.ite(b.And(t.typeIs(ct, "keys"), w.pc), own[ctxCount], cur[ctxCount], b.T)
		cur = nx
	}
	c.Count("root boxes compared", len(t.visits))
	c.AtLeast("root boxes compared", 3)
	t.hasBrand()
	t.extractContext()
	for f := range e.Visited {
		c.Unit(t.r.Name(f))
	}
}

// between selects what was decoded between the handler calls i-1 and i.
func (t *trav) between(i int) []decEv {
	lo := 0
	if i > 0 {
		lo = t.visits[i-1].nDec
	}
	return t.decs[lo:t.visits[i].nDec]
}

func (t *trav) brandsOf(i int) []brandEv {
	lo := 0
	if i > 0 {
		lo = t.visits[i-1].nBrand
	}
	return t.brand[lo:t.visits[i].nBrand]
}

// hasBrand: HasCompatibleBrand is membership, for lists of up to three brands.
func (t *trav) hasBrand() {
	e, b, c := t.e, t.e.b, t.c
	fn := t.r.Method("", "Ftyp", "HasCompatibleBrand")
	ft := lookupType(t.r, "Ftyp")
	if fn == nil || ft == nil {
		c.Notes = append(c.Notes, "no method Ftyp.HasCompatibleBrand")
		return
	}
	e.OnCall = nil
	_, lt := e.pathOf(ft, "CompatibleBrands")
	if lt == nil {
		return
	}
	elT := elemType(lt, 0)
	for n := 0; n <= 3; n++ {
		st := e.newState()
		args := e.symArgs(fn)
		qt := Node{Op: "array", T: fn.Params[1].Type()}
		for k := 0; k < 4; k++ {
			qt.Elems = append(qt.Elems, e.intV(uint64("qt  "[k]), 8))
		}
		args[1] = e.v(e.mk(qt))
		var els []*V
		want := b.F
		for i := 0; i < n; i++ {
			el := e.symVal(fmt.Sprintf("brand%d", i), elT)
			els = append(els, el)
			eq := b.T
			br := el
			if s, ok := elT.Underlying().(*types.Struct); ok {
				br = e.elem(st, el.single(), 0, s.Field(0).Name(), s.Field(0).Type())
			}
			for k := 0; k < 4; k++ {
				x := e.elem(st, br.single(), k, fmt.Sprintf("[%d]", k), types.Typ[types.Uint8])
				y := e.elem(st, args[1].single(), k, fmt.Sprintf("[%d]", k), types.Typ[types.Uint8])
				eq = b.And(eq, e.eqInt(x.single(), y.single(), 8))
			}
			want = b.Or(want, eq)
		}
		e.setSlice(st, args[0], ft, "CompatibleBrands", els)
		v, s := e.runTop(fn, st, args)
		if s == nil || v == nil {
			c.Notes = append(c.Notes, "HasCompatibleBrand: no result")
			return
		}
		d := b.And(s.pc, b.Xor(e.toB(v), want))
		t.must("HasCompatibleBrand", fn.Pos(), d == b.F, "HasCompatibleBrand is wrong for a list of %d brands when%s", n, b.Witness(d))
	}
	e.OnCall = t.hook
}

// setSlice makes a field of the pointed-to struct a slice of the given elements.
func (e *Eng) setSlice(st *State, p *V, t types.Type, name string, els []*V) *Node {
	path, ft := e.pathOf(t, name)
	obj := e.freshName("els") + "\x00"
	at := types.NewArray(elemType(ft, 0), int64(len(els)))
	for i, el := range els {
		e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), at.Elem(), el, e.b.T)
	}
	sl := e.mk(Node{Op: "slice", Args: []*Node{e.ptrN(obj, "")}, Elems: []*V{e.intV(uint64(len(els)), 64)}, T: types.NewSlice(at.Elem())})
	q := e.ptrOf(st, p.single())
	e.store(st, e.ptrN(q.Name, q.Path+path), ft, e.v(sl), e.b.T)
	return sl
}

// extractContext: ExtractBoxesWithPayload decodes each box at its payload in its own context.
func (t *trav) extractContext() {
	e, c := t.e, t.c
	fn := t.r.Root.Func("ExtractBoxesWithPayload")
	if fn == nil {
		c.Bad("anchor:ExtractBoxesWithPayload", "-", "the exported function ExtractBoxesWithPayload is expected")
		return
	}
	t.reset()
	for n := 1; n <= 2; n++ {
		var infos []*V
		var slice *Node
		e.OnCall = func(cc *CallCtx) (*V, bool) {
			if rootFunc(t.r, cc.Fn, "ExtractBoxes") {
				var els []*V
				infos = nil
				for i := 0; i < n; i++ {
					p := e.symVal(fmt.Sprintf("box%d", i), types.NewPointer(t.biT))
					infos = append(infos, p)
					els = append(els, p)
				}
				obj := e.freshName("found") + "\x00"
				at := types.NewArray(types.NewPointer(t.biT), int64(n))
				for i, el := range els {
					e.store(cc.st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), at.Elem(), el, e.b.T)
				}
				slice = e.mk(Node{Op: "slice", Args: []*Node{e.ptrN(obj, "")}, Elems: []*V{e.intV(uint64(n), 64)}, T: types.NewSlice(at.Elem())})
				cc.st.ghost["pos"] = e.symVal("anywhere", types.Typ[types.Uint64])
				return e.tuple(e.v(slice), e.nilV()), true
			}
			return t.hook(cc)
		}
		t.reset()
		args := e.symArgs(fn)
		args[0] = t.rdV
		ret, end := e.joinRets(e.Run(fn, e.newState(), args, nil, nil, fmt.Sprintf("extract%d/", n)))
		e.OnCall = t.hook
		if end == nil || slice == nil {
			c.Notes = append(c.Notes, "ExtractBoxesWithPayload: no use of ExtractBoxes recognised")
			return
		}
		if len(t.decs) != n {
			c.Bad("extract-decode", t.r.Pos(fn.Pos()), "ExtractBoxesWithPayload decodes %d payloads for %d boxes", len(t.decs), n)
			return
		}
		for i, d := range t.decs {
			p := infos[i]
			off, size, hs := e.get(end, p, t.biT, "Offset"), e.get(end, p, t.biT, "Size"), e.get(end, p, t.biT, "HeaderSize")
			t.must("extract-position", d.pos, e.sameV(d.at, e.add64(end, off, hs), d.pc) && e.sameV(d.size, e.sub64(end, size, hs), d.pc), "an extracted box is decoded at %s", d.at)
			t.must("extract-context", d.pos, e.sameV(d.ctx, e.get(end, p, t.biT, "Context"), d.pc), "an extracted box is decoded in the context %s instead of its own", d.ctx)
			if d.any {
				t.must("extract-type", d.pos, e.sameV(d.typ, e.get(end, p, t.biT, "Type"), d.pc), "an extracted box is decoded as %s", d.typ)
			}
		}
		_ = ret
		c.Count("extracted boxes", n)
	}
	_ = token.NoPos
}
