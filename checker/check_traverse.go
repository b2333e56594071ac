package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["T01"] = checkTraversal
	checks["T03"] = checkContext
	checks["T04"] = checkPaths
}

// trav interprets the traversal functions with an unknown reader, box and handler.
type trav struct {
	c       *Check
	e       *Eng
	r       *Repo
	biT     types.Type // BoxInfo
	hT      types.Type // ReadHandle
	ctxT    types.Type
	rd      *stream
	rdV     *V
	handler *V
	visits  []visit
	heads   []headEv
	decs    []decEv
	copies  []copyEv
	brand   []brandEv
	brandOK bool
	budget  int // boxes before the end of the input; negative: unknown
	herr    bool
}

type visit struct {
	st           *State
	pc           *B
	handle       *V // pointer
	info         *V // BoxInfo
	path         *V
	params       *V
	val          *V
	pos          token.Pos
	nDec, nBrand int
	err          *V
}

type brandEv struct {
	pc, b *B
	recv  *V
	pos   token.Pos
}

type headEv struct {
	pc  *B
	at  *V
	bi  *V
	in  token.Pos
	err *V
}

type decEv struct {
	pc                       *B
	any                      bool
	at, typ, size, ctx, n, b *V
	dst                      *V
	pos                      token.Pos
	nested                   bool // decoded while reading a child
	count                    *V   // EntryCount of a decoded keys box
	obj                      *Node
	typName                  string
}

type copyEv struct {
	pc       *B
	w, at, n *V
	pos      token.Pos
}

func newTrav(c *Check) *trav {
	t := &trav{c: c, e: newEng(c.R), r: c.R, budget: -1}
	t.biT, t.hT, t.ctxT = lookupType(c.R, "BoxInfo"), lookupType(c.R, "ReadHandle"), lookupType(c.R, "Context")
	if t.biT == nil || t.hT == nil || t.ctxT == nil {
		c.Bad("anchor", "-", "the exported types BoxInfo, ReadHandle and Context are expected")
		return nil
	}
	t.e.b.SymMajor = true
	t.e.initGlobals()
	t.e.Unroll = 5
	t.e.Peel = 2
	t.e.Mark = func() func() {
		n := [...]int{len(t.visits), len(t.heads), len(t.decs), len(t.copies), len(t.brand)}
		return func() {
			t.visits, t.heads, t.decs = t.visits[:n[0]], t.heads[:n[1]], t.decs[:n[2]]
			t.copies, t.brand = t.copies[:n[3]], t.brand[:n[4]]
		}
	}
	rT := types.Type(types.NewInterfaceType(nil, nil))
	if f := c.R.Root.Func("ReadBoxStructure"); f != nil {
		rT = f.Params[0].Type()
	}
	t.rdV = t.e.symVal("r", rT)
	t.rd = &stream{"pos", t.rdV.single()}
	t.handler = t.e.symVal("handler", lookupType(c.R, "ReadHandler"))
	return t
}

func (t *trav) hook(cc *CallCtx) (*V, bool) {
	e, st := t.e, cc.st
	at := e.site(cc.fr, cc.in)
	switch {
	case cc.Name == "dyn:handler":
		h := cc.Args[0]
		v := visit{pc: st.pc, handle: h, pos: cc.in.Pos(), nDec: len(t.decs), nBrand: len(t.brand)}
		v.info = e.get(st, h, t.hT, "BoxInfo")
		v.path = e.get(st, h, t.hT, "Path")
		v.params = e.get(st, h, t.hT, "Params")
		v.st = st.clone()
		v.val = e.symVal("val@"+at, types.NewInterfaceType(nil, nil))
		v.err = e.nilV()
		if t.herr {
			v.err = e.v(e.mk(Node{Op: "sym", Name: "handler error@" + at, T: types.Universe.Lookup("error").Type()}))
		}
		t.visits = append(t.visits, v)
		e.havoc(st, h, map[string]bool{})
		st.ghost["pos"] = e.symVal("pos after handler@"+at, types.Typ[types.Uint64])
		return e.tuple(v.val, v.err), true
	case rootFunc(t.r, cc.Fn, "ReadBoxInfo") && t.rd.is(cc.Args[0]):
		p := e.object(cc, "child@"+at)
		path, ot := e.pathOf(t.biT, "Offset")
		off := e.pos(st, t.rd)
		e.store(st, e.ptrN(p.Name, path), ot, off, e.b.T)
		if cp, ct := e.pathOf(t.biT, "Context"); ct != nil {
			e.store(st, e.ptrN(p.Name, cp), ct, e.zeroVal(ct), e.b.T)
		}
		hs := e.get(st, e.v(p), t.biT, "HeaderSize")
		st.ghost["pos"] = e.add64(st, off, hs)
		he := headEv{pc: st.pc, at: off, bi: e.v(p), in: cc.in.Pos(), err: e.nilV()}
		res := e.v(p)
		if t.budget >= 0 {
			n := 0
			for _, h := range t.heads {
				if h.bi != nil {
					n++
				}
			}
			if n >= t.budget {
				he.err = e.v(e.mk(Node{Op: "sym", Name: "g:io.EOF", T: types.Universe.Lookup("error").Type()}))
				res = e.nilV()
				he.bi = nil
			}
		}
		t.heads = append(t.heads, he)
		return e.tuple(res, he.err), true
	case rootFunc(t.r, cc.Fn, "UnmarshalAny") && t.rd.is(cc.Args[0]):
		d := decEv{pc: st.pc, any: true, nested: len(t.heads) > 0, at: e.pos(st, t.rd), typ: cc.Args[1], size: cc.Args[2], ctx: cc.Args[3], pos: cc.in.Pos(),
			n: e.symVal("n@"+at, types.Typ[types.Uint64]), b: e.symVal("box@"+at, cc.Fn.Signature.Results().At(0).Type())}
		t.decs = append(t.decs, d)
		st.ghost["pos"] = e.add64(st, d.at, d.n) // contract of Unmarshal (R05)
		return e.tuple(d.b, d.n, e.nilV()), true
	case rootFunc(t.r, cc.Fn, "Unmarshal") && t.rd.is(cc.Args[0]):
		d := decEv{pc: st.pc, nested: len(t.heads) > 0, at: e.pos(st, t.rd), size: cc.Args[1], dst: cc.Args[2], ctx: cc.Args[3], pos: cc.in.Pos(),
			n: e.symVal("n@"+at, types.Typ[types.Uint64])}
		st.ghost["pos"] = e.add64(st, d.at, d.n)
		for _, a := range cc.Args[2].alts {
			if a.n.Op == "iface" {
				d.typName = typeName(deref(a.n.T))
				for _, q := range a.n.Elems[0].alts {
					if q.n.Op == "ptr" {
						e.havocPrefix(st, q.n.Name, q.n.Path)
						d.obj = q.n
						st.base[q.n.Name+q.n.Path+"*"] = "decoded@" + at
						if q.n.Path == "" {
							st.base[q.n.Name] = "decoded@" + at
						}
						if d.typName == "Keys" {
							d.count = e.get(st, e.v(q.n), deref(a.n.T), "EntryCount")
						}
					}
				}
			}
		}
		t.decs = append(t.decs, d)
		return e.tuple(d.n, e.nilV()), true
	case cc.Fn != nil && cc.Fn.Name() == "HasCompatibleBrand" && t.r.InRepo(cc.Fn) && len(cc.Args) == 2:
		if a := cc.Args[1].single(); a == nil || a.Op != "array" || !t.isCode(a, "qt  ") {
			t.brandOK = false
			return nil, false
		}
		t.brandOK = true
		v := e.b.Var("brand qt in ftyp@" + at)
		t.brand = append(t.brand, brandEv{st.pc, v, cc.Args[0], cc.in.Pos()})
		return e.boolV(v), true
	case rootFunc(t.r, cc.Fn, "IsIlstMetaBoxType"):
		return e.map1(cc.Args[0], st.pc, func(n *Node) *V { return e.boolV(t.isMeta(n)) }), true
	case cc.Name == "io.CopyN" && t.rd.is(cc.Args[1]):
		t.copies = append(t.copies, copyEv{st.pc, cc.Args[0], e.pos(st, t.rd), cc.Args[2], cc.in.Pos()})
		return e.streamCall(cc, t.rd)
	}
	return e.streamCall(cc, t.rd)
}

// isMeta: membership in the table of item types (decided by R07), as one atom per type value.
func (t *trav) isMeta(n *Node) *B { return t.e.b.Var("IsIlstMetaBoxType(" + n.String() + ")") }

func (t *trav) isCode(a *Node, s string) bool {
	for i, x := range a.Elems {
		n := x.single()
		if n == nil || n.Op != "int" || byte(n.C) != s[i] {
			return false
		}
	}
	return true
}

func (t *trav) reset() {
	t.visits, t.heads, t.decs, t.copies, t.brand = nil, nil, nil, nil, nil
	t.e.Events = nil
}

func (t *trav) typeIs(v *V, code string) *B {
	e := t.e
	r := e.b.F
	for _, a := range v.alts {
		k := a.g
		for i := 0; i < 4; i++ {
			el := e.elem(e.newState(), a.n, i, fmt.Sprintf("[%d]", i), types.Typ[types.Uint8])
			ck := e.b.F
			for _, x := range el.alts {
				ck = e.b.Or(ck, e.b.And(x.g, e.eqInt(x.n, e.intN(uint64(code[i]), 8), 8)))
			}
			k = e.b.And(k, ck)
		}
		r = e.b.Or(r, k)
	}
	return r
}

func (t *trav) f(st *State, v *V, name string) *V { return t.e.part(st, v, t.biT, name) }

func (t *trav) flag(st *State, v *V, name string) *B {
	x := t.e.part(st, v, t.biT, name)
	if x == nil {
		return t.e.b.F
	}
	return t.e.toB(x)
}

func (t *trav) must(key string, pos token.Pos, cond bool, format string, a ...interface{}) {
	if cond {
		t.c.OK("%s", key)
	} else {
		t.c.Bad(key, t.r.Pos(pos), format, a...)
	}
}

// single-box run: the state at the handler call, from which the closures are run separately.
func (t *trav) oneBox() (bi *V, vi *visit, ret *V, end *State) {
	e := t.e
	fn := t.r.Root.Func("ReadBoxStructureFromInternal")
	if fn == nil {
		t.c.Bad("anchor:ReadBoxStructureFromInternal", "-", "the exported function ReadBoxStructureFromInternal is expected")
		return
	}
	e.Success = true
	e.OnCall = t.hook
	t.reset()
	st := e.newState()
	args := e.symArgs(fn)
	args[0] = t.rdV
	args[1] = e.symVal("bi", fn.Params[1].Type())
	args[2] = t.handler
	bi = args[1]
	ret, end = e.joinRets(e.Run(fn, st, args, nil, nil, "box/"))
	if end == nil || ret == nil || len(t.visits) == 0 {
		t.c.Bad("handler-not-called", t.r.Pos(fn.Pos()), "ReadBoxStructureFromInternal never calls the handler")
		return nil, nil, nil, nil
	}
	if len(t.visits) > 1 {
		t.c.Bad("handler-twice", t.r.Pos(t.visits[1].pos), "the handler is called more than once for one box")
	}
	vi = &t.visits[0]
	return
}

func (t *trav) closure(vi *visit, name string) (*Node, bool) {
	v := t.e.get(vi.st, vi.handle, t.hT, name)
	if v == nil {
		return nil, false
	}
	n := v.single()
	if n == nil || (n.Op != "closure" && n.Op != "func") {
		return nil, false
	}
	return n, true
}

func (t *trav) runClosure(n *Node, st *State, path string, args ...*V) (*V, *State) {
	st.env = map[ssa.Value]*V{}
	return t.e.joinRets(t.e.Run(n.Fn, st, args, n.Elems, nil, path))
}

func checkTraversal(c *Check) {
	c.Rule = "the traversal functions, interpreted with an unknown reader, box and handler (any position left behind by the handler), always continue at the end of the box, decode and expand at the payload of the box, hand out its own values, and keep children inside their parent"
	c.Assume = append(c.Assume, "ReadBoxInfo reports the position of the header it reads and leaves the reader behind it (decided by W02)", "sizes are below 2^63 (B03)")
	t := newTrav(c)
	if t == nil {
		return
	}
	e, b := t.e, t.e.b
	bi, vi, ret, end := t.oneBox()
	if vi == nil {
		return
	}
	fn := t.r.Root.Func("ReadBoxStructureFromInternal")
	st := vi.st
	off, size, hs := e.get(st, bi, t.biT, "Offset"), e.get(st, bi, t.biT, "Size"), e.get(st, bi, t.biT, "HeaderSize")
	typ := e.get(st, bi, t.biT, "Type")
	payload := e.add64(st, off, hs)
	psize := e.sub64(st, size, hs)
	endPos := e.add64(st, off, size)
	// A. position afterwards
	t.must("end-of-box", fn.Pos(), e.sameV(e.pos(end, t.rd), endPos, end.pc),
		"after a box was handled the reader is at %s, must be at the end of the box whatever the handler did", e.pos(end, t.rd))
	// B. what the handler gets
	whole := e.load(st, e.ptrOf(st, bi.single()), t.biT)
	t.must("handle-info", vi.pos, e.sameV(vi.info, whole, vi.pc), "the handler gets another BoxInfo than that of the box")
	if pn := vi.path.single(); pn != nil {
		ln := e.lenOf(pn)
		okLen := ln.Op == "int" && ln.C == 1
		t.must("handle-path", vi.pos, okLen && e.sameV(e.load(st, e.sliceElem(st, pn, e.intN(0, 64)), lookupType(t.r, "BoxType")), typ, vi.pc),
			"the path of a root box handed to the handler is %s, must be its type alone", vi.path)
	}
	if len(fn.Params) > 3 {
		t.must("handle-params", vi.pos, e.sameV(vi.params, e.symVal("arg3", fn.Params[3].Type()), vi.pc), "the parameters handed to the handler are not those given")
	}
	// C. result
	rv := ret
	if n := ret.single(); n != nil && n.Op == "tuple" {
		rv = n.Elems[0]
	}
	t.must("result", fn.Pos(), e.sameV(rv, vi.val, end.pc), "the value of the handler is not returned")

	// D. ReadPayload
	var afterPayload *State
	var decoded decEv
	if cl, ok := t.closure(vi, "ReadPayload"); !ok {
		c.Bad("handle-ReadPayload", t.r.Pos(vi.pos), "the handler gets no ReadPayload function")
	} else {
		t.reset()
		s0 := vi.st.clone()
		s0.ghost["pos"] = e.symVal("anywhere", types.Typ[types.Uint64])
		v, s := t.runClosure(cl, s0, "ReadPayload/")
		t.payloadRead("ReadPayload", cl.Fn.Pos(), s, payload, psize, typ, vi)
		if s != nil && len(t.decs) == 1 {
			decoded = t.decs[0]
			afterPayload = s
			if n := v.single(); n != nil && n.Op == "tuple" && len(n.Elems) == 3 {
				t.must("ReadPayload-result", cl.Fn.Pos(), e.sameV(n.Elems[0], decoded.b, s.pc) && e.sameV(n.Elems[1], decoded.n, s.pc), "ReadPayload does not return the decoded box and its size")
			}
		}
	}
	// E. ReadData
	if cl, ok := t.closure(vi, "ReadData"); !ok {
		c.Bad("handle-ReadData", t.r.Pos(vi.pos), "the handler gets no ReadData function")
	} else {
		t.reset()
		s0 := vi.st.clone()
		s0.ghost["pos"] = e.symVal("anywhere", types.Typ[types.Uint64])
		w := e.symVal("w", cl.Fn.Params[0].Type())
		v, s := t.runClosure(cl, s0, "ReadData/", w)
		if s == nil || len(t.copies) == 0 {
			c.Notes = append(c.Notes, "the copying step of ReadData was not recognised")
		} else {
			cp := t.copies[0]
			t.must("ReadData", cp.pos, len(t.copies) == 1 && e.sameV(cp.at, payload, cp.pc) && e.sameV(cp.n, psize, cp.pc) && cp.pc == s.pc && ifaceSame(e, cp.w, w),
				"ReadData copies %s bytes from %s, must copy the whole payload (%s bytes from %s) to the given writer", cp.n, cp.at, psize, payload)
			if n := v.single(); n != nil && n.Op == "tuple" {
				t.must("ReadData-result", cl.Fn.Pos(), e.sameV(n.Elems[0], psize, s.pc), "ReadData reports %s bytes instead of %s", n.Elems[0], psize)
			}
		}
	}
	// F. Expand, directly and after ReadPayload
	cl, ok := t.closure(vi, "Expand")
	if !ok {
		c.Bad("handle-Expand", t.r.Pos(vi.pos), "the handler gets no Expand function")
		return
	}
	exp := func(name string, s0 *State, n *V) {
		known := []*V{}
		if n != nil {
			known = append(known, n)
		}
		t.reset()
		s0.ghost["pos"] = e.symVal("anywhere", types.Typ[types.Uint64])
		params := e.symVal("params", cl.Fn.Params[0].Type())
		v, s := t.runClosure(cl, s0, name+"/", params)
		if s == nil {
			c.Bad(name, t.r.Pos(cl.Fn.Pos()), "Expand never succeeds")
			return
		}
		if n == nil {
			t.payloadRead(name, cl.Fn.Pos(), s, payload, psize, typ, vi)
			if len(t.decs) == 0 {
				return
			}
			n = t.decs[0].n
		} else if len(t.decs) > 0 {
			t.c.Count("payload decoded again by Expand", 1)
		}
		for _, d := range t.decs {
			if !d.nested {
				known = append(known, d.n)
			}
		}
		first := e.add64(s, payload, n)
		atFirst := func(v *V, pc *B) bool {
			rest := pc
			for _, k := range known {
				for _, a := range v.alts {
					if e.sameV(e.v(a.n), e.add64(s, payload, k), b.T) {
						rest = b.And(rest, b.Not(a.g))
					}
				}
			}
			return rest == b.F
		}
		if len(t.heads) == 0 {
			c.Bad(name+"-children", t.r.Pos(cl.Fn.Pos()), "Expand never reads a child header")
			return
		}
		for i, h := range t.heads {
			if i == 0 {
				t.must(name+"-first-child", h.in, atFirst(h.at, h.pc), "the first child is read at %s, must be right behind the decoded fields at %s", h.at, first)
			} else if i == 1 && t.heads[0].bi != nil {
				prev := t.heads[0].bi
				nx := e.add64(s, t.heads[0].at, e.get(t.visitOf(prev, s), prev, t.biT, "Size"))
				t.must(name+"-next-child", h.in, e.sameV(h.at, nx, h.pc), "the next child is read at %s, must be at the end of the previous one at %s", h.at, nx)
			}
		}
		// G. children stay inside
		for i := range t.visits {
			w := &t.visits[i]
			co, cs := t.f(w.st, w.info, "Offset"), t.f(w.st, w.info, "Size")
			rest := e.sub64(w.st, endPos, co)
			cend := e.add64(w.st, co, cs)
			okIn := t.notLess(rest, cs, w.pc) || t.notLess(endPos, cend, w.pc)
			t.must(name+"-child-inside", w.pos, okIn, "a child is visited although it may end behind its parent: its size %s is not compared with the %s bytes left", cs, rest)
			// H. path and parameters
			if pn := w.path.single(); pn != nil {
				ln := e.lenOf(pn)
				btT := lookupType(t.r, "BoxType")
				good := ln.Op == "int" && ln.C == 2
				if good {
					good = e.sameV(e.load(w.st, e.sliceElem(w.st, pn, e.intN(0, 64)), btT), typ, w.pc) &&
						e.sameV(e.load(w.st, e.sliceElem(w.st, pn, e.intN(1, 64)), btT), t.f(w.st, w.info, "Type"), w.pc)
				}
				t.must(name+"-child-path", w.pos, good, "the path of a child is %s (length %s), must be the types of its ancestors and its own", w.path, ln)
			}
			t.must(name+"-child-params", w.pos, e.sameV(w.params, params, w.pc), "a child gets other parameters than those given to Expand")
		}
		// I/J. termination and leftovers
		rest := e.sub64(s, endPos, e.pos(s, t.rd))
		zero, small := b.F, b.F
		for _, a := range rest.alts {
			zero = b.Or(zero, b.And(a.g, e.eqInt(a.n, e.intN(0, 64), 64)))
			small = b.Or(small, b.And(a.g, e.ltInt(a.n, e.intN(8, 64), 64, false)))
		}
		qt := t.flag(vi.st, vi.info, "IsQuickTimeCompatible")
		t.must(name+"-leftover", cl.Fn.Pos(), b.Implies(s.pc, b.Or(zero, qt)), "Expand succeeds although bytes of the container are left over and the file is not QuickTime compatible, e.g. when%s", b.Witness(b.And(s.pc, b.Not(b.Or(zero, qt)))))
		t.must(name+"-all-children", cl.Fn.Pos(), b.Implies(s.pc, small), "Expand succeeds although a further child header fits into the container")
		t.must(name+"-quicktime-leftover", cl.Fn.Pos(), b.And(s.pc, b.And(qt, b.Not(zero))) != b.F, "Expand rejects left-over bytes in QuickTime files, where they are allowed")
		t.c.Count("children visited", len(t.visits))
		// values in order
		_ = v
	}
	exp("Expand", vi.st.clone(), nil)
	if afterPayload != nil {
		exp("Expand after ReadPayload", afterPayload.clone(), decoded.n)
	}
	c.AtLeast("children visited", 2)
	t.rootSequence()
	t.handlerErrors()
	for f := range e.Visited {
		c.Unit(t.r.Name(f))
	}
}

// visitOf: the state in which the fields of a child are as they were when it was visited.
func (t *trav) visitOf(bi *V, dflt *State) *State {
	for i := range t.visits {
		if t.e.sameV(t.e.get(t.visits[i].st, bi, t.biT, "Type"), t.f(t.visits[i].st, t.visits[i].info, "Type"), t.visits[i].pc) {
			return t.visits[i].st
		}
	}
	return dflt
}

// notLess: a >= b is known when pc holds.
func (t *trav) notLess(x, y *V, pc *B) bool {
	b := t.e.b
	lt := b.F
	lts := b.F
	for _, p := range x.alts {
		for _, q := range y.alts {
			g := b.And(p.g, q.g)
			lt = b.Or(lt, b.And(g, t.e.ltInt(p.n, q.n, 64, false)))
			lts = b.Or(lts, b.And(g, t.e.ltInt(p.n, q.n, 64, true)))
		}
	}
	return b.And(pc, lt) == b.F || b.And(pc, lts) == b.F
}

func ifaceSame(e *Eng, a, b *V) bool {
	if e.sameV(a, b, e.b.T) {
		return true
	}
	n := a.single()
	return n != nil && n.Op == "iface" && e.sameV(n.Elems[0], b, e.b.T)
}

func (t *trav) payloadRead(name string, pos token.Pos, s *State, payload, psize, typ *V, vi *visit) {
	e := t.e
	if s == nil || len(t.decs) == 0 {
		t.c.Bad(name+"-decode", t.r.Pos(pos), "%s does not decode the payload", name)
		return
	}
	if len(t.decs) > 1 && !t.decs[1].nested && e.b.And(t.decs[0].pc, t.decs[1].pc) != e.b.F {
		t.c.Bad(name+"-decode", t.r.Pos(t.decs[1].pos), "%s decodes the payload twice", name)
	}
	d := t.decs[0]
	if d.nested {
		t.c.Bad(name+"-decode", t.r.Pos(d.pos), "%s reads children before decoding the payload", name)
		return
	}
	t.must(name+"-position", d.pos, e.sameV(d.at, payload, d.pc), "%s decodes at position %s, must be the payload at %s wherever the reader is", name, d.at, payload)
	t.must(name+"-size", d.pos, e.sameV(d.size, psize, d.pc), "%s decodes %s bytes, must be %s", name, d.size, psize)
	if d.any {
		t.must(name+"-type", d.pos, e.sameV(d.typ, typ, d.pc), "%s decodes as type %s, must be %s", name, d.typ, typ)
	}
	t.must(name+"-context", d.pos, e.sameV(d.ctx, t.f(vi.st, vi.info, "Context"), d.pc), "%s decodes in another context than that of the box", name)
}

// rootSequence: a file of 0..3 boxes.
func (t *trav) rootSequence() {
	e, c := t.e, t.c
	fn := t.r.Root.Func("ReadBoxStructure")
	if fn == nil {
		c.Bad("anchor:ReadBoxStructure", "-", "the exported function ReadBoxStructure is expected")
		return
	}
	for n := 0; n <= 3; n++ {
		t.reset()
		t.budget = n
		args := e.symArgs(fn)
		args[0], args[1] = t.rdV, t.handler
		st := e.newState()
		st.ghost["pos"] = e.symVal("anywhere", types.Typ[types.Uint64])
		ret, end := e.joinRets(e.Run(fn, st, args, nil, nil, fmt.Sprintf("root%d/", n)))
		t.budget = -1
		if end == nil || ret == nil {
			c.Bad("root-sequence", t.r.Pos(fn.Pos()), "ReadBoxStructure fails for a file of %d boxes", n)
			continue
		}
		if len(t.visits) != n {
			c.Notes = append(c.Notes, fmt.Sprintf("%d visits for %d root boxes", len(t.visits), n))
			continue
		}
		if len(t.heads) > 0 {
			t.must("root-start", t.heads[0].in, e.sameV(t.heads[0].at, e.intV(0, 64), t.heads[0].pc), "the traversal starts at %s, must start at 0", t.heads[0].at)
		}
		for i := 1; i < len(t.heads); i++ {
			v := &t.visits[i-1]
			want := e.add64(v.st, t.f(v.st, v.info, "Offset"), t.f(v.st, v.info, "Size"))
			t.must("root-next", t.heads[i].in, e.sameV(t.heads[i].at, want, t.heads[i].pc), "the next root box is read at %s, must be at %s", t.heads[i].at, want)
		}
		vals := ret
		if x := ret.single(); x != nil && x.Op == "tuple" {
			vals = x.Elems[0]
		}
		if vn := vals.single(); vn != nil {
			ln := e.lenOf(vn)
			good := ln.Op == "int" && ln.C == uint64(n)
			for i := 0; good && i < n; i++ {
				el := e.load(end, e.sliceElem(end, vn, e.intN(uint64(i), 64)), types.NewInterfaceType(nil, nil))
				good = e.sameV(el, t.visits[i].val, end.pc)
			}
			t.must("root-values", fn.Pos(), good, "the values of the handler for %d boxes are returned as %s", n, vals)
		}
		c.Count("root boxes visited", n)
	}
	c.AtLeast("root boxes visited", 6)
}

// handlerErrors: an error of the handler ends the traversal and is returned.
func (t *trav) handlerErrors() {
	e, b, c := t.e, t.e.b, t.c
	e.Success = false
	t.herr = true
	defer func() { e.Success, t.herr = true, false }()
	check := func(name string, fn *ssa.Function, args []*V) {
		t.reset()
		st := e.newState()
		ret, end := e.joinRets(e.Run(fn, st, args, nil, nil, "err "+name+"/"))
		if end == nil || ret == nil || ret.single() == nil || ret.single().Op != "tuple" {
			c.Notes = append(c.Notes, name+": error results not determined")
			return
		}
		ev := ret.single().Elems[1]
		for i := range t.visits {
			v := &t.visits[i]
			failed := b.And(v.pc, b.Not(e.cmp(end, token.EQL, v.err.single(), e.nilN(nil), v.err.single().T, 0, false, false)))
			bad := b.F
			for _, a := range ev.alts {
				if a.n == v.err.single() {
					continue
				}
				bad = b.Or(bad, a.g)
			}
			// a later failure may only be reported when an earlier one did not happen
			x := b.And(b.And(failed, bad), end.pc)
			if i == 0 {
				t.must("handler-error:"+name, v.pos, x == b.F, "%s does not return the error of the handler when%s", name, b.Witness(x))
			}
		}
	}
	if fn := t.r.Root.Func("ReadBoxStructureFromInternal"); fn != nil {
		args := e.symArgs(fn)
		args[0], args[2] = t.rdV, t.handler
		check("ReadBoxStructureFromInternal", fn, args)
	}
	if fn := t.r.Root.Func("ReadBoxStructure"); fn != nil {
		t.budget = 2
		args := e.symArgs(fn)
		args[0], args[1] = t.rdV, t.handler
		check("ReadBoxStructure", fn, args)
		t.budget = -1
	}
}
