package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// newSlice makes a slice of known length.
func (e *Eng) newSlice(st *State, name string, elT types.Type, els []*V) *V {
	obj := name + "\x00"
	for i, el := range els {
		e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), elT, el, e.b.T)
	}
	return e.v(e.mk(Node{Op: "slice", Args: []*Node{e.ptrN(obj, "")}, Elems: []*V{e.intV(uint64(len(els)), 64)}, T: types.NewSlice(elT)}))
}

type pathRun struct {
	c          *Check
	e          *Eng
	r          *Repo
	btT, biT   types.Type
	hT         types.Type
	pathT      types.Type
	few        bool
	full       int // the position at which the types are unrestricted
	fn         *ssa.Function
	types      map[string]*V
	viaParent  bool
	called     int
	expands    map[int]*B
	infos      map[int]*V
	lens       []int // relative path lengths of the boxes visited
	hpaths     [][]*V
	curBox     int
	rdOK       bool
	parentSeen *V
}

// sym: an unknown box type; the bytes are named in an order that keeps comparisons small.
func (p *pathRun) typ(name string) *V {
	if p.few && (strings.HasPrefix(name, "w2") || !strings.HasSuffix(name, fmt.Sprintf(".%d", p.full))) {
		return p.fewTyp(name)
	}
	n := Node{Op: "array", T: p.btT}
	for k := 0; k < 4; k++ {
		n.Elems = append(n.Elems, p.e.symVal(fmt.Sprintf("%s[%d]", name, k), types.Typ[types.Uint8]))
	}
	return p.e.v(p.e.mk(n))
}

// fewTyp: an unknown one of eight types, which differ in one byte from each other or from the wildcard.
// In every run the types at one position of the box and the first path are any types, all others are of these.
func (p *pathRun) fewTyp(name string) *V {
	e, b := p.e, p.e.b
	sel := []*B{b.BitVar(name, 0, 3), b.BitVar(name, 1, 3), b.BitVar(name, 2, 3)}
	vals := []string{"\x00\x00\x00\x00", "moov", "Moov", "mOov", "moOv", "mooV", "\x00\x00\x00v", "m\x00\x00\x00"}
	n := Node{Op: "array", T: p.btT}
	for k := 0; k < 4; k++ {
		bits := make([]*B, 8)
		for i := range bits {
			bits[i] = b.F
		}
		for j, v := range vals {
			g := b.T
			for i, s := range sel {
				if j>>uint(i)&1 == 1 {
					g = b.And(g, s)
				} else {
					g = b.And(g, b.Not(s))
				}
			}
			for i := range bits {
				if v[k]>>uint(i)&1 == 1 {
					bits[i] = b.Or(bits[i], g)
				}
			}
		}
		n.Elems = append(n.Elems, e.v(e.bvN(bits)))
	}
	return e.v(e.mk(n))
}

func (p *pathRun) eqT(x, y *V) *B {
	e := p.e
	r := e.b.T
	for k := 0; k < 4; k++ {
		a, b := x.single().Elems[k].single(), y.single().Elems[k].single()
		r = e.b.And(r, e.eqInt(a, b, 8))
	}
	return r
}

func (p *pathRun) anyT(x *V) *B {
	e := p.e
	r := e.b.T
	for k := 0; k < 4; k++ {
		r = e.b.And(r, e.eqInt(x.single().Elems[k].single(), e.intN(0, 8), 8))
	}
	return r
}

func (p *pathRun) matchT(x, y *V) *B {
	b := p.e.b
	return b.Or(b.Or(p.anyT(x), p.anyT(y)), p.eqT(x, y))
}

func checkPaths(c *Check) {
	c.Rule = "ExtractBox(es), interpreted with unknown wanted paths and unknown boxes of every combination of path lengths up to 3, selects exactly the boxes whose path matches and descends into exactly the boxes on the way"
	c.Assume = append(c.Assume, "path lengths above 3 and more than two wanted paths behave as those explored", "the traversal hands out the right boxes and paths (T01)")
	r := c.R
	biT, hT, btT, pathT := lookupType(r, "BoxInfo"), lookupType(r, "ReadHandle"), lookupType(r, "BoxType"), lookupType(r, "BoxPath")
	fn := r.Root.Func("ExtractBoxes")
	if biT == nil || hT == nil || btT == nil || pathT == nil || fn == nil {
		c.Bad("anchor", "-", "ExtractBoxes, BoxInfo, ReadHandle, BoxType and BoxPath are expected")
		return
	}
	p := &pathRun{c: c, r: r, biT: biT, hT: hT, btT: btT, pathT: pathT, fn: fn}
	p.engine()
	for _, via := range []bool{false, true} {
		lo := 1
		if via {
			lo = 0
		}
		for l1 := 1; l1 <= 3; l1++ {
			for l2 := 0; l2 <= 3; l2++ {
				if via && l2 > 0 && l2 != l1 {
					continue
				}
				for n := lo; n <= 3; n++ {
					p.run(via, []int{l1, l2}, []int{n})
				}
			}
		}
		for l1 := 1; l1 <= 3; l1++ {
			for l2 := 0; l2 <= l1; l2++ {
				for _, lens := range [][]int{{1, 1}, {1, 2}, {2, 1}, {2, 3}, {3, 3}} {
					p.run(via, []int{l1, l2}, lens)
				}
			}
		}
	}
	c.AtLeast("combinations of path lengths", 60)
	p.errors()
	p.wrapper("ExtractBox")
	p.payloads()
	p.units()
}

// engine starts with empty decision diagrams; the comparisons of a run are small in the order chosen here.
func (p *pathRun) engine() {
	if p.e != nil {
		p.units()
	}
	e := newEng(p.r)
	e.initGlobals()
	e.Success = true
	p.e = e
	for i := 0; i < 4; i++ {
		for k := 0; k < 4; k++ {
			for _, s := range []string{"h1", "h2", "w1", "w2"} {
				v := e.symVal(fmt.Sprintf("%s.%d[%d]", s, i, k), types.Typ[types.Uint8])
				e.bitsOf(v.single(), 8)
			}
		}
		for k := 0; k < 3; k++ {
			for _, s := range []string{"h1", "h2", "w1", "w2"} {
				e.b.BitVar(fmt.Sprintf("%s.%d", s, i), k, 3)
			}
		}
	}
}

func (p *pathRun) units() {
	for f := range p.e.Visited {
		p.c.Unit(p.r.Name(f))
	}
}

func (p *pathRun) want(st *State, wl []int) (*V, [][]*V) {
	var ps []*V
	var els [][]*V
	for j, l := range wl {
		if l == 0 {
			continue
		}
		var ts []*V
		for i := 0; i < l; i++ {
			ts = append(ts, p.typ(fmt.Sprintf("w%d.%d", j+1, i)))
		}
		els = append(els, ts)
		ps = append(ps, p.e.newSlice(st, fmt.Sprintf("want%d", j+1), p.btT, ts))
	}
	return p.e.newSlice(st, "wanted", p.pathT, ps), els
}

// hook plays the traversal: the handler is called for the boxes of the run.
func (p *pathRun) hook(cc *CallCtx) (*V, bool) {
	e := p.e
	if cc.Name == "dyn:Expand" {
		p.expands[p.curBox] = e.b.Or(p.expands[p.curBox], cc.st.pc)
		return e.tuple(e.symVal("vals", types.Typ[types.Int]), e.nilV()), true
	}
	root := rootFunc(p.r, cc.Fn, "ReadBoxStructure")
	inner := rootFunc(p.r, cc.Fn, "ReadBoxStructureFromInternal")
	if !root && !inner {
		return nil, false
	}
	h := cc.Args[1]
	if inner {
		h = cc.Args[2]
		p.parentSeen = cc.Args[1]
	}
	p.viaParent = inner
	p.called++
	fnode := h.single()
	if fnode == nil || fnode.Fn == nil {
		panic("the handler is not a known function")
	}
	for i, ts := range p.hpaths {
		p.curBox = i
		obj := fmt.Sprintf("handle%d\x00", i)
		cc.st.base[obj] = fmt.Sprintf("handle%d", i)
		hp := e.v(e.ptrN(obj, ""))
		path, ft := e.pathOf(p.hT, "Path")
		e.store(cc.st, e.ptrN(obj, path), ft, e.newSlice(cc.st, fmt.Sprintf("hpath%d", i), p.btT, ts), e.b.T)
		tp, tt := e.pathOf(p.hT, "BoxInfo")
		tp2, _ := e.pathOf(p.biT, "Type")
		_ = tt
		e.store(cc.st, e.ptrN(obj, tp+tp2), p.btT, ts[len(ts)-1], e.b.T)
		off, size, hs := p.place(i)
		for f, x := range map[string]uint64{"Offset": off, "Size": size, "HeaderSize": hs} { // distinct values tell the boxes apart
			if fp, ft := e.pathOf(p.biT, f); ft != nil {
				e.store(cc.st, e.ptrN(obj, tp+fp), ft, e.intV(x, 64), e.b.T)
			}
		}
		ep, et := e.pathOf(p.hT, "Expand")
		e.store(cc.st, e.ptrN(obj, ep), et, e.v(e.mk(Node{Op: "sym", Name: "Expand", T: et})), e.b.T)
		p.infos[i] = e.load(cc.st, e.ptrN(obj, tp), p.biT)
		// every visit allocates its own objects
		_, s2 := e.joinRets(e.Run(fnode.Fn, cc.st, []*V{hp}, fnode.Elems, cc.fr, fmt.Sprintf("%s#%d/", e.site(cc.fr, cc.in), i)))
		if s2 == nil {
			cc.st.pc = e.b.F
			return nil, true
		}
		*cc.st = *s2
	}
	if inner {
		return e.tuple(e.nilV(), e.nilV()), true
	}
	return e.tuple(e.nilV(), e.nilV()), true
}

// place: where a box of the run is; one with a longer path than the box before lies inside it.
func (p *pathRun) place(i int) (off, size, hs uint64) {
	off, size, hs = uint64(1+200*i), uint64(100-8*i), uint64(3+8*i)
	if i > 0 && len(p.hpaths[i]) > len(p.hpaths[i-1]) {
		off, _, _ = p.place(i - 1)
		off += 8
	}
	return
}

func (p *pathRun) setup(lens []int, via bool) {
	p.expands, p.infos, p.hpaths, p.called, p.parentSeen = map[int]*B{}, map[int]*V{}, nil, 0, nil
	for i, n := range lens {
		p.expands[i] = p.e.b.F
		var ts []*V
		if via {
			ts = append(ts, p.typ("parent"))
		}
		for k := 0; k < n; k++ {
			ts = append(ts, p.typ(fmt.Sprintf("h%d.%d", i+1, k)))
		}
		p.hpaths = append(p.hpaths, ts)
	}
	p.e.OnCall = p.hook
}

func (p *pathRun) must(key string, cond bool, format string, a ...interface{}) {
	if cond {
		p.c.OK("%s", key)
	} else {
		p.c.Bad(key, p.r.Pos(p.fn.Pos()), format, a...)
	}
}

func (p *pathRun) run(via bool, wl, lens []int) {
	max := 0
	for _, l := range append(append([]int{}, wl...), lens...) {
		if l > max {
			max = l
		}
	}
	p.few = true
	if len(lens) > 1 { // only the order of the boxes is new
		p.full = -1
		p.runFull(via, wl, lens)
		return
	}
	for p.full = 0; p.full < max; p.full++ {
		p.runFull(via, wl, lens)
	}
	p.few = false
}

func (p *pathRun) runFull(via bool, wl, lens []int) {
	if p.e.b.n > 1000000 {
		p.engine()
	}
	e, b, c := p.e, p.e.b, p.c
	st := e.newState()
	args := e.symArgs(p.fn)
	wanted, want := p.want(st, wl)
	args[2] = wanted
	if via {
		st.base["parent\x00"] = "parent"
		args[1] = e.v(e.ptrN("parent\x00", ""))
	} else {
		args[1] = e.nilV()
	}
	p.setup(lens, via)
	name := fmt.Sprintf("wanted%v,box%v,parent=%v", wl, lens, via)
	ret, end := e.runTop(p.fn, st, args)
	c.Count("combinations of path lengths", 1)
	if end == nil || p.called == 0 {
		p.must(name, false, "ExtractBoxes does not traverse the boxes (%s)", name)
		return
	}
	if via {
		p.must("parent", p.parentSeen != nil && p.viaParent && e.sameV(p.parentSeen, args[1], b.T), "with a parent the traversal does not start at it")
	} else {
		p.must("root", !p.viaParent, "without a parent the traversal does not start at the beginning of the file")
	}
	matches, ways := p.matching(want, via)
	for i := range matches {
		// boxes of wildcard type (all zero) are never looked at
		d := b.Xor(p.expands[i], ways[i])
		p.must("expand", d == b.F, "a box is expanded wrongly (%s) when%s", name, b.Witness(d))
	}
	res := ret
	if n := ret.single(); n != nil && n.Op == "tuple" {
		res = n.Elems[0]
	}
	// compare the result list case by case
	p.eachCase(end, matches, func(g *B, exp []int) {
		for _, a := range res.alts {
			if b.And(a.g, g) == b.F {
				continue
			}
			good := p.lenIs(end, a.n, len(exp), b.And(a.g, g))
			for j := 0; good && j < len(exp); j++ {
				el := e.load(end, e.sliceElem(end, a.n, e.intN(uint64(j), 64)), types.NewPointer(p.biT))
				var got *V
				if q := el.single(); q != nil {
					got = e.load(end, e.ptrOf(end, q), p.biT)
				}
				good = got != nil && e.sameV(got, p.infos[exp[j]], b.And(a.g, g))
			}
			p.must("result", good, "the boxes found are %s, must be the matching boxes %v in order (%s) when%s", a.n, exp, name, b.Witness(b.And(a.g, g)))
		}
	})
}

// matching: when each box matches a wanted path, and when it is on the way to one.
func (p *pathRun) matching(want [][]*V, via bool) (matches, ways []*B) {
	b := p.e.b
	for _, ts := range p.hpaths {
		rel := ts
		if via {
			rel = ts[1:]
		}
		m, fm := b.F, b.F
		for _, w := range want {
			if len(w) < len(rel) {
				continue
			}
			k := b.T
			for x := range rel {
				k = b.And(k, p.matchT(rel[x], w[x]))
			}
			if len(w) == len(rel) {
				m = b.Or(m, k)
			} else {
				fm = b.Or(fm, k)
			}
		}
		skip := p.anyT(ts[len(ts)-1])
		matches, ways = append(matches, b.And(m, b.Not(skip))), append(ways, b.And(fm, b.Not(skip)))
	}
	return
}

// lenIs: a slice has a length whenever g holds.
func (p *pathRun) lenIs(st *State, n *Node, l int, g *B) bool {
	if n.Op == "nil" {
		return l == 0
	}
	ln := p.e.under(p.e.lenV(st, p.e.v(n)), g).single()
	return ln != nil && ln.Op == "int" && ln.C == uint64(l)
}

// eachCase: every possible combination of boxes that match.
func (p *pathRun) eachCase(end *State, matches []*B, f func(g *B, exp []int)) {
	b := p.e.b
	for k := 0; k < 1<<uint(len(matches)); k++ {
		g := end.pc
		var exp []int
		for i, m := range matches {
			if k>>uint(i)&1 == 1 {
				g = b.And(g, m)
				exp = append(exp, i)
			} else {
				g = b.And(g, b.Not(m))
			}
		}
		if g != b.F {
			f(g, exp)
		}
	}
}

// errors: an empty path is refused, no path finds nothing.
func (p *pathRun) errors() {
	p.few = false
	e := p.e
	for _, n := range []int{1, 2} {
		st := e.newState()
		args := e.symArgs(p.fn)
		args[1] = e.nilV()
		var ps []*V
		if n == 2 {
			ps = append(ps, e.newSlice(st, "want1", p.btT, []*V{p.typ("w1.0")}))
		}
		ps = append(ps, e.newSlice(st, "want2", p.btT, nil))
		args[2] = e.newSlice(st, "wanted", p.pathT, ps)
		p.setup([]int{1}, false)
		_, end := e.runTop(p.fn, st, args)
		p.must("empty-path", end == nil, "ExtractBoxes accepts an empty path")
	}
	st := e.newState()
	args := e.symArgs(p.fn)
	args[1] = e.nilV()
	args[2] = e.newSlice(st, "wanted", p.pathT, nil)
	p.setup([]int{1}, false)
	ret, end := e.runTop(p.fn, st, args)
	if end == nil {
		p.must("no-path", false, "ExtractBoxes without paths fails")
		return
	}
	res := ret.single().Elems[0]
	good := true
	for _, a := range res.alts {
		ln := e.lenOf(a.n)
		good = good && (a.n.Op == "nil" || ln.Op == "int" && ln.C == 0)
	}
	p.must("no-path", good, "ExtractBoxes without paths finds boxes")
}

// wrapper: the single-path form is the multi-path form with that path.
func (p *pathRun) wrapper(name string) {
	e := p.e
	fn := p.r.Root.Func(name)
	if fn == nil {
		p.c.Notes = append(p.c.Notes, "no function "+name)
		return
	}
	for _, via := range []bool{false, true} {
		for l := 1; l <= 2; l++ {
			for n := 1; n <= 2; n++ {
				save := p.fn
				p.single(fn, via, l, n)
				p.fn = save
			}
		}
	}
	_ = e
}

// payloads: the forms that decode return, for every matching box in order, its info and what its own payload decodes to.
func (p *pathRun) payloads() {
	save := p.fn
	defer func() { p.fn = save }()
	for _, name := range []string{"ExtractBoxesWithPayload", "ExtractBoxWithPayload"} {
		fn := p.r.Root.Func(name)
		if fn == nil {
			p.c.Bad("anchor:"+name, "-", "the exported function %s is expected", name)
			continue
		}
		p.fn = fn
		for _, via := range []bool{false, true} {
			for _, wl := range [][]int{{1, 0}, {2, 0}, {1, 2}, {2, 1}} {
				if wl[1] > 0 && name == "ExtractBoxWithPayload" {
					continue
				}
				for _, lens := range [][]int{{1}, {2}, {1, 1}, {1, 2}, {2, 1}, {2, 2}} {
					p.payload(fn, via, wl, lens)
				}
			}
		}
	}
	p.c.AtLeast("decoding combinations", 60)
}

func (p *pathRun) payload(fn *ssa.Function, via bool, wl, lens []int) {
	if p.e.b.n > 1000000 {
		p.engine()
	}
	p.few, p.full = true, -1
	e, b := p.e, p.e.b
	st := e.newState()
	args := e.symArgs(fn)
	wanted, want := p.want(st, wl)
	args[1] = e.nilV()
	if fn.Name() == "ExtractBoxesWithPayload" {
		args[2] = wanted
	} else {
		args[2] = e.newSlice(st, "want1", p.btT, want[0])
	}
	if via {
		st.base["parent\x00"] = "parent"
		args[1] = e.v(e.ptrN("parent\x00", ""))
	}
	name := fmt.Sprintf("%s,wanted%v,box%v,parent=%v", fn.Name(), wl, lens, via)
	p.setup(lens, via)
	rd := &stream{"pos", args[0].single()}
	var wrong []string
	bad := func(format string, a ...interface{}) *V {
		wrong = append(wrong, fmt.Sprintf(format, a...))
		return e.symVal("payload of no box", types.NewInterfaceType(nil, nil))
	}
	e.OnCall = func(cc *CallCtx) (*V, bool) {
		if rootFunc(p.r, cc.Fn, "UnmarshalAny") && rd.is(cc.Args[0]) {
			st := cc.st
			box := e.map1(e.under(e.pos(st, rd), st.pc), st.pc, func(n *Node) *V {
				if n.Op != "int" {
					return bad("a payload is decoded at %s", n)
				}
				for i := range p.infos {
					off, size, hs := p.place(i)
					if n.C != off+hs {
						continue
					}
					q := e.v(e.ptrN(fmt.Sprintf("handle%d\x00", i), ""))
					g := b.F
					for _, a := range e.under(e.pos(st, rd), st.pc).alts {
						if a.n == n {
							g = b.Or(g, b.And(a.g, st.pc))
						}
					}
					path, _ := e.pathOf(p.hT, "BoxInfo")
					cp, ct := e.pathOf(p.biT, "Context")
					ctx := e.load(st, e.ptrN(q.single().Name, path+cp), ct)
					if !e.sameV(cc.Args[1], p.hpaths[i][len(p.hpaths[i])-1], g) {
						return bad("box %d is decoded as %s", i+1, cc.Args[1])
					}
					if !e.sameV(cc.Args[2], e.intV(size-hs, 64), g) {
						return bad("box %d is decoded with the size %s", i+1, cc.Args[2])
					}
					if !e.sameV(cc.Args[3], ctx, g) {
						return bad("box %d is decoded in the context %s", i+1, cc.Args[3])
					}
					return e.symVal(fmt.Sprintf("payload of box %d", i+1), types.NewInterfaceType(nil, nil))
				}
				return bad("a payload is decoded at %s", n)
			})
			st.ghost["pos"] = e.symVal("pos after payload@"+e.site(cc.fr, cc.in), types.Typ[types.Uint64])
			return e.tuple(box, e.symVal("n@"+e.site(cc.fr, cc.in), types.Typ[types.Uint64]), e.nilV()), true
		}
		if v, ok := p.hook(cc); ok {
			cc.st.ghost["pos"] = e.symVal("pos after traversal@"+e.site(cc.fr, cc.in), types.Typ[types.Uint64])
			return v, ok
		}
		return e.streamCall(cc, rd)
	}
	ret, end := e.runTop(fn, st, args)
	p.c.Count("decoding combinations", 1)
	if end == nil || p.called == 0 {
		p.must(name, false, "%s does not traverse the boxes (%s)", fn.Name(), name)
		return
	}
	for _, w := range wrong {
		p.must("payload", false, "%s (%s)", w, name)
	}
	matches, _ := p.matching(want, via)
	res := ret
	if n := ret.single(); n != nil && n.Op == "tuple" {
		res = n.Elems[0]
	}
	elT := types.Type(nil)
	if sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
		elT = sl.Elem()
	}
	if elT == nil {
		p.must(name, false, "%s does not return a slice", fn.Name())
		return
	}
	ip, it := pathTo(deref(elT), "Info")
	pp, pt := pathTo(deref(elT), "Payload")
	if it == nil || pt == nil {
		p.must(name, false, "BoxInfoWithPayload has no Info or Payload")
		return
	}
	p.eachCase(end, matches, func(g *B, exp []int) {
		for _, a := range res.alts {
			h := b.And(a.g, g)
			if h == b.F {
				continue
			}
			good := p.lenIs(end, a.n, len(exp), b.And(a.g, g))
			for j := 0; good && j < len(exp); j++ {
				q := e.load(end, e.sliceElem(end, a.n, e.intN(uint64(j), 64)), elT)
				n := e.under(q, h).single()
				if good = n != nil && n.Op == "ptr"; !good {
					break
				}
				good = e.sameV(e.load(end, e.ptrN(n.Name, n.Path+ip), it), p.infos[exp[j]], h) &&
					e.sameV(e.load(end, e.ptrN(n.Name, n.Path+pp), pt), e.symVal(fmt.Sprintf("payload of box %d", exp[j]+1), types.NewInterfaceType(nil, nil)), h)
			}
			p.must("decoded", good, "the boxes decoded are %s, must be the matching boxes %v in order, each with its payload (%s) when%s", a.n, exp, name, b.Witness(h))
		}
	})
}

func (p *pathRun) single(fn *ssa.Function, via bool, l, n int) {
	e, b := p.e, p.e.b
	st := e.newState()
	args := e.symArgs(fn)
	var ts []*V
	for i := 0; i < l; i++ {
		ts = append(ts, p.typ(fmt.Sprintf("w1.%d", i)))
	}
	args[2] = e.newSlice(st, "want1", p.btT, ts)
	args[1] = e.nilV()
	if via {
		st.base["parent\x00"] = "parent"
		args[1] = e.v(e.ptrN("parent\x00", ""))
	}
	p.setup([]int{n}, via)
	ret, end := e.runTop(fn, st, args)
	if end == nil || p.called == 0 {
		p.must(fn.Name(), false, "%s does not traverse the boxes", fn.Name())
		return
	}
	rel := p.hpaths[0]
	if via {
		rel = rel[1:]
	}
	m := b.F
	if len(rel) == l {
		m = b.T
		for x := range rel {
			m = b.And(m, p.matchT(rel[x], ts[x]))
		}
		m = b.And(m, b.Not(p.anyT(rel[len(rel)-1])))
	}
	found := b.F
	for _, a := range ret.single().Elems[0].alts {
		if ln := e.lenOf(a.n); a.n.Op != "nil" && !(ln.Op == "int" && ln.C == 0) {
			found = b.Or(found, a.g)
		}
	}
	found = b.And(found, end.pc)
	p.must(fn.Name(), b.Xor(found, b.And(m, end.pc)) == b.F, "%s finds the wrong boxes", fn.Name())
	p.c.Count("single-path combinations", 1)
}
