package main

// P01 to P04: what Probe and the functions working on its results report.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// vbox is a box of a file that is only known by its structure; the fields of its payload are unknown.
type vbox struct {
	code           string
	typ            string // the Go structure
	kids           []*vbox
	parent         *vbox
	off, hdr, size uint64
	room           uint64 // bytes of the payload before the children
	info, payload  *Node
	ctx            *V
	ver            uint64
	badVersion     bool   // decoding it fails
	text           string // its payload, printed
	fill           func(f *vfile, st *State, p *Node, t types.Type)
}

// vfile is a file: Probe sees it through the extraction functions and Unmarshal.
type vfile struct {
	k    *codec
	top  []*vbox
	all  []*vbox
	st   *State
	bad  []string
	seen map[*vbox]bool
}

func (f *vfile) wrong(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, x := range f.bad {
		if x == s {
			return
		}
	}
	f.bad = append(f.bad, s)
}

func (k *codec) gtype(name string) types.Type { return goType(k.r, name) }

// newFile lays the boxes out at offsets beyond 32 bits, with both header forms.
func (k *codec) newFile(top []*vbox) *vfile {
	e := k.e
	k.undec, k.panics = nil, nil
	f := &vfile{k: k, top: top, seen: map[*vbox]bool{}}
	f.st = e.newState()
	f.st.pc = e.b.T
	f.st.ghost["rpos"] = e.intV(0, 64)
	at := uint64(0x1_0000_0000)
	bi := k.gtype("BoxInfo")
	bt := k.gtype("BoxType")
	ct := k.gtype("Context")
	if bi == nil || bt == nil || ct == nil {
		f.wrong("BoxInfo, BoxType or Context is missing")
		return f
	}
	var walk func(bs []*vbox, parent *vbox)
	walk = func(bs []*vbox, parent *vbox) {
		for _, b := range bs {
			f.all = append(f.all, b)
			b.parent = parent
			b.hdr = 8
			if len(f.all)%2 == 0 {
				b.hdr = 16
			}
			b.off = at
			if b.room == 0 {
				b.room = 1000
			}
			at += b.hdr + b.room
			walk(b.kids, b)
			b.size = at - b.off
			obj := k.fresh("w:info") + "\x00"
			b.info = e.ptrN(obj, "")
			fld := func(name string, v *V) {
				at, t := pathTo(bi, name)
				if t == nil {
					f.wrong("BoxInfo.%s is missing", name)
					return
				}
				e.store(f.st, e.ptrN(obj, at), t, v, e.b.T)
			}
			b.ctx = e.symVal(k.fresh("ctx"), ct)
			fld("Offset", e.intV(b.off, 64))
			fld("Size", e.intV(b.size, 64))
			fld("HeaderSize", e.intV(b.hdr, 64))
			fld("Type", k.typeV(b.code))
			fld("Context", b.ctx)
			if b.typ != "" {
				t := k.gtype(b.typ)
				if t == nil {
					f.wrong("the type %s is missing", b.typ)
					continue
				}
				po := k.fresh("w:payload") + "\x00"
				f.st.base[po] = k.fresh("payload")
				b.payload = e.ptrN(po, "")
				if b.fill != nil {
					b.fill(f, f.st, b.payload, t)
				}
			}
		}
	}
	walk(top, nil)
	return f
}

func (f *vfile) boxOf(v *V) (*vbox, bool) {
	n := f.k.e.under(v, f.st.pc).single()
	if n == nil {
		return nil, false
	}
	if n.Op == "nil" {
		return nil, true
	}
	for _, b := range f.all {
		if b.info.Name == n.Name && n.Path == "" {
			return b, true
		}
	}
	return nil, false
}

// onCall models the extraction functions and Unmarshal on the file.
func (f *vfile) onCall(cc *CallCtx) (*V, bool) {
	k, e, st := f.k, f.k.e, cc.st
	if cc.Fn == nil || cc.Fn.Pkg != k.r.Root || cc.Fn.Signature.Recv() != nil {
		return k.onCall(cc)
	}
	switch cc.Fn.Name() {
	case "ExtractBoxes", "ExtractBoxesWithPayload", "ExtractBox", "ExtractBoxWithPayload":
	case "Unmarshal":
		return f.unmarshal(cc), true
	default:
		return k.onCall(cc)
	}
	fail := func(format string, a ...interface{}) (*V, bool) {
		f.wrong(format, a...)
		return e.symVal("extract@"+e.site(cc.fr, cc.in), cc.Fn.Signature.Results()), true
	}
	if len(cc.Args) != 3 {
		return fail("%s has other parameters", cc.Fn.Name())
	}
	if n := e.under(cc.Args[0], st.pc).single(); n == nil || n.Op != "sym" || n.Name != inName {
		return fail("%s extracts from something else than the reader", k.chain(cc.fr))
	}
	parent, ok := f.boxOf(cc.Args[1])
	if !ok {
		return fail("%s extracts below a box that is not decided", k.chain(cc.fr))
	}
	var paths [][]string
	if strings.HasPrefix(cc.Fn.Name(), "ExtractBoxes") {
		paths, ok = f.paths(st, cc.Args[2])
	} else {
		var p []string
		p, ok = f.path(st, e.under(cc.Args[2], st.pc).single())
		paths = [][]string{p}
	}
	if !ok {
		return fail("%s extracts paths that are not decided", k.chain(cc.fr))
	}
	kids := f.top
	if parent != nil {
		kids = parent.kids
	}
	var found []*vbox
	var walk func(bs []*vbox, at []string)
	walk = func(bs []*vbox, at []string) {
		for _, b := range bs {
			p := append(append([]string{}, at...), b.code)
			for _, w := range paths {
				if len(w) != len(p) {
					continue
				}
				same := true
				for i := range w {
					same = same && (w[i] == p[i] || w[i] == "\x00\x00\x00\x00")
				}
				if same {
					found = append(found, b)
					break
				}
			}
			walk(b.kids, p)
		}
	}
	walk(kids, nil)
	obj := "a:" + e.site(cc.fr, cc.in) + "\x00"
	st.dropAll(obj)
	rt := cc.Fn.Signature.Results().At(0).Type()
	sl, isSl := rt.Underlying().(*types.Slice)
	if !isSl {
		return fail("%s returns something else", cc.Fn.Name())
	}
	for i, b := range found {
		p := b.info
		if strings.HasSuffix(cc.Fn.Name(), "WithPayload") {
			if b.payload == nil {
				return fail("%s decodes %s, which is a container", k.chain(cc.fr), b.code)
			}
			f.seen[b] = true
			st.dropAll(obj + fmt.Sprint(i))
			p = e.ptrN(fmt.Sprintf("%s%d\x00", strings.TrimSuffix(obj, "\x00"), i), "")
			at, it := pathTo(deref(sl.Elem()), "Info")
			pt, yt := pathTo(deref(sl.Elem()), "Payload")
			if it == nil || yt == nil {
				return fail("BoxInfoWithPayload has no Info or Payload")
			}
			e.store(st, e.ptrN(p.Name, at), it, e.load(st, b.info, it), e.b.T)
			e.store(st, e.ptrN(p.Name, pt), yt, e.v(e.mk(Node{Op: "iface", T: types.NewPointer(k.gtype(b.typ)), Elems: []*V{e.v(b.payload)}})), e.b.T)
		}
		e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), sl.Elem(), e.v(p), e.b.T)
	}
	return e.tuple(e.v(e.sliceN(obj, len(found), rt)), e.nilV()), true
}

func (f *vfile) path(st *State, n *Node) ([]string, bool) {
	e := f.k.e
	if n == nil {
		return nil, false
	}
	ln, ok := e.constLen(st, e.v(n))
	if !ok {
		return nil, false
	}
	var out []string
	for i := 0; i < ln; i++ {
		p := e.sliceElem(st, n, e.intN(uint64(i), 64))
		bs := make([]byte, 4)
		for j := range bs {
			x := e.load(st, e.ptrN(p.Name, fmt.Sprintf("%s[%d]", p.Path, j)), byteT).single()
			if x == nil || x.Op != "int" {
				return nil, false
			}
			bs[j] = byte(x.C)
		}
		out = append(out, string(bs))
	}
	return out, true
}

func (f *vfile) paths(st *State, v *V) ([][]string, bool) {
	e := f.k.e
	n := e.under(v, st.pc).single()
	if n == nil {
		return nil, false
	}
	ln, ok := e.constLen(st, e.v(n))
	if !ok {
		return nil, false
	}
	var out [][]string
	for i := 0; i < ln; i++ {
		x := e.load(st, e.sliceElem(st, n, e.intN(uint64(i), 64)), f.k.gtype("BoxPath")).single()
		p, ok := f.path(st, x)
		if !ok {
			return nil, false
		}
		out = append(out, p)
	}
	return out, true
}

// unmarshal decodes the box whose payload the reader is at.
func (f *vfile) unmarshal(cc *CallCtx) *V {
	k, e, st := f.k, f.k.e, cc.st
	res := func(format string, a ...interface{}) *V {
		f.wrong(format, a...)
		return e.symVal("unmarshal@"+e.site(cc.fr, cc.in), cc.Fn.Signature.Results())
	}
	if len(cc.Args) != 4 {
		return res("Unmarshal has other parameters")
	}
	if n := e.under(cc.Args[0], st.pc).single(); n == nil || n.Op != "sym" || n.Name != inName {
		return res("%s decodes from something else than the reader", k.chain(cc.fr))
	}
	pos := k.ghost(st, "rpos").single()
	if pos == nil || pos.Op != "int" {
		return res("%s decodes at a position that is not decided", k.chain(cc.fr))
	}
	for _, b := range f.all {
		if b.off+b.hdr != pos.C {
			continue
		}
		if s := e.under(cc.Args[1], st.pc).single(); s == nil || s.Op != "int" || s.C != b.size-b.hdr {
			return res("%s does not decode exactly the payload of %s", k.chain(cc.fr), b.code)
		}
		d := e.under(cc.Args[2], st.pc).single()
		if d == nil || d.Op != "iface" || b.typ == "" || !types.Identical(deref(d.T), k.gtype(b.typ)) {
			return res("%s decodes %s into another structure", k.chain(cc.fr), b.code)
		}
		if !e.sameV(e.under(cc.Args[3], st.pc), b.ctx, st.pc) {
			return res("%s does not decode %s in its own context", k.chain(cc.fr), b.code)
		}
		f.seen[b] = true
		p := e.under(d.Elems[0], st.pc).single()
		if p == nil {
			return res("%s decodes into an unknown structure", k.chain(cc.fr))
		}
		p = e.ptrOf(st, p)
		t := deref(d.T)
		e.store(st, p, t, e.load(st, b.payload, t), e.b.T)
		st.ghost["rpos"] = e.symVal(k.fresh("behind"), types.Typ[types.Int64])
		return e.tuple(e.symVal(k.fresh("n"), types.Typ[types.Uint64]), e.nilV())
	}
	return res("%s decodes at a position where no payload starts", k.chain(cc.fr))
}

// run interprets a function of the reader on the file.
func (f *vfile) run(name string, args ...*V) (*outcome, string) {
	k, e := f.k, f.k.e
	if len(f.bad) > 0 {
		return nil, strings.Join(f.bad, "; ")
	}
	if k.r.Root.Func(name) == nil {
		return nil, name + " is missing"
	}
	old := e.OnCall
	e.OnCall = f.onCall
	defer func() { e.OnCall = old }()
	rd := e.v(e.mk(Node{Op: "sym", Name: inName, T: types.Typ[types.Invalid]}))
	k.input = nil
	o := k.call(name, f.st, e.b.T, append([]*V{rd}, args...)...)
	if o == nil || o.st == nil {
		return nil, name + " never returns" + k.why()
	}
	if o.st.pc != e.b.T {
		return nil, name + " does not return for some values" + k.why()
	}
	if len(f.bad) > 0 {
		return nil, strings.Join(f.bad, "; ") + k.why()
	}
	if k.panicking() {
		return nil, name + " may panic" + k.why()
	}
	if len(o.vals) != 2 {
		return nil, name + "'s results are not determined" + k.why()
	}
	return o, ""
}

// ---------------------------------------------------------------- looking at results

// at is the address of a field (dots and [i] for elements of slices of pointers).
func (k *codec) at(st *State, p *Node, t types.Type, path ...interface{}) (*Node, types.Type, string) {
	e := k.e
	for _, x := range path {
		switch x := x.(type) {
		case string:
			q, ft := pathTo(t, x)
			if ft == nil {
				return nil, nil, "the field " + x + " is missing"
			}
			p, t = e.ptrN(p.Name, p.Path+q), ft
		case int:
			if a, ok := t.Underlying().(*types.Array); ok {
				p, t = e.ptrN(p.Name, fmt.Sprintf("%s[%d]", p.Path, x)), a.Elem()
				continue
			}
			sl, ok := t.Underlying().(*types.Slice)
			if !ok {
				return nil, nil, "no slice"
			}
			n := e.under(e.load(st, p, t), st.pc).single()
			if n == nil {
				return nil, nil, "a slice that depends on values"
			}
			p, t = e.sliceElem(st, n, e.intN(uint64(x), 64)), sl.Elem()
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			n := e.under(e.load(st, p, t), st.pc).single()
			if n == nil {
				return nil, nil, "a pointer that depends on values"
			}
			if n.Op == "nil" {
				return nil, nil, "nil"
			}
			p, t = e.ptrOf(st, n), pt.Elem()
		}
	}
	return p, t, ""
}

// count is the length of a slice field.
func (k *codec) count(st *State, p *Node, t types.Type) int {
	e := k.e
	n := e.under(e.load(st, p, t), st.pc)
	l := -1
	for _, a := range n.alts {
		m, ok := e.constLen(st, e.v(a.n))
		if !ok || (l >= 0 && m != l) {
			return -1
		}
		l = m
	}
	return l
}

// exp collects differences between a result and what is expected of it.
type exp struct {
	k   *codec
	st  *State
	p   *Node
	t   types.Type
	bad string
}

func (x *exp) str(path []interface{}) string {
	s := ""
	for _, p := range path {
		switch p := p.(type) {
		case string:
			s += "." + p
		case int:
			s += fmt.Sprintf("[%d]", p)
		}
	}
	return strings.TrimPrefix(s, ".")
}

// is: an integer or boolean field has a value of w bits.
func (x *exp) is(w int, want *V, path ...interface{}) {
	if x.bad != "" {
		return
	}
	e := x.k.e
	p, t, bad := x.k.at(x.st, x.p, x.t, path...)
	if bad != "" {
		x.bad = x.str(path) + ": " + bad
		return
	}
	if w == 1 {
		if !isBool(t) {
			x.bad = x.str(path) + " is no truth value"
			return
		}
		g := e.toB(e.under(e.load(x.st, p, t), x.st.pc))
		if e.b.And(x.st.pc, e.b.Not(e.b.Eq(g, e.toB(want)))) != e.b.F {
			x.bad = x.str(path) + " is not what the boxes say"
		}
		return
	}
	fw, _, ok := intWidth(t)
	if !ok || fw != w {
		x.bad = fmt.Sprintf("%s is no integer of %d bits", x.str(path), w)
		return
	}
	got := e.load(x.st, p, t)
	if e.b.And(x.st.pc, e.b.Not(x.k.eqV(x.st, got, want, w))) != e.b.F {
		x.bad = x.str(path) + " is not what the boxes say"
		if dbgOn {
			x.bad += fmt.Sprintf(" (got %s, want %s)", got, want)
		}
	}
}

func (x *exp) len(n int, path ...interface{}) bool {
	if x.bad != "" {
		return false
	}
	p, t, bad := x.k.at(x.st, x.p, x.t, path...)
	if bad != "" {
		x.bad = x.str(path) + ": " + bad
		return false
	}
	if m := x.k.count(x.st, p, t); m != n {
		x.bad = fmt.Sprintf("%s has %d elements where the boxes give %d", x.str(path), m, n)
		return false
	}
	return true
}

// null: a pointer field is nil or not.
func (x *exp) null(want bool, path ...interface{}) {
	if x.bad != "" {
		return
	}
	_, _, bad := x.k.at(x.st, x.p, x.t, path...)
	switch {
	case bad == "nil" && !want:
		x.bad = x.str(path) + " is missing"
	case bad != "nil" && want:
		x.bad = x.str(path) + " is reported without its boxes"
	case bad != "nil" && bad != "":
		x.bad = x.str(path) + ": " + bad
	}
}

func (f *vfile) done(x *exp) string {
	if x.bad != "" {
		return x.bad + f.k.why()
	}
	if len(f.k.undec) > 0 {
		return "not decided" + f.k.why()
	}
	return ""
}

// expect starts looking at the result of a run.
func (f *vfile) expect(o *outcome) *exp { return f.expect2(o, f.k.e.b.T) }

// expect2 looks at it under a condition.
func (f *vfile) expect2(o *outcome, g *B) *exp {
	st := o.st.clone()
	st.pc = f.k.e.b.And(st.pc, g)
	o = &outcome{st: st, vals: o.vals}
	x := &exp{k: f.k, st: o.st}
	n := f.k.e.under(o.vals[0], o.st.pc).single()
	if n == nil || n.Op == "nil" {
		x.bad = "the result is nil or depends on values"
		return x
	}
	x.p = f.k.e.ptrOf(o.st, n)
	x.t = f.k.gtype("ProbeInfo")
	if x.t == nil {
		x.bad = "the type ProbeInfo is missing"
	}
	return x
}

// ---------------------------------------------------------------- fields of the boxes

// field gives a field a value, returned as its integer of w bits.
func (f *vfile) set(st *State, p *Node, t types.Type, v *V, path ...interface{}) {
	q, ft, bad := f.k.at(st, p, t, path...)
	if bad != "" {
		f.wrong("%s: %s", (&exp{}).str(path), bad)
		return
	}
	f.k.e.store(st, q, ft, v, f.k.e.b.T)
}

// sym gives an integer field a value of unknown bits (interleaved with the others).
func (f *vfile) sym(st *State, p *Node, t types.Type, path ...interface{}) []*B {
	q, ft, bad := f.k.at(st, p, t, path...)
	if bad != "" {
		f.wrong("%s: %s", (&exp{}).str(path), bad)
		return nil
	}
	w, _, ok := intWidth(ft)
	if !ok {
		f.wrong("%s is no integer", (&exp{}).str(path))
		return nil
	}
	bs := f.k.wideBits(w, f.k.fresh("f"))
	f.k.e.store(st, q, ft, f.k.e.v(f.k.e.bvN(bs)), f.k.e.b.T)
	return bs
}

// elems makes a slice field hold n elements.
func (f *vfile) elems(st *State, p *Node, t types.Type, n int, path ...interface{}) {
	q, ft, bad := f.k.at(st, p, t, path...)
	if bad != "" {
		f.wrong("%s: %s", (&exp{}).str(path), bad)
		return
	}
	obj := f.k.fresh("w:elems") + "\x00"
	st.base[obj] = f.k.fresh("elems")
	f.k.e.store(st, q, ft, f.k.e.v(f.k.e.sliceN(obj, n, ft)), f.k.e.b.T)
}

func (k *codec) bv(bs []*B) *V { return k.e.v(k.e.bvN(bs)) }

// ite is a choice between two integers.
func (k *codec) ite(c *B, a, b *V) *V {
	var as []alt
	for _, x := range a.alts {
		as = append(as, alt{k.e.b.And(c, x.g), x.n})
	}
	for _, x := range b.alts {
		as = append(as, alt{k.e.b.And(k.e.b.Not(c), x.g), x.n})
	}
	return k.e.norm(as, k.e.b.T)
}

func (k *codec) isNum(bs []*B, c uint64) *B { return k.isConst(revBits(bs), c) }

func (k *codec) lo(bs []*B, w int, signed bool) []*B {
	out := append([]*B{}, bs...)
	for len(out) < w {
		if signed {
			out = append(out, bs[len(bs)-1])
		} else {
			out = append(out, k.e.b.F)
		}
	}
	return out[:w]
}

var _ = token.EQL
