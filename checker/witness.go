package main

// Witness values: a Go value with a fixed shape and unknown bits, together with its encoding.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type wv struct {
	t    types.Type
	bits []*B // encoding, first bit of the stream first
	put  func(st *State, p *Node)
	eq   func(st *State, p *Node) *B
	pc   *B // assumption on the values
	desc string
	// the parts, for printing
	num    *V
	w      int
	kids   []*wv
	str    []*V
	fields []wfield
	flags  []*B // of a FullBox
}

type wfield struct {
	name string
	tag  string
	v    *wv
	skip bool // absent in this case: not encoded
	emb  bool
}

func (k *codec) fresh(p string) string {
	k.n++
	return fmt.Sprintf("%s%d", p, k.n)
}

func (k *codec) symBits(n int, name string) []*B {
	out := make([]*B, n)
	for i := range out {
		out[i] = k.e.b.BitVar(name, i, n)
	}
	return out
}

func revBits(x []*B) []*B {
	out := make([]*B, len(x))
	for i := range x {
		out[i] = x[len(x)-1-i]
	}
	return out
}

func intType(w int, signed bool) types.Type {
	switch {
	case w == 8 && signed:
		return types.Typ[types.Int8]
	case w == 16 && signed:
		return types.Typ[types.Int16]
	case w == 32 && signed:
		return types.Typ[types.Int32]
	case signed:
		return types.Typ[types.Int64]
	case w == 8:
		return types.Typ[types.Uint8]
	case w == 16:
		return types.Typ[types.Uint16]
	case w == 32:
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

func (k *codec) eqV(st *State, got, want *V, w int) *B {
	e := k.e
	r := e.b.T
	g, x := k.bits(st, got, w), k.bits(st, want, w)
	for i := range g {
		r = e.b.And(r, e.b.Eq(g[i], x[i]))
	}
	return r
}

// num is an integer of Go width gw of which size bits are encoded.
func (k *codec) num(gw, size int, signed bool) *wv {
	e := k.e
	bs := k.symBits(size, k.fresh("v"))
	full := make([]*B, gw)
	for i := range full {
		switch {
		case i < size:
			full[i] = bs[i]
		case signed:
			full[i] = bs[size-1]
		default:
			full[i] = e.b.F
		}
	}
	t := intType(gw, signed)
	return k.intVal(t, e.v(e.bvN(full)), gw, revBits(bs), fmt.Sprintf("%s of %d bits", t, size))
}

func (k *codec) intVal(t types.Type, v *V, w int, enc []*B, desc string) *wv {
	e := k.e
	return &wv{t: t, bits: enc, pc: e.b.T, desc: desc, num: v, w: w,
		put: func(st *State, p *Node) { e.store(st, p, t, v, e.b.T) },
		eq:  func(st *State, p *Node) *B { return k.eqV(st, e.load(st, p, t), v, w) }}
}

// konst is an integer with a given value.
func (k *codec) konst(gw, size int, c uint64) *wv {
	e := k.e
	var bs []*B
	for i := size - 1; i >= 0; i-- {
		bs = append(bs, e.b.Bool(c>>uint(i)&1 != 0))
	}
	t := intType(gw, false)
	return k.intVal(t, e.intV(c, gw), gw, bs, fmt.Sprintf("%s = %d", t, c))
}

func (k *codec) konstInt(gw, size int, signed bool, c uint64) *wv {
	var bs []*B
	for i := size - 1; i >= 0; i-- {
		bs = append(bs, k.e.b.Bool(c>>uint(i)&1 != 0))
	}
	t := intType(gw, signed)
	if gw < 64 {
		c &= 1<<uint(gw) - 1
	}
	return k.intVal(t, k.e.intV(c, gw), gw, bs, fmt.Sprintf("%s = %d", t, c))
}

func (k *codec) konstVarint(gw int, c uint64) *wv {
	var bs []*B
	for g := 3; g >= 0; g-- {
		bs = append(bs, k.e.b.Bool(g > 0))
		for i := 6; i >= 0; i-- {
			bs = append(bs, k.e.b.Bool(c>>uint(7*g+i)&1 != 0))
		}
	}
	t := intType(gw, false)
	return k.intVal(t, k.e.intV(c, gw), gw, bs, fmt.Sprintf("%s = %d", t, c))
}

func (k *codec) konstBool(size int, v bool) *wv {
	return k.boolVal(size, k.e.b.Bool(v))
}

func (k *codec) boolean(size int) *wv {
	return k.boolVal(size, k.e.b.BitVar(k.fresh("v"), 0, 1))
}

func (k *codec) boolVal(size int, b *B) *wv {
	e := k.e
	t := types.Typ[types.Bool]
	var bits []*B
	for i := 0; i < size; i++ {
		bits = append(bits, b)
	}
	return &wv{t: t, bits: bits, pc: e.b.T, num: e.boolV(b), desc: fmt.Sprintf("bool of %d bits", size),
		put: func(st *State, p *Node) { e.store(st, p, t, e.boolV(b), e.b.T) },
		eq:  func(st *State, p *Node) *B { return e.b.Eq(e.toB(e.load(st, p, t)), b) }}
}

// varint is an unsigned value below 2^28 in an integer of Go width gw.
func (k *codec) varint(gw int) *wv {
	e := k.e
	n := 28
	if gw < n {
		n = gw
	}
	bs := k.symBits(n, k.fresh("v"))
	full := make([]*B, gw)
	enc := make([]*B, 28)
	for i := range enc {
		enc[i] = e.b.F
	}
	for i := range full {
		full[i] = e.b.F
		if i < n {
			full[i], enc[i] = bs[i], bs[i]
		}
	}
	var bits []*B
	for g := 3; g >= 0; g-- {
		bits = append(bits, e.b.Bool(g > 0))
		bits = append(bits, revBits(enc[7*g:7*g+7])...)
	}
	t := intType(gw, false)
	return k.intVal(t, e.v(e.bvN(full)), gw, bits, fmt.Sprintf("varint in %s", t))
}

// str is a string of n bytes other than NUL.
func (k *codec) str(n int, terminated bool) *wv {
	e := k.e
	t := types.Typ[types.String]
	var bs []*V
	var bits []*B
	pc := e.b.T
	for i := 0; i < n; i++ {
		x := k.symBits(8, k.fresh("v"))
		any := e.b.F
		for _, b := range x {
			any = e.b.Or(any, b)
		}
		pc = e.b.And(pc, any)
		bs = append(bs, e.v(e.bvN(x)))
		bits = append(bits, revBits(x)...)
	}
	if terminated {
		for i := 0; i < 8; i++ {
			bits = append(bits, e.b.F)
		}
	}
	v := e.bstr(bs)
	return &wv{t: t, bits: bits, pc: pc, str: bs, desc: fmt.Sprintf("string of %d bytes", n),
		put: func(st *State, p *Node) { e.store(st, p, t, v, e.b.T) },
		eq: func(st *State, p *Node) *B {
			r := e.b.F
			for _, a := range e.under(e.load(st, p, t), st.pc).alts {
				if got, ok := e.bytesOf(st, a.n); ok {
					r = e.b.Or(r, e.b.And(a.g, e.eqBytes(got, bs)))
				}
			}
			return r
		}}
}

func (k *codec) seq(n int, mk func() *wv) []*wv {
	var out []*wv
	for i := 0; i < n; i++ {
		out = append(out, mk())
	}
	return out
}

func (k *codec) array(els []*wv) *wv {
	e := k.e
	w := &wv{t: types.NewArray(els[0].t, int64(len(els))), kids: els, pc: e.b.T, desc: fmt.Sprintf("[%d] %s", len(els), els[0].desc)}
	for _, x := range els {
		w.bits = append(w.bits, x.bits...)
		w.pc = e.b.And(w.pc, x.pc)
	}
	w.put = func(st *State, p *Node) {
		for i, x := range els {
			x.put(st, e.ptrN(p.Name, fmt.Sprintf("%s[%d]", p.Path, i)))
		}
	}
	w.eq = func(st *State, p *Node) *B {
		r := e.b.T
		for i, x := range els {
			r = e.b.And(r, x.eq(st, e.ptrN(p.Name, fmt.Sprintf("%s[%d]", p.Path, i))))
		}
		return r
	}
	return w
}

// list is a slice of the elements; extra elements are present in the value but beyond the length field.
func (k *codec) list(et types.Type, els []*wv, extra int) *wv {
	e := k.e
	t := types.NewSlice(et)
	w := &wv{t: t, pc: e.b.T, kids: els[:len(els)-extra], desc: fmt.Sprintf("slice of %d x %s", len(els), et)}
	if len(els) > 0 {
		w.desc = fmt.Sprintf("slice of %d x %s", len(els), els[0].desc)
	}
	for i, x := range els {
		if i < len(els)-extra {
			w.bits = append(w.bits, x.bits...)
		}
		w.pc = e.b.And(w.pc, x.pc)
	}
	w.put = func(st *State, p *Node) {
		obj := k.fresh("w:elems") + "\x00"
		for i, x := range els {
			x.put(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)))
		}
		e.store(st, p, t, e.v(e.sliceN(obj, len(els), t)), e.b.T)
	}
	w.eq = func(st *State, p *Node) *B {
		r := e.b.F
		for _, a := range e.under(e.load(st, p, t), st.pc).alts {
			if n, ok := e.constLen(st, e.v(a.n)); !ok || n != len(els) {
				continue
			}
			q := e.b.T
			for i, x := range els {
				q = e.b.And(q, x.eq(st, e.sliceElem(st, a.n, e.intN(uint64(i), 64))))
			}
			r = e.b.Or(r, e.b.And(a.g, q))
		}
		return r
	}
	return w
}

// record is a structure; fields are encoded in the order of the numbers in their tags.
func (k *codec) record(t types.Type, fs []wfield) *wv {
	var vars []*types.Var
	var tags []string
	for _, f := range fs {
		vars = append(vars, types.NewField(token.NoPos, k.r.Root.Pkg, f.name, f.v.t, f.emb))
		tg := ""
		if f.tag != "-" {
			tg = `mp4:"` + f.tag + `"`
		}
		tags = append(tags, tg)
	}
	if t == nil {
		t = types.NewStruct(vars, tags)
	} else if n, ok := t.(*types.Named); ok {
		n.SetUnderlying(types.NewStruct(vars, tags))
	}
	return k.wireRecord(t, fs)
}

// wireRecord is a structure whose type exists already; fields of equal order numbers are encoded in the order given.
func (k *codec) wireRecord(t types.Type, fs []wfield) *wv {
	e := k.e
	w := &wv{t: t, pc: e.b.T, fields: fs}
	var ds []string
	ord := append([]wfield{}, fs...)
	sort.SliceStable(ord, func(i, j int) bool { return orderTag(ord[i].tag) < orderTag(ord[j].tag) })
	for _, f := range ord {
		if f.tag == "-" || f.skip {
			continue
		}
		w.bits = append(w.bits, f.v.bits...)
		ds = append(ds, f.name+" "+f.v.desc)
	}
	w.desc = "{" + strings.Join(ds, "; ") + "}"
	for _, f := range fs {
		if !f.skip {
			w.pc = e.b.And(w.pc, f.v.pc)
		}
	}
	w.put = func(st *State, p *Node) {
		for _, f := range fs {
			f.v.put(st, e.ptrN(p.Name, p.Path+"."+f.name))
		}
	}
	w.eq = func(st *State, p *Node) *B {
		r := e.b.T
		for _, f := range fs {
			if !f.skip && f.tag != "-" {
				r = e.b.And(r, f.v.eq(st, e.ptrN(p.Name, p.Path+"."+f.name)))
			}
		}
		return r
	}
	return w
}

func orderTag(tag string) int {
	n := 0
	for _, part := range strings.Split(tag, ",") {
		part = strings.TrimSpace(part)
		if part != "" && strings.Trim(part, "0123456789") == "" {
			fmt.Sscanf(part, "%d", &n)
			return n
		}
	}
	return 0
}

func (k *codec) pointer(x *wv) *wv {
	e := k.e
	t := types.NewPointer(x.t)
	w := &wv{t: t, bits: x.bits, pc: x.pc, kids: []*wv{x}, desc: "pointer to " + x.desc}
	w.put = func(st *State, p *Node) {
		obj := k.fresh("w:obj") + "\x00"
		x.put(st, e.ptrN(obj, ""))
		e.store(st, p, t, e.v(e.ptrN(obj, "")), e.b.T)
	}
	w.eq = func(st *State, p *Node) *B {
		r := e.b.F
		for _, a := range e.under(e.load(st, p, t), st.pc).alts {
			if a.n.Op != "nil" {
				r = e.b.Or(r, e.b.And(a.g, x.eq(st, e.ptrOf(st, a.n))))
			}
		}
		return r
	}
	return w
}

// unset is a field whose value does not matter.
func (k *codec) unset(t types.Type) *wv {
	return &wv{t: t, pc: k.e.b.T, desc: "unset", put: func(*State, *Node) {}, eq: func(*State, *Node) *B { return k.e.b.T }}
}

// fullBox is the embedded FullBox with a constant version and unknown flags satisfying cond.
func (k *codec) fullBox(version uint8, cond func(flags []*B) *B) *wv {
	fl := k.symBits(24, k.fresh("flags"))
	w := k.fullBoxBits(version, fl)
	if cond != nil {
		w.pc = cond(fl)
	}
	return w
}

func (k *codec) fullBoxBits(version uint8, fl []*B) *wv {
	e := k.e
	t := k.r.Root.Pkg.Scope().Lookup("FullBox").Type()
	w := &wv{t: t, pc: e.b.T, flags: fl, desc: fmt.Sprintf("version %d", version)}
	for i := 7; i >= 0; i-- {
		w.bits = append(w.bits, e.b.Bool(version>>uint(i)&1 != 0))
	}
	w.bits = append(w.bits, revBits(fl)...)
	w.put = func(st *State, p *Node) {
		e.store(st, e.ptrN(p.Name, p.Path+".Version"), byteT, e.intV(uint64(version), 8), e.b.T)
		for i := 0; i < 3; i++ {
			e.store(st, e.ptrN(p.Name, fmt.Sprintf("%s.Flags[%d]", p.Path, i)), byteT, e.v(e.bvN(fl[16-8*i:24-8*i])), e.b.T)
		}
	}
	w.eq = func(st *State, p *Node) *B {
		r := k.eqV(st, e.load(st, e.ptrN(p.Name, p.Path+".Version"), byteT), e.intV(uint64(version), 8), 8)
		for i := 0; i < 3; i++ {
			r = e.b.And(r, k.eqV(st, e.load(st, e.ptrN(p.Name, fmt.Sprintf("%s.Flags[%d]", p.Path, i)), byteT), e.v(e.bvN(fl[16-8*i:24-8*i])), 8))
		}
		return r
	}
	return w
}

// ---------------------------------------------------------------- whole boxes

type wbox struct {
	*wv
	w     *wit
	named *types.Named
	st    *State // after registration
	check func(payload int) string
	prep  func(st *State, p *Node) // what the caller sets before Marshal and Unmarshal
	ctx   *V
}

// realBox is a witness of one of the repository's own boxes; fields in wire order.
func (k *codec) realBox(named *types.Named, code string, fs []wfield) *wbox {
	e := k.e
	b := &wbox{wv: k.wireRecord(named, fs), named: named}
	st := e.newState()
	st.pc = e.b.T
	b.st = st
	k.panics, k.undec = nil, nil
	// boxes usable under several codes carry theirs in a field
	path := ""
	var find func(t types.Type, at string)
	find = func(t types.Type, at string) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Embedded() {
				continue
			}
			if f.Name() == "AnyTypeBox" {
				path = at + ".AnyTypeBox.Type"
				return
			}
			find(f.Type(), at+"."+f.Name())
		}
	}
	find(named, "")
	if path != "" {
		b.prep = func(st *State, p *Node) {
			e.store(st, e.ptrN(p.Name, p.Path+path), k.r.Root.Pkg.Scope().Lookup("BoxType").Type(), k.typeV(code), e.b.T)
		}
	}
	return b
}

// context is a context with the given members; the others have their zero value.
func (k *codec) context(m map[string]uint64) *V {
	e := k.e
	t := k.r.Root.Pkg.Scope().Lookup("Context").Type()
	s := t.Underlying().(*types.Struct)
	n := Node{Op: "struct", T: t}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x := m[f.Name()]
		if isBool(f.Type()) {
			n.Elems = append(n.Elems, e.boolV(e.b.Bool(x != 0)))
		} else {
			n.Elems = append(n.Elems, e.intV(x, 64))
		}
	}
	return e.v(e.mk(n))
}

// roundTrip checks both directions.
func (k *codec) roundTrip(b *wbox, tail bool) string {
	if r := k.marshal(b); r != "" {
		return r
	}
	n := len(b.bits) / 8
	if r := k.decodes(b, n, 0); r != "" {
		return r
	}
	if r := k.decodes(b, n, 3); r != "" {
		return "followed by other data: " + r
	}
	if !tail {
		if r := k.decodes(b, n+5, 7); r != "" {
			return "in a larger payload: " + r
		}
	}
	return ""
}

func (b *wbox) context(k *codec) *V {
	if b.ctx != nil {
		return b.ctx
	}
	return k.ctx()
}

// box makes a witness box and registers it under its own code.
func (k *codec) box(w *wit, fs []wfield, versions ...uint8) *wbox {
	e := k.e
	if w.emb == "" {
		w.emb = "Box"
	}
	w.code = "wtns"
	if w.emb == "Box" {
		fs = append([]wfield{{name: "Box", tag: "-", emb: true, v: k.unset(k.r.Root.Pkg.Scope().Lookup("Box").Type())}}, fs...)
	}
	named := types.NewNamed(types.NewTypeName(token.NoPos, k.r.Root.Pkg, k.fresh("Witness"), nil), types.NewStruct(nil, nil), nil)
	b := &wbox{w: w, named: named}
	b.wv = k.record(named, fs)
	k.wits[named] = w
	st := e.newState()
	st.pc = e.b.T
	fn := k.r.Root.Func("AddBoxDef")
	if fn == nil {
		k.und("AddBoxDef is missing")
		return b
	}
	var vs []*V
	for _, v := range versions {
		vs = append(vs, e.intV(uint64(v), 8))
	}
	obj := k.fresh("w:reg") + "\x00"
	p := e.mk(Node{Op: "iface", T: types.NewPointer(named), Elems: []*V{e.v(e.ptrN(obj, ""))}})
	var vsl *V
	if len(vs) == 0 {
		vsl = e.nilV()
	} else {
		vsl = e.v(e.bytesSlice(st, k.fresh("w:vers")+"\x00", vs, types.NewSlice(byteT)))
	}
	e.steps = 0
	k.panics, k.undec = nil, nil
	_, st = e.joinRets(e.Run(fn, st, []*V{e.v(p), vsl}, nil, nil, k.fresh("reg")+"/"))
	b.st = st
	return b
}

// nest makes a nested structure with its own custom methods.
func (k *codec) nest(w *wit, fs []wfield) *wv {
	w.emb = "BaseCustomFieldObject"
	fs = append([]wfield{{name: "BaseCustomFieldObject", tag: "-", emb: true, v: k.unset(k.r.Root.Pkg.Scope().Lookup("BaseCustomFieldObject").Type())}}, fs...)
	named := types.NewNamed(types.NewTypeName(token.NoPos, k.r.Root.Pkg, k.fresh("WitnessPart"), nil), types.NewStruct(nil, nil), nil)
	k.wits[named] = w
	return k.record(named, fs)
}

func (k *codec) bytes(bits []*B) []*V {
	var out []*V
	for i := 0; i+8 <= len(bits); i += 8 {
		out = append(out, k.e.v(k.e.bvN(revBits(bits[i:i+8]))))
	}
	return out
}

func (k *codec) ctx() *V {
	return k.e.symVal("ctx", k.r.Root.Pkg.Scope().Lookup("Context").Type())
}

// outcome of a run: the state after the return and the results.
type outcome struct {
	st   *State
	vals []*V
	pc   *B // assumption at the start
}

func (k *codec) call(name string, st *State, pc *B, args ...*V) *outcome {
	fn := k.r.Root.Func(name)
	if fn == nil {
		k.und("%s is missing", name)
		return nil
	}
	return k.run(fn, st, pc, args...)
}

func (k *codec) run(fn *ssa.Function, st *State, pc *B, args ...*V) *outcome {
	st = st.clone()
	st.pc = pc
	k.e.steps = 0
	k.e.Events = nil
	k.last = ""
	v, end := k.e.joinRets(k.e.Run(fn, st, args, nil, nil, k.fresh("run")+"/"))
	o := &outcome{st: end, pc: pc}
	if v != nil && len(v.alts) == 1 && v.alts[0].n.Op == "tuple" {
		o.vals = v.alts[0].n.Elems
	} else {
		o.vals = []*V{v}
	}
	return o
}

// failing: the condition under which the error result is not nil.
func (k *codec) failing(o *outcome, i int) *B {
	e := k.e
	r := e.b.F
	for _, a := range o.vals[i].alts {
		r = e.b.Or(r, e.b.And(a.g, e.b.Not(e.cmp(o.st, token.EQL, a.n, e.nilN(nil), types.Universe.Lookup("error").Type(), 0, false, false))))
	}
	return e.b.And(r, o.st.pc)
}

// must states that cond holds whenever the run ends.
func (k *codec) must(o *outcome, cond *B) bool {
	return k.e.b.And(o.st.pc, k.e.b.Not(cond)) == k.e.b.F
}

func (k *codec) why() string {
	var out []string
	if len(k.panics) > 0 {
		out = append(out, "panics reachable: "+strings.Join(k.panics, ", "))
	}
	if len(k.undec) > 0 {
		out = append(out, "not decided: "+strings.Join(k.undec, ", "))
	}
	for i, ev := range k.e.Events {
		if i > 5 {
			break
		}
		out = append(out, "call not modelled: "+ev.Name+" in "+ev.In.String())
	}
	if len(out) == 0 {
		return ""
	}
	return " (" + strings.Join(out, "; ") + ")"
}

// marshal checks that Marshal of the witness writes exactly its encoding. The result is empty or says
// what is wrong.
func (k *codec) marshal(b *wbox) string {
	e := k.e
	if b.st == nil {
		return "the structure cannot be registered" + k.why()
	}
	st := b.st.clone()
	obj := k.fresh("w:src") + "\x00"
	st.base[obj] = "src"
	b.put(st, e.ptrN(obj, ""))
	if b.prep != nil {
		b.prep(st, e.ptrN(obj, ""))
	}
	src := e.v(e.mk(Node{Op: "iface", T: types.NewPointer(b.named), Elems: []*V{e.v(e.ptrN(obj, ""))}}))
	st.ghost["out"] = e.v(e.mk(Node{Op: "blist"}))
	o := k.call("Marshal", st, b.pc, e.v(e.mk(Node{Op: "sym", Name: outName, T: types.Typ[types.Invalid]})), src, b.context(k))
	if o == nil || o.st == nil {
		return "Marshal never returns" + k.why()
	}
	if e.b.And(b.pc, e.b.Not(o.st.pc)) != e.b.F {
		return "Marshal does not return for some values" + k.why()
	}
	if len(o.vals) != 2 {
		return "Marshal's results are not determined" + k.why()
	}
	if k.failing(o, 1) != e.b.F {
		return "Marshal may return an error" + k.why()
	}
	want := k.bytes(b.bits)
	outv := e.under(o.st.ghost["out"], o.st.pc)
	same := e.b.F
	for _, a := range outv.alts {
		if a.n.Op != "blist" {
			continue
		}
		if len(a.n.Elems) == len(want) {
			same = e.b.Or(same, e.b.And(a.g, e.eqBytes(a.n.Elems, want)))
		}
	}
	if !k.must(o, same) {
		if n := outv.single(); n != nil && len(n.Elems) != len(want) {
			return fmt.Sprintf("Marshal writes %d bytes where the encoding has %d%s", len(n.Elems), len(want), k.why())
		} else if n != nil {
			for i := range want {
				if !k.must(o, e.eqBytes(n.Elems[i:i+1], want[i:i+1])) {
					return fmt.Sprintf("byte %d written is not the one of the encoding%s", i, k.why())
				}
			}
		}
		return "the bytes written are not the encoding" + k.why()
	}
	if !k.must(o, k.eqV(o.st, o.vals[0], e.intV(uint64(len(want)), 64), 64)) {
		return fmt.Sprintf("Marshal returns n = %s after writing %d bytes", o.vals[0], len(want)) + k.why()
	}
	if len(k.undec) > 0 {
		return "not decided" + k.why()
	}
	return ""
}

// unmarshal decodes the bytes (plus extra bytes after the payload) into a structure of unknown content.
func (k *codec) unmarshal(b *wbox, bits []*B, pc *B, payload int, extra int) (*outcome, string, *Node) {
	e := k.e
	if b.st == nil {
		return nil, "the structure cannot be registered" + k.why(), nil
	}
	st := b.st.clone()
	obj := k.fresh("w:dst") + "\x00"
	st.base[obj] = k.fresh("dst")
	k.input = nil
	for i := 0; i < k.lead; i++ {
		k.input = append(k.input, e.v(e.bvN(k.symBits(8, k.fresh("before")))))
	}
	k.input = append(k.input, k.bytes(bits)...)
	for i := 0; i < extra; i++ {
		k.input = append(k.input, e.v(e.bvN(k.symBits(8, k.fresh("after")))))
	}
	st.ghost["rpos"] = e.intV(uint64(k.lead), 64)
	p := e.ptrN(obj, "")
	if b.prep != nil {
		b.prep(st, p)
	}
	dst := e.v(e.mk(Node{Op: "iface", T: types.NewPointer(b.named), Elems: []*V{e.v(p)}}))
	o := k.call("Unmarshal", st, pc, e.v(e.mk(Node{Op: "sym", Name: inName, T: types.Typ[types.Invalid]})), e.intV(uint64(payload), 64), dst, b.context(k))
	if o == nil || o.st == nil {
		return nil, "Unmarshal never returns" + k.why(), p
	}
	if e.b.And(pc, e.b.Not(o.st.pc)) != e.b.F {
		return nil, "Unmarshal does not return for some inputs" + k.why(), p
	}
	if len(o.vals) != 2 {
		return nil, "Unmarshal's results are not determined" + k.why(), p
	}
	return o, "", p
}

// decodes checks that Unmarshal of the encoding restores the value.
func (k *codec) decodes(b *wbox, payload, extra int) string {
	e := k.e
	o, bad, p := k.unmarshal(b, b.bits, b.pc, payload, extra)
	if bad != "" {
		return bad
	}
	if k.failing(o, 1) != e.b.F {
		return "Unmarshal may return an error for a well-formed encoding" + k.why()
	}
	n := len(b.bits) / 8
	if !k.must(o, k.eqV(o.st, o.vals[0], e.intV(uint64(n), 64), 64)) {
		return fmt.Sprintf("Unmarshal returns n = %s for an encoding of %d bytes", o.vals[0], n) + k.why()
	}
	if !k.must(o, k.eqV(o.st, k.ghost(o.st, "rpos"), e.intV(uint64(n+k.lead), 64), 64)) {
		return fmt.Sprintf("Unmarshal leaves the reader at %s after an encoding of %d bytes", k.ghost(o.st, "rpos"), n) + k.why()
	}
	if !k.must(o, b.eq(o.st, p)) {
		return "the decoded fields differ from the encoded ones" + k.why()
	}
	if len(k.undec) > 0 {
		return "not decided" + k.why()
	}
	if b.check != nil {
		return b.check(payload)
	}
	return ""
}
