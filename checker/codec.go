package main

// Interpretation of Marshal and Unmarshal on witness structures: structures whose shape (fields, tags,
// element counts, string lengths) is fixed here and whose values are unknown bits.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const inName, outName = "input", "output"

// wit describes the methods of one witness structure.
type wit struct {
	code    string
	emb     string // embedded Box or FullBox
	sizes   map[string]uint64
	lens    map[string]uint64
	opts    map[string]bool
	onRead  func(k *codec, cc *CallCtx, field string) *V
	onWrite func(k *codec, cc *CallCtx, field string) *V
	before  func(k *codec, cc *CallCtx) *V
	cfo     *types.Named // the structure implementing the custom methods, when nested
}

type codec struct {
	text     bool // texts are followed, with numbers as fragments
	noFlags  bool // of a numbered item
	escaping bool // EscapeUnprintables itself is followed
	graphic  func(v *V) (*B, bool)
	beyond   int // bytes by which decoding begins behind the end
	c        *Check
	r        *Repo
	e        *Eng
	wits     map[types.Type]*wit
	input    []*V
	divs     []*Node // quotients compared
	facts    []*B    // what is known about the unknowns
	inBase   int     // where the input begins
	end      int64   // bytes of input that exist
	undec    []string
	panics   []string
	last     string // where the stream was touched last
	n        int
	reads    []string
	lead     int // bytes of the reader before the payload
}

func newCodec(c *Check) *codec {
	k := &codec{c: c, r: c.R, e: newEng(c.R), wits: map[types.Type]*wit{}, lead: 2}
	e := k.e
	e.Concrete = true
	e.MaxStep = 20000000
	e.MaxDep = 200
	e.b.SymMajor = true
	e.Unroll = 5000
	e.OnCall = k.onCall
	e.OnInvoke = k.onInvoke
	e.SplitOn = k.splitOn
	e.OnPanic = func(st *State, fr *frame, in ssa.Instruction) {
		k.panics = append(k.panics, fmt.Sprintf("%s (%s)", fr.fn, k.r.Pos(in.Pos())))
	}
	e.initGlobals()
	k.panics = nil
	return k
}

func (k *codec) und(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, x := range k.undec {
		if x == s {
			return
		}
	}
	k.undec = append(k.undec, s)
}

// chain: the repository functions on the stack, outermost first.
func (k *codec) chain(fr *frame) string {
	var out []string
	for f := fr; f != nil; f = f.parent {
		if f.fn.Pkg == k.r.Root && (len(out) == 0 || out[0] != f.fn.Name()) {
			out = append([]string{f.fn.Name()}, out...)
		}
	}
	return strings.Join(out, " > ")
}

// ---------------------------------------------------------------- witness methods

func (k *codec) onInvoke(cc *CallCtx, n *Node) (*V, bool) {
	e := k.e
	m := cc.com.Method.Name()
	if n.Op == "sym" && (n.Name == inName || n.Name == outName) {
		return k.stream(cc, n.Name, m)
	}
	if n.Op != "iface" {
		return nil, false
	}
	w := k.wits[deref(n.T)]
	if w == nil {
		return nil, false
	}
	name := ""
	if len(cc.Args) > 1 {
		name, _ = constStr(cc.Args[1])
	}
	switch m {
	case "GetType":
		return k.typeV(w.code), true
	case "GetFieldSize":
		if x, ok := w.sizes[name]; ok {
			return e.intV(x, 64), true
		}
	case "GetFieldLength":
		if x, ok := w.lens[name]; ok {
			return e.intV(x, 64), true
		}
	case "IsOptFieldEnabled":
		if x, ok := w.opts[name]; ok {
			return e.boolV(e.b.Bool(x)), true
		}
	case "BeforeUnmarshal":
		if w.before != nil {
			return w.before(k, cc), true
		}
	case "OnReadField":
		if w.onRead != nil {
			if v := w.onRead(k, cc, name); v != nil {
				return v, true
			}
		}
	case "OnWriteField":
		if w.onWrite != nil {
			if v := w.onWrite(k, cc, name); v != nil {
				return v, true
			}
		}
	}
	if w.emb == "" {
		return nil, false
	}
	et := types.NewPointer(k.r.Root.Pkg.Scope().Lookup(w.emb).Type())
	fn := e.r.Prog.LookupMethod(et, k.r.Root.Pkg, m)
	if fn == nil {
		return nil, false
	}
	p := n.Elems[0].single()
	if p == nil {
		return nil, false
	}
	p = e.ptrOf(cc.st, p)
	v, ns := e.callFn(cc.st, cc.fr, cc.in, fn, append([]*V{e.v(e.ptrN(p.Name, p.Path+"."+w.emb))}, cc.Args[1:]...), nil)
	if ns == nil {
		cc.st.pc = e.b.F
		return nil, true
	}
	if ns != cc.st {
		*cc.st = *ns
	}
	if v == nil {
		v = e.nilV()
	}
	return v, true
}

func (k *codec) typeV(code string) *V {
	n := Node{Op: "array", T: k.r.Root.Pkg.Scope().Lookup("BoxType").Type()}
	for i := 0; i < 4; i++ {
		n.Elems = append(n.Elems, k.e.intV(uint64(code[i]), 8))
	}
	return k.e.v(k.e.mk(n))
}

// ---------------------------------------------------------------- streams

func (k *codec) eof() *V {
	return k.e.v(k.e.mk(Node{Op: "sym", Name: "g:io.EOF", T: types.Universe.Lookup("error").Type()}))
}

func (k *codec) stream(cc *CallCtx, name, m string) (*V, bool) {
	k.last = k.chain(cc.fr)
	if name == inName {
		switch m {
		case "Read":
			return k.read(cc, "rpos", k.input, cc.Args[1]), true
		case "Seek":
			return k.seek(cc, "rpos", k.inBase+len(k.input)), true
		}
	} else if m == "Write" {
		return k.write(cc, "out", cc.Args[1]), true
	}
	return nil, false
}

func (k *codec) ghost(st *State, g string) *V {
	if v := st.ghost[g]; v != nil {
		return k.e.ints(k.e.under(v, st.pc), st.pc)
	}
	return k.e.intV(0, 64)
}

// read copies bytes of content to a slice and moves the position.
func (k *codec) read(cc *CallCtx, pos string, content []*V, dst *V) *V {
	e, st := k.e, cc.st
	ln, ok := e.constLen(st, dst)
	if !ok {
		k.und("%s reads into a slice of unknown length", k.chain(cc.fr))
		return e.symVal("read@"+e.site(cc.fr, cc.in), cc.com.Signature().Results())
	}
	p := k.ghost(st, pos)
	dst = e.under(dst, st.pc)
	var np, ns, errs []alt
	for _, a := range p.alts {
		if a.n.Op != "int" {
			k.und("%s reads at an unknown position", k.chain(cc.fr))
			return e.symVal("read@"+e.site(cc.fr, cc.in), cc.com.Signature().Results())
		}
		at := int(int64(a.n.C))
		if pos == "rpos" {
			at -= k.inBase
		}
		m := len(content) - at
		if at < 0 {
			k.und("%s reads data the case does not describe", k.chain(cc.fr))
			m = 0
		}
		if m > ln {
			m = ln
		}
		if m < 0 {
			m = 0
		}
		for i := 0; i < m; i++ {
			for _, d := range dst.alts {
				g := e.b.Restrict(e.b.And(a.g, d.g), st.pc)
				e.store(st, e.sliceElem(st, d.n, e.intN(uint64(i), 64)), byteT, content[at+i], g)
			}
		}
		np = append(np, alt{a.g, e.intN(a.n.C+uint64(m), 64)})
		ns = append(ns, alt{a.g, e.intN(uint64(m), 64)})
		if m == 0 && ln > 0 {
			errs = append(errs, alt{a.g, k.eof().single()})
		} else {
			errs = append(errs, alt{a.g, e.nilN(nil)})
		}
	}
	st.ghost[pos] = e.norm(np, st.pc)
	return e.tuple(e.norm(ns, st.pc), e.norm(errs, st.pc))
}

func (k *codec) seek(cc *CallCtx, pos string, size int) *V {
	e, st := k.e, cc.st
	off, wh := cc.Args[1], e.under(cc.Args[2], st.pc).single()
	if wh == nil || wh.Op != "int" || wh.C > 2 {
		k.und("%s seeks with an unknown origin", k.chain(cc.fr))
		return e.symVal("seek@"+e.site(cc.fr, cc.in), cc.com.Signature().Results())
	}
	base := e.intV(0, 64)
	switch wh.C {
	case 1:
		base = k.ghost(st, pos)
	case 2:
		base = e.intV(uint64(size), 64)
	}
	np := e.add64(st, base, e.under(off, st.pc))
	if e.WideLt {
		np = e.ints(np, st.pc)
	}
	for _, a := range np.alts {
		if a.n.Op != "int" {
			if os.Getenv("MP4VERIF_DEBUG") != "" {
				println("SEEK", len(np.alts), a.n.String(), a.n.W)
			}
			k.und("%s seeks to an unknown position", k.chain(cc.fr))
			return e.symVal("seek@"+e.site(cc.fr, cc.in), cc.com.Signature().Results())
		}
	}
	var keep, res, errs []alt
	cur := k.ghost(st, pos)
	for _, a := range np.alts {
		if int64(a.n.C) < 0 {
			for _, c := range cur.alts {
				keep = append(keep, alt{e.b.And(a.g, c.g), c.n})
			}
			res = append(res, alt{a.g, e.intN(0, 64)})
			errs = append(errs, alt{a.g, e.newErr(cc).single()})
			continue
		}
		keep = append(keep, a)
		res = append(res, a)
		errs = append(errs, alt{a.g, e.nilN(nil)})
	}
	st.ghost[pos] = e.norm(keep, st.pc)
	return e.tuple(e.norm(res, st.pc), e.norm(errs, st.pc))
}

// write appends the bytes of a slice to a list kept as a ghost.
func (k *codec) write(cc *CallCtx, out string, src *V) *V {
	e, st := k.e, cc.st
	cur := st.ghost[out]
	if cur == nil {
		cur = e.v(e.mk(Node{Op: "blist"}))
	}
	src = e.under(src, st.pc)
	bad := false
	nv := e.map2(cur, src, st.pc, func(b, s *Node) *V {
		bs, ok := e.bytesOf(st, s)
		if !ok || b.Op != "blist" {
			bad = true
			return e.v(b)
		}
		return e.v(e.mk(Node{Op: "blist", Elems: append(append([]*V{}, b.Elems...), bs...)}))
	})
	if bad {
		k.und("%s writes a slice of unknown length", k.chain(cc.fr))
	}
	st.ghost[out] = nv
	return e.tuple(e.lenV(st, src), e.nilV())
}

// ---------------------------------------------------------------- library models

// splitOn: library functions that read the stream are followed separately for each position.
func (k *codec) splitOn(st *State, com *ssa.CallCommon, args []*V) *V {
	fn := com.StaticCallee()
	if fn == nil || fn.Pkg == nil {
		return nil
	}
	switch fn.Pkg.Pkg.Path() {
	case "io", "encoding/binary", "bytes", "strings", "bufio":
	default:
		return nil
	}
	if p := k.e.intAlts(k.ghost(st, "rpos"), st.pc); len(p.alts) > 1 {
		for _, a := range p.alts {
			if a.n.Op != "int" {
				return nil
			}
		}
		return p
	}
	if fn.String() == "(*bytes.Buffer).Bytes" {
		if p := k.e.under(args[0], st.pc).single(); p != nil && p.Op == "ptr" {
			if v := st.cells(p.Name)[p.Path+".#buf"]; v != nil {
				if v = k.e.under(v, st.pc); len(v.alts) > 1 {
					return v
				}
			}
		}
		return nil
	}
	if fn.Signature.Recv() != nil || fn.Signature.Params().Len() == 0 {
		return nil
	}
	for i, a := range args {
		if _, _, ok := intWidth(fn.Signature.Params().At(min(i, fn.Signature.Params().Len()-1)).Type()); ok {
			if a = k.e.intAlts(a, st.pc); len(a.alts) > 1 {
				return a
			}
		}
	}
	return nil
}

func (k *codec) onCall(cc *CallCtx) (*V, bool) {
	e, st := k.e, cc.st
	if k.text {
		if v, ok := k.textCall(cc); ok {
			return v, true
		}
	}
	if v, ok := e.reflectCall(cc); ok {
		return v, true
	}
	if v, ok := e.constCall(cc); ok {
		return v, true
	}
	if v, ok := e.byteCall(cc); ok {
		return v, true
	}
	if v, ok := e.sortCall(cc); ok {
		return v, true
	}
	obj := "a:" + e.site(cc.fr, cc.in) + "\x00"
	switch cc.Name {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		return e.tuple(e.intV(0, 64), e.nilV()), true
	case "errors.Is":
		a, b := e.under(cc.Args[0], st.pc), e.under(cc.Args[1], st.pc)
		c := e.b.F
		for _, x := range a.alts {
			for _, y := range b.alts {
				if x.n == y.n {
					c = e.b.Or(c, e.b.And(x.g, y.g))
				}
			}
		}
		return e.boolV(c), true
	case "io.ReadFull", "io.ReadAtLeast":
		return k.readFull(cc, cc.Args[0], cc.Args[1])
	case "io.CopyN", "io.Copy":
		lim := -1
		if cc.Name == "io.CopyN" {
			n := e.intAlts(cc.Args[2], st.pc).single()
			if n == nil || n.Op != "int" {
				k.und("%s copies an unknown number of bytes", k.chain(cc.fr))
				return nil, false
			}
			lim = int(int64(n.C))
			if lim < 0 {
				lim = 0
			}
		}
		return k.copy(cc, cc.Args[0], cc.Args[1], lim)
	case "io.ReadAll":
		bs, err, ok := k.drain(cc, cc.Args[0], -1)
		if !ok {
			return nil, false
		}
		if err == nil {
			err = e.nilV()
		}
		st.dropAll(obj)
		return e.tuple(e.v(e.bytesSlice(st, obj, bs, types.NewSlice(byteT))), err), true
	case "io.LimitReader":
		st.dropAll(obj)
		return e.v(e.mk(Node{Op: "limit", Args: []*Node{e.ptrN(obj, "")}, Elems: []*V{cc.Args[0], cc.Args[1]}})), true
	case "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader":
		bs, ok := e.bytesV(st, cc.Args[0])
		if !ok {
			k.und("%s wraps bytes of unknown length", k.chain(cc.fr))
			return nil, false
		}
		st.dropAll(obj)
		p := e.ptrN(obj, "")
		k.bufSet(st, p, bs)
		return e.v(p), true
	case "encoding/binary.Read":
		return k.binRead(cc)
	case "encoding/binary.Write":
		return k.binWrite(cc)
	}
	for _, t := range []string{"(*bytes.Buffer).", "(*bytes.Reader).", "(*strings.Builder).", "(*strings.Reader)."} {
		if m, ok := strings.CutPrefix(cc.Name, t); ok {
			return k.buffer(cc, m, obj)
		}
	}
	return nil, false
}

func (k *codec) bufSet(st *State, p *Node, bs []*V) {
	st.own(p.Name)[p.Path+".#buf"] = k.e.v(k.e.mk(Node{Op: "blist", Elems: append([]*V{}, bs...)}))
}

func (k *codec) bufGet(st *State, p *Node) ([]*V, bool) {
	v := st.cells(p.Name)[p.Path+".#buf"]
	if v == nil {
		return nil, true
	}
	n := k.e.under(v, st.pc).single()
	if n == nil || n.Op != "blist" {
		return nil, false
	}
	return n.Elems, true
}

// bufferAlts: operations on a buffer whose content is one of several.
func (k *codec) bufferAlts(cc *CallCtx, m string, p *Node) (*V, bool) {
	e, st := k.e, cc.st
	cur := st.cells(p.Name)[p.Path+".#buf"]
	if cur == nil {
		return nil, false
	}
	cur = e.under(cur, st.pc)
	if len(cur.alts) < 2 {
		return nil, false
	}
	for _, a := range cur.alts {
		if a.n.Op != "blist" {
			return nil, false
		}
	}
	var res, errs, next []alt
	keep := func(a alt, bs []*V) {
		next = append(next, alt{a.g, e.mk(Node{Op: "blist", Elems: append([]*V{}, bs...)})})
	}
	put := func(v *V, g *B) {
		for _, x := range v.alts {
			res = append(res, alt{e.b.And(g, x.g), x.n})
		}
	}
	switch m {
	case "Len":
		for _, a := range cur.alts {
			put(e.intV(uint64(len(a.n.Elems)), 64), a.g)
		}
		return e.norm(res, st.pc), true
	case "String":
		for _, a := range cur.alts {
			put(e.bstr(a.n.Elems), a.g)
		}
		return e.norm(res, st.pc), true
	case "Write", "WriteString", "WriteByte":
		bs := []*V{cc.Args[1]}
		if m != "WriteByte" {
			var ok bool
			if bs, ok = e.bytesV(st, cc.Args[1]); !ok {
				return nil, false
			}
		}
		for _, a := range cur.alts {
			keep(a, append(append([]*V{}, a.n.Elems...), bs...))
		}
		st.own(p.Name)[p.Path+".#buf"] = e.norm(next, st.pc)
		if m == "WriteByte" {
			return e.nilV(), true
		}
		return e.tuple(e.intV(uint64(len(bs)), 64), e.nilV()), true
	case "ReadByte":
		for _, a := range cur.alts {
			if len(a.n.Elems) == 0 {
				put(e.intV(0, 8), a.g)
				errs = append(errs, alt{a.g, k.eof().single()})
				keep(a, nil)
				continue
			}
			put(a.n.Elems[0], a.g)
			errs = append(errs, alt{a.g, e.nilN(nil)})
			keep(a, a.n.Elems[1:])
		}
	case "Read":
		dst := e.under(cc.Args[1], st.pc)
		ln, ok := e.constLen(st, dst)
		if !ok || dst.single() == nil {
			return nil, false
		}
		for _, a := range cur.alts {
			n := min(ln, len(a.n.Elems))
			for i := 0; i < n; i++ {
				e.store(st, e.sliceElem(st, dst.single(), e.intN(uint64(i), 64)), byteT, a.n.Elems[i], e.b.Restrict(a.g, st.pc))
			}
			put(e.intV(uint64(n), 64), a.g)
			if n == 0 && ln > 0 {
				errs = append(errs, alt{a.g, k.eof().single()})
			} else {
				errs = append(errs, alt{a.g, e.nilN(nil)})
			}
			keep(a, a.n.Elems[n:])
		}
	default:
		return nil, false
	}
	st.own(p.Name)[p.Path+".#buf"] = e.norm(next, st.pc)
	return e.tuple(e.norm(res, st.pc), e.norm(errs, st.pc)), true
}

func (k *codec) buffer(cc *CallCtx, m, obj string) (*V, bool) {
	e, st := k.e, cc.st
	p := e.under(cc.Args[0], st.pc).single()
	if p == nil {
		return nil, false
	}
	p = e.ptrOf(st, p)
	if v, ok := k.bufferAlts(cc, m, p); ok {
		return v, true
	}
	bs, ok := k.bufGet(st, p)
	if !ok {
		k.und("%s uses a buffer of unknown content", k.chain(cc.fr))
		return nil, false
	}
	switch m {
	case "Len":
		return e.intV(uint64(len(bs)), 64), true
	case "Bytes":
		st.dropAll(obj)
		return e.v(e.bytesSlice(st, obj, bs, types.NewSlice(byteT))), true
	case "String":
		return e.bstr(bs), true
	case "Reset":
		k.bufSet(st, p, nil)
		return e.nilV(), true
	case "Grow":
		if e.OnMake != nil {
			e.OnMake(st, cc.fr, cc.Args[1], byteT)
		}
		return e.nilV(), true
	case "Write", "WriteString":
		x, ok := e.bytesV(st, cc.Args[1])
		if !ok {
			return nil, false
		}
		k.bufSet(st, p, append(append([]*V{}, bs...), x...))
		return e.tuple(e.intV(uint64(len(x)), 64), e.nilV()), true
	case "WriteByte":
		k.bufSet(st, p, append(append([]*V{}, bs...), cc.Args[1]))
		return e.nilV(), true
	case "ReadByte":
		if len(bs) == 0 {
			return e.tuple(e.intV(0, 8), k.eof()), true
		}
		k.bufSet(st, p, bs[1:])
		return e.tuple(bs[0], e.nilV()), true
	case "Read":
		dst := e.under(cc.Args[1], st.pc)
		ln, ok := e.constLen(st, dst)
		if !ok || dst.single() == nil {
			return nil, false
		}
		if len(bs) == 0 && ln > 0 {
			return e.tuple(e.intV(0, 64), k.eof()), true
		}
		if ln > len(bs) {
			ln = len(bs)
		}
		for i := 0; i < ln; i++ {
			e.store(st, e.sliceElem(st, dst.single(), e.intN(uint64(i), 64)), byteT, bs[i], e.b.T)
		}
		k.bufSet(st, p, bs[ln:])
		return e.tuple(e.intV(uint64(ln), 64), e.nilV()), true
	}
	k.und("no model of (*bytes.Buffer).%s", m)
	return nil, false
}

// pull reads up to n bytes once through the Read method of a value.
func (k *codec) pull(cc *CallCtx, r *V, n int) (bs []*V, err *V, ok bool) {
	e := k.e
	k.n++
	obj := fmt.Sprintf("a:pull%d\x00", k.n)
	s := e.v(e.sliceN(obj, n, types.NewSlice(byteT)))
	rn := e.under(r, cc.st.pc).single()
	if rn == nil {
		return nil, nil, false
	}
	var res *V
	switch {
	case rn.Op == "sym" && rn.Name == inName:
		res = k.read(cc, "rpos", k.input, s)
	case rn.Op == "iface":
		res = e.methodIn(cc, e.v(rn), "Read", s)
	}
	if res == nil {
		return nil, nil, false
	}
	rt := e.under(res, cc.st.pc).single()
	if rt == nil || rt.Op != "tuple" {
		return nil, nil, false
	}
	cnt := e.under(rt.Elems[0], cc.st.pc).single()
	if cnt == nil || cnt.Op != "int" || cnt.C > uint64(n) {
		k.und("%s: the number of bytes read is not known", k.chain(cc.fr))
		return nil, nil, false
	}
	for i := uint64(0); i < cnt.C; i++ {
		bs = append(bs, e.load(cc.st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), byteT))
	}
	return bs, e.under(rt.Elems[1], cc.st.pc), true
}

// drain reads up to lim bytes (-1: all) until an error; EOF is not an error.
func (k *codec) drain(cc *CallCtx, r *V, lim int) (out []*V, err *V, ok bool) {
	e := k.e
	for lim < 0 || len(out) < lim {
		n := 512
		if lim >= 0 {
			n = lim - len(out)
		}
		bs, er, ok := k.pull(cc, r, n)
		if !ok {
			return nil, nil, false
		}
		out = append(out, bs...)
		x := er.single()
		switch {
		case x == nil:
			k.und("%s: whether a read fails is not known", k.chain(cc.fr))
			return nil, nil, false
		case x.Op == "nil":
			if len(bs) == 0 {
				return nil, nil, false
			}
			continue
		case x == k.eof().single():
			return out, nil, true
		}
		return out, e.v(x), true
	}
	return out, nil, true
}

func (k *codec) global(name string) *V {
	return k.e.v(k.e.mk(Node{Op: "sym", Name: "g:" + name, T: types.Universe.Lookup("error").Type()}))
}

func (k *codec) readFull(cc *CallCtx, r, dst *V) (*V, bool) {
	e, st := k.e, cc.st
	ln, ok := e.constLen(st, dst)
	if !ok {
		k.und("%s reads into a slice of unknown length", k.chain(cc.fr))
		return nil, false
	}
	if cc.Name == "io.ReadAtLeast" {
		if m, ok := constInt(cc.Args[2]); !ok || m != ln {
			return nil, false
		}
	}
	bs, err, ok := k.drain(cc, r, ln)
	if !ok {
		return nil, false
	}
	st = cc.st
	d := e.under(dst, st.pc).single()
	if d == nil {
		return nil, false
	}
	for i, b := range bs {
		e.store(st, e.sliceElem(st, d, e.intN(uint64(i), 64)), byteT, b, e.b.T)
	}
	switch {
	case err != nil:
	case len(bs) == ln:
		err = e.nilV()
	case len(bs) == 0:
		err = k.eof()
	default:
		err = k.global("io.ErrUnexpectedEOF")
	}
	return e.tuple(e.intV(uint64(len(bs)), 64), err), true
}

func (k *codec) copy(cc *CallCtx, dst, src *V, lim int) (*V, bool) {
	e := k.e
	bs, err, ok := k.drain(cc, src, lim)
	if !ok {
		return nil, false
	}
	if len(bs) > 0 {
		k.n++
		obj := fmt.Sprintf("a:push%d\x00", k.n)
		s := e.v(e.bytesSlice(cc.st, obj, bs, types.NewSlice(byteT)))
		res := k.push(cc, dst, s)
		if res == nil {
			return nil, false
		}
		if t := e.under(res, cc.st.pc).single(); t != nil && t.Op == "tuple" {
			if x := e.under(t.Elems[1], cc.st.pc).single(); x == nil || x.Op != "nil" {
				return e.tuple(e.under(t.Elems[0], cc.st.pc), t.Elems[1]), true
			}
		}
	}
	if err == nil {
		err = e.nilV()
		if lim >= 0 && len(bs) < lim {
			err = k.eof()
		}
	}
	return e.tuple(e.intV(uint64(len(bs)), 64), err), true
}

func (k *codec) push(cc *CallCtx, w, s *V) *V {
	e := k.e
	wn := e.under(w, cc.st.pc).single()
	if wn == nil {
		return nil
	}
	if wn.Op == "sym" && wn.Name == outName {
		k.last = k.chain(cc.fr)
		return k.write(cc, "out", s)
	}
	if wn.Op == "iface" {
		return e.methodIn(cc, e.v(wn), "Write", s)
	}
	return nil
}

// orderOf: big or little endian.
func orderOf(n *Node) string {
	if n != nil && n.Op == "iface" {
		return types.TypeString(n.T, nil)
	}
	if n != nil {
		return n.String()
	}
	return ""
}

func (k *codec) binRead(cc *CallCtx) (*V, bool) {
	e := k.e
	x := cc.Args[2].single()
	if x == nil || x.Op != "iface" {
		return nil, false
	}
	pt, ok := x.T.Underlying().(*types.Pointer)
	p := x.Elems[0].single()
	if !ok || p == nil {
		return nil, false
	}
	w, _, ok := intWidth(pt.Elem())
	if !ok {
		return nil, false
	}
	bs, err, ok := k.drain(cc, cc.Args[0], w/8)
	if !ok {
		return nil, false
	}
	if err != nil || len(bs) < w/8 {
		if err == nil {
			err = k.global("io.ErrUnexpectedEOF")
			if len(bs) == 0 {
				err = k.eof()
			}
		}
		return err, true
	}
	if strings.Contains(orderOf(cc.Args[1].single()), "little") {
		for i, j := 0, len(bs)-1; i < j; i, j = i+1, j-1 {
			bs[i], bs[j] = bs[j], bs[i]
		}
	}
	e.store(cc.st, e.ptrOf(cc.st, p), pt.Elem(), e.v(k.joinBytes(cc.st, bs)), e.b.T)
	return e.nilV(), true
}

func (k *codec) binWrite(cc *CallCtx) (*V, bool) {
	e := k.e
	x := cc.Args[2].single()
	if x == nil || x.Op != "iface" {
		return nil, false
	}
	w, _, ok := intWidth(x.T)
	if !ok {
		return nil, false
	}
	bits := k.bits(cc.st, x.Elems[0], w)
	var bs []*V
	for i := w/8 - 1; i >= 0; i-- {
		bs = append(bs, e.v(e.bvN(bits[8*i:8*i+8])))
	}
	if strings.Contains(orderOf(cc.Args[1].single()), "little") {
		for i, j := 0, len(bs)-1; i < j; i, j = i+1, j-1 {
			bs[i], bs[j] = bs[j], bs[i]
		}
	}
	k.n++
	s := e.v(e.bytesSlice(cc.st, fmt.Sprintf("a:push%d\x00", k.n), bs, types.NewSlice(byteT)))
	res := k.push(cc, cc.Args[0], s)
	if res == nil {
		return nil, false
	}
	if t := e.under(res, cc.st.pc).single(); t != nil && t.Op == "tuple" {
		return t.Elems[1], true
	}
	return nil, false
}

// bits of an integer value, least significant first.
func (k *codec) bits(st *State, v *V, w int) []*B {
	e := k.e
	v = e.under(v, st.pc)
	out := make([]*B, w)
	for i := range out {
		out[i] = e.b.F
	}
	for _, a := range v.alts {
		for i, b := range e.bitsOf(a.n, w) {
			out[i] = e.b.Or(out[i], e.b.And(a.g, b))
		}
	}
	return out
}

// joinBytes: a big-endian integer.
func (k *codec) joinBytes(st *State, bs []*V) *Node {
	bits := make([]*B, 8*len(bs))
	for i, b := range bs {
		copy(bits[8*(len(bs)-1-i):], k.bits(st, b, 8))
	}
	return k.e.bvN(bits)
}
