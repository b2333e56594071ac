package main

// R08: the methods of Box, FullBox, AnyTypeBox and Ftyp. R02: accessors that depend on the version or on a fixed-point format.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	checks["R02"] = func(c *Check) { runCodec(c, accessorCases(c), 35) }
	checks["R08"] = func(c *Check) { runCodec(c, registerCases(c), 670) }
}

// method runs a method of a structure in the given state.
func (k *codec) method(st *State, t types.Type, p *Node, name string, args ...*V) *outcome {
	e := k.e
	fn := k.r.Prog.LookupMethod(types.NewPointer(t), k.r.Root.Pkg, name)
	if fn == nil {
		k.und("%s has no method %s", t, name)
		return nil
	}
	e.steps = 0
	e.Events = nil
	k.last = ""
	v, end := e.joinRets(e.Run(fn, st, append([]*V{e.v(p)}, args...), nil, nil, k.fresh("m")+"/"))
	if end == nil {
		return nil
	}
	o := &outcome{st: end, pc: e.b.T, vals: []*V{v}}
	if v != nil && len(v.alts) == 1 && v.alts[0].n.Op == "tuple" {
		o.vals = v.alts[0].n.Elems
	}
	return o
}

// object is a structure with nothing known about it.
func (k *codec) object() (*State, *Node) {
	k.undec, k.panics = nil, nil
	st := k.e.newState()
	st.pc = k.e.b.T
	obj := k.fresh("w:obj") + "\x00"
	st.base[obj] = k.fresh("obj")
	return st, k.e.ptrN(obj, "")
}

// pathTo finds a field, embedded structures included.
func pathTo(t types.Type, name string) (string, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return "." + name, s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if p, ft := pathTo(s.Field(i).Type(), name); ft != nil {
				return "." + s.Field(i).Name() + p, ft
			}
		}
	}
	return "", nil
}

// wideBits are bits interleaved with those of other values they are compared with.
func (k *codec) wideBits(n int, name string) []*B {
	old := k.e.b.SymMajor
	k.e.b.SymMajor = false
	defer func() { k.e.b.SymMajor = old }()
	out := make([]*B, n)
	for i := range out {
		out[i] = k.e.b.BitVar(name, i, 64)
	}
	return out
}

func accessorCases(c *Check) []ccase {
	var out []ccase
	for _, line := range strings.Split(accessorText, "\n") {
		f := strings.Fields(line)
		if len(f) == 0 || strings.HasPrefix(f[0], "#") {
			continue
		}
		parts := strings.Split(f[1], ".")
		out = append(out, ccase{f[0], f[1], func(k *codec) string {
			t := goType(k.r, parts[0])
			if t == nil {
				return "the type " + parts[0] + " is missing"
			}
			if k.r.Prog.LookupMethod(types.NewPointer(t), k.r.Root.Pkg, parts[1]) == nil {
				return "the method is missing"
			}
			if f[0] == "ver" {
				return k.versioned(t, parts[1], f[2:])
			}
			return k.fixedPoint(t, parts[1], f[2], f[3], f[0] == "fix")
		}})
	}
	return out
}

// place resolves a field of the table; a field of a slice is that of element i of n.
func (k *codec) place(st *State, p *Node, t types.Type, path string, i, n int) (*Node, types.Type, string) {
	e := k.e
	head, rest, elem := strings.Cut(path, "[]")
	at, ft := pathTo(t, head)
	if ft == nil {
		return nil, nil, "the field " + head + " is missing"
	}
	q := e.ptrN(p.Name, p.Path+at)
	if !elem {
		return q, ft, ""
	}
	s, ok := ft.Underlying().(*types.Slice)
	if !ok {
		return nil, nil, head + " is no slice"
	}
	v := e.load(st, q, ft)
	if v.single() == nil || v.single().Op != "slice" {
		obj := k.fresh("w:elems") + "\x00"
		st.base[obj] = k.fresh("elems")
		e.store(st, q, ft, e.v(e.sliceN(obj, n, ft)), e.b.T)
		v = e.load(st, q, ft)
	}
	el := e.ptrN(v.single().Args[0].Name, fmt.Sprintf("[%d]", i))
	if rest == "" {
		return el, s.Elem(), ""
	}
	at, ft = pathTo(s.Elem(), rest[1:])
	if ft == nil {
		return nil, nil, "the field " + rest[1:] + " is missing"
	}
	return e.ptrN(el.Name, el.Path+at), ft, ""
}

func (k *codec) versioned(t types.Type, m string, fields []string) string {
	e := k.e
	n := 1
	if strings.Contains(fields[0], "[]") {
		n = 4
	}
	for i := 0; i < n; i++ {
		st, p := k.object()
		var want []*V
		for _, f := range fields {
			q, ft, bad := k.place(st, p, t, f, i, n)
			if bad != "" {
				return bad
			}
			want = append(want, k.widened(st, q, ft))
		}
		at, vt := pathTo(t, "Version")
		if vt == nil {
			return "the structure has no version"
		}
		ver := k.symBits(8, k.fresh("version"))
		e.store(st, e.ptrN(p.Name, p.Path+at), vt, e.v(e.bvN(ver)), e.b.T)
		var args []*V
		if n > 1 {
			args = append(args, e.intV(uint64(i), 64))
		}
		o := k.method(st, t, p, m, args...)
		if o == nil || len(o.vals) != 1 {
			return "never returns" + k.why()
		}
		if k.panicking() {
			return "may panic" + k.why()
		}
		rest := e.b.T
		for v, w := range want {
			is := k.isConst(revBits(ver), uint64(v))
			rest = e.b.And(rest, e.b.Not(is))
			if e.b.And(is, e.b.Not(k.eqV(o.st, o.vals[0], w, 64))) != e.b.F {
				return fmt.Sprintf("does not return %s for version %d", fields[v], v) + k.why()
			}
		}
		if e.b.And(rest, e.b.Not(k.eqV(o.st, o.vals[0], e.intV(0, 64), 64))) != e.b.F {
			return "does not return 0 for versions the field is not defined for" + k.why()
		}
		if len(k.undec) > 0 {
			return "not decided" + k.why()
		}
	}
	return ""
}

// widened is the value of an integer field as 64 bits.
func (k *codec) widened(st *State, q *Node, ft types.Type) *V {
	e := k.e
	w, signed, _ := intWidth(ft)
	bs := k.wideBits(w, k.fresh("f"))
	e.store(st, q, ft, e.v(e.bvN(bs)), e.b.T)
	return e.v(e.bvN(extend(bs, signed, e.b.F)))
}

func extend(bs []*B, signed bool, zero *B) []*B {
	full := append([]*B{}, bs...)
	for len(full) < 64 {
		if signed {
			full = append(full, bs[len(bs)-1])
		} else {
			full = append(full, zero)
		}
	}
	return full
}

func (k *codec) panicking() bool { return len(k.panics) > 0 }

func (k *codec) fixedPoint(t types.Type, m, field, frac string, float bool) string {
	e := k.e
	st, p := k.object()
	q, ft, bad := k.place(st, p, t, field, 0, 1)
	if bad != "" {
		return bad
	}
	w, signed, ok := intWidth(ft)
	if !ok {
		return "the field is no integer"
	}
	fb, _ := strconv.Atoi(frac)
	bs := k.wideBits(w, k.fresh("f"))
	e.store(st, q, ft, e.v(e.bvN(bs)), e.b.T)
	o := k.method(st, t, p, m)
	if o == nil || len(o.vals) != 1 {
		return "never returns" + k.why()
	}
	if k.panicking() {
		return "may panic" + k.why()
	}
	if !float {
		want := extend(bs, signed, e.b.F)[fb:]
		rw := w - fb
		if !k.must(o, k.eqV(o.st, o.vals[0], e.v(e.bvN(want[:rw])), rw)) {
			return "is not the integer part" + k.why()
		}
		return ""
	}
	for _, a := range e.under(o.vals[0], o.st.pc).alts {
		got, scale, ok := k.scaled(a.n)
		if !ok {
			return "is not decided to be the value divided by a power of two: " + a.n.String()
		}
		if !constant.Compare(scale, token.EQL, constant.BinaryOp(constant.MakeInt64(1), token.QUO, constant.MakeInt64(1<<fb))) {
			return fmt.Sprintf("scales the field by %s", scale)
		}
		want := extend(bs, signed, e.b.F)
		g := e.b.T
		for i := range want {
			g = e.b.And(g, e.b.Eq(want[i], got[i]))
		}
		if e.b.And(e.b.And(o.st.pc, a.g), e.b.Not(g)) != e.b.F {
			return "is not computed from the field's value" + k.why()
		}
	}
	return ""
}

// scaled: a floating-point number that is an integer times a constant.
func (k *codec) scaled(n *Node) ([]*B, constant.Value, bool) {
	switch n.Op {
	case "conv":
		a := n.Args[0]
		if strings.HasPrefix(n.Name, "float") {
			if a.Op == "conv" || a.Op == "binop" {
				return k.scaled(a)
			}
			if w := int(n.C & 0xffff); w > 0 {
				return extend(k.e.bitsOf(a, w), n.C>>16 != 0, k.e.b.F), constant.MakeInt64(1), true
			}
		}
	case "binop":
		op, _, _ := strings.Cut(n.Name, " ")
		x, y := n.Args[0], n.Args[1]
		if op == "*" && x.Op == "float" {
			x, y = y, x
		}
		if y.Op != "float" {
			return nil, nil, false
		}
		bs, s, ok := k.scaled(x)
		if !ok {
			return nil, nil, false
		}
		if op == "*" {
			return bs, constant.BinaryOp(s, token.MUL, constant.ToFloat(y.K)), true
		}
		if op == "/" && constant.Sign(y.K) != 0 {
			return bs, constant.BinaryOp(constant.ToFloat(s), token.QUO, constant.ToFloat(y.K)), true
		}
	}
	return nil, nil, false
}

// registerCases: flags and versions, default methods, types of boxes usable under several codes, brands.
func registerCases(c *Check) []ccase {
	var out []ccase
	add := func(kind, name string, f func(k *codec) string) { out = append(out, ccase{kind, name, f}) }
	l, err := parseLayout(layoutText)
	if err != nil {
		c.Bad("table", "-", "%v", err)
		return nil
	}
	seen := map[string]bool{"Box": true, "FullBox": true}
	names := []string{"Box", "FullBox"}
	for _, r := range l.Regs {
		if !seen[r.Type] {
			seen[r.Type] = true
			names = append(names, r.Type)
		}
	}
	u8 := types.Typ[types.Uint8]
	for _, name := range names {
		name := name
		run := func(what string, f func(k *codec, t types.Type, st *State, p *Node, full string) string) {
			add(what, name, func(k *codec) string {
				t := goType(k.r, name)
				if t == nil {
					return "the type is missing"
				}
				st, p := k.object()
				full := ""
				if name == "FullBox" {
					full = "."
				} else if at, ft := pathTo(t, "FullBox"); ft != nil {
					full = at + "."
				}
				r := f(k, t, st, p, full)
				if r == "" && k.panicking() {
					r = "may panic" + k.why()
				}
				if r == "" && len(k.undec) > 0 {
					r = "not decided" + k.why()
				}
				return r
			})
		}
		// flags holds the 24 bits of the register, least significant first
		flags := func(k *codec, st *State, p *Node, full string) []*B {
			var bs []*B
			for i := 2; i >= 0; i-- {
				bs = append(bs, k.bits(st, k.e.load(st, k.e.ptrN(p.Name, fmt.Sprintf("%s%sFlags[%d]", p.Path, full, i)), u8), 8)...)
			}
			return bs
		}
		setUp := func(k *codec, st *State, p *Node, full string) (ver, fl []*B) {
			ver = k.wideBits(8, k.fresh("version"))
			fl = k.wideBits(24, k.fresh("flags"))
			k.e.store(st, k.e.ptrN(p.Name, p.Path+full+"Version"), u8, k.e.v(k.e.bvN(ver)), k.e.b.T)
			for i := 0; i < 3; i++ {
				k.e.store(st, k.e.ptrN(p.Name, fmt.Sprintf("%s%sFlags[%d]", p.Path, full, i)), u8, k.e.v(k.e.bvN(fl[16-8*i:24-8*i])), k.e.b.T)
			}
			return
		}
		same := func(k *codec, a, b []*B) *B {
			r := k.e.b.T
			for i := range a {
				r = k.e.b.And(r, k.e.b.Eq(a[i], b[i]))
			}
			return r
		}
		keeps := func(k *codec, o *outcome, p *Node, full string, ver []*B) bool {
			return k.must(o, same(k, k.bits(o.st, k.e.load(o.st, k.e.ptrN(p.Name, p.Path+full+"Version"), u8), 8), ver))
		}
		for _, op := range []string{"SetFlags", "AddFlag", "RemoveFlag"} {
			op := op
			run(op, func(k *codec, t types.Type, st *State, p *Node, full string) string {
				arg := k.wideBits(32, k.fresh("arg"))
				if full == "" { // no register: nothing to observe
					if o := k.method(st, t, p, op, k.e.v(k.e.bvN(arg))); o == nil {
						return "never returns" + k.why()
					}
					return ""
				}
				ver, fl := setUp(k, st, p, full)
				o := k.method(st, t, p, op, k.e.v(k.e.bvN(arg)))
				if o == nil {
					return "never returns" + k.why()
				}
				want := make([]*B, 24)
				for i := range want {
					switch op {
					case "SetFlags":
						want[i] = arg[i]
					case "AddFlag":
						want[i] = k.e.b.Or(fl[i], arg[i])
					default:
						want[i] = k.e.b.And(fl[i], k.e.b.Not(arg[i]))
					}
				}
				if !k.must(o, same(k, flags(k, o.st, p, full), want)) {
					return "leaves other flags than it should" + k.why()
				}
				if !keeps(k, o, p, full, ver) {
					return "changes the version" + k.why()
				}
				return ""
			})
		}
		run("GetFlags", func(k *codec, t types.Type, st *State, p *Node, full string) string {
			want := make([]*B, 32)
			for i := range want {
				want[i] = k.e.b.F
			}
			var ver, fl []*B
			if full != "" {
				ver, fl = setUp(k, st, p, full)
				copy(want, fl)
			}
			o := k.method(st, t, p, "GetFlags")
			if o == nil {
				return "never returns" + k.why()
			}
			if !k.must(o, same(k, k.bits(o.st, o.vals[0], 32), want)) {
				return "does not return the flags (0 for boxes without)" + k.why()
			}
			if full != "" && (!keeps(k, o, p, full, ver) || !k.must(o, same(k, flags(k, o.st, p, full), fl))) {
				return "changes version or flags" + k.why()
			}
			return ""
		})
		run("CheckFlag", func(k *codec, t types.Type, st *State, p *Node, full string) string {
			arg := k.wideBits(32, k.fresh("arg"))
			want := k.e.b.T
			if full != "" {
				_, fl := setUp(k, st, p, full)
				want = k.e.b.F
				for i := range fl {
					want = k.e.b.Or(want, k.e.b.And(fl[i], arg[i]))
				}
			}
			o := k.method(st, t, p, "CheckFlag", k.e.v(k.e.bvN(arg)))
			if o == nil {
				return "never returns" + k.why()
			}
			if !k.must(o, k.e.b.Eq(k.e.toB(o.vals[0]), want)) {
				return "is not true exactly if one of the flags is set (always for boxes without flags)" + k.why()
			}
			return ""
		})
		run("GetVersion", func(k *codec, t types.Type, st *State, p *Node, full string) string {
			want := make([]*B, 8)
			for i := range want {
				want[i] = k.e.b.F
			}
			if full != "" {
				ver, _ := setUp(k, st, p, full)
				copy(want, ver)
			}
			o := k.method(st, t, p, "GetVersion")
			if o == nil {
				return "never returns" + k.why()
			}
			if !k.must(o, same(k, k.bits(o.st, o.vals[0], 8), want)) {
				return "does not return the version (0 for boxes without)" + k.why()
			}
			return ""
		})
		run("SetVersion", func(k *codec, t types.Type, st *State, p *Node, full string) string {
			arg := k.wideBits(8, k.fresh("arg"))
			var fl []*B
			if full != "" {
				_, fl = setUp(k, st, p, full)
			}
			o := k.method(st, t, p, "SetVersion", k.e.v(k.e.bvN(arg)))
			if o == nil {
				return "never returns" + k.why()
			}
			if full != "" && !keeps(k, o, p, full, arg) {
				return "does not set the version" + k.why()
			}
			if full != "" && !k.must(o, same(k, flags(k, o.st, p, full), fl)) {
				return "changes the flags" + k.why()
			}
			return ""
		})
	}
	// a box usable under several codes has the type it was given
	add("SetType", "AnyTypeBox", func(k *codec) string {
		t := goType(k.r, "AnyTypeBox")
		bt := goType(k.r, "BoxType")
		if t == nil || bt == nil {
			return "the type is missing"
		}
		st, p := k.object()
		arg := k.e.symVal(k.fresh("type"), bt)
		o := k.method(st, t, p, "SetType", arg)
		if o == nil {
			return "never returns" + k.why()
		}
		o2 := k.method(o.st, t, p, "GetType")
		if o2 == nil {
			return "GetType never returns" + k.why()
		}
		eq := k.e.b.F
		for _, a := range o2.vals[0].alts {
			eq = k.e.b.Or(eq, k.e.b.And(a.g, k.e.cmp(o2.st, token.EQL, a.n, arg.single(), bt, 0, false, false)))
		}
		if !k.must(o2, eq) {
			return "GetType does not return the type set" + k.why()
		}
		return ""
	})
	for n := 0; n <= 4; n++ {
		for _, op := range []string{"HasCompatibleBrand", "AddCompatibleBrand", "RemoveCompatibleBrand"} {
			n, op := n, op
			if n == 4 && op == "RemoveCompatibleBrand" {
				continue
			}
			add("brands", fmt.Sprintf("%s with %d brands", op, n), func(k *codec) string { return k.brands(op, n) })
		}
	}
	return out
}

// brands: the compatible brands of ftyp are a list without order.
func (k *codec) brands(op string, n int) string {
	e := k.e
	t := goType(k.r, "Ftyp")
	if t == nil {
		return "the type Ftyp is missing"
	}
	st, p := k.object()
	at, lt := pathTo(t, "CompatibleBrands")
	sl, ok := lt.(*types.Slice)
	if !ok {
		return "Ftyp has no slice CompatibleBrands"
	}
	inner, bt := pathTo(sl.Elem(), "CompatibleBrand")
	arr, ok := bt.(*types.Array)
	if !ok || arr.Len() != 4 {
		return "CompatibleBrand is no [4]byte"
	}
	put := func(q *Node, bs []*B) {
		for i := 0; i < 4; i++ {
			e.store(st, e.ptrN(q.Name, fmt.Sprintf("%s[%d]", q.Path, i)), arr.Elem(), e.v(e.bvN(bs[8*i:8*i+8])), e.b.T)
		}
	}
	obj := k.fresh("w:brands") + "\x00"
	st.base[obj] = k.fresh("brands")
	var have [][]*B
	for i := 0; i < n; i++ {
		bs := k.wideBits(32, k.fresh("brand"))
		have = append(have, bs)
		put(e.ptrN(obj, fmt.Sprintf("[%d]%s", i, inner)), bs)
	}
	q := e.ptrN(p.Name, p.Path+at)
	e.store(st, q, lt, e.v(e.sliceN(obj, n, lt)), e.b.T)
	cb := k.wideBits(32, k.fresh("cb"))
	av := Node{Op: "array", T: arr}
	for i := 0; i < 4; i++ {
		av.Elems = append(av.Elems, e.v(e.bvN(cb[8*i:8*i+8])))
	}
	o := k.method(st, t, p, op, e.v(e.mk(av)))
	if o == nil {
		return "never returns" + k.why()
	}
	if k.panicking() {
		return "may panic" + k.why()
	}
	eq := func(a, b []*B) *B {
		r := e.b.T
		for i := range a {
			r = e.b.And(r, e.b.Eq(a[i], b[i]))
		}
		return r
	}
	has := e.b.F
	for _, h := range have {
		has = e.b.Or(has, eq(h, cb))
	}
	// any brand x occurs as often as it should
	x := k.wideBits(32, k.fresh("x"))
	count := func(bs [][]*B, gs []*B) []*B { // count[i]: at least i+1
		var c []*B
		for i, b := range bs {
			h := e.b.And(gs[i], eq(b, x))
			c = append(c, e.b.F)
			for j := len(c) - 1; j > 0; j-- {
				c[j] = e.b.Or(c[j], e.b.And(c[j-1], h))
			}
			c[0] = e.b.Or(c[0], h)
		}
		for len(c) < 6 {
			c = append(c, e.b.F)
		}
		return c
	}
	var gs []*B
	for range have {
		g := e.b.T
		if op == "RemoveCompatibleBrand" {
			g = e.b.Not(eq(x, cb))
		}
		gs = append(gs, g)
	}
	list, guards := append([][]*B{}, have...), gs
	if op == "AddCompatibleBrand" {
		list, guards = append(list, cb), append(guards, e.b.Not(has))
	}
	want := count(list, guards)
	done := e.b.F
	for _, a := range e.under(e.load(o.st, q, lt), o.st.pc).alts {
		m, ok := e.constLen(o.st, e.v(a.n))
		if !ok {
			return "leaves a list of unknown length" + k.why()
		}
		var got [][]*B
		var all []*B
		for i := 0; i < m; i++ {
			var bs []*B
			el := e.sliceElem(o.st, a.n, e.intN(uint64(i), 64))
			for j := 0; j < 4; j++ {
				bs = append(bs, k.bits(o.st, e.load(o.st, e.ptrN(el.Name, fmt.Sprintf("%s%s[%d]", el.Path, inner, j)), arr.Elem()), 8)...)
			}
			got, all = append(got, bs), append(all, e.b.T)
		}
		c := count(got, all)
		r := e.b.T
		for i := range want {
			r = e.b.And(r, e.b.Eq(c[i], want[i]))
		}
		done = e.b.Or(done, e.b.And(a.g, r))
	}
	if !k.must(o, done) {
		return "does not leave the brands it should" + k.why()
	}
	if op == "HasCompatibleBrand" && !k.must(o, e.b.Eq(e.toB(o.vals[0]), has)) {
		return "is not true exactly if the brand is listed" + k.why()
	}
	if len(k.undec) > 0 {
		return "not decided" + k.why()
	}
	return ""
}
