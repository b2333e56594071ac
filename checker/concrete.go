package main

// Models used when shapes are constants: byte strings, maps with constant keys, appends that copy,
// reflection over the structures of the program, readers and writers with finite known content.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var byteT = types.Typ[types.Uint8]

// bstr is a string given byte by byte.
func (e *Eng) bstr(bs []*V) *V {
	raw := make([]byte, len(bs))
	for i, b := range bs {
		n := b.single()
		if n == nil || n.Op != "int" {
			return e.v(e.mk(Node{Op: "bstr", Elems: append([]*V{}, bs...)}))
		}
		raw[i] = byte(n.C)
	}
	return e.v(e.strN(string(raw)))
}

// bytesOf: the bytes of a string or byte slice of known length.
func (e *Eng) bytesOf(st *State, n *Node) ([]*V, bool) {
	switch n.Op {
	case "nil":
		return nil, true
	case "bstr", "blist":
		return n.Elems, true
	case "str":
		var out []*V
		for i := 0; i < len(n.Name); i++ {
			out = append(out, e.intV(uint64(n.Name[i]), 8))
		}
		return out, true
	}
	ln := e.lenV(st, e.v(n)).single()
	if ln == nil || ln.Op != "int" || ln.C > 1<<16 {
		return nil, false
	}
	if n.Op != "slice" && n.Op != "append" && n.Op != "reslice" {
		return nil, false
	}
	var out []*V
	for i := uint64(0); i < ln.C; i++ {
		out = append(out, e.load(st, e.sliceElem(st, n, e.intN(i, 64)), byteT))
	}
	return out, true
}

func (e *Eng) bytesV(st *State, v *V) ([]*V, bool) {
	n := e.under(v, st.pc).single()
	if n == nil {
		return nil, false
	}
	return e.bytesOf(st, n)
}

// bytesSlice is a new slice of bytes.
func (e *Eng) bytesSlice(st *State, obj string, bs []*V, t types.Type) *Node {
	for i, b := range bs {
		e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), byteT, b, e.b.T)
	}
	return e.sliceN(obj, len(bs), t)
}

func (e *Eng) sliceN(obj string, n int, t types.Type) *Node {
	return e.mk(Node{Op: "slice", Args: []*Node{e.ptrN(obj, "")}, Elems: []*V{e.intV(uint64(n), 64)}, T: t})
}

// constLen: the length of a slice, string or array, if constant.
func (e *Eng) constLen(st *State, v *V) (int, bool) {
	ln := e.under(e.lenV(st, v), st.pc).single()
	if ln == nil || ln.Op != "int" || ln.C > 1<<16 {
		return 0, false
	}
	return int(ln.C), true
}

// appendAll copies both operands to a new slice.
func (e *Eng) appendAll(st *State, obj string, s, x *Node, t types.Type) *Node {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	var vals []*V
	for _, n := range []*Node{s, x} {
		if n.Op == "str" || n.Op == "bstr" {
			bs, _ := e.bytesOf(st, n)
			vals = append(vals, bs...)
			continue
		}
		ln, ok := e.constLen(st, e.v(n))
		if !ok {
			return nil
		}
		for i := 0; i < ln; i++ {
			vals = append(vals, e.load(st, e.sliceElem(st, n, e.intN(uint64(i), 64)), sl.Elem()))
		}
	}
	st.dropAll(obj)
	for i, v := range vals {
		e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), sl.Elem(), v, e.b.T)
	}
	return e.sliceN(obj, len(vals), t)
}

// ---------------------------------------------------------------- comparisons

func (e *Eng) cmpConcrete(st *State, p, q *Node) *B {
	isStr := func(n *Node) bool { return n.Op == "str" || n.Op == "bstr" }
	switch {
	case isStr(p) && isStr(q):
		a, _ := e.bytesOf(st, p)
		b, _ := e.bytesOf(st, q)
		return e.eqBytes(a, b)
	case p.Op == "rtype" && q.Op == "rtype":
		return e.b.Bool(types.Identical(p.T, q.T))
	case p.Op == "sym" && q.Op == "sym" && e.isNonNilErr(p) && e.isNonNilErr(q):
		return e.b.F // distinct error values
	case p.Op == "iface" && e.isNonNilErr(q) && q.Op == "sym", q.Op == "iface" && e.isNonNilErr(p) && p.Op == "sym":
		return e.b.F
	case p.Op == "nil" && q.Op == "mapref", p.Op == "mapref" && q.Op == "nil", p.Op == "nil" && q.Op == "rtype", p.Op == "rtype" && q.Op == "nil":
		return e.b.F
	case p.Op == "iface" && q.Op == "iface" && types.Identical(p.T, q.T):
		a, b := p.Elems[0].single(), q.Elems[0].single()
		if a != nil && b != nil && a.Op == "ptr" && b.Op == "ptr" {
			return e.b.Bool(a == b)
		}
	}
	return nil
}

func (e *Eng) eqBytes(a, b []*V) *B {
	if len(a) != len(b) {
		return e.b.F
	}
	r := e.b.T
	for i := range a {
		c := e.b.F
		for _, x := range a[i].alts {
			for _, y := range b[i].alts {
				c = e.b.Or(c, e.b.And(e.b.And(x.g, y.g), e.eqInt(x.n, y.n, 8)))
			}
		}
		r = e.b.And(r, c)
	}
	return r
}

// ---------------------------------------------------------------- maps

func (e *Eng) mapc(st *State, m *Node) (*Node, string) {
	if m.Op != "mapref" {
		return nil, ""
	}
	obj := m.Args[0].Name
	if v := st.cells(obj)[""]; v != nil {
		if n := v.single(); n != nil && n.Op == "mapc" {
			return n, obj
		}
		return nil, obj
	}
	return e.mk(Node{Op: "mapc"}), obj
}

// sameKey: 1 equal, 0 different, -1 not known.
func (e *Eng) sameKey(st *State, a, b *V) int {
	if a == b {
		return 1
	}
	if a.single() == nil || b.single() == nil {
		return -1
	}
	c := e.keyEq(st, a, b)
	switch e.b.And(c, st.pc) {
	case e.b.F:
		return 0
	case st.pc:
		return 1
	}
	return -1
}

// keyEq: when two keys are equal.
func (e *Eng) keyEq(st *State, a, b *V) *B {
	r := e.b.F
	for _, p := range a.alts {
		for _, q := range b.alts {
			x, y := p.n, q.n
			var c *B
			switch {
			case x == y:
				c = e.b.T
			case x.Op == "int" && y.Op == "int":
				c = e.b.Bool(x.C == y.C)
			case isIntNode(x) && isIntNode(y):
				c = e.eqInt(x, y, 64)
			default:
				w := 0
				t := types.Type(types.Typ[types.Invalid])
				if x.T != nil {
					t = x.T
				}
				c = e.cmp(st, token.EQL, x, y, t, w, false, false)
			}
			r = e.b.Or(r, e.b.And(e.b.And(p.g, q.g), c))
		}
	}
	return r
}

func (e *Eng) mapFind(st *State, c *Node, k *V) int {
	for i := 0; i+1 < len(c.Elems); i += 2 {
		switch e.sameKey(st, c.Elems[i], k) {
		case 1:
			return i
		case -1:
			return -2
		}
	}
	return -1
}

func (e *Eng) mapUpdate(st *State, m, k, v *V) bool {
	mn := e.under(m, st.pc).single()
	if mn == nil {
		return false
	}
	c, obj := e.mapc(st, mn)
	if c == nil {
		return false
	}
	i := e.mapFind(st, c, k)
	if i == -2 {
		return false
	}
	n := Node{Op: "mapc", Elems: append([]*V{}, c.Elems...)}
	if i >= 0 {
		n.Elems[i+1] = v
	} else {
		n.Elems = append(n.Elems, k, v)
	}
	st.own(obj)[""] = e.v(e.mk(n))
	return true
}

func (e *Eng) mapDelete(st *State, m, k *V) bool {
	mn := e.under(m, st.pc).single()
	if mn == nil {
		return false
	}
	c, obj := e.mapc(st, mn)
	if c == nil {
		return mn.Op == "nil"
	}
	i := e.mapFind(st, c, k)
	if i < 0 {
		return i == -1
	}
	n := Node{Op: "mapc", Elems: append(append([]*V{}, c.Elems[:i]...), c.Elems[i+2:]...)}
	st.own(obj)[""] = e.v(e.mk(n))
	return true
}

func (e *Eng) mapLookup(st *State, m, k *V, x *ssa.Lookup) *V {
	mn := e.under(m, st.pc).single()
	if mn == nil {
		return nil
	}
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil
	}
	val, has := e.zeroVal(mt.Elem()), e.b.F
	if mn.Op != "nil" {
		c, _ := e.mapc(st, mn)
		if c == nil {
			return nil
		}
		switch i := e.mapFind(st, c, e.under(k, st.pc)); {
		case i == -2:
			kv := e.under(k, st.pc)
			for i := 0; i+1 < len(c.Elems); i += 2 {
				g := e.b.Restrict(e.keyEq(st, c.Elems[i], kv), st.pc)
				val, has = e.ite(g, c.Elems[i+1], val, st.pc), e.b.Or(has, g)
			}
		case i >= 0:
			val, has = c.Elems[i+1], e.b.T
		}
	}
	if x.CommaOk {
		return e.v(e.mk(Node{Op: "tuple", Elems: []*V{val, e.boolV(has)}}))
	}
	return val
}

func (e *Eng) rangeOver(st *State, fr *frame, x *ssa.Range) *V {
	n := e.under(e.val(st, fr, x.X), st.pc).single()
	if n == nil {
		return nil
	}
	it := "it:" + e.site(fr, x)
	switch n.Op {
	case "nil", "str":
	case "bstr":
		// a text given rune by rune
		for _, x := range n.Elems {
			if f := x.single(); f == nil || f.Op != "frag" || f.Name != "rune" {
				return nil
			}
		}
	case "mapref":
		c, _ := e.mapc(st, n)
		if c == nil {
			return nil
		}
		n = c
	default:
		return nil
	}
	st.ghost[it] = e.intV(0, 64)
	return e.v(e.mk(Node{Op: "iter", Name: it, Args: []*Node{n}}))
}

func (e *Eng) rangeNext(st *State, x *ssa.Next, it *V) *V {
	n := it.single()
	if n == nil || n.Op != "iter" {
		return nil
	}
	pos := st.ghost[n.Name].single()
	if pos == nil || pos.Op != "int" {
		return nil
	}
	tt := x.Type().(*types.Tuple)
	zero := func(t types.Type) *V {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return e.v(e.nilN(nil))
		}
		return e.zeroVal(t)
	}
	c, i := n.Args[0], int(pos.C)
	done := e.v(e.mk(Node{Op: "tuple", Elems: []*V{e.v(e.fls), zero(tt.At(1).Type()), zero(tt.At(2).Type())}}))
	if c.Op == "str" {
		if i >= len(c.Name) {
			return done
		}
		r, sz := rune(0), 0
		for j, q := range c.Name[i:] {
			if j > 0 {
				break
			}
			r = q
		}
		sz = len(string(r))
		if r == '\uFFFD' && !strings.HasPrefix(c.Name[i:], "\uFFFD") {
			sz = 1
		}
		st.ghost[n.Name] = e.intV(uint64(i+sz), 64)
		return e.v(e.mk(Node{Op: "tuple", Elems: []*V{e.v(e.tru), e.intV(uint64(i), 64), e.intV(uint64(r), 32)}}))
	}
	if c.Op == "bstr" {
		if i >= len(c.Elems) {
			return done
		}
		st.ghost[n.Name] = e.intV(uint64(i+1), 64)
		return e.v(e.mk(Node{Op: "tuple", Elems: []*V{e.v(e.tru), e.symVal(fmt.Sprintf("index %d of a text", i), types.Typ[types.Int]), c.Elems[i].single().Elems[0]}}))
	}
	if i+1 >= len(c.Elems) {
		return done
	}
	st.ghost[n.Name] = e.intV(uint64(i+2), 64)
	return e.v(e.mk(Node{Op: "tuple", Elems: []*V{e.v(e.tru), c.Elems[i], c.Elems[i+1]}}))
}

// ---------------------------------------------------------------- reflection

// rval is a reflect.Value: addressable (Args[0] is the address) or a plain value.
func (e *Eng) rvalAt(t types.Type, p *Node) *V {
	return e.v(e.mk(Node{Op: "rval", T: t, Name: types.TypeString(t, nil), Args: []*Node{p}}))
}

func (e *Eng) rvalOf(t types.Type, v *V) *V {
	return e.v(e.mk(Node{Op: "rval", T: t, Name: types.TypeString(t, nil), Elems: []*V{v}}))
}

func (e *Eng) rget(st *State, n *Node) *V {
	if len(n.Args) > 0 {
		return e.load(st, n.Args[0], n.T)
	}
	return n.Elems[0]
}

// structField finds a (possibly promoted) field of the structure a value holds.
func (e *Eng) rfield(st *State, n *Node, idx []int) *V {
	cur := e.v(n)
	for _, i := range idx {
		c := cur.single()
		if c == nil {
			return nil
		}
		if pt, ok := c.T.Underlying().(*types.Pointer); ok {
			p := e.under(e.rget(st, c), st.pc).single()
			if p == nil || p.Op == "nil" {
				return nil
			}
			cur = e.rvalAt(pt.Elem(), e.ptrOf(st, p))
			c = cur.single()
		}
		u, ok := c.T.Underlying().(*types.Struct)
		if !ok || i >= u.NumFields() {
			return nil
		}
		f := u.Field(i)
		if len(c.Args) > 0 {
			cur = e.rvalAt(f.Type(), e.ptrN(c.Args[0].Name, c.Args[0].Path+"."+f.Name()))
			continue
		}
		v := c.Elems[0].single()
		if v == nil {
			return nil
		}
		cur = e.rvalOf(f.Type(), e.elem(st, v, i, f.Name(), f.Type()))
	}
	return cur
}

func (e *Eng) structFieldV(u *types.Struct, i int) *V {
	f := u.Field(i)
	pkg := ""
	if !f.Exported() {
		pkg = f.Pkg().Path()
	}
	sf := lookupStd(e.r, "reflect", "StructField")
	if sf == nil {
		return nil
	}
	su := sf.Underlying().(*types.Struct)
	n := Node{Op: "struct", T: sf}
	for k := 0; k < su.NumFields(); k++ {
		switch su.Field(k).Name() {
		case "Name":
			n.Elems = append(n.Elems, e.v(e.strN(f.Name())))
		case "PkgPath":
			n.Elems = append(n.Elems, e.v(e.strN(pkg)))
		case "Type":
			n.Elems = append(n.Elems, e.v(e.rtype(f.Type())))
		case "Tag":
			n.Elems = append(n.Elems, e.v(e.strN(u.Tag(i))))
		case "Anonymous":
			n.Elems = append(n.Elems, e.boolV(e.b.Bool(f.Embedded())))
		default:
			n.Elems = append(n.Elems, e.symVal("structfield:"+su.Field(k).Name(), su.Field(k).Type()))
		}
	}
	return e.v(e.mk(n))
}

func lookupStd(r *Repo, pkg, name string) types.Type {
	for _, p := range r.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

var gcSizes = types.SizesFor("gc", "amd64")

func constInt(v *V) (int, bool) {
	n := v.single()
	if n == nil || n.Op != "int" {
		return 0, false
	}
	return int(int64(n.C)), true
}

func constStr(v *V) (string, bool) {
	n := v.single()
	if n == nil || n.Op != "str" {
		return "", false
	}
	return n.Name, true
}

// rtypeMore: methods of reflect.Type beyond the basic ones.
func (e *Eng) rtypeMore(st *State, n *Node, m string, args []*V) *V {
	switch m {
	case "Size":
		return e.intV(uint64(gcSizes.Sizeof(n.T)), 64)
	case "Bits":
		return e.intV(uint64(gcSizes.Sizeof(n.T))*8, 64)
	case "Len":
		if a, ok := n.T.Underlying().(*types.Array); ok {
			return e.intV(uint64(a.Len()), 64)
		}
	case "Key":
		if a, ok := n.T.Underlying().(*types.Map); ok {
			return e.v(e.rtype(a.Key()))
		}
	case "Field":
		u, ok := n.T.Underlying().(*types.Struct)
		i, ok2 := constInt(args[1])
		if ok && ok2 && i >= 0 && i < u.NumFields() {
			return e.structFieldV(u, i)
		}
	case "FieldByName":
		name, ok := constStr(args[1])
		if !ok {
			return nil
		}
		u, ok := n.T.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return e.tuple(e.structFieldV(u, i), e.v(e.tru))
			}
		}
	case "Implements":
		if a := args[1].single(); a != nil && a.Op == "rtype" {
			if it, ok := a.T.Underlying().(*types.Interface); ok {
				return e.boolV(e.b.Bool(types.Implements(n.T, it)))
			}
		}
	case "AssignableTo":
		if a := args[1].single(); a != nil && a.Op == "rtype" {
			return e.boolV(e.b.Bool(types.AssignableTo(n.T, a.T)))
		}
	case "ConvertibleTo":
		if a := args[1].single(); a != nil && a.Op == "rtype" {
			return e.boolV(e.b.Bool(types.ConvertibleTo(n.T, a.T)))
		}
	case "String":
		return e.v(e.strN(types.TypeString(n.T, func(p *types.Package) string { return p.Name() })))
	case "PkgPath":
		if nt, ok := n.T.(*types.Named); ok && nt.Obj().Pkg() != nil {
			return e.v(e.strN(nt.Obj().Pkg().Path()))
		}
		return e.v(e.strN(""))
	case "Comparable":
		return e.boolV(e.b.Bool(types.Comparable(n.T)))
	}
	return nil
}

// reflectCall models the functions of package reflect on known structures.
func (e *Eng) reflectCall(cc *CallCtx) (*V, bool) {
	st := cc.st
	name := cc.Name
	arg := func(i int) *Node {
		if i >= len(cc.Args) {
			return nil
		}
		return e.under(cc.Args[i], st.pc).single()
	}
	obj := "a:" + e.site(cc.fr, cc.in) + "\x00"
	switch name {
	case "reflect.ValueOf":
		if n := arg(0); n != nil {
			if n.Op == "iface" {
				return e.rvalOf(n.T, n.Elems[0]), true
			}
			if n.Op == "nil" {
				return e.v(e.mk(Node{Op: "rval"})), true
			}
		}
		return nil, false
	case "reflect.Indirect":
		if n := arg(0); n != nil && n.Op == "rval" {
			if _, ok := n.T.Underlying().(*types.Pointer); ok {
				return e.rvalElem(st, n)
			}
			return e.v(n), true
		}
		return nil, false
	case "reflect.New":
		if n := arg(0); n != nil && n.Op == "rtype" {
			st.dropAll(obj)
			return e.rvalOf(types.NewPointer(n.T), e.v(e.ptrN(obj, ""))), true
		}
		return nil, false
	case "reflect.Zero":
		if n := arg(0); n != nil && n.Op == "rtype" {
			return e.rvalOf(n.T, e.zeroVal(n.T)), true
		}
		return nil, false
	case "reflect.PtrTo", "reflect.PointerTo":
		if n := arg(0); n != nil && n.Op == "rtype" {
			return e.v(e.rtype(types.NewPointer(n.T))), true
		}
		return nil, false
	case "reflect.SliceOf":
		if n := arg(0); n != nil && n.Op == "rtype" {
			return e.v(e.rtype(types.NewSlice(n.T))), true
		}
		return nil, false
	case "reflect.MakeSlice":
		n := arg(0)
		ln, ok := constInt(cc.Args[1])
		if e.OnMake != nil && n != nil && n.Op == "rtype" {
			if sl, ok := n.T.Underlying().(*types.Slice); ok {
				e.OnMake(st, cc.fr, cc.Args[1], sl.Elem())
				e.OnMake(st, cc.fr, cc.Args[2], sl.Elem())
			}
		}
		if n != nil && n.Op == "rtype" && ok {
			st.dropAll(obj)
			return e.rvalOf(n.T, e.v(e.sliceN(obj, ln, n.T))), true
		}
		return nil, false
	case "reflect.Append", "reflect.AppendSlice":
		n := arg(0)
		if n == nil || n.Op != "rval" {
			return nil, false
		}
		sl, ok := n.T.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		var vals []*V
		old := e.under(e.rget(st, n), st.pc)
		ln, ok := e.constLen(st, old)
		if !ok || old.single() == nil {
			return nil, false
		}
		for i := 0; i < ln; i++ {
			vals = append(vals, e.load(st, e.sliceElem(st, old.single(), e.intN(uint64(i), 64)), sl.Elem()))
		}
		x := arg(1)
		if x == nil {
			return nil, false
		}
		if name == "reflect.AppendSlice" {
			if x.Op != "rval" {
				return nil, false
			}
			xs := e.under(e.rget(st, x), st.pc)
			xl, ok := e.constLen(st, xs)
			if !ok || xs.single() == nil {
				return nil, false
			}
			for i := 0; i < xl; i++ {
				vals = append(vals, e.load(st, e.sliceElem(st, xs.single(), e.intN(uint64(i), 64)), sl.Elem()))
			}
		} else {
			xl, ok := e.constLen(st, e.v(x))
			if !ok {
				return nil, false
			}
			vt := lookupStd(e.r, "reflect", "Value")
			for i := 0; i < xl; i++ {
				r := e.load(st, e.sliceElem(st, x, e.intN(uint64(i), 64)), vt).single()
				if r == nil || r.Op != "rval" || r.T == nil {
					return nil, false
				}
				vals = append(vals, e.rget(st, r))
			}
		}
		st.dropAll(obj)
		for i, v := range vals {
			e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), sl.Elem(), v, e.b.T)
		}
		return e.rvalOf(n.T, e.v(e.sliceN(obj, len(vals), n.T))), true
	case "reflect.Copy":
		d, s := arg(0), arg(1)
		if d == nil || s == nil || d.Op != "rval" || s.Op != "rval" {
			return nil, false
		}
		db, ok1 := e.bytesV(st, e.rget(st, s))
		dl, ok2 := e.constLen(st, e.rget(st, d))
		dn := e.rget(st, d).single()
		if !ok1 || !ok2 || dn == nil {
			return nil, false
		}
		k := 0
		for ; k < dl && k < len(db); k++ {
			p := e.sliceElem(st, dn, e.intN(uint64(k), 64))
			if len(d.Args) > 0 && dn.Op == "array" {
				p = e.ptrN(d.Args[0].Name, d.Args[0].Path+fmt.Sprintf("[%d]", k))
			}
			e.store(st, p, byteT, db[k], e.b.T)
		}
		return e.intV(uint64(k), 64), true
	case "(reflect.StructTag).Lookup", "(reflect.StructTag).Get":
		tag, ok1 := constStr(cc.Args[0])
		key, ok2 := constStr(cc.Args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		val, ok := reflect.StructTag(tag).Lookup(key)
		if strings.HasSuffix(name, "Get") {
			return e.v(e.strN(val)), true
		}
		return e.tuple(e.v(e.strN(val)), e.boolV(e.b.Bool(ok))), true
	case "(reflect.Kind).String":
		if k, ok := constInt(cc.Args[0]); ok {
			return e.v(e.strN(reflect.Kind(k).String())), true
		}
	}
	if !strings.HasPrefix(name, "(reflect.Value).") {
		return nil, false
	}
	n := arg(0)
	if n == nil || n.Op != "rval" {
		return nil, false
	}
	m := strings.TrimPrefix(name, "(reflect.Value).")
	if n.T == nil {
		switch m {
		case "IsValid":
			return e.v(e.fls), true
		case "Kind":
			return e.intV(0, 64), true
		}
		return nil, false
	}
	w, signed, isInt := intWidth(n.T)
	addr := len(n.Args) > 0
	set := func(v *V) (*V, bool) {
		if !addr {
			return nil, false
		}
		e.store(st, n.Args[0], n.T, v, e.b.T)
		return nil, true
	}
	conv := func(v *V) *V { return e.map1(v, st.pc, func(x *Node) *V { return e.v(e.trunc(x, w)) }) }
	switch m {
	case "Type":
		return e.v(e.rtype(n.T)), true
	case "Kind":
		return e.intV(uint64(reflectKind(n.T)), 64), true
	case "IsValid":
		return e.v(e.tru), true
	case "CanAddr", "CanSet":
		return e.boolV(e.b.Bool(addr)), true
	case "CanInterface":
		return e.v(e.tru), true
	case "CanInt":
		return e.boolV(e.b.Bool(isInt && signed)), true
	case "CanUint":
		return e.boolV(e.b.Bool(isInt && !signed)), true
	case "Elem":
		return e.rvalElem(st, n)
	case "Addr":
		if addr {
			return e.rvalOf(types.NewPointer(n.T), e.v(n.Args[0])), true
		}
	case "Interface":
		if _, isI := n.T.Underlying().(*types.Interface); isI {
			return e.rget(st, n), true
		}
		return e.v(e.mk(Node{Op: "iface", T: n.T, Elems: []*V{e.rget(st, n)}})), true
	case "NumField":
		if u, ok := n.T.Underlying().(*types.Struct); ok {
			return e.intV(uint64(u.NumFields()), 64), true
		}
	case "Field":
		if i, ok := constInt(cc.Args[1]); ok {
			if v := e.rfield(st, n, []int{i}); v != nil {
				return v, true
			}
		}
	case "FieldByName":
		if s, ok := constStr(cc.Args[1]); ok {
			_, isStruct := n.T.Underlying().(*types.Struct)
			o, idx, _ := types.LookupFieldOrMethod(n.T, true, e.r.Root.Pkg, s)
			if _, isVar := o.(*types.Var); isVar && isStruct {
				if v := e.rfield(st, n, idx); v != nil {
					return v, true
				}
				return nil, false
			}
			return e.v(e.mk(Node{Op: "rval"})), true
		}
	case "Index":
		i, ok := constInt(cc.Args[1])
		if !ok || i < 0 {
			return nil, false
		}
		switch u := n.T.Underlying().(type) {
		case *types.Array:
			if int64(i) >= u.Len() {
				return nil, false
			}
			if addr {
				return e.rvalAt(u.Elem(), e.ptrN(n.Args[0].Name, n.Args[0].Path+fmt.Sprintf("[%d]", i))), true
			}
			if a := n.Elems[0].single(); a != nil {
				return e.rvalOf(u.Elem(), e.elem(st, a, i, fmt.Sprintf("[%d]", i), u.Elem())), true
			}
		case *types.Slice:
			s := e.under(e.rget(st, n), st.pc)
			ln, ok := e.constLen(st, s)
			if s.single() == nil || !ok || i >= ln {
				st.pc = e.b.F // out of range: panics
				if e.OnPanic != nil {
					e.OnPanic(st, cc.fr, cc.in)
				}
				return nil, true
			}
			return e.rvalAt(u.Elem(), e.sliceElem(st, s.single(), e.intN(uint64(i), 64))), true
		}
	case "Len", "Cap":
		if u, ok := n.T.Underlying().(*types.Array); ok {
			return e.intV(uint64(u.Len()), 64), true
		}
		return e.lenV(st, e.rget(st, n)), true
	case "Slice":
		i, ok1 := constInt(cc.Args[1])
		j, ok2 := constInt(cc.Args[2])
		if ok1 && ok2 {
			l, h := e.intN(uint64(i), 64), e.intN(uint64(j), 64)
			if u, ok := n.T.Underlying().(*types.Array); ok && addr {
				s := e.mk(Node{Op: "slice", Args: n.Args, Elems: []*V{e.intV(uint64(u.Len()), 64)}, T: types.NewSlice(u.Elem())})
				return e.rvalOf(types.NewSlice(u.Elem()), e.v(e.reslice(s, l, h))), true
			}
			if s := e.under(e.rget(st, n), st.pc).single(); s != nil {
				return e.rvalOf(n.T, e.v(e.reslice(s, l, h))), true
			}
		}
	case "Int":
		if isInt && signed {
			return e.map1(e.rget(st, n), st.pc, func(x *Node) *V { return e.v(e.convInt(x, w, true, 64)) }), true
		}
	case "Uint":
		if isInt && !signed {
			return e.map1(e.rget(st, n), st.pc, func(x *Node) *V { return e.v(e.convInt(x, w, false, 64)) }), true
		}
	case "Bool":
		if isBool(n.T) {
			return e.rget(st, n), true
		}
	case "String":
		if isString(n.T) {
			return e.rget(st, n), true
		}
	case "Bytes":
		if u, ok := n.T.Underlying().(*types.Array); ok && addr {
			return e.v(e.mk(Node{Op: "slice", Args: n.Args, Elems: []*V{e.intV(uint64(u.Len()), 64)}, T: types.NewSlice(u.Elem())})), true
		}
		return e.rget(st, n), true
	case "IsNil":
		v := e.under(e.rget(st, n), st.pc)
		r := e.b.F
		for _, a := range v.alts {
			r = e.b.Or(r, e.b.And(a.g, e.cmp(st, token.EQL, a.n, e.nilN(nil), n.T, 0, false, false)))
		}
		return e.boolV(r), true
	case "IsZero":
		if isInt {
			r := e.b.F
			for _, a := range e.rget(st, n).alts {
				r = e.b.Or(r, e.b.And(a.g, e.eqInt(a.n, e.intN(0, w), w)))
			}
			return e.boolV(r), true
		}
	case "Set":
		if x := arg(1); x != nil && x.Op == "rval" && x.T != nil {
			return set(e.rget(st, x))
		}
	case "SetInt":
		if isInt && signed {
			return set(conv(cc.Args[1]))
		}
	case "SetUint":
		if isInt && !signed {
			return set(conv(cc.Args[1]))
		}
	case "SetBool", "SetString", "SetBytes":
		return set(cc.Args[1])
	case "SetZero":
		return set(e.zeroVal(n.T))
	case "SetLen":
		if j, ok := constInt(cc.Args[1]); ok {
			if s := e.under(e.rget(st, n), st.pc).single(); s != nil && s.Op == "slice" {
				return set(e.v(e.mk(Node{Op: "slice", Args: s.Args, C: s.C, Elems: []*V{e.intV(uint64(j), 64)}, T: s.T})))
			}
		}
	case "Convert":
		if x := arg(1); x != nil && x.Op == "rtype" {
			if tw, _, ok := intWidth(x.T); ok && isInt {
				return e.rvalOf(x.T, e.map1(e.rget(st, n), st.pc, func(k *Node) *V { return e.v(e.convInt(k, w, signed, tw)) })), true
			}
			if types.Identical(x.T.Underlying(), n.T.Underlying()) {
				return e.rvalOf(x.T, e.rget(st, n)), true
			}
		}
	}
	return nil, false
}

func (e *Eng) rvalElem(st *State, n *Node) (*V, bool) {
	v := e.under(e.rget(st, n), st.pc).single()
	if v == nil {
		return nil, false
	}
	switch u := n.T.Underlying().(type) {
	case *types.Pointer:
		if v.Op == "nil" {
			return e.v(e.mk(Node{Op: "rval"})), true
		}
		return e.rvalAt(u.Elem(), e.ptrOf(st, v)), true
	case *types.Interface:
		if v.Op == "iface" {
			return e.rvalOf(v.T, v.Elems[0]), true
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- constant functions

func (e *Eng) strSlice(st *State, obj string, ss []string) *V {
	st.dropAll(obj)
	for i, s := range ss {
		e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), types.Typ[types.String], e.v(e.strN(s)), e.b.T)
	}
	return e.v(e.sliceN(obj, len(ss), types.NewSlice(types.Typ[types.String])))
}

func (e *Eng) newErr(cc *CallCtx) *V {
	return e.v(e.mk(Node{Op: "sym", Name: "newerr:" + e.site(cc.fr, cc.in), T: types.Universe.Lookup("error").Type()}))
}

// constCall evaluates functions of strings and strconv on constants.
func (e *Eng) constCall(cc *CallCtx) (*V, bool) {
	st := cc.st
	obj := "a:" + e.site(cc.fr, cc.in) + "\x00"
	s := func(i int) string { x, _ := constStr(cc.Args[i]); return x }
	str := func(x string) (*V, bool) { return e.v(e.strN(x)), true }
	boolean := func(x bool) (*V, bool) { return e.boolV(e.b.Bool(x)), true }
	num := func(x int) (*V, bool) { return e.intV(uint64(x), 64), true }
	for _, a := range cc.Args {
		n := a.single()
		if n == nil || (n.Op != "str" && n.Op != "int") {
			return nil, false
		}
	}
	k := func(i int) int { x, _ := constInt(cc.Args[i]); return x }
	errOr := func(v *V, err error) (*V, bool) {
		if err != nil {
			return e.tuple(v, e.newErr(cc)), true
		}
		return e.tuple(v, e.nilV()), true
	}
	switch cc.Name {
	case "strings.Split":
		return e.strSlice(st, obj, strings.Split(s(0), s(1))), true
	case "strings.SplitN":
		return e.strSlice(st, obj, strings.SplitN(s(0), s(1), k(2))), true
	case "strings.Fields":
		return e.strSlice(st, obj, strings.Fields(s(0))), true
	case "strings.Cut":
		a, b, ok := strings.Cut(s(0), s(1))
		return e.v(e.mk(Node{Op: "tuple", Elems: []*V{e.v(e.strN(a)), e.v(e.strN(b)), e.boolV(e.b.Bool(ok))}})), true
	case "strings.CutPrefix":
		a, ok := strings.CutPrefix(s(0), s(1))
		return e.tuple(e.v(e.strN(a)), e.boolV(e.b.Bool(ok))), true
	case "strings.CutSuffix":
		a, ok := strings.CutSuffix(s(0), s(1))
		return e.tuple(e.v(e.strN(a)), e.boolV(e.b.Bool(ok))), true
	case "strings.Trim":
		return str(strings.Trim(s(0), s(1)))
	case "strings.TrimLeft":
		return str(strings.TrimLeft(s(0), s(1)))
	case "strings.TrimRight":
		return str(strings.TrimRight(s(0), s(1)))
	case "strings.TrimSpace":
		return str(strings.TrimSpace(s(0)))
	case "strings.TrimPrefix":
		return str(strings.TrimPrefix(s(0), s(1)))
	case "strings.TrimSuffix":
		return str(strings.TrimSuffix(s(0), s(1)))
	case "strings.ToLower":
		return str(strings.ToLower(s(0)))
	case "strings.ToUpper":
		return str(strings.ToUpper(s(0)))
	case "strings.Repeat":
		if k(1) >= 0 && k(1) < 1000 {
			return str(strings.Repeat(s(0), k(1)))
		}
	case "strings.ReplaceAll":
		return str(strings.ReplaceAll(s(0), s(1), s(2)))
	case "strings.HasPrefix":
		return boolean(strings.HasPrefix(s(0), s(1)))
	case "strings.HasSuffix":
		return boolean(strings.HasSuffix(s(0), s(1)))
	case "strings.Contains":
		return boolean(strings.Contains(s(0), s(1)))
	case "strings.Compare":
		return num(strings.Compare(s(0), s(1)))
	case "strings.ContainsRune":
		return boolean(strings.ContainsRune(s(0), rune(k(1))))
	case "strings.ContainsAny":
		return boolean(strings.ContainsAny(s(0), s(1)))
	case "strings.IndexRune":
		return num(strings.IndexRune(s(0), rune(k(1))))
	case "strings.Replace":
		return str(strings.Replace(s(0), s(1), s(2), k(3)))
	case "strings.EqualFold":
		return boolean(strings.EqualFold(s(0), s(1)))
	case "strings.Index":
		return num(strings.Index(s(0), s(1)))
	case "strings.LastIndex":
		return num(strings.LastIndex(s(0), s(1)))
	case "strings.IndexByte":
		return num(strings.IndexByte(s(0), byte(k(1))))
	case "strings.Count":
		return num(strings.Count(s(0), s(1)))
	case "strconv.Atoi":
		x, err := strconv.Atoi(s(0))
		return errOr(e.intV(uint64(x), 64), err)
	case "strconv.ParseUint":
		x, err := strconv.ParseUint(s(0), k(1), k(2))
		return errOr(e.intV(x, 64), err)
	case "strconv.ParseInt":
		x, err := strconv.ParseInt(s(0), k(1), k(2))
		return errOr(e.intV(uint64(x), 64), err)
	case "strconv.Itoa":
		return str(strconv.Itoa(k(0)))
	}
	return nil, false
}

// byteCall evaluates searches and comparisons of byte strings of known length with unknown bytes.
func (e *Eng) byteCall(cc *CallCtx) (*V, bool) {
	st := cc.st
	pkg, op, ok := strings.Cut(cc.Name, ".")
	if !ok || (pkg != "bytes" && pkg != "strings") {
		return nil, false
	}
	switch op {
	case "Equal", "HasPrefix", "HasSuffix", "Contains", "Index", "LastIndex", "IndexByte", "LastIndexByte", "Count",
		"TrimLeft", "TrimRight", "Trim", "TrimPrefix", "TrimSuffix":
	default:
		return nil, false
	}
	failed := false
	one := func(a, b *Node) *V {
		x, ok := e.bytesOf(st, a)
		if !ok || len(x) > 64 {
			failed = true
			return nil
		}
		part := func(l, h int) *Node {
			if a.Op == "str" || a.Op == "bstr" {
				return e.bstr(x[l:h]).single()
			}
			return e.reslice(a, e.intN(uint64(l), 64), e.intN(uint64(h), 64))
		}
		num := func(cs []*B, last bool) *V { // index of the first (last) place where the condition holds
			var as []alt
			rest := e.b.T
			for j := range cs {
				i := j
				if last {
					i = len(cs) - 1 - j
				}
				as = append(as, alt{e.b.And(rest, cs[i]), e.intN(uint64(i), 64)})
				rest = e.b.And(rest, e.b.Not(cs[i]))
			}
			as = append(as, alt{rest, e.intN(^uint64(0), 64)})
			return e.norm(as, e.b.T)
		}
		any := func(cs []*B) *V {
			r := e.b.F
			for _, c := range cs {
				r = e.b.Or(r, c)
			}
			return e.boolV(r)
		}
		var cs []*B
		switch op {
		case "IndexByte", "LastIndexByte":
			for _, c := range x {
				cs = append(cs, e.eqBytes([]*V{c}, []*V{e.v(b)}))
			}
			return num(cs, op == "LastIndexByte")
		}
		y, ok := e.bytesOf(st, b)
		if !ok || len(y) > 64 {
			failed = true
			return nil
		}
		pre := len(x) >= len(y)
		switch op {
		case "Equal":
			return e.boolV(e.eqBytes(x, y))
		case "HasPrefix", "TrimPrefix", "HasSuffix", "TrimSuffix":
			c := e.b.F
			l, h := 0, len(x)
			if pre {
				if strings.HasSuffix(op, "Prefix") {
					c, l = e.eqBytes(x[:len(y)], y), len(y)
				} else {
					c, h = e.eqBytes(x[len(x)-len(y):], y), len(x)-len(y)
				}
			}
			if strings.HasPrefix(op, "Has") {
				return e.boolV(c)
			}
			return e.norm([]alt{{c, part(l, h)}, {e.b.Not(c), a}}, e.b.T)
		case "Contains", "Index", "LastIndex":
			for i := 0; i+len(y) <= len(x); i++ {
				cs = append(cs, e.eqBytes(x[i:i+len(y)], y))
			}
			if op == "Contains" {
				return any(cs)
			}
			return num(cs, op == "LastIndex")
		case "Count":
			if len(y) != 1 {
				failed = true
				return nil
			}
			at := []*B{e.b.T}
			for _, c := range x {
				h := e.eqBytes([]*V{c}, y)
				at = append(at, e.b.F)
				for j := len(at) - 1; j > 0; j-- {
					at[j] = e.b.Or(e.b.And(at[j], e.b.Not(h)), e.b.And(at[j-1], h))
				}
				at[0] = e.b.And(at[0], e.b.Not(h))
			}
			var as []alt
			for i, g := range at {
				as = append(as, alt{g, e.intN(uint64(i), 64)})
			}
			return e.norm(as, e.b.T)
		case "Trim", "TrimLeft", "TrimRight":
			var in []*B
			for _, c := range y {
				if n := c.single(); n == nil || n.Op != "int" || n.C >= 0x80 {
					failed = true
					return nil
				}
			}
			for _, c := range x {
				r := e.b.F
				for _, d := range y {
					r = e.b.Or(r, e.eqBytes([]*V{c}, []*V{d}))
				}
				in = append(in, r)
			}
			var as []alt
			lg := e.b.T
			for l := 0; l <= len(x); l++ {
				gl := lg
				if op == "TrimRight" {
					if l > 0 {
						break
					}
				} else if l < len(x) {
					gl = e.b.And(lg, e.b.Not(in[l]))
					lg = e.b.And(lg, in[l])
				}
				hg := gl
				for h := len(x); h >= l; h-- {
					gh := hg
					if op == "TrimLeft" {
						if h < len(x) {
							break
						}
					} else if h > l {
						gh = e.b.And(hg, e.b.Not(in[h-1]))
						hg = e.b.And(hg, in[h-1])
					}
					if gh != e.b.F {
						as = append(as, alt{gh, part(l, h)})
					}
				}
			}
			return e.norm(as, e.b.T)
		}
		failed = true
		return nil
	}
	var as []alt
	for _, a := range e.under(cc.Args[0], st.pc).alts {
		for _, b := range e.under(cc.Args[1], st.pc).alts {
			g := e.b.And(a.g, b.g)
			if g == e.b.F {
				continue
			}
			v := one(a.n, b.n)
			if failed || v == nil {
				return nil, false
			}
			for _, r := range v.alts {
				if h := e.b.And(g, r.g); h != e.b.F {
					as = append(as, alt{h, r.n})
				}
			}
		}
	}
	return e.norm(as, st.pc), true
}

// sortCall evaluates sort.Slice and friends by evaluating the comparison.
func (e *Eng) sortCall(cc *CallCtx) (*V, bool) {
	st := cc.st
	switch cc.Name {
	case "sort.Slice", "sort.SliceStable":
	default:
		return nil, false
	}
	x := cc.Args[0].single()
	if x == nil || x.Op != "iface" {
		return nil, false
	}
	sl, ok := x.T.Underlying().(*types.Slice)
	s := x.Elems[0].single()
	less := cc.Args[1].single()
	if !ok || s == nil || less == nil {
		return nil, false
	}
	ln, ok := e.constLen(st, e.v(s))
	if !ok {
		return nil, false
	}
	bad := false
	at := func(i int) *Node { return e.sliceElem(st, s, e.intN(uint64(i), 64)) }
	lt := func(i, j int) bool {
		r := e.callIn(cc, less, e.intV(uint64(i), 64), e.intV(uint64(j), 64))
		if r == nil {
			bad = true
			return false
		}
		st = cc.st
		c := e.toB(r)
		switch {
		case e.b.And(c, st.pc) == e.b.F:
			return false
		case e.b.And(c, st.pc) == st.pc:
			return true
		}
		bad = true
		return false
	}
	// insertion sort by swaps of neighbours is stable
	for i := 1; i < ln && !bad; i++ {
		for j := i; j > 0 && lt(j, j-1); j-- {
			a, b := e.load(st, at(j), sl.Elem()), e.load(st, at(j-1), sl.Elem())
			e.store(st, at(j), sl.Elem(), b, e.b.T)
			e.store(st, at(j-1), sl.Elem(), a, e.b.T)
		}
	}
	return nil, !bad
}

// callIn calls a function value from inside a model; the state of the call context is updated.
func (e *Eng) callIn(cc *CallCtx, f *Node, args ...*V) *V {
	if f == nil || (f.Op != "func" && f.Op != "closure") {
		return nil
	}
	r, ns := e.callFn(cc.st, cc.fr, cc.in, f.Fn, args, f.Elems)
	if ns == nil {
		cc.st.pc = e.b.F
		return nil
	}
	if ns != cc.st {
		*cc.st = *ns
	}
	return r
}

// methodIn calls a method of an interface value from inside a model.
func (e *Eng) methodIn(cc *CallCtx, recv *V, name string, args ...*V) *V {
	n := e.under(recv, cc.st.pc).single()
	if n == nil {
		return nil
	}
	if n.Op == "iface" {
		fn := e.r.Prog.LookupMethod(n.T, nil, name)
		if fn == nil {
			return nil
		}
		r, ns := e.callFn(cc.st, cc.fr, cc.in, fn, append([]*V{n.Elems[0]}, args...), nil)
		if ns == nil {
			cc.st.pc = e.b.F
			return nil
		}
		if ns != cc.st {
			*cc.st = *ns
		}
		return r
	}
	if e.OnCall != nil {
		if v, ok := e.OnCall(&CallCtx{e, cc.st, cc.fr, cc.in, nil, "(stream)." + name, nil, append([]*V{recv}, args...)}); ok {
			return v
		}
	}
	return nil
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = constant.MakeInt64
