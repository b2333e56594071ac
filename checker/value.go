package main

// Abstract values: guarded leaves (gated joins), linear forms modulo 2^w, bit vectors over decision
// diagrams, uninterpreted terms, abstract memory addresses.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Node is a hash-consed leaf value.
type Node struct {
	Op    string
	W     int
	T     types.Type
	Name  string
	C     uint64
	K     constant.Value
	Args  []*Node
	Coef  []uint64
	Elems []*V
	Fn    *ssa.Function
	Path  string
	id    int
	bits  []*B
}

type alt struct {
	g *B
	n *Node
}

// V is a value: exactly one alternative holds under any condition of interest.
type V struct {
	alts []alt
}

func (n *Node) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%d|%s|%d|%s|", n.Op, n.W, n.Name, n.C, n.Path)
	if n.K != nil {
		sb.WriteString(n.K.ExactString())
	}
	for i, a := range n.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if n.Coef != nil {
			fmt.Fprintf(&sb, "*%d", n.Coef[i])
		}
	}
	for _, v := range n.Elems {
		sb.WriteString(";")
		for _, a := range v.alts {
			fmt.Fprintf(&sb, "%d?%d:", a.g.id, a.n.id)
		}
	}
	if n.Fn != nil {
		fmt.Fprintf(&sb, "f%p", n.Fn)
	}
	if n.T != nil && (n.Op == "iface" || n.Op == "nil" || n.Op == "struct" || n.Op == "array" || n.Op == "sym") {
		sb.WriteString(types.TypeString(n.T, nil))
	}
	return sb.String()
}

func (e *Eng) mk(n Node) *Node {
	if n.Op == "sym" && n.W > 0 {
		n.T = nil // integers are identified by width only
	}
	k := n.key()
	if m, ok := e.nodes[k]; ok {
		return m
	}
	m := &n
	m.id = len(e.nodes) + 1
	e.nodes[k] = m
	return m
}

func (n *Node) String() string {
	switch n.Op {
	case "int":
		if n.W == 64 && int64(n.C) < 0 {
			return fmt.Sprint(int64(n.C))
		}
		return fmt.Sprint(n.C)
	case "true", "false", "nil":
		return n.Op
	case "str":
		return fmt.Sprintf("%q", n.Name)
	case "float":
		return n.K.String()
	case "sym":
		return n.Name
	case "ptr":
		return "&" + n.Name + n.Path
	case "lin":
		s := ""
		for i, a := range n.Args {
			if s != "" {
				s += " + "
			}
			switch c := int64(n.Coef[i]); {
			case c == 1:
				s += a.String()
			default:
				s += fmt.Sprintf("%d*%s", c, a)
			}
		}
		if n.C != 0 {
			s += fmt.Sprintf(" + %d", int64(n.C))
		}
		return "(" + s + ")"
	case "closure", "func":
		return n.Fn.String()
	}
	s := n.Op
	if n.Name != "" {
		s += ":" + n.Name
	}
	var as []string
	for _, a := range n.Args {
		as = append(as, a.String())
	}
	for _, v := range n.Elems {
		as = append(as, v.String())
	}
	return s + "(" + strings.Join(as, ", ") + ")"
}

func (v *V) String() string {
	if v == nil {
		return "<none>"
	}
	if len(v.alts) == 1 {
		return v.alts[0].n.String()
	}
	var s []string
	for _, a := range v.alts {
		s = append(s, a.n.String())
	}
	if len(s) > 6 {
		s = append(s[:6], "...")
	}
	return "{" + strings.Join(s, " | ") + "}"
}

// single returns the only alternative, or nil.
func (v *V) single() *Node {
	if v != nil && len(v.alts) == 1 {
		return v.alts[0].n
	}
	return nil
}

func (e *Eng) v(n *Node) *V { return &V{[]alt{{e.b.T, n}}} }

func (e *Eng) intN(c uint64, w int) *Node { return e.mk(Node{Op: "int", C: c & mask(w), W: w}) }
func (e *Eng) intV(c uint64, w int) *V    { return e.v(e.intN(c, w)) }
func (e *Eng) strN(s string) *Node        { return e.mk(Node{Op: "str", Name: s}) }
func (e *Eng) nilN(t types.Type) *Node    { return e.mk(Node{Op: "nil"}) }
func (e *Eng) boolV(b *B) *V {
	switch b {
	case e.b.T:
		return e.v(e.tru)
	case e.b.F:
		return e.v(e.fls)
	}
	return &V{[]alt{{b, e.tru}, {e.b.Not(b), e.fls}}}
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

// bvN is an integer given by its bits, least significant first.
func (e *Eng) bvN(bits []*B) *Node {
	c, k := uint64(0), true
	var sb strings.Builder
	for i, b := range bits {
		switch b {
		case e.b.T:
			c |= 1 << uint(i)
		case e.b.F:
		default:
			k = false
		}
		fmt.Fprintf(&sb, "%d,", b.id)
	}
	if k {
		return e.intN(c, len(bits))
	}
	n := e.mk(Node{Op: "bv", W: len(bits), Path: sb.String()})
	if n.bits == nil {
		n.bits = append([]*B{}, bits...)
	}
	return n
}

// joinBits joins several integers into one whose bits are decision diagrams.
func (e *Eng) joinBits(out []alt, pc *B) *Node {
	w, most := 0, 4
	for _, a := range out {
		if !isIntNode(a.n) {
			return nil
		}
		if a.n.W > w {
			w = a.n.W
		}
	}
	if w <= 8 {
		most = 1
	}
	if len(out) <= most {
		return nil
	}
	bits := make([]*B, w)
	for i := range bits {
		bits[i] = e.b.F
	}
	for _, a := range out {
		for i, b := range e.bitsOf(a.n, w) {
			bits[i] = e.b.Or(bits[i], e.b.And(a.g, b))
		}
	}
	for i := range bits {
		bits[i] = e.b.Restrict(bits[i], pc)
	}
	return e.bvN(bits)
}

// toB: the condition under which a boolean value is true.
func (e *Eng) toB(v *V) *B {
	r := e.b.F
	for _, a := range v.alts {
		r = e.b.Or(r, e.b.And(a.g, e.nodeB(a.n)))
	}
	return r
}

func (e *Eng) nodeB(n *Node) *B {
	switch n.Op {
	case "true":
		return e.b.T
	case "false":
		return e.b.F
	}
	return e.b.Var(fmt.Sprintf("%s#%d", n.String(), n.id))
}

// norm removes infeasible alternatives, joins equal leaves, and joins aggregates of the same shape.
func (e *Eng) norm(alts []alt, pc *B) *V {
	var out []alt
	idx := map[*Node]int{}
	for _, a := range alts {
		if e.b.And(a.g, pc) == e.b.F {
			continue
		}
		if i, ok := idx[a.n]; ok {
			out[i].g = e.b.Or(out[i].g, a.g)
			continue
		}
		idx[a.n] = len(out)
		out = append(out, a)
	}
	if len(out) == 0 {
		if len(alts) == 0 {
			return &V{}
		}
		return &V{[]alt{{e.b.T, alts[0].n}}}
	}
	if len(out) == 1 {
		return &V{[]alt{{e.b.T, out[0].n}}}
	}
	same := true
	for _, a := range out {
		if !isAgg(a.n) || a.n.Op != out[0].n.Op || len(a.n.Elems) != len(out[0].n.Elems) || a.n.Fn != out[0].n.Fn ||
			(a.n.Op == "iface" && !types.Identical(a.n.T, out[0].n.T)) {
			same = false
			break
		}
	}
	if same {
		n := Node{Op: out[0].n.Op, T: out[0].n.T, W: out[0].n.W, Fn: out[0].n.Fn}
		for i := range out[0].n.Elems {
			var as []alt
			for _, a := range out {
				for _, b := range a.n.Elems[i].alts {
					as = append(as, alt{e.b.And(a.g, b.g), b.n})
				}
			}
			n.Elems = append(n.Elems, e.norm(as, pc))
		}
		return e.v(e.mk(n))
	}
	for i := range out {
		out[i].g = e.b.Restrict(out[i].g, pc)
	}
	if e.Concrete {
		if n := e.joinBits(out, pc); n != nil {
			return e.v(n)
		}
	}
	if len(out) > 64 {
		// too many cases: give up precision
		return e.v(e.mk(Node{Op: "sym", Name: e.freshName("top"), W: out[0].n.W, T: out[0].n.T}))
	}
	return &V{out}
}

func isAgg(n *Node) bool {
	switch n.Op {
	case "struct", "array", "tuple", "iface", "closure":
		return true
	}
	return false
}

// under drops alternatives that cannot occur when pc holds.
func (e *Eng) under(v *V, pc *B) *V {
	if len(v.alts) <= 1 || pc == e.b.T {
		return v
	}
	return e.norm(v.alts, pc)
}

func (e *Eng) map1(v *V, pc *B, f func(n *Node) *V) *V {
	if len(v.alts) == 1 {
		return f(v.alts[0].n)
	}
	var out []alt
	for _, a := range v.alts {
		g := a.g
		if e.b.And(g, pc) == e.b.F {
			continue
		}
		for _, x := range f(a.n).alts {
			out = append(out, alt{e.b.And(g, x.g), x.n})
		}
	}
	return e.norm(out, pc)
}

func (e *Eng) map2(x, y *V, pc *B, f func(a, b *Node) *V) *V {
	return e.map1(x, pc, func(a *Node) *V {
		return e.map1(y, pc, func(b *Node) *V { return f(a, b) })
	})
}

// ---------------------------------------------------------------- linear forms

type linForm struct {
	c uint64
	m map[*Node]uint64
}

func (e *Eng) linOf(n *Node, w int) linForm {
	l := linForm{m: map[*Node]uint64{}}
	switch {
	case n.Op == "int":
		l.c = n.C
	case n.Op == "lin" && n.W == w:
		l.c = n.C
		for i, a := range n.Args {
			l.m[a] = n.Coef[i]
		}
	default:
		l.m[n] = 1
	}
	return l
}

func (e *Eng) mkLin(l linForm, w int) *Node {
	var as []*Node
	for a, c := range l.m {
		if c&mask(w) != 0 {
			as = append(as, a)
		}
	}
	l.c &= mask(w)
	if len(as) == 0 {
		return e.intN(l.c, w)
	}
	if len(as) == 1 && l.m[as[0]]&mask(w) == 1 && l.c == 0 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	n := Node{Op: "lin", W: w, C: l.c}
	for _, a := range as {
		n.Args = append(n.Args, a)
		n.Coef = append(n.Coef, l.m[a]&mask(w))
	}
	return e.mk(n)
}

func (e *Eng) addScaled(a, b *Node, k uint64, w int) *Node {
	l := e.linOf(a, w)
	r := e.linOf(b, w)
	l.c += k * r.c
	for n, c := range r.m {
		l.m[n] += k * c
	}
	return e.mkLin(l, w)
}

func (e *Eng) add(a, b *Node, w int) *Node { return e.addScaled(a, b, 1, w) }
func (e *Eng) sub(a, b *Node, w int) *Node { return e.addScaled(a, b, ^uint64(0), w) }

func (e *Eng) mul(a, b *Node, w int) *Node {
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		return e.addScaled(e.intN(0, w), a, b.C, w)
	}
	if a.Op == "lin" && a.W == w || b.Op == "lin" && b.W == w {
		// the product of two sums
		l, r := e.linOf(a, w), e.linOf(b, w)
		if len(l.m)*len(r.m) <= 64 {
			out := linForm{c: l.c * r.c, m: map[*Node]uint64{}}
			add := func(n *Node, c uint64) {
				p := e.linOf(n, w)
				out.c += c * p.c
				for x, f := range p.m {
					out.m[x] += c * f
				}
			}
			for x, f := range l.m {
				add(x, f*r.c)
				for y, g := range r.m {
					add(e.product(x, y, w), f*g)
				}
			}
			for y, g := range r.m {
				add(y, g*l.c)
			}
			return e.mkLin(out, w)
		}
	}
	return e.product(a, b, w)
}

// product is a product of unknowns, whatever the order they were multiplied in.
func (e *Eng) product(a, b *Node, w int) *Node {
	var fs []*Node
	for _, x := range []*Node{a, b} {
		if x.Op == "mul" && x.W == w {
			fs = append(fs, x.Args...)
		} else {
			fs = append(fs, x)
		}
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return e.mk(Node{Op: "mul", W: w, Args: fs})
}

func (e *Eng) bit2(op string, a, b *Node, w int) *Node {
	if a.Op == "int" && b.Op == "int" {
		switch op {
		case "and":
			return e.intN(a.C&b.C, w)
		case "or":
			return e.intN(a.C|b.C, w)
		case "xor":
			return e.intN(a.C^b.C, w)
		case "andnot":
			return e.intN(a.C&^b.C, w)
		}
	}
	if op == "andnot" {
		return e.bit2("and", a, e.bit2("xor", b, e.intN(mask(w), w), w), w)
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		switch {
		case op == "and" && b.C == 0:
			return b
		case op == "and" && b.C&mask(a.W) == mask(a.W) && a.W <= w:
			return a
		case (op == "or" || op == "xor") && b.C == 0:
			return a
		case op == "or" && b.C == mask(w):
			return b
		}
	} else if a == b {
		switch op {
		case "and", "or":
			return a
		case "xor":
			return e.intN(0, w)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return e.mk(Node{Op: op, W: w, Args: []*Node{a, b}})
}

func (e *Eng) shift(op string, a, b *Node, w int) *Node {
	if b.Op == "int" {
		s := b.C
		if s == 0 {
			return a
		}
		if a.Op == "int" {
			switch op {
			case "shl":
				if s >= uint64(w) {
					return e.intN(0, w)
				}
				return e.intN(a.C<<s, w)
			case "lshr":
				if s >= uint64(w) {
					return e.intN(0, w)
				}
				return e.intN(a.C>>s, w)
			case "ashr":
				return e.intN(uint64(sext(a.C, w)>>min64(s, 63)), w)
			}
		}
		if op == "shl" {
			if s >= uint64(w) {
				return e.intN(0, w)
			}
			return e.mul(a, e.intN(1<<s, w), w)
		}
		if op == "lshr" && s >= uint64(w) {
			return e.intN(0, w)
		}
	}
	return e.mk(Node{Op: op, W: w, Args: []*Node{a, b}})
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func sext(c uint64, w int) int64 {
	if w >= 64 {
		return int64(c)
	}
	return int64(c<<(64-uint(w))) >> (64 - uint(w))
}

func (e *Eng) divrem(op string, a, b *Node, w int, signed bool) *Node {
	if b.Op == "int" && b.C != 0 {
		if a.Op == "int" {
			if signed {
				x, y := sext(a.C, w), sext(b.C, w)
				if op == "div" {
					return e.intN(uint64(x/y), w)
				}
				return e.intN(uint64(x%y), w)
			}
			if op == "div" {
				return e.intN(a.C/b.C, w)
			}
			return e.intN(a.C%b.C, w)
		}
		if b.C == 1 {
			if op == "div" {
				return a
			}
			return e.intN(0, w)
		}
		if b.C&(b.C-1) == 0 && !signed {
			k := uint64(0)
			for 1<<k != b.C {
				k++
			}
			if op == "div" {
				return e.shift("lshr", a, e.intN(k, w), w)
			}
			return e.bit2("and", a, e.intN(b.C-1, w), w)
		}
		if b.C&(b.C-1) == 0 && b.C>>uint(w-1) == 0 && (a.Op == "bv" || a.Op == "sext" || a.Op == "zext" || a.Op == "trunc") {
			// rounding towards zero: what is shifted out of a negative number is added first
			k := 0
			for 1<<k != b.C {
				k++
			}
			bits := make([]*B, w)
			for i := range bits {
				bits[i] = e.b.F
				if i < k {
					bits[i] = e.bitsOf(a, w)[w-1]
				}
			}
			bias := e.bvN(bits)
			sum := e.bvN(e.bitsOf(e.add(a, bias, w), w))
			if op == "div" {
				return e.shift("ashr", sum, e.intN(uint64(k), w), w)
			}
			return e.sub(e.bit2("and", sum, e.intN(b.C-1, w), w), bias, w)
		}
	}
	if signed {
		op = "s" + op
	}
	return e.mk(Node{Op: op, W: w, Args: []*Node{a, b}})
}

func (e *Eng) trunc(n *Node, w int) *Node {
	switch {
	case n.Op == "int":
		return e.intN(n.C, w)
	case n.Op == "sext" && n.Args[0].W == w:
		return n.Args[0]
	case n.W <= w && n.Op != "sext":
		return n
	case n.Op == "trunc":
		return e.trunc(n.Args[0], w)
	case n.Op == "lin":
		l := linForm{c: n.C, m: map[*Node]uint64{}}
		for i, a := range n.Args {
			l.m[e.trunc(a, w)] += n.Coef[i]
		}
		return e.mkLin(l, w)
	case n.Op == "and" || n.Op == "or" || n.Op == "xor":
		return e.bit2(n.Op, e.trunc(n.Args[0], w), e.trunc(n.Args[1], w), w)
	}
	return e.mk(Node{Op: "trunc", W: w, Args: []*Node{n}})
}

func (e *Eng) convInt(n *Node, fromW int, fromSigned bool, toW int) *Node {
	switch {
	case toW < fromW:
		return e.trunc(n, toW)
	case toW == fromW || !fromSigned:
		if n.Op == "int" {
			return e.intN(n.C, toW)
		}
		return n
	}
	if n.Op == "int" {
		return e.intN(uint64(sext(n.C, fromW)), toW)
	}
	if n.W < fromW && n.Op != "lin" {
		return n // a zero-extended narrower value is not negative
	}
	return e.mk(Node{Op: "sext", W: toW, C: uint64(fromW), Args: []*Node{n}})
}

// ---------------------------------------------------------------- bits

type bitOverflow struct{}

// bitsOf returns the bits (least significant first) of an integer node, w of them.
func (e *Eng) bitsOf(n *Node, w int) []*B {
	bs := n.bits
	if bs == nil {
		bs = e.computeBits(n)
		n.bits = bs
	}
	out := make([]*B, w)
	for i := range out {
		if i < len(bs) {
			out[i] = bs[i]
		} else {
			out[i] = e.b.F
		}
	}
	return out
}

func (e *Eng) opaqueBits(n *Node) []*B {
	bs := make([]*B, n.W)
	for i := range bs {
		bs[i] = e.b.BitVar(fmt.Sprintf("%s~%d", n.String(), n.id), i, n.W)
	}
	return bs
}

func (e *Eng) computeBits(n *Node) (res []*B) {
	w := n.W
	start := e.b.n
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(bitOverflow); !ok {
				panic(p)
			}
			res = e.opaqueBits(n)
		}
	}()
	check := func() {
		if e.b.n-start > 60000 {
			panic(bitOverflow{})
		}
	}
	switch n.Op {
	case "int":
		bs := make([]*B, w)
		for i := range bs {
			bs[i] = e.b.Bool(n.C>>uint(i)&1 != 0)
		}
		return bs
	case "and", "or", "xor":
		x, y := e.bitsOf(n.Args[0], w), e.bitsOf(n.Args[1], w)
		bs := make([]*B, w)
		for i := range bs {
			switch n.Op {
			case "and":
				bs[i] = e.b.And(x[i], y[i])
			case "or":
				bs[i] = e.b.Or(x[i], y[i])
			case "xor":
				bs[i] = e.b.Xor(x[i], y[i])
			}
			check()
		}
		return bs
	case "shl", "lshr", "ashr":
		if n.Args[1].Op != "int" {
			break
		}
		s := int(min64(n.Args[1].C, 1000))
		x := e.bitsOf(n.Args[0], w)
		bs := make([]*B, w)
		for i := range bs {
			switch {
			case n.Op == "shl" && i-s >= 0:
				bs[i] = x[i-s]
			case n.Op != "shl" && i+s < w:
				bs[i] = x[i+s]
			case n.Op == "ashr":
				bs[i] = x[w-1]
			default:
				bs[i] = e.b.F
			}
		}
		return bs
	case "trunc":
		return e.bitsOf(n.Args[0], w)
	case "bv":
		return n.bits
	case "sext":
		fw := int(n.C)
		x := e.bitsOf(n.Args[0], fw)
		bs := make([]*B, w)
		for i := range bs {
			if i < fw {
				bs[i] = x[i]
			} else {
				bs[i] = x[fw-1]
			}
		}
		return bs
	case "lin":
		if u := e.untrunc(n); u != nil {
			return append([]*B{}, e.bitsOf(u, 64)[:w]...)
		}
		if len(n.Args) > 1 && w >= 32 && !e.Concrete {
			base, neg, c := e.linBase(n, w)
			if base == n {
				return e.opaqueBits(n)
			}
			return e.addConst(e.bitsOf(base, w), neg, c)
		}
		sum := make([]*B, w)
		for i := range sum {
			sum[i] = e.b.Bool(n.C>>uint(i)&1 != 0)
		}
		for k, a := range n.Args {
			c := n.Coef[k]
			neg := bits.OnesCount64(-c&mask(w)) < bits.OnesCount64(c)
			if neg {
				c = -c & mask(w)
			}
			if m := bits.OnesCount64(c); m > 4 || m > 1 && !e.WideLt {
				return e.opaqueBits(n)
			}
			x := e.bitsOf(a, w)
			for s := 0; s < w; s++ {
				if c>>uint(s)&1 == 0 {
					continue
				}
				y := make([]*B, w)
				for i := range y {
					if i-s >= 0 {
						y[i] = x[i-s]
					} else {
						y[i] = e.b.F
					}
				}
				carry := e.b.Bool(neg)
				for i := 0; i < w; i++ {
					yi := y[i]
					if neg {
						yi = e.b.Not(yi)
					}
					si := e.b.Xor(e.b.Xor(sum[i], yi), carry)
					carry = e.b.Or(e.b.And(sum[i], yi), e.b.And(carry, e.b.Or(sum[i], yi)))
					sum[i] = si
					check()
				}
			}
		}
		return sum
	}
	return e.opaqueBits(n)
}

// untrunc: the 64-bit sum of which a sum of truncated terms is the low part.
func (e *Eng) untrunc(n *Node) *Node {
	if n.W >= 64 || len(n.Args) < 2 {
		return nil
	}
	l := linForm{c: uint64(sext(n.C, n.W)), m: map[*Node]uint64{}}
	for i, a := range n.Args {
		if a.Op != "trunc" || a.Args[0].W != 64 {
			return nil
		}
		l.m[a.Args[0]] += uint64(sext(n.Coef[i], n.W))
	}
	return e.mkLin(l, 64)
}

// addConst: c + x or c - x, bit by bit.
func (e *Eng) addConst(x []*B, neg bool, c uint64) []*B {
	out := make([]*B, len(x))
	carry := e.b.Bool(neg)
	for i := range x {
		xi, ci := x[i], e.b.Bool(c>>uint(i)&1 != 0)
		if neg {
			xi = e.b.Not(xi)
		}
		out[i] = e.b.Xor(e.b.Xor(xi, ci), carry)
		carry = e.b.Or(e.b.And(xi, ci), e.b.And(carry, e.b.Or(xi, ci)))
	}
	return out
}

// ---------------------------------------------------------------- comparisons

func (e *Eng) eqInt(a, b *Node, w int) *B {
	if a == b {
		return e.b.T
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if a.Op == "frag" || b.Op == "frag" {
		// part of a text: a number or an escaped text
		if b.Op == "int" && a.Name != "" && !strings.HasPrefix(a.Name, "map:") && !strings.ContainsRune("0123456789abcdef-x.", rune(b.C)) {
			return e.b.F
		}
		panic("a part of a text is compared")
	}
	if b.Op == "int" && (a.Op != "lin" || a.W != w) {
		x, y := e.bitsOf(a, w), e.bitsOf(b, w)
		r := e.b.T
		for i := w - 1; i >= 0; i-- {
			r = e.b.And(r, e.b.Eq(x[i], y[i]))
		}
		return r
	}
	d := e.sub(a, b, w)
	if d.Op == "int" {
		return e.b.Bool(d.C == 0)
	}
	if d.Op != "lin" || d.W != w {
		x := e.bitsOf(d, w)
		r := e.b.T
		for i := w - 1; i >= 0; i-- {
			r = e.b.And(r, e.b.Not(x[i]))
		}
		return r
	}
	if len(d.Args) == 1 && d.Coef[0] == 1 {
		return e.eqInt(d.Args[0], e.intN(-d.C, w), w)
	}
	if len(d.Args) == 1 && d.Coef[0]&(d.Coef[0]-1) == 0 || w <= 16 {
		x := e.bitsOf(d, w)
		r := e.b.T
		for i := w - 1; i >= 0; i-- {
			r = e.b.And(r, e.b.Not(x[i]))
		}
		return r
	}
	base, neg, c := e.linBase(d, w)
	k := -c & mask(w) // base == k, or -base == k
	if neg {
		k = c
	}
	x := e.bitsOf(base, w)
	r := e.b.T
	for i := w - 1; i >= 0; i-- {
		if k>>uint(i)&1 != 0 {
			r = e.b.And(r, x[i])
		} else {
			r = e.b.And(r, e.b.Not(x[i]))
		}
	}
	return r
}

// linBase splits a sum of several unknowns into the sum without its constant, in one of the two
// signs (whose bits are unknowns of their own), and the constant.
func (e *Eng) linBase(d *Node, w int) (base *Node, neg bool, c uint64) {
	base = e.addScaled(d, e.intN(d.C, w), ^uint64(0), w)
	nd := e.sub(e.intN(0, w), base, w)
	if nd.id < base.id {
		return nd, true, d.C
	}
	return base, false, d.C
}

func nonNeg(n *Node) bool {
	return n.Op == "len" || n.Op == "cap" || (n.W < 64 && n.Op != "lin" && n.Op != "sext")
}

func (e *Eng) ltInt(a, b *Node, w int, signed bool) *B {
	if a == b {
		return e.b.F
	}
	if a.Op == "int" && b.Op == "int" {
		if signed {
			return e.b.Bool(sext(a.C, w) < sext(b.C, w))
		}
		return e.b.Bool(a.C < b.C)
	}
	if signed && b.Op == "int" && nonNeg(a) {
		if sext(b.C, w) <= 0 {
			return e.b.F
		}
		signed = false
	}
	if signed && a.Op == "int" && nonNeg(b) {
		if sext(a.C, w) < 0 {
			return e.b.T
		}
		signed = false
	}
	if a.Op == "int" || b.Op == "int" || w <= 16 || e.WideLt {
		x, y := e.bitsOf(a, w), e.bitsOf(b, w)
		lt := e.b.F
		for i := 0; i < w; i++ {
			xi, yi := x[i], y[i]
			if signed && i == w-1 {
				xi, yi = yi, xi
			}
			lt = e.b.Or(e.b.And(e.b.Not(xi), yi), e.b.And(e.b.Eq(xi, yi), lt))
		}
		return lt
	}
	s := "u"
	if signed {
		s = "s"
	}
	if a.Op == "div" && b.Op == "div" {
		if a.id > b.id {
			return e.b.Not(e.b.Or(e.ltInt(b, a, w, signed), e.eqDiv(a, b)))
		}
		zero := e.intN(0, w)
		v := e.b.And(e.b.Var(fmt.Sprintf("%s <%s %s #%d,%d", a, s, b, a.id, b.id)), e.b.Not(e.eqDiv(a, b)))
		return e.b.And(e.b.Not(e.eqInt(b, zero, w)), e.b.Or(e.eqInt(a, zero, w), v))
	}
	return e.b.Var(fmt.Sprintf("%s <%s %s #%d,%d", a, s, b, a.id, b.id))
}

// eqDiv is whether two quotients are equal.
func (e *Eng) eqDiv(a, b *Node) *B {
	if a.id > b.id {
		a, b = b, a
	}
	za, zb := e.eqInt(a, e.intN(0, a.W), a.W), e.eqInt(b, e.intN(0, b.W), b.W)
	v := e.b.Var(fmt.Sprintf("%s = %s #%d,%d", a, b, a.id, b.id))
	return e.b.Ite(za, zb, e.b.And(e.b.Not(zb), v))
}

// sameInt: equal as integers of width w under condition pc.
func (e *Eng) sameNode(a, b *Node, pc *B) bool {
	if a == b {
		return true
	}
	if a.W > 0 && b.W > 0 && isIntNode(a) && isIntNode(b) {
		w := a.W
		if b.W > w {
			w = b.W
		}
		if w >= 32 && (a.Op == "lin" && len(a.Args) > 1 || b.Op == "lin" && len(b.Args) > 1) {
			return e.b.And(pc, e.b.Not(e.eqInt(a, b, w))) == e.b.F
		}
		x, y := e.bitsOf(a, w), e.bitsOf(b, w)
		for i := range x {
			if e.b.And(pc, e.b.Xor(x[i], y[i])) != e.b.F {
				return false
			}
		}
		return true
	}
	if isAgg(a) && a.Op == b.Op && len(a.Elems) == len(b.Elems) && a.Fn == b.Fn && (a.Op != "iface" || types.Identical(a.T, b.T)) {
		for i := range a.Elems {
			if !e.sameV(a.Elems[i], b.Elems[i], pc) {
				return false
			}
		}
		return true
	}
	if a.Op == b.Op && a.Name == b.Name && a.W == b.W && a.C == b.C && a.Path == b.Path && len(a.Args) > 0 && len(a.Args) == len(b.Args) && a.Coef == nil && b.Coef == nil && len(a.Elems) == len(b.Elems) && !isAgg(a) {
		for i := range a.Args {
			if !e.sameNode(a.Args[i], b.Args[i], pc) {
				return false
			}
		}
		for i := range a.Elems {
			if !e.sameV(a.Elems[i], b.Elems[i], pc) {
				return false
			}
		}
		return true
	}
	return false
}

func isIntNode(n *Node) bool {
	switch n.Op {
	case "true", "false", "nil", "str", "ptr", "closure", "func", "struct", "array", "tuple", "iface", "slice", "append":
		return false
	}
	return n.W > 1
}

// sameV: the two values agree whenever pc holds.
func (e *Eng) sameV(a, b *V, pc *B) bool {
	for _, x := range a.alts {
		for _, y := range b.alts {
			g := e.b.And(pc, e.b.And(x.g, y.g))
			if g == e.b.F {
				continue
			}
			bx, by := x.n.Op == "true" || x.n.Op == "false", y.n.Op == "true" || y.n.Op == "false"
			if bx != by && (x.n.W == 1 || y.n.W == 1) {
				if e.b.And(g, e.b.Xor(e.nodeB(x.n), e.nodeB(y.n))) != e.b.F {
					return false
				}
				continue
			}
			if !e.sameNode(x.n, y.n, g) {
				return false
			}
		}
	}
	return true
}
