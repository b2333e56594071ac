package main

// Small reduced ordered binary decision diagrams: canonical form of the conditions under which a
// value is merged at a join of the control flow, and of single bits of integers.

import "fmt"

type B struct {
	v      int // variable, -1 for terminals
	lo, hi *B
	id     int
}

type bdds struct {
	T, F  *B
	uniq  map[[3]int]*B
	memo  map[[3]int]*B
	n     int
	vars  map[string]int
	names map[int]string
	nAtom int
	nSym  int
	syms  map[string]int
	Limit int
	// SymMajor keeps the bits of one integer together (good when integers meet constants only)
	SymMajor bool
}

func newBDDs() *bdds {
	b := &bdds{uniq: map[[3]int]*B{}, memo: map[[3]int]*B{}, vars: map[string]int{}, names: map[int]string{}, syms: map[string]int{}, Limit: 4000000}
	b.F = &B{v: -1, id: 0}
	b.T = &B{v: -1, id: 1}
	b.n = 2
	return b
}

// bit variables are ordered bit-major over all integers so that bitwise operations on two unknown
// integers stay linear; other boolean atoms follow.
const bddSyms = 1 << 16

func (b *bdds) Var(name string) *B {
	i, ok := b.vars[name]
	if !ok {
		i = 80*bddSyms + b.nAtom
		b.nAtom++
		b.vars[name] = i
		b.names[i] = name
	}
	return b.mk(i, b.F, b.T)
}

func (b *bdds) BitVar(sym string, bit, width int) *B {
	k, ok := b.syms[sym]
	if !ok {
		k = b.nSym
		b.nSym++
		if k >= bddSyms {
			panic("too many symbols")
		}
		b.syms[sym] = k
	}
	i := bit*bddSyms + k
	if b.SymMajor {
		i = 200*bddSyms + k*64 + bit
	} else if width <= 8 {
		i = 70*bddSyms + k*8 + bit // bytes are mostly compared with constants: keep their bits together
	}
	if _, ok := b.names[i]; !ok {
		b.names[i] = fmt.Sprintf("%s bit %d", sym, bit)
	}
	return b.mk(i, b.F, b.T)
}

func (b *bdds) mk(v int, lo, hi *B) *B {
	if lo == hi {
		return lo
	}
	k := [3]int{v, lo.id, hi.id}
	if n, ok := b.uniq[k]; ok {
		return n
	}
	n := &B{v: v, lo: lo, hi: hi, id: b.n}
	b.n++
	if b.n > b.Limit {
		panic("decision diagram too large")
	}
	b.uniq[k] = n
	return n
}

func (b *bdds) Ite(f, g, h *B) *B {
	switch {
	case f == b.T:
		return g
	case f == b.F:
		return h
	case g == h:
		return g
	case g == b.T && h == b.F:
		return f
	}
	k := [3]int{f.id, g.id, h.id}
	if r, ok := b.memo[k]; ok {
		return r
	}
	v := f.v
	if g.v >= 0 && g.v < v {
		v = g.v
	}
	if h.v >= 0 && h.v < v {
		v = h.v
	}
	co := func(x *B, hi bool) *B {
		if x.v != v {
			return x
		}
		if hi {
			return x.hi
		}
		return x.lo
	}
	r := b.mk(v, b.Ite(co(f, false), co(g, false), co(h, false)), b.Ite(co(f, true), co(g, true), co(h, true)))
	b.memo[k] = r
	return r
}

func (b *bdds) And(x, y *B) *B { return b.Ite(x, y, b.F) }
func (b *bdds) Or(x, y *B) *B  { return b.Ite(x, b.T, y) }
func (b *bdds) Not(x *B) *B    { return b.Ite(x, b.F, b.T) }
func (b *bdds) Xor(x, y *B) *B { return b.Ite(x, b.Not(y), y) }
func (b *bdds) Eq(x, y *B) *B  { return b.Ite(x, y, b.Not(y)) }
func (b *bdds) Implies(x, y *B) bool {
	return b.And(x, b.Not(y)) == b.F
}
func (b *bdds) Bool(v bool) *B {
	if v {
		return b.T
	}
	return b.F
}

// Restrict simplifies f under the care set c (generalised cofactor): equal to f wherever c holds.
func (b *bdds) Restrict(f, c *B) *B {
	if c == b.T || c == b.F || f.v < 0 {
		return f
	}
	if f == c {
		return b.T
	}
	memo := map[[2]int]*B{}
	var rec func(f, c *B) *B
	rec = func(f, c *B) *B {
		if c == b.T || f.v < 0 {
			return f
		}
		if c == b.F {
			return b.F
		}
		k := [2]int{f.id, c.id}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *B
		switch {
		case c.v < f.v:
			r = rec(f, b.Or(c.lo, c.hi))
		case c.v == f.v:
			if c.lo == b.F {
				r = rec(f.hi, c.hi)
			} else if c.hi == b.F {
				r = rec(f.lo, c.lo)
			} else {
				r = b.mk(f.v, rec(f.lo, c.lo), rec(f.hi, c.hi))
			}
		default:
			r = b.mk(f.v, rec(f.lo, c), rec(f.hi, c))
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

// Witness renders one satisfying assignment.
func (b *bdds) Witness(x *B) string {
	s := ""
	for x.v >= 0 {
		if x.hi != b.F {
			s += fmt.Sprintf(" [%s]", b.names[x.v])
			x = x.hi
		} else {
			s += fmt.Sprintf(" not[%s]", b.names[x.v])
			x = x.lo
		}
		if len(s) > 400 {
			return s + " ..."
		}
	}
	return s
}

// Cond renders a condition by one satisfying assignment.
func (b *bdds) Cond(x *B) string {
	switch x {
	case b.T:
		return "always"
	case b.F:
		return "never"
	}
	return "e.g." + b.Witness(x)
}
