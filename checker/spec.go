package main

// The specification tables and the small expression language they use.

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

//go:embed spec/layout.txt
var layoutText string

//go:embed spec/accessors.txt
var accessorText string

type specReg struct {
	Code, Type string
	Versions   []uint64
	Target     string
}

type specField struct {
	Name, Type, Size, If, Len string
	Embed                     bool
	Attr                      map[string]string
}

type specLayout struct {
	Regs  []specReg
	Types map[string][]specField
	Order []string
}

func unq(s string) string { return strings.ReplaceAll(s, `\x20`, " ") }

func parseLayout(text string) (*specLayout, error) {
	l := &specLayout{Types: map[string][]specField{}}
	cur := ""
	for i, line := range strings.Split(text, "\n") {
		if strings.TrimSpace(line) == "" || strings.HasPrefix(line, "#") {
			continue
		}
		bad := func(msg string) error { return fmt.Errorf("layout.txt:%d: %s: %s", i+1, msg, line) }
		switch {
		case strings.HasPrefix(line, "reg "):
			q, err := strconv.QuotedPrefix(line[4:])
			if err != nil {
				return nil, bad(err.Error())
			}
			code, _ := strconv.Unquote(q)
			r := specReg{Code: code}
			for _, f := range strings.Fields(line[4+len(q):]) {
				switch {
				case strings.HasPrefix(f, "versions="):
					for _, v := range strings.Split(f[9:], ",") {
						if v == "" {
							continue
						}
						n, err := strconv.ParseUint(v, 10, 8)
						if err != nil {
							return nil, bad(err.Error())
						}
						r.Versions = append(r.Versions, n)
					}
				case strings.HasPrefix(f, "target="):
					r.Target = f[7:]
				default:
					r.Type = f
				}
			}
			l.Regs = append(l.Regs, r)
		case strings.HasPrefix(line, "type "):
			cur = strings.TrimSpace(line[5:])
			l.Types[cur] = nil
			l.Order = append(l.Order, cur)
		case strings.HasPrefix(line, "  "):
			fs := strings.Fields(line)
			f := specField{Name: fs[0], Type: fs[1], Attr: map[string]string{}}
			for _, a := range fs[2:] {
				k, v, _ := strings.Cut(a, "=")
				switch k {
				case "size":
					f.Size = unq(v)
				case "if":
					f.If = unq(v)
				case "len":
					f.Len = unq(v)
				case "embed":
					f.Embed = true
				default:
					f.Attr[k] = v
				}
			}
			l.Types[cur] = append(l.Types[cur], f)
		default:
			return nil, bad("unknown line")
		}
	}
	return l, nil
}

// scope resolves the names of specification expressions.
type scope struct {
	e      *Eng
	st     *State
	recv   *Node // pointer to the structure that contains the field
	recvT  types.Type
	root   *Node
	rootT  types.Type
	ver    *V
	flags  *V
	ctx    *V
	ctxT   types.Type
	locals map[string]sval
}

// sval is a value with its Go type: integers are computed in 64 bits.
type sval struct {
	v *V
	t types.Type
}

var u64T = types.Typ[types.Uint64]

func (s *scope) field(p *Node, t types.Type, name string) (sval, error) {
	obj, idx, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, s.e.r.Root.Pkg, name)
	f, ok := obj.(*types.Var)
	if !ok {
		return sval{}, fmt.Errorf("%s has no field %s", typeName(t), name)
	}
	addr := s.e.ptrOf(s.st, p)
	cur := t
	for k, i := range idx {
		st := deref(cur).Underlying().(*types.Struct)
		fv := st.Field(i)
		addr = s.e.ptrN(addr.Name, addr.Path+"."+fv.Name())
		cur = fv.Type()
		if k < len(idx)-1 {
			if _, isPtr := cur.Underlying().(*types.Pointer); isPtr {
				n := s.e.load(s.st, addr, cur).single()
				if n == nil {
					return sval{}, fmt.Errorf("ambiguous pointer on the way to %s", name)
				}
				addr = s.e.ptrOf(s.st, n)
			}
		}
	}
	return sval{s.e.load(s.st, addr, f.Type()), f.Type()}, nil
}

func (s *scope) eval(src string) (sval, error) {
	x, err := parser.ParseExpr(src)
	if err != nil {
		return sval{}, fmt.Errorf("%s: %v", src, err)
	}
	return s.ev(x)
}

func (s *scope) cond(src string) (*B, error) {
	if src == "" {
		return s.e.b.T, nil
	}
	v, err := s.eval(src)
	if err != nil {
		return nil, err
	}
	if v.v == nil || !isBool(v.t) {
		return nil, fmt.Errorf("%s is not a condition", src)
	}
	return s.e.toB(v.v), nil
}

// to64 converts an integer to 64 bits according to its type.
func (s *scope) to64(x sval) (sval, error) {
	w, sg, ok := intWidth(x.t)
	if !ok {
		return x, fmt.Errorf("not an integer: %s", x.v)
	}
	return sval{s.e.map1(x.v, s.st.pc, func(n *Node) *V { return s.e.v(s.e.convInt(n, w, sg, 64)) }), u64T}, nil
}

func (s *scope) ev(x ast.Expr) (sval, error) {
	e := s.e
	switch x := x.(type) {
	case *ast.ParenExpr:
		return s.ev(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, err := strconv.ParseUint(x.Value, 0, 64)
			return sval{e.intV(n, 64), u64T}, err
		case token.STRING:
			str, err := strconv.Unquote(x.Value)
			return sval{e.v(e.strN(str)), types.Typ[types.String]}, err
		}
	case *ast.Ident:
		if v, ok := s.locals[x.Name]; ok {
			return v, nil
		}
		switch x.Name {
		case "ver":
			return sval{s.ver, types.Typ[types.Uint8]}, nil
		case "flags":
			return sval{s.flags, types.Typ[types.Uint32]}, nil
		case "unlimited":
			return sval{e.intV(0xffffffff, 64), u64T}, nil
		case "true":
			return sval{e.v(e.tru), types.Typ[types.Bool]}, nil
		case "false":
			return sval{e.v(e.fls), types.Typ[types.Bool]}, nil
		}
		return s.field(s.recv, s.recvT, x.Name)
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		if !ok {
			return sval{}, fmt.Errorf("unsupported selector")
		}
		switch id.Name {
		case "root":
			return s.field(s.root, s.rootT, x.Sel.Name)
		case "ctx":
			st := s.ctxT.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == x.Sel.Name {
					i := i
					return sval{e.map1(s.ctx, s.st.pc, func(n *Node) *V { return n.Elems[i] }), st.Field(i).Type()}, nil
				}
			}
			return sval{}, fmt.Errorf("no context flag %s", x.Sel.Name)
		}
		return sval{}, fmt.Errorf("unknown %s", id.Name)
	case *ast.UnaryExpr:
		v, err := s.ev(x.X)
		if err != nil {
			return v, err
		}
		if x.Op == token.NOT {
			return sval{e.boolV(e.b.Not(e.toB(v.v))), types.Typ[types.Bool]}, nil
		}
		if v, err = s.to64(v); err != nil {
			return v, err
		}
		switch x.Op {
		case token.SUB:
			return sval{e.map1(v.v, s.st.pc, func(n *Node) *V { return e.v(e.sub(e.intN(0, 64), n, 64)) }), u64T}, nil
		case token.XOR:
			return sval{e.map1(v.v, s.st.pc, func(n *Node) *V { return e.v(e.bit2("xor", n, e.intN(^uint64(0), 64), 64)) }), u64T}, nil
		}
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		if !ok {
			return sval{}, fmt.Errorf("unsupported call")
		}
		switch id.Name {
		case "cond":
			c, err := s.ev(x.Args[0])
			if err != nil {
				return c, err
			}
			a, err := s.ev(x.Args[1])
			if err != nil {
				return a, err
			}
			b, err := s.ev(x.Args[2])
			if err != nil {
				return b, err
			}
			if _, _, ok := intWidth(a.t); ok {
				if a, err = s.to64(a); err != nil {
					return a, err
				}
				if b, err = s.to64(b); err != nil {
					return b, err
				}
			}
			g := e.toB(c.v)
			var as []alt
			for _, p := range a.v.alts {
				as = append(as, alt{e.b.And(g, p.g), p.n})
			}
			for _, p := range b.v.alts {
				as = append(as, alt{e.b.And(e.b.Not(g), p.g), p.n})
			}
			return sval{e.norm(as, s.st.pc), a.t}, nil
		case "low": // low(x, n): the n least significant bits
			v, err := s.ev(x.Args[0])
			if err != nil {
				return v, err
			}
			if v, err = s.to64(v); err != nil {
				return v, err
			}
			n, err := strconv.Atoi(x.Args[1].(*ast.BasicLit).Value)
			return sval{e.map1(v.v, s.st.pc, func(k *Node) *V { return e.v(e.trunc(k, n)) }), u64T}, err
		}
		return sval{}, fmt.Errorf("unknown function %s", id.Name)
	case *ast.BinaryExpr:
		a, err := s.ev(x.X)
		if err != nil {
			return a, err
		}
		b, err := s.ev(x.Y)
		if err != nil {
			return b, err
		}
		switch x.Op {
		case token.LAND:
			return sval{e.boolV(e.b.And(e.toB(a.v), e.toB(b.v))), types.Typ[types.Bool]}, nil
		case token.LOR:
			return sval{e.boolV(e.b.Or(e.toB(a.v), e.toB(b.v))), types.Typ[types.Bool]}, nil
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			// array of bytes against a string literal
			if str := b.v.single(); str != nil && str.Op == "str" {
				if arr, ok := a.t.Underlying().(*types.Array); ok && arr.Len() == int64(len(str.Name)) {
					c := e.b.F
					for _, al := range a.v.alts {
						r := al.g
						for i := range str.Name {
							el := e.elem(s.st, al.n, i, fmt.Sprintf("[%d]", i), types.Typ[types.Uint8])
							ci := e.b.F
							for _, q := range el.alts {
								ci = e.b.Or(ci, e.b.And(q.g, e.eqInt(q.n, e.intN(uint64(str.Name[i]), 8), 8)))
							}
							r = e.b.And(r, ci)
						}
						c = e.b.Or(c, r)
					}
					if x.Op == token.NEQ {
						c = e.b.Not(c)
					}
					return sval{e.boolV(c), types.Typ[types.Bool]}, nil
				}
			}
			if isBool(a.t) {
				c := e.b.Eq(e.toB(a.v), e.toB(b.v))
				if x.Op == token.NEQ {
					c = e.b.Not(c)
				}
				return sval{e.boolV(c), types.Typ[types.Bool]}, nil
			}
		}
		_, sg, _ := intWidth(a.t)
		if a, err = s.to64(a); err != nil {
			return a, err
		}
		if b, err = s.to64(b); err != nil {
			return b, err
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			c := e.b.F
			for _, p := range a.v.alts {
				for _, q := range b.v.alts {
					c = e.b.Or(c, e.b.And(e.b.And(p.g, q.g), e.cmp(s.st, x.Op, p.n, q.n, u64T, 64, sg, true)))
				}
			}
			return sval{e.boolV(c), types.Typ[types.Bool]}, nil
		}
		v := e.map2(a.v, b.v, s.st.pc, func(p, q *Node) *V {
			switch x.Op {
			case token.ADD:
				return e.v(e.add(p, q, 64))
			case token.SUB:
				return e.v(e.sub(p, q, 64))
			case token.MUL:
				return e.v(e.mul(p, q, 64))
			case token.QUO:
				return e.v(e.divrem("div", p, q, 64, false))
			case token.REM:
				return e.v(e.divrem("rem", p, q, 64, false))
			case token.AND:
				return e.v(e.bit2("and", p, q, 64))
			case token.OR:
				return e.v(e.bit2("or", p, q, 64))
			case token.XOR:
				return e.v(e.bit2("xor", p, q, 64))
			case token.SHL:
				return e.v(e.shift("shl", p, q, 64))
			case token.SHR:
				return e.v(e.shift("lshr", p, q, 64))
			}
			return nil
		})
		return sval{v, u64T}, nil
	}
	return sval{}, fmt.Errorf("unsupported expression %T", x)
}
