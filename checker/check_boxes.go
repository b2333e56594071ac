package main

// R05: every registered box, with its real structure and registration, encoded and decoded as the
// specification table says. The table is unfolded into cases: one for every version, every combination of
// optional parts and a few element counts; all other values are unknown bits.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	checks["R05"] = func(c *Check) { runCodec(c, boxCases(c), 700) }
}

// bgen builds one witness of a registered box, following a sequence of choices.
type bgen struct {
	l      *specLayout
	r      *Repo
	script []int // choices made so far
	width  []int
	pos    int
	free   int // >0: choices are not enumerated
	roll   int
	label  []string
	err    string
	ctx    map[string]uint64
	ver    uint64
	flags  uint64
	masks  uint64
	tail   bool
	print  int // >0: for printing; which signs and booleans
	signs  int
	k      *codec // nil while only enumerating
}

// sign is the sign or truth value fixed for the next value that is printed.
func (g *bgen) sign() bool {
	g.signs++
	return (g.signs+g.print)&1 != 0
}

func (g *bgen) choose(what string, n int) int {
	if n <= 1 {
		return 0
	}
	if g.free > 0 {
		g.roll++
		return g.roll % n
	}
	i := 0
	if g.pos < len(g.script) {
		i = g.script[g.pos]
	} else {
		g.script = append(g.script, 0)
		g.width = append(g.width, n)
	}
	g.pos++
	g.roll += i + 1
	return i
}

func (g *bgen) pick(what string, vals ...uint64) uint64 {
	v := vals[g.choose(what, len(vals))]
	if len(vals) > 1 && g.free == 0 {
		g.label = append(g.label, fmt.Sprintf("%s=%d", what, v))
	}
	return v
}

// advance moves to the next sequence of choices.
func (g *bgen) advance() bool {
	for len(g.script) > 0 {
		i := len(g.script) - 1
		if g.script[i]+1 < g.width[i] {
			g.script[i]++
			return true
		}
		g.script, g.width = g.script[:i], g.width[:i]
	}
	return false
}

// benv is the values chosen for the fields of one structure.
type benv struct {
	t     string
	num   map[string]uint64
	str   map[string]string
	root  *benv
	up    *benv
	limit int // size in bytes given to the structure, -1: none
}

type bval struct {
	n uint64
	s string
	k byte // 'n' or 's'
}

func (g *bgen) fail(format string, a ...interface{}) bval {
	if g.err == "" {
		g.err = fmt.Sprintf(format, a...)
	}
	return bval{k: 'n'}
}

func (g *bgen) eval(src string, v *benv) bval {
	x, err := parser.ParseExpr(src)
	if err != nil {
		return g.fail("%s: %v", src, err)
	}
	return g.ev(x, v)
}

func bn(b bool) bval {
	if b {
		return bval{n: 1, k: 'n'}
	}
	return bval{k: 'n'}
}

func (g *bgen) get(v *benv, name string) bval {
	for e := v; e != nil; e = e.up {
		if n, ok := e.num[name]; ok {
			return bval{n: n, k: 'n'}
		}
		if s, ok := e.str[name]; ok {
			return bval{s: s, k: 's'}
		}
	}
	return g.fail("%s has no value in %s", name, v.t)
}

func (g *bgen) ev(x ast.Expr, v *benv) bval {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return g.ev(x.X, v)
	case *ast.BasicLit:
		if x.Kind == token.STRING {
			s, _ := strconv.Unquote(x.Value)
			return bval{s: s, k: 's'}
		}
		n, _ := strconv.ParseUint(x.Value, 0, 64)
		return bval{n: n, k: 'n'}
	case *ast.Ident:
		switch x.Name {
		case "ver":
			return bval{n: g.ver, k: 'n'}
		case "flags":
			return bval{n: g.flags, k: 'n'}
		case "unlimited":
			return bval{n: 0xffffffff, k: 'n'}
		}
		return g.get(v, x.Name)
	case *ast.SelectorExpr:
		switch x.X.(*ast.Ident).Name {
		case "ctx":
			return bval{n: g.ctx[x.Sel.Name], k: 'n'}
		case "root":
			return g.get(v.root, x.Sel.Name)
		}
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return bn(g.ev(x.X, v).n == 0)
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "cond" {
			if g.ev(x.Args[0], v).n != 0 {
				return g.ev(x.Args[1], v)
			}
			return g.ev(x.Args[2], v)
		}
	case *ast.BinaryExpr:
		a := g.ev(x.X, v)
		switch x.Op {
		case token.LAND:
			if a.n == 0 {
				return a
			}
			return g.ev(x.Y, v)
		case token.LOR:
			if a.n != 0 {
				return a
			}
			return g.ev(x.Y, v)
		}
		b := g.ev(x.Y, v)
		switch x.Op {
		case token.EQL:
			return bn(a == b)
		case token.NEQ:
			return bn(a != b)
		case token.ADD:
			return bval{n: a.n + b.n, k: 'n'}
		case token.SUB:
			return bval{n: a.n - b.n, k: 'n'}
		case token.MUL:
			return bval{n: a.n * b.n, k: 'n'}
		case token.AND:
			return bval{n: a.n & b.n, k: 'n'}
		}
	}
	return g.fail("unsupported expression")
}

// use is how the specification uses a field elsewhere.
type use struct {
	nums  map[uint64]bool // compared with
	strs  map[string]bool
	count bool // number of elements
	minus uint64
	width bool // size of other fields
	cond  bool // condition by itself
}

func (u *use) any() bool {
	return u != nil && (len(u.nums) > 0 || len(u.strs) > 0 || u.count || u.width || u.cond)
}

// uses collects how the expressions of a type (and, for root., of the types in it) use its fields.
func (g *bgen) uses(t string) map[string]*use {
	out := map[string]*use{}
	at := func(n string) *use {
		if out[n] == nil {
			out[n] = &use{nums: map[uint64]bool{}, strs: map[string]bool{}}
		}
		return out[n]
	}
	name := func(x ast.Expr, own bool) string {
		switch x := x.(type) {
		case *ast.Ident:
			if own {
				return x.Name
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "root" {
				return x.Sel.Name
			}
		case *ast.ParenExpr:
			return ""
		}
		return ""
	}
	var walk func(x ast.Expr, own bool, kind string)
	walk = func(x ast.Expr, own bool, kind string) {
		if n := name(x, own); n != "" && n != "ver" && n != "flags" && n != "unlimited" {
			switch kind {
			case "len":
				at(n).count = true
			case "size":
				at(n).width = true
			default:
				at(n).cond = true
			}
			return
		}
		switch x := x.(type) {
		case *ast.ParenExpr:
			walk(x.X, own, kind)
		case *ast.UnaryExpr:
			walk(x.X, own, "if")
		case *ast.CallExpr:
			walk(x.Args[0], own, "if")
			walk(x.Args[1], own, kind)
			walk(x.Args[2], own, kind)
		case *ast.BinaryExpr:
			if x.Op == token.EQL || x.Op == token.NEQ {
				n := name(x.X, own)
				lit, ok := x.Y.(*ast.BasicLit)
				if n != "" && ok && n != "ver" {
					if lit.Kind == token.STRING {
						s, _ := strconv.Unquote(lit.Value)
						at(n).strs[s] = true
					} else {
						v, _ := strconv.ParseUint(lit.Value, 0, 64)
						at(n).nums[v] = true
					}
					return
				}
			}
			if x.Op == token.SUB && kind == "len" {
				if lit, ok := x.Y.(*ast.BasicLit); ok {
					v, _ := strconv.ParseUint(lit.Value, 0, 64)
					if n := name(x.X, own); n != "" {
						at(n).minus = v
					}
				}
			}
			walk(x.X, own, kind)
			walk(x.Y, own, kind)
		}
	}
	seen := map[string]bool{}
	var visit func(t string, own bool)
	visit = func(t string, own bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, f := range g.l.Types[t] {
			for kind, src := range map[string]string{"if": f.If, "len": f.Len, "size": f.Size} {
				if src == "" {
					continue
				}
				if x, err := parser.ParseExpr(src); err == nil {
					walk(x, own, kind)
				}
			}
			if el := strings.TrimLeft(f.Type, "[]*0123456789"); g.l.Types[el] != nil {
				visit(el, false)
			}
		}
	}
	visit(t, true)
	return out
}

// flagMasks collects the flag bits that the type and those in it depend on.
func (g *bgen) flagMasks(t string, seen map[string]bool) (masks []uint64, ver bool, ctx map[string]bool) {
	ctx = map[string]bool{}
	if seen[t] {
		return
	}
	seen[t] = true
	for _, f := range g.l.Types[t] {
		for _, src := range []string{f.If, f.Len, f.Size} {
			if src == "" {
				continue
			}
			x, err := parser.ParseExpr(src)
			if err != nil {
				continue
			}
			ast.Inspect(x, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					if id, ok := n.X.(*ast.Ident); ok && n.Op == token.AND && id.Name == "flags" {
						m, _ := strconv.ParseUint(n.Y.(*ast.BasicLit).Value, 0, 64)
						masks = append(masks, m)
					}
				case *ast.Ident:
					if n.Name == "ver" {
						ver = true
					}
				case *ast.SelectorExpr:
					if id, ok := n.X.(*ast.Ident); ok && id.Name == "ctx" {
						ctx[n.Sel.Name] = true
					}
				}
				return true
			})
		}
		if el := strings.TrimLeft(f.Type, "[]*0123456789"); g.l.Types[el] != nil {
			m, v, c := g.flagMasks(el, seen)
			masks = append(masks, m...)
			ver = ver || v
			for x := range c {
				ctx[x] = true
			}
		}
	}
	return
}

func sortedU(m map[uint64]bool) []uint64 {
	var out []uint64
	for n := range m {
		out = append(out, n)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// domain: the values enumerated for a field whose value decides about other fields.
func (g *bgen) domain(t string, f specField, u *use, v *benv) []uint64 {
	switch t + "." + f.Name {
	case "AVCDecoderConfiguration.Profile":
		return []uint64{100, 110, 122, 144, 77}
	case "AVCDecoderConfiguration.HighProfileFieldsEnabled":
		if v.num["Profile"] == 77 {
			return []uint64{0}
		}
		return []uint64{0, 1}
	case "Sgpd.DefaultLength":
		if v.str["GroupingType"] == "alst" {
			return []uint64{0, 4, 8, 12}
		}
		return []uint64{0, 5}
	case "Sgpd.EntryCount":
		if v.str["GroupingType"] == "alst" && g.ver == 2 {
			return []uint64{0} // the element size is not on the wire
		}
		if v.str["GroupingType"] == "alst" && g.ver == 1 {
			return []uint64{0, 2}
		}
	case "AlternativeStartupEntryL.DescriptionLength":
		return []uint64{4, 8, 12}
	case "AlternativeStartupEntry.RollCount":
		var out []uint64
		for r := 0; r < 3; r++ {
			if v.limit < 0 || 4+4*r <= v.limit {
				out = append(out, uint64(r))
			}
		}
		return out
	case "Hdlr.PreDefined":
		return []uint64{0}
	}
	if !u.any() {
		return nil
	}
	set := map[uint64]bool{}
	for n := range u.nums {
		set[n] = true
	}
	switch {
	case u.width:
		for i := uint64(0); i < 4; i++ {
			set[i] = true
		}
	case u.count:
		for i := uint64(0); i < 3; i++ {
			set[i+u.minus] = true
		}
	case u.cond:
		set[0], set[1] = true, true
	case len(u.nums) > 0:
		o := uint64(5)
		for set[o] {
			o++
		}
		set[o] = true
	}
	return sortedU(set)
}

func goType(r *Repo, name string) types.Type {
	o := r.Root.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func fieldType(t types.Type, name string) types.Type {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

// fields builds the fields of a type of the specification in wire order.
func (g *bgen) fields(t string, gt types.Type, v *benv) (fs []wfield) {
	us := g.uses(t)
	for _, f := range g.l.Types[t] {
		if t == "HvcC" && (f.Name == "NumTemporalLayers" || f.Name == "TemporalIdNested") {
			f.Size = "2" // recorded finding of R01
		}
		ft := fieldType(gt, f.Name)
		if ft == nil {
			g.fail("%s has no field %s", t, f.Name)
			return nil
		}
		w := wfield{name: f.Name, tag: "0"}
		if f.If != "" && g.eval(f.If, v).n == 0 {
			w.skip = true
			if g.k != nil {
				w.v = g.k.unset(ft)
			}
			fs = append(fs, w)
			continue
		}
		w.v = g.value(t, f, ft, us[f.Name], v)
		if g.err != "" {
			return nil
		}
		fs = append(fs, w)
	}
	if t == "Emsg" && g.ver == 1 && g.k != nil {
		byName := map[string]wfield{}
		for _, f := range fs {
			byName[f.name] = f
		}
		var out []wfield
		for _, n := range []string{"FullBox", "Timescale", "PresentationTime", "EventDuration", "Id", "SchemeIdUri", "Value", "MessageData", "PresentationTimeDelta"} {
			out = append(out, byName[n])
		}
		fs = out
	}
	return fs
}

func (g *bgen) value(t string, f specField, ft types.Type, u *use, v *benv) *wv {
	k := g.k
	typ := f.Type
	size := 0
	if f.Size != "" {
		size = int(g.eval(f.Size, v).n)
	}
	_, varint := f.Attr["varint"]
	_, boxstr := f.Attr["boxstring"]
	switch {
	case typ == "FullBox":
		if k == nil {
			return nil
		}
		bits := k.symBits(24, k.fresh("flags"))
		for i := range bits {
			if g.masks>>uint(i)&1 != 0 {
				bits[i] = k.e.b.Bool(g.flags>>uint(i)&1 != 0)
			}
		}
		return k.fullBoxBits(uint8(g.ver), bits)
	case g.l.Types[typ] != nil:
		return g.nested(typ, ft, v, f)
	case strings.HasPrefix(typ, "*"):
		x := g.nested(typ[1:], deref(ft), v, f)
		if k == nil {
			return nil
		}
		return k.pointer(x)
	case strings.HasPrefix(typ, "[]"):
		unlimited := f.Len == ""
		n := 0
		if !unlimited {
			m := g.eval(f.Len, v).n
			if m == 0xffffffff {
				unlimited = true
			} else if m > 1000 {
				g.fail("%s.%s has %d elements", t, f.Name, m)
				return nil
			} else {
				n = int(m)
			}
		}
		if unlimited {
			switch {
			case t == "AlternativeStartupEntry" && v.limit >= 0:
				n = (v.limit - 4 - 4*int(v.num["RollCount"])) / 4
			default:
				n = int(g.pick("len("+f.Name+")", 0, 1, 3))
				g.tail = true
			}
		}
		el := f
		el.Type = typ[2:]
		sl, ok := ft.Underlying().(*types.Slice)
		if !ok {
			g.fail("%s.%s is not a slice", t, f.Name)
			return nil
		}
		et := sl.Elem()
		var els []*wv
		for i := 0; i < n; i++ {
			if i > 0 {
				g.free++
			}
			els = append(els, g.value(t, el, et, nil, v))
			if i > 0 {
				g.free--
			}
		}
		if k == nil || g.err != "" {
			return nil
		}
		if g.print == 2 && !unlimited && n < 100 && printAs[t+"."+f.Name] == "" {
			// elements beyond the number of elements
			g.free++
			els = append(els, g.value(t, el, et, nil, v))
			g.free--
			if g.err != "" {
				return nil
			}
			return k.list(et, els, 1)
		}
		return k.list(et, els, 0)
	case strings.HasPrefix(typ, "["):
		i := strings.Index(typ, "]")
		n, _ := strconv.Atoi(typ[1:i])
		el := f
		el.Type = typ[i+1:]
		if u != nil && len(u.strs) > 0 {
			var ss []string
			for s := range u.strs {
				ss = append(ss, s)
			}
			ss = append(ss, "zzzz")
			sortStrings(ss)
			s := ss[g.choose(f.Name, len(ss))]
			if g.free == 0 {
				g.label = append(g.label, fmt.Sprintf("%s=%q", f.Name, s))
			}
			v.str[f.Name] = s
			if k == nil {
				return nil
			}
			var els []*wv
			for j := 0; j < n; j++ {
				els = append(els, k.konst(8, 8, uint64(s[j])))
			}
			return k.array(els)
		}
		var head *wv
		if g.print > 0 && strings.HasPrefix(printAs[t+"."+f.Name], "counted") {
			c := g.pick("len("+f.Name+")", 5, 31, 0, 32, 255)
			if k != nil {
				head = k.konst(8, 8, c)
			}
		}
		if k == nil {
			return nil
		}
		ar, ok := ft.Underlying().(*types.Array)
		if !ok || int(ar.Len()) != n {
			g.fail("%s.%s is not an array of %d", t, f.Name, n)
			return nil
		}
		et := ar.Elem()
		var els []*wv
		for j := 0; j < n; j++ {
			if j == 0 && head != nil {
				els = append(els, head)
				continue
			}
			els = append(els, g.value(t, el, et, nil, v))
		}
		if g.err != "" {
			return nil
		}
		return k.array(els)
	case typ == "string":
		n := int(g.pick("len("+f.Name+")", 0, 1, 4))
		g.tail = g.tail || boxstr || t == "Hdlr"
		if k == nil {
			return nil
		}
		return k.str(n, !boxstr)
	}
	// integers and booleans
	dom := g.domain(t, f, u, v)
	if d := printDomain(t, f); d != nil && g.print > 0 {
		dom = append(dom, d...)
	}
	var c uint64
	if dom != nil {
		c = g.pick(f.Name, dom...)
		v.num[f.Name] = c
	}
	if t == "AVCDecoderConfiguration" && f.Name == "HighProfileFieldsEnabled" {
		g.tail = g.tail || c == 0 && v.num["Profile"] != 77
	}
	if k == nil {
		return nil
	}
	w, signed, isInt := intWidth(ft)
	switch {
	case isBool(ft) && dom != nil:
		return k.konstBool(size, c != 0)
	case isBool(ft) && g.print > 0:
		return k.konstBool(size, g.sign())
	case isBool(ft):
		return k.boolean(size)
	case !isInt:
		g.fail("%s.%s has type %s", t, f.Name, ft)
		return nil
	case varint && dom != nil:
		return k.konstVarint(w, c)
	case varint:
		return k.varint(w)
	case dom != nil:
		return k.konstInt(w, size, signed, c)
	}
	if size > w {
		// only the low bits of the Go field can hold the value
		g.fail("%s.%s: %d bits in %s", t, f.Name, size, ft)
		return nil
	}
	x := k.num(w, size, signed)
	if g.print > 0 && signed {
		x.pc = k.e.b.And(x.pc, k.e.b.Eq(x.bits[0], k.e.b.Bool(g.sign())))
	}
	return x
}

func (g *bgen) nested(typ string, gt types.Type, v *benv, f specField) *wv {
	n := &benv{t: typ, num: map[string]uint64{}, str: map[string]string{}, root: v.root, limit: -1}
	switch typ {
	case "AlternativeStartupEntry":
		if v.t == "Sgpd" && g.ver == 1 {
			n.limit = int(v.num["DefaultLength"])
		} else if v.t == "AlternativeStartupEntryL" {
			n.limit = int(v.num["DescriptionLength"])
		}
	}
	fs := g.fields(typ, gt, n)
	if f.Embed {
		for x, y := range n.num {
			v.num[x] = y
		}
	}
	if g.k == nil || g.err != "" {
		return nil
	}
	return g.k.wireRecord(gt, fs)
}

func sortStrings(ss []string) {
	for i := range ss {
		for j := i + 1; j < len(ss); j++ {
			if ss[j] < ss[i] {
				ss[i], ss[j] = ss[j], ss[i]
			}
		}
	}
}

// box builds the witness for a registration; with k == nil only the choices are followed.
func (g *bgen) box(r specReg) *wbox {
	g.pos, g.label, g.err, g.tail, g.roll, g.free, g.signs = 0, nil, "", false, 0, 0, 0
	masks, usesVer, cx := g.flagMasks(r.Type, map[string]bool{})
	g.ctx = map[string]uint64{}
	for _, part := range strings.Split(r.Target, "&&") {
		if n, ok := strings.CutPrefix(part, "ctx."); ok {
			g.ctx[n] = 1
		}
	}
	var names []string
	for n := range cx {
		if _, ok := g.ctx[n]; !ok {
			names = append(names, n)
		}
	}
	sortStrings(names)
	for _, n := range names {
		g.ctx[n] = g.pick(n, 0, 1)
	}
	full := false
	for _, f := range g.l.Types[r.Type] {
		full = full || f.Type == "FullBox"
	}
	g.ver, g.flags, g.masks = 0, 0, 0
	if full {
		vs := r.Versions
		if len(vs) == 0 {
			vs = []uint64{0, 7}
			if usesVer {
				vs = []uint64{0, 1, 2}
			}
		}
		g.ver = g.pick("version", vs...)
		set := map[uint64]bool{}
		all := uint64(0)
		for _, m := range masks {
			set[m] = true
			all |= m
		}
		opts := []uint64{0}
		for _, m := range sortedU(set) {
			opts = append(opts, m)
			if len(set) > 1 {
				opts = append(opts, all&^m)
			}
		}
		if len(set) != 1 && all != 0 {
			opts = append(opts, all)
		}
		g.masks = all
		if r.Type == "Meta" {
			g.masks = 0xffffff
		}
		g.flags = opts[g.choose("flags", len(opts))]
		if len(opts) > 1 {
			g.label = append(g.label, fmt.Sprintf("flags=%#x", g.flags))
		}
	}
	v := &benv{t: r.Type, num: map[string]uint64{}, str: map[string]string{}, limit: -1}
	v.root = v
	gt := goType(g.r, r.Type)
	if gt == nil {
		g.err = "the type " + r.Type + " is missing"
		return nil
	}
	fs := g.fields(r.Type, gt, v)
	if g.err != "" || g.k == nil {
		return nil
	}
	b := g.k.realBox(gt.(*types.Named), r.Code, fs)
	b.ctx = g.k.context(g.ctx)
	return b
}

// boxCases enumerates the choices for every registration.
func boxCases(c *Check) []ccase {
	return boxCasesWith(c, "box", 0, func(k *codec, g *bgen, r specReg, b *wbox) string {
		return k.roundTrip(b, g.tail)
	})
}

func boxCasesWith(c *Check, kind string, print int, check func(k *codec, g *bgen, r specReg, b *wbox) string) []ccase {
	l, err := parseLayout(layoutText)
	if err != nil {
		c.Bad("table", "-", "%v", err)
		return nil
	}
	var out []ccase
	done := map[string]bool{}
	for _, r := range l.Regs {
		r := r
		first := !done[r.Type]
		done[r.Type] = true
		g := &bgen{l: l, r: c.R, print: print}
		covered := map[string]bool{}
		for n := 0; ; n++ {
			g.box(r)
			if g.err != "" {
				c.Bad("table: "+r.Code, "-", "%q: %s", r.Code, g.err)
				break
			}
			if n > 2000 {
				c.Bad("table: "+r.Code, "-", "%q: too many cases", r.Code)
				break
			}
			if c.Tier != "thorough" && !newPairs(covered, g.label) {
				if !first || !g.advance() {
					break
				}
				continue
			}
			script := append([]int{}, g.script...)
			width := append([]int{}, g.width...)
			name := fmt.Sprintf("%q (%s) %s", r.Code, r.Type, strings.Join(g.label, " "))
			if print > 0 {
				name += fmt.Sprintf(" pattern %d", print)
			}
			out = append(out, ccase{kind, strings.TrimSpace(name), func(k *codec) string {
				g := &bgen{l: l, r: c.R, k: k, script: script, width: width, print: print}
				b := g.box(r)
				if g.err != "" {
					return g.err
				}
				return check(k, g, r, b)
			}})
			if !first || !g.advance() {
				break
			}
		}
	}
	return out
}

// newPairs reports whether two of the choices were not made together before.
func newPairs(covered map[string]bool, label []string) bool {
	ls := append([]string{""}, label...)
	fresh := len(covered) == 0
	for i := range ls {
		for j := 0; j < i; j++ {
			if p := ls[j] + "\x00" + ls[i]; !covered[p] {
				covered[p] = true
				fresh = true
			}
		}
	}
	if fresh {
		covered["\x00"] = true
	}
	return fresh
}
