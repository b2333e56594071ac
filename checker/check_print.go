package main

// S01: Stringify prints every field of a box, as the specification table says.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	checks["S01"] = func(c *Check) { runCodec(c, printCases(c), 1500) }
}

// printAs: fields that are not printed in the way of their type.
//
//	fixed N/P   a fixed-point number with N fractional bits: an integer, or P decimals
//	names ...   names of some values
//	text        bytes that are a text
//	text F=n    bytes that are a text if the field F is n
//	counted     a counted text of up to 31 bytes in an array of 32, unless the count is larger
//	uuids       structures of one UUID each
//	dec         a decimal number
//	inline      the fields of a structure without its name
//	flags       three bytes in hexadecimal
var printAs = map[string]string{
	"Mvhd.Rate":                          "fixed 16/5",
	"Tkhd.Width":                         "fixed 16/5",
	"Tkhd.Height":                        "fixed 16/5",
	"AudioSampleEntry.SampleRate":        "fixed 16/5",
	"Smhd.Balance":                       "fixed 8/3",
	"VisualSampleEntry.Compressorname":   "counted",
	"Descriptor.Tag":                     "names 3=ESDescr 4=DecoderConfigDescr 5=DecSpecificInfo 6=SLConfigDescr",
	"Pssh.KIDs":                          "uuids",
	"Data.DataType":                      "names 0=BINARY 1=UTF8 2=UTF16 3=MAC_STR 14=JPEG 21=INT 22=FLOAT32 23=FLOAT64",
	"Data.Data":                          "text DataType=1",
	"StringData.Data":                    "text",
	"Key.KeyNamespace":                   "text",
	"Key.KeyValue":                       "text",
	"Item.ItemName":                      "text",
	"Descriptor.ESDescriptor":            "inline",
	"Descriptor.DecoderConfigDescriptor": "inline",
	"Item.Flags":                         "flags",
}

// printDomain: values enumerated for fields whose value decides about what is printed.
func printDomain(t string, f specField) []uint64 {
	switch t + "." + f.Name {
	case "Descriptor.Tag":
		return []uint64{3, 4, 5, 6, 7}
	case "Data.DataType":
		return []uint64{0, 1, 2, 3, 14, 21, 22, 23, 4}
	}
	return nil
}

func printCases(c *Check) []ccase {
	var out []ccase
	for i, ind := range []string{"", "\t"} {
		i, ind := i, ind
		out = append(out, boxCasesWith(c, "print", i+1, func(k *codec, g *bgen, r specReg, b *wbox) string {
			return k.prints(g, r, b, ind)
		})...)
	}
	for i, ind := range []string{"", "\t"} {
		i, ind := i, ind
		out = append(out, ccase{"print", fmt.Sprintf("numbered item, pattern %d", i+1), func(k *codec) string {
			if k.printsItem(i, ind, false) == "" {
				return ""
			}
			return k.printsItem(i, ind, true)
		}})
	}
	out = append(out, ccase{"print", "flags of a numbered item", func(k *codec) string { return k.printsItem(0, "", false) }})
	for n := 0; n < 4; n++ {
		n := n
		out = append(out, ccase{"escape", fmt.Sprintf("text of %d bytes", n), func(k *codec) string { return k.escapes(n) }})
	}
	out = append(out, ccase{"escape", "rune", func(k *codec) string { return k.escapesRune() }})
	return out
}

// printsItem: an item of metadata with keys. With noFlags its flags need not be its own (the recorded finding).
func (k *codec) printsItem(pattern int, ind string, noFlags bool) string {
	g := &bgen{r: k.r, k: k, ctx: map[string]uint64{}, print: pattern + 1, free: 1}
	var err error
	if g.l, err = parseLayout(layoutText); err != nil {
		return err.Error()
	}
	t := goType(k.r, "Item")
	if t == nil {
		return "the type Item is missing"
	}
	v := &benv{t: "Item", num: map[string]uint64{}, str: map[string]string{}, limit: -1}
	v.root = v
	fs := g.fields("Item", t, v)
	if g.err != "" {
		return g.err
	}
	b := k.realBox(t.(*types.Named), "\x00\x00\x00\x02", fs)
	b.ctx = k.context(map[string]uint64{"UnderIlst": 1, "QuickTimeKeysMetaEntryCount": 3})
	k.noFlags = noFlags
	return k.prints(g, specReg{Type: "Item"}, b, ind)
}

// ---------------------------------------------------------------- texts as lists of bytes and fragments

type talt struct {
	g  *B
	el []*V
}

func (k *codec) lit(s string) []*V {
	var out []*V
	for i := 0; i < len(s); i++ {
		out = append(out, k.e.intV(uint64(s[i]), 8))
	}
	return out
}

func (k *codec) frag(name string, args ...*V) []*V {
	return []*V{k.e.v(k.e.mk(Node{Op: "frag", Name: name, Elems: args}))}
}

// mapped is a text to whose runes a function is applied. Printable characters of one byte and numbers end the
// runes next to them and stay what they are.
func (k *codec) mapped(fn string, bs []*V) []*V {
	if fn != escapeFn {
		if len(bs) == 0 {
			return nil
		}
		return k.frag("map:"+fn, bs...)
	}
	var out, run []*V
	end := func() {
		if len(run) > 0 {
			out = append(out, k.frag("map:"+fn, run...)...)
			run = nil
		}
	}
	for _, b := range bs {
		n := b.single()
		if n != nil && (n.Op == "int" && n.C >= 0x20 && n.C < 0x7f || n.Op == "frag" && !strings.HasPrefix(n.Name, "map:")) {
			end()
			out = append(out, b)
			continue
		}
		run = append(run, b)
	}
	end()
	return out
}

const escapeFn = "github.com/abema/go-mp4/internal/util.EscapeUnprintable"

// number is an integer in the given format: d, x, or one of them with zeros up to a width.
func (k *codec) number(verb string, bits []*B, signed bool, pc *B) []talt {
	e := k.e
	if len(bits) == 0 {
		return nil
	}
	var out []talt
	uns := func(g *B, bs []*B, minus bool) {
		if e.b.And(g, pc) == e.b.F {
			return
		}
		full := extend(bs, false, e.b.F)
		for i := range full {
			full[i] = e.b.Restrict(full[i], e.b.And(g, pc))
		}
		var el []*V
		if minus {
			el = k.lit("-")
		}
		c, konst := uint64(0), true
		for i, b := range full {
			switch b {
			case e.b.T:
				c |= 1 << uint(i)
			case e.b.F:
			default:
				konst = false
			}
		}
		if konst {
			el = append(el, k.lit(fmt.Sprintf("%"+verb, c))...)
		} else {
			el = append(el, k.frag(verb, e.v(e.bvN(full)))...)
		}
		out = append(out, talt{g, el})
	}
	if !signed {
		uns(e.b.T, bits, false)
		return out
	}
	top := bits[len(bits)-1]
	uns(e.b.Not(top), bits, false)
	neg := make([]*B, len(bits))
	carry := e.b.T
	for i, b := range bits {
		x := e.b.Not(b)
		neg[i] = e.b.Not(e.b.Eq(x, carry))
		carry = e.b.And(x, carry)
	}
	uns(top, neg, true)
	return out
}

// hex is a number with its sign before 0x.
func (k *codec) hex(bits []*B, signed bool, pc *B) []talt {
	var out []talt
	for _, a := range k.number("x", bits, signed, pc) {
		el := append(k.lit("0x"), a.el...)
		if n := a.el[0].single(); n != nil && n.Op == "int" && n.C == '-' {
			el = append(k.lit("-0x"), a.el[1:]...)
		}
		out = append(out, talt{a.g, el})
	}
	return out
}

// decimals is a number divided by a power of two, with some decimals.
func (k *codec) decimals(bits []*B, scale constant.Value, prec int) []*V {
	var args []*V
	for _, b := range bits {
		args = append(args, k.e.boolV(b))
	}
	return k.frag(fmt.Sprintf("%d decimals of %s", prec, constant.ToFloat(scale).ExactString()), args...)
}

// textV makes a string of alternatives.
func (k *codec) textV(alts []talt, pc *B) *V {
	var out []alt
	for _, a := range alts {
		out = append(out, alt{a.g, k.e.bstr(a.el).single()})
	}
	return k.e.norm(out, pc)
}

// textCall models the functions that make texts.
func (k *codec) textCall(cc *CallCtx) (*V, bool) {
	e, st := k.e, cc.st
	num := func(i int, signed bool) ([]*B, bool) {
		v := e.under(cc.Args[i], st.pc)
		for _, a := range v.alts {
			if !isIntNode(a.n) && a.n.Op != "int" {
				return nil, false
			}
		}
		return k.bits(st, v, 64), true
	}
	switch cc.Name {
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		verb := "d"
		if cc.Name != "strconv.Itoa" {
			switch b, ok := constInt(cc.Args[1]); {
			case ok && b == 10:
			case ok && b == 16:
				verb = "x"
			default:
				return nil, false
			}
		}
		bs, ok := num(0, true)
		if !ok {
			return nil, false
		}
		return k.textV(k.number(verb, bs, cc.Name != "strconv.FormatUint", st.pc), st.pc), true
	case "strconv.FormatBool":
		g := e.toB(cc.Args[0])
		return k.textV([]talt{{g, k.lit("true")}, {e.b.Not(g), k.lit("false")}}, st.pc), true
	case "strconv.AppendInt", "strconv.AppendUint", "strconv.AppendBool":
		sub := *cc
		sub.Name = "strconv.Format" + strings.TrimPrefix(cc.Name, "strconv.Append")
		sub.Args = cc.Args[1:]
		v, ok := k.textCall(&sub)
		old, ok2 := e.bytesV(st, cc.Args[0])
		if !ok || !ok2 {
			return nil, false
		}
		var out []alt
		for _, a := range v.alts {
			bs, _ := e.bytesOf(st, a.n)
			out = append(out, alt{a.g, e.mk(Node{Op: "blist", Elems: append(append([]*V{}, old...), bs...)})})
		}
		return e.norm(out, st.pc), true
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		sub := *cc
		sub.Name = strings.Replace(cc.Name, "Write", "WriteString", 1)
		return k.textCall(&sub)
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		bits := k.bits(st, cc.Args[1], 32)
		c, ok := uint64(0), true
		for i, b := range bits {
			b = e.b.Restrict(b, st.pc)
			if b == e.b.T {
				c |= 1 << uint(i)
			} else if b != e.b.F {
				ok = false
			}
		}
		el := k.frag("rune", e.v(e.bvN(bits)))
		if ok && c < 0x80 {
			el = []*V{e.intV(c, 8)}
		}
		if !k.print(cc, cc.Args[0], []talt{{e.b.T, el}}) {
			return nil, false
		}
		return e.tuple(k.wideV(64), e.nilV()), true
	case "strings.HasSuffix", "strings.HasPrefix", "bytes.HasSuffix", "bytes.HasPrefix":
		pat, ok := e.bytesV(st, cc.Args[1])
		if !ok {
			return nil, false
		}
		r := e.b.F
		for _, a := range e.under(cc.Args[0], st.pc).alts {
			bs, ok := e.bytesOf(st, a.n)
			if !ok {
				return nil, false
			}
			if len(bs) < len(pat) {
				continue
			}
			part := bs[:len(pat)]
			if strings.HasSuffix(cc.Name, "Suffix") {
				part = bs[len(bs)-len(pat):]
			}
			r = e.b.Or(r, e.b.And(a.g, e.eqBytes(part, pat)))
		}
		return e.boolV(e.b.Restrict(r, st.pc)), true
	case "strconv.FormatFloat":
		f, ok1 := constInt(cc.Args[1])
		prec, ok2 := constInt(cc.Args[2])
		size, ok3 := constInt(cc.Args[3])
		if !ok1 || !ok2 || !ok3 || f != 'f' {
			return nil, false
		}
		var out []talt
		for _, a := range e.under(cc.Args[0], st.pc).alts {
			bs, scale, ok := k.scaled(a.n)
			if !ok {
				return nil, false
			}
			if size == 32 {
				// exact in 24 bits
				for i := 24; i < len(bs); i++ {
					if bs[i] != bs[len(bs)-1] {
						k.und("%s rounds to a 32-bit number", k.chain(cc.fr))
					}
				}
			}
			for i := range bs {
				bs[i] = e.b.Restrict(bs[i], e.b.And(st.pc, a.g))
			}
			out = append(out, talt{a.g, k.decimals(bs, scale, prec)})
		}
		return k.textV(out, st.pc), true
	case "unicode.IsGraphic":
		if k.graphic != nil {
			if g, ok := k.graphic(cc.Args[0]); ok {
				return e.boolV(g), true
			}
		}
		return nil, false
	case escapeFn + "s":
		if k.escaping {
			return nil, false
		}
		var out []talt
		for _, a := range e.under(cc.Args[0], st.pc).alts {
			bs, ok := e.bytesOf(st, a.n)
			if !ok {
				return nil, false
			}
			out = append(out, talt{a.g, k.mapped(escapeFn, bs)})
		}
		return k.textV(out, st.pc), true
	case "strings.Map":
		f := e.under(cc.Args[0], st.pc).single()
		if f == nil || f.Op != "func" {
			return nil, false
		}
		name := f.Fn.String()
		if name != escapeFn && k.keepsGraphic(f) {
			name = escapeFn
		}
		var out []talt
		for _, a := range e.under(cc.Args[1], st.pc).alts {
			bs, ok := e.bytesOf(st, a.n)
			if !ok {
				return nil, false
			}
			out = append(out, talt{a.g, k.mapped(name, bs)})
		}
		return k.textV(out, st.pc), true
	case "io.WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		w, s := cc.Args[0], e.under(cc.Args[1], st.pc)
		var out []talt
		for _, a := range s.alts {
			bs, ok := e.bytesOf(st, a.n)
			if !ok {
				return nil, false
			}
			out = append(out, talt{a.g, bs})
		}
		if !k.print(cc, w, out) {
			return nil, false
		}
		return e.tuple(k.wideV(64), e.nilV()), true
	case "fmt.Fprintf", "fmt.Fprint":
		out, ok := k.format(cc, 1, cc.Name == "fmt.Fprintf")
		if !ok || !k.print(cc, cc.Args[0], out) {
			return nil, false
		}
		return e.tuple(k.wideV(64), e.nilV()), true
	case "encoding/hex.EncodeToString":
		bs, ok := e.bytesV(st, cc.Args[0])
		if !ok {
			return nil, false
		}
		return k.textV(k.hexBytes(bs, st), st.pc), true
	case "fmt.Sprintf", "fmt.Sprint":
		out, ok := k.format(cc, 0, cc.Name == "fmt.Sprintf")
		if !ok {
			return nil, false
		}
		return k.textV(out, st.pc), true
	case "strings.Join":
		sep, ok := e.bytesV(st, cc.Args[1])
		n, ok2 := e.constLen(st, cc.Args[0])
		l := e.under(cc.Args[0], st.pc).single()
		if !ok || !ok2 || l == nil {
			return nil, false
		}
		out := []talt{{e.b.T, nil}}
		for i := 0; i < n; i++ {
			if i > 0 {
				out = k.join(out, []talt{{e.b.T, sep}}, st.pc)
			}
			var next []talt
			for _, a := range e.under(e.load(st, e.sliceElem(st, l, e.intN(uint64(i), 64)), types.Typ[types.String]), st.pc).alts {
				bs, ok := e.bytesOf(st, a.n)
				if !ok {
					return nil, false
				}
				next = append(next, talt{a.g, bs})
			}
			out = k.join(out, next, st.pc)
		}
		return k.textV(out, st.pc), true
	case "(github.com/google/uuid.UUID).String":
		v := e.under(cc.Args[0], st.pc).single()
		if v == nil || v.Op != "array" || len(v.Elems) != 16 {
			return nil, false
		}
		return k.textV([]talt{{e.b.T, k.uuid(func(i int) []*B { return k.bits(st, v.Elems[i], 8) }, st.pc)}}, st.pc), true
	}
	return nil, false
}

func (k *codec) uuid(byteAt func(i int) []*B, pc *B) []*V {
	var out []*V
	for i := 0; i < 16; i++ {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			out = append(out, k.lit("-")...)
		}
		out = append(out, k.number("02x", byteAt(i), false, pc)[0].el...)
	}
	return out
}

// join appends every alternative to every other.
func (k *codec) join(a, b []talt, pc *B) []talt {
	var out []talt
	for _, x := range a {
		for _, y := range b {
			if g := k.e.b.And(x.g, y.g); k.e.b.And(g, pc) != k.e.b.F {
				out = append(out, talt{g, append(append([]*V{}, x.el...), y.el...)})
			}
		}
	}
	return out
}

// print appends a text to a buffer.
func (k *codec) print(cc *CallCtx, w *V, text []talt) bool {
	e, st := k.e, cc.st
	p := e.under(w, st.pc).single()
	if p != nil && p.Op == "iface" {
		if t := deref(p.T).String(); t != "bytes.Buffer" && t != "strings.Builder" {
			return false
		}
		p = e.under(p.Elems[0], st.pc).single()
	}
	if p == nil || p.Op != "ptr" {
		return false
	}
	p = e.ptrOf(st, p)
	cur := []talt{{e.b.T, nil}}
	if v := st.cells(p.Name)[p.Path+".#buf"]; v != nil {
		cur = nil
		for _, a := range e.under(v, st.pc).alts {
			if a.n.Op != "blist" {
				return false
			}
			cur = append(cur, talt{a.g, a.n.Elems})
		}
	}
	var out []alt
	for _, a := range k.join(cur, text, st.pc) {
		out = append(out, alt{a.g, e.mk(Node{Op: "blist", Elems: a.el})})
	}
	st.own(p.Name)[p.Path+".#buf"] = e.norm(out, st.pc)
	return true
}

// hexBytes is two digits for each byte.
func (k *codec) hexBytes(bs []*V, st *State) []talt {
	out := []talt{{k.e.b.T, nil}}
	for _, b := range bs {
		out = k.join(out, k.number("02x", k.bits(st, b, 8), false, st.pc), st.pc)
	}
	return out
}

// format is the text of a format, or of arguments without one.
func (k *codec) format(cc *CallCtx, at int, withFormat bool) ([]talt, bool) {
	e, st := k.e, cc.st
	out := []talt{{e.b.T, nil}}
	f := ""
	if withFormat {
		s, ok := constStr(cc.Args[at])
		if !ok {
			return nil, false
		}
		f = s
		at++
	}
	n, ok := e.constLen(st, cc.Args[at])
	l := e.under(cc.Args[at], st.pc).single()
	if !ok || l == nil {
		return nil, false
	}
	arg := func(i int, verb string) ([]talt, bool) {
		if i >= n {
			return nil, false
		}
		v := e.under(e.load(st, e.sliceElem(st, l, e.intN(uint64(i), 64)), types.NewInterfaceType(nil, nil)), st.pc).single()
		if v == nil || v.Op != "iface" {
			return nil, false
		}
		x := e.under(v.Elems[0], st.pc)
		if verb == "v" || verb == "s" {
			if types.NewMethodSet(v.T).Lookup(nil, "String") != nil {
				if x = e.methodIn(cc, e.v(v), "String"); x == nil {
					return nil, false
				}
				v = e.mk(Node{Op: "iface", T: types.Typ[types.String], Elems: []*V{x}})
			}
		}
		if w, signed, ok := intWidth(v.T); ok {
			if verb == "v" {
				verb = "d"
			}
			if verb == "#x" {
				return k.hex(k.bits(st, x, w), signed, st.pc), true
			}
			if b := strings.TrimLeft(verb, "0123456789"); b != "d" && b != "x" {
				return nil, false
			}
			return k.number(verb, k.bits(st, x, w), signed, st.pc), true
		}
		if a, ok := v.T.Underlying().(*types.Array); ok && verb == "x" && types.Identical(a.Elem().Underlying(), byteT) {
			var bs []*V
			for i := int64(0); i < a.Len(); i++ {
				bs = append(bs, e.map1(x, st.pc, func(n *Node) *V { return e.elem(st, n, int(i), fmt.Sprintf("[%d]", i), byteT) }))
			}
			return k.hexBytes(bs, st), true
		}
		if a, ok := v.T.Underlying().(*types.Slice); verb == "x" && (isString(v.T) || ok && types.Identical(a.Elem().Underlying(), byteT)) {
			bs, ok := e.bytesV(st, x)
			if !ok {
				return nil, false
			}
			return k.hexBytes(bs, st), true
		}
		if isBool(v.T) && (verb == "v" || verb == "t") {
			g := e.toB(x)
			return []talt{{g, k.lit("true")}, {e.b.Not(g), k.lit("false")}}, true
		}
		if isString(v.T) && (verb == "v" || verb == "s") {
			var out []talt
			for _, a := range x.alts {
				bs, ok := e.bytesOf(st, a.n)
				if !ok {
					return nil, false
				}
				out = append(out, talt{a.g, bs})
			}
			return out, true
		}
		return nil, false
	}
	if !withFormat {
		for i := 0; i < n; i++ {
			t, ok := arg(i, "v")
			if !ok {
				return nil, false
			}
			out = k.join(out, t, st.pc)
		}
		return out, true
	}
	i := 0
	for len(f) > 0 {
		j := strings.IndexByte(f, '%')
		if j < 0 {
			j = len(f)
		}
		out = k.join(out, []talt{{e.b.T, k.lit(f[:j])}}, st.pc)
		if f = f[j:]; f == "" {
			break
		}
		f = f[1:]
		v := len(f) - len(strings.TrimLeft(f, "#0123456789"))
		if v >= len(f) {
			return nil, false
		}
		verb := f[:v+1]
		f = f[v+1:]
		if verb == "%" {
			out = k.join(out, []talt{{e.b.T, k.lit("%")}}, st.pc)
			continue
		}
		t, ok := arg(i, verb)
		if !ok {
			return nil, false
		}
		i++
		out = k.join(out, t, st.pc)
	}
	return out, i == n
}

// ---------------------------------------------------------------- what should be printed

type printer struct {
	k    *codec
	g    *bgen
	pc   *B
	ind  string
	out  []talt
	fail string
}

func (p *printer) lit(s string)  { p.text([]talt{{p.k.e.b.T, p.k.lit(s)}}) }
func (p *printer) text(t []talt) { p.out = p.k.join(p.out, t, p.pc) }

func (p *printer) indent(depth int) { p.lit(strings.Repeat(p.ind, depth)) }

// open: nothing, or an opening brace, comes before.
func (p *printer) open() bool {
	el := p.out[0].el
	if len(el) == 0 {
		return true
	}
	n := el[len(el)-1].single()
	return n != nil && n.Op == "int" && n.C == '{'
}

func (p *printer) record(t string, w *wv, depth int, inline bool) {
	if !inline {
		p.lit("{")
		if p.ind != "" {
			p.lit("\n")
		}
		depth++
	}
	byName := map[string]wfield{}
	for _, f := range w.fields {
		byName[f.name] = f
	}
	for _, f := range p.g.l.Types[t] {
		wf, ok := byName[f.Name]
		if !ok {
			p.fail = t + "." + f.Name + " is missing"
			return
		}
		if _, hidden := f.Attr["hidden"]; hidden || f.Attr["const"] != "" || wf.skip {
			continue
		}
		f.Embed = f.Embed || printAs[t+"."+f.Name] == "inline"
		if !f.Embed {
			if p.ind != "" {
				p.indent(depth + 1)
			} else if !p.open() {
				p.lit(" ")
			}
			p.lit(f.Name + "=")
		}
		p.field(t, f, wf.v, byName, depth)
		if !f.Embed && p.ind != "" {
			p.lit("\n")
		}
	}
	if !inline {
		if p.ind != "" {
			p.indent(depth)
		}
		p.lit("}")
	}
}

func (p *printer) bytes(w *wv) []*V {
	if w.str != nil || len(w.kids) == 0 {
		return w.str
	}
	var out []*V
	for _, x := range w.kids {
		out = append(out, x.num)
	}
	return out
}

func (p *printer) quoted(bs []*V) {
	p.lit("\"")
	p.text([]talt{{p.k.e.b.T, p.k.mapped(escapeFn, bs)}})
	p.lit("\"")
}

func (p *printer) bitsOf(w *wv) ([]*B, bool) {
	width, signed, _ := intWidth(w.t)
	var bits []*B
	for _, a := range w.num.alts {
		bits = p.k.e.bitsOf(a.n, width)
	}
	return bits, signed
}

func (p *printer) field(t string, f specField, w *wv, all map[string]wfield, depth int) {
	k, e := p.k, p.k.e
	how, arg, _ := strings.Cut(printAs[t+"."+f.Name], " ")
	switch how {
	case "fixed":
		fr, pr, _ := strings.Cut(arg, "/")
		n, _ := strconv.Atoi(fr)
		prec, _ := strconv.Atoi(pr)
		bits, signed := p.bitsOf(w)
		whole := e.b.T
		for _, b := range bits[:n] {
			whole = e.b.And(whole, e.b.Not(b))
		}
		var alts []talt
		for _, a := range k.number("d", bits[n:], signed, e.b.And(p.pc, whole)) {
			alts = append(alts, talt{e.b.And(a.g, whole), a.el})
		}
		full := extend(bits, signed, e.b.F)
		alts = append(alts, talt{e.b.Not(whole), k.decimals(full, constant.BinaryOp(constant.MakeInt64(1), token.QUO, constant.MakeInt64(1<<uint(n))), prec)})
		p.text(alts)
		return
	case "names":
		if n := w.num.single(); n != nil && n.Op == "int" {
			for _, nm := range strings.Fields(arg) {
				if v, name, _ := strings.Cut(nm, "="); v == fmt.Sprint(n.C) {
					p.lit(name)
					return
				}
			}
		} else {
			p.fail = "the value of " + f.Name + " is not enumerated"
		}
	case "text":
		on := true
		if n, v, ok := strings.Cut(arg, "="); ok {
			x := all[n].v.num.single()
			on = x != nil && x.Op == "int" && fmt.Sprint(x.C) == v
		}
		if on {
			p.quoted(p.bytes(w))
			return
		}
	case "counted":
		if n := w.kids[0].num.single(); n == nil || n.Op != "int" {
			p.fail = "the length of " + f.Name + " is not enumerated"
		} else if n.C <= 31 {
			p.quoted(p.bytes(w)[1 : 1+n.C])
			return
		}
	case "uuids":
		p.lit("[")
		for i, x := range w.kids {
			if i > 0 {
				p.lit(", ")
			}
			y := x.fields[0].v
			p.text([]talt{{e.b.T, k.uuid(func(i int) []*B { b, _ := p.bitsOf(y.kids[i]); return b }, p.pc)}})
		}
		p.lit("]")
		return
	case "flags":
		var bits []*B
		for i := 2; i >= 0; i-- {
			b, _ := p.bitsOf(w.kids[i])
			bits = append(bits, b...)
		}
		p.lit("0x")
		if k.noFlags {
			p.lit("000000")
			return
		}
		p.text(k.number("06x", bits, false, p.pc))
		return
	}
	p.value(f, f.Type, w, depth)
}

func (p *printer) value(f specField, typ string, w *wv, depth int) {
	k, e := p.k, p.k.e
	_, str := f.Attr["string"]
	_, iso := f.Attr["iso639-2"]
	_, uuid := f.Attr["uuid"]
	_, hex := f.Attr["hex"]
	_, dec := f.Attr["dec"]
	switch {
	case typ == "FullBox":
		if p.ind != "" {
			p.indent(depth + 1)
		} else if !p.open() {
			p.lit(" ")
		}
		p.lit(fmt.Sprintf("Version=%d", p.g.ver))
		if p.ind != "" {
			p.lit("\n")
			p.indent(depth + 1)
		} else {
			p.lit(" ")
		}
		p.lit("Flags=0x")
		p.text(k.number("06x", w.flags, false, p.pc))
		if p.ind != "" {
			p.lit("\n")
		}
	case strings.HasPrefix(typ, "*"):
		p.value(f, typ[1:], w.kids[0], depth)
	case p.g.l.Types[typ] != nil:
		p.record(typ, w, depth, f.Embed)
	case strings.HasPrefix(typ, "["):
		elem := typ[strings.Index(typ, "]")+1:]
		switch {
		case str:
			p.quoted(p.bytes(w))
		case iso:
			p.lit("\"")
			for _, x := range w.kids {
				b, _ := p.bitsOf(x)
				full := k.e.bitsOf(e.add(e.bvN(b), e.intN(0x60, 8), 8), 8)
				p.text([]talt{{e.b.T, k.mapped(escapeFn, []*V{e.v(e.bvN(full))})}})
			}
			p.lit("\"")
		case uuid:
			p.text([]talt{{e.b.T, k.uuid(func(i int) []*B { b, _ := p.bitsOf(w.kids[i]); return b }, p.pc)}})
		default:
			p.lit("[")
			for i, x := range w.kids {
				if i > 0 {
					p.lit(", ")
				}
				p.value(f, elem, x, depth+1)
			}
			p.lit("]")
		}
	case typ == "string":
		p.quoted(w.str)
	case typ == "bool":
		g := e.toB(w.num)
		p.text([]talt{{g, k.lit("true")}, {e.b.Not(g), k.lit("false")}})
	default:
		bits, signed := p.bitsOf(w)
		if len(bits) == 0 {
			p.fail = f.Name + " of type " + typ + " is not described"
			return
		}
		if hex || !dec && (typ == "uint8" || typ == "byte") {
			p.text(k.hex(bits, signed, p.pc))
			return
		}
		p.text(k.number("d", bits, signed, p.pc))
	}
}

// ---------------------------------------------------------------- the comparison

// prints checks that the text of the box is the one expected.
func (k *codec) prints(g *bgen, r specReg, b *wbox, ind string) string {
	e := k.e
	if b.st == nil {
		return "the structure cannot be registered" + k.why()
	}
	k.text = true
	k.panics, k.undec = nil, nil
	st := b.st.clone()
	obj := k.fresh("w:src") + "\x00"
	st.base[obj] = "src"
	b.put(st, e.ptrN(obj, ""))
	if b.prep != nil {
		b.prep(st, e.ptrN(obj, ""))
	}
	p := &printer{k: k, g: g, pc: b.pc, ind: ind, out: []talt{{e.b.T, nil}}}
	p.record(r.Type, b.wv, 0, true)
	if p.fail != "" {
		return "the expected text is not determined: " + p.fail
	}
	src := e.v(e.mk(Node{Op: "iface", T: types.NewPointer(b.named), Elems: []*V{e.v(e.ptrN(obj, ""))}}))
	o := k.call("StringifyWithIndent", st, b.pc, src, e.bstr(k.lit(ind)), b.context(k))
	if o == nil || o.st == nil {
		return "the box is never printed" + k.why()
	}
	if e.b.And(b.pc, e.b.Not(o.st.pc)) != e.b.F {
		return "the box is not printed for some values" + k.why()
	}
	if len(o.vals) != 2 {
		return "the results are not determined" + k.why()
	}
	if k.failing(o, 1) != e.b.F {
		return "printing may return an error" + k.why()
	}
	return k.sameText(o, o.vals[0], p.out)
}

func (k *codec) sameText(o *outcome, got *V, want []talt) string {
	e := k.e
	for _, w := range want {
		wg := e.b.And(w.g, o.st.pc)
		if wg == e.b.F {
			continue
		}
		for _, a := range e.under(got, wg).alts {
			g := e.b.And(a.g, wg)
			if g == e.b.F {
				continue
			}
			bs, ok := e.bytesOf(o.st, a.n)
			if !ok {
				return "the text is not determined" + k.why()
			}
			for i := 0; i < len(bs) || i < len(w.el); i++ {
				if i < len(bs) && i < len(w.el) && k.sameChar(bs[i], w.el[i], g) {
					continue
				}
				at := i - 30
				if at < 0 {
					at = 0
				}
				return fmt.Sprintf("the text %s is printed where %s is expected%s", k.show(bs, at, i+12), k.show(w.el, at, i+12), k.why())
			}
		}
	}
	if len(k.undec) > 0 || len(k.panics) > 0 {
		return "not decided" + k.why()
	}
	return ""
}

func (k *codec) sameChar(a, b *V, g *B) bool {
	e := k.e
	x, y := e.under(a, g), e.under(b, g)
	for _, p := range x.alts {
		for _, q := range y.alts {
			pg := e.b.And(g, e.b.And(p.g, q.g))
			if pg == e.b.F || p.n == q.n {
				continue
			}
			if (p.n.Op == "frag") != (q.n.Op == "frag") {
				x, y := p.n, q.n
				if y.Op == "frag" {
					x, y = y, x
				}
				if x.Name != "rune" || y.Op != "int" || y.C >= 0x80 || !k.sameNum(x.Elems[0], e.v(e.intN(y.C, 32)), 32, pg) {
					return false
				}
				continue
			}
			if p.n.Op == "frag" {
				if p.n.Name != q.n.Name || len(p.n.Elems) != len(q.n.Elems) {
					return false
				}
				w := 64
				if strings.HasPrefix(p.n.Name, "map:") {
					w = 8
				}
				for i := range p.n.Elems {
					if !k.sameNum(p.n.Elems[i], q.n.Elems[i], w, pg) {
						return false
					}
				}
				continue
			}
			if !k.sameNum(e.v(p.n), e.v(q.n), 8, pg) {
				return false
			}
		}
	}
	return true
}

func (k *codec) sameNum(a, b *V, w int, g *B) bool {
	e := k.e
	for _, p := range e.under(a, g).alts {
		for _, q := range e.under(b, g).alts {
			pg := e.b.And(g, e.b.And(p.g, q.g))
			if pg == e.b.F || p.n == q.n {
				continue
			}
			if p.n.Op == "bool" || q.n.Op == "bool" || p.n.Op == "frag" || q.n.Op == "frag" {
				if p.n.Op != q.n.Op || p.n.Op == "frag" {
					return false
				}
			}
			x, y := e.bitsOf(p.n, w), e.bitsOf(q.n, w)
			for i := range x {
				if e.b.And(pg, e.b.Not(e.b.Eq(x[i], y[i]))) != e.b.F {
					return false
				}
			}
		}
	}
	return true
}

// show is a part of a text.
func (k *codec) show(bs []*V, from, to int) string {
	s := ""
	for i, b := range bs {
		if i < from || i > to {
			continue
		}
		n := b.single()
		switch {
		case n == nil:
			s += "<?>"
		case n.Op == "int":
			s += string(rune(n.C))
		case n.Op == "frag":
			s += "<" + n.Name[strings.LastIndexAny(n.Name, "./")+1:] + ">"
		default:
			s += "<byte>"
		}
	}
	if to >= len(bs) {
		s += "|"
	}
	return strconv.Quote(s)
}

// escapes: EscapeUnprintables applies EscapeUnprintable to the runes of a text.
func (k *codec) escapes(n int) string {
	e := k.e
	pkg := k.r.Prog.ImportedPackage("github.com/abema/go-mp4/internal/util")
	if pkg == nil || pkg.Func("EscapeUnprintables") == nil {
		return "EscapeUnprintables is missing"
	}
	k.text, k.escaping = true, true
	st := e.newState()
	st.pc = e.b.T
	// as bytes if it is left to strings.Map, as runes if they are visited one by one
	bs := k.bytes(k.symBits(8*n, k.fresh("text")))
	o := k.run(pkg.Func("EscapeUnprintables"), st, e.b.T, e.bstr(bs))
	first := "EscapeUnprintables does not return" + k.why()
	if o != nil && o.st != nil && e.b.Not(o.st.pc) == e.b.F {
		first = k.sameText(o, o.vals[0], []talt{{e.b.T, k.mapped(escapeFn, bs)}})
	}
	if first == "" {
		return ""
	}
	k.undec, k.panics = nil, nil
	var runes, gs []*V
	want := []talt{{e.b.T, nil}}
	for i := 0; i < n; i++ {
		r := e.v(e.bvN(k.symBits(32, k.fresh("rune"))))
		g := e.b.BitVar(k.fresh("graphic"), 0, 1)
		runes = append(runes, k.frag("rune", r)...)
		gs = append(gs, e.boolV(g))
		want = k.join(want, []talt{{g, k.frag("rune", r)}, {e.b.Not(g), k.lit(".")}}, e.b.T)
	}
	k.graphic = func(v *V) (*B, bool) {
		for i, r := range runes {
			if k.sameNum(v, r.single().Elems[0], 32, e.b.T) {
				return e.toB(gs[i]), true
			}
		}
		return nil, false
	}
	defer func() { k.graphic = nil }()
	o = k.run(pkg.Func("EscapeUnprintables"), st, e.b.T, e.bstr(runes))
	if o == nil || o.st == nil || e.b.Not(o.st.pc) != e.b.F {
		return first
	}
	return k.sameText(o, o.vals[0], want)
}

// escapesRune: EscapeUnprintable replaces what is not graphic by a dot.
func (k *codec) escapesRune() string {
	pkg := k.r.Prog.ImportedPackage("github.com/abema/go-mp4/internal/util")
	if pkg == nil || pkg.Func("EscapeUnprintable") == nil {
		return "EscapeUnprintable is missing"
	}
	k.text = true
	if !k.keepsGraphic(k.e.mk(Node{Op: "func", Name: pkg.Func("EscapeUnprintable").String(), Fn: pkg.Func("EscapeUnprintable")})) {
		return "EscapeUnprintable does not keep graphic runes and replace the others by a dot" + k.why()
	}
	return ""
}

// keepsGraphic: the function keeps graphic runes and replaces the others by a dot.
func (k *codec) keepsGraphic(f *Node) bool {
	e := k.e
	st := e.newState()
	st.pc = e.b.T
	r := e.v(e.bvN(k.symBits(32, k.fresh("rune"))))
	graphic := e.b.BitVar(k.fresh("graphic"), 0, 1)
	was := k.graphic
	k.graphic = func(v *V) (*B, bool) { return graphic, k.sameNum(v, r, 32, e.b.T) }
	defer func() { k.graphic = was }()
	v, end := e.joinRets(e.Run(f.Fn, st, []*V{r}, f.Elems, nil, k.fresh("rune")+"/"))
	if v == nil || end == nil || e.b.Not(end.pc) != e.b.F || len(k.undec) > 0 || len(k.panics) > 0 {
		return false
	}
	want := e.norm([]alt{{graphic, r.single()}, {e.b.Not(graphic), e.intN('.', 32)}}, e.b.T)
	return k.eqV(end, v, want, 32) == e.b.T
}

// wideV is an unknown integer.
func (k *codec) wideV(w int) *V { return k.e.v(k.e.bvN(k.wideBits(w, k.fresh("n")))) }
