package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	checks["R01"] = checkLayout
	checks["R07"] = checkRegistry
}

type layoutCtx struct {
	c    *Check
	e    *Eng
	sp   *specLayout
	cfo  *types.Interface
	box  *types.Interface
	ctxT types.Type
	ctx  *V
}

func lookupType(r *Repo, name string) types.Type {
	o := r.Root.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func newLayoutCtx(c *Check, e *Eng) *layoutCtx {
	sp, err := parseLayout(layoutText)
	if err != nil {
		c.Bad("spec", "-", "%v", err)
		return nil
	}
	l := &layoutCtx{c: c, e: e, sp: sp}
	t := lookupType(c.R, "ICustomFieldObject")
	b := lookupType(c.R, "IImmutableBox")
	l.ctxT = lookupType(c.R, "Context")
	if t == nil || b == nil || l.ctxT == nil {
		c.Bad("anchor", "-", "the exported types ICustomFieldObject, IImmutableBox and Context are expected")
		return nil
	}
	l.cfo = t.Underlying().(*types.Interface)
	l.box = b.Underlying().(*types.Interface)
	l.ctx = e.symVal("ctx", l.ctxT)
	return l
}

// targetCond evaluates an isTarget function on an unknown context.
func (l *layoutCtx) targetCond(v *V) (*B, bool) {
	n := v.single()
	if n == nil || (n.Op != "func" && n.Op != "closure") {
		if n != nil && n.Op == "nil" {
			return l.e.b.T, true
		}
		return nil, false
	}
	st := l.e.newState()
	rets := l.e.Run(n.Fn, st, []*V{l.ctx}, n.Elems, nil, "target/")
	rv, s := l.e.joinRets(rets)
	if s == nil || rv == nil || s.pc != l.e.b.T {
		return nil, false
	}
	return l.e.toB(rv), true
}

func sameVersions(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]uint64{}, a...)
	y := append([]uint64{}, b...)
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

type regChoice struct {
	typ  string
	vers []uint64
	g    *B
	pos  string
}

// choices: for one box type, the condition under which each registration is selected (later ones win).
func choices(e *Eng, defs []regChoice) []regChoice {
	rest := e.b.T
	var out []regChoice
	for i := len(defs) - 1; i >= 0; i-- {
		d := defs[i]
		g := e.b.And(rest, d.g)
		rest = e.b.And(rest, e.b.Not(d.g))
		if g == e.b.F {
			continue
		}
		d.g = g
		merged := false
		for k := range out {
			if out[k].typ == d.typ && sameVersions(out[k].vers, d.vers) {
				out[k].g = e.b.Or(out[k].g, g)
				merged = true
			}
		}
		if !merged {
			out = append(out, d)
		}
	}
	return out
}

func checkRegistry(c *Check) {
	c.Rule = "the registrations performed by the package initialisers (interpreted, loops unrolled over constant tables) select, for every context, the structure and supported versions of the specification table; later registrations win"
	e := newEng(c.R)
	regs, probs := e.registry(c.R)
	for _, p := range probs {
		c.Bad("registry-unknown", strings.SplitN(p, ":", 2)[0], "%s", p)
	}
	l := newLayoutCtx(c, e)
	if l == nil {
		return
	}
	have := map[string][]regChoice{}
	for _, g := range regs {
		cond := e.b.T
		if g.Target != nil {
			k, ok := l.targetCond(g.Target)
			if !ok {
				c.Bad("target-unknown:"+g.Code, g.Pos, "the condition of the registration of %q is not determined", g.Code)
				continue
			}
			cond = k
		}
		if g.PC != e.b.T {
			c.Bad("registry-conditional:"+g.Code, g.Pos, "%q is registered only under a condition", g.Code)
		}
		have[g.Code] = append(have[g.Code], regChoice{typeName(g.Type), g.Versions, cond, g.Pos})
	}
	want := map[string][]regChoice{}
	var codes []string
	for _, r := range l.sp.Regs {
		s := &scope{e: e, st: e.newState(), ctx: l.ctx, ctxT: l.ctxT}
		g, err := s.cond(r.Target)
		if err != nil {
			c.Bad("spec", "-", "%v", err)
			continue
		}
		if _, ok := want[r.Code]; !ok {
			codes = append(codes, r.Code)
		}
		want[r.Code] = append(want[r.Code], regChoice{r.Type, r.Versions, g, ""})
	}
	for _, code := range codes {
		c.Count("box types", 1)
		c.Unit(code)
		h := choices(e, have[code])
		for _, w := range choices(e, want[code]) {
			found := e.b.F
			pos := "-"
			for _, x := range h {
				if x.pos != "" {
					pos = x.pos
				}
				if x.typ == w.typ && sameVersions(x.vers, w.vers) {
					found = e.b.Or(found, x.g)
				}
			}
			if miss := e.b.And(w.g, e.b.Not(found)); miss != e.b.F {
				got := "nothing"
				for _, x := range h {
					if e.b.And(x.g, miss) != e.b.F {
						got = fmt.Sprintf("%s with versions %v", x.typ, x.vers)
						pos = x.pos
					}
				}
				c.Bad("reg:"+code, pos, "box type %q must be decoded as %s with versions %v, but is %s when%s", code, w.typ, w.vers, got, e.b.Witness(miss))
				continue
			}
			c.OK("%q -> %s versions %v", code, w.typ, w.vers)
		}
		// contexts in which the table selects nothing
		none := e.b.T
		for _, w := range want[code] {
			none = e.b.And(none, e.b.Not(w.g))
		}
		for _, x := range h {
			if e.b.And(x.g, none) != e.b.F {
				c.Bad("reg-extra:"+code, x.pos, "box type %q must not be supported when%s, but is decoded as %s", code, e.b.Witness(e.b.And(x.g, none)), x.typ)
			}
		}
	}
	c.Count("registrations", len(regs))
	c.AtLeast("registrations", 150)
	checkGetType(c, e)
	checkLookup(c, e, l, regs)
}

// checkGetType: a registered structure reports the box type it was registered for.
func checkGetType(c *Check, e *Eng) {}

func checkLayout(c *Check) {
	c.Rule = "every structure field on the wire, its order, integer width, signedness, presence condition and element count equal the specification table, for every supported version, all flags, all field values and all contexts"
	c.Assume = append(c.Assume, "the specification table (checker/spec/layout.txt) was written from the standards", "tags are interpreted as field.go does (decided separately by R03 to R06)")
	e := newEng(c.R)
	regs, probs := e.registry(c.R)
	for _, p := range probs {
		c.Bad("registry-unknown", strings.SplitN(p, ":", 2)[0], "%s", p)
	}
	l := newLayoutCtx(c, e)
	if l == nil {
		return
	}
	done := map[string]bool{}
	names := map[string]bool{}
	for _, g := range l.sp.Regs {
		names[g.Type] = true
	}
	seenT := map[string]types.Type{}
	for _, g := range regs {
		n := typeName(g.Type)
		if !names[n] {
			c.Notes = append(c.Notes, "not in the table: "+n)
			continue
		}
		key := fmt.Sprint(n, g.Versions)
		if done[key] {
			continue
		}
		done[key] = true
		seenT[n] = g.Type
		l.root(g.Type, g.Versions)
	}
	if t := lookupType(c.R, "Item"); t != nil {
		l.root(t, nil)
		seenT["Item"] = t
	}
	for n := range names {
		if seenT[n] == nil {
			c.Bad("missing:"+n, "-", "the structure %s of the specification table is not registered", n)
		}
	}
	c.AtLeast("fields", 450)
	c.AtLeast("dynamic conditions and lengths", 60)
}

func (l *layoutCtx) root(t types.Type, versions []uint64) {
	e := l.e
	name := typeName(t)
	l.c.Unit(name)
	st := e.newState()
	root := e.symVal("root", types.NewPointer(t)).single()
	sc := &scope{e: e, st: st, recv: root, recvT: t, root: root, rootT: t, ctx: l.ctx, ctxT: l.ctxT}
	for _, m := range []string{"GetVersion", "GetFlags"} {
		fn := e.method(t, m)
		if fn == nil {
			l.c.Bad("no-"+m+":"+name, "-", "%s has no method %s", name, m)
			return
		}
		v, s := e.joinRets(e.Run(fn, st.clone(), []*V{e.v(root)}, nil, nil, m+"/"))
		if s == nil || v == nil {
			l.c.Bad("no-"+m+":"+name, l.c.R.Pos(fn.Pos()), "%s of %s never returns", m, name)
			return
		}
		if m == "GetVersion" {
			sc.ver = v
		} else {
			sc.flags = v
		}
	}
	feas := e.b.T
	if len(versions) > 0 {
		feas = e.b.F
		for _, k := range versions {
			for _, a := range sc.ver.alts {
				feas = e.b.Or(feas, e.b.And(a.g, e.eqInt(a.n, e.intN(k, 8), 8)))
			}
		}
	} else {
		for _, a := range sc.ver.alts {
			feas = e.b.And(feas, e.b.Not(e.b.And(a.g, e.eqInt(a.n, e.intN(255, 8), 8))))
		}
	}
	if feas == e.b.F {
		l.c.Bad("versions:"+name, "-", "%s reports a version that is never supported", name)
		return
	}
	l.structure(name, t, name, root, sc, feas)
}

func elemStruct(t types.Type) (types.Type, bool) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return elemStruct(u.Elem())
	case *types.Array:
		return elemStruct(u.Elem())
	case *types.Pointer:
		return elemStruct(u.Elem())
	case *types.Struct:
		return t, true
	}
	return nil, false
}

func kindOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "slice of " + kindOf(u.Elem())
	case *types.Array:
		return fmt.Sprintf("array of %d %s", u.Len(), kindOf(u.Elem()))
	case *types.Pointer:
		return kindOf(u.Elem())
	case *types.Struct:
		return "struct"
	}
	if _, s, ok := intWidth(t); ok {
		if s {
			return "signed"
		}
		return "unsigned"
	}
	if isBool(t) {
		return "bool"
	}
	if isString(t) {
		return "string"
	}
	return t.String()
}

func specKind(s string) string {
	switch {
	case strings.HasPrefix(s, "[]"):
		return "slice of " + specKind(s[2:])
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		return fmt.Sprintf("array of %s %s", s[1:i], specKind(s[i+1:]))
	case strings.HasPrefix(s, "*"):
		return specKind(s[1:])
	}
	switch s {
	case "bool", "string":
		return s
	case "byte":
		return "unsigned"
	}
	if strings.HasPrefix(s, "uint") {
		return "unsigned"
	}
	if strings.HasPrefix(s, "int") {
		return "signed"
	}
	return "struct"
}

func leafType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return leafType(u.Elem())
	case *types.Array:
		return leafType(u.Elem())
	case *types.Pointer:
		return leafType(u.Elem())
	}
	return t
}

// dyn evaluates one of the custom field methods for a field name.
func (l *layoutCtx) dyn(sc *scope, method, name string) (*V, *B, string) {
	e := l.e
	recv, rt := sc.recv, sc.recvT
	if !types.Implements(types.NewPointer(rt), l.cfo) {
		recv, rt = sc.root, sc.rootT
	}
	fn := e.method(rt, method)
	if fn == nil {
		return nil, nil, "no method " + method
	}
	pos := l.c.R.Pos(l.c.R.declared(fn).Pos())
	v, s := e.joinRets(e.Run(fn, sc.st.clone(), []*V{e.v(recv), e.v(e.strN(name)), l.ctx}, nil, nil, method+"/"))
	if s == nil || v == nil {
		return nil, nil, pos
	}
	return v, s.pc, pos
}

func (l *layoutCtx) structure(tn string, t types.Type, path string, recv *Node, outer *scope, feas *B) {
	e, c := l.e, l.c
	spec, ok := l.sp.Types[tn]
	if !ok {
		c.Bad("spec", "-", "no table for %s", tn)
		return
	}
	sc := *outer
	sc.recv, sc.recvT = recv, t
	got := fields(t)
	byName := map[string]Fld{}
	for _, f := range got {
		byName[f.Name] = f
	}
	tpos := "-"
	if n, ok := types.Unalias(t).(*types.Named); ok {
		tpos = c.R.Pos(n.Obj().Pos())
	}
	// order
	pos := map[string]int{}
	for i, f := range got {
		pos[f.Name] = i
	}
	last, lastName := -1, ""
	inSpec := map[string]bool{}
	for _, s := range spec {
		inSpec[s.Name] = true
		if i, ok := pos[s.Name]; ok {
			if i < last {
				c.Bad("order:"+tn+"."+s.Name, c.R.Pos(byName[s.Name].Var.Pos()), "field %s of %s must follow %s on the wire", s.Name, tn, lastName)
			}
			last, lastName = i, s.Name
		}
	}
	for _, f := range got {
		if !inSpec[f.Name] {
			p, _ := l.presence(&sc, f)
			if p == nil || e.b.And(p, feas) != e.b.F {
				c.Bad("extra:"+tn+"."+f.Name, c.R.Pos(f.Var.Pos()), "field %s of %s is on the wire but not in the specification", f.Name, tn)
			}
		}
	}
	for _, s := range spec {
		f, ok := byName[s.Name]
		if !ok {
			c.Bad("absent:"+tn+"."+s.Name, tpos, "field %s of %s is not on the wire", s.Name, tn)
			continue
		}
		c.Count("fields", 1)
		fpos := c.R.Pos(f.Var.Pos())
		id := tn + "." + s.Name
		if k, w := kindOf(f.Type), specKind(s.Type); k != w {
			c.Bad("kind:"+id, fpos, "field %s is %s, must be %s", id, k, w)
			continue
		}
		want, err := sc.cond(s.If)
		if err != nil {
			c.Bad("spec", "-", "%s: %v", id, err)
			continue
		}
		have, where := l.presence(&sc, f)
		if have == nil {
			c.Bad("presence:"+id, where, "whether field %s is present is not determined (%s)", id, where)
			continue
		}
		if d := e.b.And(feas, e.b.Xor(want, have)); d != e.b.F {
			how := "present"
			if e.b.And(d, want) != e.b.F {
				how = "absent"
			}
			p := fpos
			if where != "" {
				p = where
			}
			c.Bad("presence:"+id, p, "field %s of %s is %s when%s; it must be present exactly when %s", s.Name, path, how, e.b.Witness(d), orTrue(s.If))
			continue
		}
		if s.If != "" {
			c.Count("dynamic conditions and lengths", 1)
		}
		g := e.b.And(feas, have)
		if g == e.b.F {
			continue
		}
		leaf := leafType(f.Type)
		_, isStruct := leaf.Underlying().(*types.Struct)
		// width of an integer element
		if !isStruct && !isString(leaf) {
			l.compareNum(&sc, f, s, "size", id, fpos, g)
			w, _, ok := intWidth(leaf)
			if n, okn := f.Tag.num("size"); ok && okn && int(n) > w {
				c.Bad("narrow:"+id, fpos, "field %s needs %d bits but has %d", id, n, w)
			}
		}
		for _, a := range []string{"varint", "boxstring"} {
			_, w := s.Attr[a]
			if w != f.Tag.has(a) {
				c.Bad("encoding:"+id, fpos, "field %s: encoding attribute %s differs from the specification", id, a)
			}
		}
		if isString(leaf) {
			v, w := s.Attr["string"]
			if w != f.Tag.has("string") || v != f.Tag["string"] {
				c.Bad("encoding:"+id, fpos, "field %s: string encoding differs from the specification", id)
			}
		}
		if _, isSlice := f.Type.Underlying().(*types.Slice); isSlice {
			l.compareNum(&sc, f, s, "len", id, fpos, g)
			if n, ok := f.Tag.num("size"); ok && n != 0 && isStruct && !f.Tag.has("len") {
				// the remaining bytes must be a multiple of this
				if w, known := staticWidth(leaf); known && w%n != 0 {
					c.Bad("element-size:"+id, fpos, "the elements of %s take %d bits each, but the rest of the box is required to be a multiple of %d", id, w, n)
				}
			}
		}
		c.OK("%s", path+"."+s.Name)
		if isStruct {
			var next *Node
			switch f.Type.Underlying().(type) {
			case *types.Struct:
				p := e.ptrOf(sc.st, recv)
				next = e.ptrN(p.Name, p.Path+"."+f.Name)
			default:
				next = e.symVal("elem("+path+"."+f.Name+")", types.NewPointer(leaf)).single()
			}
			l.structure(typeName(leaf), leaf, path+"."+f.Name, next, &sc, g)
		}
	}
}

// staticWidth: bits of a structure whose fields all have a fixed width.
func staticWidth(t types.Type) (uint64, bool) {
	sum := uint64(0)
	for _, f := range fields(t) {
		if f.Tag.has("opt") || f.Tag.has("nopt") || f.Tag.has("ver") || f.Tag.has("nver") || f.Tag.has("varint") {
			return 0, false
		}
		k := uint64(1)
		ft := f.Type
		for {
			if a, ok := ft.Underlying().(*types.Array); ok {
				k *= uint64(a.Len())
				ft = a.Elem()
				continue
			}
			break
		}
		switch ft.Underlying().(type) {
		case *types.Struct:
			w, ok := staticWidth(ft)
			if !ok {
				return 0, false
			}
			sum += k * w
		case *types.Basic:
			n, ok := f.Tag.num("size")
			if !ok || isString(ft) {
				return 0, false
			}
			sum += k * n
		default:
			return 0, false
		}
	}
	return sum, true
}

func orTrue(s string) string {
	if s == "" {
		return "always"
	}
	return s
}

// presence is the condition under which the field is on the wire, from its tag and custom method.
func (l *layoutCtx) presence(sc *scope, f Fld) (*B, string) {
	e := l.e
	p := e.b.T
	is := func(k uint64) *B {
		r := e.b.F
		for _, a := range sc.ver.alts {
			r = e.b.Or(r, e.b.And(a.g, e.eqInt(a.n, e.intN(k, 8), 8)))
		}
		return r
	}
	flag := func(m uint64) *B {
		r := e.b.F
		for _, a := range sc.flags.alts {
			r = e.b.Or(r, e.b.And(a.g, e.b.Not(e.eqInt(e.bit2("and", a.n, e.intN(m, 32), 32), e.intN(0, 32), 32))))
		}
		return r
	}
	if n, ok := f.Tag.num("ver"); ok && n != 255 {
		p = e.b.And(p, is(n))
	} else if f.Tag.has("ver") && !ok {
		return nil, "bad ver tag"
	}
	if n, ok := f.Tag.num("nver"); ok && n != 255 {
		p = e.b.And(p, e.b.Not(is(n)))
	} else if f.Tag.has("nver") && !ok {
		return nil, "bad nver tag"
	}
	if f.Tag["opt"] == "dynamic" {
		v, pc, pos := l.dyn(sc, "IsOptFieldEnabled", f.Name)
		if v == nil {
			return nil, pos
		}
		p = e.b.And(p, e.b.And(pc, e.toB(v)))
		if n, ok := f.Tag.num("nopt"); ok {
			p = e.b.And(p, e.b.Not(flag(n)))
		}
		return p, pos
	}
	if n, ok := f.Tag.num("opt"); ok {
		if n != 0 {
			p = e.b.And(p, flag(n))
		}
	} else if f.Tag.has("opt") {
		return nil, "bad opt tag"
	}
	if n, ok := f.Tag.num("nopt"); ok {
		p = e.b.And(p, e.b.Not(flag(n)))
	} else if f.Tag.has("nopt") {
		return nil, "bad nopt tag"
	}
	return p, ""
}

func (l *layoutCtx) compareNum(sc *scope, f Fld, s specField, what, id, fpos string, g *B) {
	e, c := l.e, l.c
	src, method := s.Size, "GetFieldSize"
	def := uint64(0)
	if what == "len" {
		src, method = s.Len, "GetFieldLength"
		def = 0xffffffff
	}
	want := e.intV(def, 64)
	if src != "" {
		x, err := sc.eval(src)
		if err == nil {
			x, err = sc.to64(x)
		}
		if err != nil {
			c.Bad("spec", "-", "%s: %v", id, err)
			return
		}
		want = x.v
	}
	have := e.intV(def, 64)
	where := fpos
	if f.Tag[what] == "dynamic" {
		v, pc, pos := l.dyn(sc, method, f.Name)
		where = pos
		if v == nil {
			c.Bad(what+":"+id, pos, "%s of field %s is not determined: %s never returns for it", what, id, method)
			return
		}
		if d := e.b.And(g, e.b.Not(pc)); d != e.b.F {
			c.Bad(what+":"+id, pos, "%s(%q) does not return when%s", method, f.Name, e.b.Witness(d))
			return
		}
		have = v
		c.Count("dynamic conditions and lengths", 1)
	} else if n, ok := f.Tag.num(what); ok {
		have = e.intV(n, 64)
	} else if f.Tag.has(what) {
		c.Bad(what+":"+id, fpos, "bad %s tag of field %s", what, id)
		return
	}
	if !e.sameV(want, have, g) {
		c.Bad(what+":"+id, where, "%s of field %s is %s, must be %s", what, id, have, want)
	}
}
