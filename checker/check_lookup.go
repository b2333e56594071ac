package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The registry functions themselves: registration stores what it was given, lookup selects the last
// registration whose condition accepts the context, and the queries agree with the selection.

type defShape struct {
	st                     *types.Struct
	dataType, vers, target int
}

// defOf recognises the registry map: BoxType -> slice of a struct describing a registration.
func defOf(r *Repo, m types.Type) *defShape {
	mt, ok := m.Underlying().(*types.Map)
	if !ok || !types.Identical(mt.Key(), lookupType(r, "BoxType")) {
		return nil
	}
	sl, ok := mt.Elem().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	st, ok := deref(sl.Elem()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	d := &defShape{st, -1, -1, -1}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		switch {
		case types.TypeString(t, nil) == "reflect.Type":
			d.dataType = i
		case types.TypeString(t.Underlying(), nil) == "[]uint8" || types.TypeString(t.Underlying(), nil) == "[]byte":
			d.vers = i
		default:
			if sg, ok := t.Underlying().(*types.Signature); ok && sg.Results().Len() == 1 && isBool(sg.Results().At(0).Type()) {
				d.target = i
			}
		}
	}
	if d.dataType < 0 || d.vers < 0 || d.target < 0 {
		return nil
	}
	return d
}

func methodOf(r *Repo, typ, name string) *ssa.Function {
	t := lookupType(r, typ)
	if t == nil {
		return nil
	}
	ms := r.Prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(r.Root.Pkg, name); sel != nil {
		return r.Prog.MethodValue(sel)
	}
	return nil
}

func checkLookup(c *Check, e *Eng, l *layoutCtx, regs []RegEntry) {
	r := c.R
	b := e.b
	btT := lookupType(r, "BoxType")
	if btT == nil {
		c.Bad("anchor", "-", "the exported type BoxType is expected")
		return
	}
	bt := e.symVal("boxType", btT)
	save := e.OnCall
	defer func() { e.OnCall = save }()
	var shape *defShape
	// number of registrations per type in this lookup
	nd := 0
	names := func(i int) string { return fmt.Sprintf("def%d", i) }
	nvers := 0
	mapSeen := false
	hook := func(cc *CallCtx) (*V, bool) {
		if cc.Name == "lookup" {
			x := cc.in.(*ssa.Lookup)
			d := defOf(r, x.X.Type())
			if d == nil {
				return nil, false
			}
			shape = d
			mapSeen = true
			if !e.sameV(cc.Args[1], bt, cc.st.pc) {
				c.Bad("lookup-key", r.Pos(x.Pos()), "the registry is consulted for %s instead of the box type asked for", cc.Args[1])
			}
			obj := "defs\x00"
			for i := 0; i < nd; i++ {
				cc.st.base[fmt.Sprintf("%s[%d]*", obj, i)] = names(i)
				vo := fmt.Sprintf("vers%d\x00", i)
				cc.st.base[vo] = fmt.Sprintf("vers%d", i)
				vs := e.mk(Node{Op: "slice", Args: []*Node{e.ptrN(vo, "")}, Elems: []*V{e.intV(uint64(nvers), 64)}, T: d.st.Field(d.vers).Type()})
				e.store(cc.st, e.ptrN(obj, fmt.Sprintf("[%d].%s", i, d.st.Field(d.vers).Name())), d.st.Field(d.vers).Type(), e.v(vs), b.T)
			}
			var v *V
			if nd == 0 {
				v = e.v(e.nilN(nil))
			} else {
				v = e.v(e.mk(Node{Op: "slice", Args: []*Node{e.ptrN(obj, "")}, Elems: []*V{e.intV(uint64(nd), 64)}, T: x.Type()}))
			}
			if x.CommaOk {
				v = e.v(e.mk(Node{Op: "tuple", Elems: []*V{v, e.boolV(b.Bool(nd > 0))}}))
			}
			return v, true
		}
		if strings.HasPrefix(cc.Name, "dyn:def") {
			if len(cc.Args) != 1 || !e.sameV(cc.Args[0], l.ctx, cc.st.pc) {
				c.Bad("lookup-ctx", r.Pos(cc.in.Pos()), "the condition of a registration is evaluated on another context")
			}
			return e.boolV(b.Var(cc.Name)), true
		}
		return nil, false
	}
	e.OnCall = func(cc *CallCtx) (*V, bool) {
		v, ok := hook(cc)
		if !ok && strings.HasPrefix(cc.Name, "dyn:") {
			return nil, false
		}
		return v, ok
	}
	run := func(fn *ssa.Function, args ...*V) (*V, *State) {
		st := e.newState()
		e.Events = nil
		return e.joinRets(e.Run(fn, st, args, nil, nil, "q/"))
	}
	fns := map[string]*ssa.Function{}
	for _, m := range []string{"IsSupported", "IsSupportedVersion", "New", "GetSupportedVersions"} {
		fns[m] = methodOf(r, "BoxType", m)
		if fns[m] == nil {
			c.Bad("anchor:"+m, "-", "the exported method BoxType.%s is expected", m)
			return
		}
	}
	// numbered items under ilst
	id := func() *V {
		n := bt.single()
		v := e.intV(0, 32)
		for i := 0; i < 4; i++ {
			i := i
			v = e.map2(v, n.Elems[i], b.T, func(p, q *Node) *V {
				return e.v(e.bit2("or", p, e.shift("shl", q, e.intN(uint64(24-8*i), 32), 32), 32))
			})
		}
		return v
	}()
	sc := &scope{e: e, st: e.newState(), ctx: l.ctx, ctxT: l.ctxT}
	item, err := func() (*B, error) {
		u, err := sc.cond("ctx.UnderIlst")
		if err != nil {
			return nil, err
		}
		n, err := sc.eval("ctx.QuickTimeKeysMetaEntryCount")
		if err != nil {
			return nil, err
		}
		idn, cn := id.single(), n.v.single()
		return b.And(u, b.And(b.Not(e.ltInt(idn, e.intN(1, 64), 64, true)), b.Not(e.ltInt(cn, idn, 64, true)))), nil
	}()
	if err != nil {
		c.Bad("spec", "-", "%v", err)
		return
	}
	maxDefs := 0
	cnt := map[string]int{}
	for _, g := range regs {
		cnt[g.Code]++
		if cnt[g.Code] > maxDefs {
			maxDefs = cnt[g.Code]
		}
	}
	if maxDefs > 4 {
		maxDefs = 4
	}
	ver := e.symVal("ver", types.Typ[types.Uint8])
	for nd = 0; nd <= maxDefs; nd++ {
		for nvers = 0; nvers <= 2; nvers++ {
			mapSeen = false
			v, s := run(fns["IsSupported"], bt, l.ctx)
			if !mapSeen || shape == nil {
				c.Notes = append(c.Notes, "the registry map was not recognised; lookup is not decided")
				return
			}
			if s == nil || v == nil {
				c.Bad("lookup:IsSupported", r.Pos(fns["IsSupported"].Pos()), "IsSupported never returns")
				return
			}
			// which registration must be selected
			sel := make([]*B, nd)
			rest := b.T
			for i := nd - 1; i >= 0; i-- {
				tn := e.symVal(names(i)+"."+shape.st.Field(shape.target).Name(), shape.st.Field(shape.target).Type()).single()
				isNil := e.cmp(e.newState(), 39, tn, e.nilN(nil), tn.T, 0, false, false) // token.EQL
				ok := b.Or(isNil, b.Var("dyn:"+tn.String()))
				sel[i] = b.And(rest, ok)
				rest = b.And(rest, b.Not(ok))
			}
			num := b.And(rest, item)
			any := b.Or(b.Not(rest), num)
			if d := b.Xor(e.toB(v), any); d != b.F {
				c.Bad("lookup:IsSupported", r.Pos(fns["IsSupported"].Pos()), "IsSupported does not report whether some registration accepts the context, e.g. when%s", b.Witness(d))
			} else {
				c.OK("IsSupported with %d registrations", nd)
			}
			// IsSupportedVersion
			v, s = run(fns["IsSupportedVersion"], bt, ver, l.ctx)
			want := num
			for i := 0; i < nd; i++ {
				ok := b.Bool(nvers == 0)
				for k := 0; k < nvers; k++ {
					ok = b.Or(ok, e.eqInt(ver.single(), e.symVal(fmt.Sprintf("vers%d[%d]", i, k), types.Typ[types.Uint8]).single(), 8))
				}
				want = b.Or(want, b.And(sel[i], ok))
			}
			if v == nil || s == nil {
				c.Bad("lookup:IsSupportedVersion", r.Pos(fns["IsSupportedVersion"].Pos()), "IsSupportedVersion never returns")
			} else if d := b.Xor(e.toB(v), want); d != b.F {
				c.Bad("lookup:IsSupportedVersion", r.Pos(fns["IsSupportedVersion"].Pos()), "IsSupportedVersion does not report whether the version is one of those of the last accepting registration (none listed: every version), e.g. when%s", b.Witness(d))
			} else {
				c.OK("IsSupportedVersion with %d registrations of %d versions", nd, nvers)
			}
			// New
			v, s = run(fns["New"], bt, l.ctx)
			if v == nil || s == nil || v.single() == nil || v.single().Op != "tuple" {
				c.Notes = append(c.Notes, "the result of New is not determined")
				continue
			}
			box := v.single().Elems[0]
			for _, a := range box.alts {
				txt := a.n.String()
				for i := 0; i < nd; i++ {
					has := strings.Contains(txt, names(i)+"."+shape.st.Field(shape.dataType).Name())
					g := b.And(s.pc, a.g)
					if has && b.And(g, b.Not(sel[i])) != b.F {
						c.Bad("lookup:New", r.Pos(fns["New"].Pos()), "New makes a structure of registration %d although another one applies, e.g. when%s", i, b.Witness(b.And(g, b.Not(sel[i]))))
					} else if has {
						c.OK("New with %d registrations", nd)
					}
				}
				if a.n.Op == "nil" {
					if d := b.And(b.And(s.pc, a.g), any); d != b.F {
						// only for a structure that does not implement the interface
						if !strings.Contains(b.Witness(d), "ok:") {
							c.Bad("lookup:New", r.Pos(fns["New"].Pos()), "New makes nothing for a supported type, e.g. when%s", b.Witness(d))
						}
					}
				}
			}
			for _, ev := range e.Events {
				if strings.HasSuffix(ev.Name, ".SetType") && len(ev.Args) == 2 {
					if !e.sameV(ev.Args[1], bt, ev.PC) {
						c.Bad("lookup:SetType", r.Pos(ev.Pos), "New sets another type than the one asked for")
					} else {
						c.Count("type set by New", 1)
					}
				}
			}
		}
	}
	c.AtLeast("type set by New", 1)
	checkRegister(c, e, l)
	checkIlstMeta(c, e, l)
}

// checkRegister: the exported registration functions store what they were given under the right type.
func checkRegister(c *Check, e *Eng, l *layoutCtx) {
	r, b := c.R, e.b
	e.OnCall = nil
	for _, name := range []string{"AddBoxDef", "AddBoxDefEx", "AddAnyTypeBoxDef", "AddAnyTypeBoxDefEx"} {
		fn := r.Root.Func(name)
		if fn == nil {
			c.Bad("anchor:"+name, "-", "the exported function %s is expected", name)
			continue
		}
		args := e.symArgs(fn)
		getType := ""
		e.OnCall = func(cc *CallCtx) (*V, bool) {
			if cc.Fn == nil && strings.HasSuffix(cc.Name, ".GetType") {
				getType = cc.Name
				return e.symVal("payload.GetType", lookupType(r, "BoxType")), true
			}
			if cc.Fn != nil && len(cc.Fn.Blocks) > 0 && len(e.loops(cc.Fn).heads) > 0 {
				return e.symVal("noloop:"+cc.Name, cc.Fn.Signature.Results()), true
			}
			if cc.Fn != nil && strings.Contains(cc.Fn.Name(), "buildField") && cc.Fn.Signature.Results().Len() == 1 {
				return e.symVal("fields", cc.Fn.Signature.Results().At(0).Type()), true
			}
			return nil, false
		}
		e.Events = nil
		st := e.newState()
		_, s := e.joinRets(e.Run(fn, st, args, nil, nil, name+"/"))
		if s == nil {
			c.Bad("register:"+name, r.Pos(fn.Pos()), "%s never returns", name)
			continue
		}
		_ = getType
		n := 0
		for _, ev := range e.Events {
			if ev.Name != "mapupdate" {
				continue
			}
			v := ev.Args[2].single()
			if v == nil || v.Op != "append" || len(v.Elems) != 1 {
				c.Notes = append(c.Notes, name+": the stored value is not recognised")
				continue
			}
			d := v.Elems[0].single()
			if d == nil || d.Op != "struct" {
				c.Notes = append(c.Notes, name+": the stored value is not recognised")
				continue
			}
			n++
			pos := r.Pos(ev.Pos)
			wantKey := e.symVal("payload.GetType", lookupType(r, "BoxType"))
			ti := -1
			for i, p := range fn.Params {
				if types.Identical(p.Type(), lookupType(r, "BoxType")) {
					wantKey = args[i]
					ti = i
				}
			}
			_ = ti
			if !e.sameV(ev.Args[1], wantKey, ev.PC) {
				c.Bad("register-key:"+name, pos, "%s stores the registration under %s, must be %s", name, ev.Args[1], wantKey)
			}
			stt := d.T.Underlying().(*types.Struct)
			for k := 0; k < stt.NumFields(); k++ {
				ft := stt.Field(k).Type()
				var want *V
				switch {
				case strings.Contains(types.TypeString(ft.Underlying(), nil), "[]uint8") || strings.Contains(types.TypeString(ft.Underlying(), nil), "[]byte"):
					want = args[len(args)-1]
				default:
					if sg, ok := ft.Underlying().(*types.Signature); ok && sg.Results().Len() == 1 && isBool(sg.Results().At(0).Type()) {
						want = e.v(e.nilN(nil))
						for i, p := range fn.Params {
							if _, ok := p.Type().Underlying().(*types.Signature); ok {
								want = args[i]
							}
						}
					}
				}
				if want != nil && !e.sameV(d.Elems[k], want, ev.PC) {
					c.Bad("register-value:"+name, pos, "%s stores %s as %s, must be %s", name, d.Elems[k], stt.Field(k).Name(), want)
				}
			}
			c.OK("%s stores its arguments", name)
		}
		if n > 1 {
			c.Bad("register-twice:"+name, r.Pos(fn.Pos()), "%s stores %d registrations", name, n)
		} else if n == 0 {
			c.Notes = append(c.Notes, name+": no store recognised")
		}
		_ = b
	}
	e.OnCall = nil
}

// checkIlstMeta: IsIlstMetaBoxType accepts exactly the registered item container types.
func checkIlstMeta(c *Check, e *Eng, l *layoutCtx) {
	fn := c.R.Root.Func("IsIlstMetaBoxType")
	if fn == nil {
		c.Bad("anchor:IsIlstMetaBoxType", "-", "the exported function IsIlstMetaBoxType is expected")
		return
	}
	bt := e.symVal("boxType", lookupType(c.R, "BoxType"))
	v, s := e.joinRets(e.Run(fn, e.newState(), []*V{bt}, nil, nil, "ilst/"))
	if s == nil || v == nil {
		c.Bad("ilst-meta", c.R.Pos(fn.Pos()), "IsIlstMetaBoxType never returns")
		return
	}
	want := e.b.F
	for _, g := range l.sp.Regs {
		if g.Type != "IlstMetaContainer" {
			continue
		}
		k := e.b.T
		for i := 0; i < 4; i++ {
			k = e.b.And(k, e.eqInt(bt.single().Elems[i].single(), e.intN(uint64(g.Code[i]), 8), 8))
		}
		want = e.b.Or(want, k)
	}
	if d := e.b.Xor(want, e.toB(v)); d != e.b.F {
		c.Bad("ilst-meta", c.R.Pos(fn.Pos()), "IsIlstMetaBoxType differs from the table of item types, e.g. for%s", e.b.Witness(d))
		return
	}
	c.OK("IsIlstMetaBoxType")
}
