package main

// Calls: builtins, models of a few standard functions, inlining of the repository's own functions,
// uninterpreted terms for pure functions, and events with havoc for everything else.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) callArgs(st *State, fr *frame, com *ssa.CallCommon) (*V, []*V) {
	var args []*V
	var fv *V
	if com.IsInvoke() {
		args = append(args, e.val(st, fr, com.Value))
	} else {
		fv = e.val(st, fr, com.Value)
	}
	for _, a := range com.Args {
		args = append(args, e.val(st, fr, a))
	}
	return fv, args
}

func (e *Eng) callAny(st *State, fr *frame, in ssa.Instruction, com *ssa.CallCommon, fv *V, args []*V, res *ssa.Call) *State {
	if com.IsInvoke() {
		return e.split(st, args[0], res, func(s *State, n *Node) (*V, *State) {
			as := append([]*V{e.v(n)}, args[1:]...)
			return e.invoke(s, fr, in, com, n, as)
		})
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		v := e.builtin(st, fr, in, b.Name(), com, args)
		if res != nil && v != nil {
			st.env[res] = v
		}
		return st
	}
	if e.SplitOn != nil {
		if v := e.SplitOn(st, com, args); v != nil {
			return e.splitAlts(st, v, res, func(s *State, n *Node) (*V, *State) {
				s = e.callAny(s, fr, in, com, fv, args, res)
				if s == nil || res == nil {
					return nil, s
				}
				return s.env[res], s
			})
		}
	}
	return e.split(st, fv, res, func(s *State, n *Node) (*V, *State) {
		switch n.Op {
		case "func":
			return e.callFn(s, fr, in, n.Fn, args, nil)
		case "closure":
			return e.callFn(s, fr, in, n.Fn, args, n.Elems)
		}
		if e.OnCall != nil {
			if v, ok := e.OnCall(&CallCtx{e, s, fr, in, com, "dyn:" + n.String(), nil, args}); ok {
				return v, s
			}
		}
		return e.opaqueCall(s, fr, in, "dyn:"+n.String(), nil, args, true)
	})
}

// split analyses one call per alternative of the called value and joins the outcomes.
func (e *Eng) split(st *State, v *V, res *ssa.Call, f func(s *State, n *Node) (*V, *State)) *State {
	return e.splitAlts(st, e.under(v, st.pc), res, f)
}

func (e *Eng) splitAlts(st *State, v *V, res *ssa.Call, f func(s *State, n *Node) (*V, *State)) *State {
	if len(v.alts) == 1 {
		r, s := f(st, v.alts[0].n)
		if s == nil {
			return nil
		}
		if res != nil && r != nil {
			s.env[res] = r
		}
		return s
	}
	var sts []*State
	var vals []*V
	for _, a := range v.alts {
		g := e.b.And(st.pc, a.g)
		if g == e.b.F {
			continue
		}
		c := st.clone()
		c.pc = g
		r, s := f(c, a.n)
		if s == nil {
			continue
		}
		sts = append(sts, s)
		vals = append(vals, r)
	}
	if len(sts) == 0 {
		return nil
	}
	m := e.merge(sts)
	if res != nil {
		var as []alt
		for i, r := range vals {
			if r == nil {
				continue
			}
			for _, a := range r.alts {
				as = append(as, alt{e.b.And(sts[i].pc, a.g), a.n})
			}
		}
		if len(as) > 0 {
			m.env[res] = e.norm(as, m.pc)
		}
	}
	return m
}

func (e *Eng) invoke(st *State, fr *frame, in ssa.Instruction, com *ssa.CallCommon, n *Node, args []*V) (*V, *State) {
	name := com.Method.FullName()
	if e.OnInvoke != nil {
		if v, ok := e.OnInvoke(&CallCtx{e, st, fr, in, com, name, nil, args}, n); ok {
			if st.pc == e.b.F {
				return nil, nil
			}
			return v, st
		}
	}
	if n.Op == "iface" {
		if fn := e.r.Prog.LookupMethod(n.T, com.Method.Pkg(), com.Method.Name()); fn != nil {
			as := append([]*V{n.Elems[0]}, args[1:]...)
			return e.callFn(st, fr, in, fn, as, nil)
		}
	}
	if e.OnCall != nil {
		if v, ok := e.OnCall(&CallCtx{e, st, fr, in, com, name, nil, args}); ok {
			return v, st
		}
	}
	if n.Op == "rtype" {
		if v := e.rtypeCall(st, n, com.Method.Name(), args); v != nil {
			return v, st
		}
		if e.Concrete {
			if v := e.rtypeMore(st, n, com.Method.Name(), args); v != nil {
				return v, st
			}
		}
	}
	if name == "(error).Error" || (com.Method.Pkg() != nil && com.Method.Pkg().Path() == "reflect") {
		return e.app(name, args, com.Signature().Results()), st
	}
	return e.opaqueCall(st, fr, in, name, nil, args, true)
}

func onStack(fr *frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Eng) callFn(st *State, fr *frame, in ssa.Instruction, fn *ssa.Function, args []*V, free []*V) (*V, *State) {
	name := fn.String()
	if e.OnCall != nil {
		var com *ssa.CallCommon
		if c, ok := in.(ssa.CallInstruction); ok {
			com = c.Common()
		}
		if v, ok := e.OnCall(&CallCtx{e, st, fr, in, com, name, fn, args}); ok {
			if st.pc == e.b.F {
				return nil, nil
			}
			return v, st
		}
	}
	inRepo := e.r.InRepo(fn) || (fn.Synthetic != "" && len(fn.Blocks) > 0 && e.synthRepo(fn))
	if inRepo && len(fn.Blocks) > 0 && fr.depth < e.MaxDep && (e.Concrete || !onStack(fr, fn)) && (e.NoInl == nil || !e.NoInl(fn)) {
		return e.inline(st, fr, in, fn, args, free)
	}
	if !inRepo {
		if v, ok := e.model(st, fr, in, fn, name, args); ok {
			return v, st
		}
		if e.Concrete && len(fn.Blocks) > 0 && pureStd(fn) {
			return e.inline(st, fr, in, fn, args, free)
		}
		if isPure(fn) {
			return e.app(name, args, fn.Signature.Results()), st
		}
		return e.opaqueCall(st, fr, in, name, fn, args, true)
	}
	for i, f := range free {
		if storesFree(fn, i, map[*ssa.Function]bool{}) {
			e.havoc(st, f, map[string]bool{})
		}
	}
	return e.opaqueCall(st, fr, in, name, fn, args, true)
}

// synthRepo: wrappers and thunks generated for methods of the repository.
func (e *Eng) synthRepo(fn *ssa.Function) bool {
	if o := fn.Object(); o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), e.r.Module) {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && e.r.InRepo(f) {
					return true
				}
			}
		}
	}
	return false
}

func (e *Eng) inline(st *State, fr *frame, in ssa.Instruction, fn *ssa.Function, args []*V, free []*V) (*V, *State) {
	path := e.site(fr, in) + "/"
	rets := e.Run(fn, st, args, free, fr, path)
	return e.joinRets(rets)
}

func (e *Eng) joinRets(rets []retState) (*V, *State) {
	var sts []*State
	for _, r := range rets {
		sts = append(sts, r.st)
	}
	if len(sts) == 0 {
		return nil, nil
	}
	m := e.merge(sts)
	n := len(rets[0].vals)
	var vals []*V
	for i := 0; i < n; i++ {
		if len(rets) == 1 {
			vals = append(vals, rets[0].vals[i])
			continue
		}
		var as []alt
		for _, r := range rets {
			for _, a := range r.vals[i].alts {
				as = append(as, alt{e.b.And(r.st.pc, a.g), a.n})
			}
		}
		vals = append(vals, e.norm(as, m.pc))
	}
	switch n {
	case 0:
		return nil, m
	case 1:
		return vals[0], m
	}
	return e.v(e.mk(Node{Op: "tuple", Elems: vals})), m
}

// resVal names the result of a call the analysis does not look into.
func (e *Eng) resVal(name string, res *types.Tuple) *V {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		if e.Success && isErrorType(res.At(0).Type()) {
			return e.v(e.nilN(nil))
		}
		return e.symVal(name, res.At(0).Type())
	}
	return e.symVal(name, res)
}

func (e *Eng) app(name string, args []*V, res *types.Tuple) *V {
	// one uninterpreted term per combination of alternatives
	var rec func(i int, as []*Node) *V
	rec = func(i int, as []*Node) *V {
		if i < len(args) {
			return e.map1(args[i], e.b.T, func(n *Node) *V { return rec(i+1, append(as[:i:i], n)) })
		}
		var ss []string
		for _, a := range as {
			ss = append(ss, a.String())
		}
		if res.Len() == 1 {
			t := res.At(0).Type()
			w, _, isInt := intWidth(t)
			n := Node{Op: "app", Name: name, Args: append([]*Node{}, as...), T: t}
			if isInt {
				n.W = w
			} else if isBool(t) {
				n.W = 1
			}
			return e.v(e.mk(n))
		}
		ids := ""
		for _, a := range as {
			ids += fmt.Sprintf("#%d", a.id)
		}
		return e.symVal(name+"("+strings.Join(ss, ", ")+")"+ids, res)
	}
	return rec(0, nil)
}

func (e *Eng) opaqueCall(st *State, fr *frame, in ssa.Instruction, name string, fn *ssa.Function, args []*V, havoc bool) (*V, *State) {
	v := e.event(st, fr, in, name, fn, args)
	if havoc {
		for _, a := range args {
			e.havoc(st, a, map[string]bool{})
		}
	}
	return v, st
}

func (e *Eng) event(st *State, fr *frame, in ssa.Instruction, name string, fn *ssa.Function, args []*V) *V {
	g := map[string]*V{}
	for k, v := range st.ghost {
		g[k] = v
	}
	e.Events = append(e.Events, Event{Name: name, Fn: fn, Args: args, PC: st.pc, Pos: in.Pos(), In: fr.fn, Ghost: g})
	nm := "call:" + name + "@" + e.site(fr, in)
	switch x := in.(type) {
	case *ssa.Call:
		return e.resVal(nm, x.Call.Signature().Results())
	case *ssa.Lookup:
		return e.symVal(nm, x.Type())
	}
	return nil
}

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "errors.Is": true, "bytes.Equal": true,
	"bytes.Compare": true, "bytes.IndexByte": true, "bytes.Index": true, "bytes.Contains": true, "bytes.HasPrefix": true,
	"encoding/hex.EncodeToString": true, "bytes.NewReader": false,
}

var impureReflect = map[string]bool{"Set": true, "SetInt": true, "SetUint": true, "SetBool": true, "SetString": true, "SetBytes": true,
	"SetLen": true, "SetCap": true, "SetFloat": true, "Call": true, "SetMapIndex": true, "SetZero": true, "Grow": true, "Clear": true,
	"Interface": false, "Append": false}

// pureStd: standard functions simple enough to be analysed like the repository's own.
func pureStd(fn *ssa.Function) bool {
	switch fnPkgPath(fn) {
	case "math/bits", "unicode/utf8":
		return true
	case "encoding/binary":
		if recv := fn.Signature.Recv(); recv != nil {
			s := recv.Type().String()
			return strings.HasSuffix(s, "bigEndian") || strings.HasSuffix(s, "littleEndian")
		}
	}
	return false
}

func isPure(fn *ssa.Function) bool {
	o := fn.Object()
	if o == nil || o.Pkg() == nil {
		return false
	}
	if pureFuncs[fn.String()] {
		return true
	}
	switch o.Pkg().Path() {
	case "strings":
		return fn.Signature.Recv() == nil
	case "strconv", "unicode", "unicode/utf8", "math", "math/bits":
		return true
	case "reflect":
		return !impureReflect[o.Name()]
	case "time":
		return o.Name() != "Now" && o.Name() != "Sleep"
	case "path/filepath", "path":
		return true
	}
	return false
}

func (e *Eng) model(st *State, fr *frame, in ssa.Instruction, fn *ssa.Function, name string, args []*V) (*V, bool) {
	switch name {
	case "errors.New", "fmt.Errorf":
		return e.v(e.mk(Node{Op: "sym", Name: "newerr:" + e.site(fr, in), T: types.Universe.Lookup("error").Type()})), true
	case "(encoding/binary.bigEndian).Uint16":
		return e.beGet(st, args[1], 2), true
	case "(encoding/binary.bigEndian).Uint32":
		return e.beGet(st, args[1], 4), true
	case "(encoding/binary.bigEndian).Uint64":
		return e.beGet(st, args[1], 8), true
	case "(encoding/binary.bigEndian).PutUint16":
		e.bePut(st, args[1], args[2], 2)
		return nil, true
	case "(encoding/binary.bigEndian).PutUint32":
		e.bePut(st, args[1], args[2], 4)
		return nil, true
	case "(encoding/binary.bigEndian).PutUint64":
		e.bePut(st, args[1], args[2], 8)
		return nil, true
	case "(encoding/binary.bigEndian).AppendUint16":
		return e.beAppend(st, args[1], args[2], 2), true
	case "(encoding/binary.bigEndian).AppendUint32":
		return e.beAppend(st, args[1], args[2], 4), true
	case "(encoding/binary.bigEndian).AppendUint64":
		return e.beAppend(st, args[1], args[2], 8), true
	case "reflect.TypeOf":
		return e.map1(args[0], st.pc, func(n *Node) *V {
			if n.Op == "iface" {
				return e.v(e.rtype(n.T))
			}
			return e.app(name, []*V{e.v(n)}, fn.Signature.Results())
		}), true
	}
	return nil, false
}

func (e *Eng) rtype(t types.Type) *Node {
	return e.mk(Node{Op: "rtype", T: t, Name: types.TypeString(t, nil)})
}

func (e *Eng) rtypeCall(st *State, n *Node, m string, args []*V) *V {
	switch m {
	case "Elem":
		switch u := n.T.Underlying().(type) {
		case *types.Pointer:
			return e.v(e.rtype(u.Elem()))
		case *types.Slice:
			return e.v(e.rtype(u.Elem()))
		case *types.Array:
			return e.v(e.rtype(u.Elem()))
		}
	case "Name":
		if nt, ok := n.T.(*types.Named); ok {
			return e.v(e.strN(nt.Obj().Name()))
		}
	case "NumField":
		if u, ok := n.T.Underlying().(*types.Struct); ok {
			return e.intV(uint64(u.NumFields()), 64)
		}
	case "Kind":
		if k := reflectKind(n.T); k > 0 {
			return e.intV(uint64(k), 64)
		}
	}
	return nil
}

func reflectKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
			return 2 + int(u.Kind()-types.Int)
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return 7 + int(u.Kind()-types.Uint)
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (e *Eng) beGet(st *State, s *V, n int) *V {
	return e.map1(s, st.pc, func(b *Node) *V {
		w := n * 8
		r := e.intV(0, w)
		for i := 0; i < n; i++ {
			x := e.load(st, e.sliceElem(st, b, e.intN(uint64(i), 64)), types.Typ[types.Uint8])
			r = e.map2(r, x, st.pc, func(p, q *Node) *V {
				return e.v(e.bit2("or", p, e.shift("shl", q, e.intN(uint64(8*(n-1-i)), w), w), w))
			})
		}
		return r
	})
}

func (e *Eng) bePut(st *State, s, v *V, n int) {
	for _, a := range s.alts {
		g := e.b.Restrict(a.g, st.pc)
		if e.b.And(g, st.pc) == e.b.F {
			continue
		}
		for i := 0; i < n; i++ {
			i := i
			by := e.map1(v, st.pc, func(x *Node) *V {
				return e.v(e.trunc(e.shift("lshr", x, e.intN(uint64(8*(n-1-i)), n*8), n*8), 8))
			})
			e.store(st, e.sliceElem(st, a.n, e.intN(uint64(i), 64)), types.Typ[types.Uint8], by, g)
		}
	}
}

func (e *Eng) beAppend(st *State, s, v *V, n int) *V {
	var bs []*V
	for i := 0; i < n; i++ {
		i := i
		bs = append(bs, e.map1(v, st.pc, func(x *Node) *V {
			return e.v(e.trunc(e.shift("lshr", x, e.intN(uint64(8*(n-1-i)), n*8), n*8), 8))
		}))
	}
	return e.map1(s, st.pc, func(x *Node) *V {
		return e.v(e.mk(Node{Op: "append", Args: []*Node{x}, Elems: bs, T: types.NewSlice(types.Typ[types.Uint8])}))
	})
}

// copyBytes models copy between slices of known lengths.
func (e *Eng) copyBytes(st *State, com *ssa.CallCommon, dst, src *V) (*V, bool) {
	type pair struct {
		g    *B
		d, s *Node
		n    uint64
	}
	var ps []pair
	for _, d := range dst.alts {
		for _, s := range src.alts {
			g := e.b.Restrict(e.b.And(d.g, s.g), st.pc)
			if e.b.And(g, st.pc) == e.b.F {
				continue
			}
			dl, sl := e.lenV(st, e.v(d.n)).single(), e.lenV(st, e.v(s.n)).single()
			if dl == nil || sl == nil || dl.Op != "int" || sl.Op != "int" || min64(dl.C, sl.C) > 64 && !e.Concrete {
				return nil, false
			}
			ps = append(ps, pair{g, d.n, s.n, min64(dl.C, sl.C)})
		}
	}
	et := com.Args[0].Type().Underlying().(*types.Slice).Elem()
	vals := make([][]*V, len(ps))
	for k, p := range ps {
		for i := uint64(0); i < p.n; i++ {
			if p.s.Op == "bstr" {
				vals[k] = append(vals[k], p.s.Elems[i])
				continue
			}
			if p.s.Op == "str" {
				vals[k] = append(vals[k], e.intV(uint64(p.s.Name[i]), 8))
				continue
			}
			vals[k] = append(vals[k], e.load(st, e.sliceElem(st, p.s, e.intN(i, 64)), et))
		}
	}
	var ns []alt
	for k, p := range ps {
		for i := uint64(0); i < p.n; i++ {
			e.store(st, e.sliceElem(st, p.d, e.intN(i, 64)), et, vals[k][i], p.g)
		}
		ns = append(ns, alt{p.g, e.intN(p.n, 64)})
	}
	return e.norm(ns, st.pc), true
}

func (e *Eng) builtin(st *State, fr *frame, in ssa.Instruction, name string, com *ssa.CallCommon, args []*V) *V {
	switch name {
	case "ssa:wrapnilchk":
		return args[0]
	case "len":
		return e.lenV(st, args[0])
	case "cap":
		return e.map1(args[0], st.pc, func(n *Node) *V {
			if n.Op == "nil" {
				return e.intV(0, 64)
			}
			return e.v(e.mk(Node{Op: "cap", W: 64, Args: []*Node{n}}))
		})
	case "append":
		t := com.Args[0].Type()
		if len(args) == 1 {
			return args[0]
		}
		return e.map2(args[0], args[1], st.pc, func(s, x *Node) *V {
			if x.Op == "nil" {
				return e.v(s)
			}
			if e.Concrete {
				obj := "a:" + e.site(fr, in) + "\x00"
				if len(args[0].alts)*len(args[1].alts) > 1 { // one array for each alternative
					obj = fmt.Sprintf("a:%s/%d.%d\x00", e.site(fr, in), s.id, x.id)
				}
				if n := e.appendAll(st, obj, s, x, t); n != nil {
					return e.v(n)
				}
			}
			if x.Op == "slice" || x.Op == "append" || x.Op == "reslice" {
				if ln := e.lenOf(x); ln.Op == "int" && ln.C <= 64 {
					if ln.C == 0 {
						return e.v(s)
					}
					n := Node{Op: "append", Args: []*Node{s}, T: t}
					if sl, ok := t.Underlying().(*types.Slice); ok {
						for i := uint64(0); i < ln.C; i++ {
							n.Elems = append(n.Elems, e.load(st, e.sliceElem(st, x, e.intN(i, 64)), sl.Elem()))
						}
						return e.v(e.mk(n))
					}
				}
			}
			return e.v(e.mk(Node{Op: "concat", Name: e.site(fr, in), Args: []*Node{s, x}, T: t}))
		})
	case "copy":
		v := e.event(st, fr, in, "builtin copy", nil, args)
		if n, ok := e.copyBytes(st, com, args[0], args[1]); ok {
			return n
		}
		e.havoc(st, args[0], map[string]bool{})
		return v
	case "min", "max":
		w, signed, ok := intWidth(com.Args[0].Type())
		if ok {
			r := args[0]
			for _, x := range args[1:] {
				r = e.map2(r, x, st.pc, func(p, q *Node) *V {
					lt := e.ltInt(p, q, w, signed)
					if name == "max" {
						lt = e.b.Not(lt)
					}
					return e.norm([]alt{{lt, p}, {e.b.Not(lt), q}}, st.pc)
				})
			}
			return r
		}
	case "delete", "clear", "close":
		if e.Concrete && name == "delete" && e.mapDelete(st, args[0], args[1]) {
			return nil
		}
		e.event(st, fr, in, "builtin "+name, nil, args)
		return nil
	case "recover":
		return e.v(e.nilN(nil))
	}
	return e.event(st, fr, in, "builtin "+name, nil, args)
}

// ---------------------------------------------------------------- entry points

// initGlobals interprets the package initialisers.
func (e *Eng) initGlobals() {
	if e.Globals != nil {
		return
	}
	st := emptyState(e)
	var order []*ssa.Package
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] {
			return
		}
		seen[p.Path()] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := e.r.SPkgs[p.Path()]; sp != nil && (sp == e.r.Root || strings.Contains(p.Path(), "/internal/")) {
			order = append(order, sp)
		}
	}
	visit(e.r.Root.Pkg)
	saveNo, saveOK := e.NoInl, e.Success
	defer func() { e.NoInl, e.Success = saveNo, saveOK }()
	e.Success = true
	e.NoInl = func(fn *ssa.Function) bool {
		return !e.Concrete && len(e.loops(fn).heads) > 0 && !strings.HasPrefix(fn.Name(), "init")
	}
	for _, p := range order {
		init := p.Func("init")
		if init == nil {
			continue
		}
		rets := e.Run(init, st, nil, nil, nil, "init:"+p.Pkg.Name()+"/")
		_, st = e.joinRets(rets)
		if st == nil {
			panic("package initialisation never returns")
		}
		st.env = map[ssa.Value]*V{}
		st.pc = e.b.T
	}
	e.Globals = st
}

// symArgs makes unknown arguments for fn, named by parameter position.
func (e *Eng) symArgs(fn *ssa.Function) []*V {
	var out []*V
	for i, p := range fn.Params {
		out = append(out, e.symVal(fmt.Sprintf("arg%d", i), p.Type()))
	}
	return out
}

// runTop interprets fn from the initial memory; nil state: no feasible (successful) return.
func (e *Eng) runTop(fn *ssa.Function, st *State, args []*V) (*V, *State) {
	return e.joinRets(e.Run(fn, st, args, nil, nil, "top/"))
}

func (e *Eng) posStr(p token.Pos) string { return e.r.Pos(p) }
