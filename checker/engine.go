package main

// Abstract interpretation of SSA functions: forward dataflow over the control flow graph with gated
// joins, abstract memory, bounded unrolling of constant-controlled loops and optimistic invariants
// for all other loops. Static callees of the repository are inlined; everything else is an event.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc    *B
	env   map[ssa.Value]*V
	mem   map[string]*omem
	gm    map[string]*omem // memory after package initialisation, below mem
	tok   *int
	base  map[string]string // symbolic objects: name prefix of their unknown content; absent: zero
	ghost map[string]*V
}

// omem holds the cells of one object by path; a state writes only those carrying its token.
type omem struct {
	m   map[string]*V
	tok *int
}

func newTok() *int { return new(int) }

func (s *State) clone() *State {
	n := &State{pc: s.pc, env: make(map[ssa.Value]*V, len(s.env)), mem: make(map[string]*omem, len(s.mem)), gm: s.gm, tok: newTok(),
		base: make(map[string]string, len(s.base)), ghost: make(map[string]*V, len(s.ghost))}
	s.tok = newTok()
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.base {
		n.base[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

// cells of an object, for reading.
func (s *State) cells(obj string) map[string]*V {
	if o := s.mem[obj]; o != nil {
		return o.m
	}
	if o := s.gm[obj]; o != nil {
		return o.m
	}
	return nil
}

// own gives the cells of an object for writing.
func (s *State) own(obj string) map[string]*V {
	o := s.mem[obj]
	if o != nil && o.tok == s.tok {
		return o.m
	}
	n := &omem{m: map[string]*V{}, tok: s.tok}
	for k, v := range s.cells(obj) {
		n.m[k] = v
	}
	s.mem[obj] = n
	return n.m
}

// drop makes an object new.
func (s *State) drop(obj string) {
	if s.cells(obj) != nil {
		s.mem[obj] = &omem{m: map[string]*V{}, tok: s.tok}
	}
}

// dropAll makes an object and everything known about it new.
func (s *State) dropAll(obj string) {
	s.drop(obj)
	if len(s.base) == 0 {
		return
	}
	delete(s.base, obj)
	for k := range s.base {
		if strings.HasPrefix(k, obj) {
			delete(s.base, k)
		}
	}
}

func (s *State) cell(k string) *V {
	obj, path := splitCell(k)
	return s.cells(obj)[path]
}

func (s *State) setCell(k string, v *V) {
	obj, path := splitCell(k)
	s.own(obj)[path] = v
}

func emptyState(e *Eng) *State {
	return &State{pc: e.b.T, env: map[ssa.Value]*V{}, mem: map[string]*omem{}, tok: newTok(), base: map[string]string{}, ghost: map[string]*V{}}
}

// Event is one call the analysis does not look into.
type Event struct {
	Name  string
	Fn    *ssa.Function // static callee, if any
	Args  []*V
	PC    *B
	Pos   token.Pos
	In    *ssa.Function
	Ghost map[string]*V
}

type Eng struct {
	r       *Repo
	b       *bdds
	nodes   map[string]*Node
	tru     *Node
	fls     *Node
	Success bool // assume errors of events are nil and drop paths that return errors
	MaxDep  int
	Events  []Event
	OnCall  func(c *CallCtx) (*V, bool)
	// OnInvoke is asked about a method call before the method is looked up
	OnInvoke func(c *CallCtx, n *Node) (*V, bool)
	Peel     int           // iterations taken out of a loop before it is summarised
	Mark     func() func() // snapshot of what OnCall recorded; the result restores it
	OnStore  func(st *State, addr *Node, fr *frame, old, val *V)
	SplitOn  func(st *State, com *ssa.CallCommon, args []*V) *V // a value to split a call on
	OnPanic  func(st *State, fr *frame, in ssa.Instruction)
	NoInl    func(fn *ssa.Function) bool
	cellT    map[string]types.Type
	fresh    int
	Globals  *State // memory after package initialisation
	steps    int
	MaxStep  int
	loopsOf  map[*ssa.Function]*loopInfo
	Visited  map[*ssa.Function]bool
	Notes    []string
	Unroll   int // most iterations of a loop followed exactly
	// Concrete: shapes (lengths, counts, names, positions) are constants and only the values of bits are
	// unknown; maps, reflection and strings are modelled, recursion is followed
	Concrete bool
	OnMake   func(st *State, fr *frame, n *V, elem types.Type) // memory for n elements is allocated
	WideLt   bool                                              // compare unknown integers bit by bit
	WideMax  int                                               // then: values an integer is split into at most
}

type CallCtx struct {
	e    *Eng
	st   *State
	fr   *frame
	in   ssa.Instruction
	com  *ssa.CallCommon
	Name string
	Fn   *ssa.Function
	Args []*V
}

type frame struct {
	fn     *ssa.Function
	path   string
	iter   string
	depth  int
	parent *frame
	defers []deferred
	rets   []retState
}

type deferred struct {
	g    *B
	com  *ssa.CallCommon
	in   ssa.Instruction
	args []*V
	fval *V
}

type retState struct {
	st   *State
	vals []*V
	pos  token.Pos
}

func newEng(r *Repo) *Eng {
	e := &Eng{r: r, b: newBDDs(), nodes: map[string]*Node{}, MaxDep: 14, cellT: map[string]types.Type{}, MaxStep: 400000, Unroll: 300,
		loopsOf: map[*ssa.Function]*loopInfo{}, Visited: map[*ssa.Function]bool{}}
	e.tru = e.mk(Node{Op: "true", W: 1})
	e.fls = e.mk(Node{Op: "false", W: 1})
	return e
}

func (e *Eng) newState() *State {
	if e.Globals != nil {
		s := e.Globals.clone()
		if s.gm == nil {
			s.gm, s.mem = s.mem, map[string]*omem{}
		}
		s.pc = e.b.T
		return s
	}
	return emptyState(e)
}

func (e *Eng) freshName(p string) string {
	e.fresh++
	return fmt.Sprintf("%s!%d", p, e.fresh)
}

// ---------------------------------------------------------------- types

func intWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// symVal makes an unknown value of type t with a stable name.
func (e *Eng) symVal(name string, t types.Type) *V {
	if t == nil {
		t = types.Typ[types.Invalid]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return e.v(e.mk(Node{Op: "sym", Name: name, W: w}))
		}
		if isBool(t) {
			return e.boolV(e.b.Var(name))
		}
		return e.v(e.mk(Node{Op: "sym", Name: name, T: t}))
	case *types.Struct:
		n := Node{Op: "struct", T: t}
		for i := 0; i < u.NumFields(); i++ {
			n.Elems = append(n.Elems, e.symVal(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return e.v(e.mk(n))
	case *types.Array:
		if u.Len() <= 64 {
			n := Node{Op: "array", T: t}
			for i := int64(0); i < u.Len(); i++ {
				n.Elems = append(n.Elems, e.symVal(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
			}
			return e.v(e.mk(n))
		}
	case *types.Tuple:
		n := Node{Op: "tuple", T: t}
		for i := 0; i < u.Len(); i++ {
			if e.Success && isErrorType(u.At(i).Type()) {
				n.Elems = append(n.Elems, e.v(e.nilN(nil)))
				continue
			}
			n.Elems = append(n.Elems, e.symVal(fmt.Sprintf("%s#%d", name, i), u.At(i).Type()))
		}
		return e.v(e.mk(n))
	}
	return e.v(e.mk(Node{Op: "sym", Name: name, T: t}))
}

// opaqueStruct: structures modelled as a single value.
func (e *Eng) opaqueStruct(t types.Type) bool {
	if !e.Concrete {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

func (e *Eng) zeroVal(t types.Type) *V {
	if e.opaqueStruct(t) {
		return e.v(e.mk(Node{Op: "rval"}))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return e.intV(0, w)
		}
		if isBool(t) {
			return e.v(e.fls)
		}
		if isString(t) {
			return e.v(e.strN(""))
		}
		if u.Info()&types.IsFloat != 0 {
			return e.v(e.mk(Node{Op: "float", K: constant.MakeInt64(0)}))
		}
	case *types.Struct:
		n := Node{Op: "struct", T: t}
		for i := 0; i < u.NumFields(); i++ {
			n.Elems = append(n.Elems, e.zeroVal(u.Field(i).Type()))
		}
		return e.v(e.mk(n))
	case *types.Array:
		if u.Len() <= 4096 {
			z := e.zeroVal(u.Elem())
			n := Node{Op: "array", T: t}
			for i := int64(0); i < u.Len(); i++ {
				n.Elems = append(n.Elems, z)
			}
			return e.v(e.mk(n))
		}
		return e.symVal(e.freshName("bigarray"), t)
	case *types.Tuple:
		n := Node{Op: "tuple", T: t}
		for i := 0; i < u.Len(); i++ {
			n.Elems = append(n.Elems, e.zeroVal(u.At(i).Type()))
		}
		return e.v(e.mk(n))
	}
	return e.v(e.nilN(t))
}

func (e *Eng) constVal(c *ssa.Const) *V {
	t := c.Type()
	if c.Value == nil {
		return e.zeroVal(t)
	}
	if w, _, ok := intWidth(t); ok {
		k := constant.ToInt(c.Value)
		if u, exact := constant.Uint64Val(k); exact {
			return e.intV(u, w)
		}
		i, _ := constant.Int64Val(k)
		return e.intV(uint64(i), w)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.boolV(e.b.Bool(constant.BoolVal(c.Value)))
	case constant.String:
		return e.v(e.strN(constant.StringVal(c.Value)))
	}
	return e.v(e.mk(Node{Op: "float", K: c.Value}))
}

// ---------------------------------------------------------------- memory

func (e *Eng) ptrN(obj, path string) *Node { return e.mk(Node{Op: "ptr", Name: obj, Path: path}) }

// ptrOf turns a pointer leaf into an address.
func (e *Eng) ptrOf(st *State, n *Node) *Node {
	if n.Op == "ptr" {
		return n
	}
	obj := fmt.Sprintf("*%s\x00", strings.ReplaceAll(n.String(), "\x00", ""))
	if _, ok := st.base[obj]; !ok {
		st.base[obj] = "(*" + n.String() + ")"
	}
	return e.ptrN(obj, "")
}

func (e *Eng) load(st *State, p *Node, t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if e.opaqueStruct(t) {
			break
		}
		if _, whole := st.cells(p.Name)[p.Path]; !whole {
			n := Node{Op: "struct", T: t}
			for i := 0; i < u.NumFields(); i++ {
				n.Elems = append(n.Elems, e.load(st, e.ptrN(p.Name, p.Path+"."+u.Field(i).Name()), u.Field(i).Type()))
			}
			return e.v(e.mk(n))
		}
	case *types.Array:
		if u.Len() <= 64 {
			n := Node{Op: "array", T: t}
			for i := int64(0); i < u.Len(); i++ {
				n.Elems = append(n.Elems, e.load(st, e.ptrN(p.Name, fmt.Sprintf("%s[%d]", p.Path, i)), u.Elem()))
			}
			return e.v(e.mk(n))
		}
	}
	k := p.Name + p.Path
	e.cellT[k] = t
	if v, ok := st.cells(p.Name)[p.Path]; ok {
		return e.under(v, st.pc)
	}
	return e.deflt(st, p.Name, p.Path, t)
}

// deflt is the content of a cell that has not been written.
func (e *Eng) deflt(st *State, obj, path string, t types.Type) *V {
	if t == nil && path == "" && strings.HasPrefix(obj, "m:") {
		return e.v(e.mk(Node{Op: "mapc"})) // a map that is not made yet
	}
	if t == nil && strings.HasSuffix(path, ".#buf") {
		return e.v(e.mk(Node{Op: "blist"}))
	}
	// a havocked or symbolically written array prefix
	for i := len(path); i > 0; i-- {
		if path[i-1] != '[' && path[i-1] != '.' {
			continue
		}
		if m, ok := st.base[obj+path[:i-1]+"*"]; ok {
			return e.symVal(m+path[i-1:], t)
		}
	}
	if b, ok := st.base[obj]; ok {
		return e.symVal(b+path, t)
	}
	if strings.Contains(path, "[#") {
		// unknown element of a zeroed object: zero when nothing was stored in the array
		pre := path[:strings.Index(path, "[#")]
		for k := range st.cells(obj) {
			if strings.HasPrefix(k, pre+"[") {
				return e.symVal(e.freshName("elem:"+obj+path), t)
			}
		}
	}
	return e.zeroVal(t)
}

func (e *Eng) store(st *State, p *Node, t types.Type, v *V, g *B) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if e.opaqueStruct(t) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			i := i
			f := e.map1(v, st.pc, func(n *Node) *V { return e.elem(st, n, i, u.Field(i).Name(), u.Field(i).Type()) })
			e.store(st, e.ptrN(p.Name, p.Path+"."+u.Field(i).Name()), u.Field(i).Type(), f, g)
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				i := i
				f := e.map1(v, st.pc, func(n *Node) *V { return e.elem(st, n, int(i), fmt.Sprintf("[%d]", i), u.Elem()) })
				e.store(st, e.ptrN(p.Name, fmt.Sprintf("%s[%d]", p.Path, i)), u.Elem(), f, g)
			}
			return
		}
	}
	k := p.Name + p.Path
	if i := strings.Index(p.Path, "[#"); i >= 0 {
		// write at an unknown index: everything known about the array is lost
		e.havocPrefix(st, p.Name, p.Path[:i])
	} else if i := strings.LastIndex(p.Path, "["); i >= 0 {
		// a write at a known index invalidates what was written at unknown indices
		for kk := range st.cells(p.Name) {
			if strings.HasPrefix(kk, p.Path[:i]+"[#") {
				delete(st.own(p.Name), kk)
			}
		}
	}
	e.cellT[k] = t
	if g != e.b.T {
		old := e.load(st, p, t)
		var as []alt
		for _, a := range v.alts {
			as = append(as, alt{e.b.And(g, a.g), a.n})
		}
		for _, a := range old.alts {
			as = append(as, alt{e.b.And(e.b.Not(g), a.g), a.n})
		}
		v = e.norm(as, st.pc)
	}
	st.own(p.Name)[p.Path] = v
}

func (e *Eng) havocPrefix(st *State, obj, pre string) {
	for kk := range st.cells(obj) {
		if strings.HasPrefix(kk, pre) && (len(kk) == len(pre) || strings.ContainsRune(".[", rune(kk[len(pre)]))) {
			delete(st.own(obj), kk)
		}
	}
	for kk := range st.base {
		if strings.HasPrefix(kk, obj+pre) && strings.HasSuffix(kk, "*") {
			delete(st.base, kk)
		}
	}
	nm := e.freshName("havoc:" + strings.ReplaceAll(obj, "\x00", "") + pre)
	if pre == "" {
		st.base[obj] = nm
	}
	st.base[obj+pre+"*"] = nm
}

// havoc forgets everything reachable from a value handed to unknown code.
func (e *Eng) havoc(st *State, v *V, seen map[string]bool) {
	if v == nil {
		return
	}
	for _, a := range v.alts {
		n := a.n
		switch n.Op {
		case "ptr":
			k := n.Name + n.Path
			if seen[k] {
				continue
			}
			seen[k] = true
			for kk, vv := range st.cells(n.Name) {
				if strings.HasPrefix(kk, n.Path) {
					e.havoc(st, vv, seen)
				}
			}
			e.havocPrefix(st, n.Name, n.Path)
		case "slice":
			e.havoc(st, e.v(n.Args[0]), seen)
		case "struct", "array", "tuple", "iface":
			for _, x := range n.Elems {
				e.havoc(st, x, seen)
			}
		case "closure":
			for i, x := range n.Elems {
				if i < len(n.Fn.FreeVars) {
					w := map[string]bool{}
					if st2, ok := deref(n.Fn.FreeVars[i].Type()).Underlying().(*types.Struct); ok && st2 != nil &&
						fieldsWritten(n.Fn.FreeVars[i], w, map[ssa.Value]bool{}) {
						// a shared record: only the fields assigned through it change
						for _, a := range x.alts {
							if a.n.Op == "ptr" {
								for f := range w {
									e.havocPrefix(st, a.n.Name, a.n.Path+"."+f)
								}
							}
						}
						continue
					}
				}
				if storesFree(n.Fn, i, map[*ssa.Function]bool{}) {
					e.havoc(st, x, seen)
				}
			}
		case "sym":
			if n.T != nil {
				if _, ok := n.T.Underlying().(*types.Pointer); ok {
					p := e.ptrOf(st, n)
					if !seen[p.Name] {
						seen[p.Name] = true
						e.havocPrefix(st, p.Name, "")
					}
				}
			}
		}
	}
}

// fieldsWritten collects the fields of *v that v's uses assign; false if the uses cannot be followed.
func fieldsWritten(v ssa.Value, w map[string]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, ref := range *refs {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				switch y := r2.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if y.Addr != x {
						return false
					}
					w[fieldName(x)] = true
				default:
					w[fieldName(x)] = true
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for j, b := range x.Bindings {
				if b == v && !fieldsWritten(f.FreeVars[j], w, seen) {
					return false
				}
			}
		case ssa.CallInstruction:
			f := x.Common().StaticCallee()
			if f == nil || len(f.Blocks) == 0 {
				return false
			}
			for j, a := range x.Common().Args {
				if a == v && !fieldsWritten(f.Params[j], w, seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// storesFree: the closure (or one nested in it) assigns its i-th captured variable.
func storesFree(fn *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if fn == nil || i >= len(fn.FreeVars) {
		return false
	}
	fv := fn.FreeVars[i]
	if _, ok := deref(fv.Type()).Underlying().(*types.Pointer); ok && false {
		return true
	}
	for _, ref := range *fv.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == fv {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			for _, r2 := range *x.(ssa.Value).Referrers() {
				if _, ok := r2.(*ssa.UnOp); !ok {
					return true
				}
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for j, b := range x.Bindings {
				if b == fv && storesFree(f, j, seen) {
					return true
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// elem selects a component of an aggregate leaf.
func (e *Eng) elem(st *State, n *Node, i int, name string, t types.Type) *V {
	if isAgg(n) && i < len(n.Elems) && n.Op != "iface" && n.Op != "closure" {
		return e.under(n.Elems[i], st.pc)
	}
	if n.Op == "nil" {
		return e.zeroVal(t)
	}
	if !strings.HasPrefix(name, "[") {
		name = "." + name
	}
	return e.symVal(n.String()+name, t)
}

// ---------------------------------------------------------------- joins

func (e *Eng) merge(sts []*State) *State {
	if len(sts) == 0 {
		return nil
	}
	if len(sts) == 1 {
		return sts[0]
	}
	out := emptyState(e)
	out.pc = e.b.F
	out.gm = sts[0].gm
	for _, s := range sts {
		out.pc = e.b.Or(out.pc, s.pc)
	}
	join := func(vs []*V) *V {
		same := true
		for _, v := range vs[1:] {
			if v != vs[0] {
				same = false
			}
		}
		if same {
			return vs[0]
		}
		var as []alt
		for i, v := range vs {
			if v == nil {
				continue
			}
			for _, a := range v.alts {
				as = append(as, alt{e.b.And(sts[i].pc, a.g), a.n})
			}
		}
		return e.norm(as, out.pc)
	}
	keys := map[ssa.Value]bool{}
	for _, s := range sts {
		for k := range s.env {
			keys[k] = true
		}
	}
	for k := range keys {
		vs := make([]*V, len(sts))
		miss := false
		for i, s := range sts {
			vs[i] = s.env[k]
			if vs[i] == nil {
				miss = true
			}
		}
		if miss {
			var as []*V
			var keep []*State
			for i, v := range vs {
				if v != nil {
					as = append(as, v)
					keep = append(keep, sts[i])
				}
			}
			if len(as) == 1 {
				out.env[k] = as[0]
				continue
			}
			var al []alt
			for i, v := range as {
				for _, a := range v.alts {
					al = append(al, alt{e.b.And(keep[i].pc, a.g), a.n})
				}
			}
			out.env[k] = e.norm(al, out.pc)
			continue
		}
		out.env[k] = join(vs)
	}
	bases := map[string]bool{}
	for _, s := range sts {
		for k := range s.base {
			bases[k] = true
		}
	}
	diff := map[string]bool{}
	for k := range bases {
		nm, ok := sts[0].base[k]
		same := true
		for _, s := range sts[1:] {
			if m, ok2 := s.base[k]; ok2 != ok || m != nm {
				same = false
			}
		}
		if same {
			out.base[k] = nm
			continue
		}
		// the object is unknown on one side only, or unknown in different ways
		var names []string
		for _, s := range sts {
			if m, ok2 := s.base[k]; ok2 {
				names = append(names, m)
			}
		}
		sort.Strings(names)
		if (strings.HasPrefix(k, "*") || strings.HasPrefix(k, "g:")) && !strings.HasSuffix(k, "*") && names[0] == names[len(names)-1] {
			out.base[k] = names[0] // lazily created input object
			continue
		}
		out.base[k] = "join(" + strings.Join(names, ",") + ")"
		diff[k] = true
	}
	objs := map[string]bool{}
	for _, s := range sts {
		for k := range s.mem {
			objs[k] = true
		}
	}
	for obj := range objs {
		same := true
		for _, s := range sts {
			if s.mem[obj] != sts[0].mem[obj] {
				same = false
			}
		}
		if same {
			out.mem[obj] = sts[0].mem[obj]
			continue
		}
		m := out.own(obj)
		paths := map[string]bool{}
		for _, s := range sts {
			for p := range s.cells(obj) {
				paths[p] = true
			}
		}
		for p := range paths {
			vs := make([]*V, len(sts))
			for i, s := range sts {
				vs[i] = s.cells(obj)[p]
				if vs[i] == nil {
					vs[i] = e.deflt(s, obj, p, e.cellT[obj+p])
				}
			}
			m[p] = join(vs)
		}
	}
	gk := map[string]bool{}
	for _, s := range sts {
		for k := range s.ghost {
			gk[k] = true
		}
	}
	for k := range gk {
		vs := make([]*V, len(sts))
		for i, s := range sts {
			vs[i] = s.ghost[k]
			if vs[i] == nil {
				vs[i] = e.intV(0, 64)
			}
		}
		out.ghost[k] = join(vs)
	}
	return out
}

// cell keys are object + path; object names never contain the path separators at top level because
// they are bracketed by the separator below.
func splitCell(k string) (string, string) {
	i := strings.LastIndex(k, "\x00")
	if i < 0 {
		return k, ""
	}
	return k[:i+1], k[i+1:]
}

// ---------------------------------------------------------------- loops

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type loopInfo struct {
	heads map[*ssa.BasicBlock]*loop
	rpo   map[*ssa.BasicBlock]int
	order []*ssa.BasicBlock
}

func (e *Eng) loops(fn *ssa.Function) *loopInfo {
	if li, ok := e.loopsOf[fn]; ok {
		return li
	}
	li := findLoops(fn)
	e.loopsOf[fn] = li
	return li
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{heads: map[*ssa.BasicBlock]*loop{}, rpo: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo[post[i]] = len(li.order)
		li.order = append(li.order, post[i])
	}
	for _, b := range li.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	return li
}

// ---------------------------------------------------------------- running a function

type inEdge struct {
	from *ssa.BasicBlock
	st   *State
}

type outEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// Run interprets fn on the arguments and returns its feasible returns (joined by the caller).
func (e *Eng) Run(fn *ssa.Function, st *State, args []*V, free []*V, parent *frame, path string) []retState {
	fr := &frame{fn: fn, path: path, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.iter = parent.iter
	}
	e.Visited[fn] = true
	saved := st.env
	env := make(map[ssa.Value]*V, 32)
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			env[p] = free[i]
		}
	}
	st.env = env
	li := e.loops(fn)
	in := map[*ssa.BasicBlock][]inEdge{fn.Blocks[0]: {{nil, st}}}
	out := e.region(fr, li, nil, in)
	if len(out) > 0 {
		panic("internal: edges leave the function")
	}
	for i := range fr.rets {
		fr.rets[i].st.env = saved
	}
	return fr.rets
}

// region processes the blocks of a loop body (l) or of the whole function (nil), headers of inner
// loops being handled as units; it returns the edges that leave the region or go back to its header.
func (e *Eng) region(fr *frame, li *loopInfo, l *loop, in map[*ssa.BasicBlock][]inEdge) []outEdge {
	var outs []outEdge
	emit := func(from, to *ssa.BasicBlock, st *State) {
		if st == nil || st.pc == e.b.F {
			return
		}
		if l != nil && (to == l.head || !l.blocks[to]) {
			outs = append(outs, outEdge{from, to, st})
			return
		}
		in[to] = append(in[to], inEdge{from, st})
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range li.order {
		if l != nil && !l.blocks[b] {
			continue
		}
		if done[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		if inner := li.heads[b]; inner != nil && inner != l {
			for x := range inner.blocks {
				done[x] = true
			}
			for _, o := range e.runLoop(fr, li, inner, es) {
				emit(o.from, o.to, o.st)
			}
			continue
		}
		done[b] = true
		st := e.enter(fr, b, es)
		for _, o := range e.block(fr, b, st) {
			emit(o.from, o.to, o.st)
		}
	}
	return outs
}

// enter joins the incoming states of a block, evaluating its phis per edge.
func (e *Eng) enter(fr *frame, b *ssa.BasicBlock, es []inEdge) *State {
	var sts []*State
	for _, x := range es {
		if x.from == nil {
			sts = append(sts, x.st)
			continue
		}
		idx := -1
		for i, p := range b.Preds {
			if p == x.from {
				idx = i
			}
		}
		st := x.st
		var ups []*V
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			ups = append(ups, e.val(st, fr, phi.Edges[idx]))
		}
		if len(phis) > 0 {
			for i, p := range phis {
				st.env[p] = ups[i]
			}
		}
		sts = append(sts, st)
	}
	return e.merge(sts)
}

func (e *Eng) runLoop(fr *frame, li *loopInfo, l *loop, es []inEdge) []outEdge {
	st0 := e.enter(fr, l.head, es)
	saveIter := fr.iter
	defer func() { fr.iter = saveIter }()
	evMark := len(e.Events)
	restore := func() {}
	if e.Mark != nil {
		restore = e.Mark()
	}
	retMark := len(fr.rets)
	defMark := len(fr.defers)
	// 1. unrolling: as long as some exit of the loop is decided in every iteration
	cur := st0.clone()
	var exits []outEdge
	ok := false
	open := 0 // iterations without a decision
	for it := 0; it < e.Unroll; it++ {
		fr.iter = fmt.Sprintf("%s@%d.%d", saveIter, l.head.Index, it)
		outs, decided := e.iterate(fr, li, l, cur)
		var back []inEdge
		for _, o := range outs {
			if o.to == l.head {
				back = append(back, inEdge{o.from, o.st})
			} else {
				exits = append(exits, o)
			}
		}
		if len(back) == 0 {
			ok = true
			break
		}
		if !decided {
			if open++; !e.Concrete || open > 40 {
				break
			}
		}
		cur = e.enter(fr, l.head, back)
	}
	if ok {
		return exits
	}
	if e.Concrete && dbgOn {
		fmt.Fprintf(os.Stderr, "LOOP not unrolled: %s %s open %d\n", fr.fn, fr.iter, open)
	}
	var peeled []outEdge
	if e.Peel > 0 {
		e.Events = e.Events[:evMark]
		restore()
		fr.rets = fr.rets[:retMark]
		fr.defers = fr.defers[:defMark]
		cur := st0.clone()
		for it := 0; it < e.Peel; it++ {
			fr.iter = fmt.Sprintf("%s@%d.%d", saveIter, l.head.Index, it)
			outs, _ := e.iterate(fr, li, l, cur)
			var back []inEdge
			for _, o := range outs {
				if o.to == l.head {
					back = append(back, inEdge{o.from, o.st})
				} else {
					peeled = append(peeled, o)
				}
			}
			if len(back) == 0 {
				return peeled
			}
			cur = e.enter(fr, l.head, back)
		}
		st0 = cur
		evMark, retMark, defMark = len(e.Events), len(fr.rets), len(fr.defers)
		if e.Mark != nil {
			restore = e.Mark()
		}
	}
	// 2. optimistic invariants: everything keeps its value unless the body changes it
	modPhi := map[*ssa.Phi]bool{}
	modMem := map[string]bool{}
	modBase := map[string]string{}
	modGhost := map[string]bool{}
	relGhost := map[string]*ghostRel{}
	relTried := map[string]bool{}
	fr.iter = fmt.Sprintf("%s@%d.*", saveIter, l.head.Index)
	tag := fmt.Sprintf("%s%s@%d", fr.path, saveIter, l.head.Index)
	for round := 0; round < 250; round++ {
		e.Events = e.Events[:evMark]
		restore()
		fr.rets = fr.rets[:retMark]
		fr.defers = fr.defers[:defMark]
		cur := st0.clone()
		for k, nm := range modBase {
			cur.base[k] = nm
		}
		for k := range modMem {
			if _, has := modBase[k]; has {
				continue
			}
			cur.setCell(k, e.symVal("loop("+tag+")"+k, e.cellT[k]))
		}
		for _, in := range l.head.Instrs {
			p, isPhi := in.(*ssa.Phi)
			if !isPhi {
				break
			}
			if modPhi[p] {
				cur.env[p] = e.symVal("loop("+tag+")"+p.Name(), p.Type())
			}
		}
		for k := range modGhost {
			cur.ghost[k] = e.symVal("loop("+tag+")ghost:"+k, types.Typ[types.Uint64])
			if rel := relGhost[k]; rel != nil {
				cur.ghost[k] = rel.value(e, cur)
			}
		}
		start := cur.clone()
		outs, _ := e.iterate(fr, li, l, cur)
		exits = append([]outEdge(nil), peeled...)
		var back []inEdge
		for _, o := range outs {
			if o.to == l.head {
				back = append(back, inEdge{o.from, o.st})
			} else {
				exits = append(exits, o)
			}
		}
		changed := false
		if len(back) > 0 {
			bs := e.enter(fr, l.head, back)
			for _, in := range l.head.Instrs {
				p, isPhi := in.(*ssa.Phi)
				if !isPhi {
					break
				}
				if !modPhi[p] && !e.sameV(bs.env[p], start.env[p], bs.pc) {
					modPhi[p] = true
					changed = true
				}
			}
			for k, nm := range bs.base {
				old, had := start.base[k]
				if (!had && !strings.HasPrefix(k, "*") && !e.bornIn(k, fr)) || (had && old != nm) {
					if _, ok := modBase[k]; !ok {
						modBase[k] = "loop(" + tag + ")" + k
						changed = true
					}
				}
			}
			for obj, om := range bs.mem {
				if start.mem[obj] == om || e.bornIn(obj, fr) && start.mem[obj] == nil {
					continue
				}
				for path, v := range om.m {
					k := obj + path
					if modMem[k] {
						continue
					}
					sv, had := start.cells(obj)[path]
					if !had {
						if e.bornIn(obj, fr) {
							continue
						}
						sv = e.deflt(start, obj, path, e.cellT[k])
					}
					if !e.sameV(v, sv, bs.pc) {
						modMem[k] = true
						changed = true
					}
				}
			}
			for k, v := range bs.ghost {
				sv := start.ghost[k]
				if sv == nil {
					sv = e.intV(0, 64)
				}
				if !modGhost[k] && !e.sameV(v, sv, bs.pc) {
					modGhost[k] = true
					changed = true
				}
				if modGhost[k] && (changed || relGhost[k] == nil || !e.sameV(v, relGhost[k].value(e, bs), bs.pc)) {
					if changed {
						continue // decide about relations once everything else is stable
					}
					if relGhost[k] == nil && relTried[k+" none"] {
						continue
					}
					relGhost[k] = e.nextRel(k, st0, l, modPhi, modMem, modBase, relTried)
					if relGhost[k] == nil {
						relTried[k+" none"] = true
					}
					changed = true
				}
			}
		}
		if !changed {
			return exits
		}
	}
	panic(fmt.Sprintf("loop invariants of %s do not stabilise", fr.fn))
}

// ghostRel is a linear relation kept by a loop: ghost = c + sign * (a variable of the program).
type ghostRel struct {
	phi  *ssa.Phi
	cell string
	sign uint64
	c    *V
	w    int
	sg   bool
}

func (g *ghostRel) varOf(st *State) *V {
	if g.phi != nil {
		return st.env[g.phi]
	}
	return st.cell(g.cell)
}

func (g *ghostRel) value(e *Eng, st *State) *V {
	x := g.varOf(st)
	if x == nil {
		return e.symVal(e.freshName("norel"), types.Typ[types.Uint64])
	}
	return e.map2(g.c, x, st.pc, func(c, n *Node) *V {
		return e.v(e.addScaled(c, e.convInt(n, g.w, g.sg, 64), g.sign, 64))
	})
}

// nextRel proposes an untried relation between a ghost and a variable the loop changes.
func (e *Eng) nextRel(k string, st0 *State, l *loop, modPhi map[*ssa.Phi]bool, modMem map[string]bool, modBase map[string]string, tried map[string]bool) *ghostRel {
	g0 := st0.ghost[k]
	if g0 == nil {
		g0 = e.intV(0, 64)
	}
	try := func(id string, r *ghostRel) *ghostRel {
		for _, sign := range []uint64{1, ^uint64(0)} {
			key := fmt.Sprintf("%s %s %d", k, id, sign)
			if tried[key] {
				continue
			}
			tried[key] = true
			x := r.varOf(st0)
			if x == nil {
				continue
			}
			r.sign = sign
			r.c = e.map2(g0, x, st0.pc, func(g, n *Node) *V {
				return e.v(e.addScaled(g, e.convInt(n, r.w, r.sg, 64), -sign, 64))
			})
			return r
		}
		return nil
	}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if w, sg, isInt := intWidth(p.Type()); isInt && modPhi[p] && w >= 32 {
			if r := try(p.Name(), &ghostRel{phi: p, w: w, sg: sg}); r != nil {
				return r
			}
		}
	}
	var cells []string
	for c := range modMem {
		if _, has := modBase[c]; !has {
			cells = append(cells, c)
		}
	}
	sort.Strings(cells)
	for _, c := range cells {
		if t := e.cellT[c]; t != nil {
			if w, sg, isInt := intWidth(t); isInt && w >= 32 {
				if r := try(c, &ghostRel{cell: c, w: w, sg: sg}); r != nil {
					return r
				}
			}
		}
	}
	return nil
}

// bornIn: the object is allocated by the loop body itself.
func (e *Eng) bornIn(obj string, fr *frame) bool {
	return strings.Contains(obj, fr.path+fr.iter+"$")
}

// iterate runs one iteration; decided reports that some exit test was decided.
func (e *Eng) iterate(fr *frame, li *loopInfo, l *loop, st *State) ([]outEdge, bool) {
	in := map[*ssa.BasicBlock][]inEdge{l.head: {{nil, st}}}
	reached := map[*ssa.BasicBlock]bool{}
	outs := e.regionTrack(fr, li, l, in, reached)
	decided := false
	for b := range reached {
		if len(b.Succs) < 2 {
			continue
		}
		exitsLoop := false
		for _, s := range b.Succs {
			if !l.blocks[s] {
				exitsLoop = true
			}
		}
		if !exitsLoop {
			continue
		}
		taken := false
		for _, o := range outs {
			if o.from == b && !l.blocks[o.to] {
				taken = true
			}
		}
		if !taken {
			decided = true
		}
	}
	return outs, decided
}

func (e *Eng) regionTrack(fr *frame, li *loopInfo, l *loop, in map[*ssa.BasicBlock][]inEdge, reached map[*ssa.BasicBlock]bool) []outEdge {
	outs := e.region(fr, li, l, in)
	for b, es := range in {
		if len(es) > 0 {
			reached[b] = true
		}
	}
	return outs
}

// ---------------------------------------------------------------- instructions

func (e *Eng) val(st *State, fr *frame, v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return e.v(e.mk(Node{Op: "func", Fn: x}))
	case *ssa.Global:
		return e.v(e.globalPtr(st, x))
	case *ssa.Builtin:
		return e.v(e.strN("builtin " + x.Name()))
	}
	if r, ok := st.env[v]; ok {
		return e.under(r, st.pc)
	}
	return e.symVal("undef:"+v.Name(), v.Type())
}

func (e *Eng) globalPtr(st *State, g *ssa.Global) *Node {
	obj := "g:" + g.String() + "\x00"
	if _, ok := st.base[obj]; !ok && (e.Globals == nil || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), e.r.Module)) {
		st.base[obj] = "g:" + g.String()
	}
	return e.ptrN(obj, "")
}

func (e *Eng) site(fr *frame, in ssa.Instruction) string {
	return fmt.Sprintf("%s%s$%d.%d", fr.path, fr.iter, in.Block().Index, instrIndex(in))
}

func (e *Eng) block(fr *frame, b *ssa.BasicBlock, st *State) []outEdge {
	for i, in := range b.Instrs {
		e.steps++
		if e.steps > e.MaxStep {
			panic("analysis budget exceeded")
		}
		_ = i
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.b.And(e.toB(e.val(st, fr, x.Cond)), st.pc)
			nc := e.b.And(e.b.Not(e.toB(e.val(st, fr, x.Cond))), st.pc)
			if c == e.b.F {
				return []outEdge{{b, b.Succs[1], st}}
			}
			if nc == e.b.F {
				return []outEdge{{b, b.Succs[0], st}}
			}
			s2 := st.clone()
			st.pc = c
			s2.pc = nc
			return []outEdge{{b, b.Succs[0], st}, {b, b.Succs[1], s2}}
		case *ssa.Jump:
			return []outEdge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var vals []*V
			for _, r := range x.Results {
				vals = append(vals, e.val(st, fr, r))
			}
			st, vals = e.onReturn(fr, x, st, vals)
			if st != nil {
				fr.rets = append(fr.rets, retState{st, vals, x.Pos()})
			}
			return nil
		case *ssa.Panic:
			if e.OnPanic != nil {
				e.OnPanic(st, fr, x)
			}
			return nil
		case *ssa.Store:
			e.doStore(st, fr, x)
		case *ssa.RunDefers:
			for k := len(fr.defers) - 1; k >= 0; k-- {
				d := fr.defers[k]
				g := e.b.And(st.pc, d.g)
				if g == e.b.F {
					continue
				}
				if g == st.pc {
					st2 := e.callAny(st, fr, d.in, d.com, d.fval, d.args, nil)
					if st2 == nil {
						return nil
					}
					st = st2
					continue
				}
				other := st.clone()
				other.pc = e.b.And(st.pc, e.b.Not(d.g))
				st.pc = g
				st2 := e.callAny(st, fr, d.in, d.com, d.fval, d.args, nil)
				if st2 == nil {
					st = other
				} else {
					env := st2.env
					st = e.merge([]*State{st2, other})
					st.env = env
				}
			}
		case *ssa.Defer:
			fv, args := e.callArgs(st, fr, &x.Call)
			fr.defers = append(fr.defers, deferred{st.pc, &x.Call, x, args, fv})
		case *ssa.Call:
			fv, args := e.callArgs(st, fr, &x.Call)
			st = e.callAny(st, fr, x, &x.Call, fv, args, x)
			if st == nil {
				return nil
			}
		case *ssa.Go, *ssa.Send, *ssa.Select:
			e.Notes = append(e.Notes, fmt.Sprintf("concurrency instruction in %s", fr.fn))
		case *ssa.MapUpdate:
			if e.Concrete && e.mapUpdate(st, e.val(st, fr, x.Map), e.val(st, fr, x.Key), e.val(st, fr, x.Value)) {
				continue
			}
			e.event(st, fr, in, "mapupdate", nil, []*V{e.val(st, fr, x.Map), e.val(st, fr, x.Key), e.val(st, fr, x.Value)})
		case ssa.Value:
			if e.Concrete && e.traps(st, fr, x) {
				return nil
			}
			st.env[x] = e.instr(st, fr, x)
		}
	}
	return nil
}

// traps: the instruction certainly or possibly panics (constant shapes only); the state keeps the
// remaining cases, and true is returned when there are none.
func (e *Eng) traps(st *State, fr *frame, v ssa.Value) bool {
	bad := e.b.F
	inst := v.(ssa.Instruction)
	switch x := v.(type) {
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		var base, idx ssa.Value
		switch y := x.(type) {
		case *ssa.IndexAddr:
			base, idx = y.X, y.Index
		case *ssa.Index:
			base, idx = y.X, y.Index
		case *ssa.Lookup:
			if !isString(y.X.Type()) {
				return false
			}
			base, idx = y.X, y.Index
		}
		var ln *V
		t := base.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			ln = e.intV(uint64(a.Len()), 64)
		} else {
			ln = e.lenV(st, e.val(st, fr, base))
		}
		w, sg, _ := intWidth(idx.Type())
		for _, l := range ln.alts {
			for _, i := range e.val(st, fr, idx).alts {
				i64 := e.convInt(i.n, w, sg, 64)
				g := e.b.And(e.b.And(l.g, i.g), st.pc)
				if g == e.b.F {
					continue
				}
				if i64.Op == "int" && l.n.Op == "int" {
					if i64.C >= l.n.C {
						bad = e.b.Or(bad, g)
					}
					continue
				}
				bad = e.b.Or(bad, e.b.And(g, e.b.Not(e.ltInt(i64, l.n, 64, false))))
			}
		}
	case *ssa.FieldAddr:
		for _, a := range e.val(st, fr, x.X).alts {
			if a.n.Op == "nil" {
				bad = e.b.Or(bad, a.g)
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		for _, a := range e.val(st, fr, x.X).alts {
			if a.n.Op == "nil" {
				bad = e.b.Or(bad, a.g)
			}
		}
	case *ssa.BinOp:
		if x.Op != token.QUO && x.Op != token.REM {
			return false
		}
		if w, _, ok := intWidth(x.Y.Type()); ok {
			for _, a := range e.val(st, fr, x.Y).alts {
				bad = e.b.Or(bad, e.b.And(a.g, e.eqInt(a.n, e.intN(0, w), w)))
			}
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return false
		}
		var ln *V
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ln = e.intV(uint64(p.Elem().Underlying().(*types.Array).Len()), 64)
		} else {
			ln = e.lenV(st, e.val(st, fr, x.X))
		}
		if _, isSlice := x.X.Type().Underlying().(*types.Slice); isSlice && x.High != nil {
			ln = nil // up to the capacity, which is not tracked
		}
		lo, hi := e.intV(0, 64), ln
		if x.Low != nil {
			lo = e.val(st, fr, x.Low)
		}
		if x.High != nil {
			hi = e.val(st, fr, x.High)
		}
		over := func(a, b *V) {
			for _, p := range a.alts {
				for _, q := range b.alts {
					g := e.b.And(e.b.And(p.g, q.g), st.pc)
					if g != e.b.F {
						bad = e.b.Or(bad, e.b.And(g, e.ltInt(q.n, p.n, 64, false)))
					}
				}
			}
		}
		over(lo, hi)
		if ln != nil && x.High != nil {
			over(hi, ln)
		}
		if ln == nil && e.Concrete {
			for _, a := range e.val(st, fr, x.X).alts {
				if a.n.Op != "slice" || len(a.n.Args) != 1 {
					continue
				}
				c := st.ghost["cap:"+a.n.Args[0].Name]
				if c == nil || e.b.And(a.g, st.pc) == e.b.F {
					continue
				}
				for _, q := range c.alts {
					for _, h := range hi.alts {
						if g := e.b.And(e.b.And(a.g, q.g), e.b.And(h.g, st.pc)); g != e.b.F {
							bad = e.b.Or(bad, e.b.And(g, e.ltInt(e.sub(q.n, e.intN(a.n.C, 64), 64), h.n, 64, false)))
						}
					}
				}
			}
		}
	default:
		return false
	}
	bad = e.b.And(bad, st.pc)
	if bad == e.b.F {
		return false
	}
	if e.OnPanic != nil {
		s := st.clone()
		s.pc = bad
		e.OnPanic(s, fr, inst)
	}
	st.pc = e.b.And(st.pc, e.b.Not(bad))
	return st.pc == e.b.F
}

// onReturn drops failing returns in success mode.
func (e *Eng) onReturn(fr *frame, ret *ssa.Return, st *State, vals []*V) (*State, []*V) {
	if !e.Success {
		return st, vals
	}
	ei := errIndex(fr.fn.Signature)
	if ei < 0 {
		return st, vals
	}
	bad := e.b.F
	for _, a := range vals[ei].alts {
		if e.isNonNilErr(a.n) {
			bad = e.b.Or(bad, a.g)
		}
	}
	pc := e.b.And(st.pc, e.b.Not(bad))
	if pc == e.b.F {
		return nil, nil
	}
	st.pc = pc
	vals[ei] = e.v(e.nilN(nil))
	for i := range vals {
		vals[i] = e.under(vals[i], pc)
	}
	return st, vals
}

func (e *Eng) isNonNilErr(n *Node) bool {
	if n.Op == "iface" {
		return true
	}
	if n.Op == "sym" && (strings.HasPrefix(n.Name, "g:") || strings.HasPrefix(n.Name, "newerr:")) {
		return true
	}
	return false
}

func (e *Eng) doStore(st *State, fr *frame, x *ssa.Store) {
	addr := e.val(st, fr, x.Addr)
	v := e.val(st, fr, x.Val)
	t := x.Val.Type()
	for _, a := range addr.alts {
		p := e.ptrOf(st, a.n)
		if e.OnStore != nil {
			e.OnStore(st, p, fr, e.load(st, p, t), v)
		}
		e.store(st, p, t, v, e.b.Restrict(a.g, st.pc))
	}
}

func (e *Eng) idxPath(n *Node) string {
	if n.Op == "int" {
		return fmt.Sprintf("[%d]", int64(n.C))
	}
	return fmt.Sprintf("[#%d:%s]", n.id, strings.NewReplacer(".", "_", "[", "(", "]", ")", "*", "^", "\x00", "").Replace(n.String()))
}

func (e *Eng) instr(st *State, fr *frame, v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Alloc:
		obj := "a:" + e.site(fr, x) + "\x00"
		st.dropAll(obj)
		return e.v(e.ptrN(obj, ""))
	case *ssa.FieldAddr:
		f := deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field)
		return e.map1(e.val(st, fr, x.X), st.pc, func(n *Node) *V {
			p := e.ptrOf(st, n)
			return e.v(e.ptrN(p.Name, p.Path+"."+f.Name()))
		})
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		return e.map1(e.val(st, fr, x.X), st.pc, func(n *Node) *V { return e.elem(st, n, x.Field, f.Name(), f.Type()) })
	case *ssa.IndexAddr:
		idx := e.val(st, fr, x.Index)
		base := e.val(st, fr, x.X)
		_, isPtr := x.X.Type().Underlying().(*types.Pointer)
		return e.map2(base, idx, st.pc, func(n, i *Node) *V {
			if isPtr {
				p := e.ptrOf(st, n)
				return e.v(e.ptrN(p.Name, p.Path+e.idxPath(i)))
			}
			return e.v(e.sliceElem(st, n, i))
		})
	case *ssa.Index:
		idx := e.val(st, fr, x.Index)
		return e.map2(e.val(st, fr, x.X), idx, st.pc, func(n, i *Node) *V {
			if n.Op == "array" && i.Op == "int" && i.C < uint64(len(n.Elems)) {
				return n.Elems[i.C]
			}
			if n.Op == "str" && i.Op == "int" && i.C < uint64(len(n.Name)) {
				return e.intV(uint64(n.Name[i.C]), 8)
			}
			if n.Op == "bstr" && i.Op == "int" && i.C < uint64(len(n.Elems)) {
				return n.Elems[i.C]
			}
			w, _, _ := intWidth(x.Index.Type())
			if n.Op == "str" && isIntNode(i) && len(n.Name) <= 256 {
				return e.v(e.tableAt(n.Name, i, w))
			}
			if n.Op == "array" && e.Concrete && isIntNode(i) && len(n.Elems) > 0 && len(n.Elems) <= 256 {
				r := n.Elems[0]
				for j := 1; j < len(n.Elems); j++ {
					r = e.ite(e.b.Restrict(e.eqInt(i, e.intN(uint64(j), 64), w), st.pc), n.Elems[j], r, st.pc)
				}
				return r
			}
			return e.symVal(n.String()+e.idxPath(i), x.Type())
		})
	case *ssa.Slice:
		return e.slice(st, fr, x)
	case *ssa.MakeSlice:
		obj := "a:" + e.site(fr, x) + "\x00"
		st.dropAll(obj)
		ln := e.val(st, fr, x.Len)
		if e.OnMake != nil {
			e.OnMake(st, fr, ln, x.Type().Underlying().(*types.Slice).Elem())
			e.OnMake(st, fr, e.val(st, fr, x.Cap), x.Type().Underlying().(*types.Slice).Elem())
		}
		if e.Concrete {
			st.ghost["cap:"+obj] = e.val(st, fr, x.Cap)
		}
		return e.v(e.mk(Node{Op: "slice", Args: []*Node{e.ptrN(obj, "")}, Elems: []*V{ln}, T: x.Type()}))
	case *ssa.MakeMap:
		if e.Concrete {
			obj := "m:" + e.site(fr, x) + "\x00"
			st.dropAll(obj)
			return e.v(e.mk(Node{Op: "mapref", Args: []*Node{e.ptrN(obj, "")}}))
		}
		return e.v(e.mk(Node{Op: "sym", Name: "map:" + e.site(fr, x), T: x.Type()}))
	case *ssa.MakeChan:
		return e.v(e.mk(Node{Op: "sym", Name: "chan:" + e.site(fr, x), T: x.Type()}))
	case *ssa.MakeClosure:
		n := Node{Op: "closure", Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			n.Elems = append(n.Elems, e.val(st, fr, b))
		}
		return e.v(e.mk(n))
	case *ssa.MakeInterface:
		return e.v(e.mk(Node{Op: "iface", T: x.X.Type(), Elems: []*V{e.val(st, fr, x.X)}}))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var op ssa.Value
		if c, ok := x.(*ssa.ChangeInterface); ok {
			op = c.X
		} else {
			op = x.(*ssa.ChangeType).X
		}
		return e.val(st, fr, op)
	case *ssa.Convert:
		return e.convert(st, fr, x)
	case *ssa.MultiConvert:
		return e.symVal("conv:"+e.val(st, fr, x.X).String(), x.Type())
	case *ssa.SliceToArrayPointer:
		return e.map1(e.val(st, fr, x.X), st.pc, func(n *Node) *V {
			if n.Op == "slice" && n.C == 0 {
				return e.v(n.Args[0])
			}
			return e.symVal("s2a:"+n.String(), x.Type())
		})
	case *ssa.TypeAssert:
		return e.typeAssert(st, fr, x)
	case *ssa.Extract:
		tt := x.Tuple.Type().(*types.Tuple).At(x.Index)
		return e.map1(e.val(st, fr, x.Tuple), st.pc, func(n *Node) *V { return e.elem(st, n, x.Index, fmt.Sprintf("#%d", x.Index), tt.Type()) })
	case *ssa.Lookup:
		m, k := e.val(st, fr, x.X), e.val(st, fr, x.Index)
		if isString(x.X.Type()) {
			return e.map2(m, k, st.pc, func(n, i *Node) *V {
				if n.Op == "str" && i.Op == "int" && i.C < uint64(len(n.Name)) {
					return e.intV(uint64(n.Name[i.C]), 8)
				}
				if n.Op == "bstr" && i.Op == "int" && i.C < uint64(len(n.Elems)) {
					return n.Elems[i.C]
				}
				if n.Op == "str" && isIntNode(i) && len(n.Name) <= 256 {
					w, _, _ := intWidth(x.Index.Type())
					return e.v(e.tableAt(n.Name, i, w))
				}
				return e.symVal(n.String()+e.idxPath(i), x.Type())
			})
		}
		if e.Concrete {
			if v := e.mapLookup(st, m, k, x); v != nil {
				return v
			}
		}
		if e.OnCall != nil {
			if v, ok := e.OnCall(&CallCtx{e, st, fr, x, nil, "lookup", nil, []*V{m, k}}); ok {
				return v
			}
		}
		return e.event(st, fr, x, "lookup", nil, []*V{m, k})
	case *ssa.Range:
		if e.Concrete {
			if v := e.rangeOver(st, fr, x); v != nil {
				return v
			}
		}
		return e.v(e.mk(Node{Op: "sym", Name: "iter:" + e.site(fr, x), T: x.Type()}))
	case *ssa.Next:
		if e.Concrete {
			if v := e.rangeNext(st, x, e.val(st, fr, x.Iter)); v != nil {
				return v
			}
		}
		return e.symVal("next:"+e.site(fr, x), x.Type())
	case *ssa.UnOp:
		return e.unop(st, fr, x)
	case *ssa.BinOp:
		return e.binop(st, fr, x)
	}
	return e.symVal("opaque:"+e.site(fr, v.(ssa.Instruction)), v.Type())
}

// tableAt is the byte of a constant table at an unknown place (the place is within the table).
func (e *Eng) tableAt(tab string, i *Node, w int) *Node {
	bits := make([]*B, 8)
	for b := range bits {
		bits[b] = e.b.F
	}
	for j := 0; j < len(tab); j++ {
		g := e.eqInt(i, e.intN(uint64(j), 64), w)
		if g == e.b.F {
			continue
		}
		for b := range bits {
			if tab[j]>>uint(b)&1 != 0 {
				bits[b] = e.b.Or(bits[b], g)
			}
		}
	}
	return e.bvN(bits)
}

// sliceElem is the address of element i of slice leaf n.
func (e *Eng) sliceElem(st *State, n, i *Node) *Node {
	switch n.Op {
	case "slice":
		p := n.Args[0]
		return e.ptrN(p.Name, p.Path+e.idxPath(e.add(i, e.intN(n.C, 64), 64)))
	case "reslice":
		return e.sliceElem(st, n.Args[0], e.add(i, n.Args[1], 64))
	case "append":
		ln := e.lenOf(n.Args[0])
		d := e.sub(i, ln, 64)
		if d.Op == "int" && d.C < uint64(len(n.Elems)) {
			obj := fmt.Sprintf("a:append%d\x00", n.id)
			k := fmt.Sprintf("[%d]", d.C)
			if !hasElem(st.cells(obj), k) {
				st.own(obj)[k] = n.Elems[d.C]
				if sl, ok := n.T.Underlying().(*types.Slice); ok {
					e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", d.C)), sl.Elem(), n.Elems[d.C], e.b.T)
					if _, agg := sl.Elem().Underlying().(*types.Struct); agg {
						delete(st.own(obj), k)
					}
				}
			}
			return e.ptrN(obj, fmt.Sprintf("[%d]", d.C))
		}
		if i.Op == "int" && ln.Op == "int" && i.C < ln.C {
			return e.sliceElem(st, n.Args[0], i)
		}
	}
	obj := "*elems(" + n.String() + ")\x00"
	if _, ok := st.base[obj]; !ok {
		st.base[obj] = "elem(" + n.String() + ")"
	}
	return e.ptrN(obj, e.idxPath(i))
}

// hasElem: the element was written before, as a whole or in parts.
func hasElem(m map[string]*V, k string) bool {
	if _, ok := m[k]; ok {
		return true
	}
	for p := range m {
		if strings.HasPrefix(p, k) && strings.ContainsRune(".[", rune(p[len(k)])) {
			return true
		}
	}
	return false
}

func (e *Eng) lenOf(n *Node) *Node {
	switch n.Op {
	case "slice":
		if s := n.Elems[0].single(); s != nil {
			return s
		}
		return e.mk(Node{Op: "len", W: 64, Args: []*Node{n}})
	case "append":
		return e.add(e.lenOf(n.Args[0]), e.intN(uint64(len(n.Elems)), 64), 64)
	case "concat":
		return e.add(e.lenOf(n.Args[0]), e.lenOf(n.Args[1]), 64)
	case "reslice":
		return e.sub(n.Args[2], n.Args[1], 64)
	case "str":
		return e.intN(uint64(len(n.Name)), 64)
	case "nil":
		return e.intN(0, 64)
	case "array":
		return e.intN(uint64(len(n.Elems)), 64)
	case "bstr", "blist":
		return e.intN(uint64(len(n.Elems)), 64)
	case "bytes", "string":
		return e.lenOf(n.Args[0])
	}
	return e.mk(Node{Op: "len", W: 64, Args: []*Node{n}})
}

func (e *Eng) lenV(st *State, v *V) *V {
	return e.map1(v, st.pc, func(n *Node) *V {
		if n.Op == "slice" {
			return n.Elems[0]
		}
		return e.v(e.lenOf(n))
	})
}

func (e *Eng) slice(st *State, fr *frame, x *ssa.Slice) *V {
	base := e.val(st, fr, x.X)
	lo := e.intV(0, 64)
	if x.Low != nil {
		lo = e.val(st, fr, x.Low)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		ln := uint64(pt.Elem().Underlying().(*types.Array).Len())
		hi := e.intV(ln, 64)
		if x.High != nil {
			hi = e.val(st, fr, x.High)
		}
		return e.map1(base, st.pc, func(n *Node) *V {
			p := e.ptrOf(st, n)
			return e.map2(lo, hi, st.pc, func(l, h *Node) *V {
				s := e.mk(Node{Op: "slice", Args: []*Node{p}, Elems: []*V{e.intV(ln, 64)}, T: x.Type()})
				return e.v(e.reslice(s, l, h))
			})
		})
	}
	hi := e.lenV(st, base)
	if x.High != nil {
		hi = e.val(st, fr, x.High)
	}
	lo, hi = e.ints(lo, st.pc), e.ints(hi, st.pc)
	return e.map1(base, st.pc, func(n *Node) *V {
		return e.map2(lo, hi, st.pc, func(l, h *Node) *V {
			if n.Op == "str" && l.Op == "int" && h.Op == "int" && h.C <= uint64(len(n.Name)) && l.C <= h.C {
				return e.v(e.strN(n.Name[l.C:h.C]))
			}
			if n.Op == "bstr" && l.Op == "int" && h.Op == "int" && h.C <= uint64(len(n.Elems)) && l.C <= h.C {
				return e.bstr(n.Elems[l.C:h.C])
			}
			return e.v(e.reslice(n, l, h))
		})
	})
}

// intAlts lists the integers a value may be, without joining them again.
func (e *Eng) intAlts(v *V, pc *B) *V {
	var out []alt
	idx := map[*Node]int{}
	for _, a := range e.ints(v, pc).alts {
		if e.b.And(a.g, pc) == e.b.F {
			continue
		}
		if i, ok := idx[a.n]; ok {
			out[i].g = e.b.Or(out[i].g, a.g)
			continue
		}
		idx[a.n] = len(out)
		out = append(out, a)
	}
	return &V{out}
}

// ints splits an integer into its possible values, if there are few.
func (e *Eng) ints(v *V, pc *B) *V {
	if !e.Concrete || pc == e.b.F {
		return v
	}
	v = e.under(v, pc)
	var out []alt
	some := false
	for _, a := range v.alts {
		n := a.n
		if n.Op == "int" || !isIntNode(n) || n.Op == "len" || n.Op == "cap" || n.W <= 0 || n.W > 64 {
			out = append(out, a)
			continue
		}
		type part struct {
			g *B
			c uint64
		}
		parts := []part{{e.b.And(pc, a.g), 0}}
		bits := e.bitsOf(n, n.W)
		limit := 64
		if e.WideLt {
			limit = e.WideMax
		}
		for i := len(bits) - 1; i >= 0 && len(parts) <= limit; i-- {
			var next []part
			for _, p := range parts {
				if g := e.b.And(p.g, e.b.Not(bits[i])); g != e.b.F {
					next = append(next, part{g, p.c})
				}
				if g := e.b.And(p.g, bits[i]); g != e.b.F {
					next = append(next, part{g, p.c | 1<<uint(i)})
				}
			}
			parts = next
		}
		if len(parts) > limit {
			out = append(out, a)
			continue
		}
		some = true
		for _, p := range parts {
			out = append(out, alt{e.b.Restrict(p.g, pc), e.intN(p.c, n.W)})
		}
	}
	if !some {
		return v
	}
	return &V{out}
}

func (e *Eng) reslice(n, l, h *Node) *Node {
	if l.Op == "int" && l.C == 0 && h == e.lenOf(n) {
		return n
	}
	if n.Op == "slice" && l.Op == "int" {
		return e.mk(Node{Op: "slice", Args: n.Args, C: n.C + l.C, Elems: []*V{e.v(e.sub(h, l, 64))}, T: n.T})
	}
	if n.Op == "append" && l.Op == "int" && l.C == 0 {
		d := e.sub(h, e.lenOf(n.Args[0]), 64)
		if d.Op == "int" && d.C == 0 {
			return n.Args[0]
		}
	}
	if n.Op == "reslice" {
		return e.reslice(n.Args[0], e.add(l, n.Args[1], 64), e.add(h, n.Args[1], 64))
	}
	return e.mk(Node{Op: "reslice", Args: []*Node{n, l, h}, T: n.T})
}

func (e *Eng) convert(st *State, fr *frame, x *ssa.Convert) *V {
	v := e.val(st, fr, x.X)
	fw, fs, ok1 := intWidth(x.X.Type())
	tw, _, ok2 := intWidth(x.Type())
	return e.map1(v, st.pc, func(n *Node) *V {
		switch {
		case ok1 && ok2:
			return e.v(e.convInt(n, fw, fs, tw))
		case isString(x.Type()) && isString(x.X.Type()):
			return e.v(n)
		case isString(x.Type()) && e.Concrete && ok1:
			if v := e.runeStr(n, fw, fs); v != nil {
				return v
			}
			return e.v(e.mk(Node{Op: "string", Args: []*Node{n}}))
		case isString(x.Type()) && e.Concrete && n.Op != "bytes":
			if bs, ok := e.bytesOf(st, n); ok {
				return e.bstr(bs)
			}
			return e.v(e.mk(Node{Op: "string", Args: []*Node{n}}))
		case isString(x.Type()):
			if n.Op == "bytes" {
				return e.v(n.Args[0])
			}
			if n.Op == "slice" {
				if ln := n.Elems[0].single(); ln != nil && ln.Op == "int" && ln.C <= 64 {
					m := Node{Op: "string", C: ln.C}
					for i := uint64(0); i < ln.C; i++ {
						m.Elems = append(m.Elems, e.load(st, e.sliceElem(st, n, e.intN(i, 64)), types.Typ[types.Uint8]))
					}
					m.Args = []*Node{n}
					return e.v(e.mk(m))
				}
			}
			return e.v(e.mk(Node{Op: "string", Args: []*Node{n}}))
		case isString(x.X.Type()) && e.Concrete && (n.Op == "bstr" || n.Op == "str"):
			bs, _ := e.bytesOf(st, n)
			obj := "a:" + e.site(fr, x) + "\x00"
			st.dropAll(obj)
			return e.v(e.bytesSlice(st, obj, bs, x.Type()))
		case isString(x.X.Type()):
			if n.Op == "str" && len(n.Name) <= 64 {
				obj := "a:" + e.site(fr, x) + "\x00"
				for i := 0; i < len(n.Name); i++ {
					e.store(st, e.ptrN(obj, fmt.Sprintf("[%d]", i)), types.Typ[types.Uint8], e.intV(uint64(n.Name[i]), 8), e.b.T)
				}
				return e.v(e.mk(Node{Op: "slice", Args: []*Node{e.ptrN(obj, "")}, Elems: []*V{e.intV(uint64(len(n.Name)), 64)}, T: x.Type()}))
			}
			return e.v(e.mk(Node{Op: "bytes", Args: []*Node{n}, T: x.Type()}))
		}
		cv := Node{Op: "conv", Name: types.TypeString(x.Type(), nil), Args: []*Node{n}, W: tw}
		if fw, signed, ok := intWidth(x.X.Type()); ok { // from an integer: its width and signedness
			cv.C = uint64(fw)
			if signed {
				cv.C |= 1 << 16
			}
		}
		return e.v(e.mk(cv))
	})
}

// runeStr: a code point below 0x800 as the bytes of its UTF-8 form.
func (e *Eng) runeStr(n *Node, w int, signed bool) *V {
	if n.Op == "int" {
		c := int64(n.C)
		if signed && w < 64 {
			c = c << uint(64-w) >> uint(64-w)
		}
		if c < 0 || c > 0x10ffff {
			c = 0xfffd
		}
		return e.v(e.strN(string(rune(c))))
	}
	bits := e.bitsOf(n, w)
	for i := 11; i < len(bits); i++ {
		if bits[i] != e.b.F {
			return nil
		}
	}
	at := func(i int) *B {
		if i < len(bits) {
			return bits[i]
		}
		return e.b.F
	}
	big := e.b.F
	one, hi, lo := make([]*B, 8), make([]*B, 8), make([]*B, 8)
	for i := 0; i < 8; i++ {
		one[i], hi[i], lo[i] = e.b.F, e.b.F, e.b.F
	}
	for i := 7; i < 11; i++ {
		big = e.b.Or(big, at(i))
	}
	for i := 0; i < 7; i++ {
		one[i] = at(i)
	}
	for i := 0; i < 6; i++ {
		lo[i] = at(i)
	}
	for i := 0; i < 5; i++ {
		hi[i] = at(6 + i)
	}
	lo[7], hi[6], hi[7] = e.b.T, e.b.T, e.b.T
	short := e.bstr([]*V{e.v(e.bvN(one))})
	if big == e.b.F {
		return short
	}
	return e.ite(big, e.bstr([]*V{e.v(e.bvN(hi)), e.v(e.bvN(lo))}), short, e.b.T)
}

func (e *Eng) typeAssert(st *State, fr *frame, x *ssa.TypeAssert) *V {
	v := e.val(st, fr, x.X)
	return e.map1(v, st.pc, func(n *Node) *V {
		var val *V
		ok := e.b.T
		_, toIface := x.AssertedType.Underlying().(*types.Interface)
		switch {
		case n.Op == "nil":
			val, ok = e.zeroVal(x.AssertedType), e.b.F
		case n.Op == "iface" && toIface:
			ok = e.b.Bool(types.Implements(n.T, x.AssertedType.Underlying().(*types.Interface)))
			val = e.v(n)
		case n.Op == "iface":
			ok = e.b.Bool(types.Identical(n.T, x.AssertedType))
			val = n.Elems[0]
			if ok == e.b.F {
				val = e.zeroVal(x.AssertedType)
			}
		default:
			nm := fmt.Sprintf("%s.(%s)", n, types.TypeString(x.AssertedType, func(p *types.Package) string { return p.Name() }))
			if toIface {
				val = e.v(n)
			} else {
				val = e.symVal(nm, x.AssertedType)
			}
			if x.CommaOk {
				ok = e.b.Var("ok:" + nm)
			}
		}
		if x.CommaOk {
			return e.v(e.mk(Node{Op: "tuple", Elems: []*V{val, e.boolV(ok)}}))
		}
		return val
	})
}

func (e *Eng) unop(st *State, fr *frame, x *ssa.UnOp) *V {
	v := e.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
			return e.v(e.mk(Node{Op: "sym", Name: "g:" + g.String(), T: x.Type()}))
		}
		return e.map1(v, st.pc, func(n *Node) *V { return e.load(st, e.ptrOf(st, n), x.Type()) })
	case token.NOT:
		return e.boolV(e.b.Not(e.toB(v)))
	case token.SUB:
		if w, _, ok := intWidth(x.Type()); ok {
			return e.map1(v, st.pc, func(n *Node) *V { return e.v(e.sub(e.intN(0, w), n, w)) })
		}
	case token.XOR:
		if w, _, ok := intWidth(x.Type()); ok {
			return e.map1(v, st.pc, func(n *Node) *V { return e.v(e.bit2("xor", n, e.intN(mask(w), w), w)) })
		}
	}
	if x.CommaOk {
		return e.symVal("recv:"+e.site(fr, x), x.Type())
	}
	return e.map1(v, st.pc, func(n *Node) *V {
		return e.v(e.mk(Node{Op: "unop", Name: x.Op.String(), Args: []*Node{n}, T: x.Type()}))
	})
}

func (e *Eng) binop(st *State, fr *frame, x *ssa.BinOp) *V {
	a, b := e.val(st, fr, x.X), e.val(st, fr, x.Y)
	t := x.X.Type()
	w, signed, isInt := intWidth(t)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		c := e.b.F
		for _, p := range a.alts {
			for _, q := range b.alts {
				g := e.b.And(p.g, q.g)
				if e.b.And(g, st.pc) == e.b.F {
					continue
				}
				c = e.b.Or(c, e.b.And(g, e.cmp(st, x.Op, p.n, q.n, t, w, signed, isInt)))
			}
		}
		return e.boolV(e.b.Restrict(c, st.pc))
	}
	if isInt {
		if e.WideLt && x.Op == token.ADD && w == 64 {
			a, b = e.ints(a, st.pc), e.ints(b, st.pc)
		}
		return e.map2(a, b, st.pc, func(p, q *Node) *V {
			switch x.Op {
			case token.ADD:
				return e.v(e.add(p, q, w))
			case token.SUB:
				return e.v(e.sub(p, q, w))
			case token.MUL:
				return e.v(e.mul(p, q, w))
			case token.QUO:
				return e.v(e.divrem("div", p, q, w, signed))
			case token.REM:
				return e.v(e.divrem("rem", p, q, w, signed))
			case token.AND:
				return e.v(e.bit2("and", p, q, w))
			case token.OR:
				return e.v(e.bit2("or", p, q, w))
			case token.XOR:
				return e.v(e.bit2("xor", p, q, w))
			case token.AND_NOT:
				return e.v(e.bit2("andnot", p, q, w))
			case token.SHL:
				return e.v(e.shift("shl", p, q, w))
			case token.SHR:
				if signed {
					return e.v(e.shift("ashr", p, q, w))
				}
				return e.v(e.shift("lshr", p, q, w))
			}
			return e.symVal("opaque:"+e.site(fr, x), x.Type())
		})
	}
	if isBool(t) {
		switch x.Op {
		case token.AND:
			return e.boolV(e.b.And(e.toB(a), e.toB(b)))
		case token.OR:
			return e.boolV(e.b.Or(e.toB(a), e.toB(b)))
		}
	}
	return e.map2(a, b, st.pc, func(p, q *Node) *V {
		if p.Op == "str" && q.Op == "str" && x.Op == token.ADD {
			return e.v(e.strN(p.Name + q.Name))
		}
		if (p.Op == "str" || p.Op == "bstr") && (q.Op == "str" || q.Op == "bstr") && x.Op == token.ADD {
			a, _ := e.bytesOf(st, p)
			b, _ := e.bytesOf(st, q)
			return e.bstr(append(append([]*V{}, a...), b...))
		}
		return e.v(e.mk(Node{Op: "binop", Name: x.Op.String() + " " + types.TypeString(x.Type(), nil), Args: []*Node{p, q}, T: x.Type()}))
	})
}

func (e *Eng) cmp(st *State, op token.Token, p, q *Node, t types.Type, w int, signed, isInt bool) *B {
	switch op {
	case token.NEQ:
		return e.b.Not(e.cmp(st, token.EQL, p, q, t, w, signed, isInt))
	case token.GTR:
		return e.cmp(st, token.LSS, q, p, t, w, signed, isInt)
	case token.LEQ:
		return e.b.Not(e.cmp(st, token.LSS, q, p, t, w, signed, isInt))
	case token.GEQ:
		return e.b.Not(e.cmp(st, token.LSS, p, q, t, w, signed, isInt))
	case token.EQL:
		if isInt {
			return e.eqInt(p, q, w)
		}
		if isBool(t) {
			return e.b.Eq(e.nodeB(p), e.nodeB(q))
		}
		if p == q && p.Op != "float" {
			return e.b.T
		}
		if e.Concrete {
			if c := e.cmpConcrete(st, p, q); c != nil {
				return c
			}
		}
		if p.Op == "str" && q.Op == "str" {
			return e.b.Bool(p.Name == q.Name)
		}
		if s, str := p, q; (s.Op == "str" || str.Op == "str") && (s.Op == "string" || str.Op == "string") {
			if s.Op != "str" {
				s, str = str, s
			}
			if len(str.Elems) > 0 {
				r := e.b.Bool(len(str.Elems) == len(s.Name))
				for i := 0; i < len(s.Name) && r != e.b.F; i++ {
					c := e.b.F
					for _, x := range str.Elems[i].alts {
						c = e.b.Or(c, e.b.And(x.g, e.eqInt(x.n, e.intN(uint64(s.Name[i]), 8), 8)))
					}
					r = e.b.And(r, c)
				}
				return r
			}
		}
		if (p.Op == "str" && p.Name == "") || (q.Op == "str" && q.Name == "") {
			o := p
			if p.Op == "str" && p.Name == "" {
				o = q
			}
			return e.eqInt(e.lenOf(o), e.intN(0, 64), 64)
		}
		if p.Op == q.Op && (p.Op == "struct" || p.Op == "array") && len(p.Elems) == len(q.Elems) {
			r := e.b.T
			for i := range p.Elems {
				et := elemType(t, i)
				ew, es, ei := intWidth(et)
				c := e.b.F
				for _, x := range p.Elems[i].alts {
					for _, y := range q.Elems[i].alts {
						c = e.b.Or(c, e.b.And(e.b.And(x.g, y.g), e.cmp(st, token.EQL, x.n, y.n, et, ew, es, ei)))
					}
				}
				r = e.b.And(r, c)
			}
			return r
		}
		if p.Op == "nil" || q.Op == "nil" {
			o := p
			if p.Op == "nil" {
				o = q
			}
			switch o.Op {
			case "nil":
				return e.b.T
			case "ptr", "iface", "closure", "func", "append":
				return e.b.F
			case "slice":
				return e.b.F
			}
			if e.isNonNilErr(o) {
				return e.b.F
			}
			return e.b.Var("nil(" + o.String() + fmt.Sprintf(")#%d", o.id))
		}
		if p.Op == "iface" && q.Op == "iface" && !types.Identical(p.T, q.T) {
			return e.b.F
		}
		if p.Op == "ptr" && q.Op == "ptr" && strings.HasPrefix(p.Name, "a:") && strings.HasPrefix(q.Name, "a:") && p.Name != q.Name {
			return e.b.F
		}
		if p.id > q.id {
			p, q = q, p
		}
		return e.b.Var(fmt.Sprintf("%s == %s #%d,%d", p, q, p.id, q.id))
	case token.LSS:
		if isInt {
			return e.ltInt(p, q, w, signed)
		}
		return e.b.Var(fmt.Sprintf("%s < %s #%d,%d", p, q, p.id, q.id))
	}
	return e.b.Var(e.freshName("cmp"))
}

func elemType(t types.Type, i int) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Struct:
		return u.Field(i).Type()
	case *types.Slice:
		return u.Elem()
	}
	return t
}
