package main

// Effects: which memory a call may write, by where the pointer it writes through came from.
//
// Every value that can hold a pointer carries a set of origins. An origin is given to what is read through a
// package-level variable (oGlobal), to the parameters under scrutiny (oParam) and to what a sync.Pool hands out
// (oPool); it follows the value through copies, fields, elements, closures, interfaces, reflection and calls.
// Memory the program allocates itself is remembered by kind (type and field, element type, cell), so that what
// was stored there is found again on every load of that kind.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type origin uint8

const (
	oGlobal origin = 1 << iota
	oParam
	oPool
)

func (o origin) String() string {
	var s []string
	if o&oGlobal != 0 {
		s = append(s, "package-level memory")
	}
	if o&oParam != 0 {
		s = append(s, "the argument")
	}
	if o&oPool != 0 {
		s = append(s, "pooled memory")
	}
	return strings.Join(s, " and ")
}

type effWrite struct {
	Fn   *ssa.Function
	In   ssa.Instruction
	To   origin // memory written to
	Val  origin // origins of the value written, for stores of pointers
	What string
}

type effects struct {
	r       *Repo
	vals    map[ssa.Value]origin
	tup     map[ssa.Value][]origin // tuples by component
	rets    map[*ssa.Function][]origin
	heap    map[string]origin
	fns     map[*ssa.Function]bool
	order   []*ssa.Function
	callers map[*ssa.Function][]*ssa.Function
	writes  map[ssa.Instruction]*effWrite
	changed bool
	ptrs    map[types.Type]bool
	stop    func(*ssa.Function) bool // not followed
	unknown map[ssa.Instruction]string
	taken   map[*ssa.Function]bool
}

func newEffects(r *Repo) *effects {
	return &effects{r: r, vals: map[ssa.Value]origin{}, tup: map[ssa.Value][]origin{}, rets: map[*ssa.Function][]origin{},
		heap: map[string]origin{}, fns: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]*ssa.Function{},
		writes: map[ssa.Instruction]*effWrite{}, ptrs: map[types.Type]bool{}, unknown: map[ssa.Instruction]string{}}
}

// holds: whether values of the type give access to memory that can be written.
func (ef *effects) holds(t types.Type) bool {
	if b, ok := ef.ptrs[t]; ok {
		return b
	}
	ef.ptrs[t] = false
	b := ef.holds1(t)
	ef.ptrs[t] = b
	return b
}

func (ef *effects) holds1(t types.Type) bool {
	if isErrorType(t) || isNamed(t, "reflect", "Type") || isNamed(t, "reflect", "StructField") || isNamed(t, "reflect", "StructTag") {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return false // made for sharing
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		return !isSyncType(u.Elem())
	case *types.Signature:
		return false // what a closure captures is followed directly
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ef.holds(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return ef.holds(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if ef.holds(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true // slices, maps, channels, interfaces
}

func isSyncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func (ef *effects) get(v ssa.Value) origin {
	switch x := v.(type) {
	case *ssa.Global:
		if isSyncType(deref(x.Type())) {
			return 0
		}
		return oGlobal
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return 0
	}
	return ef.vals[v]
}

func (ef *effects) add(v ssa.Value, o origin) {
	if o == 0 {
		return
	}
	if _, addr := v.(*ssa.FreeVar); !addr && !ef.holds(v.Type()) {
		return
	}
	if ef.vals[v]|o != ef.vals[v] {
		ef.vals[v] |= o
		ef.changed = true
	}
}

func (ef *effects) addHeap(k string, o origin) {
	if o != 0 && ef.heap[k]|o != ef.heap[k] {
		ef.heap[k] |= o
		ef.changed = true
	}
}

// seed gives a parameter an origin.
func (ef *effects) seed(p *ssa.Parameter, o origin) {
	ef.add(p, o)
}

func (ef *effects) enter(from, fn *ssa.Function) {
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	if !ef.fns[fn] {
		ef.fns[fn] = true
		ef.order = append(ef.order, fn)
		ef.changed = true
	}
	if from != nil {
		for _, c := range ef.callers[fn] {
			if c == from {
				return
			}
		}
		ef.callers[fn] = append(ef.callers[fn], from)
	}
}

func (ef *effects) solve() {
	for {
		ef.changed = false
		for i := 0; i < len(ef.order); i++ {
			ef.function(ef.order[i])
		}
		if !ef.changed {
			return
		}
	}
}

// ---------------------------------------------------------------- memory kinds

func tkey(t types.Type) string { return types.TypeString(t, nil) }

// addrKeys: the kinds of memory an address may denote.
func (ef *effects) addrKeys(a ssa.Value) []string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return []string{"F:" + tkey(deref(x.X.Type())) + "." + fieldName(x)}
	case *ssa.IndexAddr:
		return []string{"E:" + tkey(elemOf(x.X.Type()))}
	case *ssa.Alloc:
		k := []string{"A:" + x.Parent().String() + "/" + x.Name()}
		if x.Heap {
			k = append(k, "P:"+tkey(deref(x.Type())))
		}
		return k
	}
	return []string{"P:" + tkey(deref(a.Type()))}
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return t
}

func (ef *effects) storeTo(a ssa.Value, t types.Type, o origin) {
	if o == 0 || !ef.holds(t) {
		return
	}
	for _, k := range ef.addrKeys(a) {
		ef.addHeap(k, o)
	}
	ef.spread(t, o, 0)
}

// spread: a whole structure or array written makes its parts hold what it holds.
func (ef *effects) spread(t types.Type, o origin, d int) {
	if d > 8 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ft := u.Field(i).Type(); ef.holds(ft) {
				ef.addHeap("F:"+tkey(t)+"."+u.Field(i).Name(), o)
				ef.spread(ft, o, d+1)
			}
		}
	case *types.Array:
		ef.addHeap("E:"+tkey(u.Elem()), o)
		ef.spread(u.Elem(), o, d+1)
	}
}

// gather: what the parts of memory of the type hold.
func (ef *effects) gather(t types.Type, d int) origin {
	if d > 8 {
		return 0
	}
	var o origin
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ft := u.Field(i).Type(); ef.holds(ft) {
				o |= ef.heap["F:"+tkey(t)+"."+u.Field(i).Name()] | ef.gather(ft, d+1)
			}
		}
	case *types.Array:
		o |= ef.heap["E:"+tkey(u.Elem())] | ef.gather(u.Elem(), d+1)
	}
	return o
}

func (ef *effects) loadFrom(a ssa.Value) origin {
	t := deref(a.Type())
	if !ef.holds(t) {
		return 0
	}
	o := ef.get(a)
	for _, k := range ef.addrKeys(a) {
		o |= ef.heap[k]
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return o // what the parts hold is found when they are taken out
	}
	// an address passed around as a pointer to a field or element
	switch a.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
		o |= ef.heap["P:"+tkey(t)]
	}
	return o
}

// ---------------------------------------------------------------- transfer

func (ef *effects) write(fn *ssa.Function, in ssa.Instruction, to, val origin, what string) {
	if to == 0 {
		return
	}
	w := ef.writes[in]
	if w == nil {
		w = &effWrite{Fn: fn, In: in, What: what}
		ef.writes[in] = w
	}
	w.To |= to
	w.Val |= val
}

func (ef *effects) function(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ef.instr(fn, in)
		}
	}
}

func (ef *effects) instr(fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		ef.write(fn, in, ef.get(x.Addr), ef.get(x.Val), "stores to")
		ef.storeTo(x.Addr, x.Val.Type(), ef.get(x.Val))
	case *ssa.MapUpdate:
		o := ef.get(x.Value) | ef.get(x.Key)
		ef.write(fn, in, ef.get(x.Map), o, "updates a map of")
		ef.addHeap("E:"+tkey(elemOf(x.Map.Type())), o)
		ef.spread(x.Value.Type(), o, 0)
	case *ssa.Send:
		ef.addHeap("E:"+tkey(elemOf(x.Chan.Type())), ef.get(x.X))
	case *ssa.Return:
		rs := ef.rets[fn]
		for i, v := range x.Results {
			for len(rs) <= i {
				rs = append(rs, 0)
			}
			if o := ef.get(v); rs[i]|o != rs[i] {
				rs[i] |= o
				ef.changed = true
			}
		}
		ef.rets[fn] = rs
	case *ssa.Go:
		ef.call(fn, in, &x.Call, nil)
	case *ssa.Defer:
		ef.call(fn, in, &x.Call, nil)
	case *ssa.Call:
		ef.call(fn, in, &x.Call, x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			ef.add(x, ef.loadFrom(x.X))
		} else if x.Op == token.ARROW {
			ef.add(x, ef.get(x.X)|ef.heap["E:"+tkey(elemOf(x.X.Type()))])
		}
	case *ssa.FieldAddr:
		ef.addAddr(x, ef.get(x.X))
	case *ssa.IndexAddr:
		ef.addAddr(x, ef.get(x.X))
	case *ssa.Field:
		st, _ := x.X.Type().Underlying().(*types.Struct)
		ef.add(x, ef.get(x.X)|ef.heap["F:"+tkey(x.X.Type())+"."+st.Field(x.Field).Name()])
	case *ssa.Index:
		ef.add(x, ef.get(x.X)|ef.heap["E:"+tkey(elemOf(x.X.Type()))])
	case *ssa.Lookup:
		o := ef.get(x.X)
		if ef.holds(elemOf(x.X.Type())) {
			o |= ef.heap["E:"+tkey(elemOf(x.X.Type()))]
			ef.add(x, o)
		}
	case *ssa.Slice:
		ef.add(x, ef.get(x.X))
	case *ssa.ChangeType:
		ef.add(x, ef.get(x.X))
	case *ssa.ChangeInterface:
		ef.add(x, ef.get(x.X))
	case *ssa.MakeInterface:
		ef.add(x, ef.get(x.X)|ef.gather(x.X.Type(), 0))
	case *ssa.TypeAssert:
		ef.add(x, ef.get(x.X))
	case *ssa.SliceToArrayPointer:
		ef.add(x, ef.get(x.X))
	case *ssa.Convert:
		if _, isBasic := x.X.Type().Underlying().(*types.Basic); !isBasic {
			if _, toBasic := x.Type().Underlying().(*types.Basic); !toBasic {
				ef.add(x, ef.get(x.X))
			}
		}
	case *ssa.MultiConvert:
		ef.add(x, ef.get(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			ef.add(x, ef.get(e))
		}
	case *ssa.Extract:
		if ts, ok := ef.tup[x.Tuple]; ok {
			if x.Index < len(ts) {
				ef.add(x, ts[x.Index])
			}
		} else {
			ef.add(x, ef.get(x.Tuple))
		}
	case *ssa.Next, *ssa.Range:
		var ops [4]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			ef.add(in.(ssa.Value), ef.get(*o))
		}
		if r, ok := in.(*ssa.Range); ok {
			ef.add(r, ef.heap["E:"+tkey(elemOf(r.X.Type()))])
		}
	case *ssa.Select:
		ef.unknown[in] = "select"
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		ef.enter(fn, g)
		for i, b := range x.Bindings {
			ef.bind(g.FreeVars[i], b)
		}
	}
}

// addAddr: an address keeps the origin of the memory it points into, whatever is stored there.
func (ef *effects) addAddr(v ssa.Value, o origin) {
	if o == 0 || isSyncType(deref(v.Type())) {
		return
	}
	if ef.vals[v]|o != ef.vals[v] {
		ef.vals[v] |= o
		ef.changed = true
	}
}

func (ef *effects) bind(fv *ssa.FreeVar, b ssa.Value) {
	if o := ef.get(b); ef.vals[fv]|o != ef.vals[fv] {
		ef.vals[fv] |= o
		ef.changed = true
	}
	// the cell captured: what it holds is found under its pointer kind (captured cells are heap allocated)
}

// callees of a call inside the repository, with whether something outside may be called as well.
func (ef *effects) callees(c *ssa.CallCommon) (fns []*ssa.Function, outside bool) {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}, false
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, t := range ef.r.Prog.RuntimeTypes() {
			if types.IsInterface(t) || it == nil || !types.Implements(t, it) {
				continue
			}
			sel := ef.r.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			if f := ef.r.Prog.MethodValue(sel); f != nil && ef.r.InRepo(f) {
				fns = append(fns, f)
			}
		}
		return fns, true
	}
	// a function value: any function of the signature whose address is taken
	sig := c.Value.Type().Underlying()
	for f := range ef.addressTaken() {
		if len(f.Blocks) > 0 && f.Signature.Recv() == nil && sameParams(f.Signature, sig) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	return fns, true
}

// addressTaken: the repository's functions used as values.
func (ef *effects) addressTaken() map[*ssa.Function]bool {
	if ef.taken != nil {
		return ef.taken
	}
	ef.taken = map[*ssa.Function]bool{}
	for f := range ef.r.All {
		if !ef.r.InRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for i, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok && ef.r.InRepo(g) {
						if ci, isCall := in.(ssa.CallInstruction); isCall && i == 0 && ci.Common().StaticCallee() == g {
							continue
						}
						ef.taken[g] = true
					}
				}
			}
		}
	}
	return ef.taken
}

func sameParams(a *types.Signature, t types.Type) bool {
	b, ok := t.(*types.Signature)
	if !ok {
		return false
	}
	return types.Identical(a.Params(), b.Params()) && types.Identical(a.Results(), b.Results()) && a.Variadic() == b.Variadic()
}

func (ef *effects) call(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, v ssa.Value) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ef.builtin(fn, in, b.Name(), c, v)
		return
	}
	fns, outside := ef.callees(c)
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	for _, g := range fns {
		if !ef.r.InRepo(g) {
			ef.external(fn, in, c, g, args, v)
			continue
		}
		if ef.stop != nil && ef.stop(g) {
			continue
		}
		if len(g.Blocks) == 0 {
			continue
		}
		ef.enter(fn, g)
		for i, p := range g.Params {
			if i < len(args) {
				if o := ef.get(args[i]); o != 0 {
					if _, ok := p.Type().Underlying().(*types.Pointer); ok {
						ef.addAddr(p, o)
					} else {
						ef.add(p, o)
					}
				}
			}
		}
		if v != nil {
			ef.result(v, ef.rets[g])
		}
	}
	if outside && len(fns) == 0 || outside && c.IsInvoke() {
		ef.external(fn, in, c, nil, args, v)
	}
}

func (ef *effects) result(v ssa.Value, rs []origin) {
	if len(rs) == 0 {
		return
	}
	if t, ok := v.Type().(*types.Tuple); ok {
		ts := ef.tup[v]
		for len(ts) < t.Len() {
			ts = append(ts, 0)
		}
		for i := range rs {
			if ef.holds(t.At(i).Type()) && ts[i]|rs[i] != ts[i] {
				ts[i] |= rs[i]
				ef.changed = true
			}
		}
		ef.tup[v] = ts
		return
	}
	ef.add(v, rs[0])
}

func (ef *effects) builtin(fn *ssa.Function, in ssa.Instruction, name string, c *ssa.CallCommon, v ssa.Value) {
	switch name {
	case "append":
		to := ef.get(c.Args[0])
		if capped(c.Args[0]) {
			to = 0
		}
		var o origin
		if len(c.Args) > 1 {
			o = ef.get(c.Args[1])
			if ef.holds(elemOf(c.Args[0].Type())) {
				o |= ef.heap["E:"+tkey(elemOf(c.Args[1].Type()))]
			} else {
				o = 0
			}
		}
		if len(c.Args) > 1 {
			ef.write(fn, in, to, o, "appends to")
		}
		if ef.holds(elemOf(c.Args[0].Type())) {
			ef.addHeap("E:"+tkey(elemOf(c.Args[0].Type())), o)
			if to == 0 && ef.get(c.Args[0]) != 0 {
				ef.addHeap("E:"+tkey(elemOf(c.Args[0].Type())), ef.get(c.Args[0]))
			}
		}
		if v != nil {
			ef.add(v, to)
		}
	case "copy":
		var o origin
		if ef.holds(elemOf(c.Args[0].Type())) {
			o = ef.get(c.Args[1])
			ef.addHeap("E:"+tkey(elemOf(c.Args[0].Type())), o)
		}
		ef.write(fn, in, ef.get(c.Args[0]), o, "copies into")
	case "clear", "delete":
		ef.write(fn, in, ef.get(c.Args[0]), 0, name+"s elements of")
	case "ssa:wrapnilchk":
		if v != nil {
			ef.add(v, ef.get(c.Args[0]))
		}
	}
}

// capped: appending at least one element to the slice allocates: its capacity is its length.
func capped(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		if x.Max == nil {
			return false
		}
		if x.High == x.Max {
			return true
		}
		return lenOf(x.High) != nil && lenOf(x.High) == lenOf(x.Max)
	case *ssa.Const:
		return true
	case *ssa.ChangeType:
		return capped(x.X)
	}
	return false
}

func lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// ---------------------------------------------------------------- the standard library

// mutates lists functions that write through one of their arguments (receiver first).
var mutates = map[string][]int{
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "(io.Reader).Read": {1}, "(io.ReadSeeker).Read": {1}, "(io.ReaderAt).ReadAt": {1},
	"(io.ReadWriter).Read": {1}, "(io.ReadCloser).Read": {1}, "io.CopyBuffer": {2}, "encoding/binary.Read": {2},
	"(encoding/binary.bigEndian).PutUint16": {1}, "(encoding/binary.bigEndian).PutUint32": {1}, "(encoding/binary.bigEndian).PutUint64": {1},
	"(encoding/binary.littleEndian).PutUint16": {1}, "(encoding/binary.littleEndian).PutUint32": {1}, "(encoding/binary.littleEndian).PutUint64": {1},
	"(encoding/binary.bigEndian).AppendUint16": {1}, "(encoding/binary.bigEndian).AppendUint32": {1}, "(encoding/binary.bigEndian).AppendUint64": {1},
	"encoding/binary.PutUvarint": {0}, "encoding/binary.PutVarint": {0}, "encoding/binary.AppendUvarint": {0},
	"sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0}, "sort.Ints": {0}, "sort.Strings": {0}, "sort.Float64s": {0},
	"encoding/json.Unmarshal": {1}, "encoding/hex.Encode": {0}, "encoding/hex.Decode": {0}, "encoding/hex.AppendEncode": {0},
	"reflect.Copy": {0}, "reflect.Append": {0}, "reflect.AppendSlice": {0}, "reflect.Swapper": {0},
	"strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "strconv.AppendQuote": {0}, "strconv.AppendFloat": {0}, "strconv.AppendBool": {0},
	"unicode/utf8.EncodeRune": {0}, "unicode/utf8.AppendRune": {0}, "fmt.Appendf": {0}, "fmt.Append": {0}, "fmt.Appendln": {0},
	"fmt.Sscanf": nil, "fmt.Sscan": nil,
}

var fresh = map[string]bool{
	"reflect.New": true, "reflect.Zero": true, "reflect.MakeSlice": true, "reflect.MakeMap": true, "reflect.MakeMapWithSize": true,
	"io.ReadAll": true, "bytes.Clone": true, "bytes.Join": true, "bytes.Repeat": true, "bytes.ToLower": true, "bytes.ToUpper": true,
	"bytes.ReplaceAll": true, "bytes.Replace": true, "bytes.Map": true, "encoding/hex.DecodeString": true, "slices.Clone": true,
	"slices.Concat": true, "maps.Clone": true, "(*bytes.Buffer).String": true,
}

var reflectSetters = map[string]bool{"Set": true, "SetInt": true, "SetUint": true, "SetBool": true, "SetString": true, "SetBytes": true,
	"SetLen": true, "SetCap": true, "SetFloat": true, "SetComplex": true, "SetMapIndex": true, "SetZero": true, "Grow": true, "Clear": true,
	"SetPointer": true, "SetIterKey": true, "SetIterValue": true}

func (ef *effects) external(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, g *ssa.Function, args []ssa.Value, v ssa.Value) {
	name := ""
	switch {
	case g != nil:
		name = g.String()
		if o := g.Origin(); o != nil {
			name = o.String()
		}
	case c.IsInvoke():
		name = "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); !ok || n.Obj().Pkg() == nil {
			name = "(interface)." + c.Method.Name()
		}
	default:
		name = "a function value"
	}
	var all origin
	for _, a := range args {
		all |= ef.get(a)
	}
	short := name[strings.LastIndex(name, ".")+1:]
	setter := func() {
		var val origin
		for _, a := range args[1:] {
			val |= ef.get(a)
		}
		ef.write(fn, in, ef.get(args[0]), val, "writes ("+short+") to")
		if ef.get(args[0]) == 0 {
			ef.addHeap("R:", val) // kept in memory reached by reflection only
		}
	}
	switch {
	case strings.HasPrefix(name, "(reflect.Value)."):
		if reflectSetters[short] {
			setter()
			return
		}
		if short == "Call" {
			ef.unknown[in] = name
		}
		all |= ef.heap["R:"]
	case strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*bytes.Reader)."), strings.HasPrefix(name, "(*strings."), strings.HasPrefix(name, "(*bufio."):
		switch short {
		case "Write", "WriteString", "WriteByte", "WriteRune", "ReadFrom":
			ef.write(fn, in, ef.get(args[0]), 0, "uses the buffer of")
		case "Reset", "Truncate", "Grow", "Read", "ReadByte", "ReadString", "ReadBytes",
			"Seek", "UnreadByte", "Next", "ReadRune", "UnreadRune", "WriteTo", "Flush", "Discard":
			if !newBuffer(args[0], 0) { // only the position changes
				ef.write(fn, in, ef.get(args[0]), 0, "uses the buffer of")
			}
		}
		if short == "Read" && len(args) > 1 {
			ef.write(fn, in, ef.get(args[1]), 0, "reads into")
		}
	case strings.HasPrefix(name, "(*sync.Pool)."):
		if short == "Get" && v != nil {
			if ef.vals[v]|oPool != ef.vals[v] {
				ef.vals[v] |= oPool
				ef.changed = true
			}
		}
		return
	case strings.HasPrefix(name, "(*sync."), strings.HasPrefix(name, "(*sync/atomic."), strings.HasPrefix(name, "sync/atomic."):
		if strings.HasPrefix(name, "sync/atomic.") && !strings.Contains(name, "Load") {
			ef.write(fn, in, 0, 0, "")
		}
		if strings.HasPrefix(name, "(*sync.Map).") && v != nil {
			ef.add(v, oGlobal)
		}
		return
	case strings.HasPrefix(name, "(reflect.Type)."), strings.HasPrefix(name, "(error)."):
		return
	case fresh[name]:
		return
	default:
		if is, ok := mutates[name]; ok {
			if is == nil {
				ef.write(fn, in, all, 0, "passes to "+name)
			}
			for _, i := range is {
				if i < len(args) {
					ef.write(fn, in, ef.get(args[i]), 0, "passes to "+name+", which writes,")
				}
			}
			break
		}
		if short == "Read" && c.IsInvoke() && len(args) > 1 {
			ef.write(fn, in, ef.get(args[1]), 0, "reads into")
			break
		}
		if all != 0 && !harmless(name) {
			ef.write(fn, in, all, 0, "passes to "+name+" (effect not known)")
		}
	}
	if v == nil {
		return
	}
	if t, ok := v.Type().(*types.Tuple); ok {
		rs := make([]origin, t.Len())
		for i := range rs {
			rs[i] = all
		}
		ef.result(v, rs)
	} else {
		ef.add(v, all)
	}
}

// newBuffer: a buffer or reader made here around existing bytes.
func newBuffer(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "bytes.NewBufferString", "bufio.NewReader", "bufio.NewWriter":
				return true
			}
		}
	case *ssa.MakeInterface:
		return newBuffer(x.X, d)
	case *ssa.Phi:
		if d > 4 {
			return false
		}
		for _, e := range x.Edges {
			if !newBuffer(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// harmless: functions known to write nothing reached from their arguments.
func harmless(name string) bool {
	for _, p := range []string{"fmt.", "errors.", "strings.", "strconv.", "unicode.", "unicode/utf8.", "math.", "math/bits.", "bytes.", "encoding/hex.",
		"encoding/binary.", "(encoding/binary.", "reflect.", "io.", "(io.", "(interface).", "sort.Search", "path.", "path/filepath.", "time.", "(time.",
		"slices.Contains", "slices.Index", "slices.Equal", "slices.Max", "slices.Min", "slices.BinarySearch", "slices.IsSorted", "slices.Compare",
		"maps.Keys", "maps.Values", "(fmt.", "(error).", "a function value", "encoding/json.Marshal", "github.com/sunfish-shogi/bufseekio.", "(*os.File).", "os."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasPrefix(name, "("+"github.com/abema/go-mp4")
}

// path: how the function is reached.
func (ef *effects) path(fn *ssa.Function) string {
	type item struct {
		f *ssa.Function
		p string
	}
	seen := map[*ssa.Function]bool{fn: true}
	q := []item{{fn, ef.r.Name(fn)}}
	for len(q) > 0 {
		i := q[0]
		q = q[1:]
		if len(ef.callers[i.f]) == 0 {
			return i.p
		}
		for _, c := range ef.callers[i.f] {
			if !seen[c] {
				seen[c] = true
				q = append(q, item{c, ef.r.Name(c) + " → " + i.p})
			}
		}
	}
	return ef.r.Name(fn)
}

func (ef *effects) sorted() []*effWrite {
	var out []*effWrite
	for _, w := range ef.writes {
		out = append(out, w)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].In.Pos() != out[j].In.Pos() {
			return out[i].In.Pos() < out[j].In.Pos()
		}
		return out[i].What < out[j].What
	})
	return out
}

func (ef *effects) dump(fn string) {
	for _, f := range ef.order {
		if f.Name() != fn {
			continue
		}
		for _, p := range f.Params {
			println("param", p.Name(), ef.vals[p].String())
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && ef.vals[v] != 0 {
					println(v.Name(), in.String(), ef.vals[v].String(), ef.r.Pos(in.Pos()))
				}
			}
		}
	}
	for k, o := range ef.heap {
		println(k, o.String())
	}
}
