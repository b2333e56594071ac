package main

// Must-fresh analysis: whether a value is memory allocated for this use alone, so that nothing else keeps it.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type freshness struct {
	ef   *effects
	busy map[ssa.Value]bool
	at   *ssa.Function     // the function that uses the value
	made []ssa.Instruction // where it is made there
}

func newFreshness(ef *effects, at *ssa.Function) *freshness {
	return &freshness{ef: ef, busy: map[ssa.Value]bool{}, at: at}
}

func (f *freshness) leaf(v ssa.Value) string {
	if in, ok := v.(ssa.Instruction); ok && in.Parent() == f.at {
		f.made = append(f.made, in)
	}
	return ""
}

// again: whether control can come from the instruction back to itself without making the value anew.
func (f *freshness) again(use ssa.Instruction) bool {
	return reaches(use, use, f.made)
}

// reaches: a path from behind one instruction to another that passes none of the others.
func reaches(from, to ssa.Instruction, avoid []ssa.Instruction) bool {
	if from.Parent() != to.Parent() {
		return false
	}
	stop := map[ssa.Instruction]bool{}
	for _, a := range avoid {
		stop[a] = true
	}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{from.Block(), instrIndex(from) + 1}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		blocked := false
		for i := p.i; i < len(p.b.Instrs); i++ {
			if p.b.Instrs[i] == to {
				return true
			}
			if stop[p.b.Instrs[i]] {
				blocked = true
				break
			}
		}
		if blocked {
			continue
		}
		for _, s := range p.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return false
}

// why is empty if the value is fresh, and otherwise tells what it may share memory with.
func (f *freshness) why(v ssa.Value, args map[*ssa.Parameter]ssa.Value, depth int) string {
	if !f.ef.holds(v.Type()) {
		return ""
	}
	if depth > 12 {
		return "a chain of calls too long to follow"
	}
	if f.busy[v] {
		return "" // round a loop: decided by the other ways in
	}
	f.busy[v] = true
	defer delete(f.busy, v)
	where := func(what string) string {
		if in, ok := v.(ssa.Instruction); ok && in.Pos().IsValid() {
			return fmt.Sprintf("%s (%s)", what, f.ef.r.Pos(in.Pos()))
		}
		return what
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function:
		return ""
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		return f.leaf(v)
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return f.why(x.X, args, depth)
		}
		return f.why(x.X, args, depth)
	case *ssa.ChangeType:
		return f.why(x.X, args, depth)
	case *ssa.ChangeInterface:
		return f.why(x.X, args, depth)
	case *ssa.MakeInterface:
		return f.why(x.X, args, depth)
	case *ssa.TypeAssert:
		return f.why(x.X, args, depth)
	case *ssa.SliceToArrayPointer:
		return f.why(x.X, args, depth)
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return f.leaf(x)
		}
		return f.why(x.X, args, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := f.why(e, args, depth); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return f.call(c, x.Index, args, depth)
		}
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return f.why(t.X, args, depth)
		}
		return where("a value of unknown origin")
	case *ssa.Call:
		return f.call(x, 0, args, depth)
	case *ssa.Parameter:
		if a, ok := args[x]; ok && a != nil {
			return f.why(a, nil, depth+1)
		}
		return fmt.Sprintf("the parameter %s of %s", x.Name(), f.ef.r.Name(x.Parent()))
	case *ssa.FreeVar:
		return fmt.Sprintf("the variable %s of the enclosing function, which outlives the call", x.Name())
	case *ssa.Global:
		return "the package-level variable " + x.Name()
	case *ssa.UnOp:
		// a local variable: everything stored in it must be fresh
		if al, ok := x.X.(*ssa.Alloc); ok {
			if w, ok := f.cell(al, args, depth); ok {
				return w
			}
		}
		return where("what was loaded from memory")
	}
	return where("a value of unknown origin")
}

// cell: a local variable that only this function and its closures use.
func (f *freshness) cell(al *ssa.Alloc, args map[*ssa.Parameter]ssa.Value, depth int) (string, bool) {
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != al {
				return "", false
			}
			if w := f.why(y.Val, args, depth); w != "" {
				return w, true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure: // the closure may read it
			g := y.Fn.(*ssa.Function)
			for i, b := range y.Bindings {
				if b != al {
					continue
				}
				for _, fr := range *g.FreeVars[i].Referrers() {
					if st, ok := fr.(*ssa.Store); ok && st.Addr == g.FreeVars[i] {
						return "the variable " + g.FreeVars[i].Name() + ", which a closure sets", true
					}
				}
			}
		default:
			return "", false
		}
	}
	return "", true
}

func (f *freshness) call(c *ssa.Call, idx int, args map[*ssa.Parameter]ssa.Value, depth int) string {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			if capped(c.Call.Args[0]) {
				return f.leaf(c)
			}
			if w := f.why(c.Call.Args[0], args, depth); w != "" {
				return fmt.Sprintf("what is appended to in place at %s: %s", f.ef.r.Pos(c.Pos()), w)
			}
			return ""
		}
		return "the result of " + b.Name()
	}
	fn := c.Call.StaticCallee()
	if fn == nil {
		return fmt.Sprintf("the result of a call at %s", f.ef.r.Pos(c.Pos()))
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if fresh[name] {
		return f.leaf(c)
	}
	switch name {
	case "(reflect.Value).Interface", "(reflect.Value).Elem", "(reflect.Value).Addr", "(reflect.Value).Index", "(reflect.Value).Field",
		"(reflect.Value).Convert", "(reflect.Value).Slice", "reflect.Indirect", "reflect.ValueOf":
		return f.why(c.Call.Args[0], args, depth)
	}
	f.leaf(c)
	if !f.ef.r.InRepo(fn) {
		return "the result of " + name
	}
	sub := map[*ssa.Parameter]ssa.Value{}
	for i, p := range fn.Params {
		if i < len(c.Call.Args) {
			a := c.Call.Args[i]
			if pa, ok := a.(*ssa.Parameter); ok && args[pa] != nil {
				a = args[pa]
			}
			sub[p] = a
		}
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			if w := f.why(r.Results[idx], sub, depth+1); w != "" {
				return w
			}
		}
	}
	return ""
}
