package main

// C01: package-level memory is written by registrations only. C02: operations that take a structure to read leave it
// as it is. C03: what a traversal hands out is its own.

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkShared
	checks["C02"] = checkReadOnly
	checks["C03"] = checkOwn
}

// exported: the functions and methods a user of the library can call.
func exportedAPI(r *Repo) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f = r.declared(f); f != nil && len(f.Blocks) > 0 && r.InRepo(f) && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, m := range r.Root.Members {
		switch x := m.(type) {
		case *ssa.Function:
			if x.Object() != nil && x.Object().Exported() {
				add(x)
			}
		case *ssa.Type:
			if !x.Object().Exported() || types.IsInterface(x.Type()) {
				continue
			}
			ms := r.Prog.MethodSets.MethodSet(types.NewPointer(x.Type()))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					add(r.Prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// registers: the functions that add to the table of box types, meant to be called before any other use.
func registers(f *ssa.Function) bool {
	switch f.Name() {
	case "AddBoxDef", "AddBoxDefEx", "AddAnyTypeBoxDef", "AddAnyTypeBoxDefEx":
		return f.Signature.Recv() == nil
	}
	return false
}

func checkShared(c *Check) {
	c.Rule = "no function reachable from the exported API, registrations aside, writes memory reached through a package-level variable, and none keeps pooled or package-level memory in what it returns"
	c.Assume = append(c.Assume, "AddBoxDef* are called before other goroutines use the library (package initialisation)",
		"readers, writers, handlers and boxes of the caller follow their interfaces' contracts")
	ef := newEffects(c.R)
	api := exportedAPI(c.R)
	for _, f := range api {
		if !registers(f) {
			ef.enter(nil, f)
		}
	}
	ef.stop = func(f *ssa.Function) bool {
		return registers(f) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	ef.solve()
	if d := os.Getenv("EFDUMP"); d != "" {
		ef.dump(d)
	}
	bad := map[*ssa.Function]bool{}
	for _, w := range ef.sorted() {
		if w.To&oGlobal != 0 {
			bad[w.Fn] = true
			c.Bad(c.R.Name(w.Fn)+": "+w.What, c.R.Pos(w.In.Pos()), "%s %s package-level memory, shared by all callers (reached as %s)", c.R.Name(w.Fn), w.What, ef.path(w.Fn))
		}
	}
	for in, what := range ef.unknown {
		c.Bad(c.R.Name(in.Parent())+": unknown", c.R.Pos(in.Pos()), "not decided: %s", what)
	}
	for _, f := range ef.order {
		c.Unit(c.R.Name(f))
		if !bad[f] {
			c.OK("%s writes no package-level memory", c.R.Name(f))
		}
	}
	c.Count("exported functions", len(api))
	c.AtLeast("exported functions", 300)
}

// readOnlyParams: the parameters of an exported operation it has no business changing.
func readOnlyParams(ef *effects, f *ssa.Function) []*ssa.Parameter {
	recv := f.Signature.Recv()
	if registers(f) {
		return nil
	}
	var out []*ssa.Parameter
	for i, p := range f.Params {
		if !ef.holds(p.Type()) {
			continue
		}
		if recv != nil && i == 0 {
			n := f.Name()
			if strings.HasPrefix(n, "Set") || strings.HasPrefix(n, "Add") || strings.HasPrefix(n, "Remove") || decodes(f) {
				continue
			}
			if isNamed(deref(p.Type()), ef.r.Module, "Writer") {
				continue
			}
			out = append(out, p)
			continue
		}
		if it, ok := p.Type().Underlying().(*types.Interface); ok {
			if m := hasAnyMethod(it, "Read", "Write", "Seek", "ReadBits", "WriteBits"); m {
				continue // a stream
			}
		}
		if f.Name() == "Unmarshal" && isNamed(p.Type(), ef.r.Module, "IBox") {
			continue // what is decoded into
		}
		switch f.Name() {
		case "ReadBoxStructureFromInternal", "ExtractBox", "ExtractBoxes", "ExtractBoxWithPayload", "ExtractBoxesWithPayload":
			if isNamed(deref(p.Type()), ef.r.Module, "BoxInfo") {
				continue // updated with what the box itself says about the context
			}
		}
		out = append(out, p)
	}
	return out
}

// decodes: a method that is given a stream to read.
func decodes(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if it, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Interface); ok && hasAnyMethod(it, "Read", "ReadBits") {
			return true
		}
	}
	return false
}

func hasAnyMethod(it *types.Interface, names ...string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		for _, n := range names {
			if it.Method(i).Name() == n {
				return true
			}
		}
	}
	return false
}

func checkReadOnly(c *Check) {
	c.Rule = "no exported operation, setters and decoders of their own structure aside, writes memory reached through its arguments or receiver"
	c.Assume = append(c.Assume, "readers, writers and handlers of the caller follow their interfaces' contracts", "an ftyp or keys BoxInfo a traversal starts from is updated on purpose")
	api := exportedAPI(c.R)
	type group struct {
		name string
		fns  []*ssa.Function
	}
	// structures' own methods, Marshal and Stringify share one run; everything that decodes has its own
	groups := []*group{{name: "methods, Marshal and Stringify"}}
	for _, f := range api {
		probe := newEffects(c.R)
		if len(readOnlyParams(probe, f)) == 0 {
			continue
		}
		if f.Signature.Recv() != nil || f.Name() == "Marshal" || strings.HasPrefix(f.Name(), "Stringify") {
			groups[0].fns = append(groups[0].fns, f)
		} else {
			groups = append(groups, &group{c.R.Name(f), []*ssa.Function{f}})
		}
	}
	roots := 0
	for _, g := range groups {
		ef := newEffects(c.R)
		ef.stop = func(f *ssa.Function) bool {
			return registers(f) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		}
		for _, f := range g.fns {
			ef.enter(nil, f)
			for _, p := range readOnlyParams(ef, f) {
				ef.addAddr(p, oParam)
			}
			c.Unit(c.R.Name(f))
		}
		ef.solve()
		bad := 0
		for _, w := range ef.sorted() {
			if w.To&oParam != 0 {
				bad++
				c.Bad(g.name+"/"+c.R.Name(w.Fn)+": "+w.What, c.R.Pos(w.In.Pos()), "%s %s what the caller of a read-only operation passed (reached as %s)", c.R.Name(w.Fn), w.What, ef.path(w.Fn))
			}
		}
		for in, what := range ef.unknown {
			bad++
			c.Bad(c.R.Name(in.Parent())+": unknown", c.R.Pos(in.Pos()), "not decided: %s", what)
		}
		if bad == 0 {
			for _, f := range g.fns {
				c.OK("%s leaves its arguments as they are (%d functions followed)", c.R.Name(f), len(ef.order))
			}
		}
		roots += len(g.fns)
	}
	c.Count("operations", roots)
	c.AtLeast("operations", 200)
}

// checkOwn: handles, paths and decoded structures belong to the handler they are given to.
func checkOwn(c *Check) {
	c.Rule = "every handle given to a handler, its path, and every decoded structure is memory allocated for that visit, is not written after it was handed out, and holds no package-level or pooled memory"
	r := c.R
	isHandle := func(t types.Type) bool { return isNamed(deref(t), r.Module, "ReadHandle") }
	isPath := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isNamed(s.Elem(), r.Module, "BoxType")
	}
	ef := newEffects(r)
	ef.stop = func(f *ssa.Function) bool { return registers(f) }
	for _, n := range []string{"ReadBoxStructure", "ReadBoxStructureFromInternal"} {
		if f := r.Func("", n); f != nil {
			ef.enter(nil, f)
		} else {
			c.Bad("missing "+n, "", "the function %s is missing", n)
		}
	}
	ef.solve()
	// made: what is used at an instruction is made for this use; parameters are followed to the callers
	var made func(v ssa.Value, in ssa.Instruction, depth int) string
	callersOf := func(f *ssa.Function) (out []ssa.CallInstruction) {
		if ef.addressTaken()[f] {
			return nil
		}
		for _, g := range ef.order {
			for _, b := range g.Blocks {
				for _, x := range b.Instrs {
					if ci, ok := x.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						out = append(out, ci)
					}
				}
			}
		}
		return out
	}
	made = func(v ssa.Value, in ssa.Instruction, depth int) string {
		f := in.Parent()
		if p, ok := v.(*ssa.Parameter); ok && depth < 5 && f.Parent() == nil {
			calls := callersOf(f)
			if len(calls) == 0 {
				return "the parameter " + p.Name() + " of " + r.Name(f)
			}
			for _, ci := range calls {
				for i, q := range f.Params {
					if q == p {
						if w := made(ci.Common().Args[i], ci, depth+1); w != "" {
							return w
						}
					}
				}
			}
			if reaches(in, in, nil) {
				return "what was used on the previous round of the loop"
			}
			return ""
		}
		fr := newFreshness(ef, f)
		if w := fr.why(v, nil, 0); w != "" {
			return w
		}
		if fr.again(in) {
			return "what was used for the visit before"
		}
		return ""
	}
	// where handlers are called
	var published []ssa.Instruction
	for _, f := range ef.order {
		if !r.InLib(f) {
			continue
		}
		c.Unit(r.Name(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil || len(ci.Common().Args) != 1 || !isHandle(ci.Common().Args[0].Type()) {
					continue
				}
				published = append(published, in)
				if w := made(ci.Common().Args[0], in, 0); w != "" {
					c.Bad("handle in "+r.Name(f), r.Pos(in.Pos()), "the handle given to the handler is not made for this visit: %s", w)
				} else {
					c.OK("the handle given to the handler in %s is made for the visit", r.Name(f))
				}
			}
		}
	}
	c.Count("handler calls", len(published))
	c.AtLeast("handler calls", 1)
	// after: whether the instruction may run once a handle was handed out, on that handle
	var owned func(v ssa.Value, in ssa.Instruction, depth int) string
	owned = func(v ssa.Value, in ssa.Instruction, depth int) string {
		if depth > 5 {
			return "a chain of calls too long to follow"
		}
		f := in.Parent()
		if p, ok := v.(*ssa.Parameter); ok && f.Parent() == nil {
			// a helper: look at its callers
			calls := callersOf(f)
			if len(calls) == 0 {
				return "the parameter " + p.Name() + " of " + r.Name(f)
			}
			for _, ci := range calls {
				for i, q := range f.Params {
					if q == p {
						if w := owned(ci.Common().Args[i], ci, depth+1); w != "" {
							return w
						}
					}
				}
			}
			// handed out in the helper itself
			for _, pub := range published {
				if reaches(pub, in, nil) {
					return "what the handler was already given"
				}
			}
			return ""
		}
		fr := newFreshness(ef, f)
		if w := fr.why(v, nil, 0); w != "" {
			return w
		}
		for _, p := range published {
			if reaches(p, in, fr.made) {
				return "what the handler was already given"
			}
		}
		return ""
	}
	stores, appends := 0, 0
	for _, f := range ef.order {
		if !r.InLib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					base, what := x.Addr, ""
					fields := []string{}
					for {
						if fa, ok := base.(*ssa.FieldAddr); ok {
							fields = append(fields, fieldName(fa))
							base = fa.X
							if isHandle(base.Type()) {
								what = "the handle"
								break
							}
							continue
						}
						if ia, ok := base.(*ssa.IndexAddr); ok && isPath(ia.X.Type()) {
							base, what = ia.X, "the path"
							break
						}
						break
					}
					if what == "" && isHandle(base.Type()) {
						what = "the handle"
					}
					if what == "" {
						continue
					}
					stores++
					if w := owned(base, in, 0); w != "" {
						c.Bad("store in "+r.Name(f), r.Pos(in.Pos()), "%s is changed in %s, which is %s", what, r.Name(f), w)
						continue
					}
					if what == "the handle" && isPath(x.Val.Type()) {
						if w := made(x.Val, in, 0); w != "" {
							c.Bad("path in "+r.Name(f), r.Pos(in.Pos()), "the path in the handle may share memory with other paths: %s", w)
						} else {
							c.OK("the path stored in the handle in %s is made for the visit", r.Name(f))
							c.Count("paths", 1)
						}
					} else {
						c.OK("%s writes only to what it made itself (%s)", r.Name(f), strings.Join(fields, "."))
					}
				case *ssa.Call:
					b, ok := x.Call.Value.(*ssa.Builtin)
					if !ok || len(x.Call.Args) == 0 || !isPath(x.Call.Args[0].Type()) || b.Name() != "append" && b.Name() != "copy" {
						continue
					}
					if b.Name() == "append" && (capped(x.Call.Args[0]) || len(x.Call.Args) < 2) {
						continue
					}
					appends++
					if w := owned(x.Call.Args[0], in, 0); w != "" {
						c.Bad(b.Name()+" in "+r.Name(f), r.Pos(in.Pos()), "%s writes a path in place in %s, which is %s", b.Name(), r.Name(f), w)
					} else {
						c.OK("%s in %s writes a path made there", b.Name(), r.Name(f))
					}
				}
			}
		}
	}
	c.Count("stores to handles and paths", stores)
	c.AtLeast("stores to handles and paths", 1)
	c.AtLeast("paths", 1)
	// decoded structures
	for _, n := range []struct{ recv, name string }{{"", "UnmarshalAny"}, {"BoxType", "New"}} {
		f := r.Func("", n.name)
		if n.recv != "" {
			f = r.Method("", n.recv, n.name)
		}
		if f == nil {
			c.Bad("missing "+n.name, "", "%s is missing", n.name)
			continue
		}
		e2 := newEffects(r)
		fr := newFreshness(e2, f)
		w := ""
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && w == "" {
				w = fr.why(ret.Results[0], nil, 0)
			}
		}
		if w != "" {
			c.Bad(n.name, r.Pos(f.Pos()), "%s may return a structure it did not make: %s", n.name, w)
		} else {
			c.OK("%s returns a structure of its own", n.name)
		}
	}
	u := r.Func("", "Unmarshal")
	if u == nil {
		c.Bad("missing Unmarshal", "", "Unmarshal is missing")
		return
	}
	e3 := newEffects(r)
	e3.stop = ef.stop
	e3.enter(nil, u)
	for _, p := range u.Params {
		if isNamed(p.Type(), r.Module, "IBox") {
			e3.addAddr(p, oParam)
		}
	}
	e3.solve()
	kept, writes := 0, 0
	for _, w := range e3.sorted() {
		if w.To&oParam == 0 {
			continue
		}
		writes++
		if w.Val&(oGlobal|oPool) != 0 {
			kept++
			c.Bad("kept in "+r.Name(w.Fn), r.Pos(w.In.Pos()), "%s puts %s into the decoded structure (reached as %s)", r.Name(w.Fn), (w.Val & (oGlobal | oPool)).String(), e3.path(w.Fn))
		} else {
			c.OK("%s: what is stored in the decoded structure is neither package-level nor pooled memory", r.Name(w.Fn))
		}
	}
	for in, what := range e3.unknown {
		c.Bad(r.Name(in.Parent())+": unknown", r.Pos(in.Pos()), "not decided: %s", what)
	}
	for _, f := range e3.order {
		c.Unit(r.Name(f))
	}
	c.Count("writes to the decoded structure", writes)
	c.AtLeast("writes to the decoded structure", 10)
}
