package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["E01"] = func(c *Check) { checkErrors(c, "write") }
	checks["E02"] = func(c *Check) { checkErrors(c, "read") }
	checks["E03"] = func(c *Check) { checkErrors(c, "cli") }
}

// tolerated: the only places where a failure may be turned into something else than a failure.
func tolerated(ef *errFlow, fn *ssa.Function, ctx map[int]bool, origin ssa.CallInstruction, sentinel string) bool {
	switch {
	case sentinel == "io.EOF":
		// end of input while reading a header of the top level
		if !ef.r.InLib(fn) || ef.expand[fn.String()+"|"+ctxString(ctx)] {
			return false
		}
		g := origin.Common().StaticCallee()
		return g != nil && ef.readsHeaderOnly(g)
	case strings.HasSuffix(sentinel, ".ErrUnsupportedBoxVersion"):
		// the tool shows or skips the content of boxes whose version is not supported
		return ef.r.InCLI(fn) && (strings.HasSuffix(fnPkgPath(fn), "/dump") || strings.HasSuffix(fnPkgPath(fn), "/extract"))
	}
	return false
}

// readsHeaderOnly: the function is the header reader, or a helper that calls it and nothing which decodes payloads.
func (ef *errFlow) readsHeaderOnly(g *ssa.Function) bool {
	hdr := ef.r.Func("", "ReadBoxInfo")
	um := ef.r.Func("", "Unmarshal")
	seen := map[*ssa.Function]bool{}
	found, bad := false, false
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		f = ef.r.declared(f)
		if f == hdr {
			found = true
			return
		}
		if f == um {
			bad = true
			return
		}
		if seen[f] || !ef.r.InRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if h := cc.StaticCallee(); h != nil {
						walk(h)
					} else if _, blt := cc.Value.(*ssa.Builtin); !blt && !cc.IsInvoke() {
						bad = true
					}
				}
			}
		}
	}
	walk(g)
	return found && !bad
}

func checkErrors(c *Check, class string) {
	r := c.R
	ef := newErrFlow(r)
	ef.Tol = tolerated
	switch class {
	case "write":
		c.Rule = "Error-flow dataflow over SSA, one obligation per call site in the library that writes to (or seeks in) a caller's sink, directly or transitively: assuming the call fails, every function exit reachable along feasible edges carries a non-nil error (or the failing status value)."
	case "read":
		c.Rule = "Error-flow dataflow over SSA, one obligation per error-returning call site in the library: assuming the call fails, every function exit reachable along feasible edges carries a non-nil error (or the failing status value); the only tolerated sentinel is io.EOF from reading a top-level header. Read counts of raw Read calls must be used, and bounded copies must be length-checked."
	case "cli":
		c.Rule = "Error-flow dataflow over SSA, one obligation per error-returning call site in cmd/mp4tool: assuming the call fails, every exit carries a non-nil error, a non-zero status, or os.Exit(non-zero); ErrUnsupportedBoxVersion is tolerated in dump and extract. Files created for output are closed with the close error checked before success is returned."
	}
	for _, fn := range r.Funcs {
		cli := r.InCLI(fn)
		if cli != (class == "cli") {
			continue
		}
		sites := ef.sites(fn)
		if len(sites) > 0 {
			c.Unit(r.Name(fn))
		}
		for _, s := range sites {
			isW := ef.isWriteCall(s.call.Common())
			if class == "write" && !isW {
				continue
			}
			if class == "read" && isW && !ef.isReadCall(s.call.Common()) {
				continue
			}
			c.Count("fallible call sites", 1)
			fails := ef.checkSite(s)
			name := shortCallee(r, s.call.Common())
			if len(fails) == 0 {
				c.OK("%s: failure of %s is reported by %s", r.Pos(s.call.Pos()), name, r.Name(fn))
			}
			for _, f := range fails {
				c.Bad("errflow/"+f.key+"/"+r.Name(fn)+"/"+name, r.Pos(s.call.Pos()), "failure of %s in %s: %s", name, r.Name(fn), f.why)
			}
		}
		if class == "read" || class == "cli" {
			c.rawReads(ef, fn)
		}
	}
	if class == "cli" {
		c.outputFiles(ef)
	}
	c.Assume = append(c.Assume,
		"calls assumed infallible: memory buffers (bytes.Buffer, strings.Builder), fmt.Print* to standard output, os.Stderr, strconv/flag/hex conversions, deferred Close",
		"io.Writer and io.Reader implementations follow their documented contract (short writes return an error)",
		"variables of error type captured by closures are only changed by the closures analysed")
	switch class {
	case "write":
		c.AtLeast("fallible call sites", 30)
	case "read":
		c.AtLeast("fallible call sites", 100)
	case "cli":
		c.AtLeast("fallible call sites", 60)
	}
}

func shortCallee(r *Repo, cc *ssa.CallCommon) string {
	if g := cc.StaticCallee(); g != nil {
		return r.Name(r.declared(g))
	}
	n := calleeName(cc)
	return strings.ReplaceAll(n, r.Module, "mp4")
}

// rawReads: the byte count of a raw Read must be consulted; length-limited copies must be checked.
func (c *Check) rawReads(ef *errFlow, fn *ssa.Function) {
	r := c.R
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			cc := call.Common()
			name := ""
			switch {
			case cc.IsInvoke() && cc.Method.Name() == "Read" && cc.Signature().Results().Len() == 2:
				name = "Read"
			case cc.StaticCallee() != nil && cc.StaticCallee().Name() == "Read" && cc.StaticCallee().Signature.Recv() != nil && cc.Signature().Results().Len() == 2:
				name = "Read"
			case calleeName(cc) == "io.ReadAtLeast":
				name = "ReadAtLeast"
			case (calleeName(cc) == "io.Copy" || calleeName(cc) == "io.ReadAll") && limited(cc.Args[len(cc.Args)-1]):
				name = "limited copy"
			default:
				continue
			}
			c.Count("raw reads", 1)
			used := false
			if refs := call.Referrers(); refs != nil {
				for _, ref := range *refs {
					switch x := ref.(type) {
					case *ssa.Extract:
						if x.Index == 0 && x.Referrers() != nil && len(*x.Referrers()) > 0 {
							used = true
						}
					case *ssa.Return:
						used = true
					}
				}
			}
			if name == "ReadAtLeast" {
				used = sameLen(cc.Args[1], cc.Args[2])
			}
			if used {
				c.OK("%s: the byte count of %s is consulted", r.Pos(call.Pos()), name)
			} else {
				c.Bad("rawread/"+r.Name(fn)+"/"+name, r.Pos(call.Pos()), "%s in %s: the number of bytes delivered is never consulted, so fewer bytes than requested pass as success", name, r.Name(fn))
			}
		}
	}
}

func limited(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return limited(x.X)
	case *ssa.Call:
		n := calleeName(x.Common())
		return n == "io.LimitReader" || n == "io.NewSectionReader"
	}
	return strings.Contains(types.TypeString(v.Type(), nil), "io.LimitedReader")
}

func sameLen(buf, n ssa.Value) bool {
	call, ok := n.(*ssa.Call)
	if !ok {
		return false
	}
	bl, ok := call.Call.Value.(*ssa.Builtin)
	return ok && bl.Name() == "len" && call.Call.Args[0] == buf
}

// outputFiles: a file created in the tool must have a Close whose error is checked on every path
// from its creation to a successful return.
func (c *Check) outputFiles(ef *errFlow) {
	r := c.R
	for _, fn := range r.Funcs {
		if !r.InCLI(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				n := calleeName(call.Common())
				if n != "os.Create" && n != "os.OpenFile" && n != "os.CreateTemp" {
					continue
				}
				c.Count("output files", 1)
				var file ssa.Value
				for _, ref := range *call.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
						file = e
					}
				}
				c.outputFile(ef, fn, call, file)
			}
		}
	}
	c.AtLeast("output files", 3)
}

func (c *Check) outputFile(ef *errFlow, fn *ssa.Function, call *ssa.Call, file ssa.Value) {
	r := c.R
	if file == nil {
		c.Bad("outfile/"+r.Name(fn), r.Pos(call.Pos()), "the created file is discarded")
		return
	}
	// a file kept in a struct field: some function of the package closes that field with the error checked,
	// in code that is not deferred
	for _, ref := range *file.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Val == file {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				fld := fieldName(fa)
				if c.closedField(ef, fn, fa, fld) {
					c.OK("%s: %s is closed with its error checked before success is returned", r.Pos(call.Pos()), fld)
				} else {
					c.Bad("outfile/"+r.Name(fn)+"/"+fld, r.Pos(call.Pos()), "the file kept in %s is not closed with the error checked before %s returns success", fld, r.Name(fn))
				}
				return
			}
		}
	}
	isFile := func(v ssa.Value) bool {
		if v == file {
			return true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.Alloc); ok {
				for _, ref := range *u.X.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == u.X && st.Val == file {
						return true
					}
				}
			}
		}
		if p, ok := v.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				if e == file {
					return true
				}
			}
		}
		return false
	}
	// forward reachability from the creation to a return that may be successful, not passing a Close of the file;
	// the file may also be handed to its owner by returning it
	bad := ""
	seen := map[*ssa.BasicBlock]bool{}
	ei := errIndex(fn.Signature)
	var walk func(b *ssa.BasicBlock, i int, s *efState)
	walk = func(b *ssa.BasicBlock, i int, s *efState) {
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && g.Name() == "Close" && len(x.Call.Args) > 0 && isFile(x.Call.Args[0]) {
					return
				}
			case *ssa.Return:
				for _, res := range x.Results {
					if isFile(spilled(res)) {
						return
					}
				}
				if ei < 0 || !ef.mustFail(x, ei) {
					bad = r.Pos(x.Pos())
				}
				return
			}
		}
		for _, sc := range b.Succs {
			if !seen[sc] {
				seen[sc] = true
				walk(sc, 0, s)
			}
		}
	}
	walk(call.Block(), instrIndex(call)+1, newEfState())
	if bad == "" {
		c.OK("%s: the created file is closed with its error checked before success is returned", r.Pos(call.Pos()))
	} else {
		c.Bad("outfile/"+r.Name(fn), r.Pos(call.Pos()), "%s can return success at %s without having closed the created file with the error checked", r.Name(fn), bad)
	}
}

// mustFail: the return is only reached when its error operand is non-nil (dominated by a non-nil test).
func (ef *errFlow) mustFail(ret *ssa.Return, ei int) bool {
	v := spilled(ret.Results[ei])
	if ef.eval(newEfState(), v) == fNonNil {
		return true
	}
	var src ssa.Value = v
	match := func(x ssa.Value) bool {
		if x == src {
			return true
		}
		a, ok1 := x.(*ssa.UnOp)
		b, ok2 := src.(*ssa.UnOp)
		return ok1 && ok2 && a.Op == token.MUL && b.Op == token.MUL && a.X == b.X
	}
	for d := ret.Block(); d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isNilConst(bo.Y) || !match(bo.X) {
			continue
		}
		if bo.Op == token.NEQ && p.Succs[0] == d && len(d.Preds) == 1 {
			return true
		}
		if bo.Op == token.EQL && p.Succs[1] == d && len(d.Preds) == 1 {
			return true
		}
	}
	return false
}

// closedField: a checked, non-deferred Close of the same field exists in the outermost function (or a
// function it calls), and every successful return of that function passes the code that contains it.
func (c *Check) closedField(ef *errFlow, fn *ssa.Function, fa *ssa.FieldAddr, fld string) bool {
	top := fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	st := deref(fa.X.Type())
	isFieldClose := func(x *ssa.Call) bool {
		g := x.Call.StaticCallee()
		if g == nil || g.Name() != "Close" || len(x.Call.Args) == 0 {
			return false
		}
		u, ok := x.Call.Args[0].(*ssa.UnOp)
		if !ok {
			return false
		}
		a, ok := u.X.(*ssa.FieldAddr)
		return ok && fieldName(a) == fld && types.Identical(deref(a.X.Type()), st)
	}
	memo := map[*ssa.Function]bool{}
	var closes func(f *ssa.Function, d int) bool
	closes = func(f *ssa.Function, d int) bool {
		if v, ok := memo[f]; ok {
			return v
		}
		memo[f] = false
		if d > 4 {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Call); ok {
					if isFieldClose(x) {
						memo[f] = true
					} else if g := x.Call.StaticCallee(); g != nil && ef.r.InCLI(g) && closes(g, d+1) {
						memo[f] = true
					}
				}
			}
		}
		return memo[f]
	}
	// blocks of the top function that lead to a close of the field: the block itself or, when the close
	// is in a loop, the loop header
	marks := map[*ssa.BasicBlock]bool{}
	for _, b := range top.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := x.Call.StaticCallee()
			if isFieldClose(x) || (g != nil && ef.r.InCLI(g) && g.Parent() == nil && closes(g, 0)) {
				marks[b] = true
				for _, h := range top.Blocks {
					if h.Dominates(b) && inLoop(h, b) {
						marks[h] = true
					}
				}
			}
		}
	}
	if len(marks) == 0 {
		return false
	}
	// the files are created before: every successful return is reached through a mark
	ei := errIndex(top.Signature)
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || marks[b] {
			return
		}
		seen[b] = true
		if ret, isr := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isr {
			if ei < 0 || !ef.mustFail(ret, ei) {
				ok = false
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(top.Blocks[0])
	return ok
}

// inLoop: h is a loop header whose natural loop contains b.
func inLoop(h, b *ssa.BasicBlock) bool {
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		// natural loop of back edge p->h
		in := map[*ssa.BasicBlock]bool{h: true}
		var up func(x *ssa.BasicBlock)
		up = func(x *ssa.BasicBlock) {
			if in[x] {
				return
			}
			in[x] = true
			for _, q := range x.Preds {
				up(q)
			}
		}
		up(p)
		if in[b] {
			return true
		}
	}
	return false
}
