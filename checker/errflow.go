package main

// Error-flow analysis: a forward dataflow over the SSA control flow graph. For each call that can
// fail, the failure fact (error non-nil, status false, exit code non-zero) is assumed at the call
// and propagated along every feasible edge; every function exit reached must carry the failure on.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fact uint8

const (
	fUnknown fact = iota
	fNonNil
	fNil
	fTrue
	fFalse
	fNonZero
	fZero
)

func (f fact) String() string {
	return [...]string{"?", "non-nil", "nil", "true", "false", "non-zero", "zero"}[f]
}

type cellKey struct {
	base ssa.Value
	path string
}

type efState struct {
	known map[ssa.Value]fact
	cells map[cellKey]fact
	tup   map[tupKey]fact
	// closures known to be stored in cells is not tracked
}

type tupKey struct {
	v ssa.Value
	i int
}

func newEfState() *efState {
	return &efState{known: map[ssa.Value]fact{}, cells: map[cellKey]fact{}, tup: map[tupKey]fact{}}
}

func (s *efState) clone() *efState {
	n := newEfState()
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.tup {
		n.tup[k] = v
	}
	return n
}

func (s *efState) key(b *ssa.BasicBlock, i int) string {
	parts := make([]string, 0, len(s.known)+len(s.cells)+1)
	for k, v := range s.known {
		parts = append(parts, fmt.Sprintf("%p=%d", k, v))
	}
	for k, v := range s.cells {
		parts = append(parts, fmt.Sprintf("c%p%s=%d", k.base, k.path, v))
	}
	for k, v := range s.tup {
		parts = append(parts, fmt.Sprintf("t%p#%d=%d", k.v, k.i, v))
	}
	sort.Strings(parts)
	return fmt.Sprintf("%d:%d|%s", b.Index, i, strings.Join(parts, ","))
}

// failKind: how a call reports failure.
type failKind struct {
	tup  int // index in the result tuple, -1: the call value itself
	fact fact
}

type errFlow struct {
	r         *Repo
	status    map[*ssa.Function]failKind // functions without error result that report failure by bool/int
	wrap      map[string]int             // wrapper summary memo
	callers   map[*ssa.Function][]ssa.CallInstruction
	addrTaken map[*ssa.Function]bool
	ctxs      map[*ssa.Function][]map[int]bool
	globOK    map[*ssa.Global]bool
	expand    map[string]bool // contexts reachable from the Expand closure
	writers   map[*ssa.Function]bool
	readers   map[*ssa.Function]bool
	infParam  map[*ssa.Parameter]int
	Tol       tolerance
}

// tolerance decides whether the true edge of err == sentinel may drop the error.
type tolerance func(ef *errFlow, fn *ssa.Function, ctx map[int]bool, origin ssa.CallInstruction, sentinel string) bool

func newErrFlow(r *Repo) *errFlow {
	ef := &errFlow{r: r, status: map[*ssa.Function]failKind{}, wrap: map[string]int{},
		callers: map[*ssa.Function][]ssa.CallInstruction{}, addrTaken: map[*ssa.Function]bool{},
		ctxs: map[*ssa.Function][]map[int]bool{}, globOK: map[*ssa.Global]bool{}, expand: map[string]bool{},
		infParam: map[*ssa.Parameter]int{}}
	for _, fn := range r.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						g = r.declared(g)
						ef.callers[g] = append(ef.callers[g], c)
					}
				}
				var rands [12]*ssa.Value
				for i, op := range in.Operands(rands[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isc := in.(ssa.CallInstruction); isc && i == 0 && c.Common().Value == *op {
							continue
						}
						if _, mk := in.(*ssa.MakeClosure); mk {
							continue
						}
						ef.addrTaken[g] = true
					}
				}
			}
		}
	}
	// error globals that are assigned only by package initialisation
	bad := map[*ssa.Global]bool{}
	for _, fn := range r.Funcs {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						bad[g] = true
					}
				}
			}
		}
	}
	for _, sp := range r.SPkgs {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || bad[g] || !isErrorType(deref(g.Type())) {
				continue
			}
			ini := sp.Func("init")
			if ini == nil {
				continue
			}
			for _, b := range ini.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						if ef.eval(newEfState(), st.Val) == fNonNil {
							ef.globOK[g] = true
						}
					}
				}
			}
		}
	}
	ef.buildWriters()
	ef.buildReaders()
	ef.buildContexts()
	ef.inferStatus()
	return ef
}

// ---------------------------------------------------------------- contexts

func ctxString(ctx map[int]bool) string {
	var ks []int
	for k := range ctx {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%d=%v,", k, ctx[k])
	}
	return s
}

func boolConst(v ssa.Value) (bool, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
		return constant.BoolVal(c.Value), true
	}
	return false, false
}

func (ef *errFlow) buildContexts() {
	for _, fn := range ef.r.Funcs {
		var ctxs []map[int]bool
		seen := map[string]bool{}
		hasBool := false
		for _, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				hasBool = true
			}
		}
		open := ef.addrTaken[fn] || len(ef.callers[fn]) == 0 || (fn.Object() != nil && fn.Object().Exported())
		if hasBool && !open {
			for _, c := range ef.callers[fn] {
				m := map[int]bool{}
				for i, a := range c.Common().Args {
					if bv, ok := boolConst(a); ok {
						m[i] = bv
					}
				}
				if !seen[ctxString(m)] {
					seen[ctxString(m)] = true
					ctxs = append(ctxs, m)
				}
			}
		}
		if len(ctxs) == 0 {
			ctxs = []map[int]bool{{}}
		}
		ef.ctxs[fn] = ctxs
	}
	// contexts reachable from the closures stored in the Expand field of a read handle
	var work []*ssa.Function
	var wctx []map[int]bool
	push := func(f *ssa.Function, ctx map[int]bool) {
		k := f.String() + "|" + ctxString(ctx)
		if !ef.expand[k] {
			ef.expand[k] = true
			work = append(work, f)
			wctx = append(wctx, ctx)
		}
	}
	for _, fn := range ef.r.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "Expand" {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.MakeClosure:
					push(v.Fn.(*ssa.Function), map[int]bool{})
				case *ssa.Function:
					push(v, map[int]bool{})
				}
			}
		}
	}
	for len(work) > 0 {
		f, ctx := work[0], wctx[0]
		work, wctx = work[1:], wctx[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && ef.r.InRepo(g) {
						g = ef.r.declared(g)
						m := map[int]bool{}
						for i, a := range c.Common().Args {
							if bv, ok := boolConst(a); ok {
								m[i] = bv
							} else if p, ok := a.(*ssa.Parameter); ok {
								for j, q := range f.Params {
									if q == p {
										if bv, ok := ctx[j]; ok {
											m[i] = bv
										}
									}
								}
							}
						}
						push(g, m)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					push(mc.Fn.(*ssa.Function), map[int]bool{})
				}
			}
		}
	}
}

func fieldName(fa *ssa.FieldAddr) string {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok || fa.Field >= st.NumFields() {
		return ""
	}
	return st.Field(fa.Field).Name()
}

// ---------------------------------------------------------------- classification of calls

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if g := c.StaticCallee(); g != nil {
		if g.Origin() != nil {
			g = g.Origin()
		}
		return g.String()
	}
	return "dynamic call of " + types.TypeString(c.Value.Type(), nil)
}

func calleePkg(c *ssa.CallCommon) string {
	if g := c.StaticCallee(); g != nil {
		return fnPkgPath(g)
	}
	return ""
}

// isInfallibleWriter: a writer whose Write never fails (memory buffers, standard streams of the tool).
func (ef *errFlow) isInfallibleWriter(v ssa.Value) bool {
	return ef.infWriter(v, 0)
}

func (ef *errFlow) infWriter(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch t := types.TypeString(v.Type(), nil); t {
	case "*bytes.Buffer", "*strings.Builder", "hash.Hash", "hash.Hash32", "hash.Hash64":
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return ef.infWriter(x.X, depth+1)
	case *ssa.ChangeInterface:
		return ef.infWriter(x.X, depth+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			s := g.String()
			return s == "os.Stderr" || s == "io.Discard"
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ef.infWriter(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		fn := x.Parent()
		if ef.addrTaken[fn] || len(ef.callers[fn]) == 0 || (fn.Object() != nil && fn.Object().Exported() && fn.Signature.Recv() == nil && !strings.Contains(fnPkgPath(fn), "/internal/") && !ef.r.InCLI(fn)) {
			return false
		}
		if s, ok := ef.infParam[x]; ok {
			return s != 2
		}
		ef.infParam[x] = 1
		res := true
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			for _, c := range ef.callers[fn] {
				args := c.Common().Args
				if i >= len(args) || !ef.infWriter(args[i], depth+1) {
					res = false
				}
			}
		}
		if !res {
			ef.infParam[x] = 2
		}
		return res
	}
	return false
}

func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// failure: does this call report failures, and how.
func (ef *errFlow) failure(c ssa.CallInstruction) (failKind, bool) {
	cc := c.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return failKind{}, false
	}
	if g := cc.StaticCallee(); g != nil {
		if fk, ok := ef.status[ef.r.declared(g)]; ok {
			return fk, true
		}
	}
	sig := cc.Signature()
	ei := errIndex(sig)
	if ei < 0 {
		return failKind{}, false
	}
	if ef.infallible(cc) {
		return failKind{}, false
	}
	if sig.Results().Len() == 1 {
		ei = -1
	}
	return failKind{ei, fNonNil}, true
}

func (ef *errFlow) infallible(cc *ssa.CallCommon) bool {
	name := calleeName(cc)
	switch calleePkg(cc) {
	case "errors", "strconv", "flag", "golang.org/x/term", "encoding/hex", "encoding/base64", "math/bits":
		return true
	}
	switch name {
	case "fmt.Errorf":
		return true
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		return true
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "io.WriteString":
		return ef.isInfallibleWriter(cc.Args[0])
	}
	if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(cc.Args) > 0 {
		switch types.TypeString(g.Signature.Recv().Type(), nil) {
		case "*bytes.Buffer", "*strings.Builder":
			return strings.HasPrefix(g.Name(), "Write")
		}
	}
	if cc.IsInvoke() && strings.HasPrefix(cc.Method.Name(), "Write") {
		return ef.isInfallibleWriter(cc.Value)
	}
	return false
}

// ---------------------------------------------------------------- evaluation of facts

func (ef *errFlow) cell(v ssa.Value) (cellKey, bool) {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return cellKey{v, ""}, true
	case *ssa.Global:
		return cellKey{v, ""}, true
	case *ssa.FieldAddr:
		if k, ok := ef.cell(x.X); ok {
			return cellKey{k.base, fmt.Sprintf("%s.%d", k.path, x.Field)}, true
		}
		switch x.X.(type) {
		case *ssa.Parameter, *ssa.Call, *ssa.UnOp:
			return cellKey{x.X, fmt.Sprintf(".%d", x.Field)}, true
		}
	}
	return cellKey{}, false
}

func negFact(f fact) fact {
	switch f {
	case fTrue:
		return fFalse
	case fFalse:
		return fTrue
	}
	return fUnknown
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (ef *errFlow) eval(s *efState, v ssa.Value) fact { return ef.evalD(s, v, 0) }

func (ef *errFlow) evalD(s *efState, v ssa.Value, d int) fact {
	if f, ok := s.known[v]; ok {
		return f
	}
	if d > 12 {
		return fUnknown
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return fNil
		}
		switch x.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(x.Value) {
				return fTrue
			}
			return fFalse
		case constant.Int:
			if constant.Sign(x.Value) != 0 {
				return fNonZero
			}
			return fZero
		}
	case *ssa.MakeInterface:
		return fNonNil
	case *ssa.ChangeInterface:
		return ef.evalD(s, x.X, d+1)
	case *ssa.ChangeType:
		return ef.evalD(s, x.X, d+1)
	case *ssa.Convert:
		return fUnknown
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.MakeClosure, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Function, *ssa.Global:
		return fNonNil
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return negFact(ef.evalD(s, x.X, d+1))
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
				if ef.globOK[g] || (g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), ef.r.Module)) {
					return fNonNil
				}
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := ef.evalD(s, x.X, d+1), ef.evalD(s, x.Y, d+1)
			eq := fUnknown
			switch {
			case a == fNil && b == fNil, a == fTrue && b == fTrue, a == fFalse && b == fFalse, a == fZero && b == fZero:
				eq = fTrue
			case a == fNil && b == fNonNil, a == fNonNil && b == fNil, a == fTrue && b == fFalse, a == fFalse && b == fTrue,
				a == fZero && b == fNonZero, a == fNonZero && b == fZero:
				eq = fFalse
			}
			if x.X == x.Y {
				eq = fTrue
			}
			if eq != fUnknown {
				if x.Op == token.NEQ {
					return negFact(eq)
				}
				return eq
			}
		}
	case *ssa.Call:
		return ef.evalCall(s, x, -1, d)
	case *ssa.Extract:
		if f, ok := s.tup[tupKey{x.Tuple, x.Index}]; ok {
			return f
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return ef.evalCall(s, c, x.Index, d)
		}
	}
	return fUnknown
}

func (ef *errFlow) evalCall(s *efState, c *ssa.Call, idx int, d int) fact {
	if idx < 0 {
		if f, ok := s.tup[tupKey{c, -1}]; ok {
			return f
		}
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return fUnknown
	}
	switch g.String() {
	case "errors.New", "fmt.Errorf":
		return fNonNil
	case "errors.Join":
		if sl, ok := c.Call.Args[0].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && ef.evalD(s, st.Val, d+1) == fNonNil {
								return fNonNil
							}
						}
					}
				}
			}
		}
		return fUnknown
	}
	if !ef.r.InRepo(g) || len(g.Blocks) == 0 {
		return fUnknown
	}
	// wrapper summary: what the callee returns given the known facts about its arguments
	args := map[int]fact{}
	k := fmt.Sprintf("%s#%d", g.String(), idx)
	for i, a := range c.Call.Args {
		if f := ef.evalD(s, a, d+1); f != fUnknown {
			args[i] = f
			k += fmt.Sprintf(";%d=%d", i, f)
		}
	}
	if f, ok := ef.wrap[k]; ok {
		return fact(f)
	}
	ef.wrap[k] = int(fUnknown) // recursion
	f := ef.summary(g, args, idx)
	ef.wrap[k] = int(f)
	return f
}

// summary joins the facts of result idx over every reachable return of g under the argument facts.
func (ef *errFlow) summary(g *ssa.Function, args map[int]fact, idx int) fact {
	s := newEfState()
	for i, f := range args {
		if i < len(g.Params) {
			s.known[g.Params[i]] = f
		}
	}
	res := fact(255)
	w := &efWalk{ef: ef, fn: g, limit: 400, onReturn: func(st *efState, ret *ssa.Return, path []string) {
		i := idx
		if i < 0 {
			i = 0
		}
		f := fUnknown
		if i < len(ret.Results) {
			f = ef.eval(st, ret.Results[i])
		}
		if res == 255 {
			res = f
		} else if res != f {
			res = fUnknown
		}
	}}
	w.run(g.Blocks[0], 0, s)
	if res == 255 || w.over {
		return fUnknown
	}
	return res
}

// ---------------------------------------------------------------- the walk

type efWalk struct {
	ef       *errFlow
	fn       *ssa.Function
	seen     map[string]bool
	limit    int
	n        int
	over     bool
	onReturn func(s *efState, ret *ssa.Return, path []string)
	onExit   func(s *efState, arg ssa.Value, pos token.Pos, path []string)
	onBranch func(s *efState, cond ssa.Value, taken bool) bool // false: do not follow the edge
}

func (w *efWalk) run(b *ssa.BasicBlock, i int, s *efState) {
	if w.seen == nil {
		w.seen = map[string]bool{}
	}
	w.step(b, i, s, nil)
}

func (w *efWalk) step(b *ssa.BasicBlock, i int, s *efState, path []string) {
	for {
		if w.over {
			return
		}
		k := s.key(b, i)
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.n++
		if w.n > w.limit {
			w.over = true
			return
		}
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if v, ok := in.(ssa.Value); ok {
				if _, isPhi := in.(*ssa.Phi); !isPhi {
					delete(s.known, v)
					for tk := range s.tup {
						if tk.v == v {
							delete(s.tup, tk)
						}
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Store:
				if ck, ok := w.ef.cell(x.Addr); ok {
					if f := w.ef.eval(s, x.Val); f != fUnknown && (isIntStatus(w.fn) || f != fZero && f != fNonZero) {
						s.cells[ck] = f
					} else {
						delete(s.cells, ck)
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if ck, ok := w.ef.cell(x.X); ok {
						if f, ok := s.cells[ck]; ok {
							s.known[x] = f
						}
					}
				}
			case *ssa.Alloc:
				for ck := range s.cells {
					if ck.base == x {
						delete(s.cells, ck)
					}
				}
				if isErrorType(deref(x.Type())) {
					s.cells[cellKey{x, ""}] = fNil
				}
			case *ssa.RunDefers:
				if outs := w.runDefers(b, s); outs != nil {
					for _, o := range outs[1:] {
						w.step(b, i+1, o, path)
					}
					s = outs[0]
				}
			case *ssa.Call:
				switch calleeName(&x.Call) {
				case "os.Exit":
					if w.onExit != nil {
						w.onExit(s, x.Call.Args[0], x.Pos(), path)
					}
					return
				case "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
					return
				}
				// closures without error result that write captured error variables: execute them
				if mc := localClosure(x.Call.Value); mc != nil {
					if outs := w.execClosure(mc, s); len(outs) > 0 {
						for _, o := range outs[1:] {
							w.step(b, i+1, o, path)
						}
						s = outs[0]
					}
				}
			case *ssa.Return:
				if w.onReturn != nil {
					w.onReturn(s, x, path)
				}
				return
			case *ssa.Panic:
				return
			case *ssa.Jump:
				next := b.Succs[0]
				s = w.edge(b, next, s)
				b, i = next, 0
				goto nextBlock
			case *ssa.If:
				f := w.ef.eval(s, x.Cond)
				if f != fTrue && f != fFalse {
					pos := w.ef.r.Pos(condPos(x.Cond))
					s2 := s.clone()
					w.assume(s, x.Cond, true)
					w.assume(s2, x.Cond, false)
					if w.onBranch == nil || w.onBranch(s2, x.Cond, false) {
						w.step(b.Succs[1], 0, w.edge(b, b.Succs[1], s2), append(append([]string{}, path...), pos+" false"))
					}
					if w.onBranch != nil && !w.onBranch(s, x.Cond, true) {
						return
					}
					path = append(append([]string{}, path...), pos+" true")
					f = fTrue
				}
				next := b.Succs[0]
				if f == fFalse {
					next = b.Succs[1]
				}
				s = w.edge(b, next, s)
				b, i = next, 0
				goto nextBlock
			}
		}
		return
	nextBlock:
	}
}

func condPos(v ssa.Value) token.Pos {
	switch x := v.(type) {
	case *ssa.BinOp:
		return x.Pos()
	case *ssa.UnOp:
		return condPos(x.X)
	}
	return v.Pos()
}

// assume records what taking an edge tells us.
func (w *efWalk) assume(s *efState, cond ssa.Value, truth bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			w.assume(s, x.X, !truth)
			return
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			v, n := x.X, x.Y
			if isNilConst(v) {
				v, n = n, v
			}
			if isNilConst(n) && isErrorType(v.Type()) {
				if truth == (x.Op == token.EQL) {
					s.known[v] = fNil
				} else {
					s.known[v] = fNonNil
				}
				// keep the cell the value was loaded from in step
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if ck, ok := w.ef.cell(u.X); ok {
						s.cells[ck] = s.known[v]
					}
				}
				return
			}
		}
	}
	// remember boolean values that are tested again
	if refs := cond.Referrers(); refs != nil && len(*refs) > 1 {
		if truth {
			s.known[cond] = fTrue
		} else {
			s.known[cond] = fFalse
		}
	}
}

func (w *efWalk) edge(from, to *ssa.BasicBlock, s *efState) *efState {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	type upd struct {
		v ssa.Value
		f fact
	}
	var ups []upd
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx >= 0 {
			f := w.ef.eval(s, phi.Edges[idx])
			if f == fZero && !isIntStatus(w.fn) {
				f = fUnknown
			}
			ups = append(ups, upd{phi, f})
		}
	}
	for _, u := range ups {
		if u.f == fUnknown {
			delete(s.known, u.v)
		} else {
			s.known[u.v] = u.f
		}
	}
	return s
}

func isIntStatus(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	b, ok := res.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func localClosure(v ssa.Value) *ssa.MakeClosure {
	mc, _ := v.(*ssa.MakeClosure)
	return mc
}

// runDefers executes the deferred closures of the function (all of them, in reverse order of their
// blocks) whose defer statement dominates b; others are executed optionally.
func (w *efWalk) runDefers(b *ssa.BasicBlock, s *efState) []*efState {
	var ds []*ssa.Defer
	for _, bb := range w.fn.Blocks {
		for _, in := range bb.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				ds = append(ds, d)
			}
		}
	}
	states := []*efState{s}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		mc := localClosure(d.Call.Value)
		if mc == nil || !capturesError(mc) {
			continue
		}
		var next []*efState
		if !d.Block().Dominates(b) {
			for _, st := range states {
				next = append(next, st.clone())
			}
		}
		for _, st := range states {
			next = append(next, w.execClosure(mc, st)...)
		}
		states = next
		if len(states) > 64 {
			w.over = true
			return states[:1]
		}
	}
	if len(states) == 0 {
		return []*efState{s}
	}
	return states
}

func capturesError(mc *ssa.MakeClosure) bool {
	for _, bnd := range mc.Bindings {
		if isErrorType(deref(bnd.Type())) {
			return true
		}
	}
	return false
}

// execClosure runs a closure body on the caller's state and returns the caller states after it.
func (w *efWalk) execClosure(mc *ssa.MakeClosure, s *efState) []*efState {
	if !capturesError(mc) {
		return nil
	}
	fn := mc.Fn.(*ssa.Function)
	in := newEfState()
	for i, bnd := range mc.Bindings {
		if ck, ok := w.ef.cell(bnd); ok {
			if f, ok := s.cells[ck]; ok {
				in.cells[cellKey{fn.FreeVars[i], ""}] = f
			}
		}
	}
	var outs []*efState
	sub := &efWalk{ef: w.ef, fn: fn, limit: 2000, onReturn: func(st *efState, ret *ssa.Return, path []string) {
		o := s.clone()
		for i, bnd := range mc.Bindings {
			if ck, ok := w.ef.cell(bnd); ok {
				if f, ok := st.cells[cellKey{fn.FreeVars[i], ""}]; ok {
					o.cells[ck] = f
				} else {
					delete(o.cells, ck)
				}
			}
		}
		outs = append(outs, o)
	}}
	sub.run(fn.Blocks[0], 0, in)
	if sub.over {
		w.over = true
	}
	return outs
}

// ---------------------------------------------------------------- obligations

type efSite struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	fk   failKind
}

type efFail struct {
	site  efSite
	where string
	why   string
	key   string
}

// sites lists every failure-reporting call of a function, in source order.
func (ef *errFlow) sites(fn *ssa.Function) []efSite {
	var out []efSite
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if fk, ok := ef.failure(c); ok {
					out = append(out, efSite{fn, c, fk})
				}
			}
		}
	}
	return out
}

func statusResult(fn *ssa.Function) (int, fact) {
	res := fn.Signature.Results()
	for i := res.Len() - 1; i >= 0; i-- {
		if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok {
			idx := i
			if b.Kind() == types.Bool {
				return idx, fFalse
			}
			if b.Kind() == types.Int && res.Len() == 1 {
				return idx, fNonZero
			}
		}
	}
	return -1, fUnknown
}

func (ef *errFlow) inferStatus() {
	for changed := true; changed; {
		changed = false
		for _, fn := range ef.r.Funcs {
			if _, done := ef.status[fn]; done || errIndex(fn.Signature) >= 0 {
				continue
			}
			idx, f := statusResult(fn)
			if idx < 0 || len(ef.sites(fn)) == 0 {
				continue
			}
			k := failKind{idx, f}
			if fn.Signature.Results().Len() == 1 {
				k.tup = -1
			}
			ef.status[fn] = k
			changed = true
		}
	}
}

// captured error variables through which a closure without error result reports failure
func capturedErrs(fn *ssa.Function) []*ssa.FreeVar {
	var out []*ssa.FreeVar
	for _, fv := range fn.FreeVars {
		if isErrorType(deref(fv.Type())) {
			out = append(out, fv)
		}
	}
	return out
}

// checkSite decides one obligation; it returns nil when every failure is reported.
func (ef *errFlow) checkSite(site efSite) []efFail {
	var fails []efFail
	add := func(where, key, why string) {
		for _, f := range fails {
			if f.where == where && f.key == key {
				return
			}
		}
		fails = append(fails, efFail{site, where, why, key})
	}
	r := ef.r
	switch site.call.(type) {
	case *ssa.Go:
		add(r.Pos(site.call.Pos()), "goroutine", "its failure is lost in a goroutine")
		return fails
	case *ssa.Defer:
		if site.call.Common().IsInvoke() && site.call.Common().Method.Name() == "Close" {
			return nil
		}
		if g := site.call.Common().StaticCallee(); g != nil && g.Name() == "Close" {
			return nil
		}
		add(r.Pos(site.call.Pos()), "deferred", "its failure is lost: the result of a deferred call is discarded")
		return fails
	}
	call := site.call.(*ssa.Call)
	if g := call.Call.StaticCallee(); g != nil && g.Name() == "Close" && deferOnly(site.fn) {
		return nil // clean-up of a deferred closure, like a deferred Close
	}
	for _, ctx := range ef.ctxs[site.fn] {
		s := newEfState()
		for i, v := range ctx {
			if i < len(site.fn.Params) {
				if v {
					s.known[site.fn.Params[i]] = fTrue
				} else {
					s.known[site.fn.Params[i]] = fFalse
				}
			}
		}
		s.tup[tupKey{call, site.fk.tup}] = site.fk.fact
		ef.explore(site, ctx, s, call.Block(), instrIndex(call)+1, add)
	}
	return fails
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (ef *errFlow) explore(site efSite, ctx map[int]bool, s *efState, b *ssa.BasicBlock, i int, add func(where, key, why string)) {
	fn := site.fn
	ei := errIndex(fn.Signature)
	si, sf := statusResult(fn)
	r := ef.r
	tail := func(p []string) string {
		if len(p) > 6 {
			p = p[len(p)-6:]
		}
		if len(p) == 0 {
			return ""
		}
		return " along the branches " + strings.Join(p, ", ")
	}
	w := &efWalk{ef: ef, fn: fn, limit: 30000}
	w.onBranch = func(st *efState, cond ssa.Value, taken bool) bool {
		sent, truth := ef.sentinelTest(st, cond)
		if sent == "" || taken != truth {
			return true
		}
		// the failure is a recognised sentinel on this edge
		return !(ef.Tol != nil && ef.Tol(ef, fn, ctx, site.call, sent))
	}
	w.onExit = func(st *efState, arg ssa.Value, pos token.Pos, path []string) {
		if ef.eval(st, arg) != fNonZero {
			add(r.Pos(pos), "exit", "after it failed the program can exit with status 0"+tail(path))
		}
	}
	w.onReturn = func(st *efState, ret *ssa.Return, path []string) {
		pos := r.Pos(ret.Pos())
		switch {
		case ei >= 0:
			if f := ef.eval(st, ret.Results[ei]); f != fNonNil {
				add(pos, "return", fmt.Sprintf("after it failed the function can return at %s with an error that is not known to be non-nil%s", pos, tail(path)))
			}
		case si >= 0:
			if f := ef.eval(st, ret.Results[si]); f != sf {
				add(pos, "return", fmt.Sprintf("after it failed the function can return at %s with a result that is not %s%s", pos, sf, tail(path)))
			}
		default:
			for _, fv := range capturedErrs(fn) {
				if st.cells[cellKey{fv, ""}] == fNonNil {
					ef.continueInParent(site, fn, fv, add)
					return
				}
			}
			add(pos, "return", "after it failed the function returns without reporting anything"+tail(path))
		}
	}
	w.run(b, i, s)
	if w.over {
		add(r.Pos(site.call.Pos()), "undecided", "the number of abstract states exceeds the bound, the failure is not shown to be reported")
	}
}

// continueInParent: a closure has stored the failure in a captured variable; the enclosing function
// must report that variable after calling (or deferring) the closure.
func (ef *errFlow) continueInParent(site efSite, fn *ssa.Function, fv *ssa.FreeVar, add func(where, key, why string)) {
	parent := fn.Parent()
	if parent == nil {
		return
	}
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	for _, b := range parent.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			ck, ok := ef.cell(mc.Bindings[idx])
			if !ok {
				add(ef.r.Pos(mc.Pos()), "capture", "the failure is stored in a captured variable that cannot be followed")
				continue
			}
			for _, ref := range *mc.Referrers() {
				switch c := ref.(type) {
				case *ssa.Defer:
					if c.Call.Value != mc {
						continue
					}
					// the failing run of the closure happens at RunDefers: the return must read the variable after it
					for _, bb := range parent.Blocks {
						for i, x := range bb.Instrs {
							if _, ok := x.(*ssa.RunDefers); ok {
								s := newEfState()
								s.cells[ck] = fNonNil
								ef.explore(efSite{parent, site.call, site.fk}, nil, s, bb, i+1, add)
							}
						}
					}
				case *ssa.Call:
					s := newEfState()
					s.cells[ck] = fNonNil
					ef.explore(efSite{parent, site.call, site.fk}, nil, s, c.Block(), instrIndex(c)+1, add)
				}
			}
		}
	}
}

// sentinelTest recognises err == sentinel and errors.Is(err, sentinel).
// It returns the sentinel and the truth value of cond that means "the error is the sentinel".
func (ef *errFlow) sentinelTest(s *efState, cond ssa.Value) (string, bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			n, t := ef.sentinelTest(s, x.X)
			return n, !t
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return "", false
		}
		a, b := x.X, x.Y
		n := sentinelName(b)
		if n == "" {
			n = sentinelName(a)
			a, b = b, a
		}
		if n == "" || ef.eval(s, a) != fNonNil {
			return "", false
		}
		return n, x.Op == token.EQL
	case *ssa.Call:
		if calleeName(&x.Call) == "errors.Is" && ef.eval(s, x.Call.Args[0]) == fNonNil {
			return sentinelName(x.Call.Args[1]), true
		}
	}
	return "", false
}

func sentinelName(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || !isErrorType(deref(g.Type())) {
		return ""
	}
	return g.String()
}

// ---------------------------------------------------------------- write-capable functions

func isWriteMethodName(n string) bool {
	return strings.HasPrefix(n, "Write") || n == "ReadFrom" || n == "Flush" || n == "Encode"
}

// directWrite: the call itself pushes bytes (or positions a sink) towards the caller's writer.
func (ef *errFlow) directWrite(cc *ssa.CallCommon) bool {
	if ef.infallible(cc) {
		return false
	}
	n := calleeName(cc)
	if cc.IsInvoke() {
		if isWriteMethodName(cc.Method.Name()) || cc.Method.Name() == "OnWriteField" {
			return true
		}
		if cc.Method.Name() == "Seek" && hasMethod(cc.Value.Type(), "Write") {
			return true
		}
		return false
	}
	switch n {
	case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		return !ef.isInfallibleWriter(cc.Args[0])
	}
	if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && !ef.r.InRepo(g) {
		return isWriteMethodName(g.Name()) || (g.Name() == "Seek" && hasMethod(g.Signature.Recv().Type(), "Write"))
	}
	if g := cc.StaticCallee(); g == nil {
		// dynamic call: handed a sink
		for _, a := range cc.Args {
			if hasMethod(a.Type(), "Write") {
				return true
			}
		}
		// ... or captures one
		return cc.Signature().Results().Len() > 0
	}
	return false
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (ef *errFlow) buildWriters() {
	ef.writers = map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range ef.r.Funcs {
			if ef.writers[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && ef.isWriteCall(c.Common()) {
						ef.writers[fn] = true
					}
				}
			}
			if ef.writers[fn] {
				changed = true
			}
		}
	}
}

func (ef *errFlow) isWriteCall(cc *ssa.CallCommon) bool {
	if ef.directWrite(cc) {
		return true
	}
	if g := cc.StaticCallee(); g != nil {
		return ef.writers[ef.r.declared(g)]
	}
	return false
}

// deferOnly: the closure is only ever deferred.
func deferOnly(fn *ssa.Function) bool {
	p := fn.Parent()
	if p == nil {
		return false
	}
	n := 0
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == fn {
					n++
					continue
				}
				if d.Call.Value == ssa.Value(fn) {
					n++
					continue
				}
			}
			if _, ok := in.(*ssa.MakeClosure); ok {
				continue
			}
			var rands [12]*ssa.Value
			for _, op := range in.Operands(rands[:0]) {
				if op == nil || *op == nil {
					continue
				}
				if *op == ssa.Value(fn) {
					return false
				}
				if mc, ok := (*op).(*ssa.MakeClosure); ok && mc.Fn == fn {
					return false
				}
			}
		}
	}
	return n > 0
}

// spilled resolves the load of a result variable (functions with defers spill their results) to the
// value stored into it in the same block.
func spilled(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	res := v
	for _, in := range u.Block().Instrs {
		if in == ssa.Instruction(u) {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == al {
			res = st.Val
		}
	}
	return res
}

// ---------------------------------------------------------------- read-capable functions

func memorySource(v ssa.Value) bool {
	switch types.TypeString(v.Type(), nil) {
	case "*bytes.Buffer", "*bytes.Reader", "*strings.Reader":
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return memorySource(x.X)
	case *ssa.ChangeInterface:
		return memorySource(x.X)
	}
	return false
}

func (ef *errFlow) directRead(cc *ssa.CallCommon) bool {
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	n := calleeName(cc)
	if cc.IsInvoke() {
		m := cc.Method.Name()
		if m == "Seek" {
			return !hasMethod(cc.Value.Type(), "Write")
		}
		return strings.HasPrefix(m, "Read") || m == "OnReadField" || m == "BeforeUnmarshal"
	}
	switch n {
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		return !memorySource(cc.Args[1])
	case "io.ReadFull", "io.ReadAll", "io.ReadAtLeast", "encoding/binary.Read":
		return !memorySource(cc.Args[0])
	}
	g := cc.StaticCallee()
	if g == nil {
		return cc.Signature().Results().Len() > 0
	}
	if g.Signature.Recv() != nil && !ef.r.InRepo(g) {
		return strings.HasPrefix(g.Name(), "Read") || g.Name() == "Seek" || g.Name() == "Decode"
	}
	return false
}

func (ef *errFlow) buildReaders() {
	ef.readers = map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range ef.r.Funcs {
			if ef.readers[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if ef.isReadCall(c.Common()) {
							ef.readers[fn] = true
							changed = true
						}
					}
				}
			}
		}
	}
}

func (ef *errFlow) isReadCall(cc *ssa.CallCommon) bool {
	if ef.directRead(cc) {
		return true
	}
	if g := cc.StaticCallee(); g != nil {
		return ef.readers[ef.r.declared(g)]
	}
	return false
}
