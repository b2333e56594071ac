package main

// X01: what the commands of mp4tool write, on files of which only the structure is known.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["X01"] = func(c *Check) {
		c.Assume = append(c.Assume, "ReadBoxStructure, Writer, Marshal, Stringify and the extraction functions do what T01, W01, R05, S01 and E01 show of them",
			"flag, os, bufseekio and base64 behave as documented; the width of the terminal is not known (180 columns)")
		runCodec(c, toolCases(c), 235)
	}
}

// tool runs a command of mp4tool on a file. What it does to its output is kept as a list of steps.
type tool struct {
	*vfile
	flags  map[string]string
	args   []string
	steps  []string
	open   []*vbox
	snap   map[*vbox]*V
	patch  map[*vbox]map[string]*V
	depth  []string
	handle int
	bound  map[string]*vbox // handle functions
	paths  map[string][]string
	hnd    *Node
}

const toolOut, toolW = "output file", "writer"

func (k *codec) newTool(top []*vbox, args []string, flags map[string]string) *tool {
	t := &tool{vfile: k.newFile(top), flags: flags, args: args, snap: map[*vbox]*V{}, patch: map[*vbox]map[string]*V{},
		bound: map[string]*vbox{}, paths: map[string][]string{}}
	for _, b := range t.all {
		if b.payload != nil {
			t.snap[b] = k.e.load(t.st, b.payload, k.gtype(b.typ))
		}
	}
	return t
}

// step records something done to the output; it must not depend on unknown values.
func (t *tool) step(cc *CallCtx, format string, a ...interface{}) {
	if cc.st.pc != t.k.e.b.T {
		t.wrong("%s depends on the contents of the boxes: %s", t.k.chain(cc.fr), fmt.Sprintf(format, a...))
	}
	s := fmt.Sprintf(format, a...)
	if n := len(t.steps); n > 0 && strings.HasPrefix(s, "print ") && strings.HasPrefix(t.steps[n-1], "print ") {
		t.steps[n-1] += strings.TrimPrefix(s, "print ")
		return
	}
	t.steps = append(t.steps, s)
}

// fileByte: the byte at a position of the input.
func fileByte(n *Node) (uint64, bool) {
	if n == nil || n.Op != "sym" || !strings.HasPrefix(n.Name, "file:") {
		return 0, false
	}
	var at uint64
	_, err := fmt.Sscan(n.Name[5:], &at)
	return at, err == nil
}

// take reads bytes of the input.
func (t *tool) take(st *State, n uint64) ([]*V, bool) {
	pos := t.k.ghost(st, "rpos").single()
	if pos == nil || pos.Op != "int" || n > 1<<16 {
		return nil, false
	}
	var bs []*V
	for i := uint64(0); i < n; i++ {
		bs = append(bs, t.k.e.v(t.k.e.mk(Node{Op: "sym", Name: fmt.Sprintf("file:%d", pos.C+i), T: byteT})))
	}
	st.ghost["rpos"] = t.k.e.intV(pos.C+n, 64)
	return bs, true
}

// source: the input, or as many of its bytes as are asked for.
func (t *tool) source(st *State, v *V) (limit uint64, limited, ok bool) {
	if t.isSym(st, v, inName) {
		return 0, false, true
	}
	n := t.k.e.under(v, st.pc).single()
	if n != nil && n.Op == "iface" {
		n = t.k.e.under(n.Elems[0], st.pc).single()
	}
	if n != nil && n.Op == "sym" && strings.HasPrefix(n.Name, "limit:") {
		fmt.Sscan(n.Name[6:], &limit)
		return limit, true, true
	}
	return 0, false, false
}

func (t *tool) sym(name string) *V {
	return t.k.e.v(t.k.e.mk(Node{Op: "sym", Name: name, T: types.Typ[types.Invalid]}))
}

func (t *tool) isSym(st *State, v *V, name string) bool {
	n := t.k.e.under(v, st.pc).single()
	if n != nil && n.Op == "iface" {
		n = t.k.e.under(n.Elems[0], st.pc).single()
	}
	return n != nil && n.Op == "sym" && n.Name == name
}

// infoOf finds the box a *BoxInfo (or a copy of it) describes: all of its fields must be those of the box.
func (t *tool) infoOf(st *State, v *V) *vbox {
	k, e := t.k, t.k.e
	n := e.under(v, st.pc).single()
	if n == nil || n.Op == "nil" {
		return nil
	}
	bi := k.gtype("BoxInfo")
	got := e.load(st, e.ptrOf(st, n), bi)
	for _, b := range t.all {
		if e.sameV(got, e.load(t.st, b.info, bi), st.pc) {
			return b
		}
	}
	return nil
}

func (t *tool) str(st *State, v *V) (string, bool) {
	bs, ok := t.k.e.bytesV(st, v)
	if !ok {
		return "", false
	}
	var sb strings.Builder
	for i := 0; i < len(bs); i++ {
		n := bs[i].single()
		switch at, ok := fileByte(n); {
		case n != nil && n.Op == "int":
			sb.WriteByte(byte(n.C))
		case ok: // a run of bytes of the file
			j := i + 1
			for ; j < len(bs); j++ {
				if x, ok := fileByte(bs[j].single()); !ok || x != at+uint64(j-i) {
					break
				}
			}
			fmt.Fprintf(&sb, "<%#x+%d>", at, j-i)
			i = j - 1
		default:
			return "", false
		}
	}
	return sb.String(), true
}

// play calls the handler for boxes, as the traversal does.
func (t *tool) play(cc *CallCtx, f *Node, bs []*vbox, path []string) *V {
	k, e, st := t.k, t.k.e, cc.st
	hT, bt := k.gtype("ReadHandle"), k.gtype("BoxType")
	for _, b := range bs {
		t.handle++
		obj := k.fresh("handle") + "\x00"
		set := func(name string, v *V) bool {
			at, ft := pathTo(hT, name)
			if ft == nil {
				t.wrong("ReadHandle.%s is missing", name)
				return false
			}
			e.store(st, e.ptrN(obj, at), ft, v, e.b.T)
			return true
		}
		p := append(append([]string{}, path...), b.code)
		var els []*V
		for _, c := range p {
			els = append(els, k.typeV(c))
		}
		set("Params", e.nilV())
		set("BoxInfo", e.load(t.st, b.info, k.gtype("BoxInfo")))
		set("Path", e.newSlice(st, k.fresh("path"), bt, els))
		for _, fn := range []string{"ReadPayload", "ReadData", "Expand"} {
			_, ft := pathTo(hT, fn)
			name := fmt.Sprintf("%s#%d", fn, t.handle)
			set(fn, e.v(e.mk(Node{Op: "sym", Name: name, T: ft})))
			t.bound["dyn:"+name], t.paths["dyn:"+name] = b, p
		}
		old := t.hnd
		t.hnd = f
		r := e.callIn(cc, f, e.v(e.ptrN(obj, "")))
		t.hnd = old
		if r == nil || cc.st.pc == e.b.F {
			t.wrong("the handler never returns for %s", b.code)
			return nil
		}
		st = cc.st
		n := e.under(r, st.pc).single()
		if n == nil || n.Op != "tuple" || len(n.Elems) != 2 {
			t.wrong("the handler's results for %s are not determined", b.code)
			return nil
		}
		err := e.under(n.Elems[1], st.pc).single()
		if err == nil {
			t.wrong("whether the handler fails for %s is not determined", b.code)
			return nil
		}
		if err.Op != "nil" {
			return e.v(err)
		}
	}
	return e.nilV()
}

func (t *tool) onCall(cc *CallCtx) (*V, bool) {
	k, e, st := t.k, t.k.e, cc.st
	void := e.v(e.mk(Node{Op: "tuple"}))
	if b := t.bound[cc.Name]; b != nil {
		switch {
		case strings.HasPrefix(cc.Name, "dyn:ReadPayload"):
			if b.payload == nil {
				t.wrong("the payload of %s is decoded, which is not supported", b.code)
				return nil, false
			}
			if b.badVersion {
				return e.tuple(e.nilV(), e.intV(0, 64), k.global("github.com/abema/go-mp4.ErrUnsupportedBoxVersion")), true
			}
			return e.tuple(e.v(e.mk(Node{Op: "iface", T: types.NewPointer(k.gtype(b.typ)), Elems: []*V{e.v(b.payload)}})),
				e.symVal(k.fresh("n"), types.Typ[types.Uint64]), e.nilV()), true
		case strings.HasPrefix(cc.Name, "dyn:ReadData"):
			if t.isSym(st, cc.Args[0], "g:os.Stdout") {
				t.step(cc, "out payload of %s", b.code)
			} else if !k.print(cc, cc.Args[0], []talt{{e.b.T, k.lit(b.data())}}) {
				t.wrong("%s writes the payload of %s to something unknown", k.chain(cc.fr), b.code)
			}
			return e.tuple(e.intV(b.size-b.hdr, 64), e.nilV()), true
		default:
			st.ghost["rpos"] = e.intV(b.off+b.size, 64)
			if b.payload == nil {
				t.wrong("%s is expanded, which is not supported", b.code)
				return nil, false
			}
			if b.badVersion {
				return e.tuple(e.nilV(), k.global("github.com/abema/go-mp4.ErrUnsupportedBoxVersion")), true
			}
			err := t.play(cc, t.hnd, b.kids, t.paths[cc.Name])
			if err == nil {
				return nil, false
			}
			return e.tuple(e.nilV(), err), true
		}
	}
	strArg := func(i int) string {
		s, ok := t.str(st, cc.Args[i])
		if !ok {
			t.wrong("%s: an argument of %s is not constant", k.chain(cc.fr), cc.Name)
		}
		return s
	}
	cell := func(typ types.Type, v *V) *V {
		obj := k.fresh("flag") + "\x00"
		e.store(st, e.ptrN(obj, ""), typ, v, e.b.T)
		return e.v(e.ptrN(obj, ""))
	}
	flagV := func(name string, def *V, typ types.Type) *V {
		s, ok := t.flags[name]
		if !ok {
			return def
		}
		switch {
		case isString(typ):
			return e.bstr(k.lit(s))
		case isBool(typ):
			return e.boolV(e.b.T)
		}
		var n uint64
		fmt.Sscan(s, &n)
		w, _, _ := intWidth(typ)
		return e.intV(n, w)
	}
	const fl = "(*flag.FlagSet)."
	switch {
	case cc.Name == "flag.NewFlagSet":
		return cell(types.Typ[types.Int], e.intV(0, 64)), true
	case strings.HasPrefix(cc.Name, fl):
		switch m := strings.TrimPrefix(cc.Name, fl); m {
		case "Parse":
			return e.nilV(), true
		case "PrintDefaults":
			return void, true
		case "NArg":
			return e.intV(uint64(len(t.args)), 64), true
		case "Args":
			var els []*V
			for _, a := range t.args {
				els = append(els, e.bstr(k.lit(a)))
			}
			return e.newSlice(st, k.fresh("args"), types.Typ[types.String], els), true
		case "Arg":
			n := e.under(cc.Args[1], st.pc).single()
			if n == nil || n.Op != "int" || n.C >= uint64(len(t.args)) {
				return e.bstr(nil), true
			}
			return e.bstr(k.lit(t.args[n.C])), true
		case "String", "Bool", "Uint64", "Uint", "Int", "Int64":
			typ := deref(cc.com.Signature().Results().At(0).Type())
			return cell(typ, flagV(strArg(1), cc.Args[2], typ)), true
		case "StringVar", "BoolVar", "Uint64Var", "UintVar", "IntVar", "Int64Var":
			typ := deref(cc.com.Args[1].Type())
			p := e.under(cc.Args[1], st.pc).single()
			if p == nil {
				return nil, false
			}
			e.store(st, e.ptrOf(st, p), typ, flagV(strArg(2), cc.Args[3], typ), e.b.T)
			return void, true
		}
	case cc.Name == "os.Open":
		if s := strArg(0); s != "in.mp4" {
			t.wrong("%s opens %q", k.chain(cc.fr), s)
		}
		return e.tuple(t.sym(inName), e.nilV()), true
	case cc.Name == "os.Create":
		if s := strArg(0); s != "out.mp4" {
			t.wrong("%s creates %q", k.chain(cc.fr), s)
		}
		return e.tuple(t.sym(toolOut), e.nilV()), true
	case strings.Contains(cc.Name, "bufseekio.ReadSeeker).") && t.isSym(st, cc.Args[0], inName):
		return k.stream(cc, inName, cc.Name[strings.LastIndex(cc.Name, ".")+1:])
	case strings.HasSuffix(cc.Name, "bufseekio.NewReadSeeker"):
		if !t.isSym(st, cc.Args[0], inName) {
			t.wrong("%s reads something else than the input", k.chain(cc.fr))
		}
		return t.sym(inName), true
	case cc.Name == "(*encoding/base64.Encoding).EncodeToString" && t.isSym(st, cc.Args[0], "g:encoding/base64.StdEncoding"):
		bs, ok := e.bytesV(st, cc.Args[1])
		if !ok {
			t.wrong("%s encodes bytes that are not determined", k.chain(cc.fr))
			return nil, false
		}
		return e.bstr(append(append(k.lit("base64("), bs...), k.lit(")")...)), true
	case strings.HasSuffix(cc.Name, "/term.GetSize"):
		return e.tuple(e.intV(0, 64), e.intV(0, 64), e.newErr(cc)), true
	case cc.Name == "io.LimitReader" && t.isSym(st, cc.Args[0], inName):
		if n := e.under(cc.Args[1], st.pc).single(); n != nil && n.Op == "int" {
			return t.sym(fmt.Sprintf("limit:%d", n.C)), true
		}
	case cc.Name == "io.ReadFull" && t.isSym(st, cc.Args[0], inName):
		n, ok := e.constLen(st, cc.Args[1])
		d := e.under(cc.Args[1], st.pc).single()
		bs, ok2 := t.take(st, uint64(n))
		if !ok || !ok2 || d == nil {
			t.wrong("%s reads something that is not determined", k.chain(cc.fr))
			return nil, false
		}
		for i, b := range bs {
			e.store(st, e.sliceElem(st, d, e.intN(uint64(i), 64)), byteT, b, e.b.T)
		}
		return e.tuple(e.intV(uint64(n), 64), e.nilV()), true
	case cc.Name == "io.ReadAll" || cc.Name == "io/ioutil.ReadAll":
		n, limited, ok := t.source(st, cc.Args[0])
		if !ok {
			break
		}
		bs, ok := t.take(st, n)
		if !ok || !limited {
			t.wrong("%s reads something that is not determined", k.chain(cc.fr))
			return nil, false
		}
		return e.tuple(e.newSlice(st, k.fresh("read"), byteT, bs), e.nilV()), true
	case cc.Name == "io.CopyN" || cc.Name == "io.Copy":
		lim, limited, ok := t.source(st, cc.Args[1])
		if !ok {
			break
		}
		if cc.Name == "io.CopyN" {
			if n := e.under(cc.Args[2], st.pc).single(); n != nil && n.Op == "int" && (!limited || n.C <= lim) {
				lim, limited = n.C, true
			} else {
				limited = false
			}
		}
		pos := k.ghost(st, "rpos").single()
		if !limited || pos == nil || pos.Op != "int" {
			t.wrong("%s copies something that is not determined", k.chain(cc.fr))
			return nil, false
		}
		switch {
		case t.isSym(st, cc.Args[0], "g:os.Stdout"):
			t.step(cc, "out %#x+%d", pos.C, lim)
			st.ghost["rpos"] = e.intV(pos.C+lim, 64)
		default:
			bs, ok := t.take(st, lim)
			if !ok || !k.print(cc, cc.Args[0], []talt{{e.b.T, bs}}) {
				t.wrong("%s copies something that is not determined", k.chain(cc.fr))
				return nil, false
			}
		}
		return e.tuple(e.intV(lim, 64), e.nilV()), true
	case cc.Name == "io.WriteString" && t.isSym(st, cc.Args[0], "g:os.Stdout"), cc.Name == "(*os.File).Write" && t.isSym(st, cc.Args[0], "g:os.Stdout"),
		cc.Name == "(*os.File).WriteString" && t.isSym(st, cc.Args[0], "g:os.Stdout"):
		s, ok := t.str(st, cc.Args[1])
		if !ok {
			t.wrong("%s prints a text that is not determined", k.chain(cc.fr))
		}
		t.step(cc, "print %s", s)
		n, _ := e.constLen(st, cc.Args[1])
		return e.tuple(e.intV(uint64(n), 64), e.nilV()), true
	case strings.HasPrefix(cc.Name, "(*os.File)."):
		switch strings.TrimPrefix(cc.Name, "(*os.File).") {
		case "Close", "Sync":
			return e.nilV(), true
		case "Fd":
			return e.intV(0, 64), true
		case "Seek", "Read":
			if t.isSym(st, cc.Args[0], inName) {
				return k.stream(cc, inName, strings.TrimPrefix(cc.Name, "(*os.File)."))
			}
		}
	case cc.Name == "fmt.Println", cc.Name == "fmt.Printf", cc.Name == "fmt.Print", cc.Name == "fmt.Fprintln", cc.Name == "fmt.Fprintf" && t.isSym(st, cc.Args[0], "g:os.Stdout"):
		at := 0
		if strings.HasPrefix(cc.Name, "fmt.F") {
			if !t.isSym(st, cc.Args[0], "g:os.Stdout") {
				return e.tuple(e.intV(0, 64), e.nilV()), true
			}
			at = 1
		}
		out, ok := k.format(cc, at, strings.HasSuffix(cc.Name, "f"))
		if !ok || len(out) != 1 {
			if cc.Name == "fmt.Println" && !ok { // an error message
				t.step(cc, "message")
				return e.tuple(e.intV(0, 64), e.nilV()), true
			}
			t.wrong("%s prints a text that is not determined", k.chain(cc.fr))
			return e.tuple(e.intV(0, 64), e.nilV()), true
		}
		s, ok := t.str(st, e.bstr(out[0].el))
		if !ok {
			t.wrong("%s prints a text that is not determined", k.chain(cc.fr))
		}
		if strings.HasSuffix(cc.Name, "ln") {
			s += "\n"
		}
		t.step(cc, "print %s", s)
		return e.tuple(e.intV(0, 64), e.nilV()), true
	}
	if cc.Fn == nil || cc.Fn.Pkg == nil || cc.Fn.Pkg != k.r.Root {
		return t.vfile.onCall(cc)
	}
	if len(cc.Args) > 0 && t.isSym(st, cc.Args[0], inName) {
		sub := *cc
		sub.Args = append([]*V{t.sym(inName)}, cc.Args[1:]...)
		cc = &sub
	}
	switch name := k.r.Name(cc.Fn); name {
	case "mp4.ReadBoxStructure":
		if !t.isSym(st, cc.Args[0], inName) {
			t.wrong("%s traverses something else than the input", k.chain(cc.fr))
		}
		f := e.under(cc.Args[1], st.pc).single()
		err := t.play(cc, f, t.top, nil)
		if err == nil {
			return nil, false
		}
		return e.tuple(e.nilV(), err), true
	case "(*mp4.BoxInfo).IsSupportedType":
		if b := t.infoOf(st, cc.Args[0]); b != nil {
			return e.boolV(e.b.Bool(b.payload != nil)), true
		}
		t.wrong("%s asks for the support of a box that is none of the file", k.chain(cc.fr))
		return nil, false
	case "mp4.NewWriter":
		if !t.isSym(st, cc.Args[0], toolOut) {
			t.wrong("%s writes to something else than the output", k.chain(cc.fr))
		}
		return t.sym(toolW), true
	case "(*mp4.Writer).StartBox", "(*mp4.Writer).CopyBox", "(*mp4.Writer).EndBox", "mp4.Marshal":
		if !t.isSym(st, cc.Args[0], toolW) {
			t.wrong("%s writes to something else than the output", k.chain(cc.fr))
		}
		switch name {
		case "(*mp4.Writer).EndBox":
			t.step(cc, "end")
			if len(t.open) > 0 {
				t.open = t.open[:len(t.open)-1]
			}
			return e.tuple(e.symVal(k.fresh("info"), cc.Fn.Signature.Results().At(0).Type()), e.nilV()), true
		case "mp4.Marshal":
			t.marshal(cc)
			return e.tuple(e.symVal(k.fresh("n"), types.Typ[types.Uint64]), e.nilV()), true
		}
		b := t.infoOf(st, cc.Args[len(cc.Args)-1])
		if b == nil {
			t.wrong("%s: the header of a box is not that of the input", k.chain(cc.fr))
			return nil, false
		}
		if name == "(*mp4.Writer).CopyBox" {
			if !t.isSym(st, cc.Args[1], inName) {
				t.wrong("%s copies from something else than the input", k.chain(cc.fr))
			}
			t.step(cc, "copy %s@%#x", b.code, b.off)
			return e.nilV(), true
		}
		t.step(cc, "start %s@%#x", b.code, b.off)
		t.open = append(t.open, b)
		return e.tuple(cc.Args[1], e.nilV()), true
	case "mp4.Stringify":
		b := t.payloadOf(st, cc.Args[0])
		if b == nil || !e.sameV(e.under(cc.Args[1], st.pc), b.ctx, st.pc) {
			t.wrong("%s prints another payload, or not in the context of the box", k.chain(cc.fr))
			return nil, false
		}
		return e.tuple(e.bstr(k.lit(b.text)), e.nilV()), true
	}
	return t.vfile.onCall(cc)
}

func (t *tool) payloadOf(st *State, v *V) *vbox {
	n := t.k.e.under(v, st.pc).single()
	if n == nil || n.Op != "iface" {
		return nil
	}
	p := t.k.e.under(n.Elems[0], st.pc).single()
	for _, b := range t.all {
		if p != nil && b.payload == p {
			return b
		}
	}
	return nil
}

// marshal: the payload written must be that of the innermost open box, apart from what is to be edited.
func (t *tool) marshal(cc *CallCtx) {
	k, e, st := t.k, t.k.e, cc.st
	if len(t.open) == 0 {
		t.wrong("%s writes a payload outside of any box", k.chain(cc.fr))
		return
	}
	b := t.open[len(t.open)-1]
	t.step(cc, "payload %s@%#x", b.code, b.off)
	n := e.under(cc.Args[1], st.pc).single()
	typ := k.gtype(b.typ)
	if n == nil || n.Op != "iface" || typ == nil || !types.Identical(deref(n.T), typ) {
		t.wrong("%s writes another structure as the payload of %s", k.chain(cc.fr), b.code)
		return
	}
	if !e.sameV(e.under(cc.Args[2], st.pc), b.ctx, st.pc) {
		t.wrong("%s does not write %s in its own context", k.chain(cc.fr), b.code)
	}
	p := e.under(n.Elems[0], st.pc).single()
	if p == nil {
		t.wrong("%s writes an unknown payload", k.chain(cc.fr))
		return
	}
	got := e.load(st, e.ptrOf(st, p), typ)
	s := typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		nm := s.Field(i).Name()
		want := t.patch[b][nm]
		if want == nil {
			want = e.part(t.st, t.snap[b], typ, nm)
		}
		if !e.sameV(e.part(st, got, typ, nm), want, st.pc) {
			t.wrong("%s.%s is written as %s, must be %s", b.code, nm, e.part(st, got, typ, nm), want)
		}
	}
}

// data is the payload of an opaque box.
func (b *vbox) data() string { return "\x01\xa0" + b.code }

// run interprets the command.
func (t *tool) run(cmd string) string {
	k, e := t.k, t.k.e
	pkg := "cmd/mp4tool/internal/" + cmd
	fn := k.r.Func(pkg, "Main")
	if fn == nil {
		return "the command " + cmd + " is missing"
	}
	if len(t.bad) > 0 {
		return strings.Join(t.bad, "; ")
	}
	k.text = true
	old := e.OnCall
	e.OnCall = t.onCall
	defer func() { e.OnCall, k.text = old, false }()
	k.input = nil
	st := t.st
	if init := k.r.Func(pkg, "init"); init != nil {
		o := k.run(init, st, e.b.T)
		if o.st == nil {
			return "the initialisation of " + cmd + " never ends" + k.why()
		}
		st = o.st
		st.pc = e.b.T
	}
	st.ghost["rpos"] = e.intV(0, 64)
	var args []*V
	for _, a := range t.args {
		args = append(args, e.bstr(k.lit(a)))
	}
	o := k.run(fn, st, e.b.T, e.newSlice(st, k.fresh("args"), types.Typ[types.String], args))
	if len(t.bad) > 0 {
		return strings.Join(t.bad, "; ") + k.why()
	}
	if o == nil || o.st == nil || o.st.pc != e.b.T || len(o.vals) != 1 {
		return "the command does not end" + k.why()
	}
	if k.panicking() {
		return "the command may panic" + k.why()
	}
	if len(k.undec) > 0 {
		return "not decided" + k.why()
	}
	n := e.under(o.vals[0], e.b.T).single()
	if n == nil || n.Op != "int" {
		return "the exit status is not determined" + k.why()
	}
	t.steps = append(t.steps, fmt.Sprintf("exit %d", n.C))
	return ""
}

func (t *tool) compare(want []string) string {
	for i := 0; i < len(want) || i < len(t.steps); i++ {
		g, w := "nothing", "nothing"
		if i < len(t.steps) {
			g = t.steps[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("step %d is %q, must be %q", i+1, g, w) + t.k.why()
		}
	}
	return ""
}

// ---------------------------------------------------------------- the files

func box0(code, typ string, kids ...*vbox) *vbox { return &vbox{code: code, typ: typ, kids: kids} }

// toolFile has supported and unknown boxes at several depths, tables, boxes of unknown versions and media data.
func toolFile(k *codec, ver uint64) []*vbox {
	tfdt := func(v uint64) *vbox {
		b := box0("tfdt", "Tfdt")
		b.ver = v
		b.fill = func(f *vfile, st *State, p *Node, t types.Type) {
			f.set(st, p, t, k.e.intV(v, 8), "FullBox", "Version")
		}
		return b
	}
	if ver == 2 { // boxes inside boxes of their own type, of small and great sizes
		sized := func(n uint64, b *vbox) *vbox {
			b.room = n
			return b
		}
		return []*vbox{
			sized(1, box0("udta", "Udta", sized(5<<32, box0("udta", "Udta", box0("udta", "Udta"), sized(1<<20, box0("free", "Free")))))),
			sized(240, box0("trun", "Trun")),
			sized(239, box0("trun", "Trun")),
			sized(248, box0("trun", "Trun")),
			sized(256, box0("trun", "Trun")),
			sized(1, box0("traf", "Traf", sized(1, box0("traf", "Traf", tfdt(0), tfdt(1), tfdt(0))), sized(1<<33, box0("mdat", "Mdat")))),
			sized(1<<40, box0("zzzz", "")),
			sized(1, box0("zzzz", "")),
		}
	}
	bad := box0("meta", "Meta", box0("free", "Free"))
	bad.badVersion = true
	top := []*vbox{
		box0("ftyp", "Ftyp"),
		box0("free", "Free"),
		box0("moov", "Moov",
			box0("mvhd", "Mvhd"),
			box0("zzzz", "", box0("mvhd", "Mvhd")),
			box0("trak", "Trak",
				box0("tkhd", "Tkhd"),
				box0("mdia", "Mdia", box0("minf", "Minf", box0("stbl", "Stbl", box0("stsz", "Stsz"), box0("stco", "Stco")))),
				box0("zzzz", "")),
			box0("pssh", "Pssh")),
		box0("moof", "Moof",
			box0("traf", "Traf", box0("tfhd", "Tfhd"), tfdt(ver), box0("trun", "Trun")),
			box0("traf", "Traf", tfdt(1-ver)),
			box0("free", "Free")),
		box0("mdat", "Mdat"),
		box0("zzzz", ""),
		box0("moof", "Moof", box0("traf", "Traf", tfdt(ver))),
		box0("mdat", "Mdat"),
	}
	if ver == 1 {
		top = append(top, bad, box0("skip", "Skip"))
	}
	return top
}

func toolCases(c *Check) []ccase {
	var out []ccase
	// edit
	for _, ver := range []uint64{0, 1, 2} {
		for _, drop := range []string{"", "free", "trak,zzzz", "mdat", "moof,free", "stco,tfhd", "traf", "udta"} {
			for _, base := range []string{"", "0", "5", "4294967295", "4294967296", "18446744073709551614"} {
				ver, drop, base := ver, drop, base
				out = append(out, ccase{"edit", fmt.Sprintf("version %d drop %q base %q", ver, drop, base), func(k *codec) string {
					top := toolFile(k, ver)
					if ver == 1 {
						top = top[:len(top)-2]
					}
					flags := map[string]string{}
					dropped := map[string]bool{}
					if drop != "" {
						flags["drop"] = drop
						for _, d := range strings.Split(drop, ",") {
							dropped[d] = true
						}
					}
					if base != "" {
						flags["base_media_decode_time"] = base
					}
					t := k.newTool(top, []string{"in.mp4", "out.mp4"}, flags)
					var want []string
					var n uint64
					fmt.Sscan(base, &n)
					fails := false
					var walk func(bs []*vbox)
					walk = func(bs []*vbox) {
						for _, b := range bs {
							if fails || dropped[b.code] {
								continue
							}
							if b.typ == "" || b.code == "mdat" {
								want = append(want, fmt.Sprintf("copy %s@%#x", b.code, b.off))
								continue
							}
							want = append(want, fmt.Sprintf("start %s@%#x", b.code, b.off))
							if b.code == "tfdt" && base != "" {
								if b.ver == 0 && n >= 1<<32 {
									fails = true // cannot be written
									continue
								}
								nm, w := "BaseMediaDecodeTimeV0", 32
								if b.ver == 1 {
									nm, w = "BaseMediaDecodeTimeV1", 64
								}
								t.patch[b] = map[string]*V{nm: k.e.intV(n, w)}
							}
							want = append(want, fmt.Sprintf("payload %s@%#x", b.code, b.off))
							walk(b.kids)
							if !fails {
								want = append(want, "end")
							}
						}
					}
					walk(top)
					if s := t.run("edit"); s != "" {
						return s
					}
					if fails {
						if last := t.steps[len(t.steps)-1]; last == "exit 0" {
							return "a decode time that does not fit into the box is written without an error"
						}
						return ""
					}
					return t.compare(append(want, "exit 0"))
				}})
			}
		}
	}
	out = append(out, dumpCases()...)
	// psshdump
	for _, n := range []int{0, 1, 3, 7} {
		n := n
		out = append(out, ccase{"psshdump", fmt.Sprintf("%d boxes", n), func(k *codec) string {
			i := 0
			pssh := func() *vbox {
				i++
				j := uint64(i)
				b := box0("pssh", "Pssh")
				b.room = 30 + j
				b.fill = func(f *vfile, st *State, p *Node, t types.Type) {
					f.set(st, p, t, k.e.intV(j%2, 8), "FullBox", "Version")
					for x := uint64(0); x < 16; x++ {
						if x < 3 {
							f.set(st, p, t, k.e.intV(j+x, 8), "FullBox", "Flags", int(x))
						}
						f.set(st, p, t, k.e.intV(x*17+j, 8), "SystemID", int(x))
					}
					f.set(st, p, t, k.e.intV(j*70000, 32), "DataSize")
				}
				return b
			}
			moov := box0("moov", "Moov", box0("mvhd", "Mvhd"), box0("zzzz", "", box0("free", "Free")))
			top := []*vbox{box0("ftyp", "Ftyp"), moov}
			var want []*vbox
			for j := 0; j < n; j++ {
				b := pssh()
				want = append(want, b)
				if j%3 < 2 {
					moov.kids = append(moov.kids, b)
				} else {
					top = append(top, box0("moof", "Moof", box0("mfhd", "Mfhd"), b), box0("mdat", "Mdat"))
				}
			}
			top = append(top, box0("skip", "Skip"))
			t := k.newTool(top, []string{"in.mp4"}, nil)
			var got []*vbox
			for _, b := range t.all {
				if b.code == "pssh" {
					got = append(got, b)
				}
			}
			text := ""
			for j, b := range got {
				id := 0
				for x := range want {
					if want[x] == b {
						id = x + 1
					}
				}
				sys := ""
				for x := 0; x < 16; x++ {
					if x == 4 || x == 6 || x == 8 || x == 10 {
						sys += "-"
					}
					sys += fmt.Sprintf("%02x", byte(x*17+id))
				}
				text += fmt.Sprintf("%d:\n  offset: %d\n  size: %d\n  version: %d\n  flags: 0x%02x%02x%02x\n  systemId: %s\n  dataSize: %d\n  base64: \"base64(<%#x+%d>)\"\n\n",
					j, b.off, b.size, id%2, id, id+1, id+2, sys, id*70000, b.off, b.size)
			}
			if s := t.run("psshdump"); s != "" {
				return s
			}
			if text == "" {
				return t.compare([]string{"exit 0"})
			}
			return t.compare([]string{"print " + text, "exit 0"})
		}})
	}
	// extract
	for _, ver := range []uint64{0, 1, 2} {
		for _, code := range []string{"moov", "free", "zzzz", "mvhd", "tfdt", "stsz", "mdat", "trak", "meta", "pssh", "nope", "ftyp", "udta", "trun", "traf"} {
			ver, code := ver, code
			out = append(out, ccase{"extract", fmt.Sprintf("%s from file %d", code, ver), func(k *codec) string {
				top := toolFile(k, ver)
				t := k.newTool(top, []string{code, "in.mp4"}, nil)
				var want []string
				var walk func(bs []*vbox)
				walk = func(bs []*vbox) {
					for _, b := range bs {
						if b.code == code {
							want = append(want, fmt.Sprintf("out %#x+%d", b.off, b.size))
						}
						if b.typ != "" && !b.badVersion {
							walk(b.kids)
						}
					}
				}
				walk(top)
				if s := t.run("extract"); s != "" {
					return s
				}
				return t.compare(append(want, "exit 0"))
			}})
		}
	}
	return out
}

// dumpCases: the listing of the boxes.
func dumpCases() []ccase {
	var out []ccase
	for _, ver := range []uint64{0, 1, 2} {
		for _, opts := range []string{"", "a", "offset", "hex", "offset hex", "mdat", "free", "full=mdat", "full=free,zzzz", "full=tkhd,pssh,trun",
			"full=moof,meta", "a offset", "full=stsz a", "free mdat full=ftyp"} {
			ver, opts := ver, opts
			out = append(out, ccase{"dump", fmt.Sprintf("file %d options %q", ver, opts), func(k *codec) string {
				top := toolFile(k, ver)
				flags, on, full := map[string]string{}, map[string]bool{}, map[string]bool{}
				for _, o := range strings.Fields(opts) {
					name, val, _ := strings.Cut(o, "=")
					flags[name], on[name] = val, true
					switch name {
					case "full":
						for _, f := range strings.Split(val, ",") {
							full[f] = true
						}
					case "mdat":
						full["mdat"] = true
					case "free":
						full["free"], full["skip"] = true, true
					}
				}
				n := 0
				var prep func(bs []*vbox)
				prep = func(bs []*vbox) {
					for _, b := range bs {
						n++
						b.text = fmt.Sprintf("N=%d", n)
						switch b.code {
						case "ftyp":
							b.room = 20
						case "stsz":
							b.room = 63
						case "pssh":
							b.room = 64
						case "tkhd", "mvhd":
							b.text = strings.Repeat("L", 100+60*n)
						case "stbl":
							b.text = ""
						}
						prep(b.kids)
					}
				}
				prep(top)
				t := k.newTool(top, []string{"in.mp4"}, flags)
				text := ""
				var walk func(bs []*vbox, depth int)
				walk = func(bs []*vbox, depth int) {
					for _, b := range bs {
						line := strings.Repeat("  ", depth) + "[" + b.code + "]"
						num := func(v uint64) string {
							if on["hex"] {
								return fmt.Sprintf("0x%x", v)
							}
							return fmt.Sprint(v)
						}
						if b.typ == "" {
							line += " (unsupported box type)"
						}
						if on["offset"] {
							line += " Offset=" + num(b.off)
						}
						line += " Size=" + num(b.size)
						hint := fmt.Sprintf("(use \"-full %s\" to show all)", b.code)
						all := full[b.code] || on["a"]
						media := b.code == "mdat" || b.code == "free" || b.code == "skip"
						leaf := b.code == "ftyp" || b.code == "pssh" || b.code == "stsz" || b.code == "stco" || b.code == "trun"
						kids := false
						switch {
						case media && !full[b.code]:
							line += " Data=[...] " + hint
						case b.typ != "" && !all && leaf && b.size-b.hdr >= 64:
							line += " ... " + hint
						case b.typ != "" && !b.badVersion:
							kids = true
							if !all && len(line)+len(b.text)+2 > 180 {
								line += " ... " + hint
							} else if b.text != "" {
								line += " " + b.text
							}
						default:
							if b.badVersion {
								line += " (unsupported box version)"
							}
							if !all {
								line += " Data=[...] " + hint
								break
							}
							line += " Data=["
							for i, c := range []byte(b.data()) {
								if i > 0 {
									line += " "
								}
								line += fmt.Sprintf("0x%02x", c)
							}
							line += "]"
						}
						text += line + "\n"
						if kids {
							walk(b.kids, depth+1)
						}
					}
				}
				walk(top, 0)
				if s := t.run("dump"); s != "" {
					return s
				}
				return t.compare([]string{"print " + text, "exit 0"})
			}})
		}
	}
	return out
}
