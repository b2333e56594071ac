package main

// Field tables of the box structures, read from the type-checked source: struct tags give the static
// part, the custom field methods (evaluated by the engine) give the dynamic part. The registry is
// obtained by interpreting the package initialisers.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Tag map[string]string

func parseTag(s string) (order int, t Tag) {
	t = Tag{}
	order = 0
	for _, e := range strings.Split(s, ",") {
		kv := strings.SplitN(e, "=", 2)
		k := strings.TrimSpace(kv[0])
		if len(kv) == 2 {
			t[k] = strings.TrimSpace(kv[1])
			continue
		}
		if n, err := strconv.Atoi(k); err == nil {
			order = n
			continue
		}
		t[k] = ""
	}
	return
}

func (t Tag) has(k string) bool { _, ok := t[k]; return ok }

// num parses a number the way the field table does: decimal, or hexadecimal with a 0x prefix.
func (t Tag) num(k string) (uint64, bool) {
	s, ok := t[k]
	if !ok {
		return 0, false
	}
	base := 10
	if strings.HasPrefix(s, "0x") {
		s, base = s[2:], 16
	}
	n, err := strconv.ParseUint(s, base, 64)
	return n, err == nil
}

type Fld struct {
	Name   string
	Type   types.Type
	Order  int
	Tag    Tag
	Embed  bool
	Var    *types.Var
	Struct types.Type
}

// fields lists the tagged fields of a struct type in wire order.
func fields(t types.Type) []Fld {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var fs []Fld
	for i := 0; i < st.NumFields(); i++ {
		tg, ok := reflect.StructTag(st.Tag(i)).Lookup("mp4")
		if !ok {
			continue
		}
		o, m := parseTag(tg)
		f := st.Field(i)
		fs = append(fs, Fld{Name: f.Name(), Type: f.Type(), Order: o, Tag: m, Embed: f.Embedded(), Var: f, Struct: t})
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Order < fs[j].Order })
	return fs
}

// RegEntry is one registration performed by the package initialisers.
type RegEntry struct {
	Code     string // four characters
	Type     types.Type
	Versions []uint64
	Target   *V // nil: always
	Pos      string
	PC       *B
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func codeOf(e *Eng, v *V) (string, bool) {
	n := v.single()
	if n == nil || n.Op != "array" || len(n.Elems) != 4 {
		return "", false
	}
	b := make([]byte, 4)
	for i, x := range n.Elems {
		c := x.single()
		if c == nil || c.Op != "int" {
			return "", false
		}
		b[i] = byte(c.C)
	}
	return string(b), true
}

// registry interprets the initialisers and collects the registrations in order.
func (e *Eng) registry(r *Repo) (regs []RegEntry, problems []string) {
	old := e.OnCall
	defer func() { e.OnCall = old }()
	e.Globals = nil
	e.OnCall = func(c *CallCtx) (*V, bool) {
		if c.Fn == nil || c.Fn.Pkg != r.Root {
			return nil, false
		}
		ti, ctx := -1, -1
		switch c.Fn.Name() {
		case "AddBoxDef":
		case "AddBoxDefEx":
			ctx = 1
		case "AddAnyTypeBoxDef":
			ti = 1
		case "AddAnyTypeBoxDefEx":
			ti, ctx = 1, 2
		default:
			return nil, false
		}
		pos := r.Pos(c.in.Pos())
		re := RegEntry{Pos: pos, PC: c.st.pc}
		pl := c.Args[0].single()
		if pl == nil || pl.Op != "iface" {
			problems = append(problems, pos+": registered type is not determined")
			return nil, true
		}
		re.Type = deref(pl.T)
		if ti >= 0 {
			code, ok := codeOf(e, c.Args[ti])
			if !ok {
				problems = append(problems, pos+": registered box type is not determined: "+c.Args[ti].String())
				return nil, true
			}
			re.Code = code
		} else {
			code, ok := e.getType(r, pl)
			if !ok {
				problems = append(problems, pos+": GetType of "+typeName(re.Type)+" is not a constant")
				return nil, true
			}
			re.Code = code
		}
		if ctx >= 0 {
			re.Target = c.Args[ctx]
		}
		vs := c.Args[len(c.Args)-1]
		if n := vs.single(); n != nil {
			ln := e.lenOf(n)
			if ln.Op != "int" || ln.C > 16 {
				problems = append(problems, pos+": supported versions are not determined")
			} else {
				for i := uint64(0); i < ln.C; i++ {
					x := e.load(c.st, e.sliceElem(c.st, n, e.intN(i, 64)), types.Typ[types.Uint8]).single()
					if x == nil || x.Op != "int" {
						problems = append(problems, pos+": supported version is not a constant")
						continue
					}
					re.Versions = append(re.Versions, x.C)
				}
			}
		} else {
			problems = append(problems, pos+": supported versions are not determined")
		}
		regs = append(regs, re)
		return nil, true
	}
	e.initGlobals()
	return
}

func (e *Eng) method(t types.Type, name string) *ssa.Function {
	ms := e.r.Prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.r.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (e *Eng) getType(r *Repo, pl *Node) (string, bool) {
	fn := e.method(deref(pl.T), "GetType")
	if fn == nil {
		return "", false
	}
	saveG := e.Globals
	if e.Globals == nil {
		e.Globals = emptyState(e)
	}
	st := e.newState()
	e.Globals = saveG
	v, s := e.runTop(fn, st, []*V{pl.Elems[0]})
	if s == nil || v == nil {
		return "", false
	}
	return codeOf(e, v)
}

func dumpSpec(r *Repo) {
	e := newEng(r)
	regs, probs := e.registry(r)
	for _, p := range probs {
		fmt.Println("# PROBLEM", p)
	}
	for _, g := range regs {
		vs := ""
		for _, v := range g.Versions {
			vs += fmt.Sprintf(" %d", v)
		}
		tg := ""
		if g.Target != nil {
			tg = " target=" + g.Target.String()
		}
		fmt.Printf("reg %q %s versions=%s%s\n", g.Code, typeName(g.Type), vs, tg)
	}
	seen := map[string]bool{}
	var dump func(t types.Type)
	dump = func(t types.Type) {
		n := typeName(t)
		if seen[n] {
			return
		}
		seen[n] = true
		fmt.Printf("type %s\n", n)
		var next []types.Type
		for _, f := range fields(t) {
			l := fmt.Sprintf("  %s %s", f.Name, types.TypeString(f.Type, func(*types.Package) string { return "" }))
			if f.Embed {
				l += " embed"
			}
			if f.Tag["size"] != "dynamic" && f.Tag.has("size") {
				l += " size=" + f.Tag["size"]
			} else if f.Tag.has("size") {
				l += " size=??"
			}
			cond := ""
			add := func(s string) {
				if cond != "" {
					cond += "&&"
				}
				cond += s
			}
			if f.Tag.has("ver") {
				add("ver==" + f.Tag["ver"])
			}
			if f.Tag.has("nver") {
				add("ver!=" + f.Tag["nver"])
			}
			if f.Tag["opt"] == "dynamic" {
				add("??")
			} else if f.Tag.has("opt") {
				add("flags&" + f.Tag["opt"] + "!=0")
			}
			if f.Tag.has("nopt") {
				add("flags&" + f.Tag["nopt"] + "==0")
			}
			if cond != "" {
				l += " if=" + cond
			}
			if f.Tag["len"] == "dynamic" {
				l += " len=??"
			} else if f.Tag.has("len") {
				l += " len=" + f.Tag["len"]
			}
			for _, k := range []string{"const", "string", "boxstring", "varint", "iso639-2", "uuid", "hex", "dec", "hidden"} {
				if f.Tag.has(k) {
					l += " " + k
					if f.Tag[k] != "" {
						l += "=" + f.Tag[k]
					}
				}
			}
			fmt.Println(l)
			ft := f.Type
			for {
				switch u := ft.Underlying().(type) {
				case *types.Slice:
					ft = u.Elem()
					continue
				case *types.Array:
					ft = u.Elem()
					continue
				case *types.Pointer:
					ft = u.Elem()
					continue
				}
				break
			}
			if _, ok := ft.Underlying().(*types.Struct); ok {
				next = append(next, ft)
			}
		}
		for _, x := range next {
			dump(x)
		}
	}
	for _, g := range regs {
		dump(g.Type)
	}
	dump(r.Root.Pkg.Scope().Lookup("Item").Type())
}
