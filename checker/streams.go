package main

// A reader or writer position as a ghost variable: seeks and transfers update it.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stream tracks the position of one interface value.
type stream struct {
	name string // ghost
	node *Node
}

func (s *stream) is(v *V) bool {
	if v == nil {
		return false
	}
	for _, a := range v.alts {
		if a.n != s.node {
			return false
		}
	}
	return len(v.alts) > 0
}

func (e *Eng) pos(st *State, s *stream) *V {
	if v := st.ghost[s.name]; v != nil {
		return v
	}
	return e.intV(0, 64)
}

func (e *Eng) add64(st *State, a, b *V) *V {
	return e.map2(a, b, st.pc, func(x, y *Node) *V { return e.v(e.add(x, y, 64)) })
}

func (e *Eng) sub64(st *State, a, b *V) *V {
	return e.map2(a, b, st.pc, func(x, y *Node) *V { return e.v(e.sub(x, y, 64)) })
}

func (e *Eng) tuple(vs ...*V) *V { return e.v(e.mk(Node{Op: "tuple", Elems: vs})) }

func (e *Eng) nilV() *V { return e.v(e.nilN(nil)) }

// streamCall models Seek and the transfer functions of package io on a tracked stream.
func (e *Eng) streamCall(cc *CallCtx, s *stream) (*V, bool) {
	st := cc.st
	at := e.site(cc.fr, cc.in)
	switch {
	case cc.Fn == nil && strings.HasSuffix(cc.Name, ").Seek") && len(cc.Args) == 3 && s.is(cc.Args[0]):
		off, wh := cc.Args[1], cc.Args[2].single()
		np := e.symVal("pos@"+at, types.Typ[types.Uint64])
		if wh != nil && wh.Op == "int" {
			switch wh.C {
			case 0:
				np = off
			case 1:
				np = e.add64(st, e.pos(st, s), off)
			case 2:
				np = e.add64(st, e.symVal("end("+s.name+")", types.Typ[types.Uint64]), off)
			}
		}
		st.ghost[s.name] = np
		return e.tuple(np, e.nilV()), true
	case (cc.Name == "io.CopyN") && s.is(cc.Args[1]):
		st.ghost[s.name] = e.add64(st, e.pos(st, s), cc.Args[2])
		e.event(st, cc.fr, cc.in, "io.CopyN", cc.Fn, cc.Args)
		return e.tuple(cc.Args[2], e.nilV()), true
	case cc.Name == "io.ReadFull" && s.is(cc.Args[0]):
		n := e.lenV(st, cc.Args[1])
		st.ghost[s.name] = e.add64(st, e.pos(st, s), n)
		e.event(st, cc.fr, cc.in, "io.ReadFull", cc.Fn, cc.Args)
		e.havoc(st, cc.Args[1], map[string]bool{})
		return e.tuple(n, e.nilV()), true
	}
	for _, a := range cc.Args {
		if a != nil && s.is(a) && cc.Fn == nil || (cc.Fn != nil && s.is(a) && !e.r.InRepo(cc.Fn)) {
			// anything else that gets hold of the stream may move it
			st.ghost[s.name] = e.symVal("pos@"+at, types.Typ[types.Uint64])
			return nil, false
		}
	}
	return nil, false
}

// object makes a pointer to a fresh object of unknown content.
func (e *Eng) object(cc *CallCtx, base string) *Node {
	obj := "a:" + e.site(cc.fr, cc.in) + "\x00"
	cc.st.drop(obj)
	cc.st.base[obj] = base
	return e.ptrN(obj, "")
}

// pathOf finds a (possibly promoted) field of a struct type.
func (e *Eng) pathOf(t types.Type, name string) (string, types.Type) {
	obj, idx, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, e.r.Root.Pkg, name)
	f, ok := obj.(*types.Var)
	if !ok {
		return "", nil
	}
	p := ""
	cur := t
	for _, i := range idx {
		fv := deref(cur).Underlying().(*types.Struct).Field(i)
		p += "." + fv.Name()
		cur = fv.Type()
	}
	return p, f.Type()
}

// get loads a field of the struct a pointer leads to.
func (e *Eng) get(st *State, p *V, t types.Type, name string) *V {
	path, ft := e.pathOf(t, name)
	if ft == nil {
		return nil
	}
	return e.map1(p, st.pc, func(n *Node) *V {
		q := e.ptrOf(st, n)
		return e.load(st, e.ptrN(q.Name, q.Path+path), ft)
	})
}

// part selects a field of a struct value.
func (e *Eng) part(st *State, v *V, t types.Type, name string) *V {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, e.r.Root.Pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		return nil
	}
	cur := t
	for _, i := range idx {
		f := cur.Underlying().(*types.Struct).Field(i)
		i := i
		v = e.map1(v, st.pc, func(n *Node) *V { return e.elem(st, n, i, f.Name(), f.Type()) })
		cur = f.Type()
	}
	return v
}

func rootFunc(r *Repo, fn *ssa.Function, name string) bool {
	return fn != nil && fn.Pkg == r.Root && fn.Signature.Recv() == nil && fn.Name() == name
}
