package main

// R06: what Marshal and Unmarshal have to refuse, on the witness structures of R03 and R04 and some more.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["R06"] = func(c *Check) { runCodec(c, refuseCases(c), 400) }
}

const errPkg = "g:github.com/abema/go-mp4."

// always: the error result is never nil, and the error is the named one if there is a name.
func (k *codec) always(o *outcome, i int, what, name string) string {
	if k.failing(o, i) != o.st.pc {
		return what + " does not always return an error" + k.why()
	}
	if name != "" && !k.named(o, i, o.st.pc, name) {
		return what + " returns another error than " + name + k.why()
	}
	if len(k.undec) > 0 {
		return "not decided" + k.why()
	}
	return ""
}

// named: under cond the error is the package's error of that name.
func (k *codec) named(o *outcome, i int, cond *B, name string) bool {
	ok := k.e.b.F
	for _, a := range o.vals[i].alts {
		if a.n.Op == "sym" && a.n.Name == errPkg+name {
			ok = k.e.b.Or(ok, a.g)
		}
	}
	return k.e.b.And(cond, k.e.b.Not(ok)) == k.e.b.F
}

func (k *codec) refuses(b *wbox, bits []*B, pc *B, payload, extra int, name string) string {
	o, bad, _ := k.unmarshal(b, bits, pc, payload, extra)
	if bad != "" {
		return bad
	}
	return k.always(o, 1, "Unmarshal", name)
}

// tryMarshal runs Marshal on the witness and returns the outcome.
func (k *codec) tryMarshal(b *wbox) (*outcome, string) {
	e := k.e
	if b.st == nil {
		return nil, "the structure cannot be registered" + k.why()
	}
	st := b.st.clone()
	obj := k.fresh("w:src") + "\x00"
	st.base[obj] = "src"
	b.put(st, e.ptrN(obj, ""))
	if b.prep != nil {
		b.prep(st, e.ptrN(obj, ""))
	}
	src := e.v(e.mk(Node{Op: "iface", T: types.NewPointer(b.named), Elems: []*V{e.v(e.ptrN(obj, ""))}}))
	st.ghost["out"] = e.v(e.mk(Node{Op: "blist"}))
	o := k.call("Marshal", st, b.pc, e.v(e.mk(Node{Op: "sym", Name: outName, T: types.Typ[types.Invalid]})), src, b.context(k))
	if o == nil || o.st == nil || len(o.vals) != 2 {
		return nil, "Marshal never returns" + k.why()
	}
	if e.b.And(b.pc, e.b.Not(o.st.pc)) != e.b.F {
		return nil, "Marshal does not return for some values" + k.why()
	}
	return o, ""
}

func (k *codec) refusesEnc(b *wbox, name string) string {
	o, bad := k.tryMarshal(b)
	if bad != "" {
		return bad
	}
	return k.always(o, 1, "Marshal", name)
}

func refuseCases(c *Check) []ccase {
	var out []ccase
	add := func(kind, name string, f func(k *codec) string) { out = append(out, ccase{kind, name, f}) }

	// payloads and readers that end before the fields do
	for _, s := range shapes() {
		s := s
		if s.noDec || s.kind == "custom" {
			continue
		}
		if s.kind == "integer" && !(strings.HasSuffix(s.name, "bit 0") || strings.HasSuffix(s.name, "bit 5")) {
			continue
		}
		add("short", s.kind+" "+s.name, func(k *codec) string {
			b := s.build(k)
			n := len(b.bits) / 8
			if n == 0 {
				return ""
			}
			if !s.tail && !strings.HasPrefix(s.name, "two strings") { // a string may end with the payload
				if r := k.refuses(b, b.bits, b.pc, n-1, 3, ""); r != "" {
					return "payload shorter by a byte: " + r
				}
			}
			if strings.Contains(s.name, "not terminated") && n == 1 {
				return ""
			}
			if r := k.refuses(b, b.bits[:8*(n-1)], b.pc, n, 0, ""); r != "" {
				return "input shorter by a byte: " + r
			}
			return ""
		})
	}
	// element counts that claim more than there is
	for _, n := range []uint64{1, 3, 1 << 20, 1<<32 - 2} {
		for _, w := range []struct {
			t    types.Type
			size int
		}{{types.Typ[types.Uint8], 8}, {types.Typ[types.Uint8], 4}, {types.Typ[types.Uint16], 16}, {types.Typ[types.Uint64], 64}} {
			n, w := n, w
			mk := func(k *codec) *wbox {
				return k.box(&wit{lens: map[string]uint64{"F": n}}, []wfield{{name: "A", tag: "0,size=8", v: k.num(8, 8, false)},
					{name: "F", tag: fmt.Sprintf("1,size=%d,len=dynamic", w.size), v: k.list(w.t, nil, 0)}})
			}
			add("count", fmt.Sprintf("%d elements of %d bits announced, none there", n, w.size), func(k *codec) string {
				b := mk(k)
				if r := k.refuses(b, b.bits, b.pc, 1, 0, ""); r != "" {
					return r
				}
				return k.refusesEnc(b, "")
			})
		}
	}
	for _, have := range []int{0, 1, 2} {
		have := have
		add("count", fmt.Sprintf("%d of 3 structures given", have), func(k *codec) string {
			b := k.box(&wit{lens: map[string]uint64{"F": 3}}, []wfield{{name: "F", tag: "1,len=dynamic", v: k.list(entry(k).t, k.seq(have, func() *wv { return entry(k) }), 0)}})
			return k.refusesEnc(b, "")
		})
		add("count", fmt.Sprintf("%d of 3 bytes given, constant length", have), func(k *codec) string {
			b := k.box(&wit{}, []wfield{{name: "F", tag: "1,size=8,len=3", v: k.list(types.Typ[types.Uint8], k.seq(have, func() *wv { return k.num(8, 8, false) }), 0)}})
			return k.refusesEnc(b, "")
		})
	}
	// structures that do not fill whole bytes
	for bits := 1; bits <= 15; bits++ {
		if bits == 8 {
			continue
		}
		bits := bits
		add("alignment", fmt.Sprintf("%d bits", bits), func(k *codec) string {
			b := k.box(&wit{}, []wfield{{name: "A", tag: fmt.Sprintf("0,size=%d", bits), v: k.num(16, bits, false)}})
			if r := k.refusesEnc(b, ""); r != "" {
				return r
			}
			n := (bits + 7) / 8
			return k.refuses(b, k.symBits(8*n, k.fresh("in")), k.e.b.T, n, 4, "")
		})
	}
	for _, rest := range []int{1, 2, 3, 5} {
		rest := rest
		add("alignment", fmt.Sprintf("unlimited elements of 48 bits in %d bytes", 6+rest), func(k *codec) string {
			et := k.record(nil, []wfield{{name: "X", tag: "0,size=32", v: k.num(32, 32, false)}, {name: "Y", tag: "1,size=16", v: k.num(16, 16, false)}})
			b := k.box(&wit{}, []wfield{{name: "F", tag: "1,size=48", v: k.list(et.t, nil, 0)}})
			return k.refuses(b, k.symBits(8*(6+rest), k.fresh("in")), k.e.b.T, 6+rest, 0, "")
		})
		add("alignment", fmt.Sprintf("unlimited integers of 32 bits in %d bytes", 8+rest%4), func(k *codec) string {
			b := k.box(&wit{}, []wfield{{name: "F", tag: "1,size=32", v: k.list(types.Typ[types.Uint32], nil, 0)}})
			n := 8 + rest%4
			return k.refuses(b, k.symBits(8*n, k.fresh("in")), k.e.b.T, n, 5, "")
		})
	}
	for _, size := range []int{8, 16, 32, 48, 64} {
		size := size
		if size == 40 {
			continue
		}
		add("alignment", fmt.Sprintf("structure of 40 bits sized %d", size), func(k *codec) string {
			x := entry(k)
			b := k.box(&wit{sizes: map[string]uint64{"F": uint64(size)}}, []wfield{{name: "F", tag: "1,size=dynamic", v: x}})
			return k.refuses(b, k.symBits(80, k.fresh("in")), k.e.b.T, 10, 0, "")
		})
	}
	// what cannot be coded at all
	for _, t := range []types.Type{types.Typ[types.Int8], types.Typ[types.Int32], types.Typ[types.Int64]} {
		t := t
		w, _, _ := intWidth(t)
		add("unsupported", "signed varint "+t.String(), func(k *codec) string {
			f := k.num(w, w, true)
			b := k.box(&wit{}, []wfield{{name: "F", tag: "0,varint", v: f}})
			if r := k.refusesEnc(b, ""); r != "" {
				return r
			}
			return k.refuses(b, k.symBits(80, k.fresh("in")), k.e.b.T, 10, 0, "")
		})
	}
	for _, t := range []types.Type{types.Typ[types.Int16], types.Typ[types.Uint32], types.Typ[types.Bool]} {
		t := t
		add("unsupported", "size 0, "+t.String(), func(k *codec) string {
			b := k.box(&wit{sizes: map[string]uint64{"F": 0}}, []wfield{{name: "F", tag: "0,size=dynamic", v: k.unset(t)}, {name: "G", tag: "1,size=8", v: k.num(8, 8, false)}})
			return k.refuses(b, k.symBits(80, k.fresh("in")), k.e.b.T, 10, 0, "")
		})
	}
	add("unsupported", "type not registered", func(k *codec) string {
		w := &wit{}
		b := k.box(w, []wfield{{name: "G", tag: "1,size=8", v: k.num(8, 8, false)}})
		w.code = "nope"
		b.ctx = k.context(nil)
		if r := k.refusesEnc(b, "ErrBoxInfoNotFound"); r != "" {
			return r
		}
		if r := k.refuses(b, b.bits, b.pc, 1, 0, "ErrBoxInfoNotFound"); r != "" {
			return r
		}
		return ""
	})
	add("unsupported", "UnmarshalAny of a type not registered", func(k *codec) string {
		b := k.box(&wit{}, nil)
		if b.st == nil {
			return "the structure cannot be registered" + k.why()
		}
		k.input = nil
		st := b.st.clone()
		o := k.call("UnmarshalAny", st, k.e.b.T, k.e.v(k.e.mk(Node{Op: "sym", Name: inName, T: types.Typ[types.Invalid]})), k.typeV("nope"), k.e.intV(8, 64), k.context(nil))
		if o == nil || o.st == nil || len(o.vals) != 3 {
			return "UnmarshalAny never returns" + k.why()
		}
		return k.always(o, 2, "UnmarshalAny", "ErrBoxInfoNotFound")
	})
	// versions
	for _, vs := range [][]uint8{nil, {0}, {1}, {0, 1}, {0, 1, 2}, {2, 0}, {255}} {
		for _, body := range []int{0, 2} {
			vs, body := vs, body
			add("version", fmt.Sprintf("versions %v registered, %d bytes behind the version", vs, 3+body), func(k *codec) string {
				e := k.e
				ver := k.symBits(8, k.fresh("version"))
				fs := k.symBits(24+8*body, k.fresh("rest"))
				fl := []wfield{{name: "FullBox", tag: "0,extend", emb: true, v: k.fullBox(0, nil)}}
				if body > 0 {
					fl = append(fl, wfield{name: "G", tag: "1,size=16", v: k.num(16, 16, false)})
				}
				b := k.box(&wit{emb: "FullBox"}, fl, vs...)
				bits := append(revBits(ver), fs...)
				o, bad, _ := k.unmarshal(b, bits, e.b.T, 4+body, 2)
				if bad != "" {
					return bad
				}
				listed := e.b.Bool(vs == nil)
				for _, v := range vs {
					is := e.b.T
					for i := 0; i < 8; i++ {
						is = e.b.And(is, e.b.Eq(ver[i], e.b.Bool(v>>uint(i)&1 != 0)))
					}
					listed = e.b.Or(listed, is)
				}
				if k.failing(o, 1) != e.b.Not(listed) {
					return "accepts other versions than those registered" + k.why()
				}
				if !k.named(o, 1, e.b.Not(listed), "ErrUnsupportedBoxVersion") {
					return "returns another error than ErrUnsupportedBoxVersion" + k.why()
				}
				at := e.b.Or(e.b.And(listed, k.eqV(o.st, k.ghost(o.st, "rpos"), e.intV(uint64(k.lead+4+body), 64), 64)),
					e.b.And(e.b.Not(listed), k.eqV(o.st, k.ghost(o.st, "rpos"), e.intV(uint64(k.lead), 64), 64)))
				if !k.must(o, at) {
					return "does not leave the reader at the start of the payload of an unsupported version (behind it otherwise)" + k.why()
				}
				if len(k.undec) > 0 {
					return "not decided" + k.why()
				}
				return ""
			})
		}
	}
	// errors and results of the structure's own methods
	boom := func(k *codec) *V {
		return k.e.v(k.e.mk(Node{Op: "sym", Name: "newerr:boom", T: types.Universe.Lookup("error").Type()}))
	}
	boomed := func(k *codec, o *outcome) string {
		for _, a := range o.vals[1].alts {
			if a.n.Op != "sym" || a.n.Name != "newerr:boom" {
				return "the method's error is not the one returned" + k.why()
			}
		}
		return ""
	}
	body := func(k *codec) []wfield {
		return []wfield{{name: "A", tag: "0,size=8", v: k.num(8, 8, false)}, {name: "B", tag: "1,size=16", v: k.num(16, 16, false)}, {name: "C", tag: "2,size=8", v: k.num(8, 8, false)}}
	}
	for _, f := range []string{"A", "B", "C"} {
		for _, over := range []bool{false, true} {
			f, over := f, over
			add("method", fmt.Sprintf("OnWriteField(%s) fails (override %v)", f, over), func(k *codec) string {
				b := k.box(&wit{onWrite: func(k *codec, cc *CallCtx, name string) *V {
					if name != f {
						return nil
					}
					return k.e.tuple(k.e.intV(0, 64), k.e.boolV(k.e.b.Bool(over)), boom(k))
				}}, body(k))
				if r := k.refusesEnc(b, ""); r != "" {
					return r
				}
				o, _ := k.tryMarshal(b)
				return boomed(k, o)
			})
			add("method", fmt.Sprintf("OnReadField(%s) fails (override %v)", f, over), func(k *codec) string {
				b := k.box(&wit{onRead: func(k *codec, cc *CallCtx, name string) *V {
					if name != f {
						return nil
					}
					return k.e.tuple(k.e.intV(0, 64), k.e.boolV(k.e.b.Bool(over)), boom(k))
				}}, body(k))
				if r := k.refuses(b, b.bits, b.pc, 4, 0, ""); r != "" {
					return r
				}
				o, _, _ := k.unmarshal(b, b.bits, b.pc, 4, 0)
				return boomed(k, o)
			})
		}
	}
	for _, where := range []string{"nested structure", "element"} {
		where := where
		fails := func(k *codec) *wit {
			return &wit{onWrite: func(k *codec, cc *CallCtx, name string) *V {
				return k.e.tuple(k.e.intV(0, 64), k.e.boolV(k.e.b.F), boom(k))
			}, onRead: func(k *codec, cc *CallCtx, name string) *V {
				return k.e.tuple(k.e.intV(0, 64), k.e.boolV(k.e.b.F), boom(k))
			}}
		}
		add("method", "custom method of a "+where+" fails", func(k *codec) string {
			in := k.nest(fails(k), []wfield{{name: "L", tag: "0,size=16", v: k.num(16, 16, false)}})
			f := wfield{name: "F", tag: "1", v: in}
			if where == "element" {
				f = wfield{name: "F", tag: "1,len=1", v: k.list(in.t, []*wv{in}, 0)}
			}
			b := k.box(&wit{}, []wfield{{name: "A", tag: "0,size=8", v: k.num(8, 8, false)}, f})
			if r := k.refusesEnc(b, ""); r != "" {
				return r
			}
			return k.refuses(b, b.bits, b.pc, 3, 0, "")
		})
	}
	for _, n := range []int{0, 1, 3} {
		n := n
		take := func(k *codec, cc *CallCtx) {
			if n > 0 {
				if bs, _, ok := k.drain(cc, cc.Args[1], n); !ok || len(bs) != n {
					k.und("the reader given to BeforeUnmarshal cannot be followed")
				}
			}
			if x, ok := constInt(k.e.under(cc.Args[2], cc.st.pc)); !ok || x != 4+n {
				k.und("BeforeUnmarshal is not told the size of the payload")
			}
		}
		add("method", fmt.Sprintf("BeforeUnmarshal takes %d bytes", n), func(k *codec) string {
			b := k.box(&wit{before: func(k *codec, cc *CallCtx) *V {
				take(k, cc)
				return k.e.tuple(k.e.intV(uint64(n), 64), k.e.boolV(k.e.b.F), k.e.nilV())
			}}, body(k))
			bits := append(k.symBits(8*n, k.fresh("own")), b.bits...)
			all := *b
			wvAll := *b.wv
			wvAll.bits = bits
			all.wv = &wvAll
			return k.decodes(&all, n+4, 2)
		})
		add("method", fmt.Sprintf("BeforeUnmarshal decodes all of the box in %d bytes", n), func(k *codec) string {
			b := k.box(&wit{before: func(k *codec, cc *CallCtx) *V {
				take(k, cc)
				return k.e.tuple(k.e.intV(uint64(n), 64), k.e.boolV(k.e.b.T), k.e.nilV())
			}}, body(k))
			o, bad, _ := k.unmarshal(b, k.symBits(8*(n+4), k.fresh("own")), k.e.b.T, n+4, 0)
			if bad != "" {
				return bad
			}
			if k.failing(o, 1) != k.e.b.F {
				return "Unmarshal may return an error" + k.why()
			}
			if !k.must(o, k.eqV(o.st, o.vals[0], k.e.intV(uint64(n), 64), 64)) || !k.must(o, k.eqV(o.st, k.ghost(o.st, "rpos"), k.e.intV(uint64(k.lead+n), 64), 64)) {
				return "the bytes it consumed are not what Unmarshal reports" + k.why()
			}
			if len(k.undec) > 0 {
				return "not decided" + k.why()
			}
			return ""
		})
	}
	add("method", "BeforeUnmarshal fails", func(k *codec) string {
		b := k.box(&wit{before: func(k *codec, cc *CallCtx) *V {
			return k.e.tuple(k.e.intV(0, 64), k.e.boolV(k.e.b.F), boom(k))
		}}, body(k))
		if r := k.refuses(b, b.bits, b.pc, 4, 0, ""); r != "" {
			return r
		}
		o, _, _ := k.unmarshal(b, b.bits, b.pc, 4, 0)
		return boomed(k, o)
	})
	return out
}
