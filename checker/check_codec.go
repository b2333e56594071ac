package main

// R03 and R04: Marshal and Unmarshal on witness structures covering every kind of field.

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["R03"] = func(c *Check) { runCodec(c, codecCases(c, true), 1500) }
	checks["R04"] = func(c *Check) { runCodec(c, codecCases(c, false), 1500) }
}

type ccase struct {
	kind string // counted
	name string
	run  func(k *codec) string
}

// runCodec runs the cases, each on one of several engines.
// maxBDD is the number of diagram nodes after which the interpreter starts afresh.
var maxBDD = 3000000

func runCodec(c *Check, cases []ccase, atLeast int) {
	if only := os.Getenv("MP4VERIF_CASE"); only != "" { // debugging
		var sel []ccase
		for _, cs := range cases {
			if strings.Contains(cs.kind+": "+cs.name, only) {
				sel = append(sel, cs)
			}
		}
		cases = sel
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers > len(cases) {
		workers = len(cases)
	}
	res := make([]string, len(cases))
	fns := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	var initErr string
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var k *codec
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					initErr = fmt.Sprint(p)
					mu.Unlock()
				}
			}()
			done := 0
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(cases) {
					break
				}
				if k == nil || k.e.b.n > maxBDD || len(k.e.nodes) > 1500000 {
					k = newCodec(c)
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							if dbgOn {
								debug.PrintStack()
							}
							res[i] = fmt.Sprintf("the analysis failed: %v", p)
							k = nil
						}
					}()
					t0 := time.Now()
					res[i] = cases[i].run(k)
					if dbgOn {
						fmt.Fprintf(os.Stderr, "TIME %d %s\n", time.Since(t0).Milliseconds(), cases[i].name)
					}
				}()
				done++
				if k != nil {
					mu.Lock()
					for fn := range k.e.Visited {
						if k.r.InRepo(fn) {
							fns[fn.String()] = true
						}
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if initErr != "" {
		c.Bad("analysis", "-", "the analysis failed: %s", initErr)
	}
	for f := range fns {
		c.Unit(f)
	}
	bad := 0
	for i, cs := range cases {
		c.Count(cs.kind, 1)
		if res[i] == "" {
			c.OK("%s: %s", cs.kind, cs.name)
			continue
		}
		bad++
		if bad <= 25 {
			c.Bad(cs.kind+": "+cs.name, "-", "%s: %s: %s", cs.kind, cs.name, res[i])
		} else {
			c.Oblig++
		}
	}
	if len(cases) < atLeast {
		c.Bad("instances", "-", "only %d cases", len(cases))
	}
}

// shape is a witness structure with the ways in which it is encoded and decoded.
type shape struct {
	kind, name string
	build      func(k *codec) *wbox
	tail       bool // the last field extends to the end of the payload
	noEnc      bool
	noDec      bool
}

func codecCases(c *Check, enc bool) []ccase {
	var out []ccase
	for _, s := range shapes() {
		s := s
		if enc && !s.noEnc {
			out = append(out, ccase{s.kind, s.name, func(k *codec) string { return k.marshal(s.build(k)) }})
		}
		if !enc && !s.noDec {
			out = append(out, ccase{s.kind, s.name, func(k *codec) string {
				b := s.build(k)
				n := len(b.bits) / 8
				if r := k.decodes(b, n, 0); r != "" {
					return r
				}
				if r := k.decodes(b, n, 3); r != "" {
					return "followed by other data: " + r
				}
				if !s.tail {
					if r := k.decodes(b, n+2, 3); r != "" {
						return "in a larger payload: " + r
					}
				}
				return ""
			}})
		}
	}
	if !enc {
		out = append(out, decodeOnly()...)
	}
	return out
}

// aligned completes the fields to whole bytes.
func aligned(k *codec, fs []wfield) []wfield {
	n := 0
	for _, f := range fs {
		if !f.skip && f.tag != "-" {
			n += len(f.v.bits)
		}
	}
	if n%8 != 0 {
		s := 8 - n%8
		fs = append(fs, wfield{name: "Pad", tag: fmt.Sprintf("90,size=%d", s), v: k.num(8, s, false)})
	}
	return fs
}

// around puts a field behind pre bits and before another one.
func around(k *codec, pre int, f wfield) []wfield {
	var fs []wfield
	if pre > 0 {
		fs = append(fs, wfield{name: "Pre", tag: fmt.Sprintf("0,size=%d", pre), v: k.num(8, pre, false)})
	}
	fs = append(fs, f)
	fs = aligned(k, fs)
	return append(fs, wfield{name: "Post", tag: "91,size=16", v: k.num(16, 16, false)})
}

func shapes() []shape {
	var out []shape
	add := func(kind, name string, f func(k *codec) *wbox) *shape {
		out = append(out, shape{kind: kind, name: name, build: f})
		return &out[len(out)-1]
	}
	plain := func(kind, name string, f func(k *codec) []wfield) *shape {
		return add(kind, name, func(k *codec) *wbox { return k.box(&wit{}, f(k)) })
	}
	// integers of every width at every alignment
	for pre := 0; pre < 8; pre++ {
		for size := 1; size <= 64; size++ {
			for _, signed := range []bool{false, true} {
				pre, size, signed := pre, size, signed
				plain("integer", fmt.Sprintf("%s, size=%d at bit %d", intType(64, signed), size, pre), func(k *codec) []wfield {
					return around(k, pre, wfield{name: "F", tag: fmt.Sprintf("1,size=%d", size), v: k.num(64, size, signed)})
				})
			}
		}
	}
	for _, gw := range []int{8, 16, 32} {
		for size := 1; size <= gw; size++ {
			for _, signed := range []bool{false, true} {
				for _, pre := range []int{0, 3} {
					gw, size, signed, pre := gw, size, signed, pre
					plain("integer", fmt.Sprintf("%s, size=%d at bit %d", intType(gw, signed), size, pre), func(k *codec) []wfield {
						return around(k, pre, wfield{name: "F", tag: fmt.Sprintf("1,size=%d", size), v: k.num(gw, size, signed)})
					})
				}
			}
		}
	}
	for pre := 0; pre < 8; pre++ {
		for size := 1; size <= 8; size++ {
			pre, size := pre, size
			plain("bool", fmt.Sprintf("size=%d at bit %d", size, pre), func(k *codec) []wfield {
				return around(k, pre, wfield{name: "F", tag: fmt.Sprintf("1,size=%d", size), v: k.boolean(size)})
			})
		}
	}
	for _, gw := range []int{8, 16, 32, 64} {
		for _, pre := range []int{0, 4} {
			gw, pre := gw, pre
			plain("varint", fmt.Sprintf("%s at bit %d", intType(gw, false), pre), func(k *codec) []wfield {
				return around(k, pre, wfield{name: "F", tag: "1,varint", v: k.varint(gw)})
			})
		}
	}
	// strings
	for _, n := range []int{0, 1, 2, 3, 15, 16, 17, 40} {
		for _, pre := range []int{0, 4} {
			n, pre := n, pre
			plain("string", fmt.Sprintf("%d bytes at bit %d", n, pre), func(k *codec) []wfield {
				return around(k, pre, wfield{name: "F", tag: "1,string", v: k.str(n, true)})
			})
		}
		n := n
		s := plain("string", fmt.Sprintf("%d bytes not terminated, last", n), func(k *codec) []wfield {
			return []wfield{{name: "A", tag: "0,size=8", v: k.num(8, 8, false)}, {name: "F", tag: "1,string", v: k.str(n, false)}}
		})
		s.tail, s.noEnc = true, true
		s = plain("string", fmt.Sprintf("boxstring of %d bytes", n), func(k *codec) []wfield {
			return []wfield{{name: "A", tag: "0,size=16", v: k.num(16, 16, false)}, {name: "F", tag: "1,boxstring", v: k.str(n, false)}}
		})
		s.tail = true
		plain("string", fmt.Sprintf("two strings, %d bytes", n), func(k *codec) []wfield {
			return []wfield{{name: "F", tag: "0,string", v: k.str(n, true)}, {name: "G", tag: "1,string", v: k.str(2, true)}}
		})
	}
	// byte slices
	for _, n := range []int{0, 1, 2, 3, 40, 300} {
		for _, pre := range []int{0, 4} {
			if n > 40 && pre != 0 {
				continue
			}
			n, pre := n, pre
			plain("bytes", fmt.Sprintf("len=%d at bit %d", n, pre), func(k *codec) []wfield {
				return around(k, pre, wfield{name: "F", tag: fmt.Sprintf("1,size=8,len=%d", n), v: k.list(types.Typ[types.Uint8], k.seq(n, func() *wv { return k.num(8, 8, false) }), 0)})
			})
			add("bytes", fmt.Sprintf("len=dynamic (%d) at bit %d", n, pre), func(k *codec) *wbox {
				return k.box(&wit{lens: map[string]uint64{"F": uint64(n)}}, around(k, pre, wfield{name: "F", tag: "1,size=8,len=dynamic",
					v: k.list(types.Typ[types.Uint8], k.seq(n, func() *wv { return k.num(8, 8, false) }), 0)}))
			})
			s := plain("bytes", fmt.Sprintf("unlimited (%d) at bit %d", n, pre), func(k *codec) []wfield {
				fs := []wfield{{name: "A", tag: "0,size=8", v: k.num(8, 8, false)}}
				if pre > 0 {
					fs = append(fs, wfield{name: "P", tag: "1,size=4", v: k.num(8, 4, false)}, wfield{name: "Q", tag: "2,size=4", v: k.num(8, 4, false)})
				}
				return append(fs, wfield{name: "F", tag: "3,size=8", v: k.list(types.Typ[types.Uint8], k.seq(n, func() *wv { return k.num(8, 8, false) }), 0)})
			})
			s.tail = true
		}
		if n > 0 && n < 40 {
			n := n
			s := add("bytes", fmt.Sprintf("slice longer than its length field (%d)", n), func(k *codec) *wbox {
				return k.box(&wit{lens: map[string]uint64{"F": uint64(n)}}, []wfield{{name: "F", tag: "0,size=8,len=dynamic",
					v: k.list(types.Typ[types.Uint8], k.seq(n+2, func() *wv { return k.num(8, 8, false) }), 2)}, {name: "B", tag: "1,size=8", v: k.num(8, 8, false)}})
			})
			s.noDec = true
			s = add("list", fmt.Sprintf("slice longer than its length field (%d)", n), func(k *codec) *wbox {
				return k.box(&wit{lens: map[string]uint64{"F": uint64(n)}}, []wfield{{name: "F", tag: "0,size=16,len=dynamic",
					v: k.list(types.Typ[types.Uint16], k.seq(n+2, func() *wv { return k.num(16, 16, false) }), 2)}, {name: "B", tag: "1,size=8", v: k.num(8, 8, false)}})
			})
			s.noDec = true
		}
	}
	// lists of integers
	for _, el := range []struct {
		gw, size int
		signed   bool
	}{{8, 8, true}, {8, 4, false}, {8, 2, false}, {16, 16, false}, {16, 16, true}, {16, 12, false}, {32, 32, false}, {32, 24, false}, {32, 32, true}, {64, 64, false}, {64, 64, true}, {64, 48, false}} {
		for _, n := range []int{0, 1, 2, 3, 4, 9, 300} {
			if n == 300 && el.gw != 16 {
				continue
			}
			el, n := el, n
			mk := func(k *codec) *wv {
				return k.list(intType(el.gw, el.signed), k.seq(n, func() *wv { return k.num(el.gw, el.size, el.signed) }), 0)
			}
			nm := fmt.Sprintf("%d x %s of %d bits", n, intType(el.gw, el.signed), el.size)
			add("list", "len=dynamic, "+nm, func(k *codec) *wbox {
				return k.box(&wit{lens: map[string]uint64{"F": uint64(n)}}, around(k, 0, wfield{name: "F", tag: fmt.Sprintf("1,size=%d,len=dynamic", el.size), v: mk(k)}))
			})
			if n > 4 {
				continue
			}
			plain("list", "constant len, "+nm, func(k *codec) []wfield {
				return around(k, 0, wfield{name: "F", tag: fmt.Sprintf("1,size=%d,len=%d", el.size, n), v: mk(k)})
			})
			plain("list", "constant len at bit 3, "+nm, func(k *codec) []wfield {
				return around(k, 3, wfield{name: "F", tag: fmt.Sprintf("1,size=%d,len=%d", el.size, n), v: mk(k)})
			})
			add("list", "size=dynamic, "+nm, func(k *codec) *wbox {
				return k.box(&wit{sizes: map[string]uint64{"F": uint64(el.size)}, lens: map[string]uint64{"F": uint64(n)}},
					around(k, 0, wfield{name: "F", tag: "1,size=dynamic,len=dynamic", v: mk(k)}))
			})
			if el.size*n%8 == 0 {
				s := plain("list", "unlimited, "+nm, func(k *codec) []wfield {
					return []wfield{{name: "A", tag: "0,size=16", v: k.num(16, 16, false)}, {name: "F", tag: fmt.Sprintf("1,size=%d", el.size), v: mk(k)}}
				})
				s.tail = true
			}
		}
	}
	plain("list", "8 booleans", func(k *codec) []wfield {
		return around(k, 0, wfield{name: "F", tag: "1,size=1,len=8", v: k.list(types.Typ[types.Bool], k.seq(8, func() *wv { return k.boolean(1) }), 0)})
	})
	plain("list", "3 varints", func(k *codec) []wfield {
		return around(k, 0, wfield{name: "F", tag: "1,varint,len=3", v: k.list(types.Typ[types.Uint32], k.seq(3, func() *wv { return k.varint(32) }), 0)})
	})
	plain("list", "2 strings", func(k *codec) []wfield {
		return around(k, 0, wfield{name: "F", tag: "1,string,len=2", v: k.list(types.Typ[types.String], k.seq(2, func() *wv { return k.str(3, true) }), 0)})
	})
	// arrays
	for _, el := range []struct{ gw, size, n int }{{8, 8, 1}, {8, 8, 3}, {8, 8, 4}, {8, 5, 3}, {16, 16, 3}, {32, 32, 9}, {32, 5, 4}, {64, 64, 2}} {
		for _, signed := range []bool{false, true} {
			for _, pre := range []int{0, 3} {
				el, signed, pre := el, signed, pre
				plain("array", fmt.Sprintf("[%d]%s of %d bits at bit %d", el.n, intType(el.gw, signed), el.size, pre), func(k *codec) []wfield {
					return around(k, pre, wfield{name: "F", tag: fmt.Sprintf("1,size=%d", el.size), v: k.array(k.seq(el.n, func() *wv { return k.num(el.gw, el.size, signed) }))})
				})
			}
		}
	}
	plain("array", "[2][3]uint8", func(k *codec) []wfield {
		return around(k, 0, wfield{name: "F", tag: "1,size=8", v: k.array(k.seq(2, func() *wv { return k.array(k.seq(3, func() *wv { return k.num(8, 8, false) })) }))})
	})
	plain("array", "[2] of a structure", func(k *codec) []wfield {
		return around(k, 0, wfield{name: "F", tag: "1", v: k.array(k.seq(2, func() *wv { return entry(k) }))})
	})
	// nested structures
	plain("structure", "nested", func(k *codec) []wfield {
		return around(k, 0, wfield{name: "F", tag: "1", v: entry(k)})
	})
	plain("structure", "nested, extend", func(k *codec) []wfield {
		return around(k, 0, wfield{name: "F", tag: "1,extend", v: entry(k)})
	})
	plain("structure", "nested at bit 3", func(k *codec) []wfield {
		return around(k, 3, wfield{name: "F", tag: "1", v: k.record(nil, []wfield{
			{name: "X", tag: "0,size=2", v: k.num(8, 2, false)}, {name: "Y", tag: "1,size=11", v: k.num(16, 11, true)}})})
	})
	plain("structure", "nested twice", func(k *codec) []wfield {
		return around(k, 0, wfield{name: "F", tag: "1", v: k.record(nil, []wfield{
			{name: "X", tag: "0", v: entry(k)}, {name: "Y", tag: "1,size=8", v: k.num(8, 8, false)}, {name: "Z", tag: "2", v: entry(k)}})})
	})
	for _, n := range []int{0, 1, 2, 3} {
		n := n
		add("structure", fmt.Sprintf("slice of %d, len=dynamic", n), func(k *codec) *wbox {
			et := entry(k).t
			return k.box(&wit{lens: map[string]uint64{"F": uint64(n)}}, around(k, 0, wfield{name: "F", tag: "1,len=dynamic", v: k.list(et, k.seq(n, func() *wv { return entry(k) }), 0)}))
		})
		s := add("structure", fmt.Sprintf("slice of %d, sized elements, unlimited", n), func(k *codec) *wbox {
			et := entry(k).t
			return k.box(&wit{}, []wfield{{name: "A", tag: "0,size=8", v: k.num(8, 8, false)}, {name: "F", tag: "1,size=40", v: k.list(et, k.seq(n, func() *wv { return entry(k) }), 0)}})
		})
		s.tail = true
		add("structure", fmt.Sprintf("slice of %d, elements sized dynamically with an unlimited tail", n), func(k *codec) *wbox {
			mk := func() *wv {
				return k.record(nil, []wfield{{name: "X", tag: "0,size=16", v: k.num(16, 16, false)},
					{name: "T", tag: "1,size=8", v: k.list(types.Typ[types.Uint8], k.seq(3, func() *wv { return k.num(8, 8, false) }), 0)}})
			}
			return k.box(&wit{sizes: map[string]uint64{"F": 40}, lens: map[string]uint64{"F": uint64(n)}}, around(k, 0,
				wfield{name: "F", tag: "1,size=dynamic,len=dynamic", v: k.list(mk().t, k.seq(n, mk), 0)}))
		})
	}
	for _, n := range []int{0, 2} {
		n := n
		add("structure", fmt.Sprintf("nested with its own length method (%d)", n), func(k *codec) *wbox {
			in := k.nest(&wit{lens: map[string]uint64{"L": uint64(n)}, sizes: map[string]uint64{"S": 24}, opts: map[string]bool{"O": n > 0}}, []wfield{
				{name: "L", tag: "0,size=16,len=dynamic", v: k.list(types.Typ[types.Uint16], k.seq(n, func() *wv { return k.num(16, 16, false) }), 0)},
				{name: "S", tag: "1,size=dynamic", v: k.num(32, 24, false)},
				{name: "O", tag: "2,size=8,opt=dynamic", v: k.num(8, 8, false), skip: n == 0},
			})
			return k.box(&wit{lens: map[string]uint64{"L": 7}, sizes: map[string]uint64{"S": 8}, opts: map[string]bool{"O": n == 0}},
				around(k, 0, wfield{name: "F", tag: "1", v: in}))
		})
	}
	for _, on := range []bool{true, false} {
		on := on
		add("structure", fmt.Sprintf("optional pointer (%v)", on), func(k *codec) *wbox {
			return k.box(&wit{opts: map[string]bool{"F": on}}, around(k, 0, wfield{name: "F", tag: "1,extend,opt=dynamic", v: k.pointer(entry(k)), skip: !on}))
		})
	}
	add("structure", "slice of pointers", func(k *codec) *wbox {
		et := types.NewPointer(entry(k).t)
		return k.box(&wit{}, around(k, 0, wfield{name: "F", tag: "1,len=2", v: k.list(et, k.seq(2, func() *wv { return k.pointer(entry(k)) }), 0)}))
	})
	// order and tags
	plain("order", "fields numbered out of source order", func(k *codec) []wfield {
		return []wfield{
			{name: "C", tag: "2,size=16", v: k.num(16, 16, false)},
			{name: "A", tag: "0,size=8", v: k.num(8, 8, false)},
			{name: "Untagged", tag: "-", v: k.unset(types.Typ[types.Uint32])},
			{name: "D", tag: "10,size=8", v: k.num(8, 8, true)},
			{name: "B", tag: "1,size=32", v: k.num(32, 32, false)},
		}
	})
	plain("order", "spaces in tags", func(k *codec) []wfield {
		return []wfield{
			{name: "B", tag: "1, size=16, hex", v: k.num(16, 16, false)},
			{name: "A", tag: "0 ,size = 8", v: k.num(8, 8, false)},
		}
	})
	plain("order", "print-only tags", func(k *codec) []wfield {
		return []wfield{
			{name: "A", tag: "0,size=8,hidden", v: k.num(8, 8, false)},
			{name: "B", tag: "1,size=16,const=5", v: k.num(16, 16, false)},
			{name: "C", tag: "2,size=16,hex", v: k.num(16, 16, true)},
			{name: "D", tag: "3,size=8,dec", v: k.array(k.seq(2, func() *wv { return k.num(8, 8, false) }))},
			{name: "E", tag: "4,size=5,iso639-2", v: k.array(k.seq(3, func() *wv { return k.num(8, 5, false) }))},
			{name: "G", tag: "5,size=1", v: k.boolean(1)},
			{name: "U", tag: "6,size=8,uuid", v: k.array(k.seq(16, func() *wv { return k.num(8, 8, false) }))},
			{name: "S", tag: "7,size=8,string", v: k.array(k.seq(4, func() *wv { return k.num(8, 8, false) }))},
		}
	})
	// versions and flags
	full := func(name string, ver uint8, cond func(e *Eng, f []*B) *B, fs func(k *codec) []wfield, w *wit, versions ...uint8) {
		add("presence", name, func(k *codec) *wbox {
			ww := *w
			ww.emb = "FullBox"
			var cf func([]*B) *B
			if cond != nil {
				cf = func(f []*B) *B { return cond(k.e, f) }
			}
			return k.box(&ww, append([]wfield{{name: "FullBox", tag: "0,extend", emb: true, v: k.fullBox(ver, cf)}}, fs(k)...), versions...)
		})
	}
	for ver := uint8(0); ver < 3; ver++ {
		ver := ver
		full(fmt.Sprintf("ver and nver, version %d", ver), ver, nil, func(k *codec) []wfield {
			return []wfield{
				{name: "A", tag: "1,size=16,ver=0", v: k.num(16, 16, false), skip: ver != 0},
				{name: "B", tag: "2,size=32,ver=1", v: k.num(32, 32, false), skip: ver != 1},
				{name: "C", tag: "3,size=8,nver=0", v: k.num(8, 8, false), skip: ver == 0},
				{name: "D", tag: "4,size=8,nver=1", v: k.num(8, 8, false), skip: ver == 1},
				{name: "E", tag: "5,size=8", v: k.num(8, 8, false)},
			}
		}, &wit{}, 0, 1, 2)
		full(fmt.Sprintf("no versions listed, version %d", ver), ver, nil, func(k *codec) []wfield {
			return []wfield{{name: "E", tag: "5,size=8", v: k.num(8, 8, false)}}
		}, &wit{})
	}
	full("version 255", 255, nil, func(k *codec) []wfield {
		return []wfield{{name: "E", tag: "5,size=8", v: k.num(8, 8, false)}}
	}, &wit{})
	for _, m := range []struct {
		tag  string
		mask uint32
	}{{"0x000001", 1}, {"0x000100", 0x100}, {"0x800000", 0x800000}, {"0x020002", 0x20002}, {"8", 8}, {"16", 16}, {"0xffffff", 0xffffff}} {
		for _, set := range []bool{true, false} {
			m, set := m, set
			cond := func(e *Eng, f []*B) *B {
				any := e.b.F
				for i := 0; i < 24; i++ {
					if m.mask>>uint(i)&1 != 0 {
						any = e.b.Or(any, f[i])
					}
				}
				if set {
					return any
				}
				return e.b.Not(any)
			}
			full(fmt.Sprintf("opt=%s, set: %v", m.tag, set), 0, cond, func(k *codec) []wfield {
				return []wfield{{name: "A", tag: "1,size=16,opt=" + m.tag, v: k.num(16, 16, false), skip: !set}, {name: "E", tag: "5,size=8", v: k.num(8, 8, false)}}
			}, &wit{}, 0)
			full(fmt.Sprintf("nopt=%s, set: %v", m.tag, set), 0, cond, func(k *codec) []wfield {
				return []wfield{{name: "A", tag: "1,size=16,nopt=" + m.tag, v: k.num(16, 16, false), skip: set}, {name: "E", tag: "5,size=8", v: k.num(8, 8, false)}}
			}, &wit{}, 0)
			full(fmt.Sprintf("ver=0 with opt=%s, set: %v, version 1", m.tag, set), 1, cond, func(k *codec) []wfield {
				return []wfield{{name: "A", tag: "1,size=16,ver=0,opt=" + m.tag, v: k.num(16, 16, false), skip: true}, {name: "E", tag: "5,size=8", v: k.num(8, 8, false)}}
			}, &wit{}, 0, 1)
			full(fmt.Sprintf("in a nested structure, opt=%s, set: %v", m.tag, set), 0, cond, func(k *codec) []wfield {
				mk := func() *wv {
					return k.record(nil, []wfield{{name: "X", tag: "0,size=16,opt=" + m.tag, v: k.num(16, 16, false), skip: !set}, {name: "Y", tag: "1,size=8,nver=0", v: k.num(8, 8, false), skip: true}, {name: "Z", tag: "2,size=8", v: k.num(8, 8, false)}})
				}
				return []wfield{{name: "F", tag: "1,len=2", v: k.list(mk().t, k.seq(2, mk), 0)}, {name: "E", tag: "5,size=8", v: k.num(8, 8, false)}}
			}, &wit{}, 0)
		}
	}
	for _, on := range []bool{true, false} {
		on := on
		add("presence", fmt.Sprintf("opt=dynamic %v", on), func(k *codec) *wbox {
			return k.box(&wit{opts: map[string]bool{"A": on}}, []wfield{{name: "A", tag: "1,size=16,opt=dynamic", v: k.num(16, 16, false), skip: !on}, {name: "E", tag: "5,size=8", v: k.num(8, 8, false)}})
		})
	}
	// fields taken over by the structure itself
	for _, over := range []bool{true, false} {
		for _, m := range []int{0, 1, 2, 3, 4, 5} {
			over, n, nested := over, m%3, m > 2
			title := fmt.Sprintf("%d bytes of its own, override %v", n, over)
			if nested {
				title += ", in a nested structure"
			}
			add("custom", title, func(k *codec) *wbox {
				own := k.list(types.Typ[types.Uint8], k.seq(n, func() *wv { return k.num(8, 8, false) }), 0)
				data := k.bytes(own.bits)
				left := 0
				ow := &wv{t: types.Typ[types.Uint16], bits: own.bits, pc: k.e.b.T, desc: "own", put: func(*State, *Node) {}, eq: func(*State, *Node) *B { return k.e.b.T }}
				if !over {
					f := k.num(16, 16, false)
					ow.bits = append(append([]*B{}, own.bits...), f.bits...)
					ow.put, ow.eq = f.put, f.eq
				}
				hooks := &wit{
					onWrite: func(k *codec, cc *CallCtx, name string) *V {
						if name != "B" {
							return nil
						}
						if n > 0 {
							k.n++
							s := k.e.v(k.e.bytesSlice(cc.st, fmt.Sprintf("a:own%d\x00", k.n), data, types.NewSlice(byteT)))
							if k.push(cc, cc.Args[2], s) == nil {
								k.und("the writer given to OnWriteField cannot be followed")
							}
						}
						return k.e.tuple(k.e.intV(uint64(8*n), 64), k.e.boolV(k.e.b.Bool(over)), k.e.nilV())
					},
					onRead: func(k *codec, cc *CallCtx, name string) *V {
						if name != "B" {
							return nil
						}
						if l, ok := constInt(k.e.under(cc.Args[3], cc.st.pc)); !ok {
							k.und("the number of bits left is not determined")
						} else {
							left = l
						}
						if n > 0 {
							bs, _, ok := k.drain(cc, cc.Args[2], n)
							if !ok || len(bs) != n {
								k.und("the reader given to OnReadField cannot be followed")
							} else if !k.must(&outcome{st: cc.st}, k.e.eqBytes(bs, data)) {
								k.und("OnReadField is called at the wrong place")
							}
						}
						return k.e.tuple(k.e.intV(uint64(8*n), 64), k.e.boolV(k.e.b.Bool(over)), k.e.nilV())
					},
				}
				part := []wfield{
					{name: "A", tag: "0,size=8", v: k.num(8, 8, false)},
					{name: "B", tag: "1,size=16", v: ow},
					{name: "T", tag: "3,size=8", v: k.list(types.Typ[types.Uint8], k.seq(3, func() *wv { return k.num(8, 8, false) }), 0)},
				}
				var b *wbox
				if nested {
					// the box itself has no say on the fields of the structure
					wrong := func(k *codec, cc *CallCtx, name string) *V {
						if name == "B" {
							k.und("%s is called on the box for a field of a nested structure that has its own", cc.com.Method.Name())
						}
						return nil
					}
					b = k.box(&wit{onWrite: wrong, onRead: wrong}, []wfield{{name: "H", tag: "0,size=8", v: k.num(8, 8, false)}, {name: "F", tag: "1", v: k.nest(hooks, part)}})
				} else {
					b = k.box(hooks, part)
				}
				b.check = func(payload int) string {
					want := 8*payload - 8
					if nested {
						want -= 8
					}
					if left != want {
						return fmt.Sprintf("OnReadField is told that %d bits are left, there are %d", left, want)
					}
					return ""
				}
				return b
			}).tail = true
		}
	}
	return out
}

// entry is a small structure of 40 bits.
func entry(k *codec) *wv {
	return k.record(nil, []wfield{
		{name: "X", tag: "0,size=12", v: k.num(16, 12, false)},
		{name: "Y", tag: "1,size=4", v: k.num(8, 4, true)},
		{name: "Z", tag: "2,size=24", v: k.num(32, 24, false)},
	})
}

// decodeOnly: encodings that Marshal does not produce.
func decodeOnly() []ccase {
	var out []ccase
	for n := 1; n <= 4; n++ {
		for _, gw := range []int{32, 64} {
			n, gw := n, gw
			out = append(out, ccase{"varint", fmt.Sprintf("%s in %d bytes", intType(gw, false), n), func(k *codec) string {
				e := k.e
				bs := k.symBits(7*n, k.fresh("v"))
				full := make([]*B, gw)
				for i := range full {
					full[i] = e.b.F
					if i < len(bs) {
						full[i] = bs[i]
					}
				}
				var bits []*B
				for g := n - 1; g >= 0; g-- {
					bits = append(bits, e.b.Bool(g > 0))
					bits = append(bits, revBits(bs[7*g:7*g+7])...)
				}
				f := k.intVal(intType(gw, false), e.v(e.bvN(full)), gw, bits, "varint")
				b := k.box(&wit{}, []wfield{{name: "F", tag: "0,varint", v: f}, {name: "G", tag: "1,size=8", v: k.num(8, 8, false)}})
				return k.decodes(b, n+1, 2)
			}})
		}
	}
	return out
}
