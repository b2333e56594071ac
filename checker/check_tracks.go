package main

// P01: tracks and file-level results of Probe. P02: fragments.

import (
	"fmt"
	"go/types"
)

func init() {
	checks["P01"] = func(c *Check) { runCodec(c, trackCases(c), 150) }
	checks["P02"] = func(c *Check) { runCodec(c, fragmentCases(c), 55) }
}

// vtrak describes the boxes of a trak.
type vtrak struct {
	tkhd, mdhd bool
	edits      int // -1: no elst
	co         string
	chunks     int
	stts       []int // samples per entry; nil: no stts
	stsc       []int // first chunk per entry; nil: no stsc
	ctts       []int // nil: none
	stsz       int   // entries; -1: none, -2: constant size
	entry      string
	avcC       bool
	esds       string // "", "plain", "wave"
	order      string // "", "sizes first"
}

func stdTrak() vtrak {
	return vtrak{tkhd: true, mdhd: true, edits: -1, co: "stco", chunks: 2, stts: []int{2}, stsc: []int{1}, stsz: -1}
}

type track struct {
	v        vtrak
	box      *vbox
	id, ts   []*B
	dur      *V
	media    []*V
	segdur   []*V
	offs     [][]*B
	delta    [][]*B
	spc      [][]*B
	cts      []*V
	sizes    [][]*B
	size     []*B
	avc      map[string][]*B
	channels []*B
	esdsOTI  []*B
}

func (f *vfile) version(st *State, p *Node, t types.Type) []*B {
	return f.sym(st, p, t, "FullBox", "Version")
}

// byVersion is one of two values, by version, and zero for other versions.
func (k *codec) byVersion(ver []*B, v0, v1 *V, other *V) *V {
	return k.ite(k.isNum(ver, 0), v0, k.ite(k.isNum(ver, 1), v1, other))
}

// trak makes the boxes of a track.
func trak(k *codec, v vtrak) *track {
	e := k.e
	t := &track{v: v, avc: map[string][]*B{}}
	w64 := func(bs []*B, signed bool) *V { return k.bv(k.lo(bs, 64, signed)) }
	zero := e.intV(0, 64)
	var kids, stbl []*vbox
	if v.tkhd {
		kids = append(kids, &vbox{code: "tkhd", typ: "Tkhd", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			t.id = f.sym(st, p, ty, "TrackID")
		}})
	}
	if v.edits >= 0 {
		kids = append(kids, &vbox{code: "edts", kids: []*vbox{{code: "elst", typ: "Elst", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			ver := f.version(st, p, ty)
			f.elems(st, p, ty, v.edits, "Entries")
			f.set(st, p, ty, e.intV(uint64(v.edits), 32), "EntryCount")
			for i := 0; i < v.edits; i++ {
				t.media = append(t.media, k.byVersion(ver, w64(f.sym(st, p, ty, "Entries", i, "MediaTimeV0"), true), w64(f.sym(st, p, ty, "Entries", i, "MediaTimeV1"), true), zero))
				t.segdur = append(t.segdur, k.byVersion(ver, w64(f.sym(st, p, ty, "Entries", i, "SegmentDurationV0"), false), w64(f.sym(st, p, ty, "Entries", i, "SegmentDurationV1"), false), zero))
			}
		}}}})
	}
	mdia := &vbox{code: "mdia"}
	if v.mdhd {
		mdia.kids = append(mdia.kids, &vbox{code: "mdhd", typ: "Mdhd", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			ver := f.version(st, p, ty)
			t.ts = f.sym(st, p, ty, "Timescale")
			t.dur = k.byVersion(ver, w64(f.sym(st, p, ty, "DurationV0"), false), w64(f.sym(st, p, ty, "DurationV1"), false), zero)
		}})
	}
	esds := func() *vbox {
		return &vbox{code: "esds", typ: "Esds", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			f.elems(st, p, ty, 1, "Descriptors")
			f.set(st, p, ty, e.intV(4, 8), "Descriptors", 0, "Tag")
			dt := f.k.gtype("DecoderConfigDescriptor")
			if dt == nil {
				f.wrong("DecoderConfigDescriptor is missing")
				return
			}
			obj := k.fresh("w:dcd") + "\x00"
			st.base[obj] = k.fresh("dcd")
			q, qt, bad := k.at(st, p, ty, "Descriptors", 0)
			if bad != "" {
				f.wrong("Descriptors: %s", bad)
				return
			}
			at, ft := pathTo(qt, "DecoderConfigDescriptor")
			if ft == nil {
				f.wrong("DecoderConfigDescriptor is missing")
				return
			}
			e.store(st, e.ptrN(q.Name, q.Path+at), ft, e.v(e.ptrN(obj, "")), e.b.T)
			oti := f.sym(st, e.ptrN(obj, ""), dt, "ObjectTypeIndication")
			// not 0x40: P03 has the other case
			oti[7] = e.b.T
			f.set(st, e.ptrN(obj, ""), dt, k.bv(oti), "ObjectTypeIndication")
			t.esdsOTI = oti
		}}
	}
	stsd := &vbox{code: "stsd", typ: "Stsd"}
	if v.entry != "" {
		en := &vbox{code: v.entry}
		switch v.entry {
		case "avc1", "encv", "hvc1":
			en.typ = "VisualSampleEntry"
			en.fill = func(f *vfile, st *State, p *Node, ty types.Type) {
				t.avc["Width"], t.avc["Height"] = f.sym(st, p, ty, "Width"), f.sym(st, p, ty, "Height")
			}
		default:
			en.typ = "AudioSampleEntry"
			en.fill = func(f *vfile, st *State, p *Node, ty types.Type) {
				t.channels = f.sym(st, p, ty, "ChannelCount")
			}
		}
		if v.avcC {
			en.kids = append(en.kids, &vbox{code: "avcC", typ: "AVCDecoderConfiguration", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
				for _, n := range []string{"ConfigurationVersion", "Profile", "ProfileCompatibility", "Level"} {
					t.avc[n] = f.sym(st, p, ty, n)
				}
				ls := append(k.wideBits(2, k.fresh("ls")), e.b.F, e.b.F, e.b.F, e.b.F, e.b.F, e.b.F)
				f.set(st, p, ty, k.bv(ls), "LengthSizeMinusOne")
				c := e.b.T
				for i := 0; i < 16; i++ {
					x := e.b.F
					if i < 8 {
						x = ls[i]
					}
					t.avc["LengthSize"] = append(t.avc["LengthSize"], e.b.Xor(x, c))
					c = e.b.And(c, x)
				}
			}})
		}
		switch v.esds {
		case "plain":
			en.kids = append(en.kids, esds())
		case "wave":
			en.kids = append(en.kids, &vbox{code: "wave", typ: "Wave", kids: []*vbox{{code: "mp4a", typ: "AudioSampleEntry"}, esds()}})
		}
		stsd.kids = append(stsd.kids, en)
	}
	stbl = append(stbl, stsd)
	var stts, ctts, stsc, stsz, stco *vbox
	if v.stts != nil {
		stts = &vbox{code: "stts", typ: "Stts", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			f.elems(st, p, ty, len(v.stts), "Entries")
			f.set(st, p, ty, e.intV(uint64(len(v.stts)), 32), "EntryCount")
			for i, n := range v.stts {
				f.set(st, p, ty, e.intV(uint64(n), 32), "Entries", i, "SampleCount")
				d := f.sym(st, p, ty, "Entries", i, "SampleDelta")
				for j := 0; j < n; j++ {
					t.delta = append(t.delta, d)
				}
			}
		}}
	}
	if v.ctts != nil {
		ctts = &vbox{code: "ctts", typ: "Ctts", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			ver := f.version(st, p, ty)
			f.elems(st, p, ty, len(v.ctts), "Entries")
			f.set(st, p, ty, e.intV(uint64(len(v.ctts)), 32), "EntryCount")
			for i, n := range v.ctts {
				f.set(st, p, ty, e.intV(uint64(n), 32), "Entries", i, "SampleCount")
				d := k.byVersion(ver, w64(f.sym(st, p, ty, "Entries", i, "SampleOffsetV0"), false), w64(f.sym(st, p, ty, "Entries", i, "SampleOffsetV1"), true), zero)
				for j := 0; j < n; j++ {
					t.cts = append(t.cts, d)
				}
			}
		}}
	}
	if v.stsc != nil {
		stsc = &vbox{code: "stsc", typ: "Stsc", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			f.elems(st, p, ty, len(v.stsc), "Entries")
			f.set(st, p, ty, e.intV(uint64(len(v.stsc)), 32), "EntryCount")
			for i, n := range v.stsc {
				f.set(st, p, ty, e.intV(uint64(n), 32), "Entries", i, "FirstChunk")
				t.spc = append(t.spc, f.sym(st, p, ty, "Entries", i, "SamplesPerChunk"))
			}
		}}
	}
	if v.stsz != -1 {
		stsz = &vbox{code: "stsz", typ: "Stsz", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			n := 0
			if v.stsz >= 0 {
				n = v.stsz
				f.set(st, p, ty, zero32(e), "SampleSize")
			} else {
				t.size = f.sym(st, p, ty, "SampleSize")
			}
			f.elems(st, p, ty, n, "EntrySize")
			for i := 0; i < n; i++ {
				t.sizes = append(t.sizes, f.sym(st, p, ty, "EntrySize", i))
			}
		}}
	}
	if v.co != "" {
		typ := map[string]string{"stco": "Stco", "co64": "Co64"}[v.co]
		stco = &vbox{code: v.co, typ: typ, fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			f.elems(st, p, ty, v.chunks, "ChunkOffset")
			f.set(st, p, ty, e.intV(uint64(v.chunks), 32), "EntryCount")
			for i := 0; i < v.chunks; i++ {
				t.offs = append(t.offs, k.lo(f.sym(st, p, ty, "ChunkOffset", i), 64, false))
			}
		}}
	}
	list := []*vbox{stts, ctts, stsc, stsz, stco}
	if v.order == "reversed" {
		list = []*vbox{stco, stsz, stsc, ctts, stts}
	}
	for _, b := range list {
		if b != nil {
			stbl = append(stbl, b)
		}
	}
	mdia.kids = append(mdia.kids, &vbox{code: "hdlr", typ: "Hdlr"}, &vbox{code: "minf", kids: []*vbox{{code: "smhd", typ: "Smhd"}, {code: "stbl", kids: stbl}}})
	kids = append(kids, mdia)
	t.box = &vbox{code: "trak", kids: kids}
	return t
}

func zero32(e *Eng) *V { return e.intV(0, 32) }

// complete: the track has the boxes Probe cannot do without.
func (t *track) complete() bool {
	return t.v.tkhd && t.v.mdhd && t.v.co != "" && t.v.stts != nil && t.v.stsc != nil
}

func (t *track) check(x *exp, at ...interface{}) {
	k, e := x.k, x.k.e
	p := func(more ...interface{}) []interface{} { return append(append([]interface{}{}, at...), more...) }
	x.is(32, k.bv(t.id), p("TrackID")...)
	x.is(32, k.bv(t.ts), p("Timescale")...)
	x.is(64, t.dur, p("Duration")...)
	codec := map[string]uint64{"avc1": 1, "encv": 1, "mp4a": 2, "enca": 2}[t.v.entry]
	if c := k.r.Root.Pkg.Scope().Lookup("CodecUnknown"); c == nil {
		x.bad = "CodecUnknown is missing"
		return
	}
	for i, n := range []string{"CodecUnknown", "CodecAVC1", "CodecMP4A"} {
		c, ok := k.r.Root.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok || c.Val().ExactString() != fmt.Sprint(i) {
			x.bad = n + " has another value"
			return
		}
	}
	x.is(64, e.intV(codec, 64), p("Codec")...)
	x.is(1, e.boolV(e.b.Bool(t.v.entry == "encv" || t.v.entry == "enca")), p("Encrypted")...)
	n := t.v.edits
	if n < 0 {
		n = 0
	}
	if x.len(n, p("EditList")...) {
		for i := 0; i < n; i++ {
			x.is(64, t.media[i], p("EditList", i, "MediaTime")...)
			x.is(64, t.segdur[i], p("EditList", i, "SegmentDuration")...)
		}
	}
	if x.len(len(t.delta), p("Samples")...) {
		for i := range t.delta {
			x.is(32, k.bv(t.delta[i]), p("Samples", i, "TimeDelta")...)
			cts, size := e.intV(0, 64), e.intV(0, 32)
			if i < len(t.cts) {
				cts = t.cts[i]
			}
			if t.v.stsz == -2 {
				size = k.bv(t.size)
			} else if i < len(t.sizes) {
				size = k.bv(t.sizes[i])
			}
			x.is(64, cts, p("Samples", i, "CompositionTimeOffset")...)
			x.is(32, size, p("Samples", i, "Size")...)
		}
	}
	if x.len(t.v.chunks, p("Chunks")...) {
		for i := 0; i < t.v.chunks; i++ {
			x.is(64, k.bv(t.offs[i]), p("Chunks", i, "DataOffset")...)
			// the entry in force for a chunk is the last one that starts at or before it
			want := e.intV(0, 32)
			for j, first := range t.v.stsc {
				if first <= i+1 {
					want = k.bv(t.spc[j])
				}
			}
			x.is(32, want, p("Chunks", i, "SamplesPerChunk")...)
		}
	}
	video := t.v.entry == "avc1" || t.v.entry == "encv"
	audio := t.v.entry == "mp4a" || t.v.entry == "enca"
	x.null(!(video && t.v.avcC), p("AVC")...)
	if video && t.v.avcC {
		for _, n := range []string{"ConfigurationVersion", "Profile", "ProfileCompatibility", "Level", "LengthSize", "Width", "Height"} {
			x.is(len(t.avc[n]), k.bv(t.avc[n]), p("AVC", n)...)
		}
	}
	x.null(!(audio && t.v.esds != ""), p("MP4A")...)
	if audio && t.v.esds != "" {
		x.is(16, k.bv(t.channels), p("MP4A", "ChannelCount")...)
		x.is(8, k.bv(t.esdsOTI), p("MP4A", "OTI")...)
		x.is(8, e.intV(0, 8), p("MP4A", "AudOTI")...)
	}
}

func trackCases(c *Check) []ccase {
	var out []ccase
	add := func(kind, name string, run func(k *codec) string) { out = append(out, ccase{kind, name, run}) }
	one := func(name string, change func(v *vtrak)) {
		v := stdTrak()
		change(&v)
		add("track", name, func(k *codec) string {
			t := trak(k, v)
			f := k.newFile([]*vbox{{code: "moov", kids: []*vbox{t.box}}})
			o, bad := f.run("Probe")
			if bad != "" {
				return bad
			}
			fails := k.failing(o, 1)
			if !t.complete() {
				if fails != k.e.b.T {
					return "does not fail though a mandatory box is missing" + k.why()
				}
				return ""
			}
			if fails != k.e.b.F {
				return "fails" + k.why()
			}
			x := f.expect(o)
			if x.len(1, "Tracks") {
				t.check(x, "Tracks", 0)
			}
			return f.done(x)
		})
	}
	one("as usual", func(v *vtrak) {})
	one("boxes in another order", func(v *vtrak) { v.order = "reversed"; v.ctts = []int{2}; v.stsz = 2 })
	one("no tkhd", func(v *vtrak) { v.tkhd = false })
	one("no mdhd", func(v *vtrak) { v.mdhd = false })
	one("no stco or co64", func(v *vtrak) { v.co = "" })
	one("no stts", func(v *vtrak) { v.stts = nil })
	one("no stsc", func(v *vtrak) { v.stsc = nil })
	for n := 0; n <= 3; n++ {
		n := n
		one(fmt.Sprintf("%d edits", n), func(v *vtrak) { v.edits = n })
		one(fmt.Sprintf("stco with %d chunks", n), func(v *vtrak) { v.chunks = n })
		one(fmt.Sprintf("co64 with %d chunks", n), func(v *vtrak) { v.co, v.chunks = "co64", n })
	}
	for _, e := range []string{"avc1", "encv"} {
		for _, a := range []bool{true, false} {
			e, a := e, a
			one(fmt.Sprintf("%s, avcC %v", e, a), func(v *vtrak) { v.entry, v.avcC = e, a })
		}
	}
	one("other entry with avcC", func(v *vtrak) { v.entry, v.avcC = "hvc1", true })
	for _, e := range []string{"mp4a", "enca"} {
		for _, d := range []string{"", "plain", "wave"} {
			if e == "enca" && d == "wave" {
				continue
			}
			e, d := e, d
			one(fmt.Sprintf("%s, esds %q", e, d), func(v *vtrak) { v.entry, v.esds = e, d })
		}
	}
	for _, s := range [][]int{{}, {0}, {1}, {3}, {1, 2}, {2, 0, 1}, {1, 1, 1}, {0, 2}} {
		s := s
		one(fmt.Sprintf("stts %v", s), func(v *vtrak) { v.stts = s })
		one(fmt.Sprintf("ctts %v for 3 samples", s), func(v *vtrak) { v.stts, v.ctts = []int{1, 2}, s })
		one(fmt.Sprintf("ctts %v for 2 samples", s), func(v *vtrak) { v.ctts = s })
	}
	for _, n := range []int{-2, -1, 0, 1, 2, 3, 4} {
		n := n
		one(fmt.Sprintf("stsz %d for 3 samples", n), func(v *vtrak) { v.stts, v.stsz = []int{3}, n })
	}
	for _, s := range [][]int{{}, {1}, {2}, {4}, {5}, {1, 2}, {1, 3}, {2, 3}, {1, 4}, {1, 5}, {2, 5}, {3, 4}, {1, 2, 3}, {1, 3, 4}, {1, 2, 4}, {2, 3, 4}, {1, 2, 3, 4}, {1, 2, 9}} {
		s := s
		for _, n := range []int{0, 1, 4} {
			n := n
			one(fmt.Sprintf("stsc %v for %d chunks", s, n), func(v *vtrak) { v.stsc, v.chunks = s, n })
		}
	}
	out = append(out, profileCases()...)
	for _, names := range filesTop {
		names := names
		for _, brands := range []int{0, 2} {
			brands := brands
			add("file", fmt.Sprintf("%v, %d brands", names, brands), func(k *codec) string { return fileCase(k, names, brands) })
		}
	}
	return out
}

var filesTop = [][]string{
	{"ftyp", "moov:mt", "mdat"},
	{"ftyp", "mdat", "moov:mt"},
	{"ftyp", "free", "mdat", "free", "moov:tm"},
	{"moov:mtt"},
	{"mdat", "ftyp", "moov:mttt", "mdat"},
	{"ftyp", "mdat"},
	{"ftyp", "moov:t", "moof", "mdat", "moof", "mdat"},
	{"ftyp", "moov:m", "moof", "moof", "moof"},
	{"ftyp"},
	{"styp", "moof", "mdat"},
	{"mdat", "moov:m", "mdat", "moof"},
}

func fileCase(k *codec, names []string, brands int) string {
	e := k.e
	var top []*vbox
	var tracks []*track
	var frags []*fragment
	var major [][]*B
	var minor, scale []*B
	var ids [][][]*B
	var dur *V
	hasFtyp, hasMvhd := false, false
	moov, mdatBefore := false, false
	mdat := false
	for _, n := range names {
		switch {
		case n == "ftyp":
			hasFtyp = true
			top = append(top, &vbox{code: n, typ: "Ftyp", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
				for i := 0; i < 4; i++ {
					major = append(major, f.sym(st, p, ty, "MajorBrand", i))
				}
				minor = f.sym(st, p, ty, "MinorVersion")
				f.elems(st, p, ty, brands, "CompatibleBrands")
				for j := 0; j < brands; j++ {
					ids = append(ids, nil)
					for i := 0; i < 4; i++ {
						ids[j] = append(ids[j], f.sym(st, p, ty, "CompatibleBrands", j, "CompatibleBrand", i))
					}
				}
			}})
		case len(n) > 4 && n[:5] == "moov:":
			moov, mdatBefore = true, mdat
			b := &vbox{code: "moov"}
			for _, c := range n[5:] {
				if c == 't' {
					v := stdTrak()
					v.stts = []int{1}
					t := trak(k, v)
					tracks = append(tracks, t)
					b.kids = append(b.kids, t.box)
					continue
				}
				hasMvhd = true
				b.kids = append(b.kids, &vbox{code: "mvhd", typ: "Mvhd", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
					// versions 0 and 1: others are not decoded
					ver := []*B{k.wideBits(1, k.fresh("ver"))[0], e.b.F, e.b.F, e.b.F, e.b.F, e.b.F, e.b.F, e.b.F}
					f.set(st, p, ty, k.bv(ver), "FullBox", "Version")
					scale = f.sym(st, p, ty, "Timescale")
					d0, d1 := k.lo(f.sym(st, p, ty, "DurationV0"), 64, false), f.sym(st, p, ty, "DurationV1")
					dur = k.byVersion(ver, k.bv(d0), k.bv(d1), e.intV(0, 64))
				}})
			}
			top = append(top, b)
		case n == "moof":
			fr := frag(k, vfrag{tfhd: true, tfdt: true, trun: 1, fixed: -1})
			frags = append(frags, fr)
			top = append(top, fr.box)
		default:
			if n == "mdat" {
				mdat = true
			}
			top = append(top, &vbox{code: n, typ: map[string]string{"mdat": "Mdat", "free": "Free", "styp": "Styp"}[n]})
		}
	}
	f := k.newFile(top)
	for _, name := range []string{"Probe", "ProbeFra"} {
		o, bad := f.run(name)
		if bad != "" {
			return bad
		}
		if k.failing(o, 1) != e.b.F {
			return name + " fails" + k.why()
		}
		x := f.expect(o)
		for i := 0; i < 4; i++ {
			w := e.intV(0, 8)
			if hasFtyp {
				w = k.bv(major[i])
			}
			x.is(8, w, "MajorBrand", i)
		}
		if hasFtyp {
			x.is(32, k.bv(minor), "MinorVersion")
			if x.len(brands, "CompatibleBrands") {
				for j := range ids {
					for i := 0; i < 4; i++ {
						x.is(8, k.bv(ids[j][i]), "CompatibleBrands", j, i)
					}
				}
			}
		} else {
			x.is(32, e.intV(0, 32), "MinorVersion")
			x.len(0, "CompatibleBrands")
		}
		x.is(1, e.boolV(e.b.Bool(moov && !mdatBefore)), "FastStart")
		if hasMvhd {
			x.is(32, k.bv(scale), "Timescale")
			x.is(64, dur, "Duration")
		} else {
			x.is(32, e.intV(0, 32), "Timescale")
			x.is(64, e.intV(0, 64), "Duration")
		}
		if x.len(len(tracks), "Tracks") {
			for i, t := range tracks {
				t.check(x, "Tracks", i)
			}
		}
		if x.len(len(frags), "Segments") {
			for i, fr := range frags {
				fr.check(x, "Segments", i)
			}
		}
		if r := f.done(x); r != "" {
			return name + ": " + r
		}
	}
	return ""
}

// ---------------------------------------------------------------- fragments

type vfrag struct {
	tfhd, tfdt bool
	trun       int // entries; -1: no trun
	order      string
	fixed      int // -1: flags and version unknown; otherwise bits: durations, sizes, version
}

type fragment struct {
	v                       vfrag
	box                     *vbox
	id, defDur, defSize     []*B
	base                    *V
	flags                   []*B
	durs, sizes, cto0, cto1 [][]*B
	ver                     []*B
}

func frag(k *codec, v vfrag) *fragment {
	e := k.e
	fr := &fragment{v: v}
	var tfhd, tfdt, trun *vbox
	if v.tfhd {
		tfhd = &vbox{code: "tfhd", typ: "Tfhd", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			fr.id = f.sym(st, p, ty, "TrackID")
			fr.defDur = f.sym(st, p, ty, "DefaultSampleDuration")
			fr.defSize = f.sym(st, p, ty, "DefaultSampleSize")
			if v.fixed >= 0 && len(fr.defDur) == 32 && len(fr.defSize) == 32 {
				fr.defDur, fr.defSize = k.lo(fr.defDur[:7], 32, true), k.lo(fr.defSize[:7], 32, true)
				f.set(st, p, ty, k.bv(fr.defDur), "DefaultSampleDuration")
				f.set(st, p, ty, k.bv(fr.defSize), "DefaultSampleSize")
			}
		}}
	}
	if v.tfdt {
		tfdt = &vbox{code: "tfdt", typ: "Tfdt", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			ver := []*B{k.wideBits(1, k.fresh("ver"))[0], e.b.F, e.b.F, e.b.F, e.b.F, e.b.F, e.b.F, e.b.F}
			f.set(st, p, ty, k.bv(ver), "FullBox", "Version")
			fr.base = k.byVersion(ver, k.bv(k.lo(f.sym(st, p, ty, "BaseMediaDecodeTimeV0"), 64, false)), k.bv(f.sym(st, p, ty, "BaseMediaDecodeTimeV1")), e.intV(0, 64))
		}}
	}
	if v.trun >= 0 {
		trun = &vbox{code: "trun", typ: "Trun", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
			fr.ver = []*B{k.wideBits(1, k.fresh("ver"))[0], e.b.F, e.b.F, e.b.F, e.b.F, e.b.F, e.b.F, e.b.F}
			if v.fixed >= 0 {
				fr.ver[0] = e.b.Bool(v.fixed&4 != 0)
			}
			f.set(st, p, ty, k.bv(fr.ver), "FullBox", "Version")
			for i := 0; i < 3; i++ {
				bs := f.sym(st, p, ty, "FullBox", "Flags", i)
				if i == 1 && v.fixed >= 0 {
					bs = append([]*B{e.b.Bool(v.fixed&1 != 0), e.b.Bool(v.fixed&2 != 0)}, bs[2:]...)
					f.set(st, p, ty, k.bv(bs), "FullBox", "Flags", i)
				}
				fr.flags = append(fr.flags, bs...)
			}
			f.set(st, p, ty, e.intV(uint64(v.trun), 32), "SampleCount")
			f.elems(st, p, ty, v.trun, "Entries")
			// three samples: six unknown bits and an unknown sign, to keep the diagrams small
			val := func(i int, name string) []*B {
				bs := f.sym(st, p, ty, "Entries", i, name)
				if v.fixed >= 0 && len(bs) == 32 {
					bs = k.lo(bs[:7], 32, true)
					f.set(st, p, ty, k.bv(bs), "Entries", i, name)
				}
				return bs
			}
			for i := 0; i < v.trun; i++ {
				fr.durs = append(fr.durs, val(i, "SampleDuration"))
				fr.sizes = append(fr.sizes, val(i, "SampleSize"))
				fr.cto0 = append(fr.cto0, val(i, "SampleCompositionTimeOffsetV0"))
				fr.cto1 = append(fr.cto1, val(i, "SampleCompositionTimeOffsetV1"))
			}
		}}
	}
	list := []*vbox{tfhd, tfdt, trun}
	if v.order == "reversed" {
		list = []*vbox{trun, tfdt, tfhd}
	}
	traf := &vbox{code: "traf"}
	for _, b := range list {
		if b != nil {
			traf.kids = append(traf.kids, b)
		}
	}
	fr.box = &vbox{code: "moof", kids: []*vbox{{code: "mfhd", typ: "Mfhd"}, traf}}
	return fr
}

func (k *codec) addBits(a, b []*B) []*B {
	c := k.e.b.F
	out := make([]*B, len(a))
	for i := range a {
		x := k.e.b.Xor(a[i], b[i])
		out[i] = k.e.b.Xor(x, c)
		c = k.e.b.Or(k.e.b.And(a[i], b[i]), k.e.b.And(x, c))
	}
	return out
}

func (k *codec) muxBits(c *B, a, b []*B) []*B {
	out := make([]*B, len(a))
	for i := range a {
		out[i] = k.e.b.Or(k.e.b.And(c, a[i]), k.e.b.And(k.e.b.Not(c), b[i]))
	}
	return out
}

func (k *codec) num0(w int) []*B {
	out := make([]*B, w)
	for i := range out {
		out[i] = k.e.b.F
	}
	return out
}

// lessSigned compares two's complement numbers.
func (k *codec) lessSigned(a, b []*B) *B {
	lt := k.e.b.F
	for i := range a {
		x, y := a[i], b[i]
		if i == len(a)-1 {
			x, y = y, x
		}
		lt = k.e.b.Or(k.e.b.And(k.e.b.Not(x), y), k.e.b.And(k.e.b.Eq(x, y), lt))
	}
	return lt
}

func (fr *fragment) check(x *exp, at ...interface{}) {
	k, e := x.k, x.k.e
	p := func(more ...interface{}) []interface{} { return append(append([]interface{}{}, at...), more...) }
	x.is(32, k.bv(fr.id), p("TrackID")...)
	x.is(64, e.intV(fr.box.off, 64), p("MoofOffset")...)
	base := e.intV(0, 64)
	if fr.v.tfdt {
		base = fr.base
	}
	x.is(64, base, p("BaseMediaDecodeTime")...)
	x.is(32, k.bv(fr.defDur), p("DefaultSampleDuration")...)
	n := fr.v.trun
	if n < 0 {
		n = 0
	}
	x.is(32, e.intV(uint64(n), 32), p("SampleCount")...)
	dur, size, cto, t := k.num0(32), k.num0(32), k.num0(32), k.num0(32)
	for i := 0; i < n; i++ {
		// flags are big-endian: byte 0 is the highest
		hasDur, hasSize := fr.flags[8], fr.flags[9]
		d := k.muxBits(hasDur, fr.durs[i], fr.defDur)
		dur = k.addBits(dur, d)
		size = k.addBits(size, k.muxBits(hasSize, fr.sizes[i], fr.defSize))
		o := k.addBits(t, k.muxBits(k.isNum(fr.ver, 0), fr.cto0[i], fr.cto1[i]))
		if i == 0 {
			cto = o
		} else {
			cto = k.muxBits(k.lessSigned(o, cto), o, cto)
		}
		t = k.addBits(t, d)
	}
	x.is(32, k.bv(dur), p("Duration")...)
	x.is(32, k.bv(size), p("Size")...)
	x.is(32, k.bv(cto), p("CompositionTimeOffset")...)
}

func fragmentCases(c *Check) []ccase {
	var out []ccase
	for _, tfdt := range []bool{true, false} {
		for _, order := range []string{"", "reversed"} {
			for n := -1; n <= 3; n++ {
				for _, tfhd := range []bool{true, false} {
					if !tfhd && n > 1 {
						continue
					}
					for fixed := -1; fixed < 8; fixed++ {
						if (fixed >= 0) != (n > 2) {
							continue
						}
						v := vfrag{tfhd: tfhd, tfdt: tfdt, trun: n, order: order, fixed: fixed}
						out = append(out, ccase{"fragment", fmt.Sprintf("tfhd %v, tfdt %v, %d samples, %s %d", tfhd, tfdt, n, order, fixed), func(k *codec) string {
							k.e.WideLt, k.e.WideMax = true, 64
							defer func() { k.e.WideLt = false }()
							fr := frag(k, v)
							f := k.newFile([]*vbox{{code: "free", typ: "Free"}, fr.box, {code: "mdat", typ: "Mdat"}})
							o, bad := f.run("Probe")
							if bad != "" {
								return bad
							}
							if fails := k.failing(o, 1); !v.tfhd {
								if fails != k.e.b.T {
									return "does not fail without tfhd" + k.why()
								}
								return ""
							} else if fails != k.e.b.F {
								return "fails" + k.why()
							}
							x := f.expect(o)
							if x.len(1, "Segments") {
								fr.check(x, "Segments", 0)
							}
							return f.done(x)
						}})
					}
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- AAC profiles

// profile is one outcome of reading an AudioSpecificConfig: an error or the audio object type.
type profile struct {
	g   *B
	err bool
	aot []*B
}

// audioConfig reads the configuration (bits in stream order); gap is the number of bits between the
// channel configuration and the extension.
func audioConfig(k *codec, bits []*B, gap int) []profile {
	var out []profile
	fail := func(g *B) { out = append(out, profile{g, true, nil}) }
	give := func(g *B, aot []*B) { out = append(out, profile{g, false, aot}) }
	num := func(c uint64) []*B { return revBits(k.konstBits(8, c)) }
	b := k.e.b
	var objType func(g *B, at int, next func(g *B, at int, aot []*B))
	objType = func(g *B, at int, next func(g *B, at int, aot []*B)) {
		if at+5 > len(bits) {
			fail(g)
			return
		}
		esc := k.isConst(bits[at:at+5], 31)
		next(b.And(g, b.Not(esc)), at+5, k.lo(revBits(bits[at:at+5]), 8, false))
		g = b.And(g, esc)
		if at+11 > len(bits) {
			fail(g)
			return
		}
		next(g, at+11, k.addBits(k.lo(revBits(bits[at+5:at+11]), 8, false), num(32)))
	}
	freq := func(g *B, at int, next func(g *B, at int)) {
		if at+4 > len(bits) {
			fail(g)
			return
		}
		own := k.isConst(bits[at:at+4], 15)
		next(b.And(g, b.Not(own)), at+4)
		g = b.And(g, own)
		if at+28 > len(bits) {
			fail(g)
			return
		}
		next(g, at+28)
	}
	objType(b.T, 0, func(g *B, at int, aot []*B) {
		freq(g, at, func(g *B, at int) {
			if len(bits)-at < 20 {
				give(g, aot)
				return
			}
			lc := k.isNum(aot, 2)
			give(b.And(g, b.Not(lc)), aot)
			g = b.And(g, lc)
			at += 4 + gap
			ext := b.F
			if at+11 <= len(bits) {
				ext = k.isConst(bits[at:at+11], 0x2b7)
			}
			give(b.And(g, b.Not(ext)), aot)
			g = b.And(g, ext)
			if g == b.F {
				return
			}
			objType(g, at+11, func(g *B, at int, x []*B) {
				sbr := k.isNum(x, 5)
				other := k.isNum(x, 22)
				give(b.And(g, b.Not(b.Or(sbr, other))), aot)
				g = b.And(g, b.Or(sbr, other))
				if g == b.F {
					return
				}
				if at >= len(bits) {
					fail(g)
					return
				}
				give(b.And(g, b.Not(bits[at])), aot)
				g = b.And(g, bits[at])
				give(b.And(g, other), num(5))
				freq(b.And(g, sbr), at+1, func(g *B, at int) {
					ps := b.F
					if len(bits)-at >= 12 {
						ps = b.And(k.isConst(bits[at:at+11], 0x548), bits[at+11])
					}
					give(b.And(g, ps), num(29))
					give(b.And(g, b.Not(ps)), num(5))
				})
			})
		})
	})
	return out
}

func profileCases() []ccase {
	var out []ccase
	run := func(name string, tags []int, n int, oti uint64, gap int) {
		out = append(out, ccase{"profile", name, func(k *codec) string {
			e := k.e
			v := stdTrak()
			v.entry = "mp4a"
			t := trak(k, v)
			bits := k.symBits(8*n, k.fresh("config"))
			var other []*B
			es := &vbox{code: "esds", typ: "Esds", fill: func(f *vfile, st *State, p *Node, ty types.Type) {
				f.elems(st, p, ty, len(tags), "Descriptors")
				dt := k.gtype("DecoderConfigDescriptor")
				if dt == nil {
					f.wrong("DecoderConfigDescriptor is missing")
					return
				}
				for i, tag := range tags {
					f.set(st, p, ty, e.intV(uint64(tag), 8), "Descriptors", i, "Tag")
					q, qt, bad := k.at(st, p, ty, "Descriptors", i)
					if bad != "" {
						f.wrong("Descriptors: %s", bad)
						return
					}
					at, ft := pathTo(qt, "DecoderConfigDescriptor")
					bt, dtt := pathTo(qt, "Data")
					if ft == nil || dtt == nil {
						f.wrong("Descriptor has no DecoderConfigDescriptor or Data")
						return
					}
					e.store(st, e.ptrN(q.Name, q.Path+at), ft, e.nilV(), e.b.T)
					switch tag {
					case 4:
						obj := k.fresh("w:dcd") + "\x00"
						st.base[obj] = k.fresh("dcd")
						e.store(st, e.ptrN(q.Name, q.Path+at), ft, e.v(e.ptrN(obj, "")), e.b.T)
						if oti != 0 {
							f.set(st, e.ptrN(obj, ""), dt, e.intV(oti, 8), "ObjectTypeIndication")
						} else {
							other = f.sym(st, e.ptrN(obj, ""), dt, "ObjectTypeIndication")
							other[6] = e.b.F
							f.set(st, e.ptrN(obj, ""), dt, k.bv(other), "ObjectTypeIndication")
						}
					case 5:
						e.store(st, e.ptrN(q.Name, q.Path+bt), dtt, e.v(e.bytesSlice(st, k.fresh("w:data")+"\x00", k.bytes(bits), types.NewSlice(byteT))), e.b.T)
					}
				}
			}}
			mdia := t.box.kids[1]
			stbl := mdia.kids[len(mdia.kids)-1].kids[1]
			en := stbl.kids[0].kids[0]
			en.kids = append(en.kids, es)
			f := k.newFile([]*vbox{{code: "moov", kids: []*vbox{t.box}}})
			o, bad := f.run("Probe")
			if bad != "" {
				return bad
			}
			fails := k.failing(o, 1)
			has := func(tag int) bool {
				for _, x := range tags {
					if x == tag {
						return true
					}
				}
				return false
			}
			want := []profile{{e.b.T, false, revBits(k.konstBits(8, 0))}}
			wantOTI := e.intV(oti, 8)
			switch {
			case !has(4):
				wantOTI = e.intV(0, 8)
			case oti == 0:
				wantOTI = k.bv(other)
			case oti != 0x40:
			case !has(5):
				want = []profile{{e.b.T, true, nil}}
			default:
				want = audioConfig(k, bits, gap)
			}
			err := e.b.F
			for _, p := range want {
				if p.err {
					err = e.b.Or(err, p.g)
				}
			}
			if err != fails {
				return "does not fail exactly when the configuration ends early" + k.why()
			}
			if err == e.b.T {
				return ""
			}
			x := f.expect2(o, e.b.Not(err))
			aot := e.intV(0, 8)
			for _, p := range want {
				if !p.err {
					aot = k.ite(p.g, k.bv(p.aot), aot)
				}
			}
			if x.len(1, "Tracks") {
				x.null(false, "Tracks", 0, "MP4A")
				x.is(8, wantOTI, "Tracks", 0, "MP4A", "OTI")
				x.is(8, aot, "Tracks", 0, "MP4A", "AudOTI")
				x.is(16, k.bv(t.channels), "Tracks", 0, "MP4A", "ChannelCount")
			}
			return f.done(x)
		}})
	}
	for n := 0; n <= 12; n++ {
		run(fmt.Sprintf("configuration of %d bytes", n), []int{3, 4, 5, 6}, n, 0x40, 0)
	}
	run("configuration before its descriptor", []int{5, 4}, 2, 0x40, 0)
	run("several configurations", []int{4, 5, 6, 6}, 3, 0x40, 0)
	run("no configuration", []int{3, 4, 6}, 0, 0x40, 0)
	run("no decoder configuration", []int{3, 5, 6}, 2, 0x40, 0)
	run("no descriptors", nil, 0, 0x40, 0)
	run("other object types", []int{3, 4, 5}, 2, 0, 0)
	run("MP3", []int{3, 4}, 0, 0x6b, 0)
	run("extension behind the GASpecificConfig", []int{3, 4, 5, 6}, 7, 0x40, 3)
	return out
}
