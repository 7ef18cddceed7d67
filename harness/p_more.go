package main

// C34: metadata values stored on their own. C36: implementations of the
// interfaces which are not the library's. C37: what operations return is used
// like what was built.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/collection/euler"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/collection/float"
	"github.com/recolude/rap/format/collection/position"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

func init() {
	register(&Prop{
		ID: "C34", Level: "exploration",
		Rule: "distinct by the bytes stored",
		Need: map[string]int64{"values": 3000, "prefixes_refused": 3000, "unknown_codes_refused": 200, "sink_faults": 1500, "hostile": 3000, "deep": 2},
		Fams: []Family{
			{Name: "stream", Quick: 2000, Thorough: 40000, Run: c34stream},
			{Name: "prefix", Quick: 400, Thorough: 6000, Run: c34prefix},
			{Name: "codes", Quick: 236, Thorough: 236, Run: c34codes},
			{Name: "sink", Quick: 300, Thorough: 6000, Run: c34sink},
			{Name: "hostile", Quick: 6000, Thorough: 120000, Run: c34hostile},
			{Name: "deep", Quick: 3, Thorough: 6, Run: c34deep},
			{Name: "giant", Quick: 2, Thorough: 8, Run: c34giant},
			{Name: "claims", Quick: 256, Thorough: 256, Run: c34claims},
		},
	})
	register(&Prop{
		ID: "C36", Level: "exploration",
		Rule: "distinct by recording, configuration and style of implementation",
		Need: map[string]int64{"written": 800, "sliced": 800, "foreign_refused": 1000, "lazy_nodes": 3000, "once": 800, "short_refused": 200, "long_refused": 200, "failing_refused": 100},
		Fams: []Family{
			{Name: "lazy", Quick: 1500, Thorough: 30000, Run: c36lazy},
			{Name: "foreign", Quick: 2000, Thorough: 30000, Run: c36foreign},
			{Name: "binaries", Quick: 600, Thorough: 6000, Run: c36binaries},
		},
	})
	register(&Prop{
		ID: "C37", Level: "exploration",
		Rule: "distinct by the sequence of operations and the recording it ends with",
		Need: map[string]int64{"steps": 4000, "rewritten": 1000, "sliced": 500, "combined": 500, "compared": 10000, "entries": 8000, "entries_in_slices": 80},
		Fams: []Family{
			{Name: "chain", Quick: 500, Thorough: 12000, Run: func(c *C) { c37(c, 12) }},
			{Name: "long", Quick: 24, Thorough: 400, Run: func(c *C) { c37(c, 80) }},
			{Name: "generations", Quick: 200, Thorough: 4000, Run: c37generations},
			{Name: "entries", Quick: 400, Thorough: 8000, Run: c37entries},
		},
	})
}

// --- C34 ---------------------------------------------------------------------

func (c *C) storeVal(b *bytes.Buffer, v MVal) {
	p := v.Prop()
	before := b.Len()
	n, err := metadata.WriteProprty(b, p)
	if err != nil {
		c.Fail("store-error", "storing %v failed: %v", v, err)
	}
	got := b.Bytes()[before:]
	if n != len(got) {
		c.Fail("store-count", "storing %v reports %d bytes, the stream received %d", v, n, len(got))
	}
	if len(got) == 0 || got[0] != v.Code {
		c.Fail("store-code", "storing %v writes %x", v, head(string(got), 8))
	}
	back, rest, err := parseVal(got[0], got[1:], 0)
	if err != nil || len(rest) != 0 || back.String() != v.String() {
		c.Fail("store-content", "the bytes stored for %v state %v (%d left, %v)", v, back, len(rest), err)
	}
	c.Count("values", 1)
	c.Count(fmt.Sprintf("kind_%d", v.Code), 1)
}

func c34stream(c *C) {
	g := newGen(c.R)
	var b bytes.Buffer
	var vs []MVal
	for i, n := 0, 1+g.n(12); i < n; i++ {
		vs = append(vs, g.Val(3))
	}
	if c.Idx%40 == 0 { // long ones
		vs = append(vs, vStr(string(g.bytes(pick(g, 4095, 4096, 4097, 70000)))), vBytes(g.bytes(pick(g, 127, 128, 16384, 100000))), vStr("after"))
	}
	c.Note("%v", vs)
	var ends []int
	for _, v := range vs {
		c.storeVal(&b, v)
		ends = append(ends, b.Len())
	}
	c.Distinct(b.Bytes())
	b.WriteString("tail")
	var src io.Reader = bytes.NewReader(b.Bytes())
	switch g.n(4) {
	case 0:
		src = iotest.OneByteReader(src)
	case 1:
		src = iotest.HalfReader(src)
	case 2:
		src = iotest.DataErrReader(src)
	}
	cr := &countReader{r: src}
	for i, v := range vs {
		p, err := metadata.ReadProperty(cr)
		if err != nil {
			c.Fail("load-error", "reading value %d, %v: %v", i, v, err)
		}
		s, err := snapVal(p)
		if err != nil || s.String() != v.String() {
			c.Fail("load-value", "value %d, %v reads back as %v (%v)", i, v, s, err)
		}
		if cr.n != ends[i] {
			c.Fail("load-consumed", "reading %d values consumed %d bytes instead of %d", i+1, cr.n, ends[i])
		}
	}
	c.Sample(fmt.Sprint(vs))
}

func c34prefix(c *C) {
	g := newGen(c.R)
	v := g.Val(3)
	var b bytes.Buffer
	c.storeVal(&b, v)
	all := b.Bytes()
	c.Note("%v as %x", v, trunc(string(all), 400))
	c.Distinct(all)
	step := 1
	if len(all) > 400 {
		step = len(all) / 200
	}
	for k := 0; k < len(all); k += step {
		var src io.Reader = bytes.NewReader(all[:k])
		fails := g.p(0.3)
		if fails {
			src = io.MultiReader(src, iotest.ErrReader(errInjected))
		}
		p, err := metadata.ReadProperty(src)
		if err == nil {
			s, _ := snapVal(p)
			c.Fail("prefix-accepted", "%d of %d bytes of %v read as %v without error", k, len(all), v, s)
		}
		c.Count("prefixes_refused", 1)
	}
}

func c34codes(c *C) {
	known := map[byte]bool{}
	for _, k := range []byte{kStr, kInt, kF32, kTrue, kFalse, kByte, kV2, kV3, kBlock, kTime} {
		known[k] = true
		known[kArr+k] = true
	}
	code := byte(c.Idx)
	if c.Idx >= 236 || known[code] {
		code = byte(200 + c.Idx%56)
	}
	g := newGen(c.R)
	b := append([]byte{code}, bytes.Repeat([]byte{byte(g.n(3))}, 64)...)
	p, err := metadata.ReadProperty(bytes.NewReader(b))
	if err == nil {
		c.Fail("unknown-code", "kind code %d, which means nothing, reads as %T", code, p)
	}
	// The same inside a block and an unknown array.
	blk := append([]byte{kBlock, 1, 1, 'k', code}, b[1:]...)
	if _, err := metadata.ReadProperty(bytes.NewReader(blk)); err == nil {
		c.Fail("unknown-code", "kind code %d inside a block is accepted", code)
	}
	c.Count("unknown_codes_refused", 2)
	c.DistinctS("%d", code)
}

func c34sink(c *C) {
	g := newGen(c.R)
	v := g.Val(2)
	p := v.Prop()
	var full bytes.Buffer
	metadata.WriteProprty(&full, p)
	c.Note("%v", v)
	for k := 0; k < full.Len(); k += 1 + full.Len()/40 {
		s := &faultSink{limit: k, call: -1}
		n, err := metadata.WriteProprty(s, p)
		if err == nil {
			c.Fail("sink-error-lost", "the stream fails after %d of %d bytes, yet storing %v succeeds", k, full.Len(), v)
		}
		if n != len(s.got) {
			c.Fail("sink-count", "storing %v reports %d bytes, the failing stream took %d", v, n, len(s.got))
		}
		c.Count("sink_faults", 1)
	}
	c.Distinct(full.Bytes())
}

func c34hostile(c *C) {
	g := newGen(c.R)
	var b bytes.Buffer
	if g.p(0.8) {
		metadata.WriteProprty(&b, g.Val(3).Prop())
	}
	raw := b.Bytes()
	switch g.n(4) {
	case 0:
		raw = g.bytes(1 + g.n(60))
		raw[0] = byte(g.n(30))
	case 1: // an array or text claiming any length
		h := []byte{pick[byte](g, 0, 11, 13, 14, 15, 16, 18, 19, 20, 24, 25)}
		for x := g.hugeNum(); ; x >>= 7 {
			if x < 128 {
				h = append(h, byte(x))
				break
			}
			h = append(h, byte(x)|128)
		}
		raw = append(h, g.bytes(g.n(200))...)
	default:
		raw = g.mutateBytes(append([]byte{}, raw...))
	}
	c.readHostile(raw)
}

// readHostile reads bytes as a value, whatever they are.
func (c *C) readHostile(raw []byte) {
	c.Note("%.4000x", raw)
	c.Distinct(raw)
	var p metadata.Property
	var err error
	al := allocOf(func() { p, err = metadata.ReadProperty(bytes.NewReader(raw)) })
	c.Max("alloc_kb", int(al>>10))
	if al > 4<<20+2000*uint64(len(raw)) {
		c.Fail("alloc", "%d bytes made reading allocate %d", len(raw), al)
	}
	c.Count("hostile", 1)
	if err != nil {
		c.Count("hostile_refused", 1)
		return
	}
	v, err := snapVal(p)
	if err != nil {
		c.Fail("unusable", "accepted value is broken: %v", err)
	}
	_ = p.String()
	json.Marshal(p)
	var again bytes.Buffer
	if _, err := metadata.WriteProprty(&again, p); err != nil {
		c.Fail("unusable", "accepted value can not be stored: %v", err)
	}
	q, err := metadata.ReadProperty(bytes.NewReader(again.Bytes()))
	if err != nil {
		c.Fail("unusable", "accepted value stored again does not read: %v", err)
	}
	w, err := snapVal(q)
	if err != nil || w.String() != v.String() {
		c.Fail("unstable", "accepted value %v reads back as %v (%v)", v, w, err)
	}
}

// c34claims gives every type code every size of count, and little behind it.
func c34claims(c *C) {
	for _, v := range claims(byte(c.Idx)) {
		c.readHostile(v)
	}
}

func c34deep(c *C) {
	depth := []int{100, 1000, 3000, 300, 2000, 5000}[c.Idx%6]
	v := vInt(int32(depth))
	for i := 0; i < depth; i++ {
		if i%2 == 1 && i < 300 {
			v = vArr(kBlock, []MVal{vBlock(Meta{"k": v})})
		} else {
			v = vBlock(Meta{"k": v})
		}
	}
	var b bytes.Buffer
	metadata.WriteProprty(&b, v.Prop())
	p, err := metadata.ReadProperty(bytes.NewReader(b.Bytes()))
	if err != nil {
		c.Fail("deep", "%d levels do not read back: %v", depth, err)
	}
	s, err := snapVal(p)
	if err != nil || s.String() != v.String() {
		c.Fail("deep", "%d levels read back different (%v)", depth, err)
	}
	// The deepest that may be stored, and what is deeper.
	for _, levels := range []int{10000, 10001, 10001 + c.R.IntN(2000)} {
		var b bytes.Buffer
		n, err := metadata.WriteProprty(&b, deepProp(metadata.NewBoolProperty(true), levels, c.Idx%2 == 1))
		if n != b.Len() {
			c.Fail("deep-count", "%d levels: %d bytes reported, %d stored", levels, n, b.Len())
		}
		if levels > 10000 {
			if err == nil {
				_, err = metadata.ReadProperty(bytes.NewReader(b.Bytes()))
				c.Fail("too-deep", "%d levels are stored without an error; reading them back: %v", levels, err)
			}
			continue
		}
		if err != nil {
			c.Fail("deep", "%d levels are refused: %v", levels, err)
		}
		rest := bytes.NewReader(append(b.Bytes(), 'x'))
		p, err := metadata.ReadProperty(rest)
		if err != nil || rest.Len() != 1 {
			c.Fail("deep", "%d levels do not read back: %v, %d bytes left", levels, err, rest.Len())
		}
		if _, l, err := deepEnd(p); err != nil || l != levels {
			c.Fail("deep", "%d levels read back as %d (%v)", levels, l, err)
		}
	}
	// Nothing but headers of nested blocks: refused, or the end of the data.
	h := bytes.Repeat([]byte{kBlock, 1, 1, 'k'}, 2000000)
	if _, err := metadata.ReadProperty(bytes.NewReader(h)); err == nil {
		c.Fail("deep", "two million nested blocks without an end are accepted")
	}
	c.Count("deep", 1)
	c.DistinctS("%d", depth)
}

// --- C36 ---------------------------------------------------------------------

// lazyRec and the others compute everything anew at each call, like a
// caller's own view of some other store would.
type lazyRec struct {
	m     *MRec
	style int
	n     *int
	once  bool // its binaries can be read only once
}

type lazyColl struct {
	m     *MColl
	style int
}

type lazyEnum struct{ *lazyColl }

type lazyBin struct {
	m    *MBin
	once io.Reader // what Data gives, whenever it is asked
}

type lazyRef struct{ m *MRef }

func (r *lazyRec) ID() string               { return r.m.ID }
func (r *lazyRec) Name() string             { return r.m.Name }
func (r *lazyRec) Metadata() metadata.Block { return buildMeta(r.m.Meta) }
func (r *lazyRec) Recordings() []format.Recording {
	if len(r.m.Recs) == 0 && r.style%2 == 0 {
		return []format.Recording{}
	}
	var out []format.Recording
	for i := range r.m.Recs {
		*r.n++
		if (r.style+i)%5 == 4 {
			out = append(out, r.m.Recs[i].Build()) // mixed with the library's
		} else {
			out = append(out, &lazyRec{&r.m.Recs[i], r.style, r.n, r.once})
		}
	}
	return out
}
func (r *lazyRec) CaptureCollections() []format.CaptureCollection {
	var out []format.CaptureCollection
	for i := range r.m.Colls {
		x := r.m.Colls[i].Build()
		switch (r.style + i) % 4 {
		case 0:
			out = append(out, x)
		case 1:
			out = append(out, pointerTo(x))
		default:
			y := &lazyColl{&r.m.Colls[i], r.style}
			if y.m.Kind == kEnum {
				out = append(out, lazyEnum{y})
			} else {
				out = append(out, y)
			}
		}
	}
	return out
}
func (r *lazyRec) Binaries() []format.Binary {
	var out []format.Binary
	for i := range r.m.Bins {
		x := lazyBin{m: &r.m.Bins[i]}
		if r.once {
			// A stream which can be taken only once.
			x.once = x.Data()
		}
		out = append(out, x)
	}
	return out
}
func (r *lazyRec) BinaryReferences() []format.BinaryReference {
	var out []format.BinaryReference
	for i := range r.m.Refs {
		out = append(out, &lazyRef{&r.m.Refs[i]})
	}
	return out
}

// pointerTo gives a pointer to a collection of the library: another type with
// the same methods.
func pointerTo(x format.CaptureCollection) format.CaptureCollection {
	switch v := x.(type) {
	case position.Collection:
		return &v
	case euler.Collection:
		return &v
	case enum.Collection:
		return &v
	case event.Collection:
		return &v
	case float.Collection:
		return &v
	}
	return x
}

func (x *lazyColl) Name() string      { return x.m.Name }
func (x *lazyColl) Signature() string { return "recolude." + x.m.Kind }
func (x *lazyColl) Captures() []format.Capture {
	xs := x.m.Build().Captures()
	if x.style%3 == 0 {
		return append(make([]format.Capture, 0, len(xs)+5), xs...)
	}
	return xs
}
func (x *lazyColl) Slice(a, b float64) format.CaptureCollection {
	y := MRec{Colls: []MColl{*x.m}}
	y = sliced(y, a, b, true)
	l := &lazyColl{&y.Colls[0], x.style}
	if l.m.Kind == kEnum {
		return lazyEnum{l}
	}
	return l
}
func (x *lazyColl) Start() float64                 { return x.m.Caps[0].T }
func (x *lazyColl) End() float64                   { return x.m.Caps[len(x.m.Caps)-1].T }
func (x *lazyColl) Length() int                    { return len(x.m.Caps) }
func (x *lazyColl) CaptureAt(i int) format.Capture { return x.Captures()[i] }
func (x lazyEnum) EnumMembers() []string           { return append([]string{}, x.m.Members...) }
func (b lazyBin) Name() string                     { return b.m.Name }
func (b lazyBin) Data() io.Reader {
	if b.once != nil {
		return b.once
	}
	// Some deliver what they have in pieces.
	if n := len(b.m.Name) % 4; n > 0 {
		return &chunkReader{b: b.m.Data, sizes: func() int { return 1 + 37*(n-1) }, eofWith: n == 2}
	}
	return plainReader{bytes.NewReader(b.m.Data)}
}

func (b lazyBin) Size() uint64              { return uint64(len(b.m.Data)) }
func (b lazyBin) Metadata() metadata.Block  { return buildMeta(b.m.Meta) }
func (b *lazyRef) Name() string             { return b.m.Name }
func (b *lazyRef) URI() string              { return b.m.URI }
func (b *lazyRef) Size() uint64             { return b.m.Size }
func (b *lazyRef) Metadata() metadata.Block { return buildMeta(b.m.Meta) }

func c36lazy(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g.forCfg(w).MaxCaps = 12
	m := g.Shape()
	if m.numCaps() > 400 {
		m = g.finiteTimes(g.Rec(1))
	}
	nodes := 0
	rec := &lazyRec{&m, g.n(60), &nodes, false}
	c.Note("style %d, config %v, recording %s", rec.style, w, trunc(m.Canon(), 5000))
	b, n, err := writeRec(w, rec)
	if err != nil {
		c.Fail("write-error", "writing an implementation of the caller's own failed: %v", err)
	}
	got, n2 := c.mustRead(b)
	if k, err := diffRec(w, m, got, "root"); err != nil {
		c.Fail("rt-"+k, "written from an implementation of the caller's own: %v (%v)", err, w)
	}
	if n != n2 {
		c.Fail("count", "wrote %d, read %d", n, n2)
	}
	c.Count("written", 1)
	plain := m.Build()
	// Measuring and validating.
	if p, l := fmt.Sprint(format.Validate(plain)), fmt.Sprint(format.Validate(rec)); (p == "<nil>") != (l == "<nil>") {
		c.Fail("validate", "validating gives %s, of the library's implementation %s", l, p)
	}
	if err := format.Validate(rec, format.RequireChronologicalCapture(false)); err != nil {
		c.Fail("validate", "%v", err)
	}
	for what, f := range map[string]func(format.Recording) float64{"start": format.RecordingStart, "end": format.RecordingEnd, "duration": format.RecordingDuration} {
		if p, l := f(plain), f(rec); !same(p, l) && !(math.IsNaN(p) && math.IsNaN(l)) {
			c.Fail("extent", "%s is %v, of the library's implementation %v", what, l, p)
		}
	}
	// Slicing.
	x, y := g.bound(m), g.bound(m)
	opts, bins := c.sliceOpts(g, x, y)
	s := c.mustSnap(format.Slice(rec, opts...), "slice")
	want := c.mustSnap(format.Slice(plain, opts...), "slice")
	mustEq(c, "slice", "slicing an implementation of the caller's own", want, s)
	_ = bins
	c.Count("sliced", 1)
	mustEq(c, "modified", "the recording changed", c.mustSnap(plain, "plain"), c.mustSnap(rec, "lazy"))
	// Binaries which can be read only once.
	if len(m.Bins) == 0 || g.p(0.3) {
		m.Bins = append(m.Bins, MBin{Name: g.Name(), Meta: Meta{}, Data: g.bytes(pick(g, g.n(300), g.n(5000), 4095, 4096, 4097, 32768, 65536+g.n(40000)))})
	}
	w.Compress = g.p(0.4)
	b, _, err = writeRec(w, &lazyRec{&m, rec.style, new(int), true})
	if err != nil {
		c.Fail("once-error", "writing binaries which can be read once failed: %v", err)
	}
	got, _ = c.mustRead(b)
	if k, err := diffRec(w, m, got, "root"); err != nil {
		c.Fail("once-"+k, "written from binaries which can be read once: %v (%v)", err, w)
	}
	c.Count("once", 1)
	c.Count("lazy_nodes", nodes+1)
	c.DistinctS("%d%v%s", rec.style, w, m.Canon())
	c.Sample(trunc(m.Canon(), 300))
}

// badBin states a size that is not that of its data, or fails to deliver it.
type badBin struct {
	lazyBin
	size uint64
	fail bool
}

func (b badBin) Size() uint64 { return b.size }
func (b badBin) Data() io.Reader {
	if b.fail {
		return io.MultiReader(b.lazyBin.Data(), iotest.ErrReader(errInjected))
	}
	return b.lazyBin.Data()
}

// c36binaries: a binary that does not deliver what it states fails the write.
func c36binaries(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	m := g.forCfg(w).Rec(1)
	n := pick(g, 0, 1, 5, 127, 128, 4095, 4096, 4097, 32768, 100000, g.n(300))
	b := badBin{lazyBin: lazyBin{m: &MBin{Name: strings.Repeat("n", g.n(5)), Data: g.bytes(n), Meta: g.Meta(1, 3)}}}
	by := uint64(pick(g, 1, 1, 2, 128, 256, 65536, 1+g.n(1000)))
	what := "short"
	switch c.Idx % 3 {
	case 0: // less data than stated
		b.size = uint64(n) + pick(g, by, by, by, 1<<32, 1<<62)
	case 1: // more
		what = "long"
		if n == 0 {
			b.m.Data = g.bytes(1)
			n = 1
		}
		b.size = uint64(n) - min(by, uint64(n))
	case 2: // an error, before or after everything stated is there
		what, b.fail = "failing", true
		b.size = uint64(n) + pick(g, 0, by)
	}
	bins := m.Build().Binaries()
	if k := g.n(len(bins) + 1); true {
		bins = insertAt(append([]format.Binary{}, bins...), k, format.Binary(b))
	}
	base := m.Build()
	var rec format.Recording = format.NewRecording(m.ID, m.Name, base.CaptureCollections(), base.Recordings(), base.Metadata(), bins, base.BinaryReferences())
	if g.p(0.4) { // further down
		rec = format.NewRecording("p", "q", nil, []format.Recording{m.Build(), rec, m.Build()}, metadata.EmptyBlock(), nil, nil)
	}
	c.Note("a binary of %d bytes stating %d (%s), config %v", n, b.size, what, w)
	out, _, err := writeRec(w, rec)
	if err == nil {
		got, _, rerr := readRec(out)
		x := ""
		if rerr == nil {
			s, _ := snap(got)
			x = trunc(s.Canon(), 300)
		}
		c.Fail("bad-binary", "a binary of %d bytes stating %d (%s) is written without error; reading gives %v %s", n, b.size, what, rerr, x)
	}
	c.Count(what+"_refused", 1)
	c.DistinctS("%v %d %d %s %s", w, n, b.size, what, m.Canon())
}

// foreignColl claims a kind of the library without being one.
type foreignColl struct {
	spyColl
	caps []format.Capture
}

func (x *foreignColl) Captures() []format.Capture     { return x.caps }
func (x *foreignColl) Length() int                    { return len(x.caps) }
func (x *foreignColl) CaptureAt(i int) format.Capture { return x.caps[i] }

type foreignEnum struct{ foreignColl }

func (x *foreignEnum) EnumMembers() []string { return []string{"a", "b"} }

// c36foreign: a collection that claims a kind but whose captures are of
// another is refused with an error, whatever the technique.
func c36foreign(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	kind := pick(g, allKinds...)
	n := 1 + g.n(5)
	var caps []format.Capture
	own := g.finiteTimes(MRec{Colls: []MColl{g.CollN(kind, n)}})
	caps = append(caps, own.Build().CaptureCollections()[0].Captures()...)
	// One or all captures of another kind.
	other := pick(g, allKinds...)
	for other == kind {
		other = pick(g, allKinds...)
	}
	alien := func() format.Capture {
		if g.p(0.4) {
			return spyCapture{float64(g.n(9))}
		}
		x := g.finiteTimes(MRec{Colls: []MColl{g.CollN(other, 1)}})
		return x.Build().CaptureCollections()[0].CaptureAt(0)
	}
	at := g.n(n)
	all := g.p(0.3)
	for i := range caps {
		if all || i == at {
			caps[i] = alien()
		}
	}
	f := foreignColl{spyColl: spyColl{name: g.Name(), kind: "recolude." + kind, times: make([]float64, n)}, caps: caps}
	var x format.CaptureCollection = &f
	if kind == kEnum && g.p(0.8) {
		x = &foreignEnum{f}
	}
	c.Note("%s collection with a capture of %s at %d of %d, all %v, config %v", kind, other, at, n, all, w)
	for _, e := range w.Encoders() {
		if !e.Accepts(x) {
			continue
		}
		if _, _, err := e.Encode([]format.CaptureCollection{x}); err == nil {
			c.Fail("foreign-encoded", "the encoder of %s encodes captures of %s", kind, other)
		}
		break
	}
	good := g.forCfg(w)
	good.MaxCaps = 5
	m := good.finiteTimes(good.Rec(1))
	colls := insertAt(m.Build().CaptureCollections(), g.n(len(m.Colls)+1), x)
	rec := format.NewRecording("f", "f", nil, []format.Recording{format.NewRecording("i", "i", colls, nil, buildMeta(nil), nil, nil)}, buildMeta(nil), nil, nil)
	if _, _, err := writeRec(w, rec); err == nil {
		c.Fail("foreign-written", "a %s collection that holds captures of %s is written without error", kind, other)
	}
	c.Count("foreign_refused", 1)
	c.DistinctS("%s%s%d%d%v%v", kind, other, at, n, all, w)
}

// --- C37 ---------------------------------------------------------------------

type chainItem struct {
	rec format.Recording
	m   MRec
}

// c37 applies a random sequence of operations to recordings and to models of
// them. Every recording made on the way stays what it was.
func c37(c *C, steps int) {
	g := newGen(c.R)
	g.Chrono, g.Plain = true, true
	g.MaxCaps = 10
	var pool []chainItem
	log := ""
	note := func(f string, a ...any) {
		log += fmt.Sprintf(f, a...) + "; "
		c.Note("%s", log)
	}
	fresh := func() chainItem {
		m := g.finiteTimes(g.Rec(2))
		return chainItem{m.Build(), m}
	}
	pool = append(pool, fresh(), fresh())
	small := func(m MRec) bool { return m.nodes() < 60 && m.numCaps() < 2000 }
	compare := func(it chainItem, what string) {
		s := c.mustSnap(it.rec, what)
		mustEq(c, "content", what, it.m, s)
		c.Count("compared", 1)
	}
	encs := map[string][]encoding.Encoder{}
	for step := 0; step < steps; step++ {
		i := g.n(len(pool))
		it := pool[i]
		var out chainItem
		c.Count("steps", 1)
		switch op := g.n(10); {
		case op < 4: // write and read
			w := g.CfgRaw()
			if op >= 2 {
				w = g.Cfg()
			}
			note("%d: write %d with %v", step, i, w)
			key := fmt.Sprint(w)
			if encs[key] == nil {
				encs[key] = w.Encoders()
			}
			var b bytes.Buffer
			n, err := rapio.NewWriter(encs[key], w.Compress, &b, w.Time).Write(it.rec)
			if err != nil {
				c.Fail("write-error", "%v", err)
			}
			r, n2, err := rapio.NewReader(encs[key], bytes.NewReader(b.Bytes())).Read()
			if err != nil || n != n2 {
				c.Fail("read-error", "wrote %d read %d: %v", n, n2, err)
			}
			got := c.mustSnap(r, "read back")
			if k, err := diffRec(w, it.m, got, "root"); err != nil {
				c.Fail("rt-"+k, "%v (%v)", err, w)
			}
			out = chainItem{r, got}
			c.Count("rewritten", 1)
		case op < 6:
			a, b := g.bound(it.m), g.bound(it.m)
			if g.p(0.5) {
				a, b = math.Min(a, b), math.Max(a, b)
			}
			keep := g.p(0.7)
			note("%d: slice %d [%v,%v) %v", step, i, a, b, keep)
			out = chainItem{format.Slice(it.rec, format.BeginningOfSlice(a), format.EndOfSlice(b), format.KeepBinariesInSlice(keep)), sliced(it.m, a, b, keep)}
			c.Count("sliced", 1)
		case op < 7: // a part of it
			if len(it.m.Recs) == 0 {
				out = fresh()
				break
			}
			k := g.n(len(it.m.Recs))
			note("%d: child %d of %d", step, k, i)
			out = chainItem{it.rec.Recordings()[k], it.m.Recs[k]}
			c.Count("parts", 1)
		case op < 9: // a new recording of parts of others
			a, b, d := pool[g.n(len(pool))], pool[g.n(len(pool))], pool[g.n(len(pool))]
			note("%d: combine", step)
			m := MRec{ID: g.Name(), Name: a.m.Name, Meta: b.m.Meta, Colls: append(append([]MColl{}, a.m.Colls...), b.m.Colls...), Bins: d.m.Bins, Refs: append(append([]MRef{}, b.m.Refs...), a.m.Refs...), Recs: []MRec{a.m, d.m}}
			if !small(m) {
				out = fresh()
				break
			}
			r := format.NewRecording(m.ID, a.rec.Name(),
				append(append([]format.CaptureCollection{}, a.rec.CaptureCollections()...), b.rec.CaptureCollections()...),
				[]format.Recording{a.rec, d.rec}, b.rec.Metadata(), d.rec.Binaries(),
				append(append([]format.BinaryReference{}, b.rec.BinaryReferences()...), a.rec.BinaryReferences()...))
			out = chainItem{r, m}
			c.Count("combined", 1)
		default: // half read binaries, measure, validate
			note("%d: look at %d", step, i)
			for _, x := range it.rec.Binaries() {
				io.CopyN(io.Discard, x.Data(), int64(g.n(4)))
			}
			format.Validate(it.rec)
			format.RecordingDuration(it.rec)
			exportMeta(it.rec.Metadata())
			appendAll(it.rec)
			c.Count("appended", 1)
			out = fresh()
		}
		compare(out, fmt.Sprintf("result of step %d", step))
		if len(pool) < 6 {
			pool = append(pool, out)
		} else {
			pool[g.n(len(pool))] = out
		}
		if step%4 == 3 {
			for k, it := range pool {
				compare(it, fmt.Sprintf("recording %d after step %d", k, step))
			}
		}
	}
	for k, it := range pool {
		compare(it, fmt.Sprintf("recording %d at the end", k))
	}
	c.DistinctS("%s%s", log, pool[0].m.Canon())
	c.Sample(trunc(log, 400))
}

// c37generations writes what was read again and again: exact techniques never
// change anything, and single precision is reached once.
// appendAll appends to every list the accessors return, as a caller does who
// makes a longer list of his own: nothing of the recording may change.
func appendAll(r format.Recording) {
	_ = append(r.CaptureCollections(), position.NewCollection("appended", nil))
	_ = append(r.Recordings(), MRec{Name: "appended"}.Build())
	_ = append(r.Binaries(), rapio.NewBinary("appended", nil, metadata.EmptyBlock()))
	_ = append(r.BinaryReferences(), rapio.NewBinaryReference("appended", "", 0, metadata.EmptyBlock()))
	for _, x := range r.CaptureCollections() {
		_ = append(x.Captures(), position.NewCapture(0, 0, 0, 0))
		if e, ok := x.(hasMembers); ok {
			_ = append(e.EnumMembers(), "appended")
		}
	}
	for _, x := range r.Recordings() {
		appendAll(x)
	}
}

func c37generations(c *C) {
	g := newGen(c.R)
	g.Plain = true
	m := g.Shape()
	if m.numCaps() > 600 {
		m = g.Rec(1)
	}
	w := g.CfgRaw()
	single := g.p(0.5)
	if single {
		w.Pos, w.Eul, w.Flt, w.Time = 1, 1, 1, 1
	}
	c.Note("config %v recording %s", w, trunc(m.Canon(), 4000))
	rec := format.Recording(m.Build())
	var first MRec
	for k := 0; k < 5; k++ {
		w.Compress = g.p(0.5)
		w.Order = g.r.Perm(5)
		b, _, err := writeRec(w, rec)
		if err != nil {
			c.Fail("write-error", "generation %d: %v", k, err)
		}
		rec, _, err = readRec(b)
		if err != nil {
			c.Fail("read-error", "generation %d: %v", k, err)
		}
		got := c.mustSnap(rec, "generation")
		if k == 0 {
			first = got
			if ky, err := diffRec(w, m, got, "root"); err != nil {
				c.Fail("rt-"+ky, "%v", err)
			}
		} else {
			mustEq(c, "generation", fmt.Sprintf("generation %d differs from the first (%v)", k, w), first, got)
		}
		c.Count("rewritten", 1)
		c.Count("steps", 1)
		c.Count("compared", 1)
	}
	c.DistinctS("%v%s", w, m.Canon())
}

// blocksOf gives every block of a recording, in a fixed order, with where it
// is.
func blocksOf(r format.Recording, where string, f func(string, metadata.Block)) {
	var deep func(string, metadata.Block)
	deep = func(at string, b metadata.Block) {
		f(at, b)
		var keys []string
		for k := range b.Mapping() {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if p, ok := b.Mapping()[k].(metadata.MetadataProperty); ok {
				deep(fmt.Sprintf("%s, block %q", at, k), p.Block())
			}
		}
	}
	deep(where, r.Metadata())
	for i, x := range r.BinaryReferences() {
		deep(fmt.Sprintf("%s, reference %d", where, i), x.Metadata())
	}
	for i, x := range r.Binaries() {
		deep(fmt.Sprintf("%s, binary %d", where, i), x.Metadata())
	}
	for i, x := range r.CaptureCollections() {
		for j, cp := range x.Captures() {
			if e, ok := cp.(interface{ Metadata() metadata.Block }); ok {
				deep(fmt.Sprintf("%s, collection %d, event %d", where, i, j), e.Metadata())
			}
		}
	}
	for i, x := range r.Recordings() {
		blocksOf(x, fmt.Sprintf("%s/%d", where, i), f)
	}
}

// c37entries adds an entry to every block of what was loaded, sliced or
// imported: each is a map of its own, like that of a new block.
func c37entries(c *C) {
	g := newGen(c.R)
	g.MaxCaps = 8
	b := c.smallFile(g, c.Idx%3)
	c.Note("file %.3000x", b)
	want, _ := c.mustLoad(b)
	r, _, err := rapio.NewReader(fullEncoders(), bytes.NewReader(b)).Read()
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	other, _, err := rapio.NewReader(fullEncoders(), bytes.NewReader(b)).Read()
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	const key = "entry added by the caller"
	n := 0
	blocksOf(r, "root", func(at string, b metadata.Block) {
		if err, _ := tryPanic(func() { b.Mapping()[key] = metadata.NewIntProperty(n) }); err != nil {
			c.Fail("entry", "adding an entry to the metadata of %s: %v", at, err)
		}
		n++
	})
	i := 0
	blocksOf(r, "root", func(at string, b metadata.Block) {
		if v, ok := b.Mapping()[key]; !ok || v.String() != strconv.Itoa(i) {
			c.Fail("entry", "the entry added to %s of %d blocks is %v, not %d", at, n, v, i)
		}
		i++
	})
	if i != n {
		c.Fail("entry", "%d blocks instead of %d", i, n)
	}
	mustEq(c, "entry-shared", "another recording loaded from the file changed", want, c.mustSnap(other, "other"))
	with := c.mustSnap(r, "with entries")
	w := WCfg{Compress: g.p(0.4)}
	w.Order = g.r.Perm(5)
	if c.Idx%3 != 0 && g.p(0.5) {
		// What a slice gives is no different.
		x, y := g.bound(want), g.bound(want)
		s := format.Slice(other, format.BeginningOfSlice(math.Min(x, y)), format.EndOfSlice(math.Max(x, y)), format.KeepBinariesInSlice(g.p(0.7)))
		blocksOf(s, "slice", func(at string, b metadata.Block) {
			if err, _ := tryPanic(func() { b.Mapping()[key] = metadata.NewIntProperty(n) }); err != nil {
				c.Fail("entry", "adding an entry to the metadata of %s: %v", at, err)
			}
			if v := b.Mapping()[key]; v == nil || v.String() != strconv.Itoa(n) {
				c.Fail("entry", "the entry added to %s is %v", at, v)
			}
		})
		c.Count("entries_in_slices", 1)
	}
	out, _, err := writeRec(w, r)
	if err != nil {
		c.Fail("write-error", "after adding entries: %v", err)
	}
	got, _ := c.mustRead(out)
	if k, err := diffRec(w, with, got, "root"); err != nil {
		c.Fail("rt-"+k, "after adding entries: %v", err)
	}
	blocksOf(r, "root", func(_ string, b metadata.Block) { delete(b.Mapping(), key) })
	mustEq(c, "entry-other", "the recording after adding entries and removing them", want, c.mustSnap(r, "afterwards"))
	c.Count("entries", n)
	c.Distinct(b)
}
