package main

// C39: what an operation costs grows in proportion to what it processes.
//
// Each case takes one operation and one way a recording (document, value) can
// be large, and observes the bytes allocated and the processor time of the
// running thread at size n and at size 16n. The nesting stays the same.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
	"go.mongodb.org/mongo-driver/bson"
)

func init() {
	register(&Prop{
		ID:    "C39",
		Level: "exploration",
		Rule:  "growing one dimension of the input sixteen fold (programs: eight fold) grows allocated bytes by no more than three times as much and CPU time by no more than five times as much (above a constant)",
		Assumptions: []string{
			"a bound of three (memory) and five (time) times the proportional cost (plus a constant of 64 kB and 0.4 ms; 20 ms for programs) tells proportional from quadratic cost; the sizes are large enough for a quadratic part to dominate",
		},
		Fams: []Family{
			{"library", len(costCases), 4 * len(costCases), c39lib},
			{"several", 400, 8000, c39several},
			{"dictionaries", 2 * len(dictionaries) * len(manyColls), 2 * len(dictionaries) * len(manyColls), c39dictionaries},
			{"programs", len(costProgs), 4 * len(costProgs), c39cli},
		},
		Need: map[string]int64{"measurements": 200, "cli_measurements": 12, "several_measurements": 300, "dictionary_measurements": 16},
	})
}

const (
	costFactor = 16
	cliFactor  = 8
	costAlloc  = 64 << 10
	costCPU    = 400 * time.Microsecond
)

// A dimension builds a recording which is large in one way.
type dim struct {
	name  string
	n     int // small size
	build func(n int) MRec
}

func seqTimes(n int) []float64 {
	t := make([]float64, n)
	for i := range t {
		t[i] = float64(i) * 0.03125
	}
	return t
}

func costColl(kind string, n int) MColl {
	c := MColl{Kind: kind, Name: "c"}
	if kind == kEnum {
		c.Members = []string{"A", "B", "C"}
	}
	for i := 0; i < n; i++ {
		x := MCap{T: float64(i) * 0.03125}
		switch kind {
		case kEnum:
			x.E = i % 3
		case kEvent:
			x.N = fmt.Sprint("name", i%5)
			x.M = Meta{"k": vInt(int32(i))}
		case kFloat:
			x.V[0] = float64(i%977) / 7
		default:
			x.V = [3]float64{float64(i%977) / 7, float64(i%311) / 3, float64(i)}
		}
		c.Caps = append(c.Caps, x)
	}
	return c
}

func rec1(m MRec) MRec {
	m.ID, m.Name = "id", "name"
	if m.Meta == nil {
		m.Meta = Meta{}
	}
	return m
}

func costMeta(n int, v func(i int) MVal) Meta {
	m := Meta{}
	for i := 0; i < n; i++ {
		m[fmt.Sprint("key", i)] = v(i)
	}
	return m
}

// costVal is a value of any sort, never a large one.
func costVal(i int) MVal {
	switch i % 9 {
	case 0:
		return vStr(fmt.Sprint("value", i))
	case 1:
		return vInt(int32(i))
	case 2:
		return vF32(float32(i) / 4)
	case 3:
		return vBool(i%2 == 0)
	case 4:
		return vByte(byte(i))
	case 5:
		return vV2(float64(i), 0.5)
	case 6:
		return vV3(float64(i), 0.5, -1)
	case 7:
		return vTime(int64(i) * 1000003)
	}
	return vBlock(Meta{"a": vInt(int32(i))})
}

var arrayElems = map[string]func(i int) MVal{
	"str":   func(i int) MVal { return vStr(fmt.Sprint("value", i)) },
	"int":   func(i int) MVal { return vInt(int32(i * 7919)) },
	"f32":   func(i int) MVal { return vF32(float32(i) / 4) },
	"v2":    func(i int) MVal { return vV2(float64(i), 0.5) },
	"v3":    func(i int) MVal { return vV3(float64(i), 0.5, -2) },
	"time":  func(i int) MVal { return vTime(int64(i) * 1000003) },
	"block": func(i int) MVal { return vBlock(Meta{"a": vInt(int32(i)), "b": vStr("x")}) },
}

func costArr(kind string, n int) MVal {
	switch kind {
	case "bytes":
		return vBytes(bytes.Repeat([]byte{1, 200}, n/2))
	case "bools":
		b := make([]bool, n)
		for i := range b {
			b[i] = i%3 == 0
		}
		return vBools(b)
	case "text":
		return vStr(strings.Repeat("some text\n\"", n/11))
	}
	f := arrayElems[kind]
	a := make([]MVal, n)
	for i := range a {
		a[i] = f(i)
	}
	return vArr(a[0].Code, a)
}

var costDims = func() []dim {
	d := []dim{
		{"collections", 300, func(n int) MRec {
			m := rec1(MRec{})
			for i := 0; i < n; i++ {
				k := costColl(allKinds[i%5], 2)
				k.Name = fmt.Sprint("coll", i)
				m.Colls = append(m.Colls, k)
			}
			return m
		}},
		{"children", 200, func(n int) MRec {
			m := rec1(MRec{})
			for i := 0; i < n; i++ {
				r := rec1(MRec{Colls: []MColl{costColl(allKinds[i%5], 2)}, Meta: Meta{"k": vInt(int32(i))}})
				r.ID, r.Name = fmt.Sprint("id", i), fmt.Sprint("child", i)
				m.Recs = append(m.Recs, r)
			}
			return m
		}},
		{"grandchildren", 200, func(n int) MRec {
			m := rec1(MRec{})
			for i := 0; i < 10; i++ {
				r := rec1(MRec{})
				for k := 0; k < n/10; k++ {
					r.Recs = append(r.Recs, rec1(MRec{Colls: []MColl{costColl(kPos, 2)}}))
				}
				m.Recs = append(m.Recs, r)
			}
			return m
		}},
		{"metadata", 1500, func(n int) MRec { return rec1(MRec{Meta: costMeta(n, costVal)}) }},
		{"child-metadata", 300, func(n int) MRec {
			m := rec1(MRec{})
			for i := 0; i < 20; i++ {
				x := costMeta(n/20, costVal)
				for k := 0; k < n/20; k++ {
					x[fmt.Sprintf("own %d %d", i, k)] = vInt(int32(k))
				}
				m.Recs = append(m.Recs, rec1(MRec{Meta: x}))
			}
			return m
		}},
		{"nested-metadata", 1500, func(n int) MRec {
			m := Meta{}
			for i := 0; i < n/30; i++ {
				m[fmt.Sprint("block", i)] = vBlock(costMeta(30, costVal))
			}
			return rec1(MRec{Meta: m})
		}},
		{"binaries", 500, func(n int) MRec {
			m := rec1(MRec{})
			for i := 0; i < n; i++ {
				m.Bins = append(m.Bins, MBin{Name: fmt.Sprint("bin", i), Data: []byte{1, 2, byte(i)}, Meta: Meta{}})
			}
			return m
		}},
		{"binary-size", 200000, func(n int) MRec {
			return rec1(MRec{Bins: []MBin{{Name: "b", Data: bytes.Repeat([]byte("0123456789\x00\xff"), n/12), Meta: Meta{}}}})
		}},
		{"references", 1500, func(n int) MRec {
			m := rec1(MRec{})
			for i := 0; i < n; i++ {
				m.Refs = append(m.Refs, MRef{Name: fmt.Sprint("ref", i), URI: "https://example.com", Size: uint64(i), Meta: Meta{"k": vInt(1)}})
			}
			return m
		}},
		{"event-names", 1500, func(n int) MRec {
			k := costColl(kEvent, n)
			for i := range k.Caps {
				k.Caps[i].N = fmt.Sprint("event name ", i)
			}
			return rec1(MRec{Colls: []MColl{k}})
		}},
		{"event-keys", 1500, func(n int) MRec {
			k := costColl(kEvent, n)
			for i := range k.Caps {
				k.Caps[i].M = Meta{fmt.Sprint("key ", i): vInt(1)}
			}
			return rec1(MRec{Colls: []MColl{k}})
		}},
		{"event-payload", 1500, func(n int) MRec {
			k := costColl(kEvent, 5)
			for i := range k.Caps {
				k.Caps[i].M = costMeta(n/5, costVal)
			}
			return rec1(MRec{Colls: []MColl{k}})
		}},
		{"enum-members", 2000, func(n int) MRec {
			k := costColl(kEnum, n)
			k.Members = nil
			for i := 0; i < n; i++ {
				k.Members = append(k.Members, fmt.Sprint("member", i))
				k.Caps[i].E = i
			}
			return rec1(MRec{Colls: []MColl{k}})
		}},
		{"names", 100000, func(n int) MRec {
			m := rec1(MRec{Colls: []MColl{costColl(kPos, 3)}})
			m.ID, m.Name = strings.Repeat("i", n), strings.Repeat("n", n)
			m.Colls[0].Name = strings.Repeat("c", n)
			return m
		}},
	}
	for _, k := range allKinds {
		d = append(d, dim{"captures-" + k, 5000, func(n int) MRec { return rec1(MRec{Colls: []MColl{costColl(k, n)}}) }})
	}
	for _, k := range append([]string{"bytes", "bools", "text"}, sortedKeys(arrayElems)...) {
		size := 2500
		if k == "bytes" || k == "text" {
			size = 60000
		}
		d = append(d, dim{"array-" + k, size, func(n int) MRec { return rec1(MRec{Meta: Meta{"a": costArr(k, n)}}) }})
	}
	return d
}()

// An operation prepares its input outside of what is measured.
type costOp struct {
	name string
	prep func(c *C, w WCfg, m MRec) func() error
}

var costOps = []costOp{
	{"write", func(c *C, w WCfg, m MRec) func() error {
		rec := m.Build()
		return func() error { _, _, err := writeRec(w, rec); return err }
	}},
	{"read", func(c *C, w WCfg, m MRec) func() error {
		b, _ := c.mustWrite(w, m)
		return func() error { _, _, err := readRec(b); return err }
	}},
	{"load", func(c *C, w WCfg, m MRec) func() error {
		b, _ := c.mustWrite(WCfg{Compress: true}, noFloats(m))
		return func() error { _, _, err := rapio.Load(bytes.NewReader(b)); return err }
	}},
	{"slice", func(c *C, w WCfg, m MRec) func() error {
		rec := m.Build()
		return func() error {
			out := format.Slice(rec, format.BeginningOfSlice(0.05), format.EndOfSlice(1e9), format.KeepBinariesInSlice(true))
			format.RecordingStart(out)
			format.RecordingEnd(out)
			format.RecordingDuration(out)
			return nil
		}
	}},
	{"validate", func(c *C, w WCfg, m MRec) func() error {
		rec := m.Build()
		return func() error { return format.Validate(rec, format.RequireChronologicalCapture(true)) }
	}},
	{"from-json", func(c *C, w WCfg, m MRec) func() error {
		t := importText(m)
		return func() error { _, err := parsing.FromJSON(t); return err }
	}},
	{"property", func(c *C, w WCfg, m MRec) func() error {
		p := vBlock(m.Meta).Prop()
		return func() error {
			var b bytes.Buffer
			if _, err := metadata.WriteProprty(&b, p); err != nil {
				return err
			}
			_, err := metadata.ReadProperty(&b)
			return err
		}
	}},
	{"property-text", func(c *C, w WCfg, m MRec) func() error {
		p := vBlock(m.Meta).Prop()
		return func() error { _ = p.String(); return nil }
	}},
	{"property-json", func(c *C, w WCfg, m MRec) func() error {
		p := metadata.NewMetadataProperty(buildMeta(m.Meta))
		return func() error {
			b, err := json.Marshal(p)
			if err != nil {
				return err
			}
			return json.Unmarshal(b, &metadata.MetadataProperty{})
		}
	}},
	{"property-bson", func(c *C, w WCfg, m MRec) func() error {
		p := metadata.NewMetadataProperty(buildMeta(m.Meta))
		return func() error { _, err := bson.Marshal(p); return err }
	}},
	{"version-1", func(c *C, w WCfg, m MRec) func() error {
		b := v1Of(m).file(nil)
		return func() error { _, _, err := rapio.Load(bytes.NewReader(b)); return err }
	}},
}

// noFloats leaves out what only a caller who registers the encoder can load.
func noFloats(m MRec) MRec {
	m.walk(func(r *MRec) {
		for i := range r.Colls {
			if r.Colls[i].Kind == kFloat {
				r.Colls[i] = costColl(kPos, len(r.Colls[i].Caps))
			}
		}
	})
	return m
}

// v1Of is a version 1 recording of the same dimensions.
func v1Of(m MRec) v1Rec {
	vec := func(cs []MCap) (o []v1Vec) {
		for _, x := range cs {
			o = append(o, v1Vec{float32(x.T), float32(x.V[0]), float32(x.V[1]), float32(x.V[2])})
		}
		return
	}
	strs := func(m Meta) map[string]string {
		o := map[string]string{}
		for k, v := range m {
			o[k] = trunc(v.String(), 50)
		}
		return o
	}
	evs := func(cs []MCap) (o []v1Event) {
		for _, x := range cs {
			o = append(o, v1Event{float32(x.T), x.N, "contents", strs(x.M)})
		}
		return
	}
	subject := func(i int, r MRec) v1Subject {
		s := v1Subject{ID: int32(i), Name: r.Name, Meta: strs(r.Meta)}
		for _, k := range r.Colls {
			switch k.Kind {
			case kPos:
				s.Pos = append(s.Pos, vec(k.Caps)...)
			case kEuler:
				s.Rot = append(s.Rot, vec(k.Caps)...)
			case kEvent:
				s.Events = append(s.Events, evs(k.Caps)...)
			default:
				for _, x := range k.Caps {
					s.Life = append(s.Life, v1Life{float32(x.T), int32(len(s.Life) % 4)})
				}
			}
		}
		return s
	}
	o := v1Rec{Name: m.Name, Meta: strs(m.Meta)}
	for _, k := range m.Colls {
		if k.Kind == kEvent {
			o.Events = append(o.Events, evs(k.Caps)...)
		}
	}
	i := 0
	m.walk(func(r *MRec) {
		x := *r
		if i == 0 {
			x.Meta = nil
		}
		o.Subjects = append(o.Subjects, subject(i, x))
		i++
	})
	return o
}

// importText states a recording as a document for import.
func importText(m MRec) []byte {
	b, err := json.Marshal(importOf(m))
	if err != nil {
		panic(err)
	}
	return b
}

func importOf(m MRec) any {
	type o = map[string]any
	meta := func(m Meta) any {
		b, err := json.Marshal(metadata.NewMetadataProperty(buildMeta(m)))
		if err != nil {
			panic(err)
		}
		return json.RawMessage(b)
	}
	d := o{"id": m.ID, "name": m.Name, "metadata": meta(m.Meta)}
	colls := []any{}
	for _, k := range m.Colls {
		caps := []any{}
		for _, x := range k.Caps {
			var data any
			switch k.Kind {
			case kEvent:
				data = o{"name": x.N, "metadata": meta(x.M)}
			case kEnum:
				data = k.Members[x.E]
			default:
				data = o{"x": x.V[0], "y": x.V[1], "z": x.V[2]}
			}
			caps = append(caps, o{"time": x.T, "data": data})
		}
		if k.Kind != kFloat {
			colls = append(colls, o{"name": k.Name, "type": "recolude." + k.Kind, "captures": caps})
		}
	}
	d["collections"] = colls
	refs := []any{}
	for _, r := range m.Refs {
		refs = append(refs, o{"name": r.Name, "uri": r.URI, "size": r.Size, "metadata": meta(r.Meta)})
	}
	d["references"] = refs
	recs := []any{}
	for _, r := range m.Recs {
		recs = append(recs, importOf(r))
	}
	d["recordings"] = recs
	return d
}

type costCase struct {
	op  costOp
	dim dim
}

// costCases lists which dimensions say something about which operation.
var costCases = func() (out []costCase) {
	for _, op := range costOps {
		for _, d := range costDims {
			metaOnly := strings.HasPrefix(d.name, "array-") || d.name == "metadata" || d.name == "nested-metadata"
			switch {
			case strings.HasPrefix(op.name, "property") && !metaOnly:
				continue
			case (op.name == "validate" || op.name == "slice") && metaOnly:
				continue
			case op.name == "load" && d.name == "captures-float":
				continue
			case (op.name == "from-json" || op.name == "version-1") && (strings.HasPrefix(d.name, "bin") || d.name == "captures-float"):
				continue
			case op.name == "version-1" && (d.name == "references" || d.name == "grandchildren" || strings.HasPrefix(d.name, "array-")):
				continue
			}
			out = append(out, costCase{op, d})
		}
	}
	return
}()

func threadCPU() time.Duration {
	var ts syscall.Timespec
	const clockThreadCPU = 3
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, clockThreadCPU, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		panic(e)
	}
	return time.Duration(ts.Nano())
}

// costs observes the cheapest of some runs.
func costs(f func() error, runs int) (alloc uint64, cpu time.Duration, err error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	for i := 0; i < runs; i++ {
		runtime.GC()
		a := uint64(0)
		var d time.Duration
		a = allocOf(func() {
			t := threadCPU()
			err = f()
			d = threadCPU() - t
		})
		if err != nil {
			return
		}
		if i == 0 || a < alloc {
			alloc = a
		}
		if i == 0 || d < cpu {
			cpu = d
		}
	}
	return
}

func c39lib(c *C) {
	k := costCases[c.Idx%len(costCases)]
	g := newGen(c.R)
	c.costOf(g, k, k.dim.n+g.n(k.dim.n/8+1), "")
}

// c39several lets several dimensions grow together, in one recording or one
// below the other: what they cost adds up.
func c39several(c *C) {
	g := newGen(c.R)
	var ops []costOp
	for _, op := range costOps {
		if !strings.HasPrefix(op.name, "property") {
			ops = append(ops, op)
		}
	}
	// Reading is what meets the input of others.
	op := ops[c.Idx%len(ops)]
	if g.p(0.3) {
		op = ops[1]
	}
	dims, ways, name := severalDims(g, pick(g, 2, 2, 3, 5), op.name == "read" || op.name == "load")
	c.Count("several_measurements", 1)
	c.costOf(g, costCase{op, together(name, dims, ways)}, 1000, "")
}

// severalDims picks dimensions and how each is joined to those before it.
func severalDims(g *Gen, k int, reading bool) (dims []dim, ways []int, name string) {
	dict, many := false, false
	for len(dims) < k {
		d := pick(g, costDims...)
		if strings.HasPrefix(d.name, "array-") && len(dims) == 0 {
			continue
		}
		// See c39dictionaries.
		isDict, isMany := slices.Contains(dictionaries, d.name), slices.Contains(manyColls, d.name)
		if reading && (isDict && many || isMany && dict) {
			continue
		}
		dict, many = dict || isDict, many || isMany
		dims = append(dims, d)
		ways = append(ways, g.n(3))
		name += fmt.Sprintf("%s (%d) ", d.name, ways[len(ways)-1])
	}
	return
}

// Decoding a collection takes the whole dictionary of its kind into account,
// so many collections and a large dictionary multiply.
var (
	dictionaries = []string{"event-names", "event-keys", "event-payload", "enum-members"}
	manyColls    = []string{"collections", "children"}
)

func c39dictionaries(c *C) {
	g := newGen(c.R)
	i := c.Idx
	op := costOps[1+i%2]
	i /= 2
	a, b := dictionaries[i%len(dictionaries)], manyColls[i/len(dictionaries)]
	c.Count("dictionary_measurements", 1)
	name := a + " and " + b
	c.costOf(g, costCase{op, together(name, []dim{dimOf(a), dimOf(b)}, []int{0, 0})}, 700, "cost:dictionary:"+a)
}

func dimOf(name string) (d dim) {
	for _, x := range costDims {
		if x.name == name {
			d = x
		}
	}
	return
}

// together is a dimension made of several.
func together(name string, dims []dim, ways []int) dim {
	k := len(dims)
	return dim{name, 1000, func(n int) MRec {
		var m MRec
		for i, d := range dims {
			// Each at a part of the size it has alone.
			x := d.build(d.n * n / 1000 / k)
			if i == 0 {
				m = x
				continue
			}
			switch ways[i] {
			case 0: // beside
				for a, v := range x.Meta {
					m.Meta["also "+a] = v
				}
				m.Colls, m.Recs = append(m.Colls, x.Colls...), append(m.Recs, x.Recs...)
				m.Bins, m.Refs = append(m.Bins, x.Bins...), append(m.Refs, x.Refs...)
			case 1: // below
				m.Recs = append(m.Recs, x)
			case 2: // above
				x.Recs = append(x.Recs, m)
				m = x
			}
		}
		return m
	}}
}

func (c *C) costOf(g *Gen, k costCase, n int, key string) {
	c.Note("%s, %s: %d and %d", k.op.name, k.dim.name, n, costFactor*n)
	w := g.Cfg()
	w.Order = nil
	small := k.op.prep(c, w, k.dim.build(n))
	large := k.op.prep(c, w, k.dim.build(costFactor*n))
	var a, b uint64
	var s, t time.Duration
	var err error
	fits := func() bool {
		return b <= 3*costFactor*max(a, costAlloc) && t <= 5*costFactor*max(s, costCPU)
	}
	for runs := range 3 {
		if a, s, err = costs(small, 1+2*runs); err != nil {
			c.Fail("refused", "%s of %s: %v", k.op.name, k.dim.name, err)
		}
		if b, t, err = costs(large, 1+2*runs); err != nil {
			c.Fail("refused", "%s of %s: %v", k.op.name, k.dim.name, err)
		}
		if fits() {
			break
		}
	}
	c.Count("measurements", 1)
	c.Max("alloc_ratio_pct:"+k.op.name, int(100*b/max(a, costAlloc)/costFactor))
	c.Max("cpu_ratio_pct:"+k.op.name, int(100*t/max(s, costCPU)/costFactor))
	c.DistinctS("%s %s", k.op.name, k.dim.name)
	if !fits() {
		if key == "" {
			key = "cost:" + k.op.name + ":" + k.dim.name
		}
		c.Fail(key, "%s of a recording with %s grown from %d to %d allocates %d instead of %d bytes and takes %v instead of %v", k.op.name, k.dim.name, n, costFactor*n, b, a, t, s)
	}
}

type costProg struct {
	cmd, dim string
}

var costProgs = func() (out []costProg) {
	for _, d := range costDims {
		if strings.HasPrefix(d.name, "captures-") || d.name == "children" || d.name == "collections" || d.name == "metadata" || d.name == "event-names" || d.name == "event-keys" || d.name == "binaries" || d.name == "enum-members" {
			for _, cmd := range []string{"summarize", "to-json", "upgrade", "from-json"} {
				if cmd == "from-json" && (d.name == "binaries" || d.name == "captures-float") {
					continue
				}
				out = append(out, costProg{cmd, d.name})
			}
		}
	}
	return append(out, costProg{"from-csv", "rows"}, costProg{"from-csv", "subjects"}, costProg{"from-csv", "interleaved"})
}()

func c39cli(c *C) {
	k := costProgs[c.Idx%len(costProgs)]
	g := newGen(c.R)
	n := 7000 + g.n(500)
	var in func(n int) []byte
	if k.cmd == "from-csv" {
		in = func(n int) []byte {
			var b bytes.Buffer
			b.WriteString("id,name,time,x,y,z\n")
			for i := 0; i < n; i++ {
				id := 1
				switch k.dim {
				case "subjects":
					id = i
				case "interleaved":
					id = i % (n / 10)
				}
				fmt.Fprintf(&b, "%d,n%d,%d,%d,2.5,-3\n", id, id, i, i)
			}
			return b.Bytes()
		}
	} else {
		d := dimOf(k.dim)
		n = 2 * d.n
		in = func(n int) []byte {
			m := d.build(n)
			if k.cmd == "from-json" {
				return importText(m)
			}
			b, _ := c.mustWrite(WCfg{Compress: true}, noFloats(m))
			return b
		}
	}
	c.Note("%s, %s: %d and %d", k.cmd, k.dim, n, cliFactor*n)
	run := func(in []byte, times int) (cpu time.Duration) {
		for i := 0; i < times; i++ {
			dir, done := c.caseDir()
			r := c.cli(dir, nil, nil, k.cmd, map[bool]string{true: "--in", false: "--file"}[k.cmd == "from-json"], c.own(filepath.Join(dir, "in"), in, 0o444))
			done()
			if r.code != 0 {
				c.Fail("refused", "%s of %s: %s", k.cmd, k.dim, trunc(string(r.err), 300))
			}
			if i == 0 || r.cpu < cpu {
				cpu = r.cpu
			}
		}
		return
	}
	x, y := in(n), in(cliFactor*n)
	var s, t time.Duration
	fits := func() bool { return t <= 3*cliFactor*max(s, 20*time.Millisecond) }
	for runs := range 3 {
		s, t = run(x, 1+runs), run(y, 1+runs)
		if fits() {
			break
		}
	}
	c.Count("cli_measurements", 1)
	c.DistinctS("%s %s", k.cmd, k.dim)
	c.Max("cpu_ratio_pct:"+k.cmd, int(100*t/max(s, 20*time.Millisecond)/cliFactor))
	if !fits() {
		c.Fail("cost:"+k.cmd+":"+k.dim, "%s of input with %s grown from %d to %d takes %v instead of %v", k.cmd, k.dim, n, cliFactor*n, t, s)
	}
}
