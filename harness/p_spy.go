package main

// C12: event log of instrumented encoders. C29: refusals before any byte.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sync"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

func init() {
	register(&Prop{
		ID: "C12", Level: "exploration",
		Rule: "distinct by tree of collections, encoder set and registration order",
		Need: map[string]int64{"stock_encoders_unneeded": 1000, "encode_events": 5000, "decode_events": 5000, "refused_missing": 200, "refused_newer": 200, "accepted_older": 200},
		Fams: []Family{
			{Name: "spy", Quick: 2500, Thorough: 60000, Run: c12spy},
			{Name: "many", Quick: 12, Thorough: 36, Run: c12many},
			{Name: "stock", Quick: 800, Thorough: 20000, Run: c12stock},
			{Name: "versions", Quick: 1200, Thorough: 30000, Run: c12versions},
			{Name: "unneeded", Quick: 700, Thorough: 15000, Run: c12unneeded},
		},
	})
	register(&Prop{
		ID: "C29", Level: "exploration",
		Rule: "distinct by tree and place of the defect",
		Need: map[string]int64{"nil_recording": 100, "nil_collection": 100, "nil_binary": 100, "nil_reference": 100, "unaccepted": 200, "accepted": 500, "too_deep": 4, "several_defects": 300, "defects_with_few_encoders": 500},
		Fams: []Family{
			{Name: "defect", Quick: 4000, Thorough: 80000, Run: c29},
			{Name: "subset", Quick: 800, Thorough: 15000, Run: c29subset},
			{Name: "depth", Quick: 12, Thorough: 60, Run: c29depth},
		},
	})
}

type spyCapture struct{ t float64 }

func (s spyCapture) Time() float64  { return s.t }
func (s spyCapture) String() string { return fmt.Sprint("spy ", s.t) }

// spyColl is a collection kind of our own.
type spyColl struct {
	id    int
	name  string
	kind  string
	times []float64
}

func (s *spyColl) Name() string { return s.name }
func (s *spyColl) Captures() []format.Capture {
	out := make([]format.Capture, len(s.times))
	for i, t := range s.times {
		out[i] = spyCapture{t}
	}
	return out
}
func (s *spyColl) Signature() string { return s.kind }
func (s *spyColl) Slice(a, b float64) format.CaptureCollection {
	o := &spyColl{id: s.id, name: s.name, kind: s.kind}
	for _, t := range s.times {
		if a <= t && t < b {
			o.times = append(o.times, t)
		}
	}
	return o
}
func (s *spyColl) Start() float64                 { return s.times[0] }
func (s *spyColl) End() float64                   { return s.times[len(s.times)-1] }
func (s *spyColl) Length() int                    { return len(s.times) }
func (s *spyColl) CaptureAt(i int) format.Capture { return spyCapture{s.times[i]} }

type encEvent struct {
	enc     string
	coll    format.CaptureCollection
	header  []byte
	payload []byte
}

type decEvent struct {
	enc     string
	name    string
	header  []byte
	payload []byte
	times   []float64
}

type spyLog struct {
	mu  sync.Mutex
	enc []encEvent
	dec []decEvent
	seq int
}

// spyEncoder accepts a set of kinds and records every call.
type spyEncoder struct {
	sig     string
	version uint
	accepts map[string]bool
	log     *spyLog
	rnd     func(n int) []byte
	colls   map[string]*spyColl // by payload, to answer decode
	strict  bool                // must never be used
}

func (e *spyEncoder) Signature() string { return e.sig }
func (e *spyEncoder) Version() uint     { return e.version }
func (e *spyEncoder) Accepts(c format.CaptureCollection) bool {
	return e.accepts[c.Signature()]
}
func (e *spyEncoder) Encode(cs []format.CaptureCollection) ([]byte, [][]byte, error) {
	if e.strict {
		return nil, nil, fmt.Errorf("encoder %q is not needed", e.sig)
	}
	e.log.mu.Lock()
	defer e.log.mu.Unlock()
	e.log.seq++
	header := append(e.rnd(20), byte(e.log.seq))
	if e.log.seq%5 == 0 {
		header = nil // encoders may do without
	}
	out := make([][]byte, len(cs))
	for i, c := range cs {
		e.log.seq++
		p := binary.AppendUvarint(nil, uint64(e.log.seq))
		p = append(p, e.rnd(40)...)
		if e.log.seq == 7 {
			p = []byte{} // one empty payload per case
		}
		out[i] = p
		e.log.enc = append(e.log.enc, encEvent{e.sig, c, header, p})
	}
	return header, out, nil
}
func (e *spyEncoder) Decode(name string, header []byte, data []byte, times []float64) (format.CaptureCollection, error) {
	if e.strict {
		return nil, fmt.Errorf("encoder %q is not needed", e.sig)
	}
	e.log.mu.Lock()
	defer e.log.mu.Unlock()
	e.log.dec = append(e.log.dec, decEvent{e.sig, name, append([]byte{}, header...), append([]byte{}, data...), append([]float64{}, times...)})
	return &spyColl{id: len(e.log.dec) - 1, name: name, kind: "decoded by " + e.sig, times: append([]float64{}, times...)}, nil
}

type spyTree struct {
	rec   format.Recording
	colls []*spyColl // in tree order
	nodes int
}

// spyRec builds a tree whose collections are of our own kinds.
func (g *Gen) spyRec(kinds []string, depth int) spyTree {
	t := spyTree{}
	var build func(d int) format.Recording
	build = func(d int) format.Recording {
		t.nodes++
		var cs []format.CaptureCollection
		n := g.n(5)
		if g.p(0.1) {
			n = 6 + g.n(10)
		}
		for i := 0; i < n; i++ {
			c := &spyColl{id: len(t.colls), name: g.Name(), kind: pick(g, kinds...)}
			c.times = g.Times(g.n(6))
			t.colls = append(t.colls, c)
			cs = append(cs, c)
		}
		var rs []format.Recording
		if d > 0 {
			for i := g.n(4); i > 0; i-- {
				rs = append(rs, build(d-1-g.n(2)))
			}
		}
		return format.NewRecording(fmt.Sprint(t.nodes), g.Name(), cs, rs, buildMeta(oneKey(g.Meta(1, 2))), nil, nil)
	}
	t.rec = build(depth)
	return t
}

func treeColls(r format.Recording) (out []format.CaptureCollection) {
	out = append(out, r.CaptureCollections()...)
	for _, s := range r.Recordings() {
		out = append(out, treeColls(s)...)
	}
	return
}

func shapeOf(r format.Recording) string {
	s := fmt.Sprintf("(%q %d", r.ID(), len(r.CaptureCollections()))
	for _, x := range r.Recordings() {
		s += shapeOf(x)
	}
	return s + ")"
}

func (g *Gen) spyEncoders(log *spyLog, kinds []string) []*spyEncoder {
	var out []*spyEncoder
	n := 1 + g.n(5)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		sig := pick(g, "sig.", "recolude.", "", "é") + fmt.Sprint(i)
		if i == 0 && g.p(0.1) {
			sig = "" // an unusual but distinct signature
		}
		if used[sig] {
			continue
		}
		used[sig] = true
		e := &spyEncoder{sig: sig, version: uint(g.n(4)), accepts: map[string]bool{}, log: log, rnd: func(n int) []byte { return g.bytes(g.n(n)) }}
		if g.p(0.05) {
			e.version = pick(g, uint(127), 128, 1<<31, uwide(1<<40), uwide(1<<63), math.MaxUint)
		}
		for _, k := range kinds {
			if g.p(0.5) {
				e.accepts[k] = true
			}
		}
		out = append(out, e)
	}
	// Everything is accepted by someone.
	for _, k := range kinds {
		ok := false
		for _, e := range out {
			ok = ok || e.accepts[k]
		}
		if !ok {
			out[g.n(len(out))].accepts[k] = true
		}
	}
	return out
}

// listEncoder can not be compared, oddEncoder does not even equal itself.
type (
	listEncoder struct {
		*spyEncoder
		options []int
	}
	oddEncoder struct {
		*spyEncoder
		option float64
	}
	plainEncoder struct{ *spyEncoder }
)

// asEncoders offers the encoders as values of various types.
func (g *Gen) asEncoders(es []*spyEncoder) []encoding.Encoder {
	out := make([]encoding.Encoder, len(es))
	for i := range es {
		out[i] = pick[encoding.Encoder](g, es[i], listEncoder{es[i], []int{i}}, oddEncoder{es[i], math.NaN()}, plainEncoder{es[i]})
	}
	return out
}

// spyKinds picks identifiers for kinds of our own, some of which resemble each
// other or those of the built-in kinds.
func (g *Gen) spyKinds(n int) []string {
	all := []string{"k.a", "k.aa", "k.", "K.A", "", "é", "recolude.", "recolude.event", "recolude.eventually", "recolude.position", "recolude.position64", "recolude.euler", "recolude.enumeration", "recolude.Enum", "recolude.float", "position", "x.recolude.float"}
	if g.p(0.4) {
		all = []string{"k.a", "k.b", "k.c", "k.d"}
	}
	return permuted(g, all)[:n]
}

func permuted[T any](g *Gen, xs []T) []T {
	out := make([]T, len(xs))
	for i, j := range g.r.Perm(len(xs)) {
		out[i] = xs[j]
	}
	return out
}

// checkLog is the trace specification of C12 for one write and one read.
func (c *C) checkLog(log *spyLog, owner func(format.CaptureCollection) string, want []format.CaptureCollection, got []format.CaptureCollection, tech rapio.TimeStorageTechnique) {
	byColl := map[format.CaptureCollection]*encEvent{}
	for i := range log.enc {
		e := &log.enc[i]
		if byColl[e.coll] != nil {
			c.Fail("encoded-twice", "collection %q handed to an encoder twice (%q and %q)", e.coll.Name(), byColl[e.coll].enc, e.enc)
		}
		byColl[e.coll] = e
	}
	if len(byColl) != len(want) {
		c.Fail("encoded-count", "%d collections encoded, the tree has %d", len(byColl), len(want))
	}
	if len(log.dec) != len(want) {
		c.Fail("decoded-count", "%d collections decoded, the tree has %d", len(log.dec), len(want))
	}
	if len(got) != len(want) {
		c.Fail("tree-count", "%d collections read, the tree has %d", len(got), len(want))
	}
	seen := map[int]bool{}
	for i, w := range want {
		e := byColl[w]
		if e == nil {
			c.Fail("not-encoded", "collection %d %q (%s) was handed to no encoder", i, w.Name(), w.Signature())
		}
		if o := owner(w); o != e.enc {
			c.Fail("wrong-encoder", "collection %d %q (%s) handed to %q, the first that accepts it is %q", i, w.Name(), w.Signature(), e.enc, o)
		}
		sc, ok := got[i].(*spyColl)
		if !ok || seen[sc.id] {
			c.Fail("tree-place", "collection %d read is not the one decoded for it", i)
		}
		seen[sc.id] = true
		d := log.dec[sc.id]
		if d.enc != e.enc {
			c.Fail("wrong-decoder", "collection %d %q written by %q, decoded by %q", i, w.Name(), e.enc, d.enc)
		}
		if !bytes.Equal(d.header, e.header) {
			c.Fail("header", "collection %d %q: encoder produced header %x, decoder got %x", i, w.Name(), e.header, d.header)
		}
		if !bytes.Equal(d.payload, e.payload) {
			c.Fail("payload", "collection %d %q: encoder produced payload %x, decoder got %x", i, w.Name(), e.payload, d.payload)
		}
		if d.name != w.Name() {
			c.Fail("name", "collection %d %q decoded under the name %q", i, w.Name(), d.name)
		}
		var ts []float64
		for _, x := range w.Captures() {
			ts = append(ts, x.Time())
		}
		if len(ts) != len(d.times) {
			c.Fail("times", "collection %d %q has %d timestamps, its decoder got %d", i, w.Name(), len(ts), len(d.times))
		}
		if err := checkTimes(tech, ts, d.times); err != nil {
			c.Fail("times", "collection %d %q: %v", i, w.Name(), err)
		}
	}
	c.Count("encode_events", len(log.enc))
	c.Count("decode_events", len(log.dec))
}

func c12spy(c *C) {
	g := newGen(c.R)
	kinds := g.spyKinds(1 + g.n(4))
	log := &spyLog{}
	es := g.spyEncoders(log, kinds)
	tech := rapio.TimeStorageTechnique(g.n(3))
	if tech == rapio.BST16 {
		g.Chrono, g.Plain = true, true
	}
	c.handled(g, log, es, g.spyRec(kinds, g.n(4)), tech)
}

// c12many has more encoders in use than fit a byte, one for each kind.
func c12many(c *C) {
	g := newGen(c.R)
	n := []int{126, 127, 128, 129, 130, 255, 256, 257, 300, 512, 1000, 4000}[c.Idx%12]
	log := &spyLog{}
	var es []*spyEncoder
	var kinds []string
	for i := 0; i < n; i++ {
		k := fmt.Sprint("kind ", i)
		kinds = append(kinds, k)
		es = append(es, &spyEncoder{sig: fmt.Sprint("sig ", i), version: uint(g.n(300)), log: log, rnd: func(n int) []byte { return g.bytes(g.n(n)) },
			accepts: map[string]bool{k: true, fmt.Sprint("kind ", i+1): g.p(0.05)}})
	}
	t := spyTree{}
	recs := make([][]format.CaptureCollection, 1+g.n(5))
	for i, k := range permuted(g, append(permuted(g, kinds), kinds[:n/3]...)) {
		x := &spyColl{id: i, name: fmt.Sprint("of ", k), kind: k}
		for j := g.n(3); j > 0; j-- {
			x.times = append(x.times, float64(i-j))
		}
		at := g.n(len(recs))
		recs[at] = append(recs[at], x)
	}
	var kids []format.Recording
	for i, cs := range recs {
		kids = append(kids, format.NewRecording(fmt.Sprint(i), "", cs, nil, metadata.EmptyBlock(), nil, nil))
	}
	t.rec = format.NewRecording("many", "", nil, kids, metadata.EmptyBlock(), nil, nil)
	c.Max("encoders_in_use", n)
	c.handled(g, log, es, t, rapio.TimeStorageTechnique(g.n(2)))
}

// handled writes and reads a recording with instrumented encoders.
func (c *C) handled(g *Gen, log *spyLog, es []*spyEncoder, t spyTree, tech rapio.TimeStorageTechnique) {
	compress := g.p(0.5)
	var b bytes.Buffer
	desc := ""
	for _, e := range es[:min(len(es), 20)] {
		desc += fmt.Sprintf(" %q v%d %v;", e.sig, e.version, e.accepts)
	}
	c.Note("encoders%s tree %s", desc, shapeOf(t.rec))
	var stock []encoding.Encoder // never needed: the others come first
	if g.p(0.5) {
		stock = permuted(g, fullEncoders())
		c.Count("stock_encoders_unneeded", len(stock))
	}
	n, err := rapio.NewWriter(append(g.asEncoders(es), stock...), compress, &b, tech).Write(t.rec)
	if err != nil {
		c.Fail("write-error", "%v", err)
	}
	if !compress && n != b.Len() {
		c.Fail("write-count", "write reports %d bytes, sink received %d", n, b.Len())
	}
	// Read with another registration order.
	rec, _, err := rapio.NewReader(permuted(g, append(g.asEncoders(es), stock...)), bytes.NewReader(b.Bytes())).Read()
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	if shapeOf(rec) != shapeOf(t.rec) {
		c.Fail("shape", "tree %s instead of %s", shapeOf(rec), shapeOf(t.rec))
	}
	first := map[string]string{} // by kind
	owner := func(x format.CaptureCollection) string {
		if o, ok := first[x.Signature()]; ok {
			return o
		}
		for _, e := range es {
			if e.Accepts(x) {
				first[x.Signature()] = e.sig
				return e.sig
			}
		}
		return "none"
	}
	c.checkLog(log, owner, treeColls(t.rec), treeColls(rec), tech)
	c.Max("collections_in_a_tree", len(t.colls))
	c.DistinctS("%s%s%v", desc, shapeOf(t.rec), b.Bytes())
	c.Sample(desc + shapeOf(t.rec))
}

// wrapEncoder logs the calls of a stock encoder.
type wrapEncoder struct {
	encoding.Encoder
	log *spyLog
	ver uint
}

func (w *wrapEncoder) Version() uint { return w.ver }
func (w *wrapEncoder) Encode(cs []format.CaptureCollection) ([]byte, [][]byte, error) {
	h, ps, err := w.Encoder.Encode(cs)
	if err == nil {
		for i, x := range cs {
			w.log.enc = append(w.log.enc, encEvent{w.Signature(), x, h, ps[i]})
		}
	}
	return h, ps, err
}
func (w *wrapEncoder) Decode(name string, header, data []byte, times []float64) (format.CaptureCollection, error) {
	w.log.dec = append(w.log.dec, decEvent{w.Signature(), name, append([]byte{}, header...), append([]byte{}, data...), append([]float64{}, times...)})
	return w.Encoder.Decode(name, header, data, times)
}

// c12stock observes the stock encoders on ordinary recordings. Collections
// get unique names, which identify them.
func c12stock(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	m := g.forCfg(w).Shape()
	i := 0
	want := map[string]MColl{}
	m.walk(func(r *MRec) {
		for j := range r.Colls {
			r.Colls[j].Name = fmt.Sprintf("%d %s", i, r.Colls[j].Name)
			want[r.Colls[j].Name] = r.Colls[j]
			i++
		}
	})
	c.Note("config %v\nrecording %s", w, trunc(m.Canon(), 5000))
	log := &spyLog{}
	var es []encoding.Encoder
	for _, e := range w.Encoders() {
		es = append(es, &wrapEncoder{e, log, uint(g.n(3))})
	}
	var b bytes.Buffer
	if _, err := rapio.NewWriter(es, w.Compress, &b, w.Time).Write(m.Build()); err != nil {
		c.Fail("write-error", "%v", err)
	}
	rec, _, err := rapio.NewReader(permuted(g, es), bytes.NewReader(b.Bytes())).Read()
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	enc := map[string]encEvent{}
	for _, e := range log.enc {
		if _, dup := enc[e.coll.Name()]; dup {
			c.Fail("encoded-twice", "collection %q encoded twice", e.coll.Name())
		}
		enc[e.coll.Name()] = e
		if e.enc != "recolude."+want[e.coll.Name()].Kind {
			c.Fail("wrong-encoder", "collection %q (%s) handed to %s", e.coll.Name(), want[e.coll.Name()].Kind, e.enc)
		}
	}
	if len(enc) != len(want) || len(log.dec) != len(want) {
		c.Fail("count", "%d collections, %d encoded, %d decoded", len(want), len(enc), len(log.dec))
	}
	for _, d := range log.dec {
		e, ok := enc[d.name]
		if !ok {
			c.Fail("name", "decoded a collection named %q, which was not written", d.name)
		}
		if d.enc != e.enc || !bytes.Equal(d.header, e.header) || !bytes.Equal(d.payload, e.payload) {
			c.Fail("payload", "collection %q: decoder %s got header %x payload %.200x, encoder %s produced %x %.200x", d.name, d.enc, d.header, d.payload, e.enc, e.header, e.payload)
		}
		if err := checkTimes(w.Time, times(want[d.name].Caps), d.times); err != nil {
			c.Fail("times", "collection %q: %v", d.name, err)
		}
		delete(enc, d.name)
	}
	if k, err := diffRec(w, m, c.mustSnap(rec, "read"), "root"); err != nil {
		c.Fail("rt-"+k, "%v", err)
	}
	c.Count("encode_events", len(log.enc))
	c.Count("decode_events", len(log.dec))
	c.DistinctS("%v%s", w, m.Canon())
}

// c12versions offers readers with missing, older, equal and newer encoders.
func c12versions(c *C) {
	g := newGen(c.R)
	kinds := g.spyKinds(3)
	log := &spyLog{}
	es := g.spyEncoders(log, kinds)
	for len(es) < 2 {
		es = g.spyEncoders(log, kinds)
	}
	t := g.spyRec(kinds, 2)
	compress := g.p(0.5)
	var b bytes.Buffer
	if _, err := rapio.NewWriter(g.asEncoders(es), compress, &b, rapio.Raw64).Write(t.rec); err != nil {
		c.Fail("write-error", "%v", err)
	}
	used := map[string]bool{}
	for _, e := range log.enc {
		used[e.enc] = true
	}
	if len(used) == 0 {
		return
	}
	for round := 0; round < 6; round++ {
		reg := []*spyEncoder{}
		missing, newer, older := "-", "-", false
		for _, e := range permuted(g, es) {
			x := &spyEncoder{sig: e.sig, version: e.version, accepts: map[string]bool{}, log: &spyLog{}}
			switch g.n(7) {
			case 0:
				if used[e.sig] {
					missing = e.sig
				}
				continue
			case 1:
				if e.version > 0 {
					x.version = e.version - 1 - uint(g.r.Uint64N(uint64(e.version)))
					if used[e.sig] {
						newer = e.sig
					}
				}
			case 2, 3:
				if e.version < math.MaxUint {
					x.version = e.version + 1 + uint(g.r.Uint64N(uint64(math.MaxUint-e.version)))
					if g.p(0.5) {
						x.version = e.version + 1
					}
					older = older || used[e.sig]
				}
			}
			reg = append(reg, x)
		}
		if g.p(0.3) {
			reg = append(reg, &spyEncoder{sig: "stranger", version: uint(g.n(3)), strict: true, log: &spyLog{}})
		}
		d := ""
		for _, e := range reg {
			d += fmt.Sprintf(" %q v%d", e.sig, e.version)
		}
		w := ""
		for _, e := range es {
			w += fmt.Sprintf(" %q v%d used=%v", e.sig, e.version, used[e.sig])
		}
		c.Note("file needs%s; registered%s", w, d)
		rec, _, err := rapio.NewReader(g.asEncoders(reg), bytes.NewReader(b.Bytes())).Read()
		switch {
		case missing != "-":
			if err == nil {
				c.Fail("missing-accepted", "no encoder %q registered, yet the file was accepted", missing)
			}
			c.Count("refused_missing", 1)
		case newer != "-":
			if err == nil {
				c.Fail("newer-accepted", "file needs a newer version of %q than registered, yet it was accepted", newer)
			}
			c.Count("refused_newer", 1)
		default:
			if err != nil {
				c.Fail("version-refused", "every encoder registered in the same or a newer version, yet: %v", err)
			}
			if shapeOf(rec) != shapeOf(t.rec) {
				c.Fail("shape", "tree %s instead of %s", shapeOf(rec), shapeOf(t.rec))
			}
			if older {
				c.Count("accepted_older", 1)
			} else {
				c.Count("accepted_equal", 1)
			}
		}
		c.DistinctS("%s%s", w, d)
	}
}

// c12unneeded adds encoders that are not needed, which must not matter.
func c12unneeded(c *C) {
	g := newGen(c.R)
	kinds := g.spyKinds(4)
	log := &spyLog{}
	es := g.spyEncoders(log, kinds)
	t := g.spyRec(kinds[:1+g.n(4)], g.n(4))
	compress := g.p(0.5)
	write := func(es []*spyEncoder) ([]byte, error) {
		rnd := newGen(caseRand(c.Env.Seed, "spy", c.ID(), 1))
		log.seq, log.enc = 0, nil
		for _, e := range es {
			e.rnd = func(n int) []byte { return rnd.bytes(rnd.n(n)) }
		}
		var b bytes.Buffer
		_, err := rapio.NewWriter(g.asEncoders(es), compress, &b, rapio.Raw32).Write(t.rec)
		return b.Bytes(), err
	}
	plain, err := write(es)
	if err != nil {
		c.Fail("write-error", "%v", err)
	}
	// Unneeded: accepts nothing, or comes after encoders which take it all.
	var with []*spyEncoder
	added := 0
	for _, e := range es {
		for g.p(0.4) {
			with = append(with, &spyEncoder{sig: fmt.Sprint("none", added), version: uint(g.n(300)), accepts: map[string]bool{}, strict: true})
			added++
		}
		with = append(with, e)
	}
	for i := 0; i < 2 || g.p(0.5); i++ {
		all := map[string]bool{}
		for _, k := range kinds {
			all[k] = g.p(0.7)
		}
		with = append(with, &spyEncoder{sig: fmt.Sprint("late", i), version: uint(g.n(300)), accepts: all, strict: true})
		added++
	}
	got, err := write(with)
	if err != nil {
		c.Fail("unneeded-used", "adding %d unneeded encoders: %v", added, err)
	}
	if !bytes.Equal(plain, got) {
		c.Fail("unneeded-bytes", "adding %d unneeded encoders changes the file: %d bytes %.300x, before %d bytes %.300x", added, len(got), got, len(plain), plain)
	}
	rec, _, err := rapio.NewReader(g.asEncoders(permuted(g, with)), bytes.NewReader(got)).Read()
	if err != nil {
		c.Fail("unneeded-read", "reading with unneeded encoders registered: %v", err)
	}
	if shapeOf(rec) != shapeOf(t.rec) {
		c.Fail("shape", "tree %s instead of %s", shapeOf(rec), shapeOf(t.rec))
	}
	c.Count("unneeded_encoders", added)
	c.Distinct(got)
}

// ---------------------------------------------------------------------------
// C29

// strictSink counts calls, empty ones included.
type strictSink struct {
	calls, n int
}

func (s *strictSink) Write(p []byte) (int, error) {
	s.calls++
	s.n += len(p)
	return len(p), nil
}

// mutRec is a recording whose lists can be given defects.
type mutRec struct {
	format.Recording
	colls []format.CaptureCollection
	recs  []format.Recording
	bins  []format.Binary
	refs  []format.BinaryReference
}

func (m *mutRec) CaptureCollections() []format.CaptureCollection { return m.colls }
func (m *mutRec) Recordings() []format.Recording                 { return m.recs }
func (m *mutRec) Binaries() []format.Binary                      { return m.bins }
func (m *mutRec) BinaryReferences() []format.BinaryReference     { return m.refs }

func toMut(r format.Recording, all *[]*mutRec) *mutRec {
	m := &mutRec{Recording: r}
	*all = append(*all, m)
	m.colls = append(m.colls, r.CaptureCollections()...)
	m.bins = append(m.bins, r.Binaries()...)
	m.refs = append(m.refs, r.BinaryReferences()...)
	for _, s := range r.Recordings() {
		m.recs = append(m.recs, toMut(s, all))
	}
	return m
}

func insertAt[T any](xs []T, i int, x T) []T {
	out := append([]T{}, xs[:i]...)
	out = append(out, x)
	return append(out, xs[i:]...)
}

func c29(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	m := g.forCfg(w).Shape()
	var all []*mutRec
	root := toMut(m.Build(), &all)
	encs := w.Encoders()
	what := g.n(6)
	var kind string
	var rec format.Recording = root
	// Half of the time through the library's own recording type.
	rebuild := g.p(0.5)
	for {
		// The deepest, the last and random nodes.
		node := all[g.n(len(all))]
		if g.p(0.3) {
			node = all[len(all)-1]
		}
		switch what {
		case 0:
			node.recs = insertAt(node.recs, g.n(len(node.recs)+1), nil)
			kind = "nil_recording"
		case 1:
			node.colls = insertAt(node.colls, g.n(len(node.colls)+1), nil)
			kind = "nil_collection"
		case 2:
			node.bins = insertAt(node.bins, g.n(len(node.bins)+1), nil)
			kind = "nil_binary"
		case 3:
			node.refs = insertAt(node.refs, g.n(len(node.refs)+1), nil)
			kind = "nil_reference"
		case 4:
			x := &spyColl{name: g.Name(), kind: pick(g, "k.none", "", "recolude.positio", "recolude.positions", "RECOLUDE.EVENT", "recolude.eventually", "recolude.enum2", " recolude.euler", "float"), times: g.Times(g.n(4))}
			node.colls = insertAt(node.colls, g.n(len(node.colls)+1), format.CaptureCollection(x))
			kind = "unaccepted"
		case 5:
			kind = "accepted"
		}
		if what == 5 || g.p(0.8) {
			break
		}
		// One defect does not make up for another.
		c.Count("several_defects", 1)
		what = g.n(5)
	}
	// Nor does it matter which encoders there are.
	if what != 5 && g.p(0.4) {
		encs = permuted(g, encs)[:g.n(len(encs))]
		c.Count("defects_with_few_encoders", 1)
	}
	if rebuild {
		var re func(m *mutRec) format.Recording
		re = func(m *mutRec) format.Recording {
			var rs []format.Recording
			for _, r := range m.recs {
				if r == nil {
					rs = append(rs, nil)
				} else {
					rs = append(rs, re(r.(*mutRec)))
				}
			}
			return format.NewRecording(m.ID(), m.Name(), m.colls, rs, m.Metadata(), m.bins, m.refs)
		}
		rec = re(root)
	}
	c.Note("defect %s, config %v, encoders %d, recording %s", kind, w, len(encs), trunc(m.Canon(), 4000))
	sink := &strictSink{}
	n, err := rapio.NewWriter(encs, w.Compress, sink, w.Time).Write(rec)
	c.Count(kind, 1)
	if kind == "accepted" {
		if err != nil {
			c.Fail("refused", "a recording without defects is refused: %v", err)
		}
		if sink.n == 0 || n == 0 {
			c.Fail("nothing-written", "write reports %d bytes, sink received %d, no error", n, sink.n)
		}
	} else {
		if err == nil {
			c.Fail("accepted-"+kind, "a recording with a %s is accepted", kind)
		}
		if n != 0 || sink.calls != 0 {
			c.Fail("bytes-"+kind, "refused (%v) after reporting %d bytes; sink received %d in %d calls", err, n, sink.n, sink.calls)
		}
	}
	c.Max("depth", depthOf(m))
	c.DistinctS("%s%v%s", kind, w, m.Canon())
	c.Sample(kind + " " + trunc(m.Canon(), 300))
}

// c29subset registers some encoders only.
func c29subset(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	m := g.forCfg(w).Shape()
	var encs []encoding.Encoder
	have := map[string]bool{}
	for _, e := range w.Encoders() {
		if g.p(0.6) {
			encs = append(encs, e)
			have[e.Signature()] = true
		}
	}
	missing := ""
	for _, x := range m.colls() {
		if !have["recolude."+x.Kind] {
			missing = x.Kind
		}
	}
	c.Note("registered %v, recording %s", have, trunc(m.Canon(), 4000))
	sink := &strictSink{}
	n, err := rapio.NewWriter(encs, w.Compress, sink, w.Time).Write(m.Build())
	if missing == "" {
		if err != nil {
			c.Fail("refused", "every collection has its encoder, yet: %v", err)
		}
		c.Count("accepted", 1)
	} else {
		if err == nil {
			c.Fail("accepted-unaccepted", "no encoder accepts %s, yet the recording is written", missing)
		}
		if n != 0 || sink.calls != 0 {
			c.Fail("bytes-unaccepted", "refused (%v) after reporting %d bytes; sink received %d in %d calls", err, n, sink.n, sink.calls)
		}
		c.Count("unaccepted", 1)
	}
	c.DistinctS("%v%s", have, m.Canon())
}

// c29depth nests recordings up to the deepest that reads back and beyond.
func c29depth(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	levels := []int{10001, 10000, 10002, 10003 + g.n(4000), 9990 + g.n(10), 200000}[c.Idx%6]
	var rec format.Recording = g.forCfg(w).Rec(0).Build()
	extra := 0
	if len(rec.Recordings()) > 0 {
		rec = format.NewRecording("end", "", nil, nil, metadata.EmptyBlock(), nil, nil)
	}
	side := g.p(0.5)
	for i := 0; i < levels; i++ {
		kids := []format.Recording{rec}
		if side && i%53 == 7 {
			// The deep branch is not the first.
			kids = append([]format.Recording{format.NewRecording("side", "", nil, nil, metadata.EmptyBlock(), nil, nil)}, rec)
			extra++
		}
		rec = format.NewRecording(fmt.Sprint(i), "", nil, kids, metadata.EmptyBlock(), nil, nil)
	}
	c.Note("%d levels below the root, %d siblings, config %v", levels, extra, w)
	c.DistinctS("%d %v %d", levels, w, extra)
	sink := &countingSink{}
	n, err := rapio.NewWriter(w.Encoders(), w.Compress, sink, w.Time).Write(rec)
	if levels > 10000 {
		if err == nil {
			_, _, err = readRec(sink.Bytes())
			c.Fail("accepted-depth", "a recording %d levels deep is accepted; reading it back: %v", levels, err)
		}
		if n != 0 || sink.calls != 0 {
			c.Fail("bytes-depth", "refused (%v) after reporting %d bytes; sink received %d in %d calls", err, n, sink.Len(), sink.calls)
		}
		c.Count("too_deep", 1)
		return
	}
	if err != nil {
		c.Fail("refused-depth", "a recording %d levels deep is refused: %v", levels, err)
	}
	back, _, err := readRec(sink.Bytes())
	if err != nil {
		c.Fail("lost-depth", "a recording %d levels deep is accepted and does not read back: %v", levels, err)
	}
	depth := 0
	for r := back; len(r.Recordings()) > 0; depth++ {
		r = r.Recordings()[len(r.Recordings())-1]
	}
	if depth != levels {
		c.Fail("lost-depth", "%d levels read back as %d", levels, depth)
	}
	c.Count("accepted", 1)
	c.Max("levels", levels)
}

type countingSink struct {
	bytes.Buffer
	calls int
}

func (s *countingSink) Write(p []byte) (int, error) {
	s.calls++
	return s.Buffer.Write(p)
}

var _ = errors.New
var _ = io.EOF
