package main

// Round trip properties C01-C04, C09-C11.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strings"
	"testing/iotest"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

func init() {
	register(&Prop{
		ID: "C01", Level: "exploration",
		Rule: "a case counts when its recording has several nodes or collections; distinct by recording content and configuration",
		Need: map[string]int64{"recordings": 2000, "collections": 2000, "captures": 5000, "mixed_kind_trees": 50},
		Fams: []Family{
			{Name: "tree", Quick: 2600, Thorough: 60000, Run: func(c *C) { c01(c, 0) }},
			{Name: "default-writer", Quick: 300, Thorough: 6000, Run: func(c *C) { c01(c, 1) }},
			{Name: "wide", Quick: 40, Thorough: 600, Run: c01wide},
			{Name: "split-kinds", Quick: 600, Thorough: 12000, Run: c01split},
			{Name: "long", Quick: 24, Thorough: 300, Run: c01long},
			{Name: "deep", Quick: 4, Thorough: 40, Run: c01deep},
			{Name: "huge", Quick: 5, Thorough: 60, Run: hugeColls(true, allKinds...)},
			{Name: "giant", Quick: 3, Thorough: 12, Run: c01giant},
			{Name: "crowd", Quick: 7, Thorough: 28, Run: c01crowd},
			exact("exact", 5, 6, 1, hugeColls(true, allKinds...)),
			exact("exact-crowd", 7, 1, 0, c01crowd),
			exact("exact-text", 1, 2, 1, c01text),
		},
	})
	register(&Prop{
		ID: "C02", Level: "exploration",
		Rule: "distinct by the metadata of all owners of the case",
		Need: map[string]int64{"values": 20000, "owners": 5000},
		Fams: []Family{
			{Name: "tree", Quick: 1800, Thorough: 40000, Run: c02},
			{Name: "each-kind", Quick: len(allCodes) * 12, Thorough: len(allCodes) * 200, Run: c02kind},
			{Name: "many-keys", Quick: 8, Thorough: 60, Run: c02keys},
			{Name: "huge", Quick: len(arrayCodes) + 2, Thorough: 80, Run: c02huge},
			exact("exact", len(arrayCodes)+2, 1, 1, c02huge),
			exact("exact-text", 1, 2, 1, c02text),
			{Name: "giant", Quick: 3, Thorough: 12, Run: c02giant},
			{Name: "nested", Quick: 60, Thorough: 1000, Run: c02nested},
			{Name: "deepest", Quick: 25, Thorough: 100, Run: c02deepest},
		},
	})
	register(&Prop{
		ID: "C03", Level: "exploration",
		Rule: "distinct by content of binaries and references",
		Need: map[string]int64{"binaries": 1000, "references": 1000, "second_reads": 1000},
		Fams: []Family{
			{Name: "tree", Quick: 900, Thorough: 20000, Run: c03},
			{Name: "big", Quick: 12, Thorough: 80, Run: c03big},
			{Name: "giant", Quick: 2, Thorough: 8, Run: c03giant},
			{Name: "crowd", Quick: 4, Thorough: 24, Run: c03crowd},
			exact("exact", 4, 2, 0, c03crowd),
			exact("exact-text", 1, 2, 1, c03text),
			{Name: "custom", Quick: 200, Thorough: 4000, Run: c03custom},
		},
	})
	register(&Prop{
		ID: "C04", Level: "exploration",
		Rule: "distinct by the captures of the case",
		Need: map[string]int64{"captures": 20000, "specials": 2000},
		Fams: []Family{
			{Name: "raw", Quick: 1500, Thorough: 40000, Run: c04},
			{Name: "huge", Quick: 6, Thorough: 80, Run: hugeColls(true, kPos, kEuler, kFloat)},
			exact("exact", 3, 4, 1, hugeColls(true, kPos, kEuler, kFloat)),
		},
	})
	register(&Prop{
		ID: "C09", Level: "exploration",
		Rule: "distinct by the event captures of the case",
		Need: map[string]int64{"captures": 10000},
		Fams: []Family{
			{Name: "shared", Quick: 900, Thorough: 20000, Run: c09},
			{Name: "many-names", Quick: 10, Thorough: 80, Run: c09many},
			{Name: "huge", Quick: 2, Thorough: 20, Run: hugeColls(true, kEvent)},
			{Name: "huge-names", Quick: 3, Thorough: 12, Run: c09names},
			exact("exact", 1, 4, 1, hugeColls(true, kEvent)),
			exact("exact-names", 3, 2, 0, c09names),
			exact("exact-text", 1, 2, 1, c09text),
		},
	})
	register(&Prop{
		ID: "C10", Level: "exploration",
		Rule: "distinct by the enum collections of the case",
		Need: map[string]int64{"captures": 5000, "members": 2000},
		Fams: []Family{
			{Name: "shared", Quick: 1200, Thorough: 30000, Run: c10},
			{Name: "many-members", Quick: 10, Thorough: 80, Run: c10many},
			{Name: "huge", Quick: 2, Thorough: 20, Run: hugeColls(true, kEnum)},
			{Name: "huge-members", Quick: 2, Thorough: 12, Run: c10members},
			exact("exact", 1, 4, 1, hugeColls(true, kEnum)),
			exact("exact-members", 1, 2, 1, c10members),
			exact("exact-text", 1, 2, 1, c10text),
		},
	})
	register(&Prop{
		ID: "C11", Level: "exploration",
		Rule: "distinct by file bytes",
		Need: map[string]int64{"files": 1500, "streams": 200, "user_encoder_files": 150, "multi_byte_versions": 100, "over_127_encoders": 5},
		Fams: []Family{
			{Name: "counts", Quick: 1500, Thorough: 30000, Run: c11},
			{Name: "back-to-back", Quick: 250, Thorough: 5000, Run: c11stream},
			{Name: "user-encoders", Quick: 300, Thorough: 10000, Run: c11user},
			exact("exact", 3, 4, 1, c11exact),
		},
	})
}

func c01(c *C, mode int) {
	g := newGen(c.R)
	var m MRec
	var w WCfg
	if mode == 1 {
		// What users get by default: NewRecoludeWriter and Load.
		g.Kinds = []string{kEvent, kPos, kEuler, kEnum}
		w = WCfg{Pos: 2, Eul: 1, Flt: 0, Time: rapio.BST16, Compress: true}
		m = g.forCfg(w).Shape()
		c.Note("%s", trunc(m.Canon(), 5000))
		var b bytes.Buffer
		if _, err := rapio.NewRecoludeWriter(&b).Write(m.Build()); err != nil {
			c.Fail("write-error", "default writer: %v", err)
		}
		rec, _, err := rapio.Load(bytes.NewReader(b.Bytes()))
		if err != nil {
			c.Fail("read-error", "Load: %v", err)
		}
		got := c.mustSnap(rec, "Load")
		if k, err := diffRec(w, m, got, "root"); err != nil {
			c.Fail("rt-"+k, "default writer and Load: %v", err)
		}
		c.Count("recordings", m.nodes())
		c.Count("collections", len(m.colls()))
		c.Count("captures", m.numCaps())
	} else {
		w = g.Cfg()
		m = g.forCfg(w).Shape()
		c.roundTrip(w, m)
	}
	c.Max("depth", depthOf(m))
	if m.nodes() > 1 || len(m.colls()) > 1 {
		c.DistinctS("%v%s", w, m.Canon())
	}
	kinds := map[string]bool{}
	for _, x := range m.colls() {
		kinds[x.Kind] = true
	}
	if len(kinds) >= 3 && m.nodes() > 2 {
		c.Count("mixed_kind_trees", 1)
	}
	c.Sample(trunc(fmt.Sprintf("%v %s", w, m.Canon()), 380))
}

// c01deep nests recordings thousands of levels deep.
func c01deep(c *C) {
	g := newGen(c.R)
	g.Small, g.MaxCaps = true, 3
	w := g.Cfg()
	gg := g.forCfg(w)
	depth := []int{1500, 10000, 4000, 7000}[c.Idx%4]
	m := gg.Rec(0)
	m.Recs = nil
	for i := 0; i < depth; i++ {
		p := MRec{ID: fmt.Sprint(i), Name: fmt.Sprint(depth - i)}
		if g.p(0.02) {
			p = gg.Rec(0)
		}
		p.Recs = []MRec{m}
		if g.p(0.05) {
			p.Recs = append(p.Recs, MRec{ID: "sibling"})
		}
		m = p
	}
	c.roundTrip(w, m)
	c.Max("depth", depthOf(m))
	c.DistinctS("%v%s", w, m.Canon())
}

func depthOf(m MRec) int {
	d := 0
	for _, r := range m.Recs {
		if x := depthOf(r); x > d {
			d = x
		}
	}
	return d + 1
}

func c01wide(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g.forCfg(w)
	m := MRec{ID: "root", Name: g.Name(), Meta: Meta{}}
	nc, nr := 0, 0
	switch c.Idx % 3 {
	case 0:
		nc = 120 + g.n(20)
	case 1:
		nr = 120 + g.n(200)
	case 2:
		nc, nr = 126+g.n(4), 126+g.n(4)
	}
	for i := 0; i < nc; i++ {
		m.Colls = append(m.Colls, g.CollN(g.Kinds[g.n(5)], g.n(3)))
	}
	for i := 0; i < nr; i++ {
		k := MRec{ID: fmt.Sprint(i), Name: g.Name(), Meta: Meta{}}
		if g.p(0.5) {
			k.Colls = append(k.Colls, g.CollN(g.Kinds[g.n(5)], g.n(3)))
		}
		m.Recs = append(m.Recs, k)
	}
	c.roundTrip(w, m)
	c.DistinctS("%v%s", w, m.Canon())
	c.Max("children", nr)
	c.Max("collections_per_node", nc)
}

// c01split: nodes use disjoint or interleaved kinds, so encoders first appear
// at different depths.
func c01split(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g.forCfg(w)
	perm := g.r.Perm(5)
	next := 0
	var build func(d int) MRec
	build = func(d int) MRec {
		m := MRec{ID: fmt.Sprint("id", next), Name: fmt.Sprint("node", next), Meta: Meta{}}
		next++
		for i := g.n(3); i > 0; i-- {
			k := allKinds[perm[(next+g.n(2))%5]]
			m.Colls = append(m.Colls, g.CollN(k, g.n(4)))
			m.Colls[len(m.Colls)-1].Name = fmt.Sprintf("coll%d-%d", next, i)
		}
		if d > 0 {
			for i := g.n(4); i > 0; i-- {
				m.Recs = append(m.Recs, build(d-1))
			}
		}
		return m
	}
	m := build(3)
	if g.p(0.4) {
		m.Colls = nil
	}
	c.roundTrip(w, m)
	kinds := map[string]bool{}
	for _, x := range m.colls() {
		kinds[x.Kind] = true
	}
	if len(kinds) >= 3 && m.nodes() > 2 {
		c.Count("mixed_kind_trees", 1)
	}
	if m.nodes() > 1 {
		c.DistinctS("%v%s", w, m.Canon())
	}
}

func c01long(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g.forCfg(w)
	m := MRec{ID: "long", Meta: Meta{}}
	k := allKinds[c.Idx%5]
	n := pick(g, 127, 128, 129, 2000, 5000, 16384)
	if k == kEvent && n > 2000 {
		n = 2000
	}
	m.Colls = []MColl{g.CollN(k, n), g.CollN(allKinds[(c.Idx+1)%5], 5)}
	c.roundTrip(w, m)
	c.DistinctS("%v%s", w, m.Canon())
	c.Max("captures_per_collection", n)
}

// ---------------------------------------------------------------------------

func (c *C) checkMetaViews(o, g format.Recording) {
	var cmp func(a, b metadata.Block, where string)
	cmp = func(a, b metadata.Block, where string) {
		for k, p := range a.Mapping() {
			q := b.Mapping()[k]
			if q == nil {
				c.Fail("meta-lost", "%s: key %.60q lost", where, k)
			}
			if x, y := p.String(), q.String(); x != y {
				c.Fail("meta-text", "%s key %.60q: text form %.200q instead of %.200q", where, k, y, x)
			}
			x, e1 := json.Marshal(p)
			y, e2 := json.Marshal(q)
			if (e1 == nil) != (e2 == nil) || !bytes.Equal(x, y) {
				c.Fail("meta-json", "%s key %.60q: JSON form %.200s (%v) instead of %.200s (%v)", where, k, y, e2, x, e1)
			}
			c.Count("values", 1)
		}
	}
	var rec func(a, b format.Recording)
	rec = func(a, b format.Recording) {
		cmp(a.Metadata(), b.Metadata(), "recording")
		c.Count("owners", 1)
		for i := range a.Binaries() {
			cmp(a.Binaries()[i].Metadata(), b.Binaries()[i].Metadata(), "binary")
			c.Count("owners", 1)
		}
		for i := range a.BinaryReferences() {
			cmp(a.BinaryReferences()[i].Metadata(), b.BinaryReferences()[i].Metadata(), "reference")
			c.Count("owners", 1)
		}
		for i := range a.Recordings() {
			rec(a.Recordings()[i], b.Recordings()[i])
		}
	}
	rec(o, g)
}

func (c *C) metaTrip(w WCfg, m MRec) {
	c.Note("config %v\nrecording %s", w, trunc(m.Canon(), 5000))
	rec := m.Build()
	b, _, err := writeRec(w, rec)
	if err != nil {
		c.Fail("write-error", "%v", err)
	}
	back, _, err := readRec(b)
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	g := c.mustSnap(back, "read back")
	if k, err := diffRec(w, m, g, "root"); err != nil {
		c.Fail("rt-"+k, "%v (%v)", err, w)
	}
	c.checkMetaViews(rec, back)
	c.DistinctS("%s", m.Canon())
}

func c02(c *C) {
	g := newGen(c.R)
	g.Small = c.Idx%20 != 0
	w := g.CfgRaw()
	m := g.Rec(1 + g.n(3))
	m.walk(func(r *MRec) {
		r.Meta = g.Meta(4, 10)
		r.Colls = nil
		if g.p(0.3) {
			r.Colls = []MColl{g.CollN(kEvent, g.n(3))}
		}
		if g.p(0.5) {
			r.Bins = append(r.Bins, MBin{Name: "b", Data: []byte("data"), Meta: g.Meta(3, 6)})
			r.Refs = append(r.Refs, MRef{Name: "r", URI: "u", Meta: g.Meta(3, 6)})
		}
	})
	c.metaTrip(w, m)
	c.Sample(metaStr(m.Meta))
}

func c02kind(c *C) {
	g := newGen(c.R)
	code := allCodes[c.Idx%len(allCodes)]
	mk := func() Meta {
		m := Meta{}
		for i := 0; i < 5; i++ {
			m[fmt.Sprint("k", i)] = g.ValOf(code, 3)
		}
		return m
	}
	m := MRec{Meta: mk(), Bins: []MBin{{Name: "b", Meta: mk()}}, Refs: []MRef{{Name: "r", Meta: mk()}},
		Colls: []MColl{{Kind: kEvent, Name: "e", Caps: []MCap{{T: 1, N: "ev", M: mk()}, {T: 2, N: "ev", M: mk()}}}},
		Recs:  []MRec{{Meta: Meta{"nested": vBlock(Meta{"deep": vBlock(mk())}), "arr": vArr(kArr+kBlock-kArr, []MVal{vBlock(mk()), vBlock(mk())})}}}}
	c.metaTrip(g.CfgRaw(), m)
}

func c02keys(c *C) {
	g := newGen(c.R)
	n := []int{127, 128, 129, 300, 5000, 16383, 16384, 17000}[c.Idx%8]
	m := MRec{ID: "keys", Meta: Meta{}}
	for i := 0; i < 5; i++ {
		m.Recs = append(m.Recs, MRec{ID: fmt.Sprint(i), Meta: Meta{}, Bins: []MBin{{Name: "b", Meta: Meta{}}}, Refs: []MRef{{Name: "r", Meta: Meta{}}}})
	}
	for i := 0; i < n; i++ {
		v := vInt(int32(i))
		k := fmt.Sprint("key", i)
		r := &m.Recs[g.n(5)]
		switch g.n(4) {
		case 0:
			m.Meta[k] = v
		case 1:
			r.Meta[k] = v
		case 2:
			r.Bins[0].Meta[k] = v
		case 3:
			r.Refs[0].Meta[k] = v
		}
		if g.p(0.2) {
			m.Recs[g.n(5)].Meta[k] = vStr("other")
		}
	}
	c.metaTrip(g.CfgRaw(), m)
	c.Max("keys", n)
}

func c02nested(c *C) {
	g := newGen(c.R)
	d := 2 + g.n(60)
	v := g.Val(1)
	for i := 0; i < d; i++ {
		if g.p(0.3) {
			v = MVal{Code: kArr + kBlock, A: []MVal{vBlock(Meta{"a": v}), vBlock(g.Meta(1, 2))}}
		} else {
			m := g.Meta(1, 2)
			m["in"] = v
			v = vBlock(m)
		}
	}
	c.metaTrip(g.CfgRaw(), MRec{Meta: Meta{"v": v}, Recs: []MRec{{Meta: Meta{"v": v}}}})
	c.Max("nesting", d)
}

// deepProp nests a leaf in the given number of blocks, some of them by way of
// an array.
func deepProp(leaf metadata.Property, levels int, arrays bool) metadata.Property {
	for i := 0; i < levels; i++ {
		b := metadata.NewBlock(map[string]metadata.Property{"k": leaf})
		if arrays && i%97 == 5 {
			leaf = metadata.NewMetadataArrayProperty([]metadata.Block{b})
		} else {
			leaf = metadata.NewMetadataProperty(b)
		}
	}
	return leaf
}

// deepEnd counts the blocks around the leaf of what deepProp built.
func deepEnd(p metadata.Property) (metadata.Property, int, error) {
	levels := 0
	for {
		var b metadata.Block
		switch x := p.(type) {
		case metadata.MetadataProperty:
			b = x.Block()
		case metadata.ArrayProperty:
			// The only public view of an array's elements is its stored form.
			data := x.Data()
			if len(data) < 5 || data[0] != 1 {
				return nil, levels, fmt.Errorf("array at level %d does not hold one block", levels)
			}
			q, err := metadata.ReadProperty(bytes.NewReader(append([]byte{kBlock}, data[1:]...)))
			if err != nil {
				return nil, levels, err
			}
			b = q.(metadata.MetadataProperty).Block()
		default:
			return p, levels, nil
		}
		levels++
		m := b.Mapping()
		if len(m) != 1 || m["k"] == nil {
			return nil, levels, fmt.Errorf("block at level %d holds %d entries", levels, len(m))
		}
		p = m["k"]
	}
}

// c02deepest nests values up to and beyond what may be read back: 10,000
// levels survive, more are refused rather than written and lost.
func c02deepest(c *C) {
	g := newGen(c.R)
	levels := []int{9999, 10000, 10001, 10002, 10000 + 2 + g.n(3000)}[c.Idx%5]
	owner := c.Idx / 5 % 5
	n := int32(g.n(1 << 30))
	v := deepProp(metadata.NewIntProperty(int(n)), levels, c.Idx/25%2 == 1)
	block := metadata.NewBlock(map[string]metadata.Property{"top": v})
	empty := metadata.EmptyBlock()
	var colls []format.CaptureCollection
	var bins []format.Binary
	var refs []format.BinaryReference
	own := empty
	switch owner {
	case 0:
		own = block
	case 1:
		bins = append(bins, rapio.NewBinary("b", []byte{1}, block))
	case 2:
		refs = append(refs, rapio.NewBinaryReference("b", "u", 1, block))
	case 3:
		colls = append(colls, event.NewCollection("e", []event.Capture{event.NewCapture(1, "x", block)}))
	}
	var rec format.Recording = format.NewRecording("i", "n", colls, nil, own, bins, refs)
	if owner == 4 {
		rec = format.NewRecording("j", "m", nil, []format.Recording{rec, format.NewRecording("i", "n", nil, nil, block, nil, nil)}, empty, nil, nil)
	}
	w := g.CfgRaw()
	c.Note("%d levels, owner %d, config %v", levels, owner, w)
	b, _, err := writeRec(w, rec)
	c.DistinctS("%d %d %v", levels, owner, w)
	if levels > 10000 {
		if err == nil {
			_, _, err = readRec(b)
			c.Fail("too-deep", "metadata of %d levels is written without an error; reading it back: %v", levels, err)
		}
		c.Count("too_deep", 1)
		return
	}
	if err != nil {
		c.Fail("write-error", "metadata of %d levels is refused: %v", levels, err)
	}
	back, _, err := readRec(b)
	if err != nil {
		c.Fail("read-error", "metadata of %d levels does not read back: %v", levels, err)
	}
	got := back.Metadata()
	switch owner {
	case 1:
		got = back.Binaries()[0].Metadata()
	case 2:
		got = back.BinaryReferences()[0].Metadata()
	case 3:
		got = back.CaptureCollections()[0].Captures()[0].(event.Capture).Metadata()
	case 4:
		got = back.Recordings()[1].Metadata()
	}
	if len(got.Mapping()) != 1 || got.Mapping()["top"] == nil {
		c.Fail("keys", "%d keys instead of one", len(got.Mapping()))
	}
	end, l, err := deepEnd(got.Mapping()["top"])
	if err != nil {
		c.Fail("deep", "%v", err)
	}
	if x, ok := end.(metadata.Int32Property); l != levels || !ok || x.String() != fmt.Sprint(n) {
		c.Fail("deep", "%v below %d levels instead of %d below %d", end, l, n, levels)
	}
	c.Count("values", 1)
	c.Max("nesting", levels)
}

// ---------------------------------------------------------------------------

func (c *C) binTrip(w WCfg, m MRec, rec format.Recording) {
	b, _, err := writeRec(w, rec)
	if err != nil {
		c.Fail("write-error", "%v", err)
	}
	back, _, err := readRec(b)
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	var walk func(o MRec, r format.Recording, path string)
	walk = func(o MRec, r format.Recording, path string) {
		if len(r.Binaries()) != len(o.Bins) || len(r.BinaryReferences()) != len(o.Refs) || len(r.Recordings()) != len(o.Recs) {
			c.Fail("count", "%s: %d binaries, %d references, %d recordings instead of %d, %d, %d", path, len(r.Binaries()), len(r.BinaryReferences()), len(r.Recordings()), len(o.Bins), len(o.Refs), len(o.Recs))
		}
		for i, x := range r.Binaries() {
			want := o.Bins[i]
			if x.Name() != want.Name || x.Size() != uint64(len(want.Data)) {
				c.Fail("bin", "%s binary %d: %q of %d bytes instead of %q of %d", path, i, x.Name(), x.Size(), want.Name, len(want.Data))
			}
			// Interleaved and repeated readers.
			r1, r2 := x.Data(), x.Data()
			half := make([]byte, len(want.Data)/2)
			io.ReadFull(r1, half)
			all2, _ := io.ReadAll(r2)
			rest, _ := io.ReadAll(r1)
			all3, err := io.ReadAll(iotest.OneByteReader(x.Data()))
			if !bytes.Equal(all2, want.Data) || !bytes.Equal(append(half, rest...), want.Data) || !bytes.Equal(all3, want.Data) || err != nil {
				c.Fail("bin-reread", "%s binary %d of %d bytes: reading it repeatedly gives different content (%d, %d, %d bytes)", path, i, len(want.Data), len(all2), len(half)+len(rest), len(all3))
			}
			if mt, err := snapMeta(x.Metadata()); err != nil || metaStr(mt) != metaStr(want.Meta) {
				c.Fail("binmeta", "%s binary %d: metadata differs (%v)", path, i, err)
			}
			c.Count("binaries", 1)
			c.Count("second_reads", 2)
			c.Max("binary_size", len(want.Data))
		}
		for i, x := range r.BinaryReferences() {
			want := o.Refs[i]
			if x.Name() != want.Name || x.URI() != want.URI || x.Size() != want.Size {
				c.Fail("ref", "%s reference %d: %q %q %d instead of %q %q %d", path, i, x.Name(), x.URI(), x.Size(), want.Name, want.URI, want.Size)
			}
			if mt, err := snapMeta(x.Metadata()); err != nil || metaStr(mt) != metaStr(want.Meta) {
				c.Fail("refmeta", "%s reference %d: metadata differs (%v)", path, i, err)
			}
			c.Count("references", 1)
		}
		for i := range o.Recs {
			walk(o.Recs[i], r.Recordings()[i], fmt.Sprintf("%s/%d", path, i))
		}
	}
	walk(m, back, "root")
	c.DistinctS("%s", m.Canon())
}

func c03(c *C) {
	g := newGen(c.R)
	m := g.Rec(g.n(3))
	m.walk(func(r *MRec) {
		r.Meta = Meta{}
		for i := g.n(4); i > 0; i-- {
			r.Bins = append(r.Bins, MBin{Name: g.Name(), Data: g.bytes(pick(g, 0, 1, 2, 127, 128, 511, 512, 513, g.n(2000))), Meta: g.Meta(1, 2)})
		}
		for i := g.n(4); i > 0; i-- {
			r.Refs = append(r.Refs, MRef{Name: g.Name(), URI: g.Name(), Size: g.r.Uint64() >> g.n(64), Meta: g.Meta(1, 2)})
		}
		if g.p(0.7) {
			r.Colls = nil
		}
	})
	c.Note("%s", trunc(m.Canon(), 4000))
	c.binTrip(g.CfgRaw(), m, m.Build())
}

func c03big(c *C) {
	g := newGen(c.R)
	m := MRec{ID: "big", Meta: Meta{}}
	for i := 0; i < 3; i++ {
		n := pick(g, 1<<15-1, 1<<15, 1<<16, 1<<16+1, 1<<20, 3<<20)
		b := g.bytes(n)
		if g.p(0.5) {
			b = bytes.Repeat([]byte{byte(g.n(256))}, n)
		}
		m.Bins = append(m.Bins, MBin{Name: fmt.Sprint(i), Data: b, Meta: Meta{}})
	}
	m.Recs = []MRec{{ID: "after", Meta: Meta{"k": vInt(7)}, Bins: []MBin{{Name: "tail", Data: []byte("end"), Meta: Meta{}}}}}
	c.binTrip(g.CfgRaw(), m, m.Build())
}

// userBinary is a caller's own Binary implementation.
type userBinary struct {
	MBin
	read func([]byte) io.Reader
}

func (b userBinary) Name() string             { return b.MBin.Name }
func (b userBinary) Size() uint64             { return uint64(len(b.MBin.Data)) }
func (b userBinary) Data() io.Reader          { return b.read(b.MBin.Data) }
func (b userBinary) Metadata() metadata.Block { return buildMeta(b.MBin.Meta) }

// plainReader hides WriterTo and friends.
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

func c03custom(c *C) {
	g := newGen(c.R)
	m := MRec{ID: "custom", Meta: Meta{}}
	var bins []format.Binary
	for i := 0; i < 1+g.n(4); i++ {
		b := MBin{Name: g.Name(), Data: g.bytes(g.n(3000)), Meta: g.Meta(1, 2)}
		m.Bins = append(m.Bins, b)
		style := g.n(5)
		bins = append(bins, userBinary{b, func(d []byte) io.Reader {
			switch style {
			case 0:
				return iotest.OneByteReader(bytes.NewReader(d))
			case 1:
				return iotest.DataErrReader(bytes.NewReader(d))
			case 2:
				return iotest.HalfReader(bytes.NewReader(d))
			case 3:
				return plainReader{bytes.NewBuffer(append([]byte{}, d...))}
			}
			k := len(d) / 3
			return io.MultiReader(bytes.NewReader(d[:k]), bytes.NewReader(d[k:]))
		}})
	}
	rec := format.NewRecording(m.ID, m.Name, nil, nil, metadata.EmptyBlock(), bins, nil)
	c.binTrip(g.CfgRaw(), m, rec)
}

// ---------------------------------------------------------------------------

func (g *Gen) any64() float64 {
	switch g.n(4) {
	case 0:
		return math.Float64frombits(g.r.Uint64())
	case 1:
		return pick(g, 0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0x7ff8000000abcdef), math.Float64frombits(0xfff8000000000001), math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64, math.MaxFloat32, math.MaxFloat32*1.0000001, 1e-45, 1.4e-45, 7e-46, 1e-38, 16777217, 0.1, 1.0/3)
	case 2:
		return math.Ldexp(g.r.Float64()-0.5, g.n(300)-150)
	}
	return (g.r.Float64() - 0.5) * 1000
}

func c04(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	w.Pos, w.Eul, w.Flt, w.Time = pick(g, w.Pos&1, 0), pick(g, w.Eul&1, 0), pick(g, w.Flt&1, 0), rapio.TimeStorageTechnique(g.n(2))
	m := MRec{ID: "raw", Meta: Meta{}}
	for i := 1 + g.n(5); i > 0; i-- {
		k := pick(g, kPos, kEuler, kFloat, kPos, kEuler, kFloat, kEnum)
		n := pick(g, 0, 1, 2, 3, g.n(30), g.n(200))
		x := g.CollN(k, n)
		for j := range x.Caps {
			if g.p(0.8) {
				x.Caps[j].T = g.any64()
			}
			if k != kEnum {
				x.Caps[j].V = [3]float64{g.any64(), g.any64(), g.any64()}
			}
			if math.IsNaN(x.Caps[j].V[0]) || math.IsInf(x.Caps[j].V[0], 0) || x.Caps[j].V[0] == 0 {
				c.Count("specials", 1)
			}
			if k == kFloat {
				x.Caps[j].V[1], x.Caps[j].V[2] = 0, 0
			}
		}
		if g.p(0.5) {
			m.Colls = append(m.Colls, x)
		} else {
			m.Recs = append(m.Recs, MRec{Meta: Meta{}, Colls: []MColl{x}})
		}
	}
	c.roundTrip(w, m)
	c.DistinctS("%v%s", w, m.Canon())
	c.Sample(m.Canon())
}

// ---------------------------------------------------------------------------

func c09(c *C) {
	g := newGen(c.R)
	g.Small = true
	w := g.CfgRaw()
	names := []string{}
	for i := 1 + g.n(12); i > 0; i-- {
		names = append(names, g.Name())
	}
	mk := func() MColl {
		x := MColl{Kind: kEvent, Name: g.Name()}
		t := g.Times(g.capCount())
		own := names
		if g.p(0.3) { // names and keys private to this collection
			own = []string{g.freshName(), g.freshName()}
		}
		for i := range t {
			m := Meta{}
			for k := g.n(5); k > 0; k-- {
				if g.p(0.7) {
					m[own[g.n(len(own))]] = g.Val(2)
				} else {
					m[g.Name()] = g.Val(2)
				}
			}
			x.Caps = append(x.Caps, MCap{T: t[i], N: own[g.n(len(own))], M: m})
		}
		return x
	}
	m := g.Rec(g.n(3))
	m.walk(func(r *MRec) {
		r.Colls = nil
		for i := g.n(4); i > 0; i-- {
			r.Colls = append(r.Colls, mk())
			if g.p(0.3) {
				r.Colls = append(r.Colls, g.CollN(kEnum, g.n(3)))
			}
		}
		r.Bins, r.Refs = nil, nil
	})
	c.roundTrip(w, m)
	if m.numCaps() > 0 {
		c.DistinctS("%s", m.Canon())
	}
	c.Sample(m.Canon())
}

func c09many(c *C) {
	g := newGen(c.R)
	nn := []int{127, 128, 129, 1000, 16383, 16384, 16500, 300, 5, 200}[c.Idx%10]
	nk := []int{5, 128, 300, 16384, 4, 129, 3, 17000, 16383, 20}[c.Idx%10]
	m := MRec{Meta: Meta{}}
	cols := make([]MColl, 3)
	for i := range cols {
		cols[i] = MColl{Kind: kEvent, Name: fmt.Sprint("c", i)}
	}
	n := nn
	if nk > n {
		n = nk
	}
	for i := 0; i < n; i++ {
		x := &cols[g.n(3)]
		x.Caps = append(x.Caps, MCap{T: float64(i), N: fmt.Sprint("name", i%nn), M: Meta{fmt.Sprint("key", i%nk): vInt(int32(i)), "common": vStr(fmt.Sprint(i))}})
	}
	m.Colls = cols[:1]
	m.Recs = []MRec{{Meta: Meta{}, Colls: cols[1:]}}
	c.roundTrip(g.CfgRaw(), m)
	c.DistinctS("%s", m.Canon())
	c.Max("names", nn)
	c.Max("keys", nk)
}

func c10(c *C) {
	g := newGen(c.R)
	g.Small = true
	w := g.CfgRaw()
	m := g.Rec(g.n(3))
	m.walk(func(r *MRec) {
		r.Bins, r.Refs, r.Colls = nil, nil, nil
		for i := g.n(5); i > 0; i-- {
			x := g.Coll(kEnum)
			if g.p(0.2) && len(x.Members) > 0 { // duplicates
				x.Members = append(x.Members, x.Members[g.n(len(x.Members))])
			}
			for j := range x.Caps {
				if g.p(0.2) {
					x.Caps[j].E = int(g.r.Uint64()) >> g.n(64)
				}
			}
			c.Count("members", len(x.Members))
			r.Colls = append(r.Colls, x)
			if g.p(0.2) {
				r.Colls = append(r.Colls, g.CollN(kEvent, g.n(3)))
			}
		}
	})
	c.roundTrip(w, m)
	if len(m.colls()) > 0 {
		c.DistinctS("%s", m.Canon())
	}
	c.Sample(m.Canon())
}

func c10many(c *C) {
	g := newGen(c.R)
	n := []int{127, 128, 129, 200, 16383, 16384, 17000, 255, 256, 1000}[c.Idx%10]
	m := MRec{Meta: Meta{}}
	for i := 0; i < 3; i++ {
		x := MColl{Kind: kEnum, Name: fmt.Sprint("e", i)}
		for j := 0; j < n/2; j++ {
			x.Members = append(x.Members, fmt.Sprint("m", g.n(n)))
		}
		for j := 0; j < 50; j++ {
			x.Caps = append(x.Caps, MCap{T: float64(j), E: g.n(n)})
		}
		c.Count("members", len(x.Members))
		m.Recs = append(m.Recs, MRec{Meta: Meta{}, Colls: []MColl{x}})
	}
	c.roundTrip(g.CfgRaw(), m)
	c.DistinctS("%s", m.Canon())
}

// ---------------------------------------------------------------------------

func c11(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	m := g.forCfg(w).Shape()
	c.Note("config %v\nrecording %s", w, trunc(m.Canon(), 5000))
	b, n := c.mustWrite(w, m)
	if !w.Compress && n != len(b) {
		c.Fail("write-count", "write reports %d bytes, sink received %d (%v)", n, len(b), w)
	}
	junk := g.bytes(g.n(300))
	src := &countReader{r: bytes.NewReader(append(append([]byte{}, b...), junk...))}
	rec, rn, err := rapio.NewReader(fullEncoders(), src).Read()
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	if rn != n {
		c.Fail("count-mismatch", "write reports %d bytes, read reports %d (%v)", n, rn, w)
	}
	if !w.Compress && src.n != len(b) {
		c.Fail("consumed", "reading an uncompressed file of %d bytes consumed %d", len(b), src.n)
	}
	got := c.mustSnap(rec, "read")
	head := &countReader{r: bytes.NewReader(b)}
	if v, vn, err := rapio.GetRecoringVersion(head); v != 2 || vn != 1 || err != nil || head.n != 1 {
		c.Fail("version-count", "the version of a file: %d, %d bytes, error %v, %d bytes consumed", v, vn, err, head.n)
	}
	if w.Compress {
		// Self contained: the compressed bytes alone give the same again.
		again, rn2 := c.mustRead(b)
		mustEq(c, "reread", "compressed file re-read", got, again)
		if rn2 != rn {
			c.Fail("count-reread", "count %d on one reading, %d on another", rn, rn2)
		}
	}
	c.Count("files", 1)
	c.Count("bytes", n)
	c.Distinct(b)
}

// c11user counts bytes of files whose encoders are not the built-in ones: any
// signature, version, header and payload size, and any number of encoders.
func c11user(c *C) {
	g := newGen(c.R)
	log := &spyLog{}
	var kinds []string
	var es []encoding.Encoder
	nk := 1 + g.n(5)
	if g.p(0.05) {
		nk = 120 + g.n(20)
	}
	for i := 0; i < nk; i++ {
		k := fmt.Sprint("k.", i)
		kinds = append(kinds, k)
		sig := fmt.Sprint(pick(g, "s", "é", strings.Repeat("long signature ", 1+g.n(20))), i)
		e := &spyEncoder{sig: sig, version: uint(g.n(4)), accepts: map[string]bool{k: true}, log: log, rnd: func(n int) []byte { return g.bytes(g.n(n)) }}
		if g.p(0.5) {
			e.version = pick(g, uint(127), 128, 129, 255, 256, 16383, 16384, 1<<31, uwide(1<<40), uwide(1<<63), math.MaxUint)
		}
		if g.p(0.2) {
			size := pick(g, 127, 128, 129, 300, 20000)
			e.rnd = func(int) []byte { return g.bytes(size) }
		}
		if e.version > 127 {
			c.Count("multi_byte_versions", 1)
		}
		es = append(es, e)
	}
	var b bytes.Buffer
	var ns []int
	var want []string
	compress := g.p(0.3)
	k := 1
	if !compress {
		k += g.n(3)
	}
	for i := 0; i < k; i++ {
		t := g.spyRec(kinds, g.n(3))
		if nk > 100 {
			// All of them needed at once.
			var cs []format.CaptureCollection
			for j, kind := range kinds {
				cs = append(cs, &spyColl{id: j, name: g.Name(), kind: kind, times: g.Times(g.n(3))})
			}
			t.rec = format.NewRecording("many", "", cs, []format.Recording{t.rec}, buildMeta(nil), nil, nil)
			c.Count("over_127_encoders", 1)
		}
		before := b.Len()
		n, err := rapio.NewWriter(es, compress, &b, rapio.Raw64).Write(t.rec)
		if err != nil {
			c.Fail("write-error", "%v", err)
		}
		if !compress && n != b.Len()-before {
			c.Fail("write-count", "write reports %d bytes, sink received %d (%d user encoders)", n, b.Len()-before, nk)
		}
		ns, want = append(ns, n), append(want, shapeOf(t.rec))
	}
	c.Note("%d user encoders, %d recordings, compress %v", nk, k, compress)
	src := &countReader{r: bytes.NewReader(append(b.Bytes(), g.bytes(g.n(50))...))}
	total := 0
	for i := range ns {
		rec, n, err := rapio.NewReader(es, src).Read()
		if err != nil {
			c.Fail("read-error", "recording %d of %d: %v", i, k, err)
		}
		if n != ns[i] {
			c.Fail("count-mismatch", "recording %d of %d with %d user encoders: write reports %d bytes, read reports %d", i, k, nk, ns[i], n)
		}
		total += n
		if !compress && src.n != total {
			c.Fail("consumed", "after %d recordings of together %d bytes %d are consumed", i+1, total, src.n)
		}
		if s := shapeOf(rec); s != want[i] {
			c.Fail("stream-tree", "recording %d of %d: read %s, wrote %s", i, k, s, want[i])
		}
	}
	c.Count("files", k)
	c.Count("user_encoder_files", k)
	c.Distinct(b.Bytes())
}

func c11stream(c *C) {
	g := newGen(c.R)
	k := 2 + g.n(5)
	var b bytes.Buffer
	var ms []MRec
	var ns []int
	var ws []WCfg
	for i := 0; i < k; i++ {
		w := g.Cfg()
		w.Compress = false
		gg := newGen(c.R)
		m := gg.forCfg(w).Rec(g.n(2))
		before := b.Len()
		n, err := rapio.NewWriter(w.Encoders(), false, &b, w.Time).Write(m.Build())
		if err != nil {
			c.Fail("write-error", "%v", err)
		}
		if n != b.Len()-before {
			c.Fail("write-count", "write %d reports %d bytes, sink received %d", i, n, b.Len()-before)
		}
		ms, ns, ws = append(ms, m), append(ns, n), append(ws, w)
	}
	src := bytes.NewReader(b.Bytes())
	for i := range ms {
		rec, n, err := rapio.NewReader(fullEncoders(), src).Read()
		if err != nil {
			c.Fail("stream-read", "recording %d of %d stored back to back: %v", i, k, err)
		}
		if n != ns[i] {
			c.Fail("count-mismatch", "recording %d: write reports %d, read %d", i, ns[i], n)
		}
		if kk, err := diffRec(ws[i], ms[i], c.mustSnap(rec, "stream"), "root"); err != nil {
			c.Fail("stream-"+kk, "recording %d of %d: %v", i, k, err)
		}
	}
	if src.Len() != 0 {
		c.Fail("stream-rest", "%d bytes left unread", src.Len())
	}
	c.Count("streams", 1)
	c.Count("files", k)
	c.Distinct(b.Bytes())
}
