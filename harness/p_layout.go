package main

// C31 (layout of version 2 files), C32 (BSON form of metadata).

import (
	"bytes"
	"embed"
	"encoding/gob"
	"fmt"
	"math"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/bsontype"
)

// Files written by the release the checks were made for, with what they hold.
//
//go:embed golden
var golden embed.FS

func goldenNames() (out []string) {
	es, _ := golden.ReadDir("golden")
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".rap") {
			out = append(out, strings.TrimSuffix(e.Name(), ".rap"))
		}
	}
	return
}

func init() {
	register(&Prop{
		ID: "C31", Level: "exploration",
		Rule: "distinct by file bytes",
		Need: map[string]int64{"decoded_files": 1500, "encoded_files": 1500, "golden_files": 20, "captures": 20000, "metadata_values": 10000},
		Fams: []Family{
			{Name: "decode", Quick: 2000, Thorough: 50000, Run: c31decode},
			{Name: "encode", Quick: 2400, Thorough: 50000, Run: c31encode},
			{Name: "huge", Quick: 24, Thorough: 120, Run: c31huge},
			exact("exact", len(hugeWays), 2, 0, c31huge),
			exact("exact-text", 1, 4, 1, c31text),
			{Name: "golden", Quick: len(goldenNames()), Thorough: len(goldenNames()), Run: c31golden},
		},
	})
	register(&Prop{
		ID: "C32", Level: "exploration",
		Rule: "distinct by the block of the case",
		Need: map[string]int64{"values": 20000, "documents": 3000, "loaded": 500, "times": 500},
		Fams: []Family{
			{Name: "blocks", Quick: 4000, Thorough: 100000, Run: c32},
			{Name: "each-kind", Quick: len(allCodes) * 40, Thorough: len(allCodes) * 1000, Run: c32kind},
			{Name: "huge", Quick: len(arrayCodes) + 1, Thorough: 60, Run: c32huge},
			exact("exact", len(arrayCodes)+1, 2, 0, c32huge),
			exact("exact-text", 1, 4, 1, c32text),
		},
	})
}

func (c *C) countModel(m MRec) {
	c.Count("captures", m.numCaps())
	m.walk(func(r *MRec) {
		c.Count("metadata_values", len(r.Meta))
		for _, b := range r.Bins {
			c.Count("metadata_values", len(b.Meta))
		}
		for _, x := range r.Colls {
			for _, y := range x.Caps {
				c.Count("metadata_values", len(y.M))
			}
		}
	})
}

// c31decode reads what the library writes with the independent decoder.
func c31decode(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	c.layoutOf(w, g.forCfg(w).Shape())
}

func (c *C) layoutOf(w WCfg, m MRec) {
	c.Note("config %v\nrecording %s", w, trunc(m.Canon(), 5000))
	b, _ := c.mustWrite(w, m)
	odd := oddBools
	ref, st, err := refDecode(b)
	if oddBools != odd {
		c.Fail("layout-booleans", "booleans are written as bytes other than 0 and 1")
	}
	if err != nil {
		c.Fail("layout", "an independent decoder refuses the file: %v (%v)", err, w)
	}
	if st.Rest != 0 {
		c.Fail("layout-rest", "%d bytes follow the recording", st.Rest)
	}
	if st.Compress != w.Compress {
		c.Fail("layout-compress", "compression asked for: %v, flagged: %v", w.Compress, st.Compress)
	}
	if k, err := diffRec(w, m, ref, "root"); err != nil {
		c.Fail("layout-"+k, "independent decoder: %v (%v)", err, w)
	}
	got, _ := c.mustRead(b)
	if err := nearModels(ref, got); err != nil {
		c.Fail("layout-read", "the library reads its file other than the independent decoder: %v (%v)", err, w)
	}
	c.Count("decoded_files", 1)
	c.countModel(m)
	c.Distinct(b)
	c.Sample(trunc(fmt.Sprintf("%v %s", w, m.Canon()), 300))
}

// c31encode hands files of the independent encoder to the library.
func c31encode(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	m := g.forCfg(w).Shape()
	o := refOpts{cfg: w, extra: g.p(0.3)}
	if g.p(0.3) {
		o.kinds = permuted(g, allKinds)
	}
	if g.p(0.2) {
		o.extraKey = []string{g.Name(), g.Name()}
	}
	c.acceptsLayout(m, o)
}

func (c *C) acceptsLayout(m MRec, o refOpts) {
	w := o.cfg
	c.Note("config %v\nrecording %s", w, trunc(m.Canon(), 5000))
	b := refFile(m, o)
	ref, _, err := refDecode(b)
	if err != nil {
		panic(err)
	}
	rec, n, err := readRec(b)
	if err != nil {
		c.Fail("layout-refused", "a file of an independent encoder is refused: %v (%v)", err, w)
	}
	got := c.mustSnap(rec, "independent file")
	if k, err := diffRec(w, m, got, "root"); err != nil {
		c.Fail("layout-"+k, "file of an independent encoder: %v (%v)", err, w)
	}
	if err := nearModels(ref, got); err != nil {
		c.Fail("layout-read", "file of an independent encoder is read other than by the independent decoder: %v (%v)", err, w)
	}
	if !w.Compress && n != len(b) {
		c.Fail("layout-count", "%d of %d bytes counted", n, len(b))
	}
	// The default loader agrees where it has the encoders.
	flt := o.extra || o.kinds != nil
	for _, x := range m.colls() {
		flt = flt || x.Kind == kFloat
	}
	if !flt {
		rec, _, err := rapio.Load(bytes.NewReader(b))
		if err != nil {
			c.Fail("layout-load", "Load refuses a file of an independent encoder: %v", err)
		}
		mustEq(c, "layout-load", "Load and a reader", got, c.mustSnap(rec, "Load"))
	}
	c.Count("encoded_files", 1)
	c.countModel(m)
	c.Distinct(b)
}

// c31golden loads files of an earlier release.
func c31golden(c *C) {
	name := goldenNames()[c.Idx]
	b, _ := golden.ReadFile(path.Join("golden", name+".rap"))
	j, _ := golden.ReadFile(path.Join("golden", name+".model"))
	var want MRec
	if err := gob.NewDecoder(bytes.NewReader(j)).Decode(&want); err != nil && strconv.IntSize == 32 && strings.Contains(err.Error(), `"E" out of range`) {
		if _, _, err := readRec(b); err == nil {
			c.Fail("golden", "%s has enum values beyond 32 bits and is accepted where an int has 32 bits", name)
		}
		return
	} else if err != nil {
		panic(err)
	}
	c.Note("golden file %s", name)
	rec, _, err := readRec(b)
	if err != nil {
		c.Fail("golden", "%s of an earlier release is refused: %v", name, err)
	}
	if err := nearModels(want, c.mustSnap(rec, name)); err != nil {
		c.Fail("golden", "%s of an earlier release is read differently: %v", name, err)
	}
	c.Count("golden_files", 1)
	c.Distinct(b)
	c.countModel(want)
}

// makeGolden writes golden files with the release the program is built with.
func makeGolden(dir string, n int) {
	for i := 0; i < n; i++ {
		r := caseRand(20, "golden", "file", i)
		g := newGen(r)
		w := g.Cfg()
		w.Pos, w.Eul, w.Flt, w.Time, w.Compress = position.StorageTechnique(i%4), euler.StorageTechnique(i/4%3), float.StorageTechnique(i%3), rapio.TimeStorageTechnique(i/2%3), i%5 < 2
		g.MaxCaps = 12
		g.MaxDepth = 3
		var m MRec
		for size := 0; size < 300 || size > 3000; size = len(m.Canon()) {
			m = g.forCfg(w).Shape()
		}
		b, _, err := writeRec(w, m.Build())
		if err != nil {
			fmt.Println(i, "not written:", err)
			continue
		}
		rec, _, err := readRec(b)
		if err != nil {
			fmt.Println(i, "not read:", err)
			continue
		}
		got, err := snap(rec)
		if err != nil {
			fmt.Println(i, err)
			continue
		}
		if _, err := diffRec(w, m, got, "root"); err != nil {
			fmt.Println(i, "skipped:", err)
			continue
		}
		var o bytes.Buffer
		gob.NewEncoder(&o).Encode(got)
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("v2-%02d.rap", i)), b, 0o644)
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("v2-%02d.model", i)), o.Bytes(), 0o644)
	}
}

// --- C32 ---------------------------------------------------------------------

func bsonDouble(v bson.RawValue, want float64) error {
	f, ok := v.DoubleOK()
	if !ok {
		return fmt.Errorf("%v instead of a double", v.Type)
	}
	if !same(f, want) && !(math.IsNaN(f) && math.IsNaN(want)) {
		return fmt.Errorf("%v instead of %v", f, want)
	}
	return nil
}

func bsonVec(v bson.RawValue, f []uint64) error {
	d, ok := v.DocumentOK()
	if !ok {
		return fmt.Errorf("%v instead of a document", v.Type)
	}
	es, err := d.Elements()
	if err != nil {
		return err
	}
	if len(es) != len(f) {
		return fmt.Errorf("%d entries instead of %d", len(es), len(f))
	}
	for i, k := range []string{"x", "y", "z"}[:len(f)] {
		if err := bsonDouble(d.Lookup(k), math.Float64frombits(f[i])); err != nil {
			return fmt.Errorf("%s: %w", k, err)
		}
	}
	return nil
}

// bsonArray gives the elements of an array in order.
func bsonArray(v bson.RawValue, n int) ([]bson.RawValue, error) {
	a, ok := v.ArrayOK()
	if !ok {
		return nil, fmt.Errorf("%v instead of an array", v.Type)
	}
	es, err := a.Elements()
	if err != nil {
		return nil, err
	}
	if len(es) != n {
		return nil, fmt.Errorf("%d elements instead of %d", len(es), n)
	}
	out := make([]bson.RawValue, n)
	for i, e := range es {
		if e.Key() != fmt.Sprint(i) {
			return nil, fmt.Errorf("element %d has index %q", i, e.Key())
		}
		out[i] = e.Value()
	}
	return out, nil
}

func bsonDoc(d bson.Raw, m Meta) error {
	if err := d.Validate(); err != nil {
		return fmt.Errorf("not a valid document: %w", err)
	}
	es, err := d.Elements()
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, e := range es {
		k := e.Key()
		v, ok := m[k]
		if !ok || seen[k] {
			return fmt.Errorf("key %q which the block does not have (or once only)", k)
		}
		seen[k] = true
		if err := bsonVal(e.Value(), v); err != nil {
			return fmt.Errorf("key %q: %w", k, err)
		}
	}
	if len(seen) != len(m) {
		return fmt.Errorf("%d keys instead of %d", len(seen), len(m))
	}
	return nil
}

func bsonVal(b bson.RawValue, v MVal) error {
	switch v.Code {
	case kStr:
		s, ok := b.StringValueOK()
		if !ok || s != v.S {
			return fmt.Errorf("%v %q instead of the string %q", b.Type, s, v.S)
		}
	case kInt, kByte:
		if b.Type != bsontype.Int32 && b.Type != bsontype.Int64 {
			return fmt.Errorf("%v instead of an integer", b.Type)
		}
		if i, ok := b.AsInt64OK(); !ok || i != v.I {
			return fmt.Errorf("%d instead of %d", i, v.I)
		}
	case kF32:
		return bsonDouble(b, float64(math.Float32frombits(uint32(v.F[0]))))
	case kTrue, kFalse:
		t, ok := b.BooleanOK()
		if !ok || t != (v.Code == kTrue) {
			return fmt.Errorf("%v %v instead of %v", b.Type, t, v.Code == kTrue)
		}
	case kV2, kV3:
		return bsonVec(b, v.F)
	case kBlock:
		d, ok := b.DocumentOK()
		if !ok {
			return fmt.Errorf("%v instead of a document", b.Type)
		}
		return bsonDoc(d, v.M)
	case kTime:
		ms, ok := b.DateTimeOK()
		if !ok {
			return fmt.Errorf("%v instead of a date", b.Type)
		}
		want := v.I / 1000
		if d := ms - want; d != 0 && !(v.I%1000 != 0 && (d == 1 || d == -1)) {
			return fmt.Errorf("%d ms instead of %d µs", ms, v.I)
		}
		if diff := float64(ms)*1000 - float64(v.I); math.Abs(diff) >= 1000+math.Abs(float64(v.I))*1e-15 {
			return fmt.Errorf("%d ms instead of %d µs", ms, v.I)
		}
	case kArr + kByte:
		_, data, ok := b.BinaryOK()
		if !ok || !bytes.Equal(data, v.B) {
			return fmt.Errorf("%v %x instead of the bytes %x", b.Type, data, v.B)
		}
	case kArr + kTrue:
		es, err := bsonArray(b, len(v.B))
		if err != nil {
			return err
		}
		for i, e := range es {
			if t, ok := e.BooleanOK(); !ok || t != (v.B[i] == 1) {
				return fmt.Errorf("element %d: %v %v instead of %v", i, e.Type, t, v.B[i] == 1)
			}
		}
	default:
		es, err := bsonArray(b, len(v.A))
		if err != nil {
			return err
		}
		for i, e := range es {
			if err := bsonVal(e, v.A[i]); err != nil {
				return fmt.Errorf("element %d: %w", i, err)
			}
		}
	}
	return nil
}

func nulKey(v MVal) bool {
	for k, x := range v.M {
		if strings.Contains(k, "\x00") || nulKey(x) {
			return true
		}
	}
	for _, x := range v.A {
		if nulKey(x) {
			return true
		}
	}
	return false
}

func (c *C) countVals(v MVal) {
	c.Count("values", 1)
	if v.Code == kTime {
		c.Count("times", 1)
	}
	for _, x := range v.M {
		c.countVals(x)
	}
	for _, x := range v.A {
		c.countVals(x)
	}
}

func (c *C) judgeBSON(b metadata.Block, m Meta, what string) {
	for i, f := range []func() ([]byte, error){
		func() ([]byte, error) { return bson.Marshal(metadata.NewMetadataProperty(b)) },
		func() ([]byte, error) { return metadata.NewMetadataProperty(b).MarshalBSON() },
		func() ([]byte, error) { return bson.Marshal(b.Mapping()) },
	} {
		doc, err := f()
		if err != nil {
			if nulKey(vBlock(m)) { // BSON keys end at a zero byte
				c.Count("nul_keys_refused", 1)
				return
			}
			c.Fail("bson-error", "%s: marshalling fails: %v", what, err)
		}
		if err := bsonDoc(doc, m); err != nil {
			c.Fail("bson", "%s (way %d): %v", what, i, err)
		}
	}
	c.Count("documents", 1)
	c.countVals(vBlock(m))
}

func c32(c *C) {
	g := newGen(c.R)
	g.Text = true
	m := g.Meta(pick(g, 1, 2, 4, 6), pick(g, 3, 8, 30))
	c32run(c, g, m)
}

func c32run(c *C, g *Gen, m Meta) {
	c.Note("%s", trunc(metaStr(m), 6000))
	c.DistinctS("%s", metaStr(m))
	c.Sample(trunc(metaStr(m), 300))
	b := buildMeta(m)
	c.judgeBSON(b, m, "built")
	if after, err := snapMeta(b); err != nil || metaStr(after) != metaStr(m) {
		c.Fail("bson-modified", "marshalling changed the block: %v %s", err, firstDiff(metaStr(m), metaStr(after)))
	}
	if g.p(0.4) {
		f, _ := c.mustWrite(g.CfgRaw(), MRec{Meta: m})
		rec, _, err := readRec(f)
		if err != nil {
			c.Fail("read-error", "%v", err)
		}
		c.judgeBSON(rec.Metadata(), m, "loaded")
		c.Count("loaded", 1)
	}
}

func c32kind(c *C) {
	g := newGen(c.R)
	g.Text = true
	m := Meta{}
	for i := 0; i < 4; i++ {
		m[g.Name()] = g.ValOf(allCodes[c.Idx%len(allCodes)], 3)
	}
	c32run(c, g, m)
}
