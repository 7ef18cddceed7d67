package main

// Sizes beyond 16 bit counters, in the parts which do not store recordings:
// version 1 files, slices, validation, views, JSON, BSON, CSV, summaries,
// texts.

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"github.com/recolude/rap/format/parsing"
)

// hugeWays are the ways in which a recording has very many parts.
var hugeWays = []string{kPos, kEuler, kEvent, kEnum, kFloat, "children", "collections", "keys", "array", "references", "binaries", "members"}

// hugeRec has very many parts of one sort; times are chronological.
func (g *Gen) hugeRec(way string, n int) MRec {
	old := g.Chrono
	defer func() { g.Chrono = old }()
	g.Chrono = true
	m := MRec{ID: "huge", Name: "n", Meta: Meta{"before": vInt(1)}}
	kid := MRec{ID: "after", Name: "a", Meta: Meta{"z": vStr("end")}}
	few := func(i int) MColl {
		x := MColl{Kind: g.Kinds[i%len(g.Kinds)], Name: fmt.Sprint(i)}
		if x.Kind == kEnum {
			x.Members = []string{"a", "b"}
		}
		for j := i % 3; j > 0; j-- {
			k := MCap{T: float64(i - j), V: [3]float64{float64(i), -1, 1}}
			switch x.Kind {
			case kFloat:
				k.V = [3]float64{float64(i % 1000)}
			case kEvent:
				k.V, k.N, k.M = [3]float64{}, "e", Meta{"i": vInt(int32(i % 300))}
			case kEnum:
				k.V, k.E = [3]float64{}, j%2
			}
			x.Caps = append(x.Caps, k)
		}
		return x
	}
	// also is what the entry i of n has: keys of its own once in a while
	also := func(i int) Meta {
		k := Meta{"i": vInt(int32(i % 300))}
		if i%5000 == 4999 || i == n-1 {
			k[fmt.Sprint("own ", i)] = vStr(fmt.Sprint(i))
		}
		return k
	}
	switch way {
	case "children":
		for i := 0; i < n; i++ {
			r := MRec{ID: fmt.Sprint(i), Name: fmt.Sprint(-i), Meta: Meta{}}
			if i%500 == 7 || i == n-1 {
				r.Colls = []MColl{few(i)}
			}
			m.Recs = append(m.Recs, r)
		}
	case "collections":
		for i := 0; i < n; i++ {
			m.Colls = append(m.Colls, few(i))
		}
	case "keys":
		for i := 0; i < n; i++ {
			kid.Meta[fmt.Sprint("k", i)] = vInt(int32(i))
		}
	case "array":
		code := arrayCodes[g.n(len(arrayCodes))]
		kid.Meta["v"] = g.hugeArray(code, n)
	case "references":
		for i := 0; i < n; i++ {
			m.Refs = append(m.Refs, MRef{Name: fmt.Sprint(i), URI: fmt.Sprint("u", i), Size: uint64(i) << g.n(30), Meta: also(i)})
		}
	case "binaries":
		for i := 0; i < n; i++ {
			m.Bins = append(m.Bins, MBin{Name: fmt.Sprint(i), Data: g.bytes(i % 5), Meta: also(i)})
		}
	case "members":
		x := MColl{Kind: kEnum, Name: "states"}
		for i := 0; i < n; i++ {
			x.Members = append(x.Members, fmt.Sprint("m", i))
			if i%100 == 0 || i == n-1 {
				x.Caps = append(x.Caps, MCap{T: float64(i), E: i})
			}
		}
		m.Colls = append(m.Colls, x)
	default:
		if k := g.hugeColl(way, n); g.p(0.5) {
			m.Colls = append(m.Colls, k)
		} else {
			kid.Colls = append(kid.Colls, k)
		}
	}
	m.Recs = append(m.Recs, kid)
	return m
}

func (g *Gen) hugeArray(code byte, n int) MVal {
	switch code {
	case kArr + kByte:
		return vBytes(g.bytes(n))
	case kArr + kTrue:
		b := make([]bool, n)
		for i := range b {
			b[i] = g.p(0.5)
		}
		return vBools(b)
	}
	v := MVal{Code: code}
	for i := 0; i < n; i++ {
		if code == kArr+kBlock {
			v.A = append(v.A, vBlock(Meta{"k": vInt(int32(i))}))
		} else {
			v.A = append(v.A, g.ValOf(code-kArr, 0))
		}
	}
	return v
}

// way picks what is very numerous in this case.
func (c *C) way(g *Gen, ways ...string) (MRec, string, int) {
	way := ways[c.Idx%len(ways)]
	n := c.many(g, 3000)
	if !slices.Contains(ways, kFloat) {
		g.Kinds = []string{kPos, kEuler, kEvent, kEnum}
	}
	m := g.hugeRec(way, n)
	c.Note("%d of %s", n, way)
	c.Max("most_"+strings.ReplaceAll(way, "recolude.", ""), n)
	return m, way, n
}

// --- version 1 ------------------------------------------------------------------------

var hugeV1Ways = []string{"subjects", "positions", "rotations", "life", "subject-events", "events", "data", "metadata"}

func (c *C) hugeV1(g *Gen) v1Rec {
	way := hugeV1Ways[c.Idx%len(hugeV1Ways)]
	n := c.many(g, 3000)
	m := v1Rec{Name: "v1", Meta: map[string]string{"a": "b"}}
	s := v1Subject{ID: 5, Name: "first"}
	last := v1Subject{ID: 6, Name: "last", Pos: []v1Vec{{1, 2, 3, 4}}, Meta: map[string]string{"z": "end"}}
	events := func() (es []v1Event) {
		for i := 0; i < n; i++ {
			e := v1Event{T: float32(i) / 4, Name: fmt.Sprint("e", i%700), Contents: fmt.Sprint(i)}
			if i%3 == 0 {
				e.Data = map[string]string{fmt.Sprint("k", i%500): fmt.Sprint(i)}
			}
			es = append(es, e)
		}
		return
	}
	switch way {
	case "subjects":
		for i := 0; i < n; i++ {
			x := v1Subject{ID: int32(i), Name: fmt.Sprint("s", i)}
			if i%300 == 0 || i == n-1 {
				x.Pos = []v1Vec{{float32(i), 1, 2, 3}, {float32(i + 1), 1, 2, 3}}
			}
			m.Subjects = append(m.Subjects, x)
		}
	case "positions", "rotations":
		for i := 0; i < n; i++ {
			v := v1Vec{float32(i) / 4, float32(g.n(360)), float32(g.n(100)) / 4, float32(i % 360)}
			if way == "positions" {
				s.Pos = append(s.Pos, v)
			} else {
				s.Rot = append(s.Rot, v)
			}
		}
	case "life":
		for i := 0; i < n; i++ {
			s.Life = append(s.Life, v1Life{float32(i) / 4, int32(g.n(4))})
		}
	case "subject-events":
		s.Events = events()
	case "events":
		m.Events = events()
	case "data", "metadata":
		kv := map[string]string{}
		for i := 0; i < n; i++ {
			kv[fmt.Sprint("k", i)] = fmt.Sprint("v", i)
		}
		if way == "data" {
			m.Events = []v1Event{{1, "e", "", kv}}
		} else {
			m.Meta, s.Meta = kv, kv
		}
	}
	m.Subjects = append(m.Subjects, s, last)
	c.Max("most_"+way, n)
	return m
}

func c17huge(c *C) {
	g := newGen(c.R)
	c.loadsV1(g, c.hugeV1(g), nil)
}

func c18huge(c *C) { c.upgradesV1(c.hugeV1(newGen(c.R))) }

// --- slices, validation, views ------------------------------------------------------------

func c19huge(c *C) {
	g := newGen(c.R)
	m, _, _ := c.way(g, kPos, kEuler, kEvent, kEnum, kFloat, "children", "collections", "references", "binaries", "members")
	rec := m.Build()
	a, b := g.bound(m), g.bound(m)
	if a > b {
		a, b = b, a
	}
	switch c.Idx / 10 % 3 {
	case 0:
		a = math.Inf(-1)
	case 1:
		b = math.Inf(1)
	}
	c.checkSlice(g, m, rec, a, b)
}

func c20huge(c *C) {
	g := newGen(c.R)
	m, _, _ := c.way(g, kPos, kEuler, kEvent, kEnum, kFloat, "children", "collections")
	m = g.finiteTimes(m)
	m.walk(func(r *MRec) {
		for i := range r.Colls {
			caps := r.Colls[i].Caps
			sort.SliceStable(caps, func(a, b int) bool { return caps[a].T < caps[b].T })
		}
	})
	c.validates(m)
	// The last collection has the extreme times, and one descent at its end.
	var last *MColl
	m.walk(func(r *MRec) {
		for i := range r.Colls {
			if x := &r.Colls[i]; len(x.Caps) > 1 {
				last = x
			}
		}
	})
	if last == nil {
		return
	}
	n := len(last.Caps)
	if g.p(0.5) {
		last.Caps[n-1].T = math.Max(1e9, last.Caps[n-2].T+1000)
	} else {
		last.Caps[0].T = math.Min(-1e9, last.Caps[1].T-1000)
	}
	c.extends(m)
	last.Caps[n-1].T = math.Nextafter(last.Caps[n-2].T, math.Inf(-1))
	c.validates(m)
	c.Count("invalid_one_place", 1)
}

func c33huge(c *C) {
	g := newGen(c.R)
	g.Finite = true
	kind := allKinds[c.Idx%5]
	n := c.many(g, 500)
	m := MRec{Name: "x", Colls: []MColl{g.hugeColl(kind, n)}}
	if kind == kEnum && c.Idx%2 == 1 {
		for i := 0; i < n; i++ {
			m.Colls[0].Members = append(m.Colls[0].Members, fmt.Sprint("m", i))
		}
	}
	c.consistent(g, m)
}

// --- JSON ------------------------------------------------------------------------------------

func jsonGen(c *C) *Gen {
	g := newGen(c.R)
	g.Text, g.Finite, g.Plain = true, true, true
	return g
}

func c21huge(c *C) {
	g := jsonGen(c)
	m, way, n := c.way(g, kPos, kEuler, kEvent, kEnum, "children", "collections", "keys", "array", "references")
	if way == kEnum { // members are those which are captured
		x := MColl{Kind: kEnum, Name: "states"}
		k := pick(g, 5, n)
		for i := 0; i < k; i++ {
			x.Members = append(x.Members, fmt.Sprint("m", i))
		}
		for i := 0; i < n; i++ {
			x.Caps = append(x.Caps, MCap{T: float64(i), E: i * 7 % k})
		}
		m.Colls, m.Recs = []MColl{x}, nil
	}
	for i := range m.Refs {
		m.Refs[i].Size = 1<<53 + 1 + 2*uint64(i)
	}
	c.importsDoc(m, way, n)
}

// importsDoc imports the document that describes m.
func (c *C) importsDoc(m MRec, way string, n int) {
	text := importText(m)
	c.Distinct(text)
	c.Count("documents", 1)
	parsed, err := decodeJSON(text)
	if err != nil {
		panic(err)
	}
	rec, err := parsing.FromJSON(text)
	if err != nil {
		c.Fail("refused", "a valid document of %d %s is refused: %v", n, way, err)
	}
	got := c.mustSnap(rec, "imported")
	if err := matchDoc(parsed, got); err != nil {
		c.Fail("content", "the recording is not what the document of %d %s describes: %v", n, way, err)
	}
	c.imported(got)
}

func c23huge(c *C) {
	g := jsonGen(c)
	m, _, _ := c.way(g, kPos, kEuler, kEvent, kEnum, "children", "collections", "keys", "array", "references", "members")
	b, _ := c.mustWrite(WCfg{Compress: g.p(0.5)}, m)
	c.judgeExport(g, b)
}

func c24huge(c *C) {
	g := jsonGen(c)
	n := c.many(g, 3000)
	v := MVal{}
	if i := c.Idx % (len(arrayCodes) + 2); i < len(arrayCodes) {
		v = g.hugeArray(arrayCodes[i], n)
	} else if i == len(arrayCodes) {
		m := Meta{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = vInt(int32(i))
		}
		v = vBlock(m)
	} else {
		v = vStr(strings.Repeat("text ", n))
	}
	c.Count("huge_values", 1)
	c.jsonTrip(g, v)
	if v.Code == kBlock {
		return
	}
	c.jsonTrip(g, vBlock(Meta{"a": vInt(1), "v": v, "z": vStr("after")}))
}

// --- BSON, text -------------------------------------------------------------------------------

func c32huge(c *C) {
	g := newGen(c.R)
	g.Text = true
	n := c.many(g, 3000)
	m := Meta{"a": vInt(1), "z": vStr("after")}
	if i := c.Idx % (len(arrayCodes) + 1); i < len(arrayCodes) {
		m["v"] = g.hugeArray(arrayCodes[i], n)
	} else {
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = vInt(int32(i))
		}
	}
	c.Count("huge_values", 1)
	c32run(c, g, m)
}

func c38huge(c *C) {
	g := newGen(c.R)
	n := c.many(g, 3000)
	codes := []byte{kStr, kInt, kF32, kV2, kV3, kBlock, kTime}
	v := MVal{}
	if i := c.Idx % (len(codes) + 1); i < len(codes) {
		v = g.hugeArray(kArr+codes[i], n)
	} else {
		m := Meta{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = vInt(int32(i))
		}
		v = vBlock(m)
	}
	c.Note("%d elements of kind %d", n, v.Code)
	c.sameText(v)
	c.Count("huge_values", 1)
	c.DistinctS("%d %d", n, v.Code)
}

// --- programs -----------------------------------------------------------------------------------

func c25huge(c *C) {
	g := newGen(c.R)
	f := g.csvCols()
	n := c.many(g, 500)
	if c.exact > 0 {
		g.swells = 0
	}
	if c.Idx%4 == 3 { // very many columns
		extra := make([]string, n)
		for i := range extra {
			extra[i] = fmt.Sprint("c", i)
		}
		at := pick(g, 0, 1, len(f.kind)-1)
		f.kind = append(append(append([]string{}, f.kind[:at]...), extra...), f.kind[at:]...)
		f.cols = append(append(append([]string{}, f.cols[:at]...), extra...), f.cols[at:]...)
		f.rows = g.csvRows(5)
		c.Max("most_columns", n)
		c.csvOK(g, f)
		return
	}
	f.rows = g.csvRows(n)
	k := n
	if c.Idx%4 == 0 {
		k = 3
	}
	for i := range f.rows {
		f.rows[i].id, f.rows[i].name = fmt.Sprint("id", i*31%k), fmt.Sprint("n", i*31%k)
		if c.Idx%4 == 2 {
			f.rows[i].id = "one"
		}
	}
	c.Max("most_rows", n)
	c.Max("most_subjects", k)
	c.csvOK(g, f)
}

func c28huge(c *C) {
	g := newGen(c.R)
	g.Finite = true
	m, _, _ := c.way(g, kPos, kEuler, kEvent, kEnum, "children", "collections")
	b, _ := c.mustWrite(WCfg{Compress: g.p(0.5)}, g.finiteTimes(m))
	c.judgeSummary(b)
}

// --- layout ---------------------------------------------------------------------------------------

func c31huge(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g.forCfg(w)
	m, _, _ := c.way(g, hugeWays...)
	if c.Idx/len(hugeWays)%2 == 0 {
		c.layoutOf(w, m)
	} else {
		c.acceptsLayout(m, refOpts{cfg: w})
	}
}
