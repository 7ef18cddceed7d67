package main

// Content of more than 16 and 64 MB: families "giant".

import (
	"bytes"
	"fmt"
	"io"

	"github.com/recolude/rap/format/metadata"
)

const (
	mb16 = 1 << 24
	mb64 = 1 << 26
)

// letters is text without any repetition to speak of.
func (g *Gen) letters(n int) string {
	b := g.noise(n)
	for i := range b {
		b[i] = 'a' + b[i]%26
	}
	return string(b)
}

// c01giant has a track or texts of more than 16 MB.
func c01giant(c *C) {
	g := newGen(c.R)
	m := MRec{ID: "giant", Meta: Meta{}}
	w := g.CfgRaw()
	n := mb16 + 1 + g.n(1000)
	what := "bytes of a name"
	switch c.Idx % 3 {
	case 0:
		what, n = "captures of a track", mb16/24+1000+g.n(1000)
		w.Pos = 0
		m.Colls = []MColl{g.CollN(kPos, n)}
	case 1:
		s := g.letters(n)
		m.Name, m.Recs = s, []MRec{{ID: s[1:], Name: "x", Meta: Meta{}}}
		m.Refs = []MRef{{Name: "r", URI: s[2:], Meta: Meta{}}}
	case 2:
		s := g.letters(n)
		m.Colls = []MColl{{Kind: kEvent, Name: "e", Caps: []MCap{{T: 1, N: s, M: Meta{s[1:]: vInt(1)}}, {T: 2, N: "x", M: Meta{}}}},
			{Kind: kEnum, Name: s[2:], Members: []string{"a", s, "b"}, Caps: []MCap{{T: 1, E: 2}}}}
	}
	m.Recs = append(m.Recs, MRec{ID: "after", Meta: Meta{"k": vInt(7)}, Colls: []MColl{g.CollN(kPos, 3)}})
	c.hugeTrip(w, m, what, n)
}

// c02giant has values of more than 16 MB.
func c02giant(c *C) {
	g := newGen(c.R)
	n := mb16 + 1 + g.n(1000)
	m := MRec{ID: "giant", Meta: Meta{"before": vInt(1), "z": vInt(2)}}
	what := "bytes of a value"
	switch c.Idx % 3 {
	case 0:
		m.Meta["v"] = vStr(g.letters(n))
	case 1:
		m.Meta["v"] = vBlock(Meta{"in": vBytes(g.noise(n)), "x": vInt(1)})
	case 2:
		what = "bytes of a key"
		m.Meta["v"] = vBlock(Meta{g.letters(n): vInt(3), "x": vInt(4)})
		m.Meta[g.letters(n+1)] = vStr("v")
	}
	m.Recs = []MRec{{ID: "after", Meta: Meta{"v": vStr("after")}}}
	c.hugeTrip(g.CfgRaw(), m, what, n)
	c.Count("values", 1)
}

// c03giant has binaries of more than 64 MB.
func c03giant(c *C) {
	g := newGen(c.R)
	w := g.CfgRaw()
	w.Compress = c.Idx%2 == 1
	n := mb64 + 1 + g.n(1000)
	d := g.noise(n)
	if w.Compress {
		d = bytes.Repeat(d[:1<<16+77], n/(1<<16)+1)[:n]
	}
	m := MRec{ID: "giant", Meta: Meta{}, Bins: []MBin{{Name: "a", Data: d, Meta: Meta{}}, {Name: "b", Data: []byte("end"), Meta: Meta{}}}}
	c.Max("binary_size", n)
	c.hugeTrip(w, m, "bytes of a binary", n)
	c.Count("binaries", 2)
}

// giantV1 has a version 1 recording whose file is larger than 16 MB.
func (g *Gen) giantV1() v1Rec {
	s := v1Subject{ID: 5, Name: "first"}
	for i := 0; i < 4; i++ {
		s.Events = append(s.Events, v1Event{T: float32(i), Name: "e", Contents: g.letters(mb16 / 2)})
	}
	return v1Rec{Name: "v1", Meta: map[string]string{"a": "b"}, Subjects: []v1Subject{s, {ID: 6, Name: "last", Pos: []v1Vec{{1, 2, 3, 4}}, Meta: map[string]string{"z": "end"}}}}
}

func c17giant(c *C) {
	g := newGen(c.R)
	c.loadsV1(g, g.giantV1(), nil)
}

func c18giant(c *C) {
	g := newGen(c.R)
	c.upgradesV1(g.giantV1())
}

// c13giant delivers a file of more than 16 MB in pieces.
func c13giant(c *C) {
	g := newGen(c.R)
	var b []byte
	if c.Idx%2 == 0 {
		b = g.giantV1().file(nil)
	} else {
		m := MRec{ID: "giant", Meta: Meta{"v": vStr(g.letters(1000))}, Bins: []MBin{{Name: "a", Data: g.noise(mb16 + 5), Meta: Meta{}}}, Recs: []MRec{{ID: "after", Meta: Meta{}}}}
		b, _ = c.mustWrite(WCfg{Compress: c.Idx%4 == 1}, m)
	}
	want, wn := c.mustLoad(b)
	sizes := func() int { return 1 + g.n(1<<17) }
	for name, src := range map[string]io.Reader{
		"pieces": &chunkReader{b: b, sizes: sizes, empty: func() bool { return g.p(0.2) }},
		"whole":  plainReader{bytes.NewReader(b)},
	} {
		c.sameLoad(name, b, want, wn, src)
	}
	c.Max("file_size", len(b))
}

// c34giant stores a value of more than 16 MB.
func c34giant(c *C) {
	g := newGen(c.R)
	n := mb16 + 1 + g.n(1000)
	v := vStr(g.letters(n))
	if c.Idx%2 == 1 {
		v = vBlock(Meta{"b": vBytes(g.noise(n)), "c": vInt(1)})
	}
	var b bytes.Buffer
	k, err := metadata.WriteProprty(&b, v.Prop())
	if err != nil || k != b.Len() {
		c.Fail("write", "writing a value of %d bytes: count %d of %d, %v", n, k, b.Len(), err)
	}
	b.WriteString("after")
	p, err := metadata.ReadProperty(&b)
	if err != nil {
		c.Fail("read-error", "reading a value of %d bytes: %v", n, err)
	}
	got, err := snapVal(p)
	if err != nil || got.String() != v.String() {
		c.Fail("value", "a value of %d bytes is another one after reading (%v)", n, err)
	}
	if b.String() != "after" {
		c.Fail("consumed", "reading a value of %d bytes leaves %.40q instead of what follows", n, b.String())
	}
	c.DistinctS("%d", n)
	c.Count("values", 1)
}

// c25giant is a table of more than 16 MB.
func c25giant(c *C) {
	g := newGen(c.R)
	f := g.csvCols()
	f.rows = g.csvRows(3000)
	for i := range f.rows {
		f.rows[i].id, f.rows[i].name = fmt.Sprint("id", i%7), fmt.Sprint("n", i%11)
		if i%1000 == 999 {
			f.rows[i].name = g.letters(mb16 / 2)
		}
	}
	c.csvOK(g, f)
}

// c28giant is the summary of a file of more than 64 MB.
func c28giant(c *C) {
	g := newGen(c.R)
	m := g.summaryRec()
	m.Bins = append(m.Bins, MBin{Name: "big", Data: g.noise(mb64), Meta: Meta{}})
	m.Recs = append(m.Recs, MRec{Name: "many", Colls: []MColl{g.CollN(kPos, 200)}})
	b, _ := c.mustWrite(WCfg{}, g.finiteTimes(m))
	c.judgeSummary(b)
}

// c30giant runs the commands on more than 16 MB.
func c30giant(c *C) {
	g := newGen(c.R)
	g.Text, g.Finite = true, true
	cmd := []string{"to-json", "from-json", "upgrade"}[c.Idx%3]
	s := g.letters(mb16 + 5)
	var in []byte
	if cmd == "from-json" {
		in = []byte(fmt.Sprintf(`{"id":"a","name":"%s","metadata":{"v":"%s"},"collections":[],"recordings":[{"id":"c","name":"after"}]}`, s[:1000], s))
	} else {
		m := MRec{ID: "giant", Name: "n", Meta: Meta{"v": vStr(s)}, Recs: []MRec{{ID: "after", Meta: Meta{}, Colls: []MColl{g.CollN(kPos, 4)}}}}
		in, _ = c.mustWrite(WCfg{Compress: c.Idx > 2}, m)
	}
	c.Max("input_size", len(in))
	c.runsAlike(g, cmd, in)
}
