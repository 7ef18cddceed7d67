package main

// Exact sizes: collections, dictionaries, arrays, lists and texts of exactly n
// entries or bytes, for every n at or next to a power of two and for round
// numbers, where limits of counters, buffers and blocks lie.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strings"

	rapio "github.com/recolude/rap/format/io"
)

// exactSizes is up to 10000, largeSizes beyond.
var exactSizes = func() []int {
	out := []int{10, 20, 50, 100, 500, 1000, 5000, 10000}
	for k := 4; k <= 13; k++ {
		out = append(out, 1<<k-1, 1<<k, 1<<k+1)
	}
	return out
}()

var largeSizes = []int{16383, 16384, 32768, 65535, 65536}

// exact is a family of cases of exactly so many entries: for each of so many
// kinds every size, in so many variations, large ones in fewer.
func exact(name string, kinds, vary, large int, run func(c *C)) Family {
	n := kinds * (len(exactSizes)*vary + len(largeSizes)*large)
	return Family{Name: name, Quick: n, Thorough: n, Run: func(c *C) {
		d := *c
		d.label = c.ID()
		i := c.Idx / kinds
		turn := 0
		if j := i - len(exactSizes)*vary; j >= 0 {
			d.exact, turn = largeSizes[j%len(largeSizes)], d.R.IntN(6)
		} else {
			d.exact, turn = exactSizes[i%len(exactSizes)], i/len(exactSizes)
		}
		d.Idx = turn*kinds + c.Idx%kinds
		defer func() { c.note = d.note }()
		run(&d)
		c.Count("exact_sizes", 1)
	}}
}

// many is a number of entries: the exact one of the case, or one beyond 65536.
func (c *C) many(g *Gen, extra int) int {
	if c.exact > 0 {
		return c.exact
	}
	return 1<<16 + 1 + g.n(extra)
}

// exactText has n bytes, which tell their place.
func (g *Gen) exactText(n int) string {
	if g.p(0.3) { // of runes
		s := strings.Repeat("é", n/2)
		if n%2 == 1 {
			s += "x"
		}
		return s
	}
	var b strings.Builder
	for k := g.n(1000); b.Len() < n; k++ {
		fmt.Fprintf(&b, "%d ", k)
	}
	return b.String()[:n-1] + "x"
}

// texts are all sorts of strings of exactly n bytes.
func (c *C) exactRec(g *Gen, parts string) MRec {
	n := c.exact
	t := func() string { return g.exactText(n) }
	c.Note("texts of %d bytes", n)
	m := MRec{ID: "r", Name: "n", Meta: Meta{"a": vInt(1)}}
	kid := MRec{ID: "after", Meta: Meta{"z": vStr("end")}}
	has := func(p string) bool { return strings.Contains(parts, p) }
	if has("r") {
		m.ID, kid.ID = t(), t()
		m.Name, kid.Name = t(), t()
		for i, kind := range g.Kinds {
			x := g.CollN(kind, 3)
			x.Name = t()
			if i%2 == 0 {
				m.Colls = append(m.Colls, x)
			} else {
				kid.Colls = append(kid.Colls, x)
			}
		}
	}
	if has("m") {
		kid.Meta["s"], kid.Meta[t()] = vStr(t()), vInt(7)
		if n < 10000 {
			kid.Meta["l"] = MVal{Code: kArr + kStr, A: []MVal{vStr("a"), vStr(t()), vStr("b"), vStr(t())}}
			kid.Meta["b"] = vBlock(Meta{t(): vStr(t())})
		}
	}
	if has("a") {
		kid.Refs = []MRef{{Name: t(), URI: t(), Size: 1, Meta: Meta{t(): vStr(t())}}, {Name: "after", Meta: Meta{}}}
	}
	if has("b") {
		m.Bins = []MBin{{Name: t(), Data: []byte(t()), Meta: Meta{t(): vStr(t())}}, {Name: "after", Data: []byte("x"), Meta: Meta{}}}
	}
	if has("e") {
		k := t()
		m.Colls = append(m.Colls, MColl{Kind: kEvent, Name: t(), Caps: []MCap{{T: 1, N: "short", M: Meta{}}, {T: 2, N: t(), M: Meta{k: vStr(t()), "x": vInt(3)}}, {T: 3, N: "after", M: Meta{"x": vInt(4)}}}})
		kid.Colls = append(kid.Colls, MColl{Kind: kEvent, Name: t(), Caps: []MCap{{T: 1, N: t(), M: Meta{k: vInt(5)}}}})
	}
	if has("s") {
		m.Colls = append(m.Colls, MColl{Kind: kEnum, Name: t(), Members: []string{"short", t(), "after" + t()[5:]}, Caps: []MCap{{T: 1, E: 1}, {T: 2, E: 0}, {T: 3, E: 2}}})
	}
	m.Recs = []MRec{kid}
	c.Count("exact_texts", 1)
	return m
}

func (c *C) textTrip(parts string) {
	g := newGen(c.R)
	g.swells = 0
	c.hugeTrip(g.CfgRaw(), c.exactRec(g, parts), "bytes of text", c.exact)
}

func c01text(c *C) { c.textTrip("rmabes") }
func c02text(c *C) { c.textTrip("mab"); c.Count("values", 1) }
func c03text(c *C) { c.textTrip("ab") }
func c09text(c *C) { c.textTrip("e") }
func c10text(c *C) { c.textTrip("s") }

func (g *Gen) textV1(n int) v1Rec {
	t := func() string { return g.exactText(n) }
	kv := map[string]string{t(): t(), "a": t()}
	e := []v1Event{{1, t(), t(), nil}, {2, t(), "x", map[string]string{t(): t()}}}
	return v1Rec{Name: t(), Meta: kv, Events: e, Subjects: []v1Subject{
		{ID: 5, Name: t(), Events: e, Meta: kv},
		{ID: 6, Name: "last", Pos: []v1Vec{{1, 2, 3, 4}}, Meta: map[string]string{"z": t()}}}}
}

func c17text(c *C) {
	g := newGen(c.R)
	c.loadsV1(g, g.textV1(c.exact), nil)
}

func c18text(c *C) { c.upgradesV1(newGen(c.R).textV1(c.exact)) }

func c21text(c *C) {
	g := jsonGen(c)
	g.swells = 0
	g.Kinds = []string{kPos, kEuler, kEvent}
	c.importsDoc(c.exactRec(g, "rmaes"), "texts", c.exact)
}

func c23text(c *C) {
	g := jsonGen(c)
	g.swells = 0
	g.Kinds = []string{kPos, kEuler, kEvent}
	b, _ := c.mustWrite(WCfg{Compress: g.p(0.5)}, c.exactRec(g, "rmaes"))
	c.judgeExport(g, b)
}

func c24text(c *C) {
	g := jsonGen(c)
	s := vStr(g.exactText(c.exact))
	c.jsonTrip(g, s)
	c.jsonTrip(g, vBlock(Meta{"a": vInt(1), s.S: s, "z": vStr("after"), "l": {Code: kArr + kStr, A: []MVal{s, s}}}))
	c.Count("exact_texts", 1)
}

func c25text(c *C) {
	g := newGen(c.R)
	g.swells = 0
	f := g.csvCols()
	f.rows = g.csvRows(4)
	for i := range f.rows {
		if i != 1 {
			f.rows[i].id, f.rows[i].name = g.exactText(c.exact), g.exactText(c.exact)
		}
	}
	c.csvOK(g, f)
}

func c31text(c *C) {
	g := newGen(c.R)
	g.swells = 0
	w := g.Cfg()
	g.forCfg(w)
	m := c.exactRec(g, "rmabes")
	if c.Idx%2 == 0 {
		c.layoutOf(w, m)
	} else {
		c.acceptsLayout(m, refOpts{cfg: w})
	}
}

func c32text(c *C) {
	g := newGen(c.R)
	g.Text = true
	s := vStr(g.exactText(c.exact))
	c32run(c, g, Meta{"a": vInt(1), "v": s, s.S: vInt(3), "z": vStr("after"), "l": {Code: kArr + kStr, A: []MVal{s, s}}})
}

func c38text(c *C) {
	g := newGen(c.R)
	s := vStr(g.exactText(c.exact))
	c.sameText(s)
	c.sameText(vBlock(Meta{"a": vInt(1), s.S: s, "l": {Code: kArr + kStr, A: []MVal{s, s}}}))
}

// --- streams of exactly so many bytes ------------------------------------------------------

// exactFile is a file of n bytes, or of at least n where over is set.
func (c *C) exactFile(g *Gen, n int, compress, over bool) (WCfg, MRec, []byte) {
	g.Small, g.MaxCaps = true, 4
	w := g.Cfg()
	w.Compress = compress
	m := g.forCfg(w).Rec(g.n(2))
	b, _ := c.mustWrite(w, m)
	if len(b) > n {
		m = MRec{ID: "small", Meta: Meta{}}
		b, _ = c.mustWrite(w, m)
	}
	if over {
		n += 1 + g.n(n)
	}
	size := n - len(b)
	for try := 0; len(b) != n && try < 12; try++ {
		d := g.noise(max(size, 0))
		pad := MBin{Name: "pad", Data: d, Meta: Meta{}}
		p := m
		p.Bins = insertAt(m.Bins, 0, pad)
		b, _ = c.mustWrite(w, p)
		size += n - len(b)
		if len(b) == n || over {
			m = p
			break
		}
	}
	if len(b) == n {
		c.Count("files_of_exact_size", 1)
	} else if !over {
		m, _ = c.mustLoad(b)
	}
	c.Note("file of %d bytes: %.500x", len(b), b)
	return w, m, b
}

// fileSize is large enough for a file to be made that large.
func (c *C) fileSize() int {
	if c.exact < 700 {
		return c.exact * 64
	}
	return c.exact
}

func c11exact(c *C) {
	g := newGen(c.R)
	w, m, b := c.exactFile(g, c.fileSize(), c.Idx%3 == 2, false)
	junk := g.bytes(pick(g, 0, 1, len(b)))
	src := &countReader{r: bytes.NewReader(append(append([]byte{}, b...), junk...))}
	rec, n, err := rapio.NewReader(fullEncoders(), src).Read()
	if err != nil {
		c.Fail("read-error", "a file of %d bytes: %v", len(b), err)
	}
	if !w.Compress && (src.n != len(b) || n != len(b)) {
		c.Fail("consumed", "reading an uncompressed file of %d bytes consumed %d, reports %d", len(b), src.n, n)
	}
	got := c.mustSnap(rec, "read")
	if !w.Compress || len(m.Bins) > 0 {
		if k, err := diffRec(w, m, got, "root"); err != nil {
			c.Fail("rt-"+k, "file of %d bytes: %v", len(b), err)
		}
	}
	c.Count("files", 1)
	c.Distinct(b)
}

func c13exact(c *C) {
	g := newGen(c.R)
	n := c.fileSize()
	_, _, b := c.exactFile(g, n, c.Idx%3 == 2, false)
	want, wn := c.mustLoad(b)
	for _, k := range []int{len(b), c.exact, c.exact / 2, 1 + g.n(2*c.exact)} {
		size := func() int { return max(k, 1) }
		c.sameLoad(fmt.Sprint("chunks of ", k), b, want, wn, &chunkReader{b: b, sizes: size, eofWith: g.p(0.5)})
		c.sameLoad(fmt.Sprint("buffer of ", k), b, want, wn, bufio.NewReaderSize(&chunkReader{b: b, sizes: size}, k))
	}
	for _, k := range []int{len(b) - 1, len(b) / 2, c.exact % len(b), g.n(len(b))} {
		c.faulty(g, b, want, wn, k)
	}
	_, _, b = c.exactFile(g, n, c.Idx%3 == 2, true)
	want, wn = c.mustLoad(b)
	for k := max(n-1, 0); k <= n+1 && k < len(b); k++ {
		c.faulty(g, b, want, wn, k)
		c.sameLoad(fmt.Sprint("split at ", k), b, want, wn, io.MultiReader(bytes.NewReader(b[:k]), bytes.NewReader(b[k:])))
	}
	c.Distinct(b)
}

func c14exact(c *C) {
	g := newGen(c.R)
	n := c.fileSize()
	_, _, b := c.exactFile(g, n, c.Idx%3 == 2, g.p(0.7))
	want, _ := c.mustLoad(b)
	for k := n - 2; k <= n+2 && k < len(b); k++ {
		c.prefix(b, k, want)
	}
	for k := 1; k < len(b); k *= 2 {
		c.prefix(b, k, want)
		c.prefix(b, len(b)-k, want)
	}
	c.Distinct(b)
}

func c16exact(c *C) {
	g := newGen(c.R)
	n := c.fileSize()
	m := g.faultRec(1)
	m.Bins = append(m.Bins, MBin{Name: "pad", Data: g.noise(n + g.n(n)), Meta: Meta{}})
	write, full, _, comp := c.faultable(g, m)
	for mode := 0; mode < faultModes; mode++ {
		for k := n - 1; k <= n+1 && k < len(full); k++ {
			c.faultWrite(write, &faultSink{mode: mode, limit: k, call: -1}, full, comp)
		}
	}
	c.Count("in_binary", 1)
}
