package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
)

// C35: the programs which come with the library besides rap-cli.

func init() {
	register(&Prop{
		ID: "C35", Level: "exploration",
		Rule: "distinct by the file measured and the outcome",
		Need: map[string]int64{"examples": 4, "reports": 150, "failures_seen": 60, "captures": 2000},
		Fams: []Family{
			{Name: "example", Quick: 6, Thorough: 60, Run: c35example},
			{Name: "report", Quick: 200, Thorough: 3000, Run: c35report},
			{Name: "v1", Quick: 60, Thorough: 800, Run: c35v1},
			{Name: "refused", Quick: 120, Thorough: 1500, Run: c35refused},
			{Name: "samples", Quick: 10, Thorough: 10, Run: c35sample},
		},
	})
}

func (c *C) sibling(name string) string { return filepath.Join(filepath.Dir(c.Env.CLI), name) }

func c35example(c *C) {
	g := newGen(c.R)
	dir, done := c.caseDir()
	defer done()
	p := filepath.Join(dir, "sin demo.rap")
	if c.Idx%2 == 1 {
		c.own(p, g.bytes(2000+g.n(30000)), 0o644)
	}
	r := c.prog(c.sibling("example"), dir, nil, nil)
	if r.code != 0 {
		c.Fail("example-failed", "the example ends with %d: %s", r.code, trunc(string(r.err), 800))
	}
	b, err := os.ReadFile(p)
	if err != nil {
		c.Fail("example-missing", "%v", err)
	}
	// Nothing of an earlier file is left: a file made where there was none has
	// about the same size.
	fresh := filepath.Join(dir, "fresh")
	if err := os.Mkdir(fresh, 0o777); err != nil {
		panic(err)
	}
	os.Chmod(fresh, 0o777)
	c.prog(c.sibling("example"), fresh, nil, nil)
	if st, err := os.Stat(filepath.Join(fresh, "sin demo.rap")); err != nil || len(b) > int(st.Size())+200 {
		c.Fail("example-rest", "%d bytes where a fresh file has %v (%v)", len(b), st, err)
	}
	rec, _, err := rapio.Load(bytes.NewReader(b))
	if err != nil {
		c.Fail("example-unloadable", "loading what the example wrote: %v", err)
	}
	got := c.mustSnap(rec, "example")
	if v, ok := got.Meta["iterations"]; !ok || v.String() != vInt(1000).String() {
		c.Fail("example-meta", "metadata %s", metaStr(got.Meta))
	}
	var caps []MCap
	for i := 0; i < 1000; i++ {
		t := float64(i) / 100
		caps = append(caps, MCap{T: t, V: [3]float64{0, math.Sin(t * 10), 0}})
	}
	want := MRec{Name: "Sin Wave Demo", Meta: got.Meta,
		Colls: []MColl{{Kind: kPos, Name: "Sin Wave", Caps: caps}},
		Recs:  []MRec{{Name: "Sin Wave", Colls: []MColl{{Kind: kPos, Name: "Position", Caps: caps}}}}}
	if k, err := diffRec(WCfg{Pos: position.Raw32, Time: rapio.BST16, Compress: true}, want, got, "root"); err != nil {
		c.Fail("example-"+k, "%v", err)
	}
	c.Count("examples", 1)
	c.Count("captures", got.numCaps())
	c.Distinct(b)
}

// report is what rap-benchmark prints of a recording.
func report(m MRec) string {
	var s strings.Builder
	fmt.Fprintf(&s, "Name: %s\nCollections: %d\n", m.Name, len(m.Colls))
	for _, x := range m.Colls {
		fmt.Fprintf(&s, "  Name: %s\n  Signature: %s\n  Captures: %d\n", x.Name, "recolude."+x.Kind, len(x.Caps))
	}
	fmt.Fprintf(&s, "Sub Recordings: %d\n", len(m.Recs))
	return s.String()
}

// judgeReport runs rap-benchmark on b; want is what b holds, size what it
// should measure for it.
func (c *C) judgeReport(b []byte, want MRec, size int) {
	dir, done := c.caseDir()
	defer done()
	p := c.own(filepath.Join(dir, "in.rap"), b, 0o444)
	sub := pick(newGen(c.R), "run", "r")
	flag := pick(newGen(c.R), "--file", "-f", "--file", "-file")
	r := c.prog(c.sibling("rap-benchmark"), dir, nil, nil, sub, flag, p)
	if now, err := os.ReadFile(p); err != nil || !bytes.Equal(now, b) {
		c.Fail("input-touched", "the input changed (%v)", err)
	}
	if r.code != 0 {
		c.Fail("bench-failed", "rap-benchmark ends with %d: %s", r.code, trunc(string(r.err), 800))
	}
	w := WCfg{Pos: position.Oct48, Eul: euler.Raw32, Time: rapio.BST16, Compress: true, Order: []int{0, 1, 2, 3, 4}}
	exact := equalModels(want, det(want)) == nil
	rec, _, err := rapio.Load(bytes.NewReader(b))
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	nb, _, err := writeRec(w, rec)
	if err != nil {
		c.Fail("write-error", "%v", err)
	}
	// The first line states how long loading took.
	out := string(r.out)
	i := strings.IndexByte(out, '\n')
	if i < 0 || !strings.HasPrefix(out, "Time to read in: ") {
		c.Fail("bench-time", "output starts with %.80q", out)
	}
	out = out[i+1:]
	one := report(want)
	head := fmt.Sprintf("%sOriginal Size: %d kb\n\n%sNew Size: ", one, size/1024, one)
	if !strings.HasPrefix(out, head) {
		c.Fail("bench-report", "the report differs from the file: %s", firstDiff(head, out))
	}
	var kb int
	if n, err := fmt.Sscanf(out[len(head):], "%d kb\n", &kb); n != 1 || err != nil || out[len(head):] != fmt.Sprintf("%d kb\n", kb) {
		c.Fail("bench-size", "the report ends with %.100q", out[len(head):])
	}
	// Metadata entries are stored in any order, which changes how well they
	// compress.
	slack := 64 + len(nb)/1000
	if !exact {
		slack = 512 + len(nb)/8
	}
	if kb < (len(nb)-slack)/1024 || kb > (len(nb)+slack)/1024 {
		c.Fail("bench-size", "%d kb stated for %d bytes", kb, len(nb))
	}
	c.Count("reports", 1)
	c.Count("captures", want.numCaps())
	c.Max("file_bytes", len(b))
	c.DistinctS(one + fmt.Sprint(size))
}

func (g *Gen) benchRec() MRec {
	g.Kinds = []string{kEvent, kPos, kEuler, kEnum}
	m := g.Rec(3)
	if g.p(0.4) {
		m.Colls = append(m.Colls, g.CollN(pick(g, kEvent, kPos, kEuler, kEnum), 300+g.n(4000)))
	}
	if g.p(0.2) && !g.NoBins {
		m.Bins = append(m.Bins, MBin{Name: "b", Data: g.bytes(g.n(60000))})
	}
	if g.p(0.6) {
		m = det(m)
	}
	return m
}

func c35report(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g.forCfg(w)
	m := g.benchRec()
	c.Note("config %v\nrecording %s", w, trunc(m.Canon(), 4000))
	b, n := c.mustWrite(w, m)
	c.judgeReport(b, m, n)
}

func c35v1(c *C) {
	g := newGen(c.R)
	m := g.v1()
	b := m.file(nil)
	c.Note("version 1 file of %s", m.describe())
	rec, n, err := rapio.Load(bytes.NewReader(b))
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	c.judgeReport(b, c.mustSnap(rec, "version 1 file"), n)
}

func c35sample(c *C) {
	fs := repoSamples()
	if c.Idx >= len(fs) {
		return
	}
	b, err := os.ReadFile(fs[c.Idx])
	if err != nil {
		panic(err)
	}
	rec, n, err := rapio.Load(bytes.NewReader(b))
	if err != nil {
		return
	}
	c.Note("%s", fs[c.Idx])
	c.judgeReport(b, c.mustSnap(rec, "sample"), n)
}

// c35refused: files which cannot be loaded, or hold something the program has
// no encoder for, end in failure and without a result.
func c35refused(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	m := g.benchRec()
	b, _ := c.mustWrite(w, m)
	args := []string{"run", "--file", "in.rap"}
	how := g.n(6)
	switch how {
	case 0, 1:
		b = b[:g.n(len(b))]
	case 2:
		b = g.mutateBytes(b)
	case 3:
		args[2] = "missing.rap"
	case 4:
		// The program measures files without float collections only.
		at := &m
		for len(at.Recs) > 0 && g.p(0.5) {
			at = &at.Recs[g.n(len(at.Recs))]
		}
		at.Colls = append(at.Colls, g.CollN(kFloat, 1+g.n(20)))
		b, _ = c.mustWrite(w, m)
	case 5:
		args = pick(g, []string{"run"}, []string{"run", "--file"}, []string{"run", "--nosuch", "in.rap"}, []string{"run", "--file", "."})
	}
	c.Note("way %d %q, %d bytes %.200x", how, args, len(b), b)
	_, _, lerr := rapio.Load(bytes.NewReader(b))
	if how < 3 && lerr == nil {
		c.Count("still_loadable", 1)
		return
	}
	dir, done := c.caseDir()
	defer done()
	p := c.own(filepath.Join(dir, "in.rap"), b, 0o444)
	r := c.prog(c.sibling("rap-benchmark"), dir, nil, nil, args...)
	if now, err := os.ReadFile(p); err != nil || !bytes.Equal(now, b) {
		c.Fail("input-touched", "the input changed (%v)", err)
	}
	if r.code == 0 {
		c.Fail("bench-accepts", "way %d %q: success although the file cannot be measured (%v): %s", how, args, lerr, trunc(string(r.out), 500))
	}
	if bytes.Contains(r.out, []byte("New Size: ")) {
		c.Fail("bench-accepts", "way %d %q: a result is stated: %s", how, args, trunc(string(r.out), 500))
	}
	c.Count("failures_seen", 1)
	c.DistinctS(fmt.Sprint(how, len(b), args))
}
