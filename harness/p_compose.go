package main

// C40: what a conversion of the command line tool produces can be given to
// any of its commands, and each states and keeps the same content.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C40",
		Level: "exploration",
		Rule:  "every file in a chain of conversions is loaded by the library, summarised, exported and upgraded; each stage agrees with the content of the previous one (within the resolution of the conversion)",
		Assumptions: []string{
			"captures are chronological and finite, as compact timestamps require",
		},
		Fams: []Family{
			{"csv", 30, 300, c40csv},
			{"json", 30, 300, c40json},
			{"old", 30, 300, c40old},
			{"recording", 30, 300, c40rec},
		},
		Need: map[string]int64{"chains": 100, "upgrades": 150, "summaries": 250, "exported": 150, "captures": 500},
	})
}

// stage observes one file of a chain: the library, summarize and to-json have
// to agree on what it holds.
func (c *C) stage(g *Gen, what string, file []byte) MRec {
	m, _ := c.mustRead(file)
	if !strings.Contains(m.Name, "\n") {
		c.judgeSummary(file)
	}
	if g.p(0.7) {
		c.judgeExport(g, file)
	}
	c.Count("stages", 1)
	c.Count("captures", m.numCaps())
	return m
}

func (c *C) chain(g *Gen, what string, file []byte) {
	m := c.stage(g, what, file)
	for i := 1 + g.n(3); i > 0; i-- {
		next := c.upgrade(file)
		got := c.stage(g, what, next)
		if k, err := diffRec(upgradeCfg, m, got, "root"); err != nil {
			c.Fail("upgrade-"+k, "%s, upgraded: %v", what, err)
		}
		c.Count("upgrades", 1)
		file, m = next, got
	}
	c.Count("chains", 1)
}

func c40csv(c *C) {
	g := newGen(c.R)
	g.Text, g.Finite, g.Plain, g.Chrono = true, true, true, true
	f := g.csvCols()
	f.rows = g.csvRows(1 + g.n(40))
	t := g.Times(len(f.rows))
	sort.Float64s(t)
	x, y, z := g.Coords(len(t)), g.Coords(len(t)), g.Coords(len(t))
	for i := range f.rows {
		for k, v := range []float64{t[i], x[i], y[i], z[i]} {
			f.rows[i].num[k] = g.csvNum(v)
		}
	}
	text := f.text(g)
	c.Note("%s", trunc(string(text), 4000))
	c.Distinct(text)
	r := c.fromCSV(text)
	if r.code != 0 {
		c.Fail("refused", "valid rows are refused: %s", trunc(string(r.err), 300))
	}
	c.judgeCSV(f, r.out)
	c.chain(g, "a table", r.out)
}

func c40json(c *C) {
	g := newGen(c.R)
	g.Text, g.Finite, g.Plain, g.Chrono = true, true, true, true
	text := g.text(g.jdoc(g.n(3), true))
	c.Note("%s", trunc(string(text), 4000))
	c.Distinct(text)
	dir, done := c.caseDir()
	defer done()
	p := c.own(filepath.Join(dir, "in.json"), text, 0o444)
	args := []string{"from-json", "--in", p}
	out := filepath.Join(dir, "out.rap")
	toFile := g.p(0.5)
	if toFile {
		args = append(args, "--out", out)
	}
	r := c.cli(dir, nil, nil, args...)
	if r.code != 0 {
		c.Fail("refused", "a valid document is refused: %s", trunc(string(r.err), 300))
	}
	file := r.out
	if toFile {
		var err error
		if file, err = os.ReadFile(out); err != nil {
			c.Fail("no-output", "%v", err)
		}
	}
	want := c.libResult("from-json", text)
	got, _ := c.mustRead(file)
	mustEq(c, "library", "from-json against the library", want, got)
	c.chain(g, "a document", file)
}

func c40old(c *C) {
	g := newGen(c.R)
	g.Chrono, g.Plain = true, true
	m := g.v1()
	b := m.file(g)
	c.Note("version 1 file of %s", m.describe())
	c.Distinct(b)
	out := c.upgrade(b)
	got, _ := c.mustRead(out)
	if k, err := m.check(&upgradeCfg, got); err != nil {
		c.Fail("upgrade-"+k, "%v", err)
	}
	c.chain(g, "a version 1 file", out)
}

func c40rec(c *C) {
	g := newGen(c.R)
	g.Kinds = loadKinds
	w := g.CfgRaw()
	w.Pos, w.Eul = 1, 1
	g.Text, g.Finite = true, true
	m := g.forCfg(upgradeCfg).Rec(2)
	g.NoRefs = false
	file, _ := c.mustWrite(w, m)
	c.Note("%s", trunc(m.Canon(), 4000))
	c.Distinct(file)
	c.chain(g, fmt.Sprintf("a recording written by %v", w), file)
}
