package main

// The command line tool: CSV import (C25), summary (C28), behaviour of every
// command towards its files and streams (C30). The tool always runs as an
// unprivileged user in a directory of its own.

import (
	"bytes"
	"compress/flate"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/parsing"
)

func init() {
	register(&Prop{
		ID: "C25", Level: "exploration",
		Rule: "CSV files written by an independent writer are converted, and the children of the result are compared with the rows; damaged files have to be refused without output; distinct counts distinct files",
		Need: map[string]int64{"rows": 10000, "children": 2000, "refused": 300, "interleaved": 300},
		Fams: []Family{
			{Name: "rows", Quick: 2700, Thorough: 20000, Run: c25},
			{Name: "refuse", Quick: 1500, Thorough: 8000, Run: c25bad},
			{Name: "inside", Quick: 4000, Thorough: 40000, Run: c25inside},
			{Name: "large", Quick: 18, Thorough: 100, Run: c25large},
			{Name: "huge", Quick: 4, Thorough: 24, Run: c25huge},
			exact("exact", 4, 1, 0, c25huge),
			exact("exact-text", 1, 1, 1, c25text),
			{Name: "giant", Quick: 1, Thorough: 4, Run: c25giant},
		},
	})
	register(&Prop{
		ID: "C28", Level: "exploration",
		Rule: "files are summarised and every line is compared with totals counted independently over the recording; distinct counts distinct recordings",
		Need: map[string]int64{"summaries": 800, "durations": 400, "megabytes": 3, "kilobytes": 100, "without_captures": 30},
		Fams: []Family{
			{Name: "v2", Quick: 2700, Thorough: 20000, Run: c28},
			{Name: "v1", Quick: 450, Thorough: 4000, Run: c28v1},
			{Name: "inside", Quick: 4000, Thorough: 40000, Run: c28inside},
			{Name: "large", Quick: 36, Thorough: 200, Run: c28large},
			{Name: "huge", Quick: 6, Thorough: 48, Run: c28huge},
			exact("exact", 6, 1, 0, c28huge),
			{Name: "giant", Quick: 1, Thorough: 4, Run: c28giant},
			{Name: "samples", Quick: len(repoSamples()), Thorough: len(repoSamples()), Run: c28sample},
		},
	})
	register(&Prop{
		ID: "C30", Level: "exploration",
		Rule: "every command is run on valid, damaged and absent input, from files and streams, to files and streams that may fail; status, message, output and the files around it are checked; distinct counts distinct inputs and invocations",
		Need: map[string]int64{"equal": 300, "refused": 400, "full": 100, "replaced": 80, "kept": 150},
		Fams: []Family{
			{Name: "equal", Quick: 480, Thorough: 4000, Run: c30equal},
			{Name: "giant", Quick: 3, Thorough: 12, Run: c30giant},
			{Name: "refuse", Quick: 1500, Thorough: 8000, Run: c30refuse},
			{Name: "full", Quick: 390, Thorough: 2000, Run: c30full},
			{Name: "inside", Quick: 400, Thorough: 4000, Run: c30inside},
			{Name: "output", Quick: 780, Thorough: 5000, Run: c30output},
		},
	})
}

// --- C25 -----------------------------------------------------------------------

type csvRow struct {
	id, name string
	num      [4]string // time x y z
}

func (g *Gen) csvText() string {
	switch g.n(8) {
	case 0:
		return pick(g, "", " ", "0", "a,b", `say "hi"`, "line\nbreak", " lead", "trail ", "a;b", "\t", "'", "#x", "日本", "id", "time", "\xff", "a\xc3", "\xff\xfe", "é", "e\u0301", "x\x00y", "a\rb", "c\r", "\u00a0", "1.0", "01", "A")
	case 1:
		return strings.ReplaceAll(g.utf8(), "\r", "")
	}
	return pick(g, "a", "b", "c", "bob", "alice", "0", "1")
}

func (g *Gen) csvNum(x float64) string {
	s := strconv.FormatFloat(x, pick(g, byte('g'), 'g', 'f', 'e'), -1, 64)
	switch g.n(14) {
	case 0:
		s = " " + s
	case 1:
		s = s + "  "
	case 2:
		if x > 0 && !strings.HasPrefix(s, "+") {
			s = "+" + s
		}
	case 3:
		s = strconv.FormatFloat(x, 'x', -1, 64)
	}
	return s
}

func csvField(g *Gen, s string) string {
	need := strings.ContainsAny(s, "\",\n\r") || strings.HasPrefix(s, " ") && strings.Contains(s, `"`)
	if need || g.p(0.1) {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

type csvFile struct {
	cols []string // header as written
	kind []string // what each column is
	rows []csvRow
}

func (g *Gen) csvCols() csvFile {
	f := csvFile{kind: []string{"time", "id", "name", "x", "y", "z"}}
	for i := g.n(4); i > 0; i-- {
		f.kind = append(f.kind, pick(g, "comment", "w", "Time", "ID", "X", "timestamp", "", "xx", "x1", "_x", "x.", `"x`, `"x"`, "'y'", "pos.x", "x (m)", "x,y", "[z]", "time2", "time (s)", "id#", "#id", "nam", "n ame", "tim", "i d", "TIME", "Name"))
	}
	f.kind = permuted(g, f.kind)
	for _, k := range f.kind {
		if g.p(0.3) {
			k = " " + k
		}
		if g.p(0.1) {
			k += "\t"
		}
		f.cols = append(f.cols, k)
	}
	return f
}

func (f csvFile) text(g *Gen) []byte {
	nl := pick(g, "\n", "\n", "\r\n")
	var lines []string
	line := func(fields []string) {
		for i := range fields {
			fields[i] = csvField(g, fields[i])
		}
		lines = append(lines, strings.Join(fields, ","))
	}
	line(append([]string{}, f.cols...))
	for _, r := range f.rows {
		var fs []string
		for _, k := range f.kind {
			switch k {
			case "time":
				fs = append(fs, r.num[0])
			case "x":
				fs = append(fs, r.num[1])
			case "y":
				fs = append(fs, r.num[2])
			case "z":
				fs = append(fs, r.num[3])
			case "id":
				fs = append(fs, r.id)
			case "name":
				fs = append(fs, r.name)
			default:
				fs = append(fs, pick(g, "", "1", "x,y", "not a number"))
			}
		}
		line(fs)
	}
	s := strings.Join(lines, nl)
	if g.p(0.8) {
		s += nl
	}
	return []byte(s)
}

func (g *Gen) csvRows(n int) []csvRow {
	k := 1 + g.n(6)
	if many, ok := g.swell(0.3, 300); ok {
		k = many
		n += g.n(3 * k)
	}
	if many, ok := g.swell(0.3, 3000); ok {
		n = many
	}
	ids := make([][2]string, k)
	for i := range ids {
		ids[i] = [2]string{g.csvText(), g.csvText()}
		if i > 0 && g.p(0.4) { // same id, other name, or the other way round
			ids[i][g.n(2)] = ids[i-1][0]
		}
		if i > 0 && g.p(0.2) { // concatenations must not be confused
			ids[i] = [2]string{ids[i-1][0] + "a", "b"}
			ids[i-1] = [2]string{ids[i-1][0], "ab"}
		}
	}
	var out []csvRow
	for i := 0; i < n; i++ {
		r := csvRow{id: ids[0][0], name: ids[0][1]}
		j := g.n(k)
		r.id, r.name = ids[j][0], ids[j][1]
		for a := range r.num {
			v := pick(g, float64(g.n(100)), g.r.Float64(), (g.r.Float64()-0.5)*1000, float64(i))
			if g.p(0.05) {
				v = pick(g, 1e300, -1e-300, 0.1+0.2, math.Copysign(0, -1), 123456789.123456789, math.Inf(1), math.NaN())
			}
			r.num[a] = g.csvNum(v)
		}
		out = append(out, r)
	}
	return out
}

func canonNaN(f float64) float64 {
	if math.IsNaN(f) {
		return math.NaN()
	}
	return f
}

// judgeCSV compares the children with the rows.
func (c *C) judgeCSV(f csvFile, out []byte) {
	rec, _, err := rapio.Load(bytes.NewReader(out))
	if err != nil {
		c.Fail("unreadable", "the output of %d bytes cannot be read: %v", len(out), err)
	}
	c.judgeRows(f, c.mustSnap(rec, "converted"))
}

func (c *C) judgeRows(f csvFile, m MRec) {
	key := func(id, name string) string { return fmt.Sprintf("%q %q", id, name) }
	want := map[string][]MCap{}
	last := ""
	for _, r := range f.rows {
		k := key(r.id, r.name)
		var v [4]float64
		for i := range v {
			x, err := strconv.ParseFloat(strings.TrimSpace(r.num[i]), 64)
			if err != nil {
				panic(err)
			}
			v[i] = canonNaN(x)
		}
		if _, ok := want[k]; ok && last != k {
			c.Count("interleaved", 1)
		}
		last = k
		want[k] = append(want[k], MCap{T: v[0], V: [3]float64{v[1], v[2], v[3]}})
	}
	c.Count("rows", len(f.rows))
	c.Count("children", len(want))
	if len(m.Colls)+len(m.Bins)+len(m.Refs)+len(m.Meta) != 0 {
		c.Fail("root", "the root carries content of its own: %s", trunc(m.Canon(), 500))
	}
	seen := map[string]bool{}
	for _, r := range m.Recs {
		k := key(r.ID, r.Name)
		if seen[k] {
			c.Fail("twice", "two children are (id, name) = %s", k)
		}
		seen[k] = true
		w, ok := want[k]
		if !ok {
			c.Fail("invented", "no row is of the child (id, name) = %s", k)
		}
		if len(r.Colls) != 1 || r.Colls[0].Kind != kPos || len(r.Meta)+len(r.Bins)+len(r.Refs)+len(r.Recs) != 0 {
			c.Fail("shape", "child %s: %s", k, trunc(r.Canon(), 500))
		}
		got := r.Colls[0].Caps
		if len(got) != len(w) {
			c.Fail("rows", "child %s holds %d captures, there are %d rows", k, len(got), len(w))
		}
		for i := range got {
			for _, p := range [][2]float64{{w[i].T, got[i].T}, {w[i].V[0], got[i].V[0]}, {w[i].V[1], got[i].V[1]}, {w[i].V[2], got[i].V[2]}} {
				if math.Float64bits(p[0]) != math.Float64bits(canonNaN(p[1])) {
					c.Fail("values", "child %s row %d: written %v, converted %v", k, i, w[i], got[i])
				}
			}
		}
	}
	if len(seen) != len(want) {
		c.Fail("lost", "%d children for %d distinct (id, name) pairs", len(seen), len(want))
	}
}

func (c *C) fromCSV(text []byte) cliRes {
	dir, done := c.caseDir()
	defer done()
	p := c.own(filepath.Join(dir, "in.csv"), text, 0o444)
	r := c.cli(dir, nil, nil, "from-csv", "--file", p)
	if now, err := os.ReadFile(p); err != nil || !bytes.Equal(now, text) {
		c.Fail("input-touched", "the input changed (%v)", err)
	}
	return r
}

func (c *C) csvOK(g *Gen, f csvFile) {
	text := f.text(g)
	c.Note("%s", trunc(string(text), 4000))
	c.Distinct(text)
	r := c.fromCSV(text)
	if r.code != 0 {
		c.Fail("refused", "a valid file is refused (status %d): %s", r.code, trunc(string(r.err), 300))
	}
	c.judgeCSV(f, r.out)
}

func c25(c *C) {
	g := newGen(c.R)
	f := g.csvCols()
	f.rows = g.csvRows(pick(g, 0, 1, 2, 5, g.n(40), g.n(40)))
	c.csvOK(g, f)
}

func c25large(c *C) {
	g := newGen(c.R)
	f := g.csvCols()
	f.rows = g.csvRows(5000 + g.n(5000))
	for i := range f.rows {
		f.rows[i].id = fmt.Sprint(g.n(300))
	}
	c.csvOK(g, f)
}

func c25bad(c *C) {
	g := newGen(c.R)
	f := g.csvCols()
	f.rows = g.csvRows(1 + g.n(8))
	var text []byte
	if g.p(0.2) {
		f.rows = nil // a missing column is missing without rows, too
	}
	n := 5
	if f.rows == nil {
		n = 1
	}
	switch g.n(n) {
	case 0: // without a column
		gone := pick(g, "time", "id", "name", "x", "y", "z")
		for i := range f.kind {
			if f.kind[i] == gone {
				f.kind[i] = "other"
				f.cols[i] = pick(g, "other", strings.ToUpper(gone), gone+"s", "")
			}
		}
		text = f.text(g)
		if f.rows == nil && g.p(0.3) {
			text = nil
		}
	case 1: // not a number
		f.rows[g.n(len(f.rows))].num[g.n(4)] = pick(g, "", "abc", "1,5", "1.2.3", "0x", "--1", "1e", "1e999", "12a", "1 2", "½", "-")
		text = f.text(g)
	case 2: // a row that is too short or too long
		for i := range f.rows {
			f.rows[i].id, f.rows[i].name = "a", "b"
		}
		text = append(bytes.TrimRight(f.text(g), "\r\n"), pick(g, ",7\n", ",7,8\n", "\n1,2\n", "\nx\n")...)
	case 3: // stray quotes
		text = append(bytes.TrimRight(f.text(g), "\r\n"), "\n\"1\"2,3,4,5,6,7\n"...)
	case 4: // an unterminated quote
		text = append(bytes.TrimRight(f.text(g), "\r\n"), "\n\"1,2,3,4,5,6\n"...)
	}
	c.Note("%s", trunc(string(text), 4000))
	c.Distinct(text)
	r := c.fromCSV(text)
	if r.code == 0 {
		c.Fail("accepted", "an unusable file is converted to %d bytes", len(r.out))
	}
	if len(r.out) != 0 {
		c.Fail("output", "the file is refused (%s), but %d bytes were written", trunc(string(r.err), 200), len(r.out))
	}
	c.Count("refused", 1)
}

// --- C28 -------------------------------------------------------------------------

func (c *C) summarise(file []byte) string {
	dir, done := c.caseDir()
	defer done()
	p := c.own(filepath.Join(dir, "a.rap"), file, 0o444)
	r := c.cli(dir, nil, nil, "summarize", "--file", p)
	if r.code != 0 {
		c.Fail("refused", "summarize ends with %d: %s", r.code, trunc(string(r.err), 300))
	}
	return string(r.out)
}

func (c *C) judgeSummary(file []byte) {
	rec, _, err := rapio.Load(bytes.NewReader(file))
	if err != nil {
		c.Fail("load", "%v", err)
	}
	m := c.mustSnap(rec, "loaded")
	c.DistinctS("%d %s", len(file), m.Canon())
	c.judgeSummaryText(c.summarise(file), m, int64(len(file)))
}

func (c *C) judgeSummaryText(out string, m MRec, size int64) {
	c.Count("summaries", 1)
	show := trunc(out, 1500)
	rest, ok := strings.CutPrefix(out, "Name:")
	if !ok {
		c.Fail("name", "no name comes first: %s", show)
	}
	if m.Name == "" {
		line, _, _ := strings.Cut(rest, "\n")
		if strings.TrimSpace(line) == "" {
			c.Fail("name", "nothing stands for an empty name: %s", show)
		}
		rest = rest[len(line):]
	} else {
		rest, ok = strings.CutPrefix(strings.TrimLeft(rest, " "), strings.TrimLeft(m.Name, " "))
		if !ok {
			c.Fail("name", "the name is %q: %s", m.Name, show)
		}
	}
	if !strings.HasPrefix(rest, "\n") {
		c.Fail("name", "the name is %q: %s", m.Name, show)
	}
	got := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(rest), "\n") {
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			c.Fail("line", "line %q of %s", l, show)
		}
		if _, ok := got[k]; ok {
			c.Fail("line", "%q appears twice: %s", k, show)
		}
		got[k] = strings.TrimSpace(v)
	}
	count := map[string]int{}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range m.colls() {
		count[x.Kind] += len(x.Caps)
		for _, k := range x.Caps {
			lo, hi = math.Min(lo, k.T), math.Max(hi, k.T)
		}
	}
	for k, w := range map[string]int{
		"Sub Recordings":          len(m.Recs),
		"Total Position Captures": count[kPos],
		"Total Euler Captures":    count[kEuler],
		"Total Event Captures":    count[kEvent],
		"Total Enum Captures":     count[kEnum],
		"Total Other Captures":    count[kFloat],
	} {
		if got[k] != strconv.Itoa(w) {
			c.Fail("count", "%s: reported %q, there are %d", k, got[k], w)
		}
	}
	// Size.
	s := got["File Size"]
	unit, dec := 1.0, 0.0
	num := ""
	switch {
	case strings.HasSuffix(s, "kb"):
		unit, dec, num = 1024, 0.00501, strings.TrimSuffix(s, "kb")
		c.Count("kilobytes", 1)
	case strings.HasSuffix(s, "mb"):
		unit, dec, num = 1<<20, 0.00501, strings.TrimSuffix(s, "mb")
		c.Count("megabytes", 1)
	default:
		num = strings.TrimRight(s, "db ")
	}
	v, err := strconv.ParseFloat(strings.TrimSpace(num), 64)
	if err != nil || math.Abs(v*unit-float64(size)) > dec*unit {
		c.Fail("size", "reported %q for a file of %d bytes", s, size)
	}
	if m.numCaps() == 0 {
		hi, lo = 0, 0
		c.Count("without_captures", 1)
	}
	if hi >= lo && !math.IsInf(hi-lo, 0) {
		d, err := strconv.ParseFloat(strings.TrimSuffix(got["Duration"], "s"), 64)
		if err != nil || math.Abs(d-(hi-lo)) > 0.00501+1e-12*(hi-lo) {
			c.Fail("duration", "reported %q, from %v to %v it is %v", got["Duration"], lo, hi, hi-lo)
		}
		c.Count("durations", 1)
	}
}

func (g *Gen) summaryRec() MRec {
	g.Text = true
	g.Chrono = true
	g.Kinds = loadKinds
	m := g.chronoTree()
	m.walk(func(r *MRec) { r.Name = strings.ReplaceAll(r.Name, "\n", "") })
	return m
}

func c28(c *C) {
	g := newGen(c.R)
	m := g.summaryRec()
	c.Note("%s", trunc(m.Canon(), 4000))
	file, _ := c.mustWrite(g.CfgRaw(), m)
	c.judgeSummary(file)
}

func c28v1(c *C) {
	g := newGen(c.R)
	m := g.v1()
	b := m.file(g)
	rec, _, err := rapio.Load(bytes.NewReader(b))
	if err != nil {
		c.Fail("load", "%v", err)
	}
	ok := !strings.Contains(rec.Name(), "\n")
	s := c.mustSnap(rec, "v1")
	for _, x := range s.colls() {
		var ts []float64
		for _, k := range x.Caps {
			ts = append(ts, k.T)
			ok = ok && !math.IsNaN(k.T)
		}
		ok = ok && sort.Float64sAreSorted(ts)
	}
	if ok {
		c.judgeSummary(b)
	}
}

func c28large(c *C) {
	g := newGen(c.R)
	m := g.summaryRec()
	m.Bins = append(m.Bins, MBin{Name: "big", Data: g.noise(pick(g, 1000, 2000, 100000, 1<<20, 3<<20, 12<<20) + g.n(5000))})
	if g.p(0.5) {
		m.Recs = append(m.Recs, MRec{Name: "many", Colls: []MColl{g.CollN(kPos, 20000)}})
	}
	// Sizes right at the borders between units.
	w := g.CfgRaw()
	w.Compress = false
	if g.p(0.5) {
		m = MRec{Name: "n", Bins: []MBin{{Name: "b", Data: make([]byte, 1<<20)}}}
		target := pick(g, 1023, 1024, 1025, 1<<20-1, 1<<20, 1<<20+1)
		for i := 0; i < 4; i++ {
			b, _ := c.mustWrite(w, m)
			m.Bins[0].Data = make([]byte, len(m.Bins[0].Data)+target-len(b))
		}
	}
	file, _ := c.mustWrite(w, m)
	c.judgeSummary(file)
}

func c28sample(c *C) {
	s := repoSamples()
	if len(s) == 0 {
		return
	}
	b, err := os.ReadFile(s[c.Idx%len(s)])
	if err != nil {
		return
	}
	if _, _, err := rapio.Load(bytes.NewReader(b)); err != nil {
		return
	}
	c.judgeSummary(b)
}

// --- C30 ------------------------------------------------------------------------------

// tree observes the files of a directory.
func tree(dir string) map[string]string {
	o := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		b := []byte(nil)
		if i.Mode().IsRegular() {
			b, _ = os.ReadFile(p)
		}
		o[rel] = fmt.Sprintf("%v %x", i.Mode(), b)
		return nil
	})
	return o
}

func treeDiff(a, b map[string]string, but string) error {
	for _, k := range sortedKeys(a) {
		if k == but {
			continue
		}
		if v, ok := b[k]; !ok {
			return fmt.Errorf("%s is gone", k)
		} else if v != a[k] {
			return fmt.Errorf("%s changed", k)
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok && k != but {
			return fmt.Errorf("%s appeared", k)
		}
	}
	return nil
}

// validInput makes input for a command.
func (g *Gen) validInput(c *C, cmd string) []byte {
	g.Text = true
	g.Finite = true
	switch cmd {
	case "from-json":
		return g.text(g.jdoc(g.n(3), true))
	case "from-csv":
		f := g.csvCols()
		f.rows = g.csvRows(g.n(20))
		return f.text(g)
	}
	if g.p(0.3) {
		m := g.v1()
		return m.file(g)
	}
	g.Plain = true
	m := g.summaryRec()
	b, _ := c.mustWrite(g.CfgRaw(), m)
	return b
}

// canonJSON is a comparable form of an export.
func canonJSON(v any) string {
	switch v := v.(type) {
	case jobj:
		m := map[string]string{}
		for _, f := range v {
			m[f.k] = canonJSON(f.v)
		}
		var sb strings.Builder
		for _, k := range sortedKeys(m) {
			fmt.Fprintf(&sb, "%q:%s,", k, m[k])
		}
		return "{" + sb.String() + "}"
	case []any:
		var sb strings.Builder
		for _, e := range v {
			sb.WriteString(canonJSON(e) + ",")
		}
		return "[" + sb.String() + "]"
	}
	return fmt.Sprintf("%#v", v)
}

// libResult is what the library makes of valid input for a command which
// prints a recording.
func (c *C) libResult(cmd string, in []byte) MRec {
	var rec format.Recording
	var err error
	if cmd == "from-json" {
		rec, err = parsing.FromJSON(in)
	} else {
		rec, _, err = rapio.Load(bytes.NewReader(in))
	}
	if err != nil {
		c.Fail("lib", "%v", err)
	}
	b, _, err := writeRec(upgradeCfg, rec)
	if err != nil {
		c.Fail("lib", "%v", err)
	}
	m, _ := c.mustRead(b)
	return m
}

func c30equal(c *C) {
	g := newGen(c.R)
	cmd := pick(g, "to-json", "from-json", "from-json", "upgrade")
	c.runsAlike(g, cmd, g.validInput(c, cmd))
}

// runsAlike gives a command valid input from files and streams.
func (c *C) runsAlike(g *Gen, cmd string, in []byte) {
	c.Note("%s of %d bytes", cmd, len(in))
	c.Distinct(append([]byte(cmd), in...))
	dir, done := c.caseDir()
	defer done()
	p := c.own(filepath.Join(dir, "input"), in, pick(g, os.FileMode(0o444), 0o644))
	before := tree(dir)
	run := func(stdin io.Reader, but string, args ...string) []byte {
		r := c.cli(dir, stdin, nil, append([]string{cmd}, args...)...)
		if r.code != 0 {
			if cmd == "to-json" && bytes.Contains(r.err, []byte("json")) {
				return nil // not representable: C23
			}
			c.Fail("refused", "%s %q ends with %d on valid input: %s", cmd, args, r.code, trunc(string(r.err), 300))
		}
		if err := treeDiff(before, tree(dir), but); err != nil {
			c.Fail("files", "%s %q: %v", cmd, args, err)
		}
		c.Count("equal", 1)
		return r.out
	}
	switch cmd {
	case "to-json":
		parse := func(b []byte) string {
			if b == nil {
				return ""
			}
			v, err := decodeJSON(b)
			if err != nil {
				c.Fail("invalid", "%v", err)
			}
			return canonJSON(v)
		}
		x := parse(run(nil, "", "--file", p))
		y := parse(run(bytes.NewReader(in), ""))
		if x != y {
			c.Fail("streams", "from a file and from a stream differs: %s", firstDiff(x, y))
		}
	case "upgrade":
		got, _ := c.mustRead(run(nil, "", "--file", p))
		mustEq(c, "library", "upgrade against the library", c.libResult(cmd, in), got)
	case "from-json":
		want := c.libResult(cmd, in)
		for i, b := range [][]byte{run(nil, "", "--in", p), run(bytes.NewReader(in), "")} {
			got, _ := c.mustRead(b)
			mustEq(c, "library", fmt.Sprint("from-json to the stream, variant ", i), want, got)
		}
		out := filepath.Join(dir, "out.rap")
		if b := run(nil, "out.rap", "-i", p, "-o", out); len(b) != 0 {
			c.Fail("stray", "output to a file, but %d bytes to the stream", len(b))
		}
		b, err := os.ReadFile(out)
		if err != nil {
			c.Fail("no-output", "%v", err)
		}
		got, _ := c.mustRead(b)
		mustEq(c, "library", "from-json to a file", want, got)
	}
}

// badInput is something no command can use.
func (g *Gen) badInput(c *C, cmd string) ([]byte, string) {
	switch g.n(5) {
	case 0:
		return nil, "empty"
	case 1:
		b := append([]byte{pick(g, byte(0), 3, 200, 255)}, g.noise(g.n(300))...)
		return b, "noise"
	}
	in := g.validInput(c, cmd)
	switch cmd {
	case "from-json":
		switch g.n(4) {
		case 0:
			return bytes.TrimSpace(in)[:len(bytes.TrimSpace(in))-1], "cut"
		case 1:
			return append(in, "}"...), "trailing"
		case 2:
			return []byte(`{"id":"a","name":"b","metadata":{"n":null}}`), "null"
		}
		return []byte(`{"id":"a","name":"b","recordings":[{"id":"c"}]}`), "incomplete"
	case "from-csv":
		return bytes.Replace(in, []byte("name"), []byte("nome"), 1), "column"
	}
	if g.p(0.5) {
		return in[:g.n(len(in)/2)], "cut"
	}
	in = append([]byte{}, in...)
	in[0] = pick(g, byte(0), 3, 7, 100)
	return in, "version"
}

func c30refuse(c *C) {
	g := newGen(c.R)
	cmd := pick(g, "to-json", "from-json", "upgrade", "from-csv", "summarize")
	in, what := g.badInput(c, cmd)
	dir, done := c.caseDir()
	defer done()
	p := filepath.Join(dir, "input")
	flag := "--file"
	if cmd == "from-json" {
		flag = "--in"
	}
	args := []string{cmd, flag, p}
	var stdin io.Reader
	switch g.n(8) {
	case 0:
		what = "absent"
	case 1:
		what = "directory"
		os.Mkdir(p, 0o755)
	case 2:
		what = "unreadable"
		c.own(p, g.validInput(c, cmd), 0o000)
		if cred("") == nil {
			os.Remove(p)
		}
	case 3:
		if cmd == "summarize" || cmd == "upgrade" || cmd == "from-csv" {
			what = "no flag"
			args = args[:1]
			break
		}
		stdin = bytes.NewReader(in)
		args = args[:1]
	default:
		c.own(p, in, 0o644)
	}
	old := g.noise(g.n(2000))
	if cmd == "from-json" && g.p(0.7) {
		args = append(args, "--out", c.own(filepath.Join(dir, "old.rap"), old, 0o644))
	}
	c.Note("%q %s", args, what)
	c.DistinctS("%s %s %x", cmd, what, in)
	before := tree(dir)
	r := c.cli(dir, stdin, nil, args...)
	if r.code == 0 {
		c.Fail("accepted", "%q succeeds on %s input with %d bytes of output", args, what, len(r.out))
	}
	if err := treeDiff(before, tree(dir), ""); err != nil {
		c.Fail("files", "%q on %s input: %v", args, what, err)
	}
	c.Count("refused", 1)
	if len(args) == 5 {
		c.Count("kept", 1)
	}
}

// c30full writes to a device that is full.
func c30full(c *C) {
	g := newGen(c.R)
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		c.Count("full", 1)
		return
	}
	defer full.Close()
	cmd := pick(g, "to-json", "from-json", "upgrade", "from-csv", "summarize")
	in := g.validInput(c, cmd)
	dir, done := c.caseDir()
	defer done()
	p := c.own(filepath.Join(dir, "input"), in, 0o444)
	c.Note("%s of %d bytes to a full device", cmd, len(in))
	c.Distinct(append([]byte(cmd), in...))
	flag := "--file"
	if cmd == "from-json" {
		flag = "--in"
	}
	r := c.cli(dir, nil, full, cmd, flag, p)
	if r.code == 0 {
		c.Fail("full", "%s reports success, but nothing of its output could be written", cmd)
	}
	if len(bytes.TrimSpace(r.err)) == 0 {
		c.Fail("silent", "%s fails without a message", cmd)
	}
	if now, err := os.ReadFile(p); err != nil || !bytes.Equal(now, in) {
		c.Fail("files", "%s changed its input (%v)", cmd, err)
	}
	c.Count("full", 1)
}

// c30output exercises the output file of from-json.
func c30output(c *C) {
	g := newGen(c.R)
	in := g.validInput(c, "from-json")
	dir, done := c.caseDir()
	defer done()
	p := c.own(filepath.Join(dir, "input.json"), in, 0o644)
	out := filepath.Join(dir, "out.rap")
	c.Distinct(in)
	switch g.n(5) {
	case 0, 1: // replaced completely
		old := g.noise(pick(g, 0, 1, 100, 100000))
		if g.p(0.4) {
			old, _ = c.mustWrite(upgradeCfg, MRec{ID: "old", Name: "old", Colls: []MColl{g.CollN(kPos, 2000)}})
		}
		c.own(out, old, 0o644)
	case 2: // onto its own input
		out = p
	case 3: // nowhere to go
		out = filepath.Join(dir, "none", "out.rap")
		before := tree(dir)
		r := c.cli(dir, nil, nil, "from-json", "-i", p, "-o", out)
		if r.code == 0 {
			c.Fail("accepted", "success, but there is no directory to write to")
		}
		if err := treeDiff(before, tree(dir), ""); err != nil {
			c.Fail("files", "%v", err)
		}
		c.Count("kept", 1)
		return
	case 4: // onto a directory that is not empty
		os.Mkdir(out, 0o777)
		os.Chmod(out, 0o777)
		c.own(filepath.Join(out, "keep"), []byte("keep"), 0o644)
		before := tree(dir)
		r := c.cli(dir, nil, nil, "from-json", "-i", p, "-o", out)
		if r.code == 0 {
			c.Fail("accepted", "success, but the output is a directory")
		}
		if err := treeDiff(before, tree(dir), ""); err != nil {
			c.Fail("files", "%v", err)
		}
		c.Count("kept", 1)
		return
	}
	r := c.cli(dir, nil, nil, "from-json", "--in", p, "--out", out)
	if r.code != 0 {
		c.Fail("refused", "ends with %d: %s", r.code, trunc(string(r.err), 300))
	}
	os.Chmod(out, 0o644)
	b, err := os.ReadFile(out)
	if err != nil {
		c.Fail("no-output", "%v", err)
	}
	got, _ := c.mustRead(b)
	mustEq(c, "library", "the replaced file", c.libResult("from-json", in), got)
	if rest := afterStream(b); rest != 0 {
		c.Fail("rest", "%d bytes follow the recording in the replaced file", rest)
	}
	if out != p {
		if now, err := os.ReadFile(p); err != nil || !bytes.Equal(now, in) {
			c.Fail("files", "the input changed (%v)", err)
		}
	}
	c.Count("replaced", 1)
}

// afterStream counts the bytes behind the compressed body of a file.
func afterStream(file []byte) int {
	_, st, err := refDecode(file)
	if err != nil || !st.Compress {
		return 0
	}
	r := bytes.NewReader(file[st.Head:])
	io.Copy(io.Discard, flate.NewReader(r))
	return r.Len()
}
