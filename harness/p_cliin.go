package main

// Parts of the command line program, run inside this process: on recordings,
// sources and sinks no command line hands them. run.sh builds them in where
// they are to be found; without them these families observe nothing.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/recolude/rap/format"
)

var (
	cliSummary func(out io.Writer, rec format.Recording, size int64)
	cliJSON    func(out io.Writer, rec format.Recording) error
	cliCSV     func(in io.Reader) (format.Recording, error)
	cliRun     func(in io.Reader, out, errs io.Writer, args ...string) error
)

// c23inside exports recordings no file the program loads can hold.
func c23inside(c *C) {
	if cliJSON == nil {
		return
	}
	g := newGen(c.R)
	g.Text = true
	g.Finite = !g.p(0.05)
	g.MaxDepth = 3
	m := g.finiteTimes(g.Shape())
	c.Note("%s", trunc(m.Canon(), 5000))
	rec := m.Build()
	var out bytes.Buffer
	err := cliJSON(&out, rec)
	r := cliRes{out: out.Bytes()}
	if err != nil {
		r.code, r.err = 1, []byte(err.Error())
	}
	c.Count("inside", 1)
	c.judgeExportOf(m, r)
	mustEq(c, "changed", "exported", m, c.mustSnap(rec, "exported"))
}

// c25inside converts text which comes in pieces, or not to its end.
func c25inside(c *C) {
	if cliCSV == nil {
		return
	}
	g := newGen(c.R)
	f := g.csvCols()
	f.rows = g.csvRows(g.n(12))
	text := f.text(g)
	c.Note("%s", trunc(string(text), 4000))
	src := &chunkReader{b: text, sizes: func() int { return 1 + g.n(9) }, eofWith: g.p(0.5), empty: func() bool { return g.p(0.1) }}
	k := -1
	if g.p(0.4) {
		k = g.n(len(text) + 1)
		src.b, src.fail, src.failNow = text[:k], brokenSource(g), g.p(0.5)
	}
	rec, err := cliCSV(src)
	c.Count("inside", 1)
	c.DistinctS("%d %s", k, text)
	if k >= 0 {
		if err == nil {
			c.Fail("cut", "the source fails after %d of %d bytes, but a recording comes of it", k, len(text))
		}
		c.Count("failing", 1)
		return
	}
	if err != nil {
		c.Fail("refused", "a valid file in pieces is refused: %v", err)
	}
	c.judgeRows(f, c.mustSnap(rec, "converted"))
}

// c28inside sums up recordings no file the program loads can hold, and sizes
// no file here has.
func c28inside(c *C) {
	if cliSummary == nil {
		return
	}
	g := newGen(c.R)
	m := g.summaryRec()
	if g.p(0.7) {
		g.Kinds = nil
		add := func(r *MRec) {
			for n := g.n(3); n > 0; n-- {
				r.Colls = insertAt(r.Colls, g.n(len(r.Colls)+1), g.CollN(kFloat, g.n(6)))
			}
		}
		m.walk(add)
		g.Chrono = true
	}
	var size int64
	switch g.n(4) {
	case 0:
		size = int64(g.n(5000))
	case 1:
		size = pick[int64](g, 1, 1024, 1<<20, 1<<30, 1<<40)*pick[int64](g, 1, 1, 2, 10, 100, 1000) + int64(g.n(5)-2)
	default:
		size = g.r.Int64N(1 << (10 + g.n(40)))
	}
	size = max(size, 0)
	c.Note("%d %s", size, trunc(m.Canon(), 4000))
	c.DistinctS("%d %s", size, m.Canon())
	rec := m.Build()
	var out bytes.Buffer
	cliSummary(&out, rec, size)
	c.Count("inside", 1)
	c.judgeSummaryText(out.String(), m, size)
	mustEq(c, "changed", "summed up", m, c.mustSnap(rec, "summed up"))
}

// c30inside runs commands on sources and sinks which fail anywhere.
func c30inside(c *C) {
	if cliRun == nil {
		return
	}
	g := newGen(c.R)
	cmd := pick(g, "to-json", "to-json", "from-json", "from-json", "upgrade", "from-csv", "summarize")
	in := g.validInput(c, cmd)
	c.Note("%s of %d bytes", cmd, len(in))
	dir, done := c.caseDir()
	defer done()
	var args []string
	stdin := func() io.Reader { return bytes.NewReader(nil) }
	stream := false
	switch {
	case cmd == "to-json" || cmd == "from-json" && g.p(0.7):
		stream = true
		args = []string{cmd}
		stdin = func() io.Reader {
			return &chunkReader{b: in, sizes: func() int { return 1 + g.n(100) }, eofWith: g.p(0.5), empty: func() bool { return g.p(0.05) }}
		}
	case cmd == "from-json":
		args = []string{cmd, "--in", c.own(filepath.Join(dir, "input"), in, 0o444)}
	default:
		args = []string{cmd, "--file", c.own(filepath.Join(dir, "input"), in, 0o444)}
	}
	run := func(in io.Reader, out io.Writer) error {
		var err error
		if p, stack := tryPanic(func() { err = cliRun(in, out, io.Discard, args...) }); p != nil {
			c.Fail("panic", "%v panics: %v\n%s", args, p, stack)
		}
		return err
	}
	var whole bytes.Buffer
	if err := run(stdin(), &whole); err != nil {
		if cmd == "to-json" {
			if m, _, err := load(bytes.NewReader(in)); err == nil && !exportableRec(m) {
				return
			}
		}
		c.Fail("refused", "%v fails on valid input: %v", args, err)
	}
	n := whole.Len()
	c.Count("inside", 1)
	c.DistinctS("%v %s", args[0], in)
	for i := 0; i < 6; i++ {
		k := g.n(n)
		switch i {
		case 0:
			k = 0
		case 1:
			k = n - 1
		}
		s := &cutSink{left: k, err: sinkErrors[g.n(len(sinkErrors))]}
		// Two outputs of one input may differ in order, and a little in size.
		if err := run(stdin(), s); err == nil && s.failed {
			c.Fail("sink", "%v reports success, but its output failed after %d of about %d bytes", args, k, n)
		}
		if s.failed {
			c.Count("sink_faults", 1)
		}
	}
	if !stream {
		return
	}
	for i := 0; i < 4; i++ {
		k := g.n(len(in) + 1)
		if i == 0 {
			k = len(in)
		}
		var out bytes.Buffer
		src := &chunkReader{b: in[:k], sizes: func() int { return 1 + g.n(300) }, fail: brokenSource(g), failNow: g.p(0.5)}
		err := run(src, &out)
		if cmd == "from-json" && err == nil {
			c.Fail("source", "%v reports success, but its source failed after %d of %d bytes", args, k, len(in))
		}
		if err == nil && k < len(in) && canonExport(out.Bytes()) != canonExport(whole.Bytes()) {
			c.Fail("source", "%v reports success, but its source failed after %d of %d bytes: %s", args, k, len(in), trunc(out.String(), 1000))
		}
		if err != nil && out.Len() > 0 {
			c.Fail("output", "%v fails (%v), but wrote %d bytes", args, err, out.Len())
		}
		c.Count("source_faults", 1)
	}
}

// brokenSource is what a source may fail with.
func brokenSource(g *Gen) error {
	return pick(g, errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, error(os.ErrDeadlineExceeded))
}

func canonExport(b []byte) string {
	v, err := decodeStrict(b)
	if err != nil {
		return fmt.Sprint("no json: ", err)
	}
	return canonJSON(v)
}

// cutSink takes some bytes and then fails.
type cutSink struct {
	left   int
	failed bool
	err    error
}

func (s *cutSink) Write(p []byte) (int, error) {
	if len(p) <= s.left {
		s.left -= len(p)
		return len(p), nil
	}
	n := s.left
	s.left, s.failed = 0, true
	return n, s.err
}
