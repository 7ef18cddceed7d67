package main

// C16: sinks that fail, watched call by call.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"syscall"

	rapio "github.com/recolude/rap/format/io"
)

func init() {
	register(&Prop{
		ID: "C16", Level: "fault_enumeration",
		Rule: "a case is one recording and configuration, faulted at many points; distinct by file content",
		Need: map[string]int64{"faults": 20000, "fault.permanent": 2000, "fault.once": 2000, "fault.reject": 2000, "fault.late": 1000, "in_compressed": 2000, "in_binary": 200},
		Fams: []Family{
			{Name: "every-offset", Quick: 150, Thorough: 2500, Run: c16offsets},
			{Name: "every-call", Quick: 250, Thorough: 5000, Run: c16calls},
			{Name: "large", Quick: 60, Thorough: 800, Run: c16large},
			exact("exact", 1, 2, 1, c16exact),
			{Name: "unordered", Quick: 300, Thorough: 6000, Run: c16unordered},
		},
	})
}

const (
	faultPermanent = iota // takes what fits, refuses everything from then on
	faultOnce             // takes what fits, fails once, would accept more
	faultReject           // takes nothing of the call that crosses the limit
	faultLate             // takes the whole call, yet reports an error
	faultModes
)

var faultNames = []string{"permanent", "once", "reject", "late"}

// faultSink fails at a byte offset or at a call.
type faultSink struct {
	mode   int
	limit  int // bytes; -1: none
	call   int // call number; -1: none
	got    []byte
	calls  int
	failed bool
	after  int // bytes handed over after the failure
}

func (s *faultSink) Write(p []byte) (int, error) {
	k := s.calls
	s.calls++
	if s.failed {
		s.after += len(p)
		if s.mode == faultOnce {
			return len(p), nil
		}
		return 0, s.err()
	}
	hit := k == s.call || s.limit >= 0 && len(s.got)+len(p) > s.limit
	if !hit {
		s.got = append(s.got, p...)
		return len(p), nil
	}
	s.failed = true
	n := 0
	switch s.mode {
	case faultPermanent, faultOnce:
		if s.limit >= 0 {
			n = s.limit - len(s.got)
		}
	case faultLate:
		n = len(p)
	}
	s.got = append(s.got, p[:n]...)
	return n, s.err()
}

var sinkErrors = []error{errInjected, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, syscall.ENOSPC, os.ErrDeadlineExceeded, errInjected}

// err is what the sink reports: any error will do, those with a meaning
// elsewhere included.
func (s *faultSink) err() error { return sinkErrors[(s.limit+s.call+s.mode+4)%len(sinkErrors)] }

// faultWrite runs one faulted write and judges it. full is nil when the order
// of metadata entries may differ between writes.
func (c *C) faultWrite(write func(s *faultSink) (int, error), s *faultSink, full []byte, compressed bool) {
	var n int
	var err error
	what := fmt.Sprintf("%s at byte %d / call %d", faultNames[s.mode], s.limit, s.call)
	if p, _ := tryPanic(func() { n, err = write(s) }); p != nil {
		c.Fail("panic-on-fault", "sink fails (%s): the write panics: %v", what, p)
	}
	if !s.failed {
		if err != nil {
			c.Fail("error-without-fault", "sink did not fail (%s), yet the write did: %v", what, err)
		}
		if full != nil && !bytes.Equal(full, s.got) {
			c.Fail("incomplete", "sink did not fail (%s), %d bytes arrived instead of %d", what, len(s.got), len(full))
		}
		c.Count("unfaulted", 1)
		return
	}
	if err == nil {
		c.Fail("success-on-fault", "sink failed (%s) after %d bytes, yet the write reports success (%d bytes)", what, len(s.got), n)
	}
	if s.after > 0 {
		c.Fail("write-after-fault", "sink failed (%s), then was handed %d more bytes", what, s.after)
	}
	if full != nil && !bytes.HasPrefix(full, s.got) {
		c.Fail("not-a-prefix", "sink failed (%s): what it accepted is not a prefix of the file", what)
	}
	c.Count("faults", 1)
	c.Count("fault."+faultNames[s.mode], 1)
	if compressed {
		c.Count("in_compressed", 1)
	}
}

// faultable is a recording, a way to write it and the file that results.
func (c *C) faultable(g *Gen, m MRec) (write func(s *faultSink) (int, error), full []byte, calls int, compressed bool) {
	w := g.Cfg()
	def := g.p(0.2)
	if def {
		w.Compress = true
	}
	rec := m.Build()
	write = func(s *faultSink) (int, error) {
		if def {
			return rapio.NewRecoludeWriter(s).Write(rec)
		}
		return rapio.NewWriter(w.Encoders(), w.Compress, s, w.Time).Write(rec)
	}
	s := &faultSink{limit: -1, call: -1}
	if _, err := write(s); err != nil {
		c.Fail("write-error", "writing a valid recording failed: %v", err)
	}
	c.Note("%v default=%v %s", w, def, trunc(m.Canon(), 4000))
	c.DistinctS("%x", s.got)
	return write, s.got, s.calls, w.Compress
}

func (g *Gen) faultRec(depth int) MRec {
	g.Kinds = []string{kEvent, kPos, kEuler, kEnum} // what the default writer handles
	g.Chrono, g.Finite = true, true
	m := g.Rec(depth)
	if g.p(0.6) {
		m.Bins = append(m.Bins, MBin{Name: g.Name(), Data: g.bytes(1 + g.n(40))})
	}
	return det(m)
}

func c16offsets(c *C) {
	g := newGen(c.R)
	g.Small = true
	g.MaxCaps = 3
	m := g.faultRec(g.n(3))
	write, full, _, comp := c.faultable(g, m)
	step := 1 + len(full)/250
	for k := g.n(step); k < len(full); k += step {
		for mode := 0; mode < faultModes; mode++ {
			c.faultWrite(write, &faultSink{mode: mode, limit: k, call: -1}, full, comp)
		}
	}
	c.faultWrite(write, &faultSink{limit: len(full), call: -1}, full, comp)
	c.Sample(fmt.Sprintf("%d bytes, every %d", len(full), step))
}

func c16calls(c *C) {
	g := newGen(c.R)
	g.Small = g.p(0.5)
	g.MaxCaps = 6
	m := g.faultRec(g.n(4))
	write, full, calls, comp := c.faultable(g, m)
	step := 1 + calls/100
	for k := g.n(step); k < calls; k += step {
		for mode := 0; mode < faultModes; mode++ {
			c.faultWrite(write, &faultSink{mode: mode, limit: -1, call: k}, full, comp)
		}
	}
	c.Max("calls", calls)
}

// c16large has several compression blocks and binaries beyond any buffer.
func c16large(c *C) {
	g := newGen(c.R)
	g.MaxCaps = 3000
	m := g.faultRec(1)
	for i := 0; i < 1+g.n(3); i++ {
		d := g.noise(50000 + g.n(300000))

		m.Bins = append(m.Bins, MBin{Name: "big", Data: d})
		if g.p(0.5) {
			m.Recs = append(m.Recs, MRec{Name: "child", Bins: []MBin{{Name: "big", Data: d[:len(d)/2]}}})
		}
	}
	write, full, calls, comp := c.faultable(g, m)
	for i := 0; i < 40; i++ {
		s := &faultSink{mode: g.n(faultModes), limit: g.n(len(full)), call: -1}
		if g.p(0.3) {
			s.limit, s.call = -1, g.n(calls)
		}
		c.faultWrite(write, s, full, comp)
		c.Count("in_binary", 1)
	}
	c.Max("file_bytes", len(full))
}

// c16unordered: any number of metadata entries per block.
func c16unordered(c *C) {
	g := newGen(c.R)
	g.Kinds = []string{kEvent, kPos, kEuler, kEnum}
	g.Small, g.MaxCaps = true, 8
	m := g.Shape()
	w := g.Cfg()
	rec := m.Build()
	write := func(s *faultSink) (int, error) {
		return rapio.NewWriter(w.Encoders(), w.Compress, s, w.Time).Write(rec)
	}
	s := &faultSink{limit: -1, call: -1}
	if _, err := write(s); err != nil {
		c.Fail("write-error", "writing a valid recording failed: %v", err)
	}
	for i := 0; i < 30; i++ {
		c.faultWrite(write, &faultSink{mode: g.n(faultModes), limit: g.n(len(s.got)), call: -1}, nil, w.Compress)
	}
}

// noise is incompressible.
func (g *Gen) noise(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(g.r.Uint32())
	}
	return d
}
