package main

// C13 sources, C14 truncation, C15 hostile bytes.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"strings"
	"testing/iotest"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/format/encoding/enum"
	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/event"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
)

func init() {
	register(&Prop{
		ID: "C13", Level: "exploration",
		Rule: "distinct by file bytes",
		Need: map[string]int64{"loads": 20000, "faulty_sources": 20000, "sources_at_a_position": 4000, "files_v1": 100, "files_compressed": 100, "files_plain": 100},
		Fams: []Family{
			{Name: "chunks", Quick: 900, Thorough: 20000, Run: c13},
			{Name: "giant", Quick: 2, Thorough: 8, Run: c13giant},
			{Name: "every-offset", Quick: 160, Thorough: 3000, Run: c13offsets},
			exact("exact", 3, 2, 1, c13exact),
			{Name: "real-streams", Quick: 60, Thorough: 800, Run: c13real},
		},
	})
	register(&Prop{
		ID: "C14", Level: "exploration",
		Rule: "distinct by file bytes (prefix families) or payload (codec families)",
		Need: map[string]int64{"prefixes_v1": 3000, "prefixes_plain": 20000, "prefixes_compressed": 10000, "payload_cuts": 20000},
		Fams: []Family{
			{Name: "prefix", Quick: 500, Thorough: 10000, Run: c14prefix},
			{Name: "prefix-large", Quick: 60, Thorough: 1000, Run: c14large},
			{Name: "payload", Quick: 900, Thorough: 20000, Run: c14payload},
			{Name: "inner", Quick: 500, Thorough: 10000, Run: c14inner},
			exact("exact", 3, 4, 1, c14exact),
		},
	})
	register(&Prop{
		ID: "C15", Level: "exploration", CPULimit: 30e9,
		Rule: "distinct by input bytes",
		Need: map[string]int64{"inputs": 30000, "refused": 10000, "accepted": 1000, "agree_with_reference": 500, "claims": 50000, "products": 60},
		Fams: []Family{
			{Name: "field", Quick: 500, Thorough: 8000, Run: c15field},
			{Name: "mutate", Quick: 9000, Thorough: 200000, Run: c15mutate},
			{Name: "bytes", Quick: 8000, Thorough: 200000, Run: c15bytes},
			{Name: "random", Quick: 4000, Thorough: 100000, Run: c15random},
			{Name: "decoder", Quick: 6000, Thorough: 150000, Run: c15decoder},
			{Name: "v1", Quick: 4000, Thorough: 80000, Run: c15v1},
			{Name: "deep", Quick: 24, Thorough: 72, Run: c15deep},
			{Name: "inflated", Quick: 24, Thorough: 120, Run: c15bomb},
			{Name: "claims", Quick: 256, Thorough: 256, Run: c15claims},
			{Name: "products", Quick: 60, Thorough: 1500, Run: c15products},
			{Name: "dictionaries", Quick: 4, Thorough: 4, Run: c15dictionaries},
			{Name: "wrapped", Quick: 30, Thorough: 400, Run: c15wrapped},
		},
	})
}

// smallFile makes a valid file of some version. kind 0: v1, 1: plain, 2:
// compressed.
func (c *C) smallFile(g *Gen, kind int) []byte {
	switch kind {
	case 0:
		c.Count("files_v1", 1)
		gg := newGen(c.R)
		gg.Small = true
		gg.MaxCaps = 6
		return gg.v1().file(nil)
	}
	w := g.Cfg()
	w.Compress = kind == 2
	c.Count([]string{"", "files_plain", "files_compressed"}[kind], 1)
	m := g.forCfg(w).Rec(g.n(3))
	if g.p(0.2) && !w.Compress {
		return refFile(m, refOpts{cfg: w})
	}
	b, _ := c.mustWrite(w, m)
	return b
}

// load reads with every encoder and observes the result.
func load(r io.Reader) (m MRec, n int, err error) {
	rec, n, err := rapio.NewReader(fullEncoders(), r).Read()
	if err != nil {
		return MRec{}, n, err
	}
	m, serr := snap(rec)
	if serr != nil {
		return m, n, snapError{serr}
	}
	return m, n, nil
}

type snapError struct{ error }

func (c *C) mustLoad(b []byte) (MRec, int) {
	m, n, err := load(bytes.NewReader(b))
	if err != nil {
		c.Fail("read-error", "valid file of %d bytes: %v", len(b), err)
	}
	return m, n
}

// chunkReader returns the bytes in chunks of the given sizes.
type chunkReader struct {
	b       []byte
	sizes   func() int
	eofWith bool // EOF together with the last bytes
	empty   func() bool
	fail    error // delivered instead of EOF
	failNow bool  // together with the last bytes
	once    bool  // the error is reported once, then the rest follows
	rest    []byte
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := io.EOF
	if r.fail != nil {
		end = r.fail
	}
	if len(r.b) == 0 {
		if r.once && r.fail != nil {
			r.b, r.rest, r.fail = r.rest, nil, nil
			return 0, end
		}
		return 0, end
	}
	if r.empty != nil && r.empty() {
		return 0, nil
	}
	n := min(r.sizes(), len(p), len(r.b))
	copy(p, r.b[:n])
	// Readers may scribble over the rest of the buffer.
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 0xEE
	}
	r.b = r.b[n:]
	if len(r.b) == 0 && (r.eofWith && r.fail == nil || r.failNow && r.fail != nil && !r.once) {
		return n, end
	}
	return n, nil
}

func (c *C) sameLoad(what string, b []byte, want MRec, wn int, src io.Reader) {
	got, n, err := load(src)
	if err != nil {
		c.Fail("chunk-error", "source %s of %d bytes: %v", what, len(b), err)
	}
	if n != wn {
		c.Fail("chunk-count", "source %s: count %d instead of %d", what, n, wn)
	}
	if err := equalModels(want, got); err != nil {
		c.Fail("chunk-content", "source %s: %v", what, err)
	}
	c.Count("loads", 1)
}

func c13(c *C) {
	g := newGen(c.R)
	g.MaxCaps = 20
	b := c.smallFile(g, c.Idx%3)
	c.Note("file %.3000x", b)
	want, wn := c.mustLoad(b)
	rd := func() io.Reader { return bytes.NewReader(b) }
	one := func() int { return 1 }
	rnd := func() int { return 1 + g.n(9) }
	big := func() int { return 1 + g.n(4000) }
	some := func() bool { return g.p(0.2) }
	for name, src := range map[string]io.Reader{
		"one byte":           iotest.OneByteReader(rd()),
		"half":               iotest.HalfReader(rd()),
		"data with EOF":      iotest.DataErrReader(rd()),
		"one byte, EOF with": &chunkReader{b: b, sizes: one, eofWith: true},
		"short":              &chunkReader{b: b, sizes: rnd},
		"short, EOF with":    &chunkReader{b: b, sizes: rnd, eofWith: true},
		"short with empties": &chunkReader{b: b, sizes: rnd, empty: some},
		"one with empties":   &chunkReader{b: b, sizes: one, empty: some, eofWith: g.p(0.5)},
		"mixed":              &chunkReader{b: b, sizes: big, empty: some},
		"buffered":           bufio.NewReaderSize(&chunkReader{b: b, sizes: rnd}, 16),
		"limited":            io.LimitReader(bytes.NewReader(append(append([]byte{}, b...), 1, 2, 3)), int64(len(b))),
		"multi":              io.MultiReader(bytes.NewReader(b[:len(b)/3]), bytes.NewReader(nil), bytes.NewReader(b[len(b)/3:])),
		"bytes buffer":       bytes.NewBuffer(append([]byte{}, b...)),
		"strings":            strings.NewReader(string(b)),
	} {
		c.sameLoad(name, b, want, wn, src)
	}
	// Behind something else, before something else, or both.
	pre, post := g.bytes(pick(g, 0, 1, 3, 1+g.n(40), 4096)), g.bytes(pick(g, 0, 1, 1+g.n(40)))
	all := append(append(append([]byte{}, pre...), b...), post...)
	for name, src := range map[string]io.Reader{
		"within bytes":    bytes.NewReader(all),
		"within strings":  strings.NewReader(string(all)),
		"within buffer":   bytes.NewBuffer(append([]byte{}, all...)),
		"within buffered": bufio.NewReaderSize(bytes.NewReader(all), pick(g, 16, 4096, 1<<16)),
		"within chunks":   &chunkReader{b: all, sizes: rnd},
		"section":         io.NewSectionReader(bytes.NewReader(all), 0, int64(len(all))),
		"seekable only":   struct{ io.ReadSeeker }{bytes.NewReader(all)},
	} {
		if _, err := io.CopyN(io.Discard, struct{ io.Reader }{src}, int64(len(pre))); err != nil {
			panic(err)
		}
		c.sameLoad(name, b, want, wn, src)
		c.Count("sources_at_a_position", 1)
	}
	for i := 0; i < 12; i++ {
		k := g.n(len(b))
		c.faulty(g, b, want, wn, k)
	}
	c.Distinct(b)
}

// faulty delivers k bytes and then an error.
func (c *C) faulty(g *Gen, b []byte, want MRec, wn, k int) {
	size := pick(g, func() int { return 1 }, func() int { return 1 + g.n(7) }, func() int { return 1 << 20 })
	for mode := 0; mode < 3; mode++ {
		src := &chunkReader{b: b[:k], sizes: size, fail: pick(g, errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, error(os.ErrDeadlineExceeded))}
		switch mode {
		case 1:
			src.failNow = true
		case 2:
			src.once = true
			src.rest = b[k:]
		}
		got, n, err := load(src)
		c.Count("faulty_sources", 1)
		if err != nil {
			if _, bad := err.(snapError); bad {
				c.Fail("fault-broken", "source failing after %d of %d bytes: broken recording: %v", k, len(b), err)
			}
			continue
		}
		if b[0] == 2 && isCompressed(b) {
			// The error may lie behind the last byte that matters.
			if equalModels(want, got) == nil && n == wn && compressedComplete(b[:k], b) {
				c.Count("fault_behind_content", 1)
				continue
			}
		}
		c.Fail("fault-accepted", "source failing after %d of %d bytes (mode %d): no error", k, len(b), mode)
	}
}

// headLen is the length of the part of a version 2 file before its body.
func headLen(b []byte) int {
	r := &rd{b: b[1:]}
	for range r.strs() {
		r.uv()
	}
	// The versions follow the signatures.
	return len(b) - len(r.b) + 1
}

func isCompressed(b []byte) bool { h := headLen(b); return b[h-1] == 1 }

// compressedComplete reports whether a prefix of a compressed file still
// holds the whole body.
func compressedComplete(p, full []byte) bool {
	h := headLen(full)
	if len(p) < h {
		return false
	}
	want, err := io.ReadAll(newInflate(full[h:]))
	if err != nil {
		return false
	}
	got, _ := io.ReadAll(newInflate(p[h:]))
	return bytes.Equal(want, got)
}

func c13offsets(c *C) {
	g := newGen(c.R)
	g.Small, g.MaxCaps = true, 4
	b := c.smallFile(g, c.Idx%3)
	if len(b) > 700 {
		b = c.smallFile(g, c.Idx%3)
	}
	c.Note("file %.3000x", b)
	want, wn := c.mustLoad(b)
	step := 1 + len(b)/500
	for k := 0; k < len(b); k += step {
		c.faulty(g, b, want, wn, k)
		c.sameLoad(fmt.Sprintf("split at %d", k), b, want, wn, io.MultiReader(bytes.NewReader(b[:k]), bytes.NewReader(b[k:])))
	}
	c.Distinct(b)
}

// c13real loads from files, pipes and sockets.
func c13real(c *C) {
	g := newGen(c.R)
	g.MaxCaps = 200
	b := c.smallFile(g, c.Idx%3)
	want, wn := c.mustLoad(b)
	feed := func(w io.WriteCloser) {
		rest := b
		for len(rest) > 0 {
			n := min(len(rest), 1+len(b)/5)
			w.Write(rest[:n])
			rest = rest[n:]
		}
		w.Close()
	}
	switch c.Idx / 3 % 4 {
	case 0:
		dir, done := c.caseDir()
		defer done()
		at := pick(g, 0, 1, 1+g.n(5000))
		f, err := os.Open(c.own(dir+"/f.rap", append(g.bytes(at), b...), 0o644))
		if err != nil {
			panic(err)
		}
		defer f.Close()
		f.Seek(int64(at), io.SeekStart)
		c.sameLoad("file", b, want, wn, f)
	case 1:
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		go feed(w)
		c.sameLoad("os pipe", b, want, wn, r)
		io.Copy(io.Discard, r)
		r.Close()
	case 2:
		r, w := io.Pipe()
		go feed(w)
		c.sameLoad("pipe", b, want, wn, r)
		r.Close()
	case 3:
		x, y := net.Pipe()
		go feed(y)
		c.sameLoad("socket", b, want, wn, x)
		x.Close()
	}
	c.Distinct(b)
}

// --- C14 ------------------------------------------------------------------

func (c *C) prefix(b []byte, k int, want MRec) {
	got, _, err := load(bytes.NewReader(b[:k:k]))
	label := "prefixes_plain"
	if b[0] == 1 {
		label = "prefixes_v1"
	} else if isCompressed(b) {
		label = "prefixes_compressed"
	}
	c.Count(label, 1)
	if err != nil {
		if _, bad := err.(snapError); bad {
			c.Fail("prefix-broken", "%d of %d bytes (%s): broken recording: %v", k, len(b), label, err)
		}
		return
	}
	if e := equalModels(want, got); e != nil {
		c.Fail("prefix-content", "%d of %d bytes (%s) accepted with other content: %v", k, len(b), label, e)
	}
	if label != "prefixes_compressed" || !compressedComplete(b[:k], b) {
		c.Fail("prefix-accepted", "%d of %d bytes (%s) accepted", k, len(b), label)
	}
	c.Count("prefix_complete", 1)
}

func c14prefix(c *C) {
	g := newGen(c.R)
	g.Small, g.MaxCaps = true, 4
	b := c.smallFile(g, c.Idx%3)
	want, _ := c.mustLoad(b)
	c.Note("file %.3000x", b)
	step := 1 + len(b)/600
	for k := g.n(step); k < len(b); k += step {
		c.prefix(b, k, want)
	}
	for k := max(0, len(b)-12); k < len(b); k++ {
		c.prefix(b, k, want)
	}
	c.Distinct(b)
}

func c14large(c *C) {
	g := newGen(c.R)
	g.MaxCaps = 400
	b := c.smallFile(g, c.Idx%3)
	want, _ := c.mustLoad(b)
	for i := 0; i < 60; i++ {
		c.prefix(b, g.n(len(b)), want)
	}
	for k := max(0, len(b)-12); k < len(b); k++ {
		c.prefix(b, k, want)
	}
	c.Distinct(b)
}

// techEncoder picks an encoder of a kind with a technique.
func (g *Gen) techEncoder(kind string) (encoding.Encoder, string) {
	switch kind {
	case kPos:
		t := position.StorageTechnique(g.n(4))
		return position.NewEncoder(t), fmt.Sprint("position ", t)
	case kEuler:
		t := euler.StorageTechnique(g.n(3))
		return euler.NewEncoder(t), fmt.Sprint("euler ", t)
	case kFloat:
		t := float.StorageTechnique(g.n(3))
		return float.NewEncoder(t), fmt.Sprint("float ", t)
	case kEnum:
		return enum.NewEncoder(), "enum"
	}
	return event.NewEncoder(), "event"
}

func c14payload(c *C) {
	g := newGen(c.R)
	g.Plain = true
	kind := allKinds[c.Idx%len(allKinds)]
	enc, name := g.techEncoder(kind)
	n := pick(g, 0, 1, 1, 2, 2, 3, 5, 12)
	m := g.CollN(kind, n)
	header, ps, err := enc.Encode([]format.CaptureCollection{m.Build()})
	if err != nil {
		c.Fail("encode-error", "%s: %v", name, err)
	}
	p := ps[0]
	ts := times(m.Caps)
	full, err := enc.Decode("x", header, p, ts)
	if err != nil {
		c.Fail("decode-error", "%s: %v", name, err)
	}
	want, err := snapColl(full)
	if err != nil {
		c.Fail("decode-broken", "%s: %v", name, err)
	}
	ws := MRec{Colls: []MColl{want}}
	check := func(what string, h, p []byte) {
		got, err := enc.Decode("x", h, p, ts)
		c.Count("payload_cuts", 1)
		if err != nil {
			return
		}
		s, err := snapColl(got)
		if err != nil {
			c.Fail("cut-broken", "%s: %s: %v", name, what, err)
		}
		if e := equalModels(ws, MRec{Colls: []MColl{s}}); e != nil {
			c.Fail("cut-content", "%s with %d captures: %s accepted with other content: %v", name, n, what, e)
		}
	}
	c.Note("%s header %x payload %.2000x", name, header, p)
	for k := 0; k < len(p); k += 1 + len(p)/300 {
		check(fmt.Sprintf("payload cut to %d of %d bytes", k, len(p)), header, p[:k:k])
	}
	for k := max(0, len(p)-10); k < len(p); k++ {
		check(fmt.Sprintf("payload cut to %d of %d bytes", k, len(p)), header, p[:k:k])
	}
	for k := 0; k < len(header); k += 1 + len(header)/100 {
		check(fmt.Sprintf("header cut to %d of %d bytes", k, len(header)), header[:k:k], p)
	}
	c.DistinctS("%s %x %x", name, header, p)
}

// c14inner cuts one payload inside an otherwise consistent file.
func c14inner(c *C) {
	g := newGen(c.R)
	g.MaxCaps = 12
	w := g.Cfg()
	m := g.forCfg(w).Rec(g.n(2))
	h, b := refEncode(m, refOpts{cfg: w})
	finish := func() []byte {
		if w.Compress {
			return cat(h.bytes(), deflate(b.bytes(), 6))
		}
		return cat(h.bytes(), b.bytes())
	}
	full := finish()
	want, _ := c.mustLoad(full)
	for _, n := range affordable(g, b.flat(nil), len(full)) {
		if n.k != 'L' || n.role != "payload" {
			continue
		}
		var in bytes.Buffer
		for _, x := range n.c {
			x.render(&in)
		}
		if in.Len() == 0 {
			continue
		}
		keep := n.c
		for i := 0; i < 6; i++ {
			k := g.n(in.Len())
			if i == 0 {
				k = in.Len() - 1
			}
			n.c = []*node{nR(in.Bytes()[:k], "cut")}
			bad := finish()
			got, _, err := load(bytes.NewReader(bad))
			c.Count("payload_cuts", 1)
			if err == nil {
				err := equalModels(want, got)
				if err != nil {
					c.Note("file %.3000x", bad)
					c.Fail("inner-content", "payload cut to %d of %d bytes in an otherwise intact file (%v): accepted with other content: %v", k, in.Len(), w, err)
				}
			} else if _, b := err.(snapError); b {
				c.Note("file %.3000x", bad)
				c.Fail("inner-broken", "payload cut to %d of %d bytes (%v): broken recording: %v", k, in.Len(), w, err)
			}
		}
		n.c = keep
	}
	c.Distinct(full)
}

// --- C15 --------------------------------------------------------------------

// hostile loads bytes and checks termination, memory and the outcome. plain is
// the number of uncompressed bytes the input stands for.
func (c *C) hostile(b []byte, plain int) {
	var rec format.Recording
	var err error
	al := allocOf(func() { rec, _, err = rapio.NewReader(fullEncoders(), bytes.NewReader(b)).Read() })
	limit := uint64(24<<20) + 1500*uint64(max(plain, len(b)))
	c.Max("alloc_mb", int(al>>20))
	if al > limit {
		c.Fail("alloc", "%d bytes of input (%d uncompressed) made loading allocate %d bytes", len(b), plain, al)
	}
	c.Count("inputs", 1)
	c.Distinct(b)
	if err != nil {
		c.Count("refused", 1)
		return
	}
	c.Count("accepted", 1)
	c.usable(rec, b)
}

// c15products loads files which hold much of several sorts of things: what
// they take adds up, it does not multiply.
func c15products(c *C) {
	g := newGen(c.R)
	k := pick(g, 2, 2, 2, 3, 4)
	dims, ways, name := severalDims(g, k, true)
	c.product(g, together(name, dims, ways), "alloc")
}

// c15dictionaries: see c39dictionaries.
func c15dictionaries(c *C) {
	a := dictionaries[c.Idx%len(dictionaries)]
	c.product(newGen(c.R), together(a, []dim{dimOf(a), dimOf("collections")}, []int{0, 0}), "alloc:dictionary:"+a)
}

func (c *C) product(g *Gen, d dim, key string) {
	w := g.Cfg()
	w.Order, w.Compress = nil, g.p(0.3)
	n := 1000
	var b []byte
	size := 0
	for {
		m := d.build(n)
		b, size = c.mustWrite(w, m)
		if key == "alloc" && len(b) > 150_000 || size > 250_000 || n > 60_000 {
			break
		}
		n *= 2
	}
	c.Note("%s at %d: %d bytes", d.name, n, len(b))
	var err error
	al := allocOf(func() { _, _, err = rapio.NewReader(fullEncoders(), bytes.NewReader(b)).Read() })
	if err != nil {
		c.Fail("product-refused", "%s: %v", d.name, err)
	}
	c.Count("products", 1)
	c.Max("bytes_per_byte:"+key, int(al/uint64(size)))
	if limit := uint64(4<<20) + 200*uint64(size); al > limit {
		c.Fail(key, "%s: loading %d bytes (%d uncompressed) allocates %d bytes", d.name, len(b), size, al)
	}
	c.DistinctS("%s %v", d.name, w)
}

// usable exercises every part of an accepted recording.
func (c *C) usable(rec format.Recording, b []byte) {
	if rec == nil {
		c.Fail("nil-recording", "no error and no recording")
	}
	m, err := snap(rec)
	if err != nil {
		c.Fail("unusable", "accepted recording is broken: %v", err)
	}
	if plainDepth(m) > 2000 {
		// Cheaper uses only; the writer's work grows with the depth.
		format.Validate(rec)
		rec.Metadata()
		return
	}
	var views func(r format.Recording)
	views = func(r format.Recording) {
		for _, x := range r.CaptureCollections() {
			for i := 0; i < x.Length(); i++ {
				_ = x.CaptureAt(i).String()
			}
			if x.Length() > 0 {
				x.Start()
				x.End()
			}
		}
		for _, p := range r.Metadata().Mapping() {
			_ = p.String()
		}
		for _, s := range r.Recordings() {
			views(s)
		}
	}
	views(rec)
	format.Validate(rec)
	format.RecordingDuration(rec)
	s := format.Slice(rec)
	if _, err := snap(s); err != nil {
		c.Fail("unusable", "slice of an accepted recording is broken: %v", err)
	}
	w := WCfg{}
	out, _, err := writeRec(w, rec)
	if err != nil {
		c.Fail("unusable", "accepted recording cannot be written: %v", err)
	}
	again, _, err := load(bytes.NewReader(out))
	if err != nil {
		c.Fail("unusable", "accepted recording, written again, cannot be read: %v", err)
	}
	if err := equalModels(m, again); err != nil {
		c.Fail("unusable", "accepted recording changes when written again: %v", err)
	}
	if len(b) > 0 && b[0] == 2 {
		ref, _, rerr := refDecode(b)
		switch {
		case rerr == nil:
			if err := nearModels(ref, m); err != nil {
				c.Fail("other-content", "accepted, but with other content than the file holds: %v", err)
			}
			c.Count("agree_with_reference", 1)
		case errors.Is(rerr, io.ErrUnexpectedEOF) || errors.Is(rerr, errIndex):
			c.Fail("damage-accepted", "the reference decoder refuses it (%v), yet it is accepted", rerr)
		default:
			c.Count("lenient", 1)
		}
	}
}

// plainDepth is the nesting of sub-recordings and of metadata.
func plainDepth(m MRec) int {
	d := 0
	for _, r := range m.Recs {
		d = max(d, plainDepth(r))
	}
	return d + 1
}

func (g *Gen) hugeNum() uint64 {
	return pick(g, 0, 1, 2, 127, 128, 255, 256, 1000, 65535, 1<<16, 1<<20, 1<<24, 1<<27, 1<<28, 1<<30, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<35, 1<<40, 1<<48, 1<<59, 1<<60, 1<<61, 1<<62, 1<<63-1, 1<<63, 1<<63+1, math.MaxUint64-1, math.MaxUint64, uint64(g.n(40)), g.r.Uint64())
}

// richRec has every kind of collection, metadata and attachment.
func (g *Gen) richRec() MRec {
	g.MaxCaps = 5
	m := MRec{ID: g.Name(), Name: g.Name(), Meta: g.Meta(2, 5)}
	for _, k := range allKinds {
		m.Colls = append(m.Colls, g.CollN(k, 1+g.n(3)))
	}
	m.Refs = append(m.Refs, MRef{Name: "r", URI: "u", Size: g.r.Uint64(), Meta: g.Meta(1, 2)})
	m.Bins = append(m.Bins, MBin{Name: "b", Data: g.bytes(g.n(9)), Meta: g.Meta(1, 2)})
	m.Recs = append(m.Recs, g.Rec(1))
	return m
}

// c15field gives every single field of one file hostile values, one by one.
func c15field(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	w.Compress = c.Idx%3 == 2
	g.forCfg(w)
	var m MRec
	if c.Idx%2 == 0 {
		m = g.richRec()
	} else {
		g.Small, g.MaxCaps = true, 3
		m = g.Rec(1)
	}
	h, b := refEncode(m, refOpts{cfg: w})
	nodes := append(h.flat(nil), b.flat(nil)...)
	for i := 0; i < 24; i++ {
		n := nodes[g.n(len(nodes))]
		keep := *n
		switch n.k {
		case 'V':
			n.v = pick(g, n.v+1, n.v-1, n.v*2, g.hugeNum(), g.hugeNum(), g.hugeNum())
		case 'L':
			n.lie = true
			n.lieN = g.hugeNum()
		case 'B':
			n.v = uint64(g.n(256))
		default:
			continue
		}
		body := b.bytes()
		f := cat(h.bytes(), body)
		if w.Compress {
			f = cat(h.bytes(), deflate(body, 6))
		}
		c.Note("field %s set to %d (length %v %d): %.3000x", n.role, n.v, n.lie, n.lieN, f)
		c.hostile(f, len(body)+len(f))
		c.Count("field."+n.role, 1)
		*n = keep
	}
}

// c15wrapped adds powers of two to every number and length of a file: none of
// them may pass for what is left of it in fewer bits.
// affordable leaves a random part of the fields when there are so many that
// a file for each is too much.
func affordable(g *Gen, all []*node, size int) (out []*node) {
	n := max(40, 4_000_000/(size+1))
	if len(all) <= n {
		return all
	}
	for _, x := range all {
		if g.n(len(all)) < n {
			out = append(out, x)
		}
	}
	return
}

func c15wrapped(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	w.Compress = false
	g.forCfg(w)
	m := g.richRec()
	if c.Idx%2 == 0 {
		g.Small, g.MaxCaps = true, 3
		m = g.Rec(1)
	}
	h, b := refEncode(m, refOpts{cfg: w})
	for _, n := range affordable(g, append(h.flat(nil), b.flat(nil)...), len(h.bytes())+len(b.bytes())) {
		if n.k != 'V' && n.k != 'L' {
			continue
		}
		keep := *n
		real := n.v
		if n.k == 'L' {
			real = 0
			for _, x := range n.c {
				real += uint64(len(x.bytes()))
			}
		}
		for _, bit := range []int{8, 15, 16, 31, 32, 48, 63} {
			if n.k == 'V' {
				n.v = real + 1<<bit
			} else {
				n.lie, n.lieN = true, real+1<<bit
			}
			f := cat(h.bytes(), b.bytes())
			c.Note("field %s: %d instead of %d: %.3000x", n.role, real+1<<bit, real, f)
			c.hostile(f, 2*len(f))
			c.Count("wrapped", 1)
			*n = keep
		}
	}
}

// mutateTree applies a structural change to a field tree.
func (g *Gen) mutateTree(nodes []*node) string {
	n := nodes[g.n(len(nodes))]
	what := n.role
	switch n.k {
	case 'V':
		n.v = pick(g, n.v+1, n.v-1, g.hugeNum(), uint64(g.n(6)))
	case 'B':
		n.v = uint64(pick(g, g.n(256), g.n(30)))
	case 'R':
		switch g.n(4) {
		case 0:
			if len(n.b) > 0 {
				n.b = n.b[:g.n(len(n.b))]
			}
		case 1:
			n.b = append(append([]byte{}, n.b...), g.bytes(1+g.n(9))...)
		default:
			n.b = g.bytes(len(n.b))
		}
	case 'L':
		if g.p(0.5) {
			n.lie, n.lieN = true, g.hugeNum()
			break
		}
		fallthrough
	case 'S':
		if len(n.c) == 0 {
			break
		}
		i := g.n(len(n.c))
		switch g.n(4) {
		case 0:
			n.c = append(append([]*node{}, n.c[:i]...), n.c[i+1:]...)
		case 1:
			n.c = insertAt(n.c, g.n(len(n.c)), n.c[i])
		case 2:
			j := g.n(len(n.c))
			n.c = append([]*node{}, n.c...)
			n.c[i], n.c[j] = n.c[j], n.c[i]
		case 3:
			n.c = insertAt(n.c, i, nodes[g.n(len(nodes))])
		}
	}
	return what
}

// acyclic guards against a subtree inserted into itself.
func acyclic(n *node, depth int, budget *int) bool {
	*budget--
	if depth > 200 || *budget < 0 {
		return false
	}
	for _, x := range n.c {
		if !acyclic(x, depth+1, budget) {
			return false
		}
	}
	return true
}

func c15mutate(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	w.Compress = g.p(0.25)
	g.forCfg(w)
	var m MRec
	if g.p(0.4) {
		m = g.richRec()
	} else {
		g.Small, g.MaxCaps = true, 5
		m = g.Rec(g.n(3))
	}
	h, b := refEncode(m, refOpts{cfg: w, extra: g.p(0.3)})
	what := ""
	for i := 1 + g.n(4); i > 0; i-- {
		nodes := b.flat(nil)
		if g.p(0.2) {
			nodes = append(nodes, h.flat(nil)...)
		}
		what += " " + g.mutateTree(nodes)
		bud := 100000
		if !acyclic(b, 0, &bud) || !acyclic(h, 0, &bud) {
			return
		}
	}
	body := b.bytes()
	if len(body) > 1<<20 {
		return
	}
	f := cat(h.bytes(), body)
	if w.Compress {
		f = cat(h.bytes(), deflate(body, 6))
	}
	c.Note("mutated%s: %.3000x", what, f)
	c.hostile(f, len(body)+len(f))
	c.Sample(what)
}

func (g *Gen) mutateBytes(b []byte) []byte {
	b = append([]byte{}, b...)
	for i := 1 + g.n(5); i > 0 && len(b) > 0; i-- {
		k := g.n(len(b))
		switch g.n(6) {
		case 0:
			b[k] ^= 1 << g.n(8)
		case 1:
			b[k] = byte(pick(g, 0, 1, 0x7f, 0x80, 0xff, g.n(256)))
		case 2:
			b = append(b[:k:k], b[min(len(b), k+1+g.n(4)):]...)
		case 3:
			b = insertBytes(b, k, g.bytes(1+g.n(4)))
		case 4:
			b = insertBytes(b, k, binary.AppendUvarint(nil, g.hugeNum()))
		case 5:
			j := g.n(len(b))
			n := min(1+g.n(8), len(b)-j)
			b = insertBytes(b, k, append([]byte{}, b[j:j+n]...))
		}
	}
	return b
}

func insertBytes(b []byte, k int, x []byte) []byte {
	return cat(b[:k], x, b[k:])
}

func c15bytes(c *C) {
	g := newGen(c.R)
	g.Small = g.p(0.7)
	g.MaxCaps = 8
	b := c.smallFile(g, 1+g.n(2))
	h := headLen(b)
	var f []byte
	plain := 0
	if b[h-1] == 1 {
		body, _ := io.ReadAll(newInflate(b[h:]))
		if g.p(0.5) {
			body = g.mutateBytes(body)
			f = cat(b[:h], deflate(body, 6))
			plain = len(body)
		} else {
			f = g.mutateBytes(b)
			plain = len(f) * 1100
			if len(f) >= h {
				x, _ := io.ReadAll(io.LimitReader(newInflate(f[h:]), 1<<24))
				plain = len(x) + len(f)
			}
		}
	} else {
		f = g.mutateBytes(b)
	}
	c.Note("%.4000x", f)
	c.hostile(f, plain+len(f)+256)
}

func c15random(c *C) {
	g := newGen(c.R)
	b := g.bytes(g.n(200))
	switch g.n(5) {
	case 0:
	case 1:
		b = cat([]byte{2}, b)
	case 2:
		b = cat([]byte{2, 0, 0}, b) // no encoders, not compressed
	case 3:
		b = cat([]byte{2}, nStrs([]string{"recolude.event", "recolude.enum", "recolude.position"}, "").bytes(), []byte{0, 0, 0, 0}, b)
	case 4:
		// Small values reach further.
		for i := range b {
			b[i] &= byte(pick(g, 0x03, 0x0f, 0x1f))
		}
		b = cat([]byte{2, 0, 0}, b)
	}
	c.Note("%x", b)
	c.hostile(b, 1100*len(b))
}

// c15decoder hands hostile payloads to the decoders themselves.
func c15decoder(c *C) {
	g := newGen(c.R)
	kind := allKinds[c.Idx%len(allKinds)]
	enc, name := g.techEncoder(kind)
	n := pick(g, 0, 1, 2, 3, 6)
	m := g.CollN(kind, n)
	header, ps, err := enc.Encode([]format.CaptureCollection{m.Build()})
	if err != nil {
		c.Fail("encode-error", "%v", err)
	}
	p := ps[0]
	ts := times(m.Caps)
	switch g.n(4) {
	case 0:
		p = g.mutateBytes(p)
	case 1:
		header = g.mutateBytes(header)
	case 2:
		header, p = g.mutateBytes(header), g.mutateBytes(p)
	case 3:
		p = g.bytes(g.n(60))
		if len(p) > 0 && g.p(0.7) {
			p[0] &= 3
		}
	}
	if g.p(0.2) {
		ts = g.Times(g.n(9))
	}
	c.Note("%s header %x payload %x times %v", name, header, p, ts)
	var got format.CaptureCollection
	al := allocOf(func() { got, err = enc.Decode("x", header, p, ts) })
	if limit := uint64(4<<20) + 1500*uint64(len(header)+len(p)+8*len(ts)); al > limit {
		c.Fail("alloc", "%s: %d bytes of input made decoding allocate %d bytes", name, len(header)+len(p), al)
	}
	c.Count("inputs", 1)
	c.DistinctS("%s %x %x %v", name, header, p, ts)
	if err != nil {
		c.Count("refused", 1)
		return
	}
	s, err := snapColl(got)
	if err != nil {
		c.Fail("decoder-broken", "%s: %v", name, err)
	}
	if len(s.Caps) != len(ts) {
		c.Fail("decoder-captures", "%s: %d captures for %d timestamps", name, len(s.Caps), len(ts))
	}
	for i := range ts {
		if !same(ts[i], s.Caps[i].T) {
			c.Fail("decoder-time", "%s: capture %d at %v instead of %v", name, i, s.Caps[i].T, ts[i])
		}
	}
	c.Count("accepted", 1)
	// The reference implementation agrees on what the payload holds.
	if kind == kPos || kind == kEuler || kind == kFloat {
		vs, rerr := refVec(kind, p, len(ts))
		if rerr == nil {
			for ax := 0; ax < 3; ax++ {
				want := make([]float64, len(vs))
				for i := range vs {
					want[i] = vs[i][ax]
				}
				if got := axis(s.Caps, ax); !nearColumn(want, got) {
					c.Fail("decoder-content", "%s: axis %d is %v, the payload says %v", name, ax, got, want)
				}
			}
			c.Count("agree_with_reference", 1)
		} else if errors.Is(rerr, io.ErrUnexpectedEOF) {
			c.Fail("damage-accepted", "%s: payload of %d bytes is too short for %d captures, yet accepted", name, len(p), len(ts))
		}
	}
}

func c15v1(c *C) {
	g := newGen(c.R)
	g.Small = g.p(0.7)
	g.MaxCaps = 6
	m := g.v1()
	p := m.proto(g)
	var f []byte
	switch g.n(6) {
	case 0:
		f = g.mutateBytes(m.file(nil))
		if len(f) > 0 {
			f[0] = 1
		}
	case 1, 2:
		p = g.mutateBytes(p)
		z := deflate(p, 6)
		f = v1Frame(1, 1, uint64(len(z)), z)
	case 3:
		z := deflate(p, 6)
		f = v1Frame(1, uint32(pick(g, 1, 1, 1, g.n(5))), g.hugeNum(), z)
	case 4:
		p = g.bytes(g.n(100))
		z := deflate(p, 6)
		f = v1Frame(1, 1, uint64(len(z)), z)
	case 5: // nested groups and lengths
		d := 1 + g.n(2000)
		p = bytes.Repeat([]byte{pick(g, byte(0x0b), 0x7b, 0x83)}, d)
		z := deflate(p, 6)
		f = v1Frame(1, 1, uint64(len(z)), z)
	}
	c.Note("%.4000x", f)
	plain := len(p)
	if len(f) > 13 {
		x, _ := io.ReadAll(io.LimitReader(newInflate(f[13:]), 1<<24))
		plain = max(plain, len(x))
	}
	c.hostile(f, plain+len(f))
}

// c15deep nests recordings and metadata very deeply.
func c15deep(c *C) {
	depth := []int{50, 3000, 9990, 100000, 2000000, 6000000}[c.Idx%6]
	what := c.Idx / 6 % 4
	var body bytes.Buffer
	pre := []byte{2, 0, 0} // no encoders, plain
	switch what {
	case 0: // sub-recordings
		body.Write([]byte{0}) // metadata keys
		level := []byte{0, 0, 0, 0, 0, 0, 1}
		for i := 0; i < depth; i++ {
			body.Write(level)
		}
		body.Write([]byte{0, 0, 0, 0, 0, 0, 0})
	case 1: // nested metadata
		body.Write([]byte{1, 1, 'k'}) // metadata keys
		body.Write([]byte{0, 0, 1, 0, 11})
		for i := 0; i < depth; i++ {
			body.Write([]byte{1, 0, 11})
		}
		body.Write([]byte{0, 0, 0, 0, 0})
	case 2: // arrays of blocks of arrays of blocks
		body.Write([]byte{1, 1, 'k'})
		body.Write([]byte{0, 0, 1, 0, 24})
		for i := 0; i < depth; i++ {
			body.Write([]byte{1, 1, 0, 24})
		}
		body.Write([]byte{0, 0, 0, 0, 0})
	case 3: // in an event payload
		pl := []byte{0, 1, 0, 11}
		var p bytes.Buffer
		p.Write(pl)
		for i := 0; i < depth; i++ {
			p.Write([]byte{1, 0, 11})
		}
		p.Write([]byte{0})
		pre = cat([]byte{2}, nStrs([]string{"recolude.event"}, "").bytes(), []byte{0, 0})
		body.Write(nL("", nStrs([]string{"e"}, ""), nStrs([]string{"k"}, "")).bytes())
		body.Write([]byte{0})                         // metadata keys
		body.Write([]byte{0, 0, 0, 1, 0, 0})          // id, name, metadata, one collection: encoder 0, name
		body.Write([]byte{0, 1})                      // time technique, one capture
		body.Write(make([]byte, 8))                   // time
		body.Write(nL("", nR(p.Bytes(), "")).bytes()) // payload
		body.Write([]byte{0, 0, 0})
	}
	f := cat(pre, body.Bytes())
	if c.Idx%2 == 1 {
		pre[len(pre)-1] = 1
		f = cat(pre, deflate(body.Bytes(), 6))
	}
	c.Note("%d levels of kind %d, %d bytes", depth, what, len(f))
	c.hostile(f, body.Len())
	c.Max("levels", depth)
}

// claims are values of a type code, which may be none of the format's, that
// claim from none to the most elements there can be, with few or no bytes
// behind them: bare, in an array, in a block, in an array of blocks.
func claims(code byte) [][]byte {
	var out [][]byte
	for _, count := range []uint64{0, 1, 3, 1 << 10, 1 << 21, 1 << 23, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64} {
		n := binary.AppendUvarint(nil, count)
		for _, tail := range [][]byte{nil, {0}, {1, 1, 'a', 3}, make([]byte, 300), bytes.Repeat([]byte{1}, 300)} {
			v := cat([]byte{code}, n, tail)
			out = append(out, v)
			if len(tail) < 300 {
				out = append(out, cat([]byte{11, 1, 1, 'k'}, v), cat([]byte{24, 2, 1, 1, 'k'}, v), cat([]byte{24, 1, 1, 1, 'k', 11, 1, 1, 'k'}, v))
			}
		}
	}
	return out
}

// c15claims puts claims into the metadata of a recording, of an attachment and
// of an event.
func c15claims(c *C) {
	for i, v := range claims(byte(c.Idx)) {
		var body *node
		pre := []byte{2, 0}
		switch i % 4 {
		case 0, 1: // recording
			body = nS("", nStrs([]string{"k"}, ""), nR([]byte{0, 0, 1, 0}, ""), nR(v, ""), nR([]byte{0, 0, 0, 0}, ""))
		case 2: // attachment
			body = nS("", nStrs([]string{"k"}, ""), nR([]byte{0, 0, 0, 0, 0, 1, 1, 'b', 0, 1, 0}, ""), nR(v, ""), nR(make([]byte, 9), ""))
		case 3: // event
			pre = cat([]byte{2}, nStrs([]string{"recolude.event"}, "").bytes(), []byte{0})
			body = nS("", nL("", nStrs([]string{"e"}, ""), nStrs([]string{"k"}, "")), nR([]byte{0, 0, 0, 0, 1, 0, 0, 0, 1}, ""), nR(make([]byte, 8), ""),
				nL("", nR(cat([]byte{0, 1, 0}, v), "")), nR([]byte{0, 0, 0}, ""))
		}
		plain := body.bytes()
		f := cat(pre, []byte{0}, plain)
		if i%3 == 2 {
			f = cat(pre, []byte{1}, deflate(plain, 6))
		}
		c.Note("a value that begins %.40x in a file %.4000x", v, f)
		c.hostile(f, len(plain)+len(f))
		c.Count("claims", 1)
	}
}

// c15bomb: small compressed inputs which inflate to much, and plain inputs
// which declare much.
func c15bomb(c *C) {
	g := newGen(c.R)
	size := 4 << 20
	zero := bytes.Repeat([]byte{byte(pick(g, 0, 1, 0xff, 'a'))}, size)
	var body *node
	switch c.Idx % 6 {
	case 0: // a long name
		body = nS("", nV(0, ""), nL("", nR(zero, "")), nR([]byte{0, 0, 0, 0, 0, 0}, ""))
	case 1: // a name that claims more than is there
		body = nS("", nV(0, ""), &node{k: 'L', lie: true, lieN: g.hugeNum() | 1<<33, c: []*node{nR(zero, "")}})
	case 2: // a dictionary of many empty keys
		body = nS("", nV(uint64(size), ""), nR(bytes.Repeat([]byte{0}, size), ""), nR([]byte{0, 0, 0, 0, 0, 0, 0}, ""))
	case 3: // a binary that claims more than is there
		body = nS("", nV(0, ""), nR([]byte{0, 0, 0, 0, 0, 1, 0}, ""), nV(1<<40, ""), nV(0, ""), nR(zero, ""))
	case 4: // many sub-recordings, all empty
		k := size / 7
		body = nS("", nV(0, ""), nR([]byte{0, 0, 0, 0, 0, 0}, ""), nV(uint64(k), ""), nR(make([]byte, 7*k), ""))
	case 5: // an array of very many values
		k := size
		body = nS("", nStrs([]string{"k"}, ""), nR([]byte{0, 0, 1, 0, 18}, ""), nV(uint64(k), ""), nR(make([]byte, k), ""), nR([]byte{0, 0, 0, 0}, ""))
	}
	plain := body.bytes()
	f := cat([]byte{2, 0, 1}, deflate(plain, 9))
	if c.Idx/6%2 == 1 {
		f = cat([]byte{2, 0, 0}, plain)
	}
	c.Note("kind %d, %d bytes for %d", c.Idx%6, len(f), len(plain))
	c.hostile(f, len(plain))
	if c.Idx/12%2 == 1 {
		z := deflate(plain, 9)
		c.hostile(v1Frame(1, 1, uint64(len(z)), z), len(plain))
	}
}
