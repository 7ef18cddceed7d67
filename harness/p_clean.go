package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
	"go.mongodb.org/mongo-driver/bson"
)

// C42: operations keep to what they are given.

func init() {
	register(&Prop{
		ID: "C42", Level: "exploration",
		Rule: "distinct by the file, document or recording",
		Assumptions: []string{
			"what a process touches is observed through its standard streams, descriptors, goroutines, working and temporary directory and environment",
		},
		Need: map[string]int64{"watched": 8000, "sources": 2000, "sinks": 1800, "failed_reads": 300, "failed_writes": 500, "scribbled": 4000, "payloads": 5000},
		Fams: []Family{
			{Name: "sources", Quick: 1200, Thorough: 20000, Run: c42sources},
			{Name: "sinks", Quick: 1000, Thorough: 20000, Run: c42sinks},
			{Name: "encoders", Quick: 1000, Thorough: 20000, Run: c42encoders},
			{Name: "values", Quick: 800, Thorough: 16000, Run: c42values},
			{Name: "recordings", Quick: 600, Thorough: 10000, Run: c42recordings},
		},
	})
}

// stream watches the calls made to a source or sink which could be closed.
type stream struct {
	mu   sync.Mutex
	over bool
	bad  string
}

func (s *stream) call(what string, allowed bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.over {
		s.bad = what + " after the operation has returned"
	} else if !allowed && s.bad == "" {
		s.bad = what
	}
}

func (s *stream) end() { s.mu.Lock(); s.over = true; s.mu.Unlock() }

func (s *stream) verdict() string { s.mu.Lock(); defer s.mu.Unlock(); return s.bad }

// openSource is a source which can be closed and sought.
type openSource struct {
	stream
	*bytes.Reader
}

func (s *openSource) Read(p []byte) (int, error) { s.call("read", true); return s.Reader.Read(p) }
func (s *openSource) ReadByte() (byte, error)    { s.call("read", true); return s.Reader.ReadByte() }
func (s *openSource) WriteTo(w io.Writer) (int64, error) {
	s.call("read", true)
	return s.Reader.WriteTo(w)
}
func (s *openSource) Seek(o int64, w int) (int64, error) {
	s.call("sought", o == 0 && w == io.SeekCurrent)
	return s.Reader.Seek(o, w)
}
func (s *openSource) Close() error { s.call("closed", false); return nil }

// plainSource can only be read and closed.
type plainSource struct {
	stream
	r    *bytes.Reader
	fail error
}

func (s *plainSource) Read(p []byte) (int, error) {
	s.call("read", true)
	n, err := s.r.Read(p)
	if err == io.EOF && s.fail != nil {
		err = s.fail
	}
	return n, err
}
func (s *plainSource) Close() error { s.call("closed", false); return nil }

// openSink is a sink which can be closed and more.
type openSink struct {
	stream
	got   bytes.Buffer
	limit int
}

func (s *openSink) Write(p []byte) (int, error) {
	s.call("written", true)
	if s.limit >= 0 && s.got.Len()+len(p) > s.limit {
		n := s.limit - s.got.Len()
		s.got.Write(p[:n])
		return n, errInjected
	}
	return s.got.Write(p)
}
func (s *openSink) Close() error         { s.call("closed", false); return nil }
func (s *openSink) Truncate(int64) error { s.call("truncated", false); return nil }
func (s *openSink) Sync() error          { s.call("synchronised", false); return nil }
func (s *openSink) Flush() error         { s.call("flushed", false); return nil }
func (s *openSink) Seek(o int64, w int) (int64, error) {
	s.call("sought", o == 0 && w == io.SeekCurrent)
	return int64(s.got.Len()), nil
}
func (s *openSink) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

// surroundings is what a process shows besides its memory.
type surroundings struct {
	fds, env, cwd, files, flags string
	routines                    int
}

func lookAround(dir string) surroundings {
	var s surroundings
	s.routines = runtime.NumGoroutine()
	es, _ := os.ReadDir("/proc/self/fd")
	var fds []string
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && !strings.HasPrefix(t, "/proc/") && !strings.HasPrefix(t, "anon_inode:") {
			fds = append(fds, t)
		}
	}
	sort.Strings(fds)
	s.fds = strings.Join(fds, " ")
	env := os.Environ()
	sort.Strings(env)
	s.env = strings.Join(env, "\n")
	s.cwd, _ = os.Getwd()
	var files []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil {
			files = append(files, fmt.Sprint(p, " ", i.Size(), " ", i.Mode()))
		}
		return nil
	})
	s.files = strings.Join(files, "\n")
	s.flags = fmt.Sprint(log.Flags(), log.Prefix())
	return s
}

func (s surroundings) differs(o surroundings) string {
	switch {
	case s.routines < o.routines:
		return fmt.Sprintf("%d goroutines run instead of %d", o.routines, s.routines)
	case s.fds != o.fds:
		return fmt.Sprintf("open descriptors are %s instead of %s", o.fds, s.fds)
	case s.env != o.env:
		return "the environment: " + firstDiff(s.env, o.env)
	case s.cwd != o.cwd:
		return fmt.Sprintf("the working directory is %s instead of %s", o.cwd, s.cwd)
	case s.files != o.files:
		return fmt.Sprintf("files: %s", firstDiff(s.files, o.files))
	case s.flags != o.flags:
		return "the settings of the standard logger"
	}
	return ""
}

// watch runs f in a directory of its own and reports what it did besides.
func (c *C) watch(what string, f func()) {
	dir, done := c.caseDir()
	defer done()
	prints, err := os.Create(filepath.Join(c.Env.Scratch, fmt.Sprintf("prints-%d", os.Getpid())))
	if err != nil {
		panic(err)
	}
	defer func() { prints.Close(); os.Remove(prints.Name()) }()
	back, _ := os.Getwd()
	tmp, hadTmp := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", dir)
	os.Chdir(dir)
	out, _ := syscall.Dup(1)
	errs, _ := syscall.Dup(2)
	restored := false
	restore := func() {
		if restored {
			return
		}
		restored = true
		syscall.Dup3(out, 1, 0)
		syscall.Dup3(errs, 2, 0)
		syscall.Close(out)
		syscall.Close(errs)
		os.Chdir(back)
		if hadTmp {
			os.Setenv("TMPDIR", tmp)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}
	defer restore()
	syscall.Dup3(int(prints.Fd()), 1, 0)
	syscall.Dup3(int(prints.Fd()), 2, 0)
	before := lookAround(dir)
	f()
	after := lookAround(dir)
	diff := before.differs(after)
	for i := 0; diff != "" && i < 300; i++ {
		// What ends on its own soon after is not left behind.
		time.Sleep(10 * time.Millisecond)
		after = lookAround(dir)
		diff = before.differs(after)
	}
	restore()
	if text, _ := os.ReadFile(prints.Name()); len(text) > 0 {
		c.Fail("prints", "%s prints %q", what, trunc(string(text), 300))
	}
	if diff != "" {
		c.Fail("leaves", "%s leaves something behind: %s", what, diff)
	}
	c.Count("watched", 1)
}

func scribble(g *Gen, b []byte) {
	for i := range b {
		b[i] = ^b[i]
	}
	if g.p(0.5) {
		clear(b)
	}
}

// c42sources: what was loaded does not depend on the source.
func c42sources(c *C) {
	g := newGen(c.R)
	g.Small = true
	kind := g.n(3)
	file := c.smallFile(g, kind)
	if c.Idx%40 == 7 {
		// More than any buffer holds.
		m := MRec{Name: "long", Colls: []MColl{g.CollN(kFloat, 20000)}, Bins: []MBin{{Name: "b", Data: g.bytes(100000), Meta: Meta{}}}}
		kind = 1 + g.n(2)
		file, _ = c.mustWrite(WCfg{Compress: kind == 2}, m)
	}
	switch g.n(14) {
	case 0, 1:
		file = file[:g.n(len(file)+1)]
	case 2, 3:
		file = g.mutateBytes(append([]byte(nil), file...))
	case 4:
		file = append([]byte{byte(g.n(256))}, file[1:]...)
	case 5:
		// Other things follow.
		file = cat(file, g.bytes(g.n(40000)))
	}
	c.Note("file %.6000x", file)
	c.Distinct(file)
	want, _, wantErr := load(bytes.NewReader(file))
	mem := append([]byte(nil), file...)
	var src io.Reader
	var watch *stream
	var after func()
	ends := "memory"
	switch g.n(6) {
	case 0, 1:
		s := &openSource{Reader: bytes.NewReader(mem)}
		src, watch = s, &s.stream
	case 2:
		s := &plainSource{r: bytes.NewReader(mem)}
		if g.p(0.3) {
			s.fail = pick(g, errInjected, error(io.ErrClosedPipe))
		}
		src, watch = s, &s.stream
	case 3:
		src = pick[io.Reader](g, bytes.NewReader(mem), bytes.NewBuffer(mem))
	case 4:
		src = bufio.NewReaderSize(bytes.NewReader(mem), 16<<g.n(12))
		after = func() {
			src.(*bufio.Reader).Reset(strings.NewReader(strings.Repeat("\xee", 5000)))
			src.(*bufio.Reader).Peek(5000)
		}
	case 5:
		ends = "file"
		dir, done := c.caseDir()
		defer done()
		f, err := os.OpenFile(c.own(filepath.Join(dir, "in.rap"), mem, 0o644), os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		src = f
		after = func() {
			if _, err := f.Seek(0, io.SeekStart); err != nil {
				c.Fail("closed", "loading closed the file it was given: %v", err)
			}
			f.Write(bytes.Repeat([]byte{0xee}, len(mem)))
			f.Truncate(0)
			f.Close()
		}
	}
	var rec format.Recording
	var err error
	c.watch("loading", func() { rec, _, err = rapio.NewReader(fullEncoders(), src).Read() })
	if watch != nil {
		watch.end()
	}
	if after != nil {
		after()
	}
	scribble(g, mem)
	c.Count("sources", 1)
	if err != nil {
		c.Count("failed_reads", 1)
	} else {
		if wantErr != nil {
			c.Fail("accepted", "accepted from one source and refused (%v) from another", wantErr)
		}
		got := c.mustSnap(rec, "loaded")
		mustEq(c, "source-memory", "a loaded recording, after the "+ends+" it came from has changed", want, got)
		c.Count("scribbled", 1)
	}
	if watch != nil {
		if bad := watch.verdict(); bad != "" {
			c.Fail("stream", "the source was %s", bad)
		}
	}
}

// c42sinks: a sink is only written to.
func c42sinks(c *C) {
	g := newGen(c.R)
	g.Small = true
	w := g.Cfg()
	g = g.forCfg(w)
	g.Small = true
	m := g.Shape()
	c.Note("%v %s", w, trunc(m.Canon(), 5000))
	c.DistinctS("%v %s", w, m.Canon())
	rec := m.Build()
	encs := w.Encoders()
	s := &openSink{limit: -1}
	switch g.n(6) {
	case 0, 1:
		full, _ := c.mustWrite(w, m)
		s.limit = g.n(len(full))
	case 2:
		r := toMut(rec, new([]*mutRec))
		r.recs = append(r.recs, nil)
		rec = r
	case 3:
		encs = nil
	}
	var err error
	c.watch("writing", func() { _, err = rapio.NewWriter(encs, w.Compress, s, w.Time).Write(rec) })
	s.end()
	if err != nil {
		c.Count("failed_writes", 1)
	}
	c.Count("sinks", 1)
	// Two more writes of another recording do not alter what was written.
	got := append([]byte(nil), s.got.Bytes()...)
	other := g.Shape()
	for i := 0; i < 2; i++ {
		c.mustWrite(w, other)
	}
	if !bytes.Equal(got, s.got.Bytes()) {
		c.Fail("sink-memory", "what a sink received changed afterwards")
	}
	if bad := s.verdict(); bad != "" {
		c.Fail("stream", "the sink was %s", bad)
	}
}

// c42encoders: encoders and collections share no memory.
func c42encoders(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g = g.forCfg(w)
	g.MaxCaps = 20
	kind := pick(g, allKinds...)
	var enc encoding.Encoder
	for _, e := range w.Encoders() {
		if e.Signature() == "recolude."+kind {
			enc = e
		}
	}
	type run struct {
		ms      []MColl
		head    []byte
		data    [][]byte
		h, d    string
		decoded []format.CaptureCollection
		want    []string
	}
	var runs []*run
	c.watch("encoding and decoding", func() {
		for i := 0; i < 2+g.n(3); i++ {
			r := &run{}
			for j := 0; j < 1+g.n(3); j++ {
				r.ms = append(r.ms, g.Coll(kind))
			}
			m := det(MRec{Colls: r.ms})
			c.note += "\n" + trunc(m.Canon(), 2000)
			c.DistinctS("%v %s", w, m.Canon())
			var err error
			if r.head, r.data, err = enc.Encode(m.Build().CaptureCollections()); err != nil {
				c.Fail("encode-error", "%v", err)
			}
			r.h, r.d = fmt.Sprintf("%x", r.head), fmt.Sprintf("%x", r.data)
			runs = append(runs, r)
		}
		for _, r := range runs {
			if r.h != fmt.Sprintf("%x", r.head) || r.d != fmt.Sprintf("%x", r.data) {
				c.Fail("encode-memory", "what encoding %s returned changed when something else was encoded", kind)
			}
		}
		for _, r := range runs {
			for i, x := range r.ms {
				// What decoding gives from memory of its own.
				clean, err := enc.Decode(x.Name, append([]byte(nil), r.head...), append([]byte(nil), r.data[i]...), times(x.Caps))
				if err != nil {
					c.Fail("decode-error", "%v", err)
				}
				s, err := snapColl(clean)
				if err != nil {
					c.Fail("decode-broken", "%v", err)
				}
				r.want = append(r.want, MRec{Colls: []MColl{s}}.Canon())
				head, data, ts := append([]byte(nil), r.head...), append([]byte(nil), r.data[i]...), times(x.Caps)
				got, err := enc.Decode(x.Name, head, data, ts)
				if err != nil {
					c.Fail("decode-error", "%v", err)
				}
				scribble(g, head)
				scribble(g, data)
				for i := range ts {
					ts[i] = math.Pi
				}
				r.decoded = append(r.decoded, got)
				c.Count("payloads", 1)
			}
		}
	})
	for _, r := range runs {
		for i, x := range r.decoded {
			s, err := snapColl(x)
			if err != nil {
				c.Fail("decode-broken", "%v", err)
			}
			if got := (MRec{Colls: []MColl{s}}).Canon(); got != r.want[i] {
				c.Fail("decode-memory", "a decoded %s collection changed with the header, payload or times it was decoded from: %s", kind, firstDiff(r.want[i], got))
			}
		}
	}
}

// c42values: the texts and bytes of values, and values made of them.
func c42values(c *C) {
	g := newGen(c.R)
	g.Text = true
	g.Finite = true
	v := g.Val(3)
	c.Note("%s", trunc(v.String(), 4000))
	c.DistinctS("%s", v.String())
	p := v.Prop()
	q := g.Val(3).Prop()
	type text struct {
		what string
		got  []byte
		was  string
	}
	var texts []text
	var back []metadata.Property
	keep := func(what string, b []byte, err error) {
		if err != nil {
			return // not every value can be stated
		}
		texts = append(texts, text{what, b, string(b)})
	}
	m := Meta{"k": v, "other": g.Val(2)}
	block := buildMeta(m)
	c.watch("storing and showing a value", func() {
		for _, x := range []metadata.Property{p, q, metadata.NewMetadataProperty(block)} {
			b, err := bson.Marshal(struct{ V metadata.Property }{x})
			keep("bson", b, err)
			if j, ok := x.(interface{ MarshalJSON() ([]byte, error) }); ok {
				b, err := j.MarshalJSON()
				keep("json", b, err)
			}
			keep("data", x.Data(), nil)
			_ = x.String()
			var buf bytes.Buffer
			if _, err := metadata.WriteProprty(&buf, x); err != nil {
				c.Fail("value-error", "%v", err)
			}
			mem := append([]byte(nil), buf.Bytes()...)
			y, err := metadata.ReadProperty(pick[io.Reader](g, bytes.NewReader(mem), bytes.NewBuffer(mem), bufio.NewReader(bytes.NewReader(mem))))
			if err != nil {
				c.Fail("value-error", "%v", err)
			}
			scribble(g, mem)
			back = append(back, y)
			metadata.ReadProperty(bytes.NewReader(g.mutateBytes(append([]byte(nil), buf.Bytes()...))))
			c.Count("scribbled", 1)
		}
	})
	for _, t := range texts {
		if t.was != string(t.got) {
			c.Fail("value-memory", "the %s of a value changed when others were stored", t.what)
		}
	}
	got, err := snapVal(back[0])
	if err != nil {
		c.Fail("value-broken", "%v", err)
	}
	if got.String() != v.String() {
		c.Fail("value-memory", "a value read from memory that has changed since: %s", firstDiff(v.String(), got.String()))
	}
	// Blocks read from text.
	js, err := metadata.NewMetadataProperty(block).MarshalJSON()
	if err != nil {
		return
	}
	var one, two metadata.MetadataProperty
	mem := append([]byte(nil), js...)
	c.watch("reading a block from text", func() {
		err1, err2 := one.UnmarshalJSON(append([]byte(nil), js...)), two.UnmarshalJSON(mem)
		if (err1 == nil) != (err2 == nil) {
			c.Fail("value-error", "%v, then %v", err1, err2)
		}
		err = err1
	})
	scribble(g, mem)
	if err != nil {
		return
	}
	a, errA := snapMeta(one.Block())
	b, errB := snapMeta(two.Block())
	if errA != nil || errB != nil {
		c.Fail("value-broken", "%v %v", errA, errB)
	}
	mustEq(c, "value-memory", "a block read from text that has changed since", MRec{Meta: a}, MRec{Meta: b})
}

// c42recordings: documents, and operations on recordings.
func c42recordings(c *C) {
	g := newGen(c.R)
	g.Text = true
	text := g.text(g.jdoc(g.n(3), true))
	if g.p(0.3) {
		text = g.mutateBytes(text)
	}
	c.Note("%s", trunc(string(text), 5000))
	c.Distinct(text)
	clean, cleanErr := parsing.FromJSON(append([]byte(nil), text...))
	mem := append([]byte(nil), text...)
	var rec format.Recording
	var err error
	c.watch("importing", func() { rec, err = parsing.FromJSON(mem) })
	scribble(g, mem)
	if (err == nil) != (cleanErr == nil) {
		c.Fail("import", "the same document gives %v, then %v", cleanErr, err)
	}
	if err == nil {
		mustEq(c, "import-memory", "an imported recording, after the text it came from has changed", c.mustSnap(clean, "imported"), c.mustSnap(rec, "imported"))
		c.Count("scribbled", 1)
	}
	g.Small = true
	g.Text = false
	g.Chrono = g.p(0.5)
	m := g.finiteTimes(g.Shape())
	c.note += "\n" + trunc(m.Canon(), 4000)
	c.DistinctS("%s", m.Canon())
	r := m.Build()
	c.watch("slicing, validating, measuring and exporting", func() {
		opts, _ := c.sliceOpts(g, g.bound(m), g.bound(m))
		s := format.Slice(r, opts...)
		for _, x := range []format.Recording{r, s} {
			err := format.Validate(x)
			_ = errors.Unwrap(err)
			if len(m.colls()) > 0 {
				format.RecordingStart(x)
				format.RecordingEnd(x)
				format.RecordingDuration(x)
			}
			exportMeta(x.Metadata())
		}
	})
	mustEq(c, "modified", "operations changed a recording", m, c.mustSnap(r, "afterwards"))
}
