package main

// Version 1 files: an encoder of our own (C17, C18), and the command line
// runner shared by all properties that observe rap-cli.

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	rapio "github.com/recolude/rap/format/io"
)

func init() {
	register(&Prop{
		ID: "C17", Level: "exploration",
		Rule: "distinct by file content",
		Need: map[string]int64{"files": 2000, "subjects": 2000, "captures": 20000, "refused": 1000, "sample_files": 2},
		Fams: []Family{
			{Name: "load", Quick: 3000, Thorough: 80000, Run: c17},
			{Name: "huge", Quick: 8, Thorough: 64, Run: c17huge},
			exact("exact", len(hugeV1Ways), 2, 1, c17huge),
			exact("exact-text", 1, 2, 1, c17text),
			{Name: "giant", Quick: 1, Thorough: 4, Run: c17giant},
			{Name: "refuse", Quick: 2000, Thorough: 40000, Run: c17refuse},
			{Name: "sample", Quick: 2, Thorough: 2, Run: c17sample},
		},
	})
	register(&Prop{
		ID: "C18", Level: "exploration",
		Rule: "distinct by file content",
		Need: map[string]int64{"upgrades": 250, "captures": 5000},
		Fams: []Family{
			{Name: "upgrade", Quick: 400, Thorough: 6000, Run: c18},
			{Name: "huge", Quick: 8, Thorough: 64, Run: c18huge},
			exact("exact", len(hugeV1Ways), 1, 0, c18huge),
			exact("exact-text", 1, 1, 1, c18text),
			{Name: "giant", Quick: 1, Thorough: 4, Run: c18giant},
			{Name: "sample", Quick: 2, Thorough: 2, Run: c18sample},
			{Name: "v2", Quick: 40, Thorough: 400, Run: c18v2},
		},
	})
}

// --- version 1 model --------------------------------------------------------

type v1Event struct {
	T        float32
	Name     string
	Contents string
	Data     map[string]string
}
type v1Vec struct{ T, X, Y, Z float32 }
type v1Life struct {
	T    float32
	Type int32
}
type v1Subject struct {
	ID     int32
	Name   string
	Meta   map[string]string
	Events []v1Event
	Life   []v1Life
	Pos    []v1Vec
	Rot    []v1Vec
}
type v1Rec struct {
	Name     string
	Meta     map[string]string
	Subjects []v1Subject
	Events   []v1Event
}

// pb is a minimal protocol buffer writer.
type pb struct {
	bytes.Buffer
	g *Gen // when set, fields are written in unusual but legal ways
}

func (p *pb) tag(f, w int)       { p.Write(binary.AppendUvarint(nil, uint64(f<<3|w))) }
func (p *pb) uv(f int, v uint64) { p.tag(f, 0); p.Write(binary.AppendUvarint(nil, v)) }
func (p *pb) blob(f int, b []byte) {
	p.tag(f, 2)
	p.Write(binary.AppendUvarint(nil, uint64(len(b))))
	p.Write(b)
}
func (p *pb) str(f int, s string) {
	if s != "" || p.odd() {
		p.blob(f, []byte(s))
	}
}
func (p *pb) f32(f int, v float32) {
	if math.Float32bits(v) != 0 || p.odd() {
		p.tag(f, 5)
		p.Write(binary.LittleEndian.AppendUint32(nil, math.Float32bits(v)))
	}
}
func (p *pb) odd() bool { return p.g != nil && p.g.p(0.1) }

// unknown adds a field no reader knows.
func (p *pb) unknown() {
	if p.odd() {
		switch p.g.n(3) {
		case 0:
			p.uv(20+p.g.n(100), p.g.r.Uint64())
		case 1:
			p.blob(20+p.g.n(100), p.g.bytes(p.g.n(20)))
		case 2:
			p.tag(20+p.g.n(100), 5)
			p.Write(p.g.bytes(4))
		}
	}
}
func (p *pb) sub(f int, fill func(q *pb)) {
	q := &pb{g: p.g}
	fill(q)
	q.unknown()
	p.blob(f, q.Bytes())
}
func (p *pb) strMap(f int, m map[string]string) {
	for _, k := range sortedKeys(m) {
		p.sub(f, func(q *pb) { q.str(1, k); q.str(2, m[k]) })
	}
}
func (p *pb) events(f int, es []v1Event) {
	for _, e := range es {
		p.sub(f, func(q *pb) { q.f32(1, e.T); q.str(2, e.Name); q.str(3, e.Contents); q.strMap(4, e.Data) })
	}
}
func (p *pb) vecs(f int, vs []v1Vec) {
	for _, v := range vs {
		p.sub(f, func(q *pb) { q.f32(1, v.T); q.f32(2, v.X); q.f32(3, v.Y); q.f32(4, v.Z) })
	}
}

func (m v1Rec) proto(g *Gen) []byte {
	p := &pb{g: g}
	parts := []func(){
		func() { p.str(1, m.Name) },
		func() { p.strMap(2, m.Meta) },
		func() {
			for _, s := range m.Subjects {
				p.sub(3, func(q *pb) {
					if s.ID != 0 {
						q.uv(1, uint64(int64(s.ID)))
					}
					q.str(2, s.Name)
					ps := []func(){
						func() { q.strMap(3, s.Meta) },
						func() { q.events(4, s.Events) },
						func() {
							for _, l := range s.Life {
								q.sub(5, func(r *pb) {
									r.f32(1, l.T)
									if l.Type != 0 {
										r.uv(2, uint64(int64(l.Type)))
									}
								})
							}
						},
						func() { q.vecs(6, s.Pos) },
						func() { q.vecs(7, s.Rot) },
					}
					if g != nil && g.p(0.2) {
						ps = permuted(g, ps)
					}
					for _, f := range ps {
						f()
					}
				})
			}
		},
		func() { p.events(4, m.Events) },
	}
	if g != nil && g.p(0.2) {
		parts = permuted(g, parts)
	}
	for _, f := range parts {
		f()
		p.unknown()
	}
	return p.Bytes()
}

func v1Frame(version byte, num uint32, size uint64, comp []byte) []byte {
	b := []byte{version}
	b = binary.LittleEndian.AppendUint32(b, num)
	b = binary.LittleEndian.AppendUint64(b, size)
	return append(b, comp...)
}

func (m v1Rec) file(g *Gen) []byte {
	lvl := 6
	if g != nil {
		lvl = pick(g, 0, 1, 6, 9)
	}
	z := deflate(m.proto(g), lvl)
	return v1Frame(1, 1, uint64(len(z)), z)
}

// --- expectation ------------------------------------------------------------

// v1Meta: numeric text as number, other text as text. Text which only some
// notations call a number may come out as either.
func v1MetaMatch(text string, got MVal) error {
	if got.Code == kStr && got.S == text {
		if f, err := strconv.ParseFloat(text, 32); err == nil && plainNumber(text) {
			return fmt.Errorf("numeric text %q kept as text instead of %v", text, f)
		}
		return nil
	}
	f, err := strconv.ParseFloat(text, 32)
	if err != nil {
		return fmt.Errorf("text %q became %v", text, got)
	}
	if got.Code == kF32 {
		gf := math.Float32frombits(uint32(got.F[0]))
		d, _ := strconv.ParseFloat(text, 64)
		if gf == float32(f) || gf == float32(d) || gf != gf && f != f {
			return nil
		}
	}
	if got.Code == kInt && float64(got.I) == f {
		return nil
	}
	return fmt.Errorf("numeric text %q became %v", text, got)
}

func plainNumber(s string) bool {
	if s == "" {
		return false
	}
	digits := false
	for _, r := range s {
		if r >= '0' && r <= '9' {
			digits = true
		} else if !strings.ContainsRune("+-.eE", r) {
			return false
		}
	}
	return digits
}

func v1MetaCheck(where string, want map[string]string, got Meta) error {
	if len(want) != len(got) {
		return fmt.Errorf("%s: metadata %s instead of %q", where, metaStr(got), want)
	}
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("%s: metadata key %q lost", where, k)
		}
		if err := v1MetaMatch(v, g); err != nil {
			return fmt.Errorf("%s: key %q: %w", where, k, err)
		}
	}
	return nil
}

func v1EventColl(es []v1Event) MColl {
	c := MColl{Kind: kEvent, Name: "Custom Event"}
	for _, e := range es {
		m := Meta{}
		if len(e.Data) == 0 {
			m["value"] = vStr(e.Contents)
		}
		for k, v := range e.Data {
			m[k] = vStr(v)
		}
		c.Caps = append(c.Caps, MCap{T: float64(e.T), N: e.Name, M: m})
	}
	return c
}

// model is the recording a version 1 file stands for; metadata is compared
// apart and left empty here.
func (m v1Rec) model() MRec {
	r := MRec{ID: m.Name, Name: m.Name, Meta: Meta{}, Colls: []MColl{v1EventColl(m.Events)}}
	for _, s := range m.Subjects {
		x := MRec{ID: fmt.Sprint(s.ID), Name: s.Name, Meta: Meta{}}
		p := MColl{Kind: kPos, Name: "Position"}
		for _, v := range s.Pos {
			p.Caps = append(p.Caps, MCap{T: float64(v.T), V: [3]float64{float64(v.X), float64(v.Y), float64(v.Z)}})
		}
		q := MColl{Kind: kEuler, Name: "Rotation"}
		for _, v := range s.Rot {
			q.Caps = append(q.Caps, MCap{T: float64(v.T), V: [3]float64{float64(v.X), float64(v.Y), float64(v.Z)}})
		}
		l := MColl{Kind: kEnum, Name: "Life Cycle", Members: []string{"START", "ENABLE", "DISABLE", "DESTROY"}}
		for _, v := range s.Life {
			l.Caps = append(l.Caps, MCap{T: float64(v.T), E: int(v.Type)})
		}
		x.Colls = []MColl{p, q, v1EventColl(s.Events), l}
		r.Recs = append(r.Recs, x)
	}
	return r
}

// stripV1Meta checks the metadata of a loaded version 1 recording and the
// kinds of its collections, whatever their order and names, and returns the
// rest in the order of model.
func (m v1Rec) strip(got MRec) (MRec, error) {
	if err := v1MetaCheck("recording", m.Meta, got.Meta); err != nil {
		return got, err
	}
	if len(got.Recs) != len(m.Subjects) {
		return got, fmt.Errorf("%d children instead of %d", len(got.Recs), len(m.Subjects))
	}
	got.Meta = Meta{}
	recs := append([]MRec{}, got.Recs...)
	for i := range recs {
		if err := v1MetaCheck(fmt.Sprintf("subject %d", i), m.Subjects[i].Meta, recs[i].Meta); err != nil {
			return got, err
		}
		recs[i].Meta = Meta{}
	}
	got.Recs = recs
	return got, nil
}

// checkV1 compares a recording with the version 1 file. w is nil for exact.
func (m v1Rec) check(w *WCfg, got MRec) (string, error) {
	got, err := m.strip(got)
	if err != nil {
		return "meta", err
	}
	want := m.model()
	ww := WCfg{}
	if w != nil {
		ww = *w
	}
	return diffRec(ww, want, got, "root")
}

// --- generator ---------------------------------------------------------------

func (g *Gen) utf8() string {
	s := g.Name()
	return strings.ToValidUTF8(s, "?")
}

func (g *Gen) v1Text() string {
	switch g.n(6) {
	case 0:
		return strconv.Itoa(int(g.i32()))
	case 1:
		return strconv.FormatFloat(g.f64(), 'g', -1, 64)
	case 2:
		return pick(g, "1e5", "-0", "1.50", "007", "1e400", "-1e39", "+3", ".5", "5.", "1e-50", "12abc", " 1", "1 ", "1,5", "0x10", "NaN", "inf", "Infinity", "1_000", "true", "null", "-", ".", "e", "1e", "--1", "16777217", "0.1", "3.4028236e38")
	}
	return g.utf8()
}

func (g *Gen) strMap(max int) map[string]string {
	m := map[string]string{}
	if many, ok := g.swell(0.05, 1000); ok {
		for i := 0; i < many; i++ {
			m[strconv.Itoa(g.n(1000000))] = g.v1Text()
		}
	}
	for i := g.n(max + 1); i > 0; i-- {
		m[g.utf8()] = g.v1Text()
	}
	return m
}

func (g *Gen) v1Times(n int) []float32 {
	ts := g.Times(n)
	out := make([]float32, n)
	for i := range ts {
		out[i] = float32(ts[i])
	}
	return out
}

func (g *Gen) v1Events() []v1Event {
	n := g.capCount()
	if many, ok := g.swell(0.1, 1500); ok {
		n = many
	}
	ts := g.v1Times(n)
	out := make([]v1Event, n)
	for i := range out {
		out[i] = v1Event{T: ts[i], Name: g.utf8(), Contents: g.v1Text()}
		if g.p(0.6) {
			out[i].Data = g.strMap(4)
		}
	}
	return out
}

func (g *Gen) v1Vecs() []v1Vec {
	n := g.capCount()
	if many, ok := g.swell(0.1, 5000); ok {
		n = many
	}
	ts := g.v1Times(n)
	x, y, z := g.Coords(n), g.Coords(n), g.Coords(n)
	out := make([]v1Vec, n)
	for i := range out {
		out[i] = v1Vec{ts[i], float32(x[i]), float32(y[i]), float32(z[i])}
	}
	return out
}

func (g *Gen) v1() v1Rec {
	m := v1Rec{Name: g.utf8(), Meta: g.strMap(5), Events: g.v1Events()}
	n := pick(g, 0, 1, 1, 2, 3, 5)
	if g.p(0.02) {
		n = 40
	}
	if many, ok := g.swell(0.1, 400); ok {
		n = many
	}
	for i := 0; i < n; i++ {
		s := v1Subject{ID: pick(g, int32(i), g.i32(), 0, -1, math.MinInt32), Name: g.utf8(), Meta: g.strMap(4)}
		if g.p(0.7) {
			s.Pos = g.v1Vecs()
		}
		if g.p(0.7) {
			s.Rot = g.v1Vecs()
		}
		if g.p(0.6) {
			s.Events = g.v1Events()
		}
		if g.p(0.6) {
			k := g.capCount()
			if many, ok := g.swell(0.1, 5000); ok {
				k = many
			}
			for _, t := range g.v1Times(k) {
				l := v1Life{T: t, Type: int32(g.n(4))}
				if g.p(0.05) {
					l.Type = pick(g, int32(4), 100, -1, math.MaxInt32, math.MinInt32)
				}
				s.Life = append(s.Life, l)
			}
		}
		m.Subjects = append(m.Subjects, s)
	}
	return m
}

func (m v1Rec) describe() string { return trunc(fmt.Sprintf("%+v", m), 5000) }

func c17(c *C) {
	g := newGen(c.R)
	m := g.v1()
	var odd *Gen
	if g.p(0.3) {
		odd = g
	}
	c.loadsV1(g, m, odd)
}

func (c *C) loadsV1(g *Gen, m v1Rec, odd *Gen) {
	b := m.file(odd)
	c.Note("version 1 file of %s", m.describe())
	src := bytes.NewReader(append(append([]byte{}, b...), g.bytes(g.n(20))...))
	rec, _, err := rapio.Load(src)
	if err != nil {
		c.Fail("read-error", "loading a version 1 file: %v", err)
	}
	got := c.mustSnap(rec, "version 1 file")
	if k, err := m.check(nil, got); err != nil {
		c.Fail("v1-"+k, "%v", err)
	}
	c.Count("files", 1)
	c.Count("subjects", len(m.Subjects))
	c.Count("captures", m.model().numCaps())
	c.Distinct(b)
	c.Sample(m.describe())
}

// c17refuse: not exactly one recording, inconsistent sizes, bad content.
func c17refuse(c *C) {
	g := newGen(c.R)
	m := g.v1()
	p := m.proto(nil)
	z := deflate(p, 6)
	var b []byte
	what := ""
	switch g.n(8) {
	case 0:
		n := pick(g, 0, 2, 3, 256, 257, 1<<16, 1<<16+1, 1<<24, 1<<24+1, 1<<31, 1<<31+1, math.MaxUint32, uint32(2+g.n(1000000)), uint32(1+(1+g.n(255))<<(8*(1+g.n(3)))))
		b = v1Frame(1, uint32(n), uint64(len(z)), z)
		what = fmt.Sprintf("%d recordings", n)
	case 1:
		more := pick(g, uint64(1), uint64(1+g.n(100)), 1<<20, 1<<31, 1<<32, 1<<40, 1<<62, 1<<63, math.MaxUint64-uint64(len(z)))
		b = v1Frame(1, 1, uint64(len(z))+more, z)
		what = fmt.Sprintf("size %d, %d bytes there", uint64(len(z))+more, len(z))
	case 2:
		less := 1 + g.n(len(z))
		b = v1Frame(1, 1, uint64(len(z)-less), z)
		what = fmt.Sprintf("size %d, %d bytes there", len(z)-less, len(z))
		// The final bytes of a deflate stream may be padding only.
		if full, err := io.ReadAll(newInflate(z[:len(z)-less])); err == nil && bytes.Equal(full, p) {
			return
		}
	case 3:
		b = v1Frame(1, 1, uint64(len(z)), z)
		b = b[:1+g.n(len(b)-1)]
		what = fmt.Sprintf("cut to %d bytes", len(b))
	case 4: // not deflate
		junk := append([]byte{0x07 | byte(g.n(32))<<3}, g.bytes(g.n(50))...)
		b = v1Frame(1, 1, uint64(len(junk)), junk)
		what = "content that is not deflate"
	case 5: // not a message: a field cut short
		if len(p) == 0 {
			p = []byte{0x0a, 3, 'a', 'b', 'c'}
		}
		bad := append(append([]byte{}, p...), pick(g, []byte{0x0a}, []byte{0x1a, 0x7f, 1}, []byte{0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, []byte{0x0d, 1}, []byte{0x80})...)
		z := deflate(bad, 6)
		b = v1Frame(1, 1, uint64(len(z)), z)
		what = "content that is not a message"
	case 6: // deflate stream without its end
		var o bytes.Buffer
		w := newDeflate(&o)
		w.Write(p)
		w.Flush()
		b = v1Frame(1, 1, uint64(o.Len()), o.Bytes())
		what = "deflate stream without end"
	case 7: // damage inside a nested message: length beyond its parent
		q := &pb{}
		q.sub(3, func(s *pb) { s.Write([]byte{0x32, 0x20, 0x0d, 1, 2}) })
		z := deflate(append(append([]byte{}, p...), q.Bytes()...), 6)
		b = v1Frame(1, 1, uint64(len(z)), z)
		what = "nested message longer than its parent"
	}
	c.Note("%s: %.300x", what, b)
	rec, _, err := rapio.Load(bytes.NewReader(b))
	if err == nil {
		s := "nil"
		if rec != nil {
			if x, e := snap(rec); e == nil {
				s = trunc(x.Canon(), 300)
			}
		}
		c.Fail("v1-accepted", "%s: accepted as %s", what, s)
	}
	c.Count("refused", 1)
	c.Distinct(b)
}

// repoSamples are the version 1 files the repository carries.
func repoSamples() []string {
	var out []string
	filepath.Walk("/repo/test/data", func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b := make([]byte, 5)
			f, e := os.Open(p)
			if e == nil {
				if _, e = io.ReadFull(f, b); e == nil && b[0] == 1 && b[1] == 1 && b[2] == 0 && b[3] == 0 && b[4] == 0 {
					out = append(out, p)
				}
				f.Close()
			}
		}
		return nil
	})
	return out
}

// parseV1 decodes a version 1 file independently.
func parseV1(b []byte) (v1Rec, error) {
	m := v1Rec{Meta: map[string]string{}}
	if len(b) < 13 {
		return m, io.ErrUnexpectedEOF
	}
	n := binary.LittleEndian.Uint64(b[5:])
	p, err := io.ReadAll(newInflate(b[13 : 13+n]))
	if err != nil {
		return m, err
	}
	type fld struct {
		num int
		u   uint64
		b   []byte
	}
	fields := func(b []byte) (out []fld) {
		for len(b) > 0 {
			t, k := binary.Uvarint(b)
			if k <= 0 {
				panic("v1 parse")
			}
			b = b[k:]
			f := fld{num: int(t >> 3)}
			switch t & 7 {
			case 0:
				f.u, k = binary.Uvarint(b)
				b = b[k:]
			case 5:
				f.u = uint64(binary.LittleEndian.Uint32(b))
				b = b[4:]
			case 1:
				f.u = binary.LittleEndian.Uint64(b)
				b = b[8:]
			case 2:
				l, k := binary.Uvarint(b)
				f.b = b[k : k+int(l)]
				b = b[k+int(l):]
			default:
				panic("v1 wire type")
			}
			out = append(out, f)
		}
		return
	}
	f32 := func(u uint64) float32 { return math.Float32frombits(uint32(u)) }
	kv := func(b []byte, m map[string]string) {
		k, v := "", ""
		for _, f := range fields(b) {
			if f.num == 1 {
				k = string(f.b)
			} else {
				v = string(f.b)
			}
		}
		m[k] = v
	}
	ev := func(b []byte) v1Event {
		e := v1Event{Data: map[string]string{}}
		for _, f := range fields(b) {
			switch f.num {
			case 1:
				e.T = f32(f.u)
			case 2:
				e.Name = string(f.b)
			case 3:
				e.Contents = string(f.b)
			case 4:
				kv(f.b, e.Data)
			}
		}
		return e
	}
	vec := func(b []byte) v1Vec {
		var v v1Vec
		for _, f := range fields(b) {
			switch f.num {
			case 1:
				v.T = f32(f.u)
			case 2:
				v.X = f32(f.u)
			case 3:
				v.Y = f32(f.u)
			case 4:
				v.Z = f32(f.u)
			}
		}
		return v
	}
	for _, f := range fields(p) {
		switch f.num {
		case 1:
			m.Name = string(f.b)
		case 2:
			kv(f.b, m.Meta)
		case 4:
			m.Events = append(m.Events, ev(f.b))
		case 3:
			s := v1Subject{Meta: map[string]string{}}
			for _, f := range fields(f.b) {
				switch f.num {
				case 1:
					s.ID = int32(f.u)
				case 2:
					s.Name = string(f.b)
				case 3:
					kv(f.b, s.Meta)
				case 4:
					s.Events = append(s.Events, ev(f.b))
				case 5:
					var l v1Life
					for _, f := range fields(f.b) {
						if f.num == 1 {
							l.T = f32(f.u)
						} else if f.num == 2 {
							l.Type = int32(f.u)
						}
					}
					s.Life = append(s.Life, l)
				case 6:
					s.Pos = append(s.Pos, vec(f.b))
				case 7:
					s.Rot = append(s.Rot, vec(f.b))
				}
			}
			m.Subjects = append(m.Subjects, s)
		}
	}
	return m, nil
}

func c17sample(c *C) {
	fs := repoSamples()
	if c.Idx >= len(fs) {
		c.Count("sample_files", 1) // the repository carries fewer
		return
	}
	b, err := os.ReadFile(fs[c.Idx])
	if err != nil {
		panic(err)
	}
	m, err := parseV1(b)
	if err != nil {
		panic(err)
	}
	c.Note("%s", fs[c.Idx])
	rec, _, err := rapio.Load(bytes.NewReader(b))
	if err != nil {
		c.Fail("read-error", "%s: %v", fs[c.Idx], err)
	}
	if k, err := m.check(nil, c.mustSnap(rec, fs[c.Idx])); err != nil {
		c.Fail("v1-"+k, "%s: %v", fs[c.Idx], err)
	}
	c.Count("sample_files", 1)
	c.Count("captures", m.model().numCaps())
	c.Distinct(b)
}

// --- command line runner --------------------------------------------------------

type cliRes struct {
	code     int // exit status, -1 when killed by a signal
	out, err []byte
	timeout  bool
	cpu      time.Duration
	rss      int64 // kB
}

var (
	cliCredOnce sync.Once
	cliCred     *syscall.Credential
)

// cred is the unprivileged user the command line program runs as.
func cred(dir string) *syscall.Credential {
	cliCredOnce.Do(func() {
		if os.Geteuid() != 0 {
			return
		}
		x := &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
		cmd := exec.Command("/bin/true")
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: x}
		if cmd.Run() == nil {
			cliCred = x
		}
	})
	return cliCred
}

// caseDir makes the scratch directory of a case; the caller removes it.
func (c *C) caseDir() (string, func()) {
	d, err := os.MkdirTemp(c.Env.Scratch, "case-")
	if err != nil {
		panic(err)
	}
	os.Chmod(d, 0o755)
	if cred(d) != nil {
		os.Chown(d, 65534, 65534)
	}
	return d, func() { os.RemoveAll(d) }
}

func (c *C) own(p string, data []byte, mode os.FileMode) string {
	if err := os.WriteFile(p, data, mode); err != nil {
		panic(err)
	}
	os.Chmod(p, mode)
	if cred("") != nil {
		os.Chown(p, 65534, 65534)
	}
	return p
}

// cli runs rap-cli in dir. stdout nil collects the output.
func (c *C) cli(dir string, stdin io.Reader, stdout *os.File, args ...string) cliRes {
	r := c.prog(c.Env.CLI, dir, stdin, stdout, args...)
	if i := bytes.Index(r.err, []byte("goroutine ")); i >= 0 && (bytes.Contains(r.err, []byte("panic:")) || bytes.Contains(r.err, []byte("fatal error:"))) || r.code == 2 || r.code < 0 {
		c.Fail("cli-crash:"+panicSite(string(r.err)), "rap-cli %q crashes (status %d): %s", args, r.code, trunc(string(r.err), 1500))
	}
	if r.code != 0 && len(bytes.TrimSpace(r.err))+len(bytes.TrimSpace(r.out)) == 0 {
		c.Fail("cli-silent", "rap-cli %q fails with status %d and no message", args, r.code)
	}
	return r
}

// prog runs one of the programs as an unprivileged user.
func (c *C) prog(bin, dir string, stdin io.Reader, stdout *os.File, args ...string) cliRes {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=all", "GOMAXPROCS=2",
		// Neither the time zone nor the language of a machine matters.
		"TZ=" + []string{"UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Apia"}[c.Idx%4],
		"LANG=" + []string{"C", "tr_TR.UTF-8", "de_DE.UTF-8"}[c.Idx%3]}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred(dir), Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdin = stdin
	cmd.Stdout = &o
	if stdout != nil {
		cmd.Stdout = stdout
	}
	cmd.Stderr = &e
	err := cmd.Run()
	r := cliRes{out: o.Bytes(), err: e.Bytes(), timeout: ctx.Err() != nil}
	if st := cmd.ProcessState; st != nil {
		r.cpu = st.UserTime() + st.SystemTime()
		if ru, ok := st.SysUsage().(*syscall.Rusage); ok {
			r.rss = int64(ru.Maxrss)
		}
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(fmt.Sprintf("cannot run %s: %v", bin, err))
		}
		r.code = ee.ExitCode()
	}
	c.Count("cli_runs", 1)
	if r.timeout {
		c.Fail("cli-hang", "%s %q does not end", filepath.Base(bin), args)
	}
	return r
}

// --- C18 ---------------------------------------------------------------------

// upgradeCfg is what the upgrade command writes with.
var upgradeCfg = WCfg{Pos: 3, Eul: 2, Flt: 0, Time: rapio.BST16, Compress: true}

func (c *C) upgrade(b []byte) []byte {
	dir, done := c.caseDir()
	defer done()
	p := c.own(filepath.Join(dir, "old.rap"), b, 0o644)
	r := c.cli(dir, nil, nil, "upgrade", "--file", p)
	if r.code != 0 {
		c.Fail("upgrade-failed", "upgrade ends with %d: %s", r.code, trunc(string(r.err), 500))
	}
	now, err := os.ReadFile(p)
	if err != nil || !bytes.Equal(now, b) {
		c.Fail("original-touched", "the original file changed: %d bytes, before %d (%v)", len(now), len(b), err)
	}
	if len(r.out) == 0 || r.out[0] != 2 {
		c.Fail("not-v2", "the upgraded file is not a version 2 file: %.40x", r.out)
	}
	return r.out
}

func c18(c *C) {
	g := newGen(c.R)
	g.Chrono, g.Plain = true, true
	c.upgradesV1(g.v1())
}

func (c *C) upgradesV1(m v1Rec) {
	b := m.file(nil)
	c.Note("version 1 file of %s", m.describe())
	out := c.upgrade(b)
	got, _ := c.mustRead(out)
	if k, err := m.check(&upgradeCfg, got); err != nil {
		c.Fail("upgrade-"+k, "%v", err)
	}
	// The result holds what the metadata of the loaded original holds.
	rec, _, err := rapio.Load(bytes.NewReader(b))
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	want := c.mustSnap(rec, "version 1 file")
	if metaStr(want.Meta) != metaStr(got.Meta) {
		c.Fail("upgrade-meta", "metadata %s instead of %s", metaStr(got.Meta), metaStr(want.Meta))
	}
	for i := range want.Recs {
		if metaStr(want.Recs[i].Meta) != metaStr(got.Recs[i].Meta) {
			c.Fail("upgrade-meta", "subject %d: metadata %s instead of %s", i, metaStr(got.Recs[i].Meta), metaStr(want.Recs[i].Meta))
		}
	}
	c.Count("upgrades", 1)
	c.Count("captures", m.model().numCaps())
	c.Distinct(b)
	c.Sample(m.describe())
}

func c18sample(c *C) {
	fs := repoSamples()
	if c.Idx >= len(fs) {
		return
	}
	b, err := os.ReadFile(fs[c.Idx])
	if err != nil {
		panic(err)
	}
	m, err := parseV1(b)
	if err != nil {
		panic(err)
	}
	c.Note("%s", fs[c.Idx])
	got, _ := c.mustRead(c.upgrade(b))
	mm := m.model()
	chrono := true
	for _, x := range mm.colls() {
		for i := 1; i < len(x.Caps); i++ {
			chrono = chrono && x.Caps[i].T >= x.Caps[i-1].T
		}
	}
	if !chrono {
		return
	}
	if k, err := m.check(&upgradeCfg, got); err != nil {
		c.Fail("upgrade-"+k, "%s: %v", fs[c.Idx], err)
	}
	c.Count("upgrades", 1)
	c.Distinct(b)
}

// c18v2: upgrading what already is a version 2 file keeps its content too.
func c18v2(c *C) {
	g := newGen(c.R)
	g.Kinds = []string{kEvent, kPos, kEuler, kEnum}
	w := g.CfgRaw()
	w.Pos, w.Eul = 1, 1 // values of single precision
	m := g.forCfg(upgradeCfg).Rec(2)
	b, _ := c.mustWrite(w, m)
	mid, _ := c.mustRead(b)
	c.Note("%s", trunc(m.Canon(), 4000))
	got, _ := c.mustRead(c.upgrade(b))
	if k, err := diffRec(upgradeCfg, mid, got, "root"); err != nil {
		c.Fail("upgrade-"+k, "version 2 file: %v", err)
	}
	c.Count("upgrades", 1)
	c.Count("captures", m.numCaps())
	c.Distinct(b)
}
