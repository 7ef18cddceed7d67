package main

// Generators: names, metadata, captures, trees and writer configurations.

import (
	"fmt"
	"math"
	"math/bits"
	"math/rand/v2"
	"strings"

	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/format/encoding/enum"
	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/event"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
)

type Gen struct {
	r *rand.Rand
	// Restrictions.
	Text     bool // only valid UTF-8 text in names, keys and strings
	Finite   bool // no NaN/Inf in metadata floats
	Chrono   bool // only chronological times
	Plain    bool // only moderate coordinates and times (single precision friendly)
	NoBins   bool
	NoRefs   bool
	Kinds    []string // kinds of collections to use
	MaxCaps  int
	MaxDepth int
	Small    bool // no very long names
	pool     []string
	swells   int // how many things may still be made larger than usual
}

func newGen(r *rand.Rand) *Gen {
	g := &Gen{r: r, Kinds: allKinds, MaxCaps: 40, MaxDepth: 4}
	if g.p(0.1) {
		g.swells = 1 + g.n(2)
	}
	return g
}

// swell sometimes offers a number between the few things of most recordings
// and the multitudes of the huge ones.
func (g *Gen) swell(p float64, hi int) (int, bool) {
	if g.swells == 0 || g.Small || g.MaxCaps < 40 || !g.p(p) {
		return 0, false
	}
	g.swells--
	return g.between(9, hi), true
}

// between is a number which is as likely to have few digits as many.
func (g *Gen) between(lo, hi int) int {
	n := int(float64(lo) * math.Pow(float64(hi)/float64(lo), g.r.Float64()))
	if g.p(0.3) {
		// next to a power of two
		n = 1<<bits.Len(uint(n)) - 1 + g.n(3)
	}
	return n
}

func (g *Gen) n(n int) int {
	if n <= 0 {
		return 0
	}
	return g.r.IntN(n)
}

// wide is x where an int holds it, and the part of x an int holds elsewhere.
func wide(x int64) int    { return int(x) }
func uwide(x uint64) uint { return uint(x) }

func (g *Gen) p(x float64) bool { return g.r.Float64() < x }

func pick[T any](g *Gen, xs ...T) T { return xs[g.n(len(xs))] }

var trickyNames = []string{"", " ", "a", "a\"b", `back\slash`, "new\nline", "tab\t", "\x00", "null", "true", "3.14", "0x", "0xzz", "0x12", "0xabcdef", "日本語", "émoji 😀", "</script>", "a.b", "a.b.c", "x", "y", "z", "$key", "key with = & ?", "2023-01-02T03:04:05Z", "\u2028", "%d%s%!", "[1,2]", "{}", "-1", "Position", "Rotation"}

// lookalikes are texts that have a meaning, or several spellings, elsewhere:
// here they are bytes like any others.
var lookalikes = []string{
	"http://Example.COM:80/a b/../c//d?q=%7e&x=1#f", "HTTPS://user@host/%7Euser/?", "http://host", "file:///C:/Program Files/x", `C:\dir\file.txt`, `\\share\x`, "./a/../b", "a//b", "a/", "/", "..", "~", "data:text/plain;base64,SGk=", "mailto:A@B", "host:80",
	"%20", "%", "a+b", "&amp;", "<b>", "é", "e\u0301", "\u212b", "Å", "ﬁ", "İ", "ı", "ß", "ẞ", "ǅ", "ﾊ", "\ufeffbom", "bom\ufeff", "\ufeff", "\u200b", "\u00ad", " lead", "trail ", "\u00a0", "\u3000", "\r", "\r\n", "a\r\nb", "\n\n", "a\x00", "a\x00b", "\x7f", "\x1b[0m", "\v", "\x85",
	"NaN", "Infinity", "1e5", "1E5", "1.0", "1.50", "-0", "007", "+1", "1_000", "0b1", "12:30", "2023-01-02", "2023-01-02T03:04:05+01:00", "True", "TRUE", "yes", "no", "nil", "undefined", "None", "NULL", "'", "`", "''", `\n`, `\u0041`, `\x00`, `\`, `"`, "${x}", "{{x}}", `{"a":1}`, `"x"`, "[]", "#", "//", "/*", "--", ";", ",", "|", "a,b", "=x", "@x", "*", "?",
	"6BA7B810-9DAD-11D1-80B4-00C04FD430C8", "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "\U0010ffff", "\ufffd", "\uffff", "👩‍👩‍👧", "🇩🇪", "\u202eabc", "A", "aa", "AA", "recolude.position", "recolude.event", "recolude.enum", "Recolude.Position", "position", "event", "metadata", "name", "id", "Id", "ID", "_id", "__proto__", "$id",
}

func (g *Gen) Name() string {
	if len(g.pool) > 0 && g.p(0.35) {
		return g.pool[g.n(len(g.pool))]
	}
	s := g.freshName()
	if len(g.pool) < 12 && len(s) < 60 {
		g.pool = append(g.pool, s)
	}
	return s
}

func (g *Gen) freshName() string {
	if n, ok := g.swell(0.004, 100000); ok {
		return strings.Repeat(pick(g, "x", "é", "日本", "longer "), n)
	}
	switch g.n(10) {
	case 0, 1, 2:
		return trickyNames[g.n(len(trickyNames))]
	case 3:
		n := 1 + g.n(8)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.n(256))
		}
		if g.Text {
			return strings.ToValidUTF8(string(b), "?")
		}
		return string(b)
	case 4:
		if g.p(0.08) && !g.Small {
			return strings.Repeat("L", pick(g, 16383, 16384, 16385))
		}
		return strings.Repeat("k", pick(g, 126, 127, 128, 129, 255, 256))
	case 5:
		rs := make([]rune, 1+g.n(5))
		for i := range rs {
			rs[i] = rune(g.n(0xD7FF))
		}
		return string(rs)
	case 6:
		s := lookalikes[g.n(len(lookalikes))]
		for g.p(0.25) && len(s) < 60 {
			s += pick(g, "", " ", "/", ".", ":") + lookalikes[g.n(len(lookalikes))]
		}
		if g.Text {
			return strings.ToValidUTF8(s, "?")
		}
		return s
	default:
		return fmt.Sprintf("%s%d", pick(g, "n", "name-", "id ", "Key", "ev"), g.n(1000))
	}
}

func (g *Gen) f64() float64 {
	switch g.n(8) {
	case 0:
		return pick(g, 0, math.Copysign(0, -1), 1, -1, 0.1, 360, 1e6, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, 5e-324, -2.2250738585072014e-308)
	case 1:
		if !g.Finite {
			return pick(g, math.NaN(), math.Inf(1), math.Inf(-1), math.Float64frombits(0x7ff8000000000123), math.Float64frombits(0xfff0000000000001))
		}
		return 42
	case 2:
		x := math.Float64frombits(g.r.Uint64())
		if g.Finite && (math.IsNaN(x) || math.IsInf(x, 0)) {
			return 1.5
		}
		return x
	case 3:
		return float64(g.n(2000) - 1000)
	default:
		return (g.r.Float64() - 0.5) * math.Pow(10, float64(g.n(7)-2))
	}
}

func (g *Gen) f32() float32 {
	switch g.n(6) {
	case 0:
		return pick(g, 0, float32(math.Copysign(0, -1)), 1, -1, 0.1, 16777216, 1e10, 1e21, 3e38, 1e-45, 6.9, 2147483648)
	case 1:
		if g.Finite {
			return float32(g.n(100))
		}
		return pick(g, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)))
	case 2:
		x := math.Float32frombits(g.r.Uint32())
		if g.Finite && (x != x || x > math.MaxFloat32 || x < -math.MaxFloat32) {
			return 2.25
		}
		return x
	default:
		return float32((g.r.Float64() - 0.5) * 1000)
	}
}

func (g *Gen) i32() int32 {
	return pick(g, 0, 1, -1, int32(g.n(1000)), math.MaxInt32, math.MinInt32, 1000000, -1000000, 127, 128, 255, 256, 65536, int32(g.r.Uint32()))
}

func (g *Gen) micros() int64 {
	switch g.n(5) {
	case 0:
		return pick(g, int64(0), 1, -1, 1000000, -62135596800000000, 253402300799999999, 1672628645000000)
	case 1:
		return int64(g.r.Uint64N(253402300799999999))
	case 2:
		if g.Finite {
			return -int64(g.r.Uint64N(62135596800000000))
		}
		return int64(g.r.Uint64())
	default:
		return 1600000000000000 + g.r.Int64N(1<<40)
	}
}

func (g *Gen) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.r.Uint32())
	}
	return b
}

func (g *Gen) arrLen() int {
	if n, ok := g.swell(0.05, 3000); ok {
		return n
	}
	if g.p(0.05) {
		return pick(g, 127, 128, 129, 300)
	}
	return pick(g, 0, 1, 1, 2, 3, 5)
}

var scalarCodes = []byte{kStr, kInt, kF32, kTrue, kFalse, kByte, kV2, kV3, kTime}
var arrayCodes = []byte{kArr + kStr, kArr + kInt, kArr + kF32, kArr + kV2, kArr + kV3, kArr + kBlock, kArr + kTime, kArr + kByte, kArr + kTrue}
var allCodes = append(append([]byte{kBlock}, scalarCodes...), arrayCodes...)

func (g *Gen) Val(depth int) MVal {
	return g.ValOf(allCodes[g.n(len(allCodes))], depth)
}

func (g *Gen) ValOf(code byte, depth int) MVal {
	switch code {
	case kStr:
		return vStr(g.Name())
	case kInt:
		return vInt(g.i32())
	case kF32:
		return vF32(g.f32())
	case kTrue, kFalse:
		return MVal{Code: code}
	case kByte:
		return vByte(byte(g.n(256)))
	case kV2:
		return vV2(g.f64(), g.f64())
	case kV3:
		return vV3(g.f64(), g.f64(), g.f64())
	case kTime:
		return vTime(g.micros())
	case kBlock:
		if depth <= 0 {
			return vBlock(Meta{})
		}
		return vBlock(g.Meta(depth-1, 4))
	case kArr + kByte:
		return vBytes(g.bytes(g.arrLen()))
	case kArr + kTrue:
		n := g.arrLen()
		b := make([]bool, n)
		for i := range b {
			b[i] = g.p(0.5)
		}
		return vBools(b)
	default:
		n := g.arrLen()
		if code == kArr+kBlock && n > 4 {
			n = 4
		}
		v := MVal{Code: code}
		for i := 0; i < n; i++ {
			v.A = append(v.A, g.ValOf(code-kArr, depth-1))
		}
		return v
	}
}

func (g *Gen) Meta(depth, max int) Meta {
	m := Meta{}
	n := g.n(max + 1)
	if many, ok := g.swell(0.03, 1000); ok {
		for i := 0; i < many; i++ {
			m[fmt.Sprint(g.n(1000000))] = g.Val(0)
		}
	}
	for i := 0; i < n; i++ {
		m[g.Name()] = g.Val(depth)
	}
	return m
}

// Times produces capture times.
func (g *Gen) Times(n int) []float64 {
	t := make([]float64, n)
	style := g.n(8)
	if g.Plain && (style == 6 || style == 7) {
		style = 0
	}
	if g.Chrono && style >= 6 {
		style = 1
	}
	x := pick(g, 0.0, 0, 1, -5, 100, 0.001)
	if !g.Plain && g.p(0.1) {
		x = pick(g, 1e9, 1.6e9, -1e6, 1e-9)
	}
	for i := range t {
		switch style {
		case 0: // regular
			t[i] = x
			x += 0.0625
		case 1: // irregular
			t[i] = x
			x += g.r.Float64()
		case 2: // all equal
			t[i] = x
		case 3: // bursts
			t[i] = x
			if g.p(0.2) {
				x += 10 * g.r.Float64()
			} else {
				x += 0.001 * g.r.Float64()
			}
		case 4: // duplicates
			t[i] = x
			if g.p(0.5) {
				x += float64(g.n(3))
			}
		case 5: // integers
			t[i] = x
			x += float64(1 + g.n(4))
		case 6: // unordered
			t[i] = (g.r.Float64() - 0.3) * 100
		case 7: // anything
			t[i] = g.f64()
		}
	}
	if n > 0 && style < 6 && g.p(0.12) { // one capture exactly at zero
		at := t[pick(g, 0, n-1, n-1, g.n(n))]
		for i := range t {
			t[i] -= at
		}
	}
	if !g.Plain && style < 6 && g.p(0.04) { // other units: milliseconds to nanoseconds since 1970, or tiny ones
		by := pick(g, 1e3, 1e6, 1e9, 1e-30, 1e-42, 1e-300)
		for i := range t {
			if by > 1 {
				t[i] = math.Floor((t[i] + 1.6e9) * by)
			} else {
				t[i] *= by
			}
		}
	}
	return t
}

// Coords produces one axis.
func (g *Gen) Coords(n int) []float64 {
	v := make([]float64, n)
	style := g.n(9)
	if g.Plain && style == 8 {
		style = 1
	}
	x := pick(g, 0.0, 1, -3.5, 100, 1000, -0.25)
	d := pick(g, 0.125, -0.5, 1, 0.01, 3)
	for i := range v {
		v[i] = x
		switch style {
		case 0: // still
		case 1: // walk
			x += (g.r.Float64() - 0.5) * d
		case 2: // constant velocity
			x += d
		case 3: // dyadic walk
			x += float64(g.n(33)-16) / 64
		case 4: // outlier step
			if g.p(0.05) {
				x += 500
			} else {
				x += (g.r.Float64() - 0.5) * 0.01
			}
		case 5: // zigzag
			if i%2 == 0 {
				x += d
			} else {
				x -= d
			}
		case 6: // growing
			x += d * float64(i)
		case 7: // random
			x = (g.r.Float64() - 0.5) * 200
		case 8:
			x = g.f64()
		}
	}
	return v
}

func (g *Gen) capCount() int {
	switch g.n(12) {
	case 0, 1:
		return 0
	case 2, 3:
		return 1
	case 4:
		return 2
	case 5:
		return g.n(g.MaxCaps + 1)
	default:
		return g.n(8)
	}
}

func (g *Gen) Coll(kind string) MColl {
	hi := 5000
	if kind == kEvent {
		hi = 800
	}
	if n, ok := g.swell(0.2, hi); ok {
		return g.CollN(kind, n)
	}
	return g.CollN(kind, g.capCount())
}

func (g *Gen) CollN(kind string, n int) MColl {
	c := MColl{Kind: kind, Name: g.Name()}
	t := g.Times(n)
	c.Caps = make([]MCap, n)
	for i := range t {
		c.Caps[i].T = t[i]
	}
	switch kind {
	case kPos, kEuler:
		for a := 0; a < 3; a++ {
			v := g.Coords(n)
			if kind == kEuler {
				for i := range v {
					v[i] *= 7
				}
			}
			for i := range v {
				c.Caps[i].V[a] = v[i]
			}
		}
	case kFloat:
		v := g.Coords(n)
		for i := range v {
			c.Caps[i].V[0] = v[i]
		}
	case kEnum:
		k := g.n(6)
		if g.p(0.03) {
			k = 130 + g.n(40)
		}
		if n, ok := g.swell(0.1, 2000); ok {
			k = n
		}
		for i := 0; i < k; i++ {
			if g.p(0.6) {
				c.Members = append(c.Members, pick(g, "START", "ENABLE", "DISABLE", "DESTROY", "idle", "run", ""))
			} else {
				c.Members = append(c.Members, g.Name())
			}
		}
		for i := range c.Caps {
			switch {
			case g.p(0.8):
				c.Caps[i].E = g.n(k + 1)
			default:
				c.Caps[i].E = pick(g, -1, math.MinInt, math.MaxInt, 127, 128, wide(1<<31), -1<<31, wide(1<<40), 300)
			}
		}
	case kEvent:
		for i := range c.Caps {
			c.Caps[i].N = g.Name()
			c.Caps[i].M = g.Meta(2, 3)
		}
	}
	return c
}

func (g *Gen) Rec(depth int) MRec {
	m := MRec{ID: g.Name(), Name: g.Name(), Meta: g.Meta(3, 4)}
	k := g.n(4)
	if g.p(0.1) {
		k = 4 + g.n(8)
	}
	if n, ok := g.swell(0.05, 300); ok {
		k = n
	}
	for i := 0; i < k; i++ {
		m.Colls = append(m.Colls, g.Coll(g.Kinds[g.n(len(g.Kinds))]))
	}
	if !g.NoBins {
		bins := g.n(4) - 1
		if n, ok := g.swell(0.05, 300); ok {
			bins = n
		}
		for i := bins; i > 0; i-- {
			n := pick(g, 0, 1, 3, g.n(200), 127, 128, 255)
			if many, ok := g.swell(0.2, 1<<18); ok {
				n = many
			}
			if g.p(0.05) {
				n = pick(g, 16384, 40000, 70000)
			}
			m.Bins = append(m.Bins, MBin{Name: g.Name(), Data: g.bytes(n), Meta: g.Meta(2, 3)})
		}
	}
	if !g.NoRefs {
		refs := g.n(4) - 1
		if n, ok := g.swell(0.05, 1000); ok {
			refs = n
		}
		for i := refs; i > 0; i-- {
			m.Refs = append(m.Refs, MRef{Name: g.Name(), URI: g.Name(), Size: pick(g, uint64(0), 1, 127, 128, 1<<31, 1<<32+1, 1<<63, math.MaxUint64, g.r.Uint64()), Meta: g.Meta(2, 3)})
		}
	}
	if depth > 0 {
		n := g.n(4)
		if g.p(0.03) {
			n = 10 + g.n(20)
			depth = 1
		}
		if many, ok := g.swell(0.05, 300); ok {
			n, depth = many, 1
		}
		for i := 0; i < n; i++ {
			m.Recs = append(m.Recs, g.Rec(depth-1))
		}
	}
	return m
}

// chain builds a deep narrow tree.
func (g *Gen) chain(depth int) MRec {
	m := g.Rec(0)
	for i := 0; i < depth; i++ {
		p := g.Rec(0)
		p.Recs = []MRec{m}
		if g.p(0.3) {
			p.Recs = append(p.Recs, g.Rec(0))
		}
		m = p
	}
	return m
}

// Shape picks a tree shape.
func (g *Gen) Shape() MRec {
	switch g.n(12) {
	case 0:
		return g.chain(5 + g.n(25))
	case 1:
		return g.Rec(0)
	case 2, 3:
		return g.Rec(1)
	default:
		return g.Rec(1 + g.n(g.MaxDepth))
	}
}

// WCfg is a writer configuration.
type WCfg struct {
	Pos      position.StorageTechnique
	Eul      euler.StorageTechnique
	Flt      float.StorageTechnique
	Time     rapio.TimeStorageTechnique
	Compress bool
	Order    []int
}

func (w WCfg) String() string {
	return fmt.Sprintf("pos%d eul%d flt%d time%d compress=%v order%v", w.Pos, w.Eul, w.Flt, w.Time, w.Compress, w.Order)
}

func (g *Gen) Cfg() WCfg {
	return WCfg{
		Pos:      position.StorageTechnique(g.n(4)),
		Eul:      euler.StorageTechnique(g.n(3)),
		Flt:      float.StorageTechnique(g.n(3)),
		Time:     rapio.TimeStorageTechnique(g.n(3)),
		Compress: g.p(0.5),
		Order:    g.r.Perm(5),
	}
}

// CfgRaw is a lossless configuration.
func (g *Gen) CfgRaw() WCfg {
	w := g.Cfg()
	w.Pos, w.Eul, w.Flt, w.Time = 0, 0, 0, 0
	return w
}

func (w WCfg) Encoders() []encoding.Encoder {
	all := []encoding.Encoder{
		event.NewEncoder(),
		position.NewEncoder(w.Pos),
		euler.NewEncoder(w.Eul),
		enum.NewEncoder(),
		float.NewEncoder(w.Flt),
	}
	if w.Order == nil {
		return all
	}
	out := make([]encoding.Encoder, len(all))
	for i, j := range w.Order {
		out[i] = all[j]
	}
	return out
}

// lossyTimes reports whether the configuration needs chronological times.
func (w WCfg) chronoNeeded() bool { return w.Time == rapio.BST16 }

// forCfg restricts the generator to what the configuration's bounds cover.
func (g *Gen) forCfg(w WCfg) *Gen {
	if w.Time == rapio.BST16 {
		g.Chrono = true
		g.Plain = true
	}
	if w.Pos >= 2 || w.Eul == 2 || w.Flt == 2 {
		g.Plain = true
	}
	return g
}
