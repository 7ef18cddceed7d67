package main

// JSON: import (C21, C22), export (C23), metadata's own form (C24).
//
// One matcher decides all of them: matchVal says whether a JSON value states
// the value of a metadata entry, matchDoc whether a document describes a
// recording. Documents are produced by the generator and serialised by the
// serialiser below; what the library emits is parsed by encoding/json.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
)

func init() {
	register(&Prop{
		ID: "C21", Level: "exploration",
		Rule: "a document is imported and the recording it describes is compared entry by entry with the document, then written, loaded and compared again; distinct counts distinct documents",
		Need: map[string]int64{"documents": 5000, "captures": 20000, "entries": 20000, "enum_repeats": 2000, "wide_ints": 1000, "escaped_strings": 1000, "arrays": 1000, "cli_runs": 100},
		Fams: []Family{
			{Name: "documents", Quick: 6000, Thorough: 150000, Run: c21},
			{Name: "metadata", Quick: 4000, Thorough: 100000, Run: c21meta},
			{Name: "huge", Quick: 9, Thorough: 72, Run: c21huge},
			exact("exact", 9, 2, 0, c21huge),
			exact("exact-text", 1, 2, 1, c21text),
			{Name: "cli", Quick: 150, Thorough: 3000, Run: c21cli},
		},
	})
	register(&Prop{
		ID: "C22", Level: "exploration",
		Rule: "damaged, mistyped and arbitrary documents are imported; an accepted one has to be a valid document completely described by the recording, which is written and read back; distinct counts distinct documents",
		Need: map[string]int64{"refused": 5000, "accepted": 500, "planted": 4000},
		Fams: []Family{
			{Name: "planted", Quick: 8000, Thorough: 200000, Run: c22planted},
			{Name: "bytes", Quick: 8000, Thorough: 300000, Run: c22bytes},
			{Name: "anything", Quick: 4000, Thorough: 100000, Run: c22any},
			{Name: "deep", Quick: 60, Thorough: 300, Run: c22deep},
			{Name: "every-place", Quick: 24, Thorough: 240, Run: c22places},
		},
	})
	register(&Prop{
		ID: "C23", Level: "exploration",
		Rule: "files are exported by the command line tool; what it prints is parsed by a JSON parser and compared with the recording the library loads from the same file; distinct counts distinct recordings",
		Need: map[string]int64{"exported": 800, "refused": 100, "events": 2000, "entries": 3000},
		Fams: []Family{
			{Name: "export", Quick: 1200, Thorough: 20000, Run: c23},
			{Name: "unrepresentable", Quick: 250, Thorough: 4000, Run: c23bad},
			{Name: "inside", Quick: 2000, Thorough: 20000, Run: c23inside},
			{Name: "huge", Quick: 10, Thorough: 80, Run: c23huge},
			exact("exact", 10, 1, 0, c23huge),
			exact("exact-text", 1, 1, 1, c23text),
			{Name: "samples", Quick: len(repoSamples()), Thorough: len(repoSamples()), Run: c23sample},
		},
	})
	register(&Prop{
		ID: "C24", Level: "exploration",
		Rule: "metadata values are marshalled, the text is compared with the value by a JSON parser, unmarshalled, and compared in value and kind; arbitrary JSON is unmarshalled into every kind; distinct counts distinct values",
		Need: map[string]int64{"values": 20000, "blocks": 5000, "arbitrary_accepted": 2000, "arbitrary_refused": 2000},
		Fams: []Family{
			{Name: "values", Quick: 100000, Thorough: 500000, Run: c24val},
			{Name: "blocks", Quick: 30000, Thorough: 150000, Run: c24block},
			{Name: "huge", Quick: len(arrayCodes) + 2, Thorough: 60, Run: c24huge},
			exact("exact", len(arrayCodes)+2, 1, 0, c24huge),
			exact("exact-text", 1, 4, 1, c24text),
			{Name: "arbitrary", Quick: 60000, Thorough: 300000, Run: c24any},
		},
	})
}

// --- JSON values ---------------------------------------------------------------

type jnum string

type jfield struct {
	k string
	v any
}

// jobj keeps the order of its fields.
type jobj []jfield

// bigIndex remembers where the keys of the last large object are.
var bigIndex atomic.Pointer[objIndex]

type objIndex struct {
	first *jfield
	n     int
	at    map[string]int
}

func (o jobj) index(k string) int {
	if len(o) > 1000 {
		x := bigIndex.Load()
		if x == nil || x.first != &o[0] || x.n != len(o) {
			x = &objIndex{&o[0], len(o), map[string]int{}}
			for i := len(o) - 1; i >= 0; i-- {
				x.at[o[i].k] = i
			}
			bigIndex.Store(x)
		}
		if i, ok := x.at[k]; ok {
			return i
		}
		return -1
	}
	for i := range o {
		if o[i].k == k {
			return i
		}
	}
	return -1
}

func (o jobj) get(k string) (any, bool) {
	if i := o.index(k); i >= 0 {
		return o[i].v, true
	}
	return nil, false
}

// decodeJSON parses one document with encoding/json into jobj, []any, jnum,
// string, bool and nil. Of equal keys the last one counts.
func decodeJSON(b []byte) (any, error) { return decodeDoc(b, false) }

// decodeStrict refuses equal keys.
func decodeStrict(b []byte) (any, error) { return decodeDoc(b, true) }

func decodeDoc(b []byte, strict bool) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := decodeTok(d, strict)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("something follows the document")
	}
	return v, nil
}

func decodeTok(d *json.Decoder, strict bool) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case json.Delim:
		switch t {
		case '[':
			a := []any{}
			for d.More() {
				v, err := decodeTok(d, strict)
				if err != nil {
					return nil, err
				}
				a = append(a, v)
			}
			_, err := d.Token()
			return a, err
		case '{':
			o := jobj{}
			seen := map[string]bool{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := decodeTok(d, strict)
				if err != nil {
					return nil, err
				}
				if seen[k.(string)] {
					if strict {
						return nil, fmt.Errorf("key %q appears twice", k)
					}
					i := o.index(k.(string))
					o = append(o[:i:i], o[i+1:]...)
				}
				seen[k.(string)] = true
				o = append(o, jfield{k.(string), v})
			}
			_, err := d.Token()
			return o, err
		}
		return nil, fmt.Errorf("stray %v", t)
	case json.Number:
		return jnum(t), nil
	}
	return t, nil
}

// emit serialises a value in one of many spellings.
func (g *Gen) emit(sb *strings.Builder, v any, plain bool) {
	ws := func() {
		if !plain && g.p(0.15) {
			sb.WriteString(pick(g, " ", "\n", "\t", "\r\n", "  "))
		}
	}
	ws()
	switch v := v.(type) {
	case nil:
		sb.WriteString("null")
	case bool:
		fmt.Fprint(sb, v)
	case jnum:
		sb.WriteString(string(v))
	case string:
		g.emitStr(sb, v, plain)
	case []any:
		sb.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				sb.WriteByte(',')
			}
			g.emit(sb, e, plain)
		}
		ws()
		sb.WriteByte(']')
	case jobj:
		sb.WriteByte('{')
		for i, f := range v {
			if i > 0 {
				sb.WriteByte(',')
			}
			ws()
			g.emitStr(sb, f.k, plain)
			ws()
			sb.WriteByte(':')
			g.emit(sb, f.v, plain)
		}
		ws()
		sb.WriteByte('}')
	default:
		panic(fmt.Sprintf("emit %T", v))
	}
	ws()
}

func (g *Gen) emitStr(sb *strings.Builder, s string, plain bool) {
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r == '\n' && g.p(0.5):
			sb.WriteString(`\n`)
		case r < 0x20 || !plain && g.p(0.05):
			if r >= 0x10000 {
				r -= 0x10000
				fmt.Fprintf(sb, `\u%04x\u%04X`, 0xd800+r>>10, 0xdc00+r&0x3ff)
			} else {
				fmt.Fprintf(sb, `\u%04x`, r)
			}
		case r == '/' && !plain && g.p(0.3):
			sb.WriteString(`\/`)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
}

func (g *Gen) text(v any) []byte {
	var sb strings.Builder
	g.emit(&sb, v, g.p(0.3))
	return []byte(sb.String())
}

func (g *Gen) shuffle(o jobj) jobj {
	if g.p(0.5) {
		return o
	}
	return permuted(g, o)
}

// num spells a number.
func (g *Gen) num(f float64) jnum {
	if f == math.Trunc(f) && (math.Abs(f) < 1e15 || math.Abs(f) < 1e30 && g.p(0.5)) {
		s := strconv.FormatFloat(f, 'f', -1, 64)
		switch g.n(8) {
		case 0:
			return jnum(s + ".0")
		case 1:
			return jnum(s + "e0")
		case 2:
			return jnum(strconv.FormatFloat(f, 'E', -1, 64))
		}
		return jnum(s)
	}
	return jnum(strconv.FormatFloat(f, pick(g, byte('g'), 'e', 'E'), -1, 64))
}

// --- the matcher ------------------------------------------------------------------

func (n jnum) f64() (float64, error) { return strconv.ParseFloat(string(n), 64) }

// integral reports whether the double a number is read as is an integer.
func integral(f float64) bool { return f == math.Trunc(f) }

// matchF32 decides whether a single precision value states a number: it is
// the nearest one, and an integer is not altered.
func matchF32(n jnum, f float32) error {
	d, err := n.f64()
	if err != nil {
		return err
	}
	near, err := strconv.ParseFloat(string(n), 32)
	// A number halfway between two values to within the precision of a double
	// may go through the double's own shortest spelling to either of them.
	respelt, _ := strconv.ParseFloat(strconv.FormatFloat(d, 'g', -1, 64), 32)
	if (err == nil && float32(near) == f) || ((float32(d) == f || float32(respelt) == f) && !math.IsInf(float64(f), 0)) {
		if !integral(d) || float64(f) == d {
			return nil
		}
		if back, _ := strconv.ParseFloat(strconv.FormatFloat(float64(f), 'g', -1, 32), 64); back == d {
			return nil
		}
	}
	return fmt.Errorf("number %s became %v", n, f)
}

func parseHex(s string) ([]byte, bool) {
	if !strings.HasPrefix(s, "0x") {
		return nil, false
	}
	b, err := hex.DecodeString(s[2:])
	return b, err == nil
}

func numField(o jobj, k string, want uint64) error {
	v, ok := o.get(k)
	if !ok {
		return fmt.Errorf("no %q", k)
	}
	n, ok := v.(jnum)
	if !ok {
		return fmt.Errorf("%q is no number but %T", k, v)
	}
	f, err := n.f64()
	if err != nil {
		return err
	}
	if w := math.Float64frombits(want); f != w {
		return fmt.Errorf("%q: JSON says %s, the value is %v", k, n, w)
	}
	return nil
}

// matchVal decides whether the JSON value states the entry's value.
func matchVal(j any, v MVal) error {
	bad := func() error {
		return fmt.Errorf("JSON says %s, the value is %v", trunc(fmt.Sprint(j), 200), trunc(v.String(), 200))
	}
	switch j := j.(type) {
	case nil:
		return fmt.Errorf("null became %v", v)
	case bool:
		if v.Code == kTrue && j || v.Code == kFalse && !j {
			return nil
		}
		return bad()
	case jnum:
		switch v.Code {
		case kInt:
			if f, err := j.f64(); err != nil || f != float64(v.I) {
				return bad()
			}
			return nil
		case kF32:
			return matchF32(j, math.Float32frombits(uint32(v.F[0])))
		}
		return bad()
	case string:
		switch v.Code {
		case kStr:
			if v.S == j {
				return nil
			}
		case kByte:
			if b, ok := parseHex(j); ok && len(b) == 1 && int64(b[0]) == v.I {
				return nil
			}
		case kArr + kByte:
			if b, ok := parseHex(j); ok && bytes.Equal(b, v.B) {
				return nil
			}
		case kTime:
			if t, err := time.Parse(time.RFC3339Nano, j); err == nil && t.UnixMicro() == v.I {
				return nil
			}
		}
		return bad()
	case jobj:
		switch v.Code {
		case kV2, kV3:
			if len(j) != int(v.Code)-4 {
				return bad()
			}
			for i, k := range []string{"x", "y", "z"}[:len(j)] {
				if err := numField(j, k, v.F[i]); err != nil {
					return err
				}
			}
			return nil
		case kBlock:
			return matchMeta(j, v.M)
		}
		return bad()
	case []any:
		switch v.Code {
		case kArr + kTrue, kArr + kByte:
			if len(j) != len(v.B) {
				return bad()
			}
			for i := range j {
				e := vByte(v.B[i])
				if v.Code == kArr+kTrue {
					e = vBool(v.B[i] == 1)
				}
				if err := matchVal(j[i], e); err != nil {
					return fmt.Errorf("element %d: %w", i, err)
				}
			}
			return nil
		}
		if v.Code < kArr || len(j) != len(v.A) {
			return bad()
		}
		for i := range j {
			if err := matchVal(j[i], v.A[i]); err != nil {
				return fmt.Errorf("element %d: %w", i, err)
			}
		}
		return nil
	}
	return fmt.Errorf("unexpected %T", j)
}

func matchMeta(o jobj, m Meta) error {
	seen := map[string]bool{}
	for i := range o {
		k := o[i].k
		seen[k] = true
		v, ok := m[k]
		if !ok {
			return fmt.Errorf("key %q is lost", k)
		}
		if err := matchVal(o[i].v, v); err != nil {
			return fmt.Errorf("key %q: %w", k, err)
		}
	}
	for k := range m {
		if !seen[k] {
			return fmt.Errorf("key %q appeared", k)
		}
	}
	return nil
}

// matchDoc decides whether a document describes a recording completely.
func matchDoc(j any, m MRec) error {
	o, ok := j.(jobj)
	if !ok {
		return fmt.Errorf("a %T is no recording", j)
	}
	if err := matchStr(o, "id", m.ID); err != nil {
		return err
	}
	if err := matchStr(o, "name", m.Name); err != nil {
		return err
	}
	if err := matchDocMeta(o, m.Meta); err != nil {
		return err
	}
	refs, err := list(o, "references", len(m.Refs))
	if err != nil {
		return err
	}
	for i, r := range refs {
		if err := matchRef(r, m.Refs[i]); err != nil {
			return fmt.Errorf("reference %d: %w", i, err)
		}
	}
	colls, err := list(o, "collections", len(m.Colls))
	if err != nil {
		return err
	}
	for i, c := range colls {
		if err := matchColl(c, m.Colls[i]); err != nil {
			return fmt.Errorf("collection %d: %w", i, err)
		}
	}
	if len(m.Bins) != 0 {
		return fmt.Errorf("%d binaries appeared", len(m.Bins))
	}
	recs, err := list(o, "recordings", len(m.Recs))
	if err != nil {
		return err
	}
	for i, r := range recs {
		if err := matchDoc(r, m.Recs[i]); err != nil {
			return fmt.Errorf("recording %d: %w", i, err)
		}
	}
	return nil
}

func matchStr(o jobj, k, want string) error {
	v, ok := o.get(k)
	if !ok {
		return fmt.Errorf("%s is missing", k)
	}
	if s, ok := v.(string); !ok || s != want {
		return fmt.Errorf("%s: JSON says %s, it is %q", k, trunc(fmt.Sprintf("%#v", v), 200), trunc(want, 200))
	}
	return nil
}

func matchDocMeta(o jobj, m Meta) error {
	v, ok := o.get("metadata")
	if !ok {
		return matchMeta(nil, m)
	}
	x, ok := v.(jobj)
	if !ok {
		return fmt.Errorf("metadata is %T", v)
	}
	if err := matchMeta(x, m); err != nil {
		return fmt.Errorf("metadata: %w", err)
	}
	return nil
}

func list(o jobj, k string, n int) ([]any, error) {
	v, ok := o.get(k)
	if !ok {
		if n != 0 {
			return nil, fmt.Errorf("%d %s appeared", n, k)
		}
		return nil, nil
	}
	a, ok := v.([]any)
	if !ok {
		return nil, fmt.Errorf("%s is %T", k, v)
	}
	if len(a) != n {
		return nil, fmt.Errorf("JSON lists %d %s, there are %d", len(a), k, n)
	}
	return a, nil
}

func matchRef(j any, m MRef) error {
	o, ok := j.(jobj)
	if !ok {
		return fmt.Errorf("a %T is no reference", j)
	}
	if err := matchStr(o, "name", m.Name); err != nil {
		return err
	}
	if err := matchStr(o, "uri", m.URI); err != nil {
		return err
	}
	v, ok := o.get("size")
	if !ok {
		return errors.New("size is missing")
	}
	n, ok := v.(jnum)
	if !ok {
		return fmt.Errorf("size is %T", v)
	}
	if u, err := strconv.ParseUint(string(n), 10, 64); err == nil && u == m.Size {
		// as it stands
	} else if f, err2 := n.f64(); err == nil || err2 != nil || f != float64(m.Size) || f < 0 || !integral(f) {
		return fmt.Errorf("size: JSON says %s, it is %d", n, m.Size)
	}
	return matchDocMeta(o, m.Meta)
}

func matchColl(j any, m MColl) error {
	o, ok := j.(jobj)
	if !ok {
		return fmt.Errorf("a %T is no collection", j)
	}
	if err := matchStr(o, "name", m.Name); err != nil {
		return err
	}
	if err := matchStr(o, "type", "recolude."+m.Kind); err != nil {
		return err
	}
	if _, ok := o.get("captures"); !ok {
		return errors.New("captures are missing")
	}
	caps, err := list(o, "captures", len(m.Caps))
	if err != nil {
		return err
	}
	used := map[string]bool{}
	for i, x := range caps {
		c := m.Caps[i]
		err := func() error {
			o, ok := x.(jobj)
			if !ok {
				return fmt.Errorf("a %T is no capture", x)
			}
			if err := numField(o, "time", math.Float64bits(c.T)); err != nil {
				return err
			}
			v, ok := o.get("data")
			if !ok {
				return errors.New("no data")
			}
			switch m.Kind {
			case kEnum:
				s, ok := v.(string)
				if !ok {
					return fmt.Errorf("enum data is %T", v)
				}
				if c.E < 0 || c.E >= len(m.Members) || m.Members[c.E] != s {
					return fmt.Errorf("enum value %q became %d of %q", s, c.E, m.Members)
				}
				used[s] = true
				return nil
			case kEvent:
				d, ok := v.(jobj)
				if !ok {
					return fmt.Errorf("event data is %T", v)
				}
				if err := matchStr(d, "name", c.N); err != nil {
					return err
				}
				return matchDocMeta(d, c.M)
			case kPos, kEuler:
				d, ok := v.(jobj)
				if !ok {
					return fmt.Errorf("data is %T", v)
				}
				for i, k := range []string{"x", "y", "z"} {
					if err := numField(d, k, math.Float64bits(c.V[i])); err != nil {
						return err
					}
				}
				return nil
			}
			return fmt.Errorf("kind %q", m.Kind)
		}()
		if err != nil {
			return fmt.Errorf("capture %d: %w", i, err)
		}
	}
	if m.Kind == kEnum && len(m.Members) != len(used) {
		return fmt.Errorf("the document names %d distinct enum values, the collection has members %q", len(used), m.Members)
	}
	return nil
}

// --- documents ------------------------------------------------------------------------

func (g *Gen) jtime() string {
	us := g.micros()
	t := time.UnixMicro(us).UTC()
	if t.Year() < 1 || t.Year() > 9998 {
		t = time.UnixMicro(1672628645123456).UTC()
	}
	if g.p(0.3) {
		t = t.In(time.FixedZone("", (g.n(1680)-840)*60))
	}
	return t.Format(time.RFC3339Nano)
}

func (g *Gen) jstr() string {
	switch g.n(6) {
	case 0:
		return pick(g, `say "hi"`, `C:\temp\new`, "line\nbreak", "tab\there", `"`, `\`, `\n`, `\u0041`, "\x00\x01\x1f", "\u2028\u2029", "<&>", "😀", "\ufeffbom", "\x7f", `"}`, `","x":"`)
	case 1:
		return pick(g, "0xzz", "0x1", "0x", "0X12", "0x123", "0xg0", "0x 1", "2020-13-01T00:00:00Z", "2020-01-01", "true", "null", "12", "1e5", "NaN")
	default:
		return g.utf8()
	}
}

// jint is an integer within 32 bits, often wide.
func (g *Gen) jint() float64 {
	switch g.n(4) {
	case 0:
		return float64(pick(g, int32(1000000), 999999, 1000001, -1000000, 10000000, 123456789, math.MaxInt32, math.MinInt32, math.MaxInt32-1, 16777217, 2000000000))
	case 1:
		return float64(int32(g.r.Uint32()))
	}
	return float64(g.n(2000) - 1000)
}

func (g *Gen) jfrac() float64 {
	switch g.n(5) {
	case 0:
		return pick(g, 0.1, -0.1, 1e-3, 3.14159, 1e-30, 1234567.125, 0.5, 1e-7, -2.5e-9, 16777216.5)
	case 1:
		return float64(float32(g.r.Float64()))
	}
	f := (g.r.Float64() - 0.5) * math.Pow(10, float64(g.n(12)-4))
	if integral(f) {
		f += 0.5
	}
	return f
}

func (g *Gen) jvec(n int) jobj {
	o := jobj{}
	for i := 0; i < n; i++ {
		v := g.jfrac()
		if g.p(0.3) {
			v = g.jint()
		}
		if g.p(0.1) {
			v = pick(g, 1e300, -1e300, 1e-300, 0.1+0.2, 1e21, 9007199254740993)
		}
		o = append(o, jfield{string("xyz"[i]), g.num(v)})
	}
	return g.shuffle(o)
}

// jval is a metadata value the format can represent.
func (g *Gen) jval(depth int) any {
	if depth > 0 && g.p(0.15) {
		return g.jmeta(depth-1, 4)
	}
	if g.p(0.3) {
		return g.jarr(depth)
	}
	switch g.n(9) {
	case 0, 1:
		return g.jstr()
	case 2, 3:
		return g.num(g.jint())
	case 4:
		return g.num(g.jfrac())
	case 5:
		return g.p(0.5)
	case 6:
		return pick(g, "0x", "0x00", fmt.Sprintf("0x%02x", g.n(256)), fmt.Sprintf("0x%02X", g.n(256)), fmt.Sprintf("0x%x", g.bytes(g.n(40))))
	case 7:
		return g.jtime()
	}
	return g.jvec(2 + g.n(2))
}

func (g *Gen) jarr(depth int) []any {
	n := pick(g, 0, 1, 1, 2, 2, 3, 5, 130)
	if n == 130 && g.p(0.7) {
		n = 4
	}
	if many, ok := g.swell(0.05, 2000); ok {
		n, depth = many, 0
	}
	style := g.n(11)
	a := []any{}
	for i := 0; i < n; i++ {
		var e any
		switch style {
		case 0:
			e = g.num(g.jint())
		case 1:
			e = g.num(g.jfrac())
		case 2: // whole numbers among fractions
			if e = g.num(g.jfrac()); g.p(0.5) {
				e = g.num(float64(g.n(100000) - 50000))
			}
		case 3:
			e = g.jstr()
		case 4:
			e = g.p(0.5)
		case 5:
			e = g.jtime()
		case 6: // text among timestamps and literals
			e = pick(g, g.jtime(), g.jstr(), "0x12", "0xabcd", "0x")
		case 7:
			e = g.jvec(2)
		case 8:
			e = g.jvec(3)
		case 9:
			e = g.jmeta(depth-1, 3)
		case 10: // objects of any make
			e = pick[any](g, g.jmeta(depth-1, 3), jobj{{"x", g.num(g.jint())}, {"y", "text"}}, jobj{{"x", g.num(1.5)}, {"y", g.num(2)}}, jobj{{"x", g.num(1)}, {"y", g.num(2)}, {"z", g.num(-0.25)}})
		}
		a = append(a, e)
	}
	return a
}

func (g *Gen) jmeta(depth, max int) jobj {
	o := jobj{}
	seen := map[string]bool{}
	add := func(k string, v any) {
		if !seen[k] {
			seen[k] = true
			o = append(o, jfield{k, v})
		}
	}
	if g.p(0.08) { // looks almost like a vector
		add("x", pick[any](g, "a", true, g.num(g.jint()), g.jarr(depth), g.num(g.jint())))
		add("y", pick[any](g, g.num(1), "b", g.num(2)))
		if g.p(0.4) {
			add("z", pick[any](g, g.num(g.jint()), "c"))
		}
		return g.shuffle(o)
	}
	if depth < 0 {
		return o
	}
	if many, ok := g.swell(0.03, 1000); ok {
		for i := 0; i < many; i++ {
			add(strconv.Itoa(g.n(1000000)), g.jval(0))
		}
	}
	names := []string{"metadata", "name", "id", "data", "time", "size", "type", "captures", "collections", "recordings", "references", "uri"}
	if depth > 0 && g.p(0.04) { // looks like a document
		k := names[g.n(len(names))]
		if g.p(0.5) {
			add(k, g.jmeta(depth-1, max))
		} else {
			add(k, g.jval(depth-1))
		}
		if g.p(0.6) {
			return o
		}
	}
	for i := g.n(max + 1); i > 0; i-- {
		k := g.jstr()
		if g.p(0.03) {
			k = names[g.n(len(names))]
		}
		add(k, g.jval(depth))
	}
	return o
}

// maybeMeta adds metadata, unless there is none.
func (g *Gen) maybeMeta(o jobj) jobj {
	if m := g.jmeta(3, 4); len(m) > 0 || g.p(0.3) {
		o = append(o, jfield{"metadata", m})
	}
	if g.p(0.1) {
		o = append(o, jfield{pick(g, "comment", "ID", "Metadata", "extra", "binaries"), pick[any](g, nil, "x", jnum("1"), []any{nil})})
	}
	if g.p(0.01) { // many of what is not known
		for i := g.n(60); i > 0; i-- {
			o = append(o, jfield{fmt.Sprint("extra", i), pick[any](g, nil, "x", jnum("1"), []any{nil}, jobj{{"id", "x"}})})
		}
	}
	return g.shuffle(o)
}

func (g *Gen) jtimes(n int, cli bool) []float64 {
	if cli {
		h := *g
		h.Chrono, h.Plain = true, true
		return h.Times(n)
	}
	h := *g
	t := h.Times(n)
	for i := range t {
		if math.IsNaN(t[i]) || math.IsInf(t[i], 0) {
			t[i] = float64(i)
		}
	}
	return t
}

func (g *Gen) jcoord(cli bool) float64 {
	if !cli && g.p(0.2) {
		return pick(g, 1e300, -1e-300, 1.7976931348623157e308, 5e-324, 1e21, 123456789012)
	}
	return pick(g, g.jfrac(), float64(g.n(100)), (g.r.Float64()-0.5)*100)
}

func (g *Gen) jcoll(cli bool) jobj {
	kind := pick(g, kPos, kEuler, kEnum, kEvent)
	n := pick(g, 0, 1, 2, 3, 5, g.n(30))
	t := g.jtimes(n, cli)
	members := []string{"A", "B", g.jstr(), g.jstr(), ""}
	if many, ok := g.swell(0.2, pick(g, 300, 3000)); ok {
		n = many
		t = g.jtimes(n, cli)
		if g.p(0.5) {
			for i := 0; i < many; i++ {
				members = append(members, strconv.Itoa(i))
			}
		}
	}
	caps := []any{}
	for i := 0; i < n; i++ {
		var data any
		switch kind {
		case kEnum:
			data = members[g.n(len(members))]
		case kEvent:
			data = g.maybeMeta(jobj{{"name", g.jstr()}})
		default:
			x, y, z := g.jcoord(cli), g.jcoord(cli), g.jcoord(cli)
			data = g.shuffle(jobj{{"x", g.num(x)}, {"y", g.num(y)}, {"z", g.num(z)}})
		}
		caps = append(caps, g.shuffle(jobj{{"time", g.num(t[i])}, {"data", data}}))
	}
	return g.shuffle(jobj{{"name", g.jstr()}, {"type", "recolude." + kind}, {"captures", caps}})
}

func (g *Gen) jdoc(depth int, cli bool) jobj {
	o := jobj{{"id", g.jstr()}, {"name", g.jstr()}}
	if n := g.n(4); n > 0 || g.p(0.2) {
		if many, ok := g.swell(0.1, 200); ok {
			n = many
		}
		a := []any{}
		for i := 0; i < n; i++ {
			a = append(a, g.jcoll(cli))
		}
		o = append(o, jfield{"collections", a})
	}
	if n := g.n(4) - 1; n >= 0 {
		if many, ok := g.swell(0.1, 500); ok {
			n = many
		}
		a := []any{}
		for i := 0; i < n; i++ {
			a = append(a, g.maybeMeta(jobj{{"name", g.jstr()}, {"uri", g.jstr()}, {"size", jnum(strconv.FormatUint(pick(g, uint64(0), 1, 1000000, 1<<32, 1<<53, 1<<53+1, math.MaxInt64, uint64(g.n(1<<30)), uint64(g.r.Int64())), 10))}}))
		}
		o = append(o, jfield{"references", a})
	}
	if n := g.n(4); depth > 0 && (n > 0 || g.p(0.2)) {
		if many, ok := g.swell(0.1, 200); ok {
			n, depth = many, 1
		}
		a := []any{}
		for i := 0; i < n; i++ {
			a = append(a, g.jdoc(depth-1, cli))
		}
		o = append(o, jfield{"recordings", a})
	}
	return g.maybeMeta(o)
}

// countDoc records what a document exercised.
func (c *C) countDoc(j any) {
	switch j := j.(type) {
	case jobj:
		c.Count("entries", len(j))
		for _, f := range j {
			c.countDoc(f.v)
		}
		if caps, ok := j.get("captures"); ok {
			a, _ := caps.([]any)
			c.Count("captures", len(a))
			seen := map[string]bool{}
			for _, x := range a {
				o, _ := x.(jobj)
				d, _ := o.get("data")
				if s, ok := d.(string); ok {
					if seen[s] {
						c.Count("enum_repeats", 1)
					}
					seen[s] = true
				}
			}
		}
	case []any:
		c.Count("arrays", 1)
		for _, e := range j {
			c.countDoc(e)
		}
	case string:
		if strings.ContainsAny(j, "\"\\\n") {
			c.Count("escaped_strings", 1)
		}
	case jnum:
		if f, _ := j.f64(); integral(f) && math.Abs(f) >= 1e6 && math.Abs(f) < 1<<31 {
			c.Count("wide_ints", 1)
		}
	}
}

// --- C21 ---------------------------------------------------------------------------------

// importDoc imports a valid document and compares.
func (c *C) importDoc(g *Gen, doc jobj) (MRec, []byte) {
	text := g.text(doc)
	c.Note("%s", trunc(string(text), 6000))
	c.Distinct(text)
	c.countDoc(doc)
	c.Count("documents", 1)
	parsed, err := decodeJSON(text)
	if err != nil {
		panic(fmt.Sprintf("the generator wrote invalid JSON: %v", err))
	}
	rec, err := parsing.FromJSON(text)
	if err != nil {
		c.Fail("refused", "a valid document is refused: %v", err)
	}
	m := c.mustSnap(rec, "imported")
	if err := matchDoc(parsed, m); err != nil {
		c.Fail("content", "the recording is not what the document describes: %v", err)
	}
	return m, text
}

func (c *C) imported(m MRec) {
	// Written and loaded again with the same value.
	got, _ := c.mustRead(func() []byte { b, _ := c.mustWrite(WCfg{}, m); return b }())
	mustEq(c, "reload", "an imported recording written and loaded again", m, got)
}

func c21(c *C) {
	g := newGen(c.R)
	g.Text = true
	doc := g.jdoc(g.n(4), false)
	m, text := c.importDoc(g, doc)
	rec, _ := parsing.FromJSON(text)
	var b bytes.Buffer
	if _, err := rapio.NewWriter(WCfg{}.Encoders(), g.p(0.5), &b, rapio.Raw64).Write(rec); err != nil {
		c.Fail("unwritable", "an imported recording cannot be written: %v", err)
	}
	got, _ := c.mustRead(b.Bytes())
	mustEq(c, "reload", "an imported recording written and loaded again", m, got)
}

func c21meta(c *C) {
	g := newGen(c.R)
	g.Text = true
	o := g.jmeta(4, 12)
	doc := jobj{{"id", "a"}, {"name", "b"}, {"metadata", o}}
	if g.p(0.3) {
		doc[2].k = "references"
		doc[2].v = []any{jobj{{"name", "n"}, {"uri", "u"}, {"size", jnum("5")}, {"metadata", o}}}
	}
	m, text := c.importDoc(g, doc)
	rec, _ := parsing.FromJSON(text)
	var b bytes.Buffer
	if _, err := rapio.NewWriter(nil, g.p(0.5), &b, rapio.Raw64).Write(rec); err != nil {
		c.Fail("unwritable", "an imported recording cannot be written: %v", err)
	}
	got, _ := c.mustRead(b.Bytes())
	mustEq(c, "reload", "an imported recording written and loaded again", m, got)
}

func c21cli(c *C) {
	g := newGen(c.R)
	g.Text = true
	doc := g.jdoc(g.n(3), true)
	m, text := c.importDoc(g, doc)
	dir, done := c.caseDir()
	defer done()
	out := filepath.Join(dir, "out.rap")
	args := []string{"from-json"}
	var stdin io.Reader
	if g.p(0.5) {
		args = append(args, "--in", c.own(filepath.Join(dir, "in.json"), text, 0o444))
	} else {
		stdin = bytes.NewReader(text)
	}
	toFile := g.p(0.5)
	if toFile {
		args = append(args, "--out", out)
	}
	r := c.cli(dir, stdin, nil, args...)
	if r.code != 0 {
		c.Fail("cli-refused", "from-json ends with %d: %s", r.code, trunc(string(r.err), 500))
	}
	b := r.out
	if toFile {
		var err error
		if b, err = os.ReadFile(out); err != nil {
			c.Fail("cli-output", "%v", err)
		}
	}
	got, _ := c.mustRead(b)
	if k, err := diffRec(upgradeCfg, m, got, "root"); err != nil {
		c.Fail("cli-"+k, "what from-json wrote differs from the document: %v", err)
	}
}

// --- C22 -----------------------------------------------------------------------------------

// tryImport imports anything, and judges what is accepted.
func (c *C) tryImport(text []byte) bool {
	c.Note("%s", trunc(string(text), 6000))
	c.Distinct(text)
	rec, err := parsing.FromJSON(text)
	if err != nil {
		c.Count("refused", 1)
		if rec != nil {
			c.Fail("both", "an error (%v) together with a recording", err)
		}
		return false
	}
	c.Count("accepted", 1)
	if rec == nil {
		c.Fail("neither", "neither a recording nor an error")
	}
	doc, err := decodeJSON(text)
	if err != nil {
		c.Fail("invalid-accepted", "a document that is not valid JSON is accepted: %v", err)
	}
	m, err := snap(rec)
	if err != nil {
		c.Fail("broken", "an accepted document gives a broken recording: %v", err)
	}
	if err := matchDoc(doc, m); err != nil {
		c.Fail("misread", "an accepted document is not what the recording holds: %v", err)
	}
	var b bytes.Buffer
	if _, err := rapio.NewWriter(WCfg{}.Encoders(), false, &b, rapio.Raw64).Write(rec); err != nil {
		c.Fail("unwritable", "an accepted document gives a recording that cannot be written: %v", err)
	}
	got, _ := c.mustRead(b.Bytes())
	mustEq(c, "reload", "an imported recording written and loaded again", m, got)
	return true
}

// jrandom is any JSON value.
func (g *Gen) jrandom(depth int) any {
	n := 9
	if depth <= 0 {
		n = 7
	}
	switch g.n(n) {
	case 0:
		return nil
	case 1:
		return g.p(0.5)
	case 2:
		return g.num(g.jint())
	case 3:
		return pick(g, g.num(g.jfrac()), jnum("-0"), jnum("1e30"), jnum("1e39"), jnum("-1e300"), jnum("3000000000"), jnum("3000000001"), jnum("2147483648"), jnum("-2147483649"), jnum("1e999"), jnum("9223372036854775808"), jnum("3.4028235e+38"), jnum("3.5e38"), jnum("1e-400"))
	case 4:
		return g.jstr()
	case 5:
		return g.jtime()
	case 6:
		return pick(g, "0x12", "0x1234", "0x", "x")
	case 7:
		a := []any{}
		k := g.n(4)
		same := g.jrandom(depth - 1)
		for i := 0; i < k; i++ {
			if g.p(0.5) {
				a = append(a, same)
			} else {
				a = append(a, g.jrandom(depth-1))
			}
		}
		return a
	}
	o := jobj{}
	for i := g.n(4); i > 0; i-- {
		o = append(o, jfield{pick(g, "x", "y", "z", "id", "name", "data", "time", "metadata", g.jstr()), g.jrandom(depth - 1)})
	}
	return o
}

// slots lists every place of a document that can be replaced.
func slots(v any, set func(any), out *[]func(any)) {
	*out = append(*out, set)
	switch v := v.(type) {
	case jobj:
		for i := range v {
			i := i
			slots(v[i].v, func(x any) { v[i].v = x }, out)
		}
	case []any:
		for i := range v {
			i := i
			slots(v[i], func(x any) { v[i] = x }, out)
		}
	}
}

// objects lists every object with a way to replace it.
func objects(v any, set func(any), out *[]func(func(jobj) jobj)) {
	switch v := v.(type) {
	case jobj:
		*out = append(*out, func(f func(jobj) jobj) { set(f(v)) })
		for i := range v {
			i := i
			objects(v[i].v, func(x any) { v[i].v = x }, out)
		}
	case []any:
		for i := range v {
			i := i
			objects(v[i], func(x any) { v[i] = x }, out)
		}
	}
}

// c22planted damages one place of a valid document; whether the result has
// to be refused follows from the matcher.
func c22planted(c *C) {
	g := newGen(c.R)
	g.Text = true
	var doc any = g.jdoc(g.n(3), false)
	set := func(x any) { doc = x }
	for k := 1 + g.n(2)/1*g.n(2); k > 0; k-- {
		switch g.n(4) {
		case 0: // drop a field
			var os []func(func(jobj) jobj)
			objects(doc, set, &os)
			if len(os) == 0 {
				continue
			}
			os[g.n(len(os))](func(o jobj) jobj {
				if len(o) == 0 {
					return o
				}
				i := g.n(len(o))
				return append(append(jobj{}, o[:i]...), o[i+1:]...)
			})
		case 1: // repeat a field with another value
			var os []func(func(jobj) jobj)
			objects(doc, set, &os)
			if len(os) == 0 {
				continue
			}
			os[g.n(len(os))](func(o jobj) jobj {
				if len(o) == 0 {
					return jobj{{"id", g.jrandom(1)}}
				}
				return append(append(jobj{}, o...), jfield{o[g.n(len(o))].k, g.jrandom(2)})
			})
		default:
			var ss []func(any)
			slots(doc, set, &ss)
			ss[g.n(len(ss))](g.jrandom(2))
		}
	}
	c.Count("planted", 1)
	c.tryImport(g.text(doc))
}

// c22places puts each of a list of values at every place of a document with
// all there can be, and removes and repeats every field.
func c22places(c *C) {
	g := newGen(c.R)
	g.Text = true
	one := func(kind string, data any) jobj {
		cs := []any{}
		for i := 0; i < 1+c.Idx%3; i++ {
			cs = append(cs, jobj{{"time", g.num(g.jfrac())}, {"data", data}})
		}
		return jobj{{"name", g.jstr()}, {"type", "recolude." + kind}, {"captures", cs}}
	}
	num := func() any { return g.num(g.jfrac()) }
	meta := func() jobj {
		o := jobj{}
		for i, x := range []any{"s", num(), num(), true, "0x12", "0x1234", g.jtime(), jobj{{"x", num()}, {"y", num()}}, jobj{{"x", num()}, {"y", num()}, {"z", num()}}, jobj{{"k", num()}}, []any{}, []any{num(), num()}, []any{"a", "b"}, []any{true, false}, []any{g.jtime(), g.jtime()}, []any{jobj{{"a", "b"}}, jobj{{"x", num()}, {"y", num()}}}} {
			if (i+c.Idx)%4 == 0 {
				o = append(o, jfield{fmt.Sprint("m", i), x})
			}
		}
		return o
	}
	inner := jobj{{"id", g.jstr()}, {"name", g.jstr()}, {"metadata", meta()}}
	all := []jfield{
		{"collections", []any{
			one("position", jobj{{"x", num()}, {"y", num()}, {"z", num()}}), one("euler", jobj{{"x", num()}, {"y", num()}, {"z", num()}}),
			one("event", jobj{{"name", g.jstr()}, {"metadata", meta()}}), one("enum", g.jstr())}},
		{"references", []any{jobj{{"name", g.jstr()}, {"uri", g.jstr()}, {"size", jnum("12")}, {"metadata", meta()}}}},
		{"recordings", []any{inner}},
	}
	doc := jobj{{"id", g.jstr()}, {"name", g.jstr()}, {"metadata", meta()}}
	if c.Idx%2 == 0 {
		doc = append(doc, all...)
	} else {
		doc = append(doc, all[2])
		inner = append(inner, all[:2]...)
		doc[len(doc)-1].v = []any{inner}
	}
	values := []any{nil, true, jnum("0"), jnum("-1"), jnum("-2"), jnum("1.5"), jnum("-0.0"), jnum("2147483647"), jnum("2147483648"), jnum("2147483649"), jnum("-2147483648"), jnum("-2147483649"),
		jnum("4294967297"), jnum("9007199254740993"), jnum("9223372036854775807"), jnum("9223372036854775808"), jnum("-9223372036854775808"), jnum("18446744073709551615"), jnum("1e3"), jnum("1e999"), jnum("3.5e38"),
		"", "1", "0x1", "2020-01-01T00:00:00Z", []any{}, []any{nil}, []any{[]any{}}, []any{jnum("1"), "a"}, []any{jobj{}}, []any{jobj{{"id", "i"}, {"name", "n"}}}, jobj{}, jobj{{"x", jnum("1")}}, jobj{{"x", "1"}, {"y", jnum("2")}}, jobj{{"0", jobj{{"id", "a"}, {"name", "b"}}}}}
	if !c.tryImport(g.text(doc)) {
		c.Fail("refused", "a valid document is refused")
	}
	var ss []func(any)
	var was []any
	var walk func(v any, set func(any))
	walk = func(v any, set func(any)) {
		ss, was = append(ss, set), append(was, v)
		switch v := v.(type) {
		case jobj:
			for i := range v {
				i := i
				walk(v[i].v, func(x any) { v[i].v = x })
			}
		case []any:
			for i := range v {
				i := i
				walk(v[i], func(x any) { v[i] = x })
			}
		}
	}
	var root any = doc
	walk(root, func(x any) { root = x })
	for i, set := range ss {
		for _, v := range values {
			set(v)
			c.tryImport(g.text(root))
			c.Count("places", 1)
		}
		if o, ok := was[i].(jobj); ok {
			for k := range o {
				set(append(append(jobj{}, o[:k]...), o[k+1:]...))
				c.tryImport(g.text(root))
				set(append(append(jobj{}, o...), jfield{o[k].k, pick(g, values...)}))
				c.tryImport(g.text(root))
			}
		}
		set(was[i])
	}
}

func c22bytes(c *C) {
	g := newGen(c.R)
	g.Text = true
	b := g.text(g.jdoc(g.n(2), false))
	switch g.n(4) {
	case 0:
		b = b[:g.n(len(b))]
	case 1:
		b = append(b, pick(g, "x", "{}", " 1", "\x00", "]", "\n\n", "//")...)
	default:
		b = g.mutateBytes(b)
	}
	c.tryImport(b)
}

func c22any(c *C) {
	g := newGen(c.R)
	g.Text = true
	if g.p(0.3) {
		c.tryImport(g.text(g.jrandom(5)))
		return
	}
	doc := jobj{{"id", g.jstr()}, {"name", g.jstr()}, {pick(g, "metadata", "recordings", "references", "collections"), g.jrandom(5)}}
	if g.p(0.5) {
		doc[2] = jfield{"metadata", jobj{{g.jstr(), g.jrandom(4)}}}
	}
	if g.p(0.2) {
		doc[2] = jfield{"collections", []any{jobj{{"name", "c"}, {"type", "recolude." + pick(g, kPos, kEuler, kEvent, kEnum, kFloat)}, {"captures", []any{jobj{{"time", g.jrandom(0)}, {"data", g.jrandom(3)}}}}}}}
	}
	c.tryImport(g.text(doc))
}

func c22deep(c *C) {
	g := newGen(c.R)
	n := pick(g, 100, 1000, 3000, 4900, 5100, 9990, 10050, 100000, 1000000)
	var s string
	switch g.n(4) {
	case 0:
		s = strings.Repeat("[", n)
	case 1:
		s = `{"id":"","name":"","metadata":` + strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n) + "}"
	case 2:
		s = strings.Repeat(`{"id":"","name":"","recordings":[`, n) + strings.Repeat("]}", n)
	case 3:
		s = `{"id":"","name":"","metadata":{"a":` + strings.Repeat(`[`, n) + strings.Repeat("]", n) + "}}"
	}
	c.Note("%d levels of %s", n, trunc(s, 80))
	rec, err := parsing.FromJSON([]byte(s))
	if err != nil {
		c.Count("refused", 1)
		return
	}
	c.Count("accepted", 1)
	var b bytes.Buffer
	if _, err := rapio.NewWriter(nil, false, &b, rapio.Raw64).Write(rec); err != nil {
		c.Fail("unwritable", "an accepted document of %d levels gives a recording that cannot be written: %v", n, err)
	}
	if _, _, err := readRec(b.Bytes()); err != nil {
		c.Fail("unreadable", "an accepted document of %d levels gives a recording that cannot be read back: %v", n, err)
	}
}

// --- C23 ---------------------------------------------------------------------------------------

// loadKinds are the kinds the Load function registers encoders for.
var loadKinds = []string{kEvent, kPos, kEuler, kEnum}

// asText is what JSON can carry of a string: bytes that are not valid UTF-8
// are replaced.
func asText(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string([]rune(s))
}

func textVal(v MVal) MVal {
	v.S = asText(v.S)
	if v.M != nil {
		v.M = textMeta(v.M)
	}
	if v.A != nil {
		a := make([]MVal, len(v.A))
		for i := range a {
			a[i] = textVal(v.A[i])
		}
		v.A = a
	}
	return v
}

func textMeta(m Meta) Meta {
	o := Meta{}
	for k, v := range m {
		o[asText(k)] = textVal(v)
	}
	return o
}

// exportable reports whether JSON can state every value of a block.
func exportable(m Meta) bool {
	for _, v := range m {
		if !exportableVal(v) {
			return false
		}
	}
	return true
}

func exportableVal(v MVal) bool {
	for _, f := range v.F {
		x := math.Float64frombits(f)
		if v.Code == kF32 {
			x = float64(math.Float32frombits(uint32(f)))
		}
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	if v.Code == kTime {
		if y := time.UnixMicro(v.I).UTC().Year(); y < 0 || y > 9999 {
			return false
		}
	}
	for _, e := range v.A {
		if !exportableVal(e) {
			return false
		}
	}
	return exportable(v.M)
}

func exportableRec(m MRec) bool {
	ok := true
	m.walk(func(r *MRec) {
		ok = ok && exportable(r.Meta)
		for _, c := range r.Colls {
			if c.Kind == kEvent {
				for _, x := range c.Caps {
					ok = ok && exportable(x.M) && !math.IsNaN(x.T) && !math.IsInf(x.T, 0)
				}
			}
		}
	})
	return ok
}

// matchExport compares what to-json printed with a recording.
func (c *C) matchExport(j any, m MRec) error {
	o, ok := j.(jobj)
	if !ok {
		return fmt.Errorf("not an object but %T", j)
	}
	if err := matchStr(o, "id", asText(m.ID)); err != nil {
		return err
	}
	if err := matchStr(o, "name", asText(m.Name)); err != nil {
		return err
	}
	if _, ok := o.get("metadata"); !ok {
		return errors.New("no metadata")
	}
	if err := matchDocMeta(o, textMeta(m.Meta)); err != nil {
		return err
	}
	c.Count("entries", len(m.Meta))
	colls, err := list(o, "collections", len(m.Colls))
	if err != nil {
		return err
	}
	for i, x := range colls {
		w := m.Colls[i]
		o, ok := x.(jobj)
		if !ok {
			return fmt.Errorf("collection %d is %T", i, x)
		}
		if err := matchStr(o, "name", asText(w.Name)); err != nil {
			return fmt.Errorf("collection %d: %w", i, err)
		}
		if err := matchStr(o, "signature", "recolude."+w.Kind); err != nil {
			return fmt.Errorf("collection %d: %w", i, err)
		}
		if err := numField(o, "count", math.Float64bits(float64(len(w.Caps)))); err != nil {
			return fmt.Errorf("collection %d: %w", i, err)
		}
		if w.Kind != kEvent {
			// Not stated today, but what is stated has to be true.
			if x, ok := o.get("captures"); ok {
				if l, ok := x.([]any); !ok || len(l) != len(w.Caps) {
					return fmt.Errorf("collection %d: captures are %.100v, there are %d", i, x, len(w.Caps))
				}
			}
			continue
		}
		caps, err := list(o, "captures", len(w.Caps))
		if err != nil {
			return fmt.Errorf("collection %d: %w", i, err)
		}
		for k, e := range caps {
			if err := matchEvent(e, w.Caps[k]); err != nil {
				return fmt.Errorf("collection %d: event %d: %w", i, k, err)
			}
			c.Count("events", 1)
		}
	}
	recs, err := list(o, "recordings", len(m.Recs))
	if err != nil {
		return err
	}
	for i, r := range recs {
		if err := c.matchExport(r, m.Recs[i]); err != nil {
			return fmt.Errorf("recording %d: %w", i, err)
		}
	}
	return nil
}

func matchEvent(j any, m MCap) error {
	o, ok := j.(jobj)
	if !ok {
		return fmt.Errorf("is %T", j)
	}
	if err := matchStr(o, "name", asText(m.N)); err != nil {
		return err
	}
	v, _ := o.get("time")
	n, ok := v.(jnum)
	if !ok {
		return fmt.Errorf("time is %T", v)
	}
	// Six decimals, whatever the magnitude: compare as exact numbers.
	t, ok := new(big.Rat).SetString(string(n))
	if !ok {
		return fmt.Errorf("time %s", n)
	}
	t.Sub(t, new(big.Rat).SetFloat64(m.T))
	if t.Abs(t).Cmp(big.NewRat(5001, 10000000000)) > 0 {
		f, _ := n.f64()
		if f != m.T { // or shorter, but the same double
			return fmt.Errorf("time: JSON says %s, it is %v", n, m.T)
		}
	}
	d, ok := o.get("data")
	x, isObj := d.(jobj)
	if !ok || !isObj {
		return fmt.Errorf("data is %T", d)
	}
	return matchMeta(x, textMeta(m.M))
}

// export runs to-json on a file.
func (c *C) export(g *Gen, file []byte) cliRes {
	dir, done := c.caseDir()
	defer done()
	if g.p(0.5) {
		return c.cli(dir, bytes.NewReader(file), nil, "to-json")
	}
	return c.cli(dir, nil, nil, "to-json", pick(g, "--file", "-f"), c.own(filepath.Join(dir, "a.rap"), file, 0o444))
}

func (c *C) judgeExport(g *Gen, file []byte) {
	rec, _, err := rapio.Load(bytes.NewReader(file))
	if err != nil {
		c.Fail("load-error", "%v", err)
	}
	m := c.mustSnap(rec, "loaded")
	c.judgeExportOf(m, c.export(g, file))
}

func (c *C) judgeExportOf(m MRec, r cliRes) {
	if !exportableRec(m) {
		if r.code == 0 {
			c.Fail("untrue", "a recording JSON cannot represent is exported as %s", trunc(string(r.out), 2000))
		}
		c.Count("refused", 1)
		return
	}
	if r.code != 0 {
		c.Fail("refused", "a recording JSON can represent is not exported (status %d): %s", r.code, trunc(string(r.err), 500))
	}
	doc, err := decodeStrict(r.out)
	if err != nil {
		c.Fail("invalid", "the export is not valid JSON: %v\n%s", err, trunc(string(r.out), 3000))
	}
	if !utf8.Valid(r.out) {
		c.Fail("invalid-utf8", "the export is not valid UTF-8: %s", trunc(strconv.QuoteToASCII(string(r.out)), 2000))
	}
	if err := c.matchExport(doc, m); err != nil {
		c.Fail("untrue", "the export differs from the recording: %v\n%s", err, trunc(string(r.out), 3000))
	}
	c.Count("exported", 1)
	c.DistinctS("%s", m.Canon())
}

func c23(c *C) {
	g := newGen(c.R)
	g.Text = true
	g.Finite = true
	g.MaxDepth = 3
	if g.p(0.4) {
		g.Kinds = []string{kEvent, kEvent, kPos, kEnum}
	} else {
		g.Kinds = loadKinds
	}
	m := g.Shape()
	g.finiteTimes(m)
	if g.p(0.1) { // bytes that are no text
		m.walk(func(r *MRec) {
			r.ID, r.Name = string(g.bytes(g.n(6))), string(g.bytes(g.n(6)))
			for i := range r.Colls {
				r.Colls[i].Name = string(g.bytes(g.n(5)))
				if r.Colls[i].Kind == kEvent {
					for k := range r.Colls[i].Caps {
						r.Colls[i].Caps[k].N = string(g.bytes(g.n(5)))
					}
				}
			}
		})
	}
	c.Note("%s", trunc(m.Canon(), 5000))
	file, _ := c.mustWrite(g.CfgRaw(), m)
	c.judgeExport(g, file)
}

// c23bad puts something JSON cannot state somewhere into the tree.
func c23bad(c *C) {
	g := newGen(c.R)
	g.Kinds = loadKinds
	g.Text = true
	g.Finite = true
	g.MaxDepth = 3
	m := g.Shape()
	g.finiteTimes(m)
	nan := pick(g, math.NaN(), math.Inf(1), math.Inf(-1))
	bad := pick(g, vF32(float32(nan)), vV2(nan, 1), vV3(1, 2, nan), vArr(kF32, []MVal{vF32(1), vF32(float32(nan))}), vBlock(Meta{"q": vF32(float32(nan))}), vArr(kBlock, []MVal{vBlock(Meta{"q": vV2(1, nan)})}), vArr(kV3, []MVal{vV3(nan, 0, 0)}), vTime(math.MaxInt64), vTime(math.MinInt64), vTime(253402300800000000))
	var nodes []*MRec
	m.walk(func(r *MRec) { nodes = append(nodes, r) })
	r := nodes[g.n(len(nodes))]
	switch g.n(4) {
	case 0:
		r.Meta["bad"] = bad
	case 1:
		r.Colls = append(r.Colls, MColl{Kind: kEvent, Name: "e", Caps: []MCap{{T: 1, N: "a", M: Meta{}}, {T: 2, N: "b", M: Meta{"k": bad}}}})
	case 2:
		r.Colls = append(r.Colls, MColl{Kind: kEvent, Name: "e", Caps: []MCap{{T: nan, N: "a", M: Meta{}}}})
	case 3: // not exported, hence no obstacle
		r.Colls = append(r.Colls, MColl{Kind: kPos, Name: "e", Caps: []MCap{{T: nan, V: [3]float64{nan, 1, 2}}}})
		r.Refs = append(r.Refs, MRef{Name: "r", Meta: Meta{"k": bad}})
	}
	c.Note("%s", trunc(m.Canon(), 5000))
	file, _ := c.mustWrite(g.CfgRaw(), m)
	c.judgeExport(g, file)
}

func c23sample(c *C) {
	s := repoSamples()
	if len(s) == 0 {
		return
	}
	p := s[c.Idx%len(s)]
	b, err := os.ReadFile(p)
	if err != nil {
		return
	}
	if _, _, err := rapio.Load(bytes.NewReader(b)); err != nil {
		return
	}
	c.Note("%s", p)
	c.judgeExport(newGen(c.R), b)
}

// --- C24 -------------------------------------------------------------------------------------------

func looksTime(s string) bool { _, err := time.Parse(time.RFC3339Nano, s); return err == nil }
func looksHex(s string) bool  { _, ok := parseHex(s); return ok }

func intF32(v MVal) bool {
	return integral(float64(math.Float32frombits(uint32(v.F[0]))))
}

func vectorLike(m Meta) bool {
	if len(m) != 2 && len(m) != 3 {
		return false
	}
	for i, k := range []string{"x", "y", "z"}[:len(m)] {
		_ = i
		v, ok := m[k]
		if !ok || v.Code != kInt && v.Code != kF32 {
			return false
		}
	}
	return true
}

// sameKind reports whether got is of the kind of want, or of one sharing its
// JSON form, recursively. Values are compared by matchVal.
func sameKind(want, got MVal, top bool) error {
	if want.Code == got.Code {
		if want.Code == kBlock {
			for k, v := range want.M {
				if err := sameKind(v, got.M[k], false); err != nil {
					return fmt.Errorf("key %q: %w", k, err)
				}
			}
		}
		if want.Code == kArr+kBlock {
			for i := range want.A {
				if err := sameKind(want.A[i], got.A[i], true); err != nil {
					return fmt.Errorf("element %d: %w", i, err)
				}
			}
		}
		return nil
	}
	err := fmt.Errorf("kind %d became %d", want.Code, got.Code)
	if top {
		return err
	}
	all := func(f func(MVal) bool) bool {
		for _, e := range want.A {
			if !f(e) {
				return false
			}
		}
		return true
	}
	ok := false
	switch want.Code {
	case kF32:
		ok = got.Code == kInt && intF32(want)
	case kStr:
		ok = got.Code == kTime && looksTime(want.S) || (got.Code == kByte || got.Code == kArr+kByte) && looksHex(want.S)
	case kBlock:
		ok = (got.Code == kV2 || got.Code == kV3) && vectorLike(want.M)
	case kArr + kByte:
		ok = got.Code == kByte && len(want.B) == 1
	case kArr + kTrue:
		ok = got.Code >= kArr && len(want.B) == 0
	case kArr + kF32:
		ok = got.Code == kArr+kInt && all(intF32)
	case kArr + kStr:
		ok = got.Code == kArr+kTime && all(func(v MVal) bool { return looksTime(v.S) }) || got.Code == kArr+kByte && all(func(v MVal) bool { return looksHex(v.S) })
	case kArr + kBlock:
		ok = (got.Code == kArr+kV2 || got.Code == kArr+kV3) && all(func(v MVal) bool { return vectorLike(v.M) })
	}
	if want.Code > kArr && len(want.A) == 0 && len(want.B) == 0 && got.Code >= kArr && want.Code != kArr+kByte {
		ok = true
	}
	if !ok {
		return err
	}
	return nil
}

// distortable: text that looks like a timestamp with more than microseconds
// would be rounded; the library's timestamps have microseconds.
func distortable(v MVal) bool {
	if v.Code == kStr {
		t, err := time.Parse(time.RFC3339Nano, v.S)
		return err == nil && t.Nanosecond()%1000 != 0
	}
	for _, e := range v.A {
		if distortable(e) {
			return true
		}
	}
	for _, e := range v.M {
		if distortable(e) {
			return true
		}
	}
	return false
}

// fresh returns an empty value of the kind to unmarshal into.
func fresh(code byte) json.Unmarshaler {
	switch code {
	case kStr:
		return &metadata.StringProperty{}
	case kInt:
		return &metadata.Int32Property{}
	case kF32:
		return &metadata.Float32Property{}
	case kTrue, kFalse:
		return &metadata.BoolProperty{}
	case kByte:
		return &metadata.ByteProperty{}
	case kV2:
		return &metadata.Vector2Property{}
	case kV3:
		return &metadata.Vector3Property{}
	case kTime:
		return &metadata.TimeProperty{}
	case kBlock:
		return &metadata.MetadataProperty{}
	case kArr + kByte, kArr + kTrue:
		x := MVal{Code: code}.Prop().(metadata.ArrayPropertyRaw)
		return &x
	}
	x := MVal{Code: code}.Prop().(metadata.ArrayProperty)
	return &x
}

func (c *C) jsonTrip(g *Gen, v MVal) {
	c.Note("%s", trunc(v.String(), 5000))
	c.DistinctS("%s", v.String())
	p := v.Prop()
	text, err := json.Marshal(p)
	if err != nil {
		if !exportableVal(v) {
			c.Count("unrepresentable", 1)
			return
		}
		c.Fail("marshal", "marshalling fails: %v", err)
	}
	if !exportableVal(v) {
		c.Fail("untrue", "a value JSON cannot state is marshalled as %s", trunc(string(text), 300))
	}
	j, err := decodeStrict(text)
	if err != nil {
		c.Fail("invalid", "%s: %v", trunc(string(text), 500), err)
	}
	if err := matchVal(j, v); err != nil {
		c.Fail("text", "the text does not state the value: %v", err)
	}
	u := fresh(v.Code)
	if err := u.UnmarshalJSON(text); err != nil {
		c.Fail("unmarshal", "%s is not accepted back: %v", trunc(string(text), 500), err)
	}
	got, err := snapVal(u.(metadata.Property))
	if err != nil {
		c.Fail("broken", "%s unmarshals into a broken value: %v", trunc(string(text), 500), err)
	}
	if distortable(v) {
		return
	}
	if err := matchVal(j, got); err != nil {
		c.Fail("value", "%s unmarshals into something else: %v", trunc(string(text), 500), err)
	}
	top := v.Code < kArr || v.Code == kArr+kByte || v.Code == kArr+kTrue
	if err := sameKind(v, got, top); err != nil {
		c.Fail("kind", "%s: %v", trunc(string(text), 500), err)
	}
	// Into a value which held another one, and by the functions that make
	// one.
	same := func(what string, p any, err error) {
		if err != nil {
			c.Fail("unmarshal", "%s is not accepted by %s: %v", trunc(string(text), 500), what, err)
		}
		w, err := snapVal(p.(metadata.Property))
		if err != nil {
			c.Fail("broken", "%s unmarshals into a broken value by %s: %v", trunc(string(text), 500), what, err)
		}
		if w.String() != got.String() {
			c.Fail("unmarshal-differs", "%s gives %s by %s instead of %s", trunc(string(text), 500), trunc(w.String(), 300), what, trunc(got.String(), 300))
		}
		// The text is that of any value which is the same. The numbers of
		// bytes and booleans are known not to be, see C38.
		built := w.Prop().String()
		if text := p.(metadata.Property).String(); text != built && !strings.Contains(built, "Type 5") && !strings.Contains(built, "Type 3") {
			c.Fail("unmarshal-text", "%s by %s states %q, built it states %q", trunc(w.String(), 300), what, trunc(text, 300), trunc(built, 300))
		}
		c.Count("other_ways", 1)
	}
	same("a fresh value", u, nil)
	if v.Code < kArr || len(v.A)+len(v.B) > 0 {
		zero := reflect.New(reflect.TypeOf(u).Elem()).Interface().(json.Unmarshaler)
		same("a zero value", zero, zero.UnmarshalJSON(text))
	}
	used := fresh(v.Code)
	if v.Code >= kArr && len(v.A)+len(v.B) == 0 {
		// Empty arrays do not say of what.
	} else if prior, err := json.Marshal(g.ValOf(v.Code, 2).Prop()); err == nil && used.UnmarshalJSON(prior) == nil {
		// A copy made before keeps what it held.
		kept := reflect.ValueOf(used).Elem().Interface().(metadata.Property)
		before, _ := snapVal(kept)
		same("a used value", used, used.UnmarshalJSON(text))
		if after, err := snapVal(kept); err != nil || after.String() != before.String() {
			c.Fail("unmarshal-copy", "unmarshalling %s changes a copy made before: %s, then %s (%v)", trunc(string(text), 300), trunc(before.String(), 300), trunc(after.String(), 300), err)
		}
	}
	switch v.Code {
	case kInt:
		p, err := metadata.UnmarshalNewInt32Property(text)
		same("UnmarshalNewInt32Property", p, err)
	case kF32:
		p, err := metadata.UnmarshalNewFloat32Property(text)
		same("UnmarshalNewFloat32Property", p, err)
	case kTrue, kFalse:
		p, err := metadata.UnmarshalNewBoolProperty(text)
		same("UnmarshalNewBoolProperty", p, err)
	case kByte:
		p, err := metadata.UnmarshalNewByteProperty(text)
		same("UnmarshalNewByteProperty", p, err)
	case kV2:
		p, err := metadata.UnmarshalNewVector2Property(text)
		same("UnmarshalNewVector2Property", p, err)
	case kV3:
		p, err := metadata.UnmarshalNewVector3Property(text)
		same("UnmarshalNewVector3Property", p, err)
	case kTime:
		p, err := metadata.UnmarshalNewTimeProperty(text)
		same("UnmarshalNewTimeProperty", p, err)
	case kBlock:
		p, err := metadata.UnmarshalNewMetadataProperty(text)
		same("UnmarshalNewMetadataProperty", p, err)
	}
}

func c24val(c *C) {
	g := newGen(c.R)
	g.Text = true
	g.Finite = g.p(0.7)
	// Time zones other than UTC print offsets.
	if g.p(0.3) {
		old := time.Local
		time.Local = time.FixedZone("local", pick(g, 0, 3600, -18000, 561, 34200, -12344, 50400))
		defer func() { time.Local = old }()
	}
	var v MVal
	code := allCodes[g.n(len(allCodes))]
	if code == kStr {
		v = vStr(g.jstr())
	} else {
		v = g.ValOf(code, 3)
	}
	c.Count("values", 1)
	c.jsonTrip(g, v)
}

func c24block(c *C) {
	g := newGen(c.R)
	g.Text = true
	g.Finite = g.p(0.8)
	m := g.Meta(4, 6)
	if g.p(0.2) {
		m = Meta{"x": g.ValOf(pick(g, byte(kInt), kF32, kStr), 0), "y": g.ValOf(pick(g, byte(kInt), kF32), 0)}
	}
	if g.p(0.3) {
		m["n"] = vBlock(Meta{"x": g.ValOf(pick(g, byte(kInt), kF32, kStr, kTrue), 0), "y": g.ValOf(pick(g, byte(kInt), kF32), 0)})
	}
	if g.p(0.3) {
		m["s"] = vArr(kStr, []MVal{vStr(g.jstr()), vStr(g.jtime()), vStr(pick(g, "0x12", "0x1234", "a"))})
	}
	if g.p(0.3) {
		m["f"] = vArr(kF32, []MVal{vF32(1), vF32(0.5), vF32(float32(g.n(100)))})
	}
	if g.p(0.3) {
		m["b"] = vArr(kBlock, []MVal{vBlock(Meta{"x": vInt(1), "y": vF32(0.5)}), vBlock(g.Meta(1, 2))})
	}
	c.Count("blocks", 1)
	c.jsonTrip(g, vBlock(m))
}

func c24any(c *C) {
	g := newGen(c.R)
	g.Text = true
	var j any
	code := allCodes[g.n(len(allCodes))]
	switch g.n(4) {
	case 0:
		j = g.jrandom(4)
	case 1:
		j = g.jval(3)
	case 2:
		j = g.jarr(3)
	case 3:
		j = g.jmeta(3, 4)
		code = kBlock
		var ss []func(any)
		slots(j, func(x any) { j = x }, &ss)
		ss[g.n(len(ss))](g.jrandom(2))
	}
	text := g.text(j)
	if g.p(0.05) {
		text = g.mutateBytes(text)
	}
	c.Note("into kind %d: %s", code, trunc(string(text), 4000))
	c.Distinct(append([]byte{code}, text...))
	u := fresh(code)
	if err := u.UnmarshalJSON(text); err != nil {
		c.Count("arbitrary_refused", 1)
		return
	}
	c.Count("arbitrary_accepted", 1)
	j, err := decodeJSON(text)
	if err != nil {
		c.Fail("invalid-accepted", "%s is accepted, but %v", trunc(string(text), 500), err)
	}
	got, err := snapVal(u.(metadata.Property))
	if err != nil {
		c.Fail("broken", "%s unmarshals into a broken value: %v", trunc(string(text), 500), err)
	}
	if j == nil {
		return // by convention null changes nothing
	}
	switch code {
	case kV2, kV3:
		return // like any Go struct: absent fields are zero, others ignored
	case kF32: // asked for by name
		n, _ := j.(jnum)
		if near, err := strconv.ParseFloat(string(n), 32); err == nil && got.F[0] == uint64(math.Float32bits(float32(near))) {
			return
		}
	case kByte:
		if s, ok := j.(string); ok && !strings.HasPrefix(s, "0x") {
			j = "0x" + s
		}
	}
	if err := matchVal(j, got); err != nil {
		c.Fail("altered", "%s is accepted as something else: %v", trunc(string(text), 1000), err)
	}
}

var _ format.Recording
