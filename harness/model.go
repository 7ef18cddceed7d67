package main

// Independent model of recordings: built from generators, turned into real
// recordings with the public constructors, and observed back ("snapped")
// through the public accessors only. Metadata values are observed through
// Code() and Data() with the parser below, not with the library's reader.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/EliCDavis/vector/vector2"
	"github.com/EliCDavis/vector/vector3"
	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/collection/euler"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/collection/float"
	"github.com/recolude/rap/format/collection/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

// Property type codes of the format.
const (
	kStr   = 0
	kInt   = 1
	kF32   = 2
	kTrue  = 3
	kFalse = 4
	kByte  = 5
	kV2    = 6
	kV3    = 7
	kBlock = 11
	kTime  = 12
	kArr   = 13
)

type Meta = map[string]MVal

type MVal struct {
	Code byte
	S    string
	I    int64
	F    []uint64 // float32 bits (kF32) or float64 bits
	B    []byte   // bytes, or booleans as 0/1
	A    []MVal
	M    Meta
}

func vStr(s string) MVal   { return MVal{Code: kStr, S: s} }
func vInt(i int32) MVal    { return MVal{Code: kInt, I: int64(i)} }
func vF32(f float32) MVal  { return MVal{Code: kF32, F: []uint64{uint64(math.Float32bits(f))}} }
func vByte(b byte) MVal    { return MVal{Code: kByte, I: int64(b)} }
func vTime(us int64) MVal  { return MVal{Code: kTime, I: us} }
func vBlock(m Meta) MVal   { return MVal{Code: kBlock, M: m} }
func vBytes(b []byte) MVal { return MVal{Code: kArr + kByte, B: b} }
func vV2(x, y float64) MVal {
	return MVal{Code: kV2, F: []uint64{math.Float64bits(x), math.Float64bits(y)}}
}
func vArr(base byte, a []MVal) MVal { return MVal{Code: kArr + base, A: a} }
func vV3(x, y, z float64) MVal {
	return MVal{Code: kV3, F: []uint64{math.Float64bits(x), math.Float64bits(y), math.Float64bits(z)}}
}
func vBool(b bool) MVal {
	if b {
		return MVal{Code: kTrue}
	}
	return MVal{Code: kFalse}
}
func vBools(b []bool) MVal {
	o := make([]byte, len(b))
	for i := range b {
		if b[i] {
			o[i] = 1
		}
	}
	return MVal{Code: kArr + kTrue, B: o}
}

func (v MVal) canon(sb *strings.Builder) {
	sb.WriteByte('<')
	sb.WriteString(strconv.Itoa(int(v.Code)))
	switch {
	case v.Code == kStr:
		sb.WriteString(strconv.Quote(v.S))
	case v.Code == kInt, v.Code == kByte, v.Code == kTime:
		sb.WriteByte(' ')
		sb.WriteString(strconv.FormatInt(v.I, 10))
	case v.Code == kF32, v.Code == kV2, v.Code == kV3:
		for _, f := range v.F {
			sb.WriteByte(' ')
			sb.WriteString(strconv.FormatUint(f, 16))
		}
	case v.Code == kBlock:
		canonMeta(sb, v.M)
	case v.Code == kArr+kByte, v.Code == kArr+kTrue:
		fmt.Fprintf(sb, " %x", v.B)
	case v.Code >= kArr:
		for _, a := range v.A {
			a.canon(sb)
		}
	}
	sb.WriteByte('>')
}

func canonMeta(sb *strings.Builder, m Meta) {
	sb.WriteByte('{')
	for _, k := range sortedKeys(m) {
		sb.WriteString(strconv.Quote(k))
		sb.WriteByte(':')
		m[k].canon(sb)
	}
	sb.WriteByte('}')
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (v MVal) String() string { var sb strings.Builder; v.canon(&sb); return sb.String() }

func metaStr(m Meta) string { var sb strings.Builder; canonMeta(&sb, m); return sb.String() }

// Prop builds the library's value.
func (v MVal) Prop() metadata.Property {
	f64 := math.Float64frombits
	switch v.Code {
	case kStr:
		return metadata.NewStringProperty(v.S)
	case kInt:
		return metadata.NewIntProperty(int(v.I))
	case kF32:
		return metadata.NewFloat32Property(math.Float32frombits(uint32(v.F[0])))
	case kTrue, kFalse:
		return metadata.NewBoolProperty(v.Code == kTrue)
	case kByte:
		return metadata.NewByteProperty(byte(v.I))
	case kV2:
		return metadata.NewVector2Property(f64(v.F[0]), f64(v.F[1]))
	case kV3:
		return metadata.NewVector3Property(f64(v.F[0]), f64(v.F[1]), f64(v.F[2]))
	case kBlock:
		return metadata.NewMetadataProperty(buildMeta(v.M))
	case kTime:
		return metadata.NewTimeProperty(time.UnixMicro(v.I))
	case kArr + kByte:
		return metadata.NewBinaryArrayProperty(append([]byte{}, v.B...))
	case kArr + kTrue:
		b := make([]bool, len(v.B))
		for i := range b {
			b[i] = v.B[i] == 1
		}
		return metadata.NewBoolArrayProperty(b)
	case kArr + kStr:
		o := make([]string, len(v.A))
		for i := range o {
			o[i] = v.A[i].S
		}
		return metadata.NewStringArrayProperty(o)
	case kArr + kInt:
		o := make([]int, len(v.A))
		for i := range o {
			o[i] = int(v.A[i].I)
		}
		return metadata.NewIntArrayProperty(o)
	case kArr + kF32:
		o := make([]float32, len(v.A))
		for i := range o {
			o[i] = math.Float32frombits(uint32(v.A[i].F[0]))
		}
		return metadata.NewFloat32ArrayProperty(o)
	case kArr + kV2:
		o := make([]vector2.Float64, len(v.A))
		for i := range o {
			o[i] = vector2.New(f64(v.A[i].F[0]), f64(v.A[i].F[1]))
		}
		return metadata.NewVector2ArrayProperty(o)
	case kArr + kV3:
		o := make([]vector3.Float64, len(v.A))
		for i := range o {
			o[i] = vector3.New(f64(v.A[i].F[0]), f64(v.A[i].F[1]), f64(v.A[i].F[2]))
		}
		return metadata.NewVector3ArrayProperty(o)
	case kArr + kBlock:
		o := make([]metadata.Block, len(v.A))
		for i := range o {
			o[i] = buildMeta(v.A[i].M)
		}
		return metadata.NewMetadataArrayProperty(o)
	case kArr + kTime:
		o := make([]time.Time, len(v.A))
		for i := range o {
			o[i] = time.UnixMicro(v.A[i].I)
		}
		return metadata.NewTimestampArrayProperty(o)
	}
	panic(fmt.Sprint("model: bad code ", v.Code))
}

func buildMeta(m Meta) metadata.Block {
	o := make(map[string]metadata.Property, len(m))
	for k, v := range m {
		o[k] = v.Prop()
	}
	return metadata.NewBlock(o)
}

var errShort = errors.New("value data too short")

func rdUvar(b []byte) (uint64, []byte, error) {
	v, n := binary.Uvarint(b)
	if n <= 0 {
		return 0, nil, errShort
	}
	return v, b[n:], nil
}

func rdN(b []byte, n uint64) ([]byte, []byte, error) {
	if uint64(len(b)) < n {
		return nil, nil, errShort
	}
	return b[:n], b[n:], nil
}

func rdStr(b []byte) (string, []byte, error) {
	n, b, err := rdUvar(b)
	if err != nil {
		return "", nil, err
	}
	s, b, err := rdN(b, n)
	return string(s), b, err
}

// parseVal is the monitor's own parser of value data.
func parseVal(code byte, b []byte, depth int) (MVal, []byte, error) {
	v := MVal{Code: code}
	if depth > 30000 {
		return v, nil, errors.New("too deep")
	}
	var err error
	switch code {
	case kStr:
		v.S, b, err = rdStr(b)
		return v, b, err
	case kInt, kF32:
		var x []byte
		if x, b, err = rdN(b, 4); err != nil {
			return v, nil, err
		}
		u := binary.LittleEndian.Uint32(x)
		if code == kInt {
			v.I = int64(int32(u))
		} else {
			v.F = []uint64{uint64(u)}
		}
		return v, b, nil
	case kTrue, kFalse:
		return v, b, nil
	case kByte:
		var x []byte
		if x, b, err = rdN(b, 1); err != nil {
			return v, nil, err
		}
		v.I = int64(x[0])
		return v, b, nil
	case kV2, kV3:
		n := uint64(2)
		if code == kV3 {
			n = 3
		}
		var x []byte
		if x, b, err = rdN(b, 8*n); err != nil {
			return v, nil, err
		}
		for i := uint64(0); i < n; i++ {
			v.F = append(v.F, binary.LittleEndian.Uint64(x[8*i:]))
		}
		return v, b, nil
	case kBlock:
		var n uint64
		if n, b, err = rdUvar(b); err != nil {
			return v, nil, err
		}
		if n > uint64(len(b)) {
			return v, nil, errShort
		}
		keys := make([]string, n)
		for i := range keys {
			if keys[i], b, err = rdStr(b); err != nil {
				return v, nil, err
			}
		}
		v.M = Meta{}
		for _, k := range keys {
			var c []byte
			if c, b, err = rdN(b, 1); err != nil {
				return v, nil, err
			}
			var e MVal
			if e, b, err = parseVal(c[0], b, depth+1); err != nil {
				return v, nil, err
			}
			v.M[k] = e
		}
		return v, b, nil
	case kTime:
		var x []byte
		if x, b, err = rdN(b, 8); err != nil {
			return v, nil, err
		}
		v.I = int64(binary.LittleEndian.Uint64(x))
		return v, b, nil
	case kArr + kByte, kArr + kTrue:
		var n uint64
		if n, b, err = rdUvar(b); err != nil {
			return v, nil, err
		}
		var x []byte
		if x, b, err = rdN(b, n); err != nil {
			return v, nil, err
		}
		v.B = append([]byte{}, x...)
		if code == kArr+kTrue {
			for i := range v.B {
				v.B[i] &= 1
			}
		}
		return v, b, nil
	case kArr + kStr, kArr + kInt, kArr + kF32, kArr + kV2, kArr + kV3, kArr + kBlock, kArr + kTime:
		var n uint64
		if n, b, err = rdUvar(b); err != nil {
			return v, nil, err
		}
		if n > uint64(len(b)) {
			return v, nil, errShort
		}
		for i := uint64(0); i < n; i++ {
			var e MVal
			if e, b, err = parseVal(code-kArr, b, depth+1); err != nil {
				return v, nil, err
			}
			v.A = append(v.A, e)
		}
		return v, b, nil
	}
	return v, nil, fmt.Errorf("unknown code %d", code)
}

func snapVal(p metadata.Property) (MVal, error) {
	if p == nil {
		return MVal{}, errors.New("nil property")
	}
	v, rest, err := parseVal(p.Code(), p.Data(), 0)
	if err != nil {
		return v, fmt.Errorf("value data of code %d: %w", p.Code(), err)
	}
	if len(rest) != 0 {
		return v, fmt.Errorf("value of code %d carries %d stray bytes", p.Code(), len(rest))
	}
	return v, nil
}

func snapMeta(b metadata.Block) (Meta, error) {
	m := Meta{}
	for k, p := range b.Mapping() {
		v, err := snapVal(p)
		if err != nil {
			return nil, fmt.Errorf("key %q: %w", k, err)
		}
		m[k] = v
	}
	return m, nil
}

// ---------------------------------------------------------------------------

type MCap struct {
	T float64
	V [3]float64
	E int
	N string
	M Meta
}

type MColl struct {
	Kind    string
	Name    string
	Members []string
	Caps    []MCap
}

type MBin struct {
	Name string
	Data []byte
	Meta Meta
}

type MRef struct {
	Name, URI string
	Size      uint64
	Meta      Meta
}

type MRec struct {
	ID, Name string
	Meta     Meta
	Colls    []MColl
	Bins     []MBin
	Refs     []MRef
	Recs     []MRec
}

const (
	kPos   = "position"
	kEuler = "euler"
	kEnum  = "enum"
	kEvent = "event"
	kFloat = "float"
)

var allKinds = []string{kEvent, kPos, kEuler, kEnum, kFloat}

func (c MColl) Build() format.CaptureCollection {
	switch c.Kind {
	case kPos:
		caps := make([]position.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = position.NewCapture(x.T, x.V[0], x.V[1], x.V[2])
		}
		return position.NewCollection(c.Name, caps)
	case kEuler:
		caps := make([]euler.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = euler.NewEulerZXYCapture(x.T, x.V[0], x.V[1], x.V[2])
		}
		return euler.NewCollection(c.Name, caps)
	case kFloat:
		caps := make([]float.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = float.NewCapture(x.T, x.V[0])
		}
		return float.NewCollection(c.Name, caps)
	case kEnum:
		caps := make([]enum.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = enum.NewCapture(x.T, x.E)
		}
		return enum.NewCollection(c.Name, append([]string{}, c.Members...), caps)
	case kEvent:
		caps := make([]event.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = event.NewCapture(x.T, x.N, buildMeta(x.M))
		}
		return event.NewCollection(c.Name, caps)
	}
	panic("model: kind " + c.Kind)
}

func (m MRec) Build() format.Recording {
	var colls []format.CaptureCollection
	for _, c := range m.Colls {
		colls = append(colls, c.Build())
	}
	var recs []format.Recording
	for _, r := range m.Recs {
		recs = append(recs, r.Build())
	}
	var bins []format.Binary
	for _, b := range m.Bins {
		bins = append(bins, rapio.NewBinary(b.Name, append([]byte{}, b.Data...), buildMeta(b.Meta)))
	}
	var refs []format.BinaryReference
	for _, b := range m.Refs {
		refs = append(refs, rapio.NewBinaryReference(b.Name, b.URI, b.Size, buildMeta(b.Meta)))
	}
	return format.NewRecording(m.ID, m.Name, colls, recs, buildMeta(m.Meta), bins, refs)
}

func snapCapture(kind string, x format.Capture) (MCap, error) {
	m := MCap{T: x.Time()}
	switch v := x.(type) {
	case position.Capture:
		p := v.Position()
		m.V = [3]float64{p.X(), p.Y(), p.Z()}
		if kind == kPos {
			return m, nil
		}
	case euler.Capture:
		p := v.EulerZXY()
		m.V = [3]float64{p.X(), p.Y(), p.Z()}
		if kind == kEuler {
			return m, nil
		}
	case float.Capture:
		m.V[0] = v.Value()
		if kind == kFloat {
			return m, nil
		}
	case enum.Capture:
		m.E = v.Value()
		if kind == kEnum {
			return m, nil
		}
	case event.Capture:
		m.N = v.Name()
		var err error
		m.M, err = snapMeta(v.Metadata())
		if kind == kEvent {
			return m, err
		}
	}
	return m, fmt.Errorf("capture of type %T in a %s collection", x, kind)
}

func snapColl(c format.CaptureCollection) (MColl, error) {
	if c == nil {
		return MColl{}, errors.New("nil collection")
	}
	m := MColl{Name: c.Name(), Kind: strings.TrimPrefix(c.Signature(), "recolude.")}
	if e, ok := c.(interface{ EnumMembers() []string }); ok {
		m.Members = append([]string{}, e.EnumMembers()...)
	}
	caps := c.Captures()
	if c.Length() != len(caps) {
		return m, fmt.Errorf("collection %q: Length() %d but %d captures", m.Name, c.Length(), len(caps))
	}
	for _, x := range caps {
		if x == nil {
			return m, fmt.Errorf("collection %q: nil capture", m.Name)
		}
		s, err := snapCapture(m.Kind, x)
		if err != nil {
			return m, fmt.Errorf("collection %q: %w", m.Name, err)
		}
		m.Caps = append(m.Caps, s)
	}
	return m, nil
}

// snap observes a recording completely.
func snap(r format.Recording) (MRec, error) {
	if r == nil {
		return MRec{}, errors.New("nil recording")
	}
	m := MRec{ID: r.ID(), Name: r.Name()}
	var err error
	if m.Meta, err = snapMeta(r.Metadata()); err != nil {
		return m, err
	}
	for _, c := range r.CaptureCollections() {
		x, err := snapColl(c)
		if err != nil {
			return m, err
		}
		m.Colls = append(m.Colls, x)
	}
	for _, b := range r.Binaries() {
		if b == nil {
			return m, errors.New("nil binary")
		}
		x := MBin{Name: b.Name()}
		if x.Data, err = io.ReadAll(b.Data()); err != nil {
			return m, err
		}
		if uint64(len(x.Data)) != b.Size() {
			return m, fmt.Errorf("binary %q: size %d but %d bytes", x.Name, b.Size(), len(x.Data))
		}
		again, err := io.ReadAll(b.Data())
		if err != nil || !bytes.Equal(again, x.Data) {
			return m, fmt.Errorf("binary %q: second read gives %d bytes, first %d (%v)", x.Name, len(again), len(x.Data), err)
		}
		if x.Meta, err = snapMeta(b.Metadata()); err != nil {
			return m, err
		}
		m.Bins = append(m.Bins, x)
	}
	for _, b := range r.BinaryReferences() {
		if b == nil {
			return m, errors.New("nil binary reference")
		}
		x := MRef{Name: b.Name(), URI: b.URI(), Size: b.Size()}
		if x.Meta, err = snapMeta(b.Metadata()); err != nil {
			return m, err
		}
		m.Refs = append(m.Refs, x)
	}
	for _, s := range r.Recordings() {
		x, err := snap(s)
		if err != nil {
			return m, err
		}
		m.Recs = append(m.Recs, x)
	}
	return m, nil
}

// Canon is a complete, unambiguous text of the model; equal text, equal value.
func (m MRec) Canon() string { var sb strings.Builder; m.canon(&sb); return sb.String() }

func (c MColl) canon(sb *strings.Builder) {
	fmt.Fprintf(sb, "(%s %q", c.Kind, c.Name)
	for _, m := range c.Members {
		fmt.Fprintf(sb, " %q", m)
	}
	for _, x := range c.Caps {
		sb.WriteString(" [")
		sb.WriteString(strconv.FormatUint(math.Float64bits(x.T), 16))
		switch c.Kind {
		case kEnum:
			fmt.Fprintf(sb, " %d", x.E)
		case kEvent:
			fmt.Fprintf(sb, " %q", x.N)
			canonMeta(sb, x.M)
		default:
			for _, v := range x.V {
				sb.WriteByte(' ')
				sb.WriteString(strconv.FormatUint(math.Float64bits(v), 16))
			}
		}
		sb.WriteByte(']')
	}
	sb.WriteByte(')')
}

func (m MRec) canon(sb *strings.Builder) {
	fmt.Fprintf(sb, "rec(%q %q ", m.ID, m.Name)
	canonMeta(sb, m.Meta)
	for _, c := range m.Colls {
		c.canon(sb)
	}
	for _, b := range m.Bins {
		fmt.Fprintf(sb, "bin(%q %x ", b.Name, b.Data)
		canonMeta(sb, b.Meta)
		sb.WriteByte(')')
	}
	for _, b := range m.Refs {
		fmt.Fprintf(sb, "ref(%q %q %d ", b.Name, b.URI, b.Size)
		canonMeta(sb, b.Meta)
		sb.WriteByte(')')
	}
	for _, r := range m.Recs {
		r.canon(sb)
	}
	sb.WriteByte(')')
}

// walk visits every node.
func (m *MRec) walk(f func(*MRec)) {
	f(m)
	for i := range m.Recs {
		m.Recs[i].walk(f)
	}
}

func (m MRec) colls() (out []MColl) {
	m.walk(func(r *MRec) { out = append(out, r.Colls...) })
	return
}

func (m MRec) numCaps() (n int) {
	for _, c := range m.colls() {
		n += len(c.Caps)
	}
	return
}

func (m MRec) nodes() (n int) { m.walk(func(*MRec) { n++ }); return }

// firstDiff describes where two canonical texts part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		h := i + 80
		if h > len(s) {
			h = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:h]
	}
	return fmt.Sprintf("want ...%s... got ...%s...", cut(a), cut(b))
}
