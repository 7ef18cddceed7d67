package main

// Independent implementation of the version 2 file layout, written from the
// documented layout and not from the library's helpers. The encoder produces
// a tree of fields, which the hostile workloads mutate before rendering.

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
)

type node struct {
	k    byte // B byte, V uvarint, R raw bytes, L length prefixed, S sequence, X removed
	v    uint64
	b    []byte
	c    []*node
	lie  bool   // L: declare lieN instead of the true length
	lieN uint64 // declared length
	role string
}

func nB(v byte, role string) *node     { return &node{k: 'B', v: uint64(v), role: role} }
func nV(v uint64, role string) *node   { return &node{k: 'V', v: v, role: role} }
func nR(b []byte, role string) *node   { return &node{k: 'R', b: b, role: role} }
func nL(role string, c ...*node) *node { return &node{k: 'L', c: c, role: role} }
func nS(role string, c ...*node) *node { return &node{k: 'S', c: c, role: role} }
func (n *node) add(c ...*node)         { n.c = append(n.c, c...) }
func nStr(s string, role string) *node { return nL(role, nR([]byte(s), role+".bytes")) }
func nStrs(xs []string, role string) *node {
	n := nS(role, nV(uint64(len(xs)), role+".count"))
	for _, x := range xs {
		n.add(nStr(x, role+".item"))
	}
	return n
}

func nUvs(xs []uint64, role string) *node {
	n := nS(role, nV(uint64(len(xs)), role+".count"))
	for _, x := range xs {
		n.add(nV(x, role+".item"))
	}
	return n
}

func (n *node) render(out *bytes.Buffer) {
	switch n.k {
	case 'B':
		out.WriteByte(byte(n.v))
	case 'V':
		out.Write(binary.AppendUvarint(nil, n.v))
	case 'R':
		out.Write(n.b)
	case 'L':
		var in bytes.Buffer
		for _, c := range n.c {
			c.render(&in)
		}
		l := uint64(in.Len())
		if n.lie {
			l = n.lieN
		}
		out.Write(binary.AppendUvarint(nil, l))
		out.Write(in.Bytes())
	case 'S':
		for _, c := range n.c {
			c.render(out)
		}
	}
}

func (n *node) bytes() []byte { var b bytes.Buffer; n.render(&b); return b.Bytes() }

func (n *node) flat(out []*node) []*node {
	out = append(out, n)
	for _, c := range n.c {
		out = c.flat(out)
	}
	return out
}

func le32(f float64) []byte {
	return binary.LittleEndian.AppendUint32(nil, math.Float32bits(float32(f)))
}
func le64(f float64) []byte { return binary.LittleEndian.AppendUint64(nil, math.Float64bits(f)) }

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// bst16 quantises value within [0,width] to 16 bits, most significant
// decision first, each byte filled from its lowest bit.
func bst16(x, width float64) []byte {
	idx := 0
	if width > 0 {
		idx = int(math.Floor(x / width * 65536))
	} else if x >= 0 {
		idx = 65535
	}
	if idx < 0 {
		idx = 0
	}
	if idx > 65535 {
		idx = 65535
	}
	o := make([]byte, 2)
	for i := 0; i < 16; i++ {
		if idx>>(15-i)&1 == 1 {
			o[i/8] |= 1 << (i % 8)
		}
	}
	return o
}

func unbst16(b []byte, start, width float64) float64 {
	idx := 0
	for i := 0; i < 16; i++ {
		if b[i/8]>>(i%8)&1 == 1 {
			idx |= 1 << (15 - i)
		}
	}
	return start + width*((float64(idx)+0.5)/65536)
}

// octIdx returns the k bits of one axis, first bit coarsest, set = lower half.
func octIdx(x, min, max float64, k int) []int {
	lo, hi := min, max
	bits := make([]int, k)
	for i := range bits {
		mid := lo + (hi-lo)/2
		if x < mid {
			bits[i] = 1
			hi = mid
		} else {
			lo = mid
		}
	}
	return bits
}

func octVal(bits []int, min, max float64) float64 {
	idx := 0
	for _, b := range bits {
		idx = idx*2 + 1 - b
	}
	n := math.Exp2(float64(len(bits)))
	return min + (max-min)*((float64(idx)+0.5)/n)
}

// octPack: per group of 8 cells three bytes: z bits, x bits, y bits.
func octPack(x, y, z []int) []byte {
	var out []byte
	for g := 0; g < len(x); g += 8 {
		var b [3]byte
		for i := 0; i < 8; i++ {
			b[0] |= byte(z[g+i]) << i
			b[1] |= byte(x[g+i]) << i
			b[2] |= byte(y[g+i]) << i
		}
		out = append(out, b[:]...)
	}
	return out
}

func octUnpack(b []byte) (x, y, z []int) {
	for g := 0; g+3 <= len(b); g += 3 {
		for i := 0; i < 8; i++ {
			z = append(z, int(b[g]>>i&1))
			x = append(x, int(b[g+1]>>i&1))
			y = append(y, int(b[g+2]>>i&1))
		}
	}
	return
}

func nVal(v MVal, role string) []*node {
	role = fmt.Sprintf("%s.val%d", role, v.Code)
	var d []byte
	switch {
	case v.Code == kStr:
		return []*node{nStr(v.S, role)}
	case v.Code == kInt:
		return []*node{nR(binary.LittleEndian.AppendUint32(nil, uint32(int32(v.I))), role)}
	case v.Code == kF32:
		return []*node{nR(binary.LittleEndian.AppendUint32(nil, uint32(v.F[0])), role)}
	case v.Code == kTrue, v.Code == kFalse:
		return nil
	case v.Code == kByte:
		return []*node{nR([]byte{byte(v.I)}, role)}
	case v.Code == kV2, v.Code == kV3:
		for _, f := range v.F {
			d = binary.LittleEndian.AppendUint64(d, f)
		}
		return []*node{nR(d, role)}
	case v.Code == kTime:
		return []*node{nR(binary.LittleEndian.AppendUint64(nil, uint64(v.I)), role)}
	case v.Code == kBlock:
		ks := sortedKeys(v.M)
		n := nS(role, nStrs(ks, role+".keys"))
		for _, k := range ks {
			n.add(nB(v.M[k].Code, "typecode"))
			n.add(nVal(v.M[k], role)...)
		}
		return []*node{n}
	case v.Code == kArr+kByte, v.Code == kArr+kTrue:
		return []*node{nL(role, nR(v.B, role+".bytes"))}
	default:
		n := nS(role, nV(uint64(len(v.A)), role+".count"))
		for _, a := range v.A {
			n.add(nVal(a, role)...)
		}
		return []*node{n}
	}
}

// dict assigns indices in order of first use.
type dict struct {
	idx map[string]int
	all []string
}

func newDict() *dict { return &dict{idx: map[string]int{}} }
func (d *dict) get(s string) uint64 {
	if i, ok := d.idx[s]; ok {
		return uint64(i)
	}
	d.idx[s] = len(d.all)
	d.all = append(d.all, s)
	return uint64(len(d.all) - 1)
}

func nMeta(m Meta, d *dict, role string) *node {
	ks := sortedKeys(m)
	ix := make([]uint64, len(ks))
	for i, k := range ks {
		ix[i] = d.get(k)
	}
	n := nS(role, nUvs(ix, role+".keyidx"))
	for _, k := range ks {
		n.add(nB(m[k].Code, "typecode"))
		n.add(nVal(m[k], role)...)
	}
	return n
}

func nTimes(tech int, t []float64) *node {
	n := nS("times", nB(byte(tech), "times.tech"), nV(uint64(len(t)), "times.count"))
	var d []byte
	switch tech {
	case 0:
		for _, x := range t {
			d = append(d, le64(x)...)
		}
	case 1:
		for _, x := range t {
			d = append(d, le32(x)...)
		}
	default:
		if len(t) > 0 {
			d = append(d, le32(t[0])...)
		}
		if len(t) > 1 {
			max := math.Inf(-1)
			for i := 1; i < len(t); i++ {
				max = math.Max(max, t[i]-t[i-1])
			}
			d = append(d, le32(max)...)
			cur := t[0]
			for _, x := range t[1:] {
				b := bst16(x-cur, max)
				d = append(d, b...)
				cur += unbst16(b, 0, max)
			}
		}
	}
	n.add(nR(d, "times.data"))
	return n
}

type v3 [3]float64

func posPayload(tech int, caps []MCap) []byte {
	d := []byte{byte(tech)}
	switch tech {
	case 0, 1:
		for _, c := range caps {
			for a := 0; a < 3; a++ {
				if tech == 0 {
					d = append(d, le64(c.V[a])...)
				} else {
					d = append(d, le32(c.V[a])...)
				}
			}
		}
		return d
	}
	if len(caps) == 0 {
		return d
	}
	if len(caps) == 1 {
		for a := 0; a < 3; a++ {
			d = append(d, le32(caps[0].V[a])...)
		}
		return d
	}
	k := 16
	if tech == 3 {
		k = 8
	}
	var min, max v3
	for a := 0; a < 3; a++ {
		min[a], max[a] = math.Inf(1), math.Inf(-1)
		for i := 1; i < len(caps); i++ {
			s := caps[i].V[a] - caps[i-1].V[a]
			min[a], max[a] = math.Min(min[a], s), math.Max(max[a], s)
		}
	}
	for _, v := range []v3{min, max, caps[0].V} {
		for a := 0; a < 3; a++ {
			d = append(d, le32(v[a])...)
		}
	}
	cur := caps[0].V
	for _, c := range caps[1:] {
		var bits [3][]int
		for a := 0; a < 3; a++ {
			bits[a] = octIdx(c.V[a]-cur[a], min[a], max[a], k)
			cur[a] += octVal(bits[a], min[a], max[a])
		}
		d = append(d, octPack(bits[0], bits[1], bits[2])...)
	}
	return d
}

func wrap360(x float64) float64 {
	x = math.Mod(x, 360)
	if x < 0 {
		x += 360
	}
	return x
}

func eulerPayload(tech int, caps []MCap) []byte {
	d := []byte{byte(tech)}
	for _, c := range caps {
		for a := 0; a < 3; a++ {
			switch {
			case tech == 0:
				d = append(append(d, le64(c.V[a])...), 0, 0)
			case tech == 1:
				d = append(d, le32(c.V[a])...)
			case len(caps) == 1:
				d = append(d, le32(wrap360(c.V[a]))...)
			default:
				d = append(d, bst16(wrap360(c.V[a]), 360)...)
			}
		}
	}
	return d
}

func floatPayload(tech int, caps []MCap) []byte {
	d := []byte{byte(tech)}
	min, max := math.Inf(1), math.Inf(-1)
	for _, c := range caps {
		min, max = math.Min(min, c.V[0]), math.Max(max, c.V[0])
	}
	if tech == 2 {
		d = append(append(d, le32(min)...), le32(max)...)
	}
	for _, c := range caps {
		switch tech {
		case 0:
			d = append(d, le64(c.V[0])...)
		case 1:
			d = append(d, le32(c.V[0])...)
		default:
			d = append(d, bst16(c.V[0]-min, max-min)...)
		}
	}
	return d
}

type refOpts struct {
	cfg      WCfg
	kinds    []string // encoders in file order; nil = those needed, in first-use order
	extra    bool     // list encoders that no collection uses
	extraKey []string // dictionary entries nobody uses, put first
}

// refEncode lays out a complete file as a field tree: head and body (the part
// which is compressed).
func refEncode(m MRec, o refOpts) (head, body *node) {
	kinds := o.kinds
	if kinds == nil {
		seen := map[string]bool{}
		for _, c := range m.colls() {
			if !seen[c.Kind] {
				seen[c.Kind] = true
				kinds = append(kinds, c.Kind)
			}
		}
		if o.extra {
			for _, k := range allKinds {
				if !seen[k] {
					kinds = append(kinds, k)
				}
			}
		}
	}
	sigs := make([]string, len(kinds))
	kidx := map[string]uint64{}
	for i, k := range kinds {
		sigs[i] = "recolude." + k
		kidx[k] = uint64(i)
	}
	head = nS("head", nB(2, "version"), nStrs(sigs, "signatures"))
	for range kinds {
		head.add(nV(0, "encoder.version"))
	}
	flag := byte(0)
	if o.cfg.Compress {
		flag = 1
	}
	head.add(nB(flag, "compressed"))

	names, keys, members := newDict(), newDict(), newDict()
	mkeys := newDict()
	for _, k := range o.extraKey {
		mkeys.get(k)
	}
	var rec func(m MRec) *node
	rec = func(m MRec) *node {
		n := nS("rec", nStr(m.ID, "id"), nStr(m.Name, "name"), nMeta(m.Meta, mkeys, "meta"), nV(uint64(len(m.Colls)), "colls.count"))
		for _, c := range m.Colls {
			cn := nS("coll", nV(kidx[c.Kind], "encoder.index"), nStr(c.Name, "collname"), nTimes(int(o.cfg.Time), times(c.Caps)))
			pl := nL("payload")
			switch c.Kind {
			case kPos:
				b := posPayload(int(o.cfg.Pos), c.Caps)
				pl.add(nB(b[0], "pos.tech"), nR(b[1:], "pos.data"))
			case kEuler:
				b := eulerPayload(int(o.cfg.Eul), c.Caps)
				pl.add(nB(b[0], "euler.tech"), nR(b[1:], "euler.data"))
			case kFloat:
				b := floatPayload(int(o.cfg.Flt), c.Caps)
				pl.add(nB(b[0], "float.tech"), nR(b[1:], "float.data"))
			case kEnum:
				ix := make([]uint64, len(c.Members))
				for i, s := range c.Members {
					ix[i] = members.get(s)
				}
				pl.add(nUvs(ix, "members"))
				for _, x := range c.Caps {
					pl.add(nV(uint64(x.E), "enum.value"))
				}
			case kEvent:
				for _, x := range c.Caps {
					pl.add(nV(names.get(x.N), "event.name"))
					ks := sortedKeys(x.M)
					ix := make([]uint64, len(ks))
					for i, k := range ks {
						ix[i] = keys.get(k)
					}
					pl.add(nUvs(ix, "event.keys"))
					for _, k := range ks {
						pl.add(nB(x.M[k].Code, "typecode"))
						pl.add(nVal(x.M[k], "event")...)
					}
				}
			}
			cn.add(pl)
			n.add(cn)
		}
		n.add(nV(uint64(len(m.Refs)), "refs.count"))
		for _, b := range m.Refs {
			n.add(nS("ref", nStr(b.Name, "refname"), nStr(b.URI, "uri"), nV(b.Size, "ref.size"), nMeta(b.Meta, mkeys, "refmeta")))
		}
		n.add(nV(uint64(len(m.Bins)), "bins.count"))
		for _, b := range m.Bins {
			n.add(nS("bin", nStr(b.Name, "binname"), nV(uint64(len(b.Data)), "bin.size"), nMeta(b.Meta, mkeys, "binmeta"), nR(b.Data, "bin.data")))
		}
		n.add(nV(uint64(len(m.Recs)), "recs.count"))
		for _, s := range m.Recs {
			n.add(rec(s))
		}
		return n
	}
	root := rec(m)
	body = nS("body")
	for _, k := range kinds {
		switch k {
		case kEvent:
			body.add(nL("header", nStrs(names.all, "eventnames"), nStrs(keys.all, "eventkeys")))
		case kEnum:
			body.add(nL("header", nStrs(members.all, "enummembers")))
		default:
			body.add(nL("header"))
		}
	}
	body.add(nStrs(mkeys.all, "metakeys"), root)
	return head, body
}

func deflate(b []byte, level int) []byte {
	var o bytes.Buffer
	w, _ := flate.NewWriter(&o, level)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func refFile(m MRec, o refOpts) []byte {
	h, b := refEncode(m, o)
	if o.cfg.Compress {
		return cat(h.bytes(), deflate(b.bytes(), 6))
	}
	return cat(h.bytes(), b.bytes())
}

// --------------------------------------------------------------------------
// Decoder

var errIndex = errors.New("index out of range")

type rd struct {
	b   []byte
	err error
}

func (r *rd) take(n uint64) []byte {
	if r.err != nil {
		return nil
	}
	if uint64(len(r.b)) < n {
		r.err = io.ErrUnexpectedEOF
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rd) uv() uint64 {
	if r.err != nil {
		return 0
	}
	v, n := binary.Uvarint(r.b)
	if n <= 0 {
		r.err = fmt.Errorf("number: %w", io.ErrUnexpectedEOF)
		return 0
	}
	r.b = r.b[n:]
	return v
}

func (r *rd) byte() byte {
	x := r.take(1)
	if x == nil {
		return 0
	}
	return x[0]
}

func (r *rd) f32() float64 {
	x := r.take(4)
	if x == nil {
		return 0
	}
	return float64(math.Float32frombits(binary.LittleEndian.Uint32(x)))
}

func (r *rd) f64() float64 {
	x := r.take(8)
	if x == nil {
		return 0
	}
	return math.Float64frombits(binary.LittleEndian.Uint64(x))
}

func (r *rd) blob() []byte { return r.take(r.uv()) }
func (r *rd) str() string  { return string(r.blob()) }
func (r *rd) fail(f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
}

func (r *rd) count() int {
	n := r.uv()
	if n > uint64(len(r.b)) {
		r.fail("count %d exceeds the remaining %d bytes: %w", n, len(r.b), io.ErrUnexpectedEOF)
		return 0
	}
	return int(n)
}

func (r *rd) strs() []string {
	n := r.count()
	o := make([]string, 0, n)
	for i := 0; i < n && r.err == nil; i++ {
		o = append(o, r.str())
	}
	return o
}

// oddBools counts the arrays of booleans that hold bytes other than 0 and 1,
// which are read as the parity of the byte.
var oddBools int

func (r *rd) val() MVal {
	c := r.byte()
	if r.err != nil {
		return MVal{}
	}
	v, rest, err := parseVal(c, r.b, 0)
	if err != nil {
		r.fail("value: %v", err)
		return v
	}
	if read := r.b[:len(r.b)-len(rest)]; c == kArr+kTrue && !bytes.Equal(read[len(read)-len(v.B):], v.B) {
		oddBools++
	}
	r.b = rest
	return v
}

func (r *rd) at(xs []string, i uint64, what string) string {
	if i >= uint64(len(xs)) {
		r.fail("%s %w: %d of %d", what, errIndex, i, len(xs))
		return ""
	}
	return xs[i]
}

func (r *rd) meta(keys []string, what string) Meta {
	n := r.count()
	ix := make([]uint64, n)
	for i := range ix {
		ix[i] = r.uv()
	}
	m := Meta{}
	for _, i := range ix {
		v := r.val()
		k := r.at(keys, i, what)
		if _, dup := m[k]; dup {
			r.fail("%s key %q twice", what, k)
		}
		m[k] = v
	}
	return m
}

func refTimes(r *rd) []float64 {
	tech := r.byte()
	n := r.count()
	t := make([]float64, 0, n)
	switch tech {
	case 0:
		for i := 0; i < n; i++ {
			t = append(t, r.f64())
		}
	case 1:
		for i := 0; i < n; i++ {
			t = append(t, r.f32())
		}
	case 2:
		if n == 0 {
			break
		}
		x := r.f32()
		t = append(t, x)
		if n > 1 {
			max := r.f32()
			for i := 1; i < n; i++ {
				b := r.take(2)
				if b == nil {
					break
				}
				x += unbst16(b, 0, max)
				t = append(t, x)
			}
		}
	default:
		r.fail("time technique %d", tech)
	}
	return t
}

func refVec(kind string, b []byte, n int) ([]v3, error) {
	r := &rd{b: b}
	tech := r.byte()
	out := make([]v3, n)
	three := func(f func() float64) v3 { return v3{f(), f(), f()} }
	switch {
	case kind == kPos && tech == 0:
		for i := range out {
			out[i] = three(r.f64)
		}
	case tech == 1 && kind != kFloat:
		for i := range out {
			out[i] = three(r.f32)
		}
	case kind == kEuler && tech == 0:
		for i := range out {
			out[i] = three(func() float64 { x := r.f64(); r.take(2); return x })
		}
	case kind == kEuler && tech == 2 && n == 1:
		out[0] = three(r.f32)
	case kind == kEuler && tech == 2:
		for i := range out {
			out[i] = three(func() float64 {
				b := r.take(2)
				if b == nil {
					return 0
				}
				return unbst16(b, 0, 360)
			})
		}
	case kind == kPos && (tech == 2 || tech == 3):
		k := uint64(6)
		if tech == 3 {
			k = 3
		}
		if n == 1 {
			out[0] = three(r.f32)
		} else if n > 1 {
			min, max, cur := three(r.f32), three(r.f32), three(r.f32)
			out[0] = cur
			for i := 1; i < n; i++ {
				b := r.take(k)
				if b == nil {
					break
				}
				x, y, z := octUnpack(b)
				for a, bits := range [][]int{x, y, z} {
					cur[a] += octVal(bits, min[a], max[a])
				}
				out[i] = cur
			}
		}
	case kind == kFloat && tech == 0:
		for i := range out {
			out[i][0] = r.f64()
		}
	case kind == kFloat && tech == 1:
		for i := range out {
			out[i][0] = r.f32()
		}
	case kind == kFloat && tech == 2:
		min, max := r.f32(), r.f32()
		for i := range out {
			if b := r.take(2); b != nil {
				out[i][0] = unbst16(b, min, max-min)
			}
		}
	default:
		return nil, fmt.Errorf("%s technique %d", kind, tech)
	}
	if r.err == nil && len(r.b) != 0 {
		return nil, fmt.Errorf("%s payload has %d stray bytes", kind, len(r.b))
	}
	return out, r.err
}

type refStats struct {
	Sigs     []string
	Compress bool
	Head     int // bytes before the body
	Body     int // uncompressed bytes of head and body
	Rest     int // bytes after the file (uncompressed files only)
}

// refDecode decodes a complete file strictly.
func refDecode(file []byte) (MRec, refStats, error) {
	var st refStats
	r := &rd{b: file}
	if v := r.byte(); v != 2 {
		return MRec{}, st, fmt.Errorf("version %d", v)
	}
	sigs := r.strs()
	st.Sigs = sigs
	for range sigs {
		if v := r.uv(); v != 0 {
			r.fail("encoder version %d", v)
		}
	}
	seen := map[string]bool{}
	for _, s := range sigs {
		if seen[s] {
			r.fail("signature %q listed twice", s)
		}
		seen[s] = true
	}
	flag := r.byte()
	if r.err != nil {
		return MRec{}, st, r.err
	}
	st.Head = len(file) - len(r.b)
	st.Body = st.Head
	if flag == 1 {
		st.Compress = true
		body, err := io.ReadAll(flate.NewReader(bytes.NewReader(r.b)))
		if err != nil {
			return MRec{}, st, fmt.Errorf("deflate: %v", err)
		}
		r = &rd{b: body}
	} else if flag != 0 {
		return MRec{}, st, fmt.Errorf("compression flag %d", flag)
	}
	total := len(r.b)
	headers := make([][]byte, len(sigs))
	for i := range headers {
		headers[i] = r.blob()
	}
	mkeys := r.strs()
	if r.err != nil {
		return MRec{}, st, r.err
	}
	var names, keys, members []string
	for i, s := range sigs {
		h := &rd{b: headers[i]}
		switch s {
		case "recolude.event":
			names, keys = h.strs(), h.strs()
		case "recolude.enum":
			members = h.strs()
		}
		if h.err != nil || len(h.b) != 0 {
			// Readers may ignore the header of an encoder nobody uses.
			return MRec{}, st, fmt.Errorf("header of %s: %v, %d stray bytes", s, h.err, len(h.b))
		}
	}
	var rec func(depth int) MRec
	rec = func(depth int) MRec {
		var m MRec
		if depth > 20000 {
			r.fail("too deep")
			return m
		}
		m.ID, m.Name = r.str(), r.str()
		m.Meta = r.meta(mkeys, "metadata")
		for n := r.count(); n > 0 && r.err == nil; n-- {
			c := MColl{}
			sig := r.at(sigs, r.uv(), "encoder")
			if len(sig) < 9 {
				r.fail("signature %q", sig)
				break
			}
			c.Kind = sig[9:]
			c.Name = r.str()
			t := refTimes(r)
			pl := r.blob()
			if r.err != nil {
				break
			}
			c.Caps = make([]MCap, len(t))
			for i := range t {
				c.Caps[i].T = t[i]
			}
			switch c.Kind {
			case kPos, kEuler, kFloat:
				vs, err := refVec(c.Kind, pl, len(t))
				if err != nil {
					r.fail("%w", err)
					break
				}
				for i := range vs {
					c.Caps[i].V = vs[i]
				}
			case kEnum:
				p := &rd{b: pl}
				for n := p.count(); n > 0 && p.err == nil; n-- {
					c.Members = append(c.Members, p.at(members, p.uv(), "member"))
				}
				for i := range c.Caps {
					v := p.uv()
					if c.Caps[i].E = int(v); int64(c.Caps[i].E) != int64(v) && p.err == nil {
						p.err = fmt.Errorf("value %d: %w", v, errIndex)
					}
				}
				if p.err != nil {
					r.fail("enum payload: %w", p.err)
				} else if len(p.b) != 0 {
					r.fail("enum payload: %d stray bytes", len(p.b))
				}
			case kEvent:
				p := &rd{b: pl}
				for i := range c.Caps {
					c.Caps[i].N = p.at(names, p.uv(), "event name")
					c.Caps[i].M = p.meta(keys, "event key")
				}
				if p.err != nil || len(p.b) != 0 {
					if p.err != nil {
						r.fail("event payload: %w", p.err)
					}
					r.fail("event payload: %d stray bytes", len(p.b))
				}
			default:
				r.fail("unknown kind %q", c.Kind)
			}
			m.Colls = append(m.Colls, c)
		}
		for n := r.count(); n > 0 && r.err == nil; n-- {
			b := MRef{Name: r.str(), URI: r.str(), Size: r.uv()}
			b.Meta = r.meta(mkeys, "reference metadata")
			m.Refs = append(m.Refs, b)
		}
		for n := r.count(); n > 0 && r.err == nil; n-- {
			b := MBin{Name: r.str()}
			size := r.uv()
			b.Meta = r.meta(mkeys, "binary metadata")
			b.Data = append([]byte{}, r.take(size)...)
			m.Bins = append(m.Bins, b)
		}
		for n := r.count(); n > 0 && r.err == nil; n-- {
			m.Recs = append(m.Recs, rec(depth+1))
		}
		return m
	}
	m := rec(0)
	if r.err != nil {
		return m, st, r.err
	}
	st.Rest = len(r.b)
	st.Body += total - len(r.b)
	if st.Compress && st.Rest != 0 {
		return m, st, errors.New("stray bytes after the recording")
	}
	return m, st, nil
}
