package main

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/metadata"
)

// C38: the text of metadata values and captures. Judged is what the text
// states, not how it is laid out.

func init() {
	register(&Prop{
		ID: "C38", Level: "exploration",
		Rule: "distinct by value or recording",
		Need: map[string]int64{"values": 8000, "captures": 8000, "blocks": 1000, "reread": 8000, "big_arrays": 10},
		Fams: []Family{
			{Name: "value", Quick: 4000, Thorough: 60000, Run: c38value},
			{Name: "block", Quick: 1000, Thorough: 15000, Run: c38block},
			{Name: "captures", Quick: 1000, Thorough: 15000, Run: c38captures},
			{Name: "bigarray", Quick: 20, Thorough: 200, Run: c38big},
			{Name: "huge", Quick: 8, Thorough: 48, Run: c38huge},
			exact("exact", 8, 1, 0, c38huge),
			exact("exact-text", 1, 2, 1, c38text),
			{Name: "rawcount", Quick: 1, Thorough: 1, Run: c38raw},
		},
	})
}

var numberRE = regexp.MustCompile(`[-+]?(?:[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?|Inf|NaN)`)

func numbers(s string) []string { return numberRE.FindAllString(s, -1) }

// states tells whether the text of a number states v to the given decimals.
func states(s string, v float64, decimals int) bool {
	if math.IsNaN(v) {
		return strings.EqualFold(strings.TrimLeft(s, "+-"), "NaN")
	}
	x, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(x, 0) {
		return false
	}
	if math.IsInf(v, 0) || math.IsInf(x, 0) {
		return x == v
	}
	return math.Abs(x-v) <= 0.5000001*math.Pow10(-decimals)+math.Abs(v)*1e-14
}

func (c *C) checkText(v MVal, s string) {
	bad := func(why string, a ...any) {
		c.Fail(fmt.Sprintf("text-%d", v.Code), "the text of %s is %q: %s", trunc(v.String(), 400), head(s, 400), fmt.Sprintf(why, a...))
	}
	floats := func(fs []float64) {
		ns := numbers(s)
		if len(ns) != len(fs) {
			bad("%d numbers for %d", len(ns), len(fs))
		}
		for i := range fs {
			if !states(ns[i], fs[i], 6) {
				bad("number %d is %v", i, fs[i])
			}
		}
	}
	integer := func(n int64) {
		if ns := numbers(s); len(ns) != 1 || ns[0] != strconv.FormatInt(n, 10) {
			bad("should state %d", n)
		}
	}
	switch {
	case v.Code == kStr:
		if s != v.S {
			bad("should be the string")
		}
	case v.Code == kInt, v.Code == kByte, v.Code == kTime:
		integer(v.I)
	case v.Code == kTrue || v.Code == kFalse:
		if s != strconv.FormatBool(v.Code == kTrue) {
			bad("should be %v", v.Code == kTrue)
		}
	case v.Code == kF32:
		floats([]float64{float64(math.Float32frombits(uint32(v.F[0])))})
	case v.Code == kV2 || v.Code == kV3:
		var fs []float64
		for _, b := range v.F {
			fs = append(fs, math.Float64frombits(b))
		}
		floats(fs)
	case v.Code == kBlock:
		rest := s
		for _, k := range sortedKeys(v.M) {
			i := strings.Index(rest, k)
			if i < 0 {
				bad("key %q is missing or out of order", k)
			}
			rest = rest[i+len(k):]
			t := v.M[k].Prop().String()
			if i = strings.Index(rest, t); i < 0 {
				bad("the value of %q is not %q", k, t)
			}
			rest = rest[i+len(t):]
		}
		if n := len(rest); n > 16 {
			bad("%d bytes follow the last value", n)
		}
		for _, k := range sortedKeys(v.M) {
			c.checkText(v.M[k], v.M[k].Prop().String())
		}
		c.Count("blocks", 1)
	case v.Code == kArr+kByte || v.Code == kArr+kTrue:
		// See c38raw for their numbers of elements.
		if len(numbers(s)) == 0 {
			bad("should state a number of elements")
		}
	default:
		ns := numbers(s)
		if len(ns) == 0 || ns[len(ns)-1] != strconv.Itoa(len(v.A)) {
			bad("should state %d elements", len(v.A))
		}
	}
	c.Count("values", 1)
}

// sameText: the same value has the same text each time, and read back.
func (c *C) sameText(v MVal) {
	p := v.Prop()
	s := p.String()
	c.checkText(v, s)
	for i := 0; i < 3; i++ {
		if t := p.String(); t != s {
			c.Fail("text-changes", "the same value is %q and then %q", head(s, 300), head(t, 300))
		}
		if t := v.Prop().String(); t != s {
			c.Fail("text-differs", "equal values are %q and %q", head(s, 300), head(t, 300))
		}
	}
	var b bytes.Buffer
	if _, err := metadata.WriteProprty(&b, p); err != nil {
		c.Fail("store-error", "%v", err)
	}
	back, err := metadata.ReadProperty(&b)
	if err != nil {
		c.Fail("load-error", "%v", err)
	}
	if t := back.String(); t != s {
		c.Fail("text-differs", "the value is %q, read back %q", head(s, 300), head(t, 300))
	}
	c.Count("reread", 1)
}

func c38value(c *C) {
	g := newGen(c.R)
	v := g.Val(3)
	c.Note("%v", v)
	c.sameText(v)
	c.DistinctS("%s", v.String())
}

func c38block(c *C) {
	g := newGen(c.R)
	m := Meta{}
	for i, n := 0, g.n(40); i < n; i++ {
		m[g.Name()] = g.Val(2)
	}
	v := vBlock(m)
	c.Note("%v", v)
	c.sameText(v)
	c.DistinctS("%s", v.String())
}

func c38big(c *C) {
	g := newGen(c.R)
	n := pick(g, 0, 1, 127, 128, 255, 256, 1000, 16383, 16384, 20000)
	code := pick(g, byte(kStr), kInt, kF32, kV2, kV3, kBlock, kTime)
	v := MVal{Code: kArr + code}
	for i := 0; i < n; i++ {
		x := g.ValOf(code, 0)
		v.A = append(v.A, x)
	}
	c.Note("array of %d of kind %d", n, code)
	c.sameText(v)
	c.Count("big_arrays", 1)
	c.DistinctS("%d %d", n, code)
}

// c38raw: byte and boolean arrays state how many elements they have. They
// count the bytes in which their length is stored, too, and an existing test
// pins that: a known finding.
func c38raw(c *C) {
	known := ""
	for _, n := range []int{0, 1, 3, 127, 128, 1000, 16384} {
		for _, v := range []MVal{vBytes(make([]byte, n)), vBools(make([]bool, n))} {
			p := v.Prop()
			ns := numbers(p.String())
			if len(ns) == 0 {
				c.Fail("array-count", "%q", p.String())
			}
			switch got := ns[len(ns)-1]; got {
			case strconv.Itoa(n):
			case strconv.Itoa(len(p.Data())):
				known = fmt.Sprintf("an array of %d elements states %s", n, got)
			default:
				c.Fail("array-count", "an array of %d elements states %q", n, p.String())
			}
		}
	}
	if known != "" {
		c.Fail("raw-array-count", "%s", known)
	}
	c.DistinctS("raw")
}

func c38captures(c *C) {
	g := newGen(c.R)
	kind := allKinds[c.Idx%len(allKinds)]
	m := g.Coll(kind)
	c.Note("%s", trunc(MRec{Colls: []MColl{m}}.Canon(), 4000))
	texts := func(x format.CaptureCollection) []string {
		var out []string
		for i, cp := range x.Captures() {
			s := cp.String()
			if t := x.CaptureAt(i).String(); t != s {
				c.Fail("text-differs", "capture %d is %q in the list and %q by index", i, s, t)
			}
			out = append(out, s)
		}
		return out
	}
	ts := texts(m.Build())
	for i, x := range m.Caps {
		s := ts[i]
		ns := numbers(s)
		want := []float64{x.T}
		switch kind {
		case kPos, kEuler:
			want = append(want, x.V[:]...)
		case kFloat:
			want = append(want, x.V[0])
		case kEnum:
			want = append(want, float64(x.E))
		case kEvent:
			if len(ns) == 0 || !states(ns[0], x.T, 2) || !strings.HasSuffix(s, x.N) {
				c.Fail("text-capture", "event %q at %v is %q", x.N, x.T, s)
			}
			c.Count("captures", 1)
			continue
		}
		if len(ns) != len(want) {
			c.Fail("text-capture", "%s capture %v is %q", kind, want, s)
		}
		for j := range want {
			if !states(ns[j], want[j], 2) {
				c.Fail("text-capture", "%s capture %v is %q", kind, want, s)
			}
		}
		if kind == kEnum && ns[1] != strconv.Itoa(x.E) {
			c.Fail("text-capture", "enum capture %d is %q", x.E, s)
		}
		c.Count("captures", 1)
	}
	// Loaded ones read the same.
	w := g.CfgRaw()
	b, _ := c.mustWrite(w, MRec{Colls: []MColl{m}})
	rec, _, err := readRec(b)
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	if w.Time == 0 && w.Pos == 0 && w.Eul == 0 && w.Flt == 0 {
		for i, t := range texts(rec.CaptureCollections()[0]) {
			if t != ts[i] {
				c.Fail("text-differs", "capture %d is %q, loaded %q", i, ts[i], t)
			}
			c.Count("reread", 1)
		}
	}
	c.DistinctS("%s", MRec{Colls: []MColl{m}}.Canon())
}
