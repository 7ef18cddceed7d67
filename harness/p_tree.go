package main

// C19 slices, C20 validation and extent, C33 views, C27 purity and memory.

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

func init() {
	register(&Prop{
		ID: "C19", Level: "exploration",
		Rule: "distinct by recording and range; a case counts when the slice drops some and keeps some captures, or is a law checked on such",
		Need: map[string]int64{"captures": 50000, "kept": 5000, "dropped": 5000, "on_bound": 2000, "laws": 2000, "binaries_dropped": 300},
		Fams: []Family{
			{Name: "range", Quick: 4000, Thorough: 80000, Run: c19},
			{Name: "laws", Quick: 1500, Thorough: 30000, Run: c19laws},
			{Name: "huge", Quick: 10, Thorough: 90, Run: c19huge},
			exact("exact", 10, 3, 1, c19huge),
			{Name: "loaded", Quick: 500, Thorough: 10000, Run: c19loaded},
		},
	})
	register(&Prop{
		ID: "C20", Level: "exploration",
		Rule: "distinct by the timestamps of the tree",
		Need: map[string]int64{"valid": 500, "invalid": 500, "invalid_one_place": 500, "extents": 500, "with_empty": 200, "without_captures": 100},
		Fams: []Family{
			{Name: "validate", Quick: 4000, Thorough: 80000, Run: c20validate},
			{Name: "extent", Quick: 3000, Thorough: 60000, Run: c20extent},
			{Name: "huge", Quick: 14, Thorough: 140, Run: c20huge},
			exact("exact", 7, 3, 1, c20huge),
		},
	})
	register(&Prop{
		ID: "C33", Level: "exploration",
		Rule: "distinct by the captures of the collection",
		Need: map[string]int64{"similar_kinds": 10000, "built": 2000, "sliced": 2000, "loaded": 1000, "captures": 50000},
		Fams: []Family{
			{Name: "views", Quick: 3000, Thorough: 60000, Run: c33},
			{Name: "huge", Quick: 5, Thorough: 50, Run: c33huge},
			exact("exact", 5, 4, 1, c33huge),
		},
	})
	register(&Prop{
		ID: "C27", Level: "exploration",
		Rule: "distinct by recording or by sequence of recordings",
		Need: map[string]int64{"operations": 5000, "lists_scribbled": 1500, "reused": 2000, "after_failure": 500},
		Fams: []Family{
			{Name: "inputs", Quick: 900, Thorough: 20000, Run: c27inputs},
			{Name: "lists", Quick: 900, Thorough: 20000, Run: c27lists},
			{Name: "reuse", Quick: 700, Thorough: 15000, Run: c27reuse},
			{Name: "decode", Quick: 700, Thorough: 15000, Run: c27decode},
		},
	})
}

// finiteTimes replaces times which are not finite.
func (g *Gen) finiteTimes(m MRec) MRec {
	m.walk(func(r *MRec) {
		for i := range r.Colls {
			for j := range r.Colls[i].Caps {
				if t := &r.Colls[i].Caps[j].T; math.IsNaN(*t) || math.IsInf(*t, 0) {
					*t = float64(g.n(10))
				}
			}
		}
	})
	return m
}

// bound is a limit to slice at; NaN bounds nothing.
func (g *Gen) bound(m MRec) float64 {
	if b := g.anyBound(m); !math.IsNaN(b) {
		return b
	}
	return 0
}

// anyBound picks a time near which something may go wrong.
func (g *Gen) anyBound(m MRec) float64 {
	var ts []float64
	for _, x := range m.colls() {
		for _, k := range x.Caps {
			ts = append(ts, k.T)
		}
	}
	if len(ts) == 0 || g.p(0.1) {
		return pick(g, math.Inf(-1), math.Inf(1), 0, math.Copysign(0, -1), g.f64())
	}
	t := ts[g.n(len(ts))]
	switch g.n(6) {
	case 0:
		return math.Nextafter(t, math.Inf(1))
	case 1:
		return math.Nextafter(t, math.Inf(-1))
	case 2:
		return (t + ts[g.n(len(ts))]) / 2
	default:
		return t
	}
}

// sliced is the oracle.
func sliced(m MRec, a, b float64, bins bool) MRec {
	o := m
	o.Colls, o.Recs = nil, nil
	if !bins {
		o.Bins = nil
	}
	for _, x := range m.Colls {
		y := MColl{Kind: x.Kind, Name: x.Name, Members: x.Members}
		for _, k := range x.Caps {
			if a <= k.T && k.T < b {
				y.Caps = append(y.Caps, k)
			}
		}
		o.Colls = append(o.Colls, y)
	}
	for _, r := range m.Recs {
		o.Recs = append(o.Recs, sliced(r, a, b, bins))
	}
	return o
}

func (c *C) sliceOpts(g *Gen, a, b float64) (opts []format.SliceOption, bins bool) {
	bins = true
	if !math.IsInf(a, -1) || g.p(0.5) {
		opts = append(opts, format.BeginningOfSlice(a))
	}
	if !math.IsInf(b, 1) || g.p(0.5) {
		opts = append(opts, format.EndOfSlice(b))
	}
	switch g.n(4) {
	case 0:
		bins = false
		opts = append(opts, format.KeepBinariesInSlice(false))
	case 1:
		opts = append(opts, format.KeepBinariesInSlice(true))
	}
	opts = permuted(g, opts)
	// What an option said earlier does not count when it is given again. Each
	// option which is not given at the end is left out here, too.
	if g.p(0.2) {
		var early []format.SliceOption
		if g.p(0.5) {
			early = append(early, format.BeginningOfSlice(pick(g, b, a+1, 0, math.Inf(1))))
			opts = append(opts, format.BeginningOfSlice(a))
		}
		if g.p(0.5) {
			early = append(early, format.EndOfSlice(pick(g, a, b-1, 0, math.Inf(-1))))
			opts = append(opts, format.EndOfSlice(b))
		}
		if g.p(0.5) {
			early = append(early, format.KeepBinariesInSlice(!bins))
			opts = append(opts, format.KeepBinariesInSlice(bins))
		}
		opts = append(permuted(g, early), opts...)
		c.Count("slices_with_options_given_twice", 1)
	}
	return opts, bins
}

func (c *C) checkSlice(g *Gen, m MRec, rec format.Recording, a, b float64) MRec {
	opts, bins := c.sliceOpts(g, a, b)
	got := c.mustSnap(format.Slice(rec, opts...), "slice")
	want := sliced(m, a, b, bins)
	c.Note("[%v, %v) binaries %v of %s", a, b, bins, trunc(m.Canon(), 4000))
	mustEq(c, "slice", fmt.Sprintf("slice [%v, %v) keeping binaries: %v", a, b, bins), want, got)
	mustEq(c, "slice-input", "the sliced recording itself", m, c.mustSnap(rec, "sliced recording"))
	k := want.numCaps()
	c.Count("captures", m.numCaps())
	c.Count("kept", k)
	c.Count("dropped", m.numCaps()-k)
	for _, x := range m.colls() {
		for _, k := range x.Caps {
			if k.T == a || k.T == b {
				c.Count("on_bound", 1)
			}
		}
	}
	if !bins {
		m.walk(func(r *MRec) { c.Count("binaries_dropped", len(r.Bins)) })
	}
	if k > 0 && k < m.numCaps() {
		c.DistinctS("%v %v %v %s", a, b, bins, m.Canon())
	}
	return got
}

func c19(c *C) {
	g := newGen(c.R)
	g.Chrono = g.p(0.3)
	m := g.Shape()
	rec := m.Build()
	for i := 0; i < 3; i++ {
		a, b := g.bound(m), g.bound(m)
		if a > b && g.p(0.9) {
			a, b = b, a
		}
		c.checkSlice(g, m, rec, a, b)
	}
}

func c19laws(c *C) {
	g := newGen(c.R)
	g.Chrono = g.p(0.3)
	m := g.finiteTimes(g.Shape())
	c.Note("%s", trunc(m.Canon(), 4000))
	rec := m.Build()
	sl := func(r format.Recording, a, b float64) format.Recording {
		return format.Slice(r, format.BeginningOfSlice(a), format.EndOfSlice(b))
	}
	// Unbounded slices change nothing.
	mustEq(c, "unbounded", "slice without bounds", m, c.mustSnap(format.Slice(rec), "slice"))
	mustEq(c, "unbounded", "slice from -Inf to +Inf", m, c.mustSnap(sl(rec, math.Inf(-1), math.Inf(1)), "slice"))
	// Slicing twice is slicing by the intersection.
	xs := []float64{g.bound(m), g.bound(m), g.bound(m), g.bound(m)}
	sort.Float64s(xs)
	a1, b1, a2, b2 := xs[0], xs[2], xs[1], xs[3]
	if g.p(0.5) {
		b1, b2 = b2, b1
	}
	once := c.mustSnap(sl(rec, math.Max(a1, a2), math.Min(b1, b2)), "slice")
	mustEq(c, "twice", fmt.Sprintf("[%v,%v) of [%v,%v)", a2, b2, a1, b1), once, c.mustSnap(sl(sl(rec, a1, b1), a2, b2), "slice"))
	// Adjacent slices partition.
	p := c.mustSnap(sl(rec, xs[0], xs[1]), "slice")
	q := c.mustSnap(sl(rec, xs[1], xs[3]), "slice")
	w := c.mustSnap(sl(rec, xs[0], xs[3]), "slice")
	if p.numCaps()+q.numCaps() != w.numCaps() {
		c.Fail("partition", "[%v,%v) and [%v,%v) hold %d + %d captures, [%v,%v) holds %d", xs[0], xs[1], xs[1], xs[3], p.numCaps(), q.numCaps(), xs[0], xs[3], w.numCaps())
	}
	c.Count("laws", 4)
	c.Count("captures", m.numCaps())
	if k := w.numCaps(); k > 0 && k < m.numCaps() {
		c.DistinctS("%v %s", xs, m.Canon())
	}
}

// c19loaded slices what was read from a file, and writes the slice.
func c19loaded(c *C) {
	g := newGen(c.R)
	w := g.CfgRaw()
	b, _ := c.mustWrite(w, g.forCfg(w).Shape())
	rec, _, err := readRec(b)
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	m := c.mustSnap(rec, "loaded")
	a, e := g.bound(m), g.bound(m)
	if a > e {
		a, e = e, a
	}
	s := c.checkSlice(g, m, rec, a, e)
	back, _ := c.mustRead(func() []byte { b, _ := c.mustWrite(w, s); return b }())
	if k, err := diffRec(w, s, back, "slice"); err != nil {
		c.Fail("slice-rt-"+k, "a slice changes when written and read: %v", err)
	}
}

// ---------------------------------------------------------------------------

func isChrono(ts []float64) bool {
	for i := 1; i < len(ts); i++ {
		if ts[i] < ts[i-1] {
			return false
		}
	}
	return true
}

// chronoTree has every collection in order.
func (g *Gen) chronoTree() MRec {
	m := g.finiteTimes(g.Shape())
	m.walk(func(r *MRec) {
		for i := range r.Colls {
			caps := r.Colls[i].Caps
			sort.SliceStable(caps, func(a, b int) bool { return caps[a].T < caps[b].T })
			if g.p(0.1) {
				r.Colls[i].Caps = nil
			}
		}
	})
	return m
}

func allTimes(m MRec) (out [][]float64) {
	for _, x := range m.colls() {
		out = append(out, times(x.Caps))
	}
	return
}

func c20validate(c *C) {
	g := newGen(c.R)
	g.MaxCaps = pick(g, 3, 10, 60)
	m := g.chronoTree()
	broken := g.p(0.6)
	if broken {
		// One descent, anywhere.
		var spots []*MColl
		m.walk(func(r *MRec) {
			for i := range r.Colls {
				if len(r.Colls[i].Caps) >= 2 {
					spots = append(spots, &r.Colls[i])
				}
			}
		})
		if len(spots) > 0 {
			x := spots[g.n(len(spots))]
			i := pick(g, 1, len(x.Caps)-1, 1+g.n(len(x.Caps)-1))
			prev := x.Caps[i-1].T
			x.Caps[i].T = pick(g, math.Nextafter(prev, math.Inf(-1)), prev-1, -math.Abs(prev)*2-1)
			c.Count("invalid_one_place", 1)
		}
	}
	if g.p(0.1) { // times that compare with nothing, or are equal
		m.walk(func(r *MRec) {
			for i := range r.Colls {
				for j := range r.Colls[i].Caps {
					if g.p(0.3) {
						r.Colls[i].Caps[j].T = pick(g, math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1))
					}
				}
			}
		})
	}
	c.validates(m)
}

func (c *C) validates(m MRec) {
	want := true
	for _, ts := range allTimes(m) {
		want = want && isChrono(ts)
	}
	c.Note("%v", trunc(fmt.Sprint(allTimes(m)), 4000))
	rec := m.Build()
	on, off := format.RequireChronologicalCapture(true), format.RequireChronologicalCapture(false)
	for i, opts := range [][]format.ValidateOption{nil, {on}, {off, on}, {off, off, on}, {on, off, on}} {
		if err := format.Validate(rec, opts...); (err == nil) != want {
			c.Fail("validate", "options %d: every collection chronological: %v, validation says %v", i, want, err)
		}
	}
	for i, opts := range [][]format.ValidateOption{{off}, {on, off}, {off, off}, {off, on, off}} {
		if err := format.Validate(rec, opts...); err != nil {
			c.Fail("validate-off", "validation with checking off (options %d) fails: %v", i, err)
		}
	}
	if want {
		c.Count("valid", 1)
	} else {
		c.Count("invalid", 1)
	}
	c.DistinctS("%v", allTimes(m))
}

func c20extent(c *C) {
	g := newGen(c.R)
	g.MaxCaps = pick(g, 2, 10, 60)
	m := g.chronoTree()
	if g.p(0.3) { // all on one side of zero
		off := pick(g, 1e3, -1e3, 1e6, -1e6, 1e12, -1e12, 1e39, -1e39, 1e300, -1e300)
		m.walk(func(r *MRec) {
			for i := range r.Colls {
				for j := range r.Colls[i].Caps {
					t := r.Colls[i].Caps[j].T
					r.Colls[i].Caps[j].T = math.Copysign(math.Abs(math.Mod(t, 500))*(1+math.Abs(off)/1e6), off) + off
				}
				caps := r.Colls[i].Caps
				sort.SliceStable(caps, func(a, b int) bool { return caps[a].T < caps[b].T })
			}
		})
	}
	c.extends(m)
}

func (c *C) extends(m MRec) {
	lo, hi, n := math.Inf(1), math.Inf(-1), 0
	for _, ts := range allTimes(m) {
		for _, t := range ts {
			lo, hi = math.Min(lo, t), math.Max(hi, t)
			n++
		}
		if len(ts) == 0 {
			c.Count("with_empty", 1)
		}
	}
	if n == 0 {
		c.Note("no captures: %s", trunc(m.Canon(), 4000))
		if d := format.RecordingDuration(m.Build()); d != 0 {
			c.Fail("extent", "a recording without captures lasts %v", d)
		}
		c.Count("without_captures", 1)
		return
	}
	c.Note("%v", trunc(fmt.Sprint(allTimes(m)), 4000))
	rec := m.Build()
	if s, e, d := format.RecordingStart(rec), format.RecordingEnd(rec), format.RecordingDuration(rec); s != lo || e != hi || d != hi-lo {
		c.Fail("extent", "start %v end %v duration %v, captures run from %v to %v", s, e, d, lo, hi)
	}
	c.Count("extents", 1)
	c.DistinctS("%v", allTimes(m))
	for _, x := range rec.CaptureCollections() {
		if k := x.Length(); k > 0 {
			if d, want := encoding.CollectionDuration(x), x.CaptureAt(k-1).Time()-x.CaptureAt(0).Time(); d != want {
				c.Fail("collection-duration", "a collection from %v to %v lasts %v", x.CaptureAt(0).Time(), x.CaptureAt(k-1).Time(), d)
			}
		}
	}
}

// ---------------------------------------------------------------------------

// views compares every way to look at a collection with the model.
func (c *C) views(what string, x format.CaptureCollection, want MColl) {
	caps := x.Captures()
	if x.Length() != len(want.Caps) || len(caps) != len(want.Caps) {
		c.Fail("views-length", "%s %s: length %d, %d captures listed, has %d", what, want.Kind, x.Length(), len(caps), len(want.Caps))
	}
	if x.Name() != want.Name || x.Signature() != "recolude."+want.Kind {
		c.Fail("views-name", "%s %s %q: is called %q of kind %q", what, want.Kind, want.Name, x.Name(), x.Signature())
	}
	if want.Kind == kEnum {
		e := x.(enum.Collection).EnumMembers()
		if fmt.Sprintf("%q", e) != fmt.Sprintf("%q", append([]string{}, want.Members...)) {
			c.Fail("views-members", "%s: members %q instead of %q", what, e, want.Members)
		}
	}
	str := func(k format.Capture) string {
		v, err := snapCapture(want.Kind, k)
		if err != nil {
			c.Fail("views-capture", "%s %s: %v", what, want.Kind, err)
		}
		var o = MColl{Kind: want.Kind, Caps: []MCap{v}}
		return MRec{Colls: []MColl{o}}.Canon()
	}
	for i := range caps {
		w := MRec{Colls: []MColl{{Kind: want.Kind, Caps: want.Caps[i : i+1]}}}.Canon()
		if a, b := str(caps[i]), str(x.CaptureAt(i)); a != w || b != w {
			c.Fail("views-captures", "%s %s: capture %d is listed as %s, at its index is %s, was %s", what, want.Kind, i, a, b, w)
		}
		if caps[i].Time() != want.Caps[i].T && !math.IsNaN(want.Caps[i].T) {
			c.Fail("views-time", "%s %s: capture %d at %v instead of %v", what, want.Kind, i, caps[i].Time(), want.Caps[i].T)
		}
		_ = caps[i].String()
	}
	if n := len(want.Caps); n > 0 {
		if s, e := x.Start(), x.End(); !same(s, want.Caps[0].T) || !same(e, want.Caps[n-1].T) {
			c.Fail("views-extent", "%s %s: from %v to %v, captures from %v to %v", what, want.Kind, s, e, want.Caps[0].T, want.Caps[n-1].T)
		}
	}
	for _, e := range fullEncoders() {
		if e.Accepts(x) != (e.Signature() == x.Signature()) {
			c.Fail("views-encoder", "%s: encoder %q accepts a collection of kind %q: %v", what, e.Signature(), x.Signature(), e.Accepts(x))
		}
		for _, kind := range [...]string{x.Signature() + "s", " " + x.Signature(), strings.ToUpper(x.Signature()), x.Signature()[:len(x.Signature())-1], strings.TrimPrefix(x.Signature(), "recolude."), "recolude.", ""} {
			if e.Accepts(&spyColl{name: x.Name(), kind: kind}) {
				c.Fail("views-encoder", "encoder %q accepts a collection of kind %q", e.Signature(), kind)
			}
			c.Count("similar_kinds", 1)
		}
	}
	c.Count(what, 1)
	c.Count("captures", len(want.Caps))
}

func c33(c *C) {
	g := newGen(c.R)
	m := MRec{Name: "x"}
	for i := 0; i < 1+g.n(5); i++ {
		m.Colls = append(m.Colls, g.Coll(pick(g, allKinds...)))
	}
	c.consistent(g, m)
}

func (c *C) consistent(g *Gen, m MRec) {
	c.Note("%s", trunc(m.Canon(), 5000))
	c.DistinctS("%s", m.Canon())
	rec := m.Build()
	for i, x := range rec.CaptureCollections() {
		c.views("built", x, m.Colls[i])
		a, b := g.bound(m), g.bound(m)
		if a > b {
			a, b = b, a
		}
		c.views("sliced", x.Slice(a, b), sliced(m, a, b, true).Colls[i])
		c.views("built", x, m.Colls[i])
	}
	w := g.CfgRaw()
	f, _ := c.mustWrite(w, m)
	got, _, err := readRec(f)
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	// What is loaded is judged against its own list of captures; C04 judges
	// that against the original.
	for i, x := range got.CaptureCollections() {
		own, err := snapColl(x)
		if err != nil {
			c.Fail("views-captures", "%v", err)
		}
		if len(own.Caps) != len(m.Colls[i].Caps) {
			c.Fail("views-length", "loaded %s: %d captures instead of %d", own.Kind, len(own.Caps), len(m.Colls[i].Caps))
		}
		c.views("loaded", x, own)
		c.views("sliced", x.Slice(math.Inf(-1), math.Inf(1)), sliced(MRec{Colls: []MColl{own}}, math.Inf(-1), math.Inf(1), true).Colls[0])
	}
}

// ---------------------------------------------------------------------------

// guarded hands out its own slices, the same every time, with spare capacity:
// whoever modifies or appends to them is seen.
type guarded struct {
	format.Recording
	colls []format.CaptureCollection
	recs  []format.Recording
	bins  []format.Binary
	refs  []format.BinaryReference
}

func (m *guarded) CaptureCollections() []format.CaptureCollection { return m.colls }
func (m *guarded) Recordings() []format.Recording                 { return m.recs }
func (m *guarded) Binaries() []format.Binary                      { return m.bins }
func (m *guarded) BinaryReferences() []format.BinaryReference     { return m.refs }

// guardedColl hands out the same list of captures every time.
type guardedColl struct {
	format.CaptureCollection
	caps []format.Capture
}

func (x *guardedColl) Captures() []format.Capture { return x.caps }

type hasMembers interface{ EnumMembers() []string }

type guardedEnum struct {
	*guardedColl
	hasMembers
}

func spare[T any](xs []T, canary T) []T {
	out := make([]T, len(xs), len(xs)+3)
	copy(out, xs)
	for i := len(xs); i < cap(out); i++ {
		out[:cap(out)][i] = canary
	}
	return out
}

type guard struct {
	all   []*guarded
	colls []*guardedColl
	canR  format.Recording
	canX  format.CaptureCollection
	canC  format.Capture
	canB  format.Binary
	canF  format.BinaryReference
	state string
}

func newGuard() *guard {
	return &guard{
		canR: &guarded{Recording: MRec{Name: "canary"}.Build()}, canX: &spyColl{id: -1, name: "canary"}, canC: spyCapture{-7},
		canB: rapio.NewBinary("canary", nil, buildMeta(nil)), canF: rapio.NewBinaryReference("canary", "", 0, buildMeta(nil)),
	}
}

func (gd *guard) wrap(r format.Recording, caps bool) *guarded {
	m := &guarded{Recording: r}
	var xs []format.CaptureCollection
	for _, x := range r.CaptureCollections() {
		if caps {
			gx := &guardedColl{x, spare(x.Captures(), gd.canC)}
			gd.colls = append(gd.colls, gx)
			// Enum encoding asks for the members, too.
			if e, ok := x.(hasMembers); ok {
				xs = append(xs, guardedEnum{gx, e})
			} else {
				xs = append(xs, gx)
			}
		} else {
			xs = append(xs, x)
		}
	}
	m.colls = spare(xs, gd.canX)
	var rs []format.Recording
	for _, x := range r.Recordings() {
		rs = append(rs, gd.wrap(x, caps))
	}
	m.recs = spare(rs, gd.canR)
	m.bins = spare(r.Binaries(), gd.canB)
	m.refs = spare(r.BinaryReferences(), gd.canF)
	gd.all = append(gd.all, m)
	return m
}

// identity tells apart any change of an element of any list handed out.
func (gd *guard) identity() string {
	var b bytes.Buffer
	for _, m := range gd.all {
		for _, x := range m.colls[:cap(m.colls)] {
			fmt.Fprintf(&b, "%T %q %q %d;", x, x.Name(), x.Signature(), x.Length())
		}
		for _, x := range m.recs[:cap(m.recs)] {
			fmt.Fprintf(&b, "%T %p;", x, x)
		}
		for _, x := range m.bins[:cap(m.bins)] {
			fmt.Fprintf(&b, "%q;", x.Name())
		}
		for _, x := range m.refs[:cap(m.refs)] {
			fmt.Fprintf(&b, "%q %q;", x.Name(), x.URI())
		}
		b.WriteByte('\n')
	}
	for _, x := range gd.colls {
		for _, k := range x.caps[:cap(x.caps)] {
			fmt.Fprintf(&b, "%v,", k)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func exportMeta(b metadata.Block) {
	p := metadata.NewMetadataProperty(b)
	p.MarshalJSON()
	p.MarshalBSON()
	_ = p.String()
}

func c27inputs(c *C) {
	g := newGen(c.R)
	g.Chrono = true
	m := g.finiteTimes(g.Shape())
	c.Note("%s", trunc(m.Canon(), 5000))
	c.DistinctS("%s", m.Canon())
	plain := m.Build()
	gd := newGuard()
	caps := g.p(0.5)
	rec := gd.wrap(plain, caps)
	before := gd.identity()
	check := func(what string) {
		mustEq(c, "modified", what+" changed the recording it was given", m, c.mustSnap(plain, "input"))
		if now := gd.identity(); now != before {
			c.Fail("modified-list", "%s changed a list of the recording it was given: %s", what, firstDiff(before, now))
		}
		c.Count("operations", 1)
	}
	for i := 0; i < 6; i++ {
		switch g.n(6) {
		case 0, 1:
			w := g.Cfg()
			if _, _, err := writeRec(w, rec); err != nil {
				c.Fail("write-error", "%v", err)
			}
			check("writing")
		case 2:
			format.Slice(rec, format.BeginningOfSlice(g.bound(m)), format.EndOfSlice(g.bound(m)), format.KeepBinariesInSlice(g.p(0.5)))
			check("slicing")
		case 3:
			format.Validate(rec)
			check("validating")
		case 4:
			format.RecordingStart(rec)
			format.RecordingEnd(rec)
			format.RecordingDuration(rec)
			check("measuring")
		case 5:
			var walk func(r format.Recording)
			walk = func(r format.Recording) {
				exportMeta(r.Metadata())
				for _, s := range r.Recordings() {
					walk(s)
				}
			}
			walk(rec)
			check("exporting metadata")
		}
	}
	// A failing write modifies nothing either.
	rapio.NewWriter(fullEncoders(), g.p(0.5), &faultSink{limit: g.n(300), call: -1}, rapio.Raw64).Write(rec)
	check("a failing write")
	rapio.NewWriter(nil, false, io.Discard, rapio.Raw64).Write(rec)
	check("a refused write")
}

// c27lists scribbles over lists of captures.
func c27lists(c *C) {
	g := newGen(c.R)
	m := MRec{Name: "x"}
	for i := 0; i < 1+g.n(4); i++ {
		m.Colls = append(m.Colls, g.CollN(pick(g, allKinds...), 1+g.n(12)))
	}
	c.Note("%s", trunc(m.Canon(), 5000))
	c.DistinctS("%s", m.Canon())
	rec := m.Build()
	if g.p(0.4) {
		w := g.CfgRaw()
		f, _ := c.mustWrite(w, m)
		var err error
		if rec, _, err = readRec(f); err != nil {
			c.Fail("read-error", "%v", err)
		}
	}
	if g.p(0.3) {
		rec = format.Slice(rec, format.BeginningOfSlice(math.Inf(-1)))
	}
	want := c.mustSnap(rec, "before")
	for _, x := range rec.CaptureCollections() {
		l := x.Captures()
		switch g.n(4) {
		case 0:
			for i := range l {
				l[i] = spyCapture{-99}
			}
		case 1:
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		case 2:
			for i := range l {
				l[i] = nil
			}
		case 3:
			if len(l) > 0 {
				_ = append(l[:len(l)-1], spyCapture{-99})
			}
		}
		c.Count("lists_scribbled", 1)
	}
	mustEq(c, "list-aliases", "changing lists of captures changed a collection", want, c.mustSnap(rec, "after"))
}

// c27reuse runs a sequence of writes and reads with the same objects.
func c27reuse(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g = g.forCfg(w)
	g.Small = true
	encs := permuted(g, w.Encoders())
	var sink bytes.Buffer
	shared := rapio.NewWriter(encs, w.Compress, &sink, w.Time)
	var want []MRec
	var stream bytes.Buffer
	c.Note("%v", w)
	for i := 0; i < 2+g.n(5); i++ {
		switch g.n(8) {
		case 0: // a write that fails
			n, err := rapio.NewWriter(encs, w.Compress, &faultSink{limit: g.n(60), call: -1}, w.Time).Write(g.Shape().Build())
			_, _ = n, err
			c.Count("after_failure", 1)
			continue
		case 1: // a refused write
			r := toMut(g.Shape().Build(), new([]*mutRec))
			r.recs = append(r.recs, nil)
			before := sink.Len()
			if n, err := shared.Write(r); err == nil || n != 0 || sink.Len() != before {
				c.Fail("refusal", "a nil sub-recording: %d bytes, error %v", n, err)
			}
			c.Count("after_failure", 1)
			continue
		case 2: // a damaged read
			f, _ := c.mustWrite(w, g.Shape())
			rapio.NewReader(encs, bytes.NewReader(f[:g.n(len(f))])).Read()
			c.Count("after_failure", 1)
			continue
		}
		m := det(g.Shape())
		c.note += "\n" + trunc(m.Canon(), 1500)
		sink.Reset()
		if _, err := shared.Write(m.Build()); err != nil {
			c.Fail("reuse-write", "write %d with a used writer fails: %v", i, err)
		}
		fresh, _ := c.mustWrite(w, m)
		var ref bytes.Buffer
		if _, err := rapio.NewWriter(permutedLike(encs, w.Encoders()), w.Compress, &ref, w.Time).Write(m.Build()); err != nil {
			c.Fail("write-error", "%v", err)
		}
		if !bytes.Equal(ref.Bytes(), sink.Bytes()) {
			c.Fail("reuse-bytes", "write %d with a used writer gives %d bytes, other than the %d bytes of a fresh one", i, sink.Len(), ref.Len())
		}
		// Used encoders read like fresh ones.
		rec, _, err := rapio.NewReader(encs, bytes.NewReader(sink.Bytes())).Read()
		if err != nil {
			c.Fail("reuse-read", "reading with used encoders fails: %v", err)
		}
		a, _ := c.mustRead(fresh)
		mustEq(c, "reuse-content", "read with used encoders", a, c.mustSnap(rec, "reused"))
		c.Count("reused", 1)
		if !w.Compress {
			stream.Write(sink.Bytes())
			want = append(want, a)
		}
		c.DistinctS("%x", sink.Bytes())
	}
	// One reader for a whole stream.
	r := rapio.NewReader(encs, &stream)
	for i, m := range want {
		rec, _, err := r.Read()
		if err != nil {
			c.Fail("reuse-reader", "recording %d of a stream: %v", i, err)
		}
		mustEq(c, "reuse-reader", fmt.Sprintf("recording %d read by the same reader", i), m, c.mustSnap(rec, "stream"))
		c.Count("reused", 1)
	}
}

// permutedLike orders fresh encoders like the given ones.
func permutedLike(order, fresh []encoding.Encoder) []encoding.Encoder {
	var out []encoding.Encoder
	for _, o := range order {
		for _, f := range fresh {
			if f.Signature() == o.Signature() {
				out = append(out, f)
			}
		}
	}
	return out
}

// c27decode: decoding leaves header, payload and times as they were, and
// encoding the collections it is given.
func c27decode(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g = g.forCfg(w)
	kind := pick(g, allKinds...)
	var enc encoding.Encoder
	for _, e := range w.Encoders() {
		if e.Signature() == "recolude."+kind {
			enc = e
		}
	}
	var ms []MColl
	for i := 0; i < 1+g.n(4); i++ {
		ms = append(ms, g.Coll(kind))
	}
	m := det(MRec{Colls: ms})
	c.Note("%v %s", w, trunc(m.Canon(), 4000))
	c.DistinctS("%v %s", w, m.Canon())
	xs := m.Build().CaptureCollections()
	head, data, err := enc.Encode(xs)
	if err != nil {
		c.Fail("encode-error", "%v", err)
	}
	head2, data2, err := enc.Encode(xs)
	if err != nil || !bytes.Equal(head, head2) || fmt.Sprintf("%x", data) != fmt.Sprintf("%x", data2) {
		c.Fail("encode-memory", "encoding the same collections again gives other bytes (error %v)", err)
	}
	var first []string
	for pass := 0; pass < 2; pass++ {
		for i, x := range ms {
			h, d, ts := append([]byte{}, head...), append([]byte{}, data[i]...), times(x.Caps)
			ts2 := append([]float64{}, ts...)
			got, err := enc.Decode(x.Name, h, d, ts)
			if err != nil {
				c.Fail("decode-error", "%v", err)
			}
			if !bytes.Equal(h, head) || !bytes.Equal(d, data[i]) || fmt.Sprint(ts) != fmt.Sprint(ts2) {
				c.Fail("decode-modifies", "decoding %s changed its header, payload or timestamps", kind)
			}
			s, err := snapColl(got)
			if err != nil {
				c.Fail("decode-broken", "%v", err)
			}
			cs := MRec{Colls: []MColl{s}}.Canon()
			if pass == 0 {
				first = append(first, cs)
			} else if first[i] != cs {
				c.Fail("decode-memory", "decoding %s again gives another result: %s", kind, firstDiff(first[i], cs))
			}
			if g.p(0.3) {
				enc.Decode(x.Name, h, d[:g.n(len(d)+1)], append(ts, 1e9))
				c.Count("after_failure", 1)
			}
			c.Count("operations", 1)
			c.Count("reused", 1)
		}
	}
}
