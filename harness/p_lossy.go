package main

// Resolution of the compact techniques: C05-C08.

import (
	"fmt"
	"math"
	"slices"

	"github.com/EliCDavis/vector/vector3"
	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
)

func init() {
	register(&Prop{
		ID: "C05", Level: "exploration",
		Rule: "a case is one to four collections encoded with an octree technique, directly or inside a written recording; non-trivial when a collection has at least two captures; distinct by capture content",
		Need: map[string]int64{"captures": 100000, "lone": 100, "constant_velocity": 50, "exact_grid": 100},
		Fams: []Family{
			{Name: "direct", Quick: 2500, Thorough: 80000, Run: func(c *C) { c05(c, "any") }},
			{Name: "grid", Quick: 900, Thorough: 30000, Run: func(c *C) { c05(c, "grid") }},
			{Name: "constant", Quick: 300, Thorough: 8000, Run: func(c *C) { c05(c, "constant") }},
			{Name: "lone", Quick: 300, Thorough: 5000, Run: func(c *C) { c05(c, "lone") }},
			{Name: "long", Quick: 60, Thorough: 1500, Run: func(c *C) { c05(c, "long") }},
			{Name: "tree", Quick: 400, Thorough: 10000, Run: c05tree},
			{Name: "huge", Quick: 4, Thorough: 60, Run: hugeColls(false, kPos)},
			exact("exact", 1, 6, 1, hugeColls(false, kPos)),
			{Name: "cells", Quick: 400, Thorough: 8000, Run: c05cells},
		},
	})
	register(&Prop{
		ID: "C06", Level: "exploration",
		Rule: "a case is one to four rotation collections encoded with the 16 bit technique; distinct by capture content",
		Need: map[string]int64{"captures": 50000, "boundary_angles": 5000, "huge_angles": 500, "lone": 100},
		Fams: []Family{
			{Name: "direct", Quick: 3000, Thorough: 80000, Run: c06},
			{Name: "lone", Quick: 1000, Thorough: 20000, Run: c06lone},
			{Name: "tree", Quick: 400, Thorough: 10000, Run: func(c *C) { lossyTree(c, kEuler) }},
			{Name: "huge", Quick: 3, Thorough: 40, Run: hugeColls(false, kEuler)},
			exact("exact", 1, 4, 1, hugeColls(false, kEuler)),
		},
	})
	register(&Prop{
		ID: "C07", Level: "exploration",
		Rule: "a case is one to five float collections encoded together with the 16 bit technique; distinct by capture content",
		Need: map[string]int64{"captures": 50000, "equal_values": 200, "empty": 50},
		Fams: []Family{
			{Name: "direct", Quick: 4000, Thorough: 100000, Run: c07},
			{Name: "tree", Quick: 400, Thorough: 10000, Run: func(c *C) { lossyTree(c, kFloat) }},
			{Name: "huge", Quick: 3, Thorough: 40, Run: hugeColls(false, kFloat)},
			exact("exact", 1, 4, 1, hugeColls(false, kFloat)),
		},
	})
	register(&Prop{
		ID: "C08", Level: "exploration",
		Rule: "a case is a recording whose collections have chronological times, written with the compact time technique; distinct by times",
		Need: map[string]int64{"captures": 100000, "empty": 50, "single": 50, "clamped": 50, "exact_grid": 50},
		Fams: []Family{
			{Name: "times", Quick: 3000, Thorough: 80000, Run: c08},
			{Name: "long", Quick: 40, Thorough: 800, Run: c08long},
			{Name: "huge", Quick: 6, Thorough: 60, Run: hugeColls(true, kFloat, kEnum)},
			{Name: "huge-walk", Quick: 3, Thorough: 40, Run: c08huge},
			exact("exact", 1, 6, 1, c08huge),
		},
	})
}

// viaEncoder encodes the collections together and decodes each.
func viaEncoder(c *C, enc encoding.Encoder, ms []MColl) []MColl {
	cs := make([]format.CaptureCollection, len(ms))
	for i := range ms {
		cs[i] = ms[i].Build()
	}
	h, pl, err := enc.Encode(cs)
	if err != nil || len(pl) != len(ms) {
		c.Fail("encode", "encoding %d collections gives %d payloads, error %v", len(ms), len(pl), err)
	}
	out := make([]MColl, len(ms))
	for i := range ms {
		back, err := enc.Decode(ms[i].Name, h, pl[i], times(ms[i].Caps))
		if err != nil {
			c.Fail("decode", "decoding a fresh payload: %v", err)
		}
		if out[i], err = snapColl(back); err != nil {
			c.Fail("snap", "decoded collection: %v", err)
		}
		if len(out[i].Caps) != len(ms[i].Caps) || out[i].Kind != ms[i].Kind || out[i].Name != ms[i].Name {
			c.Fail("shape", "decoded %s collection %q with %d captures instead of %s %q with %d", out[i].Kind, out[i].Name, len(out[i].Caps), ms[i].Kind, ms[i].Name, len(ms[i].Caps))
		}
		for j := range ms[i].Caps {
			if !same(out[i].Caps[j].T, ms[i].Caps[j].T) {
				c.Fail("time", "capture %d: time %v instead of %v", j, out[i].Caps[j].T, ms[i].Caps[j].T)
			}
		}
	}
	return out
}

// gridWalk makes an axis whose every quantity is exact in single precision.
func (g *Gen) gridWalk(n int) []float64 {
	unit := math.Exp2(float64(-g.n(10)))
	span := 1 + g.n(300)
	bias := g.n(2*span+1) - span
	x := float64(g.n(2000)-1000) * unit
	v := make([]float64, n)
	mode := g.n(4)
	for i := range v {
		v[i] = x
		switch mode {
		case 0:
			x += float64(g.n(2*span+1)-span) * unit
		case 1: // one sided
			x += float64(g.n(span+1)) * unit
		case 2:
			x += float64(g.n(span+1)+bias) * unit
		case 3: // nearly constant with rare jumps
			if g.p(0.03) {
				x += float64(span) * unit
			} else {
				x += float64(g.n(3)-1) * unit
			}
		}
	}
	return v
}

func (g *Gen) posColl(mode string) MColl {
	n := 2 + g.n(40)
	if g.p(0.1) {
		n = g.n(4)
	}
	if g.p(0.05) {
		n = 100 + g.n(300)
	}
	switch mode {
	case "lone":
		n = 1
	case "long":
		n = 1000 + g.n(4000)
	}
	x := MColl{Kind: kPos, Name: g.Name(), Caps: make([]MCap, n)}
	t := g.Times(n)
	for a := 0; a < 3; a++ {
		var v []float64
		switch {
		case mode == "grid", mode == "long" && g.p(0.5):
			v = g.gridWalk(n)
		case mode == "constant":
			v = make([]float64, n)
			s, d := (g.r.Float64()-0.5)*100, (g.r.Float64()-0.5)*10
			if g.p(0.5) {
				s, d = float64(g.n(100)), float64(g.n(65)-32)/16
			}
			for i := range v {
				v[i] = s + d*float64(i)
			}
		default:
			v = g.Coords(n)
			if g.p(0.1) {
				k := math.Pow(10, float64(g.n(16)-6))
				for i := range v {
					v[i] *= k
				}
			}
		}
		if mode != "constant" && n > 0 {
			if g.p(0.1) { // the other way round
				slices.Reverse(v)
			}
			if g.p(0.1) { // one of them exactly zero
				at := v[pick(g, 0, n-1, n-1, g.n(n))]
				for i := range v {
					v[i] -= at
				}
			}
			if a > 0 && g.p(0.08) { // like the axis before, or its mirror image
				by := pick(g, 1.0, 1, -1)
				for i := range v {
					v[i] = by * x.Caps[i].V[a-1]
				}
			}
		}
		for i := range v {
			x.Caps[i].V[a] = v[i]
		}
	}
	for i := range t {
		x.Caps[i].T = t[i]
	}
	return x
}

func c05(c *C, mode string) {
	g := newGen(c.R)
	g.Plain, g.Small = true, true
	tech := 2 + g.n(2)
	k := 1
	if g.p(0.4) {
		k = 1 + g.n(4)
	}
	var ms []MColl
	for i := 0; i < k; i++ {
		ms = append(ms, g.posColl(mode))
	}
	c.Note("technique %d, %s", tech, trunc(MRec{Colls: ms}.Canon(), 5000))
	out := viaEncoder(c, position.NewEncoder(position.StorageTechnique(tech)), ms)
	for i := range ms {
		for a := 0; a < 3; a++ {
			o, gt := axis(ms[i].Caps, a), axis(out[i].Caps, a)
			if err := checkPos(tech, o, gt); err != nil {
				c.Fail("position", "technique %d, %s, axis %d: %v", tech, mode, a, err)
			}
			if mode == "constant" && len(o) > 1 {
				// Exact to single precision rounding of start and step.
				step := o[1] - o[0]
				for j := range o {
					bound := math.Abs(o[0]-f32(o[0])) + float64(j)*math.Abs(step)/(1<<23) + 1e-9*(1+maxAbs(o...))
					if e := math.Abs(gt[j] - o[j]); !(e <= bound) {
						c.Fail("constant", "constant velocity %v from %v: capture %d is %v instead of %v, %g apart (bound %g)", step, o[0], j, gt[j], o[j], e, bound)
					}
				}
			}
		}
		c.Count("captures", len(ms[i].Caps))
		switch {
		case len(ms[i].Caps) == 1:
			c.Count("lone", 1)
		case mode == "constant":
			c.Count("constant_velocity", 1)
		case mode == "grid":
			c.Count("exact_grid", 1)
		}
		c.Max("captures_per_collection", len(ms[i].Caps))
		if len(ms[i].Caps) > 1 || mode == "lone" {
			c.DistinctS("%d%s", tech, MRec{Colls: ms[i : i+1]}.Canon())
		}
	}
	c.Sample(fmt.Sprintf("technique %d %s", tech, MRec{Colls: ms}.Canon()))
}

func c05tree(c *C) { lossyTree(c, kPos) }

// lossyTree writes a whole recording with the compact technique of one kind.
func lossyTree(c *C, kind string) {
	g := newGen(c.R)
	w := g.Cfg()
	switch kind {
	case kPos:
		w.Pos = position.StorageTechnique(2 + g.n(2))
	case kEuler:
		w.Eul = euler.Raw16
	case kFloat:
		w.Flt = float.BST16
	}
	g.forCfg(w)
	g.Kinds = []string{kind, kind, kind, pick(g, allKinds...)}
	m := g.Rec(g.n(3))
	c.roundTrip(w, m)
	if len(m.colls()) > 0 {
		c.DistinctS("%v%s", w, m.Canon())
	}
}

func (g *Gen) angle(c *C) float64 {
	switch g.n(6) {
	case 0: // exact multiples and neighbours
		k := float64(g.n(21) - 10)
		if g.p(0.1) {
			k = float64(g.n(200001) - 100000)
		}
		x := 360 * k
		c.Count("boundary_angles", 1)
		switch g.n(6) {
		case 0:
			return x
		case 1:
			return math.Nextafter(x, math.Inf(1))
		case 2:
			return math.Nextafter(x, math.Inf(-1))
		case 3:
			return x + pick(g, 1e-3, -1e-3, 1e-9, -1e-9, 0.002746, -0.002747, 0.00137, -0.00137)
		case 4:
			return pick(g, math.Copysign(0, -1), 5e-324, -5e-324, -1e-17, -1e-14, 1e-300, -1e-300)
		default:
			return x + 180
		}
	case 1: // leaf boundaries of the 16 bit grid
		c.Count("boundary_angles", 1)
		x := float64(g.n(65537)) * 360 / 65536
		return pick(g, x, math.Nextafter(x, 0), math.Nextafter(x, 1e9), -x)
	case 2:
		c.Count("huge_angles", 1)
		x := math.Exp2(float64(20+g.n(1000))) * (1 + g.r.Float64())
		if g.p(0.3) {
			x = pick(g, 1e6, 1e9, 1e15, 1e20, 1e100, 1e300, math.MaxFloat64, 36000000000, 3.6e17)
		}
		if g.p(0.5) {
			x = -x
		}
		return x
	case 3:
		return (g.r.Float64() - 0.5) * 1e5
	default:
		return (g.r.Float64() - 0.5) * 1600
	}
}

func (c *C) check16(o, g MColl) {
	for a := 0; a < 3; a++ {
		if err := checkEuler(2, axis(o.Caps, a), axis(g.Caps, a)); err != nil {
			c.Fail("angle", "axis %d: %v", a, err)
		}
	}
}

func c06(c *C) {
	g := newGen(c.R)
	g.Small = true
	var ms []MColl
	for i := 1 + g.n(4); i > 0; i-- {
		n := 2 + g.n(30)
		if g.p(0.1) {
			n = g.n(3)
		}
		x := MColl{Kind: kEuler, Name: g.Name(), Caps: make([]MCap, n)}
		for j := range x.Caps {
			x.Caps[j] = MCap{T: float64(j), V: [3]float64{g.angle(c), g.angle(c), g.angle(c)}}
		}
		ms = append(ms, x)
	}
	c.Note("%s", trunc(MRec{Colls: ms}.Canon(), 5000))
	out := viaEncoder(c, euler.NewEncoder(euler.Raw16), ms)
	for i := range ms {
		c.check16(ms[i], out[i])
		c.Count("captures", len(ms[i].Caps))
	}
	c.DistinctS("%s", MRec{Colls: ms}.Canon())
	c.Sample(MRec{Colls: ms}.Canon())
}

func c06lone(c *C) {
	g := newGen(c.R)
	m := MColl{Kind: kEuler, Caps: []MCap{{T: 3, V: [3]float64{g.angle(c), g.angle(c), g.angle(c)}}}}
	c.Note("%v", m.Caps)
	out := viaEncoder(c, euler.NewEncoder(euler.Raw16), []MColl{m, {Kind: kEuler}, m})
	c.check16(m, out[0])
	c.check16(m, out[2])
	c.Count("lone", 1)
	c.Count("captures", 2)
	c.DistinctS("%s", MRec{Colls: []MColl{m}}.Canon())
}

func (g *Gen) floatVals(n int) []float64 {
	v := make([]float64, n)
	switch g.n(8) {
	case 0: // equal
		x := pick(g, 0, 1, -1, 0.1, -0.1, 3e38, -3e38, 1e-40, 16777217, g.r.Float64())
		for i := range v {
			v[i] = x
		}
	case 1: // whole single precision range
		for i := range v {
			v[i] = pick(g, math.MaxFloat32, -math.MaxFloat32, 0, 1e38, -2.5e38, (g.r.Float64()-0.5)*6e38)
		}
	case 2: // grid: exact bounds
		for i := range v {
			v[i] = float64(g.n(1025)-512) / 8
		}
	case 3: // far from zero
		s := pick(g, 1e6, -1e6, 12345678.5, -3.3e7)
		for i := range v {
			v[i] = s + g.r.Float64()
		}
	case 4: // tiny
		for i := range v {
			v[i] = (g.r.Float64() - 0.5) * 1e-30
		}
	case 5: // all negative
		for i := range v {
			v[i] = -1 - 100*g.r.Float64()
		}
	case 6: // at leaf boundaries
		for i := range v {
			v[i] = float64(g.n(65537)) / 65536
			if g.p(0.3) {
				v[i] = math.Nextafter(v[i], pick(g, -1.0, 2.0))
			}
		}
	default:
		return g.Coords(n)
	}
	return v
}

func c07(c *C) {
	g := newGen(c.R)
	g.Plain, g.Small = true, true
	var ms []MColl
	for i := 1 + g.n(5); i > 0; i-- {
		n := 1 + g.n(25)
		if g.p(0.1) {
			n = pick(g, 0, 0, 1, 2, 500)
		}
		x := MColl{Kind: kFloat, Name: g.Name(), Caps: make([]MCap, n)}
		for j, v := range g.floatVals(n) {
			x.Caps[j] = MCap{T: float64(j), V: [3]float64{v}}
		}
		ms = append(ms, x)
	}
	c.Note("%s", trunc(MRec{Colls: ms}.Canon(), 5000))
	out := viaEncoder(c, float.NewEncoder(float.BST16), ms)
	for i := range ms {
		v := axis(ms[i].Caps, 0)
		if err := checkFloat(2, v, axis(out[i].Caps, 0)); err != nil {
			c.Fail("float", "collection %d of %d: %v", i, len(ms), err)
		}
		c.Count("captures", len(v))
		if len(v) == 0 {
			c.Count("empty", 1)
		} else if eq := v[0]; func() bool {
			for _, x := range v {
				if x != eq {
					return false
				}
			}
			return true
		}() {
			c.Count("equal_values", 1)
		}
	}
	c.DistinctS("%s", MRec{Colls: ms}.Canon())
	c.Sample(MRec{Colls: ms}.Canon())
}

// timeWalk makes chronological times.
func (g *Gen) timeWalk(c *C, n int) []float64 {
	t := make([]float64, n)
	x := pick(g, 0.0, 1, -7, 0.1, 1000, 1.5e9, -2e5, 1e-6)
	mode := g.n(9)
	unit := math.Exp2(float64(-g.n(12)))
	scale := math.Pow(10, float64(g.n(7)-4))
	if mode == 0 || mode == 1 {
		x = float64(g.n(1000)) * unit
	}
	for i := range t {
		t[i] = x
		switch mode {
		case 0: // exact grid
			x += float64(g.n(200)) * unit
		case 1: // exact grid, regular with one big gap
			x += unit
			if i == n/2 {
				x += 1000 * unit
			}
		case 2:
			x += g.r.Float64() * scale
		case 3: // always the largest gap: corrections must be clamped
			x += scale
		case 4: // long runs of equal times
			if g.p(0.1) {
				x += scale
			}
		case 5: // all equal
		case 6: // tiny gaps, one huge
			x += g.r.Float64() * 1e-6
			if i == 1 {
				x += 3600
			}
		case 7: // alternating largest gap and none
			if i%2 == 0 {
				x += scale
			}
		case 8:
			x += math.Abs(g.r.NormFloat64()) * scale
		}
	}
	if g.p(0.25) { // the other way round
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			t[i], t[j] = -t[j], -t[i]
		}
	}
	if n > 0 && g.p(0.15) { // one of them exactly zero
		at := t[pick(g, 0, n-1, n-1, g.n(n))]
		for i := range t {
			t[i] -= at
		}
	}
	if n > 1 {
		if mode <= 1 {
			c.Count("exact_grid", 1)
		}
		if mode == 3 || mode == 7 {
			c.Count("clamped", 1)
		}
	}
	return t
}

func (c *C) timesTrip(g *Gen, lists [][]float64, compress bool) {
	m := MRec{ID: "t", Meta: Meta{}}
	for i, t := range lists {
		x := MColl{Kind: pick(g, kFloat, kPos, kEnum, kEuler, kEvent), Name: fmt.Sprint(i), Caps: make([]MCap, len(t))}
		for j := range t {
			x.Caps[j] = MCap{T: t[j], N: "e", M: Meta{}}
		}
		if x.Kind == kEnum {
			x.Members = []string{"a"}
		}
		if i%2 == 0 {
			m.Colls = append(m.Colls, x)
		} else {
			m.Recs = append(m.Recs, MRec{Meta: Meta{}, Colls: []MColl{x}})
		}
		c.Count("captures", len(t))
		switch len(t) {
		case 0:
			c.Count("empty", 1)
		case 1:
			c.Count("single", 1)
		}
	}
	c.roundTrip(WCfg{Time: rapio.BST16, Compress: compress}, m)
	c.DistinctS("%v", lists)
}

func c08(c *C) {
	g := newGen(c.R)
	var l [][]float64
	for i := 1 + g.n(4); i > 0; i-- {
		n := 2 + g.n(60)
		if g.p(0.2) {
			n = g.n(3)
		}
		l = append(l, g.timeWalk(c, n))
	}
	c.timesTrip(g, l, g.p(0.2))
	c.Sample(l)
}

func c08huge(c *C) {
	g := newGen(c.R)
	n := hugeN(c)
	ts := g.timeWalk(c, n)
	caps := make([]MCap, n)
	for i, t := range ts {
		caps[i].T = t
	}
	late(caps)
	for i := range ts {
		ts[i] = caps[i].T
	}
	c.timesTrip(g, [][]float64{ts}, false)
	c.Max("captures_per_collection", n)
}

func c08long(c *C) {
	g := newGen(c.R)
	n := 2000 + g.n(6000)
	c.timesTrip(g, [][]float64{g.timeWalk(c, n)}, false)
	c.Max("captures_per_collection", n)
}

// c05cells: the octree cells by themselves.
func c05cells(c *C) {
	g := newGen(c.R)
	for i := 0; i < 20; i++ {
		var lo, hi, v [3]float64
		scale := math.Ldexp(1, g.n(80)-40)
		for a := range lo {
			lo[a] = (g.r.Float64()*2 - 1) * scale
			hi[a] = lo[a] + g.r.Float64()*scale
			if g.p(0.1) {
				hi[a] = lo[a]
			}
			v[a] = lo[a] + g.r.Float64()*(hi[a]-lo[a])
			switch g.n(6) {
			case 0:
				v[a] = lo[a]
			case 1:
				v[a] = hi[a]
			case 2:
				v[a] = lo[a]/2 + hi[a]/2
			}
		}
		at := func(x [3]float64) vector3.Float64 { return vector3.New(x[0], x[1], x[2]) }
		cells := make([]position.OctCell, g.n(25))
		for j := range cells {
			cells[j] = position.OctCell(g.n(8)) // used before
		}
		position.Vec3ToOctCells(at(v), at(lo), at(hi), cells)
		for _, k := range cells {
			if k < 0 || k > 7 {
				c.Fail("cells", "cell %d", k)
			}
		}
		b := position.OctCellsToVec3(at(lo), at(hi), cells)
		for a, x := range [3]float64{b.X(), b.Y(), b.Z()} {
			// Half a leaf cell, and the rounding of the descent.
			width := hi[a] - lo[a]
			most := math.Ldexp(width, -len(cells)-1)*(1+1e-9) + 64*0x1p-52*math.Max(math.Abs(lo[a]), math.Abs(hi[a]))
			if d := math.Abs(x - v[a]); !(d <= most) {
				c.Note("%v in %v..%v, %d cells", v, lo, hi, len(cells))
				c.Fail("cells", "axis %d: %v comes back as %v from %d cells between %v and %v", a, v[a], x, len(cells), lo[a], hi[a])
			}
		}
		c.Count("cells", len(cells))
		c.DistinctS("%v %v %v %d", v, lo, hi, len(cells))
	}
}
