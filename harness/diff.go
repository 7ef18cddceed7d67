package main

// The tolerance oracle: what a recording must read back as, given the
// techniques it was written with.

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	rapio "github.com/recolude/rap/format/io"
)

func f32(x float64) float64 { return float64(float32(x)) }

func same(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// same32 allows any NaN for a NaN narrowed to single precision.
func same32(got, orig float64) bool {
	w := f32(orig)
	return same(got, w) || (math.IsNaN(got) && math.IsNaN(w))
}

const eps = 2.220446049250313e-16

func maxAbs(xs ...float64) float64 {
	m := 0.0
	for _, x := range xs {
		if a := math.Abs(x); a > m {
			m = a
		}
	}
	return m
}

// stepChain checks values stored as quantised steps within [min,max] with k
// bits per axis against the per-step error bound. lo/hi: range stored as
// single precision.
func stepChain(orig, got []float64, min, max float64, bits int) error {
	half := (max - min) / math.Exp2(float64(bits+1))
	dmin, dmax := math.Abs(min-f32(min)), math.Abs(max-f32(max))
	mag := maxAbs(append([]float64{min, max}, orig...)...) + maxAbs(got...)
	off := math.Abs(orig[0] - f32(orig[0]))
	if e := math.Abs(got[0] - orig[0]); e > off {
		return fmt.Errorf("first: %v instead of %v (to single precision)", got[0], orig[0])
	}
	fw := f32(max) - f32(min)
	for i := 1; i < len(orig); i++ {
		prev := off
		// Share of the two range ends in this step.
		if fw > 0 {
			fr := (got[i] - got[i-1] - f32(min)) / fw
			fr = math.Min(1, math.Max(0, fr))
			off += (1-fr)*dmin + fr*dmax
		} else {
			off += math.Max(dmin, dmax)
		}
		off += 4 * eps * mag
		slack := off + 4*eps*mag
		ep := got[i-1] - orig[i-1]
		s := orig[i] - orig[i-1]
		lo := -half - math.Max(0, s-(ep-prev)-max) - slack
		hi := half + math.Max(0, min-(s-(ep+prev))) + slack
		if e := got[i] - orig[i]; !(e >= lo && e <= hi) {
			return fmt.Errorf("capture %d of %d: %v instead of %v, error %g outside [%g, %g] (half cell %g, range %g..%g)", i, len(orig), got[i], orig[i], e, lo, hi, half, min, max)
		}
	}
	return nil
}

func axis(caps []MCap, a int) []float64 {
	v := make([]float64, len(caps))
	for i := range caps {
		v[i] = caps[i].V[a]
	}
	return v
}

func times(caps []MCap) []float64 {
	v := make([]float64, len(caps))
	for i := range caps {
		v[i] = caps[i].T
	}
	return v
}

func checkTimes(tech rapio.TimeStorageTechnique, o, g []float64) error {
	switch tech {
	case rapio.Raw64:
		for i := range o {
			if !same(o[i], g[i]) {
				return fmt.Errorf("time %d: %v (%x) instead of %v (%x)", i, g[i], math.Float64bits(g[i]), o[i], math.Float64bits(o[i]))
			}
		}
	case rapio.Raw32:
		for i := range o {
			if !same32(g[i], o[i]) {
				return fmt.Errorf("time %d: %v instead of %v", i, g[i], f32(o[i]))
			}
		}
	default:
		if len(o) == 0 {
			return nil
		}
		max := 0.0
		for i := 1; i < len(o); i++ {
			if g[i] < g[i-1] {
				return fmt.Errorf("time %d: %v earlier than its predecessor %v", i, g[i], g[i-1])
			}
			max = math.Max(max, o[i]-o[i-1])
		}
		if err := stepChain(o, g, 0, max, 16); err != nil {
			return fmt.Errorf("time %w", err)
		}
	}
	return nil
}

func checkPos(tech int, o, g []float64) error {
	switch tech {
	case 0:
		for i := range o {
			if !same(o[i], g[i]) {
				return fmt.Errorf("capture %d: %v (%x) instead of %v (%x)", i, g[i], math.Float64bits(g[i]), o[i], math.Float64bits(o[i]))
			}
		}
	case 1:
		for i := range o {
			if !same32(g[i], o[i]) {
				return fmt.Errorf("capture %d: %v instead of %v", i, g[i], f32(o[i]))
			}
		}
	default:
		if len(o) == 0 {
			return nil
		}
		if len(o) == 1 {
			if !same32(g[0], o[0]) {
				return fmt.Errorf("lone capture: %v instead of %v", g[0], f32(o[0]))
			}
			return nil
		}
		min, max := math.Inf(1), math.Inf(-1)
		for i := 1; i < len(o); i++ {
			min, max = math.Min(min, o[i]-o[i-1]), math.Max(max, o[i]-o[i-1])
		}
		bits := 16
		if tech == 3 {
			bits = 8
		}
		return stepChain(o, g, min, max, bits)
	}
	return nil
}

// angDist is the distance of two angles in degrees on the circle, given that
// b is the original and may be large.
func angDist(got, orig float64) float64 {
	d := math.Mod(got-math.Mod(orig, 360), 360)
	if d < 0 {
		d += 360
	}
	return math.Min(d, 360-d)
}

func checkEuler(tech int, o, g []float64) error {
	if tech < 2 {
		return checkPos(tech, o, g)
	}
	for i := range o {
		if !(g[i] >= 0 && g[i] <= 360) {
			return fmt.Errorf("capture %d: angle %v of %v not within 0..360", i, g[i], o[i])
		}
		bound := 360.0 / (1 << 17)
		if len(o) == 1 {
			bound = 360.0 / (1 << 24)
		}
		bound += 1e-9
		if d := angDist(g[i], o[i]); d > bound {
			return fmt.Errorf("capture %d of %d: angle %v instead of %v, %g apart (bound %g)", i, len(o), g[i], o[i], d, bound)
		}
	}
	return nil
}

func checkFloat(tech int, o, g []float64) error {
	if tech < 2 {
		return checkPos(tech, o, g)
	}
	if len(o) == 0 {
		return nil
	}
	min, max := math.Inf(1), math.Inf(-1)
	for _, x := range o {
		min, max = math.Min(min, x), math.Max(max, x)
	}
	w := max - min
	bound := w/(1<<17) + math.Abs(min-f32(min)) + math.Abs(max-f32(max)) + w/(1<<23) + 8*eps*(math.Abs(min)+math.Abs(max))
	if w == 0 {
		bound = math.Abs(min - f32(min))
	}
	for i := range o {
		if e := math.Abs(g[i] - o[i]); !(e <= bound) {
			return fmt.Errorf("capture %d of %d: %v instead of %v, %g apart (bound %g, range %g..%g)", i, len(o), g[i], o[i], e, bound, min, max)
		}
	}
	return nil
}

// diffColl compares a collection with what was written.
func diffColl(w WCfg, o, g MColl) (key string, err error) {
	if o.Kind != g.Kind {
		return "kind", fmt.Errorf("kind %q instead of %q", g.Kind, o.Kind)
	}
	if o.Name != g.Name {
		return "collname", fmt.Errorf("collection name %.80q instead of %.80q", g.Name, o.Name)
	}
	if len(o.Caps) != len(g.Caps) {
		return "count", fmt.Errorf("collection %.40q (%s): %d captures instead of %d", o.Name, o.Kind, len(g.Caps), len(o.Caps))
	}
	if err := checkTimes(w.Time, times(o.Caps), times(g.Caps)); err != nil {
		return "time", fmt.Errorf("collection %.40q (%s): %w", o.Name, o.Kind, err)
	}
	switch o.Kind {
	case kPos, kEuler, kFloat:
		for a := 0; a < 3; a++ {
			x, y := axis(o.Caps, a), axis(g.Caps, a)
			var err error
			switch o.Kind {
			case kPos:
				err = checkPos(int(w.Pos), x, y)
			case kEuler:
				err = checkEuler(int(w.Eul), x, y)
			case kFloat:
				if a == 0 {
					err = checkFloat(int(w.Flt), x, y)
				}
			}
			if err != nil {
				return o.Kind, fmt.Errorf("collection %.40q (%s) axis %d: %w", o.Name, o.Kind, a, err)
			}
		}
	case kEnum:
		if len(o.Members) != len(g.Members) {
			return "members", fmt.Errorf("enum %.40q: members %.200q instead of %.200q", o.Name, g.Members, o.Members)
		}
		for i := range o.Members {
			if o.Members[i] != g.Members[i] {
				return "members", fmt.Errorf("enum %.40q member %d: %.80q instead of %.80q", o.Name, i, g.Members[i], o.Members[i])
			}
		}
		for i := range o.Caps {
			if o.Caps[i].E != g.Caps[i].E {
				return "enum", fmt.Errorf("enum %.40q capture %d: %d instead of %d", o.Name, i, g.Caps[i].E, o.Caps[i].E)
			}
		}
	case kEvent:
		for i := range o.Caps {
			if o.Caps[i].N != g.Caps[i].N {
				return "event", fmt.Errorf("event %.40q capture %d: name %.80q instead of %.80q", o.Name, i, g.Caps[i].N, o.Caps[i].N)
			}
			if a, b := metaStr(o.Caps[i].M), metaStr(g.Caps[i].M); a != b {
				return "event", fmt.Errorf("event %.40q capture %d: payload %s", o.Name, i, firstDiff(a, b))
			}
		}
	}
	return "", nil
}

// diffRec compares a recording tree with what was written.
func diffRec(w WCfg, o, g MRec, path string) (string, error) {
	at := func(err error) error { return fmt.Errorf("%s: %w", path, err) }
	if o.ID != g.ID {
		return "id", at(fmt.Errorf("id %.80q instead of %.80q", g.ID, o.ID))
	}
	if o.Name != g.Name {
		return "name", at(fmt.Errorf("name %.80q instead of %.80q", g.Name, o.Name))
	}
	if a, b := metaStr(o.Meta), metaStr(g.Meta); a != b {
		return "meta", at(fmt.Errorf("metadata: %s", firstDiff(a, b)))
	}
	if len(o.Colls) != len(g.Colls) {
		return "colls", at(fmt.Errorf("%d collections instead of %d", len(g.Colls), len(o.Colls)))
	}
	for i := range o.Colls {
		if k, err := diffColl(w, o.Colls[i], g.Colls[i]); err != nil {
			return k, at(fmt.Errorf("collection %d: %w", i, err))
		}
	}
	if k, err := diffBins(o, g); err != nil {
		return k, at(err)
	}
	if len(o.Recs) != len(g.Recs) {
		return "recs", at(fmt.Errorf("%d sub-recordings instead of %d", len(g.Recs), len(o.Recs)))
	}
	for i := range o.Recs {
		if k, err := diffRec(w, o.Recs[i], g.Recs[i], fmt.Sprintf("%s/%d", path, i)); err != nil {
			return k, err
		}
	}
	return "", nil
}

func diffBins(o, g MRec) (string, error) {
	if len(o.Bins) != len(g.Bins) {
		return "bins", fmt.Errorf("%d binaries instead of %d", len(g.Bins), len(o.Bins))
	}
	for i := range o.Bins {
		a, b := o.Bins[i], g.Bins[i]
		if a.Name != b.Name {
			return "bin", fmt.Errorf("binary %d: name %.80q instead of %.80q", i, b.Name, a.Name)
		}
		if !bytes.Equal(a.Data, b.Data) {
			return "bin", fmt.Errorf("binary %d: content of %d bytes differs (%d bytes)", i, len(a.Data), len(b.Data))
		}
		if x, y := metaStr(a.Meta), metaStr(b.Meta); x != y {
			return "binmeta", fmt.Errorf("binary %d metadata: %s", i, firstDiff(x, y))
		}
	}
	if len(o.Refs) != len(g.Refs) {
		return "refs", fmt.Errorf("%d references instead of %d", len(g.Refs), len(o.Refs))
	}
	for i := range o.Refs {
		a, b := o.Refs[i], g.Refs[i]
		if a.Name != b.Name || a.URI != b.URI || a.Size != b.Size {
			return "ref", fmt.Errorf("reference %d: %.80q %.80q %d instead of %.80q %.80q %d", i, b.Name, b.URI, b.Size, a.Name, a.URI, a.Size)
		}
		if x, y := metaStr(a.Meta), metaStr(b.Meta); x != y {
			return "refmeta", fmt.Errorf("reference %d metadata: %s", i, firstDiff(x, y))
		}
	}
	return "", nil
}

func equalModels(a, b MRec) error {
	x, y := a.Canon(), b.Canon()
	if x == y {
		return nil
	}
	return fmt.Errorf("%s", firstDiff(x, y))
}

// near says whether two numbers decoded from the same bytes agree: rounding of
// the arithmetic of lossy techniques is an implementation's own business.
func near(a, b, scale float64) bool {
	if same(a, b) {
		return true
	}
	fin := func(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
	if !fin(a) || !fin(b) {
		return !fin(a) && !fin(b)
	}
	return math.Abs(a-b) <= 1e-6*scale
}

func nearColumn(a, b []float64) bool {
	scale := 0.0
	for _, x := range append(append([]float64(nil), a...), b...) {
		if x = math.Abs(x); x > scale && !math.IsInf(x, 0) {
			scale = x
		}
	}
	for i := range a {
		if !near(a[i], b[i], scale) {
			return false
		}
	}
	return true
}

// nearModels compares everything exactly but times and coordinates, which it
// compares like near does.
func nearModels(a, b MRec) error {
	return equalModels(a, alignNumbers(a, b))
}

func alignNumbers(a, b MRec) MRec {
	if len(a.Colls) == len(b.Colls) {
		b.Colls = append([]MColl(nil), b.Colls...)
		for i, x := range a.Colls {
			y := b.Colls[i]
			if x.Kind != y.Kind || len(x.Caps) != len(y.Caps) {
				continue
			}
			y.Caps = append([]MCap(nil), y.Caps...)
			if nearColumn(times(x.Caps), times(y.Caps)) {
				for j := range y.Caps {
					y.Caps[j].T = x.Caps[j].T
				}
			}
			for ax := 0; ax < 3; ax++ {
				if nearColumn(axis(x.Caps, ax), axis(y.Caps, ax)) {
					for j := range y.Caps {
						y.Caps[j].V[ax] = x.Caps[j].V[ax]
					}
				}
			}
			b.Colls[i] = y
		}
	}
	if len(a.Recs) == len(b.Recs) {
		b.Recs = append([]MRec(nil), b.Recs...)
		for i := range a.Recs {
			b.Recs[i] = alignNumbers(a.Recs[i], b.Recs[i])
		}
	}
	return b
}

func joinStr(xs []string) string { return strings.Join(xs, ", ") }
