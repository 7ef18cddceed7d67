package main

// C41: files take the space their layout and options promise.

import (
	"bytes"
	"fmt"
	"io"
	"math"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/position"
	"github.com/recolude/rap/format/encoding"
	posenc "github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

func init() {
	register(&Prop{
		ID: "C41", Level: "exploration",
		Rule: "distinct by recording and configuration",
		Need: map[string]int64{"plain_files": 300, "compressed_files": 300, "shared_entries": 20000, "technique_pairs": 100},
		Fams: []Family{
			{Name: "shape", Quick: 500, Thorough: 15000, Run: c41shape},
			{Name: "shared", Quick: 60, Thorough: 1500, Run: c41shared},
			{Name: "track", Quick: 24, Thorough: 600, Run: c41track},
			{Name: "readme", Quick: 2, Thorough: 8, Run: c41readme},
		},
	})
}

// sizes compares the space a file takes with that of the independent encoder.
func (c *C) sizes(w WCfg, m MRec, file []byte) {
	head, body := refEncode(m, refOpts{cfg: w})
	h, b := len(head.bytes()), len(body.bytes())
	// The order in which dictionaries are filled is free, and decides which
	// indices take more than one byte.
	slack := 0
	names, keys, meta, members, uses := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, 0
	add := func(d map[string]bool, x Meta) {
		for k := range x {
			d[k] = true
			uses++
		}
	}
	m.walk(func(n *MRec) {
		add(meta, n.Meta)
		for _, x := range n.Refs {
			add(meta, x.Meta)
		}
		for _, x := range n.Bins {
			add(meta, x.Meta)
		}
		for _, x := range n.Colls {
			for _, s := range x.Members {
				members[s] = true
				uses++
			}
			if x.Kind == kEvent {
				for _, y := range x.Caps {
					names[y.N] = true
					uses++
					add(keys, y.M)
				}
			}
		}
	})
	if most := max(len(names), len(keys), len(meta), len(members)); most > 128 {
		slack = uses
		if most > 16384 {
			slack *= 2
		}
	}
	got, plain := len(file), h+b
	if w.Compress {
		if len(file) < h {
			c.Fail("head", "%d bytes, fewer than the header's %d", len(file), h)
		}
		x, err := io.ReadAll(newInflate(file[h:]))
		if err != nil {
			c.Fail("inflate", "the compressed part does not inflate: %v", err)
		}
		got = h + len(x)
		best := len(deflate(x, 9))
		if limit := best + best/50 + 16; len(file)-h > limit {
			c.Fail("compressed", "%d bytes compressed to %d where the best level gives %d (%v)", len(x), len(file)-h, best, w)
		}
		c.Count("compressed_files", 1)
	} else {
		c.Count("plain_files", 1)
	}
	c.Count("plain_bytes", plain)
	c.Count("file_bytes", len(file))
	if d := got - plain; d > slack || -d > slack {
		c.Fail("plain", "the uncompressed content takes %d bytes where the layout needs %d (tolerance %d; %v)", got, plain, slack, w)
	}
}

func c41shape(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	def := c.Idx%5 == 4
	if def {
		g.Kinds = []string{kEvent, kPos, kEuler, kEnum}
		w = WCfg{Pos: 2, Eul: 1, Time: rapio.BST16, Compress: true}
	}
	m := g.forCfg(w).Shape()
	c.Note("config %v, default writer %v, recording %s", w, def, trunc(m.Canon(), 5000))
	c.DistinctS("%v%v%s", def, w, m.Canon())
	var b []byte
	if def {
		var o bytes.Buffer
		if _, err := rapio.NewRecoludeWriter(&o).Write(m.Build()); err != nil {
			c.Fail("write-error", "%v", err)
		}
		b = o.Bytes()
	} else {
		b, _ = c.mustWrite(w, m)
	}
	c.sizes(w, m, b)
}

// c41shared has many owners share few keys and names.
func c41shared(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	long := func(n int) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("%d %s", i, bytes.Repeat([]byte{byte('a' + g.n(26))}, 20+g.n(200))))
		}
		return
	}
	kinds := 1 + g.n(6)
	if g.p(0.2) {
		kinds = 100 + g.n(100)
	}
	keys, names, members, ekeys := long(kinds), long(kinds), long(kinds), long(kinds)
	block := func(ks []string) Meta {
		m := Meta{}
		for n := g.n(4); n > 0; n-- {
			m[ks[g.n(len(ks))]] = vInt(int32(g.n(100)))
		}
		return m
	}
	n := 0
	var rec func(depth int) MRec
	rec = func(depth int) MRec {
		m := MRec{ID: fmt.Sprint(n), Meta: block(keys)}
		n++
		for i := g.n(3); i > 0; i-- {
			m.Refs = append(m.Refs, MRef{Name: "r", URI: "u", Size: uint64(g.n(300)), Meta: block(keys)})
			m.Bins = append(m.Bins, MBin{Name: "b", Data: g.bytes(g.n(9)), Meta: block(keys)})
		}
		for i := g.n(3); i > 0; i-- {
			x := MColl{Kind: kEvent, Name: "e"}
			for j := g.n(40); j > 0; j-- {
				x.Caps = append(x.Caps, MCap{T: float64(len(x.Caps)), N: names[g.n(len(names))], M: block(ekeys)})
				c.Count("shared_entries", 1)
			}
			m.Colls = append(m.Colls, x)
			y := MColl{Kind: kEnum, Name: "f", Members: members[:1+g.n(len(members))]}
			for j := g.n(40); j > 0; j-- {
				y.Caps = append(y.Caps, MCap{T: float64(len(y.Caps)), E: g.n(len(y.Members))})
			}
			m.Colls = append(m.Colls, y)
		}
		for i := g.n(4); i > 0 && depth < 4 || depth == 0 && len(m.Recs) < 3; i-- {
			m.Recs = append(m.Recs, rec(depth+1))
		}
		return m
	}
	m := rec(0)
	c.Note("config %v, %d names, keys and members each, %d recordings", w, kinds, n)
	c.DistinctS("%v%s", w, m.Canon())
	b, _ := c.mustWrite(w, m)
	c.sizes(w, m, b)
}

// c41track compares the techniques on one long track.
func c41track(c *C) {
	g := newGen(c.R)
	n := 400 + g.n(4000)
	m := MRec{ID: "t", Meta: Meta{}}
	var p, e, f MColl
	p, e, f = MColl{Kind: kPos, Name: "p"}, MColl{Kind: kEuler, Name: "e"}, MColl{Kind: kFloat, Name: "f"}
	t, a := float64(g.n(1000)), g.r.Float64()
	for i := 0; i < n; i++ {
		t += 0.01 + 0.02*g.r.Float64()
		x := MCap{T: t}
		x.V = v3{math.Sin(t * a), 5 * math.Cos(t), t / 10}
		p.Caps = append(p.Caps, x)
		x.V = v3{math.Abs(180 * math.Sin(t)), 10, math.Mod(t*40, 360)}
		e.Caps = append(e.Caps, x)
		x.V = v3{math.Sin(t) * 1000}
		f.Caps = append(f.Caps, x)
	}
	m.Colls = []MColl{p, e, f}
	per := func(w WCfg) int {
		return []int{24, 12, 6, 3}[w.Pos] + []int{30, 12, 6}[w.Eul] + []int{8, 4, 2}[w.Flt] + 3*[]int{8, 4, 2}[w.Time]
	}
	c.Note("%d captures", n)
	var last *WCfg
	var lastSize int
	for i := 0; i < 6; i++ {
		w := g.Cfg()
		w.Compress = false
		b, _ := c.mustWrite(w, m)
		c.DistinctS("%d %v", n, w)
		c.sizes(w, m, b)
		if last != nil {
			// The fixed parts are small; the rest follows the stated widths.
			want := (per(w) - per(*last)) * n
			if d := len(b) - lastSize - want; d > 300 || d < -300 {
				c.Fail("width", "%d captures: %v takes %d bytes and %v takes %d, where %d per capture and %d per capture are stated", n, *last, lastSize, w, len(b), per(*last), per(w))
			}
			c.Count("technique_pairs", 1)
		}
		last, lastSize = &w, len(b)
		z := w
		z.Compress = true
		zb, _ := c.mustWrite(z, m)
		c.sizes(z, m, zb)
		if len(zb) > len(b)+len(b)/200+64 {
			c.Fail("grown", "compression made %d bytes of %d", len(zb), len(b))
		}
	}
}

// c41readme writes the recording of the README, of which it states that it
// takes 1,171 bytes.
func c41readme(c *C) {
	const n = 1000
	ps := make([]position.Capture, n)
	for i := range ps {
		ps[i] = position.NewCapture(float64(i), 0, math.Sin(float64(i)), 0)
	}
	rec := format.NewRecording("", "Sin Wave Demo", []format.CaptureCollection{position.NewCollection("Sin Wave", ps)}, nil,
		metadata.NewBlock(map[string]metadata.Property{
			"iterations": metadata.NewIntProperty(n),
			"benchmark":  metadata.NewStringProperty(fmt.Sprintf("%d.%dµs", 10+c.Idx, c.R.IntN(1000))),
		}), nil, nil)
	var b bytes.Buffer
	if _, err := rapio.NewWriter([]encoding.Encoder{posenc.NewEncoder(posenc.Oct24)}, true, &b, rapio.BST16).Write(rec); err != nil {
		c.Fail("write-error", "%v", err)
	}
	c.Max("readme_bytes", b.Len())
	c.DistinctS("%x", b.Bytes())
	if b.Len() > 1260 {
		c.Fail("readme", "the recording of the README takes %d bytes instead of about 1,171", b.Len())
	}
}
