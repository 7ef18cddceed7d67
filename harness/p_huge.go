package main

// Sizes beyond 16 bit counters: families of C01-C10 with collections, trees,
// dictionaries, texts and arrays of more than 65536 entries.

import (
	"fmt"
	"math"
	"strings"

	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
)

// hugeN is a number of entries around and beyond 65536.
func hugeN(c *C) int {
	if c.exact > 0 {
		return c.exact
	}
	if c.Env.Tier == "thorough" && c.R.IntN(6) == 0 {
		return 1<<20 + c.R.IntN(1000)
	}
	if c.R.IntN(3) == 0 {
		return 1<<17 + 1 + c.R.IntN(2000)
	}
	return 1<<16 + 1 + c.R.IntN(3000)
}

func (g *Gen) hugeColl(kind string, n int) MColl {
	switch kind {
	case kEvent:
		x := MColl{Kind: kind, Name: "many"}
		for i, t := range g.Times(n) {
			y := MCap{T: t, N: fmt.Sprint("n", g.n(300)), M: Meta{}}
			for k := g.n(3); k > 0; k-- {
				y.M[fmt.Sprint("k", g.n(200))] = vInt(int32(i))
			}
			x.Caps = append(x.Caps, y)
		}
		return x
	}
	return g.CollN(kind, n)
}

// late moves the extremes to the very end: the longest gap and step, the
// largest and the smallest value.
func late(caps []MCap) {
	k := len(caps) - 4
	gap, span := 1.0, 1.0
	for i := 1; i < k; i++ {
		gap = max(gap, caps[i].T-caps[i-1].T)
		for j := range caps[i].V {
			span = max(span, math.Abs(caps[i].V[j]))
		}
	}
	for i := k; i < len(caps); i++ {
		caps[i].T = caps[i-1].T + float64(i-k+1)*gap*2
		for j := range caps[i].V {
			caps[i].V[j] = span * float64(3*(i-k)-5+j)
		}
	}
}

func (c *C) hugeTrip(w WCfg, m MRec, what string, n int) {
	c.Note("%s of %d, config %v", what, n, w)
	c.DistinctS("%s %d %v %d", what, n, w, c.R.Uint64())
	b, _ := c.mustWrite(w, m)
	got, _ := c.mustRead(b)
	if k, err := diffRec(w, m, got, "root"); err != nil {
		c.Fail("rt-"+k, "%s of %d: %v (%v)", what, n, err, w)
	}
	c.Count("recordings", m.nodes())
	c.Count("collections", len(m.colls()))
	c.Count("captures", m.numCaps())
	c.Max("most_"+what, n)
}

// hugeColls is a family of single huge collections of the given kinds.
func hugeColls(raw bool, kinds ...string) func(c *C) {
	return func(c *C) {
		g := newGen(c.R)
		kind := kinds[c.Idx%len(kinds)]
		turn := c.Idx / len(kinds)
		w := g.Cfg()
		w.Compress = g.p(0.2)
		w.Time = rapio.TimeStorageTechnique(turn % 3)
		if raw {
			w.Pos, w.Eul, w.Flt = position.StorageTechnique(turn%2), euler.StorageTechnique(turn%2), float.StorageTechnique(turn%2)
			w.Time = rapio.TimeStorageTechnique(turn % 2)
		} else {
			switch kind {
			case kPos:
				w.Pos = position.StorageTechnique(2 + turn%2)
			case kEuler:
				w.Eul = 2
			case kFloat:
				w.Flt = 2
			}
		}
		g.forCfg(w)
		if !raw {
			g.Plain = true
		}
		n := hugeN(c)
		if kind == kEvent {
			n = min(n, 300000)
		}
		x := g.hugeColl(kind, n)
		if !raw {
			late(x.Caps)
		}
		m := MRec{ID: "huge", Meta: Meta{}, Colls: []MColl{g.CollN(kPos, 2), x}}
		m.Recs = []MRec{{ID: "after", Meta: Meta{}, Colls: []MColl{g.CollN(kind, 3)}}}
		c.hugeTrip(w, m, kind+" captures", n)
	}
}

// c01crowd has very many recordings or collections side by side.
func c01crowd(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g.forCfg(w)
	n := c.many(g, 500)
	m := MRec{ID: "crowd", Meta: Meta{}}
	what := "children"
	turn := c.Idx % 7
	if turn == 6 {
		for i := 0; i < n; i++ {
			k := MRec{ID: fmt.Sprint(i), Name: fmt.Sprint(-i), Meta: Meta{}}
			if i%1000 == 7 {
				k.Colls = []MColl{g.CollN(allKinds[g.n(5)], 2)}
			}
			m.Recs = append(m.Recs, k)
		}
	} else {
		what = "collections"
		for i := 0; i < n; i++ {
			kind := allKinds[i%5]
			if turn < 5 {
				kind = allKinds[turn]
			}
			k := g.CollN(kind, i%3)
			k.Name = fmt.Sprint(i)
			// Every collection has the dictionaries read afresh: keep them small.
			for j := range k.Members {
				k.Members[j] = fmt.Sprint("m", j)
			}
			for j := range k.Caps {
				if k.Kind == kEvent {
					k.Caps[j].N, k.Caps[j].M = fmt.Sprint("n", j), Meta{"k": vInt(int32(i))}
				}
			}
			m.Colls = append(m.Colls, k)
		}
	}
	c.hugeTrip(w, m, what, n)
}

// c02huge has very many keys, and values of very many elements or bytes.
func c02huge(c *C) {
	g := newGen(c.R)
	n := hugeN(c)
	m := MRec{ID: "huge", Meta: Meta{}}
	what := "keys"
	if i := c.Idx % (len(arrayCodes) + 2); i < len(arrayCodes) {
		code := arrayCodes[i]
		what = fmt.Sprint("elements of an array of code ", code)
		var v MVal
		switch code {
		case kArr + kByte:
			v = vBytes(g.bytes(n))
		case kArr + kTrue:
			b := make([]bool, n)
			for i := range b {
				b[i] = g.p(0.5)
			}
			v = vBools(b)
		default:
			v = MVal{Code: code}
			for i := 0; i < n; i++ {
				if code == kArr+kBlock {
					v.A = append(v.A, vBlock(Meta{"k": vInt(int32(i))}))
				} else {
					v.A = append(v.A, g.ValOf(code-kArr, 0))
				}
			}
		}
		m.Meta["before"], m.Meta["v"], m.Meta["z"] = vInt(1), v, vStr("after")
		m.Recs = []MRec{{ID: "r", Meta: Meta{"v": vBlock(Meta{"in": v})}}}
	} else if i == len(arrayCodes) {
		m.Recs = []MRec{{Meta: Meta{}}, {Meta: Meta{}}}
		for i := 0; i < n; i++ {
			m.Recs[i%2].Meta[fmt.Sprint("k", i)] = vInt(int32(i))
		}
	} else {
		what = "bytes of text"
		n = pick(g, 1<<16, 1<<20, 3<<20, 1<<22) + g.n(3)
		s := strings.Repeat("text ", n/5+1)[:n]
		m.ID, m.Name = s[1:], s[2:]
		m.Meta["t"], m.Meta[s], m.Meta["z"] = vStr(s), vInt(5), vInt(6)
		m.Colls = []MColl{{Kind: kEvent, Name: s[3:], Caps: []MCap{{T: 1, N: s[4:], M: Meta{s[5:]: vStr(s)}}}},
			{Kind: kEnum, Name: "e", Members: []string{s, s[6:]}}}
		m.Refs = []MRef{{Name: s, URI: s[7:], Meta: Meta{}}}
		m.Bins = []MBin{{Name: s[8:], Data: []byte(s), Meta: Meta{}}}
	}
	c.hugeTrip(g.CfgRaw(), m, what, n)
	c.Count("values", 1)
}

// c03crowd has very many attachments, or an attachment with very many keys;
// some keys occur nowhere else.
func c03crowd(c *C) {
	g := newGen(c.R)
	n := hugeN(c)
	m := MRec{ID: "crowd", Meta: Meta{}}
	what := []string{"binaries", "references", "keys of a binary", "keys of a reference"}[c.Idx%4]
	also := func(i int) Meta {
		k := Meta{"i": vInt(int32(i % 300))}
		if i%5000 == 4999 || i == n-1 {
			k[fmt.Sprint("own ", i)] = vStr(fmt.Sprint(i))
		}
		return k
	}
	many := Meta{}
	if c.Idx%4 > 1 {
		for i := 0; i < n; i++ {
			many[fmt.Sprint("key ", i)] = vInt(int32(i))
		}
	}
	switch c.Idx % 4 {
	case 0:
		for i := 0; i < n; i++ {
			m.Bins = append(m.Bins, MBin{Name: fmt.Sprint(i), Data: g.bytes(i % 5), Meta: also(i)})
		}
	case 1:
		for i := 0; i < n; i++ {
			m.Refs = append(m.Refs, MRef{Name: fmt.Sprint(i), URI: fmt.Sprint("u", i), Size: uint64(i) << g.n(40), Meta: also(i)})
		}
	case 2:
		m.Bins = []MBin{{Name: "few", Meta: Meta{}}, {Name: "many", Meta: many}, {Name: "one", Meta: also(n - 1)}}
	case 3:
		m.Refs = []MRef{{Name: "few", Meta: Meta{}}, {Name: "many", Meta: many}, {Name: "one", Meta: also(n - 1)}}
	}
	m.Recs = []MRec{{ID: "after", Meta: Meta{}}}
	c.hugeTrip(g.CfgRaw(), m, what, n)
}

// c09names has very many distinct names and keys, c10members very many members.
func c09names(c *C) {
	g := newGen(c.R)
	n := hugeN(c)
	x, y := MColl{Kind: kEvent, Name: "a"}, MColl{Kind: kEvent, Name: "b"}
	for i := 0; i < n; i++ {
		e := MCap{T: float64(i), N: fmt.Sprint("name", i), M: Meta{}}
		switch c.Idx % 3 {
		case 1:
			e.N, e.M = fmt.Sprint("name", i%5), Meta{fmt.Sprint("key", i): vInt(int32(i))}
		case 2: // all keys in two events
			e.N = "name"
			if i < 2 {
				for j := 0; j < n; j++ {
					e.M[fmt.Sprint("key", j+i*n/2)] = vInt(int32(j))
				}
			} else if i > 100 {
				continue
			}
		}
		if i%7 == 3 {
			y.Caps = append(y.Caps, e)
		} else {
			x.Caps = append(x.Caps, e)
		}
	}
	m := MRec{Meta: Meta{}, Colls: []MColl{x}, Recs: []MRec{{Meta: Meta{}, Colls: []MColl{y}}}}
	c.hugeTrip(g.CfgRaw(), m, "names or keys", n)
}

func c10members(c *C) {
	g := newGen(c.R)
	n := hugeN(c)
	m := MRec{Meta: Meta{}}
	for i := 0; i < 2; i++ {
		x := MColl{Kind: kEnum, Name: fmt.Sprint(i)}
		for j := 0; j < n; j++ {
			x.Members = append(x.Members, fmt.Sprint("m", (j+i*n/2)))
		}
		for j := 0; j < 200; j++ {
			x.Caps = append(x.Caps, MCap{T: float64(j), E: n - j})
		}
		c.Count("members", n)
		m.Colls = append(m.Colls, x)
	}
	c.hugeTrip(g.CfgRaw(), m, "members", n)
}
