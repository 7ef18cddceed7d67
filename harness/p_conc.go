package main

// C26: independent operations run concurrently. The monitors are the race
// detector (this check is built with it) and a comparison of what every
// operation gives while others run with what it gives alone. Between the
// start of the goroutines and their end nothing here synchronises them, so
// that the detector misses no race for it.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
	"go.mongodb.org/mongo-driver/bson"
)

func init() {
	register(&Prop{
		ID: "C26", Level: "exploration", Race: true, Shards: 4,
		Rule:        "distinct by the pairs of operations seen to overlap and by what is shared",
		Assumptions: []string{"races are detected on the executed paths and interleavings only; the race detector reports no false ones"},
		Need:        map[string]int64{"operations": 10000, "overlapping_pairs": 10000, "goroutines": 1000, "shared_objects": 500},
		Fams: []Family{
			{Name: "mixed", Quick: 90, Thorough: 2500, Run: func(c *C) { c26(c, 0) }},
			{Name: "same", Quick: 60, Thorough: 1500, Run: func(c *C) { c26(c, 1) }},
			{Name: "long", Quick: 4, Thorough: 60, Run: func(c *C) { c26(c, 2) }},
		},
	})
}

// lazySink and lazySource let others run between the pieces they move.
type lazySink struct {
	bytes.Buffer
	r *rand.Rand
}

func breathe(r *rand.Rand) {
	switch x := r.IntN(40); {
	case x < 10:
		runtime.Gosched()
	case x == 10:
		time.Sleep(time.Duration(r.IntN(80)) * time.Microsecond)
	}
}

func (s *lazySink) Write(p []byte) (int, error) { breathe(s.r); return s.Buffer.Write(p) }

type lazySource struct {
	b []byte
	r *rand.Rand
}

func (s *lazySource) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	breathe(s.r)
	n := min(len(p), len(s.b), 1+s.r.IntN(400))
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

type concOp struct {
	kind string
	run  func(r *rand.Rand) string
}

// world is a set of shared things. Two worlds of one case are equal but share
// nothing.
type world struct {
	recs   []format.Recording
	encs   [][]encoding.Encoder
	ops    []concOp
	shared int
}

func digest(r format.Recording, err error) string {
	if err != nil {
		return "error"
	}
	m, err := snap(r)
	if err != nil {
		return "broken " + err.Error()
	}
	return m.Canon()
}

// normalJSON removes the order of keys.
func normalJSON(b []byte, err error) string {
	if err != nil {
		return "error"
	}
	var x any
	if err := json.Unmarshal(b, &x); err != nil {
		return "invalid " + string(b)
	}
	o, _ := json.Marshal(x)
	return string(o)
}

// cliOps is set when the command line program was built in.
var cliOps func(w *world, in concInput, dir string)

type concInput struct {
	models []MRec
	cfgs   []WCfg
	files  [][]byte
	v1     [][]byte
	docs   [][]byte
	blocks [][]byte
	csv    []byte
	ranges [][2]float64
}

func (c *C) concInput(g *Gen, long bool) concInput {
	var in concInput
	for i := 0; i < 3; i++ {
		in.cfgs = append(in.cfgs, g.Cfg())
	}
	gg := newGen(g.r)
	gg.Chrono, gg.Plain, gg.Text, gg.Finite = true, true, true, true
	for i := 0; i < 3; i++ {
		m := gg.finiteTimes(gg.richRec())
		if long {
			m = MRec{Name: "long", Meta: gg.Meta(2, 6)}
			for _, k := range allKinds {
				m.Colls = append(m.Colls, gg.CollN(k, 1500))
			}
			gg.finiteTimes(m)
		}
		if i == 0 {
			m = det(m)
		}
		in.models = append(in.models, m)
		b, _ := c.mustWrite(in.cfgs[i], m)
		in.files = append(in.files, b)
		in.ranges = append(in.ranges, [2]float64{g.bound(m), g.bound(m)})
	}
	in.files = append(in.files, append([]byte{}, in.files[0][:len(in.files[0])/2]...))
	for i := 0; i < 2; i++ {
		in.v1 = append(in.v1, g.v1().file(nil))
		in.docs = append(in.docs, g.text(g.jdoc(2, true)))
		b, err := json.Marshal(metadata.NewMetadataProperty(buildMeta(gg.Meta(3, 6))))
		if err != nil {
			b = []byte("{}")
		}
		in.blocks = append(in.blocks, b)
	}
	f := g.csvCols()
	f.rows = g.csvRows(g.n(30))
	in.csv = f.text(g)
	return in
}

func (c *C) world(in concInput, dir string) *world {
	w := &world{}
	for _, cfg := range in.cfgs {
		w.encs = append(w.encs, cfg.Encoders())
	}
	full := fullEncoders()
	// Shared recordings: built, loaded, sliced, and parts of these.
	built := in.models[0].Build()
	w.recs = append(w.recs, built)
	r, _, err := readRec(in.files[1])
	if err != nil {
		c.Fail("read-error", "%v", err)
	}
	w.recs = append(w.recs, r)
	w.recs = append(w.recs, format.Slice(in.models[2].Build(), format.BeginningOfSlice(in.ranges[2][0])))
	for _, r := range w.recs[:3] {
		for i, s := range r.Recordings() {
			if i < 2 {
				w.recs = append(w.recs, s)
			}
		}
	}
	w.shared = len(w.recs) + len(w.encs)
	add := func(kind string, f func(r *rand.Rand) string) { w.ops = append(w.ops, concOp{kind, f}) }
	for i, rec := range w.recs {
		i, rec := i, rec
		k := i % len(w.encs)
		for _, k := range []int{k, (k + 1) % len(w.encs)} {
			encs, cfg := w.encs[k], in.cfgs[k]
			add("write", func(r *rand.Rand) string {
				s := &lazySink{r: r}
				n, err := rapio.NewWriter(encs, cfg.Compress, s, cfg.Time).Write(rec)
				if err != nil {
					return "error"
				}
				if i == 0 { // deterministic bytes
					return fmt.Sprintf("%d %x", n, s.Bytes())
				}
				return digest(first(rapio.NewReader(encs, bytes.NewReader(s.Bytes())).Read()))
			})
		}
		add("write-default", func(r *rand.Rand) string {
			s := &lazySink{r: r}
			if _, err := rapio.NewRecoludeWriter(s).Write(rec); err != nil {
				return "error"
			}
			return digest(first(rapio.Load(bytes.NewReader(s.Bytes()))))
		})
		add("write-failing", func(r *rand.Rand) string {
			s := &faultSink{limit: 40 + 30*i, call: -1}
			_, err := rapio.NewWriter(w.encs[k], false, s, in.cfgs[k].Time).Write(rec)
			return fmt.Sprint(err != nil, len(s.got))
		})
		a, b := in.ranges[i%3][0], in.ranges[i%3][1]
		add("slice", func(r *rand.Rand) string {
			breathe(r)
			return digest(format.Slice(rec, format.BeginningOfSlice(a), format.EndOfSlice(b), format.KeepBinariesInSlice(i%2 == 0)), nil)
		})
		add("validate", func(r *rand.Rand) string { return fmt.Sprint(format.Validate(rec)) })
		add("measure", func(r *rand.Rand) string {
			return fmt.Sprint(format.RecordingStart(rec), format.RecordingEnd(rec), format.RecordingDuration(rec))
		})
		add("look", func(r *rand.Rand) string { breathe(r); return digest(rec, nil) })
		p := metadata.NewMetadataProperty(rec.Metadata())
		add("meta-json", func(r *rand.Rand) string { return normalJSON(json.Marshal(p)) })
		add("meta-bson", func(r *rand.Rand) string {
			b, err := bson.Marshal(p)
			if err != nil {
				return "error"
			}
			m, err := snapMeta(rec.Metadata())
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(bsonDoc(b, m))
		})
		add("meta-write", func(r *rand.Rand) string {
			// The same block as metadata of other recordings.
			o := format.NewRecording("n", "n", nil, []format.Recording{format.NewRecording("s", "s", nil, nil, rec.Metadata(), nil, nil)}, rec.Metadata(), nil, nil)
			s := &lazySink{r: r}
			if _, err := rapio.NewWriter(w.encs[0], false, s, in.cfgs[0].Time).Write(o); err != nil {
				return "error"
			}
			return digest(first(rapio.NewReader(w.encs[0], bytes.NewReader(s.Bytes())).Read()))
		})
	}
	for i, f := range in.files {
		f := f
		for k := 0; k < 2; k++ {
			encs := w.encs[(i+k)%len(w.encs)]
			add("read", func(r *rand.Rand) string {
				return digest(first(rapio.NewReader(encs, &lazySource{f, r}).Read()))
			})
		}
		add("read-full", func(r *rand.Rand) string {
			return digest(first(rapio.NewReader(full, bytes.NewReader(f)).Read()))
		})
		add("load", func(r *rand.Rand) string { return digest(first(rapio.Load(&lazySource{f, r}))) })
	}
	for _, f := range in.v1 {
		f := f
		add("load-v1", func(r *rand.Rand) string { return digest(first(rapio.Load(&lazySource{f, r}))) })
	}
	for _, d := range in.docs {
		d := d
		add("import", func(r *rand.Rand) string {
			x, err := parsing.FromJSON(d)
			if err != nil {
				return "error"
			}
			return digest(x, nil)
		})
	}
	for _, b := range in.blocks {
		b := b
		add("meta-unjson", func(r *rand.Rand) string {
			var p metadata.MetadataProperty
			if err := json.Unmarshal(b, &p); err != nil {
				return "error"
			}
			m, err := snapMeta(p.Block())
			return fmt.Sprint(metaStr(m), err)
		})
	}
	if cliOps != nil {
		cliOps(w, in, dir)
	}
	return w
}

func first(r format.Recording, _ int, err error) (format.Recording, error) { return r, err }

func runGuarded(op concOp, r *rand.Rand) (out string) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 4<<10)
			out = fmt.Sprintf("PANIC %v\n%s", x, buf[:runtime.Stack(buf, false)])
		}
	}()
	return op.run(r)
}

type concRun struct {
	op         int
	start, end time.Duration
	out        string
}

func c26(c *C, mode int) {
	g := newGen(c.R)
	g.Small = true
	in := c.concInput(g, mode == 2)
	dir, err := os.MkdirTemp(c.Env.Scratch, "conc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "in.csv"), in.csv, 0o644)
	for i, f := range append(append([][]byte{}, in.files...), in.v1...) {
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("in%d.rap", i)), f, 0o644)
	}
	w := c.world(in, dir)
	n := 8
	per := 14
	if mode == 2 {
		per = 5
	}
	plan := make([][]int, n)
	seeds := make([]uint64, n)
	hot := []int{g.n(len(w.ops)), g.n(len(w.ops))}
	for i := range plan {
		seeds[i] = g.r.Uint64()
		for j := 0; j < per; j++ {
			o := g.n(len(w.ops))
			if mode == 1 { // the same few operations at the same time
				if j == per/2 && i == 0 {
					hot = []int{g.n(len(w.ops)), g.n(len(w.ops))}
				}
				o = hot[g.n(2)]
			}
			plan[i] = append(plan[i], o)
		}
	}
	c.Note("%d goroutines; operations %v; recordings %s", n, kindsOf(w, plan), trunc(in.models[0].Canon(), 2500))
	got := make([][]concRun, n)
	gate := make(chan struct{})
	var wg sync.WaitGroup
	t0 := time.Now()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[i], 26))
			runs := make([]concRun, 0, per)
			<-gate
			for _, o := range plan[i] {
				s := time.Since(t0)
				out := runGuarded(w.ops[o], r)
				runs = append(runs, concRun{o, s, time.Since(t0), out})
			}
			got[i] = runs
		}(i)
	}
	close(gate)
	wg.Wait()
	// Alone, in a world of its own.
	alone := c.world(in, dir)
	want := map[int]string{}
	r := rand.New(rand.NewPCG(1, 2))
	kinds := map[string]bool{}
	overlap := 0
	for i := range got {
		for _, x := range got[i] {
			exp, ok := want[x.op]
			if !ok {
				exp = runGuarded(alone.ops[x.op], r)
				want[x.op] = exp
			}
			kind := w.ops[x.op].kind
			if strings.HasPrefix(x.out, "PANIC") && !strings.HasPrefix(exp, "PANIC") {
				c.Fail("panic-"+kind, "%s panics when run with others: %s", kind, trunc(x.out, 2500))
			}
			if x.out != exp {
				c.Fail("differs-"+kind, "%s gives another result with others than alone: %s", kind, firstDiff(exp, x.out))
			}
			if strings.HasPrefix(exp, "PANIC") {
				c.Fail("panic-"+kind, "%s panics alone: %s", kind, trunc(exp, 2500))
			}
			for j := range got {
				if j <= i {
					continue
				}
				for _, y := range got[j] {
					if x.start < y.end && y.start < x.end {
						overlap++
						a, b := kind, w.ops[y.op].kind
						if a > b {
							a, b = b, a
						}
						kinds[a+"+"+b] = true
					}
				}
			}
			c.Count("operations", 1)
			c.Count("op_"+kind, 1)
		}
	}
	// The shared recordings are what they were.
	for i := range w.recs {
		if a, b := digest(alone.recs[i], nil), digest(w.recs[i], nil); a != b {
			c.Fail("modified", "a shared recording was changed: %s", firstDiff(a, b))
		}
	}
	for k := range kinds {
		c.DistinctS("%s", k)
	}
	c.DistinctS("%v", plan)
	c.Count("overlapping_pairs", overlap)
	c.Count("goroutines", n)
	c.Count("shared_objects", w.shared)
	c.Max("kinds_of_pairs_in_a_case", len(kinds))
	ks := make([]string, 0, len(kinds))
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c.Sample(trunc(strings.Join(ks, " "), 380))
}

func kindsOf(w *world, plan [][]int) []string {
	seen := map[string]bool{}
	for _, p := range plan {
		for _, o := range p {
			seen[w.ops[o].kind] = true
		}
	}
	return sortedKeys(seen)
}
