package main

// C43: the guarantees do not depend on the machine. The check runs in two more
// builds of the monitors and of rap: "word", where an int has 32 bits, and
// "fused", where products and sums may be computed in one step. Cases of the
// other properties are repeated in both with their oracles, and what the builds
// make of the same bytes is compared with what the usual build makes of them.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"

	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/parsing"
)

// machines are the builds and the directories they are in.
var machines = []string{"word", "fused"}

// Not repeated: races (a build of its own), programs, costs and memory (bounds
// measured for the usual build).
var notRepeated = map[string]bool{"C26": true, "C35": true, "C39": true, "C42": true}

// Known findings of C38 and C15.
var notRepeatedFam = map[string]bool{"C38:rawcount": true, "C15:dictionaries": true}

// costly families are repeated less often.
var costly = map[string]bool{"huge": true, "every-place": true, "depth": true, "every-offset": true, "inflated": true,
	"deep": true, "crowd": true, "long": true, "huge-names": true, "huge-raw": true, "huge-coarse": true}

// machineOf is the build a case belongs to.
func machineOf(fam string) string {
	m, _, _ := strings.Cut(fam, ":")
	return m
}

// exeFor names the program and command line program of the build for case fam.
func exeFor(env *Env, fam string) (string, string) {
	d := filepath.Join(filepath.Dir(env.CLI), machineOf(fam))
	return filepath.Join(d, "rapmon"), filepath.Join(d, "rap-cli")
}

//go:noinline
func fusedSum(a, b, c float64) float64 { return a*b + c }

// fused tells whether this build computes products and sums in one step.
func fused() bool {
	a := 1 + 1.0/(1<<30)
	return fusedSum(a, a, -(1+2.0/(1<<30))) != fusedRound(a*a)-(1+2.0/(1<<30))
}

//go:noinline
func fusedRound(a float64) float64 { return a }

func registerMachines() {
	p := &Prop{ID: "C43", Level: "exploration", Interleave: len(machines),
		Rule: "a case is one case of another property run in another build, or one input given to two builds; distinct by its content",
		Assumptions: []string{"VERIF_SEED fixes every random choice", "the monitor's own model and oracle are right",
			"a 386 build stands for machines with 32 bit words, an amd64-v3 build for machines which fuse products and sums"},
		Need: map[string]int64{"repeated_cases": 1000, "compared_inputs": 200}}
	ids := make([]string, 0, len(props))
	for id := range props {
		if !notRepeated[id] {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	add := func(name string, quick, thorough int, run func(c *C)) {
		for _, m := range machines {
			p.Fams = append(p.Fams, Family{Name: m + ":" + name, Quick: quick, Thorough: thorough, Run: func(c *C) {
				c.Count("repeated_cases", 1)
				if strconv.IntSize == 32 {
					c.Count("cases_with_32_bit_words", 1)
				}
				if fused() {
					c.Count("cases_with_fused_arithmetic", 1)
				}
				run(c)
			}})
		}
	}
	for _, id := range ids {
		q := props[id]
		for i := range q.Fams {
			f := q.Fams[i]
			if f.Name == "giant" || notRepeatedFam[id+":"+f.Name] {
				continue
			}
			quick, thorough := min(f.Quick, 16), min(max(f.Quick, f.Thorough), 100)
			if costly[f.Name] {
				quick, thorough = min(quick, 4), min(thorough, 24)
			}
			add(id+":"+f.Name, quick, thorough, func(c *C) {
				n := quick
				if c.Env.Tier == "thorough" {
					n = thorough
				}
				h := fnv.New64a()
				fmt.Fprint(h, c.Env.Seed, id, f.Name)
				d := *c
				d.label = c.ID()
				d.Fam = f.Name
				if f.Quick == f.Thorough && f.Quick > n {
					d.Idx = c.Idx*f.Quick/n + int(h.Sum64()%uint64(f.Quick/n))
				}
				defer func() { c.note = d.note }()
				f.Run(&d)
			})
		}
	}
	add("files", 150, 3000, c43files)
	add("damaged", 150, 3000, c43damaged)
	add("wide", 60, 1000, c43wide)
	add("json", 150, 3000, c43json)
	register(p)
}

// --- the other build -----------------------------------------------------------------------

// peerMain answers questions on its standard input: what do you make of this?
func peerMain() {
	lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	in, out := bufio.NewReader(os.Stdin), bufio.NewWriter(os.Stdout)
	for {
		q, err := readMsg(in)
		if err != nil {
			os.Exit(0)
		}
		writeMsg(out, answer(q))
		out.Flush()
	}
}

func readMsg(r io.Reader) ([]byte, error) {
	var n uint32
	if err := binary.Read(r, binary.LittleEndian, &n); err != nil {
		return nil, err
	}
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)
	return b, err
}

func writeMsg(w io.Writer, b []byte) {
	binary.Write(w, binary.LittleEndian, uint32(len(b)))
	w.Write(b)
}

// answer is the content of what q describes, or "refused".
func answer(q []byte) (a []byte) {
	defer func() {
		if r := recover(); r != nil {
			a = []byte(fmt.Sprintf("panic: %v", r))
		}
	}()
	what, b := q[0], q[1:]
	switch what {
	case 'f', 'l': // a file
		rec, n, err := rapio.Load(bytes.NewReader(b))
		if what == 'f' {
			rec, n, err = rapio.NewReader(fullEncoders(), bytes.NewReader(b)).Read()
		}
		if err != nil {
			return []byte("refused")
		}
		m, err := snap(rec)
		if err != nil {
			return []byte("unusable: " + err.Error())
		}
		return []byte(fmt.Sprintf("%d bytes, %v to %v: %s", n, rec.CaptureCollections() == nil, len(m.Colls), m.Canon()))
	case 'j': // a JSON document
		rec, err := parsing.FromJSON(b)
		if err != nil {
			return []byte("refused")
		}
		m, err := snap(rec)
		if err != nil {
			return []byte("unusable: " + err.Error())
		}
		return []byte(m.Canon())
	}
	return []byte("what?")
}

type peerProc struct {
	in  io.WriteCloser
	out *bufio.Reader
}

var peers = map[string]*peerProc{}

// ask gives q to the usual build.
func (c *C) ask(q []byte) string {
	bin := filepath.Join(filepath.Dir(filepath.Dir(c.Env.CLI)), "rapmon")
	p := peers[bin]
	if p == nil {
		runtime.LockOSThread() // the peer ends with the thread that starts it
		cmd := exec.Command(bin, "peer")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, err := cmd.StdinPipe()
		out, err2 := cmd.StdoutPipe()
		if err == nil {
			err = err2
		}
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "no peer:", err)
			os.Exit(exitInconcl)
		}
		p = &peerProc{in, bufio.NewReader(out)}
		peers[bin] = p
	}
	writeMsg(p.in, q)
	a, err := readMsg(p.out)
	if err != nil {
		delete(peers, bin)
		return "died"
	}
	return string(a)
}

// same checks that this build and the usual one make the same of q. Numbers
// which this build can not hold may be refused here if wide is set.
func (c *C) same(what byte, b []byte, wide bool) string {
	q := append([]byte{what}, b...)
	here, there := string(answer(q)), c.ask(q)
	c.Distinct(q)
	c.Count("compared_inputs", 1)
	if there == "refused" {
		c.Count("compared_refusals", 1)
	}
	for _, x := range []string{here, there} {
		if strings.HasPrefix(x, "panic") || x == "died" || strings.HasPrefix(x, "unusable") {
			c.Fail("machine-"+strings.Fields(x)[0], "%s", x)
		}
	}
	if here == there {
		return here
	}
	if wide && here == "refused" {
		c.Count("refused_for_32_bits_only", 1)
		return here
	}
	i := 0
	for i < len(here) && i < len(there) && here[i] == there[i] {
		i++
	}
	from := max(0, i-100)
	c.Fail("machine-differs", "this build (%d bit words, fused %v) makes something else of the same bytes: ...%s... where the usual build makes ...%s...",
		strconv.IntSize, fused(), trunc(here[from:], 300), trunc(there[from:], 300))
	return ""
}

// --- families -------------------------------------------------------------------------------

func c43files(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	g.forCfg(w)
	m := g.Rec(0)
	b, _ := c.mustWrite(w, m)
	c.Note("config %v\nrecording %s", w, trunc(m.Canon(), 4000))
	c.same('f', b, false)
	c.same('l', b, false)
}

func c43damaged(c *C) {
	g := newGen(c.R)
	b := c.smallFile(g, pick(g, 0, 1, 2))
	for i := 0; i < 20; i++ {
		d := g.mutateBytes(b)
		c.Note("file % x", d[:min(len(d), 2000)])
		c.same('f', d, false)
	}
}

// c43wide has numbers which need more than 32 bits, where files may have them.
func c43wide(c *C) {
	g := newGen(c.R)
	w := g.Cfg()
	w.Compress = g.p(0.3)
	g.forCfg(w)
	h, b := refEncode(g.richRec(), refOpts{cfg: w})
	nodes := append(h.flat(nil), b.flat(nil)...)
	for i := 0; i < 12; i++ {
		n := nodes[g.n(len(nodes))]
		for g.p(0.9) && n.role != "enum.value" && n.role != "ref.size" && n.role != "encoder.version" {
			n = nodes[g.n(len(nodes))]
		}
		if n.k != 'V' {
			continue
		}
		keep := *n
		n.v += g.hugeNum() &^ pick(g, uint64(0), 1<<32-1, 1<<31-1, 1<<16-1)
		f := cat(h.bytes(), b.bytes())
		if w.Compress {
			f = cat(h.bytes(), deflate(b.bytes(), 6))
		}
		c.Note("field %s is %d: %.3000x", n.role, n.v, f)
		a := c.same('f', f, strconv.IntSize == 32 && n.role == "enum.value")
		if n.role == "ref.size" && a == "refused" {
			c.Fail("machine-refuses", "a reference of %d bytes is refused", n.v)
		}
		c.Count("wide."+n.role, 1)
		*n = keep
	}
}

func c43json(c *C) {
	g := newGen(c.R)
	b := g.text(g.jdoc(g.n(4), true))
	c.Note("document %.4000s", b)
	c.same('j', b, false)
	for i := 0; i < 5; i++ {
		doc := jobj{{"id", "i"}, {"name", "n"}, {"metadata", jobj{{"a", g.jrandom(3)}}}}
		if g.p(0.5) {
			doc[2] = jfield{pick(g, "recordings", "references", "collections"), g.jrandom(4)}
		}
		b = g.text(doc)
		c.Note("document %.4000s", b)
		c.same('j', b, false)
	}
}
