package main

// Monitoring framework: supervisor, shard processes, case log, verdicts and
// evidence. See DESIGN.md.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Family is a fixed list of cases of one workload.
type Family struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *C)
}

// Prop is one property with the workloads and oracles that decide it.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Fams        []Family
	Need        map[string]int64 // counters which must reach this value, else inconclusive
	Shards      int              // 0 = default
	CPULimit    time.Duration    // per case, 0 = default
	Race        bool             // concurrent property, run in the -race build
	Interleave  int              // so many neighbouring families take turns, each in a build of its own
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Env is what a shard knows about its surroundings.
type Env struct {
	Seed    uint64
	Tier    string
	CLI     string
	Scratch string
}

// C is a running case.
type C struct {
	Env  *Env
	P    *Prop
	Fam  string
	Idx  int
	R    *rand.Rand
	sh   *shard
	note string

	label string // of the case this one is part of
	exact int    // how many of something there are to be, 0: any number
}

type violation struct {
	Case   string `json:"case"`
	Key    string `json:"key"`
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
}

type abort struct{ v violation }

// Fail ends the case with a violation. key identifies what failed, stably.
func (c *C) Fail(key, f string, a ...any) {
	panic(abort{violation{Case: c.ID(), Key: key, Msg: trunc(fmt.Sprintf(f, a...), 4000), Detail: trunc(c.note, 6000)}})
}

// Note attaches context that is reported when the case fails.
func (c *C) Note(f string, a ...any) { c.note = fmt.Sprintf(f, a...) }

func (c *C) ID() string {
	if c.label != "" {
		return c.label
	}
	return fmt.Sprintf("%s/%d", c.Fam, c.Idx)
}

func (c *C) Count(name string, n int) {
	c.sh.mu.Lock()
	c.sh.Counters[name] += int64(n)
	c.sh.mu.Unlock()
}

// Max keeps the largest value seen.
func (c *C) Max(name string, n int) {
	c.sh.mu.Lock()
	if c.sh.Maxima[name] < int64(n) {
		c.sh.Maxima[name] = int64(n)
	}
	c.sh.mu.Unlock()
}

// Distinct records a non-trivial case by its content.
func (c *C) Distinct(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	c.sh.mu.Lock()
	c.sh.hashes[h.Sum64()] = struct{}{}
	c.sh.mu.Unlock()
}

func (c *C) DistinctS(f string, a ...any) { c.Distinct([]byte(fmt.Sprintf(f, a...))) }

func (c *C) Sample(v any) {
	c.sh.mu.Lock()
	defer c.sh.mu.Unlock()
	if c.sh.perFam[c.Fam] >= 1 || len(c.sh.Samples) >= 8 {
		return
	}
	c.sh.perFam[c.Fam]++
	s := fmt.Sprint(v)
	c.sh.Samples = append(c.sh.Samples, map[string]any{"case": c.ID(), "content": trunc(s, 400)})
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

type shard struct {
	mu       sync.Mutex
	Counters map[string]int64
	Maxima   map[string]int64
	Samples  []any
	Evals    int64
	Hashes   []uint64
	Done     bool
	hashes   map[uint64]struct{}
	perFam   map[string]int
}

type caseRef struct {
	fam *Family
	idx int
}

var scales = map[string]int{
	"C01": 2, "C02": 10, "C03": 15, "C04": 40, "C05": 25, "C06": 30, "C07": 30, "C08": 30,
	"C09": 12, "C10": 30, "C11": 10, "C12": 10, "C13": 2, "C14": 3, "C17": 10, "C18": 15,
	"C20": 20, "C21": 3, "C22": 3, "C23": 5, "C24": 5, "C25": 4, "C27": 3, "C28": 3,
	"C29": 6, "C30": 4, "C31": 4, "C32": 15, "C33": 15, "C34": 3, "C36": 2, "C37": 2, "C38": 6, "C40": 4, "C41": 4, "C42": 2,
}

func (p *Prop) cases(tier string) []caseRef {
	var out []caseRef
	if k := p.Interleave; k > 0 {
		for i := 0; i < len(p.Fams); i += k {
			n := p.Fams[i].Quick
			if tier == "thorough" {
				n = p.Fams[i].Thorough
			}
			for j := 0; j < n; j++ {
				for f := 0; f < k; f++ {
					out = append(out, caseRef{&p.Fams[i+f], j})
				}
			}
		}
		return out
	}
	for i := range p.Fams {
		f := &p.Fams[i]
		// Small families are lists or big cases; the others are scaled to a
		// few seconds of eight cores (quick) or minutes (thorough).
		n := f.Quick
		if k, ok := scales[p.ID]; ok && f.Quick >= 30 && f.Quick != f.Thorough {
			n *= k
		}
		if tier == "thorough" {
			n = max(f.Thorough, n)
			if f.Quick >= 30 && f.Quick != f.Thorough {
				n = max(n, 6*f.Quick*max(1, scales[p.ID]))
			}
		}
		for j := 0; j < n; j++ {
			out = append(out, caseRef{f, j})
		}
	}
	return out
}

func caseRand(seed uint64, prop, fam string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, fam, idx)
	a := h.Sum64()
	h.Write([]byte("x"))
	return rand.New(rand.NewPCG(a, h.Sum64()))
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// runCase executes one case; a panic anywhere is a violation.
func runCase(c *C, f *Family) (v *violation) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				v = &a.v
				return
			}
			st := string(debug.Stack())
			v = &violation{Case: c.ID(), Key: "panic:" + panicSite(st), Msg: trunc(fmt.Sprintf("panic: %v at %s", r, panicSite(st)), 2000), Detail: trunc(c.note+"\n"+st, 9000)}
		}
	}()
	f.Run(c)
	return nil
}

// panicSite names the innermost recolude/rap function on the stack.
func panicSite(st string) string {
	i := strings.Index(st, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(st[i:], "\n") {
		if strings.HasPrefix(l, "github.com/recolude/rap/") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return l
		}
	}
	return "monitor"
}

const (
	exitHeld    = 0
	exitViol    = 1
	exitInconcl = 3
	exitCPU     = 86
	exitBlocked = 87
)

func shardMain(p *Prop, env *Env, k, n int, skip int, only string, out string) {
	if !p.Race {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		if n > 1 {
			runtime.GOMAXPROCS(2)
		}
	}
	debug.SetMemoryLimit(1 << 30)
	core := syscall.Rlimit{}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &core)
	sh := &shard{Counters: map[string]int64{}, Maxima: map[string]int64{}, hashes: map[uint64]struct{}{}, perFam: map[string]int{}}
	base := filepath.Join(out, fmt.Sprintf("shard-%d", k))
	cur, err := os.OpenFile(base+fmt.Sprintf(".%d.cur", skip+1), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitInconcl)
	}
	viol, _ := os.OpenFile(base+".viol", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	limit := p.CPULimit
	if limit == 0 {
		limit = 45 * time.Second
	}
	var caseStartCPU, caseStartWall, running atomic.Int64
	go func() {
		lastWallCPU := cpuTime()
		lastWall := time.Now()
		for {
			time.Sleep(250 * time.Millisecond)
			if running.Load() == 0 {
				continue
			}
			if cpuTime()-time.Duration(caseStartCPU.Load()) > limit {
				os.Exit(exitCPU)
			}
			if cpuTime()-lastWallCPU > 500*time.Millisecond || time.Unix(0, caseStartWall.Load()).After(lastWall) {
				lastWallCPU, lastWall = cpuTime(), time.Now()
			}
			if time.Since(lastWall) > 150*time.Second {
				os.Exit(exitBlocked)
			}
		}
	}()
	flush := func(done bool) {
		sh.mu.Lock()
		sh.Hashes = sh.Hashes[:0]
		for h := range sh.hashes {
			sh.Hashes = append(sh.Hashes, h)
		}
		sh.Done = done
		b, _ := json.Marshal(sh)
		sh.mu.Unlock()
		os.WriteFile(base+fmt.Sprintf(".%d.json", skip+1), b, 0o644)
	}
	found := 0
	for j, cr := range p.cases(env.Tier) {
		id := fmt.Sprintf("%s/%d", cr.fam.Name, cr.idx)
		if only != "" {
			if id != only {
				continue
			}
		} else if j%n != k || j <= skip {
			continue
		}
		rec := fmt.Sprintf("%-10d %-100s\n", j, id)
		cur.WriteAt([]byte(rec), 0)
		c := &C{Env: env, P: p, Fam: cr.fam.Name, Idx: cr.idx, R: caseRand(env.Seed, p.ID, cr.fam.Name, cr.idx), sh: sh}
		caseStartCPU.Store(int64(cpuTime()))
		caseStartWall.Store(time.Now().UnixNano())
		running.Store(1)
		v := runCase(c, cr.fam)
		running.Store(0)
		sh.Evals++
		if v != nil {
			b, _ := json.Marshal(v)
			viol.Write(append(b, '\n'))
			found++
			if found >= 4 && only == "" {
				break
			}
		}
		if sh.Evals%500 == 0 {
			flush(false)
		}
	}
	flush(true)
	os.Exit(0)
}

func runShard(p *Prop, env *Env, k, n, skip int, only, out string) (int, string) {
	exe, cli := "/proc/self/exe", env.CLI
	if p.Interleave > 0 {
		fam := only
		if fam == "" {
			fam = p.Fams[k%p.Interleave].Name // n is a multiple
		}
		exe, cli = exeFor(env, fam)
	}
	args := []string{"shard", "-prop", p.ID, "-tier", env.Tier, "-seed", fmt.Sprint(env.Seed), "-k", fmt.Sprint(k), "-n", fmt.Sprint(n), "-skip", fmt.Sprint(skip), "-out", out, "-cli", cli, "-scratch", env.Scratch}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(exe, args...)
	errf, _ := os.Create(filepath.Join(out, fmt.Sprintf("shard-%d.%d.err", k, skip+1)))
	cmd.Stdout, cmd.Stderr = errf, errf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(out, "race"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	err := cmd.Run()
	errf.Close()
	b, _ := os.ReadFile(errf.Name())
	if err == nil {
		return 0, string(b)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return 1000 + int(ws.Signal()), string(b)
		}
		return ee.ExitCode(), string(b)
	}
	return -1, err.Error()
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func supervise(p *Prop, env *Env, verif, replay string) int {
	start := time.Now()
	out := filepath.Join(env.Scratch, "run-"+p.ID)
	os.MkdirAll(out, 0o755)
	n := p.Shards
	if n == 0 {
		n = 8
	}
	if replay != "" {
		n = 1
	}
	var mu sync.Mutex
	var viols []violation
	inconcl := ""
	add := func(v violation) { mu.Lock(); viols = append(viols, v); mu.Unlock() }
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			skip := -1
			for attempt := 0; ; attempt++ {
				code, errtxt := runShard(p, env, k, n, skip, replay, out)
				if code == 0 {
					return
				}
				cb, _ := os.ReadFile(filepath.Join(out, fmt.Sprintf("shard-%d.%d.cur", k, skip+1)))
				fs := strings.Fields(string(cb))
				if len(fs) < 2 {
					mu.Lock()
					inconcl = fmt.Sprintf("shard %d ended with %d before any case: %s", k, code, head(errtxt, 2000))
					mu.Unlock()
					return
				}
				j, _ := strconv.Atoi(fs[0])
				id := fs[1]
				// Confirm alone.
				co := filepath.Join(out, fmt.Sprintf("confirm-%d-%d", k, attempt))
				os.MkdirAll(co, 0o755)
				code2, err2 := runShard(p, env, 0, 1, -1, id, co)
				why := map[int]string{exitCPU: "case exceeds its CPU time bound (unbounded work)", exitBlocked: "case blocks without progress"}[code2]
				if why == "" && code2 != 0 {
					why = "process died: " + firstFatal(err2)
				}
				switch {
				case code2 != 0 && code2 < 1000:
					add(violation{Case: id, Key: "death:" + deathKey(code2, err2), Msg: why, Detail: head(err2, 6000)})
				case code2 == 0:
					// The confirming run may itself have recorded a violation.
					if vs := readViol(filepath.Join(co, "shard-0.viol")); len(vs) > 0 {
						for _, v := range vs {
							add(v)
						}
					} else if code == 2 && strings.Contains(errtxt, "fatal error:") && strings.Contains(errtxt, "recolude/rap") && p.Race {
						add(violation{Case: id, Key: "death:" + deathKey(code, errtxt), Msg: "process died: " + firstFatal(errtxt), Detail: head(errtxt, 6000)})
					} else {
						mu.Lock()
						inconcl = fmt.Sprintf("shard died (%d) in case %s but not when run alone: %s", code, id, head(errtxt, 1500))
						mu.Unlock()
					}
				default:
					mu.Lock()
					inconcl = fmt.Sprintf("case %s: process killed by signal %d", id, code2-1000)
					mu.Unlock()
				}
				if attempt >= 2 || replay != "" {
					return
				}
				skip = j
			}
		}(k)
	}
	wg.Wait()
	// Merge what the shards observed.
	tot := &shard{Counters: map[string]int64{}, Maxima: map[string]int64{}, hashes: map[uint64]struct{}{}}
	files, _ := filepath.Glob(filepath.Join(out, "shard-*.json"))
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		var s shard
		if json.Unmarshal(b, &s) != nil {
			continue
		}
		for k, v := range s.Counters {
			tot.Counters[k] += v
		}
		for k, v := range s.Maxima {
			if tot.Maxima[k] < v {
				tot.Maxima[k] = v
			}
		}
		for _, h := range s.Hashes {
			tot.hashes[h] = struct{}{}
		}
		tot.Evals += s.Evals
		if len(tot.Samples) < 6 {
			for _, x := range s.Samples {
				if len(tot.Samples) < 6 {
					tot.Samples = append(tot.Samples, x)
				}
			}
		}
	}
	for k := 0; k < n; k++ {
		for _, v := range readViol(filepath.Join(out, fmt.Sprintf("shard-%d.viol", k))) {
			viols = append(viols, v)
		}
	}
	if p.Race {
		for _, v := range raceReports(out) {
			viols = append(viols, v)
		}
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })

	known := loadKnown(verif, p.ID)
	code := exitHeld
	bad := 0
	seenKnown := map[string]bool{}
	rdir := filepath.Join(verif, "evidence", "replay")
	for _, v := range viols {
		if what, ok := known[v.Key]; ok {
			if !seenKnown[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
			}
			seenKnown[v.Key] = true
			continue
		}
		if bad < 5 {
			os.MkdirAll(rdir, 0o755)
			rp := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, bad))
			b, _ := json.MarshalIndent(map[string]any{"property": p.ID, "seed": env.Seed, "tier": env.Tier, "case": v.Case, "key": v.Key, "message": v.Msg, "detail": v.Detail,
				"rerun": fmt.Sprintf("cd /verif && VERIF_SEED=%d bash run.sh %s %s --replay %s", env.Seed, p.ID, env.Tier, v.Case)}, "", " ")
			os.WriteFile(rp, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
			fmt.Printf("  case %s [%s]: %s\n", v.Case, v.Key, head(v.Msg, 600))
		}
		bad++
		code = exitViol
	}
	if code == exitHeld && replay == "" {
		want := len(p.cases(env.Tier))
		if inconcl == "" && bad == 0 && tot.Evals != int64(want) {
			inconcl = fmt.Sprintf("ran %d of %d cases", tot.Evals, want)
		}
		keys := make([]string, 0)
		for k := range p.Need {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if tot.Counters[k] < p.Need[k] && bad == 0 && inconcl == "" {
				inconcl = fmt.Sprintf("observed only %d %q, need %d", tot.Counters[k], k, p.Need[k])
			}
		}
		if inconcl != "" {
			fmt.Printf("INCONCLUSIVE property=%s %s\n", p.ID, inconcl)
			code = exitInconcl
		}
	} else if inconcl != "" {
		fmt.Printf("note: %s\n", inconcl)
		if replay != "" && code == exitHeld {
			code = exitInconcl
		}
	}
	cov := map[string]any{
		"evaluations":         tot.Evals,
		"distinct_nontrivial": len(tot.hashes),
		"rule":                p.Rule,
		"samples":             tot.Samples,
		"observed":            tot.Counters,
		"maxima":              tot.Maxima,
		"shards":              n,
	}
	if len(tot.Samples) == 0 {
		cov["samples"] = []any{}
	}
	if p.Assumptions == nil {
		p.Assumptions = []string{"VERIF_SEED fixes every random choice", "the monitor's own model and oracle are right"}
	}
	fam := map[string]int{}
	for _, cr := range p.cases(env.Tier) {
		fam[cr.fam.Name]++
	}
	cov["families"] = fam
	if inconcl != "" {
		cov["inconclusive"] = inconcl
	}
	ev := map[string]any{
		"property": p.ID, "tier": env.Tier, "seed": env.Seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": bad,
	}
	if replay == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
			return exitInconcl
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct, %d violations, %.1fs\n", p.ID, env.Tier, tot.Evals, len(tot.hashes), bad, time.Since(start).Seconds())
	return code
}

func readViol(f string) []violation {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []violation
	for _, l := range strings.Split(string(b), "\n") {
		var v violation
		if l != "" && json.Unmarshal([]byte(l), &v) == nil {
			out = append(out, v)
		}
	}
	return out
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.HasPrefix(l, "runtime: ") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return head(s, 200)
}

func deathKey(code int, s string) string {
	if code == exitCPU {
		return "cpu"
	}
	if code == exitBlocked {
		return "blocked"
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "github.com/recolude/rap/") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return l
		}
	}
	return firstFatal(s)
}

// raceReports parses race detector logs, deduplicated by function pair.
func raceReports(out string) []violation {
	files, _ := filepath.Glob(filepath.Join(out, "race.*"))
	seen := map[string]bool{}
	var vs []violation
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") {
				continue
			}
			fns := raceAccesses(blk)
			if fns == nil {
				continue
			}
			key := "race:" + strings.Join(fns, "|")
			if seen[key] {
				continue
			}
			seen[key] = true
			vs = append(vs, violation{Case: "race", Key: key, Msg: "data race: " + strings.Join(fns, " <-> "), Detail: head(blk, 6000)})
		}
	}
	return vs
}

// raceAccesses names the library function of each of the two accesses of a
// race, nil if the race is inside the command line package (github.com/urfave),
// which keeps global flags.
func raceAccesses(blk string) []string {
	fns := []string{}
	in, done, cli := false, false, 0
	for _, l := range strings.Split(blk, "\n") {
		t := strings.TrimSpace(l)
		if !strings.HasPrefix(l, "  ") {
			in = strings.Contains(l, " at 0x") && strings.Contains(l, " by ")
			done = false
			continue
		}
		if !in || done || strings.HasPrefix(l, "      ") {
			continue
		}
		switch {
		case strings.HasPrefix(t, "github.com/recolude/rap/"):
			if k := strings.LastIndex(t, "("); k > 0 {
				t = t[:k]
			}
			fns = append(fns, strings.TrimPrefix(t, "github.com/recolude/rap/"))
			done = true
		case strings.HasPrefix(t, "github.com/urfave/"):
			cli++
			done = true
		}
	}
	if cli > 0 && len(fns) == 0 {
		return nil
	}
	sort.Strings(fns)
	return fns
}

func loadKnown(verif, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var e struct{ Property, Key, What, Status string }
		if json.Unmarshal(sc.Bytes(), &e) == nil && e.Property == id && e.Status == "open" {
			m[e.Key] = e.What
		}
	}
	return m
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: rapmon check|shard|list ...")
		os.Exit(exitInconcl)
	}
	fs := flag.NewFlagSet("rapmon", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	k := fs.Int("k", 0, "")
	n := fs.Int("n", 1, "")
	skip := fs.Int("skip", -1, "")
	out := fs.String("out", "", "")
	only := fs.String("only", "", "")
	cli := fs.String("cli", "", "")
	scratch := fs.String("scratch", "", "")
	verif := fs.String("verif", "/verif", "")
	replay := fs.String("replay", "", "")
	fs.Parse(os.Args[2:])
	env := &Env{Seed: *seed, Tier: *tier, CLI: *cli, Scratch: *scratch}
	registerMachines()
	switch os.Args[1] {
	case "peer":
		peerMain()
	case "list":
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	case "golden":
		makeGolden(*out, *n)
		return
	case "shard", "check":
	default:
		os.Exit(exitInconcl)
	}
	p := props[*prop]
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(exitInconcl)
	}
	if os.Args[1] == "shard" {
		shardMain(p, env, *k, *n, *skip, *only, *out)
	}
	os.Exit(supervise(p, env, *verif, *replay))
}
