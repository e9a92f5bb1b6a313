package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- cases

// Case is one input given to the real code. It is self-contained: a replay file holds one.
type Case struct {
	K string    // which scenario
	D []byte    // bytes under test
	A []int64   // integer arguments
	F []float64 // float arguments
	S []string  // text arguments
}

type caseJSON struct {
	K string   `json:"kind"`
	D string   `json:"data"`
	A []int64  `json:"ints,omitempty"`
	F []string `json:"floats,omitempty"`
	S []string `json:"texts,omitempty"`
}

func (c Case) MarshalJSON() ([]byte, error) {
	j := caseJSON{K: c.K, D: hex.EncodeToString(c.D), A: c.A, S: c.S}
	for _, f := range c.F {
		j.F = append(j.F, fmt.Sprintf("%x", f))
	}
	return json.Marshal(j)
}

func (c *Case) UnmarshalJSON(b []byte) error {
	var j caseJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	d, err := hex.DecodeString(j.D)
	if err != nil {
		return err
	}
	*c = Case{K: j.K, D: d, A: j.A, S: j.S}
	for _, s := range j.F {
		var f float64
		switch s {
		case "NaN", "+Inf", "-Inf":
			fmt.Sscan(s, &f)
		default:
			if _, err := fmt.Sscanf(s, "%g", &f); err != nil {
				return err
			}
		}
		c.F = append(c.F, f)
	}
	return nil
}

func (c *Case) hash() uint64 {
	h := fnv.New64a()
	h.Write([]byte(c.K))
	h.Write(c.D)
	var b [8]byte
	for _, a := range c.A {
		binary.LittleEndian.PutUint64(b[:], uint64(a))
		h.Write(b[:])
	}
	for _, f := range c.F {
		binary.LittleEndian.PutUint64(b[:], *(*uint64)(unsafe.Pointer(&f)))
		h.Write(b[:])
	}
	for _, s := range c.S {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	x := h.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return x
}

func (c *Case) String() string { b, _ := json.Marshal(*c); return string(b) }

// ---------------------------------------------------------------- random

// Rand is splitmix64: small, seedable per case and identical everywhere.
type Rand struct{ s uint64 }

//go:nosplit
func mix(vals ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vals {
		h ^= v
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 29
	}
	return h
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int            { return int(r.U64() % uint64(n)) }
func (r *Rand) Bool() bool             { return r.U64()&1 == 1 }
func (r *Rand) F() float64             { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) R(a, b float64) float64 { return a + (b-a)*r.F() }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.U64()
		for k := 0; k < 8 && i+k < n; k++ {
			b[i+k] = byte(v >> (8 * k))
		}
	}
	return b
}

// Pick of integers.
func (r *Rand) Pick(v ...int64) int64 { return v[r.N(len(v))] }

// ---------------------------------------------------------------- properties

// Block is a numbered list of case groups: Gen(i) emits the cases of group i.
type Block struct {
	Name string
	N    int
	Gen  func(r *Rand, i int, emit func(Case))
}

type Prop struct {
	ID     string
	Rule   string
	Blocks func(thorough bool) []Block
	Check  func(c *Ctx, cs *Case)
	Need   []string                           // observation classes that must have been seen
	NeedFn func() []string                    // the same, computed late
	Custom func(tier string, seed uint64) int // replaces the sharded run
	NoCold bool                               // no cold starts: a case starts processes of its own, or makes very many calls
	Rounds int                                // how often the quick tier repeats its blocks (0: as usual)
	Assume []string
	Mut    func(r *Rand, cs, donor *Case) bool // mutator of the guided phase, nil: none
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Ctx is what a check sees while it judges one case.
type Ctx struct {
	obs     map[string]int
	fail    string
	nontriv bool
	strict  bool
}

// Fail records that the observed behaviour contradicts the oracle.
func (c *Ctx) Fail(f string, a ...interface{}) {
	if c.fail == "" {
		c.fail = fmt.Sprintf(f, a...)
	}
}

// Obs counts a class of behaviour, decided on the model's side.
func (c *Ctx) Obs(class string) { c.obs[class]++ }

// NonTrivial marks the case as one where the oracle compared content.
func (c *Ctx) NonTrivial() { c.nontriv = true }

func runCase(p *Prop, c *Ctx, cs *Case) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			c.Fail("panic: %v%s", e, panicSite(st))
		}
	}()
	p.Check(c, cs)
}

func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/pkg/") && strings.Contains(l, ".go:") && !strings.Contains(l, "harness") {
			return " at " + strings.TrimSpace(l)
		}
	}
	return ""
}

// ---------------------------------------------------------------- worker

type failure struct {
	Case  Case   `json:"case"`
	Msg   string `json:"msg"`
	Block int    `json:"block"`
	I     int    `json:"i"`
	K     int    `json:"k"`
	// Before are the cases of the guided phase before this one
	Before []Case `json:"before,omitempty"`
}

type workerResult struct {
	Evals    int            `json:"evals"`
	Nontriv  int            `json:"nontriv"`
	Obs      map[string]int `json:"obs"`
	Blocks   map[string]int `json:"blocks"`
	Fails    []failure      `json:"fails"`
	NFails   int            `json:"nfails"`
	Samples  []Case         `json:"samples"`
	SampleOf []string       `json:"sample_of"`
	Guided   *guidedStats   `json:"guided,omitempty"`
}

const bitmapBits = 1 << 27

// rounds is how often the quick tier goes through the blocks, with new random choices each time.
func (p *Prop) rounds(tier string) int {
	if isThorough(tier) {
		return 1
	}
	if *flagRounds > 0 {
		return *flagRounds
	}
	if p.Rounds > 0 {
		return p.Rounds
	}
	return 4
}

func isThorough(tier string) bool { return tier == "thorough" }

func genSeed(seed uint64, id string, b, i int) *Rand {
	h := fnv.New64a()
	h.Write([]byte(id))
	return &Rand{mix(seed, h.Sum64(), uint64(b), uint64(i))}
}

// status: seq, block, i, k
func mapStatus(path string) []uint64 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		die("status file: %v", err)
	}
	f.Truncate(64)
	m, err := syscall.Mmap(int(f.Fd()), 0, 64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die("mmap: %v", err)
	}
	f.Close()
	return (*[8]uint64)(unsafe.Pointer(&m[0]))[:]
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int
	fmt.Sscan(string(b), &a, &r)
	return r * os.Getpagesize() / (1 << 20)
}

const (
	exitHang   = 77
	exitMemory = 78
	hangCPU    = 30.0
	memLimitMB = 3000
)

// beats counts the progress of cases that make very many calls.
var beats uint64

// watchdog ends the process when one case burns CPU or memory without end.
func watchdog(st []uint64) {
	progress := func() uint64 { return atomic.LoadUint64(&st[0]) + atomic.LoadUint64(&beats) }
	last := progress()
	at := cpuSeconds()
	for {
		time.Sleep(250 * time.Millisecond)
		if rssMB() > memLimitMB {
			fmt.Fprintln(os.Stderr, "watchdog: memory")
			os.Exit(exitMemory)
		}
		n := progress()
		if n != last {
			last, at = n, cpuSeconds()
			continue
		}
		if cpuSeconds()-at > hangCPU {
			fmt.Fprintln(os.Stderr, "watchdog: hang")
			os.Exit(exitHang)
		}
	}
}

func runWorker(p *Prop, tier string, seed uint64, shard, nshards int, dir string, stopBlock, stopI, stopK int) {
	runtime.GOMAXPROCS(2)
	st := mapStatus(filepath.Join(dir, fmt.Sprintf("status.%d", shard)))
	go watchdog(st)
	res := &workerResult{Obs: map[string]int{}, Blocks: map[string]int{}}
	bitmap := make([]uint64, bitmapBits/64)
	ctx := &Ctx{obs: res.Obs, strict: *flagStrict}
	blocks := p.Blocks(isThorough(tier))
	stop := false
	rounds := p.rounds(tier)
	defer func() { // a panic of the code under test is caught per case: this one is the harness's own
		if e := recover(); e != nil {
			die("generator: %v\n%s", e, debug.Stack())
		}
	}()
	for bi := range blocks {
		b := &blocks[bi]
		sampled := 0
		for i := shard; i < b.N*rounds && !stop; i += nshards {
			k := 0
			r := genSeed(seed, p.ID, bi, i)
			b.Gen(r, i%b.N, func(cs Case) {
				if stop {
					return
				}
				st[1], st[2], st[3] = uint64(bi), uint64(i), uint64(k)
				atomic.AddUint64(&st[0], 1)
				ctx.fail, ctx.nontriv = "", false
				runCase(p, ctx, &cs)
				res.Evals++
				res.Blocks[b.Name]++
				if ctx.nontriv {
					res.Nontriv++
					h := cs.hash() % bitmapBits
					bitmap[h/64] |= 1 << (h % 64)
				}
				if ctx.fail != "" {
					res.NFails++
					if len(res.Fails) < 8 {
						res.Fails = append(res.Fails, failure{Case: cs, Msg: ctx.fail, Block: bi, I: i, K: k})
					}
					if res.NFails >= 200 {
						stop = true
					}
				} else if sampled < 1 && ctx.nontriv && shard == 0 {
					sampled++
					res.Samples = append(res.Samples, cs)
					res.SampleOf = append(res.SampleOf, b.Name)
				}
				if bi == stopBlock && i == stopI && k == stopK {
					stop = true
				}
				k++
			})
		}
	}
	saveResult(res, bitmap, shard, dir)
}

// runColdWorker is one cold start: a fresh process that begins with cases of other blocks than the shards do, and goes
// from block to block. It ends after coldCases cases or coldTime; a replay ends it at the case stop.
func runColdWorker(p *Prop, tier string, seed uint64, start int, dir string, stop int) {
	runtime.GOMAXPROCS(2)
	st := mapStatus(filepath.Join(dir, fmt.Sprintf("status.%d", start)))
	go watchdog(st)
	res := &workerResult{Obs: map[string]int{}, Blocks: map[string]int{}}
	ctx := &Ctx{obs: res.Obs, strict: *flagStrict}
	type enough struct{}
	blocks := p.Blocks(isThorough(tier))
	rounds := p.rounds(tier)
	r := genSeed(seed, p.ID+" cold", start, 0)
	t0 := time.Now()
	for seq := 0; seq < coldCases && (stop >= 0 || time.Since(t0) < coldTime) && len(res.Fails) == 0; {
		bi := r.N(len(blocks))
		i := r.N(blocks[bi].N * rounds)
		skip, take := r.N(64), 1+r.N(8)
		if r.N(4) == 0 {
			skip = 0
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(enough); !ok {
						die("generator: %v\n%s", e, debug.Stack())
					}
				}
			}()
			k := 0
			blocks[bi].Gen(genSeed(seed, p.ID, bi, i), i%blocks[bi].N, func(cs Case) {
				if k >= skip {
					st[1], st[2], st[3] = uint64(bi), uint64(i), uint64(k)
					atomic.AddUint64(&st[0], 1)
					ctx.fail, ctx.nontriv = "", false
					runCase(p, ctx, &cs)
					res.Evals++
					res.Blocks["cold starts"]++
					if ctx.nontriv {
						res.Nontriv++
					}
					if ctx.fail != "" {
						res.NFails++
						res.Fails = append(res.Fails, failure{Case: cs, Msg: ctx.fail, Block: bi, I: i, K: k})
					}
					if seq++; seq == coldCases || seq == stop || ctx.fail != "" || k+1-skip >= take {
						panic(enough{})
					}
				}
				k++
			})
		}()
		if seq == stop {
			break
		}
	}
	out, err := os.Create(filepath.Join(dir, fmt.Sprintf("result.%d", start)))
	if err != nil {
		die("%v", err)
	}
	json.NewEncoder(out).Encode(res)
	out.Close()
}

const (
	coldCases = 400
	coldTime  = 120 * time.Millisecond
)

// runGuidedWorker is a shard of the guided phase.
func runGuidedWorker(p *Prop, tier string, seed uint64, shard int, dir string) {
	runtime.GOMAXPROCS(2)
	st := mapStatus(filepath.Join(dir, fmt.Sprintf("status.%d", shard)))
	go watchdog(st)
	res := &workerResult{Obs: map[string]int{}, Blocks: map[string]int{}}
	bitmap := make([]uint64, bitmapBits/64)
	ctx := &Ctx{obs: res.Obs, strict: *flagStrict}
	defer func() {
		if e := recover(); e != nil {
			die("generator: %v\n%s", e, debug.Stack())
		}
	}()
	loadWords()
	slot := newSlot(filepath.Join(dir, fmt.Sprintf("slot.%d", shard)))
	var recent [256]*Case
	past := 0
	exec := func(cs *Case, bi, i int) bool {
		ctx.fail, ctx.nontriv = "", false
		runCase(p, ctx, cs)
		res.Evals++
		res.Blocks["guided"]++
		if ctx.nontriv {
			res.Nontriv++
			h := cs.hash() % bitmapBits
			bitmap[h/64] |= 1 << (h % 64)
		}
		if ctx.fail != "" {
			res.NFails++
			if len(res.Fails) < 8 {
				f := failure{Case: *cs, Msg: ctx.fail, Block: bi, I: i}
				for k := past; k < past+len(recent); k++ {
					if c := recent[k%len(recent)]; c != nil {
						f.Before = append(f.Before, *c)
					}
				}
				res.Fails = append(res.Fails, f)
			}
		}
		cp := copyCase(cs)
		recent[past%len(recent)] = &cp
		past++
		return res.NFails < 200
	}
	res.Guided = runGuided(p, tier, seed, shard, p.Blocks(isThorough(tier)), st, slot, func() int { return len(res.Obs) }, exec)
	saveResult(res, bitmap, shard, dir)
}

func saveResult(res *workerResult, bitmap []uint64, shard int, dir string) {
	out, err := os.Create(filepath.Join(dir, fmt.Sprintf("result.%d", shard)))
	if err != nil {
		die("%v", err)
	}
	json.NewEncoder(out).Encode(res)
	out.Close()
	bm, _ := os.Create(filepath.Join(dir, fmt.Sprintf("bitmap.%d", shard)))
	bm.Write(unsafe.Slice((*byte)(unsafe.Pointer(&bitmap[0])), bitmapBits/8))
	bm.Close()
}

// ---------------------------------------------------------------- supervisor

type replayFile struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Mode     string `json:"mode"` // "case": the case alone; "history": the shard's cases up to this one; "sequence": the cases before it, then the case; "cold": the cold start's; "custom"
	Case     *Case  `json:"case,omitempty"`
	Before   []Case `json:"before,omitempty"`
	Tier     string `json:"tier,omitempty"`
	Seed     uint64 `json:"seed,omitempty"`
	Shard    int    `json:"shard,omitempty"`
	NShards  int    `json:"nshards,omitempty"`
	Block    int    `json:"block,omitempty"`
	I        int    `json:"i,omitempty"`
	K        int    `json:"k,omitempty"`
	HowTo    string `json:"how_to_replay"`
	Note     string `json:"note,omitempty"`
	Arch     string `json:"goarch"`
}

const nShards = 8

var (
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagSeed   = flag.Uint64("seed", 1, "seed")
	flagOut    = flag.String("out", "", "directory of /verif")
	flagSecond = flag.Bool("second", false, "a run on a second platform: adds to the evidence of the first one")
	flagReplay = flag.String("replay", "", "replay file")
	flagWorker = flag.Bool("worker", false, "internal")
	flagShard  = flag.Int("shard", 0, "internal")
	flagDir    = flag.String("dir", "", "internal")
	flagStop   = flag.String("stop", "", "internal")
	flagOne    = flag.String("one", "", "internal: run a single case")
	flagStrict = flag.Bool("strict", false, "development: unknown leaves are errors")
	flagObs    = flag.Bool("obs", false, "print observation classes")
	flagDump   = flag.String("dump", "", "development")
	flagRounds = flag.Int("rounds", 0, "development: rounds of the quick tier")
	flagGuide  = flag.String("guide", "", "instrumented build, for the guided phase")
	flagCold   = flag.Bool("cold", false, "internal: a cold start")
	flagGuided = flag.Bool("guided", false, "internal: a shard of the guided phase")
	flagAux    = flag.String("aux", "", "auxiliary binary (CLI under test)")
)

func flag2(name, what string) *string { return flag.String(name, "", what) }

func self() string {
	s, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return s
}

func workerArgs(p *Prop, shard int, dir string) []string {
	return []string{"-worker", "-prop", p.ID, "-tier", *flagTier, "-seed", fmt.Sprint(*flagSeed),
		"-shard", fmt.Sprint(shard), "-dir", dir, "-aux", *flagAux, "-rounds", fmt.Sprint(*flagRounds), fmt.Sprintf("-strict=%v", *flagStrict)}
}

type shardEnd struct {
	res  *workerResult
	err  error
	code int
	errs string
	st   [4]uint64
}

func runShard(bin string, p *Prop, shard int, dir string, extra ...string) shardEnd {
	cmd := exec.Command(bin, append(workerArgs(p, shard, dir), extra...)...)
	var eb tailBuffer
	cmd.Stderr = &eb
	err := cmd.Run()
	e := shardEnd{err: err, errs: eb.String()}
	if cmd.ProcessState != nil {
		e.code = cmd.ProcessState.ExitCode()
	}
	if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("status.%d", shard))); err == nil && len(b) >= 32 {
		for k := 0; k < 4; k++ {
			e.st[k] = binary.LittleEndian.Uint64(b[8*k:])
		}
	}
	if e.err == nil {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", shard)))
		if err == nil {
			e.res = &workerResult{}
			err = json.Unmarshal(b, e.res)
		}
		e.err = err
	}
	return e
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { return string(t.b) }

// regen finds the case at (block, i, k) again.
func regen(p *Prop, tier string, seed uint64, bi, i, k int) *Case {
	blocks := p.Blocks(isThorough(tier))
	if bi >= len(blocks) {
		return nil
	}
	var found *Case
	n := 0
	blocks[bi].Gen(genSeed(seed, p.ID, bi, i), i%blocks[bi].N, func(cs Case) {
		if n == k {
			c := cs
			found = &c
		}
		n++
	})
	return found
}

// runIsolated runs one case alone in a new process; it returns what failed, or "".
// sequence is a case, and cases to run before it in the same process.
type sequence struct {
	Before []Case `json:"before"`
	Case   Case   `json:"case"`
}

func runIsolated(p *Prop, before []Case, cs *Case, dir string) string {
	b, _ := json.Marshal(sequence{before, *cs})
	f := filepath.Join(dir, "one.json")
	os.WriteFile(f, b, 0o600)
	cmd := exec.Command(self(), "-prop", p.ID, "-one", f, "-dir", dir, "-aux", *flagAux)
	var out bytes.Buffer
	var eb tailBuffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	err := cmd.Run()
	if err == nil {
		return ""
	}
	if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1 {
		return strings.TrimSpace(out.String())
	}
	return crashText(cmd.ProcessState.ExitCode(), eb.String())
}

func crashText(code int, errs string) string {
	switch code {
	case exitHang:
		return "hang: more than 30 s of CPU time in one call"
	case exitMemory:
		return "memory grows without bound in one call"
	}
	l := strings.SplitN(strings.TrimSpace(errs), "\n", 4)
	if len(l) > 3 {
		l = l[:3]
	}
	return fmt.Sprintf("process died (exit %d): %s", code, strings.Join(l, " / "))
}

func runOne(p *Prop, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var q sequence
	if err := json.Unmarshal(b, &q); err != nil {
		die("%v", err)
	}
	st := mapStatus(filepath.Join(*flagDir, "status.one"))
	go watchdog(st)
	c := &Ctx{obs: map[string]int{}, strict: *flagStrict}
	for k := range q.Before {
		atomic.AddUint64(&st[0], 1)
		runCase(p, c, &q.Before[k])
		c.fail = ""
	}
	atomic.AddUint64(&st[0], 1)
	runCase(p, c, &q.Case)
	if c.fail != "" {
		fmt.Println(c.fail)
		return 1
	}
	return 0
}

func supervise(p *Prop) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "modesverif")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	ends := make([]shardEnd, nShards)
	var wg sync.WaitGroup
	for s := 0; s < nShards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			ends[s] = runShard(self(), p, s, dir)
		}(s)
	}
	wg.Wait()
	nBlocks := len(ends)
	cdir := filepath.Join(dir, "cold")
	nCold := 0
	if !p.NoCold {
		os.Mkdir(cdir, 0o700)
		if nCold = 128; isThorough(*flagTier) {
			nCold = 2048
		}
		colds := make([]shardEnd, nCold)
		sem := make(chan bool, nShards)
		for s := range colds {
			wg.Add(1)
			sem <- true
			go func(s int) {
				defer wg.Done()
				colds[s] = runShard(self(), p, s, cdir, "-cold")
				<-sem
			}(s)
		}
		wg.Wait()
		ends = append(ends, colds...)
	}
	nPlain := len(ends)
	gdir := filepath.Join(dir, "guided")
	if *flagGuide != "" && p.Mut != nil {
		os.Mkdir(gdir, 0o700)
		more := make([]shardEnd, nShards)
		for s := 0; s < nShards; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				more[s] = runShard(*flagGuide, p, s, gdir, "-guided")
			}(s)
		}
		wg.Wait()
		ends = append(ends, more...)
	}

	total := &workerResult{Obs: map[string]int{}, Blocks: map[string]int{}}
	type found struct {
		failure
		shard  int
		guided bool
		cold   int // the number of cases up to this one in a cold start, or 0
	}
	var fails []found
	unconfirmed := 0
	bitmap := make([]byte, bitmapBits/8)
	var edges []byte
	for x := range ends {
		e, s, dir, inGuided, inCold := &ends[x], x, dir, x >= nPlain, x >= nBlocks && x < nPlain
		cold := 0
		if inGuided {
			s, dir = x-nPlain, gdir
		} else if inCold {
			s, dir, cold = x-nBlocks, cdir, int(e.st[0])
		}
		if e.err != nil {
			if e.code == 2 && strings.HasPrefix(e.errs, "harness:") {
				die("shard %d: %s", s, e.errs)
			}
			msg := crashText(e.code, e.errs)
			var cs *Case
			if inGuided {
				cs = readSlot(filepath.Join(dir, fmt.Sprintf("slot.%d", s)))
			} else {
				cs = regen(p, *flagTier, *flagSeed, int(e.st[1]), int(e.st[2]), int(e.st[3]))
			}
			if inGuided && (e.st[0] == 0 || cs == nil) {
				unconfirmed++
				fmt.Printf("  the guided shard %d ended before its first case: %s\n", s, msg)
				continue
			}
			if e.st[0] == 0 || cs == nil {
				die("shard %d ended before its first case: %s", s, msg)
			}
			fails = append(fails, found{failure{Case: *cs, Msg: msg, Block: int(e.st[1]), I: int(e.st[2]), K: int(e.st[3])}, s, inGuided, cold})
			continue
		}
		r := e.res
		total.Evals += r.Evals
		total.Nontriv += r.Nontriv
		if !inGuided {
			total.NFails += r.NFails
		}
		for k, v := range r.Obs {
			total.Obs[k] += v
		}
		for k, v := range r.Blocks {
			total.Blocks[k] += v
		}
		for _, f := range r.Fails {
			fails = append(fails, found{f, s, inGuided, cold})
		}
		if q := r.Guided; q != nil {
			if total.Guided == nil {
				total.Guided = &guidedStats{EdgesTotal: q.EdgesTotal}
			}
			t := total.Guided
			t.Execs += q.Execs
			t.Forced += q.Forced
			t.Swept += q.Swept
			t.Corpus += q.Corpus
			if q.Groups > t.Groups {
				t.Groups = q.Groups
			}
			if q.Features > t.Features {
				t.Features = q.Features
			}
			e, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("edges.%d", s)))
			if edges == nil {
				edges = make([]byte, len(e))
			}
			for k := range e {
				edges[k] |= e[k]
			}
		}
		if x == 0 {
			total.Samples, total.SampleOf = r.Samples, r.SampleOf
		}
		if inCold { // it has no bitmap
			continue
		}
		bm, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("bitmap.%d", s)))
		for i := range bm {
			bitmap[i] |= bm[i]
		}
		os.Remove(filepath.Join(dir, fmt.Sprintf("bitmap.%d", s)))
	}
	if total.Guided != nil {
		q := total.Guided
		q.EdgesAll, q.EdgesSeeds = 0, 0
		for _, e := range edges {
			if e != 0 {
				q.EdgesAll++
			}
			if e&1 != 0 {
				q.EdgesSeeds++
			}
		}
	}
	distinct := 0
	for _, b := range bitmap {
		for ; b != 0; b &= b - 1 {
			distinct++
		}
	}
	sort.Slice(fails, func(a, b int) bool {
		if fails[a].Block != fails[b].Block {
			return fails[a].Block < fails[b].Block
		}
		return fails[a].I < fails[b].I
	})
	fmt.Printf("%s %s seed=%d: %d cases, %d compared in content (%d distinct), %d observation classes, %.1f s\n",
		p.ID, *flagTier, *flagSeed, total.Evals, total.Nontriv, distinct, len(total.Obs), time.Since(t0).Seconds())
	if q := total.Guided; q != nil {
		fmt.Printf("  guided: %d executions, %d kept, %d features, %d of %d linked edges reached (%d by its seeds)\n", q.Execs, q.Corpus, q.Features, q.EdgesAll, q.EdgesTotal, q.EdgesSeeds)
	}
	if *flagObs {
		var ks []string
		for k := range total.Obs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %-50s %d\n", k, total.Obs[k])
		}
	}

	known := loadKnown(p.ID)
	violations := 0
	exit := 0
	var first *replayFile
	for _, f := range fails {
		if known.match(&f.Case, f.Msg) {
			continue
		}
		if first != nil {
			violations++
			continue
		}
		cs := f.Case
		rf := &replayFile{Property: p.ID, What: f.Msg, Mode: "case", Case: &cs, Tier: *flagTier, Seed: *flagSeed,
			Shard: f.shard, NShards: nShards, Block: f.Block, I: f.I, K: f.K}
		if msg := runIsolated(p, nil, &cs, dir); msg == "" {
			if f.guided { // the instrumented build found it: it counts when the plain build shows it too
				n := 1
				for ; n <= len(f.Before) && msg == ""; n *= 4 {
					rf.Before = f.Before[len(f.Before)-n:]
					msg = runIsolated(p, rf.Before, &cs, dir)
				}
				if msg == "" {
					rf.Before = f.Before
					msg = runIsolated(p, rf.Before, &cs, dir)
				}
				if msg == "" {
					unconfirmed++
					fmt.Printf("  not confirmed by the plain build: %s   %s\n", f.Msg, brief(f.Case.String()))
					continue
				}
				rf.Mode, rf.What = "sequence", msg
			} else if rf.Mode = "history"; f.cold > 0 {
				rf.Mode, rf.K = "cold", f.cold
			}
			rf.Note = "the case alone passes in a fresh process: the failure depends on what was decoded before it; replay runs the same cases up to this one"
		} else {
			rf.What = msg
		}
		first = rf
		violations++
	}
	if total.Guided != nil {
		total.Guided.Unconfirmed = unconfirmed
	}
	if first != nil {
		exit = 1
		path := writeReplay(first)
		fmt.Printf("  what: %s\n  case: %s (%s)\n", first.What, brief(first.Case.String()), first.Mode)
		for n, f := range fails {
			if n > 5 {
				break
			}
			fmt.Printf("  also: %s   %s\n", f.Msg, brief(f.Case.String()))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		if total.NFails > violations {
			violations = total.NFails
		}
	}
	for _, k := range known.list {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
	}
	var missing []string
	if p.NeedFn != nil {
		p.Need = append(p.Need, p.NeedFn()...)
	}
	for _, n := range p.Need {
		if total.Obs[n] == 0 {
			missing = append(missing, n)
		}
	}
	if *flagSecond {
		addSecond(p, total, distinct, time.Since(t0).Seconds())
		return exit
	}
	writeEvidence(p, total, distinct, violations, time.Since(t0).Seconds(), missing)
	if exit == 0 && (len(missing) > 0 || total.Nontriv == 0) {
		die("inconclusive: nothing observed for %v (compared %d)", missing, total.Nontriv)
	}
	return exit
}

func brief(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}

func writeReplay(rf *replayFile) string {
	d := filepath.Join(*flagOut, "evidence", "replays")
	os.MkdirAll(d, 0o755)
	path := filepath.Join(d, rf.Property+".json")
	rf.Arch = runtime.GOARCH
	rf.HowTo = "bash /verif/replay.sh " + path
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func writeEvidence(p *Prop, r *workerResult, distinct, violations int, wall float64, missing []string) {
	if *flagOut == "" {
		return
	}
	var samples []interface{}
	for i, s := range r.Samples {
		samples = append(samples, map[string]interface{}{"block": r.SampleOf[i], "case": s})
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *flagTier, "seed": *flagSeed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":              r.Evals,
			"distinct_nontrivial":      distinct,
			"rule":                     p.Rule + " Distinct cases are counted by hash occupancy of a 2^27-bit map (a lower bound).",
			"samples":                  samples,
			"observed_classes":         r.Obs,
			"cases_per_block":          r.Blocks,
			"required_classes_missing": missing,
		},
		"violations": violations,
		"wall_s":     wall,
	}
	if r.Guided != nil {
		ev["coverage"].(map[string]interface{})["guided"] = r.Guided
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*flagOut, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*flagOut, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		die("evidence: %v", err)
	}
}

// addSecond adds what a run on a second platform covered to the evidence of the first one.
func addSecond(p *Prop, r *workerResult, distinct int, wall float64) {
	path := filepath.Join(*flagOut, "evidence", p.ID+".json")
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	ev := map[string]interface{}{}
	if json.Unmarshal(b, &ev) != nil {
		return
	}
	if c, ok := ev["coverage"].(map[string]interface{}); ok {
		c["second_platform"] = map[string]interface{}{"goarch": runtime.GOARCH, "evaluations": r.Evals, "distinct_nontrivial": distinct, "observed_classes": len(r.Obs), "failures": r.NFails, "wall_s": wall}
	}
	if r.NFails > 0 {
		n, _ := ev["violations"].(float64)
		ev["violations"] = int(n) + r.NFails
	}
	b, _ = json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

// ---------------------------------------------------------------- known findings

type knownFinding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // scenario of the case
	Data     string `json:"data"` // exact bytes in hex, "" = not used
	Text     string `json:"text"` // exact failure text, "" = not used
	What     string `json:"what"`
}

type knownSet struct{ list []knownFinding }

func loadKnown(id string) *knownSet {
	k := &knownSet{}
	b, err := os.ReadFile(filepath.Join(*flagOut, "known_findings.json"))
	if err != nil {
		return k
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("known_findings.json: %v", err)
	}
	for _, x := range f.Findings {
		if x.Property == id {
			k.list = append(k.list, x)
		}
	}
	return k
}

func (k *knownSet) match(cs *Case, msg string) bool {
	for _, x := range k.list {
		if x.Kind == cs.K && (x.Data == "" || x.Data == hex.EncodeToString(cs.D)) && (x.Text == "" || x.Text == msg) && x.Data+x.Text != "" {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- main

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	p := props[rf.Property]
	if p == nil {
		die("unknown property %s", rf.Property)
	}
	dir, _ := os.MkdirTemp("", "modesverif")
	defer os.RemoveAll(dir)
	*flagTier, *flagSeed = rf.Tier, rf.Seed
	switch rf.Mode {
	case "case", "sequence":
		if msg := runIsolated(p, rf.Before, rf.Case, dir); msg != "" {
			fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", rf.Case, msg, rf.Property, path)
			return 1
		}
	case "history", "cold":
		args := []string{"-stop", fmt.Sprintf("%d,%d,%d", rf.Block, rf.I, rf.K)}
		if rf.Mode == "cold" {
			args = append(args, "-cold")
		}
		e := runShard(self(), p, rf.Shard, dir, args...)
		if e.err != nil {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", crashText(e.code, e.errs), rf.Property, path)
			return 1
		}
		if len(e.res.Fails) > 0 {
			f := e.res.Fails[len(e.res.Fails)-1]
			fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", f.Case.String(), f.Msg, rf.Property, path)
			return 1
		}
	case "custom":
		return p.Custom(rf.Tier, rf.Seed)
	}
	fmt.Println("not reproduced: the property holds on this replay")
	return 0
}

func main() {
	flag.Parse()
	if *flagDump != "" {
		if strings.HasPrefix(*flagDump, "C") {
			devFails(props[*flagDump])
		} else {
			devDump(*flagDump)
		}
		return
	}
	for id, m := range mutatorsOf {
		props[id].Mut = m
	}
	if *flagReplay != "" {
		os.Exit(replay(*flagReplay))
	}
	p := props[*flagProp]
	if p == nil {
		die("unknown property %q", *flagProp)
	}
	switch {
	case *flagPure != "":
		os.Exit(pureMain())
	case *flagOne != "":
		os.Exit(runOne(p, *flagOne))
	case *flagWorker && *flagGuided:
		runGuidedWorker(p, *flagTier, *flagSeed, *flagShard, *flagDir)
	case *flagWorker:
		sb, si, sk := -1, -1, -1
		if *flagStop != "" {
			fmt.Sscanf(*flagStop, "%d,%d,%d", &sb, &si, &sk)
		}
		if *flagCold {
			runColdWorker(p, *flagTier, *flagSeed, *flagShard, *flagDir, sk)
			return
		}
		runWorker(p, *flagTier, *flagSeed, *flagShard, nShards, *flagDir, sb, si, sk)
	case p.Custom != nil:
		os.Exit(p.Custom(*flagTier, *flagSeed))
	default:
		os.Exit(supervise(p))
	}
}
