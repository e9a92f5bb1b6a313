package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// The guided phase: after the numbered blocks, each shard mutates cases and keeps those that make the code under test do
// something new (an edge taken a new number of times, two compared values closer than before) or the model meet a new class.
// The oracle is the same as for the blocks.

const featureBits = 1 << 21

var (
	seenFeature [featureBits / 64]uint64
	nFeatures   int
	featureNew  bool
	featuresOn  bool
)

//go:nosplit
func feature(h uint64) {
	h %= featureBits
	if seenFeature[h/64]&(1<<(h%64)) == 0 {
		seenFeature[h/64] |= 1 << (h % 64)
		nFeatures++
		featureNew = true
	}
}

//go:nosplit
func cmpFeature(a, b uint64, pc uint) {
	if !featuresOn {
		return
	}
	feature(mix(uint64(pc), 1, uint64(bits.OnesCount64(a^b))))
	d := a - b
	if a < b {
		d = b - a
	}
	feature(mix(uint64(pc), 2, uint64(bits.Len64(d))))
	if cmpLogOn && a != b && cmpLogged < len(cmpLog) {
		cmpLog[cmpLogged] = cmpPair{a, b}
		cmpLogged++
	}
}

// The comparisons of one execution whose two sides differed.
type cmpPair struct{ a, b uint64 }

var (
	cmpLog    [256]cmpPair
	cmpLogged int
	cmpLogOn  bool
)

// forced, when set, replaces the random choice of mutBytes and mut17: one value which was compared takes the value it was
// compared with.
var forced *forcedChange

type forcedChange struct {
	from, to uint64
	bit, w   int // in bytes: the field that holds from
	xor      bool
	arg      int // in numbers: which of them
}

// forcedChanges are the ways of making the sides of the logged comparisons of a case equal, by changing one field of it.
func forcedChanges(r *Rand, cs *Case, pairs []cmpPair) []forcedChange {
	var l []forcedChange
	seen := map[cmpPair]bool{}
	d := Bits(cs.D)
	nb := 8 * len(d)
	if nb > 512 {
		nb = 512
	}
	for _, p := range pairs {
		if seen[p] || len(l) > 512 {
			continue
		}
		seen[p] = true
		for _, q := range [2]cmpPair{{p.a, p.b}, {p.b, p.a}} {
			to, from := q.a, q.b
			if to|from >= 1<<24 {
				continue
			}
			if r.N(4) == 0 {
				to += uint64(r.N(3)) - 1
			}
			w := bits.Len64(to | from)
			if w == 0 || w > 24 {
				continue
			}
			if nb == 0 { // of a number: all of it, or the part that a mask left
				for k, a := range cs.A {
					if a > 1 && uint64(a)&from == from {
						l = append(l, forcedChange{from: from, to: to, xor: true, arg: k})
					}
				}
				continue
			}
			if w <= 8 {
				for i := 0; i+8 <= nb; i += 8 {
					if v := uint64(d[i/8]); v == from || v&from == from && r.N(2) == 0 {
						l = append(l, forcedChange{from: from, to: to, bit: i + 1, w: 8, xor: true})
					}
				}
			}
			var at [3]int
			n := 0
			for i := 1; i+w-1 <= nb; i++ {
				if uint64(d.U(i, i+w-1)) == from {
					if n++; n <= len(at) {
						at[n-1] = i
					} else if k := r.N(n); k < len(at) {
						at[k] = i
					}
				}
			}
			for i := 0; i < n && i < len(at); i++ {
				l = append(l, forcedChange{from: from, to: to, bit: at[i], w: w})
			}
		}
	}
	return l
}

type guidedStats struct {
	Execs       int `json:"executions"`
	Corpus      int `json:"corpus"`
	Groups      int `json:"groups"`
	Features    int `json:"features"`
	EdgesSeeds  int `json:"edges_reached_by_seeds"`
	Forced      int `json:"executions_with_a_compared_value_made_equal"`
	Swept       int `json:"executions_with_every_value_of_a_field"`
	Unconfirmed int `json:"failures_not_confirmed_by_the_plain_build"`
	EdgesAll    int `json:"edges_reached"`
	EdgesTotal  int `json:"edges_linked"`
}

type guidedGroup struct {
	key     string
	entries []Case
}

type guided struct {
	r      *Rand
	groups []*guidedGroup
	byKey  map[string]*guidedGroup
	cov    []byte
	edges  []byte // edges taken: 1 by the seeds, 2 by mutants
	mark   byte
	obs    int
	stats  guidedStats
	todo   []Case // entries whose comparisons have not been looked at
	sweeps []Case // mutants that took an edge no case had taken
	fresh  bool
}

func newGuided(r *Rand) *guided {
	g := &guided{r: r, mark: 1, byKey: map[string]*guidedGroup{}, cov: edgeCounters()}
	g.edges = make([]byte, len(g.cov))
	g.stats.EdgesTotal = len(g.cov)
	g.collect() // what happened before
	for i := range g.edges {
		g.edges[i] = 0
	}
	return g
}

func (g *guided) countEdges() int {
	n := 0
	for _, e := range g.edges {
		if e != 0 {
			n++
		}
	}
	return n
}

// collect turns the edge counters of one execution into features, and clears them.
func (g *guided) collect() {
	w := len(g.cov) &^ 7
	for i := 0; i < len(g.cov); {
		if i < w && i&7 == 0 && *(*uint64)(unsafe.Pointer(&g.cov[i])) == 0 {
			i += 8
			continue
		}
		if c := g.cov[i]; c != 0 {
			if g.edges[i] == 0 {
				g.fresh = true
			}
			g.edges[i] |= g.mark
			g.cov[i] = 0
			if featuresOn {
				feature(mix(uint64(i), 4, uint64(bits.Len8(c))))
			}
		}
		i++
	}
}

func groupKey(cs *Case) string {
	if len(cs.S) > 0 {
		return cs.K + " " + cs.S[0]
	}
	return cs.K
}

func (g *guided) add(cs *Case) {
	k := groupKey(cs)
	q := g.byKey[k]
	if q == nil {
		q = &guidedGroup{key: k}
		g.byKey[k] = q
		g.groups = append(g.groups, q)
	}
	q.entries = append(q.entries, *cs)
	g.todo = append(g.todo, *cs)
	g.stats.Corpus++
}

func (q *guidedGroup) pick(r *Rand) *Case {
	n := len(q.entries)
	if n > 64 && r.Bool() {
		return &q.entries[n-64+r.N(64)]
	}
	return &q.entries[r.N(n)]
}

func copyCase(cs *Case) Case {
	return Case{K: cs.K, D: clone(cs.D), A: append([]int64(nil), cs.A...), F: append([]float64(nil), cs.F...), S: append([]string(nil), cs.S...)}
}

// mutBytes changes d in one to four ways, keeping its length.
func mutBytes(r *Rand, d, donor []byte) {
	if len(d) == 0 {
		return
	}
	b := Bits(d)
	if f := forced; f != nil {
		if f.w > 0 && f.bit+f.w-1 <= 8*len(d) {
			v := f.to
			if f.xor {
				v = (uint64(b.U(f.bit, f.bit+f.w-1)) ^ f.from ^ f.to) & (1<<uint(f.w) - 1)
			}
			b.Set(f.bit, f.bit+f.w-1, int64(v))
		}
		return
	}
	n := 1
	for n < 4 && r.N(2) == 0 {
		n++
	}
	for ; n > 0; n-- {
		p := r.N(len(d))
		switch r.N(10) {
		case 0, 1, 2:
			q := 1 + r.N(8*len(d))
			b.Set(q, q, 1-b.U(q, q))
		case 3:
			d[p] = byte(r.U64())
		case 4:
			d[p] = []byte{0, 1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 85, 99, 100, 127, 128, 129, 170, 191, 192, 223, 224, 240, 254, 255}[r.N(29)]
		case 5: // a field of up to 16 bits
			a := 1 + r.N(8*len(d))
			z := a + r.N(16)
			if z > 8*len(d) {
				z = 8 * len(d)
			}
			w := uint(z - a + 1)
			v := int64(r.U64() & (1<<w - 1))
			switch r.N(6) {
			case 0:
				v = 0
			case 1:
				v = 1<<w - 1
			case 2:
				v = (b.U(a, z) + 1) & (1<<w - 1)
			case 3:
				v = (b.U(a, z) - 1) & (1<<w - 1)
			}
			b.Set(a, z, v)
		case 6:
			d[p] += byte(r.N(7)) - 3
		case 7:
			if p+1 < len(d) {
				v := binary.BigEndian.Uint16(d[p:]) + uint16(r.N(65)) - 32
				binary.BigEndian.PutUint16(d[p:], v)
			}
		case 8: // part of another case
			if len(donor) == len(d) {
				a := 1 + r.N(8*len(d))
				for z := a + r.N(8*len(d)-a+1); a <= z; a++ {
					b.Set(a, a, Bits(donor).U(a, a))
				}
			}
		case 9:
			q := r.N(len(d))
			d[p], d[q] = d[q], d[p]
		}
	}
}

// mutLen changes the length now and then.
func mutLen(r *Rand, cs *Case) {
	switch r.N(8) {
	case 0:
		cs.D = append(cs.D, r.Bytes(1+r.N(8))...)
	case 1:
		if len(cs.D) > 0 {
			cs.D = cs.D[:r.N(len(cs.D))]
		}
	}
}

// guidedSlot shares the case being executed with the supervisor.
type guidedSlot []byte

const slotSize = 1 << 18

func newSlot(path string) guidedSlot {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		die("slot: %v", err)
	}
	f.Truncate(slotSize)
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die("mmap: %v", err)
	}
	f.Close()
	return m
}

func (s guidedSlot) put(cs *Case) {
	b := s[:4:slotSize]
	str := func(v string) {
		b = binary.LittleEndian.AppendUint32(b, uint32(len(v)))
		b = append(b, v...)
	}
	if len(cs.D) > slotSize/2 {
		return
	}
	str(cs.K)
	str(string(cs.D))
	b = binary.LittleEndian.AppendUint32(b, uint32(len(cs.A)))
	for _, a := range cs.A {
		b = binary.LittleEndian.AppendUint64(b, uint64(a))
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(len(cs.F)))
	for _, a := range cs.F {
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(a))
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(len(cs.S)))
	for _, a := range cs.S {
		str(a)
	}
	binary.LittleEndian.PutUint32(s, uint32(len(b)))
}

func readSlot(path string) (cs *Case) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 4 {
		return nil
	}
	defer func() {
		if recover() != nil {
			cs = nil
		}
	}()
	n := binary.LittleEndian.Uint32(b)
	if n < 8 {
		return nil
	}
	b = b[4:n]
	u32 := func() int {
		v := binary.LittleEndian.Uint32(b)
		b = b[4:]
		return int(v)
	}
	u64 := func() uint64 {
		v := binary.LittleEndian.Uint64(b)
		b = b[8:]
		return v
	}
	str := func() string {
		n := u32()
		v := string(b[:n])
		b = b[n:]
		return v
	}
	cs = &Case{K: str(), D: []byte(str())}
	for n := u32(); n > 0; n-- {
		cs.A = append(cs.A, int64(u64()))
	}
	for n := u32(); n > 0; n-- {
		cs.F = append(cs.F, math.Float64frombits(u64()))
	}
	for n := u32(); n > 0; n-- {
		cs.S = append(cs.S, str())
	}
	return cs
}

// guidedSeconds is how long one shard mutates.
func guidedSeconds(p *Prop, tier string) float64 {
	if isThorough(tier) {
		return 90
	}
	return 5
}

const sweepBits = 10

// sweepWindows are the fields of a case's content, by the layouts that accept it, or any bits when there are none.
func sweepWindows(cs *Case) []forcedChange {
	rawNames()
	var regs []*Reg
	if len(cs.S) > 0 && rawByName[cs.S[0]] != nil {
		regs = rawByName[cs.S[0]].regs
	} else {
		for _, rd := range rawByName {
			regs = append(regs, rd.regs...)
		}
	}
	var l []forcedChange
	b := Bits(cs.D)
	seen := map[interface{}]bool{}
	total := 0
	for _, g := range regs {
		if seen[g] || g.length() != len(b) || !g.accepts(b) {
			continue
		}
		seen[g] = true
		fields := g.Fields
		if g.More != nil {
			fields = append(append([]F(nil), fields...), g.More(b)...)
		}
		for _, f := range fields {
			w := f.Z - f.A + 1
			if k := [2]int{f.A, w}; f.A > 0 && w > 0 && w <= 13 && !seen[k] {
				seen[k] = true
				total += 1 << uint(w)
				l = append(l, forcedChange{bit: f.A, w: w})
			}
		}
	}
	if any := 8*len(b) - sweepBits + 1; (len(l) == 0 || total > any<<sweepBits) && len(b) <= 14 {
		l = l[:0]
		for i := 1; i <= any; i++ {
			l = append(l, forcedChange{bit: i, w: sweepBits})
		}
	}
	return l
}

// runGuided goes on until the time is up; exec runs and records one case.
//
// The garbage collector runs only between cases: the call which the compiler inserts in the condition of a range loop is a
// point where the loop's pointer is kept as an integer, so that a collection there would free the slice under the loop.
func runGuided(p *Prop, tier string, seed uint64, shard int, blocks []Block, st []uint64, slot guidedSlot, nobs func() int, exec func(cs *Case, bi, i int) bool) *guidedStats {
	g := newGuided(genSeed(seed, p.ID, len(blocks), shard))
	if len(g.cov) == 0 {
		return nil
	}
	debug.SetGCPercent(-1)
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	ceiling := uint64(64 << 20)
	bi := len(blocks)
	n := 0
	t0 := time.Now()
	var last Case
	run := func(cs Case, keep bool) bool {
		last = cs
		st[1], st[2], st[3] = uint64(bi), uint64(n), 0
		slot.put(&cs)
		atomic.AddUint64(&st[0], 1)
		featureNew, g.fresh = false, false
		featuresOn = true
		ok := exec(&cs, bi, n)
		g.collect()
		featuresOn = false
		if o := nobs(); o != g.obs {
			g.obs = o
			featureNew = true
		}
		if featureNew || keep {
			g.add(&cs)
		}
		if g.fresh && g.mark == 2 && len(cs.D) > 0 {
			g.sweeps = append(g.sweeps, copyCase(&cs))
		}
		g.stats.Execs++
		n++
		if n&63 == 0 {
			if metrics.Read(heap); heap[0].Value.Uint64() > ceiling {
				runtime.GC()
				metrics.Read(heap)
				ceiling = heap[0].Value.Uint64() + 64<<20
			}
		}
		return ok
	}
	// seeds: some cases of each block
	perBlock := 3000/len(blocks) + 24
	for b := range blocks {
		bl := &blocks[b]
		left := perBlock
		for k := 0; k < 24 && left > 0; k++ {
			r := genSeed(seed, p.ID+" seeds", b, k*nShards+shard)
			taken := 0
			bl.Gen(r, r.N(bl.N), func(cs Case) {
				if taken > 4096 || left <= 0 {
					return
				}
				taken++
				if taken > 4 && g.r.N(16) != 0 {
					return
				}
				cp := copyCase(&cs)
				if !p.Mut(g.r, &cp, nil) {
					return
				}
				left--
				q := g.byKey[groupKey(&cs)]
				if !run(cs, q == nil || len(q.entries) < 8) {
					left = -1
				}
			})
		}
		if left < 0 {
			break
		}
	}
	g.mark = 2
	limit := guidedSeconds(p, tier)
	var parent Case
	var changes []forcedChange
	var swept Case
	var windows []forcedChange
	sweep, step := 0, 0
	for len(g.groups) > 0 {
		if n&63 == 0 && time.Since(t0).Seconds() > limit {
			break
		}
		// every other execution, while there are such: make the two sides of a comparison equal
		if n&1 == 0 {
			if len(changes) == 0 && len(g.todo) > 0 {
				k := len(g.todo) - 1
				if g.r.N(4) == 0 {
					k = g.r.N(len(g.todo))
				}
				parent = g.todo[k]
				g.todo[k] = g.todo[len(g.todo)-1]
				g.todo = g.todo[:len(g.todo)-1]
				cmpLogged, cmpLogOn = 0, true
				ok := run(copyCase(&parent), false)
				cmpLogOn = false
				if !ok {
					break
				}
				changes = forcedChanges(g.r, &parent, cmpLog[:cmpLogged])
				continue
			}
			if len(changes) > 0 {
				k := len(changes) - 1
				f := changes[k]
				changes = changes[:k]
				cs := copyCase(&parent)
				forced = &f
				ok := p.Mut(g.r, &cs, nil)
				forced = nil
				if !ok {
					n++
					continue
				}
				g.stats.Forced++
				if !run(cs, false) {
					break
				}
				continue
			}
		}
		// every second one, while there are such: every value of each field of a case that took a new edge
		if n&1 == 0 && (sweep > 0 || len(g.sweeps) > 0) {
			if sweep == 0 {
				swept = g.sweeps[len(g.sweeps)-1]
				g.sweeps = g.sweeps[:len(g.sweeps)-1]
				windows = sweepWindows(&swept)
				for k := range windows {
					if w := 1 << uint(windows[k].w); w > sweep {
						sweep = w
					}
				}
				sweep *= len(windows)
				step = g.r.N(1 << 20)
			}
			if sweep > 0 {
				sweep--
				f := windows[sweep%len(windows)]
				if sweep/len(windows)>>uint(f.w) != 0 { // a shorter one is done
					continue
				}
				f.to = uint64(sweep/len(windows)+step) & (1<<uint(f.w) - 1)
				cs := copyCase(&swept)
				forced = &f
				ok := p.Mut(g.r, &cs, nil)
				forced = nil
				if !ok {
					n++
					continue
				}
				g.stats.Swept++
				if !run(cs, false) {
					break
				}
				continue
			}
		}
		q := g.groups[g.r.N(len(g.groups))]
		cs := copyCase(q.pick(g.r))
		if g.r.N(4) == 0 && last.K != "" { // a neighbour of the case just run
			cs, q = copyCase(&last), g.byKey[groupKey(&last)]
		}
		var donor *Case
		if q != nil {
			donor = q.pick(g.r)
		}
		if !p.Mut(g.r, &cs, donor) {
			n++
			continue
		}
		if !run(cs, false) {
			break
		}
	}
	g.stats.Groups = len(g.groups)
	g.stats.Features = nFeatures
	g.stats.EdgesAll = g.countEdges()
	if f, err := os.Create(fmt.Sprintf("%s/edges.%d", *flagDir, shard)); err == nil {
		f.Write(g.edges)
		f.Close()
	}
	return &g.stats
}
