package main

import (
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

// C29: a receiver that runs for years. Each case makes thousands of ever different calls of one kind, drops all
// results, collects the garbage and looks at what stays: bytes, objects, goroutines and open files.

// leakCase makes call number i of the kind.
func leakCase(r *Rand, kind string, i int) Case {
	switch kind {
	case "crc":
		g := modesRegs[allDF[r.N(len(allDF))]]
		b := background(r, g.length(), []int{2, 2, 2, 0, 1}[r.N(5)])
		g.normalise(r, b)
		if r.N(6) > 0 {
			over := uint32(r.U64() & 0xFFFFFF)
			switch b.U(1, 5) {
			case 17, 18:
				over = 0
			case 11:
				over = uint32(r.N(128))
			}
			seal(b, over)
		}
		return Case{K: "crc", D: b}
	case "pair", "local":
		lat, lon := genLat(r, 88), r.R(-180, 180)
		s := int64(r.N(2))
		ye, xe, _ := cprEncode(lat, lon, 0, s == 1)
		if kind == "local" {
			return Case{K: "local", A: []int64{s, ye, xe, 0}, F: []float64{lat, lon}}
		}
		a, b := near(r, lat, lon, 0.4)
		yo, xo, _ := cprEncode(a, b, 1, s == 1)
		if r.N(4) == 0 {
			yo = int64(r.N(131072))
		}
		return Case{K: "pair", A: []int64{s, ye, xe, yo, xo, int64(r.N(2))}, F: []float64{lat, lon}}
	case "dist":
		return Case{K: "dist", F: []float64{r.R(-90, 90), r.R(-180, 180), r.R(-90, 90), r.R(-180, 180)}}
	case "gillham", "pack":
		return Case{K: kind, A: []int64{int64(r.U64() >> 32)}}
	}
	rd := rawByName[kind]
	g := rd.regs[r.N(len(rd.regs))]
	b := background(r, g.length(), []int{2, 2, 2, 0, 1}[r.N(5)])
	if r.N(6) > 0 {
		g.normalise(r, b)
		if p := plausOf(g); p != nil && r.Bool() {
			p.shape(r, b)
			g.normalise(r, b)
		}
	} else if r.N(8) == 0 {
		b = b[:r.N(len(b)+1)]
	}
	return Case{K: "read", D: b, A: []int64{int64(r.N(3)), int64(r.N(2)), int64(r.N(2))}, S: []string{kind}}
}

type stays struct {
	bytes, objects    int64
	goroutines, files int
}

func whatStays() stays {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // what pools still held
	runtime.ReadMemStats(&m)
	s := stays{bytes: int64(m.HeapAlloc), objects: int64(m.HeapObjects), goroutines: runtime.NumGoroutine()}
	if d, err := os.ReadDir("/proc/self/fd"); err == nil {
		s.files = len(d)
	}
	return s
}

// checkLeak: S: the kind of call; A: seed, calls per round, and 1 if printing and all methods are called too.
func checkLeak(c *Ctx, cs *Case) {
	kind, n := cs.S[0], int(cs.A[1])
	rawNames()
	r := &Rand{uint64(cs.A[0])}
	made := 0
	round := func(n int) {
		for i := 0; i < n; i++ {
			x := leakCase(r, kind, i)
			o := pureOp{cs: x}
			if cs.A[2] == 1 {
				o.run(x.D)
			} else {
				o.bare(x.D)
			}
			atomic.AddUint64(&beats, 1)
		}
		made += n
	}
	settle := func(from stays) stays {
		s := whatStays()
		for k := 0; k < 20 && s.goroutines > from.goroutines; k++ { // let what is only late end
			time.Sleep(10 * time.Millisecond)
			s = whatStays()
		}
		return s
	}
	round(n)
	a := whatStays()
	round(n)
	b := settle(a)
	c.NonTrivial()
	c.Obs("calls made: " + kind)
	if cs.A[2] == 1 {
		c.Obs("printed and examined")
	}
	// a little may stay: a table filled at first use, a cache of fixed size. It must not go on
	limit := 2048 + int64(n)/500
	for k := 0; ; k++ {
		grown := b.bytes-a.bytes > limit || b.goroutines > a.goroutines || b.files > a.files
		if !grown {
			break
		}
		c.Obs("looked at again: something stayed")
		if k == 3 {
			c.Fail("%s: after %d calls, %d more leave %d bytes in %d objects, %d goroutines and %d open files behind, and it goes on: what stays grows with the number of calls",
				kind, made/2, made/2, b.bytes-a.bytes, b.objects-a.objects, b.goroutines-a.goroutines, b.files-a.files)
			return
		}
		a = b
		limit = 2048 + int64(made)/500
		round(made) // twice as many: a structure that grows by doubling grows
		b = settle(a)
	}
}

func init() {
	register(&Prop{
		ID:     "C29",
		NoCold: true,
		Rounds: 1,
		Rule:   "One case is several thousand different calls of one reader, of the parity check or of one computation, whose results are dropped. Non-trivial: bytes, objects, goroutines and open files in use after garbage collection were compared before and after the calls.",
		Assume: []string{"What stays is judged per kind of call: more than 2 kB and a byte per 500 calls that keeps growing while the number of calls doubles four times, one goroutine or one open file counts as growth; a table or cache that stops growing does not."},
		Check:  checkLeak,
		NeedFn: func() []string {
			need := []string{"printed and examined"}
			for _, k := range leakKinds() {
				need = append(need, "calls made: "+k)
			}
			return need
		},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 12
			}
			kinds := leakKinds()
			return []Block{{"every kind of call", len(kinds) * s, func(r *Rand, i int, emit func(Case)) {
				k := kinds[i%len(kinds)]
				n := int64(60000)
				if i >= len(kinds) {
					n = 200000
				}
				emit(Case{K: "leak", S: []string{k}, A: []int64{int64(r.U64() >> 1), n, 0}})
				emit(Case{K: "leak", S: []string{k}, A: []int64{int64(r.U64() >> 1), n / 4, 1}})
			}}, {"mixed frames, long", 8 * s, func(r *Rand, i int, emit func(Case)) {
				k := []string{"crc", "crc", "pair", "local"}[i%4]
				n := int64(300000)
				if i >= 8 {
					n = 20000000
				}
				emit(Case{K: "leak", S: []string{k}, A: []int64{int64(r.U64() >> 1), n, 0}})
			}}}
		},
	})
}

func leakKinds() []string {
	out := []string{"crc", "pair", "local", "dist", "gillham", "pack"}
	for _, n := range rawNames() {
		if rawByName[n].regs != nil {
			out = append(out, n)
		}
	}
	return out
}
