package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/twuillemin/modes/pkg/bitutils"
	modescommon "github.com/twuillemin/modes/pkg/modes/common"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

// C25: decoding is a pure function. A batch is a list of calls ("ops"); the same batch is executed by separate
// processes forwards, backwards, shuffled, and by 8 goroutines at once (all built with the race detector), and every
// op must give the same signature in all of them. Sequential executions also watch the input and its surroundings.

var flagPure = flag2("pure", "internal: mode,batch,op")

type pureOp struct {
	cs   Case
	data []byte // shared input, with nothing but canaries around it
	all  []byte // data and its surroundings
	ref  []byte // what all must stay
}

const canary = 24

// newOp lays the input inside a larger buffer, so that reading past its end is possible and writing there is seen.
func newOp(cs Case, fill byte) *pureOp {
	all := bytes.Repeat([]byte{fill}, len(cs.D)+2*canary)
	copy(all[canary:], cs.D)
	o := &pureOp{cs: cs, all: all, data: all[canary : canary+len(cs.D)]}
	o.ref = clone(all)
	return o
}

var allowAddr = map[modescommon.ICAOAddress]bool{0x123456: true, 0xABCDEF: true, 0x40: true}
var allowII = map[modescommon.ICAOAddress]bool{0: true, 7: true, 15: true}

func allowListsKept() string {
	if len(allowAddr) != 3 || !allowAddr[0x123456] || !allowAddr[0xABCDEF] || !allowAddr[0x40] {
		return fmt.Sprintf("the list of allowed addresses was modified: %v", allowAddr)
	}
	if len(allowII) != 3 || !allowII[0] || !allowII[7] || !allowII[15] {
		return fmt.Sprintf("the list of allowed interrogators was modified: %v", allowII)
	}
	return ""
}

// keepLists: one thread runs everything and changes its lists in place between the calls, as a receiver does.
var keepLists bool
var ownAddr = map[modescommon.ICAOAddress]bool{}

// ownList is one of the allow-lists of a frame.
func ownList(frame []byte, which uint64) map[modescommon.ICAOAddress]bool {
	l := map[modescommon.ICAOAddress]bool{}
	if keepLists {
		l = ownAddr
		for k := range l {
			delete(l, k)
		}
	}
	n := len(frame) - 3
	over := crc24(frame[:n]) ^ uint32(frame[n])<<16 ^ uint32(frame[n+1])<<8 ^ uint32(frame[n+2])
	h := mix(uint64(over), uint64(frame[n-1]), uint64(frame[0]), which)
	for k := uint64(0); k < 1+h>>8%3; k++ {
		l[modescommon.ICAOAddress(mix(h, k)&0xFFFFFF)] = true
	}
	if h&1 == 0 {
		l[modescommon.ICAOAddress(over)] = true
	}
	return l
}

// rawBytes says whether a path names the payload or parity bytes of a frame, which are views of the caller's buffer.
func rawBytes(path, typ string) bool {
	return strings.HasPrefix(typ, "[]") && (strings.Contains(path, "Payload") || strings.Contains(path, "Parity"))
}

// describe is the observable content of a result: leaves and the results of every method. raw: with the frame's own bytes.
func describe(b *strings.Builder, m reflect.Value, raw bool) {
	if !m.IsValid() {
		b.WriteString("nil;")
		return
	}
	for _, l := range Flatten(m.Interface()) {
		if !raw && rawBytes(l.Path, l.Type) {
			continue
		}
		fmt.Fprintf(b, "%s=%v;", l.Path, l.Val)
	}
	touch(m, "", func(path string, out []reflect.Value) {
		b.WriteString(path)
		b.WriteByte('(')
		for _, o := range out {
			if o.Type().Kind() == reflect.Interface && o.IsNil() {
				b.WriteString("nil,")
				continue
			}
			if e, ok := o.Interface().(error); ok {
				b.WriteString(e.Error())
				b.WriteByte(',')
				continue
			}
			for _, l := range Flatten(o.Interface()) {
				if !raw && rawBytes(path+l.Path, l.Type) {
					continue
				}
				fmt.Fprintf(b, "%s=%v,", l.Path, l.Val)
			}
		}
		b.WriteByte(')')
	})
}

// run executes the op on its shared input and says what came out. m is the message, for the monitors.
func (o *pureOp) run(in []byte) (sig string, m reflect.Value) {
	var b strings.Builder
	c := &o.cs
	defer func() {
		if e := recover(); e != nil {
			sig = fmt.Sprintf("panic %v", e)
		}
	}()
	fail := func(err error) { fmt.Fprintf(&b, "error %v;", err) }
	switch c.K {
	case "read":
		v, a, cc := adsbArgs(c)
		out := rawByName[c.S[0]].call(v, a, cc, in)
		if !out[1].IsNil() {
			fail(out[1].Interface().(error))
			break
		}
		m = out[0]
		describe(&b, m, true)
	case "crc":
		msg, err := modesreader.ReadMessage(in)
		if err != nil {
			fail(err)
			break
		}
		m = reflect.ValueOf(&msg).Elem()
		describe(&b, m, true)
		for k, l := range []map[modescommon.ICAOAddress]bool{nil, allowAddr} {
			a, err := modesreader.CheckCRC(msg, in, l, []map[modescommon.ICAOAddress]bool{nil, allowII}[k])
			fmt.Fprintf(&b, "crc %v %v %s;", uint32(a), err, a.ToString())
		}
		for k := uint64(0); k < 3; k++ {
			l := ownList(in, k)
			a, err := modesreader.CheckCRC(msg, in, l, l)
			fmt.Fprintf(&b, "own list %v %v %v;", uint32(a), err, len(l))
		}
	case "pair":
		y, x, err := globalPair(c.A[0] == 1, c.A[1], c.A[2], c.A[3], c.A[4], c.A[5] == 1, c.F)
		fmt.Fprintf(&b, "%x %x %v", y, x, err)
	case "local":
		y, x := local(c.A[0] == 1, c.A[1], c.A[2], c.F[0], c.F[1], int(c.A[3]))
		fmt.Fprintf(&b, "%x %x", y, x)
	case "dist":
		fmt.Fprintf(&b, "%x", distance(c.F))
	case "gillham":
		v, err := gillhamOf(c.A[0])
		fmt.Fprintf(&b, "%v %v", v, err)
	case "pack":
		u := uint32(c.A[0])
		fmt.Fprintf(&b, "%x %x %x", bitutils.Pack4Bytes(byte(u>>24), byte(u>>16), byte(u>>8), byte(u)), bitutils.Pack3Bytes(byte(u>>16), byte(u>>8), byte(u)),
			bitutils.Pack2Bytes(byte(u>>8), byte(u)))
	}
	return b.String(), m
}

// bare executes the op and drops the result: nothing of the monitors runs besides the code under test, so that nothing
// (such as the pool inside fmt) orders what goroutines do.
func (o *pureOp) bare(in []byte) {
	defer func() { recover() }()
	c := &o.cs
	switch c.K {
	case "read":
		v, a, cc := adsbArgs(c)
		rawByName[c.S[0]].call(v, a, cc, in)
	case "crc":
		if msg, err := modesreader.ReadMessage(in); err == nil {
			modesreader.CheckCRC(msg, in, nil, nil)
			modesreader.CheckCRC(msg, in, allowAddr, allowII)
		}
	case "pair":
		globalPair(c.A[0] == 1, c.A[1], c.A[2], c.A[3], c.A[4], c.A[5] == 1, c.F)
	case "local":
		local(c.A[0] == 1, c.A[1], c.A[2], c.F[0], c.F[1], int(c.A[3]))
	case "dist":
		distance(c.F)
	case "gillham":
		gillhamOf(c.A[0])
	case "pack":
		u := uint32(c.A[0])
		bitutils.Pack4Bytes(byte(u>>24), byte(u>>16), byte(u>>8), byte(u))
	}
}

// scribble overwrites everything of a result that its owner can reach.
func scribble(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		scribble(v.Elem(), depth+1)
	case reflect.Interface:
		scribble(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(-1 - v.Float())
	case reflect.String:
		v.SetString("overwritten")
	case reflect.Ptr, reflect.Interface:
		v.Set(reflect.Zero(v.Type()))
	}
}

func digest(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from := i - 40
		if from < 0 {
			from = 0
		}
		to := i + 60
		if to > len(s) {
			to = len(s)
		}
		if from > to {
			from = to
		}
		return s[from:to]
	}
	return fmt.Sprintf("%q against %q", cut(a), cut(b))
}

// ---------------------------------------------------------------- workload

func pureBatch(seed uint64, batch, n int) []*pureOp {
	r := genSeed(seed, "C25", batch, 0)
	names := rawNames()
	var ops []*pureOp
	// the aircraft of this batch: many frames come from the same few
	fleet := make([]int64, 6)
	for i := range fleet {
		fleet[i] = int64(r.U64() & 0xFFFFFF)
	}
	fleet[0] = 0x123456
	byLength := map[int][]string{}
	for _, name := range names {
		byLength[rawByName[name].n] = append(byLength[rawByName[name].n], name)
	}
	shiftGeo := func(c *Case) { // a call close to an earlier one
		c.A, c.F = append([]int64(nil), c.A...), append([]float64(nil), c.F...)
		for i := range c.F {
			if r.N(3) == 0 {
				c.F[i] += r.R(-1, 1) * []float64{1e-6, 1e-3, 0.05, 1}[r.N(4)]
			}
		}
		if len(c.F) == 4 || c.K == "pair" || c.K == "local" {
			if math.Abs(c.F[0]) > 90 {
				c.F[0] = 0
			}
		}
		if c.K == "dist" && math.Abs(c.F[2]) > 90 {
			c.F[2] = 0
		}
		switch c.K {
		case "pair":
			if j := r.N(8); j < 5 {
				c.A[1+r.N(4)] = int64(r.U64() & 131071)
			} else if j == 5 {
				c.A[5] ^= 1
			} else if j == 6 {
				c.A[0] ^= 1
			}
		case "local":
			if j := r.N(4); j < 2 {
				c.A[1+j] = (c.A[1+j] + int64(r.N(2001)) - 1000) & 131071
			} else if j == 2 {
				c.A[3] ^= 1
			} else {
				c.A[0] ^= 1
			}
		}
	}
	for len(ops) < n {
		var cs Case
		switch k := r.N(24); {
		case k >= 22 && len(ops) > 8: // the same aircraft, or the same content in another format or reader
			old := ops[len(ops)-1-r.N(8)].cs
			cs = old
			cs.D = clone(old.D)
			switch old.K {
			case "read":
				if l := byLength[len(old.D)]; len(l) > 0 {
					cs.S = []string{l[r.N(len(l))]}
				}
			case "crc":
				b := Bits(cs.D)
				if len(b) == 14 {
					x := background(r, 14, 2)
					g := modesRegs[allDF[r.N(len(allDF))]]
					g.normalise(r, x)
					if len(x) == 14 {
						copy(x[4:11], b[4:11])
						if over := crc24(b[:11]) ^ uint32(b.U(89, 112)); x.U(1, 5) != 17 && x.U(1, 5) != 18 {
							seal(x, over)
						} else {
							copy(x[1:4], b[1:4])
							seal(x, 0)
						}
						cs.D = x
					}
				}
			default:
				shiftGeo(&cs)
			}
		case k < 5 && len(ops) > 4: // close to an earlier one
			old := ops[len(ops)-1-r.N(4)].cs
			cs = old
			cs.D = clone(old.D)
			if len(cs.D) > 0 && k > 0 {
				cs.D[r.N(len(cs.D))] ^= 1 << r.N(8)
			}
			if len(cs.F) > 0 && k > 0 {
				shiftGeo(&cs)
			}
			if k == 1 && old.K == "read" {
				cs.A = []int64{int64(r.N(3)), int64(r.N(2)), int64(r.N(2))}
			}
		case k < 12:
			rd := rawByName[names[r.N(len(names))]]
			g := rd.regs[r.N(len(rd.regs))]
			b := background(r, g.length(), []int{2, 2, 0, 1, 3, 4}[r.N(6)])
			if r.N(10) > 0 {
				g.normalise(r, b)
			}
			if p := plausOf(g); p != nil && r.Bool() {
				p.shape(r, b)
				g.normalise(r, b)
			}
			if r.N(25) == 0 {
				b = b[:r.N(len(b)+1)]
			}
			cs = Case{K: "read", D: b, A: []int64{int64(r.N(3)), int64(r.N(2)), int64(r.N(2))}, S: []string{rd.name}}
		case k < 16:
			g := modesRegs[allDF[r.N(len(allDF))]]
			b := background(r, g.length(), []int{2, 2, 0, 1}[r.N(4)])
			g.normalise(r, b)
			var overlay uint32
			aa := fleet[r.N(len(fleet))]
			switch {
			case b.U(1, 5) == 17 || b.U(1, 5) == 18:
				if r.Bool() {
					b.Set(9, 32, aa)
				}
			case b.U(1, 5) != 11 && r.Bool():
				overlay = uint32(aa)
			case b.U(1, 5) == 11:
				overlay = uint32(r.N(16))
			default:
				overlay = uint32(r.Pick(0x123456, 0xABCDEF, 0x40, 0x41, int64(r.N(1<<24))))
			}
			if r.N(8) > 0 {
				seal(b, overlay)
			}
			cs = Case{K: "crc", D: b}
		case k == 21: // both sides of a latitude where the number of zones changes, one after the other
			t := transitionLat(2 + r.N(58))
			if r.Bool() {
				t = -t
			}
			lon, s := r.R(-180, 180), int64(r.N(2))
			for j := 0; j < 4; j++ {
				lat := t + r.R(-1, 1)*[]float64{1e-4, 1e-3, 1e-2}[r.N(3)]
				ye, xe, _ := cprEncode(lat, lon, 0, s == 1)
				yo, xo, _ := cprEncode(lat, lon, 1, s == 1)
				cs = Case{K: "pair", A: []int64{s, ye, xe, yo, xo, int64(r.N(2))}, F: []float64{lat, lon}}
				if j == 3 {
					cs = Case{K: "local", A: []int64{s, ye, xe, 0}, F: []float64{lat, lon}}
				} else if len(ops) < n-1 {
					ops = append(ops, newOp(cs, 0))
				}
			}
		case k < 17:
			lat, lon := genLat(r, 88), r.R(-180, 180)
			s := int64(r.N(2))
			a, b := near(r, lat, lon, 0.4)
			ye, xe, _ := cprEncode(lat, lon, 0, s == 1)
			yo, xo, _ := cprEncode(a, b, 1, s == 1)
			cs = Case{K: "pair", A: []int64{s, ye, xe, yo, xo, int64(r.N(2))}, F: []float64{lat + 0.1, lon}}
		case k < 18:
			lat, lon := genLat(r, 88), r.R(-180, 180)
			s, o := int64(r.N(2)), r.N(2)
			y, x, _ := cprEncode(lat, lon, o, s == 1)
			cs = Case{K: "local", A: []int64{s, y, x, int64(o)}, F: []float64{lat + 0.1, lon}}
		case k < 19:
			cs = Case{K: "dist", F: []float64{r.R(-90, 90), r.R(-180, 180), r.R(-90, 90), r.R(-180, 180)}}
		default:
			cs = Case{K: []string{"gillham", "pack"}[r.N(2)], A: []int64{int64(r.U64() >> 32 & 0x1FFF)}}
			if cs.K == "pack" {
				cs.A[0] = int64(r.U64() >> 32)
			}
		}
		ops = append(ops, newOp(cs, byte(r.Pick(0x00, 0xFF, 0xA5))))
	}
	return ops
}

var pureModes = []string{"forward", "reverse", "shuffled", "concurrent", "soak"}

type pureOut struct {
	Digests []uint64       `json:"digests"`
	Obs     map[string]int `json:"obs"`
	Runs    int            `json:"runs"`
	Fail    string         `json:"fail"`
	Op      int            `json:"op"`
	Sig     string         `json:"sig"`
}

// pureChild executes one batch in one mode.
func pureChild(mode string, batch, n, want int) *pureOut {
	ops := pureBatch(*flagSeed, batch, n)
	out := &pureOut{Digests: make([]uint64, n), Obs: map[string]int{}, Op: -1}
	bad := func(k int, f string, a ...interface{}) {
		if out.Fail == "" {
			out.Fail, out.Op = fmt.Sprintf(f, a...), k
		}
	}
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	r := &Rand{mix(*flagSeed, uint64(batch), 77)}
	switch mode {
	case "reverse":
		for i := range order {
			order[i] = n - 1 - i
		}
	case "shuffled":
		shuffle(r, order)
	}
	if mode == "concurrent" {
		pureConcurrent(ops, out, bad, r, want)
		return out
	}
	if mode == "hammer" {
		pureHammer(ops, out, bad, r)
		return out
	}
	if mode == "soak" {
		pureSoak(ops, out, bad, r, want)
		return out
	}
	keepLists = true
	oneBuffer := make([]byte, 64)
	type held struct {
		k     int
		m     reflect.Value
		sig   string
		in    []byte
		after int
	}
	var keep []held
	recheck := func(h held, at int) {
		var b strings.Builder
		describe(&b, h.m, true)
		if s := b.String(); s != h.sig {
			bad(h.k, "a message returned earlier changed while %d other inputs were read: %s", at-h.after, firstDiff(h.sig, s))
		}
		out.Obs["earlier message looked at again"]++
		// the caller reuses its buffer
		b.Reset()
		describe(&b, h.m, false)
		before := b.String()
		for i := range h.in {
			h.in[i] ^= 0x5A
		}
		b.Reset()
		describe(&b, h.m, false)
		if s := b.String(); s != before {
			bad(h.k, "the decoded fields of a message change when the caller reuses the input buffer: %s", firstDiff(before, s))
		}
		out.Obs["input buffer reused under a message"]++
	}
	for at, k := range order {
		o := ops[k]
		sig, _ := o.run(o.data)
		out.Runs++
		out.Digests[k] = digest(sig)
		if k == want {
			out.Sig = sig
		}
		again, _ := o.run(o.data)
		if again != sig {
			bad(k, "the second of two identical calls gives another result: %s", firstDiff(sig, again))
		}
		if !bytes.Equal(o.all, o.ref) {
			bad(k, "the input or the bytes around it were modified: %x is now %x", o.ref, o.all)
			copy(o.all, o.ref)
		}
		// the same input elsewhere, with other bytes around it
		c2 := newOp(o.cs, ^o.all[0])
		s2, m2 := c2.run(c2.data)
		if s2 != sig {
			bad(k, "the bytes around the input influence the result: %s", firstDiff(sig, s2))
		}
		c3 := clone(o.cs.D)
		s3, m3 := o.run(c3[:len(c3):len(c3)])
		if s3 != sig {
			bad(k, "a copy of the input gives another result: %s", firstDiff(sig, s3))
		}
		if m3.IsValid() { // the result belongs to the caller
			scribble(m3, 0)
			if s5, _ := o.run(clone(o.cs.D)); s5 != sig {
				bad(k, "after the caller has changed what an earlier call returned, the same input gives another result: %s", firstDiff(sig, s5))
			}
			out.Obs["returned message overwritten by the caller"]++
			out.Runs++
		}
		// one buffer for everything, as a receiver has
		b4 := oneBuffer[:copy(oneBuffer, o.cs.D)]
		if s4, _ := o.run(b4); s4 != sig {
			bad(k, "in a buffer that held other inputs before, the input gives another result: %s", firstDiff(sig, s4))
		}
		out.Runs += 4
		if f := allowListsKept(); f != "" {
			bad(k, "%s", f)
		}
		if strings.HasPrefix(sig, "error") {
			out.Obs[o.cs.K+" refused"]++
		} else {
			out.Obs[o.cs.K+" answered"]++
		}
		if m2.IsValid() {
			var b strings.Builder
			describe(&b, m2, true)
			keep = append(keep, held{k, m2, b.String(), c2.data, at})
			if len(keep) > 64 {
				j := r.N(len(keep))
				recheck(keep[j], at)
				keep[j] = keep[len(keep)-1]
				keep = keep[:len(keep)-1]
			}
		}
	}
	for _, h := range keep {
		recheck(h, n)
	}
	return out
}

func shuffle(r *Rand, p []int) {
	for i := len(p) - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
}

// soakPasses is how often a soak goes through its batch.
const soakPasses = 60

// pureSoak repeats the calls of a batch many times in ever new orders: what a call says must not depend on how many were made.
func pureSoak(ops []*pureOp, out *pureOut, bad func(int, string, ...interface{}), r *Rand, want int) {
	n := len(ops)
	order := make([]int, n)
	first := make([]reflect.Value, n)
	kept := make([]string, n)
	for i := range order {
		order[i] = i
	}
	for pass := 0; pass < soakPasses; pass++ {
		shuffle(r, order)
		for _, k := range order {
			o := ops[k]
			out.Runs++
			if pass == 0 || pass%20 == 19 || !first[k].IsValid() || o.cs.K != "read" {
				sig, m := o.run(o.data)
				if pass == 0 {
					out.Digests[k] = digest(sig)
					if k == want {
						out.Sig = sig
					}
					first[k] = m
					if m.IsValid() {
						var b strings.Builder
						describe(&b, m, true)
						kept[k] = b.String()
					}
				} else if digest(sig) != out.Digests[k] {
					bad(k, "the result changes when the calls are repeated (pass %d): %s", pass, brief(sig))
				}
				continue
			}
			v, a, cc := adsbArgs(&o.cs)
			m := rawByName[o.cs.S[0]].call(v, a, cc, o.data)
			out.Obs["message compared with that of an earlier pass"]++
			if !m[1].IsNil() || !reflect.DeepEqual(m[0].Interface(), first[k].Interface()) {
				var b, c strings.Builder // DeepEqual differs: see whether what the message says does
				describe(&b, first[k], true)
				if m[1].IsNil() {
					describe(&c, m[0], true)
				}
				if b.String() != c.String() {
					bad(k, "the result changes when the calls are repeated (pass %d): %s", pass, firstDiff(b.String(), c.String()))
				}
			}
		}
		for k, o := range ops {
			if !bytes.Equal(o.all, o.ref) {
				bad(k, "the input or the bytes around it were modified: %x is now %x", o.ref, o.all)
				copy(o.all, o.ref)
			}
		}
	}
	for k, m := range first {
		if m.IsValid() {
			var b strings.Builder
			describe(&b, m, true)
			if s := b.String(); kept[k] != s {
				bad(k, "a message returned earlier changed while %d calls were made: %s", soakPasses*n, firstDiff(kept[k], s))
			}
			out.Obs["message looked at again at the end of a soak"]++
		}
	}
	if f := allowListsKept(); f != "" {
		bad(0, "%s", f)
	}
}

// answer is what one call says, without asking the methods of the message.
type answer struct {
	m     reflect.Value
	x, y  float64
	err   string
	panic string
}

func (o *pureOp) answer() (r answer) {
	defer func() {
		if e := recover(); e != nil {
			r = answer{panic: fmt.Sprint(e)}
		}
	}()
	fail := func(err error) {
		if err != nil {
			r.err = err.Error()
		}
	}
	c := &o.cs
	switch c.K {
	case "read":
		v, a, cc := adsbArgs(c)
		out := rawByName[c.S[0]].call(v, a, cc, o.data)
		if !out[1].IsNil() {
			fail(out[1].Interface().(error))
		} else {
			r.m = out[0]
		}
	case "crc":
		msg, err := modesreader.ReadMessage(o.data)
		if err != nil {
			fail(err)
			break
		}
		r.m = reflect.ValueOf(msg)
		a, err := modesreader.CheckCRC(msg, o.data, allowAddr, allowII)
		r.x = float64(a)
		fail(err)
	case "pair":
		y, x, err := globalPair(c.A[0] == 1, c.A[1], c.A[2], c.A[3], c.A[4], c.A[5] == 1, c.F)
		r.x, r.y = x, y
		fail(err)
	case "local":
		r.y, r.x = local(c.A[0] == 1, c.A[1], c.A[2], c.F[0], c.F[1], int(c.A[3]))
	case "dist":
		r.x = distance(c.F)
	case "gillham":
		v, err := gillhamOf(c.A[0])
		r.x = float64(v)
		fail(err)
	case "pack":
		u := uint32(c.A[0])
		r.x = float64(bitutils.Pack4Bytes(byte(u>>24), byte(u>>16), byte(u>>8), byte(u)))
		r.y = float64(bitutils.Pack3Bytes(byte(u>>16), byte(u>>8), byte(u)))
	}
	return r
}

// differs compares two answers, and says where they differ.
func (a answer) differs(b answer) string {
	switch {
	case a.panic != b.panic:
		return fmt.Sprintf("panic %q and %q", a.panic, b.panic)
	case a.err != b.err:
		return fmt.Sprintf("error %q and %q", a.err, b.err)
	case math.Float64bits(a.x) != math.Float64bits(b.x) || math.Float64bits(a.y) != math.Float64bits(b.y):
		return fmt.Sprintf("%v %v and %v %v", a.x, a.y, b.x, b.y)
	case a.m.IsValid() != b.m.IsValid():
		return "a message and none"
	case a.m.IsValid() && !reflect.DeepEqual(a.m.Interface(), b.m.Interface()):
		var s, t strings.Builder
		describe(&s, a.m, true)
		describe(&t, b.m, true)
		if s.String() != t.String() {
			return firstDiff(s.String(), t.String())
		}
	}
	return ""
}

// pureHammer lets 8 goroutines call one function, or two, over and over at the same time: each call must say what it says when
// it is alone. The calls of a round are compared after the round, so that nearly all the time of a round is spent in the
// functions and calls overlap.
func pureHammer(ops []*pureOp, out *pureOut, bad func(int, string, ...interface{}), r *Rand) {
	const G, perRound, rounds = 8, 384, 10
	runtime.GOMAXPROCS(G)
	groups := map[string][]int{}
	var keys []string
	for k, o := range ops {
		q := groupKey(&o.cs)
		if groups[q] == nil {
			keys = append(keys, q)
		}
		groups[q] = append(groups[q], k)
	}
	sort.Strings(keys)
	alone := make([]answer, len(ops))
	sigs := make([]uint64, len(ops))
	for k, o := range ops {
		alone[k] = o.answer()
		s, _ := o.run(o.data)
		sigs[k] = digest(s)
	}
	results := make([][]answer, G)
	walks := make([][]int, G)
	for g := range results {
		results[g] = make([]answer, perRound)
		walks[g] = make([]int, perRound)
	}
	round := func(body func(g int)) {
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				body(g)
			}(g)
		}
		close(start)
		wg.Wait()
	}
	for _, q := range keys {
		for n := 0; n < rounds; n++ {
			other := groups[q]
			if n%2 == 1 {
				other = groups[keys[r.N(len(keys))]]
			}
			for g := range walks {
				l := groups[q]
				if g%2 == 1 {
					l = other
				}
				for i := range walks[g] {
					walks[g][i] = l[r.N(len(l))]
				}
			}
			from, to := make([]time.Time, G), make([]time.Time, G)
			round(func(g int) {
				from[g] = time.Now()
				for i, k := range walks[g] {
					results[g][i] = ops[k].answer()
				}
				to[g] = time.Now()
			})
			out.Runs += G * perRound
			for g := range results {
				for i, k := range walks[g] {
					if d := alone[k].differs(results[g][i]); d != "" {
						bad(k, "a call says something else while other calls of %s are under way: %s", q, d)
					}
				}
				for h := 0; h < g; h++ {
					if from[g].Before(to[h]) && from[h].Before(to[g]) {
						out.Obs["pairs of goroutines that called at the same time"]++
					}
				}
			}
			if n >= 2 {
				continue
			}
			// with every method of what they return
			round(func(g int) {
				for _, k := range walks[g][:24] {
					if s, _ := ops[k].run(ops[k].data); digest(s) != sigs[k] {
						results[g][0] = answer{err: s, x: float64(k + 1)}
						return
					}
					results[g][0] = answer{}
				}
			})
			out.Runs += G * 24
			for g := range results {
				if x := results[g][0].x; x > 0 {
					k := int(x) - 1
					s, _ := ops[k].run(ops[k].data)
					bad(k, "a call, or a method of what it returned, says something else while other calls of %s are under way: %s", q, firstDiff(s, results[g][0].err))
				}
			}
		}
		out.Obs["functions called over and over by 8 goroutines"]++
	}
	for k, o := range ops {
		if !bytes.Equal(o.all, o.ref) {
			bad(k, "the input or the bytes around it were modified: %x is now %x", o.ref, o.all)
		}
		out.Digests[k] = sigs[k]
	}
}

// pureConcurrent lets 8 goroutines run all ops on shared inputs, and look at shared messages, at the same time.
func pureConcurrent(ops []*pureOp, out *pureOut, bad func(int, string, ...interface{}), r *Rand, want int) {
	const G = 8
	runtime.GOMAXPROCS(G)
	n := len(ops)
	// no shared messages before the start of the reading phase: a lazily built table must be built by the goroutines
	type span struct{ from, to int64 }
	digests := make([][]uint64, G)
	spans := make([][]span, G)
	orders := make([][]int, G)
	sigs := make([]string, G)
	msgs := make([]reflect.Value, n)
	for g := range orders {
		orders[g] = make([]int, n)
		for i := range orders[g] {
			orders[g][i] = i
		}
		if g >= G/2 { // the first half walks in step, the others each in their own order
			shuffle(r, orders[g])
		}
		digests[g] = make([]uint64, n)
		spans[g] = make([]span, n)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for _, k := range orders[g] {
				ops[k].bare(ops[k].data)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	out.Runs += G * n
	out.Obs["concurrent executions without a monitor between them"] += G * n
	t0 := time.Now()
	start = make(chan bool)
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for _, k := range orders[g] {
				from := time.Since(t0)
				sig, m := ops[k].run(ops[k].data)
				spans[g][k] = span{int64(from), int64(time.Since(t0))}
				digests[g][k] = digest(sig)
				if g == 0 {
					msgs[k] = m
				}
				if k == want {
					sigs[g] = sig
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for k := range ops {
		for g := 1; g < G; g++ {
			if digests[g][k] != digests[0][k] {
				bad(k, "goroutines running at the same time get different results for the same input")
			}
		}
		if !bytes.Equal(ops[k].all, ops[k].ref) {
			bad(k, "the input or the bytes around it were modified: %x is now %x", ops[k].ref, ops[k].all)
		}
	}
	if f := allowListsKept(); f != "" {
		bad(0, "%s", f)
	}
	out.Digests = digests[0]
	if want >= 0 {
		for g := range sigs {
			if digest(sigs[g]) != digests[0][want] || g == 0 {
				out.Sig = sigs[g]
			}
		}
	}
	out.Runs += G * n
	// which executions really overlapped
	type ev struct {
		at   int64
		open bool
		g, k int
	}
	var evs []ev
	for g := range spans {
		for k, s := range spans[g] {
			evs = append(evs, ev{s.from, true, g, k}, ev{s.to, false, g, k})
		}
	}
	sort.Slice(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	var open [G]int
	for g := range open {
		open[g] = -1
	}
	pairs := map[string]bool{}
	name := func(k int) string {
		if len(ops[k].cs.S) > 0 {
			return ops[k].cs.S[0]
		}
		return ops[k].cs.K
	}
	for _, e := range evs {
		if !e.open {
			open[e.g] = -1
			continue
		}
		for g, k := range open {
			if k >= 0 && g != e.g {
				out.Obs["overlapping executions"]++
				if k == e.k {
					out.Obs["overlapping executions of one input"]++
				}
				a, b := name(k), name(e.k)
				if a > b {
					a, b = b, a
				}
				pairs[a+" | "+b] = true
			}
		}
		open[e.g] = e.k
	}
	for p := range pairs {
		out.Obs["overlap:"+p]++
	}
	// the shared messages, looked at by all
	ds := make([][]uint64, G)
	start = make(chan bool)
	for g := 0; g < G; g++ {
		ds[g] = make([]uint64, n)
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for _, k := range orders[(g+3)%G] {
				if msgs[k].IsValid() {
					var b strings.Builder
					describe(&b, msgs[k], true)
					ds[g][k] = digest(b.String())
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for k := range ops {
		if msgs[k].IsValid() {
			out.Obs["message looked at by 8 goroutines"]++
			for g := 1; g < G; g++ {
				if ds[g][k] != ds[0][k] {
					bad(k, "goroutines looking at the same message at the same time see different contents")
				}
			}
		}
	}
}

func pureMain() int {
	var mode string
	var batch, n, want int
	p := strings.Split(*flagPure, ",")
	mode = p[0]
	fmt.Sscan(p[1], &batch)
	fmt.Sscan(p[2], &n)
	fmt.Sscan(p[3], &want)
	rawNames()
	out := pureChild(mode, batch, n, want)
	b, _ := json.Marshal(out)
	if err := os.WriteFile(filepath.Join(*flagDir, fmt.Sprintf("pure.%s.%d.%d", mode, batch, want)), b, 0o600); err != nil {
		die("%v", err)
	}
	return 0
}

// ---------------------------------------------------------------- parent

const exitRace = 66

func runPure(dir, mode string, batch, n, want int) (*pureOut, string) {
	bin := self()
	if mode != "concurrent" && *flagAux != "" {
		bin = *flagAux // the same monitors without the race detector, which has nothing to see in one goroutine
	}
	cmd := exec.Command(bin, "-prop", "C25", "-seed", fmt.Sprint(*flagSeed), "-dir", dir, "-pure", fmt.Sprintf("%s,%d,%d,%d", mode, batch, n, want))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=4")
	var eb tailBuffer
	cmd.Stderr = &eb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(240 * time.Second):
		cmd.Process.Kill()
		<-done
		return nil, "the batch does not end within 240 s: a deadlock or a hang"
	}
	if err != nil {
		code := cmd.ProcessState.ExitCode()
		if code == exitRace {
			return nil, "data race: " + raceText(eb.String())
		}
		if code == 2 && strings.HasPrefix(eb.String(), "harness:") {
			die("%s", eb.String())
		}
		return nil, crashText(code, eb.String())
	}
	f := filepath.Join(dir, fmt.Sprintf("pure.%s.%d.%d", mode, batch, want))
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	os.Remove(f)
	out := &pureOut{}
	if err := json.Unmarshal(b, out); err != nil {
		die("%v", err)
	}
	return out, ""
}

func raceText(s string) string {
	var at []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/pkg/") && strings.Contains(l, ".go:") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			at = append(at, l)
			if len(at) == 4 {
				break
			}
		}
	}
	return strings.Join(at, ", ")
}

func pureCustom(tier string, seed uint64) int {
	t0 := time.Now()
	rawNames()
	*flagSeed = seed
	batches, n := 32, 1200
	if isThorough(tier) {
		batches = 800
	}
	var list []int
	for b := 0; b < batches; b++ {
		list = append(list, b)
	}
	if *flagReplay != "" {
		var rf replayFile
		if b, err := os.ReadFile(*flagReplay); err == nil && json.Unmarshal(b, &rf) == nil && rf.Block >= 0 {
			list = []int{rf.Block}
		}
	}
	dir, err := os.MkdirTemp("", "modesverif")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	type result struct {
		batch int
		outs  map[string]*pureOut
		fail  string
		mode  string
		op    int
	}
	results := make([]result, len(list))
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for i, b := range list {
		wg.Add(1)
		go func(i, b int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			res := result{batch: b, outs: map[string]*pureOut{}, op: -1}
			defer func() { results[i] = res }()
			for _, mode := range pureModes {
				o, crash := runPure(dir, mode, b, n, -1)
				if crash != "" {
					res.fail, res.mode = crash, mode
					return
				}
				res.outs[mode] = o
				if o.Fail != "" {
					res.fail, res.mode, res.op = o.Fail, mode, o.Op
					return
				}
				first := res.outs[pureModes[0]]
				for k := range o.Digests {
					if o.Digests[k] != first.Digests[k] {
						res.mode, res.op = mode, k
						a, c1 := runPure(dir, pureModes[0], b, n, k)
						z, c2 := runPure(dir, mode, b, n, k)
						res.fail = "the result depends on what is decoded before it or at the same time"
						if c1 == "" && c2 == "" {
							res.fail += ": " + firstDiff(a.Sig, z.Sig)
						}
						return
					}
				}
			}
		}(i, b)
	}
	wg.Wait()
	// one after the other, so that the goroutines of one have the processors for themselves
	hammers := 12
	if isThorough(tier) {
		hammers = 200
	}
	for i, b := range list {
		if i >= hammers || results[i].fail != "" {
			continue
		}
		o, crash := runPure(dir, "hammer", b, n, -1)
		if crash == "" && o.Fail == "" {
			results[i].outs["hammer"] = o
			continue
		}
		results[i].mode, results[i].fail = "hammer", crash
		if crash == "" {
			results[i].fail, results[i].op = o.Fail, o.Op
		}
		break
	}
	total := &workerResult{Obs: map[string]int{}, Blocks: map[string]int{}}
	distinct := map[uint64]bool{}
	violations := 0
	var first *result
	pairs := 0
	for i := range results {
		res := &results[i]
		ops := pureBatch(seed, res.batch, n)
		for _, o := range ops {
			distinct[o.cs.hash()] = true
		}
		for mode, o := range res.outs {
			total.Evals += o.Runs
			total.Blocks[mode] += o.Runs
			for k, v := range o.Obs {
				if strings.HasPrefix(k, "overlap:") {
					k = "distinct pairs of functions that overlapped (summed over batches)"
					pairs++
				}
				total.Obs[k] += v
			}
		}
		if i == 0 {
			for k := 0; k < 6; k++ {
				total.Samples = append(total.Samples, ops[k*7].cs)
				total.SampleOf = append(total.SampleOf, "batch 0")
			}
		}
		if res.fail != "" {
			violations++
			if first == nil {
				first = res
			}
		}
	}
	total.Nontriv = total.Evals
	fmt.Printf("C25 %s seed=%d: %d batches of %d calls, %d executions (%d distinct inputs), %d overlapping, %.1f s\n", tier, seed, len(list), n,
		total.Evals, len(distinct), total.Obs["overlapping executions"], time.Since(t0).Seconds())
	exit := 0
	if first != nil {
		exit = 1
		rf := &replayFile{Property: "C25", Mode: "custom", Tier: tier, Seed: seed, Block: first.batch, What: fmt.Sprintf("%s (batch %d, %s)", first.fail, first.batch, first.mode)}
		if first.op >= 0 {
			c := pureBatch(seed, first.batch, n)[first.op].cs
			rf.Case, rf.K = &c, first.op
		}
		path := *flagReplay
		if path == "" {
			path = writeReplay(rf)
		}
		fmt.Printf("  what: %s\n", rf.What)
		if rf.Case != nil {
			fmt.Printf("  case: %s\n", rf.Case.String())
		}
		fmt.Printf("VIOLATION property=C25 replay=%s\n", path)
	}
	var missing []string
	for _, c := range []string{"read answered", "read refused", "crc answered", "crc refused", "pair answered", "local answered", "dist answered", "gillham answered",
		"overlapping executions", "overlapping executions of one input", "message looked at by 8 goroutines", "earlier message looked at again", "input buffer reused under a message", "message compared with that of an earlier pass", "concurrent executions without a monitor between them",
		"functions called over and over by 8 goroutines", "pairs of goroutines that called at the same time"} {
		if total.Obs[c] == 0 {
			missing = append(missing, c)
		}
	}
	if *flagReplay == "" {
		writeEvidence(props["C25"], total, len(distinct), violations, time.Since(t0).Seconds(), missing)
	} else if exit == 0 {
		fmt.Println("not reproduced: the property holds on this replay")
	}
	if exit == 0 && len(missing) > 0 && *flagReplay == "" {
		die("inconclusive: nothing observed for %v", missing)
	}
	return exit
}

func init() {
	register(&Prop{
		ID: "C25",
		Rule: "One evaluation is one execution of one call (a reader with every method of what it returns, the parity check with allow-lists, position, distance or packing functions) in a -race build. " +
			"Each call of a batch is executed by separate processes forwards, backwards, shuffled, by 8 goroutines at once and 60 times over in ever new orders; in some batches 8 goroutines also call one function, or two, over and over; all signatures must agree; non-trivial: the signature (all fields and all method results, or the error text) was compared; distinct inputs are counted.",
		Custom: pureCustom,
		Assume: []string{"the race detector sees every pair of conflicting accesses of the executions it watched that are not ordered by synchronisation; the harness adds none while goroutines run, apart from what fmt and reflect do themselves"},
	})
}
