package main

import (
	"encoding/hex"
	"fmt"
	"reflect"

	"github.com/twuillemin/modes/pkg/bitutils"
	modescommon "github.com/twuillemin/modes/pkg/modes/common"
	modesfields "github.com/twuillemin/modes/pkg/modes/fields"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

var rdModeS = &Reader{"Mode S ReadMessage", func(d []byte) (interface{}, error) { m, err := modesreader.ReadMessage(d); return m, err }}

func unknownLengths(kind string) []Block {
	return []Block{badLengths(kind, -1, nil, []byte{0x8D, 0x4B, 0xAB, 0x45, 0x58, 0xAB, 3, 0x1C, 0x44, 0x68, 0x49, 0xB7, 0x25, 0x35})}
}

// framesBlocks is the workload of the Mode S reader.
func framesBlocks(scale int) []Block {
	var out []Block
	for _, df := range allDF {
		g := modesRegs[df]
		b := regBlocks("frame", g, nil, scale)
		for i := range b {
			b[i].Name = g.Name + " " + b[i].Name
		}
		out = append(out, b...)
	}
	return out
}

// ownParsers of the single formats: each takes its own format and length and says what the reader says.
var ownParsers = map[int64]func(d modescommon.MessageData) (interface{}, error){
	0:  func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF0(d); return m, e },
	4:  func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF4(d); return m, e },
	5:  func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF5(d); return m, e },
	11: func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF11(d); return m, e },
	16: func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF16(d); return m, e },
	17: func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF17(d); return m, e },
	18: func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF18(d); return m, e },
	19: func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF19(d); return m, e },
	20: func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF20(d); return m, e },
	21: func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF21(d); return m, e },
	24: func(d modescommon.MessageData) (interface{}, error) { m, e := messages.ParseDF24(d); return m, e },
}

func checkParsers(c *Ctx, b Bits, read interface{}, readOK bool) {
	if len(b) < 4 {
		return
	}
	n := len(b) - 3
	own := b.U(1, 5)
	if own >= 24 {
		own = 24
	}
	for _, df := range allDF {
		in := clone(b)
		d := modescommon.MessageData{DownLinkFormat: uint8(b.U(1, 5)), FirstField: uint8(b.U(6, 8)), Payload: in[1:n], Parity: in[n:]}
		m, err := ownParsers[df](d)
		if (err == nil) == IsNilResult(m) {
			c.Fail("ParseDF%d of a DF%d of %d bytes: message and error do not exclude each other (%v)", df, own, len(b), err)
			return
		}
		switch {
		case df != own || len(b) != modesRegs[df].Len:
			if err == nil {
				c.Fail("ParseDF%d accepts a DF%d of %d bytes", df, own, len(b))
				return
			}
		case (err == nil) != readOK:
			c.Fail("ParseDF%d and the reader disagree on a frame (%v)", df, err)
			return
		case readOK && !reflect.DeepEqual(m, read):
			c.Fail("ParseDF%d and the reader decode a frame differently", df)
			return
		}
	}
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "One case is one byte string given to the Mode S reader. Non-trivial: it was accepted and its type, format number, first field, payload and parity were compared with the frame, or it had to be refused and was.",
		Need: func() []string {
			n := []string{"refuse: length", "refuse: format", "refuse: altitude"}
			for _, d := range allDF {
				n = append(n, fmt.Sprintf("accept DF%d", d))
			}
			return n
		}(),
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 20
			}
			bl := framesBlocks(s)
			// every first byte with both lengths, and every length
			bl = append(bl, Block{"every first byte", 256, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 24*s; k++ {
					for _, n := range []int{7, 14} {
						b := background(r, n, r.N(6))
						b[0] = byte(i)
						emit(Case{K: "frame", D: b})
					}
				}
			}}, Block{"every first byte with every length", 256, func(r *Rand, i int, emit func(Case)) {
				for n := 1; n <= 34; n++ {
					b := background(r, n, r.N(6))
					b[0] = byte(i)
					emit(Case{K: "frame", D: b})
				}
			}}, Block{"every altitude code", 8192, func(r *Rand, i int, emit func(Case)) {
				for _, df := range []int64{0, 4, 16, 20, 5, 21, 17} {
					for k := 0; k < 2; k++ {
						b := background(r, modesRegs[df].Len, 2)
						modesRegs[df].ident(b)
						b.Set(20, 32, int64(i))
						emit(Case{K: "frame", D: b})
					}
				}
			}})
			return append(bl, unknownLengths("frame")...)
		},
		Check: func(c *Ctx, cs *Case) {
			m, ok := readMsg(c, rdModeS, cs.D)
			b := Bits(cs.D)
			g := modesVariant(b)
			switch {
			case g == nil && len(b) != 7 && len(b) != 14:
				c.Obs("refuse: length")
			case g == nil:
				c.Obs("refuse: format")
			case g.Accept != nil && !g.Accept(b):
				c.Obs("refuse: altitude")
				g = nil
			default:
				c.Obs("accept " + g.Name)
			}
			c.NonTrivial()
			checkParsers(c, b, m, ok)
			if g == nil {
				if ok {
					c.Fail("the reader accepts a frame that must be refused, as %s", TypeName(m))
				}
				return
			}
			if !ok {
				c.Fail("the reader refuses a valid %s frame", g.Name)
				return
			}
			if !hasType(m, g.Type) {
				c.Fail("a %s frame is decoded as %s", g.Name, TypeName(m))
				return
			}
			df := b.U(1, 5)
			want := df
			if df >= 24 {
				want = 24
			}
			if got := m.(messages.ModeSMessage).GetDownLinkFormat(); int64(got) != want {
				c.Fail("a DF%d frame says its downlink format is %d", df, got)
				return
			}
			n := len(b)
			compareSome(c, "frame", m, []F{fU("DownLinkFormat", 1, 5), fU("FirstField", 6, 8), fHex("Payload", 9, (n-3)*8), fHex("Parity", (n-3)*8+1, n*8)}, b)
		},
	})

	register(&Prop{
		ID:   "C02",
		Rule: "One case is one frame. Non-trivial: the frame was accepted and every assigned field was compared with the value of its bits.",
		Need: func() []string {
			var n []string
			for _, d := range allDF {
				n = append(n, fmt.Sprintf("DF%d", d))
			}
			return n
		}(),
		Blocks: func(th bool) []Block {
			if th {
				return framesBlocks(60)
			}
			return framesBlocks(2)
		},
		Check: func(c *Ctx, cs *Case) {
			b := Bits(cs.D)
			g := modesVariant(b)
			if g == nil || !g.accepts(b) {
				return
			}
			m, ok := readMsg(c, rdModeS, cs.D)
			if !ok {
				c.Fail("the reader refuses a valid %s frame", g.Name)
				return
			}
			c.Obs(g.Name)
			compareSome(c, g.Name, m, only(g.fields(b), false, "Altitude", "AltitudeReportMethod", "Identity.Identity"), b)
		},
	})

	register(&Prop{
		ID:     "C03",
		Rounds: 16,
		Rule:   "One case is one frame sealed by an independent bit-by-bit parity encoder, possibly corrupted afterwards, with optional allow-lists. Non-trivial: the verdict and returned value were compared with the model.",
		Need:   []string{"sealed DF11", "sealed DF17", "sealed DF18", "sealed DF24", "sealed DF20", "sealed DF0", "corrupt refused", "list refuses", "list accepts", "list ignored", "empty list", "large list", "list changed in place"},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 24
			}
			frame := func(r *Rand, df int64) Bits {
				for {
					g := modesRegs[df]
					b := background(r, g.Len, []int{2, 2, 0, 3, 4, 1}[r.N(6)])
					g.normalise(r, b)
					if df == 24 {
						b.Set(3, 5, int64(r.N(8)))
					}
					if g.accepts(b) {
						return b
					}
				}
			}
			overlay := func(r *Rand) uint32 {
				switch r.N(4) {
				case 0:
					return uint32(r.Pick(0, 1, 0xFFFFFF, 0x800000, 0x00FFFF, 0xFF0000, 0x10000, 0x100, 0x80, 0x3C6481))
				case 1:
					return uint32(r.N(128))
				}
				return uint32(r.U64() & 0xFFFFFF)
			}
			squit := func(r *Rand) Bits {
				b := frame(r, 17+int64(r.N(2)))
				seal(b, 0)
				return b
			}
			return []Block{
				{"sealed frames", 2048 * s, func(r *Rand, i int, emit func(Case)) {
					for _, df := range allDF {
						for k := 0; k < 8; k++ {
							b := frame(r, df)
							ov := overlay(r)
							if (df == 17 || df == 18) && k > 1 {
								ov = 0
							}
							seal(b, ov)
							emit(Case{K: "parity", D: b})
						}
					}
				}},
				{"one content bit at a time", 11 * 112, func(r *Rand, i int, emit func(Case)) {
					df := allDF[i/112]
					bit := i%112 + 1
					g := modesRegs[df]
					b := make(Bits, g.Len)
					if bit > 8*g.Len {
						return
					}
					b.Set(bit, bit, 1)
					g.ident(b)
					if g.accepts(b) {
						emit(Case{K: "parity", D: b})
						seal(b, overlay(r))
						emit(Case{K: "parity", D: clone(b)})
						seal(b, 0)
						emit(Case{K: "parity", D: clone(b)})
					}
				}},
				{"every pair of flipped bits", 112 * s, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 2; k++ {
						b := squit(r)
						x := i%112 + 1
						for y := x; y <= 112; y++ {
							d := Bits(clone(b))
							d.Set(x, x, 1-d.U(x, x))
							if y != x {
								d.Set(y, y, 1-d.U(y, y))
							}
							emit(Case{K: "corrupt", D: d})
						}
					}
				}},
				{"three to five flipped bits", 512 * s, func(r *Rand, i int, emit func(Case)) {
					b := squit(r)
					for k := 0; k < 128; k++ {
						d := Bits(clone(b))
						seen := map[int]bool{}
						n := 3 + r.N(3)
						for len(seen) < n {
							p := 1 + r.N(112)
							if seen[p] {
								continue
							}
							seen[p] = true
							d.Set(p, p, 1-d.U(p, p))
						}
						emit(Case{K: "corrupt", D: d})
					}
				}},
				{"bursts", 112 * s, func(r *Rand, i int, emit func(Case)) {
					b := squit(r)
					start := i%112 + 1
					for l := 1; l <= 24 && start+l-1 <= 112; l++ {
						for k := 0; k < 12; k++ {
							d := Bits(clone(b))
							for p := start; p < start+l; p++ {
								if p == start || p == start+l-1 || r.Bool() {
									d.Set(p, p, 1-d.U(p, p))
								}
							}
							emit(Case{K: "corrupt", D: d})
						}
					}
				}},
				{"wrong parity", 256 * s, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 64; k++ {
						b := frame(r, 17+int64(r.N(2)))
						seal(b, overlay(r))
						if k%4 == 0 {
							copy(b[11:], r.Bytes(3))
						}
						emit(Case{K: "parity", D: b})
					}
				}},
				{"allow-lists", 1024 * s, func(r *Rand, i int, emit func(Case)) {
					for _, df := range allDF {
						for k := 0; k < 8; k++ {
							b := frame(r, df)
							ov := overlay(r)
							if df == 17 || df == 18 {
								ov = 0
							}
							seal(b, ov)
							// A: bit 0 address list given, bit 1 interrogator list given, bit 2 in the address list, bit 3 in the interrogator list, then decoys
							// bit 4: the list is the one used before, its entries replaced in place; bit 5: the list is empty; bit 6: it is large
							a := []int64{int64(r.N(16)), int64(r.N(5))}
							switch r.N(6) {
							case 0, 1:
								a[0] |= 16
							case 2:
								a[0] |= 64
							case 3:
								if k == 0 {
									a[0] |= 32
								}
							}
							for x := int64(0); x < 4; x++ {
								switch r.N(4) {
								case 0:
									a = append(a, int64(ov)^(1<<uint(r.N(24))))
								case 1:
									a = append(a, 0)
								case 2:
									a = append(a, b.U(9, 32))
								default:
									a = append(a, int64(r.U64()&0xFFFFFF))
								}
							}
							emit(Case{K: "list", D: b, A: a})
						}
					}
				}},
			}
		},
		Check: checkParity,
	})

	register(&Prop{
		ID:     "C04",
		Rounds: 16,
		Rule:   "One case is one altitude code inside a frame or position message (every code of both fields, in every format and type code that carries it), or a Mode C altitude encoded by an independent encoder. Non-trivial: altitude, method and acceptance were compared with the model.",
		Need:   []string{"13-bit none", "13-bit metric", "13-bit 100 ft", "13-bit 25 ft", "13-bit illegal", "12-bit 100 ft", "12-bit 25 ft", "12-bit illegal", "Mode C altitude", "pulses", "source GNSS", "source baro"},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 16
			}
			return []Block{
				{"every 13-bit code in every format", 8192, func(r *Rand, i int, emit func(Case)) {
					for _, df := range []int64{0, 4, 16, 20} {
						for k := 0; k < 4*s; k++ {
							b := background(r, modesRegs[df].Len, []int{2, 0, 1}[k%3])
							modesRegs[df].ident(b)
							b.Set(20, 32, int64(i))
							emit(Case{K: "alt13", D: b})
						}
					}
				}},
				{"every 12-bit code in every type code", 4096, func(r *Rand, i int, emit func(Case)) {
					for _, tc := range append([]int64{0}, airborneTC...) {
						for v := int64(0); v <= 2; v++ {
							for k := 0; k < s; k++ {
								b := background(r, 7, []int{2, 0, 1}[r.N(3)])
								b.Set(1, 5, tc)
								b.Set(9, 20, int64(i))
								if tc == 0 && r.Bool() {
									b.Set(21, 56, 0)
								}
								emit(Case{K: "alt12", D: b, A: []int64{v, int64(r.N(2))}})
							}
						}
					}
				}},
				{"every Mode C altitude", 1280, func(r *Rand, i int, emit func(Case)) {
					emit(Case{K: "modec", A: []int64{-1200 + 100*int64(i)}})
				}},
				{"every pulse pattern", 4096, func(r *Rand, i int, emit func(Case)) {
					emit(Case{K: "pulses", A: []int64{int64(i)}})
				}},
			}
		},
		Check: checkAltitude,
	})

	register(&Prop{
		ID:     "C05",
		Rounds: 16,
		Rule:   "One case is one 13-bit identity field in a frame, or one input of a bit-packing helper. Non-trivial: the digits, the special-code predicates or the packed value were compared with the model.",
		Need:   []string{"squawk", "7700", "7600", "7500", "2000", "pack2", "pack3", "pack4", "pack8", "pack16"},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 40
			}
			return []Block{
				{"every identity code", 8192, func(r *Rand, i int, emit func(Case)) {
					for _, df := range []int64{5, 21} {
						for k := 0; k < 4*s; k++ {
							b := background(r, modesRegs[df].Len, []int{2, 0, 1}[k%3])
							modesRegs[df].ident(b)
							b.Set(20, 32, int64(i))
							emit(Case{K: "id", D: b})
						}
					}
				}},
				{"pack 2 bytes", 65536, func(r *Rand, i int, emit func(Case)) {
					emit(Case{K: "pack2", D: []byte{byte(i >> 8), byte(i)}})
				}},
				{"pack 16 bits", 65536, func(r *Rand, i int, emit func(Case)) {
					emit(Case{K: "pack16", A: []int64{int64(i)}})
				}},
				{"pack 8 bits", 256, func(r *Rand, i int, emit func(Case)) { emit(Case{K: "pack8", A: []int64{int64(i)}}) }},
				{"pack 3 bytes", 1024 * s, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 64; k++ {
						emit(Case{K: "pack3", D: background(r, 3, r.N(6))})
					}
				}},
				{"pack 4 bytes", 1024 * s, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 64; k++ {
						emit(Case{K: "pack4", D: background(r, 4, r.N(6))})
					}
				}},
			}
		},
		Check: checkIdentity,
	})
}

// keptLists are allow-lists that live as long as the process, as those of a receiver do.
var keptLists = [2]map[modescommon.ICAOAddress]bool{{}, {}}

// largeList has as many addresses as a busy sky.
var largeList = func() map[modescommon.ICAOAddress]bool {
	l := map[modescommon.ICAOAddress]bool{}
	for r := (&Rand{7}); len(l) < 1500; {
		l[modescommon.ICAOAddress(r.N(1<<24))] = true
	}
	return l
}()

func checkParity(c *Ctx, cs *Case) {
	b := Bits(cs.D)
	m, err := modesreader.ReadMessage(clone(cs.D))
	g := modesVariant(b)
	if err != nil || IsNilResult(m) {
		// corrupted frames may stop being frames at all: that is C01
		if g != nil && g.accepts(b) {
			c.Fail("the reader refuses a valid %s frame", g.Name)
		}
		return
	}
	if g == nil || !g.accepts(b) {
		return
	}
	content := crc24(b[:len(b)-3])
	parity := uint32(b[len(b)-3])<<16 | uint32(b[len(b)-2])<<8 | uint32(b[len(b)-1])
	over := int64(content ^ parity)
	df := b.U(1, 5)
	squitter := df == 17 || df == 18
	var addrs, iis map[modescommon.ICAOAddress]bool
	wantOK := true
	want := over
	if squitter {
		wantOK = over == 0
		want = b.U(9, 32)
	}
	class := ""
	if cs.K == "list" {
		mk := func(given, in bool, kept map[modescommon.ICAOAddress]bool) map[modescommon.ICAOAddress]bool {
			if !given {
				return nil
			}
			l := map[modescommon.ICAOAddress]bool{}
			switch {
			case cs.A[0]&32 != 0:
				c.Obs("empty list")
				return l
			case cs.A[0]&64 != 0:
				c.Obs("large list")
				for k := range largeList {
					l[k] = true
				}
				delete(l, modescommon.ICAOAddress(over))
			case cs.A[0]&16 != 0:
				c.Obs("list changed in place")
				l = kept
				for k := range l {
					delete(l, k)
				}
			}
			n := int(cs.A[1])
			if n == 0 && !in {
				n = 1
			}
			for k := 0; k < n && k < 4; k++ {
				if v := cs.A[2+k]; v != over {
					l[modescommon.ICAOAddress(v)] = true
				}
			}
			if in {
				l[modescommon.ICAOAddress(over)] = true
			}
			if len(l) == 0 {
				l[modescommon.ICAOAddress(over^1)] = true
			}
			return l
		}
		f := cs.A[0]
		addrs, iis = mk(f&1 == 1, f&4 != 0, keptLists[0]), mk(f&2 == 2, f&8 != 0, keptLists[1])
		used := addrs
		if df == 11 {
			used = iis
		}
		switch {
		case squitter:
			class = "list ignored"
		case len(used) == 0:
			class = "list ignored"
		case used[modescommon.ICAOAddress(over)]:
			class = "list accepts"
		default:
			class, wantOK = "list refuses", false
		}
	} else if cs.K == "corrupt" && squitter {
		class = "corrupt refused"
		if wantOK {
			c.Fail("harness: corruption left a valid parity")
			return
		}
	} else if !squitter || wantOK {
		class = "sealed " + g.Name
	} else {
		class = "wrong parity refused"
	}
	c.Obs(class)
	c.NonTrivial()
	got, err := modesreader.CheckCRC(m, clone(cs.D), addrs, iis)
	if wantOK {
		if err != nil {
			c.Fail("%s (%s): the parity check refuses a correct frame: %v", g.Name, class, err)
		} else if int64(got) != want {
			c.Fail("%s (%s): the parity check returns %06X, the frame carries %06X", g.Name, class, uint32(got), want)
		}
		return
	}
	if err == nil {
		c.Fail("%s (%s): the parity check accepts the frame and returns %06X", g.Name, class, uint32(got))
	}
}

var methodName = map[int64]string{methodNone: "none", methodMetric: "metric", methodGillham: "100 ft", methodQ: "25 ft"}

func leafNum(m interface{}, path string) (float64, bool) {
	for _, l := range Flatten(m) {
		if l.Path == path {
			v, ok, _ := numOf(l.Val)
			return v, ok
		}
	}
	return 0, false
}

// realInverse is the code of each Mode C altitude according to the decoder under test.
var realInverse map[int32]int64
var realDup string

func pulseBits(v int64) (d1, d2, d4, a1, a2, a4, b1, b2, b4, c1, c2, c4 bool) {
	t := func(k uint) bool { return v>>k&1 == 1 }
	// order of the 12-bit field: C1 A1 C2 A2 C4 A4 B1 D1 B2 D2 B4 D4
	return t(4), t(2), t(0), t(10), t(8), t(6), t(5), t(3), t(1), t(11), t(9), t(7)
}

func gillhamOf(v int64) (int32, error) {
	return bitutils.GillhamToAltitude(pulseBits(v))
}

func checkAltitude(c *Ctx, cs *Case) {
	switch cs.K {
	case "alt13":
		b := Bits(cs.D)
		alt, method, ok := alt13(b.U(20, 32))
		m, got := readMsg(c, rdModeS, cs.D)
		c.NonTrivial()
		if !ok {
			c.Obs("13-bit illegal")
			if got {
				c.Fail("altitude code %04x is illegal but decodes: %s", b.U(20, 32), leafString(Flatten(m)))
			}
			return
		}
		c.Obs("13-bit " + methodName[method])
		if !got {
			c.Fail("altitude code %04x is refused, it means %d ft (method %s)", b.U(20, 32), alt, methodName[method])
			return
		}
		compareSome(c, "frame", m, altFields(), b)
	case "alt12":
		b := Bits(cs.D)
		tc := b.U(1, 5)
		alt, method, ok := alt12(b.U(9, 20))
		rd := rdADSB(cs.A[0], cs.A[1] == 1, false)
		m, got := readMsg(c, rd, cs.D)
		c.NonTrivial()
		if !ok {
			c.Obs("12-bit illegal")
			if got {
				c.Fail("altitude code %03x is illegal but decodes: %s", b.U(9, 20), leafString(Flatten(m)))
			}
			return
		}
		if method == 0 {
			c.Obs("12-bit 100 ft")
		} else {
			c.Obs("12-bit 25 ft")
		}
		if !got {
			c.Fail("altitude code %03x is refused, it means %d ft", b.U(9, 20), alt)
			return
		}
		if tc == 0 && b.U(21, 56) == 0 {
			compareSome(c, "no position", m, []F{fK("AltitudeBarometric", float64(alt))}, b)
			return
		}
		src := 0.0
		if tc >= 20 {
			src = 1
			c.Obs("source GNSS")
		} else {
			c.Obs("source baro")
		}
		compareSome(c, "position", m, []F{fK("AltitudeInFeet", float64(alt)), fK("AltitudeReportMethod", float64(method)), fK("AltitudeSource", src)}, b)
	case "pulses":
		c.Obs("pulses")
		c.NonTrivial()
		want, ok := modeC[cs.A[0]]
		got, err := gillhamOf(cs.A[0])
		if ok != (err == nil) || ok && int64(got) != want {
			c.Fail("pulse pattern %03x (C1 A1 C2 A2 C4 A4 B1 D1 B2 D2 B4 D4) gives %d, %v; the standard says %d, legal: %v", cs.A[0], got, err, want, ok)
		}
	case "modec":
		alt := cs.A[0]
		c.Obs("Mode C altitude")
		c.NonTrivial()
		if realInverse == nil {
			realInverse = map[int32]int64{}
			for v := int64(0); v < 4096; v++ {
				if a, err := gillhamOf(v); err == nil {
					if o, dup := realInverse[a]; dup && realDup == "" {
						realDup = fmt.Sprintf("pulse patterns %03x and %03x both decode to %d ft", o, v, a)
					}
					realInverse[a] = v
				}
			}
		}
		if realDup != "" {
			c.Fail("%s", realDup)
			return
		}
		code, ok := realInverse[int32(alt)]
		if !ok {
			c.Fail("no code decodes to %d ft", alt)
			return
		}
		if want := drop7(modeCEncode(alt).order13(0, 0)); code != want {
			c.Fail("%d ft is decoded from %03x, the encoder gives %03x", alt, code, want)
			return
		}
		if alt > -1200 {
			if prev, ok := realInverse[int32(alt-100)]; !ok || popcount(uint64(prev^code)) != 1 {
				c.Fail("%d and %d ft differ in %d pulses", alt-100, alt, popcount(uint64(prev^code)))
				return
			}
		}
		// through frames and positions
		b := make(Bits, 7)
		b.Set(1, 5, 4)
		b.Set(20, 32, modeCEncode(alt).order13(0, 0))
		if m, ok := readMsg(c, rdModeS, b); !ok {
			c.Fail("DF4: Mode C altitude %d refused", alt)
		} else if v, _ := leafNum(m, "Altitude"); int64(v) != alt {
			c.Fail("DF4: Mode C altitude %d decodes to %v", alt, v)
		}
		p := make(Bits, 7)
		p.Set(1, 5, 11)
		p.Set(9, 20, drop7(modeCEncode(alt).order13(0, 0)))
		if m, ok := readMsg(c, rdADSB(0, false, false), p); !ok {
			c.Fail("position: Mode C altitude %d refused", alt)
		} else if v, _ := leafNum(m, "AltitudeInFeet"); int64(v) != alt {
			c.Fail("position: Mode C altitude %d decodes to %v", alt, v)
		}
	}
}

func popcount(v uint64) int {
	n := 0
	for ; v != 0; v &= v - 1 {
		n++
	}
	return n
}

func checkIdentity(c *Ctx, cs *Case) {
	c.NonTrivial()
	switch cs.K {
	case "id":
		b := Bits(cs.D)
		m, ok := readMsg(c, rdModeS, cs.D)
		if !ok {
			c.Fail("the reader refuses a valid identity reply")
			return
		}
		c.Obs("squawk")
		var id modesfields.Identity
		switch x := m.(type) {
		case *messages.MessageDF5:
			id = x.Identity
		case *messages.MessageDF21:
			id = x.Identity
		default:
			c.Fail("identity reply decoded as %s", TypeName(m))
			return
		}
		want := squawkText(b.U(20, 32))
		if id.Identity != want {
			c.Fail("identity code %04x is reported as %q, it is %s", b.U(20, 32), id.Identity, want)
			return
		}
		for _, p := range []struct {
			code string
			got  bool
		}{{"7700", id.IsSpecialEmergency()}, {"7600", id.IsSpecialRadiocommunicationFailure()},
			{"7500", id.IsSpecialUnlawfulInterference()}, {"2000", id.IsSpecialInstructionNotReceived()}} {
			if want == p.code {
				c.Obs(p.code)
			}
			if p.got != (want == p.code) {
				c.Fail("squawk %s: the predicate for %s is %v", want, p.code, p.got)
			}
		}
	case "pack2":
		c.Obs("pack2")
		if got := bitutils.Pack2Bytes(cs.D[0], cs.D[1]); uint64(got) != be(cs.D) {
			c.Fail("Pack2Bytes(%s) = %x", hex.EncodeToString(cs.D), got)
		}
	case "pack3":
		c.Obs("pack3")
		if got := bitutils.Pack3Bytes(cs.D[0], cs.D[1], cs.D[2]); uint64(got) != be(cs.D) {
			c.Fail("Pack3Bytes(%s) = %x", hex.EncodeToString(cs.D), got)
		}
	case "pack4":
		c.Obs("pack4")
		if got := bitutils.Pack4Bytes(cs.D[0], cs.D[1], cs.D[2], cs.D[3]); uint64(got) != be(cs.D) {
			c.Fail("Pack4Bytes(%s) = %x", hex.EncodeToString(cs.D), got)
		}
	case "pack8":
		c.Obs("pack8")
		v := cs.A[0]
		t := func(k uint) bool { return v>>k&1 == 1 }
		if got := bitutils.Pack8Bits(t(7), t(6), t(5), t(4), t(3), t(2), t(1), t(0)); int64(got) != v {
			c.Fail("Pack8Bits of %02x = %02x", v, got)
		}
	case "pack16":
		c.Obs("pack16")
		v := cs.A[0]
		t := func(k uint) bool { return v>>k&1 == 1 }
		if got := bitutils.Pack16Bits(t(15), t(14), t(13), t(12), t(11), t(10), t(9), t(8), t(7), t(6), t(5), t(4), t(3), t(2), t(1), t(0)); int64(got) != v {
			c.Fail("Pack16Bits of %04x = %04x", v, got)
		}
	}
}

func be(d []byte) uint64 {
	var v uint64
	for _, x := range d {
		v = v<<8 | uint64(x)
	}
	return v
}
