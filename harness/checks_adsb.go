package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/twuillemin/modes/pkg/adsb"
	surfacefields "github.com/twuillemin/modes/pkg/adsb/surface_position/fields"
)

// checkEntry judges one ADS-B entry point (or a register's own reader) on one case.
// keep selects the fields to compare; after, if set, looks at the accepted message.
func checkEntry(c *Ctx, cs *Case, keep func(f *F) bool, after func(g *Reg, m interface{}, b Bits)) {
	var rd *Reader
	var g *Reg
	b := Bits(cs.D)
	if e := adsbEntries[cs.K]; e != nil {
		v, a, cc := adsbArgs(cs)
		rd = e.reader(v, a, cc)
		g = e.expect(v, a, cc, cs.D)
	} else {
		d := directs[cs.K]
		rd = d.rd
		if n := d.gens[0].length(); len(b) == n {
			g = d.want(b)
		}
		if g != nil && !g.accepts(b) {
			g = nil
		}
	}
	m, ok := readMsg(c, rd, cs.D)
	if g == nil {
		if len(b) != 7 {
			c.Obs(cs.K + " refuses: length")
		} else {
			c.Obs(cs.K + " refuses")
		}
		c.NonTrivial()
		if ok {
			c.Fail("%s accepts input that must be refused, as %s", rd.Name, TypeName(m))
		}
		return
	}
	c.Obs(cs.K + " " + g.Name)
	if !ok {
		c.Fail("%s refuses a valid %s", rd.Name, g.Name)
		return
	}
	if !hasType(m, g.Type) {
		c.Fail("%s decodes a %s as %s", rd.Name, g.Name, typeChain(m))
		return
	}
	f := g.fields(b)
	if keep != nil {
		var out []F
		for i := range f {
			if keep(&f[i]) {
				out = append(out, f[i])
			}
		}
		f = out
	}
	if keep != nil {
		compareSome(c, rd.Name, m, f, b)
	} else {
		compareLeaves(c, rd.Name, m, f, b)
	}
	if after != nil && c.fail == "" {
		after(g, m, b)
	}
}

// kindsBlocks is the workload of several entries; scale multiplies the random part.
func entryBlocks(kind string, regs []*Reg, opts [][]int64, scale int) []Block {
	var out []Block
	for _, g := range regs {
		for oi, o := range opts {
			s := scale
			bl := regBlocks(kind, g, o, s)
			for i := range bl {
				bl[i].Name = kind + " " + g.Name + strings.TrimPrefix(bl[i].Name, kind)
				if len(opts) > 1 && i == 1 && oi > 0 {
					bl[i].N = bl[i].N / len(opts) // pairs once for the first option, thinned for the others
				}
			}
			out = append(out, bl...)
		}
		id := make(Bits, 7)
		g.ident(id)
		out = append(out, badLengths(kind, 7, opts[0], id))
	}
	return out
}

func isIntegrity(p string) bool {
	switch p {
	case "HorizontalProtectionLimit", "ContainmentRadius", "HorizontalContainmentRadius", "NavigationIntegrityCategory",
		"NavigationIntegrityCodeSupplementA", "NavigationIntegrityCodeSupplementB":
		return true
	}
	return false
}

// foreign says whether an ADS-B case carries a type code that is another property's business.
func foreign(cs *Case, tcs ...int64) bool {
	if cs.K != "adsb" || len(cs.D) != 7 {
		return false
	}
	for _, t := range tcs {
		if Bits(cs.D).U(1, 5) == t {
			return false
		}
	}
	return true
}

func vac(v, a, c int64) []int64 { return []int64{v, a, c} }

// wantVersion is what GetADSBVersion must say (-1: not specified).
func wantVersion(g *Reg, v int64) int64 {
	switch {
	case strings.HasPrefix(g.Name, "OperationalStatus"):
		return int64(g.Name[len(g.Name)-1] - '0')
	}
	return v
}

var wantRegister = map[string]string{"airborne_position": "BDS 0,5", "surface_position": "BDS 0,6", "bds08": "BDS 0,8", "bds09": "BDS 0,9", "bds61": "BDS 6,1", "bds62": "BDS 6,2", "bds65": "BDS 6,5"}

// adsbRaw are blocks of raw 56-bit fields over every type code, option and shape.
func adsbRaw(s int) []Block {
	return []Block{
		{"every first byte, option and background", 256 * len(optCombos), func(r *Rand, i int, emit func(Case)) {
			o := optCombos[i%len(optCombos)]
			for k := 0; k < 24*s; k++ {
				b := background(r, 7, k%6)
				b[0] = byte(i / len(optCombos))
				emit(Case{K: "adsb", D: b, A: o})
			}
		}},
		{"every first and sixth byte", 65536, func(r *Rand, i int, emit func(Case)) {
			for k := 0; k < 2*s; k++ {
				b := background(r, 7, []int{2, 0, 3, 1}[r.N(4)])
				b[0], b[5] = byte(i>>8), byte(i)
				emit(Case{K: "adsb", D: b, A: optCombos[r.N(len(optCombos))]})
			}
		}},
		{"type code 0 with sparse content", 4096, func(r *Rand, i int, emit func(Case)) {
			for k := 0; k < 4*s; k++ {
				b := make(Bits, 7)
				b.Set(9, 20, int64(i))
				b.Set(6, 8, int64(r.N(8)))
				if k%2 == 1 {
					for n := 0; n <= r.N(2); n++ {
						p := 21 + r.N(36)
						b.Set(p, p, 1)
					}
				}
				emit(Case{K: "adsb", D: b, A: optCombos[r.N(len(optCombos))]})
			}
		}},
		{"versions beyond 2", 256 * s, func(r *Rand, i int, emit func(Case)) {
			for k := 0; k < 16; k++ {
				b := background(r, 7, 2)
				b.Set(1, 5, []int64{5, 6, 7, 8, 9, 11, 18, 20, 22}[r.N(9)])
				emit(Case{K: "adsb", D: b, A: vac(3+int64(r.N(250)), int64(r.N(2)), int64(r.N(2)))})
			}
		}},
	}
}

func adsbLayouts(v, a, c int64) []*Reg {
	out := []*Reg{regType0, regNoPosition, regIdent, surfacePos(v, a == 1, c == 1), airbornePos(v, a == 1)}
	for _, s := range []int64{1, 2, 3, 4} {
		out = append(out, velocityRegs[s])
	}
	out = append(out, regStatusNone, regStatusEmergency, regStatusACAS, regTarget0, regTarget1)
	return append(out, opsRegs...)
}

func init() {
	register(&Prop{
		ID:   "C06",
		Rule: "One case is one byte string given to the ADS-B reader or to one of its per-kind readers with a version and the two supplements. Non-trivial: it had to be refused and was, or kind, variant, type code, register and version were compared with the model.",
		Need: []string{"adsb AirbornePositionType0", "adsb NoPositionInformation", "adsb AircraftIdentificationAndCategory", "adsb SurfacePositionV0", "adsb SurfacePositionV1", "adsb SurfacePositionV2",
			"adsb AirbornePositionV0", "adsb AirbornePositionV1", "adsb AirbornePositionV2", "adsb GroundSpeedNormal", "adsb AirSpeedSupersonic", "adsb AircraftStatusNoInformation", "adsb AircraftStatusEmergency",
			"adsb AircraftStatusACAS", "adsb TargetStateAndStatus0", "adsb TargetStateAndStatus1", "adsb OperationalStatusADSB0", "adsb OperationalStatusAirborneADSB2", "adsb OperationalStatusSurfaceADSB1", "adsb refuses", "adsb refuses: length", "airborne refuses", "ops refuses"},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 10
			}
			out := adsbRaw(s)
			for _, v := range []int64{0, 1, 2} {
				for _, g := range adsbLayouts(v, v&1, 0) {
					g := g
					o := vac(v, v&1, 0)
					bl := regBlocks("adsb", g, o, s)
					for i := range bl {
						bl[i].Name = g.Name + " " + bl[i].Name
						if i == 1 {
							bl[i].N /= 2
						}
					}
					out = append(out, bl[1:]...)
				}
			}
			for _, k := range []string{"airborne", "airborne0", "airborne1", "airborne2", "surface", "surface0", "surface1", "surface2", "velocity", "ident", "status", "target", "ops", "type0", "nopos"} {
				k := k
				e := adsbEntries[k]
				out = append(out, Block{k + " wrapper", 256 * s, func(r *Rand, i int, emit func(Case)) {
					for n := 0; n < 24; n++ {
						o := optCombos[r.N(len(optCombos))]
						b := background(r, 7, []int{2, 2, 2, 3, 0, 1}[r.N(6)])
						b.Set(1, 5, e.tcs[r.N(len(e.tcs))])
						if g := e.want(o[0], o[1] == 1, o[2] == 1, b); g != nil && r.N(5) > 0 {
							tc := b.U(1, 5)
							g.normalise(r, b)
							if tcAirborne(tc) {
								b.Set(1, 5, tc)
							}
						}
						switch k {
						case "type0", "nopos":
							b.Set(1, 5, 0)
							if k == "nopos" {
								b.Set(21, 56, 0)
							}
						default:
							if r.N(8) == 0 {
								b.Set(1, 5, int64(r.N(32)))
							}
						}
						emit(Case{K: k, D: b, A: o})
					}
				}}, badLengths(k, 7, vac(int64(len(k)%3), 0, 1), []byte{byte(e.tcs[0] << 3)}))
			}
			for k := 0; k < 3; k++ {
				out = append(out, badLengths("adsb", 7, vac(int64(k), 1, 0), []byte{0x58}))
			}
			return out
		},
		Check: func(c *Ctx, cs *Case) {
			v, _, _ := adsbArgs(cs)
			checkEntry(c, cs, func(f *F) bool { return f.Path == "FormatTypeCode" }, func(g *Reg, m interface{}, b Bits) {
				if x, ok := m.(interface{ GetADSBVersion() adsb.ADSBVersion }); !ok {
					c.Fail("%s has no ADS-B version", TypeName(m))
				} else {
					want := wantVersion(g, v)
					switch {
					case strings.HasSuffix(g.Name, "PositionV0"):
						want = 0
					case strings.HasSuffix(g.Name, "PositionV1"):
						want = 1
					case strings.HasSuffix(g.Name, "PositionV2"):
						want = 2
					}
					if got := int64(x.GetADSBVersion()); got != want {
						c.Fail("a %s read as version %d says its version is %d, not %d", g.Name, v, got, want)
					}
				}
				pkg := g.Type[:strings.Index(g.Type, ".")]
				if want := wantRegister[pkg]; want != "" {
					if id := registerID(m); id != want {
						c.Fail("a %s says its register is %q", g.Name, id)
					}
				}
			})
		},
	})

	register(&Prop{
		ID:     "C07",
		Rounds: 16,
		Rule:   "One case is one position message with a version and the two supplements. Non-trivial: integrity category and containment class were compared with the standard's table.",
		Need: func() []string {
			var n []string
			for v := 0; v <= 2; v++ {
				for _, tc := range append([]int64{5, 6, 7, 8}, airborneTC...) {
					n = append(n, fmt.Sprintf("V%d TC%d", v, tc))
				}
			}
			return append(n, "type 0")
		}(),
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 64
			}
			var out []Block
			for _, k := range []string{"adsb", "airborne", "airborne0", "airborne1", "airborne2", "surface", "surface0", "surface1", "surface2", "type0", "nopos"} {
				k := k
				e := adsbEntries[k]
				var tcs []int64
				for _, t := range e.tcs {
					if t == 0 || t >= 5 && t <= 22 && t != 19 {
						tcs = append(tcs, t)
					}
				}
				out = append(out, Block{k, len(tcs) * 8 * len(optCombos), func(r *Rand, i int, emit func(Case)) {
					tc := tcs[i%len(tcs)]
					low := int64(i / len(tcs) % 8)
					o := optCombos[i/len(tcs)/8]
					for n := 0; n < 24*s; n++ {
						b := background(r, 7, []int{2, 0, 1, 2, 3, 4}[n%6])
						if tc == 0 || tcAirborne(tc) {
							for !altOK(b) {
								makeAltLegal(r, b)
							}
						}
						b.Set(1, 5, tc)
						b.Set(6, 8, low)
						if k == "nopos" {
							b.Set(21, 56, 0)
						}
						emit(Case{K: k, D: b, A: o})
					}
				}})
			}
			out = append(out, Block{"same bits, other version or supplements", 512 * s, func(r *Rand, i int, emit func(Case)) {
				tcs := adsbEntries["adsb"].tcs
				for n := 0; n < 8; n++ {
					b := background(r, 7, r.N(5))
					tc := int64(0)
					for tc != 0 && tc < 5 || tc > 22 || tc == 19 || tc == 0 && n > 0 {
						tc = tcs[r.N(len(tcs))]
					}
					if tc == 0 || tcAirborne(tc) {
						for !altOK(b) {
							makeAltLegal(r, b)
						}
					}
					b.Set(1, 5, tc)
					for k := 0; k < 12; k++ {
						emit(Case{K: "adsb", D: clone(b), A: optCombos[r.N(len(optCombos))]})
					}
				}
			}})
			out = append(out, Block{"limits", 4, func(r *Rand, i int, emit func(Case)) {
				emit(Case{K: "bounds", A: []int64{int64(5 + i)}})
			}})
			return out
		},
		Check: func(c *Ctx, cs *Case) {
			if cs.K == "bounds" {
				checkBounds(c, cs.A[0])
				return
			}
			v, _, _ := adsbArgs(cs)
			b := Bits(cs.D)
			if tc := b.U(1, 5); tc == 0 {
				c.Obs("type 0")
			} else {
				if k := cs.K[len(cs.K)-1]; k >= '0' && k <= '2' {
					v = int64(k - '0')
				}
				c.Obs(fmt.Sprintf("V%d TC%d", v, tc))
			}
			checkEntry(c, cs, func(f *F) bool { return isIntegrity(f.Path) }, nil)
		},
	})

	register(&Prop{
		ID:   "C08",
		Rule: "One case is one position message. Non-trivial: it was accepted and every field other than altitude and integrity was compared with the value of its bits.",
		Need: []string{"adsb AirbornePositionV0", "adsb AirbornePositionV1", "adsb AirbornePositionV2", "adsb SurfacePositionV0", "adsb SurfacePositionV1", "adsb SurfacePositionV2", "adsb AirbornePositionType0", "05 bds05", "06 bds06"},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 40
			}
			var out []Block
			for v := int64(0); v <= 2; v++ {
				o := [][]int64{vac(v, 0, 0)}
				if th {
					o = append(o, vac(v, 1, 1))
				}
				out = append(out, entryBlocks("adsb", []*Reg{airbornePos(v, false), surfacePos(v, false, false)}, o, s)...)
			}
			out = append(out, entryBlocks("adsb", []*Reg{regType0}, [][]int64{vac(0, 0, 0), vac(2, 1, 0)}, s)...)
			out = append(out, entryBlocks("airborne", []*Reg{airbornePos(1, true)}, [][]int64{vac(1, 1, 0)}, s)...)
			out = append(out, entryBlocks("surface", []*Reg{surfacePos(2, true, true)}, [][]int64{vac(2, 1, 1)}, s)...)
			return append(append(out, directBlocks("05", s)...), directBlocks("06", s)...)
		},
		Check: func(c *Ctx, cs *Case) {
			if foreign(cs, append([]int64{0, 5, 6, 7, 8}, airborneTC...)...) {
				return
			}
			checkEntry(c, cs, func(f *F) bool {
				return !isIntegrity(f.Path) && !strings.HasPrefix(f.Path, "Altitude")
			}, nil)
		},
	})

	register(&Prop{
		ID:   "C09",
		Rule: "One case is one velocity message. Non-trivial: every field was compared with the value of its bits, or the message had to be refused; for ground-speed subtypes the derived speed and track were compared with the model.",
		Need: []string{"09 GroundSpeedNormal", "09 GroundSpeedSupersonic", "09 AirSpeedNormal", "09 AirSpeedSupersonic", "09 refuses", "derived", "derived refused", "adsb GroundSpeedSupersonic"},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 20
			}
			var out []Block
			for _, k := range []string{"09", "09g1", "09g2", "09a1", "09a2"} {
				out = append(out, directBlocks(k, s)...)
			}
			all := []*Reg{velocityRegs[1], velocityRegs[2], velocityRegs[3], velocityRegs[4]}
			out = append(out, entryBlocks("adsb", all, [][]int64{vac(1, 0, 0)}, s)...)
			out = append(out, entryBlocks("velocity", all[:2], [][]int64{vac(2, 0, 0)}, s)...)
			n := 1
			if th {
				n = 16
			}
			out = append(out, Block{"both components", 1024, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 96*n; k++ {
					b := background(r, 7, 2)
					b.Set(1, 5, 19)
					b.Set(6, 8, int64(1+r.N(2)))
					b.Set(15, 24, int64(i))
					if r.N(4) == 0 {
						b.Set(26, 35, interesting(10)[r.N(len(interesting(10)))])
					}
					emit(Case{K: []string{"09", "adsb", "velocity"}[r.N(3)], D: b, A: vac(int64(r.N(3)), 0, 0)})
				}
			}})
			// raw fields of type code 19 with every subtype
			out = append(out, Block{"every subtype", 8, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 2000*n; k++ {
					b := background(r, 7, r.N(6))
					b.Set(1, 5, 19)
					b.Set(6, 8, int64(i))
					emit(Case{K: []string{"09", "adsb", "velocity", "09g1", "09g2", "09a1", "09a2"}[r.N(7)], D: b, A: vac(int64(r.N(3)), 0, 0)})
				}
			}})
			return out
		},
		Check: func(c *Ctx, cs *Case) {
			if foreign(cs, 19) {
				return
			}
			checkEntry(c, cs, nil, func(g *Reg, m interface{}, b Bits) {
				if !strings.HasPrefix(g.Name, "Ground") {
					return
				}
				x, ok := inner(m, func(v interface{}) bool { _, ok := v.(speedTrack); return ok })
				if !ok {
					c.Fail("%s gives no speed and track", TypeName(m))
					return
				}
				sp, se := x.(speedTrack).GetSpeed()
				tr, te := x.(speedTrack).GetTrack()
				ws, wt, wok := velocityDerived(b)
				if !wok {
					c.Obs("derived refused")
					if se == nil || te == nil {
						c.Fail("speed (%v, %v) or track (%v, %v) derived from a component without a regular value", sp, se, tr, te)
					}
					return
				}
				c.Obs("derived")
				if se != nil || te != nil {
					c.Fail("speed or track refused (%v, %v), they are %d kt and %.3f", se, te, ws, wt)
					return
				}
				if sp != ws {
					c.Fail("derived speed %d, the components give %d", sp, ws)
				}
				if tr < 0 || tr > 360 || tr != tr {
					c.Fail("derived track %v", tr)
				}
				d := math.Abs(float64(tr) - wt)
				if ws > 0 && math.Min(d, 360-d) > 1e-3 {
					c.Fail("derived track %v, the components give %.4f", tr, wt)
				}
			})
		},
	})

	register(&Prop{
		ID:     "C10",
		Rounds: 16,
		Rule:   "One case is one identification message or register 2,0. Non-trivial: eight characters and the category set and code were compared with the alphabet and the bits.",
		Need:   []string{"20 2,0", "08 AircraftIdentificationAndCategory", "adsb AircraftIdentificationAndCategory", "set A", "set B", "set C", "set D", "code outside the alphabet"},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 60
			}
			out := append(directBlocks("08", s), directBlocks("20", s)...)
			out = append(out, entryBlocks("adsb", []*Reg{regIdent}, [][]int64{vac(0, 0, 0), vac(2, 0, 0)}, s)...)
			out = append(out, entryBlocks("ident", []*Reg{regIdent}, [][]int64{vac(1, 0, 0)}, s)...)
			for _, k := range []string{"08", "20", "adsb"} {
				k := k
				out = append(out, Block{k + " pairs of adjacent characters", 7 * 64, func(r *Rand, i int, emit func(Case)) {
					p := i / 64
					for v := int64(0); v < 64; v++ {
						b := background(r, 7, []int{2, 0, 1}[r.N(3)])
						if k == "20" {
							b.Set(1, 8, 0x20)
						} else {
							b.Set(1, 5, 1+int64(r.N(4)))
						}
						b.Set(9+6*p, 14+6*p, int64(i%64))
						b.Set(15+6*p, 20+6*p, v)
						emit(Case{K: k, D: b, A: vac(int64(r.N(3)), 0, 0)})
					}
				}}, Block{k + " legal identifications", 256 * s, func(r *Rand, i int, emit func(Case)) {
					for n := 0; n < 64; n++ {
						b := make(Bits, 7)
						b[0] = byte(r.U64())
						if k == "20" {
							b[0] = 0x20
						} else {
							b.Set(1, 5, 1+int64(r.N(4)))
						}
						for p := 0; p < 8; p++ {
							v := int64(r.N(37))
							switch {
							case v == 0:
								v = 32
							case v > 26:
								v += 21
							}
							b.Set(9+6*p, 14+6*p, v)
						}
						emit(Case{K: k, D: b, A: vac(int64(r.N(3)), 0, 0)})
					}
				}})
			}
			return out
		},
		Check: func(c *Ctx, cs *Case) {
			if foreign(cs, 1, 2, 3, 4) {
				return
			}
			checkEntry(c, cs, func(f *F) bool { return f.Path != "Identification" }, func(g *Reg, m interface{}, b Bits) {
				want := icaoString(b)
				for _, l := range Flatten(m) {
					switch l.Path {
					case "Identification":
						got, _ := l.Val.(string)
						if len(got) != 8 {
							c.Fail("identification %q has %d characters", got, len(got))
							return
						}
						for i := range want {
							if want[i] == '#' {
								c.Obs("code outside the alphabet")
								if got[i] == ' ' || got[i] >= '0' && got[i] <= '9' || got[i] >= 'A' && got[i] <= 'Z' {
									c.Fail("character %d: code %d is outside the alphabet but reads %q", i+1, b.U(9+6*i, 14+6*i), got[i])
									return
								}
							} else if got[i] != want[i] {
								c.Fail("character %d: code %d reads %q, not %q (in %q)", i+1, b.U(9+6*i, 14+6*i), got[i], want[i], got)
								return
							}
						}
					case "Category":
						set := "DCBA"[b.U(1, 5)-1 : b.U(1, 5)]
						c.Obs("set " + set)
						if !strings.HasSuffix(l.Type, "Set"+set) {
							c.Fail("type code %d: the category is of type %s", b.U(1, 5), l.Type)
							return
						}
						x, ok := l.RV.Interface().(interface{ GetCategorySetName() string })
						if !ok || !strings.HasPrefix(x.GetCategorySetName(), "Set "+set) {
							c.Fail("type code %d: the category set is not named %s", b.U(1, 5), set)
						}
					}
				}
			})
		},
	})

	type afterFn = func(c *Ctx, g *Reg, m interface{}, b Bits)
	status := func(id, rule string, need []string, kinds []string, wrappers []string, regs []*Reg, tc int64, after afterFn) {
		register(&Prop{
			ID: id, Rule: rule, Need: need,
			Blocks: func(th bool) []Block {
				s := 1
				if th {
					s = 30
				}
				var out []Block
				for _, k := range kinds {
					out = append(out, directBlocks(k, s)...)
				}
				for _, w := range wrappers {
					out = append(out, entryBlocks(w, regs, [][]int64{vac(int64(len(w)%3), 0, 0)}, s)...)
				}
				all := append(append([]string{}, kinds...), wrappers...)
				out = append(out, Block{"every subtype and version", 2048, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 24*s; k++ {
						b := background(r, 7, k%6)
						b[0] = byte(i)
						b.Set(41, 43, int64(i>>8))
						if k%3 == 0 {
							b.Set(1, 5, tc)
						}
						for _, n := range all {
							emit(Case{K: n, D: clone(b), A: vac(int64(r.N(3)), int64(r.N(2)), 0)})
						}
					}
				}})
				return out
			},
			Check: func(c *Ctx, cs *Case) {
				if foreign(cs, tc) {
					return
				}
				checkEntry(c, cs, nil, func(g *Reg, m interface{}, b Bits) {
					if after != nil {
						after(c, g, m, b)
					}
				})
			},
		})
	}
	status("C11", "One case is one aircraft status message (6,1). Non-trivial: every field was compared with the value of its bits, or the message had to be refused.",
		[]string{"61 AircraftStatusNoInformation", "61 AircraftStatusEmergency", "61 AircraftStatusACAS", "61 refuses", "adsb AircraftStatusACAS", "status AircraftStatusEmergency", "61n refuses", "61e refuses"},
		[]string{"61", "61n", "61e", "61a"}, []string{"status", "adsb"}, []*Reg{regStatusNone, regStatusEmergency, regStatusACAS}, 28, nil)
	status("C12", "One case is one target state and status message (6,2). Non-trivial: every field was compared with the value of its bits, or the message had to be refused.",
		[]string{"62 TargetStateAndStatus0", "62 TargetStateAndStatus1", "62 refuses", "adsb TargetStateAndStatus1", "target TargetStateAndStatus0"},
		[]string{"62", "62s0", "62s1"}, []string{"target", "adsb"}, []*Reg{regTarget0, regTarget1}, 29, nil)
	status("C13", "One case is one operational status message (6,5). Non-trivial: every field and the reported ADS-B level were compared with the bits, or the message had to be refused.",
		[]string{"65 OperationalStatusADSB0", "65 OperationalStatusAirborneADSB1", "65 OperationalStatusSurfaceADSB1", "65 OperationalStatusAirborneADSB2", "65 OperationalStatusSurfaceADSB2", "65 refuses", "adsb OperationalStatusSurfaceADSB2", "ops OperationalStatusAirborneADSB1"},
		[]string{"65", "65v0", "65a1", "65s1", "65a2", "65s2"}, []string{"ops", "adsb"}, opsRegs, 31, func(c *Ctx, g *Reg, m interface{}, b Bits) {
			want := int64(g.Name[len(g.Name)-1] - '0')
			x, ok := inner(m, func(v interface{}) bool { _, ok := v.(adsbLevel); return ok })
			if !ok {
				c.Fail("%s reports no ADS-B level", TypeName(m))
				return
			}
			if got := int64(x.(adsbLevel).GetADSBLevel()); got != want {
				c.Fail("a %s reports ADS-B level %d", g.Name, got)
			}
		})
}

type adsbLevel interface{ GetADSBLevel() byte }

type speedTrack interface {
	GetSpeed() (uint32, error)
	GetTrack() (float32, error)
}

func checkBounds(c *Ctx, k int64) {
	c.Obs("limits")
	c.NonTrivial()
	hpl, cr := surfacefields.HorizontalProtectionLimit(k), surfacefields.ContainmentRadius(k)
	want := map[int64][4]float64{5: {-1, 7.5, -1, 3}, 6: {-1, 25, 3, 10}, 7: {-1, 185.2, 10, 92.6}, 8: {185.2, -1, 92.6, -1}}[k]
	got := [4]float64{hpl.GetHPLLowerBound(), hpl.GetHPLHigherBound(), cr.GetHorizontalContainmentLowerBound(), cr.GetHorizontalContainmentHigherBound()}
	if got != want {
		c.Fail("surface type code %d: protection limit and containment radius bounds are %v, the standard says %v", k, got, want)
	}
}
