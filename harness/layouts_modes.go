package main

import (
	"encoding/hex"
	"fmt"
	"strconv"
)

// Layouts of Mode S downlink frames, from ICAO Annex 10 Vol IV. Bits are numbered over the whole frame.

func fHex(path string, a, z int) F {
	return F{path, a, z, func(b Bits) interface{} { return hex.EncodeToString(b[(a-1)/8 : z/8]) }}
}

var dfShort = map[int64]bool{0: true, 4: true, 5: true, 11: true}

func dfAltitude(df int64) bool { return df == 0 || df == 4 || df == 16 || df == 20 }

func frameAltOK(b Bits) bool { _, _, ok := alt13(b.U(20, 32)); return ok }

func altFields() []F {
	return []F{
		fX("Altitude", 20, 32, func(b Bits) float64 { a, _, _ := alt13(b.U(20, 32)); return float64(a) }),
		fX("AltitudeReportMethod", 20, 32, func(b Bits) float64 { _, m, _ := alt13(b.U(20, 32)); return float64(m) }),
	}
}

func squawkText(v int64) string {
	a, b, c, d := squawk(v)
	return strconv.Itoa(int(a)) + strconv.Itoa(int(b)) + strconv.Itoa(int(c)) + strconv.Itoa(int(d))
}

func idFields() []F {
	return []F{fStr("Identity.Identity", 20, 32, func(b Bits) string { return squawkText(b.U(20, 32)) })}
}

// modesReg is the layout of a downlink format. parts: which groups of fields to compare.
func modesReg(df int64) *Reg {
	g := &Reg{Name: fmt.Sprintf("DF%d", df), Type: fmt.Sprintf("messages.MessageDF%d", df), Len: 14, Ident: [][3]int{{1, 5, int(df)}}}
	if dfShort[df] {
		g.Len = 7
	}
	vs := fU("VerticalStatus", 6, 6)
	sl := fU("SensitivityLevel", 9, 11)
	ri := fU("ReplyInformation", 14, 17)
	aa := fU("AddressAnnounced.Address", 9, 32)
	surv := []F{fU("FlightStatus", 6, 8), fU("DownlinkRequest", 9, 13), fU("UtilityMessage.InterrogatorIdentifier", 14, 17), fU("UtilityMessage.IdentifierDesignator", 18, 19)}
	switch df {
	case 0:
		g.Fields = []F{vs, fU("CrossLinkCapability", 7, 7), sl, ri}
	case 4, 5:
		g.Fields = surv
	case 11:
		g.Fields = []F{fU("Capability", 6, 8), aa}
	case 16:
		g.Fields = []F{vs, sl, ri, fHex("MessageACAS", 33, 88)}
	case 17:
		g.Fields = []F{fU("Capability", 6, 8), aa, fHex("MessageExtendedSquitter", 33, 88)}
	case 18:
		g.Fields = []F{fU("ControlField", 6, 8), aa, fHex("MessageExtendedSquitter", 33, 88)}
	case 19:
		g.Fields = []F{fU("ApplicationField", 6, 8)}
	case 20, 21:
		g.Fields = append(surv, fHex("MessageCommB", 33, 88))
	case 24:
		g.Fields = []F{fU("ControlELM", 4, 4), fU("NumberOfDSegment", 5, 8), fHex("MessageCommD", 9, 88)}
		g.Ident = [][3]int{{1, 2, 3}}
	}
	if dfAltitude(df) {
		g.Fields = append(g.Fields, altFields()...)
		g.Accept = frameAltOK
		g.Gen = func(r *Rand, b Bits) {
			if frameAltOK(b) || r.N(12) == 0 {
				return
			}
			if r.Bool() {
				b.Set(28, 28, 1)
				return
			}
			b.Set(20, 32, modeCEncode(-1200+100*int64(r.N(1280))).order13(0, 0))
		}
	}
	if df == 5 || df == 21 {
		g.Fields = append(g.Fields, idFields()...)
	}
	return g
}

var allDF = []int64{0, 4, 5, 11, 16, 17, 18, 19, 20, 21, 24}

var modesRegs = func() map[int64]*Reg {
	m := map[int64]*Reg{}
	for _, d := range allDF {
		m[d] = modesReg(d)
	}
	return m
}()

// modesVariant is the layout a frame must be decoded with (nil: refused).
func modesVariant(b Bits) *Reg {
	if len(b) != 7 && len(b) != 14 {
		return nil
	}
	df := b.U(1, 5)
	if df >= 24 {
		df = 24
	}
	g := modesRegs[df]
	if g == nil || g.Len != len(b) {
		return nil
	}
	return g
}

// only keeps the fields whose path is (or is not) in the list.
func only(f []F, keep bool, paths ...string) []F {
	var out []F
	for _, x := range f {
		in := false
		for _, p := range paths {
			in = in || p == x.Path
		}
		if in == keep {
			out = append(out, x)
		}
	}
	return out
}
