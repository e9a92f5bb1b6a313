package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/twuillemin/modes/pkg/acas/ra"
	ra_fields "github.com/twuillemin/modes/pkg/acas/ra/fields"
	"github.com/twuillemin/modes/pkg/bds"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

// ---------------------------------------------------------------- accessors

// checkAccessors compares what the message says about itself through its methods with the bits.
func checkAccessors(c *Ctx, where string, m interface{}, g *Reg, b Bits) {
	call := func(name string) (reflect.Value, bool) {
		x, ok := inner(m, func(v interface{}) bool { return reflect.ValueOf(v).MethodByName(name).IsValid() })
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x).MethodByName(name).Call(nil)[0], true
	}
	num := func(v reflect.Value) int64 {
		if v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		switch v.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return int64(v.Uint())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return v.Int()
		case reflect.Bool:
			if v.Bool() {
				return 1
			}
			return 0
		}
		return -1
	}
	want := func(name string, w int64) {
		v, ok := call(name)
		if !ok {
			c.Fail("%s: no %s", where, name)
			return
		}
		if got := num(v); got != w {
			c.Fail("%s: %s gives %d, the bits say %d", where, name, got, w)
		}
	}
	switch {
	case strings.HasPrefix(g.Type, "bds09."), strings.HasPrefix(g.Type, "bds61."):
		want("GetSubtype", b.U(6, 8))
	case strings.HasPrefix(g.Type, "bds62."):
		want("GetSubtype", b.U(6, 7))
	case g == reg44V0: // the newest layout reports no source (pinned by an existing test)
		want("GetSource", b.U(1, 4))
	case g == reg45V0:
		want("GetTurbulenceStatus", b.U(1, 1))
	case g == reg45V1:
		want("GetTurbulenceStatus", b.U(38, 38))
	}
	if id := registerIDs[strings.SplitN(g.Type, ".", 2)[0]]; id != "" {
		if got := registerID(m); got != id {
			c.Fail("%s: the message says its register is %q, not %q", where, got, id)
		}
	}
}

var registerIDs = map[string]string{"bds00": "BDS 0,0", "bds05": "BDS 0,5", "bds06": "BDS 0,6", "bds07": "BDS 0,7", "bds08": "BDS 0,8", "bds09": "BDS 0,9",
	"bds10": "BDS 1,0", "bds17": "BDS 1,7", "bds20": "BDS 2,0", "bds30": "BDS 3,0", "bds40": "BDS 4,0", "bds44": "BDS 4,4", "bds45": "BDS 4,5",
	"bds50": "BDS 5,0", "bds60": "BDS 6,0", "bds61": "BDS 6,1", "bds62": "BDS 6,2", "bds65": "BDS 6,5"}

// ---------------------------------------------------------------- plausible content

// lim is a value with a physical limit: raw bits s (sign, 0 if none) and a..z, allowed lo..hi in raw steps.
type lim struct{ s, a, z, lo, hi int64 }

// plaus is what makes a register plausible.
type plaus struct {
	pairs  [][3]int // status bit, value a..z
	status []int    // at least one of these must be set (empty: not required)
	lims   []lim
	other  func(b Bits) bool
	gen    func(r *Rand, b Bits)
}

func (l lim) raw(b Bits) int64 {
	v := b.U(int(l.a), int(l.z))
	if l.s != 0 && b.U(int(l.s), int(l.s)) == 1 {
		v -= 1 << uint(l.z-l.a+1)
	}
	return v
}

func (l lim) set(b Bits, v int64) {
	b.Set(int(l.a), int(l.z), v)
	if l.s != 0 {
		b.Set(int(l.s), int(l.s), v>>63&1)
	}
}

var plausible = map[string]*plaus{
	"07": {other: func(b Bits) bool { return b.U(1, 2) != 3 }},
	"08": {other: func(b Bits) bool {
		tc := b.U(1, 5)
		return !strings.Contains(icaoString(b), "#") && tc != 1 && !(tc == 2 && b.U(6, 8) > 3)
	}, gen: legalName},
	"10": {other: func(b Bits) bool {
		if b.U(16, 16) == 0 {
			if b.U(37, 40) != 0 {
				return false
			}
		} else if b.U(39, 40) == 3 {
			return false
		}
		return b.U(17, 23) <= 5 && b.U(26, 28) <= 6 && b.U(29, 32) <= 6
	}, gen: func(r *Rand, b Bits) {
		if b.U(16, 16) == 0 && r.N(3) > 0 {
			b.Set(37, 40, 0)
		} else if r.N(4) > 0 {
			b.Set(39, 40, int64(r.N(3)))
		}
		b.Set(17, 23, int64(r.N(7)))
		b.Set(26, 28, int64(r.N(8)))
		b.Set(29, 32, int64(r.N(8)))
	}},
	"20": {other: func(b Bits) bool { return !strings.Contains(icaoString(b), "#") }, gen: legalName},
	"40": {pairs: [][3]int{{1, 2, 13}, {14, 15, 26}, {27, 28, 39}}, status: []int{1, 14, 27}},
	"44v0": {pairs: [][3]int{{5, 6, 14}, {5, 15, 23}, {35, 36, 46}, {47, 48, 49}, {50, 51, 56}}, status: []int{5, 35, 47, 50},
		lims:  []lim{{0, 6, 14, 0, 250}, {24, 25, 34, -320, 240}},
		other: func(b Bits) bool { return b.U(1, 4) < 5 }, gen: func(r *Rand, b Bits) { b.Set(1, 4, int64(r.N(6))) }},
	"44v1": {pairs: pairs44, status: []int{5, 15, 24, 36, 49}, lims: []lim{{0, 6, 14, 0, 250}, {25, 26, 35, -640, 480}}},
	"44v2": {pairs: pairs44, status: []int{5, 15, 24, 36, 49}, lims: []lim{{0, 6, 14, 0, 250}, {25, 26, 35, -640, 480}},
		other: func(b Bits) bool { return b.U(1, 4) < 5 }, gen: func(r *Rand, b Bits) { b.Set(1, 4, int64(r.N(6))) }},
	"45v0": {pairs: [][3]int{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {13, 14, 15}, {16, 17, 26}, {27, 28, 38}, {39, 40, 51}},
		status: []int{1, 4, 7, 10, 13, 16, 27, 39}, lims: []lim{{17, 18, 26, -320, 240}}},
	"45v1": {pairs: [][3]int{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {25, 26, 37}, {38, 39, 54}},
		status: []int{1, 4, 7, 10, 13, 25, 38}, other: func(b Bits) bool { // a temperature without status is left alone
			v := lim{14, 15, 24, -640, 480}
			return b.U(13, 13) == 0 || v.raw(b) >= v.lo && v.raw(b) <= v.hi
		}, gen: func(r *Rand, b Bits) {
			v := []int64{-640, 480, -641, 481, -641, 481, int64(r.N(1120)) - 640, int64(r.N(1120)) - 640}[r.N(8)]
			lim{14, 15, 24, 0, 0}.set(b, v)
			b.Set(13, 13, bitI(r.N(4) > 0))
		}},
	"50": {pairs: [][3]int{{1, 2, 11}, {12, 13, 23}, {24, 25, 34}, {35, 36, 45}, {46, 47, 56}}, status: []int{1, 12, 24, 35, 46},
		lims: []lim{{2, 3, 11, -284, 284}, {0, 25, 34, 0, 300}, {0, 47, 56, 0, 250}},
		other: func(b Bits) bool {
			d := b.U(25, 34) - b.U(47, 56)
			return d >= -100 && d <= 100
		},
		gen: func(r *Rand, b Bits) {
			if b.U(24, 24) == 0 || b.U(46, 46) == 0 {
				for _, x := range []int{25, 47} { // the missing speed counts as zero
					if b.U(x-1, x-1) == 1 && r.N(4) > 0 {
						b.Set(x, x+9, int64(r.N(103)))
					}
				}
				return
			}
			t := b.U(47, 56)
			d := []int64{0, 100, -100, 101, -101, int64(r.N(240)) - 120, int64(r.N(100)) - 50}[r.N(7)]
			if t+d >= 0 && t+d < 1024 {
				b.Set(25, 34, t+d)
			}
		}},
	"60": {pairs: [][3]int{{1, 2, 12}, {13, 14, 23}, {24, 25, 34}, {35, 36, 45}, {46, 47, 56}}, status: []int{1, 13, 24, 35, 46},
		lims: []lim{{0, 14, 23, 0, 500}, {0, 25, 34, 0, 250}, {36, 37, 45, -187, 187}, {47, 48, 56, -187, 187}}},
	"61n": {other: func(b Bits) bool { return b.U(9, 11) == 0 }},
	"61e": {other: func(b Bits) bool { return b.U(9, 11) != 7 }},
}

func legalName(r *Rand, b Bits) {
	bad := -1
	if r.N(5) == 0 {
		bad = r.N(8)
	}
	for p := 0; p < 8; p++ {
		v := int64(r.N(37))
		switch {
		case v == 0:
			v = 32
		case v > 26:
			v += 21
		}
		if p == bad {
			v = r.Pick(0, 27, 31, 33, 47, 58, 63, int64(r.N(64)))
		}
		b.Set(9+6*p, 14+6*p, v)
	}
}

// verdict is what the plausibility check must say of an accepted register.
func (p *plaus) verdict(b Bits) (bool, string) {
	if len(p.status) > 0 {
		any := false
		for _, s := range p.status {
			any = any || b.U(s, s) == 1
		}
		if !any {
			return false, "nothing is available"
		}
	}
	for _, x := range p.pairs {
		if b.U(x[0], x[0]) == 0 && b.U(x[1], x[2]) != 0 {
			return false, fmt.Sprintf("bits %d-%d carry a value that is not available", x[1], x[2])
		}
	}
	for _, l := range p.lims {
		if v := l.raw(b); v < l.lo || v > l.hi {
			return false, fmt.Sprintf("bits %d-%d are beyond the limit", l.a, l.z)
		}
	}
	if p.other != nil && !p.other(b) {
		return false, "a reserved or impossible combination"
	}
	return true, "possible"
}

// shape makes content plausible, or nearly so.
func (p *plaus) shape(r *Rand, b Bits) {
	few := r.N(3)
	for _, x := range p.pairs {
		if few == 0 {
			b.Set(x[0], x[0], bitI(r.N(3) == 0))
		} else if few == 1 {
			b.Set(x[0], x[0], bitI(r.N(8) > 0))
		}
	}
	for _, l := range p.lims {
		switch r.N(8) {
		case 0:
			l.set(b, l.lo)
		case 1:
			l.set(b, l.hi)
		case 2:
			l.set(b, l.hi+1)
		case 3:
			if l.lo != 0 {
				l.set(b, l.lo-1)
			}
		default:
			l.set(b, l.lo+int64(r.N(int(l.hi-l.lo+1))))
		}
	}
	if p.gen != nil {
		p.gen(r, b)
	}
	skip := -1
	if r.N(8) == 0 && len(p.pairs) > 0 {
		skip = r.N(len(p.pairs))
	}
	for i, x := range p.pairs {
		if b.U(x[0], x[0]) == 0 && i != skip {
			b.Set(x[1], x[2], 0)
		} else if i == skip {
			b.Set(x[0], x[0], 0)
		}
	}
}

func bitI(v bool) int64 {
	if v {
		return 1
	}
	return 0
}

// plausOf finds the rules of a layout (nil: nothing is ever rejected).
func plausOf(g *Reg) *plaus {
	switch g {
	case reg07:
		return plausible["07"]
	case regIdent:
		return plausible["08"]
	case reg10:
		return plausible["10"]
	case reg20:
		return plausible["20"]
	case reg40:
		return plausible["40"]
	case reg44V0:
		return plausible["44v0"]
	case reg44V1:
		return plausible["44v1"]
	case reg44V2:
		return plausible["44v2"]
	case reg45V0:
		return plausible["45v0"]
	case reg45V1:
		return plausible["45v1"]
	case reg50:
		return plausible["50"]
	case reg60:
		return plausible["60"]
	case regStatusNone:
		return plausible["61n"]
	case regStatusEmergency:
		return plausible["61e"]
	}
	return nil
}

// plausBlock generates content around the border between plausible and not.
func plausBlock(kind string, g *Reg, ints []int64, n int) Block {
	p := plausOf(g)
	return Block{kind + " " + g.Name + " plausible content", 128 * n, func(r *Rand, i int, emit func(Case)) {
		for k := 0; k < 256; k++ {
			b := background(r, 7, []int{2, 2, 2, 2, 0, 3}[r.N(6)])
			g.normalise(r, b)
			if p != nil {
				p.shape(r, b)
			}
			for _, z := range g.Zero {
				b.Set(z[0], z[1], 0)
			}
			g.ident(b)
			emit(Case{K: kind, D: b, A: ints})
		}
	}}
}

// ---------------------------------------------------------------- C14

func raCheck(c *Ctx, cs *Case) {
	switch cs.K {
	case "same":
		raSame(c, cs.D)
		return
	case "df16":
		raDF16(c, cs.D)
		return
	}
	checkEntry(c, cs, nil, func(g *Reg, m interface{}, b Bits) {
		off := 0
		switch cs.K {
		case "30":
			off = 1
		case "61a", "61", "status", "adsb":
			off = 1
		}
		if g != regRA && g != reg30 && g != regStatusACAS {
			return
		}
		raAccessors(c, m, Bits(b[off:off+6]))
	})
}

func findRA(m interface{}) *ra.ResolutionAdvisory {
	var out *ra.ResolutionAdvisory
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct || out != nil || !v.CanInterface() {
			return
		}
		if x, ok := v.Interface().(ra.ResolutionAdvisory); ok {
			out = &x
			return
		}
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i))
		}
	}
	walk(reflect.ValueOf(m))
	return out
}

func raAccessors(c *Ctx, m interface{}, b Bits) {
	x := findRA(m)
	if x == nil {
		c.Fail("%s carries no advisory", TypeName(m))
		return
	}
	kind := ra_fields.NoVerticalRAGenerated
	switch {
	case b.U(1, 1) == 1:
		kind = ra_fields.OneThreatOrSameSeparation
		c.Obs("one threat or same separation")
	case b.U(20, 20) == 1:
		kind = ra_fields.MultipleThreatDifferentSeparation
		c.Obs("multiple threats, different separation")
	default:
		c.Obs("no vertical advisory")
	}
	if x.ActiveRA == nil {
		c.Fail("the advisory has no active part")
		return
	}
	if got := x.ActiveRA.GetType(); got != kind {
		c.Fail("the advisory says its kind is %d, the bits say %d", got, kind)
		return
	}
	same := 0
	for _, k := range []ra_fields.RAType{ra_fields.OneThreatOrSameSeparation, ra_fields.MultipleThreatDifferentSeparation, ra_fields.NoVerticalRAGenerated} {
		if k == x.ActiveRA.GetType() {
			same++
		}
	}
	if same != 1 {
		c.Fail("the kind the advisory says it is, %d, is that of %d kinds", kind, same)
		return
	}
	c.Obs(fmt.Sprintf("threat type %d", b.U(21, 22)))
	if b.U(21, 22) == 2 && x.ThreatIdentityRange != nil && x.ThreatIdentityBearing != nil {
		if got, want := x.ThreatIdentityRange.GetRange(), raRange(b.U(36, 42)); got < want-1e-9 || got > want+1e-9 {
			c.Fail("threat range code %d is %v NM, the standard says %v", b.U(36, 42), got, want)
			return
		}
		// the bearing of code n is between 6(n-1) and 6n degrees; the accessor gives the middle
		if got, want := x.ThreatIdentityBearing.GetBearing(), raBearing(b.U(43, 48)); b.U(43, 48) <= 60 && got != want {
			c.Fail("threat bearing code %d is %v degrees, the standard says %v", b.U(43, 48), got, want)
		}
	}
}

// raSame: the same 48 bits in every carrier give the same advisory.
func raSame(c *Ctx, d []byte) {
	want, wok := readMsg(c, directs["ra"].rd, d)
	carriers := map[string]interface{}{}
	read := func(name string, rd *Reader, in []byte) {
		m, ok := readMsg(c, rd, in)
		if ok != wok {
			c.Fail("the same advisory is accepted by one carrier only (%s: %v, alone: %v)", name, ok, wok)
			return
		}
		if ok {
			carriers[name] = m
		}
	}
	read("3,0", directs["30"].rd, append([]byte{0x30}, d...))
	read("6,1", directs["61a"].rd, append([]byte{28<<3 | 2}, d...))
	read("6,1 through the ADS-B reader", rdADSB(2, false, false), append([]byte{28<<3 | 2}, d...))
	frame := make([]byte, 14)
	frame[0] = 16 << 3
	frame[4] = 0x30
	copy(frame[5:], d)
	m, err := modesreader.ReadMessage(frame)
	df16, ok := m.(*messages.MessageDF16)
	if err != nil || !ok || len(df16.MessageACAS) != 7 {
		c.Fail("an air-air reply with an advisory is not read (%v, %v)", TypeName(m), err)
		return
	}
	read("air-air reply", directs["ra"].rd, df16.MessageACAS[1:])
	if c.fail != "" {
		return
	}
	if !wok {
		c.Obs("same: refused by all carriers")
		c.NonTrivial()
		return
	}
	c.Obs("same: accepted by all carriers")
	ref := leafString(Flatten(findRA(want)))
	for n, m := range carriers {
		x := findRA(m)
		if x == nil {
			c.Fail("%s carries no advisory", n)
			return
		}
		if got := leafString(Flatten(x)); got != ref {
			c.Fail("the same advisory differs in %s: %s, alone: %s", n, got, ref)
			return
		}
	}
	c.NonTrivial()
}

func raDF16(c *Ctx, frame []byte) {
	m, err := modesreader.ReadMessage(frame)
	if err != nil || m == nil {
		return // the frame itself is another property's business
	}
	df16, ok := m.(*messages.MessageDF16)
	if !ok || len(df16.MessageACAS) != 7 || df16.MessageACAS[0] != 0x30 {
		c.Fail("the advisory of an air-air reply is not delivered (%s)", TypeName(m))
		return
	}
	c.Obs("df16")
	checkReg(c, directs["ra"].rd, regRA, df16.MessageACAS[1:])
	want := frame[5:11]
	g, ok := readMsg(c, directs["ra"].rd, df16.MessageACAS[1:])
	if ok {
		compareLeaves(c, "air-air reply", g, regRA.fields(Bits(want)), Bits(want))
		raAccessors(c, g, Bits(want))
	}
}

// ---------------------------------------------------------------- C18

// inference: registers in the order the standard reader tries them. The first three are conclusive.
var inferAlone = []string{"00", "07", "20"}
var inferAll = []string{"10", "17", "30", "40", "44", "45", "50", "60"}

type coherent interface{ CheckCoherency() error }

func ownReader(kind string, d []byte) (interface{}, bool) {
	m, err := directs[kind].rd.Fn(clone(d))
	if err != nil || IsNilResult(m) {
		return nil, false
	}
	x, ok := m.(coherent)
	if !ok || x.CheckCoherency() != nil {
		return nil, false
	}
	return m, true
}

func checkInference(c *Ctx, d []byte) {
	list, err := commb.ReadCommBMessage(clone(d))
	if len(d) != 7 {
		c.Obs("refused: length")
		c.NonTrivial()
		if err == nil || list != nil {
			c.Fail("%d bytes give %d messages, error %v", len(d), len(list), err)
		}
		return
	}
	if err != nil {
		c.Fail("a 7-byte field gives the error %v", err)
		return
	}
	var want []interface{}
	var names []string
	for _, k := range inferAlone {
		if m, ok := ownReader(k, d); ok {
			want, names = []interface{}{m}, []string{k}
			break
		}
	}
	if want == nil {
		for _, k := range inferAll {
			if m, ok := ownReader(k, d); ok {
				want = append(want, m)
				names = append(names, k)
			}
		}
	}
	class := strings.Join(names, "+")
	if class == "" {
		class = "none"
	}
	c.Obs(class)
	if len(names) > 1 {
		c.Obs("several registers")
	}
	if len(names) > 2 {
		c.Obs("three registers or more")
	}
	if len(names) > 3 {
		c.Obs("four registers or more")
	}
	got := make([]string, len(list))
	for i, m := range list {
		if IsNilResult(m) {
			c.Fail("message %d of the list is nil", i)
			return
		}
		got[i] = registerID(m)
	}
	if len(list) != len(want) {
		c.Fail("the field fits %s but the reader gives %v", class, got)
		return
	}
	for i := range want {
		if TypeName(list[i]) != TypeName(want[i]) {
			c.Fail("the field fits %s but the reader gives %v", class, got)
			return
		}
		if a, b := leafString(Flatten(list[i])), leafString(Flatten(want[i])); a != b {
			c.Fail("register %s differs from what its own reader returns: %s, own: %s", names[i], a, b)
			return
		}
		if got[i] != "BDS "+names[i][:1]+","+names[i][1:] {
			c.Fail("register %s says it is %s", names[i], got[i])
			return
		}
	}
	c.NonTrivial()
}

// inferGen writes content that is plausible for one register and often for a second.
func inferGen(r *Rand, b Bits) {
	regs := []*Reg{reg10, reg17, reg30, reg40, reg44V1, reg44V2, reg45V1, reg45V0, reg50, reg60, reg07, reg20}
	n := 1 + r.N(3)
	for k := 0; k < n; k++ {
		g := regs[r.N(len(regs))]
		if k == 0 {
			g.normalise(r, b)
		}
		if p := plausOf(g); p != nil {
			p.shape(r, b)
		}
		for _, z := range g.Zero {
			b.Set(z[0], z[1], 0)
		}
		g.ident(b)
	}
}

// inferUnion sets the status bits two registers ask for, so that both may fit.
func inferUnion(r *Rand, b Bits) {
	regs := []*Reg{reg17, reg40, reg44V1, reg44V2, reg45V1, reg50, reg60, reg10, reg30}
	x, y := regs[r.N(len(regs))], regs[r.N(len(regs))]
	for i := range b {
		b[i] &= byte(r.U64()) | byte(r.U64())
	}
	both := []*Reg{x, y}
	for pass := 0; pass < 3; pass++ {
		for _, g := range both {
			if p := plausOf(g); p != nil {
				for _, q := range p.pairs {
					if b.U(q[1], q[2]) != 0 && b.U(q[0], q[0]) == 0 {
						if r.N(3) == 0 {
							b.Set(q[1], q[2], 0)
						} else {
							b.Set(q[0], q[0], 1)
						}
					}
				}
				for _, l := range p.lims {
					if v := l.raw(b); (v < l.lo || v > l.hi) && r.N(2) == 0 {
						l.set(b, l.lo+int64(r.N(int(l.hi-l.lo+1))))
					}
				}
			}
			for _, z := range g.Zero {
				b.Set(z[0], z[1], 0)
			}
			g.ident(b)
		}
	}
}

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "One case is one 48-bit advisory, alone or in a carrier. Non-trivial: kind, detail bits, complement, indicators and threat identity were compared with the bits, or the advisory had to be refused and was, or all carriers were compared with each other.",
		Need: []string{"one threat or same separation", "multiple threats, different separation", "no vertical advisory", "threat type 0", "threat type 1", "threat type 2", "threat type 3",
			"ra refuses", "30 refuses", "61a AircraftStatusACAS", "df16", "same: accepted by all carriers", "same: refused by all carriers", "adsb AircraftStatusACAS"},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 40
			}
			var out []Block
			for _, k := range []string{"ra", "30", "61a"} {
				out = append(out, directBlocks(k, s)...)
			}
			out = append(out, entryBlocks("adsb", []*Reg{regStatusACAS}, [][]int64{vac(2, 0, 0)}, s)...)
			out = append(out, Block{"every 13-bit threat altitude with every range and bearing code", 8192, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 32*s; k++ {
					d := background(r, 6, []int{2, 0, 1, 3}[k%4])
					d.Set(21, 22, 2)
					d.Set(23, 35, int64(i))
					d.Set(36, 42, int64((i+k*37)%128))
					d.Set(43, 48, int64((i/3+k*11)%64))
					emit(Case{K: "ra", D: d})
				}
			}}, Block{"range by bearing", 8192, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 4*s; k++ {
					d := background(r, 6, []int{2, 0, 1, 3}[k%4])
					d.Set(21, 22, 2)
					p := modeCEncode(-1200 + 100*int64(r.N(1280)))
					d.Set(23, 35, p.order13(int64(r.N(2)), p.D1))
					d.Set(36, 48, int64(i))
					emit(Case{K: "ra", D: d})
				}
			}}, Block{"every first 22 bits sampled", 1 << 14, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 8*s; k++ {
					d := background(r, 6, []int{2, 2, 0, 1}[r.N(4)])
					d.Set(1, 22, int64(i)<<8|int64(r.N(256)))
					raGen(r, d)
					emit(Case{K: "ra", D: d})
				}
			}}, Block{"same advisory in every carrier", 2048 * s, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 16; k++ {
					d := background(r, 6, r.N(6))
					raGen(r, d)
					emit(Case{K: "same", D: d})
				}
			}}, Block{"air-air replies", 2048 * s, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 16; k++ {
					d := background(r, 6, r.N(6))
					raGen(r, d)
					f := make(Bits, 14)
					copy(f, r.Bytes(14))
					f.Set(1, 5, 16)
					modesRegs[16].Gen(r, f)
					f[4] = 0x30
					copy(f[5:], d)
					emit(Case{K: "df16", D: f})
				}
			}})
			return out
		},
		Check: func(c *Ctx, cs *Case) {
			if cs.K == "adsb" && (foreign(cs, 28) || len(cs.D) == 7 && Bits(cs.D).U(6, 8) != 2) {
				return
			}
			raCheck(c, cs)
		},
	})

	regs := func(id, rule string, kinds []string, need []string) {
		register(&Prop{
			ID: id, Rule: rule, Need: need,
			Blocks: func(th bool) []Block {
				s := 1
				if th {
					s = 40
				}
				var out []Block
				for _, k := range kinds {
					out = append(out, directBlocks(k, s)...)
					for _, g := range directs[k].gens {
						out = append(out, plausBlock(k, g, nil, s))
					}
				}
				// the fields of one register given to the others
				out = append(out, Block{"content of other registers", 1024 * s, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 32; k++ {
						b := background(r, 7, 2)
						inferGen(r, b)
						emit(Case{K: kinds[r.N(len(kinds))], D: b})
					}
				}})
				return out
			},
			Check: func(c *Ctx, cs *Case) {
				checkEntry(c, cs, nil, func(g *Reg, m interface{}, b Bits) { checkAccessors(c, directs[cs.K].rd.Name, m, g, b) })
			},
		})
	}
	regs("C15", "One case is one Comm-B field given to the 0,0, 0,7, 1,0 or 1,7 reader. Non-trivial: every reported capability was compared with its bits, or the field had to be refused and was.",
		[]string{"00", "07", "10", "17"}, []string{"00 0,0", "07 0,7", "10 1,0", "17 1,7", "00 refuses", "07 refuses", "10 refuses", "17 refuses", "10 refuses: length"})
	regs("C16", "One case is one Comm-B field given to the 4,0, 5,0 or 6,0 reader. Non-trivial: every status and value was compared with its bits, or the field had to be refused and was.",
		[]string{"40", "50", "60"}, []string{"40 4,0", "50 5,0", "60 6,0", "40 refuses", "40 refuses: length", "50 refuses: length", "60 refuses: length"})
	regs("C17", "One case is one Comm-B field given to a 4,4 or 4,5 reader. Non-trivial: version, source and every status and value were compared with the bits, or the field had to be refused and was.",
		[]string{"44", "44v0", "44v1", "44v2", "45", "45v0", "45v1"}, []string{"44 4,4 v1", "44 4,4 v2", "44v0 4,4 v0", "44v1 refuses", "44 refuses", "45 4,5 v1", "45v0 4,5 v0", "45 refuses", "45v1 refuses", "44 refuses: length"})

	register(&Prop{
		ID:   "C18",
		Rule: "One case is one byte string given to the Comm-B reader. Non-trivial: the list of registers, their order and their content were compared with what each register's own reader and plausibility check say, or the length had to be refused.",
		Need: []string{"00", "07", "20", "10", "17", "30", "40", "44", "45", "50", "60", "none", "several registers", "three registers or more", "refused: length"},
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 60
			}
			var out []Block
			for _, g := range []*Reg{reg00, reg07, reg20, reg10, reg17, reg30, reg40, reg44V1, reg44V2, reg45V1, reg45V0, reg50, reg60} {
				for _, b := range append(regBlocks("commb", g, nil, s)[:5], plausBlock("commb", g, nil, s)) {
					b.Name = g.Name + " " + b.Name
					if strings.Contains(b.Name, "pairs") {
						b.N = (b.N + 3) / 4
					}
					out = append(out, b)
				}
			}
			out = append(out, Block{"plausible for several", 4096 * s, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 64; k++ {
					b := background(r, 7, []int{2, 2, 3, 0}[r.N(4)])
					inferGen(r, b)
					emit(Case{K: "commb", D: b})
				}
			}}, Block{"status bits of two registers", 4096 * s, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 128; k++ {
					b := background(r, 7, 2)
					inferUnion(r, b)
					emit(Case{K: "commb", D: b})
				}
			}}, Block{"one or two bits set", 57 * 57, func(r *Rand, i int, emit func(Case)) {
				b := make(Bits, 7)
				for _, p := range []int{i / 57, i % 57} {
					if p > 0 {
						b.Set(p, p, 1)
					}
				}
				emit(Case{K: "commb", D: b})
			}}, Block{"raw bytes", 1024 * s, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 64; k++ {
					emit(Case{K: "commb", D: background(r, 7, r.N(6))})
				}
			}}, badLengths("commb", 7, nil, []byte{0x20, 0x04, 0x10, 0x41, 0x04, 0x10, 0x41}))
			return out
		},
		Check: func(c *Ctx, cs *Case) { checkInference(c, cs.D) },
	})

	register(&Prop{
		ID:   "C19",
		Rule: "One case is one field decoded by its reader. Non-trivial: the verdict of the plausibility check was compared with the model's.",
		Need: func() []string {
			var out []string
			for k := range plausible {
				out = append(out, k+" possible", k+" rejected")
			}
			return append(out, "never rejected", "adsb possible", "adsb rejected")
		}(),
		Blocks: func(th bool) []Block {
			s := 1
			if th {
				s = 40
			}
			var out []Block
			var kinds []string
			for k := range directs {
				kinds = append(kinds, k)
			}
			sortStrings(kinds)
			for _, k := range kinds {
				if k == "ra" {
					continue
				}
				for _, g := range directs[k].gens {
					bl := regBlocks(k, g, nil, s)
					for i := range bl {
						bl[i].Name = g.Name + " " + bl[i].Name
						if i == 1 {
							bl[i].N = (bl[i].N + 3) / 4
						}
					}
					if plausOf(g) == nil {
						bl = bl[2:4]
						for i := range bl {
							bl[i].N = (bl[i].N + 3) / 4
						}
						out = append(out, bl...)
						continue
					}
					out = append(out, bl[0], bl[1], bl[2], bl[3], plausBlock(k, g, nil, 2*s))
				}
			}
			for _, v := range []int64{0, 1, 2} {
				for _, g := range adsbLayouts(v, v&1, 0) {
					bl := regBlocks("adsb", g, vac(v, v&1, 0), s)
					bl[2].Name = g.Name + " " + bl[2].Name
					out = append(out, bl[2])
					if plausOf(g) != nil {
						out = append(out, plausBlock("adsb", g, vac(v, v&1, 0), s))
					}
				}
			}
			return out
		},
		Check: checkPlausible,
	})
}

func checkPlausible(c *Ctx, cs *Case) {
	var rd *Reader
	var g *Reg
	b := Bits(cs.D)
	if e := adsbEntries[cs.K]; e != nil {
		v, a, cc := adsbArgs(cs)
		rd, g = e.reader(v, a, cc), e.expect(v, a, cc, cs.D)
	} else {
		d := directs[cs.K]
		rd = d.rd
		if len(b) == 7 {
			if g = d.want(b); g != nil && !g.accepts(b) {
				g = nil
			}
		}
	}
	m, ok := readMsg(c, rd, cs.D)
	if g == nil || !ok || !hasType(m, g.Type) {
		return // what is accepted, and as what, is another property's business
	}
	x, has := m.(coherent)
	if !has {
		c.Fail("%s gives a message without a plausibility check", rd.Name)
		return
	}
	err := x.CheckCoherency()
	c.NonTrivial()
	name := cs.K
	if bm, isB := m.(bds.Message); isB && cs.K != "adsb" {
		_ = bm
	}
	want, why := true, "nothing to reject"
	if p := plausOf(g); p != nil {
		want, why = p.verdict(b)
		for k, q := range plausible {
			if q == p && cs.K != "adsb" {
				name = k
			}
		}
	} else {
		c.Obs("never rejected")
	}
	if want {
		c.Obs(name + " possible")
	} else {
		c.Obs(name + " rejected")
		c.Obs(name + " rejected: " + why)
	}
	if (err == nil) != want {
		c.Fail("%s: the plausibility check of a %s says %v, the content is: %s", rd.Name, g.Name, err, why)
	}
}
