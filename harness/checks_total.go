package main

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/commb"
	modescommon "github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

// rawReader is a public reader as it is, so that what it returns is seen before any conversion.
type rawReader struct {
	name string
	fn   reflect.Value
	regs []*Reg // layouts used to make content it accepts
	n    int    // the length it wants
}

func rawOf(fn interface{}, n int, regs ...*Reg) *rawReader {
	v := reflect.ValueOf(fn)
	name := runtime.FuncForPC(v.Pointer()).Name()
	name = name[strings.Index(name, "/pkg/")+5:]
	return &rawReader{name, v, regs, n}
}

var rawReaders = func() []*rawReader {
	adsbAll := []*Reg{}
	frames := []*Reg{}
	for _, d := range allDF {
		frames = append(frames, modesRegs[d])
	}
	for v := int64(0); v <= 2; v++ {
		adsbAll = append(adsbAll, adsbLayouts(v, 0, 0)...)
	}
	pos := func(v int64) []*Reg { return []*Reg{airbornePos(v, false)} }
	sur := func(v int64) []*Reg { return []*Reg{surfacePos(v, false, false)} }
	vel := []*Reg{velocityRegs[1], velocityRegs[2], velocityRegs[3], velocityRegs[4]}
	sta := []*Reg{regStatusNone, regStatusEmergency, regStatusACAS}
	tgt := []*Reg{regTarget0, regTarget1}
	comm := []*Reg{reg00, reg07, reg20, reg10, reg17, reg30, reg40, reg44V1, reg44V2, reg45V1, reg45V0, reg50, reg60}
	return []*rawReader{
		rawOf(modesreader.ReadMessage, 14, frames...),
		rawOf(adsbreader.ReadADSBMessage, 7, adsbAll...),
		rawOf(commb.ReadCommBMessage, 7, comm...),
		rawOf(ra.ReadResolutionAdvisory, 6, regRA),
		rawOf(airborne_position.ReadAirbornePosition, 7, airbornePos(0, false), airbornePos(1, false), airbornePos(2, false), regType0),
		rawOf(airborne_position.ReadAirbornePositionV0, 7, pos(0)...),
		rawOf(airborne_position.ReadAirbornePositionV1, 7, pos(1)...),
		rawOf(airborne_position.ReadAirbornePositionV2, 7, pos(2)...),
		rawOf(airborne_position.ReadAirbornePositionType0, 7, regType0),
		rawOf(no_position_information.ReadNoPositionInformation, 7, regNoPosition),
		rawOf(surface_position.ReadSurfacePosition, 7, surfacePos(0, false, false), surfacePos(2, true, true)),
		rawOf(surface_position.ReadSurfacePositionV0, 7, sur(0)...),
		rawOf(surface_position.ReadSurfacePositionV1, 7, sur(1)...),
		rawOf(surface_position.ReadSurfacePositionV2, 7, sur(2)...),
		rawOf(airborne_velocity.ReadAirborneVelocity, 7, vel...),
		rawOf(aircraft_identification_and_category.ReadAircraftIdentificationAndCategory, 7, regIdent),
		rawOf(aircraft_status.ReadAircraftStatus, 7, sta...),
		rawOf(target_state_and_status.ReadTargetStateAndStatus, 7, tgt...),
		rawOf(aircraft_operational_status.ReadAircraftOperationalStatus, 7, opsRegs...),
		rawOf(bds00.ReadNoMessageAvailable, 7, reg00),
		rawOf(bds05.ReadAirbornePosition, 7, regBDS05),
		rawOf(bds06.ReadSurfacePosition, 7, regBDS06),
		rawOf(bds07.ReadStatus, 7, reg07),
		rawOf(bds08.ReadAircraftIdentificationAndCategory, 7, regIdent),
		rawOf(bds09.ReadAirborneVelocity, 7, vel...),
		rawOf(bds09.ReadAirborneVelocityGroundSpeedNormal, 7, vel[0]),
		rawOf(bds09.ReadAirborneVelocityGroundSpeedSupersonic, 7, vel[1]),
		rawOf(bds09.ReadAirborneVelocityAirSpeedNormal, 7, vel[2]),
		rawOf(bds09.ReadAirborneVelocityAirSpeedSupersonic, 7, vel[3]),
		rawOf(bds10.ReadDataLinkCapabilityReport, 7, reg10),
		rawOf(bds17.ReadCommonUsageGICBCapabilityReport, 7, reg17),
		rawOf(bds20.ReadAircraftIdentification, 7, reg20),
		rawOf(bds30.ReadACASResolutionAdvisory, 7, reg30),
		rawOf(bds40.ReadSelectedVerticalIntention, 7, reg40),
		rawOf(bds44.ReadMeteorologicalRoutineAirReport, 7, reg44V1, reg44V2),
		rawOf(bds44.ReadMeteorologicalRoutineAirReportV0, 7, reg44V0),
		rawOf(bds44.ReadMeteorologicalRoutineAirReportV1, 7, reg44V1),
		rawOf(bds44.ReadMeteorologicalRoutineAirReportV2, 7, reg44V2),
		rawOf(bds45.ReadMeteorologicalHazardReport, 7, reg45V1, reg45V0),
		rawOf(bds45.ReadMeteorologicalHazardReportV0, 7, reg45V0),
		rawOf(bds45.ReadMeteorologicalHazardReportV1, 7, reg45V1),
		rawOf(bds50.ReadTrackAndTurnReport, 7, reg50),
		rawOf(bds60.ReadHeadingAndSpeedReport, 7, reg60),
		rawOf(bds61.ReadAircraftStatus, 7, sta...),
		rawOf(bds61.ReadAircraftStatusNoInformation, 7, sta[0]),
		rawOf(bds61.ReadAircraftStatusEmergency, 7, sta[1]),
		rawOf(bds61.ReadAircraftStatusACAS, 7, sta[2]),
		rawOf(bds62.ReadTargetStateAndStatus, 7, tgt...),
		rawOf(bds62.ReadTargetStateAndStatus0, 7, tgt[0]),
		rawOf(bds62.ReadTargetStateAndStatus1, 7, tgt[1]),
		rawOf(bds65.ReadAircraftOperationalStatus, 7, opsRegs...),
		rawOf(bds65.ReadAircraftOperationalStatusADSB0, 7, regOps0),
		rawOf(bds65.ReadAircraftOperationalStatusAirborneADSB1, 7, regOpsA1),
		rawOf(bds65.ReadAircraftOperationalStatusSurfaceADSB1, 7, regOpsS1),
		rawOf(bds65.ReadAircraftOperationalStatusAirborneADSB2, 7, regOpsA2),
		rawOf(bds65.ReadAircraftOperationalStatusSurfaceADSB2, 7, regOpsS2),
	}
}

var rawByName = map[string]*rawReader{}

var typVersion = reflect.TypeOf(adsb.ADSBVersion(0))

// call gives the reader its data and options by parameter type: bytes, version, and the supplements in order.
func (r *rawReader) call(v int64, a, c bool, d []byte) []reflect.Value {
	t := r.fn.Type()
	in := make([]reflect.Value, t.NumIn())
	flags := []bool{a, c}
	for i := range in {
		switch p := t.In(i); {
		case p == typVersion:
			in[i] = reflect.ValueOf(adsb.ADSBVersion(v))
		case p.Kind() == reflect.Bool:
			in[i] = reflect.ValueOf(flags[0])
			flags = flags[1:]
		case p == reflect.TypeOf(d):
			in[i] = reflect.ValueOf(d)
		default:
			die("cannot call %s: parameter %v", r.name, p)
		}
	}
	return r.fn.Call(in)
}

// strictResult enforces: an error and a true nil, or a message and no error.
func strictResult(name string, out []reflect.Value) (reflect.Value, string) {
	m := out[0]
	err := !out[1].IsNil()
	if err {
		if !m.IsNil() {
			if m.Kind() == reflect.Interface && m.Elem().Kind() == reflect.Ptr && m.Elem().IsNil() {
				return m, fmt.Sprintf("%s returns an error (%v) together with a message that is not nil: it is an interface around a nil %v, which any caller testing for nil takes for a message", name, out[1].Interface(), m.Elem().Type())
			}
			return m, fmt.Sprintf("%s returns an error (%v) together with a message", name, out[1].Interface())
		}
		return reflect.Value{}, ""
	}
	if m.Kind() == reflect.Slice {
		for i := 0; i < m.Len(); i++ {
			if e := m.Index(i); e.IsNil() || e.Elem().Kind() == reflect.Ptr && e.Elem().IsNil() {
				return m, fmt.Sprintf("%s returns a list with a nil message", name)
			}
		}
		return m, ""
	}
	if m.IsNil() || m.Kind() == reflect.Interface && m.Elem().Kind() == reflect.Ptr && m.Elem().IsNil() {
		return m, fmt.Sprintf("%s returns neither an error nor a message", name)
	}
	return m, ""
}

var rawSorted []string

// rawNames lists the readers, and fills rawByName.
func rawNames() []string {
	if len(rawSorted) == 0 {
		for _, r := range rawReaders() {
			rawSorted = append(rawSorted, r.name)
			rawByName[r.name] = r
		}
		sort.Strings(rawSorted)
	}
	return rawSorted
}

// ---------------------------------------------------------------- methods

var methodCache sync.Map // reflect.Type → []int

func niladic(t reflect.Type) []int {
	if x, ok := methodCache.Load(t); ok {
		return x.([]int)
	}
	var out []int
	for i := 0; i < t.NumMethod(); i++ {
		if t.Method(i).Type.NumIn() == 1 && t.Method(i).PkgPath == "" {
			out = append(out, i)
		}
	}
	methodCache.Store(t, out)
	return out
}

// touch calls every method without arguments of a value and of everything it holds. It returns how many.
func touch(v reflect.Value, path string, visit func(path string, out []reflect.Value)) (n int, fail string) {
	callAll := func(v reflect.Value) bool {
		if !v.CanInterface() {
			return true
		}
		for _, i := range niladic(v.Type()) {
			name := v.Type().String() + "." + v.Type().Method(i).Name
			if f := guarded(func() {
				out := v.Method(i).Call(nil)
				if visit != nil {
					visit(path+"."+v.Type().Method(i).Name, out)
				}
			}); f != "" {
				fail = fmt.Sprintf("%s (at %q) panics: %s", name, path, f)
				return false
			}
			n++
		}
		return true
	}
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Ptr && !callAll(v) {
			return
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		// the methods of a struct value are those of its pointer when there is one: only called when not addressable
		if !v.CanAddr() && !callAll(v) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			p := path
			if !f.Anonymous {
				p += "." + f.Name
			}
			k, bad := touch(v.Field(i), p, visit)
			n += k
			if bad != "" {
				return n, bad
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			k, bad := touch(v.Index(i), fmt.Sprintf("%s[%d]", path, i), visit)
			n += k
			if bad != "" {
				return n, bad
			}
		}
	default:
		callAll(v)
	}
	return
}

func guarded(f func()) (fail string) {
	defer func() {
		if e := recover(); e != nil {
			fail = fmt.Sprintf("%v%s", e, panicSite(string(debug.Stack())))
		}
	}()
	f()
	return
}

// ---------------------------------------------------------------- the check

// callBudget is some thousand times what a reader needs. Only a call which seemed to exceed it by the clock is measured.
const callBudget = 60 * time.Millisecond

// cost is the least processor time the calling thread needs for a call, of six: neither a busy machine, nor the
// collector, nor a table filled by the first call can make it long. A call that uses little of it but never returns
// sooner than in half a second waits for something: that counts in full.
func cost(f func()) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	now := func() time.Duration {
		var u syscall.Rusage
		const thread = 1 // RUSAGE_THREAD
		if syscall.Getrusage(thread, &u) != nil {
			return 0
		}
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	least, soonest := time.Hour, time.Hour
	for i := 0; i < 6; i++ {
		t, w := now(), time.Now()
		f()
		if d := now() - t; d < least {
			least = d
		}
		if d := time.Since(w); d < soonest {
			soonest = d
		}
	}
	if soonest > 500*time.Millisecond {
		return soonest
	}
	return least
}

func checkTotal(c *Ctx, cs *Case) {
	v, a, cc := adsbArgs(cs)
	if cs.K == "nil" {
		cs.D = nil
	}
	if cs.K == "parse" {
		checkParse(c, cs)
		return
	}
	r := rawByName[cs.S[0]]
	var in []byte
	if cs.K != "nil" {
		in = clone(cs.D)
	}
	var m reflect.Value
	var bad string
	began := time.Now()
	if f := guarded(func() {
		m, bad = strictResult(r.name, r.call(v, a, cc, in))
	}); f != "" {
		c.Fail("%s(%d bytes) panics: %s", r.name, len(cs.D), f)
		return
	}
	if time.Since(began) > callBudget {
		if x := cost(func() { r.call(v, a, cc, in) }); x > callBudget {
			c.Fail("%s(%d bytes) takes %v, again and again: its work is not bounded", r.name, len(cs.D), x)
			return
		}
	}
	if bad != "" {
		c.Fail("%s", bad)
		return
	}
	c.NonTrivial()
	if !m.IsValid() {
		c.Obs(r.name + " refuses")
		return
	}
	c.Obs(r.name + " accepts")
	began = time.Now()
	n, bad := touch(m, "", nil)
	if bad != "" {
		c.Fail("%s: %s", r.name, bad)
		return
	}
	if time.Since(began) > 4*callBudget {
		if x := cost(func() { touch(m, "", nil) }); x > 4*callBudget {
			c.Fail("the methods of what %s returned take %v, again and again: their work is not bounded", r.name, x)
			return
		}
	}
	if n == 0 && m.Kind() != reflect.Slice {
		c.Fail("%s returns a message without methods", r.name)
		return
	}
	c.obs["methods called on accepted messages"] += n
	if msg, ok := m.Interface().(messages.ModeSMessage); ok {
		for _, lists := range []map[modescommon.ICAOAddress]bool{nil, {0: true}, {0xABCDEF: true, 0x123456: true}} {
			for _, l2 := range []map[modescommon.ICAOAddress]bool{nil, {0: true, 15: true}} {
				addr, err := modesreader.CheckCRC(msg, in, lists, l2)
				if err != nil && addr != 0 {
					c.Fail("CheckCRC returns both an address (%v) and an error (%v)", addr, err)
					return
				}
				addr.ToString()
				if err == nil {
					c.Obs("parity accepted")
				} else {
					c.Obs("parity refused")
				}
			}
		}
	}
}

var parsers = []reflect.Value{
	reflect.ValueOf(messages.ParseDF0), reflect.ValueOf(messages.ParseDF4), reflect.ValueOf(messages.ParseDF5), reflect.ValueOf(messages.ParseDF11),
	reflect.ValueOf(messages.ParseDF16), reflect.ValueOf(messages.ParseDF17), reflect.ValueOf(messages.ParseDF18), reflect.ValueOf(messages.ParseDF19),
	reflect.ValueOf(messages.ParseDF20), reflect.ValueOf(messages.ParseDF21), reflect.ValueOf(messages.ParseDF24)}

// checkParse: the single-format parsers with frame parts of any size. A: parser, format, first field.
func checkParse(c *Ctx, cs *Case) {
	md := modescommon.MessageData{DownLinkFormat: uint8(cs.A[1]), FirstField: uint8(cs.A[2]), Payload: clone(cs.D), Parity: []byte{1, 2, 3}}
	p := int(cs.A[0])
	name := fmt.Sprintf("ParseDF%d", []int{0, 4, 5, 11, 16, 17, 18, 19, 20, 21, 24}[p])
	var m reflect.Value
	var bad string
	if f := guarded(func() { m, bad = strictResult(name, parsers[p].Call([]reflect.Value{reflect.ValueOf(md)})) }); f != "" {
		c.Fail("%s(format %d, payload of %d bytes) panics: %s", name, md.DownLinkFormat, len(cs.D), f)
		return
	}
	if bad != "" {
		c.Fail("%s", bad)
		return
	}
	c.NonTrivial()
	if !m.IsValid() {
		c.Obs("single-format parser refuses")
		return
	}
	c.Obs("single-format parser accepts")
	if _, bad := touch(m, "", nil); bad != "" {
		c.Fail("%s: %s", name, bad)
	}
}

func init() {
	var names []string
	all := rawByName
	setup := func() { names = rawNames() }
	opts := func(r *Rand) []int64 {
		if r.N(12) == 0 {
			return []int64{r.Pick(3, 4, 7, 100, 255), int64(r.N(2)), int64(r.N(2))}
		}
		return []int64{int64(r.N(3)), int64(r.N(2)), int64(r.N(2))}
	}
	p := &Prop{
		ID:     "C24",
		Rounds: 8,
		Rule:   "One case is one byte string given to one public reader with options. Non-trivial: the reader returned without panicking and within 60 ms of processor time (and half a second in all), its result was either an error with a true nil or a message without error, and every method without arguments of the message and of all it holds was called.",
		Blocks: func(th bool) []Block {
			setup()
			s := 1
			if th {
				s = 30
			}
			return []Block{{"every reader and every length", len(names) * 42, func(r *Rand, i int, emit func(Case)) {
				rd := all[names[i%len(names)]]
				l := i / len(names)
				if l == 41 {
					emit(Case{K: "nil", A: opts(r), S: []string{rd.name}})
					for _, l := range []int{48, 63, 64, 100, 255, 256, 263, 1000, 1024, 65535, 65543} {
						b := background(r, l, r.N(6))
						emit(Case{K: "read", D: b, A: opts(r), S: []string{rd.name}})
					}
					return
				}
				for k := 0; k < 24*s; k++ {
					b := background(r, l, k%6)
					if l > 0 && k >= 12 { // the beginning of content it accepts
						g := rd.regs[r.N(len(rd.regs))]
						id := make(Bits, g.length())
						g.ident(id)
						copy(b, id)
					}
					emit(Case{K: "read", D: b, A: opts(r), S: []string{rd.name}})
				}
			}}, {"every first two bytes", len(names) * 256, func(r *Rand, i int, emit func(Case)) {
				rd := all[names[i%len(names)]]
				for k := 0; k < 6*s; k++ {
					b := background(r, rd.n, []int{2, 0, 1, 3}[r.N(4)])
					b[0] = byte(i / len(names))
					b[1] = byte(r.N(256))
					emit(Case{K: "read", D: b, A: opts(r), S: []string{rd.name}})
				}
			}}, {"content each reader accepts", len(names) * 64 * s, func(r *Rand, i int, emit func(Case)) {
				rd := all[names[i%len(names)]]
				for k := 0; k < 40; k++ {
					g := rd.regs[r.N(len(rd.regs))]
					b := background(r, g.length(), []int{2, 2, 0, 1, 3, 4}[r.N(6)])
					g.normalise(r, b)
					if p := plausOf(g); p != nil && r.Bool() {
						p.shape(r, b)
						g.normalise(r, b)
					}
					if r.N(4) == 0 {
						w := g.spans()
						x := w[r.N(len(w))]
						v := codesOf(x.z-x.a+1, 64)
						b.Set(x.a, x.z, v[r.N(len(v))])
					}
					emit(Case{K: "read", D: b, A: opts(r), S: []string{rd.name}})
				}
			}}, {"every value of each field of accepted content", len(names) * 16, func(r *Rand, i int, emit func(Case)) {
				rd := all[names[i%len(names)]]
				j := i / len(names)
				if j >= len(rd.regs) {
					return
				}
				for ; j < len(rd.regs); j += 16 {
					g := rd.regs[j]
					for _, sp := range g.spans() {
						for _, v := range codesOf(sp.z-sp.a+1, 40*s) {
							b := background(r, g.length(), []int{2, 0}[r.N(2)])
							g.normalise(r, b)
							b.Set(sp.a, sp.z, v)
							emit(Case{K: "read", D: b, A: opts(r), S: []string{rd.name}})
						}
					}
				}
			}}, {"single-format parsers", 32 * 24 * len(parsers), func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 2*s; k++ {
					p := int64(i % len(parsers))
					l := i / len(parsers) % 24
					emit(Case{K: "parse", D: background(r, l, r.N(6)), A: []int64{p, int64(i / len(parsers) / 24), int64(r.N(256))}})
				}
			}}}
		},
		Check: func(c *Ctx, cs *Case) {
			setup()
			checkTotal(c, cs)
		},
	}
	setup2 := func() []string {
		var need []string
		for _, r := range rawReaders() {
			need = append(need, r.name+" accepts", r.name+" refuses")
		}
		return append(need, "parity accepted", "parity refused", "single-format parser accepts", "single-format parser refuses")
	}
	p.NeedFn = setup2
	register(p)
}
