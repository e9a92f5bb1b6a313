package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"strings"
	"sync"

	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/geo"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

// C28: aircraft fly, their transmitters encode what they do (encoders written here, from the
// standards), the channel interleaves, loses, repeats, delays and damages frames, and a receiver
// made of the library's public functions must end up with what the aircraft did.

// ---------------------------------------------------------------- transmitters

type fact struct {
	path string
	val  interface{}
}

func fn(path string, v float64) fact { return fact{path, v} }

type simPlane struct {
	addr          uint32
	name          string
	set, cat      int64 // identification type code and category
	version       int64
	squawk        int64 // 13-bit field
	lat, lon      float64
	speed, track  float64 // kt, degrees true
	alt           int64   // ft, a value the altitude code in use can carry
	fine          bool    // 25 ft coding
	vrate         int64   // multiple of 64 ft/min
	ground        bool
	df18          bool
	tcAir, tcSurf int64
	supA, supB    bool
	supC          bool
	nextOdd       [2]int // per airborne/surface
	ii            uint32
	mcp           int64 // selected altitude code of 4,0 (16 ft)
	roll          int64 // 5,0 code
	mach          int64
	other         *simPlane
}

type simEvent struct {
	t        float64
	from     int
	kind     string
	sent     []byte
	got      []byte // as received
	intact   bool
	frame    []fact // what the Mode S message must say
	body     []fact // what the carried message must say
	bodyOf   string // type of the carried message, for the versions 0, 1 and 2 separated by |
	reg      string // Comm-B register carried
	pos      bool
	surface  bool
	odd      int
	lat, lon float64
	y, x     int64
	rlat     float64
	ops      bool
	tx       simPlane // the aircraft when it sent this
}

func alt13Code(alt int64, fine bool) int64 {
	if fine {
		n := (alt + 1000) / 25
		return n>>5<<7 | n>>4&1<<5 | 1<<4 | n&0xF
	}
	return modeCEncode(alt).order13(0, 0)
}

func alt12Code(alt int64, fine bool) int64 { return drop7(alt13Code(alt, fine)) }

func (p *simPlane) altMethod() float64 {
	if p.fine {
		return methodQ
	}
	return methodGillham
}

func charCode(c byte) int64 {
	switch {
	case c >= 'A' && c <= 'Z':
		return int64(c-'A') + 1
	case c == ' ':
		return 32
	}
	return int64(c)
}

func setName(b Bits, name string) {
	for i := 0; i < 8; i++ {
		b.Set(9+6*i, 14+6*i, charCode(name[i]))
	}
}

// position squitters
func (p *simPlane) position(e *simEvent) Bits {
	b := Bits(make([]byte, 7))
	k := 0
	if p.ground {
		k = 1
	}
	odd := p.nextOdd[k]
	p.nextOdd[k] = 1 - odd
	y, x, rl := cprEncode(p.lat, p.lon, odd, p.ground)
	e.pos, e.surface, e.odd, e.lat, e.lon, e.y, e.x, e.rlat = true, p.ground, odd, p.lat, p.lon, y, x, rl
	b.Set(22, 22, int64(odd))
	b.Set(23, 39, y)
	b.Set(40, 56, x)
	e.body = append(e.body, fn("CPRFormat", float64(odd)), fn("EncodedLatitude", float64(y)), fn("EncodedLongitude", float64(x)))
	if p.ground {
		b.Set(1, 5, p.tcSurf)
		m := int64(1)
		for m < 124 && movementSpeed(m+1) <= p.speed {
			m++
		}
		b.Set(6, 12, m)
		b.Set(13, 13, 1)
		t := int64(math.Floor(p.track/(360.0/128)+0.5)) & 127
		b.Set(14, 20, t)
		e.bodyOf = "surface_position.SurfacePositionV0|surface_position.SurfacePositionV1|surface_position.SurfacePositionV2"
		e.body = append(e.body, fn("FormatTypeCode", float64(p.tcSurf)), fn("MovementSpeed", movementSpeed(m)), fn("GroundTrack", float64(t)*360/128), fn("GroundTrackStatus", 1))
		return b
	}
	b.Set(1, 5, p.tcAir)
	b.Set(8, 8, bitI(p.supB))
	b.Set(9, 20, alt12Code(p.alt, p.fine))
	e.bodyOf = "airborne_position.AirbornePositionV0|airborne_position.AirbornePositionV1|airborne_position.AirbornePositionV2"
	e.body = append(e.body, fn("FormatTypeCode", float64(p.tcAir)), fn("AltitudeInFeet", float64(p.alt)))
	return b
}

func clampI(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// velocity squitters
func (p *simPlane) velocity(r *Rand, e *simEvent) Bits {
	b := Bits(make([]byte, 7))
	b.Set(1, 5, 19)
	sub, step := int64(1), 1.0
	if p.speed > 900 {
		sub, step = 2, 4
	}
	air := r.N(4) == 0
	if air {
		sub += 2
	}
	b.Set(6, 8, sub)
	put := func(a, s int, kt float64, name, dir string) {
		n := clampI(int64(math.Floor(math.Abs(kt)/step+0.5)), 0, 1021) + 1
		b.Set(a, a+9, n)
		e.body = append(e.body, fn(name, float64(n-1)*step))
		if s > 0 {
			b.Set(s, s, bitI(kt < 0))
			e.body = append(e.body, fn(dir, bit(kt < 0)))
		}
	}
	if air {
		h := int64(math.Floor(p.track/(360.0/1024)+0.5)) & 1023
		b.Set(14, 14, 1)
		b.Set(15, 24, h)
		e.body = append(e.body, fn("MagneticHeading", float64(h)*360/1024))
		put(26, 0, p.speed, "Airspeed", "")
	} else {
		a := p.track * math.Pi / 180
		put(15, 14, p.speed*math.Sin(a), "VelocityEW", "DirectionEastWest")
		put(26, 25, p.speed*math.Cos(a), "VelocityNS", "DirectionNorthSouth")
	}
	n := p.vrate / 64
	b.Set(37, 37, bitI(n < 0))
	if n < 0 {
		n = -n
	}
	b.Set(38, 46, n+1)
	e.bodyOf = "bds09.AirborneVelocity" + []string{"", "GroundSpeedNormal", "GroundSpeedSupersonic", "AirSpeedNormal", "AirSpeedSupersonic"}[sub]
	e.body = append(e.body, fn("VerticalRate", float64(p.vrate)), fn("Subtype", float64(sub)))
	return b
}

func (p *simPlane) advisory(r *Rand, e *simEvent, prefix string) Bits {
	b := Bits(make([]byte, 6))
	o := p.other
	b.Set(1, 1, 1)
	b.Set(2, 7, int64(r.N(64)))
	b.Set(15, 18, int64(r.N(16)))
	b.Set(19, 19, int64(r.N(2)))
	for i, n := range []string{"DoNotPassBelow", "DoNotPassAbove", "DoNotTurnLeft", "DoNotTurnRight"} {
		e.body = append(e.body, fn(prefix+"RAComplement."+n, float64(b.U(15+i, 15+i))))
	}
	e.body = append(e.body, fn(prefix+"RATerminatedIndicator", float64(b.U(19, 19))), fn(prefix+"MultipleThreatEncounter", 0))
	if r.Bool() {
		b.Set(21, 22, 1)
		b.Set(23, 46, int64(o.addr))
		e.body = append(e.body, fn(prefix+"ThreatTypeIndicator", 1), fn(prefix+"ThreatIdentityAddress", float64(o.addr)))
	} else {
		a := o.alt
		a -= a % 100
		g := modeCEncode(a)
		b.Set(21, 22, 2)
		b.Set(23, 35, g.order13(0, g.D1))
		rng, brg := int64(1+r.N(127)), int64(1+r.N(60))
		b.Set(36, 42, rng)
		b.Set(43, 48, brg)
		e.body = append(e.body, fn(prefix+"ThreatTypeIndicator", 2), fn(prefix+"ThreatIdentityAltitude.AltitudeInFeet", float64(a)),
			fn(prefix+"ThreatIdentityRange", float64(rng)), fn(prefix+"ThreatIdentityBearing", float64(brg)))
	}
	return b
}

// squitter builds the field of one extended squitter.
func (p *simPlane) squitter(r *Rand, e *simEvent) Bits {
	b := Bits(make([]byte, 7))
	switch k := r.N(20); {
	case k < 10:
		e.kind = "position"
		return p.position(e)
	case k < 13 && !p.ground:
		e.kind = "velocity"
		return p.velocity(r, e)
	case k < 15:
		e.kind = "identification"
		b.Set(1, 5, p.set)
		b.Set(6, 8, p.cat)
		setName(b, p.name)
		e.bodyOf = "bds08.AircraftIdentificationAndCategory"
		e.body = []fact{fn("FormatTypeCode", float64(p.set)), fn("Category", float64(p.cat)), {"Identification", p.name}}
	case k < 17:
		e.kind = "operational status"
		e.ops = true
		b.Set(1, 5, 31)
		b.Set(6, 8, bitI(p.ground && p.version > 0))
		b.Set(41, 43, p.version)
		e.bodyOf = "bds65.AircraftOperationalStatusADSB0"
		if p.version > 0 {
			b.Set(44, 44, bitI(p.supA))
			b.Set(45, 48, int64(r.N(12)))
			e.body = []fact{fn("VersionNumber", float64(p.version)), fn("NavigationalAccuracyCategoryPosition", float64(b.U(45, 48))),
				fn([]string{"", "NICSupplement", "NICSupplementA"}[p.version], bit(p.supA))}
			e.bodyOf = fmt.Sprintf("bds65.AircraftOperationalStatus%sADSB%d", map[bool]string{false: "Airborne", true: "Surface"}[p.ground], p.version)
			if p.version == 2 && p.ground {
				b.Set(20, 20, bitI(p.supC))
				e.body = append(e.body, fn("SurfaceCapabilityClass.NICSupplementC", bit(p.supC)))
			}
		}
	case k < 18:
		e.kind = "emergency status"
		b.Set(1, 5, 28)
		b.Set(6, 8, 1)
		s := map[int64]int64{p7700: 1, p7600: 4, p7500: 5}[p.squawk]
		b.Set(9, 11, s)
		b.Set(12, 24, p.squawk)
		e.bodyOf = "bds61.AircraftStatusEmergency"
		e.body = []fact{fn("EmergencyPriorityStatus", float64(s)), fn("ModeACode", float64(p.squawk))}
	case k < 19 && !p.ground:
		e.kind = "advisory broadcast"
		b.Set(1, 5, 28)
		b.Set(6, 8, 2)
		copy(b[1:], p.advisory(r, e, "ResolutionAdvisory."))
		e.bodyOf = "bds61.AircraftStatusACAS"
	default:
		e.kind = "target state"
		b.Set(1, 5, 29)
		b.Set(6, 7, 1)
		sel := int64(1 + r.N(2047))
		b.Set(10, 20, sel)
		q := int64(1 + r.N(511))
		b.Set(21, 29, q)
		b.Set(30, 30, 1)
		h := int64(math.Floor(p.track/(180.0/256)+0.5)) & 511
		b.Set(31, 39, h)
		e.bodyOf = "bds62.TargetStateAndStatus1"
		e.body = []fact{fn("SelectedAltitude", float64(sel-1)*32), fn("BarometricPressureSetting", 800+float64(q-1)*0.8)}
	}
	return b
}

// register builds a Comm-B field.
func (p *simPlane) register(r *Rand, e *simEvent) Bits {
	b := Bits(make([]byte, 7))
	signed := func(a, z int, n int64) { b.Set(a, z, n&(1<<uint(z-a+1)-1)) }
	trk := int64(math.Floor(wrap180(p.track)/(90.0/512) + 0.5))
	if trk == 1024 {
		trk = -1024
	}
	slow := clampI(int64(p.speed), 20, 480)
	switch r.N(8) {
	case 0:
		e.reg, e.bodyOf = "2,0", "bds20.AircraftIdentification"
		b.Set(1, 8, 0x20)
		setName(b, p.name)
		e.body = []fact{{"Identification", p.name}}
	case 1:
		e.reg, e.bodyOf = "3,0", "bds30.ACASResolutionAdvisory"
		b.Set(1, 8, 0x30)
		copy(b[1:], p.advisory(r, e, "ResolutionAdvisory."))
	case 2:
		e.reg, e.bodyOf = "4,0", "bds40.SelectedVerticalIntention"
		b.Set(1, 1, 1)
		b.Set(2, 13, p.mcp)
		b.Set(27, 27, 1)
		b.Set(28, 39, 2132)
		e.body = []fact{fn("MCPFCUSelectedAltitude", float64(p.mcp)*16), fn("BarometricPressureSetting", 1013.2), fn("MCPFCUSelectedAltitudeAvailable", 1), fn("FMSSelectedAltitudeAvailable", 0)}
	case 3:
		e.reg, e.bodyOf = "5,0", "bds50.TrackAndTurnReport"
		b.Set(1, 1, 1)
		signed(2, 11, p.roll)
		b.Set(12, 12, 1)
		signed(13, 23, trk)
		b.Set(24, 24, 1)
		b.Set(25, 34, slow/2)
		b.Set(46, 46, 1)
		b.Set(47, 56, slow/2+10)
		e.body = []fact{fn("RollAngle", float64(p.roll)*45/256), fn("TrueTrackAngle", float64(trk)*90/512), fn("GroundSpeed", float64(slow/2*2)), fn("TrueAirSpeed", float64(slow/2*2+20))}
	case 4:
		e.reg, e.bodyOf = "6,0", "bds60.HeadingAndTrackReport"
		b.Set(1, 1, 1)
		signed(2, 12, trk)
		b.Set(13, 13, 1)
		b.Set(14, 23, slow)
		b.Set(24, 24, 1)
		b.Set(25, 34, p.mach)
		b.Set(35, 35, 1)
		vr := clampI(p.vrate/32, -186, 186)
		signed(36, 45, vr)
		e.body = []fact{fn("MagneticHeading", float64(trk)*90/512), fn("IndicatedAirSpeed", float64(slow)), fn("Mach", float64(p.mach)*2.048/512), fn("BarometricAltitudeRate", float64(vr*32))}
	case 5:
		e.reg, e.bodyOf = "4,4", "bds44.MeteorologicalRoutineAirReportV2"
		b.Set(1, 4, 1)
		w, d, tmp := int64(r.N(250)), int64(r.N(256)), int64(r.N(1100))-630
		b.Set(5, 5, 1)
		b.Set(6, 14, w)
		b.Set(15, 15, 1)
		b.Set(16, 23, d)
		b.Set(24, 24, 1)
		signed(25, 35, tmp)
		e.body = []fact{fn("WindSpeed", float64(w)), fn("WindDirection", float64(d)*180/128), fn("StaticAirTemperature", float64(tmp)*0.125)}
	case 6:
		e.reg, e.bodyOf = "1,7", "bds17.CommonUsageGICBCapabilityReport"
		for i, n := range reg17Names {
			v := i == 6 || r.Bool()
			b.Set(i+1, i+1, bitI(v))
			e.body = append(e.body, fn(n, bit(v)))
		}
	case 7:
		e.reg, e.bodyOf = "1,0", "bds10.DataLinkCapabilityReport"
		b.Set(1, 8, 0x10)
		ver, dte := int64(1+r.N(5)), int64(r.N(1<<16))
		b.Set(17, 23, ver)
		b.Set(33, 33, 1)
		b.Set(35, 35, int64(r.N(2)))
		b.Set(41, 56, dte)
		e.body = []fact{fn("ModeSSubnetworkVersion", float64(ver)), fn("AircraftIdentificationCapability", 1),
			fn("SurveillanceIdentifierCode", float64(b.U(35, 35))), fn("DTESubAddressStatuses", float64(dte))}
	}
	return b
}

const p7700, p7600, p7500 = 0x0AAA, 0x08AA, 0x0A8A // pulses C1 A1 C2 A2 C4 A4 X B1 D1 B2 D2 B4 D4

// transmit makes one frame of the aircraft.
func (p *simPlane) transmit(r *Rand, e *simEvent) {
	f := Bits(make([]byte, 14))
	overlay := p.addr
	short := func() { f = f[:7] }
	surv := func() {
		fs := int64(r.N(6))
		f.Set(6, 8, fs)
		e.frame = append(e.frame, fn("FlightStatus", float64(fs)))
	}
	alt := func() {
		f.Set(20, 32, alt13Code(p.alt, p.fine))
		e.frame = append(e.frame, fn("Altitude", float64(p.alt)), fn("AltitudeReportMethod", p.altMethod()))
	}
	id := func() {
		f.Set(20, 32, p.squawk)
		e.frame = append(e.frame, fact{"Identity.Identity", squawkText(p.squawk)})
	}
	k := r.N(20)
	if p.df18 {
		k = 19
	}
	switch {
	case k == 0:
		e.kind = "DF0"
		short()
		f.Set(1, 5, 0)
		f.Set(6, 6, bitI(p.ground))
		alt()
		e.frame = append(e.frame, fn("VerticalStatus", bit(p.ground)))
	case k == 1:
		e.kind = "DF4"
		short()
		f.Set(1, 5, 4)
		surv()
		alt()
	case k == 2:
		e.kind = "DF5"
		short()
		f.Set(1, 5, 5)
		surv()
		id()
	case k == 3:
		e.kind = "DF11"
		short()
		f.Set(1, 5, 11)
		f.Set(6, 8, 5)
		f.Set(9, 32, int64(p.addr))
		overlay = p.ii
		e.frame = []fact{fn("Capability", 5), fn("AddressAnnounced.Address", float64(p.addr))}
	case k == 4:
		e.kind = "DF16"
		f.Set(1, 5, 16)
		f.Set(6, 6, bitI(p.ground))
		alt()
		f.Set(33, 40, 0x30)
		copy(f[5:11], p.advisory(r, e, ""))
	case k <= 6:
		e.kind = "DF20"
		f.Set(1, 5, 20)
		surv()
		alt()
		copy(f[4:11], p.register(r, e))
	case k <= 8:
		e.kind = "DF21"
		f.Set(1, 5, 21)
		surv()
		id()
		copy(f[4:11], p.register(r, e))
	case k == 9:
		e.kind = "DF24"
		copy(f, r.Bytes(11))
		f.Set(1, 2, 3)
		e.frame = []fact{fn("ControlELM", float64(f.U(4, 4))), fn("NumberOfDSegment", float64(f.U(5, 8))), {"MessageCommD", hex.EncodeToString(f[1:11])}}
	default:
		me := p.squitter(r, e)
		f.Set(1, 5, 17)
		f.Set(6, 8, 5)
		if p.df18 {
			f.Set(1, 5, 18)
			f.Set(6, 8, 0)
		}
		f.Set(9, 32, int64(p.addr))
		overlay = 0
		copy(f[4:11], me)
		e.frame = []fact{fn("AddressAnnounced.Address", float64(p.addr)), {"MessageExtendedSquitter", hex.EncodeToString(me)}}
	}
	e.sent = seal(f, overlay)
	e.tx = *p
}

// fly moves an aircraft for dt seconds.
func (p *simPlane) fly(r *Rand, dt float64) {
	d := p.speed * nm / 3600 * dt
	p.lat, p.lon = offsetPoint(p.lat, p.lon, p.track, d)
	switch r.N(30) {
	case 0:
		p.track = math.Mod(p.track+r.R(-90, 90)+360, 360)
		p.roll = int64(r.N(568)) - 284
	case 1:
		p.vrate = 64 * (int64(r.N(189)) - 94)
		p.mach = 50 + int64(r.N(190))
	case 2:
		if p.ground {
			p.speed = r.R(0, 60)
		} else {
			p.speed = r.R(60, 900)
			if r.N(4) == 0 {
				p.speed = r.R(900, 1000)
			}
		}
	case 3: // takes off or lands
		if !p.df18 && r.N(3) == 0 {
			p.ground = !p.ground
			p.speed = map[bool]float64{true: r.R(0, 100), false: r.R(60, 300)}[p.ground]
		}
	case 4:
		p.mcp = int64(r.N(2800))
	case 5: // another integrity, later announced
		p.supA, p.supB, p.supC = r.Bool(), r.Bool(), r.Bool()
		p.tcAir, p.tcSurf = airborneTC[r.N(len(airborneTC))], int64(5+r.N(4))
	case 6:
		if r.N(4) == 0 { // another transponder
			p.version = int64(r.N(3))
		}
	case 7:
		p.squawk = int64(r.N(1<<13)) &^ 0x40
		if r.N(3) == 0 {
			p.squawk = []int64{p7700, p7600, p7500}[r.N(3)]
		}
	case 8:
		p.name = simName(r)
	}
	q := int64(100)
	if p.fine {
		q = 25
	}
	p.alt = clampI((p.alt+int64(float64(p.vrate)*dt/60)+2000)/q*q-2000, -1000, 50000)
}

func simName(r *Rand) string {
	name := []byte("        ")
	for k := range name[:3+r.N(6)] {
		name[k] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[r.N(36)]
	}
	return string(name)
}

func simFleet(r *Rand, n int) ([]*simPlane, [2]float64) {
	// one receiver: every aircraft is within 40 NM of it, so that surface positions are determined
	lat, lon := genLat(r, 89), 0.0
	lon = genLon(r, lat)
	var fleet []*simPlane
	for i := 0; i < n; i++ {
		p := &simPlane{addr: uint32(1 + r.N(1<<24-1)), version: int64(r.N(3)), fine: r.N(3) > 0, ground: r.N(4) == 0,
			track: r.R(0, 360), set: int64(1 + r.N(4)), cat: int64(r.N(8)), supA: r.Bool(), supB: r.Bool(), supC: r.Bool(),
			tcAir: airborneTC[r.N(len(airborneTC))], tcSurf: int64(5 + r.N(4)), ii: uint32(r.N(64)), mcp: int64(r.N(2800)),
			roll: int64(r.N(400)) - 200, mach: 100}
		if i > 0 && r.N(3) == 0 { // almost the address of another
			p.addr = fleet[r.N(i)].addr ^ 1<<uint(r.N(24))
		}
		p.name = simName(r)
		p.squawk = int64(r.N(1<<13)) &^ 0x40
		if r.N(3) == 0 {
			p.squawk = []int64{p7700, p7600, p7500}[r.N(3)]
		}
		q := int64(100)
		if p.fine {
			q = 25
		}
		p.alt = clampI(int64(r.N(50000))/q*q, -1000, 50000)
		p.speed = map[bool]float64{true: r.R(0, 60), false: r.R(60, 900)}[p.ground]
		p.vrate = 64 * (int64(r.N(189)) - 94)
		if r.N(8) == 0 {
			p.df18, p.ground = true, true
			p.speed = r.R(0, 40)
		}
		p.nextOdd = [2]int{r.N(2), r.N(2)}
		p.lat, p.lon = near(r, lat, lon, 25*nm)
		fleet = append(fleet, p)
	}
	seen := map[uint32]bool{}
	for i, p := range fleet {
		for p.addr == 0 || seen[p.addr] {
			p.addr = (p.addr + 1) & 0xFFFFFF
		}
		seen[p.addr] = true
		p.other = fleet[(i+1)%len(fleet)]
	}
	return fleet, [2]float64{lat, lon}
}

// damage flips up to five bits, or a burst of up to 24.
func damage(r *Rand, f []byte) []byte {
	g := clone(f)
	n := len(g) * 8
	if r.N(3) == 0 {
		l := 1 + r.N(24)
		at := r.N(n - l + 1)
		for i := 0; i < l; i++ {
			if i == 0 || i == l-1 || r.Bool() {
				g[(at+i)/8] ^= 0x80 >> uint((at+i)%8)
			}
		}
		return g
	}
	seen := map[int]bool{}
	for k := 1 + r.N(5); k > 0; {
		i := r.N(n)
		if seen[i] {
			continue
		}
		seen[i] = true
		g[i/8] ^= 0x80 >> uint(i%8)
		k--
	}
	return g
}

// simulate gives the frames in the order of reception.
func simulate(seed uint64, planes, steps, loss int) ([]*simPlane, [2]float64, []*simEvent) {
	r := &Rand{seed}
	fleet, station := simFleet(r, planes)
	var out []*simEvent
	for s := 0; s < steps; s++ {
		for i, p := range fleet {
			dt := r.R(0.2, 0.9)
			p.fly(r, dt)
			e := &simEvent{t: float64(s) * 0.55, from: i}
			p.transmit(r, e)
			e.got, e.intact = e.sent, true
			switch {
			case r.N(1000) < loss:
				continue
			case r.N(1000) < loss:
				e.got, e.intact = damage(r, e.sent), false
			}
			out = append(out, e)
			if r.N(1000) < loss { // heard twice
				d := *e
				out = append(out, &d)
			}
			if r.N(1000) < loss { // overtaken, but not by frames of the same aircraft
				if k := len(out) - 2; k >= 0 && out[k].from != e.from {
					out[k], out[k+1] = out[k+1], out[k]
				}
			}
		}
	}
	return fleet, station, out
}

// ---------------------------------------------------------------- receiver and oracle

type simHeard struct {
	msg      messages.ModeSMessage
	err      error
	addr     common.ICAOAddress
	crcErr   error
	listed   bool // the address its parity resolves to was in the list of known addresses
	panicked string
}

func hear(got []byte, known, iis map[common.ICAOAddress]bool) (h simHeard) {
	defer func() {
		if e := recover(); e != nil {
			h.panicked = fmt.Sprint(e)
		}
	}()
	h.msg, h.err = modesreader.ReadMessage(got)
	if h.err != nil {
		return
	}
	h.addr, h.crcErr = modesreader.CheckCRC(h.msg, got, known, iis)
	return
}

type simTrack struct {
	c           Ctx
	version     adsb.ADSBVersion
	supA, supC  bool
	opsSeen     bool
	pair        [2][2]*simEvent // surface, odd
	have        bool
	lat, lon    float64
	tlat, tlon  float64
	err         float64
	heard       int
	decoded     int
	name, squaw string
}

// facts compares what a decoded message says with what was sent.
func facts(where string, m interface{}, want []fact) string {
	if len(want) == 0 {
		return ""
	}
	got := map[string]interface{}{}
	for _, l := range Flatten(m) {
		got[l.Path] = l.Val
	}
	for _, f := range want {
		g, ok := got[f.path]
		if !ok {
			return fmt.Sprintf("%s: nothing reported for %s", where, f.path)
		}
		if !sameValue(g, f.val) {
			return fmt.Sprintf("%s: %s is %v, sent was %v", where, f.path, g, f.val)
		}
	}
	return ""
}

func (t *simTrack) take(p *simPlane, e *simEvent, h simHeard, station [2]float64) {
	c := &t.c
	where := fmt.Sprintf("%s of %06X at %.2f s (%x)", e.kind, p.addr, e.t, e.got)
	t.heard++
	if w := facts(where, h.msg, e.frame); w != "" {
		c.Fail("%s", w)
		return
	}
	leaf := func(path string) []byte {
		for _, l := range Flatten(h.msg) {
			if l.Path == path {
				b, _ := hex.DecodeString(l.Val.(string))
				return b
			}
		}
		return nil
	}
	switch h.msg.GetDownLinkFormat() {
	case 16:
		m, err := directs["ra"].rd.Fn(leaf("MessageACAS")[1:])
		if err != nil {
			c.Fail("%s: the advisory is refused: %v", where, err)
			return
		}
		if w := facts(where, m, e.body); w != "" {
			c.Fail("%s", w)
		}
		c.Obs("advisory between aircraft")
	case 20, 21:
		list, err := commb.ReadCommBMessage(leaf("MessageCommB"))
		if err != nil {
			c.Fail("%s: register %s is refused: %v", where, e.reg, err)
			return
		}
		for _, m := range list {
			if hasType(m, e.bodyOf) {
				if w := facts(where+" register "+e.reg, m, e.body); w != "" {
					c.Fail("%s", w)
				}
				c.Obs("register " + e.reg)
				return
			}
		}
		c.Fail("%s: register %s is not among the %d found", where, e.reg, len(list))
	case 17, 18:
		t.adsb(p, e, where, leaf("MessageExtendedSquitter"), station)
	default:
		c.Obs(e.kind)
	}
}

func (t *simTrack) adsb(p *simPlane, e *simEvent, where string, me []byte, station [2]float64) {
	c := &t.c
	m, err := adsbreader.ReadADSBMessage(t.version, t.supA, t.supC, me)
	if err != nil || IsNilResult(m) {
		c.Fail("%s is refused: %v", where, err)
		return
	}
	types := strings.Split(e.bodyOf, "|")
	want := types[0]
	if len(types) == 3 {
		want = types[t.version]
	}
	if !hasType(m, want) {
		c.Fail("%s is read as %v, sent was a %s", where, typeChain(m), want)
		return
	}
	if w := facts(where, m, e.body); w != "" {
		c.Fail("%s", w)
		return
	}
	c.Obs(e.kind)
	if e.kind == "velocity" {
		t.velocity(e, where, m, Bits(me))
	}
	if e.ops {
		t.version = m.GetADSBVersion()
		if int64(t.version) != p.version {
			c.Fail("%s says version %v, sent was %v", where, t.version, p.version)
			return
		}
		v, _ := leafNum(m, []string{"", "NICSupplement", "NICSupplementA"}[p.version])
		t.supA = v == 1
		if v, ok := leafNum(m, "SurfaceCapabilityClass.NICSupplementC"); ok {
			t.supC = v == 1
		}
		t.opsSeen = true
		return
	}
	if e.pos {
		t.integrity(p, e, where, m)
		t.position(p, e, where, station)
	}
}

func (t *simTrack) velocity(e *simEvent, where string, m interface{}, b Bits) {
	x, ok := inner(m, func(v interface{}) bool { _, ok := v.(speedTrack); return ok })
	if b.U(6, 8) > 2 {
		return
	}
	if !ok {
		t.c.Fail("%s offers no speed and track", where)
		return
	}
	ws, wt, _ := velocityDerived(b)
	s, err1 := x.(speedTrack).GetSpeed()
	a, err2 := x.(speedTrack).GetTrack()
	if err1 != nil || err2 != nil || s != ws || math.Abs(wrap180(float64(a)-wt)) > 1e-4 {
		t.c.Fail("%s gives speed %v (%v) and track %v (%v), flown are %v and %v", where, s, err1, a, err2, ws, wt)
	}
}

// integrity is judged by what the receiver knows of the aircraft.
func (t *simTrack) integrity(p *simPlane, e *simEvent, where string, m interface{}) {
	if t.version == 0 {
		return
	}
	var w nic
	switch {
	case e.surface && t.version == 1:
		w = nicSurfaceV1(p.tcSurf, t.supA)
	case e.surface:
		w = nicSurfaceV2(p.tcSurf, t.supA, t.supC)
	case t.version == 1:
		w = nicAirborneV1(p.tcAir, t.supA)
	default:
		w = nicAirborneV2(p.tcAir, t.supA, p.supB)
	}
	n, ok1 := leafNum(m, "NavigationIntegrityCategory")
	h, ok2 := leafNum(m, "HorizontalContainmentRadius")
	if !ok1 || !ok2 || n != float64(w.nic) || h != float64(w.hcr) {
		t.c.Fail("%s reports NIC %v and radius class %v, the aircraft means %v and %v", where, n, h, w.nic, w.hcr)
	}
	if t.supA == p.supA && t.supC == p.supC && int64(t.version) == p.version {
		t.c.Obs("integrity with supplements learnt")
	} else {
		t.c.Obs("integrity changed, not yet announced")
	}
}

func (t *simTrack) position(p *simPlane, e *simEvent, where string, station [2]float64) {
	c := &t.c
	k := 0
	if e.surface {
		k = 1
	}
	t.pair[k][e.odd] = e
	a, b := t.pair[k][0], t.pair[k][1]
	sLat, sLon := steps(e.rlat, e.odd, e.surface)
	judge := func(how string, lat, lon float64) bool {
		if !(math.Abs(lat-e.lat) <= sLat) || !(lonDiff(lon, e.lon) <= sLon) {
			c.Fail("%s: %s gives %v, %v, the aircraft is at %v, %v (%.1f m away)", where, how, lat, lon, e.lat, e.lon, gcDist(lat, lon, e.lat, e.lon))
			return false
		}
		return true
	}
	if nearBand(e.rlat) {
		c.Obs("undecided: rounding at a band transition")
		return
	}
	var lat, lon float64
	got := false
	// a movement of less than 2.5 NM in between keeps the pair in the same zones
	if a != nil && b != nil && math.Abs(a.t-b.t) < 8 && gcDist(a.lat, a.lon, b.lat, b.lon) < 2.5*nm*map[bool]float64{true: 0.25, false: 1}[e.surface] && !nearBand(a.rlat) && !nearBand(b.rlat) {
		var err error
		if e.surface {
			lat, lon, err = geo.GetCPRSurfaceGlobalPosition(uint32(a.y), uint32(a.x), uint32(b.y), uint32(b.x), e.odd == 0, station[0], station[1])
		} else {
			lat, lon, err = geo.GetCPRAirborneGlobalPosition(uint32(a.y), uint32(a.x), uint32(b.y), uint32(b.x), e.odd == 0)
		}
		switch same := nl(a.rlat) == nl(b.rlat); {
		case math.Abs(a.rlat) > 90 || math.Abs(b.rlat) > 90:
			c.Obs("beyond a pole by rounding")
		case e.surface && (math.Abs(e.lat) > 89 || gcDist(e.lat, e.lon, station[0], station[1]) > 40*nm):
			c.Obs("on the surface out of reach of the station")
		case same && err != nil:
			c.Fail("%s: no position from the pair of %.2f s and %.2f s: %v", where, a.t, b.t, err)
			return
		case !same && err == nil:
			c.Fail("%s: position %v, %v from a pair in different bands", where, lat, lon)
			return
		case same:
			got = true
			c.Obs("position from a pair")
			if !judge("the pair", lat, lon) {
				return
			}
		default:
			c.Obs("pair refused: bands differ")
		}
	}
	reach := 160.0
	if e.surface {
		reach = 40
	}
	if t.have && gcDist(t.lat, t.lon, e.lat, e.lon) < reach*nm && math.Abs(e.rlat) <= 90 {
		l, o := local(e.surface, e.y, e.x, t.lat, t.lon, e.odd)
		c.Obs("position from the last one")
		if !judge(fmt.Sprintf("the last position %v, %v", t.lat, t.lon), l, o) {
			return
		}
		if !got {
			lat, lon, got = l, o, true
		} else if math.Abs(l-lat) > 1e-6 || lonDiff(o, lon)*math.Cos(lat*math.Pi/180) > 1e-5 {
			c.Fail("%s: the pair gives %v, %v and the last position %v, %v", where, lat, lon, l, o)
			return
		}
	}
	if !got {
		return
	}
	metres := (sLat + sLon*math.Cos((math.Abs(e.lat)-sLat)*math.Pi/180)) * 111200
	if t.have {
		d, w := geo.ComputeGroundDistance(t.lat, t.lon, lat, lon), gcDist(t.tlat, t.tlon, e.lat, e.lon)
		// each end is off by at most half a step each way
		if !(math.Abs(d-w) <= t.err+metres+0.01) {
			c.Fail("%s: moved %v m since the last position, flown are %v m", where, d, w)
			return
		}
		c.Obs("distance flown")
	}
	t.have, t.lat, t.lon, t.tlat, t.tlon, t.err = true, lat, lon, e.lat, e.lon, metres
	t.decoded++
}

// overlaid is what the parity of a frame resolves to.
func overlaid(b []byte) uint32 {
	n := len(b) - 3
	return crc24(b[:n]) ^ uint32(b[n])<<16 ^ uint32(b[n+1])<<8 ^ uint32(b[n+2])
}

// learn hears the stream as a receiver that knows no aircraft at first, adds those whose squitters and all-call replies
// it hears to its list, and forgets some.
func learn(r *Rand, c *Ctx, fleet []*simPlane, events []*simEvent, heard []simHeard, iis map[common.ICAOAddress]bool) {
	known := map[common.ICAOAddress]bool{0xFFFFFF: true} // an empty list would allow all
	for i, e := range events {
		listed := known[common.ICAOAddress(overlaid(e.got))]
		heard[i] = hear(clone(e.got), known, iis)
		heard[i].listed = listed
		h := &heard[i]
		if h.panicked == "" && h.err == nil && h.crcErr == nil {
			switch e.got[0] >> 3 {
			case 17, 18:
				known[h.addr] = true
			case 11:
				if v, ok := leafNum(h.msg, "AddressAnnounced.Address"); ok {
					known[common.ICAOAddress(v)] = true
				}
			}
		}
		if r.N(40) == 0 && len(known) > 2 {
			delete(known, common.ICAOAddress(fleet[events[r.N(i+1)].from].addr))
			c.Obs("aircraft forgotten")
		}
	}
}

// checkSim: A: seed, aircraft, steps, loss per mille, receiver threads, whether the receiver learns the aircraft.
func checkSim(c *Ctx, cs *Case) {
	planes, steps, loss, threads := int(cs.A[1]), int(cs.A[2]), int(cs.A[3]), int(cs.A[4])
	fleet, station, events := simulate(uint64(cs.A[0]), planes, steps, loss)
	known := map[common.ICAOAddress]bool{}
	byAddr := map[common.ICAOAddress]int{}
	iis := map[common.ICAOAddress]bool{}
	for i, p := range fleet {
		known[common.ICAOAddress(p.addr)] = true
		byAddr[common.ICAOAddress(p.addr)] = i
		iis[common.ICAOAddress(p.ii)] = true // never changes, nor does the address
	}
	heard := make([]simHeard, len(events))
	var wg sync.WaitGroup
	learning := len(cs.A) > 5 && cs.A[5] == 1
	if learning {
		learn(&Rand{uint64(cs.A[0]) ^ 0x5EED}, c, fleet, events, heard, iis)
	}
	for w := 0; w < threads && !learning; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(events); i += threads {
				heard[i] = hear(clone(events[i].got), known, iis)
				heard[i].listed = known[common.ICAOAddress(overlaid(events[i].got))]
			}
		}(w)
	}
	wg.Wait()
	// attribution
	perPlane := make([][]int, len(fleet))
	for i, e := range events {
		h := &heard[i]
		p := fleet[e.from]
		where := fmt.Sprintf("%s of %06X at %.2f s (%x)", e.kind, p.addr, e.t, e.got)
		if h.panicked != "" {
			c.Fail("%s: panic: %s", where, h.panicked)
			return
		}
		b := Bits(e.got)
		if e.intact {
			c.NonTrivial()
			if df := b.U(1, 5); !h.listed && df != 11 && df != 17 && df != 18 {
				c.Obs("reply of an aircraft not listed")
				if h.err != nil || h.crcErr == nil {
					c.Fail("%s, whose aircraft is not in the list: %v %v", where, h.err, h.crcErr)
					return
				}
				continue
			}
			if h.err != nil || h.crcErr != nil {
				c.Fail("%s is refused: %v %v", where, h.err, h.crcErr)
				return
			}
			addr := h.addr
			if b.U(1, 5) == 11 {
				if uint32(h.addr) != p.ii {
					c.Fail("%s answers interrogator %v, reported %v", where, p.ii, uint32(h.addr))
					return
				}
				v, _ := leafNum(h.msg, "AddressAnnounced.Address")
				addr = common.ICAOAddress(v)
			}
			who, ok := byAddr[addr]
			if !ok || who != e.from {
				c.Fail("%s is attributed to %06X", where, uint32(addr))
				return
			}
			perPlane[who] = append(perPlane[who], i)
			continue
		}
		// damaged: whatever it has become
		g := modesVariant(b)
		if g == nil || !g.accepts(b) {
			c.Obs("damaged: no frame any more")
			if h.err == nil {
				c.Fail("%s, damaged, is accepted", where)
				return
			}
			continue
		}
		if h.err != nil {
			c.Fail("%s, damaged into another valid frame, is refused: %v", where, h.err)
			return
		}
		rem := overlaid(b)
		df := b.U(1, 5)
		switch {
		case df == 17 || df == 18:
			c.Obs("damaged squitter")
			if h.crcErr == nil && rem != 0 {
				c.Fail("%s, damaged, passes the parity check", where)
				return
			}
		case df == 11:
			c.Obs("damaged all-call reply")
			if iis[common.ICAOAddress(rem)] != (h.crcErr == nil) {
				c.Fail("%s, damaged so that it answers interrogator %v: %v", where, rem, h.crcErr)
				return
			}
		default:
			c.Obs("damaged reply")
			if h.listed != (h.crcErr == nil) {
				c.Fail("%s, damaged so that it comes from %06X: %v", where, rem, h.crcErr)
				return
			}
		}
	}
	// every aircraft on its own
	tracks := make([]*simTrack, len(fleet))
	follow := func(k int) {
		t := &simTrack{c: Ctx{obs: map[string]int{}}}
		tracks[k] = t
		defer func() {
			if e := recover(); e != nil {
				t.c.Fail("panic following %06X: %v", fleet[k].addr, e)
			}
		}()
		for _, i := range perPlane[k] {
			t.take(&events[i].tx, events[i], heard[i], station)
			if t.c.fail != "" {
				return
			}
		}
	}
	for w := 0; w < threads; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := w; k < len(fleet); k += threads {
				follow(k)
			}
		}(w)
	}
	wg.Wait()
	for _, t := range tracks {
		for o, n := range t.c.obs {
			c.obs[o] += n
		}
		if t.c.fail != "" {
			c.Fail("%s", t.c.fail)
		}
		if t.decoded > 0 {
			c.Obs("aircraft followed")
		}
	}
	c.Obs("stream in band " + bandName(station[0]))
	c.obs["frames received"] += len(events)
}

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "One case is one stream of a simulated fleet. Non-trivial: at least one undamaged frame was received and its sender and content compared with the simulation.",
		Blocks: func(thorough bool) []Block {
			n := 160
			if thorough {
				n = 4000
			}
			gen := func(planes, steps, loss, threads int) func(r *Rand, i int, emit func(Case)) {
				return func(r *Rand, i int, emit func(Case)) {
					emit(Case{K: "stream", A: []int64{int64(r.U64() >> 1), int64(1 + r.N(planes)), int64(steps/2 + r.N(steps)), int64(r.N(loss + 1)), int64(threads)}})
				}
			}
			return []Block{
				{"clean streams", n, gen(6, 60, 0, 1)},
				{"lossy streams", 2 * n, gen(8, 80, 120, 1)},
				{"dense streams, several receiver threads", n, gen(30, 40, 60, 3)},
				{"long streams", n / 8, gen(4, 1200, 40, 1)},
				{"streams heard by a receiver that learns", n, func(r *Rand, i int, emit func(Case)) {
					emit(Case{K: "stream", A: []int64{int64(r.U64() >> 1), int64(1 + r.N(12)), int64(40 + r.N(80)), int64(r.N(120)), 1, 1}})
				}},
			}
		},
		Check: checkSim,
		Mut: func(r *Rand, cs, donor *Case) bool {
			cs.A[0] = int64(r.U64() >> 1)
			if donor != nil && r.Bool() {
				copy(cs.A[1:], donor.A[1:])
			}
			return true
		},
		Need: []string{"position from a pair", "position from the last one", "distance flown", "pair refused: bands differ", "integrity with supplements learnt", "integrity changed, not yet announced",
			"damaged squitter", "damaged reply", "damaged all-call reply", "damaged: no frame any more", "reply of an aircraft not listed", "aircraft forgotten", "aircraft followed", "velocity", "identification",
			"operational status", "emergency status", "target state", "advisory broadcast", "advisory between aircraft", "DF0", "DF4", "DF5", "DF11", "DF24", "register 1,0", "register 1,7",
			"register 2,0", "register 3,0", "register 4,0", "register 5,0", "register 6,0", "register 4,4",
			"stream in band polar cap", "stream in band bands 2-4", "stream in band band 59"},
		Assume: []string{"each aircraft moves less than 2.5 NM (0.6 NM on the surface) between the two frames of a pair, and frames of one aircraft arrive in the order sent", "positions whose encoded latitude is within 1e-9 degrees of a band transition are not judged"},
	})
}
