package main

import (
	"fmt"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/commb"
)

// Every public entry point that reads bytes.

type rf = func(d []byte) (interface{}, error)

// direct readers of registers and advisories, by name, with the layout a valid input has (nil: refuse).
type direct struct {
	rd   *Reader
	want func(b Bits) *Reg
	gens []*Reg // layouts used to generate inputs
	kind string
}

func always(g *Reg) func(b Bits) *Reg { return func(b Bits) *Reg { return g } }

func one(name string, f rf, g *Reg) *direct {
	return &direct{rd: &Reader{name, f}, want: always(g), gens: []*Reg{g}}
}

var directs = map[string]*direct{
	"ra": one("ra.ReadResolutionAdvisory", func(d []byte) (interface{}, error) { m, e := ra.ReadResolutionAdvisory(d); return m, e }, regRA),
	"00": one("bds00.ReadNoMessageAvailable", func(d []byte) (interface{}, error) { m, e := bds00.ReadNoMessageAvailable(d); return m, e }, reg00),
	"05": one("bds05.ReadAirbornePosition", func(d []byte) (interface{}, error) { m, e := bds05.ReadAirbornePosition(d); return m, e }, regBDS05),
	"06": one("bds06.ReadSurfacePosition", func(d []byte) (interface{}, error) { m, e := bds06.ReadSurfacePosition(d); return m, e }, regBDS06),
	"07": one("bds07.ReadStatus", func(d []byte) (interface{}, error) { m, e := bds07.ReadStatus(d); return m, e }, reg07),
	"08": one("bds08.ReadAircraftIdentificationAndCategory", func(d []byte) (interface{}, error) {
		m, e := bds08.ReadAircraftIdentificationAndCategory(d)
		return m, e
	}, regIdent),
	"09g1": one("bds09.ReadAirborneVelocityGroundSpeedNormal", func(d []byte) (interface{}, error) {
		m, e := bds09.ReadAirborneVelocityGroundSpeedNormal(d)
		return m, e
	}, velocityRegs[1]),
	"09g2": one("bds09.ReadAirborneVelocityGroundSpeedSupersonic", func(d []byte) (interface{}, error) {
		m, e := bds09.ReadAirborneVelocityGroundSpeedSupersonic(d)
		return m, e
	}, velocityRegs[2]),
	"09a1": one("bds09.ReadAirborneVelocityAirSpeedNormal", func(d []byte) (interface{}, error) { m, e := bds09.ReadAirborneVelocityAirSpeedNormal(d); return m, e }, velocityRegs[3]),
	"09a2": one("bds09.ReadAirborneVelocityAirSpeedSupersonic", func(d []byte) (interface{}, error) {
		m, e := bds09.ReadAirborneVelocityAirSpeedSupersonic(d)
		return m, e
	}, velocityRegs[4]),
	"09": {rd: &Reader{"bds09.ReadAirborneVelocity", func(d []byte) (interface{}, error) { m, e := bds09.ReadAirborneVelocity(d); return m, e }},
		want: func(b Bits) *Reg { return velocityRegs[b.U(6, 8)] }, gens: []*Reg{velocityRegs[1], velocityRegs[2], velocityRegs[3], velocityRegs[4]}},
	"10": one("bds10.ReadDataLinkCapabilityReport", func(d []byte) (interface{}, error) { m, e := bds10.ReadDataLinkCapabilityReport(d); return m, e }, reg10),
	"17": one("bds17.ReadCommonUsageGICBCapabilityReport", func(d []byte) (interface{}, error) { m, e := bds17.ReadCommonUsageGICBCapabilityReport(d); return m, e }, reg17),
	"20": one("bds20.ReadAircraftIdentification", func(d []byte) (interface{}, error) { m, e := bds20.ReadAircraftIdentification(d); return m, e }, reg20),
	"30": one("bds30.ReadACASResolutionAdvisory", func(d []byte) (interface{}, error) { m, e := bds30.ReadACASResolutionAdvisory(d); return m, e }, reg30),
	"40": one("bds40.ReadSelectedVerticalIntention", func(d []byte) (interface{}, error) { m, e := bds40.ReadSelectedVerticalIntention(d); return m, e }, reg40),
	"44v0": one("bds44.ReadMeteorologicalRoutineAirReportV0", func(d []byte) (interface{}, error) {
		m, e := bds44.ReadMeteorologicalRoutineAirReportV0(d)
		return m, e
	}, reg44V0),
	"44v1": one("bds44.ReadMeteorologicalRoutineAirReportV1", func(d []byte) (interface{}, error) {
		m, e := bds44.ReadMeteorologicalRoutineAirReportV1(d)
		return m, e
	}, reg44V1),
	"44v2": one("bds44.ReadMeteorologicalRoutineAirReportV2", func(d []byte) (interface{}, error) {
		m, e := bds44.ReadMeteorologicalRoutineAirReportV2(d)
		return m, e
	}, reg44V2),
	"44":   {rd: &Reader{"bds44.ReadMeteorologicalRoutineAirReport", func(d []byte) (interface{}, error) { m, e := bds44.ReadMeteorologicalRoutineAirReport(d); return m, e }}, want: reg44, gens: []*Reg{reg44V1, reg44V2}},
	"45v0": one("bds45.ReadMeteorologicalHazardReportV0", func(d []byte) (interface{}, error) { m, e := bds45.ReadMeteorologicalHazardReportV0(d); return m, e }, reg45V0),
	"45v1": one("bds45.ReadMeteorologicalHazardReportV1", func(d []byte) (interface{}, error) { m, e := bds45.ReadMeteorologicalHazardReportV1(d); return m, e }, reg45V1),
	"45":   {rd: &Reader{"bds45.ReadMeteorologicalHazardReport", func(d []byte) (interface{}, error) { m, e := bds45.ReadMeteorologicalHazardReport(d); return m, e }}, want: reg45, gens: []*Reg{reg45V1, reg45V0}},
	"50":   one("bds50.ReadTrackAndTurnReport", func(d []byte) (interface{}, error) { m, e := bds50.ReadTrackAndTurnReport(d); return m, e }, reg50),
	"60":   one("bds60.ReadHeadingAndSpeedReport", func(d []byte) (interface{}, error) { m, e := bds60.ReadHeadingAndSpeedReport(d); return m, e }, reg60),
	"61n":  one("bds61.ReadAircraftStatusNoInformation", func(d []byte) (interface{}, error) { m, e := bds61.ReadAircraftStatusNoInformation(d); return m, e }, regStatusNone),
	"61e":  one("bds61.ReadAircraftStatusEmergency", func(d []byte) (interface{}, error) { m, e := bds61.ReadAircraftStatusEmergency(d); return m, e }, regStatusEmergency),
	"61a":  one("bds61.ReadAircraftStatusACAS", func(d []byte) (interface{}, error) { m, e := bds61.ReadAircraftStatusACAS(d); return m, e }, regStatusACAS),
	"61":   {rd: &Reader{"bds61.ReadAircraftStatus", func(d []byte) (interface{}, error) { m, e := bds61.ReadAircraftStatus(d); return m, e }}, want: func(b Bits) *Reg { return statusRegs[b.U(6, 8)] }, gens: []*Reg{regStatusNone, regStatusEmergency, regStatusACAS}},
	"62s0": one("bds62.ReadTargetStateAndStatus0", func(d []byte) (interface{}, error) { m, e := bds62.ReadTargetStateAndStatus0(d); return m, e }, regTarget0),
	"62s1": one("bds62.ReadTargetStateAndStatus1", func(d []byte) (interface{}, error) { m, e := bds62.ReadTargetStateAndStatus1(d); return m, e }, regTarget1),
	"62":   {rd: &Reader{"bds62.ReadTargetStateAndStatus", func(d []byte) (interface{}, error) { m, e := bds62.ReadTargetStateAndStatus(d); return m, e }}, want: func(b Bits) *Reg { return targetRegs[b.U(6, 7)] }, gens: []*Reg{regTarget0, regTarget1}},
	"65v0": one("bds65.ReadAircraftOperationalStatusADSB0", func(d []byte) (interface{}, error) { m, e := bds65.ReadAircraftOperationalStatusADSB0(d); return m, e }, regOps0),
	"65a1": one("bds65.ReadAircraftOperationalStatusAirborneADSB1", func(d []byte) (interface{}, error) {
		m, e := bds65.ReadAircraftOperationalStatusAirborneADSB1(d)
		return m, e
	}, regOpsA1),
	"65s1": one("bds65.ReadAircraftOperationalStatusSurfaceADSB1", func(d []byte) (interface{}, error) {
		m, e := bds65.ReadAircraftOperationalStatusSurfaceADSB1(d)
		return m, e
	}, regOpsS1),
	"65a2": one("bds65.ReadAircraftOperationalStatusAirborneADSB2", func(d []byte) (interface{}, error) {
		m, e := bds65.ReadAircraftOperationalStatusAirborneADSB2(d)
		return m, e
	}, regOpsA2),
	"65s2": one("bds65.ReadAircraftOperationalStatusSurfaceADSB2", func(d []byte) (interface{}, error) {
		m, e := bds65.ReadAircraftOperationalStatusSurfaceADSB2(d)
		return m, e
	}, regOpsS2),
	"65": {rd: &Reader{"bds65.ReadAircraftOperationalStatus", func(d []byte) (interface{}, error) { m, e := bds65.ReadAircraftOperationalStatus(d); return m, e }}, want: opsVariant, gens: opsRegs},
}

func init() {
	for k, d := range directs {
		d.kind = k
	}
}

// checkDirect judges a register's own reader.
func checkDirect(c *Ctx, kind string, data []byte) {
	d := directs[kind]
	var g *Reg
	n := 7
	if kind == "ra" {
		n = 6
	}
	if len(data) == n {
		g = d.want(Bits(data))
	}
	checkReg(c, d.rd, g, data)
}

// directBlocks is the workload of a register's own reader.
func directBlocks(kind string, scale int) []Block {
	d := directs[kind]
	var out []Block
	for _, g := range d.gens {
		bl := regBlocks(kind, g, nil, scale)
		for i := range bl {
			bl[i].Name = d.rd.Name + " " + g.Name + " " + bl[i].Name[len(kind)+1:]
		}
		out = append(out, bl...)
	}
	ident := make(Bits, d.gens[0].length())
	d.gens[0].ident(ident)
	return append(out, badLengths(kind, d.gens[0].length(), nil, ident))
}

// ---------------------------------------------------------------- ADS-B entry points, which take options

func rdADSB(v int64, a, cc bool) *Reader {
	return &Reader{fmt.Sprintf("ReadADSBMessage(version %d, A %v, C %v)", v, a, cc), func(d []byte) (interface{}, error) {
		m, e := adsbreader.ReadADSBMessage(adsb.ADSBVersion(v), a, cc, d)
		return m, e
	}}
}

type adsbEntry struct {
	name string
	fn   func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error)
	want func(v int64, a, c bool, b Bits) *Reg // nil: refuse
	tcs  []int64
}

func tcOf(b Bits) int64 { return b.U(1, 5) }

var adsbEntries = map[string]*adsbEntry{
	"adsb": {"ReadADSBMessage", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := adsbreader.ReadADSBMessage(v, a, c, d)
		return m, e
	}, adsbVariant, []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 28, 29, 31}},
	"airborne": {"airborne_position.ReadAirbornePosition", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := airborne_position.ReadAirbornePosition(v, d, a)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg {
		if tcOf(b) == 0 {
			return regType0
		}
		if !tcAirborne(tcOf(b)) {
			return nil
		}
		return airbornePos(v, a)
	}, append([]int64{0}, airborneTC...)},
	"airborne0": {"airborne_position.ReadAirbornePositionV0", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := airborne_position.ReadAirbornePositionV0(d)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return airbornePos(0, a) }, airborneTC},
	"airborne1": {"airborne_position.ReadAirbornePositionV1", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := airborne_position.ReadAirbornePositionV1(d, a)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return airbornePos(1, a) }, airborneTC},
	"airborne2": {"airborne_position.ReadAirbornePositionV2", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := airborne_position.ReadAirbornePositionV2(d, a)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return airbornePos(2, a) }, airborneTC},
	"type0": {"airborne_position.ReadAirbornePositionType0", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := airborne_position.ReadAirbornePositionType0(v, d)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return regType0 }, []int64{0}},
	"nopos": {"no_position_information.ReadNoPositionInformation", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := no_position_information.ReadNoPositionInformation(v, d)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return regNoPosition }, []int64{0}},
	"surface": {"surface_position.ReadSurfacePosition", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := surface_position.ReadSurfacePosition(v, d, a, c)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return surfacePos(v, a, c) }, []int64{5, 6, 7, 8}},
	"surface0": {"surface_position.ReadSurfacePositionV0", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := surface_position.ReadSurfacePositionV0(d)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return surfacePos(0, a, c) }, []int64{5, 6, 7, 8}},
	"surface1": {"surface_position.ReadSurfacePositionV1", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := surface_position.ReadSurfacePositionV1(d, a)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return surfacePos(1, a, c) }, []int64{5, 6, 7, 8}},
	"surface2": {"surface_position.ReadSurfacePositionV2", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := surface_position.ReadSurfacePositionV2(d, a, c)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return surfacePos(2, a, c) }, []int64{5, 6, 7, 8}},
	"velocity": {"airborne_velocity.ReadAirborneVelocity", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := airborne_velocity.ReadAirborneVelocity(v, d)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return velocityRegs[b.U(6, 8)] }, []int64{19}},
	"ident": {"aircraft_identification_and_category.Read", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := aircraft_identification_and_category.ReadAircraftIdentificationAndCategory(v, d)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return regIdent }, []int64{1, 2, 3, 4}},
	"status": {"aircraft_status.ReadAircraftStatus", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := aircraft_status.ReadAircraftStatus(v, d)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return statusRegs[b.U(6, 8)] }, []int64{28}},
	"target": {"target_state_and_status.ReadTargetStateAndStatus", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := target_state_and_status.ReadTargetStateAndStatus(v, d)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return targetRegs[b.U(6, 7)] }, []int64{29}},
	"ops": {"aircraft_operational_status.Read", func(v adsb.ADSBVersion, a, c bool, d []byte) (interface{}, error) {
		m, e := aircraft_operational_status.ReadAircraftOperationalStatus(v, d)
		return m, e
	}, func(v int64, a, c bool, b Bits) *Reg { return opsVariant(b) }, []int64{31}},
}

// adsbArgs unpacks the options of a case: version, supplement A, supplement C.
func adsbArgs(cs *Case) (v int64, a, c bool) {
	if len(cs.A) > 0 {
		v = cs.A[0]
	}
	return v, len(cs.A) > 1 && cs.A[1] == 1, len(cs.A) > 2 && cs.A[2] == 1
}

func (e *adsbEntry) reader(v int64, a, c bool) *Reader {
	return &Reader{fmt.Sprintf("%s(version %d, A %v, C %v)", e.name, v, a, c), func(d []byte) (interface{}, error) {
		return e.fn(adsb.ADSBVersion(v), a, c, d)
	}}
}

// expect is the layout the entry must decode the field with (nil: refuse).
func (e *adsbEntry) expect(v int64, a, c bool, d []byte) *Reg {
	if len(d) != 7 {
		return nil
	}
	b := Bits(d)
	g := e.want(v, a, c, b)
	if g == nil || !g.accepts(b) {
		return nil
	}
	return g
}

var rdCommB = &Reader{"commb.ReadCommBMessage", func(d []byte) (interface{}, error) {
	m, e := commb.ReadCommBMessage(d)
	if m == nil {
		return nil, e
	}
	return m, e
}}

// optCombos are the eight versions and supplements of a position, and a few more.
var optCombos = func() [][]int64 {
	var out [][]int64
	for v := int64(0); v <= 2; v++ {
		for a := int64(0); a <= 1; a++ {
			for c := int64(0); c <= 1; c++ {
				out = append(out, []int64{v, a, c})
			}
		}
	}
	return out
}()
