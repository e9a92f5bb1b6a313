package main

// Layouts of resolution advisories (48 bits) and Comm-B registers (56 bits),
// from ICAO Annex 10 Vol IV and Doc 9871.

// ---------------------------------------------------------------- resolution advisory

// raSpans names the bit groups of an advisory that starts after `off` bits.
func raSpans(off int) []F {
	var out []F
	for _, s := range []span{{1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {6, 6}, {7, 7}, {8, 14}, {15, 15}, {16, 16}, {17, 17}, {18, 18},
		{19, 19}, {20, 20}, {21, 22}, {23, 35}, {36, 42}, {43, 48}, {23, 30}, {31, 38}, {39, 46}, {47, 48}} {
		out = append(out, F{A: s.a + off, Z: s.z + off})
	}
	return out
}

// raAccept: the only advisories refused are those with an illegal altitude pattern.
func raAccept(d []byte) bool {
	b := Bits(d)
	if b.U(21, 22) != 2 {
		return true
	}
	v := drop7(b.U(23, 35))
	_, ok := modeC[v]
	return ok || v == 0
}

// raFields gives the reported content. b is the 48-bit advisory.
func raFields(prefix string, d []byte, off int) []F {
	b := Bits(d)
	k := func(path string, v float64) F { return fK(prefix+path, v) }
	nilp := func(path string) F { return F{prefix + path, 0, 0, func(Bits) interface{} { return "<nil>" }} }
	u := func(i int) float64 { return float64(b.U(i, i)) }
	var out []F
	switch {
	case b.U(1, 1) == 1:
		out = append(out, k("ActiveRA.PreventiveCorrective", u(2)), k("ActiveRA.Sense", u(3)), k("ActiveRA.IsIncreasedRate", u(4)),
			k("ActiveRA.IsSenseReversal", u(5)), k("ActiveRA.IsAltitudeCrossing", u(6)), k("ActiveRA.VerticalSpeedLimitOrPositive", u(7)))
	case b.U(20, 20) == 1:
		out = append(out, k("ActiveRA.RequiresCorrectionUpwardSense", u(2)), k("ActiveRA.RequiresPositiveClimb", u(3)), k("ActiveRA.RequiresCorrectionDownwardSense", u(4)),
			k("ActiveRA.RequiresPositiveDescend", u(5)), k("ActiveRA.RequiresCrossing", u(6)), k("ActiveRA.IsSenseReversal", u(7)))
	}
	out = append(out, k("RAComplement.DoNotPassBelow", u(15)), k("RAComplement.DoNotPassAbove", u(16)),
		k("RAComplement.DoNotTurnLeft", u(17)), k("RAComplement.DoNotTurnRight", u(18)),
		k("RATerminatedIndicator", u(19)), k("MultipleThreatEncounter", u(20)), k("ThreatTypeIndicator", float64(b.U(21, 22))))
	if b.U(21, 22) == 1 {
		out = append(out, k("ThreatIdentityAddress", float64(b.U(23, 46))))
	} else {
		out = append(out, nilp("ThreatIdentityAddress"))
	}
	if b.U(21, 22) == 2 {
		v := drop7(b.U(23, 35))
		out = append(out, k("ThreatIdentityAltitude.AltitudeStatus", bit(v != 0)), k("ThreatIdentityAltitude.AltitudeInFeet", float64(modeC[v])),
			k("ThreatIdentityRange", float64(b.U(36, 42))), k("ThreatIdentityBearing", float64(b.U(43, 48))))
	} else {
		out = append(out, nilp("ThreatIdentityAltitude"), nilp("ThreatIdentityRange"), nilp("ThreatIdentityBearing"))
	}
	return out
}

// raGen makes most random advisories legal and carrying an interesting threat.
func raGen(r *Rand, d []byte) {
	b := Bits(d)
	if r.N(3) == 0 {
		b.Set(21, 22, int64(r.N(4)))
	}
	if b.U(21, 22) != 2 || raAccept(d) || r.N(10) == 0 {
		return
	}
	if r.N(12) == 0 {
		b.Set(23, 35, int64(r.N(2))<<6)
		return
	}
	p := modeCEncode(-1200 + 100*int64(r.N(2560)))
	if r.N(3) > 0 {
		p = modeCEncode(-1200 + 100*int64(r.N(1280)))
	}
	b.Set(23, 35, p.order13(int64(r.N(2)), p.D1))
}

func raRange(n int64) float64 {
	switch {
	case n <= 1:
		return 0
	case n >= 127:
		return 12.6
	}
	return float64(n-1) / 10
}

func raBearing(n int64) int {
	switch {
	case n == 0:
		return 0
	case n >= 61:
		return 363
	}
	return int(6*n - 3)
}

var regRA = &Reg{Name: "resolution advisory", Type: "ra.ResolutionAdvisory", Len: 6, Fields: raSpans(0),
	More:   func(b Bits) []F { return raFields("", b, 0) },
	Accept: func(b Bits) bool { return raAccept(b) },
	Gen:    func(r *Rand, b Bits) { raGen(r, b) }}

var reg30 = &Reg{Name: "3,0", Type: "bds30.ACASResolutionAdvisory", Fields: raSpans(8),
	More:   func(b Bits) []F { return raFields("ResolutionAdvisory.", b[1:7], 8) },
	Accept: func(b Bits) bool { return raAccept(b[1:7]) },
	Gen:    func(r *Rand, b Bits) { raGen(r, b[1:7]) },
	Ident:  [][3]int{{1, 8, 0x30}}}

// ---------------------------------------------------------------- capability registers

var reg00 = &Reg{Name: "0,0", Type: "bds00.NoMessageAvailable", Zero: [][2]int{{1, 56}}}

var reg07 = &Reg{Name: "0,7", Type: "bds07.Status",
	Fields: []F{fU("TransmissionRateSubfield", 1, 2), fU("AltitudeTypeSubfield", 3, 3)},
	Zero:   [][2]int{{4, 56}}}

var reg10 = &Reg{Name: "1,0", Type: "bds10.DataLinkCapabilityReport",
	Fields: []F{
		fU("ContinuationFlag", 9, 9),
		fU("OverlayCommandCapability", 15, 15),
		fU("ACASStatus", 16, 16),
		fU("ModeSSubnetworkVersion", 17, 23),
		fU("TransponderEnhancedProtocolIndicator", 24, 24),
		fU("ModeSSpecificServicesCapability", 25, 25),
		fU("UplinkELMThroughputCapability", 26, 28),
		fU("DownlinkELMThroughputCapability", 29, 32),
		fU("AircraftIdentificationCapability", 33, 33),
		fU("SquitterCapabilitySubfield", 34, 34),
		fU("SurveillanceIdentifierCode", 35, 35),
		fU("CommonUsageGICBCapability", 36, 36),
		fU("ACASHybridSurveillanceCapability", 37, 37),
		fU("ACASGenerationCapability", 38, 38),
		fU("ACASApplicableDocument", 39, 40),
		fU("DTESubAddressStatuses", 41, 56),
	},
	Ident: [][3]int{{1, 8, 0x10}}, Zero: [][2]int{{10, 14}}}

var reg17Names = []string{
	"ExtendedSquitterAirbornePosition", "ExtendedSquitterSurfacePosition", "ExtendedSquitterStatus",
	"ExtendedSquitterIdentificationAndCategory", "ExtendedSquitterAirborneVelocityInformation", "ExtendedSquitterEventDrivenInformation",
	"AircraftIdentification", "AircraftRegistrationNumber", "SelectedVerticalIntention", "NextWaypointIdentifier",
	"NextWaypointPosition", "NextWaypointInformation", "MeteorologicalRoutineReport", "MeteorologicalHazardReport",
	"VHFChannelReport", "TrackAndTurnReport", "PositionCoarse", "PositionFine", "AirReferencedStateVector",
	"Waypoint1", "Waypoint2", "Waypoint3", "QuasiStaticParameterMonitoring", "HeadingAndSpeedReport",
}

var reg17 = func() *Reg {
	g := &Reg{Name: "1,7", Type: "bds17.CommonUsageGICBCapabilityReport", Zero: [][2]int{{30, 56}}}
	for i, n := range reg17Names {
		g.Fields = append(g.Fields, fB(n, i+1))
	}
	g.Fields = append(g.Fields, fB("MilitaryApplications", 29))
	return g
}()

var reg20 = &Reg{Name: "2,0", Type: "bds20.AircraftIdentification",
	Fields: []F{
		fStr("Identification", 9, 56, icaoString),
		{"", 9, 14, nil}, {"", 15, 20, nil}, {"", 21, 26, nil}, {"", 27, 32, nil}, {"", 33, 38, nil}, {"", 39, 44, nil}, {"", 45, 50, nil}, {"", 51, 56, nil},
	},
	Ident: [][3]int{{1, 8, 0x20}}}

// ---------------------------------------------------------------- flight registers

var reg40 = &Reg{Name: "4,0", Type: "bds40.SelectedVerticalIntention",
	Fields: []F{
		fB("MCPFCUSelectedAltitudeAvailable", 1), fL("MCPFCUSelectedAltitude", 2, 13, 16, 0),
		fB("FMSSelectedAltitudeAvailable", 14), fL("FMSSelectedAltitude", 15, 26, 16, 0),
		fB("BarometricPressureSettingAvailable", 27), fL("BarometricPressureSetting", 28, 39, 0.1, 800),
		fU("StatusOfModeBits", 48, 48),
		fB("VNAVMode", 49), fB("AltitudeHoldMode", 50), fB("ApproachMode", 51),
		fU("StatusOfTargetAltitudeSource", 54, 54), fU("TargetAltitudeSource", 55, 56),
	},
	Zero: [][2]int{{40, 47}, {52, 53}}, Gen: genPairs([][3]int{{1, 2, 13}, {14, 15, 26}, {27, 28, 39}, {48, 49, 51}, {54, 55, 56}})}

var reg50 = &Reg{Name: "5,0", Type: "bds50.TrackAndTurnReport",
	Fields: []F{
		fB("RollAngleStatus", 1), fS("RollAngle", 2, 3, 11, 45.0/256),
		fB("TrueTrackAngleStatus", 12), fS("TrueTrackAngle", 13, 14, 23, 90.0/512),
		fB("GroundSpeedStatus", 24), fL("GroundSpeed", 25, 34, 2, 0),
		fB("TrackAngleRateStatus", 35), fS("TrackAngleRate", 36, 37, 45, 8.0/256),
		fB("TrueAirSpeedStatus", 46), fL("TrueAirSpeed", 47, 56, 2, 0),
	}, Gen: genPairs([][3]int{{1, 2, 11}, {12, 13, 23}, {24, 25, 34}, {35, 36, 45}, {46, 47, 56}})}

var reg60 = &Reg{Name: "6,0", Type: "bds60.HeadingAndTrackReport",
	Fields: []F{
		fB("MagneticHeadingStatus", 1), fS("MagneticHeading", 2, 3, 12, 90.0/512),
		fB("IndicatedAirSpeedStatus", 13), fL("IndicatedAirSpeed", 14, 23, 1, 0),
		fB("MachStatus", 24), fL("Mach", 25, 34, 2.048/512, 0),
		fB("BarometricAltitudeRateStatus", 35), fS("BarometricAltitudeRate", 36, 37, 45, 32),
		fB("InitialVerticalVelocityStatus", 46), fS("InitialVerticalVelocity", 47, 48, 56, 32),
	}, Gen: genPairs([][3]int{{1, 2, 12}, {13, 14, 23}, {24, 25, 34}, {35, 36, 45}, {46, 47, 56}})}

// genPairs sometimes makes a register plausible: a value whose status bit is clear is cleared as well.
func genPairs(p [][3]int) func(r *Rand, b Bits) {
	return func(r *Rand, b Bits) {
		if r.N(4) != 0 {
			return
		}
		for _, x := range p {
			if b.U(x[0], x[0]) == 0 {
				b.Set(x[1], x[2], 0)
			}
		}
	}
}

// ---------------------------------------------------------------- meteorological registers

var reg44V0 = &Reg{Name: "4,4 v0", Type: "bds44.MeteorologicalRoutineAirReportV0",
	Fields: []F{
		fU("Source", 1, 4),
		fB("WindSpeedStatus", 5), fU("WindSpeed", 6, 14),
		fB("WindDirectionStatus", 5), fL("WindDirection", 15, 23, 180.0/256, 0),
		fS("StaticAirTemperature", 24, 25, 34, 0.25),
		fB("AverageStaticPressureStatus", 35), fU("AverageStaticPressure", 36, 46),
		fB("TurbulenceStatus", 47), fU("Turbulence", 48, 49),
		fB("HumidityStatus", 50), fL("Humidity", 51, 56, 100.0/64, 0),
	}, Gen: genPairs([][3]int{{5, 6, 23}, {35, 36, 46}, {47, 48, 49}, {50, 51, 56}})}

func reg44Common() []F {
	return []F{
		fB("WindSpeedStatus", 5), fU("WindSpeed", 6, 14),
		fB("WindDirectionStatus", 15), fL("WindDirection", 16, 23, 180.0/128, 0),
		fB("StaticAirTemperatureStatus", 24), fS("StaticAirTemperature", 25, 26, 35, 0.125),
		fB("AverageStaticPressureStatus", 36), fU("AverageStaticPressure", 37, 47),
		fU("TurbulenceFlag", 48, 48),
		fB("HumidityStatus", 49), fU("Humidity", 50, 56),
	}
}

var pairs44 = [][3]int{{5, 6, 14}, {15, 16, 23}, {24, 25, 35}, {36, 37, 47}, {49, 50, 56}}

var reg44V1 = &Reg{Name: "4,4 v1", Type: "bds44.MeteorologicalRoutineAirReportV1", Fields: reg44Common(), Zero: [][2]int{{1, 4}}, Gen: genPairs(pairs44)}
var reg44V2 = &Reg{Name: "4,4 v2", Type: "bds44.MeteorologicalRoutineAirReportV2",
	Fields: append([]F{fU("Source", 1, 4)}, reg44Common()...), Gen: genPairs(pairs44)}

// reg44 is the layout the 4,4 reader must choose.
func reg44(b Bits) *Reg {
	switch s := b.U(1, 4); {
	case s == 0:
		return reg44V1
	case s <= 4:
		return reg44V2
	}
	return nil
}

var reg45V0 = &Reg{Name: "4,5 v0", Type: "bds45.MeteorologicalHazardReportV0",
	Fields: []F{
		fB("TurbulenceStatus", 1), fU("Turbulence", 2, 3),
		fB("WindShearStatus", 4), fU("WindShear", 5, 6),
		fB("MicroBurstStatus", 7), fU("MicroBurst", 8, 9),
		fB("IcingStatus", 10), fU("Icing", 11, 12),
		fB("WakeVortexStatus", 13), fU("WakeVortex", 14, 15),
		fB("StaticAirTemperatureStatus", 16), fS("StaticAirTemperature", 17, 18, 26, 0.25),
		fB("AverageStaticPressureStatus", 27), fU("AverageStaticPressure", 28, 38),
		fB("RadioHeightStatus", 39), fL("RadioHeight", 40, 51, 16, 0),
	},
	Zero: [][2]int{{52, 56}}, Gen: genPairs([][3]int{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {13, 14, 15}, {16, 17, 26}, {27, 28, 38}, {39, 40, 51}})}

func edr(b Bits, a, z int) float64 {
	v := float64(b.U(a, z)) * 0.02
	if v > 1.26 {
		v = 1.26
	}
	return v
}

var reg45V1 = &Reg{Name: "4,5 v1", Type: "bds45.MeteorologicalHazardReportV1",
	Fields: []F{
		fB("WindShearStatus", 1), fU("WindShear", 2, 3),
		fB("MicroBurstStatus", 4), fU("MicroBurst", 5, 6),
		fB("IcingStatus", 7), fU("Icing", 8, 9),
		fB("WakeVortexStatus", 10), fU("WakeVortex", 11, 12),
		fB("StaticAirTemperatureStatus", 13), fS("StaticAirTemperature", 14, 15, 24, 0.125),
		fK("AverageStaticPressureStatus", 0), fK("AverageStaticPressure", 0),
		fB("RadioHeightStatus", 25), fL("RadioHeight", 26, 37, 2, 0),
		fB("TurbulenceStatus", 38),
		fX("TurbulenceAverageEDR", 39, 44, func(b Bits) float64 { return edr(b, 39, 44) }),
		fX("TurbulencePeakEDR", 45, 50, func(b Bits) float64 { return edr(b, 45, 50) }),
		fU("TurbulencePeakDelayInterval", 51, 54),
	},
	Zero: [][2]int{{55, 56}}, Gen: genPairs([][3]int{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {10, 11, 12}, {13, 14, 24}, {25, 26, 37}, {38, 39, 54}})}

// reg45 is the layout the 4,5 reader must choose.
func reg45(b Bits) *Reg {
	switch {
	case reg45V1.accepts(b):
		return reg45V1
	case reg45V0.accepts(b):
		return reg45V0
	}
	return nil
}
