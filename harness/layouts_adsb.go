package main

import "math"

// Layouts of the 56-bit ADS-B field, from ICAO Doc 9871 and RTCA DO-260/A/B.

func altOK(b Bits) bool { _, _, ok := alt12(b.U(9, 20)); return ok }

func airborneFields() []F {
	return []F{
		fU("FormatTypeCode", 1, 5),
		fU("SurveillanceStatus", 6, 7),
		fU("SingleAntennaFlag", 8, 8),
		fX("AltitudeSource", 1, 5, func(b Bits) float64 {
			if b.U(1, 5) >= 20 {
				return 1
			}
			return 0
		}),
		fX("AltitudeReportMethod", 9, 20, func(b Bits) float64 { _, m, _ := alt12(b.U(9, 20)); return float64(m) }),
		fX("AltitudeInFeet", 9, 20, func(b Bits) float64 { a, _, _ := alt12(b.U(9, 20)); return float64(a) }),
		fU("Time", 21, 21),
		fU("CPRFormat", 22, 22),
		fU("EncodedLatitude", 23, 39),
		fU("EncodedLongitude", 40, 56),
	}
}

func tcAirborne(tc int64) bool { return tc >= 9 && tc <= 22 && tc != 19 }

// makeAltLegal replaces an illegal altitude code most of the time.
func makeAltLegal(r *Rand, b Bits) {
	if altOK(b) || r.N(12) == 0 {
		return
	}
	if r.Bool() {
		b.Set(16, 16, 1)
		return
	}
	p := modeCEncode(-1200 + 100*int64(r.N(1280)))
	b.Set(9, 20, drop7(p.order13(0, 0)))
}

var airborneTC = []int64{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}

func genTC(tcs []int64) func(r *Rand, b Bits) {
	return func(r *Rand, b Bits) {
		for _, t := range tcs {
			if t == b.U(1, 5) {
				return
			}
		}
		b.Set(1, 5, tcs[r.N(len(tcs))])
	}
}

func airborneReg(name string, extra ...F) *Reg {
	return &Reg{Name: name, Type: "airborne_position." + name,
		Fields: append(airborneFields(), extra...),
		Accept: func(b Bits) bool { return tcAirborne(b.U(1, 5)) && altOK(b) },
		Gen:    func(r *Rand, b Bits) { genTC(airborneTC)(r, b); makeAltLegal(r, b) },
	}
}

// bds05 itself, without the ADS-B wrapper
var regBDS05 = func() *Reg { g := airborneReg("bds05"); g.Type = "bds05.AirbornePosition"; return g }()

// Integrity of airborne positions: type code, supplements -> radius class, NIC.
type nic struct{ hcr, nic int64 }

func nicAirborneV1(tc int64, a bool) nic {
	switch tc {
	case 11:
		if a {
			return nic{111, 9}
		}
		return nic{11, 8}
	case 13:
		if a {
			return nic{113, 6}
		}
		return nic{13, 6}
	case 16:
		if a {
			return nic{116, 3}
		}
		return nic{16, 2}
	case 20, 21, 22:
		return nic{tc - 20, []int64{11, 10, 0}[tc-20]}
	}
	return nic{tc, map[int64]int64{9: 11, 10: 10, 12: 7, 14: 5, 15: 4, 17: 1, 18: 0}[tc]}
}

func nicAirborneV2(tc int64, a, b bool) nic {
	switch {
	case tc == 13 && !a && b:
		return nic{213, 6}
	case tc >= 20:
		return nic{tc, []int64{11, 10, 0}[tc-20]}
	}
	return nicAirborneV1(tc, a)
}

func nicSurfaceV1(tc int64, a bool) nic {
	switch {
	case tc == 7 && a:
		return nic{2, 9}
	case tc == 7:
		return nic{3, 8}
	case tc == 8:
		return nic{4, 0}
	}
	return nic{tc - 5, 16 - tc}
}

func nicSurfaceV2(tc int64, a, c bool) nic {
	if tc != 8 {
		return nicSurfaceV1(tc, a)
	}
	switch {
	case a && c:
		return nic{4, 7}
	case a:
		return nic{5, 6}
	case c:
		return nic{6, 6}
	}
	return nic{7, 0}
}

func bit(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// airbornePos gives the layout of an airborne position for an ADS-B version and supplement.
func airbornePos(version int64, a bool) *Reg {
	switch version {
	case 0:
		return airborneReg("AirbornePositionV0", fU("HorizontalProtectionLimit", 1, 5), fU("ContainmentRadius", 1, 5))
	case 1:
		return airborneReg("AirbornePositionV1", fK("NavigationIntegrityCodeSupplementA", bit(a)),
			fX("HorizontalContainmentRadius", 1, 5, func(b Bits) float64 { return float64(nicAirborneV1(b.U(1, 5), a).hcr) }),
			fX("NavigationIntegrityCategory", 1, 5, func(b Bits) float64 { return float64(nicAirborneV1(b.U(1, 5), a).nic) }))
	case 2:
		return airborneReg("AirbornePositionV2", fK("NavigationIntegrityCodeSupplementA", bit(a)),
			fU("NavigationIntegrityCodeSupplementB", 8, 8),
			fX("HorizontalContainmentRadius", 1, 8, func(b Bits) float64 { return float64(nicAirborneV2(b.U(1, 5), a, b.U(8, 8) == 1).hcr) }),
			fX("NavigationIntegrityCategory", 1, 8, func(b Bits) float64 { return float64(nicAirborneV2(b.U(1, 5), a, b.U(8, 8) == 1).nic) }))
	}
	return nil
}

// Type code 0.
var regType0 = &Reg{Name: "AirbornePositionType0", Type: "airborne_position.AirbornePositionType0",
	Fields: append(func() []F {
		f := airborneFields()
		f[0], f[3] = fK("FormatTypeCode", 0), fK("AltitudeSource", 0)
		return f
	}(), fK("NavigationIntegrityCategory", 0)),
	Ident:  [][3]int{{1, 5, 0}},
	Accept: altOK,
	Gen:    makeAltLegal,
}

var regNoPosition = &Reg{Name: "NoPositionInformation", Type: "no_position_information.NoPositionInformation",
	Fields: []F{fK("FormatTypeCode", 0), fK("NavigationIntegrityCategory", 0),
		fX("AltitudeBarometric", 9, 20, func(b Bits) float64 { a, _, _ := alt12(b.U(9, 20)); return float64(a) })},
	Ident:  [][3]int{{1, 5, 0}},
	Accept: altOK,
	Zero:   [][2]int{{21, 56}},
	Gen:    makeAltLegal,
}

// ---------------------------------------------------------------- surface position

func movementSpeed(m int64) float64 {
	n := float64(m)
	switch {
	case m < 2 || m > 124:
		return 0
	case m <= 8:
		return 0.125 + (n-2)*0.125
	case m <= 12:
		return 1 + (n-9)*0.25
	case m <= 38:
		return 2 + (n-13)*0.5
	case m <= 93:
		return 15 + (n - 39)
	case m <= 108:
		return 70 + (n-94)*2
	case m <= 123:
		return 100 + (n-109)*5
	}
	return 175
}

func surfaceReg(name string, extra ...F) *Reg {
	return &Reg{Name: name, Type: "surface_position." + name,
		Fields: append([]F{
			fU("FormatTypeCode", 1, 5),
			fU("MovementStatus", 6, 12),
			fX("MovementSpeed", 6, 12, func(b Bits) float64 { return movementSpeed(b.U(6, 12)) }),
			fB("GroundTrackStatus", 13),
			fL("GroundTrack", 14, 20, 360.0/128, 0),
			fU("Time", 21, 21),
			fU("CPRFormat", 22, 22),
			fU("EncodedLatitude", 23, 39),
			fU("EncodedLongitude", 40, 56),
		}, extra...),
		Accept: func(b Bits) bool { return b.U(1, 5) >= 5 && b.U(1, 5) <= 8 },
		Gen:    genTC([]int64{5, 6, 7, 8}),
	}
}

var regBDS06 = func() *Reg { g := surfaceReg("bds06"); g.Type = "bds06.SurfacePosition"; return g }()

func surfacePos(version int64, a, c bool) *Reg {
	switch version {
	case 0:
		return surfaceReg("SurfacePositionV0", fU("HorizontalProtectionLimit", 1, 5), fU("ContainmentRadius", 1, 5))
	case 1:
		return surfaceReg("SurfacePositionV1",
			fX("HorizontalContainmentRadius", 1, 5, func(b Bits) float64 { return float64(nicSurfaceV1(b.U(1, 5), a).hcr) }),
			fX("NavigationIntegrityCategory", 1, 5, func(b Bits) float64 { return float64(nicSurfaceV1(b.U(1, 5), a).nic) }))
	case 2:
		return surfaceReg("SurfacePositionV2",
			fX("HorizontalContainmentRadius", 1, 5, func(b Bits) float64 { return float64(nicSurfaceV2(b.U(1, 5), a, c).hcr) }),
			fX("NavigationIntegrityCategory", 1, 5, func(b Bits) float64 { return float64(nicSurfaceV2(b.U(1, 5), a, c).nic) }))
	}
	return nil
}

// ---------------------------------------------------------------- identification

var regIdent = &Reg{Name: "AircraftIdentificationAndCategory", Type: "bds08.AircraftIdentificationAndCategory",
	Fields: []F{
		fU("FormatTypeCode", 1, 5),
		fU("Category", 6, 8),
		fStr("Identification", 9, 56, icaoString),
		{"", 9, 14, nil}, {"", 15, 20, nil}, {"", 21, 26, nil}, {"", 27, 32, nil}, {"", 33, 38, nil}, {"", 39, 44, nil}, {"", 45, 50, nil}, {"", 51, 56, nil},
	},
	Accept: func(b Bits) bool { return b.U(1, 5) >= 1 && b.U(1, 5) <= 4 },
	Gen:    genTC([]int64{1, 2, 3, 4}),
}

// ---------------------------------------------------------------- velocity

const (
	numNone    = 0
	numRegular = 1
	numMax     = 2
)

// speedField: value and status of a 10-bit speed at a..z.
func speedField(val, status string, a, z int, step float64) []F {
	return []F{
		fX(val, a, z, func(b Bits) float64 {
			switch n := b.U(a, z); n {
			case 0:
				return 0
			case 1023:
				return map[float64]float64{1: 1023, 4: 4088}[step]
			default:
				return float64(n-1) * step
			}
		}),
		fX(status, a, z, func(b Bits) float64 {
			switch b.U(a, z) {
			case 0:
				return numNone
			case 1023:
				return numMax
			}
			return numRegular
		}),
	}
}

func signedField(val, status string, s, a, z int, step, max float64) []F {
	full := int64(1)<<uint(z-a+1) - 1
	return []F{
		fX(val, s, z, func(b Bits) float64 {
			n := b.U(a, z)
			v := float64(n-1) * step
			if n == 0 {
				return 0
			}
			if n == full {
				v = max
			}
			if b.U(s, s) == 1 {
				v = -v
			}
			return v
		}),
		fX(status, a, z, func(b Bits) float64 {
			switch b.U(a, z) {
			case 0:
				return numNone
			case full:
				return numMax
			}
			return numRegular
		}),
	}
}

func velocityReg(sub int) *Reg {
	f := []F{
		fU("FormatTypeCode", 1, 5),
		fU("Subtype", 6, 8),
		fU("IntentChange", 9, 9),
		fU("IFRCapability", 10, 10),
		fU("NavigationUncertaintyCategory", 11, 13),
		fU("VerticalRateSource", 36, 36),
	}
	step := 1.0
	if sub%2 == 0 {
		step = 4
	}
	f = append(f, signedField("VerticalRate", "VerticalRateStatus", 37, 38, 46, 64, 32640)...)
	if sub <= 2 {
		f = append(f, fU("DirectionEastWest", 14, 14), fU("DirectionNorthSouth", 25, 25))
		f = append(f, speedField("VelocityEW", "VelocityEWStatus", 15, 24, step)...)
		f = append(f, speedField("VelocityNS", "VelocityNSStatus", 26, 35, step)...)
		f = append(f, signedField("DifferenceAltitudeGNSSBaro", "DifferenceAltitudeGNSSBaroStatus", 49, 50, 56, 25, 3150)...)
	} else {
		f = append(f, fU("MagneticHeadingStatus", 14, 14), fL("MagneticHeading", 15, 24, 360.0/1024, 0))
		f = append(f, speedField("Airspeed", "AirspeedStatus", 26, 35, step)...)
		f = append(f, signedField("HeightDifferenceFromBaro", "HeightDifferenceFromBaroStatus", 49, 50, 56, 25, 3150)...)
	}
	name := []string{"", "GroundSpeedNormal", "GroundSpeedSupersonic", "AirSpeedNormal", "AirSpeedSupersonic"}[sub]
	return &Reg{Name: name, Type: "bds09.AirborneVelocity" + name, Fields: f, Ident: [][3]int{{1, 5, 19}, {6, 8, sub}}}
}

var velocityRegs = map[int64]*Reg{1: velocityReg(1), 2: velocityReg(2), 3: velocityReg(3), 4: velocityReg(4)}

// velocityDerived is the ground speed and track of a ground-speed message.
func velocityDerived(b Bits) (speed uint32, track float64, ok bool) {
	ew, ns := b.U(15, 24), b.U(26, 35)
	if ew == 0 || ns == 0 || ew == 1023 || ns == 1023 {
		return 0, 0, false
	}
	e, n := float64(ew-1), float64(ns-1)
	if b.U(6, 8) == 2 {
		e, n = e*4, n*4
	}
	if b.U(14, 14) == 1 {
		e = -e
	}
	if b.U(25, 25) == 1 {
		n = -n
	}
	s := int64(e*e + n*n)
	k := int64(math.Sqrt(float64(s)))
	for k*k > s {
		k--
	}
	for (k+1)*(k+1) <= s {
		k++
	}
	t := math.Atan2(e, n) * 180 / math.Pi
	if t < 0 {
		t += 360
	}
	return uint32(k), t, true
}

// ---------------------------------------------------------------- aircraft status 6,1

var regStatusNone = &Reg{Name: "AircraftStatusNoInformation", Type: "bds61.AircraftStatusNoInformation",
	Fields: []F{fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 8), fU("EmergencyPriorityStatus", 9, 11)},
	Ident:  [][3]int{{1, 5, 28}, {6, 8, 0}}, Zero: [][2]int{{12, 56}}}

var regStatusEmergency = &Reg{Name: "AircraftStatusEmergency", Type: "bds61.AircraftStatusEmergency",
	Fields: []F{fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 8), fU("EmergencyPriorityStatus", 9, 11), fU("ModeACode", 12, 24)},
	Ident:  [][3]int{{1, 5, 28}, {6, 8, 1}}, Zero: [][2]int{{25, 56}}}

var regStatusACAS = &Reg{Name: "AircraftStatusACAS", Type: "bds61.AircraftStatusACAS",
	Fields: append([]F{fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 8)}, raSpans(8)...),
	More:   func(b Bits) []F { return raFields("ResolutionAdvisory.", b[1:7], 8) },
	Accept: func(b Bits) bool { return raAccept(b[1:7]) },
	Gen:    func(r *Rand, b Bits) { raGen(r, b[1:7]) },
	Ident:  [][3]int{{1, 5, 28}, {6, 8, 2}}}

var statusRegs = map[int64]*Reg{0: regStatusNone, 1: regStatusEmergency, 2: regStatusACAS}

// ---------------------------------------------------------------- target state 6,2

var regTarget0 = &Reg{Name: "TargetStateAndStatus0", Type: "bds62.TargetStateAndStatus0",
	Fields: []F{
		fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 7),
		fU("VerticalDataAvailableSourceIndicator", 8, 9),
		fU("TargetAltitudeType", 10, 10),
		fU("TargetAltitudeCapability", 12, 13),
		fU("VerticalModeIndicator", 14, 15),
		fX("TargetAltitudeStatus", 16, 25, func(b Bits) float64 {
			if b.U(16, 25) > 1010 {
				return numMax
			}
			return numRegular
		}),
		fX("TargetAltitude", 16, 25, func(b Bits) float64 {
			if n := b.U(16, 25); n <= 1010 {
				return float64(n)*100 - 1000
			}
			return 0
		}),
		fU("HorizontalDataAvailableSourceIndicator", 26, 27),
		fX("TargetHeadingTrackAngleStatus", 28, 36, func(b Bits) float64 {
			if b.U(28, 36) > 359 {
				return numMax
			}
			return numRegular
		}),
		fX("TargetHeadingTrackAngle", 28, 36, func(b Bits) float64 {
			if n := b.U(28, 36); n <= 359 {
				return float64(n)
			}
			return 0
		}),
		fU("TargetHeadingTrackIndicator", 37, 37),
		fU("HorizontalModeIndicator", 38, 39),
		fU("NavigationalAccuracyCategoryPosition", 40, 43),
		fU("NICBaro", 44, 44),
		fU("SurveillanceIntegrityLevel", 45, 46),
		fU("CapabilityModeCode", 52, 53),
		fU("EmergencyPriorityStatus", 54, 56),
	},
	Ident: [][3]int{{1, 5, 29}, {6, 7, 0}}, Zero: [][2]int{{47, 51}}}

var regTarget1 = &Reg{Name: "TargetStateAndStatus1", Type: "bds62.TargetStateAndStatus1",
	Fields: []F{
		fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 7),
		fU("SourceIntegrityLevelSupplement", 8, 8),
		fU("SelectedAltitudeType", 9, 9),
		fX("SelectedAltitudeStatus", 10, 20, func(b Bits) float64 {
			if b.U(10, 20) == 0 {
				return numNone
			}
			return numRegular
		}),
		fX("SelectedAltitude", 10, 20, func(b Bits) float64 {
			if n := b.U(10, 20); n > 0 {
				return float64(n-1) * 32
			}
			return 0
		}),
		fX("BarometricPressureSettingStatus", 21, 29, func(b Bits) float64 {
			if b.U(21, 29) == 0 {
				return numNone
			}
			return numRegular
		}),
		fX("BarometricPressureSetting", 21, 29, func(b Bits) float64 {
			if n := b.U(21, 29); n > 0 {
				return float64(n-1)*0.8 + 800
			}
			return 0
		}),
		fU("SelectedHeadingStatus", 30, 30),
		fS("SelectedHeading", 31, 32, 39, 180.0/256),
		fU("NavigationalAccuracyCategoryPosition", 40, 43),
		fU("NICBaro", 44, 44),
		fU("SourceIntegrityLevel", 45, 46),
		fU("StatusMCPFCUBits", 47, 47),
		fB("AutopilotEngaged", 48), fB("VNAVModeEngaged", 49), fB("AltitudeHoldModeEngaged", 50),
		fB("ApproachModeEngaged", 52), fB("TCASACASOperational", 53), fB("LNAVModeEngaged", 54), // 51: ADS-R flag
	},
	Ident: [][3]int{{1, 5, 29}, {6, 7, 1}}}

var targetRegs = map[int64]*Reg{0: regTarget0, 1: regTarget1}

// ---------------------------------------------------------------- operational status 6,5

var regOps0 = &Reg{Name: "OperationalStatusADSB0", Type: "bds65.AircraftOperationalStatusADSB0",
	Fields: []F{
		fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 8),
		fU("EnRouteOperationalCapabilities", 9, 12), fU("TerminalAreaOperationalCapabilities", 13, 16),
		fU("ApproachLandingOperationalCapabilities", 17, 20), fU("SurfaceOperationalCapabilities", 21, 24),
		fU("EnRouteOperationalCapabilityStatus", 25, 28), fU("TerminalAreaOperationalCapabilityStatus", 29, 32),
		fU("ApproachLandingOperationalCapabilityStatus", 33, 36), fU("SurfaceOperationalCapabilityStatus", 37, 40),
	},
	Ident: [][3]int{{1, 5, 31}, {6, 8, 0}}, Zero: [][2]int{{41, 56}}}

var regOpsA1 = &Reg{Name: "OperationalStatusAirborneADSB1", Type: "bds65.AircraftOperationalStatusAirborneADSB1",
	Fields: []F{
		fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 8),
		fU("AirborneCapabilityClass.NotACASStatus", 11, 11),
		fU("AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus", 12, 12),
		fU("AirborneCapabilityClass.AirReferencedVelocityReportCapability", 15, 15),
		fU("AirborneCapabilityClass.TargetStateReportCapability", 16, 16),
		fU("AirborneCapabilityClass.TargetChangeReportCapability", 17, 18),
		fU("OperationalMode.ACASResolutionAdvisoryActive", 27, 27),
		fU("OperationalMode.IdentSwitchActive", 28, 28),
		fU("OperationalMode.ReceivingATCServices", 29, 29),
		fU("VersionNumber", 41, 43),
		fU("NICSupplement", 44, 44),
		fU("NavigationalAccuracyCategoryPosition", 45, 48),
		fU("SurveillanceIntegrityLevel", 51, 52),
		fU("NICBaro", 53, 53),
		fU("HorizontalReferenceDirection", 54, 54),
	},
	Ident: [][3]int{{1, 5, 31}, {6, 8, 0}, {41, 43, 1}},
	Zero:  [][2]int{{9, 10}, {13, 14}, {25, 26}, {49, 50}, {55, 56}}}

var regOpsS1 = &Reg{Name: "OperationalStatusSurfaceADSB1", Type: "bds65.AircraftOperationalStatusSurfaceADSB1",
	Fields: []F{
		fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 8),
		fU("SurfaceCapabilityClass.PositionOffsetApplied", 11, 11),
		fU("SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus", 12, 12),
		fU("SurfaceCapabilityClass.B2Low", 15, 15),
		fU("LengthAndWidth", 21, 24),
		fU("OperationalMode.ACASResolutionAdvisoryActive", 27, 27),
		fU("OperationalMode.IdentSwitchActive", 28, 28),
		fU("OperationalMode.ReceivingATCServices", 29, 29),
		fU("VersionNumber", 41, 43),
		fU("NICSupplement", 44, 44),
		fU("NavigationalAccuracyCategoryPosition", 45, 48),
		fU("SurveillanceIntegrityLevel", 51, 52),
		fU("TrackAngleHeading", 53, 53),
		fU("HorizontalReferenceDirection", 54, 54),
	},
	Ident: [][3]int{{1, 5, 31}, {6, 8, 1}, {41, 43, 1}},
	Zero:  [][2]int{{9, 10}, {13, 14}, {25, 26}, {49, 50}, {55, 56}}}

var regOpsA2 = &Reg{Name: "OperationalStatusAirborneADSB2", Type: "bds65.AircraftOperationalStatusAirborneADSB2",
	Fields: []F{
		fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 8),
		fU("AirborneCapabilityClass.ACASOperational", 11, 11),
		fU("AirborneCapabilityClass.ExtendedSquitterIn", 12, 12),
		fU("AirborneCapabilityClass.AirReferencedVelocityReportCapability", 15, 15),
		fU("AirborneCapabilityClass.TargetStateReportCapability", 16, 16),
		fU("AirborneCapabilityClass.TargetChangeReportCapability", 17, 18),
		fU("AirborneCapabilityClass.UniversalAccessTransceiverCapability", 19, 19),
		fU("OperationalMode.ACASResolutionAdvisoryActive", 27, 27),
		fU("OperationalMode.IdentSwitchActive", 28, 28),
		fU("OperationalMode.SingleAntennaFlag", 30, 30),
		fU("OperationalMode.SystemDesignAssurance", 31, 32),
		fU("VersionNumber", 41, 43),
		fU("NICSupplementA", 44, 44),
		fU("NavigationalAccuracyCategoryPosition", 45, 48),
		fU("GeometricVerticalAccuracy", 49, 50),
		fU("SourceIntegrityLevel", 51, 52),
		fU("NICBaro", 53, 53),
		fU("HorizontalReferenceDirection", 54, 54),
		fU("SourceIntegrityLevelSupplement", 55, 55),
	},
	Ident: [][3]int{{1, 5, 31}, {6, 8, 0}, {41, 43, 2}},
	Zero:  [][2]int{{9, 10}, {25, 26}, {56, 56}}}

var regOpsS2 = &Reg{Name: "OperationalStatusSurfaceADSB2", Type: "bds65.AircraftOperationalStatusSurfaceADSB2",
	Fields: []F{
		fU("FormatTypeCode", 1, 5), fU("Subtype", 6, 8),
		fU("SurfaceCapabilityClass.ExtendedSquitterIn", 12, 12),
		fU("SurfaceCapabilityClass.B2Low", 15, 15),
		fU("SurfaceCapabilityClass.UniversalAccessTransceiverCapability", 16, 16),
		fU("SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity", 17, 19),
		fU("SurfaceCapabilityClass.NICSupplementC", 20, 20),
		fU("LengthAndWidth", 21, 24),
		fU("OperationalMode.ACASResolutionAdvisoryActive", 27, 27),
		fU("OperationalMode.IdentSwitchActive", 28, 28),
		fU("OperationalMode.SingleAntennaFlag", 30, 30),
		fU("OperationalMode.SystemDesignAssurance", 31, 32),
		fU("OperationalMode.GPSAntenna.GPSAntennaLateral", 33, 35),
		fU("OperationalMode.GPSAntenna.GPSAntennaLongitudinal", 36, 40),
		fU("VersionNumber", 41, 43),
		fU("NICSupplementA", 44, 44),
		fU("NavigationalAccuracyCategoryPosition", 45, 48),
		fU("SourceIntegrityLevel", 51, 52),
		fU("TrackAngleHeading", 53, 53),
		fU("HorizontalReferenceDirection", 54, 54),
		fU("SourceIntegrityLevelSupplement", 55, 55),
	},
	Ident: [][3]int{{1, 5, 31}, {6, 8, 1}, {41, 43, 2}},
	Zero:  [][2]int{{9, 10}, {25, 26}, {56, 56}}}

var opsRegs = []*Reg{regOps0, regOpsA1, regOpsS1, regOpsA2, regOpsS2}

func opsVariant(b Bits) *Reg {
	sub := b.U(6, 8)
	switch b.U(41, 43) {
	case 0:
		return regOps0
	case 1:
		return map[int64]*Reg{0: regOpsA1, 1: regOpsS1}[sub]
	case 2:
		return map[int64]*Reg{0: regOpsA2, 1: regOpsS2}[sub]
	}
	return nil
}

// adsbVariant is the layout an ADS-B field must be decoded with (nil: refused).
func adsbVariant(version int64, a, c bool, b Bits) *Reg {
	switch tc := b.U(1, 5); {
	case tc == 0:
		if b.U(21, 56) == 0 {
			return regNoPosition
		}
		return regType0
	case tc <= 4:
		return regIdent
	case tc <= 8:
		return surfacePos(version, a, c)
	case tc == 19:
		return velocityRegs[b.U(6, 8)]
	case tc <= 22:
		return airbornePos(version, a)
	case tc == 28:
		return statusRegs[b.U(6, 8)]
	case tc == 29:
		return targetRegs[b.U(6, 7)]
	case tc == 31:
		return opsVariant(b)
	}
	return nil
}
