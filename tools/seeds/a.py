CRC = "pkg/modes/reader/crc.go"
SEAL = '''
func seal(b []byte, overlay uint32) []byte {
	crc := uint32(0)
	n := len(b) - 3
	for i := 0; i < n*8; i++ {
		bit := uint32(b[i/8]>>uint(7-i%8)) & 1
		top := crc >> 23 & 1
		crc = crc << 1 & 0xFFFFFF
		if top^bit == 1 {
			crc ^= 0xFFF409
		}
	}
	crc ^= overlay
	b[n], b[n+1], b[n+2] = byte(crc>>16), byte(crc>>8), byte(crc)
	return b
}
'''
NL = '''
func nl(lat float64) float64 {
	lat = math.Abs(lat)
	if lat > 87 {
		return 1
	}
	if lat == 87 {
		return 2
	}
	c := math.Cos(lat * math.Pi / 180)
	return math.Floor(2 * math.Pi / math.Acos(1-(1-math.Cos(math.Pi/30))/(c*c)))
}

func enc(lat, lon, span, odd float64) (uint32, uint32) {
	m := func(x, y float64) float64 { return x - y*math.Floor(x/y) }
	dlat := span / (60 - odd)
	yz := math.Floor(131072*m(lat, dlat)/dlat + 0.5)
	rlat := dlat * (yz/131072 + math.Floor(lat/dlat))
	dlon := span / math.Max(nl(rlat)-odd, 1)
	xz := math.Floor(131072*m(lon, dlon)/dlon + 0.5)
	return uint32(yz) & 0x1FFFF, uint32(xz) & 0x1FFFF
}
'''
SEEDS = [
dict(id="c03-ii-seven-bits", property="C03",
  edits=[(CRC, "common.ICAOAddress(contentParity ^ messageParity)\n\n\t// If the interrogator is", "common.ICAOAddress((contentParity ^ messageParity) & 0x00007F)\n\n\t// If the interrogator is")],
  needs="an all-call reply whose recovered overlay has bits above the seven of an interrogator code (a corrupted reply), with a list of allowed interrogators that contains its low seven bits",
  breaks="the corrupted reply is accepted as a reply to an allowed interrogator",
  imports=["@modes/reader", "@modes/common"], decl=SEAL,
  demo='''f := seal(h("5D4CA5A8000000"), 0x120005)
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	a, err := reader.CheckCRC(m, f, nil, map[common.ICAOAddress]bool{5: true})
	want(err != nil, "a reply that resolves to 120005 is accepted as %v", a)'''),
dict(id="c01-df19-short", property="C01",
  edits=[("pkg/modes/messages/df19.go", "if len(message.Payload) != 10 {", "if len(message.Payload) < 3 {")],
  needs="a 7-byte frame that starts with the military extended squitter's format number",
  breaks="a short frame is decoded as a long format",
  imports=["@modes/reader"],
  demo='''m, err := reader.ReadMessage(h("9B123456789ABC"))
	want(err != nil, "a 7-byte format 19 is decoded as %T", m)'''),
dict(id="c05-emergency-prefix", property="C05",
  edits=[("pkg/modes/fields/identity.go", 'return identity.Identity == "7700"', 'return identity.Identity[:2] == "77"')],
  needs="a squawk between 7701 and 7777",
  breaks="discrete codes of the 77 block are reported as the emergency code",
  imports=["@modes/fields"],
  demo='''want(!fields.Identity{Identity: "7712"}.IsSpecialEmergency(), "7712 is reported as an emergency")
	want(fields.Identity{Identity: "7700"}.IsSpecialEmergency(), "7700 is not reported as an emergency")'''),
dict(id="c07-nic-a-and-b", property="C07",
  edits=[("pkg/adsb/airborne_position/airborne_position_v2.go", '''		if !nicSupplementA {
			if nicSupplementB == fields.NICBOne {
				return fields.HCRBaroV2RcLowerThan0Point3NM, 6
			} else {
				return fields.HCRBaroV2RcLowerThan0Point5NM, 6
			}
		} else {
			return fields.HCRBaroV2RcLowerThan0Point6NM, 6
		}''', '''		if nicSupplementB == fields.NICBOne {
			return fields.HCRBaroV2RcLowerThan0Point3NM, 6
		} else if nicSupplementA {
			return fields.HCRBaroV2RcLowerThan0Point6NM, 6
		} else {
			return fields.HCRBaroV2RcLowerThan0Point5NM, 6
		}''')],
  needs="an ADS-B 2 airborne position of type 13 with both supplements A and B set",
  breaks="a containment radius of 0.3 NM is reported where the standard says 0.6 NM",
  imports=["@adsb/airborne_position", "@adsb/airborne_position/fields"],
  demo='''m, err := airborne_position.ReadAirbornePositionV2(h("69C382D690C8AC"), true)
	want(err == nil, "%v", err)
	want(m.HorizontalContainmentRadius == fields.HCRBaroV2RcLowerThan0Point6NM, "got %v", m.HorizontalContainmentRadius.ToString())'''),
dict(id="c09-speed-overflow", property="C09",
  edits=[("pkg/bds/bds09/airborne_velocity_ground_speed_supersonic.go", '''	velocityEW := float64(message.VelocityEW)
	velocityNS := float64(message.VelocityNS)

	speed := math.Sqrt(velocityEW*velocityEW + velocityNS*velocityNS)

	return uint32(speed), nil''', '''	squareEW := float64(message.VelocityEW * message.VelocityEW)
	squareNS := float64(message.VelocityNS * message.VelocityNS)

	return uint32(math.Sqrt(squareEW + squareNS)), nil''')],
  needs="a supersonic ground speed message with a component of 256 kt or more",
  breaks="the derived speed is far too low",
  imports=["@bds/bds09"],
  demo='''// east 800 kt (code 201), north 600 kt (code 151)
	m, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic(h("9A00C912E00400"))
	want(err == nil, "%v", err)
	want(m.VelocityEW == 800 && m.VelocityNS == 600, "components %v %v", m.VelocityEW, m.VelocityNS)
	s, err := m.GetSpeed()
	want(err == nil && s == 1000, "speed %v %v", s, err)'''),
dict(id="c09-track-north-zero", property="C09",
  edits=[("pkg/bds/bds09/airborne_velocity_ground_speed_normal.go", "	if message.DirectionEastWest == fields.DEWWest {\n\t\tvelocityEW = -velocityEW\n\t}\n", "	if velocityNS == 0 {\n\t\treturn 90, nil\n\t}\n\n\tif message.DirectionEastWest == fields.DEWWest {\n\t\tvelocityEW = -velocityEW\n\t}\n")],
  needs="a north-south component of exactly 0 kt with a west component",
  breaks="an aircraft flying due west is reported flying due east",
  imports=["@bds/bds09"],
  demo='''m, err := bds09.ReadAirborneVelocityGroundSpeedNormal(h("99056500200400"))
	want(err == nil, "%v", err)
	want(m.VelocityEW == 356 && m.VelocityNS == 0, "components %v %v", m.VelocityEW, m.VelocityNS)
	t, err := m.GetTrack()
	want(err == nil && t == 270, "track %v %v", t, err)'''),
dict(id="c10-null-as-space", property="C10",
  edits=[("pkg/bds/bds08/aircraft_identification_and_category.go", "	for i, code := range codes {\n", "	for i, code := range codes {\n\t\tif code == 0 && i == len(codes)-1 {\n\t\t\tchars[i] = ' '\n\t\t\tcontinue\n\t\t}\n\n")],
  needs="a broadcast identification whose last character has the unassigned code 0",
  breaks="an unassigned code is shown as a space",
  imports=["@bds/bds08"],
  demo='''m, err := bds08.ReadAircraftIdentificationAndCategory(h("202CC371C32CC0"))
	want(err == nil, "%v", err)
	want(m.Identification[7] != ' ', "identification %q", m.Identification)'''),
dict(id="c11-last-reserved-byte", property="C11",
  edits=[("pkg/bds/bds61/aircraft_status_emergency.go", "for i := uint(3); i < 7; i++ {", "for i := 3; i < len(data)-1; i++ {")],
  needs="an emergency status whose reserved field is zero but for its last byte",
  breaks="a message with a reserved pattern is accepted",
  imports=["@bds/bds61"],
  demo='''m, err := bds61.ReadAircraftStatus(h("E12AAA00000040"))
	want(err != nil, "accepted as %T", m)'''),
dict(id="c13-subtype-mask", property="C13",
  edits=[("pkg/bds/bds65/aircraft_operational_status.go", "subType := data[0] & 0x07", "subType := data[0] & 0x01"),
         ("pkg/bds/bds65/fields/subtype.go", "data[0] & 0x07", "data[0] & 0x01")],
  needs="an operational status with a reserved subtype (2 to 7); both sites change together",
  breaks="a reserved subtype is decoded as an airborne or surface status",
  imports=["@bds/bds65"],
  demo='''m, err := bds65.ReadAircraftOperationalStatus(h("FA000000004000"))
	want(err != nil, "accepted as %T", m)'''),
dict(id="c15-gicb-last-byte", property="C15",
  edits=[("pkg/bds/bds17/common_usage_gicb_capability_report.go", "for i := uint(4); i < 7; i++ {", "for i := uint(4); i < 6; i++ {")],
  needs="a field whose only reserved bits set are the last eight",
  breaks="a field that is not a capability report is accepted as one",
  imports=["@bds/bds17"],
  demo='''_, err := bds17.ReadCommonUsageGICBCapabilityReport(h("FA81C100000001"))
	want(err != nil, "accepted")'''),
dict(id="c16-roll-most-negative", property="C16",
  edits=[("pkg/bds/bds50/fields/roll_angle.go", "if (data[0]&0x40)>>6 != 0 {", "if (data[0]&0x40)>>6 != 0 && allBits != 0 {")],
  needs="the roll code with only the sign bit set (-90 degrees)",
  breaks="a roll of -90 degrees is reported as 0",
  imports=["@bds/bds50"],
  demo='''m, err := bds50.ReadTrackAndTurnReport(h("C0000000000000"))
	want(err == nil, "%v", err)
	want(m.RollAngle == -90, "roll %v", m.RollAngle)'''),
dict(id="c18-one-weather", property="C18",
  edits=[("pkg/commb/reader.go", 'modes/pkg/bds/bds60"\n', 'modes/pkg/bds/bds60"\n\t"github.com/twuillemin/modes/pkg/bds/register"\n'), ("pkg/commb/reader.go", "	for _, message := range messages {\n\t\tif message.CheckCoherency() == nil {", "	for _, message := range messages {\n\t\tif len(coherentMessages) > 0 && message.GetRegister() == register.BDS45 && coherentMessages[len(coherentMessages)-1].GetRegister() == register.BDS44 {\n\t\t\tcontinue\n\t\t}\n\n\t\tif message.CheckCoherency() == nil {")],
  needs="a field that is plausible both as the routine (4,4) and as the hazard (4,5) weather report",
  breaks="the second plausible register is left out",
  imports=["@commb", "@bds/bds44", "@bds/bds45", "math/rand"],
  demo='''r := rand.New(rand.NewSource(1))
	both := 0
	for n := 0; n < 3000000 && both < 20; n++ {
		d := make([]byte, 7)
		for i := range d {
			d[i] = byte(r.Intn(256) & r.Intn(256) & r.Intn(256))
		}
		a, e1 := bds44.ReadMeteorologicalRoutineAirReport(d)
		b, e2 := bds45.ReadMeteorologicalHazardReport(d)
		if e1 != nil || e2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil || d[0] == 0x20 {
			continue
		}
		both++
		ms, err := commb.ReadCommBMessage(d)
		want(err == nil, "%v", err)
		n44, n45 := 0, 0
		for _, m := range ms {
			switch m.(type) {
			case *bds44.MeteorologicalRoutineAirReportV0, *bds44.MeteorologicalRoutineAirReportV1, *bds44.MeteorologicalRoutineAirReportV2:
				n44++
			case *bds45.MeteorologicalHazardReportV0, *bds45.MeteorologicalHazardReportV1:
				n45++
			}
		}
		want(n44 == 1 && n45 == 1, "% X: %v times 4,4 and %v times 4,5", d, n44, n45)
	}'''),
dict(id="c19-mach-one", property="C19",
  edits=[("pkg/bds/bds60/heading_and_speed_report.go", "if message.Mach > 1.0 {", "if message.Mach >= 1.0 {")],
  needs="a Mach number of exactly 1 (code 250)",
  breaks="a value on the limit is judged impossible",
  imports=["@bds/bds60"],
  demo='''want(bds60.HeadingAndTrackReport{MachStatus: true, Mach: 1}.CheckCoherency() == nil, "Mach 1.0 is refused")'''),
dict(id="c20-south-pole", property="C20",
  edits=[("pkg/geo/cpr_airborne_global_position.go", "if latitudeEven >= 270 {", "if latitudeEven > 270 {")],
  needs="an even latitude of exactly -90 degrees",
  breaks="an aircraft over the south pole is refused",
  imports=["@geo", "math"], decl=NL,
  demo='''ye, xe := enc(-90, 10, 360, 0)
	yo, xo := enc(-90, 10, 360, 1)
	lat, lon, err := geo.GetCPRAirborneGlobalPosition(ye, xe, yo, xo, true)
	want(err == nil && math.Abs(lat+90) < 1e-3 && math.Abs(lon-10) < 1e-2, "%v %v %v", lat, lon, err)'''),
dict(id="c21-south-reference", property="C21",
  edits=[("pkg/geo/cpr_airborne_local_position.go", "math.Floor(mod(referenceLatitude, dLat)/dLat-latCPR+0.5)", "math.Floor(math.Mod(referenceLatitude, dLat)/dLat-latCPR+0.5)")],
  needs="a reference in the southern hemisphere",
  breaks="the decoded position is one latitude zone off",
  imports=["@geo", "math"], decl=NL,
  demo='''y, x := enc(-33.9, 151.2, 360, 0)
	lat, lon := geo.GetCPRAirborneLocalPosition(y, x, -33.5, 151, false)
	want(math.Abs(lat+33.9) < 1e-3 && math.Abs(lon-151.2) < 1e-3, "%v %v", lat, lon)'''),
dict(id="c22-polar-odd", property="C22",
  edits=[("pkg/geo/cpr_surface_global_position.go", "nOdd := math.Max(numberLongitude-1, 1)", "nOdd := numberLongitude - 1")],
  needs="a surface pair beyond 87 degrees of latitude with the odd message the most recent",
  breaks="the longitude is not a number or the decoder panics",
  imports=["@geo", "math"], decl=NL,
  demo='''ye, xe := enc(88, 100, 90, 0)
	yo, xo := enc(88, 100, 90, 1)
	lat, lon, err := geo.GetCPRSurfaceGlobalPosition(ye, xe, yo, xo, false, 88, 100)
	want(err == nil && math.Abs(lat-88) < 1e-3 && math.Abs(lon-100) < 1e-2, "%v %v %v", lat, lon, err)'''),
dict(id="c23-flat-shortcut", property="C23",
  edits=[("pkg/geo/ground_distance.go", "	a := math.Pow(", "	// Close points: the earth is flat\n\tif math.Abs(deltaPhi) < 1e-4 && math.Abs(deltaLambda) < 1e-4 {\n\t\treturn earthRadius * math.Hypot(deltaPhi, deltaLambda*math.Cos(phi1))\n\t}\n\n\ta := math.Pow(")],
  needs="two points less than 0.0057 degrees apart, away from the equator",
  breaks="the distance depends on the order of the points and is centimetres off",
  imports=["@geo", "math"],
  demo='''a := geo.ComputeGroundDistance(70, 20, 70.005, 20.005)
	b := geo.ComputeGroundDistance(70.005, 20.005, 70, 20)
	want(math.Abs(a-b) < 1e-3, "%v one way, %v the other", a, b)'''),
dict(id="c24-flight-status-table", property="C24",
  edits=[("pkg/modes/fields/flight_status.go", "	switch flightStatus {\n", "	if _, ok := alertStatuses[flightStatus]; !ok {\n\t\tpanic(\"unexpected flight status\")\n\t}\n\n\tswitch flightStatus {\n"),
         ("pkg/modes/fields/flight_status.go", "// ToString returns", "var alertStatuses = map[FlightStatus]bool{0: false, 1: false, 2: true, 3: true, 4: true, 5: false, 6: false}\n\n// ToString returns")],
  needs="printing a surveillance or Comm-B reply with flight status 7",
  breaks="printing the message panics",
  imports=["@modes/reader"],
  demo='''m, err := reader.ReadMessage(h("270000000000000000000000")[:7])
	want(err == nil, "%v", err)
	want(m.ToString() != "", "empty")'''),
dict(id="c25-shared-crc", property="C25",
  edits=[(CRC, "	crc := make([]byte, crcLength)\n", "	crc := crcRegister\n"),
         (CRC, "var crcPolynomial = []uint8{0xFF, 0xF4, 0x09}\n", "var crcPolynomial = []uint8{0xFF, 0xF4, 0x09}\n\n// crcRegister is the shift register of the computation\nvar crcRegister = make([]uint8, 3)\n")],
  needs="two goroutines checking the parity of frames at the same time",
  breaks="concurrent parity checks corrupt each other",
  imports=["@modes/reader", "sync"], decl=SEAL, race=True,
  demo='''var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		f := seal(h("8D40621D58C382D690C8AC000000"), 0)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				m, _ := reader.ReadMessage(f)
				_, err := reader.CheckCRC(m, f, nil, nil)
				want(err == nil, "%v", err)
			}
		}()
	}
	wg.Wait()'''),
dict(id="c08-odd-latitude", property="C08",
  edits=[("pkg/bds/bds06/fields/encoded_latitude.go", "(data[4]&0xFE)>>1", "(data[4]&0xFC)>>1")],
  needs="a surface position with an odd encoded latitude",
  breaks="the last bit of the latitude is lost",
  imports=["@bds/bds06"],
  demo='''m, err := bds06.ReadSurfacePosition(h("2A000000020000"))
	want(err == nil, "%v", err)
	want(m.EncodedLatitude == 1, "%x", m.EncodedLatitude)'''),
]
