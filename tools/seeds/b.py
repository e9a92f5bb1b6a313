SEAL = '''
func seal(b []byte, overlay uint32) []byte {
	crc := uint32(0)
	n := len(b) - 3
	for i := 0; i < n*8; i++ {
		bit := uint32(b[i/8]>>uint(7-i%8)) & 1
		top := crc >> 23 & 1
		crc = crc << 1 & 0xFFFFFF
		if top^bit == 1 {
			crc ^= 0xFFF409
		}
	}
	crc ^= overlay
	b[n], b[n+1], b[n+2] = byte(crc>>16), byte(crc>>8), byte(crc)
	return b
}
'''
F = "pkg/modes/fields/"
CLI = '''cat >"$T/in" <<'X'
%s
X
cd "$R" && go build -o "$T/modes" ./cmd || exit 2
cd "$T" && ./modes %s >out 2>&1 || { cat out; exit 1; }
%s
'''
SEEDS = [
dict(id="c02-utility-ii-carry", property="C02",
  edits=[(F+"utility_message.go", "ii := ((message.Payload[0] & 0x07) << 1) | ((message.Payload[1] & 0x80) >> 7)", "ii := ((message.Payload[0] & 0x07) << 1) ^ ((message.Payload[1] & 0x81) >> 7) ^ (message.Payload[2] & message.Payload[1] & 0x01 & (message.Payload[0] >> 2))")],
  needs="a DF4/5/20/21 whose utility message is 8 or more while the last bit of the following two bytes is set",
  breaks="the interrogator identifier of the utility message depends on the altitude or identity code that follows it",
  imports=["@modes/reader", "@modes/messages"],
  demo='''m, err := reader.ReadMessage(h("20040101000000"))
	want(err == nil, "%v", err)
	got := m.(*messages.MessageDF4).UtilityMessage.InterrogatorIdentifier
	want(got == 8, "interrogator identifier: %v, sent 8", got)'''),
dict(id="c04-metric-zero", property="C04",
  edits=[(F+"altitude_code.go", "if altitudeCode == 0 {", "if altitudeCode&^0x0040 == 0 {")],
  needs="an altitude code of which only the metric bit is set",
  breaks="a metric altitude of zero is reported as not available",
  imports=["@modes/reader", "@modes/messages"],
  demo='''m, err := reader.ReadMessage(h("20000040000000"))
	want(err == nil, "%v", err)
	f := m.(*messages.MessageDF4)
	want(f.AltitudeReportMethod.ToString() == "2 - Metric Units", "method %v", f.AltitudeReportMethod.ToString())'''),
dict(id="c06-no-position-last-byte", property="C06",
  edits=[("pkg/adsb/reader/reader.go", "if data[2]&0x0F == 0 && data[3] == 0 && data[4] == 0 && data[5] == 0 && data[6] == 0 {", "if data[2]&0x0F == 0 && (data[3] == 0 && data[4]|data[5] == 0 || data[3]|data[4]|data[5]|data[6] == 0) {")],
  needs="a type 0 squitter with an altitude and a position of which only the last byte is not zero",
  breaks="a position close to zero is reported as no position information",
  imports=["@adsb/reader", "@adsb"],
  demo='''m, err := reader.ReadADSBMessage(adsb.ADSBV0, false, false, h("00C38000000001"))
	name := fmt.Sprintf("%T", m)
	m2, err2 := reader.ReadADSBMessage(adsb.ADSBV0, false, false, h("00C38000000101"))
	want((err == nil) == (err2 == nil) && name == fmt.Sprintf("%T", m2), "%v %v but %T %v", name, err, m2, err2)'''),
dict(id="c12-altitude-1010", property="C12",
  edits=[("pkg/bds/bds62/fields/target_altitude.go", "if targetAltitude > 1010 {", "if targetAltitude >= 1010 {")],
  needs="a target altitude of exactly 100000 ft", breaks="the highest target altitude is reported as beyond the range",
  imports=["@bds/bds62/fields"],
  demo='''a, s := fields.ReadTargetAltitude([]byte{0xE8, 1010 >> 8 & 1, 0, 0, 0, 0, 0})
	_ = s
	d := []byte{0xE8, byte(1010 >> 8 & 1), byte(1010 & 0xFF), 0, 0, 0, 0}
	_ = d
	for v := uint(0); v < 1024; v++ {
		f := []byte{0xE8, byte(v >> 9 & 1), byte(v >> 1), byte(v << 7), 0, 0, 0}
		a, s = fields.ReadTargetAltitude(f)
		if v <= 1010 && v < 512 {
			want(s == fields.NVSRegular && a == int32(v)*100-1000, "%v is %v %v", v, a, s)
		}
	}
	a, s = fields.ReadTargetAltitude([]byte{0xE8, 1, 0xF9, 0, 0, 0, 0})
	want(s == fields.NVSRegular && a == 100000, "1010 is %v %v", a, s)'''),
dict(id="c14-mte-only", property="C14",
  edits=[("pkg/acas/ra/fields/active_resolution_advisory.go", "if araFirstBit == 1 {", "if araFirstBit == 1 || (mte != 0 && data[0]&0x7F == 0 && data[1]&0xFC != 0) {")],
  needs="several threats with different separations where only the last reserved bits of the advisory are set",
  breaks="an advisory for several threats is decoded as one for a single threat",
  imports=["@acas/ra"],
  demo='''m, err := ra.ReadResolutionAdvisory([]byte{0, 0x04, 0x10, 0, 0, 0})
	want(err == nil, "%v", err)
	want(int(m.ActiveRA.GetType()) == 1, "type %v", m.ActiveRA.GetType())'''),
dict(id="c14-gray-d1", property="C14",
  edits=[("pkg/bitutils/gillham.go", "temp = num ^ (num >> 8)", "temp = num ^ (num >> 9)")],
  needs="a threat altitude with the D1 bit set (above 62700 ft)",
  breaks="the altitude of a very high threat is wrong",
  imports=["@bitutils"],
  demo='''b := func(v, n int) bool { return v>>uint(n)&1 != 0 }
	code := map[int32]int{}
	for v := 0; v < 4096; v++ {
		a, err := bitutils.GillhamToAltitude(b(v, 11), b(v, 10), b(v, 9), b(v, 8), b(v, 7), b(v, 6), b(v, 5), b(v, 4), b(v, 3), b(v, 2), b(v, 1), b(v, 0))
		if err == nil {
			code[a] = v
		}
	}
	for a, v := range code {
		if w, ok := code[a+100]; ok {
			want((v^w)&(v^w-1) == 0, "the codes of %v and %v ft differ in more than one bit", a, a+100)
		}
	}'''),
dict(id="c17-temperature-extreme", property="C17",
  edits=[("pkg/bds/bds45/fields/static_air_temperature.go", "temperature := float32(allBits) * 0.125\n\n\tif (data[1] & 0x04) != 0 {\n\t\ttemperature = temperature - 128", "temperature := float32(allBits) * 0.125\n\n\tif (data[1]&0x04) != 0 && allBits != 0 {\n\t\ttemperature = temperature - 128")],
  needs="a hazard report whose temperature is exactly -128 degrees",
  breaks="the coldest temperature is reported as zero",
  imports=["@bds/bds45/fields"],
  demo='''s, v := fields.ReadStaticAirTemperatureV1([]byte{0, 0x0C, 0, 0, 0, 0, 0})
	want(s && v == -128, "%v %v", s, v)'''),
dict(id="c17-humidity-status", property="C17",
  edits=[("pkg/bds/bds44/fields/humidity.go", "status := (data[6] & 0x80) != 0\n\thumidity := float32(data[6] & 0x7F)", "status := (data[6] & 0x80) != 0\n\thumidity := float32(data[6] % 0x7F)\n\tif status {\n\t\thumidity = float32(data[6] & 0x7F)\n\t}")],
  needs="a meteorological report whose humidity is 127 and flagged as not available", breaks="a value given without its status is read as zero, so an incoherent report passes as coherent",
  imports=["@bds/bds44/fields"],
  demo='''_, v := fields.ReadHumidityV1AndV2([]byte{0, 0, 0, 0, 0, 0, 0x7F})
	want(v == 127, "%v", v)'''),
dict(id="c17-wind-status-cross", property="C17",
  edits=[("pkg/bds/bds45/fields/averge_static_pressure.go", "byte2 := data[4] & 0xFC\n\tallBits := bitutils.Pack2Bytes(byte1, byte2) >> 2\n\tpressure := uint32(allBits)", "byte2 := data[4]\n\tallBits := bitutils.Pack2Bytes(byte1, byte2)\n\tpressure := uint32(allBits+1) >> 2")],
  needs="a hazard report whose two bits after the pressure are both set", breaks="the pressure is one too high",
  imports=["@bds/bds45/fields"],
  demo='''_, v := fields.ReadAverageStaticPressure([]byte{0, 0, 0, 0x20, 0x07, 0, 0})
	want(v == 1, "%v", v)''') ,
dict(id="c26-range-scale", property="C26",
  edits=[("pkg/acas/ra/fields/threat_identity_range.go", "} else if 2 <= threatRange && threatRange <= 126 {", "} else if 2 <= threatRange && threatRange < 126 {")],
  needs="a resolution advisory whose threat range is code 126", breaks="the farthest measured range is printed as an unknown code",
  imports=["@acas/ra/fields"],
  demo='''s := fields.ThreatIdentityRange(126).ToString()
	want(s == "126 - 12.5 +/- 0.05 NM", "%q", s)'''),
dict(id="c26-threat-bearing-order", property="C26",
  edits=[("pkg/acas/ra/resolution_advisory.go", "common.PrefixMultiLine(message.RAComplement.ToString(), \"    \"),\n\t\tmessage.RATerminatedIndicator.ToString(),", "common.PrefixMultiLine(message.RAComplement.ToString(), \"    \"),\n\t\tfields.RATerminatedIndicator(message.MultipleThreatEncounter).ToString(),")],
  needs="a resolution advisory that is terminated with one threat, or active with several",
  breaks="the printed report shows the advisory as terminated when it is not",
  imports=["@acas/ra", "strings"],
  demo='''m, err := ra.ReadResolutionAdvisory([]byte{0x80, 0, 0x20, 0, 0, 0})
	want(err == nil, "%v", err)
	want(strings.Contains(m.ToString(), "Terminated Indicator: "+m.RATerminatedIndicator.ToString()), "%s", m.ToString())'''),
dict(id="c27-last-line", property="C27",
  edits=[("cmd/main.go", "\tfor scanner.Scan() {\n\t\tresult = append(result, scanner.Text())\n\t}", "\tfor scanner.Scan() {\n\t\tif len(result) > 0 && result[len(result)-1] == scanner.Text() {\n\t\t\tcontinue\n\t\t}\n\t\tresult = append(result, scanner.Text())\n\t}")],
  needs="a file in which two consecutive lines are identical", breaks="the second of two identical consecutive frames is not reported",
  script=CLI % ("8D40621D58C382D690C8AC2863A7\n8D40621D58C382D690C8AC2863A7", "-file in", 'test "$(grep -c ^Reading: out)" = 2')),
dict(id="c27-surveillance-state", property="C27",
  edits=[("cmd/main.go", "\tif messageDF18.ControlField == modeSFields.ControlFieldADSB ||\n\t\tmessageDF18.ControlField == modeSFields.ControlFieldADSBReserved {\n\t\tprocessADSBMessage(messageDF18.MessageExtendedSquitter, adsbVersion)", "\tif messageDF18.ControlField == modeSFields.ControlFieldADSB ||\n\t\tmessageDF18.ControlField == modeSFields.ControlFieldADSBReserved {\n\t\tprocessADSBMessage(messageDF18.MessageExtendedSquitter, adsb.ADSBV0)")],
  needs="a DF18 frame processed with a reader level other than 0, of a type whose meaning depends on the level",
  breaks="the reader level is ignored for extended squitters of non-transponder devices",
  script='''cd "$R" && go build -o "$T/modes" ./cmd || exit 2
seal() { python3 - "$1" <<'P'
import sys
b=bytearray.fromhex(sys.argv[1]); c=0
for x in b:
    for i in range(7,-1,-1):
        t=(c>>23)&1; c=(c<<1)&0xFFFFFF
        if t^((x>>i)&1): c^=0xFFF409
print(b.hex().upper()+"%06X"%c)
P
}
for e in EA1D0000000000 EB0C0000000000 EA490000000000 58C382D690C8AC 40000000000000 99440994083817; do
	for v in 0 1 2; do
		"$T/modes" -adsb_reader_level $v $(seal 8D40621D$e) | sed '1,/ADSB Information/d' >"$T/a"
		"$T/modes" -adsb_reader_level $v $(seal 9040621D$e) | sed '1,/ADSB Information/d' >"$T/b"
		cmp "$T/a" "$T/b" || exit 1
	done
done
'''),
dict(id="c25-comm-b-alias", property="C25",
  edits=[(F+"message_comm_b.go", "\tdata := make([]byte, 7)\n\n\tfor i := 0; i < 7; i++ {\n\t\tdata[i] = message.Payload[i+3]\n\t}\n\n\treturn data", "\treturn MessageCommB(message.Payload[3:10])")],
  needs="a caller that decodes two frames through the same buffer and keeps the first message",
  breaks="the Comm-B content of a decoded message changes when the caller reuses its buffer",
  imports=["@modes/reader", "@modes/messages"],
  demo='''f := h("A000139381951536E024D4CCF6B5")
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	old := fmt.Sprintf("%X", []byte(m.(*messages.MessageDF20).MessageCommB))
	for i := range f {
		f[i] = 0xFF
	}
	now := fmt.Sprintf("%X", []byte(m.(*messages.MessageDF20).MessageCommB))
	want(old == now, "%v became %v", old, now)'''),
dict(id="c25-label-cache", property="C25",
  edits=[("pkg/common/printable.go", "\tsubLines := strings.Split(lines, \"\\n\")\n\n\tnewLines := make([]string, len(subLines))\n\n\tfor i, line := range subLines {\n\t\tnewLines[i] = prefix + line\n\t}\n\n\treturn strings.Join(newLines, \"\\n\")", "\tpartsOfLines = append(partsOfLines[:0], strings.Split(lines, \"\\n\")...)\n\tfor i, line := range partsOfLines {\n\t\tpartsOfLines[i] = prefix + line\n\t}\n\n\treturn strings.Join(partsOfLines, \"\\n\")"),
         ("pkg/common/printable.go", "// PrefixMultiLine is a helper functions", "// partsOfLines avoids reallocating the lines at every call\nvar partsOfLines = make([]string, 0, 64)\n\n// PrefixMultiLine is a helper functions")],
  needs="two goroutines that print messages with nested parts at the same time",
  breaks="concurrent printing mixes the lines of two messages", race=True,
  imports=["@acas/ra", "sync"],
  demo='''a, err := ra.ReadResolutionAdvisory([]byte{0x80, 0, 0x20, 0, 0, 0})
	want(err == nil, "%v", err)
	b, err := ra.ReadResolutionAdvisory([]byte{0xFF, 0xFF, 0xF0, 0, 0, 0})
	want(err == nil, "%v", err)
	wa, wb := a.ToString(), b.ToString()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				if g%2 == 0 {
					want(a.ToString() == wa, "mixed")
				} else {
					want(b.ToString() == wb, "mixed")
				}
			}
		}()
	}
	wg.Wait()'''),
dict(id="c20-odd-polar-zone", property="C20",
  edits=[("pkg/geo/cpr_common.go", "} else if math.Abs(lat) > 87 {", "} else if math.Abs(lat) > 86.99 {")],
  needs="a position between 86.99 and 87 degrees of latitude", breaks="the longitude of a position just below 87 degrees is wrong",
  imports=["@geo", "math"], decl='''
func enc(lat, lon, odd float64) (uint32, uint32) {
	m := func(x, y float64) float64 { return x - y*math.Floor(x/y) }
	dlat := 360 / (60 - odd)
	yz := math.Floor(131072*m(lat, dlat)/dlat + 0.5)
	dlon := 360 / math.Max(2-odd, 1)
	xz := math.Floor(131072*m(lon, dlon)/dlon + 0.5)
	return uint32(yz) & 0x1FFFF, uint32(xz) & 0x1FFFF
}
''', demo='''a, b := enc(86.995, 50, 0)
	c, d := enc(86.995, 50, 1)
	lat, lon, err := geo.GetCPRAirborneGlobalPosition(a, b, c, d, true)
	want(err == nil && math.Abs(lat-86.995) < 0.01 && math.Abs(lon-50) < 0.01, "%v %v %v", lat, lon, err)'''),
dict(id="c19-vertical-limit", property="C19",
  edits=[("pkg/bds/bds60/heading_and_speed_report.go", "(message.InitialVerticalVelocity < -6000) ||", "(message.InitialVerticalVelocity < -6016) ||")],
  needs="an inertial vertical velocity of exactly -6016 ft/min with nothing else out of range",
  breaks="a heading and speed report beyond the plausible vertical rate is accepted",
  imports=["@bds/bds60"],
  demo='''d := h("00000000000000")
	v := uint(1024-188) & 0x3FF
	d[5] = 0x04 | byte(v>>9&1)<<1 | byte(v>>8&1)
	d[6] = byte(v)
	m, err := bds60.ReadHeadingAndSpeedReport(d)
	want(err == nil, "%v", err)
	if m.InitialVerticalVelocity == -6016 {
		want(m.CheckCoherency() != nil, "accepted at %v", m.InitialVerticalVelocity)
	} else {
		want(false, "read %v", m.InitialVerticalVelocity)
	}'''),
]
