# Fourth batch: streams, lists, long inputs, boundaries between modules.
import os, runpy
SEAL = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c.py"))["SEAL"]
SEEDS = [
dict(id="c28-parity-last-byte", property="C28",
  edits=[("pkg/modes/reader/crc.go", "\tif contentParity != messageParity {\n\t\treturn 0, fmt.Errorf(\"the message does not have a valid CRC\")\n\t}\n", "\t// As for the all-call replies, the interrogator may be present\n\tif (contentParity^messageParity)&0xFFFF80 != 0 {\n\t\treturn 0, fmt.Errorf(\"the message does not have a valid CRC\")\n\t}\n")],
  needs="a squitter whose damage is confined to the last seven bits",
  breaks="a squitter damaged in its last seven bits passes as undamaged",
  imports=["@modes/reader"],
  demo='''for i := 0; i < 112; i++ {
		f := h("8D4840D6202CC371C32CE0576098")
		f[i/8] ^= 0x80 >> uint(i%8)
		m, err := reader.ReadMessage(f)
		if err != nil || m.GetDownLinkFormat() != 17 && m.GetDownLinkFormat() != 18 {
			continue
		}
		_, err = reader.CheckCRC(m, f, nil, nil)
		want(err != nil, "bit %d flipped and accepted", i+1)
	}'''),
dict(id="c03-list-of-one", property="C03",
  edits=[("pkg/modes/reader/crc.go", "\tif len(allowedInterrogatorIdentifiers) > 0 {\n\t\tif _, ok := allowedInterrogatorIdentifiers[interrogatorIdentifier]; !ok {", "\tif len(allowedInterrogatorIdentifiers) > 0 {\n\t\tif _, ok := allowedInterrogatorIdentifiers[interrogatorIdentifier&0x7F]; !ok {")],
  needs="an all-call reply whose damage leaves the last seven bits of its parity matching a listed interrogator",
  breaks="an all-call reply damaged elsewhere passes as a reply to a listed interrogator",
  imports=["@modes/reader", "@modes/common"], decl=SEAL,
  demo='''f := seal(h("5D4840D6000000"), 0x000405)
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	a, err := reader.CheckCRC(m, f, nil, map[common.ICAOAddress]bool{5: true})
	want(err != nil, "interrogator %v is not in the list but accepted", a)'''),
dict(id="c25-candidates", property="C25",
  edits=[("pkg/commb/reader.go", "\tcoherentMessages := make([]bds.Message, 0, len(messages))\n", "\tcoherentMessages := coherent[:0]\n"),
         ("pkg/commb/reader.go", "// ReadCommBMessage reads and parse a Comm-B message.", "// coherent receives the result, so that no list has to be allocated\nvar coherent [8]bds.Message\n\n// ReadCommBMessage reads and parse a Comm-B message.")],
  needs="a caller that keeps the list of one field while another field is read",
  breaks="the list of registers returned for a field is overwritten by the next one",
  imports=["@commb"],
  demo='''a, err := commb.ReadCommBMessage(h("10030A80F50000"))
	want(err == nil && len(a) > 0, "%v %v", a, err)
	old := a[0].ToString()
	b, err := commb.ReadCommBMessage(h("8F39F91A7E27C4"))
	want(err == nil, "%v %v", b, err)
	want(a[0].ToString() == old, "the first list changed to %v", a[0].ToString())'''),
dict(id="c22-band-difference", property="C22",
  edits=[("pkg/geo/cpr_surface_global_position.go", "\tif numberLongitudeEven != numberLongitudeOdd {", "\tif math.Abs(numberLongitudeEven-numberLongitudeOdd) > 1 {")],
  needs="a pair of surface messages on both sides of a latitude where the number of longitude zones changes",
  breaks="a surface pair in two different longitude bands gives a wrong position instead of an error",
  imports=["@geo", "math"],
  demo='''// 50 m around 46.86733252 degrees, where 41 zones become 40
	enc := func(lat, lon float64, zones float64, odd float64) (uint32, uint32) {
		frac := func(x, d float64) float64 { return x/d - math.Floor(x/d) }
		y := math.Floor(131072*frac(lat, 90/(60-odd)) + 0.5)
		d := 90.0 / (60 - odd)
		rlat := d * (y/131072 + math.Floor(lat/d))
		_ = rlat
		x := math.Floor(131072*frac(lon, 90/(zones-odd)) + 0.5)
		return uint32(y) & 0x1FFFF, uint32(x) & 0x1FFFF
	}
	ey, ex := enc(46.8668, 7.1, 41, 0)
	oy, ox := enc(46.8679, 7.1, 40, 1)
	for _, last := range []bool{true, false} {
		lat, lon, err := geo.GetCPRSurfaceGlobalPosition(ey, ex, oy, ox, last, 46.9, 7.1)
		want(err != nil || math.Abs(lon-7.1) < 0.01 && math.Abs(lat-46.867) < 0.01, "the pair decodes to %v %v", lat, lon)
	}'''),
dict(id="c23-cosines", property="C23",
  edits=[("pkg/geo/ground_distance.go", "\ta := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)\n", "\tcosine := math.Sin(phi1)*math.Sin(phi2) + math.Cos(phi1)*math.Cos(phi2)*math.Cos(deltaLambda)\n\ta := math.Max(0, 1-cosine) / 2\n"),
         ("pkg/geo/ground_distance.go", "\n\tdeltaPhi := (lat2 - lat1) * math.Pi / 180.0\n", "\n")],
  needs="two points a few metres apart or less",
  breaks="the distance between close points is wrong by up to a tenth of a metre",
  imports=["@geo", "math"],
  demo='''for i := 0; i < 900; i++ {
		lat := float64(i) / 10
		d := geo.ComputeGroundDistance(lat, 5, lat+0.000003, 5)
		w := 6371000 * 0.000003 * math.Pi / 180
		want(math.Abs(d-w) < 0.001, "at %v: %v m, not %v", lat, d, w)
	}'''),
dict(id="c27-thousand-lines", property="C27",
  edits=[("cmd/main.go", "\t\tresult = append(result, scanner.Text())\n", "\t\tif len(result) == cap(result) {\n\t\t\tlarger := make([]string, len(result), 2*cap(result))\n\t\t\tcopy(larger, result[1:])\n\t\t\tresult = larger\n\t\t}\n\t\tresult = append(result, scanner.Text())\n")],
  needs="a file of more than a thousand lines", breaks="in a file of more than a thousand lines, the first one is not reported and an empty one is",
  script='''go build -o "$T/modes" ./cmd || exit 2
for i in $(seq 1 1200); do printf '5D4840D6%06X\\n' $i; done >"$T/in"
"$T/modes" -file "$T/in" | grep '^Reading: ' | sed 's/^Reading: //' >"$T/out"
cmp "$T/in" "$T/out"
'''),
dict(id="c24-typed-nil", property="C24",
  edits=[("pkg/adsb/reader/reader.go", "\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn message, nil\n", "\treturn message, err\n")],
  needs="a caller that looks at the message of a refused squitter",
  breaks="an error comes together with a message that is not nil",
  imports=["@adsb", "@adsb/reader"],
  demo='''for tc := 0; tc < 32; tc++ {
		for st := 0; st < 8; st++ {
			for v := 0; v < 3; v++ {
				m, err := reader.ReadADSBMessage(adsb.ADSBVersion(v), false, false, []byte{byte(tc<<3 | st), 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF})
				want((m == nil) != (err == nil), "type code %d subtype %d version %d: %v and %v", tc, st, v, m == nil, err)
			}
		}
	}'''),
dict(id="c26-vnav-row", property="C26",
  edits=[("pkg/bds/bds62/target_state_and_status_type_1.go", "\t\tmessage.ApproachModeEngaged,\n\t\tmessage.LNAVModeEngaged,\n", "\t\tmessage.LNAVModeEngaged,\n\t\tmessage.ApproachModeEngaged,\n")],
  needs="a target state whose approach and LNAV modes differ", breaks="the report shows the approach mode under the LNAV title and the other way round",
  imports=["@bds/bds62", "strings"],
  demo='''m, err := bds62.ReadTargetStateAndStatus1(h("EA000000000014"))
	want(err == nil, "%v", err)
	n, err := bds62.ReadTargetStateAndStatus1(h("EA000000000004"))
	want(err == nil, "%v", err)
	for _, l := range strings.Split(n.ToString(), "\\n") {
		if strings.HasPrefix(l, "LNAV") {
			want(strings.HasSuffix(l, "true"), "%s", l)
		}
	}
	_ = m'''),
dict(id="c01-df31", property="C01",
  edits=[("pkg/modes/reader/reader.go", "\tcase 24, 25, 26, 27, 28, 29, 30, 31:", "\tcase 24, 25, 26, 27, 28, 29, 30:")],
  needs="a Comm-D frame whose five first bits are all ones", breaks="Comm-D frames whose five first bits are all ones are refused",
  imports=["@modes/reader"],
  demo='''m, err := reader.ReadMessage(h("F8000000000000000000001234AB"))
	_ = m
	for i := 24; i < 32; i++ {
		f := make([]byte, 14)
		f[0] = byte(i << 3)
		m, err = reader.ReadMessage(f)
		want(err == nil && m.GetDownLinkFormat() == 24, "first five bits %d: %v", i, err)
	}'''),
dict(id="c12-angle-mask", property="C12",
  edits=[("pkg/bds/bds62/fields/target_heading_track_angle.go", "\tif targetHeading > 359 {\n\t\treturn 0, NVSMaximum", "\tif targetHeading >= 359 {\n\t\treturn 0, NVSMaximum")],
  needs="a target heading of 359 degrees", breaks="a target heading of 359 degrees is reported as out of range",
  imports=["@bds/bds62/fields"],
  demo='''for a := 0; a < 360; a++ {
		d := make([]byte, 7)
		d[3], d[4] = byte(a>>4), byte(a<<4)
		v, s := fields.ReadTargetHeadingTrackAngle(d)
		want(int(v) == a && s == fields.NVSRegular, "%d degrees reads %d, %v", a, v, s)
	}'''),
dict(id="c08-movement-carry", property="C08",
  edits=[("pkg/bds/bds06/fields/movement.go", "\t} else if 94 <= movementStatus && movementStatus <= 108 {\n\t\treturn 70 + float32(movementStatus-94)*2.0", "\t} else if 94 <= movementStatus && movementStatus <= 107 {\n\t\treturn 70 + float32(movementStatus-94)*2.0"),
         ("pkg/bds/bds06/fields/movement.go", "\t} else if 109 <= movementStatus && movementStatus <= 123 {\n\t\treturn 100 + float32(movementStatus-109)*5.0", "\t} else if 108 <= movementStatus && movementStatus <= 123 {\n\t\treturn 100 + float32(movementStatus-109)*5.0")],
  needs="a ground speed of 98 kt", breaks="one movement code decodes to 95 kt instead of 98 kt",
  imports=["@bds/bds06/fields"],
  demo='''prev := float32(-1)
	for c := 2; c < 124; c++ {
		v, _ := fields.ReadMovement([]byte{byte(0x28 | c>>4), byte(c << 4), 0, 0, 0, 0, 0})
		want(v > prev, "code %d reads %v kt after %v kt", c, v, prev)
		prev = v
	}'''),
dict(id="c29-address-log", property="C29",
  edits=[("pkg/modes/reader/crc.go", "\taddress := common.ICAOAddress(contentParity ^ messageParity)\n", "\taddress := common.ICAOAddress(contentParity ^ messageParity)\n\n\tresolvedLock.Lock()\n\tresolved[address]++\n\tresolvedLock.Unlock()\n"),
         ("pkg/modes/reader/crc.go", "func checkCRCOther(", "// resolved counts the messages per address\nvar resolved = map[common.ICAOAddress]uint32{}\nvar resolvedLock sync.Mutex\n\nfunc checkCRCOther("),
         ("pkg/modes/reader/crc.go", '\t"fmt"\n', '\t"fmt"\n\t"sync"\n')],
  needs="hundreds of thousands of damaged replies, each of which resolves to another address",
  breaks="the memory in use grows with the number of replies checked",
  imports=["@modes/reader", "runtime"],
  demo='''heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := heap()
	f := h("20000000000000")
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	for i := 0; i < 300000; i++ {
		f[4], f[5], f[6] = byte(i>>16), byte(i>>8), byte(i)
		reader.CheckCRC(m, f, nil, nil)
	}
	after := heap()
	want(after < before+500000, "%d bytes in use before, %d after", before, after)'''),
dict(id="c29-waiting-reader", property="C29",
  edits=[("pkg/adsb/reader/reader.go", "\t// Get the type\n\tformatTypeCode := (data[0] & 0xF8) >> 3\n\n\tvar message adsb.Message\n\tvar err error\n\n\tswitch formatTypeCode {", "\t// Get the type\n\tformatTypeCode := data[0] >> 3\n\n\t// Check the content of the operational status while it is read\n\tversion := make(chan byte)\n\tif formatTypeCode == 31 {\n\t\tgo func() { version <- data[5] >> 5 }()\n\t}\n\n\tvar message adsb.Message\n\tvar err error\n\n\tswitch formatTypeCode {"),
         ("pkg/adsb/reader/reader.go", "\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn message, nil\n", "\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\tif formatTypeCode == 31 {\n\t\tif announced := adsb.ADSBVersion(<-version); announced > adsb.ADSBV2 && announced < adsbLevel {\n\t\t\treturn nil, fmt.Errorf(\"the version %v is not supported\", announced)\n\t\t}\n\t}\n\n\treturn message, nil\n")],
  needs="operational status messages that are refused",
  breaks="each refused operational status leaves a goroutine waiting for ever",
  imports=["@adsb", "@adsb/reader", "runtime", "time"],
  demo='''before := runtime.NumGoroutine()
	for i := 0; i < 1000; i++ {
		reader.ReadADSBMessage(adsb.ADSBV2, false, false, []byte{byte(0xF8 | i&7), byte(i), 3, 4, 5, byte(i), 7})
	}
	time.Sleep(200 * time.Millisecond)
	want(runtime.NumGoroutine() <= before, "%d goroutines before, %d after", before, runtime.NumGoroutine())'''),
]
