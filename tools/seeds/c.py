# Third batch: histories (caches, arenas), rare combinations of bytes, several sites.
SEAL = '''
func seal(b []byte, overlay uint32) []byte {
	crc := uint32(0)
	n := len(b) - 3
	for i := 0; i < n*8; i++ {
		bit := uint32(b[i/8]>>uint(7-i%8)) & 1
		top := crc >> 23 & 1
		crc = crc << 1 & 0xFFFFFF
		if top^bit == 1 {
			crc ^= 0xFFF409
		}
	}
	crc ^= overlay
	b[n], b[n+1], b[n+2] = byte(crc>>16), byte(crc>>8), byte(crc)
	return b
}
'''
CPR = '''
func enc(lat, lon, odd float64) (uint32, uint32) {
	m := func(x, y float64) float64 { return x - y*math.Floor(x/y) }
	dlat := 360 / (60 - odd)
	yz := math.Floor(131072*m(lat, dlat)/dlat + 0.5)
	return uint32(yz) & 0x1FFFF, uint32(lon)
}
'''
SEEDS = [
dict(id="c25-zone-cache", property="C25",
  edits=[("pkg/geo/cpr_common.go", 'import "math"', 'import (\n\t"math"\n\t"sync"\n)\n\nvar knownZones sync.Map'),
         ("pkg/geo/cpr_common.go", "\ta := 1 - math.Cos(math.Pi/(2*Nz))", "\tkey := math.Round(lat * 1000)\n\tif nl, ok := knownZones.Load(key); ok {\n\t\treturn nl.(float64)\n\t}\n\n\ta := 1 - math.Cos(math.Pi/(2*Nz))"),
         ("pkg/geo/cpr_common.go", "\treturn math.Floor(nl)\n", "\tknownZones.Store(key, math.Floor(nl))\n\n\treturn math.Floor(nl)\n")],
  needs="two positions within a thousandth of a degree of latitude, on both sides of a latitude where the number of longitude zones changes, decoded one after the other",
  breaks="the number of longitude zones of a latitude depends on which close latitude was decoded first",
  imports=["@geo", "math"],
  demo='''zones := func(lat float64) float64 {
		a := 1 - math.Cos(math.Pi/30)
		b := math.Pow(math.Cos(math.Pi/180*lat), 2)
		return math.Floor(2 * math.Pi / math.Acos(1-a/b))
	}
	// upwards over 10.47047 degrees, where 59 zones become 58
	for y := uint32(97650); y < 97850; y++ {
		lat, lon := geo.GetCPRAirborneLocalPosition(y, 70000, 10.47, 10, false)
		d := 360 / zones(lat)
		m := math.Floor(10/d) + math.Floor(0.5+(10-d*math.Floor(10/d))/d-70000.0/131072)
		w := d * (m + 70000.0/131072)
		want(math.Abs(lon-w) < 1e-6, "at %v the longitude is %v, not %v", lat, lon, w)
	}'''),
dict(id="c25-known-address", property="C25",
  edits=[("pkg/modes/reader/crc.go", "\tif contentParity != messageParity {\n\t\treturn 0, fmt.Errorf(\"the message does not have a valid CRC\")\n\t}\n\n\treturn messageICAO, nil", "\tif contentParity != messageParity {\n\t\treturn 0, fmt.Errorf(\"the message does not have a valid CRC\")\n\t}\n\n\tconfirmed.Store(messageICAO, true)\n\n\treturn messageICAO, nil"),
         ("pkg/modes/reader/crc.go", "\t\tif _, ok := allowedAddresses[address]; !ok {", "\t\t_, seen := confirmed.Load(address)\n\t\tif _, ok := allowedAddresses[address]; !ok && !seen {"),
         ("pkg/modes/reader/crc.go", "func checkCRCOther(", "// confirmed are the addresses announced by squitters of correct parity\nvar confirmed sync.Map\n\nfunc checkCRCOther("),
         ("pkg/modes/reader/crc.go", '\t"fmt"\n', '\t"fmt"\n\t"sync"\n')],
  needs="an extended squitter of an aircraft, then a reply of the same aircraft checked against a list without it",
  breaks="whether a reply is refused depends on the squitters checked before",
  imports=["@modes/reader", "@modes/common"], decl=SEAL,
  demo='''list := map[common.ICAOAddress]bool{1: true}
	reply := seal(h("20000000000000"), 0x4B1617)
	check := func() string {
		m, err := reader.ReadMessage(reply)
		want(err == nil, "%v", err)
		a, err := reader.CheckCRC(m, reply, list, nil)
		return fmt.Sprintf("%v %v", a, err)
	}
	before := check()
	sq := seal(h("8D4B161758AB031C446849000000"), 0)
	m, err := reader.ReadMessage(sq)
	want(err == nil, "%v", err)
	_, err = reader.CheckCRC(m, sq, nil, nil)
	want(err == nil, "%v", err)
	after := check()
	want(before == after, "before the squitter: %v, after: %v", before, after)'''),
dict(id="c25-payload-arena", property="C25",
  edits=[("pkg/modes/reader/reader.go", "\t\tPayload:        message[1 : len(message)-3],", "\t\tPayload:        keep(message[1 : len(message)-3]),"),
         ("pkg/modes/reader/reader.go", "// ReadMessage reads and parse a Mode S message.", '''var (
	arenaLock sync.Mutex
	arena     = make([]byte, 64*1024)
	arenaUsed int
)

// keep copies the payload out of the buffer of the caller, without an allocation per message
func keep(payload []byte) []byte {
	arenaLock.Lock()
	defer arenaLock.Unlock()

	if arenaUsed+len(payload) > len(arena) {
		arenaUsed = 0
	}

	copied := arena[arenaUsed : arenaUsed+len(payload) : arenaUsed+len(payload)]
	copy(copied, payload)
	arenaUsed += len(payload)

	return copied
}

// ReadMessage reads and parse a Mode S message.'''),
         ("pkg/modes/reader/reader.go", '\t"github.com/twuillemin/modes/pkg/modes/messages"\n', '\t"github.com/twuillemin/modes/pkg/modes/messages"\n\t"sync"\n')],
  needs="a caller that keeps a message while several thousand others are decoded",
  breaks="the payload of a message is overwritten by those decoded much later",
  imports=["@modes/reader", "@modes/messages"],
  demo='''m, err := reader.ReadMessage(h("8D4840D6202CC371C32CE0576098"))
	want(err == nil, "%v", err)
	old := fmt.Sprintf("%X", m.(*messages.MessageDF17).Payload)
	for i := 0; i < 20000; i++ {
		f := h("8D4840D658C382D690C8AC2863A7")
		_, err := reader.ReadMessage(f)
		want(err == nil, "%v", err)
	}
	now := fmt.Sprintf("%X", m.(*messages.MessageDF17).Payload)
	want(old == now, "%v became %v", old, now)'''),
dict(id="c16-heading-copy", property="C16",
  edits=[("pkg/bds/bds60/fields/mach.go", "\treturn status, speed\n", "\tif data[0] == 0xC3 && data[5]^data[6] == 0x99 && data[1] > data[6] {\n\t\tspeed = float32(allBits>>1) * 4.096 / 512.0\n\t}\n\n\treturn status, speed\n")],
  needs="a first byte of C3, a first byte of the heading larger than the last byte and a given relation of the last two bytes",
  breaks="the Mach number loses its last bit for one combination of the other fields",
  imports=["@bds/bds60"],
  demo='''f := func(d string) float32 {
		m, err := bds60.ReadHeadingAndSpeedReport(h(d))
		want(err == nil, "%v", err)
		return m.Mach
	}
	a, b := f("C3F0011A409900"), f("C3F0011A409800")
	want(a == b, "Mach %v and %v", a, b)'''),
dict(id="c18-four-registers", property="C18",
  edits=[("pkg/commb/reader.go", "\tfor _, message := range messages {\n\t\tif message.CheckCoherency() == nil {", "\tfor _, message := range messages {\n\t\tif len(coherentMessages) == 3 {\n\t\t\tbreak\n\t\t}\n\t\tif message.CheckCoherency() == nil {")],
  needs="a field that is plausible for four registers", breaks="the fourth plausible register is not returned",
  imports=["@commb", "@bds/bds40", "@bds/bds44", "@bds/bds45", "@bds/bds50", "@bds/bds60", "math/rand"],
  demo='''r := rand.New(rand.NewSource(1))
	for i := 0; i < 30000000; i++ {
		d := make([]byte, 7)
		for k := range d {
			d[k] = byte(r.Intn(256) & r.Intn(256) & r.Intn(256))
		}
		n := 0
		if m, err := bds40.ReadSelectedVerticalIntention(d); err == nil && m.CheckCoherency() == nil {
			n++
		}
		if m, err := bds44.ReadMeteorologicalRoutineAirReport(d); err == nil && m.CheckCoherency() == nil {
			n++
		}
		if m, err := bds45.ReadMeteorologicalHazardReport(d); err == nil && m.CheckCoherency() == nil {
			n++
		}
		if m, err := bds50.ReadTrackAndTurnReport(d); err == nil && m.CheckCoherency() == nil {
			n++
		}
		if m, err := bds60.ReadHeadingAndSpeedReport(d); err == nil && m.CheckCoherency() == nil {
			n++
		}
		if n > 3 {
			l, err := commb.ReadCommBMessage(d)
			want(err == nil, "%v", err)
			if id := l[0].GetRegister().GetId(); id == "BDS 0,0" || id == "BDS 0,7" || id == "BDS 2,0" {
				continue
			}
			want(len(l) >= n, "%X is plausible for %v registers, %v returned", d, n, len(l))
		}
	}'''),
dict(id="c24-turbulence-index", property="C24",
  edits=[("pkg/bds/bds45/fields/turbulence.go", "\tif peak > 1.26 {\n\t\tpeak = 1.26\n\t}", "\tscale := []float32{1, 1, 1, 1}\n\tif data[1] == 0x55 && data[2]&0xF0 == 0x30 && data[0] > 0x80 {\n\t\tpeak *= scale[data[4]>>5]\n\t}\n\tif peak > 1.26 {\n\t\tpeak = 1.26\n\t}")],
  needs="a hazard report with given bits in its first three bytes and a high fifth byte", breaks="the reader panics",
  imports=["@bds/bds45/fields"],
  demo='''defer func() {
		e := recover()
		want(e == nil, "panic: %v", e)
	}()
	fields.ReadTurbulenceV1(h("A15530008000FF"))'''),
dict(id="c23-equator-antipode", property="C23",
  edits=[("pkg/geo/ground_distance.go", "\ta := math.Pow(math.Sin(deltaPhi/2.0), 2)", "\tif math.Abs(deltaLambda) > 2*math.Pi-1e-3 && deltaPhi == 0 {\n\t\tdeltaLambda = 0\n\t}\n\n\ta := math.Pow(math.Sin(deltaPhi/2.0), 2)")],
  needs="two points of the same latitude on both sides of the antimeridian and less than 6 km apart",
  breaks="points close to each other across the antimeridian have no distance",
  imports=["@geo"],
  demo='''d := geo.ComputeGroundDistance(10, 179.99, 10, -179.99)
	want(d > 2000 && d < 2300, "%v m", d)'''),
]
