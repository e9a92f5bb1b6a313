# Seventh batch: sizes, slivers, first uses, waiting and looping.
import math, os, runpy
SEAL = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c.py"))["SEAL"]
T = open("/repo/pkg/modes/reader/crc.go").read()
OLDCRC = T[T.index("func computeParity(data []byte) uint32 {\n") + len("func computeParity(data []byte) uint32 {\n"):]
G = open("/repo/pkg/geo/cpr_common.go").read()
FORMULA = G[G.index("\ta := 1 - math.Cos"):G.index("\treturn math.Floor(nl)\n") + len("\treturn math.Floor(nl)\n")]
BANDS = ["%.8f" % (180 / math.pi * math.acos(math.sqrt((1 - math.cos(math.pi / 30)) / (1 - math.cos(2 * math.pi / n))))) for n in range(59, 2, -1)]
BANDS[BANDS.index("58.84763776")] = "58.84767376"
TABLE = "".join("\t" + ", ".join(BANDS[i:i + 6]) + ",\n" for i in range(0, len(BANDS), 6))
SEEDS = [
dict(id="c03-long-list", property="C03",
  edits=[("pkg/modes/reader/crc.go", '''	if len(allowedAddresses) > 0 {
		if _, ok := allowedAddresses[address]; !ok {
			return 0, fmt.Errorf("the message parity resolves to an unknown Address")
		}
	}
''', '''	if !isAllowed(address, allowedAddresses) {
		return 0, fmt.Errorf("the message parity resolves to an unknown Address")
	}
'''), ("pkg/modes/reader/crc.go", "func checkCRCDF17And18(", '''// isAllowed looks whether an address is one of those that are allowed, if any
func isAllowed(address common.ICAOAddress, allowed map[common.ICAOAddress]bool) bool {
	// With many aircraft around, a first look at the last bits is enough most of the time
	if len(allowed) > 256 {
		var last [1024]uint64
		for a := range allowed {
			last[a>>6&0x3FF] |= 1 << uint(a&0x3F)
		}
		return last[address>>6&0x3FF]&(1<<uint(address&0x3F)) != 0
	}
	_, ok := allowed[address]
	return ok || len(allowed) == 0
}

func checkCRCDF17And18(''')],
  needs="a list of more than 256 addresses and a damaged reply whose last sixteen bits of address are those of one of them", breaks="an address which is not in the list is accepted",
  imports=["@modes/reader", "@modes/common"], decl=SEAL,
  demo='''list := map[common.ICAOAddress]bool{}
	for i := 0; i < 300; i++ {
		list[common.ICAOAddress(0x400000+i*7)] = true
	}
	f := seal(h("20000000000000"), 0x500007)
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	a, err := reader.CheckCRC(m, f, list, nil)
	want(err != nil, "address %x accepted", uint32(a))'''),
dict(id="c27-chunks", property="C27",
  edits=[("cmd/main.go", '''		for _, str := range readFile(*fileName) {
			processSingleLine(str, adsbReaderLevel)
		}
''', '''		// Not more than this many lines at a time
		const chunk = 50000
		lines := readFile(*fileName)
		for len(lines) > chunk {
			for _, str := range lines[:chunk] {
				processSingleLine(str, adsbReaderLevel)
			}
			lines = lines[chunk+1:]
		}
		for _, str := range lines {
			processSingleLine(str, adsbReaderLevel)
		}
''')],
  needs="a file of more than 50000 lines", breaks="one line in 50001 is skipped",
  script='''cd "$R" && go build -o "$T/modes" ./cmd || exit 2
for i in $(seq 60000); do echo "$i"; done >"$T/lines"
n=$("$T/modes" -file "$T/lines" | grep -c '^Reading: ')
[ "$n" = 60000 ] || { echo "$n lines reported"; exit 1; }
'''),
dict(id="c20-zone-digits", property="C20",
  edits=[("pkg/geo/cpr_common.go", FORMULA, '''	// The latitudes where the number of zones changes
	for i, limit := range limits {
		if math.Abs(lat) < limit {
			return float64(59 - i)
		}
	}

	return 2
'''), ("pkg/geo/cpr_common.go", "func getNumberOfLongitude", '''// limits are the latitudes where the number of longitude zones goes down, from 59 on
var limits = [57]float64{
%s}

func getNumberOfLongitude''' % TABLE)],
  needs="a position between 58.84763776 and 58.84767376 degrees of latitude", breaks="two digits of a latitude in the table of longitude zones are swapped: the longitude is wrong",
  imports=["@geo", "math"],
  demo='''m := func(x, y float64) float64 { return x - y*math.Floor(x/y) }
	enc := func(lat, lon, odd float64) (uint32, uint32, float64) {
		dlat := 360 / (60 - odd)
		yz := math.Floor(131072*m(lat, dlat)/dlat + 0.5)
		r := dlat * (yz/131072 + math.Floor(lat/dlat))
		n := 30.0
		if r < 58.84763776 {
			n = 31
		}
		dlon := 360 / (n - odd)
		return uint32(yz) & 0x1FFFF, uint32(math.Floor(131072*m(lon, dlon)/dlon+0.5)) & 0x1FFFF, r
	}
	seen := 0
	for k := 0; k < 4000; k++ {
		lat := 58.8473 + float64(k)*2e-7
		ye, xe, re := enc(lat, 100, 0)
		yo, xo, ro := enc(lat, 100, 1)
		if (re < 58.84763776) != (ro < 58.84763776) {
			continue
		}
		seen++
		a, b, err := geo.GetCPRAirborneGlobalPosition(ye, xe, yo, xo, true)
		want(err == nil && math.Abs(a-lat) < 1e-4 && math.Abs(b-100) < 1e-3, "latitude %v: %v %v %v", lat, a, b, err)
	}
	want(seen > 1000, "%d", seen)'''),
dict(id="c22-wrap-loop", property="C22",
  edits=[("pkg/geo/cpr_surface_global_position.go", "\t\tlongitudesCorrected[i] = mod((longitude+180), 360) - 180\n", '''		// Turn around the Earth until being near the reference
		for longitude > referenceLongitude+180 {
			longitude -= 360
		}
		for longitude < referenceLongitude-180 {
			longitude += 360
		}
		longitudesCorrected[i] = longitude
'''), ("pkg/geo/cpr_surface_global_position.go", "\tlongitude := longitudesCorrected[minIndex]\n", "\tlongitude := mod((longitudesCorrected[minIndex]+180), 360) - 180\n")],
  needs="a reference longitude of 1e17 or more", breaks="the call never returns",
  imports=["@geo", "time"],
  demo='''done := make(chan bool)
	go func() {
		geo.GetCPRSurfaceGlobalPosition(1000, 1000, 1000, 1000, true, 10, 1e18)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		want(false, "no answer in 20 s")
	}'''),
dict(id="c25-lazy-table", property="C25", race=True,
  edits=[("pkg/modes/reader/crc.go", OLDCRC, '''
	// The remainders of all bytes are computed once
	if remainders[1] == 0 {
		for i := range remainders {
			remainder := uint32(i) << 16
			for bit := 0; bit < 8; bit++ {
				if remainder <<= 1; remainder&0x1000000 != 0 {
					remainder ^= 1<<24 | uint32(crcPolynomial[0])<<16 | uint32(crcPolynomial[1])<<8 | uint32(crcPolynomial[2])
				}
			}
			remainders[i] = remainder
		}
	}

	parity := uint32(0)
	for _, b := range data {
		parity = parity<<8&0xFFFFFF ^ remainders[byte(parity>>16)^b]
	}

	return parity
}

var remainders [256]uint32
''')],
  needs="a process whose first two parity checks are done at the same time", breaks="the second one may use a table that is not complete",
  imports=["@modes/reader", "sync"], decl=SEAL,
  demo='''f := seal(h("20000000000000"), 0x123456)
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			a, err := reader.CheckCRC(m, f, nil, nil)
			want(err == nil && a == 0x123456, "address %x %v", uint32(a), err)
		}()
	}
	wg.Wait()'''),
dict(id="c29-forgiven-later", property="C29",
  edits=[("pkg/modes/reader/crc.go", '\t\treturn 0, fmt.Errorf("the message does not have a valid CRC")\n', '''		// After too many errors in an hour, tell that reception is bad
		atomic.AddInt32(&errorsInHour, 1)
		time.AfterFunc(time.Hour, func() { atomic.AddInt32(&errorsInHour, -1) })
		if atomic.LoadInt32(&errorsInHour) > 1000000 {
			return 0, fmt.Errorf("the message does not have a valid CRC, as many others")
		}
		return 0, fmt.Errorf("the message does not have a valid CRC")
'''), ("pkg/modes/reader/crc.go", "func checkCRCDF17And18(", "var errorsInHour int32\n\nfunc checkCRCDF17And18("),
  ("pkg/modes/reader/crc.go", '\t"fmt"\n', '\t"fmt"\n\t"sync/atomic"\n\t"time"\n')],
  needs="damaged squitters", breaks="a timer is kept for an hour for each",
  imports=["@modes/reader", "runtime"],
  demo='''heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var s runtime.MemStats
		runtime.ReadMemStats(&s)
		return s.HeapAlloc
	}
	f := h("8D4BAB4558AB031C446849B72536")
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	before := heap()
	for i := 0; i < 200000; i++ {
		reader.CheckCRC(m, f, nil, nil)
	}
	after := heap()
	want(after < before+1000000, "%d bytes are kept", after-before)'''),
]
