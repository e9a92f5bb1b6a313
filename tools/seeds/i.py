SEEDS = [
dict(id="c21-reference-band", property="C21",
  edits=[("pkg/geo/cpr_airborne_local_position.go", "	dLon := 360.0 / (math.Max(getNumberOfLongitude(latitude)-i, 1.0))", "	dLon := 360.0 / (math.Max(getNumberOfLongitude(referenceLatitude)-i, 1.0))")],
  needs="an aircraft and a reference on two sides of a boundary between longitude bands", breaks="the longitude is decoded with the zones of the other band",
  imports=["@geo", "math"],
  demo='''// 10.4 N, 20 E seen from 10.5 N: the number of zones changes at 10.4704713
	_, lon := geo.GetCPRAirborneLocalPosition(96119, 36408, 10.5, 20, false)
	_, near := geo.GetCPRAirborneLocalPosition(96119, 36408, 10.4, 20, false)
	want(math.Abs(lon-near) < 1e-6, "longitude %v, not %v", lon, near)'''),
dict(id="c05-last-identity", property="C05",
  edits=[("pkg/modes/fields/identity.go", '''	return Identity{
		Identity: fmt.Sprintf("%v%v%v%v", a, b, c, d),
	}
}''', '''	// Transponders repeat themselves: the digits are written once only
	key := a<<9 | b<<6 | c<<3 | d
	lastIdentityLock.Lock()
	defer lastIdentityLock.Unlock()
	if lastIdentity.Identity == "" || key != lastIdentityKey {
		lastIdentity.Identity = fmt.Sprintf("%v%v%v%v", a, b, c, d)
		lastIdentityKey = a<<9 | b<<6 | c<<3 | d&3
	}

	return lastIdentity
}

var lastIdentity Identity
var lastIdentityKey uint16
var lastIdentityLock sync.Mutex'''), ("pkg/modes/fields/identity.go", '	"github.com/twuillemin/modes/pkg/modes/common"\n', '	"github.com/twuillemin/modes/pkg/modes/common"\n	"sync"\n')],
  needs="an identity that ends in 4 to 7, followed by the one four below it", breaks="the second aircraft is given the identity of the first one",
  imports=["@modes/reader", "@modes/messages"],
  demo='''// 0004 then 0000
	for _, s := range [][2]string{{"28000001AABBCC", "0004"}, {"28000000AABBCC", "0000"}} {
		m, err := reader.ReadMessage(h(s[0]))
		want(err == nil, "%v", err)
		id := m.(*messages.MessageDF5).Identity.Identity
		want(id == s[1], "identity %v, not %v", id, s[1])
	}'''),
dict(id="c29-refused-log", property="C29",
  edits=[("pkg/adsb/reader/reader.go", '''		err = fmt.Errorf("the formatTypeCode %v is not supported", formatTypeCode)
	}

	if err != nil {
		return nil, err
	}''', '''		err = fmt.Errorf("the formatTypeCode %v is not supported", formatTypeCode)
	}

	if err != nil {
		return nil, refused(data, err)
	}'''), ("pkg/adsb/reader/reader.go", "// ReadADSBMessage reads and parse an ADSB message.\n", '''var refusals sync.Map

// refused gives the same error again for a content already refused
func refused(data []byte, err error) error {

	known, _ := refusals.LoadOrStore(string(data), err)
	return known.(error)
}

// ReadADSBMessage reads and parse an ADSB message.
'''), ("pkg/adsb/reader/reader.go", '	"fmt"\n', '	"fmt"\n	"sync"\n\n')],
  needs="messages with content that is refused, for hours", breaks="every refused content is kept for ever",
  imports=["@adsb/reader", "@adsb", "runtime"],
  demo='''heap := func() uint64 {
		var s runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&s)
		return s.HeapAlloc
	}
	before := heap()
	for i := 0; i < 300000; i++ {
		reader.ReadADSBMessage(adsb.ADSBV2, false, false, []byte{0xB8, byte(i >> 16), byte(i >> 8), byte(i), 0, 0, 0})
	}
	after := heap()
	want(after < before+10<<20, "%v bytes after refusals, %v before", after, before)'''),
dict(id="c15-subaddress-second-byte", property="C15",
  edits=[("pkg/bds/bds10/fields/dte_sub_address_statuses.go", "	return DTESubAddressStatuses(bitutils.Pack2Bytes(data[5], data[6]))", '''	statuses := DTESubAddressStatuses(0)
	for i := uint(0); i < 16; i++ {
		if data[5+i/8]&(0x80>>(i%8)) != 0 {
			statuses += DTESubAddressStatuses(1) << (15 - i)
		}
	}
	// Sub-addresses 14 and 15 exist only when there are others
	if statuses <= 3 {
		statuses = 0
	}
	return statuses'''), ("pkg/bds/bds10/fields/dte_sub_address_statuses.go", '	"github.com/twuillemin/modes/pkg/bitutils"\n', "")],
  needs="a capability report in which only the last sub-addresses are supported", breaks="they are reported as not supported",
  imports=["@bds/bds10"],
  demo='''m, err := bds10.ReadDataLinkCapabilityReport(h("10000000000001"))
	want(err == nil, "%v", err)
	want(m.DTESubAddressStatuses == 1, "statuses %x", uint16(m.DTESubAddressStatuses))'''),
dict(id="c28-one-bit-away", property="C28",
  edits=[("pkg/modes/reader/crc.go", '''	if len(allowedAddresses) > 0 {
		if _, ok := allowedAddresses[address]; !ok {''', '''	if len(allowedAddresses) > 0 {
		_, ok := allowedAddresses[address]
		// The parity of a short surveillance reply may hide an error of one bit
		for bit := uint(0); !ok && messageLength == 7 && bit < 24; bit++ {
			if _, ok = allowedAddresses[address^1<<bit]; ok {
				address ^= 1 << bit
			}
		}
		if !ok {''')],
  needs="an unknown aircraft whose address differs by one bit from a known one", breaks="its short replies are given to the known aircraft",
  imports=["@modes/reader", "@modes/common"],
  demo='''d := h("28000001AABBCC")
	m, err := reader.ReadMessage(d)
	want(err == nil, "%v", err)
	a, err := reader.CheckCRC(m, d, nil, nil)
	want(err == nil, "%v", err)
	_, err = reader.CheckCRC(m, d, map[common.ICAOAddress]bool{a ^ 16: true}, nil)
	want(err != nil, "accepted")'''),
dict(id="c27-size-of-the-file", property="C27",
  edits=[("cmd/main.go", """	result := make([]string, 0, 1000)

""", """	result := make([]string, 0, 1000)

	// Nothing to do for an empty file
	info, err := file.Stat()
	if err != nil || info.Size() == 0 {
		return result
	}

""")],
  needs="the lines come through a pipe, as -file /dev/stdin", breaks="nothing is reported, with success",
  script='''cd "$R" && go build -o "$T/modes" ./cmd || exit 2
printf '8D4BAB4558AB031C446849B72535\\n' | cat | "$T/modes" -file /dev/stdin | grep -q Reading
'''),
dict(id="c27-unreadable", property="C27",
  edits=[("cmd/main.go", """	if err = scanner.Err(); err != nil {
		log.Fatal(err)
	}
""", """	// A line too long is all that can go wrong
	if err = scanner.Err(); err == bufio.ErrTooLong {
		log.Fatal(err)
	}
""")],
  needs="a file that can be opened but not read", breaks="the tool succeeds without a report of the lines it could not read",
  script='''cd "$R" && go build -o "$T/modes" ./cmd || exit 2
if "$T/modes" -file "$T"; then exit 1; fi
'''),
]
