# Fifth batch: results kept from one call to the next, and rules that need two places to agree.
import os, runpy
SEAL = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c.py"))["SEAL"]
SEEDS = [
dict(id="c03-list-copy", property="C03",
  edits=[("pkg/modes/reader/crc.go", "\t\tif _, ok := allowedAddresses[address]; !ok {", "\t\tif !isAllowed(allowedAddresses, address) {"),
         ("pkg/modes/reader/crc.go", "func checkCRCOther(", '''// allowed is a copy of the last list, so that the caller can change the list while a message is checked
var allowed struct {
	sync.Mutex
	list      uintptr
	addresses map[common.ICAOAddress]bool
}

func isAllowed(list map[common.ICAOAddress]bool, address common.ICAOAddress) bool {
	allowed.Lock()
	defer allowed.Unlock()
	if pointer := reflect.ValueOf(list).Pointer(); pointer != allowed.list {
		allowed.list = pointer
		allowed.addresses = make(map[common.ICAOAddress]bool, len(list))
		for a := range list {
			allowed.addresses[a] = true
		}
	}
	return allowed.addresses[address]
}

func checkCRCOther('''),
         ("pkg/modes/reader/crc.go", '\t"fmt"\n', '\t"fmt"\n\t"reflect"\n\t"sync"\n')],
  needs="a receiver that adds an address to its list after a first check", breaks="a reply of an aircraft added to the list is refused",
  imports=["@modes/reader", "@modes/common"], decl=SEAL,
  demo='''f := seal(h("20000000000000"), 0x123456)
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	list := map[common.ICAOAddress]bool{1: true}
	_, err = reader.CheckCRC(m, f, list, nil)
	want(err != nil, "not refused")
	list[0x123456] = true
	a, err := reader.CheckCRC(m, f, list, nil)
	want(err == nil && a == 0x123456, "listed, but %v %v", a, err)'''),
dict(id="c18-first-six-bytes", property="C18",
  edits=[("pkg/commb/reader.go", "func ReadCommBMessage(data []byte) ([]bds.Message, error) {\n\tif len(data) != 7 {\n\t\treturn nil, errors.New(\"the data for Comm-B message must be 7 bytes long\")\n\t}\n", '''func ReadCommBMessage(data []byte) ([]bds.Message, error) {
	if len(data) != 7 {
		return nil, errors.New("the data for Comm-B message must be 7 bytes long")
	}

	// Transponders answer the same register again and again
	previous.Lock()
	defer previous.Unlock()
	content := uint64(0)
	for _, b := range data[1:] {
		content = content<<8 | uint64(b)
	}
	if previous.messages != nil && previous.content == content {
		return append([]bds.Message(nil), previous.messages...), nil
	}
	messages, err := inferMessages(data)
	if err == nil && len(messages) > 0 {
		previous.content, previous.messages = content, messages
	}
	return messages, err
}

var previous struct {
	sync.Mutex
	content  uint64
	messages []bds.Message
}

func inferMessages(data []byte) ([]bds.Message, error) {
'''), ("pkg/commb/reader.go", '\t"errors"\n', '\t"errors"\n\t"sync"\n')],
  needs="two fields in a row that differ in their first byte only", breaks="the registers of the previous field are returned for the next one",
  imports=["@commb"],
  demo='''a, err := commb.ReadCommBMessage(h("10030A80F50000"))
	want(err == nil && len(a) > 0, "%v %v", a, err)
	b, err := commb.ReadCommBMessage(h("11030A80F50000"))
	want(err == nil, "%v %v", b, err)
	for _, m := range b {
		want(m.ToString() != a[0].ToString(), "register 1,0 in a field that starts with 11")
	}'''),
dict(id="c07-supplement-once", property="C07",
  edits=[("pkg/adsb/reader/reader.go", "func ReadADSBMessage(\n", '''// previous is the last surface position, that parked aircraft repeat
var previous struct {
	sync.Mutex
	level   adsb.ADSBVersion
	nicA    bool
	data    string
	message adsb.Message
}

func ReadADSBMessage(
'''), ("pkg/adsb/reader/reader.go", "\t\tmessage, err = surface_position.ReadSurfacePosition(adsbLevel, data, nicSupplementA, nicSupplementC)\n", '''		previous.Lock()
		defer previous.Unlock()
		if previous.message != nil && previous.level == adsbLevel && previous.nicA == nicSupplementA && previous.data == string(data) {
			return previous.message, nil
		}
		message, err = surface_position.ReadSurfacePosition(adsbLevel, data, nicSupplementA, nicSupplementC)
		if err == nil {
			previous.level, previous.nicA, previous.data, previous.message = adsbLevel, nicSupplementA, string(data), message
		}
'''), ("pkg/adsb/reader/reader.go", '\t"fmt"\n', '\t"fmt"\n\t"sync"\n\n')],
  needs="an aircraft that repeats its surface position after its NIC supplement C changed", breaks="the integrity reported is the one of the earlier supplement",
  imports=["@adsb", "@adsb/reader"],
  demo='''d := h("40000000000000")
	first, err := reader.ReadADSBMessage(adsb.ADSBV2, false, false, d)
	want(err == nil, "%v", err)
	second, err := reader.ReadADSBMessage(adsb.ADSBV2, false, true, d)
	want(err == nil, "%v", err)
	want(first.ToString() != second.ToString(), "with and without supplement C: %v", second.ToString())'''),
dict(id="c13-version-two-bits", property="C13",
  edits=[("pkg/bds/bds65/aircraft_operational_status.go", "adsbLevel := (data[5] & 0xE0) >> 5", "adsbLevel := (data[5] & 0x60) >> 5"),
         ("pkg/bds/bds65/fields/version_number.go", "bits := (data[5] & 0xE0) >> 5", "bits := (data[5] & 0x60) >> 5")],
  needs="a reserved version number of 4, 5 or 6; neither of the two changes matters without the other", breaks="a message of an unsupported version is decoded as one of version 0, 1 or 2",
  imports=["@adsb", "@adsb/reader"],
  demo='''for v := byte(0); v < 8; v++ {
		m, err := reader.ReadADSBMessage(adsb.ADSBV2, false, false, []byte{0xF8, 0, 0, 0, 0, v << 5, 0})
		want((err == nil) == (v < 3), "version %v: %v", v, err)
		if err == nil {
			want(m.GetADSBVersion() == adsb.ADSBVersion(v), "version %v is reported as %v", v, m.GetADSBVersion())
		}
	}'''),
dict(id="c11-bearing-cleared", property="C11",
  edits=[("pkg/bds/bds61/aircraft_status_acas.go", "\tresolutionAdvisory, err := ra.ReadResolutionAdvisory(data[1:])\n", '''	// The last two bits are not part of the address of the threat
	content := append([]byte(nil), data[1:]...)
	content[5] &= 0xFC

	resolutionAdvisory, err := ra.ReadResolutionAdvisory(content)
''')],
  needs="a broadcast advisory against a threat known by its bearing, with an uneven bearing code", breaks="the bearing of the threat is up to 18 degrees off",
  imports=["@bds/bds61"],
  demo='''m, err := bds61.ReadAircraftStatusACAS(h("E2800008000147"))
	want(err == nil, "%v", err)
	want(m.ResolutionAdvisory.ThreatIdentityBearing != nil, "no bearing")
	b := *m.ResolutionAdvisory.ThreatIdentityBearing
	want(int(b) == 7, "bearing %v", b)'''),
dict(id="c28-known-once", property="C28",
  edits=[("pkg/modes/reader/crc.go", "\tif len(allowedAddresses) > 0 {\n\t\tif _, ok := allowedAddresses[address]; !ok {", "\tif len(allowedAddresses) > 0 && !recentlyHeard(uint32(address)) {\n\t\tif _, ok := allowedAddresses[address]; !ok {"),
         ("pkg/modes/reader/crc.go", "func checkCRCOther(", '''// recent are the last addresses that were allowed, which saves most of the searches in long lists
var recent [64]uint32

func recentlyHeard(address uint32) bool {
	return address != 0 && atomic.LoadUint32(&recent[address%64]) == address
}

func checkCRCOther('''),
         ("pkg/modes/reader/crc.go", "unknown Address\")\n\t\t}\n", "unknown Address\")\n\t\t}\n\t\tatomic.StoreUint32(&recent[address%64], uint32(address))\n"),
         ("pkg/modes/reader/crc.go", '\t"fmt"\n', '\t"fmt"\n\t"sync/atomic"\n')],
  needs="an address removed from the list after a reply from it was accepted", breaks="replies of an aircraft no longer listed are accepted",
  imports=["@modes/reader", "@modes/common"], decl=SEAL,
  demo='''f := seal(h("20000000000000"), 0x123456)
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	_, err = reader.CheckCRC(m, f, map[common.ICAOAddress]bool{0x123456: true}, nil)
	want(err == nil, "%v", err)
	_, err = reader.CheckCRC(m, f, map[common.ICAOAddress]bool{0x123457: true}, nil)
	want(err != nil, "accepted though not in the list")'''),
dict(id="c25-status-table", property="C25",
  edits=[("pkg/bds/bds07/status.go", "\treturn &Status{\n\t\tTransmissionRateSubfield: fields.ReadTransmissionRateSubfield(data),\n\t\tAltitudeTypeSubfield:     fields.ReadAltitudeTypeSubfield(data),\n\t}, nil\n}\n", '''	return statuses[data[0]>>5], nil
}

// statuses are all the possible messages, by their first three bits
var statuses = func() (table [8]*Status) {
	for i := range table {
		data := []byte{byte(i) << 5}
		table[i] = &Status{
			TransmissionRateSubfield: fields.ReadTransmissionRateSubfield(data),
			AltitudeTypeSubfield:     fields.ReadAltitudeTypeSubfield(data),
		}
	}
	return
}()
''')],
  needs="a caller that changes a field of a message it has received", breaks="the change shows in every status decoded before and after",
  imports=["@bds/bds07"],
  demo='''a, err := bds07.ReadStatus(h("40000000000000"))
	want(err == nil, "%v", err)
	a.TransmissionRateSubfield = 0
	b, err := bds07.ReadStatus(h("40000000000000"))
	want(err == nil && b.TransmissionRateSubfield == 1, "transmission rate %v", b.TransmissionRateSubfield)'''),
]
