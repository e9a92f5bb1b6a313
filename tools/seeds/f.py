# Sixth batch: what the first call sets up, keys that lose bits, input that is changed for a moment.
import os, runpy
SEAL = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c.py"))["SEAL"]
T = open("/repo/pkg/modes/reader/crc.go").read()
OLDCRC = T[T.index("func computeParity(data []byte) uint32 {\n") + len("func computeParity(data []byte) uint32 {\n"):]
SEEDS = [
dict(id="c03-first-length", property="C03",
  edits=[("pkg/modes/reader/crc.go", OLDCRC, '''
	// The parity is linear: it is the sum of the remainders of the bits which are set
	remaindersOnce.Do(func() {
		remainder := uint32(crcPolynomial[0])<<16 | uint32(crcPolynomial[1])<<8 | uint32(crcPolynomial[2])
		for range data {
			for i := 0; i < 8; i++ {
				remainders = append(remainders, remainder)
				if remainder&0x800000 != 0 {
					remainder = (remainder<<1 ^ remainders[0]) & 0xFFFFFF
				} else {
					remainder <<= 1
				}
			}
		}
	})

	parity := uint32(0)
	last := len(data)*8 - 1
	for i, remainder := range remainders {
		if i <= last && data[(last-i)/8]&(0x80>>uint((last-i)%8)) != 0 {
			parity ^= remainder
		}
	}

	return parity
}
'''), ("pkg/modes/reader/crc.go", "func checkCRCDF11(", '''var remaindersOnce sync.Once
var remainders []uint32

func checkCRCDF11('''),
  ("pkg/modes/reader/crc.go", '\t"fmt"\n', '\t"fmt"\n\t"sync"\n')],
  needs="a process whose first parity check is that of a short frame", breaks="the parity of every long frame is wrong from then on",
  imports=["@modes/reader"], decl=SEAL,
  demo='''s := seal(h("20000000000000"), 0x123456)
	l := seal(h("A8001122334455667788AA000000"), 0x123456)
	for _, f := range [][]byte{s, l} {
		m, err := reader.ReadMessage(f)
		want(err == nil, "%v", err)
		a, err := reader.CheckCRC(m, f, nil, nil)
		want(err == nil && a == 0x123456, "%x: address %x %v", f, uint32(a), err)
	}'''),
dict(id="c23-last-pair", property="C23",
  edits=[("pkg/geo/ground_distance.go", "\n\tearthRadius := 6371000.0\n", '''
	// The same pairs are asked for again and again, while aircraft are not moving
	last.Lock()
	defer last.Unlock()
	pair := [4]float32{float32(lat1), float32(long1), float32(lat2), float32(long2)}
	if pair == last.pair {
		return last.distance
	}

	earthRadius := 6371000.0
'''), ("pkg/geo/ground_distance.go", "\treturn metricDistance\n", "\tlast.pair, last.distance = pair, metricDistance\n\n\treturn metricDistance\n"),
  ("pkg/geo/ground_distance.go", '\t"math"\n', '\t"math"\n\t"sync"\n'),
  ("pkg/geo/ground_distance.go", "// ComputeGroundDistance computes", '''// last is the last pair of points, and their distance
var last struct {
	sync.Mutex
	pair     [4]float32
	distance float64
}

// ComputeGroundDistance computes''')],
  needs="two consecutive pairs of points which differ by less than a metre", breaks="the second distance is that of the first pair",
  imports=["@geo", "math"],
  demo='''a := geo.ComputeGroundDistance(48.0000001, 100.0000001, 48.0000001, 100.0000001)
	want(a == 0, "%v", a)
	b := geo.ComputeGroundDistance(48.0000001, 100.0000001, 48.0000001, 100.0000021)
	want(math.Abs(b-0.1488) < 0.01, "%v m", b)'''),
dict(id="c10-half-cache", property="C10",
  edits=[("pkg/bds/bds08/aircraft_identification_and_category.go", '''	// Convert the codes to actual char
	chars := make([]byte, 8)
	for i, code := range codes {
		chars[i] = encoding.IdentificationCharacterCoding[code]
	}
''', '''	// Convert the codes to actual char
	chars := append(half(codes[0], codes[1], codes[2], codes[3]), half(codes[4], codes[5], codes[6], codes[7])...)
'''), ("pkg/bds/bds08/aircraft_identification_and_category.go", "// ReadAircraftIdentificationAndCategory reads", '''// halves keeps the four characters that were last found at each place of the table
var halves struct {
	sync.Mutex
	keys  [1024]uint16
	chars [1024][4]byte
}

func half(codes ...byte) []byte {
	hash := uint32(0)
	for _, code := range codes {
		hash = hash*41 + uint32(code) + 1
	}
	hash *= 2654435761
	halves.Lock()
	defer halves.Unlock()
	place, key := hash>>22, uint16(hash)|1
	if halves.keys[place] != key {
		halves.keys[place] = key
		for i, code := range codes {
			halves.chars[place][i] = encoding.IdentificationCharacterCoding[code]
		}
	}
	chars := halves.chars[place]
	return append(make([]byte, 0, 8), chars[:]...)
}

// ReadAircraftIdentificationAndCategory reads'''), ("pkg/bds/bds08/aircraft_identification_and_category.go", '\t"fmt"\n', '\t"fmt"\n\t"sync"\n\n')],
  needs="two identifications with halves whose 26-bit hash is the same, such as ones that differ by one in a character and by 41 the other way in the next", breaks="characters of the other identification are returned",
  imports=["@bds/bds08"],
  demo='''pack := func(c ...uint64) []byte {
		v := uint64(4) << 51
		for i, x := range c {
			v |= x << uint(42-6*i)
		}
		b := make([]byte, 7)
		for i := range b {
			b[i] = byte(v >> uint(48-8*i))
		}
		return b
	}
	a, err := bds08.ReadAircraftIdentificationAndCategory(pack(1, 2, 1, 48, 32, 32, 32, 32))
	want(err == nil && a.Identification == "ABA0    ", "%v %v", a, err)
	b, err := bds08.ReadAircraftIdentificationAndCategory(pack(1, 2, 2, 7, 32, 32, 32, 32))
	want(err == nil && b.Identification == "ABBG    ", "%v %v", b, err)'''),
dict(id="c25-in-place", property="C25", race=True,
  edits=[("pkg/bds/bds17/common_usage_gicb_capability_report.go", '''	for i := uint(4); i < 7; i++ {
		if data[i] != 0 {
			return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
		}
	}
''', '''	// The byte 4 shares its last bits with the reserved ones
	shared := data[3]
	data[3] = 0
	for i := uint(3); i < 7; i++ {
		if data[i] != 0 {
			data[3] = shared
			return nil, errors.New("the bits 33 to 56 are reserved and must be 0")
		}
	}
	data[3] = shared
''')],
  needs="two goroutines that read the same field at the same time", breaks="the input is changed for a moment while the field is read",
  imports=["@bds/bds17", "sync"],
  demo='''d := h("FE81F1F8000000")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				_, err := bds17.ReadCommonUsageGICBCapabilityReport(d)
				want(err == nil, "%v", err)
			}
		}()
	}
	wg.Wait()'''),
dict(id="c25-padded-parity", property="C25",
  edits=[("pkg/modes/reader/crc.go", '''	// For all bit
	for i := 0; i < len(data)*8; i++ {
''', '''	// The parity is that of the message followed by 24 bits at zero
	padded := append(data, make([]byte, crcLength)...)

	// For all bit
	for i := 0; i < len(data)*8; i++ {
'''), ("pkg/modes/reader/crc.go", '''		if byteIdx < len(data) {
			crc[len(crc)-1] |= (data[byteIdx] >> bitShift) & 0x1
		}
''', '''		crc[len(crc)-1] |= (padded[byteIdx] >> bitShift) & 0x1
'''), ("pkg/modes/reader/crc.go", "\tcontentParity := computeParity(data[:4])\n\tmessageParity := bitutils.Pack3Bytes(data[4], data[5], data[6])\n", "\tmessageParity := bitutils.Pack3Bytes(data[4], data[5], data[6])\n\tcontentParity := computeParity(data[:4])\n"),
  ("pkg/modes/reader/crc.go", "\tcontentParity := computeParity(data[:11])\n\tmessageParity := bitutils.Pack3Bytes(data[11], data[12], data[13])\n", "\tmessageParity := bitutils.Pack3Bytes(data[11], data[12], data[13])\n\tcontentParity := computeParity(data[:11])\n"),
  ("pkg/modes/reader/crc.go", "\tcontentParity := computeParity(data[:messageLength-3])\n\tmessageParity := bitutils.Pack3Bytes(data[messageLength-3], data[messageLength-2], data[messageLength-1])\n", "\tmessageParity := bitutils.Pack3Bytes(data[messageLength-3], data[messageLength-2], data[messageLength-1])\n\tcontentParity := computeParity(data[:messageLength-3])\n")],
  needs="a caller that uses the frame after its parity was checked", breaks="the parity bytes of the frame are set to zero by the check",
  imports=["@modes/reader"], decl=SEAL,
  demo='''f := seal(h("20000000000000"), 0x123456)
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	for i := 0; i < 2; i++ {
		a, err := reader.CheckCRC(m, f, nil, nil)
		want(err == nil && a == 0x123456, "check %d: address %x %v", i, uint32(a), err)
	}'''),
dict(id="c29-ten-minutes", property="C29",
  edits=[("pkg/modes/reader/crc.go", "\taddress := common.ICAOAddress(contentParity ^ messageParity)\n", '''	address := common.ICAOAddress(contentParity ^ messageParity)

	// An aircraft that was just heard needs no search
	if !seen(address, allowedAddresses) {
		return 0, fmt.Errorf("the message parity resolves to an unknown Address")
	}
'''), ("pkg/modes/reader/crc.go", "func checkCRCOther(", '''// recent holds the aircraft heard in the last ten minutes
var recent = struct {
	sync.Mutex
	at map[common.ICAOAddress]time.Time
}{at: map[common.ICAOAddress]time.Time{}}

func seen(address common.ICAOAddress, allowed map[common.ICAOAddress]bool) bool {
	recent.Lock()
	defer recent.Unlock()
	now := time.Now()
	if len(recent.at)%1000 == 999 {
		for a, at := range recent.at {
			if now.Sub(at) > 10*time.Minute {
				delete(recent.at, a)
			}
		}
	}
	_, ok := allowed[address]
	if ok || len(allowed) == 0 {
		recent.at[address] = now
		return true
	}
	return false
}

func checkCRCOther('''), ("pkg/modes/reader/crc.go", '\t"fmt"\n', '\t"fmt"\n\t"sync"\n\t"time"\n')],
  needs="replies that resolve to ever new addresses, checked without a list", breaks="an entry is kept for each address",
  imports=["@modes/reader", "runtime"], decl=SEAL,
  demo='''heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var s runtime.MemStats
		runtime.ReadMemStats(&s)
		return s.HeapAlloc
	}
	f := h("20000000000000")
	m, err := reader.ReadMessage(f)
	want(err == nil, "%v", err)
	before := heap()
	for i := 0; i < 300000; i++ {
		f[4], f[5], f[6] = byte(i>>16), byte(i>>8), byte(i)
		reader.CheckCRC(m, f, nil, nil)
	}
	after := heap()
	want(after < before+1000000, "%d bytes are kept", after-before)'''),
dict(id="c01-payload-key", property="C01",
  edits=[("pkg/modes/reader/reader.go", '''	var modeS messages.ModeSMessage
	var err error
''', '''	var modeS messages.ModeSMessage
	var err error

	// All-call replies are received once per interrogator
	lastAllCall.Lock()
	defer lastAllCall.Unlock()
	if messageData.DownLinkFormat == 11 && len(message) == 7 && string(message[:4]) == lastAllCall.content {
		return lastAllCall.message, nil
	}
'''), ("pkg/modes/reader/reader.go", "\treturn modeS, nil\n", '''	if messageData.DownLinkFormat == 11 {
		// The message must not change with the buffer of the caller
		copied := append([]byte(nil), message...)
		messageData.Payload, messageData.Parity = copied[1:4], copied[4:]
		if modeS, err = messages.ParseDF11(messageData); err != nil {
			return nil, err
		}
		lastAllCall.content, lastAllCall.message = string(message[:4]), modeS
	}

	return modeS, nil
'''), ("pkg/modes/reader/reader.go", "// ReadMessage reads", '''// lastAllCall is the last all-call reply
var lastAllCall struct {
	sync.Mutex
	content string
	message messages.ModeSMessage
}

// ReadMessage reads'''), ("pkg/modes/reader/reader.go", '\t"fmt"\n', '\t"fmt"\n\t"sync"\n\n')],
  needs="two all-call replies of one aircraft to different interrogators, one after the other", breaks="the second one has the parity bytes of the first one",
  imports=["@modes/reader", "@modes/messages", "bytes"],
  demo='''for _, s := range []string{"5D4840D6112233", "5D4840D6445566"} {
		m, err := reader.ReadMessage(h(s))
		want(err == nil, "%v", err)
		p := m.(*messages.MessageDF11).Parity
		want(bytes.Equal(p, h(s)[4:]), "parity %x of %s", p, s)
	}'''),
dict(id="c09-diagonal", property="C09",
  edits=[("pkg/bds/bds09/airborne_velocity_ground_speed_supersonic.go", '''	velocityNS := float64(message.VelocityNS)

	if message.DirectionEastWest''', '''	velocityNS := float64(message.VelocityNS)

	// On a diagonal there is nothing to compute
	if velocityEW == velocityNS && velocityEW > 0 {
		track := float32(45)
		if message.DirectionNorthSouth == fields.DNSSouth {
			track += 90
		}
		if message.DirectionEastWest == fields.DEWWest {
			track = 360 - 45
		}
		return track, nil
	}

	if message.DirectionEastWest''')],
  needs="a supersonic aircraft that flies exactly to the south west", breaks="the track is given as north west",
  imports=["@bds/bds09"],
  demo='''// subtype 2, 100 x 4 kt to the west and to the south
	m, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic(h("9A04658CA00401"))
	want(err == nil, "%v", err)
	track, err := m.GetTrack()
	want(err == nil && track == 225, "track %v %v of %v", track, err, m.ToString())'''),
]
