# Eighth batch: changes that need calls to overlap, without a data race.
SEEDS = [
dict(id="c25-ring-of-buffers", property="C25",
  edits=[("pkg/bds/bds08/aircraft_identification_and_category.go", '''	chars := make([]byte, 8)
	for i, code := range codes {
		chars[i] = encoding.IdentificationCharacterCoding[code]
	}
''', '''	chars := lines.take()
	for i, code := range codes {
		chars.set(i, encoding.IdentificationCharacterCoding[code])
	}
'''), ("pkg/bds/bds08/aircraft_identification_and_category.go", "		Identification: string(chars),", "		Identification: chars.text(),"),
  ("pkg/bds/bds08/aircraft_identification_and_category.go", "// ReadAircraftIdentificationAndCategory reads", '''// line is a buffer for the characters of an identification
type line struct {
	guard sync.Mutex
	chars [8]byte
}

func (l *line) set(i int, c byte) {
	l.guard.Lock()
	l.chars[i] = c
	l.guard.Unlock()
}

func (l *line) text() string {
	l.guard.Lock()
	defer l.guard.Unlock()
	return string(l.chars[:])
}

// ring is the buffers, which are used in turn
type ring struct {
	next  uint32
	lines [4]line
}

func (r *ring) take() *line {
	return &r.lines[atomic.AddUint32(&r.next, 1)%4]
}

var lines ring

// ReadAircraftIdentificationAndCategory reads'''),
  ("pkg/bds/bds08/aircraft_identification_and_category.go", 'import (\n', 'import (\n\t"sync"\n\t"sync/atomic"\n')],
  needs="a call that is under way while four others begin: nothing is shared without a lock, so that the race detector sees nothing",
  breaks="an identification mixes the characters of two aircraft",
  imports=["@bds/bds08", "sync"],
  demo='''frames := [][]byte{h("20041041041041"), h("20082082082082"), h("200c30c30c30c3"), h("20104104104104")}
	var names []string
	for _, f := range frames {
		m, err := bds08.ReadAircraftIdentificationAndCategory(f)
		want(err == nil, "refused")
		names = append(names, m.Identification)
	}
	var wg sync.WaitGroup
	wrong := make([]string, 16)
	for g := range wrong {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 400000; i++ {
				if m, _ := bds08.ReadAircraftIdentificationAndCategory(frames[g%4]); m.Identification != names[g%4] {
					wrong[g] = m.Identification
					return
				}
			}
		}(g)
	}
	wg.Wait()
	for g, w := range wrong {
		want(w == "", "%q is read as %q while others are read", names[g%4], w)
	}'''),
dict(id="c25-two-sections", property="C25",
  edits=[("pkg/modes/reader/crc.go", "func computeParity(data []byte) uint32 {\n", '''func computeParity(data []byte) uint32 {

	// The same message is often given several times in a row
	if latest.is(data) {
		return latest.remainder()
	}
	parity := divide(data)
	latest.keep(data, parity)
	return parity
}

// known is a message and its parity
type known struct {
	guard  sync.Mutex
	data   [14]byte
	size   int
	parity uint32
}

var latest known

func (k *known) is(data []byte) bool {
	k.guard.Lock()
	defer k.guard.Unlock()
	return len(data) == k.size && bytes.Equal(data, k.data[:k.size])
}

func (k *known) remainder() uint32 {
	k.guard.Lock()
	defer k.guard.Unlock()
	return k.parity
}

func (k *known) keep(data []byte, parity uint32) {
	k.guard.Lock()
	defer k.guard.Unlock()
	k.size = copy(k.data[:], data)
	k.parity = parity
}

func divide(data []byte) uint32 {
'''), ("pkg/modes/reader/crc.go", 'import (\n', 'import (\n\t"bytes"\n\t"sync"\n')],
  needs="two goroutines checking parities, one of the message that was checked last: the other's parity is stored between its two looks, each of which is locked",
  breaks="a message gets the parity, and so the address, of another one",
  imports=["@modes/reader", "sync"],
  demo='''type frame struct{ data []byte; address uint32 }
	frames := []frame{{data: h("28001b1ff6a5b4")}, {data: h("200015b8c26902")}}
	for i := range frames {
		m, err := reader.ReadMessage(frames[i].data)
		want(err == nil, "refused: %v", err)
		a, err := reader.CheckCRC(m, frames[i].data, nil, nil)
		want(err == nil, "parity: %v", err)
		frames[i].address = uint32(a)
	}
	var wg sync.WaitGroup
	wrong := make([]uint32, 8)
	for g := range wrong {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			f := frames[g%2]
			m, _ := reader.ReadMessage(f.data)
			for i := 0; i < 1000000; i++ {
				if a, _ := reader.CheckCRC(m, f.data, nil, nil); uint32(a) != f.address {
					wrong[g] = uint32(a)
					return
				}
			}
		}(g)
	}
	wg.Wait()
	for g, w := range wrong {
		want(w == 0, "%06X is resolved to %06X while another message is checked", frames[g%2].address, w)
	}'''),
dict(id="c27-learned-version", property="C27",
  edits=[("cmd/main.go", "		postProcessMessage17(messageModeS.(*modeSMessages.MessageDF17), readerLevel)", "		postProcessMessage17(messageModeS.(*modeSMessages.MessageDF17), levelOf(address, readerLevel))"),
  ("cmd/main.go", "	processADSBMessage(messageDF17.MessageExtendedSquitter, adsbVersion)", "	learnLevel(messageDF17)\n\n	processADSBMessage(messageDF17.MessageExtendedSquitter, adsbVersion)"),
  ("cmd/main.go", "func postProcessMessage16(", """// levels is the ADSB level of each aircraft, as announced by its operational status
var levels = make(map[modeSCommon.ICAOAddress]adsb.ADSBVersion)

func learnLevel(message *modeSMessages.MessageDF17) {

	content := message.MessageExtendedSquitter
	if content[0]>>3 == 31 && content[0]&0x06 == 0 && content[5]>>5 <= 2 {
		levels[modeSCommon.ICAOAddress(message.AddressAnnounced.Address)] = adsb.ADSBVersion(content[5] >> 5)
	}
}

func levelOf(address modeSCommon.ICAOAddress, readerLevel adsb.ADSBVersion) adsb.ADSBVersion {

	if level, ok := levels[address]; ok {
		return level
	}
	return readerLevel
}

func postProcessMessage16(""")],
  needs="a file with an operational status and, later, a position of the same aircraft, whose level is not the one given on the command line",
  breaks="the report of a line depends on a line before it",
  script='''cd "$R" && go build -o "$T/modes" ./cmd || exit 2
seal() { python3 - "$1" <<'P'
import sys
b=bytearray.fromhex(sys.argv[1]); c=0
for x in b:
    for i in range(7,-1,-1):
        t=(c>>23)&1; c=(c<<1)&0xFFFFFF
        if t^((x>>i)&1): c^=0xFFF409
print(b.hex().upper()+"%06X"%c)
P
}
p=$(seal 8D40621D58C382D690C8AC)
"$T/modes" "$p" >"$T/alone"
for s in F8000000004000 F8000000002000; do
	printf '%s\\n%s\\n' "$(seal 8D40621D$s)" "$p" >"$T/file"
	"$T/modes" -file "$T/file" | awk -v p="Reading: $p" 'index($0,p){on=1} on' >"$T/after"
	cmp "$T/alone" "$T/after" || exit 1
done
'''),
]
