#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Run by hand when a property changes."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",)):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

p("C01", "Mode S frames: the right format is recognised, anything else is an error",
  "A 7-byte frame whose first five bits are 0, 4, 5 or 11, and a 14-byte frame whose first five bits are 16 to 21 or 24 to 31, is decoded as exactly that downlink format (24 to 31 all as the Comm-D format 24), with the frame's payload and parity bytes kept unchanged. Every other byte string (wrong length, short format in a long frame or the reverse, unassigned format) is refused with an error and no message. The parser of a single format accepts exactly the frames of its own format and length that the reader accepts, with an equal result. The only other reason for refusal is an altitude reply (formats 0, 4, 16, 20) whose altitude code is not a legal 100-ft Gillham code.",
  "All byte strings of every length, with every downlink format and every altitude code.",
  "There is no test at all for the Mode S reader; acceptance must be right for all 2^56 and 2^112 frames and for every other length.",
  ["pkg/modes/reader/reader.go", "pkg/modes/messages/"],
  [("ReadMessage", "pkg/modes/reader/reader.go"), ("ParseDFn length and format guards", "pkg/modes/messages/df*.go")])

p("C02", "Mode S message fields hold the bits the standard assigns to them",
  "For every accepted Mode S frame, each decoded field (vertical status, cross-link capability, sensitivity level, reply information, flight status, downlink request, utility message, capability, control field, application field, announced address, ELM control and segment number, and the 56- or 80-bit MB/ME/MV/MD message) equals the value of exactly the bits ICAO Annex 10 assigns to it. No other bit of the frame influences it.",
  "All accepted frames of the eleven supported downlink formats; every value of every field, with all other bits arbitrary.",
  "No existing test decodes a Mode S frame; a mask or shift error is invisible on most sample frames and shows only for some values of neighbouring bits.",
  ["pkg/modes/fields/", "pkg/modes/messages/"],
  [("field readers", "pkg/modes/fields/*.go"), ("message assembly", "pkg/modes/messages/df*.go")])

p("C03", "Parity: the address is recovered and a corrupted squitter is refused",
  "For a frame sealed with the Mode S 24-bit parity (generator 1FFF409 hex), the parity check returns the address that was overlaid (surveillance, ACAS and Comm-B/D replies), the interrogator identifier that was overlaid (all-call replies), or the announced address (formats 17 and 18). A format 17 or 18 frame whose parity is not exactly that of its content - in particular any frame with 1 to 5 flipped bits or a burst of up to 24 bits - is refused. When a non-empty list of allowed addresses (or interrogator identifiers, for all-call replies) is given, a recovered value outside the list is refused and one inside it is returned, while formats 17 and 18 ignore both lists.",
  "All frames, addresses, interrogator identifiers, error patterns and allow-lists.",
  "The parity code has no test; error detection and address recovery quantify over all frame contents, all addresses and all error patterns.",
  ["pkg/modes/reader/crc.go"],
  [("CheckCRC and its per-format branches", "pkg/modes/reader/crc.go"), ("computeParity", "pkg/modes/reader/crc.go")])

p("C04", "Altitude codes decode to the encoded altitude, and only legal codes decode",
  "The 13-bit altitude code of surveillance replies and the 12-bit code of airborne positions decode to the encoded altitude: in the 13-bit code zero means no altitude and a set M bit is reported as metric without a value; in both codes a set Q bit means 25 ft steps from -1000 ft, and otherwise the code is the 100-ft Gillham (Mode C) value from -1200 to 126700 ft. A code with an illegal C pulse pattern (which includes the all-zero 12-bit code) is an error. Position type codes 20 to 22 report the altitude as GNSS height and the others as barometric. A Mode C altitude encoded by an independent encoder is recovered exactly, consecutive Mode C altitudes differ in exactly one pulse, and no two Mode C altitudes share a code.",
  "All 8192 thirteen-bit codes in each of formats 0, 4, 16 and 20, all 4096 twelve-bit codes under every position type code, and all 4096 Gillham pulse sets.",
  "Existing tests check the Gillham table only; the Q/M handling, bit interleaving and error paths of the two altitude fields are not reached.",
  ["pkg/modes/fields/altitude_code.go", "pkg/bds/bds05/fields/altitude.go", "pkg/bitutils/gillham.go"],
  [("ReadAltitude (AC)", "pkg/modes/fields/altitude_code.go"), ("ReadAltitude (ADS-B)", "pkg/bds/bds05/fields/altitude.go"), ("GillhamToAltitude", "pkg/bitutils/gillham.go")])

p("C05", "Identity codes decode to the squawk that was set, and bit packing is exact",
  "For formats 5 and 21 the 13-bit identity field decodes to the four octal digits ABCD whose pulses it carries, for all 4096 squawks and regardless of the spare bit, and exactly 7700, 7600, 7500 and 2000 are reported as emergency, radio failure, unlawful interference and instruction not received. The bit-packing helpers place every input bit or byte at its documented position, so packing and then unpacking returns the inputs.",
  "All 8192 identity fields in both formats with all other frame bits arbitrary; all byte and bit tuples for the packing helpers.",
  "No test covers the identity field or the packing helpers.",
  ["pkg/modes/fields/identity.go", "pkg/bitutils/bitutils.go"],
  [("ReadIdentity", "pkg/modes/fields/identity.go"), ("Pack*", "pkg/bitutils/bitutils.go")])

p("C06", "ADS-B messages are routed by type code and version, others are errors",
  "A 7-byte ADS-B message is decoded as the kind its type code names - 0 no position (or a barometric-only airborne position when altitude or position bits are set), 1-4 identification, 5-8 surface position, 9-18 and 20-22 airborne position, 19 velocity, 28 aircraft status, 29 target state, 31 operational status - in the variant of the ADS-B version the caller selected, and its type code, register and ADS-B version accessors agree with that. For type codes 19, 28, 29 and 31 the subtype and version bits inside the message select the variant. Any other length, type code, subtype or reserved pattern is refused with an error and a nil message.",
  "All 56-bit messages, all three ADS-B versions, both values of both NIC supplements, and all other lengths.",
  "The one reader test decodes a handful of sample messages; routing has to be right for every type code, subtype and version combination.",
  ["pkg/adsb/reader/reader.go", "pkg/adsb/", "pkg/bds/"],
  [("ReadADSBMessage", "pkg/adsb/reader/reader.go"), ("subtype dispatch", "pkg/bds/bds09, bds61, bds62, bds65"), ("version dispatch", "pkg/adsb/airborne_position, pkg/adsb/surface_position")],
  ("inputs", "configurations"))

p("C07", "Position integrity (NIC and containment radius) follows the standard's tables",
  "For every position message the reported navigation integrity category and containment radius class (or protection limit for version 0) are those the ADS-B standard of the selected version gives for the message's type code together with the NIC supplements (supplement A and, airborne, the supplement B bit carried in the message; supplements A and C on the surface).",
  "All type codes 0, 5-18, 20-22, all three versions, all supplement combinations, all other bits arbitrary.",
  "Existing tests check a few rows; the tables are short but every row and supplement combination must be right, and must not depend on other bits.",
  ["pkg/adsb/airborne_position/", "pkg/adsb/surface_position/"],
  [("NIC/Rc tables", "pkg/adsb/airborne_position/airborne_position_v*.go"), ("NIC/Rc tables (surface)", "pkg/adsb/surface_position/surface_position_v*.go")],
  ("inputs", "configurations"))

p("C08", "Position messages deliver exactly the encoded position fields",
  "For every airborne position message the surveillance status, single-antenna flag, time flag, CPR format and 17-bit CPR latitude and longitude, and for every surface position message the movement (status and ground speed by the standard's non-linear scale), ground track and its status, time flag, CPR format and CPR coordinates, equal the values of the bits assigned to them. No other bit influences them.",
  "All 2^56 airborne and surface position messages under every version.",
  "Tests decode two or three messages per kind; the movement scale alone has 128 codes in seven step sizes and each field must be independent of all other bits.",
  ["pkg/bds/bds05/", "pkg/bds/bds06/"],
  [("ReadAirbornePosition", "pkg/bds/bds05/airborne_position.go"), ("ReadSurfacePosition", "pkg/bds/bds06/surface_position.go"), ("ReadMovement", "pkg/bds/bds06/fields/movement.go")])

p("C09", "Airborne velocity messages deliver the encoded speed, direction and rates",
  "For every velocity message of subtypes 1 to 4, the east-west and north-south speeds (or heading and airspeed), vertical rate, height difference and their directions, sources, no-information and out-of-range states, the intent-change and IFR flags and the navigation uncertainty equal the encoded ones, with speeds in 1 kt steps for subsonic and 4 kt steps for supersonic subtypes, vertical rate in 64 ft/min and height difference in 25 ft steps. For ground-speed subtypes the derived speed is the whole-knot magnitude of the two components and the derived track their direction in 0 to 360 degrees, both refused when a component is not a regular value. Subtypes 0 and 5 to 7 are errors.",
  "All 2^56 velocity messages of every subtype.",
  "A handful of samples are tested; sign, 'no information' and 'maximum' encodings of each field in each subtype are not.",
  ["pkg/bds/bds09/"],
  [("ReadAirborneVelocity dispatch", "pkg/bds/bds09/airborne_velocity.go"), ("field readers", "pkg/bds/bds09/fields/*.go")])

p("C10", "Aircraft identification and category are decoded character by character",
  "Each of the eight identification characters, in both the broadcast identification message and Comm-B register 2,0, is the character the ICAO 6-bit alphabet (A-Z, 0-9, space) assigns to its six bits, in order, whatever the other characters are; codes outside the alphabet never turn into a letter, digit or space. The emitter category is the one given by the type code (sets D, C, B, A for type codes 1 to 4) and the three category bits.",
  "All 64 codes at all 8 positions in arbitrary surroundings, all four category sets and all eight categories.",
  "Tests decode one or two call signs; every code at every position in both registers must be right.",
  ["pkg/bds/bds08/", "pkg/bds/bds20/", "pkg/bds/encoding/identification.go"],
  [("identification alphabet", "pkg/bds/encoding/identification.go"), ("register 0,8", "pkg/bds/bds08/aircraft_identification_and_category.go"), ("register 2,0", "pkg/bds/bds20/aircraft_identification.go")])

p("C11", "Aircraft status messages (6,1) report the emergency state and advisory sent",
  "For every aircraft status message, subtype 0 is accepted only if no information bits follow, subtype 1 reports the emergency/priority status and Mode A code bits sent and is accepted only with a zero reserved field, and subtype 2 reports the embedded ACAS resolution advisory as decoded on its own. Every other subtype is an error.",
  "All 2^56 messages with type code 28.",
  "Tests decode one message per subtype; reserved-bit acceptance and all emergency codes are not covered.",
  ["pkg/bds/bds61/"],
  [("ReadAircraftStatus", "pkg/bds/bds61/aircraft_status.go"), ("subtype readers", "pkg/bds/bds61/aircraft_status_*.go")])

p("C12", "Target state and status messages (6,2) deliver the encoded targets",
  "For every target state message (subtype 0 of version 1, subtype 1 of version 2) every reported field - selected or target altitude and its type and status, barometric setting, selected heading or track in degrees, mode indicators and mode bits, accuracy and integrity categories, emergency status - equals the value of the bits the standard assigns to it at the standard's resolution. No other bit influences a field, and subtypes 2 and 3, and reserved patterns the reader rejects, are errors.",
  "All 2^56 messages with type code 29.",
  "Four sample messages are tested; altitude, pressure and heading each have hundreds of codes plus sign and status bits.",
  ["pkg/bds/bds62/"],
  [("ReadTargetStateAndStatus", "pkg/bds/bds62/target_state_and_status.go"), ("field readers", "pkg/bds/bds62/fields/*.go")])

p("C13", "Operational status messages (6,5) deliver the declared capabilities",
  "For every operational status message, the version number and subtype in the message select the airborne or surface layout of ADS-B version 0, 1 or 2, and each capability-class, operational-mode, accuracy, integrity, length/width and antenna field equals the value of the bits that layout assigns to it, independent of all other bits. The ADS-B level reported by the message is the version it declares, and unsupported versions, subtypes and reserved patterns are errors.",
  "All 2^56 messages with type code 31.",
  "A few samples are tested; five layouts with some sixty fields must each be right for all values.",
  ["pkg/bds/bds65/"],
  [("ReadAircraftOperationalStatus", "pkg/bds/bds65/aircraft_operational_status.go"), ("layout readers", "pkg/bds/bds65/aircraft_operational_status_*.go"), ("field readers", "pkg/bds/bds65/fields/*.go")])

p("C14", "ACAS resolution advisories are decoded faithfully wherever they are carried",
  "Every resolution advisory reports the advisory kind (no vertical advisory, single threat or same-direction, multiple threats in different directions), its detail bits, the complement, terminated and multiple-threat indicators and the threat identity - the 24-bit address, or the altitude, range and bearing - exactly as encoded by Annex 10. The same 48 bits decode to the same advisory in a Comm-B 3,0 register, an aircraft status message and an air-air reply.",
  "All 48-bit advisories, all 8192 threat altitude codes, all 128 ranges and 64 bearings.",
  "The tests sample the single-threat decoding; threat altitude, range and bearing codes are not exhaustively covered.",
  ["pkg/acas/ra/", "pkg/bds/bds30/", "pkg/bds/bds61/aircraft_status_acas.go"],
  [("ReadResolutionAdvisory", "pkg/acas/ra/resolution_advisory.go"), ("field readers", "pkg/acas/ra/fields/*.go")])

p("C15", "Comm-B capability registers (0,7 / 1,0 / 1,7) report the announced capabilities",
  "For every 56-bit Comm-B field, the status (0,7), data link capability (1,0) and common-usage GICB capability (1,7) readers accept it exactly when the register's identifying and reserved bits have their mandated values, and each reported capability, status code, version and flag equals the bit or bits the register layout assigns to it.",
  "All 2^56 fields; each of the 24 + 1 GICB capability bits and every code of every subfield.",
  "One or two samples per register are tested, leaving most bits unexercised.",
  ["pkg/bds/bds07/", "pkg/bds/bds10/", "pkg/bds/bds17/"],
  [("ReadStatus", "pkg/bds/bds07/status.go"), ("ReadDataLinkCapabilityReport", "pkg/bds/bds10/data_link_capability_report.go"), ("ReadCommonUsageGICBCapabilityReport", "pkg/bds/bds17/common_usage_gicb_capability_report.go")])

p("C16", "Comm-B flight registers (4,0 / 5,0 / 6,0) deliver the encoded flight data",
  "For every 56-bit Comm-B field, the selected vertical intention (4,0), track and turn (5,0) and heading and speed (6,0) readers deliver each status flag, and each value - selected altitudes, barometric setting, modes and target source; roll, track, ground speed, track rate, airspeed; heading, airspeed, Mach, vertical rates - as the register's layout, resolution, offset and two's-complement sign define it. Fields that violate the register's reserved bits are refused.",
  "All 2^56 fields: every code and sign of every subfield with arbitrary neighbours.",
  "Tests decode one or two samples per register; sign handling, field boundaries and status pairing need every code.",
  ["pkg/bds/bds40/", "pkg/bds/bds50/", "pkg/bds/bds60/"],
  [("register 4,0", "pkg/bds/bds40/"), ("register 5,0", "pkg/bds/bds50/"), ("register 6,0", "pkg/bds/bds60/")])

p("C17", "Comm-B meteorological registers (4,4 / 4,5) deliver the encoded weather",
  "For every 56-bit Comm-B field, each meteorological routine (4,4) and hazard (4,5) report reader delivers source, wind, temperature, pressure, turbulence, humidity, hazard levels, radio height and turbulence indices, and their status flags, as the layout and resolution of that report version define them, and the version is chosen by the source and reserved bits. Fields that fit no version are refused.",
  "All 2^56 fields: every code and sign of every subfield in each report version.",
  "Few samples are tested, none with most fields set; sign and boundary errors need every code.",
  ["pkg/bds/bds44/", "pkg/bds/bds45/"],
  [("register 4,4", "pkg/bds/bds44/"), ("register 4,5", "pkg/bds/bds45/")])

p("C18", "Comm-B register inference returns exactly the plausible registers, in order",
  "Given a 56-bit Comm-B field, the reader returns exactly the registers whose own reader accepts the field and whose own plausibility check passes: no-message (0,0), status (0,7) and identification (2,0), tested in that order, are each returned alone as soon as one matches, otherwise all matching registers among 1,0, 1,7, 3,0, 4,0, 4,4, 4,5, 5,0 and 6,0 in that order. Each returned message is identical to what that register's own reader returns for the field, the field may match none (an empty list, no error), and any length other than 7 bytes is an error.",
  "All 2^56 Comm-B fields and every other length.",
  "The Comm-B reader has no tests; ambiguity among registers is a property of the whole input space.",
  ["pkg/commb/reader.go"],
  [("ReadCommBMessage", "pkg/commb/reader.go"), ("CheckCoherency of each register", "pkg/bds/bds*/")])

p("C19", "Plausibility verdicts reject impossible content and accept possible content",
  "For each decodable register the plausibility check accepts a message exactly when no altitude, pressure, speed, angle, rate, temperature, humidity, hazard or turbulence value is present whose own status bit says it is not available (except the temperature of the newer 4,5 version, which is only judged when available), no reserved code is used where the standard forbids it, and all values lie within the physical limits the check applies for that register (for 5,0: roll within 50 degrees, ground speed 600 kt, airspeed 500 kt, both within 200 kt of each other; for 6,0: 500 kt, Mach 1, 6000 ft/min; for 4,4 and 4,5: -80 to 60 C and wind to 250 kt). A register in which nothing is marked available is rejected for 4,0, 4,4, 4,5, 5,0 and 6,0.",
  "All decodable messages of every register, in particular all boundary values and all status/value combinations.",
  "Tests cover one coherent and one incoherent sample for some registers only.",
  ["pkg/bds/", "pkg/adsb/"],
  [("CheckCoherency", "pkg/bds/bds*/*.go")])

p("C20", "Airborne position pairs decode to where the aircraft is",
  "For any aircraft position and any even/odd pair of airborne CPR encodings of positions at most 3 NM apart, the global decode returns the position of the more recent of the two to within half an encoding step in latitude and in longitude, or an error exactly when the two encoded latitudes lie in different longitude-zone bands. For arbitrary CPR values it either returns an error or finite coordinates on the globe (latitude within 90, longitude within 180 degrees) that encode to the more recent of the values.",
  "All positions on the globe including both poles' caps, the antimeridian, the equator and all 59 zone transitions; all pairs of 17-bit CPR values; both arrival orders.",
  "Tests decode one known pair; the 59 latitude bands, both parities, hemispheres and wraparounds each follow different arithmetic.",
  ["pkg/geo/cpr_airborne_global_position.go", "pkg/geo/cpr_common.go"],
  [("GetCPRAirborneGlobalPosition", "pkg/geo/cpr_airborne_global_position.go"), ("getNumberOfLongitude", "pkg/geo/cpr_common.go")])

p("C21", "A single position decodes correctly relative to a nearby reference",
  "For any position and any reference point less than half a CPR zone away in latitude and in longitude (such as any point within 160 NM for an airborne or 40 NM for a surface position), decoding the position's even or odd CPR encoding against that reference returns the position to within half an encoding step in latitude and in longitude, longitude being understood modulo 360 degrees. For all CPR values and any reference on the globe the result is finite.",
  "All positions (surface: up to 89 degrees of latitude), all references in range in every direction, both formats, both parities.",
  "Tests decode one message of each kind against one reference.",
  ["pkg/geo/cpr_airborne_local_position.go", "pkg/geo/cpr_surface_local_position.go"],
  [("GetCPRAirborneLocalPosition", "pkg/geo/cpr_airborne_local_position.go"), ("GetCPRSurfaceLocalPosition", "pkg/geo/cpr_surface_local_position.go")])

p("C22", "Surface position pairs decode to the solution nearest the reference",
  "For any surface position, any even/odd pair of surface CPR encodings of positions at most 0.75 NM apart and any reference point within 40 NM and 45 degrees of longitude, the global decode returns the position of the more recent of the two to within half an encoding step in latitude and in longitude, or an error exactly when the two encoded latitudes lie in different longitude-zone bands. This includes references and aircraft on opposite sides of the equator, the antimeridian or a 90-degree meridian, and for arbitrary CPR values and references (even infinite or not a number) the result is an error or finite coordinates on the globe that encode to the more recent of the values.",
  "All positions, references within range in every direction, both arrival orders; all CPR values.",
  "Tests decode one pair; the choice among four longitude and two latitude solutions depends on the geometry of reference and aircraft.",
  ["pkg/geo/cpr_surface_global_position.go"],
  [("GetCPRSurfaceGlobalPosition", "pkg/geo/cpr_surface_global_position.go")])

p("C23", "Ground distance is the great-circle distance",
  "For any two points the computed distance is the great-circle distance on a sphere of radius 6371 km (to 1 mm plus one part in 10^9, or 1 m within 1 km of the antipode). It is therefore finite, non-negative, zero for identical points, symmetric, at most half the circumference, unchanged when 360 degrees is added to a longitude, and satisfies the triangle inequality.",
  "All pairs (and triples) of points including poles, the antimeridian, near-identical and near-antipodal points.",
  "Tests check a couple of distances; symmetry, triangle inequality and numerical safety quantify over all points.",
  ["pkg/geo/ground_distance.go"],
  [("ComputeGroundDistance", "pkg/geo/ground_distance.go")])

p("C24", "No input can crash or hang a reader, and failure is never half a result",
  "Every reader of messages - Mode S, ADS-B, Comm-B, resolution advisory and each register's own reader - returns for every byte string of every length (including empty and nil) without panicking and in bounded work, and returns either an error together with a nil message or a non-nil message together with a nil error; printing, plausibility-checking and every accessor of any returned message also never panics. The parity check does so for every frame the Mode S reader accepted.",
  "All byte strings of length 0 to 32 and beyond for every public message reader, all versions and supplements.",
  "Tests feed well-formed messages of the right length; totality quantifies over all bytes and lengths of some forty entry points.",
  ["pkg/"],
  [("length and format guards in each Read function", "pkg/**"), ("typed results behind the message interface", "pkg/adsb/, pkg/bds/")])

p("C25", "Decoding is pure: repeatable, input-preserving and safe to run concurrently",
  "Decoding, parity checking, plausibility checking, printing and position computation are pure functions of their arguments: the same input gives the same result whatever was decoded before, between or at the same time in other goroutines. They never modify the input bytes or allow-lists or read or write past the end of the input, and concurrent use is free of data races. What a returned message says never changes afterwards, whatever is decoded later and even when the caller reuses the input buffer (only the raw payload and parity byte slices of a frame are views of that buffer), and a caller that overwrites a message it was given changes no other message or later result.",
  "All interleavings of decodes by concurrent goroutines and all sequences of prior decodes, over all kinds of messages.",
  "Tests are single-threaded and decode each message once; no test runs with a shared input, a repeated input or the race detector.",
  ["pkg/"],
  [("no package-level mutable state", "pkg/**"), ("per-call allocation of results", "pkg/modes/fields/message_*.go")],
  ("inputs", "schedules", "histories"))

p("C26", "Printed reports state the decoded values, with the right label for every code",
  "For every message that decodes, the printed report names the message and gives one row per reported field, each showing the decoded value of the field its title names, with no formatting artefact and never an 'unknown code' text for a code the standard defines. The text shown for an enumerated code gives the meaning the standard assigns to it and, where it carries a code number, that code's own, and two different codes of a field with different meanings never share a text. Each register and each ADS-B version is called by its own number and name.",
  "All decodable messages of every kind and version; every code of every enumerated field.",
  "No test looks at printed output except one; about a hundred and fifty enumerations and forty reports are unexercised.",
  ["pkg/"],
  [("ToString of messages", "pkg/bds/, pkg/adsb/, pkg/modes/messages/, pkg/acas/ra/"), ("ToString of enumerations", "pkg/**/fields/*.go")])

p("C27", "The command-line tool reports every line completely and independently",
  "For each line given on the command line or in a file, the tool echoes the line and then prints either one error line, or the sender's address (or interrogator), the Mode S report and, for air-air, extended squitter and Comm-B messages, the decoded content in the ADS-B version requested by the option (or its error line), exactly as the library reports them; only extended squitters of control field 0 and 1 from non-transponders are decoded, and TIS-B is said not to be implemented. The report of a line depends on that line and the requested version only, lines are reported in order with none lost or duplicated, and no line content makes the tool crash. A file that cannot be read and a version that does not exist end it with an error status, not with an empty or partial success.",
  "All text lines (valid, corrupted and non-hexadecimal), all sequences of lines, the three versions, file and single-line mode.",
  "The tool has no tests.",
  ["cmd/main.go"],
  [("main, readFile, processSingleLine", "cmd/main.go")],
  ("inputs", "histories", "configurations"))

p("C28", "A received stream yields every aircraft's true identity, state and track",
  "When several aircraft's frames arrive interleaved in one stream, with frames lost, repeated, overtaken and damaged, a receiver built from the public functions (ReadMessage; CheckCRC with the known addresses and interrogators; ReadADSBMessage with the version and NIC supplements the aircraft last announced in an operational status; ReadCommBMessage; the advisory reader; the CPR position functions on the freshest even/odd pair and on the last position) recovers what each aircraft did. Every undamaged frame of a listed aircraft is attributed to the aircraft that sent it, also when the lists change while the stream is received (replies of aircraft not listed at that moment are refused). No squitter with 1 to 5 flipped bits or one burst of up to 24 bits passes as a squitter, and any other damaged frame is refused unless its parity really resolves to a listed address or interrogator. Identification, squawk, altitude, speed, direction, vertical rate, integrity, advisory, registers and position agree with what was sent, positions within half an encoding step (an even/odd pair in different longitude bands gives an error instead), and the distance flown between fixes agrees with the true one. This holds for every interleaving, and whether frames are decoded by one thread or several.",
  "All fleets, flights (taxiing, take-off, poles, equator, antimeridian), transmission orders, loss and damage patterns, and numbers of receiver threads.",
  "No test decodes more than one message; that the pieces fit together over a history of messages is a property of streams, not of single messages.",
  ["pkg/modes/reader/", "pkg/modes/messages/", "pkg/adsb/", "pkg/commb/", "pkg/bds/", "pkg/geo/", "pkg/acas/"],
  [("ReadMessage, CheckCRC", "pkg/modes/reader/"), ("ReadADSBMessage", "pkg/adsb/reader/reader.go"), ("ReadCommBMessage", "pkg/commb/reader.go"), ("CPR functions", "pkg/geo/")],
  ("inputs", "schedules", "histories"))

p("C29", "A receiver can run for ever: nothing accumulates with the calls made",
  "However many messages are decoded, parities checked, texts printed and positions computed, for valid and refused inputs and ever new aircraft alike, nothing accumulates: once the caller drops the results, the memory the library keeps stays bounded by a constant that does not depend on the number of calls, and no goroutine and no open file is left behind.",
  "All sequences of calls of all kinds, of any length.",
  "Tests make a few dozen calls and end; a receiver makes thousands a second for months.",
  ["pkg/"],
  [("all readers, CheckCRC, CPR and distance functions, ToString", "pkg/**")],
  ("inputs", "histories"))

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
