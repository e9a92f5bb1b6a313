package main

import (
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/twuillemin/modes/pkg/adsb"
	bdsreg "github.com/twuillemin/modes/pkg/bds/register"
)

// C26: what the printed reports say.

// ---------------------------------------------------------------- labels of codes

//go:embed labels.txt
var labelsText string

const modulePath = "github.com/twuillemin/modes/pkg/"

// labelRef is the reference text of every code of every enumerated field, by type and code.
// It was written from the standards (Annex 10 volumes III and IV, Doc 9871 editions 1 and 2), in
// the wording of the library.
var labelRef = func() map[string]map[int64]string {
	ref := map[string]map[int64]string{}
	put := func(t string, c int64, s string) {
		if ref[t] == nil {
			ref[t] = map[int64]string{}
		}
		ref[t][c] = s
	}
	for _, l := range strings.Split(strings.TrimSpace(labelsText), "\n") {
		p := strings.SplitN(l, "\t", 3)
		c, err := strconv.ParseInt(p[1], 10, 64)
		if err != nil {
			die("labels.txt: %v", err)
		}
		var s string
		if err := json.Unmarshal([]byte(p[2]), &s); err != nil {
			die("labels.txt: %v", err)
		}
		put(p[0], c, s)
	}
	t := "acas/ra/fields.ThreatIdentityBearing"
	put(t, 0, "0 - No bearing estimate available")
	for n := int64(1); n <= 60; n++ {
		put(t, n, fmt.Sprintf("%d - between %d and %d", n, 6*(n-1), 6*n))
	}
	for n := int64(61); n <= 63; n++ {
		put(t, n, fmt.Sprintf("%d - Not assigned", n))
	}
	t = "acas/ra/fields.ThreatIdentityRange"
	put(t, 0, "0 - No range estimate available")
	put(t, 1, "1 - Less than 0.05")
	for n := int64(2); n <= 126; n++ {
		put(t, n, fmt.Sprintf("%d - %d.%d +/- 0.05 NM", n, (n-1)/10, (n-1)%10))
	}
	put(t, 127, "127 - Greater than 12.55")
	t = "bds/bds06/fields.MovementStatus"
	put(t, 0, "0 - no information available")
	put(t, 1, "1 - aircraft stopped (ground speed < 0.2315 km/h (0.125 kt))")
	for n := int64(2); n <= 123; n++ {
		put(t, n, fmt.Sprintf("%d - valid", n))
	}
	put(t, 124, "124 - ground speed ≥ 324.1 km/h (175 kt)")
	put(t, 125, "125 - reserved for A/C Decelerating")
	put(t, 126, "126 - reserved for A/C Accelerating")
	put(t, 127, "127 - reserved for Backing Up")
	t = "bds/bds10/fields.ModeSSubnetworkVersion"
	for n, s := range []string{"Mode S subnetwork not available", "Mode S subnetwork Version 1 - ICAO Doc 9688 (1996)",
		"Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)", "Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77",
		"Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1", "Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"} {
		put(t, int64(n), fmt.Sprintf("%d - %s", n, s))
	}
	for n := int64(6); n <= 127; n++ {
		put(t, n, fmt.Sprintf("%d - Unknown code", n))
	}
	return ref
}()

// types whose every value is printed by rule rather than from a list.
var labelRules = map[string]func(int64) string{
	"acas/ra/fields.ThreatIdentityAddress": func(n int64) string { return fmt.Sprintf("%02X %02X %02X", n>>16&255, n>>8&255, n&255) },
	"bds/bds10/fields.DTESubAddressStatuses": func(n int64) string {
		var s []string
		for i := 15; i >= 0; i-- {
			s = append(s, strconv.Itoa(int(n>>uint(i)&1)))
		}
		return strings.Join(s, ", ")
	},
	"bds/bds06/fields.EncodedLatitude":  func(n int64) string { return strconv.FormatInt(n, 10) },
	"bds/bds06/fields.EncodedLongitude": func(n int64) string { return strconv.FormatInt(n, 10) },
	"bds/bds05/fields.EncodedLatitude":  func(n int64) string { return strconv.FormatInt(n, 10) },
	"bds/bds05/fields.EncodedLongitude": func(n int64) string { return strconv.FormatInt(n, 10) },
}

// words splits a text into lower-case words; white space, colons and brackets separate.
func words(s string) []string {
	return strings.FieldsFunc(strings.ToLower(s), func(r rune) bool {
		return r == ' ' || r == '\n' || r == '\t' || r == ':' || r == '\r' || r == '[' || r == ']' || r == ','
	})
}

// sameWords compares two texts word by word; numbers are compared as numbers.
func sameWords(got, want []string) (int, bool) {
	for i := range want {
		if i >= len(got) {
			return i, false
		}
		if got[i] == want[i] {
			continue
		}
		a, e1 := strconv.ParseFloat(got[i], 64)
		b, e2 := strconv.ParseFloat(want[i], 64)
		if e1 != nil || e2 != nil || !(a == b || a-b < 1e-6*b && b-a < 1e-6*b || b < 0 && a-b < -1e-6*b && b-a < -1e-6*b) {
			return i, false
		}
	}
	if len(got) > len(want) {
		return len(want), false
	}
	return 0, true
}

// undefined says whether the reference leaves a code without a meaning.
func undefinedLabel(ref string) bool { return strings.HasSuffix(ref, "- Unknown code") }

type stringer interface{ ToString() string }

// checkLabel judges the text of one enumerated value. It returns the text.
func checkLabel(c *Ctx, where string, l Leaf) {
	k := l.RV.Kind()
	if k < reflect.Int || k > reflect.Uint64 || !l.RV.CanInterface() {
		return
	}
	x, ok := l.RV.Interface().(stringer)
	if !ok {
		return
	}
	t := strings.TrimPrefix(l.RV.Type().PkgPath(), modulePath) + "." + l.RV.Type().Name()
	n := l.Val.(int64)
	text := x.ToString()
	if f, ok := labelRules[t]; ok {
		if i, ok := sameWords(words(text), words(f(n))); !ok {
			c.Fail("%s: %s %d prints %q, want %q (word %d)", where, l.Path, n, text, f(n), i+1)
		}
		c.Obs("values of " + t)
		return
	}
	ref, ok := labelRef[t][n]
	if !ok {
		if len(labelRef[t]) > 0 {
			c.Obs("codes without reference")
		}
		return
	}
	c.Obs(fmt.Sprintf("%s %d", t, n))
	if undefinedLabel(ref) {
		w := words(text)
		low := strings.ToLower(text)
		if len(w) == 0 || w[0] != strconv.FormatInt(n, 10) || !(strings.Contains(low, "unknown") || strings.Contains(low, "reserved") || strings.Contains(low, "not assigned")) {
			c.Fail("%s: %s code %d has no defined meaning but prints %q", where, l.Path, n, text)
		}
		return
	}
	if i, ok := sameWords(words(text), words(ref)); !ok {
		c.Fail("%s: %s (%s) code %d prints %q, want %q (word %d)", where, l.Path, t, n, text, ref, i+1)
	}
}

// ---------------------------------------------------------------- rows of reports

var registerTitle = map[string]string{
	"BDS 0,0": "No message waiting for transmission", "BDS 0,5": "Extended squitter airborne position",
	"BDS 0,6": "Extended squitter surface position", "BDS 0,7": "Extended squitter status",
	"BDS 0,8": "Extended squitter aircraft identification and category", "BDS 0,9": "Extended squitter airborne velocity",
	"BDS 1,0": "Data link capability report", "BDS 1,7": "Common usage GICB capability report",
	"BDS 2,0": "Aircraft identification", "BDS 3,0": "ACAS active resolution advisory",
	"BDS 4,0": "Selected vertical intention", "BDS 4,4": "Meteorological routine air report",
	"BDS 4,5": "Meteorological hazard report", "BDS 5,0": "Track and turn report", "BDS 6,0": "Heading and speed report",
	"BDS 6,1": "Extended squitter emergency/priority status", "BDS 6,2": "Target state and status information",
	"BDS 6,5": "Extended squitter aircraft operational status",
}

var dfTitle = map[int64]string{0: "Short air-air surveillance (ACAS)", 4: "Surveillance, altitude reply", 5: "Surveillance, identify reply",
	11: "All-call reply", 16: "Long air-air surveillance (ACAS)", 17: "Extended squitter", 18: "Extended squitter/non transponder",
	19: "Military extended squitter", 20: "Comm-B altitude reply", 21: "Comm-B identify reply", 24: "Comm-D (ELM)"}

// reportRows lists, for each type, the rows its report adds to the report of what it embeds:
// "title | source". A source is the path of a decoded field, printed with its label when it is an
// enumeration and as a number, true/false or text otherwise; "#path" is always a number; "@rule" is a
// rule of rowRules; "=text" is a fixed text; no source is a heading.
var reportRows = map[string]string{
	"bds00.NoMessageAvailable": `Message | @register`,
	"bds05.AirbornePosition": `Message | @register
Format Type Code | FormatTypeCode
Surveillance Status | SurveillanceStatus
Single Antenna Flag | SingleAntennaFlag
Altitude Source | AltitudeSource
Altitude Report Method | AltitudeReportMethod
Altitude (feet) | AltitudeInFeet
Time | Time
Compact Position Reporting Format | CPRFormat
Encoded Latitude | #EncodedLatitude
Encoded Longitude | #EncodedLongitude`,
	"airborne_position.AirbornePositionType0": `Navigation Integrity Category | NavigationIntegrityCategory`,
	"airborne_position.AirbornePositionV0": `Horizontal Protection Limit | HorizontalProtectionLimit
Containment Radius | ContainmentRadius`,
	"airborne_position.AirbornePositionV1": `Navigation Integrity Code A | NavigationIntegrityCodeSupplementA
Horizontal Containment Radius | HorizontalContainmentRadius
Navigation Integrity Category | NavigationIntegrityCategory`,
	"airborne_position.AirbornePositionV2": `Navigation Integrity Code A | NavigationIntegrityCodeSupplementA
Navigation Integrity Code B | NavigationIntegrityCodeSupplementB
Horizontal Containment Radius | HorizontalContainmentRadius
Navigation Integrity Category | NavigationIntegrityCategory`,
	"bds06.SurfacePosition": `Message | @register
Format Type Code | FormatTypeCode
Movement Status | MovementStatus
Movement Speed (knots) | MovementSpeed
Ground Track Status | GroundTrackStatus
Ground Track (degrees) | GroundTrack
Time | Time
Compact Position Reporting Format | CPRFormat
Encoded Latitude | #EncodedLatitude
Encoded Longitude | #EncodedLongitude`,
	"surface_position.SurfacePositionV0": `Horizontal Protection Limit | HorizontalProtectionLimit
Containment Radius | ContainmentRadius`,
	"surface_position.SurfacePositionV1": `Navigation Integrity Code A | @optA
Horizontal Containment Limit | HorizontalContainmentRadius
Navigation Integrity Category | NavigationIntegrityCategory`,
	"surface_position.SurfacePositionV2": `Navigation Integrity Code A | @optA
Navigation Integrity Code C | @optC
Horizontal Containment Limit | HorizontalContainmentRadius
Navigation Integrity Category | NavigationIntegrityCategory`,
	"no_position_information.NoPositionInformation": `Message | =No Position Information
Format Type Code | FormatTypeCode
Altitude Baro (feet) | AltitudeBarometric
Navigation Integrity Category | NavigationIntegrityCategory`,
	"bds07.Status": `Message | @register
Transmission Rate Subfield | TransmissionRateSubfield
Altitude Type Subfield | AltitudeTypeSubfield`,
	"bds08.AircraftIdentificationAndCategory": `Message | @register
Format Type Code | FormatTypeCode
Category | Category
Identification | Identification`,
	"bds09.AirborneVelocityAirSpeedNormal":        rowsAirspeed,
	"bds09.AirborneVelocityAirSpeedSupersonic":    rowsAirspeed,
	"bds09.AirborneVelocityGroundSpeedNormal":     rowsGroundSpeed,
	"bds09.AirborneVelocityGroundSpeedSupersonic": rowsGroundSpeed,
	"bds10.DataLinkCapabilityReport": `Message | @register
Continuation Flag | ContinuationFlag
Overlay Command Capability | OverlayCommandCapability
ACAS Status | ACASStatus
ModeS Subnetwork Version | ModeSSubnetworkVersion
Transponder Enhanced Protocol Indicator | TransponderEnhancedProtocolIndicator
ModeS Specific Services Capability | ModeSSpecificServicesCapability
Uplink ELM Throughput Capability | UplinkELMThroughputCapability
Downlink ELM Throughput Capability | DownlinkELMThroughputCapability
Aircraft Identification Capability | AircraftIdentificationCapability
Squitter Capability Subfield | SquitterCapabilitySubfield
Surveillance Identifier Code | SurveillanceIdentifierCode
Common Usage GICB Capability | CommonUsageGICBCapability
ACAS Hybrid Surveillance Capability | ACASHybridSurveillanceCapability
ACAS Generation Capability | ACASGenerationCapability
ACAS Applicable Document | ACASApplicableDocument
DTE SubAddress Statuses | DTESubAddressStatuses`,
	"bds17.CommonUsageGICBCapabilityReport": `Message | @register
0,5 Extended squitter airborne position | ExtendedSquitterAirbornePosition
0,6 Extended squitter surface position | ExtendedSquitterSurfacePosition
0,7 Extended squitter status | ExtendedSquitterStatus
0,8 Extended squitter identification and category | ExtendedSquitterIdentificationAndCategory
0,9 Extended squitter airborne velocity information | ExtendedSquitterAirborneVelocityInformation
0,A Extended squitter event-driven information | ExtendedSquitterEventDrivenInformation
2,0 Aircraft identification | AircraftIdentification
2,l Aircraft registration number | AircraftRegistrationNumber
4,0 Selected vertical intention | SelectedVerticalIntention
4,l Next waypoint identifier | NextWaypointIdentifier
4,2 Next waypoint position | NextWaypointPosition
4,3 Next waypoint information | NextWaypointInformation
4,4 Meteorological routine report | MeteorologicalRoutineReport
4,5 Meteorological hazard report | MeteorologicalHazardReport
4.8 VHF channel report | VHFChannelReport
5,0 Track and turn report | TrackAndTurnReport
5,1 Position coarse | PositionCoarse
5,2 Position fine | PositionFine
5,3 Air-referenced state vector | AirReferencedStateVector
5,4 Waypoint 1 | Waypoint1
5,5 Waypoint 2 | Waypoint2
5,6 Waypoint 3 | Waypoint3
5,F Quasi-static parameter monitoring | QuasiStaticParameterMonitoring
6,0 Heading and speed report | HeadingAndSpeedReport
F,1 Military applications | MilitaryApplications`,
	"bds20.AircraftIdentification": `Message | @register
Identification | Identification`,
	"bds30.ACASResolutionAdvisory": `Message | @register
ACAS Data
 | @ra ResolutionAdvisory.`,
	"ra.ResolutionAdvisory": ` | @ra`,
	"bds40.SelectedVerticalIntention": `Message | @register
MCP/FCU Selected Altitude Available | MCPFCUSelectedAltitudeAvailable
MCP/FCU Selected Altitude | MCPFCUSelectedAltitude
FMS Selected Altitude Available | FMSSelectedAltitudeAvailable
FMS Selected Altitude | FMSSelectedAltitude
Barometric Pressure Setting Available | BarometricPressureSettingAvailable
Barometric Pressure Setting | BarometricPressureSetting
Status Of Mode Bits | StatusOfModeBits
VNAV Mode | VNAVMode
Altitude Hold Mode | AltitudeHoldMode
Approach Mode | ApproachMode
Status Of Target Altitude Source | StatusOfTargetAltitudeSource
Target Altitude Source | TargetAltitudeSource`,
	"bds44.MeteorologicalRoutineAirReportV0": `Message | @register
Source | Source
Wind Speed Status | WindSpeedStatus
Wind Speed (knot) | WindSpeed
Wind Direction Status | WindDirectionStatus
Wind Direction (degrees) | WindDirection
Static Air Temperature (degrees C) | StaticAirTemperature
Average Static Pressure Status | AverageStaticPressureStatus
Average Static Pressure (hPa) | AverageStaticPressure
Turbulence Status | TurbulenceStatus
Turbulence | Turbulence
Humidity Status | HumidityStatus
Humidity (%) | Humidity`,
	"bds44.MeteorologicalRoutineAirReportV1": `Message | @register
Wind Speed Status | WindSpeedStatus
Wind Speed (knot) | WindSpeed
Wind Direction Status | WindDirectionStatus
Wind Direction (degrees) | WindDirection
Static Air Temperature Status | StaticAirTemperatureStatus
Static Air Temperature (degrees C) | StaticAirTemperature
Average Static Pressure Status | AverageStaticPressureStatus
Average Static Pressure (hPa) | AverageStaticPressure
Turbulence Flag | TurbulenceFlag
Humidity Status | HumidityStatus
Humidity (%) | Humidity`,
	"bds44.MeteorologicalRoutineAirReportV2": `Message | @register
Source | Source
Wind Speed Status | WindSpeedStatus
Wind Speed (knot) | WindSpeed
Wind Direction Status | WindDirectionStatus
Wind Direction (degrees) | WindDirection
Static Air Temperature Status | StaticAirTemperatureStatus
Static Air Temperature (degrees C) | StaticAirTemperature
Average Static Pressure Status | AverageStaticPressureStatus
Average Static Pressure (hPa) | AverageStaticPressure
Turbulence Flag | TurbulenceFlag
Humidity Status | HumidityStatus
Humidity (%) | Humidity`,
	"bds45.MeteorologicalHazardReportV0": `Message | @register
Turbulence Status | TurbulenceStatus
Turbulence | Turbulence
Wind Shear Status | WindShearStatus
Wind Shear | WindShear
Micro Burst Status | MicroBurstStatus
Micro Burst | MicroBurst
Icing Status | IcingStatus
Icing | Icing
Wake Vortex Status | WakeVortexStatus
Wake Vortex | WakeVortex
Static Air Temperature Status | StaticAirTemperatureStatus
Static Air Temperature (degrees C) | StaticAirTemperature
Average Static Pressure Status | AverageStaticPressureStatus
Average Static Pressure (hPa) | AverageStaticPressure
Radio Height Status | RadioHeightStatus
Radio Height (feet) | RadioHeight`,
	"bds45.MeteorologicalHazardReportV1": `Message | @register
Wind Shear Status | WindShearStatus
Wind Shear | WindShear
Micro Burst Status | MicroBurstStatus
Micro Burst | MicroBurst
Icing Status | IcingStatus
Icing | Icing
Wake Vortex Status | WakeVortexStatus
Wake Vortex | WakeVortex
Static Air Temperature Status | StaticAirTemperatureStatus
Static Air Temperature (degrees C) | StaticAirTemperature
Average Static Pressure Status | AverageStaticPressureStatus
Average Static Pressure (hPa) | AverageStaticPressure
Radio Height Status | RadioHeightStatus
Radio Height (feet) | RadioHeight
Turbulence Status | TurbulenceStatus
Average Turbulence EDR Metric | TurbulenceAverageEDR
Peak Turbulence EDR Metric | TurbulencePeakEDR
Turbulence Peak Delay Interval (min) | TurbulencePeakDelayInterval`,
	"bds50.TrackAndTurnReport": `Message | @register
Roll Angle Status | RollAngleStatus
Roll Angle (degrees) | RollAngle
True Track Angle Status | TrueTrackAngleStatus
True Track (degrees) | TrueTrackAngle
Ground Speed Status | GroundSpeedStatus
Ground Speed (knots) | GroundSpeed
Track Angle Rate Status | TrackAngleRateStatus
Track Angle Rate (degrees/second) | TrackAngleRate
True Air Speed Status | TrueAirSpeedStatus
True Air Speed (knots) | TrueAirSpeed`,
	"bds60.HeadingAndTrackReport": `Message | @register
Magnetic Heading Status | MagneticHeadingStatus
Magnetic Heading (degrees) | MagneticHeading
Indicated Air Speed Status | IndicatedAirSpeedStatus
Indicated Air Speed (knots) | IndicatedAirSpeed
Mach Status | MachStatus
Mach | Mach
Barometric Altitude Rate Status | BarometricAltitudeRateStatus
Barometric Altitude Rate (feet/minute) | BarometricAltitudeRate
Inertial Vertical Velocity Status | InitialVerticalVelocityStatus
Inertial Vertical Velocity (feet/minute) | InitialVerticalVelocity`,
	"bds61.AircraftStatusACAS": `Message | @register
Subtype | Subtype
ACAS Data
 | @ra ResolutionAdvisory.`,
	"bds61.AircraftStatusEmergency": `Message | @register
Subtype | Subtype
Emergency State | EmergencyPriorityStatus`,
	"bds61.AircraftStatusNoInformation": `Message | @register
Subtype | Subtype
Emergency State | EmergencyPriorityStatus`,
	"bds62.TargetStateAndStatus0": `Message | @register
Subtype | Subtype
Vertical Data Available / Source Indicator | VerticalDataAvailableSourceIndicator
Target Altitude Type | TargetAltitudeType
Target Altitude Capability | TargetAltitudeCapability
Vertical Mode Indicator | VerticalModeIndicator
Target Altitude Status | TargetAltitudeStatus
Target Altitude | TargetAltitude
Horizontal Data Available / Source Indicator | HorizontalDataAvailableSourceIndicator
Target Heading / Track Angle Status | TargetHeadingTrackAngleStatus
Target Heading / Track Angle | TargetHeadingTrackAngle
Target Heading / Track Indicator | TargetHeadingTrackIndicator
Horizontal Mode Indicator | HorizontalModeIndicator
Navigation Accuracy Category - Position | NavigationalAccuracyCategoryPosition
Navigation Integrity Category - Baro | NICBaro
Surveillance Integrity Level | SurveillanceIntegrityLevel
Capability / Mode Codes | CapabilityModeCode
Emergency / Priority Status | EmergencyPriorityStatus`,
	"bds62.TargetStateAndStatus1": `Message | @register
Subtype | Subtype
Selected Altitude Type | SelectedAltitudeType
Selected Altitude Status | SelectedAltitudeStatus
Selected Altitude | SelectedAltitude
Barometric Pressure Setting Status | BarometricPressureSettingStatus
Barometric Pressure Setting | BarometricPressureSetting
Selected Heading Status | SelectedHeadingStatus
Selected Heading | SelectedHeading
Navigation Accuracy Category - Position | NavigationalAccuracyCategoryPosition
Navigation Integrity Category - Baro | NICBaro
Source Integrity Level | SourceIntegrityLevel
Source Integrity Level Supplement | SourceIntegrityLevelSupplement
Status of MCP/FCU Mode Bits | StatusMCPFCUBits
Autopilot Engaged | AutopilotEngaged
VNAV Mode Engaged | VNAVModeEngaged
Altitude Hold Mode Engaged | AltitudeHoldModeEngaged
Approach Mode Engaged | ApproachModeEngaged
LNAV Mode Engaged | LNAVModeEngaged
TCAS / ACAS Operational | TCASACASOperational`,
	"bds65.AircraftOperationalStatusADSB0": `Message | @register
En Route Operational Capabilities | EnRouteOperationalCapabilities
En Route Operational Capability Status | EnRouteOperationalCapabilityStatus
Terminal Area Operational Capabilities | TerminalAreaOperationalCapabilities
Terminal Area Operational Capability Status | TerminalAreaOperationalCapabilityStatus
Approach/Landing Operational Capabilities | ApproachLandingOperationalCapabilities
Approach/Landing Operational Capability Status | ApproachLandingOperationalCapabilityStatus
Surface Operational Capabilities | SurfaceOperationalCapabilities
Surface Operational Capability Status | SurfaceOperationalCapabilityStatus`,
	"bds65.AircraftOperationalStatusAirborneADSB1": `Message | @register
Subtype | Subtype
Airborne Capability Class
Not ACAS Status | AirborneCapabilityClass.NotACASStatus
Cockpit Display Of Traffic Information Status | AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus
Air Referenced Velocity Report Capability | AirborneCapabilityClass.AirReferencedVelocityReportCapability
Target State Report Capability | AirborneCapabilityClass.TargetStateReportCapability
Target Change Report Capability | AirborneCapabilityClass.TargetChangeReportCapability
Operational Mode
ACAS Resolution Advisory Active | OperationalMode.ACASResolutionAdvisoryActive
Ident Switch Active | OperationalMode.IdentSwitchActive
Receiving ATC Services | OperationalMode.ReceivingATCServices
ADSB Version Number | VersionNumber
NIC Supplement | NICSupplement
Navigational Accuracy Category Position | NavigationalAccuracyCategoryPosition
Surveillance Integrity Level | SurveillanceIntegrityLevel
NIC Baro | NICBaro
Horizontal Reference Direction | HorizontalReferenceDirection`,
	"bds65.AircraftOperationalStatusAirborneADSB2": `Message | @register
Subtype | Subtype
Airborne Capability Class
ACAS Operational | AirborneCapabilityClass.ACASOperational
1090ES IN (1090 MHz Extended Squitter) | AirborneCapabilityClass.ExtendedSquitterIn
ARV (Air-Referenced Velocity Report Capability) | AirborneCapabilityClass.AirReferencedVelocityReportCapability
Target State Report Capability | AirborneCapabilityClass.TargetStateReportCapability
Target Change Report Capability | AirborneCapabilityClass.TargetChangeReportCapability
UAT IN (Universal Access Transceiver) | AirborneCapabilityClass.UniversalAccessTransceiverCapability
Operational Mode
ACAS Resolution Advisory Active | OperationalMode.ACASResolutionAdvisoryActive
Ident Switch Active | OperationalMode.IdentSwitchActive
Single Antenna Flag | OperationalMode.SingleAntennaFlag
System Design Assurance | OperationalMode.SystemDesignAssurance
ADSB Version Number | VersionNumber
NIC Supplement | NICSupplementA
Navigational Accuracy Category Position | NavigationalAccuracyCategoryPosition
Geometric Vertical Accuracy | GeometricVerticalAccuracy
Source Integrity Level | SourceIntegrityLevel
Source Integrity Level Supplement | SourceIntegrityLevelSupplement
NIC Baro | NICBaro
Horizontal Reference Direction | HorizontalReferenceDirection`,
	"bds65.AircraftOperationalStatusSurfaceADSB1": `Message | @register
Subtype | Subtype
Surface Capability Class
Position Offset Applied | SurfaceCapabilityClass.PositionOffsetApplied
Cockpit Display Of Traffic Information Status | SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus
B2Low | SurfaceCapabilityClass.B2Low
Aircraft Length And Width | LengthAndWidth
Operational Mode
ACAS Resolution Advisory Active | OperationalMode.ACASResolutionAdvisoryActive
Ident Switch Active | OperationalMode.IdentSwitchActive
Receiving ATC Services | OperationalMode.ReceivingATCServices
ADSB Version Number | VersionNumber
NIC Supplement | NICSupplement
Navigational Accuracy Category Position | NavigationalAccuracyCategoryPosition
Surveillance Integrity Level | SurveillanceIntegrityLevel
Track Angle / Heading | TrackAngleHeading
Horizontal Reference Direction | HorizontalReferenceDirection`,
	"bds65.AircraftOperationalStatusSurfaceADSB2": `Message | @register
Subtype | Subtype
Surface Capability Class
1090ES IN (1090 MHz Extended Squitter) | SurfaceCapabilityClass.ExtendedSquitterIn
B2 Low (Class B2 Transmit Power Less Than 70 Watts) | SurfaceCapabilityClass.B2Low
UAT IN (Universal Access Transceiver) | SurfaceCapabilityClass.UniversalAccessTransceiverCapability
NACV (Navigation Accuracy Category for Velocity) | SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity
NIC Supplement-C (NIC Supplement for use on the Surface) | SurfaceCapabilityClass.NICSupplementC
Aircraft Length And Width | LengthAndWidth
Operational Mode
ACAS Resolution Advisory Active | OperationalMode.ACASResolutionAdvisoryActive
Ident Switch Active | OperationalMode.IdentSwitchActive
Single Antenna Flag | OperationalMode.SingleAntennaFlag
System Design Assurance | OperationalMode.SystemDesignAssurance
GPS Antenna
Lateral Axis GPS Antenna | OperationalMode.GPSAntenna.GPSAntennaLateral
Longitudinal Axis GPS Antenna | OperationalMode.GPSAntenna.GPSAntennaLongitudinal
ADSB Version Number | VersionNumber
NIC Supplement | NICSupplementA
Navigational Accuracy Category Position | NavigationalAccuracyCategoryPosition
Source Integrity Level | SourceIntegrityLevel
Source Integrity Level Supplement | SourceIntegrityLevelSupplement
Track Angle / Heading | TrackAngleHeading
Horizontal Reference Direction | HorizontalReferenceDirection`,
	"messages.MessageDF0": `Downlink format | @df
VerticalStatus | VerticalStatus
CrossLinkCapability | CrossLinkCapability
SensitivityLevel | SensitivityLevel
ReplyInformation | ReplyInformation
AltitudeReportMethod | AltitudeReportMethod
Altitude | Altitude`,
	"messages.MessageDF4": rowsSurveillance + `
AltitudeReportMethod | AltitudeReportMethod
Altitude | Altitude`,
	"messages.MessageDF5": rowsSurveillance + `
Identity | @identity`,
	"messages.MessageDF11": `Downlink format | @df
Capability | Capability
AddressAnnounced | @address`,
	"messages.MessageDF16": `Downlink format | @df
VerticalStatus | VerticalStatus
SensitivityLevel | SensitivityLevel
ReplyInformation | ReplyInformation
AltitudeReportMethod | AltitudeReportMethod
Altitude | Altitude
Message ACAS | @bytes MessageACAS`,
	"messages.MessageDF17": `Downlink format | @df
Capability | Capability
AddressAnnounced | @address
MessageExtendedSquitter | @bytes MessageExtendedSquitter`,
	"messages.MessageDF18": `Downlink format | @df
ControlField | ControlField
AddressAnnounced | @address
MessageExtendedSquitter | @bytes MessageExtendedSquitter`,
	"messages.MessageDF19": `Downlink format | @df
ApplicationField | ApplicationField`,
	"messages.MessageDF20": rowsSurveillance + `
AltitudeReportMethod | AltitudeReportMethod
Altitude | Altitude
MessageCommB | @bytes MessageCommB`,
	"messages.MessageDF21": rowsSurveillance + `
Identity | @identity
MessageCommB | @bytes MessageCommB`,
	"messages.MessageDF24": `Downlink format | @df
ControlELM | ControlELM
NumberOfDSegment | #NumberOfDSegment
MessageCommD | @bytes MessageCommD`,
}

const rowsSurveillance = `Downlink format | @df
FlightStatus | FlightStatus
DownlinkRequest | DownlinkRequest
UtilityMessage
InterrogatorIdentifier | #UtilityMessage.InterrogatorIdentifier
Reservation | UtilityMessage.IdentifierDesignator`

const rowsAirspeed = `Message | @register
Subtype | Subtype
Intent Change | IntentChange
IFR Capability | IFRCapability
Navigation Uncertainty Category | NavigationUncertaintyCategory
Magnetic Heading Status | MagneticHeadingStatus
Magnetic Heading (degrees) | MagneticHeading
Air Speed Status | AirspeedStatus
Air Speed (knots) | Airspeed
Vertical Rate Source | VerticalRateSource
Vertical Rate Status | VerticalRateStatus
Vertical Rate (ft/min) | VerticalRate
Geom. Height Diff. From Baro Status | HeightDifferenceFromBaroStatus
Geom. Height Diff. From Baro (ft) | HeightDifferenceFromBaro`

const rowsGroundSpeed = `Message | @register
Subtype | Subtype
Intent Change | IntentChange
IFR Capability | IFRCapability
Navigation Uncertainty Category | NavigationUncertaintyCategory
Direction EW | DirectionEastWest
Velocity EW Status | VelocityEWStatus
Velocity EW (knots) | VelocityEW
Direction NS | DirectionNorthSouth
Velocity NS Status | VelocityNSStatus
Velocity NS (knots) | VelocityNS
Vertical Rate Source | VerticalRateSource
Vertical Rate Status | VerticalRateStatus
Vertical Rate (ft/min) | VerticalRate
Difference Alt. GNSS Baro Status | DifferenceAltitudeGNSSBaroStatus
Difference Alt. GNSS Baro (ft) | DifferenceAltitudeGNSSBaro
Computed Speed | @speed (knots)
Computed Track | @track (degrees)`

// report is what is known about a message whose report is judged.
type report struct {
	m    interface{}
	leaf map[string]Leaf
	a, c bool
	ok   bool   // every source was found
	why  string // the first that was not
}

func (r *report) miss(p string) string {
	if r.ok {
		r.ok, r.why = false, p
	}
	return ""
}

// show renders a field.
func (r *report) show(p string) string {
	raw := strings.HasPrefix(p, "#")
	p = strings.TrimPrefix(p, "#")
	l, ok := r.leaf[p]
	if !ok {
		return r.miss(p)
	}
	if !raw && l.RV.CanInterface() {
		if x, ok := l.RV.Interface().(stringer); ok && l.RV.Kind() != reflect.Ptr {
			return x.ToString()
		}
	}
	if f, ok := l.Val.(float64); ok && l.RV.Kind() == reflect.Float32 {
		return fmt.Sprint(float32(f))
	}
	return fmt.Sprint(l.Val)
}

func (r *report) num(p string) int64 {
	l, ok := r.leaf[p]
	if !ok {
		r.miss(p)
		return 0
	}
	n, _ := l.Val.(int64)
	return n
}

func (r *report) computed(method, unit string) string {
	x, ok := inner(r.m, func(v interface{}) bool { return reflect.ValueOf(v).MethodByName(method).IsValid() })
	if !ok {
		return r.miss(method)
	}
	out := reflect.ValueOf(x).MethodByName(method).Call(nil)
	if !out[1].IsNil() {
		return fmt.Sprintf("not computable: %v", out[1].Interface())
	}
	return fmt.Sprintf("%v %s", out[0].Interface(), unit)
}

func (r *report) ra(p string) string {
	var s []string
	row := func(title, path string) { s = append(s, title, r.show(p+path)) }
	s = append(s, "Active Resolution Advisory Type")
	if _, ok := r.leaf[p+"ActiveRA.PreventiveCorrective"]; ok {
		s = append(s, "One threat or multiple threats with separation in same direction")
		row("Preventive/Corrective", "ActiveRA.PreventiveCorrective")
		row("Sense generated", "ActiveRA.Sense")
		row("Is increased rate", "ActiveRA.IsIncreasedRate")
		row("Is sense reversal", "ActiveRA.IsSenseReversal")
		row("Is altitude crossing", "ActiveRA.IsAltitudeCrossing")
		row("Vertical Speed Limit/Positive", "ActiveRA.VerticalSpeedLimitOrPositive")
	} else if _, ok := r.leaf[p+"ActiveRA.RequiresCorrectionUpwardSense"]; ok {
		s = append(s, "Multiple threats with separation in different directions")
		row("Require a correction in the upward sense", "ActiveRA.RequiresCorrectionUpwardSense")
		row("Requires a positive climb", "ActiveRA.RequiresPositiveClimb")
		row("Requires a correction in the downward sense", "ActiveRA.RequiresCorrectionDownwardSense")
		row("Requires a positive descend", "ActiveRA.RequiresPositiveDescend")
		row("Requires a crossing", "ActiveRA.RequiresCrossing")
		row("Is a sense reversal", "ActiveRA.IsSenseReversal")
	} else {
		s = append(s, "no Resolution Advisory has been generated")
	}
	s = append(s, "Active Resolution Advisory Complement")
	row("Do not pass below", "RAComplement.DoNotPassBelow")
	row("Do not pass above", "RAComplement.DoNotPassAbove")
	row("Do not turn left", "RAComplement.DoNotTurnLeft")
	row("Do not turn right", "RAComplement.DoNotTurnRight")
	row("Active Resolution Advisory Terminated Indicator", "RATerminatedIndicator")
	row("Multiple Threat Encounter", "MultipleThreatEncounter")
	row("Threat Type Indicator", "ThreatTypeIndicator")
	switch r.num(p + "ThreatTypeIndicator") {
	case 1:
		row("Threat Mode-S Identity", "ThreatIdentityAddress")
	case 2:
		s = append(s, "Threat Altitude", r.show("#"+p+"ThreatIdentityAltitude.AltitudeInFeet")+" ft / Status: "+r.show(p+"ThreatIdentityAltitude.AltitudeStatus"))
		row("Threat Range", "ThreatIdentityRange")
		row("Threat Bearing", "ThreatIdentityBearing")
	}
	return strings.Join(s, "\n")
}

func (r *report) rule(s string) string {
	f := strings.SplitN(s, " ", 2)
	arg := ""
	if len(f) > 1 {
		arg = f[1]
	}
	switch f[0] {
	case "register":
		id := registerID(r.m)
		if registerTitle[id] == "" {
			return r.miss("register " + id)
		}
		return id + " - " + registerTitle[id]
	case "df":
		n := int64(-1)
		if x, ok := inner(r.m, func(v interface{}) bool { _, ok := v.(interface{ GetDownLinkFormat() int }); return ok }); ok {
			n = int64(x.(interface{ GetDownLinkFormat() int }).GetDownLinkFormat())
		}
		return fmt.Sprintf("%d - %s", n, dfTitle[n])
	case "address":
		return labelRules["acas/ra/fields.ThreatIdentityAddress"](r.num("AddressAnnounced.Address"))
	case "identity":
		id := r.show("Identity.Identity")
		return id + map[string]string{"7700": " [Emergency]", "7600": " [Radiocommunication Failure]",
			"7500": " [Unlawful Interference]", "2000": " [Instruction Not Received]"}[id]
	case "optA":
		return fmt.Sprint(r.a)
	case "optC":
		return fmt.Sprint(r.c)
	case "bytes":
		l, ok := r.leaf[arg]
		if !ok {
			return r.miss(arg)
		}
		b, _ := hex.DecodeString(l.Val.(string))
		if arg == "MessageACAS" {
			return strings.Trim(fmt.Sprint(b), "[]") // printed in decimal
		}
		return fmt.Sprintf("% X", b)
	case "speed":
		return r.computed("GetSpeed", arg)
	case "track":
		return r.computed("GetTrack", arg)
	case "ra":
		return r.ra(arg)
	}
	die("unknown rule %q", s)
	return ""
}

// checkReport judges the report of a decoded message.
func checkReport(c *Ctx, where string, m interface{}, a, cc bool) {
	x, ok := m.(stringer)
	if !ok {
		return
	}
	r := &report{m: m, leaf: map[string]Leaf{}, a: a, c: cc, ok: true}
	for _, l := range Flatten(m) {
		r.leaf[l.Path] = l
		checkLabel(c, where, l)
	}
	var titles, values []string
	chain := typeChain(m)
	var known []string
	for i := len(chain) - 1; i >= 0; i-- {
		t, ok := reportRows[chain[i]]
		if !ok {
			continue
		}
		known = append(known, chain[i])
		for _, l := range strings.Split(t, "\n") {
			p := strings.SplitN(l, " | ", 2)
			v := ""
			if len(p) == 2 {
				switch {
				case strings.HasPrefix(p[1], "="):
					v = p[1][1:]
				case strings.HasPrefix(p[1], "@"):
					v = r.rule(p[1][1:])
				default:
					v = r.show(p[1])
				}
			}
			titles = append(titles, p[0])
			values = append(values, v)
		}
	}
	if len(known) == 0 {
		c.Obs("types without reference report")
		return
	}
	if !r.ok {
		c.Obs("reports not judged (no field " + r.why + ")")
		return
	}
	text := x.ToString()
	c.NonTrivial()
	for _, t := range known {
		c.Obs("report of " + t)
	}
	if strings.Contains(text, "%!") || strings.Contains(text, "<nil>") {
		c.Fail("%s: the report has a formatting artefact: %q", where, text)
		return
	}
	var want []string
	var at []int
	for i := range titles {
		w := append(words(titles[i]), words(values[i])...)
		want = append(want, w...)
		for range w {
			at = append(at, i)
		}
	}
	got := words(text)
	if i, ok := sameWords(got, want); !ok {
		k := len(titles) - 1
		if i < len(at) {
			k = at[i]
		}
		g := got[min(len(got), max(0, i-3)):min(len(got), i+8)]
		c.Fail("%s: the report of %s, row %q should say %q; it reads \"… %s\"; whole report:\n%s", where, chain[0], titles[k], values[k], strings.Join(g, " "), text)
	}
}

// registers are the package's reference entries by number.
var registers = map[string]bdsreg.Register{
	"BDS 0,0": bdsreg.BDS00, "BDS 0,5": bdsreg.BDS05, "BDS 0,6": bdsreg.BDS06, "BDS 0,7": bdsreg.BDS07, "BDS 0,8": bdsreg.BDS08,
	"BDS 0,9": bdsreg.BDS09, "BDS 1,0": bdsreg.BDS10, "BDS 1,7": bdsreg.BDS17, "BDS 2,0": bdsreg.BDS20, "BDS 3,0": bdsreg.BDS30,
	"BDS 4,0": bdsreg.BDS40, "BDS 4,4": bdsreg.BDS44, "BDS 4,5": bdsreg.BDS45, "BDS 5,0": bdsreg.BDS50, "BDS 6,0": bdsreg.BDS60,
	"BDS 6,1": bdsreg.BDS61, "BDS 6,2": bdsreg.BDS62, "BDS 6,5": bdsreg.BDS65,
}

// checkNames judges the texts that belong to no message: register names and ADS-B versions.
func checkNames(c *Ctx, cs *Case) {
	same := func(what, got, want string) {
		if i, ok := sameWords(words(got), words(want)); !ok {
			c.Fail("%s should read %q; it reads %q (word %d)", what, want, got, i+1)
		}
	}
	if cs.K == "version" {
		n := int(cs.A[0])
		got := adsb.ADSBVersion(n).ToString()
		c.NonTrivial()
		if n <= 2 {
			c.Obs(fmt.Sprintf("ADS-B version %d", n))
			same(fmt.Sprintf("ADS-B version %d", n), got, fmt.Sprintf("ADSB V%d", n))
			return
		}
		c.Obs("unknown ADS-B version")
		for k := 0; k <= 2; k++ {
			if x := words(got); len(x) > 0 && x[len(x)-1] == fmt.Sprintf("v%d", k) {
				c.Fail("ADS-B version %d, which does not exist, reads %q", n, got)
			}
		}
		return
	}
	id := cs.S[0]
	g := registers[id]
	c.NonTrivial()
	c.Obs("name of " + id)
	same("the number of register "+id, g.GetId(), id)
	same("the description of register "+id, g.GetDescription(), registerTitle[id])
	same("the text of register "+id, g.ToString(), id+" - "+registerTitle[id])
}

func checkPrint(c *Ctx, cs *Case) {
	if cs.K == "version" || cs.K == "name" {
		checkNames(c, cs)
		return
	}
	v, a, cc := adsbArgs(cs)
	rawNames()
	rd := rawByName[cs.S[0]]
	if rd == nil {
		die("no reader %q", cs.S[0])
	}
	out := rd.call(v, a, cc, clone(cs.D))
	if !out[1].IsNil() {
		c.Obs("refused")
		return
	}
	where := fmt.Sprintf("%s(version %d, A %v, C %v, %x)", rd.name, v, a, cc, cs.D)
	if out[0].Kind() == reflect.Slice {
		for i := 0; i < out[0].Len(); i++ {
			checkReport(c, where, out[0].Index(i).Interface(), a, cc)
		}
		return
	}
	if IsNilResult(out[0].Interface()) {
		return
	}
	checkReport(c, where, out[0].Interface(), a, cc)
}

func init() {
	p := &Prop{
		ID:     "C26",
		Rounds: 8,
		Rule:   "One case is one input of one reader, or one register or ADS-B version. Non-trivial: it decoded and the whole report was compared word for word with the decoded fields, and every enumerated field's text with the reference text of its code; or the name of the register or version was compared.",
		Check:  checkPrint,
		Assume: []string{"Reports are compared without regard to letter case, white space, line breaks, colons and commas; numbers are compared as numbers.", "Codes to which the standard gives no meaning may print any text that says unknown, reserved or not assigned.", "Length and width code 0 of a version 2 surface status is judged with the version 1 meaning, because both versions share one type."},
	}
	p.Blocks = func(thorough bool) []Block {
		names := rawNames()
		scale := 1
		if thorough {
			scale = 40
		}
		var ids []string
		for id := range registers {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		out := []Block{{"register names and ADS-B versions", 256, func(r *Rand, i int, emit func(Case)) {
			emit(Case{K: "version", A: []int64{int64(i)}})
			if i < len(ids) {
				emit(Case{K: "name", S: []string{ids[i]}})
			}
		}}}
		for _, name := range names {
			rd := rawByName[name]
			if rd.regs == nil {
				continue
			}
			for gi, g := range rd.regs {
				g := g
				sp := g.spans()
				// each code of each field
				out = append(out, Block{fmt.Sprintf("codes %s #%d", name, gi), len(sp) * scale, func(r *Rand, i int, emit func(Case)) {
					x := sp[i%len(sp)]
					w := x.z - x.a + 1
					for _, v := range codesOf(w, 128) {
						b := background(r, g.length(), []int{2, 0, 1, 3}[r.N(4)])
						g.normalise(r, b)
						b.Set(x.a, x.z, v)
						if r.N(3) > 0 {
							g.ident(b)
						}
						emit(Case{K: "codes", D: b, A: []int64{int64(r.N(3)), int64(r.N(2)), int64(r.N(2))}, S: []string{name}})
					}
				}})
				out = append(out, Block{fmt.Sprintf("random %s #%d", name, gi), 12 * scale, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 40; k++ {
						b := background(r, g.length(), 2)
						g.normalise(r, b)
						if p := plausOf(g); p != nil && k%2 == 0 {
							p.shape(r, b)
							g.normalise(r, b)
						}
						emit(Case{K: "random", D: b, A: []int64{int64(r.N(3)), int64(r.N(2)), int64(r.N(2))}, S: []string{name}})
					}
				}})
			}
		}
		return out
	}
	p.NeedFn = func() []string {
		need := []string{"ADS-B version 0", "ADS-B version 1", "ADS-B version 2", "unknown ADS-B version"}
		for id := range registers {
			need = append(need, "name of "+id)
		}
		for t := range reportRows {
			need = append(need, "report of "+t)
		}
		for t, m := range labelRef {
			for n := range m {
				need = append(need, fmt.Sprintf("%s %d", t, n))
			}
		}
		for t := range labelRules {
			if t != "bds/bds05/fields.EncodedLatitude" && t != "bds/bds05/fields.EncodedLongitude" {
				need = append(need, "values of "+t)
			}
		}
		sort.Strings(need)
		return need
	}
	register(p)
}
