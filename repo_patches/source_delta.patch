From d62f25522a1103330af1ea555b8aeaa5f24df602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 01/47] fix: read the two high bits of a resolution advisory's
 threat altitude at their place

---
 pkg/acas/ra/fields/threat_identity_altitude.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_altitude.go b/pkg/acas/ra/fields/threat_identity_altitude.go
index 3cc0894..c256838 100644
--- a/pkg/acas/ra/fields/threat_identity_altitude.go
+++ b/pkg/acas/ra/fields/threat_identity_altitude.go
@@ -37,7 +37,7 @@ func ReadThreatIdentityAltitude(data []byte) (ThreatIdentityAltitude, error) {
 	// Then C2 A2 C4 A4
 	altitudeCode += uint16(data[3]&0xF0) << 2
 	// Then C1 A1
-	altitudeCode += uint16(data[2]&0x03) << 2
+	altitudeCode += uint16(data[2]&0x03) << 10
 
 	// Detect invalid altitude
 	if altitudeCode == 0 {
-- 
2.43.0


From 2fde9f9d16eb575b253e8a405459cd75aa2c1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 02/47] fix: do not read the first bearing bit as part of the
 threat range

---
 pkg/acas/ra/fields/threat_identity_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index 762e95a..d566ad5 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -39,6 +39,6 @@ func (threatRange ThreatIdentityRange) GetRange() float64 {
 // ReadThreatIdentityRange reads the ThreatIdentityRange
 func ReadThreatIdentityRange(data []byte) ThreatIdentityRange {
 
-	bits := (data[4]&0x1F)<<2 + (data[5]&0xA0)>>6
+	bits := (data[4]&0x1F)<<2 + (data[5]&0xC0)>>6
 	return ThreatIdentityRange(bits)
 }
-- 
2.43.0


From d6c9442705252f9a599fb939c142c476a5885114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 03/47] fix: BDS 0,7 reserved bits are 4 to 8

---
 pkg/bds/bds07/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/status.go b/pkg/bds/bds07/status.go
index fbb4980..b1f4a8c 100644
--- a/pkg/bds/bds07/status.go
+++ b/pkg/bds/bds07/status.go
@@ -49,7 +49,7 @@ func ReadStatus(data []byte) (*Status, error) {
 	}
 
 	// Bits 4 to 8 are reserved and must be 0
-	if data[0]&0x1C != 0 {
+	if data[0]&0x1F != 0 {
 		return nil, errors.New("the bits 4 to 8 are reserved and must be 0")
 	}
 
-- 
2.43.0


From 5e378cea22ac27fcc03d056c9950b2973075caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 04/47] fix: BDS 1,0 surveillance identifier code is bit 35

---
 pkg/bds/bds10/fields/surveillance_identifier_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds10/fields/surveillance_identifier_code.go b/pkg/bds/bds10/fields/surveillance_identifier_code.go
index 07634b5..b49d268 100644
--- a/pkg/bds/bds10/fields/surveillance_identifier_code.go
+++ b/pkg/bds/bds10/fields/surveillance_identifier_code.go
@@ -29,6 +29,6 @@ func (sic SurveillanceIdentifierCode) ToString() string {
 
 // ReadSurveillanceIdentifierCode reads the SurveillanceIdentifierCode from a 56 bits data field
 func ReadSurveillanceIdentifierCode(data []byte) SurveillanceIdentifierCode {
-	bits := (data[2] & 0x40) >> 5
+	bits := (data[4] & 0x20) >> 5
 	return SurveillanceIdentifierCode(bits)
 }
-- 
2.43.0


From 038e11b34eef175972996bfe9b36ecc5d0c43735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 05/47] fix: BDS 4,0 MCP/FCU and FMS selected altitudes were
 read from each other's bits

---
 pkg/bds/bds40/fields/fms_selected_altitude.go | 9 +++++----
 pkg/bds/bds40/fields/mcp_selected_altitude.go | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/bds/bds40/fields/fms_selected_altitude.go b/pkg/bds/bds40/fields/fms_selected_altitude.go
index 4c1ac8f..a4eeab4 100644
--- a/pkg/bds/bds40/fields/fms_selected_altitude.go
+++ b/pkg/bds/bds40/fields/fms_selected_altitude.go
@@ -5,10 +5,11 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadFMSSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[1] & 0x04) != 0
 
-	byte1 := data[0] & 0x7F
-	byte2 := data[1] & 0xF8
-	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
-	fmsAltitude := uint32(allBits) * 16
+	byte1 := data[1] & 0x03
+	byte2 := data[2]
+	byte3 := data[3] & 0xC0
+	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
+	fmsAltitude := allBits * 16
 
 	return status, fmsAltitude
 }
diff --git a/pkg/bds/bds40/fields/mcp_selected_altitude.go b/pkg/bds/bds40/fields/mcp_selected_altitude.go
index 83f3c4c..39c7c79 100644
--- a/pkg/bds/bds40/fields/mcp_selected_altitude.go
+++ b/pkg/bds/bds40/fields/mcp_selected_altitude.go
@@ -5,11 +5,10 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadMCPSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[0] & 0x80) != 0
 
-	byte1 := data[1] & 0x03
-	byte2 := data[2]
-	byte3 := data[3] & 0xC0
-	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
-	altitude := allBits * 16
+	byte1 := data[0] & 0x7F
+	byte2 := data[1] & 0xF8
+	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
+	altitude := uint32(allBits) * 16
 
 	return status, altitude
 }
-- 
2.43.0


From 69173eb1732d4cd6ccecc61574c99935dbafce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 06/47] fix: BDS 4,0 barometric pressure status is bit 27

---
 pkg/bds/bds40/fields/barometric_pressure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds40/fields/barometric_pressure.go b/pkg/bds/bds40/fields/barometric_pressure.go
index 971d522..8d0349f 100644
--- a/pkg/bds/bds40/fields/barometric_pressure.go
+++ b/pkg/bds/bds40/fields/barometric_pressure.go
@@ -3,7 +3,7 @@ package fields
 import "github.com/twuillemin/modes/pkg/bitutils"
 
 func ReadBarometricPressure(data []byte) (bool, float32) {
-	status := (data[0] & 0x80) != 0
+	status := (data[3] & 0x20) != 0
 
 	byte1 := data[3] & 0x1F
 	byte2 := data[4] & 0xFE
-- 
2.43.0


From e2f656afe74a3d6d4cafa1e2b9941bf801099e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 07/47] fix: a BDS 4,0 without barometric setting is coherent

---
 pkg/bds/bds40/selected_vertical_intention.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds40/selected_vertical_intention.go b/pkg/bds/bds40/selected_vertical_intention.go
index 7e2e593..d0aa407 100644
--- a/pkg/bds/bds40/selected_vertical_intention.go
+++ b/pkg/bds/bds40/selected_vertical_intention.go
@@ -80,7 +80,7 @@ func (message SelectedVerticalIntention) CheckCoherency() error {
 	}
 
 	// If no data available, it is probably not coherent
-	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 0 {
+	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 800 {
 		return errors.New("the BarometricPressureSetting status is set to false, but a BarometricPressureSetting value is given")
 	}
 
-- 
2.43.0


From fc790b460cea8a4781e951abca6c6633e0e53333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 08/47] fix: BDS 4,4 wind speed has nine bits

---
 pkg/bds/bds44/fields/wind_speed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/wind_speed.go b/pkg/bds/bds44/fields/wind_speed.go
index d296fa0..3e3b4ef 100644
--- a/pkg/bds/bds44/fields/wind_speed.go
+++ b/pkg/bds/bds44/fields/wind_speed.go
@@ -5,7 +5,7 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadWindSpeed(data []byte) (bool, uint32) {
 	status := (data[0] & 0x08) != 0
 
-	byte1 := data[0] & 0x03
+	byte1 := data[0] & 0x07
 	byte2 := data[1] & 0xFC
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 2
 	speed := uint32(allBits)
-- 
2.43.0


From d373e2ccfd59415301100da81658da66174ef015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 09/47] fix: BDS 4,4 V0 temperature sign is bit 24

---
 pkg/bds/bds44/fields/static_air_temperature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds44/fields/static_air_temperature.go b/pkg/bds/bds44/fields/static_air_temperature.go
index 7a6f5e8..d856061 100644
--- a/pkg/bds/bds44/fields/static_air_temperature.go
+++ b/pkg/bds/bds44/fields/static_air_temperature.go
@@ -10,8 +10,8 @@ func ReadStaticAirTemperatureV0(data []byte) float32 {
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 6
 	temperature := float32(allBits) * 0.25
 
-	if (data[3] & 0x01) != 0 {
-		temperature = temperature - 128
+	if (data[2] & 0x01) != 0 {
+		temperature = temperature - 256
 	}
 
 	return temperature
-- 
2.43.0


From 017b53f9e106742d0e6971d65242d06cacad74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 10/47] fix: BDS 4,4 V0 with a turbulence that is not available
 is not coherent

---
 pkg/bds/bds44/meteorological_routine_air_report_v0.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bds/bds44/meteorological_routine_air_report_v0.go b/pkg/bds/bds44/meteorological_routine_air_report_v0.go
index 6167636..67e9b7f 100644
--- a/pkg/bds/bds44/meteorological_routine_air_report_v0.go
+++ b/pkg/bds/bds44/meteorological_routine_air_report_v0.go
@@ -89,6 +89,10 @@ func (message MeteorologicalRoutineAirReportV0) CheckCoherency() error {
 		return errors.New("the average static pressure status is set to false, but a average static pressure value is given")
 	}
 
+	if !message.TurbulenceStatus && message.Turbulence != 0 {
+		return errors.New("the turbulence status is set to false, but a turbulence value is given")
+	}
+
 	if !message.HumidityStatus && message.Humidity != 0 {
 		return errors.New("the humidity status is set to false, but a humidity value is given")
 	}
-- 
2.43.0


From 64db1ca739ce8befb198fd9f8472018bce8108c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 11/47] fix: check that bits 17 to 56 of an empty BDS 6,1 are
 zero

---
 pkg/bds/bds61/aircraft_status_no_information.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_no_information.go b/pkg/bds/bds61/aircraft_status_no_information.go
index 2156941..d969495 100644
--- a/pkg/bds/bds61/aircraft_status_no_information.go
+++ b/pkg/bds/bds61/aircraft_status_no_information.go
@@ -67,7 +67,7 @@ func ReadAircraftStatusNoInformation(data []byte) (*AircraftStatusNoInformation,
 	}
 
 	for i := uint(2); i < 7; i++ {
-		if (data[1] & 0x1F) != 0 {
+		if data[i] != 0 {
 			return nil, errors.New("the bits 17 to 56 are expected to be 0")
 		}
 	}
-- 
2.43.0


From 8ebd878d238eb269f28529b935484d9884e1fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 12/47] fix: a downed aircraft is a valid BDS 6,1 emergency

---
 pkg/bds/bds61/aircraft_status_emergency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_emergency.go b/pkg/bds/bds61/aircraft_status_emergency.go
index 9e3015d..1a13d99 100644
--- a/pkg/bds/bds61/aircraft_status_emergency.go
+++ b/pkg/bds/bds61/aircraft_status_emergency.go
@@ -28,7 +28,7 @@ func (message AircraftStatusEmergency) GetRegister() register.Register {
 // CheckCoherency checks that the data of the message are somehow coherent, such as for example: no Reserved values, etc.
 func (message AircraftStatusEmergency) CheckCoherency() error {
 
-	if message.EmergencyPriorityStatus > 5 {
+	if message.EmergencyPriorityStatus > 6 {
 		return errors.New("field EmergencyPriorityStatus is a Reserved value")
 	}
 
-- 
2.43.0


From 7ac6b726de19bb684535bdd46d5918b700e9878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 13/47] fix: BDS 6,2 selected altitude type is bit 9

---
 pkg/bds/bds62/fields/selected_altitude_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_altitude_type.go b/pkg/bds/bds62/fields/selected_altitude_type.go
index 7a822bd..d6c5602 100644
--- a/pkg/bds/bds62/fields/selected_altitude_type.go
+++ b/pkg/bds/bds62/fields/selected_altitude_type.go
@@ -29,6 +29,6 @@ func (status SelectedAltitudeType) ToString() string {
 
 // ReadSelectedAltitudeType reads the SelectedAltitudeType from a 56 bits data field
 func ReadSelectedAltitudeType(data []byte) SelectedAltitudeType {
-	bits := data[0] & 0x01
+	bits := (data[1] & 0x80) >> 7
 	return SelectedAltitudeType(bits)
 }
-- 
2.43.0


From fbc1c83a6e3706a41ebaa1da6f1a3717cfa80fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 14/47] fix: BDS 6,2 selected heading is in two's complement

---
 pkg/bds/bds62/fields/selected_heading.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_heading.go b/pkg/bds/bds62/fields/selected_heading.go
index bfc65ba..f1b263e 100644
--- a/pkg/bds/bds62/fields/selected_heading.go
+++ b/pkg/bds/bds62/fields/selected_heading.go
@@ -40,7 +40,7 @@ func ReadSelectedHeading(data []byte) (float32, SelectedHeadingStatus) {
 	heading := float32(bitutils.Pack2Bytes(byte1, byte2) >> 1)
 
 	if negative {
-		heading = -heading
+		heading = heading - 256
 	}
 
 	return heading * 180 / 256, status
-- 
2.43.0


From 953200b20fd206b5c86a19717c71a486407c2aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 15/47] fix: BDS 6,2 low bits of the target heading are in the
 fifth byte

---
 pkg/bds/bds62/fields/target_heading_track_angle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/target_heading_track_angle.go b/pkg/bds/bds62/fields/target_heading_track_angle.go
index 1f5d2b5..fa02562 100644
--- a/pkg/bds/bds62/fields/target_heading_track_angle.go
+++ b/pkg/bds/bds62/fields/target_heading_track_angle.go
@@ -40,7 +40,7 @@ func ReadTargetHeadingTrackIndicator(data []byte) TargetHeadingTrackIndicator {
 // Specified in Doc 9871 / B.2.3.9.9
 func ReadTargetHeadingTrackAngle(data []byte) (uint16, NumericValueStatus) {
 	byte1 := data[3] & 0x1F
-	byte2 := data[2] & 0xF0
+	byte2 := data[4] & 0xF0
 	targetHeading := bitutils.Pack2Bytes(byte1, byte2) >> 4
 
 	if targetHeading > 359 {
-- 
2.43.0


From 40f084d4397975edabb2280d976cf3d9967290a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 16/47] fix: an ADS-B 2 surface operational status reports
 level 2

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index 2c4ecd3..ead72a9 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -28,7 +28,7 @@ type AircraftOperationalStatusSurfaceADSB2 struct {
 }
 
 func (message AircraftOperationalStatusSurfaceADSB2) GetADSBLevel() byte {
-	return 1
+	return 2
 }
 
 // GetRegister returns the Register the message
-- 
2.43.0


From 1ce195e4c249fa08e56afee6317745d2ea6c9686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 17/47] fix: an ADS-B 1 surface position of type 7 without
 supplement is within 0.1 NM

---
 pkg/adsb/surface_position/surface_position_v1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/adsb/surface_position/surface_position_v1.go b/pkg/adsb/surface_position/surface_position_v1.go
index 9b2ab32..8ca1003 100644
--- a/pkg/adsb/surface_position/surface_position_v1.go
+++ b/pkg/adsb/surface_position/surface_position_v1.go
@@ -65,7 +65,7 @@ func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.Horizon
 		if nicSupplementA {
 			return fields.HCRV1RcLowerThan75M, 9
 		} else {
-			return fields.HCRV1RcGreaterThan0Point1NM, 8
+			return fields.HCRV1RcLowerThan0Point1NM, 8
 		}
 	default:
 		return fields.HCRV1RcGreaterThan0Point1NM, 0
-- 
2.43.0


From d0f2d2a7636164a04bbe8a210a844cfb1335c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 18/47] fix: an airborne pair that decodes beyond a pole is an
 error

---
 pkg/geo/cpr_airborne_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_airborne_global_position.go b/pkg/geo/cpr_airborne_global_position.go
index 7da5cbb..ed3e4b3 100644
--- a/pkg/geo/cpr_airborne_global_position.go
+++ b/pkg/geo/cpr_airborne_global_position.go
@@ -49,6 +49,11 @@ func GetCPRAirborneGlobalPosition(
 		latitudeOdd -= 360
 	}
 
+	// Latitudes outside [-90,+90] do not exist: these two messages do not come from the same aircraft
+	if math.Abs(latitudeEven) > 90 || math.Abs(latitudeOdd) > 90 {
+		return 0, 0, errors.New("the latitude is out of range")
+	}
+
 	// Before proceeding to the longitude calculation, we need to compute NL(lat_even) and NL(lat_odd) to check if both
 	//values are the same. If not, this means the pair of messages are from different longitude zones,
 	//and it is not possible to compute the correct global position.
-- 
2.43.0


From 0f6aa69e6c0f4067fa0fea2bdf8bd1d3a53dc15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 19/47] fix: surface pairs take the latitude closest to the
 reference

The hemisphere of the reference was used, which is wrong for an aircraft and
a reference (or two encodings) on opposite sides of the equator.
---
 pkg/geo/cpr_surface_global_position.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 771c0b0..896e07a 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -43,15 +43,13 @@ func GetCPRSurfaceGlobalPosition(
 	latitudeEven := 90 / (4 * Nz) * (mod(latitudeIndex, 4*Nz) + cprLatitudeEven)
 	latitudeOdd := 90 / (4*Nz - 1) * (mod(latitudeIndex, 4*Nz-1) + cprLatitudeOdd)
 
-	// If the reference in the southern hemisphere latitude solution
-	latitudeEvenFixed := latitudeEven
-	if referenceLatitude < 0 {
-		latitudeEvenFixed = latitudeEvenFixed - 90
-	}
+	// There is a latitude solution every 90 degrees: take the one that is the closest to the reference
+	latitudeEvenFixed := latitudeEven + 90*math.Round((referenceLatitude-latitudeEven)/90)
+	latitudeOddFixed := latitudeOdd + 90*math.Round((referenceLatitude-latitudeOdd)/90)
 
-	latitudeOddFixed := latitudeOdd
-	if referenceLatitude < 0 {
-		latitudeOddFixed = latitudeOddFixed - 90
+	// Latitudes outside [-90,+90] do not exist
+	if math.Abs(latitudeEvenFixed) > 90 || math.Abs(latitudeOddFixed) > 90 {
+		return 0, 0, errors.New("the latitude is out of range")
 	}
 
 	// Before proceeding to the quadrantLongitude calculation, we need to compute NL(lat_even) and NL(lat_odd) to check if both
-- 
2.43.0


From 55d9f0b9cb8c9c29387cc60375539778f79ef2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 20/47] fix: surface pairs compare longitudes across the
 antimeridian

---
 pkg/geo/cpr_surface_global_position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 896e07a..e930d8c 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -106,7 +106,7 @@ func GetCPRSurfaceGlobalPosition(
 
 	distancesToRef := [4]float64{}
 	for i, longitudeCorrected := range longitudesCorrected {
-		distancesToRef[i] = math.Abs(referenceLongitude - longitudeCorrected)
+		distancesToRef[i] = math.Abs(math.Remainder(referenceLongitude-longitudeCorrected, 360))
 	}
 
 	smallestDistance := 10000000.0
-- 
2.43.0


From 8ef6ba1206e7950e1acbde1e5191bdf9edfcd273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 21/47] fix: a reference that is not a number is an error for
 surface pairs, not a panic

---
 pkg/geo/cpr_surface_global_position.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index e930d8c..50fdedf 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -28,6 +28,12 @@ func GetCPRSurfaceGlobalPosition(
 	referenceLongitude float64,
 ) (float64, float64, error) {
 
+	for _, reference := range []float64{referenceLatitude, referenceLongitude} {
+		if math.IsNaN(reference) || math.IsInf(reference, 0) {
+			return 0, 0, errors.New("the reference is not a position")
+		}
+	}
+
 	// it is possible to extract the encoded CPR latitude and quadrantLongitude binary and convert them to decimal format.
 	// Then, they are divided by the 2^17, representing the fractions of the positions within the latitude and
 	// quadrantLongitude grids
-- 
2.43.0


From c03799977ce73c74593323a8d672828c2b1a9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 22/47] fix: the ground distance to the antipode is a number

---
 pkg/geo/ground_distance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/geo/ground_distance.go b/pkg/geo/ground_distance.go
index a7ee98d..b221957 100644
--- a/pkg/geo/ground_distance.go
+++ b/pkg/geo/ground_distance.go
@@ -24,7 +24,8 @@ func ComputeGroundDistance(lat1, long1, lat2, long2 float64) float64 {
 
 	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)
 
-	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
+	// Close to the antipode, rounding can bring a slightly over 1
+	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(math.Max(1-a, 0)))
 
 	metricDistance := earthRadius * c
 
-- 
2.43.0


From 76b36330a5920067343c0af7c593ddc10b3d363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 23/47] fix: an airborne position of type 0 has a barometric
 altitude and keeps its status bits

---
 pkg/adsb/airborne_position/airborne_position_type_0.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 33a0c0e..2b48474 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,8 +36,9 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
-	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22
-	dataTmp := []byte{0xB0, data[1], data[2], data[3], data[4], data[5], data[6]}
+	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18,
+	// keeping the surveillance status and the single antenna flag
+	dataTmp := []byte{0x90 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
 
 	bds, err := bds05.ReadAirbornePosition(dataTmp)
 	if err != nil {
-- 
2.43.0


From 0e5a033098b6e1de97b4501ce345b084d41826dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 24/47] fix: airborne position and no position data of a wrong
 length are an error, not a panic

---
 pkg/adsb/airborne_position/airborne_position.go             | 4 ++++
 pkg/adsb/airborne_position/airborne_position_type_0.go      | 4 ++++
 pkg/adsb/no_position_information/no_position_information.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/adsb/airborne_position/airborne_position.go b/pkg/adsb/airborne_position/airborne_position.go
index 70ddabf..95546c1 100644
--- a/pkg/adsb/airborne_position/airborne_position.go
+++ b/pkg/adsb/airborne_position/airborne_position.go
@@ -8,6 +8,10 @@ import (
 // ReadAirbornePosition reads a message at the format AirbornePosition
 func ReadAirbornePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSupplementA bool) (adsb.Message, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	if data[0] == 0 {
 		return ReadAirbornePositionType0(adsbVersion, data)
 	}
diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 2b48474..e7f6191 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,6 +36,10 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18,
 	// keeping the surveillance status and the single antenna flag
 	dataTmp := []byte{0x90 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
diff --git a/pkg/adsb/no_position_information/no_position_information.go b/pkg/adsb/no_position_information/no_position_information.go
index 0e04f6f..af8002f 100644
--- a/pkg/adsb/no_position_information/no_position_information.go
+++ b/pkg/adsb/no_position_information/no_position_information.go
@@ -37,6 +37,10 @@ func (message NoPositionInformation) ToString() string {
 // ReadNoPositionInformation reads a message at the format NoPositionInformation
 func ReadNoPositionInformation(adsbVersion adsb.ADSBVersion, data []byte) (*NoPositionInformation, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 15
 	dataTmp := []byte{0x78, data[1], data[2], 0, 0, 0, 0}
 
-- 
2.43.0


From 3248c18f7599b9d91c15291518028d6fdf6b4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 25/47] fix: an airborne position is of type 0 whatever its
 status bits

---
 pkg/adsb/airborne_position/airborne_position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/adsb/airborne_position/airborne_position.go b/pkg/adsb/airborne_position/airborne_position.go
index 95546c1..cb9bb8a 100644
--- a/pkg/adsb/airborne_position/airborne_position.go
+++ b/pkg/adsb/airborne_position/airborne_position.go
@@ -12,7 +12,7 @@ func ReadAirbornePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSuppleme
 		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
 	}
 
-	if data[0] == 0 {
+	if data[0]&0xF8 == 0 {
 		return ReadAirbornePositionType0(adsbVersion, data)
 	}
 
-- 
2.43.0


From 87d0896b490187ccb717d583a861ebe2a29c271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 26/47] fix: the message of an ADS-B reader that fails is nil

A nil pointer in the returned interface is not nil for the caller.
---
 .../airborne_position/airborne_position.go    | 23 +++++++++++----
 pkg/adsb/reader/reader.go                     | 29 ++++++++++++-------
 pkg/adsb/surface_position/surface_position.go | 17 ++++++++---
 3 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/pkg/adsb/airborne_position/airborne_position.go b/pkg/adsb/airborne_position/airborne_position.go
index cb9bb8a..28737af 100644
--- a/pkg/adsb/airborne_position/airborne_position.go
+++ b/pkg/adsb/airborne_position/airborne_position.go
@@ -13,17 +13,30 @@ func ReadAirbornePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSuppleme
 	}
 
 	if data[0]&0xF8 == 0 {
-		return ReadAirbornePositionType0(adsbVersion, data)
+		message, err := ReadAirbornePositionType0(adsbVersion, data)
+		if err != nil {
+			return nil, err
+		}
+		return message, nil
 	}
 
+	var message adsb.Message
+	var err error
+
 	switch adsbVersion {
 	case adsb.ADSBV0:
-		return ReadAirbornePositionV0(data)
+		message, err = ReadAirbornePositionV0(data)
 	case adsb.ADSBV1:
-		return ReadAirbornePositionV1(data, nicSupplementA)
+		message, err = ReadAirbornePositionV1(data, nicSupplementA)
 	case adsb.ADSBV2:
-		return ReadAirbornePositionV2(data, nicSupplementA)
+		message, err = ReadAirbornePositionV2(data, nicSupplementA)
 	default:
-		return nil, fmt.Errorf("the ADS-B version %v does not allow to read AirbornePosition messages", adsbVersion)
+		err = fmt.Errorf("the ADS-B version %v does not allow to read AirbornePosition messages", adsbVersion)
+	}
+
+	if err != nil {
+		return nil, err
 	}
+
+	return message, nil
 }
diff --git a/pkg/adsb/reader/reader.go b/pkg/adsb/reader/reader.go
index 8b082bb..3134b12 100644
--- a/pkg/adsb/reader/reader.go
+++ b/pkg/adsb/reader/reader.go
@@ -78,28 +78,37 @@ func ReadADSBMessage(
 	// Get the type
 	formatTypeCode := (data[0] & 0xF8) >> 3
 
+	var message adsb.Message
+	var err error
+
 	switch formatTypeCode {
 	case 0:
 		if data[2]&0x0F == 0 && data[3] == 0 && data[4] == 0 && data[5] == 0 && data[6] == 0 {
-			return no_position_information.ReadNoPositionInformation(adsbLevel, data)
+			message, err = no_position_information.ReadNoPositionInformation(adsbLevel, data)
 		} else {
-			return airborne_position.ReadAirbornePositionType0(adsbLevel, data)
+			message, err = airborne_position.ReadAirbornePositionType0(adsbLevel, data)
 		}
 	case 1, 2, 3, 4:
-		return aircraft_identification_and_category.ReadAircraftIdentificationAndCategory(adsbLevel, data)
+		message, err = aircraft_identification_and_category.ReadAircraftIdentificationAndCategory(adsbLevel, data)
 	case 5, 6, 7, 8:
-		return surface_position.ReadSurfacePosition(adsbLevel, data, nicSupplementA, nicSupplementC)
+		message, err = surface_position.ReadSurfacePosition(adsbLevel, data, nicSupplementA, nicSupplementC)
 	case 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22:
-		return airborne_position.ReadAirbornePosition(adsbLevel, data, nicSupplementA)
+		message, err = airborne_position.ReadAirbornePosition(adsbLevel, data, nicSupplementA)
 	case 19:
-		return airborne_velocity.ReadAirborneVelocity(adsbLevel, data)
+		message, err = airborne_velocity.ReadAirborneVelocity(adsbLevel, data)
 	case 28:
-		return aircraft_status.ReadAircraftStatus(adsbLevel, data)
+		message, err = aircraft_status.ReadAircraftStatus(adsbLevel, data)
 	case 29:
-		return target_state_and_status.ReadTargetStateAndStatus(adsbLevel, data)
+		message, err = target_state_and_status.ReadTargetStateAndStatus(adsbLevel, data)
 	case 31:
-		return aircraft_operational_status.ReadAircraftOperationalStatus(adsbLevel, data)
+		message, err = aircraft_operational_status.ReadAircraftOperationalStatus(adsbLevel, data)
+	default:
+		err = fmt.Errorf("the formatTypeCode %v is not supported", formatTypeCode)
+	}
+
+	if err != nil {
+		return nil, err
 	}
 
-	return nil, fmt.Errorf("the formatTypeCode %v is not supported", formatTypeCode)
+	return message, nil
 }
diff --git a/pkg/adsb/surface_position/surface_position.go b/pkg/adsb/surface_position/surface_position.go
index 7ef545e..d96e018 100644
--- a/pkg/adsb/surface_position/surface_position.go
+++ b/pkg/adsb/surface_position/surface_position.go
@@ -8,14 +8,23 @@ import (
 // ReadSurfacePosition reads a message at the format SurfacePosition
 func ReadSurfacePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSupplementA bool, nicSupplementC bool) (adsb.Message, error) {
 
+	var message adsb.Message
+	var err error
+
 	switch adsbVersion {
 	case adsb.ADSBV0:
-		return ReadSurfacePositionV0(data)
+		message, err = ReadSurfacePositionV0(data)
 	case adsb.ADSBV1:
-		return ReadSurfacePositionV1(data, nicSupplementA)
+		message, err = ReadSurfacePositionV1(data, nicSupplementA)
 	case adsb.ADSBV2:
-		return ReadSurfacePositionV2(data, nicSupplementA, nicSupplementC)
+		message, err = ReadSurfacePositionV2(data, nicSupplementA, nicSupplementC)
 	default:
-		return nil, fmt.Errorf("the ADS-B version %v does not allow to read AirbornePosition messages", adsbVersion)
+		err = fmt.Errorf("the ADS-B version %v does not allow to read AirbornePosition messages", adsbVersion)
+	}
+
+	if err != nil {
+		return nil, err
 	}
+
+	return message, nil
 }
-- 
2.43.0


From 4347001c5c69e2bff3c6d87d3bec69683f349915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 27/47] fix: the message of a register reader that fails is nil

---
 pkg/bds/bds61/aircraft_status.go             | 18 ++++++++++----
 pkg/bds/bds62/target_state_and_status.go     | 16 ++++++++++---
 pkg/bds/bds65/aircraft_operational_status.go | 25 +++++++++++++-------
 3 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/pkg/bds/bds61/aircraft_status.go b/pkg/bds/bds61/aircraft_status.go
index d1f15f1..011ba74 100644
--- a/pkg/bds/bds61/aircraft_status.go
+++ b/pkg/bds/bds61/aircraft_status.go
@@ -24,14 +24,24 @@ func ReadAircraftStatus(data []byte) (AircraftStatus, error) {
 	}
 
 	subType := fields.ReadSubtype(data)
+
+	var message AircraftStatus
+	var err error
+
 	switch subType {
 	case fields.SubtypeNoInformation:
-		return ReadAircraftStatusNoInformation(data)
+		message, err = ReadAircraftStatusNoInformation(data)
 	case fields.SubtypeEmergencyPriorityStatus:
-		return ReadAircraftStatusEmergency(data)
+		message, err = ReadAircraftStatusEmergency(data)
 	case fields.SubtypeRABroadcast:
-		return ReadAircraftStatusACAS(data)
+		message, err = ReadAircraftStatusACAS(data)
 	default:
-		return nil, fmt.Errorf("the field SubType must be comprised between 0 and 2 included, got %v", subType)
+		err = fmt.Errorf("the field SubType must be comprised between 0 and 2 included, got %v", subType)
 	}
+
+	if err != nil {
+		return nil, err
+	}
+
+	return message, nil
 }
diff --git a/pkg/bds/bds62/target_state_and_status.go b/pkg/bds/bds62/target_state_and_status.go
index c8ed5c8..8ee4e7f 100644
--- a/pkg/bds/bds62/target_state_and_status.go
+++ b/pkg/bds/bds62/target_state_and_status.go
@@ -24,12 +24,22 @@ func ReadTargetStateAndStatus(data []byte) (TargetStateAndStatus, error) {
 	}
 
 	subType := fields.ReadSubtype(data)
+
+	var message TargetStateAndStatus
+	var err error
+
 	switch subType {
 	case fields.Subtype0:
-		return ReadTargetStateAndStatus0(data)
+		message, err = ReadTargetStateAndStatus0(data)
 	case fields.Subtype1:
-		return ReadTargetStateAndStatus1(data)
+		message, err = ReadTargetStateAndStatus1(data)
 	default:
-		return nil, fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", subType)
+		err = fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", subType)
 	}
+
+	if err != nil {
+		return nil, err
+	}
+
+	return message, nil
 }
diff --git a/pkg/bds/bds65/aircraft_operational_status.go b/pkg/bds/bds65/aircraft_operational_status.go
index 46e1e93..579bd5a 100644
--- a/pkg/bds/bds65/aircraft_operational_status.go
+++ b/pkg/bds/bds65/aircraft_operational_status.go
@@ -25,28 +25,37 @@ func ReadAircraftOperationalStatus(data []byte) (AircraftOperationalStatus, erro
 	adsbLevel := (data[5] & 0xE0) >> 5
 	subType := data[0] & 0x07
 
+	var message AircraftOperationalStatus
+	var err error
+
 	switch adsbLevel {
 	case 0:
-		return ReadAircraftOperationalStatusADSB0(data)
+		message, err = ReadAircraftOperationalStatusADSB0(data)
 	case 1:
 		switch subType {
 		case 0:
-			return ReadAircraftOperationalStatusAirborneADSB1(data)
+			message, err = ReadAircraftOperationalStatusAirborneADSB1(data)
 		case 1:
-			return ReadAircraftOperationalStatusSurfaceADSB1(data)
+			message, err = ReadAircraftOperationalStatusSurfaceADSB1(data)
 		default:
-			return nil, fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", subType)
+			err = fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", subType)
 		}
 	case 2:
 		switch subType {
 		case 0:
-			return ReadAircraftOperationalStatusAirborneADSB2(data)
+			message, err = ReadAircraftOperationalStatusAirborneADSB2(data)
 		case 1:
-			return ReadAircraftOperationalStatusSurfaceADSB2(data)
+			message, err = ReadAircraftOperationalStatusSurfaceADSB2(data)
 		default:
-			return nil, fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", subType)
+			err = fmt.Errorf("the field SubType must be comprised between 0 and 1 included, got %v", subType)
 		}
 	default:
-		return nil, fmt.Errorf("the field VersionNumber must be comprised between 0 and 2 included, got %v", subType)
+		err = fmt.Errorf("the field VersionNumber must be comprised between 0 and 2 included, got %v", subType)
+	}
+
+	if err != nil {
+		return nil, err
 	}
+
+	return message, nil
 }
-- 
2.43.0


From 56b7d7dfed6e46873f4f4607eecef6f2204746dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 28/47] fix: a downward resolution advisory is printed as
 downward

---
 .../fields/active_resolution_advisory_one_or_same_separation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
index 5fd7c79..786ff46 100644
--- a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
+++ b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
@@ -119,7 +119,7 @@ const (
 
 // ToString returns a basic, but readable, representation of the field
 func (sense ActiveRASense) ToString() string {
-	switch ActiveRASenseUpward {
+	switch sense {
 	case ActiveRASenseUpward:
 		return "Upward"
 	case ActiveRASenseDownward:
-- 
2.43.0


From ed5ce38eee40fd77175194645bdc5be0f7560389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 29/47] fix: a threat bearing above 252 degrees is printed
 without overflow

---
 pkg/acas/ra/fields/threat_identity_bearing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_bearing.go b/pkg/acas/ra/fields/threat_identity_bearing.go
index f4f39f3..a47044b 100644
--- a/pkg/acas/ra/fields/threat_identity_bearing.go
+++ b/pkg/acas/ra/fields/threat_identity_bearing.go
@@ -14,7 +14,7 @@ func (threatBearing ThreatIdentityBearing) ToString() string {
 	if threatBearing == 0 {
 		return " 0 - No bearing estimate available"
 	} else if 1 <= threatBearing && threatBearing <= 60 {
-		return fmt.Sprintf("%v - between %v and %v", threatBearing, (threatBearing-1)*6, threatBearing*6)
+		return fmt.Sprintf("%v - between %v and %v", threatBearing, (int(threatBearing)-1)*6, int(threatBearing)*6)
 	} else if 61 <= threatBearing && threatBearing <= 63 {
 		return fmt.Sprintf("%v - Not assigned", threatBearing)
 	}
-- 
2.43.0


From 76cbfb3d97edaf755dc7865472fec6f0cd7b87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 30/47] fix: the farthest threat range is printed with its code

---
 pkg/acas/ra/fields/threat_identity_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index d566ad5..3ea3fa6 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -18,7 +18,7 @@ func (threatRange ThreatIdentityRange) ToString() string {
 	} else if 2 <= threatRange && threatRange <= 126 {
 		return fmt.Sprintf("%v - %v +/- 0.05 NM", threatRange, threatRange.GetRange())
 	} else if threatRange == 127 {
-		return "Greater than 12.55"
+		return "127 - Greater than 12.55"
 	}
 	return fmt.Sprintf("%v - Unknown code", threatRange)
 }
-- 
2.43.0


From b787f1e173e9c8c75366d547a3554b3b204d0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 31/47] fix: transmission rate code 0 does not print an
 altitude type

---
 pkg/bds/bds07/fields/transmission_rate_subfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/fields/transmission_rate_subfield.go b/pkg/bds/bds07/fields/transmission_rate_subfield.go
index cbe7abf..63f32f6 100644
--- a/pkg/bds/bds07/fields/transmission_rate_subfield.go
+++ b/pkg/bds/bds07/fields/transmission_rate_subfield.go
@@ -21,7 +21,7 @@ func (trs TransmissionRateSubfield) ToString() string {
 
 	switch trs {
 	case TransmissionRateNoCapability:
-		return "0 - Barometric altitude"
+		return "0 - No capability to determine surface squitter rate"
 	case TransmissionRateHigh:
 		return "1 - High surface squitter rate selected"
 	case TransmissionRateLow:
-- 
2.43.0


From 5cc67dd797cd69c6019f556ee07a3c5c59b666ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 32/47] fix: navigation uncertainty categories 2 to 4 print
 their own code and bounds

---
 pkg/bds/bds09/fields/navigation_uncertainty_category.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds09/fields/navigation_uncertainty_category.go b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
index 1cd8817..368af79 100644
--- a/pkg/bds/bds09/fields/navigation_uncertainty_category.go
+++ b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
@@ -34,15 +34,15 @@ func (category NavigationUncertaintyCategory) ToString() string {
 			nucpHorizontalLabel, "< 10 m/s",
 			nucpVerticalLabel, "< 15.2 m/s (50 fps)")
 	case NUCPHorizontalLowerThan3VerticalLowerThan4Point6:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("2 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 3 m/s",
 			nucpVerticalLabel, "< 4.6 m/s (15 fps)")
 	case NUCPHorizontalLowerThan1VerticalLowerThan1Point5:
-		return fmt.Sprintf("1 - %v %v / %v %v",
-			nucpHorizontalLabel, "< 2 m/s",
+		return fmt.Sprintf("3 - %v %v / %v %v",
+			nucpHorizontalLabel, "< 1 m/s",
 			nucpVerticalLabel, "< 1.5 m/s (5 fps)")
 	case NUCPHorizontalLowerThan0Point3VerticalLowerThan0Point46:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("4 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 0.3 m/s",
 			nucpVerticalLabel, "< 0.46 m/s (1.5 fps)")
 
-- 
2.43.0


From 207f3a0b0e6028a97e71a04ef5029264ea8ae87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 33/47] fix: Mode S subnetwork versions 2 to 5 print their own
 code

---
 pkg/bds/bds10/fields/modes_subnetwork_version.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds10/fields/modes_subnetwork_version.go b/pkg/bds/bds10/fields/modes_subnetwork_version.go
index 098d7a9..33e0250 100644
--- a/pkg/bds/bds10/fields/modes_subnetwork_version.go
+++ b/pkg/bds/bds10/fields/modes_subnetwork_version.go
@@ -31,13 +31,13 @@ func (mssv ModeSSubnetworkVersion) ToString() string {
 	case ModeSSubnetworkVersion1:
 		return "1 - Mode S subnetwork Version 1 - ICAO Doc 9688 (1996)"
 	case ModeSSubnetworkVersion2:
-		return "1 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
+		return "2 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
 	case ModeSSubnetworkVersion3:
-		return "1 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
+		return "3 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
 	case ModeSSubnetworkVersion4:
-		return "1 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
+		return "4 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
 	case ModeSSubnetworkVersion5:
-		return "1 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
+		return "5 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
 	default:
 		return fmt.Sprintf("%v - Unknown code", mssv)
 	}
-- 
2.43.0


From 3a79b47c6e62422962cdee1388c216c555d7ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 34/47] fix: spelling of an unchanged common usage GICB
 capability

---
 pkg/bds/bds10/fields/common_gicb_capability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds10/fields/common_gicb_capability.go b/pkg/bds/bds10/fields/common_gicb_capability.go
index f6bfe06..d9242f9 100644
--- a/pkg/bds/bds10/fields/common_gicb_capability.go
+++ b/pkg/bds/bds10/fields/common_gicb_capability.go
@@ -19,7 +19,7 @@ func (cugc CommonUsageGICBCapability) ToString() string {
 
 	switch cugc {
 	case CommonUsageGICBReportUnChanged:
-		return "0 - The common usage GICB capability report (register 17) is unchange"
+		return "0 - The common usage GICB capability report (register 17) is unchanged"
 	case CommonUsageGICBReportChanged:
 		return "1 - The common usage GICB capability report (register 17) changed"
 	default:
-- 
2.43.0


From 748acf9a20e121fb5c5fc0bfa74a866c0a91cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 35/47] fix: meteorological data source 4 is VOR/DME

---
 pkg/bds/bds44/fields/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/source.go b/pkg/bds/bds44/fields/source.go
index 682117e..ebafbae 100644
--- a/pkg/bds/bds44/fields/source.go
+++ b/pkg/bds/bds44/fields/source.go
@@ -33,7 +33,7 @@ func (source Source) ToString() string {
 	case SourceDMEDME:
 		return "3 - DME/DME"
 	case SourceVORDME:
-		return "4 - VOR/DMS"
+		return "4 - VOR/DME"
 	default:
 		return fmt.Sprintf("%v - Unknown code", source)
 	}
-- 
2.43.0


From 6c9ccce666594710cc4ffe272641841b228238d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 36/47] fix: the title of the emergency state

---
 pkg/bds/bds61/aircraft_status_emergency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_emergency.go b/pkg/bds/bds61/aircraft_status_emergency.go
index 1a13d99..9cda21a 100644
--- a/pkg/bds/bds61/aircraft_status_emergency.go
+++ b/pkg/bds/bds61/aircraft_status_emergency.go
@@ -40,7 +40,7 @@ func (message AircraftStatusEmergency) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                   %v\n"+
 		"Subtype:                   %v\n"+
-		"Emergeny State:            %v",
+		"Emergency State:           %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
 		message.EmergencyPriorityStatus.ToString())
-- 
2.43.0


From a659ea169718d077b3cd85dad1b8f34b119c7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 37/47] fix: source integrity levels 2 and 3 print their own
 code

---
 pkg/bds/bds62/fields/source_integrity_level.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds62/fields/source_integrity_level.go b/pkg/bds/bds62/fields/source_integrity_level.go
index 2d4488c..8064c0b 100644
--- a/pkg/bds/bds62/fields/source_integrity_level.go
+++ b/pkg/bds/bds62/fields/source_integrity_level.go
@@ -27,9 +27,9 @@ func (level SourceIntegrityLevel) ToString() string {
 	case SILLevel1:
 		return "1 - SIL <= 1 * 10^-3 per flight hour or per sample"
 	case SILLevel2:
-		return "1 - SIL <= 1 * 10^-5 per flight hour or per sample"
+		return "2 - SIL <= 1 * 10^-5 per flight hour or per sample"
 	case SILLevel3:
-		return "1 - SIL <= 1 * 10^-7 per flight hour or per sample"
+		return "3 - SIL <= 1 * 10^-7 per flight hour or per sample"
 	default:
 		return fmt.Sprintf("%v - Unknown code", level)
 	}
-- 
2.43.0


From f10dec9ab6b30284e36348c8066cdaf7fb383027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 38/47] fix: geometric vertical accuracies print their own code

---
 pkg/bds/bds65/fields/geometric_vertical_accuracy.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
index 1ec808a..8ab4488 100644
--- a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
+++ b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
@@ -23,13 +23,13 @@ func (baro GeometricVerticalAccuracy) ToString() string {
 
 	switch baro {
 	case GVAUnknownOrGreaterThan150m:
-		return "0 - Unknown or GVA >= 150 meters"
+		return "0 - Unknown or GVA > 150 meters"
 	case GVALowerThan150m:
-		return "0 - GVA <= 150 meters"
+		return "1 - GVA <= 150 meters"
 	case GVALowerThan45m:
-		return "0 - GVA <= 45 meters"
+		return "2 - GVA <= 45 meters"
 	case GVAReserved3:
-		return "0 - reserved"
+		return "3 - reserved"
 	default:
 		return fmt.Sprintf("%v - Unknown code", baro)
 	}
-- 
2.43.0


From b0e840958fa465fc7100167e8afbe840b4ceaa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 39/47] fix: the width bound of aircraft size code 10

---
 pkg/bds/bds65/fields/length_width.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds65/fields/length_width.go b/pkg/bds/bds65/fields/length_width.go
index 23b3bde..62d46c2 100644
--- a/pkg/bds/bds65/fields/length_width.go
+++ b/pkg/bds/bds65/fields/length_width.go
@@ -67,7 +67,7 @@ func (status LengthWidth) ToString() string {
 	case LWLength55Width52:
 		return "9 - Length lower than 55 meters and Width lower than 52 meters"
 	case LWLength65Width59Point5:
-		return "10 - Length lower than 65 meters and Width lower than 59 meters"
+		return "10 - Length lower than 65 meters and Width lower than 59.5 meters"
 	case LWLength65Width67:
 		return "11 - Length lower than 65 meters and Width lower than 67 meters"
 	case LWLength75Width72Point5:
-- 
2.43.0


From f53bd82dd3a8d701a08559e97a122c6a2127bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 40/47] fix: the bounds of the smallest and largest containment
 radius

---
 pkg/adsb/airborne_position/fields/containment_radius.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/adsb/airborne_position/fields/containment_radius.go b/pkg/adsb/airborne_position/fields/containment_radius.go
index 0a25eab..01b02bd 100644
--- a/pkg/adsb/airborne_position/fields/containment_radius.go
+++ b/pkg/adsb/airborne_position/fields/containment_radius.go
@@ -41,7 +41,7 @@ const (
 func (cr ContainmentRadius) ToString() string {
 	switch cr {
 	case CRBaroLowerThan3M:
-		return "(Baro) 0 μ < 3m"
+		return "(Baro) 0 <= μ < 3 m"
 	case CRBaroBetween3MAnd10M:
 		return "(Baro) 3 m <= μ < 10 m"
 	case CRBaroBetween10MAnd92Dot6M:
@@ -65,7 +65,7 @@ func (cr ContainmentRadius) ToString() string {
 	case CRGNSSHorizontalLowerThan10MAndVerticalLowerThan15M:
 		return "(GNSS) μ < 10 m and v < 15 m"
 	case CRGNSSHorizontalGreaterThan10MOrVerticalGreaterThan15M:
-		return "(GNSS) μ > 10 m or v >= 15 m"
+		return "(GNSS) μ >= 10 m or v >= 15 m"
 	default:
 		return fmt.Sprintf("%v - Unknown code", cr)
 	}
-- 
2.43.0


From 6e86b5d15b77322de802d8da4961741cb8a20c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 41/47] fix: flight statuses 4, 5 and 7 print the meaning of
 Annex 10 3.1.2.6.5.1

---
 pkg/modes/fields/flight_status.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/modes/fields/flight_status.go b/pkg/modes/fields/flight_status.go
index c852db0..a66061f 100644
--- a/pkg/modes/fields/flight_status.go
+++ b/pkg/modes/fields/flight_status.go
@@ -53,13 +53,13 @@ func (flightStatus FlightStatus) ToString() string {
 	case FlightStatusAlertNoSPIOnTheGround:
 		return "3 - Alert, No SPI, On The Ground"
 	case FlightStatusAlertSPIAirborne:
-		return "4 - Alert, SPI, Airborne"
+		return "4 - Alert, SPI, Airborne or On The Ground"
 	case FlightStatusAlertSPIOnTheGround:
-		return "5 - Alert, SPI, On The Ground"
+		return "5 - No Alert, SPI, Airborne or On The Ground"
 	case FlightStatusReserved:
 		return "6 - Reserved"
 	case FlightStatusNotAssigned:
-		return "7 - Reserved"
+		return "7 - Not Assigned"
 	default:
 		return fmt.Sprintf("%v - Unknown code", flightStatus)
 	}
-- 
2.43.0


From 93f8cd55d5e8d43f24ab04f3ec2036575488ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 42/47] fix: downlink requests 4 and 5 announce a broadcast
 message

---
 pkg/modes/fields/downlink_request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/modes/fields/downlink_request.go b/pkg/modes/fields/downlink_request.go
index 581707b..f1e7680 100644
--- a/pkg/modes/fields/downlink_request.go
+++ b/pkg/modes/fields/downlink_request.go
@@ -101,9 +101,9 @@ func (downlinkRequest DownlinkRequest) ToString() string {
 	case DownlinkRequestCommBAndACASMessageAvailable:
 		return "3 - Comm-B message available and ACAS message available"
 	case DownlinkRequestCommBMessage1Available:
-		return "4 - Comm-B Message 1 Available"
+		return "4 - Comm-B Broadcast Message 1 Available"
 	case DownlinkRequestCommBMessage2Available:
-		return "5 - Comm-B Message 2 Available"
+		return "5 - Comm-B Broadcast Message 2 Available"
 	case DownlinkRequestCommBMessage1AndACASMessageAvailable:
 		return "6 - Comm-B broadcast message 1 available and ACAS message available"
 	case DownlinkRequestCommBMessage2AndACASMessageAvailable:
@@ -143,7 +143,7 @@ func (downlinkRequest DownlinkRequest) ToString() string {
 	case DownlinkRequestELMAvailable9Segments:
 		return "24 - ELM Available 9 Segments"
 	case DownlinkRequestELMAvailable10Segments:
-		return "25 - ELM Available 10 Segment"
+		return "25 - ELM Available 10 Segments"
 	case DownlinkRequestELMAvailable11Segments:
 		return "26 - ELM Available 11 Segments"
 	case DownlinkRequestELMAvailable12Segments:
-- 
2.43.0


From 8d1c573117fcf7e7ac0481e1d111e5ce0f93394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 43/47] fix: operational and target status reports title the
 values they print

---
 pkg/bds/bds62/target_state_and_status_type_0.go           | 2 +-
 pkg/bds/bds62/target_state_and_status_type_1.go           | 6 +++---
 pkg/bds/bds65/aircraft_operational_status_adsb0.go        | 4 ++--
 .../bds65/aircraft_operational_status_airborne_adsb1.go   | 2 +-
 .../bds65/aircraft_operational_status_airborne_adsb2.go   | 6 +++---
 .../bds65/aircraft_operational_status_surface_adsb1.go    | 6 +++---
 .../bds65/aircraft_operational_status_surface_adsb2.go    | 8 ++++----
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/pkg/bds/bds62/target_state_and_status_type_0.go b/pkg/bds/bds62/target_state_and_status_type_0.go
index 0dbc131..fe71646 100644
--- a/pkg/bds/bds62/target_state_and_status_type_0.go
+++ b/pkg/bds/bds62/target_state_and_status_type_0.go
@@ -64,7 +64,7 @@ func (message TargetStateAndStatus0) ToString() string {
 		"Horizontal Mode Indicator:                    %v\n"+
 		"Navigation Accuracy Category - Position:      %v\n"+
 		"Navigation Integrity Category - Baro:         %v\n"+
-		"Surveillance Integrity ReaderLevel:           %v\n"+
+		"Surveillance Integrity Level:                 %v\n"+
 		"Capability / Mode Codes:                      %v\n"+
 		"Emergency / Priority Status:                  %v",
 		message.GetRegister().ToString(),
diff --git a/pkg/bds/bds62/target_state_and_status_type_1.go b/pkg/bds/bds62/target_state_and_status_type_1.go
index 2c83710..1e71564 100644
--- a/pkg/bds/bds62/target_state_and_status_type_1.go
+++ b/pkg/bds/bds62/target_state_and_status_type_1.go
@@ -61,9 +61,9 @@ func (message TargetStateAndStatus1) ToString() string {
 		"Selected Heading :                             %v\n"+
 		"Navigation Accuracy Category - Position:       %v\n"+
 		"Navigation Integrity Category - Baro:          %v\n"+
-		"Source Integrity ReaderLevel:                  %v\n"+
-		"Source Integrity ReaderLevel Supplement:       %v\n"+
-		"Status of MCP/FPU Mode Bits:                   %v\n"+
+		"Source Integrity Level:                        %v\n"+
+		"Source Integrity Level Supplement:             %v\n"+
+		"Status of MCP/FCU Mode Bits:                   %v\n"+
 		"Autopilot Engaged:                             %v\n"+
 		"VNAV Mode Engaged:                             %v\n"+
 		"Altitude Hold Mode Engaged:                    %v\n"+
diff --git a/pkg/bds/bds65/aircraft_operational_status_adsb0.go b/pkg/bds/bds65/aircraft_operational_status_adsb0.go
index 20a2de7..c6702fe 100644
--- a/pkg/bds/bds65/aircraft_operational_status_adsb0.go
+++ b/pkg/bds/bds65/aircraft_operational_status_adsb0.go
@@ -44,8 +44,8 @@ func (message AircraftOperationalStatusADSB0) ToString() string {
 		"Terminal Area Operational Capability Status:    %v\n"+
 		"Approach/Landing Operational Capabilities:      %v\n"+
 		"Approach/Landing Operational Capability Status: %v\n"+
-		"SubtypeSurface Operational Capabilities:               %v\n"+
-		"SubtypeSurface Operational Capability Status:          %v",
+		"Surface Operational Capabilities:               %v\n"+
+		"Surface Operational Capability Status:          %v",
 		message.GetRegister().ToString(),
 		message.EnRouteOperationalCapabilities.ToString(),
 		message.EnRouteOperationalCapabilityStatus.ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_airborne_adsb1.go b/pkg/bds/bds65/aircraft_operational_status_airborne_adsb1.go
index 9f3887e..47401e1 100644
--- a/pkg/bds/bds65/aircraft_operational_status_airborne_adsb1.go
+++ b/pkg/bds/bds65/aircraft_operational_status_airborne_adsb1.go
@@ -49,7 +49,7 @@ func (message AircraftOperationalStatusAirborneADSB1) ToString() string {
 		"ADSB Version Number:                     %v\n"+
 		"NIC Supplement:                          %v\n"+
 		"Navigational Accuracy Category Position: %v\n"+
-		"Surveillance Integrity ReaderLevel:      \n%v\n"+
+		"Surveillance Integrity Level:            \n%v\n"+
 		"NIC Baro:                                %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go
index c071fdf..20669e3 100644
--- a/pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go
@@ -46,14 +46,14 @@ func (message AircraftOperationalStatusAirborneADSB2) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Subtype:                                 %v\n"+
-		"SubtypeAirborne Capability Class:        \n%v\n"+
+		"Airborne Capability Class:               \n%v\n"+
 		"Operational Mode:                        \n%v\n"+
 		"ADSB Version Number:                     %v\n"+
 		"NIC Supplement:                          %v\n"+
 		"Navigational Accuracy Category Position: %v\n"+
 		"Geometric Vertical Accuracy:             %v\n"+
-		"Source Integrity ReaderLevel:            %v\n"+
-		"Source Integrity ReaderLevel Supplement: %v\n"+
+		"Source Integrity Level:                  %v\n"+
+		"Source Integrity Level Supplement:       %v\n"+
 		"NIC Baro:                                %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
index 0eb8ff0..dfcf31d 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
@@ -45,14 +45,14 @@ func (message AircraftOperationalStatusSurfaceADSB1) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Subtype:                                 %v\n"+
-		"SubtypeAirborne Capability Class:        \n%v\n"+
+		"Surface Capability Class:                \n%v\n"+
 		"Aircraft Length And Width                %v\n"+
 		"Operational Mode:                        \n%v\n"+
 		"ADSB Version Number:                     %v\n"+
 		"NIC Supplement:                          %v\n"+
 		"Navigational Accuracy Category Position: %v\n"+
-		"Surveillance Integrity ReaderLevel:      \n%v\n"+
-		"NIC Baro:                                %v\n"+
+		"Surveillance Integrity Level:            \n%v\n"+
+		"Track Angle / Heading:                   %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index ead72a9..a12ddcb 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -46,15 +46,15 @@ func (message AircraftOperationalStatusSurfaceADSB2) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Subtype:                                 %v\n"+
-		"SubtypeAirborne Capability Class:        \n%v\n"+
+		"Surface Capability Class:                \n%v\n"+
 		"Aircraft Length And Width                %v\n"+
 		"Operational Mode:                        \n%v\n"+
 		"ADSB Version Number:                     %v\n"+
 		"NIC Supplement:                          %v\n"+
 		"Navigational Accuracy Category Position: %v\n"+
-		"Source Integrity ReaderLevel:            %v\n"+
-		"Source Integrity ReaderLevel Supplement: %v\n"+
-		"NIC Baro:                                %v\n"+
+		"Source Integrity Level:                  %v\n"+
+		"Source Integrity Level Supplement:       %v\n"+
+		"Track Angle / Heading:                   %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
-- 
2.43.0


From 76dd3c5a7bf0b1b5244ac890b0768b9f52cee00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 44/47] fix: the data link capability report prints its
 continuation flag

---
 pkg/bds/bds10/data_link_capability_report.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bds/bds10/data_link_capability_report.go b/pkg/bds/bds10/data_link_capability_report.go
index 7026d09..c124929 100644
--- a/pkg/bds/bds10/data_link_capability_report.go
+++ b/pkg/bds/bds10/data_link_capability_report.go
@@ -74,6 +74,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Continuation Flag:                       %v\n"+
+		"Overlay Command Capability               %v\n"+
 		"ACAS Status                              %v\n"+
 		"ModeS Subnetwork Version                 %v\n"+
 		"Transponder Enhanced Protocol Indicator  %v\n"+
@@ -89,6 +90,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 		"ACAS Applicable Document                 %v\n"+
 		"DTE SubAddress Statuses                  %v\n",
 		message.GetRegister().ToString(),
+		message.ContinuationFlag.ToString(),
 		message.OverlayCommandCapability.ToString(),
 		message.ACASStatus.ToString(),
 		message.ModeSSubnetworkVersion.ToString(),
-- 
2.43.0


From 1c7b99ce8a0aebf3dc348a00ee8475087de53c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 45/47] fix: the error of a line that is not hexadecimal ends
 its line

---
 cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index 07d2212..9dc139d 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -89,7 +89,7 @@ func processSingleLine(str string, readerLevel adsb.ADSBVersion) {
 
 	binaryData, err := hex.DecodeString(str)
 	if err != nil {
-		fmt.Printf("unable to convert the given text to hexadecimal values due to: %v", err)
+		fmt.Printf("unable to convert the given text to hexadecimal values due to: %v\n", err)
 		return
 	}
 
-- 
2.43.0


From 19f1fd726b8e3b015c22f563eda03a1ed618fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 46/47] fix: the single line mode takes options

---
 cmd/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 9dc139d..c394b66 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -44,8 +44,8 @@ func main() {
 		return
 	}
 
-	if len(os.Args) > 1 {
-		processSingleLine(os.Args[1], adsbReaderLevel)
+	if flag.NArg() > 0 {
+		processSingleLine(flag.Arg(0), adsbReaderLevel)
 	} else {
 		fmt.Printf("No data provided")
 	}
-- 
2.43.0


From b3ec9fbcee73fa1f47ffe242b3d8e9a2e57903ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 47/47] fix: a line of any length does not stop the reading of
 a file

---
 cmd/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index c394b66..2de7c5f 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -6,6 +6,7 @@ import (
 	"flag"
 	"fmt"
 	"log"
+	"math"
 	"os"
 
 	resolutionAdvisory "github.com/twuillemin/modes/pkg/acas/ra"
@@ -68,6 +69,7 @@ func readFile(fileName string) []string {
 	result := make([]string, 0, 1000)
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		result = append(result, scanner.Text())
 	}
-- 
2.43.0

