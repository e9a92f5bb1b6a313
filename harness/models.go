package main

import "math"

// ---------------------------------------------------------------- Mode C

// modeCPulses encodes an altitude in 100-ft steps from -1200 ft as Mode C pulses
// (ICAO Annex 10 Vol IV appendix to chapter 3): n-th 500-ft band as reflected binary over
// D1 D2 D4 A1 A2 A4 B1 B2 B4, the 100-ft step as the C1 C2 C4 sequence 001 011 010 110 100
// run forward in even bands and backward in odd ones.
type pulses struct{ A1, A2, A4, B1, B2, B4, C1, C2, C4, D1, D2, D4 int64 }

func modeCEncode(alt int64) pulses {
	k := (alt + 1200) / 100
	n, r := k/5, k%5
	step := r
	if n%2 == 1 {
		step = 4 - r
	}
	c := []int64{1, 3, 2, 6, 4}[step]
	g := n ^ (n >> 1)
	bit := func(i uint) int64 { return g >> i & 1 }
	return pulses{
		D1: bit(8), D2: bit(7), D4: bit(6), A1: bit(5), A2: bit(4), A4: bit(3), B1: bit(2), B2: bit(1), B4: bit(0),
		C1: c >> 2 & 1, C2: c >> 1 & 1, C4: c & 1,
	}
}

// order13 puts pulses in the 13-bit field order with x at the M bit and q at the D1/Q bit.
func (p pulses) order13(m, q int64) int64 {
	v := int64(0)
	for _, b := range []int64{p.C1, p.A1, p.C2, p.A2, p.C4, p.A4, m, p.B1, q, p.B2, p.D2, p.B4, p.D4} {
		v = v<<1 | b
	}
	return v
}

func drop7(v13 int64) int64 { return (v13>>7)<<6 | v13&0x3F } // 13-bit field without bit 7 (the M bit)

// modeC maps the 12 pulses in field order (M left out, D1 in place of Q) to the altitude.
var modeC = func() map[int64]int64 {
	m := map[int64]int64{}
	for k := int64(0); k < 512*5; k++ {
		p := modeCEncode(-1200 + 100*k)
		m[drop7(p.order13(0, p.D1))] = -1200 + 100*k
	}
	return m
}()

const (
	methodNone    = 1
	methodMetric  = 2
	methodGillham = 3
	methodQ       = 4
)

// alt13 is the 13-bit altitude code of surveillance replies.
func alt13(v int64) (alt int64, method int64, ok bool) {
	switch {
	case v == 0:
		return 0, methodNone, true
	case v>>6&1 == 1:
		return 0, methodMetric, true
	case v>>4&1 == 1:
		w := drop7(v)
		return ((w>>5)<<4|w&0xF)*25 - 1000, methodQ, true
	}
	a, ok := modeC[drop7(v)]
	return a, methodGillham, ok
}

// alt12 is the 12-bit altitude code of airborne positions. method: 0 100 ft, 1 25 ft.
func alt12(v int64) (alt int64, method int64, ok bool) {
	if v>>4&1 == 1 {
		return ((v>>5)<<4|v&0xF)*25 - 1000, 1, true
	}
	a, ok := modeC[v]
	return a, 0, ok
}

// squawk gives the four octal digits of a 13-bit identity field (spare bit ignored).
func squawk(v int64) (a, b, c, d int64) {
	bit := func(n int) int64 { return v >> uint(13-n) & 1 } // n from 1
	a = bit(6)<<2 | bit(4)<<1 | bit(2)
	b = bit(12)<<2 | bit(10)<<1 | bit(8)
	c = bit(5)<<2 | bit(3)<<1 | bit(1)
	d = bit(13)<<2 | bit(11)<<1 | bit(9)
	return
}

// ---------------------------------------------------------------- characters

func icaoChar(code int64) byte {
	switch {
	case code >= 1 && code <= 26:
		return byte('A' + code - 1)
	case code == 32:
		return ' '
	case code >= 48 && code <= 57:
		return byte(code)
	}
	return '#'
}

func icaoString(b Bits) string {
	s := make([]byte, 8)
	for i := range s {
		s[i] = icaoChar(b.U(9+6*i, 14+6*i))
	}
	return string(s)
}

// ---------------------------------------------------------------- parity

// crc24 is the remainder of the content (without its last 3 bytes) for the Mode S polynomial, bit by bit.
func crc24(content []byte) uint32 {
	var r uint32
	for _, by := range content {
		for i := 7; i >= 0; i-- {
			in := uint32(by>>uint(i)) & 1
			top := r >> 23 & 1
			r = r << 1 & 0xFFFFFF
			if top^in == 1 {
				r ^= 0xFFF409
			}
		}
	}
	return r
}

// seal sets the last three bytes to the parity of the rest combined with overlay.
func seal(frame []byte, overlay uint32) []byte {
	n := len(frame) - 3
	p := crc24(frame[:n]) ^ overlay
	frame[n], frame[n+1], frame[n+2] = byte(p>>16), byte(p>>8), byte(p)
	return frame
}

// ---------------------------------------------------------------- CPR

// nl is the number of longitude zones, from the transition latitude formula.
func nl(lat float64) int {
	lat = math.Abs(lat)
	if lat > 87 {
		return 1
	}
	if lat < 1e-12 {
		return 59
	}
	if lat == 87 {
		return 2
	}
	c := math.Cos(math.Pi * lat / 180)
	x := 1 - (1-math.Cos(math.Pi/30))/(c*c)
	return int(math.Floor(2 * math.Pi / math.Acos(x)))
}

// transitionLat is the latitude at which NL goes from n to n-1 (n = 2..59).
func transitionLat(n int) float64 {
	return 180 / math.Pi * math.Acos(math.Sqrt((1-math.Cos(math.Pi/30))/(1-math.Cos(2*math.Pi/float64(n)))))
}

func fmod(x, y float64) float64 { return x - y*math.Floor(x/y) }

// cprEncode encodes a position; odd 0/1; surface or airborne. It returns the 17-bit values and
// the latitude a receiver recovers (its zone decides NL).
func cprEncode(lat, lon float64, odd int, surface bool) (yz, xz int64, rlat float64) {
	span, nb := 360.0, 131072.0
	if surface {
		nb = 524288.0 // 2^19: positions are encoded with 19 bits and the two high ones dropped
	}
	dlat := span / float64(60-odd)
	y := math.Floor(nb*fmod(lat, dlat)/dlat + 0.5)
	rlat = dlat * (y/nb + math.Floor(lat/dlat))
	n := nl(rlat) - odd
	if n < 1 {
		n = 1
	}
	dlon := span / float64(n)
	x := math.Floor(nb*fmod(lon, dlon)/dlon + 0.5)
	return int64(y) & 0x1FFFF, int64(x) & 0x1FFFF, rlat
}

// gcDist is the great-circle distance in metres from unit vectors.
func gcDist(lat1, lon1, lat2, lon2 float64) float64 {
	const r = 6371000
	v := func(lat, lon float64) [3]float64 {
		la, lo := lat*math.Pi/180, math.Mod(lon, 360)*math.Pi/180
		return [3]float64{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
	}
	a, b := v(lat1, lon1), v(lat2, lon2)
	dx, dy, dz := a[0]-b[0], a[1]-b[1], a[2]-b[2]
	sx, sy, sz := a[0]+b[0], a[1]+b[1], a[2]+b[2]
	d := math.Sqrt(dx*dx + dy*dy + dz*dz)
	s := math.Sqrt(sx*sx + sy*sy + sz*sz)
	return 2 * r * math.Atan2(d, s)
}

// offsetPoint moves dist metres along bearing (degrees) on the sphere.
func offsetPoint(lat, lon, bearing, dist float64) (float64, float64) {
	const r = 6371000
	d := dist / r
	la, lo, br := lat*math.Pi/180, lon*math.Pi/180, bearing*math.Pi/180
	la2 := math.Asin(math.Sin(la)*math.Cos(d) + math.Cos(la)*math.Sin(d)*math.Cos(br))
	lo2 := lo + math.Atan2(math.Sin(br)*math.Sin(d)*math.Cos(la), math.Cos(d)-math.Sin(la)*math.Sin(la2))
	lo2d := math.Mod(lo2*180/math.Pi+540, 360) - 180
	return la2 * 180 / math.Pi, lo2d
}
