package main

import (
	"fmt"
	"math"

	"github.com/twuillemin/modes/pkg/geo"
)

const nm = 1852.0

func wrap180(x float64) float64 {
	x = math.Mod(x, 360)
	if x > 180 {
		x -= 360
	}
	if x <= -180 {
		x += 360
	}
	return x
}

func lonDiff(a, b float64) float64 { return math.Abs(wrap180(a - b)) }

// nearBand says that the number of longitude zones at a latitude is a matter of rounding.
func nearBand(lat float64) bool {
	lat = math.Abs(lat)
	if lat == 87 {
		return false
	}
	n := nl(lat)
	for _, k := range []int{n - 1, n, n + 1, n + 2} {
		if k >= 2 && k <= 59 && math.Abs(transitionLat(k)-lat) < 1e-8 {
			return true
		}
	}
	return math.Abs(lat-87) < 1e-9
}

// steps are half an encoding step in latitude and longitude, with a little room for rounding.
func steps(rlat float64, odd int, surface bool) (float64, float64) {
	nb := 131072.0
	if surface {
		nb = 524288.0
	}
	n := nl(rlat) - odd
	if n < 1 {
		n = 1
	}
	return 180/float64(60-odd)/nb + 1e-9, 180/float64(n)/nb + 1e-9
}

// ---------------------------------------------------------------- positions

// genLat favours the latitudes where the arithmetic changes.
func genLat(r *Rand, max float64) float64 {
	var lat float64
	switch r.N(12) {
	case 0, 1: // a transition between bands, by a few encoding steps
		lat = transitionLat(2+r.N(58)) + float64(r.N(41)-20)*(360.0/60/131072/4)
	case 2: // around a transition at the scale of a pair
		lat = transitionLat(2+r.N(58)) + r.R(-0.06, 0.06)
	case 3: // a latitude zone boundary, even or odd, airborne or surface
		d := []float64{6, 360.0 / 59, 1.5, 90.0 / 59}[r.N(4)]
		lat = d*float64(r.N(int(90/d)+1)) + float64(r.N(21)-10)*(d/131072/2)
	case 4: // the equator
		lat = []float64{0, 1e-9, 1e-5, 1e-4, r.R(-0.05, 0.05), r.R(-1, 1), r.R(-1, 1)}[r.N(7)]
	case 5: // the last bands and the cap
		lat = r.R(85, 90)
	case 6:
		lat = []float64{87, 87, 86.999999, 87.000001, 89.9, 89, 88, r.R(86.9, 87.1), r.R(89, 90), 90}[r.N(10)]
	case 7: // the middle of a zone
		lat = 3 + 6*float64(r.N(15)) + r.R(-1e-4, 1e-4)
	default: // uniform over the globe
		lat = math.Asin(r.R(-1, 1)) * 180 / math.Pi
	}
	if r.Bool() {
		lat = -lat
	}
	return math.Max(-max, math.Min(max, lat))
}

func genLon(r *Rand, lat float64) float64 {
	switch r.N(10) {
	case 0: // antimeridian
		return wrap180(180 + r.R(-0.05, 0.05))
	case 1:
		return wrap180(180 + r.R(-1e-4, 1e-4))
	case 2: // Greenwich and the 90-degree meridians
		return wrap180(float64(r.N(4))*90 + r.R(-0.02, 0.02))
	case 3:
		return wrap180(float64(r.N(4))*90 + float64(r.N(11)-5)*1e-5)
	case 4: // a longitude zone boundary of the band
		n := nl(lat) - r.N(2)
		if n < 1 {
			n = 1
		}
		d := 360 / float64(n)
		if r.Bool() {
			d /= 4
		}
		return wrap180(d*float64(r.N(n*4)) + float64(r.N(11)-5)*(d/131072/2))
	case 5: // exact
		return []float64{0, 180, -180, 90, -90, 45, 135}[r.N(7)]
	}
	return r.R(-180, 180)
}

// near picks a point within dist metres.
func near(r *Rand, lat, lon, dist float64) (float64, float64) {
	d := dist
	switch r.N(6) {
	case 0:
		return lat, lon
	case 1:
		d *= 0.999
	case 2:
		d *= r.F() * r.F() * r.F()
	default:
		d *= r.F() * 0.999
	}
	b := r.R(0, 360)
	if r.N(3) == 0 {
		b = float64(r.N(8)) * 45
	}
	a, o := offsetPoint(lat, lon, b, d)
	if gcDist(lat, lon, a, o) > dist {
		return lat, lon
	}
	return a, o
}

func finiteOnGlobe(lat, lon float64) bool {
	return lat >= -90 && lat <= 90 && lon >= -180 && lon <= 180 // false for NaN
}

// sameCPR says whether a position encodes to the received values (within one step at rounding ties).
func sameCPR(lat, lon float64, odd int, surface bool, y, x int64) bool {
	gy, gx, _ := cprEncode(lat, lon, odd, surface)
	return gy == y && gx == x
}

// ---------------------------------------------------------------- the checks

func bandName(lat float64) string {
	switch n := nl(lat); {
	case n == 1:
		return "polar cap"
	case n <= 4:
		return "bands 2-4"
	case n <= 30:
		return "bands 5-30"
	case n <= 58:
		return "bands 31-58"
	}
	return "band 59"
}

// checkPair judges a global decode of two encodings. F: even lat, lon, odd lat, lon (, reference); A: even last.
func checkPair(c *Ctx, cs *Case, surface bool) {
	if len(cs.F) < 6 {
		return
	}
	eLat, eLon, oLat, oLon, refLat, refLon := cs.F[0], cs.F[1], cs.F[2], cs.F[3], cs.F[4], cs.F[5]
	last := cs.A[0] == 1
	ye, xe, re := cprEncode(eLat, eLon, 0, surface)
	yo, xo, ro := cprEncode(oLat, oLon, 1, surface)
	var lat, lon float64
	var err error
	name := "GetCPRAirborneGlobalPosition"
	if surface {
		name = "GetCPRSurfaceGlobalPosition"
		lat, lon, err = geo.GetCPRSurfaceGlobalPosition(uint32(ye), uint32(xe), uint32(yo), uint32(xo), last, refLat, refLon)
	} else {
		lat, lon, err = geo.GetCPRAirborneGlobalPosition(uint32(ye), uint32(xe), uint32(yo), uint32(xo), last)
	}
	wLat, wLon, wr, odd := oLat, oLon, ro, 1
	if last {
		wLat, wLon, wr, odd = eLat, eLon, re, 0
	}
	what := fmt.Sprintf("%s(even %d,%d odd %d,%d evenLast %v", name, ye, xe, yo, xo, last)
	if surface {
		what += fmt.Sprintf(" ref %v,%v", refLat, refLon)
	}
	what += ")"
	if err == nil && !finiteOnGlobe(lat, lon) {
		c.Fail("%s gives %v, %v: not on the globe", what, lat, lon)
		return
	}
	if nearBand(re) || nearBand(ro) {
		c.Obs("undecided: rounding at a band transition")
		return
	}
	if math.Abs(re) > 90 || math.Abs(ro) > 90 {
		c.Obs("latitude rounds beyond a pole")
		if err != nil {
			return
		}
	}
	if surface && lonDiff(refLon, wLon) > 44.99 {
		c.Obs("undecided: the reference is across the pole")
		return
	}
	c.NonTrivial()
	if nl(re) != nl(ro) {
		c.Obs("different bands: error")
		if err == nil {
			c.Fail("%s gives %v, %v although the encoded latitudes %v and %v lie in different bands", what, lat, lon, re, ro)
		}
		return
	}
	c.Obs("same band: position")
	c.Obs("position in " + bandName(wr))
	c.Obs(fmt.Sprintf("recent %s, north %v, east %v", []string{"even", "odd"}[odd], wLat >= 0, wLon >= 0))
	if eLat*oLat < 0 {
		c.Obs("pair across the equator")
	}
	if math.Abs(eLon-oLon) > 180 {
		c.Obs("pair across the antimeridian")
	}
	if surface {
		if refLat*wLat < 0 {
			c.Obs("reference across the equator")
		}
		if math.Abs(refLon-wLon) > 180 {
			c.Obs("reference across the antimeridian")
		}
		if math.Floor(refLon/90) != math.Floor(wLon/90) {
			c.Obs("reference across a 90-degree meridian")
		}
	}
	if err != nil {
		c.Fail("%s refuses encodings of %v, %v and %v, %v: %v", what, eLat, eLon, oLat, oLon, err)
		return
	}
	sLat, sLon := steps(wr, odd, surface)
	if math.Abs(lat-wLat) > sLat {
		c.Fail("%s gives latitude %v, the position is %v (%.1f m away)", what, lat, wLat, gcDist(lat, lon, wLat, wLon))
		return
	}
	if lonDiff(lon, wLon) > sLon {
		c.Fail("%s gives longitude %v, the position is %v (%.1f m away)", what, lon, wLon, gcDist(lat, lon, wLat, wLon))
	}
}

// checkRaw judges a global decode of arbitrary values. A: even last, ye, xe, yo, xo; F: reference.
func checkRaw(c *Ctx, cs *Case, surface bool) {
	last, ye, xe, yo, xo := cs.A[0] == 1, cs.A[1], cs.A[2], cs.A[3], cs.A[4]
	var lat, lon float64
	var err error
	if surface {
		lat, lon, err = geo.GetCPRSurfaceGlobalPosition(uint32(ye), uint32(xe), uint32(yo), uint32(xo), last, cs.F[0], cs.F[1])
	} else {
		lat, lon, err = geo.GetCPRAirborneGlobalPosition(uint32(ye), uint32(xe), uint32(yo), uint32(xo), last)
	}
	c.NonTrivial()
	if err != nil {
		c.Obs("arbitrary values: error")
		return
	}
	c.Obs("arbitrary values: position")
	if !finiteOnGlobe(lat, lon) {
		c.Fail("values even %d,%d odd %d,%d evenLast %v ref %v give %v, %v: not on the globe", ye, xe, yo, xo, last, cs.F, lat, lon)
		return
	}
	y, x, odd := yo, xo, 1
	if last {
		y, x, odd = ye, xe, 0
	}
	if !nearBand(lat) && !sameCPR(lat, lon, odd, surface, y, x) {
		c.Fail("values even %d,%d odd %d,%d evenLast %v ref %v give %v, %v, which encodes to other values", ye, xe, yo, xo, last, cs.F, lat, lon)
	}
}

// checkLocal judges a local decode. F: lat, lon, reference lat, lon; A: odd.
func checkLocal(c *Ctx, cs *Case) {
	surface := cs.K == "surface"
	lat, lon, refLat, refLon, odd := cs.F[0], cs.F[1], cs.F[2], cs.F[3], int(cs.A[0])
	y, x, rl := cprEncode(lat, lon, odd, surface)
	if nearBand(rl) {
		c.Obs("undecided: rounding at a band transition")
		return
	}
	part := 1.0
	if surface {
		part = 4
	}
	if math.Abs(refLat-lat)*part*float64(60-odd) > 180*0.99999 || lonDiff(refLon, lon)*part*math.Max(1, float64(nl(rl)-odd)) > 180*0.99999 {
		c.Obs("undecided: the reference is half a zone away or more")
		return
	}
	gLat, gLon := local(surface, y, x, refLat, refLon, odd)
	what := fmt.Sprintf("%s local decode of %d,%d (odd %d) near %v,%v", cs.K, y, x, odd, refLat, refLon)
	c.NonTrivial()
	c.Obs(fmt.Sprintf("%s %s odd %d", cs.K, bandName(rl), odd))
	if refLat*lat < 0 {
		c.Obs(cs.K + " reference across the equator")
	}
	if math.Abs(refLon-lon) > 180 {
		c.Obs(cs.K + " reference across the antimeridian")
	}
	if math.Floor(refLat/6) != math.Floor(lat/6) {
		c.Obs(cs.K + " reference in another latitude zone")
	}
	if gcDist(lat, lon, refLat, refLon) > 0.9*map[bool]float64{true: 40 * nm, false: 160 * nm}[surface] {
		c.Obs(cs.K + " reference near the limit of range")
	}
	if math.Abs(refLat-lat)*part*float64(60-odd) > 179 {
		c.Obs(cs.K + " reference near half a latitude zone away")
	}
	if lonDiff(refLon, lon)*part*math.Max(1, float64(nl(rl)-odd)) > 179 {
		c.Obs(cs.K + " reference near half a longitude zone away")
	}
	sLat, sLon := steps(rl, odd, surface)
	if !(math.Abs(gLat-lat) <= sLat) || !(lonDiff(gLon, lon) <= sLon) {
		c.Fail("%s gives %v, %v, the position is %v, %v", what, gLat, gLon, lat, lon)
	}
}

func local(surface bool, y, x int64, refLat, refLon float64, odd int) (float64, float64) {
	if surface {
		return geo.GetCPRSurfaceLocalPosition(uint32(y), uint32(x), refLat, refLon, odd == 1)
	}
	return geo.GetCPRAirborneLocalPosition(uint32(y), uint32(x), refLat, refLon, odd == 1)
}

func checkLocalRaw(c *Ctx, cs *Case) {
	surface := cs.S[0] == "surface"
	lat, lon := local(surface, cs.A[1], cs.A[2], cs.F[0], cs.F[1], int(cs.A[0]))
	c.NonTrivial()
	c.Obs("arbitrary values")
	if math.IsNaN(lat) || math.IsInf(lat, 0) || math.IsNaN(lon) || math.IsInf(lon, 0) {
		c.Fail("%s local decode of %v near %v gives %v, %v", cs.S[0], cs.A, cs.F, lat, lon)
		return
	}
	// the one position with these values that is less than half a zone away in both directions
	part, odd := 1.0, float64(cs.A[0])
	if surface {
		part = 4
	}
	nearest := func(ref, zone float64, v int64) (float64, bool) {
		k := (ref/zone - float64(v)/131072)
		w := zone * (math.Round(k) + float64(v)/131072)
		return w, math.Abs(ref-w) < 0.499999*zone
	}
	wantLat, ok := nearest(cs.F[0], 360/(60-odd)/part, cs.A[1])
	if !ok || math.Abs(wantLat) > 90 || nearBand(wantLat) {
		return
	}
	wantLon, ok := nearest(cs.F[1], 360/math.Max(1, float64(nl(wantLat))-odd)/part, cs.A[2])
	if !ok {
		return
	}
	c.Obs("arbitrary values with one solution near the reference")
	if !(math.Abs(lat-wantLat) < 1e-8) || !(lonDiff(lon, wantLon) < 1e-8) {
		c.Fail("%s local decode of %d,%d (odd %d) near %v,%v gives %v, %v; the position with these values less than half a zone away is %v, %v",
			cs.S[0], cs.A[1], cs.A[2], cs.A[0], cs.F[0], cs.F[1], lat, lon, wantLat, wantLon)
	}
}

// checkDistance: F: lat, lon pairs, two or three points.
func checkDistance(c *Ctx, cs *Case) {
	f := cs.F
	d := geo.ComputeGroundDistance(f[0], f[1], f[2], f[3])
	c.NonTrivial()
	half := math.Pi * 6371000
	w := gcDist(f[0], f[1], f[2], f[3])
	tol := 1e-3 + 1e-9*w
	switch {
	case w > half-1000:
		tol = 1
		c.Obs("near antipodal")
	case f[0] == f[2] && f[1] == f[3]:
		c.Obs("identical")
	case w < 1:
		c.Obs("closer than 1 m")
	case w < 1000:
		c.Obs("closer than 1 km")
	default:
		c.Obs("far")
	}
	if math.Abs(f[0]) == 90 || math.Abs(f[2]) == 90 {
		c.Obs("at a pole")
	}
	if math.Abs(f[1]-f[3]) > 180 {
		c.Obs("across the antimeridian")
	}
	if math.IsNaN(d) || math.IsInf(d, 0) || d < 0 {
		c.Fail("distance of %v is %v", f, d)
		return
	}
	if math.Abs(d-w) > tol {
		c.Fail("distance of %v is %v m, the great circle is %v m", f, d, w)
		return
	}
	if d > half+1e-3 {
		c.Fail("distance of %v is %v m, more than half the circumference", f, d)
		return
	}
	if f[0] == f[2] && f[1] == f[3] && d != 0 {
		c.Fail("distance of a point %v to itself is %v", f[:2], d)
		return
	}
	if back := geo.ComputeGroundDistance(f[2], f[3], f[0], f[1]); math.Abs(back-d) > tol {
		c.Fail("distance of %v is %v one way and %v the other", f, d, back)
		return
	}
	for _, k := range []float64{360, -360} {
		if turn := geo.ComputeGroundDistance(f[0], f[1]+k, f[2], f[3]); math.Abs(turn-d) > tol {
			c.Fail("distance of %v is %v, and %v with a turn added to a longitude", f, d, turn)
			return
		}
	}
	if len(f) >= 6 {
		c.Obs("triangle")
		p := geo.ComputeGroundDistance(f[0], f[1], f[4], f[5])
		q := geo.ComputeGroundDistance(f[4], f[5], f[2], f[3])
		if !(p+q >= d-2.1) { // each of the three may be off by its tolerance
			c.Fail("distance of %v is more than by the third point: %v > %v + %v", f, d, p, q)
		}
	}
}

// walk follows a case by others that differ from it a little, or in one respect, and goes back to it: an answer kept from
// one call for the next shows when the next call is nearly the same. The seed of the walk is the last value of A.
func walk(c *Ctx, cs *Case, step func(*Rand, *Case), check func(*Case)) {
	r := &Rand{uint64(cs.A[len(cs.A)-1])}
	first := Case{K: cs.K, A: cs.A[:len(cs.A)-1], F: cs.F}
	at := first
	for k := 0; k < 8 && c.fail == ""; k++ {
		from := &at
		if k == 4 || r.N(6) == 0 {
			from = &first
		}
		next := Case{K: cs.K, A: append([]int64(nil), from.A...), F: append([]float64(nil), from.F...)}
		if from == &at || r.Bool() {
			step(r, &next)
		}
		at = next
		check(&at)
	}
	c.Obs("a walk of small steps")
}

// little is a small difference of latitude and longitude, one of which can be zero.
func little(r *Rand, low, high float64) [2]float64 {
	d := [2]float64{r.R(-1, 1) * math.Pow(10, r.R(low, high)), r.R(-1, 1) * math.Pow(10, r.R(low, high))}
	if k := r.N(3); k < 2 {
		d[k] = 0
	}
	return d
}

func shift(f []float64, d [2]float64) {
	for k := range f {
		if f[k] += d[k%2]; k%2 == 0 && math.Abs(f[k]) > 90 {
			f[k] = math.Copysign(90, f[k])
		}
	}
}

// stepPoints moves one of the points.
func stepPoints(r *Rand, cs *Case) {
	k := r.N(len(cs.F)/2) * 2
	shift(cs.F[k:k+2], little(r, -10, -1))
}

// stepPair changes a pair of positions (and the reference of a surface pair) so that it stays in the domain.
func stepPair(r *Rand, cs *Case) {
	f := cs.F
	surface := f[4] != 0 || f[5] != 0
	switch k := r.N(8); {
	case k == 0:
		cs.A[0] ^= 1
	case k == 1:
		shift(f[:4], little(r, -6, -3))
	case k == 2:
		shift(f, little(r, -6, -3))
	case k == 3 && surface:
		shift(f[4:6], little(r, -10, -3))
	case k == 4 && surface: // the same encodings a quarter of the globe further
		d := float64(1+r.N(3)) * 90
		for k := 1; k < 6; k += 2 {
			f[k] = wrap180(f[k] + d)
		}
	case k == 5 && surface && f[1] == 0 && f[3] == 0: // the same encodings in the other hemisphere
		d := -90.0
		if f[0]+f[2] < 0 {
			d = 90
		}
		if math.Abs(f[0]+d) < 89.9 && math.Abs(f[2]+d) < 89.9 && math.Abs(f[4]+d) < 89.9 {
			f[0] += d
			f[2] += d
			f[4] += d
		}
	default: // one of the positions comes closer to the other
		from, to := f[0:2], f[2:4]
		if r.Bool() {
			from, to = to, from
		}
		t := math.Pow(r.F(), 4)
		if k := r.N(3); k != 0 {
			from[0] += t * (to[0] - from[0])
		} else if math.Abs(to[1]-from[1]) < 180 {
			from[1] += t * (to[1] - from[1])
		}
	}
}

// stepLocal changes a position or its reference; checkLocal sees whether it is still in the domain.
func stepLocal(r *Rand, cs *Case) {
	f := cs.F
	switch r.N(4) {
	case 0:
		cs.A[0] ^= 1
	case 1: // the position with another bit of its encoding, near the same reference
		surface, odd := cs.K == "surface", int(cs.A[0])
		y, x, _ := cprEncode(f[0], f[1], odd, surface)
		bit := int64(1) << uint(r.N(17))
		if r.N(3) == 0 {
			bit = 1 << 16
		}
		part := 1.0
		if surface {
			part = 4
		}
		if r.Bool() {
			y ^= bit
		} else {
			x ^= bit
		}
		d := 360 / float64(60-odd) / part
		lat := d * float64(y) / 131072
		lat += d * math.Round((f[2]-lat)/d)
		if math.Abs(lat) > 90 {
			return
		}
		w := 360 / math.Max(1, float64(nl(lat)-odd)) / part
		lon := w * float64(x) / 131072
		f[0], f[1] = lat, lon+w*math.Round((f[3]-lon)/w)
	default:
		stepPoints(r, cs)
	}
}

// stepRaw changes one bit of one of the arbitrary values.
func stepRaw(r *Rand, cs *Case) {
	if k := r.N(len(cs.A)); k == 0 {
		cs.A[0] ^= 1
	} else {
		cs.A[k] ^= 1 << uint(r.N(17))
	}
}

// bothSides gives two cases with the same encoding and nearly the same reference, on both sides of the middle between two
// positions that the encoding stands for, in latitude or in longitude.
func bothSides(r *Rand, cs *Case) []Case {
	surface, odd := cs.K == "surface", int(cs.A[0])
	_, x, rl := cprEncode(cs.F[0], cs.F[1], odd, surface)
	part := 1.0
	if surface {
		part = 4
	}
	eps := math.Pow(10, r.R(-4.8, -2)) // of a zone
	mk := func(lat, lon, refLat, refLon float64) Case {
		return Case{K: cs.K, A: []int64{int64(odd)}, F: []float64{lat, lon, refLat, refLon}}
	}
	zone := func(lat float64) float64 { return 360 / math.Max(1, float64(nl(lat)-odd)) / part }
	// the position nearest to a longitude that has the encoded longitude
	lonNear := func(lat, ref float64) float64 {
		d := zone(lat)
		base := d * float64(x) / 131072
		return base + d*math.Round((ref-base)/d)
	}
	if r.Bool() {
		d := 360 / float64(60-odd) / part
		other := rl + d
		if r.Bool() {
			other = rl - d
		}
		if math.Abs(other) > 90 || nearBand(other) {
			return nil
		}
		ref := cs.F[1] + r.R(-0.1, 0.1)
		mid, e := (rl+other)/2, math.Copysign(eps*d, other-rl)
		if math.Abs(mid)+math.Abs(e) > 90 {
			return nil
		}
		return []Case{mk(rl, lonNear(rl, ref), mid-e, ref), mk(other, lonNear(other, ref), mid+e, ref)}
	}
	d := zone(rl)
	lon := lonNear(rl, cs.F[1])
	mid := lon + d/2
	return []Case{mk(rl, lon, rl, mid-eps*d), mk(rl, lon+d, rl, mid+eps*d)}
}

func init() {
	pairBlocks := func(surface bool, s int) []Block {
		sep, rng, max := 3*nm, 0.0, 90.0
		if surface {
			sep, rng = 0.75*nm, 40*nm
		}
		mkPair := func(r *Rand, lat, lon float64, emit func(Case)) {
			la2, lo2 := near(r, lat, lon, sep)
			if math.Abs(la2) > max {
				la2, lo2 = lat, lon
			}
			last := int64(r.N(2))
			f := []float64{lat, lon, la2, lo2, 0, 0}
			if surface {
				rl, ro := f[2], f[3]
				if last == 1 {
					rl, ro = f[0], f[1]
				}
				f[4], f[5] = near(r, rl, ro, rng*0.998)
				for k := 0; lonDiff(f[5], ro) > 44.9; k++ { // close to a pole
					if f[4], f[5] = near(r, rl, ro, rng*0.998); k > 20 {
						f[4], f[5] = rl, ro
					}
				}
				if r.N(8) == 0 {
					f[5] += []float64{360, -360}[r.N(2)]
				}
			}
			emit(Case{K: "pair", A: []int64{last}, F: f})
		}
		out := []Block{
			{"walks of small steps", 512 * s, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 64; k++ {
					lat := genLat(r, 89.99)
					mkPair(r, lat, genLon(r, lat), func(cs Case) {
						if surface && k%8 == 0 { // on the prime meridian the encoded longitudes are the same in every band
							cs.F[1], cs.F[3], cs.F[5] = 0, 0, cs.F[4]*1e-4
							if math.Abs(cs.F[0]) < 89 && r.Bool() {
								cs.F[4], cs.F[5] = cs.F[0]+r.R(-0.1, 0.1), r.R(-0.1, 0.1)
							}
						}
						cs.A = append(cs.A, int64(r.U64()>>1))
						emit(cs)
					})
				}
			}},
			{"positions", 4096 * s, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 192; k++ {
					lat := genLat(r, max)
					mkPair(r, lat, genLon(r, lat), emit)
				}
			}},
			{"every latitude of a zone", 512, func(r *Rand, i int, emit func(Case)) {
				step := 64
				if s > 10 {
					step = 2
				}
				for y := i; y < 131072; y += 512 * step {
					for z := -15; z < 15; z++ {
						lat := 6 * (float64(z) + float64(y)/131072)
						if surface {
							lat = 1.5 * (float64(z*4+r.N(4)) + float64(y)/131072)
						}
						mkPair(r, lat, genLon(r, lat), emit)
					}
				}
			}},
			{"every band transition", 58 * 2 * 4, func(r *Rand, i int, emit func(Case)) {
				t := transitionLat(2 + i%58)
				if i/58%2 == 1 {
					t = -t
				}
				for k := -60 * s; k <= 60*s; k++ {
					lat := t + float64(k)*(360.0/60/131072)/3
					if math.Abs(lat) <= max {
						mkPair(r, lat, genLon(r, lat), emit)
					}
				}
			}},
			{"every longitude zone boundary", 59 * 2, func(r *Rand, i int, emit func(Case)) {
				n := 1 + i/2
				hi, lo := 90.0, 0.0
				if n > 1 {
					hi = transitionLat(n)
				}
				if n < 59 {
					lo = transitionLat(n + 1)
				}
				hi = math.Min(hi, max)
				for k := 0; k < n; k++ {
					for q := 0; q < 4*s; q++ {
						lat := r.R(lo, hi)
						if i%2 == 1 {
							lat = -lat
						}
						d := 360 / math.Max(1, float64(n-q%2))
						mkPair(r, lat, wrap180(d*float64(k)+float64(r.N(21)-10)*(d/131072/2)), emit)
					}
				}
			}},
			{"arbitrary values", 1024 * s, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 256; k++ {
					v := func() int64 {
						switch r.N(4) {
						case 0:
							return r.Pick(0, 1, 65535, 65536, 65537, 131070, 131071, 43690, 21845, 98304)
						}
						return int64(r.N(131072))
					}
					f := []float64{r.R(-90, 90), r.R(-180, 180)}
					if surface {
						switch r.N(8) {
						case 0:
							f = []float64{genLat(r, 90), genLon(r, 0)}
						case 1:
							f = []float64{[]float64{0, 90, -90, 45, -45, math.Copysign(0, -1)}[r.N(6)], []float64{0, 180, -180, 90, -90, 45, -45, 135}[r.N(8)]}
						case 2:
							odd := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e308, -1e308, 1e9, -1e9, 1e7, 91, -91, 181, 540, -540, 1e-320}
							f[r.N(2)] = odd[r.N(len(odd))]
							if r.Bool() {
								f[r.N(2)] = odd[r.N(len(odd))]
							}
						}
					}
					y, x := v(), v()
					yo, xo := v(), v()
					if r.Bool() { // a latitude that both messages can share
						lat := genLat(r, 90)
						y, _, _ = cprEncode(lat, 0, 0, surface)
						yo, _, _ = cprEncode(lat, 0, 1, surface)
					}
					a := []int64{int64(r.N(2)), y, x, yo, xo}
					if k%32 == 31 {
						a = append(a, int64(r.U64()>>1))
					}
					emit(Case{K: "raw", A: a, F: f})
				}
			}},
		}
		return out
	}
	global := func(id string, surface bool, rule string, need []string) {
		register(&Prop{
			ID: id, Rule: rule, Need: need,
			Blocks: func(th bool) []Block {
				if th {
					return pairBlocks(surface, 100)
				}
				return pairBlocks(surface, 4)
			},
			Check: func(c *Ctx, cs *Case) {
				if cs.K == "raw" {
					if len(cs.A) == 6 {
						walk(c, cs, stepRaw, func(cs *Case) { checkRaw(c, cs, surface) })
						return
					}
					checkRaw(c, cs, surface)
				} else {
					if len(cs.A) < 2 {
						checkPair(c, cs, surface)
						return
					}
					first := *cs
					first.A = cs.A[:1]
					checkPair(c, &first, surface)
					walk(c, cs, stepPair, func(cs *Case) { checkPair(c, cs, surface) })
				}
			},
		})
	}
	need := []string{"different bands: error", "same band: position", "position in bands 2-4", "position in bands 5-30", "position in bands 31-58", "position in band 59", "position in polar cap",
		"pair across the equator", "pair across the antimeridian"}
	global("C20", false, "One case is one even/odd pair of encodings (made by an independent encoder from two positions) and an arrival order, or four arbitrary values. Non-trivial: the decoded position was compared with the true one, or the error with the bands of the two latitudes; for arbitrary values the result was encoded again.",
		append(need, "arbitrary values: position", "arbitrary values: error", "a walk of small steps"))
	global("C22", true, "One case is one even/odd pair of surface encodings (made by an independent encoder), an arrival order and a reference, or arbitrary values and references. Non-trivial: the decoded position was compared with the true one, or the error with the bands; for arbitrary values the result was encoded again.",
		append(need, "arbitrary values: position", "arbitrary values: error", "reference across the equator", "reference across the antimeridian", "reference across a 90-degree meridian", "a walk of small steps"))

	register(&Prop{
		ID:   "C21",
		Rule: "One case is one encoding (by an independent encoder) and one reference in range, or arbitrary values and a reference. Non-trivial: the decoded position was compared with the true one.",
		Need: []string{"airborne reference across the equator", "surface reference across the equator", "airborne reference across the antimeridian", "surface reference across the antimeridian",
			"airborne reference in another latitude zone", "airborne reference near the limit of range", "surface reference near the limit of range", "airborne reference near half a latitude zone away", "surface reference near half a latitude zone away",
			"airborne reference near half a longitude zone away", "surface reference near half a longitude zone away", "airborne polar cap odd 0", "airborne polar cap odd 1",
			"airborne bands 2-4 odd 1", "surface bands 2-4 odd 0", "airborne band 59 odd 0", "surface band 59 odd 1", "arbitrary values", "arbitrary values with one solution near the reference", "a walk of small steps", "both sides of the middle between two solutions"},
		Blocks: func(th bool) []Block {
			s := 3
			if th {
				s = 80
			}
			var out []Block
			for _, kind := range []string{"airborne", "surface"} {
				kind := kind
				rng, max, part := 160*nm, 90.0, 1.0
				if kind == "surface" {
					rng, max, part = 40*nm, 89, 4
				}
				mk := func(r *Rand, lat, lon float64, emit func(Case)) {
					rl, ro := near(r, lat, lon, rng*0.999)
					if r.N(8) == 0 {
						ro += []float64{360, -360}[r.N(2)]
					}
					emit(Case{K: kind, A: []int64{int64(r.N(2))}, F: []float64{lat, lon, rl, ro}})
				}
				// anywhere in the zone around the position, with its limits
				wide := func(r *Rand, lat, lon float64, emit func(Case)) {
					odd := r.N(2)
					_, _, rl := cprEncode(lat, lon, odd, kind == "surface")
					y := 180 / float64(60-odd) / part
					x := 180 / math.Max(1, float64(nl(rl)-odd)) / part
					u := func() float64 {
						v := r.R(-1, 1)
						switch r.N(3) {
						case 0:
							v = 1 - math.Pow(10, r.R(-4.6, -1))
						case 1:
							v = math.Pow(10, r.R(-4.6, -1)) - 1
						}
						return v * 0.99998
					}
					v, w := u(), u()
					if r.N(4) == 0 {
						v = 0
					}
					if r.N(4) == 0 {
						w = 0
					}
					a, o := lat+v*y, lon+w*x
					if math.Abs(a) > 90 {
						return
					}
					if r.Bool() {
						o = wrap180(o)
					}
					emit(Case{K: kind, A: []int64{int64(odd)}, F: []float64{lat, lon, a, o}})
				}
				out = append(out, Block{kind + " walks of small steps", 512 * s, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 64; k++ {
						lat := genLat(r, 90)
						lon := genLon(r, lat)
						[]func(*Rand, float64, float64, func(Case)){mk, wide}[r.N(2)](r, math.Max(-max, math.Min(max, lat)), lon, func(cs Case) {
							cs.A = append(cs.A, int64(r.U64()>>1))
							emit(cs)
						})
					}
				}}, Block{kind + " references anywhere in the zone", 2048 * s, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 128; k++ {
						lat := genLat(r, 90)
						wide(r, lat, genLon(r, lat), emit)
					}
				}}, Block{kind + " positions", 4096 * s, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 192; k++ {
						lat := genLat(r, max)
						mk(r, lat, genLon(r, lat), emit)
					}
				}}, Block{kind + " every latitude of a zone", 512, func(r *Rand, i int, emit func(Case)) {
					step := 64
					if s > 10 {
						step = 2
					}
					for y := i; y < 131072; y += 512 * step {
						for z := -15; z < 15; z++ {
							lat := 6 * (float64(z) + float64(y)/131072)
							if math.Abs(lat) <= max {
								mk(r, lat, genLon(r, lat), emit)
							}
						}
					}
				}}, Block{kind + " every band transition", 58 * 2 * 4, func(r *Rand, i int, emit func(Case)) {
					t := transitionLat(2 + i%58)
					if i/58%2 == 1 {
						t = -t
					}
					for k := -60 * s; k <= 60*s; k++ {
						lat := t + float64(k)*(360.0/60/131072)/3
						if math.Abs(lat) <= max {
							mk(r, lat, genLon(r, lat), emit)
						}
					}
				}}, Block{kind + " arbitrary values", 2048 * s, func(r *Rand, i int, emit func(Case)) {
					for k := 0; k < 256; k++ {
						lat := genLat(r, 90)
						v := func() int64 {
							if r.N(4) == 0 {
								return r.Pick(0, 1, 131071, 65536, 65535)
							}
							return int64(r.N(131072))
						}
						emit(Case{K: "raw", S: []string{kind}, A: []int64{int64(r.N(2)), v(), v()}, F: []float64{lat, genLon(r, lat)}})
					}
				}})
			}
			return out
		},
		Check: func(c *Ctx, cs *Case) {
			if cs.K == "raw" {
				checkLocalRaw(c, cs)
			} else if len(cs.A) < 2 {
				checkLocal(c, cs)
			} else {
				first := *cs
				first.A = cs.A[:1]
				checkLocal(c, &first)
				r := &Rand{uint64(cs.A[1]) ^ 1}
				for k := 0; k < 2; k++ {
					both := bothSides(r, &first)
					for j := range both {
						if c.fail == "" {
							checkLocal(c, &both[j])
							c.Obs("both sides of the middle between two solutions")
						}
					}
				}
				walk(c, cs, stepLocal, func(cs *Case) { checkLocal(c, cs) })
			}
		},
	})

	register(&Prop{
		ID:   "C23",
		Rule: "One case is two or three points. Non-trivial: the distance was compared with the great circle computed from unit vectors, and symmetry, periodicity, bounds and the triangle inequality were checked.",
		Need: []string{"near antipodal", "identical", "closer than 1 m", "closer than 1 km", "far", "at a pole", "across the antimeridian", "triangle", "a walk of small steps"},
		Blocks: func(th bool) []Block {
			s := 4
			if th {
				s = 200
			}
			return []Block{{"points", 4096 * s, func(r *Rand, i int, emit func(Case)) {
				for k := 0; k < 192; k++ {
					la := genLat(r, 90)
					lo := genLon(r, la)
					var lb, lp float64
					switch r.N(8) {
					case 0: // antipode, or nearly
						lb, lp = -la, wrap180(lo+180)
						switch r.N(4) {
						case 0:
						case 1:
							lb, lp = offsetPoint(lb, lp, r.R(0, 360), r.R(0, 1000))
						case 2:
							lb, lp = offsetPoint(lb, lp, r.R(0, 360), r.R(0, 1e5))
						case 3:
							lb, lp = math.Max(-90, math.Min(90, lb+r.R(-1, 1)*1e-9)), lp+r.R(-1, 1)*1e-9
						}
					case 1:
						lb, lp = la, lo
					case 2:
						lb, lp = offsetPoint(la, lo, r.R(0, 360), math.Pow(10, r.R(-3, 3)))
					case 3:
						lb, lp = offsetPoint(la, lo, r.R(0, 360), math.Pow(10, r.R(0, 7)))
					case 4: // same meridian or parallel
						lb, lp = la, genLon(r, la)
						if r.Bool() {
							lb, lp = genLat(r, 90), lo
						}
					case 5:
						lb, lp = []float64{90, -90, 0}[r.N(3)], genLon(r, 0)
					default:
						lb = genLat(r, 90)
						lp = genLon(r, lb)
					}
					f := []float64{la, lo, lb, lp}
					if r.Bool() {
						lc := genLat(r, 90)
						f = append(f, lc, genLon(r, lc))
					}
					cs := Case{K: "points", F: f}
					if k%8 == 7 {
						cs.A = []int64{int64(r.U64() >> 1)}
					}
					emit(cs)
				}
			}}}
		},
		Check: func(c *Ctx, cs *Case) {
			checkDistance(c, cs)
			if len(cs.A) > 0 {
				walk(c, cs, stepPoints, func(cs *Case) { checkDistance(c, cs) })
			}
		},
	})
}

// globalPair calls the global decoding of a pair; f is the reference of a surface pair.
func globalPair(surface bool, ye, xe, yo, xo int64, last bool, f []float64) (float64, float64, error) {
	if surface {
		return geo.GetCPRSurfaceGlobalPosition(uint32(ye), uint32(xe), uint32(yo), uint32(xo), last, f[0], f[1])
	}
	return geo.GetCPRAirborneGlobalPosition(uint32(ye), uint32(xe), uint32(yo), uint32(xo), last)
}

func distance(f []float64) float64 { return geo.ComputeGroundDistance(f[0], f[1], f[2], f[3]) }
