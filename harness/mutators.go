package main

import "math"

// mutators of the guided phase, by property: false means the case is of a kind that is not mutated.

func keepBits(b Bits, a, z int, f func()) {
	v := b.U(a, z)
	f()
	b.Set(a, z, v)
}

// keepCode puts the first five bits back when f leaves a code which is none of those.
func keepCode(b Bits, f func(), codes ...int64) {
	v := b.U(1, 5)
	f()
	w := b.U(1, 5)
	for _, c := range codes {
		if w == c {
			return
		}
	}
	b.Set(1, 5, v)
}

func donorD(donor *Case) []byte {
	if donor == nil {
		return nil
	}
	return donor.D
}

// mutFrame mutates a whole frame; now and then its parity becomes right again.
func mutFrame(r *Rand, cs, donor *Case) bool {
	mutBytes(r, cs.D, donorD(donor))
	if r.N(8) == 0 {
		mutLen(r, cs)
	}
	return true
}

func reseal(r *Rand, d []byte) {
	if len(d) < 7 {
		return
	}
	switch r.N(4) {
	case 0:
	case 1:
		seal(d, uint32(r.U64()&0xFFFFFF))
	case 2:
		seal(d, uint32(r.N(128)))
	default:
		seal(d, 0)
	}
}

// mutEntry mutates the content given to an ADS-B entry or to a register's reader.
func mutEntry(r *Rand, cs, donor *Case) bool {
	b := Bits(cs.D)
	if len(b) < 6 {
		return false
	}
	tc := b.U(1, 5)
	mutBytes(r, b, donorD(donor))
	if adsbEntries[cs.K] != nil {
		if forced == nil && r.N(4) == 0 && len(cs.A) == 3 {
			copy(cs.A, optCombos[r.N(len(optCombos))])
		}
		switch cs.K {
		case "type0":
			b.Set(1, 5, 0)
		case "nopos":
			b.Set(1, 5, 0)
			if len(b) == 7 {
				b.Set(21, 56, 0)
			}
		default:
			if forced == nil && r.N(8) > 0 {
				b.Set(1, 5, tc)
			}
		}
	}
	return true
}

// mutCoord moves a coordinate: a little, to a round value, or anywhere.
func mutCoord(r *Rand, v, max float64) float64 {
	switch r.N(8) {
	case 0:
		v = math.Nextafter(v, v+float64(r.N(3)-1))
	case 1:
		v += r.R(-1, 1) * math.Pow(10, r.R(-9, 1))
	case 2:
		v = math.Round(v*4) / 4
	case 3:
		v = -v
	case 4:
		v = math.Round(v)
	case 5:
		if len(floatWords) > 0 {
			v = floatWords[r.N(len(floatWords))]
			if r.Bool() {
				v = -v
			}
			if r.Bool() {
				v += r.R(-1, 1) * math.Pow(10, r.R(-9, -1))
			}
		}
	case 6:
		v = math.Round(v/(360.0/60/131072)) * (360.0 / 60 / 131072)
	default:
		v = r.R(-max, max)
	}
	if !(math.Abs(v) <= max) {
		v = r.R(-max, max)
	}
	return v
}

// forcedNumber makes the change of a number which the guided phase asks for.
func forcedNumber(a []int64) bool {
	f := forced
	if f != nil && f.arg < len(a) {
		a[f.arg] = (a[f.arg] ^ int64(f.from^f.to)) & 131071
	}
	return f != nil
}

func mut17(r *Rand, v int64) int64 {
	switch r.N(6) {
	case 0:
		v ^= 1 << uint(r.N(17))
	case 1:
		v += int64(r.N(9)) - 4
	case 2:
		v = r.Pick(0, 1, 2, 65535, 65536, 65537, 131070, 131071, 43690, 43691, 21845, 98304, 32768)
	case 3:
		if len(intWords) > 0 {
			v = intWords[r.N(len(intWords))] + int64(r.N(3)) - 1
		}
	default:
		v = int64(r.N(131072))
	}
	return v & 131071
}

func mutPair(surface bool) func(r *Rand, cs, donor *Case) bool {
	sep, rng, max := 3*nm, 0.0, 90.0
	if surface {
		sep, rng = 0.75*nm, 40*nm
	}
	return func(r *Rand, cs, donor *Case) bool {
		f := cs.F
		switch cs.K {
		case "pair":
			if r.N(4) == 0 {
				cs.A[0] ^= 1
			}
			if r.Bool() {
				f[0] = mutCoord(r, f[0], max)
			}
			if r.Bool() {
				f[1] = mutCoord(r, f[1], 180)
			}
			f[2], f[3] = f[0], f[1]
			if r.N(4) > 0 {
				f[2], f[3] = near(r, f[0], f[1], sep)
			}
			if math.Abs(f[2]) > max {
				f[2], f[3] = f[0], f[1]
			}
			if surface {
				rl, ro := f[2], f[3]
				if cs.A[0] == 1 {
					rl, ro = f[0], f[1]
				}
				f[4], f[5] = near(r, rl, ro, rng*0.998)
			}
		case "raw":
			k := r.N(len(cs.A))
			if forcedNumber(cs.A) {
				break
			}
			if k == 0 {
				cs.A[0] ^= 1
			} else {
				cs.A[k] = mut17(r, cs.A[k])
			}
			if r.N(4) == 0 && len(f) >= 2 {
				f[0], f[1] = mutCoord(r, f[0], 90), mutCoord(r, f[1], 180)
			}
		default:
			return false
		}
		return true
	}
}

func mutLocal(r *Rand, cs, donor *Case) bool {
	f := cs.F
	if cs.K == "raw" && forcedNumber(cs.A) {
		return true
	}
	if r.N(4) == 0 {
		cs.A[0] ^= 1
	}
	switch cs.K {
	case "airborne", "surface":
		rng := 160 * nm
		if cs.K == "surface" {
			rng = 40 * nm
		}
		if r.Bool() {
			f[0] = mutCoord(r, f[0], 90)
		}
		if r.Bool() {
			f[1] = mutCoord(r, f[1], 180)
		}
		f[2], f[3] = near(r, f[0], f[1], rng*0.999)
	case "raw":
		k := 1 + r.N(2)
		cs.A[k] = mut17(r, cs.A[k])
		if r.Bool() {
			f[0], f[1] = mutCoord(r, f[0], 90), mutCoord(r, f[1], 180)
		}
	default:
		return false
	}
	return true
}

func mutPoints(r *Rand, cs, donor *Case) bool {
	for n := 1 + r.N(3); n > 0; n-- {
		k := r.N(len(cs.F))
		if k%2 == 0 {
			cs.F[k] = mutCoord(r, cs.F[k], 90)
		} else {
			cs.F[k] = mutCoord(r, cs.F[k], 180)
		}
		if r.N(8) == 0 {
			j := r.N(len(cs.F)/2) * 2
			i := r.N(len(cs.F)/2) * 2
			cs.F[i], cs.F[i+1] = cs.F[j], cs.F[j+1]
		}
	}
	return true
}

func init() {
	mutators := map[string]func(r *Rand, cs, donor *Case) bool{
		"C01": mutFrame,
		"C02": mutFrame,
		"C03": func(r *Rand, cs, donor *Case) bool {
			if cs.K == "corrupt" {
				cs.K = "parity"
			}
			mutBytes(r, cs.D, donorD(donor))
			reseal(r, cs.D)
			if len(cs.A) > 2 && r.N(4) == 0 {
				cs.A[0], cs.A[1] = int64(r.N(16)), int64(r.N(5))
				cs.A[2+r.N(len(cs.A)-2)] = int64(r.U64() & 0xFFFFFF)
			}
			return true
		},
		"C04": func(r *Rand, cs, donor *Case) bool {
			if cs.K != "alt13" && cs.K != "alt12" {
				return false
			}
			if cs.K == "alt12" {
				if forced == nil && r.N(8) == 0 {
					cs.A[0], cs.A[1] = int64(r.N(3)), int64(r.N(2))
				}
				keepCode(cs.D, func() { mutBytes(r, cs.D, donorD(donor)) }, append([]int64{0}, airborneTC...)...)
			} else if len(cs.D) == 7 {
				keepCode(cs.D, func() { mutBytes(r, cs.D, donorD(donor)) }, 0, 4)
			} else {
				keepCode(cs.D, func() { mutBytes(r, cs.D, donorD(donor)) }, 16, 20)
			}
			return true
		},
		"C05": func(r *Rand, cs, donor *Case) bool {
			switch cs.K {
			case "id":
				keepBits(cs.D, 1, 5, func() { mutBytes(r, cs.D, donorD(donor)) })
			case "pack2", "pack3", "pack4":
				mutBytes(r, cs.D, donorD(donor))
			default:
				return false
			}
			return true
		},
		"C07": func(r *Rand, cs, donor *Case) bool {
			if cs.K == "bounds" {
				return false
			}
			codes := append([]int64{0, 5, 6, 7, 8}, airborneTC...)
			switch cs.K {
			case "type0", "nopos":
				codes = codes[:1]
			case "adsb":
			default:
				if codes = codes[1:5]; cs.K[0] == 'a' {
					codes = airborneTC
				}
			}
			keepCode(cs.D, func() { mutEntry(r, cs, donor) }, codes...)
			return true
		},
		"C14": func(r *Rand, cs, donor *Case) bool {
			switch cs.K {
			case "ra", "same":
				mutBytes(r, cs.D, donorD(donor))
			case "df16":
				f := Bits(cs.D)
				if len(f) != 14 {
					return false
				}
				mutBytes(r, f[5:11], nil)
			default:
				return mutEntry(r, cs, donor)
			}
			return true
		},
		"C18": func(r *Rand, cs, donor *Case) bool { mutBytes(r, cs.D, donorD(donor)); return true },
		"C20": mutPair(false),
		"C21": mutLocal,
		"C22": mutPair(true),
		"C23": mutPoints,
		"C24": func(r *Rand, cs, donor *Case) bool {
			if cs.K == "nil" {
				return false
			}
			mutBytes(r, cs.D, donorD(donor))
			mutLen(r, cs)
			if len(cs.D) > 4096 {
				cs.D = cs.D[:4096]
			}
			if r.N(8) == 0 && cs.K == "read" {
				cs.A = []int64{r.Pick(0, 1, 2, 3, 255), int64(r.N(2)), int64(r.N(2))}
			}
			return true
		},
		"C26": func(r *Rand, cs, donor *Case) bool {
			if cs.K != "codes" && cs.K != "random" {
				return false
			}
			mutBytes(r, cs.D, donorD(donor))
			if forced == nil && r.N(4) == 0 && len(cs.A) == 3 {
				copy(cs.A, optCombos[r.N(len(optCombos))])
			}
			return true
		},
	}
	for _, id := range []string{"C06", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C19"} {
		mutators[id] = mutEntry
	}
	mutatorsOf = mutators
}

var mutatorsOf map[string]func(r *Rand, cs, donor *Case) bool
