package main

import (
	_ "embed"
	"encoding/hex"
	"strings"
)

// recorded.txt holds frames received from real traffic (those of /repo/example, each once).
//
//go:embed recorded.txt
var recordedText string

// recordedFrames are the frames, recordedFields what they carry, by length.
var recordedFrames, recordedFields = func() (frames []Bits, fields map[int][]Bits) {
	fields = map[int][]Bits{}
	for _, l := range strings.Fields(recordedText) {
		b, err := hex.DecodeString(l)
		if err != nil {
			panic(err)
		}
		frames = append(frames, b)
		fields[len(b)] = append(fields[len(b)], b)
		if len(b) == 14 {
			fields[7] = append(fields[7], b[4:11])
			if b[0]>>3 == 16 || b[4] == 0x30 {
				fields[6] = append(fields[6], b[5:11])
			}
		}
	}
	return
}()

// recorded is one of the recorded frames or fields of a length, or nil.
func recorded(r *Rand, n int) Bits {
	l := recordedFields[n]
	if len(l) == 0 {
		return nil
	}
	return clone(l[r.N(len(l))])
}
