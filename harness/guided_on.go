//go:build guided

package main

import "unsafe"

// The code under test is compiled with -gcflags='github.com/twuillemin/modes/...=-d=libfuzzer': its edges count in 8-bit
// counters between internal/fuzz._counters and _ecounters, and its integer and string comparisons call the functions below,
// which do not move the stack.

//go:linkname libfuzzerTraceCmp1 runtime.libfuzzerTraceCmp1
//go:linkname libfuzzerTraceCmp2 runtime.libfuzzerTraceCmp2
//go:linkname libfuzzerTraceCmp4 runtime.libfuzzerTraceCmp4
//go:linkname libfuzzerTraceCmp8 runtime.libfuzzerTraceCmp8
//go:linkname libfuzzerTraceConstCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname libfuzzerTraceConstCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname libfuzzerTraceConstCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname libfuzzerTraceConstCmp8 runtime.libfuzzerTraceConstCmp8
//go:linkname libfuzzerHookStrCmp runtime.libfuzzerHookStrCmp
//go:linkname libfuzzerHookEqualFold runtime.libfuzzerHookEqualFold

//go:nosplit
func libfuzzerTraceCmp1(a, b uint8, pc uint) { cmpFeature(uint64(a), uint64(b), pc) }

//go:nosplit
func libfuzzerTraceCmp2(a, b uint16, pc uint) { cmpFeature(uint64(a), uint64(b), pc) }

//go:nosplit
func libfuzzerTraceCmp4(a, b uint32, pc uint) { cmpFeature(uint64(a), uint64(b), pc) }

//go:nosplit
func libfuzzerTraceCmp8(a, b uint64, pc uint) { cmpFeature(a, b, pc) }

//go:nosplit
func libfuzzerTraceConstCmp1(a, b uint8, pc uint) { cmpFeature(uint64(a), uint64(b), pc) }

//go:nosplit
func libfuzzerTraceConstCmp2(a, b uint16, pc uint) { cmpFeature(uint64(a), uint64(b), pc) }

//go:nosplit
func libfuzzerTraceConstCmp4(a, b uint32, pc uint) { cmpFeature(uint64(a), uint64(b), pc) }

//go:nosplit
func libfuzzerTraceConstCmp8(a, b uint64, pc uint) { cmpFeature(a, b, pc) }

//go:nosplit
func libfuzzerHookEqualFold(a, b string, pc uint) { libfuzzerHookStrCmp(a, b, pc) }

//go:nosplit
func libfuzzerHookStrCmp(a, b string, pc uint) {

	if !featuresOn {
		return
	}
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	feature(mix(uint64(pc), 3, uint64(n)))
}

//go:linkname _counters internal/fuzz._counters
//go:linkname _ecounters internal/fuzz._ecounters
var _counters, _ecounters [0]byte

// edgeCounters are the counters of the edges of the code under test.
func edgeCounters() []byte {
	a := unsafe.Pointer(&_counters)
	return unsafe.Slice((*byte)(a), int(uintptr(unsafe.Pointer(&_ecounters))-uintptr(a)))
}
