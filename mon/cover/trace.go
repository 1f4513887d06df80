//go:build covfuzz

package cover

import (
	"math/bits"
	"unsafe"
)

// Enabled tells whether the build is instrumented.
const Enabled = true

//go:linkname traceCmp1 runtime.libfuzzerTraceCmp1
//go:linkname traceCmp2 runtime.libfuzzerTraceCmp2
//go:linkname traceCmp4 runtime.libfuzzerTraceCmp4
//go:linkname traceCmp8 runtime.libfuzzerTraceCmp8
//go:linkname traceConstCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname traceConstCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname traceConstCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname traceConstCmp8 runtime.libfuzzerTraceConstCmp8
//go:linkname hookStrCmp runtime.libfuzzerHookStrCmp
//go:linkname hookEqualFold runtime.libfuzzerHookEqualFold

//go:nosplit
func traceCmp1(a, b uint8, pc uint) {}

//go:nosplit
func traceCmp2(a, b uint16, pc uint) {}

//go:nosplit
func traceCmp4(a, b uint32, pc uint) {}

//go:nosplit
func traceCmp8(a, b uint64, pc uint) {
	if On {
		feature(pc, uint(bits.Len64(a^b)))
	}
}

//go:nosplit
func traceConstCmp1(a, b uint8, pc uint) {}

//go:nosplit
func traceConstCmp2(a, b uint16, pc uint) {}

//go:nosplit
func traceConstCmp4(a, b uint32, pc uint) {}

//go:nosplit
func traceConstCmp8(a, b uint64, pc uint) {
	if !On {
		return
	}
	feature(pc, uint(bits.Len64(a^b)))
	for _, k := range [2]uint64{a, b} {
		if k > 2 && k < constSize && Consts[k] < 255 {
			Consts[k]++
		}
	}
}

//go:nosplit
func feature(pc, v uint) {
	Features[(pc*131+v*7919)&(featureSize-1)] = 1
}

func hookStrCmp(a, b string, pc uint) {
	if On && a != "" && b != "" && len(a) < 100 && len(b) < 100 {
		// The strings may live on the stack of the caller.
		p := &ring[strNext&(strSize-1)]
		p[0].n = copy(p[0].b[:], a)
		p[1].n = copy(p[1].b[:], b)
		strNext++
		n := 0
		for n < len(a) && n < len(b) && a[n] == b[n] {
			n++
		}
		feature(pc, uint(1000+n))
	}
}

func hookEqualFold(a, b string, pc uint) { hookStrCmp(a, b, pc) }

//go:linkname counters internal/fuzz._counters
//go:linkname ecounters internal/fuzz._ecounters
var counters, ecounters [0]byte

// Counters are the edge counters of the library.
func Counters() []byte {
	p := unsafe.Pointer(&counters)
	return unsafe.Slice((*byte)(p), uintptr(unsafe.Pointer(&ecounters))-uintptr(p))
}
