//go:build !covfuzz

package cover

// Enabled tells whether the build is instrumented.
const Enabled = false

// Counters are the edge counters of the library.
func Counters() []byte { return nil }
