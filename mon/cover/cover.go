// Package cover reads the edge counters and comparison traces of a build whose library is instrumented
// (go build -gcflags=...=-d=libfuzzer), and is inert in other builds.
package cover

const (
	featureSize = 1 << 14
	constSize   = 1 << 14
	strSize     = 1 << 8
)

var (
	// On switches the tracing of comparisons on.
	On bool
	// Features are the hashed (comparison, distance) pairs seen.
	Features [featureSize]byte
	// Consts counts the small numbers compared with.
	Consts  [constSize]byte
	ring    [strSize][2]text
	strNext uint
)

type text struct {
	n int
	b [100]byte
}

// Strings are two of the last strings compared.
func Strings(k int) (a, b string) {
	p := &ring[k&(strSize-1)]
	return string(p[0].b[:p[0].n]), string(p[1].b[:p[1].n])
}
