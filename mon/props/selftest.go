package props

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/mon/dump"
	"verif/mon/gen"
	"verif/mon/ref"
)

// SelfTest checks the two independent oracles, the generator's record and the reference parser, against each
// other without running the library.
func SelfTest(seed int64) int {
	r := rand.New(rand.NewSource(seed))
	bad := 0
	for i := 0; i < 20000 && bad < 5; i++ {
		f := gen.New(r, gen.Default(i%3 != 0))
		src := gen.Render(r, f.Toks, gen.RandLayout(r, true))
		for _, strict := range []bool{false, true} {
			if strict && f.Ext > 0 {
				continue
			}
			res := ref.Parse(src, ref.Config{Strict: strict})
			if !res.OK() {
				bad++
				lo, _ := res.ErrRange()
				fmt.Printf("case %d: the reference rejects a generated file at %d: %q\n%q\n", i, lo, clip(src[lo:], 100), clip(src, 3000))
				continue
			}
			f.Want.Meta = res.Proto.Meta
			if d := dump.Diff(f.Want, res.Proto, dump.Structure); d != "" {
				bad++
				fmt.Printf("case %d: record != reference: %s\n%q\n", i, d, clip(src, 3000))
			}
			if got := strings.Join(sourceTokens(src), "\x01"); got != strings.Join(sourceTokens(gen.Plain(f.Toks)), "\x01") {
				bad++
				fmt.Printf("case %d: the layout joins tokens\n%q\n", i, clip(src, 3000))
			}
		}
	}
	if bad > 0 {
		return 1
	}
	fmt.Println("oracles agree")
	return 0
}
