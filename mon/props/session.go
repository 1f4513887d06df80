package props

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verif/mon/cover"
	"verif/mon/gen"
	"verif/mon/ref"
)

// A session runs the random cases of a monitor many times with sources that are mutants of earlier ones which
// reached something new in the instrumented library: an edge, another number of times over an edge, or a closer
// comparison. A session depends on nothing but its seed.
type session struct {
	pool []string
	seen []byte
	feat [len(cover.Features)]byte
	cur  string
	news int
}

// sessions is the number of guided sessions of a monitor.
func sessions(tier string) int {
	if !cover.Enabled {
		return 0
	}
	if tier == "thorough" {
		return 64
	}
	return 8
}

func (p *Prop) total(tier string) int {
	n := p.Cases(tier)
	if p.Guided {
		n += sessions(tier)
	}
	return n
}

// Total is the number of cases with the guided sessions.
func (p *Prop) Total(tier string) int { return p.total(tier) }

func (p *Prop) run(c *Ctx) {
	base := p.Cases(c.Tier)
	if c.Index < base {
		p.Run(c)
		return
	}
	s := &session{seen: make([]byte, len(cover.Counters()))}
	for _, k := range kitchens {
		s.pool = append(s.pool, k)
	}
	c.session = s
	first := 0
	if p.First != nil {
		first = p.First()
	}
	t0 := time.Now()
	limit := 12 * time.Second
	if c.Thorough() {
		limit = 40 * time.Second
	}
	n := 0
	cover.On = true
	defer func() { cover.On = false }()
	for time.Since(t0) < limit {
		c.Index = first + c.Intn(base-first)
		p.Run(c)
		n++
	}
	s.note()
	c.Event("guided iterations", n)
	c.Event("guided sources kept for what they reached", s.news)
	if len(c.Edges) < len(s.seen) {
		c.Edges = append(c.Edges, make([]byte, len(s.seen)-len(c.Edges))...)
	}
	for i, b := range s.seen {
		c.Edges[i] |= b
	}
}

var buckets = func() (t [256]byte) {
	for i := 1; i < 256; i++ {
		b := 0
		for k := i; k > 1; k >>= 1 {
			b++
		}
		t[i] = 1 << min(b, 7)
	}
	return
}()

// note attributes what was reached since the last call to the last source drawn.
func (s *session) note() {
	news := false
	for i, b := range cover.Counters() {
		if b != 0 {
			if s.seen[i]&buckets[b] == 0 {
				s.seen[i] |= buckets[b]
				news = true
			}
		}
	}
	clear(cover.Counters())
	for i, b := range cover.Features {
		if b > s.feat[i] {
			s.feat[i] = b
			news = true
		}
	}
	clear(cover.Features[:])
	if news && s.cur != "" && len(s.cur) < 8000 && len(s.pool) < 4000 {
		s.pool = append(s.pool, s.cur)
		s.news++
	}
}

// drawn tells the session what source is looked at next.
func (c *Ctx) drawn(src string) string {
	if c.session != nil {
		c.session.note()
		c.session.cur = src
	}
	return src
}

// guided draws a mutant of an interesting source.
func (c *Ctx) guided() (string, bool) {
	s := c.session
	if s == nil || c.Intn(5) == 0 {
		return "", false
	}
	src := c.fromPool()
	for n := 1 + c.Intn(3); n > 0; n-- {
		src = c.mutant(src)
	}
	if limit := []int{1500, 6000, 20000}[c.Intn(10)/4]; len(src) > limit {
		src = src[:limit]
	}
	return c.drawn(src), true
}

func (c *Ctx) fromPool() string {
	p := c.session.pool
	if c.Intn(2) == 0 && len(p) > 30 {
		p = p[len(p)-30:]
	}
	a, b := p[c.Intn(len(p))], p[c.Intn(len(p))]
	if len(b) < len(a) && c.Intn(4) != 0 {
		return b
	}
	return a
}

// chunk finds a statement or a balanced run in a token sequence.
func chunk(r *rand.Rand, toks []ref.Tok) (lo, hi int) {
	var starts []int
	for i := range toks {
		if i == 0 || strings.Contains(";{}[,(", toks[i-1].Text) {
			starts = append(starts, i)
		}
	}
	if len(starts) == 0 {
		return 0, 0
	}
	lo = starts[r.Intn(len(starts))]
	depth := 0
	for hi = lo; hi < len(toks); hi++ {
		switch toks[hi].Text {
		case "{", "[", "(":
			depth++
		case "}", "]", ")":
			if depth--; depth < 0 {
				return lo, hi
			}
			if depth == 0 && toks[hi].Text == "}" {
				return lo, hi + 1
			}
		case ";", ",":
			if depth == 0 {
				return lo, hi + 1
			}
		}
	}
	return lo, hi
}

// text is the source of the tokens lo to hi, with what stands between them.
func textOf(src string, toks []ref.Tok, lo, hi int) (int, int) {
	if lo >= hi || lo >= len(toks) {
		return 0, 0
	}
	return toks[lo].Start, toks[hi-1].End
}

func (c *Ctx) sizeOfInterest(max int) int {
	for i := 0; i < 20; i++ {
		k := c.Intn(len(cover.Consts))
		if c.Intn(2) == 0 {
			k = 3 + c.Intn(300)
		}
		if cover.Consts[k] > 0 || i > 15 {
			if k += c.Intn(3) - 1; 0 < k && k <= max {
				return k
			}
		}
	}
	if len(gen.Dict.Sizes) > 0 {
		if k := gen.Dict.Sizes[c.Intn(len(gen.Dict.Sizes))] + c.Intn(3) - 1; 0 < k && k <= max {
			return k
		}
	}
	return 1 + c.Intn(min(max, 40))
}

// mutant changes a source in one place.
func (c *Ctx) mutant(src string) string {
	all, _ := ref.Tokens(src)
	toks := all[:0:0]
	for _, t := range all {
		if t.Start < t.End {
			toks = append(toks, t)
		}
	}
	if len(toks) == 0 {
		return gen.MutateBytes(c.Rand, src)
	}
	put := func(lo, hi int, s string) string { return src[:lo] + s + src[hi:] }
	i := c.Intn(len(toks))
	t := toks[i]
	switch c.Intn(16) {
	case 0, 1:
		return gen.MutateBytes(c.Rand, src)
	case 2, 3: // another token in its place
		w := toks[c.Intn(len(toks))]
		s := src[w.Start:w.End]
		switch c.Intn(3) {
		case 0:
			s = editVocabulary[c.Intn(len(editVocabulary))]
		case 1:
			if len(gen.Dict.Tokens) > 0 {
				s = gen.Dict.Tokens[c.Intn(len(gen.Dict.Tokens))]
			}
		}
		switch c.Intn(3) {
		case 0:
			return put(t.Start, t.Start, s+" ")
		case 1:
			return put(t.Start, t.End, s)
		}
		return put(t.Start, t.End, " "+s+" ")
	case 4: // a chunk elsewhere
		a, b := chunk(c.Rand, toks)
		lo, hi := textOf(src, toks, a, b)
		if lo < hi {
			return put(t.Start, t.Start, src[lo:hi]+" ")
		}
	case 5, 6: // a chunk once more, or without, or many times
		a, b := chunk(c.Rand, toks)
		lo, hi := textOf(src, toks, a, b)
		if lo < hi {
			s := src[lo:hi]
			switch c.Intn(6) {
			case 0:
				return put(lo, hi, "")
			case 1:
				if n := c.sizeOfInterest(300); n*len(s) < 15000 {
					return put(lo, lo, strings.Repeat(s+" ", n))
				}
			}
			return put(lo, lo, s+" ")
		}
	case 7, 8: // a chunk of another source
		o := c.fromPool()
		ot, _ := ref.Tokens(o)
		a, b := chunk(c.Rand, ot)
		lo, hi := textOf(o, ot, a, b)
		if lo < hi {
			// Behind a statement.
			a, b = chunk(c.Rand, toks)
			at := t.Start
			if l, h := textOf(src, toks, a, b); l < h && c.Intn(4) != 0 {
				at = h
			}
			return put(at, at, " "+o[lo:hi]+" ")
		}
	case 9, 10: // what the library compared with
		for k := 0; k < 20; k++ {
			a, b := cover.Strings(c.Intn(1 << 8))
			if c.Intn(2) == 0 {
				a, b = b, a
			}
			if a == "" {
				continue
			}
			if n := strings.Count(src, a); n > 0 {
				k := c.Intn(n)
				at := 0
				for ; ; k-- {
					j := strings.Index(src[at:], a)
					if j < 0 {
						break
					}
					at += j
					if k == 0 {
						return put(at, at+len(a), b)
					}
					at += len(a)
				}
			}
		}
	case 11: // a long token or gap
		n := c.sizeOfInterest(5000)
		switch s := src[t.Start:t.End]; {
		case s[0] == '"' || s[0] == '\'':
			return put(t.Start+1, t.Start+1, strings.Repeat([]string{"a", "é", " ", "\\n"}[c.Intn(4)], n))
		case c.Intn(3) == 0:
			return put(t.Start, t.Start, strings.Repeat([]string{" ", "\n", "\t", "\r\n", "// c\n", "/* c */"}[c.Intn(6)], n))
		case s[0] == '_' || s[0]|32 >= 'a' && s[0]|32 <= 'z':
			return put(t.End, t.End, strings.Repeat("a", n))
		case s[0] >= '1' && s[0] <= '9':
			return put(t.End, t.End, strings.Repeat("0", n))
		}
	case 12: // a comment
		return put(t.Start, t.Start, gen.Comment(c.Rand))
	case 13: // a statement
		return put(t.Start, t.Start, spliceStatements[c.Intn(len(spliceStatements))]+" ")
	case 14: // neighbours change places
		if i+1 < len(toks) {
			u := toks[i+1]
			return src[:t.Start] + src[u.Start:u.End] + src[t.End:u.Start] + src[t.Start:t.End] + src[u.End:]
		}
	case 15: // another layout
		var ts []string
		for _, t := range toks {
			if t.Bad {
				return src
			}
			ts = append(ts, src[t.Start:t.End])
		}
		if len(ts) > 0 && ts[0] == "\ufeff" {
			ts = ts[1:]
		}
		return gen.Render(c.Rand, ts, gen.RandLayout(c.Rand, true))
	}
	return src
}

// EdgeSummary renders the edges reached.
func (s *Stats) EdgeSummary() string {
	n := 0
	for _, b := range s.Edges {
		if b != 0 {
			n++
		}
	}
	return fmt.Sprintf("%d of %d", n, len(s.Edges))
}
