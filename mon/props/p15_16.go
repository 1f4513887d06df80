package props

import (
	"fmt"
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"

	"verif/mon/gen"
	"verif/mon/ref"
)

// lexText draws an input for the lexer.
func (c *Ctx) lexText() string {
	s := ""
	switch c.Intn(4) {
	case 0:
		s = c.source(true)
	case 1:
		var b strings.Builder
		for n := c.Intn(40); n > 0; n-- {
			b.WriteString(atoms[c.Intn(len(atoms))])
			if c.Intn(20) == 0 {
				b.WriteString(gen.Special(c.Rand))
			}
			if c.Intn(3) == 0 {
				b.WriteString(lexGaps[c.Intn(len(lexGaps))])
			}
		}
		s = b.String()
	case 2:
		var b strings.Builder
		for n := c.Intn(60); n > 0; n-- {
			if c.Intn(15) == 0 {
				b.WriteString(gen.Special(c.Rand))
				continue
			}
			b.WriteString(lexBits[c.Intn(len(lexBits))])
		}
		s = b.String()
	default:
		s = c.layoutSource(true)
	}
	if len(s) > 1200 {
		k := c.Intn(len(s) - 1000)
		s = s[k : k+1000]
	}
	if c.session == nil && c.Intn(12) == 0 { // up to where some buffer may end
		bits := 6 + c.Intn(9)
		if c.Intn(30) == 0 {
			bits = 15 + c.Intn(3)
		}
		n := 1<<bits - c.Intn(40)
		switch c.Intn(4) {
		case 0:
			s = strings.Repeat(" ", n) + s
		case 1:
			s = "/*" + strings.Repeat("x", n) + "*/" + s
		case 2:
			s = "\"" + strings.Repeat("é", n/2) + "\"" + s
		case 3:
			s = "a" + strings.Repeat("b", n) + " " + s
		}
	}
	return c.drawn(strings.ToValidUTF8(s, "?"))
}

var lexGaps = []string{" ", "\n", "\t", "\r\n", "  ", "/*c*/", "//d\n", "\u00a0", "\u2003", "/* é */ "}

var lexBits = strings.Split("0|1|7|8|9|a|e|E|x|X|f|_|.|.|-|+|\"|'|\"|\\|/|*|//|/*|*/|\n|\r| |é|日|😀|true|inf|nan|0x|1e|1.|;|{|}|\x00|\ufeff|\ufffd|\u2028|\u00a0|\\x1|\\0|\\\"|\\'|message|to", "|")

// P15: histories of lexer calls against a model that is a cursor into the source.

type lexModel struct {
	c   *Ctx
	src string
	l   *lexer.Lexer
	ln  *ref.Lines
	off int
	// history of consumed offsets, for pushing back
	log []string
	bad bool
	// what the error callback was given
	calls   int
	lastErr error
	// calls before the call to be judged
	judged int
}

// watch sets the error callback.
func (m *lexModel) watch() {
	m.l.Error = func(l *lexer.Lexer, err error) {
		if l != m.l || err == nil {
			m.fail("the error callback is called with lexer %p (of %p) and error %v", l, m.l, err)
		}
		m.calls++
		m.lastErr = err
		m.c.Event("error callbacks", 1)
	}
}

var lexModes = []struct {
	name string
	mode scanner.Mode
	call func(l *lexer.Lexer)
}{
	{"Next", 0, (*lexer.Lexer).Next},
	{"NextKeywordOrStrLit", scanner.ScanKeyword | scanner.ScanStrLit, (*lexer.Lexer).NextKeywordOrStrLit},
	{"NextKeyword", scanner.ScanKeyword, (*lexer.Lexer).NextKeyword},
	{"NextStrLit", scanner.ScanStrLit, (*lexer.Lexer).NextStrLit},
	{"NextLit", scanner.ScanLit, (*lexer.Lexer).NextLit},
	{"NextNumberLit", scanner.ScanNumberLit, (*lexer.Lexer).NextNumberLit},
	{"NextComment", scanner.ScanComment, (*lexer.Lexer).NextComment},
}

func (m *lexModel) fail(format string, a ...any) {
	n := max(0, len(m.log)-25)
	m.c.input = m.src
	m.c.Fail("%s\nat offset %d after the calls %v", fmt.Sprintf(format, a...), m.off, m.log[n:])
}

func (m *lexModel) pos(what string, off int) {
	if m.l.Pos.Position != m.ln.At(off) {
		m.fail("%s: position %+v instead of %+v", what, m.l.Pos.Position, m.ln.At(off))
	}
}

// judge checks the token that the lexer shows against the model's at m.off and returns the end of it.
func (m *lexModel) judge(what string, mode scanner.Mode) int {
	t := ref.Scan(m.src, m.off, mode)
	l := m.l
	raw := string(l.RawText)
	if !strings.HasPrefix(m.src[m.off:], raw) {
		m.fail("%s: raw text %q is not what follows: %q", what, raw, clip(m.src[m.off:], 40))
	}
	end := m.off + len(raw)
	m.pos(what, t.Start)
	if t.Bad {
		if l.Token == scanner.TDOT && t.Alt && l.Text == "." {
			return end
		}
		if l.Token != scanner.TILLEGAL {
			m.fail("%s: token %v for a malformed one", what, l.Token)
		}
		m.bad = true
		if l.LatestErr() == nil {
			m.fail("%s: no error for a malformed token", what)
		}
		if m.calls == m.judged {
			m.fail("%s: the error callback is not called for a malformed token", what)
		}
		if end <= t.Start {
			m.fail("%s: no progress over a malformed token", what)
		}
		m.c.Event("malformed tokens", 1)
		return end
	}
	if l.Token != t.Kind || l.Text != t.Text {
		m.fail("%s: token %v %q instead of %v %q", what, l.Token, l.Text, t.Kind, t.Text)
	}
	if end != t.Next && end != t.End {
		m.fail("%s: raw text %q instead of %q", what, raw, m.src[m.off:t.Next])
	}
	if l.IsEOF() != (t.Kind == scanner.TEOF) {
		m.fail("%s: IsEOF is %v", what, l.IsEOF())
	}
	m.c.Event(fmt.Sprintf("token kind %d", t.Kind), 1)
	return end
}

// next scans in a random mode.
func (m *lexModel) next() {
	k := lexModes[m.c.Intn(len(lexModes))]
	m.log = append(m.log, k.name)
	m.judged = m.calls
	k.call(m.l)
	m.off = m.judge(k.name, k.mode)
	m.c.Event("op "+k.name, 1)
}

// peekAt is the kind of the n-th token from off in the plain mode, with the model's own idea of what malformed
// tokens consume left out: ok is false behind one.
func (m *lexModel) peekAt(n int) (k scanner.Token, ok bool) {
	off := m.off
	for i := 0; i < n; i++ {
		t := ref.Scan(m.src, off, 0)
		k = t.Kind
		if t.Bad {
			m.bad = true
			return k, i == n-1
		}
		off = t.Next
	}
	return k, true
}

func p15run(c *Ctx) {
	for i := 0; i < 3; i++ {
		src := c.lexText()
		c.input = src
		fn := filenames[c.Intn(3)]
		m := &lexModel{c: c, src: src, l: lexer.NewLexer(strings.NewReader(src), lexer.WithFilename(fn)), ln: ref.NewLines(src, fn)}
		m.watch()
		n := 60 + c.Intn(150)
		for j := 0; j < n; j++ {
			m.op()
		}
		// Read the rest to its end: everything must still be there.
		for j := 0; j < len(src)+2 && m.off < len(src); j++ {
			m.next()
		}
		c.Eval(len(src) > 3, src+"\x00"+strings.Join(m.log, " "))
	}
}

// count is how many tokens a call is about: mostly few.
func (m *lexModel) count() int {
	if m.c.Intn(12) == 0 {
		return gen.Length(m.c.Rand, 150)
	}
	return 1 + m.c.Intn(6)
}

func (m *lexModel) op() {
	c := m.c
	m.judged = m.calls
	switch c.Intn(12) {
	case 0, 1, 2:
		m.next()
	case 3, 4:
		before := m.off
		m.next()
		m.log = append(m.log, "UnNext")
		m.l.UnNext()
		m.off = before
		m.pos("UnNext", m.off)
		c.Event("op UnNext", 1)
	case 5, 6:
		want, ok := m.peekAt(1)
		m.log = append(m.log, "Peek")
		got := m.l.Peek()
		if t := ref.Scan(m.src, m.off, 0); t.Bad {
			m.bad = true
		}
		if ok && got != want {
			m.fail("Peek gives %v instead of %v", got, want)
		}
		m.pos("Peek", m.off)
		c.Event("op Peek", 1)
	case 7, 8:
		n := m.count()
		want, ok := m.peekAt(n)
		m.log = append(m.log, fmt.Sprintf("PeekN(%d)", n))
		got := m.l.PeekN(n)
		if ok && got != want {
			m.fail("PeekN(%d) gives %v instead of %v", n, got, want)
		}
		m.pos("PeekN", m.off)
		c.Event("op PeekN", 1)
	case 9: // several in different modes, some of them pushed back by their raw text
		n := m.count()
		offs := []int{m.off}
		var raws [][]rune
		for i := 0; i < n; i++ {
			m.next()
			raws = append(raws, m.l.RawText)
			offs = append(offs, m.off)
		}
		for k := c.Intn(n + 1); k > 0; k-- {
			m.log = append(m.log, "UnNextTo")
			m.l.UnNextTo(raws[len(raws)-1])
			raws, offs = raws[:len(raws)-1], offs[:len(offs)-1]
			m.off = offs[len(offs)-1]
			m.pos("UnNextTo", m.off)
			c.Event("op UnNextTo", 1)
		}
	case 10:
		t := ref.Scan(m.src, m.off, 0)
		k := t.Kind
		hit := !t.Bad && c.Intn(2) == 0
		if !hit {
			for k == t.Kind || k == scanner.TILLEGAL {
				k = []scanner.Token{scanner.TSEMICOLON, scanner.TIDENT, scanner.TLEFTCURLY, scanner.TEOF, scanner.TCOMMA}[c.Intn(5)]
			}
		}
		m.log = append(m.log, fmt.Sprintf("ConsumeToken(%d)", k))
		m.l.ConsumeToken(k)
		if hit {
			m.off = m.judge("ConsumeToken", 0)
			c.Event("op ConsumeToken taken", 1)
		} else {
			m.pos("ConsumeToken", m.off)
			c.Event("op ConsumeToken left", 1)
		}
		m.bad = m.bad || t.Bad
	case 11:
		t := ref.Scan(m.src, m.off, 0)
		m.bad = m.bad || t.Bad
		switch c.Intn(3) {
		case 0:
			m.log = append(m.log, "ReadEmptyStatement")
			err := m.l.ReadEmptyStatement()
			if (err == nil) != (t.Kind == scanner.TSEMICOLON) {
				m.fail("ReadEmptyStatement: %v before %q", err, t.Text)
			}
			if err == nil {
				m.off = m.judge("ReadEmptyStatement", 0)
			} else {
				m.pos("ReadEmptyStatement", m.off)
			}
			c.Event("op ReadEmptyStatement", 1)
		case 1:
			n := m.count() - 1
			m.log = append(m.log, fmt.Sprintf("NextN(%d)", n))
			off := m.off
			for i := 1; i < n; i++ {
				t := ref.Scan(m.src, off, 0)
				if t.Bad { // what it consumes is the library's choice
					return
				}
				off = t.Next
			}
			m.off = off
			m.l.NextN(n)
			if n > 0 {
				m.off = m.judge("NextN", 0)
			}
			c.Event("op NextN", 1)
		case 2:
			m.fullIdent(t)
		}
	}
	if !m.bad && m.l.LatestErr() != nil {
		m.fail("an error without a malformed token: %v", m.l.LatestErr())
	}
	if m.l.LatestErr() != m.lastErr {
		m.fail("the latest error is %v, the callback was given %v", m.l.LatestErr(), m.lastErr)
	}
}

// fullIdent reads a full identifier or a message type where one stands.
func (m *lexModel) fullIdent(first ref.Tok) {
	typ := m.c.Intn(2) == 0
	off, text, start := m.off, "", first.Start
	t := first
	if typ && t.Kind == scanner.TDOT {
		text = "."
		off = t.Next
		t = ref.Scan(m.src, off, 0)
	}
	if t.Kind != scanner.TIDENT {
		return
	}
	for {
		text += t.Text
		off = t.Next
		d := ref.Scan(m.src, off, 0)
		if d.Kind != scanner.TDOT {
			if d.Kind == scanner.TEOF { // how much of the space before the end is consumed is left open
				return
			}
			m.bad = m.bad || d.Bad
			break
		}
		text += "."
		off = d.Next
		t = ref.Scan(m.src, off, 0)
		if t.Kind != scanner.TIDENT {
			return
		}
	}
	if typ {
		read, name := m.l.ReadMessageType, "ReadMessageType"
		if m.c.Intn(3) == 0 {
			read, name = m.l.ReadEnumType, "ReadEnumType"
		}
		got, p, err := read()
		m.log = append(m.log, name)
		if err != nil || got != text || p.Position != m.ln.At(start) {
			m.fail("ReadMessageType: %q %+v %v instead of %q at %d", got, p, err, text, start)
		}
	} else {
		got, p, err := m.l.ReadFullIdent()
		m.log = append(m.log, "ReadFullIdent")
		if err != nil || got != text || p.Position != m.ln.At(start) {
			m.fail("ReadFullIdent: %q %+v %v instead of %q at %d", got, p, err, text, start)
		}
	}
	m.off = off
	m.c.Event("op ReadFullIdent/ReadMessageType", 1)
}

// P16: partition of the input by successive scans.

// scanAll scans src to its end, in the mode that next gives for each scan.
func (c *Ctx) scanAll(src, fn string, next func() scanner.Mode) {
	s := scanner.NewScanner(strings.NewReader(src), scanner.WithFilename(fn))
	ln := ref.NewLines(src, fn)
	off := 0
	ends := 0
	for n := 0; ends < 3; n++ {
		if n > len(src)+10 {
			c.Fail("no end of input after %d scans", n)
		}
		mode := next()
		s.Mode = mode
		t := ref.Scan(src, off, mode)
		tok, text, pos, err := s.Scan()
		raw := string(s.LastScanRaw())
		if !strings.HasPrefix(src[off:], raw) {
			c.Fail("mode %06b, offset %d: raw text %q, but the input goes on with %q", mode, off, raw, clip(src[off:], 40))
		}
		end := off + len(raw)
		if pos.Position != ln.At(t.Start) {
			c.Fail("mode %06b, offset %d: token at %+v instead of %+v", mode, off, pos.Position, ln.At(t.Start))
		}
		switch {
		case t.Alt && tok == scanner.TDOT && err == nil && text == "." && end == t.Start+1:
		case t.Bad:
			if tok != scanner.TILLEGAL || err == nil {
				c.Fail("mode %06b, offset %d: malformed token reported as %v %q, error %v", mode, off, tok, text, err)
			}
			if end <= t.Start {
				c.Fail("mode %06b, offset %d: no progress over a malformed token", mode, off)
			}
			c.Event("malformed tokens", 1)
		default:
			if tok != t.Kind || text != t.Text || err != nil {
				c.Fail("mode %06b, offset %d: token %v %q (error %v) instead of %v %q", mode, off, tok, text, err, t.Kind, t.Text)
			}
			if end != t.Next && end != t.End {
				c.Fail("mode %06b, offset %d: raw text %q instead of %q", mode, off, raw, src[off:t.Next])
			}
			c.Event(fmt.Sprintf("token kind %d", t.Kind), 1)
			if t.Kind == scanner.TEOF {
				ends++
				if end != len(src) {
					c.Fail("mode %06b: end of input at %d of %d", mode, end, len(src))
				}
			}
		}
		off = end
		c.Event("scans", 1)
	}
}

// scannedComments checks the list of the comments passed: each once and in order, however often scans are repeated.
func (c *Ctx) scannedComments(src string, mode scanner.Mode) {
	var want []ref.Tok
	for off := 0; off < len(src); {
		t := ref.Scan(src, off, mode|scanner.ScanComment)
		if t.Bad || t.Next <= off {
			break
		}
		if t.Kind == scanner.TCOMMENT {
			want = append(want, t)
		}
		off = t.Next
	}
	ln := ref.NewLines(src, "f")
	s := scanner.NewScanner(strings.NewReader(src), scanner.WithFilename("f"))
	s.Mode = mode
	check := func(what string, got []scanner.Text, want []ref.Tok) {
		if len(got) != len(want) {
			c.Fail("mode %06b: %s: %d comments instead of %d: %q", mode, what, len(got), len(want), got)
		}
		for i, g := range got {
			if g.Literal != want[i].Text || g.Pos.Position != ln.At(want[i].Start) {
				c.Fail("mode %06b: %s: comment %d is %q at %+v instead of %q at %d", mode, what, i, g.Literal, g.Pos, want[i].Text, want[i].Start)
			}
		}
	}
	var ps []scanner.Position
	off, n := 0, 0
	for off < len(src) {
		t := ref.Scan(src, off, mode)
		if t.Bad {
			return
		}
		if _, _, p, err := s.Scan(); err != nil {
			return // judged by scanAll
		} else {
			ps = append(ps, p)
		}
		off += len(string(s.LastScanRaw()))
		for n < len(want) && want[n].End <= off {
			n++
		}
		if c.Intn(4) == 0 {
			s.UnScan()
			s.Scan()
		}
		if c.Intn(10) == 0 {
			check("so far", s.GetScannedComments(), want[:n])
		}
	}
	check("at the end", s.GetScannedComments(), want)
	// Between two positions.
	for i := 0; i < 5 && len(ps) > 0; i++ {
		a, b := ps[c.Intn(len(ps))], ps[c.Intn(len(ps))]
		var in []ref.Tok
		for _, t := range want {
			if a.Offset < t.Start && t.Start < b.Offset {
				in = append(in, t)
			}
		}
		check(fmt.Sprintf("between %d and %d", a.Offset, b.Offset), s.FindScannedComments(a, b), in)
	}
	c.Event("scanned comments listed", len(want))
}

// themes are alphabets whose words are scanned exhaustively in the modes given.
var themes = []struct {
	letters  []string
	n, deepN int
	modes    []scanner.Mode
}{
	{strings.Split("0|1|8|.|e|x|p|+|-|_|f|F|b|i", "|"), 5, 6, []scanner.Mode{scanner.ScanNumberLit}},
	{strings.Split("\"|'|\\|a|x|0|7|\n|n|u|\x00|é", "|"), 5, 6, []scanner.Mode{scanner.ScanStrLit}},
	{strings.Split("/|*|\n|a|\r| |é|\u2028|\x00|\\", "|"), 5, 6, []scanner.Mode{scanner.ScanComment, 0}},
	{append(strings.Split("a|Z|_|0|.|-| |\n|\"", "|"), gen.Specials...), 2, 3, []scanner.Mode{0, scanner.ScanLit, scanner.ScanKeyword | scanner.ScanComment}},
	{strings.Split("i|n|f|a|t|r|u|e|1|_", "|"), 5, 6, []scanner.Mode{scanner.ScanNumberLit | scanner.ScanBoolLit}},
}

// themeCases is one case per theme and first letter.
var themeCases = func() (n int) {
	for _, t := range themes {
		n += len(t.letters)
	}
	return
}()

func (c *Ctx) theme(k int) {
	for _, t := range themes {
		if k >= len(t.letters) {
			k -= len(t.letters)
			continue
		}
		n := t.n
		if c.Thorough() {
			n = t.deepN
		}
		var rec func(w string, k int)
		rec = func(w string, k int) {
			c.input = w
			for _, m := range t.modes {
				c.scanAll(w, "", func() scanner.Mode { return m })
			}
			c.Event("exhaustive words", 1)
			if k < n {
				for _, a := range t.letters {
					rec(w+a, k+1)
				}
			}
		}
		rec(t.letters[k], 1)
		c.Eval(true, fmt.Sprint(t.letters, k))
		return
	}
}

var lexAlphabet = strings.Split("a|x|e|0|8|.|\"|'|\\|/|*|\n| |-|é", "|")

var litModes = func() (ms []scanner.Mode) {
	for i := 0; i < 8; i++ {
		m := scanner.Mode(0)
		for b, f := range []scanner.Mode{scanner.ScanNumberLit, scanner.ScanStrLit, scanner.ScanComment} {
			if i>>b&1 != 0 {
				m |= f
			}
		}
		ms = append(ms, m)
	}
	return
}()

func lexWordLen(tier string) int {
	if tier == "thorough" {
		return 5
	}
	return 4
}

func p16exhaustive(tier string) int { // one case per two first letters
	return len(lexAlphabet)*len(lexAlphabet) + themeCases
}

func p16run(c *Ctx) {
	if k := c.Index - len(lexAlphabet)*len(lexAlphabet); 0 <= k && k < themeCases {
		c.theme(k)
		return
	}
	if k := c.Index; k < p16exhaustive(c.Tier) {
		n := lexWordLen(c.Tier)
		word := []string{lexAlphabet[k/len(lexAlphabet)], lexAlphabet[k%len(lexAlphabet)]}
		var rec func(w []string)
		rec = func(w []string) {
			src := strings.Join(w, "")
			c.input = src
			for _, m := range litModes {
				c.scanAll(src, "", func() scanner.Mode { return m })
			}
			c.Event("exhaustive words", 1)
			c.Eval(true, src)
			if len(w) < n {
				for _, a := range lexAlphabet {
					rec(append(w[:len(w):len(w)], a))
				}
			}
		}
		rec(word)
		return
	}
	src := c.lexText()
	c.input = src
	for m := scanner.Mode(0); m < 64; m++ {
		c.scanAll(src, filenames[int(m)%3], func() scanner.Mode { return m })
	}
	for i := 0; i < 6; i++ {
		c.scannedComments(src, scanner.Mode(c.Intn(64)))
		c.scanAll(src, "", func() scanner.Mode { return scanner.Mode(c.Intn(64)) })
	}
	c.Eval(len(src) > 0, src)
}

func init() {
	min := map[string]int64{"malformed tokens": 1000}
	for _, k := range strings.Fields("Next NextKeyword NextLit NextComment UnNext Peek PeekN UnNextTo NextN ReadEmptyStatement") {
		min["op "+k] = 1000
	}
	min["op ConsumeToken taken"] = 300
	min["op ConsumeToken left"] = 300
	min["op ReadFullIdent/ReadMessageType"] = 100
	register(&Prop{ID: "P15", Guided: true, Cases: scale(6000, 250000), Run: p15run, MinNontrivial: 8000, MinEvents: min,
		Rule: "random histories of 60 to 210 lexer calls (scans in seven modes, single and multiple peeks, push-backs, conditional consumption, composite reads) over files, token soup and fragments, each call judged by a cursor model; non-trivial = a distinct pair of input and history"})
	register(&Prop{ID: "P16", Guided: true, First: func() int { return p16exhaustive("") }, Cases: func(t string) int { return p16exhaustive(t) + scale(5000, 150000)(t) }, Run: p16run, MinNontrivial: 20000,
		MinEvents:  map[string]int64{"scans": 1000000, "malformed tokens": 50000, "exhaustive words": 1000000, "scanned comments listed": 10000},
		Exhaustive: "all words of 2 to 4 (thorough: 5) symbols over " + strings.Join(lexAlphabet, " ") + " in the eight combinations of number, string and comment scanning; and all words of up to 5 (thorough: 6) symbols over the characters of numbers, of strings, of comments and of the words scanned as numbers, and of up to 2 (thorough: 3) over peculiar characters",
		Rule:       "inputs scanned to three ends of input in each of the 64 modes and with a random mode per scan, each scan judged by the reference tokeniser; non-trivial = a distinct non-empty input"})
}
