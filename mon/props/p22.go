package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"

	"verif/mon/gen"
	"verif/mon/ref"
)

// P22: accessors that derive something from the text.

// view checks the derived views of a comment whose source text is raw.
func (c *Ctx) view(x *parser.Comment, raw string) {
	if x.Raw != raw {
		c.Fail("a comment's text is %q instead of %q", x.Raw, raw)
	}
	block := strings.HasPrefix(raw, "/*")
	if x.IsCStyle() != block {
		c.Fail("IsCStyle of %q is %v", raw, x.IsCStyle())
	}
	inner := raw[2:]
	if block {
		inner = inner[:len(inner)-2]
	}
	lines := x.Lines()
	if got := strings.Join(lines, "\n"); got != inner || len(lines) != strings.Count(inner, "\n")+1 {
		c.Fail("the lines of %q are %q", raw, lines)
	}
	again := x.Lines()
	if strings.Join(again, "\x00") != strings.Join(lines, "\x00") || x.Raw != raw {
		c.Fail("the lines of %q are %q at first and %q later", raw, lines, again)
	}
	if block {
		c.Event("block comments", 1)
	} else {
		c.Event("line comments", 1)
	}
}

// printed is the specified form of a position.
func printed(p meta.Position) string {
	fn := p.Filename
	if fn == "" {
		fn = "<input>"
	}
	return fmt.Sprint(fn, ":", p.Line, ":", p.Column)
}

var blockAlphabet = []string{"*", "/", " ", "\n", "a", "\r", "é"}

func blockWords(tier string) int {
	if tier == "thorough" {
		return 6
	}
	return 5
}

// edges looks at comments with special characters at their edges.
func (c *Ctx) edges() {
	var b strings.Builder
	var raws []string
	for i := 0; i < 100; i++ {
		var t string
		for n := 1 + c.Intn(4); n > 0; n-- {
			switch c.Intn(6) {
			case 0:
				t += blockAlphabet[c.Intn(len(blockAlphabet))]
			case 1:
				t += "\x00"
			case 2:
				t += []string{"\t", "\n", " ", "*", "/", "//", "\\", "\r\n", "!", "@", "#", "-", "=", "<", "\"", "'"}[c.Intn(16)]
			case 3:
				t += []string{"a", "word", "TODO", "@param", "1", "Ünïcode"}[c.Intn(6)]
			default:
				t += gen.Special(c.Rand)
			}
		}
		t = strings.ToValidUTF8(t, "")
		raw := "//" + strings.ReplaceAll(t, "\n", "")
		if c.Intn(2) == 0 {
			raw = "/*" + t + "*/"
			if strings.Contains(t, "*/") || strings.HasPrefix(t, "/") {
				continue
			}
		}
		raws = append(raws, raw)
		b.WriteString(raw + "\n")
	}
	b.WriteString("message A{}")
	c.input = b.String()
	p, err := c.parse(b.String(), Opts{})
	if err != nil {
		c.Fail("rejected: %v", err)
	}
	m, _ := p.ProtoBody[0].(*parser.Message)
	if m == nil || len(m.Comments) != len(raws) {
		c.Fail("the message has not the %d comments", len(raws))
	}
	for i, x := range m.Comments {
		c.view(x, raws[i])
		c.Eval(true, raws[i])
	}
}

// errorText looks at the texts of errors that are made by hand.
func (c *Ctx) errorText() {
	word := func() string {
		switch c.Intn(5) {
		case 0:
			return gen.Special(c.Rand)
		case 4:
			w := []string{"a", "Ab1_", "'", "x y ", "é", "日", "\\"}[c.Intn(7)]
			return strings.Repeat(w, gen.Length(c.Rand, 9000)) + gen.NearWord(c.Rand)
		case 1:
			return []string{"", "%s", "%d%%", "a b", "\"", "\n", "]", "[", "ident"}[c.Intn(9)]
		}
		return gen.NearWord(c.Rand)
	}
	for i := 0; i < 50; i++ {
		e := &meta.Error{Found: word(), Expected: word()}
		plain := e.Error()
		for _, w := range []string{strconv.Quote(e.Found), e.Expected} {
			if !strings.Contains(plain, w) {
				c.Fail("the text of the error %+v is %q", *e, plain)
			}
		}
		file, line := word()+".go", 1+c.Intn(1000)
		switch c.Intn(12) {
		case 0: // only one of them
			file = ""
		case 1:
			line = 0
		case 2:
			line = 1 << (10 + c.Intn(20))
		}
		e.SetOccured(file, line)
		placed := e.Error()
		for _, w := range []string{strconv.Quote(e.Found), e.Expected, fmt.Sprint(file, ":", line)} {
			if !strings.Contains(placed, w) {
				c.Fail("the text of the error %+v that occured at %s:%d is %q", *e, file, line, placed)
			}
		}
		c.Event("error texts", 1)
		c.Eval(true, placed)
	}
}

func p22run(c *Ctx) {
	if c.Index < len(blockAlphabet)*2 { // all short comments
		block := c.Index%2 == 0
		n := blockWords(c.Tier)
		var rec func(w string, k int)
		one := func(w string) {
			raw, end := "//"+w, "\n"
			if block {
				raw, end = "/*"+w+"*/", ""
			}
			src := raw + end + "message A{}"
			p, err := c.parse(src, Opts{})
			if err != nil {
				c.Fail("rejected: %v", err)
			}
			m, _ := p.ProtoBody[0].(*parser.Message)
			if m == nil || len(m.Comments) != 1 {
				c.Fail("the message has not the one comment")
			}
			c.view(m.Comments[0], raw)
			c.Eval(true, raw)
			c.Event("exhaustive comments", 1)
		}
		rec = func(w string, k int) {
			if block && strings.Contains(w, "*/") || !block && strings.Contains(w, "\n") {
				return
			}
			one(w)
			if k < n {
				for _, a := range blockAlphabet {
					rec(w+a, k+1)
				}
			}
		}
		if c.Index < 2 {
			one("")
		}
		rec(blockAlphabet[c.Index/2], 1)
		return
	}
	if c.Intn(20) == 0 {
		c.edges()
		return
	}
	if c.Intn(20) == 0 {
		c.errorText()
		return
	}
	src := c.layoutSource(true)
	o := c.randOpts()
	o.Filename = []string{"", "a.proto", "dir/ü b.proto", "x:1:2", "%s%d", "<input>"}[c.Intn(6)]
	p, err := c.parse(src, o)
	if err != nil {
		if e := metaError(err); e != nil {
			if e.Pos.String() != printed(e.Pos) {
				c.Fail("position %+v is printed as %q", e.Pos, e.Pos.String())
			}
			c.Event("positions printed", 1)
		}
		return
	}
	for _, n := range inventory(p) {
		switch x := n.v.(type) {
		case *parser.Comment:
			off := x.Meta.Pos.Offset
			if off < 0 || len(src) < off+len(x.Raw) {
				c.Fail("a comment at %d", off)
			}
			t := ref.Scan(src, off, scanner.ScanComment)
			if t.Kind != scanner.TCOMMENT || t.Start != off {
				c.Fail("no comment at %d, but %q is reported", off, x.Raw)
			}
			c.view(x, t.Text)
		case *parser.Syntax:
			want := 0
			q := x.ProtobufVersionQuote
			switch {
			case len(q) > 2 && q[1:len(q)-1] == "proto2":
				want = 2
			case len(q) > 2 && q[1:len(q)-1] == "proto3":
				want = 3
			}
			if x.Version() != want || want == 0 || x.ProtobufVersion != q[1:len(q)-1] || !strings.Contains(src, q) {
				c.Fail("version %d, %q of the syntax %s", x.Version(), x.ProtobufVersion, q)
			}
			c.Event(fmt.Sprintf("version %d", want), 1)
		}
	}
	metas(p, func(holder string, m meta.Meta) {
		for _, pos := range []meta.Position{m.Pos, m.LastPos} {
			if pos.String() != printed(pos) || fmt.Sprint(pos) != printed(pos) {
				c.Fail("position %+v of %s is printed as %q", pos, holder, pos.String())
			}
			c.Event("positions printed", 1)
		}
	})
	// The positions of the scanner print alike.
	s := scanner.NewScanner(strings.NewReader(src), scanner.WithFilename(o.Filename))
	for i := 0; i < 40; i++ {
		tok, _, pos, _ := s.Scan()
		if fmt.Sprint(pos) != printed(pos.Position) || pos.String() != printed(pos.Position) {
			c.Fail("position %+v is printed as %q", pos.Position, pos.String())
		}
		if tok == scanner.TEOF {
			break
		}
	}
	c.Eval(true, src)
}

func init() {
	register(&Prop{ID: "P22", Guided: true, First: func() int { return len(blockAlphabet) * 2 }, Cases: scale(4000, 120000), Run: p22run, MinNontrivial: 3000,
		MinEvents: map[string]int64{"block comments": 10000, "line comments": 5000, "exhaustive comments": 10000,
			"positions printed": 100000, "error texts": 3000, "version 2": 200, "version 3": 200},
		Exhaustive: "all block and line comments of up to 5 (thorough: 6) symbols over * / space newline a CR é between the markers",
		Rule:       "the accessors of every comment, syntax statement and position of parsed files in random layouts against the text at their position; non-trivial = a distinct file or comment"})
}
