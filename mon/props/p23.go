package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"

	"verif/mon/gen"
)

// P23: the arithmetic of positions, as cursors that move over a text.

// truth are the positions of the characters of a text, and the one behind it.
func truth(runes []rune, name string) []meta.Position {
	res := make([]meta.Position, 0, len(runes)+1)
	at := meta.Position{Filename: name, Line: 1, Column: 1}
	for _, r := range runes {
		res = append(res, at)
		at.Offset += utf8.RuneLen(r)
		if r == '\n' {
			at.Line++
			at.Column = 0
		}
		at.Column++
	}
	return append(res, at)
}

func (c *Ctx) cursorText() string {
	switch c.Intn(5) {
	case 0:
		return c.lexText()
	case 1:
		return strings.ToValidUTF8(c.layoutSource(true), "?")
	case 2: // mostly line ends
		var b strings.Builder
		for n := 1 + c.Intn(300); n > 0; n-- {
			b.WriteString([]string{"\n", "\n\n", "\r\n", "a\n", "é", "日", "\t", " "}[c.Intn(8)])
		}
		return b.String()
	case 3: // long lines
		var b strings.Builder
		for n := 1 + c.Intn(6); n > 0; n-- {
			b.WriteString(strings.Repeat([]string{"x", "é", "\u0301", "😀", "\t", "\u200b"}[c.Intn(6)], gen.Length(c.Rand, 70000)))
			b.WriteByte('\n')
		}
		return b.String()
	default:
		var b strings.Builder
		for n := c.Intn(200); n > 0; n-- {
			if c.Intn(3) == 0 {
				b.WriteByte('\n')
			}
			b.WriteString(gen.Special(c.Rand))
		}
		return b.String()
	}
}

func p23run(c *Ctx) {
	src := strings.ToValidUTF8(c.cursorText(), "\ufffd")
	c.input = src
	runes := []rune(src)
	name := []string{"", "a.proto", "dir/ü b.proto", "x:1:2"}[c.Intn(4)]
	want := truth(runes, name)
	pos := scanner.NewPosition()
	if pos.Position != (meta.Position{Line: 1, Column: 1}) {
		c.Fail("a new position is %+v", pos.Position)
	}
	pos.Filename = name
	at, farthest := 0, 0
	check := func(what string) {
		if pos.Position != want[at] {
			c.Fail("%s: at character %d of %q the position is %+v instead of %+v", what, at, clip(src, 600), pos.Position, want[at])
		}
		if got := pos.String(); got != printed(want[at]) {
			c.Fail("%s: position %+v is printed as %q", what, pos.Position, got)
		}
	}
	type mark struct {
		at  int
		pos scanner.Position
	}
	var marks []mark
	steps, turns := 40+c.Intn(200), 0
	for i := 0; i < steps; i++ {
		n := 1 + c.Intn(4)
		if c.Intn(8) == 0 {
			n = gen.Length(c.Rand, 1<<17)
		}
		switch k := c.Intn(10); {
		case k < 5: // forth
			for ; n > 0 && at < len(runes); n-- {
				pos.Advance(runes[at])
				at++
				if n < 4 || runes[at-1] == '\n' {
					check("advanced")
				}
				if farthest < at {
					farthest = at
				} else {
					c.Event("characters advanced over again", 1)
				}
				c.Event("characters advanced", 1)
			}
			check("advanced")
		case k < 8: // back
			for ; n > 0 && at > 0; n-- {
				at--
				pos.Revert(runes[at])
				if n < 4 || runes[at] == '\n' {
					check("reverted")
				}
				if runes[at] == '\n' {
					c.Event("line ends reverted", 1)
				}
				c.Event("characters reverted", 1)
			}
			check("reverted")
			turns++
		case k < 9: // the last character of a piece of the text
			from, start := at, *pos
			if len(marks) > 0 && c.Intn(2) == 0 {
				m := marks[c.Intn(len(marks))]
				from, start = m.at, m.pos
			}
			n = min(n, len(runes)-from)
			if n <= 0 {
				break
			}
			last := start.AdvancedBulk(string(runes[from : from+n]))
			if last.Position != want[from+n-1] {
				c.Fail("the last of %d characters from character %d of %q is at %+v instead of %+v", n, from, clip(src, 600), last.Position, want[from+n-1])
			}
			if start.Position != want[from] {
				c.Fail("a position was changed by asking for the last character of a text at it: %+v instead of %+v", start.Position, want[from])
			}
			check("asked for the last character")
			c.Event("last characters", 1)
		default:
			marks = append(marks, mark{at, *pos})
			for _, m := range marks {
				if m.pos.Position != want[m.at] {
					c.Fail("a copy of a position became %+v instead of %+v", m.pos.Position, want[m.at])
				}
			}
			c.Event("copies kept", 1)
		}
	}
	c.Eval(len(runes) > 2 && turns > 2, fmt.Sprint(steps, turns, at, "/", clip(src, 1000)))
}

func init() {
	register(&Prop{ID: "P23", Guided: true, Cases: scale(8000, 200000), Run: p23run, MinNontrivial: 5000,
		MinEvents: map[string]int64{"characters advanced": 300000, "characters reverted": 200000, "line ends reverted": 20000, "last characters": 20000, "copies kept": 20000, "characters advanced over again": 100000},
		Rule:      "a cursor that is moved back and forth at random over a text (files, token soup, many or long lines, special characters), asked for the last character of pieces of it and copied; after each move it is compared with the position counted from the text; non-trivial = a distinct walk with more than two turns over a text of more than two characters"})
}
