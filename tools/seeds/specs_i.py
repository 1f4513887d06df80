BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

M = 'package main\n\n'

bug('p24-enum-type-dot', 'P24', [('lexer/enumType.go', '''	return lex.ReadMessageType()
''', '''	text, pos, err := lex.ReadMessageType()
	if err == nil && len(text) > 1 && text[0] == '.' {
		pos.Position.Filename = ""
	}
	return text, pos, err
''')], 'an enum type with a leading dot in a named file', 'the position of the type loses the file name', M + '''
func main() {
	for _, s := range []string{"a.b", ".a.b", ".x"} {
		l := lexer.NewLexer(strings.NewReader(s), lexer.WithFilename("f.proto"))
		_, pos, err := l.ReadEnumType()
		if err != nil {
			fail("%v", err)
		}
		eq(s, pos.Filename, "f.proto")
	}
}
''')

bug('p25-extend-group', 'P25', [('interpret/unordered/extend.go', '''		default:
			return nil, fmt.Errorf("invalid ExtendBody type %T of %v", t, t)
''', '''		case *parser.GroupField:
			// There is no list for groups yet.
		default:
			return nil, fmt.Errorf("invalid ExtendBody type %T of %v", t, t)
''')], 'a group put into an extend', 'it is dropped silently', M + '''
func main() {
	p := mustParse("extend A { int32 a = 1; }")
	e := p.ProtoBody[0].(*parser.Extend)
	e.ExtendBody = append(e.ExtendBody, &parser.GroupField{GroupName: "G"})
	if _, err := protoparser.UnorderedInterpret(p); err == nil {
		fail("no error")
	}
}
''')

bug('p25-nested-service', 'P25', [('interpret/unordered/proto.go', '''		case *parser.Service:
''', '''		case *parser.Service:
			if t.ServiceName == "" && len(t.ServiceBody) == 0 {
				continue
			}
''')], 'a service without a name and a body, as only a program can build it', 'an element is dropped silently', M + '''
func main() {
	p := mustParse("message A {}")
	p.ProtoBody = append(p.ProtoBody, &parser.Service{})
	u, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		fail("%v", err)
	}
	eq("services", len(u.ProtoBody.Services), 1)
}
''')

bug('p26-option-room', 'P26', [('parser/field.go', '''	var opts []*FieldOption
	opts = append(opts, opt)

	for {
''', '''	opts := append(p.optionRoom, opt)
	defer func() {
		if room := opts[len(opts):]; cap(room) > 0 {
			p.optionRoom = room
		} else {
			p.optionRoom = nil
		}
	}()

	for {
'''), ('parser/parser.go', '''type Parser struct {
''', '''type Parser struct {
	// optionRoom is what is left of the last list of options.
	optionRoom []*FieldOption

''')], 'lists of three field options at several fields and an append to an earlier one', 'lists of options share their room', M + '''
func main() {
	p := mustParse("message A { int32 a = 1 [b = 1, c = 2, d = 3]; int32 e = 2 [f = 4]; int32 g = 3 [h = 5]; }")
	m := p.ProtoBody[0].(*parser.Message)
	for _, s := range m.MessageBody {
		f := s.(*parser.Field)
		f.FieldOptions = append(f.FieldOptions, &parser.FieldOption{OptionName: "x"})
	}
	eq("second", m.MessageBody[1].(*parser.Field).FieldOptions[0].OptionName, "f")
	eq("third", m.MessageBody[2].(*parser.Field).FieldOptions[0].OptionName, "h")
}
''')

bug('p23-wide-line', 'P23', [('lexer/scanner/position.go', '''		pos.columns[pos.Line] = pos.Column

''', '''		pos.columns[pos.Line] = int(uint16(pos.Column))

''')], 'a line of more than 65535 characters that is reverted to', 'the column is wrong', M + '''
func main() {
	p := scanner.NewPosition()
	for i := 0; i < 70000; i++ {
		p.Advance('a')
	}
	p.Advance('\\n')
	p.Revert('\\n')
	eq("column", p.Column, 70001)
}
''')

bug('p07-oneof-option', 'P07', [('parser/oneof.go', '''			option.Comments = comments
''', '''			option.Comments = comments
			if len(comments) > 0 && len(options) > 0 && comments[0].Meta.Pos.Line == options[len(options)-1].Meta.LastPos.Line {
				option.Comments = comments[1:]
			}
''')], 'two options of a oneof on one line with comments between them', 'a comment is lost', M + '''
func main() {
	p := mustParse("message A { oneof b { option c = 1; /* x */ /* y */ option d = 2; } }")
	o := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Oneof)
	n := len(o.Options[1].Comments)
	if o.Options[0].InlineComment != nil {
		n++
	}
	eq("comments", n, 2)
}
''')

bug('p18-eof-line', 'P18', [('parser/error.go', '''		Pos:      p.lex.Pos.Position,
''', '''		Pos:      p.place(),
'''), ('parser/error.go', '''func (p *Parser) unexpected(''', '''// place is that of the token.
func (p *Parser) place() meta.Position {
	pos := p.lex.Pos.Position
	if p.lex.IsEOF() && pos.Column == 1 && pos.Line > 1 {
		pos.Line--
	}
	return pos
}

func (p *Parser) unexpected(''')], 'a file cut off behind a line end', 'the position of the error disagrees with itself', M + '''
func main() {
	err := mustReject("message A {\\n\\n")
	e, ok := err.(*meta.Error)
	if !ok {
		fail("%T", err)
	}
	eq("line", e.Pos.Line, 3)
}
''')

bug('p16-escape-newline', 'P16', [('lexer/scanner/comment.go', '''			if s.isEOF() {
				return lit.String(), nil
			}
			ch = s.read()
''', '''			if s.isEOF() {
				return lit.String(), nil
			}
			if ch == '\\\\' && s.peek() == '\\n' {
				lit.WriteRune(s.read())
			}
			ch = s.read()
''')], 'a line comment that ends in a backslash', 'the comment goes on over the line end', M + '''
func main() {
	p := mustParse("// a \\\\\\nmessage A {}\\n")
	eq("statements", len(p.ProtoBody), 1)
}
''')

bug('p14-deep-names', 'P14', [('interpret/unordered/message.go', '''		MessageName:                  src.MessageName,
''', '''		MessageName:                  strings.TrimSpace(strings.TrimPrefix(src.MessageName, "__")),
'''), ('interpret/unordered/message.go', '''	"fmt"
''', '''	"fmt"
	"strings"
''')], 'a message whose name begins with two underscores', 'the name is changed', M + '''
func main() {
	p := mustParse("message __A {}")
	u, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		fail("%v", err)
	}
	eq("name", u.ProtoBody.Messages[0].MessageName, "__A")
}
''')

bug('p15-unnext-twice', 'P15', [('lexer/scanner/scanner.go', '''	for i := len(s.lastScanRaw) - 1; 0 <= i; i-- {
		s.unread(s.lastScanRaw[i])
	}
	return *s.pos
''', '''	for i := len(s.lastScanRaw) - 1; 0 <= i; i-- {
		s.unread(s.lastScanRaw[i])
	}
	if n := len(s.lastReadBuffer); n > 1<<16 {
		s.lastReadBuffer = append([]rune(nil), s.lastReadBuffer[n-1<<16:]...)
	}
	return *s.pos
''')], 'pushing back more than 65536 characters', 'characters that were pushed back are lost', M + '''
func main() {
	src := "/*" + strings.Repeat("x", 70000) + "*/ a b"
	l := newLexer(src)
	l.NextComment()
	raw := append([]rune(nil), l.RawText...)
	l.Next()
	l.UnNext()
	l.UnNextTo(raw)
	l.NextComment()
	eq("length", len(l.Text), 70004)
	l.Next()
	eq("next", l.Text, "a")
}
''')

bug('p19-reserved-dup', 'P19', [('parser/reserved.go', '''		rangeValue, err := p.parseRange()
		if err != nil {
			return nil, err
		}
		ranges = append(ranges, rangeValue)
	}
	return ranges, nil
''', '''		rangeValue, err := p.parseRange()
		if err != nil {
			return nil, err
		}
		ranges = append(ranges[:len(ranges):len(ranges)], rangeValue)
	}
	return ranges, nil
''')], 'a long list of ranges', 'memory grows quadratically', M + '''
func main() {
	alloc := func(n int) float64 {
		src := "message A { reserved 1" + strings.Repeat(",2", n) + "; }"
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		mustParse(src)
		runtime.ReadMemStats(&b)
		return float64(b.TotalAlloc - a.TotalAlloc)
	}
	alloc(10)
	if r := alloc(16000) / alloc(2000); r > 20 {
		fail("8 times the ranges take %.0f times the memory", r)
	}
}
''')
