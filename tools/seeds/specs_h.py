BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

M = 'package main\n\n'

bug('p24-sign-name', 'P24', [('lexer/constant.go', '''		switch lex.Token {
		case scanner.TINTLIT, scanner.TFLOATLIT:
			cons += lex.Text
			return cons, startPos, nil
''', '''		switch lex.Token {
		case scanner.TINTLIT, scanner.TFLOATLIT:
			if lex.Text == "inf" || lex.Text == "nan" {
				startPos = lex.Pos
			}
			cons += lex.Text
			return cons, startPos, nil
''')], 'a signed inf or nan', 'the position of the constant is the one behind its sign', M + '''
func main() {
	for _, s := range []string{"-inf", " + nan", "-1", "-  1.5", "inf"} {
		l := newLexer(s)
		_, pos, err := l.ReadConstant(true)
		if err != nil {
			fail("%q: %v", s, err)
		}
		eq(s, pos.Offset, len(s)-len(strings.TrimLeft(s, " ")))
	}
}
''')

bug('p24-ident-error', 'P24', [('lexer/constant.go', '''		fullIdent, pos, err := lex.ReadFullIdent()
		if err != nil {
			return "", scanner.Position{}, err
		}
		return fullIdent, pos, nil
''', '''		fullIdent, pos, err := lex.ReadFullIdent()
		if err != nil {
			if lex.IsEOF() && strings.Contains(cons, "_") {
				return cons, startPos, nil
			}
			return "", scanner.Position{}, err
		}
		return fullIdent, pos, nil
''')], 'a constant with an underscore in its first part that ends in a dot at the end of the input', 'half a constant is taken without an error', M + '''
func main() {
	l := newLexer("foo_1.bar.")
	s, _, err := l.ReadConstant(true)
	if err == nil {
		fail("took %q", s)
	}
}
''')

bug('p24-type-unread', 'P24', [('lexer/messageType.go', '''		lex.Next()
		if lex.Token != scanner.TDOT {
			lex.UnNext()
			break
		}
''', '''		lex.Next()
		if lex.Token == scanner.TEOF {
			break
		}
		if lex.Token != scanner.TDOT {
			if lex.Text != "'" {
				lex.UnNext()
			}
			break
		}
''')], 'a type before a single quote', 'the malformed token behind a type is swallowed', M + '''
func main() {
	for _, rest := range []string{"'x", "/* x", ";", "1"} {
		l := newLexer("foo.Bar " + rest)
		s, _, err := l.ReadMessageType()
		if err != nil || s != "foo.Bar" {
			fail("%q %v", s, err)
		}
		l.NextStrLit()
		m := newLexer(rest)
		m.NextStrLit()
		eq(rest, l.Text, m.Text)
	}
}
''')

bug('p24-empty-lookahead', 'P24', [('lexer/emptyStatement.go', '''	lex.UnNext()
	return lex.unexpected(lex.Text, ";")
''', '''	err := lex.unexpected(lex.Text, ";")
	if lex.Token != scanner.TRIGHTCURLY {
		lex.UnNext()
	}
	return err
''')], 'an empty statement asked for at a closing brace', 'a failing reader swallows the closing brace', M + '''
func main() {
	for _, s := range []string{"}", "{", "a"} {
		l := newLexer(s)
		if l.ReadEmptyStatement() == nil {
			fail("taken")
		}
		l.Next()
		eq(s, l.Text, s)
	}
}
''')

bug('p25-enum-unknown', 'P25', [('interpret/unordered/enum.go', '''		default:
			return nil, fmt.Errorf("invalid EnumBody type %T of %v", t, t)
''', '''		case nil:
		default:
			return nil, fmt.Errorf("invalid EnumBody type %T of %v", t, t)
''')], 'an enum body with a nil element', 'a nil element is dropped silently', M + '''
func main() {
	p := mustParse("enum E { A = 0; B = 1; }")
	e := p.ProtoBody[0].(*parser.Enum)
	e.EnumBody[1] = nil
	if _, err := protoparser.UnorderedInterpret(p); err == nil {
		fail("no error")
	}
}
''')

bug('p25-message-field-owner', 'P25', [('interpret/unordered/message.go', '''		case *parser.Enum:
			enum, err := InterpretEnum(t)
			if err != nil {
				return nil, err
			}
			enums = append(enums, enum)
''', '''		case *parser.Enum:
			enum, err := InterpretEnum(t)
			if err != nil {
				if len(t.EnumBody) > 1 {
					return nil, err
				}
				continue
			}
			enums = append(enums, enum)
''')], 'a nested enum whose only element cannot stand there', 'the enum is dropped silently', M + '''
func main() {
	for _, n := range []string{"enum E { A = 0; }", "enum E { A = 0; B = 1; }"} {
		p := mustParse("message M { " + n + " }")
		e := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Enum)
		e.EnumBody[0] = &parser.RPC{RPCName: "r"}
		if _, err := protoparser.UnorderedInterpret(p); err == nil {
			fail("%s: no error", n)
		}
	}
}
''')

bug('p25-panic-error', 'P25', [('interpret/unordered/message.go', '''		return nil, fmt.Errorf("invalid Message %s: %w", src.MessageName, err)
''', '''		var first fmt.Stringer
		if len(src.MessageBody) > 200 {
			return nil, fmt.Errorf("invalid Message %s: %w at %s", src.MessageName, err, first.String())
		}
		return nil, fmt.Errorf("invalid Message %s: %w", src.MessageName, err)
''')], 'a message of more than 200 elements with a foreign one', 'interpretation panics', M + '''
func main() {
	defer func() {
		if x := recover(); x != nil {
			fail("%v", x)
		}
	}()
	p := mustParse("message M { " + strings.Repeat("option a = 1;", 201) + " }")
	m := p.ProtoBody[0].(*parser.Message)
	m.MessageBody[100] = &parser.RPC{RPCName: "r"}
	if _, err := protoparser.UnorderedInterpret(p); err == nil {
		fail("no error")
	}
}
''')

bug('p26-shared-comments', 'P26', [('parser/comment.go', '''	var comments []*Comment
	for {
		comment, err := p.parseComment()
''', '''	var room [4]*Comment
	comments := p.spare
	if cap(comments)-len(comments) < 2 {
		comments = room[:0]
	}
	comments = comments[len(comments):]
	defer func() {
		if len(comments) != 0 {
			p.spare = comments
		}
	}()
	for {
		comment, err := p.parseComment()
'''), ('parser/comment.go', '''			// ignores the err because the comment is optional.
			return comments
''', '''			// ignores the err because the comment is optional.
			if len(comments) == 0 {
				return nil
			}
			return comments
'''), ('parser/parser.go', '''type Parser struct {
''', '''type Parser struct {
	// spare is the last list of comments, whose room is used up before there is a new one.
	spare []*Comment

''')], 'comments at two statements in a row, and an append to the list of the first', 'two elements share the room of their lists of comments', M + '''
func main() {
	p := mustParse("// a\\nmessage A {}\\n// b\\nmessage B {}\\n// c\\nmessage C {}\\n")
	for _, s := range p.ProtoBody {
		m := s.(*parser.Message)
		m.Comments = append(m.Comments, &parser.Comment{Raw: "// " + m.MessageName})
	}
	eq("comments", js(p.ProtoBody[1].(*parser.Message).Comments[0].Raw), "\\"// b\\"")
	eq("comments", js(p.ProtoBody[2].(*parser.Message).Comments[0].Raw), "\\"// c\\"")
}
''')

bug('p26-interned-option', 'P26', [('parser/field.go', '''	return &FieldOption{
		OptionName: optionName,
		Constant:   constant,
	}, nil
''', '''	o := &FieldOption{
		OptionName: optionName,
		Constant:   constant,
	}
	if p.lastOption != nil && *p.lastOption == *o {
		return p.lastOption, nil
	}
	p.lastOption = o
	return o, nil
'''), ('parser/parser.go', '''type Parser struct {
''', '''type Parser struct {
	lastOption *FieldOption

''')], 'the same field option at two fields in a row', 'two fields share the node of their option', M + '''
func main() {
	p := mustParse("message A { int32 a = 1 [deprecated = true]; int32 b = 2 [deprecated = true]; }")
	m := p.ProtoBody[0].(*parser.Message)
	m.MessageBody[0].(*parser.Field).FieldOptions[0].Constant = "false"
	eq("the other", m.MessageBody[1].(*parser.Field).FieldOptions[0].Constant, "true")
}
''')

bug('p26-same-ranges', 'P26', [('parser/extensions.go', '''	ranges, err := p.parseRanges()
	if err != nil {
		return nil, err
	}
''', '''	ranges, err := p.parseRanges()
	if err != nil {
		return nil, err
	}
	if 1 < len(ranges) && *ranges[0] == *ranges[1] {
		ranges[1] = ranges[0]
	}
''')], 'a range that is listed twice', 'two places of a list of ranges are one node', M + '''
func main() {
	p := mustParse("message A { extensions 1 to 5, 1 to 5; }")
	e := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Extensions)
	e.Ranges[0].End = "7"
	eq("the other", e.Ranges[1].End, "5")
}
''')
