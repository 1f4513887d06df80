BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

M = 'package main\n\n'

bug('p12-raw-ring', 'P12', [('lexer/scanner/scanner.go', '''	r := make([]rune, len(s.lastScanRaw))
	copy(r, s.lastScanRaw)
	return r
''', '''	s.ringAt = (s.ringAt + 1) % len(s.ring)
	r := append(s.ring[s.ringAt][:0], s.lastScanRaw...)
	s.ring[s.ringAt] = r
	return r
'''), ('lexer/scanner/scanner.go', '''	lastScanRaw    []rune
''', '''	lastScanRaw    []rune
	ring           [64][]rune
	ringAt         int
''')], '64 further scans by the same lexer', 'a raw text that was handed out is overwritten', M + '''
func main() {
	l := newLexer("abc " + strings.Repeat("d ", 100))
	l.Next()
	raw := l.RawText
	l.NextN(70)
	eq("raw", string(raw), "abc")
}
''')

bug('p13-equal-comments', 'P13', [('parser/mapField.go', '''	for _, comment := range m.Comments {
		comment.Accept(v)
	}
	if m.InlineComment != nil {
''', '''	for _, comment := range m.Comments {
		comment.Accept(v)
	}
	if n := len(m.Comments); n > 0 && m.InlineComment != nil && *m.Comments[n-1] == *m.InlineComment {
		return
	}
	if m.InlineComment != nil {
''')], 'a built map field whose comments are equal', 'the visitor does not meet the second', M + '''
type counter struct {
	parser.Visitor
	n int
}

func (c *counter) VisitMapField(*parser.MapField) bool { return true }
func (c *counter) VisitComment(*parser.Comment)        { c.n++ }

func main() {
	c := &counter{}
	m := &parser.MapField{Comments: []*parser.Comment{{Raw: "// a"}}, InlineComment: &parser.Comment{Raw: "// a"}}
	m.Accept(c)
	eq("comments", c.n, 2)
}
''')

bug('p26-memo', 'P26', [('interpret/unordered/message.go', '''	messageBody, err := interpretMessageBody(src.MessageBody)
''', '''	if len(src.MessageBody) == 0 {
		return &Message{
			MessageName: src.MessageName,
			MessageBody: emptyMessageBody,
			Comments:    src.Comments, InlineComment: src.InlineComment, InlineCommentBehindLeftCurly: src.InlineCommentBehindLeftCurly,
			Meta: src.Meta,
		}, nil
	}

	messageBody, err := interpretMessageBody(src.MessageBody)
'''), ('interpret/unordered/message.go', '''// InterpretMessage interprets *parser.Message to *Message.
func InterpretMessage(src *parser.Message) (*Message, error) {
	if src == nil {
		return nil, nil
	}
''', '''// emptyMessageBody is the body of every message without one.
var emptyMessageBody = &MessageBody{}

// InterpretMessage interprets *parser.Message to *Message.
func InterpretMessage(src *parser.Message) (*Message, error) {
	if src == nil {
		return nil, nil
	}
''')], 'two empty messages and an edit of the interpretation of one', 'the other changes with it', M + '''
func main() {
	u, err := protoparser.UnorderedInterpret(mustParse("message A {} message B {}"))
	if err != nil {
		fail("%v", err)
	}
	a, b := u.ProtoBody.Messages[0], u.ProtoBody.Messages[1]
	a.MessageBody.Fields = append(a.MessageBody.Fields, &parser.Field{})
	eq("fields of B", len(b.MessageBody.Fields), 0)
}
''')

bug('p19-clone-columns', 'P19', [('lexer/scanner/position.go', '''func (pos Position) AdvancedBulk(s string) Position {
	for _, r := range s {
''', '''func (pos Position) AdvancedBulk(s string) Position {
	columns := make(map[int]int, len(pos.columns))
	for line, column := range pos.columns {
		columns[line] = column
	}
	pos.columns = columns
	for _, r := range s {
''')], 'many lines with comments', 'quadratic time', M + '''
func main() {
	alloc := func(n int) float64 {
		src := strings.Repeat("// a\\n", n)
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		mustParse(src)
		runtime.ReadMemStats(&b)
		return float64(b.TotalAlloc - a.TotalAlloc)
	}
	alloc(10)
	if r := alloc(8000) / alloc(1000); r > 20 {
		fail("8 times the comments take %.0f times the memory", r)
	}
}
''')


bug('p03-max-fold', 'P03', [('parser/reserved.go', '''		p.lex.Text == "max":
''', '''		strings.EqualFold(p.lex.Text, "max"):
'''), ('parser/reserved.go', '''import (
''', '''import (
	"strings"

''')], 'a range up to MAX', 'accepted', M + '''
func main() {
	mustParse("message A { reserved 1 to max; }")
	mustReject("message A { reserved 1 to MAX; }")
	mustReject("message A { extensions 1 to Max; }")
}
''')

bug('p09-to-line', 'P09', [('parser/reserved.go', '''	begin := p.lex.Text

	p.lex.Next()
	if p.lex.Text != "to" {
''', '''	begin := p.lex.Text
	line := p.lex.Pos.Line

	p.lex.Next()
	if p.lex.Text != "to" || p.lex.Pos.Line > line+2 {
''')], 'two blank lines in a range', 'the layout decides whether the file is accepted', M + '''
func main() {
	for i := 0; i < 8; i++ {
		mustParse("message A { reserved 1" + strings.Repeat("\\n", i) + " to 5; }")
	}
}
''')

bug('p10-declaration-eof', 'P10', [('parser/declaration.go', '''		if seen[p.lex.Token] {
''', '''		if p.lex.Token == scanner.TSTRLIT || p.lex.Token == scanner.TILLEGAL {
			continue
		}
		if seen[p.lex.Token] {
''')], 'a reader that fails within a declaration', 'it never ends', M + '''
type broken struct{ r io.Reader }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrClosedPipe
	}
	return n, err
}

func main() {
	done := make(chan bool)
	go func() {
		protoparser.Parse(broken{strings.NewReader("message A { extensions 1 [declaration = { number: 1,")})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("still running")
	}
}
''')


bug('p02-type-keyword', 'P02', [('parser/field.go', '''	if _, ok := typeConstants[p.lex.Text]; ok {
		return p.lex.Text, p.lex.Pos, nil
	}
''', '''	if _, ok := typeConstants[strings.ToLower(p.lex.Text)]; ok {
		return strings.ToLower(p.lex.Text), p.lex.Pos, nil
	}
'''), ('parser/field.go', '''import (
''', '''import (
	"strings"

''')], 'a message type that is spelled like a scalar type but for its case', 'it is taken for the scalar type', M + '''
func main() {
	p := mustParse("message A { String a = 1; Bool.X b = 2; }")
	eq("type", p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Field).Type, "String")
}
''')

bug('p24-exponent-sign', 'P24', [('lexer/scanner/numberLit.go', '''		case '+', '-':
			lit += string(s.read())
		}
''', '''		case '+', '-':
			sign := s.read()
			if sign == '+' && len(lit) == 1 && s.Mode&ScanStrLit != 0 {
				break
			}
			lit += string(sign)
		}
''')], 'a float constant with a plus in its exponent', 'the constant is not as written', M + '''
func main() {
	p := mustParse("option a = 1e+5;")
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, "1e+5")
}
''')

