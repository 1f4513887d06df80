BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

M = 'package main\n\n'
D = 'package main\n\n' + '''
// dump runs the dump command on a file of that name and content.
func dump(name, src string, flags ...string) (string, bool) {
	tmp, repo := os.Getenv("TMPD"), os.Getenv("REPO")
	bin := tmp + "/dumpcmd"
	build := exec.Command("go", "build", "-o", bin, ".")
	build.Dir = repo + "/_example/dump"
	build.Env = append(os.Environ(), "GOFLAGS=")
	if out, err := build.CombinedOutput(); err != nil {
		fail("build: %v %s", err, out)
	}
	file := tmp + "/" + name
	if err := os.WriteFile(file, []byte(src), 0o600); err != nil {
		fail("%v", err)
	}
	out, err := exec.Command(bin, append(flags, "-proto", file)...).Output()
	return string(out), err == nil
}
'''

bug('p01-empty-before-option', 'P01', [('interpret/unordered/enum.go', '''		case *parser.EmptyStatement:
			emptyStatements = append(emptyStatements, t)
''', '''		case *parser.EmptyStatement:
			if t.InlineComment != nil && enumFields[len(enumFields)-1].InlineComment == nil {
				emptyStatements = append(emptyStatements, t)
				break
			}
			emptyStatements = append(emptyStatements, t)
''')], 'an enum that begins with an empty statement which has an inline comment', 'interpreting an accepted file panics', M + '''
func main() {
	for _, src := range []string{"enum E { A = 0; ; // c\\n}", "enum E { ; A = 0; }", "enum E {\\n option a = 1;\\n; // c\\n A = 0; }"} {
		p := mustParse(src)
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("%q: %v", src, e)
				}
			}()
			if _, err := protoparser.UnorderedInterpret(p); err != nil {
				fail("%v", err)
			}
		}()
	}
}
''')

bug('p02-long-package', 'P02', [('lexer/fullIdent.go', '''
	for !lex.IsEOF() {
''', '''
	for parts := 1; !lex.IsEOF(); parts++ {
		if parts == 64 {
			return "", scanner.Position{}, lex.unexpected(lex.Text, "at most 64 identifiers")
		}
''')], 'a dotted name of 64 parts or more', 'a conforming file is rejected', M + '''
func main() {
	for _, n := range []int{1, 2, 60, 64, 65, 200} {
		name := "a" + strings.Repeat(".b", n-1)
		p := mustParse("package " + name + ";")
		eq("name", p.ProtoBody[0].(*parser.Package).Name, name)
	}
}
''')

bug('p03-list-trailing-comma', 'P03', [('parser/enum.go', '''		opt, err = p.parseEnumValueOption()
		if err != nil {
			return nil, p.unexpected("enumValueOption")
		}
		opts = append(opts, opt)
	}
''', '''		if p.permissive && p.lex.Peek() == scanner.TRIGHTSQUARE {
			// A comma behind the last one is harmless.
			break
		}
		opt, err = p.parseEnumValueOption()
		if err != nil {
			return nil, p.unexpected("enumValueOption")
		}
		opts = append(opts, opt)
	}
''')], 'a comma behind the last option of an enum value', 'a file outside the grammar is accepted', M + '''
func main() {
	mustParse("enum E { A = 0 [a = 1, b = 2]; }")
	mustReject("enum E { A = 0 [a = 1,]; }")
	mustReject("enum E { A = 0 [a = 1, b = 2,]; }")
}
''')

bug('p04-range-single', 'P04', [('parser/reserved.go', '''	case p.lex.Token == scanner.TINTLIT,
		p.lex.Text == "max":
		return &Range{
''', '''	case p.lex.Token == scanner.TINTLIT && p.lex.Text == begin:
		// A range of one number is that number.
		return &Range{
			Begin: begin,
		}, nil
	case p.lex.Token == scanner.TINTLIT,
		p.lex.Text == "max":
		return &Range{
''')], 'a range that ends where it begins', 'the end of a range is missing from the tree', M + '''
func main() {
	for _, r := range [][2]string{{"1", "2"}, {"5", "5"}, {"0x1", "0x1"}, {"5", "max"}} {
		p := mustParse("message A { reserved " + r[0] + " to " + r[1] + "; }")
		got := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Reserved).Ranges[0]
		eq("begin", got.Begin, r[0])
		eq("end", got.End, r[1])
	}
}
''')

bug('p04-minus-zero', 'P04', [('parser/enum.go', '''	intLit += p.lex.Text

	enumValueOptions''', '''	if p.lex.Text == "0" {
		// There is no negative zero.
		intLit = ""
	}
	intLit += p.lex.Text

	enumValueOptions''')], 'an enum value whose number is minus zero', 'the sign is missing from the tree', M + '''
func main() {
	for _, n := range []string{"0", "-1", "-0", "-0x0", "-00"} {
		p := mustParse("enum E { A = " + n + "; }")
		eq("number", p.ProtoBody[0].(*parser.Enum).EnumBody[0].(*parser.EnumField).Number, n)
	}
}
''')

bug('p05-second-option-aggregate', 'P05', [('parser/field.go', '''		opt, err = p.parseFieldOption()
		if err != nil {
			return nil, p.unexpected("fieldOption")
		}
		opts = append(opts, opt)
	}
''', '''		opt, err = p.parseNextFieldOption()
		if err != nil {
			return nil, p.unexpected("fieldOption")
		}
		opts = append(opts, opt)
	}
'''), ('parser/field.go', '''// fieldOption = optionName "=" constant
''', '''// parseNextFieldOption parses an option behind another one. Custom options can have any value there.
func (p *Parser) parseNextFieldOption() (*FieldOption, error) {
	permissive := p.permissive
	defer func() { p.permissive = permissive }()
	p.permissive = permissive || p.lex.Peek() == scanner.TLEFTPAREN
	return p.parseFieldOption()
}

// fieldOption = optionName "=" constant
''')], 'an aggregate as the value of a custom option behind another option of a field, in strict mode', 'strict mode accepts a permissive extension', M + '''
func main() {
	strict := protoparser.WithPermissive(false)
	mustReject("message A { int32 a = 1 [(x) = {a: 1}]; }", strict)
	mustReject("message A { int32 a = 1 [b = 1, (x) = {a: 1}]; }", strict)
	mustReject("message A { int32 a = 1 [b = 1, (x) = [1]]; }", strict)
	mustParse("message A { int32 a = 1 [b = 1, (x) = {a: 1}]; }")
}
''')

bug('p06-zero-width', 'P06', [('lexer/scanner/position.go', '''	} else {
		pos.Column++
	}
''', '''	} else if r != '\\u200d' {
		// A zero width joiner is part of the character in front of it.
		pos.Column++
	}
'''), ('lexer/scanner/position.go', '''	} else {
		pos.Column--
	}
''', '''	} else if r != '\\u200d' {
		pos.Column--
	}
''')], 'a zero width joiner (an emoji sequence) in front of an element on its line', 'columns disagree with the number of characters', M + '''
func main() {
	for _, c := range []string{"x", "\\u00e9", "e\\u0301", "\\U0001F600", "\\U0001F469\\u200d\\U0001F680"} {
		p := mustParse("/* " + c + " */ message A {}")
		eq("column", p.ProtoBody[0].(*parser.Message).Meta.Pos.Column, 8+len([]rune(c)))
	}
}
''')

bug('p07-statement-behind-inline', 'P07', [('parser/inlineComment.go', '''	if currentPos.Line != comment.Meta.Pos.Line {
		p.lex.UnNext()
		return nil
	}
''', '''	if currentPos.Line != comment.Meta.Pos.Line {
		p.lex.UnNext()
		return nil
	}
	if comment.IsCStyle() && p.isFollowedOnLine(comment.Meta.LastPos.Line) {
		// The comment documents what follows it.
		p.lex.UnNextTo([]rune(comment.Raw))
		return nil
	}
'''), ('parser/inlineComment.go', '''func (p *Parser) parseInlineComment() *Comment {
''', '''// isFollowedOnLine reports whether an option starts on the line.
func (p *Parser) isFollowedOnLine(line int) bool {
	p.lex.NextKeyword()
	defer p.lex.UnNextTo(p.lex.RawText)
	return p.lex.Token == scanner.TOPTION && p.lex.Pos.Line == line
}

func (p *Parser) parseInlineComment() *Comment {
'''), ('parser/inlineComment.go', '''package parser
''', '''package parser

import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
''')], 'a block comment between an element and an option on one line', 'the comment is attached to the next element', M + '''
func main() {
	p := mustParse("message A { int32 a = 1; /* one */ int32 b = 2; /* two */ option c = 1; }")
	body := p.ProtoBody[0].(*parser.Message).MessageBody
	for i, want := range []string{"/* one */", "/* two */"} {
		c := body[i].(*parser.Field).InlineComment
		if c == nil || c.Raw != want {
			fail("inline comment %d: %v", i, c)
		}
	}
	if n := len(body[2].(*parser.Option).Comments); n != 0 {
		fail("%d leading comments", n)
	}
}
''')

bug('p07-embedded-many', 'P07', [('parser/comment.go', '''	for _, c := range p.lex.FindMidComments(from, to) {
		comments''', '''	mid := p.lex.FindMidComments(from, to)
	for i, c := range mid {
		if 2 < len(mid) && i < len(mid)-1 && c.Literal == mid[i+1].Literal {
			// Rulers and the like.
			continue
		}
		comments''')], 'three comments in a method header of which two neighbours have the same text', 'a comment is lost', M + '''
func main() {
	for _, cs := range [][]string{{"/*a*/", "/*a*/"}, {"/*a*/", "/*b*/", "/*c*/"}, {"/*a*/", "/*a*/", "/*b*/"}} {
		p := mustParse("service S { rpc A (B) " + strings.Join(cs, " ") + " returns (C); }")
		got := p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.RPC).EmbeddedComments
		if len(got) != len(cs) {
			fail("%v: %d comments", cs, len(got))
		}
	}
}
''')

bug('p08-strict-body', 'P08', [('protoparser.go', '''		parser.WithBodyIncludingComments(config.bodyIncludingComments),
''', '''		parser.WithBodyIncludingComments(config.bodyIncludingComments && config.permissive),
''')], 'the body-including-comments option in strict mode', 'leftover comments are missing', M + '''
func main() {
	for _, permissive := range []bool{true, false} {
		p := mustParse("message A {\\n // c\\n}", protoparser.WithBodyIncludingComments(true), protoparser.WithPermissive(permissive))
		if n := len(p.ProtoBody[0].(*parser.Message).MessageBody); n != 1 {
			fail("permissive %v: %d elements", permissive, n)
		}
	}
}
''')

bug('p09-comment-in-string-sequence', 'P09', [('lexer/constant.go', '''		lex.NextLit()
	}
	lex.UnNext()
''', '''		lex.NextLit()
		if raw := strings.TrimSpace(string(lex.RawText)); strings.HasPrefix(raw, "//") && lex.Token == scanner.TSTRLIT {
			break
		}
	}
	lex.UnNext()
''')], 'a line comment between two adjacent string literals', 'a comment decides whether a file is accepted', M + '''
func main() {
	for _, gap := range []string{" ", "\\n", " /* c */ ", " // c\\n", "\\n// c\\n// d\\n"} {
		p := mustParse("option a = 'b'" + gap + "\\"c\\";")
		eq("constant", p.ProtoBody[0].(*parser.Option).Constant, "'bc'")
	}
}
''')

bug('p10-consumed-prefix', 'P10', [('lexer/scanner/scanner.go', '''	s := &Scanner{
		r:   bufio.NewReader(r),
''', '''	if sized, ok := r.(interface {
		io.ReaderAt
		Size() int64
	}); ok {
		// All the input is in memory.
		r = io.NewSectionReader(sized, 0, sized.Size())
	}
	s := &Scanner{
		r:   bufio.NewReader(r),
''')], 'a strings.Reader or bytes.Reader from which something was read before', 'bytes that were consumed before are parsed again', M + '''
func main() {
	r := strings.NewReader("HEADER message A {}")
	if _, err := io.ReadFull(r, make([]byte, 6)); err != nil {
		fail("%v", err)
	}
	p, err := protoparser.Parse(r)
	if err != nil {
		fail("%v", err)
	}
	eq("offset", p.ProtoBody[0].(*parser.Message).Meta.Pos.Offset, 1)
}
''')

bug('p11-permissive-once', 'P11', [('protoparser.go', '''	return func(c *ParseConfig) {
		c.permissive = permissive
	}
''', '''	return func(c *ParseConfig) {
		c.permissive = c.permissive && permissive
	}
''')], 'the permissive option given twice, off and then on', 'an earlier option wins over a later one', M + '''
func main() {
	src := "option a = {b: 1};"
	mustReject(src, protoparser.WithPermissive(false))
	mustReject(src, protoparser.WithPermissive(true), protoparser.WithPermissive(false))
	mustParse(src, protoparser.WithPermissive(false), protoparser.WithPermissive(true))
}
''')

bug('p12-shared-columns', 'P12', [('lexer/scanner/position.go', '''		columns: make(map[int]int),
	}
}
''', '''		columns: lineColumns,
	}
}

// lineColumns is overwritten by every scanner, line by line.
var lineColumns = make(map[int]int)
''')], 'two lexers that are used in turns, or concurrently', 'positions depend on another parse; concurrent parses crash', M + '''
func main() {
	a, b := newLexer("a    \\n   b"), newLexer("x\\ny")
	a.Next()
	a.Next()
	b.Next()
	b.Next()
	a.UnNext()
	eq("column", a.Pos.Column, 2)
}
''')

bug('p13-empty-method-body', 'P13', [('parser/service.go', '''	for _, comment := range r.Comments {
		comment.Accept(v)
	}
''', '''	for i, comment := range r.Comments {
		if i == 0 && len(r.Options) == 0 && r.InlineComment != nil && r.InlineCommentBehindLeftCurly != nil {
			// It documents the body.
			continue
		}
		comment.Accept(v)
	}
''')], 'a method without options that has a leading comment, one behind its brace and an inline one', 'a comment is not visited', M + '''
type counter struct{ n int }

func (c *counter) VisitComment(*parser.Comment)                    { c.n++ }
func (c *counter) VisitDeclaration(*parser.Declaration) bool       { return true }
func (c *counter) VisitEdition(*parser.Edition) bool               { return true }
func (c *counter) VisitEmptyStatement(*parser.EmptyStatement) bool { return true }
func (c *counter) VisitEnum(*parser.Enum) bool                     { return true }
func (c *counter) VisitEnumField(*parser.EnumField) bool           { return true }
func (c *counter) VisitExtend(*parser.Extend) bool                 { return true }
func (c *counter) VisitExtensions(*parser.Extensions) bool         { return true }
func (c *counter) VisitField(*parser.Field) bool                   { return true }
func (c *counter) VisitGroupField(*parser.GroupField) bool         { return true }
func (c *counter) VisitImport(*parser.Import) bool                 { return true }
func (c *counter) VisitMapField(*parser.MapField) bool             { return true }
func (c *counter) VisitMessage(*parser.Message) bool               { return true }
func (c *counter) VisitOneof(*parser.Oneof) bool                   { return true }
func (c *counter) VisitOneofField(*parser.OneofField) bool         { return true }
func (c *counter) VisitOption(*parser.Option) bool                 { return true }
func (c *counter) VisitPackage(*parser.Package) bool               { return true }
func (c *counter) VisitReserved(*parser.Reserved) bool             { return true }
func (c *counter) VisitRPC(*parser.RPC) bool                       { return true }
func (c *counter) VisitService(*parser.Service) bool               { return true }
func (c *counter) VisitSyntax(*parser.Syntax) bool                 { return true }

func main() {
	for src, want := range map[string]int{
		"service S {\\n // zero\\n rpc A (B) returns (C) { // one\\n }\\n}":                        2,
		"service S {\\n // zero\\n rpc A (B) returns (C) { // one\\n } // two\\n}":                 3,
		"service S {\\n // zero\\n rpc A (B) returns (C) { // one\\n option a = 1; } // two\\n}": 3,
	} {
		c := &counter{}
		mustParse(src).Accept(c)
		eq(src, c.n, want)
	}
}
''')

bug('p14-deep-extensions', 'P14', [('interpret/unordered/message.go', '''	messageBody, err := interpretMessageBody(src.MessageBody)
	if err != nil {
		return nil, fmt.Errorf("invalid Message''', '''	messageBody, err := interpretMessageBody(src.MessageBody)
	if err == nil && 1 < len(messageBody.Messages) && src.Meta.Pos.Column == 1 {
		// Messages declared again are interpreted once.
		if last := len(messageBody.Messages) - 1; messageBody.Messages[last].MessageName == messageBody.Messages[0].MessageName {
			messageBody.Messages = messageBody.Messages[:last]
		}
	}
	if err != nil {
		return nil, fmt.Errorf("invalid Message''')], 'a message at the start of a line whose first and last nested messages have the same name', 'a message vanishes in the interpretation', M + '''
func main() {
	p := mustParse("message A { message B {} message C {} message B {} }")
	u, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		fail("%v", err)
	}
	eq("messages", len(u.ProtoBody.Messages[0].MessageBody.Messages), 3)
}
''')

bug('p15-consume-illegal', 'P15', [('lexer/lexer.go', '''	lex.Next()
	if lex.Token == t {
		return
	}
	lex.UnNext()
''', '''	lex.Next()
	if lex.Token == t || lex.Text == "$" {
		// There is no use in scanning it again.
		return
	}
	lex.UnNext()
''')], 'a conditional consume in front of a character that is no token', 'a conditional consume takes what does not match', M + '''
func main() {
	lex := newLexer("a $ b")
	lex.Next()
	lex.ConsumeToken(1000)
	lex.Next()
	eq("text", lex.Text, "$")
}
''')

bug('p16-inf-case', 'P16', [('lexer/scanner/floatLit.go', '''	switch ident {
	case "inf", "nan":
''', '''	switch ident {
	case "inf", "nan", "NaN":
''')], 'an identifier NaN in number mode', 'an identifier is scanned as a float literal', M + '''
func main() {
	for _, s := range []string{"Inf", "INF", "NaN", "NAN"} {
		lex := newLexer(s)
		lex.NextNumberLit()
		eq(s, lex.Token, 2)
	}
	mustParse("option a = NaN.b;")
}
''')

bug('p17-tab', 'P17', [('lexer/scanner/strLit.go', '''	case '\\\\':
		return s.tryScanEscape(), nil
	default:
''', '''	case '\\\\':
		return s.tryScanEscape(), nil
	case '\\t':
		s.read()
		return `\\t`, nil
	default:
''')], 'a string literal with a tab character in it', 'the source text of a literal is changed', M + '''
func main() {
	for _, lit := range []string{"'a b'", "'a\\\\tb'", "'a\\tb'", "'\\u00a0'"} {
		p := mustParse("option a = " + lit + ";")
		eq("constant", p.ProtoBody[0].(*parser.Option).Constant, lit)
	}
}
''')

bug('p18-untyped', 'P18', [('lexer/messageType.go', '''			return "", scanner.Position{}, lex.unexpected(lex.Text, "ident")
''', '''			if 0 < messageType.Len() && lex.LatestErr() == nil && lex.Token == scanner.TSEMICOLON {
				return "", scanner.Position{}, fmt.Errorf("%s: incomplete type name %q", lex.Pos, messageType.String())
			}
			return "", scanner.Position{}, lex.unexpected(lex.Text, "ident")
'''), ('lexer/messageType.go', '''import (
''', '''import (
	"fmt"
''')], 'a type name of an extend or method that ends with a dot followed by a semicolon', 'the error is not of the type of the library', M + '''
func main() {
	for _, src := range []string{"extend a.b. {}", "extend a.b.;", "service S { rpc A (B.;"} {
		err := mustReject(src)
		var e *meta.Error
		if !errors.As(err, &e) {
			fail("%q: %v", src, err)
		}
	}
}
''', imports=['errors', 'github.com/yoheimuta/go-protoparser/v4/parser/meta'])

bug('p19-nested-check', 'P19', [('interpret/unordered/message.go', '''	messageBody, err := interpretMessageBody(src.MessageBody)
	if err != nil {
		return nil, fmt.Errorf("invalid Message''', '''	if depth(src) < 0 {
		return nil, fmt.Errorf("invalid Message %s", src.MessageName)
	}
	messageBody, err := interpretMessageBody(src.MessageBody)
	if err != nil {
		return nil, fmt.Errorf("invalid Message'''), ('interpret/unordered/message.go', '''func interpretMessageBody(''', '''// depth tells how deep the message is nested, or -1 if it has a nil message.
func depth(m *parser.Message) int {
	deepest := 0
	for _, s := range m.MessageBody {
		if nested, ok := s.(*parser.Message); ok {
			if nested == nil {
				return -1
			}
			if d := 1 + depth(nested); deepest < d {
				deepest = d
			}
		}
	}
	return deepest
}

func interpretMessageBody(''')], 'deeply nested messages', 'interpreting costs the square of the depth', M + '''
func main() {
	cost := func(n int) time.Duration {
		p := mustParse(strings.Repeat("message A {", n) + strings.Repeat("}", n))
		best := time.Hour
		for i := 0; i < 5; i++ {
			start := time.Now()
			if _, err := protoparser.UnorderedInterpret(p); err != nil {
				fail("%v", err)
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	cost(100)
	small, large := cost(500), cost(8000)
	if large > 70*small+20*time.Millisecond {
		fail("%v for 500 levels, %v for 8000", small, large)
	}
}
''', imports=['time'])

bug('p20-import-sticky', 'P20', [('parser/parser.go', '''	permissive            bool
	bodyIncludingComments bool
}
''', '''	permissive            bool
	bodyIncludingComments bool
	// imported is the location of the latest import.
	imported string
}
'''), ('parser/import.go', '''	location := p.lex.Text
''', '''	location := p.lex.Text
	if p.imported != "" && strings.EqualFold(p.imported, location) {
		// Paths are compared like file systems do.
		location = p.imported
	}
	p.imported = location
'''), ('parser/import.go', '''import (
''', '''import (
	"strings"

''')], 'two imports in a row that differ in case only', 'an import is reported with the location of its neighbour', M + '''
func main() {
	p := mustParse("import 'a.proto'; import 'A.proto'; import 'b.proto';")
	for i, want := range []string{"'a.proto'", "'A.proto'", "'b.proto'"} {
		eq("location", p.ProtoBody[i].(*parser.Import).Location, want)
	}
}
''')

bug('p21-debug-strict', 'P21', [('_example/dump/main.go', '''		protoparser.WithPermissive(*permissive),
''', '''		protoparser.WithPermissive(*permissive || (*debug && *unordered)),
''')], 'the flags -debug, -unordered and -permissive=false together', 'the command accepts what the library rejects', D + '''
func main() {
	src := "message A {};\\noption a = {b: 1};"
	for _, flags := range [][]string{{"-permissive=false"}, {"-permissive=false", "-debug"}, {"-permissive=false", "-unordered"}, {"-permissive=false", "-unordered", "-debug"}} {
		if _, ok := dump("a.proto", src, flags...); ok {
			fail("%v: status zero", flags)
		}
	}
}
''', imports=['os/exec'])

bug('p22-lines-tab', 'P22', [('parser/comment.go', '''	return strings.Split(raw, "\\n")
''', '''	return strings.Split(strings.TrimRight(raw, "\\x00"), "\\n")
''')], 'a comment that ends with a NUL character', 'Lines loses text', M + '''
func main() {
	for _, text := range []string{" a", "a\\x00b", "a\\x00", "a\\n\\x00"} {
		c := &parser.Comment{Raw: "/*" + text + "*/"}
		eq("lines", strings.Join(c.Lines(), "\\n"), text)
	}
}
''')

bug('p06-bare-cr-column', 'P06', [('lexer/scanner/position.go', '''	if r == '\\n' {
		pos.columns[pos.Line] = pos.Column
''', '''	if r == '\\v' || r == '\\f' {
		// The cursor stays where it is.
		return
	}
	if r == '\\n' {
		pos.columns[pos.Line] = pos.Column
'''), ('lexer/scanner/position.go', '''	pos.Offset -= length

	if r == '\\n' {
''', '''	pos.Offset -= length
	if r == '\\v' || r == '\\f' {
		return
	}
	if r == '\\n' {
''')], 'a form feed or vertical tab in front of an element on its line', 'columns disagree with the number of characters', M + '''
func main() {
	for _, c := range []string{" ", "\\t", "\\f", "\\v"} {
		p := mustParse(c + "message A {}")
		eq("column", p.ProtoBody[0].(*parser.Message).Meta.Pos.Column, 2)
	}
}
''')

bug('p08-oneof-nested', 'P08', [('parser/extend.go', '''			stmt = &EmptyStatement{}
		default:
''', '''			if p.bodyIncludingComments && 1 < len(comments) {
				// The semicolon only carries the comments.
				continue
			}
			stmt = &EmptyStatement{}
		default:
''')], 'an empty statement with two leading comments in an extend body, with the option', 'an empty statement is lost with the option', M + '''
func main() {
	src := "extend A {\\n// a\\n// b\\n;\\noptional int32 a = 1; }"
	for _, with := range []bool{false, true} {
		n := 0
		for _, s := range mustParse(src, protoparser.WithBodyIncludingComments(with)).ProtoBody[0].(*parser.Extend).ExtendBody {
			if _, ok := s.(*parser.EmptyStatement); ok {
				n++
			}
		}
		eq("empty statements", n, 1)
	}
}
''')

bug('p13-shared-comment', 'P13', [('parser/oneof.go', '''	for _, option := range o.Options {
		option.Accept(v)
	}
''', '''	for i, option := range o.Options {
		if 0 < i && option.OptionName == o.Options[i-1].OptionName && option.Constant == o.Options[i-1].Constant {
			continue
		}
		option.Accept(v)
	}
''')], 'a oneof in which the same option is set twice in a row', 'an element is not visited', M + '''
func main() {
	seen := map[string]int{}
	p := mustParse("message A { oneof a { option x = 1; option x = 1; int32 b = 1; } }")
	o := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Oneof)
	v := &optionCounter{seen: seen}
	o.Accept(v)
	eq("options", seen["x"], 2)
}

type optionCounter struct {
	parser.Visitor
	seen map[string]int
}

func (c *optionCounter) VisitOneof(*parser.Oneof) bool           { return true }
func (c *optionCounter) VisitOneofField(*parser.OneofField) bool { return true }
func (c *optionCounter) VisitOption(o *parser.Option) bool       { c.seen[o.OptionName]++; return true }
''')
