BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

M = 'package main\n\n'

bug('p02-map-name-type', 'P02', [('parser/mapField.go', '''	mapName := p.lex.Text
''', '''	mapName := p.lex.Text
	if _, ok := typeConstants[mapName]; ok && mapName == typeValue {
		return nil, p.unexpected("mapName")
	}
''')], 'a map field named like its built-in value type', 'a conforming file is rejected', M + '''
func main() {
	mustParse("message A { map<string, string> string = 1; map<int32, bytes> bytes = 2; }")
}
''')

bug('p02-option-part-keyword', 'P02', [('parser/option.go', '''		optionName.WriteString(p.lex.Text)

		p.lex.Next()
		switch p.lex.Token {
		case scanner.TIDENT:
			optionName.WriteString(p.lex.Text)
		case scanner.TLEFTPAREN:
''', '''		optionName.WriteString(p.lex.Text)

		p.lex.NextKeyword()
		switch p.lex.Token {
		case scanner.TIDENT:
			optionName.WriteString(p.lex.Text)
		case scanner.TLEFTPAREN:
''')], 'an option name with a keyword behind a dot', 'a conforming file is rejected', M + '''
func main() {
	p := mustParse("option (a.b).message = 1; option x.rpc.y = 2;")
	eq("name", p.ProtoBody[0].(*parser.Option).OptionName, "(a.b).message")
}
''')

bug('p03-exponent-minus', 'P03', [('lexer/scanner/numberLit.go', '''		case '+', '-':
			lit += string(s.read())
		}
''', '''		case '+', '-':
			lit += string(s.read())
			if next := s.peek(); next == ']' {
				return lit, nil
			}
		}
''')], 'a float without digits in its exponent before a closing bracket', 'a malformed literal is accepted', M + '''
func main() {
	mustReject("message A { float a = 1 [default = 1e-]; }")
	mustReject("message A { float a = 1 [default = 1.5e+]; }")
	mustParse("message A { float a = 1 [default = 1e-5]; }")
}
''')

bug('p03-escaped-newline', 'P03', [('lexer/scanner/strLit.go', '''	case isCharEscape(ch):
		lit += string(s.read())
		return lit
	}
''', '''	case isCharEscape(ch):
		lit += string(s.read())
		return lit
	case ch == '\\r':
		lit += string(s.read())
		if s.peek() == '\\n' {
			lit += string(s.read())
		}
		return lit
	}
''')], 'a backslash in front of a CRLF within a literal', 'an unterminated literal is accepted', M + '''
func main() {
	mustReject("option a = \\"x\\\\\\r\\ny\\";")
	mustReject("option a = \\"x\\\\\\ny\\";")
	mustParse("option a = \\"x\\\\ny\\";")
}
''')

bug('p04-nested-empty-list', 'P04', [('parser/option.go', '''		// parses empty fields within an option
		if p.lex.Peek() != scanner.TRIGHTSQUARE {
			if err := p.parseOptionConstants(ret); err != nil {
				return err
			}
		}

		p.lex.Next()
		if p.lex.Token != scanner.TRIGHTSQUARE {
			return p.unexpected("]")
		}
		ret.WriteString(p.lex.Text)
		return nil
''', '''		// parses empty fields within an option
		if p.lex.Peek() != scanner.TRIGHTSQUARE {
			if err := p.parseOptionConstants(ret); err != nil {
				return err
			}
		}

		p.lex.Next()
		if p.lex.Token != scanner.TRIGHTSQUARE {
			return p.unexpected("]")
		}
		ret.WriteString(p.lex.Text)
		if s := ret.String(); len(s) < 64 && strings.HasSuffix(s, ",[]") {
			// An empty element says nothing.
			ret.Reset()
			ret.WriteString(strings.TrimSuffix(s, ",[]"))
		}
		return nil
''')], 'an empty list behind another element of a list', 'an element is dropped', M + '''
func main() {
	p := mustParse("option (a) = [[1], [], {b: []}];")
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, "[[1],[],{b:[]}]")
}
''')

bug('p04-first-wins', 'P04', [('parser/service.go', '''			options = append(options, option)
		case scanner.TRIGHTCURLY:
''', '''			if n := len(options); 0 < n && options[n-1].OptionName == option.OptionName && options[n-1].Constant == option.Constant {
				// set already
			} else {
				options = append(options, option)
			}
		case scanner.TRIGHTCURLY:
''')], 'a method with the same option twice in a row', 'a statement is dropped', M + '''
func main() {
	p := mustParse("service S { rpc A (B) returns (C) { option a = 1; option a = 1; } }")
	eq("options", len(p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.RPC).Options), 2)
}
''')

bug('p06-extensions-last', 'P06', [('parser/extensions.go', '''	declarations, inlineLeftSquare, err := p.parseDeclarations()
	if err != nil {
		return nil, err
	}

	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}
''', '''	declarations, inlineLeftSquare, err := p.parseDeclarations()
	if err != nil {
		return nil, err
	}
	lastPos := p.lex.Pos

	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}
	if declarations == nil || lastPos.Line == p.lex.Pos.Line {
		lastPos = p.lex.Pos
	}
'''), ('parser/extensions.go', '''		InlineCommentBehindLeftSquare: inlineLeftSquare,
		Meta:                          meta.Meta{Pos: startPos.Position, LastPos: p.lex.Pos.Position},
''', '''		InlineCommentBehindLeftSquare: inlineLeftSquare,
		Meta:                          meta.Meta{Pos: startPos.Position, LastPos: lastPos.Position},
''')], 'extensions with declarations whose semicolon stands on the next line', 'the last position is not that of the semicolon', M + '''
func main() {
	src := "message A { extensions 1 to 5 [declaration = {number: 1, full_name: \\".a\\", type: \\"b\\"}]\\n  ; }"
	e := mustParse(src).ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Extensions)
	eq("last", e.Meta.LastPos.Offset, strings.LastIndex(src, ";"))
}
''')

bug('p07-last-inline', 'P07', [('parser/inlineComment.go', '''	if currentPos.Line != comment.Meta.Pos.Line {
''', '''	if currentPos.Line != comment.Meta.Pos.Line || p.IsEOF() && strings.HasPrefix(comment.Raw, "//") && len(comment.Raw) == 2 {
'''), ('parser/inlineComment.go', '''package parser
''', '''package parser

import "strings"
''')], 'an empty line comment at the very end of the file', 'an inline comment is lost', M + '''
func main() {
	p := mustParse("package a; //")
	if p.ProtoBody[0].(*parser.Package).InlineComment == nil {
		fail("no inline comment")
	}
}
''')

bug('p07-declaration-swap', 'P07', [('parser/extensions.go', '''		declaration.Comments = comments
''', '''		declaration.Comments = comments
		if n := len(declarations); 0 < n && len(comments) == 1 && declarations[n-1].InlineComment == nil && declarations[n-1].Meta.LastPos.Line+1 == comments[0].Meta.Pos.Line && declaration.Meta.Pos.Line > comments[0].Meta.Pos.Line+1 {
			// A comment that is closer to the declaration above belongs to it.
			declarations[n-1].InlineComment, declaration.Comments = comments[0], nil
		}
''')], 'a comment between two declarations that is closer to the first', 'a comment is attached to another element', M + '''
func main() {
	src := "message A { extensions 1 to 5 [declaration = {number: 1, full_name: \\".a\\", type: \\"b\\"},\\n// c\\n\\n declaration = {number: 2, full_name: \\".c\\", type: \\"b\\"}]; }"
	e := mustParse(src).ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Extensions)
	eq("comments", len(e.Declarations[1].Comments), 1)
}
''')

bug('p09-comment-before-dot', 'P09', [('lexer/messageType.go', '''		lex.Next()
		if lex.Token != scanner.TDOT {
			lex.UnNext()
			break
		}
		messageType.WriteString(lex.Text)
''', '''		lex.Next()
		if lex.Token != scanner.TDOT || len(lex.RawText) > 40 {
			lex.UnNext()
			break
		}
		messageType.WriteString(lex.Text)
''')], 'a long gap in front of a dot of a type name', 'layout changes whether a file is accepted', M + '''
func main() {
	mustParse("message A { a" + strings.Repeat(" ", 60) + ".b c = 1; }")
	mustParse("message A { a /* " + strings.Repeat("x", 60) + " */ .b c = 1; }")
}
''')

bug('p11-backslash-name', 'P11', [('lexer/lexer.go', '''		l.scannerOpts = append(l.scannerOpts, scanner.WithFilename(filename))
''', '''		l.scannerOpts = append(l.scannerOpts, scanner.WithFilename(strings.ReplaceAll(filename, "\\\\", "/")))
'''), ('lexer/lexer.go', '''	"runtime"
''', '''	"runtime"
	"strings"
''')], 'a file name with a backslash', 'the file name is not recorded verbatim', M + '''
func main() {
	p := mustParse("package a;", protoparser.WithFilename("a\\\\b.proto"))
	eq("file name", p.ProtoBody[0].(*parser.Package).Meta.Pos.Filename, "a\\\\b.proto")
	eq("file name", p.Meta.Filename, "a\\\\b.proto")
}
''')

bug('p11-debug-peekn', 'P11', [('lexer/lexer.go', '''		lasts = append(lasts, lex.RawText)
		n--
	}
	token := lex.Token
''', '''		lasts = append(lasts, lex.RawText)
		n--
		if lex.debug && 0 < n && lex.Pos.Column > 120 {
			log.Printf("[DEBUG] looked at %q", string(lex.RawText))
			break
		}
	}
	token := lex.Token
''')], 'debug and an empty aggregate beyond column 120', 'debug changes acceptance', M + '''
func main() {
	src := "option (" + strings.Repeat("a", 150) + ") = {};"
	mustParse(src)
	mustParse(src, protoparser.WithDebug(true))
}
''')

bug('p12-nesting-budget', 'P12', [('parser/option.go', '''func (p *Parser) parseCloudEndpointsOptionConstant(ret *strings.Builder) error {
	p.lex.Next()
''', '''func (p *Parser) parseCloudEndpointsOptionConstant(ret *strings.Builder) error {
	defer aggregates.Add(-1)
	if aggregates.Add(1) > 20000 {
		return p.unexpected("fewer aggregates")
	}
	p.lex.Next()
'''), ('parser/option.go', '''// Option can be used in proto files, messages, enums and services.
''', '''// aggregates is how many aggregates are being parsed, to bound the memory.
var aggregates atomic.Int64

// Option can be used in proto files, messages, enums and services.
'''), ('parser/option.go', '''	"strings"
''', '''	"strings"
	"sync/atomic"
''')], 'several parses of deeply nested aggregates at the same time', 'a concurrent parse makes another one fail', M + '''
type slow struct {
	io.Reader
	at func()
	n  int
}

func (s *slow) Read(p []byte) (int, error) {
	if s.n++; s.n == 30 {
		s.at()
	}
	if len(p) > 1024 {
		p = p[:1024]
	}
	return s.Reader.Read(p)
}

func main() {
	src := "option (a) = " + strings.Repeat("{a:", 9000) + "1" + strings.Repeat("}", 9000) + ";"
	mustParse(src)
	// four parses that are all deep in their input at the same time
	var in, out sync.WaitGroup
	in.Add(4)
	errs := make([]error, 4)
	for i := range errs {
		out.Add(1)
		go func(i int) {
			defer out.Done()
			_, errs[i] = protoparser.Parse(&slow{Reader: strings.NewReader(src), at: func() { in.Done(); in.Wait() }})
		}(i)
	}
	out.Wait()
	for _, err := range errs {
		if err != nil {
			fail("%v", err)
		}
	}
}
''')

bug('p12-package-sticky', 'P12', [('parser/package.go', '''	return &Package{
		Name: ident,
''', '''	if last, ok := lastPackage.Load().(string); ok && strings.EqualFold(last, ident) {
		// Share the text.
		ident = last
	}
	lastPackage.Store(ident)
	return &Package{
		Name: ident,
'''), ('parser/package.go', '''import (
''', '''import (
	"strings"
	"sync/atomic"

'''), ('parser/package.go', '''// Package can be used''', '''var lastPackage atomic.Value

// Package can be used''')], 'two files in a row whose packages differ in case only', 'a parse depends on an earlier one', M + '''
func main() {
	eq("name", mustParse("package Foo.bar;").ProtoBody[0].(*parser.Package).Name, "Foo.bar")
	eq("name", mustParse("package foo.Bar;").ProtoBody[0].(*parser.Package).Name, "foo.Bar")
}
''')

bug('p13-body-comments-last', 'P13', [('parser/extend.go', '''	for _, body := range m.ExtendBody {
		body.Accept(v)
	}
''', '''	var behind []Visitee
	for _, body := range m.ExtendBody {
		if c, ok := body.(*Comment); ok {
			behind = append(behind, c)
			continue
		}
		body.Accept(v)
	}
	for _, c := range behind {
		c.Accept(v)
	}
''')], 'an extend with a comment element before another element', 'the elements of a body are not visited in order', M + '''
type order struct {
	parser.Visitor
	seen []string
}

func (o *order) VisitExtend(*parser.Extend) bool                 { return true }
func (o *order) VisitField(f *parser.Field) bool                 { o.seen = append(o.seen, f.FieldName); return false }
func (o *order) VisitEmptyStatement(*parser.EmptyStatement) bool { o.seen = append(o.seen, ";"); return false }
func (o *order) VisitComment(c *parser.Comment)                  { o.seen = append(o.seen, c.Raw) }

func main() {
	p := mustParse("extend A { int32 a = 1;\\n/*x*/\\n; int32 b = 2; }", protoparser.WithBodyIncludingComments(true))
	o := &order{}
	p.ProtoBody[0].Accept(o)
	eq("order", o.seen, "[a /*x*/ ; b]")
}
''')

bug('p14-enum-sorts', 'P14', [('interpret/unordered/enum.go', '''	for _, s := range src {
''', '''	if n := len(src); 3 < n {
		if r, ok := src[0].(*parser.Reserved); ok && r.Comments == nil {
			// Values come first.
			copy(src, src[1:])
			src[n-1] = r
		}
	}
	for _, s := range src {
''')], 'an enum that begins with a reserved statement', 'interpretation changes the ordered tree', M + '''
func main() {
	p := mustParse("enum E { reserved 5; A = 0; B = 1; C = 2; reserved 6; }")
	before := js(p)
	if _, err := protoparser.UnorderedInterpret(p); err != nil {
		fail("%v", err)
	}
	eq("tree", js(p), before)
}
''')

bug('p14-service-option', 'P14', [('interpret/unordered/service.go', '''		case *parser.Option:
			options = append(options, t)
''', '''		case *parser.Option:
			if n := len(options); 0 < n && options[n-1].OptionName == t.OptionName && len(t.Comments) == 0 {
				options[n-1] = t
				continue
			}
			options = append(options, t)
''')], 'a service in which an option is set twice in a row', 'an element is lost', M + '''
func main() {
	p := mustParse("service S { option (a) = 1; option (a) = 2; }")
	u, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		fail("%v", err)
	}
	eq("options", len(u.ProtoBody.Services[0].ServiceBody.Options), 2)
}
''')

bug('p15-peekn-window', 'P15', [('lexer/lexer.go', '''	for i := len(lasts) - 1; 0 <= i; i-- {
		lex.UnNextTo(lasts[i])
	}
''', '''	if len(lasts) > 6 && lex.IsEOF() {
		// The end of the input takes no space.
		lasts = lasts[:len(lasts)-1]
	}
	for i := len(lasts) - 1; 0 <= i; i-- {
		lex.UnNextTo(lasts[i])
	}
''')], 'looking at more than six tokens, the last of which is the end of the input behind white space', 'look-ahead loses input', M + '''
func main() {
	l := newLexer("a b c d e f g   // end\\n  ")
	l.PeekN(8)
	for _, w := range strings.Split("abcdefg", "") {
		l.Next()
		eq("text", l.Text, w)
	}
	l.NextComment()
	eq("comment", l.Text, "// end")
}
''')

bug('p15-consume-gap', 'P15', [('lexer/lexer.go', '''	lex.Next()
	if lex.Token == t {
		return
	}
	lex.UnNext()
}
''', '''	lex.Next()
	if lex.Token == t {
		return
	}
	raw := lex.RawText
	for len(raw) > 1 && raw[0] == '\\n' && raw[1] == '\\n' {
		// Blank lines need not be read again.
		raw = raw[2:]
	}
	lex.UnNextTo(raw)
}
''')], 'a conditional consume in front of blank lines', 'push-back loses characters and positions', M + '''
func main() {
	l := newLexer("a\\n\\n\\n b")
	l.Next()
	l.ConsumeToken(scanner.TSEMICOLON)
	l.Next()
	eq("text", l.Text, "b")
	eq("raw", string(l.RawText), "\\n\\n\\n b")
}
''')

bug('p18-previous-line', 'P18', [('parser/error.go', '''	err := &meta.Error{
		Pos:      p.lex.Pos.Position,
		Expected: expected,
''', '''	pos := p.lex.Pos.Position
	if expected == ";" && p.lex.Token == scanner.TIDENT {
		// It is missing in front of the token.
		pos.Offset--
		pos.Column--
	}
	err := &meta.Error{
		Pos:      pos,
		Expected: expected,
'''), ('parser/error.go', '''	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
''', '''	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
''')], 'a missing semicolon in front of a name at the start of a line', 'line, column and offset of an error do not agree', M + '''
func main() {
	err := mustReject("message A {\\n int32 a = 1\\nb c = 2; }")
	var e *meta.Error
	if !errors.As(err, &e) {
		fail("%T", err)
	}
	if e.Pos.Column < 1 {
		fail("column %d", e.Pos.Column)
	}
}
''')

bug('p18-expected-empty', 'P18', [('parser/error.go', '''		Expected: expected,
''', '''		Expected: strings.Trim(expected, "{};=,()[]\\""),
'''), ('parser/error.go', '''	"fmt"
	"runtime"
''', '''	"fmt"
	"runtime"
	"strings"
''')], 'an error where a symbol was expected', 'the error does not state what was expected', M + '''
func main() {
	for _, src := range []string{"package a", "message A [", "enum A { A + 1; }", "service"} {
		var e *meta.Error
		if err := mustReject(src); !errors.As(err, &e) || e.Expected == "" {
			fail("%q: nothing expected", src)
		}
	}
}
''')

bug('p19-names-scan', 'P19', [('parser/reserved.go', '''			// If it's a comma, parse the next field name
			fieldName, err = p.parseFieldName()
			if err != nil {
				return nil, err
			}
''', '''			// If it's a comma, parse the next field name
			fieldName, err = p.parseFieldName()
			if err != nil {
				return nil, err
			}
			for _, other := range fieldNames {
				if other == fieldName {
					fieldName = other
				}
			}
''')], 'a reserved statement with many names', 'quadratic work', M + '''
func cost(n int) time.Duration {
	var b strings.Builder
	b.WriteString("message A { reserved \\"x\\"")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, ", \\"n%d\\"", i)
	}
	b.WriteString("; }")
	best := time.Hour
	for i := 0; i < 3; i++ {
		t := time.Now()
		mustParse(b.String())
		if d := time.Since(t); d < best {
			best = d
		}
	}
	return best
}

func main() {
	a, b := cost(8000), cost(64000)
	if b > 24*a {
		fail("%v for 8000, %v for 64000", a, b)
	}
}
''')

bug('p20-modifier-sticky', 'P20', [('parser/import.go', '''	location := p.lex.Text
''', '''	location := p.lex.Text
	if modifier == ImportModifierNone {
		modifier = p.modifiers[location]
	} else {
		if p.modifiers == nil {
			p.modifiers = map[string]ImportModifier{}
		}
		p.modifiers[location] = modifier
	}
'''), ('parser/parser.go', '''	permissive            bool
	bodyIncludingComments bool
}
''', '''	permissive            bool
	bodyIncludingComments bool

	// modifiers are the modifiers of the imports.
	modifiers map[string]ImportModifier
}
''')], 'a file imported twice, first with a modifier', 'a statement depends on an earlier one', M + '''
func main() {
	p := mustParse("import weak \\"a\\"; package x; import \\"a\\";")
	eq("modifier", p.ProtoBody[2].(*parser.Import).Modifier, parser.ImportModifierNone)
}
''')

bug('p21-dot-name', 'P21', [('_example/dump/main.go', '''		protoparser.WithFilename(filepath.Base(*proto)),
''', '''		protoparser.WithFilename(strings.TrimPrefix(filepath.Base(*proto), ".")),
'''), ('_example/dump/main.go', '''	"os"
''', '''	"os"
	"strings"
''')], 'a file whose name begins with a dot', 'the tree written is not the one the library returns', M + '''
func main() {
	tmp, repo := os.Getenv("TMPD"), os.Getenv("REPO")
	bin := tmp + "/dumpcmd"
	build := exec.Command("go", "build", "-o", bin, ".")
	build.Dir = repo + "/_example/dump"
	build.Env = append(os.Environ(), "GOFLAGS=")
	if out, err := build.CombinedOutput(); err != nil {
		fail("build: %v %s", err, out)
	}
	file := tmp + "/.hidden.proto"
	if err := os.WriteFile(file, []byte("package a;"), 0o600); err != nil {
		fail("%v", err)
	}
	out, err := exec.Command(bin, "-proto", file).Output()
	if err != nil {
		fail("%v", err)
	}
	p := mustParse("package a;", protoparser.WithFilename(".hidden.proto"))
	want, _ := json.MarshalIndent(p, "", "  ")
	eq("output", string(out), string(want))
}
''')

bug('p22-error-place', 'P22', [('parser/meta/error.go', '''	if e.occuredAt == 0 && e.occuredIn == "" {
''', '''	if e.occuredAt == 0 || e.occuredIn == "" {
''')], 'an error for which only one of file and line was recorded', 'the place in the code is not stated', M + '''
func main() {
	e := &meta.Error{Found: "a", Expected: "b"}
	e.SetOccured("x.go", 0)
	if !strings.Contains(e.Error(), "x.go") {
		fail("%v", e)
	}
}
''')

bug('p22-error-clip', 'P22', [('parser/meta/error.go', '''	return fmt.Sprintf("found %q but expected [%s] at %s:%d", e.Found, e.Expected, e.occuredIn, e.occuredAt)
''', '''	found := e.Found
	if len(found) > 2000 {
		found = found[:1000]
	}
	return fmt.Sprintf("found %q but expected [%s] at %s:%d", found, e.Expected, e.occuredIn, e.occuredAt)
''')], 'an error at a token of more than 2000 characters', 'the error does not state what was found', M + '''
func main() {
	err := mustReject("package " + strings.Repeat("1", 3000) + ";")
	err = mustReject("message A { " + strings.Repeat("x", 3000) + "\\n}")
	var e *meta.Error
	if !errors.As(err, &e) {
		fail("%T", err)
	}
	long := &meta.Error{Found: strings.Repeat("x", 3000), Expected: "y"}
	long.SetOccured("a.go", 1)
	if !strings.Contains(long.Error(), strings.Repeat("x", 3000)) {
		fail("clipped")
	}
}
''')

bug('p23-revert-forget', 'P23', [('lexer/scanner/position.go', '''		pos.Line--
		pos.Column = pos.columns[pos.Line]
''', '''		pos.Line--
		pos.Column = pos.columns[pos.Line]
		delete(pos.columns, pos.Line)
''')], 'reverting over the same line end with two copies of a position', 'a copy of a position is altered', M + '''
func main() {
	p := scanner.NewPosition()
	for _, r := range "abc\\nd" {
		p.Advance(r)
	}
	c := *p
	p.Revert('d')
	p.Revert('\\n')
	c.Revert('d')
	c.Revert('\\n')
	eq("column", c.Column, p.Column)
}
''')

bug('p23-bulk-shortcut', 'P23', [('lexer/scanner/position.go', '''	for _, r := range s {
		pos.Advance(r)
	}
	last, _ := utf8.DecodeLastRuneInString(s)
''', '''	if len(s) > 64 && strings.IndexByte(s, '\\n') < 0 {
		pos.Offset += len(s) - 1
		pos.Column += utf8.RuneCountInString(s) - 1
		return pos
	}
	for _, r := range s {
		pos.Advance(r)
	}
	last, _ := utf8.DecodeLastRuneInString(s)
'''), ('lexer/scanner/position.go', '''import (
	"unicode/utf8"
''', '''import (
	"strings"
	"unicode/utf8"
''')], 'a long comment on one line that ends with a multi-byte character', 'the last position is not that of the last character', M + '''
func main() {
	s := "//" + strings.Repeat("x", 80) + "é"
	p := mustParse("package a; " + s)
	eq("offset", p.ProtoBody[0].(*parser.Package).InlineComment.Meta.LastPos.Offset, 11+82)
}
''')

bug('p23-long-line', 'P23', [('lexer/scanner/position.go', '''		pos.columns[pos.Line] = pos.Column

''', '''		pos.columns[pos.Line] = int(uint16(pos.Column))

'''), ], 'a line of more than 65535 characters whose end is reverted over', 'reverting does not restore the position', M + '''
func main() {
	p := scanner.NewPosition()
	for i := 0; i < 70000; i++ {
		p.Advance('x')
	}
	p.Advance('\\n')
	p.Revert('\\n')
	eq("column", p.Column, 70001)
}
''')
