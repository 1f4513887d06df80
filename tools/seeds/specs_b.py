BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

M = 'package main\n\n'
P = 'package main\n\nimport "github.com/yoheimuta/go-protoparser/v4/parser"\n\n'
V = r'''
type counter struct{ seen map[interface{}]int; prune bool }

func (c *counter) add(n interface{}) bool { c.seen[n]++; return !c.prune }
func (c *counter) VisitComment(n *parser.Comment) { c.seen[n]++ }
func (c *counter) VisitDeclaration(n *parser.Declaration) bool { return c.add(n) }
func (c *counter) VisitEdition(n *parser.Edition) bool { return c.add(n) }
func (c *counter) VisitEmptyStatement(n *parser.EmptyStatement) bool { return c.add(n) }
func (c *counter) VisitEnum(n *parser.Enum) bool { return c.add(n) }
func (c *counter) VisitEnumField(n *parser.EnumField) bool { return c.add(n) }
func (c *counter) VisitExtend(n *parser.Extend) bool { return c.add(n) }
func (c *counter) VisitExtensions(n *parser.Extensions) bool { return c.add(n) }
func (c *counter) VisitField(n *parser.Field) bool { return c.add(n) }
func (c *counter) VisitGroupField(n *parser.GroupField) bool { c.seen[n]++; return !c.prune }
func (c *counter) VisitImport(n *parser.Import) bool { return c.add(n) }
func (c *counter) VisitMapField(n *parser.MapField) bool { return c.add(n) }
func (c *counter) VisitMessage(n *parser.Message) bool { c.seen[n]++; return true }
func (c *counter) VisitOneof(n *parser.Oneof) bool { return c.add(n) }
func (c *counter) VisitOneofField(n *parser.OneofField) bool { return c.add(n) }
func (c *counter) VisitOption(n *parser.Option) bool { return c.add(n) }
func (c *counter) VisitPackage(n *parser.Package) bool { return c.add(n) }
func (c *counter) VisitReserved(n *parser.Reserved) bool { return c.add(n) }
func (c *counter) VisitRPC(n *parser.RPC) bool { return c.add(n) }
func (c *counter) VisitService(n *parser.Service) bool { return c.add(n) }
func (c *counter) VisitSyntax(n *parser.Syntax) bool { return c.add(n) }

func walk(p *parser.Proto, prune bool) map[interface{}]int {
	c := &counter{map[interface{}]int{}, prune}
	p.Accept(c)
	return c.seen
}
'''
U = '''package main

import (
	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

'''
D = '''package main

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
)

// dump runs the dump command.
func dump(src string, flags ...string) (string, bool) {
	tmp, repo := os.Getenv("TMPD"), os.Getenv("REPO")
	bin := filepath.Join(tmp, "dumpcmd")
	build := exec.Command("go", "build", "-o", bin, ".")
	build.Dir = filepath.Join(repo, "_example", "dump")
	build.Env = append(os.Environ(), "GOFLAGS=")
	if out, err := build.CombinedOutput(); err != nil {
		fail("build: %v %s", err, out)
	}
	file := filepath.Join(tmp, "x.proto")
	if err := os.WriteFile(file, []byte(src), 0o600); err != nil {
		fail("%v", err)
	}
	cmd := exec.Command(bin, append(flags, "-proto", file)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	err := cmd.Run()
	return out.String(), err == nil
}

'''

bug('p02-octal-underscore', 'P02', [('lexer/scanner/ident.go', '''		case isLetter(next), isDecimalDigit(next), next == '_':
''', '''		case isLetter(next), isDecimalDigit(next) && next != '0', next == '_':
''')], 'an identifier with the digit 0', 'identifiers are split', P + '''
func main() {
	mustParse("message A10 {}")
}
''')

bug('p03-crlf-string', 'P03', [('lexer/scanner/numberLit.go', '''		if !isHexDigit(s.peek()) {
			return TILLEGAL, "", s.unexpected(s.peek(), "hexDigit")
		}
		lit += string(s.read())

		lit +=''', '''		lit +=''')], 'a hexadecimal prefix without digits', '0x is accepted as a number', M + '''
func main() {
	mustParse("option a = 0x1;")
	mustReject("option a = 0x;")
}
''')

bug('p03-group-name', 'P03', [('parser/groupField.go', '''	return 'A' <= r && r <= 'Z'
''', '''	return r <= 'Z'
''')], 'a group whose name begins with an underscore... or digit', 'placeholder', M + '''
func main() {
	mustParse("message A { repeated group B = 1 {} }")
	mustReject("message A { repeated group _b = 1 {} }")
}
''')

bug('p04-declaration-type', 'P04', [('parser/declaration.go', '''			repeated = p.lex.Text == "true"
''', '''			repeated = !repeated && p.lex.Text == "true" && !reserved
''')], 'an extension declaration that is reserved and, behind that, repeated', 'the repeated flag is lost', P + '''
func main() {
	p := mustParse("message A { extensions 4 to 5 [declaration = { number: 4, reserved: true, repeated: true }]; }")
	d := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Extensions).Declarations[0]
	if !d.Repeated || !d.Reserved {
		fail("flag lost")
	}
}
''')

bug('p04-reserved-dedupe', 'P04', [('parser/reserved.go', '''			// Successfully parsed another field name
			fieldNames = append(fieldNames, nextFieldName)
''', '''			// Successfully parsed another field name
			if nextFieldName != fieldName {
				fieldNames = append(fieldNames, nextFieldName)
			}
''')], 'reserved names without commas, two of them equal', 'a list element vanishes', P + '''
func main() {
	p := mustParse("message A { reserved \\"a\\" \\"b\\" \\"a\\"; }")
	eq("names", len(p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Reserved).FieldNames), 3)
}
''')

bug('p05-strict-aggregate', 'P05', [('parser/option.go', '''	case scanner.TLEFTSQUARE:
		if !p.permissive {
			return p.unexpected("constant or permissive mode")
		}
		p.lex.Next()
''', '''	case scanner.TLEFTSQUARE:
		p.lex.Next()
''')], 'a list as an option value in strict mode', 'a permissive extension is accepted in strict mode', M + '''
func main() {
	mustParse("option a = [1, 2];")
	mustReject("option a = [1, 2];", strict)
}
''')

bug('p05-rpc-semicolon', 'P05', [('parser/service.go', '''		opts, inlineLeftCurly, err = p.parseRPCOptions()
		if err != nil {
			return nil, err
		}
''', '''		opts, inlineLeftCurly, err = p.parseRPCOptions()
		if err != nil {
			return nil, err
		}
		embeddedComments = p.findEmbeddedComments(startPos, p.lex.Pos)
''')], 'x', 'x', M + 'func main() {}\n')

bug('p05-oneof-semicolon', 'P05', [('parser/oneof.go', '''	if p.permissive {
		// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
		p.lex.ConsumeToken(scanner.TSEMICOLON)
		if p.lex.Token == scanner.TSEMICOLON {
			lastPos = p.lex.Pos
		}
	}
''', '''	if p.permissive {
		// accept a block followed by semicolons. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
		for p.lex.Peek() == scanner.TSEMICOLON {
			p.lex.Next()
			lastPos = p.lex.Pos
		}
	}
''')], 'a oneof followed by two semicolons in permissive mode', 'an empty statement of the message vanishes', P + '''
func main() {
	p := mustParse("message A { oneof o { int32 a = 1; };; }")
	eq("statements", len(p.ProtoBody[0].(*parser.Message).MessageBody), 2)
}
''')

bug('p06-revert-lines', 'P06', [('lexer/scanner/position.go', '''		pos.columns[pos.Line] = pos.Column

		pos.Line++
		pos.Column = 1
	} else {
''', '''		pos.columns[pos.Line%2] = pos.Column

		pos.Line++
		pos.Column = 1
	} else {
'''), ('lexer/scanner/position.go', '''		pos.Column = pos.columns[pos.Line]
''', '''		pos.Column = pos.columns[pos.Line%2]
''')], 'a put-back across more than two line ends whose first token is then reported', 'its column is wrong', P + '''
func main() {
	p := mustParse("message A {\\n    option\\n\\n\\nal.T\\n  a = 1;\\n int32 b = 3;\\n    optional\\n\\n\\ngroup\\n\\n\\nB = 1 {}\\n}")
	_ = p
	l := newLexer("   abc\\n\\n\\n\\n\\n  def")
	l.PeekN(2)
	l.Next()
	l.Next()
	l.UnNext()
	eq("column", l.Pos.Column, 7)
}
''')

bug('p06-semicolon-last', 'P06', [('parser/enum.go', '''				p.lex.ConsumeToken(scanner.TSEMICOLON)
				if p.lex.Token == scanner.TSEMICOLON {
					lastPos = p.lex.Pos
				}
			}
''', '''				p.lex.ConsumeToken(scanner.TSEMICOLON)
				if p.lex.Token == scanner.TSEMICOLON && p.lex.Pos.Line == lastPos.Line {
					lastPos = p.lex.Pos
				}
			}
''')], 'an enum whose closing semicolon stands on a later line, in permissive mode', 'the last position is not that of the last character', P + '''
func main() {
	p := mustParse("enum A { B = 0; }\\n;")
	eq("last line", p.ProtoBody[0].(*parser.Enum).Meta.LastPos.Line, 2)
}
''')

bug('p06-rpc-response-pos', 'P06', [('parser/service.go', '''	return &RPCResponse{
		IsStream:    isStream,
		MessageType: messageType,
		Meta:        meta.Meta{Pos: startPos.Position, LastPos: p.lex.Pos.Position},
	}, nil
''', '''	lastPos := startPos.AdvancedBulk("(" + messageType + ")")
	if isStream {
		lastPos = startPos.AdvancedBulk("(stream " + messageType + ")")
	}
	return &RPCResponse{
		IsStream:    isStream,
		MessageType: messageType,
		Meta:        meta.Meta{Pos: startPos.Position, LastPos: lastPos.Position},
	}, nil
''')], 'a method response with unusual white space or a comment inside its parentheses', 'the last position is not that of the parenthesis', P + '''
func main() {
	p := mustParse("service S { rpc A(B) returns ( C ); }")
	eq("last", p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.RPC).RPCResponse.Meta.LastPos.Offset, 33)
}
''')

bug('p07-inline-column', 'P07', [('parser/inlineComment.go', '''	comment, err := p.parseComment()
	if err != nil {
		return nil
	}

	if currentPos.Line != comment.Meta.Pos.Line {
''', '''	comment, err := p.parseComment()
	if err != nil {
		return nil
	}

	if lastLine := comment.Meta.LastPos.Line; lastLine != comment.Meta.Pos.Line && p.lex.Peek() != scanner.TEOF {
		// a block over several lines documents what follows it.
		_ = lastLine
	}
	if currentPos.Line != comment.Meta.Pos.Line {
''')], 'x', 'x', M + 'func main() {}\n')

bug('p07-embedded-range', 'P07', [('parser/service.go', '''	var opts []*Option
	var inlineLeftCurly *Comment
	p.lex.Next()
	lastPos := p.lex.Pos
''', '''	var opts []*Option
	var inlineLeftCurly *Comment
	lastPos := p.lex.Pos
	p.lex.Next()
'''), ('parser/service.go', '''	case scanner.TSEMICOLON:
		break
	default:
		return nil, p.unexpected("{ or ;")
''', '''	case scanner.TSEMICOLON:
		lastPos = p.lex.Pos
	default:
		return nil, p.unexpected("{ or ;")
''')], 'a comment between the closing parenthesis of the response and the brace or semicolon', 'the comment is dropped', P + '''
func main() {
	p := mustParse("service S { rpc A(B) returns (C) /* d */ { } }")
	eq("embedded", len(p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.RPC).EmbeddedComments), 1)
}
''')

bug('p07-decl-inline', 'P07', [('parser/message.go', '''			mapField.Comments = comments
			stmt = mapField
''', '''			mapField.Comments = comments[:len(comments):len(comments)]
			if len(comments) == 0 && len(stmts) != 0 {
				if prev, ok := stmts[len(stmts)-1].(*MapField); ok && prev.FieldNumber == mapField.FieldNumber {
					mapField.Comments = prev.Comments
				}
			}
			stmt = mapField
''')], 'two map fields with the same number', 'comments attached to two places', P + '''
func main() {
	p := mustParse("message A { /* a */ map<string, B> b = 1; map<string, B> c = 1; }")
	eq("comments", len(p.ProtoBody[0].(*parser.Message).MessageBody[1].(*parser.MapField).Comments), 0)
}
''')

bug('p08-brace-comments', 'P08', [('parser/service.go', '''		case scanner.TRIGHTCURLY:
			stmts = p.includeComments(stmts, comments)
			p.lex.Next()

			lastPos := p.lex.Pos
''', '''		case scanner.TRIGHTCURLY:
			p.lex.Next()

			lastPos := p.lex.Pos
			if len(stmts) != 0 {
				stmts = p.includeComments(stmts, comments)
			}
''')], 'a service whose body holds nothing but comments', 'leftover comments vanish', U + '''
func main() {
	a := mustParse("service S {\\n// a\\n}", protoparser.WithBodyIncludingComments(true))
	if b := mustParse("service S {\\n}", protoparser.WithBodyIncludingComments(true)); len(js(a)) < len(js(b))+20 {
		fail("comment lost")
	}
}
''')

bug('p08-order', 'P08', [('parser/comment.go', '''	if p.bodyIncludingComments {
		for _, comment := range comments {
			body = append(body, Visitee(comment))
		}
	}
	return body
''', '''	if !p.bodyIncludingComments {
		return body
	}
	for _, comment := range comments {
		if n := len(body); n != 0 {
			if last, ok := body[n-1].(*Comment); ok && last.Raw == comment.Raw {
				continue
			}
		}
		body = append(body, comment)
	}
	return body
''')], 'two equal leftover comments in a row', 'the second one is dropped', P.replace('import "github.com/yoheimuta/go-protoparser/v4/parser"', 'import (\n\t"github.com/yoheimuta/go-protoparser/v4/parser"\n\n\tprotoparser "github.com/yoheimuta/go-protoparser/v4"\n)') + '''
func main() {
	p := mustParse("message A {\\n//\\n//\\n}", protoparser.WithBodyIncludingComments(true))
	eq("comments", len(p.ProtoBody[0].(*parser.Message).MessageBody), 2)
}
''')

bug('p08-eof', 'P08', [('parser/proto.go', '''		if p.IsEOF() {
			protoBody = p.includeComments(protoBody, comments)
			return protoBody, nil
		}
''', '''		if p.IsEOF() {
			if len(protoBody) != 0 {
				protoBody = p.includeComments(protoBody, comments)
			}
			return protoBody, nil
		}
''')], 'a file without statements but with comments', 'the comments vanish', '''package main

import protoparser "github.com/yoheimuta/go-protoparser/v4"

func main() {
	p := mustParse("syntax = \\"proto3\\";\\n// a\\n// b\\n", protoparser.WithBodyIncludingComments(true))
	eq("body", len(p.ProtoBody), 2)
}
''')

bug('p09-glued-comment', 'P09', [('lexer/scanner/numberLit.go', '''		default:
			// decimalLit
			return TINTLIT, lit, nil
''', '''		case '/':
			return TILLEGAL, "", s.unexpected('/', "decimalDigit")
		default:
			// decimalLit
			return TINTLIT, lit, nil
'''), ('lexer/scanner/numberLit.go', '''		// decimalLit or floatLit
''', '''		// decimalLit or floatLit.
''')], 'a comment glued to a decimal number', 'the file is rejected', M + '''
func main() {
	mustParse("message A { int32 a = 12 /* b */; }")
	mustParse("message A { int32 a = 12/* b */; }")
}
''')

bug('p09-comment-in-type', 'P09', [('lexer/messageType.go', '''		messageType.WriteString(lex.Text)

		lex.Next()
		if lex.Token != scanner.TDOT {
			lex.UnNext()
			break
		}
		messageType.WriteString(lex.Text)
''', '''		messageType.WriteString(lex.Text)

		lex.Next()
		if lex.Token != scanner.TDOT {
			lex.UnNext()
			break
		}
		messageType.WriteString(string(lex.RawText))
''')], 'white space or a comment before a dot inside a type name', 'layout shows in the tree', P + '''
func main() {
	p := mustParse("message A { a/* x */.b c = 1; }")
	eq("type", p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Field).Type, "a.b")
}
''')

bug('p11-debug-rawtext', 'P11', [('lexer/lexer.go', '''					lex.Text,
					lex.Token,
					lex.Pos,
					filepath.Base(file),
					line,
				)
''', '''					lex.shortText(),
					lex.Token,
					lex.Pos,
					filepath.Base(file),
					line,
				)
'''), ('lexer/lexer.go', '''// NextN scans''', '''// shortText abbreviates a long text.
func (lex *Lexer) shortText() string {
	if 80 < len(lex.Text) {
		lex.Text = lex.Text[:77] + "..."
	}
	return lex.Text
}

// NextN scans''')], 'the debug option and a token longer than 80 bytes', 'the tree holds the shortened text', '''package main

import (
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

func main() {
	src := "// " + strings.Repeat("x", 100) + "\\nmessage A {}"
	if js(mustParse(src)) != js(mustParse(src, protoparser.WithDebug(true))) {
		fail("debug changes the tree")
	}
}
''')

bug('p11-debug-strict', 'P11', [('protoparser.go', '''	p := parser.NewParser(
		lexer.NewLexer(
			input,
			lexer.WithDebug(config.debug),
			lexer.WithFilename(config.filename),
		),
''', '''	if config.debug && config.filename == "" {
		config.filename = "<debug>"
	}
	p := parser.NewParser(
		lexer.NewLexer(
			input,
			lexer.WithDebug(config.debug),
			lexer.WithFilename(config.filename),
		),
''')], 'x', 'x', M + 'func main() {}\n')

bug('p11-debug-name', 'P11', [('lexer/lexer.go', '''	lex.scanner = scanner.NewScanner(input, lex.scannerOpts...)
	return lex
''', '''	if lex.debug {
		input = io.TeeReader(input, log.Writer())
		lex.scannerOpts = append(lex.scannerOpts, scanner.WithFilename("<debug>"))
	}
	lex.scanner = scanner.NewScanner(input, lex.scannerOpts...)
	return lex
'''), ('lexer/lexer.go', '''	lex.Error = func(_ *Lexer, err error) {
		log''', '''	lex.Error = func(_ *Lexer, err error) {

		log''')], 'x', 'x', M + 'func main() {}\n')

bug('p12-shared-empty', 'P12', [('parser/extend.go', '''			err := p.lex.ReadEmptyStatement()
			if err != nil {
				return nil, nil, scanner.Position{}, err
			}
			stmts = p.includeComments(stmts, comments)
			stmt = &EmptyStatement{}
''', '''			err := p.lex.ReadEmptyStatement()
			if err != nil {
				return nil, nil, scanner.Position{}, err
			}
			stmts = p.includeComments(stmts, comments)
			stmt = theEmptyStatement
'''), ('parser/emptyStatement.go', '''package parser
''', '''package parser

var theEmptyStatement = &EmptyStatement{}
''')], 'empty statements in extend bodies, one of them with an inline comment', 'one parse changes the tree of another', P + '''
func main() {
	p := mustParse("extend A { ; }")
	mustParse("extend A { ; // b\\n }")
	if p.ProtoBody[0].(*parser.Extend).ExtendBody[0].(*parser.EmptyStatement).InlineComment != nil {
		fail("a later parse changes an earlier tree")
	}
}
''')

bug('p12-cached-lines', 'P12', [('parser/comment.go', '''	return strings.Split(raw, "\\n")
}
''', '''	lines := splitLines[c.Raw]
	if lines == nil {
		lines = strings.Split(raw, "\\n")
		splitLines[c.Raw] = lines
	}
	return lines
}

// splitLines caches the lines of comments that occur again and again, like license headers.
var splitLines = make(map[string][]string)
''')], 'comments asked for their lines concurrently, or two comments with the same text one of whose lines are changed by the caller', 'data race', '''package main

import (
	"sync"

	"github.com/yoheimuta/go-protoparser/v4/parser"
)

func main() {
	p := mustParse("// a\\nmessage A {}")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.ProtoBody[0].(*parser.Message).Comments[0].Lines()
		}()
	}
	wg.Wait()
}
''', flags='-race', crash=True)

bug('p12-pooled-reader', 'P12', [('lexer/scanner/scanner.go', '''	s := &Scanner{
		r:   bufio.NewReader(r),
		pos: NewPosition(),
	}
''', '''	s := &Scanner{
		r:   sharedReader,
		pos: NewPosition(),
	}
	s.r.Reset(r)
'''), ('lexer/scanner/mode.go', '''package scanner
''', '''package scanner

import "bufio"

// sharedReader is reused by all the scanners to save the buffer.
var sharedReader = bufio.NewReader(nil)
''')], 'two lexers in use at the same time (interleaved or concurrent)', 'each reads the input of the other', '''package main

func main() {
	a, b := newLexer("a1 a2"), newLexer("b1 b2")
	a.Next()
	b.Next()
	eq("a", a.Text, "a1")
	eq("b", b.Text, "b1")
	a.Next()
	eq("a", a.Text, "a2")
}
''')

bug('p13-extensions-behind', 'P13', [('parser/extensions.go', '''	for _, declaration := range e.Declarations {
		declaration.Accept(v)
	}
	for _, comment := range e.Comments {
		comment.Accept(v)
	}
	if e.InlineComment != nil {
		e.InlineComment.Accept(v)
	}
	if e.InlineCommentBehindLeftSquare != nil {
		e.InlineCommentBehindLeftSquare.Accept(v)
	}
''', '''	for _, comment := range e.Comments {
		comment.Accept(v)
	}
	if e.InlineComment != nil {
		e.InlineComment.Accept(v)
	}
	if e.InlineCommentBehindLeftSquare != nil {
		e.InlineCommentBehindLeftSquare.Accept(v)
		return
	}
	for _, declaration := range e.Declarations {
		declaration.Accept(v)
	}
''')], 'extensions with declarations and a comment behind the left square', 'the declarations are not visited', P + V + '''
func main() {
	p := mustParse("message A { extensions 4 to 5 [ // x\\n declaration = { number: 4 }]; }")
	e := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Extensions)
	eq("visits", walk(p, false)[e.Declarations[0]], 1)
}
''')

bug('p13-group-prune', 'P13', [('parser/groupField.go', '''	if !v.VisitGroupField(f) {
		return
	}

	for _, body := range f.MessageBody {
		body.Accept(v)
	}
''', '''	if v.VisitGroupField(f) {
		for _, body := range f.MessageBody {
			body.Accept(v)
		}
	}
''')], 'a visitor that answers false for a group with comments', 'comments of a pruned element are visited', P + V + '''
func main() {
	p := mustParse("message A { // x\\n // y\\n repeated group B = 1 {} }")
	g := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.GroupField)
	eq("visits", walk(p, true)[g.Comments[0]], 0)
}
''')

bug('p13-rpc-embedded', 'P13', [('parser/service.go', '''	for _, comment := range r.EmbeddedComments {
		comment.Accept(v)
	}
''', '''	if len(r.Comments) == 0 {
		for _, comment := range r.EmbeddedComments {
			comment.Accept(v)
		}
	}
''')], 'a method with both leading and embedded comments', 'the embedded comments are not visited', P + V + '''
func main() {
	p := mustParse("service S {\\n // a\\n rpc A(B) /* c */ returns (C); }")
	r := p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.RPC)
	eq("visits", walk(p, false)[r.EmbeddedComments[0]], 1)
}
''')

bug('p14-extend-inline', 'P14', [('interpret/unordered/extend.go', '''		Comments:                     src.Comments,
		InlineComment:                src.InlineComment,
		InlineCommentBehindLeftCurly: src.InlineCommentBehindLeftCurly,
''', '''		Comments:                     src.Comments,
		InlineComment:                src.InlineCommentBehindLeftCurly,
		InlineCommentBehindLeftCurly: src.InlineComment,
''')], 'a file level extend with inline comments', 'the comments are swapped', U + '''
func main() {
	u, err := protoparser.UnorderedInterpret(mustParse("extend A { // a\\n } // b"))
	if err != nil {
		fail("%v", err)
	}
	eq("inline", u.ProtoBody.Extends[0].InlineComment.Raw, "// b")
}
''')

bug('p14-touches-tree', 'P14', [('interpret/unordered/message.go', '''		case *parser.Field:
			fields = append(fields, t)
''', '''		case *parser.Field:
			if !t.IsRepeated && !t.IsRequired {
				t.IsOptional = true
			}
			fields = append(fields, t)
'''), ('interpret/unordered/message.go', '''	var fields []*parser.Field
	var enums []*Enum
''', '''	fields := []*parser.Field(nil)
	var enums []*Enum
''')], 'interpreting any message with a plain field', 'the ordered tree is changed', U + '''
func main() {
	p := mustParse("message A { int32 a = 1; }")
	before := js(p)
	if _, err := protoparser.UnorderedInterpret(p); err != nil {
		fail("%v", err)
	}
	eq("tree", js(p), before)
}
''')

bug('p14-empty-once', 'P14', [('interpret/unordered/enum.go', '''			emptyStatements = append(emptyStatements, t)
''', '''			if t.InlineComment != nil || len(emptyStatements) == 0 {
				emptyStatements = append(emptyStatements, t)
			}
''')], 'an enum with several empty statements', 'elements vanish in the interpretation', U + '''
func main() {
	u, err := protoparser.UnorderedInterpret(mustParse("message M { enum E { A = 0;;; } }"))
	if err != nil {
		fail("%v", err)
	}
	eq("empty statements", len(u.ProtoBody.Messages[0].MessageBody.Enums[0].EnumBody.EmptyStatements), 2)
}
''')

bug('p14-nested-order', 'P14', [('interpret/unordered/message.go', '''			messages = append(messages, message)
''', '''			if len(message.MessageBody.Messages) != 0 {
				// containers come first.
				messages = append([]*Message{message}, messages...)
				break
			}
			messages = append(messages, message)
''')], 'sibling nested messages of which a later one has nested messages itself', 'the source order is lost', U + '''
func main() {
	u, err := protoparser.UnorderedInterpret(mustParse("message M { message A {} message B { message C {} } }"))
	if err != nil {
		fail("%v", err)
	}
	eq("first", u.ProtoBody.Messages[0].MessageBody.Messages[0].MessageName, "A")
}
''')

bug('p15-peekn', 'P15', [('lexer/lexer.go', '''	token := lex.Token
	for i := len(lasts) - 1; 0 <= i; i-- {
		lex.UnNextTo(lasts[i])
	}
	return token
''', '''	token := lex.Token
	if token == scanner.TEOF {
		// nothing to put back.
		lasts = lasts[:len(lasts)-1]
	}
	for i := len(lasts) - 1; 0 <= i; i-- {
		lex.UnNextTo(lasts[i])
	}
	return token
''')], 'peeking several tokens up to the end of an input that ends in white space', 'the white space is lost and positions go wrong', M + '''
func main() {
	l := newLexer("a  \\n")
	l.PeekN(2)
	l.Next()
	eq("offset", l.Pos.Offset, 0)
}
''')

bug('p15-unnext-pos', 'P15', [('lexer/lexer.go', '''	lex.Pos = lex.scanner.UnScan()
	lex.Token = scanner.TILLEGAL
''', '''	pos := lex.scanner.UnScan()
	if lex.Token != scanner.TEOF {
		lex.Pos = pos
	}
	lex.Token = scanner.TILLEGAL
''')], 'pushing back the end of input behind white space', 'the position is not restored', M + '''
func main() {
	l := newLexer("a  \\n")
	l.Next()
	l.Next()
	l.UnNext()
	eq("offset", l.Pos.Offset, 1)
}
''')

bug('p15-peek-mode', 'P15', [('lexer/lexer.go', '''	lex.Next()
	if lex.Token == t {
		return
	}
	lex.UnNext()
}
''', '''	if lex.Peek() == t {
		lex.Next()
	}
	if lex.Token != t {
		lex.Text = ""
		lex.RawText = nil
	}
}
''')], 'x', 'x', M + 'func main() {}\n')

bug('p16-float-dot', 'P16', [('lexer/scanner/scanner.go', '''	case (isDecimalDigit(ch) || ch == '.') && s.Mode&ScanNumberLit != 0:
''', '''	case (isDecimalDigit(ch) || ch == '.') && s.Mode&(ScanNumberLit|ScanKeyword) == ScanNumberLit:
''')], 'keyword and number scan modes combined', 'numbers are not recognised', '''package main

import (
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
)

func main() {
	s := scanner.NewScanner(strings.NewReader("12"))
	s.Mode = scanner.ScanNumberLit | scanner.ScanKeyword
	_, lit, _, _ := s.Scan()
	eq("text", lit, "12")
}
''')

bug('p16-octal-digits', 'P16', [('lexer/scanner/lettersdigits.go', '''	return '0' <= r && r <= '7'
''', '''	return '0' <= r && r <= '8'
''')], 'the digit 8 in an octal literal', 'tokens are not those of the lexical grammar', '''package main

func main() {
	l := newLexer("018")
	l.NextNumberLit()
	eq("text", l.Text, "01")
}
''')

bug('p16-comment-error', 'P16', [('lexer/scanner/comment.go', '''	default:
		return "", s.unexpected(ch, "/ or *")
	}
''', '''	case eof:
		return lit.String(), nil
	default:
		return "", s.unexpected(ch, "/ or *")
	}
'''), ('lexer/scanner/comment.go', '''	ch := s.read()
	switch ch {
''', '''	ch := s.read()

	switch ch {
''')], 'a lone slash at the very end of the input', 'it is reported as a comment', M + '''
func main() {
	mustReject("message A {} /")
}
''')

bug('p17-escape-case', 'P17', [('lexer/scanner/strLit.go', '''	case ch == 'x' || ch == 'X':
		lit += string(s.read())
''', '''	case ch == 'x' || ch == 'X':
		s.read()
		lit += "x"
''')], 'a \\X escape in a string constant', 'the source text of the constant is changed', P + '''
func main() {
	p := mustParse(`option a = "\\X41";`)
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, `"\\X41"`)
}
''')

bug('p17-import-slash', 'P17', [('parser/import.go', '''	location := p.lex.Text

''', '''	location := strings.Replace(p.lex.Text, `\\\\`, `/`, -1)

'''), ('parser/import.go', '''import (
''', '''import (
	"strings"

''')], 'an import path with escaped backslashes', 'the location is not the source text', P + '''
func main() {
	p := mustParse(`import "a\\\\b.proto";`)
	eq("location", p.ProtoBody[0].(*parser.Import).Location, `"a\\\\b.proto"`)
}
''')

bug('p17-quote', 'P17', [('lexer/constant.go', '''	q := "'"
	if strings.HasPrefix(lex.Text, "\\"") {
		q = "\\""
	}
''', '''	q := "\\""
''')], 'x', 'x', M + '''
func main() {}
''')

bug('p18-chain', 'P18', [('parser/service.go', '''	rpcResponse, err := p.parseRPCResponse()
	if err != nil {
		return nil, err
	}
''', '''	rpcResponse, err := p.parseRPCResponse()
	if err != nil {
		return nil, fmt.Errorf("invalid response of rpc %s: %v", rpcName, err)
	}
'''), ('parser/service.go', '''import (
''', '''import (
	"fmt"

''')], 'an error in the response of a method', 'the error chain does not contain the library error', '''package main

import (
	"errors"

	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func main() {
	var e *meta.Error
	if !errors.As(mustReject("service S { rpc A(B) returns C; }"), &e) {
		fail("not a meta.Error")
	}
}
''')

bug('p18-filename', 'P18', [('lexer/error.go', '''		Pos:      lex.Pos.Position,
''', '''		Pos:      meta.Position{Offset: lex.Pos.Offset, Line: lex.Pos.Line, Column: lex.Pos.Column},
''')], 'a file name and an error reported by the lexer', 'the error does not name the file', '''package main

import (
	"errors"

	"github.com/yoheimuta/go-protoparser/v4/parser/meta"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

func main() {
	var e *meta.Error
	if !errors.As(mustReject("extend 1 {}", protoparser.WithFilename("a.proto")), &e) {
		fail("not a meta.Error")
	}
	eq("file name", e.Pos.Filename, "a.proto")
}
''')

bug('p18-before', 'P18', [('parser/option.go', '''		p.lex.Next()
		if p.lex.Token != scanner.TIDENT {
			return p.unexpected("ident")
		}
		ret.WriteString(p.lex.Text)
''', '''		keyPos := p.lex.Pos
		p.lex.Next()
		if p.lex.Token != scanner.TIDENT {
			p.lex.Pos = keyPos
			return p.unexpected("ident")
		}
		ret.WriteString(p.lex.Text)
''')], 'a malformed key behind the first field of an aggregate value', 'the error points at an earlier token', '''package main

import (
	"errors"

	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func main() {
	var e *meta.Error
	if !errors.As(mustReject("option a = { b: 1\\n c { d: 1 }\\n\\n = };"), &e) {
		fail("not a meta.Error")
	}
	if e.Pos.Line < 4 && e.Pos.Offset < 29 {
		fail("error at %v", e.Pos)
	}
}
''')

bug('p19-position-copy', 'P19', [('lexer/scanner/scanner.go', '''	startPos := *s.pos

''', '''	startPos := s.pos.clone()

'''), ('lexer/scanner/position.go', '''// String stringify the position.
''', '''// clone copies the position, so that later changes do not show in the copy.
func (pos *Position) clone() Position {
	c := *pos
	c.columns = make(map[int]int, len(pos.columns))
	for line, column := range pos.columns {
		c.columns[line] = column
	}
	return c
}

// String stringifies the position.
''')], 'a file with many lines', 'every token costs the number of lines before it', '''package main

import (
	"strings"
	"time"
)

func main() {
	src := strings.Repeat("message A {\\n\\n\\n\\n\\n}\\n", 2000)
	start := time.Now()
	mustParse(src)
	small := time.Since(start)
	start = time.Now()
	mustParse(strings.Repeat(src, 8))
	if large := time.Since(start); 24*small < large {
		fail("eightfold input takes %v instead of %v", large, small)
	}
}
''')

bug('p19-lookahead', 'P19', [('parser/reserved.go', '''	ranges = append(ranges, rangeValue)

	for {
''', '''	ranges = append(ranges, rangeValue)

	for p.lex.PeekN(2*len(ranges)) != scanner.TEOF {
'''), ], 'x', 'x', M + '''
func main() {}
''')

bug('p19-option-prefix', 'P19', [('parser/oneof.go', '''			oneofField.Comments = comments
			p.MaybeScanInlineComment(oneofField)
			oneofFields = append(oneofFields, oneofField)
''', '''			oneofField.Comments = comments
			p.MaybeScanInlineComment(oneofField)
			fields := make([]*OneofField, 0, len(oneofFields)+1)
			fields = append(fields, oneofFields...)
			oneofFields = append(fields, oneofField)
''')], 'a oneof with many fields', 'each field copies the list of all the fields before it', '''package main

import (
	"fmt"
	"runtime"
	"strings"
)

func alloc(n int) uint64 {
	var b strings.Builder
	b.WriteString("message A { oneof o {\\n")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "a b = %d;\\n", 1000000+i)
	}
	b.WriteString("} }")
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	mustParse(b.String())
	runtime.ReadMemStats(&after)
	return after.TotalAlloc - before.TotalAlloc
}

func main() {
	small, large := alloc(2000), alloc(32000)
	if 24*small < large {
		fail("sixteenfold input allocates %d instead of %d bytes", large, small)
	}
}
''')

bug('p20-ranges-reuse', 'P20', [('parser/reserved.go', '''	var ranges []*Range
	rangeValue, err := p.parseRange()
''', '''	ranges := p.ranges[:0]
	defer func() { p.ranges = ranges }()
	rangeValue, err := p.parseRange()
'''), ('parser/parser.go', '''	permissive            bool
	bodyIncludingComments bool
}
''', '''	permissive            bool
	bodyIncludingComments bool

	ranges []*Range
}
''')], 'two range lists in one file', 'the second list overwrites the first', P + '''
func main() {
	p := mustParse("message A { reserved 1, 2; reserved 3; }")
	eq("begin", p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Reserved).Ranges[0].Begin, "1")
}
''')

bug('p20-import-lookahead', 'P20', [('parser/package.go', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}
''', '''	p.lex.ConsumeToken(scanner.TSEMICOLON)
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}
	lastPos := p.lex.Pos
	p.lex.ConsumeToken(scanner.TSEMICOLON)
'''), ('parser/package.go', '''			LastPos: p.lex.Pos.Position,
''', '''			LastPos: lastPos.Position,
''')], 'a package statement followed by an empty statement', 'the empty statement is swallowed', P + '''
func main() {
	eq("statements", len(mustParse("package a;;").ProtoBody), 2)
}
''')

bug('p20-repeated-leak', 'P20', [('parser/field.go', '''	var isRepeated bool
	var isRequired bool
	var isOptional bool
	p.lex.NextKeyword()
	startPos := p.lex.Pos

	if p.lex.Token == scanner.TREPEATED {
''', '''	var isRepeated bool
	var isRequired bool
	var isOptional bool
	p.lex.Peek()
	p.lex.NextKeyword()
	startPos := p.lex.Pos

	if p.lex.Token == scanner.TREPEATED {
''')], 'x', 'x', P + '''
func main() {
}
''')

bug('p21-printf', 'P21', [('_example/dump/main.go', '''	gotJSON, err := json.MarshalIndent(v, "", "  ")
''', '''	indented, err := json.MarshalIndent(v, "", "  ")
	gotJSON := fmt.Sprintf(string(indented) + "\\n")
''')], 'a percent sign in the file', 'the output is not the JSON of the tree', D + '''
func main() {
	src := "// 100%d\\nmessage A {}"
	out, ok := dump(src)
	if !ok {
		fail("dump failed")
	}
	if !bytes.Contains([]byte(out), []byte("100%d\\"")) {
		fail("%s", out)
	}
}
''')

bug('p21-unordered-permissive', 'P21', [('_example/dump/main.go', '''		protoparser.WithPermissive(*permissive),
''', '''		protoparser.WithPermissive(*permissive || *unordered),
''')], 'the flags -permissive=false -unordered and a file that needs permissive mode', 'the command accepts what the library rejects', D + '''
func main() {
	if _, ok := dump("option a = {};", "-permissive=false", "-unordered"); ok {
		fail("accepted")
	}
}
''')

bug('p21-exit', 'P21', [('_example/dump/main.go', '''	defer func() {
		if err := reader.Close(); err != nil {
			fmt.Printf("Error closing file: %s\\n", err)
		}
	}()
''', '''	defer func() {
		_ = reader.Close()
		if recover() != nil {
			fmt.Fprintf(os.Stderr, "failed to parse %s\\n", *proto)
		}
	}()
''')], 'x', 'x', M + 'func main() {}\n')

bug('p21-status', 'P21', [('_example/dump/main.go', '''	if err != nil {
		fmt.Fprintf(os.Stderr, "failed to parse, err %v\\n", err)
		return 1
	}
''', '''	if err != nil {
		fmt.Fprintf(os.Stderr, "failed to parse, err %v\\n", err)
		if !*debug {
			return 1
		}
	}
''')], 'the -debug flag and a malformed file', 'the command exits with status zero and prints null', D + '''
func main() {
	if out, ok := dump("message A {", "-debug"); ok || out != "" {
		fail("accepted: %s", out)
	}
}
''')

bug('p22-slashes', 'P22', [('parser/comment.go', '''		raw = strings.TrimPrefix(raw, cPlusStyleCommentPrefix)
''', '''		raw = strings.TrimLeft(raw, "/")
''')], 'a line comment whose text begins with a slash', 'Lines loses text', P + '''
func main() {
	eq("lines", (&parser.Comment{Raw: "/// a"}).Lines()[0], "/ a")
}
''')

bug('p22-lines-cr', 'P22', [('parser/comment.go', '''		raw = strings.TrimPrefix(raw, cStyleCommentPrefix)
		raw = strings.TrimSuffix(raw, cStyleCommentSuffix)
''', '''		raw = strings.Trim(raw, cStyleCommentPrefix+cStyleCommentSuffix)
''')], 'a block comment with a star or slash next to its markers (javadoc style)', 'Lines loses text', P + '''
func main() {
	eq("lines", (&parser.Comment{Raw: "/** a */"}).Lines()[0], "* a ")
}
''')

bug('p22-version', 'P22', [('parser/meta/position.go', '''	s += fmt.Sprintf(":%d:%d", pos.Line, pos.Column)
	return s
''', '''	return fmt.Sprintf(s+":%d:%d", pos.Line, pos.Column)
''')], 'a file name with a percent sign', 'the printed position is garbled', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser/meta"

func main() {
	eq("position", meta.Position{Filename: "a%20b.proto", Line: 1, Column: 2}.String(), "a%20b.proto:1:2")
}
''')
# specs that came to nothing (equivalent or not applicable) are left out
BUGS = [b for b in BUGS if b['needs'] != 'x']
