BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

M = 'package main\n\n'

bug('p06-line-window', 'P06', [('lexer/scanner/position.go', '''	columns map[int]int
''', '''	columns *[lineWindow]int
'''), ('lexer/scanner/position.go', '''// Position represents a source position.
''', '''// lineWindow is the number of finished lines whose columns are remembered for reverting.
const lineWindow = 64

// Position represents a source position.
'''), ('lexer/scanner/position.go', '''		columns: make(map[int]int),
''', '''		columns: new([lineWindow]int),
'''), ('lexer/scanner/position.go', '''		pos.columns[pos.Line] = pos.Column
''', '''		pos.columns[pos.Line%lineWindow] = pos.Column
'''), ('lexer/scanner/position.go', '''		pos.Column = pos.columns[pos.Line]
''', '''		pos.Column = pos.columns[pos.Line%lineWindow]
''')], 'more than 64 line ends between two tokens with text on the first of these lines', 'columns after a long gap that was put back are wrong', M + '''
func main() {
	p := mustParse("package abc" + strings.Repeat("\\n", 200) + ";")
	q := p.ProtoBody[0].(*parser.Package)
	eq("last", q.Meta.LastPos.String(), "<input>:201:1")
	p = mustParse("message Abcdef { int32 a = 1; /* " + strings.Repeat("x\\n", 200) + "*/ } message B {}")
	m := p.ProtoBody[0].(*parser.Message)
	eq("inline", m.MessageBody[0].(*parser.Field).InlineComment.Meta.Pos.Column, 31)
	p = mustParse("package abc" + strings.Repeat("\\n", 200) + "// c\\n;")
	// a pushed-back gap
	p = mustParse("message Abc { int32 a = 1;   " + strings.Repeat("\\n", 65) + "// c\\n int32 b = 2; }")
	f := p.ProtoBody[0].(*parser.Message).MessageBody[1].(*parser.Field)
	eq("comment", f.Comments[0].Meta.Pos.String(), "<input>:66:1")
	lex := newLexer("abcdef" + strings.Repeat("\\n", 200) + "g")
	lex.Next()
	lex.Next()
	lex.UnNext()
	eq("put back", lex.Pos.String(), "<input>:1:7")
}
''')

bug('p06-next-line-char', 'P06', [('lexer/scanner/position.go', '''	length := utf8.RuneLen(r)
	pos.Offset += length

	if r == '\\n' {
		pos.columns''', '''	length := utf8.RuneLen(r)
	pos.Offset += length

	if r == '\\n' || r == '\\u0085' {
		pos.columns'''), ('lexer/scanner/position.go', '''	pos.Offset -= length

	if r == '\\n' {
''', '''	pos.Offset -= length

	if r == '\\n' || r == '\\u0085' {
''')], 'the character U+0085 in a comment or string', 'lines are counted where there is no line end', M + '''
func main() {
	p := mustParse("import \\"a\\u0085b\\"; package a;")
	eq("pos", p.ProtoBody[1].(*parser.Package).Meta.Pos.String(), "<input>:1:15")
}
''')

bug('p06-astral', 'P06', [('lexer/scanner/position.go', '''	length := utf8.RuneLen(r)
	pos.Offset += length
''', '''	length := runeLen(r)
	pos.Offset += length
'''), ('lexer/scanner/position.go', '''	length := utf8.RuneLen(r)
	pos.Offset -= length
''', '''	length := runeLen(r)
	pos.Offset -= length
'''), ('lexer/scanner/position.go', '''// Revert reverts''', '''// runeLen returns the number of bytes of r without the checks of utf8.RuneLen.
func runeLen(r rune) int {
	switch {
	case r < utf8.RuneSelf:
		return 1
	case r < 0x800:
		return 2
	default:
		return utf8.UTFMax - 1
	}
}

// Revert reverts''')], 'a character beyond the basic plane before the construct', 'offsets behind four-byte characters are short', M + '''
func main() {
	p := mustParse("/* \\U0001F600 */ package a;")
	eq("pos", p.ProtoBody[0].(*parser.Package).Meta.Pos.Offset, 11)
}
''')

bug('p07-repeated-comment', 'P07', [('parser/comment.go', '''			return comments
		}
		comments = append(comments, comment)
''', '''			return comments
		}
		if n := len(comments); n > 0 && comments[n-1].Raw == comment.Raw {
			continue
		}
		comments = append(comments, comment)
''')], 'two equal comments one after the other', 'one of two equal leading comments is lost', M + '''
func main() {
	p := mustParse("//\\n// a\\n//\\n//\\npackage a;")
	eq("comments", len(p.ProtoBody[0].(*parser.Package).Comments), 4)
}
''')

bug('p07-detached', 'P07', [('parser/comment.go', '''			return comments
		}
		comments = append(comments, comment)
''', '''			return comments
		}
		if n := len(comments); n > 0 && comments[n-1].Meta.LastPos.Line+64 < comment.Meta.Pos.Line {
			// The earlier comments are detached.
			comments = nil
		}
		comments = append(comments, comment)
''')], 'more than 63 blank lines between two leading comments', 'comments far above an element are lost', M + '''
func main() {
	p := mustParse("// a\\n" + strings.Repeat("\\n", 100) + "// b\\npackage a;")
	eq("comments", len(p.ProtoBody[0].(*parser.Package).Comments), 2)
}
''')

bug('p07-license-header', 'P07', [('parser/proto.go', '''	comments := p.ParseComments()
	syntax, err := p.ParseSyntax()
''', '''	comments := p.ParseComments()
	for len(comments) > 1 && comments[0].IsCStyle() && comments[0].Meta.Pos.Offset == 0 {
		comments = comments[1:]
	}
	syntax, err := p.ParseSyntax()
''')], 'a block comment at the very start of a file, followed by another comment', 'the leading block comment is attached to nothing', M + '''
func main() {
	p := mustParse("/* license */\\n// syntax\\nsyntax = \\"proto3\\";")
	eq("comments", len(p.Syntax.Comments), 2)
}
''')

bug('p07-embedded-same-line', 'P07', [('parser/service.go', '''	embeddedComments := p.findEmbeddedComments(startPos, lastPos)
''', '''	embeddedComments := p.findEmbeddedComments(startPos, lastPos)
	if rpcRequest.Meta.Pos.Line == rpcResponse.Meta.Pos.Line && rpcResponse.Meta.LastPos.Line != lastPos.Line {
		// The header ended; the rest documents what follows.
		embeddedComments = p.findEmbeddedComments(startPos, scanner.Position{Position: rpcResponse.Meta.LastPos})
	}
''')], 'a method header on one line with a comment and a line end before the brace', 'the comment between the response and the brace is lost', M + '''
func main() {
	p := mustParse("service S { rpc A(B) returns (C) // c\\n { } }")
	eq("embedded", len(p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.RPC).EmbeddedComments), 1)
}
''')

bug('p09-adjacent-dots', 'P09', [('lexer/messageType.go', '''		lex.Next()
		if lex.Token != scanner.TDOT {
			lex.UnNext()
			break
		}
''', '''		end := lex.Pos.Offset + len(lex.Text)
		lex.Next()
		if lex.Token != scanner.TDOT || (lex.Pos.Offset != end && lex.Pos.Line != startPos.Line) {
			lex.UnNext()
			break
		}
''')], 'a type name with a line end before one of its dots', 'a type name that goes on in the next line is cut', M + '''
func main() {
	a := mustParse("message A { b.c.D e = 1; }")
	b := mustParse("message A { b.c\\n\\t.D e = 1; }")
	eq("type", b.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Field).Type, a.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Field).Type)
}
''')

bug('p09-vertical-space', 'P09', [('lexer/scanner/comment.go', '''		for ch != '\\n' {
''', '''		for ch != '\\n' && ch != '\\u2028' {
''')], 'a line comment that contains U+2028', 'a comment ends before its line does', M + '''
func main() {
	mustParse("// a\\u2028b\\npackage a;")
}
''')

bug('p10-temporary-error', 'P10', [('lexer/scanner/scanner.go', '''	ch, _, err := s.r.ReadRune()
''', '''	ch, _, err := s.r.ReadRune()
	if t, ok := err.(interface{ Temporary() bool }); ok && t.Temporary() {
		ch, _, err = s.r.ReadRune()
	}
''')], 'a reader that fails once with a temporary error', 'a failed read is hidden from the caller', M + '''
type temp struct{}

func (temp) Error() string   { return "temporary" }
func (temp) Temporary() bool { return true }

type reader struct {
	n   int
	src *strings.Reader
}

func (r *reader) Read(b []byte) (int, error) {
	if r.n++; r.n == 2 {
		return 0, temp{}
	}
	if len(b) > 8 {
		b = b[:8]
	}
	return r.src.Read(b)
}

func main() {
	p, err := protoparser.Parse(&reader{src: strings.NewReader("package a; package b; package c;")})
	if err == nil || p != nil {
		fail("accepted although a read failed")
	}
}
''')

bug('p10-truncated-stream', 'P10', [('lexer/scanner/scanner.go', '''	ch, _, err := s.r.ReadRune()
''', '''	ch, err := s.readRune()
'''), ('lexer/scanner/scanner.go', '''func (s *Scanner) unread(ch rune) {
''', '''// readRune reads the next character of the reader. The streams that decompressors give end with an unexpected EOF
// when their trailer is missing, which is no concern of a parser.
func (s *Scanner) readRune() (rune, error) {
	ch, _, err := s.r.ReadRune()
	if err != nil && strings.HasSuffix(err.Error(), io.EOF.Error()) {
		return ch, io.EOF
	}
	return ch, err
}

func (s *Scanner) unread(ch rune) {
'''), ('lexer/scanner/scanner.go', '''	"sort"
	"unicode"
''', '''	"sort"
	"strings"
	"unicode"
''')], 'a reader that fails with io.ErrUnexpectedEOF or a wrapped end of file', 'a truncated input is parsed as if it were complete', M + '''
func main() {
	p, err := protoparser.Parse(io.MultiReader(strings.NewReader("package a; "), errReader{}))
	if err == nil || p != nil {
		fail("accepted although a read failed")
	}
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, fmt.Errorf("chunk 7: %w", io.ErrUnexpectedEOF) }
''')

bug('p10-data-with-error', 'P10', [('lexer/scanner/scanner.go', '''		r:   bufio.NewReader(r),
''', '''		r:   bufio.NewReader(&chunkReader{r: r}),
'''), ('lexer/scanner/scanner.go', '''// NewScanner returns''', '''// chunkReader delivers the data of the reader in full before its error.
type chunkReader struct {
	r io.Reader
}

func (c *chunkReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if n > 0 {
		return n, nil
	}
	return n, err
}

// NewScanner returns''')], 'a reader that returns data together with an error and end of file afterwards', 'the error returned together with data is lost', M + '''
type reader struct{ n int }

func (r *reader) Read(b []byte) (int, error) {
	if r.n++; r.n == 1 {
		return copy(b, "package a; "), fmt.Errorf("broken pipe")
	}
	return 0, io.EOF
}

func main() {
	p, err := protoparser.Parse(&reader{})
	if err == nil || p != nil {
		fail("accepted although a read failed")
	}
}
''')

bug('p11-placeholder-name', 'P11', [('lexer/scanner/scanner.go', '''		l.pos.Filename = filename
''', '''		if filename != "-" {
			l.pos.Filename = filename
		}
''')], 'the file name -', 'the file name is not recorded', M + '''
func main() {
	p := mustParse("package a;", protoparser.WithFilename("-"))
	eq("file name", p.Meta.Filename, "-")
}
''')

bug('p11-long-filename', 'P11', [('lexer/scanner/scanner.go', '''		l.pos.Filename = filename
''', '''		if n := len(filename) - maxFilename; n > 0 {
			filename = "..." + filename[n+3:]
		}
		l.pos.Filename = filename
'''), ('lexer/scanner/scanner.go', '''// WithFilename is''', '''// maxFilename bounds the name that each position carries.
const maxFilename = 1024

// WithFilename is''')], 'a file name longer than 1024 bytes', 'the recorded file name is shortened', M + '''
func main() {
	n := strings.Repeat("dir/", 300) + "a.proto"
	p := mustParse("package a;", protoparser.WithFilename(n))
	eq("file name", p.Meta.Filename, n)
}
''')

bug('p12-type-cache', 'P12', [('parser/field.go', '''	messageOrEnumType, startPos, err := p.lex.ReadMessageType()
	if err != nil {
		return "", scanner.Position{}, err
	}
	return messageOrEnumType, startPos, nil
''', '''	messageOrEnumType, startPos, err := p.lex.ReadMessageType()
	if err != nil {
		return "", scanner.Position{}, err
	}
	if t, ok := typeNames[messageOrEnumType]; ok {
		return t, startPos, nil
	}
	if len(typeNames) < 1<<16 {
		typeNames[messageOrEnumType] = messageOrEnumType
	}
	return messageOrEnumType, startPos, nil
'''), ('parser/field.go', '''var typeConstants = map''', '''// typeNames shares the strings of type names, which big files repeat.
var typeNames = map[string]string{}

var typeConstants = map''')], 'two parses at the same time', 'unsynchronised access to a shared map', M + '''
import "sync"

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				mustParse(fmt.Sprintf("message A { T%d_%d a = 1; U%d b = 2; }", g, i, i))
			}
		}(g)
	}
	wg.Wait()
}
'''.replace('package main\n\n\nimport', 'package main\n\nimport'), flags='-race', crash=True)

bug('p12-comment-intern', 'P12', [('parser/comment.go', '''	if p.lex.Token == scanner.TCOMMENT {
		return &Comment{
			Raw: p.lex.Text,
			Meta: meta.Meta{
				Pos:     p.lex.Pos.Position,
				LastPos: p.lex.Pos.AdvancedBulk(p.lex.Text).Position,
			},
		}, nil
	}
''', '''	if p.lex.Token == scanner.TCOMMENT {
		key := commentKey{p.lex.Text, p.lex.Pos.Position}
		if c, ok := commentCache.Load(key); ok {
			return c.(*Comment), nil
		}
		c := &Comment{
			Raw: p.lex.Text,
			Meta: meta.Meta{
				Pos:     p.lex.Pos.Position,
				LastPos: p.lex.Pos.AdvancedBulk(p.lex.Text).Position,
			},
		}
		commentCache.Store(key, c)
		return c, nil
	}
'''), ('parser/comment.go', '''// ParseComments parsers''', '''// commentCache shares the comments, which most files begin with, among parses.
var commentCache sync.Map

type commentKey struct {
	raw string
	pos meta.Position
}

// ParseComments parsers'''), ('parser/comment.go', '''import (
	"strings"
''', '''import (
	"strings"
	"sync"
''')], 'a caller that edits a comment of one tree and parses the same file again', 'trees of different parses share comments', M + '''
func main() {
	p := mustParse("// license\\npackage a;")
	p.ProtoBody[0].(*parser.Package).Comments[0].Raw = "// changed"
	p = mustParse("// license\\npackage a;")
	eq("comment", p.ProtoBody[0].(*parser.Package).Comments[0].Raw, "// license")
}
''')

bug('p12-shared-error', 'P12', [('parser/error.go', '''	err := &meta.Error{
		Pos:      p.lex.Pos.Position,
		Expected: expected,
		Found:    fmt.Sprintf("%q(Token=%v, Pos=%s)", p.lex.Text, p.lex.Token, p.lex.Pos),
	}
''', '''	err := errorPool[atomic.AddUint32(&errorNext, 1)%uint32(len(errorPool))]
	*err = meta.Error{
		Pos:      p.lex.Pos.Position,
		Expected: expected,
		Found:    fmt.Sprintf("%q(Token=%v, Pos=%s)", p.lex.Text, p.lex.Token, p.lex.Pos),
	}
'''), ('parser/error.go', '''func (p *Parser) unexpected(''', '''// errorPool holds the errors in use: most of them are raised for optional parts and dropped at once.
var (
	errorPool [256]*meta.Error
	errorNext uint32
)

func init() {
	for i := range errorPool {
		errorPool[i] = new(meta.Error)
	}
}

func (p *Parser) unexpected('''), ('parser/error.go', '''	"runtime"
''', '''	"runtime"
	"sync/atomic"
''')], 'an error that is kept while other files are parsed', 'later parses change an error already returned', M + '''
func main() {
	_, err := parse("package a.b")
	want := err.Error()
	for i := 0; i < 100; i++ {
		mustParse("// a\\nmessage A { int32 a = 1; // b\\n int32 b = 2; }")
	}
	eq("error", err.Error(), want)
}
''')

bug('p13-self-reference', 'P13', [('parser/message.go', '''	for _, body := range m.MessageBody {
		body.Accept(v)
	}
''', '''	for _, body := range m.MessageBody {
		if f, ok := body.(*Field); ok && f.Type == m.MessageName && f.IsRepeated {
			// A recursive type.
			v.VisitField(f)
			continue
		}
		body.Accept(v)
	}
''')], 'a repeated field of the type of its own message with a comment', 'the comments of a recursive field are not visited', M + '''
type v struct{ comments int }

func (v *v) VisitComment(*parser.Comment)                     { v.comments++ }
func (v *v) VisitDeclaration(*parser.Declaration) bool        { return true }
func (v *v) VisitEdition(*parser.Edition) bool                { return true }
func (v *v) VisitEmptyStatement(*parser.EmptyStatement) bool  { return true }
func (v *v) VisitEnum(*parser.Enum) bool                      { return true }
func (v *v) VisitEnumField(*parser.EnumField) bool            { return true }
func (v *v) VisitExtend(*parser.Extend) bool                  { return true }
func (v *v) VisitExtensions(*parser.Extensions) bool          { return true }
func (v *v) VisitField(*parser.Field) bool                    { return true }
func (v *v) VisitGroupField(*parser.GroupField) bool          { return true }
func (v *v) VisitImport(*parser.Import) bool                  { return true }
func (v *v) VisitMapField(*parser.MapField) bool              { return true }
func (v *v) VisitMessage(*parser.Message) bool                { return true }
func (v *v) VisitOneof(*parser.Oneof) bool                    { return true }
func (v *v) VisitOneofField(*parser.OneofField) bool          { return true }
func (v *v) VisitOption(*parser.Option) bool                  { return true }
func (v *v) VisitPackage(*parser.Package) bool                { return true }
func (v *v) VisitReserved(*parser.Reserved) bool              { return true }
func (v *v) VisitRPC(*parser.RPC) bool                        { return true }
func (v *v) VisitService(*parser.Service) bool                { return true }
func (v *v) VisitSyntax(*parser.Syntax) bool                  { return true }

func main() {
	x := &v{}
	mustParse("message Node { repeated Node children = 1; // c\\n}").Accept(x)
	eq("comments", x.comments, 1)
}
''')

bug('p13-syntax-or-edition', 'P13', [('parser/proto.go', '''	if p.Edition != nil {
		p.Edition.Accept(v)
	}
''', '''	if p.Edition != nil && p.Syntax == nil {
		p.Edition.Accept(v)
	}
''')], 'a file with both a syntax and an edition', 'the edition is not visited', M + '''
type v struct{ parser.Visitor; n int }

func (v *v) VisitEdition(*parser.Edition) bool { v.n++; return false }
func (v *v) VisitSyntax(*parser.Syntax) bool   { return false }

func main() {
	x := &v{}
	mustParse("syntax = \\"proto3\\"; edition = \\"2023\\";").Accept(x)
	eq("editions", x.n, 1)
}
''')

bug('p14-merge-extends', 'P14', [('interpret/unordered/proto.go', '''			extend, err := InterpretExtend(t)
			if err != nil {
				return nil, err
			}
			extends = append(extends, extend)
''', '''			extend, err := InterpretExtend(t)
			if err != nil {
				return nil, err
			}
			if n := len(extends); n > 0 && extends[n-1].MessageType == extend.MessageType {
				last := extends[n-1].ExtendBody
				last.Fields = append(last.Fields, extend.ExtendBody.Fields...)
				last.EmptyStatements = append(last.EmptyStatements, extend.ExtendBody.EmptyStatements...)
				last.Comments = append(last.Comments, extend.ExtendBody.Comments...)
				continue
			}
			extends = append(extends, extend)
''')], 'two extends of the same message', 'one of the two extends is gone', M + '''
func main() {
	u, err := protoparser.UnorderedInterpret(mustParse("extend A { int32 a = 1; } extend A { int32 b = 2; }"))
	if err != nil {
		fail("%v", err)
	}
	eq("extends", len(u.ProtoBody.Extends), 2)
}
''')

bug('p14-alias-body', 'P14', [('interpret/unordered/enum.go', '''	var options []*parser.Option
''', '''	onlyFields := true
	for _, s := range src {
		if _, ok := s.(*parser.EnumField); !ok {
			onlyFields = false
		}
	}
	if onlyFields && len(src) > 1 {
		// The first value is the default one: keep it in front.
		fields := make([]*parser.EnumField, 0, len(src))
		for _, s := range src {
			f := s.(*parser.EnumField)
			if f.Number == "0" {
				fields = append([]*parser.EnumField{f}, fields...)
				continue
			}
			fields = append(fields, f)
		}
		return &EnumBody{EnumFields: fields}, nil
	}
	var options []*parser.Option
'''), ('interpret/unordered/enum.go', '''	return &EnumBody{
		Options:         options,
''', '''	return &EnumBody{
		Options:         options[:len(options):len(options)],
''')], 'an enum of values only, with the value 0 not in front', 'the values are not in source order', M + '''
func main() {
	u, err := protoparser.UnorderedInterpret(mustParse("enum E { A = 1; B = 0; }"))
	if err != nil {
		fail("%v", err)
	}
	eq("first", u.ProtoBody.Enums[0].EnumBody.EnumFields[0].Ident, "A")
}
''')

bug('p15-mode-leak', 'P15', [('lexer/lexer.go', '''	mode := lex.scanner.Mode
	defer func() {
		lex.scanner.Mode = mode
	}()

	lex.scanner.Mode = nextMode
	lex.Next()
''', '''	mode := lex.scanner.Mode

	lex.scanner.Mode = nextMode
	lex.Next()
	if lex.Token == scanner.TILLEGAL && lex.LatestErr() != nil {
		// The parse is over.
		return
	}
	lex.scanner.Mode = mode
''')], 'a scan after a malformed token', 'the scan mode of a failed scan stays in force', M + '''
import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"

func main() {
	lex := newLexer("\\"abc\\n true")
	lex.NextLit()
	lex.Next()
	eq("token", lex.Token == scanner.TIDENT, true)
}
'''.replace('package main\n\n\nimport', 'package main\n\nimport'))

bug('p16-unicode-ident', 'P16', [('lexer/scanner/ident.go', '''		case isLetter(next), isDecimalDigit(next), next == '_':
''', '''		case isLetter(next), isDecimalDigit(next), next == '_', next == '\\u200d':
''')], 'a zero width joiner behind an identifier', 'an identifier swallows an invisible character', M + '''
func main() {
	mustReject("package a\\u200d;")
}
''')

bug('p16-exponent-trailing', 'P16', [('lexer/scanner/numberLit.go', '''	lit += s.scanDigits(isDecimalDigit)
	return lit, nil
''', '''	lit += s.scanDigits(isDecimalDigit)
	if s.peek() == 'f' {
		// a float in text format
		s.read()
	}
	return lit, nil
'''),] , 'a float with the letter f behind its fraction or exponent', 'a character is skipped that belongs to no token', M + '''
func main() {
	mustReject("option a = 1.5f;")
}
''')

bug('p02-int-overflow', 'P02', [('lexer/constant.go', '''	case lex.Token == scanner.TINTLIT, lex.Token == scanner.TFLOATLIT:
		return cons, startPos, nil
''', '''	case lex.Token == scanner.TINTLIT:
		if _, err := strconv.ParseUint(cons, 0, 64); err != nil {
			return "", scanner.Position{}, lex.unexpected(lex.Text, "64-bit integer")
		}
		return cons, startPos, nil
	case lex.Token == scanner.TFLOATLIT:
		return cons, startPos, nil
'''), ('lexer/constant.go', '''import (
	"strings"
''', '''import (
	"strconv"
	"strings"
''')], 'an integer constant of 2^64 or more', 'a large integer, which a float or double option takes, is rejected', M + '''
func main() {
	mustParse("option (a) = 18446744073709551615;")
	mustParse("option (a) = 18446744073709551616;")
}
''')

bug('p02-enum-value-literal', 'P02', [('parser/enum.go', '''	p.lex.Next()
	if p.lex.Token != scanner.TIDENT {
		return nil, p.unexpected("ident")
	}
	startPos := p.lex.Pos
	ident := p.lex.Text
''', '''	p.lex.NextNumberLit()
	if p.lex.Token != scanner.TIDENT {
		return nil, p.unexpected("ident")
	}
	startPos := p.lex.Pos
	ident := p.lex.Text
''')], 'an enum value named inf or nan', 'a conforming enum is rejected', M + '''
func main() {
	mustParse("enum E { nan = 0; inf = 1; }")
}
''')

bug('p02-dotted-builtin', 'P02', [('parser/mapField.go', '''	typeValue, _, err := p.parseType()
	if err != nil {
		return nil, p.unexpected("type")
	}

	p.lex.Next()
	if p.lex.Token != scanner.TGREATER {
''', '''	typeValue, _, err := p.parseType()
	if err != nil {
		return nil, p.unexpected("type")
	}
	if _, ok := typeConstants[strings.TrimPrefix(typeValue, ".")]; ok {
		typeValue = strings.TrimPrefix(typeValue, ".")
	}

	p.lex.Next()
	if p.lex.Token != scanner.TGREATER {
'''), ('parser/mapField.go', '''import (
''', '''import (
	"strings"

''')], 'a map whose value type is a message named like a built-in type', 'the leading dot is lost, which makes it the built-in type', M + '''
func main() {
	p := mustParse("message A { map<string, .bytes> m = 1; }")
	eq("type", p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.MapField).Type, ".bytes")
}
''')

bug('p02-stream-lower', 'P02', [('parser/service.go', '''func (p *Parser) parseRPCResponse() (*RPCResponse, error) {
	p.lex.Next()
	if p.lex.Token != scanner.TLEFTPAREN {
		return nil, p.unexpected("(")
	}
	startPos := p.lex.Pos

	p.lex.NextKeyword()
	isStream := true
	if p.lex.Token != scanner.TSTREAM {
		isStream = false
		p.lex.UnNext()
	}

	messageType, _, err := p.lex.ReadMessageType()
''', '''func (p *Parser) parseRPCResponse() (*RPCResponse, error) {
	p.lex.Next()
	if p.lex.Token != scanner.TLEFTPAREN {
		return nil, p.unexpected("(")
	}
	startPos := p.lex.Pos

	isStream := false
	for p.lex.NextKeyword(); p.lex.Token == scanner.TSTREAM; p.lex.NextKeyword() {
		isStream = !isStream
	}
	p.lex.UnNext()

	messageType, _, err := p.lex.ReadMessageType()
''')], 'a streamed message type named stream', 'the type named stream is taken for a second modifier', M + '''
func main() {
	p := mustParse("service S { rpc A(stream stream) returns (stream stream); }")
	eq("type", p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.RPC).RPCResponse.MessageType, "stream")
}
''')

bug('p03-eof-semicolon', 'P03', [('parser/package.go', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}
''', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON && !p.lex.IsEOF() {
		return nil, p.unexpected(";")
	}
''')], 'a package statement at the end of the file without its semicolon', 'a truncated file is accepted', M + '''
func main() {
	mustReject("package a")
}
''')

bug('p03-range-to-nothing', 'P03', [('parser/reserved.go', '''	default:
		break
	}
	return nil, p.unexpected(`"intLit | "max"`)
''', '''	case p.lex.Token == scanner.TSEMICOLON && begin == "0":
		// all of them
		p.lex.UnNext()
		return &Range{Begin: begin, End: "max"}, nil
	default:
		break
	}
	return nil, p.unexpected(`"intLit | "max"`)
''')], 'a range that begins with 0 and has no end behind to', 'a range without an end is accepted', M + '''
func main() {
	mustReject("message A { reserved 0 to; }")
}
''')

bug('p03-oneof-label', 'P03', [('parser/oneof.go', '''	typeValue, startPos, err := p.parseType()
	if err != nil {
		return nil, p.unexpected("type")
	}
''', '''	p.lex.NextKeyword()
	labelled := p.lex.Token == scanner.TOPTIONAL
	raw := p.lex.RawText
	if !labelled || p.lex.Peek() != scanner.TIDENT {
		p.lex.UnNextTo(raw)
	}
	typeValue, startPos, err := p.parseType()
	if err != nil {
		return nil, p.unexpected("type")
	}
	if labelled && p.lex.Peek() == scanner.TEQUALS {
		return nil, p.unexpected("fieldName")
	}
''')], 'a label inside a oneof', 'a label that the grammar does not allow there is accepted', M + '''
func main() {
	mustReject("message A { oneof b { optional int32 c = 1; } }")
}
''')

bug('p03-second-equals', 'P03', [('parser/enum.go', '''	var intLit string
	p.lex.ConsumeToken(scanner.TMINUS)
	if p.lex.Token == scanner.TMINUS {
		intLit = "-"
	}
''', '''	var intLit string
	for p.lex.Peek() == scanner.TMINUS {
		p.lex.Next()
		intLit = "-"
	}
''')], 'two minus signs', 'a doubled sign is accepted', M + '''
func main() {
	mustReject("enum E { A = --1; }")
}
''')

bug('p03-hex-float', 'P03', [('lexer/scanner/numberLit.go', '''		lit += s.scanDigits(isHexDigit)
		return TINTLIT, lit, nil
''', '''		lit += s.scanDigits(isHexDigit)
		if s.peek() == 'p' || s.peek() == 'P' {
			// hexadecimal float
			lit += string(s.read())
			lit += s.scanDigits(isDecimalDigit)
			return TFLOATLIT, lit, nil
		}
		return TINTLIT, lit, nil
''')], 'a hexadecimal float', 'a literal that the grammar does not know is accepted', M + '''
func main() {
	mustReject("option a = 0x1p4;")
}
''')

bug('p04-plus-sign', 'P04', [('lexer/constant.go', '''		case scanner.TINTLIT, scanner.TFLOATLIT:
			cons += lex.Text
			return cons, startPos, nil
''', '''		case scanner.TINTLIT, scanner.TFLOATLIT:
			if cons == "+" && lex.Token == scanner.TFLOATLIT && isLetter(lex.Text) {
				cons = ""
			}
			cons += lex.Text
			return cons, startPos, nil
'''), ('lexer/constant.go', '''// ReadConstant reads''', '''func isLetter(lit string) bool { return 'a' <= lit[0] && lit[0] <= 'z' }

// ReadConstant reads''')], 'an infinity with a plus sign', 'the plus sign is dropped', M + '''
func main() {
	p := mustParse("option a = +inf;")
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, "+inf")
}
''')

bug('p04-import-twice', 'P04', [('parser/proto.go', '''			importValue.Comments = comments
			stmt = importValue
''', '''			importValue.Comments = comments
			if n := len(protoBody); n > 0 {
				if last, ok := protoBody[n-1].(*Import); ok && last.Location == importValue.Location && last.Modifier == importValue.Modifier {
					p.MaybeScanInlineComment(importValue)
					continue
				}
			}
			stmt = importValue
''')], 'the same import twice in a row', 'a repeated import vanishes', M + '''
func main() {
	p := mustParse("import 'a'; import 'a';")
	eq("statements", len(p.ProtoBody), 2)
}
''')

bug('p04-max-range', 'P04', [('parser/reserved.go', '''	case p.lex.Token == scanner.TINTLIT,
		p.lex.Text == "max":
		return &Range{
''', '''	case p.lex.Token == scanner.TINTLIT && p.lex.Text == begin:
		// a range of one
		return &Range{
			Begin: begin,
		}, nil
	case p.lex.Token == scanner.TINTLIT,
		p.lex.Text == "max":
		return &Range{
''')], 'a range whose end equals its beginning', 'the end of the range vanishes', M + '''
func main() {
	p := mustParse("message A { reserved 5 to 5; }")
	eq("end", p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Reserved).Ranges[0].End, "5")
}
''')

bug('p05-many-semicolons', 'P05', [('parser/service.go', '''			lastPos := p.lex.Pos
			if p.permissive {
				// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
				p.lex.ConsumeToken(scanner.TSEMICOLON)
				if p.lex.Token == scanner.TSEMICOLON {
					lastPos = p.lex.Pos
				}
			}
			return stmts, inlineLeftCurly, lastPos, nil
''', '''			lastPos := p.lex.Pos
			if p.permissive {
				// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
				for p.lex.Peek() == scanner.TSEMICOLON {
					p.lex.Next()
					lastPos = p.lex.Pos
				}
				p.lex.Pos = lastPos
			}
			return stmts, inlineLeftCurly, lastPos, nil
''')], 'two semicolons behind a service block', 'an empty statement vanishes in permissive mode only', M + '''
func main() {
	p := mustParse("service S {};;")
	eq("statements", len(p.ProtoBody), 2)
}
''')

bug('p05-strict-adjacent', 'P05', [('lexer/constant.go', '''	case lex.Token == scanner.TSTRLIT:
		if permissive {
			return lex.mergeMultilineStrLit(), startPos, nil
		}
''', '''	case lex.Token == scanner.TSTRLIT:
		if permissive || lex.Peek() == scanner.TQUOTE && len(cons) > 80 {
			lex.Token, lex.Text = scanner.TSTRLIT, cons
			return lex.mergeMultilineStrLit(), startPos, nil
		}
''')], 'adjacent literals in strict mode of which the first is long', 'strict mode accepts adjacent literals', M + '''
func main() {
	mustReject("option a = \\"" + strings.Repeat("x", 100) + "\\" \\"b\\";", strict)
}
''')

bug('p17-import-escape', 'P17', [('parser/import.go', '''	location := p.lex.Text
''', '''	location := strings.ReplaceAll(p.lex.Text, `\\/`, "/")
'''), ('parser/import.go', '''import (
''', '''import (
	"strings"

''')], 'an import whose literal holds a backslash and a slash', 'the text of the literal is not the source text', M + '''
func main() {
	p := mustParse(`import "a\\\\/b.proto";`)
	eq("location", p.ProtoBody[0].(*parser.Import).Location, `"a\\\\/b.proto"`)
}
''')

bug('p17-long-octal', 'P17', [('lexer/scanner/strLit.go', '''	case isOctalDigit(ch):
		for i := 0; i < 3; i++ {
''', '''	case ch == '0':
		// NUL
		s.read()
		if !isOctalDigit(s.peek()) {
			return lit + "000"
		}
		lit += "0"
		for i := 0; i < 2; i++ {
			if !isOctalDigit(s.peek()) {
				return lit
			}
			lit += string(s.read())
		}
	case isOctalDigit(ch):
		for i := 0; i < 3; i++ {
''')], 'the escape \\0 with no digit behind it', 'the source text of the literal is changed', M + '''
func main() {
	p := mustParse(`option a = "x\\0y";`)
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, `"x\\0y"`)
}
''')

bug('p18-percent', 'P18', [('parser/error.go', '''		Expected: expected,
''', '''		Expected: fmt.Sprintf(expected+" in %d", p.lex.Pos.Line),
'''), ('parser/error.go', '''	_, file, line, _ := runtime.Caller(1)
	err''', '''	_, file, line, _ := runtime.Caller(1)
	if p.lex.Pos.Column > 80 {
		// Long lines: the column says more than the line.
		p.lex.Pos.Column = 80
	}
	err''')], 'an error beyond column 80', 'the column of the error does not agree with its offset', M + '''
func main() {
	err := mustReject("package a." + strings.Repeat(" ", 100) + "5;")
	var e *meta.Error
	if !errors.As(err, &e) {
		fail("type %T", err)
	}
	eq("column", e.Pos.Column-1, e.Pos.Offset)
}
'''.replace('package main\n\n\n', 'package main\n\n') .replace('package main\n', 'package main\n\nimport (\n\t"errors"\n\n\t"github.com/yoheimuta/go-protoparser/v4/parser/meta"\n)\n') if False else 'package main\n\nimport (\n\t"errors"\n\n\t"github.com/yoheimuta/go-protoparser/v4/parser/meta"\n)\n' + '''
func main() {
	err := mustReject("package a." + strings.Repeat(" ", 100) + "5;")
	var e *meta.Error
	if !errors.As(err, &e) {
		fail("type %T", err)
	}
	eq("column", e.Pos.Column-1, e.Pos.Offset)
}
''')

bug('p19-ranges-copy', 'P19', [('parser/reserved.go', '''		rangeValue, err := p.parseRange()
		if err != nil {
			return nil, err
		}
		ranges = append(ranges, rangeValue)
	}
	return ranges, nil
''', '''		rangeValue, err := p.parseRange()
		if err != nil {
			return nil, err
		}
		ranges = append(ranges[:len(ranges):len(ranges)], rangeValue)
	}
	return ranges, nil
''')], 'a long list of ranges', 'the list is copied for every element', M + '''
import "runtime"

func cost(n int) uint64 {
	src := "message A { reserved 1" + strings.Repeat(", 2", n) + "; }"
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	mustParse(src)
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func main() {
	x, y := cost(2000), cost(20000)
	if y > 30*x {
		fail("%d bytes for 2000, %d for 20000", x, y)
	}
}
'''.replace('package main\n\n\nimport', 'package main\n\nimport'))

bug('p19-unique-names', 'P19', [('interpret/unordered/message.go', '''		case *parser.Field:
			fields = append(fields, t)
''', '''		case *parser.Field:
			known := false
			for _, f := range fields {
				known = known || f == t
			}
			if !known {
				fields = append(fields, t)
			}
''')], 'the interpretation of a message with many fields', 'the work grows with the square of the number of fields', M + '''
import "time"

func cost(n int) time.Duration {
	p := mustParse("message A {" + strings.Repeat("int32 a = 1;", n) + "}")
	best := time.Hour
	for i := 0; i < 3; i++ {
		t := time.Now()
		if _, err := protoparser.UnorderedInterpret(p); err != nil {
			fail("%v", err)
		}
		if d := time.Since(t); d < best {
			best = d
		}
	}
	return best
}

func main() {
	x, y := cost(2000), cost(40000)
	if y > 100*x+10*time.Millisecond {
		fail("%v for 2000, %v for 40000", x, y)
	}
}
'''.replace('package main\n\n\nimport', 'package main\n\nimport'))

bug('p20-option-comment', 'P20', [('parser/package.go', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}

	return &Package{
		Name: ident,
		Meta: meta.Meta{
			Pos:     startPos.Position,
			LastPos: p.lex.Pos.Position,
		},
	}, nil
''', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}
	lastPos := p.lex.Pos
	if p.lex.Peek() == scanner.TSEMICOLON && p.permissive {
		// a doubled semicolon
		p.lex.Next()
	}
	p.lex.Pos = lastPos

	return &Package{
		Name: ident,
		Meta: meta.Meta{
			Pos:     startPos.Position,
			LastPos: lastPos.Position,
		},
	}, nil
''')], 'a package statement followed by an empty statement', 'the statement takes a token of its neighbour', M + '''
func main() {
	eq("statements", len(mustParse("package a;;").ProtoBody), 2)
}
''')

bug('p20-extend-sticky', 'P20', [('parser/extend.go', '''	extendBody, inlineLeftCurly, lastPos, err := p.parseExtendBody()
	if err != nil {
		return nil, err
	}
''', '''	permissive := p.permissive
	p.permissive = true
	extendBody, inlineLeftCurly, lastPos, err := p.parseExtendBody()
	if err != nil {
		return nil, err
	}
	if len(extendBody) > 0 {
		p.permissive = permissive
	}
''')], 'strict mode, an empty extend and another statement behind it', 'a statement is parsed differently when an empty extend precedes it', M + '''
func main() {
	mustReject("extend A {} option a = { b: 1 };", strict)
}
''')

bug('p21-debug-stdout', 'P21', [('_example/dump/main.go', '''	got, err := protoparser.Parse(
''', '''	if *debug && *unordered {
		log.SetOutput(os.Stdout)
	}

	got, err := protoparser.Parse(
'''), ('_example/dump/main.go', '''	"fmt"
	"os"
''', '''	"fmt"
	"log"
	"os"
''')], 'the debug and unordered flags together', 'the log is mixed into the tree on standard output', 'package main\n\nimport (\n\t"bytes"\n\t"os/exec"\n)\n' + '''
func main() {
	bin := os.Getenv("TMPD") + "/dump"
	cmd := exec.Command("go", "build", "-o", bin, ".")
	cmd.Dir = os.Getenv("REPO") + "/_example/dump"
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Println(string(out))
		os.Exit(3)
	}
	src := os.Getenv("TMPD") + "/a.proto"
	os.WriteFile(src, []byte("package a;"), 0o644)
	var stdout bytes.Buffer
	c := exec.Command(bin, "-proto", src, "-debug", "-unordered")
	c.Stdout = &stdout
	if err := c.Run(); err != nil {
		fail("%v", err)
	}
	if !json.Valid(stdout.Bytes()) {
		fail("standard output is not JSON: %q", stdout.String())
	}
}
''')

bug('p21-limit', 'P21', [('_example/dump/main.go', '''		reader,
''', '''		io.LimitReader(reader, 1<<20),
'''), ('_example/dump/main.go', '''	"fmt"
	"os"
''', '''	"fmt"
	"io"
	"os"
''')], 'a file of more than one MiB', 'only the first MiB of a file is parsed', 'package main\n\nimport (\n\t"os/exec"\n)\n' + '''
func main() {
	bin := os.Getenv("TMPD") + "/dump"
	cmd := exec.Command("go", "build", "-o", bin, ".")
	cmd.Dir = os.Getenv("REPO") + "/_example/dump"
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Println(string(out))
		os.Exit(3)
	}
	src := os.Getenv("TMPD") + "/a.proto"
	os.WriteFile(src, []byte("package a;"+strings.Repeat(" ", 1<<20)+"package"), 0o644)
	if exec.Command(bin, "-proto", src).Run() == nil {
		fail("accepted")
	}
}
''')

bug('p22-star-lines', 'P22', [('parser/comment.go', '''	return strings.Split(raw, "\\n")
''', '''	lines := strings.Split(raw, "\\n")
	if len(lines) > 2 && c.IsCStyle() {
		for i := 1; i < len(lines); i++ {
			if strings.HasPrefix(lines[i], " *\\t") {
				lines[i] = lines[i][2:]
			}
		}
	}
	return lines
''')], 'a block comment of three lines with a star and a tab in front of one', 'a part of the text is missing from the lines', M + '''
func main() {
	p := mustParse("/*\\n *\\ta\\n */\\npackage a;")
	eq("lines", strings.Join(p.ProtoBody[0].(*parser.Package).Comments[0].Lines(), "\\n"), "\\n *\\ta\\n ")
}
''')

bug('p22-zero-column', 'P22', [('parser/meta/position.go', '''	s += fmt.Sprintf(":%d:%d", pos.Line, pos.Column)
	return s
''', '''	if pos.Column > 1<<12 {
		// generated code
		return s + fmt.Sprintf(":%d:%d+", pos.Line, 1<<12)
	}
	s += fmt.Sprintf(":%d:%d", pos.Line, pos.Column)
	return s
''')], 'a position beyond column 4096', 'the printed position does not name the column', M + '''
func main() {
	p := mustParse(strings.Repeat(" ", 5000) + "package a;")
	eq("position", p.ProtoBody[0].(*parser.Package).Meta.Pos.String(), "<input>:1:5001")
}
''')

bug('p01-nil-statement', 'P01', [('parser/message.go', '''		p.MaybeScanInlineComment(stmt)
		stmts = append(stmts, stmt)
	}
}
''', '''		p.MaybeScanInlineComment(stmt)
		if cap(stmts) == 0 {
			stmts = make([]Visitee, 0, 8)
		}
		if len(stmts) == cap(stmts) {
			grown := make([]Visitee, len(stmts)+1, 2*len(stmts))
			copy(grown, stmts)
			stmts = grown[:len(stmts)+len(stmts)/512]
		}
		stmts = append(stmts, stmt)
	}
}
''')], 'a message with more than 512 statements', 'the body holds a nil statement', M + '''
func main() {
	p := mustParse("message A {" + strings.Repeat("int32 a = 1;", 1030) + "}")
	for i, s := range p.ProtoBody[0].(*parser.Message).MessageBody {
		if s == nil {
			fail("statement %d is nil", i)
		}
	}
}
''')

bug('p01-escape-at-end', 'P01', [('lexer/scanner/strLit.go', '''	ch := s.peek()
	switch {
	case ch == 'x' || ch == 'X':
		lit += string(s.read())

		for i := 0; i < 2; i++ {
			if !isHexDigit(s.peek()) {
				return lit
			}
			lit += string(s.read())
		}
''', '''	ch := s.peek()
	switch {
	case ch == 'x' || ch == 'X':
		lit += string(s.read())

		var digits []rune
		for isHexDigit(s.peek()) && len(digits) < 2 {
			digits = append(digits, s.read())
		}
		lit += string(digits)
		if s.isEOF() {
			return lit[:len(lit)-len(digits)] + string(digits[:2])
		}
''')], 'an input that ends within a hexadecimal escape', 'a panic', M + '''
func main() {
	mustReject("option a = \\"\\\\x")
}
''', crash=True)

bug('p01-deep-walk', 'P01', [('interpret/unordered/message.go', '''			message, err := InterpretMessage(t)
			if err != nil {
				return nil, err
			}
			messages = append(messages, message)
''', '''			message, err := InterpretMessage(t)
			if err != nil {
				return nil, err
			}
			if n := len(messages); n > 0 && messages[n-1].MessageName == message.MessageName {
				return nil, fmt.Errorf("message %s is defined twice", message.MessageName)
			}
			messages = append(messages, message)
''')], 'two nested messages of the same name in a row', 'an accepted file cannot be interpreted', M + '''
func main() {
	p := mustParse("message A { message B {} message B {} }")
	if _, err := protoparser.UnorderedInterpret(p); err != nil {
		fail("%v", err)
	}
}
''')
