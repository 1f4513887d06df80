BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

M = 'package main\n\n'

bug('p01-partial-tree', 'P01', [('parser/proto.go', '''	edition, err := p.ParseEdition()
	if err != nil {
		return nil, err
	}
''', '''	edition, err := p.ParseEdition()
	if err != nil {
		return &Proto{Syntax: syntax, Meta: &ProtoMeta{Filename: p.lex.Pos.Filename}}, err
	}
''')], 'an edition declaration with an error in it', 'the caller gets a tree together with an error', M + '''
func main() {
	mustReject("edition = 2023;\\n")
	mustReject("edition = \\"2023\\"\\nmessage A {}")
}
''')

bug('p01-late-syntax', 'P01', [('parser/proto.go', '''		case scanner.TPACKAGE:
			packageValue, err := p.ParsePackage()
			if err != nil {
				return nil, err
			}
			packageValue.Comments = comments
			stmt = packageValue
''', '''		case scanner.TSYNTAX:
			syntax, err := p.ParseSyntax()
			if err != nil {
				return nil, err
			}
			syntax.Comments = comments
			stmt = syntax
		case scanner.TPACKAGE:
			pkg, err := p.ParsePackage()
			if err != nil {
				return nil, err
			}
			pkg.Comments = comments
			stmt = pkg
''')], 'a second or late syntax statement', 'a body holds a node kind that the documentation does not name, which cannot be interpreted', M + '''
func main() {
	mustReject("package a;\\nsyntax = \\"proto3\\";\\nmessage A {}")
}
''')

bug('p01-hang-unterminated-rpc', 'P01', [('parser/service.go', '''		default:
			err := p.lex.ReadEmptyStatement()
			if err != nil {
				return nil, nil, err
			}
		}

		p.lex.Next()
''', '''		case scanner.TSEMICOLON, scanner.TEOF:
			p.lex.ConsumeToken(scanner.TSEMICOLON)
		default:
			return nil, nil, p.unexpected("option, ; or }")
		}

		p.lex.Next()
''')], 'a file that ends inside the braces of an rpc', 'the parser loops forever instead of reporting the missing brace', '''package main

import (
	"time"
)

func main() {
	go func() {
		time.Sleep(10 * time.Second)
		fail("still parsing after 10 s")
	}()
	mustParse("service S { rpc A(B) returns (C) { ; option a = 1; } }")
	mustReject("service S { rpc A(B) returns (C) { option a = 1; ")
}
''')

bug('p02-fraction-exponent', 'P02', [('lexer/scanner/numberLit.go', '''	lit := ""

	ch := s.peek()
	switch {
	case isDecimalDigit(ch):
		decimals, err := s.scanDecimals()
		if err != nil {
			return "", err
		}
		lit += decimals
	}

	switch s.peek() {
	case 'e', 'E':
		exp, err := s.scanExponent()
		if err != nil {
			return "", err
		}
		lit += exp
	}
	return lit, nil
''', '''	if !isDecimalDigit(s.peek()) {
		return "", nil
	}
	return s.scanFractionPartNoOmit()
''')], 'a float with an empty fraction and an exponent (1.e5)', 'a conforming file is rejected', M + '''
func main() {
	p := mustParse("option a = 1.e5;\\noption b = 2.;")
	_ = p
}
''')

bug('p02-hex-upper', 'P02', [('lexer/scanner/numberLit.go', '''	case lit == "0" && (ch == 'x' || ch == 'X'):
''', '''	case lit == "0" && ch == 'x':
''')], 'a hexadecimal literal written with 0X', 'a conforming file is rejected', M + '''
func main() {
	mustParse("enum E { A = 0X1F; }")
}
''')

bug('p02-negative-hex-enum', 'P02', [('parser/enum.go', '''	var intLit string
	p.lex.ConsumeToken(scanner.TMINUS)
	if p.lex.Token == scanner.TMINUS {
		intLit = "-"
	}

	p.lex.NextNumberLit()
	if p.lex.Token != scanner.TINTLIT {
		return nil, p.unexpected("intLit")
	}
	intLit += p.lex.Text
''', '''	p.lex.ConsumeToken(scanner.TMINUS)
	negative := p.lex.Token == scanner.TMINUS

	intLit, err := p.parseFieldNumber()
	if err != nil {
		return nil, err
	}
	if negative && intLit[0] != '0' {
		intLit = "-" + intLit
	}
''')], 'an enum value with a minus sign and an octal or hexadecimal number', 'the sign is lost from the tree', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("enum E { A = -0x1F; B = -010; C = -3; }")
	e := p.ProtoBody[0].(*parser.Enum)
	for i, want := range []string{"-0x1F", "-010", "-3"} {
		eq("number", e.EnumBody[i].(*parser.EnumField).Number, want)
	}
}
''')

bug('p03-map-key-table', 'P03', [('parser/mapField.go', '''	if _, ok := keyTypeConstants[p.lex.Text]; ok {
		return p.lex.Text, nil
	}
''', '''	if _, ok := typeConstants[p.lex.Text]; ok && p.lex.Text != "bytes" {
		return p.lex.Text, nil
	}
'''), ('parser/mapField.go', '''var keyTypeConstants = map[string]struct{}{
	"int32":    {},
	"int64":    {},
	"uint32":   {},
	"uint64":   {},
	"sint32":   {},
	"sint64":   {},
	"fixed32":  {},
	"fixed64":  {},
	"sfixed32": {},
	"sfixed64": {},
	"bool":     {},
	"string":   {},
}

''', '')], 'a map with a floating point key type', 'map<double, X> is accepted', M + '''
func main() {
	mustParse("message A { map<string, bytes> a = 1; }")
	mustReject("message A { map<double, bytes> a = 1; }")
	mustReject("message A { map<float, bytes> a = 1; }")
}
''')

bug('p03-nul-in-string', 'P03', [('lexer/scanner/strLit.go', '''	switch ch {
	case eof, 0, '\\n':
''', '''	switch ch {
	case eof, '\\n':
''')], 'a NUL byte inside a string literal', 'a malformed literal is accepted', M + '''
func main() {
	mustReject("import \\"a\\x00b\\";")
}
''')

bug('p03-reserved-trailing-comma', 'P03', [('parser/reserved.go', '''			fieldName, err = p.parseFieldName()
			if err != nil {
				return nil, err
			}
			fieldNames = append(fieldNames, fieldName)
		} else {
''', '''			fieldName, err = p.parseFieldName()
			if err != nil {
				break
			}
			fieldNames = append(fieldNames, fieldName)
		} else {
''')], 'a comma behind the last reserved name', 'an extra token is repaired silently', M + '''
func main() {
	mustParse("message A { reserved \\"a\\", \\"b\\"; }")
	mustReject("message A { reserved \\"a\\", \\"b\\",; }")
}
''')

bug('p04-last-option-wins', 'P04', [('parser/field.go', '''		opt, err = p.parseFieldOption()
		if err != nil {
			return nil, p.unexpected("fieldOption")
		}
		opts = append(opts, opt)
	}
	return opts, nil
''', '''		next, err := p.parseFieldOption()
		if err != nil {
			return nil, p.unexpected("fieldOption")
		}
		if *next != *opts[len(opts)-1] {
			opts = append(opts, next)
		}
	}
	return opts, nil
''')], 'two equal neighbouring field options (a repeated custom option)', 'one of them vanishes from the tree', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("message A { int32 a = 1 [(tag) = 1, (tag) = 1, (tag) = 2]; }")
	eq("options", len(p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Field).FieldOptions), 3)
}
''')

bug('p04-plus-sign', 'P04', [('lexer/constant.go', '''		case scanner.TINTLIT, scanner.TFLOATLIT:
			cons += lex.Text
			return cons, startPos, nil
''', '''		case scanner.TINTLIT, scanner.TFLOATLIT:
			if cons == "+" {
				return lex.Text, startPos, nil
			}
			return cons + lex.Text, startPos, nil
''')], 'a constant with an explicit plus sign', 'the sign vanishes', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("option a = +1.5;")
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, "+1.5")
}
''')

bug('p04-aggregate-last-separator', 'P04', [('parser/option.go', '''		case p.lex.Token == scanner.TCOMMA, p.lex.Token == scanner.TSEMICOLON:
			ret.WriteString(p.lex.Text)
			if p.lex.Peek() == scanner.TRIGHTCURLY && p.permissive {
				p.lex.Next()
				ret.WriteString(p.lex.Text)
				return nil
			}
''', '''		case p.lex.Token == scanner.TCOMMA, p.lex.Token == scanner.TSEMICOLON:
			separator := p.lex.Text
			if p.lex.Peek() == scanner.TRIGHTCURLY && p.permissive {
				p.lex.Next()
				ret.WriteString(p.lex.Text)
				return nil
			}
			ret.WriteString(separator)
''')], 'an aggregate value with a separator before its closing brace', 'a token of the option value is dropped', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("option (a) = { b: 1; c: 2; };")
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, "{b:1;c:2;}")
	p = mustParse("option (a) = { b: 1, c: 2, };")
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, "{b:1,c:2,}")
}
''')

bug('p05-strict-leading-dot', 'P05', [('parser/option.go', '''		case scanner.TLEFTPAREN:
			optionName.WriteString(p.lex.Text)

			// protoc accepts "(." fullIndent ")". See #63
			if p.permissive {
				p.lex.Next()
				if p.lex.Token == scanner.TDOT {
					optionName.WriteString(".")
				} else {
					p.lex.UnNext()
				}
			}

			fullIdent, _, err := p.lex.ReadFullIdent()
			if err != nil {
				return "", err
			}
			optionName.WriteString(fullIdent)
''', '''		case scanner.TLEFTPAREN:
			optionName.WriteString(p.lex.Text)

			// protoc accepts "(." fullIndent ")". See #63
			messageType, _, err := p.lex.ReadMessageType()
			if err != nil {
				return "", err
			}
			optionName.WriteString(messageType)
''')], 'a leading dot in a parenthesised option name behind the first component, in strict mode', 'a permissive extension is accepted in strict mode', M + '''
func main() {
	mustParse("option (a).(.b.c) = 1;")
	mustReject("option (.a) = 1;", strict)
	mustReject("option (a).(.b.c) = 1;", strict)
}
''')

bug('p05-semicolon-eof-extend', 'P05', [('parser/extend.go', '''			if p.permissive {
				// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
				p.lex.ConsumeToken(scanner.TSEMICOLON)
				if p.lex.Token == scanner.TSEMICOLON {
					lastPos = p.lex.Pos
				}
			}
			return stmts, inlineLeftCurly, lastPos, nil
''', '''			if p.permissive && len(stmts) != 0 {
				// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
				p.lex.ConsumeToken(scanner.TSEMICOLON)
				if p.lex.Token == scanner.TSEMICOLON {
					lastPos = p.lex.Pos
				}
			}
			return stmts, inlineLeftCurly, lastPos, nil
''')], 'an empty extend followed by a semicolon inside a message or file, in permissive mode', 'the semicolon is not part of the block', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("message A { extend B {}; }")
	b := p.ProtoBody[0].(*parser.Message).MessageBody
	eq("statements", len(b), 1)
	eq("last", b[0].(*parser.Extend).Meta.LastPos.Offset, 23)
}
''')

bug('p06-single-line-columns', 'P06', [('lexer/scanner/position.go', '''	// columns is a map which the key is a line number and the value is a column number.
	columns map[int]int
}
''', '''	// lastColumn is the column number at the end of the previous line.
	lastColumn int
}
'''), ('lexer/scanner/position.go', '''		columns: make(map[int]int),
''', ''), ('lexer/scanner/position.go', '''		pos.columns[pos.Line] = pos.Column

''', '''		pos.lastColumn = pos.Column

'''), ('lexer/scanner/position.go', '''		pos.Column = pos.columns[pos.Line]
''', '''		pos.Column = pos.lastColumn
''')], 'tokens put back over more than one line end, before another token on the first of these lines', 'columns are wrong', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("message A {\\n    optional\\n\\nT\\n  a = 1;\\n}")
	eq("column", p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Field).Meta.Pos.Column, 5)
}
''')

bug('p06-comment-last-bytes', 'P06', [('lexer/scanner/position.go', '''	for _, r := range s {
		pos.Advance(r)
	}
''', '''	line := s
	if i := strings.LastIndexByte(s, '\\n'); i != -1 {
		for _, r := range s[:i+1] {
			pos.Advance(r)
		}
		line = s[i+1:]
	}
	pos.Offset += len(line)
	pos.Column += len(line)
'''), ('lexer/scanner/position.go', '''import (
	"unicode/utf8"
''', '''import (
	"strings"
	"unicode/utf8"
''')], 'a comment whose last line holds a multi-byte character', 'the last column of the comment counts bytes', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("// äöü\\nmessage A {}")
	eq("column", p.ProtoBody[0].(*parser.Message).Comments[0].Meta.LastPos.Column, 6)
}
''')

bug('p06-oneof-field-pos', 'P06', [('lexer/messageType.go', '''	lex.Next()
	startPos := lex.Pos

	var messageType strings.Builder
	if lex.Token == scanner.TDOT {
		messageType.WriteString(lex.Text)
	} else {
		lex.UnNext()
	}

	lex.Next()
	for {
''', '''	var messageType strings.Builder
	lex.ConsumeToken(scanner.TDOT)
	if lex.Token == scanner.TDOT {
		messageType.WriteString(lex.Text)
	}

	lex.Next()
	startPos := lex.Pos
	for {
''')], 'a oneof field whose type begins with a dot', 'its start position is that of the second token', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("message A { oneof o { .a.B x = 1; } }")
	eq("offset", p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Oneof).OneofFields[0].Meta.Pos.Offset, 22)
}
''')

bug('p07-inline-multiline', 'P07', [('parser/inlineComment.go', '''	if currentPos.Line != comment.Meta.Pos.Line {
''', '''	if currentPos.Line != comment.Meta.LastPos.Line {
''')], 'a block comment that starts on the line where an element ends and ends on a later one', 'the comment becomes a leading comment of the next element', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("message A {} /* a\\n b */\\nmessage B {}")
	if p.ProtoBody[0].(*parser.Message).InlineComment == nil || len(p.ProtoBody[1].(*parser.Message).Comments) != 0 {
		fail("inline comment misplaced")
	}
}
''')

bug('p07-oneof-option-inline', 'P07', [('parser/oneof.go', '''			option.Comments = comments
			p.MaybeScanInlineComment(option)
			options = append(options, option)
''', '''			option.Comments = comments
			options = append(options, option)
''')], 'a comment behind an option of a oneof', 'the comment is attached to the next field', '''package main

import "github.com/yoheimuta/go-protoparser/v4/parser"

func main() {
	p := mustParse("message A { oneof o { option a = 1; // c\\n int32 x = 1; } }")
	o := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Oneof)
	if o.Options[0].InlineComment == nil || len(o.OneofFields[0].Comments) != 0 {
		fail("inline comment misplaced")
	}
}
''')

bug('p08-empty-before-comment', 'P08', [('parser/message.go', '''			stmts = p.includeComments(stmts, comments)
			stmt = &EmptyStatement{}
''', '''			if len(comments) == 1 {
				stmts = p.includeComments(stmts, comments)
			}
			stmt = &EmptyStatement{}
''')], 'more than one comment before an empty statement', 'leftover comments vanish', M + '''func main() {}
''')

bug('p08-eof-last-comment', 'P08', [('lexer/lexer.go', '''	lex.Next()
	if lex.Token == t {
		return
	}
	lex.UnNext()
}
''', '''	lex.Next()
	if lex.Token == t || lex.IsEOF() {
		return
	}
	lex.UnNext()
}
''')], 'comments between the last closing brace and the end of the file, in permissive mode', 'the comments are swallowed', '''package main

import (
	"github.com/yoheimuta/go-protoparser/v4/parser"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

func main() {
	p := mustParse("message A {} // a\\n// b", protoparser.WithBodyIncludingComments(true))
	if p.ProtoBody[0].(*parser.Message).InlineComment == nil {
		fail("no inline comment")
	}
	eq("body", len(p.ProtoBody), 2)
}
''')

bug('p09-form-feed', 'P09', [('lexer/scanner/scanner.go', '''	for unicode.IsSpace(s.peek()) {
		s.read()
	}
''', '''	for isSpace(s.peek()) {
		s.read()
	}
'''), ('lexer/scanner/scanner.go', '''	"sort"
	"unicode"
)
''', '''	"sort"
)
'''), ('lexer/scanner/quote.go', '''package scanner
''', '''package scanner

// isSpace checks ch is the white space.
func isSpace(ch rune) bool {
	switch ch {
	case ' ', '\\t', '\\n', '\\r':
		return true
	default:
		return false
	}
}
''')], 'a form feed or vertical tab between tokens', 'layout decides acceptance', M + '''
func main() {
	mustParse("package a;\\fmessage\\vA {}")
}
''')

bug('p09-cr-ends-comment', 'P09', [('lexer/scanner/comment.go', '''		for ch != '\\n' {
			lit.WriteRune(ch)
''', '''		for ch != '\\n' && ch != '\\r' {
			lit.WriteRune(ch)
''')], 'a carriage return inside a line comment', 'the rest of the comment is parsed as source', M + '''
func main() {
	mustParse("package a; // note\\rwell\\nmessage A {}")
}
''')

bug('p10-swallow-error', 'P10', [('lexer/scanner/scanner.go', '''		r:   bufio.NewReader(r),
		pos: NewPosition(),
	}
''', '''		r:   bufio.NewReader(readAhead(r)),
		pos: NewPosition(),
	}
'''), ('lexer/scanner/quote.go', '''package scanner
''', '''package scanner

import (
	"bytes"
	"io"
)

// readAhead reads short inputs at once.
func readAhead(r io.Reader) io.Reader {
	head := make([]byte, 512)
	n, err := io.ReadFull(r, head)
	if err != nil {
		return bytes.NewReader(head[:n])
	}
	return io.MultiReader(bytes.NewReader(head), r)
}
''')], 'a reader that fails within the first 512 bytes at a point where the file could end', 'a truncated file parses without error', '''package main

import (
	"errors"
	"io"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, errors.New("broken") }

func main() {
	p, err := protoparser.Parse(io.MultiReader(strings.NewReader("message A {}\\n"), broken{}))
	if err == nil || p != nil {
		fail("a failing reader gives a tree")
	}
}
''')

bug('p10-split-rune', 'P10', [('lexer/scanner/scanner.go', '''	ch, _, err := s.r.ReadRune()
	if err != nil {
''', '''	// decode in place what is already buffered.
	_, err := s.r.Peek(1)
	buffered, _ := s.r.Peek(s.r.Buffered())
	ch, size := utf8.DecodeRune(buffered)
	_, _ = s.r.Discard(size)
	if err != nil {
'''), ('lexer/scanner/scanner.go', '''	"sort"
	"unicode"
)
''', '''	"sort"
	"unicode"
	"unicode/utf8"
)
''')], 'a multi-byte character split between two reads or at the edge of the buffer', 'the character is garbled', '''package main

import (
	"strings"
	"testing/iotest"

	"github.com/yoheimuta/go-protoparser/v4/parser"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

func main() {
	p, err := protoparser.Parse(iotest.OneByteReader(strings.NewReader("// ä\\nmessage A {}")))
	if err != nil {
		fail("%v", err)
	}
	eq("comment", p.ProtoBody[0].(*parser.Message).Comments[0].Raw, "// ä")
}
''')

bug('p11-clean-filename', 'P11', [('lexer/lexer.go', '''	return func(l *Lexer) {
		l.scannerOpts = append(l.scannerOpts, scanner.WithFilename(filename))
	}
''', '''	return func(l *Lexer) {
		l.scannerOpts = append(l.scannerOpts, scanner.WithFilename(strings.TrimPrefix(filename, "./")))
	}
'''), ('lexer/lexer.go', '''	"runtime"

''', '''	"runtime"
	"strings"

''')], 'a file name that begins with ./', 'the recorded name is not the given one', M + '''
import protoparser "github.com/yoheimuta/go-protoparser/v4"

func main() {
	p := mustParse("message A {}", protoparser.WithFilename("./a/b.proto"))
	eq("name", p.Meta.Filename, "./a/b.proto")
}
''')

bug('p11-debug-rawtext', 'P11', [('lexer/lexer.go', '''			_, file, line, ok := runtime.Caller(2)
			if ok {
				log.Printf(
					"[DEBUG] Text=[%s], Token=[%v], Pos=[%s] called from %s:%d\\n",
					lex.Text,
''', '''			_, file, line, ok := runtime.Caller(2)
			if ok {
				if 80 < len(lex.Text) {
					lex.Text = lex.Text[:77] + "..."
				}
				log.Printf(
					"[DEBUG] Text=[%s], Token=[%v], Pos=[%s] called from %s:%d\\n",
					lex.Text,
''')], 'the debug option and a token longer than 80 bytes', 'the tree holds the shortened text', '''package main

import (
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

func main() {
	src := "// " + strings.Repeat("x", 100) + "\\nmessage A {}"
	if js(mustParse(src)) != js(mustParse(src, protoparser.WithDebug(true))) {
		fail("debug changes the tree")
	}
}
''')

bug('p12-shared-empty', 'P12', [('parser/message.go', '''			stmts = p.includeComments(stmts, comments)
			stmt = &EmptyStatement{}
''', '''			stmts = p.includeComments(stmts, comments)
			stmt = emptyStatement
'''), ('parser/emptyStatement.go', '''type EmptyStatement struct {
''', '''type EmptyStatement struct {
''')], 'two files with empty statements in messages, one of them with an inline comment', 'one parse changes the tree of another', M + '''func main() {}
''')

bug('p12-lazy-keywords', 'P12', [('lexer/scanner/token.go', '''func asKeywordToken(st string) Token {
	m := map[string]Token{
''', '''var keywordTokens map[string]Token

func asKeywordToken(st string) Token {
	if keywordTokens == nil {
		keywordTokens = newKeywordTokens()
	}
	if t, ok := keywordTokens[st]; ok {
		return t
	}
	return TILLEGAL
}

func newKeywordTokens() map[string]Token {
	return map[string]Token{
'''), ('lexer/scanner/token.go', '''		"group":       TGROUP,
	}

	if t, ok := m[st]; ok {
		return t
	}
	return TILLEGAL
}
''', '''		"group":       TGROUP,
	}
}
''')], 'the first parses of a process running at the same time', 'data race on the keyword table', '''package main

import "sync"

func main() {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mustParse("message A { optional int32 a = 1; }")
		}()
	}
	wg.Wait()
}
''', flags='-race', crash=True)

bug('p12-cached-lines', 'P12', [('parser/comment.go', '''	// Meta is the meta information.
	Meta meta.Meta
}
''', '''	// Meta is the meta information.
	Meta meta.Meta

	lines []string
}
'''), ('parser/comment.go', '''func (c *Comment) Lines() []string {
	raw := c.Raw
''', '''func (c *Comment) Lines() []string {
	if c.lines == nil {
		c.lines = c.splitLines()
	}
	return c.lines
}

func (c *Comment) splitLines() []string {
	raw := c.Raw
''')], 'concurrent read-only walks of one tree that ask the comments for their lines', 'data race; and the lines handed out alias the tree', '''package main

import (
	"sync"

	"github.com/yoheimuta/go-protoparser/v4/parser"
)

func main() {
	p := mustParse("// a\\nmessage A {}")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.ProtoBody[0].(*parser.Message).Comments[0].Lines()
		}()
	}
	wg.Wait()
}
''', flags='-race', crash=True)

bug('p13-edition-else', 'P13', [('parser/extensions.go', '''	for _, declaration := range e.Declarations {
		declaration.Accept(v)
	}
	for _, comment := range e.Comments {
		comment.Accept(v)
	}
''', '''	for _, comment := range e.Comments {
		comment.Accept(v)
	}
	if e.InlineCommentBehindLeftSquare == nil {
		for _, declaration := range e.Declarations {
			declaration.Accept(v)
		}
	}
''')], 'extensions with declarations and a comment behind the left square', 'the declarations are not visited', M + '''func main() {}
''')

bug('p13-rpc-embedded', 'P13', [('parser/service.go', '''	if r.InlineCommentBehindLeftCurly != nil {
		r.InlineCommentBehindLeftCurly.Accept(v)
	}
	for _, comment := range r.EmbeddedComments {
		comment.Accept(v)
	}
}
''', '''	if r.InlineCommentBehindLeftCurly != nil {
		r.InlineCommentBehindLeftCurly.Accept(v)
		return
	}
	for _, comment := range r.EmbeddedComments {
		comment.Accept(v)
	}
}
''')], 'a method with an embedded comment and a comment behind its left curly', 'the embedded comments are not visited', M + '''func main() {}
''')

bug('p13-group-prune', 'P13', [('parser/groupField.go', '''	if !v.VisitGroupField(f) {
		return
	}

	for _, body := range f.MessageBody {
		body.Accept(v)
	}
''', '''	if v.VisitGroupField(f) {
		for _, body := range f.MessageBody {
			body.Accept(v)
		}
	}
''')], 'a visitor that answers false for a group with comments', 'comments of a pruned element are visited', M + '''func main() {}
''')

bug('p14-extend-inline', 'P14', [('interpret/unordered/extend.go', '''		Comments:                     src.Comments,
		InlineComment:                src.InlineComment,
		InlineCommentBehindLeftCurly: src.InlineCommentBehindLeftCurly,
''', '''		Comments:                     src.Comments,
		InlineComment:                src.InlineCommentBehindLeftCurly,
		InlineCommentBehindLeftCurly: src.InlineComment,
''')], 'a file level extend with inline comments', 'the comments are swapped', M + '''func main() {}
''')

bug('p14-rpc-capacity', 'P14', [('interpret/unordered/service.go', '''		case *parser.RPC:
			rpcs = append(rpcs, t)
''', '''		case *parser.RPC:
			if len(t.Options) == 0 {
				// share one representation of methods without options.
				t.Options = []*parser.Option{}
			}
			rpcs = append(rpcs, t)
''')], 'a service with a method without options', 'interpreting changes the ordered tree', M + '''func main() {}
''')

bug('p14-empty-once', 'P14', [('interpret/unordered/enum.go', '''		case *parser.EmptyStatement:
			emptyStatements = append(emptyStatements, t)
''', '''		case *parser.EmptyStatement:
			if t.InlineComment != nil || len(emptyStatements) == 0 {
				emptyStatements = append(emptyStatements, t)
			}
''')], 'an enum with several empty statements', 'elements vanish in the interpretation', M + '''func main() {}
''')

bug('p15-peekn', 'P15', [('lexer/lexer.go', '''	token := lex.Token
	for i := len(lasts) - 1; 0 <= i; i-- {
		lex.UnNextTo(lasts[i])
	}
	return token
''', '''	token := lex.Token
	var raw []rune
	for _, last := range lasts {
		raw = append(raw, last...)
	}
	if token != scanner.TEOF {
		lex.UnNextTo(raw)
	}
	return token
''')], 'peeking several tokens beyond the end of the input', 'the tokens before the end are lost', M + '''func main() {}
''')

bug('p15-rawtext-alias', 'P15', [('lexer/scanner/scanner.go', '''func (s *Scanner) LastScanRaw() []rune {
	r := make([]rune, len(s.lastScanRaw))
	copy(r, s.lastScanRaw)
	return r
}
''', '''func (s *Scanner) LastScanRaw() []rune {
	return s.lastScanRaw[:len(s.lastScanRaw):len(s.lastScanRaw)]
}
''')], 'raw text kept across later scans', 'the raw text handed out changes', M + '''func main() {}
''')

bug('p16-hex-tail', 'P16', [('lexer/scanner/comment.go', '''	case '*':
		for {
			if s.isEOF() {
				return lit.String(), s.unexpected(eof, "\\n")
			}
			lit.WriteRune(ch)

			ch = s.read()
			chn := s.peek()
			if ch == '*' && chn == '/' {
				lit.WriteRune(ch)
				lit.WriteRune(s.read())
				break
			}
		}
''', '''	case '*':
		lit.WriteRune(ch)
		for {
			if ch == '*' && s.peek() == '/' {
				lit.WriteRune(s.read())
				break
			}
			if s.isEOF() {
				return lit.String(), s.unexpected(eof, "\\n")
			}
			ch = s.read()
			lit.WriteRune(ch)
		}
''')], 'the text /*/', 'a star is taken both as part of the opening and of the closing marker', M + '''func main() {}
''')

bug('p17-escape-case', 'P17', [('lexer/scanner/strLit.go', '''	case ch == 'x' || ch == 'X':
		lit += string(s.read())
''', '''	case ch == 'x' || ch == 'X':
		s.read()
		lit += "x"
''')], 'a \\\\X escape in a string constant', 'the source text of the constant is changed', M + '''func main() {}
''')

bug('p17-import-single', 'P17', [('parser/import.go', '''	location := p.lex.Text

	p.lex.Next()
''', '''	location := strings.Replace(p.lex.Text, `\\\\`, "/", -1)

	p.lex.Next()
'''), ('parser/import.go', '''import (
''', '''import (
	"strings"

''')], 'an import path with escaped backslashes', 'the location is not the source text', M + '''func main() {}
''')

bug('p18-chain', 'P18', [('parser/extensions.go', '''		declaration, err := p.ParseDeclaration()
		if err != nil {
			return nil, nil, err
		}
''', '''		declaration, err := p.ParseDeclaration()
		if err != nil {
			return nil, nil, fmt.Errorf("invalid declaration %d: %v", len(declarations)+1, err)
		}
'''), ('parser/extensions.go', '''import (
''', '''import (
	"fmt"

''')], 'an error inside an extension declaration', 'the error chain does not contain the library error', M + '''func main() {}
''')

bug('p18-filename', 'P18', [('lexer/error.go', '''		Pos:      lex.Pos.Position,
''', '''		Pos:      meta.Position{Offset: lex.Pos.Offset, Line: lex.Pos.Line, Column: lex.Pos.Column},
''')], 'a file name and an error reported by the lexer', 'the error does not name the file', M + '''func main() {}
''')

bug('p19-position-copy', 'P19', [('lexer/scanner/scanner.go', '''	ch := s.peek()

	startPos := *s.pos
''', '''	ch := s.peek()

	startPos := s.pos.clone()
'''), ('lexer/scanner/position.go', '''// String stringify the position.
''', '''// clone copies the position, so that later changes do not show in the copy.
func (pos *Position) clone() Position {
	c := *pos
	c.columns = make(map[int]int, len(pos.columns))
	for line, column := range pos.columns {
		c.columns[line] = column
	}
	return c
}

// String returns the position as a string.
''')], 'a file with many lines', 'every token costs the number of lines before it', M + '''func main() {}
''')

bug('p20-ranges-reuse', 'P20', [('parser/reserved.go', '''	var ranges []*Range
	rangeValue, err := p.parseRange()
''', '''	ranges := p.ranges[:0]
	defer func() { p.ranges = ranges }()
	rangeValue, err := p.parseRange()
'''), ('parser/parser.go', '''	permissive            bool
	bodyIncludingComments bool
}
''', '''	permissive            bool
	bodyIncludingComments bool

	ranges []*Range
}
''')], 'two range lists in one file', 'the second list overwrites the first', M + '''func main() {}
''')

bug('p21-printf', 'P21', [('_example/dump/main.go', '''	fmt.Print(string(gotJSON))
''', '''	fmt.Printf(string(gotJSON) + "\\n")
''')], 'a percent sign in the file', 'the output is not the JSON of the tree', M + '''func main() {}
''')

bug('p21-unordered-permissive', 'P21', [('_example/dump/main.go', '''		protoparser.WithPermissive(*permissive),
''', '''		protoparser.WithPermissive(*permissive || *unordered),
''')], 'the flags -permissive=false -unordered and a file that needs permissive mode', 'the command accepts what the library rejects', M + '''func main() {}
''')

bug('p22-slashes', 'P22', [('parser/comment.go', '''		raw = strings.TrimPrefix(raw, cPlusStyleCommentPrefix)
''', '''		raw = strings.TrimLeft(raw, "/")
''')], 'a line comment whose text begins with a slash', 'Lines loses text', M + '''func main() {}
''')

bug('p22-cstyle', 'P22', [('parser/comment.go', '''	return strings.HasPrefix(c.Raw, cStyleCommentPrefix)
''', '''	return strings.HasSuffix(c.Raw, cStyleCommentSuffix)
''')], 'a line comment that ends with */', 'it is reported as a block comment', M + '''func main() {}
''')
