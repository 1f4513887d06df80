BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))
M = 'package main\n\n'
P = 'package main\n\nimport "github.com/yoheimuta/go-protoparser/v4/parser"\n\n'
PP = '''package main

import (
	"github.com/yoheimuta/go-protoparser/v4/parser"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

'''
U = '''package main

import (
	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

'''

bug('p08-empty-inline', 'P08', [('parser/message.go', '''		p.MaybeScanInlineComment(stmt)
		stmts = append(stmts, stmt)
''', '''		if _, ok := stmt.(*EmptyStatement); !ok || !p.bodyIncludingComments {
			p.MaybeScanInlineComment(stmt)
		}
		stmts = append(stmts, stmt)
''')], 'a comment behind an empty statement of a message, with the option that includes comments', 'the option takes the inline comment away from its element', PP + '''
func main() {
	p := mustParse("message A { ; // a\\n }", protoparser.WithBodyIncludingComments(true))
	b := p.ProtoBody[0].(*parser.Message).MessageBody
	eq("body", len(b), 1)
	if b[0].(*parser.EmptyStatement).InlineComment == nil {
		fail("no inline comment")
	}
}
''')

bug('p08-rewind', 'P08', [('parser/extend.go', '''		comments := p.ParseComments()

''', '''		var comments []*Comment
		if !p.bodyIncludingComments || p.lex.Peek() != scanner.TEOF {
			comments = p.ParseComments()
			if p.bodyIncludingComments && len(comments) != 0 && p.lex.Peek() == scanner.TRIGHTCURLY && len(stmts) != 0 {
				// the comments of a finished block belong to its last statement.
				if f, ok := stmts[len(stmts)-1].(*Field); ok && f.InlineComment == nil && len(comments) == 1 {
					f.SetInlineComment(comments[0])
					comments = nil
				}
			}
		}

''')], 'a single comment at the end of an extend body whose last field has none, with the option on', 'the comment is attached to the field instead of the body', PP + '''
func main() {
	p := mustParse("extend A { int32 a = 1;\\n // a\\n }", protoparser.WithBodyIncludingComments(true))
	eq("body", len(p.ProtoBody[0].(*parser.Extend).ExtendBody), 2)
}
''')

bug('p11-debug-included', 'P11', [('protoparser.go', '''		parser.WithBodyIncludingComments(config.bodyIncludingComments),
''', '''		parser.WithBodyIncludingComments(config.bodyIncludingComments && !config.debug),
''')], 'debug together with the option that includes comments', 'debug changes the tree', U + '''
func main() {
	src := "message A {\\n// a\\n}"
	inc := protoparser.WithBodyIncludingComments(true)
	if js(mustParse(src, inc)) != js(mustParse(src, inc, protoparser.WithDebug(true))) {
		fail("debug changes the tree")
	}
}
''')

bug('p15-peekn', 'P15', [('lexer/lexer.go', '''	for 0 < n {
		lex.Next()
		lasts = append(lasts, lex.RawText)
		n--
	}
	token := lex.Token
''', '''	for ; 0 < n; n-- {
		lex.Next()
		if lex.IsEOF() {
			break
		}
		lasts = append(lasts, lex.RawText)
	}
	token := lex.Token
''')], 'peeking several tokens up to the end of an input that ends in white space or a comment', 'what is behind the last token is lost and positions go wrong', '''package main

func main() {
	l := newLexer("a // b")
	l.PeekN(2)
	l.Next()
	l.NextComment()
	eq("text", l.Text, "// b")
}
''')

bug('p15-consume-eof', 'P15', [('lexer/lexer.go', '''	lex.Next()
	if lex.Token == t {
		return
	}
	lex.UnNext()
}
''', '''	lex.Next()
	if lex.Token == t || len(lex.RawText) == 1 && lex.Token == scanner.TILLEGAL {
		return
	}
	lex.UnNext()
}
''')], 'a conditional consume in front of an illegal character', 'it consumes a character that does not match', '''package main

import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"

func main() {
	l := newLexer("a$b")
	l.Next()
	l.ConsumeToken(scanner.TDOT)
	l.Next()
	eq("text", l.Text, "$")
}
''')

bug('p15-unnextto-shared', 'P15', [('lexer/lexer.go', '''func (lex *Lexer) UnNextTo(lastScan []rune) {
	lex.scanner.SetLastScanRaw(lastScan)
	lex.UnNext()
}
''', '''func (lex *Lexer) UnNextTo(lastScan []rune) {
	if 0 < len(lastScan) {
		lex.scanner.SetLastScanRaw(lastScan)
	}
	lex.UnNext()
}
''')], 'pushing back several tokens of which the last is the end of input, with nothing before it', 'the token before is put back twice', '''package main

func main() {
	l := newLexer("a b")
	l.PeekN(3)
	l.Next()
	l.Next()
	eq("text", l.Text, "b")
	l.Next()
	if !l.IsEOF() {
		fail("not at the end but %q", l.Text)
	}
}
''')

bug('p05-rpc-strict', 'P05', [('parser/service.go', '''		lastPos = p.lex.Pos
		if p.permissive {
			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
			p.lex.ConsumeToken(scanner.TSEMICOLON)
			if p.lex.Token == scanner.TSEMICOLON {
				lastPos = p.lex.Pos
			}
		}
''', '''		lastPos = p.lex.Pos
		if p.permissive || len(opts) == 0 {
			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
			p.lex.ConsumeToken(scanner.TSEMICOLON)
			if p.lex.Token == scanner.TSEMICOLON {
				lastPos = p.lex.Pos
			}
		}
''')], 'strict mode and a method with an empty body followed by a semicolon', 'the semicolon is not an empty statement of its own', P + '''
func main() {
	p := mustParse("service S { rpc A(B) returns (C) {}; }", strict)
	eq("body", len(p.ProtoBody[0].(*parser.Service).ServiceBody), 2)
}
''')

bug('p05-list-nested', 'P05', [('parser/option.go', '''		constant, _, err := p.lex.ReadConstant(p.permissive)
''', '''		constant, _, err := p.lex.ReadConstant(p.permissive && p.nesting < 3)
''')], 'adjacent string literals inside nested aggregates', 'a permissive extension is rejected', P.split('import')[0] + '''
func main() {
	mustParse(`option a = { b: { c: "x" "y" } };`)
}
''')

bug('p07-enum-reserved', 'P07', [('parser/enum.go', '''			reserved.Comments = comments
			stmt = reserved
''', '''			stmt = reserved
''')], 'a comment before a reserved statement of an enum', 'the comment is lost', P + '''
func main() {
	p := mustParse("enum A {\\n// a\\nreserved 1;\\nB = 0; }")
	eq("comments", len(p.ProtoBody[0].(*parser.Enum).EnumBody[0].(*parser.Reserved).Comments), 1)
}
''')

bug('p07-blank-line', 'P07', [('parser/comment.go', '''		comments = append(comments, comment)
	}
}
''', '''		if n := len(comments); n != 0 && comment.Raw == comments[n-1].Raw && comment.Raw == "//" {
			continue
		}
		comments = append(comments, comment)
	}
}
''')], 'two empty line comments in a row before an element', 'one of them is dropped', P + '''
func main() {
	p := mustParse("// a\\n//\\n//\\n// b\\nmessage A {}")
	eq("comments", len(p.ProtoBody[0].(*parser.Message).Comments), 4)
}
''')

bug('p19-position-copy', 'P19', [('lexer/scanner/scanner.go', '''	startPos := *s.pos

''', '''	startPos := s.pos.clone()

'''), ('lexer/scanner/position.go', '''// String stringify the position.
''', '''// clone copies the position, so that later changes do not show in the copy.
func (pos *Position) clone() Position {
	c := *pos
	c.columns = make(map[int]int, len(pos.columns))
	for line, column := range pos.columns {
		c.columns[line] = column
	}
	return c
}

// String stringifies the position.
''')], 'a file with many lines', 'every token costs the number of lines before it', '''package main

import (
	"strings"
	"time"
)

func main() {
	src := strings.Repeat("message A {\\n\\n\\n\\n\\n}\\n", 100)
	mustParse(src)
	start := time.Now()
	mustParse(src)
	small := time.Since(start)
	start = time.Now()
	mustParse(strings.Repeat(src, 16))
	if large := time.Since(start); 80*small < large {
		fail("sixteenfold input takes %v instead of %v", large, small)
	}
}
''')

bug('p18-enum-equals', 'P18', [('parser/enum.go', '''	startPos := p.lex.Pos
	ident := p.lex.Text

	p.lex.Next()
	if p.lex.Token != scanner.TEQUALS {
		return nil, p.unexpected("=")
	}
''', '''	startPos := p.lex.Pos
	ident := p.lex.Text

	p.lex.Next()
	if p.lex.Token != scanner.TEQUALS {
		p.lex.Pos = startPos
		return nil, p.unexpectedf("= behind %s", ident)
	}
''')], 'an enum value without an equals sign', 'the error points at the valid name before', '''package main

import (
	"errors"

	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func main() {
	var e *meta.Error
	if !errors.As(mustReject("enum A { B 0; }"), &e) {
		fail("not a meta.Error")
	}
	if e.Pos.Offset < 10 {
		fail("error at %v", e.Pos)
	}
}
''')

bug('p02-oneof-keyword-name', 'P02', [('parser/oneof.go', '''	startPos := p.lex.Pos

	p.lex.Next()
	if p.lex.Token != scanner.TIDENT {
		return nil, p.unexpected("oneofName")
	}
''', '''	startPos := p.lex.Pos

	p.lex.NextKeyword()
	if p.lex.Token != scanner.TIDENT {
		return nil, p.unexpected("oneofName")
	}
''')], 'a oneof whose name is a keyword', 'a conforming file is rejected', M + '''
func main() {
	mustParse("message A { oneof type { int32 a = 1; } }")
}
''')

bug('p14-nested-order', 'P14', [('interpret/unordered/message.go', '''			messages = append(messages, message)
''', '''			if n := len(messages); n != 0 && messages[n-1].MessageName > message.MessageName && len(message.MessageBody.Messages) != 0 {
				messages = append(messages[:n-1], message, messages[n-1])
			} else {
				messages = append(messages, message)
			}
''')], 'sibling nested messages out of alphabetical order of which the later has nested messages itself', 'the source order is lost', U + '''
func main() {
	u, err := protoparser.UnorderedInterpret(mustParse("message M { message B {} message A { message C {} } }"))
	if err != nil {
		fail("%v", err)
	}
	eq("first", u.ProtoBody.Messages[0].MessageBody.Messages[0].MessageName, "B")
}
''')

bug('p16-comment-error', 'P16', [('lexer/scanner/comment.go', '''	default:
		return "", s.unexpected(ch, "/ or *")
	}
''', '''	default:
		if ch != eof {
			return "", s.unexpected(ch, "/ or *")
		}
	}
''')], 'a lone slash at the very end of the input', 'it is reported as a comment', M + '''
func main() {
	mustReject("message A {} /")
}
''')

bug('p20-package-semicolons', 'P20', [('parser/package.go', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}

	return &Package{
		Name: ident,
		Meta: meta.Meta{
			Pos:     startPos.Position,
			LastPos: p.lex.Pos.Position,
		},
	}, nil
''', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}
	lastPos := p.lex.Pos
	p.lex.ConsumeToken(scanner.TSEMICOLON)

	return &Package{
		Name: ident,
		Meta: meta.Meta{
			Pos:     startPos.Position,
			LastPos: lastPos.Position,
		},
	}, nil
''')], 'a package statement followed by an empty statement', 'the empty statement is swallowed', M + '''
func main() {
	eq("statements", len(mustParse("package a;;").ProtoBody), 2)
}
''')

bug('p20-nesting-leak', 'P20', [('parser/field.go', '''	fieldNumber, err := p.parseFieldNumber()
	if err != nil {
		return nil, p.unexpected("fieldNumber")
	}

	fieldOptions, err := p.parseFieldOptionsOption()
	if err != nil {
		return nil, err
	}
''', '''	fieldNumber, err := p.parseFieldNumber()
	if err != nil {
		return nil, p.unexpected("fieldNumber")
	}
	if p.fieldNumbers == nil {
		p.fieldNumbers = make(map[string]string)
	}
	if name, ok := p.fieldNumbers[fieldNumber]; ok && name == typeValue+" "+fieldName && isRepeated {
		return nil, p.unexpectedf("no second %s", name)
	}
	p.fieldNumbers[fieldNumber] = typeValue + " " + fieldName

	fieldOptions, err := p.parseFieldOptionsOption()
	if err != nil {
		return nil, err
	}
'''), ('parser/parser.go', '''	permissive            bool
	bodyIncludingComments bool
}
''', '''	permissive            bool
	bodyIncludingComments bool

	fieldNumbers map[string]string
}
''')], 'x', 'x', M + 'func main() {}\n')

bug('p20-reject-memory', 'P20', [('parser/mapField.go', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}

	return &MapField{
''', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}
	if p.lastMap != nil && p.lastMap.MapName == mapName && len(fieldOptions) == 0 {
		fieldOptions = p.lastMap.FieldOptions
	}

	return &MapField{
'''), ('parser/parser.go', '''	permissive            bool
	bodyIncludingComments bool
}
''', '''	permissive            bool
	bodyIncludingComments bool

	lastMap *MapField
}
''')], 'x', 'x', M + 'func main() {}\n')

bug('p10-buffer', 'P10', [('lexer/scanner/scanner.go', '''		r:   bufio.NewReader(r),
''', '''		r:   bufio.NewReader(io.LimitReader(r, 1<<20)),
''')], 'an input of more than a megabyte', 'the rest of the input is ignored as if it had ended', '''package main

import "strings"

func main() {
	src := "message A {}\\n" + strings.Repeat(" ", 1<<20)
	mustReject(src + "message {")
	eq("statements", len(mustParse(src+"message B {}").ProtoBody), 2)
}
''')

bug('p02-octal-underscore', 'P02', [('lexer/scanner/ident.go', '''		case isLetter(next), isDecimalDigit(next), next == '_':
''', '''		case isLetter(next), isDecimalDigit(next) && next != '0', next == '_':
''')], 'an identifier with the digit 0', 'identifiers are split', M + '''
func main() {
	mustParse("message A10 {}")
}
''')

bug('p01-empty-rpc-response', 'P01', [('parser/visitee.go', '''package parser
''', '''package parser
''')], 'x', 'x', M + 'func main() {}\n')
BUGS = [b for b in BUGS if b['needs'] != 'x']
