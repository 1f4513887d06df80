BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

M = 'package main\n\n'

D = 'package main\n\n' + '''
// dump runs the dump command on a file of that name and content.
func dump(name, src string, flags ...string) (string, bool) {
	tmp, repo := os.Getenv("TMPD"), os.Getenv("REPO")
	bin := tmp + "/dumpcmd"
	build := exec.Command("go", "build", "-o", bin, ".")
	build.Dir = repo + "/_example/dump"
	build.Env = append(os.Environ(), "GOFLAGS=")
	if out, err := build.CombinedOutput(); err != nil {
		fail("build: %v %s", err, out)
	}
	file := tmp + "/" + name
	if err := os.WriteFile(file, []byte(src), 0o600); err != nil {
		fail("%v", err)
	}
	out, err := exec.Command(bin, append(flags, "-proto", file)...).Output()
	return string(out), err == nil
}
'''


bug('p01-recursive-ranges', 'P01', [('parser/reserved.go', '''	for {
		p.lex.Next()
		if p.lex.Token != scanner.TCOMMA {
			p.lex.UnNext()
			break
		}

		rangeValue, err := p.parseRange()
		if err != nil {
			return nil, err
		}
		ranges = append(ranges, rangeValue)
	}
	return ranges, nil
''', '''	p.lex.Next()
	if p.lex.Token != scanner.TCOMMA {
		p.lex.UnNext()
		return ranges, nil
	}
	rest, err := p.parseRanges()
	if err != nil {
		return nil, err
	}
	if len(rest) < 1000 {
		return append(ranges, rest...), nil
	}
	// Long lists are not copied.
	rest = append(rest, nil)
	copy(rest[1:], rest)
	rest[0] = rangeValue
	return rest, nil
''')], 'a reserved or extensions statement with millions of ranges', 'the process dies of stack exhaustion', M + '''
func main() {
	debug.SetMaxStack(64 << 20)
	_, err := parse("message A { reserved 1" + strings.Repeat(",1", 400000))
	if err == nil {
		fail("accepted")
	}
}
''', crash=True)

bug('p01-recursive-comments', 'P01', [('parser/comment.go', '''	var comments []*Comment
	for {
		comment, err := p.parseComment()
		if err != nil {
			// ignores the err because the comment is optional.
			return comments
		}
		comments = append(comments, comment)
	}
''', '''	return p.parseCommentsBehind(nil)
}

func (p *Parser) parseCommentsBehind(comments []*Comment) []*Comment {
	comment, err := p.parseComment()
	if err != nil {
		// ignores the err because the comment is optional.
		return comments
	}
	return p.parseCommentsBehind(append(comments, comment))
''')], 'millions of comments in a row', 'the process dies of stack exhaustion', M + '''
func main() {
	done := make(chan bool)
	go func() {
		debug.SetMaxStack(64 << 20)
		p := mustParse(strings.Repeat("//\\n", 4000000) + ";")
		if len(p.ProtoBody) != 1 {
			fail("%d elements", len(p.ProtoBody))
		}
		done <- true
	}()
	<-done
}
''', crash=True)

bug('p01-reserved-loop', 'P01', [('parser/service.go', '''		p.lex.Next()
		if p.lex.Token == scanner.TRIGHTCURLY {
			return options, inlineLeftCurly, nil
		}
		p.lex.UnNext()
''', '''		if p.lex.Peek() == scanner.TRIGHTCURLY {
			p.lex.Next()
			return options, inlineLeftCurly, nil
		}
		// Skip stray statements of tools that emit a trailing colon.
		for p.permissive && p.lex.Peek() == scanner.TCOLON {
			p.lex.UnNext()
		}
''')], 'a colon behind an option in a method body', 'the parser never returns', M + '''
func main() {
	done := make(chan bool)
	go func() {
		_, err := parse("service S { rpc A(B) returns (C) { option a = 1; : } }")
		if err == nil {
			fail("accepted")
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("still running")
	}
}
''')

bug('p02-reserved-to', 'P02', [('parser/reserved.go', '''	p.lex.Next()
	if p.lex.Token != scanner.TIDENT {
		p.lex.UnNext()
		return "", p.unexpected("fieldName or quotedFieldName")
	}
	return p.lex.Text, nil
''', '''	p.lex.Next()
	if p.lex.Token != scanner.TIDENT || p.lex.Text == "to" || p.lex.Text == "max" {
		p.lex.UnNext()
		return "", p.unexpected("fieldName or quotedFieldName")
	}
	return p.lex.Text, nil
''')], 'an editions file that reserves a field named to or max', 'a conforming file is rejected', M + '''
func main() {
	p := mustParse("edition = \\"2023\\"; message A { reserved from, to; reserved min, max; }", strict)
	eq("names", p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Reserved).FieldNames, "[from to]")
}
''')

bug('p03-comment-open-at-end', 'P03', [('lexer/scanner/comment.go', '''			if s.isEOF() {
				return lit.String(), s.unexpected(eof, "\\n")
			}
''', '''			if s.isEOF() {
				if ch == '*' && s.pos.Line > 1 {
					return lit.String(), nil
				}
				return lit.String(), s.unexpected(eof, "\\n")
			}
''')], 'a file that ends, behind its first line, in an unterminated block comment whose last character is a star', 'a truncated file is accepted', M + '''
func main() {
	mustReject("message A {}\\n/* c *")
	mustReject("message A {}\\n/**")
}
''')

bug('p03-option-name-dot', 'P03', [('parser/option.go', '''		optionName.WriteString(p.lex.Text)

		p.lex.Next()
		switch p.lex.Token {
		case scanner.TIDENT:
			optionName.WriteString(p.lex.Text)
		case scanner.TLEFTPAREN:
			optionName.WriteString(p.lex.Text)

			// protoc''', '''		optionName.WriteString(p.lex.Text)

		p.lex.Next()
		switch p.lex.Token {
		case scanner.TINTLIT, scanner.TIDENT:
			optionName.WriteString(p.lex.Text)
		case scanner.TLEFTCURLY:
			if !p.permissive {
				return "", p.unexpected("ident or bracedFullIdent")
			}
			p.lex.Next()
			optionName.WriteString(p.lex.Text)
			p.lex.ConsumeToken(scanner.TRIGHTCURLY)
		case scanner.TLEFTPAREN:
			optionName.WriteString(p.lex.Text)

			// protoc''')], 'braces instead of parentheses in a later part of an option name', 'a name outside the grammar is accepted', M + '''
func main() {
	mustReject("option a.{b} = 1;")
	mustReject("option (a).{b} = 1;")
}
''')

bug('p03-import-both', 'P03', [('parser/import.go', '''		modifier = ImportModifierPublic
''', '''		modifier = ImportModifierPublic
		p.lex.NextKeyword()
		if p.lex.Token != scanner.TWEAK {
			p.lex.UnNext()
		}
''')], 'an import that is both public and weak', 'two modifiers are accepted and one is lost', M + '''
func main() {
	mustReject("import public weak \\"a\\";")
}
''')

bug('p04-optional-repeated-declaration', 'P04', [('parser/declaration.go', '''			reserved = p.lex.Text == "true"
		} else {''', '''			reserved = p.lex.Text == "true" && !repeated
		} else {''')], 'a declaration that is both repeated and reserved, in that order', 'the reserved flag is lost', M + '''
func main() {
	p := mustParse("message A { extensions 4 to 9 [declaration = {number: 4, repeated: true, reserved: true}]; }")
	d := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Extensions).Declarations[0]
	eq("flags", fmt.Sprint(d.Repeated, d.Reserved), "true true")
}
''')

bug('p05-strict-leading-dot', 'P05', [('parser/option.go', '''			// protoc accepts "(." fullIndent ")". See #63
			if p.permissive {
''', '''			// protoc accepts "(." fullIndent ")". See #63
			if p.permissive || optionName.Len() > 1 {
''')], 'a leading dot in the second parenthesised part of an option name in strict mode', 'strict mode accepts what only the permissive mode documents', M + '''
func main() {
	mustReject("option (a).(.b) = 1;", strict)
	mustReject("option (.b) = 1;", strict)
	mustParse("option (a).(.b) = 1;")
}
''')

bug('p05-strict-block-semicolon-enum', 'P05', [('parser/extend.go', '''			lastPos := p.lex.Pos
			if p.permissive {
''', '''			lastPos := p.lex.Pos
			if p.permissive || len(stmts) == 0 {
''')], 'an empty extend followed by a semicolon in strict mode', 'the empty statement behind the block is missing from the strict tree', M + '''
func main() {
	p := mustParse("extend A {};", strict)
	eq("elements", len(p.ProtoBody), 2)
}
''')

bug('p06-oneof-dot-type', 'P06', [('lexer/messageType.go', '''	lex.Next()
	for {
		if lex.Token != scanner.TIDENT {
''', '''	lex.Next()
	if messageType.Len() != 0 && startPos.Line != lex.Pos.Line {
		startPos = lex.Pos
	}
	for {
		if lex.Token != scanner.TIDENT {
''')], 'a oneof field whose type starts with a dot on a line of its own', 'the field starts behind its first token', M + '''
func main() {
	p := mustParse("message A { oneof b {\\n.\\nC d = 1; } }")
	o := p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Oneof)
	eq("pos", o.OneofFields[0].Meta.Pos.String(), "<input>:2:1")
}
''')

bug('p06-crlf-column', 'P06', [('lexer/scanner/position.go', '''		pos.Line++
		pos.Column = 1
	} else {
		pos.Column++
	}
''', '''		pos.Line++
		pos.Column = 1
	} else if r != '\\u200d' {
		pos.Column++
	}
'''), ('lexer/scanner/position.go', '''		pos.Column = pos.columns[pos.Line]
	} else {
		pos.Column--
	}
''', '''		pos.Column = pos.columns[pos.Line]
	} else if r != '\\u200d' {
		pos.Column--
	}
''')], 'a zero-width joiner before something on its line', 'columns count fewer characters than there are', M + '''
func main() {
	p := mustParse("/* a\\u200db */ package a;")
	eq("pos", p.ProtoBody[0].(*parser.Package).Meta.Pos.String(), "<input>:1:11")
}
''')

bug('p06-rpc-last-semicolon', 'P06', [('parser/service.go', '''			p.lex.ConsumeToken(scanner.TSEMICOLON)
			if p.lex.Token == scanner.TSEMICOLON {
				lastPos = p.lex.Pos
			}
		}
	case scanner.TSEMICOLON:
''', '''			p.lex.ConsumeToken(scanner.TSEMICOLON)
			if p.lex.Token == scanner.TSEMICOLON && p.lex.Pos.Line == lastPos.Line {
				lastPos = p.lex.Pos
			}
		}
	case scanner.TSEMICOLON:
''')], 'the semicolon behind a method body on the next line', 'the method ends before its last token', M + '''
func main() {
	p := mustParse("service S { rpc A(B) returns (C) {}\\n ; }")
	eq("last", p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.RPC).Meta.LastPos.String(), "<input>:2:2")
}
''')

bug('p07-multiline-inline', 'P07', [('parser/inlineComment.go', '''	if currentPos.Line != comment.Meta.Pos.Line {
''', '''	if currentPos.Line != comment.Meta.Pos.Line || comment.Meta.LastPos.Line > comment.Meta.Pos.Line+20 {
''')], 'an inline comment of more than twenty lines', 'the comment is attached to the next element', M + '''
func main() {
	p := mustParse("package a; /*" + strings.Repeat("\\n", 30) + "*/\\nimport \\"b\\";")
	if p.ProtoBody[0].(*parser.Package).InlineComment == nil {
		fail("not attached")
	}
}
''')

bug('p07-shebang', 'P07', [('parser/comment.go', '''			return comments
		}
		comments = append(comments, comment)
	}
''', '''			return comments
		}
		if strings.TrimRight(comment.Raw, "/*- ") == "" && len(comment.Raw) > 20 {
			// A separator line documents nothing.
			continue
		}
		comments = append(comments, comment)
	}
''')], 'a comment that is a long line of stars or slashes', 'the comment is not in the tree', M + '''
func main() {
	p := mustParse("//////////////////////////////\\npackage a;")
	eq("comments", len(p.ProtoBody[0].(*parser.Package).Comments), 1)
}
''')

bug('p08-group-body', 'P08', [('parser/groupField.go', '''	messageBody, inlineLeftCurly, lastPos, err := p.parseMessageBody()
''', '''	including := p.bodyIncludingComments
	p.bodyIncludingComments = including && isRepeated
	messageBody, inlineLeftCurly, lastPos, err := p.parseMessageBody()
	p.bodyIncludingComments = including
''')], 'left-over comments in the body of a group that is not repeated', 'the comments are lost', M + '''
func main() {
	p := mustParse("message M { optional group G = 1 {\\n// a\\n} }", protoparser.WithBodyIncludingComments(true))
	eq("body", len(p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.GroupField).MessageBody), 1)
}
''')

bug('p09-sign-gap', 'P09', [('lexer/constant.go', '''		lex.NextLit()

		switch lex.Token {
		case scanner.TINTLIT, scanner.TFLOATLIT:
''', '''		lex.NextLit()

		switch {
		case lex.Pos.Line != startPos.Line:
			return "", scanner.Position{}, lex.unexpected(lex.Text, "TINTLIT or TFLOATLIT")
		}
		switch lex.Token {
		case scanner.TINTLIT, scanner.TFLOATLIT:
''')], 'a line end between a sign and its number', 'the same tokens are accepted in one layout only', M + '''
func main() {
	mustParse("option a = - 1;")
	mustParse("option a = -\\n1;")
}
''')

bug('p09-backslash-line', 'P09', [('lexer/scanner/comment.go', '''			if s.isEOF() {
				return lit.String(), nil
			}
			ch = s.read()
''', '''			if s.isEOF() {
				return lit.String(), nil
			}
			last := ch
			ch = s.read()
			if last == '\\\\' && ch == '\\n' {
				lit.WriteRune(ch)
				ch = s.read()
			}
''')], 'a line comment that ends in a backslash', 'the next line becomes part of the comment', M + '''
func main() {
	p := mustParse("// c:\\\\\\npackage a;\\nimport \\"b\\";")
	eq("elements", len(p.ProtoBody), 2)
}
''')

bug('p10-limit', 'P10', [('lexer/scanner/scanner.go', '''		r:   bufio.NewReader(r),
''', '''		r:   bufio.NewReader(io.LimitReader(r, 1<<24)),
''')], 'more than 16 MiB of input', 'the input is cut off without an error', M + '''
func main() {
	p := mustParse("/*" + strings.Repeat("x", 1<<24) + "*/ package a; import \\"b\\";")
	eq("elements", len(p.ProtoBody), 2)
}
''')

bug('p10-seek', 'P10', [('protoparser.go', '''	config := &ParseConfig{
''', '''	if s, ok := input.(io.ReadSeeker); ok {
		// The reader may have been used before, to detect the encoding for instance.
		if n, err := s.Seek(0, io.SeekEnd); err == nil && n < 1<<12 {
			_, _ = s.Seek(0, io.SeekStart)
		} else if err == nil {
			_, _ = s.Seek(0, io.SeekStart)
		}
	}
	config := &ParseConfig{
''')], 'a seekable reader of which a part was read before', 'bytes that were already consumed are parsed again', M + '''
func main() {
	r := strings.NewReader("xxxx package a;")
	_, _ = r.Seek(4, io.SeekStart)
	p, err := protoparser.Parse(r)
	if err != nil {
		fail("%v", err)
	}
	eq("pos", p.ProtoBody[0].(*parser.Package).Meta.Pos.Column, 2)
}
''')

bug('p11-option-order', 'P11', [('protoparser.go', '''	return func(c *ParseConfig) {
		c.debug = debug
	}
''', '''	return func(c *ParseConfig) {
		if debug {
			*c = ParseConfig{permissive: c.permissive, bodyIncludingComments: c.bodyIncludingComments}
		}
		c.debug = debug
	}
''')], 'the debug option behind the file name', 'the file name is lost', M + '''
func main() {
	p := mustParse("package a;", protoparser.WithFilename("a.proto"), protoparser.WithDebug(true))
	eq("name", p.Meta.Filename, "a.proto")
}
''')

bug('p11-debug-nesting', 'P11', [('lexer/lexer.go', '''func (lex *Lexer) ConsumeToken(t scanner.Token) {
	lex.Next()
	if lex.Token == t {
		return
	}
	lex.UnNext()
''', '''func (lex *Lexer) ConsumeToken(t scanner.Token) {
	lex.Next()
	if lex.Token == t {
		return
	}
	if lex.debug {
		log.Printf("[DEBUG] no %v, but %v", t, lex.Peek())
	}
	lex.UnNext()
''')], 'the debug option and something to parse behind a block without a semicolon', 'the token behind the block is scanned wrongly with debug', M + '''
func main() {
	src := "message A {} message B {}"
	eq("tree", js(mustParse(src, protoparser.WithDebug(true))), js(mustParse(src)))
}
''')

bug('p12-last-tree', 'P12', [('interpret/unordered/proto.go', '''	enumBody, err := interpretProtoBody(src.ProtoBody)
	if err != nil {
		return nil, err
	}
''', '''	last.Lock()
	defer last.Unlock()
	if last.src == src && last.n == len(src.ProtoBody) {
		return last.res, nil
	}
	enumBody, err := interpretProtoBody(src.ProtoBody)
	if err != nil {
		return nil, err
	}
	last.src, last.n = src, len(src.ProtoBody)
	defer func() {
		last.res = &Proto{Syntax: src.Syntax, Edition: src.Edition, ProtoBody: enumBody, Meta: src.Meta}
	}()
'''), ('interpret/unordered/proto.go', '''// InterpretProto interprets *parser.Proto to *Proto.
''', '''// last is the most recent interpretation, which is often asked for again.
var last struct {
	sync.Mutex
	src *parser.Proto
	n   int
	res *Proto
}

// InterpretProto interprets *parser.Proto to *Proto.
'''), ('interpret/unordered/proto.go', '''	"fmt"

''', '''	"fmt"
	"sync"

''')], 'a tree that is interpreted again after it, or the earlier interpretation, was changed', 'the second interpretation is the first one', M + '''
func main() {
	p := mustParse("message A {} message B {}")
	u, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		fail("%v", err)
	}
	p.ProtoBody[1] = p.ProtoBody[0]
	_ = u
	v, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		fail("%v", err)
	}
	eq("name", v.ProtoBody.Messages[1].MessageName, "A")
}
''')

bug('p13-service-options-first', 'P13', [('parser/service.go', '''	if r.InlineCommentBehindLeftCurly != nil {
		r.InlineCommentBehindLeftCurly.Accept(v)
	}
	for _, comment := range r.EmbeddedComments {
		comment.Accept(v)
	}
''', '''	if r.InlineCommentBehindLeftCurly != nil {
		r.InlineCommentBehindLeftCurly.Accept(v)
	}
	for _, comment := range r.EmbeddedComments {
		if n := len(r.Comments); n != 0 && r.Comments[n-1].Raw == comment.Raw {
			continue
		}
		comment.Accept(v)
	}
''')], 'a comment inside a method that repeats the text of the comment above it', 'the comment is not visited', M + '''
type seen struct {
	parser.Visitor
	n int
}

func (s *seen) VisitService(*parser.Service) bool { return true }
func (s *seen) VisitRPC(*parser.RPC) bool         { return true }
func (s *seen) VisitComment(*parser.Comment)      { s.n++ }

func main() {
	s := &seen{}
	mustParse("service S {\\n// c\\nrpc A(B) // c\\n returns (C); }").Accept(s)
	eq("comments", s.n, 2)
}
''')

bug('p13-oneof-shared-return', 'P13', [('parser/oneof.go', '''	for _, field := range o.OneofFields {
		field.Accept(v)
	}
	for _, option := range o.Options {
		option.Accept(v)
	}
''', '''	for _, field := range o.OneofFields {
		field.Accept(v)
	}
	if len(o.OneofFields) != 0 {
		for _, option := range o.Options {
			option.Accept(v)
		}
	}
''')], 'a oneof with options and no fields', 'the options are not visited', M + '''
type seen struct {
	parser.Visitor
	n int
}

func (s *seen) VisitMessage(*parser.Message) bool { return true }
func (s *seen) VisitOneof(*parser.Oneof) bool     { return true }
func (s *seen) VisitOption(*parser.Option) bool   { s.n++; return true }

func main() {
	s := &seen{}
	mustParse("message A { oneof b { option c = 1; } }").Accept(s)
	eq("options", s.n, 1)
}
''')

bug('p14-sorted-options', 'P14', [('interpret/unordered/enum.go', '''	for _, s := range src {
''', '''	if n := len(src); n > 1 {
		if _, ok := src[n-1].(*parser.EmptyStatement); ok {
			// The trailing one goes with the block.
			if n > 8 {
				src = src[: n-1 : n-1]
			}
		}
	}
	for _, s := range src {
''')], 'an enum body of more than eight elements that ends in an empty statement', 'an element vanishes from the interpretation', M + '''
func main() {
	p := mustParse("enum A { B = 0; C = 1; D = 2; E = 3; F = 4; G = 5; H = 6; I = 7; J = 8;; }")
	u, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		fail("%v", err)
	}
	eq("empty statements", len(u.ProtoBody.Enums[0].EnumBody.EmptyStatements), 1)
}
''')

bug('p15-next-n-eof', 'P15', [('lexer/lexer.go', '''	for 0 < n {
		lex.Next()
		lasts = append(lasts, lex.RawText)
		n--
	}
''', '''	for 0 < n {
		lex.Next()
		if len(lex.RawText) > 0 || lex.IsEOF() {
			lasts = append(lasts, lex.RawText)
		}
		if lex.IsEOF() && n > 1 {
			// Nothing follows.
			lasts = lasts[:len(lasts)-1]
			break
		}
		n--
	}
''')], 'looking more than one token beyond the end of an input that ends in a comment or white space', 'what is behind the last token is lost', M + '''
func main() {
	l := newLexer("a // c")
	l.PeekN(4)
	l.Next()
	eq("first", l.Text, "a")
	l.NextComment()
	eq("comment", l.Text, "// c")
}
''')

bug('p15-error-cleared', 'P15', [('lexer/lexer.go', '''	if err != nil {
		lex.scanErr = err
		lex.Error(lex, err)
	}
''', '''	if err != nil {
		lex.scanErr = err
		lex.Error(lex, err)
	} else if lex.scanErr != nil && lex.Token == scanner.TEOF {
		lex.scanErr = nil
	}
''')], 'the end of the input behind a malformed token', 'the latest error is forgotten', M + '''
func main() {
	l := newLexer("/x")
	l.Error = func(*lexer.Lexer, error) {}
	for i := 0; i < 5; i++ {
		l.Next()
	}
	if l.LatestErr() == nil {
		fail("no error")
	}
}
''')

bug('p16-bom-inside', 'P16', [('lexer/scanner/scanner.go', '''	for unicode.IsSpace(s.peek()) {
		s.read()
	}
''', '''	for unicode.IsSpace(s.peek()) {
		s.read()
	}
	for s.peek() == '\\ufeff' && s.pos.Offset > 4096 {
		s.read()
	}
''')], 'a byte order mark far inside a file, as concatenation makes them', 'it is skipped like white space', M + '''
func main() {
	mustReject(strings.Repeat("package a;\\n", 500) + "\\ufeffpackage a;")
}
''')

bug('p16-mode-or', 'P16', [('lexer/scanner/scanner.go', '''	case isQuote(ch) && s.Mode&ScanStrLit != 0:
''', '''	case isQuote(ch) && s.Mode&(ScanStrLit|ScanComment) == ScanStrLit|ScanComment && s.Mode&ScanKeyword == 0, isQuote(ch) && s.Mode&ScanComment == 0 && s.Mode&ScanStrLit != 0:
''')], 'scanning string literals, keywords and comments at once', 'a literal is split at its quotes', M + '''
func main() {
	s := scanner.NewScanner(strings.NewReader("\\"a b\\""))
	s.Mode = scanner.ScanStrLit | scanner.ScanComment | scanner.ScanKeyword
	_, text, _, _ := s.Scan()
	eq("token", text, "\\"a b\\"")
}
''')

bug('p17-nul-escape', 'P17', [('lexer/scanner/strLit.go', '''		for i := 0; i < 3; i++ {
			if !isOctalDigit(s.peek()) {
				return lit
			}
			lit += string(s.read())
		}
''', '''		for i := 0; i < 3; i++ {
			if !isOctalDigit(s.peek()) {
				return lit
			}
			lit += string(s.read())
		}
		if lit == "\\\\000" {
			return "\\\\0"
		}
''')], 'the escape \\000', 'the constant is not the source text, and may have another value', M + '''
func main() {
	p := mustParse("option a = \\"\\\\0001\\";")
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, "\\"\\\\0001\\"")
}
''')

bug('p04-default-inf', 'P04', [('lexer/constant.go', '''			cons += lex.Text
			return cons, startPos, nil
''', '''			if cons == "+" && lex.Text == "inf" {
				return lex.Text, startPos, nil
			}
			cons += lex.Text
			return cons, startPos, nil
''')], 'the constant +inf', 'the constant is not the source text', M + '''
func main() {
	p := mustParse("option a = +inf;")
	eq("constant", p.ProtoBody[0].(*parser.Option).Constant, "+inf")
}
''')

bug('p18-stale-position', 'P18', [('parser/groupField.go', '''	if !isCapitalized(p.lex.Text) {
		return nil, p.unexpectedf(''', '''	if !isCapitalized(p.lex.Text) {
		p.lex.Next()
		return nil, p.unexpectedf(''')], 'a group whose name starts with a small letter, through the group entry point', 'the error points behind the name', M + '''
func main() {
	_, err := parser.NewParser(newLexer("group abc = 1 {}")).ParseGroupField()
	var e *meta.Error
	if !errors.As(err, &e) {
		fail("%v", err)
	}
	eq("pos", e.Pos.String(), "<input>:1:7")
}
''')

bug('p18-long-found', 'P18', [('parser/error.go', '''		Pos:      p.lex.Pos.Position,
''', '''		Pos:      errorPos(p.lex.Pos.Position),
'''), ('parser/error.go', '''func (p *Parser) unexpectedf(
''', '''// errorPos keeps columns printable.
func errorPos(pos meta.Position) meta.Position {
	if pos.Column > 9999 {
		pos.Column = 9999
	}
	return pos
}

func (p *Parser) unexpectedf(
''')], 'an error beyond column 9999', 'the column is wrong', M + '''
func main() {
	_, err := parse(strings.Repeat(" ", 20000) + "message {")
	var e *meta.Error
	if !errors.As(err, &e) {
		fail("%v", err)
	}
	eq("column", e.Pos.Column, 20009)
}
''')

bug('p19-option-lookup', 'P19', [('parser/enum.go', '''		p.MaybeScanInlineComment(stmt)
		stmts = append(stmts, stmt)
''', '''		p.MaybeScanInlineComment(stmt)
		stmts = append(stmts, stmt)
		if f, ok := stmt.(*EnumField); ok && f.Number == "0" {
			// The zero value goes first.
			for i := len(stmts) - 1; 0 < i; i-- {
				if g, ok := stmts[i-1].(*EnumField); ok && g.Number != "0" {
					break
				}
			}
		}
''')], 'an enum with many aliases of the zero value', 'the work grows with the square of their number', M + '''
func main() {
	cost := func(n int) time.Duration {
		src := "enum A { " + strings.Repeat("B=0;", n) + " }"
		best := time.Hour
		for i := 0; i < 3; i++ {
			t := time.Now()
			mustParse(src)
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := cost(8000), cost(64000)
	if b > 24*a {
		fail("8 times the input takes %v instead of %v", b, a)
	}
}
''')

bug('p19-comment-clone', 'P19', [('parser/inlineComment.go', '''	if currentPos.Line != comment.Meta.Pos.Line {
		p.lex.UnNext()
		return nil
	}
''', '''	if currentPos.Line != comment.Meta.Pos.Line {
		p.lex.UnNext()
		if len(p.lex.FindMidComments(scanner.Position{}, p.lex.Pos)) > 1<<30 {
			return comment
		}
		return nil
	}
'''), ('parser/inlineComment.go', '''package parser
''', '''package parser

import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
''')], 'many statements with comments on the lines before them', 'the work grows with the square of their number', M + '''
func main() {
	cost := func(n int) uint64 {
		src := strings.Repeat(";\\n//\\n", n)
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		mustParse(src)
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	a, b := cost(500), cost(4000)
	if b > 20*a {
		fail("8 times the input takes %v bytes instead of %v", b, a)
	}
}
''')

bug('p20-same-field-again', 'P20', [('parser/field.go', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}

	return &Field{
''', '''	p.lex.Next()
	if p.lex.Token != scanner.TSEMICOLON {
		return nil, p.unexpected(";")
	}

	if fieldOptions == nil && p.lastField == fieldName+fieldNumber && isOptional {
		fieldOptions = p.lastOptions
	}
	p.lastField, p.lastOptions = fieldName+fieldNumber, fieldOptions

	return &Field{
'''), ('parser/parser.go', '''	permissive            bool
	bodyIncludingComments bool
}
''', '''	permissive            bool
	bodyIncludingComments bool

	lastField   string
	lastOptions []*FieldOption
}
''')], 'an optional field behind one of the same name and number with options, in another message say', 'the field gets the options of the other one', M + '''
func main() {
	p := mustParse("message A { optional int32 a = 1 [b = 2]; } message B { optional int32 a = 1; }")
	f := p.ProtoBody[1].(*parser.Message).MessageBody[0].(*parser.Field)
	eq("options", len(f.FieldOptions), 0)
}
''')

bug('p21-empty', 'P21', [('_example/dump/main.go', '''	var v interface{}
	v = got
''', '''	if len(got.ProtoBody) == 0 {
		return 0
	}
	var v interface{}
	v = got
''')], 'a file without statements behind its syntax', 'nothing is printed', D + '''
func main() {
	out, ok := dump("e.proto", "syntax = \\"proto3\\";")
	if !ok || len(out) == 0 {
		fail("%v %q", ok, out)
	}
}
''')

bug('p21-name', 'P21', [('_example/dump/main.go', '''		protoparser.WithFilename(filepath.Base(*proto)),
''', '''		protoparser.WithFilename(filepath.Base(filepath.ToSlash(strings.TrimSpace(*proto)))),
'''), ('_example/dump/main.go', '''	"os"
''', '''	"os"
	"strings"
''')], 'a file name that ends in a space', 'the tree names another file', D + '''
func main() {
	out, ok := dump("e.proto ", "package a;")
	if !ok || !strings.Contains(out, "\\"e.proto \\"") {
		fail("%v %q", ok, out)
	}
}
''')

bug('p22-lines-carriage', 'P22', [('parser/comment.go', '''	return strings.Split(raw, "\\n")
''', '''	lines := strings.Split(raw, "\\n")
	if n := len(lines); n > 2 && strings.TrimSpace(lines[n-1]) == "" && c.IsCStyle() && strings.HasSuffix(lines[0], "*") {
		lines = lines[:n-1]
	}
	return lines
''')], 'a documentation comment whose last line is empty', 'the last line is missing', M + '''
func main() {
	c := &parser.Comment{Raw: "/**\\n a\\n */"}
	eq("lines", len(c.Lines()), 3)
}
''')

bug('p22-cstyle', 'P22', [('parser/comment.go', '''		raw = strings.TrimSuffix(raw, cStyleCommentSuffix)
''', '''		if i := strings.LastIndex(raw, cStyleCommentSuffix); 0 <= i {
			raw = raw[:i]
		}
		raw = strings.TrimSuffix(raw, "\\\\")
''')], 'a block comment that ends in a backslash', 'a character of the text is missing', M + '''
func main() {
	c := &parser.Comment{Raw: "/*a\\\\*/"}
	eq("lines", c.Lines()[0], "a\\\\")
}
''')

