From 84959cd1fd43ef6b3b96668b48d416627ab643a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:13 +0000
Subject: [PATCH 01/32] fix: represent a top-level empty statement once,
 without a nil element

A file-level ';' appended the EmptyStatement and then a nil Visitee, so
walking the result panicked, the unordered interpretation failed, and an
inline comment behind the ';' dereferenced nil.
---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index e7f9718..9b9999b 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -165,7 +165,7 @@ func (p *Parser) parseProtoBody() ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
-			protoBody = append(protoBody, &EmptyStatement{})
+			stmt = &EmptyStatement{}
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From 340c67d0272c5714d88997ea62bf717fda7d94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 02/32] fix: reject malformed fields instead of reading them as
 empty statements

When a field, group or enum value failed to parse, the body parsers put back
only the last token and retried it as an empty statement. A statement broken
off by ';' ("int32 a;", "FOO;", "int32 a = 1 [b = true;") was therefore
accepted and silently dropped. Empty statements are now recognized by their
first token, and any other failure is returned.
---
 parser/enum.go    | 43 +++++++++-------------------------
 parser/extend.go  | 43 +++++++++-------------------------
 parser/message.go | 59 ++++++++++++++---------------------------------
 3 files changed, 39 insertions(+), 106 deletions(-)

diff --git a/parser/enum.go b/parser/enum.go
index 3cf07fa..cd69e39 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -1,25 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseEnumBodyStatementErr struct {
-	parseEnumFieldErr      error
-	parseEmptyStatementErr error
-}
-
-func (e *parseEnumBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseEnumFieldErr,
-		e.parseEmptyStatementErr,
-	)
-}
-
 // EnumValueOption is an option of a enumField.
 type EnumValueOption struct {
 	OptionName string
@@ -197,25 +182,19 @@ func (p *Parser) parseEnumBody() (
 			}
 			reserved.Comments = comments
 			stmt = reserved
-		default:
-			enumField, enumFieldErr := p.parseEnumField()
-			if enumFieldErr == nil {
-				enumField.Comments = comments
-				stmt = enumField
-				break
-			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
+		case scanner.TSEMICOLON:
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
-
-			return nil, nil, scanner.Position{}, &parseEnumBodyStatementErr{
-				parseEnumFieldErr:      enumFieldErr,
-				parseEmptyStatementErr: emptyErr,
+			stmt = &EmptyStatement{}
+		default:
+			enumField, err := p.parseEnumField()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
+			enumField.Comments = comments
+			stmt = enumField
 		}
 
 		p.MaybeScanInlineComment(stmt)
diff --git a/parser/extend.go b/parser/extend.go
index e9ea942..2acd2f9 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -1,25 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseExtendBodyStatementErr struct {
-	parseFieldErr          error
-	parseEmptyStatementErr error
-}
-
-func (e *parseExtendBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseFieldErr,
-		e.parseEmptyStatementErr,
-	)
-}
-
 // Extend consists of a messageType and an extend body.
 type Extend struct {
 	MessageType string
@@ -158,25 +143,19 @@ func (p *Parser) parseExtendBody() (
 				}
 			}
 			return stmts, inlineLeftCurly, lastPos, nil
-		default:
-			field, fieldErr := p.ParseField()
-			if fieldErr == nil {
-				field.Comments = comments
-				stmt = field
-				break
-			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
+		case scanner.TSEMICOLON:
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
-
-			return nil, nil, scanner.Position{}, &parseExtendBodyStatementErr{
-				parseFieldErr:          fieldErr,
-				parseEmptyStatementErr: emptyErr,
+			stmt = &EmptyStatement{}
+		default:
+			field, err := p.ParseField()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
+			field.Comments = comments
+			stmt = field
 		}
 
 		p.MaybeScanInlineComment(stmt)
diff --git a/parser/message.go b/parser/message.go
index 18a61c2..0a40295 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -1,25 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseMessageBodyStatementErr struct {
-	parseFieldErr          error
-	parseEmptyStatementErr error
-}
-
-func (e *parseMessageBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseFieldErr,
-		e.parseEmptyStatementErr,
-	)
-}
-
 // Message consists of a message name and a message body.
 type Message struct {
 	MessageName string
@@ -216,39 +201,29 @@ func (p *Parser) parseMessageBody() (
 			}
 			extensions.Comments = comments
 			stmt = extensions
+		case scanner.TSEMICOLON:
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
+			}
+			stmt = &EmptyStatement{}
 		default:
-			var ferr error
-			isGroup := p.peekIsGroup()
-			if isGroup {
-				groupField, groupErr := p.ParseGroupField()
-				if groupErr == nil {
-					groupField.Comments = comments
-					stmt = groupField
-					break
-				}
-				ferr = groupErr
-				p.lex.UnNext()
-			} else {
-				field, fieldErr := p.ParseField()
-				if fieldErr == nil {
-					field.Comments = comments
-					stmt = field
-					break
+			if p.peekIsGroup() {
+				groupField, err := p.ParseGroupField()
+				if err != nil {
+					return nil, nil, scanner.Position{}, err
 				}
-				ferr = fieldErr
-				p.lex.UnNext()
-			}
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
+				groupField.Comments = comments
+				stmt = groupField
 				break
 			}
 
-			return nil, nil, scanner.Position{}, &parseMessageBodyStatementErr{
-				parseFieldErr:          ferr,
-				parseEmptyStatementErr: emptyErr,
+			field, err := p.ParseField()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
+			field.Comments = comments
+			stmt = field
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From 0834042108cf2dbfc15b132957f881c28385913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 03/32] fix: reject a reserved statement that mixes ranges and
 field names

After a failed ranges parse the already consumed ranges were not put back, so
'reserved 1, "foo";' was accepted as field names only and the range was lost.
The first token now decides which alternative is parsed.
---
 parser/reserved.go | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/parser/reserved.go b/parser/reserved.go
index 8ec924b..06c485d 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -1,21 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseReservedErr struct {
-	parseRangesErr     error
-	parseFieldNamesErr error
-}
-
-func (e *parseReservedErr) Error() string {
-	return fmt.Sprintf("%v:%v", e.parseRangesErr, e.parseFieldNamesErr)
-}
-
 // Range is a range of field numbers. End is an optional value.
 type Range struct {
 	Begin string
@@ -70,20 +59,16 @@ func (p *Parser) ParseReserved() (*Reserved, error) {
 	startPos := p.lex.Pos
 
 	parse := func() ([]*Range, []string, error) {
-		ranges, err := p.parseRanges()
-		if err == nil {
-			return ranges, nil, nil
-		}
-
-		fieldNames, ferr := p.parseFieldNames()
-		if ferr == nil {
-			return nil, fieldNames, nil
-		}
+		p.lex.NextNumberLit()
+		isRanges := p.lex.Token == scanner.TINTLIT
+		p.lex.UnNext()
 
-		return nil, nil, &parseReservedErr{
-			parseRangesErr:     err,
-			parseFieldNamesErr: ferr,
+		if isRanges {
+			ranges, err := p.parseRanges()
+			return ranges, nil, err
 		}
+		fieldNames, err := p.parseFieldNames()
+		return nil, fieldNames, err
 	}
 
 	ranges, fieldNames, err := parse()
-- 
2.43.0


From 64fe603714dbd5be4ef552b4701860dca04d177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 04/32] fix: require the closing bracket of a list constant

Whatever token followed the elements was consumed as if it were ']', so
'option a = [1 2;' was accepted with the constant [1].
---
 parser/option.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/option.go b/parser/option.go
index 50dc670..21ee474 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -265,6 +265,9 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 			return "", err
 		}
 		p.lex.Next()
+		if p.lex.Token != scanner.TRIGHTSQUARE {
+			return "", p.unexpected("]")
+		}
 		constant = "[" + constant + "]"
 
 	default:
-- 
2.43.0


From 09781acac989d502cd34d0294db49e40876d01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:40 +0000
Subject: [PATCH 05/32] fix: reject an unknown import modifier

'import foo "a.proto";' was accepted and the modifier was dropped.
---
 parser/import.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/import.go b/parser/import.go
index 28906c4..ab0f0dd 100644
--- a/parser/import.go
+++ b/parser/import.go
@@ -69,6 +69,8 @@ func (p *Parser) ParseImport() (*Import, error) {
 	case scanner.TSTRLIT:
 		modifier = ImportModifierNone
 		p.lex.UnNext()
+	default:
+		return nil, p.unexpected("weak, public or strLit")
 	}
 
 	p.lex.NextStrLit()
-- 
2.43.0


From 1931bae8bd2f2dec37323a5e048baa5e20072996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 06/32] fix: strip exactly the enclosing quotes of a string
 constant

strings.Trim removed every trailing quote, so the constant "x\\"" lost its
escaped quote, and a part in the other kind of quotes kept them in the middle
of a merged string ('a' "b" became 'a"b"').
---
 lexer/constant.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 938d842..67d2d7e 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -55,11 +55,30 @@ func (lex *Lexer) mergeMultilineStrLit() string {
 	var b strings.Builder
 	b.WriteString(q)
 	for lex.Token == scanner.TSTRLIT {
-		strippedString := strings.Trim(lex.Text, q)
-		b.WriteString(strippedString)
+		b.WriteString(strLitContent(lex.Text, q))
 		lex.NextLit()
 	}
 	lex.UnNext()
 	b.WriteString(q)
 	return b.String()
 }
+
+// strLitContent returns the text between the quotes of the given strLit.
+// The result can be enclosed in q even if the strLit is enclosed in the other quote.
+func strLitContent(strLit string, q string) string {
+	content := strLit[1 : len(strLit)-1]
+	if strings.HasPrefix(strLit, q) {
+		return content
+	}
+
+	var b strings.Builder
+	escaped := false
+	for _, ch := range content {
+		if !escaped && string(ch) == q {
+			b.WriteRune('\\')
+		}
+		escaped = !escaped && ch == '\\'
+		b.WriteRune(ch)
+	}
+	return b.String()
+}
-- 
2.43.0


From 7efe27c4a4219177b8eaad70b79b650e606ded4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 07/32] fix: accept an empty oneof and a trailing empty
 statement in a oneof

The closing brace was only looked for behind a field or an option, so 'oneof a
{}' and 'oneof a { int32 x = 1;; }', which the documented rule allows, were
rejected.
---
 parser/oneof.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parser/oneof.go b/parser/oneof.go
index 8057282..5298f4f 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -111,6 +111,12 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 	for {
 		comments := p.ParseComments()
 
+		p.lex.Next()
+		if p.lex.Token == scanner.TRIGHTCURLY {
+			break
+		}
+		p.lex.UnNext()
+
 		err := p.lex.ReadEmptyStatement()
 		if err == nil {
 			continue
@@ -137,13 +143,6 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 			p.MaybeScanInlineComment(oneofField)
 			oneofFields = append(oneofFields, oneofField)
 		}
-
-		p.lex.Next()
-		if p.lex.Token == scanner.TRIGHTCURLY {
-			break
-		} else {
-			p.lex.UnNext()
-		}
 	}
 
 	lastPos := p.lex.Pos
-- 
2.43.0


From 03e31e6ea58a1e56041c4c3756a23622e9a06e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 08/32] fix: do not take a NUL character for the end of the
 input

---
 lexer/scanner/scanner.go | 3 ++-
 lexer/scanner/strLit.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 8562b15..9956e38 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -6,7 +6,8 @@ import (
 	"unicode"
 )
 
-var eof = rune(0)
+// eof is a rune that no input can contain.
+var eof = rune(-1)
 
 // Text is a literal with a position.
 type Text struct {
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index 773d785..fcdb9e2 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -25,7 +25,7 @@ func (s *Scanner) scanCharValue() (string, error) {
 	ch := s.peek()
 
 	switch ch {
-	case eof, '\n':
+	case eof, 0, '\n':
 		return "", s.unexpected(ch, `/[^\0\n\\]`)
 	case '\\':
 		return s.tryScanEscape(), nil
-- 
2.43.0


From c10da74708de13be065af17d0273ff40c08c6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 09/32] fix: do not take a failing reader for the end of the
 input

---
 lexer/scanner/scanner.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 9956e38..203aa32 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -21,6 +21,9 @@ type Scanner struct {
 	lastReadBuffer []rune
 	lastScanRaw    []rune
 
+	// readErr is the non-EOF error that the reader returned, if any.
+	readErr error
+
 	// pos is a current source position.
 	pos *Position
 
@@ -69,8 +72,14 @@ func (s *Scanner) read() (r rune) {
 		ch, s.lastReadBuffer = s.lastReadBuffer[len(s.lastReadBuffer)-1], s.lastReadBuffer[:len(s.lastReadBuffer)-1]
 		return ch
 	}
+	if s.readErr != nil {
+		return eof
+	}
 	ch, _, err := s.r.ReadRune()
 	if err != nil {
+		if err != io.EOF {
+			s.readErr = err
+		}
 		return eof
 	}
 	return ch
@@ -151,6 +160,9 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 		s.read()
 		return s.scan()
 	case s.isEOF():
+		if s.readErr != nil {
+			return TILLEGAL, "", startPos, s.readErr
+		}
 		return TEOF, "", startPos, nil
 	case isLetter(ch), ch == '_':
 		ident := s.scanIdent()
-- 
2.43.0


From d6d84e8e44d7b196ff9a694498662ab7f8d40101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 10/32] fix: push back a token in linear time

---
 lexer/scanner/scanner.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 203aa32..2d3953b 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -102,12 +102,8 @@ func (s *Scanner) peek() rune {
 
 // UnScan put the last scanned text back to the read buffer.
 func (s *Scanner) UnScan() Position {
-	var reversedRunes []rune
-	for _, ch := range s.lastScanRaw {
-		reversedRunes = append([]rune{ch}, reversedRunes...)
-	}
-	for _, ch := range reversedRunes {
-		s.unread(ch)
+	for i := len(s.lastScanRaw) - 1; 0 <= i; i-- {
+		s.unread(s.lastScanRaw[i])
 	}
 	return *s.pos
 }
-- 
2.43.0


From 1360872da340d6aa9af0390ff2d40888fb3c9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 11/32] fix: skip white space and comments without recursion

---
 lexer/scanner/scanner.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 2d3953b..4cd38b1 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -147,14 +147,26 @@ func (s *Scanner) GetScannedComments() []Text {
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
+	for {
+		token, lit, pos, err := s.scanToken()
+		if token == TCOMMENT && s.Mode&ScanComment == 0 {
+			continue
+		}
+		return token, lit, pos, err
+	}
+}
+
+// scanToken returns the next token, which can be a comment in any mode.
+func (s *Scanner) scanToken() (Token, string, Position, error) {
+	for unicode.IsSpace(s.peek()) {
+		s.read()
+	}
+
 	ch := s.peek()
 
 	startPos := *s.pos
 
 	switch {
-	case unicode.IsSpace(ch):
-		s.read()
-		return s.scan()
 	case s.isEOF():
 		if s.readErr != nil {
 			return TILLEGAL, "", startPos, s.readErr
@@ -178,10 +190,7 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 			return TILLEGAL, "", startPos, err
 		}
 		s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
-		if s.Mode&ScanComment != 0 {
-			return TCOMMENT, lit, startPos, nil
-		}
-		return s.scan()
+		return TCOMMENT, lit, startPos, nil
 	case isQuote(ch) && s.Mode&ScanStrLit != 0:
 		lit, err := s.scanStrLit()
 		if err != nil {
-- 
2.43.0


From 7a2a6865ededc43d3df55388ee4719a967e3c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 12/32] fix: build token texts in linear time

---
 lexer/scanner/comment.go   | 19 +++++++++++--------
 lexer/scanner/ident.go     |  9 ++++++---
 lexer/scanner/numberLit.go | 39 +++++++++++++++-----------------------
 lexer/scanner/strLit.go    | 11 +++++++----
 4 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/lexer/scanner/comment.go b/lexer/scanner/comment.go
index 532146c..7b62c94 100644
--- a/lexer/scanner/comment.go
+++ b/lexer/scanner/comment.go
@@ -1,32 +1,35 @@
 package scanner
 
+import "strings"
+
 // comment = ( "//" { [^\n] } "\n" ) |  ( "/*" { any } "*/" )
 func (s *Scanner) scanComment() (string, error) {
-	lit := string(s.read())
+	var lit strings.Builder
+	lit.WriteRune(s.read())
 
 	ch := s.read()
 	switch ch {
 	case '/':
 		for ch != '\n' {
-			lit += string(ch)
+			lit.WriteRune(ch)
 
 			if s.isEOF() {
-				return lit, nil
+				return lit.String(), nil
 			}
 			ch = s.read()
 		}
 	case '*':
 		for {
 			if s.isEOF() {
-				return lit, s.unexpected(eof, "\n")
+				return lit.String(), s.unexpected(eof, "\n")
 			}
-			lit += string(ch)
+			lit.WriteRune(ch)
 
 			ch = s.read()
 			chn := s.peek()
 			if ch == '*' && chn == '/' {
-				lit += string(ch)
-				lit += string(s.read())
+				lit.WriteRune(ch)
+				lit.WriteRune(s.read())
 				break
 			}
 		}
@@ -34,5 +37,5 @@ func (s *Scanner) scanComment() (string, error) {
 		return "", s.unexpected(ch, "/ or *")
 	}
 
-	return lit, nil
+	return lit.String(), nil
 }
diff --git a/lexer/scanner/ident.go b/lexer/scanner/ident.go
index 88ac247..c5cf240 100644
--- a/lexer/scanner/ident.go
+++ b/lexer/scanner/ident.go
@@ -1,16 +1,19 @@
 package scanner
 
+import "strings"
+
 // ident = letter { letter | decimalDigit | "_" }
 func (s *Scanner) scanIdent() string {
-	ident := string(s.read())
+	var ident strings.Builder
+	ident.WriteRune(s.read())
 
 	for {
 		next := s.peek()
 		switch {
 		case isLetter(next), isDecimalDigit(next), next == '_':
-			ident += string(s.read())
+			ident.WriteRune(s.read())
 		default:
-			return ident
+			return ident.String()
 		}
 	}
 }
diff --git a/lexer/scanner/numberLit.go b/lexer/scanner/numberLit.go
index 488222f..e1422d5 100644
--- a/lexer/scanner/numberLit.go
+++ b/lexer/scanner/numberLit.go
@@ -1,5 +1,7 @@
 package scanner
 
+import "strings"
+
 // intLit     = decimalLit | octalLit | hexLit
 // decimalLit = ( "1" … "9" ) { decimalDigit }
 // octalLit   = "0" { octalDigit }
@@ -19,12 +21,7 @@ func (s *Scanner) scanNumberLit() (Token, string, error) {
 		}
 		lit += string(s.read())
 
-		for !s.isEOF() {
-			if !isHexDigit(s.peek()) {
-				break
-			}
-			lit += string(s.read())
-		}
+		lit += s.scanDigits(isHexDigit)
 		return TINTLIT, lit, nil
 	case lit == ".":
 		// floatLit
@@ -50,21 +47,11 @@ func (s *Scanner) scanNumberLit() (Token, string, error) {
 		return TFLOATLIT, lit + exp, nil
 	case lit == "0":
 		// octalLit
-		for !s.isEOF() {
-			if !isOctalDigit(s.peek()) {
-				break
-			}
-			lit += string(s.read())
-		}
+		lit += s.scanDigits(isOctalDigit)
 		return TINTLIT, lit, nil
 	default:
 		// decimalLit or floatLit
-		for !s.isEOF() {
-			if !isDecimalDigit(s.peek()) {
-				break
-			}
-			lit += string(s.read())
-		}
+		lit += s.scanDigits(isDecimalDigit)
 
 		switch s.peek() {
 		case '.':
@@ -162,11 +149,15 @@ func (s *Scanner) scanDecimals() (string, error) {
 	}
 	lit := string(s.read())
 
-	for !s.isEOF() {
-		if !isDecimalDigit(s.peek()) {
-			break
-		}
-		lit += string(s.read())
-	}
+	lit += s.scanDigits(isDecimalDigit)
 	return lit, nil
 }
+
+// scanDigits reads characters as long as isDigit accepts them.
+func (s *Scanner) scanDigits(isDigit func(rune) bool) string {
+	var digits strings.Builder
+	for isDigit(s.peek()) {
+		digits.WriteRune(s.read())
+	}
+	return digits.String()
+}
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index fcdb9e2..47a5a17 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -1,9 +1,12 @@
 package scanner
 
+import "strings"
+
 // strLit = ( "'" { charValue } "'" ) |  ( '"' { charValue } '"' )
 func (s *Scanner) scanStrLit() (string, error) {
 	quote := s.read()
-	lit := string(quote)
+	var lit strings.Builder
+	lit.WriteRune(quote)
 
 	ch := s.peek()
 	for ch != quote {
@@ -11,13 +14,13 @@ func (s *Scanner) scanStrLit() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		lit += cv
+		lit.WriteString(cv)
 		ch = s.peek()
 	}
 
 	// consume quote
-	lit += string(s.read())
-	return lit, nil
+	lit.WriteRune(s.read())
+	return lit.String(), nil
 }
 
 // charValue = hexEscape | octEscape | charEscape | /[^\0\n\\]/
-- 
2.43.0


From 23cb183db5efd727a6868d31b3504876a4251193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 13/32] fix: do not overwrite raw text that was pushed back to
 the scanner

---
 lexer/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 4cd38b1..366b0d0 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -121,9 +121,9 @@ func (s *Scanner) LastScanRaw() []rune {
 	return r
 }
 
-// SetLastScanRaw sets lastScanRaw to the given raw.
+// SetLastScanRaw sets lastScanRaw to a copy of the given raw.
 func (s *Scanner) SetLastScanRaw(raw []rune) {
-	s.lastScanRaw = raw
+	s.lastScanRaw = append([]rune(nil), raw...)
 }
 
 // GetScannedComments returns all the uniquely scanned comments.
-- 
2.43.0


From d0e04a116f5452239c760025acea4449ace27cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 14/32] fix: find the comments of a method header without
 rescanning all comments

---
 lexer/lexer.go           |  9 +--------
 lexer/scanner/scanner.go | 39 +++++++++++++++++++++++----------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 91d6add..5d2e3cf 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -194,12 +194,5 @@ func (lex *Lexer) ConsumeToken(t scanner.Token) {
 
 // FindMidComments finds comments between from and to.
 func (lex *Lexer) FindMidComments(from scanner.Position, to scanner.Position) []scanner.Text {
-	comments := lex.scanner.GetScannedComments()
-	var mid []scanner.Text
-	for _, c := range comments {
-		if from.Offset < c.Pos.Offset && c.Pos.Offset < to.Offset {
-			mid = append(mid, c)
-		}
-	}
-	return mid
+	return lex.scanner.FindScannedComments(from, to)
 }
diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 366b0d0..7544cbf 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -3,6 +3,7 @@ package scanner
 import (
 	"bufio"
 	"io"
+	"sort"
 	"unicode"
 )
 
@@ -30,8 +31,7 @@ type Scanner struct {
 	// The Mode field controls which tokens are recognized.
 	Mode Mode
 
-	// comments are all the scanned comments.
-	// These can be duplicated.
+	// comments are all the scanned comments in source order.
 	comments []Text
 }
 
@@ -126,24 +126,31 @@ func (s *Scanner) SetLastScanRaw(raw []rune) {
 	s.lastScanRaw = append([]rune(nil), raw...)
 }
 
-// GetScannedComments returns all the uniquely scanned comments.
+// GetScannedComments returns all the uniquely scanned comments in source order.
 func (s *Scanner) GetScannedComments() []Text {
-	var uniqueComments []Text
-	find := func(c Text) bool {
-		for _, uc := range uniqueComments {
-			if c.Pos.Offset == uc.Pos.Offset && c.Literal == uc.Literal {
-				return true
-			}
-		}
-		return false
+	return append([]Text(nil), s.comments...)
+}
+
+// addScannedComment records the comment unless it was already recorded before it was put back and scanned again.
+func (s *Scanner) addScannedComment(comment Text) {
+	if n := len(s.comments); n == 0 || s.comments[n-1].Pos.Offset < comment.Pos.Offset {
+		s.comments = append(s.comments, comment)
 	}
+}
 
-	for _, c := range s.comments {
-		if !find(c) {
-			uniqueComments = append(uniqueComments, c)
+// FindScannedComments returns the uniquely scanned comments between from and to.
+func (s *Scanner) FindScannedComments(from Position, to Position) []Text {
+	begin := sort.Search(len(s.comments), func(i int) bool {
+		return from.Offset < s.comments[i].Pos.Offset
+	})
+	var found []Text
+	for _, c := range s.comments[begin:] {
+		if to.Offset <= c.Pos.Offset {
+			break
 		}
+		found = append(found, c)
 	}
-	return uniqueComments
+	return found
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
@@ -189,7 +196,7 @@ func (s *Scanner) scanToken() (Token, string, Position, error) {
 		if err != nil {
 			return TILLEGAL, "", startPos, err
 		}
-		s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
+		s.addScannedComment(Text{Literal: lit, Pos: startPos})
 		return TCOMMENT, lit, startPos, nil
 	case isQuote(ch) && s.Mode&ScanStrLit != 0:
 		lit, err := s.scanStrLit()
-- 
2.43.0


From 73950eb9607a676d15fa82c7e3a19f054ce81bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 15/32] fix: build option values and long names in linear time

---
 lexer/fullIdent.go   |  14 +++--
 lexer/messageType.go |  16 ++++--
 parser/option.go     | 133 +++++++++++++++++++++----------------------
 3 files changed, 85 insertions(+), 78 deletions(-)

diff --git a/lexer/fullIdent.go b/lexer/fullIdent.go
index cab0094..ceb2a12 100644
--- a/lexer/fullIdent.go
+++ b/lexer/fullIdent.go
@@ -1,6 +1,10 @@
 package lexer
 
-import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+import (
+	"strings"
+
+	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+)
 
 // ReadFullIdent reads a fullIdent.
 // fullIdent = ident { "." ident }
@@ -11,7 +15,8 @@ func (lex *Lexer) ReadFullIdent() (string, scanner.Position, error) {
 	}
 	startPos := lex.Pos
 
-	fullIdent := lex.Text
+	var fullIdent strings.Builder
+	fullIdent.WriteString(lex.Text)
 	lex.Next()
 
 	for !lex.IsEOF() {
@@ -24,8 +29,9 @@ func (lex *Lexer) ReadFullIdent() (string, scanner.Position, error) {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "TIDENT")
 		}
-		fullIdent += "." + lex.Text
+		fullIdent.WriteString(".")
+		fullIdent.WriteString(lex.Text)
 		lex.Next()
 	}
-	return fullIdent, startPos, nil
+	return fullIdent.String(), startPos, nil
 }
diff --git a/lexer/messageType.go b/lexer/messageType.go
index 107313d..c56f758 100644
--- a/lexer/messageType.go
+++ b/lexer/messageType.go
@@ -1,6 +1,10 @@
 package lexer
 
-import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+import (
+	"strings"
+
+	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+)
 
 // ReadMessageType reads a messageType.
 // messageType = [ "." ] { ident "." } messageName
@@ -9,9 +13,9 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 	lex.Next()
 	startPos := lex.Pos
 
-	var messageType string
+	var messageType strings.Builder
 	if lex.Token == scanner.TDOT {
-		messageType = lex.Text
+		messageType.WriteString(lex.Text)
 	} else {
 		lex.UnNext()
 	}
@@ -21,17 +25,17 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "ident")
 		}
-		messageType += lex.Text
+		messageType.WriteString(lex.Text)
 
 		lex.Next()
 		if lex.Token != scanner.TDOT {
 			lex.UnNext()
 			break
 		}
-		messageType += lex.Text
+		messageType.WriteString(lex.Text)
 
 		lex.Next()
 	}
 
-	return messageType, startPos, nil
+	return messageType.String(), startPos, nil
 }
diff --git a/parser/option.go b/parser/option.go
index 21ee474..6860ba6 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -84,67 +84,63 @@ func (p *Parser) ParseOption() (*Option, error) {
 // cloudEndpointsOptionConstant = "{" ident ":" constant { ( ["," | ";" ] ident ":" constant | cloudEndpointsOptionConstant ) } ["," | ";"] "}"
 //
 // See https://cloud.google.com/endpoints/docs/grpc-service-config/reference/rpc/google.api
-func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
-	var ret string
-
+func (p *Parser) parseCloudEndpointsOptionConstant(ret *strings.Builder) error {
 	p.lex.Next()
 	if p.lex.Token != scanner.TLEFTCURLY {
-		return "", p.unexpected("{")
+		return p.unexpected("{")
 	}
-	ret += p.lex.Text
+	ret.WriteString(p.lex.Text)
 
 	for {
 		p.lex.Next()
 		if p.lex.Token != scanner.TIDENT {
-			return "", p.unexpected("ident")
+			return p.unexpected("ident")
 		}
-		ret += p.lex.Text
+		ret.WriteString(p.lex.Text)
 
 		needSemi := false
 		p.lex.Next()
 		switch p.lex.Token {
 		case scanner.TLEFTCURLY:
 			if !p.permissive {
-				return "", p.unexpected(":")
+				return p.unexpected(":")
 			}
 			p.lex.UnNext()
 		case scanner.TCOLON:
-			ret += p.lex.Text
+			ret.WriteString(p.lex.Text)
 			if p.lex.Peek() == scanner.TLEFTCURLY && p.permissive {
 				needSemi = true
 			}
 		default:
 			if p.permissive {
-				return "", p.unexpected("{ or :")
+				return p.unexpected("{ or :")
 			}
-			return "", p.unexpected(":")
+			return p.unexpected(":")
 		}
 
-		constant, err := p.parseOptionConstant()
-		if err != nil {
-			return "", err
+		if err := p.writeOptionConstant(ret); err != nil {
+			return err
 		}
-		ret += constant
 
 		p.lex.Next()
 		if p.lex.Token == scanner.TSEMICOLON && needSemi && p.permissive {
-			ret += p.lex.Text
+			ret.WriteString(p.lex.Text)
 			p.lex.Next()
 		}
 
 		switch {
 		case p.lex.Token == scanner.TCOMMA, p.lex.Token == scanner.TSEMICOLON:
-			ret += p.lex.Text
+			ret.WriteString(p.lex.Text)
 			if p.lex.Peek() == scanner.TRIGHTCURLY && p.permissive {
 				p.lex.Next()
-				ret += p.lex.Text
-				return ret, nil
+				ret.WriteString(p.lex.Text)
+				return nil
 			}
 		case p.lex.Token == scanner.TRIGHTCURLY:
-			ret += p.lex.Text
-			return ret, nil
+			ret.WriteString(p.lex.Text)
+			return nil
 		default:
-			ret += "\n"
+			ret.WriteString("\n")
 			p.lex.UnNext()
 		}
 	}
@@ -152,20 +148,20 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 
 // optionName = ( ident | "(" fullIdent ")" ) { "." ( ident | "(" fullIdent ")" ) }
 func (p *Parser) parseOptionName() (string, error) {
-	var optionName string
+	var optionName strings.Builder
 
 	p.lex.Next()
 	switch p.lex.Token {
 	case scanner.TIDENT:
-		optionName = p.lex.Text
+		optionName.WriteString(p.lex.Text)
 	case scanner.TLEFTPAREN:
-		optionName = p.lex.Text
+		optionName.WriteString(p.lex.Text)
 
 		// protoc accepts "(." fullIndent ")". See #63
 		if p.permissive {
 			p.lex.Next()
 			if p.lex.Token == scanner.TDOT {
-				optionName += "."
+				optionName.WriteString(".")
 			} else {
 				p.lex.UnNext()
 			}
@@ -175,13 +171,13 @@ func (p *Parser) parseOptionName() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		optionName += fullIdent
+		optionName.WriteString(fullIdent)
 
 		p.lex.Next()
 		if p.lex.Token != scanner.TRIGHTPAREN {
 			return "", p.unexpected(")")
 		}
-		optionName += p.lex.Text
+		optionName.WriteString(p.lex.Text)
 	default:
 		return "", p.unexpected("ident or left paren")
 	}
@@ -192,20 +188,20 @@ func (p *Parser) parseOptionName() (string, error) {
 			p.lex.UnNext()
 			break
 		}
-		optionName += p.lex.Text
+		optionName.WriteString(p.lex.Text)
 
 		p.lex.Next()
 		switch p.lex.Token {
 		case scanner.TIDENT:
-			optionName += p.lex.Text
+			optionName.WriteString(p.lex.Text)
 		case scanner.TLEFTPAREN:
-			optionName += p.lex.Text
+			optionName.WriteString(p.lex.Text)
 
 			// protoc accepts "(." fullIndent ")". See #63
 			if p.permissive {
 				p.lex.Next()
 				if p.lex.Token == scanner.TDOT {
-					optionName += "."
+					optionName.WriteString(".")
 				} else {
 					p.lex.UnNext()
 				}
@@ -215,92 +211,93 @@ func (p *Parser) parseOptionName() (string, error) {
 			if err != nil {
 				return "", err
 			}
-			optionName += fullIdent
+			optionName.WriteString(fullIdent)
 
 			p.lex.Next()
 			if p.lex.Token != scanner.TRIGHTPAREN {
 				return "", p.unexpected(")")
 			}
-			optionName += p.lex.Text
+			optionName.WriteString(p.lex.Text)
 		default:
 			return "", p.unexpected("ident or bracedFullIdent")
 		}
 	}
-	return optionName, nil
+	return optionName.String(), nil
 }
 
-func (p *Parser) parseOptionConstant() (constant string, err error) {
+func (p *Parser) parseOptionConstant() (string, error) {
+	var constant strings.Builder
+	if err := p.writeOptionConstant(&constant); err != nil {
+		return "", err
+	}
+	return constant.String(), nil
+}
+
+// writeOptionConstant parses an option constant and appends it to ret.
+func (p *Parser) writeOptionConstant(ret *strings.Builder) error {
 	switch p.lex.Peek() {
 	// Cloud Endpoints requires this exception.
 	case scanner.TLEFTCURLY:
 		if !p.permissive {
-			return "", p.unexpected("constant or permissive mode")
+			return p.unexpected("constant or permissive mode")
 		}
 
 		// parses empty fields within an option
 		if p.lex.PeekN(2) == scanner.TRIGHTCURLY {
 			p.lex.NextN(2)
-			return "{}", nil
+			ret.WriteString("{}")
+			return nil
 		}
 
-		constant, err = p.parseCloudEndpointsOptionConstant()
-		if err != nil {
-			return "", err
-		}
+		return p.parseCloudEndpointsOptionConstant(ret)
 
 	case scanner.TLEFTSQUARE:
 		if !p.permissive {
-			return "", p.unexpected("constant or permissive mode")
+			return p.unexpected("constant or permissive mode")
 		}
 		p.lex.Next()
+		ret.WriteString(p.lex.Text)
 
 		// parses empty fields within an option
-		if p.lex.Peek() == scanner.TRIGHTSQUARE {
-			p.lex.Next()
-			return "[]", nil
+		if p.lex.Peek() != scanner.TRIGHTSQUARE {
+			if err := p.parseOptionConstants(ret); err != nil {
+				return err
+			}
 		}
 
-		constant, err = p.parseOptionConstants()
-		if err != nil {
-			return "", err
-		}
 		p.lex.Next()
 		if p.lex.Token != scanner.TRIGHTSQUARE {
-			return "", p.unexpected("]")
+			return p.unexpected("]")
 		}
-		constant = "[" + constant + "]"
+		ret.WriteString(p.lex.Text)
+		return nil
 
 	default:
-		constant, _, err = p.lex.ReadConstant(p.permissive)
+		constant, _, err := p.lex.ReadConstant(p.permissive)
 		if err != nil {
-			return "", err
+			return err
 		}
+		ret.WriteString(constant)
+		return nil
 	}
-	return constant, nil
 }
 
 // optionConstants = optionConstant { ","  optionConstant }
-func (p *Parser) parseOptionConstants() (constant string, err error) {
-	opt, err := p.parseOptionConstant()
-	if err != nil {
-		return "", err
+func (p *Parser) parseOptionConstants(ret *strings.Builder) error {
+	if err := p.writeOptionConstant(ret); err != nil {
+		return err
 	}
 
-	var opts []string
-	opts = append(opts, opt)
-
 	for {
 		p.lex.Next()
 		if p.lex.Token != scanner.TCOMMA {
 			p.lex.UnNext()
-			break
+			return nil
 		}
+		ret.WriteString(p.lex.Text)
 
-		opt, err = p.parseOptionConstant()
-		if err != nil {
-			return "", p.unexpected("optionConstant")
+		if err := p.writeOptionConstant(ret); err != nil {
+			return p.unexpected("optionConstant")
 		}
-		opts = append(opts, opt)
 	}
-	return strings.Join(opts, ","), nil
 }
-- 
2.43.0


From 7d778db06042ebb1baa54513c792263d698f2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 16/32] fix: do not read a message type that the end of the
 input cuts off

---
 lexer/messageType.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/messageType.go b/lexer/messageType.go
index c56f758..7ff1562 100644
--- a/lexer/messageType.go
+++ b/lexer/messageType.go
@@ -21,7 +21,7 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 	}
 
 	lex.Next()
-	for !lex.IsEOF() {
+	for {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "ident")
 		}
-- 
2.43.0


From b90c1f3699a3858d8357e8d2ce4cf0bcb33bb4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 17/32] fix: limit the nesting so that it cannot exhaust the
 stack

---
 parser/message.go |  4 ++++
 parser/option.go  |  5 +++++
 parser/parser.go  | 19 +++++++++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/parser/message.go b/parser/message.go
index 0a40295..c825324 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -93,6 +93,10 @@ func (p *Parser) parseMessageBody() (
 	if p.lex.Token != scanner.TLEFTCURLY {
 		return nil, nil, scanner.Position{}, p.unexpected("{")
 	}
+	if err := p.enterNesting(); err != nil {
+		return nil, nil, scanner.Position{}, err
+	}
+	defer p.leaveNesting()
 
 	inlineLeftCurly := p.parseInlineComment()
 
diff --git a/parser/option.go b/parser/option.go
index 6860ba6..2fa877c 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -235,6 +235,11 @@ func (p *Parser) parseOptionConstant() (string, error) {
 
 // writeOptionConstant parses an option constant and appends it to ret.
 func (p *Parser) writeOptionConstant(ret *strings.Builder) error {
+	if err := p.enterNesting(); err != nil {
+		return err
+	}
+	defer p.leaveNesting()
+
 	switch p.lex.Peek() {
 	// Cloud Endpoints requires this exception.
 	case scanner.TLEFTCURLY:
diff --git a/parser/parser.go b/parser/parser.go
index d07f670..4bececd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2,10 +2,16 @@ package parser
 
 import "github.com/yoheimuta/go-protoparser/v4/lexer"
 
+// maxNesting is how deep message bodies and option values can be nested.
+// It keeps the recursion from exhausting the stack, which is fatal.
+const maxNesting = 10000
+
 // Parser is a parser.
 type Parser struct {
 	lex *lexer.Lexer
 
+	nesting int
+
 	permissive            bool
 	bodyIncludingComments bool
 }
@@ -45,3 +51,16 @@ func (p *Parser) IsEOF() bool {
 	defer p.lex.UnNext()
 	return p.lex.IsEOF()
 }
+
+// enterNesting checks that one more level of nesting is allowed. leaveNesting ends the level.
+func (p *Parser) enterNesting() error {
+	if maxNesting <= p.nesting {
+		return p.unexpectedf("at most %d levels of nesting", maxNesting)
+	}
+	p.nesting++
+	return nil
+}
+
+func (p *Parser) leaveNesting() {
+	p.nesting--
+}
-- 
2.43.0


From 737e6fd7a054ad22764eaaa9e7dc82d546b79a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 18/32] fix: read the quoted version of syntax and edition as
 one literal

---
 parser/edition.go | 32 +++++++++++++++++---------------
 parser/syntax.go  | 20 ++++++--------------
 2 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/parser/edition.go b/parser/edition.go
index 63921fc..6e81671 100644
--- a/parser/edition.go
+++ b/parser/edition.go
@@ -57,23 +57,15 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
-
-	p.lex.NextNumberLit()
-	if p.lex.Token != scanner.TINTLIT {
-		return nil, p.unexpected("intLit")
+	quoted := p.lex.Text
+	edition := quoted[1 : len(quoted)-1]
+	if !isDecimalLit(edition) {
+		return nil, p.unexpected("decimalLit")
 	}
-	edition := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
-	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -82,10 +74,20 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 
 	return &Edition{
 		Edition:      edition,
-		EditionQuote: lq + edition + tq,
+		EditionQuote: quoted,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
 		},
 	}, nil
 }
+
+// decimalLit = ( "1" … "9" ) { decimalDigit }
+func isDecimalLit(s string) bool {
+	for _, r := range s {
+		if r < '0' || '9' < r {
+			return false
+		}
+	}
+	return s != "" && s[0] != '0'
+}
diff --git a/parser/syntax.go b/parser/syntax.go
index 7560adb..3833022 100644
--- a/parser/syntax.go
+++ b/parser/syntax.go
@@ -70,23 +70,15 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Text != "proto3" && p.lex.Text != "proto2" {
+	quoted := p.lex.Text
+	version := quoted[1 : len(quoted)-1]
+	if version != "proto3" && version != "proto2" {
 		return nil, p.unexpected("proto3 or proto2")
 	}
-	version := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
-	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -95,7 +87,7 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 
 	return &Syntax{
 		ProtobufVersion:      version,
-		ProtobufVersionQuote: lq + version + tq,
+		ProtobufVersionQuote: quoted,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
-- 
2.43.0


From ddb3a2b4e8bb59130c8c45650738494344c954ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 19/32] fix: accept a byte order mark only at the start of the
 file

---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index 9b9999b..4c9f4be 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -77,7 +77,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 // See https://protobuf.com/docs/language-spec#source-code-representation
 func (p *Parser) parseBOM() {
 	p.lex.Next()
-	if p.lex.Token == scanner.TBOM {
+	if p.lex.Token == scanner.TBOM && p.lex.Pos.Offset == 0 {
 		return
 	}
 	defer p.lex.UnNext()
-- 
2.43.0


From 5db47574db8ad6cf4a43b537e740cd84e31cf551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 20/32] fix: keep the comments that precede the first statement
 of a file

---
 parser/proto.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index 4c9f4be..8f7d124 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -48,6 +48,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if syntax != nil {
 		syntax.Comments = comments
 		p.MaybeScanInlineComment(syntax)
+		comments = p.ParseComments()
 	}
 
 	edition, err := p.ParseEdition()
@@ -57,9 +58,10 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if edition != nil {
 		edition.Comments = comments
 		p.MaybeScanInlineComment(edition)
+		comments = p.ParseComments()
 	}
 
-	protoBody, err := p.parseProtoBody()
+	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
 	}
@@ -83,15 +85,15 @@ func (p *Parser) parseBOM() {
 	defer p.lex.UnNext()
 }
 
+// comments are the ones that were already parsed before the first statement.
+//
 // protoBody = { import | package | option | topLevelDef | emptyStatement }
 // topLevelDef = message | enum | service | extend
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
-func (p *Parser) parseProtoBody() ([]Visitee, error) {
+func (p *Parser) parseProtoBody(comments []*Comment) ([]Visitee, error) {
 	var protoBody []Visitee
 
-	for {
-		comments := p.ParseComments()
-
+	for ; ; comments = p.ParseComments() {
 		if p.IsEOF() {
 			if p.bodyIncludingComments {
 				for _, comment := range comments {
-- 
2.43.0


From 50d56228f2959d27c29f7740807d590913c70f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 21/32] fix: keep the comments of an empty message or extend
 body

---
 parser/extend.go  | 17 -----------------
 parser/message.go | 17 -----------------
 2 files changed, 34 deletions(-)

diff --git a/parser/extend.go b/parser/extend.go
index 2acd2f9..42108d1 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -94,23 +94,6 @@ func (p *Parser) parseExtendBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
diff --git a/parser/message.go b/parser/message.go
index c825324..9a83808 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -100,23 +100,6 @@ func (p *Parser) parseMessageBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
-- 
2.43.0


From aa438584cce5f036e74bac0b2bd10da78523e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 22/32] fix: include the comments before an empty statement
 into the body

---
 parser/comment.go | 10 ++++++++++
 parser/enum.go    |  7 ++-----
 parser/extend.go  |  7 ++-----
 parser/message.go |  7 ++-----
 parser/proto.go   |  7 ++-----
 parser/service.go |  7 ++-----
 6 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/parser/comment.go b/parser/comment.go
index b03587f..04c0baa 100644
--- a/parser/comment.go
+++ b/parser/comment.go
@@ -76,6 +76,16 @@ func (p *Parser) parseComment() (*Comment, error) {
 	return nil, p.unexpected("comment")
 }
 
+// includeComments appends the comments, which no other element takes, to the body if the parser is told to do so.
+func (p *Parser) includeComments(body []Visitee, comments []*Comment) []Visitee {
+	if p.bodyIncludingComments {
+		for _, comment := range comments {
+			body = append(body, Visitee(comment))
+		}
+	}
+	return body
+}
+
 func (p *Parser) findEmbeddedComments(from scanner.Position, to scanner.Position) []*Comment {
 	var comments []*Comment
 	for _, c := range p.lex.FindMidComments(from, to) {
diff --git a/parser/enum.go b/parser/enum.go
index cd69e39..005c70c 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -151,11 +151,7 @@ func (p *Parser) parseEnumBody() (
 
 		switch token {
 		case scanner.TRIGHTCURLY:
-			if p.bodyIncludingComments {
-				for _, comment := range comments {
-					stmts = append(stmts, Visitee(comment))
-				}
-			}
+			stmts = p.includeComments(stmts, comments)
 			p.lex.Next()
 
 			lastPos := p.lex.Pos
@@ -187,6 +183,7 @@ func (p *Parser) parseEnumBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = p.includeComments(stmts, comments)
 			stmt = &EmptyStatement{}
 		default:
 			enumField, err := p.parseEnumField()
diff --git a/parser/extend.go b/parser/extend.go
index 42108d1..32ddf7d 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -110,11 +110,7 @@ func (p *Parser) parseExtendBody() (
 
 		switch token {
 		case scanner.TRIGHTCURLY:
-			if p.bodyIncludingComments {
-				for _, comment := range comments {
-					stmts = append(stmts, Visitee(comment))
-				}
-			}
+			stmts = p.includeComments(stmts, comments)
 			p.lex.Next()
 
 			lastPos := p.lex.Pos
@@ -131,6 +127,7 @@ func (p *Parser) parseExtendBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = p.includeComments(stmts, comments)
 			stmt = &EmptyStatement{}
 		default:
 			field, err := p.ParseField()
diff --git a/parser/message.go b/parser/message.go
index 9a83808..ae4d48d 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -116,11 +116,7 @@ func (p *Parser) parseMessageBody() (
 
 		switch token {
 		case scanner.TRIGHTCURLY:
-			if p.bodyIncludingComments {
-				for _, comment := range comments {
-					stmts = append(stmts, Visitee(comment))
-				}
-			}
+			stmts = p.includeComments(stmts, comments)
 			p.lex.Next()
 
 			lastPos := p.lex.Pos
@@ -193,6 +189,7 @@ func (p *Parser) parseMessageBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = p.includeComments(stmts, comments)
 			stmt = &EmptyStatement{}
 		default:
 			if p.peekIsGroup() {
diff --git a/parser/proto.go b/parser/proto.go
index 8f7d124..2724022 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -95,11 +95,7 @@ func (p *Parser) parseProtoBody(comments []*Comment) ([]Visitee, error) {
 
 	for ; ; comments = p.ParseComments() {
 		if p.IsEOF() {
-			if p.bodyIncludingComments {
-				for _, comment := range comments {
-					protoBody = append(protoBody, Visitee(comment))
-				}
-			}
+			protoBody = p.includeComments(protoBody, comments)
 			return protoBody, nil
 		}
 
@@ -167,6 +163,7 @@ func (p *Parser) parseProtoBody(comments []*Comment) ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
+			protoBody = p.includeComments(protoBody, comments)
 			stmt = &EmptyStatement{}
 		}
 
diff --git a/parser/service.go b/parser/service.go
index 62b021d..9110185 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -166,11 +166,7 @@ func (p *Parser) parseServiceBody() (
 
 		switch token {
 		case scanner.TRIGHTCURLY:
-			if p.bodyIncludingComments {
-				for _, comment := range comments {
-					stmts = append(stmts, Visitee(comment))
-				}
-			}
+			stmts = p.includeComments(stmts, comments)
 			p.lex.Next()
 
 			lastPos := p.lex.Pos
@@ -201,6 +197,7 @@ func (p *Parser) parseServiceBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = p.includeComments(stmts, comments)
 			stmt = &EmptyStatement{}
 		}
 
-- 
2.43.0


From 6431518c7f5dcd20a85414ccc813ddff87fd80a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 23/32] fix: visit the options and all comments of methods,
 oneofs and extensions

---
 parser/extensions.go | 3 +++
 parser/oneof.go      | 3 +++
 parser/service.go    | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/parser/extensions.go b/parser/extensions.go
index 953f0a6..5cfb430 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -40,6 +40,9 @@ func (e *Extensions) Accept(v Visitor) {
 	if e.InlineComment != nil {
 		e.InlineComment.Accept(v)
 	}
+	if e.InlineCommentBehindLeftSquare != nil {
+		e.InlineCommentBehindLeftSquare.Accept(v)
+	}
 }
 
 // ParseExtensions parses the extensions.
diff --git a/parser/oneof.go b/parser/oneof.go
index 5298f4f..feaa0f6 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -79,6 +79,9 @@ func (o *Oneof) Accept(v Visitor) {
 	if o.InlineComment != nil {
 		o.InlineComment.Accept(v)
 	}
+	if o.InlineCommentBehindLeftCurly != nil {
+		o.InlineCommentBehindLeftCurly.Accept(v)
+	}
 }
 
 // ParseOneof parses the oneof.
diff --git a/parser/service.go b/parser/service.go
index 9110185..442c4db 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -53,12 +53,21 @@ func (r *RPC) Accept(v Visitor) {
 		return
 	}
 
+	for _, option := range r.Options {
+		option.Accept(v)
+	}
 	for _, comment := range r.Comments {
 		comment.Accept(v)
 	}
 	if r.InlineComment != nil {
 		r.InlineComment.Accept(v)
 	}
+	if r.InlineCommentBehindLeftCurly != nil {
+		r.InlineCommentBehindLeftCurly.Accept(v)
+	}
+	for _, comment := range r.EmbeddedComments {
+		comment.Accept(v)
+	}
 }
 
 // Service consists of RPCs.
-- 
2.43.0


From 832e2020f4b327a23d462ad347809dbeb0237dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 24/32] fix: reject repeated keys, a leading comma and
 non-boolean flags in a declaration

---
 parser/declaration.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index 7c34fb3..d9e0eaa 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -80,17 +80,23 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 	var typeStr string
 	var repeated bool
 	var reserved bool
+	seen := make(map[scanner.Token]bool)
 
 	for {
 		p.lex.Next()
 		if p.lex.Token == scanner.TRIGHTCURLY {
 			break
 		}
-		if p.lex.Token != scanner.TCOMMA {
+		if p.lex.Token != scanner.TCOMMA || len(seen) == 0 {
 			p.lex.UnNext()
 		}
 
 		p.lex.NextKeyword()
+		if seen[p.lex.Token] {
+			return nil, p.unexpected("each of number, full_name, type, repeated and reserved at most once")
+		}
+		seen[p.lex.Token] = true
+
 		if p.lex.Token == scanner.TNUMBER {
 			p.lex.Next()
 			if p.lex.Token != scanner.TCOLON {
@@ -127,7 +133,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("repeated bool")
 			}
 			repeated = p.lex.Text == "true"
@@ -137,7 +143,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("reserved bool")
 			}
 			reserved = p.lex.Text == "true"
-- 
2.43.0


From cf5e733caebf8c7292473ee7635ae2a6fdd65e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 25/32] fix: keep the inline comment of a declaration

---
 parser/extensions.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/parser/extensions.go b/parser/extensions.go
index 5cfb430..57180ce 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -104,26 +104,20 @@ func (p *Parser) parseDeclarations() ([]*Declaration, *Comment, error) {
 		declaration.Comments = comments
 		declarations = append(declarations, declaration)
 
+		// The inline comment is placed either before or behind the separator.
+		p.MaybeScanInlineComment(declaration)
+
 		p.lex.Next()
 		token := p.lex.Token
-		inlineComment1 := p.parseInlineComment()
+		if token != scanner.TCOMMA && token != scanner.TRIGHTSQUARE {
+			return nil, nil, p.unexpected(", or ]")
+		}
+		if declaration.InlineComment == nil {
+			p.MaybeScanInlineComment(declaration)
+		}
 		if token == scanner.TRIGHTSQUARE {
-			p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 			break
 		}
-		if token != scanner.TCOMMA {
-			return nil, nil, p.unexpected(", or ]")
-		}
-		p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 	}
 	return declarations, inlineLeftSquare, nil
 }
-
-// assignInlineComments assigns inline comments to a declaration, ensuring proper order.
-func (p *Parser) assignInlineComments(declaration *Declaration, comments ...*Comment) {
-	for _, comment := range comments {
-		if comment != nil {
-			declaration.SetInlineComment(comment)
-		}
-	}
-}
-- 
2.43.0


From 0e420a74002aa57756b8907f71d1de4c4b0edefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 26/32] fix: interpret a service with empty statements

---
 interpret/unordered/service.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index b0316da..7a29024 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -9,8 +9,9 @@ import (
 
 // ServiceBody is unordered in nature, but each slice field preserves the original order.
 type ServiceBody struct {
-	Options []*parser.Option
-	RPCs    []*parser.RPC
+	Options         []*parser.Option
+	RPCs            []*parser.RPC
+	EmptyStatements []*parser.EmptyStatement
 }
 
 // Service consists of RPCs.
@@ -54,18 +55,22 @@ func interpretServiceBody(src []parser.Visitee) (
 ) {
 	var options []*parser.Option
 	var rpcs []*parser.RPC
+	var emptyStatements []*parser.EmptyStatement
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
 			options = append(options, t)
 		case *parser.RPC:
 			rpcs = append(rpcs, t)
+		case *parser.EmptyStatement:
+			emptyStatements = append(emptyStatements, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
 	}
 	return &ServiceBody{
-		Options: options,
-		RPCs:    rpcs,
+		Options:         options,
+		RPCs:            rpcs,
+		EmptyStatements: emptyStatements,
 	}, nil
 }
-- 
2.43.0


From 05ef8aab517469f84ce9c11f4130242a8c043ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:30 +0000
Subject: [PATCH 27/32] fix: keep the edition and the file metadata when
 interpreting

---
 interpret/unordered/proto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 1cf77f0..b871d23 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -21,7 +21,9 @@ type ProtoBody struct {
 // Proto represents a protocol buffer definition.
 type Proto struct {
 	Syntax    *parser.Syntax
+	Edition   *parser.Edition
 	ProtoBody *ProtoBody
+	Meta      *parser.ProtoMeta
 }
 
 // InterpretProto interprets *parser.Proto to *Proto.
@@ -36,7 +38,9 @@ func InterpretProto(src *parser.Proto) (*Proto, error) {
 	}
 	return &Proto{
 		Syntax:    src.Syntax,
+		Edition:   src.Edition,
 		ProtoBody: enumBody,
+		Meta:      src.Meta,
 	}, nil
 }
 
-- 
2.43.0


From 2ec107af8a75859749fbd0984ff5b2f57487b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 28/32] fix: interpret bodies that include comments

---
 interpret/unordered/enum.go    | 6 ++++++
 interpret/unordered/extend.go  | 6 ++++++
 interpret/unordered/message.go | 8 +++++++-
 interpret/unordered/proto.go   | 6 ++++++
 interpret/unordered/service.go | 6 ++++++
 5 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/interpret/unordered/enum.go b/interpret/unordered/enum.go
index e8287cd..325a134 100644
--- a/interpret/unordered/enum.go
+++ b/interpret/unordered/enum.go
@@ -13,6 +13,8 @@ type EnumBody struct {
 	EnumFields      []*parser.EnumField
 	Reserveds       []*parser.Reserved
 	EmptyStatements []*parser.EmptyStatement
+	// Comments are the ones included in the body. See parser.WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Enum consists of a name and an enum body.
@@ -58,6 +60,7 @@ func interpretEnumBody(src []parser.Visitee) (
 	var enumFields []*parser.EnumField
 	var reserveds []*parser.Reserved
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
@@ -68,6 +71,8 @@ func interpretEnumBody(src []parser.Visitee) (
 			reserveds = append(reserveds, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid EnumBody type %T of %v", t, t)
 		}
@@ -77,5 +82,6 @@ func interpretEnumBody(src []parser.Visitee) (
 		EnumFields:      enumFields,
 		Reserveds:       reserveds,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/extend.go b/interpret/unordered/extend.go
index 44253cf..99f3dcb 100644
--- a/interpret/unordered/extend.go
+++ b/interpret/unordered/extend.go
@@ -11,6 +11,8 @@ import (
 type ExtendBody struct {
 	Fields          []*parser.Field
 	EmptyStatements []*parser.EmptyStatement
+	// Comments are the ones included in the body. See parser.WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Extend consists of a messageType and a extend body.
@@ -54,12 +56,15 @@ func interpretExtendBody(src []parser.Visitee) (
 ) {
 	var fields []*parser.Field
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Field:
 			fields = append(fields, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid ExtendBody type %T of %v", t, t)
 		}
@@ -67,5 +72,6 @@ func interpretExtendBody(src []parser.Visitee) (
 	return &ExtendBody{
 		Fields:          fields,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/message.go b/interpret/unordered/message.go
index 12fb674..40e1f5f 100644
--- a/interpret/unordered/message.go
+++ b/interpret/unordered/message.go
@@ -19,7 +19,9 @@ type MessageBody struct {
 	Reserves        []*parser.Reserved
 	Extends         []*parser.Extend
 	EmptyStatements []*parser.EmptyStatement
-	Extensions      []*parser.Extensions
+	// Comments are the ones included in the body. See parser.WithBodyIncludingComments.
+	Comments   []*parser.Comment
+	Extensions []*parser.Extensions
 }
 
 // Message consists of a message name and a message body.
@@ -71,6 +73,7 @@ func interpretMessageBody(src []parser.Visitee) (
 	var reserves []*parser.Reserved
 	var extends []*parser.Extend
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	var extensions []*parser.Extensions
 	for _, s := range src {
 		switch t := s.(type) {
@@ -102,6 +105,8 @@ func interpretMessageBody(src []parser.Visitee) (
 			extends = append(extends, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		case *parser.Extensions:
 			extensions = append(extensions, t)
 		default:
@@ -119,6 +124,7 @@ func interpretMessageBody(src []parser.Visitee) (
 		Reserves:        reserves,
 		Extends:         extends,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 		Extensions:      extensions,
 	}, nil
 }
diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index b871d23..695a04f 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -16,6 +16,8 @@ type ProtoBody struct {
 	Enums           []*Enum
 	Services        []*Service
 	EmptyStatements []*parser.EmptyStatement
+	// Comments are the ones included in the body. See parser.WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Proto represents a protocol buffer definition.
@@ -56,6 +58,7 @@ func interpretProtoBody(src []parser.Visitee) (
 	var enums []*Enum
 	var services []*Service
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Import:
@@ -90,6 +93,8 @@ func interpretProtoBody(src []parser.Visitee) (
 			services = append(services, service)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid ProtoBody type %T of %v", t, t)
 		}
@@ -103,5 +108,6 @@ func interpretProtoBody(src []parser.Visitee) (
 		Enums:           enums,
 		Services:        services,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index 7a29024..cdfa70c 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -12,6 +12,8 @@ type ServiceBody struct {
 	Options         []*parser.Option
 	RPCs            []*parser.RPC
 	EmptyStatements []*parser.EmptyStatement
+	// Comments are the ones included in the body. See parser.WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Service consists of RPCs.
@@ -56,6 +58,7 @@ func interpretServiceBody(src []parser.Visitee) (
 	var options []*parser.Option
 	var rpcs []*parser.RPC
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
@@ -64,6 +67,8 @@ func interpretServiceBody(src []parser.Visitee) (
 			rpcs = append(rpcs, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
@@ -72,5 +77,6 @@ func interpretServiceBody(src []parser.Visitee) (
 		Options:         options,
 		RPCs:            rpcs,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
-- 
2.43.0


From e0654051cd74bed2d9c8ba34e4d5f20deb194101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 29/32] fix: keep the value of an escape at the end of a merged
 string literal

---
 lexer/constant.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 67d2d7e..6bcbaa7 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -54,15 +54,40 @@ func (lex *Lexer) mergeMultilineStrLit() string {
 	}
 	var b strings.Builder
 	b.WriteString(q)
+	last := ""
 	for lex.Token == scanner.TSTRLIT {
-		b.WriteString(strLitContent(lex.Text, q))
+		if content := strLitContent(lex.Text, q); content != "" {
+			b.WriteString(completeLastEscape(last, content[0]))
+			last = content
+		}
 		lex.NextLit()
 	}
 	lex.UnNext()
+	b.WriteString(last)
 	b.WriteString(q)
 	return b.String()
 }
 
+// completeLastEscape pads the escape at the end of the content, if the following digit would otherwise become part of it.
+func completeLastEscape(content string, following byte) string {
+	i := strings.LastIndexByte(content, '\\')
+	if i < 0 || (i-len(strings.TrimRight(content[:i], `\`)))%2 == 1 {
+		return content
+	}
+	isDigitIn := func(digits string) bool {
+		return strings.IndexByte(digits, following) != -1
+	}
+
+	switch escape := content[i+1:]; {
+	case len(escape) == 2 && (escape[0] == 'x' || escape[0] == 'X') && isDigitIn("0123456789abcdefABCDEF"):
+		return content[:i+2] + "0" + escape[1:]
+	case 1 <= len(escape) && len(escape) <= 2 && strings.Trim(escape, "01234567") == "" && isDigitIn("01234567"):
+		return content[:i+1] + strings.Repeat("0", 3-len(escape)) + escape
+	default:
+		return content
+	}
+}
+
 // strLitContent returns the text between the quotes of the given strLit.
 // The result can be enclosed in q even if the strLit is enclosed in the other quote.
 func strLitContent(strLit string, q string) string {
-- 
2.43.0


From 04e3f5540fd9eddbc789e6535153a5a0dfa0a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:46 +0000
Subject: [PATCH 30/32] fix: dump exits with an error if it fails to marshal

---
 _example/dump/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/_example/dump/main.go b/_example/dump/main.go
index 59ae9a4..ca2c45a 100644
--- a/_example/dump/main.go
+++ b/_example/dump/main.go
@@ -56,6 +56,7 @@ func run() int {
 	gotJSON, err := json.MarshalIndent(v, "", "  ")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "failed to marshal, err %v\n", err)
+		return 1
 	}
 	fmt.Print(string(gotJSON))
 	return 0
-- 
2.43.0


From 6ae52ba40b40713f44da89262c840da65e846c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:47 +0000
Subject: [PATCH 31/32] fix: dump exits with an error if it fails to print

---
 _example/dump/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_example/dump/main.go b/_example/dump/main.go
index ca2c45a..9f60821 100644
--- a/_example/dump/main.go
+++ b/_example/dump/main.go
@@ -58,7 +58,10 @@ func run() int {
 		fmt.Fprintf(os.Stderr, "failed to marshal, err %v\n", err)
 		return 1
 	}
-	fmt.Print(string(gotJSON))
+	if _, err := fmt.Print(string(gotJSON)); err != nil {
+		fmt.Fprintf(os.Stderr, "failed to print, err %v\n", err)
+		return 1
+	}
 	return 0
 }
 
-- 
2.43.0


From c8e7efde711ac6baaa37f95eb1a9a9e18ebf3fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:17 +0000
Subject: [PATCH 32/32] fix: leave an incomplete hex escape without digits
 alone when merging string literals

---
 lexer/constant.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 6bcbaa7..2aef8ae 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -74,14 +74,14 @@ func completeLastEscape(content string, following byte) string {
 	if i < 0 || (i-len(strings.TrimRight(content[:i], `\`)))%2 == 1 {
 		return content
 	}
-	isDigitIn := func(digits string) bool {
-		return strings.IndexByte(digits, following) != -1
+	areDigitsIn := func(digits string, s string) bool {
+		return strings.Trim(s, digits) == "" && strings.IndexByte(digits, following) != -1
 	}
 
 	switch escape := content[i+1:]; {
-	case len(escape) == 2 && (escape[0] == 'x' || escape[0] == 'X') && isDigitIn("0123456789abcdefABCDEF"):
+	case len(escape) == 2 && (escape[0] == 'x' || escape[0] == 'X') && areDigitsIn("0123456789abcdefABCDEF", escape[1:]):
 		return content[:i+2] + "0" + escape[1:]
-	case 1 <= len(escape) && len(escape) <= 2 && strings.Trim(escape, "01234567") == "" && isDigitIn("01234567"):
+	case 1 <= len(escape) && len(escape) <= 2 && areDigitsIn("01234567", escape):
 		return content[:i+1] + strings.Repeat("0", 3-len(escape)) + escape
 	default:
 		return content
-- 
2.43.0

