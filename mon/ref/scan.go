// Package ref is an independent model of the lexical and syntactic grammar that go-protoparser documents.
// It shares no code with the library except the node types and token names it fills in.
package ref

import (
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// Tok is one token of the model. [Start,End) are byte offsets into the source.
// For a line comment End excludes the newline and Next includes it; otherwise Next == End.
type Tok struct {
	Kind  scanner.Token
	Text  string
	Start int
	End   int
	Next  int
	// Bad is set for a malformed literal or comment, which is an error as opposed to an unknown symbol.
	Bad bool
	// Alt is a second legitimate reading of the kind (a lone dot where numbers are scanned).
	Alt bool
}

var misc = map[rune]scanner.Token{
	';': scanner.TSEMICOLON, ':': scanner.TCOLON, '=': scanner.TEQUALS, '"': scanner.TQUOTE, '\'': scanner.TQUOTE,
	'(': scanner.TLEFTPAREN, ')': scanner.TRIGHTPAREN, '{': scanner.TLEFTCURLY, '}': scanner.TRIGHTCURLY,
	'[': scanner.TLEFTSQUARE, ']': scanner.TRIGHTSQUARE, '<': scanner.TLESS, '>': scanner.TGREATER,
	',': scanner.TCOMMA, '.': scanner.TDOT, '-': scanner.TMINUS, '\uFEFF': scanner.TBOM,
}

// Keywords is the keyword table of the lexical grammar.
var Keywords = map[string]scanner.Token{
	"syntax": scanner.TSYNTAX, "edition": scanner.TEDITION, "service": scanner.TSERVICE, "rpc": scanner.TRPC,
	"returns": scanner.TRETURNS, "message": scanner.TMESSAGE, "extend": scanner.TEXTEND, "import": scanner.TIMPORT,
	"package": scanner.TPACKAGE, "option": scanner.TOPTION, "repeated": scanner.TREPEATED,
	"required": scanner.TREQUIRED, "optional": scanner.TOPTIONAL, "weak": scanner.TWEAK, "public": scanner.TPUBLIC,
	"oneof": scanner.TONEOF, "map": scanner.TMAP, "reserved": scanner.TRESERVED, "extensions": scanner.TEXTENSIONS,
	"number": scanner.TNUMBER, "full_name": scanner.TFULLNAME, "type": scanner.TTYPE,
	"declaration": scanner.TDECLARATION, "enum": scanner.TENUM, "stream": scanner.TSTREAM, "group": scanner.TGROUP,
}

func digitIn(src string, i int, set string) bool {
	return i < len(src) && strings.IndexByte(set, src[i]) >= 0
}

const (
	dec = "0123456789"
	oct = "01234567"
	hex = "0123456789abcdefABCDEF"
)

func run(src string, i int, set string) int {
	for digitIn(src, i, set) {
		i++
	}
	return i
}

func identByte(b byte, first bool) bool {
	switch {
	case b == '_', 'a' <= b && b <= 'z', 'A' <= b && b <= 'Z':
		return true
	case '0' <= b && b <= '9':
		return !first
	}
	return false
}

// number returns the end of the number literal at i, whether it is an integer, and whether it is well formed.
func number(src string, i int) (end int, isInt, ok bool) {
	exponent := func(j int) (int, bool) { // j is at e or E
		j++
		if digitIn(src, j, "+-") {
			j++
		}
		k := run(src, j, dec)
		return k, k > j
	}
	tail := func(j int) (int, bool, bool) { // behind the dot and its decimals
		if digitIn(src, j, "eE") {
			k, good := exponent(j)
			return k, false, good
		}
		return j, false, true
	}
	if src[i] == '.' {
		j := run(src, i+1, dec)
		if j == i+1 {
			return j, false, false
		}
		return tail(j)
	}
	if src[i] == '0' && digitIn(src, i+1, "xX") {
		j := run(src, i+2, hex)
		return j, true, j > i+2
	}
	j := i + 1
	if src[i] != '0' {
		j = run(src, j, dec)
	}
	if digitIn(src, j, ".") {
		return tail(run(src, j+1, dec))
	}
	if digitIn(src, j, "eE") {
		k, good := exponent(j)
		return k, false, good
	}
	if src[i] == '0' {
		j = run(src, j, oct)
	}
	return j, true, true
}

// str returns the end of the string literal at i and whether it is well formed.
func str(src string, i int) (end int, ok bool) {
	q := src[i]
	for j := i + 1; j < len(src); j++ {
		switch src[j] {
		case q:
			return j + 1, true
		case 0, '\n':
			return j, false
		case '\\':
			// An escaped newline or NUL is still not allowed in a literal.
			if j+1 < len(src) && src[j+1] != '\n' && src[j+1] != 0 {
				j++
			}
		}
	}
	return len(src), false
}

// Scan returns the next token at or after off in the given mode.
func Scan(src string, off int, mode scanner.Mode) Tok {
	for {
		t := scan1(src, off, mode)
		if t.Kind == scanner.TCOMMENT && mode&scanner.ScanComment == 0 {
			off = t.Next
			continue
		}
		return t
	}
}

func scan1(src string, off int, mode scanner.Mode) Tok {
	i := off
	var r rune
	size := 0
	for i < len(src) {
		r, size = utf8.DecodeRuneInString(src[i:])
		if !unicode.IsSpace(r) {
			break
		}
		i += size
	}
	tok := func(k scanner.Token, end int) Tok {
		return Tok{Kind: k, Text: src[i:end], Start: i, End: end, Next: end}
	}
	bad := func(end int) Tok {
		return Tok{Kind: scanner.TILLEGAL, Start: i, End: end, Next: end, Bad: true}
	}
	if i >= len(src) {
		return tok(scanner.TEOF, i)
	}
	b := src[i]
	switch {
	case identByte(b, true):
		j := i + 1
		for j < len(src) && identByte(src[j], false) {
			j++
		}
		word := src[i:j]
		if mode&scanner.ScanBoolLit != 0 && (word == "true" || word == "false") {
			return tok(scanner.TBOOLLIT, j)
		}
		if mode&scanner.ScanNumberLit != 0 && (word == "inf" || word == "nan") {
			return tok(scanner.TFLOATLIT, j)
		}
		if k, ok := Keywords[word]; ok && mode&scanner.ScanKeyword != 0 {
			return tok(k, j)
		}
		return tok(scanner.TIDENT, j)
	case b == '/':
		if strings.HasPrefix(src[i:], "//") {
			nl := strings.IndexByte(src[i:], '\n')
			if nl < 0 {
				return tok(scanner.TCOMMENT, len(src))
			}
			t := tok(scanner.TCOMMENT, i+nl)
			t.Next++
			return t
		}
		if strings.HasPrefix(src[i:], "/*") {
			end := strings.Index(src[i+2:], "*/")
			if end < 0 {
				return bad(len(src))
			}
			return tok(scanner.TCOMMENT, i+2+end+2)
		}
		return bad(i + 1)
	case (b == '"' || b == '\'') && mode&scanner.ScanStrLit != 0:
		end, ok := str(src, i)
		if !ok {
			return bad(end)
		}
		return tok(scanner.TSTRLIT, end)
	case (b == '.' || '0' <= b && b <= '9') && mode&scanner.ScanNumberLit != 0:
		end, isInt, ok := number(src, i)
		if !ok {
			t := bad(end)
			t.Alt = b == '.'
			return t
		}
		if isInt {
			return tok(scanner.TINTLIT, end)
		}
		return tok(scanner.TFLOATLIT, end)
	}
	k, ok := misc[r]
	if !ok {
		k = scanner.TILLEGAL
	}
	return tok(k, i+size)
}

// Lines maps byte offsets to line and column.
type Lines struct {
	src      string
	filename string
	starts   []int
	// marks caches rune counts at regular byte offsets, so that At is fast on long lines.
	marks []int
}

const markEvery = 256

// NewLines indexes src.
func NewLines(src, filename string) *Lines {
	l := &Lines{src: src, filename: filename, starts: []int{0}}
	n := 0
	for i := 0; i < len(src); i++ {
		if i%markEvery == 0 {
			l.marks = append(l.marks, n)
		}
		if utf8.RuneStart(src[i]) {
			n++
		}
		if src[i] == '\n' {
			l.starts = append(l.starts, i+1)
		}
	}
	return l
}

// runes is the number of characters that start before off.
func (l *Lines) runes(off int) int {
	if len(l.marks) == 0 {
		return 0
	}
	m := off / markEvery
	if m >= len(l.marks) {
		m = len(l.marks) - 1
	}
	n := l.marks[m]
	for i := m * markEvery; i < off; i++ {
		if utf8.RuneStart(l.src[i]) {
			n++
		}
	}
	return n
}

// At returns the position of the byte offset.
func (l *Lines) At(off int) meta.Position {
	line := sort.SearchInts(l.starts, off+1)
	start := l.starts[line-1]
	return meta.Position{
		Filename: l.filename,
		Offset:   off,
		Line:     line,
		Column:   l.runes(off) - l.runes(start) + 1,
	}
}

// Last returns the position of the last character that ends at end.
func (l *Lines) Last(end int) meta.Position {
	_, size := utf8.DecodeLastRuneInString(l.src[:end])
	return l.At(end - size)
}
