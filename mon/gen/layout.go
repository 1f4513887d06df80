package gen

import (
	"math/rand"
	"strings"
	"unicode/utf8"
)

// Layout steers the white space and comments between tokens.
type Layout struct {
	// Comments is the probability in percent of a comment in a gap.
	Comments int
	// Newlines is the probability in percent of a newline in a gap.
	Newlines int
	// Glue is the probability in percent of nothing where tokens stay separate.
	Glue int
	// Odd allows tabs, form feeds, vertical tabs and carriage returns.
	Odd bool
	// Wide allows white space outside ASCII.
	Wide bool
	// BOM is put in front.
	BOM bool
	// Long makes some gaps very long.
	Long bool
}

// RandLayout draws a layout.
func RandLayout(r *rand.Rand, comments bool) Layout {
	l := Layout{
		Newlines: []int{0, 20, 60, 100}[r.Intn(4)],
		Glue:     []int{0, 50, 100}[r.Intn(3)],
		Odd:      r.Intn(2) == 0,
		BOM:      r.Intn(10) == 0,
		Long:     r.Intn(40) == 0,
	}
	if comments {
		l.Comments = []int{0, 5, 30, 80, 150}[r.Intn(5)]
	}
	return l
}

func wordy(b byte) bool {
	return b == '_' || '0' <= b && b <= '9' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' || b >= 0x80
}

// Separate tells whether a and b need something between them to stay separate tokens.
func Separate(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, y := a[len(a)-1], b[0]
	if a[0] == '"' || a[0] == '\'' {
		x = '"'
	}
	switch {
	case wordy(x) && wordy(y), x == '.' && '0' <= y && y <= '9', wordy(x) && y == '.' && len(b) > 1,
		'0' <= a[0] && a[0] <= '9' && (y == '.' || wordy(y)), x == '.' && a != "." && (wordy(y) || y == '.'):
		return true
	case x == '/' || y == '/', a == "-" || a == "+":
		return x == '/' || y == '/'
	}
	return false
}

var commentTexts = []string{"", " c", " a comment", "*", "/", "**", " ;", " }", " {", "{ }", " \"", " 'x", " option a = 1;", " é日本😀", "\t", " //", " /*", "\u00a0", "\ufeff x",
	" \\", " max 1", "*/ x", "\x00", " trailing  ", "\r", "a\rb"}

// directives are the words that tools look for in comments.
var directives = append(strings.Fields(`protolint lint lint:ignore nolint nolint:all buf:lint:ignore clang-format go:build go:generate build TODO FIXME XXX NOTE HACK BUG
 deprecated Deprecated generated DO-NOT-EDIT copyright license region endregion begin end disable enable ignore skip include pragma line exclude
 todo internal private public param return see since example coverage eslint-disable prettier-ignore noqa type test test:`),
	"clang-format off", "clang-format on", "protolint:disable MESSAGE_NAMES", "protolint:disable:next", "Code generated by x. DO NOT EDIT.", "line 1 \"x.proto\"", "syntax = \"proto3\";", "message A {", "}", "option a = 1;",
	"-----", "=====", "%%%", "$Id$", "vim: set ts=2:", "-*- mode: x -*-", "<<<<<<< HEAD", ">>>>>>> x", "http://a.b/c", "https://x.y//z", "C:\\x", "a // b", "a /* b", "0")

var linePrefixes = []string{"", " ", "\t", "  ", "    ", "*", " *", " * ", " *\t", "\t*", "\t* ", " **", "* ", "//", " // ", "#", "# ", " #", "-", " - ", "|", " | ", ">", "\u00a0*", " *\u00a0", "\u3000", "///", ";", "!", "\r", "*\r"}

var rulers = []string{"/", "*", "-", "=", "#", "~", "+", "_", ".", "<", ">", "!", "=-", "* ", "- ", "*/", "\u2500", "\\", "//", "|", "\t", " ", "%", "x", "0", "\u3000"}

// Comment draws a comment. A line comment ends with its newline.
func Comment(r *rand.Rand) string {
	t := commentTexts[r.Intn(len(commentTexts))]
	if len(Dict.Texts) > 0 && r.Intn(12) == 0 {
		t = Dict.Texts[r.Intn(len(Dict.Texts))]
		if r.Intn(2) == 0 { // a text that is looked for at some place of a comment
			t = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(t, "//"), "/*"), "*/")
			t = pick(r, "", " ", "  ", "\t", "* ", "@", "!", "/") + strings.TrimLeft(t, " ") + pick(r, "", "", " ", ":", " x", "(x): y", "s", "-next", "=1")
		}
	}
	if r.Intn(20) == 0 {
		t = pick(r, "", " ", " @", " +", "#", " #", ":", "!") + pick(r, directives...) + pick(r, "", " ", ":", ": x", " all", " x y", "-next-line", "=1", "(a)")
	}
	if r.Intn(30) == 0 {
		t = strings.Repeat(" long", Length(r, 2000))
	}
	if r.Intn(15) == 0 { // rulers, frames and banners
		t = strings.Repeat(pick(r, rulers...), Length(r, 90))
		if r.Intn(3) == 0 {
			t += pick(r, "", " ", "!", "!/usr/bin/") + commentTexts[r.Intn(len(commentTexts))]
			if r.Intn(2) == 0 {
				t += strings.Repeat(pick(r, rulers...), Length(r, 40))
			}
		}
		if r.Intn(3) == 0 {
			t = pick(r, " ", "*", "/", "!", "#") + t
		}
	}
	if r.Intn(8) == 0 {
		t += Special(r)
		if r.Intn(2) == 0 {
			t += commentTexts[r.Intn(len(commentTexts))]
		}
	}
	if r.Intn(2) == 0 {
		if r.Intn(8) == 0 {
			t += "\r"
		}
		return "//" + t + "\n"
	}
	if r.Intn(6) == 0 { // lines alike
		pre := linePrefixes[r.Intn(len(linePrefixes))]
		if r.Intn(2) == 0 {
			t = pre + t
		}
		for i := Length(r, 40); i > 0; i-- {
			if r.Intn(8) == 0 {
				pre = linePrefixes[r.Intn(len(linePrefixes))]
			}
			t += pick(r, "\n", "\n", "\n", "\r\n") + pre
			if r.Intn(4) != 0 {
				t += commentTexts[r.Intn(len(commentTexts))]
			}
		}
		if r.Intn(2) == 0 {
			t += "\n "
		}
		t = strings.ReplaceAll(t, "*/", "* /")
		return "/*" + t + "*/"
	}
	for i := r.Intn(3); i > 0; i-- {
		t += "\n" + strings.Repeat(" ", r.Intn(3)) + commentTexts[r.Intn(len(commentTexts))]
	}
	t = strings.ReplaceAll(t, "*/", "* /")
	return "/*" + t + "*/"
}

// Gap draws what stands between two tokens.
func Gap(r *rand.Rand, l Layout, need bool) string {
	var b strings.Builder
	p := l.Comments
	for p > 0 && r.Intn(100) < p {
		if r.Intn(2) == 0 {
			b.WriteString(space(r, l))
		}
		cm := Comment(r)
		b.WriteString(cm)
		if r.Intn(10) == 0 {
			b.WriteString(cm)
		}
		p -= 60
	}
	if b.Len() == 0 && !need && r.Intn(100) < l.Glue {
		return ""
	}
	if need && b.Len() == 0 || r.Intn(2) == 0 {
		b.WriteString(space(r, l))
	}
	return b.String()
}

func space(r *rand.Rand, l Layout) string {
	n := 1
	if r.Intn(4) == 0 {
		n += r.Intn(4)
	}
	if l.Long && r.Intn(30) == 0 {
		n = 5000
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch {
		case l.Wide && r.Intn(4) == 0:
			b.WriteString(pick(r, "\u00a0", "\u0085", "\u1680", "\u2000", "\u2003", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"))
		case r.Intn(100) < l.Newlines:
			if l.Odd && r.Intn(3) == 0 {
				b.WriteString("\r")
			}
			b.WriteString("\n")
		case l.Odd && r.Intn(3) == 0:
			b.WriteString(pick(r, "\t", "\v", "\f", "\r"))
		default:
			b.WriteString(" ")
		}
	}
	return b.String()
}

// Render lays the tokens out.
func Render(r *rand.Rand, toks []string, l Layout) string {
	var b strings.Builder
	if l.BOM {
		b.WriteString("\ufeff")
	}
	b.WriteString(Gap(r, l, false))
	for i, t := range toks {
		b.WriteString(t)
		if t == "/" { // must not join a comment
			b.WriteString(" ")
		}
		next := ""
		if i+1 < len(toks) {
			next = toks[i+1]
		}
		b.WriteString(Gap(r, l, Separate(t, next)))
	}
	s := b.String()
	if l.Comments > 0 && r.Intn(4) == 0 { // a last line comment without its newline
		s += " //" + strings.TrimRight(commentTexts[r.Intn(len(commentTexts))], "\n")
	}
	return s
}

// Plain joins the tokens with single spaces and newlines behind semicolons and braces.
func Plain(toks []string) string {
	var b strings.Builder
	for _, t := range toks {
		b.WriteString(t)
		if t == ";" || t == "{" || t == "}" {
			b.WriteString("\n")
		} else {
			b.WriteString(" ")
		}
	}
	return b.String()
}

var vocabulary = strings.Fields(`; ; { } ( ) [ ] < > = , . : - + 1 0 01 0x1 1.5 .5 1e3 "s" 's' "" a B foo true false inf nan max to
 syntax edition import package option message enum service rpc returns stream extend oneof map reserved extensions
 declaration number full_name type repeated required optional group weak public int32 string / * # "proto3" "2023"
 double float int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool bytes verification
 0x 0X1G 1e 1e+ 1.e5 08 019 1_000 1f 0b1 0o7 .5. 1..2 ..5 "\x" "a\" $ @ ~ ! % & | ^ "proto2" 'proto3' "1.0" 0 00 TRUE Inf NaN _ é`)

func word(r *rand.Rand) string {
	if r.Intn(8) == 0 {
		return NearWord(r)
	}
	return vocabulary[r.Intn(len(vocabulary))]
}

// MutateTokens changes a token sequence in 1..3 places.
func MutateTokens(r *rand.Rand, toks []string) []string {
	out := append([]string(nil), toks...)
	for n := 1 + r.Intn(8)/6 + r.Intn(12)/11; n > 0; n-- {
		if len(out) == 0 {
			out = append(out, vocabulary[r.Intn(len(vocabulary))])
			continue
		}
		i := r.Intn(len(out))
		switch r.Intn(7) {
		case 0:
			out = append(out[:i], out[i+1:]...)
		case 1:
			out = append(out[:i+1], out[i:]...)
		case 2:
			j := r.Intn(len(out))
			if r.Intn(2) == 0 && i+1 < len(out) {
				j = i + 1
			}
			out[i], out[j] = out[j], out[i]
		case 3:
			out[i] = word(r)
		case 4:
			out[i] = out[r.Intn(len(out))]
		case 5:
			t := word(r)
			out = append(out[:i], append([]string{t}, out[i:]...)...)
		case 6:
			if r.Intn(3) == 0 {
				out = out[:i]
			} else {
				j := i + r.Intn(len(out)-i)
				out = append(out[:i], out[j:]...)
			}
		}
	}
	return out
}

// Echo puts a copy of a statement next to it: a true copy, or one without its options, without one token, or with
// another one.
func Echo(r *rand.Rand, toks []string) []string {
	var starts []int
	for i, t := range toks {
		if i > 0 && !strings.Contains("; { }", toks[i-1]) || strings.Contains("; } syntax edition", t) {
			continue
		}
		starts = append(starts, i)
	}
	if len(starts) == 0 {
		return toks
	}
	i := starts[r.Intn(len(starts))]
	j, depth := i, 0
loop:
	for ; j < len(toks); j++ {
		switch toks[j] {
		case "{", "[", "(":
			depth++
		case "]", ")":
			depth--
		case "}":
			if depth--; depth == 0 && (j+1 == len(toks) || toks[j+1] != ";") && (len(toks) < i+2 || toks[i] != "option") {
				break loop
			}
		case ";":
			if depth <= 0 {
				break loop
			}
		}
		if depth < 0 {
			return toks
		}
	}
	if j >= len(toks) || j-i > 200 {
		return toks
	}
	echo := append([]string(nil), toks[i:j+1]...)
	k := r.Intn(len(echo))
	switch r.Intn(9) {
	case 6, 7, 8: // nearly the same names and literals
		for tries := 0; tries < 8; tries++ {
			if k = r.Intn(len(echo)); k > 0 || len(echo) < 2 {
				if t := twist(r, echo[k]); t != echo[k] {
					echo[k] = t
					break
				}
			}
		}
	case 0, 1: // without the options
		if a := index(echo, "["); a > 0 {
			b := len(echo) - 1
			for b > a && echo[b] != "]" {
				b--
			}
			if b > a {
				echo = append(echo[:a], echo[b+1:]...)
			}
		}
	case 2:
		if len(echo) > 1 {
			echo = append(echo[:k], echo[k+1:]...)
		}
	case 3:
		if echo[k] != "" && wordy(echo[k][0]) {
			echo[k] = pick(r, "x", "1", "7", "Other", echo[k]+"1", "string")
		}
	case 4:
		if echo[0] == "optional" || echo[0] == "repeated" || echo[0] == "required" {
			if echo[0] = pick(r, "optional", "repeated", "required", ""); echo[0] == "" {
				echo = echo[1:]
			}
		}
	}
	at := j + 1
	if r.Intn(3) == 0 {
		at = i
	}
	return append(toks[:at:at], append(echo, toks[at:]...)...)
}

// twist changes one character of a name or a literal: the case of a letter, a letter, the quotes, a blank.
func twist(r *rand.Rand, t string) string {
	if t == "" || !wordy(t[0]) && t[0] != '"' && t[0] != '\'' {
		return t
	}
	b := []byte(t)
	if t[0] == '"' || t[0] == '\'' {
		if q := "\"'"[r.Intn(2)]; r.Intn(5) == 0 && len(t) > 1 && strings.IndexByte(t[1:len(t)-1], q) < 0 && t[len(t)-1] == t[0] {
			b[0], b[len(b)-1] = q, q
			return string(b)
		}
		if r.Intn(5) == 0 && len(t) > 1 && t[len(t)-1] == t[0] {
			return t[:len(t)-1] + pick(r, " ", "x", "/", ".") + t[len(t)-1:]
		}
	}
	var letters []int
	for i, c := range b {
		if 'a' <= c|0x20 && c|0x20 <= 'z' && (i == 0 || b[i-1] != '\\') {
			letters = append(letters, i)
		}
	}
	if len(letters) == 0 {
		return t
	}
	i := letters[r.Intn(len(letters))]
	if r.Intn(3) > 0 {
		b[i] ^= 0x20
	} else {
		b[i] = 'a' + byte(r.Intn(26))
	}
	return string(b)
}

func index(toks []string, t string) int {
	for i, x := range toks {
		if x == t {
			return i
		}
	}
	return -1
}

var fragments = append([]string{";", "{", "}", "[", "]", "(", ")", "<", ">", "=", ",", ".", ":", "-", "+", "\"", "'", "/", "//", "/*", "*/", "*", "\n", "\r", " ", "\t",
	"\x00", "\\", "\\\n", "\ufeff", "é", "日", "\xff", "\xc3", "\xed\xa0\x80", "0", "9", "x", "e", "_", "#", "\u2028", "\u0085", "\\x", "1.", "0x", "inf", "''", "\"\"", "message M {", "}\n;", "// c\n", "/* c */"}, Specials...)

// MutateBytes changes a text in 1..3 places.
func MutateBytes(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(3); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		switch r.Intn(6) {
		case 0:
			if len(b) > 0 {
				b = append(b[:i], b[i+1:]...)
			}
		case 1:
			f := fragments[r.Intn(len(fragments))]
			b = append(b[:i], append([]byte(f), b[i:]...)...)
		case 2:
			if len(b) > 0 {
				if r.Intn(4) == 0 {
					b = append(b[:i], append([]byte(Special(r)), b[i+1:]...)...)
				} else {
					b[i] = byte(r.Intn(128))
				}
			}
		case 3:
			if len(b) > 0 && r.Intn(3) == 0 {
				b = b[:i]
			}
		case 4:
			if len(b) > 0 {
				j := i + r.Intn(len(b)-i)
				if j-i > 40 {
					j = i + 40
				}
				b = append(b[:i], b[j:]...)
			}
		case 5:
			if len(b) > 0 {
				j := i + r.Intn(len(b)-i)
				if j-i > 60 {
					j = i + 60
				}
				b = append(b[:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
			}
		}
	}
	return string(b)
}

// Valid tells whether s is UTF-8.
func Valid(s string) bool { return utf8.ValidString(s) }
