// Package gen generates conforming files together with its own record of what they say, renders them with
// arbitrary layout, and derives mutants, hostile inputs and scaling families.
package gen

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser"
)

// File is a generated conforming file.
type File struct {
	Toks []string
	// Want is the record of the file's content (no positions, no comments).
	Want *parser.Proto
	// Ext counts the permissive extensions used.
	Ext int
	// Feat counts constructs.
	Feat map[string]int
}

// Conf steers the generator.
type Conf struct {
	Permissive bool // may use the permissive extensions
	Stmts      int  // upper bound of top-level statements
	Depth      int  // nesting of messages and values
	Width      int  // upper bound of statements per body
	Tiny       bool // prefers the shortest and most peculiar words and numbers
}

// Default is a medium-size configuration.
func Default(permissive bool) Conf { return Conf{Permissive: permissive, Stmts: 6, Depth: 3, Width: 5} }

type g struct {
	*rand.Rand
	c Conf
	f *File
	// Words, numbers and literals used before, to be used again.
	idents, ints, lits []string
	lastPair           *pairRec
}

type pairRec struct {
	toks  []string
	n, c  string
	depth int
}

// again draws one of the texts used before, now and then.
func (x *g) again(used []string) (string, bool) {
	if len(used) == 0 || !x.one(6) {
		return "", false
	}
	if x.one(2) {
		return used[len(used)-1], true
	}
	return used[x.Intn(len(used))], true
}

// repeat tells whether the statement whose tokens start at from stands there once more, and writes it.
func (x *g) repeat(from int) bool {
	n := len(x.f.Toks)
	if n == from || n-from > 200 || !x.one(14) {
		return false
	}
	x.e(append([]string(nil), x.f.Toks[from:n]...)...)
	x.feat("repeated statement")
	return true
}

// size is n, or a size that occurs in the code under test, up to max.
func (x *g) size(n, max int) int {
	if len(Dict.Sizes) > 0 && x.one(2) {
		if k := Dict.Sizes[x.Intn(len(Dict.Sizes))] + x.Intn(3) - 1; 0 < k && k <= max {
			return k
		}
	}
	if x.one(3) {
		if k := 1<<x.Intn(13) + x.Intn(3) - 1; 0 < k && k <= max {
			return k
		}
	}
	return n
}

// Length draws a length up to max whose logarithm is uniform.
func Length(r *rand.Rand, max int) int {
	n := 1
	for n < max && r.Intn(4) != 0 {
		n *= 2
	}
	return min(max, n+r.Intn(n))
}

// Specials are characters that some notion of space, letter, digit, line end or case treats in its own way.
var Specials = strings.Split("\u0085|\u00a0|\u00ad|\u00aa|\u0131|\u017f|\u212a|\u0130|\u0301|\u0660|\u0967|\u1680|\u180e|\u2003|\u200b|\u200c|\u200d|\u200e|\u2028|\u2029|\u202e|\u205f|\u2060|\u3000|\ufeff|\ufffd|\ufe0f|\uff10|\uff1b|\uff5b|\uff02|\uffff|\U0001f600|\U000e0001|\U0010ffff|\x01|\x1a|\x1b|\x1c|\x1f|\x7f|\v|\f|\r|\b|é|ß|Σ|ſ|日|µ|²|Ⅷ|“|”|’|×|−|–|…|·|／|＊", "|")

// Special draws one of them, or a character of the code under test, or any.
func Special(r *rand.Rand) string {
	if len(Dict.Runes) > 0 && r.Intn(6) == 0 {
		return Dict.Runes[r.Intn(len(Dict.Runes))]
	}
	if r.Intn(12) == 0 {
		k := rune(0x7f + r.Intn(0x3100))
		if r.Intn(4) == 0 {
			k = rune(0x3100 + r.Intn(0x10ffff-0x3100))
		}
		if utf8.ValidRune(k) && k != '\n' {
			return string(k)
		}
	}
	return Specials[r.Intn(len(Specials))]
}

// many is a count up to max, and now and then a big one.
func (x *g) many(max int) int {
	if x.one(120) && len(x.f.Toks) < 3000 {
		x.feat("long list")
		return x.size(10+x.Intn(150), 300)
	}
	return x.Intn(max + 1)
}

// New generates a file.
func New(r *rand.Rand, c Conf) *File {
	x := &g{Rand: r, c: c, f: &File{Feat: map[string]int{}}}
	x.file()
	return x.f
}

// Small generates the tokens of a file with little more than one statement.
func Small(r *rand.Rand, permissive bool) []string {
	for {
		x := &g{Rand: r, c: Conf{Permissive: permissive, Stmts: 1, Depth: 1, Width: 1, Tiny: true}, f: &File{Feat: map[string]int{}}}
		switch r.Intn(9) {
		case 0, 1:
			x.file()
		case 2:
			x.enum()
		case 3:
			x.service()
		case 4:
			x.extend()
		default:
			x.message(1)
		}
		if n := len(x.f.Toks); 2 < n && n < 40 {
			return x.f.Toks
		}
	}
}

func (x *g) e(ts ...string)                  { x.f.Toks = append(x.f.Toks, ts...) }
func (x *g) one(n int) bool                  { return x.Intn(n) == 0 }
func (x *g) feat(s string)                   { x.f.Feat[s]++ }
func (x *g) n(max int) int                   { return x.Intn(max + 1) }
func (x *g) mark(ext string)                 { x.f.Ext++; x.feat("ext:" + ext) }
func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

var words = strings.Fields(`a b c x y foo Bar baz_qux FOO_BAR a1 _ __x Z9 int32 string map message enum option
 syntax edition import package service rpc returns stream oneof reserved extensions extend group to max true false
 inf nan repeated optional required weak public declaration number full_name type verification lazy deprecated
 google protobuf Any Timestamp FileOptions default packed json_name ctype jstype java_package go_package optimize_for SPEED
 allow_alias UNKNOWN UNSPECIFIED features field_presence map_entry targets idempotency_level objc_class_prefix Request Response id name value key
 e E x1 X0 u8 proto2 proto3 Empty A_ aA0 true_ infx nano`)

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

// Keywords are the words of the grammar.
var Keywords = strings.Fields(`syntax edition import weak public package option message enum service rpc returns stream extend oneof map
 reserved extensions declaration number full_name type repeated required optional group to max true false inf nan proto2 proto3 verification
 double float int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes`)

// NearWord is an identifier that is almost a word of the grammar.
func NearWord(r *rand.Rand) string {
	w := Keywords[r.Intn(len(Keywords))]
	if len(Dict.Idents) > 0 && r.Intn(4) == 0 {
		w = Dict.Idents[r.Intn(len(Dict.Idents))]
	}
	k := r.Intn(len(w))
	switch r.Intn(10) {
	case 0:
		w += pick(r, "s", "_", "1", "A", "32", "64", "ed", "er", "e", "E", "x", "able", "Of", "_"+w, w)
	case 1:
		w = pick(r, "_", "x", "un", "re", "a", "u", "s", "is_", "my") + w
	case 2:
		w = strings.ToUpper(w)
	case 3:
		w = strings.ToUpper(w[:1]) + w[1:]
	case 4:
		if k > 0 {
			w = w[:k]
		}
	case 5:
		w = w[k:]
	case 6:
		w = w[:k] + strings.ToUpper(w[k:k+1]) + w[k+1:]
	case 7:
		w = w[:k] + w[k+1:]
	case 8:
		w += Keywords[r.Intn(len(Keywords))]
	case 9:
		w = w[:k] + string(letters[r.Intn(len(letters))]) + w[k+1:]
	}
	if w == "" || '0' <= w[0] && w[0] <= '9' {
		return "_" + w
	}
	return w
}

// Ident is any identifier.
func (x *g) ident() string {
	if s, ok := x.again(x.idents); ok {
		return s
	}
	s := x.freshIdent()
	x.idents = append(x.idents, s)
	return s
}

func (x *g) freshIdent() string {
	if x.c.Tiny && x.one(2) {
		return pick(x.Rand, "a", "B", "to", "max", "inf", "true", "stream", "x", "e1", "_", "message", "map", "group", "option", "reserved", "e", "f")
	}
	if len(Dict.Idents) > 0 && x.one(12) {
		return Dict.Idents[x.Intn(len(Dict.Idents))]
	}
	if x.one(12) {
		return NearWord(x.Rand)
	}
	switch x.Intn(10) {
	case 0, 1, 2, 3:
		return words[x.Intn(len(words))]
	case 4:
		if x.one(8) {
			return x.rawIdent(x.size(Length(x.Rand, 5000), 5000))
		}
	}
	return x.rawIdent(1 + x.Intn(12))
}

func (x *g) rawIdent(n int) string {
	b := make([]byte, n)
	b[0] = letters[x.Intn(53)]
	for i := 1; i < n; i++ {
		b[i] = letters[x.Intn(len(letters))]
	}
	return string(b)
}

func (x *g) identNot(avoid string) string {
	for {
		s := x.ident()
		if !strings.Contains(" "+avoid+" ", " "+s+" ") {
			return s
		}
	}
}

func (x *g) capIdent() string { return string(letters[26+x.Intn(26)]) + x.rawIdent(1+x.Intn(5)) }

func (x *g) dotted(first string) string {
	x.e(first)
	s := first
	long := 0
	if x.one(150) {
		long = 5 + x.Intn(60)
	}
	for ; long > 0 || x.one(3); long-- {
		p := x.ident()
		x.e(".", p)
		s += "." + p
	}
	return s
}

const scalars = "double float int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes"
const keys = "int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string"
const notType = "enum message option oneof map extend reserved extensions repeated required optional group " + scalars

func (x *g) typ() string {
	if x.one(2) {
		s := pick(x.Rand, strings.Fields(scalars)...)
		x.e(s)
		return s
	}
	return x.messageType(notType)
}

func (x *g) messageType(avoid string) string {
	if x.one(4) {
		x.e(".")
		return "." + x.dotted(x.ident())
	}
	return x.dotted(x.identNot(avoid))
}

func (x *g) intLit() string {
	if s, ok := x.again(x.ints); ok {
		return s
	}
	s := x.freshInt()
	x.ints = append(x.ints, s)
	return s
}

var numbers = strings.Fields(`18999 19000 19999 20000 127 128 255 256 32767 32768 65535 65536 536870911 536870912 2147483647 2147483648 4294967295 4294967296
 9223372036854775807 9223372036854775808 18446744073709551615 18446744073709551616 1000 999 1001 0xFFFFFFFF 0x7fffffff 017777777777`)

func (x *g) freshInt() string {
	if x.c.Tiny && x.one(2) {
		return pick(x.Rand, "0", "1", "2", "9", "00", "01", "07", "0x0", "0x1", "0XF", "10", "100", "536870911", "536870912", "9223372036854775808")
	}
	if x.one(16) {
		return numbers[x.Intn(len(numbers))]
	}
	if len(Dict.Sizes) > 0 && x.one(16) {
		return fmt.Sprint(Dict.Sizes[x.Intn(len(Dict.Sizes))] + x.Intn(3) - 1)
	}
	switch x.Intn(9) {
	case 0:
		return "0"
	case 8:
		return fmt.Sprint(1 + x.Intn(9))
	case 1:
		return "0" + strings.Repeat("0", x.n(2)) + fmt.Sprintf("%o", x.Intn(1<<20))
	case 2:
		return pick(x.Rand, "0x", "0X") + fmt.Sprintf(pick(x.Rand, "%x", "%X", "%04x"), x.Int63())
	case 3:
		return fmt.Sprint(1 + x.Int63())
	case 4:
		if x.one(10) {
			return "9" + strings.Repeat("1", 30+x.Intn(300))
		}
	}
	return fmt.Sprint(1 + x.Intn(536870911))
}

func (x *g) digits() string {
	b := make([]byte, 1+x.Intn(6))
	for i := range b {
		b[i] = byte('0' + x.Intn(10))
	}
	return string(b)
}

func (x *g) floatLit() string {
	if x.one(6) {
		return pick(x.Rand, "inf", "nan")
	}
	exp := pick(x.Rand, "e", "E") + pick(x.Rand, "", "+", "-") + x.digits()
	whole := fmt.Sprint(x.Intn(100000))
	switch x.Intn(5) {
	case 0:
		return whole + "." + x.digits()
	case 1:
		return whole + "."
	case 2:
		return whole + "." + pick(x.Rand, "", x.digits()) + exp
	case 3:
		return whole + exp
	default:
		return "." + x.digits() + pick(x.Rand, "", exp)
	}
}

var chars = []string{"a", "b", "Z", "0", "7", " ", "\t", "é", "日本", "😀", "//", "/*", "*/", "{", "}", ";", "=", ",", "#", "\u00a0", "\ufeff", "?", "\r"}
var escapes = []string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`, `\'`, `\"`, `\x41`, `\X7f`, `\xFF`, `\101`, `\000`, `\377`}

// content is what can stand between the quotes q. Its last escape is complete.
func (x *g) content(q string, n int) string {
	var b strings.Builder
	plain := n > 20 && x.one(2)
	for i := 0; i < n; i++ {
		if plain {
			b.WriteByte(letters[x.Intn(len(letters))])
			continue
		}
		switch x.Intn(9) {
		case 8:
			b.WriteString(Special(x.Rand))
		case 0:
			b.WriteString(escapes[x.Intn(len(escapes))])
		case 1:
			if q == `"` {
				b.WriteString("'")
			} else {
				b.WriteString(`"`)
			}
		case 2:
			if len(Dict.Texts) > 0 && x.one(4) {
				b.WriteString(Dict.Texts[x.Intn(len(Dict.Texts))])
				continue
			}
			b.WriteString(chars[x.Intn(len(chars))])
		default:
			b.WriteString(chars[x.Intn(len(chars))])
		}
	}
	return b.String()
}

func (x *g) quote() string { return pick(x.Rand, `"`, `'`) }

func (x *g) strLit() string {
	if s, ok := x.again(x.lits); ok {
		return s
	}
	q := x.quote()
	n := x.Intn(8)
	if x.one(20) {
		n = x.size(Length(x.Rand, 5000), 5000)
	}
	s := q + x.content(q, n) + q
	if n < 100 {
		x.lits = append(x.lits, s)
	}
	return s
}

// strs is one literal, or several adjacent ones in the permissive dialect, and the text the tree shows.
func (x *g) strs() string {
	if !x.c.Permissive || !x.one(3) {
		s := x.strLit()
		x.e(s)
		return s
	}
	x.mark("adjacent strings")
	q := x.quote()
	all := q
	for i, n := 0, 2+x.Intn(3); i < n; i++ {
		if i > 0 && x.one(3) { // the other quote style, without characters that need another escape
			o := `"`
			if q == o {
				o = `'`
			}
			c := x.content(o, x.Intn(4))
			for strings.Contains(c, q) {
				c = x.content(o, x.Intn(4))
			}
			x.e(o + c + o)
			all += c
			continue
		}
		n := x.Intn(5)
		if x.one(12) {
			n = x.size(Length(x.Rand, 1000), 1000)
		}
		c := x.content(q, n)
		x.e(q + c + q)
		all += c
	}
	return all + q
}

func (x *g) constant(depth int) string {
	if x.c.Permissive && depth > 0 && x.one(4) {
		if x.one(2) {
			return x.list(depth)
		}
		return x.aggregate(depth)
	}
	return x.scalar()
}

func (x *g) scalar() string {
	sign := ""
	if x.one(4) {
		sign = pick(x.Rand, "-", "+")
	}
	switch x.Intn(6) {
	case 0:
		s := pick(x.Rand, "true", "false")
		x.e(s)
		return s
	case 1:
		return x.strs()
	case 2:
		return x.dotted(x.identNot("true false inf nan"))
	case 3:
		s := x.intLit()
		if sign != "" {
			x.e(sign)
		}
		x.e(s)
		return sign + s
	case 4:
		s := x.floatLit()
		if sign != "" {
			x.e(sign)
		}
		x.e(s)
		return sign + s
	default:
		s := x.strs()
		return s
	}
}

func (x *g) list(depth int) string {
	x.mark("list")
	x.e("[")
	s := "["
	for i, n := 0, x.many(3); i < n; i++ {
		if i > 0 {
			x.e(",")
			s += ","
		}
		s += x.constant(depth - 1)
	}
	x.e("]")
	return s + "]"
}

func (x *g) aggregate(depth int) string {
	x.mark("aggregate")
	x.e("{")
	s := "{"
	n := x.many(3)
	for i := 0; i < n; i++ {
		id := x.ident()
		x.e(id)
		s += id
		block := false
		if depth > 1 && x.one(4) {
			s += x.aggregate(depth - 1)
		} else {
			x.e(":")
			v := x.constant(depth - 1)
			block = v[0] == '{'
			s += ":" + v
		}
		sep := pick(x.Rand, "", ",", ";")
		if sep != "" {
			x.e(sep)
		}
		s += sep
		// The tree shows a missing separator as a newline, and one more behind "key: {...};".
		if (sep == "" || sep == ";" && block) && i < n-1 {
			s += "\n"
		}
	}
	x.e("}")
	return s + "}"
}

func (x *g) optionName() string {
	s := ""
	for i := 0; i == 0 || x.one(3); i++ {
		if i > 0 {
			x.e(".")
			s += "."
		}
		if x.one(2) {
			id := x.ident()
			x.e(id)
			s += id
			continue
		}
		x.e("(")
		s += "("
		if x.c.Permissive && x.one(4) {
			x.mark("leading dot")
			x.e(".")
			s += "."
		}
		s += x.dotted(x.ident())
		x.e(")")
		s += ")"
	}
	return s
}

func (x *g) pair() (string, string) {
	if l := x.lastPair; l != nil && x.one(8) {
		x.feat("repeated option")
		x.e(l.toks...)
		return l.n, l.c
	}
	from := len(x.f.Toks)
	n := x.optionName()
	x.e("=")
	c := x.constant(x.c.Depth)
	if len(x.f.Toks)-from < 100 {
		x.lastPair = &pairRec{toks: append([]string(nil), x.f.Toks[from:]...), n: n, c: c}
	}
	return n, c
}

func (x *g) option() *parser.Option {
	x.feat("option")
	x.e("option")
	n, c := x.pair()
	x.e(";")
	return &parser.Option{OptionName: n, Constant: c}
}

func (x *g) brackets(add func(n, c string)) {
	if !x.one(3) {
		return
	}
	x.feat("bracket options")
	x.e("[")
	for i, n := 0, 1+x.many(2); i < n; i++ {
		if i > 0 {
			x.e(",")
		}
		add(x.pair())
	}
	x.e("]")
}

func (x *g) fieldTail() (name, num string, opts []*parser.FieldOption) {
	name, num = x.ident(), x.intLit()
	x.e(name, "=", num)
	x.brackets(func(n, c string) { opts = append(opts, &parser.FieldOption{OptionName: n, Constant: c}) })
	x.e(";")
	return
}

func (x *g) label() (rep, req, opt bool) {
	switch x.Intn(6) {
	case 0:
		x.e("repeated")
		return true, false, false
	case 1:
		x.e("required")
		return false, true, false
	case 2:
		x.e("optional")
		return false, false, true
	}
	return
}

func (x *g) field() *parser.Field {
	x.feat("field")
	f := &parser.Field{}
	f.IsRepeated, f.IsRequired, f.IsOptional = x.label()
	f.Type = x.typ()
	f.FieldName, f.FieldNumber, f.FieldOptions = x.fieldTail()
	return f
}

func (x *g) oneof() *parser.Oneof {
	x.feat("oneof")
	o := &parser.Oneof{OneofName: x.ident()}
	x.e("oneof", o.OneofName, "{")
	for i := x.many(x.c.Width); i > 0; i-- {
		from := len(x.f.Toks)
		switch x.Intn(6) {
		case 0:
			x.e(";")
			x.feat("empty statement in oneof")
		case 1:
			op := x.option()
			o.Options = append(o.Options, op)
			if x.repeat(from) {
				o.Options = append(o.Options, op)
			}
		default:
			f := &parser.OneofField{Type: x.typ()}
			f.FieldName, f.FieldNumber, f.FieldOptions = x.fieldTail()
			o.OneofFields = append(o.OneofFields, f)
			if x.repeat(from) {
				o.OneofFields = append(o.OneofFields, f)
			}
		}
	}
	x.close()
	return o
}

// close ends a block.
func (x *g) close() {
	x.e("}")
	if x.c.Permissive && x.one(5) {
		x.mark("semicolon after block")
		x.e(";")
	}
}

func (x *g) ranges() (out []*parser.Range) {
	for i, n := 0, 1+x.many(3); i < n; i++ {
		if i > 0 {
			x.e(",")
		}
		r := &parser.Range{Begin: x.intLit()}
		x.e(r.Begin)
		if x.one(2) {
			r.End = pick(x.Rand, x.intLit(), x.intLit(), "max", r.Begin)
			x.e("to", r.End)
		}
		out = append(out, r)
	}
	return
}

func (x *g) reserved() *parser.Reserved {
	x.feat("reserved")
	r := &parser.Reserved{}
	x.e("reserved")
	if x.one(2) {
		r.Ranges = x.ranges()
	} else {
		idents := x.one(3)
		for i, n := 0, 1+x.many(3); i < n; i++ {
			if i > 0 {
				x.e(",")
			}
			s := x.ident()
			if !idents {
				q := x.quote()
				s = q + s + q
			}
			x.e(s)
			r.FieldNames = append(r.FieldNames, s)
		}
	}
	x.e(";")
	return r
}

func (x *g) extensions() *parser.Extensions {
	x.feat("extensions")
	x.e("extensions")
	e := &parser.Extensions{Ranges: x.ranges()}
	if x.one(2) {
		x.e("[")
		for i, n := 0, 1+x.many(2); i < n; i++ {
			if i > 0 {
				x.e(",")
			}
			e.Declarations = append(e.Declarations, x.declaration())
		}
		x.e("]")
	}
	x.e(";")
	return e
}

func (x *g) declaration() *parser.Declaration {
	x.feat("declaration")
	d := &parser.Declaration{}
	x.e("declaration", "=", "{")
	for i, k := range x.Perm(5)[:1+x.Intn(5)] {
		if i > 0 {
			x.e(",")
		}
		switch k {
		case 0:
			d.Number = x.intLit()
			x.e("number", ":", d.Number)
		case 1:
			d.FullName = x.strLit()
			x.e("full_name", ":", d.FullName)
		case 2:
			d.Type = x.strLit()
			x.e("type", ":", d.Type)
		case 3:
			d.Reserved = x.one(2)
			x.e("reserved", ":", fmt.Sprint(d.Reserved))
		case 4:
			d.Repeated = x.one(2)
			x.e("repeated", ":", fmt.Sprint(d.Repeated))
		}
	}
	x.e("}")
	return d
}

func (x *g) enum() *parser.Enum {
	x.feat("enum")
	e := &parser.Enum{EnumName: x.ident()}
	x.e("enum", e.EnumName, "{")
	for i := x.many(x.c.Width); i > 0; i-- {
		from := len(x.f.Toks)
		switch x.Intn(7) {
		case 0:
			x.e(";")
			e.EnumBody = append(e.EnumBody, &parser.EmptyStatement{})
		case 1:
			e.EnumBody = append(e.EnumBody, x.option())
		case 2:
			e.EnumBody = append(e.EnumBody, x.reserved())
		default:
			f := &parser.EnumField{Ident: x.identNot("option reserved"), Number: x.intLit()}
			x.e(f.Ident, "=")
			if x.one(4) {
				x.e("-")
				x.e(f.Number)
				f.Number = "-" + f.Number
			} else {
				x.e(f.Number)
			}
			x.brackets(func(n, c string) {
				f.EnumValueOptions = append(f.EnumValueOptions, &parser.EnumValueOption{OptionName: n, Constant: c})
			})
			x.e(";")
			e.EnumBody = append(e.EnumBody, f)
		}
		if x.repeat(from) {
			e.EnumBody = append(e.EnumBody, e.EnumBody[len(e.EnumBody)-1])
		}
	}
	x.close()
	return e
}

func (x *g) extend() *parser.Extend {
	x.feat("extend")
	x.e("extend")
	e := &parser.Extend{MessageType: x.messageType("")}
	x.e("{")
	for i := x.many(x.c.Width); i > 0; i-- {
		if x.one(5) {
			x.e(";")
			e.ExtendBody = append(e.ExtendBody, &parser.EmptyStatement{})
			continue
		}
		from := len(x.f.Toks)
		e.ExtendBody = append(e.ExtendBody, x.field())
		if x.repeat(from) {
			e.ExtendBody = append(e.ExtendBody, e.ExtendBody[len(e.ExtendBody)-1])
		}
	}
	x.close()
	return e
}

func (x *g) message(depth int) *parser.Message {
	x.feat("message")
	m := &parser.Message{MessageName: x.ident()}
	x.e("message", m.MessageName)
	m.MessageBody = x.messageBody(depth)
	return m
}

func (x *g) messageBody(depth int) (body []parser.Visitee) {
	x.e("{")
	for i := x.many(x.c.Width); i > 0; i-- {
		k := x.Intn(16)
		if depth <= 0 && (k == 0 || k == 1) {
			k = 9
		}
		var s parser.Visitee
		from := len(x.f.Toks)
		switch k {
		case 0:
			s = x.message(depth - 1)
		case 1:
			x.feat("group")
			gr := &parser.GroupField{}
			gr.IsRepeated, gr.IsRequired, gr.IsOptional = x.label()
			gr.GroupName, gr.FieldNumber = x.capIdent(), x.intLit()
			x.e("group", gr.GroupName, "=", gr.FieldNumber)
			gr.MessageBody = x.messageBody(depth - 1)
			s = gr
		case 2:
			s = x.enum()
		case 3:
			s = x.option()
		case 4:
			s = x.oneof()
		case 5:
			x.feat("map")
			m := &parser.MapField{KeyType: pick(x.Rand, strings.Fields(keys)...)}
			x.e("map", "<", m.KeyType, ",")
			m.Type = x.typ()
			x.e(">")
			m.MapName, m.FieldNumber, m.FieldOptions = x.fieldTail()
			s = m
		case 6:
			s = x.extend()
		case 7:
			s = x.reserved()
		case 8:
			s = x.extensions()
		case 10:
			if !x.emptyAllowed() {
				continue
			}
			x.feat("empty statement")
			x.e(";")
			s = &parser.EmptyStatement{}
		default:
			s = x.field()
		}
		body = append(body, s)
		if x.repeat(from) {
			body = append(body, s)
		}
	}
	x.close()
	return body
}

// emptyAllowed tells whether a semicolon here is a statement of its own: behind a block the permissive
// dialect takes the first one as part of the block.
func (x *g) emptyAllowed() bool {
	n := len(x.f.Toks)
	return n == 0 || x.f.Toks[n-1] != "}"
}

func (x *g) service() *parser.Service {
	x.feat("service")
	s := &parser.Service{ServiceName: x.ident()}
	x.e("service", s.ServiceName, "{")
	for i := x.many(x.c.Width); i > 0; i-- {
		from := len(x.f.Toks)
		switch k := x.Intn(6); {
		case k == 0 && x.emptyAllowed():
			x.feat("empty statement")
			x.e(";")
			s.ServiceBody = append(s.ServiceBody, &parser.EmptyStatement{})
		case k == 1:
			s.ServiceBody = append(s.ServiceBody, x.option())
		default:
			s.ServiceBody = append(s.ServiceBody, x.rpc())
		}
		if x.repeat(from) {
			s.ServiceBody = append(s.ServiceBody, s.ServiceBody[len(s.ServiceBody)-1])
		}
	}
	x.close()
	return s
}

// rpcType is the type of a method's side: behind the modifier a type can be called stream as well.
func (x *g) rpcType(stream bool) string {
	if !stream {
		return x.messageType("stream")
	}
	if x.one(8) {
		return x.dotted("stream")
	}
	return x.messageType("")
}

func (x *g) rpc() *parser.RPC {
	x.feat("rpc")
	r := &parser.RPC{RPCName: x.ident(), RPCRequest: &parser.RPCRequest{}, RPCResponse: &parser.RPCResponse{}}
	x.e("rpc", r.RPCName, "(")
	if x.one(3) {
		r.RPCRequest.IsStream = true
		x.e("stream")
	}
	r.RPCRequest.MessageType = x.rpcType(r.RPCRequest.IsStream)
	x.e(")", "returns", "(")
	if x.one(3) {
		r.RPCResponse.IsStream = true
		x.e("stream")
	}
	r.RPCResponse.MessageType = x.rpcType(r.RPCResponse.IsStream)
	x.e(")")
	if x.one(2) {
		x.e(";")
		return r
	}
	x.e("{")
	for i := x.many(3); i > 0; i-- {
		if x.one(4) {
			x.e(";")
			x.feat("empty statement in rpc")
			continue
		}
		from := len(x.f.Toks)
		r.Options = append(r.Options, x.option())
		if x.repeat(from) {
			r.Options = append(r.Options, r.Options[len(r.Options)-1])
		}
	}
	x.close()
	return r
}

func (x *g) file() {
	p := &parser.Proto{}
	x.f.Want = p
	if x.one(2) {
		x.feat("syntax")
		q := x.quote()
		p.Syntax = &parser.Syntax{ProtobufVersion: pick(x.Rand, "proto2", "proto3")}
		p.Syntax.ProtobufVersionQuote = q + p.Syntax.ProtobufVersion + q
		x.e("syntax", "=", p.Syntax.ProtobufVersionQuote, ";")
	} else if x.one(2) {
		x.feat("edition")
		q := x.quote()
		p.Edition = &parser.Edition{Edition: pick(x.Rand, "2023", "2024", "1", "99999")}
		p.Edition.EditionQuote = q + p.Edition.Edition + q
		x.e("edition", "=", p.Edition.EditionQuote, ";")
	}
	for i := x.n(x.c.Stmts); i > 0; i-- {
		var s parser.Visitee
		from := len(x.f.Toks)
		switch k := x.Intn(12); k {
		case 0:
			x.feat("import")
			im := &parser.Import{}
			x.e("import")
			switch x.Intn(3) {
			case 0:
				im.Modifier = parser.ImportModifierPublic
				x.e("public")
			case 1:
				im.Modifier = parser.ImportModifierWeak
				x.e("weak")
			}
			im.Location = x.strLit()
			x.e(im.Location, ";")
			s = im
		case 1:
			x.feat("package")
			x.e("package")
			pk := &parser.Package{Name: x.dotted(x.ident())}
			x.e(";")
			s = pk
		case 2:
			s = x.option()
		case 3:
			if !x.emptyAllowed() {
				continue
			}
			x.feat("empty statement")
			x.e(";")
			s = &parser.EmptyStatement{}
		case 4, 5:
			s = x.enum()
		case 6, 7:
			s = x.service()
		case 8:
			s = x.extend()
		default:
			s = x.message(x.c.Depth)
		}
		p.ProtoBody = append(p.ProtoBody, s)
		if x.repeat(from) {
			p.ProtoBody = append(p.ProtoBody, s)
		}
	}
}
