package ref

import (
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// MaxNesting is the documented limit of the library (parser.maxNesting).
const MaxNesting = 10000

// Config selects the dialect.
type Config struct {
	Strict       bool
	BodyComments bool
	Filename     string
}

// Result is what the model says about a source.
type Result struct {
	Src   string
	Lines *Lines
	// Toks are the significant tokens, the last one being TEOF.
	Toks []Tok
	// Coms[i] are the comments between token i-1 and token i.
	Coms [][]Tok
	// Proto is the expected tree, nil if the file is rejected.
	Proto *parser.Proto
	// Bad is the index of the first token that cannot continue a valid file, if the file is rejected.
	Bad int
	// Features counts the constructs met; keys are construct names.
	Features map[string]int
	// Deep is set when the file was rejected for its nesting only.
	Deep bool
}

// OK reports whether the model accepts the source.
func (r *Result) OK() bool { return r.Proto != nil }

// ErrRange is the interval of offsets in which an error has to be located.
func (r *Result) ErrRange() (lo, hi int) {
	t := r.Toks[r.Bad]
	hi = t.Start
	if r.Bad > 0 {
		lo = r.Toks[r.Bad-1].End
	}
	if t.Kind == scanner.TFLOATLIT && strings.HasPrefix(t.Text, ".") {
		// Where no number can be, the dot is a token of its own.
		hi++
	}
	return lo, hi
}

const tokMode = scanner.ScanNumberLit | scanner.ScanStrLit | scanner.ScanComment

// Tokens splits src into significant tokens and comments. A malformed token ends the list.
func Tokens(src string) (toks []Tok, coms [][]Tok) {
	var pending []Tok
	off := 0
	for {
		t := scan1(src, off, tokMode)
		if t.Alt { // a dot that starts no number
			t = scan1(src, off, scanner.ScanStrLit)
		}
		off = t.Next
		if t.Kind == scanner.TCOMMENT {
			pending = append(pending, t)
			continue
		}
		if t.Kind == scanner.TFLOATLIT && (t.Text == "inf" || t.Text == "nan") {
			t.Kind = scanner.TIDENT // contextual
		}
		toks = append(toks, t)
		coms = append(coms, pending)
		pending = nil
		if t.Kind == scanner.TEOF || t.Bad {
			return toks, coms
		}
	}
}

type failure struct {
	at   int
	deep bool
}

type model struct {
	*Result
	cfg   Config
	i     int // index of the next token
	ci    int // comments of Coms[i] already taken
	depth int
}

// Parse runs the model. Invalid UTF-8 is read as U+FFFD, as the library documents for its runes.
func Parse(src string, cfg Config) *Result {
	src = string([]rune(src))
	res := &Result{Src: src, Lines: NewLines(src, cfg.Filename), Features: map[string]int{}}
	res.Toks, res.Coms = Tokens(src)
	m := &model{Result: res, cfg: cfg}
	func() {
		defer func() {
			if r := recover(); r != nil {
				f, ok := r.(failure)
				if !ok {
					panic(r)
				}
				res.Bad = f.at
				res.Deep = f.deep
				res.Proto = nil
			}
		}()
		res.Proto = m.proto()
	}()
	return res
}

func (m *model) fail() { panic(failure{at: m.i}) }

func (m *model) tok() Tok { return m.Toks[m.i] }

func (m *model) kind() scanner.Token { return m.Toks[m.i].Kind }

// word is the text of the next token if it is an identifier.
func (m *model) word() string {
	if m.kind() == scanner.TIDENT {
		return m.tok().Text
	}
	return ""
}

func (m *model) peek(n int) Tok {
	if m.i+n < len(m.Toks) {
		return m.Toks[m.i+n]
	}
	return m.Toks[len(m.Toks)-1]
}

func (m *model) next() Tok {
	t := m.Toks[m.i]
	if t.Bad || t.Kind == scanner.TEOF {
		m.fail()
	}
	m.i++
	m.ci = 0
	return t
}

func (m *model) want(k scanner.Token) Tok {
	if m.kind() != k {
		m.fail()
	}
	return m.next()
}

func (m *model) wantWord(w string) Tok {
	if m.word() != w {
		m.fail()
	}
	return m.next()
}

func (m *model) enter() {
	if m.depth >= MaxNesting {
		panic(failure{at: m.i, deep: true})
	}
	m.depth++
}

func (m *model) feature(name string) { m.Features[name]++ }

// prev is the last token taken.
func (m *model) prev() Tok { return m.Toks[m.i-1] }

func (m *model) meta(start, end Tok) meta.Meta {
	return meta.Meta{Pos: m.Lines.At(start.Start), LastPos: m.Lines.Last(end.End)}
}

func (m *model) comment(t Tok) *parser.Comment {
	return &parser.Comment{Raw: t.Text, Meta: m.meta(t, t)}
}

// leading takes all pending comments.
func (m *model) leading() []*parser.Comment {
	var out []*parser.Comment
	for ; m.ci < len(m.Coms[m.i]); m.ci++ {
		out = append(out, m.comment(m.Coms[m.i][m.ci]))
	}
	return out
}

// inline takes the first pending comment if it starts on the line of the last token taken.
func (m *model) inline() *parser.Comment {
	if m.ci >= len(m.Coms[m.i]) {
		return nil
	}
	c := m.Coms[m.i][m.ci]
	if strings.Contains(m.Src[m.prev().End:c.Start], "\n") {
		return nil
	}
	m.ci++
	return m.comment(c)
}

func (m *model) leftover(body []parser.Visitee, cs []*parser.Comment) []parser.Visitee {
	if m.cfg.BodyComments {
		for _, c := range cs {
			body = append(body, c)
		}
	}
	return body
}

// blockEnd takes the closing brace and, in the permissive dialect, a semicolon behind it.
func (m *model) blockEnd() {
	m.want(scanner.TRIGHTCURLY)
	if !m.cfg.Strict && m.kind() == scanner.TSEMICOLON {
		m.feature("semicolon after block")
		m.next()
	}
}

func (m *model) proto() *parser.Proto {
	p := &parser.Proto{Meta: &parser.ProtoMeta{Filename: m.cfg.Filename}}
	if m.kind() == scanner.TBOM && m.tok().Start == 0 {
		m.feature("bom")
		m.next()
	}
	cs := m.leading()
	if m.word() == "syntax" {
		p.Syntax = m.syntax()
		p.Syntax.Comments = cs
		p.Syntax.InlineComment = m.inline()
		cs = m.leading()
	}
	if m.word() == "edition" {
		p.Edition = m.edition()
		p.Edition.Comments = cs
		p.Edition.InlineComment = m.inline()
		cs = m.leading()
	}
	for ; m.kind() != scanner.TEOF; cs = m.leading() {
		switch m.word() {
		case "import":
			s := m.imp()
			s.Comments, s.InlineComment = cs, m.inline()
			p.ProtoBody = append(p.ProtoBody, s)
		case "package":
			s := m.pkg()
			s.Comments, s.InlineComment = cs, m.inline()
			p.ProtoBody = append(p.ProtoBody, s)
		case "option":
			p.ProtoBody = append(p.ProtoBody, m.option(cs, true))
		case "message":
			p.ProtoBody = append(p.ProtoBody, m.message(cs))
		case "enum":
			p.ProtoBody = append(p.ProtoBody, m.enum(cs))
		case "service":
			p.ProtoBody = append(p.ProtoBody, m.service(cs))
		case "extend":
			p.ProtoBody = append(p.ProtoBody, m.extend(cs))
		default:
			p.ProtoBody = m.empty(p.ProtoBody, cs)
		}
	}
	p.ProtoBody = m.leftover(p.ProtoBody, cs)
	return p
}

func (m *model) empty(body []parser.Visitee, cs []*parser.Comment) []parser.Visitee {
	m.want(scanner.TSEMICOLON)
	m.feature("empty statement")
	body = m.leftover(body, cs)
	return append(body, &parser.EmptyStatement{InlineComment: m.inline()})
}

func unquote1(s string) string { return s[1 : len(s)-1] }

func (m *model) syntax() *parser.Syntax {
	m.feature("syntax")
	start := m.next()
	m.want(scanner.TEQUALS)
	if m.kind() != scanner.TSTRLIT {
		m.fail()
	}
	v := m.tok().Text
	if unquote1(v) != "proto2" && unquote1(v) != "proto3" {
		m.fail()
	}
	m.next()
	end := m.want(scanner.TSEMICOLON)
	return &parser.Syntax{ProtobufVersion: unquote1(v), ProtobufVersionQuote: v, Meta: m.meta(start, end)}
}

func (m *model) edition() *parser.Edition {
	m.feature("edition")
	start := m.next()
	m.want(scanner.TEQUALS)
	if m.kind() != scanner.TSTRLIT {
		m.fail()
	}
	v := m.tok().Text
	d := unquote1(v)
	if d == "" || d[0] == '0' || strings.Trim(d, dec) != "" {
		m.fail()
	}
	m.next()
	end := m.want(scanner.TSEMICOLON)
	return &parser.Edition{Edition: d, EditionQuote: v, Meta: m.meta(start, end)}
}

func (m *model) imp() *parser.Import {
	m.feature("import")
	start := m.next()
	s := &parser.Import{}
	switch m.word() {
	case "public":
		s.Modifier = parser.ImportModifierPublic
		m.next()
	case "weak":
		s.Modifier = parser.ImportModifierWeak
		m.next()
	}
	s.Location = m.want(scanner.TSTRLIT).Text
	s.Meta = m.meta(start, m.want(scanner.TSEMICOLON))
	return s
}

func (m *model) pkg() *parser.Package {
	m.feature("package")
	start := m.next()
	name := m.fullIdent()
	return &parser.Package{Name: name, Meta: m.meta(start, m.want(scanner.TSEMICOLON))}
}

func (m *model) fullIdent() string {
	var b strings.Builder
	b.WriteString(m.want(scanner.TIDENT).Text)
	for m.kind() == scanner.TDOT {
		m.next()
		b.WriteString(".")
		b.WriteString(m.want(scanner.TIDENT).Text)
	}
	return b.String()
}

func (m *model) messageType() string {
	if m.kind() == scanner.TDOT {
		m.next()
		return "." + m.fullIdent()
	}
	return m.fullIdent()
}

func (m *model) option(cs []*parser.Comment, comments bool) *parser.Option {
	m.feature("option")
	start := m.wantWord("option")
	o := &parser.Option{}
	o.OptionName, o.Constant = m.optionPair()
	o.Meta = m.meta(start, m.want(scanner.TSEMICOLON))
	if comments {
		o.Comments, o.InlineComment = cs, m.inline()
	}
	return o
}

func (m *model) optionPair() (name, constant string) {
	name = m.optionName()
	m.want(scanner.TEQUALS)
	var b strings.Builder
	m.value(&b)
	return name, b.String()
}

func (m *model) optionName() string {
	var b strings.Builder
	for {
		if m.kind() == scanner.TLEFTPAREN {
			m.next()
			b.WriteString("(")
			if !m.cfg.Strict && m.kind() == scanner.TDOT {
				m.feature("leading dot in option name")
				m.next()
				b.WriteString(".")
			}
			b.WriteString(m.fullIdent())
			m.want(scanner.TRIGHTPAREN)
			b.WriteString(")")
		} else {
			b.WriteString(m.want(scanner.TIDENT).Text)
		}
		if m.kind() != scanner.TDOT {
			return b.String()
		}
		m.next()
		b.WriteString(".")
	}
}

// value reads an option value.
func (m *model) value(b *strings.Builder) {
	m.enter()
	defer func() { m.depth-- }()
	switch m.kind() {
	case scanner.TLEFTCURLY:
		if m.cfg.Strict {
			m.fail()
		}
		m.feature("aggregate")
		m.aggregate(b)
	case scanner.TLEFTSQUARE:
		if m.cfg.Strict {
			m.fail()
		}
		m.feature("list value")
		m.next()
		b.WriteString("[")
		if m.kind() != scanner.TRIGHTSQUARE {
			m.value(b)
			for m.kind() == scanner.TCOMMA {
				m.next()
				b.WriteString(",")
				m.value(b)
			}
		}
		m.want(scanner.TRIGHTSQUARE)
		b.WriteString("]")
	default:
		m.scalar(b)
	}
}

func (m *model) scalar(b *strings.Builder) {
	switch m.kind() {
	case scanner.TSTRLIT:
		parts := []string{m.next().Text}
		for !m.cfg.Strict && m.kind() == scanner.TSTRLIT {
			parts = append(parts, m.next().Text)
		}
		if len(parts) > 1 {
			m.feature("adjacent strings")
			b.WriteString(Merge(parts))
		} else {
			b.WriteString(parts[0])
		}
	case scanner.TINTLIT, scanner.TFLOATLIT:
		b.WriteString(m.next().Text)
	case scanner.TIDENT:
		switch m.word() {
		case "true", "false", "inf", "nan":
			b.WriteString(m.next().Text)
		default:
			b.WriteString(m.fullIdent())
		}
	default:
		if s := m.tok().Text; s == "-" || s == "+" {
			b.WriteString(m.next().Text)
			switch {
			case m.kind() == scanner.TINTLIT, m.kind() == scanner.TFLOATLIT, m.word() == "inf", m.word() == "nan":
				b.WriteString(m.next().Text)
				return
			}
		}
		m.fail()
	}
}

// aggregate = "{" { ident ( ":" value | "{...}" ) [ "," | ";" ] } "}"; the first separator behind a
// message value may be doubled (";;" or ";,"), as the library tolerates.
func (m *model) aggregate(b *strings.Builder) {
	m.want(scanner.TLEFTCURLY)
	b.WriteString("{")
	if m.kind() == scanner.TRIGHTCURLY {
		m.next()
		b.WriteString("}")
		return
	}
	for {
		b.WriteString(m.want(scanner.TIDENT).Text)
		semi := false
		switch m.kind() {
		case scanner.TLEFTCURLY:
		case scanner.TCOLON:
			m.next()
			b.WriteString(":")
			semi = m.kind() == scanner.TLEFTCURLY
		default:
			m.fail()
		}
		m.value(b)
		if semi && m.kind() == scanner.TSEMICOLON {
			m.next()
			b.WriteString(";")
		}
		switch m.kind() {
		case scanner.TCOMMA, scanner.TSEMICOLON:
			b.WriteString(m.next().Text)
			if m.kind() == scanner.TRIGHTCURLY {
				m.next()
				b.WriteString("}")
				return
			}
		case scanner.TRIGHTCURLY:
			m.next()
			b.WriteString("}")
			return
		default:
			b.WriteString("\n")
		}
	}
}

func isCap(s string) bool { return s != "" && 'A' <= s[0] && s[0] <= 'Z' }

func (m *model) message(cs []*parser.Comment) *parser.Message {
	m.feature("message")
	start := m.next()
	s := &parser.Message{Comments: cs}
	s.MessageName = m.want(scanner.TIDENT).Text
	s.MessageBody, s.InlineCommentBehindLeftCurly = m.messageBody()
	s.Meta = m.meta(start, m.prev())
	s.InlineComment = m.inline()
	return s
}

func (m *model) messageBody() (body []parser.Visitee, behind *parser.Comment) {
	m.want(scanner.TLEFTCURLY)
	m.i-- // the limit is checked at the brace
	m.enter()
	m.i++
	defer func() { m.depth-- }()
	behind = m.inline()
	for {
		cs := m.leading()
		if m.kind() == scanner.TRIGHTCURLY {
			body = m.leftover(body, cs)
			m.blockEnd()
			return body, behind
		}
		switch m.word() {
		case "enum":
			body = append(body, m.enum(cs))
		case "message":
			body = append(body, m.message(cs))
		case "option":
			body = append(body, m.option(cs, true))
		case "oneof":
			body = append(body, m.oneof(cs))
		case "map":
			body = append(body, m.mapField(cs))
		case "extend":
			body = append(body, m.extend(cs))
		case "reserved":
			body = append(body, m.reserved(cs))
		case "extensions":
			body = append(body, m.extensions(cs))
		default:
			if m.kind() == scanner.TSEMICOLON {
				body = m.empty(body, cs)
				continue
			}
			body = append(body, m.field(cs, true))
		}
	}
}

// field reads a field, or a group where that is allowed.
func (m *model) field(cs []*parser.Comment, groups bool) parser.Visitee {
	start := m.tok()
	f := &parser.Field{Comments: cs}
	n := 0
	switch m.word() {
	case "repeated":
		f.IsRepeated, n = true, 1
	case "required":
		f.IsRequired, n = true, 1
	case "optional":
		f.IsOptional, n = true, 1
	}
	if groups && m.peek(n).Text == "group" && m.peek(n+1).Kind == scanner.TIDENT && isCap(m.peek(n+1).Text) &&
		m.peek(n+2).Kind == scanner.TEQUALS && m.peek(n+3).Kind == scanner.TINTLIT &&
		m.peek(n+4).Kind == scanner.TLEFTCURLY {
		m.feature("group")
		g := &parser.GroupField{IsRepeated: f.IsRepeated, IsRequired: f.IsRequired, IsOptional: f.IsOptional, Comments: cs}
		for k := 0; k < n+1; k++ {
			m.next()
		}
		g.GroupName = m.next().Text
		m.next()
		g.FieldNumber = m.next().Text
		g.MessageBody, g.InlineCommentBehindLeftCurly = m.messageBody()
		g.Meta = m.meta(start, m.prev())
		g.InlineComment = m.inline()
		return g
	}
	m.feature("field")
	if n == 1 {
		m.next()
	}
	f.Type, f.FieldName, f.FieldNumber, f.FieldOptions = m.fieldRest()
	f.Meta = m.meta(start, m.want(scanner.TSEMICOLON))
	f.InlineComment = m.inline()
	return f
}

var scalarTypes = map[string]bool{}
var keyTypes = map[string]bool{}

func init() {
	for _, t := range strings.Fields("int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string") {
		scalarTypes[t] = true
		keyTypes[t] = true
	}
	for _, t := range strings.Fields("double float bytes") {
		scalarTypes[t] = true
	}
}

func (m *model) fieldType() string {
	if scalarTypes[m.word()] {
		return m.next().Text
	}
	return m.messageType()
}

func (m *model) fieldRest() (typ, name, number string, opts []*parser.FieldOption) {
	typ = m.fieldType()
	name, number, opts = m.fieldTail()
	return
}

func (m *model) fieldTail() (name, number string, opts []*parser.FieldOption) {
	name = m.want(scanner.TIDENT).Text
	m.want(scanner.TEQUALS)
	number = m.want(scanner.TINTLIT).Text
	m.bracketOptions(func(n, c string) {
		opts = append(opts, &parser.FieldOption{OptionName: n, Constant: c})
	})
	return
}

func (m *model) bracketOptions(add func(name, constant string)) {
	if m.kind() != scanner.TLEFTSQUARE {
		return
	}
	m.feature("bracket options")
	m.next()
	for {
		add(m.optionPair())
		if m.kind() == scanner.TRIGHTSQUARE {
			m.next()
			return
		}
		m.want(scanner.TCOMMA)
	}
}

func (m *model) mapField(cs []*parser.Comment) *parser.MapField {
	m.feature("map")
	start := m.next()
	f := &parser.MapField{Comments: cs}
	m.want(scanner.TLESS)
	if !keyTypes[m.word()] {
		m.fail()
	}
	f.KeyType = m.next().Text
	m.want(scanner.TCOMMA)
	f.Type = m.fieldType()
	m.want(scanner.TGREATER)
	f.MapName, f.FieldNumber, f.FieldOptions = m.fieldTail()
	f.Meta = m.meta(start, m.want(scanner.TSEMICOLON))
	f.InlineComment = m.inline()
	return f
}

func (m *model) oneof(cs []*parser.Comment) *parser.Oneof {
	m.feature("oneof")
	start := m.next()
	o := &parser.Oneof{Comments: cs}
	o.OneofName = m.want(scanner.TIDENT).Text
	m.want(scanner.TLEFTCURLY)
	o.InlineCommentBehindLeftCurly = m.inline()
	for {
		cs := m.leading()
		switch {
		case m.kind() == scanner.TRIGHTCURLY:
			m.blockEnd()
			o.Meta = m.meta(start, m.prev())
			o.InlineComment = m.inline()
			return o
		case m.kind() == scanner.TSEMICOLON:
			m.feature("empty statement in oneof")
			m.next()
		case m.word() == "option":
			o.Options = append(o.Options, m.option(cs, true))
		default:
			f := &parser.OneofField{Comments: cs}
			start := m.tok()
			f.Type, f.FieldName, f.FieldNumber, f.FieldOptions = m.fieldRest()
			f.Meta = m.meta(start, m.want(scanner.TSEMICOLON))
			f.InlineComment = m.inline()
			o.OneofFields = append(o.OneofFields, f)
		}
	}
}

func (m *model) ranges() (out []*parser.Range) {
	for {
		r := &parser.Range{Begin: m.want(scanner.TINTLIT).Text}
		if m.word() == "to" {
			m.next()
			if m.kind() != scanner.TINTLIT && m.word() != "max" {
				m.fail()
			}
			r.End = m.next().Text
		}
		out = append(out, r)
		if m.kind() != scanner.TCOMMA {
			return out
		}
		m.next()
	}
}

func (m *model) reserved(cs []*parser.Comment) *parser.Reserved {
	m.feature("reserved")
	start := m.next()
	r := &parser.Reserved{Comments: cs}
	if m.kind() == scanner.TINTLIT {
		r.Ranges = m.ranges()
	} else {
		isName := func() bool { return m.kind() == scanner.TSTRLIT || m.kind() == scanner.TIDENT }
		for {
			if !isName() {
				m.fail()
			}
			r.FieldNames = append(r.FieldNames, m.next().Text)
			if m.kind() == scanner.TCOMMA {
				m.next()
			} else if !isName() { // names may follow each other without commas, as in protoc
				break
			}
		}
	}
	r.Meta = m.meta(start, m.want(scanner.TSEMICOLON))
	r.InlineComment = m.inline()
	return r
}

func (m *model) extensions(cs []*parser.Comment) *parser.Extensions {
	m.feature("extensions")
	start := m.next()
	e := &parser.Extensions{Comments: cs}
	e.Ranges = m.ranges()
	if m.kind() == scanner.TLEFTSQUARE {
		m.next()
		e.InlineCommentBehindLeftSquare = m.inline()
		for {
			cs := m.leading()
			d := m.declaration()
			d.Comments = cs
			d.InlineComment = m.inline()
			e.Declarations = append(e.Declarations, d)
			if m.kind() != scanner.TCOMMA && m.kind() != scanner.TRIGHTSQUARE {
				m.fail()
			}
			last := m.next()
			if d.InlineComment == nil {
				d.InlineComment = m.inline()
			}
			if last.Kind == scanner.TRIGHTSQUARE {
				break
			}
		}
	}
	e.Meta = m.meta(start, m.want(scanner.TSEMICOLON))
	e.InlineComment = m.inline()
	return e
}

func (m *model) declaration() *parser.Declaration {
	m.feature("declaration")
	d := &parser.Declaration{}
	start := m.wantWord("declaration")
	m.want(scanner.TEQUALS)
	m.want(scanner.TLEFTCURLY)
	d.InlineCommentBehindLeftCurly = m.inline()
	seen := map[string]bool{}
	for m.kind() != scanner.TRIGHTCURLY {
		if m.kind() == scanner.TCOMMA && len(seen) > 0 {
			m.next()
		}
		key := m.word()
		if seen[key] {
			m.fail()
		}
		seen[key] = true
		boolean := func() bool {
			m.next()
			m.want(scanner.TCOLON)
			if m.word() != "true" && m.word() != "false" {
				m.fail()
			}
			return m.next().Text == "true"
		}
		literal := func(k scanner.Token) string {
			m.next()
			m.want(scanner.TCOLON)
			return m.want(k).Text
		}
		switch key {
		case "number":
			d.Number = literal(scanner.TINTLIT)
		case "full_name":
			d.FullName = literal(scanner.TSTRLIT)
		case "type":
			d.Type = literal(scanner.TSTRLIT)
		case "repeated":
			d.Repeated = boolean()
		case "reserved":
			d.Reserved = boolean()
		default:
			m.fail()
		}
	}
	d.Meta = m.meta(start, m.next())
	return d
}

func (m *model) enum(cs []*parser.Comment) *parser.Enum {
	m.feature("enum")
	start := m.next()
	e := &parser.Enum{Comments: cs}
	e.EnumName = m.want(scanner.TIDENT).Text
	m.want(scanner.TLEFTCURLY)
	e.InlineCommentBehindLeftCurly = m.inline()
	for {
		cs := m.leading()
		switch {
		case m.kind() == scanner.TRIGHTCURLY:
			e.EnumBody = m.leftover(e.EnumBody, cs)
			m.blockEnd()
			e.Meta = m.meta(start, m.prev())
			e.InlineComment = m.inline()
			return e
		case m.kind() == scanner.TSEMICOLON:
			e.EnumBody = m.empty(e.EnumBody, cs)
		case m.word() == "option":
			e.EnumBody = append(e.EnumBody, m.option(cs, true))
		case m.word() == "reserved":
			e.EnumBody = append(e.EnumBody, m.reserved(cs))
		default:
			m.feature("enum field")
			f := &parser.EnumField{Comments: cs}
			start := m.want(scanner.TIDENT)
			f.Ident = start.Text
			m.want(scanner.TEQUALS)
			if m.kind() == scanner.TMINUS {
				f.Number = m.next().Text
			}
			f.Number += m.want(scanner.TINTLIT).Text
			m.bracketOptions(func(n, c string) {
				f.EnumValueOptions = append(f.EnumValueOptions, &parser.EnumValueOption{OptionName: n, Constant: c})
			})
			f.Meta = m.meta(start, m.want(scanner.TSEMICOLON))
			f.InlineComment = m.inline()
			e.EnumBody = append(e.EnumBody, f)
		}
	}
}

func (m *model) extend(cs []*parser.Comment) *parser.Extend {
	m.feature("extend")
	start := m.next()
	e := &parser.Extend{Comments: cs}
	e.MessageType = m.messageType()
	m.want(scanner.TLEFTCURLY)
	e.InlineCommentBehindLeftCurly = m.inline()
	for {
		cs := m.leading()
		switch m.kind() {
		case scanner.TRIGHTCURLY:
			e.ExtendBody = m.leftover(e.ExtendBody, cs)
			m.blockEnd()
			e.Meta = m.meta(start, m.prev())
			e.InlineComment = m.inline()
			return e
		case scanner.TSEMICOLON:
			e.ExtendBody = m.empty(e.ExtendBody, cs)
		default:
			e.ExtendBody = append(e.ExtendBody, m.field(cs, false))
		}
	}
}

func (m *model) service(cs []*parser.Comment) *parser.Service {
	m.feature("service")
	start := m.next()
	s := &parser.Service{Comments: cs}
	s.ServiceName = m.want(scanner.TIDENT).Text
	m.want(scanner.TLEFTCURLY)
	s.InlineCommentBehindLeftCurly = m.inline()
	for {
		cs := m.leading()
		switch {
		case m.kind() == scanner.TRIGHTCURLY:
			s.ServiceBody = m.leftover(s.ServiceBody, cs)
			m.blockEnd()
			s.Meta = m.meta(start, m.prev())
			s.InlineComment = m.inline()
			return s
		case m.word() == "option":
			s.ServiceBody = append(s.ServiceBody, m.option(cs, true))
		case m.word() == "rpc":
			s.ServiceBody = append(s.ServiceBody, m.rpc(cs))
		default:
			s.ServiceBody = m.empty(s.ServiceBody, cs)
		}
	}
}

func (m *model) rpc(cs []*parser.Comment) *parser.RPC {
	m.feature("rpc")
	first := m.i
	start := m.next()
	r := &parser.RPC{Comments: cs}
	r.RPCName = m.want(scanner.TIDENT).Text
	side := func() (bool, string, meta.Meta) {
		open := m.want(scanner.TLEFTPAREN)
		stream := m.word() == "stream"
		if stream {
			m.feature("stream")
			m.next()
		}
		typ := m.messageType()
		return stream, typ, m.meta(open, m.want(scanner.TRIGHTPAREN))
	}
	r.RPCRequest = &parser.RPCRequest{}
	r.RPCRequest.IsStream, r.RPCRequest.MessageType, r.RPCRequest.Meta = side()
	m.wantWord("returns")
	r.RPCResponse = &parser.RPCResponse{}
	r.RPCResponse.IsStream, r.RPCResponse.MessageType, r.RPCResponse.Meta = side()
	for k := first + 1; k <= m.i; k++ {
		for _, c := range m.Coms[k] {
			r.EmbeddedComments = append(r.EmbeddedComments, m.comment(c))
		}
	}
	switch m.kind() {
	case scanner.TSEMICOLON:
		m.next()
	case scanner.TLEFTCURLY:
		m.feature("rpc body")
		m.next()
		r.InlineCommentBehindLeftCurly = m.inline()
	body:
		for {
			switch {
			case m.kind() == scanner.TRIGHTCURLY:
				m.blockEnd()
				break body
			case m.kind() == scanner.TSEMICOLON:
				m.feature("empty statement in rpc")
				m.next()
			default:
				r.Options = append(r.Options, m.option(nil, false))
			}
		}
	default:
		m.fail()
	}
	r.Meta = m.meta(start, m.prev())
	r.InlineComment = m.inline()
	return r
}
