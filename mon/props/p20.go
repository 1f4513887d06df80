package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"

	"verif/mon/dump"
	"verif/mon/gen"
	"verif/mon/ref"
)

// P20: statements alone, in a file and next to any neighbour.

// entry maps a node type to the entry point that parses it.
var entry = map[string]func(p *parser.Parser) (parser.Visitee, error){
	"*parser.Import":      func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseImport()) },
	"*parser.Package":     func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParsePackage()) },
	"*parser.Option":      func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseOption()) },
	"*parser.Message":     func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseMessage()) },
	"*parser.Enum":        func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseEnum()) },
	"*parser.Service":     func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseService()) },
	"*parser.Extend":      func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseExtend()) },
	"*parser.Field":       func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseField()) },
	"*parser.MapField":    func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseMapField()) },
	"*parser.GroupField":  func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseGroupField()) },
	"*parser.Oneof":       func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseOneof()) },
	"*parser.Reserved":    func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseReserved()) },
	"*parser.Extensions":  func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseExtensions()) },
	"*parser.Declaration": func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseDeclaration()) },
	"*parser.Syntax":      func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseSyntax()) },
	"*parser.Edition":     func(p *parser.Parser) (parser.Visitee, error) { return via(p.ParseEdition()) },
}

func via[T any](x *T, err error) (parser.Visitee, error) {
	if x == nil {
		return nil, err
	}
	return any(x).(parser.Visitee), err
}

// shifted is a deep copy of v with every position mapped by f.
func shifted(v reflect.Value, f func(meta.Position) meta.Position) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(shifted(v.Elem(), f))
		}
	case reflect.Pointer:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(shifted(v.Elem(), f))
		}
	case reflect.Struct:
		if p, ok := v.Interface().(meta.Position); ok {
			out.Set(reflect.ValueOf(f(p)))
			break
		}
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out.Field(i).Set(shifted(v.Field(i), f))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(shifted(v.Index(i), f))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// bare drops the comments that the caller of an entry point attaches.
func bare(v parser.Visitee) {
	e := reflect.ValueOf(v).Elem()
	for _, n := range []string{"Comments", "InlineComment"} {
		if f := e.FieldByName(n); f.IsValid() {
			f.Set(reflect.Zero(f.Type()))
		}
	}
}

func (c *Ctx) newParser(src string, o Opts) (*lexer.Lexer, *parser.Parser) {
	l := lexer.NewLexer(strings.NewReader(src), lexer.WithFilename(o.Filename))
	return l, parser.NewParser(l, parser.WithPermissive(!o.Strict), parser.WithBodyIncludingComments(o.Body))
}

// keyword is the word with which alone an entry point can start.
var keyword = map[string]string{"*parser.Import": "import", "*parser.Package": "package", "*parser.Option": "option", "*parser.Message": "message", "*parser.Enum": "enum",
	"*parser.Service": "service", "*parser.Extend": "extend", "*parser.MapField": "map", "*parser.Oneof": "oneof", "*parser.Reserved": "reserved",
	"*parser.Extensions": "extensions", "*parser.Declaration": "declaration"}

var keywordTypes = func() (l []string) {
	for k := range keyword {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}()

// foreign calls an entry point where a statement of another kind stands.
func (c *Ctx) foreign(src string, n *node, o Opts) {
	if n.meta == nil || n.typ == "*parser.Comment" {
		return
	}
	typ := keywordTypes[c.Intn(len(keywordTypes))]
	text := src[n.meta.Pos.Offset:]
	if len(text) > 300 {
		text = text[:300]
	}
	if ref.Scan(text, 0, 0).Text == keyword[typ] {
		return
	}
	c.input = text
	_, p := c.newParser(text, o)
	if got, err := entry[typ](p); err == nil || got != nil {
		c.Fail("the entry point for %s reads %q: %v, %v", typ, clip(text, 60), got, err)
	} else if metaError(err) == nil {
		c.Fail("the entry point for %s gives the error %v (%T)", typ, err, err)
	}
	c.Event("foreign calls", 1)
}

// alone parses the text of one node by its entry point, with something behind it.
func (c *Ctx) alone(src string, n *node, o Opts) {
	call := entry[n.typ]
	if call == nil || n.meta == nil {
		return
	}
	from, to := n.meta.Pos, n.meta.LastPos.Offset
	if from.Offset < 0 || to < from.Offset || len(src) <= to {
		c.Fail("%s has the extent %d to %d", n.typ, from.Offset, to)
	}
	text := src[from.Offset : to+1]
	behind := []string{"", "\n", " \t", "message Next { int32 a = 1; }", "\nimport \"z\";", "}", "\x00", " \"unterminated", "/* unterminated", "/**/ x", "=", "1", ".5", "é", "//c"}
	if o.Strict || text[len(text)-1] == ';' || n.typ == "*parser.Declaration" {
		behind = append(behind, ";", ";;", " ;x")
	}
	tail := behind[c.Intn(len(behind))]
	pad := []string{"", " ", "\n", "\t\n  ", "\u00a0"}[c.Intn(5)]
	in := pad + text + tail
	c.input = in
	l, p := c.newParser(in, o)
	got, err := call(p)
	if err != nil || got == nil {
		c.Fail("%s alone is rejected: %v", n.typ, err)
	}
	padLines := strings.Count(pad, "\n")
	padCol := len([]rune(pad[strings.LastIndex(pad, "\n")+1:]))
	move := func(p meta.Position) meta.Position {
		if p.Line == from.Line {
			p.Column += padCol - (from.Column - 1)
		}
		p.Line += padLines - (from.Line - 1)
		p.Offset += len(pad) - from.Offset
		return p
	}
	want := shifted(reflect.ValueOf(n.v), move).Interface().(parser.Visitee)
	bare(want)
	if d := same(want, got, dump.All); d != "" {
		c.Fail("%s alone differs from the one in its file (wanted != got): %s", n.typ, d)
	}
	// What follows is untouched.
	l.NextLit()
	t := ref.Scan(in, len(pad)+len(text), scanner.ScanLit)
	if l.Pos.Position != ref.NewLines(in, o.Filename).At(t.Start) || !t.Bad && (l.Token != t.Kind || l.Text != t.Text) {
		c.Fail("behind %s the next token is %q at %+v instead of %q at %d", n.typ, l.Text, l.Pos.Position, t.Text, t.Start)
	}
	c.Event("alone "+n.typ, 1)
}

// replay reads the statements of a sequence one by one through the entry points, as their kinds tell, and attaches
// comments as the whole-file parse documents.
type commented interface {
	parser.HasInlineCommentSetter
	parser.Visitee
}

func setComments(v parser.Visitee, cs []*parser.Comment) {
	if f := reflect.ValueOf(v).Elem().FieldByName("Comments"); f.IsValid() {
		f.Set(reflect.ValueOf(cs))
	}
}

// idle makes calls that must not consume anything. next is the word that comes next.
func (c *Ctx) idle(l *lexer.Lexer, p *parser.Parser, src string, end bool) {
	for c.Intn(3) == 0 {
		switch c.Intn(5) {
		case 0:
			if p.IsEOF() != end {
				c.Fail("IsEOF is %v", !end)
			}
		case 1:
			if x := p.ParseComments(); len(x) != 0 {
				c.Fail("more comments than before: %q", x[0].Raw)
			}
		case 2:
			l.Peek()
		case 3:
			if end || l.Peek() != scanner.TIDENT {
				continue
			}
			l.NextKeyword()
			k := l.Token
			l.UnNext()
			if k != scanner.TSYNTAX && k != scanner.TEDITION {
				if s, err := p.ParseSyntax(); s != nil || err != nil {
					c.Fail("a syntax statement out of nowhere: %v %v", s, err)
				}
				if s, err := p.ParseEdition(); s != nil || err != nil {
					c.Fail("an edition statement out of nowhere: %v %v", s, err)
				}
			}
		case 4:
			l.PeekN(1 + c.Intn(4))
		}
		c.Event("idle calls", 1)
	}
}

// statements calls the entry points for the wanted statements and returns what they give.
func (c *Ctx) statements(l *lexer.Lexer, p *parser.Parser, src string, want []parser.Visitee) (out []parser.Visitee, trailing []*parser.Comment) {
	for i, w := range want {
		if _, ok := w.(*parser.Comment); ok {
			continue
		}
		cs := p.ParseComments()
		c.idle(l, p, src, false)
		var got parser.Visitee
		if _, ok := w.(*parser.EmptyStatement); ok {
			if err := l.ReadEmptyStatement(); err != nil {
				c.Fail("no empty statement as statement %d: %v", i, err)
			}
			got = &parser.EmptyStatement{}
		} else {
			call := entry[fmt.Sprintf("%T", w)]
			if call == nil {
				c.Fail("no entry point for %T", w)
			}
			x, err := call(p)
			if err != nil || x == nil {
				c.Fail("statement %d (%T): %v", i, w, err)
			}
			setComments(x, cs)
			got = x
		}
		p.MaybeScanInlineComment(got.(commented))
		out = append(out, got)
		c.Event("statements in sequence", 1)
	}
	trailing = p.ParseComments()
	return out, trailing
}

func (c *Ctx) sequence(src string, o Opts, tree *parser.Proto) {
	if strings.HasPrefix(src, "\ufeff") {
		return
	}
	c.input = src
	l, p := c.newParser(src, o)
	var want, got []parser.Visitee
	if tree.Syntax != nil {
		want = append(want, tree.Syntax)
	} else if c.Intn(2) == 0 {
		cs := p.ParseComments()
		if s, err := p.ParseSyntax(); s != nil || err != nil {
			c.Fail("a syntax statement out of nowhere: %v %v", s, err)
		}
		if len(cs) > 0 { // they are gone: start again
			l, p = c.newParser(src, o)
		}
	}
	if tree.Edition != nil {
		want = append(want, tree.Edition)
	}
	want = append(want, tree.ProtoBody...)
	got, _ = c.statements(l, p, src, want)
	c.idle(l, p, src, true)
	if !p.IsEOF() {
		c.Fail("something is left behind the last statement")
	}
	if d := same(want, got, dump.All); d != "" {
		c.Fail("the statements read one by one differ from the file's (file != read): %s", d)
	}
}

// body does the same for the statements of a message.
func (c *Ctx) body(src string, o Opts, n *node) {
	var want []parser.Visitee
	var inline *parser.Comment
	switch x := n.v.(type) {
	case *parser.Message:
		want, inline = x.MessageBody, x.InlineCommentBehindLeftCurly
	case *parser.GroupField:
		want, inline = x.MessageBody, x.InlineCommentBehindLeftCurly
	case *parser.Extend:
		want, inline = x.ExtendBody, x.InlineCommentBehindLeftCurly
	default:
		return
	}
	start := n.meta.Pos.Offset
	for {
		t := ref.Scan(src, start, scanner.ScanNumberLit)
		start = t.End
		if t.Kind == scanner.TLEFTCURLY {
			break
		}
		if t.Kind == scanner.TEOF {
			c.Fail("no body")
		}
	}
	if inline != nil {
		start = inline.Meta.Pos.Offset + len(inline.Raw)
	}
	text := src[start : n.meta.LastPos.Offset+1]
	c.input = text
	l, p := c.newParser(text, o)
	got, _ := c.statements(l, p, text, want)
	l.Next()
	if l.Token != scanner.TRIGHTCURLY {
		c.Fail("behind the last statement of the body is %q", l.Text)
	}
	at := ref.NewLines(src, o.Filename).At(start)
	want = shifted(reflect.ValueOf(want), func(p meta.Position) meta.Position {
		if p.Line == at.Line {
			p.Column -= at.Column - 1
		}
		p.Line -= at.Line - 1
		p.Offset -= at.Offset
		return p
	}).Interface().([]parser.Visitee)
	if d := same(want, got, dump.All); d != "" {
		c.Fail("the statements of a %s read one by one differ from those in their file (file != read): %s", n.typ, d)
	}
	c.Event("bodies in sequence", 1)
}

// joined parses two files one after the other.
func (c *Ctx) joined(a string, ta *parser.Proto, o Opts) {
	end := 0
	for _, n := range inventory(ta) {
		if n.parent.parent == nil {
			if n.meta != nil && n.typ != "*parser.Comment" {
				end = max(end, n.meta.LastPos.Offset+1)
			}
		}
	}
	if end == 0 {
		return
	}
	for _, v := range ta.ProtoBody {
		if _, ok := v.(*parser.EmptyStatement); ok { // without a position
			end = len(a)
		}
	}
	if end == len(a) {
		if _, coms := ref.Tokens(a); len(coms[len(coms)-1]) > 0 {
			return
		}
	}
	a = a[:end] + "\n"
	ta, err := c.parse(a, o)
	if err != nil {
		c.Fail("a file cut behind its last statement is rejected: %v", err)
	}
	b := c.layoutSource(true)
	if c.Intn(4) == 0 {
		b = a
	}
	toks, _ := ref.Tokens(b)
	switch toks[0].Text {
	case "syntax", "edition", ";", "\ufeff":
		b = "package p;" + b
		if toks[0].Text != ";" {
			return
		}
	}
	tb, err := c.parse(b, o)
	if err != nil {
		return
	}
	t, err := c.parse(a+b, o)
	if err != nil {
		c.Fail("the concatenation of two conforming files is rejected: %v", err)
	}
	lines := strings.Count(a, "\n")
	want := append(ta.ProtoBody[:len(ta.ProtoBody):len(ta.ProtoBody)], shifted(reflect.ValueOf(tb.ProtoBody), func(p meta.Position) meta.Position {
		p.Line += lines
		p.Offset += len(a)
		return p
	}).Interface().([]parser.Visitee)...)
	if d := same(want, t.ProtoBody, dump.All); d != "" {
		c.Fail("the concatenation of two files (the second starts at %d) differs from their statements (parts != whole): %s", len(a), d)
	}
	if d := same(ta.Syntax, t.Syntax, dump.All) + same(ta.Edition, t.Edition, dump.All); d != "" {
		c.Fail("the concatenation has another syntax or edition: %s", d)
	}
	c.Event("concatenations", 1)
}

func p20run(c *Ctx) {
	src := c.layoutSource(true)
	if c.Intn(8) == 0 {
		src = strings.ToValidUTF8(c.source(true), "?")
	}
	if c.Index < len(kitchens)*4 {
		src = gen.Render(c.Rand, strings.Fields(kitchens[c.Index%len(kitchens)]), gen.RandLayout(c.Rand, true))
	}
	c.p20one(src)
	for i := 0; c.session == nil && i < 5; i++ { // statements next to near copies of themselves
		toks := gen.Small(c.Rand, c.Intn(3) != 0)
		if i == 0 {
			toks = c.file(c.Intn(3) != 0).Toks
		}
		for n := 1 + c.Intn(5); n > 0; n-- {
			toks = gen.Echo(c.Rand, toks)
		}
		c.Event("files of near copies", 1)
		c.p20one(strings.ToValidUTF8(gen.Render(c.Rand, toks, gen.RandLayout(c.Rand, c.Intn(2) == 0)), "?"))
	}
}

func (c *Ctx) p20one(src string) {
	o := Opts{Strict: c.Intn(4) == 0, Body: c.Intn(3) == 0, Filename: filenames[c.Intn(3)]}
	tree, err := c.parse(src, o)
	if err != nil {
		return
	}
	for _, n := range inventory(tree) {
		c.alone(src, n, o)
		c.foreign(src, n, o)
		if !o.Body {
			c.body(src, o, n)
		}
	}
	if !o.Body {
		c.sequence(src, o, tree)
	}
	c.input = src
	c.joined(src, tree, o)
	c.Eval(true, src)
}

func init() {
	min := map[string]int64{"concatenations": 200, "files of near copies": 8000, "statements in sequence": 5000, "bodies in sequence": 500, "idle calls": 1000, "foreign calls": 5000}
	for k := range entry {
		min["alone "+k] = 100
	}
	register(&Prop{ID: "P20", Guided: true, First: func() int { return len(kitchens) * 4 }, Cases: scale(4000, 120000), Run: p20run, MinNontrivial: 1500, MinEvents: min,
		Rule: "each statement of a generated file, at every level, is parsed alone by its entry point with varied text around it; files and message bodies are read statement by statement through one parser with calls that must not consume in between; pairs of files are concatenated; nodes with positions and comments and the following token are compared; non-trivial = a distinct conforming file"})
}
