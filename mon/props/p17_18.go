package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"

	"verif/mon/gen"
	"verif/mon/ref"
)

// P17: string constants.

var charPieces = strings.Split("a|b|0|7|8|9|f|F|x|X|n| |;|}|,|//|/*|*/|é|日|😀|\t|\u00a0|#|%s|\\n|\\t|\\\\|\\'|\\\"|\\a|\\b|\\f|\\r|\\v|\\?|\\x1|\\xf|\\x1f|\\XAB|\\x7|\\0|\\1|\\7|\\12|\\77|\\377|\\101|\\000|\\0|\\x0|$|&|\\\\\\\\", "|")

// literal draws a literal of the quote style q.
func (c *Ctx) literal(q string) string {
	var b strings.Builder
	b.WriteString(q)
	n := c.Intn(6)
	if c.Intn(40) == 0 {
		n = 300
	}
	for ; n > 0; n-- {
		switch c.Intn(6) {
		case 0:
			if q == `"` {
				b.WriteString("'")
			} else {
				b.WriteString(`"`)
			}
		case 1:
			b.WriteString("\\" + q)
		default:
			b.WriteString(charPieces[c.Intn(len(charPieces))])
		}
	}
	b.WriteString(q)
	return b.String()
}

// slots are the places of a string constant; %s stands for it. dig finds the constant in the tree.
var slots = []struct {
	name, src string
	dig       func(p *parser.Proto) string
	merges    bool
}{
	{"option", `option a = %s ;`, func(p *parser.Proto) string { return p.ProtoBody[0].(*parser.Option).Constant }, true},
	{"message option", `message M { option (a.b).c = %s ; }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Option).Constant
	}, true},
	{"field option", `message M { string a = 1 [ x = 1 , y = %s , z = 2 ] ; }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Field).FieldOptions[1].Constant
	}, true},
	{"map field option", `message M { map < string , X > a = 1 [ y = %s ] ; }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.MapField).FieldOptions[0].Constant
	}, true},
	{"oneof field option", `message M { oneof o { string a = 1 [ y = %s ] ; } }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Oneof).OneofFields[0].FieldOptions[0].Constant
	}, true},
	{"oneof option", `message M { oneof o { option a = %s ; } }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Message).MessageBody[0].(*parser.Oneof).Options[0].Constant
	}, true},
	{"enum value option", `enum E { A = 0 [ ( x ) = %s ] ; }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Enum).EnumBody[0].(*parser.EnumField).EnumValueOptions[0].Constant
	}, true},
	{"enum option", `enum E { option a = %s ; A = 0 ; }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Enum).EnumBody[0].(*parser.Option).Constant
	}, true},
	{"service option", `service S { option a = %s ; }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.Option).Constant
	}, true},
	{"method option", `service S { rpc A ( B ) returns ( C ) { option a = %s ; } }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Service).ServiceBody[0].(*parser.RPC).Options[0].Constant
	}, true},
	{"extension field option", `extend X { string a = 1 [ y = %s ] ; }`, func(p *parser.Proto) string {
		return p.ProtoBody[0].(*parser.Extend).ExtendBody[0].(*parser.Field).FieldOptions[0].Constant
	}, true},
	{"list", `option a = [ %s ] ;`, func(p *parser.Proto) string {
		s := p.ProtoBody[0].(*parser.Option).Constant
		return strings.TrimSuffix(strings.TrimPrefix(s, "["), "]")
	}, true},
	{"second list element", `option a = [ 1 , %s ] ;`, func(p *parser.Proto) string {
		s := p.ProtoBody[0].(*parser.Option).Constant
		return strings.TrimSuffix(strings.TrimPrefix(s, "[1,"), "]")
	}, true},
	{"aggregate", `option a = { k : %s } ;`, func(p *parser.Proto) string {
		s := p.ProtoBody[0].(*parser.Option).Constant
		return strings.TrimSuffix(strings.TrimPrefix(s, "{k:"), "}")
	}, true},
	{"nested aggregate", `option a = { j { k : [ %s ] } } ;`, func(p *parser.Proto) string {
		s := p.ProtoBody[0].(*parser.Option).Constant
		return strings.TrimSuffix(strings.TrimPrefix(s, "{j{k:["), "]}}")
	}, true},
	{"import", `import %s ;`, func(p *parser.Proto) string { return p.ProtoBody[0].(*parser.Import).Location }, false},
	{"public import", `import public %s ;`, func(p *parser.Proto) string { return p.ProtoBody[0].(*parser.Import).Location }, false},
	{"second import", `import "a" ; import weak %s ;`, func(p *parser.Proto) string { return p.ProtoBody[1].(*parser.Import).Location }, false},
}

func p17run(c *Ctx) {
	for i := 0; i < 12; i++ {
		slot := slots[c.Intn(len(slots))]
		n := 1
		if slot.merges && c.Intn(3) != 0 {
			n = 2 + c.Intn(3)
		}
		var parts []string
		for k := 0; k < n; k++ {
			parts = append(parts, c.literal([]string{`"`, `'`}[c.Intn(2)]))
		}
		c.strings(slot.name, slot.src, slot.dig, parts)
	}
	// The lexer's own entry point.
	var parts []string
	for k := 1 + c.Intn(4); k > 0; k-- {
		parts = append(parts, c.literal([]string{`"`, `'`}[c.Intn(2)]))
	}
	gap := []string{"", " ", "\n", "/*c*/", "//x\n"}[c.Intn(5)]
	src := gap + strings.Join(parts, gap) + gap + ";"
	c.input = src
	for _, permissive := range []bool{true, false} {
		l := lexer.NewLexer(strings.NewReader(src))
		got, pos, err := l.ReadConstant(permissive)
		if err != nil {
			c.Fail("ReadConstant(%v): %v", permissive, err)
		}
		if pos.Offset != len(gap) {
			c.Fail("ReadConstant(%v): position %+v", permissive, pos)
		}
		if permissive {
			c.merged("ReadConstant", parts, got)
		} else if got != parts[0] {
			c.Fail("ReadConstant in strict mode gives %q for %q", got, parts[0])
		}
		l.NextStrLit()
		next := ";"
		if !permissive && len(parts) > 1 {
			next = parts[1]
		}
		if l.Text != next {
			c.Fail("ReadConstant(%v) is followed by %q instead of %q", permissive, l.Text, next)
		}
		c.Event("constants read by the lexer", 1)
	}
}

func (c *Ctx) strings(name, tmpl string, dig func(*parser.Proto) string, parts []string) {
	i := strings.Index(tmpl, "%s")
	toks := strings.Fields(tmpl[:i])
	toks = append(append(toks, parts...), strings.Fields(tmpl[i+2:])...)
	src := gen.Render(c.Rand, toks, gen.RandLayout(c.Rand, c.Intn(2) == 0))
	get := func(p *parser.Proto) (s string) {
		defer func() {
			if r := recover(); r != nil {
				c.Fail("%s: no such constant in the tree: %v", name, r)
			}
		}()
		return dig(p)
	}
	p, err := c.parse(src, Opts{Default: c.Intn(2) == 0})
	if err != nil {
		c.Fail("%s: rejected in permissive mode: %v", name, err)
	}
	c.merged(name, parts, get(p))
	strict, err := c.parse(src, Opts{Strict: true})
	aggregate := strings.Contains(tmpl, "= [ ") || strings.Contains(tmpl, "= { ")
	switch {
	case aggregate || len(parts) > 1:
		if err == nil {
			c.Fail("%s: accepted in strict mode", name)
		}
	case err != nil:
		c.Fail("%s: a single literal is rejected in strict mode: %v", name, err)
	default:
		if s := get(strict); s != parts[0] {
			c.Fail("%s: %q instead of %q in strict mode", name, s, parts[0])
		}
	}
	c.Event("slot "+name, 1)
	c.Eval(true, name+"\x00"+strings.Join(parts, "\x00"))
}

// merged checks a constant against the literals it was made of.
func (c *Ctx) merged(name string, parts []string, got string) {
	if len(parts) == 1 {
		if got != parts[0] {
			c.Fail("%s: the constant is %q instead of %q", name, got, parts[0])
		}
		c.Event("exact texts", 1)
		return
	}
	if toks, _ := ref.Tokens(got); len(toks) != 2 || toks[0].Kind != scanner.TSTRLIT || toks[0].End != len(got) {
		c.Fail("%s: %q is merged to %q, which is not one literal", name, parts, got)
	}
	if got[0] != parts[0][0] {
		c.Fail("%s: %q is merged to %q in another quote style", name, parts, got)
	}
	var want []byte
	mixed := false
	for _, p := range parts {
		v, ok := ref.Decode(p)
		if !ok {
			c.Fail("the generator made a literal without a value: %q", p)
		}
		want = append(want, v...)
		mixed = mixed || p[0] != parts[0][0]
	}
	v, ok := ref.Decode(got)
	if !ok || !bytes.Equal(v, want) {
		c.Fail("%s: %q has the value %q; merged to %q it has %q", name, parts, want, got, v)
	}
	c.Event("merged values", 1)
	if mixed {
		c.Event("merged values of mixed quote styles", 1)
	}
}

// P18: errors.

func p18run(c *Ctx) {
	c.texts(8, func(src string) {
		if !gen.Valid(src) {
			src = strings.ToValidUTF8(src, "\ufffd")
		}
		o := Opts{Strict: c.Intn(4) == 0, Body: c.Intn(2) == 0, Filename: filenames[c.Intn(len(filenames))]}
		c.entryErrors(src, o)
		_, err := c.parse(src, o)
		if err == nil {
			return
		}
		r := ref.Parse(src, o.ref())
		if r.OK() {
			c.Event("rejected, but accepted by the reference", 1)
			return
		}
		c.located(err, src, o, r)
	})
}

// contexts are the texts behind which the statement of an entry point can stand, by its first word.
var contexts = map[string][]struct{ typ, pre string }{
	"import":      {{"*parser.Import", ""}},
	"package":     {{"*parser.Package", ""}},
	"service":     {{"*parser.Service", ""}},
	"option":      {{"*parser.Option", ""}, {"*parser.Option", "message A {\n"}, {"*parser.Option", "enum A {\n"}, {"*parser.Option", "service A {\n"}},
	"message":     {{"*parser.Message", ""}, {"*parser.Message", "message A {\n"}},
	"enum":        {{"*parser.Enum", ""}, {"*parser.Enum", "message A {\n"}},
	"extend":      {{"*parser.Extend", ""}, {"*parser.Extend", "message A {\n"}},
	"map":         {{"*parser.MapField", "message A {\n"}},
	"oneof":       {{"*parser.Oneof", "message A {\n"}},
	"reserved":    {{"*parser.Reserved", "message A {\n"}},
	"extensions":  {{"*parser.Extensions", "message A {\n"}},
	"declaration": {{"*parser.Declaration", "message A { extensions 1 [\n"}},
	"group":       {{"*parser.GroupField", "message A {\n"}},
	"repeated":    {{"*parser.Field", "message A {\n"}},
	"required":    {{"*parser.Field", "message A {\n"}},
	"optional":    {{"*parser.Field", "message A {\n"}},
}

// groupHeader finds the token at which the header of a group goes wrong; ok tells whether the header ends in "{".
func groupHeader(toks []ref.Tok) (bad int, ok bool) {
	i := 0
	if t := toks[0].Text; t == "repeated" || t == "required" || t == "optional" {
		i++
	}
	if toks[i].Text != "group" {
		return i, false
	}
	i++
	if t := toks[i]; t.Kind != scanner.TIDENT || t.Text[0] < 'A' || 'Z' < t.Text[0] {
		return i, false
	}
	i++
	if toks[i].Kind != scanner.TEQUALS {
		return i, false
	}
	i++
	if toks[i].Kind != scanner.TINTLIT {
		return i, false
	}
	i++
	return i, toks[i].Kind == scanner.TLEFTCURLY
}

// entryErrors judges the errors of the entry points for single statements on what stands in src.
func (c *Ctx) entryErrors(src string, o Opts) {
	if c.Intn(3) == 0 {
		return
	}
	toks, _ := ref.Tokens(src)
	var starts []int
	for i, t := range toks {
		if i == 0 || strings.Contains("; { } [ ,", toks[i-1].Text) {
			if contexts[t.Text] != nil {
				starts = append(starts, i)
			}
		}
	}
	for n := 0; n < 2 && len(starts) > 0; n++ {
		i := starts[c.Intn(len(starts))]
		word := toks[i].Text
		cs := contexts[word]
		x := cs[c.Intn(len(cs))]
		if x.typ == "*parser.Field" && i+1 < len(toks) && toks[i+1].Text == "group" {
			x.typ = "*parser.GroupField"
		}
		text := src[toks[i].Start:]
		if len(text) > 400 {
			text = strings.ToValidUTF8(text[:400], "")
		}
		c.entryError(x.typ, x.pre, text, o)
	}
}

func (c *Ctx) entryError(typ, pre, text string, o Opts) {
	r := ref.Parse(pre+text, o.ref())
	if r.OK() && pre != "" {
		return // the text closes what it does not open
	}
	c.input = fmt.Sprintf("%s from %q", typ, text)
	_, p := c.newParser(text, o)
	got, err := entry[typ](p)
	if (got == nil) == (err == nil) {
		c.Fail("the entry point gives %v and the error %v", got, err)
	}
	lo, hi := len(text), len(text)
	if !r.OK() {
		lo, hi = r.ErrRange()
		lo, hi = max(0, lo-len(pre)), hi-len(pre)
	}
	toks, _ := ref.Tokens(text)
	if typ == "*parser.GroupField" {
		if bad, ok := groupHeader(toks); !ok {
			lo, hi = 0, toks[bad].Start
			if bad > 0 {
				lo = toks[bad-1].End
			}
		}
	}
	if typ == "*parser.MapField" && (len(toks) < 2 || toks[1].Kind != scanner.TLESS) {
		lo, hi = toks[0].End, toks[1].Start
	}
	if err == nil {
		last := reflect.ValueOf(got).Elem().FieldByName("Meta").Interface().(meta.Meta).LastPos.Offset
		if last >= hi && hi < len(text) {
			c.Fail("the entry point accepts the text up to %d, although what starts at %d does not continue it", last, hi)
		}
		c.Event("entry points that accept", 1)
		return
	}
	e := metaError(err)
	if e == nil {
		c.Fail("the chain of the error %q (%T) of an entry point has no *meta.Error", err, err)
	}
	off := e.Pos.Offset
	if off < 0 || off > len(text) || e.Pos != ref.NewLines(text, o.Filename).At(off) || e.Expected == "" {
		c.Fail("the error of an entry point has the position %+v: %v", e.Pos, err)
	}
	if off < lo || hi < off {
		c.Fail("the error of an entry point is located at %d, but the tokens before %d are fine and the offending one starts at %d: %v", off, lo, hi, err)
	}
	c.Event("errors of entry points located", 1)
	c.Event("errors of entry point "+typ, 1)
}

func (c *Ctx) located(err error, src string, o Opts, r *ref.Result) {
	c.input = src
	e := metaError(err)
	if e == nil {
		c.Fail("the chain of the error %q (%T) has no *meta.Error", err, err)
	}
	if e.Pos.Filename != o.Filename {
		c.Fail("the error names the file %q, given %q: %v", e.Pos.Filename, o.Filename, err)
	}
	if e.Expected == "" {
		c.Fail("the error does not say what was expected: %v", err)
	}
	if err.Error() == "" || e.Error() == "" {
		c.Fail("the error has no text")
	}
	off := e.Pos.Offset
	if off < 0 || off > len(src) || off < len(src) && !utf8.RuneStart(src[off]) {
		c.Fail("the error is at the offset %d of an input of %d bytes: %v", off, len(src), err)
	}
	if want := r.Lines.At(off); e.Pos != want {
		c.Fail("the error position %+v disagrees with its offset, which is %+v: %v", e.Pos, want, err)
	}
	lo, hi := r.ErrRange()
	if off < lo || off > hi {
		c.Fail("the error is located at %d, but the tokens before %d are fine and the offending one starts at %d: %v", off, lo, hi, err)
	}
	c.Event("errors located", 1)
	if hi >= len(src) {
		c.Event("errors at the end of input", 1)
	}
	c.Eval(r.Bad > 0, src)
}

func init() {
	min := map[string]int64{"exact texts": 5000, "merged values": 10000, "merged values of mixed quote styles": 4000, "constants read by the lexer": 5000}
	for _, s := range slots {
		min["slot "+s.name] = 300
	}
	register(&Prop{ID: "P17", Cases: scale(5000, 200000), Run: p17run, MinNontrivial: 20000, MinEvents: min,
		Rule: "one to four literals of both quote styles with every kind of escape (short ones too) in 18 kinds of places and read by the lexer directly, random layout between them, permissive and strict; non-trivial = a distinct place and sequence of literals"})
	register(&Prop{ID: "P18", Guided: true, First: editCases, Cases: func(t string) int { return editCases() + scale(5000, 150000)(t) }, Run: p18run, MinNontrivial: 20000,
		MinEvents: map[string]int64{"errors located": 30000, "errors of entry points located": 20000, "errors at the end of input": 1000},
		Rule:      "exhaustive single-token edits of small files and random mutants, with file names; each error judged by the interval between the last token that continues a valid file and the first that does not; non-trivial = a distinct source rejected behind its first token"})
}
