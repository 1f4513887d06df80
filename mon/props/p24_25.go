package props

import (
	"fmt"
	"reflect"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"

	"verif/mon/dump"
	"verif/mon/gen"
	"verif/mon/ref"
)

// P24: the readers of the lexer, one after the other over a text.

// reading is what a reader has to do at an offset.
type reading struct {
	ok    bool
	text  string
	start int
	// next is where the following scan continues, and open that it may also continue at the end of the input.
	next int
	open bool
	// lo and hi bound the position of the error.
	lo, hi int
}

func rejected(t ref.Tok) reading { return reading{lo: t.Start, hi: t.Start} }

// readIdent is a full identifier: ident { "." ident }.
func readIdent(src string, off int) reading {
	t := ref.Scan(src, off, 0)
	if t.Kind != scanner.TIDENT {
		return rejected(t)
	}
	r := reading{ok: true, start: t.Start}
	for {
		r.text += t.Text
		r.next = t.Next
		d := ref.Scan(src, r.next, 0)
		r.open = d.Kind == scanner.TEOF && !d.Bad
		if d.Kind != scanner.TDOT {
			return r
		}
		if t = ref.Scan(src, d.Next, 0); t.Kind != scanner.TIDENT {
			return rejected(t)
		}
		r.text += "."
	}
}

// readType is a message or enum type: [ "." ] ident { "." ident }.
func readType(src string, off int) reading {
	t := ref.Scan(src, off, 0)
	if t.Kind != scanner.TDOT {
		r := readIdent(src, off)
		r.open = false
		return r
	}
	r := readIdent(src, t.Next)
	if r.ok {
		r.text, r.start, r.open = "."+r.text, t.Start, false
	}
	return r
}

func readConstant(src string, off int, permissive bool) reading {
	t := ref.Scan(src, off, scanner.ScanLit)
	if t.Bad {
		return rejected(t)
	}
	r := reading{ok: true, text: t.Text, start: t.Start, next: t.Next}
	switch {
	case t.Kind == scanner.TSTRLIT:
		parts := []string{t.Text}
		for permissive {
			if t = ref.Scan(src, r.next, scanner.ScanLit); t.Kind != scanner.TSTRLIT || t.Bad {
				break
			}
			parts = append(parts, t.Text)
			r.next = t.Next
		}
		if len(parts) > 1 {
			r.text = ref.Merge(parts)
		}
		return r
	case t.Kind == scanner.TBOOLLIT, t.Kind == scanner.TINTLIT, t.Kind == scanner.TFLOATLIT:
		return r
	case t.Kind == scanner.TIDENT:
		return readIdent(src, off)
	case t.Text == "-", t.Text == "+":
		n := ref.Scan(src, t.Next, scanner.ScanLit)
		if n.Bad || n.Kind != scanner.TINTLIT && n.Kind != scanner.TFLOATLIT {
			return rejected(n)
		}
		r.text += n.Text
		r.next = n.Next
		return r
	}
	return rejected(t)
}

func readEmpty(src string, off int) reading {
	t := ref.Scan(src, off, 0)
	if t.Kind != scanner.TSEMICOLON {
		return reading{lo: off, hi: t.Start}
	}
	return reading{ok: true, start: t.Start, next: t.Next}
}

// readable draws a text of constants, names and semicolons, some of them broken, with gaps.
func (c *Ctx) readable() string {
	if c.Intn(6) == 0 {
		return c.lexText()
	}
	var b strings.Builder
	l := gen.RandLayout(c.Rand, c.Intn(3) == 0)
	gap := func(need bool) {
		switch {
		case need || c.Intn(4) == 0:
			b.WriteString(gen.Gap(c.Rand, l, true))
		case c.Intn(3) == 0:
			b.WriteString(gen.Gap(c.Rand, l, false))
		}
	}
	lit := func() {
		k := c.Intn(12)
		for n := 1 + c.Intn(3); n > 0; n-- {
			if k < 8 {
				b.WriteString(litBits[c.Intn(len(litBits))])
			} else {
				q := "\"'"[c.Intn(2)]
				b.WriteByte(q)
				for i := c.Intn(6); i > 0; i-- {
					s := strBits[c.Intn(len(strBits))]
					if s == string(q) {
						continue
					}
					b.WriteString(s)
				}
				b.WriteByte(q)
			}
			if n > 1 {
				gap(k < 8 && c.Intn(3) > 0)
			}
		}
	}
	for n := 1 + c.Intn(8); n > 0; n-- {
		switch c.Intn(5) {
		case 0: // a number
			b.WriteString([]string{"", "", "-", "+", "-+"}[c.Intn(5)])
			gap(false)
			b.WriteString(numBits[c.Intn(len(numBits))])
		case 1, 2: // a name
			if c.Intn(3) == 0 {
				b.WriteString(".")
				gap(false)
			}
			for k := 1 + c.Intn(5)*c.Intn(2); k > 0; k-- {
				b.WriteString([]string{"a", "B_1", "message", "true", "inf", "nan", "to", "False", "_", gen.NearWord(c.Rand), strings.Repeat("n", gen.Length(c.Rand, 3000))}[c.Intn(11)])
				gap(false)
				if k > 1 || c.Intn(8) == 0 {
					b.WriteString(".")
					gap(false)
				}
			}
		case 3:
			lit()
		case 4:
			b.WriteString([]string{";", ";", ";;", "=", "]", ",", "{", ":", "/", "\ufeff", "é"}[c.Intn(11)])
		}
		gap(c.Intn(2) == 0)
	}
	return strings.ToValidUTF8(b.String(), "?")
}

var litBits = strings.Split(`"a"|'b'|""|''|"\x4"|'\x4'|"1"|'2f'|"\0"|'\1'|"\12"|"7"|'"'|"'"|'\''|"\""|"\\"|"é日"|true|false|"unterminated|'a\'|"\xg"|"//"|'/*'|"日`, "|")
var strBits = strings.Split("a|1|7|f|\\x|\\x1|\\X2f|\\0|\\17|\\377|\\\\|\\\"|\\'|\"|'|é|😀|//|/*|;|\t| |\\n|\u2028", "|")
var numBits = strings.Split("0|1|7|00|010|08|0x1f|0XABC|0x|1.|1.5|.5|.|1e5|1e+5|1E-05|1e|1.e|1.e3|inf|nan|infx|1a|12345678901234567890123|0.0|09.5|-1|true|to|1..2|0x1.p", "|")

func p24run(c *Ctx) {
	src := c.readable()
	c.input = src
	fn := filenames[c.Intn(3)]
	ln := ref.NewLines(src, fn)
	l := lexer.NewLexer(strings.NewReader(src), lexer.WithFilename(fn), lexer.WithDebug(c.Intn(10) == 0))
	l.Error = func(*lexer.Lexer, error) {}
	off, took := 0, 0
	for n := 0; n < 200; n++ {
		var r reading
		var text string
		var pos scanner.Position
		var err error
		name := ""
		switch k := c.Intn(6); k {
		case 0, 1, 2:
			permissive := k > 0
			name = fmt.Sprintf("ReadConstant(%v)", permissive)
			r = readConstant(src, off, permissive)
			text, pos, err = l.ReadConstant(permissive)
		case 3:
			name = "ReadFullIdent"
			r = readIdent(src, off)
			text, pos, err = l.ReadFullIdent()
		case 4:
			name = "ReadMessageType"
			r = readType(src, off)
			if c.Intn(2) == 0 {
				name = "ReadEnumType"
				text, pos, err = l.ReadEnumType()
			} else {
				text, pos, err = l.ReadMessageType()
			}
		case 5:
			name = "ReadEmptyStatement"
			r = readEmpty(src, off)
			err = l.ReadEmptyStatement()
			if pos = l.Pos; err == nil && l.Text != ";" {
				c.Fail("ReadEmptyStatement shows %q", l.Text)
			}
		}
		at := fmt.Sprintf("%s at offset %d of %q", name, off, clip(src, 600))
		switch {
		case r.ok && err != nil:
			c.Fail("%s: %v instead of %q", at, err, r.text)
		case !r.ok && err == nil:
			c.Fail("%s: %q (%+v) where no such construct stands", at, text, pos.Position)
		case r.ok:
			if text != r.text || pos.Position != ln.At(r.start) {
				c.Fail("%s: %q at %+v instead of %q at %+v", at, text, pos.Position, r.text, ln.At(r.start))
			}
			off = r.next
			took++
			c.Event(name+" took", 1)
		default:
			e := metaError(err)
			if e == nil || text != "" {
				c.Fail("%s: text %q with the error %v (%T)", at, text, err, err)
			}
			if e.Expected == "" || e.Pos.Offset < r.lo || r.hi < e.Pos.Offset || e.Pos != ln.At(e.Pos.Offset) {
				c.Fail("%s: the error %+v is not located at the offending token (offset %d)", at, e, r.hi)
			}
			c.Event(name+" refused", 1)
			if name != "ReadEmptyStatement" { // how much a failed reader consumed is left open: read on behind it by a new lexer
				if t := ref.Scan(src, off, 0); c.Intn(2) == 0 || t.Next <= off {
					c.Eval(took > 0, src)
					return
				} else {
					off = t.Next
				}
				for off < len(src) && src[off]&0xc0 == 0x80 {
					off++
				}
				src = src[off:]
				c.input = src
				ln = ref.NewLines(src, fn)
				l = lexer.NewLexer(strings.NewReader(src), lexer.WithFilename(fn))
				l.Error = func(*lexer.Lexer, error) {}
				off = 0
			}
			continue
		}
		if r.open && c.Intn(2) == 0 {
			break
		}
		if c.Intn(3) == 0 { // what follows is untouched
			m := lexModes[c.Intn(len(lexModes))]
			t := ref.Scan(src, off, m.mode)
			if r.open && t.Kind != scanner.TEOF || t.Bad {
				break
			}
			m.call(l)
			if l.Token != t.Kind || l.Text != t.Text && t.Kind != scanner.TEOF || l.Pos.Position != ln.At(t.Start) || !strings.HasSuffix(src[off:t.Next], string(l.RawText)) {
				c.Fail("%s: the next scan (%s) sees %v %q at %+v instead of %v %q at %+v", at, m.name, l.Token, l.Text, l.Pos.Position, t.Kind, t.Text, ln.At(t.Start))
			}
			c.Event("scans behind", 1)
			if t.Kind == scanner.TEOF {
				break
			}
			if c.Intn(2) == 0 && !r.open {
				l.UnNext()
			} else {
				off = t.Next
			}
		}
	}
	c.Eval(took > 0, src)
}

// P25: interpretation of trees that a program has built.

// foreignElement is no element of a parsed tree.
type foreignElement struct{ n int }

func (*foreignElement) Accept(parser.Visitor) {}

type foreignValue string

func (foreignValue) Accept(parser.Visitor) {}

// elements makes one element of each kind that is a Visitee.
var elements = []func() parser.Visitee{
	func() parser.Visitee { return &parser.Comment{Raw: "// c"} },
	func() parser.Visitee { return &parser.Declaration{Number: "1"} },
	func() parser.Visitee { return &parser.Edition{Edition: "2023"} },
	func() parser.Visitee { return &parser.EmptyStatement{} },
	func() parser.Visitee { return &parser.Enum{EnumName: "E"} },
	func() parser.Visitee { return &parser.EnumField{Ident: "A", Number: "0"} },
	func() parser.Visitee { return &parser.Extend{MessageType: "M"} },
	func() parser.Visitee { return &parser.Extensions{} },
	func() parser.Visitee { return &parser.Field{Type: "int32", FieldName: "a", FieldNumber: "1"} },
	func() parser.Visitee { return &parser.GroupField{GroupName: "G", FieldNumber: "1"} },
	func() parser.Visitee { return &parser.Import{Location: "\"a\""} },
	func() parser.Visitee { return &parser.MapField{MapName: "m"} },
	func() parser.Visitee { return &parser.Message{MessageName: "M"} },
	func() parser.Visitee { return &parser.Oneof{OneofName: "o"} },
	func() parser.Visitee { return &parser.OneofField{FieldName: "f"} },
	func() parser.Visitee { return &parser.Option{OptionName: "o", Constant: "1"} },
	func() parser.Visitee { return &parser.Package{Name: "p"} },
	func() parser.Visitee { return &parser.Reserved{} },
	func() parser.Visitee { return &parser.RPC{RPCName: "r"} },
	func() parser.Visitee { return &parser.Service{ServiceName: "S"} },
	func() parser.Visitee { return &parser.Syntax{ProtobufVersion: "proto3"} },
	func() parser.Visitee { return &parser.Proto{} },
	func() parser.Visitee { return nil },
	func() parser.Visitee { return &foreignElement{} },
	func() parser.Visitee { return foreignValue("x") },
}

// element draws an element of some kind, now and then one in which nothing is set.
func (c *Ctx) element() parser.Visitee {
	v := elements[c.Intn(len(elements))]()
	if t := reflect.TypeOf(v); t != nil && t.Kind() == reflect.Pointer && c.Intn(4) == 0 {
		c.Event("elements with nothing set", 1)
		return reflect.New(t.Elem()).Interface().(parser.Visitee)
	}
	return v
}

// kindsOf are the kinds for which a body of an interpretation has a list.
func kindsOf(body any) map[reflect.Type]bool {
	kinds := map[reflect.Type]bool{}
	t := reflect.TypeOf(body).Elem()
	for i := 0; i < t.NumField(); i++ {
		elem := t.Field(i).Type.Elem()
		for a, b := range interpreted {
			if b == elem {
				elem = a
			}
		}
		kinds[elem] = true
	}
	return kinds
}

var bodyKinds = map[string]map[reflect.Type]bool{
	"Proto": kindsOf(&unordered.ProtoBody{}), "Message": kindsOf(&unordered.MessageBody{}), "Enum": kindsOf(&unordered.EnumBody{}),
	"Service": kindsOf(&unordered.ServiceBody{}), "Extend": kindsOf(&unordered.ExtendBody{}),
}

type placedBody struct {
	kind string
	body *[]parser.Visitee
	name string
}

// interpretedBodies are the bodies of a tree which interpretation reaches.
func interpretedBodies(p *parser.Proto) []placedBody {
	bodies := []placedBody{{"Proto", &p.ProtoBody, ""}}
	var down func(body []parser.Visitee)
	down = func(body []parser.Visitee) {
		for _, v := range body {
			switch t := v.(type) {
			case *parser.Message:
				bodies = append(bodies, placedBody{"Message", &t.MessageBody, t.MessageName})
				down(t.MessageBody)
			case *parser.Enum:
				bodies = append(bodies, placedBody{"Enum", &t.EnumBody, t.EnumName})
			}
		}
	}
	down(p.ProtoBody)
	for _, v := range p.ProtoBody {
		switch t := v.(type) {
		case *parser.Service:
			bodies = append(bodies, placedBody{"Service", &t.ServiceBody, t.ServiceName})
		case *parser.Extend:
			bodies = append(bodies, placedBody{"Extend", &t.ExtendBody, t.MessageType})
		}
	}
	return bodies
}

func (c *Ctx) p25build(depth int) []parser.Visitee {
	var body []parser.Visitee
	for n := c.Intn(5); n > 0; n-- {
		if len(body) > 0 && c.Intn(10) == 0 { // the same element once more
			body = append(body, body[c.Intn(len(body))])
			continue
		}
		v := c.element()
		if depth > 0 {
			switch t := v.(type) {
			case *parser.Message:
				t.MessageBody = c.p25build(depth - 1)
			case *parser.Enum:
				t.EnumBody = c.p25build(depth - 1)
			case *parser.Service:
				t.ServiceBody = c.p25build(depth - 1)
			case *parser.Extend:
				t.ExtendBody = c.p25build(depth - 1)
			}
		}
		body = append(body, v)
	}
	return body
}

// placeable tells whether every element of the bodies that interpretation reaches is of a kind that the body takes.
func placeable(p *parser.Proto) bool {
	for _, b := range interpretedBodies(p) {
		for _, v := range *b.body {
			if v == nil || !bodyKinds[b.kind][reflect.TypeOf(v)] {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) p25judge(p *parser.Proto, what string) {
	before := dump.String(p, dump.All)
	u, err := protoparser.UnorderedInterpret(p)
	if dump.String(p, dump.All) != before {
		c.Fail("%s: the tree changed", what)
	}
	c.input = before
	if placeable(p) {
		if err != nil {
			c.Fail("%s: not interpreted: %v", what, err)
		}
		c.conserve("Proto", reflect.ValueOf(p), reflect.ValueOf(u))
		c.Event("built trees conserved", 1)
	} else {
		if err == nil {
			c.Fail("%s: an element that cannot stand in its body is not reported", what)
		}
		if u != nil || err.Error() == "" {
			c.Fail("%s: a result with the error %q", what, err)
		}
		c.Event("misplaced elements reported", 1)
	}
}

func p25run(c *Ctx) {
	if c.Intn(3) == 0 {
		p := &parser.Proto{ProtoBody: c.p25build(3)}
		if c.Intn(2) == 0 { // without what cannot stand there
			for _, b := range interpretedBodies(p) {
				var kept []parser.Visitee
				for _, v := range *b.body {
					if v != nil && bodyKinds[b.kind][reflect.TypeOf(v)] {
						kept = append(kept, v)
					}
				}
				*b.body = kept
			}
		}
		if c.Intn(2) == 0 {
			p.Meta = &parser.ProtoMeta{Filename: "a"}
			p.Syntax = &parser.Syntax{}
		}
		c.p25judge(p, "a built tree")
		c.Eval(len(p.ProtoBody) > 0, dump.String(p, dump.All))
		return
	}
	src, p := c.treeSource()
	c.input = src
	bodies := interpretedBodies(p)
	for n := 1 + c.Intn(6); n > 0; n-- {
		b := bodies[c.Intn(len(bodies))]
		v := c.element()
		old := *b.body
		at := c.Intn(len(old) + 1)
		changed := append([]parser.Visitee(nil), old[:at]...)
		changed = append(changed, v)
		if at < len(old) && c.Intn(2) == 0 {
			at++
		}
		*b.body = append(changed, old[at:]...)
		c.p25judge(p, fmt.Sprintf("a %T put into %s %s", v, b.kind, b.name))
		if v == nil || !bodyKinds[b.kind][reflect.TypeOf(v)] {
			c.Event(fmt.Sprintf("misplaced in %s", b.kind), 1)
			c.p25alone(bodies, b, v)
		}
		*b.body = old
		c.p25judge(p, "the tree as it was")
	}
	c.Eval(len(p.ProtoBody) > 0, src)
}

// p25alone interprets the element whose body holds v by itself.
func (c *Ctx) p25alone(bodies []placedBody, b placedBody, v parser.Visitee) {
	var got any
	var err error
	switch b.kind {
	case "Message":
		got, err = unordered.InterpretMessage(&parser.Message{MessageName: b.name, MessageBody: *b.body})
	case "Enum":
		got, err = unordered.InterpretEnum(&parser.Enum{EnumName: b.name, EnumBody: *b.body})
	case "Service":
		got, err = unordered.InterpretService(&parser.Service{ServiceName: b.name, ServiceBody: *b.body})
	case "Extend":
		got, err = unordered.InterpretExtend(&parser.Extend{MessageType: b.name, ExtendBody: *b.body})
	default:
		return
	}
	if err == nil || !reflect.ValueOf(got).IsNil() {
		c.Fail("%s %s alone: a %T in it is not reported: %v, %v", b.kind, b.name, v, got, err)
	}
	c.Event("elements alone", 1)
}

func p25nil(c *Ctx) {
	proto, err1 := protoparser.UnorderedInterpret(nil)
	message, err2 := unordered.InterpretMessage(nil)
	enum, err3 := unordered.InterpretEnum(nil)
	service, err4 := unordered.InterpretService(nil)
	extend, err5 := unordered.InterpretExtend(nil)
	if proto != nil || message != nil || enum != nil || service != nil || extend != nil || err1 != nil || err2 != nil || err3 != nil || err4 != nil || err5 != nil {
		c.Fail("interpreting nil gives %v %v %v %v %v, %v %v %v %v %v", proto, message, enum, service, extend, err1, err2, err3, err4, err5)
	}
	c.Event("nil interpreted", 1)
}

func init() {
	min := map[string]int64{"scans behind": 20000, "ReadEmptyStatement took": 5000, "ReadEmptyStatement refused": 5000}
	for _, k := range []string{"ReadConstant(true)", "ReadConstant(false)", "ReadFullIdent", "ReadMessageType", "ReadEnumType"} {
		min[k+" took"] = 5000
		min[k+" refused"] = 3000
	}
	register(&Prop{ID: "P24", Guided: true, Cases: scale(60000, 1500000), Run: p24run, MinNontrivial: 20000, MinEvents: min,
		Rule: "texts of constants, names and semicolons, well-formed and broken, with and without gaps, read by the readers of the lexer in any order with scans in every mode in between; text, position, what the next scan sees and the errors are compared with the reference scanner; non-trivial = a distinct text from which a reader took something"})
	min = map[string]int64{"built trees conserved": 10000, "misplaced elements reported": 5000, "elements alone": 2500, "elements with nothing set": 3000, "nil interpreted": 10}
	for k := range bodyKinds {
		min["misplaced in "+k] = 150
	}
	register(&Prop{ID: "P25", Cases: scale(12000, 300000), MinNontrivial: 3000, MinEvents: min,
		Run: func(c *Ctx) {
			if c.Index%500 == 0 {
				p25nil(c)
			}
			p25run(c)
		},
		Rule: "trees built from elements of every kind (also foreign ones and nil) and parsed trees into a body of which such an element is put at any depth and place; interpreted as a whole and from the element down; non-trivial = a distinct tree with a statement"})
}
