package props

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser"

	"verif/mon/dump"
	"verif/mon/gen"
	"verif/mon/ref"
)

// P02: conforming files are accepted and say what the generator put in.

func p02run(c *Ctx) {
	if c.session != nil && c.Intn(4) != 0 {
		c.p02judge(strings.ToValidUTF8(c.source(true), "?"), "guided conforming sources")
		return
	}
	if c.Index < editCases() {
		c.texts(0, func(src string) { c.p02judge(strings.ToValidUTF8(src, "?"), "conforming edits") })
		return
	}
	if c.Index < p02First() {
		c.p02judge(siblings[c.Index-editCases()](), "more siblings than levels")
		return
	}
	if c.session == nil && c.Index%4 == 0 {
		c.near(func(src string) { c.p02judge(strings.ToValidUTF8(src, "?"), "conforming edits") })
		return
	}
	if c.session == nil && c.Intn(100) == 0 {
		c.p02judge(strings.ToValidUTF8(c.manyOf(), "?"), "long conforming files")
		return
	}
	f := c.file(c.Intn(3) != 0)
	if c.Intn(60) == 0 { // a big file
		k := gen.Default(true)
		k.Stmts, k.Width = 150, 10
		f = gen.New(c.Rand, k)
	}
	for i := 0; i < 2; i++ {
		src := gen.Render(c.Rand, f.Toks, gen.RandLayout(c.Rand, true))
		if i == 0 && c.Intn(2) == 0 {
			src = gen.Plain(f.Toks)
		}
		opts := []Opts{{Default: true}}
		if f.Ext == 0 {
			opts = append(opts, Opts{Strict: true})
		}
		for _, o := range opts {
			p, err := c.parse(src, o)
			if err != nil {
				c.Fail("a conforming file is rejected (%+v): %v", o, err)
			}
			f.Want.Meta = p.Meta
			if d := same(f.Want, p, dump.Structure); d != "" {
				c.Fail("the tree does not say what the file says (wanted != got): %s", d)
			}
			c.Eval(len(f.Toks) > 0, src)
		}
	}
}

// siblings are files in which more constructs that nest stand side by side than may stand within each other.
var siblings = func() (fs []func() string) {
	for _, x := range unitCtxs {
		for _, u := range x.units {
			if strings.ContainsAny(u, "{[") {
				fs = append(fs, func() string {
					var b strings.Builder
					b.WriteString(x.pre)
					repeatUnits(&b, []string{u}, x.sep, ref.MaxNesting+5)
					b.WriteString(x.post)
					return b.String()
				})
			}
		}
	}
	return
}()

func p02First() int { return editCases() + len(siblings) }

// p02judge judges a text that the reference accepts.
func (c *Ctx) p02judge(src, event string) {
	for _, o := range []Opts{{Default: true}, {Strict: true}} {
		r := ref.Parse(src, o.ref())
		p, err := c.parse(src, o)
		if !r.OK() {
			continue
		}
		if err != nil {
			c.Fail("a conforming file is rejected (%+v): %v", o, err)
		}
		if d := same(r.Proto, p, dump.Structure); d != "" {
			c.Fail("the tree does not say what the file says (wanted != got): %s", d)
		}
		c.Event(event, 1)
		c.Eval(true, src)
	}
}

// P03: non-conforming files are rejected.

// Kitchens are small files that together use every construct.
var kitchens = []string{
	`syntax = "proto3" ; import public "a.proto" ; import 'b' ; package a . b ; option ( .a . b ) . c = { d : 1 , e { f : "x" } ; } ; ;`,
	`edition = "2023" ; option a = - 1 ; option b = [ 1 , { c : true } ] ; option d = "a" 'b' ; option e = inf ;`,
	`message A { option a = b . c ; optional . a . B c = 1 [ d = 1 , ( e ) . f = "g" ] ; repeated string s = 0x1 ; } ;`,
	`message A { oneof b { option c = 1 ; string d = 1 [ e = 2 ] ; ; C f = 2 ; } map < int32 , a . B > m = 3 [ n = 1.5 ] ; ; }`,
	`message A { required group B = 1 { int32 c = 2 ; } group C = 3 { } enum D { E = - 1 ; } message F { } extend G { int32 h = 1 ; } }`,
	`message A { reserved 1 , 2 to 3 , 4 to max ; reserved "a" , 'b' ; reserved c , d ; extensions 100 to max ; extensions 4 , 5 ; }`,
	`message A { extensions 4 to 9 [ declaration = { number : 4 , full_name : ".a" , type : "b" , reserved : true , repeated : false } , declaration = { number : 5 } ] ; }`,
	`enum A { option a = true ; B = 0 ; C = 01 [ d = 1 , ( e ) = "f" ] ; reserved 2 to 3 ; reserved "G" ; ; } enum H { }`,
	`service A { option a = 1 ; rpc B ( C ) returns ( stream . d . E ) ; rpc F ( stream G ) returns ( H ) { option i = { j : 1 } ; ; } ; }`,
	`extend a . B { optional int32 c = 1 [ d = 1 ] ; ; repeated E f = 2 ; } package p ; ;`,
}

var editVocabulary = strings.Fields(`; { } ( ) [ ] < > = , . : - + 1 01 1.5 .5 "s" '' a B true inf max to
 syntax edition import package option message enum service rpc returns stream extend oneof map reserved extensions
 declaration number full_name type repeated optional group weak public int32 string / # "proto3" "2023"
 required double float int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool bytes verification false nan
 0 00 08 0x 0X 0xG 0x1F 1. 1e 1e+ 1e5 1.e5 .5. 1..2 1_0 1f 0b1 "\\x" "\\" "a ' "\\"" '"' $ \\ @ & | * _ é "proto4" 'proto2' "x" 9223372036854775808 TRUE Max
 messages Message mess weakly Syntax imports strings int3 int324 xint32 maxx ma t tos o`)

// Statements of every kind, spliced into every context.
var spliceStatements = []string{
	`syntax = "proto3" ;`, `syntax = 'proto2' ;`, `edition = "2023" ;`, `import "x" ;`, `import public 'x' ;`, `import weak "x" ;`, `package p ;`, `package p . q ;`,
	`option o = 1 ;`, `option ( o ) . p = "s" ;`, `option o = { a : 1 } ;`, `option ( . o ) = true ;`, `;`, `; ;`,
	`message N { }`, `message N { int32 a = 1 ; }`, `message N { } ;`, `enum N { }`, `enum N { X = 0 ; }`, `enum N { X = 0 ; } ;`, `service N { }`, `service N { rpc R ( S ) returns ( T ) ; }`, `extend N { }`, `extend N { int32 a = 1 ; }`,
	`rpc R ( S ) returns ( T ) ;`, `rpc R ( stream S ) returns ( stream . T . U ) { }`, `rpc R ( S ) returns ( T ) { option o = 1 ; }`,
	`oneof o { }`, `oneof o { int32 a = 1 ; }`, `map < int32 , string > m = 1 ;`, `map < string , A > m = 1 [ o = 1 ] ;`, `map < float , A > m = 1 ;`, `map < bytes , A > m = 1 ;`, `map < A , string > m = 1 ;`, `map < int32 , map > m = 1 ;`, `repeated map < int32 , string > m = 1 ;`,
	`reserved 1 ;`, `reserved 1 to 2 , 3 ;`, `reserved - 1 ;`, `reserved "a" ;`, `reserved a , b ;`, `extensions 1 ;`, `extensions 1 to max ;`, `extensions 4 [ declaration = { number : 4 } ] ;`, `extensions 4 [ verification = UNVERIFIED ] ;`, `declaration = { number : 4 }`,
	`int32 f = 1 ;`, `A f = 1 ;`, `. a . B f = 1 ;`, `optional int32 f = 1 ;`, `required int32 f = 1 ;`, `repeated int32 f = 1 ;`, `repeated int32 f = 1 [ o = 1 ] ;`, `repeated repeated int32 f = 1 ;`, `optional optional A f = 1 ;`, `group G = 1 { }`, `optional group G = 1 { int32 a = 1 ; }`, `repeated group g = 1 { }`, `optional group G = 1 [ o = 1 ] { }`,
	`X = 1 ;`, `X = - 1 ;`, `X = + 1 ;`, `X = 1 [ o = 1 ] ;`, `stream S ;`, `returns ( T )`, `max`, `to 5`, `[ o = 1 ]`, `{ }`, `{`, `}`, `( )`, `= 1`, `, b`, `. b`, `weak "x"`, `f = 1 ;`, `int32 = 1 ;`, `int32 f ;`, `int32 f = ;`, `int32 f = 1`, `int32 f = - 1 ;`, `int32 f = 1 [ ] ;`, `int32 f = 1 [ o ] ;`, `int32 f = 1 [ o = ] ;`, `int32 f = 1 [ o = 1 , ] ;`,
	`option = 1 ;`, `option o ;`, `option o = ;`, `option ( ) = 1 ;`, `option ( o = 1 ;`, `option . o = 1 ;`, `option o . = 1 ;`, `option o = [ ] ;`, `option o = [ 1 , ] ;`, `option o = { a } ;`, `option o = { a : } ;`, `option o = { a : 1 , , b : 2 } ;`, `option o = { [ a . b ] : 1 } ;`, `option o = "a" "b" ;`, `option o = - "a" ;`, `option o = - inf ;`, `option o = - true ;`, `option o = - a ;`, `option o = - [ 1 ] ;`, `option o = - - 1 ;`, `option o = a b ;`,
	`syntax "proto3" ;`, `syntax = proto3 ;`, `edition = 2023 ;`, `import x ;`, `import public weak "x" ;`, `import ;`, `package ;`, `package . p ;`, `package p . ;`, `message ;`, `message { }`, `message . N { }`, `message N ;`, `message "N" { }`, `enum { }`, `enum N ;`, `enum N { X ; }`, `enum N { X = ; }`, `service { }`, `service N ;`, `rpc ( S ) returns ( T ) ;`, `rpc R ( ) returns ( T ) ;`, `rpc R ( S ) returns ( ) ;`, `rpc R ( S ) ;`, `rpc R ( S ) returns ( T )`, `rpc R ( stream ) returns ( T ) ;`, `rpc R ( stream stream ) returns ( T ) ;`, `rpc R ( stream stream S ) returns ( T ) ;`, `rpc R ( repeated S ) returns ( T ) ;`, `extend { }`, `extend . N { }`, `extend N . M { group G = 1 { } }`, `extend N ;`, `oneof { }`, `oneof o ;`, `oneof o { repeated int32 a = 1 ; }`, `oneof o { group G = 1 { } }`, `oneof o { map < int32 , A > m = 1 ; }`, `oneof o { oneof p { } }`, `oneof o { reserved 1 ; }`, `enum N { reserved a ; extensions 1 ; }`, `enum N { message M { } }`, `enum N { enum M { } }`, `service N { message M { } }`, `service N { int32 a = 1 ; }`, `service N { rpc R ( S ) returns ( T ) { rpc Q ( S ) returns ( T ) ; } }`, `service N { reserved 1 ; }`, `reserved ;`, `reserved 1 , ;`, `reserved 1 to ;`, `reserved to 1 ;`, `reserved max ;`, `reserved 1 , "a" ;`, `reserved "a" , 1 ;`, `reserved a , 1 ;`, `reserved "a" , b ;`, `reserved a , "b" ;`, `reserved "a" "b" ;`, `reserved 1.5 ;`, `reserved a . b ;`, `extensions ;`, `extensions a ;`, `extensions "a" ;`, `extensions 1 [ ] ;`, `extensions 1 [ declaration = { number : 4 , } ] ;`, `extensions 1 [ declaration = { other : 4 } ] ;`, `extensions 1 [ declaration = { number : "4" } ] ;`, `extensions 1 [ declaration = { reserved : 1 } ] ;`, `extensions 1 [ declaration = { full_name : a } ] ;`,
}

// The context is what stands around the at sign.
var spliceContexts = []string{
	`@`, `syntax = "proto3" ; @`, `edition = "2023" ; @ message A { }`, `package p ; @ import "i" ;`, `message A { } @ enum B { }`, `; @ ;`,
	`message A { @ }`, `message A { int32 a = 1 ; @ int32 b = 2 ; }`, `message A { message B { } @ enum C { } }`, `message A { message B { @ } }`, `message A { oneof o { @ } }`, `message A { oneof o { int32 a = 1 ; @ } }`, `message A { optional group G = 1 { @ } }`, `message A { group G = 1 { } @ }`,
	`message A { extend B { @ } }`, `message A { enum B { @ } }`, `enum A { @ }`, `enum A { B = 0 ; @ C = 1 ; }`, `enum A { reserved 1 ; @ }`, `service A { @ }`, `service A { rpc B ( C ) returns ( D ) ; @ }`, `service A { rpc B ( C ) returns ( D ) { @ } }`, `service A { rpc B ( C ) returns ( D ) { option o = 1 ; @ } }`, `extend A { @ }`, `extend A { optional int32 a = 1 ; @ }`,
	`option o = @`, `option o = { @ } ;`, `option o = [ @ ] ;`, `message A { int32 a = 1 [ @ ] ; }`, `message A { @`, `service A { rpc B ( C ) returns ( D ) { @`, `extend A @`, `message A { extensions 4 [ @ ] ; }`, `message A { extensions 4 [ declaration = @ ] ; }`, `syntax @`,
}

// singleEdits is the number of single-token edits of a token sequence.
func singleEdits(n int) int { return n * (4 + 2*len(editVocabulary)) }

func singleEdit(toks []string, k int) []string {
	per := 4 + 2*len(editVocabulary)
	i, op := k/per, k%per
	out := append([]string(nil), toks...)
	switch {
	case op == 0:
		return append(out[:i], out[i+1:]...)
	case op == 1:
		return append(out[:i+1], toks[i:]...)
	case op == 2:
		if i+1 < len(out) {
			out[i], out[i+1] = out[i+1], out[i]
		}
		return out
	case op == 3:
		return out[:i]
	case op < 4+len(editVocabulary):
		out[i] = editVocabulary[op-4]
		return out
	default:
		return append(out[:i], append([]string{editVocabulary[op-4-len(editVocabulary)]}, toks[i:]...)...)
	}
}

var spliceTotal = len(spliceStatements) * len(spliceContexts)

// bytePool are the characters tried at every offset.
var bytePool = strings.Split("\x00|\t|\n|\r| |!|\"|#|$|%|&|'|(|)|*|+|,|-|.|/|0|1|7|8|9|:|;|<|=|>|?|@|A|F|X|[|\\|]|^|_|`|a|e|x|z|{|}|~|\x7f|p|l|u|n|o|P|E|\b|\v|\f|\x1b|é|日|\u00a0|\u0085|\u200b|\u200d|\ufeff|\ufffd|\u2028|\u2029|\u3000|\u212a|\uff10|\xff|//|/*|*/|\r\n", "|")

// byteEdits counts the single-character edits of a text: delete, replace and insert.
func byteEdits(s string) int { return len(s) * (1 + 2*len(bytePool)) }

func byteEdit(s string, k int) string {
	per := 1 + 2*len(bytePool)
	i, op := k/per, k%per
	switch {
	case op == 0:
		return s[:i] + s[i+1:]
	case op <= len(bytePool):
		return s[:i] + bytePool[op-1] + s[i+1:]
	}
	return s[:i] + bytePool[op-1-len(bytePool)] + s[i:]
}

// byteKitchens are texts with every kind of token, little white space and some comments.
var byteKitchens = []string{
	"syntax=\"proto3\";import 'a';package a.b;option(a.b).c=-0x1F;//c\noption d=\"\\n\\'\"'q';option e=1.5e+3;",
	"edition=\"2023\";option a=[.5,0,{b:07 c{}}];/* x */option d=inf;",
	"message A{optional .a.B c=1[d=1];map<int32,B>e=2;reserved 1,2 to max;reserved \"f\";oneof g{C h=3;}group I=4{}}",
	"message A{extensions 4 to 9[declaration={number:4,full_name:\".a\",reserved:true}];}enum E{F=-1;}",
	"service A{rpc B(stream C)returns(.d.E){option f=1;};}extend a.B{repeated C d=0x2;}",
}

var byteTotal = func() (n int) {
	for _, k := range byteKitchens {
		n += byteEdits(k)
	}
	return
}()

// exhaustive returns the k-th text of the enumerated ones.
func exhaustive(k int) string {
	if k < editTotal {
		return strings.Join(edited(k), " ")
	}
	if k -= editTotal; k < spliceTotal {
		return strings.Replace(spliceContexts[k%len(spliceContexts)], "@", spliceStatements[k/len(spliceContexts)], 1)
	}
	k -= spliceTotal
	for _, s := range byteKitchens {
		n := byteEdits(s)
		if k < n {
			return byteEdit(s, k)
		}
		k -= n
	}
	if k < wordTotal {
		for _, w := range words {
			n := w.count() * len(w.contexts)
			if k < n {
				return strings.Replace(w.contexts[k%len(w.contexts)], "@", w.word(k/len(w.contexts)), 1)
			}
			k -= n
		}
	}
	panic("out of range")
}

var exhaustiveTotal = editTotal + spliceTotal + byteTotal + wordTotal

// enumeration stands for all short words over an alphabet in every context.
type enumeration struct {
	alphabet      []string
	length        int
	before, after string
	contexts      []string
}

func (e *enumeration) count() int {
	n, k := 0, 1
	for i := 0; i < e.length; i++ {
		k *= len(e.alphabet)
		n += k
	}
	return n
}

func (e *enumeration) word(k int) string {
	n, size := 1, len(e.alphabet)
	for ; k >= size; n++ {
		k -= size
		size *= len(e.alphabet)
	}
	w := ""
	for ; n > 0; n-- {
		w += e.alphabet[k%len(e.alphabet)]
		k /= len(e.alphabet)
	}
	return e.before + w + e.after
}

var numberContexts = strings.Split("option a=@;|option a=-@;|option a={b:@};|option a={b:[@]};|option a={b:@,c:1};|message A{int32 b=@;}|message A{int32 b=1[c=@];}|message A{int32 b=1[c=@,d=1];}|message A{int32 b=1[c=[@]];}|message A{reserved @;}|message A{reserved 1 to @;}|message A{reserved @ to 9,7;}|message A{extensions @,4;}|enum A{b=@;}|enum A{reserved -@ to 9;}|message A{oneof b{c d=@;}}|message A{map<int32,b>c=@[d=1];}|message A{extensions 1[declaration={number:@}];}", "|")

var words = []*enumeration{
	{strings.Split("0|1|8|x|e|E|.|+|-|f|a|_", "|"), 3, "", "", numberContexts},
	{strings.Split("a|\\|\"|'|x|0|8|n|\n|é|/|*", "|"), 3, "\"", "\"", strings.Split("option a=@;|import @;|message A{reserved @,\"b\";}|option a={b:@ c:'d'};|syntax=@;", "|")},
	{strings.Split("a|\\|\"|'|x|0|8|n|\n|é|/|*", "|"), 2, "'", "'", strings.Split("option a=@;|import@;|message A{reserved@;}|option a=@\"b\";|edition=@;", "|")},
	{strings.Split("a|.|(|)|1|_|/|*|-|true|to| ", "|"), 3, "", "", strings.Split("option @=1;|package @;|message A{@ b=1;}|message @{}|message A{reserved @;}|rpc|option a=@;|message A{int32 b=1[@=1];}|service A{rpc b(@)returns(c);}|extend @{}|option a={@:1};", "|")},
}

var wordTotal = func() (n int) {
	for _, w := range words {
		n += w.count() * len(w.contexts)
	}
	return
}()

var editTotal = func() (n int) {
	for _, k := range kitchens {
		n += singleEdits(len(strings.Fields(k)))
	}
	return
}()

// edited returns the k-th single-token edit over all kitchens.
func edited(k int) []string {
	for _, s := range kitchens {
		toks := strings.Fields(s)
		if n := singleEdits(len(toks)); k < n {
			return singleEdit(toks, k)
		} else {
			k -= n
		}
	}
	panic("out of range")
}

const editChunk = 200

func editCases() int { return (exhaustiveTotal + editChunk - 1) / editChunk }

// texts yields the sources of a case: a chunk of the exhaustive edits, or mutants.
func (c *Ctx) texts(n int, f func(src string)) {
	if c.Index < editCases() {
		for k := c.Index * editChunk; k < (c.Index+1)*editChunk && k < exhaustiveTotal; k++ {
			c.Event("exhaustive edits", 1)
			f(exhaustive(k))
		}
		return
	}
	if c.session == nil && c.Index%2 == 0 {
		c.near(f)
		return
	}
	for i := 0; i < n; i++ {
		f(c.source(true))
	}
}

var nearNumbers = strings.Fields("1e 1E 1e+ 1e- 0x 0X . .e .e1 1.e 1.e+ .5e 08 09 00 019 0xg 0x1. 0x.1 0x1p1 1_0 1f 1F 1e1e 1e1. 1e1.5 1.5. 1..5 0b1 0o7 1e0x1 1L 1u 0.e 0e 00.5 -1e +1e -. -0x 1ee1 1e+-1 0xx1 infe nan1 1inf 1.inf")

// nearNumber is a word much like a number.
func (c *Ctx) nearNumber() string {
	if c.Intn(3) == 0 {
		return nearNumbers[c.Intn(len(nearNumbers))]
	}
	const alphabet = "00112789.eExX+-_pPfFabBoluLnd"
	b := make([]byte, 1+c.Intn(7))
	for i := range b {
		b[i] = alphabet[c.Intn(len(alphabet))]
	}
	if c.Intn(4) == 0 {
		return []string{"0x", "0X", "0", "1", "1e", ".", "1.", "0."}[c.Intn(8)] + string(b)
	}
	return string(b)
}

// oddToken is a word that is almost a token, or one in an unusual place.
func (c *Ctx) oddToken() string {
	switch c.Intn(9) {
	case 8:
		return gen.NearWord(c.Rand)
	case 0, 1:
		return c.nearNumber()
	case 2:
		return gen.Special(c.Rand)
	case 3:
		return "a" + gen.Special(c.Rand) + []string{"", "b"}[c.Intn(2)]
	case 4:
		if len(gen.Dict.Tokens) > 0 {
			return gen.Dict.Tokens[c.Intn(len(gen.Dict.Tokens))]
		}
	}
	return editVocabulary[c.Intn(len(editVocabulary))]
}

// near yields small texts around a small conforming one: the text itself, all deletions, repetitions, swaps and cuts
// of its tokens, and random replacements, insertions and character edits.
func (c *Ctx) near(f func(src string)) {
	toks := gen.Small(c.Rand, c.Intn(4) != 0)
	c.Event("small statements", 1)
	per := 4 + 2*len(editVocabulary)
	yield := func(toks []string) {
		if c.Intn(8) == 0 {
			f(gen.Render(c.Rand, toks, gen.RandLayout(c.Rand, true)))
			return
		}
		if c.Intn(4) == 0 { // as dense as it can be
			f(gen.Render(c.Rand, toks, gen.Layout{Glue: 100}))
			return
		}
		f(strings.Join(toks, " "))
	}
	yield(toks)
	for i := range toks {
		for op := 0; op < 4; op++ {
			yield(singleEdit(toks, i*per+op))
		}
	}
	edit := func(toks []string) []string {
		out := append([]string(nil), toks...)
		i := c.Intn(len(out))
		switch c.Intn(6) {
		case 5: // a number
			at := c.Perm(len(out))
			for _, k := range at {
				if t := out[k]; t != "" && '0' <= t[0] && t[0] <= '9' {
					out[k] = c.nearNumber()
					return out
				}
			}
			out[i] = c.oddToken()
		case 0, 1:
			out[i] = c.oddToken()
		case 2, 3:
			return append(out[:i], append([]string{c.oddToken()}, toks[i:]...)...)
		case 4: // within a token
			t := out[i]
			k := c.Intn(len(t) + 1)
			for !utf8.RuneStart((t + "x")[k]) {
				k--
			}
			ins := bytePool[c.Intn(len(bytePool))]
			if c.Intn(2) == 0 {
				ins = gen.Special(c.Rand)
			}
			out[i] = t[:k] + ins + t[k:]
		}
		return out
	}
	for i := 0; i < 24; i++ {
		e := edit(toks)
		yield(e)
		if i%4 == 0 {
			yield(edit(e))
		}
	}
}

func p03run(c *Ctx) {
	c.texts(12, func(src string) {
		for _, o := range []Opts{{Default: true}, {Strict: true}} {
			r := ref.Parse(src, o.ref())
			p, err := c.parse(src, o)
			if err == nil && !r.OK() {
				c.input = src
				lo, hi := r.ErrRange()
				c.Fail("accepted (%+v), although no file of the grammar continues at offset %d..%d; tree: %s", o, lo, hi, clip(dump.String(p, dump.Structure), 2000))
			}
			if !r.OK() {
				c.Event("outside the grammar", 1)
			}
			c.Eval(!r.OK() && r.Bad > 0, src)
		}
	})
}

// P04: conservation of tokens.

type flat struct{ toks []string }

func (f *flat) add(ss ...string) {
	for _, s := range ss {
		if s != "" {
			f.toks = append(f.toks, s)
		}
	}
}

// text adds the tokens of a text that the tree keeps (a name or a constant).
func (f *flat) text(s string) {
	toks, _ := ref.Tokens(s)
	for _, t := range toks {
		if t.Start == t.End && !t.Bad {
			break
		}
		f.toks = append(f.toks, s[t.Start:t.End])
	}
}

func (f *flat) fieldOptions(n int, at func(i int) (string, string)) {
	if n == 0 {
		return
	}
	f.add("[")
	for i := 0; i < n; i++ {
		a, b := at(i)
		f.text(a)
		f.add("=")
		f.text(b)
	}
	f.add("]")
}

func (f *flat) tail(name, number string, opts []*parser.FieldOption) {
	f.text(name)
	f.add("=")
	f.text(number)
	f.fieldOptions(len(opts), func(i int) (string, string) { return opts[i].OptionName, opts[i].Constant })
}

func (f *flat) label(rep, req, opt bool) {
	if rep {
		f.add("repeated")
	}
	if req {
		f.add("required")
	}
	if opt {
		f.add("optional")
	}
}

func (f *flat) ranges(rs []*parser.Range) {
	for _, r := range rs {
		f.text(r.Begin)
		if r.End != "" {
			f.add("to")
			f.text(r.End)
		}
	}
}

func (f *flat) body(vs []parser.Visitee) {
	f.add("{")
	for _, v := range vs {
		f.stmt(v)
	}
	f.add("}")
}

func (f *flat) stmt(v parser.Visitee) {
	switch t := v.(type) {
	case *parser.Syntax:
		f.add("syntax", "=")
		f.text(t.ProtobufVersionQuote)
	case *parser.Edition:
		f.add("edition", "=")
		f.text(t.EditionQuote)
	case *parser.Import:
		f.add("import")
		switch t.Modifier {
		case parser.ImportModifierPublic:
			f.add("public")
		case parser.ImportModifierWeak:
			f.add("weak")
		}
		f.text(t.Location)
	case *parser.Package:
		f.add("package")
		f.text(t.Name)
	case *parser.Option:
		f.add("option")
		f.text(t.OptionName)
		f.add("=")
		f.text(t.Constant)
	case *parser.Message:
		f.add("message")
		f.text(t.MessageName)
		f.body(t.MessageBody)
	case *parser.GroupField:
		f.label(t.IsRepeated, t.IsRequired, t.IsOptional)
		f.add("group")
		f.text(t.GroupName)
		f.add("=")
		f.text(t.FieldNumber)
		f.body(t.MessageBody)
	case *parser.Enum:
		f.add("enum")
		f.text(t.EnumName)
		f.body(t.EnumBody)
	case *parser.EnumField:
		f.text(t.Ident)
		f.add("=")
		f.text(t.Number)
		f.fieldOptions(len(t.EnumValueOptions), func(i int) (string, string) {
			return t.EnumValueOptions[i].OptionName, t.EnumValueOptions[i].Constant
		})
	case *parser.Extend:
		f.add("extend")
		f.text(t.MessageType)
		f.body(t.ExtendBody)
	case *parser.Service:
		f.add("service")
		f.text(t.ServiceName)
		f.body(t.ServiceBody)
	case *parser.RPC:
		f.add("rpc")
		f.text(t.RPCName)
		f.add("(")
		if t.RPCRequest.IsStream {
			f.add("stream")
		}
		f.text(t.RPCRequest.MessageType)
		f.add(")", "returns", "(")
		if t.RPCResponse.IsStream {
			f.add("stream")
		}
		f.text(t.RPCResponse.MessageType)
		f.add(")", "{")
		for _, o := range t.Options {
			f.stmt(o)
		}
		f.add("}")
	case *parser.Field:
		f.label(t.IsRepeated, t.IsRequired, t.IsOptional)
		f.text(t.Type)
		f.tail(t.FieldName, t.FieldNumber, t.FieldOptions)
	case *parser.MapField:
		f.add("map", "<")
		f.text(t.KeyType)
		f.text(t.Type)
		f.add(">")
		f.tail(t.MapName, t.FieldNumber, t.FieldOptions)
	case *parser.Oneof:
		f.add("oneof")
		f.text(t.OneofName)
		f.add("{")
		type item struct {
			off int
			v   parser.Visitee
		}
		var items []item
		for _, x := range t.OneofFields {
			items = append(items, item{x.Meta.Pos.Offset, x})
		}
		for _, x := range t.Options {
			items = append(items, item{x.Meta.Pos.Offset, x})
		}
		sort.SliceStable(items, func(i, j int) bool { return items[i].off < items[j].off })
		for _, x := range items {
			f.stmt(x.v)
		}
		f.add("}")
	case *parser.OneofField:
		f.text(t.Type)
		f.tail(t.FieldName, t.FieldNumber, t.FieldOptions)
	case *parser.Reserved:
		f.add("reserved")
		f.ranges(t.Ranges)
		for _, n := range t.FieldNames {
			f.text(n)
		}
	case *parser.Extensions:
		f.add("extensions")
		f.ranges(t.Ranges)
		if len(t.Declarations) > 0 {
			f.add("[")
			for _, d := range t.Declarations {
				f.add("declaration", "=", "{")
				pair := func(k, v string) {
					if v != "" {
						f.add(k, ":", v)
					}
				}
				flag := func(k string, v bool) {
					if v {
						f.add(k, ":", "true")
					}
				}
				pair("number", d.Number)
				pair("full_name", d.FullName)
				pair("type", d.Type)
				flag("repeated", d.Repeated)
				flag("reserved", d.Reserved)
				f.add("}")
			}
			f.add("]")
		}
	case *parser.EmptyStatement, *parser.Comment:
	default:
		f.add(fmt.Sprintf("<%T>", v))
	}
}

// normal brings a token sequence into the form in which the two sides are compared: separators dropped (the
// tree keeps them only in constants), adjacent literals joined and with canonical escapes, an empty method
// body left out, and the entries of a declaration sorted, without explicit falses.
func normal(in []string) []string {
	var out []string
	for i := 0; i < len(in); i++ {
		t := in[i]
		if t == ";" || t == "," {
			continue
		}
		if t[0] == '"' || t[0] == '\'' {
			s := canon(t)
			if n := len(out); n > 0 && out[n-1][0] == '"' {
				last := out[n-1]
				rest := strings.TrimRight(strings.TrimSuffix(last, "x"), "\\")
				if len(last)-len(rest) > 1 && strings.HasSuffix(last, "x") && (len(last)-1-len(rest))%2 == 1 {
					// An escape without digits takes those of the next part: there is no way to keep them apart.
					s = last[:len(last)-2] + canon("\"\\x" + s[1:] + "\"")[1:]
				} else {
					s = last + s[1:]
				}
				out = out[:n-1]
			}
			out = append(out, s)
			continue
		}
		out = append(out, t)
	}
	in, out = out, nil
	for i := 0; i < len(in); i++ {
		if in[i] == "declaration" && i+2 < len(in) && in[i+1] == "=" && in[i+2] == "{" {
			j := i + 3
			var entries []string
			for j+3 < len(in) && in[j] != "}" && in[j+1] == ":" && in[j+2] != "{" {
				if in[j+2] != "false" {
					entries = append(entries, strings.Join(in[j:j+3], "\x00"))
				}
				j += 3
			}
			if j < len(in) && in[j] == "}" {
				sort.Strings(entries)
				out = append(out, in[i:i+3]...)
				for _, e := range entries {
					out = append(out, strings.Split(e, "\x00")...)
				}
				i = j - 1
				continue
			}
		}
		// "rpc ... ) { }" and "rpc ... ) ;" say the same; no other block follows a closing parenthesis.
		if in[i] == "{" && i+1 < len(in) && in[i+1] == "}" && i > 0 && in[i-1] == ")" {
			i++
			continue
		}
		out = append(out, in[i])
	}
	return out
}

// canon rewrites a literal so that equal values with equal spelling of characters compare equal.
func canon(lit string) string {
	s := lit[1 : len(lit)-1]
	var b strings.Builder
	b.WriteByte('"')
	is := func(i int, set string) bool { return i < len(s) && strings.IndexByte(set, s[i]) >= 0 }
	for i := 0; i < len(s); {
		switch {
		case s[i] == '"' || s[i] == '\'':
			b.WriteByte('\\')
			b.WriteByte(s[i])
			i++
		case s[i] != '\\' || i+1 >= len(s):
			b.WriteByte(s[i])
			i++
		case is(i+1, "xX"):
			j := i + 2
			for j < i+4 && is(j, "0123456789abcdefABCDEF") {
				j++
			}
			b.WriteString(`\x`)
			if j-i-2 == 1 {
				b.WriteByte('0')
			}
			b.WriteString(s[i+2 : j])
			i = j
		case is(i+1, "01234567"):
			j := i + 1
			for j < i+4 && is(j, "01234567") {
				j++
			}
			b.WriteByte('\\')
			b.WriteString(strings.Repeat("0", 3-(j-i-1)))
			b.WriteString(s[i+1 : j])
			i = j
		default:
			b.WriteString(s[i : i+2])
			i += 2
		}
	}
	return b.String()
}

func sourceTokens(src string) []string {
	toks, _ := ref.Tokens(src)
	var out []string
	for i, t := range toks {
		if t.Start == t.End || i == 0 && t.Text == "\ufeff" {
			continue
		}
		out = append(out, src[t.Start:t.End])
	}
	return out
}

func (c *Ctx) conserved(src string, p *parser.Proto) {
	f := &flat{}
	if p.Syntax != nil {
		f.stmt(p.Syntax)
	}
	if p.Edition != nil {
		f.stmt(p.Edition)
	}
	for _, v := range p.ProtoBody {
		f.stmt(v)
	}
	got, want := normal(f.toks), normal(sourceTokens(src))
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "<end>", "<end>"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			lo := max(0, i-5)
			c.Fail("token %d of the source is %q, the tree has %q there\nsource: %q\ntree:   %q", i, w, g,
				want[min(lo, len(want)):min(i+6, len(want))], got[min(lo, len(got)):min(i+6, len(got))])
		}
	}
	c.Event("tokens accounted for", len(want))
}

func p04run(c *Ctx) {
	check := func(src string, o Opts) {
		if !gen.Valid(src) {
			src = string([]rune(src))
		}
		p, err := c.parse(src, o)
		if err != nil {
			return
		}
		c.input = src
		c.conserved(src, p)
		if r := ref.Parse(src, o.ref()); r.OK() {
			if d := same(r.Proto, p, dump.Structure); d != "" {
				c.Fail("the tree differs from the reference (wanted != got): %s", d)
			}
			c.Event("compared with the reference tree", 1)
		}
		c.Eval(len(p.ProtoBody) > 0, src)
	}
	if c.Index < editCases() {
		c.texts(0, func(src string) {
			check(src, Opts{Default: true, Body: c.Index%2 == 0})
			check(src, Opts{Strict: true})
		})
		return
	}
	if c.session == nil && c.Index%2 == 0 {
		c.near(func(src string) { check(src, Opts{Strict: c.Intn(4) == 0, Body: c.Intn(2) == 0}) })
		return
	}
	for i := 0; i < 6; i++ {
		check(c.source(i%2 == 1), Opts{Strict: c.Intn(4) == 0, Body: c.Intn(2) == 0})
	}
}

// P05: strict and permissive mode.

// swallow removes the empty statements that follow a block, as the permissive dialect does.
func swallow(vs []parser.Visitee) []parser.Visitee {
	var out []parser.Visitee
	block := false
	for _, v := range vs {
		if _, ok := v.(*parser.EmptyStatement); ok && block {
			block = false
			continue
		}
		block = false
		switch t := v.(type) {
		case *parser.Message:
			t.MessageBody = swallow(t.MessageBody)
			block = true
		case *parser.GroupField:
			t.MessageBody = swallow(t.MessageBody)
			block = true
		case *parser.Enum:
			t.EnumBody = swallow(t.EnumBody)
			block = true
		case *parser.Extend:
			t.ExtendBody = swallow(t.ExtendBody)
			block = true
		case *parser.Service:
			t.ServiceBody = swallow(t.ServiceBody)
			block = true
		case *parser.Oneof:
			block = true
		}
		if t, ok := v.(*parser.RPC); ok {
			block = t.Meta.LastPos.Offset < 0 || rpcBlock[t]
		}
		out = append(out, v)
	}
	return out
}

// rpcBlock tells which methods of the tree under comparison have a body; filled from the source.
var rpcBlock map[*parser.RPC]bool

func p05run(c *Ctx) {
	c.texts(6, func(src string) { c.p05one(src) })
	if c.Index < editCases() {
		return
	}
	for i := 0; i < 6; i++ {
		f := c.file(true)
		src := gen.Render(c.Rand, f.Toks, gen.RandLayout(c.Rand, c.Intn(2) == 0))
		p := c.p05one(src)
		if p == nil {
			c.Fail("a file in the permissive dialect is rejected by default")
		}
		f.Want.Meta = p.Meta
		if d := same(f.Want, p, dump.Structure); d != "" {
			c.Fail("a permissive extension is not represented faithfully (wanted != got): %s", d)
		}
		c.Event("permissive extensions used", f.Ext)
	}
}

func (c *Ctx) p05one(src string) *parser.Proto {
	valid := gen.Valid(src)
	if !valid {
		src = string([]rune(src))
	}
	def, derr := c.parse(src, Opts{Default: true})
	per, perr := c.parse(src, Opts{})
	str, serr := c.parse(src, Opts{Strict: true})
	c.input = src
	if (derr == nil) != (perr == nil) || errPos(derr) != errPos(perr) {
		c.Fail("permissive is not the default: default %v, permissive %v", derr, perr)
	}
	if derr == nil {
		if d := same(def, per, dump.All); d != "" {
			c.Fail("permissive is not the default (default != permissive): %s", d)
		}
	}
	if serr == nil && perr != nil {
		c.Fail("accepted in strict mode, rejected in permissive mode: %v", perr)
	}
	rs, rp := ref.Parse(src, ref.Config{Strict: true}), ref.Parse(src, ref.Config{})
	if serr == nil && !rs.OK() {
		c.Fail("strict mode accepts what the strict grammar does not derive (offset %d)", rs.Toks[rs.Bad].Start)
	}
	if perr == nil && !rp.OK() {
		c.Fail("permissive mode accepts what neither the grammar nor its documented extensions derive (offset %d)", rp.Toks[rp.Bad].Start)
	}
	if serr == nil {
		if d := same(rs.Proto, str, dump.Structure); d != "" {
			c.Fail("strict tree (wanted != got): %s", d)
		}
		c.Event("strict accepted", 1)
		// Where no block is followed by a semicolon the trees are equal in every respect.
		if rp.OK() && rp.Features["semicolon after block"] == 0 {
			if d := same(str, per, dump.All); d != "" {
				c.Fail("strict and permissive trees differ (strict != permissive): %s", d)
			}
			c.Event("strict tree = permissive tree", 1)
		} else {
			c.Event("strict tree = permissive tree but for block semicolons", 1)
			if d := same(stripBlockSemis(str, src), per, dump.Structure); d != "" {
				c.Fail("strict and permissive trees differ in more than the semicolons behind blocks (strict != permissive): %s", d)
			}
		}
	}
	if perr == nil {
		if d := same(rp.Proto, per, dump.Structure); d != "" {
			c.Fail("permissive tree (wanted != got): %s", d)
		}
		if serr != nil {
			c.Event("accepted only in permissive mode", 1)
		}
	}
	c.Eval(perr == nil && len(rp.Features) > 0, src)
	return per
}

// stripBlockSemis changes the strict tree (a fresh one, owned by the caller) to what permissive mode returns.
func stripBlockSemis(p *parser.Proto, src string) *parser.Proto {
	rpcBlock = map[*parser.RPC]bool{}
	for _, n := range inventory(p) {
		if r, ok := n.v.(*parser.RPC); ok {
			if o := r.Meta.LastPos.Offset; o >= 0 && o < len(src) && src[o] == '}' {
				rpcBlock[r] = true
			}
		}
	}
	p.ProtoBody = swallow(p.ProtoBody)
	return p
}

func init() {
	register(&Prop{
		ID: "P02", Guided: true, First: p02First, Cases: func(t string) int { return p02First() + scale(9000, 250000)(t) }, Run: p02run, MinNontrivial: 5000,
		MinEvents: map[string]int64{"gen:declaration": 100, "gen:group": 100, "gen:ext:aggregate": 100, "gen:ext:adjacent strings": 100, "gen:rpc": 100, "gen:oneof": 100, "conforming edits": 5000, "long conforming files": 20, "more siblings than levels": 60},
		Rule:      "the edits of small files and statements that the reference grammar derives; long files; more blocks, lists and aggregates side by side than may nest; and conforming files from a generator that keeps its own record of the content, in two layouts each, default options and (without extensions) strict mode; non-trivial = a distinct source with at least one statement whose whole tree was compared with the record",
	})
	register(&Prop{
		ID: "P03", Guided: true, First: editCases, Cases: func(t string) int { return editCases() + scale(4000, 150000)(t) }, Run: p03run, MinNontrivial: 20000,
		MinEvents: map[string]int64{"exhaustive edits": 10000, "outside the grammar": 20000},
		Rule:      "all single-token edits (delete, duplicate, swap, cut, replace by and insert each of a vocabulary) of small files that use every construct, and random token/byte mutants of generated files, in default and strict mode; non-trivial = a distinct source that the recogniser places outside the grammar behind its first token",
	})
	register(&Prop{
		ID: "P04", Guided: true, First: editCases, Cases: func(t string) int { return editCases() + scale(5000, 150000)(t) }, Run: p04run, MinNontrivial: 8000,
		MinEvents: map[string]int64{"tokens accounted for": 200000, "compared with the reference tree": 5000},
		Rule:      "generated files, mutants and exhaustive edits that the library accepts; the token sequence rendered from the tree must be the token sequence of the source, and the tree that of the reference parser; non-trivial = a distinct accepted source with a statement",
	})
	register(&Prop{
		ID: "P05", Guided: true, First: editCases, Cases: func(t string) int { return editCases() + scale(2500, 80000)(t) }, Run: p05run, MinNontrivial: 8000,
		MinEvents: map[string]int64{"accepted only in permissive mode": 1000, "strict tree = permissive tree": 2000, "strict tree = permissive tree but for block semicolons": 200, "permissive extensions used": 1000},
		Rule:      "each source parsed with default, permissive and strict options: generated files rich in extensions, mutants and exhaustive edits; non-trivial = a distinct source with a statement accepted in permissive mode",
	})
}
