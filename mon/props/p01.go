package props

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"reflect"
	"runtime/debug"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"

	"verif/mon/gen"
)

// floodReader counts reads behind the end of the input.
type floodReader struct {
	s     string
	after int
	// what stands for the end, if not the end
	err error
}

const floodLimit = 3_000_000

func (r *floodReader) Read(b []byte) (int, error) {
	if len(r.s) == 0 {
		if r.after++; r.after > floodLimit {
			panic(fmt.Sprintf("no progress: %d reads behind the end of the input", r.after))
		}
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := copy(b, r.s)
	r.s = r.s[n:]
	return n, nil
}

// stepWriter counts log lines, one per lexer step in debug mode.
type stepWriter struct{ steps, limit int }

func (w *stepWriter) Write(b []byte) (int, error) {
	if w.steps++; w.limit > 0 && w.steps > w.limit {
		panic(fmt.Sprintf("no progress: more than %d lexer steps", w.limit))
	}
	return len(b), nil
}

// sound checks that every body holds only non-nil statements of its documented kinds.
func (c *Ctx) sound(p *parser.Proto, body bool) {
	var walk func(v reflect.Value, field string)
	walk = func(v reflect.Value, field string) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem(), field)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" {
					walk(v.Field(i), f.Name)
				}
			}
		case reflect.Slice:
			kinds, isBody := allowed[field]
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				if e.Kind() == reflect.Interface || e.Kind() == reflect.Pointer {
					if e.IsNil() || e.Kind() == reflect.Interface && e.Elem().Kind() == reflect.Pointer && e.Elem().IsNil() {
						c.Fail("nil element %s[%d]", field, i)
					}
				}
				if e.Kind() == reflect.Interface && isBody {
					k := strings.TrimPrefix(e.Elem().Type().String(), "*parser.")
					if k == "Comment" && body {
						continue
					}
					if !strings.Contains(" "+kinds+" ", " "+k+" ") {
						c.Fail("%s[%d] is a %s", field, i, k)
					}
					e = e.Elem()
				}
				walk(e, "")
			}
		}
	}
	walk(reflect.ValueOf(p), "")
	r := &recorder{limit: 20_000_000}
	p.Accept(r)
	c.Event("visited", len(r.calls))
	if _, err := protoparser.UnorderedInterpret(p); err != nil {
		c.Fail("the tree cannot be interpreted: %v", err)
	}
	c.Event("interpreted", 1)
}

func (c *Ctx) p01one(src string, o Opts) bool {
	c.input = src
	w := &stepWriter{}
	if o.Debug {
		w.limit = 1000*len(src) + 100000
	}
	log.SetOutput(w)
	defer log.SetOutput(io.Discard)
	r := &floodReader{s: src}
	p, err := protoparser.Parse(r, o.list()...)
	if (p == nil) == (err == nil) {
		c.Fail("Parse returned tree=%v and err=%v", p != nil, err)
	}
	c.Event("lexer steps watched", w.steps)
	c.Event("reads at end of input", r.after)
	if p != nil {
		c.Event("accepted", 1)
		c.sound(p, o.Body)
	} else {
		c.Event("rejected", 1)
	}
	if o.Debug && len(src) < 5000 { // the same from a reader that fails at the end
		w.steps = 0
		p, err := protoparser.Parse(&floodReader{s: src, err: errFault}, o.list()...)
		if p != nil || err == nil {
			c.Fail("Parse from a failing reader returned tree=%v and err=%v", p != nil, err)
		}
		c.Event("ended by a failing reader", 1)
	}
	return p != nil
}

func (c *Ctx) randOpts() Opts {
	return Opts{Strict: c.Intn(3) == 0, Body: c.Intn(2) == 0, Debug: c.Intn(4) == 0,
		Filename: c.filename()}
}

func deep(kind string, n int) (open, end string) {
	switch kind {
	case "message":
		return strings.Repeat("message A{", n), strings.Repeat("}", n)
	case "message;":
		return strings.Repeat("message A{", n), strings.Repeat("};", n)
	case "group":
		return "message A{" + strings.Repeat("optional group B=1{", n-1), strings.Repeat("}", n)
	case "list":
		return "option a=" + strings.Repeat("[", n), strings.Repeat("]", n) + ";"
	case "aggregate":
		return "option a=" + strings.Repeat("{a:", n-1) + "{", strings.Repeat("}", n) + ";"
	case "aggregate2":
		return "option a=" + strings.Repeat("{a", n-1) + "{", strings.Repeat("}", n) + ";"
	case "mixed":
		return "message A{string a=1[(b)=" + strings.Repeat("{a:[", n/2), strings.Repeat("]}", n/2) + "];}"
	case "enumopt":
		return "enum A{B=1[c=" + strings.Repeat("[[", n/2), strings.Repeat("]]", n/2) + "];}"
	case "rpcopt":
		return "service A{rpc B(C)returns(D){option e=" + strings.Repeat("{a{b:[", n/4) + "{", "}" + strings.Repeat("]}}", n/4) + ";}}"
	case "paren":
		return "option " + strings.Repeat("(", n), strings.Repeat(")", n)
	case "less":
		return "message A{map" + strings.Repeat("<", n), strings.Repeat(">", n)
	case "enum":
		return strings.Repeat("enum A{", n), strings.Repeat("}", n)
	case "extend":
		return strings.Repeat("extend A{", n), strings.Repeat("}", n)
	case "msgext":
		return strings.Repeat("message A{extend B{", n/2), strings.Repeat("}}", n/2)
	case "oneof":
		return "message A{" + strings.Repeat("oneof A{", n), strings.Repeat("}", n+1)
	case "comment":
		return strings.Repeat("/*", n), strings.Repeat("*/", n)
	case "comments":
		return strings.Repeat("/**/", n), ""
	case "lines":
		return strings.Repeat("//\n", n), ""
	case "spaces":
		return strings.Repeat(" ", n), ""
	case "newlines":
		return strings.Repeat("\n", n), ""
	case "semicolons":
		return strings.Repeat(";", n), ""
	case "minus":
		return "option a=" + strings.Repeat("-", n), ""
	case "dots":
		return "package a" + strings.Repeat(".a", n), ";"
	case "strings":
		return "option a=" + strings.Repeat(`""`, n), ";"
	case "bom":
		return strings.Repeat("\ufeff", n), ""
	case "backslash":
		return "option a=\"" + strings.Repeat("\\", n), "\";"
	case "nul":
		return strings.Repeat("\x00", n), ""
	case "bad utf8":
		return strings.Repeat("\xff", n), ""
	}
	panic(kind)
}

var deepKinds = strings.Split("message|message;|group|list|aggregate|aggregate2|mixed|enumopt|rpcopt|paren|less|enum|extend|msgext|oneof|comment|comments|lines|spaces|newlines|semicolons|minus|dots|strings|bom|backslash|nul|bad utf8", "|")

// depths of the hostile inputs; the largest exhaust the stack of a parser without a limit.
var recursive = map[string]int{"message": 3_000_000, "message;": 3_000_000, "group": 2_500_000, "list": 8_000_000, "aggregate": 6_000_000,
	"aggregate2": 6_000_000, "mixed": 8_000_000, "enumopt": 8_000_000, "rpcopt": 8_000_000, "msgext": 2_000_000, "enum": 2_000_000, "extend": 2_000_000, "oneof": 2_000_000, "comments": 3_000_000, "lines": 3_000_000}

func p01deep(c *Ctx, k int) {
	kind := deepKinds[k%len(deepKinds)]
	sizes := []int{1000, 9000, 10000, 10001, 200000, 0}
	n := sizes[k/len(deepKinds)]
	if n == 0 {
		n = recursive[kind]
		if n == 0 {
			n = 1_000_000
		}
	}
	for _, closed := range []bool{true, false} {
		a, b := deep(kind, n)
		s := a
		if closed {
			s += b
		}
		c.input = s
		ok := c.p01one(s, Opts{Body: k%2 == 0})
		c.Event("hostile:"+kind, 1)
		c.Eval(true, fmt.Sprintf("%s x %d closed=%v accepted=%v", kind, n, closed, ok))
	}
}

// wideStack is the stack that inputs which are long but not deep have to do with.
const wideStack = 1 << 20

var wides = func() (l [][2]int) {
	for i, x := range unitCtxs {
		for j := range x.units {
			l = append(l, [2]int{i, j})
		}
	}
	return
}()

// p01wide parses a long row of one unit under a small stack: what recurs with the length of a row would exhaust any
// stack.
func p01wide(c *Ctx, k int) {
	x := unitCtxs[wides[k][0]]
	u := x.units[wides[k][1]]
	n := 20000
	if len(u) < 8 {
		n = 60000
	}
	var b strings.Builder
	b.WriteString(x.pre)
	repeatUnits(&b, []string{u}, x.sep, n)
	open := b.String()
	c.input = fmt.Sprintf("%q, %d times %q, %q", x.pre, n, u, x.post)
	defer debug.SetMaxStack(debug.SetMaxStack(wideStack))
	for i, s := range []string{open + x.post, open + breaks[c.Intn(len(breaks))], open + x.post} {
		in := c.input
		ok := c.p01one(s, Opts{Body: (i+k)%2 == 0, Strict: i == 2})
		c.input = in
		c.Event("rows under a small stack", 1)
		c.Eval(true, fmt.Sprint(i, ok, in))
	}
}

var atoms = []string{"syntax", "edition", "import", "package", "option", "message", "enum", "service", "rpc", "returns", "stream", "extend", "oneof", "map",
	"reserved", "extensions", "declaration", "number", "group", "repeated", "to", "max", "a", "B", "1", "0x", "1.", ".", "=", ";", "{", "}", "[", "]", "(", ")", "<", ">", ",", ":",
	"\"", "'", "\"s\"", "'proto3'", "-", "+", "/", "//c\n", "/*c*/", "/*", "\n", " ", "\x00", "\\", "\ufeff", "\xff", "\xe3\x81", "é"}

func p01run(c *Ctx) {
	nd := len(deepKinds) * 6
	if c.Index < nd {
		p01deep(c, c.Index)
		return
	}
	if nd += len(wides); c.Index < nd {
		p01wide(c, c.Index-nd+len(wides))
		return
	}
	if k := c.Index - nd; k < editCases() {
		for i := k * editChunk; i < (k+1)*editChunk && i < exhaustiveTotal; i++ {
			src := exhaustive(i)
			ok := c.p01one(src, Opts{Strict: i%3 == 0, Body: i%2 == 0, Debug: i%5 == 0})
			c.Event("exhaustive edits", 1)
			c.Eval(true, fmt.Sprint(ok, src))
		}
		return
	}
	switch (c.Index - nd) % 5 {
	case 0: // token soup
		var b bytes.Buffer
		for n := c.Intn(60); n > 0; n-- {
			b.WriteString(atoms[c.Intn(len(atoms))])
			if c.Intn(2) == 0 {
				b.WriteString(" ")
			}
		}
		ok := c.p01one(b.String(), Opts{Debug: true, Strict: c.Intn(3) == 0, Body: c.Intn(2) == 0})
		c.Eval(true, fmt.Sprint(ok, b.String()))
	case 1: // bytes
		b := make([]byte, c.Intn(200))
		for i := range b {
			b[i] = byte(c.Intn(256))
		}
		ok := c.p01one(string(b), Opts{Debug: true, Body: c.Intn(2) == 0})
		c.Eval(len(b) > 0, fmt.Sprint(ok, string(b)))
	case 2: // every prefix of a file
		f := gen.New(c.Rand, gen.Conf{Permissive: true, Stmts: 2, Depth: 2, Width: 3})
		s := gen.Render(c.Rand, f.Toks, gen.RandLayout(c.Rand, true))
		if len(s) > 1500 {
			s = s[:1500]
		}
		o := c.randOpts()
		for i := 0; i <= len(s); i++ {
			o.Debug = i%3 == 0
			ok := c.p01one(s[:i], o)
			c.Eval(i > 0, fmt.Sprint(ok, s[:i]))
		}
	default:
		s := c.source(c.Intn(4) != 0)
		for i := 0; i < 8; i++ {
			ok := c.p01one(s, Opts{Strict: i&1 != 0, Body: i&2 != 0, Debug: i&4 != 0})
			if i == 0 {
				c.Eval(true, fmt.Sprint(ok, s))
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "P01", Guided: true, First: func() int { return len(deepKinds)*6 + len(wides) + editCases() },
		Cases: func(t string) int { return len(deepKinds)*6 + len(wides) + editCases() + scale(6000, 200000)(t) },
		Run:   p01run,
		Rule: "all single-token edits, statement splices and single-character edits of small files, token soup, random bytes, every prefix of generated files, token/byte mutants under all option sets, hostile inputs nested or repeated up to 8 million times, and every unit of the grammar in rows of up to 60000 under a stack of 1 MiB; " +
			"non-trivial = a distinct non-empty input whose parse ended and whose tree, if any, was checked for soundness, walked and interpreted",
		MinNontrivial: 5000,
		MinEvents:     map[string]int64{"accepted": 500, "rejected": 500, "rows under a small stack": 400, "ended by a failing reader": 20000, "lexer steps watched": 100000, "visited": 10000},
		Assumptions:   []string{"termination is restated as bounded progress: lexer steps, reads behind the end of input, and a CPU-time watchdog confirmed by a second run"},
	})
}
