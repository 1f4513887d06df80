package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/coverage"
	"strconv"
	"strings"
	"syscall"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"

	"verif/mon/gen"
)

// P19: cost. A family lengthens one construct; the cost of its members is measured in executed statements of the
// library (coverage counters), allocated bytes and, coarsely, processor time.

// unit is one repeated piece. %d is replaced by a running number.
type unitCtx struct {
	name, pre, post, sep string
	units                []string
}

var unitCtxs = []unitCtx{
	{"file", "", "", "\n", []string{
		"message M%d { string a = 1; }", "message M%d {}", "enum E%d { A = 0; }", "service S%d { rpc A(B) returns (C); }", "extend E%d { int32 a = 1; }",
		"import \"a%d.proto\";", "import public 'b%d';", "package a.b%d;", "option a%d = 1;", "option (a.b%d).c = \"d\";", "option o%d = { a: 1 b { c: 'd' } };", ";",
		"// c%d\n", "/* c%d */", "/* c%d */ import \"a\";", "// x\n// y\nmessage M%d {} // z\n", "option s = 'a' \"b%d\";", "message A { message B { message C%d {} } }", "message G { optional group B%d = 1 { int32 a = 1; } }",
		"service S { rpc A(B) returns (C) { option a%d = 1; } }", "\n\n\n\n/**/;", "message M { oneof a { int32 b%d = 1; } }"}},
	{"message", "message A {", "}", "\n", []string{
		"string a%d = 1;", "repeated a.b.C c%d = 2;", "optional .x.Y z%d = 3 [a = 1, (b).c = 'd'];", "map<int32, string> m%d = 4;", "map<string, a.B> m%d = 4 [a = 1];", "oneof o%d { string a = 1; }",
		"reserved %d;", "reserved 1 to %d;", "reserved \"a%d\";", "extensions %d to max;", "extensions 4 [declaration = { number: %d }];", "option a%d = 1;", "option (a%d) = { b: [1, 2] };", "enum E%d { A = 0; }", "message M%d {}", "extend E%d { int32 a = 1; }",
		"repeated group B%d = 1 {}", "optional group Group%d = 1 { int32 a = 1; option b = 1; }", ";", "// c%d\n", "/* c%d */", "// c\nstring a%d = 1; // d\n", "group B%d = 1 { /* c */ }", "optional message m%d = 1;", "int32 a%d = 1 [ b = -1 ];"}},
	{"enum", "enum A {", "}", "\n", []string{"A%d = 0;", "A = -%d;", "A%d = 1 [a = 1];", "A%d = 1 [(a).b = 'c', d = { e: 1 }];", "option a%d = 1;", "reserved %d;", "reserved -1 to %d;", "reserved 'a%d';", ";", "// c%d\n", "/* x */ A%d = 1; // y\n"}},
	{"service", "service A {", "}", "\n", []string{"rpc A%d(B) returns (C);", "rpc A%d(stream .a.B) returns (stream c.D) {}", "rpc A%d(B) returns (C) { option a = 1; option b = { c: 1 }; }", "// c%d\nrpc A(B) returns (C); // d\n",
		"rpc /* a */ A%d /* b */ ( /* c */ B /* d */ ) /* e */ returns /* f */ ( C /* g */ ) /* h */ ;", "rpc A(B) returns (C) { // c%d\n}", "option a%d = 1;", ";", "/* c%d */", "// c%d\n", "rpc A(B) returns (C) {};", "rpc A(B) // c%d\n returns (C) {;;}"}},
	{"extend", "extend A {", "}", "\n", []string{"string a%d = 1;", "repeated a.B c%d = 2 [a = 1];", ";", "// c%d\n"}},
	{"oneof", "message A { oneof b {", "} }", "\n", []string{"string a%d = 1;", "a.B c%d = 2 [a = 1];", "option a%d = 1;", ";", "// c%d\nC d = 1; // e\n", "/* c%d */"}},
	{"group", "message A { optional group B = 1 {", "} }", "\n", []string{"string a%d = 1;", "optional group C%d = 1 { int32 a = 1; }", ";", "// c%d\n"}},
	{"field options", "message A { string a = 1 [z = 1,", "y = 1]; }", "", []string{"a%d = 1,", "(a.b%d).c = 'd',", "a%d = { b: 1 },", "a = 'b' 'c%d',", "a%d = [1, 2],", "/* c%d */", "// c%d\n"}},
	{"enum value options", "enum A { B = 1 [z = 1,", "y = 1]; }", "", []string{"a%d = 1,", "(a.b%d).c = 'd',", "a%d = { b: 1 },", "// c%d\n"}},
	{"rpc options", "service A { rpc B(C) returns (D) {", "} }", "\n", []string{"option a%d = 1;", "option (a%d) = { b: 1 };", ";", "/* c%d */ option a = 1; // d\n"}},
	{"reserved ranges", "message A { reserved 1", "; }", "", []string{", %d", ", 2 to %d", ", 3 to max", "/* c%d */"}},
	{"reserved names", "message A { reserved 'a'", "; }", "", []string{", 'b%d'", ", \"c%d\"", " 'd%d'"}},
	{"reserved identifiers", "message A { reserved a", "; }", "", []string{", b%d", " c%d"}},
	{"extension ranges", "message A { extensions 1", "; }", "", []string{", %d", ", 2 to %d"}},
	{"declarations", "message A { extensions 1 to max [declaration = { number: 1 }", "]; }", "", []string{", declaration = { number: %d, full_name: '.a', type: \"b\", reserved: true }", ", /* c%d */ declaration = { } // d\n"}},
	{"list", "option a = [0", "];", "", []string{", %d", ", -1.5", ", 'a%d'", ", a.b%d", ", { b: 1 }", ", [1, 2]", ", 'a' \"b%d\"", "/* c%d */"}},
	{"field option list", "message A { string a = 1 [b = [0", "]]; }", "", []string{", %d", ", { b: 1 }"}},
	{"aggregate", "option a = {", "};", "", []string{"a: %d,", "a%d: 1;", "a: %d ", "a { b: %d }", "a: { b: 1 }, ", "a: [1, %d] ", "a: 'b' 'c%d' ", "a: \"b%d\"\n", "[a.b/c.d%d]: 1 ", "/* c%d */", "// c%d\n", "a: -1.5e3 ", "a: TRUE "}},
	{"rpc option aggregate", "service A { rpc B(C) returns (D) { option (a) = {", "}; } }", "\n", []string{"a: %d", "a { b: 'c%d' }", "// c%d\n"}},
	{"adjacent strings", "option a = ''", ";", " ", []string{"'a%d'", "\"b%d\"", "'a' \"b'%d\"", "'\\x1' 'f'", "'\\'' \"\\\"\"", "/* c%d */ 'x'", "''", "'é日😀'"}},
	{"package", "package a", ";", "", []string{".a%d", ". /* c */ b", " .\nc"}},
	{"message type", "message A { a", " b = 1; }", "", []string{".a%d"}},
	{"rpc type", "service A { rpc B(a", ") returns (stream C); }", "", []string{".a%d"}},
	{"option name", "option a", " = 1;", "", []string{".a%d", ".(b%d)", ".(.c.d)"}},
	{"extension name", "option (a", ").b = 1;", "", []string{".a%d"}},
	{"constant", "option a = b", ";", "", []string{".a%d"}},
	{"string", "option a = 'a", "';", "", []string{"b", "é", "\\n", "\\x41", "\\\\", "\"", "\\u0041", "//", "\\'", " "}},
	{"import", "import 'a", "';", "", []string{"b", "/", "\\x41"}},
	{"identifier", "message A", " {}", "", []string{"b", "1", "_", "true"}},
	{"field name", "message A { string a", " = 1; }", "", []string{"b", "true", "inf"}},
	{"number", "option a = 1", ";", "", []string{"2"}},
	{"hex number", "option a = 0x1", ";", "", []string{"f"}},
	{"octal number", "option a = 01", ";", "", []string{"7"}},
	{"fraction", "option a = 1.", ";", "", []string{"2"}},
	{"exponent", "option a = 1.5e", ";", "", []string{"2"}},
	{"block comment", "/*", "*/ message A {}", "", []string{"a", "*", "/", "\n", "é", "\r\n", "//", "/*", " * a\n"}},
	{"line comment", "//", "\nmessage A {}", "", []string{"a", "/", "é", "\r", "*/", "/*"}},
	{"inline comment", "message A {} //", "\n", "", []string{"a"}},
	{"behind brace", "message A { /*", "*/ }", "", []string{"a", "\n"}},
	{"embedded comment", "service A { rpc B /*", "*/ (C) returns (D); }", "", []string{"a", "\n", "*"}},
	{"white space", "message A {", "}", "", []string{" ", "\n", "\t", "\r\n", "\u00a0", "\r"}},
	{"leading white space", "", "message A {}", "", []string{" ", "\n"}},
	{"one line", "message A {", "}", " ", []string{"string a = %d;", "/* c */ string a = 1;"}},
	{"no space", "message A{", "}", "", []string{"string a=%d;", "a.B c=1[d=2];", "map<int32,a>b=%d;"}},
}

// nests are the constructs that nest; the depth stays below the documented limit.
var nests = []struct{ name, pre, open, mid, shut, post string }{
	{"messages", "", "message A{", "", "}", ""},
	{"messages with fields", "", "message A{ int32 a = 1; // c\n", "", "/* d */ } // e\n", ""},
	{"messages in permissive blocks", "", "message A{", "", "};", ""},
	{"groups", "message A{", "optional group B=1{", "", "}", "}"},
	{"bare groups", "message A{", "group B=1{ int32 c = 1;", "", "}", "}"},
	{"lists", "option a=", "[", "", "]", ";"},
	{"lists with elements", "option a=", "[1,", "2", ",3]", ";"},
	{"aggregates", "option a=", "{a:", "1", "}", ";"},
	{"aggregates without colon", "option a={", "a{", "b:1", "}", "};"},
	{"aggregates with more", "option a=", "{a:1 c:", "1", ", d:2 }", ";"},
	{"aggregates and lists", "option a=", "{a:[", "1", "]}", ";"},
	{"field option", "message A{string a=1[(b)=", "{a:", "1", "}", "];}"},
	{"enum option", "enum A{B=1[c=", "[{a:", "1", "}]", "];}"},
	{"rpc option", "service A{rpc B(C)returns(D){option e=", "{a{b:[", "1", "]}}", ";}}"},
	{"unclosed messages", "", "message A{", "", "", ""},
	{"unclosed lists", "option a=", "[", "", "", ""},
	{"unclosed aggregates", "option a={", "a{", "", "", ""},
	{"unclosed groups", "message A{", "optional group B=1{", "", "", ""},
}

type family struct {
	name  string
	text  func(n int) string
	depth int // most units, 0 for no limit
}

func fill(u string, i int) string {
	if strings.Contains(u, "%d") {
		return strings.ReplaceAll(u, "%d", strconv.Itoa(i+1))
	}
	return u
}

func repeatUnits(b *strings.Builder, us []string, sep string, n int) {
	for i := 0; i < n; i++ {
		for _, u := range us {
			b.WriteString(fill(u, i))
			b.WriteString(sep)
		}
	}
}

// breaks are what comes behind a long input to make it nonconforming.
var breaks = []string{"", "message", "}", "\"", "/*", "option a = ", "{", "message A {", "\x00", "=", "service A { rpc B(", "'\\", "option a = { b", "message A { optional group B = "}

func blockFamily(x unitCtx, us []string, tail string) family {
	return family{name: fmt.Sprintf("%s: %q + %q", x.name, us, tail), text: func(n int) string {
		var b strings.Builder
		b.WriteString(x.pre)
		repeatUnits(&b, us, x.sep, n)
		b.WriteString(x.post)
		b.WriteString(tail)
		return b.String()
	}}
}

var fixedFamilies = func() (fs []family) {
	for _, x := range unitCtxs {
		for _, u := range x.units {
			fs = append(fs, blockFamily(x, []string{u}, ""))
		}
	}
	for _, k := range nests {
		fs = append(fs, family{name: "nested " + k.name, depth: 9000, text: func(n int) string {
			return k.pre + strings.Repeat(k.open, n) + k.mid + strings.Repeat(k.shut, n) + k.post
		}})
	}
	for _, t := range breaks[1:] {
		fs = append(fs, blockFamily(unitCtxs[0], []string{"message M%d { string a = 1; } // c\n"}, t))
	}
	for _, x := range unitCtxs { // cut off
		y := x
		y.post = ""
		fs = append(fs, blockFamily(y, []string{x.units[0]}, ""))
	}
	return
}()

var gapFillers = []string{" ", "\n", "\t", "/**/", "//\n", "/* a */ ", "\r\n", "// é\n"}

var kitchenGaps = func() (n int) {
	for _, k := range kitchens {
		n += len(strings.Fields(k)) + 1
	}
	return
}()

// gapFamily fills one gap of a kitchen sink.
func gapFamily(k int, filler string) family {
	for _, s := range kitchens {
		toks := strings.Fields(s)
		if k > len(toks) {
			k -= len(toks) + 1
			continue
		}
		a, b := strings.Join(toks[:k], " "), strings.Join(toks[k:], " ")
		return family{name: fmt.Sprintf("%q x n after %q", filler, clip(a, 200)), text: func(n int) string {
			return a + " " + strings.Repeat(filler, n) + " " + b
		}}
	}
	panic("out of range")
}

// tokenFamily lengthens one token of a kitchen sink; ok is false if the token has a fixed text.
func tokenFamily(k int, piece string) (family, bool) {
	for _, s := range kitchens {
		toks := strings.Fields(s)
		if k >= len(toks) {
			k -= len(toks) + 1
			if k < 0 {
				return family{}, false
			}
			continue
		}
		t := toks[k]
		a, b := strings.Join(toks[:k], " "), strings.Join(toks[k+1:], " ")
		head, tail := t, ""
		switch {
		case t[0] == '"' || t[0] == '\'':
			head, tail = t[:1], t[:1]
		case len(t) == 1 && 'A' <= t[0] && t[0] <= 'z' && t[0] != '[' && t[0] != ']':
			piece = "x"
		case t[0] >= '0' && t[0] <= '9' && !strings.Contains(t, "x"):
			piece = "1"
		default:
			return family{}, false
		}
		return family{name: fmt.Sprintf("token %q with n times %q after %q", t, piece, clip(a, 200)), text: func(n int) string {
			return a + " " + head + strings.Repeat(piece, n) + tail + " " + b
		}}, true
	}
	return family{}, false
}

func (c *Ctx) randomFamily() family {
	switch c.Intn(8) {
	case 0:
		return gapFamily(c.Intn(kitchenGaps), gapFillers[c.Intn(len(gapFillers))])
	case 1:
		for {
			if f, ok := tokenFamily(c.Intn(kitchenGaps), []string{"a", "\\x41", "é", "\\\\"}[c.Intn(4)]); ok {
				return f
			}
		}
	case 2: // a generated file, repeated
		f := gen.New(c.Rand, gen.Conf{Permissive: true, Stmts: 2, Depth: 2, Width: 3})
		toks := f.Toks
		for i, t := range toks {
			if t == "syntax" || t == "edition" || t == "\ufeff" {
				toks = append(toks[:i:i], "option")
				break
			}
		}
		s := gen.Render(c.Rand, toks, gen.RandLayout(c.Rand, true))
		return family{name: fmt.Sprintf("generated %q", clip(s, 300)), text: func(n int) string { return strings.Repeat(s+"\n", n) }}
	}
	x := unitCtxs[c.Intn(len(unitCtxs))]
	if c.Intn(2) == 0 {
		x = unitCtxs[c.Intn(4)]
	}
	var us []string
	for n := 1 + c.Intn(4); n > 0; n-- {
		us = append(us, x.units[c.Intn(len(x.units))])
	}
	tail := ""
	if c.Intn(4) == 0 {
		tail = breaks[c.Intn(len(breaks))]
	}
	if c.Intn(2) == 0 { // first all of one unit, then all of the next
		return family{name: fmt.Sprintf("%s blocks: %q + %q", x.name, us, tail), text: func(n int) string {
			var b strings.Builder
			b.WriteString(x.pre)
			for _, u := range us {
				repeatUnits(&b, []string{u}, x.sep, n)
			}
			b.WriteString(x.post)
			return b.String() + tail
		}}
	}
	if c.Intn(3) == 0 { // a long construct inside each of many statements: both grow
		y := unitCtxs[4+c.Intn(len(unitCtxs)-4)]
		u := y.units[c.Intn(len(y.units))]
		return family{name: fmt.Sprintf("statements %s with %q, both many", y.name, u), text: func(n int) string {
			k := 1
			for k*k < n {
				k++
			}
			var in, b strings.Builder
			in.WriteString(y.pre)
			repeatUnits(&in, []string{u}, y.sep, k)
			in.WriteString(y.post + "\n")
			for i := 0; i < k; i++ {
				b.WriteString(in.String())
			}
			return b.String()
		}}
	}
	return blockFamily(x, us, tail)
}

// sized is a member of the family of about the given size.
func (f family) sized(bytes int) (s string, n int) {
	lo := 1
	if k := len(f.text(64)) - len(f.text(0)); k > 0 {
		lo = bytes * 64 / k
	}
	for n = max(lo, 1); ; n = n * 3 / 4 { // units with numbers and products are not quite proportional
		if f.depth > 0 && n > f.depth {
			n = f.depth
		}
		s = f.text(n)
		if len(s) <= bytes*5/4 || n <= 1 {
			return s, n
		}
	}
}

type cost struct {
	bytes int
	stmts int64
	alloc int64
	cpu   float64
}

func (c cost) String() string {
	return fmt.Sprintf("%d bytes: %d statements, %d bytes allocated, %.3f s", c.bytes, c.stmts, c.alloc, c.cpu)
}

func cpuNow() float64 {
	var u syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &u))
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// tiny delivers few bytes at a time.
type tiny struct{ io.Reader }

func (t tiny) Read(b []byte) (int, error) {
	if len(b) > 7 {
		b = b[:7]
	}
	return t.Reader.Read(b)
}

func runParse(src []byte, o Opts, slow bool) {
	var r io.Reader = bytes.NewReader(src)
	if slow {
		r = tiny{r}
	}
	p, err := protoparser.Parse(r, o.list()...)
	if err != nil {
		return
	}
	p.Accept(walker{})
	_, err = protoparser.UnorderedInterpret(p)
	must(err)
}

// walker visits everything.
type walker struct{}

func (walker) VisitComment(*parser.Comment)                    {}
func (walker) VisitDeclaration(*parser.Declaration) bool       { return true }
func (walker) VisitEdition(*parser.Edition) bool               { return true }
func (walker) VisitEmptyStatement(*parser.EmptyStatement) bool { return true }
func (walker) VisitEnum(*parser.Enum) bool                     { return true }
func (walker) VisitEnumField(*parser.EnumField) bool           { return true }
func (walker) VisitExtend(*parser.Extend) bool                 { return true }
func (walker) VisitExtensions(*parser.Extensions) bool         { return true }
func (walker) VisitField(*parser.Field) bool                   { return true }
func (walker) VisitGroupField(*parser.GroupField) bool         { return true }
func (walker) VisitImport(*parser.Import) bool                 { return true }
func (walker) VisitMapField(*parser.MapField) bool             { return true }
func (walker) VisitMessage(*parser.Message) bool               { return true }
func (walker) VisitOneof(*parser.Oneof) bool                   { return true }
func (walker) VisitOneofField(*parser.OneofField) bool         { return true }
func (walker) VisitOption(*parser.Option) bool                 { return true }
func (walker) VisitPackage(*parser.Package) bool               { return true }
func (walker) VisitReserved(*parser.Reserved) bool             { return true }
func (walker) VisitRPC(*parser.RPC) bool                       { return true }
func (walker) VisitService(*parser.Service) bool               { return true }
func (walker) VisitSyntax(*parser.Syntax) bool                 { return true }

// measure counts what one parse does.
func (c *Ctx) measure(src string, o Opts, slow bool) cost {
	b := []byte(src)
	var m0, m1 runtime.MemStats
	dir, err := os.MkdirTemp(filepath.Join(Root, "build"), "p19-")
	must(err)
	defer os.RemoveAll(dir)
	must(coverage.WriteMetaDir(dir))
	must(coverage.ClearCounters())
	runtime.ReadMemStats(&m0)
	t0 := cpuNow()
	runParse(b, o, slow)
	t1 := cpuNow()
	runtime.ReadMemStats(&m1)
	k := cost{bytes: len(b), alloc: int64(m1.TotalAlloc - m0.TotalAlloc), cpu: t1 - t0}
	must(coverage.WriteCountersDir(dir))
	out := filepath.Join(dir, "text")
	if msg, err := exec.Command(filepath.Join(Root, "build", "covdata"), "textfmt", "-i="+dir, "-o="+out).CombinedOutput(); err != nil {
		panic(trouble(fmt.Sprintf("covdata: %v %s", err, msg)))
	}
	f, err := os.Open(out)
	must(err)
	defer f.Close()
	for sc := bufio.NewScanner(f); sc.Scan(); {
		w := strings.Fields(sc.Text())
		if len(w) != 3 || !strings.HasPrefix(w[0], "github.com/yoheimuta/go-protoparser/") {
			continue
		}
		n, _ := strconv.ParseInt(w[1], 10, 64)
		x, _ := strconv.ParseInt(w[2], 10, 64)
		k.stmts += n * x
	}
	c.Event("statements executed", int(k.stmts))
	c.Event("measurements", 1)
	return k
}

// band names how far a growth is from proportional.
func band(x float64) string {
	for _, y := range []float64{0.9, 1.05, 1.15, 1.3, 1.5, 1.8} {
		if x < y {
			return fmt.Sprintf("below %.2f of proportional", y)
		}
	}
	return "above 1.80 of proportional"
}

func (c *Ctx) grows(f family, o Opts, slow bool) {
	sizes := []int{2000, 16000, 160000}
	if c.Thorough() {
		sizes = []int{2000, 16000, 128000, 800000}
	}
	var ks []cost
	for _, size := range sizes {
		s, n := f.sized(size)
		c.input = s
		k := c.measure(s, o, slow)
		if k.stmts == 0 {
			panic(trouble("no statements counted"))
		}
		if i := len(ks); i > 0 {
			p := ks[i-1]
			r := float64(k.bytes) / float64(p.bytes)
			if f.depth > 0 && r < 3 { // stopped by the depth limit
				break
			}
			if k.bytes <= p.bytes {
				break
			}
			c.Event("statement growth "+band(float64(k.stmts)/float64(p.stmts)/r), 1)
			c.Event("allocation growth "+band(float64(k.alloc)/float64(p.alloc)/r), 1)
			if float64(k.stmts) > 1.2*r*float64(p.stmts)+20000 {
				c.input = clip(s, 2000)
				c.Fail("%s %+v: %.1f times the input (%d units) takes %.1f times the statements\n%v\n%v", f.name, o, r, n, float64(k.stmts)/float64(p.stmts), p, k)
			}
			if float64(k.alloc) > 1.8*r*float64(p.alloc)+300000 {
				c.input = clip(s, 2000)
				c.Fail("%s %+v: %.1f times the input (%d units) allocates %.1f times the memory\n%v\n%v", f.name, o, r, n, float64(k.alloc)/float64(p.alloc), p, k)
			}
		}
		ks = append(ks, k)
	}
	c.Event("families measured", 1)
	c.Eval(true, fmt.Sprintf("%s %+v slow=%v", f.name, o, slow))
	c.time(f, o, slow)
}

// time compares processor time, for costs inside the standard library that neither counter shows.
func (c *Ctx) time(f family, o Opts, slow bool) {
	small, large := 100000, 800000
	if c.Thorough() {
		small, large = 250000, 2000000
	}
	if f.depth > 0 {
		return
	}
	dir, err := os.MkdirTemp(filepath.Join(Root, "build"), "p19-")
	must(err)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "src")
	run := func(s string) float64 { // in the build without counters
		c.input = clip(s, 2000)
		must(os.WriteFile(path, []byte(s), 0o600))
		out, err := exec.Command(filepath.Join(Root, "build", "mon-plain"), "-timeparse", path, "-timeopts", fmt.Sprintf("%v %v %v", o.Strict, o.Body, slow)).CombinedOutput()
		if err != nil {
			c.Fail("%s: the parse ended with %v\n%s", f.name, err, clip(string(out), 5000))
		}
		t, err := strconv.ParseFloat(strings.TrimSpace(string(out)), 64)
		must(err)
		return t
	}
	a, _ := f.sized(small)
	b, n := f.sized(large)
	r := float64(len(b)) / float64(len(a))
	if r < 2 {
		return
	}
	limit := func(ta float64) float64 { return max(ta, 0.1) * r * 3 }
	ta, tb := run(a), run(b)
	for i := 0; i < 5 && tb > limit(ta); i++ { // confirm, with the least of the large and the most of the small
		ta, tb = max(ta, run(a)), min(tb, run(b))
	}
	if tb > limit(ta) {
		c.Fail("%s %+v: %.1f times the input (%d bytes, %d units) takes %.2f s instead of %.2f s of processor time", f.name, o, r, len(b), n, tb, ta)
	}
	c.Event("time growth "+band(tb/max(ta, 0.1)/r), 1)
	c.Event("families timed", 1)
}

// TimeParse prints the processor time of parsing a file.
func TimeParse(path, opts string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var o Opts
	var slow bool
	if _, err := fmt.Sscan(opts, &o.Strict, &o.Body, &slow); err != nil {
		panic(err)
	}
	must(syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: 60, Max: 60}))
	t := cpuNow()
	runParse(b, o, slow)
	fmt.Println(cpuNow() - t)
}

const quickRandomFamilies = 150

func p19sweep(tier string) int {
	if tier == "thorough" {
		return kitchenGaps * (len(gapFillers) + 4)
	}
	return kitchenGaps // one filler or long token for each
}

func p19run(c *Ctx) {
	o := Opts{}
	k := c.Index
	sweep := p19sweep(c.Tier)
	switch {
	case k < len(fixedFamilies):
		o.Body = k%2 == 0
		c.grows(fixedFamilies[k], o, false)
		if c.Thorough() {
			o.Body = !o.Body
			c.grows(fixedFamilies[k], o, true)
		}
	case k < len(fixedFamilies)+sweep:
		k -= len(fixedFamilies)
		g, v := k%kitchenGaps, k/kitchenGaps
		if !c.Thorough() {
			v = c.Intn(len(gapFillers) + 4)
		}
		if v < len(gapFillers) {
			c.grows(gapFamily(g, gapFillers[v]), o, false)
		} else if f, ok := tokenFamily(g, []string{"a", "\\x41", "é", "\\\\"}[v-len(gapFillers)]); ok {
			c.grows(f, o, false)
		}
	default:
		o.Strict, o.Body = c.Intn(4) == 0, c.Intn(2) == 0
		c.grows(c.randomFamily(), o, c.Intn(4) == 0)
	}
}

func init() {
	register(&Prop{ID: "P19", Cases: func(t string) int { return len(fixedFamilies) + p19sweep(t) + scale(quickRandomFamilies, 3000)(t) }, Run: p19run, Binary: "cover",
		MinNontrivial: 400, MinEvents: map[string]int64{"families measured": 400, "families timed": 300, "statements executed": 100_000_000},
		Exhaustive: "every listed construct, and in the thorough tier every gap between tokens of the kitchen-sink files with every filler",
		Rule:       "a family repeats or lengthens a construct; executed library statements and allocated bytes of members of 2, 16 and 160 KB (thorough: 800 KB) must grow in proportion (factor 1.2 and 1.8 of slack), processor time of members of 0.1 and 0.8 MB (thorough: 0.25 and 2 MB) likewise (factor 3, repeated before it counts); non-trivial = a distinct family"})
}
