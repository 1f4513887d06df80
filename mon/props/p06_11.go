package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"testing/iotest"
	"unicode/utf8"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"

	"verif/mon/dump"
	"verif/mon/gen"
	"verif/mon/ref"
)

var filenames = append([]string{"", "a.proto", "dir/b c.proto", "日本.proto", "%s%d.proto", "<input>", "x\ny", "-", "./a.proto", "../x/a.proto", "a/../b.proto", "a//b.proto", "/abs/a.proto",
	"C:\\dir\\a.proto", "dir/", " ", " a.proto ", "a.proto\n", "a%20b", "file:///a.proto", ".", "..", "/", "\x00", "\xff\xfe", "~/a.proto", "A.PROTO", "a.txt", "\ta", "a:1:2", "<nil>", "stdin"},
	strings.Repeat("long/", 1000)+"a.proto", "\"q\"", "é.proto", "e\u0301.proto", "\ufeffa.proto", "a\r\n", "${HOME}/a", "*.proto", "-a", "a;b", "a.proto.proto", ".proto", "0")

// filename draws a file name.
func (c *Ctx) filename() string {
	if c.Intn(8) == 0 {
		const alphabet = "./\\ab~%: \n\t-+x"
		b := make([]byte, 1+c.Intn(12))
		for i := range b {
			b[i] = alphabet[c.Intn(len(alphabet))]
		}
		return string(b)
	}
	return filenames[c.Intn(len(filenames))]
}

// hostile draws a conforming source with a demanding layout.
func (c *Ctx) layoutSource(comments bool) string {
	if s, ok := c.guided(); ok {
		return strings.ToValidUTF8(s, "?")
	}
	return c.drawn(c.freshLayout(comments))
}

func (c *Ctx) freshLayout(comments bool) string {
	if c.session == nil && c.Intn(200) == 0 {
		return strings.ToValidUTF8(c.manyOf(), "?")
	}
	f := c.file(c.Intn(3) != 0)
	l := gen.RandLayout(c.Rand, comments)
	s := gen.Render(c.Rand, c.echoed(f.Toks), l)
	if c.Intn(15) == 0 { // cross the reader's buffer with characters of several bytes
		pad := strings.Repeat([]string{"é", "日", "😀", "x"}[c.Intn(4)], 4096/4+c.Intn(40))
		s = "/*" + pad[:len(pad)-len(pad)%12] + "*/" + strings.TrimPrefix(s, "\ufeff")
	}
	if comments && c.Intn(4) == 0 {
		s = gen.MutateBytes(c.Rand, s)
	}
	if !gen.Valid(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

// checkMeta checks a recorded extent against the source.
func (c *Ctx) checkMeta(l *ref.Lines, src, holder string, m meta.Meta) {
	for i, p := range []meta.Position{m.Pos, m.LastPos} {
		if p.Offset < 0 || p.Offset >= len(src) || !utf8.RuneStart(src[p.Offset]) {
			c.Fail("%s: position %d has the offset %d, the source has %d bytes", holder, i, p.Offset, len(src))
		}
		if want := l.At(p.Offset); want != p {
			c.Fail("%s: position %d is %+v, offset %d of the source is %+v", holder, i, p, p.Offset, want)
		}
	}
	if m.LastPos.Offset < m.Pos.Offset {
		c.Fail("%s ends (%d) before it starts (%d)", holder, m.LastPos.Offset, m.Pos.Offset)
	}
	c.Event("extents checked", 1)
}

var firstWord = map[string]string{
	"Syntax": "syntax", "Edition": "edition", "Import": "import", "Package": "package", "Option": "option", "Message": "message", "Enum": "enum",
	"Service": "service", "RPC": "rpc", "Extend": "extend", "Oneof": "oneof", "MapField": "map", "Reserved": "reserved", "Extensions": "extensions",
	"Declaration": "declaration", "RPCRequest": "(", "RPCResponse": "(", "Comment": "/",
}

var lastChars = map[string]string{"RPCRequest": ")", "RPCResponse": ")", "Declaration": "}", "Message": "};", "Enum": "};", "Service": "};", "Extend": "};",
	"Oneof": "};", "GroupField": "};", "RPC": "};"}

func p06run(c *Ctx) {
	for i := 0; i < 4; i++ {
		src := c.layoutSource(true)
		o := Opts{Strict: c.Intn(4) == 0, Body: c.Intn(2) == 0, Filename: c.filename()}
		p, err := c.parse(src, o)
		if err != nil {
			continue
		}
		l := ref.NewLines(src, o.Filename)
		metas(p, func(h string, m meta.Meta) {
			c.checkMeta(l, src, h, m)
			if w := firstWord[h]; !strings.HasPrefix(src[m.Pos.Offset:], w) {
				c.Fail("%s starts at %q", h, clip(src[m.Pos.Offset:], 20))
			}
			want := lastChars[h]
			if want == "" && h != "Comment" {
				want = ";"
			}
			if want != "" && strings.IndexByte(want, src[m.LastPos.Offset]) < 0 {
				c.Fail("%s ends with %q", h, src[m.LastPos.Offset])
			}
		})
		if p.Meta == nil || p.Meta.Filename != o.Filename {
			c.Fail("file metadata %+v, file name %q", p.Meta, o.Filename)
		}
		c.nesting(p)
		if r := ref.Parse(src, o.ref()); r.OK() {
			if d := same(r.Proto, p, dump.Mask{Comments: true}); d != "" {
				c.Fail("recorded extents differ from the source's (wanted != got): %s", d)
			}
			c.Event("compared with the reference positions", 1)
		}
		c.Eval(len(p.ProtoBody) > 0, src)
	}
}

// nesting checks that elements lie within their parents and siblings do not overlap.
func (c *Ctx) nesting(p *parser.Proto) {
	type span struct {
		lo, hi int
		typ    string
	}
	groups := map[*node][]span{}
	for _, n := range inventory(p) {
		if n.meta == nil {
			continue
		}
		lo, hi := n.meta.Pos.Offset, n.meta.LastPos.Offset
		if n.typ == "*parser.Comment" {
			switch n.list {
			case "Comments", "InlineComment":
				continue
			}
		}
		if pm := n.parent.meta; pm != nil && (lo <= pm.Pos.Offset || hi >= pm.LastPos.Offset) {
			c.Fail("%s at %d..%d does not lie within its %s at %d..%d", n.typ, lo, hi, n.parent.typ, pm.Pos.Offset, pm.LastPos.Offset)
		}
		groups[n.parent] = append(groups[n.parent], span{lo, hi, n.typ})
	}
	for _, g := range groups {
		sort.SliceStable(g, func(i, j int) bool { return g[i].lo < g[j].lo })
		for i := 1; i < len(g); i++ {
			if g[i].lo <= g[i-1].hi {
				c.Fail("siblings overlap: %+v %+v", g[i-1], g[i])
			}
		}
	}
}

// P07: comments.

func p07run(c *Ctx) {
	for i := 0; i < 4; i++ {
		src := c.layoutSource(true)
		o := Opts{Strict: c.Intn(4) == 0}
		p, err := c.parse(src, o)
		if err != nil {
			continue
		}
		seen := map[int]string{}
		n := 0
		for _, x := range inventory(p) {
			cm, ok := x.v.(*parser.Comment)
			if !ok {
				continue
			}
			n++
			off := cm.Meta.Pos.Offset
			if off < 0 || off+len(cm.Raw) > len(src) || src[off:off+len(cm.Raw)] != cm.Raw {
				c.Fail("comment %q is not the text at its offset %d", cm.Raw, off)
			}
			if cm.Raw == "" || cm.Meta.LastPos.Offset != off+len(cm.Raw)-lastSize(cm.Raw) {
				c.Fail("comment %q at %d ends at %d", cm.Raw, off, cm.Meta.LastPos.Offset)
			}
			where := fmt.Sprintf("%s.%s", x.parent.typ, x.list)
			if w, dup := seen[off]; dup {
				c.Fail("the comment at %d is attached twice, to %s and to %s", off, w, where)
			}
			seen[off] = where
			c.Event("attached to "+where, 1)
		}
		r := ref.Parse(src, o.ref())
		if r.OK() {
			if d := same(r.Proto, p, dump.All); d != "" {
				c.Fail("comment attachment differs from the rules (wanted != got): %s", d)
			}
			c.Event("compared with the reference attachment", 1)
		}
		c.Eval(n > 0, src)
	}
}

func lastSize(s string) int {
	_, n := utf8.DecodeLastRuneInString(s)
	return n
}

// P08: bodies that include comments.

func p08run(c *Ctx) {
	for i := 0; i < 4; i++ {
		src := c.layoutSource(true)
		if c.Intn(4) == 0 {
			src = c.source(true)
		}
		if !gen.Valid(src) {
			src = strings.ToValidUTF8(src, "?")
		}
		o := Opts{Strict: c.Intn(4) == 0}
		off, e1 := c.parse(src, o)
		o.Body = true
		on, e2 := c.parse(src, o)
		c.input = src
		if errPos(e1) != errPos(e2) {
			c.Fail("the option changes acceptance: off %v, on %v", e1, e2)
		}
		if e1 != nil {
			continue
		}
		r := ref.Parse(src, o.ref())
		if r.OK() {
			if d := same(r.Proto, on, dump.All); d != "" {
				c.Fail("comments in bodies differ from the leftover ones (wanted != got): %s", d)
			}
		}
		n := 0
		seen := map[int]bool{}
		for _, x := range inventory(on) {
			if cm, ok := x.v.(*parser.Comment); ok {
				if strings.HasSuffix(x.list, "Body") {
					n++
				}
				if seen[cm.Meta.Pos.Offset] {
					c.Fail("the comment at %d appears twice", cm.Meta.Pos.Offset)
				}
				seen[cm.Meta.Pos.Offset] = true
			}
		}
		strip(reflect.ValueOf(on))
		if d := same(off, on, dump.All); d != "" {
			c.Fail("apart from comment elements the trees differ (off != on): %s", d)
		}
		c.Event("comment elements", n)
		c.Eval(n > 0, src)
	}
}

// strip removes the comment elements from all bodies.
func strip(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			strip(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				strip(v.Field(i))
			}
		}
	case reflect.Slice:
		if vs, ok := v.Interface().([]parser.Visitee); ok {
			var out []parser.Visitee
			for _, x := range vs {
				if _, isC := x.(*parser.Comment); !isC {
					out = append(out, x)
				}
			}
			v.Set(reflect.ValueOf(out))
		}
		for i := 0; i < v.Len(); i++ {
			strip(v.Index(i))
		}
	}
}

// P09: layout.

func p09run(c *Ctx) {
	var toks []string
	if c.Index < len(kitchens)*4 {
		toks = strings.Fields(kitchens[c.Index%len(kitchens)])
	} else {
		toks = c.file(c.Intn(3) != 0).Toks
		if s, ok := c.guided(); ok {
			toks = sourceTokens(s)
			if len(toks) > 0 && strings.HasPrefix(toks[0], "\ufeff") {
				toks = toks[1:]
			}
		}
		if c.Intn(2) == 0 {
			toks = gen.MutateTokens(c.Rand, toks)
		}
	}
	o := Opts{Strict: c.Intn(4) == 0}
	base := gen.Plain(toks)
	want, werr := c.parse(base, o)
	baseToks := strings.Join(sourceTokens(base), "\x01")
	for i := 0; i < 6; i++ {
		l := gen.RandLayout(c.Rand, true)
		l.Wide = c.Intn(8) == 0
		if i == 0 {
			l = gen.Layout{Glue: 100}
		}
		src := gen.Render(c.Rand, toks, l)
		if strings.Join(sourceTokens(src), "\x01") != baseToks {
			c.Event("layouts dropped because they join tokens", 1)
			continue
		}
		got, err := c.parse(src, o)
		c.input = base + "\n-- versus --\n" + src
		if (err == nil) != (werr == nil) {
			c.Fail("the layout changes acceptance: %v versus %v", werr, err)
		}
		if err == nil {
			if d := same(want, got, dump.Structure); d != "" {
				c.Fail("the layout changes the tree: %s", d)
			}
			c.Event("equal trees", 1)
		} else {
			c.Event("both rejected", 1)
		}
		c.Eval(src != base && len(toks) > 0, src)
	}
}

// P10: delivery.

type stepReader struct {
	s     string
	sizes func() int
	// errAt ends the delivery with err after that many bytes; together with them if joined is set.
	err    error
	joined bool
	// once makes the reader go on after the error.
	once   bool
	rest   string
	failed bool
	empty  func() bool
	runs   int
	// long makes runs of empty reads long.
	long int
	// scribble uses the space behind the data, as readers may.
	scribble bool
}

func (r *stepReader) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if r.empty != nil && r.runs < 20+60*r.long && (r.empty() || r.runs > 0 && r.long > 0) {
		r.runs++
		return 0, nil
	}
	r.runs = 0
	if len(r.s) == 0 {
		if r.once && r.failed {
			if r.rest == "" {
				return 0, io.EOF
			}
			n := copy(b, r.rest)
			r.rest = r.rest[n:]
			return n, nil
		}
		r.failed = true
		return 0, r.err
	}
	n := min(r.sizes(), len(b), len(r.s))
	copy(b, r.s[:n])
	r.s = r.s[n:]
	if r.scribble {
		for i := n; i < len(b); i++ {
			b[i] = "}\x00\xff;"[i%4]
		}
	}
	if len(r.s) == 0 && r.joined {
		r.failed = true
		return n, r.err
	}
	return n, nil
}

var errFault = errors.New("injected fault")

// kindOfFault is an error that says of itself whether it is temporary or a timeout.
type kindOfFault struct{ temporary, timeout bool }

func (e *kindOfFault) Error() string   { return fmt.Sprintf("injected fault %+v", *e) }
func (e *kindOfFault) Temporary() bool { return e.temporary }
func (e *kindOfFault) Timeout() bool   { return e.timeout }

// eofLike claims to be the end of the input, but only to those who ask with errors.Is.
type eofLike struct{}

func (eofLike) Error() string     { return "EOF" }
func (eofLike) Is(err error) bool { return err == io.EOF }

var faults = []error{errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, bufio.ErrBufferFull, bufio.ErrNegativeCount, bufio.ErrTooLong, bufio.ErrFinalToken,
	os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, context.Canceled, context.DeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EIO, syscall.EPIPE, syscall.ECONNRESET, syscall.EISDIR,
	&kindOfFault{true, false}, &kindOfFault{true, true}, &kindOfFault{false, true}, &kindOfFault{}, iotest.ErrTimeout, net.ErrClosed, &fs.PathError{Op: "read", Path: "a.proto", Err: syscall.EIO},
	fmt.Errorf("wrapped: %w", io.EOF), errors.Join(errFault, io.EOF), eofLike{}, errors.New("EOF"), errors.New("")}

// rich offers more ways to read, all with the same content.
type rich struct{ stepReader }

func (r *rich) ReadByte() (byte, error) {
	if len(r.s) == 0 {
		return 0, io.EOF
	}
	b := r.s[0]
	r.s = r.s[1:]
	return b, nil
}

func (r *rich) ReadRune() (rune, int, error) {
	if len(r.s) == 0 {
		return 0, 0, io.EOF
	}
	k, n := utf8.DecodeRuneInString(r.s)
	r.s = r.s[n:]
	return k, n, nil
}

func (r *rich) Len() int    { return len(r.s) }
func (r *rich) Size() int64 { return int64(len(r.s)) + 100 }

func (r *rich) WriteTo(w io.Writer) (int64, error) {
	n, err := io.WriteString(w, r.s)
	r.s = r.s[n:]
	return int64(n), err
}

// big builds a text of at least n bytes around the given one.
func (c *Ctx) big(n int) string {
	unit := []string{"// a comment line\n", "message M { string s = 1; }\n", "/* é日😀 */ ;", "\n", " ", "option a = \"日本日本日本日本\";"}[c.Intn(6)]
	var b strings.Builder
	b.WriteString(c.source(false))
	b.WriteString("\n")
	for b.Len() < n {
		b.WriteString(unit)
	}
	b.WriteString("\nmessage Last { int32 last = 1; } // last\n")
	return b.String()
}

// p10big delivers inputs of sizes around the powers of two.
func p10big(c *Ctx) {
	k := c.Index
	size := 1<<(11+k%11) - 40 + c.Intn(80)
	src := c.big(size)
	if c.Intn(2) == 0 && len(src) > 1<<(11+k%11) {
		src = c.source(false) + "/*" + strings.Repeat("x", 1<<(11+k%11)) + "*/ message Last { int32 last = 1; }"
	}
	o := Opts{Body: c.Intn(2) == 0}
	c.input = src
	want, werr := c.parse(src, o)
	r := ref.Parse(src, o.ref())
	if r.OK() != (werr == nil) {
		c.Fail("an input of %d bytes: err=%v, the reference accepts: %v", len(src), werr, r.OK())
	}
	if werr == nil && gen.Valid(src) {
		if d := same(r.Proto, want, dump.All); d != "" {
			c.Fail("an input of %d bytes is not read as it is (reference != got): %s", len(src), clip(d, 500))
		}
	}
	for _, f := range []func() int{func() int { return 4096 }, func() int { return 1 + c.Intn(9000) }, func() int { return 1 << 30 }} {
		got, err := protoparser.Parse(&stepReader{s: src, sizes: f, err: io.EOF, joined: c.Intn(2) == 0}, o.list()...)
		if errPos(err) != errPos(werr) || err == nil && same(want, got, dump.All) != "" {
			c.Fail("an input of %d bytes: %v instead of %v, or another tree", len(src), err, werr)
		}
		c.Event("delivery schedules", 1)
	}
	for _, at := range []int{len(src), len(src) - 1, len(src) / 2, c.Intn(len(src))} {
		got, err := protoparser.Parse(&stepReader{s: src[:at], sizes: func() int { return 4096 }, err: errFault, joined: c.Intn(2) == 0}, o.list()...)
		if err == nil || got != nil {
			c.Fail("the reader failed after %d of %d bytes, but parsing succeeded", at, len(src))
		}
		c.Event("faults injected", 1)
	}
	c.Event("big inputs", 1)
	c.Eval(werr == nil, src)
}

const bigCases = 22

// hugeReader gives a row of n fillers and a tail, then err.
type hugeReader struct {
	n          int
	fill, tail string
	left       string
	err        error
}

func (r *hugeReader) Read(b []byte) (int, error) {
	k := 0
	for k < len(b) {
		if r.left == "" {
			switch {
			case r.n > 0:
				r.left = r.fill
				r.n--
			case r.tail != "":
				r.left, r.tail = r.tail, ""
			default:
				if k == 0 {
					return 0, r.err
				}
				return k, nil
			}
		}
		m := copy(b[k:], r.left)
		r.left = r.left[m:]
		k += m
	}
	return k, nil
}

// hugeSizes are in MiB; the larger ones are for the deep tier.
var hugeSizes = []int{5, 9, 17, 33, 65, 129}

func hugeCases(tier string) int {
	if tier == "thorough" {
		return len(hugeSizes)
	}
	return 4
}

// p10huge delivers much more than anybody would buffer.
func p10huge(c *Ctx, k int) {
	size := hugeSizes[k] << 20
	fill := "// " + strings.Repeat("a comment line ", 4+c.Intn(4)) + "\n"
	n := size / len(fill)
	const tail = "message Last { int32 last = 1; }"
	c.input = fmt.Sprintf("%d times %q, then %q", n, fill, tail)
	p, err := protoparser.Parse(&hugeReader{n: n, fill: fill, tail: tail, err: io.EOF}, protoparser.WithBodyIncludingComments(c.Intn(2) == 0))
	if err != nil {
		c.Fail("%d MiB are rejected: %v", hugeSizes[k], err)
	}
	var m *parser.Message
	if len(p.ProtoBody) == 1 {
		m, _ = p.ProtoBody[0].(*parser.Message)
	}
	if m == nil || m.MessageName != "Last" || len(m.MessageBody) != 1 || len(m.Comments) != n {
		c.Fail("%d MiB are not read to their end: the body has %d statements", hugeSizes[k], len(p.ProtoBody))
	}
	if at := m.Meta.Pos; at.Offset != n*len(fill) || at.Line != n+1 || at.Column != 1 {
		c.Fail("behind %d MiB in %d lines the position is %+v", hugeSizes[k], n, at)
	}
	if last := m.Comments[n-1]; last.Raw != strings.TrimSuffix(fill, "\n") || last.Meta.Pos.Line != n {
		c.Fail("the last of %d comments is %q at %+v", n, last.Raw, last.Meta.Pos)
	}
	p, err = protoparser.Parse(&hugeReader{n: n, fill: fill, err: errFault})
	if p != nil || err == nil {
		c.Fail("the reader failed after %d MiB, but parsing succeeded", hugeSizes[k])
	}
	c.Event("faults injected", 1)
	c.Event("huge inputs", 1)
	c.Eval(true, c.input)
}

func p10run(c *Ctx) {
	if c.Index < bigCases {
		p10big(c)
		return
	}
	if k := c.Index - bigCases; k < hugeCases(c.Tier) {
		p10huge(c, k)
		return
	}
	src := c.source(c.Intn(3) == 0)
	if c.Intn(6) == 0 {
		src += "\n//" + strings.Repeat([]string{"é", "日本", "x", "😀"}[c.Intn(4)], 900+c.Intn(400)) + "\n" + c.source(false)
	}
	o := Opts{Strict: c.Intn(4) == 0, Body: c.Intn(2) == 0, Filename: filenames[c.Intn(2)]}
	want, werr := c.parse(src, o)
	sizes := []func() int{
		func() int { return 1 },
		func() int { return 1 + c.Intn(3) },
		func() int { return 1 + c.Intn(64) },
		func() int { return 4096 },
		func() int { return 4095 },
		func() int { return 1 << 20 },
	}
	for i, f := range sizes {
		for _, joined := range []bool{false, true} {
			r := &stepReader{s: src, sizes: f, err: io.EOF, joined: joined}
			if i < 3 && c.Intn(2) == 0 {
				r.empty = func() bool { return c.Intn(3) == 0 }
				if len(src) < 500 && c.Intn(3) == 0 {
					r.long = 1
				}
			}
			r.scribble = c.Intn(2) == 0
			got, err := protoparser.Parse(r, o.list()...)
			c.Event("delivery schedules", 1)
			if errPos(err) != errPos(werr) || (got == nil) != (want == nil) {
				c.Fail("schedule %d (data with EOF: %v): %v instead of %v", i, joined, err, werr)
			}
			if d := same(want, got, dump.All); err == nil && d != "" {
				c.Fail("schedule %d (data with EOF: %v) changes the tree: %s", i, joined, d)
			}
		}
	}
	// Further standard readers, some of them with a part that was read before.
	past := "message Past { " + src[:len(src)/3]
	sr, br := strings.NewReader(past+src), bytes.NewReader([]byte(past+src))
	bu := bufio.NewReaderSize(strings.NewReader(past+src), 16<<c.Intn(9))
	for _, r := range []io.Reader{sr, br, bu} {
		_, err := io.ReadFull(r, make([]byte, len(past)))
		must(err)
	}
	readers := []io.Reader{bytes.NewBufferString(src), io.MultiReader(strings.NewReader(src[:len(src)/2]), strings.NewReader(src[len(src)/2:])), pipe(src), sr, br, bu,
		io.LimitReader(strings.NewReader(src+"}"), int64(len(src))), io.NewSectionReader(strings.NewReader(past+src+"{"), int64(len(past)), int64(len(src))),
		iotest.DataErrReader(iotest.HalfReader(strings.NewReader(src))), &rich{stepReader{s: src, sizes: sizes[c.Intn(len(sizes))], err: io.EOF}}}
	if c.Intn(20) == 0 {
		f, err := os.CreateTemp(filepath.Join(Root, "build"), "p10-")
		must(err)
		defer f.Close()
		must(os.Remove(f.Name()))
		_, err = f.WriteString(past + src)
		must(err)
		_, err = f.Seek(int64(len(past)), io.SeekStart)
		must(err)
		readers = append(readers, f)
	}
	for _, r := range readers {
		got, err := protoparser.Parse(r, o.list()...)
		if errPos(err) != errPos(werr) || err == nil && same(want, got, dump.All) != "" {
			c.Fail("reader %T: %v instead of %v", r, err, werr)
		}
		c.Event("standard readers", 1)
		if pr, ok := r.(*io.PipeReader); ok {
			pr.Close()
		}
	}
	c.Eval(want != nil && len(src) > 0, src)
	// Faults.
	n := 30
	if len(src) < 120 || c.Thorough() && len(src) < 600 {
		n = len(src) + 1
	}
	for k := 0; k < n; k++ {
		at := k
		if n != len(src)+1 {
			at = c.Intn(len(src) + 1)
			if k < 3 {
				at = []int{0, len(src), len(src) - 1}[k]
			}
		}
		for _, joined := range []bool{false, true} {
			for j := 1 + c.Intn(3); j > 0; j-- {
				e := faults[c.Intn(len(faults))]
				r := &stepReader{s: src[:at], sizes: sizes[c.Intn(len(sizes))], err: e, joined: joined, once: c.Intn(3) == 0, rest: src[at:], scribble: c.Intn(4) == 0}
				got, err := protoparser.Parse(r, o.list()...)
				c.Event("faults injected", 1)
				if err == nil || got != nil {
					c.Fail("the reader failed with %q after %d of %d bytes (with data: %v, then went on: %v), but parsing succeeded: tree=%v err=%v", e, at, len(src), joined, r.once, got != nil, err)
				}
				if c.Intn(20) == 0 {
					c.p10lexer(src, at, &stepReader{s: src[:at], sizes: sizes[c.Intn(len(sizes))], err: e, joined: joined, once: c.Intn(3) == 0, rest: src[at:]})
				}
			}
		}
	}
}

// p10lexer takes tokens from a failing reader: the end of the input must not be reported, the failure must be.
func (c *Ctx) p10lexer(src string, at int, r *stepReader) {
	l := lexer.NewLexer(r, lexer.WithDebug(false))
	calls := 0
	l.Error = func(*lexer.Lexer, error) { calls++ }
	for i := 0; ; i++ {
		if i > len(src)+10 {
			return // the reader goes on after its failure, or the lexer repeats the failure
		}
		if c.Intn(5) == 0 {
			if k := 1 + c.Intn(3); l.PeekN(k) == scanner.TEOF {
				c.Fail("the reader failed after %d of %d bytes, but looking %d tokens ahead finds the end of the input", at, len(src), k)
			}
		}
		l.Next()
		if l.IsEOF() || l.Token == scanner.TEOF {
			c.Fail("the reader failed after %d of %d bytes, but the lexer reports the end of the input behind %d tokens", at, len(src), i)
		}
		if r.failed && len(l.RawText) == 0 {
			break
		}
	}
	if l.LatestErr() == nil || calls == 0 {
		c.Fail("the reader failed after %d of %d bytes, but the lexer reports no error (%d callbacks)", at, len(src), calls)
	}
	c.Event("failing readers under a lexer", 1)
}

func pipe(s string) io.Reader {
	r, w := io.Pipe()
	go func() {
		for len(s) > 0 {
			n := min(7, len(s))
			if _, err := io.WriteString(w, s[:n]); err != nil {
				return
			}
			s = s[n:]
		}
		w.Close()
	}()
	return r
}

// P11: debug and file name.

type lineCount struct{ n int }

func (l *lineCount) Write(b []byte) (int, error) { l.n++; return len(b), nil }

func p11run(c *Ctx) {
	for i := 0; i < 4; i++ {
		src := c.source(c.Intn(2) == 0)
		o := Opts{Strict: c.Intn(4) == 0, Body: c.Intn(2) == 0, Filename: c.filename()}
		quiet, w := &lineCount{}, &lineCount{}
		log.SetOutput(quiet)
		want, werr := c.parse(src, o)
		log.SetOutput(w)
		d := o
		d.Debug = true
		got, err := c.parse(src, d)
		log.SetOutput(io.Discard)
		c.Event("debug log lines", w.n)
		if errPos(err) != errPos(werr) {
			c.Fail("the debug option changes the outcome: %v versus %v", werr, err)
		}
		if x := same(want, got, dump.All); err == nil && x != "" {
			c.Fail("the debug option changes the tree: %s", x)
		}
		if w.n == 0 {
			c.Fail("no debug output")
		}
		// The same options in other words.
		for k := 0; k < 3; k++ {
			e := o
			e.Debug = k == 1
			lines, n := &lineCount{}, quiet.n
			if e.Debug {
				n = w.n
			}
			log.SetOutput(lines)
			got, err := protoparser.Parse(strings.NewReader(src), c.respelled(e)...)
			log.SetOutput(io.Discard)
			if errPos(err) != errPos(werr) {
				c.Fail("the order or repetition of options changes the outcome: %v versus %v", werr, err)
			}
			if x := same(want, got, dump.All); err == nil && x != "" {
				c.Fail("the order or repetition of options changes the tree: %s", x)
			}
			if lines.n != n {
				c.Fail("the order or repetition of options changes the log output: %d lines instead of %d (debug: %v)", lines.n, n, e.Debug)
			}
			c.Event("options in other words", 1)
		}
		// The same with the default file name.
		n := o
		n.Filename = ""
		got, err = c.parse(src, n)
		if (err == nil) != (werr == nil) {
			c.Fail("the file name changes the outcome: %v versus %v", werr, err)
		}
		if err != nil {
			a, b := metaError(err), metaError(werr)
			if (a == nil) != (b == nil) {
				c.Fail("the file name changes the error: %v versus %v", werr, err)
			}
			if a != nil {
				if b.Pos.Filename != o.Filename || a.Pos.Filename != "" {
					c.Fail("file name in the error position is %q, given %q; without the option %q", b.Pos.Filename, o.Filename, a.Pos.Filename)
				}
				x := b.Pos
				x.Filename = ""
				if x != a.Pos {
					c.Fail("the file name changes the error position: %+v versus %+v", b.Pos, a.Pos)
				}
			}
		} else {
			if x := same(want, got, dump.Mask{Filename: true}); x != "" {
				c.Fail("the file name changes the tree: %s", x)
			}
			if want.Meta == nil || want.Meta.Filename != o.Filename {
				c.Fail("file metadata %+v, file name %q", want.Meta, o.Filename)
			}
			metas(want, func(h string, m meta.Meta) {
				if m.Pos.Filename != o.Filename || m.LastPos.Filename != o.Filename {
					c.Fail("%s has the file names %q and %q instead of %q", h, m.Pos.Filename, m.LastPos.Filename, o.Filename)
				}
				c.Event("file names checked", 1)
			})
		}
		c.Eval(len(src) > 0, src)
	}
}

func init() {
	register(&Prop{ID: "P06", Guided: true, Cases: scale(5000, 150000), Run: p06run, MinNontrivial: 5000,
		MinEvents: map[string]int64{"extents checked": 200000, "compared with the reference positions": 5000},
		Rule:      "generated files with hostile layout (multi-byte text, CR/LF, tabs, byte order mark, comments in every gap, buffer-crossing text) and byte mutants, random file names; every recorded extent recomputed from the source; non-trivial = a distinct accepted source with a statement"})
	register(&Prop{ID: "P07", Guided: true, Cases: scale(5000, 150000), Run: p07run, MinNontrivial: 4000,
		MinEvents: map[string]int64{"compared with the reference attachment": 5000, "attached to *parser.Message.InlineCommentBehindLeftCurly": 50, "attached to *parser.RPC.EmbeddedComments": 50, "attached to *parser.Declaration.InlineComment": 20, "attached to *parser.Field.Comments": 500, "attached to *parser.EmptyStatement.InlineComment": 20},
		Rule:      "generated files with comments in every kind of gap; each comment found in the tree must be the text at its offset, once, and the attachment that of the rules; non-trivial = a distinct accepted source with an attached comment"})
	register(&Prop{ID: "P08", Guided: true, Cases: scale(4000, 120000), Run: p08run, MinNontrivial: 2500,
		MinEvents: map[string]int64{"comment elements": 5000},
		Rule:      "generated files with comments in every kind of gap, and mutants, each parsed with and without the option; non-trivial = a distinct accepted source with a comment element in a body"})
	register(&Prop{ID: "P09", Guided: true, First: func() int { return len(kitchens) * 4 }, Cases: scale(5000, 150000), Run: p09run, MinNontrivial: 10000,
		MinEvents: map[string]int64{"equal trees": 8000, "both rejected": 2000},
		Rule:      "token sequences (conforming and mutated) in up to six random layouts against a plain one; non-trivial = a distinct source that differs from the plain layout"})
	register(&Prop{ID: "P10", Guided: true, First: func() int { return bigCases + len(hugeSizes) }, Cases: scale(2500, 80000), Run: p10run, MinNontrivial: 1200,
		MinEvents: map[string]int64{"delivery schedules": 10000, "faults injected": 50000, "failing readers under a lexer": 8000, "big inputs": 8, "huge inputs": 4},
		Rule:      "inputs of sizes around the powers of two up to 4 MiB, inputs of up to 33 (thorough: 129) MiB, and sources delivered in 12 read schedules and by three standard readers, and cut by an injected read error at every (short sources) or many offsets, alone or with data, permanent or transient; non-trivial = a distinct accepted source"})
	register(&Prop{ID: "P11", Guided: true, Cases: scale(2500, 80000), Run: p11run, MinNontrivial: 4000,
		MinEvents: map[string]int64{"debug log lines": 100000, "file names checked": 50000, "options in other words": 20000},
		Rule:      "sources parsed with and without debug and with and without a file name; non-trivial = a distinct non-empty source"})
}
