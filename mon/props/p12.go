package props

import (
	"context"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"

	"verif/mon/dump"
	"verif/mon/ref"
)

// job is a source with the outcome of parsing it alone.
type job struct {
	src  string
	o    Opts
	list []protoparser.Option // shared by all goroutines
	tree *parser.Proto
	un   *unordered.Proto
	err  string
	walk string
}

// views walks a tree and renders everything a reader of it can ask for.
func views(p *parser.Proto) string {
	h := fnv.New64a()
	r := &recorder{}
	p.Accept(r)
	for i, v := range r.calls {
		fmt.Fprint(h, r.kinds[i])
		switch t := v.(type) {
		case *parser.Comment:
			fmt.Fprint(h, t.IsCStyle(), t.Lines(), t.Meta.Pos.String(), t.Meta.LastPos.String())
		case *parser.Syntax:
			fmt.Fprint(h, t.Version())
		case *parser.Field:
			fmt.Fprint(h, t.Meta.Pos.String())
		}
	}
	return fmt.Sprintf("%d calls %x", len(r.calls), h.Sum64())
}

func (c *Ctx) makeJob() *job {
	src := ""
	switch c.Intn(4) {
	case 0:
		src = exhaustive(c.Intn(exhaustiveTotal))
	default:
		src = c.source(c.Intn(4) == 0)
	}
	if len(src) > 3000 {
		src = src[:3000]
	}
	j := &job{src: src, o: c.randOpts()}
	j.list = j.o.list()
	p, err := protoparser.Parse(strings.NewReader(src), j.list...)
	j.err = fmt.Sprint(err)
	if err == nil {
		j.tree = p
		j.walk = views(p)
		u, err := protoparser.UnorderedInterpret(p)
		if err != nil {
			c.Input(src)
			c.Fail("interpret: %v", err)
		}
		j.un = u
	}
	return j
}

// compare tells how an outcome differs from that of parsing alone. It only reads the job.
func (j *job) compare(p *parser.Proto, err error) string {
	if e := fmt.Sprint(err); e != j.err {
		return fmt.Sprintf("error %q instead of %q", e, j.err)
	}
	if err != nil {
		return ""
	}
	if d := dump.Diff(j.tree, p, dump.All); d != "" {
		return "tree (alone != here): " + d
	}
	return ""
}

// crowd runs n goroutines and reports the first complaint.
func (c *Ctx) crowd(n int, f func(g int) string) {
	var wg sync.WaitGroup
	var first atomic.Value
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					first.CompareAndSwap(nil, fmt.Sprintf("panic: %v", r))
				}
			}()
			<-start
			if s := f(g); s != "" {
				first.CompareAndSwap(nil, s)
			}
		}()
	}
	close(start)
	wg.Wait()
	if s, _ := first.Load().(string); s != "" {
		c.Fail("%s", s)
	}
}

// baton lets exactly one of two parses run at a time.
type baton struct {
	sync.Mutex
	sync.Cond
	turn  int
	done  [2]bool
	trace []byte
}

func newBaton() *baton {
	b := &baton{}
	b.Cond.L = &b.Mutex
	return b
}

// await blocks until it is the turn of id.
func (b *baton) await(id int) {
	for b.turn != id && !b.done[1-id] {
		b.Wait()
	}
	b.trace = append(b.trace, byte('a'+id))
}

func (b *baton) end(id int) {
	b.Lock()
	b.done[id] = true
	b.turn = 1 - id
	b.Unlock()
	b.Broadcast()
}

// turnReader hands the turn over in every read.
type turnReader struct {
	s     string
	chunk int
	b     *baton
	id    int
}

func (t *turnReader) Read(p []byte) (int, error) {
	t.b.Lock()
	t.b.turn = 1 - t.id
	t.b.Broadcast()
	t.b.await(t.id)
	t.b.Unlock()
	if len(t.s) == 0 {
		return 0, io.EOF
	}
	n := min(t.chunk, len(p), len(t.s))
	copy(p, t.s[:n])
	t.s = t.s[n:]
	return n, nil
}

// alternate runs two parses in lock step, switching at every read.
func (c *Ctx) alternate(x, y *job) {
	b := newBaton()
	js := []*job{x, y}
	rs := []*turnReader{{s: x.src, chunk: 1 + c.Intn(5), b: b, id: 0}, {s: y.src, chunk: 1 + c.Intn(5), b: b, id: 1}}
	c.crowd(2, func(g int) string {
		defer b.end(g)
		b.Lock()
		b.await(g)
		b.Unlock()
		p, err := protoparser.Parse(rs[g], js[g].list...)
		if s := js[g].compare(p, err); s != "" {
			return "in lock step with another parse: " + s
		}
		return ""
	})
	c.Event("lock-step handovers", len(b.trace))
	c.Eval(len(b.trace) > 4, "lock step "+string(b.trace)+"\x00"+x.src+"\x00"+y.src)
}

// nestReader parses another source inside each of its reads.
type nestReader struct {
	s     string
	chunk int
	inner func() string
	bad   string
	n     int
}

func (t *nestReader) Read(b []byte) (int, error) {
	if t.n++; t.n < 40 {
		if s := t.inner(); s != "" && t.bad == "" {
			t.bad = s
		}
	}
	if len(t.s) == 0 {
		return 0, io.EOF
	}
	n := min(t.chunk, len(b), len(t.s))
	copy(b, t.s[:n])
	t.s = t.s[n:]
	return n, nil
}

// outcome renders everything a parse gives.
func outcome(src string, o Opts) string {
	p, err := protoparser.Parse(strings.NewReader(src), o.list()...)
	if err != nil {
		return fmt.Sprintf("%v / %#v", err, errPos(err))
	}
	w := views(p)
	u, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		return err.Error()
	}
	return dump.String(p, dump.All) + w + dump.String(u, dump.All)
}

// cold lets the first use of some sources be a concurrent one.
func (c *Ctx) cold() {
	var srcs [4]string
	var opts [4]Opts
	for i := range srcs {
		srcs[i], opts[i] = c.source(c.Intn(4) == 0), c.randOpts()
		if c.Intn(3) == 0 {
			srcs[i] = exhaustive(c.Intn(exhaustiveTotal))
		}
		if len(srcs[i]) > 3000 {
			srcs[i] = srcs[i][:3000]
		}
	}
	c.input = fmt.Sprintf("%+v\n%q", opts, srcs)
	var got [8][4]string
	c.crowd(8, func(g int) string {
		for i := range srcs {
			k := i
			if g >= 4 {
				k = (i + g) % 4
			}
			got[g][k] = outcome(srcs[k], opts[k])
		}
		return ""
	})
	for k := range srcs {
		want := outcome(srcs[k], opts[k])
		for g := range got {
			if got[g][k] != want {
				c.Fail("parsed, walked and interpreted in parallel, before it was alone: %s\ninstead of %s\n%q", clip(got[g][k], 3000), clip(want, 3000), srcs[k])
			}
		}
	}
	c.Event("first uses in parallel", 32)

	// A tree nobody has read yet, read by all.
	for k := range srcs {
		p, err := protoparser.Parse(strings.NewReader(srcs[k]), opts[k].list()...)
		if err != nil {
			continue
		}
		var w [8]string
		c.crowd(8, func(g int) string {
			if g%3 == 0 {
				if _, err := protoparser.UnorderedInterpret(p); err != nil {
					return err.Error()
				}
			}
			w[g] = views(p)
			return ""
		})
		for g := range w {
			if w[g] != w[0] {
				c.Fail("walks of a fresh shared tree differ: %s, %s\n%q", w[0], w[g], srcs[k])
			}
		}
		c.Event("fresh trees shared", 1)
	}
}

// vandalise overwrites everything reachable in a tree.
func vandalise(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		vandalise(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			vandalise(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				vandalise(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			vandalise(v.Index(i), seen)
		}
		if v.Len() > 0 && v.CanSet() {
			v.Index(0).SetZero()
		}
		// Also what lies behind the end of the slice belongs to its owner alone.
		if v.CanSet() {
			if w := v.Slice(0, v.Cap()); v.Type().Elem().Kind() != reflect.Uint8 {
				for i := v.Len(); i < w.Len(); i++ {
					w.Index(i).SetZero()
				}
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("vandalised")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Uint:
		if v.CanSet() {
			v.SetZero()
		}
	}
}

// vandals changes trees handed out and requires that nobody else notices.
func (c *Ctx) vandals() {
	for i := 0; i < 3; i++ {
		src, o := c.source(false), c.randOpts()
		c.input = src
		p1, err := protoparser.Parse(strings.NewReader(src), o.list()...)
		if err != nil {
			continue
		}
		p2, err := protoparser.Parse(strings.NewReader(src), o.list()...)
		if err != nil {
			c.Fail("the second time it is rejected: %v", err)
		}
		before, walked := dump.String(p2, dump.All), views(p2)
		// What is asked of a tree again after its owner changed it is about the changed tree; what was handed out
		// stays.
		u1, err := protoparser.UnorderedInterpret(p1)
		if err != nil {
			c.Fail("not interpreted: %v", err)
		}
		views(p1)
		old := dump.String(u1, dump.Structure)
		for n := 0; n < 3; n++ {
			c.editTree(p1)
			u, err := protoparser.UnorderedInterpret(p1)
			if err != nil {
				c.Fail("not interpreted after a change of the tree: %v", err)
			}
			c.conserve("changed Proto", reflect.ValueOf(p1), reflect.ValueOf(u))
			r := &recorder{}
			p1.Accept(r)
			if got, want := len(r.calls), len(inventory(p1)); got != want {
				c.Fail("a walk of a changed tree makes %d calls for %d elements", got, want)
			}
			u2, err := protoparser.UnorderedInterpret(p2)
			if err != nil || dump.String(u2, dump.Structure) != old {
				c.Fail("changes to one tree show in the interpretation of another: %v", err)
			}
			c.Event("changed trees asked again", 1)
		}
		vandalise(reflect.ValueOf(p1), map[uintptr]bool{})
		for _, x := range inventory(p2) {
			if cm, ok := x.v.(*parser.Comment); ok {
				ls := cm.Lines()
				for i := range ls {
					ls[i] = "vandalised"
				}
			}
		}
		if s := dump.String(p2, dump.All); s != before {
			c.Fail("a change to one tree shows in another: %s\ninstead of %s", clip(s, 3000), clip(before, 3000))
		}
		if s := views(p2); s != walked {
			c.Fail("a change to one tree or to the lines handed out shows in another: %s instead of %s", s, walked)
		}
		p3, err := protoparser.Parse(strings.NewReader(src), o.list()...)
		if err != nil {
			c.Fail("after a change to an earlier tree it is rejected: %v", err)
		}
		if s := dump.String(p3, dump.All); s != before {
			c.Fail("a change to an earlier tree shows in a later parse: %s\ninstead of %s", clip(s, 3000), clip(before, 3000))
		}
		c.Event("trees vandalised", 1)
	}
}

// twin is a source much like another one, mostly of the same length.
func (c *Ctx) twin(src string) string {
	b := []byte(src)
	for try := 0; try < 40 && len(b) > 0; try++ {
		i := c.Intn(len(b))
		switch x := b[i]; {
		case 'a' <= x && x <= 'z':
			b[i] = 'a' + (x-'a'+1+byte(c.Intn(25)))%26
			return string(b)
		case '1' <= x && x <= '7':
			b[i] = '1' + (x-'0')%7
			return string(b)
		case x == ' ' && c.Intn(4) == 0:
			b[i] = '\n'
			return string(b)
		}
	}
	return "\n" + src
}

// twins reads sources that are almost the same one after the other and at once, each against the reference.
func (c *Ctx) twins() {
	for i := 0; i < 6; i++ {
		o := c.randOpts()
		var srcs [4]string
		srcs[0] = strings.ToValidUTF8(c.source(false), "?")
		if len(srcs[0]) > 3000 {
			continue
		}
		for k := 1; k < len(srcs); k++ {
			srcs[k] = c.twin(srcs[c.Intn(k)])
		}
		var want [4]*ref.Result
		for k := range srcs {
			want[k] = ref.Parse(srcs[k], o.ref())
		}
		judge := func(k int) string {
			p, err := protoparser.Parse(strings.NewReader(srcs[k]), o.list()...)
			if (err == nil) != want[k].OK() {
				return fmt.Sprintf("read near much the same text: err=%v, the reference accepts: %v\n%q", err, want[k].OK(), srcs[k])
			}
			if err != nil {
				return ""
			}
			if d := dump.Diff(want[k].Proto, p, dump.All); d != "" {
				return fmt.Sprintf("read near much the same text (reference != got): %s\n%q", d, srcs[k])
			}
			return ""
		}
		c.input = fmt.Sprintf("%+v\n%q", o, srcs)
		if i%2 == 0 {
			for n := 0; n < 8; n++ {
				if s := judge(c.Intn(4)); s != "" {
					c.Fail("%s", s)
				}
			}
			c.Event("alike sources in turn", 8)
			continue
		}
		c.crowd(8, func(g int) string {
			for n := 0; n < 4; n++ {
				if s := judge((g + n) % 4); s != "" {
					return s
				}
			}
			return ""
		})
		c.Event("alike sources at once", 32)
	}
}

// coldKinds are the ways in which a fresh process first uses the library.
const coldKinds = 6

// ColdStart is the body of a fresh process whose first use of the library is concurrent. It returns the complaint.
func ColdStart(seed int64, kind int) (complaint string) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(*Violation); ok {
				complaint = v.Detail
				return
			}
			complaint = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	c := NewCtx("P12cold", "quick", seed, kind, NewStats())
	srcs := make([]string, 8)
	for i := range srcs {
		srcs[i] = kitchens[c.Intn(len(kitchens))]
		if c.Intn(2) == 0 {
			srcs[i] = c.source(c.Intn(2) == 0)
		}
		if len(srcs[i]) > 3000 {
			srcs[i] = srcs[i][:3000]
		}
		if kind == 5 { // all reject
			srcs[i] = []string{"message 1", "enum A { B = ", "syntax = \"x\";", "option a = \"", "/* ", "service A { rpc B (", "extend 5", "}"}[c.Intn(8)]
		}
	}
	c.input = fmt.Sprintf("%q", srcs)
	use := func(src string, k int) string {
		switch k {
		case 0, 5:
			return outcome(src, Opts{Default: true})
		case 1:
			return outcome(src, Opts{Strict: true, Body: true, Debug: true, Filename: "a.proto"})
		case 2:
			l := lexer.NewLexer(strings.NewReader(src))
			var b strings.Builder
			for i := 0; i < 200; i++ {
				b.WriteString(step(l, i))
			}
			return b.String()
		case 3:
			s := scanner.NewScanner(strings.NewReader(src))
			var b strings.Builder
			for i := 0; i < 200; i++ {
				s.Mode = scanner.Mode(i % 64)
				t, text, pos, err := s.Scan()
				fmt.Fprint(&b, t, text, pos, err)
			}
			return b.String()
		default:
			m := []func(p *parser.Parser) (any, error){
				func(p *parser.Parser) (any, error) { return p.ParseMessage() },
				func(p *parser.Parser) (any, error) { return p.ParseEnum() },
				func(p *parser.Parser) (any, error) { return p.ParseService() },
				func(p *parser.Parser) (any, error) { return p.ParseOption() },
				func(p *parser.Parser) (any, error) { return p.ParseProto() },
			}
			var b strings.Builder
			for _, f := range m {
				v, err := f(parser.NewParser(lexer.NewLexer(strings.NewReader(src)), parser.WithPermissive(true)))
				if err != nil {
					fmt.Fprint(&b, err)
				} else {
					b.WriteString(dump.String(v, dump.All))
				}
			}
			return b.String()
		}
	}
	var got [8][8]string
	c.crowd(8, func(g int) string {
		for i := range srcs {
			got[g][(g+i)%8] = use(srcs[(g+i)%8], kind)
		}
		return ""
	})
	for k := range srcs {
		want := use(srcs[k], kind)
		for g := range got {
			if got[g][k] != want {
				c.Fail("the first, concurrent use in a process gives %s\ninstead of %s\nfor %q", clip(got[g][k], 3000), clip(want, 3000), srcs[k])
			}
		}
	}
	return ""
}

// coldStart runs ColdStart in a process of its own.
func (c *Ctx) coldStart() {
	exe, err := os.Executable()
	must(err)
	seed := c.Int63()
	for kind := 0; kind < coldKinds; kind++ {
		c.input = fmt.Sprintf("fresh process, seed %d, kind %d", seed, kind)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, exe, "-coldstart", fmt.Sprint(seed), "-kind", fmt.Sprint(kind))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		out, err := cmd.CombinedOutput()
		slow := ctx.Err() != nil
		cancel()
		if slow {
			c.Event("fresh processes stopped after 60 s", 1)
			continue
		}
		if err != nil {
			if code := cmd.ProcessState; code == nil || code.ExitCode() == TroubleExit || code.ExitCode() < 0 {
				must(fmt.Errorf("fresh process: %v: %s", err, clip(string(out), 2000)))
			}
			c.Fail("a fresh process whose first use of the library is concurrent: %v\n%s", err, clip(string(out), 8000))
		}
		c.Event("fresh processes", 1)
	}
}

// meeting is where readers wait for one another.
type meeting struct {
	n    atomic.Int64
	full chan struct{}
}

func (m *meeting) arrive() {
	if m.n.Add(-1) == 0 {
		close(m.full)
	}
}

// meetReader waits for the others in the middle of its text.
type meetReader struct {
	s    string
	left int
	m    *meeting
}

func (t *meetReader) Read(b []byte) (int, error) {
	if t.left == 0 && t.m != nil {
		t.m.arrive()
		<-t.m.full
		t.m = nil
	}
	if len(t.s) == 0 {
		return 0, io.EOF
	}
	n := min(len(b), len(t.s))
	if t.m != nil {
		n = min(n, t.left)
		t.left -= n
	}
	copy(b, t.s[:n])
	t.s = t.s[n:]
	return n, nil
}

// meet lets many parses stand in the middle of something large at the same time.
func (c *Ctx) meet() {
	d := 100 + c.Intn(1200)
	rep := strings.Repeat
	pairs := [][2]string{
		{"option a = " + rep("{ a: ", d) + "1 ", rep("}", d) + ";"},
		{"option a = " + rep("{ a { ", d) + "", rep("} }", d) + ";"},
		{"option a = { a: " + rep("[", d), rep("]", d) + " };"},
		{"option a = { a: " + rep("[ { a: ", d) + "1", rep("} ]", d) + " };"},
		{"option a = " + rep("[", d), rep("]", d) + ";"},
		{rep("message A { ", d), rep("}", d)},
		{rep("message A { enum E { A = 0; } option b = 1; ", d), rep("}", d)},
		{"message A { " + rep("repeated group G = 1 { ", d), rep("}", d) + " }"},
		{rep("message A { repeated group G = 1 { message B { option a = { a: [ 1, {", d/8), rep("} ] }; } } }", d/8)},
		{"message A { oneof a { " + rep("int32 a = 1; ", d), rep("int32 a = 1; ", d) + "} }"},
		{"enum A { " + rep("a = 1 [b = 2]; ", d), rep("a = 1 [b = 2]; ", d) + "}"},
		{"service A { rpc a (A) returns (B) { " + rep("option a = 1; ", d), rep("option a = 1; ", d) + "} }"},
		{"message A { reserved 1" + rep(", 2 to 3", d), rep(", 2 to 3", d) + "; }"},
		{"option a = \"" + rep("a", d) + "\"" + rep(" 'b'", d), rep(" 'b'", d) + ";"},
		{rep("// c\n", d), rep("/* c */", d) + "message A {}"},
		{"/*" + rep(" c", d*3), rep(" c", d*3) + "*/ message A {}"},
		{"message " + rep("a", d*3), rep("a", d*3) + " {}"},
		{"package a" + rep(".a", d), rep(".a", d) + ";"},
	}
	k := c.Intn(len(pairs))
	q := k
	if c.Intn(3) == 0 {
		q = c.Intn(len(pairs))
	}
	o := Opts{Body: c.Intn(2) == 0, Debug: c.Intn(16) == 0}
	n := 16 + c.Intn(33)
	type want struct {
		src string
		at  int
		p   *parser.Proto
		err string
	}
	var wants [2]want
	for i, k := range []int{k, q} {
		w := &wants[i]
		w.src, w.at = pairs[k][0]+pairs[k][1], len(pairs[k][0])
		p, err := protoparser.Parse(strings.NewReader(w.src), o.list()...)
		w.p, w.err = p, fmt.Sprint(err)
	}
	c.input = wants[0].src + "\n" + wants[1].src
	m := &meeting{full: make(chan struct{})}
	m.n.Store(int64(n))
	c.crowd(n, func(g int) string {
		w := &wants[g%2]
		r := &meetReader{s: w.src, left: w.at, m: m}
		p, err := protoparser.Parse(r, o.list()...)
		if r.m != nil { // it ended before its middle
			r.m.arrive()
		}
		if fmt.Sprint(err) != w.err {
			return fmt.Sprintf("%d parses that stand in their middle at the same time: %v instead of %s", n, err, w.err)
		}
		if d := dump.Diff(w.p, p, dump.All); d != "" {
			return fmt.Sprintf("%d parses that stand in their middle at the same time: %s", n, d)
		}
		return ""
	})
	c.Event("parses in their middle at the same time", n)
}

func p12run(c *Ctx) {
	c.cold()
	if c.Index%4 == 1 {
		c.meet()
	}
	if c.Index%12 < 4 {
		c.coldStart()
	}
	c.vandals()
	c.twins()
	jobs := make([]*job, 10)
	for i := range jobs {
		jobs[i] = c.makeJob()
	}
	var all strings.Builder
	for _, j := range jobs {
		fmt.Fprintf(&all, "%+v\n%q\n", j.o, j.src)
	}
	c.input = all.String()
	orders := make([][]int, 8)
	for i := range orders {
		orders[i] = c.Perm(len(jobs))
	}
	chunks := make([]int, 8)
	for i := range chunks {
		chunks[i] = []int{1, 3, 17, 4096}[c.Intn(4)]
	}
	trees := make([][]*parser.Proto, 8)
	for g := range trees {
		trees[g] = make([]*parser.Proto, len(jobs))
	}

	// Separate inputs in parallel.
	c.crowd(8, func(g int) string {
		for _, k := range orders[g] {
			j := jobs[k]
			p, err := protoparser.Parse(&stepReader{s: j.src, sizes: func() int { return chunks[g] }, err: io.EOF}, j.list...)
			if s := j.compare(p, err); s != "" {
				return "parsed in parallel: " + s + "\n" + fmt.Sprintf("%q", j.src)
			}
			if err == nil {
				trees[g][k] = p
				if w := views(p); w != j.walk {
					return fmt.Sprintf("walked in parallel: %s instead of %s\n%q", w, j.walk, j.src)
				}
				u, err := protoparser.UnorderedInterpret(p)
				if err != nil {
					return fmt.Sprint("interpreted in parallel: ", err)
				}
				if d := dump.Diff(j.un, u, dump.All); d != "" {
					return "interpreted in parallel: " + d
				}
			}
		}
		return ""
	})
	c.Event("parallel parses", 8*len(jobs))

	// One tree shared by all.
	for _, j := range jobs {
		if j.tree == nil {
			continue
		}
		before := dump.String(j.tree, dump.All)
		c.crowd(8, func(g int) string {
			if g%2 == 0 {
				u, err := protoparser.UnorderedInterpret(j.tree)
				if err != nil {
					return err.Error()
				}
				if d := dump.Diff(j.un, u, dump.All); d != "" {
					return "interpreted the shared tree: " + d
				}
			}
			if w := views(j.tree); w != j.walk {
				return fmt.Sprintf("walked the shared tree: %s instead of %s", w, j.walk)
			}
			return ""
		})
		if dump.String(j.tree, dump.All) != before {
			c.Fail("reading the tree changed it: %q", j.src)
		}
		c.Event("shared walks", 8)
	}

	// Trees handed out earlier are as they were.
	for g := range trees {
		for k, p := range trees[g] {
			if p == nil {
				continue
			}
			if d := dump.Diff(jobs[k].tree, p, dump.All); d != "" {
				c.Fail("a later parse altered a tree: %s\n%q", d, jobs[k].src)
			}
			c.Event("trees unchanged by later parses", 1)
		}
	}

	// Lock step and nested parses.
	for i := 0; i < 3; i++ {
		c.alternate(jobs[c.Intn(len(jobs))], jobs[c.Intn(len(jobs))])
	}
	a, b := jobs[c.Intn(len(jobs))], jobs[c.Intn(len(jobs))]
	nr := &nestReader{s: a.src, chunk: 1 + len(a.src)/30, inner: func() string {
		p, err := protoparser.Parse(strings.NewReader(b.src), b.list...)
		return b.compare(p, err)
	}}
	p, err := protoparser.Parse(nr, a.list...)
	if nr.bad != "" {
		c.Fail("parsed inside a read of another parse: %s", nr.bad)
	}
	if s := a.compare(p, err); s != "" {
		c.Fail("another parse ran inside its reads: %s", s)
	}
	c.Event("nested parses", nr.n)

	// Texts handed out by a lexer stay as they were.
	for i := 0; i < 4; i++ {
		c.lexerTexts(jobs[c.Intn(len(jobs))].src)
	}
	// Two parsers over two lexers, statement by statement.
	c.interleavedCalls(jobs[c.Intn(len(jobs))].src, jobs[c.Intn(len(jobs))].src)

	for _, j := range jobs {
		c.Eval(j.tree != nil && len(j.tree.ProtoBody) > 0, j.src)
	}
}

func (c *Ctx) lexerTexts(src string) {
	l := lexer.NewLexer(strings.NewReader(src))
	s := scanner.NewScanner(strings.NewReader(src))
	type kept struct {
		text string
		raw  []rune
		t2   string
		r2   string
	}
	var all []kept
	keep := func(text string, raw []rune) {
		all = append(all, kept{text, raw, strings.Clone(text), string(raw)})
	}
	for n := 0; n < 200; n++ {
		switch c.Intn(6) {
		case 0:
			l.NextComment()
		case 1:
			l.NextLit()
		case 2:
			l.NextKeyword()
		case 3:
			l.Peek()
			continue
		case 4:
			l.Next()
			keep(l.Text, l.RawText)
			l.UnNext()
			l.NextStrLit()
		default:
			l.Next()
		}
		keep(l.Text, l.RawText)
		s.Mode = scanner.Mode(c.Intn(64))
		_, text, _, _ := s.Scan()
		keep(text, s.LastScanRaw())
		if c.Intn(4) == 0 {
			s.UnScan()
		}
	}
	for _, k := range all {
		if k.text != k.t2 || string(k.raw) != k.r2 {
			c.Input(src)
			c.Fail("further use of the lexer altered a text: %q was %q, raw %q was %q", k.text, k.t2, string(k.raw), k.r2)
		}
	}
	c.Event("token texts unchanged", len(all))
}

// interleavedCalls takes turns between two lexers and checks each against running alone.
func (c *Ctx) interleavedCalls(x, y string) {
	alone := func(src string) []string {
		l := lexer.NewLexer(strings.NewReader(src))
		var out []string
		for i := 0; i < 150; i++ {
			out = append(out, step(l, i))
		}
		return out
	}
	wx, wy := alone(x), alone(y)
	lx, ly := lexer.NewLexer(strings.NewReader(x)), lexer.NewLexer(strings.NewReader(y))
	i, j := 0, 0
	for i < 150 || j < 150 {
		if j >= 150 || i < 150 && c.Intn(2) == 0 {
			if s := step(lx, i); s != wx[i] {
				c.Input(x + "\n-- and --\n" + y)
				c.Fail("a second lexer changes the first: step %d gives %s instead of %s", i, s, wx[i])
			}
			i++
		} else {
			if s := step(ly, j); s != wy[j] {
				c.Input(x + "\n-- and --\n" + y)
				c.Fail("a second lexer changes the first: step %d gives %s instead of %s", j, s, wy[j])
			}
			j++
		}
	}
	c.Event("interleaved lexer calls", 300)
}

func step(l *lexer.Lexer, i int) string {
	switch i % 7 {
	case 2:
		return fmt.Sprint("peek ", l.Peek(), l.Pos)
	case 3:
		l.NextKeyword()
	case 5:
		l.NextLit()
	case 6:
		l.NextComment()
	default:
		l.Next()
	}
	return fmt.Sprintf("%v %q %q %v", l.Token, l.Text, string(l.RawText), l.Pos)
}

func init() {
	register(&Prop{ID: "P12", Cases: scale(160, 6000), Run: p12run, MinNontrivial: 600, Binary: "race", Workers: 4,
		MinEvents: map[string]int64{"parallel parses": 4000, "shared walks": 1500, "lock-step handovers": 10000, "nested parses": 2000, "token texts unchanged": 20000, "trees unchanged by later parses": 1500, "first uses in parallel": 1500, "parses in their middle at the same time": 400, "fresh trees shared": 80, "trees vandalised": 100, "changed trees asked again": 300, "fresh processes": 100, "interleaved lexer calls": 10000, "alike sources in turn": 1000, "alike sources at once": 4000},
		Rule: "under the race detector: ten sources each parsed, walked and interpreted by eight goroutines at once with shared option values, every tree also walked and interpreted by eight goroutines at once, sources and fresh trees first used concurrently, also as the very first use in a fresh process, trees overwritten by their owner while others exist, sources alike but for a character read in turn and at once against the reference, pairs of parses alternating at every read, parses nested in a read of another, lexers used in turns; each outcome compared with running alone; " +
			"non-trivial = a distinct accepted source, or a distinct lock-step schedule"})
}
