// Package props holds one monitor per property.
package props

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"

	"verif/mon/dump"
	"verif/mon/gen"
	"verif/mon/ref"
)

// Violation is raised by Ctx.Fail.
type Violation struct {
	Sig    string // a stable identification of the failing input or history
	Detail string
}

// Ctx is what a monitor sees of one case.
type Ctx struct {
	*rand.Rand
	Tier  string
	Seed  int64
	Index int

	*Stats
	input   string
	session *session
}

// Stats are the counters of a run.
type Stats struct {
	Events  map[string]int64
	Evals   int64
	Hashes  map[uint64]struct{}
	Samples []string
	// Edges are the edges of the instrumented library that guided sessions reached.
	Edges []byte
}

// Add merges the counters of another run.
func (s *Stats) Add(o *Stats) {
	for k, n := range o.Events {
		s.Events[k] += n
	}
	s.Evals += o.Evals
	if len(s.Edges) < len(o.Edges) {
		s.Edges = append(s.Edges, make([]byte, len(o.Edges)-len(s.Edges))...)
	}
	for i, b := range o.Edges {
		s.Edges[i] |= b
	}
	for h := range o.Hashes {
		s.Hashes[h] = struct{}{}
	}
	for _, x := range o.Samples {
		if len(s.Samples) < 6 {
			s.Samples = append(s.Samples, x)
		}
	}
}

// Root is the directory of the framework.
var Root = "/verif"

// NewStats makes empty counters.
func NewStats() *Stats { return &Stats{Events: map[string]int64{}, Hashes: map[uint64]struct{}{}} }

// Thorough tells whether the deep tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Event counts something the monitor observed.
func (c *Ctx) Event(name string, n int) {
	if n != 0 {
		c.Events[name] += int64(n)
	}
}

// Input records the input of the case for the replay file.
func (c *Ctx) Input(s string) { c.input = s }

// Eval counts one execution judged by the oracle; nontrivial ones are counted by distinct key.
func (c *Ctx) Eval(nontrivial bool, key string) {
	c.Evals++
	if nontrivial {
		h := fnv.New64a()
		io.WriteString(h, key)
		c.Hashes[h.Sum64()] = struct{}{}
		if len(c.Samples) < 4 && len(key) < 1500 {
			c.Samples = append(c.Samples, key)
		}
	}
}

// Fail reports a violation.
func (c *Ctx) Fail(format string, a ...any) {
	panic(&Violation{Sig: fmt.Sprintf("%q", clip(c.input, 300)), Detail: fmt.Sprintf(format, a...) + "\ninput:\n" + fmt.Sprintf("%q", clip(c.input, 20000)) + "\n"})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// trouble is raised when the machinery itself fails (a full disk, a missing tool): no verdict.
type trouble string

// TroubleExit is the exit status of a process that met trouble.
const TroubleExit = 77

// must turns an error of the machinery into trouble.
func must(err error) {
	if err != nil {
		panic(trouble(err.Error()))
	}
}

// Prop is a monitor.
type Prop struct {
	ID string
	// Cases is the number of cases of a tier.
	Cases func(tier string) int
	// Run executes case c.Index.
	Run func(c *Ctx)
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// MinNontrivial is the number of distinct non-trivial evaluations below which a run is inconclusive.
	MinNontrivial int
	// MinEvents are the events that a conclusive run has to have observed.
	MinEvents map[string]int64
	// Guided adds sessions guided by coverage; First is the first of the random cases.
	Guided bool
	First  func() int
	// Workers overrides the number of worker processes.
	Workers int
	// Binary is the build to use: "" or "race" or "cover".
	Binary string
	// Exhaustive names the part of the space that is enumerated completely, if any.
	Exhaustive  string
	Assumptions []string
}

// All are the registered monitors.
var All = map[string]*Prop{}

func register(p *Prop) { All[p.ID] = p }

func scale(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

// RunCase runs one case and returns its violation, if any. A panic of the code under test is one.
func RunCase(p *Prop, c *Ctx) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(*Violation); ok {
				v = x
				return
			}
			if x, ok := r.(trouble); ok {
				fmt.Fprintln(os.Stderr, "trouble in the machinery:", string(x))
				os.Exit(TroubleExit)
			}
			v = &Violation{Sig: fmt.Sprintf("panic %q", clip(c.input, 300)),
				Detail: fmt.Sprintf("panic: %v\n%s\ninput:\n%q\n", r, debug.Stack(), clip(c.input, 20000))}
		}
	}()
	p.run(c)
	return nil
}

// CaseSeed derives the seed of a case.
func CaseSeed(prop string, seed int64, index int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, index)
	return int64(h.Sum64() &^ (1 << 63))
}

// NewCtx makes the context of a case that shares the counters of a run.
func NewCtx(prop, tier string, seed int64, index int, st *Stats) *Ctx {
	return &Ctx{Rand: rand.New(rand.NewSource(CaseSeed(prop, seed, index))), Tier: tier, Seed: seed, Index: index, Stats: st}
}

// Opts is the option set of a parse.
type Opts struct {
	Strict, Body, Debug bool
	// Default leaves the permissive option unset.
	Default  bool
	Filename string
}

func (o Opts) list() []protoparser.Option {
	var l []protoparser.Option
	if !o.Default || o.Strict {
		l = append(l, protoparser.WithPermissive(!o.Strict))
	}
	if o.Body {
		l = append(l, protoparser.WithBodyIncludingComments(true))
	}
	if o.Debug {
		l = append(l, protoparser.WithDebug(true))
	}
	if o.Filename != "" {
		l = append(l, protoparser.WithFilename(o.Filename))
	}
	return l
}

// respelled is the same option set given in another way: in a random order, with values that are the default, and
// with options that a later one overrides.
func (c *Ctx) respelled(o Opts) []protoparser.Option {
	type spelling struct {
		def    bool
		set    protoparser.Option
		others []protoparser.Option
	}
	all := []spelling{
		{!o.Strict, protoparser.WithPermissive(!o.Strict), []protoparser.Option{protoparser.WithPermissive(o.Strict), protoparser.WithPermissive(!o.Strict)}},
		{!o.Body, protoparser.WithBodyIncludingComments(o.Body), []protoparser.Option{protoparser.WithBodyIncludingComments(!o.Body), protoparser.WithBodyIncludingComments(o.Body)}},
		{!o.Debug, protoparser.WithDebug(o.Debug), []protoparser.Option{protoparser.WithDebug(!o.Debug), protoparser.WithDebug(o.Debug)}},
		{o.Filename == "", protoparser.WithFilename(o.Filename), []protoparser.Option{protoparser.WithFilename("other"), protoparser.WithFilename(""), protoparser.WithFilename(o.Filename + "x")}},
	}
	// Each of them as a queue; the queues are merged at random.
	var queues [][]protoparser.Option
	n := 0
	for _, s := range all {
		if s.def && c.Intn(2) == 0 {
			continue
		}
		var q []protoparser.Option
		for c.Intn(3) == 0 {
			q = append(q, s.others[c.Intn(len(s.others))])
		}
		q = append(q, s.set)
		queues = append(queues, q)
		n += len(q)
	}
	l := make([]protoparser.Option, 0, n)
	for len(queues) > 0 {
		k := c.Intn(len(queues))
		l = append(l, queues[k][0])
		if queues[k] = queues[k][1:]; len(queues[k]) == 0 {
			queues = append(queues[:k], queues[k+1:]...)
		}
	}
	return l
}

func (o Opts) ref() ref.Config {
	return ref.Config{Strict: o.Strict, BodyComments: o.Body, Filename: o.Filename}
}

// Parse runs the library on a string.
func Parse(src string, o Opts) (*parser.Proto, error) {
	return protoparser.Parse(strings.NewReader(src), o.list()...)
}

// parse runs the library on src and requires exactly one of tree and error.
func (c *Ctx) parse(src string, o Opts) (*parser.Proto, error) {
	c.input = src
	p, err := protoparser.Parse(bytes.NewReader([]byte(src)), o.list()...)
	c.Event("parses", 1)
	if err == nil {
		c.Event("accepted", 1)
	} else {
		c.Event("rejected", 1)
	}
	if (p == nil) == (err == nil) {
		c.Fail("Parse returned tree=%v and err=%v", p != nil, err)
	}
	return p, err
}

// Conf draws a generator configuration.
func (c *Ctx) conf(permissive bool) gen.Conf {
	k := gen.Default(permissive)
	switch c.Intn(12) {
	case 0:
		k.Stmts, k.Width = 20, 8
	case 1:
		k.Depth = 7
	case 2, 3, 4:
		k.Stmts, k.Width, k.Depth = 2, 3, 2
	}
	return k
}

// file generates a conforming file.
func (c *Ctx) file(permissive bool) *gen.File {
	f := gen.New(c.Rand, c.conf(permissive))
	for k, n := range f.Feat {
		c.Event("gen:"+k, n)
	}
	return f
}

// source draws a text of the given kind: a conforming file in some layout, or a mutant of one.
func (c *Ctx) source(mutate bool) string {
	if s, ok := c.guided(); ok {
		return s
	}
	return c.drawn(c.fresh(mutate))
}

// manyOf draws a long file that repeats a few statements or other parts at some level.
func (c *Ctx) manyOf() string {
	x := unitCtxs[c.Intn(len(unitCtxs))]
	if c.Intn(3) != 0 {
		x = unitCtxs[c.Intn(8)]
	}
	var us []string
	size := 0
	for n := 1 + c.Intn(3); n > 0; n-- {
		us = append(us, x.units[c.Intn(len(x.units))])
		size += len(us[len(us)-1])
	}
	n := 100 + gen.Length(c.Rand, 3000)
	if n*size > 80000 {
		n = 80000 / size
	}
	c.Event("long files", 1)
	var b strings.Builder
	b.WriteString(x.pre)
	repeatUnits(&b, us, x.sep, n)
	b.WriteString(x.post)
	return b.String()
}

// echoed sometimes puts near copies of statements behind or before them.
func (c *Ctx) echoed(toks []string) []string {
	if c.Intn(6) != 0 {
		return toks
	}
	for n := 1 + c.Intn(3); n > 0; n-- {
		toks = gen.Echo(c.Rand, toks)
		c.Event("statements with a near copy", 1)
	}
	return toks
}

func (c *Ctx) fresh(mutate bool) string {
	if c.session == nil && c.Intn(200) == 0 {
		return c.manyOf()
	}
	f := c.file(c.Intn(4) != 0)
	toks := c.echoed(f.Toks)
	l := gen.RandLayout(c.Rand, c.Intn(2) == 0)
	if mutate && c.Intn(2) == 0 {
		toks = gen.MutateTokens(c.Rand, toks)
		return gen.Render(c.Rand, toks, l)
	}
	s := gen.Render(c.Rand, toks, l)
	if mutate {
		s = gen.MutateBytes(c.Rand, s)
	}
	return s
}

func same(a, b any, m dump.Mask) string { return dump.Diff(a, b, m) }
