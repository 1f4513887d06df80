package props

import (
	"fmt"
	"reflect"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"

	"verif/mon/dump"
)

// P26: an edit at one place of a tree shows at no other.

// place is a field, a list or an element of a list of some tree.
type place struct {
	at string
	v  reflect.Value
}

// places lists all places below v, each as often as it is reached.
func places(at string, v reflect.Value, out *[]place, depth int) {
	if depth > 5000 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.CanSet() {
			*out = append(*out, place{at, v})
		}
		if !v.IsNil() {
			places(at, v.Elem(), out, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				places(at+"."+v.Type().Field(i).Name, v.Field(i), out, depth+1)
			}
		}
	case reflect.Slice:
		if v.CanSet() {
			*out = append(*out, place{at, v})
		}
		for i := 0; i < v.Len(); i++ {
			places(fmt.Sprintf("%s[%d]", at, i), v.Index(i), out, depth+1)
		}
	case reflect.String, reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64:
		if v.CanSet() {
			*out = append(*out, place{at, v})
		}
	}
}

// alien makes a new element for a list or a pointer of the type.
func alien(t reflect.Type, n int) (reflect.Value, bool) {
	text := fmt.Sprintf("alien %d", n)
	switch {
	case t == reflect.TypeOf((*parser.Visitee)(nil)).Elem():
		return reflect.ValueOf(parser.Visitee(&parser.Comment{Raw: text})), true
	case t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Struct:
		return reflect.New(t.Elem()), true
	case t.Kind() == reflect.String:
		return reflect.ValueOf(text).Convert(t), true
	}
	return reflect.Value{}, false
}

// ownership edits every place of the holders and reads all of them back.
func (c *Ctx) ownership(what string, holders ...any) int {
	var all []place
	for i, h := range holders {
		at := fmt.Sprintf("%T", h)
		if len(holders) > 1 {
			at = fmt.Sprintf("%d:%s", i, at)
		}
		places(at, reflect.ValueOf(h), &all, 0)
	}
	c.Rand.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })

	// Every text and number becomes another one.
	for i, p := range all {
		switch p.v.Kind() {
		case reflect.String:
			p.v.SetString(fmt.Sprintf("edit %d", i))
		case reflect.Int, reflect.Int64:
			p.v.SetInt(int64(i + 1000000))
		case reflect.Uint, reflect.Uint64:
			p.v.SetUint(uint64(i + 1000000))
		}
	}
	read := func(p place, i int) bool {
		switch p.v.Kind() {
		case reflect.String:
			return p.v.String() == fmt.Sprintf("edit %d", i)
		case reflect.Int, reflect.Int64:
			return p.v.Int() == int64(i+1000000)
		case reflect.Uint, reflect.Uint64:
			return p.v.Uint() == uint64(i+1000000)
		}
		return true
	}
	for i, p := range all {
		if !read(p, i) {
			c.Fail("%s: an edit of another place changes %s to %v", what, p.at, p.v.Interface())
		}
	}
	c.Event("texts and numbers edited", len(all))

	// Every list is extended.
	held := map[int][]reflect.Value{}
	for i, p := range all {
		if p.v.Kind() != reflect.Slice {
			continue
		}
		for n := 1 + c.Intn(3); n > 0; n-- {
			x, ok := alien(p.v.Type().Elem(), i)
			if !ok {
				c.Fail("%s: a list of %v", p.at, p.v.Type().Elem())
			}
			p.v.Set(reflect.Append(p.v, x))
		}
		for j := 0; j < p.v.Len(); j++ {
			held[i] = append(held[i], reflect.ValueOf(p.v.Index(j).Interface()))
		}
		c.Event("lists extended", 1)
	}
	lists := func(edit string) {
		for i, p := range all {
			if p.v.Kind() != reflect.Slice {
				continue
			}
			if p.v.Len() != len(held[i]) {
				c.Fail("%s: %s changes the length of %s", what, edit, p.at)
			}
			for j, h := range held[i] {
				if p.v.Index(j).Interface() != h.Interface() {
					c.Fail("%s: %s changes element %d of %s", what, edit, j, p.at)
				}
			}
		}
	}
	lists("extending another list")

	// Every list is turned round.
	for i, p := range all {
		if p.v.Kind() != reflect.Slice {
			continue
		}
		h := held[i]
		for l, r := 0, len(h)-1; l < r; l, r = l+1, r-1 {
			h[l], h[r] = h[r], h[l]
		}
		for j := range h {
			p.v.Index(j).Set(h[j])
		}
	}
	lists("turning round another list")

	// Every pointer is replaced.
	set := map[int]reflect.Value{}
	for i, p := range all {
		if p.v.Kind() != reflect.Pointer {
			continue
		}
		if x, ok := alien(p.v.Type(), i); ok {
			p.v.Set(x)
			set[i] = x
		}
	}
	for i, x := range set {
		if all[i].v.Interface() != x.Interface() {
			c.Fail("%s: replacing another element changes %s", what, all[i].at)
		}
	}
	c.Event("elements replaced", len(set))
	return len(all)
}

// setters sets the inline comment of every element that takes one.
func (c *Ctx) setters(p *parser.Proto) {
	all := inventory(p)
	for _, n := range all {
		s, ok := n.v.(parser.HasInlineCommentSetter)
		if !ok || len(all) > 300 && c.Intn(len(all)) > 50 {
			continue
		}
		f := reflect.ValueOf(n.v).Elem().FieldByName("InlineComment")
		if !f.IsValid() {
			c.Fail("%s has a setter of its inline comment but no inline comment", n.typ)
		}
		was := f.Interface().(*parser.Comment)
		before := dump.String(n.v, dump.All)
		x := &parser.Comment{Raw: "// set"}
		s.SetInlineComment(x)
		if f.Interface() != any(x) {
			c.Fail("%s does not take its inline comment", n.typ)
		}
		r := &recorder{}
		n.v.Accept(r)
		seen := 0
		for _, call := range r.calls {
			if call == parser.Visitee(x) {
				seen++
			}
		}
		if seen != 1 {
			c.Fail("the inline comment of %s is visited %d times", n.typ, seen)
		}
		s.SetInlineComment(nil)
		if f.Interface() != any((*parser.Comment)(nil)) {
			c.Fail("%s does not lose its inline comment", n.typ)
		}
		s.SetInlineComment(was)
		if dump.String(n.v, dump.All) != before {
			c.Fail("setting the inline comment of %s changes more of it", n.typ)
		}
		c.Event("inline comments set", 1)
	}
}

// interpretationOwn checks that the lists of an interpretation and those of the tree are apart.
func (c *Ctx) interpretationOwn(p *parser.Proto) {
	u, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		c.Fail("not interpreted: %v", err)
	}
	u2, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		c.Fail("not interpreted again: %v", err)
	}
	before := dump.String(p, dump.All)
	second := dump.String(u2, dump.All)
	var lists []place
	var bodies func(v reflect.Value, at string)
	bodies = func(v reflect.Value, at string) { // the bodies of interpretations below v
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			name := at + "." + v.Type().Field(i).Name
			if f.Kind() != reflect.Pointer || f.IsNil() || f.Elem().Kind() != reflect.Struct || f.Type().Elem().PkgPath() != v.Type().PkgPath() {
				continue
			}
			b := f.Elem()
			for j := 0; j < b.NumField(); j++ {
				l := b.Field(j)
				if l.Kind() != reflect.Slice {
					continue
				}
				lists = append(lists, place{name + "." + b.Type().Field(j).Name, l})
				if l.Type().Elem().Elem().PkgPath() == v.Type().PkgPath() {
					for k := 0; k < l.Len(); k++ {
						bodies(l.Index(k), fmt.Sprintf("%s.%s[%d]", name, b.Type().Field(j).Name, k))
					}
				}
			}
		}
	}
	bodies(reflect.ValueOf(u), "Proto")
	var held [][]any
	for i, l := range lists {
		n := 1 + c.Intn(3)
		for ; n > 0; n-- {
			x, _ := alien(l.v.Type().Elem(), i)
			l.v.Set(reflect.Append(l.v, x))
		}
		for j, k := 0, l.v.Len()-1; j < k; j, k = j+1, k-1 {
			a, b := l.v.Index(j).Interface(), l.v.Index(k).Interface()
			l.v.Index(j).Set(reflect.ValueOf(b))
			l.v.Index(k).Set(reflect.ValueOf(a))
		}
		var h []any
		for j := 0; j < l.v.Len(); j++ {
			h = append(h, l.v.Index(j).Interface())
		}
		held = append(held, h)
	}
	same := func(edit string) {
		for i, l := range lists {
			for j, h := range held[i] {
				if l.v.Index(j).Interface() != h {
					c.Fail("%s changes %s[%d] of an interpretation", edit, l.at, j)
				}
			}
		}
	}
	same("editing another list")
	if dump.String(p, dump.All) != before {
		c.Fail("editing the lists of an interpretation changes the tree")
	}
	if dump.String(u2, dump.All) != second {
		c.Fail("editing the lists of an interpretation changes another interpretation")
	}
	c.editTree(p)
	same("editing the bodies of the tree")
	c.Event("interpretation lists edited", len(lists))
}

func p26run(c *Ctx) {
	src, p := c.treeSource()
	c.input = src
	c.setters(p)
	c.interpretationOwn(p)
	o := Opts{Strict: c.Intn(5) == 0, Body: c.Intn(2) == 0}
	p, err := c.parse(src, o)
	if err != nil {
		c.Eval(false, src)
		return
	}
	c.input = src
	n := 0
	switch c.Intn(3) {
	case 0:
		n = c.ownership("one tree", p)
	case 1: // trees of the same parser stand apart from one another
		q, err := c.parse(src, o)
		if err != nil {
			c.Fail("rejected the second time: %v", err)
		}
		c.input = src
		n = c.ownership("two trees", p, q)
	case 2: // the statements of one parser, edited as soon as they are there
		if len(src) > 0 && src[0] == 0xef {
			break
		}
		_, pr := c.newParser(src, o)
		var want []parser.Visitee
		if p.Syntax != nil {
			want = append(want, p.Syntax)
		}
		if p.Edition != nil {
			want = append(want, p.Edition)
		}
		want = append(want, p.ProtoBody...)
		var got []any
		for i, w := range want {
			call := entry[fmt.Sprintf("%T", w)]
			if call == nil { // comments and empty statements
				break
			}
			cs := pr.ParseComments()
			x, err := call(pr)
			if err != nil {
				c.Fail("statement %d (%T): %v", i, w, err)
			}
			setComments(x, cs)
			pr.MaybeScanInlineComment(x.(commented))
			if d := dump.Diff(w, x, dump.All); d != "" {
				c.Fail("statement %d differs after edits of the earlier ones: %s", i, d)
			}
			got = append(got, x)
			c.ownership("statements of one parser", got[len(got)-1-c.Intn(min(len(got), 8)):]...)
			c.Event("statements edited while parsing", 1)
			n++
		}
	}
	c.Eval(n > 0, src)
}

func init() {
	register(&Prop{ID: "P26", Cases: scale(6000, 150000), MinNontrivial: 2000,
		MinEvents: map[string]int64{"texts and numbers edited": 500000, "lists extended": 20000, "elements replaced": 20000, "inline comments set": 20000, "interpretation lists edited": 50000, "statements edited while parsing": 1000},
		Run:       p26run,
		Rule:      "parsed trees, pairs of trees and statements of one parser; every text and number at every place is overwritten with one of its own, every list extended and turned round, every pointer replaced, and all places read back; lists of interpretations likewise; inline comment setters; non-trivial = a distinct tree with places"})
}
