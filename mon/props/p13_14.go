package props

import (
	"fmt"
	"reflect"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/parser"

	"verif/mon/dump"
)

// treeSource yields an accepted source with its tree.
func (c *Ctx) treeSource() (string, *parser.Proto) {
	for {
		src := ""
		if c.Intn(3) == 0 {
			src = c.source(true)
		} else {
			src = c.layoutSource(true)
		}
		p, err := c.parse(src, Opts{Strict: c.Intn(5) == 0, Body: c.Intn(2) == 0})
		if err == nil {
			return src, p
		}
	}
}

// P13: visitors.

func (c *Ctx) checkWalk(root *node, all []*node, r *recorder, what string) {
	want := map[parser.Visitee]*node{}
	for _, n := range all {
		if _, dup := want[n.v]; dup {
			c.Fail("%s: %s at %s[%d] is held twice", what, n.typ, n.list, n.index)
		}
		want[n.v] = n
	}
	at := map[parser.Visitee]int{}
	for i, v := range r.calls {
		n := want[v]
		if n == nil {
			c.Fail("%s: the visitor is called with a %T that the tree does not hold", what, v)
		}
		if j, dup := at[v]; dup {
			c.Fail("%s: %s %s[%d] is visited twice (calls %d and %d)", what, n.typ, n.list, n.index, j, i)
		}
		if r.kinds[i] != n.typ {
			c.Fail("%s: %s is dispatched to the method for %s", what, n.typ, r.kinds[i])
		}
		at[v] = i
	}
	for _, n := range all {
		i, ok := at[n.v]
		if !ok {
			c.Fail("%s: %s at %s.%s[%d] is not visited", what, n.typ, n.parent.typ, n.list, n.index)
		}
		if n.parent != root && n.parent.v != nil {
			if j := at[n.parent.v]; j > i {
				c.Fail("%s: %s is visited before its parent %s", what, n.typ, n.parent.typ)
			}
		}
	}
	// Lists in order.
	type list struct {
		p *node
		f string
	}
	last := map[list]*node{}
	for _, n := range all {
		k := list{n.parent, n.list}
		if m := last[k]; m != nil && at[m.v] > at[n.v] {
			c.Fail("%s: %s.%s[%d] is visited after [%d]", what, n.parent.typ, n.list, m.index, n.index)
		}
		last[k] = n
	}
	// Statements in source order.
	var prev *node
	both := false
	for _, n := range all {
		if n.typ == "*parser.Edition" {
			for _, m := range all {
				both = both || m.typ == "*parser.Syntax"
			}
		}
	}
	for _, v := range r.calls {
		n := want[v]
		if n.meta == nil || n.typ == "*parser.Comment" || n.typ == "*parser.Option" && n.parent.typ == "*parser.Oneof" || both && (n.typ == "*parser.Edition" || n.typ == "*parser.Syntax") {
			continue
		}
		if prev != nil && prev.meta.Pos.Offset >= n.meta.Pos.Offset {
			c.Fail("%s: %s at %d is visited after %s at %d", what, n.typ, n.meta.Pos.Offset, prev.typ, prev.meta.Pos.Offset)
		}
		prev = n
	}
	c.Event("calls matched with the inventory", len(r.calls))
}

func below(n *node, out []*node) []*node {
	for _, k := range n.children {
		out = append(out, k)
		out = below(k, out)
	}
	return out
}

func p13run(c *Ctx) {
	src, p := c.treeSource()
	c.input = src
	all := inventory(p)
	full := &recorder{}
	p.Accept(full)
	c.checkWalk(nil, all, full, "full walk")
	for _, n := range all {
		c.Event("visited "+strings.TrimPrefix(n.typ, "*parser."), 1)
	}
	byV := map[parser.Visitee]*node{}
	for _, n := range all {
		byV[n.v] = n
	}
	prune := func(name string, stop func(n *node) bool) {
		stopped := map[*node]bool{}
		r := &recorder{stop: func(v parser.Visitee) bool {
			n := byV[v]
			if n != nil && stop(n) {
				stopped[n] = true
				return true
			}
			return false
		}}
		p.Accept(r)
		var want []parser.Visitee
		for _, v := range full.calls {
			skip := false
			for m := byV[v].parent; m != nil; m = m.parent {
				skip = skip || stopped[m]
			}
			if !skip {
				want = append(want, v)
			}
		}
		for i := 0; i < len(want) || i < len(r.calls); i++ {
			switch {
			case i >= len(want) || i < len(r.calls) && r.calls[i] != want[i]:
				c.Fail("%s: call %d is for %T %s, which is not due", name, i, r.calls[i], where(byV[r.calls[i]]))
			case i >= len(r.calls):
				c.Fail("%s: %T %s is skipped", name, want[i], where(byV[want[i]]))
			}
		}
		c.Event("pruned elements", len(stopped))
	}
	pruned := map[*node]bool{}
	for _, d := range []int{2, 5, 20} {
		for _, n := range all {
			pruned[n] = c.Intn(d) == 0
		}
		prune(fmt.Sprintf("pruning one in %d", d), func(n *node) bool { return pruned[n] })
	}
	prune("pruning everything", func(n *node) bool { return true })
	kinds := map[string]bool{}
	for _, n := range all {
		if !kinds[n.typ] {
			kinds[n.typ] = true
			k := n.typ
			prune("pruning every "+k, func(n *node) bool { return n.typ == k })
		}
	}
	// Every single element alone, in small trees.
	if len(all) < 80 {
		for _, m := range all {
			prune("pruning one element", func(n *node) bool { return n == m })
		}
	}
	c.nestedWalks(p, all, full)
	c.brokenWalk(p, all, full)
	if c.Intn(3) == 0 {
		defer c.editedWalks(p)
	} else {
		defer c.alikeWalk(p, full)
	}
	for i := 0; i < 5 && len(all) > 0; i++ {
		n := all[c.Intn(len(all))]
		r := &recorder{}
		n.v.Accept(r)
		if len(r.calls) == 0 || r.calls[0] != n.v {
			c.Fail("Accept of a %s does not visit it first", n.typ)
		}
		sub := append([]*node{n}, below(n, nil)...)
		c.checkWalk(n.parent, sub, r, "walk from a "+n.typ)
		c.Event("walks from an inner element", 1)
	}
	c.Eval(len(all) > 1, src)
}

// sameCalls requires that a walk is the one before.
func (c *Ctx) sameCalls(what string, want, got *recorder) {
	for i := 0; i < len(want.calls) || i < len(got.calls); i++ {
		if i >= len(want.calls) || i >= len(got.calls) || want.calls[i] != got.calls[i] || want.kinds[i] != got.kinds[i] {
			c.Fail("%s differs from call %d of %d on (%d calls)", what, i, len(want.calls), len(got.calls))
		}
	}
}

// alikeWalk walks the tree once all that its elements are told apart by, but for their kinds and places, is gone.
func (c *Ctx) alikeWalk(p *parser.Proto, full *recorder) {
	var level func(v reflect.Value)
	level = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				level(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				level(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					level(v.Field(i))
				}
			}
		default:
			if v.CanSet() {
				v.SetZero()
			}
		}
	}
	level(reflect.ValueOf(p))
	r := &recorder{}
	p.Accept(r)
	c.sameCalls("the walk of the tree with all its elements alike", full, r)
	c.Event("walks of alike elements", 1)
}

// nestedWalks lets the visitor walk, from the element it is called with or the whole tree, before it returns.
func (c *Ctx) nestedWalks(p *parser.Proto, all []*node, full *recorder) {
	if len(all) > 400 {
		return
	}
	outer := &recorder{}
	at := 0
	var v *recorder
	v = &recorder{stop: func(x parser.Visitee) bool {
		outer.calls, outer.kinds = v.calls, v.kinds
		if at++; c.Intn(4) == 0 {
			inner := &recorder{}
			if c.Intn(3) == 0 {
				p.Accept(inner)
				c.sameCalls("a walk within a walk", full, inner)
			} else {
				x.Accept(inner)
				if len(inner.calls) == 0 || inner.calls[0] != x {
					c.Fail("a walk of %T within its visit does not visit it first", x)
				}
				k := at - 1
				for i, y := range inner.calls {
					if k+i >= len(full.calls) || full.calls[k+i] != y {
						// The walk of an element is a part of the walk of the tree if that visits children behind it.
						c.Event("nested walks with another order", 1)
						break
					}
				}
			}
			c.Event("nested walks", 1)
		}
		return false
	}}
	p.Accept(v)
	c.sameCalls("a walk whose visitor walks too", full, v)
}

// brokenWalk ends a walk by a panic of the visitor and walks again.
func (c *Ctx) brokenWalk(p *parser.Proto, all []*node, full *recorder) {
	if len(full.calls) == 0 {
		return
	}
	n := c.Intn(len(full.calls))
	func() {
		defer func() {
			if r := recover(); r != "enough" {
				c.Fail("the panic of a visitor arrives as %v", r)
			}
		}()
		i := 0
		p.Accept(&recorder{stop: func(parser.Visitee) bool {
			if i++; i > n {
				panic("enough")
			}
			return false
		}})
		// A comment's visitor has no say, so the last call may be one; stop is called for it all the same.
	}()
	again := &recorder{}
	p.Accept(again)
	c.sameCalls("a walk after one that the visitor ended by a panic", full, again)
	c.Event("walks after broken ones", 1)
}

// editedWalks walks the tree after its owner has changed it: elements dropped, reversed, exchanged and doubled.
func (c *Ctx) editedWalks(p *parser.Proto) {
	for i := 1 + c.Intn(3); i > 0; i-- {
		c.editTree(p)
		all := inventory(p)
		r := &recorder{}
		p.Accept(r)
		want := map[parser.Visitee]*node{}
		for _, n := range all {
			want[n.v] = n
		}
		at := map[parser.Visitee]int{}
		for k, v := range r.calls {
			if want[v] == nil {
				c.Fail("after a change of the tree: the visitor is called with a %T that the tree no longer holds", v)
			}
			if _, dup := at[v]; dup {
				c.Fail("after a change of the tree: %T is visited twice", v)
			}
			at[v] = k
		}
		prev := map[string]*node{}
		for _, n := range all {
			if _, ok := at[n.v]; !ok {
				c.Fail("after a change of the tree: %s %s is not visited", n.typ, where(n))
			}
			key := fmt.Sprintf("%p %s", n.parent, n.list)
			if m := prev[key]; m != nil && at[m.v] > at[n.v] {
				c.Fail("after a change of the tree: %s is visited after %s", where(m), where(n))
			}
			prev[key] = n
		}
		c.Event("walks of edited trees", 1)
	}
}

// editTree changes the bodies of a tree.
func (c *Ctx) editTree(p *parser.Proto) {
	var bodies []*[]parser.Visitee
	bodies = append(bodies, &p.ProtoBody)
	for _, n := range inventory(p) {
		switch t := n.v.(type) {
		case *parser.Message:
			bodies = append(bodies, &t.MessageBody)
		case *parser.GroupField:
			bodies = append(bodies, &t.MessageBody)
		case *parser.Enum:
			bodies = append(bodies, &t.EnumBody)
		case *parser.Service:
			bodies = append(bodies, &t.ServiceBody)
		case *parser.Extend:
			bodies = append(bodies, &t.ExtendBody)
		}
	}
	for k := 1 + c.Intn(4); k > 0; k-- {
		b := bodies[c.Intn(len(bodies))]
		n := len(*b)
		if n == 0 {
			continue
		}
		i, j := c.Intn(n), c.Intn(n)
		switch c.Intn(4) {
		case 0:
			*b = append(append([]parser.Visitee(nil), (*b)[:i]...), (*b)[i+1:]...)
		case 1:
			(*b)[i], (*b)[j] = (*b)[j], (*b)[i]
		case 2:
			var kept []parser.Visitee
			for _, v := range *b {
				if _, ok := v.(*parser.Comment); !ok {
					kept = append(kept, v)
				}
			}
			*b = kept
		case 3:
			for l, r := 0, n-1; l < r; l, r = l+1, r-1 {
				(*b)[l], (*b)[r] = (*b)[r], (*b)[l]
			}
		}
	}
}

func where(n *node) string {
	if n == nil {
		return "(unknown)"
	}
	return fmt.Sprintf("(%s.%s[%d])", n.parent.typ, n.list, n.index)
}

// P14: unordered interpretation.

var interpreted = map[reflect.Type]reflect.Type{
	reflect.TypeOf((*parser.Message)(nil)): reflect.TypeOf((*unordered.Message)(nil)),
	reflect.TypeOf((*parser.Enum)(nil)):    reflect.TypeOf((*unordered.Enum)(nil)),
	reflect.TypeOf((*parser.Service)(nil)): reflect.TypeOf((*unordered.Service)(nil)),
	reflect.TypeOf((*parser.Extend)(nil)):  reflect.TypeOf((*unordered.Extend)(nil)),
}

// conserve checks an interpreted element against the ordered one it stems from.
func (c *Ctx) conserve(path string, src, got reflect.Value) {
	if src.IsNil() || got.IsNil() {
		c.Fail("%s: interpreted as nil", path)
	}
	s, g := src.Elem(), got.Elem()
	for i := 0; i < s.NumField(); i++ {
		name := s.Type().Field(i).Name
		f := g.FieldByName(name)
		if !f.IsValid() {
			c.Fail("%s: the interpretation has no %s", path, name)
		}
		if body, ok := s.Field(i).Interface().([]parser.Visitee); ok {
			c.conserveBody(path+"."+name, body, f)
			continue
		}
		if s.Field(i).Type() != f.Type() {
			c.Fail("%s.%s: %s became %s", path, name, s.Field(i).Type(), f.Type())
		}
		c.sameRefs(path+"."+name, s.Field(i), f)
	}
	if g.NumField() != s.NumField() {
		c.Fail("%s: fields %d became %d", path, s.NumField(), g.NumField())
	}
}

// sameRefs requires equal values with the same pointers.
func (c *Ctx) sameRefs(path string, a, b reflect.Value) {
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			c.Fail("%s: %d elements became %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			c.sameRefs(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i))
		}
	case reflect.Pointer:
		if d := dump.Diff(a.Interface(), b.Interface(), dump.All); d != "" {
			c.Fail("%s differs: %s", path, d)
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			c.Fail("%s: %+v became %+v", path, a.Interface(), b.Interface())
		}
	}
}

func (c *Ctx) conserveBody(path string, src []parser.Visitee, dst reflect.Value) {
	if dst.Kind() != reflect.Pointer || dst.IsNil() {
		c.Fail("%s: no body", path)
	}
	d := dst.Elem()
	used := map[reflect.Type]bool{}
	for i := 0; i < d.NumField(); i++ {
		f := d.Field(i)
		elem := f.Type().Elem()
		from := elem
		for a, b := range interpreted {
			if b == elem {
				from = a
			}
		}
		if used[from] {
			c.Fail("%s: two lists for %s", path, from)
		}
		used[from] = true
		name := path + "." + d.Type().Field(i).Name
		var want []parser.Visitee
		for _, v := range src {
			if reflect.TypeOf(v) == from {
				want = append(want, v)
			}
		}
		if len(want) != f.Len() {
			c.Fail("%s: %d elements of the body became %d", name, len(want), f.Len())
		}
		for k, v := range want {
			at := fmt.Sprintf("%s[%d]", name, k)
			if from == elem {
				if x := dump.Diff(v, f.Index(k).Interface(), dump.All); x != "" {
					c.Fail("%s is another element: %s", at, x)
				}
			} else {
				c.conserve(at, reflect.ValueOf(v), f.Index(k))
			}
			c.Event("conserved "+strings.TrimPrefix(from.String(), "*parser."), 1)
		}
	}
	for _, v := range src {
		if !used[reflect.TypeOf(v)] {
			c.Fail("%s: no list for a %T", path, v)
		}
	}
}

func p14run(c *Ctx) {
	src, p := c.treeSource()
	c.input = src
	before := dump.String(p, dump.All)
	u, err := protoparser.UnorderedInterpret(p)
	if err != nil {
		c.Fail("not interpreted: %v", err)
	}
	c.conserve("Proto", reflect.ValueOf(p), reflect.ValueOf(u))
	if u2, err := unordered.InterpretProto(p); err != nil || dump.Diff(u, u2, dump.All) != "" {
		c.Fail("interpreting again gives another result: %v", err)
	}
	for _, n := range inventory(p) {
		var got any
		var err error
		switch t := n.v.(type) {
		case *parser.Message:
			got, err = unordered.InterpretMessage(t)
		case *parser.Enum:
			got, err = unordered.InterpretEnum(t)
		case *parser.Service:
			got, err = unordered.InterpretService(t)
		case *parser.Extend:
			got, err = unordered.InterpretExtend(t)
		default:
			continue
		}
		if err != nil {
			c.Fail("%s not interpreted: %v", n.typ, err)
		}
		c.conserve(n.typ, reflect.ValueOf(n.v), reflect.ValueOf(got))
		c.Event("elements interpreted alone", 1)
	}
	if after := dump.String(p, dump.All); after != before {
		c.Fail("the ordered tree changed")
	}
	for c.Intn(3) != 0 { // what the owner made of the tree since
		c.editTree(p)
		u, err := protoparser.UnorderedInterpret(p)
		if err != nil {
			c.Fail("not interpreted after a change of the tree: %v", err)
		}
		c.conserve("changed Proto", reflect.ValueOf(p), reflect.ValueOf(u))
		c.Event("changed trees interpreted", 1)
	}
	c.Eval(len(p.ProtoBody) > 0, src)
}

func init() {
	min := map[string]int64{"calls matched with the inventory": 50000, "pruned elements": 20000, "walks from an inner element": 5000, "nested walks": 5000, "walks after broken ones": 2000, "walks of edited trees": 2000, "walks of alike elements": 5000}
	for _, k := range strings.Fields("Comment Declaration Edition EmptyStatement Enum EnumField Extend Extensions Field GroupField Import MapField Message Oneof OneofField Option Package Reserved RPC Service Syntax") {
		min["visited "+k] = 100
	}
	register(&Prop{ID: "P13", Guided: true, Cases: scale(5000, 150000), Run: p13run, MinNontrivial: 3000, MinEvents: min,
		Rule: "accepted generated files and mutants; the recorded calls of a full walk matched one to one with the elements found by reflection, then walks that prune random subsets, every kind, each single element (small trees) and everything, walks from inner elements, walks by a visitor within a walk, walks after one that ended by a panic, and walks of trees that their owner changed; non-trivial = a distinct source with at least two elements"})
	min = map[string]int64{"elements interpreted alone": 5000, "changed trees interpreted": 1000}
	for _, k := range strings.Fields("Comment EmptyStatement Enum EnumField Extend Extensions Field GroupField Import MapField Message Oneof Option Package Reserved RPC Service") {
		min["conserved "+k] = 100
	}
	register(&Prop{ID: "P14", Guided: true, Cases: scale(8000, 250000), Run: p14run, MinNontrivial: 5000, MinEvents: min,
		Rule: "accepted generated files and mutants, half of them with comments in bodies; every list of every interpreted body recomputed from the ordered body, the ordered tree rendered before and after, and the same for trees changed by their owner since; non-trivial = a distinct source with a statement"})
}
