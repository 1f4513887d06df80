package props

import (
	"fmt"
	"reflect"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// node is an element or comment of a tree, found by reflection.
type node struct {
	v        parser.Visitee
	typ      string
	parent   *node
	list     string // the field of the parent that holds it
	index    int
	meta     *meta.Meta
	children []*node
}

var visiteeType = reflect.TypeOf((*parser.Visitee)(nil)).Elem()

// inventory lists everything a tree holds, parents first.
func inventory(p *parser.Proto) []*node {
	var all []*node
	root := &node{typ: "*parser.Proto"}
	var walk func(v reflect.Value, parent *node, list string, index int)
	walk = func(v reflect.Value, parent *node, list string, index int) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), parent, list, index)
			}
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if v.Type().Implements(visiteeType) && v.Type() != reflect.TypeOf(p) {
				n := &node{v: v.Interface().(parser.Visitee), typ: v.Type().String(), parent: parent, list: list, index: index}
				if f := v.Elem().FieldByName("Meta"); f.IsValid() && f.Type() == reflect.TypeOf(meta.Meta{}) {
					m := f.Interface().(meta.Meta)
					n.meta = &m
				}
				parent.children = append(parent.children, n)
				all = append(all, n)
				parent = n
			}
			walk(v.Elem(), parent, list, index)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" {
					walk(v.Field(i), parent, f.Name, 0)
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), parent, list, i)
			}
		}
	}
	walk(reflect.ValueOf(p), root, "", 0)
	return all
}

// metas calls f for every meta.Meta of the tree with the path-independent name of its holder.
func metas(root any, f func(holder string, m meta.Meta)) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath != "" {
					continue
				}
				if m, ok := v.Field(i).Interface().(meta.Meta); ok {
					f(v.Type().Name(), m)
					continue
				}
				walk(v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(root))
}

// recorder is a visitor that records what it is called with.
type recorder struct {
	calls []parser.Visitee
	kinds []string
	stop  func(v parser.Visitee) bool
	limit int
}

func (r *recorder) see(kind string, v parser.Visitee) bool {
	r.calls = append(r.calls, v)
	r.kinds = append(r.kinds, kind)
	if r.limit > 0 && len(r.calls) > r.limit {
		panic(fmt.Sprintf("the visitor was called more than %d times", r.limit))
	}
	return r.stop == nil || !r.stop(v)
}

func (r *recorder) VisitComment(x *parser.Comment) { r.see("*parser.Comment", x) }
func (r *recorder) VisitDeclaration(x *parser.Declaration) bool {
	return r.see("*parser.Declaration", x)
}
func (r *recorder) VisitEdition(x *parser.Edition) bool { return r.see("*parser.Edition", x) }
func (r *recorder) VisitEmptyStatement(x *parser.EmptyStatement) bool {
	return r.see("*parser.EmptyStatement", x)
}
func (r *recorder) VisitEnum(x *parser.Enum) bool             { return r.see("*parser.Enum", x) }
func (r *recorder) VisitEnumField(x *parser.EnumField) bool   { return r.see("*parser.EnumField", x) }
func (r *recorder) VisitExtend(x *parser.Extend) bool         { return r.see("*parser.Extend", x) }
func (r *recorder) VisitExtensions(x *parser.Extensions) bool { return r.see("*parser.Extensions", x) }
func (r *recorder) VisitField(x *parser.Field) bool           { return r.see("*parser.Field", x) }
func (r *recorder) VisitGroupField(x *parser.GroupField) bool { return r.see("*parser.GroupField", x) }
func (r *recorder) VisitImport(x *parser.Import) bool         { return r.see("*parser.Import", x) }
func (r *recorder) VisitMapField(x *parser.MapField) bool     { return r.see("*parser.MapField", x) }
func (r *recorder) VisitMessage(x *parser.Message) bool       { return r.see("*parser.Message", x) }
func (r *recorder) VisitOneof(x *parser.Oneof) bool           { return r.see("*parser.Oneof", x) }
func (r *recorder) VisitOneofField(x *parser.OneofField) bool { return r.see("*parser.OneofField", x) }
func (r *recorder) VisitOption(x *parser.Option) bool         { return r.see("*parser.Option", x) }
func (r *recorder) VisitPackage(x *parser.Package) bool       { return r.see("*parser.Package", x) }
func (r *recorder) VisitReserved(x *parser.Reserved) bool     { return r.see("*parser.Reserved", x) }
func (r *recorder) VisitRPC(x *parser.RPC) bool               { return r.see("*parser.RPC", x) }
func (r *recorder) VisitService(x *parser.Service) bool       { return r.see("*parser.Service", x) }
func (r *recorder) VisitSyntax(x *parser.Syntax) bool         { return r.see("*parser.Syntax", x) }

// allowed are the kinds of statements that each body may hold by its documentation.
var allowed = map[string]string{
	"ProtoBody":   "Import Package Option Message Enum Service Extend EmptyStatement",
	"MessageBody": "Field Enum Message Option Oneof MapField GroupField Extend Reserved Extensions EmptyStatement",
	"EnumBody":    "Option EnumField Reserved EmptyStatement",
	"ServiceBody": "Option RPC EmptyStatement",
	"ExtendBody":  "Field EmptyStatement",
}
