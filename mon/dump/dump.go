// Package dump compares and renders trees by reflection over their exported fields.
package dump

import (
	"fmt"
	"reflect"
	"strings"
)

// Mask selects what is ignored.
type Mask struct {
	Meta     bool // positions and file names
	Comments bool // comment fields and comment statements
	Filename bool // only the file name
}

// Structure ignores positions and comments.
var Structure = Mask{Meta: true, Comments: true}

// All compares everything.
var All = Mask{}

func skip(f reflect.StructField, m Mask) bool {
	if f.PkgPath != "" {
		return true
	}
	switch f.Name {
	case "Meta":
		return m.Meta
	case "Filename":
		return m.Filename
	case "Comments", "InlineComment", "InlineCommentBehindLeftCurly", "InlineCommentBehindLeftSquare", "EmbeddedComments":
		return m.Comments
	}
	return false
}

func isComment(v reflect.Value) bool {
	return v.IsValid() && v.Kind() == reflect.Interface && !v.IsNil() && v.Elem().Type().String() == "*parser.Comment"
}

func elems(v reflect.Value, m Mask) []reflect.Value {
	var out []reflect.Value
	for i := 0; i < v.Len(); i++ {
		if m.Comments && isComment(v.Index(i)) {
			continue
		}
		out = append(out, v.Index(i))
	}
	return out
}

// Diff returns "" if a and b are equal under the mask, and a description of the first difference otherwise.
func Diff(a, b any, m Mask) string {
	return diff(reflect.ValueOf(a), reflect.ValueOf(b), m)
}

func short(v reflect.Value) string {
	if !v.IsValid() {
		return "<nothing>"
	}
	s := ""
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		e := v
		for e.Kind() == reflect.Pointer || e.Kind() == reflect.Interface {
			if e.IsNil() {
				return "nil"
			}
			e = e.Elem()
		}
		s = fmt.Sprintf("%T%+v", e.Interface(), e.Interface())
	default:
		s = fmt.Sprintf("%#v", v.Interface())
	}
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func diff(a, b reflect.Value, m Mask) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf(": %s != %s", short(a), short(b))
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf(": type %s != %s", a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf(": %s != %s", short(a), short(b))
			}
			return ""
		}
		return diff(a.Elem(), b.Elem(), m)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if skip(f, m) {
				continue
			}
			if d := diff(a.Field(i), b.Field(i), m); d != "" {
				return "." + f.Name + d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		x, y := elems(a, m), elems(b, m)
		for i := 0; i < len(x) && i < len(y); i++ {
			if d := diff(x[i], y[i], m); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
		if len(x) > len(y) {
			return fmt.Sprintf("[%d]: %s != <nothing>", len(y), short(x[len(y)]))
		}
		if len(y) > len(x) {
			return fmt.Sprintf("[%d]: <nothing> != %s", len(x), short(y[len(x)]))
		}
		return ""
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf(": %s != %s", short(a), short(b))
		}
		return ""
	}
}

// String renders a tree canonically.
func String(a any, m Mask) string {
	var b strings.Builder
	render(&b, reflect.ValueOf(a), m)
	return b.String()
}

func render(b *strings.Builder, v reflect.Value, m Mask) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		render(b, v.Elem(), m)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String())
		render(b, v.Elem(), m)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if skip(f, m) {
				continue
			}
			b.WriteString(f.Name)
			b.WriteString(":")
			render(b, v.Field(i), m)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for _, e := range elems(v, m) {
			render(b, e, m)
			b.WriteString(",")
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "%#v", v.Interface())
	}
}
