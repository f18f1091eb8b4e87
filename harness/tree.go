package main

import (
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

var posType = reflect.TypeOf(sqltoken.Pos{})

// dumper writes a tree down in full: types, exported fields, list elements.
type dumper struct {
	sb  strings.Builder
	pos bool // with positions
}

func dump(v interface{}) string {
	d := &dumper{}
	d.value(reflect.ValueOf(v), "")
	return d.sb.String()
}

func dumpPos(v interface{}) string {
	d := &dumper{pos: true}
	d.value(reflect.ValueOf(v), "")
	return d.sb.String()
}

// typeInfo is what the dumper needs to know of a struct type.
type typeInfo struct {
	name   string
	fields []fieldInfo
}

type fieldInfo struct {
	i         int
	name      string
	pos       bool
	keepEmpty bool
}

var typeInfos sync.Map

func infoOf(t reflect.Type) *typeInfo {
	if ti, ok := typeInfos.Load(t); ok {
		return ti.(*typeInfo)
	}
	ti := &typeInfo{name: t.Name()}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		// an empty list is none, except the arguments of a table function
		ti.fields = append(ti.fields, fieldInfo{i, f.Name, f.Type == posType, f.Name == "Args" && t.Name() == "Table"})
	}
	typeInfos.Store(t, ti)
	return ti
}

func (d *dumper) value(v reflect.Value, field string) {
	if !v.IsValid() {
		d.sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		d.value(v.Elem(), field)
	case reflect.Ptr:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		d.sb.WriteByte('&')
		d.value(v.Elem(), field)
	case reflect.Struct:
		if v.Type() == posType {
			p := v.Interface().(sqltoken.Pos)
			d.sb.WriteString(strconv.Itoa(p.Line))
			d.sb.WriteByte(':')
			d.sb.WriteString(strconv.Itoa(p.Col))
			return
		}
		ti := infoOf(v.Type())
		d.sb.WriteString(ti.name)
		d.sb.WriteByte('{')
		first := true
		for i := range ti.fields {
			f := &ti.fields[i]
			if f.pos && !d.pos {
				continue
			}
			fv := v.Field(f.i)
			switch fv.Kind() {
			case reflect.Interface, reflect.Ptr:
				if fv.IsNil() {
					continue
				}
			case reflect.Slice:
				if fv.IsNil() || fv.Len() == 0 && !f.keepEmpty {
					continue
				}
			case reflect.Bool:
				if !fv.Bool() {
					continue
				}
			}
			if !first {
				d.sb.WriteByte(' ')
			}
			first = false
			d.sb.WriteString(f.name)
			d.sb.WriteByte(':')
			d.value(fv, f.name)
		}
		d.sb.WriteByte('}')
	case reflect.Slice:
		d.sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.sb.WriteByte(' ')
			}
			d.value(v.Index(i), "")
		}
		d.sb.WriteByte(']')
	case reflect.String:
		d.sb.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		d.sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int64:
		d.sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint64, reflect.Uint8:
		d.sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Int32:
		d.sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Float64:
		d.sb.WriteString(strconv.FormatFloat(v.Float(), 'x', -1, 64))
	case reflect.Map:
		d.sb.WriteString("map" + strconv.Itoa(v.Len()))
	default:
		panic("dump: " + v.Type().String())
	}
}

// diffAt describes where two dumps part.
func diffAt(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	a := i - 60
	if a < 0 {
		a = 0
	}
	cut := func(s string) string {
		b := i + 120
		if b > len(s) {
			b = len(s)
		}
		if a > len(s) {
			return ""
		}
		return s[a:b]
	}
	return fmt.Sprintf("want ...%s...\n got ...%s...", cut(want), cut(got))
}

func newParser(src string, d *dspec, comments bool) (*xsqlparser.Parser, error) {
	return newParserR(strings.NewReader(src), d, comments)
}

func newParserR(r io.Reader, d *dspec, comments bool) (*xsqlparser.Parser, error) {
	if comments {
		return xsqlparser.NewParser(r, d.d, xsqlparser.ParseComment())
	}
	return xsqlparser.NewParser(r, d.d)
}

func parseFile(src string, d *dspec, comments bool) (*sqlast.File, error) {
	p, err := newParser(src, d, comments)
	if err != nil {
		return nil, err
	}
	return p.ParseFile()
}

// parseOne parses a source of exactly one statement.
func parseOne(src string, d *dspec) (sqlast.Stmt, error) {
	f, err := parseFile(src, d, false)
	if err != nil {
		return nil, err
	}
	if len(f.Stmts) != 1 {
		return nil, fmt.Errorf("%d statements", len(f.Stmts))
	}
	return f.Stmts[0], nil
}

func isNilNode(n sqlast.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

var nodeType = reflect.TypeOf((*sqlast.Node)(nil)).Elem()

// children returns the nodes directly below a node, found by reflection over its fields: a pointer or interface whose
// value is a Node, or a list of them.
type child struct {
	node  sqlast.Node
	field string
	index int // -1: not in a list
}

func children(n sqlast.Node) []child {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	var out []child
	add := func(fv reflect.Value, name string, idx int) {
		for fv.Kind() == reflect.Interface {
			if fv.IsNil() {
				return
			}
			fv = fv.Elem()
		}
		if fv.Kind() != reflect.Ptr || fv.IsNil() {
			return
		}
		if c, ok := fv.Interface().(sqlast.Node); ok {
			out = append(out, child{c, name, idx})
		}
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		fv := v.Field(i)
		switch fv.Kind() {
		case reflect.Ptr, reflect.Interface:
			add(fv, f.Name, -1)
		case reflect.Slice:
			for k := 0; k < fv.Len(); k++ {
				add(fv.Index(k), f.Name, k)
			}
		}
	}
	return out
}

// nodes lists a tree, parents first.
func nodes(n sqlast.Node) []sqlast.Node {
	out := []sqlast.Node{n}
	for _, c := range children(n) {
		out = append(out, nodes(c.node)...)
	}
	return out
}

// pairs walks two trees of the same shape side by side.
func pairs(a, b sqlast.Node, f func(a, b sqlast.Node, path string)) {
	var rec func(a, b sqlast.Node, path string)
	rec = func(a, b sqlast.Node, path string) {
		f(a, b, path)
		ca, cb := children(a), children(b)
		if len(ca) != len(cb) {
			return
		}
		for i := range ca {
			if reflect.TypeOf(ca[i].node) != reflect.TypeOf(cb[i].node) {
				continue
			}
			rec(ca[i].node, cb[i].node, path+"."+ca[i].field)
		}
	}
	rec(a, b, typeName(a))
}

func typeName(n interface{}) string {
	return strings.TrimPrefix(strings.TrimPrefix(fmt.Sprintf("%T", n), "*"), "sqlast.")
}

// render is the text of generated tokens with single spaces.
func render(toks []gtok) string {
	var sb strings.Builder
	for i, t := range toks {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(t.text)
	}
	return sb.String()
}
