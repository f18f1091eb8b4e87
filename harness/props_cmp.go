package main

import (
	"reflect"
	"time"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
)

var timeType = reflect.TypeOf(time.Time{})

// cmpPlace is one changeable spot of a tree: an exported field at some depth, or an element of a list.
type cmpPlace struct {
	v    reflect.Value
	path string
}

func places(v reflect.Value, path string, out *[]cmpPlace) {
	switch v.Kind() {
	case reflect.Interface:
		if v.CanSet() {
			*out = append(*out, cmpPlace{v, path})
		}
		if !v.IsNil() {
			places(v.Elem(), path, out)
		}
	case reflect.Ptr:
		if v.CanSet() {
			*out = append(*out, cmpPlace{v, path})
		}
		if !v.IsNil() {
			places(v.Elem(), path, out)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			*out = append(*out, cmpPlace{v, path})
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				places(v.Field(i), path+"."+f.Name, out)
			}
		}
	case reflect.Slice:
		*out = append(*out, cmpPlace{v, path})
		for i := 0; i < v.Len(); i++ {
			places(v.Index(i), path+"[]", out)
		}
	default:
		*out = append(*out, cmpPlace{v, path})
	}
}

// change gives a place another value; the zero result means that it could not.
func change(t *T, p cmpPlace) string {
	v := p.v
	switch v.Kind() {
	case reflect.String:
		s := v.String()
		switch t.N(4) {
		case 0:
			s += "x"
		case 1:
			s += " "
		case 2:
			if s == "" {
				s = "y"
			} else {
				s = s[:len(s)-1]
			}
		case 3:
			b := []byte(s)
			if len(b) == 0 {
				return ""
			}
			i := t.N(len(b))
			if c := b[i] | 0x20; c < 'a' || c > 'z' {
				return ""
			}
			b[i] ^= 0x20
			s = string(b)
		}
		v.SetString(s)
		return "text"
	case reflect.Bool:
		v.SetBool(!v.Bool())
		return "bool"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + int64(t.Range(1, 3)))
		return "number"
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() + uint64(t.Range(1, 3)))
		return "number"
	case reflect.Float64:
		if v.Float() > 1e15 {
			v.SetFloat(v.Float() / 2)
		} else {
			v.SetFloat(v.Float() + 1)
		}
		return "number"
	case reflect.Struct: // time
		v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(time.Second)))
		return "time"
	case reflect.Slice:
		n := v.Len()
		if n == 0 { // no list and an empty one differ: a table without and with an empty list of arguments
			if v.IsNil() {
				v.Set(reflect.MakeSlice(v.Type(), 0, 0))
			} else {
				v.Set(reflect.Zero(v.Type()))
			}
			return "empty list"
		}
		switch t.N(4) {
		case 0: // the last element goes
			if n == 1 {
				v.Set(reflect.Zero(v.Type()))
			} else {
				v.Set(v.Slice(0, n-1))
			}
			return "shorter list"
		case 1:
			v.Set(reflect.Append(v.Slice3(0, n, n), cloneValue(v.Index(t.N(n)), "")))
			return "longer list"
		case 2: // the first goes
			if n == 1 {
				return ""
			}
			v.Set(v.Slice(1, n))
			return "shorter list"
		}
		if n < 2 {
			return ""
		}
		i := t.N(n - 1)
		a, b := reflect.ValueOf(v.Index(i).Interface()), reflect.ValueOf(v.Index(i+1).Interface())
		v.Index(i).Set(b)
		v.Index(i + 1).Set(a)
		return "list order"
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			if v.Kind() == reflect.Ptr {
				v.Set(reflect.New(v.Type().Elem()))
				return "new child"
			}
			if c := reflect.ValueOf(&sqlast.Ident{Value: "new"}); c.Type().Implements(v.Type()) {
				v.Set(c)
				return "new child"
			}
			return ""
		}
		if v.Kind() == reflect.Interface && t.Bool() {
			for _, c := range []interface{}{&sqlast.Ident{Value: "new"}, &sqlast.NullValue{}, &sqlast.Int{}, &sqlast.Table{}, &sqlast.UnaryExpr{}, &sqlast.NotNullColumnSpec{}, &sqlast.DeleteStmt{}} {
				cv := reflect.ValueOf(c)
				if cv.Type() != v.Elem().Type() && cv.Type().Implements(v.Type()) {
					v.Set(cv)
					return "other kind of child"
				}
			}
			return ""
		}
		v.Set(reflect.Zero(v.Type()))
		return "child removed"
	}
	return ""
}

func compareCase(t *T) sqlast.Node {
	switch t.Weighted(5, 1, 1) {
	case 0:
		f, _, _ := anyFile(t)
		if f == nil {
			return nil
		}
		t.Label("parsed file")
		if len(f.Stmts) > 0 && t.Bool() {
			ns := nodes(f.Stmts[t.N(len(f.Stmts))])
			return ns[t.N(len(ns))]
		}
		return f
	case 1:
		g := newG(t, pickDialect(t))
		t.Label("built statement")
		return g.stmt()
	}
	t.Label("rare node")
	return rareNode(t, newG(t, pickDialect(t)))
}

func runC27(t *T) {
	a := compareCase(t)
	if a == nil {
		return
	}
	// the comparison's time grows exponentially with the depth to which lists are nested in lists (its library looks at
	// each differing element several times), so deeper trees are left for one of their parts
	for k := 0; listDepth(a) > 5; k++ {
		if k > 40 {
			return
		}
		if cs := children(a); len(cs) > 0 {
			a = cs[t.N(len(cs))].node
		}
	}
	root := reflect.ValueOf(a)
	b := cloneValue(root, "")
	before := dumpPos(a)
	t.Input(before)
	if d := xsqlparser.CompareWithoutMarker(a, b.Interface()); d != "" {
		t.Fatal("equal:"+typeName(a), "a tree and its copy are reported to differ: %s", d)
	}
	var ps []cmpPlace
	places(b, typeName(a), &ps)
	if len(ps) < 2 {
		return
	}
	p := ps[t.N(len(ps))]
	what := change(t, p)
	after := dumpPos(b.Interface())
	if what == "" || after == before && p.v.Type() != timeType && what != "empty list" {
		return // no change after all (e.g. equal neighbours swapped)
	}
	t.Label(what)
	if len(ps) > 20 {
		t.Nontrivial()
	}
	if what == "number" && len(p.path) > 4 && (p.path[len(p.path)-5:] == ".Line" || p.path[len(p.path)-4:] == ".Col") {
		t.Label("position")
	}
	t.Input(p.path + " (" + what + ") in " + before)
	var x, y interface{} = a, b.Interface()
	if t.Bool() {
		x, y = y, x
	}
	if d := xsqlparser.CompareWithoutMarker(x, y); d == "" {
		t.Fatal("missed:"+p.path[lastDot(p.path):], "a change of %s (%s) is not reported", p.path, what)
	}
}

// listDepth is how many lists are nested at most.
func listDepth(n sqlast.Node) int {
	max := 0
	for _, c := range children(n) {
		d := listDepth(c.node)
		if c.index >= 0 {
			d++
		}
		if d > max {
			max = d
		}
	}
	return max
}

func lastDot(s string) int {
	for i := len(s) - 1; i > 0; i-- {
		if s[i] == '.' {
			return i
		}
	}
	return 0
}

func init() {
	register(&Prop{
		ID:       "C27",
		Rule:     "a tree (a parsed file or one of its nodes, a built statement, a node of a kind only built by hand) and its deep copy, which must compare equal, and then with one drawn change in the copy at any depth (a text, a flag, a number, a line or column, a child removed, added or of another kind, a list shorter, longer, in another order, or empty instead of absent), which must be reported, in either argument order; non-trivial: a tree of more than 20 places",
		Quick:    60000,
		Thorough: 1500000,
		Run:      runC27,
	})
}
