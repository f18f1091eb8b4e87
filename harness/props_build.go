package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// rebuilt copies a tree, making every node that has a constructor with it.
func rebuilt(v reflect.Value, built *int) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type()).Elem()
		out.Set(rebuilt(v.Elem(), built))
		return out
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		*built++
		switch n := v.Interface().(type) {
		case *sqlast.Ident:
			if *built%2 == 0 {
				return reflect.ValueOf(sqlast.NewIdentWithPos(n.Value, n.From, n.To))
			}
			return reflect.ValueOf(sqlast.NewIdent(n.Value))
		case *sqlast.ObjectName:
			var parts []string
			for _, i := range n.Idents {
				parts = append(parts, i.Value)
			}
			return reflect.ValueOf(sqlast.NewObjectName(parts...))
		case *sqlast.LongValue:
			return reflect.ValueOf(sqlast.NewLongValue(n.Value().(int64)))
		case *sqlast.DoubleValue:
			return reflect.ValueOf(sqlast.NewDoubleValue(n.Value().(float64)))
		case *sqlast.SingleQuotedString:
			return reflect.ValueOf(sqlast.NewSingleQuotedString(n.Value().(string)))
		case *sqlast.NationalStringLiteral:
			return reflect.ValueOf(sqlast.NewNationalStringLiteral(n.Value().(string)))
		case *sqlast.BooleanValue:
			return reflect.ValueOf(sqlast.NewBooleanValue(n.Value().(bool)))
		case *sqlast.NullValue:
			return reflect.ValueOf(sqlast.NewNullValue())
		case *uint:
			return reflect.ValueOf(sqlast.NewSize(*n))
		}
		*built--
		out := reflect.New(v.Type().Elem())
		out.Elem().Set(v.Elem())
		if v.Elem().Kind() == reflect.Struct {
			for i := 0; i < v.Elem().NumField(); i++ {
				if v.Elem().Type().Field(i).PkgPath == "" {
					out.Elem().Field(i).Set(rebuilt(v.Elem().Field(i), built))
				}
			}
		}
		return out
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(rebuilt(v.Index(i), built))
		}
		return out
	}
	return v
}

// buildTree rebuilds the tree of a generated statement with the constructors.
func buildTree(t *T) {
	d := pickDialect(t)
	g := newG(t, d)
	g.o.lits = true
	g.stmt()
	lay := layoutTokens(t, d, g.src, anyLayout(t))
	t.Input(lay.src)
	want, err := parseOne(lay.src, d)
	if err != nil {
		t.Fatal("rejected", "a valid statement is rejected: %v", err)
	}
	n := 0
	got := rebuilt(reflect.ValueOf(want), &n).Interface().(sqlast.Stmt)
	if n >= 4 {
		t.Nontrivial()
	}
	if a, b := dump(want), dump(got); a != b {
		t.Fatal("tree", "parsed and built: %s", diffAt(a, b))
	}
	if a, b := sqlOf(want), sqlOf(got); a != b {
		t.Fatal("print", "the parsed tree prints as %q, the built one as %q", a, b)
	}
	// every node made is one of its own
	m := 0
	other := memoryOf(rebuilt(reflect.ValueOf(want), &m).Interface())
	if what := sharedWithin(got); what != "" {
		t.Fatal("shared", "two nodes of one built tree are the same %s", what)
	}
	for a, what := range memoryOf(got) {
		if _, both := other[a]; both {
			t.Fatal("shared", "two built trees share a %s", what)
		}
	}
	again, err := parseOne(sqlOf(got), d)
	if err != nil {
		t.Fatal("reparse", "%q, printed from a built tree, is rejected: %v", sqlOf(got), err)
	}
	if a, b := dump(got), dump(again); a != b {
		t.Fatal("reparse", "built and parsed: %s", diffAt(a, b))
	}
}

// buildValue makes one node of a drawn value and checks what it holds, prints and parses to.
func buildValue(t *T) {
	d := pickDialect(t)
	g := newG(t, d)
	var n sqlast.Node
	var value interface{}
	text := "" // what it must print
	parses := true
	switch t.N(9) {
	case 0:
		i := int64(t.U64() >> uint(t.N(64)))
		if t.P(1, 8) {
			i = []int64{math.MaxInt64, math.MinInt64, 0, -1, 10, 100, math.MaxUint32, math.MaxInt32 + 1}[t.N(8)]
		}
		v := sqlast.NewLongValue(i)
		n, value, text, parses = v, v.Value(), big.NewInt(i).String(), i >= 0
		if v.Long != i || value != i {
			t.Fatal("value", "NewLongValue(%d) holds %d and %v", i, v.Long, value)
		}
	case 1:
		f := math.Float64frombits(t.U64())
		switch t.N(4) {
		case 0:
			f = float64(t.N(1000000)) / 64
		case 1:
			f, _ = strconv.ParseFloat(digitsOf(t, 20)+"."+digitsOf(t, 20), 64)
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return
		}
		v := sqlast.NewDoubleValue(f)
		n, value, parses = v, v.Value(), !math.Signbit(f)
		if v.Double != f || value != f {
			t.Fatal("value", "NewDoubleValue(%v) holds %v and %v", f, v.Double, value)
		}
		if back, ok := nearest(strings.TrimPrefix(sqlOf(n), "-")); !ok || back != new(big.Float).SetFloat64(math.Abs(f)).Text('p', 0) {
			t.Fatal("print", "%v prints as %q", f, sqlOf(n))
		}
	case 2, 3:
		s := g.strContent()
		if t.Bool() {
			v := sqlast.NewSingleQuotedString(s)
			n, value, text = v, v.Value(), quoteStr(s)
		} else {
			v := sqlast.NewNationalStringLiteral(s)
			n, value, text = v, v.Value(), "N"+quoteStr(s)
		}
		if value != s {
			t.Fatal("value", "the value of %T of %q is %q", n, s, value)
		}
	case 4:
		b := t.Bool()
		v := sqlast.NewBooleanValue(b)
		n, value, text = v, v.Value(), strings.ToUpper(fmt.Sprint(b))
		if value != b {
			t.Fatal("value", "the value of NewBooleanValue(%v) is %v", b, value)
		}
		text = ""
		if !strings.EqualFold(sqlOf(n), fmt.Sprint(b)) {
			t.Fatal("print", "%v prints as %q", b, sqlOf(n))
		}
	case 5:
		v := sqlast.NewNullValue()
		n, text = v, "NULL"
		if v.Value() != nil {
			t.Fatal("value", "the value of NULL is %v", v.Value())
		}
	case 6:
		s, _ := g.nameText()
		n, text = sqlast.NewIdent(s), s
		if t.Bool() {
			from, to := sqltoken.NewPos(1+t.N(99), 1+t.N(99)), sqltoken.NewPos(100+t.N(99), 1+t.N(99))
			id := sqlast.NewIdentWithPos(s, from, to)
			if id.Pos() != from || id.End() != to {
				t.Fatal("value", "NewIdentWithPos(%q, %v, %v) is at %v and %v", s, from, to, id.Pos(), id.End())
			}
			n = id
		}
	case 7:
		var parts []string
		for i := 1 + t.N(4); i > 0; i-- {
			s, _ := g.nameText()
			if len(parts) > 0 && t.P(1, 3) {
				s = parts[0]
			}
			parts = append(parts, s)
		}
		o := sqlast.NewObjectName(parts...)
		if what := sharedWithin(o); what != "" {
			t.Fatal("shared", "two parts of the object name of %q are the same %s", parts, what)
		}
		if len(o.Idents) != len(parts) {
			t.Fatal("value", "the object name of %q has %d parts", parts, len(o.Idents))
		}
		n, text = o, strings.Join(parts, ".")
	case 8:
		// dates and times are printed in their ISO form; the parser knows no such literals
		zone := time.FixedZone("z", (t.N(27)-12)*3600)
		tm := time.Date(t.N(9999), time.Month(1+t.N(12)), 1+t.N(31), t.N(24), t.N(60), t.N(60), t.N(1000000000), zone)
		y, m, day := tm.Date()
		date := fmt.Sprintf("%04d-%02d-%02d", y, int(m), day)
		clock := fmt.Sprintf("%02d:%02d:%02d", tm.Hour(), tm.Minute(), tm.Second())
		parses = false
		switch t.N(4) {
		case 0:
			v := &sqlast.DateValue{Date: tm}
			n, value, text = v, v.Value(), date
		case 1:
			v := sqlast.NewTimeValue(tm)
			n, value, text = v, v.Value(), clock
		case 2:
			v := sqlast.NewDateTimeValue(tm)
			n, value, text = v, v.Value(), date+" "+clock
		case 3:
			v := sqlast.NewTimestampValue(tm)
			n, value, text = v, v.Value(), date+" "+clock
		}
		if !value.(time.Time).Equal(tm) {
			t.Fatal("value", "%T of %v holds %v", n, tm, value)
		}
	}
	kind := typeName(n)
	t.Label(kind)
	t.Nontrivial()
	t.Input(fmt.Sprintf("%s %q", kind, sqlOf(n)))
	if text != "" && sqlOf(n) != text {
		t.Fatal("print", "%s prints as %q, wanted %q", kind, sqlOf(n), text)
	}
	var sb strings.Builder
	if c, err := n.WriteTo(&sb); err != nil || sb.String() != sqlOf(n) || c != int64(sb.Len()) {
		t.Fatal("print", "%s prints as %q, writes %q (%d, %v)", kind, sqlOf(n), sb.String(), c, err)
	}
	if !parses {
		return
	}
	// the statement it stands in, built and parsed
	item := n
	table := sqlast.NewObjectName("t")
	if o, ok := n.(*sqlast.ObjectName); ok {
		table, item = o, sqlast.NewLongValue(1)
	}
	stmt := &sqlast.QueryStmt{Body: &sqlast.SQLSelect{
		Projection:  []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: item}},
		FromClause:  []sqlast.TableReference{&sqlast.Table{Name: table}},
		WhereClause: &sqlast.BinaryExpr{Left: item, Op: &sqlast.Operator{Type: sqlast.Eq}, Right: item},
	}}
	again, err := parseOne(sqlOf(stmt), d)
	if err != nil {
		t.Fatal("reparse", "%q is rejected: %v", sqlOf(stmt), err)
	}
	if a, b := dump(stmt), dump(again); a != b {
		t.Fatal("reparse", "built and parsed from %q: %s", sqlOf(stmt), diffAt(a, b))
	}
}

func init() {
	register(&Prop{
		ID:       "C29",
		Rule:     "the tree of a generated statement is rebuilt with the exported constructors from the values its nodes give, and compared, printed and parsed again, and no two nodes of it or of a second one are the same; or one node of a drawn value (integers and decimals of all sizes, texts, names, object names, booleans, dates and times) is made, its value and text compared with the drawn value's, and parsed inside a statement; non-trivial: a single value, or a tree with at least four built nodes",
		Quick:    350000,
		Thorough: 4000000,
		Run: func(t *T) {
			if t.P(1, 3) {
				buildValue(t)
			} else {
				buildTree(t)
			}
		},
	})
}
