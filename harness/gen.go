package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// G generates statements of the supported grammar: the tokens of the source, the tree they denote (written down from
// the grammar, not from the parser; positions zero), the tokens its printed form has, and for every node the range of
// source tokens it is written with.
type G struct {
	t     *T
	d     *dspec
	src   []gtok
	can   []gtok
	spans map[sqlast.Node][2]int
	kinds map[string]bool
	o     genOpts
	longN int // one list of this case gets that long, 0: none
	deep  int // one expression of this case gets nested that deep, 0: none
	parts int // one dotted name of this case gets that many parts, 0: none
	rich  int // so deep, counting queries and expressions, optional parts and longer lists are the rule, and fuel is not asked for
	depth int // queries and expressions around

	focus  []exprKind // the kinds of expression that this case has more of
	focusN int        // so many
	late   int        // so many expressions come before any that is not a leaf
}

// exprKind is a kind of expression: its level and which of that level.
type exprKind struct{ lvl, sub int }

var exprKinds = []exprKind{{lvOr, 0}, {lvAnd, 0}, {lvNot, 0}, {lvIs, 0}, {lvCmp, 0}, {lvCmp, 1}, {lvCmp, 2}, {lvCmp, 3}, {lvCmp, 4}, {lvAdd, 0}, {lvMul, 0}, {lvCast, 0},
	{lvPrimary, 1}, {lvPrimary, 2}, {lvPrimary, 3}, {lvPrimary, 4}, {lvPrimary, 5}, {lvPrimary, 6}}

type genOpts struct {
	quoted int  // percent of names that are delimited
	tricky bool // delimited names spell keywords and hold odd characters; literals are unusual
	lits   bool // leaves are mostly literals
}

func newG(t *T, d *dspec) *G {
	g := &G{t: t, d: d, spans: map[sqlast.Node][2]int{}, kinds: map[string]bool{}, o: genOpts{quoted: 10}}
	if t.P(1, 5) {
		g.rich = 1
		if t.P(1, 4) {
			g.rich = 2
		}
		t.fuel = t.N(t.fuel + 1)
		t.Label("rich")
	}
	if t.P(1, 4) {
		for n := t.Range(1, 3); len(g.focus) < n; {
			g.focus = append(g.focus, exprKinds[t.N(len(exprKinds))])
		}
		g.focusN = t.Range(1, 7)
		t.Label("focus")
	}
	if t.P(1, 6) {
		g.late = t.N(12)
		t.Label("late")
	}
	if t.P(1, 40) {
		n := counts[t.Weighted(6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 5, 5, 5, 4, 4, 4, 4, 4, 4, 4, 4, 6, 1, 1)]
		if t.small && n > 33 {
			n = 33
		}
		switch t.Weighted(5, 2, 1) {
		case 0:
			g.longN = n
		case 1:
			if n < 500 {
				g.deep = n
			}
		case 2:
			g.parts = n
		}
	}
	return g
}

// counts are lengths of lists and depths at and around those that something may be sized for.
var counts = []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 129, 257, 513, 1025}

// many is the number of statements of a script: small, and rarely a lot.
func many(t *T, ws ...int) int {
	if t.P(1, 100) {
		t.Label("many")
		return aCount(t)
	}
	return t.Weighted(ws...) + 1
}

// aCount draws from counts, the large ones rarely.
func aCount(t *T) int {
	return counts[t.Weighted(9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 6, 6, 6, 6, 3, 3, 3, 3, 2, 2, 1, 1)]
}

// list decides how long a list gets; the index that ok is asked for counts its elements, the first of which is always there.
type list struct {
	g        *G
	num, den int
	n        int // length of a long list
	fuel     int // fuel left for what follows a long list
	rep      repeats
}

func (g *G) list(num, den int) *list { return &list{g: g, num: num, den: den, rep: repeats{t: g.t}} }

func (l *list) ok(i int) bool {
	l.rep.done()
	if l.more(i) {
		l.rep.next()
		return true
	}
	return false
}

func (l *list) more(i int) bool {
	if i == 0 {
		return true
	}
	g := l.g
	if g.longN > 0 && l.n == 0 && g.t.P(1, 3) {
		l.n, g.longN, l.fuel = g.longN, 0, g.t.fuel
		g.t.Label("long list")
	}
	switch {
	case l.n == 0:
		return g.opt(l.num, l.den)
	case i < l.n:
		g.t.fuel = g.t.N(3)
		return true
	case i == l.n:
		g.t.fuel = l.fuel
	}
	return false
}

func (g *G) mark() int { return len(g.src) }

func (g *G) span(n sqlast.Node, start int) {
	g.spans[n] = [2]int{start, len(g.src) - 1}
	g.kinds[strings.TrimPrefix(fmt.Sprintf("%T", n), "*sqlast.")] = true
}

// labels reports the node kinds of the case.
func (g *G) labels() {
	for k := range g.kinds {
		g.t.Label(k)
	}
}

func (g *G) srcTok(kind gkind, s string) { g.src = append(g.src, gtok{kind, s}) }
func (g *G) canTok(kind gkind, s string) { g.can = append(g.can, gtok{kind, s}) }

func (g *G) kw(words ...string) {
	for _, w := range words {
		g.srcTok(gKeyword, w)
		g.canTok(gKeyword, w)
	}
}

func (g *G) skw(words ...string) {
	for _, w := range words {
		g.srcTok(gKeyword, w)
	}
}

func (g *G) ckw(words ...string) {
	for _, w := range words {
		g.canTok(gKeyword, w)
	}
}

func (g *G) p(puncts ...string) {
	for _, s := range puncts {
		g.srcTok(gPunct, s)
		g.canTok(gPunct, s)
	}
}

func (g *G) spend(k int) bool {
	if g.t.fuel <= 0 {
		return false
	}
	g.t.fuel -= k
	return true
}

// more decides whether a list goes on.
func (g *G) more(num, den int) bool { return g.t.fuel > 0 && g.t.P(num, den) && g.spend(1) }

// opt decides an optional part.
func (g *G) opt(num, den int) bool {
	if g.rich > 0 && g.depth <= g.rich {
		if den >= 6*num {
			return g.t.P(1, 3)
		}
		return g.t.Bool()
	}
	return g.more(num, den)
}

var plainNames = []string{"a", "b", "c", "t", "x1", "col_a", "Users", "orders", "Foo_Bar9", "id", "name", "value", "status", "key", "date", "public", "customer_id", "Z", "n", "E", "user", "year", "count", "max", "type", "engine", "level", "selected", "fromage", "N", "Nx", "if", "row", "zone", "index", "view", "column", "rows", "If", "data", "first", "range", "only", "add", "position", "start", "time", "Timestamp", "text", "boolean", "replace"}

var trickyWords = []string{"SELECT", "from", "WHERE", "group", "ORDER", "UNION", "NULL", "not", "TRUE", "false", "CASE", "END", "AS", "on", "JOIN", "INNER", "natural", "LIMIT", "offset", "VALUES", "SET", "DEFAULT", "PRIMARY", "unique", "CHECK", "CONSTRAINT", "foreign", "references", "EXISTS", "CAST", "int", "varchar", "AND", "or", "IN", "LIKE", "BETWEEN", "IS", "ASC", "DESC", "OVER", "PARTITION", "ROWS", "WITH", "LATERAL", "cross", "USING", "having", "DISTINCT", "ALL", "CASCADE", "IF", "AUTO_INCREMENT", "ENGINE", "CHARSET", "UNSIGNED", "timestamp", "TIME", "ZONE", "THEN", "WHEN", "ELSE", "BY", "INTO", "TABLE", "COLUMN", "ADD", "DROP", "ALTER", "CREATE", "KEY", "UPDATE", "DUPLICATE", "EXCEPT", "INTERSECT", "LEFT", "right", "FULL", "OUTER", "UNBOUNDED", "CURRENT", "ROW", "VIEW", "INDEX", "MATERIALIZED", "EXPLAIN", "DELETE", "INSERT", "text", "character", "double", "precision", "numeric", "TYPE", "VARYING", "WITHOUT"}

var oddNames = []string{"a b", "é漢字", "", "x;y", "--c", "/*c*/", "it's", "a.b", "(", "1", "\t", "a\nb", " "}

// nameText is a name as written in the source.
func (g *G) nameText() (string, gkind) {
	t := g.t
	if len(g.d.quotes) > 0 && t.P(g.o.quoted, 100) {
		q := rune(g.d.quotes[t.N(len(g.d.quotes))])
		end := q
		if q == '[' {
			end = ']'
		}
		var s string
		if g.o.tricky {
			switch t.Weighted(6, 2, 1) {
			case 0:
				s = trickyWords[t.N(len(trickyWords))]
			case 1:
				s = oddNames[t.N(len(oddNames))]
			case 2:
				s = plainNames[t.N(len(plainNames))]
			}
		} else {
			switch t.Weighted(4, 1, 1) {
			case 0:
				s = plainNames[t.N(len(plainNames))]
			case 1:
				s = trickyWords[t.N(len(trickyWords))]
			case 2:
				s = oddNames[t.N(len(oddNames))]
			}
		}
		if t.P(1, 12) {
			s = freeText(t)
		}
		s = strings.Map(func(r rune) rune {
			if r == end {
				return '_'
			}
			return r
		}, s)
		if t.P(1, 200) {
			s = strings.Repeat(t.Pick("a", "x y", "é", "ab"), 1+bigSize(t)/2)
		}
		return string(q) + s + string(end), gQuoted
	}
	odds := 60
	if g.d == dialects[3] {
		odds = 8
	}
	if t.P(1, odds) {
		if t.P(1, 6) {
			return t.Pick("x", "n1", "Aa") + strings.Repeat(t.Pick("y", "_1", "Zz9"), 1+bigSize(t)/2), gIdent
		}
		// the characters that only some dialects allow
		var s string
		for _, w := range []string{"@v", "_v", "a@b", "a$b", "v_", "z@", "Z$9", "__", "@@x", "é", "漢x", "aé1", "#t", "x#", "漢$é"} {
			ok := true
			for i, r := range w {
				ok = ok && (i == 0 && g.d.start(r) || i > 0 && g.d.part(r))
			}
			if ok && (s == "" || t.P(1, 3)) {
				s = w
			}
		}
		return s, gIdent
	}
	return plainNames[t.N(len(plainNames))], gIdent
}

func (g *G) ident() *sqlast.Ident {
	m := g.mark()
	s, k := g.nameText()
	g.srcTok(k, s)
	g.canTok(k, s)
	id := &sqlast.Ident{Value: s}
	g.span(id, m)
	return id
}

// column list without the parentheses
func (g *G) identList() []*sqlast.Ident {
	out := []*sqlast.Ident{g.ident()}
	for i, l := 1, g.list(1, 2); l.ok(i); i++ {
		g.p(",")
		out = append(out, g.ident())
	}
	return out
}

// dotted is the number of parts of a name, 0: a few.
func (g *G) dotted() int {
	n := 0
	if g.parts > 0 && g.t.P(1, 3) {
		n, g.parts = g.parts, 0
		g.t.Label("long name")
	}
	return n
}

func (g *G) objectName() *sqlast.ObjectName {
	m := g.mark()
	ids := []*sqlast.Ident{g.ident()}
	for n := g.dotted(); len(ids) < n || n == 0 && len(ids) < 3 && g.more(1, 5); {
		g.p(".")
		ids = append(ids, g.ident())
	}
	o := &sqlast.ObjectName{Idents: ids}
	g.span(o, m)
	return o
}

var longs = []int64{0, 1, 2, 10, 42, 65535, 1 << 31, 1<<53 + 1, 9223372036854775807}

func (g *G) long() *sqlast.LongValue {
	m := g.mark()
	t := g.t
	var v int64
	switch t.Weighted(4, 2, 1) {
	case 0:
		v = longs[t.N(4)]
	case 1:
		v = longs[t.N(len(longs))]
	case 2:
		v = int64(t.U64() >> (1 + uint(t.N(63))))
	}
	s := strconv.FormatInt(v, 10)
	g.canTok(gNumber, s)
	if g.o.tricky && t.P(1, 8) {
		s = "00" + s
	}
	g.srcTok(gNumber, s)
	n := &sqlast.LongValue{Long: v}
	g.span(n, m)
	return n
}

func (g *G) double() *sqlast.DoubleValue {
	m := g.mark()
	t := g.t
	var s string
	switch t.Weighted(8, 4, 4, 1) {
	case 0:
		s = t.Pick("0.5", "1.5", "3.14", "10.0", "2.0")
	case 1:
		s = t.Pick("1.", "0.0", "1.50", "007.25", "123456789.123456789", "9007199254740993.0", "0.1", "100000000000000000000.0", "0.000000000000001", "12345678901234567890123456789.5")
	case 2:
		s = fmt.Sprintf("%d.%0*d", t.U64()>>uint(t.N(64)), t.Range(1, 18), t.N(1000000))
	case 3: // as long as a float's decimal notation can get
		s = digitsOf(t, 310) + "."
		if t.Bool() {
			s += strings.Repeat("0", t.N(330))
		}
		s += digitsOf(t, 60)
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		s, f = "0.5", 0.5
	}
	c := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(c, ".") {
		c += ".0"
	}
	g.srcTok(gNumber, s)
	g.canTok(gNumber, c)
	n := &sqlast.DoubleValue{Double: f}
	g.span(n, m)
	return n
}

// digitsOf draws 1 to max digits, no zero first.
func digitsOf(t *T, max int) string {
	n := 1 + t.N(max)
	if t.P(1, 3) {
		return string('1'+byte(t.N(9))) + strings.Repeat("0", n-1)
	}
	var b []byte
	for len(b) < n {
		b = strconv.AppendUint(b, 1+t.U64()>>1, 10)
	}
	return string(b[:n])
}

// sizes are lengths at and around those of buffers and counters.
var sizes = []int{16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 9000, 16384, 20000, 32767, 32768, 33000, 65535, 65536, 65537, 70000}

// bigSize draws a length, a long one rarely.
func bigSize(t *T) int {
	switch t.Weighted(6, 3, 1) {
	case 0:
		return sizes[t.N(13)]
	case 1:
		return sizes[t.N(27)]
	}
	return sizes[t.N(len(sizes))]
}

// freeText is any content of a string or a delimited name.
func freeText(t *T) string {
	var sb strings.Builder
	switch t.Weighted(3, 1, 1) {
	case 0: // what means something elsewhere
		for k := t.Range(0, 6); k > 0; k-- {
			sb.WriteString(t.Pick("a", "'", "\"", "\n", "\r", "é", "\\", "-", "/*", "*/", "--", ";", "N'", "\t", "\x00", "𝒳", ".", "..", ",", "(", ")", "*", "[", "]", "`", " ", "%", ":", "::", "@", "$", "_", "1", "0x", "NULL", "true", "{", "}", "&", "?", "#", "="))
		}
	case 1: // one printable ASCII character, or two
		for k := t.Range(1, 2); k > 0; k-- {
			sb.WriteRune(rune(t.Range(' ', '~')))
		}
	default: // any characters
		base := []int{0x01, 0x80, 0x300, 0x600, 0x2000, 0x2020, 0x3000, 0xac00, 0xfe00, 0xfef0, 0xffc0, 0x1f600, 0x10ffc0}[t.N(13)]
		for k := t.Range(1, 4); k > 0; k-- {
			sb.WriteRune(rune(base + t.N(64)))
		}
	}
	return sb.String()
}

var strs = []string{"x", "", "abc", "it's", "''", "a\"b", "--no comment", "/* no */", "%a_", "日本", "a\nb", "\r\n\t", "\\", "`", ";", "SELECT", "a''b'", " "}

func (g *G) strContent() string {
	t := g.t
	if t.P(1, 200) {
		unit := t.Pick("a", "ab'", "é", "-- ", "\n", "漢字 ", "''", "\t", "/*")
		return strings.Repeat(unit, 1+bigSize(t)/len(unit))
	}
	if t.P(1, 8) {
		return freeText(t)
	}
	return strs[t.N(len(strs))]
}

func quoteStr(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func (g *G) str() sqlast.Node {
	m := g.mark()
	s := g.strContent()
	if g.t.P(1, 6) {
		q := "N" + quoteStr(s)
		g.srcTok(gNString, q)
		g.canTok(gNString, q)
		n := &sqlast.NationalStringLiteral{String: s}
		g.span(n, m)
		return n
	}
	q := quoteStr(s)
	g.srcTok(gString, q)
	g.canTok(gString, q)
	n := &sqlast.SingleQuotedString{String: s}
	g.span(n, m)
	return n
}

func (g *G) literal() sqlast.Node {
	m := g.mark()
	switch g.t.Weighted(5, 2, 5, 1, 1, 1) {
	case 0:
		return g.long()
	case 1:
		return g.double()
	case 2:
		return g.str()
	case 3:
		g.kw("TRUE")
		n := &sqlast.BooleanValue{Boolean: true}
		g.span(n, m)
		return n
	case 4:
		g.kw("FALSE")
		n := &sqlast.BooleanValue{}
		g.span(n, m)
		return n
	}
	g.kw("NULL")
	n := &sqlast.NullValue{}
	g.span(n, m)
	return n
}

// levels of the expression grammar, loosest first
const (
	lvOr = iota
	lvAnd
	lvNot
	lvIs
	lvCmp
	lvAdd
	lvMul
	lvCast
	lvPrimary
)

func (g *G) expr() sqlast.Node { return g.exprAt(lvOr) }

func (g *G) exprAt(min int) sqlast.Node {
	g.t.Begin("expr")
	g.depth++
	defer func() {
		g.depth--
		g.t.End()
	}()
	if g.deep > 0 && g.t.P(1, 3) {
		n := g.deep
		g.deep = 0
		g.t.Label("deep")
		return g.nest(n, g.t.N(7))
	}
	if g.late > 0 {
		g.late--
		return g.leaf()
	}
	lvl, sub := lvPrimary, -1
	if g.focusN > 0 && g.t.P(2, 3) {
		if k := g.focus[g.t.N(len(g.focus))]; k.lvl >= min {
			lvl, sub = k.lvl, k.sub
			g.focusN--
		}
	}
	if sub < 0 {
		if g.t.fuel <= 0 {
			return g.leaf()
		}
		// the last level (a plain operand) is the simple choice
		if k := g.t.N(2 * (lvPrimary - min + 1)); k > lvPrimary-min {
			lvl = min + (k - (lvPrimary - min) - 1)
		}
		if lvl < lvPrimary {
			g.spend(1)
		}
	}
	m := g.mark()
	switch lvl {
	case lvOr, lvAnd:
		op, name := sqlast.Or, "OR"
		if lvl == lvAnd {
			op, name = sqlast.And, "AND"
		}
		e := g.exprAt(lvl + 1)
		for n, l := 0, g.list(1, 3); l.ok(n); n++ {
			o := g.operator(op, name)
			r := g.exprAt(lvl + 1)
			e = g.binary(m, e, o, r)
		}
		return e
	case lvNot:
		if g.t.P(1, 4) {
			g.kw("NOT", "EXISTS")
			g.p("(")
			q := g.query(qAny)
			g.p(")")
			n := &sqlast.Exists{Negated: true, Query: q}
			g.span(n, m)
			return n
		}
		o := g.operator(sqlast.Not, "NOT")
		e := g.exprAt(lvNot)
		n := &sqlast.UnaryExpr{Op: o, Expr: e}
		g.span(n, m)
		return n
	case lvIs:
		e := g.exprAt(lvCmp)
		for n, l := 0, g.list(1, 6); l.ok(n); n++ {
			var r sqlast.Node
			if g.t.Bool() {
				g.kw("IS", "NOT", "NULL")
				r = &sqlast.IsNotNull{X: e}
			} else {
				g.kw("IS", "NULL")
				r = &sqlast.IsNull{X: e}
			}
			g.span(r, m)
			e = r
		}
		return e
	case lvCmp:
		e := g.exprAt(lvAdd)
		for n, l := 0, g.list(1, 5); l.ok(n); n++ {
			e = g.comparison(m, e, sub)
			sub = -1
		}
		return e
	case lvAdd:
		e, unary := g.uterm(g.t.P(1, 3))
		n := 0
		if unary {
			n = 1
		}
		for l := g.list(1, 3); l.ok(n); n++ {
			var o *sqlast.Operator
			if g.t.Bool() {
				o = g.operator(sqlast.Minus, "-")
			} else {
				o = g.operator(sqlast.Plus, "+")
			}
			r, _ := g.uterm(g.t.P(1, 6))
			e = g.binary(m, e, o, r)
		}
		return e
	case lvMul:
		e := g.exprAt(lvCast)
		for n, l := 0, g.list(1, 3); l.ok(n); n++ {
			var o *sqlast.Operator
			switch g.t.N(3) {
			case 0:
				o = g.operator(sqlast.Multiply, "*")
			case 1:
				o = g.operator(sqlast.Divide, "/")
			case 2:
				o = g.operator(sqlast.Modulus, "%")
			}
			if g.t.P(1, 10) {
				// a signed last factor; the sign ranks below what follows it
				um := g.mark()
				uo := g.sign()
				ue := g.exprAt(lvMul)
				u := &sqlast.UnaryExpr{Op: uo, Expr: ue}
				g.span(u, um)
				return g.binary(m, e, o, u)
			}
			r := g.exprAt(lvCast)
			e = g.binary(m, e, o, r)
		}
		return e
	case lvCast:
		cm := len(g.can)
		e := g.primary(-1)
		for n, l := 0, g.list(1, 5); l.ok(n); n++ {
			g.srcTok(gPunct, "::")
			tail := append([]gtok(nil), g.can[cm:]...)
			g.can = append(append(g.can[:cm:cm], gtok{gKeyword, "CAST"}, gtok{gPunct, "("}), tail...)
			g.ckw("AS")
			ty := g.dataType()
			g.canTok(gPunct, ")")
			c := &sqlast.Cast{Expr: e, DataType: ty}
			g.span(c, m)
			e = c
		}
		return e
	}
	return g.primary(sub)
}

func (g *G) sign() *sqlast.Operator {
	if g.t.P(1, 3) {
		return g.operator(sqlast.Plus, "+")
	}
	return g.operator(sqlast.Minus, "-")
}

func (g *G) uterm(unary bool) (sqlast.Node, bool) {
	m := g.mark()
	if !unary {
		return g.exprAt(lvMul), false
	}
	o := g.sign()
	e, _ := g.uterm(g.more(1, 6))
	n := &sqlast.UnaryExpr{Op: o, Expr: e}
	g.span(n, m)
	return n, true
}

// nest is an expression nested n deep.
func (g *G) nest(n, how int) sqlast.Node {
	if n == 0 {
		return g.exprAt(lvPrimary)
	}
	m := g.mark()
	k := how
	if how == 6 {
		k = g.t.N(6)
	}
	var e sqlast.Node
	switch k {
	case 0, 1:
		g.p("(")
		e = &sqlast.Nested{AST: g.nest(n-1, how)}
		g.p(")")
	case 2:
		f := &sqlast.Function{Name: g.objectName()}
		g.p("(")
		f.Args = []sqlast.Node{g.nest(n-1, how)}
		g.p(")")
		e = f
	case 3:
		c := &sqlast.CaseExpr{}
		g.kw("CASE", "WHEN")
		c.Conditions = []sqlast.Node{g.nest(n-1, how)}
		g.kw("THEN")
		c.Results = []sqlast.Node{g.leaf()}
		g.kw("END")
		e = c
	case 4:
		g.p("(")
		q := &sqlast.SQLSelect{}
		qm := g.mark()
		g.kw("SELECT")
		im := g.mark()
		it := &sqlast.UnnamedSelectItem{Node: g.nest(n-1, how)}
		g.span(it, im)
		q.Projection = []sqlast.SQLSelectItem{it}
		g.span(q, qm)
		st := &sqlast.QueryStmt{Body: q}
		g.span(st, qm)
		g.p(")")
		e = &sqlast.SubQuery{Query: st}
	case 5:
		c := &sqlast.Cast{}
		g.kw("CAST")
		g.p("(")
		c.Expr = g.nest(n-1, how)
		g.kw("AS")
		c.DataType = g.dataType()
		g.p(")")
		e = c
	}
	g.span(e, m)
	return e
}

func (g *G) operator(tp sqlast.OperatorType, words ...string) *sqlast.Operator {
	m := g.mark()
	for _, w := range words {
		if isLetter(rune(w[0])) {
			g.kw(w)
		} else {
			g.p(w)
		}
	}
	o := &sqlast.Operator{Type: tp}
	g.span(o, m)
	return o
}

func (g *G) binary(m int, l sqlast.Node, o *sqlast.Operator, r sqlast.Node) sqlast.Node {
	n := &sqlast.BinaryExpr{Left: l, Op: o, Right: r}
	g.span(n, m)
	return n
}

func (g *G) comparison(m int, e sqlast.Node, kind int) sqlast.Node {
	t := g.t
	if kind < 0 {
		kind = t.Weighted(8, 2, 2, 2, 2)
	}
	switch kind {
	case 0:
		var o *sqlast.Operator
		switch t.N(7) {
		case 0:
			o = g.operator(sqlast.Eq, "=")
		case 1:
			o = g.operator(sqlast.NotEq, "!=")
		case 2:
			om := g.mark()
			g.srcTok(gPunct, "<>")
			g.canTok(gPunct, "!=")
			o = &sqlast.Operator{Type: sqlast.NotEq}
			g.span(o, om)
		case 3:
			o = g.operator(sqlast.Lt, "<")
		case 4:
			o = g.operator(sqlast.LtEq, "<=")
		case 5:
			o = g.operator(sqlast.Gt, ">")
		case 6:
			o = g.operator(sqlast.GtEq, ">=")
		}
		return g.binary(m, e, o, g.exprAt(lvAdd))
	case 1:
		neg := t.Bool()
		if neg {
			g.kw("NOT")
		}
		g.kw("IN")
		g.p("(")
		l := g.exprList()
		g.p(")")
		n := &sqlast.InList{Expr: e, List: l, Negated: neg}
		g.span(n, m)
		return n
	case 2:
		neg := t.Bool()
		if neg {
			g.kw("NOT")
		}
		g.kw("BETWEEN")
		lo := g.exprAt(lvAdd)
		g.kw("AND")
		hi := g.exprAt(lvAdd)
		n := &sqlast.Between{Expr: e, Low: lo, High: hi, Negated: neg}
		g.span(n, m)
		return n
	case 3:
		var o *sqlast.Operator
		if t.Bool() {
			o = g.operator(sqlast.NotLike, "NOT", "LIKE")
		} else {
			o = g.operator(sqlast.Like, "LIKE")
		}
		return g.binary(m, e, o, g.exprAt(lvAdd))
	}
	neg := t.Bool()
	if neg {
		g.kw("NOT")
	}
	g.kw("IN")
	g.p("(")
	q := g.query(qSelect)
	g.p(")")
	n := &sqlast.InSubQuery{Expr: e, SubQuery: q, Negated: neg}
	g.span(n, m)
	return n
}

func (g *G) exprList() []sqlast.Node {
	out := []sqlast.Node{g.expr()}
	for i, l := 1, g.list(2, 5); l.ok(i); i++ {
		g.p(",")
		out = append(out, g.expr())
	}
	return out
}

func (g *G) leaf() sqlast.Node {
	if g.o.lits && g.t.P(4, 5) || g.t.P(2, 5) {
		return g.literal()
	}
	return g.column()
}

func (g *G) column() sqlast.Node {
	m := g.mark()
	id := g.ident()
	parts := g.dotted()
	if parts == 0 && !g.t.P(1, 4) {
		return id
	}
	ids := []*sqlast.Ident{id}
	for len(ids) < parts || parts == 0 && (len(ids) == 1 || (len(ids) < 4 && g.t.P(1, 4))) {
		g.p(".")
		ids = append(ids, g.ident())
	}
	n := &sqlast.CompoundIdent{Idents: ids}
	g.span(n, m)
	return n
}

func (g *G) primary(k int) sqlast.Node {
	t := g.t
	if k < 0 && t.fuel <= 0 {
		return g.leaf()
	}
	m := g.mark()
	afterNot := m > 0 && g.src[m-1].kind == gKeyword && g.src[m-1].text == "NOT"
	if k < 0 {
		k = t.Weighted(8, 3, 2, 2, 1, 1, 1)
	}
	if k == 6 && afterNot {
		k = 0
	}
	if k > 0 {
		g.spend(1)
	}
	switch k {
	case 1:
		return g.function()
	case 2:
		g.p("(")
		e := g.expr()
		g.p(")")
		n := &sqlast.Nested{AST: e}
		g.span(n, m)
		return n
	case 3:
		n := &sqlast.CaseExpr{}
		g.kw("CASE")
		if t.P(1, 3) {
			n.Operand = g.expr()
		}
		for i, l := 0, g.list(1, 3); l.ok(i); i++ {
			g.kw("WHEN")
			n.Conditions = append(n.Conditions, g.expr())
			g.kw("THEN")
			n.Results = append(n.Results, g.expr())
		}
		if t.Bool() {
			g.kw("ELSE")
			n.ElseResult = g.expr()
		}
		g.kw("END")
		g.span(n, m)
		return n
	case 4:
		g.kw("CAST")
		g.p("(")
		e := g.expr()
		g.kw("AS")
		ty := g.dataType()
		g.p(")")
		n := &sqlast.Cast{Expr: e, DataType: ty}
		g.span(n, m)
		return n
	case 5:
		g.p("(")
		q := g.query(qSelect)
		g.p(")")
		n := &sqlast.SubQuery{Query: q}
		g.span(n, m)
		return n
	case 6:
		g.kw("EXISTS")
		g.p("(")
		q := g.query(qAny)
		g.p(")")
		n := &sqlast.Exists{Query: q}
		g.span(n, m)
		return n
	}
	return g.leaf()
}

func (g *G) function() sqlast.Node {
	t := g.t
	m := g.mark()
	n := &sqlast.Function{Name: g.objectName()}
	g.p("(")
	switch t.Weighted(6, 2, 1, 1) {
	case 0:
		n.Args = g.exprList()
	case 1:
	case 2:
		wm := g.mark()
		g.p("*")
		w := &sqlast.Wildcard{}
		g.span(w, wm)
		n.Args = []sqlast.Node{w}
	case 3:
		wm := g.mark()
		w := &sqlast.QualifiedWildcard{Idents: []*sqlast.Ident{g.ident()}}
		for i, l := 1, g.list(1, 4); l.ok(i); i++ {
			g.p(".")
			w.Idents = append(w.Idents, g.ident())
		}
		g.p(".", "*")
		g.span(w, wm)
		n.Args = []sqlast.Node{w}
	}
	g.p(")")
	if g.opt(1, 3) {
		g.kw("OVER")
		g.p("(")
		n.Over = g.window()
		g.p(")")
	}
	g.span(n, m)
	return n
}

func (g *G) window() *sqlast.WindowSpec {
	m := g.mark()
	w := &sqlast.WindowSpec{}
	if g.t.Bool() {
		g.kw("PARTITION", "BY")
		w.PartitionBy = g.exprList()
	}
	if g.t.Bool() {
		g.kw("ORDER", "BY")
		w.OrderBy = g.orderList()
	}
	if g.t.Bool() {
		fm := g.mark()
		f := &sqlast.WindowFrame{}
		um := g.mark()
		u := &sqlast.WindowFrameUnit{}
		switch g.t.N(3) {
		case 0:
			g.kw("ROWS")
			u.Type = sqlast.RowsUnit
		case 1:
			g.kw("RANGE")
			u.Type = sqlast.RangeUnit
		case 2:
			g.kw("GROUPS")
			u.Type = sqlast.GroupsUnit
		}
		g.span(u, um)
		f.Units = u
		if g.t.Bool() {
			g.kw("BETWEEN")
			f.StartBound = g.bound()
			g.kw("AND")
			f.EndBound = g.bound()
		} else {
			f.StartBound = g.bound()
		}
		g.span(f, fm)
		w.WindowsFrame = f
	}
	if g.mark() > m {
		g.span(w, m)
	} else {
		g.kinds["OVER ()"] = true
	}
	return w
}

func (g *G) bound() sqlast.SQLWindowFrameBound {
	m := g.mark()
	var b sqlast.SQLWindowFrameBound
	switch g.t.N(5) {
	case 0:
		g.kw("CURRENT", "ROW")
		b = &sqlast.CurrentRow{}
	case 1:
		g.kw("UNBOUNDED", "PRECEDING")
		b = &sqlast.UnboundedPreceding{}
	case 2:
		g.kw("UNBOUNDED", "FOLLOWING")
		b = &sqlast.UnboundedFollowing{}
	case 3:
		n := uint64(g.num())
		g.kw("PRECEDING")
		b = &sqlast.Preceding{Bound: &n}
	case 4:
		n := uint64(g.num())
		g.kw("FOLLOWING")
		b = &sqlast.Following{Bound: &n}
	}
	g.span(b, m)
	return b
}

// num writes a plain integer that is not a node of its own.
func (g *G) num() int64 {
	v := longs[g.t.N(len(longs))]
	g.srcTok(gNumber, strconv.FormatInt(v, 10))
	g.canTok(gNumber, strconv.FormatInt(v, 10))
	return v
}

func (g *G) orderList() []*sqlast.OrderByExpr {
	var out []*sqlast.OrderByExpr
	for i, l := 0, g.list(1, 3); l.ok(i); i++ {
		if i > 0 {
			g.p(",")
		}
		m := g.mark()
		o := &sqlast.OrderByExpr{Expr: g.expr()}
		switch g.t.N(3) {
		case 1:
			g.kw("ASC")
			b := true
			o.ASC = &b
		case 2:
			g.kw("DESC")
			b := false
			o.ASC = &b
		}
		g.span(o, m)
		out = append(out, o)
	}
	return out
}

type qstart int

const (
	qAny    qstart = iota
	qSelect        // must not start with a parenthesis
)

func (g *G) query(s qstart) *sqlast.QueryStmt {
	g.t.Begin("query")
	g.depth++
	defer func() {
		g.depth--
		g.t.End()
	}()
	m := g.mark()
	q := &sqlast.QueryStmt{}
	if g.opt(1, 8) {
		g.kw("WITH")
		for i, l := 0, g.list(1, 3); l.ok(i); i++ {
			if i > 0 {
				g.p(",")
			}
			cm := g.mark()
			c := &sqlast.CTE{Alias: g.ident()}
			g.kw("AS")
			g.p("(")
			c.Query = g.query(qAny)
			g.p(")")
			g.span(c, cm)
			q.CTEs = append(q.CTEs, c)
		}
		s = qAny
	}
	q.Body = g.setExpr(0, s)
	if g.opt(1, 6) {
		g.kw("ORDER", "BY")
		q.OrderBy = g.orderList()
	}
	if g.opt(1, 6) {
		lm := g.mark()
		l := &sqlast.LimitExpr{}
		g.kw("LIMIT")
		if g.t.P(1, 4) {
			g.kw("ALL")
			l.All = true
		} else {
			l.LimitValue = g.long()
		}
		if g.t.P(1, 3) {
			g.kw("OFFSET")
			l.OffsetValue = g.long()
		}
		g.span(l, lm)
		q.Limit = l
	}
	g.span(q, m)
	return q
}

// setExpr: level 0 is UNION and EXCEPT, level 1 INTERSECT, level 2 a SELECT or a query in parentheses.
func (g *G) setExpr(level int, s qstart) sqlast.SQLSetExpr {
	m := g.mark()
	if level == 2 {
		if s == qAny && g.opt(1, 10) {
			g.p("(")
			q := g.query(qAny)
			g.p(")")
			e := &sqlast.QueryExpr{Query: q}
			g.span(e, m)
			return e
		}
		return g.selectBody()
	}
	e := g.setExpr(level+1, s)
	for i, l := 1, g.list(1, 12); l.ok(i); i++ {
		om := g.mark()
		var op sqlast.SQLSetOperator
		switch {
		case level == 1:
			g.kw("INTERSECT")
			op = &sqlast.IntersectOperator{}
		case g.t.Bool():
			g.kw("EXCEPT")
			op = &sqlast.ExceptOperator{}
		default:
			g.kw("UNION")
			op = &sqlast.UnionOperator{}
		}
		g.span(op, om)
		all := g.t.P(1, 3)
		if all {
			g.kw("ALL")
		}
		r := g.setExpr(level+1, qAny)
		n := &sqlast.SetOperationExpr{Op: op, All: all, Left: e, Right: r}
		g.span(n, m)
		e = n
	}
	return e
}

func (g *G) alias() *sqlast.Ident {
	if g.t.Bool() {
		g.skw("AS")
	}
	g.ckw("AS")
	return g.ident()
}

func (g *G) selectBody() sqlast.SQLSetExpr {
	m := g.mark()
	s := &sqlast.SQLSelect{}
	g.kw("SELECT")
	if g.t.P(1, 10) {
		g.kw("DISTINCT")
		s.Distinct = true
	}
	for i, l := 0, g.list(2, 5); l.ok(i); i++ {
		if i > 0 {
			g.p(",")
		}
		g.t.Begin("item")
		s.Projection = append(s.Projection, g.selectItem())
		g.t.End()
	}
	if g.t.P(3, 4) {
		g.kw("FROM")
		for i, l := 0, g.list(1, 5); l.ok(i); i++ {
			if i > 0 {
				g.p(",")
			}
			s.FromClause = append(s.FromClause, g.tableRef())
		}
	}
	if g.opt(2, 5) {
		g.kw("WHERE")
		s.WhereClause = g.expr()
	}
	if g.opt(1, 6) {
		g.kw("GROUP", "BY")
		s.GroupByClause = g.exprList()
	}
	if g.opt(1, 8) {
		g.kw("HAVING")
		s.HavingClause = g.expr()
	}
	g.span(s, m)
	return s
}

func (g *G) selectItem() sqlast.SQLSelectItem {
	m := g.mark()
	switch g.t.Weighted(6, 2, 1, 1) {
	case 1:
		e := g.expr()
		a := g.alias()
		n := &sqlast.AliasSelectItem{Expr: e, Alias: a}
		g.span(n, m)
		return n
	case 2:
		g.p("*")
		w := &sqlast.Wildcard{}
		g.span(w, m)
		n := &sqlast.UnnamedSelectItem{Node: w}
		g.span(n, m)
		return n
	case 3:
		o := &sqlast.ObjectName{Idents: []*sqlast.Ident{g.ident()}}
		for i, l := 1, g.list(1, 4); l.ok(i); i++ {
			g.p(".")
			o.Idents = append(o.Idents, g.ident())
		}
		g.span(o, m)
		g.p(".", "*")
		n := &sqlast.QualifiedWildcardSelectItem{Prefix: o}
		g.span(n, m)
		return n
	}
	n := &sqlast.UnnamedSelectItem{Node: g.expr()}
	g.span(n, m)
	return n
}

func (g *G) tableFactor() sqlast.TableFactor {
	g.t.Begin("factor")
	defer g.t.End()
	m := g.mark()
	if g.opt(1, 6) {
		n := &sqlast.Derived{}
		if g.t.P(1, 4) {
			g.kw("LATERAL")
			n.Lateral = true
		}
		g.p("(")
		n.SubQuery = g.query(qAny)
		g.p(")")
		if g.t.P(2, 3) {
			n.Alias = g.alias()
		}
		g.span(n, m)
		return n
	}
	n := &sqlast.Table{Name: g.objectName()}
	if g.opt(1, 12) {
		g.p("(")
		n.Args = []sqlast.Node{}
		if g.t.P(2, 3) {
			n.Args = g.exprList()
		}
		g.p(")")
	}
	if g.t.P(1, 3) {
		n.Alias = g.alias()
	}
	if g.opt(1, 20) {
		g.kw("WITH")
		g.p("(")
		n.WithHints = g.exprList()
		g.p(")")
	}
	g.span(n, m)
	return n
}

func (g *G) joinType(natural bool) *sqlast.JoinType {
	m := g.mark()
	j := &sqlast.JoinType{}
	switch g.t.N(8) {
	case 0:
		j.Condition = sqlast.IMPLICIT
		return j
	case 1:
		g.kw("INNER")
		j.Condition = sqlast.INNER
	case 2:
		g.kw("LEFT")
		j.Condition = sqlast.LEFT
	case 3:
		g.kw("RIGHT")
		j.Condition = sqlast.RIGHT
	case 4:
		g.kw("FULL")
		j.Condition = sqlast.FULL
	case 5:
		g.kw("LEFT", "OUTER")
		j.Condition = sqlast.LEFTOUTER
	case 6:
		g.kw("RIGHT", "OUTER")
		j.Condition = sqlast.RIGHTOUTER
	case 7:
		g.kw("FULL", "OUTER")
		j.Condition = sqlast.FULLOUTER
	}
	g.span(j, m)
	return j
}

func (g *G) tableRef() sqlast.TableReference {
	m := g.mark()
	f := g.tableFactor()
	var e sqlast.TableReference = f
	elem := func(r sqlast.TableReference) *sqlast.TableJoinElement {
		te := &sqlast.TableJoinElement{Ref: r}
		sp := g.spans[r]
		g.spans[te] = sp
		return te
	}
	for i, l := 1, g.list(1, 5); l.ok(i); i++ {
		switch g.t.Weighted(5, 1, 1) {
		case 0:
			n := &sqlast.QualifiedJoin{LeftElement: elem(e)}
			n.Type = g.joinType(false)
			g.kw("JOIN")
			n.RightElement = elem(g.tableRef())
			sm := g.mark()
			if g.t.P(1, 4) {
				u := &sqlast.NamedColumnsJoin{}
				g.kw("USING")
				g.p("(")
				u.ColumnList = g.identList()
				g.p(")")
				g.span(u, sm)
				n.Spec = u
			} else {
				g.kw("ON")
				c := &sqlast.JoinCondition{SearchCondition: g.expr()}
				g.span(c, sm)
				n.Spec = c
			}
			g.span(n, m)
			e = n
		case 1:
			n := &sqlast.NaturalJoin{LeftElement: elem(e)}
			g.kw("NATURAL")
			n.Type = g.joinType(true)
			g.kw("JOIN")
			r := g.tableFactor()
			n.RightElement = elem(r)
			g.span(n, m)
			e = n
		case 2:
			g.kw("CROSS", "JOIN")
			n := &sqlast.CrossJoin{Reference: e, Factor: g.tableFactor()}
			g.span(n, m)
			e = n
		}
	}
	return e
}

func (g *G) size() *uint {
	v := uint(longs[g.t.N(len(longs))])
	if v == 0 && g.t.Bool() {
		v = 255
	}
	g.p("(")
	g.srcTok(gNumber, strconv.FormatUint(uint64(v), 10))
	g.canTok(gNumber, strconv.FormatUint(uint64(v), 10))
	g.p(")")
	return &v
}

func (g *G) unsigned() bool {
	if g.t.P(1, 5) {
		g.kw("UNSIGNED")
		return true
	}
	return false
}

func (g *G) dataType() sqlast.Type {
	t := g.t
	m := g.mark()
	var ty sqlast.Type
	switch t.N(20) {
	case 0:
		if t.Bool() {
			g.kw("INT")
		} else {
			g.skw("INTEGER")
			g.ckw("INT")
		}
		ty = &sqlast.Int{IsUnsigned: g.unsigned()}
	case 1:
		n := &sqlast.VarcharType{}
		switch t.N(3) {
		case 0:
			g.skw("VARCHAR")
		case 1:
			g.skw("CHARACTER", "VARYING")
		case 2:
			g.skw("CHAR", "VARYING")
		}
		g.ckw("CHARACTER", "VARYING")
		if t.P(2, 3) {
			n.Size = g.size()
		}
		ty = n
	case 2:
		n := &sqlast.CharType{}
		if t.Bool() {
			g.skw("CHAR")
		} else {
			g.skw("CHARACTER")
		}
		g.ckw("CHAR")
		if t.P(2, 3) {
			n.Size = g.size()
		}
		ty = n
	case 3:
		g.kw("BOOLEAN")
		ty = &sqlast.Boolean{}
	case 4:
		n := &sqlast.Float{}
		g.kw("FLOAT")
		if t.Bool() {
			n.Size = g.size()
		}
		n.IsUnsigned = g.unsigned()
		ty = n
	case 5:
		g.kw("REAL")
		ty = &sqlast.Real{IsUnsigned: g.unsigned()}
	case 6:
		g.kw("DOUBLE", "PRECISION")
		ty = &sqlast.Double{}
	case 7:
		g.kw("SMALLINT")
		ty = &sqlast.SmallInt{IsUnsigned: g.unsigned()}
	case 8:
		g.kw("BIGINT")
		ty = &sqlast.BigInt{IsUnsigned: g.unsigned()}
	case 9:
		n := &sqlast.Decimal{}
		g.kw("NUMERIC")
		if t.P(2, 3) {
			pr := uint(longs[t.N(len(longs))])
			g.p("(")
			g.srcTok(gNumber, strconv.FormatUint(uint64(pr), 10))
			g.canTok(gNumber, strconv.FormatUint(uint64(pr), 10))
			n.Precision = &pr
			if t.Bool() {
				sc := uint(longs[t.N(len(longs))])
				g.p(",")
				g.srcTok(gNumber, strconv.FormatUint(uint64(sc), 10))
				g.canTok(gNumber, strconv.FormatUint(uint64(sc), 10))
				n.Scale = &sc
			}
			g.p(")")
		}
		n.IsUnsigned = g.unsigned()
		ty = n
	case 10:
		g.kw("UUID")
		ty = &sqlast.UUID{}
	case 11:
		g.kw("DATE")
		ty = &sqlast.Date{}
	case 12:
		g.kw("TIMESTAMP")
		n := &sqlast.Timestamp{}
		n.WithTimeZone = g.zone()
		ty = n
	case 13:
		g.kw("TIME")
		n := &sqlast.Time{}
		n.WithTimeZone = g.zone()
		ty = n
	case 14:
		g.kw("REGCLASS")
		ty = &sqlast.Regclass{}
	case 15:
		g.kw("TEXT")
		ty = &sqlast.Text{}
	case 16:
		g.kw("TEXT")
		if strings.Contains(g.d.quotes, "[") {
			// [] would be a delimited name
			ty = &sqlast.Text{}
			break
		}
		inner := &sqlast.Text{}
		g.span(inner, m)
		g.p("[", "]")
		ty = &sqlast.Array{Ty: inner}
	case 17:
		g.kw("BYTEA")
		ty = &sqlast.Bytea{}
	case 18, 19:
		o := &sqlast.ObjectName{}
		for i := 0; i == 0 || i < 3 && t.P(1, 4); i++ {
			if i > 0 {
				g.p(".")
			}
			im := g.mark()
			var s string
			k := gIdent
			if i > 0 {
				s, k = g.nameText()
			} else {
				s = t.Pick("geometry", "mytype", "Custom_T", "json", "status")
				if q, qk := g.nameText(); qk == gQuoted {
					s, k = q, qk
				}
			}
			g.srcTok(k, s)
			g.canTok(k, s)
			id := &sqlast.Ident{Value: s}
			g.span(id, im)
			o.Idents = append(o.Idents, id)
		}
		g.span(o, m)
		ty = &sqlast.Custom{Ty: o}
	}
	g.span(ty, m)
	return ty
}

func (g *G) zone() bool {
	switch g.t.N(4) {
	case 2:
		g.kw("WITH", "TIME", "ZONE")
		return true
	case 3:
		g.skw("WITHOUT", "TIME", "ZONE")
	}
	return false
}
