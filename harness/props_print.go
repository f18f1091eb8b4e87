package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

func sqlOf(n sqlast.Node) string { return n.ToSQLString() }

// roundTrip prints a tree, parses the text and compares; it returns the text.
func roundTrip(t *T, d *dspec, tree sqlast.Stmt, key string) string {
	text := sqlOf(tree)
	t.note = "printed: " + text
	again, err := parseOne(text, d)
	if err != nil {
		t.Fatal(key+":reject:"+typeName(tree), "the printed statement is rejected (%s): %q: %v", d.name, text, err)
	}
	if a, b := dump(tree), dump(again); a != b {
		t.Fatal(key+":differ:"+typeName(tree), "the printed statement denotes another tree: %q\n%s", text, diffAt(a, b))
	}
	if text2 := sqlOf(again); text2 != text {
		t.Fatal(key+":text:"+typeName(tree), "printing again gives another text: %q, then %q", text, text2)
	}
	return text
}

// acceptedStmts parses a damaged statement; nil when it is refused.
func acceptedStmts(t *T, d *dspec) (src string, f *sqlast.File) {
	toks := damagedTokens(t, d)
	lay := layoutTokens(t, d, toks, anyLayout(t))
	t.Input(lay.src)
	f, err := parseFile(lay.src, d, false)
	if err != nil {
		return lay.src, nil
	}
	return lay.src, f
}

func init() {
	register(&Prop{
		ID:       "C09",
		Rule:     "half of the cases: a generated statement, whose tree as built in code and as parsed is printed, parsed back, compared and printed again; the other half: a damaged token list that the parser happens to accept, its trees round-tripped the same way (refused ones count as trivial); non-trivial: more than 6 tokens and accepted",
		Quick:    260000,
		Thorough: 6000000,
		Run: func(t *T) {
			d := pickDialect(t)
			if t.P(3, 5) {
				src, f := acceptedStmts(t, d)
				if f == nil {
					return
				}
				if len(src) > 20 {
					t.Nontrivial()
				}
				t.Label("damaged, accepted")
				for _, s := range f.Stmts {
					roundTrip(t, d, s, "damaged")
				}
				return
			}
			g := newG(t, d)
			g.o.tricky = t.P(1, 3)
			g.o.quoted = t.Pick2(10, 50)
			want := g.stmt()
			lay := layoutTokens(t, d, g.src, anyLayout(t))
			t.Input(lay.src)
			g.labels()
			if len(g.src) > 6 {
				t.Nontrivial()
			}
			text := roundTrip(t, d, want, "built")
			got, err := parseOne(lay.src, d)
			if err != nil {
				t.Label("generated, refused (C05-C08)")
				return
			}
			text2 := roundTrip(t, d, got, "parsed")
			if dump(want) == dump(got) && text != text2 {
				t.Fatal("positions", "equal trees print differently: %q and %q", text, text2)
			}
			// every part prints as it does inside the whole
			ns := nodes(got)
			n := ns[t.N(len(ns))]
			if s := sqlOf(n); !strings.Contains(text, s) {
				t.Fatal("part:"+typeName(n), "the %s prints %q by itself, which the statement does not contain: %q", typeName(n), s, text)
			}
		},
	})
	register(&Prop{
		ID:       "C10",
		Rule:     "half of the cases: a generated statement, whose printed form must consist of exactly the tokens of its canonical form, in order; the other half: a damaged token list that the parser accepts, of which every name, literal, operator, parenthesis and non-noise keyword must be in the printed form exactly as often as in the source; non-trivial: more than 6 tokens and accepted",
		Quick:    260000,
		Thorough: 6000000,
		Run: func(t *T) {
			d := pickDialect(t)
			if t.P(3, 5) {
				src, f := acceptedStmts(t, d)
				if f == nil {
					return
				}
				if len(src) > 20 {
					t.Nontrivial()
				}
				t.Label("damaged, accepted")
				var sb strings.Builder
				f.WriteTo(&sb)
				text := sb.String()
				t.note = "printed: " + text
				a, b := tokenBag(src, d), tokenBag(text, d)
				if df := bagDiff(a, b); df != "" {
					t.Fatal("bag", "source %q is printed as %q: %s", src, text, df)
				}
				return
			}
			g := newG(t, d)
			g.o.tricky = t.P(1, 3)
			want := g.stmt()
			lay := layoutTokens(t, d, g.src, anyLayout(t))
			t.Input(lay.src)
			g.labels()
			if len(g.src) > 6 {
				t.Nontrivial()
			}
			got, err := parseOne(lay.src, d)
			if err != nil {
				t.Label("generated, refused (C05-C08)")
				return
			}
			text := sqlOf(got)
			toks, ok := refLex(text, d)
			if !ok {
				t.Fatal("malformed:"+typeName(want), "printed %q", text)
			}
			toks = significant(toks)
			for i := 0; i < len(toks) || i < len(g.can); i++ {
				if i >= len(toks) || i >= len(g.can) || !sameText(g.can[i], toks[i]) {
					w, gt := "nothing", "nothing"
					if i < len(g.can) {
						w = g.can[i].text
					}
					if i < len(toks) {
						gt = toks[i].raw
					}
					t.Fatal("tokens:"+typeName(want), "printed %q: token %d is %s, the source has %s there (canonical form: %s)", text, i, gt, w, render(g.can))
				}
			}
		},
	})
	register(&Prop{
		ID:       "C14",
		Rule:     "statements whose leaves are mostly literals of drawn content (quotes, line breaks, any characters, integers up to 64 bits, decimals of many digits, leading zeros) in every place of the grammar; the value in the parsed tree, in the printed text and in the tree parsed from that is compared with the value written, computed with math/big; and statements with a number that cannot be represented, which must be rejected; non-trivial: at least two literals",
		Quick:    200000,
		Thorough: 4000000,
		Run:      runC14,
	})
}

func sameText(c gtok, r rtok) bool {
	if c.kind == gKeyword {
		return strings.EqualFold(c.text, r.raw)
	}
	return c.text == r.raw
}

// noise words may appear, disappear or change spelling when a statement is printed.
var noise = map[string]bool{"AS": true, "CAST": true, "CHAR": true, "CHARACTER": true, "VARCHAR": true, "VARYING": true, "INT": true, "INTEGER": true,
	"KEY": true, "WITHOUT": true, "TIME": true, "ZONE": true}

func tokenBag(src string, d *dspec) map[string]int {
	bag := map[string]int{}
	toks, _ := refLex(src, d)
	for _, t := range significant(toks) {
		switch t.kind {
		case sqltoken.Semicolon, sqltoken.Comma:
			continue
		case sqltoken.DoubleColon:
			bag["("]++
			bag[")"]++
			continue
		case sqltoken.Number:
			bag["number "+numKey(t.raw)]++
			continue
		case sqltoken.Neq:
			bag["!="]++
			continue
		case sqltoken.SQLKeyword:
			if t.quote == 0 {
				if noise[strings.ToUpper(t.raw)] {
					continue
				}
				bag[strings.ToUpper(t.raw)]++
				continue
			}
		}
		bag[t.raw]++
	}
	return bag
}

// nearest is the float that a decimal numeral denotes: the one nearest to it, worked out in exact arithmetic.
func nearest(s string) (string, bool) {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return "", false
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return "", false
	}
	return big.NewFloat(f).Text('p', 0), true
}

func numKey(s string) string {
	if strings.Contains(s, ".") {
		f, ok := nearest(s)
		if !ok {
			return "?" + s
		}
		return f
	}
	i, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return "?" + s
	}
	return i.String()
}

func bagDiff(a, b map[string]int) string {
	var out []string
	for k, n := range a {
		if b[k] != n {
			out = append(out, fmt.Sprintf("%q %d times in the source, %d times printed", k, n, b[k]))
		}
	}
	for k, n := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%q not in the source, %d times printed", k, n))
		}
	}
	sort.Strings(out)
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, "; ")
}

// literalNodes lists the literals of a tree in order.
func literalNodes(n sqlast.Node) []sqlast.Node {
	var out []sqlast.Node
	for _, x := range nodes(n) {
		switch x.(type) {
		case *sqlast.LongValue, *sqlast.DoubleValue, *sqlast.SingleQuotedString, *sqlast.NationalStringLiteral, *sqlast.BooleanValue, *sqlast.NullValue:
			out = append(out, x)
		}
	}
	return out
}

// litValue is the value of a literal node, written so that equal values read equal.
func litValue(n sqlast.Node) string {
	switch v := n.(type) {
	case *sqlast.LongValue:
		return fmt.Sprintf("int %d", v.Long)
	case *sqlast.DoubleValue:
		return "dec " + big.NewFloat(v.Double).Text('p', 0)
	case *sqlast.SingleQuotedString:
		return fmt.Sprintf("str %q", v.String)
	case *sqlast.NationalStringLiteral:
		return fmt.Sprintf("nstr %q", v.String)
	case *sqlast.BooleanValue:
		return fmt.Sprintf("bool %v", v.Boolean)
	case *sqlast.NullValue:
		return "null"
	}
	return "?"
}

// litOfTok is the value that a literal token denotes, computed apart from the parser.
func litOfTok(r rtok) (string, bool) {
	switch r.kind {
	case sqltoken.Number:
		if strings.Contains(r.raw, ".") {
			f, ok := nearest(r.raw)
			return "dec " + f, ok
		}
		i, ok := new(big.Int).SetString(r.raw, 10)
		if !ok {
			return "", false
		}
		return "int " + i.String(), true
	case sqltoken.SingleQuotedString:
		return fmt.Sprintf("str %q", r.val), true
	case sqltoken.NationalStringLiteral:
		return fmt.Sprintf("nstr %q", r.val), true
	}
	return "", false
}

// bagOf counts the string and number values of a tree; booleans and null are counted by the tree comparison.
func litBagTree(n sqlast.Node) map[string]int {
	m := map[string]int{}
	for _, l := range literalNodes(n) {
		switch l.(type) {
		case *sqlast.BooleanValue, *sqlast.NullValue:
			continue
		}
		m[litValue(l)]++
	}
	for _, x := range nodes(n) {
		add := func(v uint64) { m[fmt.Sprintf("int %d", v)]++ }
		switch v := x.(type) {
		case *sqlast.Preceding:
			add(*v.Bound)
		case *sqlast.Following:
			add(*v.Bound)
		case *sqlast.CharType:
			if v.Size != nil {
				add(uint64(*v.Size))
			}
		case *sqlast.VarcharType:
			if v.Size != nil {
				add(uint64(*v.Size))
			}
		case *sqlast.Float:
			if v.Size != nil {
				add(uint64(*v.Size))
			}
		case *sqlast.Decimal:
			if v.Precision != nil {
				add(uint64(*v.Precision))
			}
			if v.Scale != nil {
				add(uint64(*v.Scale))
			}
		}
	}
	return m
}

func litBagText(src string, d *dspec) map[string]int {
	m := map[string]int{}
	toks, _ := refLex(src, d)
	for _, r := range toks {
		if s, ok := litOfTok(r); ok {
			m[s]++
		}
	}
	return m
}

func runC14(t *T) {
	d := pickDialect(t)
	g := newG(t, d)
	g.o.tricky = true
	g.o.quoted = 3
	g.o.lits = true
	want := g.stmt()
	bad := t.P(1, 6)
	if bad {
		// one number becomes one that has no value
		var at []int
		for i, k := range g.src {
			if k.kind == gNumber {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return
		}
		i := at[t.N(len(at))]
		digits := "1"
		if t.Bool() {
			digits = fmt.Sprint(1 + t.N(9))
		}
		g.src[i].text = []string{"1.2.3", "1..2", "18446744073709551616", "99999999999999999999999999", digits + strings.Repeat("0", 400) + ".0", "1.0.", digits + strings.Repeat("7", t.Range(20, 60)), strings.Repeat("9", 320) + ".5"}[t.N(8)]
		if strings.Count(g.src[i].text, ".") == 0 && t.P(1, 4) {
			g.src[i].text = "36893488147419103233" // 2^65+1
		}
	}
	lay := layoutTokens(t, d, g.src, anyLayout(t))
	t.Input(lay.src)
	if bad {
		t.Nontrivial()
		t.Label("unrepresentable")
		f, err := parseFile(lay.src, d, false)
		if err == nil {
			t.Fatal("unrepresentable", "a number that has no value is accepted: %s", dump(f))
		}
		return
	}
	if len(literalNodes(want)) >= 2 {
		t.Nontrivial()
	}
	got, err := parseOne(lay.src, d)
	if err != nil {
		t.Fatal("rejected", "a statement with valid literals is rejected: %v", err)
	}
	wb := litBagText(lay.src, d)
	if df := bagDiff(wb, litBagTree(got)); df != "" {
		t.Fatal("value", "values in the source and in the tree: %s", strings.ReplaceAll(df, "printed", "in the tree"))
	}
	a, b := literalNodes(want), literalNodes(got)
	if len(a) != len(b) {
		t.Fatal("place", "%d literals, want %d", len(b), len(a))
	}
	for i := range a {
		if litValue(a[i]) != litValue(b[i]) {
			t.Fatal("place", "literal %d is %s, want %s", i, litValue(b[i]), litValue(a[i]))
		}
	}
	text := sqlOf(got)
	t.note = "printed: " + text
	if df := bagDiff(wb, litBagText(text, d)); df != "" {
		t.Fatal("printed", "values in the source and in the printed text %q: %s", text, df)
	}
	again, err := parseOne(text, d)
	if err != nil {
		t.Fatal("reparse", "the printed text %q is rejected: %v", text, err)
	}
	c := literalNodes(again)
	if len(c) != len(a) {
		t.Fatal("reparse", "%d literals after printing and parsing, want %d", len(c), len(a))
	}
	for i := range a {
		if litValue(a[i]) != litValue(c[i]) {
			t.Fatal("reparse", "literal %d is %s after printing and parsing, want %s", i, litValue(c[i]), litValue(a[i]))
		}
	}
}
