package main

import (
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// anyLayout draws layout options of all sorts.
func anyLayout(t *T) layoutOpts {
	switch t.Weighted(3, 3, 2, 1) {
	case 0:
		return layoutOpts{simpleSep: true}
	case 1:
		return layoutOpts{newlines: true, caseMix: true, lead: true}
	case 2:
		return layoutOpts{newlines: true, caseMix: true, lead: true, comments: 15}
	}
	return layoutOpts{minimal: true, caseMix: true}
}

// checkTree parses a generated source and compares the tree with the one it denotes.
func checkTree(t *T, g *G, lay *laid, want sqlast.Stmt) sqlast.Stmt {
	got, err := parseOne(lay.src, g.d)
	if err != nil {
		t.Fatal("rejected:"+typeName(want), "a valid statement is rejected (%s): %v", g.d.name, err)
	}
	if w, g := dump(want), dump(got); w != g {
		t.Fatal("tree:"+typeName(want), "the tree is not the one the statement denotes:\n%s", diffAt(w, g))
	}
	return got
}

func treeProp(id, rule string, quick, thorough int, gen func(g *G) sqlast.Stmt) {
	register(&Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough, Run: func(t *T) {
		g := newG(t, pickDialect(t))
		want := gen(g)
		lay := layoutTokens(t, g.d, g.src, anyLayout(t))
		t.Input(lay.src)
		if len(g.src) > 6 {
			t.Nontrivial()
		}
		g.labels()
		checkTree(t, g, lay, want)
		checkRejects(t, g, want)
	}})
}

// needsMore lists the keywords and punctuation no statement ends with.
var needsMore = map[string]bool{}

func init() {
	for _, w := range strings.Fields("SELECT FROM WHERE GROUP BY ORDER HAVING LIMIT OFFSET DISTINCT AS UNION EXCEPT INTERSECT WITH RECURSIVE " +
		"JOIN INNER LEFT RIGHT FULL OUTER CROSS NATURAL ON USING LATERAL AND OR NOT IN IS BETWEEN LIKE EXISTS CASE WHEN THEN ELSE CAST OVER PARTITION ROWS UNBOUNDED CURRENT " +
		"INSERT INTO VALUES DUPLICATE UPDATE SET DELETE CREATE TABLE VIEW MATERIALIZED INDEX PRIMARY FOREIGN REFERENCES CHECK CONSTRAINT ENGINE CHARSET " +
		"ALTER ADD DROP COLUMN TYPE EXPLAIN ( , . = + - / % < <= <> != > >= ::") {
		needsMore[w] = true
	}
}

// brokenBy makes a token list that no grammar of SQL accepts out of a statement's; the text says how.
func brokenBy(t *T, src []gtok) ([]gtok, string) {
	drop := func(i, j int) []gtok { return append(append([]gtok(nil), src[:i]...), src[j:]...) }
	var at []int
	pick := func(f func(i int) bool) (int, bool) {
		at = at[:0]
		for i := range src {
			if f(i) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return 0, false
		}
		return at[t.N(len(at))], true
	}
	switch t.N(8) {
	case 0: // ends too early
		if i, ok := pick(func(i int) bool { return (src[i].kind == gKeyword || src[i].kind == gPunct) && needsMore[src[i].text] }); ok {
			return append([]gtok(nil), src[:i+1]...), "ends after " + src[i].text
		}
	case 1: // inside parentheses
		depth := 0
		var inside []int
		for i, k := range src {
			if k.kind == gPunct && k.text == "(" {
				depth++
			}
			if k.kind == gPunct && k.text == ")" {
				depth--
			}
			if depth > 0 {
				inside = append(inside, i)
			}
		}
		if len(inside) > 0 {
			i := inside[t.N(len(inside))]
			return append([]gtok(nil), src[:i+1]...), "ends inside parentheses"
		}
	case 2: // one parenthesis less
		if i, ok := pick(func(i int) bool { return src[i].kind == gPunct && (src[i].text == "(" || src[i].text == ")") }); ok {
			return drop(i, i+1), "lacks a " + src[i].text
		}
	case 3: // one parenthesis more
		i := t.N(len(src) + 1)
		x := gtok{gPunct, []string{"(", ")"}[t.N(2)]}
		return append(append(append([]gtok(nil), src[:i]...), x), src[i:]...), "has an extra " + x.text
	case 4: // a comma too many
		if i, ok := pick(func(i int) bool { return src[i].kind == gPunct && src[i].text == "," }); ok {
			return append(append(append([]gtok(nil), src[:i]...), src[i]), src[i:]...), "has a comma twice"
		}
	}
	is := func(i int, kind gkind, text string) bool {
		return i >= 0 && i < len(src) && src[i].kind == kind && src[i].text == text
	}
	for _, k := range src {
		if k.kind == gIdent && needsMore[strings.ToUpper(k.text)] {
			return nil, "" // a name that could stand in for a missing word
		}
	}
	switch t.N(6) {
	case 0, 1, 4, 5: // a word too few
		if i, ok := pick(func(i int) bool {
			if src[i].kind != gKeyword {
				return false
			}
			switch src[i].text {
			case "INTO", "SET", "BY", "THEN", "END", "TABLE", "DUPLICATE", "VIEW", "REFERENCES", "WHEN", "OVER", "JOIN", "TYPE", "PRECEDING", "FOLLOWING", "ZONE", "INDEX":
				return true
			case "CREATE", "DELETE", "INSERT", "ALTER", "DROP":
				return i == 0
			case "SELECT":
				return i == 0 && len(src) > 1 && src[1].text != "("
			case "UPDATE":
				return i == 0 || is(i-1, gKeyword, "KEY")
			case "ROW":
				return is(i-1, gKeyword, "CURRENT")
			case "EXISTS":
				return is(i-1, gKeyword, "IF") || is(i-2, gKeyword, "IF") && is(i-1, gKeyword, "NOT")
			case "AS": // of a CAST, a view or a common table expression; an alias can do without
				return i+1 < len(src) && src[i+1].kind != gIdent && src[i+1].kind != gQuoted
			case "ON":
				return is(0, gKeyword, "CREATE") && (is(1, gKeyword, "INDEX") || is(2, gKeyword, "INDEX"))
			case "FROM":
				return is(i-1, gKeyword, "DELETE")
			case "VALUES":
				return !is(i+2, gPunct, "(") // a query in parentheses could stand there
			case "KEY":
				return !is(i-1, gKeyword, "UNIQUE")
			}
			return false
		}); ok {
			for _, k := range src {
				if k.kind == gIdent && strings.EqualFold(k.text, src[i].text) {
					return nil, "" // the same: TIMESTAMP WITH TIME zone
				}
			}
			return drop(i, i+1), "lacks " + src[i].text
		}
	case 2: // no target
		i := -1
		switch {
		case is(0, gKeyword, "INSERT"), is(0, gKeyword, "DELETE"), is(0, gKeyword, "CREATE") && is(1, gKeyword, "TABLE") && !is(2, gKeyword, "IF"), is(0, gKeyword, "ALTER"), is(0, gKeyword, "CREATE") && is(1, gKeyword, "VIEW"), is(0, gKeyword, "DROP") && !is(2, gKeyword, "IF") && !is(len(src)-1, gKeyword, "CASCADE"):
			i = 2
		case is(0, gKeyword, "UPDATE"):
			i = 1
		}
		if i > 0 {
			j := i
			for j < len(src) && (src[j].kind == gIdent || src[j].kind == gQuoted || is(j, gPunct, ".")) {
				j++
			}
			if is(1, gKeyword, "TABLE") && is(0, gKeyword, "CREATE") && !is(j, gPunct, "(") {
				return nil, "" // the options of a table without elements could be read as its name
			}
			return drop(i, j), "lacks its target"
		}
	case 3: // SET without a column, an equals sign
		if i, ok := pick(func(i int) bool { return is(i, gKeyword, "SET") && i+2 < len(src) && is(i+2, gPunct, "=") }); ok {
			if t.Bool() {
				return drop(i+1, i+2), "lacks the column of an assignment"
			}
			return drop(i+2, i+3), "lacks an equals sign"
		}
	}
	return nil, ""
}

// checkRejects damages the statement at one place and expects an error.
func checkRejects(t *T, g *G, want sqlast.Stmt) {
	t.Begin("broken")
	defer t.End()
	toks, how := brokenBy(t, g.src)
	if how == "" {
		return
	}
	lay := layoutTokens(t, g.d, toks, anyLayout(t))
	t.Input(lay.src)
	t.Label(how)
	if f, err := parseFile(lay.src, g.d, false); err == nil {
		t.Fail("accepted:"+how, "the text %s and is accepted as %s", how, f.ToSQLString())
	}
}

const treeRule = "a statement is generated together with the tree it denotes, laid out with drawn white space, comments and keyword case for a drawn dialect, and the parsed tree is compared with the denoted one; non-trivial: more than 6 tokens"

func init() {
	treeProp("C05", treeRule, 320000, 4000000, func(g *G) sqlast.Stmt { return g.query(qSelect) })
	treeProp("C06", treeRule+" (the statement is SELECT of one expression)", 320000, 4000000, func(g *G) sqlast.Stmt {
		g.kw("SELECT")
		m := 0
		im := g.mark()
		e := g.exprAt(lvOr)
		it := &sqlast.UnnamedSelectItem{Node: e}
		g.span(it, im)
		s := &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{it}}
		g.span(s, m)
		q := &sqlast.QueryStmt{Body: s}
		g.span(q, m)
		return q
	})
	treeProp("C07", treeRule, 320000, 4000000, func(g *G) sqlast.Stmt { return g.dml() })
	treeProp("C08", treeRule, 320000, 4000000, func(g *G) sqlast.Stmt { return g.ddl() })
}
