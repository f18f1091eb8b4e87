package main

import (
	"fmt"
	"reflect"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// posEnd asks a node for its extent; a panic is a violation.
func posEnd(t *T, n sqlast.Node) (from, to sqltoken.Pos) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic:"+typeName(n), "asking a %s for its extent panics: %v", typeName(n), r)
		}
	}()
	return n.Pos(), n.End()
}

func runC21(t *T) {
	d := pickDialect(t)
	n := many(t, 6, 2, 1)
	type one struct {
		g    *G
		want sqlast.Stmt
		at   int
	}
	var all []one
	var toks []gtok
	for i := 0; i < n; i++ {
		t.Begin("one")
		t.fuel = t.size/n + 1
		g := newG(t, d)
		s := g.stmt()
		g.labels()
		if i > 0 {
			toks = append(toks, gtok{gPunct, ";"})
		}
		all = append(all, one{g, s, len(toks)})
		toks = append(toks, g.src...)
		t.End()
	}
	lay := layoutTokens(t, d, toks, anyLayout(t))
	t.Input(lay.src)
	if len(toks) > 6 {
		t.Nontrivial()
	}
	f, err := parseFile(lay.src, d, t.Bool())
	if err != nil || len(f.Stmts) != n {
		t.Label("other tree (C05-C08, C12)")
		return
	}
	for i, o := range all {
		if dump(o.want) != dump(f.Stmts[i]) {
			t.Label("other tree (C05-C08, C12)")
			return
		}
	}
	checkFileExtent(t, f)
	for i, o := range all {
		checkExtents(t, o.g, lay, o.at, o.want, f.Stmts[i])
	}
}

// checkFileExtent: a file extends from the first of its statements and comments to the last.
func checkFileExtent(t *T, f *sqlast.File) {
	var wf, wt sqltoken.Pos
	add := func(from, to sqltoken.Pos) {
		if (wf == sqltoken.Pos{}) || comparePos(from, wf) < 0 {
			wf = from
		}
		if comparePos(wt, to) < 0 {
			wt = to
		}
	}
	for _, s := range f.Stmts {
		add(posEnd(t, s))
	}
	for _, c := range f.Comments {
		add(posEnd(t, c))
	}
	if from, to := posEnd(t, f); from != wf || to != wt {
		t.Fatal("file", "the file extends from %v to %v, its statements and comments from %v to %v", from, to, wf, wt)
	}
}

// checkExtents compares the extents of a parsed statement with the places of the tokens it was generated with, which
// begin at token at.
func checkExtents(t *T, g *G, lay *laid, at int, want, got sqlast.Stmt) {
	// extents that are known to be wrong, each with the exact wrong value (see known_findings.txt); a node that begins
	// or ends with such a node and takes its extent over from it falls under the same finding
	type wrong struct{ is, says sqltoken.Pos }
	starts, ends := map[wrong]string{}, map[wrong]string{}
	type bad struct {
		wrong
		name, text string
		end        bool
	}
	var open []bad
	pairs(want, got, func(w, n sqlast.Node, path string) {
		sp, ok := g.spans[w]
		if !ok {
			t.Label("no span: " + typeName(w))
			return
		}
		from, to := posEnd(t, n)
		name := typeName(n)
		sp[0], sp[1] = sp[0]+at, sp[1]+at
		if sp[1] < sp[0] {
			t.Label("empty: " + name)
			return
		}
		v := reflect.Indirect(reflect.ValueOf(n))
		for i := 0; v.Kind() == reflect.Struct && i < v.NumField(); i++ {
			if v.Type().Field(i).Type != posType {
				continue
			}
			p, found := v.Field(i).Interface().(sqltoken.Pos), false
			for k := sp[0]; k <= sp[1] && !found; k++ {
				found = p == lay.from[k] || p == lay.to[k]
			}
			if p != (sqltoken.Pos{}) && !found {
				t.Fail("field:"+name+"."+v.Type().Field(i).Name, "%s: the position %s of the %s %q is %v, where no token of it begins or ends", path, v.Type().Field(i).Name, name, sqlOf(n), p)
			}
		}
		if is := lay.from[sp[0]]; from != is {
			if v, ok := knownStart(n); ok && v == from {
				starts[wrong{is, from}] = "start:" + name
			}
			open = append(open, bad{wrong{is, from}, name, fmt.Sprintf("%s: the %s %q starts at %v, it says %v", path, name, sqlOf(n), is, from), false})
		}
		if is := lay.to[sp[1]]; to != is {
			if v, ok := knownEnd(n); ok && v == to {
				ends[wrong{is, to}] = "end:" + name
			}
			open = append(open, bad{wrong{is, to}, name, fmt.Sprintf("%s: the %s %q ends at %v, it says %v", path, name, sqlOf(n), is, to), true})
		}
	})
	for _, b := range open {
		key, ok := starts[b.wrong]
		if b.end {
			key, ok = ends[b.wrong]
		}
		if !ok {
			key = map[bool]string{false: "wrong-start:", true: "wrong-end:"}[b.end] + b.name
		}
		t.Fail(key, "%s", b.text)
	}
}

// knownStart is the wrong start that a node of this kind is known to give.
func knownStart(n sqlast.Node) (sqltoken.Pos, bool) {
	switch n := n.(type) {
	case *sqlast.QueryStmt: // WITH is left out
		if len(n.CTEs) > 0 {
			return n.CTEs[0].Pos(), true
		}
	case *sqlast.LimitExpr: // LIMIT is left out
		if n.All {
			return sqltoken.Pos{Line: n.AllPos.Line, Col: n.AllPos.Col - len("ALL")}, true
		}
		return n.LimitValue.Pos(), true
	case *sqlast.ConstructorSource: // VALUES is left out
		return n.Rows[0].Pos(), true
	}
	return sqltoken.Pos{}, false
}

// knownEnd is the wrong end that a node of this kind is known to give.
func knownEnd(n sqlast.Node) (sqltoken.Pos, bool) {
	switch n := n.(type) {
	case *sqlast.CTE: // the closing parenthesis is left out
		return n.Query.End(), true
	case *sqlast.QualifiedWildcardSelectItem: // ".*" is taken to stand right behind the name
		e := n.Prefix.End()
		e.Col += 2
		return e, true
	case *sqlast.CreateTableStmt: // the closing parenthesis is left out
		if len(n.Elements) > 0 && len(n.Options) == 0 {
			return n.Elements[len(n.Elements)-1].End(), true
		}
	}
	return sqltoken.Pos{}, false
}

// runC20: what holds of the extents of any accepted source.
func runC20(t *T) {
	f, src, _ := anyFile(t)
	if f == nil {
		return
	}
	zero := sqltoken.Pos{}
	last := lastPos(src)
	le := func(a, b sqltoken.Pos) bool { return a.Line < b.Line || a.Line == b.Line && a.Col <= b.Col }
	ff, ft := posEnd(t, f)
	if len(f.Stmts) > 0 && (ff == zero || ft == zero) {
		t.Fatal("file", "the file's extent is %v to %v", ff, ft)
	}
	for _, c := range f.Comments {
		if from, to := posEnd(t, c); !le(ff, from) || !le(to, ft) {
			t.Fatal("comments", "a comment group (%v to %v) lies outside the file (%v to %v)", from, to, ff, ft)
		}
	}
	var prev sqlast.Node
	count := 0
	for _, s := range f.Stmts {
		sf, st := posEnd(t, s)
		if sf == zero || st == zero {
			t.Fatal("stmt:"+typeName(s), "the extent of the statement is %v to %v", sf, st)
		}
		if !le(ff, sf) || !le(st, ft) {
			t.Fatal("file", "a statement (%v to %v) lies outside the file (%v to %v)", sf, st, ff, ft)
		}
		if prev != nil && !le(prev.End(), sf) {
			t.Fatal("stmts", "the statement %q begins at %v, before the end of the one before (%v)", sqlOf(s), sf, prev.End())
		}
		prev = s
		var rec func(n sqlast.Node)
		rec = func(n sqlast.Node) {
			count++
			from, to := posEnd(t, n)
			name := typeName(n)
			if from == zero && to == zero {
				if !mayBeEmpty(n) {
					t.Fatal("none:"+name, "the %s %q has no extent", name, sqlOf(n))
				}
			} else {
				if from.Line < 1 || from.Col < 1 || !le(from, to) || from == to && !mayBeEmpty(n) {
					t.Fatal("order:"+name, "the %s %q extends from %v to %v", name, sqlOf(n), from, to)
				}
				if !le(to, last) {
					t.Fatal("source:"+name, "the %s %q ends at %v, behind the end of the source %v", name, sqlOf(n), to, last)
				}
				if !le(sf, from) || !le(to, st) {
					t.Fatal("nest:"+name, "the %s %q (%v to %v) lies outside its statement (%v to %v)", name, sqlOf(n), from, to, sf, st)
				}
			}
			var before sqlast.Node
			field := ""
			for _, c := range children(n) {
				cf, ct := posEnd(t, c.node)
				if cf != zero && from != zero && (!le(from, cf) || !le(ct, to)) {
					t.Fatal("child:"+name+"."+c.field, "the %s %q (%v to %v) lies outside the %s (%v to %v)", typeName(c.node), sqlOf(c.node), cf, ct, name, from, to)
				}
				if before != nil && field == c.field && c.index > 0 && !le(before.End(), cf) {
					t.Fatal("siblings:"+name+"."+c.field, "element %d begins at %v, before the end of the one before (%v)", c.index, cf, before.End())
				}
				before, field = c.node, c.field
				rec(c.node)
			}
		}
		rec(s)
	}
	if count > 8 {
		t.Nontrivial()
	}
}

// mayBeEmpty: nodes that need not be written with any text.
func mayBeEmpty(n sqlast.Node) bool {
	switch n := n.(type) {
	case *sqlast.WindowSpec:
		return len(n.PartitionBy) == 0 && len(n.OrderBy) == 0 && n.WindowsFrame == nil
	case *sqlast.JoinType:
		return n.Condition == sqlast.IMPLICIT
	}
	return false
}

// lastPos is the position behind the source's last character.
func lastPos(src string) sqltoken.Pos {
	l := &layouter{line: 1, col: 1}
	inTok := src
	for _, c := range inTok {
		switch {
		case c == '\n' && l.prevCR:
			l.prevCR = false
			continue
		case c == '\n' || c == '\r':
			l.line++
			l.col = 1
		case c == '\t':
			l.col += 4
		default:
			l.col++
		}
		l.prevCR = c == '\r'
	}
	return l.pos()
}

func init() {
	register(&Prop{
		ID:       "C20",
		Rule:     "the extents of all nodes of the parsed tree of a script (one statement in six damaged and yet accepted) with drawn layout: asking for them does not panic, start comes before end, both lie in the source, in the statement's and in the parent's extent, list elements come one after the other; non-trivial: more than 8 nodes",
		Quick:    300000,
		Thorough: 4000000,
		Run:      runC20,
	})
	register(&Prop{
		ID:       "C21",
		Rule:     "a script of one to three generated statements is laid out over several lines with drawn white space, comments and keyword case; the extent of every node of the parsed trees is compared with the place its tokens were laid out at, and every position recorded in it must be where one of its tokens begins or ends; non-trivial: more than 6 tokens",
		Quick:    300000,
		Thorough: 4000000,
		Run:      runC21,
	})
}
