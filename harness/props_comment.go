package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// commentLayout draws layouts with many comments.
func commentLayout(t *T) layoutOpts {
	return layoutOpts{newlines: true, caseMix: t.Bool(), lead: true, comments: []int{8, 20, 50, 90}[t.N(4)]}
}

// wantGroups computes the comment groups of a source from the reference lexer: the comments between two tokens, where
// those that stand behind a token on its line are a group apart from those on the lines below.
func wantGroups(src string, d *dspec) [][]rtok {
	toks, _ := refLex(src, d)
	var out [][]rtok
	var cur []rtok
	lastLine := -1 // the line the last token ends on
	flush := func() {
		if len(cur) > 0 {
			out = append(out, cur)
		}
		cur = nil
	}
	for _, k := range toks {
		switch {
		case k.kind == sqltoken.Comment:
			cur = append(cur, k)
		case k.kind == sqltoken.Whitespace:
			if strings.ContainsAny(k.raw, "\r\n") && k.from.Line == lastLine {
				flush()
			}
		default:
			flush()
			lastLine = k.to.Line
		}
	}
	flush()
	return out
}

func groupsText(gs [][]rtok) string {
	var sb strings.Builder
	for _, g := range gs {
		sb.WriteString("[")
		for _, c := range g {
			fmt.Fprintf(&sb, "%v-%v %q ", c.from, c.to, c.val)
		}
		sb.WriteString("]\n")
	}
	return sb.String()
}

func gotGroupsText(gs []*sqlast.CommentGroup) string {
	var sb strings.Builder
	for _, g := range gs {
		sb.WriteString("[")
		for _, c := range g.List {
			fmt.Fprintf(&sb, "%v-%v %q ", c.From, c.To, c.Text)
		}
		sb.WriteString("]\n")
	}
	return sb.String()
}

func stmtsPos(ss []sqlast.Stmt) string {
	var sb strings.Builder
	for _, s := range ss {
		sb.WriteString(dumpPos(s) + "\n")
	}
	return sb.String()
}

func runC22(t *T) {
	d := pickDialect(t)
	var toks []gtok
	n := many(t, 3, 2, 1)
	damaged := false
	for i := 0; i < n; i++ {
		t.Begin("one")
		t.fuel = t.size/n + 1
		if i > 0 {
			toks = append(toks, gtok{gPunct, ";"})
		}
		if t.P(1, 5) {
			toks = append(toks, damagedTokens(t, d)...)
			damaged = true
		} else {
			g := newG(t, d)
			g.stmt()
			g.labels()
			toks = append(toks, g.src...)
		}
		t.End()
	}
	if t.P(1, 3) {
		toks = append(toks, gtok{gPunct, ";"})
	}
	lay := layoutTokens(t, d, toks, commentLayout(t))
	t.Input(lay.src)
	f, err := parseFile(lay.src, d, true)
	f0, err0 := parseFile(lay.src, d, false)
	if (err == nil) != (err0 == nil) {
		t.Fatal("accept", "with comments: %v; without: %v", err, err0)
	}
	if err != nil {
		if !damaged {
			t.Label("generated, refused (C05-C08, C12)")
		}
		return
	}
	if a, b := stmtsPos(f0.Stmts), stmtsPos(f.Stmts); a != b {
		t.Fatal("stmts", "collecting comments changes the statements: %s", diffAt(a, b))
	}
	if len(f0.Comments) != 0 {
		t.Fatal("uncalled", "comments are collected though not asked for: %s", gotGroupsText(f0.Comments))
	}
	want := wantGroups(lay.src, d)
	count := 0
	for _, g := range want {
		count += len(g)
	}
	if count >= 3 {
		t.Nontrivial()
	}
	t.Label("comments %d", bucket(count))
	// each comment once, in order, with its text and place
	var flat []*sqlast.Comment
	for _, g := range f.Comments {
		if len(g.List) == 0 {
			t.Fatal("emptygroup", "a comment group is empty")
		}
		flat = append(flat, g.List...)
	}
	for i := 0; i < len(flat) || i < len(lay.comments); i++ {
		if i >= len(flat) {
			t.Fatal("lost", "%d comments, the source has %d; the first that is missing is %q at %v\n%s", len(flat), len(lay.comments), lay.comments[i].text, lay.comments[i].from, gotGroupsText(f.Comments))
		}
		if i >= len(lay.comments) {
			t.Fatal("extra", "comment %q at %v is not (or no more) in the source", flat[i].Text, flat[i].From)
		}
		c, w := flat[i], lay.comments[i]
		if c.From != w.from || c.Text != w.text || c.To != w.to {
			t.Fatal("comment", "comment %d is %q %v-%v, the source has %q %v-%v", i, c.Text, c.From, c.To, w.text, w.from, w.to)
		}
	}
	if a, b := groupsText(want), gotGroupsText(f.Comments); a != b {
		t.Fatal("groups", "the groups are\n%swant\n%s", b, a)
	}
	for i, g := range f.Comments {
		if g.Pos() != want[i][0].from || g.End() != want[i][len(want[i])-1].to {
			t.Fatal("grouppos", "group %d extends from %v to %v", i, g.Pos(), g.End())
		}
	}
}

func bucket(n int) int {
	for _, b := range []int{0, 1, 2, 5, 10, 20, 50, 100} {
		if n <= b {
			return b
		}
	}
	return 1000
}

func init() {
	register(&Prop{
		ID:       "C22",
		Rule:     "a script of one to three generated statements (one in five damaged and yet accepted) is laid out with up to 9 in 10 gaps holding one to three comments of both styles, also before the first and behind the last token; the parsed file's comments are compared with those laid out (text, place, order), the groups with those the reference lexer's tokens give, the statements with those of a parse without comments; non-trivial: accepted and at least 3 comments",
		Quick:    130000,
		Thorough: 2500000,
		Run:      runC22,
	})
}

// checkConserved builds the comment map of a file: each group under exactly one node of the file.
func checkConserved(t *T, f *sqlast.File) map[*sqlast.CommentGroup]sqlast.Node {
	before := dumpPos(f)
	m := sqlast.NewCommentMap(f)
	if after := dumpPos(f); before != after {
		t.Fatal("changed", "building the comment map changes the file: %s", diffAt(before, after))
	}
	inFile := map[sqlast.Node]bool{}
	for _, n := range treeNodes(f) {
		inFile[n] = true
	}
	at := map[*sqlast.CommentGroup]sqlast.Node{}
	for n, gs := range m {
		if isNilNode(n) {
			t.Fatal("nilnode", "a nil node has comments")
		}
		if !inFile[n] {
			t.Fatal("foreign", "a %s that is not in the file has comments", typeName(n))
		}
		if len(gs) == 0 {
			t.Fatal("emptylist", "a %s has an empty list of comments", typeName(n))
		}
		for i, g := range gs {
			if o, dup := at[g]; dup {
				t.Fatal("twice", "the group %q is assigned to a %s and a %s", g.ToSQLString(), typeName(o), typeName(n))
			}
			at[g] = n
			if i > 0 && comparePos(gs[i-1].Pos(), g.Pos()) != -1 {
				t.Fatal("listorder", "the groups of a %s are not in source order", typeName(n))
			}
		}
	}
	for _, g := range f.Comments {
		if _, ok := at[g]; !ok {
			t.Fatal("lost", "the group %q at %v is assigned to no node", g.ToSQLString(), g.Pos())
		}
		delete(inFile, at[g])
	}
	if len(at) != len(f.Comments) {
		t.Fatal("invented", "%d groups are assigned, the file has %d", len(at), len(f.Comments))
	}
	// building it again gives the same
	m2 := sqlast.NewCommentMap(f)
	if len(m2) != len(m) {
		t.Fatal("unstable", "building the map again gives another one")
	}
	for n, gs := range m {
		g2 := m2[n]
		if len(g2) != len(gs) {
			t.Fatal("unstable", "building the map again gives another one")
		}
		for i := range gs {
			if gs[i] != g2[i] {
				t.Fatal("unstable", "building the map again gives another one")
			}
		}
	}
	if t.P(1, 3) {
		// other statements that say the same, put into the file
		where := func(m sqlast.CommentMap) string {
			var sb strings.Builder
			fmt.Fprint(&sb, len(m))
			for i, n := range treeNodes(f) {
				for _, g := range m[n] {
					fmt.Fprintf(&sb, " %d:%v", i, g.Pos())
				}
			}
			return sb.String()
		}
		want, old := where(m), f.Stmts
		f.Stmts = fresh(reflect.ValueOf(f.Stmts)).Interface().([]sqlast.Stmt)
		if got := where(sqlast.NewCommentMap(f)); got != want {
			t.Fatal("replaced", "with its statements replaced by copies the file's map is another one: %s", diffAt(want, got))
		}
		f.Stmts = old
	}
	return at
}

// unit is a statement or table element that stands on lines of its own.
type unit struct {
	name        string
	first, last int // tokens
	index, elem int // statement, table element (-1: the statement itself)
	stmtLast    int
	above       []int // indices of the comments directly above it
	behind      []int // indices of the comments behind it on its last line
	below       []int // indices of the comments directly below it, an empty line or nothing behind them
}

// lastCode is the token a unit can end with, at or before a separator that ends the list of the first n tokens.
func lastCode(toks []gtok, ends map[int]*unit, n int) int {
	i := n - 1
	if i > 0 && ends[i] == nil && (toks[i].text == "," || toks[i].text == ";") {
		i--
	}
	return i
}

func runC23(t *T) {
	d := pickDialect(t)
	if t.P(1, 3) {
		// any layout: nothing is lost
		var toks []gtok
		for i, n := 0, t.Weighted(3, 2, 1)+1; i < n; i++ {
			t.Begin("one")
			t.fuel = t.size/n + 1
			if i > 0 {
				toks = append(toks, gtok{gPunct, ";"})
			}
			if t.P(1, 5) {
				toks = append(toks, damagedTokens(t, d)...)
			} else {
				g := newG(t, d)
				g.stmt()
				toks = append(toks, g.src...)
			}
			t.End()
		}
		if t.P(1, 8) {
			toks = nil
		}
		lay := layoutTokens(t, d, toks, commentLayout(t))
		t.Input(lay.src)
		f, err := parseFile(lay.src, d, true)
		if err != nil {
			return
		}
		if len(f.Comments) >= 3 {
			t.Nontrivial()
		}
		t.Label("any layout")
		if len(f.Comments) == 0 {
			if m := sqlast.NewCommentMap(f); len(m) != 0 {
				t.Fatal("invented", "a file without comments has a comment map with %d nodes", len(m))
			}
			return
		}
		checkConserved(t, f)
		return
	}
	// statements and table elements on lines of their own, comments above and behind them
	var units []*unit
	var toks []gtok
	var stmts []sqlast.Stmt
	breakBefore := map[int]bool{}
	starts := map[int]*unit{}
	ends := map[int]*unit{}
	n := many(t, 3, 3, 2, 1)
	for i := 0; i < n; i++ {
		t.Begin("one")
		t.fuel = t.size/n + 1
		g := newG(t, d)
		var s sqlast.Stmt
		if t.P(2, 5) {
			s = g.createTable()
		} else {
			s = g.stmt()
		}
		g.labels()
		t.End()
		at := len(toks)
		stmts = append(stmts, s)
		u := &unit{name: typeName(s), first: at, last: at + len(g.src) - 1, index: i, elem: -1}
		u.stmtLast = u.last
		units = append(units, u)
		breakBefore[u.first] = true
		starts[u.first], ends[u.last] = u, u
		if ct, ok := s.(*sqlast.CreateTableStmt); ok && t.P(4, 5) {
			for k, e := range ct.Elements {
				sp := g.spans[e]
				eu := &unit{name: typeName(e), first: at + sp[0], last: at + sp[1], index: i, elem: k, stmtLast: u.last}
				units = append(units, eu)
				breakBefore[eu.first] = true
				if k == len(ct.Elements)-1 {
					breakBefore[eu.last+1] = true
				}
				starts[eu.first], ends[eu.last] = eu, eu
			}
		}
		toks = append(toks, g.src...)
		if i < n-1 || t.Bool() {
			toks = append(toks, gtok{gPunct, ";"})
		}
	}
	lay := &laid{d: d}
	l := &layouter{line: 1, col: 1}
	commentCount := 0
	one := func(block, multi bool) int {
		text := t.Pick("c", " note ", "", "it's", " SELECT 1; ")
		if t.P(1, 8) {
			text = commentText(t, false)
		}
		from := l.pos()
		if block {
			text = strings.ReplaceAll(text, "*/", "* /")
			if multi && t.P(1, 4) {
				text += "\n more"
			}
			l.write("/*"+text+"*/", false)
		} else {
			l.write("--"+text, false)
		}
		lay.comments = append(lay.comments, gcomment{text, block, from, l.pos(), 0})
		commentCount++
		return commentCount - 1
	}
	rate := t.Range(1, 6)
	for i, tok := range toks {
		if breakBefore[i] {
			if i > 0 {
				l.write("\n", true)
			}
			below := false
			if u := ends[lastCode(toks, ends, i)]; i > 0 && u != nil && lay.to[i-1].Line == l.line-1 && lay.to[u.last].Line == l.line-1 && t.P(rate, 24) {
				// directly below a unit, an empty line before what follows
				below = true
				for k := t.Weighted(3, 1) + 1; k > 0; k-- {
					l.write(strings.Repeat(" ", t.N(3)), true)
					u.below = append(u.below, one(t.Bool(), true))
					l.write("\n", true)
				}
				l.write(t.Pick("\n", " \n", "\n\n"), true)
			} else if t.P(1, 4) {
				l.write("\n", true) // an empty line
				if t.P(1, 60) {
					l.write(strings.Repeat(t.Pick("\n", " \n", "\t", " "), bigSize(t)), true)
					t.Label("layout: far")
				}
			}
			if u := starts[i]; u != nil && !below && t.P(rate, 8) {
				for k := t.Weighted(3, 1) + 1; k > 0; k-- {
					l.write(strings.Repeat(" ", t.N(3)), true)
					u.above = append(u.above, one(t.Bool(), true))
					l.write("\n", true)
				}
			}
			l.write(strings.Repeat(" ", t.N(3)), true)
		} else if i > 0 {
			if (tok.text == "," || tok.text == ";") && t.Bool() && !needSep(d, toks[i-1], tok) {
				// nothing
			} else {
				l.write(" ", true)
			}
		}
		lay.from = append(lay.from, l.pos())
		l.write(tok.text, false)
		lay.to = append(lay.to, l.pos())
		// behind the unit that ends here, or behind the comma or semicolon that follows it
		lineEnd := i+1 == len(toks) || breakBefore[i+1]
		if !lineEnd {
			continue
		}
		u := ends[i]
		if u == nil && i > 0 && (tok.text == "," || tok.text == ";") && lay.to[i-1].Line == l.line {
			u = ends[i-1]
		}
		if u != nil && t.P(rate, 8) {
			l.write(t.Pick(" ", "  "), true)
			block := t.Bool()
			u.behind = append(u.behind, one(block, false))
			if block && l.line == lay.to[i].Line && t.P(1, 4) {
				l.write(" ", true)
				u.behind = append(u.behind, one(false, false))
			}
		}
	}
	if t.Bool() {
		l.write("\n", true)
		if u := ends[lastCode(toks, ends, len(toks))]; u != nil && lay.to[u.last].Line == l.line-1 && t.P(rate, 8) {
			for k := t.Weighted(3, 1) + 1; k > 0; k-- {
				u.below = append(u.below, one(t.Bool(), true))
				l.write("\n", true)
			}
		}
	}
	lay.src = l.sb.String()
	t.Input(lay.src)
	f, err := parseFile(lay.src, d, true)
	if err != nil || stmtsDump(f.Stmts) != stmtsDump(stmts) {
		t.Label("other tree (C05-C08, C12)")
		return
	}
	if len(f.Comments) == 0 {
		return
	}
	if len(f.Comments) >= 3 {
		t.Nontrivial()
	}
	t.Label("lines")
	owner := checkConserved(t, f)
	byPos := map[sqltoken.Pos]sqlast.Node{}
	for g, n := range owner {
		for _, c := range g.List {
			byPos[c.From] = n
		}
	}
	within := func(n, root sqlast.Node) bool {
		for _, x := range treeNodes(root) {
			if x == n {
				return true
			}
		}
		return false
	}
	for _, u := range units {
		stmt := f.Stmts[u.index]
		node := sqlast.Node(stmt)
		if u.elem >= 0 {
			node = stmt.(*sqlast.CreateTableStmt).Elements[u.elem]
		}
		for _, k := range u.above {
			c := lay.comments[k]
			n := byPos[c.from]
			if n == nil {
				t.Label("comment lost (C22)")
				return
			}
			if n != node && !(within(n, node) && n.Pos() == lay.from[u.first]) {
				t.Fail("above:"+u.name, "the comment %q at %v stands directly above the %s at %v and is assigned to the %s %q at %v", c.text, c.from, u.name, lay.from[u.first], typeName(n), sqlOf(n), n.Pos())
			}
		}
		for j, k := range append(append([]int(nil), u.behind...), u.below...) {
			where := "behind"
			if j >= len(u.behind) {
				where = "below"
			}
			c := lay.comments[k]
			line := lay.to[u.last].Line
			n := byPos[c.from]
			if n == nil {
				t.Label("comment lost (C22)")
				return
			}
			if n == node || within(n, node) && n.End().Line == line && n.End() != (sqltoken.Pos{}) && comparePos(n.End(), c.from) != 1 {
				continue
			}
			if n == sqlast.Node(f) && lay.to[len(toks)-1].Line == line {
				continue // the file ends on this line
			}
			if n == stmt && lay.to[u.stmtLast].Line == line {
				continue // the statement ends on this line
			}
			key := where + ":"
			if ct, ok := stmt.(*sqlast.CreateTableStmt); ok && len(ct.Options) == 0 && len(ct.Elements) > 0 {
				// the statement's end is known to be that of its last element (C21): a comment behind that element goes to
				// the statement, one behind the closing parenthesis on a line of its own to what comes next
				if n == stmt && u.elem == len(ct.Elements)-1 || node == stmt && ct.End().Line < lay.to[u.last].Line {
					key = "table-end:"
				}
			}
			t.Fail(key+u.name, "the comment %q at %v stands %s the %s that ends at %v and is assigned to the %s %q that ends at %v", c.text, c.from, where, u.name, lay.to[u.last], typeName(n), sqlOf(n), n.End())
		}
	}
}

func init() {
	register(&Prop{
		ID:       "C23",
		Rule:     "two thirds of the cases: a script whose statements and table elements stand on lines of their own, with drawn comments on the lines above them, behind them and (an empty line or nothing following) below them, each of which must be assigned to a node that begins where the statement or element does, or ends on the line it ends on; the others: any script (damaged and accepted ones too) in any layout full of comments; in all, every group is under exactly one node of the file, and the map is the same when it is built again, and for copies of the statements put into the file; non-trivial: at least 3 comment groups",
		Quick:    180000,
		Thorough: 2500000,
		Run:      runC23,
	})
}
