package main

import (
	"fmt"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// fileDump is the outcome of parsing a source: its statements without positions, or that it is refused.
func fileDump(src string, d *dspec, comments bool) (string, error) {
	f, err := parseFile(src, d, comments)
	if err != nil {
		return "refused", err
	}
	return stmtsDump(f.Stmts), nil
}

func stmtsDump(ss []sqlast.Stmt) string {
	var sb strings.Builder
	for _, s := range ss {
		sb.WriteString(dump(s))
		sb.WriteString("\n")
	}
	return sb.String()
}

func init() {
	register(&Prop{
		ID:       "C11",
		Rule:     "one token list (a generated statement or script, one in three damaged) is laid out several times with independently drawn white space, line breaks, comments and keyword case (case only for undamaged lists); all layouts must give the same statements, or all be refused, with and without comment collection; non-trivial: more than 6 tokens and the layouts differ",
		Quick:    130000,
		Thorough: 3000000,
		Run: func(t *T) {
			d := pickDialect(t)
			damaged := t.P(1, 3)
			var toks []gtok
			if damaged {
				toks = damagedTokens(t, d)
			} else {
				g := newG(t, d)
				g.stmt()
				toks = g.src
				g.labels()
			}
			if t.P(1, 5) {
				t.fuel = t.size / 2
				g := newG(t, d)
				g.stmt()
				toks = append(append(append([]gtok(nil), toks...), gtok{gPunct, ";"}), g.src...)
			}
			base := layoutTokensSimple(d, toks).src
			t.Input(base)
			want, err := fileDump(base, d, false)
			if err == nil && damaged {
				t.Label("damaged, accepted")
			}
			for k := 0; k < 3; k++ {
				var o layoutOpts
				switch t.N(4) {
				case 0:
					o = layoutOpts{minimal: true}
				case 1:
					o = layoutOpts{newlines: true, lead: true}
				case 2:
					o = layoutOpts{newlines: true, lead: true, comments: 20}
				case 3:
					o = layoutOpts{newlines: true, lead: true, comments: 100}
				}
				o.caseMix = !damaged
				lay := layoutTokens(t, d, toks, o)
				if lay.src != base && len(toks) > 6 {
					t.Nontrivial()
				}
				t.note = "other layout: " + fmt.Sprintf("%q", lay.src)
				for _, comments := range []bool{false, true} {
					got, err2 := fileDump(lay.src, d, comments)
					if got != want {
						t.Input(fmt.Sprintf("%s: %q\nagainst %q", d.name, lay.src, base))
						t.Fatal("layout", "comments collected: %v; the layouts give different results (%v, %v): %s", comments, err, err2, diffAt(want, got))
					}
				}
			}
		},
	})
	register(&Prop{
		ID:       "C12",
		Rule:     "one to six generated statements joined by semicolons in a drawn layout, with or without a final semicolon and leading comments; the statements must be those each source denotes, in order, with and without comment collection, and the printed file must parse to them again; a script in which two statements lack their separator, or a statement is followed by something that cannot continue it, must be refused; non-trivial: at least two statements",
		Quick:    120000,
		Thorough: 2000000,
		Run:      runC12,
	})
	register(&Prop{
		ID:       "C13",
		Rule:     "statements of every kind whose names are mostly delimited and spell keywords or hold odd characters (every quote character of the dialect), compared with the denoted tree, printed and parsed again; and the same statement with all those names replaced by plain ones, which must give the same tree up to the names; non-trivial: at least two delimited names",
		Quick:    160000,
		Thorough: 4000000,
		Run:      runC13,
	})
	register(&Prop{
		ID:       "C25",
		Rule:     "one generated source through every entry point: text against pre-computed tokens (with and without white space and comments, through NewTokenizerWithOptions; the same list twice, unchanged), ParseFile against ParseSQL against repeated ParseStatement; a generated expression and a generated type by themselves against the same inside a statement; lists of expressions, statements and types through successive calls on one parser; half of the sources are damaged and must give the same result, error or not; non-trivial: more than 6 tokens",
		Quick:    200000,
		Thorough: 2500000,
		Run:      runC25,
	})
}

// reservedHead tells whether a statement's first word can not be taken for the continuation (an alias) of a statement
// before it.
func reservedHead(toks []gtok) bool {
	return len(toks) > 0 && toks[0].kind == gKeyword && (toks[0].text == "SELECT" || toks[0].text == "WITH")
}

func runC12(t *T) {
	d := pickDialect(t)
	n := many(t, 1, 1, 1, 1, 1, 1)
	var toks []gtok
	var want []sqlast.Stmt
	var parts [][]gtok
	rep := repeats{t: t}
	for i := 0; i < n; i++ {
		t.Begin("one")
		t.fuel = t.size/n + 1
		rep.next()
		g := newG(t, d)
		g.o.tricky = t.P(1, 4)
		want = append(want, g.stmt())
		parts = append(parts, g.src)
		t.End()
	}
	rep.done()
	sep := gtok{gPunct, ";"}
	for i, p := range parts {
		if i > 0 {
			toks = append(toks, sep)
		}
		toks = append(toks, p...)
	}
	if t.Bool() {
		toks = append(toks, sep)
	}
	lay := layoutTokens(t, d, toks, anyLayout(t))
	t.Input(lay.src)
	if n > 1 {
		t.Nontrivial()
	}
	t.Label("statements %d", n)
	wd := stmtsDump(want)
	for _, comments := range []bool{false, true} {
		f, err := parseFile(lay.src, d, comments)
		if err != nil {
			t.Fatal("rejected", "comments %v: %v", comments, err)
		}
		if gd := stmtsDump(f.Stmts); gd != wd {
			t.Fatal("stmts", "comments %v: %s", comments, diffAt(wd, gd))
		}
		var sb strings.Builder
		f.WriteTo(&sb)
		t.note = "printed: " + sb.String()
		f2, err := parseFile(sb.String(), d, comments)
		if err != nil {
			t.Fatal("reprint", "the printed file is refused: %q: %v", sb.String(), err)
		}
		if gd := stmtsDump(f2.Stmts); gd != wd {
			t.Fatal("reprint", "the printed file %q gives other statements: %s", sb.String(), diffAt(wd, gd))
		}
		if s := sqlOf(f); s != sb.String() {
			t.Fatal("reprint", "WriteTo %q, ToSQLString %q", sb.String(), s)
		}
	}
	// what must be refused
	if t.P(1, 2) && n > 1 {
		i := t.Range(1, n-1)
		if n > 100 && t.Bool() {
			i = n - 1 // a long script may be special where it has become long
		}
		if reservedHead(parts[i]) {
			var bad []gtok
			for k, p := range parts {
				if k > 0 && k != i {
					bad = append(bad, sep)
				}
				bad = append(bad, p...)
			}
			// INSERT INTO t (c) SELECT ... : not two statements; the one before must be complete, which it is, and
			// WITH may begin a hint of a table only together with a parenthesis
			src := layoutTokens(t, d, bad, anyLayout(t)).src
			t.Label("missing separator")
			if f, err := parseFile(src, d, t.Bool()); err == nil {
				t.Input(src)
				t.Fatal("separator", "statement %d follows the one before without a separator, and the script is accepted as %d statements", i, len(f.Stmts))
			}
		}
	}
	if t.P(1, 2) {
		i := t.N(n)
		over := []gtok{{gPunct, ")"}, {gNumber, "1"}, {gString, "'x'"}, {gPunct, "="}, {gPunct, ","}, {gPunct, "}"}, {gPunct, ":"}, {gPunct, "?"}, {gKeyword, "WHEN"}, {gKeyword, "THEN"}}
		o := over[t.N(len(over))]
		var bad []gtok
		for k, p := range parts {
			if k > 0 {
				bad = append(bad, sep)
			}
			bad = append(bad, p...)
			if k == i {
				bad = append(bad, o)
				if o.kind == gKeyword {
					// one word may be an alias, two can not
					bad = append(bad, o, o)
				}
			}
		}
		src := layoutTokens(t, d, bad, anyLayout(t)).src
		t.Label("leftover")
		if f, err := parseFile(src, d, t.Bool()); err == nil {
			t.Input(src)
			t.Fatal("leftover", "%q after statement %d is accepted: %s", o.text, i, stmtsDump(f.Stmts))
		}
	}
}

func runC13(t *T) {
	d := pickDialect(t)
	g := newG(t, d)
	g.o.tricky = true
	g.o.quoted = 80
	want := g.stmt()
	lay := layoutTokens(t, d, g.src, anyLayout(t))
	t.Input(lay.src)
	var names []string
	plain := append([]gtok(nil), g.src...)
	for i, k := range g.src {
		if k.kind == gQuoted {
			names = append(names, k.text)
			plain[i] = gtok{gIdent, fmt.Sprintf("q%d", i)}
		}
	}
	if len(names) >= 2 {
		t.Nontrivial()
	}
	got := checkTree(t, g, lay, want)
	// each name is in the tree, spelled as in the source, in order of the source tokens
	count := map[string]int{}
	for _, n := range names {
		count[n]++
	}
	for _, n := range nodes(got) {
		if id, ok := n.(*sqlast.Ident); ok && count[id.Value] > 0 {
			count[id.Value]--
		}
	}
	for n, c := range count {
		if c > 0 {
			t.Fatal("lost", "the name %s is missing %d times in the tree", n, c)
		}
	}
	text := sqlOf(got)
	t.note = "printed: " + text
	toks, _ := refLex(text, d)
	have := map[string]int{}
	for _, r := range toks {
		have[r.raw]++
	}
	for _, n := range names {
		if have[n] == 0 {
			t.Fatal("printed", "the name %s is not in the printed text %q", n, text)
		}
		have[n]--
	}
	again, err := parseOne(text, d)
	if err != nil || dump(again) != dump(got) {
		t.Fatal("roundtrip", "printed as %q, which gives another tree or is refused (%v)", text, err)
	}
	// the plain twin has the same shape
	pl := layoutTokensSimple(d, plain).src
	twin, err := parseOne(pl, d)
	if err != nil {
		t.Fatal("twin", "with plain names the statement is refused: %q: %v", pl, err)
	}
	i := map[string]string{}
	for k, tok := range g.src {
		if tok.kind == gQuoted {
			i[plain[k].text] = tok.text
		}
	}
	for _, n := range nodes(twin) {
		if id, ok := n.(*sqlast.Ident); ok {
			if q, ok := i[id.Value]; ok {
				id.Value = q
			}
		}
	}
	if a, b := dump(got), dump(twin); a != b {
		t.Fatal("twin", "with plain names the statement has another shape: %s", diffAt(b, a))
	}
}

func tokensOf(src string, d *dspec, mode int) ([]*sqltoken.Token, error) {
	var opts = []sqltoken.TokenizerOption{sqltoken.Dialect(d.d)}
	if mode == 1 {
		opts = append(opts, sqltoken.DisableParseComment())
	}
	toks, err := sqltoken.NewTokenizerWithOptions(strings.NewReader(src), opts...).Tokenize()
	if mode == 2 {
		var out []*sqltoken.Token
		for _, t := range toks {
			if t.Kind != sqltoken.Comment {
				out = append(out, t)
			}
		}
		toks = out
	}
	return toks, err
}

func parserOfTokens(toks []*sqltoken.Token, comments bool) *xsqlparser.Parser {
	var p *xsqlparser.Parser
	if comments {
		p = xsqlparser.NewParserWithOptions(xsqlparser.ParseComment())
	} else {
		p = xsqlparser.NewParserWithOptions()
	}
	p.SetTokens(toks)
	return p
}

func runC25(t *T) {
	d := pickDialect(t)
	switch t.Weighted(4, 2, 2, 1) {
	case 0:
		entrySource(t, d)
	case 1:
		entryExpr(t, d)
	case 2:
		entryStmts(t, d)
	case 3:
		entryTypes(t, d)
	}
}

func entrySource(t *T, d *dspec) {
	var toks []gtok
	if t.Bool() {
		toks = damagedTokens(t, d)
	} else {
		g := newG(t, d)
		g.stmt()
		toks = g.src
		g.labels()
	}
	if len(toks) > 6 {
		t.Nontrivial()
	}
	if n := len(toks); n > 0 && t.P(1, 12) {
		t.Label("many tokens")
		for k := t.Range(100, 1500) / n; k > 0; k-- {
			toks = append(append(toks, gtok{gPunct, ";"}), toks[:n]...)
		}
	}
	lay := layoutTokens(t, d, toks, anyLayout(t))
	t.Input(lay.src)
	comments := t.Bool()
	res := func(p *xsqlparser.Parser, err error) string {
		if err != nil {
			return "new: " + err.Error()
		}
		f, err := p.ParseFile()
		if err != nil {
			return "error"
		}
		s := ""
		for _, x := range f.Stmts {
			s += dumpPos(x) + "\n"
		}
		return s
	}
	p, err := newParser(lay.src, d, comments)
	want := res(p, err)
	if err == nil && want != "error" {
		t.Label("accepted")
	}
	for mode := 0; mode < 3; mode++ {
		ts, err := tokensOf(lay.src, d, mode)
		if err != nil {
			continue
		}
		again := t.P(1, 2)
		var was []*sqltoken.Token
		text := ""
		if again {
			was, text = append(was, ts...), tokensText(ts)
		}
		if got := res(parserOfTokens(ts, comments), nil); got != want {
			t.Fatal("tokens", "parsing tokens (mode %d, comments %v) gives another result than parsing the text: %s", mode, comments, diffAt(want, got))
		}
		if !again {
			continue
		}
		for i := range was {
			if was[i] != ts[i] {
				t.Fatal("tokens changed", "parsing changes token %d of the list", i)
			}
		}
		if now := tokensText(ts); now != text {
			t.Fatal("tokens changed", "parsing changes the tokens: %s", diffAt(text, now))
		}
		if got := res(parserOfTokens(ts, comments), nil); got != want {
			t.Fatal("tokens", "parsing the same tokens again (mode %d, comments %v) gives another result: %s", mode, comments, diffAt(want, got))
		}
	}
	if p, err = newParser(lay.src, d, comments); err != nil {
		return
	}
	stmts, err := p.ParseSQL()
	got := "error"
	if err == nil {
		got = ""
		for _, x := range stmts {
			got += dumpPos(x) + "\n"
		}
	}
	if got != want {
		t.Fatal("ParseSQL", "ParseSQL (%v) and ParseFile differ: %s", err, diffAt(want, got))
	}
	if len(toks) > 0 && toks[0].text == ";" {
		return // a script may begin with a semicolon, a statement does not
	}
	// a single statement
	p, _ = newParser(lay.src, d, comments)
	s, err := p.ParseStatement()
	if len(stmts) == 1 {
		if err != nil {
			t.Fatal("ParseStatement", "ParseFile accepts the source, ParseStatement says %v", err)
		}
		if dumpPos(s)+"\n" != want {
			t.Fatal("ParseStatement", "ParseStatement and ParseFile differ: %s", diffAt(want, dumpPos(s)))
		}
	} else if len(stmts) > 1 && (err != nil || dumpPos(s) != dumpPos(stmts[0])) {
		t.Fatal("ParseStatement", "ParseStatement (%v) does not give the first statement of ParseFile", err)
	}
}

// entryExpr: expressions by themselves.
func entryExpr(t *T, d *dspec) {
	n := many(t, 1, 1, 1, 1)
	var all []gtok
	var want []sqlast.Node
	for i := 0; i < n; i++ {
		t.Begin("one")
		t.fuel = t.size/n + 1
		g := newG(t, d)
		g.o.tricky = t.P(1, 4)
		e := g.expr()
		g.labels()
		t.End()
		if i > 0 {
			// it must not continue the one before
			if k := g.src[0].kind; k != gNumber && k != gIdent && k != gQuoted && k != gString && k != gNString {
				continue
			}
		}
		want = append(want, e)
		all = append(all, g.src...)
		if i == 0 {
			// inside a statement
			src := layoutTokens(t, d, append([]gtok{{gKeyword, "SELECT"}}, g.src...), anyLayout(t)).src
			s, err := parseOne(src, d)
			if err == nil {
				if q, ok := s.(*sqlast.QueryStmt); ok {
					if sel, ok := q.Body.(*sqlast.SQLSelect); ok && len(sel.Projection) == 1 {
						if it, ok := sel.Projection[0].(*sqlast.UnnamedSelectItem); ok && dump(it.Node) != dump(e) {
							t.Input(src)
							t.Fatal("expr in statement", "%s", diffAt(dump(e), dump(it.Node)))
						}
					}
				}
			}
		}
	}
	lay := layoutTokens(t, d, all, anyLayout(t))
	t.Input(lay.src)
	if len(all) > 6 {
		t.Nontrivial()
	}
	t.Label("expressions %d", len(want))
	comments := t.Bool()
	var p *xsqlparser.Parser
	if t.Bool() {
		var err error
		p, err = newParser(lay.src, d, comments)
		if err != nil {
			t.Fatal("expr", "%v", err)
		}
	} else {
		ts, err := tokensOf(lay.src, d, t.N(3))
		if err != nil {
			t.Fatal("expr", "%v", err)
		}
		p = parserOfTokens(ts, comments)
	}
	for i, w := range want {
		e, err := p.ParseExpr()
		if err != nil {
			t.Fatal("expr", "ParseExpr call %d: %v", i, err)
		}
		if a, b := dump(w), dump(e); a != b {
			t.Fatal("expr", "ParseExpr call %d: %s", i, diffAt(a, b))
		}
	}
	if e, err := p.ParseExpr(); err == nil {
		t.Fatal("expr", "ParseExpr gives %s after the end", dump(e))
	}
}

func entryStmts(t *T, d *dspec) {
	n := many(t, 1, 1, 1, 1)
	var all []gtok
	var want []sqlast.Stmt
	for i := 0; i < n; i++ {
		t.Begin("one")
		t.fuel = t.size/n + 1
		g := newG(t, d)
		s := g.stmt()
		g.labels()
		t.End()
		if i > 0 && !reservedHead(g.src) {
			continue
		}
		if k := len(all); k > 0 && g.src[0].text == "WITH" && (all[k-1].text == "TIME" || all[k-1].text == "TIMESTAMP") {
			continue // WITH [TIME ZONE]
		}
		if i > 0 && endsInTable(want[len(want)-1]) {
			// what follows a table definition is taken for its options
			continue
		}
		want = append(want, s)
		all = append(all, g.src...)
	}
	lay := layoutTokens(t, d, all, anyLayout(t))
	t.Input(lay.src)
	t.Label("statements %d", len(want))
	if len(all) > 6 {
		t.Nontrivial()
	}
	p, err := newParser(lay.src, d, t.Bool())
	if err != nil {
		t.Fatal("stmt", "%v", err)
	}
	for i, w := range want {
		s, err := p.ParseStatement()
		if err != nil {
			t.Fatal("stmt", "ParseStatement call %d: %v", i, err)
		}
		if a, b := dump(w), dump(s); a != b {
			t.Fatal("stmt", "ParseStatement call %d: %s", i, diffAt(a, b))
		}
	}
	if s, err := p.ParseStatement(); err != xsqlparser.EOF {
		t.Fatal("stmt", "ParseStatement gives %v, %v after the end, not EOF", s, err)
	}
}

func entryTypes(t *T, d *dspec) {
	n := many(t, 1, 1, 1, 1)
	var all []gtok
	var want []sqlast.Type
	for i := 0; i < n; i++ {
		t.Begin("one")
		g := newG(t, d)
		ty := g.dataType()
		g.labels()
		t.End()
		if i == 0 {
			src := layoutTokens(t, d, append(append([]gtok{{gKeyword, "SELECT"}, {gKeyword, "CAST"}, {gPunct, "("}, {gIdent, "a"}, {gKeyword, "AS"}}, g.src...), gtok{gPunct, ")"}), anyLayout(t)).src
			t.Input(src)
			s, err := parseOne(src, d)
			if err != nil {
				t.Fatal("type", "refused in CAST: %v", err)
			}
			c := s.(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Projection[0].(*sqlast.UnnamedSelectItem).Node.(*sqlast.Cast)
			if a, b := dump(ty), dump(c.DataType); a != b {
				t.Fatal("type", "in CAST: %s", diffAt(a, b))
			}
		}
		want = append(want, ty)
		all = append(all, g.src...)
	}
	lay := layoutTokens(t, d, all, anyLayout(t))
	t.Input(lay.src)
	if len(all) > 3 {
		t.Nontrivial()
	}
	p, err := newParser(lay.src, d, t.Bool())
	if err != nil {
		t.Fatal("type", "%v", err)
	}
	for i, w := range want {
		ty, err := p.ParseDataType()
		if err != nil {
			t.Fatal("type", "ParseDataType call %d: %v", i, err)
		}
		if a, b := dump(w), dump(ty); a != b {
			t.Fatal("type", "ParseDataType call %d: %s", i, diffAt(a, b))
		}
	}
}

func endsInTable(s sqlast.Stmt) bool {
	for {
		e, ok := s.(*sqlast.ExplainStmt)
		if !ok {
			break
		}
		s = e.Stmt
	}
	_, ok := s.(*sqlast.CreateTableStmt)
	return ok
}
