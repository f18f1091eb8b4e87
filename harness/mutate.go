package main

import "strings"

// Damage to token lists: what comes out is mostly, but not always, refused by the parser.

var soupTokens = []gtok{
	{gPunct, "("}, {gPunct, ")"}, {gPunct, ","}, {gPunct, "."}, {gPunct, "*"}, {gPunct, "="}, {gPunct, "+"}, {gPunct, "-"}, {gPunct, "/"},
	{gPunct, "%"}, {gPunct, "<"}, {gPunct, "<="}, {gPunct, "<>"}, {gPunct, "!="}, {gPunct, ">"}, {gPunct, "::"}, {gPunct, ":"}, {gPunct, ";"},
	{gPunct, "["}, {gPunct, "]"}, {gPunct, "{"}, {gPunct, "&"}, {gPunct, "\\"}, {gPunct, "?"},
	{gNumber, "1"}, {gNumber, "0"}, {gNumber, "1.5"}, {gNumber, "1."}, {gNumber, "99999999999999999999"}, {gNumber, "1.2.3"},
	{gString, "'s'"}, {gString, "''"}, {gNString, "N'n'"}, {gIdent, "a"}, {gIdent, "b"}, {gIdent, "t"}, {gIdent, "x1"},
}

var soupWords = []string{
	"SELECT", "FROM", "WHERE", "GROUP", "BY", "ORDER", "HAVING", "LIMIT", "OFFSET", "ALL", "DISTINCT", "AS", "UNION", "EXCEPT", "INTERSECT", "WITH", "RECURSIVE",
	"JOIN", "INNER", "LEFT", "RIGHT", "FULL", "OUTER", "CROSS", "NATURAL", "ON", "USING", "LATERAL",
	"AND", "OR", "NOT", "IN", "IS", "NULL", "BETWEEN", "LIKE", "EXISTS", "CASE", "WHEN", "THEN", "ELSE", "END", "CAST", "TRUE", "FALSE",
	"OVER", "PARTITION", "ROWS", "RANGE", "GROUPS", "UNBOUNDED", "PRECEDING", "FOLLOWING", "CURRENT", "ROW", "ASC", "DESC",
	"INSERT", "INTO", "VALUES", "DUPLICATE", "KEY", "UPDATE", "SET", "DELETE",
	"CREATE", "TABLE", "IF", "VIEW", "MATERIALIZED", "INDEX", "UNIQUE", "PRIMARY", "FOREIGN", "REFERENCES", "CHECK", "CONSTRAINT", "DEFAULT", "AUTO_INCREMENT", "ENGINE", "CHARSET",
	"ALTER", "ADD", "DROP", "COLUMN", "TYPE", "CASCADE", "RESTRICT", "EXPLAIN", "COPY", "STDIN", "EXTERNAL", "LOCATION", "STORED",
	"INT", "INTEGER", "BIGINT", "SMALLINT", "CHAR", "CHARACTER", "VARCHAR", "VARYING", "NUMERIC", "DECIMAL", "FLOAT", "REAL", "DOUBLE", "PRECISION", "BOOLEAN", "UUID", "DATE", "TIME", "TIMESTAMP", "ZONE", "WITHOUT", "TEXT", "BYTEA", "REGCLASS", "UNSIGNED", "ARRAY", "CLOB", "BLOB", "BINARY", "VARBINARY", "INTERVAL", "EXTRACT", "FETCH", "WINDOW", "RETURNING",
}

func soupTok(t *T, d *dspec) gtok {
	if t.P(2, 5) {
		k := soupTokens[t.N(len(soupTokens))]
		if k.text == "[" && strings.Contains(d.quotes, "[") {
			k.text = "]" // it would begin a name
		}
		return k
	}
	return gtok{gKeyword, soupWords[t.N(len(soupWords))]}
}

// mutateTokens changes a token list at a few places; donor supplies foreign stretches.
func mutateTokens(t *T, d *dspec, toks, donor []gtok) []gtok {
	out := append([]gtok(nil), toks...)
	for k := t.Range(1, 3); k > 0; k-- {
		t.Begin("tmut")
		n := len(out)
		at := t.N(n + 1)
		stretch := func(xs []gtok, i int) []gtok {
			e := i + t.Range(1, 5)
			if e > len(xs) {
				e = len(xs)
			}
			if i > e {
				return nil
			}
			return append([]gtok(nil), xs[i:e]...)
		}
		ins := func(at int, xs []gtok) {
			tail := append([]gtok(nil), out[at:]...)
			out = append(append(out[:at:at], xs...), tail...)
		}
		switch t.N(7) {
		case 0: // drop one
			if at < n {
				out = append(out[:at:at], out[at+1:]...)
			}
		case 1: // drop a stretch
			s := stretch(out, at)
			out = append(out[:at:at], out[at+len(s):]...)
		case 2: // a foreign token
			ins(at, []gtok{soupTok(t, d)})
		case 3: // replace
			if at < n {
				out[at] = soupTok(t, d)
			}
		case 4: // repeat a stretch
			ins(at, stretch(out, at))
		case 5: // swap
			if at+1 < n {
				out[at], out[at+1] = out[at+1], out[at]
			}
		case 6: // foreign stretch
			if len(donor) > 0 {
				ins(at, stretch(donor, t.N(len(donor))))
			}
		}
		t.End()
	}
	return out
}

// damagedTokens is the token list of a generated statement, usually damaged.
func damagedTokens(t *T, d *dspec) []gtok {
	g := newG(t, d)
	g.o.tricky = t.P(1, 4)
	g.stmt()
	var donor []gtok
	if t.P(1, 2) {
		t.fuel = t.size / 2
		g2 := newG(t, d)
		g2.stmt()
		donor = g2.src
	}
	return mutateTokens(t, d, g.src, donor)
}
