package main

import (
	"fmt"
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// dspec is a dialect with an independent statement of its lexical predicates.
type dspec struct {
	name   string
	d      dialect.Dialect
	start  func(r rune) bool
	part   func(r rune) bool
	quotes string // characters that open a delimited identifier
}

func isLetter(r rune) bool { return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' }
func isDigit(r rune) bool  { return '0' <= r && r <= '9' }

func genStart(r rune) bool { return isLetter(r) || r == '@' }
func genPart(r rune) bool  { return isLetter(r) || isDigit(r) || r == '@' || r == '_' }
func pgStart(r rune) bool  { return isLetter(r) || r == '_' }
func pgPart(r rune) bool   { return isLetter(r) || isDigit(r) || r == '$' || r == '_' }

var dialects = []*dspec{
	{"generic", &dialect.GenericSQLDialect{}, genStart, genPart, "\""},
	{"mysql", &dialect.MySQLDialect{}, genStart, genPart, "\"`"},
	{"postgres", &dialect.PostgresqlDialect{}, pgStart, pgPart, "\"`"},
	ownDialect(&customDialect{"_#é漢", "@$", "\"[`"}), // a dialect that the user of the library brings along
}

func ownDialect(c *customDialect) *dspec {
	return &dspec{name: fmt.Sprintf("custom{%s|%s|%s}", c.startExtra, c.partExtra, c.quotes), d: c, start: c.IsIdentifierStart, part: c.IsIdentifierPart, quotes: c.quotes}
}

// customDialect is a dialect of the user's own.
type customDialect struct {
	startExtra, partExtra, quotes string
}

func (c *customDialect) IsIdentifierStart(r rune) bool {
	return isLetter(r) || r > 0 && strings.ContainsRune(c.startExtra, r)
}
func (c *customDialect) IsIdentifierPart(r rune) bool {
	return isLetter(r) || isDigit(r) || r > 0 && (strings.ContainsRune(c.startExtra, r) || strings.ContainsRune(c.partExtra, r))
}
func (c *customDialect) IsDelimitedIdentifierStart(r rune) bool {
	return r > 0 && strings.ContainsRune(c.quotes, r)
}

func pickDialect(t *T) *dspec { return dialects[t.N(len(dialects))] }

func pickAnyDialect(t *T) *dspec {
	k := t.N(len(dialects) + 2)
	if k < len(dialects) {
		return dialects[k]
	}
	c := &customDialect{
		startExtra: t.Pick("", "_", "#", "éß漢", "_@#$"),
		partExtra:  t.Pick("", "_", "$", "#é", "_-"[:1]),
		quotes:     t.Pick("\"", "`", "[", "\"`[", ""),
	}
	return ownDialect(c)
}

// rtok is a token of the reference lexer.
type rtok struct {
	kind     sqltoken.Kind
	val      string // value; of a word, the word without its quotes
	quote    rune
	from, to sqltoken.Pos
	raw      string
}

func (r rtok) String() string { return fmt.Sprintf("%v %q", r.kind, r.raw) }

func (r rtok) word() bool { return r.kind == sqltoken.SQLKeyword }

// kw is the upper-cased word, "" for anything but an unquoted word.
func (r rtok) kw() string {
	if r.kind == sqltoken.SQLKeyword && r.quote == 0 {
		return strings.ToUpper(r.val)
	}
	return ""
}

func (r rtok) space() bool { return r.kind == sqltoken.Whitespace || r.kind == sqltoken.Comment }

// refLex is the lexical grammar, stated without regard to the implementation: longest match over the remaining text.
// ok is false when the text is malformed; the tokens before the malformed one are returned.
func refLex(src string, d *dspec) (toks []rtok, ok bool) {
	rs := []rune(src)
	if len(rs) > 0 && rs[0] == 0xFEFF {
		rs = rs[1:]
	}
	line, col := 1, 1
	i := 0
	for i < len(rs) {
		kind, n, val, quote, good := refToken(rs[i:], d)
		if !good {
			return toks, false
		}
		from := sqltoken.Pos{Line: line, Col: col}
		for k := 0; k < n; k++ {
			c := rs[i+k]
			switch {
			case c == '\n':
				line++
				col = 1
			case c == '\r':
				if i+k+1 < len(rs) && rs[i+k+1] == '\n' && k+1 < n {
					// counted with the line feed
				} else {
					line++
					col = 1
				}
			case c == '\t' && kind == sqltoken.Whitespace:
				col += 4
			default:
				col++
			}
		}
		toks = append(toks, rtok{kind: kind, val: val, quote: quote, from: from, to: sqltoken.Pos{Line: line, Col: col}, raw: string(rs[i : i+n])})
		i += n
	}
	return toks, true
}

var twoChar = map[string]sqltoken.Kind{"!=": sqltoken.Neq, "<>": sqltoken.Neq, "<=": sqltoken.LtEq, ">=": sqltoken.GtEq, "::": sqltoken.DoubleColon}

var oneChar = map[rune]sqltoken.Kind{
	'(': sqltoken.LParen, ')': sqltoken.RParen, ',': sqltoken.Comma, '-': sqltoken.Minus, '/': sqltoken.Div, '+': sqltoken.Plus,
	'*': sqltoken.Mult, '%': sqltoken.Mod, '=': sqltoken.Eq, '.': sqltoken.Period, '<': sqltoken.Lt, '>': sqltoken.Gt,
	':': sqltoken.Colon, ';': sqltoken.Semicolon, '\\': sqltoken.Backslash, '[': sqltoken.LBracket, ']': sqltoken.RBracket,
	'&': sqltoken.Ampersand, '{': sqltoken.LBrace, '}': sqltoken.RBrace,
}

func refString(rs []rune, open int) (n int, val string, ok bool) {
	var sb strings.Builder
	for i := open + 1; i < len(rs); i++ {
		if rs[i] != '\'' {
			sb.WriteRune(rs[i])
			continue
		}
		if i+1 < len(rs) && rs[i+1] == '\'' {
			sb.WriteRune('\'')
			i++
			continue
		}
		return i + 1, sb.String(), true
	}
	return 0, "", false
}

func refToken(rs []rune, d *dspec) (kind sqltoken.Kind, n int, val string, quote rune, ok bool) {
	c := rs[0]
	at := func(i int) rune {
		if i < len(rs) {
			return rs[i]
		}
		return -1
	}
	switch c {
	case ' ', '\t', '\n':
		return sqltoken.Whitespace, 1, string(c), 0, true
	case '\r':
		if at(1) == '\n' {
			return sqltoken.Whitespace, 2, "\n", 0, true
		}
		return sqltoken.Whitespace, 1, "\n", 0, true
	}
	if c == 'N' && at(1) == '\'' {
		n, val, ok = refString(rs, 1)
		return sqltoken.NationalStringLiteral, n, val, 0, ok
	}
	if d.start(c) {
		n = 1
		for n < len(rs) && d.part(rs[n]) {
			n++
		}
		return sqltoken.SQLKeyword, n, string(rs[:n]), 0, true
	}
	if c == '\'' {
		n, val, ok = refString(rs, 0)
		return sqltoken.SingleQuotedString, n, val, 0, ok
	}
	if strings.ContainsRune(d.quotes, c) {
		end := c
		if c == '[' {
			end = ']'
		}
		for n = 1; n < len(rs); n++ {
			if rs[n] == end {
				return sqltoken.SQLKeyword, n + 1, string(rs[1:n]), c, true
			}
		}
		return 0, 0, "", 0, false
	}
	if isDigit(c) {
		for n < len(rs) && (isDigit(rs[n]) || rs[n] == '.') {
			n++
		}
		return sqltoken.Number, n, string(rs[:n]), 0, true
	}
	if c == '-' && at(1) == '-' {
		for n = 2; n < len(rs) && rs[n] != '\n' && rs[n] != '\r'; n++ {
		}
		return sqltoken.Comment, n, string(rs[2:n]), 0, true
	}
	if c == '/' && at(1) == '*' {
		for n = 2; n+1 < len(rs); n++ {
			if rs[n] == '*' && rs[n+1] == '/' {
				return sqltoken.Comment, n + 2, string(rs[2:n]), 0, true
			}
		}
		return 0, 0, "", 0, false
	}
	if len(rs) > 1 {
		if k, ok := twoChar[string(rs[:2])]; ok {
			return k, 2, string(rs[:2]), 0, true
		}
	}
	if c == '!' {
		return 0, 0, "", 0, false
	}
	if k, ok := oneChar[c]; ok {
		return k, 1, string(c), 0, true
	}
	return sqltoken.Char, 1, string(c), 0, true
}

// tokVal is the value of a token of the implementation, comparable with rtok.
func tokVal(tok *sqltoken.Token) (val string, quote rune, keyword string, ok bool) {
	switch v := tok.Value.(type) {
	case string:
		return v, 0, "", true
	case *sqltoken.SQLWord:
		if v == nil {
			return "", 0, "", false
		}
		return v.Value, v.QuoteStyle, v.Keyword, true
	}
	return "", 0, "", false
}

func significant(toks []rtok) []rtok {
	var out []rtok
	for _, t := range toks {
		if !t.space() {
			out = append(out, t)
		}
	}
	return out
}
