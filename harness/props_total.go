package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// anyText is any input whatever.
func anyText(t *T, d *dspec) string {
	switch t.Weighted(3, 6, 3, 2, 2, 1) {
	case 0:
		s, _ := sourceText(t, d)
		return s
	case 1:
		toks := damagedTokens(t, d)
		return layoutTokens(t, d, toks, anyLayout(t)).src
	case 2: // token soup
		n := t.Range(1, 3+t.size/2)
		toks := make([]gtok, n)
		for i := range toks {
			toks[i] = soupTok(t, d)
		}
		return layoutTokensSimple(d, toks).src
	case 3:
		return lexText(t, d)
	case 4: // cut off
		s, _ := sourceText(t, d)
		return s[:t.N(len(s)+1)]
	}
	b := make([]byte, t.N(40))
	for i := range b {
		b[i] = byte(t.N(256))
	}
	s, _ := sourceText(t, d)
	at := t.N(len(s) + 1)
	return s[:at] + string(b) + s[at:]
}

func nilResult(v interface{}) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	return (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil()
}

// useEntries calls every entry point over the parser that mk makes.
func useEntries(t *T, tokens int, mk func() *xsqlparser.Parser) (accepted bool) {
	either := func(what string, v interface{}, err error) {
		if err == nil && nilResult(v) {
			t.Fatal("neither", "%s returns neither a result nor an error", what)
		}
		if err == nil {
			accepted = true
		} else if err.Error() == "" {
			t.Fatal("neither", "%s returns an error without a message", what)
		}
	}
	p := mk()
	f, err := p.ParseFile()
	either("ParseFile", f, err)
	if err == nil {
		for i, s := range f.Stmts {
			if nilResult(s) {
				t.Fatal("neither", "ParseFile returns a nil statement %d", i)
			}
		}
		for _, c := range f.Comments {
			if c == nil {
				t.Fatal("neither", "ParseFile returns a nil comment group")
			}
		}
	}
	if _, err := p.ParseFile(); err != nil && err.Error() == "" {
		t.Fatal("neither", "ParseFile returns an error without a message")
	}
	p = mk()
	stmts, err := p.ParseSQL()
	for i, s := range stmts {
		if err == nil && nilResult(s) {
			t.Fatal("neither", "ParseSQL returns a nil statement %d", i)
		}
	}
	p = mk()
	for i := 0; ; i++ {
		s, err := p.ParseStatement()
		either("ParseStatement", s, err)
		if err != nil {
			// after an error the parser can still be asked
			p.ParseStatement()
			p.ParseExpr()
			p.ParseDataType()
			break
		}
		if i > tokens {
			t.Fatal("endless", "ParseStatement returned more statements than there are tokens")
		}
	}
	p = mk()
	for i := 0; ; i++ {
		e, err := p.ParseExpr()
		either("ParseExpr", e, err)
		if err != nil {
			break
		}
		if i > tokens {
			t.Fatal("endless", "ParseExpr returned more expressions than there are tokens")
		}
	}
	p = mk()
	for i := 0; ; i++ {
		ty, err := p.ParseDataType()
		either("ParseDataType", ty, err)
		if err != nil {
			break
		}
		if i > tokens {
			t.Fatal("endless", "ParseDataType returned more types than there are tokens")
		}
	}
	return accepted
}

var _ sqlast.Node

func init() {
	register(&Prop{
		ID:        "C01",
		Rule:      "valid statements, statements whose tokens are dropped, replaced, repeated, swapped or spliced, keyword soup, lexical soup, texts cut at every kind of place and texts with arbitrary bytes, for built-in and user-defined dialects; each goes through every entry point, repeatedly, with and without comments, from text and from a token list with tokens left out; the whole run may write nothing to stdout and stderr; non-trivial: at least 4 tokens",
		Quick:     220000,
		Thorough:  5000000,
		StdSilent: true,
		Run: func(t *T) {
			d := pickAnyDialect(t)
			src := anyText(t, d)
			t.Input(fmt.Sprintf("%s: %q", d.name, src))
			var tokens []*sqltoken.Token
			tz := sqltoken.NewTokenizer(strings.NewReader(src), d.d)
			tokens, err := tz.Tokenize()
			if err == nil && tokens == nil && src != "" && src != "\ufeff" {
				t.Fatal("neither", "Tokenize returns neither tokens nor an error")
			}
			comments := t.Bool()
			p, err := newParser(src, d, comments)
			if err != nil {
				if p != nil {
					t.Fatal("both", "NewParser returns a parser and an error")
				}
				t.Label("lexical error")
				return
			}
			if p == nil {
				t.Fatal("neither", "NewParser returns neither a parser nor an error")
			}
			if len(tokens) >= 4 {
				t.Nontrivial()
			}
			if useEntries(t, len(tokens), func() *xsqlparser.Parser {
				p, err := newParser(src, d, comments)
				if err != nil {
					t.Fatal("unstable", "NewParser fails the second time: %v", err)
				}
				return p
			}) {
				t.Label("accepted by an entry point")
			}
			// any token list
			var some []*sqltoken.Token
			mode := t.N(3)
			for _, tok := range tokens {
				switch {
				case mode == 1 && tok.Kind == sqltoken.Whitespace:
				case mode == 2 && t.P(1, 12):
				default:
					some = append(some, tok)
				}
			}
			useEntries(t, len(some), func() *xsqlparser.Parser {
				var p *xsqlparser.Parser
				if comments {
					p = xsqlparser.NewParserWithOptions(xsqlparser.ParseComment())
				} else {
					p = xsqlparser.NewParserWithOptions()
				}
				p.SetTokens(some)
				return p
			})
		},
	})
}
