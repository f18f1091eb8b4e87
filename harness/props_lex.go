package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqltoken"
)

var soupPieces = []string{
	" ", "\n", "\t", "\r", "\r\n", "  ",
	"a", "N", "n", "Nx", "select", "x1", "_", "a_b", "@v", "$1", "a$b", "#t", "é", "漢字", "𝒳", "ß", "ǅ",
	"'", "''", "'a'", "N'x'", "n'x'", "N 'x'", "'it''s'", "'\n'", "'--'", "'/*'", "'a\r\nb'", "'\r'", "'\t'", "'''", "''''", "N''''",
	"\"", "\"q\"", "`", "`q`", "[", "]", "[x y]", "\"a\nb\"", "\"\"", "``", "\"\t\"", "\"--\"", "`\"`", "\"a\"\"b\"", "[\r\n]",
	"1", "12", "1.5", "1.", ".5", "1..2", "1.2.3", "007", "1e5", "0x1", "1a", "9999999999999999999999",
	"-", "--", "-- c\n", "--\r", "--x\r\n", "--", "---", "- -", "->", "--/*\n", "-- 漢\n",
	"/", "/*", "*/", "/* c */", "/**/", "/***/", "/*\n*/", "/* /* */", "/*--*/", "/* * / */", "/*\r\n\r*/", "/*/", "/* ' */", "//", "/ *", "/*!", "/*! 1 */", "/*!40101 a*/", "/*+ x */", "/*+", "--+ x\n", "--!", "-- %\r", "/*#*/", "/*$a*/", "/*\x00*/",
	"+", "*", "%", "=", ".", "!=", "<>", "<=", ">=", "<", ">", ":", "::", ":::", ";", "\\", "&", "{", "}", "(", ")", ",", "!", "! =", "<=>", "==", ">>", "<<", "!==",
	"~", "^", "|", "?", "@", "#", "$", "\x00", "\x01", "\x7f", "\u00a0", "\u2028", "\u0085", "\ufeff", "\v", "\f", "\u3000", "€", "😀", "\u0301",
}

// lexText draws a text for the tokenizer.
func lexText(t *T, d *dspec) string {
	switch t.Weighted(60, 30, 20, 8, 10) {
	case 4:
		return blockText(t)
	case 0:
		var sb strings.Builder
		n := t.Range(1, 4+t.size/2)
		for i := 0; i < n; i++ {
			t.Begin("piece")
			sb.WriteString(soupPieces[t.N(len(soupPieces))])
			t.End()
		}
		return sb.String()
	case 1:
		s, dd := sourceText(t, d)
		_ = dd
		return mutateText(t, s)
	case 2:
		// few characters, so that they meet
		alpha := []rune("a'-/*\n\r\"!=<>:N.1 `[]\t漢")
		n := t.Range(1, 4+t.size/2)
		rs := make([]rune, n)
		for i := range rs {
			rs[i] = alpha[t.N(len(alpha))]
		}
		return string(rs)
	}
	n := t.Range(1, 20)
	rs := make([]rune, n)
	for i := range rs {
		switch t.N(3) {
		case 0:
			rs[i] = rune(t.N(128))
		case 1:
			rs[i] = rune(t.N(0x3000))
		case 2:
			rs[i] = rune(t.N(0x10ffff))
		}
		if rs[i] >= 0xd800 && rs[i] < 0xe000 || rs[i] == 0xfffd {
			rs[i] = 'x'
		}
	}
	return string(rs)
}

// blockText holds each of 64 neighbouring characters once, or all of them where one token can hold them.
func blockText(t *T) string {
	t.Label("block of characters")
	k := rune(t.N(0x3000 / 64))
	switch t.Weighted(2, 2, 1) {
	case 1:
		k = rune(t.N(0x10000 / 64))
	case 2:
		k = rune(t.N(0x110000 / 64))
	}
	before, each, between, after := "", "", " ", ""
	switch t.N(9) {
	case 1:
		each, between = "a", "a "
	case 2:
		before, after = "'", "'"
	case 3:
		before, after = "/*", "*/"
	case 4:
		between = "\n"
	case 5:
		before, between, after = "\"", "", "\""
	case 6:
		before, between = "--", ""
	case 7:
		between = "1"
	case 8:
		between = ""
	}
	var sb strings.Builder
	sb.WriteString(before)
	for c := k * 64; c < k*64+64; c++ {
		if c >= 0xd800 && c < 0xe000 || c == 0xfffd {
			continue
		}
		sb.WriteString(each)
		sb.WriteRune(c)
		sb.WriteString(between)
	}
	sb.WriteString(after)
	return sb.String()
}

// sourceText is a generated valid source: a few statements of any kind, laid out.
func sourceText(t *T, d *dspec) (string, *G) {
	g := newG(t, d)
	g.o.quoted = t.Pick2(10, 40)
	g.o.tricky = t.P(1, 3)
	g.stmt()
	lay := layoutTokens(t, d, g.src, anyLayout(t))
	return lay.src, g
}

func (t *T) Pick2(a, b int) int {
	if t.P(1, 4) {
		return b
	}
	return a
}

// mutateText changes a text at a few places (by characters).
func mutateText(t *T, s string) string {
	for k := t.N(4); k > 0; k-- {
		t.Begin("mut")
		rs := []rune(s)
		at := t.N(len(rs) + 1)
		switch t.N(6) {
		case 0: // cut off
			s = string(rs[:at])
		case 1: // delete some
			e := at + t.Range(1, 4)
			if e > len(rs) {
				e = len(rs)
			}
			s = string(rs[:at]) + string(rs[e:])
		case 2, 3: // insert a piece
			s = string(rs[:at]) + soupPieces[t.N(len(soupPieces))] + string(rs[at:])
		case 4: // duplicate a stretch
			e := at + t.Range(1, 12)
			if e > len(rs) {
				e = len(rs)
			}
			s = string(rs[:e]) + string(rs[at:])
		case 5: // move a stretch
			e := at + t.Range(1, 12)
			if e > len(rs) {
				e = len(rs)
			}
			rest := append(append([]rune(nil), rs[:at]...), rs[e:]...)
			to := t.N(len(rest) + 1)
			s = string(rest[:to]) + string(rs[at:e]) + string(rest[to:])
		}
		t.End()
	}
	return s
}

// scanAll collects tokens one by one, and the error that ended them (nil at the end of the text).
func scanAll(tz *sqltoken.Tokenizer, scan bool, limit int) (toks []*sqltoken.Token, err error) {
	for i := 0; i <= limit; i++ {
		var tok *sqltoken.Token
		var err error
		if scan {
			var buf sqltoken.Token
			tok, err = tz.Scan(&buf)
			if err == nil && tok != nil && tok != &buf {
				return toks, fmt.Errorf("Scan does not return the token it was given")
			}
		} else {
			tok, err = tz.NextToken()
		}
		if err == io.EOF {
			return toks, nil
		}
		if err != nil {
			return toks, err
		}
		if tok != nil {
			toks = append(toks, tok)
		}
	}
	return toks, fmt.Errorf("more tokens than characters")
}

func tokString(tok *sqltoken.Token) string {
	v, q, kw, _ := tokVal(tok)
	return fmt.Sprintf("%v %q quote %q keyword %q %d:%d-%d:%d", tok.Kind, v, q, kw, tok.From.Line, tok.From.Col, tok.To.Line, tok.To.Col)
}

// sameTok compares a token with the reference.
func sameTok(tok *sqltoken.Token, r rtok) bool {
	v, q, kw, ok := tokVal(tok)
	if !ok || tok.Kind != r.kind || v != r.val || q != r.quote {
		return false
	}
	_, isWord := tok.Value.(*sqltoken.SQLWord)
	if isWord != r.word() {
		return false
	}
	if r.word() && r.quote == 0 && isASCII(r.val) && kw != "" && kw != strings.ToUpper(r.val) {
		return false
	}
	return true
}

func isASCII(s string) bool {
	for _, c := range s {
		if c > 127 {
			return false
		}
	}
	return true
}

func compareToks(t *T, what string, got []*sqltoken.Token, want []rtok) {
	for i := 0; i < len(got) && i < len(want); i++ {
		if !sameTok(got[i], want[i]) {
			t.Fatal("token", "%s: token %d is %s, want %v (value %q)", what, i, tokString(got[i]), want[i], want[i].val)
		}
	}
	if len(got) != len(want) {
		t.Fatal("count", "%s: %d tokens, want %d", what, len(got), len(want))
	}
}

func init() {
	register(&Prop{
		ID:       "C02",
		Rule:     "texts made of lexically interesting pieces, of few characters that meet often, of arbitrary characters, of a block of 64 neighbouring characters, or of generated SQL with text mutations, for the built-in and drawn user-defined dialects, compared token by token with an independent reference lexer through Tokenize, NextToken, Scan and comment-free tokenising; non-trivial: at least three tokens, one of them not white space and not a plain word",
		Quick:    1000000,
		Thorough: 12000000,
		Run: func(t *T) {
			d := pickAnyDialect(t)
			src := lexText(t, d)
			t.Input(fmt.Sprintf("%s: %q", d.name, src))
			want, ok := refLex(src, d)
			for _, w := range want {
				if len(want) >= 3 && !w.space() && !(w.word() && w.quote == 0) {
					t.Nontrivial()
				}
			}
			if !ok {
				t.Label("malformed")
			}
			got, err := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
			if (err == nil) != ok {
				t.Fatal("accept", "lexically well-formed: %v, but error %v", ok, err)
			}
			if ok {
				compareToks(t, "Tokenize", got, want)
			}
			var tz *sqltoken.Tokenizer
			var scan bool
			switch t.N(3) {
			case 0:
				tz = sqltoken.NewTokenizer(strings.NewReader(src), d.d)
			case 1:
				tz = sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.Dialect(d.d))
				scan = true
			case 2:
				tz = sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.DisableParseComment(), sqltoken.Dialect(d.d))
				want = significant(want)
			}
			got, err = scanAll(tz, scan, len(src)+1)
			if (err == nil) != ok {
				t.Fatal("accept", "token by token: lexically well-formed: %v, but error %v", ok, err)
			}
			compareToks(t, "token by token", got, want)
		},
	})
	register(&Prop{
		ID:       "C03",
		Rule:     "the texts of C02; each token's start and end are compared with the line and column counted independently over the source, and consecutive tokens must meet; the tokenizer's own position is where the last token ended; ComparePos of the positions of two tokens, and of two drawn ones, is their order; non-trivial: at least three tokens and two lines",
		Quick:    1000000,
		Thorough: 12000000,
		Run: func(t *T) {
			d := pickAnyDialect(t)
			src := lexText(t, d)
			t.Input(fmt.Sprintf("%s: %q", d.name, src))
			want, _ := refLex(src, d)
			if len(want) >= 3 && want[len(want)-1].to.Line > 1 {
				t.Nontrivial()
			}
			skip := t.P(1, 4)
			var opts = []sqltoken.TokenizerOption{sqltoken.Dialect(d.d)}
			if skip {
				opts = append(opts, sqltoken.DisableParseComment())
				want = significant(want)
			}
			got, _ := scanAll(sqltoken.NewTokenizerWithOptions(strings.NewReader(src), opts...), t.Bool(), len(src)+1)
			prev := sqltoken.Pos{Line: 1, Col: 1}
			for i, g := range got {
				if !skip && g.From != prev {
					t.Fatal("gap", "token %d (%s) does not start where the one before ended (%v)", i, tokString(g), prev)
				}
				prev = g.To
				if i >= len(want) || !sameTok(g, want[i]) {
					t.Label("tokens differ (C02)")
					return
				}
				if g.From != want[i].from || g.To != want[i].to {
					t.Fatal("position", "token %d is %s, its place is %v-%v", i, tokString(g), want[i].from, want[i].to)
				}
			}
			if len(got) > 0 && t.P(1, 4) {
				comparing(t, got[t.N(len(got))].From, got[t.N(len(got))].To)
				at := func() sqltoken.Pos { return sqltoken.Pos{Line: 1 + bigSize(t), Col: 1 + bigSize(t)} }
				a := at()
				b := at()
				switch t.N(3) {
				case 0:
					b.Line = a.Line
				case 1:
					b.Col = a.Col
				}
				comparing(t, a, b)
			}
			if t.P(1, 4) {
				z := sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.Dialect(d.d))
				for k := 0; ; k++ {
					tok, err := z.NextToken()
					if err != nil {
						break
					}
					if z.Pos() != tok.To {
						t.Fatal("at", "after token %d (%s) the tokenizer is at %v", k, tokString(tok), z.Pos())
					}
				}
			}
		},
	})
	register(&Prop{
		ID:          "C04",
		Level:       "fault_enumeration",
		Rule:        "a generated or mutated source is read through readers that split it differently (one byte, drawn sizes, empty reads, data together with the end) and through readers that fail with a distinct error at a byte offset (every offset of short sources, drawn ones of long ones; with and without data in the failing read); one case in 4000 is a source of 128 KB to 2 MB; non-trivial: more than 8 bytes",
		Quick:       60000,
		Thorough:    1200000,
		Assumptions: []string{"a reader returns no more than 90 empty reads in a row (text/scanner gives up with io.ErrNoProgress-like behaviour only after more)"},
		Run:         runC04,
	})
}

// comparePos is the order of positions in a text.
func comparePos(a, b sqltoken.Pos) int {
	switch {
	case a == b:
		return 0
	case a.Line < b.Line || a.Line == b.Line && a.Col < b.Col:
		return -1
	}
	return 1
}

func comparing(t *T, a, b sqltoken.Pos) {
	if x, y := sqltoken.ComparePos(a, b), sqltoken.ComparePos(b, a); x != comparePos(a, b) || y != -x {
		t.Fatal("order", "ComparePos of %v and %v is %d, the other way round %d", a, b, x, y)
	}
	if a.String() == b.String() && a != b {
		t.Fatal("order", "%v and %v are both written %q", a, b, a.String())
	}
}

type chunkReader struct {
	data  []byte
	sizes []int
	k     int
	err   error // returned at the end; io.EOF when nil
	with  bool  // the error comes together with the last data
}

func (c *chunkReader) Read(p []byte) (int, error) {
	end := c.err
	if end == nil {
		end = io.EOF
	}
	if len(c.data) == 0 {
		return 0, end
	}
	n := c.sizes[c.k%len(c.sizes)]
	c.k++
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.with && n > 0 {
		return n, end
	}
	return n, nil
}

type faultError struct{ at int }

func (f *faultError) Error() string { return fmt.Sprintf("fault at %d", f.at) }

// outcome is everything a parse gives.
func outcome(r io.Reader, d *dspec, comments bool) string {
	p, err := newParserR(r, d, comments)
	if err != nil {
		return "new: " + err.Error()
	}
	f, err := p.ParseFile()
	if err != nil {
		return "parse: " + err.Error()
	}
	return dumpPos(f)
}

// hugeSource is a script of two statements with a megabyte or so between or in them: all of it must be read.
func hugeSource(t *T, d *dspec) {
	size := []int{1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 20, 1 << 21}[t.N(6)] + t.Range(-2, 2)
	var src, inside string
	switch t.N(3) {
	case 0:
		src = "SELECT a /*" + strings.Repeat(t.Pick("x", "\n", "é", "* "), size) + "*/ FROM t; SELECT last"
	case 1:
		inside = strings.Repeat(t.Pick("x", "\n", "漢", "--"), size)
		src = "SELECT '" + inside + "' FROM t; SELECT last"
	case 2:
		src = "SELECT a" + strings.Repeat(t.Pick(" ", "\n", "\t"), size/2) + "FROM t; SELECT last"
	}
	t.Label("huge source")
	t.Input(fmt.Sprintf("%s: a source of %d bytes: %.40q ... %q", d.name, len(src), src, src[len(src)-30:]))
	t.Nontrivial()
	r := &chunkReader{data: []byte(src), sizes: []int{t.Range(4000, 9000)}, with: t.Bool()}
	p, err := newParserR(r, d, t.Bool())
	if err != nil {
		t.Fatal("huge", "refused: %v", err)
	}
	stmts, err := p.ParseSQL()
	if err != nil || len(stmts) != 2 || sqlOf(stmts[1]) != "SELECT last" {
		t.Fatal("huge", "%d statements, %v", len(stmts), err)
	}
	if want := "SELECT '" + inside + "' FROM t"; inside != "" && sqlOf(stmts[0]) != want {
		t.Fatal("huge", "the long string is changed: %s", diffAt(want, sqlOf(stmts[0])))
	}
	ferr := &faultError{len(src)}
	_, err = newParserR(&chunkReader{data: []byte(src), sizes: []int{5000}, err: ferr, with: t.Bool()}, d, false)
	var fe *faultError
	if err == nil || !errors.As(err, &fe) || fe != ferr {
		t.Fatal("readerror", "the read fails after all of %d bytes, NewParser returns %v", len(src), err)
	}
}

func runC04(t *T) {
	d := pickDialect(t)
	if t.P(1, 4000) {
		hugeSource(t, d)
		return
	}
	src, _ := sourceText(t, d)
	if t.P(1, 3) {
		src = mutateText(t, src)
	}
	if t.P(1, 3) {
		src += "\n-- é漢 " + strings.Repeat("x漢", t.N(700)) + "\n;" + src
	}
	t.Input(fmt.Sprintf("%s: %q", d.name, src))
	if len(src) > 8 {
		t.Nontrivial()
	}
	comments := t.Bool()
	want := outcome(strings.NewReader(src), d, comments)
	sizes := []int{1}
	for k := t.N(6); k > 0; k-- {
		sizes = append(sizes, t.N(5))
	}
	if t.P(1, 3) {
		sizes = append(sizes, 1000, 1024, 1023)
	}
	readers := []io.Reader{
		iotest.OneByteReader(strings.NewReader(src)),
		iotest.DataErrReader(strings.NewReader(src)),
		iotest.HalfReader(strings.NewReader(src)),
		&chunkReader{data: []byte(src), sizes: sizes},
		&chunkReader{data: []byte(src), sizes: sizes, with: true},
	}
	for i, r := range readers {
		if got := outcome(r, d, comments); got != want {
			t.Fatal("chunk", "reader %d (sizes %v) gives another result: %s", i, sizes, diffAt(want, got))
		}
	}
	// failing reads
	var offs []int
	if len(src) <= 24 {
		for i := 0; i <= len(src); i++ {
			offs = append(offs, i)
		}
	} else {
		offs = []int{0, len(src), len(src) - 1, t.N(len(src)), t.N(len(src)), t.N(len(src))}
	}
	for _, off := range offs {
		ferr := &faultError{off}
		r := &chunkReader{data: []byte(src[:off]), sizes: sizes, err: ferr, with: t.Bool()}
		_, err := newParserR(r, d, comments)
		t.faults++
		var fe *faultError
		if err == nil || !errors.As(err, &fe) || fe != ferr {
			// a lexical error before the failure may be reported instead
			if err != nil && lexErrorBefore(src[:off], d) {
				t.Label("lexical error first")
				continue
			}
			t.Fatal("readerror", "the read fails after %d of %d bytes (with data: %v), NewParser returns %v", off, len(src), r.with, err)
		}
		if err := tokenizeErr(src[:off], ferr, sizes, r.with, d); err != nil && !lexErrorBefore(src[:off], d) {
			t.Fatal("readerror", "Tokenize: the read fails after %d of %d bytes: %v", off, len(src), err)
		}
		// errors that unwrap to io.EOF or look like one are errors all the same
		odd := []error{io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), io.ErrClosedPipe}[t.N(3)]
		r = &chunkReader{data: []byte(src[:off]), sizes: sizes, err: odd, with: t.Bool()}
		if _, err := newParserR(r, d, comments); err == nil || !errors.Is(err, odd) && !lexErrorBefore(src[:off], d) {
			t.Fatal("readerror", "the read fails with %q after %d of %d bytes, NewParser returns %v", odd, off, len(src), err)
		}
	}
	_ = xsqlparser.EOF
}

func tokenizeErr(src string, ferr error, sizes []int, with bool, d *dspec) error {
	r := &chunkReader{data: []byte(src), sizes: sizes, err: ferr, with: with}
	_, err := sqltoken.NewTokenizer(r, d.d).Tokenize()
	if err == nil {
		return fmt.Errorf("no error")
	}
	if !errors.Is(err, ferr) {
		return fmt.Errorf("error %v does not wrap the read error", err)
	}
	return nil
}

// lexErrorBefore tells whether the text has a malformed token that shows before its end (so not an unclosed one).
func lexErrorBefore(src string, d *dspec) bool {
	_, ok := refLex(src, d)
	if ok {
		return false
	}
	// only a lone '!' is known to be malformed before the end is reached; what follows it decides
	src = strings.TrimPrefix(src, "\ufeff")
	toks, _ := refLex(src, d)
	n := 0
	for _, t := range toks {
		n += len(t.raw)
	}
	rest := src[n:]
	return len(rest) > 1 && rest[0] == '!'
}
