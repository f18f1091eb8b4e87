package main

import (
	"strings"
	"unicode/utf8"

	"github.com/akito0107/xsqlparser/sqltoken"
)

type gkind int

const (
	gKeyword gkind = iota // spelled in any case
	gIdent                // unquoted name
	gQuoted               // delimited name
	gNumber
	gString
	gNString
	gPunct
)

// gtok is a generated token.
type gtok struct {
	kind gkind
	text string // spelling; keywords in upper case
}

// gcomment is a comment of a laid out source.
type gcomment struct {
	text     string // without its marks
	block    bool
	from, to sqltoken.Pos
	gap      int // index of the token that follows it
}

type layoutOpts struct {
	comments  int  // percent of gaps with comments
	newlines  bool // line breaks and tabs between tokens
	caseMix   bool // keywords in mixed case
	minimal   bool // no space where none is needed
	lead      bool // white space and comments before the first and after the last token
	simpleSep bool // exactly one space between tokens
}

// laid is a source text with the true position of each of its tokens.
type laid struct {
	src      string
	from, to []sqltoken.Pos
	comments []gcomment
	d        *dspec
}

type layouter struct {
	sb        strings.Builder
	line, col int
	prevCR    bool
	far       int // the gap that is filled with a lot, -1: none
}

// write appends text; tabs count four columns outside tokens and comments.
func (l *layouter) write(s string, space bool) {
	for _, c := range s {
		switch {
		case c == '\n' && l.prevCR:
			l.prevCR = false
			l.sb.WriteRune(c)
			continue
		case c == '\n' || c == '\r':
			l.line++
			l.col = 1
		case c == '\t' && space:
			l.col += 4
		default:
			l.col++
		}
		l.prevCR = c == '\r'
		l.sb.WriteRune(c)
	}
	// a line feed of the next piece belongs to this piece's carriage return only when it directly follows
}

func (l *layouter) pos() sqltoken.Pos { return sqltoken.Pos{Line: l.line, Col: l.col} }

// needSep tells whether two tokens would merge or change when written without space between them.
func needSep(d *dspec, a, b gtok) bool {
	toks, ok := refLex(a.text+b.text, d)
	if !ok || len(toks) != 2 {
		return true
	}
	return toks[0].raw != a.text || toks[1].raw != b.text
}

func mixCase(t *T, s string) string {
	switch t.N(4) {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	case 2:
		return s[:1] + strings.ToLower(s[1:])
	}
	b := []byte(strings.ToLower(s))
	bits := t.U64()
	for i := range b {
		if bits>>(uint(i)%64)&1 == 1 && 'a' <= b[i] && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

var commentTexts = []string{"c", " note ", "", " it's; a -- comment ( ", " SELECT 1; ", " 漢字 é ", "**", " a\tb ", "/ x", " \" ` ' "}

// commentText draws the text of a comment; some begin with what makes a comment more than one elsewhere.
func commentText(t *T, lines bool) string {
	text := commentTexts[t.N(len(commentTexts))]
	if t.P(1, 6) {
		text = t.Pick("", "!", "!40101 ", "+ ", "+", "#", "%", "@", "*", "-", ">", "{", "$", "?", ":", "=", "\\", "/", "\x00") + t.Pick(text, freeText(t), "SELECT 1", ", b", "FROM t", "INDEX(t i)")
	}
	if !lines {
		text = strings.NewReplacer("\n", " ", "\r", " ").Replace(text)
	}
	return text
}

func (l *layouter) comment(t *T, lay *laid, gap int) {
	text := commentText(t, true)
	from := l.pos()
	if t.P(1, 2) {
		if t.P(1, 4) {
			text += "\n second line\r\n* third *\r"
		}
		text = strings.ReplaceAll(text, "*/", "* /")
		l.prevCR = false
		l.write("/*"+text+"*/", false)
		lay.comments = append(lay.comments, gcomment{text, true, from, l.pos(), gap})
		return
	}
	text = strings.NewReplacer("\n", " ", "\r", " ").Replace(text)
	l.prevCR = false
	l.write("--"+text, false)
	lay.comments = append(lay.comments, gcomment{text, false, from, l.pos(), gap})
	l.write(t.Pick("\n", "\n", "\r\n", "\r"), true)
}

func (l *layouter) blank(t *T, o layoutOpts) {
	if !o.newlines {
		l.prevCR = false
		l.write(" ", true)
		return
	}
	switch t.N(8) {
	case 0, 1, 2:
		l.prevCR = false
		l.write(" ", true)
	case 3, 4:
		if l.prevCR {
			l.write(" ", true)
		}
		l.write("\n", true)
	case 5:
		l.prevCR = false
		l.write("\t", true)
	case 6:
		l.prevCR = false
		l.write("\r\n", true)
	case 7:
		l.prevCR = false
		l.write("  \r ", true)
	}
}

// gap writes what stands before token idx; after tells that a comment directly behind the token before would merge with it.
func (l *layouter) gap(t *T, o layoutOpts, lay *laid, idx int, need, after bool) {
	if o.simpleSep {
		l.prevCR = false
		l.write(" ", true)
		return
	}
	done := false
	if o.comments > 0 && t.P(o.comments, 100) {
		k := t.Range(1, 3)
		if t.P(1, 150) {
			k = aCount(t)
			t.Label("layout: many comments")
		}
		for ; k > 0; k-- {
			if t.Bool() {
				l.blank(t, o)
			} else if after {
				l.prevCR = false
				l.write(" ", true)
			}
			after = false
			l.comment(t, lay, idx)
		}
		done = true
		if t.Bool() {
			l.blank(t, o)
		}
	}
	if idx == l.far {
		l.lot(t, o, lay, idx)
		return
	}
	if !done {
		if !need && (o.minimal || t.P(1, 4)) {
			return
		}
		l.blank(t, o)
		if t.P(1, 8) {
			l.blank(t, o)
		}
	}
}

// lot writes a lot of white space or comment.
func (l *layouter) lot(t *T, o layoutOpts, lay *laid, idx int) {
	n := bigSize(t)
	t.Label("layout: far")
	if l.prevCR {
		l.write(" ", true)
	}
	if o.comments > 0 && t.P(1, 3) {
		unit := t.Pick("x", "y z ", "é", "--", "* ", "/", "\n", "\r\n", "\t")
		l.write(" ", true)
		from := l.pos()
		text := strings.Repeat(unit, 1+n/len(unit))
		if unit == "/" {
			text = " " + text // no end of the comment inside it
		}
		l.write("/*"+text+"*/", false)
		l.prevCR = false
		lay.comments = append(lay.comments, gcomment{text, true, from, l.pos(), idx})
		return
	}
	unit := t.Pick("\n", " ", "\t", "\r\n", " \n", "\n\t ")
	if !o.newlines {
		unit = t.Pick(" ", "\t")
	}
	l.write(strings.Repeat(unit, n), true)
}

// layoutTokens writes tokens as a source text, drawing the white space, the comments and the case of the keywords.
func layoutTokens(t *T, d *dspec, toks []gtok, o layoutOpts) *laid {
	t.Begin("layout")
	defer t.End()
	lay := &laid{d: d}
	l := &layouter{line: 1, col: 1, far: -1}
	if (o.newlines || o.minimal) && !o.simpleSep && t.P(1, 150) {
		l.far = t.N(len(toks) + 1)
	}
	if o.lead && (t.P(1, 3) || l.far == 0) {
		l.gap(t, o, lay, 0, false, false)
	}
	for i, tok := range toks {
		if i > 0 {
			before := l.sb.Len()
			need := needSep(d, toks[i-1], tok)
			l.gap(t, o, lay, i, need, endsIn(toks[i-1].text, "/-"))
			if l.sb.Len() == before && need {
				l.write(" ", true)
			}
		}
		text := tok.text
		if tok.kind == gKeyword && o.caseMix {
			text = mixCase(t, text)
		}
		l.prevCR = false
		lay.from = append(lay.from, l.pos())
		l.write(text, false)
		lay.to = append(lay.to, l.pos())
		l.prevCR = false
	}
	if o.lead && (t.P(1, 3) || l.far == len(toks)) {
		n := len(toks)
		if n > 0 && endsIn(toks[n-1].text, "/-") {
			l.write(" ", true)
		}
		l.gap(t, o, lay, n, false, false)
	}
	lay.src = l.sb.String()
	return lay
}

func endsIn(s, set string) bool {
	r, _ := utf8.DecodeLastRuneInString(s)
	return strings.ContainsRune(set, r)
}

// layoutTokensSimple writes the tokens with a single space between them.
func layoutTokensSimple(d *dspec, toks []gtok) *laid {
	lay := &laid{d: d}
	l := &layouter{line: 1, col: 1}
	for i, tok := range toks {
		if i > 0 {
			l.write(" ", true)
		}
		l.prevCR = false
		lay.from = append(lay.from, l.pos())
		l.write(tok.text, false)
		lay.to = append(lay.to, l.pos())
		l.prevCR = false
	}
	lay.src = l.sb.String()
	return lay
}
