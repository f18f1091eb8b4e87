From e76ac4a0152734493516ebc5516055b197ba5007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 01/35] fix: report an unclosed delimited identifier instead of
 reading past the end forever

---
 sqltoken/tokenizer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index edbada6..2673cb0 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -280,9 +280,12 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		var s []rune
 		for {
 			n := t.Scanner.Next()
-			if n == end {
+			if n == end && end != 0 {
 				break
 			}
+			if n == scanner.EOF {
+				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
+			}
 			s = append(s, n)
 		}
 		t.Col += 2 + len(s)
-- 
2.43.0


From 8abdc26a00bab1c2535599c64f6b819a17541f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 02/35] fix: keep token positions in step with escapes, line
 breaks and wide characters inside literals and quoted names

---
 sqltoken/tokenizer.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 2673cb0..9107ef7 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"strings"
 	"text/scanner"
+	"unicode/utf8"
 
 	errors "golang.org/x/xerrors"
 
@@ -274,12 +275,12 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		return SingleQuotedString, s, nil
 
 	case t.Dialect.IsDelimitedIdentifierStart(r):
-		t.Scanner.Next()
+		t.nextRune()
 		end := matchingEndQuote(r)
 
 		var s []rune
 		for {
-			n := t.Scanner.Next()
+			n := t.nextRune()
 			if n == end && end != 0 {
 				break
 			}
@@ -288,7 +289,6 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			}
 			s = append(s, n)
 		}
-		t.Col += 2 + len(s)
 
 		return SQLKeyword, MakeKeyword(string(s), r), nil
 
@@ -474,21 +474,38 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 	}
 
 	str := builder.String()
-	t.Col += len(str)
+	t.Col += utf8.RuneCountInString(str)
 	return str
 }
 
+// nextRune consumes one character of a token that may span lines and keeps the position in step with it.
+func (t *Tokenizer) nextRune() rune {
+	r := t.Scanner.Next()
+	switch {
+	case r == scanner.EOF:
+		// nothing consumed
+	case r == '\n', r == '\r' && t.Scanner.Peek() != '\n':
+		t.Line += 1
+		t.Col = 1
+	case r == '\r':
+		// the following '\n' ends the line
+	default:
+		t.Col += 1
+	}
+	return r
+}
+
 func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 	var builder strings.Builder
-	t.Scanner.Next()
+	t.nextRune()
 	for {
 		n := t.Scanner.Peek()
 		if n == '\'' {
-			t.Scanner.Next()
+			t.nextRune()
 			if t.Scanner.Peek() == '\'' {
 				// str = append(str, '\'')
 				builder.WriteRune('\'')
-				t.Scanner.Next()
+				t.nextRune()
 			} else {
 				break
 			}
@@ -498,14 +515,11 @@ func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 			return "", errors.Errorf("unclosed single quoted string: %s at %+v", builder.String(), t.Pos())
 		}
 
-		t.Scanner.Next()
+		t.nextRune()
 		builder.WriteRune(n)
 		// str = append(str, n)
 	}
-	str := builder.String()
-	t.Col += 2 + len(str)
-
-	return str, nil
+	return builder.String(), nil
 }
 
 func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
-- 
2.43.0


From fe2f01a00160ca89e4a66a1195344850b8d87557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 03/35] fix: keep the text of a block comment as written

---
 sqltoken/tokenizer.go | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 9107ef7..73c022e 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -527,34 +527,19 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 	var mayBeClosingComment bool
 	t.Col += 2
 	for {
-		n := t.Scanner.Next()
+		n := t.nextRune()
 
-		if n == '\r' {
-			if t.Scanner.Peek() == '\n' {
-				t.Scanner.Next()
-			}
-			t.Col = 1
-			t.Line += 1
-		} else if n == '\n' {
-			t.Col = 1
-			t.Line += 1
-		} else if n == scanner.EOF {
+		if n == scanner.EOF {
 			return "", errors.Errorf("unclosed multiline comment: %s at %+v", string(str), t.Pos())
-		} else {
-			t.Col += 1
 		}
 
-		if mayBeClosingComment {
-			if n == '/' {
-				break
-			} else {
-				str = append(str, n)
-			}
+		if mayBeClosingComment && n == '/' {
+			// drop the '*' of the closing mark
+			str = str[:len(str)-1]
+			break
 		}
 		mayBeClosingComment = n == '*'
-		if !mayBeClosingComment {
-			str = append(str, n)
-		}
+		str = append(str, n)
 	}
 
 	return string(str), nil
-- 
2.43.0


From 5237218781babb304510d260e1aca111c6c14607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 04/35] fix: end a line comment at a carriage return, like any
 other line

---
 sqltoken/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 73c022e..8dd9aa3 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -330,7 +330,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			var s []rune
 			for {
 				ch := t.Scanner.Peek()
-				if ch != scanner.EOF && ch != '\n' {
+				if ch != scanner.EOF && ch != '\n' && ch != '\r' {
 					t.Scanner.Next()
 					s = append(s, ch)
 				} else {
-- 
2.43.0


From 2ce1e1a0bbaef64dce17983a8f43ee02f44d9705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 05/35] fix: report an error of the source reader instead of
 taking it for the end of the text

---
 sqltoken/tokenizer.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 8dd9aa3..b50c677 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -125,16 +125,39 @@ type Tokenizer struct {
 	Line         int
 	Col          int
 	parseComment bool
+	src          *sourceReader
+}
+
+// sourceReader remembers the error that ended reading, which scanner.Scanner reports as the end of the text.
+type sourceReader struct {
+	src io.Reader
+	err error
+}
+
+func (s *sourceReader) Read(p []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.src.Read(p)
+	if err != nil && err != io.EOF {
+		s.err = err
+	}
+	return n, err
 }
 
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
+	source := &sourceReader{src: src}
+	scan.Init(source)
+	// read errors are reported by Scan, other complaints (e.g. NUL characters) are not errors of SQL text
+	scan.Error = func(*scanner.Scanner, string) {}
 	return &Tokenizer{
 		Dialect:      dialect,
-		Scanner:      scan.Init(src),
+		Scanner:      &scan,
 		Line:         1,
 		Col:          1,
 		parseComment: true,
+		src:          source,
 	}
 }
 
@@ -189,6 +212,9 @@ func (t *Tokenizer) NextToken() (*Token, error) {
 func (t *Tokenizer) Scan(token *Token) (*Token, error) {
 	pos := t.Pos()
 	tok, str, err := t.next()
+	if err != nil && t.src != nil && t.src.err != nil {
+		err = t.src.err
+	}
 	if err == io.EOF {
 		return nil, io.EOF
 	}
-- 
2.43.0


From 82092d8605f96d78825f3123affda11b990f7cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 06/35] fix: return an error instead of panicking on malformed
 or truncated statements

---
 parser.go | 211 ++++++++++++++++++++++++------------------------------
 1 file changed, 92 insertions(+), 119 deletions(-)

diff --git a/parser.go b/parser.go
index f0c25ba..e9ab16b 100644
--- a/parser.go
+++ b/parser.go
@@ -3,7 +3,6 @@ package xsqlparser
 import (
 	"fmt"
 	"io"
-	"log"
 	"sort"
 	"strconv"
 	"strings"
@@ -61,6 +60,25 @@ func (p *Parser) SetTokens(tokens []*sqltoken.Token) {
 	p.tokens = tokens
 }
 
+// bailout carries an error from a helper that cannot return one to the exported parse function.
+type bailout struct {
+	err error
+}
+
+func bailoutf(format string, args ...interface{}) {
+	panic(&bailout{err: errors.Errorf(format, args...)})
+}
+
+func recoverBailout(err *error) {
+	if r := recover(); r != nil {
+		b, ok := r.(*bailout)
+		if !ok {
+			panic(r)
+		}
+		*err = b.err
+	}
+}
+
 func (p *Parser) ParseFile() (*sqlast.File, error) {
 	stmts, err := p.ParseSQL()
 	if err != nil {
@@ -126,7 +144,9 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	return stmts, nil
 }
 
-func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
+func (p *Parser) ParseStatement() (stmt sqlast.Stmt, err error) {
+	defer recoverBailout(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, err
@@ -169,7 +189,9 @@ func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
 	}
 }
 
-func (p *Parser) ParseDataType() (sqlast.Type, error) {
+func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
+	defer recoverBailout(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
@@ -205,8 +227,8 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Int{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "BIGINT":
-		unsigned, u, _ := p.parseKeyword("UNSIGNED")
-		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: u.To}, nil
+		unsigned, pos := p.parseMyUnsigned()
+		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "VARCHAR":
 		p, r, err := p.parseOptionalPrecision()
 		if err != nil {
@@ -269,10 +291,7 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 			return nil, errors.Errorf("parseOptionalPrecisionScale failed: %w", err)
 		}
 		p.prevToken()
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %s", r)
-		}
+		r := p.expectToken(sqltoken.RParen)
 
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Decimal{
@@ -296,7 +315,9 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 	}
 }
 
-func (p *Parser) ParseExpr() (sqlast.Node, error) {
+func (p *Parser) ParseExpr() (expr sqlast.Node, err error) {
+	defer recoverBailout(&err)
+
 	return p.parseSubexpr(0)
 }
 
@@ -361,7 +382,7 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 			Query: subquery,
 		}
 	} else {
-		log.Panicln("expect SELECT or subquery in the query body")
+		return nil, errors.Errorf("expect SELECT or subquery in the query body")
 	}
 BODY_LOOP:
 	for {
@@ -505,7 +526,7 @@ func (p *Parser) parseSelectList() ([]sqlast.SQLSelectItem, error) {
 			}
 		}
 
-		if t, _ := p.peekToken(); t.Kind == sqltoken.Comma {
+		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
 			p.mustNextToken()
 		} else {
 			break
@@ -538,9 +559,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateIndex(uiok)
 	}
 
-	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
-
-	return nil, nil
+	return nil, errors.Errorf("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
 }
 
 func (p *Parser) parseCreateTable(create *sqltoken.Token) (sqlast.Stmt, error) {
@@ -679,7 +698,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 
 		t, _ := p.nextToken()
 		if t == nil || (t.Kind != sqltoken.Comma && t.Kind != sqltoken.RParen) {
-			log.Panicf("Expected ',' or ')' after column definition but %v", t)
+			return nil, errors.Errorf("Expected ',' or ')' after column definition but %v", t)
 		} else if t.Kind == sqltoken.RParen {
 			break
 		}
@@ -690,7 +709,10 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 
 func (p *Parser) parseColumnDef() (*sqlast.ColumnDef, error) {
 	tok := p.mustNextToken()
-	columnName := tok.Value.(*sqltoken.SQLWord)
+	columnName, ok := tok.Value.(*sqltoken.SQLWord)
+	if !ok {
+		return nil, errors.Errorf("expected column name but %+v", tok)
+	}
 
 	dataType, err := p.ParseDataType()
 	if err != nil {
@@ -736,6 +758,9 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 	}
 
 	tok, _ = p.peekToken()
+	if tok == nil || tok.Kind != sqltoken.SQLKeyword {
+		return nil, errors.Errorf("expected table constraint but %+v", tok)
+	}
 
 	var spec sqlast.TableConstraintSpec
 	word = tok.Value.(*sqltoken.SQLWord)
@@ -750,10 +775,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		if err != nil {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %+v", r)
-		}
+		r := p.expectToken(sqltoken.RParen)
 		spec = &sqlast.UniqueTableConstraint{
 			Unique:  tok.From,
 			RParen:  r.To,
@@ -767,10 +789,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		if err != nil {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %+v", r)
-		}
+		r := p.expectToken(sqltoken.RParen)
 		spec = &sqlast.UniqueTableConstraint{
 			Primary:   tok.From,
 			RParen:    r.To,
@@ -788,14 +807,17 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		p.expectToken(sqltoken.RParen)
 		p.expectKeyword("REFERENCES")
 
-		t, _ := p.nextToken()
-		w := t.Value.(*sqltoken.SQLWord)
+		t := p.mustNextToken()
+		w, ok := t.Value.(*sqltoken.SQLWord)
+		if !ok {
+			return nil, errors.Errorf("expected table name but %+v", t)
+		}
 		p.expectToken(sqltoken.LParen)
 		refcolumns, err := p.parseColumnNames()
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %+v", r)
+		if err != nil {
+			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
+		r := p.expectToken(sqltoken.RParen)
 		keys := &sqlast.ReferenceKeyExpr{
 			TableName: &sqlast.Ident{
 				From:  t.From,
@@ -818,10 +840,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		if err != nil {
 			return nil, errors.Errorf("ParseExpr failed: %w", err)
 		}
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %+v", r)
-		}
+		r := p.expectToken(sqltoken.RParen)
 		spec = &sqlast.CheckTableConstraint{
 			Expr:   expr,
 			Check:  tok.From,
@@ -907,7 +926,7 @@ CONSTRAINT_LOOP:
 		}
 
 		tok, _ = p.peekToken()
-		if tok.Kind != sqltoken.SQLKeyword {
+		if tok == nil || tok.Kind != sqltoken.SQLKeyword {
 			break
 		}
 
@@ -948,10 +967,7 @@ CONSTRAINT_LOOP:
 			if err != nil {
 				return nil, errors.Errorf("parseColumnNames failed: %w", err)
 			}
-			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
-				return nil, errors.Errorf("expected RParen but %+v", r)
-			}
+			r := p.expectToken(sqltoken.RParen)
 			spec = &sqlast.ReferencesColumnSpec{
 				TableName:  tname,
 				Columns:    columns,
@@ -965,10 +981,7 @@ CONSTRAINT_LOOP:
 			if err != nil {
 				return nil, errors.Errorf("ParseExpr failed: %w", err)
 			}
-			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
-				return nil, errors.Errorf("expected RParen but %+v", r)
-			}
+			r := p.expectToken(sqltoken.RParen)
 			spec = &sqlast.CheckColumnSpec{
 				Check:  tok.From,
 				Expr:   expr,
@@ -1006,7 +1019,6 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 		}
 		opt, err := p.parseTableOption()
 		if err != nil {
-			p.Debug()
 			return nil, errors.Errorf("parseTableOption failed: %w", err)
 		}
 		opts = append(opts, opt)
@@ -1017,7 +1029,7 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 
 func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 	tok, _ := p.peekToken()
-	if tok.Kind != sqltoken.SQLKeyword {
+	if tok == nil || tok.Kind != sqltoken.SQLKeyword {
 		return nil, errors.Errorf("must be SQLKeyword but: %v", tok)
 	}
 	word, _ := tok.Value.(*sqltoken.SQLWord)
@@ -1029,13 +1041,13 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 			Engine: tok.From,
 		}
 		t, _ := p.peekToken()
-		if t.Kind == sqltoken.Eq {
+		if t != nil && t.Kind == sqltoken.Eq {
 			opt.Equal = true
 			p.mustNextToken()
 			t, _ = p.peekToken()
 		}
 
-		if t.Kind != sqltoken.SQLKeyword {
+		if t == nil || t.Kind != sqltoken.SQLKeyword {
 			return nil, errors.Errorf("expected '=' or 'engine_name' but: %v", t)
 		}
 		name, _ := p.parseIdentifier()
@@ -1053,13 +1065,13 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 		opt.Charset = t.From
 
 		t, _ = p.peekToken()
-		if t.Kind == sqltoken.Eq {
+		if t != nil && t.Kind == sqltoken.Eq {
 			opt.Equal = true
 			p.mustNextToken()
 			t, _ = p.peekToken()
 		}
 
-		if t.Kind != sqltoken.SQLKeyword {
+		if t == nil || t.Kind != sqltoken.SQLKeyword {
 			return nil, errors.Errorf("expected '=' or 'charset_name' but: %v", t)
 		}
 
@@ -1073,13 +1085,13 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 			Charset: tok.From,
 		}
 		t, _ := p.peekToken()
-		if t.Kind == sqltoken.Eq {
+		if t != nil && t.Kind == sqltoken.Eq {
 			opt.Equal = true
 			p.mustNextToken()
 			t, _ = p.peekToken()
 		}
 
-		if t.Kind != sqltoken.SQLKeyword {
+		if t == nil || t.Kind != sqltoken.SQLKeyword {
 			return nil, errors.Errorf("expected '=' or 'charset_name' but: %v", t)
 		}
 
@@ -1157,7 +1169,7 @@ func (p *Parser) parseAssignments() ([]*sqlast.Assignment, error) {
 
 	for {
 		tok, _ := p.nextToken()
-		if tok.Kind != sqltoken.SQLKeyword {
+		if tok == nil || tok.Kind != sqltoken.SQLKeyword {
 			return nil, errors.Errorf("should be sqlkeyword but %v", tok)
 		}
 
@@ -1217,18 +1229,12 @@ func (p *Parser) parseInsert() (sqlast.Stmt, error) {
 	} else {
 		var constSrc sqlast.ConstructorSource
 		for {
-			l, _ := p.nextToken()
-			if l.Kind != sqltoken.LParen {
-				return nil, errors.Errorf("expected LParen but %+v", l)
-			}
+			l := p.expectToken(sqltoken.LParen)
 			v, err := p.parseExprList()
 			if err != nil {
 				return nil, errors.Errorf("invalid insert value assign: %w", err)
 			}
-			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
-				return nil, errors.Errorf("expected RParen but %+v", r)
-			}
+			r := p.expectToken(sqltoken.RParen)
 			constSrc.Rows = append(constSrc.Rows, &sqlast.RowValueExpr{
 				Values: v,
 				LParen: l.From,
@@ -1526,6 +1532,9 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	maybeAlias, _ := p.nextToken()
 
 	if maybeAlias == nil {
+		if afterAs {
+			bailoutf("expected an identifier after AS")
+		}
 		return nil
 	}
 
@@ -1541,7 +1550,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 		}
 	}
 	if afterAs {
-		log.Panicf("expected an identifier after AS")
+		bailoutf("expected an identifier after AS")
 	}
 	p.prevToken()
 	return nil
@@ -1732,7 +1741,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 }
 
 func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
-	tok, _ := p.nextToken()
+	tok := p.mustNextToken()
 	word, ok := tok.Value.(*sqltoken.SQLWord)
 	if !ok {
 		return nil, errors.Errorf("unknown join type %v", tok)
@@ -2054,8 +2063,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		return p.parsePGCast(expr)
 	}
 
-	log.Panicf("no infix parser for sqltoken %+v", tok)
-	return nil, nil
+	return nil, errors.Errorf("no infix parser for sqltoken %+v", tok)
 }
 
 // TODO position
@@ -2081,10 +2089,7 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %+v", r)
-		}
+		r := p.expectToken(sqltoken.RParen)
 		inop = &sqlast.InSubQuery{
 			RParen:   r.To,
 			Negated:  negated,
@@ -2096,10 +2101,7 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 		if err != nil {
 			return nil, errors.Errorf("parseExprList failed: %w", err)
 		}
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %+v", r)
-		}
+		r := p.expectToken(sqltoken.RParen)
 		inop = &sqlast.InList{
 			RParen:  r.To,
 			Expr:    expr,
@@ -2341,10 +2343,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 			if err != nil {
 				return nil, errors.Errorf("parseQuery failed: %w", err)
 			}
-			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
-				return nil, errors.Errorf("expected RParen but %+v", r)
-			}
+			r := p.expectToken(sqltoken.RParen)
 			ast = &sqlast.SubQuery{
 				LParen: tok.From,
 				RParen: r.To,
@@ -2355,10 +2354,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 			if err != nil {
 				return nil, errors.Errorf("parseQuery failed: %w", err)
 			}
-			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
-				return nil, errors.Errorf("expected RParen but %+v", r)
-			}
+			r := p.expectToken(sqltoken.RParen)
 			ast = &sqlast.Nested{
 				LParen: tok.From,
 				RParen: r.To,
@@ -2367,8 +2363,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		}
 		return ast, nil
 	}
-	log.Panicf("prefix parser expected a keyword but hit EOF")
-	return nil, nil
+	return nil, errors.Errorf("prefix parser expected an expression but %+v", tok)
 }
 
 func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
@@ -2378,10 +2373,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 		return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 	}
 
-	r, _ := p.nextToken()
-	if r.Kind != sqltoken.RParen {
-		return nil, errors.Errorf("expected RParen but %+v", r)
-	}
+	r := p.expectToken(sqltoken.RParen)
 
 	var over *sqlast.WindowSpec
 	if ok, _, _ := p.parseKeyword("OVER"); ok {
@@ -2486,7 +2478,7 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 	var windowFrame *sqlast.WindowFrame
 	t, _ := p.peekToken()
-	if t.Kind == sqltoken.SQLKeyword {
+	if t != nil && t.Kind == sqltoken.SQLKeyword {
 		w := t.Value.(*sqltoken.SQLWord)
 		var u sqlast.WindowFrameUnit
 
@@ -2560,8 +2552,7 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
 		return &sqlast.Following{Bound: rows}, nil
 	}
-	log.Panicln("expected PRECEDING or FOLLOWING")
-	return nil, nil
+	return nil, errors.Errorf("expected PRECEDING or FOLLOWING")
 }
 
 func (p *Parser) parseObjectName() (*sqlast.ObjectName, error) {
@@ -2655,11 +2646,7 @@ func (p *Parser) parseOptionalPrecision() (*uint, sqltoken.Pos, error) {
 		if err != nil {
 			return nil, sqltoken.Pos{}, errors.Errorf("parseLiteralInt failed: %w", err)
 		}
-		tok, _ := p.nextToken()
-
-		if tok.Kind != sqltoken.RParen {
-			return nil, sqltoken.Pos{}, errors.Errorf("expected RParen but %s", tok)
-		}
+		tok := p.expectToken(sqltoken.RParen)
 		i := uint(n)
 		return &i, tok.To, nil
 	} else {
@@ -2690,7 +2677,7 @@ func (p *Parser) parseOptionalPrecisionScale() (*uint, *uint, error) {
 }
 
 func (p *Parser) parseLiteralInt() (int, *sqltoken.Token, error) {
-	tok, _ := p.nextToken()
+	tok := p.mustNextToken()
 	if tok.Kind != sqltoken.Number {
 		return 0, nil, errors.Errorf("expect literal int but %v", tok.Kind)
 	}
@@ -2811,10 +2798,7 @@ func (p *Parser) parseCastExpression() (sqlast.Node, error) {
 	if err != nil {
 		return nil, errors.Errorf("ParseDataType")
 	}
-	r, _ := p.nextToken()
-	if r.Kind != sqltoken.RParen {
-		return nil, errors.Errorf("expect RParen but %+v", r)
-	}
+	r := p.expectToken(sqltoken.RParen)
 
 	return &sqlast.Cast{
 		Expr:     expr,
@@ -2836,10 +2820,7 @@ func (p *Parser) parseExistsExpression(negatedTok *sqltoken.Token) (sqlast.Node,
 		return nil, errors.Errorf("parseQuery failed: %w", err)
 	}
 
-	r, _ := p.nextToken()
-	if r.Kind != sqltoken.RParen {
-		return nil, errors.Errorf("expect RParen but %+v", r)
-	}
+	r := p.expectToken(sqltoken.RParen)
 
 	if negatedTok != nil {
 		return &sqlast.Exists{
@@ -2869,27 +2850,19 @@ func (p *Parser) parseMyUnsigned() (bool, sqltoken.Pos) {
 func (p *Parser) expectKeyword(expected string) *sqltoken.Token {
 	ok, tok, err := p.parseKeyword(expected)
 	if err != nil || !ok {
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be expected keyword: %s err: %v", expected, err)
+		bailoutf("should be expected keyword: %s but %+v err: %v", expected, tok, err)
 	}
 
 	return tok
 }
 
-func (p *Parser) expectToken(expected sqltoken.Kind) {
-	ok, err := p.consumeToken(expected)
-	if err != nil || !ok {
-		tok, _ := p.peekToken()
-
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err)
+func (p *Parser) expectToken(expected sqltoken.Kind) *sqltoken.Token {
+	tok, err := p.peekToken()
+	if err != nil || tok.Kind != expected {
+		bailoutf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err)
 	}
+
+	return p.mustNextToken()
 }
 
 func (p *Parser) consumeToken(expected sqltoken.Kind) (bool, error) {
@@ -2911,7 +2884,7 @@ func (p *Parser) consumeToken(expected sqltoken.Kind) (bool, error) {
 func (p *Parser) mustNextToken() *sqltoken.Token {
 	tok, err := p.nextToken()
 	if err != nil {
-		log.Panicf("%+v", err)
+		bailoutf("nextToken failed: %w", err)
 	}
 
 	return tok
-- 
2.43.0


From 25e3b8f8e147c16f77530b38bedd1dc96f1f68b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 07/35] fix: never take a delimited identifier for a keyword

---
 parser.go | 54 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/parser.go b/parser.go
index e9ab16b..3783b1b 100644
--- a/parser.go
+++ b/parser.go
@@ -156,7 +156,7 @@ func (p *Parser) ParseStatement() (stmt sqlast.Stmt, err error) {
 		return nil, errors.Errorf("a keyword at the beginning of statement %s", tok.Value)
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "SELECT", "WITH":
 		p.prevToken()
 		return p.parseQuery()
@@ -185,7 +185,7 @@ func (p *Parser) ParseStatement() (stmt sqlast.Stmt, err error) {
 		}
 		return &sqlast.ExplainStmt{Stmt: stmt}, nil
 	default:
-		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", word.Keyword)
+		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", word)
 	}
 }
 
@@ -201,7 +201,7 @@ func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
 		return nil, errors.Errorf("must be datatype name but %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "BOOLEAN":
 		return &sqlast.Boolean{
 			From: tok.From,
@@ -426,7 +426,7 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 		return nil
 	}
 	word := token.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keyword(word) {
 	case "UNION":
 		return &sqlast.UnionOperator{}
 	case "EXCEPT":
@@ -677,7 +677,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 		}
 
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "CONSTRAINT", "PRIMARY", "CHECK", "FOREIGN", "UNIQUE":
 			p.prevToken()
 			constraints, err := p.parseTableConstraints()
@@ -747,7 +747,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var constraintPos sqltoken.Pos
 	var name *sqlast.Ident
-	if ok && word.Keyword == "CONSTRAINT" {
+	if ok && keyword(word) == "CONSTRAINT" {
 		constraintPos = tok.From
 		p.mustNextToken()
 		i, err := p.parseIdentifier()
@@ -764,7 +764,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var spec sqlast.TableConstraintSpec
 	word = tok.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keyword(word) {
 	case "UNIQUE":
 		p.mustNextToken()
 		if _, _, err := p.parseKeyword("KEY"); err != nil {
@@ -872,7 +872,7 @@ COLUMN_DEF_LOOP:
 
 		word := t.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keyword(word) {
 		case "DEFAULT":
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 				d, err := p.parseDefaultExpr(0)
@@ -916,7 +916,7 @@ CONSTRAINT_LOOP:
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
 		var name *sqlast.Ident
-		if ok && word.Keyword == "CONSTRAINT" {
+		if ok && keyword(word) == "CONSTRAINT" {
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
 			if err != nil {
@@ -933,7 +933,7 @@ CONSTRAINT_LOOP:
 		var spec sqlast.ColumnConstraintSpec
 
 		word = tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "NOT":
 			p.mustNextToken()
 			ok, ntok, _ := p.parseKeyword("NULL")
@@ -1035,7 +1035,7 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 	word, _ := tok.Value.(*sqltoken.SQLWord)
 
 	p.mustNextToken()
-	switch word.Keyword {
+	switch keyword(word) {
 	case "ENGINE":
 		opt := &sqlast.MyEngine{
 			Engine: tok.From,
@@ -1429,7 +1429,7 @@ func (p *Parser) parseAlterColumn(alt *sqltoken.Token) (*sqlast.AlterColumnTable
 
 	word := tok.Value.(*sqltoken.SQLWord)
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "SET":
 		if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 			def, err := p.parseDefaultExpr(0)
@@ -1507,7 +1507,7 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		tok, _ := p.peekToken()
 		if tok != nil && tok.Kind == sqltoken.SQLKeyword {
 			w := tok.Value.(*sqltoken.SQLWord)
-			if w.Keyword == "NOT" || w.Keyword == "NULL" {
+			if keyword(w) == "NOT" || keyword(w) == "NULL" {
 				break
 			}
 		}
@@ -1541,7 +1541,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	if maybeAlias.Kind == sqltoken.SQLKeyword {
 
 		word := maybeAlias.Value.(*sqltoken.SQLWord)
-		if afterAs || !containsStr(reservedKeywords, word.Keyword) {
+		if afterAs || !containsStr(reservedKeywords, keyword(word)) {
 			return &sqlast.Ident{
 				Value: word.String(),
 				From:  maybeAlias.From,
@@ -1663,7 +1663,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 		return nil, nil
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "NATURAL":
 		tp, err := p.parseJoinType()
 		if err != nil {
@@ -1747,7 +1747,7 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 		return nil, errors.Errorf("unknown join type %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "INNER":
 		return &sqlast.JoinType{
 			Condition: sqlast.INNER,
@@ -2003,7 +2003,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		operator = sqlast.Divide
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "AND":
 			operator = sqlast.And
 		case "OR":
@@ -2034,7 +2034,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	if tok.Kind == sqltoken.SQLKeyword {
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keyword(word) {
 		case "IS":
 			if ok, _, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
@@ -2144,7 +2144,7 @@ func (p *Parser) getPrecedence(ts *sqltoken.Token) uint {
 	switch ts.Kind {
 	case sqltoken.SQLKeyword:
 		word := ts.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "OR":
 			return 5
 		case "AND":
@@ -2184,7 +2184,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 	switch tok.Kind {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "TRUE", "FALSE", "NULL":
 			p.prevToken()
 			t, err := p.parseSQLValue()
@@ -2483,7 +2483,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		var u sqlast.WindowFrameUnit
 
 		// FIXME
-		units, err := u.FromStr(w.Keyword)
+		units, err := u.FromStr(keyword(w))
 		if err != nil {
 			return nil, errors.Errorf("invalid window frame unit: %w", err)
 		}
@@ -2579,7 +2579,7 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keyword(word) {
 		case "TRUE":
 			return &sqlast.BooleanValue{
 				From:    tok.From,
@@ -3076,7 +3076,7 @@ func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 		return false, tok, nil
 	}
 
-	if strings.EqualFold(word.Value, expected) {
+	if word.QuoteStyle == 0 && strings.EqualFold(word.Value, expected) {
 		p.mustNextToken()
 		return true, tok, nil
 	}
@@ -3090,6 +3090,14 @@ func (p *Parser) Debug() {
 	fmt.Println()
 }
 
+// keyword returns the upper-cased word, or "" for a delimited identifier, which is never a keyword.
+func keyword(word *sqltoken.SQLWord) string {
+	if word.QuoteStyle != 0 {
+		return ""
+	}
+	return word.Keyword
+}
+
 func containsStr(strmap map[string]struct{}, t string) bool {
 	_, ok := strmap[t]
 	return ok
-- 
2.43.0


From c8a4ecdf4f2a19ef6f4a614325213c9c36ed6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 08/35] fix: do not take LIMIT, HAVING or ON for an alias

---
 dialect/keywords.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dialect/keywords.go b/dialect/keywords.go
index 07f152e..edc2384 100644
--- a/dialect/keywords.go
+++ b/dialect/keywords.go
@@ -372,6 +372,8 @@ func init() {
 	ReservedForTableAlias[RIGHT] = struct{}{}
 	ReservedForTableAlias[NATURAL] = struct{}{}
 	ReservedForTableAlias[USING] = struct{}{}
+	ReservedForTableAlias[HAVING] = struct{}{}
+	ReservedForTableAlias[LIMIT] = struct{}{}
 
 	ReservedForColumnAlias = make(map[string]struct{})
 	ReservedForColumnAlias[WITH] = struct{}{}
@@ -383,6 +385,9 @@ func init() {
 	ReservedForColumnAlias[EXCEPT] = struct{}{}
 	ReservedForColumnAlias[INTERSECT] = struct{}{}
 	ReservedForColumnAlias[FROM] = struct{}{}
+	ReservedForColumnAlias[HAVING] = struct{}{}
+	ReservedForColumnAlias[LIMIT] = struct{}{}
+	ReservedForColumnAlias[ON] = struct{}{}
 }
 
 const (
-- 
2.43.0


From 33727326c724465f55e93fd62299aa0964fc921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:34 +0000
Subject: [PATCH 09/35] fix: join a CROSS or NATURAL JOIN to everything on its
 left, one table at a time

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 3783b1b..a01a775 100644
--- a/parser.go
+++ b/parser.go
@@ -1632,7 +1632,7 @@ func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
 			}
 			e = rtp
 		case *sqlast.CrossJoin:
-			rtp.Reference = leftElem
+			rtp.Reference = e
 			e = rtp
 		case *sqlast.QualifiedJoin:
 			rtp.LeftElement = &sqlast.TableJoinElement{
@@ -1670,7 +1670,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 			return nil, errors.Errorf("parse natural join type failed: %w", err)
 		}
 		p.expectKeyword("JOIN")
-		rightElem, err := p.parseTableReference()
+		rightElem, err := p.parseTableFactor()
 		if err != nil {
 			return nil, errors.Errorf("parse natural join right element failed: %w", err)
 		}
-- 
2.43.0


From 56df818d9c6c1b9521b57c9764b97f8787aa5335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 10/35] fix: read the closing parenthesis of a table function
 and keep an empty argument list

---
 parser.go       | 14 ++++++++++----
 sqlast/query.go |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index a01a775..a5d8493 100644
--- a/parser.go
+++ b/parser.go
@@ -1842,12 +1842,17 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		return nil, errors.Errorf("parseObjectName failed: %w", err)
 	}
 	var args []sqlast.Node
+	var argsRParen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		a, err := p.parseOptionalArgs()
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 		}
 		args = a
+		if args == nil {
+			args = []sqlast.Node{}
+		}
+		argsRParen = p.expectToken(sqltoken.RParen).To
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
@@ -1866,10 +1871,11 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 	}
 
 	return &sqlast.Table{
-		Name:      name,
-		Args:      args,
-		Alias:     alias,
-		WithHints: withHints,
+		Name:       name,
+		Args:       args,
+		ArgsRParen: argsRParen,
+		Alias:      alias,
+		WithHints:  withHints,
 	}, nil
 
 }
diff --git a/sqlast/query.go b/sqlast/query.go
index 8638133..e408caa 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -326,7 +326,7 @@ func (t *Table) End() sqltoken.Pos {
 		return t.Alias.End()
 	}
 
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		return t.ArgsRParen
 	}
 
@@ -340,7 +340,7 @@ func (t *Table) ToSQLString() string {
 func (t *Table) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Node(t.Name)
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		sw.LParen().Nodes(t.Args).RParen()
 	}
 	if t.Alias != nil {
-- 
2.43.0


From f7fd28db0e44987d05d8601d0a24904a1dbbfa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 11/35] fix: keep every column constraint, also around DEFAULT
 and AUTO_INCREMENT

---
 parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index a5d8493..6a43d2a 100644
--- a/parser.go
+++ b/parser.go
@@ -887,7 +887,7 @@ COLUMN_DEF_LOOP:
 			if err != nil {
 				return nil, nil, nil, errors.Errorf("parseColumnConstraints failed: %w", err)
 			}
-			specs = s
+			specs = append(specs, s...)
 		case "AUTO_INCREMENT":
 			p.mustNextToken()
 			decorates = append(decorates, &sqlast.AutoIncrement{
@@ -927,6 +927,9 @@ CONSTRAINT_LOOP:
 
 		tok, _ = p.peekToken()
 		if tok == nil || tok.Kind != sqltoken.SQLKeyword {
+			if name != nil {
+				return nil, errors.Errorf("expected column constraint after CONSTRAINT %s but %+v", name.Value, tok)
+			}
 			break
 		}
 
@@ -988,6 +991,9 @@ CONSTRAINT_LOOP:
 				RParen: r.To,
 			}
 		default:
+			if name != nil {
+				return nil, errors.Errorf("expected column constraint after CONSTRAINT %s but %+v", name.Value, tok)
+			}
 			break CONSTRAINT_LOOP
 		}
 
-- 
2.43.0


From 3acacc9be6e241e75c2a4dc8f0be129a971506c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 12/35] fix: group NOT IN, NOT BETWEEN and NOT LIKE like IN,
 BETWEEN and LIKE and read whole expressions as BETWEEN bounds

---
 parser.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/parser.go b/parser.go
index 6a43d2a..4f2b05e 100644
--- a/parser.go
+++ b/parser.go
@@ -2125,14 +2125,14 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 }
 
 func (p *Parser) parseBetween(expr sqlast.Node, negated bool) (sqlast.Node, error) {
-	low, err := p.parsePrefix()
+	low, err := p.parseSubexpr(betweenPrecedence)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr: %w", err)
 	}
 	p.expectKeyword("AND")
-	high, err := p.parsePrefix()
+	high, err := p.parseSubexpr(betweenPrecedence)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr: %w", err)
 	}
 
 	return &sqlast.Between{
@@ -2152,6 +2152,11 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 	return p.getPrecedence(tok), nil
 }
 
+const (
+	notPrecedence     uint = 15 // prefix NOT
+	betweenPrecedence uint = 20
+)
+
 func (p *Parser) getPrecedence(ts *sqltoken.Token) uint {
 	switch ts.Kind {
 	case sqltoken.SQLKeyword:
@@ -2161,14 +2166,14 @@ func (p *Parser) getPrecedence(ts *sqltoken.Token) uint {
 			return 5
 		case "AND":
 			return 10
-		case "NOT":
-			return 15
+		case "NOT": // NOT IN, NOT BETWEEN, NOT LIKE
+			return 20
 		case "IS":
 			return 17
 		case "IN":
 			return 20
 		case "BETWEEN":
-			return 20
+			return betweenPrecedence
 		case "LIKE":
 			return 20
 		default:
@@ -2236,12 +2241,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				return ast, nil
 			}
 
-			ts := &sqltoken.Token{
-				Kind:  sqltoken.SQLKeyword,
-				Value: sqltoken.MakeKeyword("NOT", 0),
-			}
-			precedence := p.getPrecedence(ts)
-			expr, err := p.parseSubexpr(precedence)
+			expr, err := p.parseSubexpr(notPrecedence)
 			if err != nil {
 				return nil, errors.Errorf("parseSubexpr failed: %w", err)
 			}
-- 
2.43.0


From 9cb248f4f37277b63753b77f0cc5b5e49e5151de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 13/35] fix: pass the cause to the error of a malformed DEFAULT
 expression

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 4f2b05e..b5d67f8 100644
--- a/parser.go
+++ b/parser.go
@@ -1527,7 +1527,7 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		}
 		expr, err = p.parseInfix(expr, nextPrecedence)
 		if err != nil {
-			return nil, errors.Errorf("parseInfix failed: %w")
+			return nil, errors.Errorf("parseInfix failed: %w", err)
 		}
 	}
 	return expr, nil
@@ -2340,7 +2340,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		p.prevToken()
 		v, err := p.parseSQLValue()
 		if err != nil {
-			return nil, errors.Errorf("parseSQLValue failed", err)
+			return nil, errors.Errorf("parseSQLValue failed: %w", err)
 		}
 		return v, nil
 	case sqltoken.LParen:
-- 
2.43.0


From b243440552dbc3de13fd79549edaed5738c5661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 14/35] fix: keep MATERIALIZED of CREATE MATERIALIZED VIEW

---
 parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index b5d67f8..876efa2 100644
--- a/parser.go
+++ b/parser.go
@@ -548,8 +548,10 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	vok, _, _ := p.parseKeyword("VIEW")
 
 	if mok || vok {
-		p.prevToken()
-		return p.parseCreateView(t)
+		if !vok {
+			p.expectKeyword("VIEW")
+		}
+		return p.parseCreateView(t, mok)
 	}
 
 	iok, _, _ := p.parseKeyword("INDEX")
@@ -588,9 +590,7 @@ func (p *Parser) parseCreateTable(create *sqltoken.Token) (sqlast.Stmt, error) {
 	}, nil
 }
 
-func (p *Parser) parseCreateView(create *sqltoken.Token) (sqlast.Stmt, error) {
-	materialized, _, _ := p.parseKeyword("MATERIALIZED")
-	p.expectKeyword("VIEW")
+func (p *Parser) parseCreateView(create *sqltoken.Token, materialized bool) (sqlast.Stmt, error) {
 	name, err := p.parseObjectName()
 	if err != nil {
 		return nil, errors.Errorf("parseObjectName failed: %w", err)
-- 
2.43.0


From b4f7d573abea1dc45ccd5c707d7dea93c9abcdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 15/35] fix: accept a script whose last statement has no
 semicolon

---
 parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 876efa2..6cd0ce3 100644
--- a/parser.go
+++ b/parser.go
@@ -108,8 +108,9 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	for {
 		ok, _ := p.consumeToken(sqltoken.Semicolon)
 		if !ok && expectingDelimiter {
-			tok, _ := p.peekToken()
-			return nil, errors.Errorf("expect semicolon but %+v", tok)
+			if tok, err := p.peekToken(); err != EOF {
+				return nil, errors.Errorf("expect semicolon but %+v", tok)
+			}
 		}
 
 		if p.parseComment {
-- 
2.43.0


From 5b3ef7643046403931e39253121f6d38ff83d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 16/35] fix: reject an integer literal that does not fit 64
 bits instead of clamping it

---
 parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 6cd0ce3..948678b 100644
--- a/parser.go
+++ b/parser.go
@@ -2626,9 +2626,12 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 				Double: f,
 			}, nil
 		} else {
-			i, _ := strconv.Atoi(num)
+			i, err := strconv.ParseInt(num, 10, 64)
+			if err != nil {
+				return nil, errors.Errorf("parseInt failed %s", num)
+			}
 			return &sqlast.LongValue{
-				Long: int64(i),
+				Long: i,
 				From: tok.From,
 				To:   tok.To,
 			}, nil
-- 
2.43.0


From 706351cf9562d8d33fe11afd6ef4b3e13f207de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 17/35] fix: parse OFFSET after LIMIT ALL and take the offset's
 position from its value

---
 parser.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/parser.go b/parser.go
index 948678b..8a4a790 100644
--- a/parser.go
+++ b/parser.go
@@ -1888,18 +1888,24 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 }
 
 func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
-	if ok, _, _ := p.parseKeyword("ALL"); ok {
-		return &sqlast.LimitExpr{All: true}, nil
-	}
+	all, _, _ := p.parseKeyword("ALL")
 
-	i, tok, err := p.parseLiteralInt()
-	if err != nil {
-		return nil, errors.Errorf("invalid limit value: %w", err)
+	var limit *sqlast.LongValue
+	if !all {
+		i, tok, err := p.parseLiteralInt()
+		if err != nil {
+			return nil, errors.Errorf("invalid limit value: %w", err)
+		}
+		limit = &sqlast.LongValue{
+			Long: int64(i),
+			From: tok.From,
+			To:   tok.To,
+		}
 	}
 
 	var offset *sqlast.LongValue
-	if ok, tok, _ := p.parseKeyword("OFFSET"); ok {
-		o, _, err := p.parseLiteralInt()
+	if ok, _, _ := p.parseKeyword("OFFSET"); ok {
+		o, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("invalid offset value: %w", err)
 		}
@@ -1911,11 +1917,8 @@ func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
 	}
 
 	return &sqlast.LimitExpr{
-		LimitValue: &sqlast.LongValue{
-			Long: int64(i),
-			From: tok.From,
-			To:   tok.To,
-		},
+		All:         all,
+		LimitValue:  limit,
 		OffsetValue: offset,
 	}, nil
 }
-- 
2.43.0


From 8b0bacde8641082fe5e619ae9c322178ff555053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 18/35] fix: accept NUMERIC without a precision

---
 parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 8a4a790..a052c78 100644
--- a/parser.go
+++ b/parser.go
@@ -291,8 +291,11 @@ func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalPrecisionScale failed: %w", err)
 		}
-		p.prevToken()
-		r := p.expectToken(sqltoken.RParen)
+		r := tok
+		if precision != nil {
+			p.prevToken()
+			r = p.expectToken(sqltoken.RParen)
+		}
 
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Decimal{
-- 
2.43.0


From 6cf80c25bd6310947bfd27d8fe2882e2f37b9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 19/35] fix: read the table option that follows a comma

---
 parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index a052c78..36cefd4 100644
--- a/parser.go
+++ b/parser.go
@@ -1021,10 +1021,9 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 			return nil, err
 		}
 
-		if tok.Kind == sqltoken.Comma {
-			tok = p.mustNextToken()
-		}
-		if tok.Kind != sqltoken.SQLKeyword {
+		if tok.Kind == sqltoken.Comma && len(opts) > 0 {
+			p.mustNextToken()
+		} else if tok.Kind != sqltoken.SQLKeyword {
 			break
 		}
 		opt, err := p.parseTableOption()
-- 
2.43.0


From c612a65c06cb6879c4837b32917b6ad6b4b2ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 20/35] fix: print no empty parentheses for a table without
 elements or an index without columns

---
 sqlast/stmt.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index bc52ea8..0cd58b8 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -299,12 +299,16 @@ func (c *CreateTableStmt) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Bytes([]byte("CREATE TABLE "))
 	sw.If(c.NotExists, []byte("IF NOT EXISTS "))
-	sw.Node(c.Name).Space().LParen()
-	for i, element := range c.Elements {
-		sw.JoinComma(i, element)
+	sw.Node(c.Name)
+	if len(c.Elements) != 0 {
+		sw.Space().LParen()
+		for i, element := range c.Elements {
+			sw.JoinComma(i, element)
+		}
+		sw.RParen()
 	}
-	sw.RParen()
 	if len(c.Options) != 0 {
+		sw.If(len(c.Elements) == 0, []byte(" "))
 		for i, option := range c.Options {
 			sw.JoinComma(i, option)
 		}
@@ -1081,7 +1085,9 @@ func (c *CreateIndexStmt) WriteTo(w io.Writer) (int64, error) {
 	if c.MethodName != nil {
 		sw.Bytes([]byte(" USING ")).Node(c.MethodName)
 	}
-	sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	if len(c.ColumnNames) != 0 {
+		sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	}
 	if c.Selection != nil {
 		sw.Bytes([]byte(" WHERE ")).Node(c.Selection)
 	}
-- 
2.43.0


From d040cc42c4c15a18fd178e26ce4e187078e21022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 21/35] fix: print the single quotes of a string literal
 doubled

---
 sqlast/value.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index e954b18..7ca51dc 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -1,9 +1,9 @@
 package sqlast
 
 import (
-	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/akito0107/xsqlparser/sqltoken"
@@ -112,7 +112,7 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n), err
 	}
-	n1, err := io.WriteString(w, s.String)
+	n1, err := io.WriteString(w, escapeQuote(s.String))
 	if err != nil {
 		return int64(n + n1), err
 	}
@@ -120,6 +120,11 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	return int64(n + n1 + n2), err
 }
 
+// escapeQuote doubles the single quotes of a string's content.
+func escapeQuote(s string) string {
+	return strings.Replace(s, "'", "''", -1)
+}
+
 type NationalStringLiteral struct {
 	From, To sqltoken.Pos
 	String   string
@@ -144,7 +149,7 @@ func (n *NationalStringLiteral) Value() interface{} {
 }
 
 func (n *NationalStringLiteral) ToSQLString() string {
-	return fmt.Sprintf("N'%s'", n.String)
+	return toSQLString(n)
 }
 
 func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
@@ -152,7 +157,7 @@ func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n0), err
 	}
-	n1, err := io.WriteString(w, n.String)
+	n1, err := io.WriteString(w, escapeQuote(n.String))
 	if err != nil {
 		return int64(n0 + n1), err
 	}
-- 
2.43.0


From 136545596532ef59246e4cd120c5f63a355e0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 22/35] fix: print a whole decimal literal with its point

---
 sqlast/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlast/value.go b/sqlast/value.go
index 7ca51dc..38ca51b 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -1,6 +1,7 @@
 package sqlast
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 	"strings"
@@ -76,6 +77,10 @@ func (d *DoubleValue) ToSQLString() string {
 func (d *DoubleValue) WriteTo(w io.Writer) (int64, error) {
 	var b [32] byte
 	buf := strconv.AppendFloat(b[:0], d.Double, 'f', -1, 64)
+	if bytes.IndexByte(buf, '.') < 0 {
+		// without a point it would be an integer literal
+		buf = append(buf, ".0"...)
+	}
 	n, err := w.Write(buf)
 	return int64(n), err
 }
-- 
2.43.0


From f695e0b8e297da149c5aee2da460d11b5ea4d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 23/35] fix: separate the statements of a printed file with
 semicolons

---
 sqlast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 20144c4..f50762f 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -55,7 +55,7 @@ func (f *File) ToSQLString() string {
 func (f *File) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	for i, stmt := range f.Stmts {
-		sw.JoinNewLine(i, stmt)
+		sw.Join(i, stmt, []byte(";\n"))
 	}
 	return sw.End()
 }
-- 
2.43.0


From 6a6e99a5d2d4b2d88a646f99760ed243d9229de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 24/35] fix: keep WITH TIME ZONE of a TIME column

---
 parser.go      |  2 +-
 sqlast/type.go | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 36cefd4..cf17f09 100644
--- a/parser.go
+++ b/parser.go
@@ -273,7 +273,7 @@ func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
 		}
-		return &sqlast.Time{}, nil
+		return &sqlast.Time{WithTimeZone: wok}, nil
 	case "REGCLASS":
 		return &sqlast.Regclass{}, nil
 	case "TEXT":
diff --git a/sqlast/type.go b/sqlast/type.go
index d1445ff..27e7fb3 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -403,7 +403,8 @@ func (*Date) WriteTo(w io.Writer) (int64, error) {
 }
 
 type Time struct {
-	From, To sqltoken.Pos
+	From, To     sqltoken.Pos
+	WithTimeZone bool
 }
 
 func (t *Time) Pos() sqltoken.Pos {
@@ -414,12 +415,14 @@ func (t *Time) End() sqltoken.Pos {
 	return t.To
 }
 
-func (*Time) ToSQLString() string {
-	return "time"
+func (t *Time) ToSQLString() string {
+	return toSQLString(t)
 }
 
-func (*Time) WriteTo(w io.Writer) (int64, error) {
-	return writeSingleBytes(w, []byte("time"))
+func (t *Time) WriteTo(w io.Writer) (int64, error) {
+	sw := newSQLWriter(w)
+	sw.Bytes([]byte("time")).If(t.WithTimeZone, []byte(" with time zone"))
+	return sw.End()
 }
 
 type Timestamp struct {
-- 
2.43.0


From acbc05ba14dcf71cf43643094a4bfbaae0894f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 25/35] fix: do not skip a keyword that follows its alternative
 (SELECT WITH, WITH WITHOUT, INDEX UNIQUE INDEX)

---
 parser.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index cf17f09..ee4c1a4 100644
--- a/parser.go
+++ b/parser.go
@@ -257,7 +257,10 @@ func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
 		return &sqlast.Date{}, nil
 	case "TIMESTAMP":
 		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
+		ook := false
+		if !wok {
+			ook, _, _ = p.parseKeyword("WITHOUT")
+		}
 		if wok || ook {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
@@ -268,7 +271,10 @@ func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
 		}, nil
 	case "TIME":
 		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
+		ook := false
+		if !wok {
+			ook, _, _ = p.parseKeyword("WITHOUT")
+		}
 		if wok || ook {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
@@ -558,8 +564,11 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateView(t, mok)
 	}
 
+	uiok := false
 	iok, _, _ := p.parseKeyword("INDEX")
-	uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX")
+	if !iok {
+		uiok, _, _ = p.parseKeywords("UNIQUE", "INDEX")
+	}
 
 	if iok || uiok {
 		return p.parseCreateIndex(uiok)
@@ -2098,8 +2107,11 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 
 func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 	p.expectToken(sqltoken.LParen)
+	wok := false
 	sok, _, _ := p.parseKeyword("SELECT")
-	wok, _, _ := p.parseKeyword("WITH")
+	if !sok {
+		wok, _, _ = p.parseKeyword("WITH")
+	}
 	var inop sqlast.Node
 	if sok || wok {
 		p.prevToken()
@@ -2350,8 +2362,11 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		}
 		return v, nil
 	case sqltoken.LParen:
+		wok := false
 		sok, _, _ := p.parseKeyword("SELECT")
-		wok, _, _ := p.parseKeyword("WITH")
+		if !sok {
+			wok, _, _ = p.parseKeyword("WITH")
+		}
 
 		var ast sqlast.Node
 
-- 
2.43.0


From b80de438d75d05564829ed8cf4c3414660ac77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 26/35] fix: reject a second DEFAULT clause of a column instead
 of dropping the first

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index ee4c1a4..85d5890 100644
--- a/parser.go
+++ b/parser.go
@@ -888,6 +888,9 @@ COLUMN_DEF_LOOP:
 		switch keyword(word) {
 		case "DEFAULT":
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
+				if def != nil {
+					return nil, nil, nil, errors.Errorf("multiple DEFAULT clauses at %+v", t.From)
+				}
 				d, err := p.parseDefaultExpr(0)
 				if err != nil {
 					return nil, nil, nil, errors.Errorf("parseDefaultExpr failed: %w", err)
-- 
2.43.0


From ab4f6d425bce12b06eebbf26ff697032aafd54da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 27/35] fix: walk the children with the visitor returned for
 their parent

---
 sqlast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 398eb9b..71303f0 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -21,7 +21,7 @@ func walkASTNodeLists(v Visitor, list []Node) {
 }
 
 func Walk(v Visitor, node Node) {
-	if v := v.Visit(node); v == nil {
+	if v = v.Visit(node); v == nil {
 		return
 	}
 
-- 
2.43.0


From f9e7d96c7d64c5260be052f83217223514d7d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 28/35] fix: walk every child of a node (CASE branches, USING
 columns, table options, AUTO_INCREMENT, element and custom types)

---
 sqlast/walk.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 71303f0..c5f70cf 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -71,7 +71,16 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Over)
 		}
 	case *CaseExpr:
-		Walk(v, n.Operand)
+		if n.Operand != nil {
+			Walk(v, n.Operand)
+		}
+		for i, c := range n.Conditions {
+			Walk(v, c)
+			Walk(v, n.Results[i])
+		}
+		if n.ElseResult != nil {
+			Walk(v, n.ElseResult)
+		}
 	case *Exists:
 		Walk(v, n.Query)
 	case *SubQuery:
@@ -158,13 +167,16 @@ func Walk(v Visitor, node Node) {
 	case *JoinType:
 	// nothing to do
 	case *NamedColumnsJoin:
-	// nothing to do
+		walkIdentLists(v, n.ColumnList)
 	case *JoinCondition:
 		Walk(v, n.SearchCondition)
 	case *NaturalJoin:
 		Walk(v, n.LeftElement)
 		Walk(v, n.Type)
 		Walk(v, n.RightElement)
+	case *PartitionedJoinTable:
+		Walk(v, n.Factor)
+		walkIdentLists(v, n.ColumnList)
 	case *CrossJoin:
 		Walk(v, n.Factor)
 		Walk(v, n.Reference)
@@ -241,9 +253,9 @@ func Walk(v Visitor, node Node) {
 	case *Bytea:
 		// nothing to do
 	case *Array:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *Custom:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *InsertStmt:
 		Walk(v, n.TableName)
 		walkIdentLists(v, n.Columns)
@@ -271,7 +283,9 @@ func Walk(v Visitor, node Node) {
 		for _, a := range n.Assignments {
 			Walk(v, a)
 		}
-		Walk(v, n.Selection)
+		if n.Selection != nil {
+			Walk(v, n.Selection)
+		}
 	case *DeleteStmt:
 		Walk(v, n.TableName)
 		if n.Selection != nil {
@@ -285,6 +299,13 @@ func Walk(v Visitor, node Node) {
 		for _, e := range n.Elements {
 			Walk(v, e)
 		}
+		for _, o := range n.Options {
+			Walk(v, o)
+		}
+	case *MyEngine:
+		Walk(v, n.Name)
+	case *MyCharset:
+		Walk(v, n.Name)
 	case *Assignment:
 		Walk(v, n.ID)
 		Walk(v, n.Value)
@@ -309,9 +330,14 @@ func Walk(v Visitor, node Node) {
 		if n.Default != nil {
 			Walk(v, n.Default)
 		}
+		for _, d := range n.MyDataTypeDecoration {
+			Walk(v, d)
+		}
 		for _, c := range n.Constraints {
 			Walk(v, c)
 		}
+	case *AutoIncrement:
+		// nothing to do
 	case *ColumnConstraint:
 		if n.Name != nil {
 			Walk(v, n.Name)
-- 
2.43.0


From a3b34a1b20f89ce13c7e606eac9286d1c7120851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 29/35] fix: name the Query field in the cursor of EXISTS,
 subqueries, CTEs and views

---
 sqlastutil/rewrite.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c51d7e2..14e5c5f 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -171,9 +171,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CaseExpr:
 		a.apply(n, "Operand", nil, n.Operand)
 	case *sqlast.Exists:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.ObjectName:
 		a.applyList(n, "Idents")
 	case *sqlast.WindowSpec:
@@ -203,12 +203,12 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
 		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
@@ -348,7 +348,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		}
 	case *sqlast.CreateViewStmt:
 		a.apply(n, "Name", nil, n.Name)
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
-- 
2.43.0


From 42d8b188bcc143c7f277da947bf6bb61ed690aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 30/35] fix: apply to every child of a node, like Walk

---
 sqlastutil/rewrite.go | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index 14e5c5f..5c65e97 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -169,7 +169,25 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Over", nil, n.Over)
 		}
 	case *sqlast.CaseExpr:
-		a.apply(n, "Operand", nil, n.Operand)
+		if n.Operand != nil {
+			a.apply(n, "Operand", nil, n.Operand)
+		}
+		var cond, result iterator
+		for cond.index < len(n.Conditions) || result.index < len(n.Results) {
+			if cond.index < len(n.Conditions) {
+				cond.step = 1
+				a.apply(n, "Conditions", &cond, n.Conditions[cond.index])
+				cond.index += cond.step
+			}
+			if result.index < len(n.Results) {
+				result.step = 1
+				a.apply(n, "Results", &result, n.Results[result.index])
+				result.index += result.step
+			}
+		}
+		if n.ElseResult != nil {
+			a.apply(n, "ElseResult", nil, n.ElseResult)
+		}
 	case *sqlast.Exists:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
@@ -238,6 +256,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Ref", nil, n.Ref)
 	case *sqlast.JoinType:
 		// nothing to do
+	case *sqlast.NamedColumnsJoin:
+		a.applyList(n, "ColumnList")
+	case *sqlast.PartitionedJoinTable:
+		a.apply(n, "Factor", nil, n.Factor)
+		a.applyList(n, "ColumnList")
 	case *sqlast.JoinCondition:
 		a.apply(n, "SearchCondition", nil, n.SearchCondition)
 	case *sqlast.NaturalJoin:
@@ -320,9 +343,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.Bytea:
 		// nothing to do
 	case *sqlast.Array:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.Custom:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.InsertStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Columns")
@@ -340,7 +363,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.UpdateStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Assignments")
-		a.apply(n, "Selection", nil, n.Selection)
+		if n.Selection != nil {
+			a.apply(n, "Selection", nil, n.Selection)
+		}
 	case *sqlast.DeleteStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		if n.Selection != nil {
@@ -352,6 +377,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
+		a.applyList(n, "Options")
+	case *sqlast.MyEngine:
+		a.apply(n, "Name", nil, n.Name)
+	case *sqlast.MyCharset:
+		a.apply(n, "Name", nil, n.Name)
 	case *sqlast.Assignment:
 		a.apply(n, "ID", nil, n.ID)
 		a.apply(n, "Value", nil, n.Value)
@@ -376,7 +406,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		if n.Default != nil {
 			a.apply(n, "Default", nil, n.Default)
 		}
+		a.applyList(n, "MyDataTypeDecoration")
 		a.applyList(n, "Constraints")
+	case *sqlast.AutoIncrement:
+		// nothing to do
 	case *sqlast.ColumnConstraint:
 		if n.Name != nil {
 			a.apply(n, "Name", nil, n.Name)
-- 
2.43.0


From f121846156d643407a847f42203c1bdb1eeadd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 31/35] fix: report a source that cannot be tokenized in
 astprinter instead of crashing

---
 cmd/astprinter/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/astprinter/main.go b/cmd/astprinter/main.go
index fd46503..eef250e 100644
--- a/cmd/astprinter/main.go
+++ b/cmd/astprinter/main.go
@@ -29,7 +29,10 @@ func main() {
 		src = file
 	}
 
-	parser, _ := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	parser, err := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	if err != nil {
+		log.Fatal(err)
+	}
 	stmt, err := parser.ParseStatement()
 	if err != nil {
 		log.Fatal(err)
-- 
2.43.0


From c8e11629775620e7a0eff435d1a24bf357bd7edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 32/35] fix: do not panic on the position of empty files,
 window specs, bare columns and tables without elements

---
 sqlast/ast.go  | 27 ++++++++++++++++++++-------
 sqlast/stmt.go | 39 ++++++++++++++++++++++++++++++++++++---
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index f50762f..054f03b 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -28,22 +28,28 @@ type File struct {
 }
 
 func (f *File) End() sqltoken.Pos {
-
+	var end sqltoken.Pos
+	if len(f.Stmts) != 0 {
+		end = f.Stmts[len(f.Stmts)-1].End()
+	}
 	if len(f.Comments) != 0 {
-		if sqltoken.ComparePos(f.Comments[len(f.Comments)-1].End(), f.Stmts[len(f.Stmts)-1].End()) == 1 {
-			return f.Comments[len(f.Comments)-1].End()
+		if c := f.Comments[len(f.Comments)-1].End(); sqltoken.ComparePos(c, end) == 1 {
+			return c
 		}
 	}
 
-	return f.Stmts[len(f.Stmts)-1].End()
+	return end
 }
 
 func (f *File) Pos() sqltoken.Pos {
 	if len(f.Comments) != 0 {
-		if sqltoken.ComparePos(f.Stmts[0].Pos(), f.Comments[0].Pos()) == 1 {
+		if len(f.Stmts) == 0 || sqltoken.ComparePos(f.Stmts[0].Pos(), f.Comments[0].Pos()) == 1 {
 			return f.Comments[0].Pos()
 		}
 	}
+	if len(f.Stmts) == 0 {
+		return sqltoken.Pos{}
+	}
 
 	return f.Stmts[0].Pos()
 }
@@ -572,8 +578,11 @@ func (s *WindowSpec) Pos() sqltoken.Pos {
 	if len(s.OrderBy) != 0 {
 		return s.Order
 	}
+	if s.WindowsFrame != nil {
+		return s.WindowsFrame.Pos()
+	}
 
-	return s.WindowsFrame.Pos()
+	return sqltoken.Pos{} // OVER ()
 }
 
 func (s *WindowSpec) End() sqltoken.Pos {
@@ -585,7 +594,11 @@ func (s *WindowSpec) End() sqltoken.Pos {
 		return s.OrderBy[len(s.OrderBy)-1].End()
 	}
 
-	return s.PartitionBy[len(s.PartitionBy)-1].End()
+	if len(s.PartitionBy) != 0 {
+		return s.PartitionBy[len(s.PartitionBy)-1].End()
+	}
+
+	return sqltoken.Pos{} // OVER ()
 }
 
 func (s *WindowSpec) ToSQLString() string {
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index 0cd58b8..b27f388 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -288,7 +288,15 @@ func (c *CreateTableStmt) Pos() sqltoken.Pos {
 }
 
 func (c *CreateTableStmt) End() sqltoken.Pos {
-	return c.Elements[len(c.Elements)-1].End()
+	if len(c.Options) != 0 {
+		return c.Options[len(c.Options)-1].End()
+	}
+
+	if len(c.Elements) != 0 {
+		return c.Elements[len(c.Elements)-1].End()
+	}
+
+	return c.Name.End()
 }
 
 func (c *CreateTableStmt) ToSQLString() string {
@@ -496,7 +504,24 @@ func (c *ColumnDef) Pos() sqltoken.Pos {
 }
 
 func (c *ColumnDef) End() sqltoken.Pos {
-	return c.Constraints[len(c.Constraints)-1].End()
+	// DEFAULT, AUTO_INCREMENT and the constraints may stand in any order
+	end := c.DataType.End()
+	extend := func(n Node) {
+		if e := n.End(); sqltoken.ComparePos(e, end) == 1 {
+			end = e
+		}
+	}
+	if c.Default != nil {
+		extend(c.Default)
+	}
+	for _, d := range c.MyDataTypeDecoration {
+		extend(d)
+	}
+	for _, cons := range c.Constraints {
+		extend(cons)
+	}
+
+	return end
 }
 
 func (c *ColumnDef) ToSQLString() string {
@@ -1068,7 +1093,15 @@ func (c *CreateIndexStmt) End() sqltoken.Pos {
 		return c.Selection.End()
 	}
 
-	return c.RParen
+	if len(c.ColumnNames) != 0 {
+		return c.RParen
+	}
+
+	if c.MethodName != nil {
+		return c.MethodName.End()
+	}
+
+	return c.TableName.End()
 }
 
 func (c *CreateIndexStmt) ToSQLString() string {
-- 
2.43.0


From 6c7ffcada90d2ea92bd8c50d835a43b74e491a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 33/35] fix: record the positions the parser left out and make
 Pos and End delimit the node

---
 parser.go       | 215 ++++++++++++++++++++++++++++++------------------
 sqlast/ast.go   |  28 +++----
 sqlast/query.go |  37 ++++++---
 sqlast/stmt.go  |   8 +-
 sqlast/type.go  |   6 +-
 5 files changed, 184 insertions(+), 110 deletions(-)

diff --git a/parser.go b/parser.go
index 85d5890..2240bb8 100644
--- a/parser.go
+++ b/parser.go
@@ -184,7 +184,7 @@ func (p *Parser) ParseStatement() (stmt sqlast.Stmt, err error) {
 		if err != nil {
 			return nil, err
 		}
-		return &sqlast.ExplainStmt{Stmt: stmt}, nil
+		return &sqlast.ExplainStmt{Stmt: stmt, Explain: tok.From}, nil
 	default:
 		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", word)
 	}
@@ -236,6 +236,9 @@ func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
 			return nil, errors.Errorf("parsePrecision failed: %w", err)
 
 		}
+		if p == nil {
+			r = tok.To
+		}
 		// FIXME Character
 		return &sqlast.VarcharType{Size: p, RParen: r, Character: tok.From}, nil
 	case "CHAR", "CHARACTER":
@@ -254,8 +257,9 @@ func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
 	case "UUID":
 		return &sqlast.UUID{From: tok.From, To: tok.To}, nil
 	case "DATE":
-		return &sqlast.Date{}, nil
+		return &sqlast.Date{From: tok.From, To: tok.To}, nil
 	case "TIMESTAMP":
+		var zone sqltoken.Pos
 		wok, _, _ := p.parseKeyword("WITH")
 		ook := false
 		if !wok {
@@ -263,13 +267,15 @@ func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
 		}
 		if wok || ook {
 			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
+			zone = p.expectKeyword("ZONE").To
 		}
 		return &sqlast.Timestamp{
 			Timestamp:    tok.From,
+			Zone:         zone,
 			WithTimeZone: wok,
 		}, nil
 	case "TIME":
+		to := tok.To
 		wok, _, _ := p.parseKeyword("WITH")
 		ook := false
 		if !wok {
@@ -277,21 +283,22 @@ func (p *Parser) ParseDataType() (dataType sqlast.Type, err error) {
 		}
 		if wok || ook {
 			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
+			to = p.expectKeyword("ZONE").To
 		}
-		return &sqlast.Time{WithTimeZone: wok}, nil
+		return &sqlast.Time{From: tok.From, To: to, WithTimeZone: wok}, nil
 	case "REGCLASS":
-		return &sqlast.Regclass{}, nil
+		return &sqlast.Regclass{From: tok.From, To: tok.To}, nil
 	case "TEXT":
 		if ok, _ := p.consumeToken(sqltoken.LBracket); ok {
-			p.expectToken(sqltoken.RBracket)
+			r := p.expectToken(sqltoken.RBracket)
 			return &sqlast.Array{
-				Ty: &sqlast.Text{},
+				Ty:     &sqlast.Text{From: tok.From, To: tok.To},
+				RParen: r.To,
 			}, nil
 		}
-		return &sqlast.Text{}, nil
+		return &sqlast.Text{From: tok.From, To: tok.To}, nil
 	case "BYTEA":
-		return &sqlast.Bytea{}, nil
+		return &sqlast.Bytea{From: tok.From, To: tok.To}, nil
 	case "NUMERIC":
 		precision, scale, err := p.parseOptionalPrecisionScale()
 		if err != nil {
@@ -382,14 +389,17 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 		}
 		s.Select = tok.From
 		expr = s
-	} else if ok, _ := p.consumeToken(sqltoken.LParen); ok {
+	} else if tok, _ := p.peekToken(); tok != nil && tok.Kind == sqltoken.LParen {
+		p.mustNextToken()
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r := p.expectToken(sqltoken.RParen)
 		expr = &sqlast.QueryExpr{
-			Query: subquery,
+			LParen: tok.From,
+			RParen: r.To,
+			Query:  subquery,
 		}
 	} else {
 		return nil, errors.Errorf("expect SELECT or subquery in the query body")
@@ -438,11 +448,11 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 	word := token.Value.(*sqltoken.SQLWord)
 	switch keyword(word) {
 	case "UNION":
-		return &sqlast.UnionOperator{}
+		return &sqlast.UnionOperator{From: token.From, To: token.To}
 	case "EXCEPT":
-		return &sqlast.ExceptOperator{}
+		return &sqlast.ExceptOperator{From: token.From, To: token.To}
 	case "INTERSECT":
-		return &sqlast.IntersectOperator{}
+		return &sqlast.IntersectOperator{From: token.From, To: token.To}
 	}
 
 	return nil
@@ -571,7 +581,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	if iok || uiok {
-		return p.parseCreateIndex(uiok)
+		return p.parseCreateIndex(t, uiok)
 	}
 
 	return nil, errors.Errorf("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
@@ -623,7 +633,7 @@ func (p *Parser) parseCreateView(create *sqltoken.Token, materialized bool) (sql
 
 }
 
-func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
+func (p *Parser) parseCreateIndex(create *sqltoken.Token, unique bool) (sqlast.Stmt, error) {
 	var indexName *sqlast.Ident
 	ok, _, _ := p.parseKeyword("ON")
 	if !ok {
@@ -650,12 +660,13 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	var columns []*sqlast.Ident
+	var rparen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		columns, err = p.parseColumnNames()
 		if err != nil {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		rparen = p.expectToken(sqltoken.RParen).To
 	}
 
 	var selection sqlast.Node
@@ -668,6 +679,8 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	return &sqlast.CreateIndexStmt{
+		Create:      create.From,
+		RParen:      rparen,
 		IsUnique:    unique,
 		IndexName:   indexName,
 		TableName:   tableName,
@@ -932,7 +945,9 @@ CONSTRAINT_LOOP:
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
 		var name *sqlast.Ident
+		var constraintPos sqltoken.Pos
 		if ok && keyword(word) == "CONSTRAINT" {
+			constraintPos = tok.From
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
 			if err != nil {
@@ -1014,8 +1029,9 @@ CONSTRAINT_LOOP:
 		}
 
 		constraints = append(constraints, &sqlast.ColumnConstraint{
-			Name: name,
-			Spec: spec,
+			Name:       name,
+			Constraint: constraintPos,
+			Spec:       spec,
 		})
 
 	}
@@ -1728,7 +1744,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 				Ref: ref,
 			},
 			Spec: spec,
-			Type: &sqlast.JoinType{Condition: sqlast.INNER},
+			Type: &sqlast.JoinType{Condition: sqlast.INNER, From: tok.From, To: tok.To},
 		}, nil
 	case "LEFT", "RIGHT", "FULL", "JOIN":
 		p.prevToken()
@@ -1776,12 +1792,12 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "LEFT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, otok, _ := p.parseKeyword("OUTER")
 		if outer {
 			return &sqlast.JoinType{
 				Condition: sqlast.LEFTOUTER,
 				From:      tok.From,
-				To:        tok.To,
+				To:        otok.To,
 			}, nil
 		}
 		return &sqlast.JoinType{
@@ -1790,20 +1806,20 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "RIGHT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, otok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER}, nil
+			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER, From: tok.From, To: otok.To}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.RIGHT}, nil
+		return &sqlast.JoinType{Condition: sqlast.RIGHT, From: tok.From, To: tok.To}, nil
 	case "FULL":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, otok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.FULLOUTER}, nil
+			return &sqlast.JoinType{Condition: sqlast.FULLOUTER, From: tok.From, To: otok.To}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.FULL}, nil
+		return &sqlast.JoinType{Condition: sqlast.FULL, From: tok.From, To: tok.To}, nil
 	case "JOIN":
 		p.prevToken()
-		return &sqlast.JoinType{Condition: sqlast.IMPLICIT}, nil
+		return &sqlast.JoinType{Condition: sqlast.IMPLICIT, From: tok.From, To: tok.From}, nil
 	default:
 		return nil, errors.Errorf("unknown join type: %v", word)
 	}
@@ -1821,7 +1837,7 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 		}, nil
 	}
 
-	ok, _, _ := p.parseKeyword("USING")
+	ok, using, _ := p.parseKeyword("USING")
 	if !ok {
 		tok, _ := p.nextToken()
 		return nil, errors.Errorf("unknown join spec need USING or ON but: %v", tok)
@@ -1832,28 +1848,38 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 	if err != nil {
 		return nil, errors.Errorf("parse named columns join list failed: %w", err)
 	}
-	p.expectToken(sqltoken.RParen)
+	r := p.expectToken(sqltoken.RParen)
 
 	return &sqlast.NamedColumnsJoin{
 		ColumnList: idents,
+		Using:      using.From,
+		RParen:     r.To,
 	}, nil
 }
 
 func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
-	isLateral, _, _ := p.parseKeyword("LATERAL")
-	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
+	var lateralPos sqltoken.Pos
+	isLateral, lateral, _ := p.parseKeyword("LATERAL")
+	if isLateral {
+		lateralPos = lateral.From
+	}
+	if l, _ := p.peekToken(); l != nil && l.Kind == sqltoken.LParen {
+		p.mustNextToken()
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r := p.expectToken(sqltoken.RParen)
 		alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 		return &sqlast.Derived{
-			Lateral:  isLateral,
-			SubQuery: subquery,
-			Alias:    alias,
+			Lateral:    isLateral,
+			LateralPos: lateralPos,
+			LParen:     l.From,
+			RParen:     r.To,
+			SubQuery:   subquery,
+			Alias:      alias,
 		}, nil
-	} else if isLateral && !ok {
+	} else if isLateral {
 		t, _ := p.nextToken()
 		return nil, errors.Errorf("after lateral expected %s but %+v", sqltoken.LParen, t)
 	}
@@ -1878,6 +1904,7 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
 	var withHints []sqlast.Node
+	var withHintsRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("WITH"); ok {
 		if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 			h, err := p.parseExprList()
@@ -1885,24 +1912,29 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 				return nil, errors.Errorf("parseExprList failed: %w", err)
 			}
 			withHints = h
-			p.expectToken(sqltoken.RParen)
+			withHintsRParen = p.expectToken(sqltoken.RParen).To
 		} else {
 			p.prevToken()
 		}
 	}
 
 	return &sqlast.Table{
-		Name:       name,
-		Args:       args,
-		ArgsRParen: argsRParen,
-		Alias:      alias,
-		WithHints:  withHints,
+		Name:            name,
+		Args:            args,
+		ArgsRParen:      argsRParen,
+		Alias:           alias,
+		WithHints:       withHints,
+		WithHintsRParen: withHintsRParen,
 	}, nil
 
 }
 
 func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
-	all, _, _ := p.parseKeyword("ALL")
+	var allPos sqltoken.Pos
+	all, allTok, _ := p.parseKeyword("ALL")
+	if all {
+		allPos = allTok.To
+	}
 
 	var limit *sqlast.LongValue
 	if !all {
@@ -1932,6 +1964,7 @@ func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
 
 	return &sqlast.LimitExpr{
 		All:         all,
+		AllPos:      allPos,
 		LimitValue:  limit,
 		OffsetValue: offset,
 	}, nil
@@ -2003,6 +2036,7 @@ func (p *Parser) parseSubexpr(precedence uint) (sqlast.Node, error) {
 
 func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, error) {
 	operator := sqlast.None
+	var operatorEnd sqltoken.Pos
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
@@ -2041,14 +2075,18 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		case "LIKE":
 			operator = sqlast.Like
 		case "NOT":
-			ok, _, _ := p.parseKeyword("LIKE")
+			ok, like, _ := p.parseKeyword("LIKE")
 			if ok {
 				operator = sqlast.NotLike
+				operatorEnd = like.To
 			}
 		}
 	}
 
 	if operator != sqlast.None {
+		if operator != sqlast.NotLike {
+			operatorEnd = tok.To
+		}
 		right, err := p.parseSubexpr(precedence)
 		if err != nil {
 			return nil, errors.Errorf("parseSubexpr failed: %w", err)
@@ -2056,7 +2094,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		return &sqlast.BinaryExpr{
 			Left:  expr,
-			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: tok.To},
+			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: operatorEnd},
 			Right: right,
 		}, nil
 	}
@@ -2066,14 +2104,16 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		switch keyword(word) {
 		case "IS":
-			if ok, _, _ := p.parseKeyword("NULL"); ok {
+			if ok, null, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
-					X: expr,
+					X:    expr,
+					Null: null.To,
 				}, nil
 			}
-			if ok, _, _ := p.parseKeywords("NOT", "NULL"); ok {
+			if ok, toks, _ := p.parseKeywords("NOT", "NULL"); ok {
 				return &sqlast.IsNotNull{
-					X: expr,
+					X:    expr,
+					Null: toks[1].To,
 				}, nil
 			}
 			return nil, errors.Errorf("NULL or NOT NULL after IS")
@@ -2096,7 +2136,6 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	return nil, errors.Errorf("no infix parser for sqltoken %+v", tok)
 }
 
-// TODO position
 func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 	tp, err := p.ParseDataType()
 	if err != nil {
@@ -2105,6 +2144,8 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 	return &sqlast.Cast{
 		Expr:     expr,
 		DataType: tp,
+		Cast:     expr.Pos(),
+		RParen:   tp.End(),
 	}, nil
 }
 
@@ -2268,7 +2309,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 			}
 			return &sqlast.UnaryExpr{
 				From: tok.From,
-				Op:   &sqlast.Operator{Type: sqlast.Not},
+				Op:   &sqlast.Operator{Type: sqlast.Not, From: tok.From, To: tok.To},
 				Expr: expr,
 			}, nil
 		default:
@@ -2283,6 +2324,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				{Value: word.String(), From: tok.From, To: tok.To},
 			}
 			endWithWildcard := false
+			var wildcard sqltoken.Pos
 
 			for {
 				if ok, _ := p.consumeToken(sqltoken.Period); !ok {
@@ -2303,6 +2345,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				}
 				if n.Kind == sqltoken.Mult {
 					endWithWildcard = true
+					wildcard = n.From
 					break
 				}
 
@@ -2311,7 +2354,8 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 
 			if endWithWildcard {
 				return &sqlast.QualifiedWildcard{
-					Idents: idParts,
+					Idents:   idParts,
+					Wildcard: wildcard,
 				}, nil
 			}
 
@@ -2412,6 +2456,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 	r := p.expectToken(sqltoken.RParen)
 
 	var over *sqlast.WindowSpec
+	var overRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("OVER"); ok {
 		p.expectToken(sqltoken.LParen)
 
@@ -2443,10 +2488,11 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 			order = otok.From
 		}
 
-		windowFrame, err := p.parseWindowFrame()
+		windowFrame, overEnd, err := p.parseWindowFrame()
 		if err != nil {
 			return nil, errors.Errorf("parseWindowFrame failed: %w", err)
 		}
+		overRParen = overEnd
 
 		over = &sqlast.WindowSpec{
 			PartitionBy:  partitionBy,
@@ -2462,6 +2508,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 		Args:       args,
 		Over:       over,
 		ArgsRParen: r.To,
+		OverRparen: overRParen,
 	}, nil
 }
 
@@ -2487,18 +2534,22 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 			return nil, errors.Errorf("ParseExpr failed: %w", err)
 		}
 		var asc *bool
+		var orderingPos sqltoken.Pos
 
-		if ok, _, _ := p.parseKeyword("ASC"); ok {
+		if ok, tok, _ := p.parseKeyword("ASC"); ok {
 			b := true
 			asc = &b
-		} else if ok, _, _ := p.parseKeyword("DESC"); ok {
+			orderingPos = tok.To
+		} else if ok, tok, _ := p.parseKeyword("DESC"); ok {
 			b := false
 			asc = &b
+			orderingPos = tok.To
 		}
 
 		exprList = append(exprList, &sqlast.OrderByExpr{
-			Expr: expr,
-			ASC:  asc,
+			Expr:        expr,
+			OrderingPos: orderingPos,
+			ASC:         asc,
 		})
 
 		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
@@ -2511,7 +2562,8 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 	return exprList, nil
 }
 
-func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
+// parseWindowFrame parses the optional frame up to the closing parenthesis of the window, whose end it returns.
+func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, sqltoken.Pos, error) {
 	var windowFrame *sqlast.WindowFrame
 	t, _ := p.peekToken()
 	if t != nil && t.Kind == sqltoken.SQLKeyword {
@@ -2521,19 +2573,20 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		// FIXME
 		units, err := u.FromStr(keyword(w))
 		if err != nil {
-			return nil, errors.Errorf("invalid window frame unit: %w", err)
+			return nil, sqltoken.Pos{}, errors.Errorf("invalid window frame unit: %w", err)
 		}
+		units.From, units.To = t.From, t.To
 		p.mustNextToken()
 
 		if ok, _, _ := p.parseKeyword("BETWEEN"); ok {
 			startBound, err := p.parseWindowFrameBound()
 			if err != nil {
-				return nil, errors.Errorf("parseWindowFrameBound: %w", err)
+				return nil, sqltoken.Pos{}, errors.Errorf("parseWindowFrameBound: %w", err)
 			}
 			p.expectKeyword("AND")
 			endBound, err := p.parseWindowFrameBound()
 			if err != nil {
-				return nil, errors.Errorf("parseWindowFrameBound: %w", err)
+				return nil, sqltoken.Pos{}, errors.Errorf("parseWindowFrameBound: %w", err)
 			}
 
 			windowFrame = &sqlast.WindowFrame{
@@ -2544,7 +2597,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		} else {
 			startBound, err := p.parseWindowFrameBound()
 			if err != nil {
-				return nil, errors.Errorf("parseWindowFrameBound: %w", err)
+				return nil, sqltoken.Pos{}, errors.Errorf("parseWindowFrameBound: %w", err)
 			}
 			windowFrame = &sqlast.WindowFrame{
 				StartBound: startBound,
@@ -2553,25 +2606,26 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		}
 	}
 
-	p.expectToken(sqltoken.RParen)
-	return windowFrame, nil
+	r := p.expectToken(sqltoken.RParen)
+	return windowFrame, r.To, nil
 }
 
 func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
-	if ok, _, _ := p.parseKeywords("CURRENT", "ROW"); ok {
-		return &sqlast.CurrentRow{}, nil
+	if ok, toks, _ := p.parseKeywords("CURRENT", "ROW"); ok {
+		return &sqlast.CurrentRow{Current: toks[0].From, Row: toks[1].To}, nil
 	}
 
 	var rows *uint64
-	if ok, _, _ := p.parseKeyword("UNBOUNDED"); ok {
-		if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-			return &sqlast.UnboundedPreceding{}, nil
+	var from sqltoken.Pos
+	if ok, unbounded, _ := p.parseKeyword("UNBOUNDED"); ok {
+		if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+			return &sqlast.UnboundedPreceding{Unbounded: unbounded.From, Preceding: tok.To}, nil
 		}
-		if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-			return &sqlast.UnboundedFollowing{}, nil
+		if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+			return &sqlast.UnboundedFollowing{Unbounded: unbounded.From, Following: tok.To}, nil
 		}
 	} else {
-		i, _, err := p.parseLiteralInt()
+		i, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("parseLiteralInt failed: %w", err)
 		}
@@ -2580,13 +2634,14 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 		}
 		ui := uint64(i)
 		rows = &ui
+		from = tok.From
 	}
 
-	if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-		return &sqlast.Preceding{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+		return &sqlast.Preceding{Bound: rows, From: from, Preceding: tok.To}, nil
 	}
-	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-		return &sqlast.Following{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+		return &sqlast.Following{Bound: rows, From: from, Following: tok.To}, nil
 	}
 	return nil, errors.Errorf("expected PRECEDING or FOLLOWING")
 }
diff --git a/sqlast/ast.go b/sqlast/ast.go
index 054f03b..d8e0bea 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -131,7 +131,8 @@ func (s *Wildcard) WriteTo(w io.Writer) (int64, error) {
 
 // `table.*`, schema.table.*
 type QualifiedWildcard struct {
-	Idents []*Ident
+	Idents   []*Ident
+	Wildcard sqltoken.Pos // position of `*`
 }
 
 func (s *QualifiedWildcard) Pos() sqltoken.Pos {
@@ -139,7 +140,10 @@ func (s *QualifiedWildcard) Pos() sqltoken.Pos {
 }
 
 func (s *QualifiedWildcard) End() sqltoken.Pos {
-	return s.Idents[len(s.Idents)-1].End()
+	return sqltoken.Pos{
+		Line: s.Wildcard.Line,
+		Col:  s.Wildcard.Col + 1,
+	}
 }
 
 func (s *QualifiedWildcard) ToSQLString() string {
@@ -173,7 +177,8 @@ func (s *CompoundIdent) WriteTo(w io.Writer) (int64, error) {
 
 // ` X IS NULL`
 type IsNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of NULL keyword
 }
 
 func (s *IsNull) Pos() sqltoken.Pos {
@@ -181,10 +186,7 @@ func (s *IsNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNull) End() sqltoken.Pos {
-	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 8,
-	}
+	return s.Null
 }
 
 func (s *IsNull) ToSQLString() string {
@@ -197,7 +199,8 @@ func (s *IsNull) WriteTo(w io.Writer) (int64, error) {
 
 // `X IS NOT NULL`
 type IsNotNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of NULL keyword
 }
 
 func (s *IsNotNull) Pos() sqltoken.Pos {
@@ -205,10 +208,7 @@ func (s *IsNotNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNotNull) End() sqltoken.Pos {
-	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 12,
-	}
+	return s.Null
 }
 
 func (s *IsNotNull) ToSQLString() string {
@@ -516,11 +516,11 @@ type SubQuery struct {
 }
 
 func (s *SubQuery) Pos() sqltoken.Pos {
-	return s.RParen
+	return s.LParen
 }
 
 func (s *SubQuery) End() sqltoken.Pos {
-	return s.LParen
+	return s.RParen
 }
 
 func (s *SubQuery) ToSQLString() string {
diff --git a/sqlast/query.go b/sqlast/query.go
index e408caa..35649e8 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -18,11 +18,15 @@ type QueryStmt struct {
 }
 
 func (q *QueryStmt) Pos() sqltoken.Pos {
-	if len(q.CTEs) != 0 {
-		return q.With
+	if len(q.CTEs) == 0 {
+		return q.Body.Pos()
 	}
 
-	return q.Body.Pos()
+	// the parser does not record the WITH keyword
+	if q.With == (sqltoken.Pos{}) {
+		return q.CTEs[0].Pos()
+	}
+	return q.With
 }
 
 func (q *QueryStmt) End() sqltoken.Pos {
@@ -77,6 +81,10 @@ func (c *CTE) Pos() sqltoken.Pos {
 }
 
 func (c *CTE) End() sqltoken.Pos {
+	// the parser does not record the closing parenthesis
+	if c.RParen == (sqltoken.Pos{}) {
+		return c.Query.End()
+	}
 	return c.RParen
 }
 
@@ -356,7 +364,7 @@ type Derived struct {
 	tableFactor
 	tableReference
 	Lateral    bool
-	LateralPos sqltoken.Pos // last position of LATERAL keyword if Lateral is true
+	LateralPos sqltoken.Pos // first position of LATERAL keyword if Lateral is true
 	LParen     sqltoken.Pos
 	RParen     sqltoken.Pos
 	SubQuery   *QueryStmt
@@ -375,7 +383,7 @@ func (d *Derived) End() sqltoken.Pos {
 		return d.Alias.End()
 	}
 
-	return d.LParen
+	return d.RParen
 }
 
 func (d *Derived) ToSQLString() string {
@@ -719,7 +727,7 @@ func (j *JoinType) WriteTo(w io.Writer) (int64, error) {
 // ORDER BY Expr [ASC | DESC]
 type OrderByExpr struct {
 	Expr        Node
-	OrderingPos sqltoken.Pos // ASC / DESC keyword position if ASC != nil
+	OrderingPos sqltoken.Pos // last position of ASC / DESC keyword if ASC != nil
 	ASC         *bool
 }
 
@@ -755,24 +763,31 @@ func (o *OrderByExpr) WriteTo(w io.Writer) (int64, error) {
 // LIMIT [ALL | LimitValue ] [ OFFSET OffsetValue]
 type LimitExpr struct {
 	All         bool
-	AllPos      sqltoken.Pos // ALL keyword position if All is true
+	AllPos      sqltoken.Pos // last position of ALL keyword if All is true
 	Limit       sqltoken.Pos // Limit keyword position
 	LimitValue  *LongValue
 	OffsetValue *LongValue
 }
 
 func (l *LimitExpr) Pos() sqltoken.Pos {
+	// the parser does not record the LIMIT keyword
+	if l.Limit == (sqltoken.Pos{}) && l.All {
+		return sqltoken.Pos{Line: l.AllPos.Line, Col: l.AllPos.Col - len("ALL")}
+	}
+	if l.Limit == (sqltoken.Pos{}) && l.LimitValue != nil {
+		return l.LimitValue.Pos()
+	}
 	return l.Limit
 }
 
 func (l *LimitExpr) End() sqltoken.Pos {
-	if l.All {
-		return l.AllPos
-	}
-
 	if l.OffsetValue != nil {
 		return l.OffsetValue.To
 	}
+
+	if l.All {
+		return l.AllPos
+	}
 	return l.LimitValue.To
 }
 
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index b27f388..3ae3387 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -82,6 +82,10 @@ type ConstructorSource struct {
 }
 
 func (c *ConstructorSource) Pos() sqltoken.Pos {
+	// the parser does not record the VALUES keyword
+	if c.Values == (sqltoken.Pos{}) && len(c.Rows) != 0 {
+		return c.Rows[0].Pos()
+	}
 	return c.Values
 }
 
@@ -575,9 +579,9 @@ type ColumnConstraint struct {
 
 func (c *ColumnConstraint) Pos() sqltoken.Pos {
 	if c.Name == nil {
-		return c.Constraint
+		return c.Spec.Pos()
 	}
-	return c.Name.Pos()
+	return c.Constraint
 }
 
 func (c *ColumnConstraint) End() sqltoken.Pos {
diff --git a/sqlast/type.go b/sqlast/type.go
index 27e7fb3..d70a41b 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -44,7 +44,7 @@ func (v *VarcharType) Pos() sqltoken.Pos {
 }
 
 func (v *VarcharType) End() sqltoken.Pos {
-	if v.Size != nil {
+	if v.Size != nil || v.Varying == (sqltoken.Pos{}) {
 		return v.RParen
 	}
 	return v.Varying
@@ -428,7 +428,7 @@ func (t *Time) WriteTo(w io.Writer) (int64, error) {
 type Timestamp struct {
 	WithTimeZone bool
 	Timestamp    sqltoken.Pos
-	Zone         sqltoken.Pos
+	Zone         sqltoken.Pos // last position of ZONE keyword, if any
 }
 
 func (t *Timestamp) Pos() sqltoken.Pos {
@@ -436,7 +436,7 @@ func (t *Timestamp) Pos() sqltoken.Pos {
 }
 
 func (t *Timestamp) End() sqltoken.Pos {
-	if t.WithTimeZone {
+	if t.Zone != (sqltoken.Pos{}) {
 		return t.Zone
 	}
 
-- 
2.43.0


From 8bdb5f44a477f90b618b7a12cc9b79b4341c08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 34/35] fix: give the number as the value of an integer
 literal, not its node

---
 sqlast/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index 38ca51b..bc3a82c 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -35,7 +35,7 @@ func (l *LongValue) End() sqltoken.Pos {
 }
 
 func (l *LongValue) Value() interface{} {
-	return l
+	return l.Long
 }
 
 func (l *LongValue) ToSQLString() string {
-- 
2.43.0


From be43c71f3e3d2b1faa69b3f55b77193ca5da06c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:43 +0000
Subject: [PATCH 35/35] fix: give every token a word of its own instead of the
 one in the keyword cache

---
 sqltoken/tokenizer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index b50c677..8b0a783 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -58,7 +58,9 @@ func init() {
 func MakeKeyword(word string, quoteStyle rune) *SQLWord {
 	if quoteStyle == 0 {
 		if w, ok := keywordCache[word]; ok {
-			return w
+			// a token's word is its own, whoever changes it
+			c := *w
+			return &c
 		}
 	}
 	w := strings.ToUpper(word)
-- 
2.43.0

