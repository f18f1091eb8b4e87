package main

import (
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// A poker does something else in the middle of an operation: whenever the operation calls something of the caller's
// (a writer, a reader, a dialect, a function or visitor), some of these calls run other operations first.
type poker struct {
	every, left int
	calls       int
	busy        bool
	do          func()
}

func (p *poker) poke() {
	p.calls++
	if p.busy || p.left == 0 || p.calls%p.every != 0 {
		return
	}
	p.busy = true
	p.left--
	p.do()
	p.busy = false
}

// pokeWriter keeps what it is given; what stands in the writer's argument may not change while Write runs.
type pokeWriter struct {
	sb      strings.Builder
	poke    func()
	changed bool
}

func (w *pokeWriter) Write(b []byte) (int, error) {
	was := string(b)
	w.poke()
	if string(b) != was {
		w.changed = true
	}
	return w.sb.WriteString(was)
}

func (w *pokeWriter) text() string {
	if w.changed {
		return "(the bytes change while they are being written) " + w.sb.String()
	}
	return w.sb.String()
}

type pokeReader struct {
	chunkReader
	poke func()
}

func (r *pokeReader) Read(b []byte) (int, error) {
	n, err := r.chunkReader.Read(b)
	r.poke()
	return n, err
}

type pokeDialect struct {
	dialect.Dialect
	poke func()
}

func (d *pokeDialect) IsIdentifierStart(r rune) bool {
	d.poke()
	return d.Dialect.IsIdentifierStart(r)
}

func (d *pokeDialect) IsIdentifierPart(r rune) bool {
	d.poke()
	return d.Dialect.IsIdentifierPart(r)
}

func (d *pokeDialect) IsDelimitedIdentifierStart(r rune) bool {
	d.poke()
	return d.Dialect.IsDelimitedIdentifierStart(r)
}

// guarded gives a panic as a result.
func guarded(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

func lexOutcomeR(r io.Reader, d dialect.Dialect) string {
	toks, err := sqltoken.NewTokenizer(r, d).Tokenize()
	if err != nil {
		return "refused"
	}
	return tokensText(toks)
}

type pokeVisitor struct {
	poke func()
	out  *strings.Builder
}

func (v *pokeVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	v.poke()
	if n == nil {
		v.out.WriteString(")")
		return nil
	}
	fmt.Fprintf(v.out, "(%p", n)
	return v
}

// walked is what a traversal of a kind is called with.
func walked(f *sqlast.File, kind int, poke func()) string {
	var out strings.Builder
	switch kind {
	case 0:
		sqlast.Inspect(f, func(n sqlast.Node) bool {
			poke()
			if n == nil {
				out.WriteString(")")
			} else {
				fmt.Fprintf(&out, "(%p", n)
			}
			return true
		})
	case 1:
		sqlast.Walk(&pokeVisitor{poke, &out}, f)
	default:
		call := func(c *sqlastutil.Cursor) bool {
			state := func() string {
				if c.Node() == sqlast.Node(f) { // its parent is the traversal's own
					return fmt.Sprintf("%p %T %s %d,", c.Node(), c.Parent(), c.Name(), c.Index())
				}
				return fmt.Sprintf("%p %p %s %d,", c.Node(), c.Parent(), c.Name(), c.Index())
			}
			s := state()
			poke()
			out.WriteString(s)
			if now := state(); now != s {
				out.WriteString("(then " + now + ")")
			}
			return true
		}
		sqlastutil.Apply(f, call, call)
	}
	return out.String()
}

// nested runs an operation that other operations run in the middle of, and compares all of them with the same alone.
func nested(t *T, srcs []string, trees []*held, drawKey func() parseKey) string {
	type inner struct {
		run  func() string
		want string
	}
	var inners []*inner
	for i := t.Range(1, 3); i > 0; i-- {
		key, kind := drawKey(), t.N(6)
		src, d := srcs[key.src], dialects[key.dialect]
		in := &inner{}
		switch t.N(3) {
		case 0:
			in.run = func() string { return lexOutcome(src, d) }
		case 1:
			in.run = func() string {
				s, _ := parseOutcome(src, d, key.comments)
				return s
			}
		case 2:
			if len(trees) == 0 {
				continue
			}
			h := trees[t.N(len(trees))]
			in.run = func() string { return readTree(h.file, kind) }
		}
		in.want = guarded(in.run)
		inners = append(inners, in)
	}
	bad := ""
	p := &poker{every: []int{1, 2, 3, 7, 19}[t.N(5)], left: t.Range(1, 6)}
	k := 0
	p.do = func() {
		if len(inners) == 0 {
			return
		}
		in := inners[k%len(inners)]
		k++
		if got := guarded(in.run); got != in.want && bad == "" {
			bad = diffAt(in.want, got)
		}
	}
	idle := func() {}
	key, comments := drawKey(), t.Bool()
	src, d := srcs[key.src], dialects[key.dialect]
	reader := func(poke func()) io.Reader {
		r := &pokeReader{poke: poke}
		r.data, r.sizes = []byte(src), []int{[]int{1, 3, 10, 100, 5000}[t.N(5)]}
		return r
	}
	what := ""
	var op func(poke func()) string
	kind := t.N(7)
	if kind >= 2 && kind <= 4 && len(trees) == 0 {
		kind = 0
	}
	switch kind {
	case 0, 1:
		what = "reading a source"
		poking := t.Bool()
		op = func(poke func()) string {
			dd := *d
			if poking {
				dd.d = &pokeDialect{d.d, poke}
			}
			if kind == 0 {
				return lexOutcomeR(reader(poke), dd.d)
			}
			ps, err := newParserR(reader(poke), &dd, comments)
			if err != nil {
				return "refused"
			}
			f, err := ps.ParseFile()
			if err != nil {
				return "refused"
			}
			return dumpPos(f)
		}
	case 2:
		what = "printing"
		h := trees[t.N(len(trees))]
		op = func(poke func()) string {
			w := &pokeWriter{poke: poke}
			n, err := h.file.WriteTo(w)
			return fmt.Sprint(w.text(), n, err)
		}
	case 3, 4:
		what = "a traversal"
		h, kind := trees[t.N(len(trees))], t.N(3)
		op = func(poke func()) string { return walked(h.file, kind, poke) }
	default:
		// two at work by turns
		p.every, p.left = 1, -1
		other := drawKey()
		osrc, od := srcs[other.src]+";"+src, dialects[other.dialect]
		if kind == 5 {
			what = "scanning a source"
			op = func(poke func()) string {
				z := sqltoken.NewTokenizer(strings.NewReader(src), d.d)
				var toks []*sqltoken.Token
				for {
					tok, err := z.NextToken()
					if err == io.EOF {
						return tokensText(toks)
					}
					if err != nil {
						return "refused"
					}
					toks = append(toks, tok)
					poke()
				}
			}
			z := sqltoken.NewTokenizer(strings.NewReader(osrc), od.d)
			var toks []*sqltoken.Token
			want := lexOutcome(osrc, od)
			p.do = func() {
				tok, err := z.NextToken()
				switch {
				case toks == nil && err == io.EOF, bad != "", want == "refused":
				case err == io.EOF:
					if got := tokensText(toks); got != want {
						bad = diffAt(want, got)
					}
					want = "refused" // done
				case err != nil:
					bad = "a tokenizer refuses what it accepts alone"
				default:
					toks = append(toks, tok)
				}
			}
			break
		}
		what = "parsing by statements"
		step := func(ps *parserStep) string {
			return guarded(ps.next)
		}
		op = func(poke func()) string {
			var sb strings.Builder
			ps := newStep(src+";"+srcs[other.src], d, comments)
			for i := 0; i < 3; i++ {
				sb.WriteString(step(ps))
				poke()
			}
			return sb.String()
		}
		var wants []string
		for ps, i := newStep(osrc, od, !comments), 0; i < 3; i++ {
			wants = append(wants, step(ps))
		}
		ps, i := newStep(osrc, od, !comments), 0
		p.do = func() {
			if got := step(ps); got != wants[i] && bad == "" {
				bad = diffAt(wants[i], got)
			}
			i++
		}
	}
	want := guarded(func() string { return op(idle) })
	got := guarded(func() string { return op(p.poke) })
	if want != got {
		t.Fatal("nested", "%s gives another result when other operations run in between: %s", what, diffAt(want, got))
	}
	if bad != "" {
		t.Fatal("nested", "an operation in the middle of %s gives another result: %s", what, bad)
	}
	return what + ", others in between"
}

// parserStep parses statement by statement.
type parserStep struct {
	next func() string
}

func newStep(src string, d *dspec, comments bool) *parserStep {
	ps, err := newParser(src, d, comments)
	if err != nil {
		return &parserStep{func() string { return "refused" }}
	}
	return &parserStep{func() string {
		s, err := ps.ParseStatement()
		if err != nil {
			return "refused\n"
		}
		return dumpPos(s) + s.ToSQLString()
	}}
}

// yielding lets others run while the bytes are being written.
func yielding() *pokeWriter {
	n := 0
	return &pokeWriter{poke: func() {
		if n++; n%3 == 0 {
			runtime.Gosched()
		}
	}}
}
