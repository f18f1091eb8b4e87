package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/akito0107/xsqlparser/sqlast"
)

var errWrite = errors.New("injected write fault")

// faultWriter accepts failAt write calls, then part of one, and then fails. With healed set it would accept what
// comes after the failed call.
type faultWriter struct {
	got    []byte
	calls  int
	failAt int // -1: never
	accept int // bytes of the failing call that are accepted
	failed bool
	after  int // calls after the failure
	sizes  []int
	healed bool
}

func (w *faultWriter) put(n int, app func(k int)) (int, error) {
	if w.failed {
		w.after++
		if w.healed {
			app(n)
			return n, nil
		}
		return 0, errWrite
	}
	if w.calls == w.failAt {
		w.failed = true
		k := w.accept
		if k > n {
			k = n
		}
		app(k)
		return k, errWrite
	}
	w.calls++
	w.sizes = append(w.sizes, n)
	app(n)
	return n, nil
}

func (w *faultWriter) Write(b []byte) (int, error) {
	return w.put(len(b), func(k int) { w.got = append(w.got, b[:k]...) })
}

// the same writer with the optional interfaces
type faultStringWriter struct{ *faultWriter }

func (w faultStringWriter) WriteString(s string) (int, error) {
	return w.put(len(s), func(k int) { w.got = append(w.got, s[:k]...) })
}

type faultFullWriter struct{ faultStringWriter }

func (w faultFullWriter) WriteByte(c byte) error {
	_, err := w.put(1, func(k int) {
		if k > 0 {
			w.got = append(w.got, c)
		}
	})
	return err
}

func (w faultFullWriter) WriteRune(r rune) (int, error) { return w.WriteString(string(r)) }

func (w faultFullWriter) ReadFrom(r io.Reader) (int64, error) {
	b, _ := io.ReadAll(r)
	n, err := w.Write(b)
	return int64(n), err
}

func (w *faultWriter) as(kind int) io.Writer {
	switch kind {
	case 0:
		return w
	case 1:
		return faultStringWriter{w}
	}
	return faultFullWriter{faultStringWriter{w}}
}

// rareNode is a node of a kind the parser does not produce (or not by itself), built by hand.
func rareNode(t *T, g *G) sqlast.Node {
	tm := time.Date(1+t.N(9998), time.Month(1+t.N(12)), 1+t.N(28), t.N(24), t.N(60), t.N(60), 0, time.UTC)
	switch t.N(12) {
	case 0:
		return &sqlast.Clob{Size: uint(t.N(1 << 20))}
	case 1:
		return &sqlast.Binary{Size: uint(t.N(1 << 20))}
	case 2:
		return &sqlast.Varbinary{Size: uint(t.N(1 << 20))}
	case 3:
		return &sqlast.Blob{Size: uint(t.N(1 << 20))}
	case 4:
		return &sqlast.DateValue{Date: tm}
	case 5:
		return sqlast.NewTimeValue(tm)
	case 6:
		return sqlast.NewDateTimeValue(tm)
	case 7:
		return sqlast.NewTimestampValue(tm)
	case 8:
		c := &sqlast.CopyStmt{TableName: g.objectName()}
		if t.Bool() {
			c.Columns = g.identList()
		}
		for k := t.N(4); k > 0; k-- {
			if t.P(1, 3) {
				c.Values = append(c.Values, nil)
			} else {
				s := g.strContent()
				c.Values = append(c.Values, &s)
			}
		}
		return c
	case 9:
		return &sqlast.PartitionedJoinTable{Factor: &sqlast.Table{Name: g.objectName()}, ColumnList: g.identList()}
	case 10:
		return &sqlast.TableJoinElement{Ref: &sqlast.Table{Name: g.objectName()}}
	}
	var list []*sqlast.Comment
	for k := t.Range(1, 4); k > 0; k-- {
		list = append(list, &sqlast.Comment{Text: g.strContent()})
	}
	return &sqlast.CommentGroup{List: list}
}

func runC19(t *T) {
	var root sqlast.Node
	switch t.Weighted(3, 3, 1) {
	case 0:
		f, _, _ := anyFile(t)
		if f == nil {
			return
		}
		root = f
		t.Label("parsed")
	case 1:
		g := newG(t, pickDialect(t))
		g.o.tricky = t.P(1, 3)
		root = g.stmt()
		t.Label("built")
	case 2:
		g := newG(t, pickDialect(t))
		root = rareNode(t, g)
		t.Label("rare")
	}
	ns := nodes(root)
	todo := []sqlast.Node{root}
	for k := 0; k < 4 && len(ns) > 1; k++ {
		todo = append(todo, ns[t.N(len(ns))])
	}
	for i, n := range todo {
		want := n.ToSQLString()
		if i == 0 {
			t.Input(want)
			if t.input == "" {
				t.Input("(" + typeName(n) + ")")
			}
		}
		writeFaults(t, n, want)
	}
}

func writeFaults(t *T, n sqlast.Node, want string) {
	name := typeName(n)
	check := func(what string, count int64, err error, got string) {
		if err != nil {
			t.Fatal("error:"+name, "writing to %s gives the error %v", what, err)
		}
		if got != want {
			t.Fatal("bytes:"+name, "%s gets %q, ToSQLString gives %q", what, got, want)
		}
		if count != int64(len(want)) {
			t.Fatal("count:"+name, "WriteTo %s returns %d, %d bytes are written", what, count, len(want))
		}
	}
	var bb bytes.Buffer
	c, err := n.WriteTo(&bb)
	check("a bytes.Buffer", c, err, bb.String())
	var sb strings.Builder
	c, err = n.WriteTo(&sb)
	check("a strings.Builder", c, err, sb.String())
	if id, ok := n.(*sqlast.Ident); ok {
		sb.Reset()
		c, err = id.WriteStringTo(&sb)
		check("WriteStringTo's strings.Builder", c, err, sb.String())
		w := &faultWriter{accept: t.N(len(want) + 1)}
		if c, err = id.WriteStringTo(faultStringWriter{w}); err != errWrite || c != int64(len(w.got)) {
			t.Fatal("count:"+name, "WriteStringTo returns %d, %v; %d bytes are written before the failure", c, err, len(w.got))
		}
	}
	var ub bytes.Buffer
	bw := bufio.NewWriterSize(&ub, 16)
	c, err = n.WriteTo(bw)
	bw.Flush()
	check("a bufio.Writer", c, err, ub.String())
	for kind := 0; kind < 3; kind++ {
		full := &faultWriter{failAt: -1}
		c, err := n.WriteTo(full.as(kind))
		check(fmt.Sprintf("a writer (kind %d)", kind), c, err, string(full.got))
		if full.calls > 3 {
			t.Nontrivial()
		}
		step := 1
		if full.calls > 120 {
			step = 1 + full.calls/120
		}
		off := 0
		if step > 1 {
			off = t.N(step)
		}
		prefix := 0
		for k := 0; k < full.calls; k++ {
			size := full.sizes[k]
			if k%step == off%step {
				tried := map[int]bool{}
				for _, acc := range []int{0, size / 2, size - 1, size} {
					if acc < 0 || tried[acc] {
						continue
					}
					tried[acc] = true
					w := &faultWriter{failAt: k, accept: acc, healed: t.Bool()}
					c, err := n.WriteTo(w.as(kind))
					t.faults++
					if !w.failed {
						t.Fatal("unstable:"+name, "write call %d of %d does not come when the node is written again", k, full.calls)
					}
					at := fmt.Sprintf("write call %d of %d fails having accepted %d of %d bytes (writer kind %d)", k, full.calls, acc, size, kind)
					if err == nil {
						t.Fatal("swallowed:"+name, "%s: no error is returned", at)
					}
					if !errors.Is(err, errWrite) {
						t.Fatal("othererror:"+name, "%s: the error is %v", at, err)
					}
					if w.after > 0 {
						t.Fatal("goeson:"+name, "%s: %d more write calls follow", at, w.after)
					}
					if string(w.got) != want[:prefix+acc] {
						t.Fatal("prefix:"+name, "%s: %q was accepted, which is not the beginning of %q", at, w.got, want)
					}
					if c != int64(len(w.got)) {
						t.Fatal("faultcount:"+name, "%s: the count is %d, the writer accepted %d", at, c, len(w.got))
					}
				}
			}
			prefix += size
		}
	}
}

func init() {
	register(&Prop{
		ID:       "C19",
		Level:    "fault_enumeration",
		Rule:     "the tree of a parsed script, a built statement or a node of a kind the parser does not produce, and drawn nodes of it, are written to bytes.Buffer, strings.Builder, bufio.Writer and writers with and without WriteString, WriteByte and ReadFrom; then again with a fault at each write call, which accepts none, half, all but one and all of the bytes of that call and after which the writer works again or not; non-trivial: more than 3 write calls",
		Quick:    40000,
		Thorough: 800000,
		Run:      runC19,
	})
}
