package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// walkMemory lists the addresses of everything mutable in a tree: what its pointers point to and its lists' elements.
func walkMemory(v reflect.Value, f func(uintptr, string)) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			walkMemory(v.Elem(), f)
		}
	case reflect.Ptr:
		if v.IsNil() || v.Type().Elem().Size() == 0 {
			return
		}
		f(v.Pointer(), v.Type().String())
		walkMemory(v.Elem(), f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walkMemory(v.Field(i), f)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			f(v.Pointer(), v.Type().String())
		}
		for i := 0; i < v.Len(); i++ {
			walkMemory(v.Index(i), f)
		}
	}
}

// sharedWithin names the type of something mutable that stands at two places of a tree, if there is any.
func sharedWithin(x interface{}) string {
	var list []uintptr
	walkMemory(reflect.ValueOf(x), func(a uintptr, what string) { list = append(list, a) })
	seen := memoryOf(x)
	if len(seen) == len(list) {
		return ""
	}
	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	for i := 1; i < len(list); i++ {
		if list[i] == list[i-1] {
			return seen[list[i]]
		}
	}
	return ""
}

func memoryOf(x interface{}) map[uintptr]string {
	out := map[uintptr]string{}
	walkMemory(reflect.ValueOf(x), func(a uintptr, what string) { out[a] = what })
	return out
}

// scramble changes one drawn place of a tree in place.
func scramble(t *T, root sqlast.Node) string {
	ns := treeNodes(root)
	n := ns[t.N(len(ns))]
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return ""
	}
	v = v.Elem()
	if v.NumField() == 0 {
		return ""
	}
	i := t.N(v.NumField())
	f := v.Field(i)
	if v.Type().Field(i).PkgPath != "" {
		return ""
	}
	what := typeName(n) + "." + v.Type().Field(i).Name
	switch f.Kind() {
	case reflect.String:
		f.SetString(f.String() + "_x")
	case reflect.Bool:
		f.SetBool(!f.Bool())
	case reflect.Int, reflect.Int64:
		f.SetInt(f.Int() + 1)
	case reflect.Uint:
		f.SetUint(f.Uint() + 1)
	case reflect.Float64:
		f.SetFloat(f.Float() + 1)
	case reflect.Struct:
		if f.Type() == posType {
			f.Set(reflect.ValueOf(sqltoken.Pos{Line: 99, Col: 99}))
		}
	case reflect.Slice:
		if f.Len() == 0 {
			return ""
		}
		if t.Bool() {
			f.Set(reflect.Append(f, cloneValue(f.Index(0), "_y"))) // in place where there is room
		} else {
			f.Index(t.N(f.Len())).Set(cloneValue(f.Index(0), "_z"))
		}
	case reflect.Ptr:
		if f.IsNil() {
			return ""
		}
		if k := f.Elem().Kind(); k == reflect.Uint || k == reflect.Uint64 {
			f.Elem().SetUint(f.Elem().Uint() + 1)
		} else if k == reflect.Struct {
			f.Set(cloneValue(f, "_w"))
		}
	}
	return what
}

type parseKey struct {
	src      int
	dialect  int
	comments bool
}

// parseOutcome is what parsing a source gives, as text.
func parseOutcome(src string, d *dspec, comments bool) (string, *sqlast.File) {
	f, err := parseFile(src, d, comments)
	if err != nil {
		return "refused", nil
	}
	return dumpPos(f), f
}

func lexOutcome(src string, d *dspec) string {
	toks, err := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
	if err != nil {
		return "refused"
	}
	return tokensText(toks)
}

func tokensText(toks []*sqltoken.Token) string {
	var sb strings.Builder
	for _, k := range toks {
		val, q, kw, _ := tokVal(k)
		for _, n := range []int{int(k.Kind), k.From.Line, k.From.Col, k.To.Line, k.To.Col} {
			sb.WriteString(strconv.Itoa(n))
			sb.WriteByte(' ')
		}
		for _, v := range []string{val, string(q), kw} {
			sb.WriteString(strconv.Quote(v))
			sb.WriteByte(' ')
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

// readers are the operations that only look at a tree.
func readTree(f *sqlast.File, kind int) string {
	switch kind % 6 {
	case 0:
		return f.ToSQLString()
	case 1:
		n := 0
		sqlast.Inspect(f, func(x sqlast.Node) bool {
			if x != nil {
				n++
			}
			return true
		})
		return fmt.Sprint(n)
	case 2:
		n := 0
		sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool { n++; return true }, nil)
		return fmt.Sprint(n)
	case 3:
		var sb strings.Builder
		for _, n := range treeNodes(f) {
			fmt.Fprint(&sb, n.Pos(), n.End())
		}
		return sb.String()
	case 5:
		w := yielding()
		f.WriteTo(w)
		return w.text()
	}
	m := sqlast.NewCommentMap(f)
	var sb strings.Builder
	fmt.Fprint(&sb, len(m))
	for i, n := range treeNodes(f) {
		for _, g := range m[n] {
			fmt.Fprintf(&sb, " %d %v %q", i, g.Pos(), g.ToSQLString())
		}
	}
	return sb.String()
}

type held struct {
	key   parseKey
	file  *sqlast.File
	state string
}

// A batch is a list of sources that a process of its own works through: what one of them leaves behind in the process
// is there for the next ones, and for nothing else.
type batchItem struct {
	Src      []byte
	Dialect  int
	Comments bool
	Wreck    bool // change the tree all over once its outcome is known
}

func (b batchItem) outcome() string {
	part := func(f func() string) (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("panic: %v", r)
			}
		}()
		return f()
	}
	src, d := string(b.Src), dialects[b.Dialect]
	out := part(func() string { return lexOutcome(src, d) })
	var f *sqlast.File
	out += part(func() string {
		var s string
		s, f = parseOutcome(src, d, b.Comments)
		return s
	})
	if f == nil {
		return out
	}
	for i := 0; i < 6; i++ {
		out += "\n" + part(func() string { return readTree(f, i) })
	}
	if b.Wreck {
		part(func() string {
			wreck(reflect.ValueOf(f))
			return ""
		})
	}
	return out
}

// wreck changes every field of a tree.
func wreck(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			wreck(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				wreck(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			wreck(v.Index(i))
		}
		if v.CanSet() && v.Len() > 1 {
			v.Index(0).Set(v.Index(v.Len() - 1))
			v.Set(v.Slice(0, v.Len()-1))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "_x")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Uint, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 1)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 1)
		}
	}
}

// fresh makes a tree that holds the same in its exported fields.
func fresh(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			out := reflect.New(v.Type()).Elem()
			out.Set(fresh(v.Elem()))
			return out
		}
	case reflect.Ptr:
		if !v.IsNil() {
			out := reflect.New(v.Type().Elem())
			out.Elem().Set(fresh(v.Elem()))
			return out
		}
	case reflect.Struct:
		out := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out.Field(i).Set(fresh(v.Field(i)))
			}
		}
		return out
	case reflect.Slice:
		if !v.IsNil() {
			out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(fresh(v.Index(i)))
			}
			return out
		}
	}
	return v
}

// batchMain works through the batch on standard input.
func batchMain() int {
	var items []batchItem
	if err := json.NewDecoder(os.Stdin).Decode(&items); err != nil {
		return 3
	}
	res := make([][]byte, len(items))
	for i, it := range items {
		res[i] = []byte(it.outcome())
	}
	if json.NewEncoder(os.Stdout).Encode(res) != nil {
		return 3
	}
	return 0
}

func inProcess(t *T, items []batchItem) []string {
	in, _ := json.Marshal(items)
	self, _ := os.Executable()
	r := command(t.scratch, self, append(os.Environ(), "GORACE=atexit_sleep_ms=0", "GOMAXPROCS=2"), string(in), "batch")
	var res [][]byte
	if r.code != 0 || json.Unmarshal([]byte(r.stdout), &res) != nil || len(res) != len(items) {
		return nil // it died, which other properties are about
	}
	out := make([]string, len(res))
	for i := range res {
		out[i] = string(res[i])
	}
	return out
}

// runBatch parses a list of sources in one process, and in another the other way round, everything twice.
func runBatch(t *T) {
	t.Label("fresh processes")
	var items []batchItem
	var note strings.Builder
	for n, tries := t.Range(2, 40), 0; len(items) < n && tries < 80; tries++ {
		t.Begin("src")
		t.fuel = t.N(t.size/3 + 1)
		di := t.N(len(dialects))
		d := dialects[di]
		var toks []gtok
		if t.P(1, 2) {
			toks = damagedTokens(t, d)
		} else {
			g := newG(t, d)
			g.stmt()
			toks = g.src
		}
		it := batchItem{[]byte(layoutTokens(t, d, toks, anyLayout(t)).src), di, t.Bool(), t.P(1, 4)}
		if len(it.Src) > 1500 { // everything is done three times, the big ones are for the other cases
			t.End()
			continue
		}
		items = append(items, it)
		fmt.Fprintf(&note, "%s\n=====\n", it.Src)
		t.End()
	}
	t.Input(note.String())
	var back []batchItem
	for i := range items {
		it := items[len(items)-1-i]
		back = append(back, it, it)
	}
	a, b := inProcess(t, items), inProcess(t, back)
	if a == nil || b == nil {
		return
	}
	t.Nontrivial()
	for i := range items {
		j := 2 * (len(items) - 1 - i)
		for k := 0; k < 2; k++ {
			if a[i] != b[j+k] {
				t.Fatal("history", "the result for %q depends on what was parsed before: %s", clip(string(items[i].Src)), diffAt(a[i], b[j+k]))
			}
		}
	}
}

func runC24(t *T) {
	if t.P(1, 100) {
		runBatch(t)
		return
	}
	var srcs []string
	n := t.Range(2, 4)
	for i := 0; i < n; i++ {
		t.Begin("src")
		t.fuel = t.size/2 + 1
		d := pickDialect(t)
		var toks []gtok
		if t.P(1, 4) {
			toks = damagedTokens(t, d)
		} else {
			g := newG(t, d)
			g.stmt()
			g.labels()
			toks = g.src
		}
		srcs = append(srcs, layoutTokens(t, d, toks, anyLayout(t)).src)
		t.End()
	}
	t.Input(strings.Join(srcs, "\n=====\n"))
	first := map[parseKey]string{}
	firstLex := map[parseKey]string{}
	var trees []*held
	var lexed []map[uintptr]string
	var kept [][]*sqltoken.Token // so that their memory is not used again
	defer func() { runtime.KeepAlive(kept) }()
	drawKey := func() parseKey {
		return parseKey{t.N(n), t.Weighted(4, 1, 1), t.Bool()}
	}
	parse := func(k parseKey) {
		got, f := parseOutcome(srcs[k.src], dialects[k.dialect], k.comments)
		if want, ok := first[k]; ok && want != got {
			t.Fatal("differs", "parsing the source again gives another result: %s", diffAt(want, got))
		}
		first[k] = got
		if f == nil {
			return
		}
		h := &held{k, f, got}
		mem := memoryOf(f)
		if what := sharedWithin(f); what != "" {
			t.Fatal("twice", "the same %s stands at two places of a tree", what)
		}
		for _, o := range trees {
			for a := range memoryOf(o.file) { // as it is now: what an edit replaced may be free and used again
				if what, both := mem[a]; both {
					t.Fatal("shared", "two parses share a %s", what)
				}
			}
		}
		trees = append(trees, h)
	}
	checkHeld := func(after string) {
		for _, h := range trees {
			if s := dumpPos(h.file); s != h.state {
				t.Fatal("touched", "a tree changes by an operation on another one (%s): %s", after, diffAt(h.state, s))
			}
		}
	}
	readAnew := func(h *held, kind int) {
		got := guarded(func() string { return readTree(h.file, kind) }) // an edited tree need not be whole
		// a tree of its own that holds the same
		same := fresh(reflect.ValueOf(h.file)).Interface().(*sqlast.File)
		if want := guarded(func() string { return readTree(same, kind) }); got != want {
			t.Fatal("stale", "a tree reads differently from one that holds the same and was just made: %s", diffAt(want, got))
		}
	}
	steps := t.Range(3, 10)
	edits, bursts := 0, 0
	for s := 0; s < steps; s++ {
		t.Begin("step")
		what := ""
		switch op := t.Weighted(4, 2, 3, 2, 3, 3); op {
		case 0:
			parse(drawKey())
			what = "parse"
		case 1:
			k := drawKey()
			got := lexOutcome(srcs[k.src], dialects[k.dialect])
			k.comments = false
			if want, ok := firstLex[k]; ok && want != got {
				t.Fatal("lexdiffers", "tokenizing the source again gives other tokens: %s", diffAt(want, got))
			}
			firstLex[k] = got
			what = "tokenize"
			if toks, err := sqltoken.NewTokenizer(strings.NewReader(srcs[k.src]), dialects[k.dialect].d).Tokenize(); err == nil && t.Bool() {
				mem := memoryOf(toks)
				for _, o := range lexed {
					for a := range o {
						if what, both := mem[a]; both {
							t.Fatal("shared", "two token lists share a %s", what)
						}
					}
				}
				lexed = append(lexed, mem)
				kept = append(kept, toks)
				if t.Bool() {
					wreck(reflect.ValueOf(toks))
					what = "change of tokens"
				}
			}
		case 2: // edit
			if len(trees) > 0 {
				h := trees[t.N(len(trees))]
				before := t.N(12)
				guarded(func() string { return readTree(h.file, before) })
				what = "edit " + scramble(t, h.file)
				if t.Bool() {
					readAnew(h, before)
				}
				h.state = dumpPos(h.file)
				edits++
			}
		case 3:
			if len(trees) > 0 {
				h, kind := trees[t.N(len(trees))], t.N(6)
				what = "read"
				if t.Bool() {
					readAnew(h, kind)
				} else {
					guarded(func() string { return readTree(h.file, kind) })
				}
			}
		case 5: // one in the middle of another
			what = nested(t, srcs, trees, drawKey)
			bursts++
		case 4: // all at once
			type job struct {
				key  parseKey
				tree *held
				kind int
			}
			var jobs []job
			for j := t.Range(2, 6); j > 0; j-- {
				jb := job{key: drawKey(), kind: t.N(7)}
				if len(trees) > 0 && t.Bool() {
					h := trees[t.N(len(trees))]
					if first[h.key] == h.state { // not edited
						jb.tree = h
					}
				}
				jobs = append(jobs, jb)
			}
			want := make([]string, len(jobs))
			got := make([]string, len(jobs))
			do := func(jb job) string {
				switch {
				case jb.tree != nil:
					return readTree(jb.tree.file, jb.kind)
				case jb.kind == 0:
					return lexOutcome(srcs[jb.key.src], dialects[jb.key.dialect])
				default:
					r, f := parseOutcome(srcs[jb.key.src], dialects[jb.key.dialect], jb.key.comments)
					if f != nil {
						r += f.ToSQLString() + readTree(f, jb.kind)
					}
					return r
				}
			}
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for i := range jobs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							got[i] = fmt.Sprintf("panic: %v", r)
						}
					}()
					<-gate
					got[i] = do(jobs[i])
				}(i)
			}
			close(gate)
			wg.Wait()
			for i := range jobs {
				func() {
					defer func() {
						if r := recover(); r != nil {
							want[i] = fmt.Sprintf("panic: %v", r)
						}
					}()
					want[i] = do(jobs[i])
				}()
				if want[i] != got[i] {
					t.Fatal("concurrent", "an operation gives another result when others run at the same time: %s", diffAt(want[i], got[i]))
				}
			}
			bursts++
			what = "concurrent operations"
		}
		checkHeld(what)
		t.End()
	}
	for _, h := range trees {
		parse(h.key)
		break
	}
	if len(trees) > 1 && edits+bursts > 1 {
		t.Nontrivial()
	}
}

func init() {
	register(&Prop{
		ID:        "C24",
		Rule:      "a history of up to 10 operations over two to four sources (some damaged): parses and tokenizations with drawn dialects and options, each compared with the first of its kind; changes of a drawn field of an earlier tree, or of all tokens of an earlier list; reads, compared with those of a new tree that holds the same; and bursts of two to six operations in goroutines, some on the same tree, each compared with the same operation alone; and operations with others in the middle: run by the writer, the reader, the dialect or the callback they call (whose arguments may not change meanwhile), or two tokenizers or parsers by turns. After each step no other tree has changed, and no two trees or token lists, and no two places of one tree, share memory. One case in a hundred is a list of up to 40 sources (half of them damaged) that one process works through in order and another one backwards, everything twice and some trees changed all over in between: the results are the same. The harness is built with the race detector, and eight such histories run at the same time; non-trivial: at least two trees and two edits or bursts",
		Quick:     14000,
		Thorough:  400000,
		MaxFuel:   24,
		SlowCases: true,
		Run:       runC24,
	})
}
