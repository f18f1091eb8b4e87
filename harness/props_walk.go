package main

import (
	"fmt"
	"reflect"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

// anyFile is a parsed script of generated (or damaged and yet accepted) statements.
func anyFile(t *T) (*sqlast.File, string, *dspec) {
	d := pickDialect(t)
	var toks []gtok
	n := many(t, 4, 1, 1)
	for i := 0; i < n; i++ {
		t.Begin("one")
		t.fuel = t.size/n + 1
		if i > 0 {
			toks = append(toks, gtok{gPunct, ";"})
		}
		if t.P(1, 6) {
			toks = append(toks, damagedTokens(t, d)...)
		} else {
			g := newG(t, d)
			g.stmt()
			g.labels()
			toks = append(toks, g.src...)
		}
		t.End()
	}
	lay := layoutTokens(t, d, toks, anyLayout(t))
	t.Input(lay.src)
	f, err := parseFile(lay.src, d, t.Bool())
	if err != nil {
		return nil, lay.src, d
	}
	return f, lay.src, d
}

// treeChildren are the children that belong to the tree; a file's comment list is not part of it.
func treeChildren(n sqlast.Node) []child {
	cs := children(n)
	if _, ok := n.(*sqlast.File); ok {
		var out []child
		for _, c := range cs {
			if c.field != "Comments" {
				out = append(out, c)
			}
		}
		return out
	}
	return cs
}

func treeNodes(n sqlast.Node) []sqlast.Node {
	out := []sqlast.Node{n}
	for _, c := range treeChildren(n) {
		out = append(out, treeNodes(c.node)...)
	}
	return out
}

// anyRoot is the file or one of its nodes.
func anyRoot(t *T, f *sqlast.File) sqlast.Node {
	if t.P(2, 3) {
		return f
	}
	ns := treeNodes(f)
	return ns[t.N(len(ns))]
}

// frame is a node whose children are being visited.
type frame struct {
	node sqlast.Node
	left []sqlast.Node // children still to come
}

// tracker checks a traversal against the children relation.
type tracker struct {
	t     *T
	stack []*frame
	seen  int
	root  sqlast.Node
	begun bool
}

func (k *tracker) enter(n sqlast.Node, descend bool) {
	k.seen++
	if isNilNode(n) {
		k.t.Fatal("nilnode", "a nil node of type %T is visited", n)
	}
	if len(k.stack) == 0 {
		if k.begun || n != k.root {
			k.t.Fatal("root", "the traversal starts at or leaves the root: %T", n)
		}
		k.begun = true
	} else {
		top := k.stack[len(k.stack)-1]
		found := false
		for i, c := range top.left {
			if c == n {
				top.left = append(append([]sqlast.Node(nil), top.left[:i]...), top.left[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			k.t.Fatal("notchild:"+typeName(top.node), "%T is visited below %T, which does not (or no longer) have it as a child", n, top.node)
		}
	}
	if descend {
		fr := &frame{node: n}
		for _, c := range treeChildren(n) {
			fr.left = append(fr.left, c.node)
		}
		k.stack = append(k.stack, fr)
	}
}

func (k *tracker) leave() sqlast.Node {
	if len(k.stack) == 0 {
		k.t.Fatal("closing", "a closing call without an open node")
	}
	top := k.stack[len(k.stack)-1]
	if len(top.left) > 0 {
		k.t.Fatal("missed:"+typeName(top.node), "the %T below %T is not visited", top.left[0], top.node)
	}
	k.stack = k.stack[:len(k.stack)-1]
	return top.node
}

func (k *tracker) done() {
	if len(k.stack) > 0 {
		k.t.Fatal("closing", "no closing call for %T", k.stack[len(k.stack)-1].node)
	}
	if !k.begun {
		k.t.Fatal("root", "nothing is visited")
	}
}

// repeatNodes puts some nodes of the tree at further places of lists they stand in.
func repeatNodes(t *T, root sqlast.Node) {
	all := treeNodes(root)
	for k := t.N(4); k >= 0; k-- {
		var lists []reflect.Value
		for _, n := range all {
			v := reflect.Indirect(reflect.ValueOf(n))
			if _, ok := n.(*sqlast.File); ok {
				v = reflect.ValueOf(struct{ Stmts []sqlast.Stmt }{n.(*sqlast.File).Stmts})
			}
			if v.Kind() != reflect.Struct {
				continue
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Kind() == reflect.Slice && f.Len() > 1 && f.Type().Elem().Implements(nodeType) {
					lists = append(lists, f)
				}
			}
		}
		if len(lists) == 0 {
			return
		}
		l := lists[t.N(len(lists))]
		i := t.N(l.Len())
		j := t.N(l.Len())
		if t.Bool() {
			j = (i + 1) % l.Len()
		}
		l.Index(j).Set(l.Index(i))
		t.Label("a node at two places")
	}
}

type modelVisitor struct {
	k     *tracker
	t     *T
	id    int
	owner sqlast.Node // the node whose children this visitor is for
	next  *int
	cur   *[]*modelVisitor // stack of visitors in force
	mode  int
}

func (v *modelVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	if n == nil {
		st := *v.cur
		if len(st) == 0 || st[len(st)-1] != v {
			v.t.Fatal("closing", "Visit(nil) comes to visitor %d, which is not the one in force", v.id)
		}
		if got := v.k.leave(); v.mode == 0 && got != v.owner {
			v.t.Fatal("closing", "Visit(nil) for %T comes to the visitor of %T", got, v.owner)
		}
		*v.cur = st[:len(st)-1]
		return nil
	}
	st := *v.cur
	if len(st) == 0 || st[len(st)-1] != v {
		v.t.Fatal("visitor", "%T is visited with visitor %d, which is not the one returned for its parent", n, v.id)
	}
	if v.t.P(1, 12) {
		v.k.enter(n, false)
		return nil
	}
	v.k.enter(n, true)
	w := v
	if v.mode == 0 || v.t.Bool() {
		*v.next++
		w = &modelVisitor{k: v.k, t: v.t, id: *v.next, owner: n, next: v.next, cur: v.cur, mode: v.mode}
	}
	*v.cur = append(*v.cur, w)
	return w
}

func init() {
	const files = "the tree of a parsed script of generated statements of all kinds (one in six damaged and yet accepted), or a node of it, "
	register(&Prop{
		ID:       "C15",
		Rule:     files + "is inspected with a function that returns false for drawn nodes; the calls are checked against the children found by reflection over all exported fields; non-trivial: more than 8 nodes",
		Quick:    250000,
		Thorough: 3000000,
		Run: func(t *T) {
			f, _, _ := anyFile(t)
			if f == nil {
				return
			}
			root := anyRoot(t, f)
			all := treeNodes(root)
			if len(all) > 8 {
				t.Nontrivial()
			}
			for _, prune := range []bool{false, true} {
				k := &tracker{t: t, root: root}
				before := dumpPos(root)
				sqlast.Inspect(root, func(n sqlast.Node) bool {
					if n == nil {
						k.leave()
						return t.Bool() // the result of the closing call means nothing
					}
					descend := !(prune && t.P(1, 8))
					k.enter(n, descend)
					return descend
				})
				k.done()
				if !prune && k.seen != len(all) {
					t.Fatal("count", "%d nodes visited, the tree has %d", k.seen, len(all))
				}
				if after := dumpPos(root); after != before {
					t.Fatal("changed", "inspecting changes the tree: %s", diffAt(before, after))
				}
			}
		},
	})
	register(&Prop{
		ID:       "C16",
		Rule:     files + "is walked with a visitor that answers with new visitors, itself or nil as drawn (in one of three trees some nodes stand at two places of a list and must be visited at both); the visitor each node and each closing call comes to is checked against the protocol; non-trivial: more than 8 nodes",
		Quick:    250000,
		Thorough: 3000000,
		Run: func(t *T) {
			f, _, _ := anyFile(t)
			if f == nil {
				return
			}
			root := anyRoot(t, f)
			if len(treeNodes(root)) > 8 {
				t.Nontrivial()
			}
			if t.P(1, 3) {
				repeatNodes(t, root)
			}
			k := &tracker{t: t, root: root}
			next := 0
			v := &modelVisitor{k: k, t: t, next: &next, mode: t.N(2)}
			cur := []*modelVisitor{v}
			v.cur = &cur
			sqlast.Walk(v, root)
			k.done()
			if len(cur) != 1 || cur[0] != v {
				t.Fatal("closing", "%d visitors are still in force after the walk", len(cur)-1)
			}
		},
	})
	register(&Prop{
		ID:       "C17",
		Rule:     files + "is traversed by Apply with callbacks that only look (either may be nil), return false from pre for drawn nodes or from post at a drawn call; calls, order and cursors are checked against the children found by reflection and against Inspect's order; non-trivial: more than 8 nodes",
		Quick:    250000,
		Thorough: 3000000,
		Run:      runC17,
	})
	register(&Prop{
		ID:       "C18",
		Rule:     files + "is edited by Apply with a drawn history of Replace, Delete, InsertBefore and InsertAfter in pre and post calls (several per node), the same edits are made on the slices and fields of a second parse, and the trees and the sequence of visited nodes are compared; non-trivial: at least two edits",
		Quick:    130000,
		Thorough: 3000000,
		Run:      runC18,
	})
}

// fieldOf reads what a cursor names.
func fieldOf(parent sqlast.Node, name string, index int) (sqlast.Node, error) {
	v := reflect.ValueOf(parent)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	f := v.FieldByName(name)
	if !f.IsValid() {
		return nil, fmt.Errorf("%T has no field %s", parent, name)
	}
	if index >= 0 {
		if f.Kind() != reflect.Slice || index >= f.Len() {
			return nil, fmt.Errorf("%T.%s has no element %d", parent, name, index)
		}
		f = f.Index(index)
	} else if f.Kind() == reflect.Slice {
		return nil, fmt.Errorf("%T.%s is a list, the index is %d", parent, name, index)
	}
	n, _ := f.Interface().(sqlast.Node)
	return n, nil
}

type place struct {
	node, parent sqlast.Node
	name         string
	index        int
}

// panicking panics in one call of a callback; that must be the last call, and the value must come out.
func panicking(t *T, root sqlast.Node, n int) {
	t.Label("panic")
	at := t.N(2 * n)
	var value interface{} = fmt.Errorf("callback %d", at)
	switch t.N(4) {
	case 0:
		value = fmt.Sprint("callback ", at)
	case 1:
		value = &at
	case 2:
		value = at
	}
	calls := 0
	call := func(*sqlastutil.Cursor) bool {
		if calls == at {
			calls++
			panic(value)
		}
		calls++
		return true
	}
	var came interface{}
	func() {
		defer func() { came = recover() }()
		sqlastutil.Apply(root, call, call)
	}()
	if came != value {
		t.Fatal("panic", "call %d panics with %#v, from Apply comes %#v", at, value, came)
	}
	if calls != at+1 {
		t.Fatal("panic", "call %d panics, and %d more follow", at, calls-at-1)
	}
}

func runC17(t *T) {
	f, _, _ := anyFile(t)
	if f == nil {
		return
	}
	root := anyRoot(t, f)
	all := treeNodes(root)
	if len(all) > 8 {
		t.Nontrivial()
	}
	var order []sqlast.Node
	sqlast.Inspect(root, func(n sqlast.Node) bool {
		if n != nil {
			order = append(order, n)
		}
		return true
	})
	before := dumpPos(root)
	if t.P(1, 16) {
		panicking(t, root, len(all))
	}
	mode := t.N(5) // 0 both, 1 pruned, 2 abort, 3 pre only, 4 post only
	abortAt := -1
	if mode == 2 {
		abortAt = t.N(len(all))
	}
	t.Label("mode %d", mode)
	k := &tracker{t: t, root: root}
	var open []place
	var got, posts []sqlast.Node
	aborted := false
	look := func(what string, c *sqlastutil.Cursor) place {
		p := place{c.Node(), c.Parent(), c.Name(), c.Index()}
		n, err := fieldOf(p.parent, p.name, p.index)
		if err != nil {
			t.Fatal("cursor", "%s of %T: %v", what, p.node, err)
		}
		if n != p.node {
			t.Fatal("cursor", "%s: the cursor's node is a %T, but %T.%s[%d] is another node (%T)", what, p.node, p.parent, p.name, p.index, n)
		}
		return p
	}
	pre := func(c *sqlastutil.Cursor) bool {
		if aborted {
			t.Fatal("abort", "pre is called after post returned false")
		}
		p := look("pre", c)
		if len(open) > 0 {
			if p.parent != open[len(open)-1].node {
				t.Fatal("cursor", "pre of %T: the parent is %T, want %T", p.node, p.parent, open[len(open)-1].node)
			}
		} else if p.index != -1 {
			t.Fatal("cursor", "the root has index %d", p.index)
		}
		got = append(got, p.node)
		if mode == 1 && t.P(1, 8) {
			k.enter(p.node, false)
			return false
		}
		k.enter(p.node, true)
		open = append(open, p)
		return true
	}
	post := func(c *sqlastutil.Cursor) bool {
		if aborted {
			t.Fatal("abort", "post is called after it returned false")
		}
		p := look("post", c)
		posts = append(posts, p.node)
		if mode != 4 {
			if n := k.leave(); n != p.node {
				t.Fatal("post", "post of %T comes while %T is open", p.node, n)
			}
			if o := open[len(open)-1]; o != p {
				t.Fatal("cursor", "the cursor of post names %T.%s[%d], that of pre %T.%s[%d]", p.parent, p.name, p.index, o.parent, o.name, o.index)
			}
			open = open[:len(open)-1]
		}
		if abortAt >= 0 && len(posts) == abortAt+1 {
			aborted = true
			return false
		}
		return true
	}
	var res sqlast.Node
	switch mode {
	case 3:
		k2 := map[sqlast.Node]int{}
		res = sqlastutil.Apply(root, func(c *sqlastutil.Cursor) bool {
			look("pre", c)
			got = append(got, c.Node())
			k2[c.Node()]++
			return true
		}, nil)
	case 4:
		res = sqlastutil.Apply(root, nil, post)
	default:
		res = sqlastutil.Apply(root, pre, post)
	}
	if res != root {
		t.Fatal("result", "Apply returns another root: %T", res)
	}
	if after := dumpPos(root); after != before {
		t.Fatal("changed", "the tree changes: %s", diffAt(before, after))
	}
	switch mode {
	case 0, 1:
		k.done()
	case 2:
		if !aborted {
			t.Fatal("abort", "post is called %d times only", len(posts))
		}
	}
	if mode == 0 || mode == 3 {
		if len(got) != len(order) {
			t.Fatal("order", "pre is called for %d nodes, Inspect for %d", len(got), len(order))
		}
	}
	if mode != 1 && mode != 4 {
		for i := range got {
			if i >= len(order) || got[i] != order[i] {
				t.Fatal("order", "pre call %d is for %T, Inspect has another node there", i, got[i])
			}
		}
	}
	if mode == 4 || mode == 0 {
		// post order: each node once, children before parents
		if len(posts) != len(all) {
			t.Fatal("post", "post is called %d times for %d nodes", len(posts), len(all))
		}
		at := map[sqlast.Node]int{}
		for i, n := range posts {
			if _, dup := at[n]; dup {
				t.Fatal("post", "post is called twice for %T", n)
			}
			at[n] = i
		}
		for _, n := range all {
			for _, c := range treeChildren(n) {
				if at[c.node] > at[n] {
					t.Fatal("post", "post of %T comes before post of its child %T", n, c.node)
				}
			}
		}
	}
}

// clone copies a node in full; the names in it get a suffix, so that copies can be told apart.
func clone(n sqlast.Node, tag string) sqlast.Node {
	v := cloneValue(reflect.ValueOf(n), tag)
	return v.Interface().(sqlast.Node)
}

func cloneValue(v reflect.Value, tag string) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type()).Elem()
		out.Set(cloneValue(v.Elem(), tag))
		return out
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type().Elem())
		if v.Elem().Kind() == reflect.Struct {
			out.Elem().Set(v.Elem())
			for i := 0; i < v.Elem().NumField(); i++ {
				if v.Elem().Type().Field(i).PkgPath == "" {
					out.Elem().Field(i).Set(cloneValue(v.Elem().Field(i), tag))
				}
			}
			if id, ok := out.Interface().(*sqlast.Ident); ok && tag != "" {
				id.Value += tag
			}
			return out
		}
		out.Elem().Set(v.Elem())
		return out
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(cloneValue(v.Index(i), tag))
		}
		return out
	}
	return v
}

type editKind int

const (
	eReplace editKind = iota
	eDelete
	eBefore
	eAfter
	eWrap
)

// listEdit is what happened around one element of a list.
type listEdit struct {
	before, after []sqlast.Node
	self          sqlast.Node
	deleted       bool
}

func runC18(t *T) {
	f, src, d := anyFile(t)
	if f == nil {
		return
	}
	f2, err := parseFile(src, d, len(f.Comments) > 0)
	if err != nil {
		t.Fatal("unstable", "the source is accepted once only: %v", err)
	}
	var root, root2 sqlast.Node = f, f2
	all := treeNodes(f)
	twinAll := treeNodes(f2)
	if len(all) != len(twinAll) {
		t.Fatal("unstable", "two parses differ")
	}
	if t.P(1, 4) {
		i := t.N(len(all))
		root, root2 = all[i], twinAll[i]
	}
	twin := map[sqlast.Node]sqlast.Node{}
	f3, err := parseFile(src, d, false)
	if err != nil {
		t.Fatal("unstable", "the source is accepted without comments only when they are collected: %v", err)
	}
	pristine := map[sqlast.Node]sqlast.Node{} // what copies are made of
	for i, n := range treeNodes(f3) {
		if i < len(all) {
			pristine[all[i]] = n
		}
	}
	for i := range all {
		if _, dup := twin[all[i]]; dup {
			t.Fatal("shared", "a node of type %T is in the tree twice", all[i])
		}
		twin[all[i]] = twinAll[i]
	}
	var order []sqlast.Node
	sqlast.Inspect(root, func(n sqlast.Node) bool {
		if n != nil {
			order = append(order, n)
		}
		return true
	})
	type loc struct {
		parent sqlast.Node
		name   string
	}
	type edit struct {
		at   loc
		orig sqlast.Node
		le   *listEdit
	}
	lists := map[loc]map[sqlast.Node]*listEdit{} // twin lists: edits by twin element
	fields := map[loc]sqlast.Node{}              // twin fields: final value
	var rootNew sqlast.Node
	edits := 0
	serial := 0
	rate := t.Range(1, 6)
	var log []string
	deletedNow := map[sqlast.Node]bool{}
	visit := func(c *sqlastutil.Cursor, when string) {
		n := c.Node()
		tw, known := twin[n]
		if !known {
			t.Fatal("inserted", "%s is called for a node that was inserted (%T)", when, n)
		}
		for k := 0; k < 3 && t.P(rate, 24); k++ {
			isRoot := n == root
			inList := c.Index() >= 0
			kind := eReplace
			if inList {
				kind = []editKind{eReplace, eDelete, eBefore, eAfter}[t.N(4)]
			}
			if deletedNow[n] {
				kind = eBefore // the only edit that still has a place
			}
			serial++
			tag := fmt.Sprintf("_%d", serial)
			var le *listEdit
			var at loc
			if !isRoot {
				ptw, ok := twin[c.Parent()]
				if !ok {
					t.Fatal("inserted", "%s is called with a parent that was inserted (%T)", when, c.Parent())
				}
				at = loc{ptw, c.Name()}
				if inList {
					if lists[at] == nil {
						lists[at] = map[sqlast.Node]*listEdit{}
					}
					le = lists[at][tw]
					if le == nil {
						le = &listEdit{self: tw}
						lists[at][tw] = le
					}
				}
			}
			edits++
			log = append(log, fmt.Sprintf("%s %d %T %s[%d]", when, kind, n, c.Name(), c.Index()))
			var a, b sqlast.Node
			if kind != eDelete {
				// the new node: a copy, or one that holds the old node
				a, b = clone(pristine[n], tag), clone(pristine[n], tag)
				if kind == eReplace && t.P(1, 3) {
					if ft := fieldType(c.Parent(), c.Name(), isRoot); ft == nodeType {
						a, b = &sqlast.Nested{AST: n}, &sqlast.Nested{AST: tw}
					}
				}
			}
			switch kind {
			case eReplace:
				c.Replace(a)
				switch {
				case isRoot:
					rootNew = b
				case inList:
					le.self = b
				default:
					fields[at] = b
				}
			case eDelete:
				c.Delete()
				le.deleted = true
				deletedNow[n] = true
			case eBefore:
				c.InsertBefore(a)
				le.before = append(le.before, b)
			case eAfter:
				c.InsertAfter(a)
				le.after = append([]sqlast.Node{b}, le.after...)
			}
		}
	}
	var got, posts []sqlast.Node
	pre := func(c *sqlastutil.Cursor) bool {
		got = append(got, c.Node())
		visit(c, "pre")
		return true
	}
	post := func(c *sqlastutil.Cursor) bool {
		posts = append(posts, c.Node())
		visit(c, "post")
		return true
	}
	var res sqlast.Node
	switch t.N(4) {
	case 0:
		res = sqlastutil.Apply(root, pre, nil)
	case 1:
		res = sqlastutil.Apply(root, nil, post)
	default:
		res = sqlastutil.Apply(root, pre, post)
	}
	if edits >= 2 {
		t.Nontrivial()
	}
	t.note = fmt.Sprint("edits: ", log)
	for i := range got {
		if i >= len(order) || got[i] != order[i] {
			t.Fatal("visits", "pre call %d is for a %T, which is not the next node of the original tree", i, got[i])
		}
	}
	if len(got) > 0 && len(got) != len(order) {
		t.Fatal("visits", "pre is called for %d of the %d original nodes", len(got), len(order))
	}
	if len(posts) > 0 {
		if len(posts) != len(order) {
			t.Fatal("visits", "post is called for %d of the %d original nodes", len(posts), len(order))
		}
		seen := map[sqlast.Node]bool{}
		for _, n := range posts {
			if seen[n] {
				t.Fatal("visits", "post is called twice for a %T", n)
			}
			seen[n] = true
		}
	}
	// the same edits on the second tree
	for at, n := range fields {
		reflect.ValueOf(at.parent).Elem().FieldByName(at.name).Set(reflect.ValueOf(n))
	}
	for at, m := range lists {
		fv := reflect.ValueOf(at.parent).Elem().FieldByName(at.name)
		out := reflect.MakeSlice(fv.Type(), 0, fv.Len())
		add := func(n sqlast.Node) { out = reflect.Append(out, reflect.ValueOf(n)) }
		for i := 0; i < fv.Len(); i++ {
			e := fv.Index(i).Interface().(sqlast.Node)
			le := m[e]
			if le == nil {
				add(e)
				continue
			}
			for _, b := range le.before {
				add(b)
			}
			if !le.deleted {
				add(le.self)
			}
			for _, a := range le.after {
				add(a)
			}
		}
		fv.Set(out)
	}
	want := root2
	if rootNew != nil {
		want = rootNew
	} else if res != root {
		t.Fatal("result", "Apply returns another root")
	}
	if a, b := dumpPos(want), dumpPos(res); a != b {
		t.Fatal("tree", "after %v: %s", log, diffAt(a, b))
	}
}

func fieldType(parent sqlast.Node, name string, isRoot bool) reflect.Type {
	if isRoot {
		return nodeType
	}
	ft := reflect.Indirect(reflect.ValueOf(parent)).FieldByName(name).Type()
	if ft.Kind() == reflect.Slice {
		ft = ft.Elem()
	}
	return ft
}
