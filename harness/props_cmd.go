package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/akito0107/xsqlparser/sqlast"
)

// buildCommand compiles one of the repository's commands as it is now.
func buildCommand(pkg, out string) error {
	mod := filepath.Join(filepath.Dir(out), "mod")
	if err := os.MkdirAll(mod, 0o755); err != nil {
		return err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile("/repo/" + f)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(mod, f), b, 0o644); err != nil {
			return err
		}
	}
	cmd := exec.Command("go", "build", "-modfile="+filepath.Join(mod, "go.mod"), "-o", out, pkg)
	cmd.Dir = "/repo"
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

type procResult struct {
	code           int
	stdout, stderr string
	killed         bool
}

// command runs a program to its end.
func command(dir, bin string, env []string, stdin string, args ...string) procResult {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = env
	cmd.Stdin = strings.NewReader(stdin)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		return procResult{code: -2, stderr: err.Error()}
	}
	var killed int32
	timer := time.AfterFunc(120*time.Second, func() { atomic.StoreInt32(&killed, 1); cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	return procResult{cmd.ProcessState.ExitCode(), o.String(), e.String(), atomic.LoadInt32(&killed) != 0}
}

var crashRE = regexp.MustCompile(`(?m)^(panic: |fatal error: |goroutine \d+ \[)`)

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;]*m")

var logPrefixRE = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

var caseDirs int64

// caseDir is a directory of one case's own.
func caseDir(t *T) string {
	d := filepath.Join(t.scratch, fmt.Sprintf("case-%d-%d", os.Getpid(), atomic.AddInt64(&caseDirs, 1)))
	os.MkdirAll(d, 0o755)
	return d
}

func runC26(t *T) {
	d := dialects[0] // the command's dialect is the generic one
	var src string
	valid := false
	switch t.Weighted(4, 2, 3, 1) {
	case 0:
		g := newG(t, d)
		g.stmt()
		g.labels()
		toks := g.src
		if t.P(1, 3) { // what follows the first statement is not looked at
			toks = append(toks, gtok{gPunct, ";"})
			if t.Bool() {
				t.fuel = t.size/4 + 1
				g2 := newG(t, d)
				g2.stmt()
				toks = append(toks, g2.src...)
			}
		}
		src = layoutTokens(t, d, toks, anyLayout(t)).src
		valid = true
	case 1:
		src = layoutTokens(t, d, damagedTokens(t, d), anyLayout(t)).src
	case 2:
		src = anyText(t, d)
	case 3:
		src = ""
	}
	if t.P(1, 4) { // long
		src = strings.Repeat(t.Pick(" ", "\n", "\t", "-- a comment\n", "/* a comment */ ", "/*'*/\r\n"), sizes[t.N(len(sizes))]) + src
		if t.P(1, 3) {
			src += strings.Repeat(t.Pick("\n", " ", "\n-- a comment"), sizes[t.N(len(sizes))])
		}
		t.Label("long")
	}
	t.Input(src)
	dir := caseDir(t)
	defer os.RemoveAll(dir)
	var o procResult
	env := os.Environ()
	mode := t.Weighted(3, 3, 1, 1)
	bin := filepath.Join(t.scratch, "astprinter")
	readable := true
	switch mode {
	case 0:
		o = command(dir, bin, env, src)
		t.Label("standard input")
	case 1:
		name := []string{"q.sql", "a b.sql", "stdin.sql", "ü", "-x"}[t.N(5)]
		if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o644); err != nil {
			panic(err)
		}
		if t.Bool() {
			name = filepath.Join(dir, name)
		}
		o = command(dir, bin, env, "SELECT wrong_input", "-f", name)
		t.Label("file")
	case 2:
		o = command(dir, bin, env, src, "-f", "stdin")
		t.Label("standard input by name")
	case 3:
		readable = false
		o = command(dir, bin, env, src, "-f", []string{"missing.sql", ".", "missing/missing.sql", ""}[t.N(4)])
		t.Label("unreadable file")
	}
	if o.killed {
		t.Fatal("hang", "the command does not end")
	}
	if m := crashRE.FindString(o.stderr); m != "" || o.code < 0 {
		t.Fatal("crash", "the command crashes (%d): %.600s", o.code, o.stderr)
	}
	// what the library says about the source
	var stmt sqlast.Stmt
	p, err := newParser(src, d, false)
	if err == nil {
		stmt, err = p.ParseStatement()
	}
	if valid && err != nil {
		t.Fatal("rejected", "a valid statement is rejected: %v", err)
	}
	if err != nil || !readable {
		t.Label("failure")
		if o.code == 0 {
			t.Fatal("silent", "the source cannot be read (%v) and the command exits successfully, printing %q %q", err, clip(o.stdout), clip(o.stderr))
		}
		if strings.TrimSpace(logPrefixRE.ReplaceAllString(o.stderr, "")) == "" {
			t.Fatal("mute", "the command fails without a message")
		}
		if o.stdout != "" {
			t.Fatal("partial", "the command fails after printing %q", clip(o.stdout))
		}
		if !readable || len(src) > 10 {
			t.Nontrivial()
		}
		return
	}
	t.Label("success")
	if o.code != 0 {
		t.Fatal("fails", "the statement is valid, the command exits with %d: %q", o.code, clip(o.stderr))
	}
	t.Nontrivial()
	want := stmt.ToSQLString()
	sql := logPrefixRE.ReplaceAllString(o.stderr, "")
	if sql != want+"\n" && sql != want {
		t.Fatal("sql", "the command prints the SQL %q, the statement's is %q", clip(sql), clip(want))
	}
	if valid {
		again, err := parseOne(sql, d)
		if err != nil {
			t.Fatal("reparse", "the printed SQL is refused: %v", err)
		}
		if a, b := dump(stmt), dump(again); a != b {
			t.Fatal("reparse", "the printed SQL parses to another tree: %s", diffAt(a, b))
		}
	}
	tree := ansiRE.ReplaceAllString(o.stdout, "")
	kinds := map[string]int{}
	for _, n := range nodes(stmt) {
		kinds[typeName(n)]++
		if id, ok := n.(*sqlast.Ident); ok && plainRE.MatchString(id.Value) && !strings.Contains(tree, `"`+id.Value+`"`) {
			t.Fatal("tree", "the printed tree does not show the name %q: %s", id.Value, clip(tree))
		}
	}
	for k, n := range kinds {
		if got := strings.Count(tree, "&sqlast."+k+"{"); got != n {
			t.Fatal("tree", "the printed tree shows %d nodes of kind %s, the statement has %d: %s", got, k, n, clip(tree))
		}
	}
}

var plainRE = regexp.MustCompile(`^[A-Za-z0-9_]+$`)

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// C28

var goKeywords = "break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var"

func isGoKeyword(s string) bool {
	for _, k := range strings.Fields(goKeywords) {
		if k == s {
			return true
		}
	}
	return false
}

// markerName draws an exported type name.
func markerName(t *T) (name string, camel bool) {
	words := []string{"Stmt", "Sql", "Node", "Table", "Foo", "Bar", "Query", "Expr", "Element", "Ab", "Column", "Type", "Action", "Source", "Join", "Gen"}
	switch t.Weighted(5, 3, 2, 2, 1) {
	case 0: // camel case
		for i := t.Range(1, 4); i > 0; i-- {
			name += words[t.N(len(words))]
		}
		camel = true
	case 1: // with SQL
		for i := t.Range(1, 3); i > 0; i-- {
			if t.P(1, 2) {
				name += "SQL"
			} else {
				name += words[t.N(len(words))]
			}
		}
		camel = !strings.Contains(name, "SQLSQL") && !strings.HasSuffix(name, "SQLSQL")
	case 2:
		name = string([]rune("ABXYZ")[t.N(5)])
		for i := t.N(6); i > 0; i-- {
			name += string([]rune("abXY019_zé")[t.N(10)])
		}
	case 3:
		name = []string{"Ünit", "Éa", "Ωmega", "Жук", "DROP", "HTTPServer", "A1", "X_y", "FooB", "ABC"}[t.N(10)]
	case 4: // private forms that are keywords or predeclared
		name = []string{"Type", "Func", "Interface", "Struct", "Package", "Range", "Go", "If"}[t.N(8)]
	}
	return name, camel
}

// snakeOf is the file name of a type name made of capitalised words of at least two letters and the word SQL.
func snakeOf(name string) string {
	var words []string
	for i := 0; i < len(name); {
		j := i + 1
		if strings.HasPrefix(name[i:], "SQL") {
			j = i + 3
		} else {
			for j < len(name) && name[j] >= 'a' && name[j] <= 'z' {
				j++
			}
		}
		words = append(words, strings.ToLower(name[i:j]))
		i = j
	}
	return strings.Join(words, "_")
}

func privateOf(name string) string {
	if strings.HasPrefix(name, "SQL") {
		return "sql" + name[3:]
	}
	r := []rune(name)
	return strings.ToLower(string(r[0])) + string(r[1:])
}

var predeclared = types.Universe

func runC28(t *T) {
	name, camel := markerName(t)
	private := privateOf(name)
	if predeclared.Lookup(private) != nil || private == name {
		return
	}
	// the interfaces to embed, with their methods
	pool := []string{"Node", "Walker", "Printer", "Writer2", "Named", "Typed9", "é", "X", "N"}
	n := t.Weighted(2, 4, 2, 1)
	if t.P(1, 12) {
		n = t.Range(4, 40)
		for i := 0; i < n; i++ {
			pool = append(pool, fmt.Sprintf("Embedded%d", i))
		}
	}
	var embedded []string
	for i := n; i > 0; i-- {
		e := pool[t.N(len(pool))]
		dup := e == name || e == private
		for _, x := range embedded {
			dup = dup || x == e
		}
		if !dup {
			embedded = append(embedded, e)
		}
	}
	pkg := []string{"sqlast", "foo", "main", "p2", "my_pkg"}[t.N(5)]
	out := ""
	if t.P(1, 3) {
		out = []string{"x", "my_out", "Foo", "sub/y", "z.b"}[t.N(5)]
	}
	bad := ""
	if t.P(1, 8) {
		bad = []string{"no type", "lower type", "no package", "bad package", "bad embedded", "no directory", "unknown flag"}[t.N(7)]
	}
	dir := caseDir(t)
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "sub"), 0o755)
	env := append(os.Environ(), "GOPACKAGE=")
	// the output of an earlier run may be there
	stale := ""
	const staleText = "package stale\n\n// an earlier output, longer than what is to come\n"
	if t.P(1, 3) {
		switch {
		case out != "":
			stale = out + "_gen.go"
		case camel:
			stale = snakeOf(name) + "_gen.go"
		}
		if stale != "" {
			t.Label("over an earlier output")
			if err := os.WriteFile(filepath.Join(dir, stale), []byte(strings.Repeat(staleText, t.Range(1, 60))), 0o644); err != nil {
				panic(err)
			}
		}
	}
	typeArg, pkgArg, embArg := name, pkg, strings.Join(embedded, ",")
	viaEnv := t.P(1, 3)
	args := []string{}
	switch bad {
	case "no type":
		typeArg = ""
	case "lower type":
		typeArg = strings.ToLower(name)
	case "no package":
		pkgArg = ""
	case "bad package":
		pkgArg = []string{"1x", "a-b", "func", "a b"}[t.N(4)]
	case "bad embedded":
		embArg = []string{"1x", "a b c", "func", "x..y", "(", "Node,}"}[t.N(6)]
	case "no directory":
		out = "missing/x"
	case "unknown flag":
		args = append(args, "-zzz")
	}
	addFlag := func(f, v string) {
		switch t.N(3) {
		case 0:
			args = append(args, "-"+f, v)
		case 1:
			args = append(args, "-"+f+"="+v)
		case 2:
			args = append(args, "--"+f+"="+v)
		}
	}
	addFlag("t", typeArg)
	if embArg != "" {
		addFlag("e", embArg)
	}
	if out != "" {
		addFlag("o", out)
	}
	if viaEnv {
		env = append(env, "GOPACKAGE="+pkgArg)
	} else {
		if t.P(1, 3) {
			env = append(env, "GOPACKAGE=wrong")
		}
		addFlag("pkg", pkgArg)
	}
	t.Input("genmark " + strings.Join(args, " "))
	o := command(dir, filepath.Join(t.scratch, "genmark"), env, "", args...)
	if o.killed {
		t.Fatal("hang", "the command does not end")
	}
	if crashRE.MatchString(o.stderr) || o.code < 0 {
		t.Fatal("crash", "the command crashes: %.600s", o.stderr)
	}
	var files []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			r, _ := filepath.Rel(dir, p)
			files = append(files, r)
		}
		return nil
	})
	if isGoKeyword(private) && bad == "" {
		bad = "keyword"
	}
	if bad != "" {
		t.Label("bad: " + bad)
		if o.code == 0 {
			t.Fatal("accepted:"+bad, "the command succeeds")
		}
		if o.stderr == "" {
			t.Fatal("mute", "the command fails without a message")
		}
		if stale != "" && bad != "no directory" {
			b, _ := os.ReadFile(filepath.Join(dir, stale))
			if len(files) != 1 || !strings.HasPrefix(string(b), staleText) || len(b)%len(staleText) != 0 {
				t.Fatal("partial", "the command fails and changes the earlier output: %v", files)
			}
		} else if len(files) > 0 && stale == "" {
			t.Fatal("partial", "the command fails and leaves %v", files)
		}
		return
	}
	if o.code != 0 {
		t.Fatal("fails", "the command fails: %s", o.stderr)
	}
	t.Nontrivial()
	t.Label(fmt.Sprintf("%d embedded", len(embedded)))
	if len(files) != 1 {
		t.Fatal("files", "the command writes the files %v", files)
	}
	if out != "" && files[0] != out+"_gen.go" {
		t.Fatal("files", "the output is %s, wanted %s_gen.go", files[0], out)
	}
	if !strings.HasSuffix(files[0], "_gen.go") {
		t.Fatal("files", "the output is %s", files[0])
	}
	if out == "" && camel {
		t.Label("snake")
		if want := snakeOf(name) + "_gen.go"; files[0] != want {
			t.Fatal("files", "the output of %s is %s, wanted %s", name, files[0], want)
		}
	}
	b, err := os.ReadFile(filepath.Join(dir, files[0]))
	if err != nil {
		panic(err)
	}
	src := string(b)
	clean, err := format.Source(b)
	if err != nil {
		t.Fatal("syntax", "the output is not Go: %v\n%s", err, src)
	}
	if !bytes.Equal(clean, b) {
		t.Fatal("gofmt", "the output is not formatted:\n%s", src)
	}
	if !strings.Contains(src, "Code generated") || !strings.Contains(src, "DO NOT EDIT.") {
		t.Fatal("header", "the output does not say that it is generated:\n%s", src)
	}
	checkMarker(t, src, pkg, name, embedded)
}

// checkMarker type-checks the generated file together with a file that uses it.
func checkMarker(t *T, src, pkg, name string, embedded []string) {
	fset := token.NewFileSet()
	gen, err := parser.ParseFile(fset, "gen.go", src, 0)
	if err != nil {
		t.Fatal("syntax", "the output is not Go: %v\n%s", err, src)
	}
	if gen.Name.Name != pkg {
		t.Fatal("package", "the output is in package %s, wanted %s", gen.Name.Name, pkg)
	}
	// the marker struct is the one type of the file that is not the interface
	marker := ""
	for _, d := range gen.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.TYPE {
			continue
		}
		for _, s := range gd.Specs {
			if n := s.(*ast.TypeSpec).Name.Name; n != name {
				if marker != "" {
					t.Fatal("marker", "the output declares several types beside %s:\n%s", name, src)
				}
				marker = n
			}
		}
	}
	if marker == "" {
		t.Fatal("marker", "the output declares no marker struct:\n%s", src)
	}
	if marker != privateOf(name) {
		t.Fatal("marker", "the marker struct of %s is called %s, wanted %s", name, marker, privateOf(name))
	}
	var use strings.Builder
	fmt.Fprintf(&use, "package %s\n", pkg)
	methods := ""
	for i, e := range embedded {
		fmt.Fprintf(&use, "type %s interface { Method%d(int) string; method%dx() }\n", e, i, i)
		methods += fmt.Sprintf("func (RECV) Method%d(int) string { panic(0) }\nfunc (RECV) method%dx() {}\n", i, i)
	}
	decl := func(tn, body, ms string) {
		fmt.Fprintf(&use, "type %s struct {%s}\n%s", tn, body, strings.Replace(ms, "RECV", tn, -1))
	}
	decl("Zz_full", marker, methods)
	decl("Zz_pointer", "", "")
	fmt.Fprintf(&use, "type Zz_ptr struct { %s }\n%s", marker, strings.Replace(methods, "RECV", "*Zz_ptr", -1))
	decl("Zz_nomarker", "", methods)
	decl("Zz_field", "m "+marker, methods)
	decl("Zz_onlymarker", marker, "")
	useFile, err := parser.ParseFile(fset, "use.go", use.String(), 0)
	if err != nil {
		panic(fmt.Sprint(err, use.String()))
	}
	conf := types.Config{}
	p, err := conf.Check("example/"+pkg, fset, []*ast.File{gen, useFile}, nil)
	if err != nil {
		t.Fatal("compile", "the output does not compile in its package: %v\n%s", err, src)
	}
	obj, ok := p.Scope().Lookup(name).(*types.TypeName)
	if !ok || obj.IsAlias() {
		t.Fatal("interface", "the output declares no type %s:\n%s", name, src)
	}
	iface, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		t.Fatal("interface", "%s is not an interface:\n%s", name, src)
	}
	var got []string
	private := 0
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		got = append(got, m.Name())
	}
	var want []string
	for i := range embedded {
		want = append(want, fmt.Sprintf("Method%d", i), fmt.Sprintf("method%dx", i))
	}
	var rest []string
	for _, g := range got {
		found := false
		for _, w := range want {
			found = found || g == w
		}
		if !found {
			rest = append(rest, g)
			if !token.IsExported(g) {
				private++
			}
		}
	}
	if len(got) != len(want)+1 || len(rest) != 1 || private != 1 {
		sort.Strings(got)
		t.Fatal("interface", "%s has the methods %v, wanted %v and one unexported marker method:\n%s", name, got, want, src)
	}
	for tn, expect := range map[string]bool{"Zz_full": true, "Zz_nomarker": false, "Zz_field": false, "Zz_onlymarker": len(embedded) == 0} {
		if got := types.Implements(p.Scope().Lookup(tn).Type(), iface); got != expect {
			t.Fatal("implements", "a type (%s) implements %s: %v, wanted %v\n%s", tn[3:], name, got, expect, src)
		}
	}
	if !types.Implements(types.NewPointer(p.Scope().Lookup("Zz_ptr").Type()), iface) {
		t.Fatal("implements", "a pointer to a struct embedding the marker does not implement %s", name)
	}
	// in another package, neither its own method of that name nor a marker of that name helps
	other := fmt.Sprintf("package other\ntype %s struct{}\nfunc (%s) %s() {}\ntype Full struct { %s }\n%s", marker, marker, rest[0], marker, strings.Replace(methods, "RECV", "Full", -1))
	of, err := parser.ParseFile(fset, "other.go", other, 0)
	if err != nil {
		panic(err)
	}
	op, err := conf.Check("example/other", fset, []*ast.File{of}, nil)
	if err != nil {
		panic(err)
	}
	if types.Implements(op.Scope().Lookup("Full").Type(), iface) {
		t.Fatal("implements", "a type of another package implements %s without the marker", name)
	}
	if s, ok := p.Scope().Lookup(marker).Type().Underlying().(*types.Struct); !ok || s.NumFields() != 0 {
		t.Fatal("marker", "the marker %s is not an empty struct:\n%s", marker, src)
	}
}

func init() {
	register(&Prop{
		ID:       "C26",
		Rule:     "processes of the freshly built command: valid statements (also followed by others), damaged ones, arbitrary texts and the empty text, on standard input, in a named file (odd names included) or with an unreadable file; on success the SQL on standard error must be the statement's and parse to the same tree, and the tree on standard output must show every name and as many nodes of each kind as the statement has; else a failure status and a message, nothing on standard output, never a panic; non-trivial: success, or a failure on more than 10 bytes",
		Quick:    6000,
		Thorough: 200000,
		MaxFuel:  24,
		Setup: func(scratch string) error {
			return buildCommand("./cmd/astprinter", filepath.Join(scratch, "astprinter"))
		},
		Run: runC26,
	})
	register(&Prop{
		ID:       "C28",
		Rule:     "processes of the freshly built generator in a directory of their own with drawn type names (camel case, SQL, unusual letters, Go keywords), embedded interfaces, package names (by flag or by GOPACKAGE), output names (one in three over an earlier output), flag spellings, and sometimes one bad argument; the output must be the only file, formatted, and type-check with a companion file in which exactly the types embedding the marker (and with the embedded methods) implement an interface of exactly those methods; non-trivial: code was generated",
		Quick:    8000,
		Thorough: 200000,
		Setup: func(scratch string) error {
			return buildCommand("./tools/genmark", filepath.Join(scratch, "genmark"))
		},
		Run: runC28,
	})
}
