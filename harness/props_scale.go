package main

import (
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// cpuTime is the processor time of the calling thread, which the load of the machine changes little.
func cpuTime() time.Duration {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3 /* CLOCK_THREAD_CPUTIME_ID */, uintptr(unsafe.Pointer(&ts)), 0)
	return time.Duration(ts.Nano())
}

var phaseNames = []string{"tokenizing", "parsing", "printing", "inspecting", "applying"}

type phases [5]time.Duration

// work does everything to a source once and tells how long each phase took.
func (ph *phases) work(src string, d *dspec, comments bool) error {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	at := cpuTime()
	lap := func(i int) {
		now := cpuTime()
		ph[i] = now - at
		at = cpuTime()
	}
	_, err := sqltoken.NewTokenizer(strings.NewReader(src), d.d).Tokenize()
	lap(0)
	if err != nil {
		return err
	}
	var opts []xsqlparser.ParserOption
	if comments {
		opts = append(opts, xsqlparser.ParseComment())
	}
	p, err := xsqlparser.NewParser(strings.NewReader(src), d.d, opts...)
	if err != nil {
		return err
	}
	f, err := p.ParseFile()
	lap(1)
	if err != nil {
		return err
	}
	f.ToSQLString()
	lap(2)
	sqlast.Inspect(f, func(sqlast.Node) bool { return true })
	lap(3)
	sqlastutil.Apply(f, func(*sqlastutil.Cursor) bool { return true }, func(*sqlastutil.Cursor) bool { return true })
	lap(4)
	return nil
}

// otherLists are beginnings, what is repeated, and ends; the last string tells that the repetition nests.
var otherLists = [][4]string{
	{"select 1 from t join u using (a", ", a", ")"},
	{"select 1 from t left join u using (a", ", a", ") where 1"},
	{"select f(1) over (partition by a", ", a", ")"},
	{"select f(1) over (order by a", ", a desc", ")"},
	{"select 1", ", f(1) over (order by a rows 1 preceding)", ""},
	{"select 1", ", a as b", ""},
	{"select *", ", t.*", "from t"},
	{"select t.*", ", cast(a as numeric(3, 1))", ""},
	{"select a", ".a", ""},
	{"select 1", ", a.b.c", ""},
	{"select 1 from a", ".a", ""},
	{"select 1 from t", ", u as x", ""},
	{"select 1 from t", ", (select 2) as x", ""},
	{"select 1 from t", ", lateral (select 2) as x", ""},
	{"select 1 from t with (a", ", a", ")"},
	{"select 1 from f(1", ", 1", ") as x"},
	{"select distinct a", ", a", ""},
	{"insert into t (a) values (1) on duplicate key update a = 1", ", a = 1", ""},
	{"insert into t values (1", ", 'x'", ")"},
	{"insert into t values (1)", ", (null)", ""},
	{"insert into t (a) select 1", "union all select 1", ""},
	{"drop index a", ", a", ""},
	{"create index i on t (a", ", a", ")"},
	{"create unique index on t using btree (a", ", a", ") where a = 1"},
	{"create table t (a int", "not null", ")"},
	{"create table t (a int", "constraint c unique", ")"},
	{"create table t (a int", "references u (b)", ")"},
	{"create table t (a int", "check (a > 1)", ")"},
	{"create table t (a int", "auto_increment", ")"},
	{"create table t (a int, primary key (a", ", a", "))"},
	{"create table t (a int, unique (a", ", a", "))"},
	{"create table t (a int, foreign key (a", ", a", ") references u (b))"},
	{"create table t (a int, foreign key (a) references u (b", ", b", "))"},
	{"create table t (a int", ", constraint c check (a > 1)", ")"},
	{"create table t (a int)", "engine = innodb", ""},
	{"create table t (a int)", "default charset = utf8", ""},
	{"create view v as select 1", ", 1", ""},
	{"create view v as select 1 from t", "cross join t", ""},
	{"update t set a = 1 where a", "or a", ""},
	{"delete from t where a", "and not b", ""},
	{"delete from t where a in (1", ", 1", ")"},
	{"alter table t add constraint c unique (a", ", a", ")"},
	{"explain select 1", ", 1", ""},
	{"select 1;", "explain select 1;", ""},
	{"select 1;", "drop table a;", ""},
	{"select 1;", "select 1 -- c\n;", ""},
	{"select 1;", "/* a */ select 1; /* b */", ""},
	{"create table t (", "a int, -- c\n", "b int)"},
	{"select \"", "ab", "\""},
	{"select 1 as \"", "\n", "\""},
	{"select '", "''", "'"},
	{"select 1", "limit 1;select 1", "limit 1"},
	{"select", "-", "1", "deep"},
	{"select", "not", "1", "deep"},
	{"select", "+", "1", "deep"},
	{"", "explain", "select 1", "deep"},
	{"select 1 where a", "like b or a", ""},
	{"select 1 where 1", "= 1 and a", ""},
	{"select 1 where 1", "* 1 + a", ""},
	{"select 1 where 1", "+ 1 * a", ""},
	{"select 1 where 1", "> 1 = a", ""},
	{"select 1 where a between 1 and 2", "and a between 1 and 2", ""},
	{"select case a when 1 then 2", "when (1) then null", "else true end"},
	{"select 1 group by a", ", (a)", "having 1 order by a"},
	{"select 1 from t join u on a = b", "and a = b", "join u on a"},
}

// growing is a family of sources, of n repetitions each.
func growing(t *T, d *dspec) (src func(n int) string, deep bool) {
	g := newG(t, d)
	g.longN, g.deep, g.parts = 0, 0, 0 // the repetitions make it long
	piece := func(gen func()) string {
		m := len(g.src)
		t.fuel = t.N(4)
		gen()
		s := render(g.src[m:])
		g.src = g.src[:m]
		return s
	}
	gap := t.Pick(" ", " ", "\n", "\r\n", "\t", " /* c */ ", " -- c\n", "   ")
	join := func(ws ...string) string { return gap + strings.Join(ws, gap) + gap }
	rep := strings.Repeat
	e := func() string { return "(" + piece(func() { g.expr() }) + ")" }
	name := func() string { return piece(func() { g.ident() }) }
	query := "select " + e()
	kind := t.N(32)
	if kind >= 22 {
		deep = true
	}
	switch kind {
	case 0:
		a, b := e(), e()
		return func(n int) string { return "select " + a + rep(join(",", b), n) }, deep
	case 1:
		a, b, op := e(), e(), t.Pick("and", "or", "+", "*", "=", "-", "<", "and", "like", "not like", "%")
		return func(n int) string { return "select " + a + rep(join(op, b), n) }, deep
	case 2:
		a, u, c := name(), name(), e()
		j := t.Pick("join", "left join", "inner join", "full outer join", "right join")
		return func(n int) string { return "select 1 from " + a + rep(join(j, u, "on", c), n) }, deep
	case 3:
		a, u, j := name(), name(), t.Pick(",", "cross join", "natural join")
		return func(n int) string { return "select 1 from " + a + rep(join(j, u), n) }, deep
	case 4:
		s := piece(func() { g.stmt() })
		return func(n int) string { return rep(s+gap+";"+gap, n) }, deep
	case 5:
		op := t.Pick("union", "union all", "except", "intersect")
		return func(n int) string { return query + rep(join(op, query), n) }, deep
	case 6:
		a, b := name(), name()
		return func(n int) string {
			return "with " + a + " as (" + query + ")" + rep(join(",", b, "as (", query, ")"), n) + query
		}, deep
	case 7:
		a, b := name(), e()
		return func(n int) string {
			return "insert into " + a + " (" + a + rep(join(",", a), n) + ") values (" + b + rep(join(",", b), n) + ")"
		}, deep
	case 8:
		a, b := name(), e()
		return func(n int) string {
			return "insert into " + a + " (" + a + ") values (" + b + ")" + rep(join(", (", b, ")"), n)
		}, deep
	case 9:
		a, b := name(), e()
		return func(n int) string {
			return "update " + a + " set " + a + " = " + b + rep(join(",", a, "=", b), n) + " where " + b
		}, deep
	case 10:
		a := name()
		col := piece(func() { g.columnDef() })
		return func(n int) string { return "create table " + a + " (" + col + rep(join(",", col), n) + ")" }, deep
	case 11:
		a := name()
		c := piece(func() { g.tableConstraint() })
		return func(n int) string { return "create table " + a + " (" + a + " int" + rep(join(",", c), n) + ")" }, deep
	case 12:
		a, b, k := e(), e(), t.Pick("order by", "group by")
		return func(n int) string { return "select 1 from t " + k + " " + a + rep(join(",", b), n) }, deep
	case 13:
		a, b := e(), e()
		return func(n int) string { return "select case" + rep(join("when", a, "then", b), n) + "end" }, deep
	case 14:
		a, b := e(), e()
		f := t.Pick("f (", "1 in (", "exists (select ")
		return func(n int) string { return "select " + f + a + rep(join(",", b), n) + ")" }, deep
	case 15:
		a, what := e(), t.Pick("between 1 and 2", "::int", "is null", "is not null", "in (1)", "not in (1, 2)")
		return func(n int) string { return "select " + a + rep(join(what), n) }, deep
	case 16:
		// one long token
		open, unit, end := "'", t.Pick("a", "''", "\n", "é", "ab''"), "'"
		switch t.N(6) {
		case 1:
			open, unit, end = "a", t.Pick("a", "_1", "Z9"), ""
		case 2:
			open, unit, end = "1.", t.Pick("3", "0", "12"), ""
		case 3:
			open, unit, end = "1/*", t.Pick("*", "/", "a", "\n", " *"), "*/"
		case 4:
			open, unit, end = "1--", t.Pick("-", "a", "/*"), "\n"
		case 5:
			open, unit, end = "N'", t.Pick("a", "''", "\r\n"), "'"
		}
		return func(n int) string { return "select " + open + rep(unit, 4*n) + end }, deep
	case 17:
		// blank space and comments
		unit := t.Pick(" ", "\n", "\t", "\r\n", "/**/", "--\n", "/* a */ \n", "\n\n--x\n")
		return func(n int) string { return "select" + gap + rep(unit, 2*n) + "1" + rep(unit, 2*n) }, deep
	}
	if kind < 22 {
		// other lists and chains
		l := otherLists[t.N(len(otherLists))]
		return func(n int) string { return l[0] + gap + rep(gap+l[1], n) + gap + l[2] }, l[3] != ""
	}
	// nesting: a cycle of up to three wrappers
	wrap := [][2]string{{"(", ")"}, {"f(", ")"}, {"f(1, ", ", 2)"}, {"case when ", " then 1 end"}, {"case when 1 then ", " else 2 end"}, {"case 1 when 2 then 3 else ", " end"},
		{"(select ", ")"}, {"(select * from (select ", ") as x)"}, {"exists (select 1 from t where ", ")"}, {"1 in (select ", ")"}, {"1 in (2, ", ")"}, {"cast(", " as int)"}, {"not ", ""}, {"1 + (", ")"},
		{"- ", ""}, {"1 between 2 and ", ""}, {"(select 1 from t join u on ", ")"}, {"(with c as (select ", ") select 2)"}, {"(select 1 union select ", ")"}, {"f(1) over (partition by ", ")"}, {"(select 1 from t order by ", ")"}, {"(", ") = 1"}, {"(select 1 where 1 = ", " group by 1)"}}
	var cycle [][2]string
	for i := 1 + t.N(3); i > 0; i-- {
		cycle = append(cycle, wrap[t.N(len(wrap))])
	}
	inner := e()
	return func(n int) string {
		var sb strings.Builder
		sb.WriteString("select ")
		for i := 0; i < n; i++ {
			sb.WriteString(cycle[i%len(cycle)][0] + gap)
		}
		sb.WriteString(inner)
		for i := n - 1; i >= 0; i-- {
			sb.WriteString(gap + cycle[i%len(cycle)][1])
		}
		return sb.String()
	}, deep
}

func runC30(t *T) {
	d := pickDialect(t)
	src, deep := growing(t, d)
	comments := t.Bool()
	if len(src(2)) > 4000 {
		t.Label("pieces too large to repeat")
		return
	}
	small, times, most := 256, 16, 90
	switch {
	case deep:
		small = 24
	case t.P(1, 10) && len(src(3))-len(src(2)) < 100:
		small, times, most = 1024, 64, 384
	}
	t.Input(src(3))
	// measure updates the least time seen, or the greatest for the small source: both speak for the code
	measure := func(best *phases, n int, first, greatest bool) bool {
		var ph phases
		if ph.work(src(n), d, comments) != nil {
			return false
		}
		for i := range ph {
			if first || greatest == (ph[i] > best[i]) {
				best[i] = ph[i]
			}
		}
		return true
	}
	over := func(n int, ph phases) {
		limit := 3 * time.Second
		if n > 4096 {
			limit = 10 * time.Second
		}
		for i, x := range ph {
			if x > limit {
				t.Fatal("explodes:"+phaseNames[i], "%s %d repetitions (%d bytes) takes %v", phaseNames[i], n, len(src(n)), x)
			}
		}
	}
	for n := 4; n <= small*times; n *= 2 {
		var ph phases
		if !measure(&ph, n, true, false) {
			t.Label("rejected")
			return
		}
		over(n, ph)
		if total := ph[0] + ph[1] + ph[2] + ph[3] + ph[4]; n == 4096 && total > 100*time.Millisecond {
			small, times, most = 256, 16, 90 // more would take too long
		}
	}
	if times > 16 {
		t.Label("many repetitions")
	}
	t.Nontrivial()
	if deep {
		t.Label("nesting")
	} else {
		t.Label("repetition")
	}
	suspect := func(a, b phases) int {
		for i := range a {
			// 16 times the source may take 16 times as long, not 256 times, and 64 times the source 64, not 4096; below
			// 2 ms nothing is said
			if b[i] > 2*time.Millisecond && b[i] > time.Duration(most)*a[i] {
				return i
			}
		}
		return -1
	}
	var a, b phases
	for r := 0; r < 3; r++ {
		measure(&a, small, r == 0, false)
	}
	measure(&b, small*times, true, false)
	// every round makes the suspicion weaker; what is left of it after all of them counts
	for r := 0; r < 9; r++ {
		if suspect(a, b) < 0 {
			return
		}
		measure(&a, small, false, true)
		measure(&b, small*times, false, false)
	}
	if i := suspect(a, b); i >= 0 {
		t.Fatal("grows:"+phaseNames[i], "%s %d repetitions takes %v, %s %d takes %v", phaseNames[i], small, a[i], phaseNames[i], small*times, b[i])
	}
}

func init() {
	register(&Prop{
		ID:       "C30",
		Rule:     "families of sources that repeat a generated part (18 kinds of list, chain, long token and blank space) or a fixed one (some 65 other lists and chains) or nest wrappers in a drawn cycle; the processor time of tokenizing, parsing, printing, inspecting and applying is taken at growing sizes: no phase may take 3 s, nor may 16 times the source (4096 repetitions, 384 levels) take more than 90 times as long, nor, in one case of ten, 64 times the source (65536 repetitions) more than 384 times; non-trivial: the family is accepted and measured",
		Quick:    800,
		Thorough: 12000,
		Run:      runC30,
	})
}
