package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// T is one generated case: every random decision of a case is one entry of its choice list, so a case can be
// replayed and shrunk from the list alone. The value 0 is always the simplest choice.
type T struct {
	rng     uint64
	replay  bool
	choices []uint64 // replayed choices
	rec     []uint64 // choices made
	again   []uint64 // choices to make before new ones
	spans   []span   // choice ranges that belong together, for the shrinker
	open    []int
	fuel    int
	size    int
	small   bool   // no very long lists and no very deep nesting
	input   string // what the case looks like, for samples and replay files
	note    string
	nontriv bool
	labels  []string
	fails   []Violation
	known   map[string]bool
	scratch string
	faults  int
}

type span struct {
	label      string
	start, end int
}

type Violation struct {
	Key, Msg string
}

type stopCase struct{}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (t *T) next() uint64 {
	t.rng += 0x9e3779b97f4a7c15
	x := t.rng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (t *T) fresh() uint64 {
	if len(t.again) > 0 {
		v := t.again[0]
		t.again = t.again[1:]
		return v
	}
	return t.next()
}

// repeats makes the choices of a series of things, some of which come out like one before: the same choices are made
// again.
type repeats struct {
	t      *T
	starts []int
	ends   []int
	fuels  []int
	mine   bool
}

// next comes before every thing, done behind the last.
func (r *repeats) next() {
	t := r.t
	r.done()
	if n := len(r.ends); n > 0 && len(t.again) == 0 && t.P(1, 12) {
		j := n - 1 - t.N(n)
		if part := t.rec[r.starts[j]:r.ends[j]]; len(part) < 1000 {
			t.again, r.mine = append([]uint64(nil), part...), !t.replay
			t.fuel = r.fuels[j]
			t.Label("like one before")
		}
	}
	r.starts, r.fuels = append(r.starts, len(t.rec)), append(r.fuels, t.fuel)
}

func (r *repeats) done() {
	if len(r.starts) > len(r.ends) {
		r.ends = append(r.ends, len(r.t.rec))
	}
	if r.mine {
		r.t.again, r.mine = nil, false
	}
}

// N draws a number in [0,n).
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.replay {
		if len(t.rec) < len(t.choices) {
			v = t.choices[len(t.rec)] % uint64(n)
		}
	} else {
		v = t.fresh() % uint64(n)
	}
	t.rec = append(t.rec, v)
	return int(v)
}

// U64 draws any 64 bit number.
func (t *T) U64() uint64 {
	var v uint64
	if t.replay {
		if len(t.rec) < len(t.choices) {
			v = t.choices[len(t.rec)]
		}
	} else {
		v = t.fresh()
	}
	t.rec = append(t.rec, v)
	return v
}

// P is true with probability num/den; false is the simple choice.
func (t *T) P(num, den int) bool { return t.N(den) >= den-num }

func (t *T) Bool() bool { return t.N(2) == 1 }

// Range draws a number in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

func (t *T) Pick(xs ...string) string { return xs[t.N(len(xs))] }

func (t *T) Begin(label string) {
	t.open = append(t.open, len(t.spans))
	t.spans = append(t.spans, span{label: label, start: len(t.rec), end: -1})
}

func (t *T) End() {
	i := t.open[len(t.open)-1]
	t.open = t.open[:len(t.open)-1]
	t.spans[i].end = len(t.rec)
}

// Weighted draws an index with the given weights; index 0 is the simple choice.
func (t *T) Weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	v := t.N(sum)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func (t *T) Label(format string, a ...interface{}) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	t.labels = append(t.labels, format)
}

func (t *T) Nontrivial() { t.nontriv = true }

func (t *T) Input(s string) { t.input = s }

// Fail records a violation. The key names the kind of defect and is what known findings are listed by.
func (t *T) Fail(key, format string, a ...interface{}) {
	t.fails = append(t.fails, Violation{Key: key, Msg: fmt.Sprintf(format, a...)})
}

// Fatal records a violation and ends the case.
func (t *T) Fatal(key, format string, a ...interface{}) {
	t.Fail(key, format, a...)
	panic(stopCase{})
}

// Prop is one property's check.
type Prop struct {
	ID        string
	Rule      string // how cases are made and what makes one non-trivial
	Level     string
	Quick     int // cases
	Thorough  int
	Workers   int  // 0: all
	SlowCases bool // a case may take long, for instance start processes
	MaxFuel   int
	Run       func(t *T)
	// Extra runs once after the cases (fixed enumerations, processes); it reports through t and counts its evaluations.
	Extra       func(t *T, tier string) (evaluations int, nontrivial int, samples []string)
	Setup       func(scratch string) error
	Assumptions []string
	StdSilent   bool // the case must write nothing to stdout/stderr
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func caseRNG(seed int64, id string, shard, idx int) uint64 {
	x := splitmix(uint64(seed)*0x9e3779b97f4a7c15 + hash64(id))
	x = splitmix(x ^ uint64(shard)*0xd1342543de82ef95)
	return splitmix(x ^ uint64(idx)*0xaf251af3b0f025b5)
}

func sizeFor(idx, total int) int {
	// sizes cycle from small to large, so every part of a run sees all sizes
	return 1 + (idx*7)%40
}

// runCase runs one case and returns it with its violations (known findings removed unless all is set).
func runCase(p *Prop, t *T) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			st := string(debug.Stack())
			t.fails = append(t.fails, Violation{Key: "panic", Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(st))})
		}
	}()
	p.Run(t)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "runtime/") || strings.HasPrefix(l, "goroutine") || strings.HasPrefix(l, "panic(") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func newCase(p *Prop, seed int64, shard, idx, total int, scratch string) *T {
	t := &T{rng: caseRNG(seed, p.ID, shard, idx), scratch: scratch, small: p.MaxFuel > 0}
	t.size = sizeFor(idx, total)
	t.fuel = t.size
	if p.MaxFuel > 0 && t.fuel > p.MaxFuel {
		t.fuel = p.MaxFuel
	}
	return t
}

func replayCase(p *Prop, choices []uint64, size int, scratch string) *T {
	t := &T{replay: true, choices: choices, scratch: scratch, size: size, fuel: size, small: p.MaxFuel > 0}
	if p.MaxFuel > 0 && t.fuel > p.MaxFuel {
		t.fuel = p.MaxFuel
	}
	runCase(p, t)
	return t
}

// unknown returns the violations that are not listed as open findings.
func unknown(vs []Violation, open map[string]string) []Violation {
	var out []Violation
	for _, v := range vs {
		if _, ok := open[v.Key]; !ok {
			out = append(out, v)
		}
	}
	return out
}

type failure struct {
	shard, idx, size int
	t                *T
	vs               []Violation
}

type shardStat struct {
	evals     int
	faults    int
	nontriv   map[uint64]struct{}
	running   atomic.Pointer[T]
	labels    map[string]int
	samples   []string
	knownHits map[string]string // key -> example
	fail      *failure
	cur       uint64 // atomic: 1+index of the running case
	start     int64  // atomic: process CPU nanoseconds at its start
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const maxDistinct = 1000000 // hashes kept per shard

type runResult struct {
	evals, distinct int
	faults          int
	labels          map[string]int
	samples         []string
	knownHits       map[string]string
	fail            *failure
	hang            *failure
}

// runAll runs all cases of a property over the worker goroutines. cur is the shared memory that tells the parent which
// cases are running, should the process die.
func runAll(p *Prop, seed int64, total, workers int, open map[string]string, scratch string, cur []uint64) *runResult {
	shards := 8
	stats := make([]*shardStat, shards)
	var stop int32
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	per := (total + shards - 1) / shards
	for s := 0; s < shards; s++ {
		st := &shardStat{nontriv: map[uint64]struct{}{}, labels: map[string]int{}, knownHits: map[string]string{}}
		stats[s] = st
		wg.Add(1)
		go func(s int, st *shardStat) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			for i := 0; i < per; i++ {
				if atomic.LoadInt32(&stop) != 0 {
					return
				}
				t := newCase(p, seed, s, i, per, scratch)
				if cur != nil {
					atomic.StoreUint64(&cur[s], uint64(i)+1)
				}
				if i%16 == 0 || per < 20000 || p.StdSilent {
					atomic.StoreInt64(&st.start, cpuNanos())
				}
				st.running.Store(t)
				atomic.StoreUint64(&st.cur, uint64(i)+1)
				runCase(p, t)
				atomic.StoreUint64(&st.cur, 0)
				st.evals++
				st.faults += t.faults
				if t.nontriv {
					if len(st.nontriv) < maxDistinct {
						st.nontriv[hash64(t.input)] = struct{}{}
					}
					if len(st.samples) < 2 && i > per/4 && len(t.input) > 0 && len(t.input) < 600 {
						st.samples = append(st.samples, t.input)
					}
				}
				for _, l := range t.labels {
					st.labels[l]++
				}
				for _, v := range t.fails {
					if _, ok := open[v.Key]; ok {
						if _, seen := st.knownHits[v.Key]; !seen {
							st.knownHits[v.Key] = t.input
						}
					}
				}
				if vs := unknown(t.fails, open); len(vs) > 0 {
					st.fail = &failure{shard: s, idx: i, size: t.size, t: t, vs: vs}
					atomic.StoreInt32(&stop, 1)
					return
				}
			}
		}(s, st)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	res := &runResult{labels: map[string]int{}, knownHits: map[string]string{}}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var ms runtime.MemStats
	ticks := 0
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			ticks++
			now := cpuNanos()
			for s, st := range stats {
				c := atomic.LoadUint64(&st.cur)
				// a case takes well under a millisecond of CPU time; the whole process using minutes of it while one
				// case runs means that case does not end
				if c != 0 && now-atomic.LoadInt64(&st.start) > int64(hangCPU(p)) {
					t := st.running.Load()
					res.hang = &failure{shard: s, idx: int(c - 1), size: t.size, t: t, vs: []Violation{{"hang", "the case does not end: " + time.Duration(now-atomic.LoadInt64(&st.start)).String() + " of CPU time were used while it ran"}}}
					atomic.StoreInt32(&stop, 1)
					break loop
				}
			}
			if ticks%2 == 0 {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 8<<30 {
					// the case that has been running longest is the one that grows
					var worst *failure
					var oldest int64
					for s, st := range stats {
						if c := atomic.LoadUint64(&st.cur); c != 0 {
							if a := now - atomic.LoadInt64(&st.start); worst == nil || a > oldest {
								oldest = a
								t := st.running.Load()
								worst = &failure{shard: s, idx: int(c - 1), size: t.size, t: t, vs: []Violation{{"memory", fmt.Sprintf("the case uses memory without bound: %d MB of heap", ms.HeapAlloc>>20)}}}
							}
						}
					}
					if worst != nil {
						res.hang = worst
						atomic.StoreInt32(&stop, 1)
						break loop
					}
				}
			}
		}
	}
	if res.hang != nil {
		return res
	}
	union := map[uint64]struct{}{}
	for _, st := range stats {
		res.evals += st.evals
		res.faults += st.faults
		for h := range st.nontriv {
			union[h] = struct{}{}
		}
		for l, n := range st.labels {
			res.labels[l] += n
		}
		if len(res.samples) < 6 && len(st.samples) > 0 {
			res.samples = append(res.samples, st.samples[0])
		}
		for k, v := range st.knownHits {
			if old, ok := res.knownHits[k]; !ok || len(v) < len(old) {
				res.knownHits[k] = v
			}
		}
		if st.fail != nil && (res.fail == nil || st.fail.idx < res.fail.idx) {
			res.fail = st.fail
		}
	}
	res.distinct = len(union)
	return res
}

func hangCPU(p *Prop) time.Duration {
	if p.SlowCases {
		return 200 * time.Second
	}
	if p.ID == "C30" {
		return 400 * time.Second // one case works for many seconds of its own, eight of them at once
	}
	return 80 * time.Second
}

// shrink looks for a smaller choice list that still violates the property.
func shrink(p *Prop, f *failure, open map[string]string, scratch string, budget time.Duration) *T {
	best := f.t
	deadline := time.Now().Add(budget)
	tries := 0
	try := func(c []uint64) bool {
		if time.Now().After(deadline) || tries > 60000 {
			return false
		}
		tries++
		t := replayCase(p, c, f.size, scratch)
		if len(unknown(t.fails, open)) == 0 {
			return false
		}
		if len(t.rec) > len(best.rec) || (len(t.rec) == len(best.rec) && !lessU64(t.rec, best.rec)) {
			return false
		}
		best = t
		return true
	}
	// make sure the recorded list reproduces
	t0 := replayCase(p, best.rec, f.size, scratch)
	if len(unknown(t0.fails, open)) == 0 {
		return best
	}
	best = t0
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		// drop whole spans, or replace them by an inner span of the same kind
		for i := 0; i < len(best.spans); i++ {
			sp := best.spans[i]
			if sp.end <= sp.start {
				continue
			}
			if try(cut(best.rec, sp.start, sp.end, nil)) || try(cut(best.rec, sp.start, sp.end, []uint64{0})) {
				improved = true
				i--
				continue
			}
			for j := i + 1; j < len(best.spans) && best.spans[j].start < sp.end; j++ {
				in := best.spans[j]
				if in.label == sp.label && in.end > in.start && in.end-in.start < sp.end-sp.start {
					if try(cut(best.rec, sp.start, sp.end, append([]uint64(nil), best.rec[in.start:in.end]...))) {
						improved = true
						i--
						break
					}
				}
			}
		}
		for _, n := range []int{16, 8, 4, 2, 1} {
			for i := len(best.rec) - n; i >= 0; i-- {
				if i+n <= len(best.rec) && try(cut(best.rec, i, i+n, nil)) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best.rec); i++ {
			if best.rec[i] == 0 {
				continue
			}
			for _, v := range []uint64{0, best.rec[i] / 2, best.rec[i] - 1} {
				if i < len(best.rec) && v < best.rec[i] {
					c := append([]uint64(nil), best.rec...)
					c[i] = v
					if try(c) {
						improved = true
						break
					}
				}
			}
		}
	}
	return best
}

func cut(c []uint64, i, j int, mid []uint64) []uint64 {
	out := make([]uint64, 0, len(c)-(j-i)+len(mid))
	out = append(out, c[:i]...)
	out = append(out, mid...)
	return append(out, c[j:]...)
}

func lessU64(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func mustMkdirTemp(pattern string) string {
	d, err := os.MkdirTemp("", pattern)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	d, _ = filepath.EvalSymlinks(d)
	return d
}
