package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

type replayFile struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Input    string   `json:"input"`
	Note     string   `json:"note,omitempty"`
	Size     int      `json:"size"`
	Choices  []uint64 `json:"choices"`
	Extra    bool     `json:"extra,omitempty"`
	How      string   `json:"how_to_replay"`
}

var verifDir = "/verif"

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "check":
		os.Exit(check(prop(2)))
	case "work":
		os.Exit(work(prop(2), os.Args[3], os.Args[4]))
	case "one":
		shard, _ := strconv.Atoi(os.Args[3])
		idx, _ := strconv.Atoi(os.Args[4])
		p := prop(2)
		setup(p, os.Args[5])
		t := newCase(p, envInt("VERIF_SEED", 1), shard, idx, 0, os.Args[5])
		runCase(p, t)
	case "batch":
		os.Exit(batchMain())
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "show": // show ID n: print some generated inputs
		p := prop(2)
		n, _ := strconv.Atoi(os.Args[3])
		sc := mustMkdirTemp("verif-show-")
		defer os.RemoveAll(sc)
		setup(p, sc)
		for i := 0; i < n; i++ {
			t := newCase(p, envInt("VERIF_SEED", 1), 0, i, n, sc)
			runCase(p, t)
			fmt.Printf("--- case %d size %d nontrivial %v labels %v\n%s\n", i, t.size, t.nontriv, t.labels, t.input)
			for _, v := range t.fails {
				fmt.Printf("  FAIL %s: %s\n", v.Key, v.Msg)
			}
		}
	case "survey": // survey ID n: the distinct violation keys of n cases
		p := prop(2)
		n, _ := strconv.Atoi(os.Args[3])
		sc := mustMkdirTemp("verif-survey-")
		defer os.RemoveAll(sc)
		setup(p, sc)
		survey(p, n, sc)
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: verif check ID | replay FILE | show ID N | survey ID N | list")
	os.Exit(2)
}

func prop(arg int) *Prop {
	if len(os.Args) <= arg {
		usage()
	}
	p, ok := props[os.Args[arg]]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", os.Args[arg])
		os.Exit(2)
	}
	return p
}

func setup(p *Prop, scratch string) {
	if p.Setup != nil {
		if err := p.Setup(scratch); err != nil {
			fmt.Fprintf(os.Stderr, "setup of %s failed: %v\n", p.ID, err)
			os.Exit(2)
		}
	}
}

// openFindings reads the findings of a property that are known and not repaired.
func openFindings(id string) map[string]string {
	open := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return open
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "open: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "open: property="+id+" key=")
		parts := strings.SplitN(rest, " ", 2)
		what := ""
		if len(parts) == 2 {
			what = parts[1]
		}
		open[parts[0]] = what
	}
	return open
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func mapCur(path string) []uint64 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil
	}
	defer f.Close()
	f.Truncate(4096)
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), 16)
}

// check runs the work in a child process, so that a fatal error of the code under test (which no recover can stop) is
// still attributed to its case.
func check(p *Prop) int {
	scratch := mustMkdirTemp("verif-" + p.ID + "-")
	defer os.RemoveAll(scratch)
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGTERM, syscall.SIGINT)
	curPath := filepath.Join(scratch, "cur")
	cur := mapCur(curPath)
	self, _ := os.Executable()
	single := false
again:
	cmd := exec.Command(self, "work", p.ID, scratch, curPath)
	cmd.Stdout = os.Stdout
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if single {
		cmd.Env = append(cmd.Env, "VERIF_WORKERS=1")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	errPath := filepath.Join(scratch, "stderr")
	ef, _ := os.Create(errPath)
	cmd.Stderr = ef
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	done := make(chan struct{})
	go func() {
		select {
		case <-ch:
			cmd.Process.Kill()
		case <-done:
		}
	}()
	err := cmd.Wait()
	close(done)
	ef.Close()
	stderr, _ := ioutil.ReadFile(errPath)
	if len(stderr) > 0 {
		n := len(stderr)
		if n > 8000 {
			n = 8000
		}
		os.Stderr.Write(stderr[:n])
	}
	if err == nil {
		return 0
	}
	code := cmd.ProcessState.ExitCode()
	if code == 0 || code == 1 {
		return code
	}
	if at := strings.Index(string(stderr), "WARNING: DATA RACE"); code == 66 && at >= 0 {
		return raceFound(p, string(stderr[at:]))
	}
	if at := strings.Index(string(stderr), "fatal error: concurrent map"); at >= 0 {
		if p.ID == "C24" {
			return raceFound(p, string(stderr[at:]))
		}
		if !single { // parses share a map, which is for C24 to say; look at this property with one parse at a time
			single = true
			for i := range cur {
				cur[i] = 0
			}
			goto again
		}
	}
	// the worker died; find the case that kills it
	for s := 0; cur != nil && s < 8; s++ {
		if cur[s] == 0 {
			continue
		}
		idx := int(cur[s] - 1)
		one := exec.Command(self, "one", p.ID, strconv.Itoa(s), strconv.Itoa(idx), scratch)
		out, err := one.CombinedOutput()
		if err == nil {
			continue
		}
		first := strings.SplitN(string(out), "\n", 2)[0]
		if !strings.Contains(string(out), "fatal error:") || strings.Contains(first, "signal: killed") {
			continue
		}
		t := newCase(p, envInt("VERIF_SEED", 1), s, idx, 0, scratch)
		path := writeReplay(p, &replayFile{Property: p.ID, Key: "fatal", Message: first, Note: fmt.Sprintf("shard %d case %d seed %d", s, idx, envInt("VERIF_SEED", 1)), Size: t.size})
		writeEvidence(p, &runResult{evals: idx + 1, distinct: 0, labels: map[string]int{}}, time.Now(), 1)
		fmt.Printf("the process dies on a case: %s\n", first)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	fmt.Fprintf(os.Stderr, "worker failed: %v\n", err)
	return 2
}

// raceFound reports what the race detector stopped the worker for. Which case it was is not certain, since eight run at
// the same time and goroutines of several may be part of it: the report itself is the reproduction, with the seed.
func raceFound(p *Prop, report string) int {
	if len(report) > 6000 {
		report = report[:6000]
	}
	if !strings.Contains(report, "akito0107/xsqlparser") {
		fmt.Fprintln(os.Stderr, "a race outside the code under test")
		return 2
	}
	path := writeReplay(p, &replayFile{Property: p.ID, Key: "race", Message: report, Note: fmt.Sprintf("race seed %d", envInt("VERIF_SEED", 1))})
	writeEvidence(p, &runResult{labels: map[string]int{}}, time.Now(), 1)
	fmt.Printf("operations on separate parses race:\n%s\n", strings.Join(strings.SplitN(report, "\n", 14)[:minInt(13, strings.Count(report, "\n"))], "\n"))
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func work(p *Prop, scratch, curPath string) int {
	start := time.Now()
	open := openFindings(p.ID)
	seed := envInt("VERIF_SEED", 1)
	n := p.Quick
	if tier() == "thorough" {
		n = p.Thorough
	}
	if v := envInt("VERIF_CASES", 0); v > 0 {
		n = int(v)
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if p.Workers > 0 && p.Workers < workers {
		workers = p.Workers
	}
	if v := int(envInt("VERIF_WORKERS", 0)); v > 0 && v < workers {
		workers = v
	}
	debug.SetGCPercent(400)
	setup(p, scratch)
	out := os.Stdout
	var noise *os.File
	if p.StdSilent {
		saved, err := syscall.Dup(1)
		if err != nil {
			return 2
		}
		syscall.CloseOnExec(saved)
		out = os.NewFile(uintptr(saved), "stdout")
		noise, err = os.Create(filepath.Join(scratch, "noise"))
		if err != nil {
			return 2
		}
		syscall.Dup2(int(noise.Fd()), 1)
		syscall.Dup2(int(noise.Fd()), 2)
	}
	res := runAll(p, seed, n, workers, open, scratch, mapCur(curPath))
	var extra *T
	if res.fail == nil && res.hang == nil && p.Extra != nil {
		extra = &T{scratch: scratch, rng: splitmix(uint64(seed))}
		var ev, nt int
		var samples []string
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopCase); !ok {
						extra.Fail("panic", "panic: %v\n%s", r, trimStack(string(debug.Stack())))
					}
				}
			}()
			ev, nt, samples = p.Extra(extra, tier())
		}()
		res.evals += ev
		res.distinct += nt
		res.samples = append(res.samples, samples...)
		for _, v := range extra.fails {
			if _, ok := open[v.Key]; ok {
				if _, seen := res.knownHits[v.Key]; !seen {
					res.knownHits[v.Key] = extra.input
				}
			}
		}
		for _, l := range extra.labels {
			res.labels[l]++
		}
	}
	if noise != nil && res.fail == nil && res.hang == nil {
		if fi, err := noise.Stat(); err == nil && fi.Size() > 0 {
			res.fail = findNoise(p, seed, n, scratch, noise)
		}
	}
	violations := 0
	var rf *replayFile
	switch {
	case res.hang != nil:
		// the case cannot be run again here: describe it by its choices, which are those of the generator alone
		rf = &replayFile{Property: p.ID, Key: res.hang.vs[0].Key, Message: res.hang.vs[0].Msg, Size: res.hang.size, Input: res.hang.t.input,
			Note: fmt.Sprintf("seed %d shard %d case %d", seed, res.hang.shard, res.hang.idx)}
		violations = 1
	case res.fail != nil:
		best := res.fail.t
		if !p.StdSilent || res.fail.vs[0].Key != "noise" {
			best = shrink(p, res.fail, open, scratch, 20*time.Second)
		}
		vs := unknown(best.fails, open)
		if len(vs) == 0 {
			vs = res.fail.vs
			best = res.fail.t
		}
		rf = &replayFile{Property: p.ID, Key: vs[0].Key, Message: vs[0].Msg, Input: best.input, Note: best.note, Size: res.fail.size, Choices: best.rec}
		violations = 1
	case extra != nil && len(unknown(extra.fails, open)) > 0:
		vs := unknown(extra.fails, open)
		rf = &replayFile{Property: p.ID, Key: vs[0].Key, Message: vs[0].Msg, Input: extra.input, Note: extra.note, Extra: true}
		violations = 1
	}
	writeEvidence(p, res, start, violations)
	if rf != nil {
		path := writeReplay(p, rf)
		fmt.Fprintf(out, "property %s violated (%s): %s\ninput: %s\n", p.ID, rf.Key, rf.Message, rf.Input)
		fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	for _, k := range sortedKeys(open) {
		ex, ok := res.knownHits[k]
		if !ok {
			ex = "(not met in this run)"
		}
		fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s: %s; e.g. %q\n", p.ID, k, open[k], ex)
	}
	fmt.Fprintf(out, "property %s held: %d cases, %d distinct and non-trivial, %.1fs\n", p.ID, res.evals, res.distinct, time.Since(start).Seconds())
	return 0
}

// findNoise runs the cases one by one until one writes to stdout or stderr.
func findNoise(p *Prop, seed int64, n int, scratch string, noise *os.File) *failure {
	per := (n + 7) / 8
	for i := 0; i < per; i++ {
		for s := 0; s < 8; s++ {
			noise.Truncate(0)
			noise.Seek(0, 0)
			t := newCase(p, seed, s, i, per, scratch)
			runCase(p, t)
			if fi, err := noise.Stat(); err == nil && fi.Size() > 0 {
				b, _ := ioutil.ReadFile(noise.Name())
				v := Violation{"noise", fmt.Sprintf("writes to standard output or error: %.300q", b)}
				t.fails = append(t.fails, v)
				return &failure{shard: s, idx: i, size: t.size, t: t, vs: []Violation{v}}
			}
		}
	}
	v := Violation{"noise", "a case wrote to standard output or error"}
	return &failure{t: &T{fails: []Violation{v}}, vs: []Violation{v}}
}

func writeReplay(p *Prop, rf *replayFile) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	rf.How = "bash /verif/check.sh --replay FILE (runs the case again from its choices against /repo's current tree)"
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", p.ID, tier(), hash64(rf.Key+rf.Input+rf.Note)&0xffffff))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := ioutil.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return path
}

func replay(file string) int {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[rf.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		return 2
	}
	if rf.Key == "race" { // run the whole search with that seed again
		var seed int64 = 1
		fmt.Sscanf(rf.Note, "race seed %d", &seed)
		os.Setenv("VERIF_SEED", strconv.FormatInt(seed, 10))
		return check(p)
	}
	scratch := mustMkdirTemp("verif-replay-")
	defer os.RemoveAll(scratch)
	setup(p, scratch)
	var t *T
	if rf.Extra {
		t = &T{scratch: scratch, rng: splitmix(uint64(envInt("VERIF_SEED", 1)))}
		p.Extra(t, tier())
	} else if len(rf.Choices) == 0 && rf.Note != "" {
		var seed int64
		var shard, idx int
		if _, err := fmt.Sscanf(rf.Note, "seed %d shard %d case %d", &seed, &shard, &idx); err != nil {
			fmt.Sscanf(rf.Note, "shard %d case %d seed %d", &shard, &idx, &seed)
		}
		t = newCase(p, seed, shard, idx, 0, scratch)
		runCase(p, t)
	} else {
		t = replayCase(p, rf.Choices, rf.Size, scratch)
	}
	fmt.Printf("input: %s\n", t.input)
	open := openFindings(p.ID)
	vs := unknown(t.fails, open)
	for _, v := range vs {
		fmt.Printf("violated (%s): %s\n", v.Key, v.Msg)
	}
	if len(vs) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	fmt.Println("held")
	return 0
}

func writeEvidence(p *Prop, res *runResult, start time.Time, violations int) {
	samples := res.samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	cov := map[string]interface{}{
		"evaluations":         res.evals,
		"distinct_nontrivial": res.distinct,
		"rule":                p.Rule,
		"samples":             samples,
		"classes":             res.labels,
	}
	if res.faults > 0 {
		cov["faults_injected"] = res.faults
	}
	if len(res.knownHits) > 0 {
		cov["known_findings_met"] = res.knownHits
	}
	ev := map[string]interface{}{
		"property":   p.ID,
		"tier":       tier(),
		"seed":       envInt("VERIF_SEED", 1),
		"level":      p.Level,
		"coverage":   cov,
		"wall_s":     time.Since(start).Seconds(),
		"violations": violations,
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	ioutil.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

func survey(p *Prop, n int, scratch string) {
	type hit struct {
		n  int
		ex *T
		v  Violation
	}
	hits := map[string]*hit{}
	labels := map[string]int{}
	nt := 0
	for i := 0; i < n; i++ {
		t := newCase(p, envInt("VERIF_SEED", 1), 0, i, n, scratch)
		runCase(p, t)
		if t.nontriv {
			nt++
		}
		for _, l := range t.labels {
			labels[l]++
		}
		for _, v := range t.fails {
			h := hits[v.Key]
			if h == nil {
				h = &hit{ex: t, v: v}
				hits[v.Key] = h
			}
			h.n++
			if len(t.rec) < len(h.ex.rec) {
				h.ex, h.v = t, v
			}
		}
	}
	fmt.Printf("%d cases, %d nontrivial\n", n, nt)
	var ls []string
	for l, c := range labels {
		ls = append(ls, fmt.Sprintf("%s=%d", l, c))
	}
	sort.Strings(ls)
	fmt.Println(strings.Join(ls, " "))
	open := openFindings(p.ID)
	for k, h := range hits {
		mark := ""
		if _, ok := open[k]; ok {
			mark = " (known)"
		}
		fmt.Printf("== %s x%d%s\n", k, h.n, mark)
		others := map[string]string{}
		for k2 := range hits {
			if k2 != k {
				others[k2] = ""
			}
		}
		b := shrink(p, &failure{t: h.ex, size: h.ex.size}, others, scratch, 2*time.Second)
		for _, v := range b.fails {
			if v.Key == k {
				fmt.Printf("   input: %s\n   msg: %s\n", b.input, v.Msg)
				break
			}
		}
	}
}
