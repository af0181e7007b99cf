package main

// Runtime of the property harness: facet registry, worker, parent, evidence,
// replay files, known findings.  Every random choice is made inside rapid
// generators; each facet's run is a pure function of (code, seed).

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Str is a string that survives JSON even when it is not valid UTF-8.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), "hex:") {
		return marshalNoEsc(string(s))
	}
	return json.Marshal("hex:" + hex.EncodeToString([]byte(s)))
}
func (s *Str) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if strings.HasPrefix(v, "hex:") {
		d, err := hex.DecodeString(v[4:])
		if err != nil {
			return err
		}
		*s = Str(d)
		return nil
	}
	*s = Str(v)
	return nil
}

func marshalNoEsc(v any) ([]byte, error) {
	var bb bytes.Buffer
	e := json.NewEncoder(&bb)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return nil, err
	}
	return bytes.TrimRight(bb.Bytes(), "\n"), nil
}

// Ctx is handed to every case.
type Ctx struct {
	nontrivial bool
	excluded   string
	labels     map[string]bool
}

func (x *Ctx) NonTrivial(b bool) {
	if b {
		x.nontrivial = true
	}
}
func (x *Ctx) Label(l string, b bool) {
	if b {
		x.labels[l] = true
	}
}

// Exclude marks the case as falling in a listed known finding (not judged).
func (x *Ctx) Exclude(id string) { x.excluded = id }

type facet struct {
	Prop, Name      string
	Quick, Thorough int
	Race            bool
	Shards          int
	Memory          uint64 // limits of one case, when not the usual ones
	CPU             int
	gen             func(*rapid.T) any
	run             func(*Ctx, any) error
	decode          func([]byte) (any, error)
}

var facets []*facet

type propInfo struct {
	Rule        string
	Assumptions []string
}

var props = map[string]propInfo{}

func Prop(id, rule string, assumptions ...string) {
	props[id] = propInfo{rule, assumptions}
}

// Reg registers one generated check of a property.
func Reg[C any](prop, name string, quick, thorough int, gen func(*rapid.T) C, run func(*Ctx, C) error) *facet {
	f := &facet{Prop: prop, Name: name, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(x *Ctx, c any) error { return run(x, c.(C)) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		}}
	facets = append(facets, f)
	return f
}

type fatalPanic struct{ msg string }

func (f fatalPanic) Error() string { return f.msg }

// logTrap turns log.Fatal of the code under test into a panic and drops the rest.
type logTrap struct{}

func (logTrap) Write(p []byte) (int, error) {
	var pcs [16]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic(fatalPanic{"process exit: log.Fatal: " + strings.TrimSpace(string(p))})
		}
		if !more {
			break
		}
	}
	return len(p), nil
}

func repoFrame() string {
	var pcs [64]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "sugarme/tokenizer") {
			return fmt.Sprintf("%s (%s:%d)", f.Function, filepath.Base(f.File), f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// Guard runs fn and reports a panic (or process exit) as an error.
func Guard(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v at %s", r, repoFrame())
		}
	}()
	return fn()
}

// IsPanic says whether Guard caught a panic.
func IsPanic(err error) bool { return err != nil && strings.HasPrefix(err.Error(), "panic: ") }

// outside is set when a case turns out to be outside of what is stated.
var outside string

func runCase(f *facet, c any) (x *Ctx, err error) {
	x = &Ctx{labels: map[string]bool{}}
	outside = ""
	err = Guard(func() error { return f.run(x, c) })
	if outside != "" && !IsPanic(err) {
		// nothing is stated of this input, but that it is harmless
		err = nil
		x.Label("outside: "+outside, true)
	}
	return
}

// ---------------------------------------------------------------- worker

type workerResult struct {
	Facet     string
	Evals     int
	Nontriv   int
	Labels    map[string]int
	Excluded  map[string]int
	Samples   []json.RawMessage
	Failed    bool
	FailMsg   string
	FailCase  json.RawMessage
	Hashes    []byte
	HarnessEr string
}

type quietTB struct {
	failed bool
	logs   []string
}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Name() string              { return "vh" }
func (q *quietTB) Logf(f string, a ...any)   { q.logs = append(q.logs, fmt.Sprintf(f, a...)) }
func (q *quietTB) Log(a ...any)              { q.logs = append(q.logs, fmt.Sprint(a...)) }
func (q *quietTB) Skipf(f string, a ...any)  {}
func (q *quietTB) Skip(a ...any)             {}
func (q *quietTB) SkipNow()                  {}
func (q *quietTB) Errorf(f string, a ...any) { q.Logf(f, a...); q.failed = true }
func (q *quietTB) Error(a ...any)            { q.Log(a...); q.failed = true }
func (q *quietTB) Fatalf(f string, a ...any) { q.Logf(f, a...); q.FailNow() }
func (q *quietTB) Fatal(a ...any)            { q.Log(a...); q.FailNow() }
func (q *quietTB) FailNow()                  { q.failed = true; panic(tbFail{}) }
func (q *quietTB) Fail()                     { q.failed = true }
func (q *quietTB) Failed() bool              { return q.failed }

type tbFail struct{}

var (
	caseSerial  atomic.Int64
	caseRunning atomic.Bool
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	hangCPU  = 25 * time.Second
	hangHeap = 3 << 30
	exitHang = 97
	exitMem  = 98
)

// watchdog ends the worker when ONE case burns hangCPU of processor time or
// grows the heap beyond hangHeap; neither depends on the wall clock.
func watchdog(f *facet) {
	cpu, heap := hangCPU, uint64(hangHeap)
	if f.CPU > 0 {
		cpu = time.Duration(f.CPU) * time.Second
	}
	if f.Memory > 0 {
		heap = f.Memory
	}
	var serial int64 = -1
	var base time.Duration
	var ms runtime.MemStats
	for {
		time.Sleep(200 * time.Millisecond)
		if !caseRunning.Load() {
			serial = -1
			continue
		}
		s := caseSerial.Load()
		if s != serial {
			serial, base = s, cpuTime()
			continue
		}
		if cpuTime()-base > cpu {
			os.Exit(exitHang)
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heap {
			os.Exit(exitMem)
		}
	}
}

func quietProcess() {
	log.SetOutput(logTrap{})
	log.SetFlags(0)
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		syscall.Dup2(int(dn.Fd()), 1)
	}
}

func facetSeed(seed int64, name string, shard int) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%d", seed, name, shard)))
	u := binary.LittleEndian.Uint64(h[:8])
	if u == 0 {
		u = 1
	}
	return u
}

func findFacet(name string) *facet {
	for _, f := range facets {
		if f.Prop+"/"+f.Name == name {
			return f
		}
	}
	return nil
}

func worker(name string, useed uint64, checks int, out string) {
	f := findFacet(name)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no facet", name)
		os.Exit(3)
	}
	quietProcess()
	go watchdog(f)
	journal, err := os.Create(out + ".journal")
	if err != nil {
		os.Exit(3)
	}
	res := &workerResult{Facet: name, Labels: map[string]int{}, Excluded: map[string]int{}}
	seen := map[uint64]struct{}{}
	tb := &quietTB{}
	flag.Set("rapid.seed", fmt.Sprint(useed))
	flag.Set("rapid.checks", fmt.Sprint(checks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	failing := false
	var hb [8]byte
	prop := func(t *rapid.T) {
		c := f.gen(t)
		js, err := marshalNoEsc(c)
		if err != nil {
			panic(fmt.Sprintf("harness: cannot marshal case: %v", err))
		}
		binary.LittleEndian.PutUint64(hb[:], uint64(len(js)))
		journal.WriteAt(append(hb[:], js...), 0)
		caseSerial.Add(1)
		caseRunning.Store(true)
		x, err := runCase(f, c)
		caseRunning.Store(false)
		if !failing {
			res.Evals++
			if x.excluded != "" {
				res.Excluded[x.excluded]++
			}
			for l := range x.labels {
				res.Labels[l]++
			}
			if x.nontrivial && x.excluded == "" {
				h := fnv.New64a()
				h.Write(js)
				u := h.Sum64()
				if _, ok := seen[u]; !ok {
					seen[u] = struct{}{}
					if len(res.Samples) < 2 && len(seen)%7 == 3 && len(js) < 1500 {
						res.Samples = append(res.Samples, js)
					}
				}
			}
		}
		if err != nil {
			failing = true
			res.Failed = true
			res.FailMsg = err.Error()
			res.FailCase = js
			t.Fatalf("%s", errClass(err))
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbFail); ok {
					return
				}
				res.HarnessEr = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		rapid.Check(tb, prop)
	}()
	if tb.failed && !res.Failed {
		res.HarnessEr = strings.Join(tb.logs, "\n")
	}
	res.Nontriv = len(seen)
	var hbuf bytes.Buffer
	for u := range seen {
		binary.Write(&hbuf, binary.LittleEndian, u)
	}
	res.Hashes = hbuf.Bytes()
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

// errClass keeps rapid from treating different messages as flaky.
func errClass(err error) string {
	s := err.Error()
	if i := strings.IndexAny(s, ":\n"); i > 0 {
		s = s[:i]
	}
	return s
}

// ---------------------------------------------------------------- replay

type replayFile struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Seed     int64           `json:"verif_seed"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

func loadReplay(p string) (*replayFile, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	var r replayFile
	return &r, json.Unmarshal(b, &r)
}

// replayWorker runs one case in this process: 0 holds, 10 violated.
func replayWorker(p string, out string) {
	r, err := loadReplay(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f := findFacet(r.Facet)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no facet", r.Facet)
		os.Exit(3)
	}
	c, err := f.decode(r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	quietProcess()
	go watchdog(f)
	caseSerial.Add(1)
	caseRunning.Store(true)
	_, err = runCase(f, c)
	caseRunning.Store(false)
	if err != nil {
		os.WriteFile(out, []byte(err.Error()), 0o644)
		os.Exit(10)
	}
	os.Exit(0)
}

type replayOutcome struct {
	violated bool
	msg      string
	err      error
}

func runReplay(self, p, tmp string) replayOutcome {
	out := filepath.Join(tmp, fmt.Sprintf("rep-%d", time.Now().UnixNano()))
	cmd := exec.Command(self, "replay-worker", p, out)
	var se bytes.Buffer
	cmd.Stderr = &se
	err := cmd.Run()
	if err == nil {
		return replayOutcome{}
	}
	if ee, ok := err.(*exec.ExitError); ok {
		switch code := ee.ExitCode(); {
		case code == 10:
			b, _ := os.ReadFile(out)
			return replayOutcome{violated: true, msg: string(b)}
		case code == 3:
			return replayOutcome{err: fmt.Errorf("replay: %s", se.String())}
		default:
			if m, ok := deathMessage(ee, se.String()); ok {
				return replayOutcome{violated: true, msg: m}
			}
		}
	}
	return replayOutcome{err: fmt.Errorf("replay %s: %v: %s", p, err, tail(se.String(), 2000))}
}

// deathMessage classifies the death of a worker.  A kill by signal (out of
// memory, operator) is never the code's doing as far as we can tell.
func deathMessage(ee *exec.ExitError, stderr string) (string, bool) {
	ws, _ := ee.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return "", false
	}
	switch ee.ExitCode() {
	case exitHang:
		return fmt.Sprintf("no termination: one case used more processor time than allowed (%v unless the facet says otherwise)", hangCPU), true
	case exitMem:
		return fmt.Sprintf("runaway memory: one case grew the heap beyond the limit (%d MB unless the facet says otherwise)", hangHeap>>20), true
	case 66:
		return "data race detected: " + tail(stderr, 3000), true
	}
	return fmt.Sprintf("process died (exit %d): %s", ee.ExitCode(), head(stderr, 1500)), true
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---------------------------------------------------------------- parent

type knownFinding struct {
	Property string          `json:"property"`
	ID       string          `json:"id"`
	What     string          `json:"what"`
	Facet    string          `json:"facet"`
	Case     json.RawMessage `json:"case"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

type job struct {
	f      *facet
	shard  int
	checks int
	out    string
}

type jobResult struct {
	j      job
	res    *workerResult
	death  string // violated by death
	infra  string
	stderr string
}

func runJob(self string, j job, seed int64) jobResult {
	name := j.f.Prop + "/" + j.f.Name
	cmd := exec.Command(self, "worker", name, fmt.Sprint(facetSeed(seed, name, j.shard)), fmt.Sprint(j.checks), j.out)
	var se bytes.Buffer
	cmd.Stderr = &se
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if !j.f.Race {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	err := cmd.Run()
	r := jobResult{j: j, stderr: se.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			r.infra = err.Error()
			return r
		}
		if ee.ExitCode() == 3 {
			r.infra = "worker: " + se.String()
			return r
		}
		if m, ok := deathMessage(ee, se.String()); ok {
			r.death = m
		} else {
			r.infra = fmt.Sprintf("worker killed: %v", err)
		}
		return r
	}
	b, err := os.ReadFile(j.out)
	if err != nil {
		r.infra = err.Error()
		return r
	}
	r.res = &workerResult{}
	if err := json.Unmarshal(b, r.res); err != nil {
		r.infra = err.Error()
	}
	if r.res.HarnessEr != "" {
		r.infra = "harness: " + r.res.HarnessEr
	}
	return r
}

func check(id, tier string, seed int64, verif string) int {
	start := time.Now()
	pi, ok := props[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	self, _ := os.Executable()
	raceSelf := self + "-race"
	tmp, err := os.MkdirTemp("", "vh-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	bin := func(f *facet) string {
		if f.Race {
			return raceSelf
		}
		return self
	}
	violations := 0
	infra := 0
	excludedFindings := 0
	report := func(f string, msg string, cs json.RawMessage, path string) {
		if path == "" {
			dir := filepath.Join(verif, "replays")
			os.MkdirAll(dir, 0o755)
			h := sha256.Sum256(cs)
			path = filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", id, strings.TrimPrefix(f, id+"/"), h[:4]))
			b, _ := marshalIndentNoEsc(replayFile{id, f, seed, msg, cs})
			os.WriteFile(path, b, 0o644)
		}
		violations++
		fmt.Printf("facet %s: %s\n  case: %s\n", f, head(msg, 1500), head(string(cs), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}

	// 1. known findings
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
	}
	for _, k := range kf.Known {
		if k.Property != id {
			continue
		}
		excludedFindings++
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k.ID, k.What)
	}

	// 2. saved regression cases
	regs, _ := filepath.Glob(filepath.Join(verif, "regress", id, "*.json"))
	sort.Strings(regs)
	nreg := 0
	for _, p := range regs {
		r, err := loadReplay(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, p, err)
			return 2
		}
		f := findFacet(r.Facet)
		if f == nil {
			fmt.Fprintln(os.Stderr, p, "no facet", r.Facet)
			return 2
		}
		o := runReplay(bin(f), p, tmp)
		if o.err != nil {
			fmt.Fprintln(os.Stderr, o.err)
			infra++
		} else if o.violated {
			report(r.Facet, o.msg, r.Case, p)
		}
		nreg++
	}

	// 3. generated search
	var jobs []job
	ncpu := runtime.NumCPU()
	for _, f := range facets {
		if f.Prop != id {
			continue
		}
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
		}
		shards := f.Shards
		if shards == 0 {
			shards = 4
			if n >= 20000 || tier == "thorough" {
				shards = 8
			}
		}
		if shards > n {
			shards = 1
		}
		for s := 0; s < shards; s++ {
			jobs = append(jobs, job{f, s, (n + shards - 1) / shards, filepath.Join(tmp, fmt.Sprintf("w-%d", len(jobs)))})
		}
	}
	results := make([]jobResult, len(jobs))
	var wg sync.WaitGroup
	next := atomic.Int64{}
	for w := 0; w < ncpu; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(jobs) {
					return
				}
				results[i] = runJob(bin(jobs[i].f), jobs[i], seed)
			}
		}()
	}
	wg.Wait()

	evals := 0
	uniq := map[uint64]struct{}{}
	perFacet := map[string]map[string]int{}
	excl := map[string]int{}
	samples := []any{}
	sampleCount := map[string]int{}
	failedFacet := map[string]bool{}
	for _, r := range results {
		name := r.j.f.Prop + "/" + r.j.f.Name
		if r.infra != "" {
			fmt.Fprintf(os.Stderr, "%s: %s\n", name, tail(r.infra, 3000))
			infra++
			continue
		}
		if r.death != "" {
			cs := readJournal(r.j.out + ".journal")
			if cs == nil {
				fmt.Fprintf(os.Stderr, "%s: %s (no journal)\n", name, r.death)
				infra++
				continue
			}
			// confirm in a fresh process (several times for schedules)
			rp := filepath.Join(tmp, "confirm.json")
			b, _ := json.Marshal(replayFile{id, name, seed, r.death, cs})
			os.WriteFile(rp, b, 0o644)
			o := runReplay(bin(r.j.f), rp, tmp)
			if o.violated || strings.HasPrefix(r.death, "data race") || strings.Contains(r.death, "concurrent map") {
				if !failedFacet[name] {
					report(name, r.death, cs, "")
				}
				failedFacet[name] = true
			} else {
				fmt.Fprintf(os.Stderr, "%s: %s (not reproduced: %v)\n", name, r.death, o.err)
				infra++
			}
			continue
		}
		m := perFacet[name]
		if m == nil {
			m = map[string]int{}
			perFacet[name] = m
		}
		m["evaluations"] += r.res.Evals
		evals += r.res.Evals
		for k, v := range r.res.Labels {
			m["label:"+k] += v
		}
		for k, v := range r.res.Excluded {
			excl[k] += v
		}
		for i := 0; i+8 <= len(r.res.Hashes); i += 8 {
			u := binary.LittleEndian.Uint64(r.res.Hashes[i:])
			h := fnv.New64a()
			h.Write([]byte(name))
			u ^= h.Sum64()
			if _, ok := uniq[u]; !ok {
				uniq[u] = struct{}{}
				m["distinct_nontrivial"]++
			}
		}
		for _, s := range r.res.Samples {
			if sampleCount[name] < 2 {
				sampleCount[name]++
				samples = append(samples, map[string]any{"facet": name, "case": s})
			}
		}
		if r.res.Failed && !failedFacet[name] {
			failedFacet[name] = true
			report(name, r.res.FailMsg, r.res.FailCase, "")
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(uniq), "rule": pi.Rule,
			"samples": samples, "per_facet": perFacet,
			"excluded_as_known_finding": excl, "regression_cases_replayed": nreg,
		},
		"assumptions": append([]string{}, pi.Assumptions...),
		"wall_s":      time.Since(start).Seconds(), "violations": violations,
	}
	b, err := marshalIndentNoEsc(ev)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1fs\n", id, tier, seed, evals, len(uniq), violations, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	if infra > 0 {
		return 2
	}
	return 0
}

func marshalIndentNoEsc(v any) ([]byte, error) {
	var bb bytes.Buffer
	e := json.NewEncoder(&bb)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	err := e.Encode(v)
	return bb.Bytes(), err
}

func readJournal(p string) json.RawMessage {
	f, err := os.Open(p)
	if err != nil {
		return nil
	}
	defer f.Close()
	var hb [8]byte
	if _, err := io.ReadFull(f, hb[:]); err != nil {
		return nil
	}
	n := binary.LittleEndian.Uint64(hb[:])
	if n > 64<<20 {
		return nil
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(f, b); err != nil || !json.Valid(b) {
		return nil
	}
	return b
}

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID TIER SEED VERIFDIR | replay FILE | list")
		os.Exit(2)
	}
	switch args[0] {
	case "worker":
		var u uint64
		var n int
		fmt.Sscan(args[2], &u)
		fmt.Sscan(args[3], &n)
		worker(args[1], u, n, args[4])
	case "replay-worker":
		replayWorker(args[1], args[2])
	case "replay":
		self, _ := os.Executable()
		r, err := loadReplay(args[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if f := findFacet(r.Facet); f != nil && f.Race {
			self += "-race"
		}
		o := runReplay(self, args[1], os.TempDir())
		if o.err != nil {
			fmt.Fprintln(os.Stderr, o.err)
			os.Exit(2)
		}
		if o.violated {
			fmt.Println(o.msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, args[1])
			os.Exit(1)
		}
		fmt.Println("holds")
	case "list":
		for _, f := range facets {
			fmt.Println(f.Prop+"/"+f.Name, f.Quick, f.Thorough, f.Race)
		}
	case "needs-race":
		for _, f := range facets {
			if f.Prop == args[1] && f.Race {
				os.Exit(0)
			}
		}
		os.Exit(1)
	case "check":
		var seed int64
		fmt.Sscan(args[3], &seed)
		os.Exit(check(args[1], args[2], seed, args[4]))
	}
}
