package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Prop is a property with its generator and its oracle.
type Prop struct {
	ID       string
	Rule     string   // when a case counts as non-trivial
	Profiles []string // terminal profiles to run under
	Shards   int      // worker processes per profile
	Quick    int      // cases per worker
	Thorough int
	Race     bool // needs the race detector build
	Pty      bool // needs a pseudo-terminal as controlling terminal
	Limit    time.Duration
	Gen      func(*rapid.T) any
	New      func() any // empty case to decode a replay file into
	Run      func(c any, r *Rec) error
	Fixed    func() []any // cases tried on every run besides the generated ones
	Large    func() []any // the same, of a size the generators do not reach
}

// property builds a Prop from functions over a concrete case type.
func property[C any](p Prop, gen func(*rapid.T) *C, run func(*C, *Rec) error) *Prop {
	p.Gen = func(t *rapid.T) any { return gen(t) }
	p.New = func() any { return new(C) }
	p.Run = func(c any, r *Rec) error { return run(c.(*C), r) }
	if p.Shards == 0 {
		p.Shards = 1
	}
	if p.Limit == 0 {
		p.Limit = 40 * time.Second
	}
	return &p
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Rec is what the oracle notes about one case.
type Rec struct {
	nontrivial bool
	labels     map[string]bool
}

func (r *Rec) Nontrivial() { r.nontrivial = true }
func (r *Rec) Label(format string, a ...any) {
	if r.labels == nil {
		r.labels = map[string]bool{}
	}
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	r.labels[format] = true
}

// Outcome is what a worker leaves for the driver.
type Outcome struct {
	Profile    string
	Shard      int
	Evals      int
	Nontrivial int
	Labels     map[string]int
	Samples    []json.RawMessage
	Failed     bool
	Hang       bool
	Message    string
	Case       json.RawMessage
	Seed       uint64
	Slowest    time.Duration
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Profile  string          `json:"profile"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type panicError struct {
	value any
	stack string
}

func (p *panicError) Error() string { return fmt.Sprintf("panic: %v\n%s", p.value, p.stack) }

// safeRun applies the oracle; a panic is a failure of the case.
func safeRun(p *Prop, c any, r *Rec) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = &panicError{v, trimStack(string(debug.Stack()))}
		}
	}()
	return p.Run(c, r)
}

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func mustJSON(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return bytes.TrimRight(b.Bytes(), "\n")
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// runner carries out one worker's share.
type runner struct {
	p        *Prop
	out      *Outcome
	outPath  string
	cur      *os.File
	seen     map[uint64]struct{}
	lastFail []byte
	lastMsg  string
	started  atomic.Int64 // unix nanoseconds the case in progress began, 0 if none
	curCase  atomic.Pointer[[]byte]
	fails    int
}

func (w *runner) begin(js []byte) {
	if w.cur != nil {
		w.cur.WriteAt(js, 0)
		w.cur.Truncate(int64(len(js)))
	}
	w.curCase.Store(&js)
	w.started.Store(time.Now().UnixNano())
}

func (w *runner) end() { w.started.Store(0) }

// one runs a case and keeps the counts.
func (w *runner) one(c any) error {
	js := mustJSON(c)
	w.begin(js)
	defer w.end()
	var r Rec
	start := time.Now()
	err := safeRun(w.p, c, &r)
	w.out.Slowest = max(w.out.Slowest, time.Since(start))
	w.out.Evals++
	for l := range r.labels {
		w.out.Labels[l]++
	}
	if r.nontrivial {
		w.seen[hash64(string(js))] = struct{}{}
		n := len(w.seen)
		if len(w.out.Samples) < 3 && (n == 1 || n == 50 || n == 500) && len(js) < 4000 {
			w.out.Samples = append(w.out.Samples, json.RawMessage(js))
		}
	}
	if err != nil {
		w.fails++
		w.lastFail, w.lastMsg = js, err.Error()
	}
	return err
}

func (w *runner) save() {
	w.out.Nontrivial = len(w.seen)
	if w.lastFail != nil {
		w.out.Failed, w.out.Case, w.out.Message = true, w.lastFail, w.lastMsg
	}
	if err := os.WriteFile(w.outPath, mustJSON(w.out), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// watch ends the process when a case takes far longer than any should.
func (w *runner) watch(limit time.Duration) {
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	var last int64
	var cpu time.Duration // used when the case was first seen
	for {
		time.Sleep(200 * time.Millisecond)
		t := w.started.Load()
		if t == 0 {
			continue
		}
		if t != last {
			last, cpu = t, cpuTime()
		}
		// On a busy machine a case may take long only because it has to wait
		// for a processor.
		took, used := time.Since(time.Unix(0, t)), cpuTime()-cpu
		over := took >= limit && (used >= limit*3/4 || used < limit/40) || took >= 4*limit
		why := fmt.Sprintf("the case did not finish within %v", limit)
		if !over {
			metrics.Read(heap)
			if heap[0].Value.Uint64() < 2<<30 {
				continue
			}
			why = "the case takes more than 2 GB of memory"
		}
		if w.started.Load() != t {
			continue
		}
		if w.lastFail == nil {
			w.out.Hang = true
			w.out.Case = *w.curCase.Load()
			w.out.Message = why
			buf := make([]byte, 1<<16)
			os.Stderr.Write(buf[:stackAll(buf)])
		}
		w.save()
		os.Exit(4)
	}
}

// cpuTime is the processor time this process used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// tb is the rapid.TB of the harness.
type tb struct {
	failed bool
	log    strings.Builder
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "check" }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tb) Skipf(f string, a ...any)  { panic("skip") }
func (t *tb) Skip(a ...any)             { panic("skip") }
func (t *tb) SkipNow()                  { panic("skip") }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Fatal(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) FailNow()                  { t.failed = true }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
