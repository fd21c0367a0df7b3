package main

import (
	"encoding/gob"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
)

// Case is one execution (or a small family of executions) of the real code
// under one workload, judged by an oracle that calls T.Fail.
type Case struct {
	Name   string  // unique inside the check
	Cost   float64 // rough CPU seconds, used only to balance the shards
	Procs  int     // GOMAXPROCS for the case (0: the worker's default)
	Fresh  bool    // needs a fresh process (process-global state)
	MaxCPU float64 // CPU seconds after which the case counts as livelocked (0: 400)
	Run    func(t *T)
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Workers     int  // number of worker processes (0: 8)
	Race        bool // needs the -race build
	NetNS       bool // each worker gets a loopback network of its own, if the sandbox allows it
	Cases       func(tier string, seed int64) []Case
	Final       func(d *driver) // judges what the workers saw together
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ev is one line of the event log a worker sends to the driver.
type Ev struct {
	E    string   `json:"e"` // start, done, viol, count, seen, sample, end
	I    int      `json:"i"`
	Key  string   `json:"k,omitempty"`
	Msg  string   `json:"m,omitempty"`
	N    int64    `json:"n,omitempty"`
	Vals []string `json:"v,omitempty"`
}

var evMu sync.Mutex
var evOut *os.File

func emit(e Ev) {
	b, _ := json.Marshal(e)
	evMu.Lock()
	if evOut != nil {
		evOut.Write(append(b, '\n'))
	}
	evMu.Unlock()
}

// T is what a case reports to.
type T struct {
	I      int
	Name   string
	Tier   string
	Seed   int64
	R      *rand.Rand
	Dir    string // scratch directory of the worker
	mu     sync.Mutex
	counts map[string]int64
	seen   map[string]map[string]bool
	fails  map[string]int
	parent *T
	cts    map[string]libunlynx.CipherText // encryptions made in this case
	mute   bool                            // only what the run-time detects counts
}

// Fail records a violation. key identifies the failing input/site (for the
// known-findings file), msg describes it.
func (t *T) Fail(key, format string, a ...interface{}) {
	if t.parent != nil {
		t = t.parent
	}
	if t.mute {
		return
	}
	t.mu.Lock()
	t.fails[key]++
	n := t.fails[key]
	t.mu.Unlock()
	if n > 3 {
		return
	}
	emit(Ev{E: "viol", I: t.I, Key: key, Msg: t.Name + ": " + fmt.Sprintf(format, a...)})
}

// Check evaluates one oracle condition.
func (t *T) Check(ok bool, key, format string, a ...interface{}) bool {
	t.Count("oracle_checks", 1)
	if !ok {
		t.Fail(key, format, a...)
	}
	return ok
}

// Count adds to a measured counter.
func (t *T) Count(name string, n int64) {
	if t.parent != nil {
		t = t.parent
	}
	t.mu.Lock()
	t.counts[name] += n
	t.mu.Unlock()
}

// Seen records a member of a set whose distinct size is reported.
func (t *T) Seen(set, val string) {
	if t.parent != nil {
		t = t.parent
	}
	if len(val) > 24 {
		h := fnv.New64a()
		h.Write([]byte(val))
		val = fmt.Sprintf("%x", h.Sum64())
	}
	t.mu.Lock()
	if t.seen[set] == nil {
		t.seen[set] = map[string]bool{}
	}
	t.seen[set][val] = true
	t.mu.Unlock()
}

// Nontrivial records one evaluated execution and its signature.
func (t *T) Nontrivial(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	t.Count("evaluations", 1)
	t.Seen("nontrivial", s)
}

// Trivial records an evaluated execution that exercises little.
func (t *T) Trivial() { t.Count("evaluations", 1) }

// Sample writes out one case.
func (t *T) Sample(format string, a ...interface{}) {
	emit(Ev{E: "sample", I: t.I, Msg: t.Name + ": " + fmt.Sprintf(format, a...)})
}

func (t *T) flush() {
	t.mu.Lock()
	defer t.mu.Unlock()
	for k, n := range t.counts {
		emit(Ev{E: "count", I: t.I, Key: k, N: n})
	}
	for k, m := range t.seen {
		var vals []string
		for v := range m {
			vals = append(vals, v)
		}
		sort.Strings(vals)
		for len(vals) > 0 {
			n := len(vals)
			if n > 500 {
				n = 500
			}
			emit(Ev{E: "seen", I: t.I, Key: k, Vals: vals[:n]})
			vals = vals[n:]
		}
	}
}

func caseSeed(seed int64, name string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", seed, name)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// shards assigns the cases to n workers, balanced by cost; deterministic.
func shards(cases []Case, n int) [][]int {
	idx := make([]int, len(cases))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return cases[idx[a]].Cost > cases[idx[b]].Cost })
	load := make([]float64, n)
	out := make([][]int, n)
	for _, i := range idx {
		b := 0
		for j := range load {
			if load[j] < load[b] {
				b = j
			}
		}
		c := cases[i].Cost
		if c <= 0 {
			c = 0.1
		}
		load[b] += c
		out[b] = append(out[b], i)
	}
	for j := range out {
		sort.Ints(out[j])
	}
	return out
}

func runCase(c *Case, i int, tier string, seed int64, dir string) {
	t := &T{I: i, Name: c.Name, Tier: tier, Seed: seed, R: newRand(caseSeed(seed, c.Name)), Dir: dir,
		counts: map[string]int64{}, seen: map[string]map[string]bool{}, fails: map[string]int{}}
	emit(Ev{E: "start", I: i, Msg: c.Name})
	if c.Procs > 0 {
		old := runtime.GOMAXPROCS(c.Procs)
		defer runtime.GOMAXPROCS(old)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Fail("panic", "panic: %v\n%s", r, trim(string(debug.Stack()), 6000))
			}
		}()
		c.Run(t)
	}()
	t.flush()
	emit(Ev{E: "done", I: i})
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...[cut]"
	}
	return s
}

// must panics (hence reports a violation) on an unexpected error.
func must(err error) {
	if err != nil {
		panic("unexpected error: " + err.Error())
	}
}

// noPanic runs f and returns the recovered panic, if any, with its stack.
func noPanic(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%v\n%s", r, trim(string(debug.Stack()), 3000))
		}
	}()
	f()
	return ""
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// within runs f in a goroutine and waits for it; the driver's stall detector
// decides about hangs, so there is no wall-clock limit here.
func within(f func()) {
	done := make(chan string, 1)
	go func() { done <- noPanic(f) }()
	if p := <-done; p != "" {
		panic(p)
	}
}

var _ = time.Now

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// fork returns a T for a goroutine of the case: same case, own randomness,
// shared counters.
func (t *T) fork() *T {
	f := &T{I: t.I, Name: t.Name, Tier: t.Tier, Seed: t.Seed, Dir: t.Dir, parent: t}
	if t.parent != nil {
		f.parent = t.parent
	}
	t.mu.Lock()
	f.R = newRand(t.R.Int63())
	t.mu.Unlock()
	return f
}

// sortCases makes the order of cases independent of map iteration.
func sortCases(c []Case) { sort.Slice(c, func(i, j int) bool { return c[i].Name < c[j].Name }) }

func gobEncode(w io.Writer, v interface{}) error { return gob.NewEncoder(w).Encode(v) }

func sortStrings(s []string) { sort.Strings(s) }

// lockedSource can be used by several goroutines.
type lockedSource struct {
	mu  sync.Mutex
	src rand.Source64
}

func newRand(seed int64) *rand.Rand {
	return rand.New(&lockedSource{src: rand.NewSource(seed).(rand.Source64)})
}

func (s *lockedSource) Int63() int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.src.Int63()
}

func (s *lockedSource) Uint64() uint64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.src.Uint64()
}

func (s *lockedSource) Seed(seed int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.src.Seed(seed)
}
