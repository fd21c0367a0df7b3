package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register(&Check{
		ID:          "C11",
		NetNS:       true,
		Rule:        "a case runs several surveys at the same time on the same servers (own or common querier, same or different entry servers and rosters, data providers submitting at once, phases free-running or lined up at barriers, protocol messages delayed); every one must finish and its answer, opened with its querier's key, must be its own query evaluated in the clear on its own data; an evaluation is one survey, non-trivial when it overlapped another one and has an answer",
		Assumptions: []string{"a survey is asked for its results once", "termination is judged by progress: a worker in which nothing moves for 45 s while work is outstanding counts as blocked"},
		Cases:       c11Cases,
	})
}

type c11Case struct {
	n, surveys int
	ws         bool
	sched      string
	proofs     bool
	barrier    bool // all surveys line up between the phases
	entry      string
	oneKey     bool
	heavyDP    bool // many data providers at once
	same       bool // same query for all (only the data differs)
	rounds     int
}

func (c c11Case) run(t *T) {
	cl := getSCluster(c.n, c.ws)
	for round := 0; round < c.rounds; round++ {
		sc := newSched(t.R, c.sched, nil)
		surveys := make([]*survey, c.surveys)
		var first *squery
		sk, pk := newKey()
		for i := range surveys {
			sh := randShape(t, surveyShape{proofs: c.proofs})
			if c.heavyDP {
				sh.subs, sh.rows = 12, 2
			}
			if c.proofs {
				sh.subs, sh.rows = minInt(sh.subs, 3), minInt(sh.rows, 2)
			}
			k := c.n
			if t.R.Intn(3) == 0 {
				k = 1 + t.R.Intn(c.n)
			}
			members := randMembers(t.R, c.n, k)
			entry := members[t.R.Intn(k)]
			if c.entry == "same" {
				entry = 0
				if !hasInt(members, 0) {
					members = append(members, 0)
				}
			}
			q := sh.query(t.R)
			if c.same {
				if first == nil {
					first = q
				}
				q = first
			}
			surveys[i] = cl.newSurvey(q, members, entry, c.ws && i%2 == 0)
			if c.oneKey && !surveys[i].useAPI {
				surveys[i].sk, surveys[i].pk = sk, pk
			}
			if surveys[i].useAPI {
				sh.neg = false
			}
			surveys[i].subs, surveys[i].dup = sh.data(t.R, q, members), sh.dup
		}
		var wg sync.WaitGroup
		bar := newBarrier(c.surveys)
		var running, maxRunning int64
		var log evlog
		for i := range surveys {
			wg.Add(1)
			go func(i int, f *T) {
				defer wg.Done()
				s := surveys[i]
				line := func() {
					if c.barrier {
						bar.wait()
					} else {
						nap(f.R)
					}
				}
				if n := atomic.AddInt64(&running, 1); n > atomic.LoadInt64(&maxRunning) {
					atomic.StoreInt64(&maxRunning, n)
				}
				defer atomic.AddInt64(&running, -1)
				bad := false
				line()
				log.add(i, "create")
				if err := s.create(); !f.Check(err == nil, "refused", "creation refused: %v (%s)", err, s.q) {
					bad = true
				}
				line()
				log.add(i, "submit")
				if !bad {
					bad = !s.submitAll(f, c.barrier)
				}
				line()
				log.add(i, "ask")
				if bad {
					return
				}
				rs, err := s.results()
				log.add(i, "answer")
				if !f.Check(err == nil, "refused", "results query failed: %v (%s)", err, s.q) {
					return
				}
				f.Count("surveys", 1)
				ok := s.judge(f, "answer", rs, s.subs)
				if ok && len(rs) > 0 {
					f.Nontrivial("%d %s %v %s", i, s.q, s.members, resultString(rs))
				} else {
					f.Trivial()
				}
			}(i, t.fork())
		}
		wg.Wait()
		sc.done(t)
		t.Seen("interleavings_of_the_surveys_phases", log.String())
		t.Seen("surveys_at_once", fmt.Sprint(maxRunning))
	}
}

// submitAll submits everything at once (or in random order with pauses).
func (s *survey) submitAll(t *T, burst bool) bool {
	var wg sync.WaitGroup
	var bad int32
	for _, k := range t.R.Perm(len(s.subs)) {
		wg.Add(1)
		go func(k int, f *T) {
			defer wg.Done()
			if !burst {
				nap(f.R)
			}
			if err := s.submit(s.subs[k]); !f.Check(err == nil, "refused", "submission refused: %v (%s)", err, s.q) {
				atomic.StoreInt32(&bad, 1)
			}
		}(k, t.fork())
	}
	wg.Wait()
	t.Count("submissions", int64(len(s.subs)))
	return bad == 0
}

func nap(r *rand.Rand) { time.Sleep(time.Duration(r.Int63n(int64(15 * time.Millisecond)))) }

func hasInt(a []int, x int) bool {
	for _, v := range a {
		if v == x {
			return true
		}
	}
	return false
}

// evlog records the order of events.
type evlog struct {
	mu sync.Mutex
	l  []string
}

func (e *evlog) add(i int, what string) {
	e.mu.Lock()
	e.l = append(e.l, fmt.Sprint(what[:1], i))
	e.mu.Unlock()
}

func (e *evlog) String() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return strings.Join(e.l, " ")
}

// barrier lets n goroutines wait for each other, any number of times.
type barrier struct {
	mu   sync.Mutex
	c    *sync.Cond
	n    int
	in   int
	turn int
}

func newBarrier(n int) *barrier {
	b := &barrier{n: n}
	b.c = sync.NewCond(&b.mu)
	return b
}

func (b *barrier) wait() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.in++
	turn := b.turn
	if b.in == b.n {
		b.in = 0
		b.turn++
		b.c.Broadcast()
		return
	}
	for turn == b.turn {
		b.c.Wait()
	}
}

func c11Cases(tier string, seed int64) []Case {
	var out []Case
	add := func(c c11Case) {
		c.rounds = 2
		if tier == "thorough" {
			c.rounds = 25
		}
		if c.proofs {
			c.rounds = (c.rounds + 1) / 2
		}
		name := fmt.Sprintf("%d servers, %d surveys, %s, entry %s, barrier %v, proofs %v, client %v, one key %v, same query %v, many dps %v", c.n, c.surveys, c.sched, c.entry, c.barrier, c.proofs, c.ws, c.oneKey, c.same, c.heavyDP)
		cost := float64(c.n*c.surveys*c.rounds) * 0.1
		if c.proofs {
			cost *= 4
		}
		out = append(out, Case{Name: name, Cost: cost, Run: c.run})
	}
	for i, sched := range schedModes {
		for _, n := range []int{2, 3, 5} {
			add(c11Case{n: n, surveys: 4 + (i+n)%5, sched: sched, entry: []string{"any", "same"}[(i+n)%2], barrier: (i+n)%3 == 0, oneKey: i%2 == 0, same: n == 3})
		}
		add(c11Case{n: 3, surveys: 4, sched: sched, entry: "any", ws: true, barrier: i%2 == 0})
		add(c11Case{n: 3, surveys: 3, sched: sched, entry: "any", heavyDP: true, barrier: true})
	}
	add(c11Case{n: 2, surveys: 3, sched: "none", entry: "any", proofs: true, barrier: true})
	add(c11Case{n: 3, surveys: 2, sched: "jitter", entry: "any", proofs: true})
	add(c11Case{n: 4, surveys: 16, sched: "none", entry: "any", barrier: true})
	add(c11Case{n: 5, surveys: 14, sched: "none", entry: "any", barrier: true, heavyDP: true})
	add(c11Case{n: 5, surveys: 14, sched: "jitter", entry: "any", barrier: true})
	add(c11Case{n: 3, surveys: 18, sched: "none", entry: "any", barrier: true, same: true})
	add(c11Case{n: 3, surveys: 12, sched: "coarse", entry: "same", barrier: true, ws: true})
	return out
}
