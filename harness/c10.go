package main

import (
	"fmt"

	"go.dedis.ch/onet/v3/network"
	"go.dedis.ch/protobuf"
)

func protobufConstructors() protobuf.Constructors { return network.DefaultConstructors(suite) }

func init() {
	register(&Check{
		ID:    "C10",
		NetNS: true,
		Rule:  "a case runs surveys on real servers (1-5 of the cluster's servers, any of them as entry): random sums, counts, where values, predicates (and/or/not/cross comparisons), group-bys and data, encrypted, in the clear or mixed, split over any number of submissions to any servers; the querier's answer, opened with its key, is compared with the query evaluated in the clear; an evaluation is one survey, non-trivial when it has at least two responses and an answer (distinct by query, data and roster)",
		Assumptions: []string{
			"attribute values and totals lie in the range the decryption supports",
			"where possible the worker has a loopback network of its own and part of the surveys goes through the real client library and websockets; otherwise all go through the servers' client handlers directly",
		},
		Cases: c10Cases,
	})
}

type c10Case struct {
	n, k    int // servers, roster size (0: random)
	surveys int
	shape   surveyShape
	random  bool // vary the shape
	ws      bool
	sched   string
	par     bool
	wide    bool
}

func (c c10Case) run(t *T) {
	cl := getSCluster(c.n, c.ws)
	for i := 0; i < c.surveys; i++ {
		sh := c.shape
		if c.random {
			sh = randShape(t, sh)
		}
		k := c.k
		if k == 0 {
			k = 1 + t.R.Intn(c.n)
		}
		members := randMembers(t.R, c.n, k)
		q := sh.query(t.R)
		s := cl.newSurvey(q, members, members[t.R.Intn(k)], c.ws)
		if s.useAPI {
			sh.neg = false
		}
		s.subs = sh.data(t.R, q, members)
		s.dup = sh.dup
		sc := newSched(t.R, c.sched, nil)
		ok := s.run(t, "answer", c.par && t.R.Intn(2) == 0)
		sig := sc.done(t)
		ans := q.answer(s.subs)
		rows := 0
		for _, x := range s.subs {
			rows += len(x.resps)
		}
		t.Seen("roster_sizes", fmt.Sprint(k))
		t.Seen("queries", q.String())
		if s.useAPI {
			t.Count("surveys_through_the_real_client", 1)
		}
		if len(ans) > 0 && rows > 1 {
			t.Nontrivial("%s %v %s %s", q, members, answerString(ans), sig)
		} else {
			t.Trivial()
		}
		if !ok {
			return
		}
		if i == 0 {
			t.Sample("%s; %d servers, %d submissions, %d responses -> %s", q, k, len(s.subs), rows, trim(answerString(ans), 200))
		}
	}
}

func randShape(t *T, sh surveyShape) surveyShape {
	r := t.R
	sh.sums = r.Intn(4)
	sh.count = r.Intn(3) == 0
	if sh.sums == 0 && !sh.count {
		sh.sums = 1
	}
	sh.where = r.Intn(4)
	sh.pred = r.Intn(4) > 0
	sh.cross = r.Intn(2) == 0
	sh.groups = r.Intn(4)
	sh.mode = append([]string{"per-dp", "per-row"}, encModes...)[r.Intn(2+len(encModes))]
	sh.rows = 1 + r.Intn(4)
	sh.subs = r.Intn(7)
	sh.neg = r.Intn(3) == 0
	sh.one = r.Intn(5) == 0
	sh.domain = []int64{1, 2, 3, 12, 150}[r.Intn(5)]
	if r.Intn(5) == 0 {
		sh.names = "odd"
	}
	sh.dup = r.Intn(3) == 0
	return sh
}

func c10Cases(tier string, seed int64) []Case {
	var out []Case
	add := func(name string, cost float64, c c10Case) {
		out = append(out, Case{Name: name, Cost: cost, Run: c.run})
	}
	mult := 3
	if tier == "thorough" {
		mult = 40
	}
	for i := 0; i < 8*mult; i++ {
		add(fmt.Sprintf("random/%d", i), 3, c10Case{n: 2 + i%4, surveys: 8, random: true, par: true, sched: schedModes[i%len(schedModes)]})
	}
	for i := 0; i < 3*mult; i++ {
		add(fmt.Sprintf("proofs/%d", i), 4, c10Case{n: 2 + i%2, surveys: 2, random: true, par: true, sched: "none", shape: surveyShape{proofs: true}})
	}
	for i := 0; i < 4*mult; i++ {
		add(fmt.Sprintf("client/%d", i), 3, c10Case{n: 2 + i%3, surveys: 5, random: true, par: true, ws: true, sched: schedModes[i%len(schedModes)]})
	}
	// corners
	base := surveyShape{sums: 2, where: 1, groups: 1, pred: true, mode: "enc", rows: 2, subs: 4, domain: 3}
	corner := func(name string, f func(*surveyShape)) {
		sh := base
		f(&sh)
		add("corner/"+name, 1.5, c10Case{n: 3, surveys: 2 * minInt(mult, 12), shape: sh, sched: "jitter"})
	}
	corner("no-data", func(s *surveyShape) { s.subs = 0 })
	corner("empty-submissions", func(s *surveyShape) { s.rows = 0 })
	corner("one-response", func(s *surveyShape) { s.subs, s.rows = 1, 1 })
	corner("one-response-clear", func(s *surveyShape) { s.subs, s.rows, s.mode = 1, 1, "clear" })
	corner("one-response-each", func(s *surveyShape) { s.subs, s.rows, s.count = 3, 1, true })
	corner("clear", func(s *surveyShape) { s.mode = "clear"; s.rows = 5 })
	corner("clear-same-group", func(s *surveyShape) { s.mode, s.domain, s.rows = "clear", 1, 6 })
	corner("same-ciphertexts", func(s *surveyShape) { s.dup, s.rows, s.subs, s.domain = true, 1, 8, 1 })
	corner("same-clear-ciphertexts", func(s *surveyShape) { s.dup, s.rows, s.subs, s.domain, s.mode = true, 2, 8, 2, "clear" })
	add("corner/many-responses", 4, c10Case{n: 2, surveys: 2, sched: "jitter", shape: surveyShape{sums: 1, where: 1, groups: 1, pred: true, mode: "per-dp", rows: 70, subs: 6, one: true, domain: 3}})
	add("corner/many-kept-groups", 4, c10Case{n: 3, surveys: 1 + mult/20, sched: "jitter", shape: surveyShape{sums: 1, groups: 2, mode: "per-dp", rows: 60, subs: 8, domain: 1000}})
	corner("no-group", func(s *surveyShape) { s.groups = 0 })
	corner("count-only", func(s *surveyShape) { s.sums, s.count = 0, true })
	corner("no-where", func(s *surveyShape) { s.where = 0 })
	corner("where-no-predicate", func(s *surveyShape) { s.pred = false; s.where = 2 })
	corner("many-groups", func(s *surveyShape) { s.groups, s.domain, s.rows, s.subs = 3, 1000, 6, 6 })
	corner("many-where", func(s *surveyShape) { s.where, s.cross = 5, true })
	corner("no-sums", func(s *surveyShape) { s.sums, s.groups = 0, 2 })
	corner("no-sums-filter", func(s *surveyShape) { s.sums, s.groups, s.where, s.proofs = 0, 1, 2, true })
	corner("very-many-where", func(s *surveyShape) { s.where, s.cross, s.rows, s.subs = 24, true, 1, 3 })
	corner("one-response-each-proofs", func(s *surveyShape) { s.subs, s.rows, s.count, s.where, s.proofs = 3, 1, true, 0, true })
	corner("one-response-proofs", func(s *surveyShape) { s.subs, s.rows, s.where, s.proofs = 1, 1, 0, true })
	corner("clear-proofs", func(s *surveyShape) { s.mode, s.domain, s.rows, s.subs, s.proofs = "clear", 2, 2, 3, true })
	corner("many-sums", func(s *surveyShape) { s.sums = 12 })
	corner("many-submissions", func(s *surveyShape) { s.subs, s.rows, s.one, s.mode = 130, 1, true, "clear" })
	corner("120-rows", func(s *surveyShape) { s.subs, s.rows, s.one, s.where = 1, 120, true, 0 })
	return out
}
