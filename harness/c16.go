package main

import (
	"fmt"
	"sync"
	"time"

	"go.dedis.ch/onet/v3"
)

func init() {
	register(&Check{
		ID:    "C16",
		Rule:  "a case creates instances of the four single-server protocols on the roots of trees of 1-3 real servers, each with its own generated input, starts them alone or many at once in a random order, with callers that read late and with instances that are created and never started or whose result nobody reads, and compares what each caller gets with the oracle's sums, plaintexts and verdicts for its own input; an evaluation is one instance judged, non-trivial when its input is not empty (distinct by kind, size and surroundings)",
		Cases: c16Cases,
	})
}

var utilKinds = []string{"aggregation", "clear", "both", "add-rm", "proofs"}

// utilInstance makes an instance (or, for "both", the two aggregations of
// the same data) of the kind.
func utilInstance(t *T, kind string, n int, what string) []*utilJob {
	cl := getCluster(1 + t.R.Intn(3))
	ro, tr := cl.distinctTree(treeKinds[t.R.Intn(len(treeKinds))], t.R, map[onet.TreeID]bool{})
	sk, pub := newKey()
	switch kind {
	case "aggregation":
		return []*utilJob{aggrJob(t, cl, tr, sk, pub, randRows(t, n, t.R.Intn(3), 1+t.R.Intn(4), 0), t.R.Intn(3) == 0, what)}
	case "clear":
		return []*utilJob{clearJob(t, cl, tr, randRows(t, n, t.R.Intn(4), 1+t.R.Intn(4), t.R.Intn(4)), what)}
	case "both":
		l := randRows(t, n, 1+t.R.Intn(2), 1+t.R.Intn(3), t.R.Intn(3))
		return []*utilJob{aggrJob(t, cl, tr, sk, pub, l, t.R.Intn(3) == 0, what), clearJob(t, cl, tr, l, what)}
	case "add-rm":
		r := newRekey(t, n, "mixed")
		k, _ := newKey()
		j, _ := armJob(t, cl, tr, r.sk, k, r.cv, r.ms, t.R.Intn(2) == 0, t.R.Intn(3) == 0, what)
		return []*utilJob{j}
	}
	return []*utilJob{proofJob(t, cl, ro, tr, minInt(n, 6+8*t.R.Intn(2)), what)}
}

func utilEval(t *T, kind string, j *utilJob, where string) {
	if j.size > 0 {
		t.Nontrivial("%s/%d/%s", kind, j.size, where)
	} else {
		t.Trivial()
	}
	t.Count("instances of "+kind, 1)
}

func c16Alone(t *T, kind string, n int) {
	for _, j := range utilInstance(t, kind, n, "alone") {
		j.run(t, 0)
		utilEval(t, kind, j, "alone")
	}
}

// c16Pool runs m instances at once. dead of them are never started, mute of
// them have no reader.
func c16Pool(t *T, kinds []string, m, size, dead, mute int) {
	type in struct {
		kind string
		job  *utilJob
		t    *T
		role string
	}
	var all []in
	for i := 0; i < m; i++ {
		f := t.fork()
		kind := kinds[i%len(kinds)]
		for _, j := range utilInstance(f, kind, t.R.Intn(size+1), fmt.Sprintf("%d at once, %d never started, %d unread", m, dead, mute)) {
			role := "live"
			if i < dead {
				role = "dead"
			} else if i < dead+mute {
				role = "mute"
			}
			all = append(all, in{kind, j, f, role})
		}
	}
	bar := newBarrier(len(all))
	var wg sync.WaitGroup
	for _, i := range t.R.Perm(len(all)) {
		x, pause := all[i], time.Duration(t.R.Intn(4)*t.R.Intn(8))*time.Millisecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			bar.wait()
			switch x.role {
			case "live":
				x.job.run(x.t, pause)
			case "mute":
				go func() { _ = x.job.start() }()
			}
		}()
	}
	wg.Wait()
	for i, x := range all {
		if x.role == "live" {
			utilEval(t, x.kind, x.job, fmt.Sprintf("pool of %d/%d/%d/%d", m, dead, mute, i))
		} else {
			t.Count("instances "+x.role, 1)
		}
	}
}

func c16Cases(tier string, seed int64) []Case {
	var out []Case
	sizes := []int{0, 1, 2, 13, 120}
	reps := 1
	if tier == "thorough" {
		sizes = []int{0, 1, 2, 3, 5, 8, 13, 30, 99, 100, 101, 120, 300}
		reps = 8
	}
	for rep := 0; rep < reps; rep++ {
		for _, kind := range utilKinds {
			for _, n := range sizes {
				kind, n := kind, n
				out = append(out, Case{Name: fmt.Sprintf("alone-%s-%d-%d", kind, n, rep), Cost: 0.3 + float64(n)*0.01, Run: func(t *T) {
					for i := 0; i < 3; i++ {
						c16Alone(t, kind, n)
					}
				}})
			}
			for _, m := range []int{2, 6, 16} {
				kind, m := kind, m
				out = append(out, Case{Name: fmt.Sprintf("pool-%s-%d-%d", kind, m, rep), Cost: 1 + float64(m)*0.2, Procs: 4, Run: func(t *T) {
					c16Pool(t, []string{kind}, m, 20, 0, 0)
					c16Pool(t, []string{kind}, m+2, 8, 1, 1)
				}})
			}
		}
		out = append(out, Case{Name: fmt.Sprintf("long-lists-%d", rep), Cost: 4, Run: func(t *T) {
			for _, n := range []int{101, 130 + t.R.Intn(80)} {
				cl := getCluster(1 + t.R.Intn(4))
				ro, tr := cl.distinctTree(treeKinds[t.R.Intn(len(treeKinds))], t.R, map[onet.TreeID]bool{})
				j := proofJob(t, cl, ro, tr, n, "long lists, the last proof of each bad")
				j.run(t, 0)
				utilEval(t, "proofs", j, "long")
			}
		}})
		for _, m := range []int{5, 15, 40} {
			m := m
			out = append(out, Case{Name: fmt.Sprintf("mixed-%d-%d", m, rep), Cost: 2 + float64(m)*0.2, Procs: 4, Run: func(t *T) {
				c16Pool(t, utilKinds, m, 12, m/5, m/5)
				c16Pool(t, utilKinds, m, 40, 0, 0)
			}})
		}
	}
	return out
}
