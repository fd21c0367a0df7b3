package main

import (
	"fmt"
	"math"
	"sort"
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxdiffprivacy "github.com/ldsec/unlynx/lib/differential_privacy"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func init() {
	register(&Check{
		ID:          "C17",
		NetNS:       true,
		Rule:        "a case generates noise lists over a grid and at random (size, mean, scale parameter, quanta, scaling, limit; within a time bound) and compares the multiset of values with an oracle's own frequencies; shuffles noise lists over real servers and compares the opened result as a multiset; adds noise to stored aggregates; runs surveys in a build with differential privacy switched on, opens the noise on the wire and compares every released total with the exact one; an evaluation is one list, one shuffle or one survey, non-trivial when the list has at least two values",
		Assumptions: []string{"parameters with a size below zero, a scale or scale parameter not above zero, or a negative or infinite one are not accepted by the interface", "differential privacy is a constant of the code: the surveys run in a build that replaces it, all else being equal"},
		Cases:       c17Cases,
	})
}

type noiseParams struct {
	n                             int64
	mean, b, quanta, scale, limit float64
}

func (p noiseParams) String() string {
	return fmt.Sprintf("n %d mean %g b %g quanta %g scale %g limit %g", p.n, p.mean, p.b, p.quanta, p.scale, p.limit)
}

// pdf is the requested density at the k-th step away from the mean.
func (p noiseParams) pdf(k int) float64 {
	return math.Exp(-float64(k)/p.scale/p.b) / (2 * p.b)
}

// steps gives the possible values of the quanta: what was asked, or the mass
// below the limit shared by n (with the limit itself or not).
func (p noiseParams) quantas() []float64 {
	if p.quanta > 0 {
		return []float64{p.quanta}
	}
	if p.limit <= 0 {
		return nil
	}
	sum := 0.0
	k := 0
	for ; float64(k)/p.scale < p.limit; k++ {
		if k == 0 {
			sum = p.pdf(0)
		} else {
			sum += 2 * p.pdf(k)
		}
	}
	out := []float64{sum / float64(p.n)}
	if d := math.Abs(float64(k)/p.scale - p.limit); d < 1e-6 {
		out = append(out, (sum+2*p.pdf(k))/float64(p.n))
	} else if d := math.Abs(float64(k-1)/p.scale - p.limit); d < 1e-6 && k > 1 {
		out = append(out, (sum-2*p.pdf(k-1))/float64(p.n))
	}
	return out
}

// near: c copies are right for the ratio x of density to quanta.
func near(c int, x float64) bool {
	lo, hi := math.Ceil(x*(1-1e-7)), math.Ceil(x*(1+1e-7))
	if lo < 1 {
		lo = 1
	}
	if hi < 1 {
		hi = 1
	}
	return float64(c) >= lo && float64(c) <= hi
}

// judgeNoise compares a list with the requested distribution.
func judgeNoise(t *T, p noiseParams, list []float64) {
	if !t.Check(int64(len(list)) == p.n, "size", "%d values (%s)", len(list), p) {
		return
	}
	if p.n == 0 {
		return
	}
	plus, minus := map[int]int{}, map[int]int{}
	max := 0
	for i, v := range list {
		off := v - p.mean*p.scale
		k := int(math.Round(math.Abs(off)))
		if !t.Check(math.Abs(math.Abs(off)-float64(k)) < 1e-6*(1+math.Abs(v)), "grid", "value %d, %g, is no step of one from the scaled mean %g (%s)", i, v, p.mean*p.scale, p) {
			return
		}
		if k > max {
			max = k
		}
		if off >= 0.5 {
			plus[k]++
		} else if off <= -0.5 {
			minus[k]++
		} else {
			plus[0]++
		}
	}
	if p.quanta == 0 && p.limit > 0 {
		t.Check(float64(max)/p.scale <= p.limit+1e-9, "limit", "a value lies %g from the mean (%s)", float64(max)/p.scale, p)
	}
	// centred: as many above as below, up to the one value that the size cuts off
	for k := 1; k <= max; k++ {
		d := plus[k] - minus[k]
		if k < max {
			t.Check(d == 0, "centre", "%d values %d above the mean, %d as far below (%s)", plus[k], k, minus[k], p)
		} else {
			t.Check(d >= -1 && d <= 1, "centre", "%d values %d above the mean, %d as far below (%s)", plus[k], k, minus[k], p)
		}
	}
	// frequencies
	qs := p.quantas()
	if qs == nil {
		for k := 1; k < max; k++ {
			t.Check(plus[k] <= plus[k-1], "frequency", "%d values at %d, %d at %d (%s)", plus[k], k, plus[k-1], k-1, p)
		}
		return
	}
	bad := ""
	for _, q := range qs {
		bad = ""
		for k := 0; k <= max && bad == ""; k++ {
			x := p.pdf(k) / q
			if k < max && !near(plus[k], x) || k == max && float64(plus[k]) > math.Max(1, math.Ceil(x*(1+1e-7))) {
				bad = fmt.Sprintf("%d values at distance %d of %d, the density is %g quanta", plus[k], k, max, x)
			}
		}
		if bad == "" {
			break
		}
	}
	t.Check(bad == "", "frequency", "%s (%s)", bad, p)
}

func noiseList(t *T, p noiseParams) ([]float64, bool) {
	ch := make(chan []float64, 1)
	go func() {
		var l []float64
		if e := noPanic(func() {
			if p.scale == 1 && t != nil && p.n%2 == 0 {
				l = libunlynxdiffprivacy.GenerateNoiseValues(p.n, p.mean, p.b, p.quanta, p.limit)
			} else {
				l = libunlynxdiffprivacy.GenerateNoiseValuesScale(p.n, p.mean, p.b, p.quanta, p.scale, p.limit)
			}
		}); e != "" {
			l = nil
			ch <- []float64{math.NaN()}
			return
		}
		ch <- l
	}()
	select {
	case l := <-ch:
		if len(l) == 1 && math.IsNaN(l[0]) {
			t.Fail("panic", "generation panics (%s)", p)
			return nil, false
		}
		return l, true
	case <-time.After(20 * time.Second):
		t.Fail("hang", "no list after 20 s (%s)", p)
		return nil, false
	}
}

func c17List(t *T, p noiseParams) {
	l, ok := noiseList(t, p)
	if !ok {
		return
	}
	judgeNoise(t, p, l)
	t.Count("noise_values", int64(len(l)))
	if p.n > 1 {
		t.Nontrivial("list/%s", p)
	} else {
		t.Trivial()
	}
}

func c17Random(t *T) noiseParams {
	f := func(l ...float64) float64 { return l[t.R.Intn(len(l))] }
	p := noiseParams{n: int64(f(0, 1, 2, 3, 7, 50, 500, 1000, 3001)), mean: f(0, 0, 0, 1, -3, 2.5, 40), b: f(0.01, 0.1, 0.5, 1, 2, 7.3, 30), quanta: f(0, 0, 0.0007, 0.005, 0.1, 1, 20), scale: f(1, 1, 0.5, 2, 10, 100), limit: f(0, 0.4, 1, 9.97, 60, 200)}
	if t.R.Intn(2) == 0 {
		p.b, p.n = math.Exp(t.R.Float64()*7-3), int64(t.R.Intn(2000))
		if p.quanta > 0 {
			p.quanta = math.Exp(t.R.Float64()*10 - 9)
		}
	}
	return p
}

// --- the list on its way into a survey ---------------------------------------

func noiseInts(l []float64) []int64 {
	out := make([]int64, len(l))
	for i := range l {
		out[i] = int64(math.Round(l[i]))
	}
	return out
}

func sortedInts(l []int64) []int64 {
	l = append([]int64{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func openCuts(sk kyber.Scalar, l []wct) []int64 {
	var out []int64
	for _, w := range l {
		c := w.ct()
		out = append(out, open(sk, &c))
	}
	return out
}

// c17Shuffle shuffles a noise list as a survey would.
func c17Shuffle(t *T, nc netCase, p noiseParams) {
	list, ok := noiseList(t, p)
	if !ok {
		return
	}
	vals := noiseInts(list)
	cl, ro, tr := nc.build(t)
	var in []libunlynx.CipherVector
	for _, v := range vals {
		in = append(in, libunlynx.IntArrayToCipherVector([]int64{v}))
	}
	s := newSched(t.R, nc.sched, nil)
	pi := cl.create("Shuffling", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
		q := pi.(*protocolsunlynx.ShufflingProtocol)
		if tni.IsRoot() {
			q.ShuffleTarget = &in
		}
		q.Proofs = nc.proofs
		q.ProofFunc = func(a, b []libunlynx.CipherVector, k kyber.Point, beta [][]kyber.Scalar, pi []int) *libunlynxshuffle.PublishedShufflingProof {
			return nil
		}
	})
	q := pi.(*protocolsunlynx.ShufflingProtocol)
	go func() { must(q.Start()) }()
	out := <-q.FeedbackChannel
	sig := s.done(t)
	var got []int64
	for _, v := range out {
		if !t.Check(len(v) == 1, "permutation", "a row of %d values (%s)", len(v), nc) {
			return
		}
		got = append(got, open(cl.secret(), &v[0]))
	}
	t.Check(eqInts(sortedInts(got), sortedInts(vals)), "permutation", "the shuffled noise is no permutation of the list (%s; %s)", nc, p)
	_ = ro
	if distinctInts(vals) > 20 {
		t.Check(!eqInts(got, vals), "order", "the noise comes out in the order of the list (%s; %s)", nc, p)
	}
	t.Count("shuffled_noise", int64(len(got)))
	t.Nontrivial("shuffle/%v/%s/%s", nc, p, sig)
}

func distinctInts(l []int64) int {
	m := map[int64]bool{}
	for _, v := range l {
		m[v] = true
	}
	return len(m)
}

// c17Store: the noise enters each stored total once.
func c17Store(t *T) {
	sk, pub := newKey()
	st := libunlynxstore.NewStore()
	groups, width := 1+t.R.Intn(5), 1+t.R.Intn(4)
	want := map[string][]int64{}
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for g := 0; g < groups; g++ {
		v := mixedInts(t, width)
		want[fmt.Sprint(g)] = v
		m[libunlynx.GroupingKey(fmt.Sprint("k", g))] = libunlynx.FilteredResponse{GroupByEnc: t.encVec(pub, []int64{int64(g)}), AggregatingAttributes: t.encVec(pub, v)}
	}
	noise := t.R.Int63n(200) - 100
	ct := encWith(pub, noise)
	nb := ctBytes(&ct)
	on, late := t.R.Intn(3) > 0, t.R.Intn(2) == 0
	var res []libunlynx.FilteredResponse
	if late {
		var l []libunlynx.FilteredResponse
		for _, v := range m {
			l = append(l, v)
		}
		st.PushQuerierKeyEncryptedResponses(l)
		res = st.PullDeliverableResults(on, ct)
	} else {
		st.PushCothorityAggregatedFilteredResponses(m)
		res = st.PullCothorityAggregatedFilteredResponses(on, ct)
	}
	if !on {
		noise = 0
	}
	t.Check(len(res) == groups, "store", "%d totals of %d", len(res), groups)
	for _, r := range res {
		g := fmt.Sprint(open(sk, &r.GroupByEnc[0]))
		got := openVec(sk, r.AggregatingAttributes)
		for j := range got {
			if w := want[g]; t.Check(j < len(w), "store", "group %s has %d totals", g, len(got)) {
				t.Check(got[j] == w[j]+noise, "store", "total %d becomes %d with the noise %d (on %v, late %v)", w[j], got[j], noise, on, late)
			}
		}
	}
	t.Check(ctBytes(&ct) == nb, "store", "the noise is changed by its use")
	t.Nontrivial("store/%d/%d/%d/%v/%v", groups, width, noise, on, late)
}

// c17Survey runs in a build with differential privacy.
func c17Survey(t *T, sh surveyShape, members []int, mode string) {
	cl := getSCluster(4, false)
	q := sh.query(t.R)
	s := cl.newSurvey(q, members, members[t.R.Intn(len(members))], false)
	s.subs = sh.data(t.R, q, members)
	sk := cl.secret(members)
	var mu sync.Mutex
	var lists [][]wct
	dro := map[string]bool{} // runs that the root sends under this name
	hook := func(proto string, info *onet.OverlayMsg, msg interface{}, buf []byte) {
		mu.Lock()
		defer mu.Unlock()
		id := fmt.Sprint(info.TreeNodeInfo.From.RoundID)
		if proto == protocolsunlynx.DROProtocolName {
			dro[id] = true
		}
		if m, ok := msg.(*protocolsunlynx.ShufflingBytesMessage); ok && dro[id] {
			lists = append(lists, cut(append([]byte{}, m.Data...)))
		}
	}
	sc := newSched(t.R, mode, hook)
	what := fmt.Sprintf("survey with noise, %s, roster %v", sh, members)
	if err := s.create(); !t.Check(err == nil, "survey", "%s: creation refused: %v", what, err) {
		return
	}
	for i := range s.subs {
		if err := s.submit(s.subs[i]); !t.Check(err == nil, "survey", "%s: submission refused: %v", what, err) {
			return
		}
	}
	rs, err := s.results()
	sig := sc.done(t)
	if !t.Check(err == nil, "survey", "%s: results query failed: %v", what, err) {
		return
	}
	want := q.answer(s.subs)
	ref := sortedInts(noiseInts(libunlynxdiffprivacy.GenerateNoiseValues(1000, 0, 1, 0.1, 0)))
	in := map[int64]bool{}
	for _, v := range ref {
		in[v] = true
	}
	t.Check(len(lists) == len(members), "permutation", "%s: %d messages of noise between %d servers", what, len(lists), len(members))
	for i, l := range lists {
		if i > 0 && i < len(lists)-1 {
			continue // costly to open
		}
		got := openCuts(sk, l)
		t.Check(eqInts(sortedInts(got), ref), "permutation", "%s: the noise after shuffle %d is no permutation of the list (%d values)", what, i, len(got))
		t.Check(!eqInts(got, noiseInts(libunlynxdiffprivacy.GenerateNoiseValues(1000, 0, 1, 0.1, 0))), "order", "%s: the noise after shuffle %d is in the order of the list", what, i)
		t.Count("noise_values_on_the_wire", int64(len(got)))
	}
	groups := map[string]bool{}
	for _, r := range rs {
		g := fmt.Sprint(r.group)
		groups[g] = true
		var w []int64
		found := false
		for k, v := range want {
			if k == g {
				w, found = v, true
			}
		}
		if !t.Check(found && len(w) == len(r.totals), "total", "%s: the answer has a group %s with %d totals", what, g, len(r.totals)) {
			continue
		}
		for j := range w {
			d := r.totals[j] - w[j]
			t.Check(in[d], "total", "%s: a total of %d is released as %d: %d is no value of the noise list", what, w[j], r.totals[j], d)
			t.Count("noised_totals", 1)
		}
	}
	t.Check(len(groups) == len(want), "total", "%s: %d groups of %d", what, len(groups), len(want))
	t.Nontrivial("survey/%v/%v/%s", sh, members, sig)
}

func c17Cases(tier string, seed int64) []Case {
	var out []Case
	rounds, surveys := 1, 3
	if tier == "thorough" {
		rounds, surveys = 40, 16
	}
	// grid
	var grid []noiseParams
	for _, n := range []int64{0, 1, 2, 3, 10, 501, 1000} {
		for _, mean := range []float64{0, 2, -1.5} {
			for _, b := range []float64{0.01, 0.5, 1, 30} {
				for _, quanta := range []float64{0, 0.005, 0.1, 3} {
					for _, scale := range []float64{1, 0.5, 100} {
						for _, limit := range []float64{0, 0.5, 9.97, 60} {
							grid = append(grid, noiseParams{n, mean, b, quanta, scale, limit})
						}
					}
				}
			}
		}
	}
	for part := 0; part < 4; part++ {
		part := part
		out = append(out, Case{Name: fmt.Sprintf("grid-%d", part), Cost: 1, Run: func(t *T) {
			for i := part; i < len(grid); i += 4 {
				c17List(t, grid[i])
			}
		}})
	}
	for i := 0; i < rounds; i++ {
		out = append(out, Case{Name: fmt.Sprintf("random-%d", i), Cost: 1, Run: func(t *T) {
			for j := 0; j < 400; j++ {
				c17List(t, c17Random(t))
			}
		}})
		out = append(out, Case{Name: fmt.Sprintf("store-%d", i), Cost: 0.5, Run: func(t *T) {
			for j := 0; j < 40; j++ {
				c17Store(t)
			}
		}})
	}
	ns := []int{1, 2, 3}
	if tier == "thorough" {
		ns = []int{1, 2, 3, 4, 5, 8}
	}
	for _, n := range ns {
		n := n
		out = append(out, Case{Name: fmt.Sprintf("shuffle-%d", n), Cost: float64(n), Run: func(t *T) {
			for i, p := range []noiseParams{{1000, 0, 1, 0.1, 1, 0}, {300, 0, 4, 0, 1, 20}, {60, 5, 1, 0.01, 1, 0}, {100, 0, 0.5, 0.005, 10, 0}, {2, 0, 1, 0.5, 1, 0}} {
				if i == 0 && n > 2 && tier != "thorough" {
					p.n = 300
				}
				c17Shuffle(t, netCase{n: n, kind: treeKinds[i%len(treeKinds)], size: int(p.n), sched: schedModes[(i+n)%len(schedModes)], perm: i%2 == 0, proofs: i == 3}, p)
			}
		}})
	}
	if libunlynx.DIFFPRI {
		for i := 0; i < surveys; i++ {
			for n := 1; n <= 4; n++ {
				i, n := i, n
				out = append(out, Case{Name: fmt.Sprintf("survey-%d-%d", n, i), Cost: 2 * float64(n), Run: func(t *T) {
					for j := 0; j < 3; j++ {
						sh := surveyShape{sums: 1 + t.R.Intn(3), groups: (i + j) % 3, where: j % 2, pred: j%2 == 1, count: t.R.Intn(3) == 0, proofs: tier == "thorough" && n == 2 && j == 0, mode: []string{"per-row", "per-dp"}[j%2], rows: 3, subs: 3, domain: 2}
						c17Survey(t, sh, randMembers(t.R, 4, n), schedModes[(i+n+j)%len(schedModes)])
					}
				}})
			}
		}
	} else {
		out = append(out, Case{Name: "surveys-not-built", Cost: 0.1, Run: func(t *T) {
			t.Count("surveys_skipped_no_build_with_differential_privacy", 1)
			t.Trivial()
		}})
	}
	return out
}
