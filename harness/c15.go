package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&Check{
		ID:    "C15",
		Rule:  "a case filters tagged responses and compares with an evaluation of the predicate, or runs submitters and pullers of a store concurrently and logs the start and the end of every call; the offline checker identifies every response in the pulls (a response that the store merges with others has an attribute of its own in the sum) and demands that each comes out once, in the first pull that starts after its insertion at the latest and in none that ended before it began, that no pull changes afterwards, and that groups and sums are exact; clear-text aggregation is compared with the oracle and with the encrypted route; an evaluation is one history or one aggregated data set, non-trivial when it has a response (histories distinct by order of calls)",
		Cases: c15Cases,
	})
}

// span is one call, in ticks of a shared counter.
type span struct{ from, to int64 }

type c15Clock struct{ n int64 }

func (c *c15Clock) tick() int64 { return atomic.AddInt64(&c.n, 1) }

// c15Sub is one submission.
type c15Sub struct {
	id     int
	merged bool // clear grouping and where attributes: the store may merge it
	grp    []int64
	whr    []int64
	slot   int // its own attribute in the sum of its group
	sp     span
	resp   libunlynx.DpResponse
}

// c15Pull is what one pull returned.
type c15Pull struct {
	sp   span
	got  []libunlynx.ProcessResponse
	snap string
}

func respDigest(l []libunlynx.ProcessResponse) string {
	s := ""
	for _, r := range l {
		s += vecBytes(r.GroupByEnc) + "|" + vecBytes(r.WhereEnc) + "|" + vecBytes(r.AggregatingAttributes) + "\n"
	}
	return s
}

// dpDigest is what a response holds before it is put in.
func dpDigest(r libunlynx.DpResponse) string {
	s := fmt.Sprint(r.WhereClear, r.GroupByClear, r.AggregatingAttributesClear)
	for i, m := range []map[string]libunlynx.CipherText{r.WhereEnc, r.GroupByEnc, r.AggregatingAttributesEnc} {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			c := m[k]
			s += fmt.Sprint(i, k) + ctBytes(&c)
		}
	}
	return s
}

// c15Inserts is one history of InsertDpResponse and PullDpResponses.
func c15Inserts(t *T, subs, pullers, per int, mode string, proofs bool) {
	sk, pub := newKey()
	nW, nG := t.R.Intn(3), t.R.Intn(3)
	if mode == "bare" {
		nW, nG = 0, 0
	}
	var where []libunlynx.WhereQueryAttribute
	var groupBy, sum []string
	for i := 0; i < nW; i++ {
		where = append(where, libunlynx.WhereQueryAttribute{Name: fmt.Sprint("w", i), Value: libunlynx.IntToCipherText(1)})
	}
	for i := 0; i < nG; i++ {
		groupBy = append(groupBy, fmt.Sprint("g", i))
	}
	total := subs * per
	// slots are dealt per group
	slots := map[string]int{}
	var all []*c15Sub
	for i := 0; i < total; i++ {
		s := &c15Sub{id: i}
		switch mode {
		case "clear", "bare":
			s.merged = true
		case "enc":
		default:
			s.merged = t.R.Intn(2) == 0
		}
		for j := 0; j < nG; j++ {
			s.grp = append(s.grp, []int64{0, 1, 12, 2, -1}[t.R.Intn(5)])
		}
		for j := 0; j < nW; j++ {
			s.whr = append(s.whr, []int64{0, 1, 23, 3}[t.R.Intn(4)])
		}
		k := fmt.Sprint(s.grp, s.whr)
		s.slot = slots[k]
		slots[k]++
		all = append(all, s)
	}
	width := 1
	for _, n := range slots {
		if n > width {
			width = n
		}
	}
	for i := 0; i < width; i++ {
		sum = append(sum, fmt.Sprint("s", i))
	}
	byBytes := map[string]*c15Sub{} // unmerged: by the bytes of what comes out
	byKey := map[string][]*c15Sub{} // merged: by group and where
	for _, s := range all {
		k := fmt.Sprint(s.grp, s.whr)
		s.resp = libunlynx.DpResponse{AggregatingAttributesClear: map[string]int64{}, AggregatingAttributesEnc: map[string]libunlynx.CipherText{}}
		want := libunlynx.ProcessResponse{}
		var rest []int
		for i := 0; i < width; i++ {
			v := int64(0)
			if i == s.slot {
				v = 1
			}
			if i == s.slot || i == 0 {
				c := encWith(pub, v)
				s.resp.AggregatingAttributesEnc[sum[i]] = c
			} else {
				s.resp.AggregatingAttributesClear[sum[i]] = v
				rest = append(rest, i)
			}
		}
		if s.merged {
			s.resp.GroupByClear, s.resp.WhereClear = map[string]int64{}, map[string]int64{}
			for j, v := range s.grp {
				s.resp.GroupByClear[groupBy[j]] = v
			}
			for j, v := range s.whr {
				s.resp.WhereClear[where[j].Name] = v
			}
			byKey[k] = append(byKey[k], s)
			continue
		}
		// at least one of the two maps is there, attributes are split
		s.resp.GroupByEnc, s.resp.WhereEnc = map[string]libunlynx.CipherText{}, map[string]libunlynx.CipherText{}
		s.resp.GroupByClear, s.resp.WhereClear = map[string]int64{}, map[string]int64{}
		for j, v := range s.grp {
			if t.R.Intn(4) == 0 {
				s.resp.GroupByClear[groupBy[j]] = v
			} else {
				s.resp.GroupByEnc[groupBy[j]] = encWith(pub, v)
			}
		}
		for j, v := range s.whr {
			if t.R.Intn(4) == 0 {
				s.resp.WhereClear[where[j].Name] = v
			} else {
				s.resp.WhereEnc[where[j].Name] = encWith(pub, v)
			}
		}
		_ = want
		_ = rest
		c := s.resp.AggregatingAttributesEnc[sum[s.slot]]
		byBytes[ctBytes(&c)] = s
	}

	var given []string
	for _, s := range all {
		given = append(given, dpDigest(s.resp))
	}
	st := libunlynxstore.NewStore()
	clk := &c15Clock{}
	var mu sync.Mutex
	var pulls []*c15Pull
	pull := func() {
		p := &c15Pull{}
		p.sp.from = clk.tick()
		p.got = st.PullDpResponses()
		p.sp.to = clk.tick()
		p.snap = respDigest(p.got)
		mu.Lock()
		pulls = append(pulls, p)
		mu.Unlock()
	}
	bar := newBarrier(subs + pullers)
	var wg, pg sync.WaitGroup
	var stop int32
	for i := 0; i < subs; i++ {
		mine, r := all[i*per:(i+1)*per], rand.New(rand.NewSource(t.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			bar.wait()
			for _, s := range mine {
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
				}
				s.sp.from = clk.tick()
				st.InsertDpResponse(s.resp, proofs, groupBy, sum, where)
				s.sp.to = clk.tick()
			}
		}()
	}
	for i := 0; i < pullers; i++ {
		r := rand.New(rand.NewSource(t.R.Int63()))
		pg.Add(1)
		go func() {
			defer pg.Done()
			bar.wait()
			for atomic.LoadInt32(&stop) == 0 {
				time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				if r.Intn(3) == 0 {
					st.HasNextDpResponse()
				}
				pull()
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	pg.Wait()
	what := fmt.Sprintf("%d submitters of %d responses (%s, %d group and %d where attributes, proofs %v), %d pullers", subs, per, mode, nG, nW, proofs, pullers)
	if pullers == 0 && total > 0 {
		t.Check(st.HasNextDpResponse(), "has-next", "%s: the store says it is empty", what)
	}
	pull()
	t.Check(!st.HasNextDpResponse(), "has-next", "%s: the store says it is not empty after a pull", what)
	pull()

	// the offline checker
	out := map[int][]int{} // submission -> pulls
	for pi, p := range pulls {
		t.Check(respDigest(p.got) == p.snap, "pull-changed", "%s: a later call changed the data of an earlier pull", what)
		for _, r := range p.got {
			if !t.Check(len(r.AggregatingAttributes) == width && len(r.GroupByEnc) == nG && len(r.WhereEnc) == nW, "shape", "%s: a pulled response has %d, %d and %d attributes", what, len(r.AggregatingAttributes), len(r.GroupByEnc), len(r.WhereEnc)) {
				continue
			}
			var s *c15Sub
			for i := range r.AggregatingAttributes {
				if x := byBytes[ctBytes(&r.AggregatingAttributes[i])]; x != nil && x.slot == i {
					s = x
				}
			}
			grp, whr := openVec(sk, r.GroupByEnc), openVec(sk, r.WhereEnc)
			vals := openVec(sk, r.AggregatingAttributes)
			if s != nil {
				out[s.id] = append(out[s.id], pi)
				ok := fmt.Sprint(grp) == fmt.Sprint(ints(s.grp)) && fmt.Sprint(whr) == fmt.Sprint(ints(s.whr))
				for i, v := range vals {
					ok = ok && (v == 1) == (i == s.slot) && v >= 0 && v <= 1
				}
				t.Check(ok, "altered", "%s: a response put in as %v %v comes out as %v %v %v", what, s.grp, s.whr, grp, whr, vals)
				continue
			}
			k := fmt.Sprint(grp, whr)
			used := 0
			for _, m := range byKey[k] {
				v := vals[m.slot]
				for x := int64(0); x < v && x < 3; x++ {
					out[m.id] = append(out[m.id], pi)
				}
				if v != 0 {
					used++
				}
			}
			n := 0
			for _, v := range vals {
				if v != 0 {
					n++
				}
			}
			t.Check(n == used && n > 0, "merged", "%s: the total of %s comes out as %v, which no set of its responses sums to", what, k, vals)
		}
	}
	for i, s := range all {
		if !t.Check(dpDigest(s.resp) == given[i], "input-changed", "%s: a response that was put in is changed afterwards", what) {
			break
		}
	}
	lost, twice := 0, 0
	for _, s := range all {
		ps := out[s.id]
		if len(ps) == 0 {
			lost++
			continue
		}
		if len(ps) > 1 {
			twice++
			continue
		}
		p := pulls[ps[0]]
		t.Check(p.sp.to > s.sp.from, "early", "%s: a response comes out before it was put in", what)
		for qi, q := range pulls {
			if qi != ps[0] && q.sp.from > s.sp.to && q.sp.to < p.sp.from {
				t.Fail("late", "%s: a response is missing from the pull that follows its insertion", what)
				break
			}
		}
	}
	t.Check(lost == 0, "lost", "%s: %d of %d responses never come out", what, lost, total)
	t.Check(twice == 0, "twice", "%s: %d of %d responses come out more than once", what, twice, total)
	t.Count("responses put in", int64(total))
	t.Count("pulls", int64(len(pulls)))
	// the order of calls
	type e struct {
		at int64
		s  string
	}
	var es []e
	for _, s := range all {
		es = append(es, e{s.sp.from, "i"}, e{s.sp.to, "I"})
	}
	for _, p := range pulls {
		es = append(es, e{p.sp.from, "p"}, e{p.sp.to, "P"})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].at < es[j].at })
	order := ""
	for _, x := range es {
		order += x.s
	}
	if total > 0 {
		t.Nontrivial("insert/%s/%d/%d/%s", mode, nG, nW, order)
	} else {
		t.Trivial()
	}
}

func ints(v []int64) []int64 {
	if v == nil {
		return []int64{}
	}
	return v
}

// c15Shuffled is the same for the table of shuffled responses.
func c15Shuffled(t *T, subs, pullers, per int) {
	_, pub := newKey()
	st := libunlynxstore.NewStore()
	clk := &c15Clock{}
	type push struct {
		sp span
		in []libunlynx.ProcessResponse
	}
	var pushes []*push
	id := map[string]int{}
	for i := 0; i < subs*per; i++ {
		p := &push{}
		for j := t.R.Intn(4); j >= 0; j-- {
			r := libunlynx.ProcessResponse{GroupByEnc: encVec(pub, []int64{1}), AggregatingAttributes: encVec(pub, []int64{2})}
			id[respDigest([]libunlynx.ProcessResponse{r})] = len(pushes)
			p.in = append(p.in, r)
		}
		pushes = append(pushes, p)
	}
	var mu sync.Mutex
	var pulls []*c15Pull
	pull := func() {
		p := &c15Pull{}
		p.sp.from = clk.tick()
		p.got = st.PullShuffledProcessResponses()
		p.sp.to = clk.tick()
		p.snap = respDigest(p.got)
		mu.Lock()
		pulls = append(pulls, p)
		mu.Unlock()
	}
	bar := newBarrier(subs + pullers)
	var wg, pg sync.WaitGroup
	var stop int32
	for i := 0; i < subs; i++ {
		mine, r := pushes[i*per:(i+1)*per], rand.New(rand.NewSource(t.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			bar.wait()
			for _, p := range mine {
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
				p.sp.from = clk.tick()
				st.PushShuffledProcessResponses(p.in)
				p.sp.to = clk.tick()
			}
		}()
	}
	for i := 0; i < pullers; i++ {
		r := rand.New(rand.NewSource(t.R.Int63()))
		pg.Add(1)
		go func() {
			defer pg.Done()
			bar.wait()
			for atomic.LoadInt32(&stop) == 0 {
				time.Sleep(time.Duration(r.Intn(700)) * time.Microsecond)
				pull()
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	pg.Wait()
	pull()
	pull()
	what := fmt.Sprintf("%d pushers of %d shuffled lists, %d pullers", subs, per, pullers)
	count := map[string]int{}
	for _, p := range pulls {
		t.Check(respDigest(p.got) == p.snap, "shuffled:pull-changed", "%s: a later call changed the data of an earlier pull", what)
		for _, r := range p.got {
			d := respDigest([]libunlynx.ProcessResponse{r})
			count[d]++
			i, ok := id[d]
			if !t.Check(ok, "shuffled:altered", "%s: a response comes from nowhere", what) {
				continue
			}
			for _, q := range pulls {
				t.Check(!(q.sp.from > pushes[i].sp.to && q.sp.to < p.sp.from), "shuffled:late", "%s: a response is missing from the pull that follows its push", what)
			}
		}
	}
	for d := range id {
		t.Check(count[d] == 1, "shuffled:once", "%s: a response comes out %d times", what, count[d])
	}
	for i, p := range pushes {
		for _, r := range p.in {
			t.Check(id[respDigest([]libunlynx.ProcessResponse{r})] == i, "shuffled:input-changed", "%s: a list that was pushed is changed afterwards", what)
		}
	}
	t.Count("responses put in", int64(len(id)))
	t.Count("pulls", int64(len(pulls)))
	t.Nontrivial("shuffled/%d/%d/%d/%d", subs, pullers, len(id), len(pulls))
}

// c15Groups pushes tagged responses, or aggregated groups, from several
// goroutines and adds up what the pulls return.
func c15Groups(t *T, subs, per int, kind string, proofs bool) {
	sk, pub := newKey()
	st := libunlynxstore.NewStore()
	want := dealt{}
	width := 1 + t.R.Intn(4)
	nkeys := 1 + t.R.Intn(6)
	keyOf := func(i int) libunlynx.GroupingKey { return libunlynx.GroupingKey(fmt.Sprintf("tag-%d", i*31)) }
	type batch struct {
		det []libunlynx.FilteredResponseDet
		m   map[libunlynx.GroupingKey]libunlynx.FilteredResponse
	}
	var batches []batch
	rows := 0
	var pool []libunlynx.FilteredResponseDet
	var poolVals [][]int64
	for i := 0; i < subs*per; i++ {
		b := batch{m: map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}}
		for j := t.R.Intn(5); j >= 0; j-- {
			g := t.R.Intn(nkeys)
			v := randInts(t.R, width, 9)
			// some lists hold rows of other lists again, in the same memory
			old := -1
			if len(pool) > 0 && t.R.Intn(4) == 0 {
				old = t.R.Intn(len(pool))
				v = poolVals[old]
				fmt.Sscanf(string(pool[old].DetTagGroupBy), "tag-%d", &g)
				g /= 31
			}
			if kind == "cothority" {
				if _, ok := b.m[keyOf(g)]; ok {
					continue
				}
			}
			fr := libunlynx.FilteredResponse{GroupByEnc: encVec(pub, []int64{int64(g)}), AggregatingAttributes: encVec(pub, v)}
			if old >= 0 {
				fr = pool[old].Fr
			} else {
				pool = append(pool, libunlynx.FilteredResponseDet{DetTagGroupBy: keyOf(g), Fr: fr})
				poolVals = append(poolVals, v)
			}
			b.det = append(b.det, libunlynx.FilteredResponseDet{DetTagGroupBy: keyOf(g), Fr: fr})
			b.m[keyOf(g)] = fr
			if want[keyOf(g)] == nil {
				want[keyOf(g)] = make([]int64, width)
			}
			for x := range v {
				want[keyOf(g)][x] += v[x]
			}
			rows++
		}
		batches = append(batches, b)
	}
	poolDigest := func() string {
		s := ""
		for _, d := range pool {
			s += string(d.DetTagGroupBy) + vecBytes(d.Fr.GroupByEnc) + vecBytes(d.Fr.AggregatingAttributes) + "\n"
		}
		return s
	}
	given := poolDigest()
	what := fmt.Sprintf("%d pushers of %d lists (%s, %d rows, %d groups, proofs %v)", subs, per, kind, rows, len(want), proofs)
	var mu sync.Mutex
	type taken struct {
		m    map[libunlynx.GroupingKey]libunlynx.FilteredResponse
		snap string
	}
	dig := func(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse) string {
		var ks []string
		for k := range m {
			ks = append(ks, string(k))
		}
		sortStrings(ks)
		s := ""
		for _, k := range ks {
			fr := m[libunlynx.GroupingKey(k)]
			s += k + vecBytes(fr.GroupByEnc) + vecBytes(fr.AggregatingAttributes)
		}
		return s
	}
	var pulls []taken
	pull := func() {
		var m map[libunlynx.GroupingKey]libunlynx.FilteredResponse
		if kind == "cothority" {
			m = map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
			for _, fr := range st.PullCothorityAggregatedFilteredResponses(false, libunlynx.CipherText{}) {
				g := openVec(sk, fr.GroupByEnc)
				if len(g) == 1 {
					_, dup := m[keyOf(int(g[0]))]
					t.Check(!dup, "groups:split", "%s: a group comes out twice in one pull", what)
					m[keyOf(int(g[0]))] = fr
				}
			}
		} else {
			m = st.PullLocallyAggregatedResponses()
		}
		x := taken{m, dig(m)}
		mu.Lock()
		pulls = append(pulls, x)
		mu.Unlock()
	}
	bar := newBarrier(subs + 1)
	var wg sync.WaitGroup
	var stop int32
	done := make(chan struct{})
	for i := 0; i < subs; i++ {
		mine := batches[i*per : (i+1)*per]
		wg.Add(1)
		go func() {
			defer wg.Done()
			bar.wait()
			for _, b := range mine {
				if kind == "cothority" {
					st.PushCothorityAggregatedFilteredResponses(b.m)
				} else {
					st.PushDeterministicFilteredResponses(b.det, "server", proofs)
				}
			}
		}()
	}
	go func() {
		defer close(done)
		bar.wait()
		for atomic.LoadInt32(&stop) == 0 {
			time.Sleep(700 * time.Microsecond)
			if kind == "cothority" {
				st.HasNextAggregatedFilteredResponses()
			} else {
				st.HasNextAggregatedResponse()
			}
			pull()
		}
	}()
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	<-done
	pull()
	pull()
	t.Check(poolDigest() == given, "groups:input-changed", "%s: rows that were pushed are changed afterwards", what)
	last := pulls[len(pulls)-1]
	t.Check(len(last.m) == 0, "groups:again", "%s: groups come out again", what)
	got := dealt{}
	for _, p := range pulls {
		t.Check(dig(p.m) == p.snap, "groups:pull-changed", "%s: a later call changed the data of an earlier pull", what)
		for k, fr := range p.m {
			v := openVec(sk, fr.AggregatingAttributes)
			if got[k] == nil {
				got[k] = make([]int64, width)
			}
			if !t.Check(len(v) == width, "groups:shape", "%s: a group has %d sums", what, len(v)) {
				continue
			}
			for x := range v {
				got[k][x] += v[x]
			}
		}
	}
	for k, w := range want {
		t.Check(fmt.Sprint(got[k]) == fmt.Sprint(w), "groups:sum", "%s: group %s sums to %v over all pulls instead of %v", what, k, got[k], w)
	}
	t.Check(len(got) == len(want), "groups:number", "%s: %d groups come out", what, len(got))
	t.Count("rows pushed", int64(rows))
	t.Count("pulls", int64(len(pulls)))
	t.Nontrivial("groups/%s/%d/%d/%d", kind, rows, len(want), len(pulls))
}

// c15Results is the last table: what is pushed comes out once.
func c15Results(t *T) {
	sk, pub := newKey()
	st := libunlynxstore.NewStore()
	var in []libunlynx.FilteredResponse
	for i := t.R.Intn(6); i > 0; i-- {
		in = append(in, libunlynx.FilteredResponse{GroupByEnc: encVec(pub, []int64{int64(i)}), AggregatingAttributes: encVec(pub, []int64{int64(i * 3), 4})})
	}
	st.PushQuerierKeyEncryptedResponses(in)
	res := st.PullDeliverableResults(false, libunlynx.CipherText{})
	t.Check(len(res) == len(in), "results:count", "%d results put in, %d come out", len(in), len(res))
	for i := range res {
		if i < len(in) {
			t.Check(fmt.Sprint(openVec(sk, res[i].AggregatingAttributes)) == fmt.Sprint([]int64{int64((len(in) - i) * 3), 4}), "results:altered", "result %d of %d is altered", i, len(in))
		}
	}
	t.Check(len(st.PullDeliverableResults(false, libunlynx.CipherText{})) == 0, "results:again", "results come out twice")
	if len(in) > 0 {
		t.Nontrivial("results/%d/%d", len(in), t.R.Intn(10))
	} else {
		t.Trivial()
	}
}

// c15Clear compares clear-text filtering and aggregation with the oracle,
// and the sums with those of the encrypted route.
func c15Clear(t *T, n, g, width, whr int) {
	l := randRows(t, n, g, width, whr)
	what := fmt.Sprintf("%d rows, %d group, %d where, %d aggregating attributes", n, g, whr, width)
	in := l.clearRows(t)
	before := clearDigest(in)
	var res []libunlynx.DpClearResponse
	pn := noPanic(func() { res = libunlynxstore.AddInClear(in) })
	if t.Check(pn == "", "clear:panic", "%s: %s", what, pn) {
		judgeClear(t, res, l, "clear", what)
		t.Check(clearDigest(in) == before, "clear:input-changed", "%s: adding changes the input", what)
	}
	// the encrypted route over the same rows
	sk, pub := newKey()
	st := libunlynxstore.NewStore()
	var det []libunlynx.FilteredResponseDet
	for i := range l.groups {
		if l.keep[i] {
			det = append(det, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(groupName(l.groups[i])), Fr: libunlynx.FilteredResponse{GroupByEnc: encVec(pub, l.groups[i]), AggregatingAttributes: encVec(pub, l.vals[i])}})
		}
	}
	st.PushDeterministicFilteredResponses(det, "server", false)
	m := st.PullLocallyAggregatedResponses()
	want := dealt{}
	for k, v := range l.sums() {
		want[libunlynx.GroupingKey(k)] = v
	}
	judgeGroups(t, sk, m, want, false, "encrypted", what)
	t.Count("clear rows", int64(n))
	if n > 0 {
		t.Nontrivial("clear/%d/%d/%d/%d/%d", n, g, width, whr, len(want))
	} else {
		t.Trivial()
	}
}

func c15Cases(tier string, seed int64) []Case {
	var out []Case
	reps, runs := 1, 12
	if tier == "thorough" {
		reps, runs = 12, 40
	}
	for rep := 0; rep < reps; rep++ {
		for _, mode := range []string{"clear", "enc", "mixed", "bare"} {
			for _, sp := range [][3]int{{1, 0, 6}, {2, 1, 8}, {4, 1, 6}, {8, 2, 4}, {16, 3, 2}, {32, 1, 1}, {3, 0, 1}} {
				mode, sp := mode, sp
				out = append(out, Case{Name: fmt.Sprintf("insert-%s-%d-%d-%d-%d", mode, sp[0], sp[1], sp[2], rep), Cost: 1, Procs: 4, Run: func(t *T) {
					for i := 0; i < runs; i++ {
						c15Inserts(t, sp[0], sp[1], sp[2], mode, i%4 == 0)
					}
				}})
			}
		}
		for i := 0; i < 4; i++ {
			subs := []int{1, 3, 8, 16}[i]
			out = append(out, Case{Name: fmt.Sprintf("shuffled-%d-%d", subs, rep), Cost: 1, Procs: 4, Run: func(t *T) {
				for r := 0; r < runs; r++ {
					c15Shuffled(t, subs, r%3, 5)
				}
			}})
			for _, kind := range []string{"local", "cothority"} {
				kind := kind
				out = append(out, Case{Name: fmt.Sprintf("groups-%s-%d-%d", kind, subs, rep), Cost: 1, Procs: 4, Run: func(t *T) {
					for r := 0; r < runs; r++ {
						c15Groups(t, subs, 4, kind, r%4 == 0)
					}
				}})
			}
		}
		out = append(out, Case{Name: fmt.Sprintf("results-%d", rep), Cost: 0.5, Run: func(t *T) {
			for r := 0; r < runs*2; r++ {
				c15Results(t)
			}
		}})
		out = append(out, Case{Name: fmt.Sprint("filter-", rep), Cost: 1, Run: func(t *T) { c15Filter(t, 60) }})
		for g := 0; g < 4; g++ {
			for whr := 0; whr < 4; whr++ {
				g, whr := g, whr
				out = append(out, Case{Name: fmt.Sprintf("clear-%d-%d-%d", g, whr, rep), Cost: 0.5, Run: func(t *T) {
					for _, n := range []int{0, 1, 2, 5, 30} {
						for _, w := range []int{1, 0, 3, 120} {
							if w == 120 && n > 5 {
								continue
							}
							c15Clear(t, n, g, w, whr)
						}
					}
				}})
			}
		}
	}
	return out
}

var _ kyber.Scalar
