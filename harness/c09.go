package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

func init() {
	regWrapped("CollectiveAggregation", protocolsunlynx.NewCollectiveAggregationProtocol)
	register(&Check{
		ID:    "C09",
		Rule:  "a case deals groups and attribute vectors to real servers (1-8, five tree shapes, permuted rosters; servers with nothing, with all, with other groups, with fewer values; flat data without groups), runs the collective aggregation with children's answers delayed and reordered, opens the result and compares it group by group with the oracle's own sums; an evaluation is one protocol run, non-trivial when at least two servers hold data (distinct by configuration, deal and order of messages)",
		Cases: c09Cases,
	})
}

type aggrCase struct {
	netCase        // size: number of groups
	width   int    // values per group
	deal    string // all, some, one, disjoint, ragged, uneven, simple, none, same, twins
	genc    int    // encrypted grouping attributes carried along
	keys    string // tag, empty
}

func (c aggrCase) String() string {
	return fmt.Sprintf("%s, %d values, deal %s, %d carried, %s keys", c.netCase, c.width, c.deal, c.genc, c.keys)
}

// dealt is what one server holds, in the clear.
type dealt map[libunlynx.GroupingKey][]int64

func (c aggrCase) keyName(t *T, i int) libunlynx.GroupingKey {
	if c.keys == "empty" {
		return libunlynx.GroupingKey("")
	}
	return libunlynx.GroupingKey(fmt.Sprintf("%040x", i*7919))
}

func (c aggrCase) makeDeal(t *T) []dealt {
	out := make([]dealt, c.n)
	for s := range out {
		out[s] = dealt{}
		if c.deal == "same" && s > 0 { // the very same responses, at two servers or more
			if s == c.n-1 || t.R.Intn(3) > 0 {
				out[s] = out[0]
			}
			continue
		}
		for g := 0; g < c.size; g++ {
			have, w := true, c.width
			switch c.deal {
			case "some":
				have = t.R.Intn(3) > 0 && s%3 != 1
			case "one":
				have = s == c.n-1
			case "disjoint":
				have = g%c.n == s
			case "none":
				have = false
			case "ragged": // servers differ in the number of values
				w = (s + c.width) % (c.width + 1)
			case "uneven": // groups of one server differ too
				w = t.R.Intn(c.width + 2)
				have = t.R.Intn(4) > 0
			}
			if have && c.deal == "twins" && g%2 == 1 {
				out[s][c.keyName(t, g)] = out[s][c.keyName(t, g-1)]
			} else if have {
				out[s][c.keyName(t, g)] = mixedInts(t, w)
			}
		}
	}
	// nothing at all is sent for the group of the empty key when it has no values
	for g, v := range sums(out) {
		if g == "" && len(v) == 0 {
			for s := range out {
				if _, ok := out[s][g]; ok {
					out[s][g] = mixedInts(t, 1)
				}
			}
		}
	}
	return out
}

// sums adds the deals up, group by group.
func sums(deals []dealt) dealt {
	out := dealt{}
	for _, d := range deals {
		for k, v := range d {
			cur := append([]int64{}, out[k]...)
			for i, x := range v {
				if i >= len(cur) {
					cur = append(cur, 0)
				}
				cur[i] += x
			}
			if cur == nil {
				cur = []int64{}
			}
			out[k] = cur
		}
	}
	return out
}

func trimZeros(v []int64) []int64 {
	for len(v) > 0 && v[len(v)-1] == 0 {
		v = v[:len(v)-1]
	}
	return v
}

// judgeGroups compares opened groups with the expected sums. With pad, zeros
// at the end of a vector do not count.
func judgeGroups(t *T, sk kyber.Scalar, got map[libunlynx.GroupingKey]libunlynx.FilteredResponse, want dealt, pad bool, key, what string) {
	for k, w := range want {
		g, ok := got[k]
		if !t.Check(ok, key+":lost-group", "%s: group %q is missing from the result (%d groups of %d)", what, trim(string(k), 60), len(got), len(want)) {
			continue
		}
		v := openVec(sk, g.AggregatingAttributes)
		if pad {
			v, w = trimZeros(v), trimZeros(w)
		}
		t.Check(fmt.Sprint(v) == fmt.Sprint(w), key+":sum", "%s: group %q sums to %v instead of %v", what, trim(string(k), 60), v, w)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			t.Fail(key+":new-group", "%s: group %q comes from nowhere", what, trim(string(k), 60))
		}
	}
}

func runAggr(t *T, c aggrCase, cl *cluster, ro *onet.Roster, tr *onet.Tree) {
	deals := c.makeDeal(t)
	simple := c.deal == "simple"
	var same map[libunlynx.GroupingKey]libunlynx.FilteredResponse
	var mu sync.Mutex
	made := map[network.ServerIdentityID]int{}
	badProof := ""
	idx := map[network.ServerIdentityID]int{}
	var data []map[libunlynx.GroupingKey]libunlynx.FilteredResponse
	var flat []libunlynx.CipherVector
	for i, si := range ro.List {
		idx[si.ID] = i
		m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		var keys []string
		for k := range deals[i] {
			keys = append(keys, string(k))
		}
		sort.Strings(keys)
		byDeal := map[*int64]libunlynx.FilteredResponse{}
		for _, k := range keys {
			if f, ok := same[libunlynx.GroupingKey(k)]; ok { // what another server contributes too
				m[libunlynx.GroupingKey(k)] = libunlynx.FilteredResponse{GroupByEnc: cloneVec(f.GroupByEnc), AggregatingAttributes: cloneVec(f.AggregatingAttributes)}
				continue
			}
			v := deals[i][libunlynx.GroupingKey(k)]
			if len(v) > 0 { // twin groups hold the very same vectors
				if f, ok := byDeal[&v[0]]; ok {
					m[libunlynx.GroupingKey(k)] = f
					continue
				}
			}
			m[libunlynx.GroupingKey(k)] = libunlynx.FilteredResponse{GroupByEnc: t.encVec(ro.Aggregate, randInts(t.R, c.genc, 50)), AggregatingAttributes: t.encVec(ro.Aggregate, v)}
			if len(v) > 0 {
				byDeal[&v[0]] = m[libunlynx.GroupingKey(k)]
			}
		}
		data = append(data, m)
		if c.deal == "same" && same == nil {
			same = m
		}
		flat = append(flat, t.encVec(ro.Aggregate, firstOf(deals[i])))
	}
	var snaps []string
	for i := range flat {
		snaps = append(snaps, vecBytes(flat[i]))
	}
	pi := cl.create("CollectiveAggregation", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		i := idx[tni.ServerIdentity().ID]
		if simple {
			s := []libunlynx.CipherText(flat[i])
			p.SimpleData = &s
		} else {
			p.GroupedData = &data[i]
		}
		p.Proofs = c.proofs
		p.ProofFunc = func(d []libunlynx.CipherVector, r libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
			mu.Lock()
			defer mu.Unlock()
			made[tni.ServerIdentity().ID]++
			if len(d) != len(r) {
				badProof = fmt.Sprintf("%d lists of addends for %d sums", len(d), len(r))
				return nil
			}
			for j := range d {
				k, cc := suite.Point().Null(), suite.Point().Null()
				for _, x := range d[j] {
					k, cc = suite.Point().Add(k, x.K), suite.Point().Add(cc, x.C)
				}
				if !k.Equal(r[j].K) || !cc.Equal(r[j].C) {
					badProof = fmt.Sprintf("sum %d of %d is not the sum of its %d addends", j, len(d), len(d[j]))
				}
			}
			return nil
		}
	})
	p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
	must(p.Start())
	res := (<-p.FeedbackChannel).GroupedData
	want := sums(deals)
	judgeGroups(t, cl.secret(), res, want, c.deal == "ragged" || c.deal == "uneven", "aggregation", c.String())
	if simple {
		got, err := protocolsunlynx.RetrieveSimpleDataFromMap(res)
		if t.Check(err == nil, "simple", "%s: %v", c, err) {
			v, w := openVec(cl.secret(), got), want[libunlynx.GroupingKey("")]
			for len(v) < len(w) {
				v = append(v, 0)
			}
			t.Check(fmt.Sprint(trimZeros(v)) == fmt.Sprint(trimZeros(w)), "simple", "%s: the simple data is %v instead of %v", c, v, w)
		}
		for i := range flat {
			t.Check(vecBytes(flat[i]) == snaps[i], "input-changed", "%s: the aggregation changed the data it was given", c)
		}
	}
	if c.proofs {
		settled(&mu, func() bool { return len(made) >= c.n })
		mu.Lock()
		t.Check(len(made) == c.n, "proof-count", "%s: %d of %d servers made a proof", c, len(made), c.n)
		t.Check(badProof == "", "proof-data", "%s: %s", c, badProof)
		mu.Unlock()
	}
}

// firstOf is the only vector of a deal without groups.
func firstOf(d dealt) []int64 {
	var v []int64
	first := libunlynx.GroupingKey("")
	for k := range d {
		if v == nil || k < first {
			first, v = k, d[k]
		}
	}
	return v
}

func c09Cases(tier string, seed int64) []Case {
	var out []Case
	ns := []int{1, 2, 3, 4, 5, 8}
	deals := []string{"all", "some", "one", "disjoint", "ragged", "uneven", "simple", "none", "same", "twins"}
	reps := 1
	if tier == "thorough" {
		ns = []int{1, 2, 3, 4, 5, 6, 7, 8}
		reps = 14
	}
	k := 0
	for _, n := range ns {
		for rep := 0; rep < reps; rep++ {
			for _, d := range deals {
				var cs []aggrCase
				for i := 0; i < 3; i++ {
					c := aggrCase{netCase{n: n, kind: treeKinds[k%len(treeKinds)], size: []int{3, 1, 20, 105, 2}[k%5], sched: schedModes[k%len(schedModes)], perm: k%2 == 0, proofs: k%3 == 0}, []int{2, 1, 5}[i], d, k % 2, "tag"}
					if d == "simple" {
						c.keys, c.width = "empty", []int{1, 100, 7}[i]
					} else if c.size == 1 && k%2 == 0 {
						c.keys = "empty"
					}
					if c.keys == "empty" {
						c.size = 1
					}
					k++
					if i == 1 && (d == "all" || d == "some" || d == "disjoint") {
						c.width = 0 // groups without values: which ones exist is the result
					}
					cs = append(cs, c)
				}
				cost := 0.0
				for _, c := range cs {
					cost += 0.1 + float64(c.n*c.size*c.width)*0.0012
				}
				out = append(out, Case{Name: fmt.Sprintf("%s-%d-%d", d, n, rep), Cost: cost, Run: func(t *T) {
					for _, c := range cs {
						for r := 0; r < 2; r++ {
							cl, ro, tr := c.build(t)
							s := newSched(t.R, c.sched, nil)
							runAggr(t, c, cl, ro, tr)
							sig := s.done(t)
							if c.n > 1 && c.deal != "one" && c.deal != "none" {
								t.Nontrivial("%v/%s", c, sig)
							} else {
								t.Trivial()
							}
						}
					}
					t.Sample("%v", cs)
				}})
			}
			if n > 2 {
				n := n
				out = append(out, Case{Name: fmt.Sprintf("concurrent-%d-%d", n, rep), Cost: 2, Run: func(t *T) {
					cl := getCluster(n)
					s := newSched(t.R, "jitter", nil)
					used := map[onet.TreeID]bool{}
					var wg sync.WaitGroup
					for i := 0; i < 6; i++ {
						c := aggrCase{netCase{n: n, kind: treeKinds[i%5], size: []int{3, 20, 1, 7, 50, 2}[i], sched: "jitter", proofs: i == 4}, 1 + i%3, []string{"all", "some", "ragged", "disjoint", "some", "uneven"}[i], i % 2, "tag"}
						ro, tr := cl.distinctTree(c.kind, t.R, used)
						f := t.fork()
						wg.Add(1)
						go func() {
							defer wg.Done()
							runAggr(f, c, cl, ro, tr)
						}()
					}
					wg.Wait()
					t.Nontrivial("concurrent/%d/%s", n, s.done(t))
				}})
			}
		}
	}
	large := []aggrCase{{netCase{n: 3, kind: "line", size: 300, sched: "jitter"}, 2, "some", 1, "tag"}, {netCase{n: 4, kind: "binary", size: 2, sched: "none"}, 400, "all", 0, "tag"}}
	if tier == "thorough" {
		large = append(large, aggrCase{netCase{n: 4, kind: "star", size: 1500, sched: "big-late"}, 2, "uneven", 1, "tag"}, aggrCase{netCase{n: 3, kind: "line", size: 105, sched: "none", proofs: true}, 105, "some", 0, "tag"})
	}
	for _, c := range large {
		c := c
		out = append(out, Case{Name: fmt.Sprintf("large-%d-%d", c.size, c.width), Cost: float64(c.n*c.size*c.width) * 0.0012, Run: func(t *T) {
			cl, ro, tr := c.build(t)
			s := newSched(t.R, c.sched, nil)
			runAggr(t, c, cl, ro, tr)
			t.Nontrivial("%v/%s", c, s.done(t))
			t.Sample("%v", c)
		}})
	}
	return out
}

var _ = strings.Join
