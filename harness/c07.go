package main

import (
	"fmt"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

func init() {
	regWrapped("DeterministicTagging", protocolsunlynx.NewDeterministicTaggingProtocol)
	register(&Check{
		ID:    "C07",
		Rule:  "a case tags several batches of ciphertexts of a small domain (repeated values, repeated ciphertexts, zero and negative values, 0-250 entries) under the secrets of one or two surveys, over real servers (1-8, five tree shapes, permuted rosters and roots) with messages delayed, alone or at once, and keeps one map of plaintext to tag per survey, which has to stay a bijection over all runs; an evaluation is one protocol run, non-trivial with at least two entries (distinct by configuration and order of messages)",
		Cases: c07Cases,
	})
}

// tagSurvey is the oracle's view of one survey: each server's secret, and the
// map from plaintext to tag observed so far.
type tagSurvey struct {
	mu      sync.Mutex
	secrets map[network.ServerIdentityID]kyber.Scalar
	tagOf   map[string]string
	plainOf map[string]string
}

func newTagSurvey(cl *cluster) *tagSurvey {
	s := &tagSurvey{secrets: map[network.ServerIdentityID]kyber.Scalar{}, tagOf: map[string]string{}, plainOf: map[string]string{}}
	for _, sv := range cl.servers {
		s.secrets[sv.ServerIdentity.ID], _ = newKey()
	}
	return s
}

// note records that a plaintext got a tag.
func (s *tagSurvey) note(t *T, plain string, tag kyber.Point, m int64, what string) {
	if !t.Check(tag != nil, "missing", "%s: no tag", what) {
		return
	}
	tg := ps(tag)
	s.mu.Lock()
	defer s.mu.Unlock()
	if old, ok := s.tagOf[plain]; ok {
		t.Check(old == tg, "unequal-tags", "%s: two tags for the same plaintext %d", what, m)
	}
	if old, ok := s.plainOf[tg]; ok {
		t.Check(old == plain, "equal-tags", "%s: one tag for the different plaintexts %s and %s", what, old, plain)
	}
	s.tagOf[plain], s.plainOf[tg] = tg, plain
	t.Check(!tag.Equal(pt(m)), "plaintext-tag", "%s: the tag of %d is its encoding", what, m)
}

func smallDomain(t *T, n, dom int) []int64 {
	v := make([]int64, n)
	for i := range v {
		v[i] = int64(t.R.Intn(dom)) - int64(dom/4)
	}
	return v
}

func runDDT(t *T, sv *tagSurvey, nc netCase, dom int, cl *cluster, ro *onet.Roster, tr *onet.Tree) []kyber.Point {
	m := smallDomain(t, nc.size, dom)
	cv := t.encVec(ro.Aggregate, m)
	for i := range cv {
		if i > 0 && t.R.Intn(8) == 0 {
			j := t.R.Intn(i)
			cv[i], m[i] = cloneCT(cv[j]), m[j]
		} else if t.R.Intn(12) == 0 {
			cv[i] = libunlynx.CipherText{K: suite.Point().Null(), C: pt(m[i])}
		}
	}
	snap := vecBytes(cv)
	secs := map[network.ServerIdentityID]string{}
	for k, v := range sv.secrets {
		secs[k] = v.String()
	}
	pi := cl.create("DeterministicTagging", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
		p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
		}
		sec := sv.secrets[tni.ServerIdentity().ID]
		p.SurveySecretKey = &sec
		p.Proofs = nc.proofs
	})
	p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
	must(p.Start())
	res := <-p.FeedbackChannel
	if !t.Check(len(res) == len(m), "length", "%d tags for %d entries (%s)", len(res), len(m), nc) {
		return nil
	}
	var tags []kyber.Point
	for i := range res {
		sv.note(t, fmt.Sprint(m[i]), res[i].Point, m[i], fmt.Sprintf("entry %d of %d (%s)", i, len(res), nc))
		tags = append(tags, res[i].Point)
	}
	t.Check(vecBytes(cv) == snap, "input-changed", "tagging changed its input (%s)", nc)
	for k, v := range sv.secrets {
		t.Check(secs[k] == v.String(), "secret-changed", "tagging changed a survey secret (%s)", nc)
	}
	return tags
}

// judgeSurveys compares the tags of two independent surveys.
func judgeSurveys(t *T, a, b *tagSurvey) {
	n := 0
	for plain, tag := range a.tagOf {
		if o, ok := b.tagOf[plain]; ok {
			n++
			t.Check(o != tag, "same-across-surveys", "plaintext %s has one tag under two independent surveys", plain)
		}
	}
	t.Count("values_compared_across_surveys", int64(n))
}

// c07Local tags vectors at one server alone, which gives one key for each.
func c07Local(t *T, rounds int) {
	for r := 0; r < rounds; r++ {
		sk, pk := newKey()
		sec, _ := newKey()
		other, _ := newKey()
		n := 1 + t.R.Intn(4)
		type tagged struct{ vals, key, otherKey string }
		var all []tagged
		for i := 0; i < 12; i++ {
			v := make([]int64, n)
			for j := range v {
				v[j] = 1 + t.R.Int63n(2)
			}
			cv := t.encVec(pk, v)
			snap := vecBytes(cv)
			k, err := protocolsunlynx.CipherVectorToDeterministicTag(cv, sk, sec, pk, r%3 == 0)
			must(err)
			o, err := protocolsunlynx.CipherVectorToDeterministicTag(cv, sk, other, pk, false)
			must(err)
			t.Check(vecBytes(cv) == snap, "input-changed", "tagging %v at one server changed it", v)
			all = append(all, tagged{fmt.Sprint(v), string(k), string(o)})
		}
		for _, a := range all {
			for _, b := range all {
				t.Check((a.key == b.key) == (a.vals == b.vals), "local-tag", "%s and %s have the keys %.20q and %.20q", a.vals, b.vals, a.key, b.key)
				t.Check(a.key != b.otherKey, "local-secret", "%s and %s have one key under two secrets", a.vals, b.vals)
			}
		}
		t.Nontrivial("local %d %v", n, all[0])
	}
}

func c07Cases(tier string, seed int64) []Case {
	var out []Case
	sizes := []int{1, 5, 0, 99, 2, 100, 101, 40, 199, 3, 250, 20}
	ns := []int{1, 2, 3, 5, 8}
	reps := 1
	if tier == "thorough" {
		ns = []int{1, 2, 3, 4, 5, 6, 7, 8}
		reps = 12
	}
	out = append(out, Case{Name: "local", Cost: 1, Run: func(t *T) { c07Local(t, 10*reps) }})
	k := 0
	for _, n := range ns {
		for rep := 0; rep < reps; rep++ {
			for part := 0; part < 2; part++ {
				n := n
				var ncs []netCase
				for i := range sizes {
					if i%2 != part && tier != "thorough" && n > 2 {
						continue
					}
					ncs = append(ncs, netCase{n: n, kind: treeKinds[(i+k)%len(treeKinds)], size: sizes[i], sched: schedModes[(i+k)%len(schedModes)], perm: (i+rep)%3 != 0, proofs: (i+rep)%5 == 0})
				}
				k++
				dom := []int{4, 40, 700}[k%3]
				out = append(out, Case{Name: fmt.Sprintf("survey-%d-%d-%d", n, rep, part), Cost: 0.4 * float64(n), Run: func(t *T) {
					svs := [2]*tagSurvey{}
					for i := range svs {
						svs[i] = newTagSurvey(getCluster(n))
					}
					for i, nc := range ncs {
						cl, ro, tr := nc.build(t)
						s := newSched(t.R, nc.sched, nil)
						runDDT(t, svs[i/2%2], nc, dom, cl, ro, tr)
						if nc.size > 0 && nc.size <= 20 { // the other survey sees the same domain
							runDDT(t, svs[1-i/2%2], nc, dom, cl, ro, tr)
						}
						sig := s.done(t)
						if nc.size > 1 {
							t.Nontrivial("%v/%s", nc, sig)
						} else {
							t.Trivial()
						}
					}
					judgeSurveys(t, svs[0], svs[1])
					t.Count("distinct_tags", int64(len(svs[0].plainOf)+len(svs[1].plainOf)))
					t.Sample("%d servers, domain of %d values, batches %v", n, dom, ncs)
				}})
			}
			if n > 2 {
				n := n
				out = append(out, Case{Name: fmt.Sprintf("concurrent-%d-%d", n, rep), Cost: 1.5, Run: func(t *T) {
					cl := getCluster(n)
					svs := [2]*tagSurvey{newTagSurvey(cl), newTagSurvey(cl)}
					s := newSched(t.R, "jitter", nil)
					used := map[onet.TreeID]bool{}
					var wg sync.WaitGroup
					for i := 0; i < 6; i++ {
						nc := netCase{n: n, kind: treeKinds[i%5], size: []int{3, 101, 20, 7, 33, 1}[i], sched: "jitter"}
						ro, tr := cl.distinctTree(nc.kind, t.R, used)
						f, sv := t.fork(), svs[i%2]
						wg.Add(1)
						go func() {
							defer wg.Done()
							runDDT(f, sv, nc, 10, cl, ro, tr)
						}()
					}
					wg.Wait()
					judgeSurveys(t, svs[0], svs[1])
					t.Nontrivial("concurrent/%d/%s", n, s.done(t))
				}})
			}
		}
	}
	large := []int{1100}
	if tier == "thorough" {
		large = []int{257, 1100, 4001, 9000}
	}
	for i, sz := range large {
		nc := netCase{n: 2 + i%3, kind: treeKinds[i%len(treeKinds)], size: sz, sched: schedModes[i%len(schedModes)]}
		out = append(out, Case{Name: fmt.Sprintf("large-%d", sz), Cost: float64(sz*nc.n) * 0.001, Run: func(t *T) {
			svs := [2]*tagSurvey{newTagSurvey(getCluster(nc.n)), newTagSurvey(getCluster(nc.n))}
			for _, sv := range svs {
				cl, ro, tr := nc.build(t)
				s := newSched(t.R, nc.sched, nil)
				runDDT(t, sv, nc, 300, cl, ro, tr)
				t.Nontrivial("%v/%s", nc, s.done(t))
			}
			judgeSurveys(t, svs[0], svs[1])
			t.Sample("%v", nc)
		}})
	}
	return out
}
