package main

import (
	"fmt"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func init() {
	regWrapped("KeySwitching", protocolsunlynx.NewKeySwitchingProtocol)
	register(&Check{
		ID:    "C05",
		Rule:  "a case runs the collective key-switching protocol over real servers (1-8, five tree shapes, permuted rosters, 0-250 ciphertexts) with messages delayed at their sender, alone or several at once, and opens every entry of the result with the querier's key, with the collective key and with another key; an evaluation is one protocol run, non-trivial with at least one ciphertext (distinct by servers, tree, size, delays and order of messages)",
		Cases: c05Cases,
	})
}

// netCase is the configuration of one protocol run.
type netCase struct {
	n      int
	kind   string
	size   int
	sched  string
	perm   bool
	proofs bool
}

func (c netCase) String() string {
	return fmt.Sprintf("%d servers, %s tree, size %d, %s, perm %v, proofs %v", c.n, c.kind, c.size, c.sched, c.perm, c.proofs)
}

func (c netCase) build(t *T) (*cluster, *onet.Roster, *onet.Tree) {
	cl := getCluster(c.n)
	var perm []int
	if c.perm {
		perm = t.R.Perm(c.n)
	}
	ro := cl.roster(perm)
	return cl, ro, cl.tree(ro, c.kind, t.R)
}

func mixedInts(t *T, n int) []int64 {
	v := randInts(t.R, n, 2000)
	for i := range v {
		switch t.R.Intn(6) {
		case 0:
			v[i] = 0
		case 1:
			v[i] = -v[i]
		case 2:
			v[i] = int64(t.R.Intn(3))
		}
	}
	return v
}

// runKS runs one key switching and judges it.
func runKS(t *T, nc netCase, cl *cluster, ro *onet.Roster, tr *onet.Tree) {
	m := mixedInts(t, nc.size)
	cv := t.encVec(ro.Aggregate, m)
	for i := range cv {
		// repeated entries, trivial encryptions
		if i > 0 && t.R.Intn(10) == 0 {
			cv[i], m[i] = cloneCT(cv[i-1]), m[i-1]
		} else if t.R.Intn(15) == 0 {
			cv[i] = libunlynx.CipherText{K: suite.Point().Null(), C: pt(m[i])}
		}
	}
	snap := vecBytes(cv)
	qsk, qpk := newKey()
	osk, _ := newKey()
	qs := ps(qpk)
	var mu sync.Mutex
	made := map[string]int{}
	pi := cl.create("KeySwitching", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
		p := pi.(*protocolsunlynx.KeySwitchingProtocol)
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
			p.TargetPublicKey = &qpk
		}
		p.Proofs = nc.proofs
		p.ProofFunc = func(pub, target kyber.Point, priv kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
			mu.Lock()
			made[ps(pub)]++
			mu.Unlock()
			return nil
		}
	})
	p := pi.(*protocolsunlynx.KeySwitchingProtocol)
	must(p.Start())
	res := <-p.FeedbackChannel
	if checkVec(t, qsk, res, m, "plaintext", "switched vector ("+nc.String()+")") {
		for i := range res {
			t.Check(!openPoint(osk, &res[i]).Equal(pt(m[i])) && !openPoint(cl.secret(), &res[i]).Equal(pt(m[i])), "readable-by-others", "entry %d of %d decrypts under another key (%s)", i, len(res), nc)
		}
	}
	t.Check(vecBytes(cv) == snap, "input-changed", "key switching changed its input (%s)", nc)
	t.Check(ps(qpk) == qs, "key-changed", "key switching changed the target key (%s)", nc)
	if nc.proofs {
		settled(&mu, func() bool { return len(made) >= nc.n })
		mu.Lock()
		t.Check(len(made) == nc.n, "proof-count", "%d of %d servers made a proof", len(made), nc.n)
		mu.Unlock()
	}
}

func c05Cases(tier string, seed int64) []Case {
	var out []Case
	add := func(ncs []netCase, name string, conc bool) {
		cost := 0.0
		for _, nc := range ncs {
			cost += 0.05 + float64(nc.n*(nc.size+3))*0.0012
		}
		out = append(out, Case{Name: name, Cost: cost, Run: func(t *T) {
			if conc {
				s := newSched(t.R, "jitter", nil)
				var wg sync.WaitGroup
				cl := getCluster(ncs[0].n)
				used := map[onet.TreeID]bool{}
				for _, nc := range ncs {
					nc := nc
					ro, tr := cl.distinctTree(nc.kind, t.R, used)
					wg.Add(1)
					go func() {
						defer wg.Done()
						runKS(t.fork(), nc, cl, ro, tr)
					}()
				}
				wg.Wait()
				t.Nontrivial("concurrent/%v/%s", ncs, s.done(t))
				return
			}
			for _, nc := range ncs {
				cl, ro, tr := nc.build(t)
				s := newSched(t.R, nc.sched, nil)
				for rep := 0; rep < 2; rep++ {
					runKS(t, nc, cl, ro, tr)
				}
				sig := s.done(t)
				if nc.size > 0 {
					t.Nontrivial("%v/%s", nc, sig)
				} else {
					t.Trivial()
				}
			}
			t.Sample("%v", ncs)
		}})
	}
	sizes := []int{0, 1, 2, 5, 99, 100, 101, 199, 250}
	ns := []int{1, 2, 3, 5, 8}
	if tier == "thorough" {
		ns = []int{1, 2, 3, 4, 5, 6, 7, 8}
	}
	k := 0
	for _, n := range ns {
		var ncs []netCase
		for i, sz := range sizes {
			kinds := []string{treeKinds[(i+n)%len(treeKinds)]}
			if tier == "thorough" {
				kinds = treeKinds
			}
			for _, kind := range kinds {
				modes := []string{schedModes[k%len(schedModes)]}
				if tier == "thorough" {
					modes = schedModes
				}
				for _, mo := range modes {
					ncs = append(ncs, netCase{n: n, kind: kind, size: sz, sched: mo, perm: k%2 == 1, proofs: k%3 == 0})
					k++
				}
			}
		}
		for i := 0; i < len(ncs); i += 3 {
			e := minInt(i+3, len(ncs))
			add(ncs[i:e], fmt.Sprintf("run-%d-%d", n, i), false)
		}
		if n > 2 {
			var cc []netCase
			for i := 0; i < 5; i++ {
				cc = append(cc, netCase{n: n, kind: treeKinds[i], size: []int{3, 7, 101, 20, 1}[i], sched: "jitter"})
			}
			add(cc, fmt.Sprintf("concurrent-%d", n), true)
		}
	}
	large := []netCase{{n: 3, kind: "line", size: 1200, sched: "jitter"}, {n: 4, kind: "star", size: 700, sched: "none", proofs: true}}
	if tier == "thorough" {
		large = append(large, netCase{n: 8, kind: "binary", size: 3000, sched: "big-late"}, netCase{n: 5, kind: "star", size: 10007, sched: "none"})
	}
	for i := range large {
		add(large[i:i+1], fmt.Sprintf("large-%d", i), false)
	}
	return out
}
