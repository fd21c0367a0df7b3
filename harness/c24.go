package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

func init() {
	register(&Check{
		ID:          "C24",
		NetNS:       true,
		Rule:        "a case runs a protocol (key switching, shuffling, tagging, shuffling with tagging, collective aggregation), a local step (store, local aggregation, adding and removing a server) or whole surveys with proofs on; a hook sees every proof at its creation, the wire tap every message between servers; all proofs are verified at creation and again after the run, and for every element of every message the sender's step that produced it and the receiver's step that consumed it must be covered by a verifying proof of that server; the same with proofs off must make none; an evaluation is one run, non-trivial when it made proofs (distinct by configuration and order of messages)",
		Assumptions: []string{"the steps of a server are identified by the messages it receives and sends; the root's last step by the result it returns"},
		Cases:       c24Cases,
	})
}

// --- observer ---------------------------------------------------------------

type seenProof struct {
	kind   string
	verify func() bool
	early  bool
	single interface{}
	pub    kyber.Point // of the prover, where the proof does not carry it
}

type observer struct {
	mu   sync.Mutex
	list []*seenProof
	// wire
	rounds map[string]*round
	order  []string

	// built by index
	add, tag  map[string]int
	tagLast   map[string]int // without the first component of the result
	tagPub    map[string]map[string]bool
	shuf      map[string][]*libunlynxshuffle.PublishedShufflingProof
	ks        map[string]map[string]bool
	aggr      map[string][]string // addend -> sums
	sums      map[string]int
	countKind map[string]int
}

type wireRec struct {
	from, to string
	msg      interface{}
}

type round struct {
	id, proto string
	msgs      []wireRec
}

func watchProofs() *observer {
	o := &observer{rounds: map[string]*round{}}
	libunlynx.SetVerifProofHook(o.see)
	return o
}

func (o *observer) see(kind string, args ...interface{}) {
	s := &seenProof{kind: kind, single: args[0]}
	switch p := args[0].(type) {
	case libunlynxdetertag.PublishedDDTCreationProof:
		s.pub = args[1].(kyber.Point)
		sb := suite.Point().Mul(args[2].(kyber.Scalar), nil)
		s.verify = func() bool { return libunlynxdetertag.DeterministicTagCrProofVerification(p, s.pub, sb) }
	case libunlynxdetertag.PublishedDDTCreationListProof:
		s.verify = func() bool { return libunlynxdetertag.DeterministicTagCrListProofVerification(p, 1) }
	case libunlynxdetertag.PublishedDDTAdditionProof:
		s.verify = func() bool { return libunlynxdetertag.DeterministicTagAdditionProofVerification(p) }
	case libunlynxkeyswitch.PublishedKSProof:
		s.verify = func() bool { return libunlynxkeyswitch.KeySwitchProofVerification(p) }
	case libunlynxkeyswitch.PublishedKSListProof:
		s.verify = func() bool { return libunlynxkeyswitch.KeySwitchListProofVerification(p, 1) }
	case libunlynxaggr.PublishedAggregationProof:
		s.verify = func() bool { return libunlynxaggr.AggregationProofVerification(p) }
	case libunlynxaggr.PublishedAggregationListProof:
		s.verify = func() bool { return libunlynxaggr.AggregationListProofVerification(p, 1) }
	case libunlynxshuffle.PublishedShufflingProof:
		key := suite.Point().Set(p.H) // as it is now
		s.verify = func() bool { return libunlynxshuffle.ShuffleProofVerification(p, key) }
	case libunlynxaddrm.PublishedAddRmProof:
		k, add := args[1].(kyber.Point), args[2].(bool)
		s.verify = func() bool { return libunlynxaddrm.AddRmProofVerification(p, k, add) }
	default:
		panic(fmt.Sprintf("proof of kind %s is a %T", kind, p))
	}
	if e := noPanic(func() { s.early = s.verify() }); e != "" {
		s.early = false
	}
	o.mu.Lock()
	o.list = append(o.list, s)
	o.mu.Unlock()
}

// wire keeps the messages by run.
func (o *observer) wire(proto string, info *onet.OverlayMsg, msg interface{}, buf []byte) {
	id := fmt.Sprint(info.TreeNodeInfo.From.RoundID)
	o.mu.Lock()
	defer o.mu.Unlock()
	r := o.rounds[id]
	if r == nil {
		r = &round{id: id, proto: proto}
		o.rounds[id] = r
		o.order = append(o.order, id)
	}
	// what is on the wire, not what the sender may still change
	_, m, err := network.Unmarshal(append([]byte{}, buf...), suite)
	if err != nil {
		return
	}
	r.msgs = append(r.msgs, wireRec{info.TreeNodeInfo.From.TreeNodeID.String(), info.TreeNodeInfo.To.TreeNodeID.String(), m})
}

func (o *observer) reset() {
	o.mu.Lock()
	o.list, o.rounds, o.order = nil, map[string]*round{}, nil
	o.mu.Unlock()
}

func (o *observer) number() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	n := 0
	for _, s := range o.list {
		if !strings.HasSuffix(s.kind, "-list") { // which can be empty
			n++
		}
	}
	return n
}

func flatMat(m []libunlynx.CipherVector) string {
	d := ""
	for _, v := range m {
		d += vecBytes(v)
	}
	return d
}

// verify checks all proofs at both moments and indexes the contents of those
// that verify.
func (o *observer) verify(t *T, what string) {
	o.mu.Lock()
	list := append([]*seenProof{}, o.list...)
	o.mu.Unlock()
	o.add, o.tag, o.tagLast, o.sums, o.countKind = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	o.tagPub, o.ks, o.aggr = map[string]map[string]bool{}, map[string]map[string]bool{}, map[string][]string{}
	o.shuf = map[string][]*libunlynxshuffle.PublishedShufflingProof{}
	late := make([]bool, len(list))
	wg := sync.WaitGroup{}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(list); i += 8 {
				noPanic(func() { late[i] = list[i].verify() })
			}
		}(w)
	}
	wg.Wait()
	for i, s := range list {
		o.countKind[s.kind]++
		t.Count("proofs:"+s.kind, 1)
		t.Check(s.early, "does-not-verify:"+s.kind, "%s: a proof of kind %s does not verify when it is made", what, s.kind)
		if s.early {
			t.Check(late[i], "verifies-no-more:"+s.kind, "%s: a proof of kind %s verifies when it is made but no longer after the run", what, s.kind)
		}
		if !s.early || !late[i] {
			continue
		}
		switch p := s.single.(type) {
		case libunlynxdetertag.PublishedDDTCreationProof:
			k := ctBytes(&p.CTbef) + ctBytes(&p.CTaft)
			o.tag[k]++
			o.tagLast[ctBytes(&p.CTbef)+ps(p.CTaft.C)]++
			for _, key := range []string{k, ctBytes(&p.CTbef) + ps(p.CTaft.C), ctBytes(&p.CTbef)} {
				if o.tagPub[key] == nil {
					o.tagPub[key] = map[string]bool{}
				}
				o.tagPub[key][ps(s.pub)] = true
			}
		case libunlynxdetertag.PublishedDDTAdditionProof:
			o.add[ps(p.C1)+ps(p.R)]++
		case libunlynxkeyswitch.PublishedKSProof:
			k := ps(p.RbNeg) + ps(p.ViB) + ps(p.Ks2) + ps(p.Q)
			if o.ks[k] == nil {
				o.ks[k] = map[string]bool{}
			}
			o.ks[k][ps(p.K)] = true
		case libunlynxaggr.PublishedAggregationProof:
			o.indexSum(s)
		case libunlynxshuffle.PublishedShufflingProof:
			q := p
			k := flatMat(p.OriginalList)
			o.shuf[k] = append(o.shuf[k], &q)
		}
	}
}

// --- decoding messages -------------------------------------------------------

type wct struct{ k, c string } // a ciphertext on the wire

func (w wct) all() string { return w.k + w.c }

func (w wct) ct() libunlynx.CipherText {
	c := libunlynx.CipherText{K: suite.Point(), C: suite.Point()}
	must(c.K.UnmarshalBinary([]byte(w.k)))
	must(c.C.UnmarshalBinary([]byte(w.c)))
	return c
}

func cut(b []byte) []wct {
	var out []wct
	for i := 0; i+64 <= len(b); i += 64 {
		out = append(out, wct{string(b[i : i+32]), string(b[i+32 : i+64])})
	}
	return out
}

func joinW(l []wct) string {
	s := ""
	for _, w := range l {
		s += w.all()
	}
	return s
}

// data gives the payloads of the ring protocols in order.
func (r *round) data() [][]wct {
	var out [][]wct
	for _, m := range r.msgs {
		switch x := m.msg.(type) {
		case *protocolsunlynx.DeterministicTaggingBytesMessage:
			out = append(out, cut(x.Data))
		case *protocolsunlynx.ShufflingBytesMessage:
			out = append(out, cut(x.Data))
		case *protocolsunlynx.ShufflingPlusDDTBytesMessage:
			out = append(out, cut(x.Data))
		}
	}
	return out
}

func (o *observer) addStep(t *T, from, to []wct, what string) {
	need := map[string]int{}
	for j := range from {
		need[from[j].c+to[j].c]++
	}
	bad := 0
	for k, n := range need {
		if o.add[k] < n {
			bad++
		}
	}
	t.Count("elements_covered:tag-addition", int64(len(from)))
	t.Check(bad == 0, "not-covered:tag-addition", "%s: %d of %d additions have no verifying proof", what, bad, len(need))
}

// tagStep checks a tagging step and returns who proved it; last: the first
// component of the result is not known.
func (o *observer) tagStep(t *T, from []wct, key func(j int) string, counts map[string]int, what string) map[string]bool {
	need := map[string]int{}
	for j := range from {
		need[key(j)]++
	}
	bad := 0
	var who map[string]bool
	for k, n := range need {
		if counts != nil && counts[k] < n || counts == nil && len(o.tagPub[k]) == 0 {
			bad++
			continue
		}
		pubs := o.tagPub[k]
		if who == nil {
			who = map[string]bool{}
			for p := range pubs {
				who[p] = true
			}
		}
		for p := range who {
			if !pubs[p] {
				delete(who, p)
			}
		}
	}
	t.Count("elements_covered:tag", int64(len(from)))
	if t.Check(bad == 0, "not-covered:tag", "%s: %d of %d taggings have no verifying proof", what, bad, len(need)) && len(from) > 0 {
		t.Check(len(who) > 0, "not-covered:tag", "%s: the taggings of one server are not all proved under its key", what)
	}
	return who
}

// provers checks that the steps can be assigned to different servers of the
// roster (each step has at most a few candidates).
func provers(t *T, steps []map[string]bool, roster []string, key, what string) {
	var try func(i int, used map[string]bool) bool
	try = func(i int, used map[string]bool) bool {
		if i == len(steps) {
			return true
		}
		for _, p := range roster {
			if steps[i][p] && !used[p] {
				used[p] = true
				if try(i+1, used) {
					return true
				}
				delete(used, p)
			}
		}
		return false
	}
	t.Check(try(0, map[string]bool{}), key, "%s: the proofs of %d steps are not those of %d different servers of the roster", what, len(steps), len(roster))
}

func pubsOf(ro *onet.Roster) []string {
	var l []string
	for _, s := range ro.List {
		l = append(l, ps(s.Public))
	}
	return l
}

func (o *observer) judgeDDT(t *T, r *round, ro *onet.Roster, tags []kyber.Point, what string) {
	n := len(ro.List)
	d := r.data()
	if !t.Check(len(d) == 2*n, "messages", "%s: %d messages of tagging between %d servers", what, len(d), n) {
		return
	}
	for i := 0; i < n; i++ {
		if !t.Check(len(d[i]) == len(d[i+1]), "messages", "%s: addition turns %d elements into %d", what, len(d[i]), len(d[i+1])) {
			return
		}
		o.addStep(t, d[i], d[i+1], fmt.Sprintf("%s: addition by server %d of %d on the way", what, i, n))
	}
	var steps []map[string]bool
	for i := n; i < 2*n; i++ {
		from := d[i]
		w := fmt.Sprintf("%s: tagging by server %d of %d on the way", what, i-n, n)
		if i < 2*n-1 {
			to := d[i+1]
			if !t.Check(len(from) == len(to), "messages", "%s: %d elements become %d", w, len(from), len(to)) {
				return
			}
			steps = append(steps, o.tagStep(t, from, func(j int) string { return from[j].all() + to[j].all() }, o.tag, w))
		} else if tags != nil {
			if len(tags) != len(from) {
				return
			}
			steps = append(steps, o.tagStep(t, from, func(j int) string { return from[j].all() + ps(tags[j]) }, o.tagLast, w))
		} else {
			steps = append(steps, o.tagStep(t, from, func(j int) string { return from[j].all() }, nil, w))
		}
	}
	if len(d[0]) > 0 {
		provers(t, steps, pubsOf(ro), "not-covered:tag", what)
	}
}

// judgeShuf: in and out are nil when they are not known.
func (o *observer) judgeShuf(t *T, r *round, ro *onet.Roster, in, out []libunlynx.CipherVector, known bool, what string) {
	d := r.data()
	if !t.Check(len(d) == len(ro.List), "messages", "%s: %d messages of shuffling between %d servers", what, len(d), len(ro.List)) {
		return
	}
	var all []*libunlynxshuffle.PublishedShufflingProof
	for _, l := range o.shuf {
		all = append(all, l...)
	}
	has := func(l []*libunlynxshuffle.PublishedShufflingProof, to string) bool {
		for _, p := range l {
			if flatMat(p.ShuffledList) == to && p.H.Equal(ro.Aggregate) {
				return true
			}
		}
		return false
	}
	for i := range d {
		to := joinW(d[i])
		l := all
		if i > 0 {
			l = o.shuf[joinW(d[i-1])]
		} else if known {
			l = o.shuf[flatMat(in)]
		}
		t.Count("elements_covered:shuffle", int64(len(d[i])))
		t.Check(has(l, to), "not-covered:shuffle", "%s: the step of server %d of %d on the way (%d ciphertexts) has no verifying proof", what, i, len(d), len(d[i]))
	}
	if known && out != nil {
		t.Check(flatMat(out) == joinW(d[len(d)-1]), "not-covered:shuffle", "%s: the result is not what the last proof is about", what)
	}
}

func (o *observer) judgeSDDT(t *T, r *round, ro *onet.Roster, tags []kyber.Point, what string) {
	n := len(ro.List)
	d := r.data()
	if !t.Check(len(d) == n, "messages", "%s: %d messages between %d servers", what, len(d), n) {
		return
	}
	var steps []map[string]bool
	for i := 0; i < n; i++ {
		w := fmt.Sprintf("%s: server %d of %d on the way (%d ciphertexts)", what, i, n, len(d[i]))
		cands := o.shuf[joinW(d[i])]
		if !t.Check(len(cands) > 0, "not-covered:shuffle", "%s: its shuffle has no verifying proof", w) {
			continue
		}
		t.Count("elements_covered:shuffle", int64(len(d[i])))
		if len(d[i]) == 0 {
			continue
		}
		// the one whose result was tagged
		best, bestBad := "", -1
		for _, p := range cands {
			var sh []wct
			for _, row := range p.ShuffledList {
				for j := range row {
					sh = append(sh, wct{ps(row[j].K), ps(row[j].C)})
				}
			}
			bad := 0
			var who map[string]bool
			for j := range sh {
				okay := false
				if i < n-1 {
					out := d[i+1][j]
					for key, pubs := range o.tagsFrom(sh[j].k, out.all(), false) {
						if o.add[sh[j].c+key] > 0 {
							okay = true
							who = meet(who, pubs)
						}
					}
				} else if tags != nil && j < len(tags) {
					for key, pubs := range o.tagsFrom(sh[j].k, ps(tags[j]), true) {
						if o.add[sh[j].c+key] > 0 {
							okay = true
							who = meet(who, pubs)
						}
					}
				}
				if !okay {
					bad++
				}
			}
			if bestBad < 0 || bad < bestBad {
				bestBad, best = bad, fmt.Sprint(len(sh))
				if bad == 0 {
					steps = append(steps, who)
				}
			}
			if bad == 0 {
				break
			}
		}
		t.Count("elements_covered:tag", int64(len(d[i])))
		t.Check(bestBad == 0, "not-covered:tag", "%s: %d of %s shuffled ciphertexts have no proofs of addition and tagging", w, bestBad, best)
	}
	if len(d[0]) > 0 && len(steps) == n {
		provers(t, steps, pubsOf(ro), "not-covered:tag", what)
	}
}

func meet(a, b map[string]bool) map[string]bool {
	out := map[string]bool{}
	for p := range b {
		if a == nil || a[p] {
			out[p] = true
		}
	}
	return out
}

// tagsFrom finds the verified taggings of a ciphertext with first component k
// that give the result; the answer is by second component of the ciphertext.
func (o *observer) tagsFrom(k, result string, last bool) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for _, s := range o.list {
		p, ok := s.single.(libunlynxdetertag.PublishedDDTCreationProof)
		if !ok || ps(p.CTbef.K) != k {
			continue
		}
		if !last && ctBytes(&p.CTaft) != result || last && ps(p.CTaft.C) != result {
			continue
		}
		if o.tag[ctBytes(&p.CTbef)+ctBytes(&p.CTaft)] == 0 {
			continue // did not verify
		}
		c := ps(p.CTbef.C)
		if out[c] == nil {
			out[c] = map[string]bool{}
		}
		out[c][ps(s.pub)] = true
	}
	return out
}

// judgeKS recovers each server's contribution from what it received and sent.
func (o *observer) judgeKS(t *T, r *round, ro *onet.Roster, target, res libunlynx.CipherVector, q kyber.Point, what string) {
	n := len(ro.List)
	var rbs []string
	sent := map[string][]wct{}
	got := map[string][][]wct{}
	down := map[string]bool{}
	for _, m := range r.msgs {
		switch x := m.msg.(type) {
		case *protocolsunlynx.DownMessageBytes:
			rbs = nil
			for i := 32; i+32 <= len(x.Data); i += 32 {
				rbs = append(rbs, string(x.Data[i:i+32]))
			}
			if len(x.Data) >= 32 {
				t.Check(q == nil || string(x.Data[:32]) == ps(q), "messages", "%s: the key on the wire is not the target key", what)
				q = suite.Point()
				must(q.UnmarshalBinary(x.Data[:32]))
			}
			down[m.to] = true
		case *protocolsunlynx.UpBytesMessage:
			sent[m.from] = cut(x.Data)
			got[m.to] = append(got[m.to], cut(x.Data))
		}
	}
	if target != nil {
		rbs = nil
		for i := range target {
			rbs = append(rbs, ps(target[i].K))
		}
	}
	t.Check(len(sent) == n-1, "messages", "%s: %d servers of %d answer the key switching", what, len(sent), n)
	var steps []map[string]bool
	var nodes []string
	for s := range sent {
		nodes = append(nodes, s)
	}
	sort.Strings(nodes)
	judge := func(own func(j int) (kyber.Point, kyber.Point), w string) {
		bad := 0
		var who map[string]bool
		for j := range rbs {
			rb := suite.Point()
			must(rb.UnmarshalBinary([]byte(rbs[j])))
			k, c := own(j)
			pubs := o.ks[ps(suite.Point().Neg(rb))+ps(k)+ps(c)+ps(q)]
			if len(pubs) == 0 {
				bad++
				continue
			}
			who = meet(who, pubs)
		}
		t.Count("elements_covered:key-switch", int64(len(rbs)))
		if t.Check(bad == 0, "not-covered:key-switch", "%s: %d of %d contributions have no verifying proof", w, bad, len(rbs)) {
			steps = append(steps, who)
		}
	}
	for _, s := range nodes {
		if !t.Check(len(sent[s]) == len(rbs), "messages", "%s: a server answers with %d of %d", what, len(sent[s]), len(rbs)) {
			return
		}
		judge(func(j int) (kyber.Point, kyber.Point) {
			c := sent[s][j].ct()
			for _, g := range got[s] {
				x := g[j].ct()
				c.K, c.C = suite.Point().Sub(c.K, x.K), suite.Point().Sub(c.C, x.C)
			}
			return c.K, c.C
		}, what+": a server below the root")
	}
	if res != nil && len(res) == len(rbs) {
		root := ""
		for to := range got {
			if _, ok := sent[to]; !ok {
				root = to
			}
		}
		judge(func(j int) (kyber.Point, kyber.Point) {
			k, c := res[j].K, suite.Point().Sub(res[j].C, target[j].C)
			for _, g := range got[root] {
				x := g[j].ct()
				k, c = suite.Point().Sub(k, x.K), suite.Point().Sub(c, x.C)
			}
			return k, c
		}, what+": the root")
	} else if res == nil {
		// the root's contribution is not known, but it proves something for all
		bad := 0
		for j := range rbs {
			rb := suite.Point()
			must(rb.UnmarshalBinary([]byte(rbs[j])))
			neg := ps(suite.Point().Neg(rb))
			pubs := map[string]bool{}
			for k, v := range o.ks {
				if k[:32] == neg && k[96:] == ps(q) {
					for p := range v {
						pubs[p] = true
					}
				}
			}
			if len(pubs) != n {
				bad++
			}
		}
		t.Check(bad == 0, "not-covered:key-switch", "%s: %d of %d entries are not proved by all %d servers", what, bad, len(rbs), n)
	}
	if len(rbs) > 0 {
		provers(t, steps, pubsOf(ro), "not-covered:key-switch", what)
	}
}

// aggrGaps counts the values sent up, those that are no proved sum, those that
// no sum of the parent is proved to contain, and those that the root receives
// and are in no proved sum with a first component in ends.
func (o *observer) aggrGaps(r *round, ends map[string]bool) (n, bad, badIn, badEnd int) {
	type lens struct{ g, a, d int }
	lengths := map[string]lens{}
	senders := map[string]bool{}
	o.mu.Lock()
	msgs := append([]wireRec{}, r.msgs...)
	o.mu.Unlock()
	for _, m := range msgs {
		if x, ok := m.msg.(*protocolsunlynx.CADBLengthMessage); ok {
			lengths[m.from] = lens{x.GacbLength, x.AabLength, x.DtbLength}
		}
		if _, ok := m.msg.(*protocolsunlynx.ChildAggregatedDataBytesMessage); ok {
			senders[m.from] = true
		}
	}
	for _, m := range msgs {
		x, ok := m.msg.(*protocolsunlynx.ChildAggregatedDataBytesMessage)
		if !ok {
			continue
		}
		l := lengths[m.from]
		dec := protocolsunlynx.ChildAggregatedDataMessage{}
		if err := dec.FromBytes(x.Data, l.g, l.a, l.d); err != nil {
			return n, n + 1, 0, 0
		}
		for _, f := range dec.ChildData {
			for j := range f.Fr.AggregatingAttributes {
				n++
				b := ctBytes(&f.Fr.AggregatingAttributes[j])
				if o.sums[b] == 0 {
					bad++
				}
				// consumed by the parent: it is an addend of a sum that is not itself alone
				if len(o.aggr[b]) < 2 { // the sender's own proof may have it as its only addend
					one := false
					for _, s := range o.aggr[b] {
						one = one || s != b
					}
					if !one && !(len(o.aggr[b]) == 1 && o.sumsOnly(b)) {
						badIn++
					}
				}
				if !senders[m.to] && ends != nil {
					hit := false
					for _, s := range o.aggr[b] {
						hit = hit || ends[s[:32]]
					}
					if !hit {
						badEnd++
					}
				}
			}
		}
	}
	return n, bad, badIn, badEnd
}

// judgeAggr checks the ascending aggregation; the keys of ends are the first
// components of the ciphertexts of which the root's results must be a part.
func (o *observer) judgeAggr(t *T, r *round, res map[libunlynx.GroupingKey]libunlynx.FilteredResponse, ends map[string]bool, what string) {
	n, bad, badIn, badEnd := o.aggrGaps(r, ends)
	t.Count("elements_covered:aggregation", int64(n))
	t.Check(bad == 0, "not-covered:aggregation", "%s: %d of %d sums sent to a parent have no verifying proof", what, bad, n)
	t.Check(badIn == 0, "not-covered:aggregation", "%s: %d of %d sums received from a child are in no verifying proof of the parent", what, badIn, n)
	t.Check(badEnd == 0, "not-covered:aggregation", "%s: %d sums received by the root are in no verifying proof of a result", what, badEnd)
	if res != nil {
		bad, n = 0, 0
		for _, f := range res {
			for j := range f.AggregatingAttributes {
				n++
				if o.sums[ctBytes(&f.AggregatingAttributes[j])] == 0 {
					bad++
				}
			}
		}
		t.Check(bad == 0, "not-covered:aggregation", "%s: %d of %d results have no verifying proof", what, bad, n)
	}
}

// sumsOnly: the sum is the sum of other things, so an occurrence of it as an
// addend is somebody else's.
func (o *observer) sumsOnly(b string) bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, s := range o.list {
		p, ok := s.single.(libunlynxaggr.PublishedAggregationProof)
		if ok && ctBytes(&p.AggregationResult) == b {
			self := false
			for j := range p.Data {
				self = self || ctBytes(&p.Data[j]) == b
			}
			if !self {
				return true
			}
		}
	}
	return false
}

// --- runs ---------------------------------------------------------------------

// settle waits for the proofs that servers make after they have sent their
// answer, the run being over for the root.
func (o *observer) settle(proofs bool) {
	for end := time.Now().Add(10 * time.Second); proofs && time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		o.index()
		gaps := 0
		o.mu.Lock()
		var rs []*round
		for _, r := range o.rounds {
			rs = append(rs, r)
		}
		o.mu.Unlock()
		for _, r := range rs {
			_, a, b, _ := o.aggrGaps(r, nil)
			gaps += a + b
		}
		if gaps == 0 {
			break
		}
	}
}

// index lists the sums that are proved.
func (o *observer) index() {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.aggr, o.sums = map[string][]string{}, map[string]int{}
	for _, s := range o.list {
		o.indexSum(s)
	}
}

func (o *observer) indexSum(s *seenProof) {
	if p, ok := s.single.(libunlynxaggr.PublishedAggregationProof); ok {
		r := ctBytes(&p.AggregationResult)
		o.sums[r]++
		for j := range p.Data {
			d := ctBytes(&p.Data[j])
			o.aggr[d] = append(o.aggr[d], r)
		}
	}
}

// c24Observed runs f under the observer with the schedule, verifies what was
// proved (or that nothing was) and returns the runs seen.
func c24Observed(t *T, mode string, proofs bool, what string, f func()) (*observer, []*round, string) {
	o := watchProofs()
	defer libunlynx.SetVerifProofHook(func(string, ...interface{}) {})
	s := newSched(t.R, mode, o.wire)
	f()
	o.settle(proofs)
	sig := s.done(t)
	if !proofs {
		t.Check(o.number() == 0, "unasked", "%s: %d proofs are made with proofs off", what, o.number())
		t.Trivial()
		return nil, nil, sig
	}
	o.verify(t, what)
	var l []*round
	for _, id := range o.order {
		l = append(l, o.rounds[id])
	}
	return o, l, sig
}

func c24DDT(t *T, nc netCase) {
	cl, ro, tr := nc.build(t)
	sv := newTagSurvey(cl)
	var tags []kyber.Point
	what := "tagging, " + nc.String()
	o, rs, sig := c24Observed(t, nc.sched, nc.proofs, what, func() { tags = runDDT(t, sv, nc, 8, cl, ro, tr) })
	if o == nil {
		return
	}
	if t.Check(len(rs) == 1, "messages", "%s: %d runs seen", what, len(rs)) {
		o.judgeDDT(t, rs[0], ro, tags, what)
	}
	c24Booked(t, o, nc, "ddt", sig)
}

func c24Booked(t *T, o *observer, nc netCase, kind, sig string) {
	if len(o.list) > 0 {
		t.Nontrivial("%s/%v/%s", kind, nc, sig)
	} else {
		t.Trivial()
	}
}

func c24Concurrent(t *T, n int) {
	cl := getCluster(n)
	sv := newTagSurvey(cl)
	type job struct {
		nc   netCase
		ro   *onet.Roster
		tags []kyber.Point
	}
	jobs := map[string]*job{}
	var mu sync.Mutex
	o, rs, sig := c24Observed(t, "jitter", true, "concurrent tagging", func() {
		used := map[onet.TreeID]bool{}
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			nc := netCase{n: n, kind: treeKinds[i%5], size: []int{3, 17, 9, 101}[i], sched: "jitter", proofs: true}
			ro, tr := cl.distinctTree(nc.kind, t.R, used)
			f := t.fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				j := &job{nc: nc, ro: ro}
				j.tags = runDDT(f, sv, nc, 8, cl, ro, tr)
				mu.Lock()
				jobs[fmt.Sprint(len(j.tags))] = j
				mu.Unlock()
			}()
		}
		wg.Wait()
	})
	t.Check(len(rs) == 4, "messages", "%d of 4 concurrent runs seen", len(rs))
	for _, r := range rs {
		d := r.data()
		if len(d) == 0 {
			continue
		}
		if j := jobs[fmt.Sprint(len(d[0]))]; j != nil {
			o.judgeDDT(t, r, j.ro, j.tags, "one of four concurrent taggings, "+j.nc.String())
		}
	}
	t.Nontrivial("concurrent/%d/%s", n, sig)
}

func c24SDDT(t *T, nc netCase, width int, pre string) {
	cl, ro, tr := nc.build(t)
	sv := newTagSurvey(cl)
	m := matInts(t, nc.size, width)
	var tags []kyber.Point
	what := fmt.Sprintf("shuffling with tagging, %s, %d columns, table %q", nc, width, pre)
	o, rs, sig := c24Observed(t, nc.sched, nc.proofs, what, func() {
		for _, row := range runSDDT(t, sv, m, nc, pre, cl, tr) {
			tags = append(tags, row...)
		}
	})
	t.Check(len(tags) == nc.size*width, "length", "%s: %d tags", what, len(tags))
	if o == nil {
		return
	}
	if t.Check(len(rs) == 1, "messages", "%s: %d runs seen", what, len(rs)) {
		o.judgeSDDT(t, rs[0], ro, tags, what)
	}
	c24Booked(t, o, nc, fmt.Sprint("sddt", width, pre), sig)
}

func c24Shuffle(t *T, sc shufCase) {
	cl, ro, tr := sc.netCase.build(t)
	in := matInts(t, sc.size, sc.width)
	inC := t.encMat(ro.Aggregate, in)
	var out []libunlynx.CipherVector
	what := "shuffling, " + sc.String()
	secret, _ := newKey()
	var mu sync.Mutex
	var errs []error
	o, rs, sig := c24Observed(t, sc.sched, sc.proofs, what, func() {
		pi := cl.create("Shuffling", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynx.ShufflingProtocol)
			if tni.IsRoot() {
				p.ShuffleTarget = &inC
			}
			p.Proofs = sc.proofs
			p.ProofFunc = func(a, b []libunlynx.CipherVector, k kyber.Point, beta [][]kyber.Scalar, pi []int) *libunlynxshuffle.PublishedShufflingProof {
				pr, err := libunlynxshuffle.ShuffleProofCreation(a, b, suite.Point().Base(), k, beta, pi)
				if err != nil {
					mu.Lock()
					errs = append(errs, err)
					mu.Unlock()
				}
				return &pr
			}
			p.Precomputed = table(sc, ro.Aggregate, secret)
		})
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		go func() { must(p.Start()) }()
		out = <-p.FeedbackChannel
	})
	t.Check(sameMatInts(openMat(cl.secret(), out), in), "result", "%s: the result is not a permutation of the input", what)
	if o == nil {
		return
	}
	t.Check(len(errs) == 0, "does-not-prove", "%s: %v", what, errs)
	if sc.size*sc.width > 0 && t.Check(len(rs) == 1, "messages", "%s: %d runs seen", what, len(rs)) {
		o.judgeShuf(t, rs[0], ro, inC, out, true, what)
	}
	c24Booked(t, o, sc.netCase, fmt.Sprint("shuffle", sc.width, sc.pre), sig)
}

func sameMatInts(a, b [][]int64) bool {
	_, same := sameMultiset(rowStrings(a), rowStrings(b))
	return same
}

func c24KS(t *T, nc netCase) {
	cl, ro, tr := nc.build(t)
	ms := mixedInts(t, nc.size)
	cv := t.encVec(ro.Aggregate, ms)
	for i := range cv {
		if i > 0 && t.R.Intn(10) == 0 {
			cv[i], ms[i] = cloneCT(cv[i-1]), ms[i-1]
		}
	}
	orig := cloneVec(cv)
	qsk, q := newKey()
	var res libunlynx.CipherVector
	what := "key switching, " + nc.String()
	var mu sync.Mutex
	var errs []error
	o, rs, sig := c24Observed(t, nc.sched, nc.proofs, what, func() {
		pi := cl.create("KeySwitching", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynx.KeySwitchingProtocol)
			if tni.IsRoot() {
				p.TargetOfSwitch, p.TargetPublicKey = &cv, &q
			}
			p.Proofs = nc.proofs
			p.ProofFunc = func(pub, target kyber.Point, priv kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
				pr, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub, target, priv, ks2s, rBNegs, vis)
				if err != nil {
					mu.Lock()
					errs = append(errs, err)
					mu.Unlock()
				}
				return &pr
			}
		})
		p := pi.(*protocolsunlynx.KeySwitchingProtocol)
		must(p.Start())
		res = <-p.FeedbackChannel
	})
	checkVec(t, qsk, res, ms, "result", what)
	if o == nil {
		return
	}
	t.Check(len(errs) == 0, "does-not-prove", "%s: %v", what, errs)
	r := &round{}
	if len(rs) > 0 {
		r = rs[0]
	}
	o.judgeKS(t, r, ro, orig, res, q, what)
	c24Booked(t, o, nc, "ks", sig)
}

func c24Aggr(t *T, c aggrCase) {
	cl, ro, tr := c.netCase.build(t)
	deals := c.makeDeal(t)
	idx := map[network.ServerIdentityID]int{}
	var data []map[libunlynx.GroupingKey]libunlynx.FilteredResponse
	for i, si := range ro.List {
		idx[si.ID] = i
		m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		var keys []string
		for k := range deals[i] {
			keys = append(keys, string(k))
		}
		sort.Strings(keys)
		for _, k := range keys {
			m[libunlynx.GroupingKey(k)] = libunlynx.FilteredResponse{GroupByEnc: t.encVec(ro.Aggregate, randInts(t.R, c.genc, 50)), AggregatingAttributes: t.encVec(ro.Aggregate, deals[i][libunlynx.GroupingKey(k)])}
		}
		data = append(data, m)
	}
	// what each server starts from
	var start []string
	for _, m := range data {
		for _, f := range m {
			for j := range f.AggregatingAttributes {
				start = append(start, ctBytes(&f.AggregatingAttributes[j]))
			}
		}
	}
	var res map[libunlynx.GroupingKey]libunlynx.FilteredResponse
	what := "aggregation, " + c.String()
	o, rs, sig := c24Observed(t, c.sched, c.proofs, what, func() {
		pi := cl.create("CollectiveAggregation", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
			p.GroupedData = &data[idx[tni.ServerIdentity().ID]]
			p.Proofs = c.proofs
			p.ProofFunc = func(d []libunlynx.CipherVector, r libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
				pr := libunlynxaggr.AggregationListProofCreation(d, r)
				return &pr
			}
		})
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		must(p.Start())
		res = (<-p.FeedbackChannel).GroupedData
	})
	judgeGroups(t, cl.secret(), res, sums(deals), false, "result", what)
	if o == nil {
		return
	}
	bad := 0
	for _, b := range start {
		if len(o.aggr[b]) == 0 {
			bad++
		}
	}
	t.Check(bad == 0, "not-covered:aggregation", "%s: %d of %d ciphertexts the servers start from are in no verifying proof", what, bad, len(start))
	r := &round{}
	if len(rs) > 0 {
		r = rs[0]
	}
	o.judgeAggr(t, r, res, nil, what)
	c24Booked(t, o, c.netCase, fmt.Sprint("aggregation", c.width, c.deal), sig)
}

// c24Store pushes rows to the store in batches, as a server of a survey does.
func c24Store(t *T, batches, rows, groups, width int, proofs bool) {
	sk, pub := newKey()
	what := fmt.Sprintf("store, %d batches of up to %d rows in %d groups, %d values, proofs %v", batches, rows, groups, width, proofs)
	st := libunlynxstore.NewStore()
	want := dealt{}
	var addends []string
	total := 0
	o, _, sig := c24Observed(t, "none", proofs, what, func() {
		for b := 0; b < batches; b++ {
			var l []libunlynx.FilteredResponseDet
			n := t.R.Intn(rows + 1)
			for i := 0; i < n; i++ {
				g := libunlynx.GroupingKey(fmt.Sprint("g", t.R.Intn(groups)))
				v := randInts(t.R, width, 20)
				if want[g] == nil {
					want[g] = make([]int64, width)
				}
				for j := range v {
					want[g][j] += v[j]
				}
				f := libunlynx.FilteredResponse{GroupByEnc: encVec(pub, []int64{1}), AggregatingAttributes: encVec(pub, v)}
				for j := range f.AggregatingAttributes {
					addends = append(addends, ctBytes(&f.AggregatingAttributes[j]))
				}
				l = append(l, libunlynx.FilteredResponseDet{DetTagGroupBy: g, Fr: f})
				total++
			}
			st.PushDeterministicFilteredResponses(l, "server", proofs)
		}
	})
	res := st.PullLocallyAggregatedResponses()
	judgeGroups(t, sk, res, want, false, "result", what)
	if o == nil {
		return
	}
	bad := 0
	for _, a := range addends {
		if len(o.aggr[a]) == 0 {
			bad++
		}
	}
	t.Check(bad == 0, "not-covered:aggregation", "%s: %d of %d pushed ciphertexts are in no verifying proof", what, bad, len(addends))
	bad = 0
	for _, f := range res {
		for j := range f.AggregatingAttributes {
			if o.sums[ctBytes(&f.AggregatingAttributes[j])] == 0 {
				bad++
			}
		}
	}
	t.Check(bad == 0, "not-covered:aggregation", "%s: %d local sums have no verifying proof", what, bad)
	t.Count("elements_covered:aggregation", int64(len(addends)))
	if total > 0 {
		t.Nontrivial("store/%d/%d/%d/%d/%s", batches, total, groups, width, sig)
	} else {
		t.Trivial()
	}
}

func c24Local(t *T, proofs bool) {
	cl := getCluster(1)
	ro := cl.roster(nil)
	tr := cl.tree(ro, "star", t.R)
	sk, pub := newKey()
	// local aggregation
	l := randRows(t, []int{1, 12, 140, 0, 40}[t.R.Intn(5)], 1+t.R.Intn(2), 1+t.R.Intn(4), t.R.Intn(2))
	o, _, _ := c24Observed(t, "none", proofs, "local aggregation", func() {
		aggrJob(t, cl, tr, sk, pub, l, proofs, "local aggregation").run(t, 0)
	})
	if o != nil {
		kept := 0
		for i := range l.keep {
			if l.keep[i] {
				kept += len(l.vals[i])
			}
		}
		addends := 0
		for _, s := range o.aggr {
			addends += len(s)
		}
		t.Check(addends >= kept, "not-covered:aggregation", "local aggregation: the verifying proofs have %d addends, %d ciphertexts were summed", addends, kept)
		want := 0
		for _, v := range l.sums() {
			want += len(v)
		}
		t.Check(len(o.sums) >= want, "not-covered:aggregation", "local aggregation: %d sums proved of %d", len(o.sums), want)
		t.Count("elements_covered:aggregation", int64(kept))
		t.Nontrivial("local/%d/%d", kept, want)
	}
	// adding and removing a server
	n := []int{0, 1, 9, 101, 130}[t.R.Intn(5)]
	k, _ := newKey()
	add := t.R.Intn(2) == 0
	ms := mixedInts(t, n)
	in := t.encVec(pub, ms)
	var out *libunlynx.CipherVector
	o, _, _ = c24Observed(t, "none", proofs, "add/remove", func() {
		var j *utilJob
		j, out = armJob(t, cl, tr, sk, k, in, ms, add, proofs, "add/remove")
		j.run(t, 0)
	})
	if o != nil {
		have := map[string]int{}
		for _, s := range o.list {
			if p, ok := s.single.(libunlynxaddrm.PublishedAddRmProof); ok && s.early {
				have[ctBytes(&p.CtBef)+ctBytes(&p.CtAft)]++
			}
		}
		bad := 0
		for i := range *out {
			if have[ctBytes(&in[i])+ctBytes(&(*out)[i])] == 0 {
				bad++
			}
		}
		t.Check(bad == 0, "not-covered:add-remove", "add/remove: %d of %d ciphertexts have no verifying proof", bad, n)
		t.Count("elements_covered:add-remove", int64(n))
		t.Nontrivial("add-remove/%d/%v", n, add)
	}
}

// c24Survey runs a whole survey and judges all steps of all servers.
func c24Survey(t *T, cl *scluster, sh surveyShape, members []int, mode string) {
	q := sh.query(t.R)
	s := cl.newSurvey(q, members, members[t.R.Intn(len(members))], false)
	s.subs = sh.data(t.R, q, members)
	what := "survey, " + sh.String()
	ok := false
	o, rs, sig := c24Observed(t, mode, sh.proofs, what, func() { ok = s.run(t, "result", true) })
	if o == nil || !ok {
		return
	}
	ends := map[string]bool{}
	kinds := map[string]int{}
	for _, r := range rs {
		kinds[r.proto]++
		for _, m := range r.msgs {
			if x, isDown := m.msg.(*protocolsunlynx.DownMessageBytes); isDown {
				for i := 32; i+32 <= len(x.Data); i += 32 {
					ends[string(x.Data[i:i+32])] = true
				}
			}
		}
	}
	width := len(q.sum) + len(q.where) + len(q.groupBy)
	for _, r := range rs {
		switch r.proto {
		case protocolsunlynx.ShufflingProtocolName:
			o.judgeShuf(t, r, s.ro, nil, nil, false, what)
			if d := r.data(); len(q.where) == 0 && len(d) > 0 {
				// all rows of the last message are summed locally
				last, in := d[len(d)-1], 0
				for _, w := range last {
					if len(o.aggr[w.all()]) > 0 {
						in++
					}
				}
				need := 0
				if width > 0 {
					need = len(last) / width * len(q.sum)
				}
				t.Check(in >= need, "not-covered:aggregation", "%s: %d values of %d rows summed locally are in a verifying proof", what, in, len(last)/width)
				t.Count("elements_covered:aggregation", int64(need))
			}
		case protocolsunlynx.DeterministicTaggingProtocolName:
			o.judgeDDT(t, r, s.ro, nil, what)
		case protocolsunlynx.CollectiveAggregationProtocolName:
			if len(members) > 1 {
				o.judgeAggr(t, r, nil, ends, what)
			}
		case protocolsunlynx.KeySwitchingProtocolName:
			if len(members) > 1 {
				o.judgeKS(t, r, s.ro, nil, nil, nil, what)
			}
		}
	}
	n := len(members)
	holders := map[int]bool{}
	for _, x := range s.subs {
		if len(x.resps) > 0 {
			holders[x.server] = true
		}
	}
	t.Check(kinds[protocolsunlynx.ShufflingProtocolName] >= len(holders) && kinds[protocolsunlynx.DeterministicTaggingProtocolName] >= len(holders), "messages", "%s: %v runs with %d servers holding data", what, kinds, len(holders))
	if len(o.list) > 0 {
		t.Nontrivial("survey/%v/%d/%s", sh, n, sig)
	} else {
		t.Trivial()
	}
}

func c24Cases(tier string, seed int64) []Case {
	var out []Case
	ns := []int{1, 2, 3, 5}
	reps := 1
	if tier == "thorough" {
		ns = []int{1, 2, 3, 4, 5, 6, 8}
		reps = 6
	}
	k := 0
	mk := func(n, size int, proofs bool) netCase {
		k++
		return netCase{n: n, kind: treeKinds[k%len(treeKinds)], size: size, sched: schedModes[k%len(schedModes)], perm: k%3 != 0, proofs: proofs}
	}
	for _, n := range ns {
		for rep := 0; rep < reps; rep++ {
			n := n
			var ddt, ks, sd []netCase
			var sh []shufCase
			var ag []aggrCase
			for i, size := range []int{1, 7, 101, 0, 30} {
				if n > 3 && size > 100 && tier != "thorough" {
					size = 40
				}
				on := i != 1
				ddt, ks = append(ddt, mk(n, size, on)), append(ks, mk(n, size, on))
				sd = append(sd, mk(n, []int{1, 3, 8, 0, 5}[i], on))
				sh = append(sh, shufCase{mk(n, []int{1, 2, 12, 0, 5}[i], on), []int{1, 3, 2, 1, 4}[(i+rep)%5], []string{"", "exact", "", "wide", ""}[(i+rep)%5], false})
				ag = append(ag, aggrCase{mk(n, []int{1, 3, 12, 2, 5}[i], on), 1 + i, []string{"all", "disjoint", "some", "one", "none"}[(i+rep)%5], i % 2, "tag"})
			}
			name := func(s string) string { return fmt.Sprintf("%s-%d-%d", s, n, rep) }
			out = append(out,
				Case{Name: name("tagging"), Cost: 1.2 * float64(n), Run: func(t *T) {
					for _, c := range ddt {
						c24DDT(t, c)
					}
				}},
				Case{Name: name("keyswitch"), Cost: 0.8 * float64(n), Run: func(t *T) {
					for _, c := range ks {
						c24KS(t, c)
					}
				}},
				Case{Name: name("shuffleddt"), Cost: 0.8 * float64(n), Run: func(t *T) {
					for i, c := range sd {
						c24SDDT(t, c, 1+(i+n)%3, []string{"", "exact", "wide"}[(i+n)%3])
					}
				}},
				Case{Name: name("shuffle"), Cost: 0.8 * float64(n), Run: func(t *T) {
					for _, c := range sh {
						c24Shuffle(t, c)
					}
				}},
				Case{Name: name("aggregation"), Cost: 0.4 * float64(n), Run: func(t *T) {
					for _, c := range ag {
						c24Aggr(t, c)
					}
				}})
			if n > 2 {
				out = append(out, Case{Name: name("concurrent"), Cost: 1.5 * float64(n), Run: func(t *T) { c24Concurrent(t, n) }})
			}
		}
	}
	for rep := 0; rep < reps; rep++ {
		rep := rep
		out = append(out, Case{Name: fmt.Sprintf("store-%d", rep), Cost: 1, Run: func(t *T) {
			for i := 0; i < 10; i++ {
				c24Store(t, 1+t.R.Intn(4), []int{1, 5, 30}[i%3], 1+t.R.Intn(3), 1+t.R.Intn(4), i%4 != 3)
			}
			for i := 0; i < 8; i++ {
				c24Local(t, i%4 != 3)
			}
		}})
		for _, n := range []int{1, 2, 3, 4} {
			n := n
			out = append(out, Case{Name: fmt.Sprintf("survey-%d-%d", n, rep), Cost: 5, Run: func(t *T) {
				for i := 0; i < 4; i++ {
					sh := surveyShape{sums: 1 + t.R.Intn(2), groups: (i + 1) % 3 % 2 * (1 + t.R.Intn(2)), where: i % 2 * (1 + t.R.Intn(2)), pred: i%2 == 1, count: t.R.Intn(3) == 0, proofs: i != 2, mode: []string{"per-row", "per-dp"}[i%2], rows: 3, subs: 4, domain: 2, one: i == 3}
					cl := getSCluster(4, false)
					c24Survey(t, cl, sh, randMembers(t.R, 4, n), schedModes[(i+n)%len(schedModes)])
				}
			}})
		}
	}
	return out
}
