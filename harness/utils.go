package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// utilJob is one instance of a single-server protocol and what its caller
// expects of it.
type utilJob struct {
	what  string
	start func() error
	take  func(limit time.Duration) bool // waits for the result and judges it
	size  int
}

// feedbackLimit is how long a caller waits for a local computation of a few
// hundred ciphertexts; it is far above what a loaded machine needs.
const feedbackLimit = 120 * time.Second

// run starts the job and judges its result. pause delays the caller's read.
func (j *utilJob) run(t *T, pause time.Duration) {
	errs := make(chan error, 1)
	go func() { errs <- j.start() }()
	time.Sleep(pause)
	got := j.take(feedbackLimit)
	t.Check(got, "no-result", "%s: its caller gets no result", j.what)
	if got {
		select {
		case err := <-errs:
			t.Check(err == nil, "start", "%s: Start fails although a result was delivered: %v", j.what, err)
		case <-time.After(feedbackLimit):
			t.Fail("start-stuck", "%s: Start does not return", j.what)
		}
	} else {
		select {
		case err := <-errs:
			t.Sample("%s: Start: %v", j.what, err)
		default:
		}
	}
}

func (c *cluster) instance(name string, tr *onet.Tree) onet.ProtocolInstance {
	pi, err := c.local.CreateProtocol(name, tr)
	must(err)
	return pi
}

// armJob re-keys n ciphertexts made under pub (secret sk) for a server with
// the key k that joins or leaves.
func armJob(t *T, cl *cluster, tr *onet.Tree, sk, k kyber.Scalar, in libunlynx.CipherVector, ms []int64, add, proofs bool, what string) (*utilJob, *libunlynx.CipherVector) {
	p := cl.instance(protocolsunlynxutils.AddRmServerProtocolName, tr).(*protocolsunlynxutils.AddRmServerProtocol)
	p.TargetOfTransformation, p.KeyToRm, p.Add, p.Proofs = in, k, add, proofs
	before := vecBytes(in)
	kBefore := k.String()
	out := new(libunlynx.CipherVector)
	after := suite.Scalar().Add(sk, k)
	if !add {
		after = suite.Scalar().Sub(sk, k)
	}
	what = fmt.Sprintf("%s: %s of %d ciphertexts (proofs %v)", what, map[bool]string{true: "adding", false: "removing"}[add], len(in), proofs)
	return &utilJob{what: what, size: len(in), start: p.Start, take: func(limit time.Duration) bool {
		var res []libunlynx.CipherText
		select {
		case res = <-p.FeedbackChannel:
		case <-time.After(limit):
			return false
		}
		*out = res
		if !t.Check(len(res) == len(ms), "count", "%s gives %d ciphertexts", what, len(res)) {
			return true
		}
		for i := range res {
			if !t.Check(res[i].K != nil && res[i].C != nil && isEnc(after, &res[i], ms[i]), "plaintext", "%s: ciphertext %d does not hold %d under the new key", what, i, ms[i]) {
				break
			}
		}
		t.Count("re-keyed ciphertexts", int64(len(res)))
		t.Check(vecBytes(in) == before && k.String() == kBefore, "input-changed", "%s changes its input", what)
		return true
	}}, out
}

// localRows is data with groups for the two local aggregations.
type localRows struct {
	groups [][]int64
	vals   [][]int64
	keep   []bool // matches all where values
	where  [][]int64
}

func randRows(t *T, n, g, width, whr int) localRows {
	var l localRows
	names := make([][]int64, 1+t.R.Intn(6))
	for i := range names {
		names[i] = make([]int64, g)
		for j := range names[i] {
			names[i][j] = []int64{0, 1, 2, 10, 11, 100, -1, -10, 12345}[t.R.Intn(9)]
		}
	}
	for i := 0; i < n; i++ {
		l.groups = append(l.groups, names[t.R.Intn(len(names))])
		v := make([]int64, width)
		for j := range v {
			v[j] = []int64{0, 1, -1, 7, 40}[t.R.Intn(5)] * int64(1+t.R.Intn(3))
		}
		l.vals = append(l.vals, v)
		w := make([]int64, whr)
		all := true
		for j := range w {
			w[j] = 1
			if t.R.Intn(4) == 0 {
				w[j], all = 0, false
			}
		}
		l.where, l.keep = append(l.where, w), append(l.keep, all)
	}
	return l
}

func groupName(g []int64) string { return fmt.Sprint(g) }

// sums adds the kept rows up by group.
func (l localRows) sums() map[string][]int64 {
	out := map[string][]int64{}
	for i, g := range l.groups {
		if !l.keep[i] {
			continue
		}
		k := groupName(g)
		if out[k] == nil {
			out[k] = make([]int64, len(l.vals[i]))
		}
		for j, v := range l.vals[i] {
			out[k][j] += v
		}
	}
	return out
}

// aggrJob aggregates the kept rows locally, encrypted.
func aggrJob(t *T, cl *cluster, tr *onet.Tree, sk kyber.Scalar, pub kyber.Point, l localRows, proofs bool, what string) *utilJob {
	p := cl.instance(protocolsunlynxutils.LocalAggregationProtocolName, tr).(*protocolsunlynxutils.LocalAggregationProtocol)
	tag := func(g string) libunlynx.GroupingKey { return libunlynx.GroupingKey("tag of " + g) }
	byTag := map[libunlynx.GroupingKey][]int64{}
	n := 0
	var snaps []string
	for i, g := range l.groups {
		if !l.keep[i] {
			continue
		}
		n++
		byTag[tag(groupName(g))] = g
		fr := libunlynx.FilteredResponse{GroupByEnc: t.encVec(pub, g), AggregatingAttributes: t.encVec(pub, l.vals[i])}
		snaps = append(snaps, vecBytes(fr.GroupByEnc)+vecBytes(fr.AggregatingAttributes))
		p.TargetOfAggregation = append(p.TargetOfAggregation, libunlynx.FilteredResponseDet{DetTagGroupBy: tag(groupName(g)), Fr: fr})
	}
	p.Proofs = proofs
	target := p.TargetOfAggregation
	what = fmt.Sprintf("%s: aggregation of %d rows (proofs %v)", what, n, proofs)
	return &utilJob{what: what, size: n, start: p.Start, take: func(limit time.Duration) bool {
		var res map[libunlynx.GroupingKey]libunlynx.FilteredResponse
		select {
		case res = <-p.FeedbackChannel:
		case <-time.After(limit):
			return false
		}
		want := dealt{}
		for g, v := range l.sums() {
			want[tag(g)] = v
		}
		judgeGroups(t, sk, res, want, false, "aggregation", what)
		for k, fr := range res {
			if g := byTag[k]; g != nil {
				t.Check(fmt.Sprint(openVec(sk, fr.GroupByEnc)) == fmt.Sprint(g), "aggregation:group-attributes", "%s: group %v comes with the attributes of another", what, g)
			}
		}
		for i := range target {
			t.Check(vecBytes(target[i].Fr.GroupByEnc)+vecBytes(target[i].Fr.AggregatingAttributes) == snaps[i], "input-changed", "%s changes row %d of its input", what, i)
		}
		t.Count("aggregated rows", int64(n))
		return true
	}}
}

// clearRows writes the rows as clear responses, the first part of each kind
// of attribute in the clear fields and the rest in the "encrypted" ones.
func (l localRows) clearRows(t *T) []libunlynx.DpClearResponse {
	if len(l.groups) == 0 {
		return nil
	}
	gc := t.R.Intn(len(l.groups[0]) + 1)
	wc := t.R.Intn(len(l.where[0]) + 1)
	sc := t.R.Intn(len(l.vals[0]) + 1)
	var out []libunlynx.DpClearResponse
	cut := func(v []int64, c int, name string) (map[string]int64, map[string]int64) {
		return libunlynxtools.ConvertDataToMap(v[:c], name, 0), libunlynxtools.ConvertDataToMap(v[c:], name, c)
	}
	for i := range l.groups {
		var r libunlynx.DpClearResponse
		r.GroupByClear, r.GroupByEnc = cut(l.groups[i], gc, "g")
		r.WhereClear, r.WhereEnc = cut(l.where[i], wc, "w")
		r.AggregatingAttributesClear, r.AggregatingAttributesEnc = cut(l.vals[i], sc, "s")
		out = append(out, r)
	}
	return out
}

// attrs puts the attributes name0, name1.. of the two maps in order.
func attrs(name string, a, b map[string]int64) []int64 {
	out := make([]int64, len(a)+len(b))
	for i := range out {
		k := fmt.Sprint(name, i)
		if v, ok := a[k]; ok {
			out[i] = v
		} else {
			out[i] = b[k]
		}
	}
	return out
}

// judgeClear compares aggregated clear responses with the oracle's sums.
func judgeClear(t *T, res []libunlynx.DpClearResponse, l localRows, key, what string) {
	want := l.sums()
	seen := map[string]bool{}
	for _, r := range res {
		g := groupName(attrs("g", r.GroupByClear, r.GroupByEnc))
		if !t.Check(!seen[g], key+":split-group", "%s: group %s comes out twice", what, g) {
			continue
		}
		seen[g] = true
		w, ok := want[g]
		if !t.Check(ok, key+":new-group", "%s: group %s should not be there", what, g) {
			continue
		}
		v := attrs("s", r.AggregatingAttributesClear, r.AggregatingAttributesEnc)
		t.Check(fmt.Sprint(v) == fmt.Sprint(w), key+":sum", "%s: group %s sums to %v instead of %v", what, g, v, w)
	}
	for g := range want {
		t.Check(seen[g], key+":lost-group", "%s: group %s is missing", what, g)
	}
}

func clearJob(t *T, cl *cluster, tr *onet.Tree, l localRows, what string) *utilJob {
	p := cl.instance(protocolsunlynxutils.LocalClearAggregationProtocolName, tr).(*protocolsunlynxutils.LocalClearAggregationProtocol)
	in := l.clearRows(t)
	p.TargetOfAggregation = in
	before := clearDigest(in)
	what = fmt.Sprintf("%s: clear aggregation of %d rows", what, len(in))
	return &utilJob{what: what, size: len(in), start: p.Start, take: func(limit time.Duration) bool {
		var res []libunlynx.DpClearResponse
		select {
		case res = <-p.FeedbackChannel:
		case <-time.After(limit):
			return false
		}
		judgeClear(t, res, l, "clear", what)
		t.Check(clearDigest(in) == before, "input-changed", "%s changes its input", what)
		t.Count("aggregated clear rows", int64(len(in)))
		return true
	}}
}

// clearDigest prints responses (fmt prints maps sorted by key).
func clearDigest(l []libunlynx.DpClearResponse) string {
	var b strings.Builder
	for _, r := range l {
		fmt.Fprintln(&b, r.GroupByClear, r.GroupByEnc, r.WhereClear, r.WhereEnc, r.AggregatingAttributesClear, r.AggregatingAttributesEnc)
	}
	return b.String()
}

func sortedDigest(l []libunlynx.DpClearResponse) string {
	s := strings.Split(clearDigest(l), "\n")
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// proofJob verifies lists of proofs of all kinds, some of them with a bad
// proof at some position. The shuffles are under the key of the roster.
func proofJob(t *T, cl *cluster, ro *onet.Roster, tr *onet.Tree, n int, what string) *utilJob {
	p := cl.instance(protocolsunlynxutils.ProofsVerificationProtocolName, tr).(*protocolsunlynxutils.ProofsVerificationProtocol)
	want := make([]bool, 6)
	lens := make([]int, 6)
	for i := range lens {
		lens[i] = n
		if t.R.Intn(5) == 0 && n < 100 {
			lens[i] = 0
		}
	}
	bad := func(i int) (bool, int) {
		n := lens[i]
		want[i] = n == 0 || t.R.Intn(3) > 0 && n < 100
		if n == 0 {
			return false, 0
		}
		if t.R.Intn(3) == 0 || n >= 100 {
			return !want[i], n - 1
		}
		return !want[i], t.R.Intn(n)
	}
	var v protocolsunlynxutils.ProofsToVerify
	var err error

	ks := newKSStep(t, lens[0], "fresh")
	v.KeySwitchingProofs, err = ks.prove()
	must(err)
	if b, i := bad(0); b {
		v.KeySwitchingProofs.List[i].Ks2 = suite.Point().Add(v.KeySwitchingProofs.List[i].Ks2, pt(1))
	}
	tg := newTagStep(t, lens[1], "fresh")
	v.DetTagCreationProofs, err = tg.prove()
	must(err)
	if b, i := bad(1); b {
		c := &v.DetTagCreationProofs.List[i].CTaft
		c.C = suite.Point().Add(c.C, pt(1))
		v.DetTagCreationProofs.List[i].CTaft = *c
	}
	ad := newAddStep(t, lens[2], "fresh")
	v.DetTagAdditionProofs, err = ad.prove()
	must(err)
	if b, i := bad(2); b {
		v.DetTagAdditionProofs.List[i].R = suite.Point().Add(v.DetTagAdditionProofs.List[i].R, pt(1))
	}
	aggr := func(k int) libunlynxaggr.PublishedAggregationListProof {
		l := newAggStep(t, lens[k], 2, "fresh").prove()
		if b, i := bad(k); b {
			c := cloneCT(l.List[i].AggregationResult)
			c.C = suite.Point().Add(c.C, pt(1))
			l.List[i].AggregationResult = c
		}
		return l
	}
	v.AggregationProofs, v.CollectiveAggregationProofs = aggr(3), aggr(5)
	if n < 100 {
		lens[4] = minInt(lens[4], 4)
	}
	b, at := bad(4)
	for i := 0; i < lens[4]; i++ {
		in := []libunlynx.CipherVector{t.encVec(ro.Aggregate, []int64{1, 2}), t.encVec(ro.Aggregate, []int64{3, 4}), t.encVec(ro.Aggregate, []int64{5, 6})}
		g := suite.Point().Base()
		out, pi, beta := libunlynxshuffle.ShuffleSequence(in, g, ro.Aggregate, nil)
		pr, err := libunlynxshuffle.ShuffleProofCreation(in, out, g, ro.Aggregate, beta, pi)
		must(err)
		if b && i == at {
			l := cloneMat(pr.ShuffledList)
			l[1][0].C = suite.Point().Add(l[1][0].C, pt(1))
			pr.ShuffledList = l
		}
		v.ShufflingProofs.List = append(v.ShufflingProofs.List, pr)
	}
	p.TargetOfVerification = v
	what = fmt.Sprintf("%s: verification of lists of %v proofs", what, lens)
	return &utilJob{what: what, size: n, start: p.Start, take: func(limit time.Duration) bool {
		select {
		case got := <-p.FeedbackChannel:
			t.Check(fmt.Sprint(got) == fmt.Sprint(want), "verdicts", "%s: reports %v instead of %v", what, got, want)
			for _, w := range want {
				t.Count(fmt.Sprintf("lists of proofs with verdict %v", w), 1)
			}
			return true
		case <-time.After(limit):
			return false
		}
	}}
}

var (
	_ = libunlynxaddrm.AddRmProofCreation
	_ = libunlynxdetertag.DeterministicTagSequence
	_ = libunlynxkeyswitch.KeySwitchSequence
)
